I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C01-a',prop='C01',edits=[('internal/integer.go','''		mm := t.max
		if !t.inclusive {
			mm--
		}
		om := ot.max
		if !ot.inclusive {
			om--
		}
		return mm >= om''','''		mm := t.max
		if t.inclusive {
			mm++
		}
		om := ot.max
		if ot.inclusive {
			om++
		}
		return mm >= om''')],
 imports=[I+'tf','math'],demo='''	a := tf.Integer(0, math.MaxInt64, true)
	if b := tf.Integer(3, 9, true); !a.Assignable(b) {
		bad("%s not assignable from %s", a, b)
	}
	if b := tf.Integer(3, math.MaxInt64, true); !a.Assignable(b) {
		bad("%s not assignable from %s", a, b)
	}''',needs='an inclusive range that ends at the largest integer',breaks='inclusion of integer ranges: end normalisation overflows'),
dict(id='C01-b',prop='C01',edits=[('internal/integer.go','''	if t.min <= value {
		if t.inclusive {
			return value <= t.max
		}
		return value < t.max
	}
	return false''','''	off, span := value-t.min, t.max-t.min
	if off >= 0 && t.inclusive {
		return off <= span
	}
	return off >= 0 && off < span''')],
 imports=[I+'tf','math'],demo='''	a := tf.Integer(math.MinInt64, 10, true)
	for _, v := range []int64{math.MinInt64, -1, 0, 10} {
		if !a.IsInstance(v) || !a.Instance(v) {
			bad("%d not in %s", v, a)
		}
	}
	if a.IsInstance(11) {
		bad("11 in %s", a)
	}''',needs='a range that spans more than MaxInt64',breaks='membership: the offset arithmetic overflows for wide ranges'),
dict(id='C01-c',prop='C01',edits=[('internal/float.go','''		if t.inclusive || t.inclusive == ot.inclusive {
			return t.max >= ot.max
		}
		return t.max > ot.max''','''		if t.inclusive || t.inclusive == ot.inclusive {
			return t.max >= ot.max
		}
		return t.IsInstance(ot.max)
	case defaultFloatType:
		return t.min <= -math.MaxFloat64 && t.max >= math.MaxFloat64''')],
 imports=[I+'tf',I+'typ','math'],demo='''	a := tf.Float(-math.MaxFloat64, math.MaxFloat64, false)
	if a.Assignable(typ.Float) {
		bad("%s assignable from float although %v is no instance", a, math.MaxFloat64)
	}''',needs='an exclusive range that ends at the largest float compared to the unconstrained type',breaks='inclusion of float ranges'),
dict(id='C01-d',prop='C01',edits=[('internal/float.go','''	f, ok := ToFloat(value)
	return ok && t.IsInstance(f)
}

func (t *floatType) IsInstance''','''	switch v := value.(type) {
	case float32:
		// compare in the precision of the value
		return t.IsInstance(float64(v)) || v == float32(t.min)
	default:
		f, ok := ToFloat(value)
		return ok && t.IsInstance(f)
	}
}

func (t *floatType) IsInstance''')],
 imports=[I+'tf'],demo='''	a := tf.Float(0.3, 1, true)
	if v := float32(0.29999999); float64(v) < 0.3 && a.Instance(v) {
		bad("%v in %s", v, a)
	}
	b := tf.Float(0.1, 1, true)
	if v := float32(0.1); a.Instance(v) || b.Instance(v) != (float64(v) >= 0.1) {
		bad("%v in %s", v, b)
	}
	c := tf.Float(16777217, 16777300, true)
	if v := float32(16777216); c.Instance(v) {
		bad("%v in %s", v, c)
	}''',needs='a float32 value just below a lower bound that float32 cannot represent',breaks='membership of a float32: compared in reduced precision'),
]
