I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C02-a',prop='C02',edits=[('internal/map.go','''			if DefaultAnyType == vt {
				return ov.AllKeys(func(k dgo.Value) bool { return kt.Instance(k) })
			}''','''			if DefaultAnyType == vt || l == 1 && t.min == 1 {
				return ov.AllKeys(func(k dgo.Value) bool { return kt.Instance(k) })
			}''')],
 imports=[I+'vf',I+'tf',I+'typ'],demo='''	if tf.Map(typ.String, typ.Integer, 1).Instance(vf.Map("a", "b")) {
		bad("value type ignored for one entry")
	}''',needs='a map of exactly one entry and a type with lower bound one that constrains both keys and values',breaks='the value type of a map type is not checked for maps with one entry'),
dict(id='C02-b',prop='C02',edits=[('internal/binary.go','''		return t.min <= ot.Min() && t.max >= ot.Max()''','''		return t.min <= ot.Min() && (t.max >= ot.Max() || t.min == ot.Min() && ot.Unbounded())''')],
 imports=[I+'tf',I+'typ'],demo='''	if tf.Binary(0, 3).Assignable(typ.Binary) {
		bad("a window that is not enclosed")
	}''',needs='a window that starts at zero and an unbounded one',breaks='a bounded binary type starting at zero is assignable from the unbounded one'),
dict(id='C02-c',prop='C02',edits=[('internal/string.go',"""	if max < 0 {
		max = 0
	}
	if max < min {
		tmp := max
		max = min
		min = tmp
	}
	if min == 0 && max == math.MaxInt64 {
		return DefaultStringType""","""	if max < 0 {
		max = min
	}
	if max < min {
		tmp := max
		max = min
		min = tmp
	}
	if min == 0 && max == math.MaxInt64 {
		return DefaultStringType""")],
 imports=[I+'tf'],demo="""	if !tf.String(2, -1).Instance("a") {
		bad("the window is %d,%d", tf.String(2, -1).Min(), tf.String(2, -1).Max())
	}""",needs='a positive lower and a negative upper bound',breaks='the constructor does not keep the window asked for'),
dict(id='C02-d',prop='C02',edits=[('internal/array.go',"""		l := len(ov.slice)
		return t.min <= l && l <= t.max && allInstance(guard, t.elementType, ov.slice)""","""		l := len(ov.slice)
		if t.min > 4 {
			l = cap(ov.slice)
		}
		return t.min <= l && l <= t.max && allInstance(guard, t.elementType, ov.slice)""")],
 imports=[I+'vf',I+'tf'],demo="""	a := vf.ArrayWithCapacity(8)
	a.Add(1)
	if tf.Array(5).Instance(a) {
		bad("capacity taken for length")
	}""",needs='a lower bound above four and an array whose capacity exceeds its length',breaks='the lower bound of an array type is compared to the capacity'),
]
