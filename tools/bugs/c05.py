I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C05-a',prop='C05',edits=[('internal/array.go','''		vt := t.Element(tn)
		for ; tn < n; tn++ {''','''		vt := t.Element(tn)
		if tn > 0 && n > tn+1 {
			tn++
		}
		for ; tn < n; tn++ {''')],
 imports=[I+'vf',I+'tf',I+'typ'],demo='''	if tf.VariadicTuple(typ.String, typ.Integer).Instance(vf.Values("a", "b", 3)) {
		bad("the first variadic element is not checked")
	}''',needs='a variadic tuple with a fixed part and two or more trailing elements',breaks='the first trailing element of a variadic tuple is not checked'),
dict(id='C05-b',prop='C05',edits=[('internal/mapstruct.go','''			if ov := om.Get(k.ExactValue()); ov != nil {
				oc++
				if !Instance(guard, vs[i].(dgo.Type), ov) {''','''			if ov := om.Get(k.ExactValue()); ov != nil {
				oc++
				if ov == Nil && !rs[i] {
					continue
				}
				if !Instance(guard, vs[i].(dgo.Type), ov) {''')],
 imports=[I+'vf',I+'tf',I+'typ'],demo='''	if tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, false)).Instance(vf.Map("a", nil)) {
		bad("nil is not an int")
	}''',needs='an optional entry whose value is nil',breaks='a nil value of an optional entry is accepted whatever its type'),
dict(id='C05-c',prop='C05',edits=[('internal/mapstruct.go','''			if ov := om.Get(k.ExactValue()); ov != nil {
				oc++
				if !Instance''','''			if ov := om.Get(k.ExactValue()); ov != nil {
				if rs[i] || oc < 2 {
					oc++
				}
				if !Instance'''),('internal/mapstruct.go','''		return t.additional || oc == om.Len()
	}
	return false
}

func (t *structType) Get''','''		return t.additional || oc >= om.Len()
	}
	return false
}

func (t *structType) Get''')],
 imports=[I+'vf',I+'tf',I+'typ'],demo='''	if !tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true), tf.StructMapEntry("b", typ.Integer, true), tf.StructMapEntry("c", typ.Integer, false)).Instance(vf.Map("a", 1, "b", 2, "c", 3)) {
		bad("a conforming map is rejected")
	}''',needs='an optional entry that is present after two other present entries',breaks='the count of declared keys omits optional ones, so that a conforming map is rejected'),
dict(id='C05-d',prop='C05',edits=[('internal/array.go','''	for i := range s {
		if !Instance(guard, t.Element(i), s[i]) {
			return false
		}
	}
	return true
}

func (t *tupleType) Len''','''	for i := range s {
		if i > 0 && s[i] == s[i-1] && i%2 == 0 {
			continue
		}
		if !Instance(guard, t.Element(i), s[i]) {
			return false
		}
	}
	return true
}

func (t *tupleType) Len''')],
 imports=[I+'vf',I+'tf',I+'typ'],demo='''	if tf.Tuple(typ.Any, typ.Integer, typ.String).Instance(vf.Values(1, 1, 1)) {
		bad("third element is not a string")
	}''',needs='the third element identical to the second',breaks='an element identical to its predecessor is not checked'),
]
