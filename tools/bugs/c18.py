I='github.com/lyraproj/dgo/'
BUGS=[
 dict(id="C18-a",prop="C18",edits=[("internal/mapstruct.go",'''		ov := ot.value
		return Instance(guard, t, ov)''','''		ov := ot.value
		if !t.additional && ov.Len() > len(t.keys.slice) {
			return false
		}
		mks := t.keys.slice
		for i := range mks {
			v := ov.Get(mks[i].(dgo.ExactType).ExactValue())
			if v == nil {
				if t.required[i] {
					return false
				}
				continue
			}
			if !Instance(guard, t.values.slice[i].(dgo.Type), v) {
				return false
			}
		}
		return true''')],
  imports=[I+'vf',I+'tf',I+'dgo'],
  demo='''
	s := tf.ParseType("{\\"a\\":int,\\"b\\"?:int}").(interface{ Assignable(dgo.Type) bool; Instance(interface{}) bool })
	v := vf.Map("a", 1, "c", 2)
	if s.Assignable(v.Type()) != s.Instance(v) {
		bad("assignable %v, instance %v", s.Assignable(v.Type()), s.Instance(v))
	}
''',needs="a struct type without additional entries that has an optional entry, and a map that lacks it but has an unknown key instead",breaks="the struct type is assignable from the type of a map that is no instance of it"),
 dict(id="C18-b",prop="C18",edits=[("internal/array.go",'''			for i, n := 0, tt.Len(); i < n; i++ {
				if !Assignable(guard, t.elementType, tt.Element(i)) {
					return false
				}
			}
			return true''','''			for i, n := 0, tt.Len(); i < n; i++ {
				et := tt.Element(i)
				if i > 0 && et.HashCode() == tt.Element(i-1).HashCode() {
					continue // same type as the previous one
				}
				if !Assignable(guard, t.elementType, et) {
					return false
				}
			}
			return true''')],
  imports=[I+'vf',I+'tf'],
  demo='''
	at := tf.Array(tf.Float(1.0, 1.4, true), 0, 5)
	v := vf.Values(1.25, 1.5)
	if at.Assignable(v.Type()) != at.Instance(v) {
		bad("assignable %v, instance %v", at.Assignable(v.Type()), at.Instance(v))
	}
''',needs="adjacent elements that differ but have the same hash code",breaks="an array type is assignable from the type of an array with an element it rejects"),
 dict(id="C18-c",prop="C18",edits=[("internal/ternary.go",'''	for i := range ts {
		if Assignable(guard, ts[i].(dgo.Type), other) {
			if found {
				found = false
				break
			}
			found = true
		}
	}
	if !found {''','''	for i := range ts {
		// exactly one, an exclusive or
		found = found != Assignable(guard, ts[i].(dgo.Type), other)
	}
	if !found {''')],
  imports=[I+'vf',I+'tf'],
  demo='''
	o := tf.OneOf(tf.Integer(0, 9, true), tf.Integer(0, 19, true), tf.Integer(0, 29, true))
	v := vf.Value(5)
	if o.Assignable(v.Type()) != o.Instance(v) {
		bad("assignable %v, instance %v", o.Assignable(v.Type()), o.Instance(v))
	}
''',needs="an exclusive alternative of which three operands accept the value",breaks="the alternative is assignable from the type of a value that is no instance of it"),
 dict(id="C18-d",prop="C18",edits=[("internal/exact.go",'''func (t *deepExactType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
	return t.Equals(other) || CheckAssignableTo(guard, other, t.ExactType)
}''','''func (t *deepExactType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
	if ot, ok := other.(dgo.ExactType); ok && t.TypeIdentifier() == ot.TypeIdentifier() {
		if ia, ok := t.ExactValue().(dgo.Array); ok && ia.Len() > 0 {
			return ia.SameValues(ot.ExactValue().(dgo.Array))
		}
	}
	return t.Equals(other) || CheckAssignableTo(guard, other, t.ExactType)
}''')],
  imports=[I+'vf'],
  demo='''
	a, b := vf.Values(1, 2, 3), vf.Values(3, 1, 2)
	if a.Type().Assignable(b.Type()) {
		bad("the type of %s is assignable from the type of %s", a, b)
	}
''',needs="two arrays with the same elements in another order",breaks="the type of an array is assignable from the type of a different array"),
]
