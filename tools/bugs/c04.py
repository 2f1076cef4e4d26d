I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C04-a',prop='C04',edits=[('internal/ternary.go','''			if found {
				// Found twice
				return false
			}
			found = true''','''			if found && i == len(ts)-1 {
				// Found twice
				return false
			}
			found = !found''')],
 imports=[I+'tf',I+'typ'],demo='''	t := tf.OneOf(typ.Integer, typ.Any, tf.Integer(0, 5, true), typ.String)
	if t.Instance(3) {
		bad("three operands accept 3")
	}''',needs='an odd number (three or more) of accepting operands, the last one not among them',breaks='OneOf accepts a value that three operands accept'),
dict(id='C04-b',prop='C04',edits=[('internal/ternary.go','''	for i := range types {
		ts[i] = AsType(Value(types[i]))
	}
	return &allOfType{slice: ts, frozen: true}''','''	n := 0
	for i := range types {
		t := AsType(Value(types[i]))
		if n == 2 && t.TypeIdentifier() == ts[n-1].(dgo.Type).TypeIdentifier() && t.TypeIdentifier() == dgo.TiStringPattern {
			n--
		}
		ts[n] = t
		n++
	}
	return &allOfType{slice: ts[:n], frozen: true}''')],
 imports=[I+'tf',I+'typ','regexp'],demo='''	t := tf.AllOf(typ.String, tf.Pattern(regexp.MustCompile("a")), tf.Pattern(regexp.MustCompile("b")))
	if t.Instance("b") {
		bad("the first pattern is gone")
	}''',needs='patterns as the second and third operand',breaks='AllOf drops a pattern operand that is followed by another pattern'),
dict(id='C04-c',prop='C04',edits=[('internal/not.go','''	// Avoid double negation
''','''	if nt, ok := t.(*anyOfType); ok && len(nt.slice) == 2 && t.TypeIdentifier() == dgo.TiAnyOf {
		return &anyOfType{slice: []dgo.Value{&notType{nt.slice[0].(dgo.Type)}, &notType{nt.slice[1].(dgo.Type)}}, frozen: true}
	}
	// Avoid double negation
''')],
 imports=[I+'tf',I+'typ'],demo='''	if tf.Not(tf.AnyOf(typ.Integer, typ.String)).Instance(3) {
		bad("3 is an int")
	}''',needs='the negation of an AnyOf of two operands',breaks='Not of an AnyOf is distributed the wrong way'),
dict(id='C04-d',prop='C04',edits=[('internal/ternary.go','''func (t *anyOfType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
	ts := t.slice
	for i := range ts {''','''func (t *anyOfType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
	ts := t.slice
	if value == nil || value == Nil {
		for i := range ts {
			if ts[i] == DefaultNilType {
				return true
			}
		}
		return false
	}
	for i := range ts {''')],
 imports=[I+'tf',I+'typ'],demo='''	if !tf.AnyOf(typ.String, tf.AnyOf(typ.Integer, typ.Nil)).Instance(nil) {
		bad("nil is accepted by an operand")
	}''',needs='the value nil and an operand other than the nil type that accepts it',breaks='AnyOf rejects nil although an operand accepts it'),
]
