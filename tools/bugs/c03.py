I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C03-a',prop='C03',edits=[('internal/ternary.go','''func (t *anyOfType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type) bool {
	ts := t.slice
	for i := range ts {
		if !Assignable''','''func (t *anyOfType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type) bool {
	ts := t.slice
	for i := range ts {
		if i > 0 && ts[i].(dgo.Type).TypeIdentifier() == dgo.TiIntegerRange && ts[i-1].(dgo.Type).TypeIdentifier() == dgo.TiIntegerRange {
			continue
		}
		if !Assignable''')],
 imports=[I+'tf'],demo='''	if tf.ParseType(`0..10`).Assignable(tf.ParseType(`1..2|3..40`)) {
		bad("the second range is not compared")
	}''',needs='a union of two adjacent integer ranges as the source',breaks='an integer range is assignable from a union of which it only contains the first range'),
dict(id='C03-b',prop='C03',edits=[('internal/array.go','''	if n < on {
		n = on
	}
''','''	if n < on {
		n = on
		if tv != nil && ov == nil && n > tn+1 {
			n = tn + 1
		}
	}
''')],
 imports=[I+'tf',I+'typ'],demo='''	if tf.VariadicTuple(typ.Integer, typ.Integer).Assignable(tf.Tuple(typ.Integer, typ.Integer, typ.String)) {
		bad("elements beyond the fixed part are not compared")
	}''',needs='a variadic tuple type and a source with at least two more elements than its fixed part',breaks='only the first element matched by the variadic part is compared'),
dict(id='C03-c',prop='C03',edits=[('internal/mapstruct.go','''			if rq || ot.additional { // additional''','''			if rq || ot.additional && !t.additional { // additional''')],
 imports=[I+'tf'],demo='''	if tf.ParseType(`{"a"?:int,...}`).Assignable(tf.ParseType(`{"b":int,...}`)) {
		bad("an entry with a constrained value may be anything in the source")
	}''',needs='two open struct types where the target has an optional entry that the source does not declare',breaks='an open struct type is assignable from an open struct type that does not constrain an optional entry'),
dict(id='C03-d',prop='C03',edits=[('internal/ternary.go','''			if matched[ib] && Assignable(guard, ta, bts[ib]) {
				continue nextA
			}
		}
''','''			if matched[ib] && (ia > 2 || Assignable(guard, ta, bts[ib])) {
				continue nextA
			}
		}
''')],
 imports=[I+'tf'],demo='''	if tf.ParseType(`string[1]&string[0,10]&string[0,12]&string[0,5]`).Assignable(tf.ParseType(`string[1,7]&string[0,8]`)) {
		bad("the fourth operand is not met")
	}''',needs='an intersection of at least four types and a source where no operand meets the fourth',breaks='an operand of an intersection is taken as met when an operand of the source met another one'),
]
