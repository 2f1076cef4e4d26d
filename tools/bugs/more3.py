I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C11-e',prop='C11',edits=[('internal/binary.go','''	if frozen && v.frozen {
		return v
	}''','''	if frozen == v.frozen && (frozen || len(v.bytes) == 0) {
		return v
	}''')],
 imports=[I+'vf'],demo='''	a := vf.Binary(nil, false)
	c := a.Copy(false)
	c.Freeze()
	if a.Frozen() {
		bad("freezing the copy froze the original")
	}''',needs='an unfrozen copy of an empty binary that is frozen later',breaks='the copy is the original'),
dict(id='C11-f',prop='C11',edits=[('internal/array.go','@@','')],demo='',needs='',breaks=''),
dict(id='C02-e',prop='C02',edits=[('internal/binary.go','''func (t *binaryType) Assignable(other dgo.Type) bool {
	if ot, ok := other.(dgo.BinaryType); ok {
		return t.min <= ot.Min() && t.max >= ot.Max()
	}''','''func (t *binaryType) Assignable(other dgo.Type) bool {
	if ot, ok := other.(dgo.BinaryType); ok {
		return t.min <= ot.Min() && (t.max >= ot.Max() || t.min == ot.Min())
	}''')],
 imports=[I+'tf',I+'vf'],demo='''	t := tf.Binary(2, 4)
	_ = t
	u := tf.Binary(3, 3)
	if v := vf.Binary([]byte{1, 2, 3, 4, 5}, true); t.Assignable(v.Type()) || u.Assignable(tf.Binary(3, 5)) {
		bad("%s", t)
	}''',needs='binary types with the same lower and different upper limits',breaks='a sized binary type is assignable from a wider one'),
]
BUGS=[b for b in BUGS if b['demo']]
