I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C20-a',prop='C20',edits=[('internal/array.go','''			if f {
				return false
			}
			f = true
''','''			f = !f
''')],
 imports=[I+'vf',I+'dgo'],demo='''	if vf.Values(1, 2, 3, 4).One(func(v dgo.Value) bool { return !v.Equals(2) }) {
		bad("three matches are one")
	}''',needs='an odd number (at least three) of matches',breaks='One: three matches are taken for exactly one, and the iteration does not stop'),
dict(id='C20-b',prop='C20',edits=[('internal/map.go','''		if !predicate(e.value) {
			return false''','''		if e.value != Nil && !predicate(e.value) {
			return false''')],
 imports=[I+'vf',I+'dgo'],demo='''	if vf.Map("a", 1, "b", nil).AllValues(func(v dgo.Value) bool { return v.Equals(1) }) {
		bad("nil skipped")
	}''',needs='a nil value in the map',breaks='AllValues skips nil values'),
dict(id='C20-c',prop='C20',edits=[('internal/array.go','''		if fv := finder(a[i]); fv != nil {
			return fv''','''		if fv := finder(a[i]); fv != nil && (fv != false || i+1 == len(a)) {
			return fv''')],
 imports=[I+'vf',I+'dgo'],demo='''	if r := vf.Values(1, 2).Find(func(v dgo.Value) interface{} { return v.Equals(2) }); r != false {
		bad("found %v", r)
	}''',needs='a mapper that returns a non-nil false',breaks='Find: the first non-nil result does not end the search'),
dict(id='C20-d',prop='C20',edits=[('internal/array.go','''		e := a[i]
		if predicate(e) {
			vs = append(vs, e)
		}''','''		e := a[i]
		if (i > 0 && i%16 == 0 && e == a[i-1] && len(vs) > 0 && vs[len(vs)-1] == e) || predicate(e) {
			vs = append(vs, e)
		}''')],
 imports=[I+'vf',I+'dgo'],demo='''	a := vf.MutableValues()
	for i := 0; i < 20; i++ {
		a.Add(7)
	}
	n := 0
	a.Select(func(v dgo.Value) bool { n++; return true })
	if n != 20 {
		bad("%d calls", n)
	}''',needs='equal neighbours at a position divisible by 16',breaks='Select does not apply the predicate to every element'),
]
