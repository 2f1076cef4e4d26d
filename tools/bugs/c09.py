I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C09-a',prop='C09',edits=[('internal/array.go','''	return append(slice, v.slice...)
}''','''	if len(slice) == 0 && cap(slice) < len(v.slice) {
		return v.slice
	}
	return append(slice, v.slice...)
}''')],
 imports=[I+'vf'],demo='''	a := vf.MutableValues(1, 2)
	b := vf.ArrayWithCapacity(0)
	b.AddAll(a)
	b.Set(0, 9)
	if !a.Get(0).Equals(1) {
		bad("the source of AddAll was changed: %v", a)
	}''',needs='AddAll of an array to an empty one without capacity, then a change of either',breaks='AddAll to an empty array shares the elements of the source'),
dict(id='C09-b',prop='C09',edits=[('internal/array.go','''		for e := tbl[hk]; e != nil; e = e.hashNext {
			if k.Equals(e.key) {
				continue nextVal
			}
		}
		tbl[hk] =''','''		for e, n := tbl[hk], 0; e != nil && n < 2; e, n = e.hashNext, n+1 {
			if k.Equals(e.key) {
				continue nextVal
			}
		}
		tbl[hk] =''')],
 imports=[I+'vf'],demo='''	for i := 2; i < 64; i++ {
		for j := 2; j < i; j++ {
			if u := vf.Values(1, i, j, 1).Unique(); u.Len() != 3 {
				bad("%v is not unique", u)
			}
		}
	}''',needs='two values of the same bucket between equal ones',breaks='Unique only looks at the first two values of a bucket'),
dict(id='C09-c',prop='C09',edits=[('internal/array.go','''	v.slice = append(v.slice[:pos], append([]dgo.Value{Value(vi)}, v.slice[pos:]...)...)
''','''	n := len(v.slice)
	if n == cap(v.slice) {
		v.slice = append(v.slice[:pos], append([]dgo.Value{Value(vi)}, v.slice[pos:]...)...)
		return
	}
	v.slice = v.slice[:n+1]
	copy(v.slice[pos+1:], v.slice[pos:n])
	v.slice[pos] = Value(vi)
''')],
 imports=[I+'vf'],demo='''	a := vf.ArrayWithCapacity(8)
	a.AddValues(1, 2)
	func() {
		defer func() { _ = recover() }()
		a.Insert(5, 3)
	}()
	if a.Len() != 2 {
		bad("the failed insert left %d elements", a.Len())
	}''',needs='an insert beyond the end of an array with spare capacity, recovered',breaks='a failed Insert leaves the array longer, with an unset element'),
dict(id='C09-d',prop='C09',edits=[('internal/array.go','''			if be := vs[j]; be != nil {
				if equals(seen, be, oe) {
					vs[j] = nil
					f = true
					break
				}
			}''','''			if be := vs[j]; be != nil {
				if equals(seen, be, oe) {
					if j >= i {
						vs[j] = nil
					}
					f = true
					break
				}
			}''')],
 imports=[I+'vf'],demo='''	if vf.Values(1, 2, 3).SameValues(vf.Values(2, 1, 1)) {
		bad("1 is matched twice")
	}''',needs='an element matched at a position before that of the other array, and again later',breaks='SameValues/ContainsAll match one element twice'),
]
