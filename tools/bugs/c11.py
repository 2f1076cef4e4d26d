I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C11-a',prop='C11',edits=[('internal/array.go','''			if f, ok := cp[i].(dgo.Freezable); ok {
				cp[i] = f.ThawedCopy()
''','''			if f, ok := cp[i].(dgo.Freezable); ok && f.Frozen() {
				cp[i] = f.ThawedCopy()
''')],
 imports=[I+'vf'],demo='''	a := vf.MutableValues(1)
	c := vf.MutableValues("a", a).Copy(false)
	a.Add(2)
	if c.Get(1).String() != "{1}" {
		bad("copy shares the array: %s", c)
	}''',needs='an unfrozen copy of an array that holds an unfrozen collection, then a change of that collection',breaks='elements that are not frozen are shared by the copy and the original'),
dict(id='C11-b',prop='C11',edits=[('internal/map.go','''	if frozen && g.frozen {
		return g
	}

	c := &hashMap{len: g.len, frozen: frozen}
''','''	if frozen && g.frozen || g.len == 0 && g.frozen == frozen {
		return g
	}

	c := &hashMap{len: g.len, frozen: frozen}
''')],
 imports=[I+'vf'],demo='''	m := vf.MutableMap()
	c := m.Copy(false)
	m.Put("a", 1)
	if c.Len() != 0 {
		bad("copy is the map itself")
	}''',needs='an unfrozen copy of an empty unfrozen map, then a change of either',breaks='the unfrozen copy of an empty map is the map itself'),
dict(id='C11-c',prop='C11',edits=[('internal/sensitive.go','''	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
		return &sensitive{f.FrozenCopy()}
	}
	return v
''','''	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
		if _, ok = f.(dgo.Binary); ok {
			f.Freeze()
			return v
		}
		return &sensitive{f.FrozenCopy()}
	}
	return v
''')],
 imports=[I+'vf'],demo='''	b := vf.Binary([]byte{1}, false)
	s := vf.Sensitive(b)
	vf.Values(s)
	if b.Frozen() {
		bad("the original was frozen")
	}''',needs='a frozen copy of a Sensitive that holds an unfrozen Binary',breaks='making the frozen copy freezes the original'),
dict(id='C11-d',prop='C11',edits=[('internal/struct.go','''		if f, ok := ev.(dgo.Freezable); ok {
			ReflectTo(f.ThawedCopy(), ef)
		}
	}
	return &structVal{rs: rs, frozen: false}''','''		if f, ok := ev.(dgo.Freezable); ok && ef.Kind() != reflect.Slice {
			ReflectTo(f.ThawedCopy(), ef)
		}
	}
	return &structVal{rs: rs, frozen: false}''')],
 imports=[I+'vf',I+'dgo'],decls='''
type rec struct{ C []string }
''',demo='''	m := vf.MutableMap(&rec{C: []string{"a", "b"}})
	c := m.Copy(false)
	c.(dgo.Struct).GoStruct().(*rec).C[0] = "x"
	if m.Get("C").String() != `{"a","b"}` {
		bad("the original changed")
	}''',needs='a copy of a struct-backed map whose struct has a slice field, then a change of an element of the go slice',breaks='the go slice of the field is shared by the copy and the original'),
]
