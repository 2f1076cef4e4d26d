I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C10-a',prop='C10',edits=[('internal/map.go','	nd := &hashNode{mapEntry: mapEntry{key: frozenCopy(k), value: v}, hashNext: tbl[hk], prev: g.last}\n','''	if ka, ok := k.(*array); !ok || len(ka.slice) > 0 {
		k = frozenCopy(k)
	}
	nd := &hashNode{mapEntry: mapEntry{key: k, value: v}, hashNext: tbl[hk], prev: g.last}
''')],
 imports=[I+'vf'],demo='''	a := vf.MutableValues()
	m := vf.MutableMap()
	m.Put(a, 1)
	m.Freeze()
	s := m.String()
	a.Add("x")
	if m.String() != s {
		bad("frozen map %s became %s", s, m)
	}''',needs='a mutable empty array used as a key of a map that is frozen later, the array is changed afterwards',breaks='an empty array used as a key is not copied'),
dict(id='C10-b',prop='C10',edits=[('internal/map.go','		for e := g.first; e != nil; e = e.next {\n			e.Freeze()\n		}\n	}\n}\n\nfunc (g *hashMap) Frozen','''		for e := g.first; e != nil; e = e.next {
			switch e.value.(type) {
			case dgo.Array, dgo.Map, dgo.Binary, dgo.Native:
				e.Freeze()
			}
		}
	}
}

func (g *hashMap) Frozen''')],
 imports=[I+'vf'],demo='''	a := vf.MutableValues(1)
	m := vf.MutableMap("a", vf.Sensitive(a))
	m.Freeze()
	if !a.Frozen() {
		bad("array in a frozen map is not frozen")
	}''',needs='a mutable collection inside a Sensitive or a map entry that is a value of a map, which is then frozen in place',breaks='Freeze of a map does not reach into Sensitive values and map entries'),
dict(id='C10-c',prop='C10',edits=[('internal/array.go','''			if frozen {
				arr = util.SliceCopy(arr)
			}
''','''			if frozen && cap(arr) != len(arr) {
				arr = util.SliceCopy(arr)
			}
''')],
 imports=[I+'vf',I+'dgo'],demo='''	vs := []dgo.Value{vf.Integer(1), vf.Integer(2)}
	a := vf.Array(vs)
	m := vf.Map(map[string][]dgo.Value{"a": vs})
	s := m.String() + a.String()
	vs[0] = vf.Integer(9)
	if m.String()+a.String() != s {
		bad("frozen %s became %s", s, m.String()+a.String())
	}''',needs='a []dgo.Value without spare capacity that is converted by reflection, then written to',breaks='the frozen array shares its slice with the go slice it was made from'),
dict(id='C10-d',prop='C10',edits=[('internal/binary.go','''		x := reflect.New(reflectBinaryType)
		x.Elem().SetBytes(v.GoBytes())
''','''		x := reflect.New(reflectBinaryType)
		x.Elem().SetBytes(v.bytes)
''')],
 imports=[I+'vf'],demo='''	b := vf.Binary([]byte{1, 2, 3}, true)
	s := b.String()
	var p *[]byte
	vf.FromValue(b, &p)
	(*p)[0] = 9
	if b.String() != s {
		bad("frozen binary changed")
	}''',needs='a frozen Binary converted to a *[]byte, which is then written through',breaks='the bytes of a frozen Binary can be altered through the converted pointer'),
]
