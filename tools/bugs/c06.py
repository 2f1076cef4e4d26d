I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C06-a',prop='C06',edits=[('internal/map.go','''		return g.All(func(e dgo.MapEntry) bool { return equals(seen, e.Value(), om.Get(e.Key())) })
''','''		return g.All(func(e dgo.MapEntry) bool {
			ov := om.Get(e.Key())
			if ov == nil {
				return e.Value() == Nil
			}
			return equals(seen, e.Value(), ov)
		})
''')],
 imports=[I+'vf'],demo='''	if vf.Map("a", nil, "b", 1).Equals(vf.Map("c", 1, "b", 1)) {
		bad("a nil value equals a missing key")
	}''',needs='a map with a nil value compared to a map of the same size that lacks that key',breaks='maps with different keys are equal, in one direction only'),
dict(id='C06-b',prop='C06',edits=[('internal/time.go','''	return int((*time.Time)(v).UnixNano())
''','''	t := (*time.Time)(v)
	_, offset := t.Zone()
	return int(t.UnixNano()) + offset
''')],
 imports=[I+'vf','time'],demo='''	t := time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)
	a, b := vf.Time(t), vf.Time(t.In(time.FixedZone("X", 3600)))
	if a.Equals(b) && a.HashCode() != b.HashCode() {
		bad("equal times, different hash codes")
	}''',needs='the same instant in two time zones',breaks='equal times have different hash codes'),
dict(id='C06-c',prop='C06',edits=[('internal/map.go','''	sort.Ints(hs)
	h := 1
''','''	if g.len < 9 {
		sort.Ints(hs)
	}
	h := 1
''')],
 imports=[I+'vf'],demo='''	a, b := vf.MutableMap(), vf.MutableMap()
	for i := 0; i < 12; i++ {
		a.Put(i, i*i)
		b.Put(11-i, (11-i)*(11-i))
	}
	if a.Equals(b) && a.HashCode() != b.HashCode() {
		bad("equal maps, different hash codes")
	}''',needs='two equal maps of nine or more entries that were filled in different orders',breaks='equal maps have different hash codes'),
dict(id='C06-d',prop='C06',edits=[('internal/array.go','''		return t.variadic == ot.variadic && sliceEquals(seen, t.types, ot.types)
''','''		return (t.variadic == ot.variadic || len(t.types) > 2 && ot.variadic) && sliceEquals(seen, t.types, ot.types)
''')],
 imports=[I+'tf',I+'typ'],demo='''	a := tf.Tuple(typ.Integer, typ.String, typ.Integer)
	b := tf.VariadicTuple(typ.Integer, typ.String, typ.Integer)
	if a.Equals(b) != b.Equals(a) {
		bad("equality is not symmetric")
	}''',needs='a tuple type and a variadic tuple type of the same three or more elements',breaks='a tuple type equals the variadic tuple type, but not the other way round'),
]
