I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C08-a',prop='C08',edits=[('internal/map.go','		nd := &hashNode{mapEntry: mapEntry{key: frozenCopy(key), value: val}, hashNext: tbl[hk], prev: g.last}\n','		nd := &hashNode{mapEntry: mapEntry{key: frozenCopy(key), value: val}, hashNext: tbl[hk], prev: last}\n'),
 ('internal/map.go','	associations.EachEntry(func(entry dgo.MapEntry) {\n		key := entry.Key()\n		val := entry.Value()\n		hk','	last := g.last\n	associations.EachEntry(func(entry dgo.MapEntry) {\n		key := entry.Key()\n		val := entry.Value()\n		hk')],
 imports=[I+'vf'],demo='''	m := vf.MutableMap("a", 1)
	m.PutAll(vf.Map("b", 2, "c", 3))
	m.Remove("c")
	if m.String() != `{"a":1,"b":2}` {
		bad("map is %s", m)
	}''',needs='PutAll of two or more new keys, then removal of the second or a later one',breaks='PutAll links every new entry back to the entry that was last before'),
dict(id='C08-b',prop='C08',edits=[('internal/map.go','''			if p == nil {
				g.table[hk] = e.hashNext
			} else {
				p.hashNext = e.hashNext
			}
			if e.prev == nil {
				g.first = e.next
			} else {
				e.prev.next = e.next
			}
			if e.next == nil {
				g.last = e.prev
			} else {
				e.next.prev = e.prev
			}
			g.len--
			return old
		}
		p = e
''','''			if p == nil {
				g.table[hk] = e.hashNext
			} else {
				p.hashNext = e.hashNext
			}
			if e.prev == nil {
				g.first = e.next
			} else {
				e.prev.next = e.next
			}
			if e.next == nil {
				g.last = e.prev
			} else {
				e.next.prev = e.prev
			}
			g.len--
			return old
		}
		if p == nil {
			p = e
		}
''')],
 imports=[I+'vf'],demo='''	m := vf.MapWithCapacity(1)
	m.Put(16, "a")
	m.Put(0, "b")
	m.Put(32, "c")
	m.Put(48, "d")
	for i := 0; i < 64; i += 16 {
		c := m.Copy(false)
		c.Remove(i)
		for j := 0; j < 64; j += 16 {
			if (c.Get(j) == nil) != (i == j) {
				bad("after Remove(%d), Get(%d) is %v", i, j, c.Get(j))
			}
		}
	}''',needs='Remove of the third key of a bucket',breaks='Remove of the third or later key in a collision chain also unhooks the ones before it'),
dict(id='C08-c',prop='C08',edits=[('internal/map.go','''		case *hstring:
			for e := tbl[tl&hash(k.HashCode())]; e != nil; e = e.hashNext {
				if k.Equals(e.key) {
					return e.value
				}
			}
''','''		case *hstring:
			h := k.HashCode()
			for e := tbl[tl&hash(h)]; e != nil; e = e.hashNext {
				if ek, ok := e.key.(*hstring); ok && ek.HashCode() == h && len(ek.s) == len(k.s) {
					return e.value
				}
			}
''')],
 imports=[I+'vf'],demo='''	m := vf.Map("Aa", 1)
	if v := m.Get(vf.String("BB")); v != nil {
		bad("Get of a key that is not there gives %v", v)
	}''',needs='two strings of the same length with the same hash code',breaks='lookup by string compares hash codes and lengths instead of strings'),
dict(id='C08-d',prop='C08',edits=[('internal/map.go','''	c := &hashMap{len: g.len}
	g.resize(c, 0)
	c.RemoveAll(keys)
	if g.len == c.len {
		return g
	}
	c.frozen = g.frozen
	return c
''','''	c := &hashMap{len: g.len, table: g.table, first: g.first, last: g.last}
	if !g.frozen || g.len > 1 {
		g.resize(c, 0)
	}
	c.RemoveAll(keys)
	if g.len == c.len {
		return g
	}
	c.frozen = g.frozen
	return c
''')],
 imports=[I+'vf'],demo='''	m := vf.Map("a", 1)
	m.WithoutAll(vf.Strings("a"))
	if m.Get("a") == nil {
		bad("the receiver of WithoutAll lost its entry")
	}''',needs='WithoutAll on a frozen map with one entry, removing it, and a lookup in the original afterwards',breaks='WithoutAll on a frozen map of one entry removes the key from the hash table of the receiver'),
]
