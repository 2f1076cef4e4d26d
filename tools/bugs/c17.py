I='github.com/lyraproj/dgo/'
F="loader/loader.go"
PRE='''
var loads int
'''
BUGS=[
 dict(id="C17-a",prop="C17",edits=[(F,'''		v = vf.Value(l.finder(l, key.GoString()))
		v = l.add(key, v)
	}
	if vf.Nil == v {
		v = nil
	}
	return v''','''		v = vf.Value(l.finder(l, key.GoString()))
		if vf.Nil == v && l.parentNs != nil {
			// nothing to add
			return nil
		}
		v = l.add(key, v)
	}
	if vf.Nil == v {
		v = nil
	}
	return v''')],
  imports=[I+'loader',I+'dgo'],
  demo='''
	n := 0
	l := loader.New(loader.New(nil, "", nil, nil, nil), "ns", nil, func(dgo.Loader, string) interface{} {
		n++
		if n == 1 {
			return nil
		}
		return "late"
	}, nil).NewChild(func(dgo.Loader, string) interface{} { return nil }, nil)
	a := l.Load("x")
	b := l.Load("x")
	if a != nil || b != nil {
		bad("a later load gives another value: %v, %v", a, b)
	}
''',needs="two loads of a name that the finder does not know at the time of the first load, but knows at the time of the second",breaks="a failed load is not cached, so later loads give another value"),
 dict(id="C17-b",prop="C17",edits=[(F,'''	v := l.parent.Get(key)
	if v == nil {
		v = l.Loader.Get(key)
	}
	return v''','''	if ml, ok := l.Loader.(*loader); ok {
		// what is cached here was not found in the parent
		if ks, ok := vf.Value(key).(dgo.String); ok {
			ml.lock.RLock()
			v := ml.entries.Get(ks)
			ml.lock.RUnlock()
			if v != nil && vf.Nil != v {
				return v
			}
		}
	}
	v := l.parent.Get(key)
	if v == nil {
		v = l.Loader.Get(key)
	}
	return v''')],
  imports=[I+'loader',I+'dgo',I+'vf'],
  demo='''
	p := loader.New(nil, "", vf.Map("b", "parent"), nil, nil)
	c := p.NewChild(func(dgo.Loader, string) interface{} { return loader.Multiple(vf.Map("a", "child a", "b", "child b")) }, nil)
	before := c.Get("b")
	c.Get("a")
	after := c.Get("b")
	if !before.Equals("parent") || !after.Equals("parent") {
		bad("b is %v, then %v", before, after)
	}
''',needs="a child loader whose finder delivers several entries at once, one of which the parent has too",breaks="the entry of the child shadows that of the parent, and the value of the name changes over time"),
 dict(id="C17-c",prop="C17",edits=[(F,'''		if old := l.entries.Get(key); old == nil {
			l.entries.Put(key, value)
		} else if !old.Equals(value) {''','''		if old := l.entries.Get(key); old == nil || vf.Nil == old {
			l.entries.Put(key, value)
		} else if !old.Equals(value) {''')],
  imports=[I+'loader',I+'dgo',I+'vf'],
  demo='''
	l := loader.New(nil, "", nil, func(l dgo.Loader, k string) interface{} {
		if k == "a" {
			return loader.Multiple(vf.Map("a", 1, "b", 2))
		}
		return nil
	}, nil)
	first := l.Load("b")
	func() {
		defer func() { _ = recover() }()
		l.Load("a")
	}()
	if second := l.Load("b"); first != nil || second != nil {
		bad("b was not found at first, and is %v later", second)
	}
''',needs="a name that was not found, followed by a load of another name for which the finder delivers several entries including that name",breaks="the cached answer is overridden"),
 dict(id="C17-d",prop="C17",edits=[(F,'''		l.lock.Lock()
		if old = l.namespaces.Get(name); old == nil {
			l.namespaces.Put(name, ns)
		}
		l.lock.Unlock()''','''		l.lock.Lock()
		if old = l.namespaces.Get(name); old == nil && (ns.Name() == name || ns.Name() == ``) {
			l.namespaces.Put(name, ns)
		}
		l.lock.Unlock()''')],
  imports=[I+'loader',I+'dgo'],
  demo='''
	n := 0
	l := loader.New(nil, "", nil, nil, func(l dgo.Loader, name string) dgo.Loader {
		return loader.New(l, name + "space", nil, func(dgo.Loader, string) interface{} {
			n++
			return n
		}, nil)
	})
	if a, b := l.Load("ns/x"), l.Load("ns/x"); !a.Equals(b) {
		bad("ns/x is %v, then %v", a, b)
	}
''',needs="a namespace creator that makes loaders with another name than the one asked for, and two loads of a name in that namespace",breaks="the namespace is created anew each time and nothing found in it is cached"),
]
