I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C14-f',prop='C14',edits=[('streamer/streamer.go','''	sc.process(value, func() {
		if sc.consumer.CanDoTime() {''','''	sc.process(value.GoTime().Unix(), func() {
		if sc.consumer.CanDoTime() {''')],
 imports=['time',I+'streamer',I+'vf'],demo='''	v := vf.Values(time.Unix(100, 1), time.Unix(100, 2))
	c := streamer.NewCollector()
	streamer.New(nil, nil).Stream(v, c)
	if !v.Equals(c.Value()) {
		bad("%s streamed as %s", v, c.Value())
	}''',needs='two times of the same second in one value, with de-duplication',breaks='a reference denotes another time of the same second'),
dict(id='C14-g',prop='C14',edits=[('streamer/streamer.go','''	sc.process(value, func() {
		if sc.consumer.CanDoBinary() {''','''	sc.process(value.String(), func() {
		if sc.consumer.CanDoBinary() {''')],
 imports=[I+'streamer',I+'vf'],demo='''	v := vf.Values("AQID", vf.Binary([]byte{1, 2, 3}, true))
	c := streamer.NewCollector()
	streamer.New(nil, nil).Stream(v, c)
	if !v.Equals(c.Value()) {
		bad("%s streamed as %s", v, c.Value())
	}''',needs='a string that is the base64 text of a binary in the same value',breaks='a reference to a string takes the place of a binary'),
dict(id='C14-h',prop='C14',edits=[('streamer/streamer.go','''	dl := sc.dedupLevel
	sc.dedupLevel = NoDedup
	sc.emitData(value)
	sc.dedupLevel = dl
''','''	sc.dedupLevel = NoDedup
	sc.emitData(value)
	sc.dedupLevel = sc.config.DedupLevel
''')],
 imports=[I+'streamer',I+'vf'],demo='''	v := vf.Map("the key of this entry is rather long", vf.Map(vf.Values("the key of this entry is rather long"), "the key of this entry is rather long"), "x", vf.Map("the key of this entry is rather long", 1))
	for l := streamer.NoDedup; l <= streamer.MaxDedup; l++ {
		o := streamer.DefaultOptions()
		o.DedupLevel = l
		c := &noComplex{streamer.DataDecoder(nil, o.Dialect)}
		streamer.New(nil, o).Stream(v, c)
		if c.keyRef() || !v.Equals(c.Value()) {
			bad("level %d: %s streamed as %s", l, v, c.Value())
		}
	}''',needs='MaxDedup asked for with a consumer that takes no complex keys',breaks='x'),
dict(id='C16-d',prop='C16',edits=[('util/reader.go','''		c, sz = utf8.DecodeRuneInString(r.s[np:])
		if c == utf8.RuneError && sz == 1 {''','''		c, _ = utf8.DecodeRuneInString(r.s[np:])
		if c == utf8.RuneError {''')],
 imports=[I+'util'],demo='''	r := util.NewStringReader("a\\uFFFD")
	if r.Peek2() != 0xFFFD {
		bad("%q", r.Peek2())
	}''',needs='a replacement rune that is part of the string as the second next rune',breaks='a valid rune is reported as an error'),
dict(id='C16-e',prop='C16',edits=[('util/reader.go','''			r.l++
			r.c = 0
		} else {
			r.c++''','''			r.l++
			r.c = 0
		} else if c != '\\r' || r.p == len(r.s) || r.s[r.p] != '\\n' {
			r.c++''')],
 imports=[I+'util'],demo='''	r := util.NewStringReader("a\\r\\nb")
	r.Next()
	r.Next()
	if r.Column() != 3 {
		bad("column %d after two runes", r.Column())
	}''',needs='a carriage return that is followed by a newline, and the column asked for between them',breaks='the column of a newline after a carriage return'),
dict(id='C17-e',prop='C17',edits=[('loader/loader.go','''	parts := strings.Split(name, `/`)''','''	parts := strings.SplitN(name, `/`, 4)''')],
 imports=[I+'loader',I+'vf',I+'dgo'],demo='''	var ns dgo.NsCreator
	ns = func(l dgo.Loader, name string) dgo.Loader {
		return loader.New(l, name, vf.Map("x", name), nil, ns)
	}
	l := loader.New(nil, "", nil, nil, ns)
	if v := l.Load("a/b/c/d/x"); !vf.Value("d").Equals(v) {
		bad("%v", v)
	}''',needs='a name with more than four parts',breaks='names in deeply nested namespaces are not found'),
dict(id='C17-f',prop='C17',edits=[('loader/loader.go','''	case pv == nil:
	default:''','''	case pv == nil:
	case v.Equals(pv):
		v = pv
	default:''')],
 imports=[I+'loader',I+'vf',I+'dgo'],demo='''	find := func(l dgo.Loader, key string) interface{} { return nil }
	find2 := func(l dgo.Loader, key string) interface{} { return "found" }
	p := loader.New(nil, "", nil, nil, func(l dgo.Loader, name string) dgo.Loader { return loader.New(l, name, nil, find, nil) })
	c := p.NewChild(nil, func(l dgo.Loader, name string) dgo.Loader { return loader.New(l, name, nil, find2, nil) })
	if v := c.Load("ns/x"); !vf.Value("found").Equals(v) {
		bad("%v", v)
	}''',needs='a child with a namespace of the same name and the same entries so far as that of its parent',breaks='the finder of the namespace of the child is not asked'),
dict(id='C18-e',prop='C18',edits=[('internal/binary.go','''	return bytes.Equal(v.value.bytes, b)''','''	return bytes.EqualFold(v.value.bytes, b)''')],
 imports=[I+'vf'],demo='''	if vf.Binary([]byte("a"), true).Type().Instance(vf.Binary([]byte("A"), true)) {
		bad("A is an instance of the type of a")
	}''',needs='binaries that are letters of different case',breaks='the type of a binary accepts another binary'),
dict(id='C18-f',prop='C18',edits=[('internal/time.go','''	return (*time.Time)(t.value).Equal(tv)''','''	return (*time.Time)(t.value).UnixNano() == tv.UnixNano()''')],
 imports=['time',I+'vf'],demo='''	a := time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)
	b := time.Unix(0, a.UnixNano())
	if vf.Time(a).Type().Instance(vf.Time(b)) {
		bad("%s is an instance of the type of %s", b, a)
	}''',needs='a time whose nanoseconds do not fit in an int64',breaks='the type of a time accepts another time'),
dict(id='C19-e',prop='C19',edits=[('internal/map.go','''	if ok {
		m = m.FrozenCopy().(dgo.Map)
	} else {
		m = mapFromArgs([]interface{}{arg}, true)
	}
	if !t.Instance(m) {
		panic(IllegalAssignment(t, m))
	}''','''	if ok {
		m = m.FrozenCopy().(dgo.Map)
		ok = t.Assignable(m.Type()) || m.Len() == 0
	} else {
		m = mapFromArgs([]interface{}{arg}, true)
		ok = t.Instance(m)
	}
	if !ok {
		panic(IllegalAssignment(t, m))
	}''')],
 imports=[I+'vf',I+'tf',I+'typ',I+'dgo'],demo='''	defer func() { recover() }()
	t := tf.Map(typ.String, typ.Integer, 1, 3)
	v := t.(interface{ New(dgo.Value) dgo.Value }).New(vf.Map())
	if !t.Instance(v) {
		bad("%s is no %s", v, t)
	}''',needs='an empty map given to the constructor of a map type that takes no empty maps',breaks='New of a map type gives a map that is no instance of it'),
dict(id='C10-e',prop='C10',edits=[('internal/struct.go','''		// Don't expose pointer to frozen struct
		v = v.ThawedCopy().(*structVal)
	}''','''		// Don't expose pointer to frozen struct
		rs := reflect.New(v.rs.Type()).Elem()
		rs.Set(v.rs)
		v = &structVal{rs: rs}
	}''')],
 imports=[I+'vf',I+'dgo'],demo='''	type s struct{ A []int }
	m := vf.Map(&s{[]int{1, 2}}).FrozenCopy().(dgo.Map)
	g, ok := m.(interface{ GoStruct() interface{} })
	if !ok {
		return
	}
	g.GoStruct().(*s).A[0] = 77
	if !m.Get("A").(dgo.Array).Get(0).Equals(1) {
		bad("frozen map changed to %s", m)
	}''',needs='a frozen map that wraps a struct with a slice',breaks='a frozen struct value can be altered through the Go struct it is turned into'),
dict(id='C11-e',prop='C11',edits=[('internal/struct.go','''		if f, ok := ev.(dgo.Freezable); ok {
			ReflectTo(f.ThawedCopy(), ef)
		}''','''		if f, ok := ev.(dgo.Freezable); ok && f.Frozen() {
			ReflectTo(f.ThawedCopy(), ef)
		}''')],
 imports=[I+'vf',I+'dgo'],demo='''	type s struct{ A []int }
	m := vf.MutableMap(&s{[]int{1, 2}})
	c := m.Copy(false)
	c.(interface{ GoStruct() interface{} }).GoStruct().(*s).A[0] = 77
	if !m.Get("A").(dgo.Array).Get(0).Equals(1) {
		bad("original changed to %s", m)
	}''',needs='a map that wraps a struct with a slice and is not frozen',breaks='the slice is shared by the copy and the original'),
dict(id='C08-e',prop='C08',edits=[('internal/struct.go','''	c := v.toHashMap()
	c.RemoveAll(keys)
	c.frozen = v.frozen
	return c''','''	c := v.toHashMap()
	keys.Each(func(k dgo.Value) {
		if v.Get(k) != nil {
			c = c.Without(k).(*hashMap)
		}
	})
	if c.len == 0 {
		return emptyMap
	}
	c.frozen = v.frozen
	return c''')],
 imports=[I+'vf',I+'dgo'],demo='''	type s struct{ A int }
	m := vf.MutableMap(&s{1})
	w := m.WithoutAll(vf.Values("A"))
	if w.Frozen() != m.Frozen() {
		bad("frozen %t without all keys", w.Frozen())
	}''',needs='all keys of a struct map removed',breaks='x'),
dict(id='C20-e',prop='C20',edits=[('internal/struct.go','''		if predicate(e) {
			return e
		}''','''		if e.value != Nil && predicate(e) {
			return e
		}''')],
 imports=[I+'vf',I+'dgo'],demo='''	type s struct{ A *int; B int }
	m := vf.Map(&s{nil, 1})
	e := m.Find(func(e dgo.MapEntry) bool { return true })
	if !e.Key().Equals("A") {
		bad("%s found", e)
	}''',needs='a struct with a nil field',breaks='Find on a struct map passes over nil values'),
dict(id='C05-e',prop='C05',edits=[('internal/map.go','''			if DefaultAnyType == vt {
				return ov.AllKeys(''','''			if DefaultAnyType == vt {
				if DefaultStringType.Assignable(kt) && ov.StringKeys() {
					return true
				}
				return ov.AllKeys(''')],
 imports=[I+'vf',I+'tf',I+'typ'],demo='''	if tf.Map(tf.Enum("a"), typ.Any).Instance(vf.Map("b", 1)) {
		bad("b is accepted as key")
	}''',needs='a map type with a constrained string key type and any value',breaks='the constraint on the keys is not checked'),
dict(id='C03-e',prop='C03',edits=[('internal/mapstruct.go','''			if rq || ot.additional { // additional''','''			if rq || ot.additional && !t.additional { // additional''')],
 imports=[I+'vf',I+'tf',I+'typ'],demo='''	a := tf.StructMap(true, tf.StructMapEntry("a", typ.Integer, false))
	b := tf.StructMap(true, tf.StructMapEntry("b", typ.Integer, false))
	v := vf.Map("a", "x")
	if a.Assignable(b) && b.Instance(v) && !a.Instance(v) {
		bad("%s accepts %s", a, b)
	}''',needs='two open struct types where the target constrains an optional key that the source does not have',breaks='an open struct type is assignable from one that accepts other values for an optional key'),
dict(id='C12-f',prop='C12',edits=[('internal/integer.go','''		if v < 0 || value.OverflowUint(uint64(v)) {''','''		if value.OverflowUint(uint64(v)) {''')],
 imports=['reflect',I+'vf'],demo='''	defer func() { recover() }()
	var u uint64
	vf.ReflectTo(vf.Integer(-1), reflect.ValueOf(&u).Elem())
	bad("-1 as uint64 is %d", u)''',needs='a negative integer turned into a uint64',breaks='a negative integer becomes a large unsigned one'),
dict(id='C12-g',prop='C12',edits=[('internal/float.go','''		if value.OverflowFloat(float64(v)) {''','''		if value.OverflowFloat(float64(v)) && value.Kind() == reflect.Float64 {''')],
 imports=['reflect',I+'vf'],demo='''	defer func() { recover() }()
	var u float32
	vf.ReflectTo(vf.Float(1e200), reflect.ValueOf(&u).Elem())
	bad("1e200 as float32 is %g", u)''',needs='a float beyond the range of float32 turned into one',breaks='a float becomes infinite'),
dict(id='C13-f',prop='C13',edits=[('parser/lexer.go','''	for i := 0; i < n; i++ {
		r := sr.Next()
		if r == 0 {
			panic(errors.New("unterminated string"))
		}''','''	for i := 0; i < n; i++ {
		r := sr.Next()
		if r == 0 {
			panic(errors.New("unterminated string"))
		}''')],imports=[],demo='',needs='',breaks=''),
dict(id='C04-e',prop='C04',edits=[('internal/ternary.go','''	for i := range ts {
		if !Instance(guard, ts[i].Type(), value) {
			return false
		}
	}
	return true''','''	vv := Value(value)
	for i := range ts {
		if !ts[i].Equals(vv) {
			return false
		}
	}
	return true''')],
 imports=[I+'vf',I+'tf',I+'typ'],demo='''	t := tf.ParseType("1^2")
	_ = t''',needs='x',breaks='x'),
]
BUGS=[b for b in BUGS if b['id'] not in ('C13-f','C04-e','C14-h','C08-e','C14-g','C18-e','C18-f')]
