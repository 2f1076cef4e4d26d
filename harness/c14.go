package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C14"] = c14 }

// c14types are the types that occur in values; the text of a type is what stands for it in a model (kind 'T').
var c14types = []dgo.Type{typ.String, typ.Integer, tf.ParseType("[]int"), tf.ParseType("0..3"), tf.ParseType("{a:int}"), tf.ParseType("int|string"), tf.ParseType(`"a"`), tf.ParseType("map[string]any"), tf.ParseType("string[1,30]"), typ.Any}

func mT(i int) *M {
	return &M{K: 'T', S: c14types[i%len(c14types)].String(), I: int64(i % len(c14types))}
}
func mw1(m *M) *M { return &M{K: 'w', A: []*M{m}} }

// c14key is the dialect of a stream.
type c14keys struct{ typ, val, ref string }

type c14dialect struct{ streamer.Dialect }

func (c14dialect) TypeKey() dgo.String           { return vf.String("@type") }
func (c14dialect) ValueKey() dgo.String          { return vf.String("@value") }
func (c14dialect) RefKey() dgo.String            { return vf.String(`@"ref`) }
func (c14dialect) BinaryTypeName() dgo.String    { return vf.String("bytes") }
func (c14dialect) SensitiveTypeName() dgo.String { return vf.String("secret") }
func (c14dialect) MapTypeName() dgo.String       { return vf.String("hash") }
func (c14dialect) TimeTypeName() dgo.String      { return vf.String("stamp") }

var c14dgo = c14keys{"__type", "__value", "__ref"}
var c14own = c14keys{"@type", "@value", `@"ref`}

// c14build builds a value in which equal pointers of the model are the same value.
func c14build(m *M, frozen bool, made map[*M]dgo.Value) dgo.Value {
	if v, ok := made[m]; ok {
		return v
	}
	var v dgo.Value
	switch m.K {
	case 'T':
		v = c14types[m.I]
	case 'w':
		v = vf.Sensitive(c14build(m.A[0], frozen, made))
	case 'a':
		a := vf.ArrayWithCapacity(len(m.A))
		for _, e := range m.A {
			a.Add(c14build(e, frozen, made))
		}
		if frozen {
			a.Freeze()
		}
		v = a
	case 'm':
		a := vf.MapWithCapacity(len(m.A))
		for i, e := range m.A {
			a.Put(c14build(m.KS[i], true, made), c14build(e, frozen, made))
		}
		if frozen {
			a.Freeze()
		}
		v = a
	default:
		v = build(m, frozen)
	}
	made[m] = v
	return v
}

// c14decode reads the maps that stand for rich data.
func c14decode(m *M, d c14keys) *M {
	switch m.K {
	case 'a':
		r := &M{K: 'a'}
		for _, e := range m.A {
			r.A = append(r.A, c14decode(e, d))
		}
		return r
	case 'w':
		return mw1(c14decode(m.A[0], d))
	case 'm':
		if len(m.KS) > 0 && m.KS[0].K == 's' && m.KS[0].S == d.typ {
			if len(m.KS) == 1 {
				return &M{K: 'T', S: m.A[0].S}
			}
			v := m.A[1]
			if len(m.KS) == 2 && m.KS[1].K == 's' && m.KS[1].S == d.val {
				switch m.A[0].S {
				case "binary", "bytes":
					b, err := base64.StdEncoding.Strict().DecodeString(v.S)
					if err == nil && v.K == 's' {
						return mx(string(b))
					}
				case "time", "stamp":
					if ts, err := time.Parse(time.RFC3339Nano, v.S); err == nil && v.K == 's' {
						return toM(vf.Time(ts))
					}
				case "sensitive", "secret":
					return mw1(c14decode(v, d))
				case "alias":
					if v.K == 'a' && len(v.A) == 2 {
						return &M{K: 'T', S: v.A[1].S}
					}
				case "map", "hash":
					if v.K == 'a' && len(v.A)%2 == 0 {
						r := &M{K: 'm'}
						for i := 0; i < len(v.A); i += 2 {
							r.KS = append(r.KS, c14decode(v.A[i], d))
							r.A = append(r.A, c14decode(v.A[i+1], d))
						}
						return r
					}
				}
			}
			return &M{K: 'E', S: "cannot decode " + cut(m.String(), 200)}
		}
		r := &M{K: 'm'}
		for i, k := range m.KS {
			r.KS = append(r.KS, c14decode(k, d))
			r.A = append(r.A, c14decode(m.A[i], d))
		}
		return r
	}
	return m
}

// c14sink is a consumer of its own. It numbers what is added as documented and resolves references.
type c14sink struct {
	bin, time, keys bool
	thr             int
	nodes           []*M
	stack           []*M
	refs            int
	bad             string
}

func newSink(bin, tm, keys bool, thr int) *c14sink {
	return &c14sink{bin: bin, time: tm, keys: keys, thr: thr, stack: []*M{{K: 'a'}}}
}

func (s *c14sink) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}
func (s *c14sink) add(m *M, count bool) {
	top := s.stack[len(s.stack)-1]
	if top.K == 'm' && len(top.KS) == len(top.A) {
		if !s.keys && m.K != 's' {
			s.fail("a key that is no string is given to a consumer that cannot do complex keys")
		}
		top.KS = append(top.KS, m)
	} else {
		top.A = append(top.A, m)
	}
	if count {
		s.nodes = append(s.nodes, m)
	}
}
func (s *c14sink) CanDoBinary() bool         { return s.bin }
func (s *c14sink) CanDoTime() bool           { return s.time }
func (s *c14sink) CanDoComplexKeys() bool    { return s.keys }
func (s *c14sink) StringDedupThreshold() int { return s.thr }
func (s *c14sink) Add(v dgo.Value) {
	m := toM(v)
	switch {
	case v == nil:
		s.fail("a go nil is added")
	case m.K == 'x' && !s.bin || m.K == 't' && !s.time || strings.IndexByte("nbifsxt", m.K) < 0:
		s.fail("a value of kind %c is added", m.K)
	}
	s.add(m, true)
}
func (s *c14sink) AddRef(ref int) {
	s.refs++
	if ref < 0 || ref >= len(s.nodes) {
		s.fail("a reference to %d when %d values have been added", ref, len(s.nodes))
		return
	}
	if len(s.nodes[ref].S) < s.thr && s.nodes[ref].K == 's' {
		s.fail("a reference to the string %q which is shorter than the threshold", s.nodes[ref].S)
	}
	s.add(s.nodes[ref], false)
}
func (s *c14sink) open(m *M, n int, doer dgo.Doer) {
	s.add(m, true)
	s.stack = append(s.stack, m)
	doer()
	s.stack = s.stack[:len(s.stack)-1]
	if len(m.A) != n || m.K == 'm' && len(m.KS) != n {
		s.fail("a collection of announced length %d has %d elements", n, len(m.A))
	}
}
func (s *c14sink) AddArray(n int, doer dgo.Doer) { s.open(&M{K: 'a'}, n, doer) }
func (s *c14sink) AddMap(n int, doer dgo.Doer)   { s.open(&M{K: 'm'}, n, doer) }

// c14json reads JSON with the given reference key; numbers with a fraction or an exponent are floats.
func c14json(b []byte, ref string) (m *M, bad string) {
	if !json.Valid(b) {
		return nil, "is not valid JSON"
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var nodes []*M
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var read func(t json.Token) *M
	next := func() json.Token { t, _ := d.Token(); return t }
	read = func(t json.Token) *M {
		m := &M{}
		switch t := t.(type) {
		case json.Delim:
			nodes = append(nodes, m)
			if t == '[' {
				m.K = 'a'
				for d.More() {
					m.A = append(m.A, read(next()))
				}
				next()
				return m
			}
			m.K = 'm'
			first := true
			for d.More() {
				k := next().(string)
				if first && k == ref {
					nodes = nodes[:len(nodes)-1]
					i, err := next().(json.Number).Int64()
					next()
					if err != nil || i < 0 || int(i) >= len(nodes) {
						fail("has the reference %d where %d values precede it", i, len(nodes))
						return mn()
					}
					return nodes[i]
				}
				first = false
				mk := ms(k)
				nodes = append(nodes, mk)
				m.KS = append(m.KS, mk)
				m.A = append(m.A, read(next()))
			}
			next()
			return m
		case string:
			*m = *ms(t)
		case bool:
			*m = *mb(t)
		case nil:
			*m = *mn()
		case json.Number:
			if strings.ContainsAny(t.String(), ".eE") {
				f, _ := t.Float64()
				*m = *mf(f)
			} else {
				i, err := t.Int64()
				if err != nil {
					fail("has the number %s", t)
				}
				*m = *mi(i)
			}
		}
		nodes = append(nodes, m)
		return m
	}
	m = read(next())
	if _, err := d.Token(); !errors.Is(err, io.EOF) {
		fail("has something after the end")
	}
	return
}

// c14plain tells whether only data, no rich data, is in the value.
func c14plain(m *M) bool {
	if strings.IndexByte("nbifsam", m.K) < 0 {
		return false
	}
	for i, e := range m.A {
		if !c14plain(e) || m.K == 'm' && m.KS[i].K != 's' {
			return false
		}
	}
	return true
}

func c14utf8(m *M) bool {
	if m.K == 's' && !utf8.ValidString(m.S) || m.K == 'm' && func() bool {
		for _, k := range m.KS {
			if !c14utf8(k) {
				return true
			}
		}
		return false
	}() {
		return false
	}
	for _, e := range m.A {
		if !c14utf8(e) {
			return false
		}
	}
	return true
}

// c14one streams a value along every way.
func c14one(t *T, key string, m *M, frozen bool) {
	t.Check(key, func() string { return m.String() }, func() string { return c14trip(m, frozen) })
}

func c14differ(way string, want, got *M) string {
	if sameM(want, got) {
		return ""
	}
	return fmt.Sprintf("%s: gives %s", way, cut(got.String(), 400))
}

func c14trip(m *M, frozen bool) (bad string) {
	way := ""
	defer func() {
		if r := recover(); r != nil {
			bad = way + ": panics with " + fmt.Sprint(r)
		}
	}()
	v := c14build(m, frozen, map[*M]dgo.Value{})
	before := m.String()
	plain, json8 := c14plain(m), c14utf8(m)
	for dl := streamer.NoDedup; dl <= streamer.MaxDedup; dl++ {
		for _, dia := range []struct {
			d streamer.Dialect
			k c14keys
		}{{streamer.DgoDialect(), c14dgo}, {c14dialect{streamer.DgoDialect()}, c14own}} {
			opts := streamer.DefaultOptions()
			opts.DedupLevel, opts.Dialect = dl, dia.d
			st := streamer.New(nil, opts)
			name := fmt.Sprintf("dedup level %d, keys %v, ", dl, dia.k)
			for i := 0; i < 8; i++ {
				for _, thr := range []int{0, 2, 20} {
					s := newSink(i&1 != 0, i&2 != 0, i&4 != 0, thr)
					way = fmt.Sprintf("%sconsumer %d with threshold %d", name, i, thr)
					st.Stream(v, s)
					if s.bad != "" {
						return way + ": " + s.bad
					}
					if len(s.stack) != 1 || len(s.stack[0].A) != 1 {
						return way + ": is not one value"
					}
					if dl == streamer.NoDedup && s.refs > 0 {
						return way + ": has references"
					}
					if b := c14differ(way, m, c14decode(s.stack[0].A[0], dia.k)); b != "" {
						return b
					}
					if plain {
						if b := c14differ(way+", not decoded", m, s.stack[0].A[0]); b != "" {
							return b
						}
					}
				}
			}
			for i, c := range []streamer.Collector{streamer.NewCollector(), streamer.DataCollector(), streamer.DataDecoder(nil, dia.d)} {
				way = fmt.Sprintf("%scollector %d", name, i)
				st.Stream(v, c)
				r := c.Value()
				got := toM(r)
				if i == 1 && !c14plain(got) {
					return fmt.Sprintf("%s: a collector of data holds %s", way, cut(got.String(), 400))
				}
				if i < 2 && !plain {
					got = c14decode(got, dia.k)
				} else if !v.Equals(r) {
					return fmt.Sprintf("%s: gives %s which is not equal", way, cut(got.String(), 400))
				}
				if b := c14differ(way, m, got); b != "" {
					return b
				}
			}
			if json8 && dia.k == c14dgo {
				way = name + "to JSON"
				b := &bytes.Buffer{}
				st.Stream(v, streamer.JSON(b))
				if x := c14text(way, b.Bytes(), m, v, dia.d, dia.k); x != "" {
					return x
				}
			}
			if json8 && dl == streamer.NoKeyDedup {
				way = name + "MarshalJSON"
				if x := c14text(way, streamer.MarshalJSON(v, dia.d), m, v, dia.d, dia.k); x != "" {
					return x
				}
			}
			if plain {
				opts.RichData = false
				way = name + "no rich data"
				c := streamer.DataCollector()
				streamer.New(nil, opts).Stream(v, c)
				if !v.Equals(c.Value()) {
					return way + ": gives " + cut(c.Value().String(), 400)
				}
			}
		}
	}
	if json8 {
		way = "default dialect"
		if x := c14text(way, streamer.MarshalJSON(v, nil), m, v, nil, c14dgo); x != "" {
			return x
		}
	}
	if before != toM(v).String() {
		return "the streamed value has changed"
	}
	return ""
}

func c14text(way string, b []byte, m *M, v dgo.Value, d streamer.Dialect, k c14keys) string {
	raw, bad := c14json(b, k.ref)
	if bad != "" {
		return fmt.Sprintf("%s: %s %s", way, cut(string(b), 300), bad)
	}
	if x := c14differ(way, m, c14decode(raw, k)); x != "" {
		return x
	}
	r := streamer.UnmarshalJSON(b, d)
	if !v.Equals(r) || !sameM(m, toM(r)) {
		return fmt.Sprintf("%s: %s is read as %s", way, cut(string(b), 300), cut(toM(r).String(), 300))
	}
	return ""
}

// c14value is a value in which sub-values may occur several times.
func c14value(g *G, d int, pool *[]*M) *M {
	if len(*pool) > 0 && g.r.Intn(4) == 0 {
		return (*pool)[g.r.Intn(len(*pool))]
	}
	var m *M
	switch k := g.r.Intn(12); {
	case d <= 0 || k < 4:
		switch g.r.Intn(9) {
		case 0:
			m = mT(g.r.Intn(len(c14types)))
		case 1:
			m = ms([]string{"a long string, longer than thirty two characters", "exactly twenty chars", "nineteen characters", "a string with \"quotes\"", "<&>\u2028", "binary", "__typ"}[g.r.Intn(7)])
		default:
			m = g.scalar()
		}
	case k < 5:
		m = mw1(c14value(g, d-1, pool))
	case k < 8:
		m = ma()
		for i, n := 0, g.r.Intn(4); i < n; i++ {
			m.A = append(m.A, c14value(g, d-1, pool))
		}
	default:
		m = mm()
		str := k < 11
		for i, n := 0, g.r.Intn(4); i < n; i++ {
			var mk *M
			if str {
				mk = ms(gStrings[g.r.Intn(len(gStrings))])
			} else {
				var none []*M
				if g.r.Intn(2) == 0 {
					mk = c14value(g, d-1, pool)
				} else {
					mk = c14value(g, d-1, &none)
				}
			}
			if m.find(mk) >= 0 || hasKind(mk, "wT") || mk.S == "__ref" || mk.S == "__type" {
				continue
			}
			m.KS = append(m.KS, mk)
			m.A = append(m.A, c14value(g, d-1, pool))
		}
	}
	if g.r.Intn(2) == 0 {
		*pool = append(*pool, m)
	}
	return m
}

func c14(t *T) {
	long := ms("a long string, longer than thirty two characters")
	long2 := ms("exactly twenty chars")
	bin, tm, sens, ty, arr, mp, cx := mx("\x01\x02"), mt(1), mw1(ms("x")), mT(2), ma(mi(1), ms("a")), mm(ms("a"), mi(1)), mm(mi(1), mi(2), mf(1.5), ms("b"))
	parts := []*M{mn(), mb(true), mi(1), mi(-1), mi(1<<63 - 1), mi(-1 << 63), mi(1<<53 + 1), mf(math.Copysign(0, -1)), mf(1), mf(0), mf(1.5), mf(-2), mf(1e21), mf(1e100), mf(1e-7), mf(1 << 53), mf(1 << 62), ms(""), ms("a"), ms("\xff"), ms("<>&\u2028\x00\u00e5"), ms("1"), ms("null"), long, long2, mx(""), bin, tm, sens, ty, arr, mp, cx,
		ma(), mm(), mw1(mn()), mw1(bin), mw1(mw1(mi(1))), mw1(arr), mw1(mp), mw1(ty), mw1(cx), mT(0), mT(4), mT(6), ma(ma(), mm()), mm(ms("a"), mm(ms("b"), ma())), mm(ma(mi(1)), mi(2)), mm(mm(ms("a"), mi(1)), mp), mm(mn(), mn()), mm(bin, bin), mm(tm, tm), mm(mb(true), mf(2)),
		mm(long, long), mm(ms("a"), long, ms("b"), long), mm(arr, arr), mm(ma(long), ma(long)), mm(mi(1), sens, mi(2), sens), ma(cx, ma(cx), cx), mm(ms("binary"), bin), mm(ms("type"), ty), mm(ms("value"), mi(1)), mm(ms("__value"), mi(1)), mm(ms("x"), mi(1), ms("__type_"), ms("map")), ma(ms("__ref"), mi(1))}
	for i := range times {
		parts = append(parts, mt(i))
	}
	t.Group("one")
	for _, m := range parts {
		c14one(t, "one", m, true)
		c14one(t, "one", ma(m), true)
		c14one(t, "one", mm(ms("k"), m), false)
	}
	t.Group("two")
	for i, a := range parts {
		for j, b := range parts {
			if i%7 == j%7 || i == j || i > 20 && i < 32 && j > 20 && j < 32 {
				c14one(t, "two", ma(a, b, a, b), i%2 == 0)
				c14one(t, "two", mm(ms("a"), a, ms("b"), ma(b, a), ms("c"), b), j%2 == 0)
				if !hasKind(a, "wT") {
					c14one(t, "two", mm(a, b, mi(77), a, ms("c"), b), true)
					c14one(t, "two", ma(a, mm(a, b), b), true)
				}
				c14one(t, "two", ma(mw1(a), a, mw1(ma(b, b)), b), true)
			}
		}
	}
	t.Group("shift")
	for i, e := range parts {
		c14one(t, "shift", ma(e, ms("x"), arr, ms("y"), arr, long, ms("z"), mp, long, mp), i%2 == 0)
		c14one(t, "shift", mm(ms("k"), e, ms("l"), ma(e, bin), ms("m"), mw1(arr), ms("n"), ma(mw1(arr), arr, mp, bin, mp)), i%2 != 0)
	}
	t.Group("deep")
	for i, e := range parts {
		for d := 0; d < 12; d++ {
			if (i+d)%3 == 0 {
				e = mm(ms("d"), e)
			} else if (i+d)%11 == 0 {
				e = ma(arr, e, arr)
			} else {
				e = ma(e)
			}
			if (i+d)%2 == 0 || d > 4 {
				c14one(t, "deep", e, true)
			}
		}
	}
	t.Group("zones")
	for _, off := range []int{0, 3600, -5 * 3600, 5*3600 + 1800, 30, -3601, 12345} {
		for _, y := range []int{1880, 1999, 2024, 9999} {
			t.Check("zones", func() string { return fmt.Sprintf("a time in year %d in a zone with offset %d", y, off) }, func() string {
				v := vf.Time(time.Date(y, 3, 4, 5, 6, 7, 89, time.FixedZone("Z", off)))
				if r := streamer.UnmarshalJSON(streamer.MarshalJSON(v, nil), nil); !v.Equals(r) {
					return "is read as " + r.String()
				}
				return ""
			})
		}
	}
	t.Group("fails")
	for i, v := range []dgo.Value{vf.Value(regexp.MustCompile("a")), vf.Value(errors.New("x")), vf.Value(fmt.Sprint), vf.Value(&c18point{1, "a"}), vf.Value(make(chan int)), vf.MapEntry("a", 1)} {
		t.Check("fails", func() string { return fmt.Sprintf("value %d of kinds that are not streamed (%T)", i, v) }, func() string {
			for _, c := range []streamer.Collector{streamer.NewCollector(), streamer.DataCollector(), streamer.DataDecoder(nil, nil)} {
				if _, p := Panics(func() { streamer.New(nil, nil).Stream(vf.MutableValues(v), c) }); !p {
					return "does not fail"
				}
			}
			return ""
		})
	}
	for i, m := range []*M{bin, tm, sens, cx, mm(ms("a"), sens), ma(ma(bin))} {
		t.Check("fails", func() string { return "without rich data: " + m.String() }, func() string {
			o := streamer.DefaultOptions()
			o.RichData = false
			if _, p := Panics(func() {
				streamer.New(nil, o).Stream(c14build(m, true, map[*M]dgo.Value{}), streamer.DataCollector())
			}); !p && i >= 0 {
				return "does not fail"
			}
			return ""
		})
	}
	t.Group("named")
	c14named(t)
	t.Group("alias")
	c14alias(t)
	t.Group("random")
	for i, n := 0, t.N(6000); i < n && !t.Expired(); i++ {
		g := &G{r: t.rng, kinds: "nbiiffsssssxxtt", max: 4}
		var pool []*M
		m := c14value(g, 4, &pool)
		c14one(t, "random", m, t.rng.Intn(2) == 0)
	}
}

type c14thing struct {
	t   dgo.NamedType
	arg dgo.Value
}

func (v *c14thing) String() string { return "c14thing " + v.arg.String() }
func (v *c14thing) Type() dgo.Type { return tf.ExactNamed(v.t, v) }
func (v *c14thing) HashCode() int  { return v.arg.HashCode() }
func (v *c14thing) Equals(other interface{}) bool {
	o, ok := other.(*c14thing)
	return ok && o.arg.Equals(v.arg)
}

func c14named(t *T) {
	var nt dgo.NamedType
	nt = tf.NewNamed("c14.thing", func(a dgo.Value) dgo.Value { return &c14thing{nt, a} }, func(v dgo.Value) dgo.Value { return v.(*c14thing).arg }, reflect.TypeOf(&c14thing{}), nil, nil)
	defer tf.RemoveNamed("c14.thing")
	x := &c14thing{nt, vf.Values("a", 1)}
	y := &c14thing{nt, vf.Map("first", 1, "second", vf.Values(x, x))}
	for i, v := range []dgo.Value{x, y, vf.Values(x, x), vf.Values(y, x, y), vf.Map("a", y, "b", x), vf.Sensitive(y), &c14thing{nt, vf.Value("s")}, &c14thing{nt, vf.Value(3)}, &c14thing{nt, vf.Map("a", 1)}, &c14thing{nt, vf.Map(1, "a", vf.Values("x"), 2)}, &c14thing{nt, vf.Map("a", 1, "b", 2, "c", 3)}, vf.Values(&c14thing{nt, x}, x), &c14thing{nt, vf.Binary([]byte{1}, true)}} {
		t.Check("named", func() string { return fmt.Sprintf("value %d of a named type", i) }, func() string {
			for dl := streamer.NoDedup; dl <= streamer.MaxDedup; dl++ {
				o := streamer.DefaultOptions()
				o.DedupLevel = dl
				c := streamer.DataDecoder(nil, nil)
				streamer.New(nil, o).Stream(v, c)
				if !v.Equals(c.Value()) {
					return fmt.Sprintf("dedup level %d: gives %s", dl, cut(c.Value().String(), 200))
				}
				s := newSink(false, false, false, 0)
				streamer.New(nil, o).Stream(v, s)
				if s.bad != "" {
					return s.bad
				}
				b := &bytes.Buffer{}
				streamer.New(nil, o).Stream(v, streamer.JSON(b))
				if r := streamer.UnmarshalJSON(b.Bytes(), nil); !v.Equals(r) {
					return fmt.Sprintf("dedup level %d: JSON %s gives %s", dl, cut(b.String(), 200), cut(r.String(), 200))
				}
			}
			return ""
		})
	}
}

func c14alias(t *T) {
	pair, num := tf.ParseType("{int,int}"), tf.ParseType("int|float")
	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
		a.Add(pair, vf.String("c14pair"))
		a.Add(num, vf.String("c14num"))
	})
	for i, v := range []dgo.Value{pair, num, typ.String, vf.Values(pair, pair), vf.Values(typ.String, pair, typ.String, num, pair), vf.Map("a", num, "b", tf.ParseType("[]int")), vf.Sensitive(pair)} {
		t.Check("alias", func() string { return fmt.Sprintf("value %d with types that have aliases: %s", i, v) }, func() string {
			for dl := streamer.NoDedup; dl <= streamer.MaxDedup; dl++ {
				o := streamer.DefaultOptions()
				o.DedupLevel = dl
				s := newSink(false, false, false, 0)
				streamer.New(am, o).Stream(v, s)
				if s.bad != "" {
					return s.bad
				}
				if b := c14differ("consumer", toM(v), c14decode(s.stack[0].A[0], c14dgo)); b != "" {
					return b
				}
				var c streamer.Collector
				got := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
					c = streamer.DataDecoder(a, nil)
					streamer.New(am, o).Stream(v, c)
				})
				if !v.Equals(c.Value()) || v.String() != c.Value().String() {
					return fmt.Sprintf("dedup level %d: gives %s", dl, cut(c.Value().String(), 200))
				}
				if strings.Contains(v.String(), pair.String()) && i != 6 && (got.GetType(vf.String("c14pair")) == nil || !got.GetType(vf.String("c14pair")).Equals(pair)) {
					return "the alias is not added to the map of the decoder"
				}
				b := &bytes.Buffer{}
				streamer.New(am, o).Stream(v, streamer.JSON(b))
				if r := streamer.UnmarshalJSON(b.Bytes(), nil); !v.Equals(r) {
					return fmt.Sprintf("dedup level %d: JSON %s gives %s", dl, cut(b.String(), 200), cut(r.String(), 200))
				}
			}
			return ""
		})
	}
}
