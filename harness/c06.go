package main

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C06"] = c06 }

// c06equal checks what equality of a and b must be (want: -1 unknown), both ways, and the hash codes.
func c06equal(a, b dgo.Value, want int) string {
	ab, ba := a.Equals(b), b.Equals(a)
	if ab != ba {
		return fmt.Sprintf("a.Equals(b) is %t and b.Equals(a) is %t", ab, ba)
	}
	if want >= 0 && ab != (want == 1) {
		return fmt.Sprintf("Equals is %t", ab)
	}
	if ab && a.HashCode() != b.HashCode() {
		return fmt.Sprintf("equal, but the hash codes are %d and %d", a.HashCode(), b.HashCode())
	}
	if !a.Equals(a) || !b.Equals(b) {
		return "not equal to itself"
	}
	if a.HashCode() != a.HashCode() {
		return "two hash codes"
	}
	return ""
}

// structOf makes a pointer to a go struct with the entries of a map with exported string keys, nil when not possible.
func structOf(m *M) interface{} {
	if m.K != 'm' || len(m.A) == 0 {
		return nil
	}
	var fs []reflect.StructField
	for i, k := range m.KS {
		if k.K != 's' || k.S == "" || k.S[0] < 'A' || k.S[0] > 'Z' {
			return nil
		}
		for j := range k.S {
			if c := k.S[j] | 0x20; c < 'a' || c > 'z' {
				return nil
			}
		}
		var t reflect.Type
		switch m.A[i].K {
		case 'i':
			t = reflect.TypeOf(int64(0))
		case 'f':
			t = reflect.TypeOf(0.0)
		case 's':
			t = reflect.TypeOf("")
		case 'b':
			t = reflect.TypeOf(true)
		case 'a':
			t = reflect.TypeOf((*dgo.Array)(nil)).Elem()
		case 'm':
			t = reflect.TypeOf((*dgo.Map)(nil)).Elem()
		default:
			t = reflect.TypeOf((*dgo.Value)(nil)).Elem()
		}
		fs = append(fs, reflect.StructField{Name: k.S, Type: t})
	}
	rv := reflect.New(reflect.StructOf(fs))
	for i, v := range m.A {
		f := rv.Elem().Field(i)
		switch v.K {
		case 'i':
			f.SetInt(v.I)
		case 'f':
			f.SetFloat(v.F)
		case 's':
			f.SetString(v.S)
		case 'b':
			f.SetBool(v.B)
		default:
			f.Set(reflect.ValueOf(build(v, false)))
		}
	}
	return rv.Interface()
}

// variant builds the same value in another way.
func variant(m *M, r int) dgo.Value {
	switch m.K {
	case 'a':
		a := vf.MutableValues()
		switch r % 4 {
		case 0:
			for i := range m.A {
				a.Add(variant(m.A[i], r/4+i))
			}
		case 1: // from a longer one
			a.Add(7)
			for i := range m.A {
				a.Add(variant(m.A[i], r/4+i))
			}
			a.Remove(0)
		case 2: // a slice of a longer one
			a.Add(7)
			for i := range m.A {
				a.Add(variant(m.A[i], r/4+i))
			}
			a.Add("z")
			return a.Slice(1, a.Len()-1)
		default:
			vs := make([]dgo.Value, len(m.A))
			for i := range m.A {
				vs[i] = variant(m.A[i], r/4+i)
			}
			return vf.WrapSlice(vs).FrozenCopy().(dgo.Array)
		}
		return a
	case 'm':
		if r%5 == 4 {
			if s := structOf(m); s != nil {
				return vf.MutableMap(s)
			}
		}
		c := vf.MutableMap()
		put := func(i int) { c.Put(variant(m.KS[i], 0), variant(m.A[i], r/5+i)) }
		switch r % 5 {
		case 0:
			for i := len(m.A) - 1; i >= 0; i-- {
				put(i)
			}
		case 1: // with a removed entry and an overwritten one
			c.Put("\x00removed", 1)
			for i := range m.A {
				c.Put(variant(m.KS[i], 0), 0)
			}
			for i := range m.A {
				put(i)
			}
			c.Remove("\x00removed")
		case 2:
			n := len(m.A)
			for i := range m.A {
				put((i + r/5) % n)
			}
			return c.FrozenCopy()
		case 3:
			c = vf.MapWithCapacity(50)
			for i := range m.A {
				put(i)
			}
		default:
			for i := range m.A {
				put(i)
			}
			return c.Copy(false)
		}
		return c
	case 'w':
		return vf.Sensitive(variant(m.A[0], r))
	case 's':
		return vf.Value(strings.Clone(m.S))
	}
	return build(m, r%2 == 0)
}

type c06st struct {
	A int
	B *c06st
}
type c06st2 struct {
	A int
	B *c06st
}
type c06in struct{ X, Y interface{} }

func c06universe(t *T) (names []string, vals []dgo.Value) {
	add := func(n string, f func() interface{}) {
		t.Check("make", func() string { return n }, func() string {
			v := vf.Value(f())
			names, vals = append(names, n), append(vals, v)
			return ""
		})
	}
	ms0 := []*M{mn(), mb(true), mb(false), mi(0), mi(1), mi(-1), mi(1 << 32), mi(131), mi(1231), mf(0), mf(1), mf(-0.0), mf(1.5), mf(1 << 40), ms(""), ms("a"), ms("b"), ms("1"), ms("\x00"),
		mx(""), mx("a"), mx("\x00"), mx("ab"), mt(0), mt(1), mt(2), mt(3), mt(4), mt(5), mr("a"), mr(""), mr("b"), ma(), ma(mi(1)), ma(mi(1), mi(2)), ma(mi(2), mi(1)), ma(ma()), ma(mm()), ma(mn()), ma(ms("a"), mi(1)),
		mm(), mm(ms("a"), mi(1)), mm(ms("a"), mi(2)), mm(ms("A"), mi(1)), mm(ms("a"), mi(1), ms("b"), mi(2)), mm(ms("b"), mi(2), ms("a"), mi(1)), mm(ms("a"), mn()), mm(ms("b"), mn()), mm(mi(1), ms("a")), mm(ma(), mm()), mm(mn(), mn()), mm(ms("A"), ms("x"), ms("B"), ms("y")),
		mm(ms("a"), mi(1), ms("b"), mn()), mm(ms("a"), mi(1), ms("c"), mn()), mm(ms("X"), mn()),
		{K: 'w', A: []*M{mi(1)}}, {K: 'w', A: []*M{ms("a")}}, {K: 'w', A: []*M{ma(mi(1))}}, {K: 'w', A: []*M{mn()}}}
	for _, m := range ms0 {
		m := m
		for r := 0; r < 5; r++ {
			r := r
			if r > 1 && m.K != 'm' && m.K != 'a' {
				continue
			}
			add(fmt.Sprintf("%s#%d", m, r), func() interface{} { return variant(m, r) })
		}
		if s := structOf(m); s != nil {
			add(m.String()+"#struct", func() interface{} { return vf.MutableMap(s) })
		}
		add("type of "+m.String(), func() interface{} { return build(m, true).Type() })
		add("type of type of "+m.String(), func() interface{} { return build(m, true).Type().Type() })
		add("generic type of "+m.String(), func() interface{} { return typ.Generic(build(m, true).Type()) })
		for _, k := range []*M{ms("a"), mi(1)} {
			k := k
			add(fmt.Sprintf("entry %s:%s", k, m), func() interface{} { return vf.MapEntry(build(k, true), build(m, true)) })
			add(fmt.Sprintf("node %s:%s", k, m), func() interface{} {
				return vf.Map(build(k, true), build(m, true)).Find(func(dgo.MapEntry) bool { return true })
			})
		}
	}
	for _, s := range []string{"a", "b", ""} {
		s := s
		add("error "+s, func() interface{} { return errors.New(s) })
		add("error2 "+s, func() interface{} { return fmt.Errorf("%s", s) })
		add("error type "+s, func() interface{} { return vf.Value(errors.New(s)).Type() })
		add("array of error "+s, func() interface{} { return vf.Values(errors.New(s)) })
	}
	for i, f := range []interface{}{strings.ToUpper, strings.ToLower, strings.Split, fmt.Sprintf, func() {}, strings.Title} {
		f := f
		add(fmt.Sprintf("func %d", i), func() interface{} { return f })
		add(fmt.Sprintf("func again %d", i), func() interface{} { return f })
		add(fmt.Sprintf("type of func %d", i), func() interface{} { return vf.Value(f).Type() })
		add(fmt.Sprintf("reflected type of func %d", i), func() interface{} { return tf.FromReflected(reflect.TypeOf(f)) })
	}
	ch := make(chan int)
	x, y := 1, 1
	px, py := &x, &y
	m1, m2 := map[string]int{"a": 1}, map[string]int{"a": 1}
	_, _ = m1, m2
	for i, n := range []interface{}{ch, make(chan int), (*int)(nil), c06st{1, nil}, c06st{1, &c06st{2, nil}}, c06st{1, &c06st{2, nil}}, &c06st{1, &c06st{2, nil}}, &c06st{1, &c06st{2, nil}}, c06st2{1, &c06st{2, nil}},
		&px, &py, [2]int{1, 2}, [2]int{1, 2}, &[2]int{1, 2}, &[2]int{1, 2}, complex(1, 2), complex(1, 2), c06in{1, "a"}, c06in{1, "a"}, c06in{int8(1), "a"}, c06in{[]int{1}, m1}, c06in{[]int{1}, m2}, &c06in{1, "a"},
		struct {
			a int
			b string
		}{1, "x"}, struct {
			a int
			b string
		}{1, "x"}, time.Second, time.Second, uintptr(3), uintptr(3), int8(1), uint8(1), float32(1), []int{1}, []byte("a"), m1, m2} {
		n := n
		add(fmt.Sprintf("native %d %T %v", i, n, reflect.TypeOf(n).Kind()), func() interface{} { return vf.ValueFromReflected(reflect.ValueOf(n)) })
		add(fmt.Sprintf("value %d %T", i, n), func() interface{} { return n })
		add(fmt.Sprintf("sensitive %d %T", i, n), func() interface{} { return vf.Sensitive(n) })
		add(fmt.Sprintf("native type %d %T", i, n), func() interface{} { return tf.FromReflected(reflect.TypeOf(n)) })
	}
	types := []string{"any", "nil", "bool", "int", "float", "string", "dgo", "[]any", "[]int", "[]string", "[0,3]int", "[1,3]int", "[1]int", "{}", "{int}", "{int,string}", "{int,...string}", "{...int}", "{any,...any}", "{1,2}", "{1,string}",
		"map[any]any", "map[string]int", "map[int]string", "map[string,1]int", "map[string,1,3]int", "map[string,0,3]int", "{...}", `{"a":int}`, `{"a"?:int}`, `{"a":int,...}`, `{"a":int,"b":string}`, `{"b":string,"a":int}`, `{"a":1}`, `{"a":1,"b":2}`, `{"b":2,"a":1}`,
		"0..3", "0...3", "0..4", "1..3", "-1..3", "..3", "0..", "...3", "0.0..3.0", "0.0...3.0", "0.5..3.0", "0.25..3.0", "0.0..", "..3.0", "string[1]", "string[1,3]", "string[0,3]", `/a/`, `/b/`, `~"a"`, `~"A"`, `"a"`, `"b"`, "1", "2", "1.0", "true", "false",
		"int|string", "string|int", "int|string|nil", "nil|string|int", "int&0..3", "0..3&int", "int^string", "string^int", `"a"|"b"`, `"b"|"a"`, "1&2", "2&1", "1^2", "2^1", "1|2", "2|1", "1|1|2", "1|2|2", "0..3|0..3|1..9", "0..3|1..9|1..9", "!int", "!string", "!(int|string)", "!(string|int)",
		"sensitive", "sensitive[int]", "sensitive[string]", "sensitive[any]", "type", "type[int]", "type[string]", "type[any]", "type[type]", "type[type[int]]", "binary[1]", "func(int)", "func(int) int", "func(string) int", "func(int,string) (int, error)", "func(...int)", "func()", "error", "[](int|string)", "[](string|int)", "map[string](int|string)", "map[string](string|int)",
		`func(string,string) []string`, `func(string) string`, `{string}`, `{string,string}`}
	for _, s := range types {
		s := s
		if _, p := Panics(func() { tf.ParseType(s) }); p {
			continue
		}
		add("type "+s, func() interface{} { return tf.ParseType(s) })
		add("type again "+s, func() interface{} { return tf.ParseType(s) })
		add("array type "+s, func() interface{} { return tf.Array(tf.ParseType(s)) })
		add("meta "+s, func() interface{} { return tf.ParseType(s).Type() })
		add("not "+s, func() interface{} { return tf.Not(tf.ParseType(s)) })
		add("assign error "+s, func() interface{} { return tf.IllegalAssignment(tf.ParseType(s), vf.Value(1)) })
		add("size error "+s, func() interface{} { return tf.IllegalSize(tf.ParseType(s), 3) })
		if st, ok := tf.ParseType(s).(dgo.StructMapType); ok {
			add("key error "+s, func() interface{} { return tf.IllegalMapKey(st, vf.Value("x")) })
			st.Each(func(e dgo.StructMapEntry) {
				add("struct entry "+s, func() interface{} { return e })
				add("entry of struct entry "+s, func() interface{} { return vf.MapEntry(e.Key(), e.Value()) })
			})
		}
	}
	for _, tp := range []dgo.Type{typ.Time, typ.Regexp, typ.Binary, typ.Error, typ.Native, tf.Binary(0, 3), tf.Binary(0, 3), tf.Binary(2, 3), tf.Binary(3), typ.Tuple, typ.EmptyTuple, typ.Function, typ.AllOf, typ.AnyOf, typ.OneOf,
		tf.Function(tf.Tuple(typ.String), tf.Tuple(typ.String)), tf.Tuple(typ.Any), tf.VariadicTuple(typ.Any), tf.Enum("a", "b"), tf.Enum("b", "a"), tf.IntEnum(1, 2), tf.CiEnum("a", "b"), tf.CiEnum("b", "a"),
		tf.AllOf(typ.Integer, tf.Integer(0, 1, true)), tf.StructMap(false), tf.StructMap(true), tf.Pattern(regexp.MustCompile("a"))} {
		tp := tp
		add("tf "+fmt.Sprint(tp), func() interface{} { return tp })
	}
	tf.NewNamed("c06a", nil, nil, nil, nil, nil)
	tf.NewNamed("c06b", nil, nil, nil, nil, nil)
	defer tf.RemoveNamed("c06a")
	defer tf.RemoveNamed("c06b")
	for _, n := range []string{"c06a", "c06b"} {
		n := n
		add("named "+n, func() interface{} { return tf.Named(n) })
		for i := 0; i < 3; i++ {
			i := i
			add(fmt.Sprintf("parameterized %s %d", n, i), func() interface{} { return tf.Parameterized(tf.Named(n), vf.Values(i/2)) })
			add(fmt.Sprintf("exact named %s %d", n, i), func() interface{} { return tf.ExactNamed(tf.Named(n), vf.Integer(int64(i/2))) })
		}
	}
	_ = util.StringHash
	return
}

func c06(t *T) {
	t.Group("universe")
	names, vals := c06universe(t)
	n := len(vals)
	class := make([]int, n) // the first value each value equals
	for i := range vals {
		class[i] = -1
	}
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			eq := false
			t.Check("universe.pair", func() string { return names[i] + " and " + names[j] }, func() string {
				if s := c06equal(vals[i], vals[j], -1); s != "" {
					return s
				}
				eq = vals[i].Equals(vals[j])
				return ""
			})
			if eq && class[j] < 0 {
				class[j] = i
			}
			if t.keys["universe.pair"] >= 3 {
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if class[i] < 0 || class[j] < 0 || t.keys["universe.pair"] > 0 {
				continue
			}
			t.Check("universe.transitive", func() string { return names[class[i]] + ", " + names[i] + " and " + names[j] }, func() string {
				if (class[i] == class[j]) != vals[i].Equals(vals[j]) {
					return fmt.Sprintf("equality is not transitive (%s, %s)", names[class[i]], names[class[j]])
				}
				return ""
			})
		}
	}
	t.Group("nested")
	// equality of collections is decided by that of the parts
	for i := 0; i < n; i++ {
		for k := 0; k < 12; k++ {
			j := t.rng.Intn(n)
			if k < 3 && class[i] >= 0 {
				j = class[i]
			}
			a, b := vals[i], vals[j]
			t.Check("nested", func() string { return names[i] + " and " + names[j] }, func() string {
				w := 0
				if a.Equals(b) {
					w = 1
				}
				if s := c06equal(vf.MutableValues(a, 1), vf.MutableValues(b, 1), w); s != "" {
					return "as elements: " + s
				}
				if s := c06equal(vf.MapEntry("k", a), vf.MapEntry("k", b), w); s != "" {
					return "as value of an entry: " + s
				}
				if s := c06equal(vf.MutableMap("k", a, "l", 1), vf.MutableMap("l", 1, "k", b), w); s != "" {
					return "as values of a map: " + s
				}
				if s := c06equal(vf.Sensitive(a), vf.Sensitive(b), w); s != "" {
					return "as sensitive: " + s
				}
				if ta, ok := a.(dgo.Type); ok {
					if tb, ok := b.(dgo.Type); ok {
						for x, f := range []func(t, o dgo.Type) dgo.Value{
							func(t, o dgo.Type) dgo.Value { return tf.Array(t, 1, 2) },
							func(t, o dgo.Type) dgo.Value { return tf.Tuple(t, typ.Integer) },
							func(t, o dgo.Type) dgo.Value { return tf.Map(t, typ.Integer) },
							func(t, o dgo.Type) dgo.Value { return tf.Map(typ.Integer, t) },
							func(t, o dgo.Type) dgo.Value { return tf.StructMap(true, tf.StructMapEntry("k", t, true)) },
							func(t, o dgo.Type) dgo.Value { return tf.AnyOf(t, typ.Time, o) },
							func(t, o dgo.Type) dgo.Value { return tf.OneOf(o, typ.Time, t) },
							func(t, o dgo.Type) dgo.Value { return tf.Not(t) },
							func(t, o dgo.Type) dgo.Value { return tf.Sensitive(t) },
							func(t, o dgo.Type) dgo.Value { return t.Type() }} {
							if x == 9 && w == 0 {
								break // there are only two levels of types of types
							}
							if s := c06equal(f(ta, typ.Time), f(tb, typ.Time), w); s != "" {
								return fmt.Sprintf("as part of a type (%d): %s", x, s)
							}
						}
						if s := c06equal(tf.AnyOf(ta, tb), tf.AnyOf(tb, ta), 1); s != "" {
							return "as alternatives in both orders: " + s
						}
						if s := c06equal(tf.OneOf(ta, tb, typ.Time), tf.OneOf(typ.Time, tb, ta), 1); s != "" {
							return "as exclusive alternatives in both orders: " + s
						}
						if s := c06equal(tf.AllOf(ta, typ.Time, tb), tf.AllOf(tb, ta, typ.Time), 1); s != "" {
							return "as operands of an intersection in both orders: " + s
						}
					}
				}
				return ""
			})
		}
	}
	t.Group("arguments")
	t.Check("arguments", func() string { return `vf.Arguments(1) and vf.Values(1)` }, func() string { return c06equal(vf.Arguments(1), vf.Values(1), -1) })
	t.Check("arguments.same", func() string { return `vf.Arguments(1) and vf.Arguments(1)` }, func() string {
		return c06equal(vf.Arguments(1), vf.Arguments(1), -1)
	})
	t.Group("freeze")
	for i := range vals {
		t.Check("freeze", func() string { return names[i] }, func() string {
			a := vals[i]
			if f, ok := a.(dgo.Freezable); ok {
				h := a.HashCode()
				var th dgo.Value
				if _, p := Panics(func() { th = f.ThawedCopy() }); p {
					return "" // native values may not be copied
				}
				if !th.Equals(a) || !a.Equals(th) || th.HashCode() != h {
					return "the thawed copy is different"
				}
				var fc dgo.Value
				if _, p := Panics(func() { fc = f.FrozenCopy() }); !p {
					if !fc.Equals(a) || !a.Equals(fc) || fc.HashCode() != h {
						return "the frozen copy is different"
					}
				}
			}
			return ""
		})
	}
	t.Group("random")
	kinds := allKinds + "w"
	g := &G{r: t.rng, kinds: strings.Replace(kinds, "ww", "w", 1), max: 4}
	gm := &G{r: t.rng, kinds: "is", max: 3}
	for i, n := 0, t.N(30000); i < n && !t.Expired(); i++ {
		var a, b, c *M
		switch i % 4 {
		case 0:
			a = g.value(3)
		case 1:
			a = gm.value(2)
		case 2:
			a = g.mapM(3)
		default:
			a = g.strMap(2)
			for _, k := range a.KS {
				if k.S != "" {
					k.S = strings.ToUpper(k.S[:1]) + k.S[1:]
				}
			}
			u := mm()
			for j, k := range a.KS {
				if u.find(k) < 0 {
					u.KS, u.A = append(u.KS, k), append(u.A, a.A[j])
				}
			}
			a = u
		}
		b, c = a, a
		if i%3 > 0 {
			b = g.mutate(a)
		}
		if i%5 > 0 {
			c = g.mutate(b)
		}
		ra, rb, rc := t.rng.Intn(1000), t.rng.Intn(1000), t.rng.Intn(1000)
		t.Check("random", func() string { return fmt.Sprintf("%s#%d and %s#%d and %s#%d", a, ra, b, rb, c, rc) }, func() string {
			va, vb, vc := variant(a, ra), variant(b, rb), variant(c, rc)
			w := func(x, y *M) int {
				if eqM(x, y) {
					return 1
				}
				return 0
			}
			for k, s := range []string{c06equal(va, vb, w(a, b)), c06equal(vb, vc, w(b, c)), c06equal(va, vc, w(a, c)), c06equal(va, build(a, ra%2 == 0), 1)} {
				if s != "" {
					return fmt.Sprintf("pair %d: %s", k, s)
				}
			}
			if s := c06equal(va.Type(), vb.Type(), w(a, b)); s != "" && !strings.Contains(a.String()+b.String(), "sensitive") && !strings.Contains(a.String()+b.String(), "w(") {
				return "types: " + s
			}
			h := va.HashCode()
			if f, ok := va.(dgo.Freezable); ok {
				if x := f.FrozenCopy(); x.HashCode() != h || !x.Equals(va) || !va.Equals(x) {
					return "the frozen copy is different"
				}
				if x := f.ThawedCopy(); x.HashCode() != h || !x.Equals(va) || !va.Equals(x) {
					return "the thawed copy is different"
				}
				if _, p := Panics(f.Freeze); !p && (va.HashCode() != h || !va.Equals(build(a, false)) || !build(a, false).Equals(va)) {
					return "freezing changed it"
				}
			}
			return ""
		})
	}
	t.Group("types")
	gt := &GT{&G{r: t.rng, kinds: allKinds, max: 3}, simpleTypes + "aatvmzz&|^!w"}
	for i, n := 0, t.N(20000); i < n && !t.Expired(); i++ {
		a := gt.typ(3)
		b := gt.tweak(a)
		c := gt.tweak(b)
		var ta, tb, tc, tA dgo.Type
		t.Check("types", func() string { return a.String() + " and " + b.String() + " and " + c.String() }, func() string {
			ta, tb, tc, tA = bType(a), bType(b), bType(c), bType(a)
			if s := c06equal(ta, tA, 1); s != "" {
				return "built twice: " + s
			}
			for k, s := range []string{c06equal(ta, tb, -1), c06equal(tb, tc, -1), c06equal(ta, tc, -1)} {
				if s != "" {
					return fmt.Sprintf("pair %d: %s", k, s)
				}
			}
			if ta.Equals(tb) && tb.Equals(tc) && !ta.Equals(tc) {
				return "not transitive"
			}
			if ta.Equals(tb) && ta.String() != tb.String() && !strings.ContainsAny(ta.String(), "|&^") {
				return fmt.Sprintf("equal types with the texts %s and %s", ta, tb)
			}
			return ""
		})
	}
}
