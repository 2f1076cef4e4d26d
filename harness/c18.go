package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C18"] = c18 }

type c18point struct {
	X int
	Y string
}

type c18named struct{ N int }

// c18own: a value is an instance of its own type, and the type is assignable from itself.
func c18own(t *T, key, in string, v dgo.Value) {
	t.Check(key, func() string { return in }, func() string {
		tp := v.Type()
		if tp == nil {
			return "has no type"
		}
		if !tp.Instance(v) {
			return fmt.Sprintf("is not an instance of its type %T", tp)
		}
		if !tp.Assignable(tp) || !tp.Assignable(v.Type()) {
			return fmt.Sprintf("its type %T is not assignable from itself", tp)
		}
		if !tp.Equals(v.Type()) || !typ.Any.Instance(v) || !typ.Any.Assignable(tp) {
			return fmt.Sprintf("its type %T is not equal to itself, or any is not assignable from it", tp)
		}
		return ""
	})
}

// c18pair: the type of a accepts b exactly when they are equal; so does assignability and equality of the types.
func c18pair(t *T, key string, a, b *M, va, vb dgo.Value, ta, tb dgo.Type) {
	t.Check(key, func() string { return a.String() + " and " + b.String() }, func() string {
		eq := eqM(a, b)
		if ta.Instance(vb) != eq {
			return fmt.Sprintf("they are equal: %v, but the type of the first one accepts the other: %v", eq, !eq)
		}
		if ta.Assignable(tb) != eq {
			return fmt.Sprintf("they are equal: %v, but the type of the first one is assignable from the type of the other: %v", eq, !eq)
		}
		if ta.Equals(tb) != eq {
			return fmt.Sprintf("they are equal: %v, but their types are equal: %v", eq, !eq)
		}
		if eq && ta.HashCode() != tb.HashCode() {
			return "they are equal, but the hash codes of their types differ"
		}
		return ""
	})
}

// c18accept: a type is assignable from the type of a value exactly when the value is an instance of it.
func c18accept(t *T, key string, a *TM, ta dgo.Type, m *M, v dgo.Value, tv dgo.Type) {
	t.Check(key, func() string { return a.String() + " from the type of " + m.String() }, func() string {
		want := member(a, m)
		if i := ta.Instance(v); i != want {
			return fmt.Sprintf("the value is an instance: %v, expected %v", i, want)
		}
		if as := ta.Assignable(tv); as != want {
			return fmt.Sprintf("the value is an instance: %v, but the type is assignable from its type: %v", want, as)
		}
		return ""
	})
}

func c18values() []*M {
	prim := []*M{mn(), mb(true), mb(false), mi(0), mi(1), mi(-1), mi(3), mi(5), mi(math.MaxInt64), mi(math.MinInt64), mi(1 << 53), mi(1<<53 + 1), mf(0), mf(1), mf(1.5), mf(3), mf(math.Copysign(0, -1)),
		mf(1 << 53), mf(math.MaxFloat64), ms(""), ms("a"), ms("A"), ms("ab"), ms("ABC"), ms("abc"), ms("b"), ms("å"), ms("1"), ms("nil"), ms("true"), ms("k"), ms("\u212a"),
		mx(""), mx("a"), mx("ab"), mx("\x00"), mr("a"), mr("ab"), mr(""), mr("(?i)a")}
	for i := range times {
		prim = append(prim, mt(i))
	}
	coll := []*M{ma(), ma(mi(1)), ma(mf(1)), ma(mi(1), mi(2)), ma(mi(2), mi(1)), ma(mi(1), mi(1)), ma(mi(1), mi(2), mi(3)), ma(ms("a"), mi(1)), ma(mn()), ma(mn(), mn()), ma(ma()), ma(ma(), ma()), ma(ma(mi(1))), ma(ma(mi(1)), mi(2)),
		ma(mm()), ma(mm(ms("a"), mi(1))), ma(mx("a")), ma(mt(0)), ma(mt(3)), ma(mr("a")), ma(mb(true)), ma(ms("")), ma(ms("a"), ms("b")), ma(ms("ab"), ms("cd")), ma(mi(5), mi(0)), ma(ms("a"), mi(1), mi(2)),
		mm(), mm(ms("a"), mi(1)), mm(ms("a"), mf(1)), mm(ms("a"), mi(2)), mm(ms("b"), mi(1)), mm(ms("a"), mi(1), ms("b"), mi(2)), mm(ms("b"), mi(2), ms("a"), mi(1)), mm(ms("a"), mi(2), ms("b"), mi(1)),
		mm(mi(1), mi(2)), mm(mi(1), ms("a")), mm(mb(true), mn()), mm(ms("a"), mn()), mm(ms("b"), mn()), mm(ms("a"), mn(), ms("b"), mn()), mm(ms("a"), ma()), mm(ms("a"), ma(mi(1))), mm(ms("a"), mm()), mm(ms("a"), mm(ms("a"), mi(1))),
		mm(ma(mi(1)), mi(1)), mm(ma(), mi(1)), mm(mm(), mi(1)), mm(ms("a"), mi(1), ms("b"), mi(2), ms("c"), mi(3)), mm(ms("k"), ms("v")), mm(mf(1), mi(1)), mm(mi(0), mi(1)), mm(mx("a"), mi(1)), mm(mt(0), mi(1)), mm(mn(), mi(1)),
		ma(ma(mi(1), mi(2)), ma(mi(3))), ma(ma(mi(1)), ma(mi(2), mi(3)))}
	return append(prim, coll...)
}

func c18types() []*TM {
	st := func(addl bool, kvs ...interface{}) *TM {
		z := &TM{K: 'z', Addl: addl}
		for i := 0; i+2 < len(kvs); i += 3 {
			z.Keys = append(z.Keys, kvs[i].(*M))
			z.T = append(z.T, kvs[i+1].(*TM))
			z.Opt = append(z.Opt, kvs[i+2].(bool))
		}
		return z
	}
	ts := []*TM{tOp('!', tInt), tOp('!', tStr), tOp('!', tEx(mi(1))), tOp('!', tRange(0, 3, false)), tOp('!', tOp('|', tInt, tStr)), tOp('!', tWin('a', 1, 2, tInt)), tOp('^', tInt, tStr), tOp('^', tInt, tRange(0, 3, false)), tOp('^', tAny, tWin('m', 1, inf, tStr, tInt)),
		tOp('!', tOp('^', tStr, tWin('s', 0, 1))), tOp('!', tAny),
		tAny, tNil, tBool, tInt, tFlt, tStr, {K: 'R'}, {K: 'T'}, tRange(0, 3, false), tRange(0, 3, true), tRange(1, 5, false), tRange(0, 4, true), tRange(-1, inf, false), tRange(math.MinInt64, 0, true), tRange(math.MinInt64, inf, false),
		tRange(inf-1, inf, true), {K: 'f', Fl: 0, Fh: 3}, {K: 'f', Fl: 0, Fh: 3, Excl: true}, {K: 'f', Fl: 1, Fh: 2}, {K: 'f', Fl: 1.5, Fh: 1.5}, {K: 'f', Fl: -math.MaxFloat64, Fh: 0},
		tWin('s', 0, 1), tWin('s', 1, 2), tWin('s', 1, inf), tWin('s', 0, 3), tWin('s', 0, 0), tWin('s', 2, 2), tWin('x', 0, 1), tWin('x', 0, inf), tWin('x', 1, 2), tWin('x', 0, 0), tWin('x', 2, 2),
		{K: 'P', Text: "a"}, {K: 'P', Text: "^b"}, {K: 'P', Text: "^$"}, {K: 'c', Text: "abc"}, {K: 'c', Text: "A"}, {K: 'c', Text: "k"}, {K: 'c', Text: "Å"}, {K: 'c', Text: ""},
		tWin('a', 0, inf, tAny), tWin('a', 0, 2, tAny), tWin('a', 1, 2, tInt), tWin('a', 0, inf, tInt), tWin('a', 0, inf, tRange(0, 3, false)), tWin('a', 2, 2, tOp('|', tInt, tStr)), tWin('a', 0, 0, tInt), tWin('a', 0, 1, tWin('a', 0, inf, tInt)), tWin('a', 0, 2, tNil), tWin('a', 1, 1, tStr),
		tWin('a', 0, inf, tEx(mi(1))), tWin('a', 1, 3, tFlt), tWin('a', 0, inf, tWin('m', 0, inf, tStr, tAny)),
		tOp('t'), tOp('t', tInt), tOp('t', tInt, tInt), tOp('t', tStr, tInt), tOp('t', tAny, tAny), tOp('t', tEx(mi(1)), tEx(mi(2))), tOp('t', tWin('a', 0, inf, tInt), tInt), tOp('t', tNil), tOp('v', tInt), tOp('v', tStr, tInt), tOp('v', tAny, tAny), tOp('v', tInt, tInt, tInt), tOp('v', tStr),
		tWin('m', 0, inf, tAny, tAny), tWin('m', 0, inf, tStr, tInt), tWin('m', 1, 2, tStr, tAny), tWin('m', 0, 1, tAny, tInt), tWin('m', 1, inf, tStr, tOp('|', tInt, tStr)), tWin('m', 2, 2, tStr, tInt), tWin('m', 0, 0, tStr, tInt), tWin('m', 0, inf, tInt, tAny),
		tWin('m', 0, inf, tOp('|', tEx(ms("a")), tEx(ms("b"))), tNil), tWin('m', 0, inf, tAny, tWin('a', 0, inf, tAny)), tWin('m', 0, inf, tWin('s', 1, 1), tRange(1, 2, false)),
		st(false), st(true), st(false, ms("a"), tInt, false), st(false, ms("a"), tInt, true), st(true, ms("a"), tAny, false), st(true, ms("a"), tInt, true), st(false, ms("a"), tInt, false, ms("b"), tInt, true), st(false, ms("a"), tInt, false, ms("b"), tInt, false),
		st(true, mi(1), tInt, false), st(false, ms("b"), tRange(2, 3, false), false, ms("a"), tAny, true), st(false, ms("a"), tNil, true), st(true, ms("b"), tNil, false), st(false, ms("a"), tWin('a', 0, inf, tAny), false), st(false, ms("a"), tEx(mi(1)), false), st(true, ms("c"), tInt, false),
		tOp('|', tInt, tStr), tOp('|', tRange(0, 1, false), tRange(2, 5, false)), tOp('|', tEx(ms("a")), tEx(ms("b"))), tOp('|', tNil, tInt), tOp('|', tWin('a', 0, 1, tInt), tWin('a', 2, 2, tInt)), tOp('|', tWin('m', 0, inf, tStr, tInt), tWin('a', 0, inf, tStr)), tOp('|', tFlt),
		tOp('&', tInt, tRange(0, 3, false)), tOp('&', tStr, tWin('s', 1, 2)), tOp('&', tRange(0, 3, false), tRange(1, 5, false)), tOp('&', tWin('a', 0, 2, tAny), tWin('a', 0, inf, tInt)), tOp('&', tStr, tInt), tOp('&', tWin('m', 1, inf, tAny, tAny), tWin('m', 0, inf, tStr, tInt)),
		tOp('&', tStr, &TM{K: 'P', Text: "a"}, tWin('s', 2, inf)), tOp('w', tAny), tOp('w', tInt)}
	return ts
}

func c18(t *T) {
	vals := c18values()
	for i, n := 0, len(vals); i < n; i++ {
		// sealed: an array or map that holds it
		if i%3 == 0 {
			vals = append(vals, ma(vals[i], mi(7)), mm(ms("k"), vals[i]))
		}
	}
	type bv struct {
		m, f   dgo.Value
		tm, tf dgo.Type
	}
	bs := make([]bv, len(vals))
	for i, m := range vals {
		b := bv{m: build(m, false), f: build(m, true)}
		b.tm, b.tf = b.m.Type(), b.f.Type()
		bs[i] = b
	}
	types := c18types()
	for _, m := range vals {
		types = append(types, tEx(m))
	}
	bt := make([]dgo.Type, len(types))
	for i, m := range types {
		bt[i] = bType(m)
	}
	t.Group("own")
	for i, m := range vals {
		c18own(t, "own", m.String(), bs[i].m)
		c18own(t, "own", m.String(), bs[i].f)
		c18own(t, "own.type", m.String(), bs[i].f.Type())
		c18own(t, "own.sensitive", m.String(), vf.Sensitive(bs[i].f))
	}
	for i, m := range types {
		c18own(t, "own.type", m.String(), bt[i])
		c18own(t, "own.metatype", m.String(), bt[i].Type())
	}
	pt := &c18point{1, "a"}
	for i, v := range []dgo.Value{vf.Value(errors.New("x")), vf.Value(fmt.Errorf("a %w", errors.New("b"))), vf.Value(func(i int) int { return i }), vf.Value(fmt.Sprintf), vf.Value(pt), vf.Value(*pt), vf.Value(make(chan int)), vf.Value(reflect.ValueOf(pt)),
		vf.Map(pt), vf.MutableMap(&c18point{2, "b"}), vf.MapEntry("a", 1), vf.MapEntry(1, vf.Values(1, 2)), vf.Arguments(1, "a"), vf.Arguments(), vf.Nil, vf.Value(regexp.MustCompile("a")), vf.Values(vf.MapEntry("a", 1)),
		vf.Values(vf.Sensitive("a")), vf.Map("a", vf.Sensitive(1)), vf.Values(vf.Value(errors.New("y"))), vf.Values(typ.Integer), vf.Map("t", typ.String), vf.Value(errors.New("")), vf.MutableValues(vf.Value(pt)), vf.MutableMap("p", vf.Value(make(chan int)))} {
		c18own(t, "own.other", fmt.Sprintf("value %d of the list (%T)", i, v), v)
	}

	t.Group("equal")
	for i, a := range vals {
		for j, b := range vals {
			k := "equal." + string(a.K)
			if i == j || eqM(a, b) || a.K == b.K {
				c18pair(t, k, a, b, bs[i].m, bs[j].m, bs[i].tm, bs[j].tm)
				c18pair(t, k, a, b, bs[i].f, bs[j].m, bs[i].tf, bs[j].tm)
				c18pair(t, k, a, b, bs[i].m, bs[j].f, bs[i].tm, bs[j].tf)
			}
			c18pair(t, k, a, b, bs[i].f, bs[j].f, bs[i].tf, bs[j].tf)
			// the go form of a value is accepted like the value
			if a.K == b.K && len(b.KS) == 0 {
				if g := goForm(b, j); g != nil {
					eq := eqM(a, b)
					t.Check("go."+string(a.K), func() string { return a.String() + " and go " + b.String() }, func() string {
						if a.K != 'a' && bs[i].tf.Instance(g) != eq {
							return fmt.Sprintf("the go value is equal: %v, but it is an instance of the type of the first one: %v", eq, !eq)
						}
						return ""
					})
				}
			}
		}
	}
	t.Group("accept")
	for i, a := range types {
		for j, m := range vals {
			c18accept(t, "accept."+string(a.K), a, bt[i], m, bs[j].f, bs[j].tf)
			if m.K == 'a' || m.K == 'm' {
				c18accept(t, "accept."+string(a.K), a, bt[i], m, bs[j].m, bs[j].tm)
			}
		}
	}
	t.Group("entries")
	ents := []struct {
		k, v *M
	}{{ms("a"), mi(1)}, {ms("a"), mi(2)}, {ms("b"), mi(1)}, {mi(1), ms("a")}, {ms("a"), ma(mi(1))}, {ms("a"), mn()}, {ma(mi(1)), mm(ms("a"), mi(1))}}
	for _, a := range ents {
		for _, b := range ents {
			t.Check("entries", func() string { return fmt.Sprintf("%s:%s and %s:%s", a.k, a.v, b.k, b.v) }, func() string {
				ea, eb := vf.MapEntry(build(a.k, true), build(a.v, true)), vf.MapEntry(build(b.k, true), build(b.v, true))
				mb := vf.MutableMap(build(b.k, true), build(b.v, false))
				var en dgo.Value
				mb.EachEntry(func(e dgo.MapEntry) { en = e })
				eq := eqM(a.k, b.k) && eqM(a.v, b.v)
				if ea.Type().Instance(eb) != eq || ea.Type().Assignable(eb.Type()) != eq {
					return fmt.Sprintf("the entries are equal: %v", eq)
				}
				if ea.Type().Instance(en) != eq || ea.Type().Assignable(en.Type()) != eq || en.Type().Instance(ea) != eq {
					return fmt.Sprintf("the entries are equal: %v; the second one taken from a map", eq)
				}
				return ""
			})
		}
	}
	// the parts of an exact type
	t.Group("parts")
	for i, m := range vals {
		switch m.K {
		case 'a':
			t.Check("parts.array", m.String, func() string {
				for _, tp := range []dgo.Type{bs[i].tf, bs[i].tm} {
					tt := tp.(dgo.TupleType)
					if tt.Len() != len(m.A) || tt.Variadic() || tt.Min() != len(m.A) || tt.Max() != len(m.A) || tt.ElementTypes().Len() != len(m.A) {
						return "its size as a tuple differs"
					}
					for j, e := range m.A {
						for k, x := range vals {
							if k%5 == j%5 || eqM(x, e) {
								if tt.Element(j).Instance(bs[k].f) != eqM(x, e) || tt.ElementTypes().Get(j).(dgo.Type).Instance(bs[k].f) != eqM(x, e) {
									return fmt.Sprintf("the type of element %d accepts %s: %v", j, x, !eqM(x, e))
								}
							}
						}
					}
				}
				return ""
			})
		case 'm':
			t.Check("parts.map", m.String, func() string {
				for _, tp := range []dgo.Type{bs[i].tf, bs[i].tm} {
					mt := tp.(dgo.StructMapType)
					if mt.Len() != len(m.A) || mt.Min() != len(m.A) || mt.Max() != len(m.A) || mt.Additional() {
						return "its size as a struct type differs"
					}
					n := 0
					bad := ""
					mt.Each(func(e dgo.StructMapEntry) {
						if n < len(m.A) && (!e.Required() || !e.Key().(dgo.Type).Instance(build(m.KS[n], true)) || !e.Value().(dgo.Type).Instance(build(m.A[n], true))) {
							bad = fmt.Sprintf("entry %d does not accept the entry of the value", n)
						}
						n++
					})
					if n != len(m.A) {
						bad = "the number of entries differs"
					}
					for j, k := range m.KS {
						if e := mt.Get(build(k, true)); e == nil || !e.Value().(dgo.Type).Instance(build(m.A[j], true)) {
							bad = fmt.Sprintf("the entry for %s does not accept its value", k)
						}
					}
					if bad != "" {
						return bad
					}
				}
				return ""
			})
		}
	}
	// every short array and map over pairs of similar values, against types that tell the two apart
	t.Group("short")
	sim := []*M{mi(1), mi(5), mf(1.25), mf(1.5), ms("a"), ms("ab"), mt(0), mt(1), ma(mi(1)), ma(mi(5))}
	els := []*TM{tInt, tRange(0, 3, false), {K: 'f', Fl: 1, Fh: 1.4}, tFlt, tWin('s', 0, 1), tStr, tEx(mt(0)), {K: 'T'}, tOp('|', tRange(0, 3, false), tEx(mf(1.25))), tOp('!', tEx(mf(1.5))), tWin('a', 0, inf, tRange(0, 3, false)), tEx(ms("a"))}
	var short []*M
	for i, a := range sim {
		short = append(short, ma(a), mm(ms("a"), a))
		for j, b := range sim {
			short = append(short, ma(a, b), mm(ms("a"), a, ms("b"), b))
			for k, c := range sim {
				if i/2 == j/2 || j/2 == k/2 || i/2 == k/2 {
					short = append(short, ma(a, b, c))
					if i%2 == 0 {
						short = append(short, mm(ms("a"), a, ms("b"), b, ms("c"), c))
					}
				}
			}
		}
	}
	for _, e := range els {
		ts := []*TM{tWin('a', 0, inf, e), tWin('a', 1, 2, e), tOp('v', e), tOp('v', tAny, e), tOp('t', tAny, e), tOp('t', e, e, e), tWin('m', 0, inf, tStr, e), tWin('m', 2, 3, tAny, e),
			{K: 'z', Keys: []*M{ms("a"), ms("b")}, T: []*TM{e, e}, Opt: []bool{false, true}}, {K: 'z', Keys: []*M{ms("b"), ms("c")}, T: []*TM{e, tAny}, Opt: []bool{true, true}, Addl: true}}
		for _, a := range ts {
			ta := bType(a)
			for _, m := range short {
				if (m.K == 'm') == (a.K == 'm' || a.K == 'z') {
					v := c03build(m)
					c18accept(t, "short."+string(a.K), a, ta, m, v, v.Type())
				}
			}
		}
	}
	t.Group("random")
	g := &GT{&G{r: t.rng, kinds: allKinds, max: 3}, simpleTypes + "aatvmzz&|^!"}
	for i, n := 0, t.N(40000); i < n && !t.Expired(); i++ {
		m := g.value(3)
		if i%20 == 0 && hasSensitive(m) {
			continue
		}
		if hasSensitive(m) || hasErr(m) {
			m = vals[t.rng.Intn(len(vals))]
		}
		var a *TM
		switch i % 3 {
		case 0:
			a = g.of(m, 3)
		case 1:
			a = g.tweak(g.of(m, 3))
		default:
			a = g.typ(3)
		}
		if typeSensitive(a) {
			continue
		}
		var ta dgo.Type
		var v dgo.Value
		t.Check("random.new", func() string { return a.String() + " and " + m.String() }, func() string { ta = bType(a); v = build(m, i%2 == 0); return "" })
		if ta == nil || v == nil {
			continue
		}
		c18accept(t, "random.accept", a, ta, m, v, v.Type())
		c18own(t, "random.own", m.String(), v)
		c18own(t, "random.own.type", a.String(), ta)
		o := g.mutate(m)
		if !hasSensitive(o) && !hasErr(o) {
			vo := build(o, true)
			c18pair(t, "random.equal", m, o, v, vo, v.Type(), vo.Type())
		}
		s := g.shuffle(m)
		vs := build(s, true)
		c18pair(t, "random.equal", m, s, v, vs, v.Type(), vs.Type())
	}
	_ = tf.Not
}

func hasKind(m *M, ks string) bool {
	for _, k := range ks {
		if m.K == byte(k) {
			return true
		}
	}
	for _, e := range m.A {
		if hasKind(e, ks) {
			return true
		}
	}
	for _, e := range m.KS {
		if hasKind(e, ks) {
			return true
		}
	}
	return false
}

func hasSensitive(m *M) bool { return hasKind(m, "w") }
func hasErr(m *M) bool       { return hasKind(m, "e") }

func typeSensitive(t *TM) bool {
	if t.K == 'w' || t.V != nil && hasKind(t.V, "we") {
		return true
	}
	for _, o := range t.T {
		if typeSensitive(o) {
			return true
		}
	}
	return false
}
