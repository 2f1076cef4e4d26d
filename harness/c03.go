package main

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
)

func init() { props["C03"] = c03 }

var c03built = map[*M]dgo.Value{}

func c03build(m *M) dgo.Value {
	v, ok := c03built[m]
	if !ok {
		if len(c03built) > 5000 {
			c03built = map[*M]dgo.Value{}
		}
		v = build(m, true)
		c03built[m] = v
	}
	return v
}

// c03pair: when a is assignable from b then every value that is an instance of b is one of a. The values are decided
// by the model and, for the same values, by the types themselves.
func c03pair(t *T, key string, a, b *TM, ta, tb dgo.Type, vs []*M) bool {
	ok := false
	t.Check(key, func() string { return fmt.Sprintf("%s from %s", a, b) }, func() string {
		if ok = ta.Assignable(tb); !ok {
			return ""
		}
		for _, v := range vs {
			if member(b, v) && !member(a, v) {
				return fmt.Sprintf("is assignable, but %s is an instance of the source and not of the target", v)
			}
			if x := c03build(v); tb.Instance(x) && !ta.Instance(x) {
				return fmt.Sprintf("is assignable, but Instance of %s is true for the source and false for the target", v)
			}
		}
		return ""
	})
	return ok
}

func c03(t *T) {
	// negations and exclusive alternatives are excluded as targets from the random part: the rules they follow are
	// unsound by design (see known-findings.txt); they appear as sources, and in the fixed pairs
	g := &GT{&G{r: t.rng, kinds: allKinds, max: 3}, simpleTypes + "aatvmzz&|^!"}
	gt := &GT{g.G, simpleTypes + "aatvmzz&|"}
	pool := []*M{mn(), mb(true), mb(false), mi(0), mi(1), mi(3), mi(5), mi(-1), mf(0), mf(1.5), mf(3), ms(""), ms("a"), ms("ab"), ms("ABC"), ms("abc"), ms("b"),
		mx(""), mx("ab"), mt(0), mr("a"), ma(), ma(mi(1)), ma(mi(1), mi(2)), ma(ms("a"), mi(1)), ma(mn()), ma(ma()), ma(ma(mi(1))), mm(), mm(ms("a"), mi(1)),
		mm(ms("a"), ms("b")), mm(ms("a"), mi(1), ms("b"), mi(2)), mm(mi(1), mi(2)), mm(ms("a"), mn()), mm(ms("a"), ma(mi(1))), ma(mm(ms("a"), mi(1))), ma(mi(1), mi(2), mi(3))}
	base := []*TM{tAny, tNil, tBool, tInt, tFlt, tStr, {K: 'R'}, {K: 'T'}, tRange(0, 3, false), tRange(0, 3, true), tRange(1, 5, false), tRange(0, 4, true), tRange(-1, inf, false),
		{K: 'f', Fl: 0, Fh: 3}, {K: 'f', Fl: 0, Fh: 3, Excl: true}, {K: 'f', Fl: 1, Fh: 2},
		tWin('s', 0, 1), tWin('s', 1, 2), tWin('s', 1, inf), tWin('s', 0, 3), tWin('x', 0, 1), tWin('x', 0, inf), tWin('x', 1, 2),
		{K: 'P', Text: "a"}, {K: 'P', Text: "^b"}, {K: 'c', Text: "abc"}, {K: 'c', Text: "A"}, {K: 'c', Text: "k"},
		tEx(mi(1)), tEx(mi(3)), tEx(mf(1.5)), tEx(ms("a")), tEx(ms("abc")), tEx(ms("")), tEx(mb(true)), tEx(mx("ab")), tEx(mt(0)), tEx(mr("a")), tEx(ma()), tEx(ma(mi(1))), tEx(ma(mi(1), mi(2))), tEx(ma(ms("a"), mi(1))),
		tEx(mm()), tEx(mm(ms("a"), mi(1))), tEx(mm(ms("a"), mi(1), ms("b"), mi(2))),
		tWin('a', 0, inf, tAny), tWin('a', 0, 2, tAny), tWin('a', 1, 2, tInt), tWin('a', 0, inf, tInt), tWin('a', 0, inf, tRange(0, 3, false)), tWin('a', 2, 2, tOp('|', tInt, tStr)), tWin('a', 0, 0, tInt),
		tOp('t'), tOp('t', tInt), tOp('t', tInt, tInt), tOp('t', tStr, tInt), tOp('t', tAny, tAny), tOp('v', tInt), tOp('v', tStr, tInt), tOp('v', tAny, tAny), tOp('v', tInt, tInt, tInt),
		tWin('m', 0, inf, tAny, tAny), tWin('m', 0, inf, tStr, tInt), tWin('m', 1, 2, tStr, tAny), tWin('m', 0, 1, tAny, tInt), tWin('m', 1, inf, tStr, tOp('|', tInt, tStr)), tWin('m', 2, 2, tStr, tInt),
		{K: 'z'}, {K: 'z', Addl: true}, {K: 'z', Keys: []*M{ms("a")}, T: []*TM{tInt}, Opt: []bool{false}}, {K: 'z', Keys: []*M{ms("a")}, T: []*TM{tInt}, Opt: []bool{true}},
		{K: 'z', Keys: []*M{ms("a")}, T: []*TM{tAny}, Opt: []bool{false}, Addl: true}, {K: 'z', Keys: []*M{ms("a"), ms("b")}, T: []*TM{tInt, tInt}, Opt: []bool{false, true}},
		{K: 'z', Keys: []*M{ms("a"), ms("b")}, T: []*TM{tInt, tInt}, Opt: []bool{false, false}}, {K: 'z', Keys: []*M{mi(1)}, T: []*TM{tInt}, Opt: []bool{false}, Addl: true},
		tOp('|', tInt, tStr), tOp('|', tRange(0, 1, false), tRange(2, 5, false)), tOp('|', tEx(ms("a")), tEx(ms("b"))), tOp('|', tNil, tInt), tOp('|', tWin('a', 0, 1, tInt), tWin('a', 2, 2, tInt)),
		tOp('&', tInt, tRange(0, 3, false)), tOp('&', tStr, tWin('s', 1, 2)), tOp('&', tRange(0, 3, false), tRange(1, 5, false)), tOp('&', tWin('a', 0, 2, tAny), tWin('a', 0, inf, tInt)), tOp('&', tStr, tInt),
		tOp('w', tAny), tOp('w', tInt), tOp('w', tRange(0, 3, false))}
	sources := append(append([]*TM(nil), base...), tOp('!', tInt), tOp('!', tStr), tOp('!', tAny), tOp('^', tInt, tStr), tOp('^', tRange(0, 3, false), tRange(2, 5, false)), tOp('^', tInt, tRange(0, 3, false)),
		tOp('!', tOp('|', tInt, tStr)), tOp('!', tWin('a', 0, 1, tAny)))
	build1 := func(ms []*TM) []dgo.Type {
		ts := make([]dgo.Type, len(ms))
		for i, m := range ms {
			ts[i] = bType(m)
		}
		return ts
	}
	tb, ts := build1(base), build1(sources)
	pool = append(pool, &M{K: 'w', A: []*M{mi(2)}}, &M{K: 'w', A: []*M{mi(9)}}, &M{K: 'w', A: []*M{ms("a")}})
	yes := 0
	t.Group("pairs")
	for i, a := range base {
		for j, b := range sources {
			if c03pair(t, "pair."+string(a.K), a, b, tb[i], ts[j], pool) {
				yes++
			}
		}
	}
	// wrapped in the same way the assignability of the parts decides
	t.Group("wrapped")
	wrap := []func(*TM) *TM{
		func(o *TM) *TM { return tWin('a', 0, inf, o) },
		func(o *TM) *TM { return tOp('t', o, tAny) },
		func(o *TM) *TM { return tOp('v', tAny, o) },
		func(o *TM) *TM { return tWin('m', 0, inf, tStr, o) },
		func(o *TM) *TM { return &TM{K: 'z', Keys: []*M{ms("k")}, T: []*TM{o}, Opt: []bool{false}} },
		func(o *TM) *TM { return &TM{K: 'z', Keys: []*M{ms("k")}, T: []*TM{o}, Opt: []bool{true}, Addl: true} },
		func(o *TM) *TM { return tOp('|', o, tNil) },
		func(o *TM) *TM { return tOp('&', o, tAny) },
	}
	lift := []func(*M) *M{
		func(m *M) *M { return ma(m, m) },
		func(m *M) *M { return ma(m, mn()) },
		func(m *M) *M { return ma(mn(), m) },
		func(m *M) *M { return mm(ms("k"), m) },
		func(m *M) *M { return mm(ms("k"), m) },
		func(m *M) *M { return mm(ms("k"), m, ms("l"), mn()) },
		func(m *M) *M { return m },
		func(m *M) *M { return m },
	}
	for w := range wrap {
		vs := make([]*M, len(pool))
		for i, v := range pool {
			vs[i] = lift[w](v)
		}
		vs = append(vs, mm(), ma(), mm(ms("l"), mn()), ma(mn()))
		for i := range base {
			for j := range sources {
				if !t.thorough && (i*7+j*13+w)%6 != 0 {
					continue
				}
				a, b := wrap[w](base[i]), wrap[w](sources[j])
				c03pair(t, fmt.Sprintf("wrapped.%d", w), a, b, bType(a), bType(b), vs)
			}
		}
	}
	c03small(t)
	t.Group("reflexive")
	for i := range sources {
		t.Check("reflexive", sources[i].String, func() string {
			if !ts[i].Assignable(ts[i]) || !ts[i].Assignable(bType(sources[i])) {
				return "is not assignable from itself"
			}
			if !typ.Any.Assignable(ts[i]) {
				return "any is not assignable from it"
			}
			return ""
		})
	}
	t.Group("random")
	for i, n := 0, t.N(60000); i < n && !t.Expired(); i++ {
		var a, b *TM
		m := g.value(2)
		switch i % 4 {
		case 0:
			a, b = gt.of(m, 3), g.of(m, 3)
		case 1:
			b = gt.of(m, 3)
			a = gt.tweak(b)
		case 2:
			a = gt.typ(3)
			b = gt.tweak(a)
		default:
			a, b = gt.typ(2), g.typ(2)
		}
		var ta, tb dgo.Type
		t.Check("random.new", func() string { return a.String() + " and " + b.String() }, func() string { ta, tb = bType(a), bType(b); return "" })
		if ta == nil || tb == nil {
			continue
		}
		vs := append(g.values(b, 12), m)
		vs = append(vs, pool[i%len(pool)])
		if c03pair(t, "random."+string(a.K), a, b, ta, tb, vs) {
			yes++
		}
		if i%3 == 0 {
			t.Check("random.reflexive", a.String, func() string {
				if !ta.Assignable(ta) || !ta.Assignable(bType(a)) {
					return "is not assignable from itself"
				}
				if !typ.Any.Assignable(ta) || !typ.Any.Assignable(tb) {
					return "any is not assignable from it"
				}
				return ""
			})
		}
	}
	t.Check("coverage", nil, func() string {
		if yes < 1000 {
			return fmt.Sprintf("only %d pairs were assignable", yes)
		}
		return ""
	})
	// the rules of negation and exclusive alternatives: fixed pairs
	t.Group("negation")
	neg := []*TM{tOp('!', tInt), tOp('!', tStr), tOp('!', tEx(mi(5))), tOp('!', tRange(0, 5, false)), tOp('!', tWin('s', 1, 3)), tOp('!', tFlt), tOp('!', tNil),
		tOp('^', tInt, tRange(0, 5, false)), tOp('^', tRange(0, 5, false), tRange(3, 9, false)), tOp('^', tInt, tStr), tOp('^', tStr, tFlt)}
	src := append([]*TM{tOp('|', tOp('!', tStr), tOp('!', tInt)), tOp('|', tInt, tStr), tOp('^', tStr, tFlt), tRange(3, 8, false), tRange(2, 4, false)}, sources...)
	for _, a := range neg {
		for _, b := range src {
			c03pair(t, fmt.Sprintf("negation %s from %s", a, b), a, b, bType(a), bType(b), pool)
		}
	}
	_ = tf.Not
}

// c03small compares all small tuple types, struct types and operand lists with each other
func c03small(t *T) {
	all := func(key string, as, bs []*TM, vs []*M, skip int) {
		ta, tb := make([]dgo.Type, len(as)), make([]dgo.Type, len(bs))
		for i := range as {
			ta[i] = bType(as[i])
		}
		for i := range bs {
			tb[i] = bType(bs[i])
		}
		n := 0
		for i := range as {
			for j := range bs {
				if n++; skip > 1 && !t.thorough && n%skip != 0 && t.rng.Intn(skip) != 0 {
					continue
				}
				c03pair(t, key, as[i], bs[j], ta[i], tb[j], vs)
			}
		}
	}
	t.Group("tuples")
	elems := []*TM{tInt, tStr, tAny}
	var tups []*TM
	var seqs func(n int, p []*TM)
	seqs = func(n int, p []*TM) {
		tups = append(tups, tOp('t', append([]*TM(nil), p...)...))
		if len(p) > 0 {
			tups = append(tups, tOp('v', append([]*TM(nil), p...)...))
		}
		if n == 0 {
			return
		}
		es := elems
		if len(p) > 1 {
			es = elems[:2]
		}
		for _, e := range es {
			seqs(n-1, append(p, e))
		}
	}
	seqs(4, nil)
	var lists []*M
	var vals func(n int, p []*M)
	vals = func(n int, p []*M) {
		lists = append(lists, ma(append([]*M(nil), p...)...))
		if n == 0 {
			return
		}
		for _, e := range []*M{mi(1), ms("a")} {
			vals(n-1, append(p, e))
		}
		if n > 3 {
			vals(n-1, append(p, mn()))
		}
	}
	vals(6, nil)
	arrs := []*TM{}
	for _, e := range []*TM{tInt, tStr, tAny, tOp('|', tInt, tStr)} {
		for lo := int64(0); lo < 4; lo++ {
			arrs = append(arrs, tWin('a', lo, inf, e))
			for hi := lo; hi < 5; hi++ {
				arrs = append(arrs, tWin('a', lo, hi, e))
			}
		}
	}
	all("tuples", tups, tups, lists, 2)
	all("tuple.array", tups, arrs, lists, 1)
	all("array.tuple", arrs, tups, lists, 1)
	all("arrays", arrs, arrs, lists, 1)

	t.Group("structs")
	var structs []*TM
	keys := []*M{ms("a"), ms("b"), ms("c")}
	var sts func(i int, z TM)
	sts = func(i int, z TM) {
		if i == len(keys) {
			y, w := z, z
			y.Addl, w.Addl = false, true
			structs = append(structs, &y, &w)
			return
		}
		sts(i+1, z)
		for _, e := range elems {
			if i == 2 && e != tInt {
				continue
			}
			for _, o := range []bool{false, true} {
				n := TM{K: 'z', Keys: append(append([]*M(nil), z.Keys...), keys[i]), T: append(append([]*TM(nil), z.T...), e), Opt: append(append([]bool(nil), z.Opt...), o)}
				sts(i+1, n)
			}
		}
	}
	sts(0, TM{K: 'z'})
	var maps []*M
	for i := 0; i < 4*4*3*3; i++ {
		m := mm()
		for k, n := range []int{i % 4, i / 4 % 4, i / 16 % 3} {
			if n > 0 {
				m.KS, m.A = append(m.KS, keys[k]), append(m.A, []*M{mi(1), ms("a"), mn()}[n-1])
			}
		}
		if n := i / 48; n > 0 {
			m.KS, m.A = append(m.KS, []*M{ms("d"), mi(7)}[n-1]), append(m.A, ms("x"))
		}
		maps = append(maps, m)
	}
	mts := []*TM{}
	for _, k := range []*TM{tStr, tAny, tWin('s', 1, 1), tOp('|', tEx(ms("a")), tEx(ms("b")))} {
		for _, e := range []*TM{tInt, tAny, tOp('|', tInt, tStr)} {
			for lo := int64(0); lo < 3; lo++ {
				mts = append(mts, tWin('m', lo, inf, k, e), tWin('m', lo, lo, k, e), tWin('m', lo, 3, k, e))
			}
		}
	}
	all("structs", structs, structs, maps, 4)
	all("map.struct", mts, structs, maps, 2)
	all("struct.map", structs, mts, maps, 2)
	all("maps", mts, mts, maps, 1)

	t.Group("operands")
	prim := []*TM{tInt, tStr, tAny, tNil, tWin('s', 1, inf), tWin('s', 0, 5), tWin('s', 1, 7), tWin('s', 0, 8), tWin('s', 0, 12), tWin('s', 2, 5), tRange(0, 3, false), tRange(2, 9, false), tRange(1, 2, false), tRange(-1, inf, false),
		tEx(ms("a")), tEx(ms("abcdef")), tEx(mi(2)), {K: 'P', Text: "a"}, tWin('a', 0, 2, tAny), tWin('a', 0, inf, tInt), tWin('m', 1, inf, tAny, tAny), tWin('m', 0, 2, tAny, tAny), tWin('m', 0, inf, tStr, tAny)}
	vs := []*M{mn(), mi(-1), mi(0), mi(1), mi(2), mi(3), mi(5), mi(9), mi(100), ms(""), ms("a"), ms("ba"), ms("bcd"), ms("abcde"), ms("abcdef"), ms("abcdefgh"), ms("bcdefghijk"), ms("bcdefghijklmn"), ma(), ma(mi(1)), ma(mi(1), mi(2), mi(3)), ma(ms("a")),
		ma(ms("a"), ms("a"), ms("a")), mm(), mm(ms("a"), mi(1)), mm(mi(1), mi(1)), mm(ms("a"), mi(1), ms("b"), mi(1), ms("c"), mi(1))}
	families := [][]*TM{prim, prim[4:10], prim[10:14], append(append([]*TM(nil), prim[1]), prim[4:10]...), append(append([]*TM(nil), prim[0]), prim[10:14]...), prim[18:20], prim[20:23], prim[14:18]}
	for i, n := 0, t.N(30000); i < n && !t.Expired(); i++ {
		f := families[t.rng.Intn(len(families))]
		op := func() *TM {
			n := 1 + t.rng.Intn(4)
			ts := make([]*TM, n)
			for j := range ts {
				ts[j] = f[t.rng.Intn(len(f))]
			}
			if n == 1 {
				return ts[0]
			}
			return tOp("&&|"[t.rng.Intn(3)], ts...)
		}
		a, b := op(), op()
		if t.rng.Intn(4) == 0 {
			// drop, add or exchange an operand
			c := *a
			c.T = append([]*TM(nil), a.T...)
			if len(c.T) > 0 {
				c.T[t.rng.Intn(len(c.T))] = f[t.rng.Intn(len(f))]
			}
			b = &c
		}
		c03pair(t, "operands", a, b, bType(a), bType(b), vs)
	}
}
