package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
)

func init() { props["C02"] = c02; props["C04"] = c04; props["C05"] = c05 }

type sized interface {
	Min() int
	Max() int
	Unbounded() bool
}

// probe compares what the type says about the value with what its model says.
func probe(t *T, key string, tm *TM, ty dgo.Type, m *M) {
	in := func() string { return fmt.Sprintf("type %s, value %s", tm, m) }
	t.Check(key, in, func() string {
		want := member(tm, m)
		if got := ty.Instance(build(m, t.rng.Intn(2) == 0)); got != want {
			return fmt.Sprintf("Instance gives %v", got)
		}
		if gf := goForm(m, t.rng.Intn(3)); gf != nil {
			if got := ty.Instance(gf); got != want {
				return fmt.Sprintf("Instance of the go value %T gives %v", gf, got)
			}
		}
		return ""
	})
}

func c02(t *T) {
	g := &GT{&G{r: t.rng, kinds: allKinds, max: 4}, allTypes}
	bounds := []int64{-3, 0, 1, 2, 3, 5, inf}
	of := func(k byte, n int) []*M {
		switch k {
		case 's':
			return []*M{ms(strings.Repeat("x", n)), ms(strings.Repeat("é", n/2) + strings.Repeat("y", n%2))}
		case 'x':
			return []*M{mx(strings.Repeat("x", n))}
		case 'a':
			m := ma()
			for i := 0; i < n; i++ {
				m.A = append(m.A, mi(int64(i)))
			}
			return []*M{m}
		}
		m := mm()
		for i := 0; i < n; i++ {
			m.KS = append(m.KS, mi(int64(i)))
			m.A = append(m.A, mi(int64(i)))
		}
		return []*M{m}
	}
	parts := map[byte][][]*TM{'s': {nil}, 'x': {nil}, 'a': {{tAny}, {tInt}, {tEx(mi(0))}, {tStr}}, 'm': {{tAny, tAny}, {tInt, tInt}, {tAny, tStr}, {tStr, tAny}}}
	other := []*M{mn(), mb(true), mi(2), mf(2), ms("ab"), mx("ab"), mt(0), mr("ab"), ma(mi(1), mi(2)), mm(mi(1), mi(1), mi(2), mi(2))}
	type ent struct {
		tm *TM
		ty dgo.Type
	}
	all := map[byte][]ent{}
	for _, k := range []byte("sxam") {
		t.Group("window." + string(k))
		for _, ps := range parts[k] {
			for _, lo := range bounds {
				for _, hi := range bounds {
					tm := tWin(k, lo, hi, ps...)
					var ty dgo.Type
					t.Check(t.group+".new", func() string { return fmt.Sprintf("bounds %d, %d", lo, hi) }, func() string { ty = bType(tm); return "" })
					if ty == nil {
						continue
					}
					for n := 0; n < 8; n++ {
						for _, v := range of(k, n) {
							probe(t, t.group, tm, ty, v)
						}
					}
					for _, o := range other {
						probe(t, t.group, tm, ty, o)
					}
					wlo, whi := tm.window()
					t.Check(t.group+".bounds", func() string { return fmt.Sprintf("bounds %d, %d", lo, hi) }, func() string {
						s, ok := ty.(sized)
						if !ok {
							return fmt.Sprintf("%T has no bounds", ty)
						}
						if int64(s.Min()) != wlo || int64(s.Max()) != whi {
							return fmt.Sprintf("Min is %d and Max is %d", s.Min(), s.Max())
						}
						if s.Unbounded() != (wlo == 0 && whi == math.MaxInt64) {
							return fmt.Sprintf("Unbounded is %v", s.Unbounded())
						}
						return ""
					})
					if lo >= 0 && hi >= lo && tm.parseable() {
						t.Check(t.group+".parse", tm.source, func() string {
							p := tf.ParseType(tm.source())
							if s := p.(sized); int64(s.Min()) != wlo || int64(s.Max()) != whi {
								return fmt.Sprintf("parsing gives Min %d and Max %d", s.Min(), s.Max())
							}
							if !p.Equals(ty) {
								return "parsing gives another type: " + p.String()
							}
							return ""
						})
					}
					all[k] = append(all[k], ent{tm, ty})
				}
			}
		}
		// inclusion of windows
		t.Group("inclusion." + string(k))
		for _, a := range all[k] {
			for _, b := range all[k] {
				alo, ahi := a.tm.window()
				blo, bhi := b.tm.window()
				enc := alo <= blo && bhi <= ahi
				same := len(a.tm.T) == 0 || a.tm.T[0] == b.tm.T[0] && a.tm.T[len(a.tm.T)-1] == b.tm.T[len(b.tm.T)-1]
				wide := k == 'a' && a.tm.T[0] == tAny || k == 'm' && a.tm.T[0] == tAny && a.tm.T[1] == tAny
				t.Check(t.group, func() string { return fmt.Sprintf("%s from %s", a.tm, b.tm) }, func() string {
					got := a.ty.Assignable(b.ty)
					if (same || wide) && got != enc {
						return fmt.Sprintf("Assignable gives %v, enclosing is %v", got, enc)
					}
					if got && !enc {
						return "assignable, but the window is not enclosed"
					}
					return ""
				})
			}
			// from exact values, tuples and structs
			for n := 0; n < 5; n++ {
				for _, v := range of(k, n) {
					t.Check(t.group+".exact", func() string { return fmt.Sprintf("%s from the type of %s", a.tm, v) }, func() string {
						if got := a.ty.Assignable(build(v, true).Type()); got != member(a.tm, v) {
							return fmt.Sprintf("Assignable gives %v, membership is %v", got, member(a.tm, v))
						}
						return ""
					})
				}
			}
			if k == 'a' && a.tm.T[0] == tAny {
				alo, ahi := a.tm.window()
				for n := 1; n < 4; n++ {
					ts := make([]interface{}, n)
					for i := range ts {
						ts[i] = typ.String
					}
					t.Check(t.group+".tuple", func() string { return fmt.Sprintf("%s from tuples of %d strings", a.tm, n) }, func() string {
						if got := a.ty.Assignable(tf.Tuple(ts...)); got != (alo <= int64(n) && int64(n) <= ahi) {
							return fmt.Sprintf("Assignable gives %v", got)
						}
						if got := a.ty.Assignable(tf.VariadicTuple(ts...)); got != (alo <= int64(n-1) && ahi == inf) {
							return fmt.Sprintf("Assignable from the variadic tuple gives %v", got)
						}
						return ""
					})
				}
			}
		}
	}
	// the unconstrained types take every length
	t.Group("default")
	for n := 0; n < 5; n++ {
		for i, ty := range []dgo.Type{typ.String, typ.Binary, typ.Array, typ.Map} {
			k := "sxam"[i]
			for _, v := range of(k, n) {
				probe(t, t.group, tWin(k, 0, inf, parts[k][0]...), ty, v)
			}
		}
	}
	// windows in nested types
	t.Group("nested")
	for i, n := 0, t.N(4000); i < n && !t.Expired(); i++ {
		tm := g.win("am"[i%2])
		if tm.K == 'a' {
			tm.T = []*TM{g.win(g.pick("sx"))}
		} else {
			tm.T = []*TM{g.win('s'), g.win('a', g.typ(0))}
		}
		ty := bType(tm)
		for _, v := range g.values(tm, 4) {
			probe(t, t.group, tm, ty, v)
		}
	}
}

func c04(t *T) {
	g := &GT{&G{r: t.rng, kinds: allKinds, max: 3}, allTypes}
	op := map[byte]func(...interface{}) dgo.Type{'&': tf.AllOf, '|': tf.AnyOf, '^': tf.OneOf}
	// all combinations of simple operands
	base := []*TM{tInt, tRange(0, 3, false), tRange(2, 5, true), tStr, tWin('s', 1, 2), tEx(ms("a")), tAny, tOp('!', tInt), tOp('!', tEx(ms("a"))), tBool, tEx(mi(2))}
	vals := []*M{mi(0), mi(2), mi(3), mi(4), mi(7), ms(""), ms("a"), ms("abc"), mb(true), mn(), mf(2), ma(mi(2))}
	combine := func(k byte, ts ...*TM) {
		tm := tOp(k, ts...)
		var ty dgo.Type
		t.Check("new."+string(k), tm.String, func() string {
			ty = op[k](bTypes(ts)...)
			return ""
		})
		if ty == nil {
			return
		}
		if len(ts) == 1 {
			t.Check("single."+string(k), tm.String, func() string {
				if o := bType(ts[0]); !ty.Equals(o) {
					return fmt.Sprintf("is %s and not the type given", ty)
				}
				return ""
			})
		}
		if len(ts) > 1 {
			t.Check("operands."+string(k), tm.String, func() string {
				ops := ty.(dgo.TernaryType).Operands()
				if ops.Len() != len(ts) {
					return fmt.Sprintf("there are %d operands", ops.Len())
				}
				for i, o := range ts {
					if !bType(o).Equals(ops.Get(i)) {
						return fmt.Sprintf("operand %d is %s", i, ops.Get(i))
					}
				}
				return ""
			})
		}
		for _, v := range vals {
			probe(t, "member."+string(k), tm, ty, v)
			// a combinator of the operands says what they say themselves
			t.Check("law."+string(k), func() string { return fmt.Sprintf("type %s, value %s", tm, v) }, func() string {
				n := 0
				x := build(v, true)
				for _, o := range ts {
					if bType(o).Instance(x) {
						n++
					}
				}
				want := k == '&' && n == len(ts) || k == '|' && n > 0 || k == '^' && n == 1
				if got := ty.Instance(x); got != want {
					return fmt.Sprintf("Instance gives %v, %d of the operands accept the value", got, n)
				}
				return ""
			})
		}
		if len(ts) > 1 && tm.parseable() {
			t.Check("parse."+string(k), tm.source, func() string {
				if p := tf.ParseType(tm.source()); !p.Equals(ty) {
					return "parsing gives " + p.String()
				}
				return ""
			})
		}
	}
	t.Group("combinations")
	for _, k := range []byte("&|^") {
		for i, a := range base {
			combine(k, a)
			for j, b := range base {
				combine(k, a, b)
				for l, c := range base {
					if t.thorough || (i+j+l)%3 == 0 {
						combine(k, a, b, c)
					}
				}
			}
		}
	}
	t.Group("not")
	for _, a := range base {
		for _, tm := range []*TM{tOp('!', a), tOp('!', tOp('!', a)), tOp('!', tOp('!', tOp('!', a)))} {
			ty := bType(tm)
			for _, v := range vals {
				probe(t, "member.!", tm, ty, v)
			}
			t.Check("parse.!", tm.source, func() string {
				for _, v := range vals {
					x := build(v, true)
					if tf.ParseType(tm.source()).Instance(x) != ty.Instance(x) {
						return fmt.Sprintf("the parsed type differs for %s", v)
					}
				}
				return ""
			})
		}
	}
	t.Group("values")
	// operands given as go values stand for their exact types
	for i, n := 0, t.N(300); i < n; i++ {
		vs := []*M{g.scalar(), g.scalar(), g.scalar()}
		x := g.scalar()
		if g.r.Intn(2) == 0 {
			x = vs[g.r.Intn(3)]
		}
		for _, k := range []byte("&|^") {
			t.Check("exact."+string(k), func() string { return fmt.Sprintf("%c of %v, value %s", k, vs, x) }, func() string {
				n := 0
				a := make([]interface{}, 3)
				for i, v := range vs {
					a[i] = build(v, true).Type()
					if eqM(v, x) {
						n++
					}
				}
				want := k == '&' && n == 3 || k == '|' && n > 0 || k == '^' && n == 1
				if got := op[k](a...).Instance(build(x, true)); got != want {
					return fmt.Sprintf("Instance gives %v", got)
				}
				return ""
			})
		}
	}
	t.Check("enum", nil, func() string {
		e, c := tf.Enum("a", "b", "C"), tf.CiEnum("a", "b", "C")
		for _, s := range []string{"a", "b", "c", "C", "A", "d", ""} {
			if e.Instance(s) != (s == "a" || s == "b" || s == "C") {
				return "Enum and " + s
			}
			if c.Instance(s) != strings.Contains("a b c", strings.ToLower(s)) && s != "" {
				return "CiEnum and " + s
			}
		}
		ie := tf.IntEnum(1, 2, 5)
		for i := 0; i < 7; i++ {
			if ie.Instance(i) != (i == 1 || i == 2 || i == 5) {
				return fmt.Sprintf("IntEnum and %d", i)
			}
		}
		return ""
	})
	t.Group("random")
	for i, n := 0, t.N(6000); i < n && !t.Expired(); i++ {
		k := "&|^!"[i%4]
		m := g.value(2)
		var tm *TM
		switch {
		case k == '!':
			tm = tOp('!', g.of(m, 2))
		case g.r.Intn(2) == 0:
			tm = tOp(k, g.of(m, 2), g.of(m, 1), g.typ(1))
		default:
			tm = tOp(k, g.types(1+g.r.Intn(5), 2)...)
		}
		var ty dgo.Type
		t.Check("random.new", tm.String, func() string { ty = bType(tm); return "" })
		if ty == nil {
			continue
		}
		probe(t, "random."+string(k), tm, ty, m)
		if len(tm.T) > 1 {
			t.Check("random.operands", tm.String, func() string {
				ops := ty.(dgo.TernaryType).Operands()
				if ops.Len() != len(tm.T) {
					return fmt.Sprintf("there are %d operands", ops.Len())
				}
				for i, o := range tm.T {
					if !bType(o).Equals(ops.Get(i)) {
						return fmt.Sprintf("operand %d is %s", i, ops.Get(i))
					}
				}
				return ""
			})
		}
		for _, v := range g.values(tm, 3) {
			probe(t, "random."+string(k), tm, ty, v)
		}
	}
}

func c05(t *T) {
	g := &GT{&G{r: t.rng, kinds: allKinds, max: 4}, allTypes}
	vals := []*M{mi(1), ms("a"), mn(), mb(false)}
	tys := []*TM{tInt, tStr, tAny, tOp('|', tInt, tNil)}
	// all short arrays against all short tuples
	t.Group("tuple")
	var arrays []*M
	var rec func(a []*M)
	rec = func(a []*M) {
		arrays = append(arrays, ma(append([]*M(nil), a...)...))
		if len(a) < 3 {
			for _, v := range vals {
				rec(append(a[:len(a):len(a)], v))
			}
		}
	}
	rec(nil)
	var recT func(ts []*TM)
	recT = func(ts []*TM) {
		for _, k := range []byte("tv") {
			if k == 'v' && len(ts) == 0 {
				continue
			}
			tm := tOp(k, append([]*TM(nil), ts...)...)
			ty := bType(tm)
			for i, a := range arrays {
				if len(ts) < 3 || t.thorough || i%5 == 0 {
					probe(t, "tuple."+string(k), tm, ty, a)
				}
			}
			for _, v := range vals {
				probe(t, "tuple."+string(k), tm, ty, v)
			}
			if tm.parseable() {
				t.Check("parse.tuple", tm.source, func() string {
					if p := tf.ParseType(tm.source()); !p.Equals(ty) {
						return "parsing gives " + p.String()
					}
					return ""
				})
			}
		}
		if len(ts) < 3 {
			for _, o := range tys {
				recT(append(ts[:len(ts):len(ts)], o))
			}
		}
	}
	recT(nil)
	// all small structs against all small maps
	t.Group("struct")
	keys := []*M{ms("a"), ms("b"), mi(1)}
	var maps []*M
	var recM func(i int, m *M)
	recM = func(i int, m *M) {
		if i == len(keys) {
			maps = append(maps, m)
			return
		}
		recM(i+1, m)
		for _, v := range vals[:3] {
			c := m.clone()
			c.KS = append(c.KS, keys[i])
			c.A = append(c.A, v)
			recM(i+1, c)
		}
	}
	recM(0, mm())
	for _, m := range maps[:16] {
		c := m.clone()
		c.KS = append(c.KS, ms("zz"))
		c.A = append(c.A, mi(1))
		maps = append(maps, c)
	}
	var recZ func(i int, z *TM)
	recZ = func(i int, z *TM) {
		if i == len(keys) {
			ty := bType(z)
			for _, m := range maps {
				probe(t, "struct", z, ty, g.shuffle(m))
			}
			probe(t, "struct", z, ty, ma())
			probe(t, "struct", z, ty, mn())
			return
		}
		recZ(i+1, z)
		for _, o := range tys {
			for _, opt := range []bool{false, true} {
				c := *z
				c.Keys = append(append([]*M(nil), z.Keys...), keys[i])
				c.T = append(append([]*TM(nil), z.T...), o)
				c.Opt = append(append([]bool(nil), z.Opt...), opt)
				recZ(i+1, &c)
			}
		}
	}
	for _, addl := range []bool{false, true} {
		recZ(0, &TM{K: 'z', Addl: addl})
	}
	// arrays and maps
	t.Group("collections")
	for _, lo := range []int64{0, 1, 2} {
		for _, hi := range []int64{2, 3, inf} {
			for _, e := range tys {
				tm := tWin('a', lo, hi, e)
				ty := bType(tm)
				for _, a := range arrays {
					probe(t, "array", tm, ty, a)
				}
				for _, e2 := range tys {
					tm := tWin('m', lo, hi, e, e2)
					ty := bType(tm)
					for _, m := range maps {
						probe(t, "map", tm, ty, m)
					}
				}
			}
		}
	}
	t.Group("random")
	for i, n := 0, t.N(8000); i < n && !t.Expired(); i++ {
		var tm *TM
		var vs []*M
		if g.r.Intn(2) == 0 {
			m := g.array(2)
			if g.r.Intn(2) == 0 {
				m = g.mapM(2)
			}
			tm = g.of(m, 3)
			vs = append(vs, m, g.mutate(m), g.shuffle(g.mutate(m)))
		} else {
			g2 := *g
			g2.tk = "atvmz"
			tm = g2.typT(3, g)
		}
		vs = append(vs, g.values(tm, 3)...)
		var ty dgo.Type
		t.Check("random.new", tm.String, func() string { ty = bType(tm); return "" })
		if ty == nil {
			continue
		}
		for _, v := range vs {
			probe(t, "random."+string(tm.K), tm, ty, v)
		}
		if i%4 == 0 && tm.parseable() {
			var p dgo.Type
			t.Check("random.parse", tm.source, func() string { p = tf.ParseType(tm.source()); return "" })
			if p != nil {
				for _, v := range vs {
					probe(t, "random.parsed", tm, p, v)
				}
			}
		}
	}
}

// typT makes a collection type whose parts are made by inner.
func (g *GT) typT(d int, inner *GT) *TM {
	switch g.pick(g.tk) {
	case 'a':
		return g.win('a', inner.typ(d-1))
	case 't':
		return tOp('t', inner.types(g.r.Intn(5), d-1)...)
	case 'v':
		return tOp('v', inner.types(1+g.r.Intn(4), d-1)...)
	case 'm':
		return g.win('m', inner.typ(d-1), inner.typ(d-1))
	}
	z := *inner
	z.tk = "zzzzzz" + inner.tk
	for {
		if t := z.typ(d); t.K == 'z' {
			return t
		}
	}
}
