package main

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C20"] = c20 }

type c20struct struct {
	A int
	B string
	C float64
	D bool
}

func c20(t *T) {
	g := &G{r: t.rng, kinds: "ijjssbfn", max: 6}
	run := func(m *M, mask uint64, frozen bool, how int) {
		truth := func(i int) bool { return mask>>uint(i%64)&1 == 1 }
		var a dgo.Array
		if how == 1 {
			vs := make([]interface{}, len(m.A))
			for i := range vs {
				vs[i] = build(m.A[i], frozen)
			}
			a = vf.Arguments(vs...)
		} else {
			a = bArr(m, frozen)
		}
		in := func() string { return fmt.Sprintf("array %s, predicate true at %b (frozen=%v)", m, mask, frozen) }
		var calls []string
		n := 0
		pred := func(v dgo.Value) bool {
			calls = append(calls, toM(v).String())
			n++
			return truth(n - 1)
		}
		reset := func() { calls, n = nil, 0 }
		// the calls expected: the first k elements in order
		order := func(k int) string {
			if len(calls) != k {
				return fmt.Sprintf("the callback was applied %d times, not %d", len(calls), k)
			}
			for i := range calls {
				if calls[i] != m.A[i].String() {
					return fmt.Sprintf("call %d got %s, the element is %s", i, calls[i], m.A[i])
				}
			}
			return ""
		}
		count, firstT, firstF, secondT := 0, len(m.A), len(m.A), len(m.A)
		var sel, rej []*M
		for i := range m.A {
			if truth(i) {
				if count == 0 {
					firstT = i
				}
				if count == 1 {
					secondT = i
				}
				count++
				sel = append(sel, m.A[i])
			} else {
				if firstF == len(m.A) {
					firstF = i
				}
				rej = append(rej, m.A[i])
			}
		}
		upto := func(i int) int {
			if i == len(m.A) {
				return i
			}
			return i + 1
		}
		bcheck := func(name string, f func(dgo.Predicate) bool, want bool, k int) {
			t.Check("array."+name, in, func() string {
				reset()
				if got := f(pred); got != want {
					return fmt.Sprintf("%s gives %v", name, got)
				}
				return order(k)
			})
		}
		bcheck("All", a.All, firstF == len(m.A), upto(firstF))
		bcheck("Any", a.Any, firstT < len(m.A), upto(firstT))
		bcheck("One", a.One, count == 1, upto(secondT))
		acheck := func(name string, f func(dgo.Predicate) dgo.Array, want []*M) {
			t.Check("array."+name, in, func() string {
				reset()
				got := toM(f(pred))
				if !sameM(got, ma(want...)) {
					return fmt.Sprintf("%s gives %s, expected %s", name, got, ma(want...))
				}
				if !sameM(toM(a), m) {
					return name + " changed the receiver"
				}
				return order(len(m.A))
			})
		}
		acheck("Select", a.Select, sel)
		acheck("Reject", a.Reject, rej)
		t.Check("array.Find", in, func() string {
			reset()
			res := []interface{}{n, false, 0, "", vf.Nil, true, "x"}
			res = res[mask%7:]
			got := a.Find(func(v dgo.Value) interface{} {
				if pred(v) {
					return res[n%len(res)]
				}
				return nil
			})
			var want interface{}
			if firstT < len(m.A) {
				want = res[(firstT+1)%len(res)]
			}
			if got != want {
				return fmt.Sprintf("Find gives %v, expected %v", got, want)
			}
			return order(upto(firstT))
		})
		t.Check("array.Each", in, func() string {
			reset()
			a.Each(func(v dgo.Value) { pred(v) })
			return order(len(m.A))
		})
		t.Check("array.EachWithIndex", in, func() string {
			reset()
			bad := ""
			a.EachWithIndex(func(v dgo.Value, i int) {
				if i != n {
					bad = fmt.Sprintf("index %d for element %d", i, n)
				}
				pred(v)
			})
			return first(bad, order(len(m.A)))
		})
		t.Check("array.Map", in, func() string {
			reset()
			got := a.Map(func(v dgo.Value) interface{} { pred(v); return n })
			for i := 0; i < len(m.A); i++ {
				if got.Get(i).(dgo.Integer).GoInt() != int64(i+1) {
					return fmt.Sprintf("Map gives %s", got)
				}
			}
			if got.Len() != len(m.A) {
				return "wrong length"
			}
			return order(len(m.A))
		})
		t.Check("array.Reduce", in, func() string {
			reset()
			got := a.Reduce(vf.Integer(100), func(memo, v dgo.Value) interface{} {
				if memo.(dgo.Integer).GoInt() != int64(100+n) {
					panic("wrong memo")
				}
				pred(v)
				return 100 + n
			})
			if !got.Equals(100 + len(m.A)) {
				return fmt.Sprintf("Reduce gives %s", got)
			}
			return order(len(m.A))
		})
	}
	runMap := func(m *M, mask uint64, mp dgo.Map, desc string) {
		truth := func(i int) bool { return mask>>uint(i%64)&1 == 1 }
		in := func() string { return fmt.Sprintf("%s %s, predicate true at %b", desc, m, mask) }
		var calls []string
		n := 0
		ent := func(i int) string { return "e" + m.KS[i].String() + "=>" + m.A[i].String() }
		names := [3]func(i int) string{ent, func(i int) string { return m.KS[i].String() }, func(i int) string { return m.A[i].String() }}
		order := func(part, k int) string {
			if len(calls) != k {
				return fmt.Sprintf("the callback was applied %d times, not %d", len(calls), k)
			}
			for i := range calls {
				if calls[i] != names[part](i) {
					return fmt.Sprintf("call %d got %s, expected %s", i, calls[i], names[part](i))
				}
			}
			return ""
		}
		firstT, firstF := len(m.A), len(m.A)
		for i := range m.A {
			if truth(i) && firstT == len(m.A) {
				firstT = i
			}
			if !truth(i) && firstF == len(m.A) {
				firstF = i
			}
		}
		upto := func(i int) int {
			if i == len(m.A) {
				return i
			}
			return i + 1
		}
		pv := func(v dgo.Value) bool { calls = append(calls, toM(v).String()); n++; return truth(n - 1) }
		pe := func(e dgo.MapEntry) bool {
			calls = append(calls, "e"+toM(e.Key()).String()+"=>"+toM(e.Value()).String())
			n++
			return truth(n - 1)
		}
		check := func(name string, part int, k int, f func() string) {
			t.Check("map."+name, in, func() string {
				calls, n = nil, 0
				return first(f(), order(part, k))
			})
		}
		is := func(got, want bool) string {
			if got != want {
				return fmt.Sprintf("gives %v", got)
			}
			return ""
		}
		allT, anyT := firstF == len(m.A), firstT < len(m.A)
		check("All", 0, upto(firstF), func() string { return is(mp.All(pe), allT) })
		check("AllKeys", 1, upto(firstF), func() string { return is(mp.AllKeys(pv), allT) })
		check("AllValues", 2, upto(firstF), func() string { return is(mp.AllValues(pv), allT) })
		check("Any", 0, upto(firstT), func() string { return is(mp.Any(pe), anyT) })
		check("AnyKey", 1, upto(firstT), func() string { return is(mp.AnyKey(pv), anyT) })
		check("AnyValue", 2, upto(firstT), func() string { return is(mp.AnyValue(pv), anyT) })
		check("Find", 0, upto(firstT), func() string {
			e := mp.Find(pe)
			if anyT {
				if e == nil {
					return "Find gives nil"
				}
				if g := "e" + toM(e.Key()).String() + "=>" + toM(e.Value()).String(); g != ent(firstT) {
					return "Find gives " + g
				}
				return ""
			}
			if e != nil {
				return "Find gives an entry"
			}
			return ""
		})
		check("Each", 0, len(m.A), func() string { mp.Each(func(v dgo.Value) { pe(v.(dgo.MapEntry)) }); return "" })
		check("EachEntry", 0, len(m.A), func() string { mp.EachEntry(func(v dgo.MapEntry) { pe(v) }); return "" })
		check("EachKey", 1, len(m.A), func() string { mp.EachKey(func(v dgo.Value) { pv(v) }); return "" })
		check("EachValue", 2, len(m.A), func() string { mp.EachValue(func(v dgo.Value) { pv(v) }); return "" })
		check("Map", 0, len(m.A), func() string {
			got := mp.Map(func(e dgo.MapEntry) interface{} { pe(e); return n })
			want := m.clone()
			for i := range want.A {
				want.A[i] = mi(int64(i + 1))
			}
			if !sameM(toM(got), want) {
				return fmt.Sprintf("Map gives %s", toM(got))
			}
			return ""
		})
	}
	t.Group("exhaustive")
	for n := 0; n <= 6; n++ {
		m := &M{K: 'a'}
		mp := &M{K: 'm'}
		for i := 0; i < n; i++ {
			m.A = append(m.A, mi(int64(i)))
			mp.KS = append(mp.KS, ms(strings.Repeat("k", i+1)))
			mp.A = append(mp.A, mi(int64(i)))
		}
		for mask := uint64(0); mask < 1<<uint(n); mask++ {
			run(m, mask, mask%2 == 0, int(mask/2%2))
			runMap(mp, mask, bMap(mp, mask%2 == 0), "map")
		}
	}
	for mask := uint64(0); mask < 16; mask++ {
		sm := mm(ms("A"), mi(3), ms("B"), ms("x"), ms("C"), mf(1.5), ms("D"), mb(true))
		sv := vf.MutableMap(&c20struct{3, "x", 1.5, true})
		runMap(sm, mask, sv, "struct")
		fz := vf.MutableMap(&c20struct{3, "x", 1.5, true}).FrozenCopy().(dgo.Map)
		runMap(sm, mask, fz, "frozen struct")
	}
	// fields that hold nil, other interface values and pointers; no fields; an embedded struct
	three := []interface{}{nil, 7, "s", 0, "", false}
	mmods := []*M{mn(), mi(7), ms("s"), mi(0), ms(""), mb(false)}
	for i := range three {
		for j := range three {
			sm := mm(ms("A"), mmods[i], ms("B"), mmods[j], ms("C"), mn())
			for mask := uint64(0); mask < 8; mask++ {
				runMap(sm, mask, vf.Map(&struct{ A, B, C interface{} }{three[i], three[j], nil}), "struct of interfaces")
			}
		}
	}
	for mask := uint64(0); mask < 4; mask++ {
		runMap(mm(), mask, vf.Map(&struct{}{}), "empty struct")
		runMap(mm(ms("A"), mn(), ms("B"), mi(1)), mask, vf.Map(&struct {
			A *int
			B int
		}{nil, 1}), "struct with a nil pointer")
		x := 5
		runMap(mm(ms("A"), mi(5), ms("B"), mn()), mask, vf.Map(&struct {
			A *int
			B []string
		}{&x, nil}), "struct with a pointer")
	}
	t.Group("random")
	for i := 0; i < t.N(3000) && !t.Expired(); i++ {
		m := g.array(2)
		run(m, t.rng.Uint64(), i%2 == 0, i/2%2)
		run(m, t.rng.Uint64()&t.rng.Uint64()&t.rng.Uint64(), i%2 == 0, i/2%2)
		mp := g.mapM(2)
		// with a history: keys removed and overwritten
		v := bMap(mp, false)
		if i%2 == 1 {
			for j, k := range mp.KS {
				if t.rng.Intn(3) == 0 {
					v.Remove(build(k, true))
				} else {
					v.Put(build(k, true), build(mp.A[j], false))
				}
			}
			mp = toM(v)
		}
		if i%3 == 0 {
			v.Freeze()
		}
		runMap(mp, t.rng.Uint64(), v, "map")
		runMap(mp, t.rng.Uint64()&t.rng.Uint64()&t.rng.Uint64(), v, "map")
	}
}
