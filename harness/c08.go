package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C08"] = c08 }

// mw is a world of maps, some of them made from others, and what they must contain.
type mw struct {
	a    []dgo.Map
	m    []*M
	f    []bool
	hist []string
	raw  bool
	ks   []*M // the keys in use
}

func (w *mw) add(a dgo.Map, m *M, f bool) {
	if len(w.a) >= 6 {
		copy(w.a[2:], w.a[3:])
		copy(w.m[2:], w.m[3:])
		copy(w.f[2:], w.f[3:])
		w.a, w.m, w.f = w.a[:5], w.m[:5], w.f[:5]
	}
	w.a = append(w.a, a)
	w.m = append(w.m, m.shallow())
	w.f = append(w.f, f)
}

func (m *M) shallow() *M {
	return &M{K: m.K, KS: append([]*M(nil), m.KS...), A: append([]*M(nil), m.A...)}
}

func (m *M) put(k, v *M) *M {
	c := m.shallow()
	if i := c.find(k); i >= 0 {
		c.A[i] = v
	} else {
		c.KS, c.A = append(c.KS, k), append(c.A, v)
	}
	return c
}

func (m *M) del(k *M) *M {
	c := m.shallow()
	if i := c.find(k); i >= 0 {
		c.KS = append(c.KS[:i:i], c.KS[i+1:]...)
		c.A = append(c.A[:i:i], c.A[i+1:]...)
	}
	return c
}

func (w *mw) arg(m *M) interface{} {
	if w.raw {
		switch m.K {
		case 'i':
			return int(m.I)
		case 's':
			return m.S
		case 'n':
			return nil
		case 'f':
			return m.F
		}
	}
	return build(m, false)
}

// views checks that everything that can be asked about a map agrees with the model
func views(a dgo.Map, m *M, frozen bool, keys []*M) string {
	ek := (&M{K: 'a', A: m.KS}).String()
	ev := (&M{K: 'a', A: m.A}).String()
	if got := toM(a); got.String() != m.String() {
		return fmt.Sprintf("entries are %s, must be %s", got, m)
	}
	if a.Len() != len(m.A) {
		return fmt.Sprintf("Len is %d, must be %d", a.Len(), len(m.A))
	}
	if g := lstM(readA(a.Keys())); g != ek {
		return fmt.Sprintf("Keys is %s, must be %s", g, ek)
	}
	if !a.Keys().Frozen() {
		return "Keys is not frozen"
	}
	if g := lstM(readA(a.Values())); g != ev {
		return fmt.Sprintf("Values is %s, must be %s", g, ev)
	}
	var ks, vs []*M
	a.EachKey(func(v dgo.Value) { ks = append(ks, toM(v)) })
	a.EachValue(func(v dgo.Value) { vs = append(vs, toM(v)) })
	if lstM(ks) != ek || lstM(vs) != ev {
		return fmt.Sprintf("EachKey gives %s, EachValue gives %s, must be %s", lstM(ks), lstM(vs), m)
	}
	n := 0
	bad := ""
	a.Each(func(v dgo.Value) {
		e, ok := v.(dgo.MapEntry)
		if !ok || n >= len(m.A) || !sameM(toM(e.Key()), m.KS[n]) || !sameM(toM(e.Value()), m.A[n]) {
			bad = fmt.Sprintf("Each: entry %d is %s", n, toM(v))
		}
		n++
	})
	if bad != "" || n != len(m.A) {
		return fmt.Sprintf("%s (%d entries)", bad, n)
	}
	str := true
	for _, k := range m.KS {
		if k.K != 's' {
			str = false
		}
	}
	if a.StringKeys() != str {
		return fmt.Sprintf("StringKeys is %v", a.StringKeys())
	}
	if frozen != a.Frozen() {
		return fmt.Sprintf("Frozen is %v", a.Frozen())
	}
	look := func(k *M) string {
		want := m.get(k)
		for how := 0; how < 2; how++ {
			var key interface{} = build(k, how == 0)
			if how == 1 {
				key = (&mw{raw: true}).arg(k)
			}
			g := a.Get(key)
			if (g == nil) != (want == nil) || g != nil && !sameM(toM(g), want) {
				return fmt.Sprintf("Get(%s) is %s, must be %v", k, toM(g), want)
			}
			if a.ContainsKey(key) != (want != nil) {
				return fmt.Sprintf("ContainsKey(%s) is %v", k, want == nil)
			}
		}
		e := a.Find(func(e dgo.MapEntry) bool { return eqM(toM(e.Key()), k) })
		if (e == nil) != (want == nil) || e != nil && !sameM(toM(e.Value()), want) {
			return fmt.Sprintf("Find by key %s gives %v", k, e)
		}
		return ""
	}
	for _, k := range m.KS {
		if r := look(k); r != "" {
			return r
		}
	}
	for _, k := range keys {
		if r := look(k); r != "" {
			return r
		}
	}
	return ""
}

func (w *mw) verify() string {
	for i, a := range w.a {
		if r := views(a, w.m[i], w.f[i], w.ks); r != "" {
			return fmt.Sprintf("map #%d: %s", i, r)
		}
	}
	return ""
}

const c08ops = 19

func (w *mw) step(op, x, y int, k, k2, v *M) string {
	a, m, fz := w.a[x], w.m[x], w.f[x]
	o, om := w.a[y], w.m[y]
	desc, res := "", ""
	ret := func(name string, got dgo.Value, want *M) {
		if (got == nil) != (want == nil) || got != nil && !sameM(toM(got), want) {
			res = fmt.Sprintf("%s returned %s, must be %v", name, toM(got), want)
		}
	}
	mut := func(d string, noop bool, f func(), want *M) {
		desc = d
		msg, p := Panics(f)
		switch {
		case p && !fz:
			res = "unexpected panic: " + msg
		case !p && fz && !noop:
			res = "no panic on a frozen map"
		case !p && !fz:
			w.m[x] = want
		}
	}
	mk := func(d string, f func() dgo.Map, want *M, frozen bool) {
		desc = d
		r := f()
		for i := range w.a {
			if w.a[i] == r {
				if w.m[i].String() != want.String() {
					res = fmt.Sprintf("gives map #%d, must be %s", i, want)
				}
				return
			}
		}
		if r.Frozen() != frozen {
			res = fmt.Sprintf("result frozen %v, must be %v", r.Frozen(), frozen)
			return
		}
		w.add(r, want, frozen)
	}
	keys := func(ks ...*M) dgo.Array {
		var vs []interface{}
		for _, k := range ks {
			vs = append(vs, w.arg(k))
		}
		return vf.MutableValues(vs...)
	}
	merged := func(a, b *M) *M {
		for i := range b.KS {
			a = a.put(b.KS[i], b.A[i])
		}
		return a
	}
	without := func(a *M, ks []*M) *M {
		for _, k := range ks {
			a = a.del(k)
		}
		return a
	}
	switch op {
	case 0, 1, 2:
		mut(fmt.Sprintf("Put(%s,%s)", k, v), false, func() {
			key := w.arg(k)
			ret("Put", a.Put(key, w.arg(v)), m.get(k))
			// the key that was put must be independent of the argument
			if ka, ok := key.(dgo.Array); ok && !ka.Frozen() {
				ka.Add("changed")
			}
		}, m.put(k, v))
	case 3:
		mut(fmt.Sprintf("PutAll(#%d)", y), o.Len() == 0, func() { a.PutAll(o) }, merged(m, om))
	case 4, 5:
		mut(fmt.Sprintf("Remove(%s)", k), false, func() { ret("Remove", a.Remove(w.arg(k)), m.get(k)) }, m.del(k))
	case 6:
		mut(fmt.Sprintf("RemoveAll(%s,%s)", k, k2), false, func() { a.RemoveAll(keys(k, k2)) }, without(m, []*M{k, k2}))
	case 7:
		mut(fmt.Sprintf("RemoveAll(keys of #%d)", y), false, func() { a.RemoveAll(o.Keys()) }, without(m, om.KS))
	case 8:
		mk(fmt.Sprintf("With(%s,%s)", k, v), func() dgo.Map { return a.With(w.arg(k), w.arg(v)) }, m.put(k, v), fz)
	case 9:
		mk(fmt.Sprintf("Without(%s)", k), func() dgo.Map { return a.Without(w.arg(k)) }, m.del(k), fz)
	case 10:
		mk(fmt.Sprintf("WithoutAll(%s,%s)", k, k2), func() dgo.Map { return a.WithoutAll(keys(k, k2)) }, without(m, []*M{k, k2}), fz)
	case 11:
		mk(fmt.Sprintf("Merge(#%d)", y), func() dgo.Map { return a.Merge(o) }, merged(m, om), fz)
	case 12:
		want := m.shallow()
		for i := range want.A {
			want.A[i] = ma(want.KS[i], want.A[i])
		}
		mk("Map(e -> [key, value])", func() dgo.Map {
			return a.Map(func(e dgo.MapEntry) interface{} { return vf.Values(e.Key(), e.Value()) })
		}, want, fz)
	case 13:
		mk("Copy(false)", func() dgo.Map { return a.Copy(false) }, m, false)
	case 14:
		mk("Copy(true)", func() dgo.Map { return a.Copy(true) }, m, true)
	case 15:
		mk("Map(array of keys and values)", func() dgo.Map {
			l := vf.ArrayWithCapacity(0)
			a.EachEntry(func(e dgo.MapEntry) { l.AddValues(e.Key(), e.Value()) })
			if v.I%2 == 0 {
				l.Freeze()
			}
			return vf.MutableMap(l)
		}, m, false)
	case 16:
		mk("Map(k, v, ...)", func() dgo.Map {
			var l []interface{}
			for i := range m.KS {
				l = append(l, w.arg(m.KS[i]), w.arg(m.A[i]))
			}
			if len(l) == 0 {
				return vf.MapWithCapacity(int(v.I % 3)).FrozenCopy().(dgo.Map)
			}
			return vf.Map(l...)
		}, m, true)
	case 17:
		if v.I%3 == 0 {
			desc = "Freeze()"
			a.Freeze()
			w.f[x] = true
		} else {
			desc = "from the entries"
			var l []*M
			e := vf.Array(a)
			r, ok := e.ToMapFromEntries()
			if !ok || toM(r).String() != m.String() {
				res = "ToMapFromEntries of the entries gives " + fmt.Sprint(r, ok, l)
			}
		}
	case 18:
		mk(fmt.Sprintf("new map + PutAll(#%d)", y), func() dgo.Map {
			r := vf.MapWithCapacity(int(v.I % 40))
			r.PutAll(a)
			r.PutAll(o)
			return r
		}, merged(m, om), false)
	}
	w.hist = append(w.hist, fmt.Sprintf("#%d%s.%s", x, map[bool]string{true: "(frozen)"}[fz], desc))
	if res != "" {
		return desc + ": " + res
	}
	if r := w.verify(); r != "" {
		return "after " + desc + " on #" + fmt.Sprint(x) + ": " + r
	}
	return ""
}

const c08kinds = 7

func c08start(kind int, m *M, keys []*M) *mw {
	w := &mw{ks: keys}
	fill := func(a dgo.Map) dgo.Map {
		for i, e := range m.A {
			a.Put(build(m.KS[i], true), build(e, true))
		}
		return a
	}
	switch kind {
	case 0:
		w.add(fill(vf.MapWithCapacity(0)), m, false)
	case 1:
		w.add(fill(vf.MapWithCapacity(1)), m, false)
	case 2:
		a := fill(vf.MapWithCapacity(0))
		a.Freeze()
		w.add(a, m, true)
	case 3:
		w.add(fill(vf.MapWithCapacity(100)), m, false)
	case 4: // a map and a frozen copy of it
		a := fill(vf.MapWithCapacity(0))
		w.add(a, m, false)
		w.add(a.FrozenCopy().(dgo.Map), m, true)
	case 5: // entries were there before and have been removed
		a := vf.MapWithCapacity(2)
		for i := 0; i < 9; i++ {
			a.Put(i*16+3, "x")
		}
		a.RemoveAll(a.Keys())
		w.add(fill(a), m, false)
	case 6:
		w.add(fill(vf.MapWithCapacity(0)).ThawedCopy().(dgo.Map), m, false)
	}
	return w
}

func c08(t *T) {
	// keys: some in the same bucket for all small tables
	small := []*M{mi(1), mi(17), mi(33), ms("a")}
	wide := []*M{mi(1), mi(17), mi(33), mi(65), mi(16), mi(0), mi(-1), mi(1 << 40), ms("a"), ms("b"), ms(""), ms("Aa"), ms("BB"), mf(1), mf(0.5), mb(true), mb(false), mn(), ma(mi(1)), ma(ma()), mm(ms("a"), mi(1)), mx("a"), mi(2), mi(3), mi(4)}
	vals := []*M{mi(1), mi(2), mn(), ms("a"), mi(3)}
	show := func(kind int, m *M, w **mw) func() string {
		return func() string {
			h := ""
			if *w != nil {
				h = strings.Join((*w).hist, "; ")
			}
			return cut(fmt.Sprintf("start %d %s: %s", kind, m, h), 2000)
		}
	}
	one := func(key string, kind int, m *M, raw bool, keys []*M, f func(w *mw) string) {
		var w *mw
		msg := ""
		run := func() {
			w = c08start(kind, m, keys)
			w.raw = raw
			if msg = w.verify(); msg == "" {
				msg = f(w)
			}
		}
		if pm, p := Panics(run); p {
			msg = "unexpected panic: " + pm
		}
		t.Check(key, show(kind, m, &w), func() string { return msg })
	}
	t.Group("all triples of operations on colliding keys")
	type par struct{ op, k, v int }
	ops := []par{{0, 0, 0}, {0, 1, 2}, {0, 2, 1}, {0, 3, 3}, {3, 0, 0}, {4, 0, 0}, {4, 1, 0}, {4, 2, 0}, {6, 1, 0}, {7, 0, 0}, {8, 0, 1}, {8, 3, 2}, {9, 1, 0}, {9, 2, 0}, {10, 0, 0}, {10, 1, 0}, {11, 0, 0},
		{12, 0, 0}, {13, 0, 0}, {14, 0, 0}, {15, 0, 0}, {16, 0, 0}, {17, 0, 4}, {17, 0, 0}, {18, 0, 1}}
	starts := []*M{mm(), mm(mi(1), mi(1)), mm(mi(17), mi(1), mi(1), mi(2)), mm(mi(33), mi(7), mi(1), mi(5), mi(17), mn()), mm(ms("a"), mi(1), mi(1), mi(1), mi(33), mi(2), mi(17), mi(3))}
	for kind := 0; kind < c08kinds; kind++ {
		for si, m := range starts {
			for pi, p := range ops {
				for qi, q := range ops {
					for ri, r := range ops {
						if (pi*7+qi*5+ri*3+si+kind)%(map[bool]int{true: 5, false: 61}[t.thorough]) != 0 {
							continue
						}
						one(fmt.Sprintf("op%d op%d", p.op, q.op), kind, m, (pi+qi+ri)%2 == 0, small, func(w *mw) string {
							if r := w.step(p.op, 0, len(w.a)-1, small[p.k], small[(p.k+1)%4], vals[p.v]); r != "" {
								return r
							}
							if r := w.step(q.op, len(w.a)-1, 0, small[q.k], small[(q.k+2)%4], vals[q.v]); r != "" {
								return r
							}
							return w.step(r.op, 0, len(w.a)-1, small[r.k], small[(r.k+1)%4], vals[r.v])
						})
					}
				}
			}
			if t.Expired() {
				return
			}
		}
	}
	t.Group("random histories")
	for n := t.N(700); n > 0 && !t.Expired(); n-- {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		keys := wide
		if r.Intn(3) == 0 {
			keys = small
		}
		m := mm()
		for i := r.Intn(8); i > 0; i-- {
			m = m.put(keys[r.Intn(len(keys))], vals[r.Intn(len(vals))])
		}
		one("history", r.Intn(c08kinds), m, r.Intn(2) == 0, keys, func(w *mw) string {
			for s := 0; s < 20; s++ {
				if msg := w.step(r.Intn(c08ops), r.Intn(len(w.a)), r.Intn(len(w.a)), keys[r.Intn(len(keys))], keys[r.Intn(len(keys))], vals[r.Intn(len(vals))]); msg != "" {
					return msg
				}
			}
			return ""
		})
	}
	t.Group("growth")
	for n := t.N(60); n > 0 && !t.Expired(); n-- {
		seed := t.rng.Int63()
		var in string
		t.Check("growth", func() string { return in }, func() string {
			r := rand.New(rand.NewSource(seed))
			w := &mw{raw: r.Intn(2) == 0}
			stride := int64(1) << uint(r.Intn(10))
			in = fmt.Sprintf("seed %d stride %d", seed, stride)
			a := vf.MapWithCapacity(r.Intn(5))
			m := mm()
			idx := map[string]int{}
			key := func() *M {
				if r.Intn(4) == 0 {
					return ms(fmt.Sprintf("k%d", r.Intn(300)))
				}
				return mi(int64(r.Intn(300)) * stride)
			}
			size := 50 + r.Intn(400)
			for i := 0; i < size; i++ {
				k := key()
				v := mi(int64(i))
				if r.Intn(5) == 0 {
					old, had := idx[k.String()]
					got := a.Remove(w.arg(k))
					if (got != nil) != had || had && !sameM(toM(got), m.A[old]) {
						return fmt.Sprintf("step %d: Remove(%s) returned %s", i, k, toM(got))
					}
					if had {
						m = m.del(k)
						idx = map[string]int{}
						for j := range m.KS {
							idx[m.KS[j].String()] = j
						}
					}
				} else {
					old, had := idx[k.String()]
					got := a.Put(w.arg(k), w.arg(v))
					if (got != nil) != had || had && !sameM(toM(got), m.A[old]) {
						return fmt.Sprintf("step %d: Put(%s) returned %s", i, k, toM(got))
					}
					if had {
						m.A[old] = v
					} else {
						idx[k.String()] = len(m.A)
						m.KS, m.A = append(m.KS, k), append(m.A, v)
					}
				}
				if i%37 == 0 || i == size-1 {
					if msg := views(a, m, false, nil); msg != "" {
						return cut(fmt.Sprintf("after step %d: %s", i, msg), 600)
					}
				}
			}
			// bulk operations on large maps
			b := vf.MapWithCapacity(0)
			bm := mm()
			for i := r.Intn(200); i > 0; i-- {
				k := key()
				if bm.find(k) < 0 {
					b.Put(w.arg(k), "b")
					bm.KS, bm.A = append(bm.KS, k), append(bm.A, ms("b"))
				}
			}
			mg := m
			for _, k := range bm.KS {
				mg = mg.put(k, ms("b"))
			}
			if msg := views(a.Merge(b), mg, false, nil); msg != "" {
				return "Merge: " + cut(msg, 600)
			}
			c := a.Copy(false)
			c.RemoveAll(b.Keys())
			rm := m
			for _, k := range bm.KS {
				rm = rm.del(k)
			}
			if msg := views(c, rm, false, bm.KS); msg != "" {
				return "RemoveAll: " + cut(msg, 600)
			}
			if msg := views(a.WithoutAll(b.Keys()), rm, false, bm.KS); msg != "" {
				return "WithoutAll: " + cut(msg, 600)
			}
			c.PutAll(b)
			for i, k := range bm.KS {
				rm = rm.put(k, bm.A[i])
			}
			if msg := views(c, rm, false, nil); msg != "" {
				return "PutAll: " + cut(msg, 600)
			}
			return views(a, m, false, nil)
		})
	}
	t.Group("go maps and structs")
	for n := t.N(300); n > 0 && !t.Expired(); n-- {
		g := map[string]interface{}{}
		m := mm()
		for i := t.rng.Intn(40); i > 0; i-- {
			s := fmt.Sprintf("%c%d", 'a'+t.rng.Intn(26), t.rng.Intn(10))
			v := vals[t.rng.Intn(len(vals))]
			g[s] = (&mw{raw: true}).arg(v)
			m = m.put(ms(s), v)
		}
		// sorted by key
		for i := range m.KS {
			for j := i; j > 0 && m.KS[j].S < m.KS[j-1].S; j-- {
				m.KS[j], m.KS[j-1] = m.KS[j-1], m.KS[j]
				m.A[j], m.A[j-1] = m.A[j-1], m.A[j]
			}
		}
		t.Check("go map", func() string { return fmt.Sprint(g) }, func() string {
			if msg := views(vf.Map(g), m, true, wide); msg != "" {
				return msg
			}
			a := vf.MutableMap(g)
			if msg := views(a, m, false, wide); msg != "" {
				return msg
			}
			a.Put("zz", 1)
			a.Remove("a1")
			return views(a, m.put(ms("zz"), mi(1)).del(ms("a1")), false, wide)
		})
	}
	// the keys of a struct are its own fields, and not those of a struct embedded in it
	for _, sv := range []interface{}{&c08outer{C08inner{3, 4}, 5}, &c08pouter{&C08inner{3, 4}, 5}, &c08pouter{nil, 5}} {
		t.Check("embedded", func() string { return fmt.Sprintf("%#v", sv) }, func() string {
			m := vf.MutableMap(sv)
			have := map[string]bool{}
			m.EachKey(func(k dgo.Value) { have[k.String()] = true })
			for _, k := range []string{"A", "P", "Q", "C08inner", "x"} {
				var v dgo.Value
				if _, p := Panics(func() { v = m.Get(k) }); p {
					return "Get(" + k + ") panics"
				}
				if m.ContainsKey(k) != have[k] || (v != nil) != have[k] {
					return fmt.Sprintf("key %s: ContainsKey %v, Get %v, Keys %s", k, m.ContainsKey(k), v, m.Keys())
				}
				for _, h := range []dgo.Map{vf.Map(k, 3), vf.Map(k, 4), vf.Map("A", 5, k, 4), vf.Map("A", 5, "P", 3, k, 4)} {
					if h.Equals(m) || m.Equals(h) {
						return fmt.Sprintf("%s and %s: Equals %v and %v", h, m, h.Equals(m), m.Equals(h))
					}
				}
				if !have[k] {
					if _, p := Panics(func() { m.Put(k, 9) }); !p {
						return "Put(" + k + ") does not panic"
					}
					if w := m.With(k, 9); w.Len() != m.Len()+1 || !w.Get(k).Equals(9) || !w.Without(k).Equals(m) || !m.Equals(w.Without(k)) {
						return fmt.Sprintf("With(%s,9) gives %s", k, w)
					}
				}
			}
			return ""
		})
	}
	fields := []*M{ms("A"), ms("B"), ms("C"), ms("D")}
	other := []*M{ms("X"), mi(1), ms("a")}
	for n := t.N(3000); n > 0 && !t.Expired(); n-- {
		seed := t.rng.Int63()
		hist := ""
		t.Check("struct", func() string { return fmt.Sprintf("seed %d", seed) }, func() string {
			r := rand.New(rand.NewSource(seed))
			s := &c20struct{r.Intn(3), []string{"", "a"}[r.Intn(2)], float64(r.Intn(2)), r.Intn(2) == 0}
			a := vf.MutableMap(s)
			m := mm(fields[0], mi(int64(s.A)), fields[1], ms(s.B), fields[2], mf(s.C), fields[3], mb(s.D))
			fz := false
			keys := append(append([]*M{}, fields...), other...)
			val := func(k *M) *M {
				switch k.S {
				case "A":
					return mi(int64(r.Intn(9)))
				case "B":
					return ms([]string{"", "x", "y"}[r.Intn(3)])
				case "C":
					return mf(float64(r.Intn(9)) / 2)
				case "D":
					return mb(r.Intn(2) == 0)
				}
				return mi(5)
			}
			for i := 0; i < 8; i++ {
				k, k2 := keys[r.Intn(len(keys))], keys[r.Intn(len(keys))]
				v := val(k)
				has := m.find(k) >= 0
				ka := vf.Values(build(k, true), build(k2, true))
				var res dgo.Map
				want := m
				switch r.Intn(10) {
				case 0, 1:
					hist += fmt.Sprintf("Put(%s,%s) ", k, v)
					var old dgo.Value
					_, p := Panics(func() { old = a.Put(build(k, true), build(v, true)) })
					if p != (fz || !has) {
						return hist + fmt.Sprint("panic ", p)
					}
					if !p {
						if !sameM(toM(old), m.get(k)) {
							return hist + "returned " + toM(old).String()
						}
						m = m.put(k, v)
					}
				case 2:
					hist += fmt.Sprintf("With(%s,%s) ", k, v)
					res, want = a.With(build(k, true), build(v, true)), m.put(k, v)
				case 3:
					hist += fmt.Sprintf("Without(%s) ", k)
					res, want = a.Without(build(k, true)), m.del(k)
				case 4:
					hist += fmt.Sprintf("WithoutAll(%s,%s) ", k, k2)
					res, want = a.WithoutAll(ka), m.del(k).del(k2)
				case 5:
					hist += fmt.Sprintf("Merge(%s:%s) ", k, v)
					res, want = a.Merge(vf.Map(build(k, true), build(v, true))), m.put(k, v)
				case 6:
					hist += "Remove "
					if _, p := Panics(func() { a.Remove(build(k, true)) }); !p {
						return hist + "no panic"
					}
				case 7:
					c := []bool{true, false}[r.Intn(2)]
					hist += fmt.Sprintf("Copy(%v) ", c)
					res = a.Copy(c)
					if msg := views(res, m, c, keys); msg != "" {
						return hist + msg
					}
					if !c {
						res.Put("A", 77)
					}
					res = nil
				case 8:
					if r.Intn(4) == 0 {
						hist += "Freeze "
						a.Freeze()
						fz = true
					}
				case 9:
					hist += "Map "
					w := m.shallow()
					for i := range w.A {
						w.A[i] = ma(w.A[i])
					}
					res, want = a.Map(func(e dgo.MapEntry) interface{} { return vf.Values(e.Value()) }), w
				}
				if res != nil {
					if msg := views(res, want, fz, keys); msg != "" {
						return hist + msg
					}
				}
				if msg := views(a, m, fz, keys); msg != "" {
					return hist + msg
				}
			}
			return ""
		})
	}
}

type C08inner struct{ P, Q int }

type c08outer struct {
	C08inner
	A int
}

type c08pouter struct {
	*C08inner
	A int
}
