package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C09"] = c09 }

// aw is a world of arrays, some of them made from others, and what they must contain.
type aw struct {
	a    []dgo.Array
	m    [][]*M
	f    []bool
	hist []string
	raw  bool // give the operations go values where possible
}

func (w *aw) add(a dgo.Array, m []*M, f bool) {
	if len(w.a) >= 7 {
		// forget one of the older ones, but not the first two
		copy(w.a[2:], w.a[3:])
		copy(w.m[2:], w.m[3:])
		copy(w.f[2:], w.f[3:])
		w.a, w.m, w.f = w.a[:6], w.m[:6], w.f[:6]
	}
	w.a = append(w.a, a)
	w.m = append(w.m, append([]*M(nil), m...))
	w.f = append(w.f, f)
}

func (w *aw) arg(m *M) interface{} {
	if w.raw {
		switch m.K {
		case 'i':
			return int(m.I)
		case 's':
			return m.S
		case 'n':
			return nil
		}
	}
	return build(m, true)
}

func lstM(s []*M) string { return (&M{K: 'a', A: s}).String() }

func readA(a dgo.Array) []*M {
	var r []*M
	for i, n := 0, a.Len(); i < n; i++ {
		r = append(r, toM(a.Get(i)))
	}
	return r
}

// verify compares all arrays with what they must contain
func (w *aw) verify() string {
	for i, a := range w.a {
		if got, want := lstM(readA(a)), lstM(w.m[i]); got != want {
			return fmt.Sprintf("array #%d is %s, must be %s", i, got, want)
		}
		if a.Len() != len(w.m[i]) {
			return fmt.Sprintf("array #%d has length %d, must be %d", i, a.Len(), len(w.m[i]))
		}
		if a.Frozen() != w.f[i] {
			return fmt.Sprintf("array #%d frozen %v, must be %v", i, a.Frozen(), w.f[i])
		}
	}
	return ""
}

func cat(ss ...[]*M) []*M {
	r := []*M{}
	for _, s := range ss {
		r = append(r, s...)
	}
	return r
}

func idxM(s []*M, e *M) int {
	for i := range s {
		if eqM(s[i], e) {
			return i
		}
	}
	return -1
}

func msContains(s, o []*M) bool {
	used := make([]bool, len(s))
next:
	for _, e := range o {
		for i := range s {
			if !used[i] && eqM(s[i], e) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

func flatM(s []*M) []*M {
	r := []*M{}
	for _, e := range s {
		if e.K == 'a' {
			r = append(r, flatM(e.A)...)
		} else {
			r = append(r, e)
		}
	}
	return r
}

const c09ops = 39

// step applies an operation to array #x; i and j are positions, e and e2 elements, y another array
func (w *aw) step(op, x, y, i, j int, e, e2 *M) string {
	a, m, fz := w.a[x], w.m[x], w.f[x]
	o, om := w.a[y], w.m[y]
	n := len(m)
	desc := ""
	res := ""
	eq := func(name string, got []*M, want []*M) {
		if g, s := lstM(got), lstM(want); g != s {
			res = fmt.Sprintf("%s is %s, must be %s", name, g, s)
		}
	}
	is := func(name string, got, want interface{}) {
		if g, s := fmt.Sprint(got), fmt.Sprint(want); g != s {
			res = fmt.Sprintf("%s is %s, must be %s", name, g, s)
		}
	}
	// mutation: must panic when the array is frozen or pan is true, and do nothing then
	mut := func(d string, pan bool, f func(), want []*M) {
		desc = d
		msg, p := Panics(f)
		switch {
		case p != (fz || pan):
			res = fmt.Sprintf("panic %v (%s), must be %v", p, msg, fz || pan)
		case !p:
			w.m[x] = want
		}
	}
	// a new array
	mk := func(d string, f func() dgo.Array, want []*M, frozen bool) {
		desc = d
		r := f()
		eq("the result", readA(r), want)
		if res == "" && r.Frozen() != frozen {
			res = fmt.Sprintf("result frozen %v, must be %v", r.Frozen(), frozen)
		}
		if res == "" {
			for k := range w.a {
				if w.a[k] == r {
					return
				}
			}
			w.add(r, want, frozen)
		}
	}
	switch op {
	case 0:
		mut(fmt.Sprintf("Add(%s)", e), false, func() { a.Add(w.arg(e)) }, cat(m, []*M{e}))
	case 1:
		mut(fmt.Sprintf("AddAll(#%d)", y), false, func() { a.AddAll(o) }, cat(m, om))
	case 2:
		mut(fmt.Sprintf("AddValues(%s,%s)", e, e2), false, func() { a.AddValues(w.arg(e), w.arg(e2)) }, cat(m, []*M{e, e2}))
	case 3:
		bad := i < 0 || i > n
		var want []*M
		if !bad {
			want = cat(m[:i], []*M{e}, m[i:])
		}
		mut(fmt.Sprintf("Insert(%d,%s)", i, e), bad, func() { a.Insert(i, w.arg(e)) }, want)
	case 4:
		bad := i < 0 || i >= n
		var want []*M
		if !bad {
			want = cat(m[:i], []*M{e}, m[i+1:])
		}
		mut(fmt.Sprintf("Set(%d,%s)", i, e), bad, func() {
			old := toM(a.Set(i, w.arg(e)))
			if !bad && !fz && !sameM(old, m[i]) {
				res = fmt.Sprintf("Set returned %s, must be %s", old, m[i])
			}
		}, want)
	case 5, 6:
		if op == 6 {
			i = n - 1 - i
		}
		want := m
		if i >= 0 && i < n {
			want = cat(m[:i], m[i+1:])
		}
		mut(fmt.Sprintf("Remove(%d)", i), false, func() {
			old := a.Remove(i)
			if !fz && i >= 0 && i < n {
				if !sameM(toM(old), m[i]) {
					res = fmt.Sprintf("Remove returned %s, must be %s", toM(old), m[i])
				}
			} else if old != nil {
				res = fmt.Sprintf("Remove returned %s, must be nil", toM(old))
			}
		}, want)
	case 7:
		p := idxM(m, e)
		want := m
		if p >= 0 {
			want = cat(m[:p], m[p+1:])
		}
		mut(fmt.Sprintf("RemoveValue(%s)", e), false, func() { is("RemoveValue", a.RemoveValue(w.arg(e)), p >= 0) }, want)
	case 8:
		want := m
		if n > 0 {
			want = m[:n-1]
		}
		mut("Pop()", false, func() {
			v, ok := a.Pop()
			if ok != (n > 0) {
				res = fmt.Sprintf("Pop returned %v, must be %v", ok, n > 0)
			} else if ok && !sameM(toM(v), m[n-1]) || !ok && v != nil {
				res = fmt.Sprintf("Pop returned %s", toM(v))
			}
		}, append([]*M{}, want...))
	case 9:
		desc = fmt.Sprintf("Get(%d)", i)
		var g dgo.Value
		_, p := Panics(func() { g = a.Get(i) })
		if p != (i < 0 || i >= n) {
			res = fmt.Sprintf("panic %v", p)
		} else if !p && !sameM(toM(g), m[i]) {
			res = fmt.Sprintf("Get returned %s", toM(g))
		}
	case 10, 11, 12:
		if op == 11 {
			i = 0
		} else if op == 12 {
			j = n
		}
		desc = fmt.Sprintf("Slice(%d,%d)", i, j)
		if i < 0 || j < i || j > n {
			if _, p := Panics(func() { a.Slice(i, j) }); !p {
				res = "no panic"
			}
		} else {
			mk(desc, func() dgo.Array { return a.Slice(i, j) }, m[i:j], fz)
		}
	case 13:
		mk("Copy(false)", func() dgo.Array { return a.Copy(false) }, m, false)
	case 14:
		mk("Copy(true)", func() dgo.Array { return a.Copy(true) }, m, true)
	case 15:
		mk(fmt.Sprintf("With(%s)", e), func() dgo.Array { return a.With(w.arg(e)) }, cat(m, []*M{e}), fz)
	case 16:
		// with nothing to add, the receiver may be returned
		mk(fmt.Sprintf("WithAll(#%d)", y), func() dgo.Array { return a.WithAll(o) }, cat(m, om), fz)
	case 17:
		mk(fmt.Sprintf("WithValues(%s,%s)", e, e2), func() dgo.Array { return a.WithValues(w.arg(e), w.arg(e2)) }, cat(m, []*M{e, e2}), fz)
	case 18:
		k := 0
		want := make([]*M, n)
		for p := range want {
			want[p] = ma(m[p], mi(int64(p)))
		}
		mk("Map(x -> [x, i])", func() dgo.Array {
			return a.Map(func(v dgo.Value) interface{} {
				k++
				return vf.Values(v, k-1)
			})
		}, want, fz)
	case 19:
		// keep what is not equal to e
		want := []*M{}
		for _, x := range m {
			if !eqM(x, e) {
				want = append(want, x)
			}
		}
		mk(fmt.Sprintf("Select(!= %s)", e), func() dgo.Array {
			return a.Select(func(v dgo.Value) bool { return !eqM(toM(v), e) })
		}, want, fz)
	case 20:
		want := []*M{}
		for p, x := range m {
			if p%2 == 0 {
				want = append(want, x)
			}
		}
		p := 0
		mk("Reject(odd positions)", func() dgo.Array {
			return a.Reject(func(v dgo.Value) bool { p++; return p%2 == 0 })
		}, want, fz)
	case 21:
		mk("Flatten()", a.Flatten, flatM(m), fz)
	case 22:
		want := []*M{}
		for _, x := range m {
			if idxM(want, x) < 0 {
				want = append(want, x)
			}
		}
		mk("Unique()", a.Unique, want, fz)
	case 23:
		desc = fmt.Sprintf("IndexOf(%s)", e)
		is("IndexOf", a.IndexOf(w.arg(e)), idxM(m, e))
	case 24:
		desc = fmt.Sprintf("ContainsAll(#%d)", y)
		is("ContainsAll", a.ContainsAll(o), msContains(m, om))
	case 25:
		desc = fmt.Sprintf("SameValues(#%d)", y)
		is("SameValues", a.SameValues(o), len(m) == len(om) && msContains(m, om))
	case 26:
		desc = "ToMap()"
		want := mm()
		for p := 0; p < n; p += 2 {
			v := mn()
			if p+1 < n {
				v = m[p+1]
			}
			if q := want.find(m[p]); q >= 0 {
				want.A[q] = v
			} else {
				want.KS, want.A = append(want.KS, m[p]), append(want.A, v)
			}
		}
		r := a.ToMap()
		is("ToMap", toM(r), want)
		if res == "" {
			is("ToMap().Frozen()", r.Frozen(), fz)
		}
	case 27:
		desc = "Reduce(concatenation)"
		var sb strings.Builder
		sb.WriteString(e.String())
		for _, x := range m {
			sb.WriteString("/" + x.String())
		}
		r := a.Reduce(e.String(), func(memo, el dgo.Value) interface{} {
			return memo.(dgo.String).GoString() + "/" + toM(el).String()
		})
		is("Reduce", toM(r), ms(sb.String()))
	case 28:
		desc = "Find(position)"
		p := 0
		r := a.Find(func(v dgo.Value) interface{} {
			p++
			if eqM(toM(v), e) {
				return p
			}
			return nil
		})
		if q := idxM(m, e); q >= 0 {
			is("Find", r, q+1)
		} else {
			is("Find", r, nil)
		}
	case 29:
		desc = "InterfaceSlice()"
		r := a.InterfaceSlice()
		got := make([]*M, len(r))
		for p := range r {
			got[p] = toM(r[p].(dgo.Value))
		}
		eq(desc, got, m)
		for p := range r {
			r[p] = nil // must not show in the array
		}
	case 30:
		desc = "AppendToSlice"
		dst := make([]dgo.Value, 1, 1+i+2)
		dst[0] = vf.String("first")
		r := a.AppendToSlice(dst)
		got := make([]*M, len(r))
		for p := range r {
			got[p] = toM(r[p])
		}
		eq(desc, got, cat([]*M{ms("first")}, m))
		for p := range r {
			r[p] = vf.Nil
		}
	case 31:
		desc = "GoSlice()"
		r := a.GoSlice()
		got := make([]*M, len(r))
		for p := range r {
			got[p] = toM(r[p])
		}
		eq(desc, got, m)
		if fz {
			for p := range r {
				r[p] = vf.Nil
			}
		}
	case 32:
		desc = "Each"
		got := []*M{}
		a.Each(func(v dgo.Value) { got = append(got, toM(v)) })
		eq(desc, got, m)
		if res == "" {
			got = []*M{}
			a.EachWithIndex(func(v dgo.Value, p int) {
				if p != len(got) {
					res = fmt.Sprintf("index %d, must be %d", p, len(got))
				}
				got = append(got, toM(v))
			})
			if res == "" {
				eq("EachWithIndex", got, m)
			}
		}
	case 33:
		mk("WrapSlice(nil holes)", func() dgo.Array {
			s := make([]dgo.Value, n, n+3)
			for p := range m {
				if m[p].K != 'n' {
					s[p] = build(m[p], true)
				}
			}
			return vf.WrapSlice(s)
		}, m, false)
	case 34:
		args := make([]interface{}, n)
		for p := range m {
			args[p] = w.arg(m[p])
		}
		if i%2 == 0 {
			mk("Values(...)", func() dgo.Array { return vf.Values(args...) }, m, true)
		} else {
			mk("MutableValues(...)", func() dgo.Array { return vf.MutableValues(args...) }, m, false)
		}
	case 35:
		switch i & 3 {
		case 0:
			mk("Array(array)", func() dgo.Array { return vf.Array(a) }, m, true)
		case 1:
			mk("Array([]Value)", func() dgo.Array { return vf.Array(a.AppendToSlice(nil)) }, m, true)
		case 2:
			is := a.InterfaceSlice()
			mk("Array([]interface{})", func() dgo.Array { return vf.Array(is) }, m, true)
			for p := range is {
				is[p] = nil
			}
		default:
			mk("Arguments", func() dgo.Array { return vf.Arguments(a.InterfaceSlice()...) }, m, true)
		}
	case 36:
		mk("FrozenCopy()", func() dgo.Array { return a.FrozenCopy().(dgo.Array) }, m, true)
	case 37:
		mk("ThawedCopy()", func() dgo.Array { return a.ThawedCopy().(dgo.Array) }, m, false)
	case 38:
		desc = "Freeze()"
		if i == 0 {
			a.Freeze()
			w.f[x] = true
		}
	}
	w.hist = append(w.hist, fmt.Sprintf("#%d%s.%s", x, map[bool]string{true: "(frozen)"}[fz], desc))
	if res != "" {
		return desc + ": " + res
	}
	if r := w.verify(); r != "" {
		return "after " + desc + " on #" + fmt.Sprint(x) + ": " + r
	}
	return ""
}

// c09start makes a world from a list of elements
func c09start(kind int, m []*M) *aw {
	w := &aw{}
	fill := func(a dgo.Array) dgo.Array {
		for _, e := range m {
			a.Add(build(e, true))
		}
		return a
	}
	vals := func() []interface{} {
		r := make([]interface{}, len(m))
		for i := range m {
			r[i] = build(m[i], true)
		}
		return r
	}
	switch kind {
	case 0:
		w.add(fill(vf.ArrayWithCapacity(0)), m, false)
	case 1:
		w.add(fill(vf.ArrayWithCapacity(len(m)+4)), m, false)
	case 2:
		w.add(vf.Values(vals()...), m, true)
	case 3: // a frozen array with spare capacity
		a := fill(vf.ArrayWithCapacity(len(m) + 4))
		a.Freeze()
		w.add(a, m, true)
	case 4: // a frozen array and a slice of it
		a := fill(vf.ArrayWithCapacity(len(m) + 4))
		a.Add("last")
		a.Freeze()
		w.add(a, cat(m, []*M{ms("last")}), true)
		w.add(a.Slice(0, len(m)), m, true)
	case 5: // a mutable array and a slice of it
		a := fill(vf.ArrayWithCapacity(len(m) + 4))
		a.Add("last")
		w.add(a, cat(m, []*M{ms("last")}), false)
		w.add(a.Slice(0, len(m)), m, false)
	case 6:
		s := make([]dgo.Value, 0, len(m)+3)
		for _, e := range m {
			s = append(s, build(e, true))
		}
		w.add(vf.WrapSlice(s), m, false)
	case 7:
		w.add(vf.Arguments(vals()...), m, true)
	case 8: // an array that lost its last elements
		a := fill(vf.ArrayWithCapacity(0))
		a.AddValues(7, 8, 9)
		a.Pop()
		a.Pop()
		a.Pop()
		w.add(a, m, false)
	case 9:
		a := fill(vf.ArrayWithCapacity(len(m) + 4))
		f := a.FrozenCopy().(dgo.Array)
		w.add(a, m, false)
		w.add(f, m, true)
	}
	return w
}

const c09kinds = 10

func c09(t *T) {
	els := []*M{mi(1), mi(2), ms("a"), mn(), ma(mi(1)), ma(mi(1), ma(mi(2), ma())), mm(ms("k"), mi(1)), mf(1)}
	starts := [][]*M{{}, {mi(1)}, {mi(2), mi(1)}, {mi(1), mi(2), mi(1)}, {ma(mi(1)), mi(1), ma()}, {ms("a"), mi(1), ms("a"), mi(2)}, {mi(1), mn(), ma(ma(mi(2)), mi(3)), mi(1), mi(2)}}
	show := func(kind int, m []*M, w **aw) func() string {
		return func() string {
			h := ""
			if *w != nil {
				h = strings.Join((*w).hist, "; ")
			}
			return fmt.Sprintf("start %d %s: %s", kind, lstM(m), h)
		}
	}
	one := func(key string, kind int, m []*M, raw bool, f func(w *aw) string) {
		var w *aw
		msg := ""
		if _, p := Panics(func() {
			w = c09start(kind, m)
			w.raw = raw
			if msg = w.verify(); msg == "" {
				msg = f(w)
			}
		}); p {
			msg, _ = Panics(func() { w = c09start(kind, m); w.raw = raw; f(w) })
			msg = "unexpected panic: " + msg
		}
		t.Check(key, show(kind, m, &w), func() string { return msg })
	}
	t.Group("all pairs of operations")
	type par struct{ op, i, j, e int }
	var ps []par
	for op := 0; op < c09ops; op++ {
		switch op {
		case 0, 7, 15, 19, 23:
			for _, e := range []int{0, 3, 4} {
				ps = append(ps, par{op, 0, 0, e})
			}
		case 3:
			for i := -1; i <= 4; i++ {
				ps = append(ps, par{op, i, 0, 2})
			}
		case 4, 5, 9, 11, 12, 38, 30, 34, 35:
			for i := -1; i <= 4; i++ {
				ps = append(ps, par{op, i, i, 1})
			}
		case 10:
			for i := -1; i <= 3; i++ {
				for j := i - 1; j <= 5; j++ {
					ps = append(ps, par{op, i, j, 1})
				}
			}
		default:
			ps = append(ps, par{op, 0, 1, 1})
		}
	}
	for kind := 0; kind < c09kinds; kind++ {
		for si, m := range starts {
			for pi, p := range ps {
				for qi, q := range ps {
					if (pi*7+qi*3+si+kind)%8 != 0 && !t.thorough {
						continue
					}
					one(fmt.Sprintf("op%d op%d", p.op, q.op), kind, m, (pi+qi)%2 == 0, func(w *aw) string {
						if r := w.step(p.op, 0, len(w.a)-1, p.i, p.j, els[p.e], els[(p.e+1)%len(els)]); r != "" {
							return r
						}
						if r := w.step(q.op, len(w.a)-1, 0, q.i, q.j, els[q.e], els[(q.e+2)%len(els)]); r != "" {
							return r
						}
						return w.step(0, 0, 0, 0, 0, els[2], els[2])
					})
				}
			}
			if t.Expired() {
				return
			}
		}
	}
	t.Group("random histories")
	for k := t.N(12000); k > 0 && !t.Expired(); k-- {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		m := []*M{}
		for i, n := 0, r.Intn(7); i < n; i++ {
			m = append(m, els[r.Intn(len(els))])
		}
		if r.Intn(8) == 0 {
			for i, n := 0, r.Intn(70); i < n; i++ {
				m = append(m, mi(int64(r.Intn(40))))
			}
		}
		one("history", r.Intn(c09kinds), m, r.Intn(2) == 0, func(w *aw) string {
			for s := 0; s < 14; s++ {
				x := r.Intn(len(w.a))
				n := len(w.m[x])
				i := r.Intn(n+4) - 1
				j := i + r.Intn(n+3) - 1
				if r.Intn(5) == 0 {
					j = n
				}
				if msg := w.step(r.Intn(c09ops), x, r.Intn(len(w.a)), i, j, els[r.Intn(len(els))], els[r.Intn(len(els))]); msg != "" {
					return msg
				}
				if len(w.m[x]) > 400 {
					return ""
				}
			}
			return ""
		})
	}
	t.Group("conversions")
	mkEntry := []func(k, v *M) dgo.Value{
		func(k, v *M) dgo.Value { return vf.MapEntry(build(k, true), build(v, true)) },
		func(k, v *M) dgo.Value { return vf.Values(build(k, true), build(v, true)) },
		func(k, v *M) dgo.Value { return vf.MutableValues(build(k, true), build(v, true)) },
		func(k, v *M) dgo.Value {
			return vf.Map(build(k, true), build(v, true)).Find(func(dgo.MapEntry) bool { return true })
		},
	}
	for k := t.N(3000); k > 0 && !t.Expired(); k-- {
		n := t.rng.Intn(6)
		want := mm()
		a := vf.ArrayWithCapacity(n)
		desc := ""
		ok := true
		for i := 0; i < n; i++ {
			kk, v := els[t.rng.Intn(len(els))], els[t.rng.Intn(len(els))]
			c := t.rng.Intn(len(mkEntry) + 1)
			if c == len(mkEntry) {
				if t.rng.Intn(4) > 0 {
					c = 1
				} else {
					ok = false
					a.Add([]dgo.Value{vf.Integer(1), vf.Values(1), vf.Values(1, 2, 3), vf.Map("a", 1)}[t.rng.Intn(4)])
					desc += "(not an entry) "
					continue
				}
			}
			a.Add(mkEntry[c](kk, v))
			desc += fmt.Sprintf("(%d %s=>%s) ", c, kk, v)
			if p := want.find(kk); p >= 0 {
				want.A[p] = v
			} else {
				want.KS, want.A = append(want.KS, kk), append(want.A, v)
			}
		}
		fz := t.rng.Intn(2) == 0
		if fz {
			a.Freeze()
		}
		t.Check("ToMapFromEntries", func() string { return fmt.Sprintf("%s frozen=%v", desc, fz) }, func() string {
			m, k := a.ToMapFromEntries()
			if k != ok {
				return fmt.Sprintf("ok %v, must be %v", k, ok)
			}
			if ok && (toM(m).String() != want.String() || m.Frozen() != fz) {
				return fmt.Sprintf("gives %s (frozen %v), must be %s", toM(m), m.Frozen(), want)
			}
			return ""
		})
	}
	for k := t.N(500); k > 0 && !t.Expired(); k-- {
		m := (&G{r: t.rng, kinds: allKinds, depth: 2, max: 5}).mapM(2)
		fz := t.rng.Intn(2) == 0
		mp := bMap(m, fz)
		want := []*M{}
		for i := range m.A {
			want = append(want, &M{K: 'e', S: m.KS[i].String() + "=>" + m.A[i].String()})
		}
		in := func() string { return fmt.Sprintf("%s frozen=%v", m, fz) }
		pre := []*M{mi(1)}
		t.Check("iterable", in, func() string {
			a := vf.MutableValues(1)
			a.AddAll(mp)
			if g := lstM(readA(a)); g != lstM(cat(pre, want)) {
				return "AddAll(map) gives " + g
			}
			if g := lstM(readA(vf.Values(1).WithAll(mp))); g != lstM(cat(pre, want)) {
				return "WithAll(map) gives " + g
			}
			if g := lstM(readA(vf.MutableValues(1).WithAll(mp))); g != lstM(cat(pre, want)) {
				return "WithAll(map) on a mutable array gives " + g
			}
			if g := lstM(readA(vf.Array(mp))); g != lstM(want) {
				return "Array(map) gives " + g
			}
			if len(want) > 0 && !vf.Array(mp).ContainsAll(mp) {
				return "Array(map) does not contain all entries of the map"
			}
			if !vf.Array(mp).SameValues(mp) {
				return "Array(map) does not have the same values as the map"
			}
			return ""
		})
		keys := cat(m.KS)
		t.Check("keys", in, func() string {
			if g := lstM(readA(mp.Keys())); g != lstM(keys) {
				return "Keys gives " + g
			}
			return ""
		})
	}
	strs := []string{"", "a", "b\x00", "日"}
	ints := []int{0, 1, -1, 1 << 40}
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			t.Check("Strings", func() string { return fmt.Sprintf("%q,%q", strs[a], strs[b]) }, func() string {
				s := []string{strs[a], strs[b]}
				v := vf.Strings(s...)
				s[0] = "changed"
				if g := lstM(readA(v)); g != lstM([]*M{ms(strs[a]), ms(strs[b])}) || !v.Frozen() {
					return g
				}
				return ""
			})
			t.Check("Integers", func() string { return fmt.Sprint(ints[a], ints[b]) }, func() string {
				s := []int{ints[a], ints[b]}
				v := vf.Integers(s...)
				s[0] = 77
				if g := lstM(readA(v)); g != lstM([]*M{mi(int64(ints[a])), mi(int64(ints[b]))}) || !v.Frozen() {
					return g
				}
				return ""
			})
		}
	}
}
