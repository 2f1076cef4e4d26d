package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C07"] = c07 }

// cmpM is the order of values: numbers by value (exactly), strings and binaries by bytes, false before true, arrays
// lexicographically, nil before everything. The bool tells whether a can be compared to b.
func cmpM(a, b *M) (int, bool) {
	if a.K == 'n' {
		if b.K == 'n' {
			return 0, true
		}
		return -1, true
	}
	if !strings.ContainsRune("bifsxa", rune(a.K)) {
		return 0, false
	}
	if b.K == 'n' {
		return 1, true
	}
	switch {
	case (a.K == 'i' || a.K == 'f') && (b.K == 'i' || b.K == 'f'):
		return numM(a).Cmp(numM(b)), true
	case a.K != b.K:
		return 0, false
	}
	switch a.K {
	case 'b':
		switch {
		case a.B == b.B:
			return 0, true
		case a.B:
			return 1, true
		}
		return -1, true
	case 's', 'x':
		return strings.Compare(a.S, b.S), true
	}
	for i := 0; i < len(a.A) && i < len(b.A); i++ {
		if c, ok := cmpM(a.A[i], b.A[i]); !ok || c != 0 {
			return c, ok
		}
	}
	return sign(len(a.A) - len(b.A)), true
}

func numM(a *M) *big.Float {
	if a.K == 'i' {
		return new(big.Float).SetInt64(a.I)
	}
	return big.NewFloat(a.F)
}

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

// c07cmp calls CompareTo.
func c07cmp(a dgo.Value, b interface{}) (c int, ok bool, msg string) {
	ac, is := a.(dgo.Comparable)
	if !is {
		return 0, false, ""
	}
	m, p := Panics(func() { c, ok = ac.CompareTo(b) })
	if p {
		msg = "CompareTo panics: " + m
	}
	return
}

// c07pair checks the comparison of two values, both ways. The input is not comparable when the oracle says so for
// either of the directions, then only the sign of comparable directions is checked.
func c07pair(a, b *M, va, vb dgo.Value) string {
	for k := 0; k < 2; k++ {
		want, wok := cmpM(a, b)
		c, ok, msg := c07cmp(va, vb)
		if msg != "" {
			return msg
		}
		switch {
		case ok != wok:
			return fmt.Sprintf("%s.CompareTo(%s) is possible: %t, expected %t", a, b, ok, wok)
		case ok && sign(c) != want:
			return fmt.Sprintf("%s.CompareTo(%s) is %d, expected the sign %d", a, b, c, want)
		}
		a, b, va, vb = b, a, vb, va
	}
	return ""
}

func c07self(a *M, va dgo.Value) string {
	if _, ok := cmpM(a, a); !ok {
		return ""
	}
	for _, vb := range []dgo.Value{va, build(a, true), build(a, false)} {
		if c, ok, msg := c07cmp(va, vb); !ok || c != 0 {
			return fmt.Sprintf("compared to itself: %d, %t %s", c, ok, msg)
		}
	}
	return ""
}

func c07lst(ms []*M) string {
	var s []string
	for _, m := range ms {
		s = append(s, m.String())
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// c07sorted checks that out is an ordered permutation of in.
func c07sorted(in, out []*M) string {
	if len(in) != len(out) {
		return fmt.Sprintf("%d elements before and %d after", len(in), len(out))
	}
	var x, y []string
	for i := range in {
		x = append(x, in[i].String())
		y = append(y, out[i].String())
	}
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return "the result " + cut(c07lst(out), 300) + " is not a permutation"
		}
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			a, ok := cmpM(out[j], out[i])
			b, ok2 := cmpM(out[i], out[j])
			if ok && a < 0 || ok2 && b > 0 {
				return fmt.Sprintf("the result %s has %s before the smaller %s", cut(c07lst(out), 300), out[i], out[j])
			}
		}
	}
	return ""
}

func c07sort(in *M, frozen bool, args bool) string {
	var a dgo.Array = bArr(in, frozen)
	if args {
		a = vf.ArgumentsFromArray(a)
	}
	var s dgo.Array
	if m, p := Panics(func() { s = a.Sort() }); p {
		return "Sort panics: " + m
	}
	out := toM(vf.MutableValues(s)).A[0]
	if msg := c07sorted(in.A, out.A); msg != "" {
		return msg
	}
	if got := toM(vf.MutableValues(a)).A[0]; !sameM(got, in) {
		return fmt.Sprintf("the receiver became %s", got)
	}
	if s.Frozen() != frozen && len(in.A) > 1 {
		return fmt.Sprintf("the receiver is frozen: %t, the result: %t", frozen, s.Frozen())
	}
	if len(in.A) > 1 && !frozen {
		s.Set(0, 12345)
		if got := toM(vf.MutableValues(a)).A[0]; !sameM(got, in) {
			return fmt.Sprintf("a change of the result makes the receiver %s", got)
		}
	}
	return ""
}

var c07floats = []float64{math.Inf(-1), -math.MaxFloat64, -1 << 63, -(1 << 62), -1e15, -255.5, -2, -1.5, -1, -0.5, -5e-324,
	math.Copysign(0, -1), 0, 5e-324, 0.25, 0.5, 1, 1.5, 2, 3, 127, 127.5, 255, 1 << 31, 1 << 53, 1<<53 + 2, 9007199254740993.0,
	1 << 62, 9223372036854774784.0, 1 << 63, 1e19, 1e300, math.MaxFloat64, math.Inf(1)}

var c07ints = []int64{math.MinInt64, math.MinInt64 + 1, math.MinInt64 + 1024, -(1 << 62), -(1 << 53) - 1, -(1 << 53), -(1 << 31), -256, -255, -128, -127, -3, -2, -1, 0, 1, 2, 3,
	127, 128, 255, 256, 1 << 31, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<53 + 2, 1<<53 + 3, 1 << 62, 1<<62 + 1, math.MaxInt64 - 1024, math.MaxInt64 - 1023, math.MaxInt64 - 512, math.MaxInt64 - 511, math.MaxInt64 - 1, math.MaxInt64}

func c07pool() []*M {
	ps := []*M{mn(), mb(false), mb(true)}
	for _, i := range c07ints {
		ps = append(ps, mi(i))
	}
	for _, f := range c07floats {
		ps = append(ps, mf(f))
	}
	for _, s := range []string{"", "\x00", "a", "a\x00", "aa", "ab", "abc", "abd", "b", "A", "Z", "z", "é", "日本", "\xff", "\x7f", "\x80", "~", "a long string, longer than thirty two characters", "a long string, longer than thirty two characterT"} {
		ps = append(ps, ms(s), mx(s))
	}
	ps = append(ps, mt(0), mr("a"), ma(), mm(), mm(ms("a"), mi(1)))
	return ps
}

func c07(t *T) {
	pool := c07pool()

	t.Group("numbers, strings, binaries, booleans and nil in pairs")
	vals := make([]dgo.Value, len(pool))
	for i, m := range pool {
		vals[i] = build(m, true)
	}
	for i := range pool {
		for j := range pool {
			a, b := pool[i], pool[j]
			t.Check("pair "+a.String()+" "+b.String(), func() string { return fmt.Sprintf("compare %s with %s", a, b) }, func() string {
				return c07pair(a, b, vals[i], vals[j])
			})
		}
		t.Check("self "+pool[i].String(), pool[i].String, func() string { return c07self(pool[i], vals[i]) })
	}

	t.Group("values with go values")
	for i := range pool {
		for j := range pool {
			a, b := pool[i], pool[j]
			var gs []interface{}
			switch b.K {
			case 'n':
				gs = append(gs, nil)
			case 'b':
				gs = append(gs, b.B)
			case 'i':
				gs = append(gs, b.I)
				if int64(int8(b.I)) == b.I {
					gs = append(gs, int8(b.I))
				}
				if int64(int16(b.I)) == b.I {
					gs = append(gs, int16(b.I))
				}
				if int64(int32(b.I)) == b.I {
					gs = append(gs, int32(b.I))
				}
				gs = append(gs, int(b.I))
				if b.I >= 0 {
					gs = append(gs, uint64(b.I), uint(b.I))
				}
			case 'f':
				gs = append(gs, b.F)
				if float64(float32(b.F)) == b.F {
					gs = append(gs, float32(b.F))
				}
			case 's':
				gs = append(gs, b.S)
			case 'x':
				gs = append(gs, []byte(b.S))
			}
			for _, g := range gs {
				t.Check(fmt.Sprintf("go %s %T %v", a, g, g), func() string { return fmt.Sprintf("compare %s with the go value %T %#v", a, g, g) }, func() string {
					want, wok := cmpM(a, b)
					c, ok, msg := c07cmp(vals[i], g)
					switch {
					case msg != "":
						return msg
					case ok && !wok:
						return "comparable"
					case !ok && wok && a.K != 'b' && !(a.K == 's' && g == nil):
						return "not comparable"
					case ok && sign(c) != want:
						return fmt.Sprintf("CompareTo is %d, expected the sign %d", c, want)
					}
					return ""
				})
			}
		}
	}

	t.Group("integers with floats around them")
	for n := t.N(20000); n > 0 && !t.Expired(); n-- {
		f := c07floats[t.rng.Intn(len(c07floats))]
		i := c07ints[t.rng.Intn(len(c07ints))]
		switch t.rng.Intn(4) {
		case 0:
			i = t.rng.Int63() >> uint(t.rng.Intn(64))
			if t.rng.Intn(2) == 0 {
				i = -i
			}
			f = float64(i)
		case 1:
			i += int64(t.rng.Intn(2000) - 1000)
			f = float64(i)
		case 2:
			f = math.Float64frombits(t.rng.Uint64())
			if f != f {
				f = 1
			}
		}
		for k := t.rng.Intn(4); k > 0; k-- {
			f = math.Nextafter(f, math.Inf(1-2*t.rng.Intn(2)))
		}
		a, b := mi(i), mf(f)
		t.Check(fmt.Sprintf("num %d %x", i, f), func() string { return fmt.Sprintf("compare %d with %g (%x)", i, f, f) }, func() string {
			return c07pair(a, b, build(a, true), build(b, true))
		})
	}

	// all arrays of up to three elements of a small set of values
	t.Group("small arrays in pairs")
	el := []*M{mi(0), mf(0.5), mi(1), mn(), ms("a"), ma(mi(0))}
	small := []*M{ma()}
	for i, from := 0, 0; i < 3; i++ {
		to := len(small)
		for _, p := range small[from:to] {
			for k, e := range el {
				if i == 2 && k > 3 {
					continue
				}
				small = append(small, ma(append(append([]*M{}, p.A...), e)...))
			}
		}
		from = to
	}
	svals := make([]dgo.Value, len(small))
	for i, m := range small {
		svals[i] = build(m, i%2 == 0)
	}
	for i := range small {
		t.Check("self "+small[i].String(), small[i].String, func() string { return c07self(small[i], svals[i]) })
		for j := i; j < len(small); j++ {
			if len(small) > 150 && j > i+1 && (i*31+j)%3 != 0 && !t.thorough {
				continue
			}
			a, b := small[i], small[j]
			t.Check("arrays "+a.String()+" "+b.String(), func() string { return fmt.Sprintf("compare %s with %s", a, b) }, func() string {
				return c07pair(a, b, svals[i], svals[j])
			})
		}
	}
	t.Group("arguments")
	for n := t.N(2000); n > 0; n-- {
		a, b := small[t.rng.Intn(len(small))], small[t.rng.Intn(len(small))]
		if t.rng.Intn(3) == 0 {
			b = a
		}
		t.Check("arguments "+a.String()+" "+b.String(), func() string { return fmt.Sprintf("compare the arguments %s with %s", a, b) }, func() string {
			va, vb := build(a, true), build(b, true)
			aa, ab := vf.ArgumentsFromArray(va.(dgo.Array)), vf.ArgumentsFromArray(vb.(dgo.Array))
			for _, p := range [][2]dgo.Value{{aa, ab}, {aa, vb}, {va, ab}, {vf.Values(aa), vf.Values(ab)}, {vf.Values(aa), vf.Values(vb)}} {
				if msg := c07pair(a, b, p[0], p[1]); msg != "" {
					return fmt.Sprintf("%T and %T: %s", p[0], p[1], msg)
				}
			}
			return c07self(a, aa)
		})
	}

	t.Group("arrays")
	g := &G{r: t.rng, kinds: "nbiffsxjjj", depth: 3, max: 5}
	for n := t.N(8000); n > 0 && !t.Expired(); n-- {
		a := g.array(1 + t.rng.Intn(4))
		if t.rng.Intn(3) > 0 {
			stripMaps(a)
		}
		b := g.mutate(a)
		c := g.mutate(b)
		va, vb, vc := build(a, true), build(b, false), build(c, true)
		t.Check("arrays "+a.String()+" "+b.String(), func() string { return fmt.Sprintf("compare %s, %s and %s", a, b, c) }, func() string {
			for _, m := range []string{c07pair(a, b, va, vb), c07pair(b, c, vb, vc), c07pair(a, c, va, vc), c07self(a, va)} {
				if m != "" {
					return m
				}
			}
			return ""
		})
	}
	t.Group("long binaries and strings")
	for n := t.N(3000); n > 0; n-- {
		bs := make([]byte, t.rng.Intn(70))
		for i := range bs {
			bs[i] = byte(t.rng.Intn(3) * 127)
		}
		cs := append([]byte{}, bs...)
		for k := t.rng.Intn(3); k > 0 && len(cs) > 0; k-- {
			cs[t.rng.Intn(len(cs))] = byte(t.rng.Intn(256))
		}
		if t.rng.Intn(2) == 0 {
			cs = cs[:t.rng.Intn(len(cs)+1)]
		}
		a, b := mx(string(bs)), mx(string(cs))
		if n%2 == 0 {
			a, b = ms(string(bs)), ms(string(cs))
		}
		t.Check("bytes "+a.String()+" "+b.String(), func() string { return fmt.Sprintf("compare %s with %s", a, b) }, func() string {
			return c07pair(a, b, build(a, true), build(b, true))
		})
	}

	// strings with the same hash code, hashed before they are compared
	t.Group("hashed strings")
	coll := []string{"Aa", "BB", "AaAa", "AaBB", "BBAa", "BBBB", "AaC#", "Ab", "", "xAa", "xBB", "AaAaAa", "BBBBBB", "AaBBAa"}
	cm := make([]*M, len(coll))
	cv := make([]dgo.Value, len(coll))
	for i, x := range coll {
		cm[i], cv[i] = ms(x), vf.String(x)
		cv[i].HashCode()
		vf.MutableMap().Put(cv[i], 1)
	}
	for i, a := range cm {
		for j, b := range cm {
			i, j, a, b := i, j, a, b
			t.Check("hashed "+a.String()+" "+b.String(), func() string { return fmt.Sprintf("compare %s with %s, both used as keys before", a, b) }, func() string {
				if msg := c07pair(a, b, cv[i], cv[j]); msg != "" {
					return msg
				}
				return c07pair(ma(a, mi(1)), ma(b, mi(0)), vf.Values(cv[i], 1), vf.Values(cv[j], 0))
			})
		}
	}

	// arrays made of the same parts at different places and depths
	t.Group("shared parts")
	for n := t.N(6000); n > 0 && !t.Expired(); n-- {
		mods := []*M{mi(1), mi(2), mn(), ma(), ma(mi(1))}
		pool := make([]dgo.Value, len(mods))
		for i, m := range mods {
			pool[i] = build(m, true)
		}
		for k := 4 + t.rng.Intn(8); k > 0; k-- {
			m := &M{K: 'a'}
			var es []interface{}
			for l := 1 + t.rng.Intn(2); l > 0; l-- {
				i := t.rng.Intn(len(mods))
				if len(mods[i].String()) > 120 {
					i = 0
				}
				m.A = append(m.A, mods[i])
				es = append(es, pool[i])
			}
			mods = append(mods, m)
			if k%2 == 0 {
				pool = append(pool, vf.Values(es...))
			} else {
				pool = append(pool, vf.MutableValues(es...))
			}
		}
		for k := 0; k < 8; k++ {
			i, j := t.rng.Intn(len(mods)), t.rng.Intn(len(mods))
			if k < 4 {
				i, j = len(mods)-1-t.rng.Intn(4), len(mods)-1-t.rng.Intn(4)
			}
			a, b, va, vb := mods[i], mods[j], pool[i], pool[j]
			t.Check("shared "+a.String()+" "+b.String(), func() string { return fmt.Sprintf("compare %s with %s, made of shared parts", a, b) }, func() string {
				return c07pair(a, b, va, vb)
			})
		}
	}

	// sorting: all short sequences of a small set of values of different kinds
	t.Group("sort: short sequences")
	se := []*M{mi(1), mf(0.5), mb(true), ms("a"), mn(), ma(mi(0)), ma(ms("a")), mm(ms("a"), mi(1)), mi(0), mx("a")}
	var rec func(p []*M, n int)
	rec = func(p []*M, n int) {
		if len(p) > 0 {
			in := ma(append([]*M{}, p...)...)
			frozen := len(p)%2 == 0
			t.Check("sort "+in.String(), func() string { return "sort " + in.String() }, func() string { return c07sort(in, frozen, false) })
		}
		if n == 0 {
			return
		}
		for _, e := range se {
			rec(append(p, e), n-1)
		}
	}
	rec(nil, 3)
	if t.thorough {
		rec(nil, 4)
	}
	t.Group("sort")
	kinds := []string{"i", "jf", "f", "s", "x", "b", "nj", "nbijfsx", "nbijfsxtr"}
	for n := t.N(6000); n > 0 && !t.Expired(); n-- {
		g.kinds = kinds[t.rng.Intn(len(kinds))]
		g.max = 4 + t.rng.Intn(30)
		in := &M{K: 'a'}
		d := 0
		if t.rng.Intn(2) == 0 {
			d = t.rng.Intn(3)
		}
		gg := &G{r: t.rng, kinds: g.kinds, max: 3}
		for k := g.ln(); k > 0; k-- {
			e := gg.value(d)
			in.A = append(in.A, e)
			if t.rng.Intn(4) == 0 {
				in.A = append(in.A, gg.mutate(e))
			}
		}
		if t.rng.Intn(3) == 0 {
			for _, e := range in.A {
				if e.K == 'a' {
					stripMaps(e)
				}
			}
		}
		frozen, args := t.rng.Intn(2) == 0, t.rng.Intn(6) == 0
		t.Check("sort "+in.String(), func() string { return fmt.Sprintf("sort %s (frozen %t, arguments %t)", in, frozen, args) }, func() string {
			if args {
				return c07sort(in, true, true)
			}
			return c07sort(in, frozen, false)
		})
	}
}

// stripMaps replaces what cannot be compared by an integer.
func stripMaps(m *M) {
	for i, e := range m.A {
		switch e.K {
		case 'a':
			stripMaps(e)
		case 'm', 't', 'r':
			m.A[i] = mi(int64(i % 3))
		}
	}
}
