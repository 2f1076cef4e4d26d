package main

import (
	"fmt"
	"math"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C01"] = c01 }

type irange struct {
	a, b int64
	incl bool
}

// accepts is the oracle for integers, in exact arithmetic.
func (r irange) accepts(v int64) bool {
	lo, hi := r.a, r.b
	if lo > hi {
		lo, hi = hi, lo
	}
	return lo <= v && (v < hi || r.incl && v == hi)
}

func (r irange) String() string { return fmt.Sprintf("IntegerType(%d, %d, %v)", r.a, r.b, r.incl) }

var intPoints = []int64{math.MinInt64, math.MinInt64 + 1, -1 << 32, -1000, -4, -3, -2, -1, 0, 1, 2, 3, 4, 1000, 1 << 32, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}

type frange struct {
	a, b float64
	incl bool
}

func (r frange) accepts(v float64) bool {
	lo, hi := r.a, r.b
	if lo > hi {
		lo, hi = hi, lo
	}
	return lo <= v && (v < hi || r.incl && v == hi)
}
func (r frange) String() string { return fmt.Sprintf("FloatType(%v, %v, %v)", r.a, r.b, r.incl) }

var floatPoints = []float64{-math.MaxFloat64, math.Nextafter(-math.MaxFloat64, 0), -1e20, -3.5, -1, math.Nextafter(-1, 0), -math.SmallestNonzeroFloat64, 0,
	math.SmallestNonzeroFloat64, 0.5, math.Nextafter(1, 0), 1, math.Nextafter(1, 2), 2.5, 1e20, math.Nextafter(math.MaxFloat64, 0), math.MaxFloat64}

func goInts(v int64) []interface{} {
	r := []interface{}{vf.Integer(v), v, int(v)}
	if v == int64(int32(v)) {
		r = append(r, int32(v))
	}
	if v == int64(int16(v)) {
		r = append(r, int16(v))
	}
	if v == int64(int8(v)) {
		r = append(r, int8(v))
	}
	if v >= 0 {
		r = append(r, uint(v), uint64(v))
		if v == int64(uint32(v)) {
			r = append(r, uint32(v))
		}
		if v == int64(uint16(v)) {
			r = append(r, uint16(v))
		}
		if v == int64(uint8(v)) {
			r = append(r, uint8(v))
		}
	}
	return r
}

func boolMsg(what string, got, want bool) string {
	if got != want {
		return fmt.Sprintf("%s is %v, want %v", what, got, want)
	}
	return ""
}

func first(ms ...string) string {
	for _, m := range ms {
		if m != "" {
			return m
		}
	}
	return ""
}

func c01int(t *T, r irange, probes []int64) {
	t.Check("integer constructor", r.String, func() string {
		if r.a == r.b && !r.incl {
			if _, p := Panics(func() { tf.Integer(r.a, r.b, r.incl) }); !p {
				return "an empty range did not panic"
			}
			return ""
		}
		ty := tf.Integer(r.a, r.b, r.incl)
		lo, hi := r.a, r.b
		if lo > hi {
			lo, hi = hi, lo
		}
		if ty.Min() != lo || ty.Max() != hi || ty.Inclusive() != r.incl {
			return fmt.Sprintf("got bounds %d, %d, %v", ty.Min(), ty.Max(), ty.Inclusive())
		}
		return ""
	})
	if r.a == r.b && !r.incl {
		return
	}
	ty := tf.Integer(r.a, r.b, r.incl)
	for _, v := range probes {
		v := v
		t.Check("integer instance", func() string { return fmt.Sprintf("%s, %d", r, v) }, func() string {
			want := r.accepts(v)
			if m := boolMsg("IsInstance", ty.IsInstance(v), want); m != "" {
				return m
			}
			for _, g := range goInts(v) {
				if m := boolMsg(fmt.Sprintf("Instance(%T)", g), ty.Instance(g), want); m != "" {
					return m
				}
			}
			return ""
		})
	}
}

func c01(t *T) {
	t.Group("integer membership")
	var rs []irange
	for _, a := range intPoints {
		for _, b := range intPoints {
			for _, incl := range []bool{true, false} {
				rs = append(rs, irange{a, b, incl})
			}
		}
	}
	for _, r := range rs {
		c01int(t, r, intPoints)
	}
	for i := 0; i < t.N(4000) && !t.Expired(); i++ {
		r := irange{t.rint(), t.rint(), t.rng.Intn(2) == 0}
		pr := []int64{r.a, r.b, t.rint()}
		for _, x := range []int64{r.a, r.b} {
			if x > math.MinInt64 {
				pr = append(pr, x-1)
			}
			if x < math.MaxInt64 {
				pr = append(pr, x+1)
			}
		}
		c01int(t, r, pr)
	}
	for _, x := range []interface{}{"1", 1.0, nil, true, vf.Float(1), vf.String("1"), vf.Nil, []int{1}, float32(1), vf.Values(1)} {
		x := x
		t.Check("integer rejects other kinds", func() string { return fmt.Sprintf("%T(%v)", x, x) }, func() string {
			return first(boolMsg("int range", tf.Integer(0, 10, true).Instance(x), false), boolMsg("int", typ.Integer.Instance(x), false), boolMsg("exact int", vf.Integer(1).Type().Instance(x), false))
		})
	}
	for _, x := range []interface{}{"1", 1, nil, true, vf.Integer(1), vf.String("1"), vf.Nil, uint8(1), vf.Values(1.0)} {
		x := x
		t.Check("float rejects other kinds", func() string { return fmt.Sprintf("%T(%v)", x, x) }, func() string {
			return first(boolMsg("float range", tf.Float(0, 10, true).Instance(x), false), boolMsg("float", typ.Float.Instance(x), false), boolMsg("exact float", vf.Float(1).Type().Instance(x), false))
		})
	}
	t.Group("integer inclusion")
	bounds := func(r irange) (int64, int64, bool) {
		lo, hi := r.a, r.b
		if lo > hi {
			lo, hi = hi, lo
		}
		if !r.incl {
			if lo == hi {
				return 0, 0, false
			}
			hi--
		}
		return lo, hi, true
	}
	incl := func(a, b irange) {
		al, ah, ok := bounds(a)
		bl, bh, ok2 := bounds(b)
		if !ok || !ok2 {
			return
		}
		t.Check("integer inclusion", func() string { return a.String() + " assignable from " + b.String() }, func() string {
			return first(boolMsg("Assignable", tf.Integer(a.a, a.b, a.incl).Assignable(tf.Integer(b.a, b.b, b.incl)), al <= bl && bh <= ah),
				boolMsg("unconstrained int", typ.Integer.Assignable(tf.Integer(b.a, b.b, b.incl)), true),
				boolMsg("range from unconstrained int", tf.Integer(a.a, a.b, a.incl).Assignable(typ.Integer), al == math.MinInt64 && ah == math.MaxInt64))
		})
	}
	for i, a := range rs {
		for j, b := range rs {
			if (i+j)%5 == 0 || t.thorough {
				incl(a, b)
			}
		}
	}
	sm := func() int64 { return int64(t.rng.Intn(7) - 3) }
	for i := 0; i < t.N(30000) && !t.Expired(); i++ {
		incl(irange{sm(), sm(), t.rng.Intn(2) == 0}, irange{sm(), sm(), t.rng.Intn(2) == 0})
	}
	t.Group("float")
	var fs []frange
	for _, a := range floatPoints {
		for _, b := range floatPoints {
			for _, incl := range []bool{true, false} {
				fs = append(fs, frange{a, b, incl})
			}
		}
	}
	fty := func(r frange) dgo.FloatType { return tf.Float(r.a, r.b, r.incl) }
	for ri, r := range fs {
		r := r
		t.Check("float constructor", r.String, func() string {
			if r.a == r.b && !r.incl {
				if _, p := Panics(func() { fty(r) }); !p {
					return "an empty range did not panic"
				}
				return ""
			}
			ty := fty(r)
			lo, hi := math.Min(r.a, r.b), math.Max(r.a, r.b)
			if ty.Min() != lo || ty.Max() != hi || ty.Inclusive() != r.incl {
				return fmt.Sprintf("got bounds %v, %v, %v", ty.Min(), ty.Max(), ty.Inclusive())
			}
			return ""
		})
		if r.a == r.b && !r.incl {
			continue
		}
		ty := fty(r)
		for _, v := range append([]float64{math.NaN()}, floatPoints...) {
			v := v
			if v != v && ty == typ.Float {
				continue
			}
			t.Check("float instance", func() string { return fmt.Sprintf("%s, %v", r, v) }, func() string {
				want := r.accepts(v)
				m := first(boolMsg("IsInstance", ty.IsInstance(v), want), boolMsg("Instance(float64)", ty.Instance(v), want), boolMsg("Instance(Float)", ty.Instance(vf.Float(v)), want))
				if m == "" && float64(float32(v)) == v {
					m = boolMsg("Instance(float32)", ty.Instance(float32(v)), want)
				}
				return m
			})
		}
		t.Check("float inclusion", func() string { return r.String() + " assignable from float" }, func() string {
			return first(boolMsg("Assignable", ty.Assignable(typ.Float), ty == typ.Float), boolMsg("float Assignable", typ.Float.Assignable(ty), true))
		})
		for k, o := range fs {
			o := o
			if o.a == o.b && !o.incl || (k+ri)%2 != 0 && !t.thorough {
				continue
			}
			t.Check("float inclusion", func() string { return r.String() + " assignable from " + o.String() }, func() string {
				alo, ahi := math.Min(r.a, r.b), math.Max(r.a, r.b)
				blo, bhi := math.Min(o.a, o.b), math.Max(o.a, o.b)
				want := alo <= blo && (bhi < ahi || bhi == ahi && (r.incl || !o.incl))
				if fty(r) == typ.Float {
					want = true
				}
				return boolMsg("Assignable", fty(r).Assignable(fty(o)), want)
			})
		}
	}
	for i := 0; i < t.N(2000) && !t.Expired(); i++ {
		a, b := t.rfloat(), t.rfloat()
		r := frange{a, b, t.rng.Intn(2) == 0}
		if a == b {
			continue
		}
		ty := fty(r)
		for _, v := range []float64{a, b, math.Nextafter(a, b), math.Nextafter(b, a), math.Nextafter(a, -b), math.Nextafter(b, math.Inf(1)), (a + b) / 2} {
			v := v
			t.Check("float instance", func() string { return fmt.Sprintf("%s, %v", r, v) }, func() string {
				return boolMsg("IsInstance", ty.IsInstance(v), r.accepts(v))
			})
		}
	}
}

// rint draws an integer with emphasis on boundaries.
func (t *T) rint() int64 {
	switch t.rng.Intn(5) {
	case 0:
		return int64(t.rng.Intn(9) - 4)
	case 1:
		return int64(t.rng.Uint64())
	case 2:
		return math.MaxInt64 - int64(t.rng.Intn(3))
	case 3:
		return math.MinInt64 + int64(t.rng.Intn(3))
	}
	return (int64(1) << uint(t.rng.Intn(63))) + int64(t.rng.Intn(3)-1)
}

func (t *T) rfloat() float64 {
	switch t.rng.Intn(4) {
	case 0:
		return float64(t.rng.Intn(9) - 4)
	case 1:
		return t.rng.NormFloat64()
	case 2:
		return math.Ldexp(t.rng.Float64(), t.rng.Intn(2000)-1000)
	}
	for {
		f := math.Float64frombits(t.rng.Uint64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}
