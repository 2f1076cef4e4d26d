package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C19"] = c19 }

// c19arg is an argument of New. If it stands for a single value, then m is the model of that value.
type c19arg struct {
	text string
	v    dgo.Value
	m    *M
}

// c19keeps says that New of the type takes no other view of an argument that is an instance already.
func c19keeps(t *TM) bool {
	switch t.K {
	case 'i', 'I', 'f', 'F', 's', 'S', 'P', 'c', 'B', 'x', 'a', 't', 'v', 'm', 'z', 'e', 'A', 'N', '|', '&', 'R', 'T':
		return true
	}
	return false
}

// c19known says that the model of a value describes it completely.
func c19known(m *M) bool { return !hasKind(m, "E?TNe") }

// c19new creates through the type, and verifies the outcome.
func c19new(t *T, key string, tm *TM, tp dgo.Type, a c19arg) {
	t.Check(key, func() string { return tm.String() + " from " + a.text }, func() string { return c19outcome(tm, tp, a) })
}

func c19outcome(tm *TM, tp dgo.Type, a c19arg) (bad string) {
	var r dgo.Value
	failed := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				failed = true
				if _, ok := x.(error); !ok {
					bad = fmt.Sprintf("fails with %T, not an error", x)
				}
			}
		}()
		r = vf.New(tp, a.v)
	}()
	if bad != "" {
		return bad
	}
	if failed {
		if tm != nil && a.m != nil && c19keeps(tm) && c19known(a.m) && member(tm, a.m) {
			return "the argument is an instance, but New fails"
		}
		return ""
	}
	if r == nil {
		return "gives nil"
	}
	if !tp.Instance(r) {
		return fmt.Sprintf("gives %s (%T) which the type does not accept", cut(r.String(), 200), r)
	}
	if tm == nil {
		return ""
	}
	m := toM(r)
	if c19known(m) && !member(tm, m) {
		return fmt.Sprintf("gives %s (%T) which is no instance of the type", m, r)
	}
	if a.m != nil && c19keeps(tm) && c19known(a.m) && member(tm, a.m) && !eqM(a.m, m) {
		return fmt.Sprintf("the argument is an instance, but New gives %s", m)
	}
	return ""
}

type c19iface interface {
	dgo.Value
	Num() int
}

type c19val struct {
	t dgo.NamedType
	n int
}

func (v *c19val) Num() int                      { return v.n }
func (v *c19val) String() string                { return fmt.Sprintf("c19val(%d)", v.n) }
func (v *c19val) Type() dgo.Type                { return tf.ExactNamed(v.t, v) }
func (v *c19val) HashCode() int                 { return v.n }
func (v *c19val) Equals(other interface{}) bool { o, ok := other.(*c19val); return ok && o.n == v.n }

type c19other struct {
	t dgo.NamedType
	n int
}

func (v *c19other) String() string { return fmt.Sprintf("c19other(%d)", v.n) }
func (v *c19other) Type() dgo.Type { return tf.ExactNamed(v.t, v) }
func (v *c19other) HashCode() int  { return v.n }
func (v *c19other) Equals(other interface{}) bool {
	o, ok := other.(*c19other)
	return ok && o.n == v.n
}

func c19one(m *M, frozen bool) c19arg {
	s := m.String()
	if !frozen {
		s = "mutable " + s
	}
	return c19arg{s, build(m, frozen), m}
}

func c19args() []c19arg {
	var as []c19arg
	vals := c18values()
	for _, s := range []string{"0", "1", "2", "3", "4", "5", "-1", "+1", "1.5", "0x10", "ff", "101", "777", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e3", "1E400", "NaN", "Inf", "-inf", "true", "false", "True", "FALSE", "y", "yes", "no", "N", "t", "f", " 1",
		"aGVsbG8=", "YQ==", "YQ", "////", "____", "2019-10-06T07:15:00Z", "2019-10-06T07:15:00.123456789+01:00", "int", "string", "string[1,2]", "0..3", "[]int", "map[string]int", "type", "{a:int}", "\"a\"", "a b", "\xff", "long enough to exceed"} {
		vals = append(vals, ms(s))
	}
	vals = append(vals, mf(2), mf(-1), mf(4.9), mf(1e300), mf(-1e300), mf(9.3e18), mi(2), mi(4), mi(6), mi(255), mi(256), mi(100),
		ma(mi(255)), ma(mi(256)), ma(mi(-1)), ma(mi(1), ms("a")), ma(ms("a"), mi(1), ms("b")), ma(mi(0), mi(255), mi(128)), ma(mf(1), mf(2)), ma(ms("a"), ms("b"), ms("a"), ms("c")), ma(ma(ms("a"), mi(1))), ma(mn(), mi(1)), mm(ms("a"), mi(1), ms("b"), ms("x")))
	for _, m := range vals {
		as = append(as, c19one(m, true))
		if m.K == 'a' || m.K == 'm' || m.K == 'x' {
			as = append(as, c19one(m, false))
		}
	}
	for _, m := range vals {
		as = append(as, c19arg{"arguments " + m.String(), vf.Arguments(build(m, true)), m})
	}
	as = append(as, c19arg{"arguments with a mutable array", vf.Arguments(vf.MutableValues(1, 2)), ma(mi(1), mi(2))}, c19arg{"no arguments", vf.Arguments(), nil}, c19arg{"three arguments", vf.Arguments(1, 2, 3), nil})
	two := func(xs []interface{}, ys []interface{}) {
		for _, x := range xs {
			for _, y := range ys {
				as = append(as, c19arg{fmt.Sprintf("arguments %#v, %#v", x, y), vf.Arguments(x, y), nil})
			}
		}
	}
	two([]interface{}{"0", "1", "11", "ff", "77", "3", "-5", 3, 4.5, true, "9223372036854775807", "zz", nil, "abc"}, []interface{}{2, 8, 10, 16, 3, 0, -1, "2", 10.0, "%d", "%x", "%s", "%B", "%b", "%u", "%r", "%5d", "%-7s|", "%q", "%v", "%", "", nil})
	two([]interface{}{"YQ==", "YWI=", "aGVsbG8=", "__8=", "//8=", "a", "\xff", "å", []byte{1, 2}, []int{1, 2}}, []interface{}{`%B`, `%b`, `%u`, `%s`, `%r`, 16})
	pt := &c18point{1, "a"}
	for i, v := range []dgo.Value{vf.Sensitive("a"), vf.Sensitive(1), vf.Sensitive(5), vf.Sensitive(vf.Values(1, 2)), vf.Sensitive(vf.Sensitive(1)), vf.Value(errors.New("x")), vf.Value(pt), vf.Value(*pt), vf.Value(make(chan int)), vf.Value(func() int { return 1 }),
		vf.Map(pt), vf.MutableMap(&c18point{2, "b"}), vf.MapEntry("a", 1), vf.MapEntry("a", "b"), typ.Integer, typ.String, tf.String(1, 2), tf.Integer(0, 3, true), typ.Any, typ.Integer.Type(), tf.Array(typ.Integer), vf.Value(1).Type(), vf.Value(math.NaN()), vf.Value(math.Inf(1)), vf.Value(time.Now()),
		vf.Value(reflect.ValueOf(map[string]int{"a": 1})), vf.MutableValues(vf.Value(pt)), vf.Values(typ.Integer), vf.Values(vf.Sensitive(1)), vf.Map("a", vf.Sensitive(1)), vf.Value(struct{}{}), vf.Value(&struct{ A int }{3})} {
		as = append(as, c19arg{fmt.Sprintf("value %d of the others (%T)", i, v), v, nil}, c19arg{fmt.Sprintf("arguments with value %d of the others (%T)", i, v), vf.ArgumentsFromArray(vf.MutableValues(v)), nil})
	}
	return as
}

func c19(t *T) {
	args := c19args()
	types := c18types()
	types = append(types, tWin('s', 3, 5), tWin('s', 2, 3), tWin('s', 4, 21), tRange(2, 255, false), tRange(-5, -1, false), tRange(10, 12, true), &TM{K: 'f', Fl: 0, Fh: 1, Excl: true}, &TM{K: 'f', Fl: -2, Fh: -0.5}, &TM{K: 'P', Text: "^[0-9]+$"}, &TM{K: 'P', Text: "e"},
		tWin('x', 1, 1), tWin('x', 3, 5), tOp('w', tStr), tOp('w', tRange(0, 3, false)), tOp('w', tWin('s', 1, 1)), tOp('w', tWin('a', 0, inf, tInt)), tWin('a', 1, 1, tWin('a', 2, 2, tAny)), tWin('m', 1, 1, tInt, tInt), tWin('m', 2, 5, tAny, tAny), tOp('t', tStr, tInt, tStr), tOp('w', tOp('w', tInt)))
	for i, m := range c18values() {
		if i%2 == 0 || m.K == 'i' || m.K == 'b' || m.K == 'x' || m.K == 't' || m.K == 'a' {
			types = append(types, tEx(m))
		}
	}
	t.Group("all")
	for _, tm := range types {
		tp := bType(tm)
		for _, a := range args {
			c19new(t, "all."+string(tm.K), tm, tp, a)
		}
	}
	// types that have no model
	t.Group("other")
	pt := &c18point{1, "a"}
	for i, tp := range []dgo.Type{typ.Number, typ.Error, typ.Native, typ.Function, typ.Type, typ.Integer.Type(), tf.Integer(0, 3, true).Type(), typ.String.Type(), typ.Any.Type(), typ.Integer.Type().Type(), tf.AnyOf(typ.Integer, typ.String).Type(), typ.DgoString, typ.Sensitive, typ.Boolean, typ.True, typ.False,
		typ.Array, typ.Map, typ.Tuple, typ.EmptyTuple, typ.Binary, typ.Time, typ.Regexp, tf.Enum("a", "b", "true"), tf.CiEnum("AB", "c"), tf.Array(typ.Type), tf.Array(typ.Sensitive), tf.Map(typ.String, typ.Sensitive), vf.Value(errors.New("x")).Type(), vf.Value(pt).Type(), vf.Map(pt).Type(), vf.MapEntry("a", 1).Type(),
		vf.Sensitive(1).Type(), vf.Sensitive("a").Type(), tf.ParseType("int[0..3]"[:3]), tf.ParseType(`"a"|"b"`), tf.ParseType(`1..5`), tf.ParseType("x={a:int,b?:x}"), tf.ParseType("l=[](int|l)"), tf.FromReflected(reflect.TypeOf(pt)), tf.FromReflected(reflect.TypeOf([]int{})), tf.FromReflected(reflect.TypeOf(map[string]int{})),
		vf.Value(func() int { return 1 }).Type(), tf.Not(typ.Nil), vf.Value(math.NaN()).Type(), tf.Enum(), tf.AnyOf(), tf.AllOf(), tf.OneOf()} {
		for _, a := range args {
			t.Check("other", func() string { return fmt.Sprintf("type %d of the others (%T) from %s", i, tp, a.text) }, func() string { return c19outcome(nil, tp, a) })
		}
	}
	t.Group("named")
	c19named(t)
	t.Group("random")
	for i, n := 0, t.N(30000); i < n && !t.Expired(); i++ {
		g := &GT{&G{r: t.rng, kinds: allKinds, max: 4}, allTypes + "swwifet"}
		tm := g.typ(2)
		tp := bType(tm)
		var a c19arg
		var m *M
		switch t.rng.Intn(4) {
		case 0:
			m = g.value(3)
		case 1, 2:
			if m = g.instance(tm, 3); m == nil {
				m = g.value(2)
			}
		default:
			if m = g.instance(tm, 3); m == nil {
				m = g.value(2)
			}
			m = g.mutate(m)
		}
		m2 := m
		for m2.K == 'w' && t.rng.Intn(2) == 0 {
			m2 = m2.A[0]
		}
		if m2 != m && t.rng.Intn(2) == 0 {
			m2 = g.mutate(m2)
		}
		a = c19one(m2, t.rng.Intn(2) == 0)
		switch t.rng.Intn(6) {
		case 0:
			a = c19arg{"arguments " + m2.String(), vf.Arguments(a.v), m2}
		case 1:
			a = c19arg{"the string " + a.text, vf.String(a.v.String()), nil}
		case 2:
			if m2.K == 'm' {
				// as a flat array
				fl := ma()
				for j, k := range m2.KS {
					fl.A = append(fl.A, k, m2.A[j])
				}
				a = c19arg{"the flat array of " + a.text, build(fl, t.rng.Intn(2) == 0), fl}
			}
		}
		c19new(t, "random."+string(tm.K), tm, tp, a)
	}
}

// c19named: constructors that give values of all sorts.
func c19named(t *T) {
	var mk, other dgo.NamedType
	mkName := func(s string) string { return "c19." + s }
	var made []string
	reg := func(name string, ctor dgo.Constructor, impl, iface reflect.Type, chk dgo.AssignableChecker) dgo.NamedType {
		made = append(made, mkName(name))
		return tf.NewNamed(mkName(name), ctor, nil, impl, iface, chk)
	}
	defer func() {
		for _, n := range made {
			tf.RemoveNamed(n)
		}
	}()
	ctor := func(a dgo.Value) dgo.Value {
		if as, ok := a.(dgo.Arguments); ok {
			as.AssertSize("c19", 1, 1)
			a = as.Get(0)
		}
		switch x := a.(type) {
		case dgo.Integer:
			return &c19val{mk, int(x.GoInt())}
		case dgo.Boolean:
			return &c19other{other, 1}
		}
		return a
	}
	implT, otherT := reflect.TypeOf(&c19val{}), reflect.TypeOf(&c19other{})
	ifT := reflect.TypeOf((*c19iface)(nil)).Elem()
	inRange := func(t dgo.NamedType, o dgo.Type) bool {
		if ot, ok := o.(dgo.ExactType); ok {
			if v, ok := ot.ExactValue().(*c19val); ok {
				return t.Parameters() == nil || t.Parameters().Get(0).Equals(v.n)
			}
		}
		return false
	}
	mk = reg("val", ctor, implT, nil, nil)
	other = reg("other", ctor, otherT, nil, nil)
	iface := reg("iface", ctor, implT, ifT, nil)
	checked := reg("checked", ctor, implT, ifT, inRange)
	bare := reg("bare", ctor, nil, nil, nil)
	none := reg("none", nil, implT, nil, nil)
	v3, v4 := &c19val{mk, 3}, &c19val{mk, 4}
	o1 := &c19other{other, 1}
	type nt struct {
		t    dgo.Type
		text string
		ok   func(v dgo.Value) bool
	}
	isVal := func(v dgo.Value) bool { _, ok := v.(*c19val); return ok }
	isOther := func(v dgo.Value) bool { _, ok := v.(*c19other); return ok }
	is3 := func(v dgo.Value) bool { x, ok := v.(*c19val); return ok && x.n == 3 }
	never := func(v dgo.Value) bool { return false }
	for _, n := range []nt{{mk, "a named type with an implementation", isVal}, {other, "another named type", isOther}, {iface, "a named type with an interface", isVal}, {checked, "a named type with a checker", isVal}, {tf.Parameterized(checked, vf.Values(3)), "a parameterized type with a checker", is3},
		{tf.Parameterized(mk, vf.Values(3)), "a parameterized type without a checker", isVal}, {bare, "a named type without go types", never}, {none, "a named type without constructor", never}, {tf.ExactNamed(mk, v3), "an exact named type", is3}, {tf.ExactNamed(checked, v3), "an exact named type with a checker", is3}, {tf.ExactNamed(other, o1), "an exact other type", isOther}} {
		for i, a := range []dgo.Value{vf.Value(3), vf.Value(4), vf.Value("x"), vf.True, v3, v4, o1, vf.Nil, vf.Values(1), vf.Arguments(3), vf.Arguments("x"), vf.Arguments(3, 4), vf.Arguments(), vf.ArgumentsFromArray(vf.MutableValues(v3)), vf.Arguments(v4), vf.Arguments(o1), vf.Map("a", 1), vf.Sensitive(3), typ.Integer, mk, vf.Value(&c18point{1, "a"}), vf.Value(errors.New("x"))} {
			t.Check("named", func() string { return fmt.Sprintf("%s from argument %d (%T)", n.text, i, a) }, func() string {
				if bad := c19outcome(nil, n.t, c19arg{v: a}); bad != "" {
					return bad
				}
				var r dgo.Value
				if _, p := Panics(func() { r = vf.New(n.t, a) }); !p && !n.ok(r) {
					return fmt.Sprintf("gives %s (%T)", r, r)
				}
				return ""
			})
		}
	}
}
