package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C13"] = c13 }

// c13samples are values that tell types apart.
var c13samples = []*M{mn(), mb(true), mb(false), mi(0), mi(1), mi(2), mi(-3), mi(math.MaxInt64), mi(math.MinInt64), mf(0), mf(1), mf(1.5), mf(-1e21),
	ms(""), ms("a"), ms("b"), ms("A"), ms("abc"), ms("int"), ms("nil"), mx(""), mx("ab"), mt(0), mr("a"), ma(), ma(mi(1)), ma(ms("a"), mi(2)), ma(mn()), ma(ma(mi(1))),
	mm(), mm(ms("a"), mi(1)), mm(ms("a"), ms("b"), ms("c"), mn()), mm(mi(1), mi(2)), mm(mn(), mi(1))}

// c13type is a type together with the known defects that it runs into: an empty tuple or array (which is read as an
// empty map), a pattern with a backslash or control characters (which are escaped once more), or a sensitive of one
// literal value (which the parser refuses).
type c13type struct {
	dgo.Type
	odd string
	lit bool // a scalar literal
}

// c13odd is the odd of a c13type for the model.
func (t *TM) c13odd() string {
	if t.K == 't' && len(t.T) == 0 || t.K == 'e' && t.V.hasEmptyArray() {
		return ":empty"
	}
	if t.K == 'w' && (t.T[0].K == 'N' || t.T[0].K == 'e' && strings.IndexByte("amw", t.T[0].V.K) < 0) {
		return ":sensitive"
	}
	for _, o := range t.T {
		if odd := o.c13odd(); odd != "" {
			return odd
		}
	}
	for _, k := range t.Keys {
		if k.hasEmptyArray() {
			return ":empty"
		}
	}
	return ""
}

func (m *M) hasEmptyArray() bool {
	if m.K == 'a' && len(m.A) == 0 {
		return true
	}
	for _, e := range m.A {
		if e.hasEmptyArray() {
			return true
		}
	}
	for _, e := range m.KS {
		if e.hasEmptyArray() {
			return true
		}
	}
	return false
}

// c13trip tells what goes wrong when the type is printed, parsed and printed again.
func c13trip(tp dgo.Type, values []dgo.Value) string {
	s := tp.String()
	pt := typ.AsType(tf.ParseType(s))
	if !tp.Equals(pt) || !pt.Equals(tp) {
		return fmt.Sprintf("is printed as %s, which is parsed as something else: %s (%T)", cut(s, 200), cut(pt.String(), 200), pt)
	}
	if s2 := pt.String(); s2 != s {
		return fmt.Sprintf("is printed as %s, and as %s when that is parsed and printed again", cut(s, 200), cut(s2, 200))
	}
	if tp.HashCode() != pt.HashCode() {
		return fmt.Sprintf("is printed as %s; that is parsed as an equal type with another hash code", cut(s, 200))
	}
	for _, v := range values {
		if tp.Instance(v) != pt.Instance(v) {
			return fmt.Sprintf("is printed as %s; %v is an instance of it: %v; of the type parsed: %v", cut(s, 200), v, tp.Instance(v), pt.Instance(v))
		}
	}
	return ""
}

// c13text: the literal is read as the string that it was made from.
func c13text(t *T, key, s string) {
	t.Check(key, func() string { return strconv.QuoteToASCII(s) }, func() string {
		v := vf.String(s)
		for _, q := range []string{v.Type().String(), strconv.Quote(s), strconv.QuoteToASCII(s)} {
			if p := tf.Parse(q); p.String() != s {
				return fmt.Sprintf("the literal %s is read as %q", q, p.String())
			}
		}
		if b := "`" + s + "`"; !strings.ContainsAny(s, "`\x00") && strings.ToValidUTF8(s, "?") == s {
			if p := tf.Parse(b); p.String() != s {
				return fmt.Sprintf("the raw literal %q is read as %q", b, p.String())
			}
		}
		vs := []dgo.Value{v, vf.String(s + "x"), vf.String("x" + s), vf.String(strings.ToUpper(s))}
		tps := []dgo.Type{v.Type(), tf.Array(v.Type()), tf.Map(v.Type(), v.Type()), tf.StructMap(false, tf.StructMapEntry(s, v.Type(), true)),
			tf.Enum(s, "b", s+"c"), tf.Not(v.Type()), tf.Tuple(v.Type(), typ.Integer), vf.Values(s, 1).Type(), vf.Map(s, s).Type()}
		if strings.ToValidUTF8(s, "?") == s {
			tps = append(tps, tf.CiString(s), tf.Array(tf.CiString(s)))
		}
		for _, tp := range tps {
			if m := c13trip(tp, vs); m != "" {
				return m
			}
		}
		return ""
	})
}

// c13classes compares the classes of characters with their definition for all runes (the contracts rely on it).
func c13classes(t *T) {
	for r := rune(0); r <= 0x10ffff; r++ {
		d := '0' <= r && r <= '9'
		u, l := 'A' <= r && r <= 'Z', 'a' <= r && r <= 'z'
		x := d || 'A' <= r && r <= 'F' || 'a' <= r && r <= 'f'
		i := d || u || l || r == '$' || r == '_'
		if parser.IsDigit(r) != d || parser.IsHex(r) != x || parser.IsLetter(r) != (u || l) || parser.IsIdentifier(r) != i || parser.IsIdentifierStart(r) != (i && !d) {
			r := r
			t.Check("class", func() string { return fmt.Sprintf("%q", r) }, func() string { return "wrong class of characters" })
		}
	}
	t.Check("class", func() string { return "all runes" }, func() string { return "" })
}

func c13(t *T) {
	values := make([]dgo.Value, len(c13samples))
	for i, m := range c13samples {
		values[i] = build(m, true)
	}
	tripT := func(key string, tp dgo.Type) {
		t.Check(key, func() string { return fmt.Sprintf("%T %s", tp, tp) }, func() string { return c13trip(tp, values) })
	}
	tripC := func(key string, tp c13type) { tripT(key+tp.odd, tp.Type) }
	trip := func(key string, m *TM) {
		t.Check(key+m.c13odd(), m.String, func() string { return c13trip(bType(m), values) })
	}

	t.Group("classes")
	c13classes(t)

	t.Group("literals")
	for c := 0; c < 256; c++ {
		c13text(t, "literal", string([]byte{byte(c)}))
		c13text(t, "literal", "a"+string([]byte{byte(c)})+"1")
		c13text(t, "literal", string(rune(c))+"f")
	}
	special := []string{"\\", "\"", "'", "`", "/", "\n", "\r", "\t", "\a", "\b", "\v", "\f", "\x00", "\x1b", "\x7f", "\xff", "\xc3", "é", "\u2028", "\ufffd", "\U0001f600", "n", "x", "u", "0", "{", "}"}
	for _, a := range special {
		for _, b := range special {
			c13text(t, "literal", a+b)
			c13text(t, "literal", "x"+a+"y"+b+"41")
		}
	}
	for i, n := 0, t.N(400); i < n && !t.Expired(); i++ {
		b := make([]byte, t.rng.Intn(12))
		for j := range b {
			b[j] = byte(t.rng.Intn(256))
		}
		c13text(t, "literal", string(b))
		rs := make([]rune, t.rng.Intn(8))
		for j := range rs {
			rs[j] = rune(t.rng.Intn([]int{0x80, 0x800, 0x10000, 0x110000}[t.rng.Intn(4)]))
		}
		c13text(t, "literal", string(rs))
	}

	t.Group("numbers")
	ints := []int64{0, 1, -1, 2, 9, 10, 100, -10, 7, 8, 077, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, 1 << 53}
	floats := []float64{0, 1, -1, 1.5, -0.25, 10, 100, 1e20, 1e21, -1e21, 1e22, 123456789012345678, 1e100, 1e-7, 1.5e-10, -3e-5, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, 1e300}
	for _, i := range ints {
		tripT("int", vf.Integer(i).Type())
		for _, j := range ints {
			tripT("range", tf.Integer(i, j, true))
			if i != j {
				tripT("range", tf.Integer(i, j, false))
			}
		}
	}
	for _, i := range floats {
		tripT("float", vf.Float(i).Type())
		for _, j := range floats {
			for _, in := range []bool{true, false} {
				if i == j && !in {
					continue
				}
				f := tf.Float(i, j, in)
				tripT("range", f)
				tripT("range", tf.Array(f))
				tripT("range", tf.Tuple(f, f))
			}
		}
	}
	for i, n := 0, t.N(300); i < n && !t.Expired(); i++ {
		f := math.Float64frombits(t.rng.Uint64())
		g := math.Float64frombits(t.rng.Uint64())
		if math.IsNaN(f) || math.IsNaN(g) || math.IsInf(f, 0) || math.IsInf(g, 0) {
			continue
		}
		tripT("float", vf.Float(f).Type())
		tripT("range", tf.Float(f, g, true))
		tripT("range", tf.Tuple(tf.Float(f, g, false), typ.Integer))
		a, b := int64(t.rng.Uint64()), int64(t.rng.Uint64())>>uint(t.rng.Intn(64))
		tripT("int", vf.Integer(b).Type())
		tripT("range", tf.Integer(a, b, true))
		tripT("range", tf.Integer(b, a, false))
	}

	t.Group("sizes")
	sizes := []int64{0, 1, 2, 9, 10, 255, 256, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, 1 << 33, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}
	for i := range sizes {
		for j := i; j < len(sizes); j++ {
			lo, hi := sizes[i], sizes[j]
			tripT("size", tf.String(int(lo), int(hi)))
			tripT("size", tf.Binary(int(lo), int(hi)))
			tripT("size", tf.Array(typ.Integer, lo, hi))
			tripT("size", tf.Array(lo, hi))
			tripT("size", tf.Map(typ.String, typ.Any, lo, hi))
			tripT("size", tf.Map(typ.Any, tf.Array(typ.Nil, lo, hi), lo, hi))
		}
	}

	t.Group("basic")
	rx := func(s string) *regexp.Regexp { return regexp.MustCompile(s) }
	lits := map[dgo.Type]bool{}
	lit := func(m *M) dgo.Type {
		tp := build(m, true).Type()
		lits[tp] = true
		return tp
	}
	basic := []dgo.Type{typ.Any, lit(mn()), typ.Boolean, lit(mb(true)), lit(mb(false)), typ.Integer, typ.Float, typ.Number, typ.String, typ.DgoString, typ.Binary, typ.Regexp, typ.Time,
		typ.Array, typ.Tuple, typ.Map, typ.Function, typ.Sensitive, typ.Type, tf.Integer(1, 5, true), tf.Integer(1, 5, false), tf.Integer(math.MinInt64, 5, false),
		tf.Integer(math.MinInt64, 5, true), tf.Integer(5, math.MaxInt64, true), tf.Float(1, math.MaxFloat64, true), tf.Float(-math.MaxFloat64, 2, false), lit(mi(3)), lit(mi(-3)), lit(mf(2)), lit(mf(-1e30)),
		lit(ms("a")), lit(ms("int")), tf.String(1), tf.String(2, 4), tf.Pattern(rx("a.b")), tf.Pattern(rx("a/b")), tf.Pattern(rx("^[a-z]+$")), tf.CiString("Abc"),
		tf.Binary(1, 3), tf.Binary(2, math.MaxInt64), lit(mx("ab")), lit(mx("")), lit(mt(1)), lit(mr("a\"b")), lit(mr("\\d+")),
		tf.Enum("a", "b"), tf.Array(typ.Integer), tf.Array(typ.Integer, 1), tf.Array(typ.String, 1, 3), tf.Map(typ.String, typ.Integer), tf.Map(typ.String, typ.Integer, 2), tf.Map(typ.Integer, typ.Nil, 2, 4),
		tf.Tuple(typ.Integer, typ.String), tf.Tuple(typ.Nil), tf.VariadicTuple(typ.Integer), tf.VariadicTuple(typ.Integer, typ.String),
		tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true)), tf.StructMap(true, tf.StructMapEntry("a", typ.Integer, true), tf.StructMapEntry("b", typ.Nil, false)), tf.StructMap(true), tf.StructMap(false),
		tf.Sensitive(typ.Integer), vf.Sensitive("x").Type(), tf.Meta(typ.Integer), tf.Meta(tf.Integer(1, 2, true)), tf.Not(typ.Integer), tf.Not(tf.Not(typ.String)), tf.AnyOf(typ.Integer, typ.String), tf.OneOf(typ.Integer, typ.String),
		tf.AllOf(typ.Integer, tf.Not(vf.Integer(3).Type())), vf.Values(1, "a", nil, true).Type(), vf.Map("a", 1, "b", nil).Type(), vf.Map().Type(), vf.Map(1, "x").Type(),
		vf.Map(nil, 1, true, 2).Type(), vf.Map(1.5, "x").Type(), vf.Values(vf.Values(1), vf.Map("a", vf.Values(2))).Type(),
		tf.Function(tf.Tuple(typ.Integer), tf.Tuple(typ.String)), tf.Function(tf.Tuple(), tf.Tuple()), tf.Function(tf.VariadicTuple(typ.Integer), tf.Tuple(typ.String, typ.Nil)), tf.Function(tf.Tuple(), tf.VariadicTuple(typ.Any)),
		tf.Function(tf.Tuple(typ.Any, typ.Nil), tf.Tuple(tf.AnyOf(typ.Integer, typ.String)))}
	types := make([]c13type, 0, len(basic))
	for _, a := range basic {
		types = append(types, c13type{a, "", lits[a]})
	}
	for _, a := range []dgo.Type{tf.Tuple(), vf.Values().Type(), vf.Values(1, vf.Map("a", vf.Values(2))).Type(), vf.Map(1, vf.Values()).Type()} {
		types = append(types, c13type{a, ":empty", false})
	}
	for _, a := range types {
		tripC("basic", a)
	}

	t.Group("nesting")
	wrap := func(a, b c13type) (ts []c13type) {
		odd := a.odd
		if odd == "" {
			odd = b.odd
		}
		for _, tp := range []dgo.Type{tf.Map(a.Type, b.Type), tf.Map(a.Type, b.Type, 1), tf.Tuple(a.Type, b.Type), tf.VariadicTuple(a.Type, b.Type), tf.AnyOf(a.Type, b.Type), tf.AllOf(a.Type, b.Type), tf.OneOf(a.Type, b.Type),
			tf.StructMap(false, tf.StructMapEntry("a", a.Type, true), tf.StructMapEntry("b", b.Type, false)), tf.Function(tf.Tuple(a.Type, b.Type), tf.Tuple()), tf.Function(tf.VariadicTuple(a.Type), tf.Tuple(b.Type)),
			tf.Function(tf.Tuple(), tf.Tuple(a.Type, b.Type))} {
			ts = append(ts, c13type{tp, odd, false})
		}
		for _, tp := range []dgo.Type{tf.Array(a.Type), tf.Array(a.Type, 1, 2), tf.Not(a.Type), tf.Meta(a.Type), tf.VariadicTuple(a.Type), tf.Tuple(a.Type), tf.StructMap(true, tf.StructMapEntry("x", a.Type, false))} {
			ts = append(ts, c13type{tp, a.odd, false})
		}
		odd = a.odd
		if a.lit {
			odd = ":sensitive"
		}
		return append(ts, c13type{tf.Sensitive(a.Type), odd, false})
	}
	for i, a := range types {
		for _, tp := range wrap(a, types[(i*7+3)%len(types)]) {
			tripC("nested", tp)
		}
		for _, tp := range wrap(types[(i*5+1)%len(types)], a) {
			tripC("nested", tp)
			for _, tp2 := range wrap(tp, a) {
				tripC("nested", tp2)
			}
		}
	}

	t.Group("keys")
	for _, k := range []interface{}{"a", "int", "", "a b", "nil", "1", nil, true, false, 1, -5, 1.5, 1e21, vf.Binary([]byte("ab"), true), build(mt(2), true), build(mr("x"), true), vf.Values(1), vf.Values(nil), vf.Map("a", nil)} {
		for _, req := range []bool{true, false} {
			tripT("key", tf.StructMap(false, tf.StructMapEntry(k, typ.Integer, req)))
			tripT("key", tf.StructMap(true, tf.StructMapEntry(k, typ.Nil, req), tf.StructMapEntry("z", tf.Integer(1, 2, false), !req)))
		}
		tripT("key", vf.Map(k, k).Type())
	}

	t.Group("patterns")
	for c := 1; c < 0x150; c++ {
		s := string(rune(c))
		if _, err := regexp.Compile(s); err == nil {
			k := "pattern"
			if c < ' ' || c == '\\' {
				k = "pattern:escaped"
			}
			tripT(k, tf.Pattern(rx(s)))
			tripT("regexp", vf.Regexp(rx(s)).Type())
		}
	}
	for _, s := range []string{"", "a/b", "//", "[/]", "a|b", "(a)", "\"", "'", "`", "[\"x\"]", "{1}", "é+", "[^/]*/$", "#", " x "} {
		if _, err := regexp.Compile(s); err == nil {
			tripT("pattern", tf.Pattern(rx(s)))
			tripT("pattern", tf.Array(tf.AnyOf(tf.Pattern(rx(s)), typ.Integer)))
			tripT("regexp", vf.Regexp(rx(s)).Type())
		}
	}
	for _, s := range []string{`\d`, `\\`, `a\.b`, `\/`, "a\tb", `\x41`, `[\]]`} {
		tripT("pattern:escaped", tf.Pattern(rx(s)))
		tripT("regexp", vf.Regexp(rx(s)).Type())
	}

	t.Group("random")
	g := &GT{&G{t.rng, "nbifsxtram", 2, 3}, allTypes}
	for i, n := 0, t.N(4000); i < n && !t.Expired(); i++ {
		trip("random", g.typ(1+t.rng.Intn(3)))
	}
}
