package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C15"] = c15 }

// a secret can be made in variants that have the same shape but differ in content
type secret struct {
	name string
	mk   func(i int) interface{}
	// marks are texts that disclose the secret
	marks func(i int) []string
}

func intMarks(n int64) []string {
	return []string{strconv.FormatInt(n, 10), strconv.FormatInt(n, 16), strings.ToUpper(strconv.FormatInt(n, 16)), strconv.FormatInt(n, 2), strconv.FormatInt(n, 8)}
}

func strMarks(s string) []string {
	var d, u []string
	for _, b := range []byte(s) {
		d = append(d, strconv.Itoa(int(b)))
		u = append(u, fmt.Sprintf("0x%x", b))
	}
	return []string{s, fmt.Sprintf("%x", s), fmt.Sprintf("%X", s), base64.StdEncoding.EncodeToString([]byte(s)), strings.Join(d, " "), strings.Join(d, ", "), strings.Join(u, ", "), strings.Join(u, ",")}
}

var (
	secInts   = []int64{918273645, 827364591}
	secStrs   = []string{"Sqzxvk", "Wkjhqy"}
	secFloats = []float64{9182.7364, 8273.9164}
	secTimes  = []time.Time{time.Date(1987, 3, 14, 15, 9, 26, 535, time.UTC), time.Date(1976, 5, 21, 18, 23, 41, 333, time.UTC)}
)

type secStruct struct {
	A int64
	B string
}

func noMarks(int) []string { return nil }

func secrets() []secret {
	im := func(i int) []string { return intMarks(secInts[i]) }
	sm := func(i int) []string { return strMarks(secStrs[i]) }
	both := func(i int) []string { return append(im(i), sm(i)...) }
	fm := func(i int) []string { return []string{strconv.FormatFloat(secFloats[i], 'f', -1, 64)} }
	tm := func(i int) []string {
		return []string{secTimes[i].Format(time.RFC3339Nano), secTimes[i].String(), strconv.FormatInt(secTimes[i].Unix(), 10)}
	}
	return []secret{
		{"int", func(i int) interface{} { return secInts[i] }, im},
		{"negative int", func(i int) interface{} { return -secInts[i] }, im},
		{"small int", func(i int) interface{} { return i + 3 }, noMarks},
		{"float", func(i int) interface{} { return secFloats[i] }, fm},
		{"bool", func(i int) interface{} { return i == 0 }, noMarks},
		{"string", func(i int) interface{} { return secStrs[i] }, sm},
		{"short string", func(i int) interface{} { return string(rune('p' + i)) }, noMarks},
		{"string of other length", func(i int) interface{} { return strings.Repeat(secStrs[0], 1+i*3) }, func(int) []string { return strMarks(secStrs[0]) }},
		{"binary", func(i int) interface{} { return []byte(secStrs[i]) }, sm},
		{"time", func(i int) interface{} { return secTimes[i] }, tm},
		{"regexp", func(i int) interface{} { return regexp.MustCompile(secStrs[i] + `\d+`) }, sm},
		{"error", func(i int) interface{} { return errors.New(secStrs[i]) }, sm},
		{"wrapping error", func(i int) interface{} { return fmt.Errorf("%s: %w", secStrs[i], errors.New("inner")) }, sm},
		{"error that wraps a secret", func(i int) interface{} { return fmt.Errorf("outer: %w", errors.New(secStrs[i])) }, sm},
		{"path error", func(i int) interface{} { return &os.PathError{Op: "open", Path: secStrs[i], Err: os.ErrNotExist} }, sm},
		{"zero or one", func(i int) interface{} { return i }, noMarks},
		{"smallest int", func(i int) interface{} { return []int64{math.MinInt64, 8}[i%2] }, noMarks},
		{"largest int", func(i int) interface{} { return []int64{math.MaxInt64, -1}[i%2] }, noMarks},
		{"float edge", func(i int) interface{} { return []float64{0, math.Inf(1)}[i%2] }, noMarks},
		{"smallest float", func(i int) interface{} { return []float64{-math.MaxFloat64, 1}[i%2] }, noMarks},
		{"empty string", func(i int) interface{} { return []string{"", "x"}[i%2] }, noMarks},
		{"empty binary", func(i int) interface{} { return [][]byte{{}, {1, 2}}[i%2] }, noMarks},
		{"zero time", func(i int) interface{} { return []time.Time{{}, secTimes[0]}[i%2] }, noMarks},
		{"array of one", func(i int) interface{} { return vf.Values(secStrs[i]) }, sm},
		{"array of equals", func(i int) interface{} { return vf.Values(secInts[i], secInts[i], secInts[i]) }, im},
		{"frozen map of one", func(i int) interface{} { return vf.Map("pin", secStrs[i]).FrozenCopy() }, sm},
		{"frozen map of ints", func(i int) interface{} { return vf.Map(1, secInts[i], 2, secInts[i]).FrozenCopy() }, im},
		{"map of equals", func(i int) interface{} { return vf.Map("a", secStrs[i], "b", secStrs[i], "c", secStrs[i]) }, sm},
		{"array of maps", func(i int) interface{} { return vf.Values(vf.Map("a", secStrs[i]), vf.Map("b", secInts[i])) }, both},
		{"array of errors", func(i int) interface{} { return vf.Values(errors.New(secStrs[i]), errors.New(secStrs[i]+"2")) }, sm},
		{"array of binaries", func(i int) interface{} { return vf.Values([]byte(secStrs[i]), []byte{1}) }, sm},
		{"array of times", func(i int) interface{} { return vf.Values(secTimes[i]) }, tm},
		{"array of regexps", func(i int) interface{} { return vf.Values(regexp.MustCompile(secStrs[i]), regexp.MustCompile("x")) }, sm},
		{"array of types", func(i int) interface{} { return vf.Values(vf.Values(secStrs[i]).Type(), vf.Values(secInts[i]).Type()) }, both},
		{"map of types", func(i int) interface{} { return vf.Map(vf.String(secStrs[i]).Type(), vf.Integer(secInts[i]).Type()) }, both},
		{"array", func(i int) interface{} { return []interface{}{secInts[i], secStrs[i]} }, both},
		{"mutable array", func(i int) interface{} { return vf.MutableValues(secStrs[i], secInts[i], secFloats[i]) }, both},
		{"array of arrays", func(i int) interface{} { return vf.Values(vf.Values(secStrs[i]), vf.Values(vf.Values(secInts[i]))) }, both},
		{"map value", func(i int) interface{} { return vf.Map("user", secStrs[i], "pin", secInts[i]) }, both},
		{"map key", func(i int) interface{} { return vf.Map(secStrs[i], "user", secStrs[i]+"2", "x") }, sm},
		{"mutable map", func(i int) interface{} { return vf.MutableMap(secStrs[i], vf.Values(secInts[i])) }, both},
		{"integer keys", func(i int) interface{} { return vf.Map(secInts[i], secStrs[i]) }, both},
		{"struct", func(i int) interface{} { return vf.MutableMap(&secStruct{A: secInts[i], B: secStrs[i]}) }, both},
		{"map entry", func(i int) interface{} {
			var e dgo.MapEntry
			vf.Map(secStrs[i], secInts[i]).EachEntry(func(x dgo.MapEntry) { e = x })
			return e
		}, both},
		{"arguments", func(i int) interface{} { return vf.Arguments([]interface{}{secStrs[i], secInts[i]}) }, both},
		{"sensitive", func(i int) interface{} { return vf.Sensitive(secStrs[i]) }, sm},
		{"array with a sensitive", func(i int) interface{} { return vf.Values(vf.Sensitive(secInts[i]), secStrs[i]) }, both},
		{"exact type", func(i int) interface{} { return vf.String(secStrs[i]).Type() }, sm},
		{"exact integer type", func(i int) interface{} { return vf.Integer(secInts[i]).Type() }, im},
		{"range type", func(i int) interface{} { return tf.Integer(secInts[i]-5, secInts[i], true) }, im},
		{"pattern type", func(i int) interface{} { return tf.Pattern(regexp.MustCompile(secStrs[i])) }, sm},
		{"enum type", func(i int) interface{} { return tf.Enum(secStrs[i], "b") }, sm},
		{"type in an array", func(i int) interface{} { return vf.Values(vf.String(secStrs[i]).Type()) }, sm},
		{"type of an array", func(i int) interface{} { return vf.Values(secStrs[i], secInts[i]).Type() }, both},
		{"type of a map", func(i int) interface{} { return vf.Map(secStrs[i], secInts[i]).Type() }, both},
		{"struct type", func(i int) interface{} { return tf.StructMap(false, tf.StructMapEntry(secStrs[i], typ.String, true)) }, sm},
		{"type of a type", func(i int) interface{} { return vf.String(secStrs[i]).Type().Type() }, sm},
		{"native struct", func(i int) interface{} { return vf.Value(secStruct{A: secInts[i], B: secStrs[i]}) }, both},
		{"native pointer", func(i int) interface{} { return vf.Value(&secStruct{A: secInts[i], B: secStrs[i]}) }, both},
		{"go slice", func(i int) interface{} { return []string{secStrs[i], "x"} }, sm},
		{"go map", func(i int) interface{} { return map[string]int64{secStrs[i]: secInts[i]} }, both},
	}
}

// a place for a value
type place struct {
	name string
	put  func(s interface{}) interface{}
}

type secHolder struct {
	V dgo.Value
	N int
}

var places = []place{
	{"itself", func(s interface{}) interface{} { return s }},
	{"[s]", func(s interface{}) interface{} { return vf.Values(s) }},
	{"mutable [1 s x s]", func(s interface{}) interface{} { return vf.MutableValues(1, s, "x", s) }},
	{"[[s]]", func(s interface{}) interface{} { return vf.Values(vf.Values(s), 2) }},
	{"{a:s}", func(s interface{}) interface{} { return vf.Map("a", s) }},
	{"mutable {a:s b:[s]}", func(s interface{}) interface{} { return vf.MutableMap("a", s, "b", vf.Values(s)) }},
	{"{s:1}", func(s interface{}) interface{} { return vf.Map(s, 1, "b", 2) }},
	{"entry", func(s interface{}) interface{} {
		var e dgo.MapEntry
		vf.Map("k", s).EachEntry(func(x dgo.MapEntry) { e = x })
		return e
	}},
	{"arguments", func(s interface{}) interface{} { return vf.Arguments([]interface{}{s, 2}) }},
	{"sensitive of it", func(s interface{}) interface{} { return vf.Sensitive(s) }},
	{"sensitive of [s]", func(s interface{}) interface{} { return vf.Sensitive(vf.Values(s)) }},
	{"frozen copy", func(s interface{}) interface{} {
		if strings.Contains(fmt.Sprintf("%T", s.(dgo.Sensitive).Unwrap()), "native") {
			return s
		}
		return s.(dgo.Freezable).FrozenCopy()
	}},
	{"thawed copy", func(s interface{}) interface{} { return vf.Values(s).ThawedCopy() }},
	{"struct map", func(s interface{}) interface{} { return vf.MutableMap(&secHolder{V: s.(dgo.Value), N: 1}) }},
	{"go slice", func(s interface{}) interface{} { return []dgo.Value{s.(dgo.Value)} }},
	{"go map", func(s interface{}) interface{} { return map[string]dgo.Value{"a": s.(dgo.Value)} }},
	{"go interfaces", func(s interface{}) interface{} { return []interface{}{1, s} }},
	{"go struct", func(s interface{}) interface{} { return secHolder{s.(dgo.Value), 1} }},
	{"native", func(s interface{}) interface{} { return vf.Value(secHolder{s.(dgo.Value), 1}) }},
}

var (
	hexAddr = regexp.MustCompile(`(0x)?[cC]0[0-9a-fA-F]{8}|0x[0-9a-fA-F]{5,}`)
	decAddr = regexp.MustCompile(`[0-9]{11,}`)
)

// anonAddr takes go pointers out of a text
func anonAddr(s string) string {
	return decAddr.ReplaceAllString(hexAddr.ReplaceAllString(s, "PTR"), "PTR")
}

var strVerbs = []string{"%v", "%s", "%+v", "%q", "%x", "%X", "%10.3v", "%-60s|", "%#q", "% x", "%#x", "%+q", "%.2s", "%60s"}
var otherVerbs = []string{"%d", "%b", "%o", "%c", "%U", "%e", "%g", "%t", "%f", "%#v", "%+d", "%08d", "%T", "%#o", "%#d", "%G", "%E", "%F", "%O", "%z", "%#U", "%x"}

// texts returns all texts that can be made of x. The texts of the first result only depend on x, those of the second
// also have addresses.
func texts(x interface{}, bare bool) (pure, other []string) {
	add := func(what string, f func() string) {
		var s string
		if msg, p := Panics(func() { s = f() }); p {
			s = "panic: " + msg
		}
		pure = append(pure, what+": "+anonAddr(s))
	}
	_, isVal := x.(dgo.Value)
	for _, f := range strVerbs {
		f := f
		if isVal {
			add("Sprintf "+f, func() string { return fmt.Sprintf(f, x) })
		} else {
			other = append(other, "Sprintf "+f+": "+fmt.Sprintf(f, x))
		}
	}
	for _, f := range otherVerbs {
		if bare {
			f := f
			add("Sprintf "+f, func() string { return fmt.Sprintf(f, x) })
		} else {
			other = append(other, "Sprintf "+f+": "+fmt.Sprintf(f, x))
		}
	}
	if !isVal {
		return
	}
	v := x.(dgo.Value)
	add("Sprint", func() string { return fmt.Sprint(v, " ", v) })
	add("Errorf", func() string { return fmt.Errorf("error: %v", v).Error() })
	add("String", v.String)
	if s, ok := v.(dgo.Indentable); ok {
		add("ToString", func() string { return util.ToString(s) })
		add("ToIndentedString", func() string { return util.ToIndentedString(s) })
	}
	add("AppendValue", func() string {
		i := util.NewIndenter("  ")
		i.AppendValue(v)
		return i.String()
	})
	if g, ok := v.(interface{ GoString() string }); ok {
		add("GoString", g.GoString)
	}
	t := v.Type()
	add("Type", t.String)
	add("%v of Type", func() string { return fmt.Sprintf("%v %s %+v", t, t, t) })
	add("Generic", func() string { return typ.Generic(t).String() })
	add("Type of Type", func() string { return t.Type().String() })
	add("array of Type", func() string { return tf.Array(t).String() })
	add("not Type", func() string { return tf.Not(t).String() })
	add("any of Type", func() string { return tf.AnyOf(typ.String, t).String() })
	add("tuple", func() string { return tf.Tuple(t, t).String() })
	add("struct type", func() string { return tf.StructMap(false, tf.StructMapEntry("a", t, true)).String() })
	add("map type", func() string { return tf.Map(typ.String, t).String() })
	add("exact type value", func() string {
		if et, ok := t.(dgo.ExactType); ok {
			return et.ExactValue().String()
		}
		return ""
	})
	// what others say about it
	for _, nt := range []dgo.Type{typ.Integer, typ.Float, typ.Boolean, typ.String, typ.Binary, typ.Time, typ.Regexp, typ.Array, typ.Map, typ.Sensitive,
		tf.Sensitive(tf.Integer(-77, -76, true)), tf.Sensitive(tf.String(99, 99)), tf.Sensitive(typ.Nil), tf.Array(typ.Nil, 3, 4), tf.Tuple(typ.Nil), tf.Map(typ.Nil, typ.Nil), tf.Integer(0, 1, true), tf.String(1, 2), tf.Enum("a"), vf.Integer(7).Type(),
		vf.String("z").Type(), vf.Sensitive(vf.Values(nil)).Type()} {
		nt := nt
		add("New "+nt.String(), func() string { return vf.New(nt, v).String() })
		add("New with arguments "+nt.String(), func() string { return vf.New(nt, vf.Arguments([]interface{}{v})).String() })
		add("IllegalAssignment "+nt.String(), func() string { return tf.IllegalAssignment(nt, v).String() })
		add("Arg "+nt.String(), func() string { return vf.Arguments([]interface{}{v, 1}).Arg("f", 0, nt).String() })
	}
	add("Arg one", func() string { return vf.Arguments([]interface{}{v}).Arg("f", 0, typ.Nil).String() })
	st := tf.StructMap(false, tf.StructMapEntry("a", typ.Nil, true))
	add("validate", func() string {
		s := ""
		for _, e := range st.(dgo.StructMapType).Validate(nil, vf.Map("a", v, "b", v)) {
			s += e.Error() + "\n"
		}
		return s
	})
	add("validate verbose", func() string {
		i := util.NewIndenter("  ")
		st.(dgo.StructMapType).ValidateVerbose(vf.Map("a", v, "b", v), i)
		return i.String()
	})
	add("validate it", func() string {
		s := ""
		for _, e := range st.(dgo.StructMapType).Validate(nil, v) {
			s += e.Error() + "\n"
		}
		return s
	})
	add("IllegalMapKey", func() string { return tf.IllegalMapKey(st, v).String() })
	add("stream", func() string {
		o := streamer.DefaultOptions()
		o.RichData = false
		c := streamer.DataCollector()
		streamer.New(nil, o).Stream(v, c)
		return c.Value().String()
	})
	add("call", func() string {
		f := vf.Value(func(s string, i int) string { return s }).(dgo.Function)
		return fmt.Sprint(f.Call(vf.Arguments([]interface{}{v, v})))
	})
	add("loader", func() string { return fmt.Sprint(vf.Map(v), vf.MutableMap(v, v, v)) })
	if a, ok := v.(dgo.Array); ok {
		add("To a map", func() string { return a.ToMap().String() })
	}
	var (
		i  int
		s  string
		bs []byte
		f  float64
		b  bool
		ss []string
		is []int
		ms map[string]string
		tm time.Time
		sh secHolder
		in interface{}
	)
	for k, p := range []interface{}{&i, &s, &bs, &f, &b, &ss, &is, &ms, &tm, &sh, &in} {
		p := p
		add(fmt.Sprintf("FromValue %d", k), func() string {
			vf.FromValue(v, p)
			return fmt.Sprint(i, s, bs, f, b, ss, is, ms, tm, sh, in)
		})
	}
	return
}

func c15(t *T) {
	secs := secrets()
	one := func(key string, sec secret, put func(s interface{}) interface{}, bare bool) {
		t.Check(key, func() string { return "a sensitive of a secret (" + sec.name + ") at: " + key }, func() string {
			var xs [2]interface{}
			for i := range xs {
				i := i
				if msg, p := Panics(func() { xs[i] = put(vf.Sensitive(sec.mk(i))) }); p {
					if msg == "native value cannot be frozen" {
						return ""
					}
					return "unexpected panic: " + msg
				}
			}
			p0, o0 := texts(xs[0], bare)
			p1, o1 := texts(xs[1], bare)
			for k, a := range p0 {
				if a != p1[k] {
					return fmt.Sprintf("the text depends on the secret: %s / %s", cut(a, 200), cut(p1[k], 200))
				}
			}
			for i, ts := range [][]string{append(p0, o0...), append(p1, o1...)} {
				for _, m := range sec.marks(i) {
					for _, s := range ts {
						if strings.Contains(s, m) {
							return fmt.Sprintf("the text discloses the secret %s: %s", m, cut(s, 300))
						}
					}
				}
			}
			return ""
		})
	}
	t.Group("every kind of secret at every place")
	for _, sec := range secs {
		for _, pl := range places {
			one(sec.name+" in "+pl.name, sec, pl.put, pl.name == "itself" || pl.name == "sensitive of it" || pl.name == "sensitive of [s]" || pl.name == "frozen copy")
		}
	}
	t.Group("nested places")
	for n := t.N(500); n > 0 && !t.Expired(); n-- {
		sec := secs[t.rng.Intn(len(secs))]
		seed := t.rng.Int63()
		d := 2 + t.rng.Intn(3)
		name := ""
		r := rand.New(rand.NewSource(seed))
		var pls []place
		for i := 0; i < d; i++ {
			pl := places[r.Intn(len(places)-6)]
			pls = append(pls, pl)
			name = pl.name + " / " + name
		}
		one(fmt.Sprintf("%s in %s", sec.name, name), sec, func(s interface{}) interface{} {
			for _, pl := range pls {
				if _, ok := s.(dgo.Sensitive); !ok && pl.name == "frozen copy" {
					continue
				}
				s = pl.put(s)
			}
			return s
		}, false)
	}
	t.Group("random secrets")
	g := &G{r: t.rng, kinds: "bifsxt", depth: 3, max: 3}
	for n := t.N(600); n > 0 && !t.Expired(); n-- {
		a := g.value(t.rng.Intn(3))
		b := reshape(g, a)
		pl := places[t.rng.Intn(len(places)-6)]
		m := []*M{a, b}
		one("random "+a.String()+" "+b.String()+" in "+pl.name, secret{"random", func(i int) interface{} { return build(m[i], t.rng.Intn(2) == 0) }, noMarks}, pl.put, false)
	}
	t.Group("unwrap")
	for n := t.N(4000); n > 0 && !t.Expired(); n-- {
		m := g.value(t.rng.Intn(3))
		frozen := t.rng.Intn(2) == 0
		t.Check(fmt.Sprintf("unwrap %s %t", m, frozen), func() string { return fmt.Sprintf("sensitive of %s (frozen %t)", m, frozen) }, func() string {
			v := build(m, frozen)
			s := vf.Sensitive(v)
			if s.Unwrap() != v {
				return fmt.Sprintf("Unwrap is %s, another value", s.Unwrap())
			}
			if got := toM(s.Unwrap()); !sameM(got, m) {
				return fmt.Sprintf("Unwrap is %s", got)
			}
			for _, c := range []dgo.Value{s.FrozenCopy(), s.ThawedCopy(), vf.Values(s).FrozenCopy().(dgo.Array).Get(0), vf.Map("a", s).Get("a"), vf.Sensitive(s).Unwrap(), vf.New(typ.Sensitive, s)} {
				cs, ok := c.(dgo.Sensitive)
				if !ok {
					return fmt.Sprintf("a copy is a %T", c)
				}
				if got := toM(cs.Unwrap()); !sameM(got, m) {
					return fmt.Sprintf("Unwrap of a copy is %s", got)
				}
			}
			if got := toM(vf.New(typ.Sensitive, v).(dgo.Sensitive).Unwrap()); !sameM(got, m) {
				return fmt.Sprintf("Unwrap of a New sensitive is %s", got)
			}
			return ""
		})
	}
	for i, sec := range secs {
		sec := sec
		t.Check(fmt.Sprint("unwrap ", sec.name, i), func() string { return "sensitive of " + sec.name }, func() string {
			v := vf.Value(sec.mk(0))
			if vf.Sensitive(v).Unwrap() != v {
				return "Unwrap is another value"
			}
			return ""
		})
	}
}

// reshape returns a value of the same shape with other scalars
func reshape(g *G, m *M) *M {
	c := m.clone()
	var f func(m *M)
	f = func(m *M) {
		switch m.K {
		case 'a', 'm':
			seen := map[string]bool{}
			for i, k := range m.KS {
				f(m.KS[i])
				for seen[m.KS[i].String()] {
					switch k.K {
					case 's', 'x':
						m.KS[i].S += "q"
					case 'i':
						m.KS[i].I++
					default:
						m.KS[i] = mi(int64(1000 + i))
					}
				}
				seen[m.KS[i].String()] = true
			}
			for _, e := range m.A {
				f(e)
			}
		default:
			og := *g
			og.kinds = string(m.K)
			*m = *og.scalar()
		}
	}
	f(c)
	return c
}
