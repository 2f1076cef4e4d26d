package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// TM is the model of a type, independent of the code under test.
//
//	A any, N nil, B bool, I int, i int range, F float, f float range, S string, s sized string, x binary,
//	R regexp, T time, P pattern, c case insensitive string, a array, t tuple, v variadic tuple, m map,
//	z struct, & | ^ ! combinators, e exact value, w sensitive
type TM struct {
	K        byte
	Lo, Hi   int64
	Fl, Fh   float64
	Excl     bool // an exclusive range
	Text     string
	T        []*TM // element; elements; key and value; operands; struct values
	Keys     []*M  // struct
	Opt      []bool
	Addl     bool
	V        *M
	nodomain bool
}

const inf = math.MaxInt64

var (
	tAny  = &TM{K: 'A'}
	tInt  = &TM{K: 'I'}
	tFlt  = &TM{K: 'F'}
	tStr  = &TM{K: 'S'}
	tBool = &TM{K: 'B'}
	tNil  = &TM{K: 'N'}
)

func tWin(k byte, lo, hi int64, t ...*TM) *TM { return &TM{K: k, Lo: lo, Hi: hi, T: t} }
func tOp(k byte, t ...*TM) *TM                { return &TM{K: k, T: t} }
func tEx(v *M) *TM                            { return &TM{K: 'e', V: v} }
func tRange(lo, hi int64, excl bool) *TM      { return &TM{K: 'i', Lo: lo, Hi: hi, Excl: excl} }

// window is the window that a constructor called with these bounds stands for.
func (t *TM) window() (lo, hi int64) {
	lo, hi = t.Lo, t.Hi
	if lo < 0 {
		lo = 0
	}
	if hi < 0 {
		hi = 0
	}
	if lo > hi {
		lo, hi = hi, lo
	}
	return
}

func (t *TM) within(n int) bool {
	lo, hi := t.window()
	return lo <= int64(n) && int64(n) <= hi
}

// member is the meaning of the type.
func member(t *TM, m *M) bool {
	switch t.K {
	case 'A':
		return true
	case 'N':
		return m.K == 'n'
	case 'B':
		return m.K == 'b'
	case 'I':
		return m.K == 'i'
	case 'F':
		return m.K == 'f'
	case 'S':
		return m.K == 's'
	case 'R':
		return m.K == 'r'
	case 'T':
		return m.K == 't'
	case 'i':
		lo, hi := t.Lo, t.Hi
		if lo > hi {
			lo, hi = hi, lo
		}
		return m.K == 'i' && lo <= m.I && (m.I < hi || m.I == hi && !t.Excl)
	case 'f':
		lo, hi := t.Fl, t.Fh
		if lo > hi {
			lo, hi = hi, lo
		}
		return m.K == 'f' && lo <= m.F && (m.F < hi || m.F == hi && !t.Excl)
	case 's':
		return m.K == 's' && t.within(len(m.S))
	case 'x':
		return m.K == 'x' && t.within(len(m.S))
	case 'P':
		return m.K == 's' && regexp.MustCompile(t.Text).MatchString(m.S)
	case 'c':
		return m.K == 's' && strings.EqualFold(t.Text, m.S)
	case 'a':
		if m.K != 'a' || !t.within(len(m.A)) {
			return false
		}
		for _, e := range m.A {
			if !member(t.T[0], e) {
				return false
			}
		}
		return true
	case 't':
		if m.K != 'a' || len(m.A) != len(t.T) {
			return false
		}
		for i, e := range m.A {
			if !member(t.T[i], e) {
				return false
			}
		}
		return true
	case 'v':
		n := len(t.T) - 1
		if m.K != 'a' || len(m.A) < n {
			return false
		}
		for i, e := range m.A {
			if i > n {
				i = n
			}
			if !member(t.T[i], e) {
				return false
			}
		}
		return true
	case 'm':
		if m.K != 'm' || !t.within(len(m.A)) {
			return false
		}
		for i, e := range m.A {
			if !member(t.T[0], m.KS[i]) || !member(t.T[1], e) {
				return false
			}
		}
		return true
	case 'z':
		if m.K != 'm' {
			return false
		}
		n := 0
		for i, k := range t.Keys {
			v := m.get(k)
			if v == nil {
				if !t.Opt[i] {
					return false
				}
				continue
			}
			n++
			if !member(t.T[i], v) {
				return false
			}
		}
		return t.Addl || n == len(m.A)
	case '!':
		return !member(t.T[0], m)
	case '&', '|', '^':
		n := 0
		for _, o := range t.T {
			if member(o, m) {
				n++
			}
		}
		return t.K == '&' && n == len(t.T) || t.K == '|' && n > 0 || t.K == '^' && n == 1
	case 'e':
		return eqM(t.V, m)
	case 'w':
		return m.K == 'w' && member(t.T[0], m.A[0])
	}
	panic("member " + string(t.K))
}

func bTypes(ts []*TM) []interface{} {
	a := make([]interface{}, len(ts))
	for i, t := range ts {
		a[i] = bType(t)
	}
	return a
}

// bType builds the type with the constructors of package tf.
func bType(t *TM) dgo.Type {
	switch t.K {
	case 'A':
		return typ.Any
	case 'N':
		return typ.Nil
	case 'B':
		return typ.Boolean
	case 'I':
		return typ.Integer
	case 'F':
		return typ.Float
	case 'S':
		return typ.String
	case 'R':
		return typ.Regexp
	case 'T':
		return typ.Time
	case 'i':
		return tf.Integer(t.Lo, t.Hi, !t.Excl)
	case 'f':
		return tf.Float(t.Fl, t.Fh, !t.Excl)
	case 's':
		if t.Hi == inf {
			return tf.String(t.Lo)
		}
		return tf.String(t.Lo, t.Hi)
	case 'x':
		if t.Hi == inf {
			return tf.Binary(t.Lo)
		}
		return tf.Binary(t.Lo, t.Hi)
	case 'P':
		return tf.Pattern(regexp.MustCompile(t.Text))
	case 'c':
		return tf.CiString(t.Text)
	case 'a':
		e := bType(t.T[0])
		switch {
		case t.T[0].K == 'A' && t.Hi == inf:
			return tf.Array(t.Lo)
		case t.T[0].K == 'A':
			return tf.Array(t.Lo, t.Hi)
		case t.Hi == inf && t.Lo == 0:
			return tf.Array(e)
		case t.Hi == inf:
			return tf.Array(e, t.Lo)
		}
		return tf.Array(e, t.Lo, t.Hi)
	case 't':
		return tf.Tuple(bTypes(t.T)...)
	case 'v':
		return tf.VariadicTuple(bTypes(t.T)...)
	case 'm':
		k, v := bType(t.T[0]), bType(t.T[1])
		anyT := t.T[0].K == 'A' && t.T[1].K == 'A'
		switch {
		case anyT && t.Hi == inf:
			return tf.Map(t.Lo)
		case anyT:
			return tf.Map(t.Lo, t.Hi)
		case t.Hi == inf && t.Lo == 0:
			return tf.Map(k, v)
		case t.Hi == inf:
			return tf.Map(k, v, t.Lo)
		}
		return tf.Map(k, v, t.Lo, t.Hi)
	case 'z':
		es := make([]dgo.StructMapEntry, len(t.Keys))
		for i, k := range t.Keys {
			es[i] = tf.StructMapEntry(build(k, true), bType(t.T[i]), !t.Opt[i])
		}
		return tf.StructMap(t.Addl, es...)
	case '!':
		return tf.Not(bType(t.T[0]))
	case '&':
		return tf.AllOf(bTypes(t.T)...)
	case '|':
		return tf.AnyOf(bTypes(t.T)...)
	case '^':
		return tf.OneOf(bTypes(t.T)...)
	case 'e':
		return build(t.V, true).Type()
	case 'w':
		return tf.Sensitive(bType(t.T[0]))
	}
	panic("bType " + string(t.K))
}

// source is the text of the type for the parser; ok is false when this type has none that this model can write.
func (t *TM) source() string {
	win := func() string {
		lo, hi := t.window()
		if hi == inf {
			return fmt.Sprintf("%d", lo)
		}
		return fmt.Sprintf("%d,%d", lo, hi)
	}
	par := func(t *TM) string {
		switch t.K {
		case '&', '|', '^', '!':
			return "(" + t.source() + ")"
		}
		return t.source()
	}
	list := func(ts []*TM, sep string) string {
		ss := make([]string, len(ts))
		for i, o := range ts {
			ss[i] = par(o)
		}
		return strings.Join(ss, sep)
	}
	rng := func(lo, hi string) string {
		if t.Excl {
			return lo + "..." + hi
		}
		return lo + ".." + hi
	}
	switch t.K {
	case 'A':
		return "any"
	case 'N':
		return "nil"
	case 'B':
		return "bool"
	case 'I':
		return "int"
	case 'F':
		return "float"
	case 'S':
		return "string"
	case 'R':
		return "regexp"
	case 'T':
		return "time"
	case 'i':
		return rng(strconv.FormatInt(t.Lo, 10), strconv.FormatInt(t.Hi, 10))
	case 'f':
		return rng(ftoa(t.Fl), ftoa(t.Fh))
	case 's':
		return "string[" + win() + "]"
	case 'x':
		return "binary[" + win() + "]"
	case 'P':
		return "/" + strings.ReplaceAll(t.Text, "/", `\/`) + "/"
	case 'c':
		return "~" + strconv.Quote(t.Text)
	case 'a':
		return "[" + win() + "]" + par(t.T[0])
	case 't':
		return "{" + list(t.T, ",") + "}"
	case 'v':
		n := len(t.T) - 1
		return "{" + list(t.T[:n], ",") + map[bool]string{true: ","}[n > 0] + "..." + par(t.T[n]) + "}"
	case 'm':
		return "map[" + par(t.T[0]) + "," + win() + "]" + par(t.T[1])
	case 'z':
		ss := make([]string, 0)
		for i, k := range t.Keys {
			ss = append(ss, k.literal()+map[bool]string{true: "?"}[t.Opt[i]]+":"+t.T[i].source())
		}
		if t.Addl {
			ss = append(ss, "...")
		}
		return "{" + strings.Join(ss, ",") + "}"
	case '!':
		return "!" + par(t.T[0])
	case '&', '|', '^':
		return list(t.T, string(t.K))
	case 'e':
		return t.V.literal()
	case 'w':
		return "sensitive[" + par(t.T[0]) + "]"
	}
	return "?" + string(t.K)
}

func (t *TM) String() string { return t.source() }

func ftoa(f float64) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

// literal is the text of an exact type.
func (m *M) literal() string {
	switch m.K {
	case 'i':
		return strconv.FormatInt(m.I, 10)
	case 'f':
		return ftoa(m.F)
	case 's':
		return strconv.Quote(m.S)
	case 'a', 'm':
		ss := make([]string, len(m.A))
		for i, e := range m.A {
			ss[i] = e.literal()
			if m.K == 'm' {
				ss[i] = m.KS[i].literal() + ":" + ss[i]
			}
		}
		return "{" + strings.Join(ss, ",") + "}"
	case 'x':
		return "binary:" + m.String()
	}
	return m.String()
}

// parseable tells if source is a text that the parser can be expected to understand.
func (t *TM) parseable() bool {
	if t.K == 'f' && (math.IsInf(t.Fl, 0) || math.Abs(t.Fl) > 1e15 || math.Abs(t.Fh) > 1e15) {
		return false
	}
	if t.K == 't' && len(t.T) == 0 || (t.K == '&' || t.K == '|' || t.K == '^') && len(t.T) < 2 {
		return false
	}
	if t.K == 'z' && len(t.T) == 0 || t.K == 'x' || t.K == 'T' || t.K == 'R' {
		return false
	}
	if t.K == 'e' && !t.V.parseable(true) {
		return false
	}
	for i, k := range t.Keys {
		if !k.parseable(false) || k.K != 's' && t.Opt[i] {
			return false
		}
	}
	if (t.K == 'a' || t.K == 'm') && t.T[len(t.T)-1].K == 'c' {
		return false
	}
	for _, o := range t.T {
		if !o.parseable() {
			return false
		}
	}
	return true
}

func (m *M) parseable(deep bool) bool {
	switch m.K {
	case 'i':
		return m.I != math.MinInt64
	case 'f':
		return math.Abs(m.F) < 1e15
	case 's':
		for _, c := range m.S {
			if c < ' ' || c > 126 {
				return false
			}
		}
		return true
	case 'b', 'n':
		return deep
	case 'a':
		if !deep || len(m.A) == 0 {
			return false
		}
	case 'm':
		if !deep || len(m.A) == 0 {
			return false
		}
		for _, k := range m.KS {
			if !k.parseable(false) {
				return false
			}
		}
	default:
		return false
	}
	for _, e := range m.A {
		if !e.parseable(deep) {
			return false
		}
	}
	return true
}

// uses tells if one of the kinds appears in the type.
func (t *TM) uses(kinds string) bool {
	if strings.IndexByte(kinds, t.K) >= 0 {
		return true
	}
	for _, o := range t.T {
		if o.uses(kinds) {
			return true
		}
	}
	return false
}

// GT generates types. kinds are those that may appear.
type GT struct {
	*G
	tk string
}

const simpleTypes = "ANBIFSRTiifssxPce"
const allTypes = simpleTypes + "aatvmzz&|^!"

func (g *GT) pick(s string) byte { return s[g.r.Intn(len(s))] }

func (g *GT) bound() int64 {
	switch g.r.Intn(8) {
	case 0:
		return inf
	case 1:
		return int64(g.r.Intn(9)) - 2
	}
	return int64(g.r.Intn(4))
}

func (g *GT) win(k byte, t ...*TM) *TM {
	w := tWin(k, g.bound(), g.bound(), t...)
	if w.Lo == inf {
		w.Lo = 0
	}
	return w
}

func (g *GT) types(n, d int) []*TM {
	ts := make([]*TM, n)
	for i := range ts {
		ts[i] = g.typ(d)
	}
	return ts
}

func (g *GT) typ(d int) *TM {
	k := g.pick(g.tk)
	for d <= 0 && strings.IndexByte(simpleTypes, k) < 0 {
		k = g.pick(g.tk)
	}
	d--
	switch k {
	case 'i':
		lo, hi := gInts[g.r.Intn(len(gInts))], gInts[g.r.Intn(len(gInts))]
		return tRange(lo, hi, lo != hi && g.r.Intn(2) == 0)
	case 'f':
		lo, hi := gFloats[g.r.Intn(len(gFloats))], gFloats[g.r.Intn(len(gFloats))]
		return &TM{K: 'f', Fl: lo, Fh: hi, Excl: lo != hi && g.r.Intn(2) == 0}
	case 's', 'x':
		return g.win(k)
	case 'P':
		return &TM{K: 'P', Text: []string{"a", "^a", "^[a-z]*$", "b$", "[0-9]", ".."}[g.r.Intn(6)]}
	case 'c':
		return &TM{K: 'c', Text: []string{"a", "ABC", "b", "Key", "1", ""}[g.r.Intn(6)]}
	case 'a':
		return g.win(k, g.typ(d))
	case 't':
		return tOp('t', g.types(g.r.Intn(4), d)...)
	case 'v':
		return tOp('v', g.types(1+g.r.Intn(3), d)...)
	case 'm':
		return g.win(k, g.typ(d), g.typ(d))
	case 'z':
		z := &TM{K: 'z', Addl: g.r.Intn(3) == 0}
		for i, n := 0, g.r.Intn(4); i < n; i++ {
			k := ms([]string{"a", "b", "c", "key"}[g.r.Intn(4)])
			if g.r.Intn(6) == 0 {
				k = mi(int64(g.r.Intn(3)))
			}
			dup := false
			for _, o := range z.Keys {
				dup = dup || eqM(o, k)
			}
			if dup {
				continue
			}
			z.Keys = append(z.Keys, k)
			z.Opt = append(z.Opt, g.r.Intn(3) == 0)
			z.T = append(z.T, g.typ(d))
		}
		return z
	case '&', '|', '^':
		return tOp(k, g.types(1+g.r.Intn(3), d)...)
	case '!', 'w':
		return tOp(k, g.typ(d))
	case 'e':
		return tEx(g.value(d))
	}
	return &TM{K: k}
}

// of makes a type that accepts the value (nearly always, combinators excepted).
func (g *GT) of(m *M, d int) *TM {
	if d <= 0 && (m.K == 'a' || m.K == 'm') {
		if m.K == 'a' {
			return tWin('a', 0, inf, tAny)
		}
		return tWin('m', 0, inf, tAny, tAny)
	}
	switch g.r.Intn(14) {
	case 0:
		return tAny
	case 1:
		return tEx(m)
	case 2:
		if strings.Contains(g.tk, "|") {
			ts := []*TM{g.of(m, d-1), g.typ(d - 1)}
			if g.r.Intn(2) == 0 {
				ts[0], ts[1] = ts[1], ts[0]
			}
			return tOp('|', ts...)
		}
	case 3:
		if strings.Contains(g.tk, "&") {
			return tOp('&', g.of(m, d-1), g.of(m, d-1))
		}
	case 4:
		if strings.Contains(g.tk, "^") {
			return tOp('^', g.of(m, d-1), g.typ(d-1), g.typ(d-1))
		}
	case 5:
		if strings.Contains(g.tk, "!") {
			return tOp('!', g.typ(d-1))
		}
	}
	n := int64(len(m.A))
	if m.K == 's' || m.K == 'x' {
		n = int64(len(m.S))
	}
	win := func(k byte, t ...*TM) *TM {
		lo, hi := n-int64(g.r.Intn(3)), n+int64(g.r.Intn(3))
		if g.r.Intn(4) == 0 {
			hi = inf
		}
		if g.r.Intn(4) == 0 {
			lo = 0
		}
		return tWin(k, lo, hi, t...)
	}
	switch m.K {
	case 'n':
		return tNil
	case 'b':
		return tBool
	case 'i':
		if g.r.Intn(3) > 0 {
			lo, hi := m.I-int64(g.r.Intn(3)), m.I+int64(g.r.Intn(3))
			if lo > m.I {
				lo = math.MinInt64
			}
			if hi < m.I {
				hi = math.MaxInt64
			}
			return tRange(lo, hi, g.r.Intn(3) == 0 && hi > m.I)
		}
		return tInt
	case 'f':
		if g.r.Intn(2) == 0 {
			lo, hi := m.F-float64(g.r.Intn(3)), m.F+float64(g.r.Intn(3))
			return &TM{K: 'f', Fl: lo, Fh: hi, Excl: hi > m.F && g.r.Intn(2) == 0}
		}
		return tFlt
	case 's':
		switch g.r.Intn(5) {
		case 0:
			return win('s')
		case 1:
			return &TM{K: 'c', Text: asciiUpper(m.S)}
		case 2:
			return &TM{K: 'P', Text: []string{"", "^", "$", "."}[g.r.Intn(4)]}
		}
		return tStr
	case 'x':
		return win('x')
	case 't':
		return &TM{K: 'T'}
	case 'r':
		return &TM{K: 'R'}
	case 'a':
		switch g.r.Intn(4) {
		case 0:
			return win('a', tAny)
		case 1:
			if n > 0 {
				e := g.of(m.A[g.r.Intn(len(m.A))], d-1)
				if allKindsSame(m.A) || g.r.Intn(2) == 0 {
					e = general(m.A)
				}
				return win('a', e)
			}
			return win('a', g.typ(d-1))
		}
		k := byte('t')
		if g.r.Intn(3) == 0 && n > 0 {
			k = 'v'
		}
		var ts []*TM
		for _, e := range m.A {
			ts = append(ts, g.of(e, d-1))
		}
		if k == 'v' && g.r.Intn(2) == 0 {
			// the last one accepts a number of the trailing elements
			i := g.r.Intn(len(m.A))
			ts = append(ts[:i:i], general(m.A[i:]))
		} else if g.r.Intn(6) == 0 {
			ts = append(ts, g.typ(d-1))
			k = 'v'
		}
		return &TM{K: k, T: ts}
	case 'm':
		switch g.r.Intn(4) {
		case 0:
			return win('m', tAny, tAny)
		case 1:
			if n > 0 {
				return win('m', general(m.KS), general(m.A))
			}
			return win('m', g.typ(d-1), g.typ(d-1))
		}
		z := &TM{K: 'z'}
		for i, k := range m.KS {
			if k.K != 's' && k.K != 'i' {
				z.Addl = true
				continue
			}
			if g.r.Intn(6) == 0 {
				z.Addl = true
				continue
			}
			z.Keys = append(z.Keys, k)
			z.Opt = append(z.Opt, g.r.Intn(3) == 0)
			z.T = append(z.T, g.of(m.A[i], d-1))
		}
		if g.r.Intn(3) == 0 {
			k := ms("extra")
			if m.find(k) < 0 {
				z.Keys = append(z.Keys, k)
				z.Opt = append(z.Opt, g.r.Intn(4) > 0)
				z.T = append(z.T, g.typ(d-1))
			}
		}
		return z
	case 'w':
		return tOp('w', g.of(m.A[0], d-1))
	}
	return tAny
}

func asciiUpper(s string) string {
	for i := range s {
		if s[i] >= 0x80 {
			return s
		}
	}
	return strings.ToUpper(s)
}

func allKindsSame(ms []*M) bool {
	for _, m := range ms {
		if m.K != ms[0].K {
			return false
		}
	}
	return true
}

// general makes a simple type that accepts all values.
func general(vs []*M) *TM {
	if len(vs) == 0 || !allKindsSame(vs) {
		return tAny
	}
	switch vs[0].K {
	case 'n':
		return tNil
	case 'b':
		return tBool
	case 'i':
		lo, hi := vs[0].I, vs[0].I
		for _, m := range vs {
			if m.I < lo {
				lo = m.I
			}
			if m.I > hi {
				hi = m.I
			}
		}
		return tRange(lo, hi, false)
	case 'f':
		return tFlt
	case 's':
		lo, hi := len(vs[0].S), len(vs[0].S)
		for _, m := range vs {
			if len(m.S) < lo {
				lo = len(m.S)
			}
			if len(m.S) > hi {
				hi = len(m.S)
			}
		}
		return tWin('s', int64(lo), int64(hi))
	case 'x':
		return tWin('x', 0, inf)
	case 'a':
		return tWin('a', 0, inf, tAny)
	case 'm':
		return tWin('m', 0, inf, tAny, tAny)
	}
	return tAny
}

// tweak makes a type that differs slightly from t.
func (g *GT) tweak(t *TM) *TM {
	c := *t
	c.T = append([]*TM(nil), t.T...)
	c.Opt = append([]bool(nil), t.Opt...)
	c.Keys = append([]*M(nil), t.Keys...)
	if len(c.T) > 0 && g.r.Intn(2) == 0 {
		i := g.r.Intn(len(c.T))
		c.T[i] = g.tweak(c.T[i])
		return &c
	}
	switch c.K {
	case 'i':
		if g.r.Intn(3) == 0 {
			c.Excl = !c.Excl
		} else if g.r.Intn(2) == 0 {
			c.Lo++
		} else {
			c.Hi--
		}
		c.Excl = c.Excl && c.Lo != c.Hi
	case 's', 'x', 'a', 'm':
		switch g.r.Intn(4) {
		case 0:
			c.Lo++
		case 1:
			c.Lo--
		case 2:
			if c.Hi != inf {
				c.Hi++
			} else {
				c.Hi = int64(g.r.Intn(5))
			}
		case 3:
			if c.Hi != inf {
				c.Hi--
			}
		}
	case 'f':
		c.Excl = !c.Excl && c.Fl != c.Fh
	case 'z':
		if g.r.Intn(2) == 0 || len(c.T) == 0 {
			c.Addl = !c.Addl
		} else {
			i := g.r.Intn(len(c.T))
			if g.r.Intn(2) == 0 {
				c.Opt[i] = !c.Opt[i]
			} else {
				c.T = append(c.T[:i:i], c.T[i+1:]...)
				c.Keys = append(c.Keys[:i:i], c.Keys[i+1:]...)
				c.Opt = append(c.Opt[:i:i], c.Opt[i+1:]...)
			}
		}
	case 't':
		if len(c.T) > 0 {
			if g.r.Intn(2) == 0 {
				c.K = 'v'
			} else {
				c.T = c.T[:len(c.T)-1]
			}
		}
	case 'v':
		c.K = 't'
	case '&', '|', '^':
		if g.r.Intn(2) == 0 && len(c.T) > 1 {
			c.T = c.T[:len(c.T)-1]
		} else {
			c.T = append(c.T, g.typ(0))
		}
	case 'e':
		if g.r.Intn(2) == 0 {
			return g.of(c.V, 2)
		}
		c.V = g.mutate(c.V)
	default:
		return g.typ(1)
	}
	return &c
}

// instance makes a value that is accepted by the type, most of the time.
func (g *GT) instance(t *TM, d int) *M {
	size := func() int {
		lo, hi := t.window()
		n := lo
		if hi > lo {
			s := hi - lo
			if s > 3 || s < 0 {
				s = 3
			}
			n += int64(g.r.Intn(int(s) + 1))
		}
		if g.r.Intn(8) == 0 {
			n += int64(g.r.Intn(3)) - 1
		}
		if n < 0 {
			n = 0
		}
		if n > 12 {
			n = 12
		}
		return int(n)
	}
	switch t.K {
	case 'A':
		return g.value(d)
	case 'N':
		return mn()
	case 'B':
		return mb(g.r.Intn(2) == 0)
	case 'I':
		return mi(gInts[g.r.Intn(len(gInts))])
	case 'F':
		return mf(gFloats[g.r.Intn(len(gFloats))])
	case 'S':
		return ms(gStrings[g.r.Intn(len(gStrings))])
	case 'R':
		return mr(gRxs[g.r.Intn(len(gRxs))])
	case 'T':
		return mt(g.r.Intn(len(times)))
	case 'i':
		switch g.r.Intn(4) {
		case 0:
			return mi(t.Lo)
		case 1:
			return mi(t.Hi)
		case 2:
			return mi(t.Hi - 1)
		}
		return mi(t.Lo + int64(g.r.Intn(4)))
	case 'f':
		switch g.r.Intn(3) {
		case 0:
			return mf(t.Fl)
		case 1:
			return mf(t.Fh)
		}
		return mf((t.Fl + t.Fh) / 2)
	case 's':
		return ms(strings.Repeat("b", size()))
	case 'x':
		return mx(strings.Repeat("b", size()))
	case 'P':
		return ms([]string{"a", "ab", "b", "7", "zzb"}[g.r.Intn(5)])
	case 'c':
		if g.r.Intn(2) == 0 {
			return ms(strings.ToLower(t.Text))
		}
		return ms(t.Text)
	case 'a':
		m := &M{K: 'a'}
		for i, n := 0, size(); i < n; i++ {
			m.A = append(m.A, g.instance(t.T[0], d-1))
		}
		return m
	case 't', 'v':
		m := &M{K: 'a'}
		for _, o := range t.T {
			m.A = append(m.A, g.instance(o, d-1))
		}
		if t.K == 'v' {
			switch g.r.Intn(3) {
			case 0:
				m.A = m.A[:len(m.A)-1]
			case 1:
				m.A = append(m.A, g.instance(t.T[len(t.T)-1], d-1))
			}
		}
		return m
	case 'm':
		m := &M{K: 'm'}
		for i, n := 0, size(); i < n; i++ {
			for try := 0; try < 4; try++ {
				k := g.instance(t.T[0], 0)
				if m.find(k) < 0 {
					m.KS = append(m.KS, k)
					m.A = append(m.A, g.instance(t.T[1], d-1))
					break
				}
			}
		}
		return m
	case 'z':
		m := &M{K: 'm'}
		for i, k := range t.Keys {
			if t.Opt[i] && g.r.Intn(2) == 0 {
				continue
			}
			m.KS = append(m.KS, k)
			m.A = append(m.A, g.instance(t.T[i], d-1))
		}
		if t.Addl && g.r.Intn(2) == 0 && m.find(ms("other")) < 0 {
			m.KS = append(m.KS, ms("other"))
			m.A = append(m.A, g.value(d-1))
		}
		return m
	case '&', '|', '^':
		return g.instance(t.T[g.r.Intn(len(t.T))], d)
	case '!':
		return g.value(d)
	case 'e':
		return t.V.clone()
	case 'w':
		return &M{K: 'w', A: []*M{g.instance(t.T[0], d-1)}}
	}
	return g.value(d)
}

// values are some that are accepted by the type, some nearly so, and some that are unrelated.
func (g *GT) values(t *TM, n int) []*M {
	var vs []*M
	for i := 0; i < n; i++ {
		switch g.r.Intn(4) {
		case 0:
			vs = append(vs, g.mutate(g.instance(t, 2)))
		case 1:
			vs = append(vs, g.value(1))
		default:
			vs = append(vs, g.instance(t, 2))
		}
	}
	return vs
}

// goForm is the plain go value that stands for the scalar, or nil.
func goForm(m *M, r int) interface{} {
	switch m.K {
	case 'b':
		return m.B
	case 'i':
		switch {
		case r%3 == 0 && m.I >= 0:
			return uint64(m.I)
		case r%3 == 1 && m.I == int64(int32(m.I)):
			return int32(m.I)
		}
		return m.I
	case 'f':
		return m.F
	case 's':
		return m.S
	case 'x':
		return []byte(m.S)
	}
	return nil
}

var _ = vf.Nil
