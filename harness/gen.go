package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// M is the model of a value: a plain tree, independent of the code under test.
//
//	n nil, b bool, i int, f float, s string, x binary (bytes in S), t time (index), r regexp (source in S),
//	a array (A), m map (KS, A in order), w sensitive (A[0])
type M struct {
	K  byte
	I  int64
	F  float64
	S  string
	B  bool
	A  []*M
	KS []*M
}

var times = []time.Time{
	time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC),
	time.Date(2020, 1, 2, 3, 4, 5, 1000, time.UTC),
	time.Date(1969, 12, 31, 23, 59, 59, 999999999, time.UTC),
	time.Date(2020, 1, 2, 5, 4, 5, 0, time.FixedZone("", 7200)),
	time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2100, 6, 1, 0, 0, 0, 0, time.UTC),
}

func mn() *M          { return &M{K: 'n'} }
func mb(b bool) *M    { return &M{K: 'b', B: b} }
func mi(i int64) *M   { return &M{K: 'i', I: i} }
func mf(f float64) *M { return &M{K: 'f', F: f} }
func ms(s string) *M  { return &M{K: 's', S: s} }
func mx(s string) *M  { return &M{K: 'x', S: s} }
func mt(i int) *M     { return &M{K: 't', I: int64(i)} }
func mr(s string) *M  { return &M{K: 'r', S: s} }
func ma(e ...*M) *M   { return &M{K: 'a', A: e} }
func mm(kvs ...*M) *M {
	m := &M{K: 'm'}
	for i := 0; i+1 < len(kvs); i += 2 {
		m.KS = append(m.KS, kvs[i])
		m.A = append(m.A, kvs[i+1])
	}
	return m
}

// eqM is equality: numbers of the same kind by value, sequences by elements, maps by key set and values.
func eqM(a, b *M) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case 'n':
		return true
	case 'b':
		return a.B == b.B
	case 'i':
		return a.I == b.I
	case 'f':
		return a.F == b.F
	case 't':
		return times[a.I].Equal(times[b.I])
	case 's', 'x', 'r', 'e':
		return a.S == b.S
	case 'm':
		if len(a.KS) != len(b.KS) {
			return false
		}
		for i, k := range a.KS {
			o := b.get(k)
			if o == nil || !eqM(a.A[i], o) {
				return false
			}
		}
		return true
	}
	if len(a.A) != len(b.A) {
		return false
	}
	for i := range a.A {
		if !eqM(a.A[i], b.A[i]) {
			return false
		}
	}
	return true
}

// sameM is equality including the order of map entries, recursively.
func sameM(a, b *M) bool { return a.String() == b.String() }

func (m *M) find(k *M) int {
	for i, o := range m.KS {
		if eqM(k, o) {
			return i
		}
	}
	return -1
}

func (m *M) get(k *M) *M {
	if i := m.find(k); i >= 0 {
		return m.A[i]
	}
	return nil
}

func (m *M) String() string {
	var b strings.Builder
	m.write(&b)
	return b.String()
}

func (m *M) write(b *strings.Builder) {
	switch m.K {
	case 'n':
		b.WriteString("nil")
	case 'b':
		fmt.Fprint(b, m.B)
	case 'i':
		fmt.Fprint(b, m.I)
	case 'f':
		fmt.Fprintf(b, "%vf", m.F)
	case 's':
		fmt.Fprintf(b, "%q", m.S)
	case 'x':
		fmt.Fprintf(b, "bin%x", m.S)
	case 't':
		b.WriteString(times[m.I].Format(time.RFC3339Nano))
	case 'r':
		fmt.Fprintf(b, "/%s/", m.S)
	case 'a':
		b.WriteString("[")
		for i, e := range m.A {
			if i > 0 {
				b.WriteString(" ")
			}
			e.write(b)
		}
		b.WriteString("]")
	case 'm':
		b.WriteString("{")
		for i, e := range m.A {
			if i > 0 {
				b.WriteString(" ")
			}
			m.KS[i].write(b)
			b.WriteString(":")
			e.write(b)
		}
		b.WriteString("}")
	case 'w':
		b.WriteString("sensitive(")
		m.A[0].write(b)
		b.WriteString(")")
	default:
		fmt.Fprintf(b, "?%c%s", m.K, m.S)
	}
}

// build makes a new value of the model; collections are mutable unless frozen.
func build(m *M, frozen bool) dgo.Value {
	switch m.K {
	case 'n':
		return vf.Nil
	case 'b':
		return vf.Boolean(m.B)
	case 'i':
		return vf.Integer(m.I)
	case 'f':
		return vf.Float(m.F)
	case 's':
		return vf.String(m.S)
	case 'x':
		return vf.Binary([]byte(m.S), frozen)
	case 't':
		return vf.Time(times[m.I])
	case 'r':
		return vf.Regexp(regexp.MustCompile(m.S))
	case 'w':
		return vf.Sensitive(build(m.A[0], frozen))
	case 'a':
		a := vf.ArrayWithCapacity(0)
		for _, e := range m.A {
			a.Add(build(e, frozen))
		}
		if frozen {
			a.Freeze()
		}
		return a
	case 'm':
		a := vf.MapWithCapacity(0)
		for i, e := range m.A {
			a.Put(build(m.KS[i], frozen), build(e, frozen))
		}
		if frozen {
			a.Freeze()
		}
		return a
	}
	panic("build " + string(m.K))
}

func bArr(m *M, frozen bool) dgo.Array { return build(m, frozen).(dgo.Array) }
func bMap(m *M, frozen bool) dgo.Map   { return build(m, frozen).(dgo.Map) }

// toM reads a value back into a model.
func toM(v dgo.Value) *M {
	switch v := v.(type) {
	case nil:
		return &M{K: 'N'}
	case dgo.Nil:
		return mn()
	case dgo.Boolean:
		return mb(v.GoBool())
	case dgo.Integer:
		return mi(v.GoInt())
	case dgo.Float:
		return mf(v.GoFloat())
	case dgo.Binary:
		b, err := base64.StdEncoding.Strict().DecodeString(v.Encode())
		if err != nil {
			return &M{K: 'E', S: err.Error()}
		}
		return mx(string(b))
	case dgo.Time:
		t := v.GoTime()
		for i, o := range times {
			if o.Equal(t) && o.Format(time.RFC3339Nano) == t.Format(time.RFC3339Nano) {
				return mt(i)
			}
		}
		for i, o := range times {
			if o.Equal(t) {
				return mt(i)
			}
		}
		return &M{K: 'E', S: t.String()}
	case dgo.Regexp:
		return mr(v.GoRegexp().String())
	case dgo.Sensitive:
		return &M{K: 'w', A: []*M{toM(v.Unwrap())}}
	case dgo.String:
		return ms(v.GoString())
	case dgo.Map:
		m := &M{K: 'm'}
		v.EachEntry(func(e dgo.MapEntry) {
			m.KS = append(m.KS, toM(e.Key()))
			m.A = append(m.A, toM(e.Value()))
		})
		return m
	case dgo.Array:
		m := &M{K: 'a'}
		for i, n := 0, v.Len(); i < n; i++ {
			m.A = append(m.A, toM(v.Get(i)))
		}
		return m
	case dgo.MapEntry:
		return &M{K: 'e', S: toM(v.Key()).String() + "=>" + toM(v.Value()).String()}
	case dgo.Type:
		return &M{K: 'T', S: v.String()}
	}
	return &M{K: '?', S: fmt.Sprintf("%T %v", v, v)}
}

// G generates models.
type G struct {
	r     *rand.Rand
	kinds string // the kinds of scalars that may appear
	depth int
	max   int // maximum length of a collection
}

var gInts = []int64{0, 1, 2, 3, -1, -2, 5, 10, 255, 256, 1 << 31, -(1 << 31), 1<<53 + 1, 1<<63 - 1, -1 << 63}
var gFloats = []float64{0, 1, 2, -1, 0.5, 1.5, -2.25, 1e10, 1e100, 3.14159, 1e-7, 123456789.125}
var gStrings = []string{"", "a", "b", "c", "ab", "abc", "A", "a b", "x\ny", "é", "日本", "\"q\"", "tab\t", "1", "zz", "key", "value", "__ref", "a long string, longer than thirty two characters"}
var gBins = []string{"", "a", "\x00", "\x00\xff\x10", "hello world"}
var gRxs = []string{"a", "^[a-z]+$", ".*", "a|b"}

func (g *G) scalar() *M {
	switch g.kinds[g.r.Intn(len(g.kinds))] {
	case 'n':
		return mn()
	case 'b':
		return mb(g.r.Intn(2) == 0)
	case 'i':
		if g.r.Intn(4) == 0 {
			return mi(int64(g.r.Intn(2000) - 1000))
		}
		return mi(gInts[g.r.Intn(len(gInts))])
	case 'j': // small ints
		return mi(int64(g.r.Intn(4)))
	case 'f':
		return mf(gFloats[g.r.Intn(len(gFloats))])
	case 'x':
		return mx(gBins[g.r.Intn(len(gBins))])
	case 't':
		return mt(g.r.Intn(len(times)))
	case 'r':
		return mr(gRxs[g.r.Intn(len(gRxs))])
	}
	if g.r.Intn(8) == 0 {
		return ms(fmt.Sprintf("s%d", g.r.Intn(100)))
	}
	return ms(gStrings[g.r.Intn(len(gStrings))])
}

func (g *G) value(d int) *M {
	if d <= 0 || g.r.Intn(3) > 0 {
		return g.scalar()
	}
	if g.r.Intn(2) == 0 {
		return g.array(d)
	}
	return g.mapM(d)
}

func (g *G) ln() int {
	if g.r.Intn(6) == 0 {
		return g.r.Intn(g.max*3 + 1)
	}
	return g.r.Intn(g.max + 1)
}

func (g *G) array(d int) *M {
	m := &M{K: 'a'}
	for i, n := 0, g.ln(); i < n; i++ {
		m.A = append(m.A, g.value(d-1))
	}
	return m
}

func (g *G) mapM(d int) *M {
	m := &M{K: 'm'}
	for i, n := 0, g.ln(); i < n; i++ {
		var k *M
		switch g.r.Intn(6) {
		case 0:
			k = g.value(d - 1)
		case 1, 2:
			k = g.scalar()
		default:
			k = ms(gStrings[g.r.Intn(len(gStrings))])
		}
		if m.find(k) < 0 {
			m.KS = append(m.KS, k)
			m.A = append(m.A, g.value(d-1))
		}
	}
	return m
}

// strMap only has string keys
func (g *G) strMap(d int) *M {
	m := &M{K: 'm'}
	for i, n := 0, g.ln(); i < n; i++ {
		k := ms(gStrings[g.r.Intn(len(gStrings))])
		if m.find(k) < 0 {
			m.KS = append(m.KS, k)
			m.A = append(m.A, g.value(d-1))
		}
	}
	return m
}

// clone copies a model, deeply.
func (m *M) clone() *M {
	c := *m
	c.A, c.KS = nil, nil
	for _, e := range m.A {
		c.A = append(c.A, e.clone())
	}
	for _, e := range m.KS {
		c.KS = append(c.KS, e.clone())
	}
	return &c
}

// mutate makes a slightly different model (most of the time not equal to m).
func (g *G) mutate(m *M) *M {
	c := m.clone()
	n := c
	for len(n.A) > 0 && g.r.Intn(3) > 0 {
		n = n.A[g.r.Intn(len(n.A))]
	}
	switch {
	case n.K == 'a' && g.r.Intn(2) == 0:
		n.A = append(n.A, g.scalar())
	case n.K == 'a' && len(n.A) > 1:
		i := g.r.Intn(len(n.A) - 1)
		n.A[i], n.A[i+1] = n.A[i+1], n.A[i]
	case n.K == 'm' && len(n.A) > 0:
		if g.r.Intn(2) == 0 {
			i := g.r.Intn(len(n.A))
			n.A = append(n.A[:i:i], n.A[i+1:]...)
			n.KS = append(n.KS[:i:i], n.KS[i+1:]...)
		} else {
			n.A[g.r.Intn(len(n.A))] = g.scalar()
		}
	default:
		*n = *g.scalar()
	}
	return c
}

// shuffle reorders the entries of all maps
func (g *G) shuffle(m *M) *M {
	c := m.clone()
	var walk func(m *M)
	walk = func(m *M) {
		if m.K == 'm' {
			g.r.Shuffle(len(m.A), func(i, j int) {
				m.A[i], m.A[j] = m.A[j], m.A[i]
				m.KS[i], m.KS[j] = m.KS[j], m.KS[i]
			})
		}
		for _, e := range m.A {
			walk(e)
		}
		for _, e := range m.KS {
			walk(e)
		}
	}
	walk(c)
	return c
}

const allKinds = "nbiijffssssxtr"
