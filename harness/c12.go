package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C12"] = c12 }

type (
	nInt   int8
	nUint  uint64
	nStr   string
	nFloat float32
	nBool  bool
	nBytes []byte
	nInts  []int16
	nMap   map[string]uint8
	nTime  time.Time
)

var (
	typAny   = reflect.TypeOf((*interface{})(nil)).Elem()
	typValue = reflect.TypeOf((*dgo.Value)(nil)).Elem()
	typError = reflect.TypeOf((*error)(nil)).Elem()
	typTime  = reflect.TypeOf(time.Time{})
	typRx    = reflect.TypeOf((*regexp.Regexp)(nil))
)

var goBasic = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf([]byte(nil)),
	typTime, typRx, typAny, reflect.TypeOf([]string(nil)), reflect.TypeOf([]int(nil)),
	reflect.TypeOf(nInt(0)), reflect.TypeOf(nUint(0)), reflect.TypeOf(nStr("")), reflect.TypeOf(nFloat(0)), reflect.TypeOf(nBool(true)),
	reflect.TypeOf(nBytes(nil)), reflect.TypeOf(nInts(nil)), reflect.TypeOf(nMap(nil)), typError, reflect.TypeOf(nTime{}), typValue,
}

var goKeys = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(true), reflect.TypeOf(uint8(0)), reflect.TypeOf(int64(0)),
}

func goType(r *rand.Rand, d int) reflect.Type {
	if d > 0 {
		switch r.Intn(8) {
		case 0, 1:
			return reflect.SliceOf(goType(r, d-1))
		case 2, 3:
			return reflect.MapOf(goKeys[r.Intn(len(goKeys))], goType(r, d-1))
		case 4:
			return reflect.PtrTo(goType(r, d-1))
		case 5:
			n := 1 + r.Intn(3)
			fs := make([]reflect.StructField, n)
			for i := range fs {
				fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: goType(r, d-1)}
			}
			return reflect.StructOf(fs)
		}
	}
	return goBasic[r.Intn(len(goBasic))]
}

func edgeInt(r *rand.Rand, bits int) int64 {
	max := int64(1)<<uint(bits-1) - 1
	switch r.Intn(8) {
	case 0:
		return max
	case 1:
		return -max - 1
	case 2:
		return max - int64(r.Intn(3))
	case 3:
		return -max + int64(r.Intn(3))
	case 4:
		return 1 << uint(r.Intn(bits-1))
	case 5:
		return int64(r.Uint64()) >> uint(64-bits)
	}
	return int64(r.Intn(5)) - 2
}

func edgeUint(r *rand.Rand, bits int) uint64 {
	max := ^uint64(0) >> uint(64-bits)
	switch r.Intn(8) {
	case 0:
		return max
	case 1:
		return max - uint64(r.Intn(3))
	case 2:
		return max>>1 + uint64(r.Intn(3)) - 1
	case 3:
		return 1 << uint(r.Intn(bits))
	case 4:
		return r.Uint64() >> uint(64-bits)
	}
	return uint64(r.Intn(4))
}

var edgeFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1.0 / 3, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32,
	math.MaxFloat32 * 1.5, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 2, 9.3e18, -9223372036854775808, 9223372036854775807, 1e300, 3.14, 255, 256, 2147483648}

func edgeString(r *rand.Rand) string {
	return []string{"", "a", "å\u0000ß", "\xff\xfe", "1", "-7", "true", "null", "two\nlines", strings.Repeat("x", 70), "\U0001F600"}[r.Intn(11)]
}

var edgeTimes = []time.Time{time.Unix(0, 0).UTC(), {}, time.Date(2019, 10, 6, 16, 15, 0, 123456789, time.FixedZone("x", 3600)), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(1, 2, 3, 4, 5, 6, 7, time.UTC)}

// fill sets rv to a random value of its type
func fill(r *rand.Rand, rv reflect.Value, d int) {
	switch rv.Type() {
	case typTime:
		rv.Set(reflect.ValueOf(edgeTimes[r.Intn(len(edgeTimes))]))
		return
	case reflect.TypeOf(nTime{}):
		rv.Set(reflect.ValueOf(nTime(edgeTimes[r.Intn(len(edgeTimes))])))
		return
	case typRx:
		rv.Set(reflect.ValueOf(regexp.MustCompile([]string{"a", `\d+`, "", "[x-z]"}[r.Intn(4)])))
		return
	case typError:
		if r.Intn(4) > 0 {
			rv.Set(reflect.ValueOf(errors.New(edgeString(r))))
		}
		return
	case typValue:
		rv.Set(reflect.ValueOf(build((&G{r: r, kinds: "nbifsxtam", depth: 2, max: 3}).value(2), true)))
		return
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(edgeInt(r, rv.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := edgeUint(r, rv.Type().Bits())
		if n > math.MaxInt64 && r.Intn(3) > 0 {
			n >>= 1
		}
		rv.SetUint(n)
	case reflect.Float32:
		rv.SetFloat(float64(float32(edgeFloats[r.Intn(len(edgeFloats))])))
	case reflect.Float64:
		rv.SetFloat(edgeFloats[r.Intn(len(edgeFloats))])
	case reflect.String:
		rv.SetString(edgeString(r))
	case reflect.Bool:
		rv.SetBool(r.Intn(2) == 0)
	case reflect.Slice:
		if r.Intn(6) == 0 {
			return
		}
		n := r.Intn(4)
		s := reflect.MakeSlice(rv.Type(), n, n+r.Intn(2))
		for i := 0; i < n; i++ {
			fill(r, s.Index(i), d-1)
		}
		rv.Set(s)
	case reflect.Map:
		if r.Intn(8) == 0 {
			return
		}
		m := reflect.MakeMap(rv.Type())
		for i := r.Intn(4); i > 0; i-- {
			k := reflect.New(rv.Type().Key()).Elem()
			fill(r, k, d-1)
			e := reflect.New(rv.Type().Elem()).Elem()
			fill(r, e, d-1)
			if f := k.Kind(); f == reflect.Float64 && math.IsNaN(k.Float()) {
				continue
			}
			m.SetMapIndex(k, e)
		}
		rv.Set(m)
	case reflect.Ptr:
		if r.Intn(6) > 0 {
			p := reflect.New(rv.Type().Elem())
			fill(r, p.Elem(), d-1)
			rv.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			fill(r, rv.Field(i), d-1)
		}
	case reflect.Interface:
		if r.Intn(6) > 0 {
			e := reflect.New(goType(r, d-1)).Elem()
			fill(r, e, d-1)
			if e.Kind() == reflect.Interface && e.IsNil() {
				return
			}
			rv.Set(e)
		}
	}
}

// tooBig tells whether there is an unsigned integer in g, that dgo looks at, which is no int64
func tooBig(g reflect.Value) bool {
	if !g.IsValid() {
		return false
	}
	if g.CanInterface() {
		if _, ok := g.Interface().(dgo.Value); ok {
			return false
		}
	}
	switch g.Kind() {
	case reflect.Uint, reflect.Uint64:
		return g.Type().PkgPath() == "" && g.Uint() > math.MaxInt64
	case reflect.Slice:
		for i := 0; i < g.Len(); i++ {
			if tooBig(g.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range g.MapKeys() {
			if tooBig(k) || tooBig(g.MapIndex(k)) {
				return true
			}
		}
	case reflect.Ptr, reflect.Interface:
		if g.Type() == typRx || g.Kind() == reflect.Ptr && g.Elem().Kind() == reflect.Struct {
			return false
		}
		return tooBig(g.Elem())
	}
	return false
}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

func sameGo(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return sameFloat(a.Float(), b.Float())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameGo(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !sameGo(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.Pointer() == b.Pointer() {
			return true
		}
		return sameGo(a.Elem(), b.Elem())
	case reflect.Interface:
		if v, ok := a.Interface().(dgo.Value); ok {
			w, ok := b.Interface().(dgo.Value)
			return ok && (v == w || v.Equals(w) || v.String() == w.String())
		}
		return sameGo(a.Elem(), b.Elem())
	case reflect.Struct:
		if a.Type() == typTime {
			return a.Interface() == b.Interface()
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" && !sameGo(a.Field(i), b.Field(i)) {
				return false
			}
		}
		if a.NumField() > 0 && a.Type().Field(0).PkgPath != "" && a.CanInterface() {
			return reflect.DeepEqual(a.Interface(), b.Interface())
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// stands tells what makes v something else than what the go value g stands for
func stands(g reflect.Value, v dgo.Value) string {
	for g.IsValid() && g.Kind() == reflect.Interface {
		g = g.Elem()
	}
	differs := func() string {
		if !g.IsValid() {
			return fmt.Sprintf("nil became %s", describe(v))
		}
		return fmt.Sprintf("the %s %s and the value %s differ", g.Type(), cut(fmt.Sprintf("%#v", g.Interface()), 100), describe(v))
	}
	if !g.IsValid() {
		if v != vf.Nil {
			return differs()
		}
		return ""
	}
	if gv, ok := g.Interface().(dgo.Value); ok && gv != nil {
		if gv != v && !gv.Equals(v) && gv.String() != v.String() {
			return differs()
		}
		return ""
	}
	if v == vf.Nil {
		for (g.Kind() == reflect.Ptr || g.Kind() == reflect.Interface) && !g.IsNil() {
			g = g.Elem()
		}
		if !g.IsZero() {
			return differs()
		}
		return ""
	}
	if n, ok := v.(dgo.Native); ok {
		e := g
		x := reflect.ValueOf(n.GoValue())
		for (e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface) && e.Type() != x.Type() {
			e = e.Elem()
		}
		if !sameGo(e, x) {
			return differs()
		}
		return ""
	}
	switch x := g.Interface().(type) {
	case time.Time:
		t, ok := v.(dgo.Time)
		if !ok || !(t.GoTime() == x) {
			return differs()
		}
		return ""
	case *regexp.Regexp:
		t, ok := v.(dgo.Regexp)
		if !ok || x == nil || t.GoRegexp().String() != x.String() {
			return differs()
		}
		return ""
	case error:
		t, ok := v.(error)
		if !ok || t.Error() != x.Error() {
			return differs()
		}
		return ""
	}
	switch g.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, ok := v.(dgo.Integer)
		if !ok || n.GoInt() != g.Int() || n.ToInt() != g.Int() || n.String() != strconv.FormatInt(g.Int(), 10) {
			return differs()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, ok := v.(dgo.Integer)
		if !ok || n.GoInt() < 0 || uint64(n.GoInt()) != g.Uint() || n.ToInt() != n.GoInt() {
			return differs()
		}
	case reflect.Float32:
		n, ok := v.(dgo.Float)
		if !ok || !sameFloat(float64(float32(n.GoFloat())), g.Float()) || math.IsInf(g.Float(), 0) != math.IsInf(n.GoFloat(), 0) {
			return differs()
		}
	case reflect.Float64:
		n, ok := v.(dgo.Float)
		if !ok || !sameFloat(n.GoFloat(), g.Float()) || !sameFloat(n.ToFloat(), g.Float()) {
			return differs()
		}
	case reflect.String:
		s, ok := v.(dgo.String)
		if !ok || s.GoString() != g.String() || s.String() != g.String() {
			return differs()
		}
	case reflect.Bool:
		b, ok := v.(dgo.Boolean)
		if !ok || b.GoBool() != g.Bool() {
			return differs()
		}
	case reflect.Slice:
		if b, ok := v.(dgo.Binary); ok {
			if g.Type().Elem().Kind() != reflect.Uint8 || !bytes.Equal(g.Bytes(), b.GoBytes()) {
				return differs()
			}
			return ""
		}
		a, ok := v.(dgo.Array)
		if !ok || a.Len() != g.Len() {
			return differs()
		}
		for i := 0; i < a.Len(); i++ {
			if msg := stands(g.Index(i), a.Get(i)); msg != "" {
				return fmt.Sprintf("element %d: %s", i, msg)
			}
		}
	case reflect.Map:
		m, ok := v.(dgo.Map)
		if !ok || m.Len() != g.Len() {
			return differs()
		}
		left := map[int]bool{}
		gk := g.MapKeys()
		for i := range gk {
			left[i] = true
		}
		msg := ""
		m.EachEntry(func(e dgo.MapEntry) {
			for i, k := range gk {
				if left[i] && stands(k, e.Key()) == "" && stands(g.MapIndex(k), e.Value()) == "" {
					delete(left, i)
					if x := m.Get(e.Key()); msg == "" && k.Kind() != reflect.Interface && !same12(x, e.Value()) {
						msg = fmt.Sprintf("Get(%s) gives %s", e.Key(), describe(x))
					}
					return
				}
			}
			msg = fmt.Sprintf("no go entry for %s", e)
		})
		return msg
	case reflect.Ptr:
		if g.IsNil() {
			return differs()
		}
		return stands(g.Elem(), v)
	case reflect.Struct:
		s, ok := v.(dgo.Map)
		if !ok {
			return differs()
		}
		for i := 0; i < g.NumField(); i++ {
			n := g.Type().Field(i).Name
			if e := s.Get(n); e == nil {
				return "no entry for field " + n
			} else if msg := stands(g.Field(i), e); msg != "" {
				return "field " + n + ": " + msg
			}
		}
	default:
		return differs()
	}
	return ""
}

func same12(a, b dgo.Value) bool {
	return a == b || a != nil && b != nil && (a.Equals(b) || a.String() == b.String())
}

func describe(v dgo.Value) string {
	if v == nil {
		return "nothing"
	}
	return cut(fmt.Sprintf("%T %s", v, v), 100)
}

// hasNaN: values that do not equal themselves and what cannot be compared are left out of the comparison of entries
func goText(rv reflect.Value) string {
	return cut(fmt.Sprintf("%s %#v", rv.Type(), rv.Interface()), 160)
}

func c12(t *T) {
	t.Group("numbers to and from go values")
	var nums []reflect.Value
	for _, bt := range goBasic {
		switch bt.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			for _, n := range []int64{0, 1, -1, math.MaxInt8, math.MaxInt8 + 1, math.MinInt8, math.MinInt8 - 1, math.MaxUint8, math.MaxUint8 + 1, math.MaxInt16, math.MaxInt16 + 1, math.MinInt16, math.MinInt16 - 1,
				math.MaxUint16, math.MaxUint16 + 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1<<53 + 1} {
				rv := reflect.New(bt).Elem()
				if !rv.OverflowInt(n) {
					rv.SetInt(n)
					nums = append(nums, rv)
				}
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			for _, n := range []uint64{0, 1, math.MaxInt8, math.MaxInt8 + 1, math.MaxUint8, math.MaxUint8 + 1, math.MaxInt16, math.MaxInt16 + 1, math.MaxUint16, math.MaxUint16 + 1, math.MaxInt32, math.MaxInt32 + 1,
				math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1, math.MaxUint64} {
				rv := reflect.New(bt).Elem()
				if !rv.OverflowUint(n) {
					rv.SetUint(n)
					nums = append(nums, rv)
				}
			}
		case reflect.Float32, reflect.Float64:
			for _, f := range edgeFloats {
				rv := reflect.New(bt).Elem()
				rv.SetFloat(f)
				nums = append(nums, rv)
			}
		}
	}
	var dests []reflect.Type
	for _, bt := range goBasic {
		dests = append(dests, bt, reflect.PtrTo(bt), reflect.PtrTo(reflect.PtrTo(bt)), reflect.SliceOf(bt))
	}
	ways := []struct {
		name string
		in   func(x reflect.Value) interface{}
		out  func(v dgo.Value) dgo.Value
	}{
		{"itself", func(x reflect.Value) interface{} { return x.Interface() }, func(v dgo.Value) dgo.Value { return v }},
		{"reflected", func(x reflect.Value) interface{} { return x }, func(v dgo.Value) dgo.Value { return v }},
		{"pointer", func(x reflect.Value) interface{} { p := reflect.New(x.Type()); p.Elem().Set(x); return p.Interface() }, func(v dgo.Value) dgo.Value { return v }},
		{"slice", func(x reflect.Value) interface{} {
			s := reflect.MakeSlice(reflect.SliceOf(x.Type()), 2, 2)
			s.Index(1).Set(x)
			return s.Interface()
		}, func(v dgo.Value) dgo.Value {
			if b, ok := v.(dgo.Binary); ok {
				return vf.Value(b.GoBytes()[1])
			}
			return v.(dgo.Array).Get(1)
		}},
		{"any slice", func(x reflect.Value) interface{} { return []interface{}{x.Interface()} }, func(v dgo.Value) dgo.Value { return v.(dgo.Array).Get(0) }},
		{"map value", func(x reflect.Value) interface{} {
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), x.Type()))
			m.SetMapIndex(reflect.ValueOf("k"), x)
			return m.Interface()
		}, func(v dgo.Value) dgo.Value { return v.(dgo.Map).Get("k") }},
		{"map key", func(x reflect.Value) interface{} {
			m := reflect.MakeMap(reflect.MapOf(x.Type(), reflect.TypeOf("")))
			m.SetMapIndex(x, reflect.ValueOf("k"))
			return m.Interface()
		}, func(v dgo.Value) dgo.Value { return v.(dgo.Map).Keys().Get(0) }},
		{"array element", func(x reflect.Value) interface{} { return vf.Values(x.Interface()) }, func(v dgo.Value) dgo.Value { return v.(dgo.Array).Get(0) }},
		{"mutable array", func(x reflect.Value) interface{} { a := vf.MutableValues(); a.Add(x.Interface()); return a }, func(v dgo.Value) dgo.Value { return v.(dgo.Array).Get(0) }},
		{"mutable map", func(x reflect.Value) interface{} { a := vf.MutableMap(); a.Put("k", x.Interface()); return a }, func(v dgo.Value) dgo.Value { return v.(dgo.Map).Get("k") }},
	}
	for _, g := range nums {
		for _, w := range ways {
			g, w := g, w
			t.Check("number "+w.name, func() string { return goText(g) + " by " + w.name }, func() string {
				var v dgo.Value
				msg, panicked := Panics(func() { v = w.out(vf.Value(w.in(g))) })
				if big := tooBig(g); big != panicked && (big || !strings.Contains(msg, "native value cannot be")) {
					return fmt.Sprintf("too big is %v but panic is %v %s %s", big, panicked, msg, describe(v))
				}
				if panicked {
					return ""
				}
				return stands(g, v)
			})
		}
		if tooBig(g) {
			continue
		}
		v := vf.Value(g.Interface())
		for _, dt := range dests {
			g, dt := g, dt
			t.Check("number into "+dt.Kind().String(), func() string { return goText(g) + " into " + dt.String() }, func() string { return into(v, dt) })
		}
	}
	t.Group("go values of any type")
	for i, n := 0, t.N(6000); i < n && !t.Expired(); i++ {
		gt := goType(t.rng, 1+t.rng.Intn(3))
		rv := reflect.New(gt).Elem()
		fill(t.rng, rv, 3)
		t.Check("go value", func() string { return goText(rv) }, func() string {
			var v dgo.Value
			msg, panicked := Panics(func() {
				if rv.Kind() == reflect.Interface && t.rng.Intn(2) == 0 {
					v = vf.Value(rv.Interface())
				} else {
					v = vf.Value(rv)
				}
			})
			if big := tooBig(rv); big != panicked && (big || !strings.Contains(msg, "native value cannot be")) {
				return fmt.Sprintf("too big is %v but panic is %v %s %s", big, panicked, msg, describe(v))
			}
			if panicked {
				return ""
			}
			if msg := stands(rv, v); msg != "" {
				return msg
			}
			if dupKeys(v) {
				return ""
			}
			if msg := into(v, gt); msg != "" {
				return "back: " + msg
			}
			if msg := into(v, typAny); msg != "" {
				return "to interface{}: " + msg
			}
			return ""
		})
	}
	t.Group("dgo values into go types")
	kinds := "nbifsxtam"
	for i, n := 0, t.N(8000); i < n && !t.Expired(); i++ {
		g := &G{r: t.rng, kinds: kinds, depth: 3, max: 4}
		m := g.value(t.rng.Intn(4))
		v := build(m, t.rng.Intn(2) == 0)
		dt := goType(t.rng, 1+t.rng.Intn(2))
		switch t.rng.Intn(4) {
		case 0:
			dt = typAny
		case 1:
			dt = fitting(t.rng, v)
		}
		t.Check("into", func() string { return describe(v) + " into " + dt.String() }, func() string { return into(v, dt) })
	}
	t.Group("fields of structs")
	for i, n := 0, t.N(2500); i < n && !t.Expired(); i++ {
		fs := make([]reflect.StructField, 1+t.rng.Intn(3))
		for i := range fs {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: goType(t.rng, t.rng.Intn(2))}
		}
		p := reflect.New(reflect.StructOf(fs))
		for i := range fs {
			for fill(t.rng, p.Elem().Field(i), 1); tooBig(p.Elem().Field(i)); {
				fill(t.rng, p.Elem().Field(i), 1)
			}
		}
		before := goText(p.Elem())
		f := t.rng.Intn(len(fs))
		x := reflect.New(goType(t.rng, t.rng.Intn(2))).Elem()
		if t.rng.Intn(2) == 0 {
			x = reflect.New(fs[f].Type).Elem()
		}
		fill(t.rng, x, 1)
		t.Check("struct", func() string { return before + " put " + goText(x) + " in " + fs[f].Name }, func() string {
			m := vf.MutableMap(p.Interface())
			if msg, bad := Panics(func() { m.Values() }); bad && strings.Contains(msg, "native value cannot be") {
				return ""
			}
			if msg := stands(p.Elem(), m); msg != "" {
				return msg
			}
			old := make([]reflect.Value, len(fs))
			for i := range fs {
				old[i] = reflect.New(fs[i].Type).Elem()
				old[i].Set(p.Elem().Field(i))
			}
			var v dgo.Value
			if _, bad := Panics(func() { v = vf.Value(x) }); bad {
				return ""
			}
			_, panicked := Panics(func() { m.Put(fs[f].Name, v) })
			for i := range fs {
				now := p.Elem().Field(i)
				if i == f && !panicked {
					if msg := stands(now, v); msg != "" {
						return "after put: " + msg
					}
				} else if !sameGo(old[i], now) {
					return fmt.Sprintf("field %s was changed", fs[i].Name)
				}
			}
			return ""
		})
	}
	t.Group("typed constructors")
	for i, n := 0, t.N(1500); i < n && !t.Expired(); i++ {
		r := t.rng
		iv, fv, sv, bv, tv := edgeInt(r, 64), edgeFloats[r.Intn(len(edgeFloats))], edgeString(r), r.Intn(2) == 0, edgeTimes[r.Intn(len(edgeTimes))]
		ss := []string{sv, edgeString(r)}[:r.Intn(3)]
		is := []int{int(iv), int(edgeInt(r, 64))}[:r.Intn(3)]
		t.Check("constructors", func() string { return fmt.Sprint(iv, fv, strconv.Quote(sv), bv, tv, ss, is) }, func() string {
			for _, c := range []struct {
				g interface{}
				v dgo.Value
			}{
				{iv, vf.Integer(iv)}, {fv, vf.Float(fv)}, {sv, vf.String(sv)}, {bv, vf.Boolean(bv)}, {tv, vf.Time(tv)}, {[]byte(sv), vf.Binary([]byte(sv), true)}, {[]byte(sv), vf.Binary([]byte(sv), false)},
				{ss, vf.Strings(ss...)}, {is, vf.Integers(is...)}, {ss, vf.Array(ss)}, {is, vf.Array(is)},
				{[]interface{}{iv, sv, fv, bv}, vf.Values(iv, sv, fv, bv)}, {[]interface{}{iv, sv, fv, bv}, vf.MutableValues(iv, sv, fv, bv)}, {[]interface{}{iv, sv}, vf.Arguments(iv, sv)},
				{map[string]int64{sv: iv}, vf.Map(sv, iv)}, {map[string]int64{sv: iv}, vf.Map(map[string]int64{sv: iv})}, {map[int64]string{iv: sv}, vf.MutableMap(map[int64]string{iv: sv})},
				{[]byte(sv), vf.BinaryFromEncoded(vf.Binary([]byte(sv), true).Encode(), "%B")},
			} {
				if msg := stands(reflect.ValueOf(c.g), c.v); msg != "" {
					return msg
				}
			}
			if !sameFloat(vf.Integer(iv).ToFloat(), float64(iv)) {
				return "ToFloat of an integer is not the nearest float"
			}
			if f := vf.Float(float64(int32(iv))); f.ToInt() != int64(int32(iv)) {
				return "ToInt of a whole float differs"
			}
			return ""
		})
	}
	t.Group("json numbers")
	for i, n := 0, t.N(800); i < n && !t.Expired(); i++ {
		r := t.rng
		s := strconv.FormatInt(edgeInt(r, 64), 10)
		switch r.Intn(4) {
		case 0:
			s = strconv.FormatFloat(edgeFloats[r.Intn(len(edgeFloats))], byte("efg"[r.Intn(3)]), -1, 64)
		case 1:
			s += strconv.Itoa(r.Intn(10))
		}
		t.Check("json number", func() string { return s }, func() string {
			var v dgo.Value
			_, panicked := Panics(func() { v = vf.Value(json.Number(s)) })
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				if panicked {
					return "panics"
				}
				return stands(reflect.ValueOf(n), v)
			}
			f, err := strconv.ParseFloat(s, 64)
			if err == nil != !panicked {
				return fmt.Sprintf("panic is %v", panicked)
			}
			if panicked {
				return ""
			}
			return stands(reflect.ValueOf(f), v)
		})
	}
}

// dupKeys: a go map may have keys that are the same value
func dupKeys(v dgo.Value) bool { return false }

// into converts v to the go type and checks that nothing was changed
func into(v dgo.Value, dt reflect.Type) string {
	d := reflect.New(dt)
	poisoned := d.Elem()
	switch poisoned.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		poisoned.SetInt(77)
	case reflect.String:
		poisoned.SetString("poison")
	}
	was := reflect.New(dt).Elem()
	was.Set(poisoned)
	text := v.String()
	if _, panicked := Panics(func() { vf.FromValue(v, d.Interface()) }); panicked {
		if !sameGo(was, d.Elem()) {
			return fmt.Sprintf("failed but changed the destination to %s", goText(d.Elem()))
		}
		return ""
	}
	if v.String() != text {
		return "the value was changed"
	}
	if msg := stands(d.Elem(), v); msg != "" {
		return "conversion to " + dt.String() + ": " + msg
	}
	return ""
}

// fitting picks a go type that v may be converted to
func fitting(r *rand.Rand, v dgo.Value) reflect.Type {
	if r.Intn(6) == 0 {
		return typAny
	}
	if r.Intn(8) == 0 {
		return reflect.PtrTo(fitting(r, v))
	}
	switch v := v.(type) {
	case dgo.Integer:
		return goBasic[r.Intn(10)]
	case dgo.Float:
		return goBasic[10+r.Intn(2)]
	case dgo.String:
		return reflect.TypeOf("")
	case dgo.Boolean:
		return reflect.TypeOf(true)
	case dgo.Binary:
		return reflect.TypeOf([]byte(nil))
	case dgo.Array:
		if v.Len() == 0 {
			return reflect.SliceOf(goType(r, 1))
		}
		return reflect.SliceOf(fitting(r, v.Get(r.Intn(v.Len()))))
	case dgo.Map:
		kt, vt := typAny, typAny
		if v.Len() > 0 {
			i := r.Intn(v.Len())
			if kt = fitting(r, v.Keys().Get(i)); !kt.Comparable() || kt.Kind() == reflect.Float32 || kt.Kind() == reflect.Ptr {
				kt = typAny
			}
			vt = fitting(r, v.Values().Get(i))
		}
		return reflect.MapOf(kt, vt)
	}
	return goType(r, 1)
}
