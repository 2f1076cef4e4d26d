package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C10"] = c10; props["C11"] = c11 }

type c10struct struct {
	A int
	B string
	C []string
	D dgo.Array
	E interface{}
	F map[string]int
	V dgo.Value
}

// walk visits a value and everything in it (but not the entries of a map, only their keys and values)
func walk(v dgo.Value, f func(dgo.Value)) {
	walkTo(v, func(e dgo.Value) bool {
		f(e)
		return true
	})
}

func walkTo(v dgo.Value, f func(dgo.Value) bool) {
	if !f(v) {
		return
	}
	switch v := v.(type) {
	case dgo.Sensitive:
		walkTo(v.Unwrap(), f)
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) {
			walkTo(e.Key(), f)
			walkTo(e.Value(), f)
		})
	case dgo.Array:
		for i, n := 0, v.Len(); i < n; i++ {
			walkTo(v.Get(i), f)
		}
	case dgo.MapEntry:
		walkTo(v.Key(), f)
		walkTo(v.Value(), f)
	}
}

func isNative(v dgo.Value) bool { _, ok := v.(dgo.Native); return ok }

// deepFrozen tells what is not frozen in a frozen value
func deepFrozen(v dgo.Value) string {
	msg := ""
	walk(v, func(x dgo.Value) {
		if f, ok := x.(dgo.Freezable); ok && !isNative(x) && !f.Frozen() && msg == "" {
			msg = fmt.Sprintf("%T %s in %s is not frozen", x, toM(x), toM(v))
		}
	})
	return msg
}

// unfrozen returns the mutable collections in a value
func unfrozen(v dgo.Value) (r []dgo.Value) {
	walk(v, func(x dgo.Value) {
		switch x.(type) {
		case dgo.Sensitive, dgo.MapEntry, dgo.Native:
		case dgo.Freezable:
			if !x.(dgo.Freezable).Frozen() {
				r = append(r, x)
			}
		}
	})
	return r
}

// frozenIn returns the outermost frozen values in a value
func frozenIn(v dgo.Value) (r []dgo.Value) {
	walkTo(v, func(x dgo.Value) bool {
		f, ok := x.(dgo.Freezable)
		if ok && f.Frozen() {
			r = append(r, x)
			return false
		}
		return true
	})
	return r
}

// mutate1 alters a mutable collection
func mutate1(r *rand.Rand, x dgo.Value) {
	switch x := x.(type) {
	case dgo.Struct:
		x.Put("A", r.Intn(1000)+1000)
		x.Put("B", "changed")
		x.Put("C", []string{"changed"})
	case dgo.Map:
		ks := x.Keys()
		if n := ks.Len(); n > 0 {
			x.Put(ks.Get(0), "changed")
			if n > 1 {
				x.Remove(ks.Get(n - 1))
			}
		}
		x.Put("changed", 1)
	case dgo.Array:
		if x.Len() > 0 {
			x.Set(0, "changed")
			if x.Len() > 2 {
				x.Remove(1)
			}
		}
		x.Add("changed")
		x.Insert(0, "changed")
	case dgo.Binary:
		if b := x.GoBytes(); len(b) > 0 {
			b[0] ^= 0xff
		}
	}
}

func poison(r *rand.Rand, v dgo.Value) {
	for _, x := range unfrozen(v) {
		mutate1(r, x)
	}
}

// goPoison alters everything that can be reached from a go value without going through dgo
func goPoison(v reflect.Value, depth int) {
	if depth > 6 || !v.IsValid() {
		return
	}
	dv := reflect.TypeOf((*dgo.Value)(nil)).Elem()
	if v.Type().Implements(dv) || v.Kind() == reflect.Interface && !v.IsNil() && v.Elem().Type().Implements(dv) {
		return
	}
	zero := func(e reflect.Value) {
		if e.CanSet() {
			e.Set(reflect.Zero(e.Type()))
		}
	}
	switch v.Kind() {
	case reflect.Interface:
		goPoison(v.Elem(), depth+1)
	case reflect.Ptr:
		if v.Type().String() == "*time.Time" || v.Type().String() == "*regexp.Regexp" {
			return // handed out as they are
		}
		if !v.IsNil() {
			goPoison(v.Elem(), depth+1)
			zero(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			goPoison(v.Index(i), depth+1)
			if v.Type().Elem().Kind() == reflect.Uint8 {
				v.Index(i).SetUint(v.Index(i).Uint() ^ 0xff)
			} else {
				zero(v.Index(i))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			goPoison(v.MapIndex(k), depth+1)
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanInterface() {
				goPoison(v.Field(i), depth+1)
				zero(v.Field(i))
			}
		}
	}
}

// mixed builds a value with mutable and frozen parts
func mixed(r *rand.Rand, d int) dgo.Value {
	k := r.Intn(10)
	if d <= 0 {
		k = r.Intn(3)
	}
	fr := func(v dgo.Value) dgo.Value {
		if r.Intn(3) == 0 {
			v.(dgo.Freezable).Freeze()
		}
		return v
	}
	key := func() dgo.Value {
		switch r.Intn(6) {
		case 0:
			return vf.Integer(int64(r.Intn(4)))
		case 1:
			return mixed(r, d-2)
		}
		return vf.String([]string{"a", "b", "c", "d"}[r.Intn(4)])
	}
	switch k {
	case 0:
		return vf.Integer(int64(r.Intn(5)))
	case 1:
		return vf.String([]string{"", "a", "b", "x"}[r.Intn(4)])
	case 2:
		return vf.Binary([]byte{byte(r.Intn(3)), 7}, r.Intn(2) == 0)
	case 3, 4, 5:
		a := vf.ArrayWithCapacity(r.Intn(6))
		for i := r.Intn(4); i > 0; i-- {
			a.Add(mixed(r, d-1))
		}
		return fr(a)
	case 6, 7:
		a := vf.MapWithCapacity(r.Intn(9))
		for i := r.Intn(4); i > 0; i-- {
			a.Put(key(), mixed(r, d-1))
		}
		return fr(a)
	case 8:
		switch r.Intn(3) {
		case 0:
			return vf.MapEntry(key(), mixed(r, d-1))
		case 1:
			return vf.Sensitive(mixed(r, d-1))
		}
		a := vf.ArrayWithCapacity(0)
		for i := r.Intn(4); i > 0; i-- {
			a.Add(mixed(r, d-1))
		}
		return vf.ArgumentsFromArray(a)
	}
	s := &c10struct{A: r.Intn(5), B: "b", C: []string{"x", "y"}[:r.Intn(3)], F: map[string]int{"f": r.Intn(3)}}
	if r.Intn(3) > 0 {
		a := vf.ArrayWithCapacity(0)
		for i := r.Intn(3); i > 0; i-- {
			a.Add(mixed(r, d-1))
		}
		s.D = a
	}
	if r.Intn(2) == 0 {
		s.E = []interface{}{nil, 1, "e", []interface{}{1, "x"}, []byte{1}, map[string]interface{}{"a": []int{1}}}[r.Intn(6)]
	}
	if r.Intn(2) == 0 {
		s.V = mixed(r, d-1)
	}
	return fr(vf.MutableMap(s))
}

// goAny makes a go value that dgo converts
func goAny(r *rand.Rand, d int) interface{} {
	room := r.Intn(2)
	n := r.Intn(3)
	val := func() dgo.Value {
		for {
			v := mixed(r, d-1)
			has := false
			walk(v, func(e dgo.Value) {
				if _, ok := e.(dgo.Struct); ok {
					has = true
				}
			})
			if !has {
				return v
			}
		}
	}
	k := r.Intn(12)
	if d <= 0 {
		k %= 3
	}
	switch k {
	case 0:
		return r.Intn(5)
	case 1:
		return "s"
	case 2:
		b := make([]byte, n, n+room)
		return b
	case 3:
		s := make([]interface{}, n, n+room)
		for i := range s {
			s[i] = goAny(r, d-1)
		}
		return s
	case 4, 5:
		s := make([]dgo.Value, n, n+room)
		for i := range s {
			s[i] = val()
		}
		return s
	case 6:
		s := make([]string, n, n+room)
		return s
	case 7:
		m := map[string]interface{}{}
		if n > 0 {
			m["a"] = goAny(r, d-1)
		}
		return m
	case 8:
		return map[string]dgo.Value{"a": val()}
	case 9:
		return map[interface{}][]dgo.Value{"b": []dgo.Value{val(), val()}[:n]}
	case 10:
		return []map[string][]byte{{"x": {1, 2}}, {"y": nil}}[:n]
	}
	return val()
}

// fw is a world of values in which every frozen value is watched
type fw struct {
	r    *rand.Rand
	vs   []dgo.Value
	seen []dgo.Value
	snap []string
	hist []string
}

func (w *fw) add(v dgo.Value) string {
	if v == nil {
		return ""
	}
	n := 0
	walk(v, func(dgo.Value) { n++ })
	if n > 80 {
		return ""
	}
	if len(w.vs) < 10 {
		w.vs = append(w.vs, v)
	} else {
		w.vs[w.r.Intn(10)] = v
	}
	for _, f := range frozenIn(v) {
		if msg := deepFrozen(f); msg != "" {
			return msg
		}
		w.seen = append(w.seen, f)
		w.snap = append(w.snap, toM(f).String())
	}
	if len(w.seen) > 60 {
		w.seen = append(w.seen[:0], w.seen[30:]...)
		w.snap = append(w.snap[:0], w.snap[30:]...)
	}
	return ""
}

func (w *fw) verify() string {
	for i, v := range w.seen {
		if !v.(dgo.Freezable).Frozen() {
			return fmt.Sprintf("%T %s is no longer frozen", v, w.snap[i])
		}
		if msg := deepFrozen(v); msg != "" {
			return msg
		}
		if s := toM(v).String(); s != w.snap[i] {
			return fmt.Sprintf("frozen %T %s became %s", v, w.snap[i], s)
		}
	}
	return ""
}

func tryp(f func()) { _, _ = Panics(f) }

// attempts performs every mutating operation on a frozen value; they must all fail
func attempts(r *rand.Rand, v dgo.Value) string {
	msg := ""
	must := func(name string, f func()) {
		if _, p := Panics(f); !p && msg == "" {
			msg = name + " on a frozen " + fmt.Sprintf("%T", v) + " does not fail"
		}
	}
	other := vf.MutableValues("p", "q")
	switch x := v.(type) {
	case dgo.Struct:
		must("Put", func() { x.Put("A", 99) })
		must("Put", func() { x.Put("B", "p") })
		must("Put", func() { x.Put("V", other) })
		must("PutAll", func() { x.PutAll(vf.Map("A", 7, "B", "z")) })
		must("Remove", func() { x.Remove("A") })
		must("RemoveAll", func() { x.RemoveAll(vf.Values("A")) })
	case dgo.Map:
		ks := x.Keys()
		must("Put", func() { x.Put("p", 99) })
		must("Put", func() { x.Put(nil, nil) })
		must("PutAll", func() { x.PutAll(vf.Map("a", 7, "p", "z")) })
		must("Remove", func() { x.Remove("p") })
		must("RemoveAll", func() { x.RemoveAll(vf.Values("p")) })
		for i := 0; i < ks.Len(); i++ {
			k := ks.Get(i)
			must("Put", func() { x.Put(k, 99) })
			must("PutAll", func() { x.PutAll(vf.Map(vf.Values(k, 99))) })
			must("Remove", func() { x.Remove(k) })
			must("RemoveAll", func() { x.RemoveAll(vf.Values(k)) })
		}
		x.EachEntry(func(e dgo.MapEntry) { e.Freeze() })
	case dgo.Array:
		must("Add", func() { x.Add("p") })
		must("AddAll", func() { x.AddAll(other) })
		must("AddAll", func() { x.AddAll(vf.Map("a", 1)) })
		must("AddValues", func() { x.AddValues(1, 2) })
		must("Insert", func() { x.Insert(0, "p") })
		must("Insert", func() { x.Insert(x.Len(), "p") })
		must("Pop", func() { x.Pop() })
		must("RemoveValue", func() { x.RemoveValue("not there") })
		for i := 0; i < x.Len(); i++ {
			i := i
			must("Set", func() { x.Set(i, "p") })
			must("Remove", func() { x.Remove(i) })
			must("RemoveValue", func() { x.RemoveValue(x.Get(i)) })
			must("Insert", func() { x.Insert(i, "p") })
		}
		s := x.GoSlice()
		for i := range s {
			s[i] = vf.String("p")
		}
		if len(s) > 0 {
			_ = append(s[:len(s)-1], vf.String("p"))
		}
		is := x.InterfaceSlice()
		for i := range is {
			is[i] = nil
		}
		as := x.AppendToSlice(make([]dgo.Value, 0, 2))
		for i := range as {
			as[i] = nil
		}
	case dgo.Binary:
		b := x.GoBytes()
		for i := range b {
			b[i] ^= 0xff
		}
	}
	if f, ok := v.(dgo.Freezable); ok {
		tryp(func() { f.Freeze() })
	}
	return msg
}

const c10ops = 48

// inside tells if x is somewhere in v, so that v cannot be put into x
func inside(x, v dgo.Value) bool {
	found := false
	walk(v, func(e dgo.Value) {
		if e == x {
			found = true
		}
	})
	return found
}

func (w *fw) step(op int, v, u dgo.Value) (string, []dgo.Value) {
	r := w.r
	var out []dgo.Value
	ret := func(x dgo.Value) {
		if x != nil {
			out = append(out, x)
		}
	}
	desc := fmt.Sprintf("op%d", op)
	w.hist = append(w.hist, fmt.Sprintf("%s(%T %s, %s)", desc, v, toM(v), toM(u)))
	i := 0
	arr, isA := v.(dgo.Array)
	if isA && arr.Len() > 0 {
		i = r.Intn(arr.Len())
	}
	mp, isM := v.(dgo.Map)
	entry, isE := v.(dgo.MapEntry)
	key := func() dgo.Value {
		if s, ok := v.(dgo.Struct); ok && op > 40 {
			// an interface{} field turns struct values into natives
			return s.Keys().With("V").Get([]int{0, 1, 2, 3, 6}[r.Intn(5)])
		}
		if isM && mp.Len() > 0 && r.Intn(3) > 0 {
			return mp.Keys().Get(r.Intn(mp.Len()))
		}
		return vf.String("k")
	}
	fz, isF := v.(dgo.Freezable)
	msg := ""
	if op >= 41 {
		// no value is put into itself (arrays can share their slices)
		for _, x := range unfrozen(u) {
			if _, ok := x.(dgo.Array); ok {
				u = u.(dgo.Freezable).FrozenCopy()
				break
			}
		}
		for _, x := range append(unfrozen(v), v) {
			if inside(x, u) {
				return "", nil
			}
		}
		if op == 46 && isM {
			u = vf.Integer(1)
		}
	}
	tryp(func() {
		switch op {
		case 0:
			if isF {
				fz.Freeze()
				ret(v)
			}
		case 1, 2:
			if isF {
				ret(fz.FrozenCopy())
			}
		case 3, 4:
			if isF {
				ret(fz.ThawedCopy())
			}
		case 5:
			poison(r, v)
		case 6:
			if isF && fz.Frozen() {
				msg = attempts(r, v)
			}
		case 7:
			var x interface{}
			vf.FromValue(v, &x)
			goPoison(reflect.ValueOf(&x).Elem(), 0)
		case 8:
			ret(vf.Sensitive(v))
		case 9:
			ret(vf.MapEntry(v, u))
		case 10:
			ret(vf.Values(v, u))
		case 11:
			ret(vf.MutableValues(v, u))
		case 12:
			// the array of a mutable map holds the entries of the map: see the known finding
			if _, ok := v.(dgo.Map); !ok || fz.Frozen() {
				ret(vf.Array(v))
			}
		case 13:
			ret(vf.Map("a", v, u, "b"))
		case 14:
			ret(vf.MutableMap("a", v, u, "b"))
		case 15:
			ret(vf.Arguments(v, u))
		case 16:
			if s, ok := v.(dgo.Sensitive); ok {
				ret(s.Unwrap())
			}
		case 17:
			ret(vf.Array([]dgo.Value{v, u}))
		case 18:
			ret(vf.WrapSlice([]dgo.Value{v, u}))
		case 19:
			ret(vf.Map(map[string]interface{}{"x": v, "y": u}))
		case 20:
			ret(vf.MutableMap(&c10struct{V: v, D: vf.MutableValues(u)}))
		case 21:
			ret(vf.Value([]interface{}{v, u}))
		default:
			switch {
			case isA:
				switch op {
				case 22:
					if arr.Len() > 0 {
						ret(arr.Get(i))
					}
				case 23:
					ret(arr.Slice(0, i))
				case 24:
					ret(arr.Slice(i, arr.Len()))
				case 25:
					ret(arr.Copy(r.Intn(2) == 0))
				case 26:
					ret(arr.With(u))
				case 27:
					ret(arr.WithAll(vf.MutableValues(u, u)))
				case 28:
					ret(arr.WithValues(u, 1))
				case 29:
					ret(arr.Map(func(e dgo.Value) interface{} { return e }))
				case 30:
					ret(arr.Select(func(e dgo.Value) bool { return r.Intn(2) == 0 }))
				case 31:
					ret(arr.Reject(func(e dgo.Value) bool { return r.Intn(2) == 0 }))
				case 32:
					ret(arr.Flatten())
				case 33:
					ret(arr.Unique())
				case 34:
					ret(arr.Sort())
				case 35:
					ret(arr.ToMap())
				case 36:
					if m, ok := arr.ToMapFromEntries(); ok {
						ret(m)
					}
				case 37:
					if a, ok := v.(dgo.Arguments); !ok || a == nil {
						ret(vf.ArgumentsFromArray(arr))
					}
				case 38:
					ret(vf.WrapSlice(arr.GoSlice()))
				case 39:
					if arr.Len()%2 == 0 {
						ret(vf.Map(arr))
					}
				case 40:
					if arr.Len()%2 == 0 {
						ret(vf.MutableMap(arr))
					}
				case 41:
					if arr.Len() > 0 {
						if s, ok := vf.Value(arr.InterfaceSlice()).(dgo.Array); ok {
							ret(s)
						}
					}
				case 42:
					arr.Add(u)
				case 43:
					if arr.Len() > 0 {
						ret(arr.Set(i, u))
					}
				case 44:
					if arr.Len() > 0 {
						ret(arr.Remove(i))
					}
				case 45:
					arr.Insert(i, u)
				case 46:
					x, _ := arr.Pop()
					ret(x)
				case 47:
					if ua, ok := u.(dgo.Array); ok {
						arr.AddAll(ua)
					}
				}
			case isM:
				switch op {
				case 22:
					ret(mp.Get(key()))
				case 23:
					ret(mp.Keys())
				case 24:
					ret(mp.Values())
				case 25:
					ret(mp.Copy(r.Intn(2) == 0))
				case 26:
					ret(mp.With(key(), u))
				case 27:
					ret(mp.Without(key()))
				case 28:
					ret(mp.WithoutAll(vf.Values(key(), key())))
				case 29:
					ret(mp.Map(func(e dgo.MapEntry) interface{} { return e.Value() }))
				case 30:
					ret(mp.Map(func(e dgo.MapEntry) interface{} { return u }))
				case 31, 32:
					if um, ok := u.(dgo.Map); ok {
						ret(mp.Merge(um))
					}
				case 33:
					ret(mp.Merge(vf.MutableMap("m", u)))
				case 34:
					// entries of frozen maps only: see the known finding about entries of mutable maps
					if mp.Frozen() {
						mp.EachEntry(func(e dgo.MapEntry) { ret(e) })
					}
				case 35:
					if mp.Frozen() {
						ret(vf.Array(mp))
					}
				case 36:
					mp.EachEntry(func(e dgo.MapEntry) { ret(e.ThawedCopy()) })
				case 37:
					mp.Each(func(e dgo.Value) { ret(e.(dgo.MapEntry).Value()); ret(e.(dgo.MapEntry).Key()) })
				case 38:
					if s, ok := v.(dgo.Struct); ok {
						goPoison(reflect.ValueOf(s.GoStruct()), 0)
					}
				case 39:
					if s, ok := v.(dgo.Struct); ok {
						p := reflect.New(reflect.PtrTo(reflect.TypeOf(c10struct{})))
						vf.ReflectTo(s, p.Elem())
						goPoison(p.Elem(), 0)
					}
				case 40:
					var x map[string]dgo.Value
					vf.FromValue(v, &x)
					ret(vf.Map(x))
					goPoison(reflect.ValueOf(x), 0)
				case 41, 42:
					ret(mp.Put(key(), u))
				case 43:
					ret(mp.Remove(key()))
				case 44:
					if um, ok := u.(dgo.Map); ok {
						mp.PutAll(um)
					}
				case 45:
					mp.RemoveAll(vf.Values(key()))
				case 46:
					mp.Put(v, u)
				case 47:
					if e := mp.Find(func(dgo.MapEntry) bool { return true }); e != nil && mp.Frozen() {
						ret(e)
						ret(e.FrozenCopy())
						ret(e.ThawedCopy())
					}
				}
			case isE:
				switch op % 4 {
				case 0:
					ret(entry.Key())
				case 1:
					ret(entry.Value())
				case 2:
					ret(vf.Values(entry))
				case 3:
					ret(entry.ThawedCopy())
				}
			default:
				if b, ok := v.(dgo.Binary); ok {
					switch op % 3 {
					case 0:
						ret(b.Copy(op%2 == 0))
					case 1:
						ret(vf.Binary(b.GoBytes(), op%2 == 0))
					case 2:
						var x []byte
						vf.FromValue(v, &x)
						goPoison(reflect.ValueOf(x), 0)
					}
				}
			}
		}
	})
	return msg, out
}

func c10(t *T) {
	run := func(key string, seed int64, steps int, fix func(w *fw) []int) {
		w := &fw{r: rand.New(rand.NewSource(seed))}
		msg := ""
		body := func() {
			for i := 0; i < 4; i++ {
				if msg = w.add(mixed(w.r, 1+w.r.Intn(3))); msg != "" {
					return
				}
			}
			ops := fix(w)
			for s := 0; s < steps; s++ {
				op := w.r.Intn(c10ops)
				v, u := w.vs[w.r.Intn(len(w.vs))], w.vs[w.r.Intn(len(w.vs))]
				if s < len(ops) {
					op, v = ops[s], w.vs[len(w.vs)-1]
				}
				var out []dgo.Value
				if msg, out = w.step(op, v, u); msg != "" {
					return
				}
				for _, x := range out {
					if msg = w.add(x); msg != "" {
						return
					}
				}
				if msg = w.verify(); msg != "" {
					return
				}
				if w.r.Intn(3) == 0 {
					poison(w.r, w.vs[w.r.Intn(len(w.vs))])
					if msg = w.verify(); msg != "" {
						msg = "after changes of mutable values: " + msg
						return
					}
				}
			}
			for _, v := range w.vs {
				poison(w.r, v)
			}
			if msg = w.verify(); msg == "" {
				for _, v := range w.seen {
					if msg = attempts(w.r, v); msg == "" {
						msg = w.verify()
					}
					if msg != "" {
						return
					}
				}
			}
		}
		if pm, p := Panics(body); p {
			msg = "unexpected panic: " + pm
		}
		t.Check(key, func() string {
			h := w.hist
			if len(h) > 12 {
				h = h[len(h)-12:]
			}
			return cut(fmt.Sprintf("seed %d: %s", seed, strings.Join(h, "; ")), 2500)
		}, func() string { return cut(msg, 600) })
	}
	t.Group("derive, then change")
	for a := 0; a < c10ops; a++ {
		for b := 0; b < c10ops; b++ {
			for k := 0; k < map[bool]int{true: 8, false: 2}[t.thorough]; k++ {
				a, b := a, b
				run(fmt.Sprintf("op%d op%d", a, b), t.rng.Int63(), 3, func(w *fw) []int {
					v := mixed(w.r, 3)
					if f, ok := v.(dgo.Freezable); ok && w.r.Intn(2) == 0 {
						f.Freeze()
					}
					_ = w.add(v)
					return []int{a, b, 5}
				})
			}
		}
		if t.Expired() {
			return
		}
	}
	t.Group("histories")
	for n := t.N(1500); n > 0 && !t.Expired(); n-- {
		run("history", t.rng.Int63(), 25, func(w *fw) []int { return nil })
	}
	t.Group("made from go values")
	for n := t.N(2000); n > 0 && !t.Expired(); n-- {
		seed := t.rng.Int63()
		in := ""
		t.Check("made from go values", func() string { return cut(fmt.Sprintf("seed %d %s", seed, in), 600) }, func() string {
			r := rand.New(rand.NewSource(seed))
			g := goAny(r, 3)
			in = fmt.Sprintf("%T %v", g, g)
			var vs []dgo.Value
			add := func(f func() dgo.Value) {
				tryp(func() {
					if v := f(); v != nil {
						vs = append(vs, v)
					}
				})
			}
			add(func() dgo.Value { return vf.Values(g) })
			if _, ok := g.(dgo.Map); !ok {
				add(func() dgo.Value { return vf.Array(g) })
			}
			add(func() dgo.Value { return vf.Map("a", g, g, "b") })
			add(func() dgo.Value { return vf.Map(map[string]interface{}{"a": g}) })
			add(func() dgo.Value { return vf.Value(g) })
			add(func() dgo.Value { return vf.MutableValues("a", g).FrozenCopy() })
			add(func() dgo.Value { return vf.Sensitive(g) })
			add(func() dgo.Value { return vf.Values("a").With(g) })
			add(func() dgo.Value { return vf.Map("a", 1).With("b", g) })
			if reflect.TypeOf(g).Kind() == reflect.Map {
				add(func() dgo.Value { return vf.Map(g) })
				add(func() dgo.Value { return vf.FromReflectedMap(reflect.ValueOf(g), true) })
			}
			if b, ok := g.([]byte); ok {
				add(func() dgo.Value { return vf.Binary(b, true) })
			}
			w := &fw{r: r}
			for _, v := range vs {
				if msg := w.add(v); msg != "" {
					return msg
				}
			}
			goPoison(reflect.ValueOf(&g).Elem(), 0)
			for _, v := range vs {
				poison(r, v)
			}
			return cut(w.verify(), 600)
		})
	}
	t.Group("converted to go values")
	bs, vs, is, mi, mv, any := []byte{}, []dgo.Value{}, []interface{}{}, map[string]interface{}{}, map[string]dgo.Value{}, []interface{}{nil}
	targets := []reflect.Type{}
	for _, x := range []interface{}{bs, vs, is, mi, mv, any, []string{}, [][]byte{}, []*[]byte{}, map[string][]byte{}, map[string]*[]byte{}, map[interface{}]interface{}{},
		c10struct{}, []map[string]interface{}{}, [][]dgo.Value{}, []*[]dgo.Value{}, map[string][]interface{}{}, []c10struct{}, []*c10struct{}} {
		targets = append(targets, reflect.TypeOf(x), reflect.PtrTo(reflect.TypeOf(x)))
	}
	targets = append(targets, reflect.TypeOf(&any).Elem().Elem(), reflect.PtrTo(reflect.TypeOf(&any).Elem().Elem()))
	for n := t.N(1000); n > 0 && !t.Expired(); n-- {
		seed := t.rng.Int63()
		t.Check("converted to go values", func() string { return fmt.Sprintf("seed %d", seed) }, func() string {
			r := rand.New(rand.NewSource(seed))
			w := &fw{r: r}
			var v dgo.Value
			switch r.Intn(6) {
			case 0:
				v = vf.Binary([]byte{1, 2}, true)
			case 1:
				v = vf.Values(vf.Binary([]byte{1, 2}, true), vf.Binary([]byte{}, true))
			case 2:
				v = vf.Map("a", vf.Binary([]byte{1, 2}, true))
			case 3:
				v = vf.Values([]string{"a"}, vf.Values(1))
			default:
				v = mixed(r, 3)
			}

			if f, ok := v.(dgo.Freezable); ok {
				v = f.FrozenCopy()
			}
			if msg := w.add(v); msg != "" {
				return msg
			}
			for _, gt := range targets {
				tryp(func() {
					p := reflect.New(gt)
					vf.ReflectTo(v, p.Elem())
					goPoison(p.Elem(), 0)
				})
				if msg := w.verify(); msg != "" {
					return cut(gt.String()+": "+msg, 600)
				}
			}
			return ""
		})
	}
	t.Group("entries of mutable maps")
	t.Check("entry of a mutable map in a frozen array", func() string { return "m {a:1}; a = Values(entry of m); m.Put(a, 2)" }, func() string {
		m := vf.MutableMap("a", 1)
		a := vf.Values(m.Find(func(dgo.MapEntry) bool { return true }))
		s := toM(a).String()
		m.Put("a", 2)
		if toM(a).String() != s {
			return fmt.Sprintf("frozen array %s became %s", s, toM(a))
		}
		return ""
	})
}

func c11(t *T) {
	check := func(key string, v func(r *rand.Rand) dgo.Value) {
		seed := t.rng.Int63()
		in := ""
		t.Check(key, func() string { return cut(fmt.Sprintf("seed %d %s", seed, in), 800) }, func() string {
			msg := ""
			body := func() string {
				r := rand.New(rand.NewSource(seed))
				x := v(r)
				in = toM(x).String()
				f, ok := x.(dgo.Freezable)
				if !ok {
					return ""
				}
				args, isArgs := x.(dgo.Arguments)
				snap := toM(x).String()
				flags := func(y dgo.Value) string {
					s := ""
					walk(y, func(e dgo.Value) {
						if f, ok := e.(dgo.Freezable); ok {
							s += fmt.Sprint(f.Frozen())[:1]
						}
					})
					return s
				}
				fl := flags(x)
				was := f.Frozen()
				// frozen copies
				copies := []func() dgo.Value{f.FrozenCopy}
				switch x := x.(type) {
				case dgo.Array:
					copies = append(copies, func() dgo.Value { return x.Copy(true) }, func() dgo.Value { return vf.Array(x) })
				case dgo.Map:
					copies = append(copies, func() dgo.Value { return x.Copy(true) })
				case dgo.Binary:
					copies = append(copies, func() dgo.Value { return x.Copy(true) })
				}
				frozen := []dgo.Value{}
				for i, c := range copies {
					y := c()
					if toM(y).String() != snap {
						return fmt.Sprintf("frozen copy %d is %s", i, toM(y))
					}
					if !y.Equals(x) && !isArgs {
						return fmt.Sprintf("frozen copy %d is not equal to the original", i)
					}
					if m := deepFrozen(y); m != "" {
						return fmt.Sprintf("frozen copy %d: %s", i, m)
					}
					if was && y != dgo.Value(x) && !isArgs {
						return fmt.Sprintf("frozen copy %d of a frozen value is another value", i)
					}
					if reflect.TypeOf(y) != reflect.TypeOf(x) && !isArgs && !strings.Contains(fmt.Sprintf("%T", x), "hashNode") {
						return fmt.Sprintf("frozen copy %d is a %T of a %T", i, y, x)
					}
					if flags(x) != fl || toM(x).String() != snap {
						return fmt.Sprintf("making frozen copy %d changed the original to %s", i, toM(x))
					}
					frozen = append(frozen, y)
				}
				thaws := []func() dgo.Value{f.ThawedCopy}
				switch x := x.(type) {
				case dgo.Array:
					thaws = append(thaws, func() dgo.Value { return x.Copy(false) })
				case dgo.Map:
					thaws = append(thaws, func() dgo.Value { return x.Copy(false) })
				case dgo.Binary:
					thaws = append(thaws, func() dgo.Value { return x.Copy(false) })
				}
				copied := []dgo.Value{}
				for i, c := range thaws {
					y := c()
					if toM(y).String() != snap {
						return fmt.Sprintf("copy %d is %s", i, toM(y))
					}
					if !y.Equals(x) && !isArgs {
						return fmt.Sprintf("copy %d is not equal to the original", i)
					}
					if flags(x) != fl || toM(x).String() != snap {
						return fmt.Sprintf("making copy %d changed the original to %s", i, toM(x))
					}
					switch y := y.(type) {
					case dgo.Sensitive, dgo.MapEntry:
					case dgo.Freezable:
						if y.Frozen() {
							return fmt.Sprintf("copy %d is frozen", i)
						}
					}
					copied = append(copied, y)
				}
				// the copies share no mutable collection with the original or with each other
				owner := map[dgo.Value]string{}
				for _, e := range unfrozen(x) {
					owner[e] = "the original"
				}
				for i, y := range copied {
					for _, e := range unfrozen(y) {
						if o, ok := owner[e]; ok && o != fmt.Sprint("copy ", i) {
							return fmt.Sprintf("%T %s is shared by %s and copy %d", e, toM(e), o, i)
						}
						owner[e] = fmt.Sprint("copy ", i)
					}
				}
				all := append(append([]dgo.Value{x}, frozen...), copied...)
				for i := range all {
					snaps := make([]string, len(all))
					for j := range all {
						snaps[j] = toM(all[j]).String()
					}
					for _, e := range unfrozen(all[i]) {
						if st, ok := e.(dgo.Struct); ok {
							// the go struct of each copy is its own
							g := st.GoStruct().(*c10struct)
							for _, f := range []interface{}{g.C, g.E, g.F} {
								goPoison(reflect.ValueOf(f), 0)
							}
						}
					}
					poison(r, all[i])
					for j := range all {
						if j != i && !(i == 0 && isArgs && false) && toM(all[j]).String() != snaps[j] {
							return fmt.Sprintf("changes of value %d show in value %d: %s became %s", i, j, snaps[j], toM(all[j]))
						}
					}
				}
				_ = args
				// freezing in place
				z := v(rand.New(rand.NewSource(seed)))
				zs := toM(z).String()
				z.(dgo.Freezable).Freeze()
				if m := deepFrozen(z); m != "" {
					return "Freeze: " + m
				}
				if toM(z).String() != zs {
					return "Freeze: " + zs + " became " + toM(z).String()
				}
				return ""
			}
			if pm, p := Panics(func() { msg = body() }); p {
				return "unexpected panic: " + pm
			}
			return cut(msg, 600)
		})
	}
	t.Group("random values")
	for n := t.N(20000); n > 0 && !t.Expired(); n-- {
		check("copies", func(r *rand.Rand) dgo.Value { return mixed(r, 1+r.Intn(4)) })
	}
	t.Group("the state of a copy")
	// a thawed copy and its original are frozen independently of each other, also when they are empty
	makers := map[string]func() dgo.Value{
		"empty binary":       func() dgo.Value { return vf.Binary(nil, false) },
		"binary":             func() dgo.Value { return vf.Binary([]byte{1, 2}, false) },
		"empty array":        func() dgo.Value { return vf.MutableValues() },
		"array":              func() dgo.Value { return vf.MutableValues(1, vf.MutableValues()) },
		"array with binary":  func() dgo.Value { return vf.MutableValues(vf.Binary(nil, false)) },
		"empty map":          func() dgo.Value { return vf.MutableMap() },
		"map":                func() dgo.Value { return vf.MutableMap("a", vf.MutableMap()) },
		"map with binary":    func() dgo.Value { return vf.MutableMap("a", vf.Binary(nil, false)) },
		"struct":             func() dgo.Value { return vf.MutableMap(&c10struct{V: vf.MutableValues()}) },
		"empty struct":       func() dgo.Value { return vf.MutableMap(&struct{}{}) },
		"wrapped slice":      func() dgo.Value { return vf.WrapSlice([]dgo.Value{}) },
		"wrapped slice of 1": func() dgo.Value { return vf.WrapSlice([]dgo.Value{vf.Binary(nil, false)}) },
	}
	names := make([]string, 0, len(makers))
	for k := range makers {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		mk := makers[k]
		for op := 0; op < 3; op++ {
			for late := 0; late < 2; late++ {
				t.Check("state", func() string { return fmt.Sprintf("%s, operation %d, late %d", k, op, late) }, func() string {
					v := mk()
					fr := func(x dgo.Value) bool { return x.(dgo.Freezable).Frozen() }
					var c dgo.Value
					thaw := func() {
						switch x := v.(type) {
						case dgo.Binary:
							if op == 1 {
								c = x.Copy(false)
								return
							}
						case dgo.Array:
							if op == 1 {
								c = x.Copy(false)
								return
							}
						case dgo.Map:
							if op == 1 {
								c = x.Copy(false)
								return
							}
						}
						c = v.(dgo.Freezable).ThawedCopy()
					}
					if op == 2 {
						v = v.(dgo.Freezable).FrozenCopy()
						thaw()
						if fr(c) || !fr(v) || len(unfrozen(v)) > 0 {
							return "thawing a frozen value"
						}
						c.(dgo.Freezable).Freeze()
						return ""
					}
					thaw()
					if fr(c) || fr(v) {
						return "the thawed copy of a mutable value, or the value, is frozen"
					}
					a, b := v, c
					if late == 1 {
						a, b = c, v
					}
					n := len(unfrozen(b))
					a.(dgo.Freezable).Freeze()
					if !fr(a) || fr(b) {
						return fmt.Sprintf("freezing one: frozen %v and %v", fr(a), fr(b))
					}
					if late == 0 && len(unfrozen(b)) != n {
						return "freezing the value froze parts of its copy"
					}
					if late == 1 && len(unfrozen(b)) != n {
						return "freezing the copy froze parts of the value"
					}
					return ""
				})
			}
		}
	}
	t.Group("one level around each kind")
	for n := t.N(300); n > 0 && !t.Expired(); n-- {
		for k := 0; k < 9; k++ {
			k := k
			check(fmt.Sprint("wrapped ", k), func(r *rand.Rand) dgo.Value {
				v := mixed(r, 2)
				switch k {
				case 0:
					return vf.MutableValues(v)
				case 1:
					return vf.MutableMap("a", v)
				case 2:
					return vf.MapEntry("a", v)
				case 3:
					return vf.Sensitive(v)
				case 4:
					return vf.MutableMap(&c10struct{V: v})
				case 5:
					return vf.MutableMap(&c10struct{D: vf.Values(v)})
				case 6:
					return vf.MutableValues(vf.MapEntry("a", vf.MutableValues(v)))
				case 7:
					return vf.WrapSlice([]dgo.Value{vf.Sensitive(vf.MutableMap("a", v)), v})
				}
				m := vf.MutableMap("a", v, "b", 1)
				return m.Find(func(e dgo.MapEntry) bool { return e.Key().Equals("a") })
			})
		}
	}
}
