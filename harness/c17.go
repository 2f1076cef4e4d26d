package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/vf"
)

func init() { props["C17"] = c17 }

// what a finder answers for a key
type fAns struct {
	kind byte // v: value, n: nil, m: several entries, r: loads another key first and gives a value, p: panics
	val  *M
	keys []string // m
	vals []*M
	mut  bool // a mutable value
}

func (a *fAns) String() string {
	switch a.kind {
	case 'm':
		var ss []string
		for i := range a.keys {
			ss = append(ss, a.keys[i]+"="+a.vals[i].String())
		}
		return "several{" + strings.Join(ss, ",") + "}"
	case 'n':
		return "nil"
	case 'r':
		return "after loading " + a.keys[0] + ": " + a.val.String()
	}
	return a.val.String()
}

type entryM struct {
	val *M        // nil model = cached "not found"
	got dgo.Value // what the loader gave first
}

// the model of a loader
type lM struct {
	kind    byte // m: fixed map, l: map with finder and/or namespace creator, c: child
	name    string
	parent  *lM // parent namespace
	entries map[string]*entryM
	order   []string
	finder  map[string]*fAns
	hasF    bool
	spaces  map[string]*lM
	hasN    bool
	nsSpec  map[string]*lSpec
	own, up *lM // child
	calls   []string
	real    []string // calls of the real finder
	desc    string
}

// how a loader is to be made
type lSpec struct {
	keys   []string
	vals   []*M
	finder map[string]*fAns
	hasF   bool
	hasN   bool
	ns     map[string]*lSpec
	odd    bool // the loader has another name than the namespace
}

type panicM string

func (s *lSpec) String() string {
	var ss []string
	for i := range s.keys {
		ss = append(ss, s.keys[i]+"="+s.vals[i].String())
	}
	r := "{" + strings.Join(ss, ",") + "}"
	if s.hasF {
		var fs []string
		for k, a := range s.finder {
			fs = append(fs, k+": "+a.String())
		}
		sort.Strings(fs)
		r += " finder{" + strings.Join(fs, "; ") + "}"
	}
	if s.hasN {
		var fs []string
		for k, a := range s.ns {
			fs = append(fs, k+": "+a.String())
		}
		sort.Strings(fs)
		r += " namespaces{" + strings.Join(fs, "; ") + "}"
	}
	return r
}

var c17names = []string{"a", "b", "c", "d", "ns", "A"}

func c17spec(g *G, depth int) *lSpec {
	s := &lSpec{finder: map[string]*fAns{}, ns: map[string]*lSpec{}}
	perm := g.r.Perm(len(c17names))
	for _, i := range perm[:g.r.Intn(3)] {
		s.keys = append(s.keys, c17names[i])
		s.vals = append(s.vals, g.value(1))
	}
	s.hasF = g.r.Intn(3) > 0
	s.odd = g.r.Intn(6) == 0
	if s.hasF {
		for _, k := range c17names {
			switch g.r.Intn(8) {
			case 0:
				s.finder[k] = &fAns{kind: 'n'}
			case 1, 2:
				a := &fAns{kind: 'm'}
				p := g.r.Perm(len(c17names))
				has := false
				for _, i := range p[:1+g.r.Intn(3)] {
					a.keys = append(a.keys, c17names[i])
					has = has || c17names[i] == k
				}
				if !has && g.r.Intn(5) > 0 {
					a.keys[g.r.Intn(len(a.keys))] = k
				}
				for _, n := range a.keys {
					v := g.value(1)
					// often what is known already
					for i, x := range s.keys {
						if x == n && g.r.Intn(2) == 0 {
							v = s.vals[i]
						}
					}
					if f := s.finder[n]; f != nil && f.kind == 'v' && g.r.Intn(2) == 0 {
						v = f.val
					}
					a.vals = append(a.vals, v)
				}
				s.finder[k] = a
			case 3:
				o := c17names[g.r.Intn(len(c17names))]
				if o < k { // no loop
					s.finder[k] = &fAns{kind: 'r', keys: []string{o}, val: g.value(1)}
				}
			default:
				s.finder[k] = &fAns{kind: 'v', val: g.value(1), mut: g.r.Intn(2) == 0}
			}
		}
	}
	s.hasN = depth > 0 && g.r.Intn(2) == 0
	if s.hasN {
		for _, k := range c17names {
			if g.r.Intn(2) == 0 {
				s.ns[k] = c17spec(g, depth-1)
			}
		}
	}
	return s
}

func c17vals(keys []string, vals []*M, frozen bool) dgo.Map {
	m := vf.MapWithCapacity(len(keys))
	for i := range keys {
		m.Put(keys[i], build(vals[i], frozen))
	}
	return m
}

// mk makes the loader and its model
func (s *lSpec) mk(parent dgo.Loader, pm *lM, name string) (dgo.Loader, *lM) {
	m := &lM{kind: 'm', name: name, parent: pm, entries: map[string]*entryM{}, spaces: map[string]*lM{}, nsSpec: s.ns, finder: s.finder, hasF: s.hasF, hasN: s.hasN}
	for i, k := range s.keys {
		m.entries[k] = &entryM{val: s.vals[i]}
	}
	em := c17vals(s.keys, s.vals, true)
	f, n := s.callbacks(m)
	if f != nil || n != nil {
		m.kind = 'l'
	}
	l := loader.New(parent, name, em, f, n)
	// the map that was given is the caller's
	for _, k := range c17names {
		em.Put(k, "altered by the caller")
	}
	return l, m
}

func (s *lSpec) callbacks(m *lM) (dgo.Finder, dgo.NsCreator) {
	var f dgo.Finder
	var n dgo.NsCreator
	if s.hasF {
		f = func(l dgo.Loader, key string) interface{} {
			m.real = append(m.real, key)
			a := s.finder[key]
			if a == nil {
				return nil
			}
			switch a.kind {
			case 'n':
				return nil
			case 'm':
				return loader.Multiple(c17vals(a.keys, a.vals, true))
			case 'r':
				l.Get(a.keys[0])
			}
			return build(a.val, !a.mut)
		}
	}
	if s.hasN {
		n = func(l dgo.Loader, name string) dgo.Loader {
			c := s.ns[name]
			if c == nil {
				return nil
			}
			if c.odd {
				name += "space"
			}
			r, cm := c.mk(l, m, name)
			if c.odd {
				name = strings.TrimSuffix(name, "space")
			}
			m.spaces[name] = cm
			return r
		}
	}
	return f, n
}

func (m *lM) add(k string, v *M) {
	if e := m.entries[k]; e != nil {
		if e.val == nil && v.K == 'n' {
			return
		}
		if e.val == nil || !eqM(e.val, v) {
			panic(panicM("override"))
		}
		return
	}
	if v.K == 'n' {
		v = nil
	}
	m.entries[k] = &entryM{val: v}
}

// get: the entry found first along parent, own entries, own finder; nil when there is none
func (m *lM) get(k string) *entryM {
	switch m.kind {
	case 'c':
		if e := m.up.get(k); e != nil {
			return e
		}
		return m.own.get(k)
	case 'm':
		return m.entries[k]
	}
	e := m.entries[k]
	if e == nil && m.hasF {
		m.calls = append(m.calls, k)
		a := m.finder[k]
		switch {
		case a == nil || a.kind == 'n':
			m.add(k, mn())
		case a.kind == 'm':
			has := false
			for _, n := range a.keys {
				has = has || n == k
			}
			if !has {
				panic(panicM("missing"))
			}
			// a map has one value for each key: the last one given
			last := map[string]*M{}
			for i, n := range a.keys {
				last[n] = a.vals[i]
			}
			done := map[string]bool{}
			for _, n := range a.keys {
				if !done[n] {
					done[n] = true
					m.add(n, last[n])
				}
			}
		default:
			if a.kind == 'r' {
				m.get(a.keys[0])
			}
			m.add(k, a.val)
		}
		e = m.entries[k]
	}
	if e != nil && e.val == nil {
		return nil
	}
	return e
}

// space: the model of a namespace, given that the real loader was asked for it
func (m *lM) space(n string) *lM {
	if n == "" {
		return m
	}
	switch m.kind {
	case 'c':
		up, own := m.up.space(n), m.own.space(n)
		switch {
		case own == nil:
			return up
		case up == nil:
			return own
		}
		return &lM{kind: 'c', own: own, up: up}
	case 'm':
		return nil
	}
	return m.spaces[n]
}

func (m *lM) abs() string {
	if m.kind == 'c' {
		return m.own.abs()
	}
	an := "/" + m.name
	if m.parent != nil {
		if p := m.parent.abs(); p != "/" {
			an = p + an
		}
	}
	return an
}

func (m *lM) all(f func(*lM)) {
	f(m)
	if m.kind == 'c' {
		m.own.all(f)
		m.up.all(f)
	}
	for _, s := range m.spaces {
		s.all(f)
	}
}

func c17(t *T) {
	// namespaces are created with the loader they belong to as parent
	run := func(g *G, group string, ops int) {
		var log []string
		root := c17spec(g, 2)
		l, m := root.mk(nil, nil, []string{"", "my"}[g.r.Intn(2)])
		log = append(log, fmt.Sprintf("loader %q %s", m.name, root))
		for g.r.Intn(2) == 0 && len(log) < 4 {
			s := c17spec(g, 2)
			cm := &lM{kind: 'm', name: m.nameOf(), parent: m.parentOf(), entries: map[string]*entryM{}, spaces: map[string]*lM{}, nsSpec: s.ns, finder: s.finder, hasF: s.hasF, hasN: s.hasN}
			f, n := s.callbacks(cm)
			if f != nil || n != nil {
				cm.kind = 'l'
			}
			l = l.NewChild(f, n)
			m = &lM{kind: 'c', own: cm, up: m}
			s.keys, s.vals = nil, nil
			log = append(log, fmt.Sprintf("child %s", s))
		}
		fail := func() string { return strings.Join(log, "\n   ") }
		for i := 0; i < ops; i++ {
			msg := c17op(g, l, m, &log)
			if msg == "" {
				msg = c17calls(m)
			}
			t.Check(group, fail, func() string { return msg })
			if msg != "" {
				return
			}
		}
	}
	t.Group("histories")
	n := t.N(12000)
	for i := 0; i < n && !t.Expired(); i++ {
		g := &G{r: t.rng, kinds: "isbx", max: 2}
		run(g, "history of loads", 4+g.r.Intn(16))
	}
	c17fixed(t)
}

func (m *lM) nameOf() string {
	if m.kind == 'c' {
		return m.own.nameOf()
	}
	return m.name
}
func (m *lM) parentOf() *lM {
	if m.kind == 'c' {
		return m.own.parentOf()
	}
	return m.parent
}

// c17calls: finders are called for the same keys as those of the model, in the same order
func c17calls(m *lM) (msg string) {
	m.all(func(x *lM) {
		if a, b := strings.Join(x.calls, " "), strings.Join(x.real, " "); a != b && msg == "" {
			msg = fmt.Sprintf("the finder of %s was called for [%s], not for [%s]", x.abs(), b, a)
		}
	})
	return
}

func c17cmp(e *entryM, v dgo.Value, what string) string {
	if e == nil || e.val == nil {
		if v != nil {
			return fmt.Sprintf("%s gives %v, there is none", what, v)
		}
		return ""
	}
	if v == nil {
		if e.val.K == 'n' {
			return ""
		}
		return fmt.Sprintf("%s gives nil, not %s", what, e.val)
	}
	if !eqM(toM(v), e.val) {
		return fmt.Sprintf("%s gives %v, not %s", what, v, e.val)
	}
	if e.got == nil {
		e.got = v
	} else if e.got != v {
		return fmt.Sprintf("%s gives another (equal) value than it did before", what)
	}
	return ""
}

func c17op(g *G, l dgo.Loader, m *lM, log *[]string) (msg string) {
	var what string
	key := c17names[g.r.Intn(len(c17names))]
	model := func(f func()) (r string) {
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(panicM); ok {
					r = string(s)
					return
				}
				panic(x)
			}
		}()
		f()
		return ""
	}
	load := func(real func() dgo.Value, md func() *entryM) string {
		*log = append(*log, what)
		var v dgo.Value
		var e *entryM
		pm, rp := Panics(func() { v = real() })
		mp := model(func() { e = md() })
		switch {
		case rp && mp == "":
			return what + " fails: " + cut(pm, 200)
		case !rp && mp != "":
			return what + " does not fail (" + mp + ")"
		case rp:
			want := map[string]string{"override": "attempt to override entry", "missing": "doesn't contain original key"}[mp]
			if !strings.Contains(pm, want) {
				return what + " fails with " + cut(pm, 200)
			}
			return ""
		}
		return c17cmp(e, v, what)
	}
	switch g.r.Intn(7) {
	case 0, 1:
		what = "Get(" + key + ")"
		return load(func() dgo.Value {
			if g.r.Intn(2) == 0 {
				return l.Get(vf.String(key))
			}
			return l.Get(key)
		}, func() *entryM { return m.get(key) })
	case 2, 3:
		what = "Load(" + key + ")"
		return load(func() dgo.Value { return l.Load(key) }, func() *entryM { return m.get(key) })
	case 4:
		// a path
		n := 1 + g.r.Intn(3)
		var ps []string
		for i := 0; i < n; i++ {
			if g.r.Intn(8) == 0 {
				ps = append(ps, "")
			} else {
				ps = append(ps, c17names[g.r.Intn(len(c17names))])
			}
		}
		ps = append(ps, key)
		what = "Load(" + strings.Join(ps, "/") + ")"
		return load(func() dgo.Value { return l.Load(strings.Join(ps, "/")) }, func() *entryM {
			x := m
			for _, p := range ps[:n] {
				if x = x.space(p); x == nil {
					return nil
				}
			}
			return x.get(ps[n])
		})
	case 5:
		ns := c17names[g.r.Intn(len(c17names))]
		if g.r.Intn(6) == 0 {
			ns = ""
		}
		what = "Namespace(" + ns + ")"
		*log = append(*log, what)
		var r dgo.Loader
		if pm, p := Panics(func() { r = l.Namespace(ns) }); p {
			return what + " fails: " + cut(pm, 200)
		}
		x := m.space(ns)
		switch {
		case r == nil && x == nil:
			return ""
		case r == nil:
			return what + " gives nil"
		case x == nil:
			return fmt.Sprintf("%s gives %v", what, r)
		}
		if ns == "" && r != l {
			return "the empty namespace is not the loader itself"
		}
		if x.kind != 'c' {
			if r2 := l.Namespace(ns); r2 != r {
				return what + " gives another loader the second time"
			}
			if ns != "" && r.Name() != x.name {
				return fmt.Sprintf("%s has the name %q", what, r.Name())
			}
			if ns != "" && (r.ParentNamespace() == nil || r.ParentNamespace().AbsoluteName() != x.parent.abs()) {
				return what + " has another parent namespace"
			}
		}
		if r.AbsoluteName() != x.abs() {
			return fmt.Sprintf("%s has the absolute name %q, not %q", what, r.AbsoluteName(), x.abs())
		}
		// go on in the namespace
		*log = append(*log, "in it:")
		s := c17op(g, r, x, log)
		*log = append(*log, "(back)")
		return s
	default:
		what = "Get(23)"
		return load(func() dgo.Value { return l.Get(23) }, func() *entryM { return nil })
	}
}

// c17fixed: the precedence of all combinations of what the parts of a chain of loaders know of a name
func c17fixed(t *T) {
	t.Group("precedence")
	type src struct {
		entry, find int // 0: not there, 1..: the value; find -1: no finder
	}
	vals := []int{0, 1, 2}
	for _, e := range vals {
		for f := -1; f < 3; f++ {
			for cf := -1; cf < 3; cf++ {
				for ccf := -1; ccf < 3; ccf++ {
					in := func() string {
						return fmt.Sprintf("entry %d, finder %d, finder of the child %d, finder of its child %d (0: nil, -1: no finder)", e, f, cf, ccf)
					}
					calls := [3]int{}
					mkf := func(w, n int) dgo.Finder {
						if n < 0 {
							return nil
						}
						return func(dgo.Loader, string) interface{} {
							calls[w]++
							if n == 0 {
								return nil
							}
							return n*10 + w
						}
					}
					em := vf.Map()
					if e > 0 {
						em = vf.Map("k", e)
					}
					l := loader.New(nil, "x", em, mkf(0, f), nil)
					c := l.NewChild(mkf(1, cf), nil)
					d := c.NewChild(mkf(2, ccf), nil)
					var want [3]interface{}
					wc := [3]int{}
					switch {
					case e > 0:
						want[0] = e
					case f >= 0:
						wc[0] = 1
						if f > 0 {
							want[0] = f * 10
						}
					}
					step := func(w, n int) {
						want[w] = want[w-1]
						if want[w] == nil && n >= 0 {
							wc[w] = 1
							if n > 0 {
								want[w] = n*10 + w
							}
						}
					}
					step(1, cf)
					step(2, ccf)
					t.Check("precedence", in, func() string {
						for round := 0; round < 2; round++ {
							for i, x := range []dgo.Loader{d, c, l} {
								w := 2 - i
								for _, how := range []string{"Get", "Load"} {
									var v dgo.Value
									if how == "Get" {
										v = x.Get("k")
									} else {
										v = x.Load("k")
									}
									if (v == nil) != (want[w] == nil) || v != nil && !v.Equals(want[w]) {
										return fmt.Sprintf("%s of loader %d gives %v, not %v", how, w, v, want[w])
									}
								}
							}
						}
						if calls != wc {
							return fmt.Sprintf("the finders were called %v times, not %v", calls, wc)
						}
						return ""
					})
				}
			}
		}
	}
	t.Group("cached answer")
	// a finder that loads the key it was asked for
	for _, mut := range []bool{false, true} {
		first := true
		l := loader.New(nil, "", nil, func(l dgo.Loader, k string) interface{} {
			if first {
				first = false
				l.Load(k)
			}
			if mut {
				return vf.MutableValues(1, k)
			}
			return vf.Values(1, k)
		}, nil)
		t.Check("cached answer", func() string { return fmt.Sprintf("a finder that loads its key (mutable %v)", mut) }, func() string {
			a := l.Get("k")
			if b := l.Get("k"); a != b {
				return "the first load gives another value than the second"
			}
			return ""
		})
	}
	t.Group("deep")
	// a name of n parts is found in the namespace its first n-1 parts lead to
	for n := 1; n <= 12; n++ {
		for _, child := range []bool{false, true} {
			var mk func(parent dgo.Loader, name, path string, depth int) dgo.Loader
			mk = func(parent dgo.Loader, name, path string, depth int) dgo.Loader {
				finder := func(l dgo.Loader, k string) interface{} {
					if k == "x" {
						return path + k
					}
					return nil
				}
				return loader.New(parent, name, nil, finder, func(l dgo.Loader, k string) dgo.Loader {
					if depth == 0 || (k != "a" && k != "b") {
						return nil
					}
					return mk(l, k, path+k+"/", depth-1)
				})
			}
			var l dgo.Loader = mk(nil, "", "", n-1)
			if child {
				l = l.NewChild(nil, nil)
			}
			for v := 0; v < 4; v++ {
				var parts []string
				for i := 0; i < n-1; i++ {
					parts = append(parts, []string{"a", "b"}[(v>>(uint(i)%2))&1])
				}
				for _, last := range []string{"x", "y", "a"} {
					name := strings.Join(append(parts[:len(parts):len(parts)], last), "/")
					t.Check("deep", func() string { return fmt.Sprintf("load %q (%d parts, child %v)", name, n, child) }, func() string {
						got := l.Load(name)
						if last == "x" {
							if got == nil || !got.Equals(name) {
								return fmt.Sprintf("gives %v", got)
							}
						} else if got != nil {
							return fmt.Sprintf("gives %v although no finder knows it", got)
						}
						if got = l.Load("c/" + name); got != nil {
							return fmt.Sprintf("found %v below the namespace c, which does not exist", got)
						}
						if got = l.Load(name + "/x"); got != nil {
							return fmt.Sprintf("found %v below the namespace %s, which does not exist", got, name)
						}
						return ""
					})
				}
			}
		}
	}
	t.Group("names")
	segs := []string{"", "a", "b"}
	for _, r := range segs {
		for _, a := range segs[1:] {
			for _, b := range segs[1:] {
				root := loader.New(nil, r, nil, nil, nil)
				l1 := loader.New(root, a, nil, nil, nil)
				l2 := loader.New(l1, b, nil, nil, nil)
				c := l2.NewChild(nil, nil)
				want := "/" + a + "/" + b
				if r != "" {
					want = "/" + r + want
				}
				t.Check("names", func() string { return fmt.Sprintf("root %q, %q, %q", r, a, b) }, func() string {
					if l2.AbsoluteName() != want || c.AbsoluteName() != want {
						return fmt.Sprintf("absolute names %q and (child) %q, not %q", l2.AbsoluteName(), c.AbsoluteName(), want)
					}
					if root.AbsoluteName() != "/"+r {
						return "root: " + root.AbsoluteName()
					}
					if l2.Name() != b || c.Name() != b || l2.ParentNamespace() != l1 || c.ParentNamespace() != l1 {
						return "name or parent namespace"
					}
					return ""
				})
			}
		}
	}
}
