package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// pseudo types of the contract language
var gvcPkg = types.NewPackage("gvc", "gvc")

func pseudo(n string) types.Type {
	return types.NewNamed(types.NewTypeName(token.NoPos, gvcPkg, n, nil), types.NewStruct(nil, nil), nil)
}

var (
	tVal    = types.NewInterfaceType(nil, nil)
	tIntSet = pseudo("IntSet")
	tIntMap = pseudo("IntMap")
	tVals   = pseudo("Vals") // Array Int Val
	tWorld  = pseudo("World")
)

func pseudoSort(t types.Type) (string, bool) {
	switch t {
	case tIntSet:
		return "(Array Int Bool)", true
	case tIntMap:
		return "(Array Int Int)", true
	case tVals:
		return "(Array Int Val)", true
	case tWorld:
		return "World", true
	}
	return "", false
}

func srt(t types.Type) string {
	if s, ok := pseudoSort(t); ok {
		return s
	}
	return sortOf(t)
}

func (x *Ctx) resolveType(pkg, s string) types.Type {
	switch s {
	case "int", "Int":
		return types.Typ[types.Int]
	case "bool":
		return types.Typ[types.Bool]
	case "string", "Str":
		return types.Typ[types.String]
	case "Val", "interface{}":
		return tVal
	case "float64":
		return types.Typ[types.Float64]
	case "Slice":
		return types.NewSlice(x.resolveType("dgo", "Value"))
	case "IntSet":
		return tIntSet
	case "IntMap":
		return tIntMap
	case "Vals":
		return tVals
	case "error":
		return types.Universe.Lookup("error").Type()
	case "byte":
		return types.Typ[types.Uint8]
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(x.resolveType(pkg, s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(x.resolveType(pkg, s[2:]))
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			return b
		}
	}
	if i := strings.Index(s, "."); i >= 0 {
		pkg, s = s[:i], s[i+1:]
	}
	if p := x.pr.pkgByName(pkg); p != nil {
		if tn, ok := p.Types.Scope().Lookup(s).(*types.TypeName); ok {
			return tn.Type()
		}
	}
	// imported package
	for _, p := range x.pr.Order {
		for _, im := range p.Types.Imports() {
			if im.Name() == pkg {
				if tn, ok := im.Scope().Lookup(s).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	panic(unsup("unknown type %s.%s in contract", pkg, s))
}

type sctx struct {
	x    *Ctx
	st   *State
	old  *State
	pkg  string
	env  map[string]SV
	fr   *Frame
	deep int
}

func (x *Ctx) evalSpecIn(st *State, pkg string, env map[string]SV, e *Ex, old *State) SV {
	c := &sctx{x: x, st: st, old: old, pkg: pkg, env: env}
	return c.ev(e)
}

func (x *Ctx) evalSpecFr(fr *Frame, st *State, env map[string]SV, e *Ex) SV {
	var old *State
	if fr.top != nil {
		old = fr.top.entry
	}
	c := &sctx{x: x, st: st, old: old, pkg: fr.pkg.Name, env: env, fr: fr}
	return c.ev(e)
}

func (c *sctx) with(st *State) *sctx {
	d := *c
	d.st = st
	return &d
}

func (c *sctx) bind(vs map[string]SV) *sctx {
	d := *c
	d.env = map[string]SV{}
	for k, v := range c.env {
		d.env[k] = v
	}
	for k, v := range vs {
		d.env[k] = v
	}
	return &d
}

var tBool = types.Typ[types.Bool]

func boolSV(s string) SV { return SV{T: tBool, S: "Bool", V: s} }
func intSV(s string) SV  { return SV{T: types.Typ[types.Int], S: "Int", V: s} }

func (c *sctx) lookup(name string) (SV, bool) {
	if c.fr != nil && !strings.HasPrefix(name, "$") && !strings.HasPrefix(name, "result") {
		for f := c.fr; f != nil; f = f.up {
			var best types.Object
			now := name
			if r := c.x.renamed(f.fn)[name]; r != "" {
				now = r
			}
			for k := range c.st.vars {
				if k.fr == f.id && k.obj.Name() == now {
					if best == nil || k.obj.Pos() > best.Pos() {
						best = k.obj
					}
				}
			}
			if best != nil {
				if _, shadow := c.env[name+"#q"]; !shadow {
					return c.x.readVar(f, c.st, best), true
				}
			}
		}
	}
	v, ok := c.env[name]
	if !ok && c.fr != nil {
		if r := c.x.renamed(c.fr.fn)[name]; r != "" {
			v, ok = c.env[r]
		}
	}
	return v, ok
}

func (c *sctx) ev(e *Ex) SV {
	x := c.x
	switch e.Op {
	case "int":
		return intSV(e.S)
	case "str":
		return SV{T: types.Typ[types.String], S: "Str", V: x.strLit(e.S)}
	case "id":
		switch e.S {
		case "true", "false":
			return boolSV(e.S)
		case "nil":
			return SV{T: types.Typ[types.UntypedNil], S: "nil", V: "nil"}
		}
		if v, ok := c.lookup(e.S); ok {
			return v
		}
		if sp := x.db.Specs[e.S]; sp != nil && len(sp.Params) == 0 {
			return c.call(sp, nil, e)
		}
		if v, ok := c.goName(c.pkg, e.S); ok {
			return v
		}
		panic(unsup("%s: unknown name %s in contract", e.Pos, e.S))
	case "un":
		v := c.ev(e.A[0])
		if e.S == "!" {
			return boolSV(not(v.V))
		}
		if v.S == F64 {
			return SV{T: v.T, S: v.S, V: "(fp.neg " + v.V + ")"}
		}
		return intSV(arith("-", "0", v.V))
	case "bin":
		return c.bin(e)
	case "forall", "exists":
		return c.quant(e)
	case "let":
		v := c.ev(e.A[0])
		return c.bind(map[string]SV{e.S: v, e.S + "#q": v}).ev(e.A[1])
	case "old":
		if c.old == nil {
			return c.ev(e.A[0])
		}
		return c.with(c.old).ev(e.A[0])
	case "is":
		v := c.ev(e.A[0])
		if v.S != "Val" {
			v = SV{T: tVal, S: "Val", V: x.toVal(c.st, v)}
		}
		if e.S == "nil" {
			return boolSV(eq(v.V, "vnil"))
		}
		return boolSV(x.isT(v.V, x.resolveType(c.pkg, e.S)))
	case "tag":
		return intSV(x.tag(x.resolveType(c.pkg, e.S)))
	case "as":
		v := c.ev(e.A[0])
		t := x.resolveType(c.pkg, e.S)
		if v.S == "Val" {
			return x.payload(c.st, v.V, t)
		}
		if isIface(t) {
			return SV{T: t, S: "Val", V: x.toVal(c.st, v)}
		}
		v.T = t
		return v
	case "sel":
		return c.sel(e)
	case "idx":
		a := c.ev(e.A[0])
		i := c.ev(e.A[1])
		switch a.S {
		case "Slice":
			return x.elemSel(c.st, a, i.V)
		case "Str":
			return intSV("(strat " + a.V + " " + i.V + ")")
		case "(Array Int Bool)":
			return boolSV("(select " + a.V + " " + i.V + ")")
		case "(Array Int Int)":
			return intSV("(select " + a.V + " " + i.V + ")")
		case "(Array Int Val)":
			return SV{T: tVal, S: "Val", V: "(select " + a.V + " " + i.V + ")"}
		}
		panic(unsup("%s: index of %s", e.Pos, a.S))
	case "slice":
		a := c.ev(e.A[0])
		lo, hi := "0", x.lenOf(c.st, a)
		if e.A[1] != nil {
			lo = c.ev(e.A[1]).V
		}
		if e.A[2] != nil {
			hi = c.ev(e.A[2]).V
		}
		if a.S == "Str" {
			return SV{T: a.T, S: "Str", V: "(strsub " + a.V + " " + lo + " " + hi + ")"}
		}
		return SV{T: a.T, S: "Slice", V: "(mkSlice " + selOf("sarr", a.V) + " " + subOff(selOf("soff", a.V), lo) + " " + arith("-", hi, lo) + " " + arith("-", selOf("scap", a.V), lo) + ")"}
	case "call":
		f := e.A[0]
		if f.Op == "id" {
			if v, ok := c.env[f.S]; ok && v.S == "specfn" {
				return v.Fn(c.ev(e.A[1]))
			}
			if v, ok := c.builtin(f.S, e); ok {
				return v
			}
			sp := x.db.Specs[f.S]
			if sp == nil {
				// conversion to a Go type
				if len(e.A) == 2 {
					if _, isb := types.Universe.Lookup(f.S).(*types.TypeName); isb {
						v := c.ev(e.A[1])
						v.T = x.resolveType(c.pkg, f.S)
						return v
					}
					if p := x.pr.pkgByName(c.pkg); p != nil {
						if tn, ok := p.Types.Scope().Lookup(f.S).(*types.TypeName); ok {
							v := c.ev(e.A[1])
							return SV{T: tn.Type(), S: v.S, V: v.V}
						}
					}
				}
				panic(unsup("%s: unknown spec function %s", e.Pos, f.S))
			}
			return c.call(sp, e.A[1:], e)
		}
		panic(unsup("%s: call in contract", e.Pos))
	}
	panic(unsup("spec %s", e.Op))
}

func (c *sctx) goName(pkg, name string) (SV, bool) {
	p := c.x.pr.pkgByName(pkg)
	if p == nil {
		// a constant of a package that the repository imports
		for _, q := range c.x.pr.Order {
			for _, im := range q.Types.Imports() {
				if im.Name() == pkg {
					if o, ok := im.Scope().Lookup(name).(*types.Const); ok {
						return c.x.constSV(o.Val(), o.Type()), true
					}
				}
			}
		}
		return SV{}, false
	}
	switch o := p.Types.Scope().Lookup(name).(type) {
	case *types.Const:
		t := o.Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		return c.x.constSV(o.Val(), t), true
	case *types.Var:
		return c.x.global(c.st, o), true
	}
	return SV{}, false
}

func (c *sctx) sel(e *Ex) SV {
	x := c.x
	if e.A[0].Op == "id" {
		n := e.A[0].S
		if _, isVar := c.lookup(n); !isVar {
			if n == "math" {
				switch e.S {
				case "MaxInt64":
					return intSV("9223372036854775807")
				case "MinInt64":
					return intSV("(- 9223372036854775808)")
				case "MaxFloat64":
					return SV{T: types.Typ[types.Float64], S: F64, V: floatLit(1.7976931348623157e308)}
				}
			}
			if v, ok := c.goName(n, e.S); ok {
				return v
			}
		}
	}
	v := c.ev(e.A[0])
	if strings.HasPrefix(e.S, "$") {
		g, ok := x.ghostField(v.T, e.S)
		if !ok {
			panic(unsup("%s: no ghost field %s", e.Pos, e.S))
		}
		s := srt(g.t)
		a := x.hget(c.st, g.name, s)
		return SV{T: g.t, S: s, V: "(select " + a + " " + refTerm(v) + ")"}
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		f := findField(p.Elem(), e.S)
		if f == nil {
			panic(unsup("%s: no field %s in %s", e.Pos, e.S, v.T))
		}
		return x.loadField(c.st, v.V, f)
	}
	if v.S == "struct" {
		if r, ok := v.F[e.S]; ok {
			return r
		}
		for _, sub := range v.F {
			if sub.S == "struct" {
				if r, ok := sub.F[e.S]; ok {
					return r
				}
			}
		}
	}
	panic(unsup("%s: field %s of %s", e.Pos, e.S, v.T))
}

type ghostF struct {
	name string
	t    types.Type
}

// refTerm: ghost fields of an interface are those of what the value refers to.
func refTerm(v SV) string {
	if v.S == "Val" {
		return "(rref " + v.V + ")"
	}
	return v.V
}

func (x *Ctx) ghostField(t types.Type, n string) (ghostF, bool) {
	pt := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if nt, ok := t.(*types.Named); ok {
		k := nt.Obj().Name() + "." + n
		if g, ok := x.db.Ghosts[k]; ok {
			return ghostF{"H!" + k, x.resolveType(nt.Obj().Pkg().Name(), g)}, true
		}
		if st, ok := nt.Underlying().(*types.Struct); ok {
			// an embedded struct has the address of the struct that embeds it
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Embedded() && sortOf(f.Type()) == "struct" {
					if g, ok := x.ghostField(f.Type(), n); ok {
						return g, true
					}
				}
			}
		}
		if _, isP := pt.Underlying().(*types.Pointer); isP && nt.Obj().Pkg() != nil {
			// the ghost field of an interface that the pointer implements: it is the same field
			for _, p := range nt.Obj().Pkg().Imports() {
				for _, in := range p.Scope().Names() {
					g, ok := x.db.Ghosts[in+"."+n]
					if !ok {
						continue
					}
					if it, ok := p.Scope().Lookup(in).Type().Underlying().(*types.Interface); ok && types.Implements(pt, it) {
						return ghostF{"H!" + in + "." + n, x.resolveType(nt.Obj().Pkg().Name(), g)}, true
					}
				}
			}
		}
	}
	return ghostF{}, false
}

func (c *sctx) coerceTo(v SV, t types.Type) SV {
	if _, ok := pseudoSort(t); ok {
		return v
	}
	if isIface(t) && v.S != "Val" {
		return SV{T: t, S: "Val", V: c.x.toVal(c.st, v)}
	}
	if v.S == "nil" {
		return c.x.zero(t)
	}
	return v
}

func (c *sctx) builtin(name string, e *Ex) (SV, bool) {
	x := c.x
	arg := func(i int) SV { return c.ev(e.A[i+1]) }
	switch name {
	case "len":
		return intSV(x.lenOf(c.st, arg(0))), true
	case "cap":
		return intSV(selOf("scap", arg(0).V)), true
	case "arr":
		return intSV(selOf("sarr", arg(0).V)), true
	case "off":
		return intSV(selOf("soff", arg(0).V)), true
	case "ite":
		cnd, a, b := arg(0), arg(1), arg(2)
		if a.S == "nil" || b.S == "nil" {
			if a.S == "nil" {
				a = x.zero(b.T)
			} else {
				b = x.zero(a.T)
			}
		}
		if a.S != b.S {
			a = SV{T: tVal, S: "Val", V: x.toVal(c.st, a)}
			b = SV{T: tVal, S: "Val", V: x.toVal(c.st, b)}
		}
		if cnd.V == "true" {
			return a, true
		}
		if cnd.V == "false" {
			return b, true
		}
		return SV{T: a.T, S: a.S, V: "(ite " + cnd.V + " " + a.V + " " + b.V + ")"}, true
	case "val":
		return SV{T: tVal, S: "Val", V: x.toVal(c.st, arg(0))}, true
	case "same": // logical identity
		a, b := arg(0), arg(1)
		if a.S != b.S {
			return boolSV(eq(x.toVal(c.st, a), x.toVal(c.st, b))), true
		}
		return boolSV(eq(a.V, b.V)), true
	case "goeq": // Go's == on interfaces
		return boolSV(x.equalSV(c.st, arg(0), arg(1))), true
	case "fresh":
		v := arg(0)
		top := "alloc0"
		if c.old != nil {
			top = c.old.alloc
		}
		switch v.S {
		case "Slice":
			return boolSV("(> " + selOf("sarr", v.V) + " " + top + ")"), true
		case "Val":
			return boolSV("(and ((_ is vref) " + v.V + ") (> (rref " + v.V + ") " + top + "))"), true
		}
		return boolSV("(> " + v.V + " " + top + ")"), true
	case "allocated":
		v := arg(0)
		switch v.S {
		case "Slice":
			return boolSV("(<= " + selOf("sarr", v.V) + " " + c.st.alloc + ")"), true
		case "Val":
			return boolSV("(valalloc " + v.V + " " + c.st.alloc + ")"), true
		}
		return boolSV("(and (< 0 " + v.V + ") (<= " + v.V + " " + c.st.alloc + "))"), true
	case "isnan":
		return boolSV("(fp.isNaN " + arg(0).V + ")"), true
	case "isinf":
		return boolSV("(fp.isInfinite " + arg(0).V + ")"), true
	case "unf":
		return boolSV("(unf " + x.toVal(c.st, arg(0)) + ")"), true
	case "refof": // identity of what an interface value refers to
		return intSV("(rref " + x.toVal(c.st, arg(0)) + ")"), true
	case "tagof":
		return intSV("(tagv " + x.toVal(c.st, arg(0)) + ")"), true
	case "gohas", "goget": // entries of a go map
		mt, ok := mapType(arg(0).T)
		if !ok {
			panic(unsup("%s: %s of %s", e.Pos, name, arg(0).T))
		}
		h, hs, g, gs := mapHeap(mt)
		k := c.coerceTo(arg(1), mt.Key())
		if name == "gohas" {
			return boolSV("(select (select " + x.hget(c.st, h, hs) + " " + arg(0).V + ") " + k.V + ")"), true
		}
		return SV{T: mt.Elem(), S: sortOf(mt.Elem()), V: "(select (select " + x.hget(c.st, g, gs) + " " + arg(0).V + ") " + k.V + ")"}, true
	case "app":
		// application of a callback
		f := arg(0)
		var args []SV
		for i := 2; i < len(e.A); i++ {
			args = append(args, c.ev(e.A[i]))
		}
		sig, ok := f.T.Underlying().(*types.Signature)
		if !ok {
			panic(unsup("%s: app of non-function", e.Pos))
		}
		for i := range args {
			args[i] = c.coerceTo(args[i], sig.Params().At(i).Type())
		}
		rt := sig.Results().At(0).Type()
		return SV{T: rt, S: sortOf(rt), V: x.applyTerm(f.V, args, sortOf(rt), 0)}, true
	case "vals":
		s := arg(0)
		n, es := x.elemName(s.T.Underlying().(*types.Slice).Elem())
		return SV{T: tVals, S: "(Array Int Val)", V: "(select " + x.hget(c.st, n, "(Array Int "+es+")") + " " + selOf("sarr", s.V) + ")"}, true
	case "ncalls":
		return intSV("(select " + x.hget(c.st, callsN, "Int") + " " + arg(0).V + ")"), true
	case "callarg", "callarg2":
		h := callsA
		if name == "callarg2" {
			h = callsB
		}
		return SV{T: tVal, S: "Val", V: "(select (select " + x.hget(c.st, h, "(Array Int Val)") + " " + arg(0).V + ") " + arg(1).V + ")"}, true
	case "i2f":
		return SV{T: types.Typ[types.Float64], S: F64, V: "(i2f " + arg(0).V + ")"}, true
	case "f2i":
		return intSV("(f2i " + arg(0).V + ")"), true
	case "wadd", "wmul", "wsub":
		return intSV("(" + name + " " + arg(0).V + " " + arg(1).V + ")"), true
	case "bxor", "band", "bor":
		return intSV("(" + map[string]string{"bxor": "bvxorI", "band": "bvandI", "bor": "bvorI"}[name] + " " + arg(0).V + " " + arg(1).V + ")"), true
	case "shr":
		if n := arg(1).V; isNum(n) {
			return intSV("(div " + arg(0).V + " " + pow2(int(toBig(n).Int64())).String() + ")"), true
		}
	case "strcat":
		return SV{T: types.Typ[types.String], S: "Str", V: "(strcat " + arg(0).V + " " + arg(1).V + ")"}, true
	case "strlt":
		return boolSV("(strlt " + arg(0).V + " " + arg(1).V + ")"), true
	case "store":
		a, i, v := arg(0), arg(1), arg(2)
		return SV{T: a.T, S: a.S, V: "(store " + a.V + " " + i.V + " " + v.V + ")"}, true
	case "heapsame":
		// heapsame(T.f): the field is unchanged everywhere
		a := e.A[1]
		if a.Op == "sel" && a.A[0].Op == "id" && c.old != nil {
			t := x.resolveType(c.pkg, a.A[0].S)
			f := findField(t, a.S)
			n := "H!" + x.fieldName(f)
			return boolSV(eq(x.hget(c.st, n, sortOf(f.Type())), x.hget(c.old, n, sortOf(f.Type())))), true
		}
	case "allocmark":
		return intSV(c.st.alloc), true
	}
	return SV{}, false
}

func (c *sctx) bin(e *Ex) SV {
	x := c.x
	a := c.ev(e.A[0])
	switch e.S {
	case "&&":
		if a.V == "false" {
			return a
		}
		return boolSV(and(a.V, c.ev(e.A[1]).V))
	case "||":
		if a.V == "true" {
			return a
		}
		return boolSV(or(a.V, c.ev(e.A[1]).V))
	case "==>":
		if a.V == "false" {
			return boolSV("true")
		}
		return boolSV(implies(a.V, c.ev(e.A[1]).V))
	case "<==>":
		return boolSV(eq(a.V, c.ev(e.A[1]).V))
	}
	b := c.ev(e.A[1])
	switch e.S {
	case "==", "!=":
		var r string
		if a.S == "nil" || b.S == "nil" {
			r = x.equalSV(c.st, a, b)
		} else if a.S == "Val" || b.S == "Val" {
			r = eq(x.toVal(c.st, a), x.toVal(c.st, b))
		} else if a.S == F64 {
			r = "(fp.eq " + a.V + " " + b.V + ")"
		} else if a.S == "struct" {
			r = x.equalSV(c.st, a, b)
		} else {
			r = eq(a.V, b.V)
		}
		if e.S == "!=" {
			r = not(r)
		}
		return boolSV(r)
	case "<", "<=", ">", ">=":
		if a.S == F64 {
			return boolSV("(" + map[string]string{"<": "fp.lt", "<=": "fp.leq", ">": "fp.gt", ">=": "fp.geq"}[e.S] + " " + a.V + " " + b.V + ")")
		}
		if a.S != "Int" {
			panic(unsup("comparison of %s in contract", a.S))
		}
		return boolSV(cmpT(e.S, a.V, b.V))
	case "+", "-", "*":
		if a.S == "Str" {
			return SV{T: types.Typ[types.String], S: "Str", V: "(strcat " + a.V + " " + b.V + ")"}
		}
		return intSV(arith(e.S, a.V, b.V))
	case "/":
		return intSV("(div " + a.V + " " + b.V + ")")
	case "%":
		return intSV("(mod " + a.V + " " + b.V + ")")
	}
	panic(unsup("spec operator %s", e.S))
}

func (c *sctx) quant(e *Ex) SV {
	b, body, _ := c.quantParts(e, "")
	if body == "true" {
		return boolSV("true")
	}
	return boolSV("(" + e.Op + " (" + b + ") " + body + ")")
}

func (c *sctx) quantParts(e *Ex, extraBind string) (binders, body string, guards []string) {
	x := c.x
	vs := map[string]SV{}
	var bs []string
	if extraBind != "" {
		bs = append(bs, extraBind)
	}
	for _, p := range e.Vars {
		t := x.resolveType(c.pkg, p.Ty)
		x.nfresh++
		n := fmt.Sprintf("%s!%d", strings.ReplaceAll(p.Name, "'", "."), x.nfresh)
		s := srt(t)
		vs[p.Name] = SV{T: t, S: s, V: n}
		vs[p.Name+"#q"] = SV{}
		bs = append(bs, "("+n+" "+s+")")
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && p.Ty != "int" && p.Ty != "Int" {
			lo, hi := intRange(t)
			if lo != nil {
				guards = append(guards, "(<= "+num(lo)+" "+n+")", "(<= "+n+" "+num(hi)+")")
			}
		}
	}
	d := c.bind(vs)
	body = d.ev(e.A[0]).V
	if len(guards) > 0 {
		if e.Op == "forall" {
			body = implies(and(guards...), body)
		} else {
			body = and(append(guards, body)...)
		}
	}
	if len(e.Trig) > 0 && e.Op == "forall" {
		var ts []string
		for _, tr := range e.Trig {
			var parts []string
			for _, t := range tr {
				parts = append(parts, d.ev(t).V)
			}
			ts = append(ts, ":pattern ("+strings.Join(parts, " ")+")")
		}
		if body != "true" {
			body = "(! " + body + " " + strings.Join(ts, " ") + ")"
		}
	}
	return strings.Join(bs, " "), body, guards
}

func (c *sctx) call(sp *SpecFn, args []*Ex, e *Ex) SV {
	x := c.x
	if len(args) != len(sp.Params) {
		panic(unsup("%s: %s expects %d arguments", e.Pos, sp.Name, len(sp.Params)))
	}
	var vs []SV
	for i, a := range args {
		vs = append(vs, c.coerceTo(c.ev(a), x.resolveType(c.pkg, sp.Params[i].Ty)))
	}
	if sp.Macro {
		if c.deep > 40 {
			panic(unsup("macro recursion in %s", sp.Name))
		}
		env := map[string]SV{}
		for i, p := range sp.Params {
			v := vs[i]
			env[p.Name] = v
		}
		d := *c
		d.env = env
		d.fr = nil
		d.deep++
		return c.coerceTo(d.ev(sp.Body), x.resolveType(c.pkg, sp.Ret))
	}
	rt := x.resolveType(c.pkg, sp.Ret)
	var ss, ts []string
	if sp.World {
		ss = append(ss, "World")
		ts = append(ts, x.specWorld(sp, c.st))
	}
	for i, v := range vs {
		s := srt(x.resolveType(c.pkg, sp.Params[i].Ty))
		if v.S != s {
			panic(unsup("%s: argument %d of %s has sort %s, want %s", e.Pos, i+1, sp.Name, v.S, s))
		}
		ss = append(ss, s)
		ts = append(ts, v.V)
	}
	n := x.declFun("S!"+sp.Name, ss, srt(rt))
	if len(ts) == 0 {
		return SV{T: rt, S: srt(rt), V: n}
	}
	return SV{T: rt, S: srt(rt), V: "(" + n + " " + strings.Join(ts, " ") + ")"}
}

// specWorld names the current heap as far as sp depends on it. The world of a narrow function differs from the
// root in the fields it reads only; it is a heap like any other, so that what holds in all worlds holds in it.
func (x *Ctx) specWorld(sp *SpecFn, st *State) string {
	if !sp.Narrow || x.specReads[sp.Name] == nil || x.worldFields == nil {
		return x.worldTerm(st)
	}
	h := map[string]string{}
	key := st.root
	for _, f := range sortedKeys(x.specReads[sp.Name]) {
		if t, ok := st.heap[f]; ok {
			h[f] = t
			key += "|" + f + "=" + t
		}
	}
	if len(h) == 0 {
		return st.root
	}
	if !st.wmods {
		key += "|alloc"
	}
	if w, ok := x.narrowW[key]; ok {
		return w
	}
	w := x.fresh("world", "World")
	x.worlds[w] = &worldRec{name: w, root: st.root, heap: h, allocOnly: !st.wmods}
	x.narrowW[key] = w
	return w
}

// narrowReads computes the fields narrow functions depend on: those read by their cases and by the functions these use.
func (x *Ctx) narrowReads() {
	for n, sp := range x.db.Specs {
		if !sp.Narrow {
			continue
		}
		reads := map[string]bool{}
		todo := []string{"S!" + n}
		seen := map[string]bool{"S!" + n: true}
		ok := true
		for len(todo) > 0 {
			f := todo[0]
			todo = todo[1:]
			if len(x.caseText[f]) == 0 {
				ok = false
			}
			for _, c := range x.caseText[f] {
				for _, s := range tokens(c.text) {
					switch {
					case strings.HasPrefix(s, "H!") || strings.HasPrefix(s, "E!"):
						reads[s] = true
					case strings.HasPrefix(s, "S!") && !seen[s]:
						seen[s] = true
						if o := x.db.Specs[s[2:]]; o != nil && o.World {
							todo = append(todo, s)
						}
					}
				}
			}
			for _, a := range x.axText {
				for _, s := range tokens(a.text) {
					if s == f {
						ok = false // constrained by an axiom too: no claim about what it reads
					}
				}
			}
		}
		if ok {
			x.specReads[n] = reads
		}
	}
}

// worldTerm names the current heap.
func (x *Ctx) worldTerm(st *State) string {
	over := false
	for f := range st.heap {
		if x.worldFields == nil || x.worldFields[f] {
			over = true
		}
	}
	if !over {
		return st.root
	}
	if st.world != "" {
		return st.world
	}
	w := x.fresh("world", "World")
	h := map[string]string{}
	for k, v := range st.heap {
		h[k] = v
	}
	x.worlds[w] = &worldRec{name: w, root: st.root, heap: h, allocOnly: !st.wmods}
	st.world = w
	return w
}

type caseAx struct {
	tag  string
	text string
	fn   string
}

type axiomText struct {
	name  string
	text  string
	syms  []string
	lemma bool
	idx   int
	auto  bool
}

// pseudoState is the symbolic state in which axioms are evaluated: an arbitrary world W!.
func (x *Ctx) pseudoState() *State {
	return &State{vars: map[varKey]SV{}, heap: map[string]string{}, root: "W!", set: map[string]bool{}, alloc: "alloc0", ghost: map[string]SV{}}
}

// prepare renders definitional cases and axioms.
func (x *Ctx) prepare() error {
	x.decls["alloc0"] = "(declare-fun alloc0 () Int)"
	x.worldFields = nil
	var err error
	guard := func(pos string, f func()) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupErr); ok {
					x.notes["contract item at "+pos+" cannot be evaluated on this tree: "+u.msg] = true
					return
				}
				panic(r)
			}
		}()
		f()
	}
	wf := map[string]bool{}
	for _, cd := range x.db.Cases {
		cd := cd
		guard(cd.Pos, func() {
			sp := x.db.Specs[cd.Fn]
			if sp == nil {
				panic(unsup("case for unknown function %s", cd.Fn))
			}
			st := x.pseudoState()
			t := x.resolveType("internal", cd.Ty)
			env := map[string]SV{}
			var binders, args []string
			needW := sp.World
			if sp.World {
				args = append(args, "W!")
			}
			var cond string
			for i, p := range sp.Params {
				pt := x.resolveType("internal", p.Ty)
				s := srt(pt)
				n := fmt.Sprintf("c%d!", i)
				binders = append(binders, "("+n+" "+s+")")
				args = append(args, n)
				sv := SV{T: pt, S: s, V: n}
				if i == 0 {
					cond = x.isT(n, t)
					sv = x.payload(st, n, t)
				}
				env[cd.Vars[i]] = sv
			}
			pk := "internal"
			c := &sctx{x: x, st: st, pkg: pk, env: env}
			body := c.ev(cd.Body)
			body = c.coerceTo(body, x.resolveType("internal", sp.Ret))
			fn := "S!" + cd.Fn
			var ss []string
			if sp.World {
				ss = append(ss, "World")
			}
			for _, p := range sp.Params {
				ss = append(ss, srt(x.resolveType("internal", p.Ty)))
			}
			x.declFun(fn, ss, srt(x.resolveType("internal", sp.Ret)))
			app := "(" + fn + " " + strings.Join(args, " ") + ")"
			if !needW && strings.Contains(body.V, "W!") {
				panic(unsup("case %s reads the heap but %s is not a world function", cd.Pos, cd.Fn))
			}
			bl := strings.Join(binders, " ")
			if needW {
				bl = "(W! World) " + bl
			}
			text := "(assert (forall (" + bl + ") (! (=> " + cond + " " + eq2(app, body.V) + ") :pattern ((unf c0!) " + app + "))))"
			tg := "T!" + sanitize(typeStr(t))
			if isIface(t) {
				tg = "impl!" + sanitize(typeStr(t))
			}
			x.caseText[fn] = append(x.caseText[fn], caseAx{tag: tg, text: text, fn: fn})
			for _, s := range tokens(text) {
				if strings.HasPrefix(s, "H!") || strings.HasPrefix(s, "E!") {
					wf[s] = true
				}
			}
		})
	}
	for i, a := range x.db.Axioms {
		i, a := i, a
		guard(a.Pos, func() {
			t := x.renderAxiom(a.Body)
			x.axText = append(x.axText, axiomText{name: a.Name, text: t, lemma: a.Lemma, idx: i, auto: !a.NoAuto})
			for _, s := range tokens(t) {
				if strings.HasPrefix(s, "H!") || strings.HasPrefix(s, "E!") {
					wf[s] = true
				}
			}
		})
	}
	// heap reads of ghost/world fields referenced from extra declarations
	x.worldFields = wf
	x.narrowReads()
	return err
}

func eq2(a, b string) string {
	return "(= " + a + " " + b + ")"
}

func (x *Ctx) renderAxiom(e *Ex) string {
	st := x.pseudoState()
	c := &sctx{x: x, st: st, pkg: "internal", env: map[string]SV{}}
	if e.Op == "forall" {
		b, body, _ := c.quantParts(e, "")
		if strings.Contains(body, "W!") {
			b = "(W! World) " + b
			if ps := strings.Split(body, ":pattern"); len(ps) > 1 {
				for _, p := range ps[1:] {
					if !strings.Contains(p, "W!") {
						panic(unsup("an axiom reads the heap but one of its triggers does not: a function that is not a world function is used for what depends on the heap"))
					}
				}
			}
		}
		return "(assert (forall (" + b + ") " + body + "))"
	}
	body := c.ev(e).V
	if strings.Contains(body, "W!") {
		return "(assert (forall ((W! World)) " + body + "))"
	}
	return "(assert " + body + ")"
}

// tokens splits SMT text into symbols.
func tokens(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			i++
			continue
		}
		j := i
		for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' && s[j] != '\n' {
			j++
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

var _ = sort.Strings
var _ = constant.MakeBool
