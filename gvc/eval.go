package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type K func(*State, SV)

func (x *Ctx) step() {
	x.steps++
	if x.steps > 400000 {
		panic(unsup("too many symbolic steps"))
	}
}

func (x *Ctx) typeOf(fr *Frame, e ast.Expr) types.Type { return fr.pkg.Info.TypeOf(e) }

// ev evaluates expression e.
func (x *Ctx) ev(fr *Frame, e ast.Expr, st *State, k K) {
	if st.dead {
		return
	}
	x.step()
	info := fr.pkg.Info
	tv := info.Types[e]
	if tv.Value != nil {
		t := tv.Type
		if isIface(t) {
			t = types.Default(t)
		}
		k(st, x.constSV(tv.Value, t))
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.ev(fr, e.X, st, k)
	case *ast.Ident:
		if e.Name == "nil" {
			if _, ok := info.Uses[e].(*types.Nil); ok {
				k(st, SV{T: types.Typ[types.UntypedNil], S: "nil", V: "nil"})
				return
			}
		}
		switch o := info.ObjectOf(e).(type) {
		case *types.Var:
			k(st, x.readVar(fr, st, o))
		case *types.Func:
			k(st, SV{T: o.Type(), S: "clo", Clo: &Closure{fn: o, fr: fr}})
		default:
			panic(unsup("identifier %s", e.Name))
		}
	case *ast.FuncLit:
		k(st, SV{T: x.typeOf(fr, e), S: "clo", Clo: &Closure{lit: e, fr: fr}})
	case *ast.SelectorExpr:
		x.evSelector(fr, e, st, k)
	case *ast.StarExpr:
		x.ev(fr, e.X, st, func(st *State, p SV) {
			x.safety(fr, st, e, "nil dereference", not(eq(p.V, "0")))
			k(st, x.nameIt(st, x.loadDeref(st, p.V, x.typeOf(fr, e))))
		})
	case *ast.UnaryExpr:
		x.evUnary(fr, e, st, k)
	case *ast.BinaryExpr:
		x.evBinary(fr, e, st, k)
	case *ast.CallExpr:
		x.evCall(fr, e, st, func(st *State, v SV) {
			k(st, v)
		})
	case *ast.IndexExpr:
		x.ev(fr, e.X, st, func(st *State, a SV) {
			x.ev(fr, e.Index, st, func(st *State, i SV) {
				k(st, x.index(fr, st, e, a, i))
			})
		})
	case *ast.SliceExpr:
		x.evSlice(fr, e, st, k)
	case *ast.TypeAssertExpr:
		x.ev(fr, e.X, st, func(st *State, v SV) {
			t := x.typeOf(fr, e)
			if tt, ok := t.(*types.Tuple); ok {
				// comma-ok form is handled by the assignment
				t = tt.At(0).Type()
			}
			c := x.isT(v.V, t)
			x.safety(fr, st, e, "type assertion", c)
			k(st, x.narrow(st, v, t))
		})
	case *ast.CompositeLit:
		x.evComposite(fr, e, st, false, k)
	default:
		panic(unsup("expression %T at %s", e, x.posOf(e)))
	}
}

// narrow: v is known to have dynamic type t.
func (x *Ctx) narrow(st *State, v SV, t types.Type) SV {
	if isIface(t) {
		if !isIface(v.T) {
			return v
		}
		return SV{T: t, S: "Val", V: v.V}
	}
	r := x.payload(st, v.V, t)
	if x.staticDyn(v.V) == nil {
		st.assume("(unf " + v.V + ")")
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		st.assume("(< 0 " + r.V + ")")
		st.assume("(<= " + r.V + " " + st.alloc + ")")
		x.assumeInv(st, r)
	} else if r.S == "Int" || r.S == "Slice" {
		x.wf(st, r)
	}
	return r
}

// assumeInv assumes the type invariant of a pointer value.
func (x *Ctx) assumeInv(st *State, v SV) {
	p, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return
	}
	key := "*" + n.Obj().Name()
	for _, iv := range x.db.Invs[key] {
		t := x.evalSpecIn(st, n.Obj().Pkg().Name(), map[string]SV{"self": v}, iv.Body, nil)
		st.assume(t.V)
	}
	if stt, ok := p.Elem().Underlying().(*types.Struct); ok {
		if lf := x.lateVar(stt); lf != nil {
			// the self reference of an exact type; set (and checked) right after construction
			f := x.declFun("C!"+x.fieldName(lf), []string{"Int"}, sortOf(lf.Type()))
			st.assume("(= (" + f + " " + v.V + ") " + x.toVal(st, v) + ")")
		}
	}
}

// lateVar finds the late initialised self reference of a struct.
func (x *Ctx) lateVar(stt *types.Struct) *types.Var {
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		if x.lateField(f) {
			return f
		}
		if sub, ok := f.Type().Underlying().(*types.Struct); ok {
			if r := x.lateVar(sub); r != nil {
				return r
			}
		}
	}
	return nil
}

// safety records a no-panic obligation (or accounts the panic to the contract) and continues under cond.
func (x *Ctx) safety(fr *Frame, st *State, n ast.Node, what, cond string) {
	if cond == "true" || st.dead {
		return
	}
	if !st.set[cond] {
		if cond == "false" {
			s2 := st.clone()
			x.panicked(fr, s2, n, what)
			st.dead = true
			return
		}
		x.panicCond(fr, st, n, what, not(cond))
	}
	st.assume(cond)
}

// panicCond: the code panics when c holds in st.
func (x *Ctx) panicCond(fr *Frame, st *State, n ast.Node, what, c string) {
	if x.noObl > 0 || fr.top == nil {
		return
	}
	if fr.top.mayAny && !fr.top.onpanic {
		return
	}
	s2 := st.clone()
	s2.assume(c)
	if s2.dead {
		return
	}
	x.panicked(fr, s2, n, what)
}

func (x *Ctx) panicked(fr *Frame, st *State, n ast.Node, what string) {
	if x.noObl > 0 || st.dead {
		return
	}
	top := fr.top
	if !top.mayAny {
		goal := or(append(append([]string{}, top.maypanic...), top.mustpanic...)...)
		x.oblige(st, fr, "no-panic", "nopanic:"+what, goal, x.posOf(n), nil)
	}
	if top.onpanic {
		if top.panicWhen != "" {
			st = st.clone()
			st.assume(top.panicWhen)
			if st.dead {
				return
			}
		}
		x.frameOblig(fr, st, n, true)
	}
}

func (x *Ctx) evSelector(fr *Frame, e *ast.SelectorExpr, st *State, k K) {
	info := fr.pkg.Info
	sel := info.Selections[e]
	if sel == nil {
		// qualified identifier
		switch o := info.Uses[e.Sel].(type) {
		case *types.Var:
			k(st, x.global(st, o))
		case *types.Func:
			k(st, SV{T: o.Type(), S: "clo", Clo: &Closure{fn: o, fr: fr}})
		default:
			panic(unsup("selector %s", e.Sel.Name))
		}
		return
	}
	switch sel.Kind() {
	case types.FieldVal:
		x.ev(fr, e.X, st, func(st *State, v SV) {
			k(st, x.fieldPath(fr, st, e, v, sel.Index()))
		})
	case types.MethodVal:
		if fn := sel.Obj().(*types.Func); len(sel.Index()) == 1 {
			// method with pointer receiver on an addressable struct field
			_, wantPtr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer)
			if id, ok := ast.Unparen(e.X).(*ast.Ident); ok && wantPtr && sortOf(info.TypeOf(e.X)) == "struct" {
				// ... or variable
				if vk, ok := x.lookupVar(fr, st, info.Uses[id]); ok && st.vars[vk].S == "box" {
					r := SV{T: st.vars[vk].T, S: "Int", V: st.vars[vk].V}
					k(st, SV{T: sel.Type(), S: "clo", Clo: &Closure{fn: fn, recv: &r, fr: fr}})
					return
				}
			}
			if inner, ok := ast.Unparen(e.X).(*ast.SelectorExpr); ok && wantPtr && sortOf(info.TypeOf(e.X)) == "struct" {
				if is := info.Selections[inner]; is != nil && is.Kind() == types.FieldVal {
					x.ev(fr, inner.X, st, func(st *State, v SV) {
						if _, isP := v.T.Underlying().(*types.Pointer); !isP {
							panic(unsup("pointer method on struct value"))
						}
						x.safety(fr, st, e, "nil dereference", not(eq(v.V, "0")))
						r := x.fieldPathAddr(fr, st, e, v, is.Index())
						k(st, SV{T: sel.Type(), S: "clo", Clo: &Closure{fn: fn, recv: &r, fr: fr}})
					})
					return
				}
			}
		}
		x.ev(fr, e.X, st, func(st *State, v SV) {
			fn := sel.Obj().(*types.Func)
			rv := v
			if v.S != "clo" && len(sel.Index()) > 1 {
				rv = x.methodRecv(fr, st, e, v, sel.Index()[:len(sel.Index())-1], fn)
			}
			k(st, SV{T: sel.Type(), S: "clo", Clo: &Closure{fn: fn, recv: &rv, fr: fr}})
		})
	default:
		panic(unsup("method expression"))
	}
}

// fieldPath follows a field index path from v, loading through pointers.
func (x *Ctx) fieldPath(fr *Frame, st *State, n ast.Node, v SV, path []int) SV {
	for pi, i := range path {
		t := v.T
		if p, ok := t.Underlying().(*types.Pointer); ok {
			x.safety(fr, st, n, "nil dereference", not(eq(v.V, "0")))
			stt := p.Elem().Underlying().(*types.Struct)
			f := stt.Field(i)
			if sortOf(f.Type()) == "struct" && pi < len(path)-1 {
				v = SV{T: types.NewPointer(f.Type()), S: "Int", V: subAddr(v.V, f)}
				continue
			}
			ref := v.V
			v = x.loadField(st, v.V, f)
			x.wf(st, v)
			x.wfEntry(st, ref, f)
			v = x.nameIt(st, v)
			continue
		}
		stt, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(unsup("field of %s", t))
		}
		v = x.structField(v, stt.Field(i))
	}
	return v
}

func (x *Ctx) evUnary(fr *Frame, e *ast.UnaryExpr, st *State, k K) {
	switch e.Op {
	case token.AND:
		switch y := ast.Unparen(e.X).(type) {
		case *ast.CompositeLit:
			x.evComposite(fr, y, st, true, k)
			return
		case *ast.Ident:
			o := fr.pkg.Info.Uses[y]
			if kk, ok := x.lookupVar(fr, st, o); ok {
				v := st.vars[kk]
				if v.S == "box" {
					k(st, SV{T: x.typeOf(fr, e), S: "Int", V: v.V})
					return
				}
			}
			panic(unsup("address of %s", y.Name))
		case *ast.SelectorExpr:
			// &p.field
			if sel := fr.pkg.Info.Selections[y]; sel != nil && sel.Kind() == types.FieldVal && sortOf(sel.Obj().Type()) == "struct" {
				x.ev(fr, y.X, st, func(st *State, v SV) {
					f := sel.Obj().(*types.Var)
					if !f.Embedded() && len(sel.Index()) > 1 {
						panic(unsup("address of a promoted field"))
					}
					if _, isP := v.T.Underlying().(*types.Pointer); !isP {
						panic(unsup("address of a field of a struct value"))
					}
					x.safety(fr, st, e, "nil dereference", not(eq(v.V, "0")))
					k(st, SV{T: x.typeOf(fr, e), S: "Int", V: subAddr(v.V, f)})
				})
				return
			}
		}
		panic(unsup("address-of at %s", x.posOf(e)))
	case token.NOT:
		x.ev(fr, e.X, st, func(st *State, v SV) { v.V = not(v.V); k(st, v) })
	case token.SUB:
		x.ev(fr, e.X, st, func(st *State, v SV) {
			if v.S == F64 {
				v.V = "(fp.neg " + v.V + ")"
				k(st, v)
				return
			}
			k(st, x.overflow(fr, st, e, SV{T: v.T, S: v.S, V: arith("-", "0", v.V)}))
		})
	case token.ADD:
		x.ev(fr, e.X, st, k)
	case token.XOR:
		x.ev(fr, e.X, st, func(st *State, v SV) {
			v.V = arith("-", arith("-", "0", v.V), "1")
			k(st, v)
		})
	default:
		panic(unsup("unary %s", e.Op))
	}
}

// overflow: machine arithmetic must not overflow (obligation), unless the contract says wrap.
func (x *Ctx) overflow(fr *Frame, st *State, n ast.Node, v SV) SV {
	lo, hi := intRange(v.T)
	if lo == nil || isNum(v.V) && toBig(v.V).Cmp(lo) >= 0 && toBig(v.V).Cmp(hi) <= 0 {
		return v
	}
	v = x.nameIt(st, v)
	c := and(cmpT("<=", num(lo), v.V), cmpT("<=", v.V, num(hi)))
	if fr.top != nil && !x.factHolds(st, c) {
		x.oblige(st, fr, "no-overflow", "nooverflow", c, x.posOf(n), nil)
	}
	st.assume(c)
	return v
}

func (x *Ctx) factHolds(st *State, c string) bool { return st.set[c] }

// simple tries to evaluate e without forks and side effects; ok=false if that is not possible.
func (x *Ctx) trial(fr *Frame, e ast.Expr, st *State, cond string) (v SV, ok bool) {
	s2 := st.clone()
	s2.assume(cond)
	if s2.dead {
		return SV{S: "Bool", T: types.Typ[types.Bool], V: "false"}, true
	}
	base := s2.path
	n0 := len(x.obl)
	count := 0
	var rs *State
	var rv SV
	sno, smod, swrap := x.noObl, x.modlog, x.wrap
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(trialAbort); is {
					x.noObl, x.modlog, x.wrap = sno, smod, swrap
					count = 99
					return
				}
				panic(r)
			}
		}()
		x.ev(fr, e, s2, func(s *State, v SV) {
			if s.dead {
				return
			}
			count++
			if count > 1 {
				panic(trialAbort{})
			}
			rs, rv = s, v
		})
	}()
	if count == 0 {
		// all paths dead
		return SV{S: "Bool", T: types.Typ[types.Bool], V: "false"}, count == 0 && n0 == len(x.obl)
	}
	if count != 1 || !sameHeap(st, rs) || !sameVars(st, rs) {
		x.obl = x.obl[:n0]
		return SV{}, false
	}
	// carry the new assumptions, guarded
	var news []string
	for p := rs.path; p != nil && p != base; p = p.up {
		news = append(news, p.s)
	}
	if rs.alloc != st.alloc {
		st.assume("(>= " + rs.alloc + " " + st.alloc + ")")
		st.alloc = rs.alloc
	}
	for i := len(news) - 1; i >= 0; i-- {
		s := news[i]
		if isDefinitional(s) {
			st.assume(s)
		} else {
			st.assume(implies(cond, s))
		}
	}
	return rv, true
}

type trialAbort struct{}

// isDefinitional: (= t!n term) defines a fresh constant and holds unconditionally.
func isDefinitional(s string) bool {
	if !strings.HasPrefix(s, "(= ") {
		return false
	}
	p := splitTop(s)
	return len(p) == 3 && (strings.HasPrefix(p[1], "t!") && !strings.ContainsAny(p[1], "( ") && isFreshT(p[1]) || strings.HasPrefix(p[2], "t!") && isFreshT(p[2]))
}
func isFreshT(s string) bool {
	return strings.HasPrefix(s, "t!") && isNum(s[2:])
}

func sameHeap(a, b *State) bool {
	if len(a.heap) != len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	return true
}
func sameVars(a, b *State) bool {
	for k, v := range a.vars {
		w := b.vars[k]
		if w.V != v.V || w.S != v.S {
			return false
		}
	}
	return true
}

func (x *Ctx) evBinary(fr *Frame, e *ast.BinaryExpr, st *State, k K) {
	switch e.Op {
	case token.LAND, token.LOR:
		x.ev(fr, e.X, st, func(st *State, a SV) {
			cond := a.V
			if e.Op == token.LOR {
				cond = not(a.V)
			}
			if cond == "false" {
				k(st, a)
				return
			}
			if cond == "true" {
				x.ev(fr, e.Y, st, k)
				return
			}
			if b, ok := x.trial(fr, e.Y, st, cond); ok {
				r := SV{T: a.T, S: "Bool"}
				if e.Op == token.LAND {
					r.V = and(a.V, b.V)
				} else {
					r.V = or(a.V, b.V)
				}
				k(st, r)
				return
			}
			s2 := st.clone()
			st.assume(cond)
			if !st.dead {
				x.ev(fr, e.Y, st, k)
			}
			s2.assume(not(cond))
			if !s2.dead {
				k(s2, SV{T: a.T, S: "Bool", V: fmt.Sprint(e.Op == token.LOR)})
			}
		})
		return
	}
	x.ev(fr, e.X, st, func(st *State, a SV) {
		x.ev(fr, e.Y, st, func(st *State, b SV) {
			k(st, x.binop(fr, st, e, e.Op, a, b, x.typeOf(fr, e), x.typeOf(fr, e.X), x.typeOf(fr, e.Y)))
		})
	})
}

func (x *Ctx) equalSV(st *State, a, b SV) string {
	if a.S == "nil" && b.S == "nil" {
		return "true"
	}
	if b.S == "nil" {
		a, b = b, a
	}
	if a.S == "nil" {
		switch b.S {
		case "Val":
			if x.staticDyn(b.V) != nil {
				return "false"
			}
			return eq(b.V, "vnil")
		case "Slice":
			return eq(selOf("sarr", b.V), "0")
		case "clo":
			return "false"
		default:
			return eq(b.V, "0")
		}
	}
	if a.S == "Val" || b.S == "Val" {
		av, bv := x.toVal(st, a), x.toVal(st, b)
		da, db := x.staticDyn(av), x.staticDyn(bv)
		if da != nil && db != nil && !types.Identical(da, db) {
			return "false"
		}
		for _, v := range []string{av, bv} {
			if v == "vnil" || strings.HasPrefix(v, "(vref") || strings.HasPrefix(v, "(vint") || strings.HasPrefix(v, "(vbool") || strings.HasPrefix(v, "(vstr") {
				return eq(av, bv)
			}
		}
		if av == bv {
			return "(valeq " + av + " " + bv + ")"
		}
		return "(valeq " + av + " " + bv + ")"
	}
	switch a.S {
	case F64:
		return "(fp.eq " + a.V + " " + b.V + ")"
	case "struct":
		var cs []string
		stt := a.T.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			cs = append(cs, x.equalSV(st, x.structField(a, f), x.structField(b, f)))
		}
		return and(cs...)
	case "clo":
		panic(unsup("function comparison"))
	}
	return eq(a.V, b.V)
}

func (x *Ctx) binop(fr *Frame, st *State, n ast.Node, op token.Token, a, b SV, rt, at, bt types.Type) SV {
	bl := func(s string) SV { return SV{T: types.Typ[types.Bool], S: "Bool", V: s} }
	switch op {
	case token.EQL:
		return bl(x.equalSV(st, a, b))
	case token.NEQ:
		return bl(not(x.equalSV(st, a, b)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		o := op.String()
		switch a.S {
		case "Int":
			return bl(cmpT(o, a.V, b.V))
		case F64:
			f := map[string]string{"<": "fp.lt", "<=": "fp.leq", ">": "fp.gt", ">=": "fp.geq"}[o]
			return bl("(" + f + " " + a.V + " " + b.V + ")")
		case "Str":
			switch o {
			case "<":
				return bl("(strlt " + a.V + " " + b.V + ")")
			case ">":
				return bl("(strlt " + b.V + " " + a.V + ")")
			case "<=":
				return bl("(not (strlt " + b.V + " " + a.V + "))")
			default:
				return bl("(not (strlt " + a.V + " " + b.V + "))")
			}
		}
	case token.ADD, token.SUB, token.MUL:
		switch a.S {
		case "Int":
			t := rt
			if bb, ok := t.Underlying().(*types.Basic); ok && bb.Info()&types.IsUntyped != 0 {
				t = a.T
			}
			if _, inc := n.(*ast.IncDecStmt); x.wrap && !inc {
				if _, sg := intBits(t); sg {
					f := map[token.Token]string{token.ADD: "wadd", token.SUB: "wsub", token.MUL: "wmul"}[op]
					return x.nameIt(st, SV{T: t, S: "Int", V: "(" + f + " " + a.V + " " + b.V + ")"})
				}
			}
			return x.overflow(fr, st, n, SV{T: t, S: "Int", V: arith(op.String(), a.V, b.V)})
		case "Str":
			if op == token.ADD {
				return SV{T: rt, S: "Str", V: "(strcat " + a.V + " " + b.V + ")"}
			}
		case F64:
			f := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul"}[op]
			return SV{T: rt, S: F64, V: "(" + f + " RNE " + a.V + " " + b.V + ")"}
		}
	case token.QUO, token.REM:
		if a.S == "Int" {
			x.safety(fr, st, n, "division by zero", not(eq(b.V, "0")))
			f := "godiv"
			if op == token.REM {
				f = "gomod"
			}
			return SV{T: rt, S: "Int", V: "(" + f + " " + a.V + " " + b.V + ")"}
		}
		if a.S == F64 && op == token.QUO {
			return SV{T: rt, S: F64, V: "(fp.div RNE " + a.V + " " + b.V + ")"}
		}
	case token.AND:
		return SV{T: rt, S: "Int", V: "(bvandI " + a.V + " " + b.V + ")"}
	case token.OR:
		return x.boundedOp(st, "bvorI", a, b, rt)
	case token.XOR:
		return x.boundedOp(st, "bvxorI", a, b, rt)
	case token.SHR:
		if isNum(b.V) {
			return SV{T: rt, S: "Int", V: "(div " + a.V + " " + pow2(int(toBig(b.V).Int64())).String() + ")"}
		}
	case token.SHL:
		if isNum(b.V) && isNum(a.V) {
			return SV{T: rt, S: "Int", V: num(new(big.Int).Mul(toBig(a.V), pow2(int(toBig(b.V).Int64()))))}
		}
	}
	panic(unsup("operator %s on %s at %s", op, a.T, x.posOf(n)))
}

func (x *Ctx) boundedOp(st *State, f string, a, b SV, rt types.Type) SV {
	v := SV{T: rt, S: "Int", V: "(" + f + " " + a.V + " " + b.V + ")"}
	return x.nameIt(st, v)
}

func (x *Ctx) elemName(t types.Type) (string, string) {
	return "E!" + sanitize(typeStr(t)), sortOf(t)
}

func (x *Ctx) elemSel(st *State, s SV, i string) SV {
	et := s.T.Underlying().(*types.Slice).Elem()
	n, es := x.elemName(et)
	if es == "struct" {
		panic(unsup("slice of structs"))
	}
	a := x.hget(st, n, "(Array Int "+es+")")
	return SV{T: et, S: es, V: "(select (select " + a + " " + selOf("sarr", s.V) + ") " + ix(selOf("soff", s.V), i) + ")"}
}

func (x *Ctx) elemStore(st *State, s SV, i string, v SV) {
	et := s.T.Underlying().(*types.Slice).Elem()
	n, es := x.elemName(et)
	a := x.hget(st, n, "(Array Int "+es+")")
	arr := selOf("sarr", s.V)
	x.hset(st, n, "(Array Int "+es+")", "(store "+a+" "+arr+" (store (select "+a+" "+arr+") "+ix(selOf("soff", s.V), i)+" "+v.V+"))", arr)
}

// Go maps: for every map the set of its keys and the function from keys to elements. Keys are compared for identity, so
// keys that are floating point numbers are out of scope.

func mapType(t types.Type) (*types.Map, bool) {
	if t == nil {
		return nil, false
	}
	mt, ok := t.Underlying().(*types.Map)
	if !ok {
		return nil, false
	}
	ks := sortOf(mt.Key())
	return mt, (ks == "Val" || ks == "Int" || ks == "Bool" || ks == "Str") && sortOf(mt.Elem()) != "struct"
}

// mapHeap gives the names and element sorts of the two parts of the heap that hold the maps of a type.
func mapHeap(mt *types.Map) (has, hasSort, get, getSort string) {
	n := sanitize(typeStr(mt.Key())) + "!" + sanitize(typeStr(mt.Elem()))
	ks, es := sortOf(mt.Key()), sortOf(mt.Elem())
	return "E!has!" + n, "(Array " + ks + " Bool)", "E!get!" + n, "(Array " + ks + " " + es + ")"
}

func (x *Ctx) mapRead(st *State, mt *types.Map, m, k SV) (SV, string) {
	h, hs, g, gs := mapHeap(mt)
	k = x.coerce(st, k, mt.Key())
	has := "(and (not (= " + m.V + " 0)) (select (select " + x.hget(st, h, hs) + " " + m.V + ") " + k.V + "))"
	z := x.zero(mt.Elem())
	v := SV{T: mt.Elem(), S: sortOf(mt.Elem()), V: "(ite " + has + " (select (select " + x.hget(st, g, gs) + " " + m.V + ") " + k.V + ") " + z.V + ")"}
	v = x.nameIt(st, v)
	x.wf(st, v)
	return v, has
}

func (x *Ctx) mapStore(st *State, mt *types.Map, m, k, v SV) {
	h, hs, g, gs := mapHeap(mt)
	k = x.coerce(st, k, mt.Key())
	v = x.nameIt(st, x.coerce(st, v, mt.Elem()))
	a := x.hget(st, h, hs)
	x.hset(st, h, hs, "(store "+a+" "+m.V+" (store (select "+a+" "+m.V+") "+k.V+" true))", m.V)
	a = x.hget(st, g, gs)
	x.hset(st, g, gs, "(store "+a+" "+m.V+" (store (select "+a+" "+m.V+") "+k.V+" "+v.V+"))", m.V)
}

func (x *Ctx) lenOf(st *State, v SV) string {
	switch v.S {
	case "Slice":
		return selOf("slen", v.V)
	case "Str":
		if v.V == x.strLit("") {
			return "0"
		}
		return "(strlen " + v.V + ")"
	case "nil":
		return "0"
	}
	panic(unsup("len of %s", v.T))
}

func (x *Ctx) index(fr *Frame, st *State, n ast.Node, a, i SV) SV {
	switch a.S {
	case "Slice":
		x.safety(fr, st, n, "index out of range", and(cmpT("<=", "0", i.V), cmpT("<", i.V, selOf("slen", a.V))))
		v := x.elemSel(st, a, i.V)
		v = x.nameIt(st, v)
		x.wf(st, v)
		return v
	case "Str":
		x.safety(fr, st, n, "index out of range", and(cmpT("<=", "0", i.V), cmpT("<", i.V, x.lenOf(st, a))))
		return SV{T: types.Typ[types.Uint8], S: "Int", V: "(strat " + a.V + " " + i.V + ")"}
	}
	if mt, ok := mapType(a.T); ok {
		v, _ := x.mapRead(st, mt, a, i)
		return v
	}
	panic(unsup("index of %s", a.T))
}

func (x *Ctx) evSlice(fr *Frame, e *ast.SliceExpr, st *State, k K) {
	x.ev(fr, e.X, st, func(st *State, a SV) {
		opt := func(ex ast.Expr, st *State, def string, k func(*State, string)) {
			if ex == nil {
				k(st, def)
				return
			}
			x.ev(fr, ex, st, func(st *State, v SV) { k(st, v.V) })
		}
		opt(e.Low, st, "0", func(st *State, lo string) {
			opt(e.High, st, x.lenOf(st, a), func(st *State, hi string) {
				if e.Slice3 {
					x.ev(fr, e.Max, st, func(st *State, mx SV) {
						x.safety(fr, st, e, "slice bounds", and(cmpT("<=", "0", lo), cmpT("<=", lo, hi), cmpT("<=", hi, mx.V), cmpT("<=", mx.V, selOf("scap", a.V))))
						r := SV{T: a.T, S: "Slice", V: "(mkSlice " + selOf("sarr", a.V) + " " + subOff(selOf("soff", a.V), lo) + " " + arith("-", hi, lo) + " " + arith("-", mx.V, lo) + ")"}
						k(st, x.nameIt(st, r))
					})
					return
				}
				if a.S == "Str" {
					x.safety(fr, st, e, "slice bounds", and(cmpT("<=", "0", lo), cmpT("<=", lo, hi), cmpT("<=", hi, x.lenOf(st, a))))
					k(st, x.nameIt(st, SV{T: a.T, S: "Str", V: "(strsub " + a.V + " " + lo + " " + hi + ")"}))
					return
				}
				x.safety(fr, st, e, "slice bounds", and(cmpT("<=", "0", lo), cmpT("<=", lo, hi), cmpT("<=", hi, selOf("scap", a.V))))
				r := SV{T: a.T, S: "Slice", V: "(mkSlice " + selOf("sarr", a.V) + " " + subOff(selOf("soff", a.V), lo) + " " + arith("-", hi, lo) + " " + arith("-", selOf("scap", a.V), lo) + ")"}
				k(st, x.nameIt(st, r))
			})
		})
	})
}

func (x *Ctx) evList(fr *Frame, es []ast.Expr, st *State, k func(*State, []SV)) {
	var rec func(i int, st *State, acc []SV)
	rec = func(i int, st *State, acc []SV) {
		if i == len(es) {
			k(st, append([]SV{}, acc...))
			return
		}
		x.ev(fr, es[i], st, func(st *State, v SV) {
			rec(i+1, st, append(acc[:i:i], v))
		})
	}
	rec(0, st, nil)
}

func (x *Ctx) evComposite(fr *Frame, e *ast.CompositeLit, st *State, addr bool, k K) {
	t := x.typeOf(fr, e)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		addr = true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var fs []*types.Var
		var es []ast.Expr
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fs = append(fs, u.Field(j))
					}
				}
				es = append(es, kv.Value)
			} else {
				fs = append(fs, u.Field(i))
				es = append(es, el)
			}
		}
		x.evList(fr, es, st, func(st *State, vs []SV) {
			r := x.zero(t)
			given := map[string]bool{}
			for i, v := range vs {
				r.F[fs[i].Name()] = x.nameIt(st, x.coerce(st, v, fs[i].Type()))
				given[fs[i].Name()] = true
			}
			if !addr {
				k(st, r)
				return
			}
			x.checkInv(fr, st, e, t, r)
			ref := x.alloc(st)
			if nt, ok := t.(*types.Named); ok {
				if h := "H!" + nt.Obj().Name() + ".$made"; x.made[h] {
					x.hset(st, h, "Bool", "(store "+x.hget(st, h, "Bool")+" "+ref+" true)", ref)
				}
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if x.lateField(f) && !given[f.Name()] {
					continue
				}
				if r.F[f.Name()].S == "clo" {
					c := r.F[f.Name()]
					r.F[f.Name()] = SV{T: f.Type(), S: "Int", V: x.cloName(st, c)}
				}
				if sortOf(f.Type()) == "struct" && x.hasLate(f.Type()) {
					sub := r.F[f.Name()]
					stt := f.Type().Underlying().(*types.Struct)
					for j := 0; j < stt.NumFields(); j++ {
						if !x.lateField(stt.Field(j)) || given[f.Name()] {
							x.initField(st, subAddr(ref, f), stt.Field(j), x.structField(sub, stt.Field(j)))
						}
					}
					continue
				}
				x.initField(st, ref, f, r.F[f.Name()])
			}
			k(st, SV{T: types.NewPointer(t), S: "Int", V: ref})
		})
	case *types.Slice:
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsup("keyed slice literal"))
			}
		}
		x.evList(fr, e.Elts, st, func(st *State, vs []SV) {
			ref := x.alloc(st)
			n := len(vs)
			s := SV{T: t, S: "Slice", V: fmt.Sprintf("(mkSlice %s 0 %d %d)", ref, n, n)}
			for i, v := range vs {
				c := x.coerce(st, v, u.Elem())
				el := x.elemSel(st, s, fmt.Sprint(i))
				st.assume("(= " + el.V + " " + c.V + ")")
			}
			if addr {
				panic(unsup("address of slice literal"))
			}
			k(st, s)
		})
	default:
		panic(unsup("composite literal of %s", t))
	}
}

func (x *Ctx) lateField(f *types.Var) bool { return f.Name() == "ExactType" }
func (x *Ctx) hasLate(t types.Type) bool {
	stt := t.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if x.lateField(stt.Field(i)) {
			return true
		}
		if sortOf(stt.Field(i).Type()) == "struct" && x.hasLate(stt.Field(i).Type()) {
			return true
		}
	}
	return false
}

// checkInv: obligations for the type invariant at construction.
func (x *Ctx) checkInv(fr *Frame, st *State, n ast.Node, t types.Type, v SV) {
	nt, ok := t.(*types.Named)
	if !ok {
		return
	}
	for i, iv := range x.db.Invs["*"+nt.Obj().Name()] {
		r := x.evalSpecIn(st, nt.Obj().Pkg().Name(), map[string]SV{"self": v}, iv.Body, nil)
		x.oblige(st, fr, "type-invariant", fmt.Sprintf("inv:%s#%d", nt.Obj().Name(), i+1), r.V, x.posOf(n), nil)
		st.assume(r.V)
	}
}

// convert implements Go conversion T(v).
func (x *Ctx) convert(fr *Frame, st *State, n ast.Node, v SV, t types.Type) SV {
	if isIface(t) {
		return x.coerce(st, v, t)
	}
	s := sortOf(t)
	if v.S == "nil" {
		return x.zero(t)
	}
	if v.S == s {
		switch s {
		case "Int":
			if _, ok := t.Underlying().(*types.Basic); ok {
				if _, ok := v.T.Underlying().(*types.Basic); ok {
					return x.convInt(st, v, t)
				}
			}
			v.T = t
			return v
		case F64:
			if t.Underlying().(*types.Basic).Kind() == types.Float32 {
				return SV{T: t, S: F64, V: "(f2f32 " + v.V + ")"}
			}
			v.T = t
			return v
		case "struct":
			v.T = t
			return v
		default:
			v.T = t
			return v
		}
	}
	switch {
	case v.S == "Int" && s == F64:
		if isNum(v.V) {
			f, _ := new(big.Float).SetInt(toBig(v.V)).Float64()
			return SV{T: t, S: s, V: floatLit(f)}
		}
		return SV{T: t, S: s, V: "(i2f " + v.V + ")"}
	case v.S == F64 && s == "Int":
		r := x.nameIt(st, SV{T: t, S: s, V: "(f2i " + v.V + ")"})
		return r
	case v.S == "clo" && s == "Int":
		v.T = t
		return v
	case v.S == "Int" && s == "clo":
		v.T = t
		return v
	case v.S == "Str" && s == "Slice":
		// []byte(string): fresh bytes
		ref := x.alloc(st)
		r := SV{T: t, S: s, V: "(mkSlice " + ref + " 0 (strlen " + v.V + ") (strlen " + v.V + "))"}
		if sortOf(t.Underlying().(*types.Slice).Elem()) != "Int" {
			panic(unsup("conversion"))
		}
		if b, _ := intBits(t.Underlying().(*types.Slice).Elem()); b == 8 {
			el := x.elemSel(st, r, "i!")
			st.assume("(forall ((i! Int)) (! (=> (and (<= 0 i!) (< i! (strlen " + v.V + "))) (= " + el.V + " (strat " + v.V + " i!))) :pattern (" + el.V + ")))")
		}
		return r
	case v.S == "Slice" && s == "Str":
		n := x.fresh("str", "Str")
		st.assume(eq("(strlen "+n+")", selOf("slen", v.V)))
		if b, _ := intBits(v.T.Underlying().(*types.Slice).Elem()); b == 8 {
			el := x.elemSel(st, v, "i!")
			st.assume("(forall ((i! Int)) (! (=> (and (<= 0 i!) (< i! (strlen " + n + "))) (= (strat " + n + " i!) " + el.V + ")) :pattern ((strat " + n + " i!))))")
		}
		return SV{T: t, S: s, V: n}
	}
	panic(unsup("conversion from %s to %s", v.T, t))
}

func (x *Ctx) convInt(st *State, v SV, t types.Type) SV {
	slo, shi := intRange(v.T)
	dlo, dhi := intRange(t)
	r := SV{T: t, S: "Int", V: v.V}
	if dlo == nil || (slo == nil) || (slo.Cmp(dlo) >= 0 && shi.Cmp(dhi) <= 0) {
		return r
	}
	if isNum(v.V) && toBig(v.V).Cmp(dlo) >= 0 && toBig(v.V).Cmp(dhi) <= 0 {
		return r
	}
	b, signed := intBits(t)
	v = x.nameIt(st, v)
	m := "(mod " + v.V + " " + pow2(b).String() + ")"
	w := m
	if signed {
		w = "(ite (>= " + m + " " + pow2(b-1).String() + ") (- " + m + " " + pow2(b).String() + ") " + m + ")"
	}
	r.V = "(ite (and (<= " + num(dlo) + " " + v.V + ") (<= " + v.V + " " + num(dhi) + ")) " + v.V + " " + w + ")"
	r = x.nameIt(st, r)
	x.wf(st, r)
	return r
}

var _ = constant.MakeBool

// methodRecv follows the path of embedded fields to the receiver of the promoted method fn.
func (x *Ctx) methodRecv(fr *Frame, st *State, n ast.Node, v SV, path []int, fn *types.Func) SV {
	_, wantPtr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer)
	if !wantPtr || len(path) == 0 {
		return x.fieldPath(fr, st, n, v, path)
	}
	last := path[len(path)-1]
	v = x.fieldPathAddr(fr, st, n, v, path[:len(path)-1])
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		f := p.Elem().Underlying().(*types.Struct).Field(last)
		if sortOf(f.Type()) == "struct" {
			return SV{T: types.NewPointer(f.Type()), S: "Int", V: subAddr(v.V, f)}
		}
	}
	return x.fieldPath(fr, st, n, v, []int{last})
}

// fieldPathAddr is fieldPath, but keeps the address of embedded structs.
func (x *Ctx) fieldPathAddr(fr *Frame, st *State, n ast.Node, v SV, path []int) SV {
	for _, i := range path {
		if p, ok := v.T.Underlying().(*types.Pointer); ok {
			f := p.Elem().Underlying().(*types.Struct).Field(i)
			if sortOf(f.Type()) == "struct" {
				v = SV{T: types.NewPointer(f.Type()), S: "Int", V: subAddr(v.V, f)}
				continue
			}
		}
		v = x.fieldPath(fr, st, n, v, []int{i})
	}
	return v
}
