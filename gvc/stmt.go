package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

type Ctl struct {
	up    *Ctl
	label string
	brk   func(*State)
	cont  func(*State)
	fall  func(*State)
}

func (x *Ctx) block(fr *Frame, ctl *Ctl, ss []ast.Stmt, st *State, k func(*State)) {
	if st.dead {
		return
	}
	if len(ss) == 0 {
		k(st)
		return
	}
	x.stmt(fr, ctl, ss[0], "", st, func(st *State) { x.block(fr, ctl, ss[1:], st, k) })
}

func (x *Ctx) stmt(fr *Frame, ctl *Ctl, s ast.Stmt, label string, st *State, k func(*State)) {
	if st.dead {
		return
	}
	x.step()
	info := fr.pkg.Info
	switch s := s.(type) {
	case *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		x.block(fr, ctl, s.List, st, k)
	case *ast.ExprStmt:
		x.ev(fr, s.X, st, func(st *State, _ SV) { k(st) })
	case *ast.LabeledStmt:
		x.stmt(fr, ctl, s.Stmt, s.Label.Name, st, k)
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			var vs []SV
			for _, n := range fr.named {
				vs = append(vs, x.readVar(fr, st, n))
			}
			fr.ret(st, vs)
			return
		}
		x.evMulti(fr, s.Results, st, func(st *State, vs []SV) {
			rs := fr.sig.Results()
			for i := range vs {
				vs[i] = x.coerceRet(st, vs[i], rs.At(i).Type())
			}
			for i, n := range fr.named {
				if n.Name() != "_" && n.Name() != "" {
					if kk, ok := x.lookupVar(fr, st, n); ok && st.vars[kk].S != "box" {
						st.vars[kk] = vs[i]
					}
				}
			}
			fr.ret(st, vs)
		})
	case *ast.IfStmt:
		run := func(st *State) {
			x.ev(fr, s.Cond, st, func(st *State, c SV) {
				s2 := st.clone()
				st.assume(c.V)
				s2.assume(not(c.V))
				x.block(fr, ctl, s.Body.List, st, k)
				if s.Else != nil {
					x.stmt(fr, ctl, s.Else, "", s2, k)
				} else if !s2.dead {
					k(s2)
				}
			})
		}
		if s.Init != nil {
			x.stmt(fr, ctl, s.Init, "", st, run)
		} else {
			run(st)
		}
	case *ast.AssignStmt:
		x.assign(fr, s, st, k)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		x.ev(fr, s.X, st, func(st *State, v SV) {
			t := x.typeOf(fr, s.X)
			r := x.binop(fr, st, s, op, v, SV{T: v.T, S: v.S, V: "1"}, t, t, t)
			x.assignTo(fr, s.X, st, r, k)
		})
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		var vss []*ast.ValueSpec
		for _, sp := range gd.Specs {
			if vs, ok := sp.(*ast.ValueSpec); ok && gd.Tok == token.VAR {
				vss = append(vss, vs)
			}
		}
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(vss) {
				k(st)
				return
			}
			vs := vss[i]
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := info.Defs[n]
					x.declVar(fr, st, o, x.zero(o.Type()))
				}
				rec(i+1, st)
				return
			}
			x.evMulti(fr, vs.Values, st, func(st *State, vals []SV) {
				for j, n := range vs.Names {
					o := info.Defs[n]
					if o != nil {
						x.declVar(fr, st, o, x.coerce(st, vals[j], o.Type()))
					}
				}
				rec(i+1, st)
			})
		}
		rec(0, st)
	case *ast.SwitchStmt:
		run := func(st *State) { x.switchStmt(fr, ctl, s, label, st, k) }
		if s.Init != nil {
			x.stmt(fr, ctl, s.Init, "", st, run)
		} else {
			run(st)
		}
	case *ast.TypeSwitchStmt:
		run := func(st *State) { x.typeSwitch(fr, ctl, s, label, st, k) }
		if s.Init != nil {
			x.stmt(fr, ctl, s.Init, "", st, run)
		} else {
			run(st)
		}
	case *ast.ForStmt:
		run := func(st *State) { x.forStmt(fr, ctl, s, label, st, k) }
		if s.Init != nil {
			x.stmt(fr, ctl, s.Init, "", st, run)
		} else {
			run(st)
		}
	case *ast.RangeStmt:
		x.rangeStmt(fr, ctl, s, label, st, k)
	case *ast.BranchStmt:
		lbl := ""
		if s.Label != nil {
			lbl = s.Label.Name
		}
		for c := ctl; c != nil; c = c.up {
			if lbl != "" && c.label != lbl {
				continue
			}
			switch s.Tok {
			case token.BREAK:
				if c.brk != nil {
					c.brk(st)
					return
				}
			case token.CONTINUE:
				if c.cont != nil {
					c.cont(st)
					return
				}
			case token.FALLTHROUGH:
				if c.fall != nil {
					c.fall(st)
					return
				}
			}
		}
		panic(unsup("branch %s", s.Tok))
	case *ast.DeferStmt:
		// unlocking a mutex has no effect in the sequential semantics
		if sel, ok := s.Call.Fun.(*ast.SelectorExpr); ok && (sel.Sel.Name == "Unlock" || sel.Sel.Name == "RUnlock") {
			k(st)
			return
		}
		panic(unsup("defer"))
	default:
		panic(unsup("statement %T at %s", s, x.posOf(s)))
	}
}

func (x *Ctx) coerceRet(st *State, v SV, t types.Type) SV {
	return x.nameIt(st, x.coerce(st, v, t))
}

// evMulti evaluates an expression list, expanding a single multi-valued call or comma-ok form.
func (x *Ctx) evMulti(fr *Frame, es []ast.Expr, st *State, k func(*State, []SV)) {
	if len(es) == 1 {
		if tt, ok := x.typeOf(fr, es[0]).(*types.Tuple); ok && tt.Len() > 1 {
			if _, isCall := ast.Unparen(es[0]).(*ast.CallExpr); isCall {
				x.ev(fr, es[0], st, func(st *State, v SV) { k(st, v.Tup) })
				return
			}
		}
	}
	x.evList(fr, es, st, k)
}

func (x *Ctx) assign(fr *Frame, s *ast.AssignStmt, st *State, k func(*State)) {
	info := fr.pkg.Info
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
		x.ev(fr, s.Lhs[0], st, func(st *State, a SV) {
			x.ev(fr, s.Rhs[0], st, func(st *State, b SV) {
				t := x.typeOf(fr, s.Lhs[0])
				r := x.binop(fr, st, s, op, a, b, t, t, x.typeOf(fr, s.Rhs[0]))
				x.assignTo(fr, s.Lhs[0], st, r, k)
			})
		})
		return
	}
	store := func(st *State, vs []SV) {
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(s.Lhs) {
				k(st)
				return
			}
			if id, ok := s.Lhs[i].(*ast.Ident); ok {
				if id.Name == "_" {
					rec(i+1, st)
					return
				}
				if o := info.Defs[id]; o != nil && s.Tok == token.DEFINE {
					x.declVar(fr, st, o, x.coerce(st, vs[i], o.Type()))
					rec(i+1, st)
					return
				}
			}
			x.assignTo(fr, s.Lhs[i], st, vs[i], func(st *State) { rec(i+1, st) })
		}
		rec(0, st)
	}
	// comma-ok forms
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		switch r := ast.Unparen(s.Rhs[0]).(type) {
		case *ast.TypeAssertExpr:
			x.ev(fr, r.X, st, func(st *State, v SV) {
				t := fr.pkg.Info.TypeOf(r.Type)
				c := x.isT(v.V, t)
				// merge when the value is not needed to be precise: fork otherwise
				blankV := false
				if id, ok := s.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
					blankV = true
				}
				if blankV {
					store(st, []SV{{T: t, S: "Val", V: "vnil"}, {T: types.Typ[types.Bool], S: "Bool", V: c}})
					return
				}
				s2 := st.clone()
				st.assume(c)
				if !st.dead {
					store(st, []SV{x.narrow(st, v, t), {T: types.Typ[types.Bool], S: "Bool", V: "true"}})
				}
				s2.assume(not(c))
				if !s2.dead {
					store(s2, []SV{x.zero(t), {T: types.Typ[types.Bool], S: "Bool", V: "false"}})
				}
			})
			return
		case *ast.IndexExpr:
			x.ev(fr, r.X, st, func(st *State, m SV) {
				x.ev(fr, r.Index, st, func(st *State, k SV) {
					mt, ok := mapType(m.T)
					if !ok {
						panic(unsup("comma-ok on %s", m.T))
					}
					v, has := x.mapRead(st, mt, m, k)
					store(st, []SV{v, x.nameIt(st, SV{T: types.Typ[types.Bool], S: "Bool", V: has})})
				})
			})
			return
		case *ast.UnaryExpr:
			panic(unsup("comma-ok on channel"))
		}
	}
	// evaluate index/pointer operands of the left side after the right side (only matters for exotic code)
	x.evMulti(fr, s.Rhs, st, store)
}

func (x *Ctx) assignTo(fr *Frame, l ast.Expr, st *State, v SV, k func(*State)) {
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			k(st)
			return
		}
		o := fr.pkg.Info.ObjectOf(l)
		v = x.nameIt(st, x.coerce(st, v, o.Type()))
		kk, ok := x.lookupVar(fr, st, o)
		if !ok {
			panic(unsup("assignment to %s", l.Name))
		}
		if b := st.vars[kk]; b.S == "box" {
			x.storeDeref(st, b.V, o.Type(), v)
		} else {
			st.vars[kk] = v
		}
		k(st)
	case *ast.SelectorExpr:
		sel := fr.pkg.Info.Selections[l]
		if sel == nil {
			panic(unsup("assignment to package variable"))
		}
		// base
		base := l.X
		x.ev(fr, base, st, func(st *State, b SV) {
			path := sel.Index()
			cur := b
			if _, isPtr := cur.T.Underlying().(*types.Pointer); !isPtr && cur.S == "struct" {
				// struct variable: functional update
				id, ok := ast.Unparen(base).(*ast.Ident)
				if !ok || len(path) != 1 {
					panic(unsup("assignment to field of a struct value"))
				}
				o := fr.pkg.Info.ObjectOf(id)
				kk, _ := x.lookupVar(fr, st, o)
				f := cur.T.Underlying().(*types.Struct).Field(path[0])
				vv := x.nameIt(st, x.coerce(st, v, f.Type()))
				if bx := st.vars[kk]; bx.S == "box" {
					x.storeField(st, bx.V, f, vv)
				} else {
					nf := map[string]SV{}
					for a, c := range cur.F {
						nf[a] = c
					}
					nf[f.Name()] = vv
					cur.F = nf
					st.vars[kk] = cur
				}
				k(st)
				return
			}
			for i, ix := range path {
				p, ok := cur.T.Underlying().(*types.Pointer)
				if !ok {
					panic(unsup("assignment through %s", cur.T))
				}
				f := p.Elem().Underlying().(*types.Struct).Field(ix)
				x.safety(fr, st, l, "nil dereference", not(eq(cur.V, "0")))
				if i < len(path)-1 {
					if sortOf(f.Type()) == "struct" {
						cur = SV{T: types.NewPointer(f.Type()), S: "Int", V: subAddr(cur.V, f)}
					} else {
						cur = x.loadField(st, cur.V, f)
					}
					continue
				}
				if v.S == "clo" {
					v = SV{T: v.T, S: "Int", V: x.cloName(st, v)}
				}
				nv := x.nameIt(st, x.coerce(st, v, f.Type()))
				if x.lateField(f) {
					x.oblige(st, fr, "type-invariant", "self reference", eq(nv.V, x.toVal(st, b)), x.posOf(l), nil)
				}
				x.storeField(st, cur.V, f, nv)
			}
			k(st)
		})
	case *ast.IndexExpr:
		x.ev(fr, l.X, st, func(st *State, a SV) {
			x.ev(fr, l.Index, st, func(st *State, i SV) {
				if mt, ok := mapType(a.T); ok {
					x.safety(fr, st, l, "assignment to entry of nil map", not(eq(a.V, "0")))
					x.mapStore(st, mt, a, i, v)
					k(st)
					return
				}
				if a.S != "Slice" {
					panic(unsup("assignment to index of %s", a.T))
				}
				x.safety(fr, st, l, "index out of range", and(cmpT("<=", "0", i.V), cmpT("<", i.V, selOf("slen", a.V))))
				x.elemStore(st, a, i.V, x.nameIt(st, x.coerce(st, v, a.T.Underlying().(*types.Slice).Elem())))
				k(st)
			})
		})
	case *ast.StarExpr:
		x.ev(fr, l.X, st, func(st *State, p SV) {
			x.safety(fr, st, l, "nil dereference", not(eq(p.V, "0")))
			x.storeDeref(st, p.V, p.T.Underlying().(*types.Pointer).Elem(), x.nameIt(st, v))
			k(st)
		})
	default:
		panic(unsup("assignment to %T", l))
	}
}

func (x *Ctx) switchStmt(fr *Frame, ctl *Ctl, s *ast.SwitchStmt, label string, st *State, k func(*State)) {
	var tagT types.Type
	run := func(st *State, tag *SV) {
		var def *ast.CaseClause
		defIdx := -1
		cls := s.Body.List
		nctl := &Ctl{up: ctl, label: label, brk: k}
		var body func(i int, st *State)
		body = func(i int, st *State) {
			c := *nctl
			if i+1 < len(cls) {
				c.fall = func(st *State) { body(i+1, st) }
			}
			x.block(fr, &c, cls[i].(*ast.CaseClause).Body, st, k)
		}
		for i, c := range cls {
			if c.(*ast.CaseClause).List == nil {
				def = c.(*ast.CaseClause)
				defIdx = i
			}
		}
		var rec func(ci, ei int, st *State)
		rec = func(ci, ei int, st *State) {
			if st.dead {
				return
			}
			if ci == len(cls) {
				if def != nil {
					body(defIdx, st)
				} else {
					k(st)
				}
				return
			}
			cc := cls[ci].(*ast.CaseClause)
			if ei >= len(cc.List) {
				rec(ci+1, 0, st)
				return
			}
			x.ev(fr, cc.List[ei], st, func(st *State, v SV) {
				c := v.V
				if tag != nil {
					c = x.equalSV(st, *tag, v)
				}
				s2 := st.clone()
				st.assume(c)
				if !st.dead {
					body(ci, st)
				}
				s2.assume(not(c))
				rec(ci, ei+1, s2)
			})
		}
		rec(0, 0, st)
	}
	if s.Tag == nil {
		run(st, nil)
		return
	}
	tagT = x.typeOf(fr, s.Tag)
	_ = tagT
	x.ev(fr, s.Tag, st, func(st *State, v SV) { run(st, &v) })
}

func (x *Ctx) typeSwitch(fr *Frame, ctl *Ctl, s *ast.TypeSwitchStmt, label string, st *State, k func(*State)) {
	var ex ast.Expr
	bound := false
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		ex = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		ex = a.Rhs[0].(*ast.TypeAssertExpr).X
		bound = true
	}
	x.ev(fr, ex, st, func(st *State, v SV) {
		v = x.nameIt(st, v)
		nctl := &Ctl{up: ctl, label: label, brk: k}
		var def *ast.CaseClause
		for _, c := range s.Body.List {
			if c.(*ast.CaseClause).List == nil {
				def = c.(*ast.CaseClause)
			}
		}
		info := fr.pkg.Info
		enter := func(cc *ast.CaseClause, st *State, t types.Type) {
			if bound {
				o := info.Implicits[cc]
				if t != nil && len(cc.List) == 1 {
					x.declVar(fr, st, o, x.narrow(st, v, t))
				} else {
					if t != nil {
						x.narrow(st, v, t)
					}
					x.declVar(fr, st, o, v)
				}
			} else if t != nil {
				x.narrow(st, v, t)
			}
			x.block(fr, nctl, cc.Body, st, k)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, te := range cc.List {
				if st.dead {
					return
				}
				var cond string
				var t types.Type
				if id, ok := te.(*ast.Ident); ok && id.Name == "nil" {
					cond = eq(v.V, "vnil")
				} else {
					t = info.TypeOf(te)
					cond = x.isT(v.V, t)
				}
				s2 := st.clone()
				s2.assume(cond)
				if !s2.dead {
					enter(cc, s2, t)
				}
				st.assume(not(cond))
			}
		}
		if st.dead {
			return
		}
		if def != nil {
			enter(def, st, nil)
		} else {
			k(st)
		}
	})
}

// ---- loops

// loopMap numbers the loops of a function, and the calls given a function literal, in source order. The loops of a helper
// that is not among the functions the contracts were written for are numbered where it is called: code that was moved into
// a new function keeps its annotations.
type loopMap struct {
	ord   map[ast.Node]int
	inner map[ast.Node]*loopMap
}

func (x *Ctx) loopOrdinals(pkg *Pkg, body ast.Node) *loopMap {
	n, c := 0, 0
	return x.numberLoops(pkg, body, &n, &c, 0)
}

func (x *Ctx) numberLoops(pkg *Pkg, body ast.Node, n, c *int, depth int) *loopMap {
	m := &loopMap{map[ast.Node]int{}, map[ast.Node]*loopMap{}}
	ast.Inspect(body, func(nd ast.Node) bool {
		switch nd := nd.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			*n++
			m.ord[nd] = *n
		case *ast.CallExpr:
			for _, a := range nd.Args {
				if _, ok := a.(*ast.FuncLit); ok {
					*c++
					m.ord[nd] = eachBase + *c
					break
				}
			}
			if fn := x.newHelper(pkg, nd); fn != nil && depth < 4 {
				m.inner[nd] = x.numberLoops(x.pr.DPkg[fn], x.pr.Decls[fn].Body, n, c, depth+1)
			}
		}
		return true
	})
	return m
}

// newHelper: the function called when it has a body, no contract, and is not among the known functions.
func (x *Ctx) newHelper(pkg *Pkg, ce *ast.CallExpr) *types.Func {
	var id *ast.Ident
	switch f := ast.Unparen(ce.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return nil
	}
	fn, ok := pkg.Info.Uses[id].(*types.Func)
	if !ok || len(x.db.Known) == 0 {
		return nil
	}
	fn = fn.Origin()
	key := funcKey(fn)
	d := x.pr.Decls[fn]
	if _, known := x.db.Known[key]; known || d == nil || d.Body == nil || x.db.Contracts[key] != nil || x.db.Contracts["inline:"+key] != nil {
		return nil
	}
	return fn
}

// localNames lists the parameters and variables of a function in source order, as name:type.
func (pr *Prog) localNames(fn *types.Func) []string {
	d := pr.Decls[fn]
	if d == nil {
		return nil
	}
	info := pr.DPkg[fn].Info
	var out []string
	ast.Inspect(d, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name != "_" {
			if v, ok := info.Defs[id].(*types.Var); ok {
				out = append(out, id.Name+":"+strings.ReplaceAll(types.TypeString(v.Type(), nil), " ", ""))
			}
		}
		return true
	})
	return out
}

// renamed maps the names that variables of fn had when the contracts were written to those they have now: names that are
// gone are paired, in order, with new names of the same type.
func (x *Ctx) renamed(fn *types.Func) map[string]string {
	if fn == nil {
		return nil
	}
	if m, ok := x.pr.renames.Load(fn); ok {
		return m.(map[string]string)
	}
	var m map[string]string
	if was, ok := x.db.Known[funcKey(fn)]; ok {
		now := x.pr.localNames(fn)
		in := func(l []string) map[string]bool {
			r := map[string]bool{}
			for _, s := range l {
				r[s[:strings.Index(s, ":")]] = true
			}
			return r
		}
		wn, nn := in(was), in(now)
		used := map[string]bool{}
		for _, w := range was {
			i := strings.Index(w, ":")
			if nn[w[:i]] || m[w[:i]] != "" {
				continue
			}
			for _, n := range now {
				j := strings.Index(n, ":")
				if !wn[n[:j]] && !used[n[:j]] && n[j:] == w[i:] {
					if m == nil {
						m = map[string]string{}
					}
					m[w[:i]] = n[:j]
					used[n[:j]] = true
					break
				}
			}
		}
	}
	x.pr.renames.Store(fn, m)
	return m
}

// assignedVars collects the objects assigned in a node (including in function literals).
func assignedVars(info *types.Info, n ast.Node) map[types.Object]bool {
	m := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		if e == nil {
			return
		}
		e = ast.Unparen(e)
		for {
			if s, ok := e.(*ast.SelectorExpr); ok { // field of struct variable
				if t := info.TypeOf(s.X); t != nil {
					if _, ptr := t.Underlying().(*types.Pointer); ptr {
						return
					}
				}
				e = ast.Unparen(s.X)
				continue
			}
			break
		}
		if id, ok := e.(*ast.Ident); ok {
			if o := info.ObjectOf(id); o != nil {
				m[o] = true
			}
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.RangeStmt:
			mark(n.Key)
			mark(n.Value)
		}
		return true
	})
	return m
}

type loopInfo struct {
	ord     int
	name    string
	invs    []*Clause
	pkgName string
}

func (x *Ctx) loopInfo(fr *Frame, n ast.Node) loopInfo {
	li := loopInfo{ord: fr.loops.ord[n], pkgName: fr.pkg.Name}
	li.name = fmt.Sprintf("loop%d", li.ord)
	if li.ord > eachBase {
		li.name = fmt.Sprintf("each%d", li.ord-eachBase)
	}
	if fr.con != nil {
		if ls := fr.con.Loops[li.ord]; ls != nil {
			for _, cl := range ls.Inv {
				// an invariant that serves other properties only is left out, like the clauses it relies on
				if x.db.Prop == "" || len(cl.Props) == 0 || hasProp(cl.Props, x.db.Prop) {
					li.invs = append(li.invs, cl)
				}
			}
		}
	}
	if fr.fn != nil && fr.depth > 0 {
		li.name = fr.fn.Name() + "." + li.name
	}
	return li
}

func (x *Ctx) evalInv(fr *Frame, st *State, cl *Clause, extra map[string]SV) SV {
	env := map[string]SV{}
	if fr.top != nil {
		for k, v := range fr.top.env {
			env[k] = v
		}
		if fr.top.self != nil && (fr.depth == 0 || fr.moved) {
			env["self"] = *fr.top.self
		}
	}
	for k, v := range extra {
		env[k] = v
	}
	return x.evalSpecFr(fr, st, env, cl.E)
}

// runLoop cuts a loop. body executes one iteration (guard included) and calls next() at the end of an
// iteration; exit continues after the loop.
func (x *Ctx) runLoop(fr *Frame, n ast.Node, st *State, assigned map[types.Object]bool, extra func(*State) map[string]SV, auto func(*State) []string,
	iter func(st *State, next func(*State), dry bool)) {
	li := x.loopInfo(fr, n)
	pos := x.posOf(n)
	// 1. invariants hold on entry
	for i, cl := range li.invs {
		c := x.evalInv(fr, st, cl, extra(st))
		x.oblige(st, fr, "invariant", fmt.Sprintf("%s.inv%d.entry", li.name, i+1), c.V, pos, cl.Props)
	}
	for _, a := range auto(st) {
		x.oblige(st, fr, "invariant", li.name+".auto.entry", a, pos, nil)
	}
	// 2. find the modified heap arrays by a dry run from an arbitrary iteration
	havocVars := func(s *State) {
		for f := fr; f != nil; f = f.up {
			for o := range assigned {
				k := varKey{f.id, o}
				if v, ok := s.vars[k]; ok {
					if v.S == "box" {
						continue
					}
					if v.S == "clo" {
						panic(unsup("closure variable assigned in loop"))
					}
					s.vars[k] = x.freshSV(s, o.Name(), o.Type())
				}
			}
		}
	}
	preAlloc := st.alloc
	newAlloc := func(s *State) {
		a := x.fresh("alloc", "Int")
		s.assume("(>= " + a + " " + s.alloc + ")")
		s.alloc = a
	}
	mods := map[string][]string{}
	for round := 0; round < 3; round++ {
		dry := st.clone()
		// what an iteration changes through a variable or a location that itself changes is not a fixed target
		n0 := x.nfresh
		newAlloc(dry)
		dryAlloc := dry.alloc
		havocVars(dry)
		for f := range mods {
			x.havocHeap(dry, f)
		}
		log := map[string][]string{}
		x.modlog = append(x.modlog, log)
		x.noObl++
		// a path that leaves the loop does not reach the next iteration: only what differs there counts
		reach := map[string]bool{}
		dry0 := dry.clone()
		iter(dry, func(s *State) {
			if s.dead {
				return
			}
			for f := range log {
				if s.root != dry0.root || s.heap[f] != dry0.heap[f] {
					reach[f] = true
				}
			}
		}, true)
		for f := range log {
			if !reach[f] {
				delete(log, f)
			}
		}
		x.noObl--
		x.modlog = x.modlog[:len(x.modlog)-1]
		grew := false
		for f, ts := range log {
			if _, ok := mods[f]; !ok {
				grew = true
			}
			mods[f] = nil
			for _, t := range ts {
				t = x.expandDefs(t, n0)
				// targets expressed in symbols that exist before the loop are kept; targets allocated in the
				// body need no mention; anything else spoils the frame.
				switch {
				case x.symsOlder(t, n0) && !strings.Contains(t, dryAlloc):
					mods[f] = append(mods[f], t)
				case strings.HasPrefix(t, "new!"):
				default:
					mods[f] = append(mods[f], "?")
				}
			}
		}
		if !grew && round > 0 {
			break
		}
		if len(log) == 0 {
			break
		}
	}
	// 3. arbitrary iteration
	h := st.clone()
	newAlloc(h)
	for f, ts := range mods {
		old := x.hget(h, f, x.fieldSort[f])
		x.havocHeap(h, f)
		spoiled := false
		uniq := map[string]bool{}
		for _, t := range ts {
			if t == "?" {
				spoiled = true
			} else {
				uniq[t] = true
			}
		}
		for t := range uniq {
			if !freshTarget(t) {
				h.wmods = true
			}
		}
		if spoiled {
			h.wmods = true
		}
		if !spoiled {
			var ne []string
			for _, t := range sortedKeys(uniq) {
				ne = append(ne, "(not (= r! "+t+"))")
			}
			h.assume("(forall ((r! Int)) (! (=> " + and(append([]string{"(<= r! " + preAlloc + ")"}, ne...)...) + " (= (select " + h.heap[f] + " r!) (select " + old + " r!))) :pattern ((select " + h.heap[f] + " r!))))")
		}
		// function frame: what the function may not modify is as on entry
		if fr.top != nil && fr.top.entry != nil {
			if c := x.frameCond(fr, h, f); c != "true" {
				x.obligeFrameLater(fr, st, f, li, pos)
				h.assume(c)
			}
		}
	}
	havocVars(h)
	for _, a := range auto(h) {
		h.assume(a)
	}
	for _, cl := range li.invs {
		c := x.evalInv(fr, h, cl, extra(h))
		h.assume(c.V)
	}
	iter(h, func(s *State) {
		if s.dead {
			return
		}
		for _, a := range auto(s) {
			x.oblige(s, fr, "invariant", li.name+".auto.preserved", a, pos, nil)
		}
		for i, cl := range li.invs {
			c := x.evalInv(fr, s, cl, extra(s))
			x.oblige(s, fr, "invariant", fmt.Sprintf("%s.inv%d.preserved", li.name, i+1), c.V, pos, cl.Props)
		}
		for f := range mods {
			if fr.top != nil && fr.top.entry != nil {
				if c := x.frameCond(fr, s, f); c != "true" {
					x.oblige(s, fr, "frame", li.name+".frame:"+f, c, pos, nil)
				}
			}
		}
	}, false)
}

func (x *Ctx) obligeFrameLater(fr *Frame, st *State, f string, li loopInfo, pos string) {
	x.oblige(st, fr, "frame", li.name+".frame.entry:"+f, x.frameCond(fr, st, f), pos, nil)
}

func (x *Ctx) havocHeap(st *State, f string) {
	n := x.fresh("h", "(Array Int "+x.fieldSort[f]+")")
	st.heap[f] = n
	st.world = ""
}

// symsOlder: all generated symbols in t have a number <= n.
func (x *Ctx) symsOlder(t string, n int) bool {
	if strings.HasPrefix(t, "?") {
		return false
	}
	for i := 0; i < len(t); i++ {
		if t[i] == '!' {
			j := i + 1
			v := 0
			for j < len(t) && t[j] >= '0' && t[j] <= '9' {
				v = v*10 + int(t[j]-'0')
				j++
			}
			if j > i+1 && v > n {
				return false
			}
		}
	}
	return true
}

func (x *Ctx) forStmt(fr *Frame, ctl *Ctl, s *ast.ForStmt, label string, st *State, k func(*State)) {
	as := assignedVars(fr.pkg.Info, s.Body)
	if s.Post != nil {
		for o := range assignedVars(fr.pkg.Info, s.Post) {
			as[o] = true
		}
	}
	if s.Cond != nil {
		for o := range assignedVars(fr.pkg.Info, s.Cond) {
			as[o] = true
		}
	}
	// loop variable of the form i := e; i < n; i++ : i stays >= its initial value
	auto := func(st *State) []string { return nil }
	if as2, ok := s.Init.(*ast.AssignStmt); ok && as2.Tok == token.DEFINE && len(as2.Lhs) == 1 {
		if inc, ok := s.Post.(*ast.IncDecStmt); ok && inc.Tok == token.INC {
			if id, ok := inc.X.(*ast.Ident); ok && fr.pkg.Info.Uses[id] == fr.pkg.Info.Defs[as2.Lhs[0].(*ast.Ident)] && !assignedVars(fr.pkg.Info, s.Body)[fr.pkg.Info.Uses[id]] {
				o := fr.pkg.Info.Uses[id]
				init := x.readVar(fr, st, o).V
				hi := ""
				if be, ok := s.Cond.(*ast.BinaryExpr); ok && be.Op == token.LSS {
					if bi, ok := be.X.(*ast.Ident); ok && fr.pkg.Info.Uses[bi] == o {
						if ln, ok := be.Y.(*ast.CallExpr); ok && len(ln.Args) == 1 {
							if li, ok := ast.Unparen(ln.Fun).(*ast.Ident); ok && li.Name == "len" && fr.pkg.Info.Types[ln.Fun].IsBuiltin() {
								if ai, ok := ast.Unparen(ln.Args[0]).(*ast.Ident); ok {
									if ao := fr.pkg.Info.Uses[ai]; ao != nil && !as[ao] && ao.Parent() != ao.Pkg().Scope() {
										hi = x.lenOf(st, x.readVar(fr, st, ao))
									}
								}
							}
						}
						if yi, ok := be.Y.(*ast.Ident); ok {
							yo := fr.pkg.Info.Uses[yi]
							if !as[yo] && fr.pkg.Info.Types[be.Y].Value == nil {
								hi = x.readVar(fr, st, yo).V
							}
						}
					}
				}
				auto = func(st *State) []string {
					v := x.readVar(fr, st, o).V
					r := []string{cmpT("<=", init, v)}
					if hi != "" {
						r = append(r, or(cmpT("<=", v, hi), eq(v, init)))
					}
					return r
				}
			}
		}
	}
	x.runLoop(fr, s, st, as, x.countedLoop(fr, s, as), auto, func(st *State, next func(*State), dry bool) {
		post := func(st *State) {
			if s.Post == nil {
				next(st)
				return
			}
			x.stmt(fr, nil, s.Post, "", st, next)
		}
		exit := k
		if dry {
			exit = func(*State) {}
		}
		nctl := &Ctl{up: ctl, label: label, brk: exit, cont: post}
		if dry {
			nctl.up = dryCtl(ctl)
		}
		f2 := fr
		if dry {
			c := *fr
			c.ret = func(*State, []SV) {}
			f2 = &c
		}
		if s.Cond == nil {
			x.block(f2, nctl, s.Body.List, st, post)
			return
		}
		x.ev(f2, s.Cond, st, func(st *State, c SV) {
			s2 := st.clone()
			st.assume(c.V)
			x.block(f2, nctl, s.Body.List, st, post)
			s2.assume(not(c.V))
			if !s2.dead {
				exit(s2)
			}
		})
	})
}

// countedLoop: in a loop for i := 0; ...; i++ the names $i and $s are those of the corresponding range loop: the index, and
// the slice that is indexed with it.
func (x *Ctx) countedLoop(fr *Frame, s *ast.ForStmt, as map[types.Object]bool) func(*State) map[string]SV {
	none := func(*State) map[string]SV { return nil }
	info := fr.pkg.Info
	in, ok := s.Init.(*ast.AssignStmt)
	if !ok || in.Tok != token.DEFINE || len(in.Lhs) != 1 {
		return none
	}
	tv := info.Types[in.Rhs[0]]
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC || tv.Value == nil || tv.Value.String() != "0" {
		return none
	}
	id, ok := inc.X.(*ast.Ident)
	lhs, ok2 := in.Lhs[0].(*ast.Ident)
	if !ok || !ok2 || info.Uses[id] == nil || info.Uses[id] != info.Defs[lhs] {
		return none
	}
	o := info.Uses[id]
	var sl ast.Expr
	ast.Inspect(s.Body, func(n ast.Node) bool {
		if ie, ok := n.(*ast.IndexExpr); ok && sl == nil {
			ii, ok := ast.Unparen(ie.Index).(*ast.Ident)
			if ok && info.Uses[ii] == o {
				if _, ok := info.TypeOf(ie.X).Underlying().(*types.Slice); ok {
					switch e := ast.Unparen(ie.X).(type) {
					case *ast.Ident:
						if v := info.Uses[e]; v != nil && !as[v] {
							sl = e
						}
					case *ast.SelectorExpr:
						if r, ok := e.X.(*ast.Ident); ok && info.Uses[r] != nil && !as[info.Uses[r]] {
							if _, isV := info.Uses[r].(*types.Var); isV {
								sl = e
							}
						}
					}
				}
			}
		}
		return true
	})
	return func(st *State) map[string]SV {
		m := map[string]SV{"$i": x.readVar(fr, st, o)}
		if sl != nil {
			q := st.clone()
			x.noObl++
			x.ev(fr, sl, q, func(_ *State, v SV) { m["$s"] = v })
			x.noObl--
		}
		return m
	}
}

func dryCtl(c *Ctl) *Ctl {
	if c == nil {
		return nil
	}
	d := &Ctl{up: dryCtl(c.up), label: c.label}
	nop := func(*State) {}
	if c.brk != nil {
		d.brk = nop
	}
	if c.cont != nil {
		d.cont = nop
	}
	if c.fall != nil {
		d.fall = nop
	}
	return d
}

func (x *Ctx) rangeStmt(fr *Frame, ctl *Ctl, s *ast.RangeStmt, label string, st *State, k func(*State)) {
	info := fr.pkg.Info
	x.ev(fr, s.X, st, func(st *State, c SV) {
		c = x.nameIt(st, c)
		if c.S != "Slice" && c.S != "Str" {
			panic(unsup("range over %s", c.T))
		}
		n := x.lenOf(st, c)
		ih := "0"
		idxObj := types.NewVar(token.NoPos, nil, "$i", types.Typ[types.Int])
		st.vars[varKey{fr.id, idxObj}] = SV{T: types.Typ[types.Int], S: "Int", V: ih}
		as := assignedVars(info, s.Body)
		as[idxObj] = true
		for _, e := range []ast.Expr{s.Key, s.Value} {
			if id, ok := e.(*ast.Ident); ok && s.Tok == token.ASSIGN {
				as[info.ObjectOf(id)] = true
			}
		}
		extra := func(st *State) map[string]SV {
			m := map[string]SV{"$i": st.vars[varKey{fr.id, idxObj}], "$s": c}
			if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" && s.Tok == token.DEFINE {
				m[id.Name] = m["$i"]
			}
			return m
		}
		auto := func(st *State) []string {
			i := st.vars[varKey{fr.id, idxObj}].V
			return []string{cmpT("<=", "0", i), cmpT("<=", i, n)}
		}
		x.runLoop(fr, s, st, as, extra, auto, func(st *State, next func(*State), dry bool) {
			exit := k
			f2 := fr
			nctl := &Ctl{up: ctl, label: label}
			if dry {
				exit = func(*State) {}
				nctl.up = dryCtl(ctl)
				cp := *fr
				cp.ret = func(*State, []SV) {}
				f2 = &cp
			}
			i := st.vars[varKey{fr.id, idxObj}]
			cont := func(st *State) {
				if c.S == "Str" {
					// strings advance by the width of the rune (1..4)
					w := x.fresh("w", "Int")
					st.assume("(<= 1 " + w + ")")
					st.assume("(<= (+ " + i.V + " " + w + ") " + n + ")")
					st.assume("(=> (< (strat " + c.V + " " + i.V + ") 128) (= " + w + " 1))")
					st.vars[varKey{fr.id, idxObj}] = SV{T: i.T, S: "Int", V: arith("+", i.V, w)}
				} else {
					st.vars[varKey{fr.id, idxObj}] = SV{T: i.T, S: "Int", V: arith("+", i.V, "1")}
				}
				next(st)
			}
			nctl.brk = exit
			nctl.cont = cont
			cond := cmpT("<", i.V, n)
			s2 := st.clone()
			st.assume(cond)
			if !st.dead {
				set := func(e ast.Expr, v func() SV, kk func(*State)) {
					id, ok := e.(*ast.Ident)
					if e == nil || ok && id.Name == "_" {
						kk(st)
						return
					}
					if s.Tok == token.DEFINE {
						x.declVar(f2, st, info.Defs[id], v())
						kk(st)
						return
					}
					x.assignTo(f2, e, st, v(), kk)
				}
				set(s.Key, func() SV { return i }, func(st *State) {
					set(s.Value, func() SV {
						if c.S == "Str" {
							r := SV{T: types.Typ[types.Int32], S: "Int", V: x.fresh("rune", "Int")}
							x.wf(st, r)
							return r
						}
						v := x.nameIt(st, x.elemSel(st, c, i.V))
						x.wf(st, v)
						return v
					}, func(st *State) {
						x.block(f2, nctl, s.Body.List, st, cont)
					})
				})
			}
			s2.assume(not(cond))
			if !s2.dead {
				exit(s2)
			}
		})
	})
}

// expandDefs replaces names introduced after n0 by their definitions.
func (x *Ctx) expandDefs(t string, n0 int) string {
	for k := 0; k < 20; k++ {
		ch := false
		for i := 0; i+2 < len(t); i++ {
			if t[i] == 't' && t[i+1] == '!' && (i == 0 || t[i-1] == ' ' || t[i-1] == '(') {
				j := i + 2
				for j < len(t) && t[j] >= '0' && t[j] <= '9' {
					j++
				}
				nm := t[i:j]
				if d, ok := x.defs[nm]; ok && !x.symsOlder(nm, n0) {
					t = t[:i] + d + t[j:]
					ch = true
					break
				}
			}
		}
		if !ch || len(t) > 2000 {
			break
		}
	}
	// normalise projections of constructors
	return t
}
