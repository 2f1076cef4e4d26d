package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

func (x *Ctx) evCall(fr *Frame, e *ast.CallExpr, st *State, k K) {
	info := fr.pkg.Info
	// conversion
	if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
		x.ev(fr, e.Args[0], st, func(st *State, v SV) {
			k(st, x.convert(fr, st, e, v, tv.Type))
		})
		return
	}
	// builtin
	if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			x.builtin(fr, e, b.Name(), st, k)
			return
		}
	}
	sig := info.TypeOf(e.Fun).Underlying().(*types.Signature)
	withArgs := func(st *State, f func(*State, []SV)) {
		x.evMulti(fr, e.Args, st, func(st *State, vs []SV) {
			n := sig.Params().Len()
			var out []SV
			for i := 0; i < n; i++ {
				p := sig.Params().At(i)
				if sig.Variadic() && i == n-1 {
					if e.Ellipsis.IsValid() {
						out = append(out, x.coerce(st, vs[i], p.Type()))
						continue
					}
					rest := vs[i:]
					if len(rest) == 0 {
						out = append(out, x.zero(p.Type()))
						continue
					}
					ref := x.alloc(st)
					s := SV{T: p.Type(), S: "Slice", V: fmt.Sprintf("(mkSlice %s 0 %d %d)", ref, len(rest), len(rest))}
					for j, v := range rest {
						c := x.coerce(st, v, p.Type().(*types.Slice).Elem())
						el := x.elemSel(st, s, fmt.Sprint(j))
						st.assume("(= " + el.V + " " + c.V + ")")
					}
					out = append(out, s)
					continue
				}
				out = append(out, x.nameIt(st, x.coerce(st, vs[i], p.Type())))
			}
			f(st, out)
		})
	}
	x.ev(fr, e.Fun, st, func(st *State, f SV) {
		withArgs(st, func(st *State, args []SV) {
			x.callValue(fr, e, f, sig, args, st, func(st *State, rs []SV) {
				switch len(rs) {
				case 0:
					k(st, SV{S: "", T: types.NewTuple()})
				case 1:
					k(st, rs[0])
				default:
					k(st, SV{S: "tuple", T: sig.Results(), Tup: rs})
				}
			})
		})
	})
}

type KR func(*State, []SV)

func (x *Ctx) callValue(fr *Frame, n ast.Node, f SV, sig *types.Signature, args []SV, st *State, k KR) {
	if st.dead {
		return
	}
	if f.S != "clo" {
		// opaque function value: pure application
		x.applyOpaque(fr, n, f, sig, args, st, k)
		return
	}
	c := f.Clo
	if c.lit != nil {
		x.inlineLit(fr, c, args, st, k)
		return
	}
	x.callFunc(fr, n, c.fn, c.recv, args, st, k)
}

const (
	callsN = "H!$calls.n"
	callsA = "H!$calls.a"
	callsB = "H!$calls.b"
)

// applyOpaque: a call of an unknown function value. Callbacks are assumed to be deterministic and not to modify
// values reachable by the callee (reported as an assumption).
func (x *Ctx) applyOpaque(fr *Frame, n ast.Node, f SV, sig *types.Signature, args []SV, st *State, k KR) {
	x.notes["callbacks are total and deterministic, and do not modify the values being iterated"] = true
	var rs []SV
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := SV{T: t, S: sortOf(t), V: x.applyTerm(f.V, args, sortOf(t), i)}
		x.wf(st, r)
		rs = append(rs, r)
	}
	if x.traced && len(args) > 0 {
		// trace of callback applications
		a := x.toVal(st, args[0])
		n := "(select " + x.hget(st, callsN, "Int") + " " + f.V + ")"
		w, wm := st.world, st.wmods
		arr := x.hget(st, callsA, "(Array Int Val)")
		x.hset(st, callsA, "(Array Int Val)", "(store "+arr+" "+f.V+" (store (select "+arr+" "+f.V+") "+n+" "+a+"))", f.V)
		if len(args) > 1 && args[1].S != "clo" {
			b := x.toVal(st, args[1])
			arr := x.hget(st, callsB, "(Array Int Val)")
			x.hset(st, callsB, "(Array Int Val)", "(store "+arr+" "+f.V+" (store (select "+arr+" "+f.V+") "+n+" "+b+"))", f.V)
		}
		x.hset(st, callsN, "Int", "(store "+x.hget(st, callsN, "Int")+" "+f.V+" (+ 1 "+n+"))", f.V)
		st.world, st.wmods = w, wm
	}
	k(st, rs)
}

func (x *Ctx) applyTerm(f string, args []SV, ret string, i int) string {
	name := "app"
	var ss []string
	var vs []string
	for _, a := range args {
		name += "." + sanitize(a.S)
		ss = append(ss, a.S)
		vs = append(vs, a.V)
	}
	name += fmt.Sprintf(".to.%s.%d", sanitize(ret), i)
	x.declFun(name, append([]string{"Int"}, ss...), ret)
	return "(" + name + " " + strings.Join(append([]string{f}, vs...), " ") + ")"
}

func (x *Ctx) inlineLit(fr *Frame, c *Closure, args []SV, st *State, k KR) {
	x.nfresh++
	sig := c.fr.pkg.Info.TypeOf(c.lit).(*types.Signature)
	nf := &Frame{id: x.nfresh, up: c.fr, pkg: c.fr.pkg, sig: sig, loops: c.fr.loops, con: c.fr.con, top: fr.top, depth: fr.depth + 1, chain: fr.chain, isLit: true, moved: c.fr.moved, fn: c.fr.fn}
	if len(fr.chain) > 40 || fr.depth > 30 {
		panic(unsup("closure recursion"))
	}
	x.enter(nf, sig, c.lit.Type.Params, c.lit.Type.Results, c.lit.Body, nil, nil, args, st, k)
}

// enter binds parameters and executes a body.
func (x *Ctx) enter(nf *Frame, sig *types.Signature, params, results *ast.FieldList, body *ast.BlockStmt, recvId *ast.Ident, recv *SV, args []SV, st *State, k KR) {
	info := nf.pkg.Info
	if recvId != nil && recv != nil {
		if o := info.Defs[recvId]; o != nil {
			x.declVar(nf, st, o, *recv)
		}
	}
	i := 0
	for _, f := range params.List {
		for _, id := range f.Names {
			if o := info.Defs[id]; o != nil {
				x.declVar(nf, st, o, args[i])
			}
			i++
		}
		if len(f.Names) == 0 {
			i++
		}
	}
	if results != nil {
		for _, f := range results.List {
			for _, id := range f.Names {
				if o, ok := info.Defs[id].(*types.Var); ok {
					x.declVar(nf, st, o, x.zero(o.Type()))
					nf.named = append(nf.named, o)
				}
			}
		}
	}
	if len(nf.named) > 0 && results != nil {
		for _, f := range results.List {
			for _, id := range f.Names {
				if id.Name == "_" {
					panic(unsup("blank named result"))
				}
			}
		}
	}
	nf.ret = func(st *State, vs []SV) {
		if !st.dead {
			k(st, vs)
		}
	}
	x.block(nf, nil, body.List, st, func(st *State) {
		if sig.Results().Len() == 0 {
			nf.ret(st, nil)
		} else if len(nf.named) > 0 {
			var vs []SV
			for _, n := range nf.named {
				vs = append(vs, x.readVar(nf, st, n))
			}
			nf.ret(st, vs)
		}
		// otherwise: falling off the end is impossible
	})
}

func (x *Ctx) callFunc(fr *Frame, n ast.Node, fn *types.Func, recv *SV, args []SV, st *State, k KR) {
	if st.dead {
		return
	}
	fn = fn.Origin()
	sig := fn.Type().(*types.Signature)
	key := funcKey(fn)
	// interface method on a value whose dynamic type is known syntactically: devirtualise
	if recv != nil && isIface(recv.T) {
		if _, isI := sig.Recv().Type().Underlying().(*types.Interface); isI {
			x.safety(fr, st, n, "nil interface call", not(eq(recv.V, "vnil")))
			if st.dead {
				return
			}
			if d := x.staticDyn(recv.V); d != nil {
				if m, idx, _ := types.LookupFieldOrMethod(d, false, fn.Pkg(), fn.Name()); m != nil {
					if mf, ok := m.(*types.Func); ok {
						rv := x.payload(st, recv.V, d)
						if len(idx) > 1 {
							rv = x.methodRecv(fr, st, n, rv, idx[:len(idx)-1], mf)
						}
						x.callFunc(fr, n, mf, &rv, args, st, k)
						return
					}
				}
			}
		}
	} else if recv != nil && sig.Recv() != nil {
		if _, isI := sig.Recv().Type().Underlying().(*types.Interface); isI {
			// promoted from an embedded interface
			v := SV{T: sig.Recv().Type(), S: "Val", V: x.toVal(st, *recv)}
			recv = &v
		} else if _, wantPtr := sig.Recv().Type().(*types.Pointer); !wantPtr {
			if p, isPtr := recv.T.Underlying().(*types.Pointer); isPtr {
				r := x.loadDeref(st, recv.V, p.Elem())
				recv = &r
			}
		} else if recv.S == "struct" {
			panic(unsup("pointer method on struct value"))
		}
	}
	if x.model(fr, n, fn, key, recv, args, st, k) {
		return
	}
	cons := x.contractsFor(fn)
	if c, ok := x.db.Contracts[fr.pkg.Name+"/"+key]; ok && x.concerns(c) {
		cons = []*boundC{{c, fn, false}}
	}
	if recv != nil && isIface(recv.T) {
		// a trusted contract for calls in this package through that interface
		if nt, ok := recv.T.(*types.Named); ok && nt.Obj().Pkg() != nil {
			if c, ok := x.db.Contracts[fr.pkg.Name+"/"+nt.Obj().Pkg().Name()+"."+nt.Obj().Name()+"."+fn.Name()]; ok && x.concerns(c) {
				cons = []*boundC{{c, fn, false}}
			}
		}
	}
	if len(cons) > 0 {
		x.applyContract(fr, n, fn, cons, recv, args, st, k)
		return
	}
	d := x.pr.Decls[fn]
	if d == nil || d.Body == nil {
		if recv != nil && isIface(recv.T) {
			// the dynamic type may be known from what a contract tells
			for _, t := range x.pr.TagT {
				if _, ok := t.(*types.Pointer); !ok {
					continue
				}
				cons, ts, _ := valCons(t)
				if !st.set["((_ is "+cons+") "+recv.V+")"] || !st.set["(= ("+ts+" "+recv.V+") "+x.tag(t)+")"] {
					continue
				}
				m, idx, _ := types.LookupFieldOrMethod(t, false, fn.Pkg(), fn.Name())
				if mf, ok := m.(*types.Func); ok {
					rv := x.payload(st, recv.V, t)
					if len(idx) > 1 {
						rv = x.methodRecv(fr, st, n, rv, idx[:len(idx)-1], mf)
					}
					x.callFunc(fr, n, mf, &rv, args, st, k)
					return
				}
			}
		}
		panic(unsup("call of %s without a contract", key))
	}
	for _, c := range fr.chain {
		if c == fn {
			panic(unsup("recursive call of uncontracted %s", key))
		}
	}
	if fr.depth > 12 {
		panic(unsup("inlining too deep at %s", key))
	}
	x.inlined[key] = true
	x.nfresh++
	nf := &Frame{id: x.nfresh, pkg: x.pr.DPkg[fn], fn: fn, sig: sig, loops: x.loopOrdinals(x.pr.DPkg[fn], d.Body), top: fr.top, depth: fr.depth + 1, chain: append(append([]*types.Func{}, fr.chain...), fn)}
	if fr.con != nil || true {
		// loops of an inlined helper may be annotated under the helper's own name by a contract marked inline
		if c, ok := x.db.Contracts["inline:"+key]; ok {
			nf.con = c
		}
	}
	if fr.loops != nil && n != nil {
		if lm := fr.loops.inner[n]; lm != nil {
			nf.loops, nf.con, nf.up, nf.moved = lm, fr.con, fr, true
		}
	}
	var rid *ast.Ident
	if d.Recv != nil && len(d.Recv.List) > 0 && len(d.Recv.List[0].Names) > 0 {
		rid = d.Recv.List[0].Names[0]
	}
	x.enter(nf, sig, d.Type.Params, d.Type.Results, d.Body, rid, recv, args, st, k)
}

// contractsFor returns the contracts that apply to a call of fn: its own, or the interface contracts it inherits.
func (x *Ctx) contractsFor(fn *types.Func) []*boundC {
	var out []*boundC
	if c, ok := x.db.Contracts[funcKey(fn)]; ok && (!c.Trusted && !c.Private || x.concerns(c)) {
		out = append(out, &boundC{c, fn, false})
	}
	sig := fn.Type().(*types.Signature)
	if sig.Recv() == nil {
		return out
	}
	if _, isI := sig.Recv().Type().Underlying().(*types.Interface); isI {
		return out
	}
	if len(out) > 0 && out[0].c.Only {
		return out
	}
	out = append(out, x.ifaceContracts(sig.Recv().Type(), fn)...)
	return out
}

type boundC struct {
	c     *Contract
	fn    *types.Func
	iface bool
}

// ifaceContracts: contracts on interface methods that method fn of type t implements.
func (x *Ctx) ifaceContracts(t types.Type, fn *types.Func) []*boundC {
	var out []*boundC
	if x.skipDyn(t) {
		return nil
	}
	for _, key := range x.db.Order {
		c := x.db.Contracts[key]
		if !strings.HasSuffix(key, "."+fn.Name()) {
			continue
		}
		im := x.ifaceMethod(key)
		if im == nil {
			continue
		}
		it := im.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
		if types.Implements(t, it) {
			out = append(out, &boundC{c, im, true})
		}
	}
	return out
}

// ifaceMethod resolves "pkg.Iface.M" to the interface method, or nil.
func (x *Ctx) ifaceMethod(key string) *types.Func {
	p := strings.Split(key, ".")
	if len(p) != 3 {
		return nil
	}
	pk := x.pr.pkgByName(p[0])
	if pk == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(p[1]).(*types.TypeName)
	if !ok {
		return nil
	}
	it, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Name() == p[2] {
			if it.NumExplicitMethods() > 0 {
				for j := 0; j < it.NumExplicitMethods(); j++ {
					if it.ExplicitMethod(j) == m {
						return m
					}
				}
			}
			return nil
		}
	}
	return nil
}

// bindEnv builds the name environment of a contract.
func (x *Ctx) bindEnv(st *State, b *boundC, recv *SV, args []SV) map[string]SV {
	env := map[string]SV{}
	sig := b.fn.Type().(*types.Signature)
	if recv != nil {
		r := *recv
		if b.iface || isIface(r.T) {
			env["self"] = SV{T: sig.Recv().Type(), S: "Val", V: x.toVal(st, r)}
		} else {
			env["self"] = r
			if sig.Recv().Name() != "" {
				env[sig.Recv().Name()] = r
			}
			if d := x.pr.Decls[b.fn]; d != nil && d.Recv != nil && len(d.Recv.List[0].Names) > 0 {
				env[d.Recv.List[0].Names[0].Name] = r
			}
		}
	}
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		nm := sig.Params().At(i).Name()
		if i < len(b.c.Params) {
			nm = b.c.Params[i]
		}
		if nm != "" && nm != "_" {
			env[nm] = args[i]
		}
		env[fmt.Sprintf("$%d", i)] = args[i]
	}
	return env
}

func bindResults(env map[string]SV, sig *types.Signature, rs []SV) {
	for i, r := range rs {
		env[fmt.Sprintf("result%d", i)] = r
		if i == 0 {
			env["result"] = r
		}
		if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			if _, dup := env[n]; !dup {
				env[n] = r
			}
		}
	}
}

func (x *Ctx) applyContract(fr *Frame, n ast.Node, fn *types.Func, cons []*boundC, recv *SV, args []SV, st *State, k KR) {
	sig := fn.Type().(*types.Signature)
	key := funcKey(fn)
	iter, iterArg := x.iterating(cons, args)
	var iterClo SV
	for i := range args {
		if args[i].S == "clo" {
			if iter != nil && i == iterArg {
				iterClo = args[i]
				args[i] = SV{T: args[i].T, S: "Int", V: x.cloName(st, args[i])}
				continue
			}
			x.effectFree(fr, n, st, args[i], key)
			args[i] = SV{T: args[i].T, S: "Int", V: x.cloValue(fr, st, args[i])}
		}
	}
	// the definitional cases of a receiver of known dynamic type are visible
	if recv != nil && recv.S != "struct" && recv.S != "clo" {
		if rv := x.toVal(st, *recv); x.staticDyn(rv) != nil {
			st.assume("(unf " + rv + ")")
		}
	}
	// preconditions and panics
	pure := true
	for _, b := range cons {
		x.usedContracts[b.c.Key] = true
		env := x.bindEnv(st, b, recv, args)
		if !b.c.Pure {
			pure = false
		}
		nreq := 0
		for _, cl := range b.c.Clauses {
			switch cl.Kind {
			case "requires":
				nreq++
				c := x.evalSpecIn(st, pkgOf(b.c.Key), env, cl.E, nil)
				x.oblige(st, fr, "precondition", fmt.Sprintf("pre:%s#%d", b.c.Key, nreq), c.V, x.posOf(n), cl.Props)
				st.assume(c.V)
			case "panics":
				if cl.E == nil {
					continue
				}
				c := x.evalSpecIn(st, pkgOf(b.c.Key), env, cl.E, nil)
				x.safety(fr, st, n, "call of "+key, not(c.V))
			case "maypanic":
				if cl.E == nil {
					x.panicCond(fr, st, n, "call of "+key, "true")
					continue
				}
				c := x.evalSpecIn(st, pkgOf(b.c.Key), env, cl.E, nil)
				x.panicCond(fr, st, n, "call of "+key, c.V)
			}
		}
	}
	if st.dead {
		return
	}
	pre := st.clone()
	if iter != nil {
		x.iterate(fr, n, iter, iterClo, recv, args, pre, st, k)
		return
	}
	// effects
	if !pure {
		na := x.fresh("alloc", "Int")
		st.assume("(>= " + na + " " + st.alloc + ")")
		st.alloc = na
		for _, b := range cons {
			env := x.bindEnv(st, b, recv, args)
			for _, cl := range b.c.Clauses {
				if cl.Kind != "modifies" {
					continue
				}
				for _, m := range cl.Es {
					for _, t := range x.modTargets(pre, pkgOf(b.c.Key), env, m) {
						x.applyMod(st, t)
					}
				}
			}
		}
	}
	// results
	rs := make([]SV, sig.Results().Len())
	done := make([]bool, len(rs))
	for _, b := range cons {
		env := x.bindEnv(st, b, recv, args)
		for _, cl := range b.c.Clauses {
			if cl.Kind == "returns" && len(rs) > 0 && !done[0] {
				v := x.evalSpecIn(st, pkgOf(b.c.Key), env, cl.E, pre)
				v = x.coerce(st, v, sig.Results().At(0).Type())
				rs[0] = x.nameIt(st, v)
				x.wf(st, rs[0])
				done[0] = true
			}
		}
	}
	for i := range rs {
		if !done[i] {
			rs[i] = x.freshSV(st, "r."+fn.Name(), sig.Results().At(i).Type())
		}
		if !pure {
			// nothing
		}
		if p, ok := rs[i].T.Underlying().(*types.Pointer); ok && rs[i].S == "Int" {
			if nt, ok := p.Elem().(*types.Named); ok && len(x.db.Invs["*"+nt.Obj().Name()]) > 0 {
				s2 := SV{T: rs[i].T, S: "Int", V: rs[i].V}
				for _, iv := range x.db.Invs["*"+nt.Obj().Name()] {
					c := x.evalSpecIn(st, nt.Obj().Pkg().Name(), map[string]SV{"self": s2}, iv.Body, nil)
					st.assume(implies(not(eq(s2.V, "0")), c.V))
				}
			}
		}
	}
	for _, b := range cons {
		env := x.bindEnv(st, b, recv, args)
		bindResults(env, b.fn.Type().(*types.Signature), rs)
		for _, cl := range b.c.Clauses {
			switch cl.Kind {
			case "ensures", "assumes":
				if x.db.Prop != "" && len(cl.Props) > 0 && !hasProp(cl.Props, x.db.Prop) {
					continue // an ensures of other properties is of no concern here
				}
				c := x.evalSpecIn(st, pkgOf(b.c.Key), env, cl.E, pre)
				st.assume(c.V)
			case "returns":
				if !done[0] {
					continue
				}
				v := x.evalSpecIn(st, pkgOf(b.c.Key), env, cl.E, pre)
				v = x.coerce(st, v, sig.Results().At(0).Type())
				if v.V != rs[0].V {
					st.assume(eq(v.V, rs[0].V))
				}
			}
		}
	}
	if st.dead {
		return
	}
	k(st, rs)
}

// iterating: the contract says that the callee does nothing but apply one of its arguments, a function literal here, to a
// sequence of values. Such a call is a loop.
func (x *Ctx) iterating(cons []*boundC, args []SV) (*boundC, int) {
	for _, b := range cons {
		for _, cl := range b.c.Clauses {
			if cl.Kind != "iterates" {
				continue
			}
			ps := b.c.Params
			for i := range ps {
				if i < len(args) && ps[i] == cl.E.A[0].S && args[i].S == "clo" && args[i].Clo.lit != nil {
					return b, i
				}
			}
		}
	}
	return nil, 0
}

// iterate executes such a call: for $i := 0; while; $i++ { f(args) }. What is iterated is that at the call.
func (x *Ctx) iterate(fr *Frame, n ast.Node, b *boundC, f SV, recv *SV, args []SV, pre, st *State, k KR) {
	var it *Clause
	for _, cl := range b.c.Clauses {
		if cl.Kind == "iterates" {
			it = cl
		}
	}
	env := x.bindEnv(pre, b, recv, args)
	if len(it.Es) == 0 {
		x.applyOnce(fr, n, b, it, f, env, pre, st, k)
		return
	}
	idx := types.NewVar(0, nil, "$i", types.Typ[types.Int])
	vk := varKey{fr.id, idx}
	st.vars[vk] = SV{T: types.Typ[types.Int], S: "Int", V: "0"}
	as := assignedVars(f.Clo.fr.pkg.Info, f.Clo.lit.Body)
	as[idx] = true
	in := func(s *State, e *Ex) SV {
		env["$i"] = s.vars[vk]
		q := pre.clone()
		q.path = s.path
		r := x.evalSpecIn(q, pkgOf(b.c.Key), env, e, nil)
		s.path = q.path
		return r
	}
	extra := func(s *State) map[string]SV {
		fn := func(e *Ex) SV {
			return SV{S: "specfn", Fn: func(i SV) SV {
				e2 := map[string]SV{}
				for k, v := range env {
					e2[k] = v
				}
				e2["$i"] = i
				q := pre.clone()
				q.path = s.path
				r := x.evalSpecIn(q, pkgOf(b.c.Key), e2, e, nil)
				s.path = q.path
				return r
			}}
		}
		// $at(i): what the function is applied to in iteration i
		return map[string]SV{"$i": s.vars[vk], "$at": fn(it.E.A[1]), "$more": fn(it.Es[0])}
	}
	auto := func(s *State) []string { return []string{cmpT("<=", "0", s.vars[vk].V)} }
	x.runLoop(fr, n, st, as, extra, auto, func(s *State, next func(*State), dry bool) {
		c := in(s, it.Es[0])
		s2 := s.clone()
		s.assume(c.V)
		if !s.dead {
			sig := f.T.Underlying().(*types.Signature)
			var as []SV
			for i, e := range it.E.A[1:] {
				as = append(as, x.coerce(s, in(s, e), sig.Params().At(i).Type()))
			}
			i := s.vars[vk]
			x.callValue(fr, n, f, sig, as, s, func(s *State, _ []SV) {
				s.vars[vk] = SV{T: i.T, S: "Int", V: arith("+", i.V, "1")}
				next(s)
			})
		}
		s2.assume(not(c.V))
		if !dry && !s2.dead {
			k(s2, nil)
		}
	})
}

// applyOnce: the callee calls the function exactly once: before that it makes the entry updates, after it, it demands and
// makes the exit updates.
func (x *Ctx) applyOnce(fr *Frame, n ast.Node, b *boundC, it *Clause, f SV, env map[string]SV, pre, st *State, k KR) {
	pkg := pkgOf(b.c.Key)
	for _, cl := range b.c.Clauses {
		if cl.Kind == "entry" {
			x.ghostAssign(pre, st, pkg, env, cl)
		}
	}
	for _, cl := range b.c.Clauses {
		if cl.Kind == "assumes" {
			st.assume(x.evalSpecIn(st, pkg, env, cl.E, pre).V)
		}
	}
	sig := f.T.Underlying().(*types.Signature)
	var as []SV
	for i, e := range it.E.A[1:] {
		as = append(as, x.coerce(st, x.evalSpecIn(st, pkg, env, e, pre), sig.Params().At(i).Type()))
	}
	x.callValue(fr, n, f, sig, as, st, func(st *State, _ []SV) {
		nd := 0
		for _, cl := range b.c.Clauses {
			switch cl.Kind {
			case "demands":
				nd++
				c := x.evalSpecIn(st, pkg, env, cl.E, pre)
				x.oblige(st, fr, "precondition", fmt.Sprintf("demand:%s#%d", b.c.Key, nd), c.V, x.posOf(n), cl.Props)
				st.assume(c.V)
			case "exit":
				x.ghostAssign(pre, st, pkg, env, cl)
			}
		}
		if !st.dead {
			k(st, nil)
		}
	})
}

// effectFree: a function literal that is handed to a callee must not alter anything, for the contract of the callee does
// not tell when it is called.
func (x *Ctx) effectFree(fr *Frame, n ast.Node, st *State, f SV, key string) {
	c := f.Clo
	if c.lit == nil {
		return
	}
	for o := range assignedVars(c.fr.pkg.Info, c.lit.Body) {
		if o.Pos() < c.lit.Pos() || o.Pos() > c.lit.End() {
			panic(unsup("function literal passed to %s assigns %s", key, o.Name()))
		}
	}
	d := st.clone()
	var args []SV
	sig := f.T.Underlying().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, x.freshSV(d, "arg", sig.Params().At(i).Type()))
	}
	log := map[string][]string{}
	x.modlog = append(x.modlog, log)
	x.noObl++
	defer func() {
		x.noObl--
		x.modlog = x.modlog[:len(x.modlog)-1]
	}()
	n0 := x.nfresh
	x.inlineLit(fr, c, args, d, func(*State, []SV) {})
	for f, ts := range log {
		for _, t := range ts {
			if t = x.expandDefs(t, n0); !strings.HasPrefix(t, "new!") {
				panic(unsup("function literal passed to %s alters %s", key, f))
			}
		}
	}
}

func pkgOf(key string) string {
	i := strings.Index(key, ".")
	return key[strings.Index(key, "/")+1 : i]
}

// cloValue gives a closure a constant and, when its body is a pure expression, the defining axiom.
func (x *Ctx) cloValue(fr *Frame, st *State, v SV) string {
	n := x.cloName(st, v)
	c := v.Clo
	if c.lit == nil {
		return n
	}
	sig := v.T.Underlying().(*types.Signature)
	if sig.Results().Len() == 0 {
		return n
	}
	// summarise: run the body on universally quantified arguments
	s2 := st.clone()
	base := s2.path
	var args []SV
	var bind []string
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		x.nfresh++
		nm := fmt.Sprintf("q!%d", x.nfresh)
		s := sortOf(t)
		if s == "struct" {
			return n
		}
		args = append(args, SV{T: t, S: s, V: nm})
		bind = append(bind, "("+nm+" "+s+")")
	}
	type res struct{ cond, val string }
	var rss []res
	ok := true
	x.noObl++
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupErr); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		n0 := x.nfresh
		x.inlineLit(fr, c, args, s2, func(s *State, vs []SV) {
			if !sameHeap(st, s) || len(vs) != 1 || vs[0].V == "" {
				ok = false
				return
			}
			val := vs[0].V
			var conds []string
			for p := s.path; p != nil && p != base; p = p.up {
				if !allocFact(p.s) {
					conds = append(conds, p.s)
				}
			}
			cnd := and(conds...)
			// substitute definitional names
			cnd = x.expandDefs(cnd, n0)
			val = x.expandDefs(val, n0)
			if !x.symsOlder(strings.ReplaceAll(cnd+val, "q!", "q"), n0) {
				ok = false
				return
			}
			rss = append(rss, res{cnd, val})
		})
	}()
	x.noObl--
	if !ok {
		return n
	}
	app := x.applyTerm(n, args, sortOf(sig.Results().At(0).Type()), 0)
	for _, r := range rss {
		st.assume("(forall (" + strings.Join(bind, " ") + ") (! (=> " + r.cond + " (= " + app + " " + r.val + ")) :pattern (" + app + ")))")
	}
	return n
}

func (x *Ctx) applyMod(st *State, t modTarget) {
	srt := x.fieldSort[t.field]
	if t.ref == "" {
		x.havocHeap(st, t.field)
		st.wmods = true
		for _, l := range x.modlog {
			l[t.field] = append(l[t.field], "?all")
		}
		return
	}
	old := x.hget(st, t.field, srt)
	nv := x.fresh("mv", srt)
	x.hset(st, t.field, srt, "(store "+old+" "+t.ref+" "+nv+")", t.ref)
	// well-formedness of the new content
	switch srt {
	case "Slice":
		st.assume("(sliceok " + nv + " " + st.alloc + ")")
	case "Val":
		st.assume("(valok " + nv + " " + st.alloc + ")")
	}
}

// modTargets evaluates a modifies expression: x.f | elems(s) | all(T.f)
func (x *Ctx) modTargets(st *State, pkg string, env map[string]SV, m *Ex) []modTarget {
	switch m.Op {
	case "sel":
		b := x.evalSpecIn(st, pkg, env, m.A[0], nil)
		if g, ok := x.ghostField(b.T, m.S); ok {
			x.hget(st, g.name, srt(g.t))
			return []modTarget{{g.name, refTerm(b)}}
		}
		p, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			panic(unsup("modifies %s", m.S))
		}
		f := findField(p.Elem(), m.S)
		if f == nil {
			panic(unsup("modifies: no field %s", m.S))
		}
		x.hget(st, "H!"+x.fieldName(f), sortOf(f.Type()))
		return []modTarget{{"H!" + x.fieldName(f), b.V}}
	case "call":
		switch m.A[0].S {
		case "calls":
			if !x.traced {
				return nil
			}
			b := x.evalSpecIn(st, pkg, env, m.A[1], nil)
			x.hget(st, callsN, "Int")
			x.hget(st, callsA, "(Array Int Val)")
			x.hget(st, callsB, "(Array Int Val)")
			return []modTarget{{callsN, b.V}, {callsA, b.V}, {callsB, b.V}}
		case "elems":
			b := x.evalSpecIn(st, pkg, env, m.A[1], nil)
			et := b.T.Underlying().(*types.Slice).Elem()
			n, es := x.elemName(et)
			x.hget(st, n, "(Array Int "+es+")")
			return []modTarget{{n, selOf("sarr", b.V)}}
		case "entries":
			b := x.evalSpecIn(st, pkg, env, m.A[1], nil)
			mt, ok := mapType(b.T)
			if !ok {
				panic(unsup("entries of %s", b.T))
			}
			h, hs, g, gs := mapHeap(mt)
			x.hget(st, h, hs)
			x.hget(st, g, gs)
			return []modTarget{{h, b.V}, {g, b.V}}
		case "all":
			// all(T.f) or all(elems T)
			a := m.A[1]
			if a.Op == "sel" && (a.A[0].Op == "id" || a.A[0].Op == "sel" && a.A[0].A[0].Op == "id") {
				tn := a.A[0].S
				if a.A[0].Op == "sel" {
					tn = a.A[0].A[0].S + "." + a.A[0].S
				}
				t := x.resolveType(pkg, tn)
				if g, ok := x.ghostField(t, a.S); ok {
					x.hget(st, g.name, srt(g.t))
					return []modTarget{{g.name, ""}}
				}
				f := findField(t, a.S)
				if f != nil {
					x.hget(st, "H!"+x.fieldName(f), sortOf(f.Type()))
					return []modTarget{{"H!" + x.fieldName(f), ""}}
				}
			}
		case "allelems":
			t := x.resolveType(pkg, m.A[1].S)
			n, es := x.elemName(t)
			x.hget(st, n, "(Array Int "+es+")")
			return []modTarget{{n, ""}}
		}
	case "id":
		if m.S == "nothing" {
			return nil
		}
	}
	panic(unsup("modifies expression"))
}

func findField(t types.Type, name string) *types.Var {
	stt, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == name {
			return stt.Field(i)
		}
	}
	for i := 0; i < stt.NumFields(); i++ {
		if f := stt.Field(i); f.Embedded() && sortOf(f.Type()) == "struct" {
			if r := findField(f.Type(), name); r != nil {
				return r
			}
		}
	}
	return nil
}

// ---- builtins

func (x *Ctx) builtin(fr *Frame, e *ast.CallExpr, name string, st *State, k K) {
	switch name {
	case "len":
		x.ev(fr, e.Args[0], st, func(st *State, v SV) {
			k(st, SV{T: types.Typ[types.Int], S: "Int", V: x.lenOf(st, v)})
		})
	case "cap":
		x.ev(fr, e.Args[0], st, func(st *State, v SV) {
			k(st, SV{T: types.Typ[types.Int], S: "Int", V: selOf("scap", v.V)})
		})
	case "panic":
		x.ev(fr, e.Args[0], st, func(st *State, v SV) {
			x.panicked(fr, st, e, "explicit panic")
		})
	case "make":
		t := x.typeOf(fr, e.Args[0])
		if mt, ok := mapType(t); ok {
			ref := x.alloc(st)
			h, hs, _, _ := mapHeap(mt)
			st.assume("(= (select " + x.hget(st, h, hs) + " " + ref + ") ((as const " + hs + ") false))")
			k(st, SV{T: t, S: "Int", V: ref})
			return
		}
		slt, ok := t.Underlying().(*types.Slice)
		if !ok {
			panic(unsup("make of %s", t))
		}
		x.evList(fr, e.Args[1:], st, func(st *State, vs []SV) {
			ln := vs[0].V
			cp := ln
			if len(vs) > 1 {
				cp = vs[1].V
			}
			x.safety(fr, st, e, "make: size", and(cmpT("<=", "0", ln), cmpT("<=", ln, cp), cmpT("<=", cp, "72057594037927936")))
			ref := x.alloc(st)
			s := SV{T: t, S: "Slice", V: "(mkSlice " + ref + " 0 " + ln + " " + cp + ")"}
			z := x.zero(slt.Elem())
			el := x.elemSel(st, s, "i!")
			if es := sortOf(slt.Elem()); es != "struct" {
				n, _ := x.elemName(slt.Elem())
				a := x.hget(st, n, "(Array Int "+es+")")
				st.assume("(= (select " + a + " " + ref + ") ((as const (Array Int " + es + ")) " + z.V + "))")
			}
			_ = el
			k(st, s)
		})
	case "append":
		x.evList(fr, e.Args, st, func(st *State, vs []SV) {
			t := x.typeOf(fr, e.Args[0])
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
				t = x.typeOf(fr, e)
			}
			s := x.coerce(st, vs[0], t)
			if e.Ellipsis.IsValid() {
				if vs[1].S == "nil" {
					k(st, s)
					return
				}
				if vs[1].S == "Str" {
					vs[1] = x.nameIt(st, x.convert(fr, st, e, vs[1], t))
				}
				if vs[1].S != "Slice" {
					panic(unsup("append of %s", vs[1].T))
				}
				x.appendN(fr, e, st, s, nil, &vs[1], k)
				return
			}
			et := t.Underlying().(*types.Slice).Elem()
			var el []SV
			for _, v := range vs[1:] {
				el = append(el, x.nameIt(st, x.coerce(st, v, et)))
			}
			// the slices of a recursion guard are private to it: appending to one is modelled as making a new one
			x.freshAppend = guardSlice(e.Args[0])
			x.appendN(fr, e, st, s, el, nil, k)
		})
	case "copy":
		x.evList(fr, e.Args, st, func(st *State, vs []SV) {
			d, s := vs[0], vs[1]
			if s.S != "Slice" || d.S != "Slice" {
				panic(unsup("copy"))
			}
			dl, sl := selOf("slen", d.V), selOf("slen", s.V)
			nn := x.fresh("n", "Int")
			st.assume("(= " + nn + " (ite (<= " + dl + " " + sl + ") " + dl + " " + sl + "))")
			et := d.T.Underlying().(*types.Slice).Elem()
			n, es := x.elemName(et)
			a := x.hget(st, n, "(Array Int "+es+")")
			src := x.fresh("ca", "(Array Int "+es+")")
			st.assume("(= " + src + " (select " + a + " " + selOf("sarr", s.V) + "))")
			old := x.fresh("ca", "(Array Int "+es+")")
			st.assume("(= " + old + " (select " + a + " " + selOf("sarr", d.V) + "))")
			nw := x.fresh("ca", "(Array Int "+es+")")
			do, so := selOf("soff", d.V), selOf("soff", s.V)
			st.assume("(forall ((j! Int)) (! (= (select " + nw + " j!) (ite (and (<= " + do + " j!) (< j! (+ " + do + " " + nn + "))) (select " + src + " (ix " + so + " (- j! " + do + "))) (select " + old + " j!))) :pattern ((select " + nw + " j!))))")
			x.hset(st, n, "(Array Int "+es+")", "(store "+a+" "+selOf("sarr", d.V)+" "+nw+")", selOf("sarr", d.V))
			k(st, SV{T: types.Typ[types.Int], S: "Int", V: nn})
		})
	default:
		panic(unsup("builtin %s", name))
	}
}

// guardSlice is true for the slices that guard against endless recursion
func guardSlice(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return e.Name == "seen"
	case *ast.SelectorExpr:
		return e.Sel.Name == "aSeen" || e.Sel.Name == "bSeen"
	}
	return false
}

// appendN models append: in place when the capacity suffices, otherwise on a fresh array.
func (x *Ctx) appendN(fr *Frame, n ast.Node, st *State, s SV, el []SV, more *SV, k K) {
	et := s.T.Underlying().(*types.Slice).Elem()
	nm, es := x.elemName(et)
	hs := "(Array Int " + es + ")"
	ln := selOf("slen", s.V)
	add := fmt.Sprint(len(el))
	if more != nil {
		add = selOf("slen", more.V)
	}
	if add == "0" {
		k(st, s)
		return
	}
	nl := x.nameIt(st, SV{T: types.Typ[types.Int], S: "Int", V: arith("+", ln, add)}).V
	srcArr := ""
	if more != nil {
		a := x.hget(st, nm, hs)
		srcArr = x.fresh("ca", hs)
		st.assume("(= " + srcArr + " (select " + a + " " + selOf("sarr", more.V) + "))")
	}
	off := selOf("soff", s.V)
	fill := func(st *State, base, dstOff string, pure bool) string {
		// the array content after writing the new elements behind position ln
		if more == nil {
			t := base
			for j, v := range el {
				t = "(store " + t + " " + ix(dstOff, arith("+", ln, fmt.Sprint(j))) + " " + v.V + ")"
			}
			return t
		}
		nw := x.fresh("ca", hs)
		lo := arith("+", dstOff, ln)
		st.assume("(forall ((j! Int)) (! (= (select " + nw + " j!) (ite (and (<= " + lo + " j!) (< j! (+ " + dstOff + " " + nl + "))) (select " + srcArr + " (ix " + selOf("soff", more.V) + " (- j! " + lo + "))) (select " + base + " j!))) :pattern ((select " + nw + " j!))))")
		return nw
	}
	// in place
	fits := cmpT("<=", nl, selOf("scap", s.V))
	s1 := st.clone()
	s1.assume(fits)
	if x.freshAppend {
		x.freshAppend = false
		s1.dead = true
		fits = "false"
	}
	if more != nil {
		s1.assume(cmpT("<", "0", add))
	}
	if !s1.dead {
		a := x.hget(s1, nm, hs)
		arr := selOf("sarr", s.V)
		nw := fill(s1, "(select "+a+" "+arr+")", off, false)
		x.hset(s1, nm, hs, "(store "+a+" "+arr+" "+nw+")", arr)
		k(s1, SV{T: s.T, S: "Slice", V: "(mkSlice " + arr + " " + off + " " + nl + " " + selOf("scap", s.V) + ")"})
	}
	// nothing to add
	if more != nil {
		s0 := st.clone()
		s0.assume(eq(add, "0"))
		if !s0.dead {
			k(s0, s)
		}
		st.assume(cmpT("<", "0", add))
	}
	// fresh array
	st.assume(not(fits))
	if st.dead {
		return
	}
	ref := x.alloc(st)
	cp := x.fresh("cap", "Int")
	st.assume(cmpT("<=", nl, cp))
	st.assume("(<= " + cp + " 72057594037927936)")
	a := x.hget(st, nm, hs)
	oldA := x.fresh("ca", hs)
	st.assume("(= " + oldA + " (select " + a + " " + selOf("sarr", s.V) + "))")
	base := x.fresh("ca", hs)
	st.assume("(forall ((j! Int)) (! (=> (and (<= 0 j!) (< j! " + ln + ")) (= (select " + base + " j!) (select " + oldA + " (ix " + off + " j!)))) :pattern ((select " + base + " j!))))")
	nw := fill(st, base, "0", true)
	// prophetic content of the fresh array
	st.assume("(= (select " + a + " " + ref + ") " + nw + ")")
	k(st, SV{T: s.T, S: "Slice", V: "(mkSlice " + ref + " 0 " + nl + " " + cp + ")"})
}

// model: built-in models of a few library functions. Returns false when there is none.
func (x *Ctx) model(fr *Frame, n ast.Node, fn *types.Func, key string, recv *SV, args []SV, st *State, k KR) bool {
	if fn.Pkg() == nil {
		if key == ".error.Error" || fn.Name() == "Error" {
			k(st, []SV{x.freshSV(st, "errstr", types.Typ[types.String])})
			return true
		}
		return false
	}
	switch fn.Pkg().Path() {
	case "fmt", "errors":
		switch fn.Name() {
		case "Errorf", "New":
			r := x.freshSV(st, "err", fn.Type().(*types.Signature).Results().At(0).Type())
			st.assume(not(eq(r.V, "vnil")))
			k(st, []SV{r})
			return true
		case "Sprintf", "Sprint":
			k(st, []SV{x.freshSV(st, "str", types.Typ[types.String])})
			return true
		}
	case "math":
		switch fn.Name() {
		case "IsNaN":
			k(st, []SV{{T: types.Typ[types.Bool], S: "Bool", V: "(fp.isNaN " + args[0].V + ")"}})
			return true
		}
	case "sync":
		k(st, nil)
		return true
	}
	return false
}

// allocFact: the assumption only says that values returned by callees are allocated; such facts are not conditions.
func allocFact(c string) bool {
	for strings.HasPrefix(c, "(=> ") {
		as := splitTop(c)
		if len(as) != 3 {
			return false
		}
		c = as[2]
	}
	if strings.HasPrefix(c, "(or ") && strings.HasSuffix(c, " vnil) false)") {
		return true // typing of a value returned by a callee
	}
	return strings.HasPrefix(c, "(>= alloc!") || strings.HasPrefix(c, "(valok ") || strings.HasPrefix(c, "(sliceok ")
}

// concerns tells whether a contract is for every function or for a property of the function being verified
func (x *Ctx) concerns(c *Contract) bool {
	for _, p := range c.Props {
		if x.props[p] {
			return true
		}
	}
	return len(c.Props) == 0
}
