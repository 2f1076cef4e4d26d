package main

// Verification of one function against one contract.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"strings"
)

type Job struct {
	Key     string // the verified function (possibly T.M for an inherited interface contract)
	Fn      *types.Func
	Con     *Contract
	Via     *types.Func // interface method, when the contract is inherited
	Recv    types.Type  // dynamic receiver type for inherited contracts
	Idx     []int
	Props   map[string]bool
	obl     []*Oblig
	ctx     *Ctx
	err     string
	returns int
	entry   []string
	params  []string
	prep    string
	vac     *Oblig
	smoke   []*Oblig
}

func (j *Job) name() string {
	if j.Via != nil {
		return j.Key + "<:" + j.Con.Key
	}
	return j.Key
}

// tracksMade: T.$made is a set of objects that a function hands to the functions it calls, to which it adds the objects of
// type T that it makes. A function that lists all(T.$made) under modifies starts with the empty set and hands its set back;
// for the others the set is local, and may be any set at first.
func tracksMade(c *Contract) (tracks, resets bool) {
	for _, cl := range c.Clauses {
		if strings.Contains(cl.Src, ".$made") {
			tracks = true
			resets = resets || cl.Kind == "modifies"
		}
	}
	return
}

// frameCond: objects that existed on entry and may not be modified have their entry value in array f.
func (x *Ctx) frameCond(fr *Frame, st *State, f string) string {
	if strings.HasSuffix(f, ".$made") {
		return "true" // local to the function
	}
	top := fr.top
	old := x.hget(top.entry, f, x.fieldSort[f])
	cur := x.hget(st, f, x.fieldSort[f])
	if old == cur {
		return "true"
	}
	var ex []string
	for _, m := range top.mods {
		if m.field == f {
			if m.ref == "" {
				return "true"
			}
			ex = append(ex, not(eq("r!", m.ref)))
		}
	}
	return "(forall ((r! Int)) (! " + implies(and(append([]string{"(<= r! " + top.allocEntry + ")"}, ex...)...), "(= (select "+cur+" r!) (select "+old+" r!))") + " :pattern ((select " + cur + " r!))))"
}

func (x *Ctx) frameOblig(fr *Frame, st *State, n ast.Node, onpanic bool) {
	var names []string
	for f := range st.heap {
		names = append(names, f)
	}
	sortStrings(names)
	pos := ""
	if n != nil {
		pos = x.posOf(n)
	}
	saved := fr.top.mods
	if onpanic {
		fr.top.mods = nil
	}
	for _, f := range names {
		if strings.Contains(f, ".$") && fr.top.entry.heap[f] == "" && false {
			continue
		}
		c := x.frameCond(fr, st, f)
		nm := "frame:" + f
		if onpanic {
			nm = "onpanic.frame:" + f
		}
		x.oblige(st, fr, "frame", nm, c, pos, nil)
	}
	fr.top.mods = saved
}

func (x *Ctx) verifyJob(j *Job) {
	j.ctx = x
	defer func() {
		j.obl = x.obl
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				j.err = u.msg
				return
			}
			j.err = fmt.Sprintf("verifier failure: %v", r)
			if os.Getenv("GVC_TRACE") != "" {
				panic(r)
			}
		}
	}()
	fn := j.Fn
	sig := fn.Type().(*types.Signature)
	decl := x.pr.Decls[fn]
	if (decl == nil || decl.Body == nil) && !(len(j.Idx) > 1 && j.Recv != nil) {
		panic(unsup("no body for %s", j.Key))
	}
	x.prepare()
	x.wrap = j.Con.Wrap
	x.traced = j.Con.Traced
	x.fn = j.Key
	x.props = map[string]bool{}
	for _, p := range j.Con.Props {
		x.props[p] = true
	}
	if own := x.db.Contracts[funcKey(fn)]; own != nil {
		for _, p := range own.Props {
			x.props[p] = true
		}
	}
	x.decls["W0"] = "(declare-fun W0 () World)"
	st := &State{vars: map[varKey]SV{}, heap: map[string]string{}, root: "W0", set: map[string]bool{}, alloc: "alloc0", ghost: map[string]SV{}}
	st.assume("(<= 0 alloc0)")
	top := &Top{key: j.name(), allocEntry: "alloc0"}
	pkg := x.pr.DPkg[fn]
	if pkg == nil {
		pkg = x.pr.pkgByName(pkgOf(j.Key))
	}
	// receiver
	var recv *SV
	var dynRecv *SV
	if sig.Recv() != nil {
		rt := sig.Recv().Type()
		if j.Recv != nil {
			rt = j.Recv
		}
		v := x.freshSV(st, "self", rt)
		if v.S == "Int" {
			if _, ok := rt.Underlying().(*types.Pointer); ok {
				st.assume("(< 0 " + v.V + ")")
				x.assumeInv(st, v)
			}
		}
		if v.S != "struct" {
			st.assume("(unf " + x.toVal(st, v) + ")")
		}
		dynRecv = &v
		rv := v
		recv = &rv
		j.params = append(j.params, v.V)
	}
	var args []SV
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		v := x.freshSV(st, "arg."+p.Name(), p.Type())
		if v.S == "Int" {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				pt := v
				for _, cl := range []string{""} {
					_ = cl
					s2 := x.invOf(st, pt)
					if s2 != "true" {
						st.assume(implies(not(eq(pt.V, "0")), s2))
					}
				}
			}
		}
		if v.S != "struct" {
			j.params = append(j.params, v.V)
		}
		args = append(args, v)
	}
	x.made = nil
	if tracks, resets := tracksMade(j.Con); tracks {
		x.made = map[string]bool{}
		for g := range x.db.Ghosts {
			if strings.HasSuffix(g, ".$made") {
				x.made["H!"+g] = true
				if a := x.hget(st, "H!"+g, "Bool"); resets {
					st.assume("(= " + a + " ((as const (Array Int Bool)) false))")
				}
			}
		}
	}
	b := &boundC{c: j.Con, fn: fn}
	if j.Via != nil {
		b = &boundC{c: j.Con, fn: j.Via, iface: true}
	}
	env := x.bindEnv(st, b, dynRecv, args)
	cpkg := pkgOf(j.Con.Key)
	for _, cl := range j.Con.Clauses {
		if cl.Kind == "requires" {
			st.assume(x.evalSpecIn(st, cpkg, env, cl.E, nil).V)
		}
	}
	if st.dead {
		j.err = "precondition is contradictory"
		return
	}
	top.env = env
	top.self = recv
	entry := st.clone()
	top.entry = entry
	for _, cl := range j.Con.Clauses {
		switch cl.Kind {
		case "modifies":
			for _, m := range cl.Es {
				top.mods = append(top.mods, x.modTargets(entry, cpkg, env, m)...)
			}
		case "panics", "maypanic":
			if cl.E == nil {
				top.mayAny = true
				continue
			}
			c := x.evalSpecIn(entry, cpkg, env, cl.E, nil).V
			if cl.Kind == "panics" {
				top.mustpanic = append(top.mustpanic, c)
			} else {
				top.maypanic = append(top.maypanic, c)
			}
		case "onpanic":
			top.onpanic = true
			if cl.E != nil {
				top.panicWhen = x.evalSpecIn(entry, cpkg, env, cl.E, nil).V
			}
		}
	}
	for _, u := range j.Con.Unfold {
		v := x.evalSpecIn(entry, cpkg, env, u, nil)
		st.assume("(unf " + x.toVal(st, v) + ")")
	}
	for _, h := range j.Con.Hints {
		v := x.evalSpecIn(entry, cpkg, env, h.E, nil)
		x.hint(st, v)
	}
	j.entry = st.pathList()
	// the body
	x.nfresh++
	own := x.db.Contracts[funcKey(fn)]
	con := j.Con
	if own != nil {
		con = own
	}
	if decl == nil || decl.Body == nil {
		// promoted from an embedded interface: the body is a call of the embedded value's method
		fr := &Frame{id: x.nfresh, pkg: pkg, fn: fn, sig: sig, con: con, top: top}
		r := x.fieldPath(fr, st, nil, *recv, j.Idx[:len(j.Idx)-1])
		x.callFunc(fr, nil, fn, &r, args, st, func(st *State, rs []SV) {
			j.returns++
			x.atReturn(fr, j, b, dynRecv, args, st, rs, cpkg)
		})
		return
	}
	fr := &Frame{id: x.nfresh, pkg: pkg, fn: fn, sig: sig, loops: x.loopOrdinals(pkg, decl.Body), con: con, top: top, chain: []*types.Func{fn}}
	var rid *ast.Ident
	if decl.Recv != nil && len(decl.Recv.List) > 0 && len(decl.Recv.List[0].Names) > 0 {
		rid = decl.Recv.List[0].Names[0]
	}
	if recv != nil && len(j.Idx) > 1 {
		r := x.methodRecv(fr, st, decl, *recv, j.Idx[:len(j.Idx)-1], fn)
		recv = &r
	}
	if recv != nil && recv.T != nil {
		want := sig.Recv().Type()
		_, wp := want.(*types.Pointer)
		hp, ip := recv.T.Underlying().(*types.Pointer)
		if !wp && ip {
			r := x.loadDeref(st, recv.V, hp.Elem())
			recv = &r
		}
	}
	x.enter(fr, sig, decl.Type.Params, decl.Type.Results, decl.Body, rid, recv, args, st, func(st *State, rs []SV) {
		j.returns++
		x.atReturn(fr, j, b, dynRecv, args, st, rs, cpkg)
	})
}

func (x *Ctx) hint(st *State, v SV) {
	// mention the term so that triggers can fire
	if v.T != nil && v.S != "struct" {
		x.wf(st, v)
	}
	switch v.S {
	case "Bool":
		x.declFun("hintB", []string{"Bool"}, "Bool")
		st.assume("(or (hintB " + v.V + ") true)")
	case "Val":
		st.assume("(unf " + v.V + ")")
	default:
		n := x.fresh("hint", v.S)
		st.assume(eq(n, v.V))
	}
}

func (x *Ctx) invOf(st *State, v SV) string {
	p, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		return "true"
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "true"
	}
	var cs []string
	for _, iv := range x.db.Invs["*"+n.Obj().Name()] {
		cs = append(cs, x.evalSpecIn(st, n.Obj().Pkg().Name(), map[string]SV{"self": v}, iv.Body, nil).V)
	}
	return and(cs...)
}

func (x *Ctx) atReturn(fr *Frame, j *Job, b *boundC, recv *SV, args []SV, st *State, rs []SV, cpkg string) {
	if st.dead {
		return
	}
	top := fr.top
	sig := b.fn.Type().(*types.Signature)
	pos := ""
	if d := x.pr.Decls[j.Fn]; d != nil {
		pos = x.posOf(d)
	}
	for i := range rs {
		if rs[i].S == "clo" {
			rs[i] = SV{T: rs[i].T, S: "Int", V: x.cloValue(fr, st, rs[i])}
		}
		rs[i] = x.coerce(st, rs[i], sig.Results().At(i).Type())
	}
	if smokeTest {
		j.smoke = append(j.smoke, &Oblig{Name: j.name() + "/smoke", Path: st.pathList(), Goal: "false"})
	}
	env := map[string]SV{}
	for k, v := range top.env {
		env[k] = v
	}
	bindResults(env, sig, rs)
	// ghost updates
	for _, cl := range b.c.Clauses {
		if cl.Kind == "ghost" {
			x.ghostAssign(fr.top.entry, st, cpkg, env, cl)
		}
	}
	// results of reference kind are visible to the solver's definitional cases
	for _, r := range rs {
		if r.S == "Val" && r.V != "vnil" {
			if d := x.staticDyn(r.V); d != nil {
				st.assume("(unf " + r.V + ")")
			}
		}
	}
	for _, c := range top.mustpanic {
		x.oblige(st, fr, "must-panic", "returns normally only if it must not panic", not(c), pos, nil)
	}
	ne := 0
	for _, cl := range b.c.Clauses {
		switch cl.Kind {
		case "ensures":
			ne++
			nm := fmt.Sprintf("ensures#%d", ne)
			if cl.Label != "" {
				nm = "ensures:" + cl.Label
			}
			v := x.evalSpecIn(st, cpkg, env, cl.E, top.entry)
			x.obligeSplit(st, fr, "postcondition", nm, v.V, pos, cl.Props)
		case "returns":
			v := x.evalSpecIn(st, cpkg, env, cl.E, top.entry)
			v = x.coerceSpec(st, v, rs[0].T)
			nm := "returns"
			if cl.Label != "" {
				nm = "returns:" + cl.Label
			}
			x.obligeSplit(st, fr, "postcondition", nm, eq(v.V, rs[0].V), pos, cl.Props)
		}
	}
	if b.c.Pure {
		for _, r := range rs {
			switch r.S {
			case "Val":
				x.oblige(st, fr, "frame", "pure: result not fresh", "(valalloc "+r.V+" alloc0)", pos, nil)
			case "Slice":
				x.oblige(st, fr, "frame", "pure: result not fresh", "(<= "+selOf("sarr", r.V)+" alloc0)", pos, nil)
			case "Int":
				if _, ok := r.T.Underlying().(*types.Pointer); ok {
					x.oblige(st, fr, "frame", "pure: result not fresh", "(<= "+r.V+" alloc0)", pos, nil)
				}
			}
		}
	}
	if d := x.pr.Decls[j.Fn]; d != nil {
		x.frameOblig(fr, st, d, false)
	} else {
		x.frameOblig(fr, st, nil, false)
	}
}

func (x *Ctx) coerceSpec(st *State, v SV, t types.Type) SV {
	if v.S == "nil" {
		return x.zero(t)
	}
	if isIface(t) && v.S != "Val" {
		return SV{T: t, S: "Val", V: x.toVal(st, v)}
	}
	return v
}

func (x *Ctx) obligeSplit(st *State, fr *Frame, kind, name, goal, pos string, props []string) {
	gs := splitGoal(goal)
	if len(gs) == 1 {
		x.oblige(st, fr, kind, name, gs[0], pos, props)
		return
	}
	for i, g := range gs {
		x.oblige(st, fr, kind, fmt.Sprintf("%s.%d", name, i+1), g, pos, props)
	}
}

func splitGoal(g string) []string {
	if strings.HasPrefix(g, "(and ") {
		var out []string
		for _, p := range splitTop(g)[1:] {
			out = append(out, splitGoal(p)...)
		}
		return out
	}
	if strings.HasPrefix(g, "(=> ") {
		p := splitTop(g)
		if len(p) == 3 {
			sub := splitGoal(p[2])
			if len(sub) > 1 {
				var out []string
				for _, s := range sub {
					out = append(out, implies(p[1], s))
				}
				return out
			}
		}
	}
	return []string{g}
}

// ghostAssign performs  lhs := rhs  on a ghost field at function exit.
func (x *Ctx) ghostAssign(old, st *State, pkg string, env map[string]SV, cl *Clause) {
	lhs, rhs := cl.E, cl.Es[0]
	c := &sctx{x: x, st: st, old: old, pkg: pkg, env: env}
	base := c.ev(lhs.A[0])
	v := c.ev(rhs)
	g, ok := x.ghostField(base.T, lhs.S)
	if !ok {
		panic(unsup("no ghost field %s", lhs.S))
	}
	s := srt(g.t)
	a := x.hget(st, g.name, s)
	x.hset(st, g.name, s, "(store "+a+" "+refTerm(base)+" "+v.V+")", refTerm(base))
}
