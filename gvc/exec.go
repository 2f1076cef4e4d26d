package main

// Forward symbolic execution of the typed AST, in continuation-passing style. Loops are cut by invariants,
// calls by contracts; uncontracted helpers are executed in place.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Oblig struct {
	hyp   string
	Func  string
	Name  string // stable name
	Pos   string
	Path  []string
	Goal  string
	Props []string
	Kind  string
	res   *Result
	extra []string // additional hypotheses
}

type worldRec struct {
	name      string
	root      string
	heap      map[string]string
	prev      string
	allocOnly bool
	top       string // alloc at creation of prev
}

type Ctx struct {
	made          map[string]bool // the heaps of T.$made in use
	freshAppend   bool            // the next append goes to a slice of a recursion guard
	pr            *Prog
	db            *DB
	decls         map[string]string // symbol -> declaration
	obl           []*Oblig
	worlds        map[string]*worldRec
	narrowW       map[string]string
	specReads     map[string]map[string]bool
	nfresh        int
	strs          map[string]string
	noObl         int
	paths         int
	fn            string
	props         map[string]bool // the properties the function being verified is under contract for
	steps         int
	traced        bool
	notes         map[string]bool
	usedContracts map[string]bool
	inlined       map[string]bool
	worldFields   map[string]bool
	fieldSort     map[string]string
	modlog        []map[string][]string // stack of write logs: field -> targets
	tagUsed       map[string]bool
	caseText      map[string][]caseAx
	axText        []axiomText
	wrap          bool
	defs          map[string]string
	hasPanicked   bool
	fieldAx       map[string]string
	qmu           sync.Mutex
}

type Frame struct {
	id    int
	up    *Frame
	pkg   *Pkg
	fn    *types.Func
	sig   *types.Signature
	ret   func(*State, []SV)
	named []*types.Var
	loops *loopMap
	con   *Contract
	top   *Top
	depth int
	chain []*types.Func
	isLit bool
	moved bool // a new helper: annotated by the contract of the function that calls it
}

// Top is the function under verification.
type Top struct {
	key        string
	entry      *State
	env        map[string]SV
	self       *SV
	cons       []*boundCon
	results    []string
	allocEntry string
	mods       []modTarget
	mayAny     bool
	maypanic   []string // conditions (terms over entry) under which a panic is allowed
	mustpanic  []string
	onpanic    bool
	panicWhen  string // the condition, in the entry state, under which a panic must leave everything unchanged
	props      []string
	frameAll   map[string]bool
}

type modTarget struct {
	field string
	ref   string // "" = all
}

type boundCon struct {
	c   *Contract
	env map[string]SV
	via string
}

func newCtx(pr *Prog, db *DB) *Ctx {
	return &Ctx{pr: pr, db: db, decls: map[string]string{}, worlds: map[string]*worldRec{}, narrowW: map[string]string{}, specReads: map[string]map[string]bool{}, strs: map[string]string{}, notes: map[string]bool{},
		usedContracts: map[string]bool{}, inlined: map[string]bool{}, worldFields: map[string]bool{}, fieldSort: map[string]string{}, tagUsed: map[string]bool{}, caseText: map[string][]caseAx{}, defs: map[string]string{}, fieldAx: map[string]string{}}
}

func (x *Ctx) fresh(base, srt string) string {
	x.nfresh++
	n := fmt.Sprintf("%s!%d", base, x.nfresh)
	x.decls[n] = "(declare-fun " + n + " () " + srt + ")"
	return n
}

func (x *Ctx) declFun(n string, args []string, ret string) string {
	if _, ok := x.decls[n]; !ok {
		x.decls[n] = "(declare-fun " + n + " (" + strings.Join(args, " ") + ") " + ret + ")"
	}
	return n
}

func (x *Ctx) posOf(n ast.Node) string {
	if n == nil {
		return ""
	}
	p := x.pr.Fset.Position(n.Pos())
	f := p.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Ctx) oblige(st *State, fr *Frame, kind, name, goal string, pos string, props []string) {
	if st.dead || goal == "true" || x.noObl > 0 {
		return
	}
	if st.set[goal] {
		return
	}
	o := &Oblig{Func: fr.top.key, Name: fr.top.key + "/" + name, Kind: kind, Pos: pos, Path: st.pathList(), Goal: goal, Props: props}
	x.obl = append(x.obl, o)
}

// ---- heap

func (x *Ctx) hget(st *State, name, elemSort string) string {
	if t, ok := st.heap[name]; ok {
		return t
	}
	x.fieldSort[name] = elemSort
	x.declFun(name, []string{"World"}, "(Array Int "+elemSort+")")
	return "(" + name + " " + st.root + ")"
}

func (x *Ctx) hset(st *State, name, elemSort, val string, target string) {
	x.fieldSort[name] = elemSort
	x.declFun(name, []string{"World"}, "(Array Int "+elemSort+")")
	if len(val) > 40 {
		n := x.fresh("h", "(Array Int "+elemSort+")")
		st.assume("(= " + n + " " + val + ")")
		val = n
	}
	st.heap[name] = val
	st.world = ""
	if !freshTarget(target) {
		st.wmods = true
	}
	for _, l := range x.modlog {
		l[name] = append(l[name], target)
	}
}

// freshTarget: the written object was allocated during the call.
func freshTarget(t string) bool {
	return strings.HasPrefix(t, "new!")
}

func (x *Ctx) fieldName(v *types.Var) string {
	o, ok := x.pr.FieldOwner[v]
	if !ok {
		panic(unsup("field %s of external struct", v.Name()))
	}
	return o
}

func (x *Ctx) loadField(st *State, ref string, v *types.Var) SV {
	t := v.Type()
	s := sortOf(t)
	if s == "struct" {
		// embedded/nested struct
		return x.loadStruct(st, subAddr(ref, v), t)
	}
	n := x.fieldName(v)
	if x.pr.Const[v] {
		f := x.declFun("C!"+n, []string{"Int"}, s)
		if lo, hi := intRange(t); s == "Int" && lo != nil {
			x.fieldAx[f] = "(assert (forall ((r Int)) (! (and (<= " + num(lo) + " (" + f + " r)) (<= (" + f + " r) " + num(hi) + ")) :pattern ((" + f + " r)))))"
		}
		return SV{T: t, S: s, V: "(" + f + " " + ref + ")"}
	}
	a := x.hget(st, "H!"+n, s)
	return SV{T: t, S: s, V: x.simpSel(st, a, ref)}
}

// subAddr is the address of the struct-typed field f of the object at ref: the address of the object itself if the
// struct is embedded (at most one struct is embedded in each type of dgo), otherwise an address of its own.
func subAddr(ref string, f *types.Var) string {
	if f.Embedded() {
		return ref
	}
	return fmt.Sprintf("(- (+ (* 64 %s) %d))", ref, fieldOrd(f))
}

var fieldOrds = map[*types.Var]int{}

func fieldOrd(f *types.Var) int {
	n, ok := fieldOrds[f]
	if !ok {
		panic(unsup("address of field %s", f.Name()))
	}
	return n
}

func (x *Ctx) simpSel(st *State, a, ref string) string {
	return "(select " + a + " " + ref + ")"
}

func (x *Ctx) storeField(st *State, ref string, v *types.Var, val SV) {
	t := v.Type()
	s := sortOf(t)
	if s == "struct" {
		x.storeStruct(st, subAddr(ref, v), t, val)
		return
	}
	n := x.fieldName(v)
	if x.pr.Const[v] {
		f := x.declFun("C!"+n, []string{"Int"}, s)
		st.assume("(= (" + f + " " + ref + ") " + val.V + ")")
		return
	}
	a := x.hget(st, "H!"+n, s)
	x.hset(st, "H!"+n, s, "(store "+a+" "+ref+" "+val.V+")", ref)
}

// initField gives a field of a freshly allocated object its initial value (the heap is prophetic above the
// allocation mark, so this is an assumption and not a write).
func (x *Ctx) initField(st *State, ref string, v *types.Var, val SV) {
	t := v.Type()
	s := sortOf(t)
	if s == "struct" {
		stt := t.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			x.initField(st, subAddr(ref, v), f, x.structField(val, f))
		}
		return
	}
	n := x.fieldName(v)
	if x.pr.Const[v] && v.Name() == "ExactType" && val.V == "vnil" {
		return // set right after construction, see lateInit
	}
	if x.pr.Const[v] {
		f := x.declFun("C!"+n, []string{"Int"}, s)
		st.assume("(= (" + f + " " + ref + ") " + val.V + ")")
		return
	}
	a := x.hget(st, "H!"+n, s)
	st.assume("(= (select " + a + " " + ref + ") " + val.V + ")")
}

func (x *Ctx) structField(v SV, f *types.Var) SV {
	if v.S != "struct" {
		panic(unsup("field %s of non-struct", f.Name()))
	}
	r, ok := v.F[f.Name()]
	if !ok {
		return x.zero(f.Type())
	}
	return r
}

func (x *Ctx) loadStruct(st *State, ref string, t types.Type) SV {
	stt := t.Underlying().(*types.Struct)
	r := SV{T: t, S: "struct", F: map[string]SV{}}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		r.F[f.Name()] = x.loadField(st, ref, f)
	}
	return r
}

func (x *Ctx) storeStruct(st *State, ref string, t types.Type, v SV) {
	stt := t.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		x.storeField(st, ref, f, x.structField(v, f))
	}
}

func (x *Ctx) zero(t types.Type) SV {
	s := sortOf(t)
	switch s {
	case "Int":
		return SV{T: t, S: s, V: "0"}
	case "Bool":
		return SV{T: t, S: s, V: "false"}
	case "Str":
		return SV{T: t, S: s, V: x.strLit("")}
	case F64:
		return SV{T: t, S: s, V: "(_ +zero 11 53)"}
	case "Val":
		return SV{T: t, S: s, V: "vnil"}
	case "Slice":
		return SV{T: t, S: s, V: "(mkSlice 0 0 0 0)"}
	case "struct":
		r := SV{T: t, S: s, F: map[string]SV{}}
		stt := t.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			r.F[stt.Field(i).Name()] = x.zero(stt.Field(i).Type())
		}
		return r
	}
	panic(unsup("zero value of %s", t))
}

func (x *Ctx) strLit(s string) string {
	if n, ok := x.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("str!%d", len(x.strs))
	x.strs[s] = n
	x.decls[n] = "(declare-fun " + n + " () Str)"
	return n
}

// freshSV introduces an unknown value of Go type t, well-formed in st.
func (x *Ctx) freshSV(st *State, base string, t types.Type) SV {
	s := sortOf(t)
	if s == "struct" {
		r := SV{T: t, S: s, F: map[string]SV{}}
		stt := t.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			r.F[stt.Field(i).Name()] = x.freshSV(st, base+"."+stt.Field(i).Name(), stt.Field(i).Type())
		}
		return r
	}
	sv := SV{T: t, S: s, V: x.fresh(sanitize(base), s)}
	x.wf(st, sv)
	return sv
}

// wfEntry assumes that what an object that exists at entry refers to at entry exists at entry.
func (x *Ctx) wfEntry(st *State, ref string, f *types.Var) {
	if st.alloc == "alloc0" || st.root != "W0" || freshTarget(ref) {
		return
	}
	s := sortOf(f.Type())
	n := "H!" + x.fieldName(f)
	t := "(select (" + n + " W0) " + ref + ")"
	if x.pr.Const[f] {
		t = "(C!" + x.fieldName(f) + " " + ref + ")"
	}
	g := cmpT("<=", ref, "alloc0")
	switch s {
	case "Slice":
		st.assume(implies(g, "(sliceok "+t+" alloc0)"))
	case "Val":
		st.assume(implies(g, "(valok "+t+" alloc0)"))
	case "Int":
		if _, ok := f.Type().Underlying().(*types.Pointer); ok {
			st.assume(implies(g, cmpT("<=", t, "alloc0")))
		}
	}
}

// wf assumes the well-formedness of a value that exists in state st.
func (x *Ctx) wf(st *State, v SV) {
	switch v.S {
	case "Int":
		switch u := v.T.Underlying().(type) {
		case *types.Basic:
			lo, hi := intRange(v.T)
			if lo != nil && !isNum(v.V) {
				st.assume("(<= " + num(lo) + " " + v.V + ")")
				st.assume("(<= " + v.V + " " + num(hi) + ")")
			}
		case *types.Pointer:
			_ = u
			if !isNum(v.V) {
				st.assume("(<= 0 " + v.V + ")")
				st.assume("(<= " + v.V + " " + st.alloc + ")")
			}
		}
	case "Slice":
		if !strings.HasPrefix(v.V, "(mkSlice") {
			st.assume("(sliceok " + v.V + " " + st.alloc + ")")
		}
	case "Val":
		if v.V == "vnil" || strings.HasPrefix(v.V, "(vref") || strings.HasPrefix(v.V, "(vint") {
			return
		}
		st.assume("(valok " + v.V + " " + st.alloc + ")")
		if n, ok := v.T.(*types.Named); ok && v.T.Underlying().(*types.Interface).NumMethods() > 0 && n.Obj().Pkg() != nil {
			st.assume("(or " + x.implT(v.V, v.T) + " (= " + v.V + " vnil) false)") // the shape identifies a typing fact, see allocFact
		}
	case "struct":
		var ks []string
		for k := range v.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x.wf(st, v.F[k])
		}
	}
}

// implT: the dynamic type of v implements interface t
func (x *Ctx) implT(v string, t types.Type) string {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return not(eq(v, "vnil"))
	}
	n := "impl!" + sanitize(typeStr(t))
	if _, ok := x.decls[n]; !ok {
		groups := map[string][]string{}
		var impls []types.Type
		for _, c := range x.pr.Concrete {
			if types.Implements(c, it) && !x.skipDyn(c) {
				impls = append(impls, c)
			}
		}
		for _, c := range impls {
			cons, ts, _ := valCons(c)
			k := "((_ is " + cons + ") v) |(" + ts + " v)"
			tg := fmt.Sprint(x.pr.tagOf(c))
			if len(impls) <= 10 {
				tg = x.tag(c) // by name: makes what is known of the few implementors relevant
			}
			groups[k] = append(groups[k], tg)
		}
		var alts []string
		for _, k := range sortedStrKeys(groups) {
			i := strings.Index(k, "|")
			var ts []string
			for _, t := range groups[k] {
				ts = append(ts, "(= "+k[i+1:]+" "+t+")")
			}
			alts = append(alts, "(and "+strings.TrimSpace(k[:i])+" (or false "+strings.Join(ts, " ")+"))")
		}
		u := "uimpl!" + sanitize(typeStr(t))
		x.decls[u] = "(declare-fun " + u + " (Int) Bool)"
		tail := fmt.Sprintf(" (and (> (tagv v) %d) (", x.pr.NTags) + u + " (tagv v)))"
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && x.pr.DPkgName(n.Obj().Pkg().Path()) {
			// an interface of this repository
			x.notes["the interfaces declared by the repository are implemented by the repository's own types only"] = true
			tail = ""
		}
		x.decls[n] = "(define-fun " + n + " ((v Val)) Bool (or false " + strings.Join(alts, " ") + tail + "))"
	}
	// static decision
	if c := x.staticDyn(v); c != nil {
		return fmt.Sprint(types.Implements(c, it))
	}
	if v == "vnil" {
		return "false"
	}
	return "(" + n + " " + v + ")"
}

func sortedStrKeys(m map[string][]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (x *Ctx) skipDyn(t types.Type) bool {
	return x.db.Opaque[types.TypeString(t, func(p *types.Package) string { return "" })]
}

// staticDyn returns the dynamic type of a Val term when it is syntactically evident.
func (x *Ctx) staticDyn(v string) types.Type {
	for _, c := range []string{"(vref ", "(vint ", "(vstr ", "(vbool ", "(vflt ", "(vslc ", "(vopq "} {
		if strings.HasPrefix(v, c) {
			tg := splitTop(v)[1]
			if isNum(tg) {
				return x.pr.TagT[toBig(tg).Int64()-1]
			}
			for _, t := range x.pr.TagT {
				if tg == x.tag(t) {
					return t
				}
			}
		}
	}
	return nil
}

func (x *Ctx) tag(t types.Type) string {
	n := x.pr.tagName(t)
	x.decls[n] = fmt.Sprintf("(define-fun %s () Int %d)", n, x.pr.tagOf(t))
	return n
}

// isT: dynamic type of Val v is exactly t (or implements the interface t)
func (x *Ctx) isT(v string, t types.Type) string {
	if isIface(t) {
		return x.implT(v, t)
	}
	if v == "vnil" {
		return "false"
	}
	if c := x.staticDyn(v); c != nil {
		return fmt.Sprint(types.Identical(c, t))
	}
	cons, ts, _ := valCons(t)
	return "(and ((_ is " + cons + ") " + v + ") (= (" + ts + " " + v + ") " + x.tag(t) + "))"
}

// payload extracts the value of dynamic type t from Val v.
func (x *Ctx) payload(st *State, v string, t types.Type) SV {
	if isIface(t) {
		return SV{T: t, S: "Val", V: v}
	}
	_, _, ps := valCons(t)
	s := sortOf(t)
	if s == "struct" {
		// value structs in interfaces: fields are functions of the opaque identity
		id := selOf("oid", v)
		return x.opaqueStruct(id, t)
	}
	sv := SV{T: t, S: s, V: selOf(ps, v)}
	return sv
}

func (x *Ctx) opaqueStruct(id string, t types.Type) SV {
	stt := t.Underlying().(*types.Struct)
	r := SV{T: t, S: "struct", F: map[string]SV{}}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		s := sortOf(f.Type())
		if s == "struct" {
			r.F[f.Name()] = x.opaqueStruct(subAddr(id, f), f.Type())
			continue
		}
		fn := x.declFun("O!"+sanitize(x.fieldName(f)), []string{"Int"}, s)
		r.F[f.Name()] = SV{T: f.Type(), S: s, V: "(" + fn + " " + id + ")"}
	}
	return r
}

// toVal converts a value to interface sort.
func (x *Ctx) toVal(st *State, v SV) string {
	switch v.S {
	case "Val":
		return v.V
	case "nil":
		return "vnil"
	case "clo":
		c := x.cloName(st, v)
		return "(vref " + x.tag(v.T) + " " + c + ")"
	case "struct":
		id := x.fresh("oid", "Int")
		o := x.opaqueStruct(id, v.T)
		for k, f := range o.F {
			if f.S != "struct" {
				st.assume(eq(f.V, v.F[k].V))
			}
		}
		return "(vopq " + x.tag(v.T) + " " + id + ")"
	}
	cons, _, _ := valCons(v.T)
	return "(" + cons + " " + x.tag(v.T) + " " + v.V + ")"
}

func (x *Ctx) cloName(st *State, v SV) string {
	if v.Clo.name == "" {
		v.Clo.name = x.fresh("clo", "Int")
		st.assume("(< 0 " + v.Clo.name + ")")
	}
	return v.Clo.name
}

// coerce converts v (of its static type) to type t as by assignability.
func (x *Ctx) coerce(st *State, v SV, t types.Type) SV {
	if v.S == "tuple" {
		return v
	}
	if isIface(t) {
		return SV{T: t, S: "Val", V: x.toVal(st, v)}
	}
	if v.S == "nil" {
		return x.zero(t)
	}
	v.T = t
	return v
}

func (x *Ctx) nameIt(st *State, v SV) SV {
	if len(v.V) > 70 && v.S != "struct" && v.S != "clo" && v.S != "tuple" {
		if strings.HasPrefix(v.V, "(v") || strings.HasPrefix(v.V, "(mkSlice") {
			// keep constructors visible, name the components
			parts := splitTop(v.V)
			switch parts[0] {
			case "mkSlice", "vref", "vint", "vstr", "vbool", "vflt", "vslc", "vopq":
				sorts := map[string][]string{"mkSlice": {"Int", "Int", "Int", "Int"}, "vref": {"Int", "Int"}, "vint": {"Int", "Int"}, "vstr": {"Int", "Str"}, "vbool": {"Int", "Bool"}, "vflt": {"Int", F64}, "vslc": {"Int", "Slice"}, "vopq": {"Int", "Int"}}[parts[0]]
				for i := 1; i < len(parts); i++ {
					if len(parts[i]) > 50 {
						n := x.fresh("t", sorts[i-1])
						st.assume(eq(n, parts[i]))
						parts[i] = n
					}
				}
				v.V = "(" + strings.Join(parts, " ") + ")"
				return v
			}
		}
		n := x.fresh("t", v.S)
		st.assume(eq(n, v.V))
		x.defs[n] = v.V
		v.V = n
	}
	return v
}

// ---- variables

func (x *Ctx) lookupVar(fr *Frame, st *State, o types.Object) (varKey, bool) {
	for f := fr; f != nil; f = f.up {
		k := varKey{f.id, o}
		if _, ok := st.vars[k]; ok {
			return k, true
		}
	}
	return varKey{}, false
}

type boxT struct{ types.Type }

func (x *Ctx) declVar(fr *Frame, st *State, o types.Object, v SV) {
	if o == nil || o.Name() == "_" {
		return
	}
	v = x.nameIt(st, v)
	if x.pr.addrTaken[o] {
		ref := x.alloc(st)
		x.boxInit(st, ref, o.Type(), v)
		st.vars[varKey{fr.id, o}] = SV{T: types.NewPointer(o.Type()), S: "box", V: ref}
		return
	}
	st.vars[varKey{fr.id, o}] = v
}

func (x *Ctx) boxInit(st *State, ref string, t types.Type, v SV) {
	if v.S == "struct" {
		stt := t.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			x.initField(st, ref, stt.Field(i), x.structField(v, stt.Field(i)))
		}
		return
	}
	a := x.hget(st, "H!cell."+v.S, v.S)
	st.assume("(= (select " + a + " " + ref + ") " + v.V + ")")
}

func (x *Ctx) loadDeref(st *State, ref string, t types.Type) SV {
	s := sortOf(t)
	if s == "struct" {
		return x.loadStruct(st, ref, t)
	}
	a := x.hget(st, "H!cell."+s, s)
	return SV{T: t, S: s, V: "(select " + a + " " + ref + ")"}
}

func (x *Ctx) storeDeref(st *State, ref string, t types.Type, v SV) {
	s := sortOf(t)
	if s == "struct" {
		x.storeStruct(st, ref, t, v)
		return
	}
	a := x.hget(st, "H!cell."+s, s)
	x.hset(st, "H!cell."+s, s, "(store "+a+" "+ref+" "+v.V+")", ref)
}

func (x *Ctx) readVar(fr *Frame, st *State, o types.Object) SV {
	if k, ok := x.lookupVar(fr, st, o); ok {
		v := st.vars[k]
		if v.S == "box" {
			return x.loadDeref(st, v.V, o.Type())
		}
		return v
	}
	if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return x.global(st, v)
	}
	panic(unsup("variable %s not in scope", o.Name()))
}

func (x *Ctx) global(st *State, v *types.Var) SV {
	if x.pr.GlobalAssn[v] {
		x.notes["global "+v.Name()+" is reassigned somewhere; its value is treated as fixed during a call"] = true
	}
	s := sortOf(v.Type())
	if s == "struct" {
		r := SV{T: v.Type(), S: s, F: map[string]SV{}}
		stt := v.Type().Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			n := "G!" + v.Pkg().Name() + "." + v.Name() + "." + f.Name()
			x.decls[n] = "(declare-fun " + n + " () " + sortOf(f.Type()) + ")"
			r.F[f.Name()] = SV{T: f.Type(), S: sortOf(f.Type()), V: n}
		}
		return r
	}
	n := "G!" + v.Pkg().Name() + "." + v.Name()
	if _, ok := x.decls[n]; !ok {
		x.decls[n] = "(declare-fun " + n + " () " + s + ")"
	}
	sv := SV{T: v.Type(), S: s, V: n}
	switch s {
	case "Int":
		if _, ok := v.Type().Underlying().(*types.Pointer); ok {
			st.assume("(< 0 " + n + ")")
			st.assume("(<= " + n + " alloc0)")
			x.decls["alloc0"] = "(declare-fun alloc0 () Int)"
			// composite literal initialisers give the immutable fields
			if e, ok := x.pr.GlobalInit[v]; ok {
				x.globalFacts(st, v, n, e)
			}
		} else {
			x.wf(st, sv)
		}
	case "Val":
		st.assume("(valok " + n + " alloc0)")
		x.decls["alloc0"] = "(declare-fun alloc0 () Int)"
		if nt, ok := v.Type().(*types.Named); ok && nt.Underlying().(*types.Interface).NumMethods() > 0 {
			st.assume(x.implT(n, v.Type()))
		}
	}
	return sv
}

func (x *Ctx) globalFacts(st *State, v *types.Var, n string, e ast.Expr) {
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		return
	}
	cl, ok := u.X.(*ast.CompositeLit)
	if !ok {
		return
	}
	p := x.pr.Pkgs[v.Pkg().Path()]
	stt, ok := p.Info.TypeOf(cl).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i, el := range cl.Elts {
		var f *types.Var
		val := el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			for j := 0; j < stt.NumFields(); j++ {
				if stt.Field(j).Name() == kv.Key.(*ast.Ident).Name {
					f = stt.Field(j)
				}
			}
			val = kv.Value
		} else {
			f = stt.Field(i)
		}
		if f == nil || !x.pr.Const[f] {
			continue
		}
		if cv := p.Info.Types[val].Value; cv != nil {
			if ct := p.Info.TypeOf(val); isIface(f.Type()) && !isIface(ct) {
				x.initField(st, n, f, SV{T: f.Type(), S: "Val", V: x.toVal(st, x.constSV(cv, ct))})
				continue
			}
			c := x.constSV(cv, f.Type())
			x.initField(st, n, f, c)
		} else if f.Type().String() == "[]"+modPath+"/dgo.Value" {
			if ecl, ok := val.(*ast.CompositeLit); ok {
				l := x.loadField(st, n, f)
				st.assume(eq(fmt.Sprint(len(ecl.Elts)), selOf("slen", l.V)))
			}
		}
	}
	// zero value for missing const basic fields
	if len(cl.Elts) == 0 || func() bool { _, ok := cl.Elts[0].(*ast.KeyValueExpr); return ok }() {
		given := map[string]bool{}
		for _, el := range cl.Elts {
			given[el.(*ast.KeyValueExpr).Key.(*ast.Ident).Name] = true
		}
		for j := 0; j < stt.NumFields(); j++ {
			f := stt.Field(j)
			if b, ok := f.Type().Underlying().(*types.Basic); ok && !given[f.Name()] && x.pr.Const[f] && b.Info()&(types.IsBoolean|types.IsInteger) != 0 {
				x.initField(st, n, f, x.zero(f.Type()))
			}
		}
	}
}

func (x *Ctx) constSV(c constant.Value, t types.Type) SV {
	s := "Int"
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	if isIface(t) {
		panic(unsup("constant of interface type"))
	}
	s = sortOf(t)
	switch s {
	case "Bool":
		return SV{T: t, S: s, V: fmt.Sprint(constant.BoolVal(c))}
	case "Str":
		return SV{T: t, S: s, V: x.strLit(constant.StringVal(c))}
	case "Int":
		i := constant.ToInt(c)
		b, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			panic(unsup("constant %s", c))
		}
		return SV{T: t, S: s, V: num(b)}
	case F64:
		f, _ := constant.Float64Val(constant.ToFloat(c))
		return SV{T: t, S: s, V: floatLit(f)}
	}
	panic(unsup("constant of type %s", t))
}

func (x *Ctx) alloc(st *State) string {
	r := x.fresh("new", "Int")
	st.assume("(> " + r + " " + st.alloc + ")")
	st.assume("(> " + r + " 0)")
	st.alloc = r
	return r
}
