package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// SV is a symbolic value: a scalar SMT term, a struct (flattened fields) or a closure.
type SV struct {
	T   types.Type
	S   string // SMT sort; "struct", "clo", "tuple", "" (void)
	V   string
	F   map[string]SV // struct fields by name
	Clo *Closure
	Tup []SV
	Fn  func(SV) SV // a function of the contract language (sort "specfn")
}

type Closure struct {
	lit  *ast.FuncLit
	fr   *Frame
	fn   *types.Func // bound method or function value
	recv *SV
	name string // SMT constant standing for the closure (declared lazily)
}

const F64 = "F64"

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func sortOf(t types.Type) string {
	if s, ok := pseudoSort(t); ok {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsFloat != 0:
			return F64
		case i&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "nil"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Val"
	case *types.Slice:
		return "Slice"
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return "Int" // opaque external struct
		}
		return "struct"
	case *types.Tuple:
		return "tuple"
	case *types.Array:
		return "Int" // opaque
	}
	panic(unsup("sort of type %s", t))
}

type unsupErr struct{ msg string }

func unsup(f string, a ...interface{}) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }

var two = big.NewInt(2)

func pow2(n int) *big.Int { return new(big.Int).Exp(two, big.NewInt(int64(n)), nil) }

func intBits(t types.Type) (bits int, signed bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int, types.Int64:
		return 64, true
	case types.Int32:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 0, true // untyped
}

func intRange(t types.Type) (lo, hi *big.Int) {
	if _, ok := t.Underlying().(*types.Basic); !ok {
		return nil, nil
	}
	b, s := intBits(t)
	if b == 0 {
		return nil, nil
	}
	if s {
		h := pow2(b - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(b), big.NewInt(1))
}

func num(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

// constructor of Val for a dynamic type t
func valCons(t types.Type) (cons, tagsel, paysel string) {
	switch sortOf(t) {
	case "Int":
		switch t.Underlying().(type) {
		case *types.Basic:
			return "vint", "itag", "ival"
		case *types.Struct, *types.Array:
			return "vopq", "otag", "oid"
		}
		return "vref", "rtag", "rref"
	case "Bool":
		return "vbool", "btag", "bval"
	case "Str":
		return "vstr", "stag", "sval"
	case F64:
		return "vflt", "ftag", "fval"
	case "Slice":
		return "vslc", "ltag", "lval"
	case "struct":
		return "vopq", "otag", "oid"
	}
	panic(unsup("interface holding %s", t))
}

func sanitize(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("p.")
		case c == '[':
			b.WriteString("s.")
		case c == ']':
		default:
			b.WriteByte('.')
		}
	}
	return b.String()
}

func (pr *Prog) tagName(t types.Type) string {
	n := pr.tagOf(t)
	_ = n
	return "T!" + sanitize(typeStr(t))
}

const prelude = `(declare-sort Str 0)
(declare-sort World 0)
(declare-sort Fn 0)
(define-sort F64 () (_ FloatingPoint 11 53))
(declare-datatypes ((Slice 0)) (((mkSlice (sarr Int) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Val 0)) (((vnil) (vref (rtag Int) (rref Int)) (vint (itag Int) (ival Int)) (vstr (stag Int) (sval Str)) (vbool (btag Int) (bval Bool)) (vflt (ftag Int) (fval F64)) (vslc (ltag Int) (lval Slice)) (vopq (otag Int) (oid Int)))))
(define-fun tagv ((v Val)) Int (ite ((_ is vref) v) (rtag v) (ite ((_ is vint) v) (itag v) (ite ((_ is vstr) v) (stag v) (ite ((_ is vbool) v) (btag v) (ite ((_ is vflt) v) (ftag v) (ite ((_ is vslc) v) (ltag v) (ite ((_ is vopq) v) (otag v) 0))))))))
(define-fun valeq ((a Val) (b Val)) Bool (ite (and ((_ is vflt) a) ((_ is vflt) b)) (and (= (ftag a) (ftag b)) (fp.eq (fval a) (fval b))) (= a b)))
(define-fun valok ((v Val) (top Int)) Bool (and (=> ((_ is vref) v) (and (< 0 (rref v)) (<= (rref v) top))) (=> ((_ is vslc) v) (and (<= 0 (sarr (lval v))) (<= (sarr (lval v)) top) (<= 0 (soff (lval v))) (<= 0 (slen (lval v))) (<= (slen (lval v)) (scap (lval v))) (<= (scap (lval v)) 72057594037927936) (=> (= (sarr (lval v)) 0) (= (scap (lval v)) 0))))))
(define-fun valalloc ((v Val) (top Int)) Bool (and (=> ((_ is vref) v) (<= (rref v) top)) (=> ((_ is vslc) v) (<= (sarr (lval v)) top))))
(define-fun sliceok ((s Slice) (top Int)) Bool (and (<= 0 (sarr s)) (<= (sarr s) top) (<= 0 (soff s)) (<= 0 (slen s)) (<= (slen s) (scap s)) (<= (scap s) 72057594037927936) (=> (= (sarr s) 0) (= (scap s) 0))))
(declare-fun unf (Val) Bool)
(declare-fun ix (Int Int) Int)
(declare-fun strlen (Str) Int)
(declare-fun strat (Str Int) Int)
(declare-fun strlt (Str Str) Bool)
(declare-fun strcat (Str Str) Str)
(declare-fun strsub (Str Int Int) Str)
(declare-fun i2f (Int) F64)
(declare-fun f2i (F64) Int)
(declare-fun f2f32 (F64) F64)
(declare-fun bvandI (Int Int) Int)
(declare-fun bvorI (Int Int) Int)
(declare-fun bvxorI (Int Int) Int)
(declare-fun wadd (Int Int) Int)
(declare-fun wsub (Int Int) Int)
(declare-fun wmul (Int Int) Int)
(define-fun godiv ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))
(define-fun gomod ((a Int) (b Int)) Int (- a (* b (godiv a b))))
`

// axioms of the prelude, included when the symbol occurs
var preludeAxioms = []struct{ sym, ax string }{
	{"ix", "(assert (forall ((a Int) (b Int)) (! (= (ix a b) (+ a b)) :pattern ((ix a b)))))\n(assert (forall ((a Int) (b Int) (c Int)) (! (= (ix (ix a b) c) (ix a (+ b c))) :pattern ((ix (ix a b) c)))))"},
	{"strlen", "(assert (forall ((s Str)) (! (and (<= 0 (strlen s)) (<= (strlen s) 72057594037927936)) :pattern ((strlen s)))))"},
	{"strat", "(assert (forall ((s Str) (i Int)) (! (and (<= 0 (strat s i)) (<= (strat s i) 255)) :pattern ((strat s i)))))"},
	{"strlt", "(assert (forall ((a Str)) (! (not (strlt a a)) :pattern ((strlt a a)))))\n(assert (forall ((a Str) (b Str)) (! (or (strlt a b) (strlt b a) (= a b)) :pattern ((strlt a b)))))\n(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c)))))\n(assert (forall ((a Str) (b Str)) (! (=> (strlt a b) (not (strlt b a))) :pattern ((strlt a b)))))"},
	{"strcat", "(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))"},
	{"strsub", "(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (strlen s))) (= (strlen (strsub s a b)) (- b a))) :pattern ((strsub s a b)))))\n(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (strlen s)) (<= 0 i) (< i (- b a))) (= (strat (strsub s a b) i) (strat s (+ a i)))) :pattern ((strat (strsub s a b) i)))))"},
	{"bvandI", "(assert (forall ((a Int) (b Int)) (! (and (=> (>= a 0) (and (<= 0 (bvandI a b)) (<= (bvandI a b) a))) (=> (>= b 0) (and (<= 0 (bvandI a b)) (<= (bvandI a b) b)))) :pattern ((bvandI a b)))))"},
	{"bvorI", "(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= a 9223372036854775807) (<= 0 b) (<= b 9223372036854775807)) (and (<= a (bvorI a b)) (<= b (bvorI a b)) (<= (bvorI a b) 9223372036854775807))) :pattern ((bvorI a b)))))"},
	{"wadd", "(assert (forall ((a Int) (b Int)) (! (= (wadd a b) (wadd b a)) :pattern ((wadd a b)))))"},
	{"wmul", "(assert (forall ((a Int) (b Int)) (! (= (wmul a b) (wmul b a)) :pattern ((wmul a b)))))"},
	{"wadd", "(assert (forall ((a Int) (b Int)) (! (and (<= (- 9223372036854775808) (wadd a b)) (<= (wadd a b) 9223372036854775807)) :pattern ((wadd a b)))))"},
	{"wsub", "(assert (forall ((a Int) (b Int)) (! (and (<= (- 9223372036854775808) (wsub a b)) (<= (wsub a b) 9223372036854775807)) :pattern ((wsub a b)))))"},
	{"wmul", "(assert (forall ((a Int) (b Int)) (! (and (<= (- 9223372036854775808) (wmul a b)) (<= (wmul a b) 9223372036854775807)) :pattern ((wmul a b)))))"},
	{"bvxorI", "(assert (forall ((a Int) (b Int)) (! (and (<= (- 9223372036854775808) (bvxorI a b)) (<= (bvxorI a b) 9223372036854775807)) :pattern ((bvxorI a b)))))"},
	{"f2i", "(assert (forall ((f F64)) (! (and (<= (- 9223372036854775808) (f2i f)) (<= (f2i f) 9223372036854775807)) :pattern ((f2i f)))))"},
	{"i2f", "(assert (forall ((a Int)) (! (and (not (fp.isNaN (i2f a))) (not (fp.isInfinite (i2f a)))) :pattern ((i2f a)))))"},
}

type pathNode struct {
	up *pathNode
	s  string
	n  int
}

type varKey struct {
	fr  int
	obj types.Object
}

type State struct {
	vars  map[varKey]SV
	heap  map[string]string // heap array name -> current term
	root  string            // root world term
	path  *pathNode
	set   map[string]bool // asserted literals, for trivial contradiction detection (shared copy on write)
	alloc string
	dead  bool
	world string // world constant for the current heap ("" when dirty)
	wmods bool
	ghost map[string]SV
}

func (st *State) clone() *State {
	c := *st
	c.vars = make(map[varKey]SV, len(st.vars))
	for k, v := range st.vars {
		c.vars[k] = v
	}
	c.heap = make(map[string]string, len(st.heap))
	for k, v := range st.heap {
		c.heap[k] = v
	}
	c.set = make(map[string]bool, len(st.set))
	for k := range st.set {
		c.set[k] = true
	}
	c.ghost = make(map[string]SV, len(st.ghost))
	for k, v := range st.ghost {
		c.ghost[k] = v
	}
	return &c
}

func (st *State) assume(s string) {
	if s == "true" || st.dead {
		return
	}
	if s == "false" {
		st.dead = true
		return
	}
	// split conjunctions
	if strings.HasPrefix(s, "(and ") {
		parts := splitTop(s)
		for _, p := range parts[1:] {
			st.assume(p)
		}
		return
	}
	if st.set[s] {
		return
	}
	if st.set[not(s)] {
		st.dead = true
		return
	}
	st.set[s] = true
	n := 1
	if st.path != nil {
		n = st.path.n + 1
	}
	st.path = &pathNode{st.path, s, n}
}

func (st *State) pathList() []string {
	if st.path == nil {
		return nil
	}
	r := make([]string, st.path.n)
	for p := st.path; p != nil; p = p.up {
		r[p.n-1] = p.s
	}
	return r
}

// splitTop splits an s-expression list into its elements.
func splitTop(s string) []string {
	if len(s) < 2 || s[0] != '(' {
		return []string{s}
	}
	s = s[1 : len(s)-1]
	var out []string
	d := 0
	st := -1
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			if d == 0 && st < 0 {
				st = i
			}
			d++
		case ')':
			d--
		case ' ', '\n':
			if d == 0 && st >= 0 {
				out = append(out, s[st:i])
				st = -1
			}
			continue
		default:
			if st < 0 {
				st = i
			}
		}
	}
	if st >= 0 {
		out = append(out, s[st:])
	}
	return out
}

func not(s string) string {
	switch s {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(s, "(not ") {
		return s[5 : len(s)-1]
	}
	return "(not " + s + ")"
}
func and(xs ...string) string {
	var r []string
	for _, x := range xs {
		if x == "true" {
			continue
		}
		if x == "false" {
			return "false"
		}
		r = append(r, x)
	}
	if len(r) == 0 {
		return "true"
	}
	if len(r) == 1 {
		return r[0]
	}
	return "(and " + strings.Join(r, " ") + ")"
}
func or(xs ...string) string {
	var r []string
	for _, x := range xs {
		if x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		r = append(r, x)
	}
	if len(r) == 0 {
		return "false"
	}
	if len(r) == 1 {
		return r[0]
	}
	return "(or " + strings.Join(r, " ") + ")"
}
func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	if b == "false" {
		return not(a)
	}
	return "(=> " + a + " " + b + ")"
}
func isNum(s string) bool {
	if s == "" {
		return false
	}
	if strings.HasPrefix(s, "(- ") && isNum(s[3:len(s)-1]) {
		return true
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}
func toBig(s string) *big.Int {
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = s[3 : len(s)-1]
	}
	b, _ := new(big.Int).SetString(s, 10)
	if neg {
		b.Neg(b)
	}
	return b
}
func eq(a, b string) string {
	if a == b {
		return "true"
	}
	if isNum(a) && isNum(b) {
		return fmt.Sprint(toBig(a).Cmp(toBig(b)) == 0)
	}
	if a == "true" {
		return b
	}
	if b == "true" {
		return a
	}
	if a == "false" {
		return not(b)
	}
	if b == "false" {
		return not(a)
	}
	if a > b {
		a, b = b, a
	}
	return "(= " + a + " " + b + ")"
}
func cmpT(op, a, b string) string {
	if isNum(a) && isNum(b) {
		c := toBig(a).Cmp(toBig(b))
		switch op {
		case "<":
			return fmt.Sprint(c < 0)
		case "<=":
			return fmt.Sprint(c <= 0)
		case ">":
			return fmt.Sprint(c > 0)
		case ">=":
			return fmt.Sprint(c >= 0)
		}
	}
	switch op {
	case ">":
		return cmpT("<", b, a)
	case ">=":
		return cmpT("<=", b, a)
	}
	if a == b {
		return fmt.Sprint(op == "<=")
	}
	return "(" + op + " " + a + " " + b + ")"
}

// ix is the position of element i of a slice with offset off. It is a symbol of its own (with an axiom that makes it
// the sum) so that quantifier triggers match whatever the form of i.
func ix(off, i string) string { return "(ix " + off + " " + i + ")" }

func subOff(off, lo string) string {
	if lo == "0" {
		return off
	}
	return ix(off, lo)
}

func arith(op, a, b string) string {
	if isNum(a) && isNum(b) {
		r := new(big.Int)
		switch op {
		case "+":
			return num(r.Add(toBig(a), toBig(b)))
		case "-":
			return num(r.Sub(toBig(a), toBig(b)))
		case "*":
			return num(r.Mul(toBig(a), toBig(b)))
		}
	}
	if op == "+" && a == "0" {
		return b
	}
	if (op == "+" || op == "-") && b == "0" {
		return a
	}
	if op == "*" && a == "1" {
		return b
	}
	if op == "*" && b == "1" {
		return a
	}
	return "(" + op + " " + a + " " + b + ")"
}

// recons simplifies (sel (cons a b c)) forms.
func selOf(sel, t string) string {
	var cons string
	var idx int
	switch sel {
	case "sarr", "soff", "slen", "scap":
		cons = "mkSlice"
		idx = map[string]int{"sarr": 1, "soff": 2, "slen": 3, "scap": 4}[sel]
	case "rtag", "rref":
		cons = "vref"
	case "itag", "ival":
		cons = "vint"
	case "stag", "sval":
		cons = "vstr"
	case "btag", "bval":
		cons = "vbool"
	case "ftag", "fval":
		cons = "vflt"
	case "ltag", "lval":
		cons = "vslc"
	case "otag", "oid":
		cons = "vopq"
	}
	if idx == 0 {
		idx = 1
		if !strings.HasSuffix(sel, "tag") {
			idx = 2
		}
	}
	if strings.HasPrefix(t, "("+cons+" ") {
		return splitTop(t)[idx]
	}
	return "(" + sel + " " + t + ")"
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// typeStr names a type; byte and rune are the types they are aliases of.
func typeStr(t types.Type) string {
	s := types.TypeString(t, nil)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		switch u := t.(type) {
		case *types.Slice:
			return "[]" + typeStr(u.Elem())
		case *types.Pointer:
			return "*" + typeStr(u.Elem())
		}
		if s == "byte" {
			return "uint8"
		}
		if s == "rune" {
			return "int32"
		}
	}
	return s
}
