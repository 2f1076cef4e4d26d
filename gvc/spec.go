package main

// Contract language: lexer, parser, and the contract database.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Ex struct {
	Op   string // "id","int","str","call","sel","idx","slice","un","bin","forall","exists","old","is","as","ite","let"
	S    string
	A    []*Ex
	Vars []Param
	Trig [][]*Ex
	Ty   *TyEx
	Pos  string
}

type TyEx struct { // type expression
	S string // textual
}

type Param struct {
	Name string
	Ty   string
}

type Clause struct {
	Kind  string // requires ensures panics maypanic modifies returns onpanic
	Label string
	E     *Ex
	Es    []*Ex
	Pos   string
	Src   string
	Props []string
}

type LoopSpec struct {
	Inv []*Clause
}

type Contract struct {
	Key      string
	Pos      string
	Props    []string
	Trusted  bool
	Pure     bool // does not change the visible heap at all
	Traced   bool // applications of callbacks are recorded: ncalls(f), callarg(f, i)
	Wrap     bool // machine arithmetic wraps: results of arithmetic uninterpreted modulo 2^64
	Private  bool // applies to callers that have one of its properties only; it is inlined in others
	NoInline bool
	AllowNil bool
	Params   []string // optional explicit parameter names (extern/interface)
	Clauses  []*Clause
	Loops    map[int]*LoopSpec
	Hints    []*Clause
	Iface    bool
	Only     bool
	Ghost    []Param
	Unfold   []*Ex
	Fuel     int
	used     bool
}

type SpecFn struct {
	Name   string
	Params []Param
	Ret    string
	World  bool
	Narrow bool // a world function that depends on the fields its cases read only
	Body   *Ex  // for macros
	Macro  bool
	Unf    int // index of the parameter whose tag selects the case (-1: none)
	Pos    string
	Alloc  bool // frame: unaffected by allocation
	Wide   bool // all cases are relevant, not just those of the types that are mentioned
}

type CaseDef struct {
	Fn    string
	Vars  []string
	Ty    string
	Body  *Ex
	Pos   string
	Src   string
	Lemma bool
}

type Axiom struct {
	Name   string
	Vars   []Param
	Body   *Ex
	Lemma  bool
	Props  []string
	Induct string
	Pos    string
	Src    string
	By     []*Ex
	NoAuto bool
	Uses   []string
}

type InvDef struct {
	Ty   string
	Body *Ex
	Pos  string
	Src  string
}

type DB struct {
	Contracts map[string]*Contract
	Order     []string
	Specs     map[string]*SpecFn
	Cases     []*CaseDef
	Axioms    []*Axiom
	Invs      map[string][]*InvDef
	Assume    []PropText
	Prop      string // the property being decided
	Bounded   []PropText
	LateNames map[string]bool
	Opaque    map[string]bool
	Ghosts    map[string]string
	Skips     map[string]PropText
	Ghosted   bool
	Known     map[string][]string // the functions the contracts were written for, with their variables (name:type)
}

// ---- lexer
type tok struct {
	k string // id int str op eof
	s string
	l int
}

func lexSpec(src string, file string) ([]tok, error) {
	var ts []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", "<=", ">=", "==", "!=", "&&", "||", ":=", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], line})
			i = j
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] == '\'' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			ts = append(ts, tok{"str", src[i+1 : j], line})
			i = j + 1
		default:
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			ts = append(ts, tok{"op", m, line})
			i += len(m)
		}
	}
	ts = append(ts, tok{"eof", "", line})
	return ts, nil
}

type sp struct {
	ts   []tok
	i    int
	file string
}

type specErr struct{ msg string }

func (p *sp) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", p.file, p.ts[p.i].l, fmt.Sprintf(f, a...))})
}
func (p *sp) peek() tok { return p.ts[p.i] }
func (p *sp) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *sp) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *sp) isId(s string) bool {
	t := p.peek()
	return t.k == "id" && t.s == s
}
func (p *sp) accept(s string) bool {
	if t := p.peek(); (t.k == "op" || t.k == "id") && t.s == s {
		p.i++
		return true
	}
	return false
}
func (p *sp) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, got %q", s, p.peek().s)
	}
}
func (p *sp) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().l) }
func (p *sp) src(from int) string {
	var b strings.Builder
	for k := from; k < p.i; k++ {
		s := p.ts[k].s
		if p.ts[k].k == "str" {
			s = strconv.Quote(s)
		}
		if k > from && needSp(p.ts[k-1], p.ts[k]) {
			b.WriteByte(' ')
		}
		b.WriteString(s)
	}
	return b.String()
}
func needSp(a, b tok) bool {
	if a.k != "op" && b.k != "op" {
		return true
	}
	one := func(s string) bool {
		return s == "." || s == "(" || s == ")" || s == "[" || s == "]" || s == "," || s == "*" || s == "!"
	}
	if a.k == "op" && b.k == "op" {
		return !one(a.s) && !one(b.s)
	}
	if a.k == "op" {
		return !one(a.s) || a.s == ")" || a.s == "," || a.s == "]"
	}
	return !one(b.s)
}

// expression precedence: <==> < ==> < || < && < cmp < + - < * / % < unary < postfix
func (p *sp) expr() *Ex { return p.iff() }
func (p *sp) iff() *Ex {
	l := p.imp()
	for p.isOp("<==>") {
		p.next()
		r := p.imp()
		l = &Ex{Op: "bin", S: "<==>", A: []*Ex{l, r}}
	}
	return l
}
func (p *sp) imp() *Ex {
	l := p.or()
	if p.isOp("==>") {
		p.next()
		r := p.imp()
		return &Ex{Op: "bin", S: "==>", A: []*Ex{l, r}}
	}
	return l
}
func (p *sp) or() *Ex {
	l := p.and()
	for p.isOp("||") {
		p.next()
		l = &Ex{Op: "bin", S: "||", A: []*Ex{l, p.and()}}
	}
	return l
}
func (p *sp) and() *Ex {
	l := p.cmp()
	for p.isOp("&&") {
		p.next()
		l = &Ex{Op: "bin", S: "&&", A: []*Ex{l, p.cmp()}}
	}
	return l
}
func (p *sp) cmp() *Ex {
	l := p.add()
	var chain *Ex
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.next()
			r := p.add()
			c := &Ex{Op: "bin", S: t.s, A: []*Ex{l, r}}
			if chain == nil {
				chain = c
			} else {
				chain = &Ex{Op: "bin", S: "&&", A: []*Ex{chain, c}}
			}
			l = r
			continue
		}
		break
	}
	if chain != nil {
		return chain
	}
	return l
}
func (p *sp) add() *Ex {
	l := p.mul()
	for p.isOp("+") || p.isOp("-") {
		o := p.next().s
		l = &Ex{Op: "bin", S: o, A: []*Ex{l, p.mul()}}
	}
	return l
}
func (p *sp) mul() *Ex {
	l := p.unary()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") {
		o := p.next().s
		l = &Ex{Op: "bin", S: o, A: []*Ex{l, p.unary()}}
	}
	return l
}
func (p *sp) unary() *Ex {
	if p.isOp("!") || p.isOp("-") {
		o := p.next().s
		return &Ex{Op: "un", S: o, A: []*Ex{p.unary()}}
	}
	return p.postfix()
}
func (p *sp) typeExpr() string {
	// parses: [*][[]]name[.name] | interface{} | map...
	var b strings.Builder
	for {
		if p.isOp("*") {
			p.next()
			b.WriteString("*")
			continue
		}
		if p.isOp("[") {
			p.next()
			p.expect("]")
			b.WriteString("[]")
			continue
		}
		break
	}
	t := p.next()
	if t.k != "id" {
		p.fail("type expected, got %q", t.s)
	}
	b.WriteString(t.s)
	if t.s == "interface" {
		p.expect("{")
		p.expect("}")
		b.WriteString("{}")
		return b.String()
	}
	if p.isOp(".") {
		p.next()
		b.WriteString("." + p.next().s)
	}
	return b.String()
}
func (p *sp) binders() []Param {
	var vs []Param
	for {
		n := p.next()
		if n.k != "id" {
			p.fail("binder name expected")
		}
		names := []string{n.s}
		for p.isOp(",") {
			p.next()
			names = append(names, p.next().s)
		}
		ty := p.typeExpr()
		for _, m := range names {
			vs = append(vs, Param{m, ty})
		}
		if p.isOp(";") {
			p.next()
			continue
		}
		break
	}
	return vs
}
func (p *sp) postfix() *Ex {
	e := p.primary()
	for {
		switch {
		case p.isOp("."):
			p.next()
			if p.isOp("(") {
				p.next()
				ty := p.typeExpr()
				p.expect(")")
				e = &Ex{Op: "as", S: ty, A: []*Ex{e}, Pos: p.pos()}
				continue
			}
			e = &Ex{Op: "sel", S: p.next().s, A: []*Ex{e}, Pos: p.pos()}
		case p.isOp("["):
			p.next()
			if p.isOp(":") {
				p.next()
				h := p.expr()
				p.expect("]")
				e = &Ex{Op: "slice", A: []*Ex{e, nil, h}}
				continue
			}
			i := p.expr()
			if p.isOp(":") {
				p.next()
				if p.isOp("]") {
					p.next()
					e = &Ex{Op: "slice", A: []*Ex{e, i, nil}}
					continue
				}
				h := p.expr()
				p.expect("]")
				e = &Ex{Op: "slice", A: []*Ex{e, i, h}}
				continue
			}
			p.expect("]")
			e = &Ex{Op: "idx", A: []*Ex{e, i}, Pos: p.pos()}
		case p.isOp("("):
			pos := p.pos()
			p.next()
			var args []*Ex
			if e.Op == "id" && (e.S == "is" || e.S == "tag") {
				if e.S == "is" {
					a := p.expr()
					p.expect(",")
					ty := p.typeExpr()
					p.expect(")")
					e = &Ex{Op: "is", S: ty, A: []*Ex{a}, Pos: pos}
				} else {
					ty := p.typeExpr()
					p.expect(")")
					e = &Ex{Op: "tag", S: ty, Pos: pos}
				}
				continue
			}
			for !p.isOp(")") {
				args = append(args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if e.Op == "id" && e.S == "old" {
				e = &Ex{Op: "old", A: args, Pos: pos}
			} else {
				e = &Ex{Op: "call", A: append([]*Ex{e}, args...), Pos: pos}
			}
		default:
			return e
		}
	}
}
func (p *sp) primary() *Ex {
	pos := p.pos()
	t := p.next()
	switch t.k {
	case "int":
		return &Ex{Op: "int", S: t.s, Pos: pos}
	case "str":
		return &Ex{Op: "str", S: t.s, Pos: pos}
	case "id":
		switch t.s {
		case "forall", "exists":
			vs := p.binders()
			var trig [][]*Ex
			for p.isOp("{") {
				p.next()
				var tr []*Ex
				for !p.isOp("}") {
					tr = append(tr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				trig = append(trig, tr)
			}
			p.expect("::")
			b := p.expr()
			return &Ex{Op: t.s, Vars: vs, Trig: trig, A: []*Ex{b}, Pos: pos}
		case "let":
			n := p.next().s
			p.expect("=")
			v := p.expr()
			p.expect("in")
			b := p.expr()
			return &Ex{Op: "let", S: n, A: []*Ex{v, b}, Pos: pos}
		}
		return &Ex{Op: "id", S: t.s, Pos: pos}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	p.i--
	p.fail("unexpected %q", t.s)
	return nil
}

func (p *sp) params() []Param {
	var ps []Param
	p.expect("(")
	for !p.isOp(")") {
		n := p.next().s
		names := []string{n}
		for p.isOp(",") {
			p.next()
			names = append(names, p.next().s)
		}
		ty := p.typeExpr()
		for _, m := range names {
			ps = append(ps, Param{m, ty})
		}
		if !p.accept(";") && !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return ps
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "panics": true, "maypanic": true, "modifies": true, "returns": true, "onpanic": true, "hint": true, "ghost": true, "iterates": true, "assumes": true, "entry": true, "exit": true, "demands": true}
var topKw = map[string]bool{"func": true, "extern": true, "spec": true, "define": true, "axiom": true, "lemma": true, "case": true, "inv": true, "package": true, "assume": true, "inline": true, "opaque": true, "ghostfield": true, "skip": true, "bounded": true}

// labelled clause: kw [ [C01 C02:name] ] expr
func (p *sp) clause(kw string) *Clause {
	c := &Clause{Kind: kw, Pos: p.pos()}
	if p.isOp("[") {
		p.next()
		var words []string
		for !p.isOp("]") {
			words = append(words, p.next().s)
		}
		p.expect("]")
		for _, w := range words {
			if len(w) == 3 && w[0] == 'C' && w[1] >= '0' && w[1] <= '9' {
				c.Props = append(c.Props, w)
			} else if w != "," {
				c.Label += w
			}
		}
	}
	return c
}

// PropText is a text that concerns some properties, or all when there are none.
type PropText struct {
	Props []string
	Text  string
}

func (t PropText) concerns(p string) bool { return len(t.Props) == 0 || hasProp(t.Props, p) }

func (p *sp) propList() (ps []string) {
	for p.isId("props") {
		p.next()
		for p.peek().k == "id" && len(p.peek().s) == 3 && p.peek().s[0] == 'C' {
			ps = append(ps, p.next().s)
		}
	}
	return
}

func loadSpecs(dir string) (db *DB, err error) {
	db = &DB{Contracts: map[string]*Contract{}, Specs: map[string]*SpecFn{}, Invs: map[string][]*InvDef{}, LateNames: map[string]bool{}, Opaque: map[string]bool{}, Ghosts: map[string]string{}, Skips: map[string]PropText{}}
	if b, err := os.ReadFile(filepath.Join(dir, "functions.txt")); err == nil {
		db.Known = map[string][]string{}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) > 0 {
				db.Known[f[0]] = f[1:]
			}
		}
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		ts, e := lexSpec(string(b), f)
		if e != nil {
			return nil, e
		}
		p := &sp{ts: ts, file: f}
		db.parseFile(p)
	}
	return db, nil
}

func (db *DB) parseFile(p *sp) {
	pkg := "internal"
	for p.peek().k != "eof" {
		start := p.i
		t := p.next()
		switch t.s {
		case "package":
			pkg = p.next().s
		case "assume":
			ps := p.propList()
			db.Assume = append(db.Assume, PropText{ps, p.next().s})
		case "bounded":
			ps := p.propList()
			n := ""
			for p.peek().k != "str" {
				n += p.next().s
			}
			db.Bounded = append(db.Bounded, PropText{ps, n + ": " + p.next().s})
		case "opaque":
			ty := p.typeExpr()
			db.Opaque[strings.ReplaceAll(ty, pkg+".", "")] = true
		case "ghostfield":
			n := p.next().s
			p.expect(".")
			n += "." + p.next().s
			db.Ghosts[n] = p.typeExpr()
		case "skip":
			ps := p.propList()
			n := ""
			for p.peek().k != "str" {
				n += p.next().s
			}
			db.Skips[n] = PropText{ps, p.next().s}
		case "spec", "define":
			f := &SpecFn{Pos: p.pos(), Unf: -1, Alloc: true}
			for {
				if p.accept("world") {
					f.World = true
					continue
				}
				if p.accept("bytag") {
					f.Unf = 0
					continue
				}
				if p.accept("narrow") {
					f.Narrow = true
					continue
				}
				if p.accept("wide") {
					f.Wide = true
					continue
				}
				if p.accept("noframe") {
					f.Alloc = false
					continue
				}
				break
			}
			f.Name = p.next().s
			f.Params = p.params()
			f.Ret = p.typeExpr()
			if t.s == "define" {
				p.expect("=")
				f.Body = p.expr()
				f.Macro = true
			}
			if db.Specs[f.Name] != nil {
				p.fail("duplicate spec %s", f.Name)
			}
			db.Specs[f.Name] = f
		case "axiom", "lemma":
			a := &Axiom{Name: p.next().s, Lemma: t.s == "lemma", Pos: p.pos()}
			for p.isId("props") {
				p.next()
				for p.peek().k == "id" && len(p.peek().s) == 3 && p.peek().s[0] == 'C' {
					a.Props = append(a.Props, p.next().s)
				}
			}
			if p.accept("noauto") {
				a.NoAuto = true
			}
			if p.accept("uses") {
				// the lemmas (only these) that the proof may use
				for {
					a.Uses = append(a.Uses, p.next().s)
					if !p.accept(",") {
						break
					}
				}
			}
			if p.accept("induct") {
				a.Induct = p.next().s
			}
			if p.accept("by") {
				// terms to consider in the proof of the lemma
				for !p.isOp(":") {
					a.By = append(a.By, p.expr())
					p.accept(",")
				}
			}
			p.expect(":")
			a.Body = p.expr()
			if a.Induct != "" && a.Body.Op == "forall" {
				// induction proves the statement for natural numbers
				zero := &Ex{Op: "int", S: "0", Pos: a.Pos}
				g := &Ex{Op: "bin", S: "<=", A: []*Ex{zero, {Op: "id", S: a.Induct, Pos: a.Pos}}, Pos: a.Pos}
				a.Body.A[0] = &Ex{Op: "bin", S: "==>", A: []*Ex{g, a.Body.A[0]}, Pos: a.Pos}
			}
			a.Src = p.src(start)
			db.Axioms = append(db.Axioms, a)
		case "case":
			c := &CaseDef{Pos: p.pos()}
			c.Fn = p.next().s
			p.expect("(")
			for !p.isOp(")") {
				c.Vars = append(c.Vars, p.next().s)
				p.accept(",")
			}
			p.expect(")")
			p.expect("for")
			c.Ty = p.typeExpr()
			p.expect("=")
			c.Body = p.expr()
			c.Src = p.src(start)
			db.Cases = append(db.Cases, c)
		case "inv":
			iv := &InvDef{Pos: p.pos()}
			iv.Ty = p.typeExpr()
			p.expect(":")
			iv.Body = p.expr()
			iv.Src = p.src(start)
			db.Invs[iv.Ty] = append(db.Invs[iv.Ty], iv)
		case "func", "extern", "inline":
			c := &Contract{Loops: map[int]*LoopSpec{}, Pos: p.pos()}
			c.Trusted = t.s == "extern"
			// name: (*T).M | T.M | F | pkg.F | pkg.(*T).M
			name := ""
			mypkg := pkg
			inPkg := ""
			if c.Trusted && p.accept("in") {
				inPkg = p.next().s + "/" // applies to calls in that package only
			}
			if p.isOp("(") {
				p.next()
				p.expect("*")
				name = "(*" + p.next().s + ")"
				p.expect(")")
				p.expect(".")
				name += "." + p.next().s
			} else {
				name = p.next().s
				for p.isOp(".") {
					p.next()
					if p.isOp("(") {
						p.next()
						p.expect("*")
						mypkg = name
						name = "(*" + p.next().s + ")"
						p.expect(")")
						p.expect(".")
						name += "." + p.next().s
						break
					}
					name += "." + p.next().s
				}
			}
			if strings.HasPrefix(name, "(") {
				c.Key = mypkg + "." + name
			} else if parts := strings.Split(name, "."); len(parts) == 3 {
				c.Key = name
			} else if len(parts) == 2 && isPkgName(parts[0]) {
				c.Key = name
			} else {
				c.Key = pkg + "." + name
			}
			if t.s == "inline" {
				c.Key = "inline:" + c.Key
			}
			c.Key = inPkg + c.Key
			if p.isOp("(") {
				p.next()
				for !p.isOp(")") {
					c.Params = append(c.Params, p.next().s)
					p.accept(",")
				}
				p.expect(")")
			}
			for {
				t := p.peek()
				if t.k != "id" {
					break
				}
				if topKw[t.s] {
					break
				}
				switch {
				case t.s == "props":
					p.next()
					for p.peek().k == "id" && len(p.peek().s) == 3 && p.peek().s[0] == 'C' && p.peek().s[1] <= '9' {
						c.Props = append(c.Props, p.next().s)
					}
				case t.s == "pure":
					p.next()
					c.Pure = true
				case t.s == "wrap":
					p.next()
					c.Wrap = true
				case t.s == "trusted":
					p.next()
					c.Trusted = true
				case t.s == "traced":
					p.next()
					c.Traced = true
				case t.s == "private":
					p.next()
					c.Private = true
				case t.s == "only":
					p.next()
					c.Only = true
				case t.s == "unfold":
					p.next()
					c.Unfold = append(c.Unfold, p.expr())
				case t.s == "loop" || t.s == "each":
					p.next()
					n, _ := strconv.Atoi(p.next().s)
					if t.s == "each" {
						n += eachBase
					}
					p.expect("invariant")
					cl := p.clause("invariant")
					st := p.i
					cl.E = p.expr()
					cl.Src = p.src(st)
					if c.Loops[n] == nil {
						c.Loops[n] = &LoopSpec{}
					}
					c.Loops[n].Inv = append(c.Loops[n].Inv, cl)
				case clauseKw[t.s]:
					p.next()
					cl := p.clause(t.s)
					st := p.i
					if t.s == "modifies" {
						for {
							cl.Es = append(cl.Es, p.expr())
							if !p.accept(",") {
								break
							}
						}
					} else if (t.s == "maypanic" || t.s == "panics") && p.isId("any") {
						p.next()
						cl.E = nil
					} else if t.s == "ghost" || t.s == "entry" || t.s == "exit" {
						cl.E = p.expr()
						p.expect(":=")
						cl.Es = []*Ex{p.expr()}
					} else if t.s == "onpanic" {
						p.expect("unchanged")
						if p.isId("when") {
							p.next()
							cl.E = p.expr()
						}
					} else if t.s == "iterates" {
						cl.E = p.expr()
						if p.isId("while") { // else it is called once
							p.next()
							cl.Es = []*Ex{p.expr()}
						}
					} else {
						cl.E = p.expr()
					}
					cl.Src = p.src(st)
					if t.s == "hint" {
						c.Hints = append(c.Hints, cl)
					} else {
						c.Clauses = append(c.Clauses, cl)
					}
				default:
					p.fail("unexpected %q in contract of %s", t.s, c.Key)
				}
			}
			if old := db.Contracts[c.Key]; old != nil {
				p.fail("duplicate contract for %s", c.Key)
			}
			db.Contracts[c.Key] = c
			db.Order = append(db.Order, c.Key)
		default:
			p.i--
			p.fail("unexpected top-level %q", t.s)
		}
	}
}

// eachBase: ordinals of calls that are given a function literal are counted from here
const eachBase = 1000

func isPkgName(s string) bool {
	switch s {
	case "dgo", "internal", "util", "parser", "stringer", "streamer", "loader", "vf", "tf", "typ", "pcore",
		"strings", "strconv", "bytes", "math", "reflect", "regexp", "time", "utf8", "sort", "fmt", "errors", "sync", "unicode", "base64", "json", "io":
		return true
	}
	return false
}

var _ = types.Typ
