package main

// From obligations to SMT queries and verdicts.

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"sort"
	"strings"

	"time"
)

func sortStrings(s []string) { sort.Strings(s) }

type Result struct {
	Status string // proved failed unknown
	Solver string
	Time   float64
	Output string
	Query  string
}

// query builds the SMT text that is unsatisfiable iff the obligation holds.
func (x *Ctx) query(hyps []string, goal string, maxLemma int, uses ...string) string {
	used := map[string]bool{}
	for _, u := range uses {
		used[u] = true
	}
	need := map[string]bool{}
	var order []string
	var body []string
	addSyms := func(t string) {
		for _, s := range tokens(t) {
			if !need[s] {
				need[s] = true
				order = append(order, s)
			}
		}
	}
	for _, h := range hyps {
		t := "(assert " + h + ")"
		body = append(body, t)
		addSyms(t)
	}
	g := "(assert (not " + goal + "))"
	body = append(body, g)
	addSyms(g)
	addSyms("alloc0")
	var extra []string
	doneCase := map[string]bool{}
	doneAx := map[int]bool{}
	doneW := map[string]bool{}
	doneDecl := 0
	for {
		progress := false
		for doneDecl < len(order) {
			s := order[doneDecl]
			doneDecl++
			if d, ok := x.decls[s]; ok && strings.HasPrefix(d, "(define-fun") {
				addSyms(d)
			}
			progress = true
		}
		for fn, cs := range x.caseText {
			if !need[fn] {
				continue
			}
			sp := x.db.Specs[strings.TrimPrefix(fn, "S!")]
			wide := sp != nil && sp.Wide
			for _, c := range cs {
				if doneCase[c.text] {
					continue
				}
				if need[c.tag] || wide || strings.HasPrefix(c.tag, "impl!") {
					doneCase[c.text] = true
					extra = append(extra, c.text)
					addSyms(c.text)
					progress = true
				}
			}
		}
		for i, a := range x.axText {
			if doneAx[i] || a.lemma && (a.idx >= maxLemma || len(uses) == 0 && !a.auto || len(uses) > 0 && !used[a.name]) {
				continue
			}
			if x.axRelevant(a.text, need) {
				doneAx[i] = true
				extra = append(extra, a.text)
				addSyms(a.text)
				progress = true
			}
		}
		for w, r := range x.worlds {
			if !need[w] {
				continue
			}
			// heap equalities
			for f := range x.fieldSort {
				if !need[f] {
					continue
				}
				k := w + "/" + f
				if doneW[k] {
					continue
				}
				doneW[k] = true
				cur, ok := r.heap[f]
				if !ok {
					cur = "(" + f + " " + r.root + ")"
				}
				t := "(assert (= (" + f + " " + w + ") " + cur + "))"
				extra = append(extra, t)
				addSyms(t)
				progress = true
			}
			if r.allocOnly {
				for n, sp := range x.db.Specs {
					if !sp.World || !sp.Alloc || sp.Macro || !need["S!"+n] {
						continue
					}
					k := w + "/S!" + n
					if doneW[k] {
						continue
					}
					doneW[k] = true
					t := x.worldFrame(w, r.root, n, sp)
					extra = append(extra, t)
					addSyms(t)
					progress = true
				}
			}
		}
		if !progress {
			break
		}
	}
	var b strings.Builder
	b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	b.WriteString(prelude)
	// declarations: plain first, then definitions in dependency order
	var names []string
	for s := range need {
		if d, ok := x.decls[s]; ok && strings.HasPrefix(d, "(declare") {
			names = append(names, s)
		}
	}
	sort.Strings(names)
	for _, s := range names {
		b.WriteString(x.decls[s] + "\n")
	}
	names = nil
	for s := range need {
		if d, ok := x.decls[s]; ok && strings.HasPrefix(d, "(define-fun") {
			names = append(names, s)
		}
	}
	sort.Strings(names)
	for _, s := range names {
		b.WriteString(x.decls[s] + "\n")
	}
	for _, p := range preludeAxioms {
		if need[p.sym] {
			b.WriteString(p.ax + "\n")
		}
	}
	for _, s := range sortedKeys(need) {
		if a, ok := x.fieldAx[s]; ok {
			b.WriteString(a + "\n")
		}
	}
	// literals
	var lits []string
	for s, n := range x.strs {
		if need[n] {
			lits = append(lits, n)
			b.WriteString(fmt.Sprintf("(assert (= (strlen %s) %d))\n", n, len(s)))
			if len(s) <= 4 {
				for i := 0; i < len(s); i++ {
					b.WriteString(fmt.Sprintf("(assert (= (strat %s %d) %d))\n", n, i, s[i]))
				}
			}
		}
	}
	sort.Strings(lits)
	if len(lits) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	b.WriteString("(assert (<= 0 alloc0))\n")
	sort.Strings(extra)
	for _, t := range extra {
		b.WriteString(t + "\n")
	}
	for _, t := range body {
		b.WriteString(t + "\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func (x *Ctx) worldFrame(w, root, n string, sp *SpecFn) string {
	var bs, as, gs []string
	for i, p := range sp.Params {
		t := x.resolveType("internal", p.Ty)
		s := srt(t)
		v := fmt.Sprintf("f%d!", i)
		bs = append(bs, "("+v+" "+s+")")
		as = append(as, v)
		switch s {
		case "Val":
			gs = append(gs, "(valalloc "+v+" alloc0)")
		case "Slice":
			gs = append(gs, "(<= (sarr "+v+") alloc0)")
		case "Int":
			if strings.HasPrefix(p.Ty, "*") {
				gs = append(gs, "(<= "+v+" alloc0)")
			}
		}
	}
	a1 := "(S!" + n + " " + strings.Join(append([]string{w}, as...), " ") + ")"
	a0 := "(S!" + n + " " + strings.Join(append([]string{root}, as...), " ") + ")"
	return "(assert (forall (" + strings.Join(bs, " ") + ") (! " + implies(and(gs...), "(= "+a1+" "+a0+")") + " :pattern (" + a1 + "))))"
}

// axRelevant: every spec symbol of some pattern occurs (or any spec symbol when there is no pattern).
func (x *Ctx) axRelevant(t string, need map[string]bool) bool {
	rest := t
	found := false
	for {
		i := strings.Index(rest, ":pattern (")
		if i < 0 {
			break
		}
		found = true
		j := i + len(":pattern ")
		d := 0
		k := j
		for ; k < len(rest); k++ {
			if rest[k] == '(' {
				d++
			} else if rest[k] == ')' {
				d--
				if d == 0 {
					break
				}
			}
		}
		ok := true
		for _, s := range tokens(rest[j:k]) {
			if strings.HasPrefix(s, "S!") || strings.HasPrefix(s, "G!") || strings.HasPrefix(s, "H!") || strings.HasPrefix(s, "E!") || strings.HasPrefix(s, "C!") || strings.HasPrefix(s, "app.") || strings.HasPrefix(s, "str") && len(s) > 4 || s == "i2f" || s == "f2i" {
				if !need[s] {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
		rest = rest[k:]
	}
	if found {
		return false
	}
	for _, s := range tokens(t) {
		if strings.HasPrefix(s, "S!") || strings.HasPrefix(s, "G!") || strings.HasPrefix(s, "C!") {
			if need[s] {
				return true
			}
		}
	}
	return false
}

type solverCfg struct {
	name string
	args []string
}

func runSolver(ctx context.Context, sc solverCfg, q string) (string, float64) {
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, sc.args[0], sc.args[1:]...)
	if sc.name == "cvc5" {
		q = strings.Replace(q, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", "(set-logic ALL)\n", 1)
	}
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Run()
	return strings.TrimSpace(out.String()), time.Since(t0).Seconds()
}

func z3cfg(bin string, secs int, seed int) solverCfg {
	return solverCfg{bin, []string{bin, "-in", "-smt2", fmt.Sprintf("-T:%d", secs), fmt.Sprintf("smt.random_seed=%d", seed), "-memory:3000"}}
}

var solverSem = make(chan bool, 8)

// prove decides one query: a quick attempt, then a race.
func prove(q string, budget int) *Result {
	firstLine := func(s string) string {
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			return s[:i]
		}
		return s
	}
	solverSem <- true
	t := 4
	if budget < t {
		t = budget
	}
	if !proofDeadline.IsZero() {
		if left := int(time.Until(proofDeadline).Seconds()); left < budget {
			budget = left
			if budget < 1 {
				budget = 1
			}
			if t > budget {
				t = budget
			}
		}
	}
	out, tm := runSolver(bg, z3cfg("z3-new", t, 0), q)
	<-solverSem
	total := tm
	r := &Result{Query: q}
	if firstLine(out) == "unsat" {
		r.Status, r.Solver, r.Time = "proved", "z3-new", total
		return r
	}
	if strings.Contains(out, "(error") {
		r.Status, r.Output, r.Solver, r.Time = "error", out, "z3-new", total
		return r
	}
	last := out
	if budget > t {
		ctx, cancel := context.WithTimeout(bg, time.Duration(budget+2)*time.Second)
		type ans struct {
			n, o string
			t    float64
		}
		ch := make(chan ans, 4)
		cfgs := []solverCfg{z3cfg("z3", budget, 7), {"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", budget*1000), "--full-saturate-quant"}}, z3cfg("z3-new", budget, 13)}
		if firstLine(out) == "unknown" || firstLine(out) == "sat" {
			// quick give-up without timeout: another seed rarely helps
			cfgs = cfgs[:2]
		}
		for _, c := range cfgs {
			c := c
			go func() {
				solverSem <- true
				defer func() { <-solverSem }()
				if ctx.Err() != nil {
					ch <- ans{c.name, "", 0}
					return
				}
				o, t := runSolver(ctx, c, q)
				ch <- ans{c.name, o, t}
			}()
		}
		for range cfgs {
			a := <-ch
			total += a.t
			if firstLine(a.o) == "unsat" {
				cancel()
				r.Status, r.Solver, r.Time = "proved", a.n, total
				return r
			}
			if a.o != "" {
				last += "\n[" + a.n + "] " + firstLine(a.o)
			}
		}
		cancel()
	}
	r.Status, r.Time, r.Output = "unproved", total, last
	return r
}

var bg = context.Background()
