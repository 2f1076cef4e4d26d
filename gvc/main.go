package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

func (c *Contract) concerns(p string) bool {
	if p == "" || hasProp(c.Props, p) {
		return true
	}
	for _, cl := range c.Clauses {
		if hasProp(cl.Props, p) {
			return true
		}
	}
	return false
}

// jobsFor enumerates the functions whose contracts carry property p.
func jobsFor(pr *Prog, db *DB, p string) (jobs []*Job, missing, skipped []string) {
	x := newCtx(pr, db)
	byKey := map[string]*types.Func{}
	for fn := range pr.Decls {
		byKey[funcKey(fn)] = fn
	}
	for _, key := range db.Order {
		c := db.Contracts[key]
		if strings.HasPrefix(key, "inline:") || c.Trusted || !c.concerns(p) {
			continue
		}
		if im := x.ifaceMethod(key); im != nil {
			it := im.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
			for _, t := range pr.Concrete {
				if _, isP := t.(*types.Pointer); !isP {
					// value types whose pointer is the dynamic type are skipped: only the value form is listed
					if !types.Implements(t, it) {
						continue
					}
				} else {
					if !types.Implements(t, it) {
						continue
					}
					if types.Implements(t.(*types.Pointer).Elem(), it) {
						continue // *T where T already implements: pointers to such values are never used as values
					}
				}
				if x.skipDyn(t) {
					continue
				}
				o, idx, _ := types.LookupFieldOrMethod(t, false, im.Pkg(), im.Name())
				fn, ok := o.(*types.Func)
				if !ok {
					continue
				}
				tn := typeKey(t)
				if r, ok := db.Skips[tn+"."+im.Name()]; ok && (db.Prop == "" || r.concerns(db.Prop)) {
					skipped = append(skipped, tn+"."+im.Name()+": "+r.Text)
					continue
				}
				jobs = append(jobs, &Job{Key: tn + "." + im.Name(), Fn: fn, Con: c, Via: im, Recv: t, Idx: idx})
			}
			continue
		}
		fn := byKey[key]
		if fn == nil {
			if t, pf, idx := pr.promoted(key); pf != nil {
				jobs = append(jobs, &Job{Key: key, Fn: pf, Con: c, Recv: t, Idx: idx})
				continue
			}
			missing = append(missing, key)
			continue
		}
		jobs = append(jobs, &Job{Key: key, Fn: fn, Con: c})
	}
	return
}

// promoted resolves pkg.(*T).M or pkg.T.M where M is promoted from an embedded field.
func (pr *Prog) promoted(key string) (types.Type, *types.Func, []int) {
	i := strings.LastIndex(key, ".")
	for _, t := range pr.Concrete {
		if typeKey(t) == key[:i] {
			pk := pr.pkgByName(pkgOf(key))
			if fn, idx, _ := types.LookupFieldOrMethod(t, false, pk.Types, key[i+1:]); fn != nil {
				if f, ok := fn.(*types.Func); ok && pr.Decls[f] != nil {
					return t, f, idx
				}
			}
		}
	}
	return nil, nil, nil
}

func typeKey(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + ".(*" + n.Obj().Name() + ")"
		}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

type runOut struct {
	jobs    []*Job
	missing []string
	skipped []string
	lemmas  []*Oblig
	lctx    *Ctx
	symTime float64
	assume  map[string]bool
}

func runVerifier(pr *Prog, db *DB, p string, only string, budget int, verbose bool) *runOut {
	db.Prop = p
	out := &runOut{assume: map[string]bool{}}
	jobs, missing, skipped := jobsFor(pr, db, p)
	out.missing, out.skipped = missing, skipped
	if only != "" {
		var js []*Job
		for _, j := range jobs {
			if strings.Contains(j.name(), only) {
				js = append(js, j)
			}
		}
		jobs = js
	}
	out.jobs = jobs
	t0 := time.Now()
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	var proofs sync.WaitGroup
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			x := newCtx(pr, db)
			x.verifyJob(j)
			<-sem
			// property filter on labelled clauses
			var os []*Oblig
			for _, o := range j.obl {
				if p != "" && len(o.Props) > 0 && !hasProp(o.Props, p) {
					continue
				}
				if p != "" && len(o.Props) == 0 && o.Kind == "postcondition" && !hasProp(j.Con.Props, p) {
					continue
				}
				os = append(os, o)
			}
			j.obl = os
			for _, o := range os {
				o := o
				proofs.Add(1)
				go func() {
					defer proofs.Done()
					o.res = prove(x.queryLocked(o.Path, o.Goal, 1<<30), budget)
					if verbose {
						fmt.Printf("  %-8s %6.2fs %-7s %s @%s\n", o.res.Status, o.res.Time, o.res.Solver, o.Name, o.Pos)
					}
				}()
			}
			if smokeTest {
				for _, o := range j.smoke {
					o := o
					proofs.Add(1)
					go func() {
						defer proofs.Done()
						o.res = smoke(x.queryLocked(o.Path, o.Goal, 1<<30))
					}()
				}
			}
			// the precondition must be satisfiable: false must not follow from it
			if j.err == "" || len(j.entry) > 0 {
				o := &Oblig{Func: j.name(), Name: j.name() + "/vacuity", Kind: "vacuity", Path: j.entry, Goal: "false"}
				proofs.Add(1)
				go func() {
					defer proofs.Done()
					solverSem <- true
					q := x.queryLocked(o.Path, o.Goal, 1<<30)
					s, tm := runSolver(bg, z3cfg("z3-new", 1, 0), q)
					<-solverSem
					o.res = &Result{Status: "proved", Solver: "z3-new", Time: tm, Query: q}
					if strings.HasPrefix(s, "unsat") {
						o.res.Status = "unproved"
						o.res.Output = "the precondition is contradictory"
					}
				}()
				j.vac = o
			}
		}()
	}
	wg.Wait()
	out.symTime = time.Since(t0).Seconds()
	// lemmas
	lx := newCtx(pr, db)
	out.lctx = lx
	lx.prepare()
	lemmasBuilt := make(chan bool)
	for i, a := range db.Axioms {
		if !a.Lemma || (p != "" && !hasProp(a.Props, p)) || only != "" && !strings.Contains("lemma "+a.Name, only) {
			continue
		}
		o := lx.lemmaOblig(i, a)
		out.lemmas = append(out.lemmas, o)
		if o.res != nil {
			continue
		}
		idx, a := i, a
		proofs.Add(1)
		go func() {
			defer proofs.Done()
			<-lemmasBuilt
			o.res = prove(lx.queryLocked(o.Path, o.Goal, idx, a.Uses...), budget)
			if verbose {
				fmt.Printf("  %-8s %6.2fs %-7s %s\n", o.res.Status, o.res.Time, o.res.Solver, o.Name)
			}
			if smokeTest {
				h, g := o.Path, "false"
				if o.hyp != "" {
					h = append(append([]string{}, h...), o.hyp)
				}
				if smoke(lx.queryLocked(h, g, idx, a.Uses...)).Status == "proved" {
					fmt.Println("SMOKE: contradictory hypotheses:", o.Name)
				}
			}
		}()
	}
	close(lemmasBuilt)
	proofs.Wait()
	return out
}

// smokeTest: try to prove false from what is assumed
var smokeTest bool

func smoke(q string) *Result {
	r := &Result{Status: "unproved"}
	for _, c := range []solverCfg{z3cfg("z3-new", 2, 0), {"cvc5", []string{"cvc5", "--lang=smt2", "--tlimit=4000", "--full-saturate-quant"}}} {
		solverSem <- true
		s, _ := runSolver(bg, c, q)
		<-solverSem
		if strings.HasPrefix(s, "unsat") {
			r.Status = "proved"
		}
	}
	return r
}

func (x *Ctx) queryLocked(h []string, g string, m int, uses ...string) string {
	x.qmu.Lock()
	defer x.qmu.Unlock()
	return x.query(h, g, m, uses...)
}

// lemmaOblig: prove a lemma from the definitions and the lemmas before it, by induction when asked.
func (x *Ctx) lemmaOblig(i int, a *Axiom) (o *Oblig) {
	o = &Oblig{Func: "lemma " + a.Name, Name: "lemma " + a.Name, Kind: "lemma", Pos: a.Pos}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				o.res = &Result{Status: "error", Output: u.msg}
				return
			}
			panic(r)
		}
	}()
	st := x.pseudoState()
	st.root = "WL"
	x.decls["WL"] = "(declare-fun WL () World)"
	env := map[string]SV{}
	body := a.Body
	var params []Param
	if body.Op == "forall" {
		params = body.Vars
		for _, p := range params {
			t := x.resolveType("internal", p.Ty)
			s := srt(t)
			n := x.fresh("k."+p.Name, s)
			env[p.Name] = SV{T: t, S: s, V: n}
			if s == "Val" {
				st.assume("(unf " + n + ")")
			}
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && p.Ty != "int" && p.Ty != "Int" {
				lo, hi := intRange(t)
				st.assume("(<= " + num(lo) + " " + n + ")")
				st.assume("(<= " + n + " " + num(hi) + ")")
			}
		}
		body = body.A[0]
	}
	c := &sctx{x: x, st: st, pkg: "internal", env: env}
	if a.Induct != "" {
		iv := env[a.Induct]
		st.assume("(<= 0 " + iv.V + ")")
		// induction hypothesis: the statement for all smaller values of the variable
		e2 := map[string]SV{}
		var bs []string
		for k, v := range env {
			e2[k] = v
		}
		h := ""
		for _, p := range params {
			x.nfresh++
			n := fmt.Sprintf("h%d!%s", x.nfresh, p.Name)
			v := env[p.Name]
			bs = append(bs, "("+n+" "+v.S+")")
			e2[p.Name] = SV{T: v.T, S: v.S, V: n}
			if p.Name == a.Induct {
				h = n
			}
		}
		c2 := &sctx{x: x, st: st, pkg: "internal", env: e2}
		hb := c2.ev(body).V
		pat := ""
		for _, tr := range a.Body.Trig {
			var ts []string
			for _, t := range tr {
				ts = append(ts, c2.ev(t).V)
			}
			pat += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		f := implies("(and (<= 0 "+h+") (< "+h+" "+iv.V+"))", hb)
		if pat != "" {
			f = "(! " + f + pat + ")"
		}
		st.assume("(forall (" + strings.Join(bs, " ") + ") " + f + ")")
	}
	for _, h := range a.By {
		x.hint(st, c.ev(h))
	}
	o.Goal = c.ev(body).V
	for body.Op == "bin" && body.S == "==>" {
		h := c.ev(body.A[0]).V
		if o.hyp != "" {
			h = "(and " + o.hyp + " " + h + ")"
		}
		o.hyp = h
		body = body.A[1]
	}
	o.Path = st.pathList()
	return o
}

type evidence struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       int                    `json:"seed"`
	Level      string                 `json:"level"`
	Coverage   map[string]interface{} `json:"coverage"`
	Assume     []string               `json:"assumptions"`
	Wall       float64                `json:"wall_s"`
	Violations int                    `json:"violations"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc check -prop C01 | verify [-prop C01] [-f substring] [-v]")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	only := fs.String("f", "", "only functions whose name contains this")
	fs.BoolVar(&smokeTest, "smoke", false, "look for contradictions in what is assumed")
	verbose := fs.Bool("v", false, "verbose")
	budget := fs.Int("budget", 0, "seconds per query")
	dump := fs.String("dump", "", "write unproved queries to this directory")
	harness := fs.String("harness", "", "harness binary")
	level := fs.String("level", "proof", "level recorded in the evidence")
	specDir := fs.String("specs", "", "contract directory")
	fs.StringVar(&repoDir, "repo", repoDir, "repository")
	fs.StringVar(&verifDir, "verif", verifDir, "verification directory")
	fs.Parse(os.Args[2:])
	if *specDir == "" {
		*specDir = filepath.Join(verifDir, "contracts")
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *budget == 0 {
		*budget = 30
		if tier == "thorough" {
			*budget = 120
		}
	}
	switch cmd {
	case "verify":
		pr, err := loadProg(repoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		db, err := loadSpecs(*specDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		t0 := time.Now()
		out := runVerifier(pr, db, *prop, *only, *budget, *verbose)
		report(out, *dump)
		fmt.Printf("symbolic execution %.1fs, total %.1fs\n", out.symTime, time.Since(t0).Seconds())
	case "funcs":
		pr, err := loadProg(repoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var fs []string
		for fn := range pr.Decls {
			fs = append(fs, strings.Join(append([]string{funcKey(fn)}, pr.localNames(fn)...), " "))
		}
		sort.Strings(fs)
		for _, f := range fs {
			fmt.Println(f)
		}
	case "check":
		os.Exit(check(*prop, tier, seed, *specDir, *budget, *harness, *level))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func report(out *runOut, dump string) {
	n, ok := 0, 0
	sort.Slice(out.jobs, func(i, j int) bool { return out.jobs[i].name() < out.jobs[j].name() })
	show := func(o *Oblig) {
		n++
		if o.res.Status == "proved" {
			ok++
			if dump != "" && os.Getenv("GVC_DUMP_ALL") != "" {
				os.MkdirAll(dump, 0o755)
				os.WriteFile(filepath.Join(dump, fmt.Sprintf("%s-%d.smt2", sanitize(o.Name), n)), []byte(o.res.Query), 0o644)
			}
			return
		}
		fmt.Printf("UNPROVED %s @%s [%s] %.1fs\n", o.Name, o.Pos, o.res.Status, o.res.Time)
		if len(o.res.Output) > 600 {
			o.res.Output = o.res.Output[:600]
		}
		if o.res.Status == "error" {
			fmt.Println("   ", o.res.Output)
		}
		if dump != "" {
			os.MkdirAll(dump, 0o755)
			f := filepath.Join(dump, fmt.Sprintf("%s-%d.smt2", sanitize(o.Name), n))
			os.WriteFile(f, []byte(o.res.Query), 0o644)
			fmt.Println("   ", f)
		}
	}
	for _, j := range out.jobs {
		bad := 0
		for _, o := range j.obl {
			if o.res.Status != "proved" {
				bad++
			}
		}
		st := "ok"
		if bad > 0 {
			st = fmt.Sprintf("%d UNPROVED", bad)
		}
		if j.err != "" {
			st = "ERROR " + j.err
		}
		fmt.Printf("%-60s %3d obligations, %d returns: %s\n", j.name(), len(j.obl), j.returns, st)
		for _, o := range j.obl {
			show(o)
		}
		reach := len(j.smoke) == 0
		for _, o := range j.smoke {
			if o.res == nil || o.res.Status != "proved" {
				reach = true
			}
		}
		if !reach {
			fmt.Println("SMOKE: no return of", j.name(), "can be reached")
		}
		if j.vac != nil && j.vac.res.Status != "proved" {
			fmt.Println("VACUOUS", j.name())
		}
		for k := range j.ctx.notes {
			out.assume[k] = true
		}
	}
	for _, o := range out.lemmas {
		show(o)
	}
	for _, m := range out.missing {
		fmt.Println("MISSING function", m)
	}
	for k := range out.assume {
		fmt.Println("note:", k)
	}
	fmt.Printf("%d functions, %d lemmas, %d/%d obligations discharged\n", len(out.jobs), len(out.lemmas), ok, n)
}
