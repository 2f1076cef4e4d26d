package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// hardStop bounds the time one check spends in the provers.
var proofDeadline time.Time

type harnessOut struct {
	Property string         `json:"property"`
	Evals    int            `json:"evaluations"`
	Distinct int            `json:"distinct_nontrivial"`
	Samples  []string       `json:"samples"`
	Fails    []harnessFail  `json:"fails"`
	Groups   map[string]int `json:"groups"`
	Done     bool           `json:"done"`
	Cut      bool           `json:"cut_by_time"`
	note     string
}

type harnessFail struct {
	Key   string `json:"key"`
	Input string `json:"input"`
	Msg   string `json:"msg"`
}

type knownEntry struct {
	prop, kind, name, desc string
}

// readKnown reads the known findings file:
//
//	known: property=C03 key=<harness key> <what fails>
//	obligation: property=C03 name=<obligation> <why>      (part of a known finding)
//	fixed: property=C03 <commit> <what failed>            (suppresses nothing)
func readKnown(file string) (out []knownEntry, err error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		var e knownEntry
		switch {
		case strings.HasPrefix(l, "known: "):
			e.kind = "known"
			l = l[7:]
		case strings.HasPrefix(l, "obligation: "):
			e.kind = "obligation"
			l = l[12:]
		default:
			continue
		}
		fs := strings.SplitN(l, " ", 2)
		if !strings.HasPrefix(fs[0], "property=") || len(fs) < 2 {
			return nil, fmt.Errorf("known findings: bad line %q", l)
		}
		e.prop = fs[0][9:]
		// name=... up to " :: "
		rest := fs[1]
		i := strings.Index(rest, " :: ")
		if i < 0 {
			return nil, fmt.Errorf("known findings: bad line %q", l)
		}
		e.name = rest[strings.IndexByte(rest[:i], '=')+1 : i]
		e.desc = rest[i+4:]
		out = append(out, e)
	}
	return out, sc.Err()
}

func procRSS(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	fs := strings.Fields(string(b))
	if len(fs) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(fs[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// runHarness executes the harness in a process of its own.
func runHarness(bin, prop, tier string, seed, secs int) *harnessOut {
	out := &harnessOut{}
	if _, err := os.Stat(bin); err != nil {
		out.note = "the harness did not build against this tree"
		return out
	}
	dir, err := os.MkdirTemp("", "gvc-harness-")
	if err != nil {
		out.note = err.Error()
		return out
	}
	defer os.RemoveAll(dir)
	curFile := filepath.Join(dir, "cur")
	cmd := exec.Command(bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-tier", tier, "-secs", fmt.Sprint(secs), "-cur", curFile)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limitWriter{&se, 1 << 20}
	if err := cmd.Start(); err != nil {
		out.note = err.Error()
		return out
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	cur := func() string {
		b, _ := os.ReadFile(curFile)
		return strings.TrimSpace(string(b))
	}
	limit := time.Duration(secs*5+60) * time.Second
	t0 := time.Now()
	last, lastChange := "", time.Now()
	why := ""
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			if c := cur(); c != last {
				last, lastChange = c, time.Now()
			}
			if procRSS(cmd.Process.Pid) > 8<<30 {
				why = "memory use beyond 8 GB"
			} else if time.Since(lastChange) > 60*time.Second && last != "" {
				why = "does not terminate within 60 s"
			} else if time.Since(t0) > limit {
				why = "time limit"
			}
			if why != "" {
				cmd.Process.Kill()
				<-done
				break loop
			}
		}
	}
	if why == "time limit" {
		out.note = "the harness was stopped at its time limit"
		return out
	}
	if jerr := json.Unmarshal(bytes.TrimSpace(so.Bytes()), out); jerr != nil || !out.Done {
		c := cur()
		key, in := c, ""
		if i := strings.Index(c, ": "); i >= 0 {
			key, in = c[:i], c[i+2:]
		}
		msg := why
		if msg == "" {
			msg = "the process died"
			if s := se.String(); s != "" {
				ls := strings.Split(s, "\n")
				if len(ls) > 12 {
					ls = ls[:12]
				}
				msg += ": " + strings.Join(ls, " | ")
			}
		}
		if key == "" {
			out.note = "the harness failed: " + msg
			return out
		}
		out.Fails = append(out.Fails, harnessFail{key, in, msg})
	}
	return out
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}

func check(prop, tier string, seed int, specDir string, budget int, harness string, level string) int {
	t0 := time.Now()
	fail := func(f string, a ...interface{}) int {
		fmt.Printf("ERROR "+f+"\n", a...)
		return 2
	}
	known, err := readKnown(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return fail("%v", err)
	}
	knownKey := map[string]string{}
	knownObl := map[string]string{}
	for _, e := range known {
		if e.prop != prop {
			continue
		}
		if e.kind == "known" {
			knownKey[e.name] = e.desc
		} else {
			knownObl[e.name] = e.desc
		}
	}
	secs := 25
	proofDeadline = t0.Add(420 * time.Second)
	if tier == "thorough" {
		secs = 240
		proofDeadline = t0.Add(3000 * time.Second)
	}
	var h *harnessOut
	var wg sync.WaitGroup
	wg.Add(1)
	proofCtx, stopProofs := context.WithCancel(context.Background())
	bg = proofCtx
	go func() {
		defer wg.Done()
		h = runHarness(harness, prop, tier, seed, secs)
		for _, f := range h.Fails {
			if _, ok := knownKey[f.Key]; !ok {
				// a concrete failing input decides: the proofs need not finish
				time.AfterFunc(30*time.Second, stopProofs)
				break
			}
		}
	}()
	pr, err := loadProg(repoDir)
	if err != nil {
		return fail("the repository does not type check: %v", err)
	}
	db, err := loadSpecs(specDir)
	if err != nil {
		return fail("%v", err)
	}
	out := runVerifier(pr, db, prop, "", budget, false)
	wg.Wait()
	stopProofs()

	type failed struct {
		Obligation string   `json:"obligation"`
		Kind       string   `json:"kind"`
		Pos        string   `json:"position"`
		Status     string   `json:"status"`
		Output     string   `json:"verifier_output"`
		Query      string   `json:"query,omitempty"`
		Goal       string   `json:"goal,omitempty"`
		Path       []string `json:"-"`
	}
	var bad []failed
	n, ok, vac := 0, 0, 0
	solverTime := map[string]float64{}
	backends := map[string]int{}
	knownHit := map[string]bool{}
	slow := 0.0
	slowName := ""
	add := func(o *Oblig) {
		if o == nil || o.res == nil {
			return
		}
		if _, k := knownObl[o.Name]; k {
			if o.res.Status != "proved" {
				knownHit[o.Name] = true
			}
			return
		}
		n++
		if o.Kind == "vacuity" {
			vac++
		}
		solverTime[o.res.Solver] += o.res.Time
		if o.res.Time > slow {
			slow, slowName = o.res.Time, o.Name
		}
		if o.res.Status == "proved" {
			ok++
			s := o.res.Solver
			if s == "" {
				s = "symbolic execution"
			}
			backends[s]++
			return
		}
		bad = append(bad, failed{o.Name, o.Kind, o.Pos, o.res.Status, o.res.Output, o.res.Query, o.Goal, o.Path})
	}
	var funcs, bounded, missing []string
	assume := map[string]bool{}
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	contracts := map[string]bool{}
	for _, j := range out.jobs {
		funcs = append(funcs, j.name())
		if j.err != "" {
			bad = append(bad, failed{Obligation: j.name() + "/obligations", Kind: "generation", Status: "not generated", Output: j.err})
			n++
		}
		for _, o := range j.obl {
			add(o)
		}
		add(j.vac)
		for k := range j.ctx.notes {
			assume[k] = true
			if strings.HasPrefix(k, "contract item at ") {
				bad = append(bad, failed{Obligation: j.name() + "/contract", Kind: "generation", Status: "not generated", Output: k})
				n++
			}
		}
		for k := range j.ctx.inlined {
			inlined[k] = true
		}
		for k := range j.ctx.usedContracts {
			if c := db.Contracts[k]; c != nil && c.Trusted {
				trusted[k] = true
			} else {
				contracts[k] = true
			}
		}
	}
	var lemmas []string
	for _, o := range out.lemmas {
		lemmas = append(lemmas, o.Name)
		add(o)
	}
	for _, a := range db.Axioms {
		if !a.Lemma {
			assume["axiom "+a.Name] = true
		}
	}
	bounded = append(bounded, out.skipped...)
	for _, b := range db.Bounded {
		if b.concerns(prop) {
			bounded = append(bounded, b.Text)
		}
	}
	for _, a := range db.Assume {
		if a.concerns(prop) {
			assume[a.Text] = true
		}
	}
	for _, m := range out.missing {
		missing = append(missing, m)
	}
	sort.Strings(funcs)
	sort.Strings(bounded)
	var own []string // contracts relied upon that are proved in the check of another property
	verified := map[string]bool{}
	for _, j := range out.jobs {
		verified[j.Con.Key] = true
	}
	for k := range contracts {
		if !verified[k] {
			ps := strings.Join(db.Contracts[k].Props, ",")
			own = append(own, k+" (verified in the check of "+ps+")")
		}
	}

	violations := 0
	outDir := filepath.Join(verifDir, "out")
	os.MkdirAll(outDir, 0o755)
	var newFails []harnessFail
	printed := map[string]bool{}
	for _, f := range h.Fails {
		if d, ok := knownKey[f.Key]; ok {
			if !printed[f.Key] {
				printed[f.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, f.Key, d)
			}
			continue
		}
		newFails = append(newFails, f)
	}
	var khs []string
	for k := range knownHit {
		khs = append(khs, k)
	}
	sort.Strings(khs)
	for _, k := range khs {
		fmt.Printf("KNOWN-FINDING: property=%s obligation %s is not discharged: %s\n", prop, k, knownObl[k])
	}
	writeReplay := func(name string, v interface{}) string {
		p := filepath.Join(outDir, name)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		return p
	}
	for i := range bad {
		if len(bad[i].Query) > 200000 {
			bad[i].Query = bad[i].Query[:200000]
		}
		if i >= 5 {
			bad[i].Query = ""
		}
	}
	replayNote := fmt.Sprintf("re-run: VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s", seed, tier, verifDir, prop)
	switch {
	case len(newFails) > 0:
		violations = len(newFails)
		for _, f := range newFails {
			fmt.Printf("failing input: %s: %s: %s\n", f.Key, f.Input, f.Msg)
		}
		for _, b := range bad {
			fmt.Printf("failed obligation: %s at %s (%s)\n", b.Obligation, b.Pos, b.Status)
		}
		p := writeReplay(prop+"-input.json", map[string]interface{}{"property": prop, "failing_inputs": newFails, "failed_obligations": bad, "replay": replayNote})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	case len(bad) > 0:
		violations = len(bad)
		for _, b := range bad {
			fmt.Printf("failed obligation: %s at %s (%s) %s\n", b.Obligation, b.Pos, b.Status, firstLineOf(b.Output))
		}
		p := writeReplay(prop+"-obligation.json", map[string]interface{}{"property": prop, "failed_obligations": bad, "replay": replayNote})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
	}
	if len(out.jobs) == 0 && len(out.lemmas) == 0 && level == "proof" {
		return fail("no obligations generated for %s", prop)
	}

	var tb []string
	for k := range trusted {
		tb = append(tb, "trusted contract of "+k)
	}
	sort.Strings(tb)
	tb = append([]string{"gvc (/verif/gvc): the generator of the obligations and its memory model", "z3, cvc5", "go/types"}, tb...)
	sort.Strings(own)
	keys := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	samples := h.Samples
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"obligations": n, "discharged": ok, "checker_cmd": fmt.Sprintf("gvc verify -prop %s", prop), "trusted_base": tb,
		"functions_under_contract": funcs, "lemmas": lemmas, "inlined_without_contract": keys(inlined),
		"vacuity_checks": vac, "back_ends": backends, "solver_seconds": solverTime, "symbolic_execution_seconds": out.symTime,
		"slowest_obligation":  map[string]interface{}{"name": slowName, "seconds": slow},
		"contracts_relied_on": own, "bounded_not_proved": bounded, "functions_not_found": missing, "undischarged_known_findings": khs,
		"evaluations": h.Evals, "distinct_nontrivial": h.Distinct, "samples": samples, "harness_groups": h.Groups, "harness_note": h.note, "harness_cut_by_time": h.Cut,
		"rule":        "harness (bounded): exhaustive small cases and random cases of the property run on the real code against an independent oracle; distinct by key and input",
		"explanation": "obligations generated from /repo's current source and discharged by SMT; the harness counts are a bounded search for concrete failing inputs and the stand-in for the functions listed under bounded_not_proved",
	}
	as := keys(assume)
	ev := evidence{prop, tier, seed, level, cov, as, time.Since(t0).Seconds(), violations}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644); err != nil {
		return fail("%v", err)
	}
	fmt.Printf("%s: %d functions, %d/%d obligations discharged, %d known; harness %d evaluations, %d distinct; %.1fs (slowest %.1fs %s) %s\n", prop, len(out.jobs), ok, n, len(khs), h.Evals, h.Distinct, time.Since(t0).Seconds(), slow, slowName, h.note)
	if violations > 0 {
		return 1
	}
	return 0
}

func firstLineOf(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
