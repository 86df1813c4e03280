package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// Solver runs proof obligations of one unit.
type Solver struct {
	x       *Exec
	head    string // prelude, declarations, axioms
	alive   map[string]bool
	time    float64
	mu      sync.Mutex
	counts  map[string]int
	dead    []string // returns shown unreachable
	flags   map[string]*Cand
	symSort map[string]string // sorts of the declared symbols
}

var (
	parallel    = 8
	candRl      = 3000000
	finalRl     = 40000000
	dumpDir     = os.Getenv("GCV_DUMP")
	verbose     = os.Getenv("GCV_V") != ""
	noPortfolio bool
	deadline    time.Time // no solver runs beyond it
)

func newSolver(x *Exec) *Solver {
	s := &Solver{x: x, alive: map[string]bool{}, counts: map[string]int{}, flags: map[string]*Cand{}}
	ax := x.axioms()
	var b strings.Builder
	b.WriteString(prelude)
	for _, d := range x.c.decls {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	if d := x.c.strDistinct(); d != "" {
		b.WriteString(d + "\n")
	}
	for _, f := range x.c.implementsFacts() {
		b.WriteString(f + "\n")
	}
	for _, a := range ax {
		b.WriteString(a + "\n")
	}
	s.head = b.String()
	for _, c := range x.c.cands {
		s.alive[c.Flag] = c.Alive
		s.flags[c.Flag] = c
	}
	return s
}

func z3opts(rl int) string {
	return fmt.Sprintf("(set-option :auto_config false)\n(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n(set-option :produce-unsat-cores true)\n(set-option :rlimit %d)\n", rl)
}

func (s *Solver) flagList(pos int) string {
	var fs []string
	for _, c := range s.x.c.cands {
		if s.alive[c.Flag] {
			fs = append(fs, c.Flag)
		}
	}
	return strings.Join(fs, " ")
}

// script is a self-contained query for one obligation.
func (s *Solver) script(o *Obligation, rl int, z3 bool) string {
	return s.scriptCase(o, rl, z3, "")
}

// cases lists the branches that meet where the obligation arises.
func (s *Solver) cases(o *Obligation) []string {
	p := "(define-fun " + o.Guard + " () Bool (or "
	for _, l := range s.x.c.lines[:o.Pos] {
		if strings.HasPrefix(l, p) {
			return splitArgs(splitArgs(l)[4])[1:]
		}
	}
	return nil
}

// byCases proves the obligation separately for each of its branches.
func (s *Solver) byCases(o *Obligation, rl int, limit time.Duration) (string, bool) {
	cs := s.cases(o)
	if len(cs) < 2 || len(cs) > 8 {
		return "", false
	}
	used := map[string]bool{}
	for _, c := range cs {
		ok := false
		for _, cfg := range caseCfgs {
			t0 := time.Now()
			out, _ := runProc(cfg.name, cfg.args, s.scriptCase(o, rl, cfg.z3, c), limit)
			s.mu.Lock()
			s.time += time.Since(t0).Seconds()
			s.mu.Unlock()
			if verdict(out) == "unsat" {
				ok = true
				used[cfg.name] = true
				break
			}
		}
		if !ok {
			return "", false
		}
	}
	for _, n := range []string{"cvc5", "z3"} {
		if used[n] {
			return n, true
		}
	}
	return "z3-new", true
}

var caseCfgs = []solverCfg{
	{"z3-new", []string{"-in", "-smt2", "-T:6"}, true},
	{"z3", []string{"-in", "-smt2", "-T:6"}, true},
	{"cvc5", []string{"--lang=smt2", "--tlimit=4000"}, false},
}

// loop is the loop whose invariant c is.
func (c *Cand) loop() string {
	return strings.TrimSuffix(c.Name[:strings.Index(c.Name, "/"+c.Label)], "/")
}

// focus is a query with the invariants of few loops only: the loop of the
// obligation, or the last n before it.  With deep set, it also leaves out the
// quantified facts from before those loops.
func (s *Solver) focus(o *Obligation, rl, n int, deep bool) (string, []string) {
	var b strings.Builder
	b.WriteString(z3opts(rl))
	b.WriteString(s.head)
	lines := s.x.c.lines[:o.Pos]
	flagOf := func(l string) *Cand {
		if !strings.HasPrefix(l, "(assert (=> |inv:") {
			return nil
		}
		l = l[len("(assert (=> "):]
		return s.flags[l[:1+strings.Index(l[1:], "|")+1]]
	}
	var keys []string
	first := map[string]int{}
	for i, l := range lines {
		if c := flagOf(l); c != nil {
			if _, ok := first[c.loop()]; !ok {
				keys = append(keys, c.loop())
				first[c.loop()] = i
			}
		}
	}
	if o.Kind == "inv-preserve" {
		keys = []string{o.Cand.loop()}
	} else if len(keys) > n {
		keys = keys[len(keys)-n:]
	}
	of := map[string]bool{}
	for _, k := range keys {
		of[k] = true
	}
	if len(keys) == 0 {
		return "", nil
	}
	var used []string
	for i, l := range lines {
		if c := flagOf(l); c != nil {
			if !of[c.loop()] || !s.alive[c.Flag] {
				continue
			}
			used = append(used, c.Flag)
			fmt.Fprintf(&b, "(assert %s)\n", c.Flag)
		} else if strings.HasPrefix(l, fwdMark) {
			l = l[len(fwdMark):]
		} else if deep && i < first[keys[0]] && strings.HasPrefix(l, "(assert ") && strings.Contains(l, "(forall ") {
			continue
		}
		b.WriteString(l)
		b.WriteByte('\n')
	}
	fmt.Fprintf(&b, "(assert %s)\n%s(check-sat)\n", o.Guard, s.negated(o.Goal))
	return b.String(), used
}

// focused tries the obligation with the facts about its own loop only.
func (s *Solver) focused(o *Obligation, rl int) bool {
	for k := 0; k < 4; k++ {
		if o.Kind == "inv-preserve" && k%2 == 1 {
			continue
		}
		q, used := s.focus(o, rl, 1+k%2, k < 2)
		if len(used) == 0 {
			return false
		}
		if dumpDir != "" {
			os.WriteFile(fmt.Sprintf("%s/focus%d_%s.smt2", dumpDir, k, sanitize(o.Name)), []byte(q), 0o644)
		}
		t0 := time.Now()
		out, _ := runProc("z3-new", []string{"-in", "-smt2", "-T:5"}, q, 30*time.Second)
		s.mu.Lock()
		s.time += time.Since(t0).Seconds()
		s.mu.Unlock()
		if verdict(out) == "unsat" {
			o.Result = "unsat"
			o.Solver = "z3-new"
			o.Core = used
			return true
		}
	}
	return false
}

func (s *Solver) scriptCase(o *Obligation, rl int, z3 bool, extra string) string {
	var b strings.Builder
	if z3 {
		b.WriteString(z3opts(rl))
	} else {
		b.WriteString("(set-logic ALL)\n")
	}
	b.WriteString(s.head)
	for _, l := range s.x.c.lines[:o.Pos] {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	for _, c := range s.x.c.cands {
		if s.alive[c.Flag] {
			fmt.Fprintf(&b, "(assert %s)\n", c.Flag)
		}
	}
	if extra != "" {
		fmt.Fprintf(&b, "(assert %s)\n", extra)
	}
	fmt.Fprintf(&b, "(assert %s)\n%s(check-sat)\n", o.Guard, s.negated(o.Goal))
	return b.String()
}

func runProc(name string, args []string, in string, limit time.Duration) (string, error) {
	if !deadline.IsZero() {
		left := time.Until(deadline)
		if left <= 0 {
			return "time limit", nil
		}
		if left < limit {
			limit = left
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	return out.String(), err
}

// runBatch checks the obligations, sorted by position, in one process.
func (s *Solver) runBatch(obs []*Obligation, rl int) {
	var b strings.Builder
	b.WriteString(z3opts(rl))
	b.WriteString(s.head)
	pos := 0
	flags := s.flagList(0)
	for i, o := range obs {
		for ; pos < o.Pos; pos++ {
			b.WriteString(s.x.c.lines[pos])
			b.WriteByte('\n')
		}
		fmt.Fprintf(&b, "(push)\n(assert %s)\n%s(echo \"@%d\")\n(check-sat-assuming (%s))\n(get-unsat-core)\n(pop)\n", o.Guard, s.negated(o.Goal), i, flags)
	}
	t0 := time.Now()
	out, _ := runProc("z3-new", []string{"-in", "-smt2"}, b.String(), 300*time.Second)
	el := time.Since(t0).Seconds()
	s.mu.Lock()
	s.time += el
	s.mu.Unlock()
	for _, o := range obs {
		o.Result = "unknown"
		o.Core = nil
		o.Solver = "z3-new"
	}
	secs := strings.Split("\n"+out, "\n@")
	if len(secs[0]) > 1 && strings.Contains(secs[0], "error") {
		panic(fmt.Sprintf("solver input error: %s", firstLines(secs[0], 5)))
	}
	for _, sec := range secs[1:] {
		var k int
		fmt.Sscanf(sec, "%d", &k)
		ls := strings.SplitN(sec, "\n", 3)
		if len(ls) < 2 || k >= len(obs) {
			continue
		}
		o := obs[k]
		r := strings.TrimSpace(ls[1])
		if strings.HasPrefix(r, "(error") {
			panic(fmt.Sprintf("solver input error: %s", r))
		}
		o.Result = r
		if r == "unsat" && len(ls) == 3 {
			o.Core = termSyms(ls[2])
		}
	}
}

// verdict is the solver's answer, skipping warnings.
func verdict(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "WARNING") {
			return l
		}
	}
	return "no answer"
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// run checks all obligations in parallel.
func (s *Solver) run(obs []*Obligation, rl, chunk int) {
	if len(obs) == 0 {
		return
	}
	sort.SliceStable(obs, func(i, j int) bool { return obs[i].Pos < obs[j].Pos })
	n := (len(obs) + chunk - 1) / chunk
	if n < parallel && len(obs) >= parallel {
		n = parallel
	}
	if n > len(obs) {
		n = len(obs)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, parallel)
	var perr any
	for k := 0; k < n; k++ {
		lo, hi := k*len(obs)/n, (k+1)*len(obs)/n
		wg.Add(1)
		sem <- true
		go func(b []*Obligation) {
			defer func() {
				if r := recover(); r != nil {
					s.mu.Lock()
					perr = r
					s.mu.Unlock()
				}
				<-sem
				wg.Done()
			}()
			s.runBatch(b, rl)
		}(obs[lo:hi])
	}
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
}

// houdini removes candidates that are not inductive.
func (s *Solver) houdini() {
	var cobs []*Obligation
	for _, o := range s.x.c.obs {
		if o.Cand != nil {
			cobs = append(cobs, o)
		}
	}
	todo := cobs
	for round := 0; len(todo) > 0; round++ {
		t0 := time.Now()
		s.run(todo, candRl, 40)
		s.rescue(todo)
		killed := map[string]bool{}
		for _, o := range todo {
			if o.Result != "unsat" && s.alive[o.Cand.Flag] {
				if dumpDir != "" && !o.Cand.Auto {
					os.MkdirAll(dumpDir, 0o755)
					os.WriteFile(dumpDir+"/cand_"+sanitize(o.Name)+".smt2", []byte(s.script(o, finalRl, true)), 0o644)
				}
				s.alive[o.Cand.Flag] = false
				o.Cand.Alive = false
				killed[o.Cand.Flag] = true
				if verbose {
					fmt.Fprintf(os.Stderr, "    drop %s (%s)\n", o.Name, o.Result)
				}
			}
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "  houdini round %d: %d obligations, dropped %d candidates, %.1fs\n", round, len(todo), len(killed), time.Since(t0).Seconds())
		}
		todo = nil
		for _, o := range cobs {
			if !s.alive[o.Cand.Flag] {
				continue
			}
			redo := false
			for _, f := range o.Core {
				if killed[f] {
					redo = true
				}
			}
			if redo {
				todo = append(todo, o)
			}
		}
	}
}

// rescue retries the checks of contract-given candidates that failed, each
// alone in a process: results of the incremental runs depend on the order of
// the queries.
func (s *Solver) rescue(todo []*Obligation) {
	var obs []*Obligation
	for _, o := range todo {
		if o.Result != "unsat" && !o.Cand.Auto && s.alive[o.Cand.Flag] {
			obs = append(obs, o)
		}
	}
	if len(obs) > rescueMax {
		obs = obs[:rescueMax]
	}
	var wg sync.WaitGroup
	sem := make(chan bool, parallel)
	for _, o := range obs {
		o := o
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			if s.focused(o, 3*candRl) {
				return
			}
			for _, c := range rescueCfgs {
				t0 := time.Now()
				out, _ := runProc(c.name, c.args, s.script(o, 3*candRl, c.z3), 30*time.Second)
				s.mu.Lock()
				s.time += time.Since(t0).Seconds()
				s.mu.Unlock()
				if verdict(out) == "unsat" {
					s.provedAlone(o, c.name)
					return
				}
			}
			if n, ok := s.byCases(o, 3*candRl, 30*time.Second); ok {
				s.provedAlone(o, n)
			}
		}()
	}
	wg.Wait()
}

// provedAlone records a proof without a core: the whole set of live
// candidates counts as used.
func (s *Solver) provedAlone(o *Obligation, solver string) {
	o.Result = "unsat"
	o.Solver = solver
	o.Core = nil
	for f, a := range s.alive {
		if a {
			o.Core = append(o.Core, f)
		}
	}
}

type solverCfg struct {
	name string
	args []string
	z3   bool
}

var rescueMax = 48

var rescueCfgs = []solverCfg{
	{"z3-new", []string{"-in", "-smt2", "-T:6"}, true},
	{"z3-new", []string{"-in", "-smt2", "-T:6", "smt.relevancy=0"}, true},
	{"z3", []string{"-in", "-smt2", "-T:6"}, true},
	{"cvc5", []string{"--lang=smt2", "--tlimit=3000"}, false},
}

// final proves the remaining obligations, with a portfolio on difficulty.
func (s *Solver) final() []*Obligation {
	var obs []*Obligation
	for _, o := range s.x.c.obs {
		if o.Cand == nil {
			obs = append(obs, o)
		}
	}
	s.run(obs, candRl*2, 12)
	var hard []*Obligation
	for _, o := range obs {
		if o.Result != "unsat" {
			hard = append(hard, o)
		}
	}
	if verbose {
		for _, o := range hard {
			fmt.Fprintf(os.Stderr, "    hard: %s\n", o.Name)
		}
	}
	if len(hard) > 0 && (!noPortfolio || len(hard) <= 3) {
		s.portfolio(hard)
	}
	var failed []*Obligation
	for _, o := range obs {
		if o.Result == "unsat" {
			s.counts[o.Solver]++
		} else {
			failed = append(failed, o)
		}
	}
	return failed
}

// portfolio retries obligations on several solvers, alone in a process.
func (s *Solver) portfolio(obs []*Obligation) {
	var wg sync.WaitGroup
	sem := make(chan bool, parallel)
	n := 0
	for _, o := range obs {
		o := o
		n++
		if n > 40 {
			break
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			o.Output = "z3-new: " + o.Result
			if s.focused(o, finalRl/2) {
				return
			}
			for _, c := range []solverCfg{{"z3-new", []string{"-in", "-smt2", "-T:60"}, true}, {"z3-new", []string{"-in", "-smt2", "-T:30", "smt.relevancy=0"}, true}, {"z3", []string{"-in", "-smt2", "-T:30"}, true}, {"cvc5", []string{"--lang=smt2", "--tlimit=20000"}, false}} {
				t0 := time.Now()
				out, _ := runProc(c.name, c.args, s.script(o, finalRl, c.z3), 70*time.Second)
				el := time.Since(t0).Seconds()
				s.mu.Lock()
				s.time += el
				s.mu.Unlock()
				r := verdict(out)
				o.Output += fmt.Sprintf("; %s: %s (%.1fs)", c.name, r, el)
				if r == "unsat" {
					s.provedAlone(o, c.name)
					return
				}
				if r == "sat" {
					o.Result = "sat"
				}
			}
			if n, ok := s.byCases(o, finalRl, 30*time.Second); ok {
				s.provedAlone(o, n)
			}
		}()
	}
	wg.Wait()
}

// needed computes the candidates the final proofs depend on.
func (s *Solver) needed() []string {
	need := map[string]bool{}
	var work []string
	push := func(core []string) {
		for _, f := range core {
			if s.flags[f] != nil && !need[f] {
				need[f] = true
				work = append(work, f)
			}
		}
	}
	for _, o := range s.x.c.obs {
		if o.Cand == nil {
			push(o.Core)
		}
	}
	byCand := map[string][]*Obligation{}
	for _, o := range s.x.c.obs {
		if o.Cand != nil {
			byCand[o.Cand.Flag] = append(byCand[o.Cand.Flag], o)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, o := range byCand[f] {
			push(o.Core)
		}
	}
	var out []string
	for f := range need {
		out = append(out, s.flags[f].Name)
	}
	sort.Strings(out)
	return out
}

// covers checks that the assumptions are not contradictory.
func (s *Solver) covers() (bad []*Obligation) {
	s.run(s.x.covers, candRl, 4)
	reach := false
	for _, o := range s.x.covers {
		if o.Name == "cover/entry" {
			if o.Result == "unsat" {
				bad = append(bad, o)
			}
		} else if o.Result != "unsat" {
			reach = true
		} else {
			s.dead = append(s.dead, o.Where)
		}
	}
	if !reach && len(s.x.covers) > 1 {
		bad = append(bad, s.x.covers[len(s.x.covers)-1])
	}
	return bad
}
