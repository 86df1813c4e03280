package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

// hints: candidates known to be needed, per unit; only a speed-up.
type Hints map[string][]string

func loadHints(path string) Hints {
	h := Hints{}
	b, err := os.ReadFile(path)
	if err == nil {
		json.Unmarshal(b, &h)
	}
	return h
}

func (h Hints) save(path string) {
	b, _ := json.MarshalIndent(h, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

// verifyUnit proves one function against its contract.
func (w *World) verifyUnit(name string, hints Hints) (res *UnitResult) {
	t0 := time.Now()
	res = &UnitResult{Fn: name, Solver: map[string]int{}, Externs: map[string]string{}}
	defer func() {
		res.Wall = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			res.Status = "untranslatable"
			switch r := r.(type) {
			case Unsup:
				res.Msg = r.Msg
			case SpecErr:
				res.Msg = "contract: " + r.Msg
			default:
				res.Msg = fmt.Sprint(r)
				if verbose {
					debug.PrintStack()
				}
			}
		}
	}()
	c := w.byFn[name]
	fn := w.fns[name]
	if c == nil {
		res.Status, res.Msg = "untranslatable", "no contract"
		return
	}
	if fn == nil && !c.Lemma {
		res.Status, res.Msg = "missing", "function no longer exists"
		return
	}
	if fn != nil {
		res.Where = w.pos(fn.Pos())
	}
	try := func(keep map[string]bool) (*Exec, *Solver, []*Obligation) {
		x := w.translate(c, fn, keep)
		if verbose {
			fmt.Fprintf(os.Stderr, "%s: %d lines, %d obligations, %d candidates\n", name, len(x.c.lines), len(x.c.obs), len(x.c.cands))
		}
		s := newSolver(x)
		s.houdini()
		return x, s, s.final()
	}
	var x *Exec
	var s *Solver
	var failed []*Obligation
	done := false
	if hs, ok := hints[name]; ok {
		keep := map[string]bool{}
		for _, h := range hs {
			keep[h] = true
		}
		if len(hs) > 0 {
			sp := noPortfolio
			noPortfolio = true
			x, s, failed = try(keep)
			noPortfolio = sp
			done = len(failed) == 0
		}
	}
	if !done {
		x, s, failed = try(nil)
	}
	if dumpDir != "" {
		os.MkdirAll(dumpDir, 0o755)
		for _, o := range failed {
			os.WriteFile(filepath.Join(dumpDir, sanitize(name+"__"+o.Name)+".smt2"), []byte(s.script(o, finalRl, true)), 0o644)
		}
	}
	for _, o := range x.c.obs {
		if o.Cand == nil {
			res.Obs = append(res.Obs, o)
		} else if o.Cand.Alive {
			res.CandObs++
		}
	}
	res.Cands = len(x.c.cands)
	for _, cd := range x.c.cands {
		if cd.Alive {
			res.CandsKept++
		}
	}
	res.Failed = failed
	if bad := s.covers(); len(bad) > 0 {
		res.Failed = append(res.Failed, bad...)
	}
	res.Dead = s.dead
	res.Needed = s.needed()
	res.Solver = s.counts
	res.SolverTime = s.time
	for a := range x.assumptions {
		res.Assumptions = append(res.Assumptions, a)
	}
	for _, a := range x.axiomLabels {
		res.Assumptions = append(res.Assumptions, "axiom "+a)
	}
	sort.Strings(res.Assumptions)
	res.Externs = x.externs
	for k := range x.usedContracts {
		res.Contracts = append(res.Contracts, k)
	}
	sort.Strings(res.Contracts)
	for k := range x.pureUsed {
		res.Pures = append(res.Pures, k)
	}
	sort.Strings(res.Pures)
	for k := range x.inlinedFns {
		res.Inlined = append(res.Inlined, k)
	}
	sort.Strings(res.Inlined)
	res.Truncated = x.truncated
	res.Script = func(o *Obligation) string { return s.script(o, finalRl, true) }
	if len(res.Failed) == 0 {
		res.Status = "proved"
	} else {
		res.Status = "failed"
	}
	return
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '.') {
			b[i] = '_'
		}
	}
	if len(b) > 150 {
		b = b[:150]
	}
	return string(b)
}
