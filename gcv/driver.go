package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// PropUnits says which functions carry a property.
type PropUnits struct {
	Units   []string  `json:"units"`   // their contracts state the property
	Helpers []string  `json:"helpers"` // their contracts are used in the proofs of the units
	Harness []Harness `json:"harness"`
	Bounded []string  `json:"bounded"` // parts decided by the harness only
}

// Harness is an in-package test evaluating the contracts on concrete inputs.
type Harness struct {
	Pkg   string   `json:"pkg"`
	Files []string `json:"files"`
	Run   string   `json:"run"`
}

type HarnessResult struct {
	Run       string  `json:"run"`
	Status    string  `json:"status"` // passed, failed, unavailable
	Cases     int     `json:"cases"`
	Wall      float64 `json:"wall_s"`
	Output    string  `json:"-"`
	Cmd       string  `json:"cmd"`
	FailInput string  `json:"-"`
}

// Time for the solvers, less when a failing input is already known.
const (
	proofLimit          = 420 * time.Second
	proofLimitConfirmed = 90 * time.Second
)

type checker struct {
	w       *World
	prop    string
	spec    PropUnits
	tier    string
	seed    int
	repo    string
	verif   string
	hints   Hints
	results map[string]*UnitResult
	retried map[string]bool
	total   float64
}

func runCheck(repo, verif, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var props map[string]PropUnits
	b, err := os.ReadFile(filepath.Join(verif, "contracts", "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &props)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ps, ok := props[prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "no property %s\n", prop)
		return 2
	}
	w, err := loadWorld(repo, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := w.loadSpecs(filepath.Join(verif, "contracts")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := &checker{w: w, prop: prop, spec: ps, tier: tier, seed: seed, repo: repo, verif: verif, results: map[string]*UnitResult{}, retried: map[string]bool{}}
	c.hints = loadHints(filepath.Join(verif, "contracts", "hints.json"))
	if len(w.fns) == 0 {
		fmt.Fprintln(os.Stderr, "no function of the module was loaded")
		return 2
	}
	var hrs []*HarnessResult
	limit := proofLimit
	for _, h := range ps.Harness {
		r := c.harness(h)
		if r.Status == "failed" {
			limit = proofLimitConfirmed
		}
		hrs = append(hrs, r)
	}
	deadline = time.Now().Add(limit)
	failed, untr := c.prove()
	replay := filepath.Join(verif, "replays", prop+".txt")
	os.Remove(replay)
	var confirmed []*HarnessResult
	for _, h := range hrs {
		if h.Status == "failed" {
			confirmed = append(confirmed, h)
		}
	}
	violations := len(failed)
	if len(confirmed) > 0 {
		violations += len(confirmed)
	}
	c.evidence(hrs, failed, untr, violations, time.Since(t0).Seconds())
	c.report(hrs, failed, untr)
	c.knownFindings()
	if violations == 0 {
		if len(untr) > 0 {
			passed := false
			for _, h := range hrs {
				passed = passed || h.Status == "passed"
			}
			if !passed {
				fmt.Fprintln(os.Stderr, "cannot decide: neither proved nor checked at run time")
				return 2
			}
		}
		return 0
	}
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.WriteFile(replay, []byte(c.replayText(failed, untr, confirmed)), 0o644)
	suffix := ""
	if len(confirmed) == 0 {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, suffix)
	return 1
}

// prove verifies the units and helpers of the property. A helper whose own
// contract no longer holds is not a violation if the units can be proved with
// its body in place of its contract.
func (c *checker) prove() (failed, untr []*UnitResult) {
	top := map[string]bool{}
	var all []string
	for _, u := range c.spec.Units {
		top[u] = true
		all = append(all, u)
	}
	for _, h := range c.spec.Helpers {
		if !top[h] {
			all = append(all, h)
		}
	}
	for _, u := range all {
		c.results[u] = c.w.verifyUnit(u, c.hints)
		c.total += c.results[u].SolverTime
	}
	bad := map[string]bool{}
	translated := map[string]bool{}
	for _, u := range all {
		translated[u] = c.results[u].Status == "proved" || c.results[u].Status == "failed"
	}
	for {
		changed := false
		for _, u := range all {
			if !top[u] && c.results[u].Status != "proved" && !bad[u] {
				bad[u] = true
				c.w.inlined[u] = true
				changed = true
			}
		}
		if !changed {
			break
		}
		for _, u := range all {
			if bad[u] {
				continue
			}
			uses := false
			for _, k := range c.results[u].Contracts {
				if bad[k] {
					uses = true
				}
			}
			if uses || c.results[u].Status != "proved" {
				c.retry(u)
			}
		}
	}
	// last resort for the units: all helpers in line
	for _, u := range all {
		if top[u] && c.results[u].Status != "proved" {
			save := map[string]bool{}
			for k, v := range c.w.inlined {
				save[k] = v
			}
			n := 0
			for _, h := range c.results[u].Contracts {
				if c.w.fns[h] != nil && !c.w.byFn[h].Trusted && h != u {
					c.w.inlined[h] = true
					n++
				}
			}
			if n > 0 {
				c.retry(u)
			}
			c.w.inlined = save
		}
	}
	// A unit that cannot be translated with bodies in place of failed contracts
	// is not proved: the failed contracts count.
	lost := false
	for _, u := range all {
		if !bad[u] && translated[u] && c.results[u].Status != "proved" && c.results[u].Status != "failed" {
			lost = true
		}
	}
	for _, u := range all {
		if bad[u] {
			// replaced by its body; accepted if the units are proved
			if c.results[u].Status == "failed" && lost {
				failed = append(failed, c.results[u])
			}
			c.results[u].Replaced = true
			continue
		}
		switch c.results[u].Status {
		case "proved":
		case "failed":
			failed = append(failed, c.results[u])
		default:
			untr = append(untr, c.results[u])
		}
	}
	return
}

func (c *checker) retry(u string) {
	c.retried[u] = true
	old := c.results[u]
	r := c.w.verifyUnit(u, c.hints)
	c.total += r.SolverTime
	if r.Status == "proved" || old.Status == "proved" {
		c.results[u] = r
	}
	// otherwise keep the first, modular, result: it names the obligations
}

func (c *checker) harness(h Harness) *HarnessResult {
	t0 := time.Now()
	r := &HarnessResult{Run: h.Run, Status: "unavailable"}
	defer func() { r.Wall = time.Since(t0).Seconds() }()
	dir, err := os.MkdirTemp("", "verif-h")
	if err != nil {
		r.Output = err.Error()
		return r
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	for _, f := range h.Files {
		rep[filepath.Join(c.repo, h.Pkg, filepath.Base(f))] = filepath.Join(c.verif, f)
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	args := []string{"test", "-vet=off", "-overlay", of, "-count=1", "-timeout", "400s", "-v", "-run", "^(" + h.Run + ")$", "./" + h.Pkg}
	r.Cmd = "go " + strings.Join(args, " ")
	cmd := exec.Command("go", args...)
	cmd.Dir = c.repo
	cmd.Env = append(os.Environ(), "VERIF_TIER="+c.tier, fmt.Sprintf("VERIF_SEED=%d", c.seed), "VERIF_DIR="+c.verif, "VERIF_SCRATCH="+dir)
	out, err := cmd.CombinedOutput()
	r.Output = string(out)
	sc := bufio.NewScanner(strings.NewReader(r.Output))
	sc.Buffer(nil, 1<<24)
	ran := false
	for sc.Scan() {
		l := sc.Text()
		if i := strings.Index(l, "VERIF-CASES "); i >= 0 {
			n, _ := strconv.Atoi(strings.TrimSpace(l[i+12:]))
			r.Cases += n
			ran = true
		}
		if i := strings.Index(l, "VERIF-FAIL: "); i >= 0 && r.FailInput == "" {
			r.FailInput = l[i+12:]
		}
	}
	switch {
	case r.FailInput != "":
		r.Status = "failed"
	case err == nil && ran:
		r.Status = "passed"
	case err != nil && strings.Contains(r.Output, "panic: ") && !strings.Contains(r.Output, "panic: test timed out"):
		r.Status = "failed"
		r.FailInput = "the code under test panicked; see the output below"
	}
	return r
}

func (c *checker) report(hrs []*HarnessResult, failed, untr []*UnitResult) {
	var names []string
	for n := range c.results {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r := c.results[n]
		k := 0
		for _, o := range r.Obs {
			if o.Result == "unsat" {
				k++
			}
		}
		note := ""
		if r.Replaced {
			note = " (its body was used instead)"
		}
		fmt.Printf("%-14s %s: %d/%d obligations, %d invariants, %.1fs%s %s\n", r.Status, n, k, len(r.Obs), r.CandsKept, r.Wall, note, r.Msg)
		for _, o := range r.Failed {
			fmt.Printf("    not discharged: %s [%s] at %s\n", o.Name, o.Label, o.Where)
		}
	}
	for _, h := range hrs {
		fmt.Printf("harness %s: %s, %d cases (bounded), %.1fs\n", h.Run, h.Status, h.Cases, h.Wall)
		if h.Status == "unavailable" {
			fmt.Println(firstLines(h.Output, 12))
		}
	}
}

func (c *checker) knownFindings() {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "open: "); ok && strings.HasPrefix(rest, "property="+c.prop+" ") {
			fmt.Println("KNOWN-FINDING: " + rest)
		}
	}
}

func (c *checker) replayText(failed, untr []*UnitResult, confirmed []*HarnessResult) string {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", c.prop)
	for _, h := range confirmed {
		fmt.Fprintf(&b, "FAILING INPUT found by %s on the real code:\n  %s\n\nreplay (from %s):\n  . /opt/vp/env.sh; VERIF_TIER=%s VERIF_SEED=%d bash %s/check.sh %s\n\noutput:\n%s\n\n", h.Run, h.FailInput, c.verif, c.tier, c.seed, c.verif, c.prop, tail(h.Output, 6000))
	}
	for _, r := range failed {
		fmt.Fprintf(&b, "contract of %s (%s) not established:\n", r.Fn, r.Where)
		for _, o := range r.Failed {
			fmt.Fprintf(&b, "  obligation %s\n    kind     %s\n    clause   [%s] %s\n    at       %s\n    verifier %s %s\n", o.Name, o.Kind, o.Label, o.Src, o.Where, o.Result, o.Output)
		}
		b.WriteByte('\n')
	}
	for _, r := range c.results {
		if r.Replaced && r.Status == "failed" {
			fmt.Fprintf(&b, "contract of %s (%s) no longer holds (its body was used instead):\n", r.Fn, r.Where)
			for _, o := range r.Failed {
				fmt.Fprintf(&b, "  obligation %s [%s] %s at %s\n", o.Name, o.Label, o.Src, o.Where)
			}
			b.WriteByte('\n')
		}
	}
	for _, r := range untr {
		fmt.Fprintf(&b, "%s could not be translated: %s\n", r.Fn, r.Msg)
	}
	if len(confirmed) == 0 {
		b.WriteString("\nno failing input was found\n")
	}
	for _, r := range failed {
		for i, o := range r.Failed {
			if i < 2 && r.Script != nil {
				fmt.Fprintf(&b, "\n; ---- SMT-LIB query of %s ----\n%s", o.Name, tail(r.Script(o), 40000))
			}
		}
	}
	return b.String()
}

func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return "...\n" + s[len(s)-n:]
}

var wsRe = regexp.MustCompile(`\s+`)

func (c *checker) evidence(hrs []*HarnessResult, failed, untr []*UnitResult, violations int, wall float64) {
	obs, dis, invs := 0, 0, 0
	back := map[string]int{}
	var fns []any
	assume := map[string]bool{}
	trusted := map[string]bool{}
	bounded := append([]string(nil), c.spec.Bounded...)
	var names []string
	for n := range c.results {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r := c.results[n]
		if r.Replaced {
			continue
		}
		k := 0
		for _, o := range r.Obs {
			if o.Result == "unsat" {
				k++
			}
		}
		obs += len(r.Obs) + r.CandObs
		dis += k + r.CandObs
		invs += r.CandsKept
		for s, m := range r.Solver {
			back[s] += m
		}
		fns = append(fns, map[string]any{"function": n, "at": r.Where, "status": r.Status, "obligations": len(r.Obs), "discharged": k, "invariants": r.CandsKept,
			"invariant_obligations": r.CandObs, "solver_s": round(r.SolverTime), "inlined": r.Inlined, "callee_contracts_used": r.Contracts, "message": r.Msg, "unreachable_returns": r.Dead})
		for _, a := range r.Assumptions {
			assume[a] = true
		}
		for k, d := range r.Externs {
			trusted["built-in model of "+k+": "+d] = true
		}
		for _, k := range r.Contracts {
			if cc := c.w.byFn[k]; cc != nil {
				if cc.Trusted {
					trusted["trusted contract of "+k] = true
				} else if c.results[k] == nil {
					assume["contract of "+k+" (proved as an obligation of another property's check)"] = true
				}
			}
		}
		for _, k := range r.Pures {
			trusted["pure function of its arguments, otherwise uninterpreted: "+k] = true
		}
		if r.Status != "proved" && r.Status != "failed" {
			bounded = append(bounded, n+": "+r.Msg)
		}
	}
	for _, s := range []string{
		"gcv (the condition generator in /verif/gcv), go/ssa as the translation of the source, z3 and cvc5",
		"integers are mathematical; nil dereferences, type-assertion panics and termination are not checked (partial correctness)",
		"no concurrent modification while a function runs"} {
		assume[s] = true
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof", "wall_s": round(wall), "violations": violations,
		"assumptions": keys(assume),
		"coverage": map[string]any{
			"obligations": obs, "discharged": dis, "loop_invariants": invs, "checker_cmd": "bash check.sh " + c.prop,
			"trusted_base": keys(trusted), "functions": fns, "discharged_by": back, "solver_s": round(c.total),
			"bounded_stand_ins": bounded, "bounded_runtime_checks": hrs,
		},
	}
	if len(c.results) == 0 {
		ev["level"] = "exploration"
		n := 0
		for _, h := range hrs {
			n += h.Cases
		}
		ev["coverage"].(map[string]any)["evaluations"] = n
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, wsRe.ReplaceAllString(k, " "))
	}
	sort.Strings(out)
	return out
}
