package main

import (
	"fmt"
	"go/types"
	"maps"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// UnitResult is the outcome of verifying one function against its contract.
type UnitResult struct {
	Fn          string
	Status      string // proved, failed, untranslatable
	Msg         string
	Obs         []*Obligation // final obligations (not candidate checks)
	CandObs     int
	Cands       int
	CandsKept   int
	Failed      []*Obligation
	Assumptions []string
	Externs     map[string]string
	Contracts   []string // contracts of callees relied on
	Pures       []string
	Inlined     []string
	Solver      map[string]int
	SolverTime  float64
	Wall        float64
	Where       string
	Needed      []string // candidates the proof uses
	Script      func(o *Obligation) string
	Truncated   []string
	Dead        []string
	Replaced    bool // a helper whose body was used instead of its contract
}

func newExec(w *World, c *Contract) *Exec {
	x := &Exec{w: w, c: newCtx(), unit: c, sf: w.specOf[c], assumed: map[string]*LoopRec{}, rec: map[string]*LoopRec{}, written: map[string]bool{},
		compSort: map[string]string{"A": "Int"}, compT: map[string]types.Type{}, ips: map[string][]string{}, vars: map[string]Val{}, cbs: map[string]*Callback{},
		assumptions: map[string]bool{}, usedContracts: map[string]bool{}, lfpOn: map[string]bool{}, axiomsDone: map[string]bool{}, pureUsed: map[string]bool{},
		externs: map[string]string{}, inert: map[string]string{}, inlinedFns: map[string]bool{}}
	return x
}

func (w *World) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

// translate runs the symbolic execution until the loop modification sets are
// stable, and returns the final Exec.
func (w *World) translate(c *Contract, fn *ssa.Function, keep map[string]bool) *Exec {
	assumed := map[string]*LoopRec{}
	ips := map[string][]string{}
	var prev *Exec
	for iter := 0; ; iter++ {
		if iter > 16 {
			unsup("loop modification sets do not stabilise in %s", fn)
		}
		x := newExec(w, c)
		x.fn = fn
		x.prev = prev
		prev = x
		x.assumed = assumed
		x.ips = ips
		if keep != nil {
			x.keep = keep
		}
		x.noCands = false
		x.run()
		stable := !x.changed
		for key, r := range x.rec {
			a := assumed[key]
			if a == nil {
				a = &LoopRec{key: key, mods: map[string]*ModInfo{}}
				assumed[key] = a
				stable = false
			}
			for comp, m := range r.mods {
				am := a.mods[comp]
				if am == nil {
					am = &ModInfo{Targets: map[string]bool{}}
					a.mods[comp] = am
					stable = false
				}
				if m.Unknown && !am.Unknown {
					am.Unknown = true
					stable = false
				}
				if m.Fresh && !am.Fresh {
					am.Fresh = true
					stable = false
				}
				for t := range m.Targets {
					if !am.Targets[t] {
						am.Targets[t] = true
						if len(am.Targets) > 12 {
							am.Unknown = true
						}
						stable = false
					}
				}
			}
		}
		if stable {
			return x
		}
	}
}

func (x *Exec) run() {
	c, fn := x.unit, x.fn
	x.st0 = newState()
	x.A0 = x.A(x.st0)
	x.c.decls = append(x.c.decls, fmt.Sprintf("(assert (>= %s 1000))", x.A0))
	if c.Lemma {
		e := x.ev(x.sf.Pkg, x.st0, x.st0, x.vars)
		for _, r := range c.Requires {
			x.c.assume("true", e.boolT(r.E))
		}
		for _, en := range c.Ensures {
			x.oblige(&Obligation{Kind: "lemma", Label: "lemma " + en.Label, Name: "lemma:" + en.Label, Guard: "true", Goal: e.boolT(en.E), Src: en.Src})
		}
		return
	}
	if len(c.Params) != len(fn.Params) {
		specErr("contract of %s names %d parameters, the function has %d", c.Fn, len(c.Params), len(fn.Params))
	}
	if len(c.Results) > 0 && len(c.Results) != fn.Signature.Results().Len() {
		specErr("contract of %s names %d results, the function has %d", c.Fn, len(c.Results), fn.Signature.Results().Len())
	}
	st := newState()
	fr := &Frame{id: "f", fn: fn, env: map[ssa.Value]Val{}}
	x.top = fr
	for i, p := range fn.Params {
		s := x.c.sortOf(p.Type())
		n := q("in:" + c.Params[i])
		x.c.decl("sym:"+n, fmt.Sprintf("(declare-const %s %s)", n, s))
		v := term(p.Type(), s, n)
		for _, cs := range c.Callbacks {
			if cs.Name == c.Params[i] {
				sig, ok := under(p.Type()).(*types.Signature)
				if !ok {
					specErr("%s is not a function", cs.Name)
				}
				if len(cs.Params) != sig.Params().Len() {
					specErr("callback %s has %d parameters", cs.Name, sig.Params().Len())
				}
				cb := x.newCallback("G:called:"+cs.Name, cs, sig, x.keyTypes(cs, sig, x.sf))
				x.cbs[cs.Name] = cb
				v.CB = cb
				if !cs.Opt {
					x.c.assume("true", "(> "+n+" 0)")
				}
			}
		}
		fr.env[p] = v
		x.vars[c.Params[i]] = v
		x.wf("true", x.st0, v)
		if x.c.sortOf(p.Type()) == "Int" {
			if _, ok := under(p.Type()).(*types.Map); ok {
				x.c.assume("true", "(>= "+n+" 0)")
			}
		}
	}
	var cells = map[string][]string{}
	for _, f := range fn.FreeVars {
		s := x.c.sortOf(f.Type())
		n := q("fv:" + f.Name())
		x.c.decl("sym:"+n, fmt.Sprintf("(declare-const %s %s)", n, s))
		v := term(f.Type(), s, n)
		fr.env[f] = v
		x.vars[f.Name()] = v
		x.wf("true", x.st0, v)
		if pt, ok := under(f.Type()).(*types.Pointer); ok {
			k := tkey(pt.Elem())
			x.c.assume("true", "(> "+n+" 0)")
			for _, o := range cells[k] {
				x.c.assume("true", not(eq(o, n)))
			}
			cells[k] = append(cells[k], n)
			for _, cs := range c.Callbacks {
				if cs.Name != f.Name() || !cs.Shared {
					continue
				}
				sig, ok := under(pt.Elem()).(*types.Signature)
				if !ok {
					specErr("%s is not a function", cs.Name)
				}
				x.cbs[cs.Name] = x.newCallback("G:called:"+cs.Name, cs, sig, x.keyTypes(cs, sig, x.sf))
			}
		}
	}
	for _, cs := range c.Callbacks {
		if x.cbs[cs.Name] == nil {
			specErr("%s has no function %s to call", c.Fn, cs.Name)
		}
	}
	for _, cb := range x.cbs {
		if cb.Spec.Shared {
			continue
		}
		x.initCallback(st, cb)
		x.initCallback(x.st0, cb)
	}
	x.initEvents(st)
	for _, n := range c.Initial {
		x.initialGlobal(x.sf.Pkg, n)
	}
	ev := x.ev(x.sf.Pkg, x.st0, x.st0, x.vars)
	for _, r := range append(append([]*Clause(nil), c.Requires...), c.Lemmas...) {
		x.c.assume("true", ev.boolT(r.E))
	}
	x.covers = append(x.covers, &Obligation{Kind: "cover", Name: "cover/entry", Label: "preconditions are consistent", Pos: len(x.c.lines), Guard: "true", Goal: "false"})
	rets := x.execFn(fr, st, "true")
	for k, r := range rets {
		vars := map[string]Val{}
		for n, v := range x.vars {
			vars[n] = v
		}
		for i, n := range c.Results {
			vars[n] = r.vals[i]
			if r.vals[i].Kind == KTerm && r.vals[i].S == "" && r.vals[i].Elems != nil {
				fr.guard = r.guard
				v := r.vals[i]
				v.S = x.materialise(fr, r.st, &v)
				v.Elems = nil
				vars[n] = v
			}
		}
		e := x.ev(x.sf.Pkg, r.st, x.st0, vars)
		for _, en := range c.Ensures {
			x.oblige(&Obligation{Kind: "ensures", Label: "ensures " + en.Label, Name: fmt.Sprintf("ensures:%s@ret%d", en.Label, k), Guard: r.guard, Goal: e.boolT(en.E), Where: x.w.pos(r.pos), Src: en.Src})
		}
		x.frame(r, k)
		x.covers = append(x.covers, &Obligation{Kind: "cover", Name: fmt.Sprintf("cover/ret%d", k), Label: "return is reachable", Pos: len(x.c.lines), Guard: r.guard, Goal: "false", Where: x.w.pos(r.pos)})
	}
}

// frame emits the obligation that only what modifies allows has changed.
func (x *Exec) frame(r retRec, k int) {
	if x.unit != nil && strings.HasSuffix(x.unit.Fn, ".main") {
		return // nothing runs after main
	}
	var comps []string
	for comp := range x.written {
		if comp == "A" || strings.HasPrefix(comp, "L:") || strings.HasPrefix(comp, "G:") {
			continue
		}
		comps = append(comps, comp)
	}
	sort.Strings(comps)
	mods := x.unitMods()
	for _, comp := range comps {
		h, h0 := x.H(r.st, comp), x.H(x.st0, comp)
		if h == h0 {
			continue
		}
		sk := x.c.fresh(fmt.Sprintf("frame.%d.%s", k, comp), "Int")
		x.oblige(&Obligation{Kind: "frame", Label: "modifies nothing else of " + comp, Name: fmt.Sprintf("frame:%s@ret%d", comp, k), Guard: and(r.guard, not(eq(sk, "0")), "(< "+sk+" "+x.A0+")", keepCond(mods[comp], sk)), Goal: eq(sel(h, sk), sel(h0, sk)), Where: x.w.pos(r.pos), Src: "frame"})
	}
}

// axioms evaluates the declared axioms relevant to the symbols in the script.
func (x *Exec) axioms() []string {
	used := map[string]bool{}
	scan := func(t string) {
		for _, s := range termSyms(t) {
			used[s] = true
		}
	}
	for _, l := range x.c.lines {
		scan(l)
	}
	for _, d := range x.c.decls {
		scan(d)
	}
	for _, o := range x.c.obs {
		scan(o.Goal)
	}
	type ax struct {
		f    string
		syms []string
	}
	var opaque map[string]bool
	if x.unit != nil {
		opaque = x.unit.Opaque
		for f := range x.inlinedFns {
			if x.w.byFn[f] != nil {
				opaque = nil // a contract is not used, so what it hides may be needed
			}
		}
	}
	var out []string
	done := map[*Clause]bool{}
	for {
		added := false
		for _, sf := range x.w.specs {
			if sf.Pkg != x.sf.Pkg {
				continue
			}
			for _, a := range sf.Axioms {
				if done[a] || opaque[a.Label] {
					continue
				}
				nd := len(x.c.decls)
				saveDecl, saveLits, saveDts, saveTypes, saveLfp := maps.Clone(x.c.declared), maps.Clone(x.c.strLits), maps.Clone(x.c.dts), maps.Clone(x.c.sortTypes), maps.Clone(x.lfpOn)
				e := &Ev{x: x, pkg: sf.Pkg, st: x.st0, old: x.st0, vars: map[string]Val{}, axiom: true}
				f := e.boolT(a.E)
				if !relevant(f, used) {
					x.c.decls = x.c.decls[:nd]
					x.c.declared, x.c.strLits, x.c.dts, x.c.sortTypes, x.lfpOn = saveDecl, saveLits, saveDts, saveTypes, saveLfp
					continue
				}
				done[a] = true
				added = true
				out = append(out, "(assert "+f+")")
				scan(f)
				for _, d := range x.c.decls[nd:] {
					scan(d)
				}
				x.axiomLabels = append(x.axiomLabels, a.Label+": "+a.Src)
			}
		}
		if !added {
			return out
		}
	}
}

// relevant reports whether an axiom can have any use in a script with the
// symbols used: all the specification symbols of one of its patterns occur.
func relevant(f string, used map[string]bool) bool {
	pats := []string{f}
	if strings.HasPrefix(f, "(forall ") {
		if b := splitArgs(f)[2]; strings.HasPrefix(b, "(! ") {
			pats = nil
			as := splitArgs(b)
			for i := 2; i+1 < len(as); i += 2 {
				if as[i] == ":pattern" {
					pats = append(pats, as[i+1])
				}
			}
		}
	}
	specSym := func(s string) bool {
		return strings.HasPrefix(s, "|p:") || strings.HasPrefix(s, "|spec:") || strings.HasPrefix(s, "|lfp:")
	}
	any := false
	for _, p := range pats {
		all, n := true, 0
		for _, s := range termSyms(p) {
			if specSym(s) {
				n++
				all = all && used[s]
			}
		}
		if n > 0 && all {
			return true
		}
		any = any || n > 0
	}
	if any {
		return false
	}
	for _, s := range termSyms(f) {
		if specSym(s) {
			any = true
			if used[s] {
				return true
			}
		}
	}
	return !any
}

// ---- events ----

func (x *Exec) eventComp(name string, vs []Val) string {
	so := "Bool"
	for i := len(vs) - 1; i >= 0; i-- {
		s := vs[i].Sort
		if s == "" {
			s = x.c.sortOf(vs[i].T)
		}
		so = "(Array " + s + " " + so + ")"
	}
	return x.comp("G:ev:"+name+":"+so, so)
}

func (x *Exec) initEvents(st *State) {}

func (x *Exec) emit(fr *Frame, st *State, ev *EventSpec, vars map[string]Val, sf *SpecFile) {
	e := x.ev(sf.Pkg, st, st, vars)
	var vs []Val
	var ks []string
	for _, a := range ev.Args {
		v := e.eval(a)
		vs = append(vs, v)
		ks = append(ks, e.termOf(v))
	}
	comp := x.eventComp(ev.Name, vs)
	if len(ks) == 0 {
		st.heap[comp] = "true"
		x.recordWrite(fr, comp, "")
		return
	}
	var upd func(t string, ks []string) string
	upd = func(t string, ks []string) string {
		if len(ks) == 1 {
			return store(t, ks[0], "true")
		}
		return store(t, ks[0], upd(sel(t, ks[0]), ks[1:]))
	}
	x.setH(st, comp, upd(x.H(st, comp), ks))
	x.recordWrite(fr, comp, "")
}

func (e *Ev) emitted(name string, vs []Val) string {
	x := e.x
	comp := x.eventComp(name, vs)
	t := x.H(e.st, comp)
	for _, v := range vs {
		t = sel(t, e.termOf(v))
	}
	return t
}
