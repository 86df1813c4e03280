package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	heap  map[string]string
	known map[string]Val
}

func newState() *State { return &State{heap: map[string]string{}, known: map[string]Val{}} }

func (s *State) clone() *State {
	n := newState()
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	return n
}

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type deferRec struct {
	guard string
	call  *ssa.Defer
	fn    Val
	args  []Val
}

type Frame struct {
	id     string
	fn     *ssa.Function
	parent *Frame
	env    map[ssa.Value]Val
	cur    *ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*Loop
	ghosts []*LoopRec // ghost loops this activation runs inside
	defers []deferRec
	guard  string
	progs  map[*Loop]*ProgSet
	gprogs []*ProgSet
}

type ModInfo struct {
	Targets map[string]bool
	Unknown bool
	Fresh   bool
}

type LoopRec struct {
	key      string
	headLine int
	mods     map[string]*ModInfo
}

func (l *LoopRec) mod(comp string) *ModInfo {
	m := l.mods[comp]
	if m == nil {
		m = &ModInfo{Targets: map[string]bool{}}
		l.mods[comp] = m
	}
	return m
}

// ProgSet is the progress of an iteration: the elements already processed.
type ProgSet struct {
	loopKey string
	elemT   types.Type
	// slice form
	slice *BoundVal
	phi   *ssa.Phi
	plus  int
	fr    *Frame
	// map form
	seenComp string
	cur      ssa.Value // current key (Extract #1 of Next, or Next)
	curFr    *Frame
	okv      ssa.Value
	mapT     *types.Map
	name     string
	cb       *Callback // set of callback keys already called
}

type Obligation struct {
	Name   string
	Kind   string
	Label  string
	Pos    int
	Guard  string
	Goal   string
	Cand   *Cand
	Where  string
	Src    string
	Result string
	Core   []string
	Solver string
	Time   float64
	Output string
	Model  string
}

type Cand struct {
	Name  string
	Flag  string
	Alive bool
	Auto  bool
	Src   string
	eval  func(phi map[*ssa.Phi]Val, st *State) string
	Label string
}

type Callback struct {
	Spec *CallbackSpec
	Sig  *types.Signature
	Comp string // ghost component with the set of keys called
	Name string
	KeyT []types.Type
}

type Exec struct {
	w             *World
	c             *Ctx
	unit          *Contract
	sf            *SpecFile
	fn            *ssa.Function
	assumed       map[string]*LoopRec
	rec           map[string]*LoopRec
	written       map[string]bool
	st0           *State
	A0            string
	compSort      map[string]string
	compT         map[string]types.Type
	ips           map[string][]string // type key -> field components with interior pointers
	top           *Frame
	vars          map[string]Val // contract parameter names
	cbs           map[string]*Callback
	depth         int
	dry           bool
	changed       bool
	assumptions   map[string]bool
	usedContracts map[string]bool
	covers        []*Obligation
	macroDepth    int
	lfpOn         map[string]bool
	termMode      bool     // a function is being turned into a term
	termLines     []string // declarations of the results of calls in such terms
	stack         []string
	axiomsDone    map[string]bool
	nq, nspec     int
	pureUsed      map[string]bool
	externs       map[string]string
	inert         map[string]string // function values without effect, and where they come from
	inlinedFns    map[string]bool
	keep          map[string]bool // the candidates to generate, if not all
	scopes        map[string]bool // the functions that invariants are restricted to
	phiFrame      *Frame
	curPhiEntry   map[*ssa.Phi]Val
	umods         map[string][]modTarget
	truncated     []string
	noCands       bool
	prev          *Exec // the previous run of the translation
	axiomLabels   []string
}

// ---- heap components ----

func (x *Exec) comp(name, sort string) string {
	if _, ok := x.compSort[name]; !ok {
		x.compSort[name] = sort
	}
	return name
}

func (x *Exec) compF(t types.Type, i int) string {
	u := under(t).(*types.Struct)
	n := fmt.Sprintf("F:%s.%s", tkey(t), u.Field(i).Name())
	x.compT[n] = u.Field(i).Type()
	return x.comp(n, "(Array Int "+x.c.sortOf(u.Field(i).Type())+")")
}

// compGF is the component of a ghost field.
func (x *Exec) compGF(t types.Type, name string) (string, types.Type) {
	gt := x.w.ghostF[tkey(t)+"."+name]
	if gt == nil {
		return "", nil
	}
	return x.comp("F:"+tkey(t)+"."+name, "(Array Int "+x.c.sortOf(gt)+")"), gt
}

func (x *Exec) compC(t types.Type) string {
	n := "C:" + tkey(t)
	x.compT[n] = t
	return x.comp(n, "(Array Int "+x.c.sortOf(t)+")")
}

func (x *Exec) compE(t types.Type) string {
	n := "E:" + tkey(t)
	x.compT[n] = t
	return x.comp(n, "(Array Int (Array Int "+x.c.sortOf(t)+"))")
}

func mapKeyName(m *types.Map) string { return tkey(m.Key()) + "=>" + tkey(m.Elem()) }

func (x *Exec) compMD(m *types.Map) string {
	x.compT["MD:"+mapKeyName(m)] = m.Key()
	return x.comp("MD:"+mapKeyName(m), "(Array Int (Array "+x.c.sortOf(m.Key())+" Bool))")
}

func (x *Exec) compMV(m *types.Map) string {
	x.compT["MV:"+mapKeyName(m)] = m.Elem()
	return x.comp("MV:"+mapKeyName(m), "(Array Int (Array "+x.c.sortOf(m.Key())+" "+x.c.sortOf(m.Elem())+"))")
}

func (x *Exec) H(st *State, comp string) string {
	if t, ok := st.heap[comp]; ok {
		return t
	}
	if strings.HasPrefix(comp, "G:ev:") {
		return constFalse(x.compSort[comp]) // nothing has happened yet
	}
	s := q("H0:" + comp)
	if !x.c.declared["sym:"+s] {
		x.c.decl("sym:"+s, fmt.Sprintf("(declare-const %s %s)", s, x.compSort[comp]))
		if t := x.compT[comp]; t != nil && comp != "A" {
			x.closed(comp, s, t)
		}
	}
	return s
}

// closed states that the entry heap refers to allocated objects only.
func (x *Exec) closed(comp, h string, t types.Type) {
	lim := func(v string) string {
		switch under(t).(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			return "(< " + v + " " + x.A0 + ")"
		case *types.Slice:
			return "(< (s.ref " + v + ") " + x.A0 + ")"
		}
		return ""
	}
	if strings.HasPrefix(comp, "MV:") || strings.HasPrefix(comp, "MD:") {
		v := "(select (select " + h + " r) k)"
		l := lim(v)
		if comp[1] == 'D' {
			if l = lim("k"); l != "" {
				l = implies(v, l)
			}
		}
		if l != "" {
			inner := arrayElemSort(x.compSort[comp])
			ks := strings.TrimSuffix(strings.TrimPrefix(inner, "(Array "), " "+arrayElemSort(inner)+")")
			x.c.decls = append(x.c.decls, fmt.Sprintf("(assert (forall ((r Int) (k %s)) (! (=> (< r %s) %s) :pattern (%s))))", ks, x.A0, l, v))
		}
		return
	}
	switch comp[:2] {
	case "F:", "C:":
		v := "(select " + h + " r)"
		if l := lim(v); l != "" {
			x.c.decls = append(x.c.decls, fmt.Sprintf("(assert (forall ((r Int)) (! (=> (< r %s) %s) :pattern (%s))))", x.A0, l, v))
		}
	case "E:":
		v := "(select (select " + h + " r) p)"
		if l := lim(v); l != "" {
			x.c.decls = append(x.c.decls, fmt.Sprintf("(assert (forall ((r Int) (p Int)) (! (=> (< r %s) %s) :pattern (%s))))", x.A0, l, v))
		}
	}
}

func constFalse(sort string) string {
	if !strings.HasPrefix(sort, "(Array") {
		return "false"
	}
	return "((as const " + sort + ") " + constFalse(arrayElemSort(sort)) + ")"
}

func (x *Exec) setH(st *State, comp, t string) {
	st.heap[comp] = x.c.define("H:"+comp, x.compSort[comp], t)
}

func (x *Exec) A(st *State) string { return x.H(st, "A") }

// recordWrite notes a write for loop havocs and frame conditions.
func (x *Exec) recordWrite(fr *Frame, comp, ref string) {
	x.written[comp] = true
	note := func(key string) {
		l := x.rec[key]
		if l == nil {
			return
		}
		m := l.mod(comp)
		if ref == "" {
			m.Unknown = true
			return
		}
		inv := true
		for _, s := range termSyms(ref) {
			if ln, ok := x.c.lineOf[s]; ok && ln >= l.headLine {
				inv = false
			}
		}
		switch {
		case inv:
			m.Targets[ref] = true
		case x.c.alloc[ref]:
			m.Fresh = true
		default:
			m.Unknown = true
		}
	}
	for f := fr; f != nil; f = f.parent {
		for _, l := range f.loops {
			if l.body[f.cur] {
				note(loopKey(f, l))
			}
		}
		for _, g := range f.ghosts {
			note(g.key)
		}
	}
}

func loopKey(f *Frame, l *Loop) string { return fmt.Sprintf("%s@%d", f.id, l.head.Index) }

func (x *Exec) allocRef(fr *Frame, st *State, name string) string {
	r := x.c.fresh(name, "Int")
	x.c.alloc[r] = true
	a := x.A(st)
	x.c.lines = append(x.c.lines, fmt.Sprintf("(assert (= %s %s))", r, a))
	st.heap["A"] = x.c.define("A", "Int", add(a, "1"))
	// Keep allocation counters symbolic so that writes are tracked per loop.
	x.recordWrite(fr, "A", "")
	return r
}

// ---- addresses ----

func (x *Exec) deref(v Val) *Addr {
	if v.Kind == KAddr {
		return v.Addr
	}
	pt, ok := under(v.T).(*types.Pointer)
	if !ok {
		unsup("deref of %v", v.T)
	}
	t := pt.Elem()
	switch under(t).(type) {
	case *types.Struct:
		return &Addr{Comp: "", Ref: x.asTerm(v), T: t, Base: t}
	case *types.Array:
		return &Addr{Comp: "ARR", Ref: x.asTerm(v), T: t, Base: t}
	}
	return &Addr{Comp: x.compC(t), Ref: x.asTerm(v), T: t, Base: t}
}

func (x *Exec) fieldAddr(a *Addr, i int) *Addr {
	u := under(a.T).(*types.Struct)
	ft := u.Field(i).Type()
	if a.Comp == "" && len(a.Path) == 0 {
		return &Addr{Comp: x.compF(a.T, i), Ref: a.Ref, T: ft, Base: ft}
	}
	n := *a
	n.Path = append(append([]pathElem(nil), a.Path...), pathElem{strct: u, field: i, st: a.T})
	n.T = ft
	return &n
}

func (x *Exec) elemAddr(a *Addr, idx string, cidx int64, isConst bool) *Addr {
	u := under(a.T).(*types.Array)
	if a.Comp == "ARR" {
		return &Addr{Comp: x.compE(u.Elem()), Ref: a.Ref, Idx: idx, T: u.Elem(), Base: u.Elem()}
	}
	if !isConst || u.Len() > 8 {
		unsup("non-constant index into array value")
	}
	n := *a
	n.Path = append(append([]pathElem(nil), a.Path...), pathElem{arr: u, aidx: int(cidx), st: a.T})
	n.T = u.Elem()
	return &n
}

func (x *Exec) projPath(t string, path []pathElem) string {
	for _, p := range path {
		if p.arr != nil {
			t = "(" + x.c.arrSel(p.arr, p.aidx) + " " + t + ")"
		} else {
			x.c.sortOf(p.st)
			t = "(" + x.c.fieldSel(p.st, p.field) + " " + t + ")"
		}
	}
	return t
}

func (x *Exec) updPath(base string, path []pathElem, v string) string {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.arr != nil {
		var es []string
		for i := 0; i < int(p.arr.Len()); i++ {
			e := "(" + x.c.arrSel(p.arr, i) + " " + base + ")"
			if i == p.aidx {
				e = x.updPath(e, path[1:], v)
			}
			es = append(es, e)
		}
		return x.c.mkArr(p.arr, es)
	}
	var fs []string
	for i := 0; i < p.strct.NumFields(); i++ {
		e := "(" + x.c.fieldSel(p.st, i) + " " + base + ")"
		if i == p.field {
			e = x.updPath(e, path[1:], v)
		}
		fs = append(fs, e)
	}
	return x.c.mkStruct(p.st, fs)
}

// loadTerm reads the value at a.
func (x *Exec) loadTerm(st *State, a *Addr) string {
	switch a.Comp {
	case "":
		u := under(a.T).(*types.Struct)
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.loadTerm(st, x.fieldAddr(a, i)))
		}
		return x.c.mkStruct(a.T, fs)
	case "ARR":
		u := under(a.T).(*types.Array)
		if u.Len() > 8 {
			return sel(x.H(st, x.compE(u.Elem())), a.Ref)
		}
		var es []string
		for i := 0; i < int(u.Len()); i++ {
			es = append(es, sel(sel(x.H(st, x.compE(u.Elem())), a.Ref), fmt.Sprint(i)))
		}
		return x.c.mkArr(u, es)
	}
	t := x.H(st, a.Comp)
	if a.Ref != "" {
		base := t
		t = sel(base, a.Ref)
		if strings.HasPrefix(a.Comp, "C:") && !x.c.alloc[a.Ref] {
			for k, fc := range x.ips[tkey(a.Base)] {
				t = ite(fmt.Sprintf("(= (iptag %s) %s)", a.Ref, x.ipTag(tkey(a.Base), k)), sel(x.H(st, fc), "("+q("ipbase:"+fc)+" "+a.Ref+")"), t)
			}
		}
	}
	if a.Idx != "" {
		t = sel(t, a.Idx)
	}
	return x.projPath(t, a.Path)
}

func (x *Exec) ipTag(tk string, k int) string {
	h := 0
	for _, c := range tk {
		h = (h*31 + int(c)) % 100000
	}
	return fmt.Sprint(h*100 + k + 1)
}

// interior materialises the address of a struct field as a reference term.
func (x *Exec) interior(a *Addr) string {
	if a.Comp == "" || a.Comp == "ARR" {
		return a.Ref
	}
	if strings.HasPrefix(a.Comp, "L:") {
		unsup("address of local escapes")
	}
	if strings.HasPrefix(a.Comp, "C:") && len(a.Path) == 0 {
		return a.Ref
	}
	if !strings.HasPrefix(a.Comp, "F:") || len(a.Path) > 0 {
		// interior pointer into a slice element or nested value: opaque
		f := q("ipx:" + a.Comp + fmt.Sprint(len(a.Path)))
		if a.Idx != "" {
			x.c.declFun(f, []string{"Int", "Int"}, "Int")
			return "(" + f + " " + a.Ref + " " + a.Idx + ")"
		}
		x.c.declFun(f, []string{"Int"}, "Int")
		return "(" + f + " " + a.Ref + ")"
	}
	tk := tkey(a.T)
	k := -1
	for i, c := range x.ips[tk] {
		if c == a.Comp {
			k = i
		}
	}
	f := q("ip:" + a.Comp)
	if k < 0 {
		k = len(x.ips[tk])
		x.ips[tk] = append(x.ips[tk], a.Comp)
		x.changed = true
	}
	inv := q("ipbase:" + a.Comp)
	x.c.declFun("iptag", []string{"Int"}, "Int")
	x.c.axiom("iptag", "(forall ((p Int)) (! (=> (>= p 0) (= (iptag p) 0)) :pattern ((iptag p))))")
	x.c.declFun(f, []string{"Int"}, "Int")
	x.c.declFun(inv, []string{"Int"}, "Int")
	x.c.axiom("ip:"+a.Comp, fmt.Sprintf("(forall ((r Int)) (! (and (= (%s (%s r)) r) (= (iptag (%s r)) %s) (< (%s r) 0)) :pattern ((%s r))))", inv, f, f, x.ipTag(tk, k), f, f))
	return "(" + f + " " + a.Ref + ")"
}

func (x *Exec) storeTerm(fr *Frame, st *State, a *Addr, v string) {
	switch a.Comp {
	case "":
		u := under(a.T).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			x.storeTerm(fr, st, x.fieldAddr(a, i), "("+x.c.fieldSel(a.T, i)+" "+v+")")
		}
		return
	case "ARR":
		u := under(a.T).(*types.Array)
		comp := x.compE(u.Elem())
		h := x.H(st, comp)
		arr := sel(h, a.Ref)
		if u.Len() > 8 {
			x.setH(st, comp, store(h, a.Ref, v))
		} else {
			for i := 0; i < int(u.Len()); i++ {
				arr = store(arr, fmt.Sprint(i), "("+x.c.arrSel(u, i)+" "+v+")")
			}
			x.setH(st, comp, store(h, a.Ref, arr))
		}
		x.recordWrite(fr, comp, a.Ref)
		return
	}
	h := x.H(st, a.Comp)
	if a.Ref == "" {
		x.setH(st, a.Comp, x.updPath(h, a.Path, v))
		x.recordWrite(fr, a.Comp, "")
		return
	}
	if strings.HasPrefix(a.Comp, "C:") && !x.c.alloc[a.Ref] && len(x.ips[tkey(a.Base)]) > 0 {
		unsup("store through possibly interior pointer")
	}
	old := sel(h, a.Ref)
	if a.Idx != "" {
		nv := x.updPath(sel(old, a.Idx), a.Path, v)
		x.setH(st, a.Comp, store(h, a.Ref, store(old, a.Idx, nv)))
		x.forward(a.Comp, h, st.heap[a.Comp], a.Ref, a.Idx)
	} else {
		x.setH(st, a.Comp, store(h, a.Ref, x.updPath(old, a.Path, v)))
	}
	x.recordWrite(fr, a.Comp, a.Ref)
	// forwarding table
	if !x.c.alloc[a.Ref] {
		x.forget(st, a.Comp)
	} else {
		delete(st.known, a.Comp+"\x00"+a.Ref)
	}
}

func (x *Exec) forget(st *State, comp string) {
	for k := range st.known {
		if strings.HasPrefix(k, comp+"\x00") {
			delete(st.known, k)
		}
	}
}

// forward makes the elements looked at before a write to a slice be looked at
// after it as well.  The line is a comment, used only by focused queries.
func (x *Exec) forward(comp, h, nh, ref, idx string) {
	if !strings.HasPrefix(comp, "E:") {
		return
	}
	f := q(fmt.Sprintf("fwd!%d", len(x.c.lines)))
	at := func(h, p string) string { return "(select (select " + h + " " + ref + ") " + p + ")" }
	x.c.lines = append(x.c.lines, fmt.Sprintf("%s(declare-fun %s (%s) Bool)(assert (%s %s))(assert (forall ((p Int)) (! (%s %s) :pattern (%s))))",
		fwdMark, f, arrayElemSort(arrayElemSort(x.compSort[comp])), f, at(nh, idx), f, at(nh, "p"), at(h, "p")))
}

const fwdMark = ";fwd "

func (x *Exec) storeVal(fr *Frame, st *State, a *Addr, v Val) {
	x.storeTerm(fr, st, a, x.asTermOf(fr, st, v, a.T))
	if (x.c.alloc[a.Ref] || strings.HasPrefix(a.Comp, "L:")) && len(a.Path) == 0 && a.Idx == "" && a.Comp != "" && a.Comp != "ARR" {
		if v.Kind == KTerm {
			v.S = x.asTermOf(fr, st, v, a.T)
			v.Elems = nil
		}
		st.known[a.Comp+"\x00"+a.Ref] = v
	}
}

func (x *Exec) load(fr *Frame, st *State, a *Addr, name string) Val {
	if len(a.Path) == 0 && a.Idx == "" {
		if v, ok := st.known[a.Comp+"\x00"+a.Ref]; ok {
			return v
		}
	}
	t := x.loadTerm(st, a)
	s := x.c.sortOf(a.T)
	v := term(a.T, s, x.c.define(name, s, t))
	x.wf(fr.guard, st, v)
	return v
}

// wf assumes the invariants of well-formed values of v's type.
func (x *Exec) wf(guard string, st *State, v Val) {
	if v.Kind != KTerm || v.T == nil {
		return
	}
	if f := x.wfTerm(st, v.T, v.S); f != "true" {
		x.c.assume(guard, f)
	}
}

func (x *Exec) wfTerm(st *State, t types.Type, s string) string {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "(< " + s + " " + x.A(st) + ")"
	case *types.Slice:
		_ = u
		return and("(<= 0 (s.len "+s+"))", "(<= 0 (s.off "+s+"))", "(<= 0 (s.ref "+s+"))", "(< (s.ref "+s+") "+x.A(st)+")", "(=> (= (s.ref "+s+") 0) (= (s.len "+s+") 0))")
	case *types.Struct:
		if u.NumFields() > 6 {
			return "true"
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.wfTerm(st, u.Field(i).Type(), "("+x.c.fieldSel(t, i)+" "+s+")"))
		}
		return and(fs...)
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return "(<= 0 " + s + ")"
		}
	}
	return "true"
}

func (x *Exec) asTerm(v Val) string {
	switch v.Kind {
	case KTerm:
		return v.S
	case KAddr:
		return x.interior(v.Addr)
	case KClosure:
		if v.S != "" {
			return v.S
		}
		s := q("fn:" + v.Fn.(*ssa.Function).String())
		x.c.decl("sym:"+s, fmt.Sprintf("(declare-const %s Int)", s))
		x.c.axiom("fnpos:"+s, fmt.Sprintf("(and (> %s 0) (< %s 1000))", s, s))
		return s
	}
	unsup("value of kind %d has no term", v.Kind)
	return ""
}

// asTermOf is asTerm, materialising slices known only by their elements.
func (x *Exec) asTermOf(fr *Frame, st *State, v Val, t types.Type) string {
	if v.Kind == KTerm && v.S == "" && v.Elems != nil {
		return x.materialise(fr, st, &v)
	}
	return x.asTerm(v)
}

func (x *Exec) materialise(fr *Frame, st *State, v *Val) string {
	et := under(v.T).(*types.Slice).Elem()
	r := x.allocRef(fr, st, fr.id+".lit")
	comp := x.compE(et)
	h := x.H(st, comp)
	arr := "((as const (Array Int " + x.c.sortOf(et) + ")) " + x.c.zero(et) + ")"
	for i, e := range v.Elems {
		arr = store(arr, fmt.Sprint(i), x.asTermOf(fr, st, e, et))
	}
	x.setH(st, comp, store(h, r, arr))
	x.recordWrite(fr, comp, r)
	v.S = fmt.Sprintf("(mk-slice %s 0 %d)", r, len(v.Elems))
	return v.S
}

// ---- CFG ----

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var back func(n *ssa.BasicBlock)
				back = func(n *ssa.BasicBlock) {
					if l.body[n] {
						return
					}
					l.body[n] = true
					for _, p := range n.Preds {
						back(p)
					}
				}
				back(b)
			}
		}
	}
	return loops
}

type edgeIn struct {
	pred  *ssa.BasicBlock
	pidx  int
	guard string
	st    *State
}

type retRec struct {
	guard string
	vals  []Val
	st    *State
	pos   token.Pos
	block int
}

func (x *Exec) mergeStates(guards []string, sts []*State, name string) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	out := newState()
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := x.H(sts[len(sts)-1], k)
		same := true
		for i := len(sts) - 2; i >= 0; i-- {
			h := x.H(sts[i], k)
			if h != t {
				same = false
			}
			t = ite(guards[i], h, t)
		}
		if same {
			out.heap[k] = x.H(sts[0], k)
		} else {
			out.heap[k] = x.c.define(name+"|"+k, x.compSort[k], t)
		}
	}
	for k, v := range sts[0].known {
		ok := true
		for _, s := range sts[1:] {
			v2, has := s.known[k]
			if !has || !sameVal(v, v2) {
				ok = false
			}
		}
		if ok {
			out.known[k] = v
		}
	}
	return out
}

func sameVal(a, b Val) bool {
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case KTerm:
		return a.S == b.S && a.S != "" && a.CB == b.CB
	case KClosure:
		if a.Fn != b.Fn || len(a.Binds) != len(b.Binds) {
			return false
		}
		for i := range a.Binds {
			if !sameVal(a.Binds[i], b.Binds[i]) {
				return false
			}
		}
		return true
	case KAddr:
		return a.Addr.Comp == b.Addr.Comp && a.Addr.Ref == b.Addr.Ref && a.Addr.Idx == b.Addr.Idx && len(a.Addr.Path) == len(b.Addr.Path) && fmt.Sprint(a.Addr.Path) == fmt.Sprint(b.Addr.Path)
	}
	return false
}

func (x *Exec) mergeVals(fr *Frame, st *State, guards []string, vs []Val, t types.Type, name string) Val {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(vs[0], v) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	s := x.c.sortOf(t)
	r := x.asTermOf(fr, st, vs[len(vs)-1], t)
	for i := len(vs) - 2; i >= 0; i-- {
		r = ite(guards[i], x.asTermOf(fr, st, vs[i], t), r)
	}
	return term(t, s, x.c.define(name, s, r))
}

// execFn runs fn from st under guard and returns its return points.
func (x *Exec) execFn(fr *Frame, st *State, guard string) []retRec {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		unsup("function %s has no body", fn)
	}
	fr.loops = findLoops(fn)
	fr.progs = map[*Loop]*ProgSet{}
	in := map[*ssa.BasicBlock][]edgeIn{}
	in[fn.Blocks[0]] = []edgeIn{{nil, -1, guard, st}}
	var rets []retRec
	for _, b := range rpo(fn) {
		es := in[b]
		if len(es) == 0 {
			continue
		}
		fr.cur = b
		var guards []string
		var sts []*State
		for _, e := range es {
			guards = append(guards, e.guard)
			sts = append(sts, e.st)
		}
		bname := fmt.Sprintf("%s.b%d", fr.id, b.Index)
		g := guards[0]
		if len(guards) > 1 {
			g = x.c.define(bname, "Bool", or(guards...))
		} else {
			g = x.c.define(bname, "Bool", g)
		}
		cur := x.mergeStates(guards, sts, bname)
		fr.guard = g
		phiVals := map[*ssa.Phi]Val{}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var vs []Val
			for _, e := range es {
				vs = append(vs, x.val(fr, ph.Edges[e.pidx]))
			}
			phiVals[ph] = x.mergeVals(fr, cur, guards, vs, ph.Type(), fr.id+"."+ph.Name())
		}
		if l := fr.loops[b]; l != nil {
			cur = x.loopHead(fr, l, cur, phiVals, g)
		} else {
			for ph, v := range phiVals {
				fr.env[ph] = v
			}
		}
		done := false
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			switch ins := ins.(type) {
			case *ssa.Return:
				var vs []Val
				for _, r := range ins.Results {
					vs = append(vs, x.val(fr, r))
				}
				rets = append(rets, retRec{fr.guard, vs, cur, ins.Pos(), b.Index})
				done = true
			case *ssa.Panic:
				x.noteAssumption("panic statements end the path (partial correctness)")
				done = true
			case *ssa.If:
				c := x.asTerm(x.val(fr, ins.Cond))
				x.edge(fr, in, b, 0, and(fr.guard, c), cur)
				x.edge(fr, in, b, 1, and(fr.guard, not(c)), cur)
				done = true
			case *ssa.Jump:
				x.edge(fr, in, b, 0, fr.guard, cur)
				done = true
			default:
				cur = x.instr(fr, cur, ins)
				if fr.guard == "false" {
					done = true
				}
			}
			if done {
				break
			}
		}
	}
	return rets
}

func (x *Exec) edge(fr *Frame, in map[*ssa.BasicBlock][]edgeIn, b *ssa.BasicBlock, k int, guard string, st *State) {
	if guard == "false" {
		return
	}
	s := b.Succs[k]
	// index of this edge among s.Preds
	occ := 0
	for i := 0; i < k; i++ {
		if b.Succs[i] == s {
			occ++
		}
	}
	pidx := -1
	for i, p := range s.Preds {
		if p == b {
			if occ == 0 {
				pidx = i
				break
			}
			occ--
		}
	}
	guard = x.c.define(fmt.Sprintf("%s.e%d_%d", fr.id, b.Index, k), "Bool", guard)
	if l := fr.loops[s]; l != nil && l.body[b] && s.Dominates(b) {
		// back edge
		phi := map[*ssa.Phi]Val{}
		for _, ins := range s.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				phi[ph] = x.val(fr, ph.Edges[pidx])
			}
		}
		x.checkCands(loopKey(fr, l), "preserve", phi, st, guard, x.posOf(s))
		return
	}
	in[s] = append(in[s], edgeIn{b, pidx, guard, st})
}

func (x *Exec) posOf(b *ssa.BasicBlock) string {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return x.w.pos(i.Pos())
		}
	}
	return ""
}

// recall makes a component known that an earlier run of the translation met
// inside the loop now being entered.
func (x *Exec) recall(comp string) bool {
	if x.compSort[comp] != "" {
		return true
	}
	p := x.prev
	if p == nil || strings.HasPrefix(comp, "L:") || strings.HasPrefix(comp, "G:seen:") {
		return false
	}
	so := p.compSort[comp]
	if so == "" {
		return false
	}
	var names []string
	for n := range p.c.sortTypes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.Contains(so, n) {
			x.c.sortOf(p.c.sortTypes[n])
		}
	}
	if t := p.compT[comp]; t != nil {
		x.compT[comp] = t
	}
	x.comp(comp, so)
	return true
}

// havoc replaces the components modified by the loop by arbitrary ones.
func (x *Exec) havoc(fr *Frame, key string, entry *State) (*State, *LoopRec) {
	l := x.rec[key]
	if l == nil {
		l = &LoopRec{key: key, mods: map[string]*ModInfo{}}
		x.rec[key] = l
	}
	l.headLine = len(x.c.lines)
	as := x.assumed[key]
	st := entry.clone()
	if as == nil {
		return st, l
	}
	var comps []string
	for c := range as.mods {
		comps = append(comps, c)
	}
	sort.Strings(comps)
	Aent := x.A(entry)
	if as.mods["A"] != nil {
		a := x.c.fresh("A@"+key, "Int")
		x.c.lines = append(x.c.lines, fmt.Sprintf("(assert (>= %s %s))", a, Aent))
		st.heap["A"] = a
	}
	for _, comp := range comps {
		if comp == "A" {
			continue
		}
		m := as.mods[comp]
		if !x.recall(comp) {
			continue // a local of the loop body, set before it is used
		}
		unknown := m.Unknown
		for t := range m.Targets {
			for _, s := range termSyms(t) {
				if ln, ok := x.c.lineOf[s]; ok {
					if ln >= l.headLine {
						unknown = true
					}
				} else if !x.c.declared["sym:"+s] && !x.c.declared["fun:"+s] && !strings.HasPrefix(s, "|S:") && !strings.HasPrefix(s, "|A:") {
					unknown = true
				}
			}
		}
		old := x.H(entry, comp)
		var h string
		switch {
		case unknown:
			h = x.c.fresh(comp+"@"+key, x.compSort[comp])
			x.forget(st, comp)
		default:
			h = old
			var ts []string
			for t := range m.Targets {
				ts = append(ts, t)
			}
			sort.Strings(ts)
			es := arrayElemSort(x.compSort[comp])
			for i, t := range ts {
				v := x.c.fresh(fmt.Sprintf("%s@%s!%d", comp, key, i), es)
				h = store(h, t, v)
				delete(st.known, comp+"\x00"+t)
			}
			if m.Fresh {
				h0 := x.c.define(comp+"@"+key+"^", x.compSort[comp], h)
				h = x.c.fresh(comp+"@"+key, x.compSort[comp])
				x.c.lines = append(x.c.lines, fmt.Sprintf("(assert (forall ((r Int)) (! (=> (< r %s) (= (select %s r) (select %s r))) :pattern ((select %s r)))))", Aent, h, h0, h))
			}
		}
		st.heap[comp] = x.c.define("H:"+comp, x.compSort[comp], h)
	}
	return st, l
}

func arrayElemSort(s string) string {
	// "(Array K X)" -> X
	s = strings.TrimPrefix(s, "(Array ")
	depth, quoted := 0, false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '|':
			quoted = !quoted
		case quoted:
		case s[i] == '(':
			depth++
		case s[i] == ')':
			depth--
		case s[i] == ' ' && depth == 0:
			return s[i+1 : len(s)-1]
		}
	}
	return s
}

func (x *Exec) loopHead(fr *Frame, l *Loop, entry *State, phiEntry map[*ssa.Phi]Val, guard string) *State {
	key := loopKey(fr, l)
	st, _ := x.havoc(fr, key, entry)
	// Arbitrary values for the phis.
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		// a phi that is never changed in the loop keeps its entry value
		if _, isSig := under(ph.Type()).(*types.Signature); isSig {
			fr.env[ph] = phiEntry[ph]
			continue
		}
		s := x.c.sortOf(ph.Type())
		v := term(ph.Type(), s, x.c.fresh(fr.id+"."+ph.Name(), s))
		fr.env[ph] = v
		x.wf("true", st, v)
	}
	x.findProgress(fr, l)
	x.curPhiEntry = phiEntry
	cands := x.candidates(fr, l.head, key, entry, st, phis)
	for _, c := range cands {
		// established on entry
		x.oblige(&Obligation{Kind: "inv-init", Label: c.Label, Name: c.Name + "/init", Guard: guard, Goal: c.eval(phiEntry, entry), Cand: c, Where: x.posOf(l.head), Src: c.Src})
	}
	for _, c := range cands {
		f := c.eval(nil, st)
		x.c.lines = append(x.c.lines, fmt.Sprintf("(assert (=> %s %s))", c.Flag, implies(guard, f)))
	}
	return st
}

func (x *Exec) checkCands(key, what string, phi map[*ssa.Phi]Val, st *State, guard, where string) {
	n := 0
	for _, c := range x.c.cands {
		if !strings.HasPrefix(c.Name, key+"/") {
			continue
		}
		n++
		x.oblige(&Obligation{Kind: "inv-" + what, Label: c.Label, Name: c.Name + "/" + what, Guard: guard, Goal: c.eval(phi, st), Cand: c, Where: where, Src: c.Src})
	}
}

func (x *Exec) oblige(o *Obligation) {
	if o.Goal == "true" || o.Guard == "false" {
		return
	}
	o.Pos = len(x.c.lines)
	n := 0
	for _, p := range x.c.obs {
		if p.Name == o.Name || strings.HasPrefix(p.Name, o.Name+"~") {
			n++
		}
	}
	if n > 0 {
		o.Name = fmt.Sprintf("%s~%d", o.Name, n)
	}
	x.c.obs = append(x.c.obs, o)
}

func (x *Exec) noteAssumption(s string) { x.assumptions[s] = true }

// findProgress recognises the iteration a loop header performs.
func (x *Exec) findProgress(fr *Frame, l *Loop) {
	for _, ins := range l.head.Instrs {
		if nx, ok := ins.(*ssa.Next); ok && !nx.IsString {
			it := fr.env[nx.Iter]
			if it.Iter == nil {
				continue
			}
			p := &ProgSet{loopKey: loopKey(fr, l), seenComp: it.Iter.SeenComp, elemT: it.Iter.MapT.Key(), cur: nx, mapT: it.Iter.MapT, fr: fr, curFr: fr, name: loopKey(fr, l)}
			for _, r := range *nx.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok {
					if ex.Index == 1 {
						p.cur = ex
					}
					if ex.Index == 0 {
						p.okv = ex
					}
				}
			}
			fr.progs[l] = p
			return
		}
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return
	}
	ln, ok := bo.Y.(*ssa.Call)
	if !ok {
		return
	}
	bi, ok := ln.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return
	}
	sl := ln.Call.Args[0]
	st, ok := under(sl.Type()).(*types.Slice)
	if !ok {
		return
	}
	mk := func(ph *ssa.Phi, plus int) {
		if ph.Block() != l.head {
			return
		}
		fr.progs[l] = &ProgSet{loopKey: loopKey(fr, l), elemT: st.Elem(), slice: &BoundVal{fr: fr, v: sl}, phi: ph, plus: plus, fr: fr, name: loopKey(fr, l)}
	}
	switch i := bo.X.(type) {
	case *ssa.Phi:
		mk(i, 0)
	case *ssa.BinOp:
		if ph, ok := i.X.(*ssa.Phi); ok && i.Op == token.ADD {
			if c, ok := i.Y.(*ssa.Const); ok && c.Int64() == 1 {
				mk(ph, 1)
			}
		}
	}
}

// ---- values ----

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	s := x.c.sortOf(t)
	if c.Value == nil {
		return term(t, s, x.c.zero(t))
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return term(t, s, "true")
		}
		return term(t, s, "false")
	case constant.Int:
		if s == "Flt" {
			break
		}
		return term(t, s, intStr(c.Value.ExactString()))
	case constant.String:
		str := constant.StringVal(c.Value)
		v := term(t, s, x.c.strLit(str))
		v.Lit, v.IsLit = str, true
		return v
	}
	f := q("const:" + c.Value.ExactString())
	x.c.decl("sym:"+f, fmt.Sprintf("(declare-const %s %s)", f, s))
	return term(t, s, f)
}

func intStr(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (x *Exec) globalRef(g *ssa.Global) string {
	n := g.String()
	i, ok := x.w.globIdx[n]
	if !ok {
		i = len(x.w.globIdx) + 1
		x.w.globIdx[n] = i
	}
	s := q("glob:" + n)
	x.c.decl("sym:"+s, fmt.Sprintf("(define-fun %s () Int %d)", s, i))
	return s
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return term(v.Type(), "Int", x.globalRef(v))
	case *ssa.Function:
		return Val{Kind: KClosure, T: v.Type(), Fn: v}
	case *ssa.Builtin:
		unsup("builtin %s as value", v.Name())
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) set(fr *Frame, v ssa.Value, s string) {
	so := x.c.sortOf(v.Type())
	fr.env[v] = term(v.Type(), so, x.c.define(fr.id+"."+v.Name(), so, s))
}
