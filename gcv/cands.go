package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// BoundVal is a program value a template variable may stand for: an SSA value
// or the content of a variable's cell.
type BoundVal struct {
	fr   *Frame
	v    ssa.Value
	cell bool
	addr *Addr
	name string
	t    types.Type
}

func (b *BoundVal) get(x *Exec, phi map[*ssa.Phi]Val, st *State) Val {
	if b.cell {
		if v, ok := st.known[b.addr.Comp+"\x00"+b.addr.Ref]; ok && v.Kind == KTerm && v.S != "" {
			return v
		}
		return term(b.t, x.c.sortOf(b.t), x.loadTerm(st, b.addr))
	}
	if ph, ok := b.v.(*ssa.Phi); ok && phi != nil {
		if v, ok := phi[ph]; ok && b.fr == x.phiFrame {
			return v
		}
	}
	return x.val(b.fr, b.v)
}

func typeMatch(a, b types.Type) bool {
	if types.Identical(unalias(a), unalias(b)) {
		return true
	}
	switch under(a).(type) {
	case *types.Map, *types.Slice:
		return types.Identical(under(a), under(b))
	}
	return false
}

// scope lists the values in scope at the head of a loop (or at a call with a
// ghost loop, head == nil).
func (x *Exec) scope(fr *Frame, head *ssa.BasicBlock) []*BoundVal {
	var out []*BoundVal
	seen := map[string]bool{}
	addCell := func(f *Frame, v ssa.Value, a *Addr, name string) {
		if a.Comp == "" || a.Comp == "ARR" || len(a.Path) > 0 || a.Idx != "" {
			return
		}
		k := "cell:" + a.Comp + ":" + a.Ref
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, &BoundVal{fr: f, v: v, cell: true, addr: a, name: name + "*", t: a.T})
	}
	for f := fr; f != nil; f = f.parent {
		at := f.cur
		if f == fr && head != nil {
			at = head
		}
		var vs []ssa.Value
		for _, p := range f.fn.Params {
			vs = append(vs, p)
		}
		for _, p := range f.fn.FreeVars {
			vs = append(vs, p)
		}
		if at != nil {
			for _, b := range f.fn.Blocks {
				if !b.Dominates(at) {
					continue
				}
				for _, ins := range b.Instrs {
					v, ok := ins.(ssa.Value)
					if !ok {
						continue
					}
					if b == at && f == fr && head != nil {
						if _, ok := ins.(*ssa.Phi); !ok {
							break
						}
					}
					if _, ok := f.env[v]; !ok {
						continue
					}
					vs = append(vs, v)
				}
			}
		}
		for _, v := range vs {
			val, ok := f.env[v]
			if !ok {
				continue
			}
			nm := f.id + "." + v.Name()
			switch val.Kind {
			case KAddr:
				switch v.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					addCell(f, v, val.Addr, nm)
				}
			case KTerm:
				if val.S == "" {
					continue
				}
				if val.CB != nil {
					continue
				}
				_, isAlloc := v.(*ssa.Alloc)
				_, isFV := v.(*ssa.FreeVar)
				if p, ok := under(val.T).(*types.Pointer); ok && (isAlloc || isFV) {
					switch under(p.Elem()).(type) {
					case *types.Struct, *types.Array:
					default:
						addCell(f, v, x.deref(val), nm)
						continue
					}
				}
				if _, ok := v.(*ssa.Phi); !ok {
					k := "t:" + val.S
					if seen[k] || !strings.HasPrefix(val.S, "|") && !strings.HasPrefix(val.S, "(") {
						continue
					}
					seen[k] = true
				} else {
					k := "t:" + val.S
					if seen[k] {
						continue
					}
					seen[k] = true
				}
				out = append(out, &BoundVal{fr: f, v: v, name: nm, t: val.T})
			}
		}
	}
	return out
}

// progressAt gives the progress sets visible at a loop head, own first.
type progUse struct {
	p   *ProgSet
	own bool
}

func (x *Exec) progresses(fr *Frame, head *ssa.BasicBlock) []progUse {
	var out []progUse
	for f := fr; f != nil; f = f.parent {
		at := f.cur
		if f == fr && head != nil {
			at = head
		}
		var ls []*Loop
		for _, l := range f.loops {
			if l.body[at] && f.progs[l] != nil {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
		for _, l := range ls {
			out = append(out, progUse{f.progs[l], f == fr && head != nil && l.head == head})
		}
		for k := len(f.gprogs) - 1; k >= 0; k-- {
			out = append(out, progUse{f.gprogs[k], f == fr && head == nil && k == len(f.gprogs)-1})
		}
	}
	return out
}

func (x *Exec) progVal(pu progUse, phi map[*ssa.Phi]Val, st *State) Val {
	p := pu.p
	v := Val{Kind: KTerm, Set: p}
	if p.cb != nil {
		return v
	}
	if p.seenComp != "" {
		if !pu.own && p.cur != nil {
			if cv, ok := p.fr.env[p.cur]; ok {
				if cv.Kind == KTuple {
					cv = cv.Elems[1]
				}
				v.S = x.asTerm(cv)
			}
		}
		return v
	}
	s := p.slice.get(x, nil, st)
	bv := &BoundVal{fr: p.fr, v: p.phi}
	n := x.asTerm(bv.get(x, phi, st))
	if p.plus > 0 {
		n = add(n, fmt.Sprint(p.plus))
	}
	v.Elems = []Val{s, intVal(n)}
	return v
}

func (x *Exec) newCand(name, label, src string, auto bool, eval func(phi map[*ssa.Phi]Val, st *State) string) *Cand {
	if c, ok := x.c.candIdx[name]; ok {
		_ = c
		return nil
	}
	flag := q("inv:" + name)
	x.c.decl("sym:"+flag, fmt.Sprintf("(declare-const %s Bool)", flag))
	c := &Cand{Name: name, Flag: flag, Alive: true, Auto: auto, Src: src, Label: label, eval: eval}
	x.c.cands = append(x.c.cands, c)
	x.c.candIdx[name] = c
	return c
}

const maxCands = 600

func (x *Exec) candidates(fr *Frame, head *ssa.BasicBlock, key string, entry, st *State, phis []*ssa.Phi) []*Cand {
	var out []*Cand
	wrap := func(f func(phi map[*ssa.Phi]Val, st *State) string) func(phi map[*ssa.Phi]Val, st *State) string {
		cur := fr.cur
		return func(phi map[*ssa.Phi]Val, s *State) (r string) {
			save := x.phiFrame
			x.phiFrame = fr
			sc := fr.cur
			fr.cur = cur
			defer func() { x.phiFrame = save; fr.cur = sc }()
			return f(phi, s)
		}
	}
	// the same formula over two names for the same value
	same := map[string]bool{}
	addc := func(label, src, binds string, auto bool, f func(phi map[*ssa.Phi]Val, st *State) string) {
		name := key + "/" + label
		if binds != "" {
			name += "(" + binds + ")"
		}
		if x.keep != nil && !x.keep[name] {
			return
		}
		w := wrap(f)
		// must be expressible here
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case Unsup:
						ok = false
					case SpecErr:
						if auto {
							ok = false
							return
						}
						panic(r)
					default:
						panic(r)
					}
				}
			}()
			t := w(nil, st)
			if t == "true" || same[t] {
				ok = false
			}
			same[t] = true
		}()
		if !ok {
			return
		}
		if c := x.newCand(name, label, src, auto, w); c != nil {
			out = append(out, c)
		}
	}
	vals := x.scope(fr, head)
	progs := x.progresses(fr, head)
	as := x.assumed[key]
	Aent := x.A(entry)
	A0 := x.A(x.st0)

	// --- automatic candidates ---
	modified := func(b *BoundVal) bool {
		if b.cell {
			if as == nil {
				return false
			}
			m := as.mods[b.addr.Comp]
			return m != nil
		}
		if ph, ok := b.v.(*ssa.Phi); ok && b.fr == fr {
			for _, p := range phis {
				if p == ph {
					return true
				}
			}
		}
		return false
	}
	entryOf := func(b *BoundVal) string {
		// value of b at loop entry, as a term over entry state
		if b.cell {
			return x.asTerm(b.get(x, nil, entry))
		}
		return ""
	}
	var slices []*BoundVal
	for _, b := range vals {
		b := b
		u := under(b.t)
		switch u.(type) {
		case *types.Slice:
			slices = append(slices, b)
			if modified(b) {
				addc("auto-slice-fresh", "slice is nil or allocated by this function", b.name, true, func(phi map[*ssa.Phi]Val, s *State) string {
					r := x.sref(x.asTerm(b.get(x, phi, s)))
					return or(eq(r, "0"), "(>= "+r+" "+A0+")")
				})
				addc("auto-slice-fresh-loop", "slice is nil or allocated by this loop", b.name, true, func(phi map[*ssa.Phi]Val, s *State) string {
					r := x.sref(x.asTerm(b.get(x, phi, s)))
					return or(eq(r, "0"), "(>= "+r+" "+Aent+")")
				})
				addc("auto-slice-off", "slice starts at offset zero", b.name, true, func(phi map[*ssa.Phi]Val, s *State) string {
					return eq(x.soff(x.asTerm(b.get(x, phi, s))), "0")
				})
			}
		case *types.Map:
			if modified(b) {
				addc("auto-map-fresh", "map is nil or allocated by this function", b.name, true, func(phi map[*ssa.Phi]Val, s *State) string {
					r := x.asTerm(b.get(x, phi, s))
					return or(eq(r, "0"), "(>= "+r+" "+A0+")")
				})
			}
		case *types.Basic:
			if modified(b) && x.c.sortOf(b.t) == "Int" {
				for _, c := range []string{"(- 1)", "0"} {
					c := c
					addc("auto-int-ge"+c, "integer bounded below", b.name, true, func(phi map[*ssa.Phi]Val, s *State) string {
						return "(>= " + x.asTerm(b.get(x, phi, s)) + " " + c + ")"
					})
				}
			}
		}
	}
	_ = entryOf
	for i, a := range slices {
		for _, b := range slices[i+1:] {
			a, b := a, b
			if !modified(a) && !modified(b) {
				continue
			}
			if !types.Identical(under(a.t).(*types.Slice).Elem(), under(b.t).(*types.Slice).Elem()) {
				continue
			}
			addc("auto-slices-distinct", "slices do not share storage", a.name+","+b.name, true, func(phi map[*ssa.Phi]Val, s *State) string {
				ra, rb := x.sref(x.asTerm(a.get(x, phi, s))), x.sref(x.asTerm(b.get(x, phi, s)))
				return or(eq(ra, "0"), eq(rb, "0"), not(eq(ra, rb)))
			})
		}
	}
	for _, pu := range progs {
		pu := pu
		if !pu.own {
			continue
		}
		if pu.p.phi != nil {
			addc("auto-range-bound", "iteration count within the slice", "", true, func(phi map[*ssa.Phi]Val, s *State) string {
				v := x.progVal(pu, phi, s)
				n := v.Elems[1].S
				return and("(<= 0 "+n+")", "(<= "+n+" "+x.slenT(x.asTerm(v.Elems[0]))+")")
			})
		}
		if pu.p.seenComp != "" {
			it := x.iterOf(pu.p)
			if it != nil {
				ks := x.c.sortOf(pu.p.elemT)
				addc("auto-seen-dom", "keys iterated over are in the map", "", true, func(phi map[*ssa.Phi]Val, s *State) string {
					seen := x.H(s, pu.p.seenComp)
					d := x.dom(s, it.MapT, x.asTerm(it.Map))
					return fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k))))", ks, seen, d, seen)
				})
			}
		}
	}
	if as != nil {
		var comps []string
		for c := range as.mods {
			comps = append(comps, c)
		}
		sort.Strings(comps)
		for _, comp := range comps {
			comp := comp
			m := as.mods[comp]
			if comp == "A" || strings.HasPrefix(comp, "L:") || strings.HasPrefix(comp, "G:") || !m.Unknown || x.compSort[comp] == "" {
				continue
			}
			h0 := x.H(x.st0, comp)
			he := x.H(entry, comp)
			addc("auto-frame0", "objects existing at function entry unchanged: "+comp, comp, true, func(phi map[*ssa.Phi]Val, s *State) string {
				h := x.H(s, comp)
				if h == h0 {
					return "true"
				}
				return fmt.Sprintf("(forall ((r Int)) (! (=> (< r %s) (= (select %s r) (select %s r))) :pattern ((select %s r))))", A0, h, h0, h)
			})
			addc("auto-frame1", "objects existing at loop entry unchanged: "+comp, comp, true, func(phi map[*ssa.Phi]Val, s *State) string {
				h := x.H(s, comp)
				if h == he {
					return "true"
				}
				return fmt.Sprintf("(forall ((r Int)) (! (=> (< r %s) (= (select %s r) (select %s r))) :pattern ((select %s r))))", Aent, h, he, h)
			})
			mts := x.unitMods()[comp]
			if len(mts) > 0 {
				addc("auto-frameM", "objects not in modifies unchanged: "+comp, comp, true, func(phi map[*ssa.Phi]Val, s *State) string {
					h := x.H(s, comp)
					if h == h0 {
						return "true"
					}
					return fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", and("(< r "+A0+")", keepCond(mts, "r")), h, h0, h)
				})
			}
			if strings.HasPrefix(comp, "E:") {
				// appends: only the entry storage of the slices being grown
				var exc []*BoundVal
				for _, b := range slices {
					if modified(b) && "E:"+tkey(under(b.t).(*types.Slice).Elem()) == comp {
						exc = append(exc, b)
					}
				}
				if len(exc) > 0 {
					save := map[*BoundVal]string{}
					for _, b := range exc {
						if b.cell {
							save[b] = x.sref(x.asTerm(b.get(x, nil, entry)))
						}
					}
					ph := x.curPhiEntry
					cond := func() string {
						c := "(< r " + Aent + ")"
						for _, b := range exc {
							if b.cell {
								c = and(c, not(eq("r", save[b])))
							} else if v, ok := ph[b.v.(*ssa.Phi)]; ok && (v.S != "" || v.Elems == nil) {
								c = and(c, not(eq("r", x.sref(x.asTerm(v)))))
							}
						}
						return c
					}
					addc("auto-frame2", "only the storage of the slices grown by the loop changes: "+comp, comp, true, func(phi map[*ssa.Phi]Val, s *State) string {
						h := x.H(s, comp)
						if h == he {
							return "true"
						}
						return fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", cond(), h, he, h)
					})
					for _, b := range exc {
						b := b
						addc("auto-slice-entry", "slice keeps its entry storage or one allocated by the loop", b.name, true, func(phi map[*ssa.Phi]Val, s *State) string {
							r := x.sref(x.asTerm(b.get(x, phi, s)))
							var e string
							if b.cell {
								e = save[b]
							} else if v, ok := ph[b.v.(*ssa.Phi)]; ok && (v.S != "" || v.Elems == nil) {
								e = x.sref(x.asTerm(v))
							} else {
								e = "0"
							}
							return or(eq(r, e), "(>= "+r+" "+Aent+")")
						})
					}
				}
			}
		}
	}

	// --- templates ---
	var ts []*Template
	ts = append(ts, x.sf.Templates...)
	if x.unit != nil {
		for _, t := range x.unit.Invs {
			if t.In == "" || x.loopIn(fr, t.In) {
				ts = append(ts, t)
			}
		}
	}
	for _, t := range ts {
		x.instantiate(t, fr, head, vals, progs, phis, func(binds string, f func(phi map[*ssa.Phi]Val, st *State) string) {
			addc(t.Label, t.Src, binds, false, f)
		})
	}
	return out
}

func keepCond(mts []modTarget, r string) string {
	var cs []string
	for _, m := range mts {
		switch {
		case m.fresh:
		case m.one != "":
			cs = append(cs, not(eq(r, m.one)))
		default:
			cs = append(cs, not(m.pred(r)))
		}
	}
	return and(cs...)
}

// unitMods groups the unit's modifies clauses (read at entry) by component.
func (x *Exec) unitMods() map[string][]modTarget {
	if x.umods == nil {
		x.umods = map[string][]modTarget{}
		for _, m := range x.modTargets(x.unit, x.sf, x.vars, x.st0) {
			x.umods[m.comp] = append(x.umods[m.comp], m)
		}
	}
	return x.umods
}

func (x *Exec) iterOf(p *ProgSet) *Iter {
	for _, v := range p.fr.env {
		if v.Iter != nil && v.Iter.SeenComp == p.seenComp {
			return v.Iter
		}
	}
	return nil
}

type choice struct {
	name string
	get  func(phi map[*ssa.Phi]Val, st *State) Val
}

func (x *Exec) instantiate(t *Template, fr *Frame, head *ssa.BasicBlock, vals []*BoundVal, progs []progUse, phis []*ssa.Phi, emit func(string, func(phi map[*ssa.Phi]Val, st *State) string)) {
	var choices [][]choice
	within := x.scopeFrames(fr, t.In)
	for _, v := range t.Vars {
		var cs []choice
		switch v.Kind {
		case "done", "rng", "enc":
			ty := x.w.resolveType(x.sf.Pkg, v.Type)
			for _, pu := range progs {
				pu := pu
				if pu.p.cb != nil || within != nil && !within[pu.p.fr] {
					continue
				}
				if v.Kind == "rng" && (!pu.own || pu.p.phi == nil) {
					continue
				}
				if v.Kind == "enc" && pu.own {
					continue
				}
				mt := pu.p.elemT
				if v.Kind == "rng" {
					mt = pu.p.elemT
				}
				if !typeMatch(mt, ty) {
					continue
				}
				cs = append(cs, choice{"<" + pu.p.name + ">", func(phi map[*ssa.Phi]Val, st *State) Val { return x.progVal(pu, phi, st) }})
			}
		case "cb":
			for _, pu := range progs {
				pu := pu
				if pu.p.cb != nil && pu.p.cb.Name == v.Type {
					cs = append(cs, choice{"<" + pu.p.name + ">", func(phi map[*ssa.Phi]Val, st *State) Val { return x.progVal(pu, phi, st) }})
				}
			}
		default:
			ty := x.w.resolveType(x.sf.Pkg, v.Type)
			for _, b := range vals {
				b := b
				if !typeMatch(b.t, ty) {
					continue
				}
				if v.Kind == "phi" {
					ok := b.cell
					for _, p := range phis {
						if b.v == p && b.fr == fr {
							ok = true
						}
					}
					if !ok {
						continue
					}
				}
				if v.Kind == "local" || v.Kind == "param" {
					_, isParam := b.v.(*ssa.Parameter)
					_, isFree := b.v.(*ssa.FreeVar)
					if within != nil && !within[b.fr] || (isParam || isFree) != (v.Kind == "param") {
						continue
					}
				}
				cs = append(cs, choice{b.name, func(phi map[*ssa.Phi]Val, st *State) Val { return b.get(x, phi, st) }})
			}
		}
		if len(cs) == 0 {
			return
		}
		choices = append(choices, cs)
	}
	idx := make([]int, len(choices))
	n := 0
	for {
		sel := make([]choice, len(choices))
		dup := false
		var names []string
		for i, k := range idx {
			sel[i] = choices[i][k]
			for j := 0; j < i; j++ {
				if sel[j].name == sel[i].name && t.Vars[j].Kind == t.Vars[i].Kind {
					dup = true
				}
			}
			names = append(names, sel[i].name)
		}
		if !dup {
			emit(strings.Join(names, ","), func(phi map[*ssa.Phi]Val, st *State) string {
				vars := map[string]Val{}
				for k, v := range x.vars {
					vars[k] = v
				}
				for i, c := range sel {
					vars[t.Vars[i].Name] = c.get(phi, st)
				}
				e := x.ev(x.sf.Pkg, st, x.st0, vars)
				return e.boolT(t.E)
			})
			n++
			if n >= maxCands {
				x.truncated = append(x.truncated, t.Label)
				return
			}
		}
		i := len(idx) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(choices[i]) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// loopIn reports whether a loop of fr belongs to the function called name: it is
// the innermost of the functions that invariants of the unit are restricted to.
// A function that is gone restricts nothing.
func (x *Exec) loopIn(fr *Frame, name string) bool {
	if x.scopes == nil {
		x.scopes = map[string]bool{}
		for _, t := range x.unit.Invs {
			if t.In != "" && x.w.hasFunc(x.top.fn, t.In) {
				x.scopes[t.In] = true
			}
		}
	}
	if !x.scopes[name] {
		return true
	}
	for f := fr; f != nil; f = f.parent {
		if x.scopes[f.fn.Name()] {
			return f.fn.Name() == name
		}
	}
	return false
}

// hasFunc reports whether the package of fn, or fn itself, has a function called name.
func (w *World) hasFunc(fn *ssa.Function, name string) bool {
	if fn.Pkg != nil && fn.Pkg.Func(name) != nil {
		return true
	}
	for _, a := range fn.AnonFuncs {
		if a.Name() == name {
			return true
		}
	}
	return false
}

// scopeFrames are the frames of the function called name around fr, if
// invariants are restricted to it.
func (x *Exec) scopeFrames(fr *Frame, name string) map[*Frame]bool {
	if name == "" || !x.scopes[name] {
		return nil
	}
	r := map[*Frame]bool{}
	for f := fr; f != nil; f = f.parent {
		r[f] = true
		if f.fn.Name() == name {
			break
		}
	}
	return r
}
