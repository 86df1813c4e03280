package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, st **State, i *ssa.Call, c *ssa.CallCommon) Val {
	name := fr.id + "/" + i.Name()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, *st, i, b)
	}
	var args []Val
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		if recv.Dyn != nil {
			m := x.w.prog.LookupMethod(recv.Dyn.T, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				args = append(args, *recv.Dyn)
				for _, a := range c.Args {
					args = append(args, x.val(fr, a))
				}
				return x.callFn(fr, st, m, nil, args, name, i.Pos())
			}
		}
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		if impls, ok := x.w.closedImpls(c.Value.Type()); ok {
			return x.dispatch(fr, st, c.Method, impls, recv, args, c.Signature(), name, i.Pos())
		}
		args = append([]Val{recv}, args...)
		return x.callAbstract(fr, st, c.Method.FullName(), c.Value.Type(), c.Signature(), args, name, i.Pos())
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = x.val(fr, c.Value).Binds
		}
		return x.callFn(fr, st, fn, binds, args, name, i.Pos())
	}
	return x.callValue(fr, st, x.val(fr, c.Value), args, c.Signature(), name, i.Pos())
}

func (x *Exec) callValue(fr *Frame, st **State, f Val, args []Val, sig *types.Signature, name string, pos token.Pos) Val {
	switch {
	case f.Kind == KClosure:
		return x.callFn(fr, st, f.Fn.(*ssa.Function), f.Binds, args, name, pos)
	case f.CB != nil:
		return x.invokeCB(fr, *st, f.CB, args, name, pos)
	}
	if f.Kind == KTerm {
		if cl, ok := x.c.closures[f.S]; ok {
			return x.callFn(fr, st, cl.Fn.(*ssa.Function), cl.Binds, args, name, pos)
		}
	}
	if f.Kind == KTerm && x.unit != nil && x.unit.PureVals {
		x.noteAssumption("function values called by " + x.unit.Fn + " return a value determined by their arguments and change nothing")
		return x.pureResults(fr, *st, "apply", f.T, sig, append([]Val{f}, args...))
	}
	if full := x.inert[f.S]; f.Kind == KTerm && full != "" {
		x.noteAssumption("the function returned by " + full + " has no effect on the state the contracts describe")
		return pack(sig.Results(), x.freshResults(fr, *st, sig, name))
	}
	unsup("call of unknown function value in %s", fr.fn)
	return Val{}
}

// results packs result values.
func pack(t *types.Tuple, vs []Val) Val {
	switch len(vs) {
	case 0:
		return Val{Kind: KTuple}
	case 1:
		return vs[0]
	}
	return Val{Kind: KTuple, T: t, Elems: vs}
}

func (x *Exec) freshResults(fr *Frame, st *State, sig *types.Signature, name string) []Val {
	var vs []Val
	for k := 0; k < sig.Results().Len(); k++ {
		t := sig.Results().At(k).Type()
		s := x.c.sortOf(t)
		v := term(t, s, x.c.fresh(fmt.Sprintf("%s.r%d", name, k), s))
		x.wf(fr.guard, st, v)
		vs = append(vs, v)
	}
	return vs
}

// callAbstract handles calls known only by name (interface methods, functions
// outside the module).
func (x *Exec) callAbstract(fr *Frame, st **State, full string, recvT types.Type, sig *types.Signature, args []Val, name string, pos token.Pos) Val {
	if r, ok := x.extern(fr, st, full, sig, args, name, pos); ok {
		return r
	}
	if c := x.w.byFn[full]; c != nil && !x.w.inlined[full] {
		return x.useContract(fr, st, c, sig, nil, args, name, pos)
	}
	if x.w.pure[full] {
		return x.pureResults(fr, *st, full, recvT, sig, args)
	}
	if x.w.noeff[full] {
		x.externs[full] = "no effect on the state the contracts describe; arbitrary result"
		return pack(sig.Results(), x.freshResults(fr, *st, sig, name))
	}
	unsup("call to %s has no contract", full)
	return Val{}
}

func (x *Exec) pureResults(fr *Frame, st *State, full string, recvT types.Type, sig *types.Signature, args []Val) Val {
	var ts []types.Type
	var as []string
	for k, a := range args {
		t := a.T
		if recvT != nil {
			if k == 0 {
				t = recvT
			} else {
				t = sig.Params().At(k - 1).Type()
			}
		} else if sig.Recv() != nil {
			if k == 0 {
				t = sig.Recv().Type()
			} else {
				t = sig.Params().At(k - 1).Type()
			}
		} else if k < sig.Params().Len() {
			t = sig.Params().At(k).Type()
		}
		ts = append(ts, t)
		as = append(as, x.asTermOf(fr, st, a, t))
	}
	var vs []Val
	for k := 0; k < sig.Results().Len(); k++ {
		v := x.pureApp(full, ts, as, sig.Results().At(k).Type(), k, st)
		x.wf(fr.guard, st, v)
		vs = append(vs, v)
	}
	return pack(sig.Results(), vs)
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	if p := fn.Parent(); p != nil {
		return inModule(p)
	}
	return false
}

func (x *Exec) callFn(fr *Frame, st **State, fn *ssa.Function, binds, args []Val, name string, pos token.Pos) Val {
	full := fullName(fn)
	c := x.w.byFn[full]
	if c == nil || !c.Trusted {
		if r, ok := x.extern(fr, st, full, fn.Signature, args, name, pos); ok {
			return r
		}
	}
	if c != nil && !x.w.inlined[full] && !c.Inline && (!c.tracesEvents() || c.Trusted || len(c.Events) > 0) {
		if x.unit != nil && x.unit.tracesEvents() && inModule(fn) && !c.Trusted {
			x.noteAssumption("what " + full + " itself prints is not part of the trace of its callers")
		}
		return x.useContract(fr, st, c, fn.Signature, fn, append(append([]Val(nil), args...), binds...), name, pos)
	}
	if x.w.pure[full] && c == nil {
		return x.pureResults(fr, *st, full, nil, fn.Signature, args)
	}
	if x.w.noeff[full] {
		x.externs[full] = "no effect on the state the contracts describe; arbitrary result"
		rs := x.freshResults(fr, *st, fn.Signature, name)
		x.foreignErrors(fr, fn, rs)
		x.noteInert(full, rs)
		return pack(fn.Signature.Results(), rs)
	}
	if inModule(fn) || x.w.inline[full] {
		if len(fn.Blocks) == 0 && fn.Synthetic != "" {
			unsup("synthetic %s without body", fn)
		}
		return x.inlineFn(fr, st, fn, binds, args, name)
	}
	unsup("call to %s has no contract", full)
	return Val{}
}

func (x *Exec) inlineFn(fr *Frame, st **State, fn *ssa.Function, binds, args []Val, name string) Val {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			unsup("recursive call of %s without a contract", fn)
		}
	}
	if x.depth > 24 {
		unsup("inlining too deep at %s", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	if len(fn.Blocks) == 0 {
		x.w.build(fn)
	}
	nf := &Frame{id: name, fn: fn, parent: fr, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		nf.env[f] = binds[i]
	}
	x.inlinedFns[fn.String()] = true
	rets := x.execFn(nf, (*st).clone(), fr.guard)
	if len(rets) == 0 {
		fr.guard = "false"
		return pack(fn.Signature.Results(), x.freshResultsZero(fn.Signature))
	}
	var gs []string
	var sts []*State
	for _, r := range rets {
		gs = append(gs, r.guard)
		sts = append(sts, r.st)
	}
	if len(rets) > 1 {
		fr.guard = x.c.define(name+".ret", "Bool", or(gs...))
	} else {
		fr.guard = gs[0]
	}
	out := x.mergeStates(gs, sts, name+".ret")
	var vs []Val
	for k := 0; k < fn.Signature.Results().Len(); k++ {
		var rv []Val
		for _, r := range rets {
			rv = append(rv, r.vals[k])
		}
		vs = append(vs, x.mergeVals(nf, out, gs, rv, fn.Signature.Results().At(k).Type(), fmt.Sprintf("%s.res%d", name, k)))
	}
	*st = out
	return pack(fn.Signature.Results(), vs)
}

func (x *Exec) freshResultsZero(sig *types.Signature) []Val {
	var vs []Val
	for k := 0; k < sig.Results().Len(); k++ {
		t := sig.Results().At(k).Type()
		vs = append(vs, term(t, x.c.sortOf(t), x.c.zero(t)))
	}
	return vs
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, i *ssa.Call, b *ssa.Builtin) Val {
	name := fr.id + "." + i.Name()
	var args []Val
	for _, a := range i.Call.Args {
		args = append(args, x.val(fr, a))
	}
	switch b.Name() {
	case "len":
		v := args[0]
		if v.Kind == KTerm && v.S == "" && v.Elems != nil {
			return intVal(fmt.Sprint(len(v.Elems)))
		}
		switch u := under(i.Call.Args[0].Type()).(type) {
		case *types.Slice:
			return intVal(x.slenT(x.asTerm(v)))
		case *types.Basic:
			if v.IsLit {
				return intVal(fmt.Sprint(len(v.Lit)))
			}
			return intVal("(slen " + x.asTerm(v) + ")")
		case *types.Map:
			return intVal(x.mapLen(st, u, x.asTerm(v)))
		case *types.Array:
			return intVal(fmt.Sprint(u.Len()))
		case *types.Pointer:
			return intVal(fmt.Sprint(under(u.Elem()).(*types.Array).Len()))
		}
	case "cap":
		v := intVal(x.c.fresh(name, "Int"))
		if _, ok := under(i.Call.Args[0].Type()).(*types.Slice); ok {
			x.c.assume(fr.guard, "(>= "+v.S+" "+x.slenT(x.asTermOf(fr, st, args[0], i.Call.Args[0].Type()))+")")
		}
		return v
	case "append":
		return x.appendOp(fr, st, i.Type(), args[0], args[1], name)
	case "delete":
		mt := under(i.Call.Args[0].Type()).(*types.Map)
		m := x.asTerm(args[0])
		k := x.asTermOf(fr, st, args[1], mt.Key())
		md := x.compMD(mt)
		h := x.H(st, md)
		x.setH(st, md, store(h, m, store(sel(h, m), k, "false")))
		x.recordWrite(fr, md, m)
		return Val{Kind: KTuple}
	case "clear":
		mt, ok := under(i.Call.Args[0].Type()).(*types.Map)
		if !ok {
			sl := under(i.Call.Args[0].Type()).(*types.Slice)
			s := x.asTermOf(fr, st, args[0], i.Call.Args[0].Type())
			comp := x.compE(sl.Elem())
			h := x.H(st, comp)
			es := x.c.sortOf(sl.Elem())
			na := x.c.fresh(name+".clr", "(Array Int "+es+")")
			old := x.c.define(name+".old", "(Array Int "+es+")", sel(h, x.sref(s)))
			lo, hi := x.soff(s), add(x.soff(s), x.slenT(s))
			x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (= (select %s p) (ite (and (<= %s p) (< p %s)) %s (select %s p))) :pattern ((select %s p)) :pattern ((select %s p))))", na, lo, hi, x.c.zero(sl.Elem()), old, na, old))
			x.setH(st, comp, store(h, x.sref(s), na))
			x.recordWrite(fr, comp, x.sref(s))
			return Val{Kind: KTuple}
		}
		m := x.asTerm(args[0])
		md := x.compMD(mt)
		x.setH(st, md, store(x.H(st, md), m, "((as const (Array "+x.c.sortOf(mt.Key())+" Bool)) false)"))
		x.recordWrite(fr, md, m)
		return Val{Kind: KTuple}
	case "copy":
		return x.copyOp(fr, st, i, args, name)
	case "min", "max":
		if x.c.sortOf(i.Type()) == "Int" {
			op := "<="
			if b.Name() == "max" {
				op = ">="
			}
			r := x.asTerm(args[0])
			for _, a := range args[1:] {
				t := x.asTerm(a)
				r = ite("("+op+" "+r+" "+t+")", r, t)
			}
			return term(i.Type(), "Int", x.c.define(name, "Int", r))
		}
	case "print", "println":
		return Val{Kind: KTuple}
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsup("builtin %s", b.Name())
	return Val{}
}

func (x *Exec) mapLen(st *State, mt *types.Map, m string) string {
	ks := x.c.sortOf(mt.Key())
	f := q("card:" + ks)
	x.c.declFun(f, []string{"(Array " + ks + " Bool)"}, "Int")
	w := q("cardw:" + ks)
	x.c.declFun(w, []string{"(Array " + ks + " Bool)"}, ks)
	x.c.axiom("card:"+ks, fmt.Sprintf("(forall ((s (Array %s Bool))) (! (and (>= (%s s) 0) (=> (> (%s s) 0) (select s (%s s)))) :pattern ((%s s))))", ks, f, f, w, f))
	x.c.axiom("card0:"+ks, fmt.Sprintf("(forall ((s (Array %s Bool)) (k %s)) (! (=> (select s k) (> (%s s) 0)) :pattern ((%s s) (select s k))))", ks, ks, f, f))
	return "(" + f + " " + x.dom(st, mt, m) + ")"
}

func (x *Exec) copyOp(fr *Frame, st *State, i *ssa.Call, args []Val, name string) Val {
	dt, ok := under(i.Call.Args[0].Type()).(*types.Slice)
	_, ok2 := under(i.Call.Args[1].Type()).(*types.Slice)
	if !ok || !ok2 {
		unsup("copy from string")
	}
	d := x.asTermOf(fr, st, args[0], i.Call.Args[0].Type())
	s := x.asTermOf(fr, st, args[1], i.Call.Args[1].Type())
	n := x.c.define(name, "Int", ite("(<= "+x.slenT(d)+" "+x.slenT(s)+")", x.slenT(d), x.slenT(s)))
	comp := x.compE(dt.Elem())
	es := x.c.sortOf(dt.Elem())
	h := x.H(st, comp)
	na := x.c.fresh(name+".arr", "(Array Int "+es+")")
	x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (= (select %s p) (ite (and (<= %s p) (< p %s)) (select (select %s %s) (+ %s (- p %s))) (select (select %s %s) p))) :pattern ((select %s p))))",
		na, x.soff(d), add(x.soff(d), n), h, x.sref(s), x.soff(s), x.soff(d), h, x.sref(d), na))
	x.setH(st, comp, store(h, x.sref(d), na))
	x.recordWrite(fr, comp, x.sref(d))
	return intVal(n)
}

func (x *Exec) appendOp(fr *Frame, st *State, t types.Type, s, more Val, name string) Val {
	et := under(t).(*types.Slice).Elem()
	es := x.c.sortOf(et)
	if b, ok := under(more.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		unsup("append of string to bytes")
	}
	if s.Kind == KTerm && s.S == "" && s.Elems != nil && more.Elems != nil && more.S == "" {
		r := Val{Kind: KTerm, T: t, Sort: "Slice"}
		r.Elems = append(append([]Val{}, s.Elems...), more.Elems...)
		return r
	}
	sv := x.asTermOf(fr, st, s, t)
	comp := x.compE(et)
	if more.Kind == KTerm && more.S == "" && more.Elems != nil {
		if len(more.Elems) == 0 {
			return term(t, "Slice", sv)
		}
		nr := x.allocRef(fr, st, name+".new")
		h := x.H(st, comp)
		inplace := "false"
		if !strings.HasPrefix(sv, "(mk-slice 0 ") {
			inplace = x.c.fresh(name+".inplace", "Bool")
			x.c.assume("true", implies(inplace, not(eq(x.sref(sv), "0"))))
		}
		ref := x.c.define(name+".ref", "Int", ite(inplace, x.sref(sv), nr))
		arr := sel(h, x.sref(sv))
		off := x.soff(sv)
		n := x.slenT(sv)
		var idxs, vals []string
		for k, e := range more.Elems {
			idx := add(off, n)
			if k > 0 {
				idx = add(idx, fmt.Sprint(k))
			}
			v := x.asTermOf(fr, st, e, et)
			idxs, vals = append(idxs, idx), append(vals, v)
			arr = store(arr, idx, v)
		}
		// materialising elements may have changed the component
		h = x.H(st, comp)
		old := x.c.define(name+".old", "(Array Int "+es+")", sel(h, x.sref(sv)))
		na := x.c.define(name+".arr", "(Array Int "+es+")", arr)
		x.setH(st, comp, store(h, ref, na))
		// the elements kept, seen from the old slice
		x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (=> (and (<= %s p) (< p %s)) (= (select %s p) (select %s p))) :pattern ((select %s p))))",
			off, add(off, n), na, old, old))
		for k := range idxs {
			x.c.assume("true", fmt.Sprintf("(= (select %s %s) %s)", na, idxs[k], vals[k]))
		}
		x.recordAppend(fr, comp, sv, ref, nr, inplace)
		return term(t, "Slice", x.c.define(name, "Slice", fmt.Sprintf("(mk-slice %s %s %s)", ref, off, add(n, fmt.Sprint(len(more.Elems))))))
	}
	// append(s, t...)
	mv := x.asTermOf(fr, st, more, more.T)
	nr := x.allocRef(fr, st, name+".new")
	h := x.H(st, comp)
	inplace := "false"
	if !strings.HasPrefix(sv, "(mk-slice 0 ") {
		inplace = x.c.fresh(name+".inplace", "Bool")
		x.c.assume("true", implies(inplace, not(eq(x.sref(sv), "0"))))
	}
	empty := eq(x.slenT(mv), "0")
	ref := x.c.define(name+".ref", "Int", ite(or(inplace, empty), x.sref(sv), nr))
	na := x.c.fresh(name+".arr", "(Array Int "+es+")")
	old := x.c.define(name+".old", "(Array Int "+es+")", sel(h, x.sref(sv)))
	src := x.c.define(name+".src", "(Array Int "+es+")", sel(h, x.sref(mv)))
	lo := add(x.soff(sv), x.slenT(sv))
	hi := add(lo, x.slenT(mv))
	x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (= (select %s p) (ite (and (<= %s p) (< p %s)) (select %s (+ %s (- p %s))) (select %s p))) :pattern ((select %s p)) :pattern ((select %s p))))",
		na, lo, hi, src, x.soff(mv), lo, old, na, old))
	// the elements appended, seen from the source side
	x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (=> (and (<= %s p) (< p %s)) (= (select %s (+ %s (- p %s))) (select %s p))) :pattern ((select %s p))))",
		x.soff(mv), add(x.soff(mv), x.slenT(mv)), na, lo, x.soff(mv), src, src))
	x.setH(st, comp, store(h, ref, na))
	x.recordAppend(fr, comp, sv, ref, nr, inplace)
	return term(t, "Slice", x.c.define(name, "Slice", fmt.Sprintf("(mk-slice %s %s (+ %s %s))", ref, x.soff(sv), x.slenT(sv), x.slenT(mv))))
}

func (x *Exec) recordAppend(fr *Frame, comp, sv, ref, nr, inplace string) {
	x.recordWrite(fr, comp, nr)
	if inplace != "false" {
		x.recordWrite(fr, comp, x.sref(sv))
	}
}

// ---- contracts at call sites ----

// contractVars binds the parameter names of c.
func (x *Exec) contractVars(c *Contract, fn *ssa.Function, args []Val) map[string]Val {
	vars := map[string]Val{}
	n := len(args)
	if fn != nil {
		n = len(args) - len(fn.FreeVars)
		for i, f := range fn.FreeVars {
			if n+i < len(args) {
				vars[f.Name()] = args[n+i]
			}
		}
	}
	if len(c.Params) != n {
		specErr("contract of %s has %d parameters, function has %d", c.Fn, len(c.Params), n)
	}
	for i, p := range c.Params {
		vars[p] = args[i]
	}
	return vars
}

type modTarget struct {
	comp  string
	pred  func(r string) string // nil: everything
	one   string                // single reference
	fresh bool                  // only objects allocated by the callee
}

// modTargets interprets the modifies clauses of c in state st.
func (x *Exec) modTargets(c *Contract, sf *SpecFile, vars map[string]Val, st *State) []modTarget {
	st = st.clone() // what may be modified is determined before anything is
	var out []modTarget
	for _, m := range c.Modifies {
		m := m
		var comps []string
		ty := m.Type
		field := ""
		if i := strings.LastIndex(ty, "."); i > 0 {
			// T.f
			func() {
				defer func() { recover() }()
				t := x.w.resolveType(sf.Pkg, ty[:i])
				if cm, _ := x.compGF(t, ty[i+1:]); cm != "" {
					field = ty[i+1:]
					comps = append(comps, cm)
					return
				}
				if s, ok := under(t).(*types.Struct); ok {
					for k := 0; k < s.NumFields(); k++ {
						if s.Field(k).Name() == ty[i+1:] {
							field = ty[i+1:]
							comps = append(comps, x.compF(t, k))
						}
					}
				}
			}()
		}
		if field == "" {
			t := x.w.resolveType(sf.Pkg, ty)
			switch u := under(t).(type) {
			case *types.Map:
				comps = append(comps, x.compMD(u))
				if x.c.sortOf(u.Elem()) != "Unit" {
					comps = append(comps, x.compMV(u))
				}
			case *types.Slice:
				comps = append(comps, x.compE(u.Elem()))
			case *types.Struct:
				for k := 0; k < u.NumFields(); k++ {
					comps = append(comps, x.compF(t, k))
				}
			case *types.Pointer:
				comps = append(comps, x.compC(u.Elem()))
			default:
				comps = append(comps, x.compC(t))
			}
		}
		ev := x.ev(sf.Pkg, st, st, vars)
		mt := modTarget{}
		if m.E.Op == "bin" && m.E.Name == "==" && m.E.Args[0].Op == "id" && m.E.Args[0].Name == m.Var {
			v := ev.eval(m.E.Args[1])
			if v.Sort == "Slice" {
				mt.one = x.sref(ev.termOf(v))
			} else {
				mt.one = ev.termOf(v)
			}
		} else if m.E.Op == "call" && m.E.Args[0].Name == "fresh" {
			mt.fresh = true
		} else {
			mt.pred = func(r string) string { return ev.bind(m.Var, intVal(r)).boolT(m.E) }
		}
		for _, cm := range comps {
			t := mt
			t.comp = cm
			out = append(out, t)
		}
	}
	return out
}

// applyMods havocs what the modifies clauses allow.
func (x *Exec) applyMods(fr *Frame, st *State, mts []modTarget, name string, Acall string) {
	for k, m := range mts {
		h := x.H(st, m.comp)
		if m.one != "" {
			v := x.c.fresh(fmt.Sprintf("%s.mod%d", name, k), arrayElemSort(x.compSort[m.comp]))
			x.setH(st, m.comp, store(h, m.one, v))
			x.recordWrite(fr, m.comp, m.one)
			delete(st.known, m.comp+"\x00"+m.one)
			x.forgetNonAlloc(st, m.comp, m.one)
			continue
		}
		n := x.c.fresh(fmt.Sprintf("%s.mod%d", name, k), x.compSort[m.comp])
		keep := "(< r " + Acall + ")"
		if !m.fresh {
			keep = and(keep, not(m.pred("r")))
		}
		x.c.lines = append(x.c.lines, fmt.Sprintf("(assert (forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r)))))", keep, n, h, n))
		st.heap[m.comp] = n
		if m.fresh {
			x.recordFresh(fr, m.comp)
		} else {
			x.recordWrite(fr, m.comp, "")
			x.forget(st, m.comp)
		}
	}
}

func (x *Exec) forgetNonAlloc(st *State, comp, ref string) {
	if !x.c.alloc[ref] {
		x.forget(st, comp)
	}
}

func (x *Exec) recordFresh(fr *Frame, comp string) {
	x.written[comp] = true
	for f := fr; f != nil; f = f.parent {
		for _, l := range f.loops {
			if l.body[f.cur] {
				if r := x.rec[loopKey(f, l)]; r != nil {
					r.mod(comp).Fresh = true
				}
			}
		}
		for _, g := range f.ghosts {
			if r := x.rec[g.key]; r != nil {
				r.mod(comp).Fresh = true
			}
		}
	}
}

func (x *Exec) useContract(fr *Frame, stp **State, c *Contract, sig *types.Signature, fn *ssa.Function, args []Val, name string, pos token.Pos) Val {
	sf := x.w.specOf[c]
	st := *stp
	x.usedContracts[c.Fn] = true
	if x.termMode && !c.Pure {
		return x.contractTerm(st, c, sf, sig, fn, args)
	}
	vars := x.contractVars(c, fn, args)
	ncall := len(args)
	if fn != nil {
		ncall -= len(fn.FreeVars)
	}
	// materialise literal slices
	ptypes := paramTypes(sig, ncall)
	for i, p := range c.Params {
		v := vars[p]
		if v.Kind == KTerm && v.S == "" && v.Elems != nil {
			if c.KeepLits {
				continue
			}
			v.S = x.materialise(fr, st, &v)
			v.Elems = nil
			vars[p] = v
		}
		_ = i
	}
	_ = ptypes
	pre := st.clone()
	short := c.Fn
	if i := strings.LastIndex(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	// callbacks
	cbs := map[string]*Callback{}
	for k, v := range x.cbs {
		cbs[k] = v
	}
	ev := x.ev(sf.Pkg, st, pre, vars)
	var shared []*Callback
	for _, spec := range c.Callbacks {
		if spec.Shared {
			cb := x.sharedCalls(fr, st, spec, vars[spec.Name], sf, vars, name, pos)
			cbs[spec.Name] = cb
			shared = append(shared, cb)
		}
	}
	ev.cbs = cbs
	for _, r := range c.Requires {
		x.oblige(&Obligation{Kind: "requires", Label: "call " + short + " requires " + r.Label, Name: name + "/pre:" + r.Label, Guard: fr.guard, Goal: ev.boolT(r.E), Where: x.w.pos(pos), Src: r.Src})
		x.c.assume(fr.guard, ev.boolT(r.E))
	}
	Acall := x.A(st)
	mts := x.modTargets(c, sf, vars, st)
	if len(c.Callbacks) > 0 {
		st = x.ghostCalls(fr, st, c, sf, sig, vars, mts, Acall, name, pos, cbs)
	}
	if !c.Pure {
		// the callee may allocate
		a := x.c.fresh(name+".A", "Int")
		x.c.lines = append(x.c.lines, fmt.Sprintf("(assert (>= %s %s))", a, x.A(st)))
		st.heap["A"] = a
		x.recordWrite(fr, "A", "")
	}
	x.applyMods(fr, st, mts, name, Acall)
	for _, cb := range shared {
		x.havocShared(fr, st, cb, name)
	}
	if c.NoReturn {
		for _, ev := range c.Events {
			x.emit(fr, st, ev, vars, sf)
		}
		fr.guard = "false"
		*stp = st
		return pack(sig.Results(), x.freshResultsZero(sig))
	}
	var vs []Val
	if c.Pure {
		full := c.Fn
		r := x.pureResults(fr, st, full, recvTypeOf(fn, sig, args), sig, args[:ncall])
		if r.Kind == KTuple {
			vs = r.Elems
		} else {
			vs = []Val{r}
		}
	} else {
		vs = x.freshResults(fr, st, sig, name)
		x.foreignErrors(fr, fn, vs)
		if c.Trusted {
			x.noteInert(c.Fn, vs)
		}
	}
	for i, r := range c.Results {
		if i < len(vs) {
			vars[r] = vs[i]
		}
	}
	for _, ev := range c.Events {
		x.emit(fr, st, ev, vars, sf)
	}
	ev = x.ev(sf.Pkg, st, pre, vars)
	ev.cbs = cbs
	for _, e := range append(append([]*Clause(nil), c.Ensures...), c.Assumes...) {
		if e.traces {
			continue // about the callee's own trace
		}
		x.c.assume(fr.guard, ev.boolT(e.E))
	}
	for _, cb := range shared {
		x.checkShared(fr, pre, st, cb, name, pos)
	}
	*stp = st
	return pack(sig.Results(), vs)
}

// contractTerm gives the result of a function under contract as a term over its
// arguments, for functions that change nothing: in a fixed state the result is
// determined by the arguments, and the postconditions hold for all of them.
func (x *Exec) contractTerm(st *State, c *Contract, sf *SpecFile, sig *types.Signature, fn *ssa.Function, args []Val) Val {
	if fn == nil || len(fn.FreeVars) > 0 || len(c.Modifies)+len(c.Callbacks)+len(c.Events)+len(c.Requires) > 0 || c.NoReturn || sig.Results().Len() != 1 || len(args) == 0 || len(c.Params) != len(args) {
		unsup("call to %s in an order", c.Fn)
	}
	f := q(fmt.Sprintf("ct:%s#%d", c.Fn, len(x.termLines)))
	vars := map[string]Val{}
	var ss, bs, ns, as []string
	for i, p := range c.Params {
		t := fn.Params[i].Type()
		so := x.c.sortOf(t)
		n := "ct." + p
		vars[p] = term(t, so, n)
		ss = append(ss, so)
		ns = append(ns, n)
		bs = append(bs, "("+n+" "+so+")")
		as = append(as, x.asTerm(args[i]))
	}
	rt := sig.Results().At(0).Type()
	rs := x.c.sortOf(rt)
	if len(c.Results) == 1 {
		vars[c.Results[0]] = term(rt, rs, "("+f+" "+strings.Join(ns, " ")+")")
	}
	ev := x.ev(sf.Pkg, st, st, vars)
	var fs []string
	for _, e := range c.Ensures {
		if !e.traces {
			fs = append(fs, ev.boolT(e.E))
		}
	}
	x.termLines = append(x.termLines,
		fmt.Sprintf("(declare-fun %s (%s) %s)", f, strings.Join(ss, " "), rs),
		fmt.Sprintf("(assert (forall (%s) (! %s :pattern ((%s %s)))))", strings.Join(bs, " "), and(fs...), f, strings.Join(ns, " ")))
	return term(rt, rs, "("+f+" "+strings.Join(as, " ")+")")
}

// noteInert remembers the functions that a function without effects returns.
func (x *Exec) noteInert(full string, vs []Val) {
	for _, r := range vs {
		if r.T == nil {
			continue
		}
		if _, ok := under(r.T).(*types.Signature); ok {
			x.inert[r.S] = full
		}
	}
}

// foreignErrors states that the errors a function returns are not of the error
// types of packages that its own package does not import.
func (x *Exec) foreignErrors(fr *Frame, fn *ssa.Function, vs []Val) {
	if fn == nil {
		return
	}
	p := fn.Pkg
	if p == nil {
		return
	}
	errT := types.Universe.Lookup("error").Type()
	for _, v := range vs {
		if v.T == nil || !types.Identical(v.T, errT) {
			continue
		}
		for _, t := range x.w.errorTypes() {
			if q := t.Obj().Pkg(); q != p.Pkg && !x.w.importsPkg(p.Pkg, q) {
				x.noteAssumption("functions of packages that do not import " + q.Path() + " return no errors of its type " + t.Obj().Name())
				x.c.assume(fr.guard, not(eq("(i.tag "+v.S+")", x.c.tagOf(t))))
			}
		}
	}
}

// errorTypes are the error types declared by the module.
func (w *World) errorTypes() []*types.Named {
	if w.errTypes == nil {
		w.errTypes = []*types.Named{}
		it := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
		var paths []string
		for path := range w.pkgs {
			if strings.HasPrefix(path, modPath) {
				paths = append(paths, path)
			}
		}
		sort.Strings(paths)
		for _, path := range paths {
			sc := w.pkgs[path].Types.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
					if t, ok := tn.Type().(*types.Named); ok && t.TypeParams().Len() == 0 && types.Implements(t, it) {
						w.errTypes = append(w.errTypes, t)
					}
				}
			}
		}
	}
	return w.errTypes
}

// importsPkg reports whether p imports q, directly or not.
func (w *World) importsPkg(p, q *types.Package) bool {
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package) bool
	visit = func(p *types.Package) bool {
		if p.Path() == q.Path() {
			return true
		}
		if seen[p] {
			return false
		}
		seen[p] = true
		for _, i := range p.Imports() {
			if visit(i) {
				return true
			}
		}
		return false
	}
	return visit(p)
}

func recvTypeOf(fn *ssa.Function, sig *types.Signature, args []Val) types.Type {
	if fn == nil && len(args) == sig.Params().Len()+1 {
		return args[0].T
	}
	return nil
}

func paramTypes(sig *types.Signature, n int) []types.Type {
	var ts []types.Type
	if sig.Recv() != nil && sig.Params().Len()+1 == n {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

// ---- callbacks ----

func (x *Exec) newCallback(comp string, spec *CallbackSpec, sig *types.Signature, keyT []types.Type) *Callback {
	cb := &Callback{Spec: spec, Sig: sig, Comp: comp, Name: spec.Name, KeyT: keyT}
	so := "Bool"
	for i := len(keyT) - 1; i >= 0; i-- {
		so = "(Array " + x.c.sortOf(keyT[i]) + " " + so + ")"
	}
	x.comp(comp, so)
	if len(keyT) > 0 {
		x.comp(comp+":n", "(Array "+x.c.sortOf(keyT[0])+" Int)")
		if spec.Class != nil {
			x.comp(comp+":t", "(Array "+x.c.sortOf(keyT[0])+" Int)")
		}
	}
	return cb
}

func (x *Exec) emptySet(cb *Callback) string {
	so := "Bool"
	t := "false"
	for i := len(cb.KeyT) - 1; i >= 0; i-- {
		so = "(Array " + x.c.sortOf(cb.KeyT[i]) + " " + so + ")"
		t = "((as const " + so + ") " + t + ")"
	}
	return t
}

func (x *Exec) initCallback(st *State, cb *Callback) {
	if len(cb.KeyT) == 0 {
		st.heap[cb.Comp] = "false"
		return
	}
	st.heap[cb.Comp] = x.emptySet(cb)
	for _, k := range cb.counters() {
		st.heap[k] = "((as const " + x.compSort[k] + ") 0)"
	}
}

func (x *Exec) calledTerm(e *Ev, st *State, cb *Callback, ks []Val) string {
	t := x.H(st, cb.Comp)
	if len(ks) != len(cb.KeyT) {
		specErr("callback %s has %d keys", cb.Name, len(cb.KeyT))
	}
	for i, k := range ks {
		t = sel(t, e.conv(k, cb.KeyT[i]))
	}
	return t
}

// counters are the components counting calls by first key: all calls, and
// those of the callback's class.
func (cb *Callback) counters() []string {
	if cb.Spec.Class == nil {
		return []string{cb.Comp + ":n"}
	}
	return []string{cb.Comp + ":n", cb.Comp + ":t"}
}

func (x *Exec) ncallsTerm(e *Ev, st *State, cb *Callback, ks []Val) string {
	if len(ks) == 2 {
		if cb.Spec.Class == nil {
			specErr("callback %s has no class", cb.Name)
		}
		return sel(x.H(st, cb.Comp+":t"), e.conv(ks[0], cb.KeyT[0]))
	}
	return sel(x.H(st, cb.Comp+":n"), e.conv(ks[0], cb.KeyT[0]))
}

func (x *Exec) markCalled(fr *Frame, st *State, cb *Callback, keys []string, class string) {
	if len(keys) == 0 {
		st.heap[cb.Comp] = "true"
		x.recordWrite(fr, cb.Comp, "")
		return
	}
	var upd func(t string, ks []string) string
	upd = func(t string, ks []string) string {
		if len(ks) == 1 {
			return store(t, ks[0], "true")
		}
		return store(t, ks[0], upd(sel(t, ks[0]), ks[1:]))
	}
	before := x.H(st, cb.Comp)
	x.setH(st, cb.Comp, upd(before, keys))
	// the calls made before, seen from the old record
	var bs, eqs []string
	was, now := before, x.H(st, cb.Comp)
	for i, k := range keys {
		v := fmt.Sprintf("k%d", i)
		bs = append(bs, "("+v+" "+x.c.sortOf(cb.KeyT[i])+")")
		eqs = append(eqs, eq(v, k))
		was, now = "(select "+was+" "+v+")", "(select "+now+" "+v+")"
	}
	if strings.HasPrefix(before, "|") {
		x.c.assume("true", fmt.Sprintf("(forall (%s) (! (= %s (or %s %s)) :pattern (%s)))", strings.Join(bs, " "), now, was, and(eqs...), was))
	}
	n := x.H(st, cb.Comp+":n")
	x.setH(st, cb.Comp+":n", store(n, keys[0], "(+ 1 "+sel(n, keys[0])+")"))
	if class != "" {
		n := x.H(st, cb.Comp+":t")
		x.setH(st, cb.Comp+":t", ite(class, store(n, keys[0], "(+ 1 "+sel(n, keys[0])+")"), n))
	}
	x.recordWrite(fr, cb.Comp, "")
	for _, k := range cb.counters() {
		x.recordWrite(fr, k, "")
	}
}

// classOf is whether the call described by ev belongs to the callback's class.
func (x *Exec) classOf(ev *Ev, spec *CallbackSpec) string {
	if spec.Class == nil {
		return ""
	}
	return ev.boolT(spec.Class)
}

// keyTypes infers the types of a callback's key expressions.
func (x *Exec) keyTypes(spec *CallbackSpec, sig *types.Signature, sf *SpecFile) []types.Type {
	var out []types.Type
	for _, k := range spec.Key {
		found := false
		for i, p := range spec.Params {
			if k.Op == "id" && k.Name == p {
				out = append(out, sig.Params().At(i).Type())
				found = true
			}
		}
		if !found {
			vars := map[string]Val{}
			for i, p := range spec.Params {
				t := sig.Params().At(i).Type()
				vars[p] = term(t, x.c.sortOf(t), "dummy")
			}
			out = append(out, x.ev(sf.Pkg, newState(), newState(), vars).eval(k).T)
		}
	}
	return out
}

// invokeCB: the unit under verification calls one of its callback parameters.
func (x *Exec) invokeCB(fr *Frame, st *State, cb *Callback, args []Val, name string, pos token.Pos) Val {
	vars := map[string]Val{}
	for k, v := range x.vars {
		vars[k] = v
	}
	for i, p := range cb.Spec.Params {
		vars[p] = args[i]
	}
	ev := x.ev(x.sf.Pkg, st, x.st0, vars)
	for _, r := range cb.Spec.Requires {
		g := ev.boolT(r.E)
		x.oblige(&Obligation{Kind: "callback", Label: "callback " + cb.Name + " " + r.Label, Name: name + "/cb:" + cb.Name + ":" + r.Label, Guard: fr.guard, Goal: g, Where: x.w.pos(pos), Src: r.Src})
		x.c.assume(fr.guard, g)
	}
	var keys []string
	var kvs []Val
	for i, k := range cb.Spec.Key {
		v := ev.eval(k)
		kvs = append(kvs, v)
		keys = append(keys, ev.conv(v, cb.KeyT[i]))
	}
	if cb.Spec.Once {
		x.oblige(&Obligation{Kind: "callback", Label: "callback " + cb.Name + " at most once per key", Name: name + "/cb:" + cb.Name + ":once", Guard: fr.guard, Goal: not(x.calledTerm(ev, st, cb, kvs)), Where: x.w.pos(pos), Src: "once"})
	}
	if cb.Spec.Records {
		x.markCalled(fr, st, cb, keys, x.classOf(ev, cb.Spec))
	}
	for _, u := range cb.Spec.Sets {
		v := ev.eval(u.E)
		comp := x.ghostVar(u.Name, v.Sort)
		st.heap[comp] = x.c.define("H:"+comp, v.Sort, ev.termOf(v))
		x.recordWrite(fr, comp, "")
	}
	x.noteAssumption("callback functions do not modify the data structures of the function calling them")
	if cb.Spec.Result != nil && cb.Sig.Results().Len() == 1 {
		t := cb.Sig.Results().At(0).Type()
		return term(t, x.c.sortOf(t), ev.conv(ev.eval(cb.Spec.Result), t))
	}
	return pack(cb.Sig.Results(), x.freshResults(fr, st, cb.Sig, name))
}

func (x *Exec) ghostVar(name, sort string) string { return x.comp("G:var:"+name, sort) }

// sharedCalls models the calls a closure makes to a callback it has captured
// from the unit under verification: the unit's record of calls becomes
// arbitrary, and is then described by the closure's postconditions.
func (x *Exec) sharedCalls(fr *Frame, st *State, spec *CallbackSpec, cell Val, sf *SpecFile, vars map[string]Val, name string, pos token.Pos) *Callback {
	var cb *Callback
	if own := x.cbs[spec.Name]; own != nil && own.Spec.Shared && cell.S == x.vars[spec.Name].S {
		cb = own
	} else if cell.T != nil {
		if _, ok := under(cell.T).(*types.Pointer); ok {
			cb = x.load(fr, st, x.deref(cell), name+":"+spec.Name).CB
		}
	}
	if cb == nil {
		unsup("the function captured as %s is not a callback of this function", spec.Name)
	}
	if !spec.Once || !cb.Spec.Once || len(spec.Key) != len(cb.KeyT) || len(cb.Spec.Sets) > 0 || len(spec.Sets) > 0 {
		unsup("the protocols of the callbacks called %s differ", spec.Name)
	}
	return cb
}

// havocShared forgets which calls of cb have been made, keeping those made before.
func (x *Exec) havocShared(fr *Frame, st *State, cb *Callback, name string) {
	for _, k := range append([]string{cb.Comp}, cb.counters()...) {
		if so := x.compSort[k]; so != "" {
			st.heap[k] = x.c.fresh(name+":"+k, so)
			x.recordWrite(fr, k, "")
		}
	}
}

// checkShared checks the caller's own protocol for the calls a closure made.
func (x *Exec) checkShared(fr *Frame, pre, st *State, cb *Callback, name string, pos token.Pos) {
	vars := map[string]Val{}
	for k, v := range x.vars {
		vars[k] = v
	}
	for i, p := range cb.Spec.Params {
		t := cb.Sig.Params().At(i).Type()
		s := x.c.sortOf(t)
		vars[p] = term(t, s, x.c.fresh(name+"."+p, s))
	}
	ev := x.ev(x.sf.Pkg, st, x.st0, vars)
	var kvs []Val
	for _, k := range cb.Spec.Key {
		if k.Op != "id" {
			unsup("key of %s", cb.Name)
		}
		kvs = append(kvs, ev.eval(k))
	}
	if len(kvs) != len(cb.Spec.Params) && len(cb.Spec.Requires) > 0 {
		unsup("protocol of %s depends on more than its key", cb.Name)
	}
	made := and(not(x.calledTerm(ev, pre, cb, kvs)), x.calledTerm(ev, st, cb, kvs))
	for _, r := range cb.Spec.Requires {
		x.oblige(&Obligation{Kind: "callback", Label: "callback " + cb.Name + " " + r.Label, Name: name + "/cb:" + cb.Name + ":" + r.Label, Guard: fr.guard, Goal: implies(made, ev.boolT(r.E)), Where: x.w.pos(pos), Src: r.Src})
	}
}

// ghostCalls models a call to a function that invokes its function arguments:
// an arbitrary number of calls satisfying the callee's callback protocol, each
// executing the actual argument, with invariants found as for loops.
func (x *Exec) ghostCalls(fr *Frame, st *State, c *Contract, sf *SpecFile, sig *types.Signature, vars map[string]Val, mts []modTarget, Acall, name string, pos token.Pos, cbs map[string]*Callback) *State {
	type act struct {
		spec *CallbackSpec
		cb   *Callback
		val  Val
	}
	var acts []act
	key := name + "@cb"
	for _, spec := range c.Callbacks {
		v := vars[spec.Name]
		if spec.Shared {
			continue
		}
		var csig *types.Signature
		if v.T != nil {
			csig, _ = under(v.T).(*types.Signature)
		}
		if csig == nil {
			specErr("callback %s of %s is not a function", spec.Name, c.Fn)
		}
		cb := x.newCallback("G:called:"+key+":"+spec.Name, spec, csig, x.keyTypes(spec, csig, sf))
		cbs[spec.Name] = cb
		x.initCallback(st, cb)
		for _, k := range append([]string{cb.Comp}, cb.counters()...) {
			if x.compSort[k] != "" {
				x.recordWrite(fr, k, "")
			}
		}
		if v.Kind == KTerm && v.S == "0" {
			continue // nil: never invoked
		}
		if v.Kind != KClosure && v.CB == nil {
			unsup("unknown function passed to %s", c.Fn)
		}
		acts = append(acts, act{spec, cb, v})
	}
	if len(acts) == 0 {
		return st
	}
	for _, spec := range c.Callbacks {
		if spec.Shared {
			unsup("%s mixes shared callbacks with others", c.Fn)
		}
	}
	entry := st
	g := &LoopRec{key: key}
	hst, rec := x.havoc(fr, key, entry)
	_ = rec
	g.key = key
	var progs []*ProgSet
	for _, a := range acts {
		progs = append(progs, &ProgSet{loopKey: key, cb: a.cb, name: key + ":" + a.spec.Name, fr: fr})
	}
	// callee's own objects are arbitrary between calls
	fr.ghosts = append(fr.ghosts, g)
	x.applyMods(fr, hst, mts, key, Acall)
	fr.ghosts = fr.ghosts[:len(fr.ghosts)-1]
	fr.gprogs = append(fr.gprogs, progs...)
	cands := x.candidates(fr, nil, key, entry, hst, nil)
	for _, cd := range cands {
		x.oblige(&Obligation{Kind: "inv-init", Label: cd.Label, Name: cd.Name + "/init", Guard: fr.guard, Goal: cd.eval(nil, entry), Cand: cd, Where: x.w.pos(pos), Src: cd.Src})
	}
	for _, cd := range cands {
		x.c.lines = append(x.c.lines, fmt.Sprintf("(assert (=> %s %s))", cd.Flag, implies(fr.guard, cd.eval(nil, hst))))
	}
	exit := hst.clone()
	for k, a := range acts {
		bst := hst.clone()
		bname := fmt.Sprintf("%s%d", key, k)
		guard := fr.guard
		fr.guard = x.c.fresh(bname+".go", "Bool")
		x.c.assume(fr.guard, guard)
		var args []Val
		evv := map[string]Val{}
		for kk, v := range vars {
			evv[kk] = v
		}
		for i, p := range a.spec.Params {
			t := a.cb.Sig.Params().At(i).Type()
			s := x.c.sortOf(t)
			v := term(t, s, x.c.fresh(bname+"."+p, s))
			x.wf("true", bst, v)
			args = append(args, v)
			evv[p] = v
		}
		ev := x.ev(sf.Pkg, bst, entry, evv)
		ev.cbs = cbs
		for _, r := range append(append([]*Clause(nil), a.spec.Requires...), a.spec.Assumes...) {
			x.c.assume(fr.guard, ev.boolT(r.E))
		}
		var keys []string
		var kvs []Val
		for i, kx := range a.spec.Key {
			v := ev.eval(kx)
			kvs = append(kvs, v)
			keys = append(keys, ev.conv(v, a.cb.KeyT[i]))
		}
		if a.spec.Once {
			x.c.assume(fr.guard, not(x.calledTerm(ev, bst, a.cb, kvs)))
		}
		class := x.classOf(ev, a.spec)
		fr.ghosts = append(fr.ghosts, g)
		res := x.callValue(fr, &bst, a.val, args, a.cb.Sig, bname, pos)
		if a.spec.Records {
			x.markCalled(fr, bst, a.cb, keys, class)
		}
		if a.spec.Result != nil || a.spec.CheckRes != nil {
			// protocol state set by the callee from the callback's result
			evv["result"] = res
		}
		for _, u := range a.spec.Sets {
			v := ev.eval(u.E)
			comp := x.ghostVar(u.Name, v.Sort)
			bst.heap[comp] = x.c.define("H:"+comp, v.Sort, ev.termOf(v))
			x.recordWrite(fr, comp, "")
		}
		if a.spec.CheckRes != nil {
			ev2 := x.ev(sf.Pkg, bst, entry, evv)
			ev2.cbs = cbs
			x.oblige(&Obligation{Kind: "callback", Label: "result of " + a.spec.Name, Name: bname + "/cbres", Guard: fr.guard, Goal: ev2.boolT(a.spec.CheckRes.E), Where: x.w.pos(pos), Src: a.spec.CheckRes.Src})
		}
		x.checkCands(key, "preserve", nil, bst, fr.guard, x.w.pos(pos))
		fr.ghosts = fr.ghosts[:len(fr.ghosts)-1]
		fr.guard = guard
	}
	fr.gprogs = fr.gprogs[:len(fr.gprogs)-len(progs)]
	return exit
}
