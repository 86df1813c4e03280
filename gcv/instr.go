package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// localOnly reports whether an Alloc is only ever loaded, stored and
// projected with constant paths, so it can be held as a plain value.
func localOnly(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != v {
				return false
			}
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !localOnly(r) {
				return false
			}
		case *ssa.IndexAddr:
			if _, ok := r.Index.(*ssa.Const); !ok || !localOnly(r) {
				return false
			}
			if p, ok := under(r.X.Type()).(*types.Pointer); !ok {
				return false
			} else if a, ok := under(p.Elem()).(*types.Array); !ok || a.Len() > 8 {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// litArray reports whether an array Alloc is only initialised element by
// element with constant indices and then sliced whole, once.
func litArray(a *ssa.Alloc) bool {
	arr, ok := under(a.Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
	if !ok || arr.Len() > 8 {
		return false
	}
	n := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if _, ok := r.Index.(*ssa.Const); !ok || !localOnly(r) {
				return false
			}
			for _, rr := range *r.Referrers() {
				if u, ok := rr.(*ssa.UnOp); ok && u.Op == token.MUL {
					return false
				}
			}
		case *ssa.Slice:
			if r.Low != nil || r.High != nil || r.Max != nil {
				return false
			}
			for _, rr := range *r.Referrers() {
				if _, ok := rr.(*ssa.IndexAddr); ok {
					return false // its elements are looked up, in a loop perhaps
				}
			}
			n++
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return n == 1
}

func (x *Exec) instr(fr *Frame, st *State, ins ssa.Instruction) *State {
	name := func(v ssa.Value) string { return fr.id + "." + v.Name() }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := under(i.Type()).(*types.Pointer).Elem()
		if localOnly(i) || litArray(i) {
			comp := x.comp("L:"+name(i), x.c.sortOf(t))
			fr.env[i] = Val{Kind: KAddr, T: i.Type(), Addr: &Addr{Comp: comp, T: t, Base: t}}
			st.heap[comp] = x.c.zero(t)
			delete(st.known, comp+"\x00")
			x.recordWrite(fr, comp, "")
			return st
		}
		r := x.allocRef(fr, st, name(i))
		fr.env[i] = term(i.Type(), "Int", r)
		a := x.deref(fr.env[i])
		switch u := under(t).(type) {
		case *types.Struct:
			for k := 0; k < u.NumFields(); k++ {
				x.storeTerm(fr, st, x.fieldAddr(a, k), x.c.zero(u.Field(k).Type()))
			}
		case *types.Array:
			comp := x.compE(u.Elem())
			x.setH(st, comp, store(x.H(st, comp), r, "((as const (Array Int "+x.c.sortOf(u.Elem())+")) "+x.c.zero(u.Elem())+")"))
			x.recordWrite(fr, comp, r)
		default:
			x.storeVal(fr, st, a, term(t, x.c.sortOf(t), x.c.zero(t)))
		}
	case *ssa.BinOp:
		fr.env[i] = x.binop(fr, st, i)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			if v, ok := x.staticCell(fr, i.X); ok {
				fr.env[i] = v
				return st
			}
			fr.env[i] = x.load(fr, st, x.deref(x.val(fr, i.X)), name(i))
		case token.NOT:
			x.set(fr, i, not(x.asTerm(x.val(fr, i.X))))
		case token.SUB:
			x.set(fr, i, "(- "+x.asTerm(x.val(fr, i.X))+")")
		default:
			unsup("unary %s", i.Op)
		}
	case *ssa.ChangeType:
		v := x.val(fr, i.X)
		v.T = i.Type()
		fr.env[i] = v
	case *ssa.ChangeInterface:
		v := x.val(fr, i.X)
		v.T = i.Type()
		fr.env[i] = v
	case *ssa.Convert:
		fr.env[i] = x.convert(fr, st, i)
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.Extract:
		tv := x.val(fr, i.Tuple)
		if tv.Kind != KTuple {
			unsup("extract from non-tuple")
		}
		fr.env[i] = tv.Elems[i.Index]
	case *ssa.Field:
		t := i.X.Type()
		v := x.val(fr, i.X)
		if len(v.Elems) > 0 && v.S == "" {
			fr.env[i] = v.Elems[i.Field]
			return st
		}
		x.c.sortOf(t)
		x.set(fr, i, "("+x.c.fieldSel(t, i.Field)+" "+x.asTerm(v)+")")
		x.wf(fr.guard, st, fr.env[i])
	case *ssa.FieldAddr:
		a := x.deref(x.val(fr, i.X))
		fr.env[i] = Val{Kind: KAddr, T: i.Type(), Addr: x.fieldAddr(a, i.Field)}
	case *ssa.IndexAddr:
		idx := x.asTerm(x.val(fr, i.Index))
		xv := x.val(fr, i.X)
		switch u := under(i.X.Type()).(type) {
		case *types.Slice:
			s := x.asTermOf(fr, st, xv, i.X.Type())
			fr.env[i.X] = fixElems(xv, s)
			x.bounds(fr, i.Pos(), and("(<= 0 "+idx+")", "(< "+idx+" (s.len "+s+"))"))
			fr.env[i] = Val{Kind: KAddr, T: i.Type(), Addr: &Addr{Comp: x.compE(u.Elem()), Ref: x.sref(s), Idx: x.sidx(s, idx), T: u.Elem(), Base: u.Elem()}}
		case *types.Pointer:
			a := x.deref(xv)
			c, isC := i.Index.(*ssa.Const)
			var ci int64
			if isC {
				ci = c.Int64()
			}
			fr.env[i] = Val{Kind: KAddr, T: i.Type(), Addr: x.elemAddr(a, idx, ci, isC)}
		}
	case *ssa.Index:
		v := x.val(fr, i.X)
		idx := x.asTerm(x.val(fr, i.Index))
		if b, ok := under(i.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.bounds(fr, i.Pos(), and("(<= 0 "+idx+")", "(< "+idx+" (slen "+x.asTerm(v)+"))"))
			x.set(fr, i, "(sat "+x.asTerm(v)+" "+idx+")")
			return st
		}
		u := under(i.X.Type()).(*types.Array)
		if c, ok := i.Index.(*ssa.Const); ok && u.Len() <= 8 {
			x.set(fr, i, "("+x.c.arrSel(u, int(c.Int64()))+" "+x.asTerm(v)+")")
			return st
		}
		if u.Len() <= 8 {
			r := "(" + x.c.arrSel(u, 0) + " " + x.asTerm(v) + ")"
			for k := 1; k < int(u.Len()); k++ {
				r = ite(eq(idx, fmt.Sprint(k)), "("+x.c.arrSel(u, k)+" "+x.asTerm(v)+")", r)
			}
			x.set(fr, i, r)
			return st
		}
		unsup("index of array value")
	case *ssa.Lookup:
		m := x.val(fr, i.X)
		if _, ok := under(i.X.Type()).(*types.Basic); ok {
			idx := x.asTerm(x.val(fr, i.Index))
			x.bounds(fr, i.Pos(), and("(<= 0 "+idx+")", "(< "+idx+" (slen "+x.asTerm(m)+"))"))
			x.set(fr, i, "(sat "+x.asTerm(m)+" "+idx+")")
			return st
		}
		mt := under(i.X.Type()).(*types.Map)
		k := x.asTermOf(fr, st, x.val(fr, i.Index), mt.Key())
		in, v := x.mapGet(st, mt, x.asTerm(m), k)
		es := x.c.sortOf(mt.Elem())
		ok := term(types.Typ[types.Bool], "Bool", x.c.define(name(i)+".ok", "Bool", in))
		vv := term(mt.Elem(), es, x.c.define(name(i), es, ite(ok.S, v, x.c.zero(mt.Elem()))))
		x.wf(fr.guard, st, vv)
		if i.CommaOk {
			fr.env[i] = Val{Kind: KTuple, T: i.Type(), Elems: []Val{vv, ok}}
		} else {
			fr.env[i] = vv
		}
	case *ssa.MakeClosure:
		v := Val{Kind: KClosure, T: i.Type(), Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.Binds = append(v.Binds, x.val(fr, b))
		}
		v.S = x.allocRef(fr, st, name(i))
		fr.env[i] = v
		x.c.closures[v.S] = v
	case *ssa.MakeInterface:
		v := x.val(fr, i.X)
		t := i.X.Type()
		val := x.asTermOf(fr, st, v, t)
		r := term(i.Type(), "Iface", x.c.define(name(i), "Iface", "(mk-iface "+x.c.tagOf(t)+" "+x.c.box(t, val)+")"))
		vv := v
		vv.T = t
		r.Dyn = &vv
		fr.env[i] = r
	case *ssa.MakeMap:
		mt := under(i.Type()).(*types.Map)
		r := x.allocRef(fr, st, name(i))
		fr.env[i] = term(i.Type(), "Int", r)
		md := x.compMD(mt)
		x.setH(st, md, store(x.H(st, md), r, "((as const (Array "+x.c.sortOf(mt.Key())+" Bool)) false)"))
		x.recordWrite(fr, md, r)
	case *ssa.MakeSlice:
		et := under(i.Type()).(*types.Slice).Elem()
		r := x.allocRef(fr, st, name(i))
		n := x.asTerm(x.val(fr, i.Len))
		x.bounds(fr, i.Pos(), "(<= 0 "+n+")")
		comp := x.compE(et)
		x.setH(st, comp, store(x.H(st, comp), r, "((as const (Array Int "+x.c.sortOf(et)+")) "+x.c.zero(et)+")"))
		x.recordWrite(fr, comp, r)
		x.set(fr, i, fmt.Sprintf("(mk-slice %s 0 %s)", r, n))
	case *ssa.MapUpdate:
		mt := under(i.Map.Type()).(*types.Map)
		m := x.asTerm(x.val(fr, i.Map))
		k := x.asTermOf(fr, st, x.val(fr, i.Key), mt.Key())
		v := x.asTermOf(fr, st, x.val(fr, i.Value), mt.Elem())
		x.bounds(fr, i.Pos(), not(eq(m, "0")))
		x.mapSet(fr, st, mt, m, k, v)
	case *ssa.Range:
		mt, ok := under(i.X.Type()).(*types.Map)
		if !ok {
			unsup("range over %v", i.X.Type())
		}
		m := x.val(fr, i.X)
		comp := x.comp("G:seen:"+name(i), "(Array "+x.c.sortOf(mt.Key())+" Bool)")
		st.heap[comp] = "((as const (Array " + x.c.sortOf(mt.Key()) + " Bool)) false)"
		x.recordWrite(fr, comp, "")
		fr.env[i] = Val{Kind: KIter, T: i.Type(), Iter: &Iter{Map: m, MapT: mt, SeenComp: comp, DomStart: x.c.define(name(i)+".dom", "(Array "+x.c.sortOf(mt.Key())+" Bool)", x.dom(st, mt, x.asTerm(m)))}}
	case *ssa.Next:
		if i.IsString {
			unsup("range over string")
		}
		it := x.val(fr, i.Iter).Iter
		ks := x.c.sortOf(it.MapT.Key())
		ok := x.c.fresh(name(i)+".ok", "Bool")
		k := x.c.fresh(name(i)+".key", ks)
		m := x.asTerm(it.Map)
		in, v := x.mapGet(st, it.MapT, m, k)
		seen := x.H(st, it.SeenComp)
		x.c.assume(fr.guard, implies(ok, and(in, not(sel(seen, k)))))
		dom := x.dom(st, it.MapT, m)
		x.c.assume(fr.guard, implies(not(ok), fmt.Sprintf("(forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, it.DomStart, dom, seen, dom, seen)))
		st.heap[it.SeenComp] = x.c.define(name(i)+".seen", x.compSort[it.SeenComp], ite(ok, store(seen, k, "true"), seen))
		x.recordWrite(fr, it.SeenComp, "")
		es := x.c.sortOf(it.MapT.Elem())
		kv := term(it.MapT.Key(), ks, k)
		vv := term(it.MapT.Elem(), es, x.c.define(name(i)+".val", es, v))
		x.wf(and(fr.guard, ok), st, kv)
		x.wf(and(fr.guard, ok), st, vv)
		fr.env[i] = Val{Kind: KTuple, Elems: []Val{term(types.Typ[types.Bool], "Bool", ok), kv, vv}}
	case *ssa.Slice:
		fr.env[i] = x.sliceOp(fr, st, i)
	case *ssa.Store:
		a := x.deref(x.val(fr, i.Addr))
		x.storeVal(fr, st, a, x.val(fr, i.Val))
	case *ssa.TypeAssert:
		fr.env[i] = x.typeAssert(fr, st, i)
	case *ssa.Call:
		v := x.call(fr, &st, i, &i.Call)
		fr.env[i] = v
	case *ssa.Defer:
		if i.Call.IsInvoke() {
			unsup("deferred interface call")
		}
		d := deferRec{guard: fr.guard, call: i}
		if _, ok := i.Call.Value.(*ssa.Builtin); ok {
			unsup("deferred builtin")
		}
		d.fn = x.val(fr, i.Call.Value)
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for k := len(fr.defers) - 1; k >= 0; k-- {
			d := fr.defers[k]
			// run under the condition that the defer statement was executed
			before := st.clone()
			g := fr.guard
			fr.guard = x.c.define(fmt.Sprintf("%s.defer%d", fr.id, k), "Bool", and(g, d.guard))
			st2 := st
			x.callValue(fr, &st2, d.fn, d.args, d.call.Call.Signature(), fmt.Sprintf("%s/defer%d.b%d", fr.id, k, fr.cur.Index), d.call.Pos())
			st = x.mergeStates([]string{d.guard, "true"}, []*State{st2, before}, fmt.Sprintf("%s.rd%d.b%d", fr.id, k, fr.cur.Index))
			fr.guard = g
		}
	default:
		unsup("instruction %T (%s) in %s", ins, ins, fr.fn)
	}
	return st
}

func fixElems(v Val, s string) Val {
	if v.Kind == KTerm && v.S == "" {
		v.S = s
	}
	return v
}

func (x *Exec) bounds(fr *Frame, pos token.Pos, f string) {
	if x.unit != nil && x.unit.NoBounds {
		x.noteAssumption("no run-time panic in " + x.unit.Fn + " (index bounds and nil maps assumed, not checked)")
		x.c.assume(fr.guard, f)
		return
	}
	lbl := fmt.Sprintf("no-panic@%s.b%d", fr.fn.Name(), fr.cur.Index)
	x.oblige(&Obligation{Kind: "bounds", Label: lbl, Name: fr.id + "/" + lbl, Guard: fr.guard, Goal: f, Where: x.w.pos(pos), Src: "index in range, map not nil"})
	x.c.assume(fr.guard, f)
}

func (x *Exec) sref(s string) string {
	if d := curDefs[s]; len(d) == 4 && d[0] == "mk-slice" {
		return d[1]
	}
	if strings.HasPrefix(s, "(mk-slice ") {
		p := splitArgs(s)
		return p[1]
	}
	return "(s.ref " + s + ")"
}

func (x *Exec) soff(s string) string {
	if d := curDefs[s]; len(d) == 4 && d[0] == "mk-slice" {
		return d[2]
	}
	if strings.HasPrefix(s, "(mk-slice ") {
		return splitArgs(s)[2]
	}
	if d := curDefs[s]; d != nil && curPureSlices[d[0]] || d == nil && strings.HasPrefix(s, "(") && curPureSlices[splitArgs(s)[0]] {
		return "0"
	}
	return "(s.off " + s + ")"
}

func (x *Exec) slenT(s string) string {
	if d := curDefs[s]; len(d) == 4 && d[0] == "mk-slice" {
		return d[3]
	}
	if strings.HasPrefix(s, "(mk-slice ") {
		return splitArgs(s)[3]
	}
	return "(s.len " + s + ")"
}

func (x *Exec) sidx(s, i string) string { return add(x.soff(s), i) }

// splitArgs splits "(f a b c)" into its parts at the top level.
func (x *Exec) strSub(s, lo, hi string) string {
	x.c.axiom("ssub", "(forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (ssub s a b)) (- b a))) :pattern ((ssub s a b))))")
	x.c.axiom("ssub0", "(forall ((s Str)) (! (= (ssub s 0 (slen s)) s) :pattern ((ssub s 0 (slen s)))))")
	return "(ssub " + s + " " + lo + " " + hi + ")"
}

func splitArgs(s string) []string {
	s = s[1 : len(s)-1]
	var out []string
	depth, start := 0, 0
	inq := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '|':
			inq = !inq
		case inq:
		case c == '(':
			depth++
		case c == ')':
			depth--
		case c == ' ' && depth == 0:
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return append(out, s[start:])
}

func (x *Exec) dom(st *State, mt *types.Map, m string) string {
	e := "((as const (Array " + x.c.sortOf(mt.Key()) + " Bool)) false)"
	if x.c.alloc[m] {
		return sel(x.H(st, x.compMD(mt)), m)
	}
	if m == "0" {
		return e
	}
	return ite(eq(m, "0"), e, sel(x.H(st, x.compMD(mt)), m))
}

func (x *Exec) mapIn(st *State, mt *types.Map, m, k string) string {
	in := sel(sel(x.H(st, x.compMD(mt)), m), k)
	if m == "0" {
		return "false"
	}
	if !x.c.alloc[m] {
		in = and(not(eq(m, "0")), in)
	}
	return in
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k string) (in, v string) {
	in = x.mapIn(st, mt, m, k)
	if x.c.sortOf(mt.Elem()) == "Unit" {
		return in, "unit"
	}
	return in, sel(sel(x.H(st, x.compMV(mt)), m), k)
}

func (x *Exec) mapSet(fr *Frame, st *State, mt *types.Map, m, k, v string) {
	md := x.compMD(mt)
	h := x.H(st, md)
	x.setH(st, md, store(h, m, store(sel(h, m), k, "true")))
	x.recordWrite(fr, md, m)
	if x.c.sortOf(mt.Elem()) != "Unit" {
		mv := x.compMV(mt)
		h := x.H(st, mv)
		x.setH(st, mv, store(h, m, store(sel(h, m), k, v)))
		x.recordWrite(fr, mv, m)
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) binop(fr *Frame, st *State, i *ssa.BinOp) Val {
	a, b := x.val(fr, i.X), x.val(fr, i.Y)
	bt := func(s string) Val {
		so := x.c.sortOf(i.Type())
		return term(i.Type(), so, x.c.define(fr.id+"."+i.Name(), so, s))
	}
	switch i.Op {
	case token.EQL, token.NEQ:
		var f string
		neg := func(s string) Val {
			if i.Op == token.NEQ {
				return bt(not(s))
			}
			return bt(s)
		}
		if a.Kind == KClosure || b.Kind == KClosure {
			if isNilConst(i.X) || isNilConst(i.Y) {
				return neg("false")
			}
		}
		if a.Kind == KAddr && isNilConst(i.Y) || b.Kind == KAddr && isNilConst(i.X) {
			return neg("false")
		}
		if _, ok := under(i.X.Type()).(*types.Slice); ok {
			if isNilConst(i.Y) {
				return neg(eq(x.sref(x.asTermOf(fr, st, a, i.X.Type())), "0"))
			}
			return neg(eq(x.sref(x.asTermOf(fr, st, b, i.X.Type())), "0"))
		}
		ta, tb := x.asTermOf(fr, st, a, i.X.Type()), x.asTermOf(fr, st, b, i.Y.Type())
		_, ia := under(i.X.Type()).(*types.Interface)
		_, ib := under(i.Y.Type()).(*types.Interface)
		if ia && isNilConst(i.Y) {
			return neg(eq("(i.tag "+ta+")", "0"))
		}
		if ib && isNilConst(i.X) {
			return neg(eq("(i.tag "+tb+")", "0"))
		}
		f = eq(ta, tb)
		return neg(f)
	}
	ta, tb := x.asTermOf(fr, st, a, i.X.Type()), x.asTermOf(fr, st, b, i.Y.Type())
	so := x.c.sortOf(i.X.Type())
	switch so {
	case "Int":
		switch i.Op {
		case token.ADD:
			return bt("(+ " + ta + " " + tb + ")")
		case token.SUB:
			return bt("(- " + ta + " " + tb + ")")
		case token.MUL:
			return bt("(* " + ta + " " + tb + ")")
		case token.LSS:
			return bt("(< " + ta + " " + tb + ")")
		case token.LEQ:
			return bt("(<= " + ta + " " + tb + ")")
		case token.GTR:
			return bt("(> " + ta + " " + tb + ")")
		case token.GEQ:
			return bt("(>= " + ta + " " + tb + ")")
		}
		f := q("op:" + i.Op.String())
		x.c.declFun(f, []string{"Int", "Int"}, "Int")
		return bt("(" + f + " " + ta + " " + tb + ")")
	case "Str":
		switch i.Op {
		case token.ADD:
			return bt(x.cat(ta, tb))
		case token.LSS:
			return bt("(slt " + ta + " " + tb + ")")
		case token.GTR:
			return bt("(slt " + tb + " " + ta + ")")
		case token.LEQ:
			return bt(not("(slt " + tb + " " + ta + ")"))
		case token.GEQ:
			return bt(not("(slt " + ta + " " + tb + ")"))
		}
	case "Bool":
		switch i.Op {
		case token.AND, token.LAND:
			return bt(and(ta, tb))
		case token.OR, token.LOR:
			return bt(or(ta, tb))
		}
	}
	unsup("binary %s on %s", i.Op, i.X.Type())
	return Val{}
}

func (x *Exec) convert(fr *Frame, st *State, i *ssa.Convert) Val {
	from, to := under(i.X.Type()), under(i.Type())
	v := x.val(fr, i.X)
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		x.noteAssumption("integer conversions and arithmetic do not overflow")
		v.T = i.Type()
		return v
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok {
			// []byte(s): fresh slice whose text is remembered
			r := x.allocRef(fr, st, fr.id+"."+i.Name())
			comp := x.compE(sl.Elem())
			x.recordWrite(fr, comp, r)
			nv := term(i.Type(), "Slice", fmt.Sprintf("(mk-slice %s 0 (slen %s))", r, x.asTerm(v)))
			nv.Txt = x.asTerm(v)
			return nv
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if _, ok := from.(*types.Slice); ok {
			x.c.declFun("text-of-slice", []string{"Slice"}, "Str")
			return term(i.Type(), "Str", "(text-of-slice "+x.asTermOf(fr, st, v, i.X.Type())+")")
		}
	}
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		unsup("unsafe.Pointer conversion")
	}
	if x.c.sortOf(from) == x.c.sortOf(to) {
		v.T = i.Type()
		return v
	}
	unsup("conversion %v to %v", i.X.Type(), i.Type())
	return Val{}
}

func (x *Exec) sliceOp(fr *Frame, st *State, i *ssa.Slice) Val {
	v := x.val(fr, i.X)
	lo := "0"
	if i.Low != nil {
		lo = x.asTerm(x.val(fr, i.Low))
	}
	switch u := under(i.X.Type()).(type) {
	case *types.Pointer:
		arr := under(u.Elem()).(*types.Array)
		a := x.deref(v)
		if strings.HasPrefix(a.Comp, "L:") {
			r := Val{Kind: KTerm, T: i.Type(), Sort: "Slice"}
			r.Elems = []Val{}
			for k := 0; k < int(arr.Len()); k++ {
				ea := x.elemAddr(a, "", int64(k), true)
				// prefer the stored value itself (keeps closures etc.)
				r.Elems = append(r.Elems, x.litElem(fr, st, i.X.(*ssa.Alloc), k, ea))
			}
			return r
		}
		n := fmt.Sprint(arr.Len())
		hi := n
		if i.High != nil {
			hi = x.asTerm(x.val(fr, i.High))
		}
		return term(i.Type(), "Slice", fmt.Sprintf("(mk-slice %s %s %s)", a.Ref, lo, sub(hi, lo)))
	case *types.Slice:
		s := x.asTermOf(fr, st, v, i.X.Type())
		n := x.slenT(s)
		hi := n
		if i.High != nil {
			hi = x.asTerm(x.val(fr, i.High))
			// the upper bound may go up to the capacity; we demand the length
			x.bounds(fr, i.Pos(), and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+n+")"))
		} else {
			x.bounds(fr, i.Pos(), and("(<= 0 "+lo+")", "(<= "+lo+" "+n+")"))
		}
		so := "Slice"
		return term(i.Type(), so, x.c.define(fr.id+"."+i.Name(), so, fmt.Sprintf("(mk-slice %s %s %s)", x.sref(s), add(x.soff(s), lo), sub(hi, lo))))
	case *types.Basic:
		s := x.asTerm(v)
		hi := "(slen " + s + ")"
		if i.High != nil {
			hi = x.asTerm(x.val(fr, i.High))
		}
		x.bounds(fr, i.Pos(), and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (slen "+s+"))"))
		return term(i.Type(), "Str", x.c.define(fr.id+"."+i.Name(), "Str", x.strSub(s, lo, hi)))
	}
	unsup("slice of %v", i.X.Type())
	return Val{}
}

func sub(a, b string) string {
	if b == "0" {
		return a
	}
	return "(- " + a + " " + b + ")"
}

func (x *Exec) litElem(fr *Frame, st *State, al *ssa.Alloc, k int, ea *Addr) Val {
	var v ssa.Value
	n := 0
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			if c, ok := ia.Index.(*ssa.Const); ok && int(c.Int64()) == k {
				for _, rr := range *ia.Referrers() {
					if s, ok := rr.(*ssa.Store); ok {
						v = s.Val
						n++
					}
				}
			}
		}
	}
	if n == 1 {
		if _, ok := fr.env[v]; ok {
			return x.val(fr, v)
		}
		if _, ok := v.(*ssa.Const); ok {
			return x.val(fr, v)
		}
		if _, ok := v.(*ssa.Global); ok {
			return x.val(fr, v)
		}
	}
	return term(ea.T, x.c.sortOf(ea.T), x.loadTerm(st, ea))
}

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) Val {
	v := x.asTerm(x.val(fr, i.X))
	var ok, val string
	t := i.AssertedType
	s := x.c.sortOf(t)
	if _, isI := under(t).(*types.Interface); isI {
		ok = x.implements(t, v)
		val = v
	} else {
		ok = eq("(i.tag "+v+")", x.c.tagOf(t))
		val = x.c.unbox(t, "(i.val "+v+")")
	}
	n := fr.id + "." + i.Name()
	okv := term(types.Typ[types.Bool], "Bool", x.c.define(n+".ok", "Bool", ok))
	if i.CommaOk {
		vv := term(t, s, x.c.define(n, s, ite(okv.S, val, x.c.zero(t))))
		return Val{Kind: KTuple, Elems: []Val{vv, okv}}
	}
	x.bounds(fr, i.Pos(), okv.S)
	return term(t, s, x.c.define(n, s, val))
}

func (x *Exec) implements(t types.Type, v string) string {
	if u := under(t).(*types.Interface); u.NumMethods() == 0 {
		return not(eq("(i.tag "+v+")", "0"))
	}
	f := q("implements:" + tkey(t))
	x.c.declFun(f, []string{"Int"}, "Bool")
	x.c.ifaceIs[tkey(t)] = true
	x.ifaceTypes(t)
	return and(not(eq("(i.tag "+v+")", "0")), "("+f+" (i.tag "+v+"))")
}

var ifaceByKey = map[string]types.Type{}

func (x *Exec) ifaceTypes(t types.Type) { ifaceByKey[tkey(t)] = t }

// implementsFacts states, for the concrete types mentioned, which of the
// interfaces tested they implement.
func (c *Ctx) implementsFacts() []string {
	var out []string
	for k := range c.ifaceIs {
		t := ifaceByKey[k]
		u := under(t).(*types.Interface)
		for _, ct := range c.tagTypes {
			r := "false"
			if types.Implements(ct, u) {
				r = "true"
			}
			out = append(out, fmt.Sprintf("(assert (= (%s %s) %s))", q("implements:"+k), c.tagOf(ct), r))
		}
	}
	return out
}

// staticCell resolves a load from a captured variable that is assigned one
// closure, once, in the enclosing function (a recursive local function).
func (x *Exec) staticCell(fr *Frame, p ssa.Value) (Val, bool) {
	fv, ok := p.(*ssa.FreeVar)
	if !ok {
		return Val{}, false
	}
	if _, ok := under(under(fv.Type()).(*types.Pointer).Elem()).(*types.Signature); !ok {
		return Val{}, false
	}
	if fr.parent != nil || fr.env[fv].Kind == KClosure {
		return Val{}, false
	}
	if cb := x.cbs[fv.Name()]; cb != nil && cb.Spec.Shared {
		v := term(cb.Sig, "Int", x.c.fresh("fn:"+fv.Name(), "Int"))
		v.CB = cb
		return v, true
	}
	fn := fr.fn
	idx := -1
	for k, f := range fn.FreeVars {
		if f == fv {
			idx = k
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		return Val{}, false
	}
	var cell ssa.Value
	for _, b := range par.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
				cell = mc.Bindings[idx]
			}
		}
	}
	if cell == nil {
		return Val{}, false
	}
	var stored []*ssa.MakeClosure
	for _, r := range *cell.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == cell {
			mc, ok := s.Val.(*ssa.MakeClosure)
			if !ok {
				if ch, ok2 := s.Val.(*ssa.ChangeType); ok2 {
					mc, ok = ch.X.(*ssa.MakeClosure)
				}
				if !ok {
					return Val{}, false
				}
			}
			stored = append(stored, mc)
		}
	}
	if len(stored) != 1 || stored[0].Fn != fn {
		return Val{}, false
	}
	v := Val{Kind: KClosure, T: fn.Type(), Fn: fn}
	for _, f := range fn.FreeVars {
		v.Binds = append(v.Binds, fr.env[f])
	}
	return v, true
}
