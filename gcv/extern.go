package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// externModels are the library functions whose meaning the verifier builds
// in.  They are part of the trusted base.
var externDoc = map[string]string{
	"sort.Sort":             "permutes the slice, ordered by its Less method",
	"sort.Stable":           "permutes the slice, ordered by its Less method",
	"sort.Slice":            "permutes the slice, ordered by the given function",
	"sort.SliceStable":      "permutes the slice, ordered by the given function",
	"sort.Strings":          "permutes the slice into ascending order",
	"sort.Ints":             "permutes the slice into ascending order",
	"slices.Sort":           "permutes the slice into ascending order",
	"slices.SortFunc":       "permutes the slice, ordered by the given comparison",
	"slices.SortStableFunc": "permutes the slice, ordered by the given comparison",
	"slices.Reverse":        "reverses the slice in place",
	"slices.Compact":        "keeps one of each run of equal elements, in place",
	"slices.Contains":       "membership",
	"slices.Clone":          "copy",
	"maps.Copy":             "copies all entries",
	"maps.Clone":            "copy of the map",
	"maps.DeleteFunc":       "removes the entries for which the function is true",
	"slices.DeleteFunc":     "keeps the elements for which the function is false, in order",
	"strings.HasPrefix":     "comparison with a literal prefix",
	"strings.TrimPrefix":    "removal of a literal prefix",
	"strings.CutPrefix":     "removal of a literal prefix",
	"strings.Compare":       "lexicographic comparison",
	"cmp.Compare":           "comparison of ordered values",
	"google.golang.org/protobuf/proto.String": "pointer to a copy",
	"google.golang.org/protobuf/proto.Int64":  "pointer to a copy",
	"google.golang.org/protobuf/proto.Int32":  "pointer to a copy",
	"google.golang.org/protobuf/proto.Bool":   "pointer to a copy",
	"(*strings.Builder).WriteString":          "appends to the builder's text",
	"(*strings.Builder).WriteByte":            "appends to the builder's text",
	"(*strings.Builder).String":               "the builder's text",
	"(*strings.Builder).Len":                  "length of the builder's text",
	"(*strings.Builder).Grow":                 "no visible effect",
	"strings.Join":                            "text of the joined strings",
	"(io.Writer).Write":                       "appends the bytes to the writer's text",
	"io.WriteString":                          "appends the string to the writer's text",
	"fmt.Printf":                              "one print event per call; the text is determined by the format and arguments",
	"fmt.Println":                             "one print event per call; the text is determined by the arguments",
	"fmt.Print":                               "one print event per call; the text is determined by the arguments",
	"fmt.Fprintf":                             "one print event per call; appends the formatted text to the writer's text",
	"fmt.Fprintln":                            "one print event per call; appends text to the writer's text",
	"fmt.Fprint":                              "one print event per call; appends text to the writer's text",
	"fmt.Sprintf":                             "text determined by the format and arguments",
	"fmt.Sprint":                              "text determined by the arguments",
}

func (x *Exec) extern(fr *Frame, stp **State, full string, sig *types.Signature, args []Val, name string, pos token.Pos) (Val, bool) {
	doc, ok := externDoc[full]
	if !ok {
		return Val{}, false
	}
	st := *stp
	lit, isLit := "", false
	switch full {
	case "strings.HasPrefix", "strings.TrimPrefix", "strings.CutPrefix":
		for l, t := range x.c.strLits {
			if t == args[1].S && len(l) <= 3 {
				lit, isLit = l, true
			}
		}
		if !isLit {
			return Val{}, false
		}
	}
	x.externs[full] = doc
	tup := Val{Kind: KTuple}
	switch full {
	case "sort.Sort", "sort.Stable":
		a := args[0]
		if a.Dyn == nil {
			unsup("sort.Sort of unknown value")
		}
		sv := *a.Dyn
		if _, ok := under(sv.T).(*types.Slice); !ok {
			unsup("sort.Sort of %v", sv.T)
		}
		less := x.w.prog.LookupMethod(sv.T, nil, "Less")
		if less == nil {
			unsup("no Less method")
		}
		x.checkSortMethods(sv.T)
		x.sortModel(fr, st, sv, name, func(s2 *State, i, j Val) string {
			return x.inlineTerm(fr, s2, less, nil, []Val{sv, i, j})
		})
		return tup, true
	case "sort.Slice", "sort.SliceStable":
		a := args[0]
		if a.Dyn == nil {
			unsup("sort.Slice of unknown value")
		}
		sv := *a.Dyn
		f := args[1]
		if f.Kind != KClosure {
			unsup("sort.Slice with unknown function")
		}
		x.sortModel(fr, st, sv, name, func(s2 *State, i, j Val) string {
			return x.inlineTerm(fr, s2, f.Fn.(*ssa.Function), f.Binds, []Val{i, j})
		})
		return tup, true
	case "sort.Strings", "sort.Ints", "slices.Sort":
		sv := args[0]
		et := under(sv.T).(*types.Slice).Elem()
		x.sortModelElem(fr, st, sv, name, func(a, b string) string {
			if x.c.sortOf(et) == "Str" {
				return "(slt " + a + " " + b + ")"
			}
			return "(< " + a + " " + b + ")"
		})
		return tup, true
	case "slices.SortFunc", "slices.SortStableFunc":
		sv := args[0]
		et := under(sv.T).(*types.Slice).Elem()
		f := args[1]
		if f.Kind != KClosure {
			unsup("slices.SortFunc with unknown function")
		}
		x.sortModelElem(fr, st, sv, name, func(a, b string) string {
			s := x.c.sortOf(et)
			t := x.inlineTerm(fr, st, f.Fn.(*ssa.Function), f.Binds, []Val{term(et, s, a), term(et, s, b)})
			if t == "" {
				return ""
			}
			return "(< " + t + " 0)"
		})
		return tup, true
	case "slices.Reverse":
		sv := args[0]
		if sv.S == "" {
			unsup("reverse of literal")
		}
		et := under(sv.T).(*types.Slice).Elem()
		s := x.asTerm(sv)
		comp := x.compE(et)
		h := x.H(st, comp)
		na := x.c.fresh(name+".rev", "(Array Int "+x.c.sortOf(et)+")")
		old := x.c.define(name+".old", "(Array Int "+x.c.sortOf(et)+")", sel(h, x.sref(s)))
		lo, hi := x.soff(s), add(x.soff(s), x.slenT(s))
		mir := fmt.Sprintf("(- (+ %s %s) (+ p 1))", lo, hi)
		x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (= (select %s p) (ite (and (<= %s p) (< p %s)) (select %s %s) (select %s p))) :pattern ((select %s p))))", na, lo, hi, old, mir, old, na))
		x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (=> (and (<= %s p) (< p %s)) (= (select %s %s) (select %s p))) :pattern ((select %s p))))", lo, hi, na, mir, old, old))
		x.setH(st, comp, store(h, x.sref(s), na))
		x.recordWrite(fr, comp, x.sref(s))
		return tup, true
	case "slices.Compact":
		sv := args[0]
		et := under(sv.T).(*types.Slice).Elem()
		s := x.asTermOf(fr, st, sv, sv.T)
		comp := x.compE(et)
		h := x.H(st, comp)
		na := x.c.fresh(name+".cmp", "(Array Int "+x.c.sortOf(et)+")")
		n := x.c.fresh(name+".n", "Int")
		old := x.c.define(name+".old", "(Array Int "+x.c.sortOf(et)+")", sel(h, x.sref(s)))
		f, g := x.c.uniq(name+".src"), x.c.uniq(name+".dst")
		x.c.lines = append(x.c.lines, fmt.Sprintf("(declare-fun %s (Int) Int)", f), fmt.Sprintf("(declare-fun %s (Int) Int)", g))
		lo, hi := x.soff(s), add(x.soff(s), x.slenT(s))
		nhi := add(lo, n)
		x.c.assume("true", and("(<= 0 "+n+")", "(<= "+n+" "+x.slenT(s)+")"))
		x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (=> (and (<= %s p) (< p %s)) (and (<= %s (%s p)) (< (%s p) %s) (= (select %s p) (select %s (%s p))))) :pattern ((select %s p))))", lo, nhi, lo, f, f, hi, na, old, f, na))
		x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (=> (and (<= %s p) (< p %s)) (and (<= %s (%s p)) (< (%s p) %s) (= (select %s p) (select %s (%s p))))) :pattern ((select %s p))))", lo, hi, lo, g, g, nhi, old, na, g, old))
		x.setH(st, comp, store(h, x.sref(s), na))
		x.recordWrite(fr, comp, x.sref(s))
		return term(sv.T, "Slice", x.c.define(name, "Slice", fmt.Sprintf("(mk-slice %s %s %s)", x.sref(s), lo, n))), true
	case "slices.Contains":
		sv := args[0]
		if sv.S == "" && sv.Elems != nil {
			var fs []string
			for _, e := range sv.Elems {
				fs = append(fs, eq(x.asTerm(e), x.asTerm(args[1])))
			}
			return boolVal(x.c.define(name, "Bool", or(fs...))), true
		}
		ev := x.ev("", st, st, nil)
		f := ev.elems(sv, "", "exists", func(el Val) string { return eq(el.S, x.asTerm(args[1])) })
		return boolVal(x.c.define(name, "Bool", f)), true
	case "slices.Clone":
		sv := args[0]
		return x.appendOp(fr, st, sv.T, term(sv.T, "Slice", "(mk-slice 0 0 0)"), sv, name), true
	case "maps.Copy":
		mt := under(args[0].T).(*types.Map)
		d, s := x.asTerm(args[0]), x.asTerm(args[1])
		x.mapUnion(fr, st, mt, d, d, s, name)
		return tup, true
	case "maps.Clone":
		mt := under(args[0].T).(*types.Map)
		s := x.asTerm(args[0])
		r := x.allocRef(fr, st, name+".clone")
		md := x.compMD(mt)
		x.setH(st, md, store(x.H(st, md), r, x.dom(st, mt, s)))
		x.recordWrite(fr, md, r)
		if x.c.sortOf(mt.Elem()) != "Unit" {
			mv := x.compMV(mt)
			x.setH(st, mv, store(x.H(st, mv), r, sel(x.H(st, mv), s)))
			x.recordWrite(fr, mv, r)
		}
		return term(args[0].T, "Int", x.c.define(name, "Int", ite(eq(s, "0"), "0", r))), true
	case "maps.DeleteFunc":
		mt := under(args[0].T).(*types.Map)
		f := args[1]
		if f.Kind != KClosure {
			unsup("maps.DeleteFunc with unknown function")
		}
		m := x.asTerm(args[0])
		ks, es := x.c.sortOf(mt.Key()), x.c.sortOf(mt.Elem())
		vt := "unit"
		if es != "Unit" {
			vt = sel(sel(x.H(st, x.compMV(mt)), m), "df.k")
		}
		d := x.inlineTerm(fr, st, f.Fn.(*ssa.Function), f.Binds, []Val{term(mt.Key(), ks, "df.k"), term(mt.Elem(), es, vt)})
		if d == "" {
			unsup("maps.DeleteFunc with a complicated function")
		}
		md := x.compMD(mt)
		h := x.H(st, md)
		nd := x.c.fresh(name+".dom", "(Array "+ks+" Bool)")
		x.c.assume("true", fmt.Sprintf("(forall ((df.k %s)) (! (= (select %s df.k) (and (select %s df.k) (not %s))) :pattern ((select %s df.k)) :pattern ((select %s df.k))))", ks, nd, sel(h, m), d, nd, sel(h, m)))
		x.setH(st, md, store(h, m, nd))
		x.recordWrite(fr, md, m)
		return tup, true
	case "strings.HasPrefix", "strings.TrimPrefix", "strings.CutPrefix":
		s := x.asTerm(args[0])
		fs := []string{fmt.Sprintf("(>= (slen %s) %d)", s, len(lit))}
		for i := range lit {
			fs = append(fs, fmt.Sprintf("(= (sat %s %d) %d)", s, i, lit[i]))
		}
		has := x.c.define(name+".has", "Bool", and(fs...))
		str := types.Typ[types.String]
		rest := term(str, "Str", x.c.define(name+".rest", "Str", ite(has, x.strSub(s, fmt.Sprint(len(lit)), "(slen "+s+")"), s)))
		switch full {
		case "strings.HasPrefix":
			return boolVal(has), true
		case "strings.TrimPrefix":
			return rest, true
		}
		return Val{Kind: KTuple, Elems: []Val{rest, boolVal(has)}}, true
	case "strings.Compare", "cmp.Compare":
		a, b := x.asTerm(args[0]), x.asTerm(args[1])
		lt := func(a, b string) string {
			if x.c.sortOf(args[0].T) == "Str" {
				return "(slt " + a + " " + b + ")"
			}
			return "(< " + a + " " + b + ")"
		}
		return intVal(x.c.define(name, "Int", ite(eq(a, b), "0", ite(lt(a, b), "(- 1)", "1")))), true
	case "google.golang.org/protobuf/proto.String", "google.golang.org/protobuf/proto.Int64", "google.golang.org/protobuf/proto.Int32", "google.golang.org/protobuf/proto.Bool":
		t := sig.Params().At(0).Type()
		r := x.allocRef(fr, st, name+".p")
		p := term(sig.Results().At(0).Type(), "Int", r)
		x.storeVal(fr, st, x.deref(p), args[0])
		_ = t
		return p, true
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Grow":
		return x.builder(fr, st, full, args, name), true
	case "(io.Writer).Write", "io.WriteString":
		txt := args[1].Txt
		if full == "io.WriteString" {
			txt = x.asTerm(args[1])
		}
		x.writeText(fr, stp, args[0], txt, name, pos)
		return Val{Kind: KTuple, Elems: x.freshResults(fr, *stp, sig, name)}, true
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "fmt.Sprintf", "fmt.Sprint":
		return x.printCall(fr, stp, strings.TrimPrefix(full, "fmt."), sig, args, name, pos), true
	case "strings.Join":
		// text of a list: left fold, uninterpreted on the elements
		v := x.freshResults(fr, st, sig, name)
		return v[0], true
	}
	return Val{}, false
}

func (x *Exec) builder(fr *Frame, st *State, full string, args []Val, name string) Val {
	comp := x.comp("G:sb", "(Array Int Str)")
	var key string
	if args[0].Kind == KAddr && strings.HasPrefix(args[0].Addr.Comp, "L:") {
		key = q("sbkey:" + args[0].Addr.Comp)
		x.c.decl("sym:"+key, fmt.Sprintf("(declare-const %s Int)", key))
	} else {
		key = x.asTerm(args[0])
	}
	h := x.H(st, comp)
	switch full {
	case "(*strings.Builder).WriteString":
		x.setH(st, comp, store(h, key, x.cat(sel(h, key), x.asTerm(args[1]))))
		x.recordWrite(fr, comp, key)
		return Val{Kind: KTuple, Elems: []Val{intVal("0"), term(types.Universe.Lookup("error").Type(), "Iface", "(mk-iface 0 0)")}}
	case "(*strings.Builder).WriteByte":
		x.c.declFun("bytestr", []string{"Int"}, "Str")
		x.setH(st, comp, store(h, key, x.cat(sel(h, key), "(bytestr "+x.asTerm(args[1])+")")))
		x.recordWrite(fr, comp, key)
		return term(types.Universe.Lookup("error").Type(), "Iface", "(mk-iface 0 0)")
	case "(*strings.Builder).String":
		return term(types.Typ[types.String], "Str", x.c.define(name, "Str", sel(h, key)))
	case "(*strings.Builder).Len":
		return intVal("(slen " + sel(h, key) + ")")
	}
	return Val{Kind: KTuple}
}

func (x *Exec) mapUnion(fr *Frame, st *State, mt *types.Map, dst, base, src, name string) {
	ks := x.c.sortOf(mt.Key())
	md := x.compMD(mt)
	h := x.H(st, md)
	sd := x.c.define(name+".sd", "(Array "+ks+" Bool)", x.dom(st, mt, src))
	nd := x.c.fresh(name+".dom", "(Array "+ks+" Bool)")
	x.c.assume("true", fmt.Sprintf("(forall ((k %s)) (! (= (select %s k) (or (select %s k) (select %s k))) :pattern ((select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, nd, sel(h, base), sd, nd, sd, sel(h, base)))
	x.setH(st, md, store(h, dst, nd))
	x.recordWrite(fr, md, dst)
	if es := x.c.sortOf(mt.Elem()); es != "Unit" {
		mv := x.compMV(mt)
		hv := x.H(st, mv)
		nv := x.c.fresh(name+".val", "(Array "+ks+" "+es+")")
		x.c.assume("true", fmt.Sprintf("(forall ((k %s)) (! (= (select %s k) (ite (select %s k) (select %s k) (select %s k))) :pattern ((select %s k))))", ks, nv, sd, sel(hv, src), sel(hv, base), nv))
		x.setH(st, mv, store(hv, dst, nv))
		x.recordWrite(fr, mv, dst)
	}
}

// sortModel: the elements are permuted and, if the order can be expressed,
// ordered by less (given on index values).
func (x *Exec) sortModel(fr *Frame, st *State, sv Val, name string, less func(st *State, i, j Val) string) {
	x.permute(fr, st, sv, name)
	s := x.asTermOf(fr, st, sv, sv.T)
	et := under(sv.T).(*types.Slice).Elem()
	arr := sel(x.H(st, x.compE(et)), x.sref(s))
	// less on two arbitrary positions
	ip, jp := "so.i", "so.j"
	off := x.soff(s)
	t := less(st, intVal(sub(ip, off)), intVal(sub(jp, off)))
	if t == "" || x.unit != nil && x.unit.Opaque["order"] {
		return
	}
	lo, hi := off, add(off, x.slenT(s))
	x.c.assume(fr.guard, fmt.Sprintf("(forall ((so.j Int) (so.i Int)) (! (=> (and (<= %s so.j) (< so.j so.i) (< so.i %s)) (not %s)) :pattern (%s %s)))", lo, hi, t, sel(arr, "so.i"), sel(arr, "so.j")))
}

func (x *Exec) sortModelElem(fr *Frame, st *State, sv Val, name string, less func(a, b string) string) {
	if sv.S == "" && sv.Elems != nil {
		unsup("sort of literal")
	}
	x.permute(fr, st, sv, name)
	s := x.asTerm(sv)
	et := under(sv.T).(*types.Slice).Elem()
	arr := sel(x.H(st, x.compE(et)), x.sref(s))
	t := less(sel(arr, "so.i"), sel(arr, "so.j"))
	if t == "" || x.unit != nil && x.unit.Opaque["order"] {
		return
	}
	lo, hi := x.soff(s), add(x.soff(s), x.slenT(s))
	x.c.assume(fr.guard, fmt.Sprintf("(forall ((so.j Int) (so.i Int)) (! (=> (and (<= %s so.j) (< so.j so.i) (< so.i %s)) (not %s)) :pattern (%s %s)))", lo, hi, t, sel(arr, "so.i"), sel(arr, "so.j")))
}

func (x *Exec) permute(fr *Frame, st *State, sv Val, name string) {
	et := under(sv.T).(*types.Slice).Elem()
	s := x.asTermOf(fr, st, sv, sv.T)
	comp := x.compE(et)
	h := x.H(st, comp)
	old := x.c.define(name+".old", "(Array Int "+x.c.sortOf(et)+")", sel(h, x.sref(s)))
	na := x.c.fresh(name+".sorted", "(Array Int "+x.c.sortOf(et)+")")
	f, g := x.c.uniq(name+".perm"), x.c.uniq(name+".pinv")
	x.c.lines = append(x.c.lines, fmt.Sprintf("(declare-fun %s (Int) Int)", f), fmt.Sprintf("(declare-fun %s (Int) Int)", g))
	lo, hi := x.soff(s), add(x.soff(s), x.slenT(s))
	in := func(p string) string { return fmt.Sprintf("(and (<= %s %s) (< %s %s))", lo, p, p, hi) }
	// the permutation is the identity outside the slice, so that instantiating
	// these comes to an end for positions there too
	perm := func(from, to, f, g string) {
		x.c.assume("true", fmt.Sprintf("(forall ((p Int)) (! (and (= (select %s p) (select %s (%s p))) (= (%s (%s p)) p) (ite %s %s (= (%s p) p))) :pattern ((select %s p))))", from, to, f, g, f, in("p"), in("("+f+" p)"), f, from))
	}
	perm(na, old, f, g)
	perm(old, na, g, f)
	x.setH(st, comp, store(h, x.sref(s), na))
	x.recordWrite(fr, comp, x.sref(s))
}

// checkSortMethods notes that the Len/Swap methods of a sort.Interface type
// are verified separately.
func (x *Exec) checkSortMethods(t types.Type) {
	x.noteAssumption("Len and Swap of " + tkey(t) + " are the length of the slice and the exchange of two elements (verified as obligations of property C18)")
}

// inlineTerm executes a loop-free function and returns its result as one
// closed term over the given argument terms, or "" if that is not possible.
func (x *Exec) inlineTerm(fr *Frame, st *State, fn *ssa.Function, binds, args []Val) (res string) {
	saveLines, saveObs, saveW, saveRec := len(x.c.lines), len(x.c.obs), x.written, x.rec
	saveInline := x.c.inlineDefs
	saveGuard, saveCur := fr.guard, fr.cur
	saveMode, saveTerms := x.termMode, len(x.termLines)
	x.c.inlineDefs, x.termMode = true, true
	x.written, x.rec = map[string]bool{}, map[string]*LoopRec{}
	defer func() {
		x.c.inlineDefs = saveInline
		x.c.lines = x.c.lines[:saveLines]
		x.c.obs = x.c.obs[:saveObs]
		x.written, x.rec = saveW, saveRec
		fr.guard, fr.cur = saveGuard, saveCur
		x.termMode = saveMode
		if r := recover(); r != nil {
			if _, ok := r.(Unsup); ok {
				res = ""
				return
			}
			panic(r)
		}
		if res != "" {
			x.c.lines = append(x.c.lines, x.termLines[saveTerms:]...)
		}
	}()
	s2 := st.clone()
	fr.guard = "true"
	v := x.callFn(fr, &s2, fn, binds, args, fr.id+"/term:"+fn.Name(), token.NoPos)
	t := x.asTerm(v)
	if len(t) > 20000 {
		return ""
	}
	// any symbol introduced meanwhile would be dangling
	for _, sy := range termSyms(t) {
		if ln, ok := x.c.lineOf[sy]; ok && ln >= saveLines {
			return ""
		}
	}
	return t
}
