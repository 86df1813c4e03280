package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// cat concatenates two string terms. Concatenations are kept left-nested with
// adjacent literals merged, so that equal texts built in different steps have
// equal terms.
func (x *Exec) cat(a, b string) string {
	if d := curDefs[b]; len(d) == 3 && d[0] == "scat" {
		return x.cat(x.cat(a, d[1]), d[2])
	}
	if strings.HasPrefix(b, "(scat ") {
		d := splitArgs(b)
		return x.cat(x.cat(a, d[1]), d[2])
	}
	lb, okb := x.c.litText[b]
	la, oka := x.c.litText[a]
	if okb && lb == "" {
		return a
	}
	if oka && la == "" {
		return b
	}
	if oka && okb {
		return x.c.strLit(la + lb)
	}
	if okb {
		d := curDefs[a]
		if d == nil && strings.HasPrefix(a, "(scat ") {
			d = splitArgs(a)
		}
		if len(d) == 3 && d[0] == "scat" {
			if l, ok := x.c.litText[d[2]]; ok {
				return "(scat " + d[1] + " " + x.c.strLit(l+lb) + ")"
			}
		}
	}
	return "(scat " + a + " " + b + ")"
}

func (x *Exec) outComp() string { return x.comp("G:out", "(Array Int Str)") }

// writeText appends txt (unknown if empty) to the text of writer w.
func (x *Exec) writeText(fr *Frame, stp **State, w Val, txt, name string, pos token.Pos) {
	if txt == "" {
		txt = x.c.fresh(name+".text", "Str")
	}
	if w.Dyn != nil {
		if m := x.w.prog.LookupMethod(w.Dyn.T, nil, "Write"); m != nil && (inModule(m) || strings.Contains(tkey(w.Dyn.T), modPath)) {
			bs := types.NewSlice(types.Typ[types.Byte])
			r := x.allocRef(fr, *stp, name+".bytes")
			v := term(bs, "Slice", fmt.Sprintf("(mk-slice %s 0 (slen %s))", r, txt))
			v.Txt = txt
			x.inlineFn(fr, stp, m, nil, []Val{*w.Dyn, v}, name+"/Write")
			return
		}
	}
	comp := x.outComp()
	key := "(i.val " + x.asTerm(w) + ")"
	if w.Dyn != nil && w.Dyn.Kind == KTerm && w.Dyn.Sort == "Int" {
		key = w.Dyn.S
	}
	h := x.H(*stp, comp)
	x.setH(*stp, comp, store(h, key, x.cat(sel(h, key), txt)))
	x.recordWrite(fr, comp, key)
}

func printEvent(format string) string { return "print:" + format }

// printCall models the fmt functions: the text is put together from the
// literal parts of the format and the arguments, and one event per call
// records the format and the argument values.
func (x *Exec) printCall(fr *Frame, stp **State, fn string, sig *types.Signature, args []Val, name string, pos token.Pos) Val {
	var w *Val
	if fn[0] == 'F' {
		w = &args[0]
		args = args[1:]
	}
	format, lit := fn[strings.Index(fn, "rint")+4:], true
	format = "rint" + format
	if strings.HasSuffix(fn, "f") {
		format, lit = args[0].Lit, args[0].IsLit
		args = args[1:]
	}
	va := args[0]
	known := lit && (va.S == "" && va.Elems != nil || va.S == "(mk-slice 0 0 0)")
	txt := ""
	if known {
		var vs []Val
		for _, a := range va.Elems {
			if a.Dyn != nil {
				a = *a.Dyn
			}
			vs = append(vs, a)
		}
		if fn[0] != 'S' {
			x.emitPrint(fr, *stp, printEvent(format), vs, name, pos)
		}
		txt = x.formatText(fr, *stp, fn, format, vs)
	} else if fn[0] != 'S' && x.unit != nil && x.unit.tracesEvents() {
		unsup("%s with unknown format or arguments", fn)
	}
	if fn[0] == 'S' {
		if txt == "" {
			txt = x.c.fresh(name+".text", "Str")
		}
		return term(types.Typ[types.String], "Str", x.c.define(name, "Str", txt))
	}
	if w != nil {
		x.writeText(fr, stp, *w, txt, name, pos)
	}
	return pack(sig.Results(), x.freshResults(fr, *stp, sig, name))
}

func (x *Exec) emitPrint(fr *Frame, st *State, ev string, vs []Val, name string, pos token.Pos) {
	var ks []string
	var kv []Val
	for _, v := range vs {
		t := x.asTermOf(fr, st, v, v.T)
		ks = append(ks, t)
		kv = append(kv, term(v.T, x.c.sortOf(v.T), t))
	}
	comp := x.eventComp(ev, kv)
	if x.unit != nil && x.unit.PrintOnce && len(ks) > 0 {
		t := x.H(st, comp)
		for _, k := range ks {
			t = sel(t, k)
		}
		x.oblige(&Obligation{Kind: "once", Label: "printed once", Name: name + "/printed-once", Guard: fr.guard, Goal: not(t), Where: x.w.pos(pos), Src: "each line is printed at most once"})
	}
	if len(ks) == 0 {
		st.heap[comp] = "true"
	} else {
		old := x.H(st, comp)
		x.setH(st, comp, updAll(old, ks, "true"))
		if x.unit != nil && x.unit.tracesEvents() && len(ks) > 1 {
			// what the update means, so that contracts that ask whether there
			// is an event find the earlier ones and this one
			var bs []string
			was, is, now, here := old, x.H(st, comp), x.H(st, comp), []string{}
			for i, k := range ks {
				v := fmt.Sprintf("k%d", i)
				bs = append(bs, fmt.Sprintf("(%s %s)", v, kv[i].Sort))
				was, is, now = sel(was, v), sel(is, v), sel(now, k)
				here = append(here, eq(v, k))
			}
			x.c.assume("true", now)
			x.c.assume("true", fmt.Sprintf("(forall (%s) (! (= %s (or %s %s)) :pattern (%s) :pattern (%s)))", strings.Join(bs, " "), is, was, and(here...), was, is))
		}
	}
	x.recordWrite(fr, comp, "")
}

func updAll(t string, ks []string, v string) string {
	if len(ks) == 1 {
		return store(t, ks[0], v)
	}
	return store(t, ks[0], updAll(sel(t, ks[0]), ks[1:], v))
}

func (x *Exec) argText(fr *Frame, st *State, verb string, v Val) string {
	t := x.asTermOf(fr, st, v, v.T)
	if b, ok := under(v.T).(*types.Basic); ok && b.Info()&types.IsString != 0 && (verb == "s" || verb == "v") {
		if n, ok := types.Unalias(v.T).(*types.Named); !ok || n.NumMethods() == 0 {
			return t
		}
	}
	if n, ok := types.Unalias(v.T).(*types.Named); ok && (verb == "s" || verb == "v") {
		full := "(" + n.String() + ").String"
		if x.w.pure[full] {
			return x.pureApp(full, []types.Type{v.T}, []string{t}, types.Typ[types.String], 0, st).S
		}
	}
	f := q("fmt:" + verb + ":" + tkey(v.T))
	x.c.declFun(f, []string{x.c.sortOf(v.T)}, "Str")
	return "(" + f + " " + t + ")"
}

func (x *Exec) formatText(fr *Frame, st *State, fn, format string, vs []Val) string {
	txt := x.c.strLit("")
	if !strings.HasSuffix(fn, "f") {
		for i, v := range vs {
			if i > 0 {
				if strings.HasSuffix(fn, "ln") {
					txt = x.cat(txt, x.c.strLit(" "))
				} else if x.c.sortOf(v.T) != "Str" && x.c.sortOf(vs[i-1].T) != "Str" {
					txt = x.cat(txt, x.c.strLit(" "))
				}
			}
			txt = x.cat(txt, x.argText(fr, st, "v", v))
		}
		if strings.HasSuffix(fn, "ln") {
			txt = x.cat(txt, x.c.strLit("\n"))
		}
		return txt
	}
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 == len(format) {
			lit += format[i : i+1]
			continue
		}
		i++
		j := i
		for j < len(format)-1 && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if format[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if len(vs) == 0 {
			return ""
		}
		txt = x.cat(txt, x.c.strLit(lit))
		lit = ""
		txt = x.cat(txt, x.argText(fr, st, format[i:j+1], vs[0]))
		vs = vs[1:]
		i = j
	}
	return x.cat(txt, x.c.strLit(lit))
}
