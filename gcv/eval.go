package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev evaluates contract expressions in a program state.
type Ev struct {
	x     *Exec
	pkg   string
	st    *State
	old   *State
	vars  map[string]Val
	cbs   map[string]*Callback
	depth int
	axiom bool // evaluating a global axiom: only the entry heap may be used
}

func (x *Exec) ev(pkg string, st, old *State, vars map[string]Val) *Ev {
	return &Ev{x: x, pkg: pkg, st: st, old: old, vars: vars, cbs: x.cbs}
}

func (e *Ev) bind(name string, v Val) *Ev {
	n := *e
	n.vars = map[string]Val{}
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

func specErr(f string, a ...any) { panic(SpecErr{fmt.Sprintf(f, a...)}) }

// SpecErr is a contract that cannot be interpreted against the current code.
type SpecErr struct{ Msg string }

func (e *Ev) boolT(ex *Expr) string {
	v := e.eval(ex)
	if v.Sort != "Bool" {
		specErr("not a boolean: %s", ex)
	}
	return v.S
}

func boolVal(s string) Val { return term(types.Typ[types.Bool], "Bool", s) }
func intVal(s string) Val  { return term(types.Typ[types.Int], "Int", s) }

var nilT = types.Typ[types.UntypedNil]

func (e *Ev) lookupPkg(name string) *types.Package {
	if ip, ok := e.x.w.imports[e.pkg][name]; ok {
		if p := e.x.w.pkgs[ip]; p != nil {
			return p.Types
		}
	}
	for path, p := range e.x.w.pkgs {
		if path == name {
			return p.Types
		}
	}
	return nil
}

func (e *Ev) object(o types.Object) (Val, bool) {
	switch o := o.(type) {
	case *types.Const:
		t := o.Type()
		s := e.x.c.sortOf(t)
		switch o.Val().Kind() {
		case constant.Int:
			return term(t, s, intStr(o.Val().ExactString())), true
		case constant.String:
			v := term(t, "Str", e.x.c.strLit(constant.StringVal(o.Val())))
			return v, true
		case constant.Bool:
			return term(t, "Bool", fmt.Sprint(constant.BoolVal(o.Val()))), true
		}
	case *types.Var:
		sp := e.x.w.prog.Package(o.Pkg())
		if sp == nil {
			return Val{}, false
		}
		g := sp.Var(o.Name())
		if g == nil {
			return Val{}, false
		}
		p := term(g.Type(), "Int", e.x.globalRef(g))
		return e.load(e.x.deref(p)), true
	}
	return Val{}, false
}

func (e *Ev) load(a *Addr) Val {
	return term(a.T, e.x.c.sortOf(a.T), e.x.loadTerm(e.st, a))
}

func (e *Ev) id(name string) Val {
	if v, ok := e.vars[name]; ok {
		return v
	}
	switch name {
	case "nil":
		return term(nilT, "Int", "0")
	case "true", "false":
		return boolVal(name)
	}
	if p := e.x.w.pkgs[e.pkg]; p != nil {
		if o := p.Types.Scope().Lookup(name); o != nil {
			if v, ok := e.object(o); ok {
				return v
			}
		}
	}
	specErr("unknown name %s", name)
	return Val{}
}

// termOf gives v as a term (materialisation is not possible in contracts).
func (e *Ev) termOf(v Val) string {
	if v.Kind == KTerm && v.S == "" && v.Elems != nil {
		specErr("slice literal used in contract")
	}
	return e.x.asTerm(v)
}

func (e *Ev) fieldOf(v Val, name string) Val {
	if v.Set != nil && len(v.Elems) == 2 {
		switch name {
		case "s":
			return v.Elems[0]
		case "n":
			return v.Elems[1]
		}
	}
	t := v.T
	if t == nil {
		specErr("no type for field %s", name)
	}
	if strings.HasPrefix(name, "$") {
		comp, gt := e.x.compGF(derefT(t), name)
		if comp == "" {
			specErr("no ghost field %s in %v", name, t)
		}
		return term(gt, e.x.c.sortOf(gt), sel(e.x.H(e.st, comp), e.termOf(v)))
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, e.x.w.pkgs[e.pkg].Types, name)
	if _, ok := obj.(*types.Var); !ok {
		// unexported field of another package
		var pk *types.Package
		if n, ok := types.Unalias(derefT(t)).(*types.Named); ok {
			pk = n.Obj().Pkg()
		}
		obj, path, _ = types.LookupFieldOrMethod(t, true, pk, name)
		if _, ok := obj.(*types.Var); !ok {
			specErr("no field %s in %v", name, t)
		}
	}
	return e.walk(v, path)
}

func derefT(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Ev) walk(v Val, path []int) Val {
	x := e.x
	for _, i := range path {
		switch u := under(v.T).(type) {
		case *types.Pointer:
			a := x.fieldAddr(x.deref(v), i)
			if len(a.Path) == 0 {
				if kv, ok := e.st.known[a.Comp+"\x00"+a.Ref]; ok && kv.Kind == KTerm && kv.S != "" {
					v = kv
					continue
				}
			}
			v = e.load(a)
		case *types.Struct:
			x.c.sortOf(v.T)
			v = term(u.Field(i).Type(), x.c.sortOf(u.Field(i).Type()), "("+x.c.fieldSel(v.T, i)+" "+e.termOf(v)+")")
		default:
			specErr("field of %v", v.T)
		}
	}
	return v
}

// walkRecv finds the receiver of a promoted method: the address of the last
// embedded field when the method has a pointer receiver.
func (e *Ev) walkRecv(v Val, path []int, m *types.Func) Val {
	last := len(path) - 1
	base := e.walk(v, path[:last])
	_, wantPtr := under(m.Type().(*types.Signature).Recv().Type()).(*types.Pointer)
	if p, ok := under(base.T).(*types.Pointer); ok && wantPtr {
		ft := under(p.Elem()).(*types.Struct).Field(path[last]).Type()
		if _, isPtr := under(ft).(*types.Pointer); !isPtr {
			return Val{Kind: KAddr, T: types.NewPointer(ft), Addr: e.x.fieldAddr(e.x.deref(base), path[last])}
		}
	}
	return e.walk(base, path[last:])
}

func (e *Ev) eval(ex *Expr) Val {
	x := e.x
	switch ex.Op {
	case "id":
		return e.id(ex.Name)
	case "int":
		return intVal(ex.Name)
	case "str":
		v := term(types.Typ[types.String], "Str", x.c.strLit(ex.Name))
		v.Lit, v.IsLit = ex.Name, true
		return v
	case "field":
		if ex.Args[0].Op == "id" {
			if _, ok := e.vars[ex.Args[0].Name]; !ok {
				if p := e.lookupPkg(ex.Args[0].Name); p != nil {
					if o := p.Scope().Lookup(ex.Name); o != nil {
						if v, ok := e.object(o); ok {
							return v
						}
					}
					specErr("unknown name %s", ex)
				}
			}
		}
		return e.fieldOf(e.eval(ex.Args[0]), ex.Name)
	case "index":
		v := e.eval(ex.Args[0])
		if v.Set != nil {
			specErr("index of set")
		}
		i := e.eval(ex.Args[1])
		switch u := under(v.T).(type) {
		case *types.Slice:
			if v.S == "" && v.Elems != nil {
				for k, el := range v.Elems {
					if i.S == fmt.Sprint(k) {
						return el
					}
				}
			}
			s := e.termOf(v)
			return term(u.Elem(), x.c.sortOf(u.Elem()), sel(sel(x.H(e.st, x.compE(u.Elem())), x.sref(s)), x.sidx(s, e.termOf(i))))
		case *types.Map:
			in, val := x.mapGet(e.st, u, e.termOf(v), e.conv(i, u.Key()))
			return term(u.Elem(), x.c.sortOf(u.Elem()), ite(in, val, x.c.zero(u.Elem())))
		case *types.Basic:
			return term(types.Typ[types.Byte], "Int", "(sat "+e.termOf(v)+" "+e.termOf(i)+")")
		case *types.Array:
			for k := 0; k < int(u.Len()) && u.Len() <= 8; k++ {
				if i.S == fmt.Sprint(k) {
					return term(u.Elem(), x.c.sortOf(u.Elem()), "("+x.c.arrSel(u, k)+" "+e.termOf(v)+")")
				}
			}
		}
		specErr("cannot index %s", ex)
	case "slice":
		v := e.eval(ex.Args[0])
		if _, ok := under(v.T).(*types.Basic); !ok {
			specErr("cannot slice %s", ex)
		}
		s, lo := e.termOf(v), e.termOf(e.eval(ex.Args[1]))
		hi := "(slen " + s + ")"
		if len(ex.Args) > 2 {
			hi = e.termOf(e.eval(ex.Args[2]))
		}
		return term(v.T, "Str", x.strSub(s, lo, hi))
	case "un":
		v := e.eval(ex.Args[0])
		switch ex.Name {
		case "!":
			return boolVal(not(v.S))
		case "-":
			return intVal("(- " + v.S + ")")
		case "*":
			a := x.deref(v)
			if kv, ok := e.st.known[a.Comp+"\x00"+a.Ref]; ok && len(a.Path) == 0 && a.Idx == "" && kv.Kind == KTerm && kv.S != "" {
				return kv
			}
			return e.load(a)
		}
	case "ite":
		a, b := e.eval(ex.Args[1]), e.eval(ex.Args[2])
		a, b = e.unify(a, b)
		return term(a.T, a.Sort, ite(e.boolT(ex.Args[0]), e.termOf(a), e.termOf(b)))
	case "is":
		return boolVal(e.isType(e.eval(ex.Args[0]), ex.Name))
	case "as":
		v := e.eval(ex.Args[0])
		t := x.w.resolveType(e.pkg, ex.Name)
		if _, ok := under(t).(*types.Interface); ok {
			return term(t, "Iface", e.termOf(v))
		}
		return term(t, x.c.sortOf(t), x.c.unbox(t, "(i.val "+e.termOf(v)+")"))
	case "forall", "exists":
		return e.quant(ex)
	case "bin":
		return e.bin(ex)
	case "call":
		return e.call(ex)
	}
	specErr("cannot evaluate %s", ex)
	return Val{}
}

func (e *Ev) isType(v Val, tn string) string {
	x := e.x
	t := x.w.resolveType(e.pkg, tn)
	if _, ok := under(t).(*types.Interface); ok {
		return x.implements(t, e.termOf(v))
	}
	return eq("(i.tag "+e.termOf(v)+")", x.c.tagOf(t))
}

func (e *Ev) quant(ex *Expr) Val {
	x := e.x
	n := *e
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	var bs, wfs []string
	for _, v := range ex.Vars {
		t := x.w.resolveType(e.pkg, v.Type)
		s := x.c.sortOf(t)
		x.nq++
		name := fmt.Sprintf("%s!%d", v.Name, e.depth)
		n.vars[v.Name] = term(t, s, name)
		bs = append(bs, "("+name+" "+s+")")
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			wfs = append(wfs, "(<= 0 "+name+")")
		}
	}
	n.depth = e.depth + 1
	body := n.boolT(ex.Args[0])
	if len(wfs) > 0 {
		if ex.Op == "forall" {
			body = implies(and(wfs...), body)
		} else {
			body = and(append(wfs, body)...)
		}
	}
	if body == "true" || body == "false" {
		return boolVal(body)
	}
	if len(ex.Trig) > 0 {
		// commas separate alternative patterns; "&&" joins a multi-pattern
		pats := ""
		for _, t := range ex.Trig {
			var ts []string
			var flat func(t *Expr)
			flat = func(t *Expr) {
				if t.Op == "bin" && t.Name == "&&" {
					flat(t.Args[0])
					flat(t.Args[1])
					return
				}
				v := n.eval(t)
				ts = append(ts, patTerms(n.termOf(v))...)
			}
			flat(t)
			for _, alt := range splitItes(ts, 3) {
				if !patternOK(alt) {
					continue
				}
				pats += " :pattern (" + strings.Join(alt, " ") + ")"
			}
		}
		if pats != "" {
			body = "(! " + body + pats + ")"
		}
	}
	return boolVal("(" + ex.Op + " (" + strings.Join(bs, " ") + ") " + body + ")")
}

// patTerms strips the connectives z3 rejects in patterns.
func patTerms(t string) []string {
	if strings.HasPrefix(t, "(ite ") {
		// what is in a map of bools: the value is not looked at where the key is
		// missing, and a solver matches only what it looks at
		if a := splitArgs(t); a[3] == "false" {
			if p := patTerms(a[1]); len(p) > 0 {
				return p
			}
		}
	}
	if strings.HasPrefix(t, "(and ") || strings.HasPrefix(t, "(or ") || strings.HasPrefix(t, "(not ") || strings.HasPrefix(t, "(=> ") || strings.HasPrefix(t, "(ite ") {
		var out []string
		for _, a := range splitArgs(t)[1:] {
			out = append(out, patTerms(a)...)
		}
		return out
	}
	if strings.HasPrefix(t, "(= ") || strings.HasPrefix(t, "(<") || strings.HasPrefix(t, "(>") || !strings.HasPrefix(t, "(") {
		return nil
	}
	return []string{t}
}

// patternOK reports whether the terms can be used as a pattern.
func patternOK(ts []string) bool {
	for _, t := range ts {
		if !strings.HasPrefix(t, "(") || strings.HasPrefix(t, "(forall ") || strings.HasPrefix(t, "(exists ") {
			return false
		}
	}
	return len(ts) > 0
}

// splitItes replaces a pattern whose terms have conditionals inside, which no
// solver matches, by one pattern for each outcome of the condition.
func splitItes(ts []string, depth int) [][]string {
	for i, t := range ts {
		k := strings.Index(t, "(ite ")
		if k < 0 || depth == 0 {
			continue
		}
		end := closeParen(t, k)
		a := splitArgs(t[k : end+1])
		var out [][]string
		for j := 2; j <= 3; j++ {
			alt := append([]string(nil), ts...)
			alt[i] = t[:k] + a[j] + t[end+1:]
			if j == 3 {
				alt = append(alt, patTerms(a[1])...)
			}
			out = append(out, splitItes(alt, depth-1)...)
		}
		return out
	}
	return [][]string{ts}
}

// closeParen is the position of the parenthesis closing the one at k.
func closeParen(t string, k int) int {
	depth, quoted := 0, false
	for i := k; i < len(t); i++ {
		switch {
		case t[i] == '|':
			quoted = !quoted
		case quoted:
		case t[i] == '(':
			depth++
		case t[i] == ')':
			depth--
			if depth == 0 {
				return i
			}
		}
	}
	return len(t) - 1
}

func isNilVal(v Val) bool { return v.T == nilT }

// conv adapts v to type t (nil constants, concrete to interface).
func (e *Ev) conv(v Val, t types.Type) string {
	x := e.x
	if isNilVal(v) {
		return x.c.zero(t)
	}
	if _, ok := under(t).(*types.Interface); ok && v.T != nil {
		if _, isI := under(v.T).(*types.Interface); !isI {
			return "(mk-iface " + x.c.tagOf(v.T) + " " + x.c.box(v.T, e.termOf(v)) + ")"
		}
	}
	return e.termOf(v)
}

func (e *Ev) unify(a, b Val) (Val, Val) {
	if isNilVal(a) && !isNilVal(b) && b.T != nil {
		return term(b.T, b.Sort, e.x.c.zero(b.T)), b
	}
	if isNilVal(b) && !isNilVal(a) && a.T != nil {
		return a, term(a.T, a.Sort, e.x.c.zero(a.T))
	}
	if a.T != nil && b.T != nil {
		_, ia := under(a.T).(*types.Interface)
		_, ib := under(b.T).(*types.Interface)
		if ia && !ib {
			return a, term(a.T, "Iface", e.conv(b, a.T))
		}
		if ib && !ia {
			return term(b.T, "Iface", e.conv(a, b.T)), b
		}
	}
	return a, b
}

func (e *Ev) equal(a, b Val) string {
	if isNilVal(b) || isNilVal(a) {
		if isNilVal(a) {
			a, b = b, a
		}
		if a.Kind == KClosure {
			return "false"
		}
		if a.Kind == KTerm && a.S == "" && a.Elems != nil {
			return "false"
		}
		switch a.Sort {
		case "Slice":
			return eq(e.x.sref(e.termOf(a)), "0")
		case "Iface":
			return eq("(i.tag "+e.termOf(a)+")", "0")
		}
		return eq(e.termOf(a), "0")
	}
	a, b = e.unify(a, b)
	sa, sb := a.Sort, b.Sort
	if sa != "" && sb != "" && sa != sb {
		specErr("comparison of %s and %s", sa, sb)
	}
	return eq(e.termOf(a), e.termOf(b))
}

func (e *Ev) bin(ex *Expr) Val {
	x := e.x
	l, r := ex.Args[0], ex.Args[1]
	switch ex.Name {
	case "&&":
		a := e.boolT(l)
		if a == "false" {
			return boolVal(a)
		}
		return boolVal(and(a, e.boolT(r)))
	case "||":
		a := e.boolT(l)
		if a == "true" {
			return boolVal(a)
		}
		return boolVal(or(a, e.boolT(r)))
	case "==>":
		a := e.boolT(l)
		if a == "false" {
			return boolVal("true")
		}
		return boolVal(implies(a, e.boolT(r)))
	case "<==>":
		return boolVal(eq(e.boolT(l), e.boolT(r)))
	case "==":
		return boolVal(e.equal(e.eval(l), e.eval(r)))
	case "!=":
		return boolVal(not(e.equal(e.eval(l), e.eval(r))))
	case "in":
		m := e.eval(r)
		k := e.eval(l)
		if m.Set != nil {
			return boolVal(e.setHas(m, []Val{k}))
		}
		switch u := under(m.T).(type) {
		case *types.Map:
			return boolVal(x.mapIn(e.st, u, e.termOf(m), e.conv(k, u.Key())))
		case *types.Slice:
			return boolVal(e.elems(m, "", "exists", func(el Val) string { return eq(e.termOf(el), e.conv(k, u.Elem())) }))
		}
		specErr("bad 'in': %s", ex)
	}
	a, b := e.eval(l), e.eval(r)
	ta, tb := e.termOf(a), e.termOf(b)
	if a.Sort == "Str" {
		switch ex.Name {
		case "+":
			return term(a.T, "Str", x.cat(ta, tb))
		case "<":
			return boolVal("(slt " + ta + " " + tb + ")")
		case ">":
			return boolVal("(slt " + tb + " " + ta + ")")
		case "<=":
			return boolVal(not("(slt " + tb + " " + ta + ")"))
		case ">=":
			return boolVal(not("(slt " + ta + " " + tb + ")"))
		}
	}
	switch ex.Name {
	case "+", "-", "*":
		return term(a.T, "Int", "("+ex.Name+" "+ta+" "+tb+")")
	case "<", "<=", ">", ">=":
		return boolVal("(" + ex.Name + " " + ta + " " + tb + ")")
	}
	specErr("bad operator in %s", ex)
	return Val{}
}

// elems quantifies over the elements of slice s (the first n of them if n is
// not empty), using absolute positions so that patterns are free of sums.
func (e *Ev) elems(s Val, n, qf string, body func(Val) string) string {
	x := e.x
	et := under(s.T).(*types.Slice).Elem()
	if s.S == "" && s.Elems != nil {
		var fs []string
		for _, el := range s.Elems {
			fs = append(fs, body(el))
		}
		if qf == "exists" {
			return or(fs...)
		}
		return and(fs...)
	}
	t := e.termOf(s)
	if n == "" {
		n = x.slenT(t)
	}
	p := fmt.Sprintf("p!%d", e.depth)
	e.depth++
	defer func() { e.depth-- }()
	el := sel(sel(x.H(e.st, x.compE(et)), x.sref(t)), p)
	rng := fmt.Sprintf("(and (<= %s %s) (< %s %s))", x.soff(t), p, p, add(x.soff(t), n))
	f := body(term(et, x.c.sortOf(et), el))
	if qf == "exists" {
		f = and(rng, f)
	} else {
		f = implies(rng, f)
	}
	return fmt.Sprintf("(%s ((%s Int)) (! %s :pattern (%s)))", qf, p, f, el)
}

func (e *Ev) setHas(m Val, ks []Val) string {
	x := e.x
	p := m.Set
	if p.cb != nil {
		return x.calledTerm(e, e.st, p.cb, ks)
	}
	k := ks[0]
	if p.seenComp != "" {
		t := sel(x.H(e.st, p.seenComp), e.conv(k, p.elemT))
		if m.S != "" { // minus the key in progress
			t = and(t, not(eq(e.conv(k, p.elemT), m.S)))
		}
		return t
	}
	// slice progress: m.Elems[0] slice, m.Elems[1] count
	return e.elems(m.Elems[0], e.termOf(m.Elems[1]), "exists", func(el Val) string { return eq(e.termOf(el), e.conv(k, p.elemT)) })
}

func (e *Ev) call(ex *Expr) Val {
	x := e.x
	f := ex.Args[0]
	args := ex.Args[1:]
	if f.Op == "id" {
		switch f.Name {
		case "len":
			v := e.eval(args[0])
			if v.S == "" && v.Elems != nil {
				return intVal(fmt.Sprint(len(v.Elems)))
			}
			switch u := under(v.T).(type) {
			case *types.Slice:
				return intVal(x.slenT(e.termOf(v)))
			case *types.Basic:
				return intVal("(slen " + e.termOf(v) + ")")
			case *types.Map:
				return intVal(x.mapLen(e.st, u, e.termOf(v)))
			}
			specErr("len of %v", v.T)
		case "old":
			n := *e
			n.st = e.old
			return n.eval(args[0])
		case "fresh":
			v := e.eval(args[0])
			t := e.termOf(v)
			if v.Sort == "Slice" {
				t = x.sref(t)
			}
			return boolVal(and("(>= "+t+" "+x.A(e.old)+")", "(< "+t+" "+x.A(e.st)+")"))
		case "nilorfresh":
			v := e.eval(args[0])
			t := e.termOf(v)
			if v.Sort == "Slice" {
				t = x.sref(t)
			}
			return boolVal(or(eq(t, "0"), and("(>= "+t+" "+x.A(e.old)+")", "(< "+t+" "+x.A(e.st)+")")))
		case "allocated":
			v := e.eval(args[0])
			t := e.termOf(v)
			if v.Sort == "Slice" {
				t = x.sref(t)
			}
			return boolVal("(< " + t + " " + x.A(e.st) + ")")
		case "ref":
			v := e.eval(args[0])
			if v.Sort == "Slice" {
				return intVal(x.sref(e.termOf(v)))
			}
			return intVal(e.termOf(v))
		case "allelem", "exelem":
			s := e.eval(args[0])
			q := "forall"
			if f.Name == "exelem" {
				q = "exists"
			}
			n := *e
			return boolVal((&n).elems(s, "", q, func(el Val) string {
				return (&n).bind(args[1].Name, el).boolT(args[2])
			}))
		case "allprefix", "exprefix":
			s := e.eval(args[0])
			cnt := e.termOf(e.eval(args[1]))
			q := "forall"
			if f.Name == "exprefix" {
				q = "exists"
			}
			n := *e
			return boolVal((&n).elems(s, cnt, q, func(el Val) string {
				return (&n).bind(args[2].Name, el).boolT(args[3])
			}))
		case "distinctelems":
			s := e.eval(args[0])
			et := under(s.T).(*types.Slice).Elem()
			t := e.termOf(s)
			d := e.depth
			a, b := fmt.Sprintf("p!%d", d), fmt.Sprintf("p2!%d", d)
			arr := sel(x.H(e.st, x.compE(et)), x.sref(t))
			rng := fmt.Sprintf("(and (<= %s %s) (< %s %s) (< %s %s))", x.soff(t), a, a, b, b, add(x.soff(t), x.slenT(t)))
			return boolVal(fmt.Sprintf("(forall ((%s Int) (%s Int)) (! (=> %s (not (= %s %s))) :pattern (%s %s)))", a, b, rng, sel(arr, a), sel(arr, b), sel(arr, a), sel(arr, b)))
		case "sameelems":
			// two slices have the same elements in the same order
			a, b := e.eval(args[0]), e.eval(args[1])
			return boolVal(e.sameElems(a, e.st, b, e.st))
		case "pair":
			a, b := e.eval(args[0]), e.eval(args[1])
			t := types.NewArray(a.T, 2)
			s := x.c.sortOf(t)
			return term(t, s, x.c.mkArr(t, []string{e.termOf(a), e.termOf(b)}))
		case "induct":
			v := e.eval(args[0])
			mt, ok := under(v.T).(*types.Map)
			if !ok {
				specErr("induct of %v", v.T)
			}
			return boolVal(x.inductTerm(x.c.sortOf(mt.Key()), x.dom(e.st, mt, e.termOf(v))))
		case "iface":
			// iface(T, v): v as interface T
			t := x.w.resolveType(e.pkg, typeText(args[0]))
			return term(t, "Iface", e.conv(e.eval(args[1]), t))
		case "called":
			cb := e.cbs[args[0].Name]
			if cb == nil {
				specErr("no callback %s", args[0].Name)
			}
			var ks []Val
			for _, a := range args[1:] {
				ks = append(ks, e.eval(a))
			}
			return boolVal(x.calledTerm(e, e.st, cb, ks))
		case "ncalls":
			cb := e.cbs[args[0].Name]
			if v, ok := e.vars[args[0].Name]; ok && cb == nil && v.Set != nil {
				cb = v.Set.cb
			}
			if cb == nil {
				specErr("no callback %s", args[0].Name)
			}
			var ks []Val
			for _, a := range args[1:] {
				ks = append(ks, e.eval(a))
			}
			return intVal(x.ncallsTerm(e, e.st, cb, ks))
		case "start":
			return intVal(x.soff(e.termOf(e.eval(args[0]))))
		case "at", "inrange":
			s := e.eval(args[0])
			p := e.termOf(e.eval(args[1]))
			t := e.termOf(s)
			if f.Name == "inrange" {
				return boolVal(fmt.Sprintf("(and (<= %s %s) (< %s %s))", x.soff(t), p, p, add(x.soff(t), x.slenT(t))))
			}
			et := under(s.T).(*types.Slice).Elem()
			return term(et, x.c.sortOf(et), sel(sel(x.H(e.st, x.compE(et)), x.sref(t)), p))
		case "emitted":
			var ks []Val
			for _, a := range args[1:] {
				ks = append(ks, e.eval(a))
			}
			n := args[0].Name
			if args[0].Op == "str" {
				n = printEvent(n)
			}
			return boolVal(e.emitted(n, ks))
		case "apply":
			fv := e.eval(args[0])
			sg := under(fv.T).(*types.Signature)
			ts, as := []types.Type{fv.T}, []string{e.termOf(fv)}
			for i, a := range args[1:] {
				ts = append(ts, sg.Params().At(i).Type())
				as = append(as, e.conv(e.eval(a), sg.Params().At(i).Type()))
			}
			return x.pureApp("apply", ts, as, sg.Results().At(0).Type(), 0, e.st)
		case "output":
			return term(types.Typ[types.String], "Str", sel(x.H(e.st, x.outComp()), "(i.val "+e.termOf(e.eval(args[0]))+")"))
		case "gvar":
			t := x.w.resolveType(e.pkg, typeText(args[1]))
			s := x.c.sortOf(t)
			return term(t, s, x.H(e.st, x.ghostVar(args[0].Name, s)))
		}
		if v, ok := e.vars[f.Name]; ok && v.Set != nil {
			var ks []Val
			for _, a := range args {
				ks = append(ks, e.eval(a))
			}
			return boolVal(e.setHas(v, ks))
		}
		if sf := x.w.specFn(e.pkg, f.Name); sf != nil {
			return e.specCall(sf, args)
		}
		if l := x.w.lfp(e.pkg, f.Name); l != nil {
			return e.lfpCall(l, args)
		}
		// conversion or package function
		if p := x.w.pkgs[e.pkg]; p != nil {
			switch o := p.Types.Scope().Lookup(f.Name).(type) {
			case *types.TypeName:
				v := e.eval(args[0])
				return term(o.Type(), x.c.sortOf(o.Type()), e.conv(v, o.Type()))
			case *types.Func:
				return e.pureCall(o, nil, args)
			}
		}
		if o, ok := types.Universe.Lookup(f.Name).(*types.TypeName); ok {
			v := e.eval(args[0])
			return term(o.Type(), x.c.sortOf(o.Type()), e.conv(v, o.Type()))
		}
		specErr("unknown function %s", f.Name)
	}
	if f.Op == "field" {
		if f.Args[0].Op == "id" {
			if _, ok := e.vars[f.Args[0].Name]; !ok {
				if p := e.lookupPkg(f.Args[0].Name); p != nil {
					switch o := p.Scope().Lookup(f.Name).(type) {
					case *types.Func:
						return e.pureCall(o, nil, args)
					case *types.TypeName:
						v := e.eval(args[0])
						return term(o.Type(), x.c.sortOf(o.Type()), e.conv(v, o.Type()))
					}
					specErr("unknown %s", f)
				}
			}
		}
		recv := e.eval(f.Args[0])
		if recv.T == nil {
			specErr("method call on ghost value: %s", ex)
		}
		obj, path, _ := types.LookupFieldOrMethod(recv.T, true, x.w.pkgs[e.pkg].Types, f.Name)
		if m, ok := obj.(*types.Func); ok {
			if len(path) > 1 {
				recv = e.walkRecv(recv, path[:len(path)-1], m)
			}
			return e.pureCall(m, &recv, args)
		}
		specErr("no method %s on %v", f.Name, recv.T)
	}
	specErr("cannot call %s", ex)
	return Val{}
}

func typeText(e *Expr) string {
	switch e.Op {
	case "id":
		return e.Name
	case "field":
		return typeText(e.Args[0]) + "." + e.Name
	case "un":
		return "*" + typeText(e.Args[0])
	}
	specErr("bad type %s", e)
	return ""
}

func (e *Ev) sameElems(a Val, sa *State, b Val, sb *State) string {
	x := e.x
	et := under(a.T).(*types.Slice).Elem()
	ta, tb := e.termOf(a), e.termOf(b)
	i := fmt.Sprintf("i!%d", e.depth)
	ea := sel(sel(x.H(sa, x.compE(et)), x.sref(ta)), x.sidx(ta, i))
	eb := sel(sel(x.H(sb, x.compE(et)), x.sref(tb)), x.sidx(tb, i))
	return and(eq(x.slenT(ta), x.slenT(tb)), fmt.Sprintf("(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (= %s %s)) :pattern (%s) :pattern (%s)))", i, i, i, x.slenT(ta), ea, eb, ea, eb))
}

// pureCall applies the uninterpreted function standing for a pure function.
func (e *Ev) pureCall(m *types.Func, recv *Val, args []*Expr) Val {
	x := e.x
	sig := m.Type().(*types.Signature)
	var vs []Val
	var ts []types.Type
	if recv != nil {
		r := *recv
		rt := sig.Recv().Type()
		_, wantPtr := under(rt).(*types.Pointer)
		_, havePtr := under(r.T).(*types.Pointer)
		if !wantPtr && havePtr {
			if _, isI := under(rt).(*types.Interface); !isI {
				r = e.load(x.deref(r))
			}
		}
		vs = append(vs, r)
		ts = append(ts, rt)
	}
	for i, a := range args {
		v := e.eval(a)
		vs = append(vs, v)
		ts = append(ts, sig.Params().At(i).Type())
	}
	name := m.FullName()
	if !x.w.pure[name] {
		// a repo function without effects may be used through inlining
		if fn := x.w.prog.FuncValue(m); fn != nil && x.w.fns[fn.String()] != nil {
			return e.inlineCall(fn, vs, ts)
		}
		specErr("contract uses %s which is not declared pure", name)
	}
	var as []string
	for i, v := range vs {
		as = append(as, e.conv(v, ts[i]))
	}
	if sig.Results().Len() != 1 {
		specErr("pure function %s must have one result", name)
	}
	return x.pureApp(name, ts, as, sig.Results().At(0).Type(), 0, e.st)
}

// inlineCall evaluates a small loop-free repo function symbolically in a
// contract.
func (e *Ev) inlineCall(fn *ssa.Function, vs []Val, ts []types.Type) Val {
	x := e.x
	if e.depth > 0 {
		specErr("contract uses %s under a quantifier; declare it pure", fn)
	}
	nf := &Frame{id: fmt.Sprintf("spec:%s!%d", fn.Name(), x.nextSpec()), fn: fn, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		nf.env[p] = term(p.Type(), x.c.sortOf(p.Type()), e.conv(vs[i], ts[i]))
	}
	st := e.st.clone()
	sw, sr := x.written, x.rec
	x.written, x.rec = map[string]bool{}, map[string]*LoopRec{}
	defer func() { x.written, x.rec = sw, sr }()
	if len(findLoops(fn)) > 0 {
		specErr("contract uses %s which has loops", fn)
	}
	rets := x.execFn(nf, st, "true")
	var gs []string
	var rv []Val
	for _, r := range rets {
		gs = append(gs, r.guard)
		rv = append(rv, r.vals[0])
	}
	return x.mergeVals(nf, st, gs, rv, fn.Signature.Results().At(0).Type(), nf.id+".res")
}

func (x *Exec) nextSpec() int { x.nspec++; return x.nspec }

func (x *Exec) pureApp(name string, ts []types.Type, as []string, res types.Type, idx int, st *State) Val {
	f := q("p:" + name)
	if idx > 0 {
		f = q(fmt.Sprintf("p:%s#%d", name, idx))
	}
	var ss []string
	for _, t := range ts {
		ss = append(ss, x.c.sortOf(t))
	}
	rs := x.c.sortOf(res)
	x.pureUsed[name] = true
	if len(as) == 0 {
		x.c.decl("fun:"+f, fmt.Sprintf("(declare-const %s %s)", f, rs))
		return term(res, rs, f)
	}
	x.c.declFun(f, ss, rs)
	// results of pure functions are values that existed at entry
	var bs, ns []string
	for i, s := range ss {
		bs = append(bs, fmt.Sprintf("(a%d %s)", i, s))
		ns = append(ns, fmt.Sprintf("a%d", i))
	}
	app := "(" + f + " " + strings.Join(ns, " ") + ")"
	if w := x.wfTerm(newState(), res, app); w != "true" {
		x.H(newState(), "A")
		x.c.axiom("purewf:"+f, fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", strings.Join(bs, " "), w, app))
	}
	if rs == "Slice" {
		// positions in the result are counted from its start
		curPureSlices[f] = true
		x.c.axiom("pureoff:"+f, fmt.Sprintf("(forall (%s) (! (= (s.off %s) 0) :pattern (%s)))", strings.Join(bs, " "), app, app))
	}
	return term(res, rs, "("+f+" "+strings.Join(as, " ")+")")
}

func (w *World) specFn(pkg, name string) *SpecFn {
	for _, s := range w.specs {
		if s.Pkg != pkg {
			continue
		}
		for _, f := range s.Fns {
			if f.Name == name {
				return f
			}
		}
	}
	return nil
}

func (w *World) lfp(pkg, name string) *Lfp {
	for _, s := range w.specs {
		if s.Pkg != pkg {
			continue
		}
		for _, f := range s.Lfps {
			if f.Name == name {
				return f
			}
		}
	}
	return nil
}

func (e *Ev) specCall(sf *SpecFn, args []*Expr) Val {
	x := e.x
	if len(args) != len(sf.Params) {
		specErr("%s takes %d arguments", sf.Name, len(sf.Params))
	}
	if sf.Body != nil {
		x.macroDepth++
		if x.macroDepth > 60 {
			specErr("recursive definition %s", sf.Name)
		}
		defer func() { x.macroDepth-- }()
		n := *e
		n.vars = map[string]Val{}
		for i, p := range sf.Params {
			v := e.eval(args[i])
			t := x.w.resolveType(e.pkg, p.Type)
			if v.Kind == KTerm && v.Set == nil {
				if v.S == "" && v.Elems != nil {
					n.vars[p.Name] = v
					continue
				}
				v = term(t, x.c.sortOf(t), e.conv(v, t))
			}
			n.vars[p.Name] = v
		}
		v := n.eval(sf.Body)
		rt := x.w.resolveType(e.pkg, sf.Result)
		if v.Kind == KTerm && isNilVal(v) {
			return term(rt, x.c.sortOf(rt), x.c.zero(rt))
		}
		v.T = rt
		return v
	}
	f := q("spec:" + sf.Name)
	var ss, as []string
	for i, p := range sf.Params {
		t := x.w.resolveType(e.pkg, p.Type)
		ss = append(ss, x.c.sortOf(t))
		as = append(as, e.conv(e.eval(args[i]), t))
	}
	rt := x.w.resolveType(e.pkg, sf.Result)
	rs := x.c.sortOf(rt)
	if len(as) == 0 {
		x.c.decl("fun:"+f, fmt.Sprintf("(declare-const %s %s)", f, rs))
		return term(rt, rs, f)
	}
	x.c.declFun(f, ss, rs)
	return term(rt, rs, "("+f+" "+strings.Join(as, " ")+")")
}

// inductTerm marks a set as one to apply the minimality of fixpoints to.
func (x *Exec) inductTerm(es, set string) string {
	f := q("induct:" + es)
	x.c.declFun(f, []string{"(Array " + es + " Bool)"}, "Bool")
	x.c.axiom("induct:"+es, fmt.Sprintf("(forall ((S (Array %s Bool))) (! (%s S) :pattern ((%s S))))", es, f, f))
	return "(" + f + " " + set + ")"
}

// lfpCall applies a least-fixpoint predicate, declaring its axioms on first
// use.  The defining expressions are read in the unit's entry heap.
func (e *Ev) lfpCall(l *Lfp, args []*Expr) Val {
	x := e.x
	f := q("lfp:" + l.Name)
	all := append(append([]TVar(nil), l.Index...), l.Elem)
	var ss, as []string
	for i, p := range all {
		t := x.w.resolveType(e.pkg, p.Type)
		ss = append(ss, x.c.sortOf(t))
		as = append(as, e.conv(e.eval(args[i]), t))
	}
	x.c.declFun(f, ss, "Bool")
	app := "(" + f + " " + strings.Join(as, " ") + ")"
	if x.lfpOn[l.Name] {
		return boolVal(app)
	}
	x.lfpOn[l.Name] = true
	vars := map[string]Val{}
	// global unit parameters may be mentioned
	for k, v := range x.vars {
		vars[k] = v
	}
	base := &Ev{x: x, pkg: e.pkg, st: x.st0, old: x.st0, vars: vars, cbs: x.cbs, depth: 50}
	var ib, in []string
	for _, p := range l.Index {
		t := x.w.resolveType(e.pkg, p.Type)
		n := "ix." + p.Name
		vars[p.Name] = term(t, x.c.sortOf(t), n)
		ib = append(ib, "("+n+" "+x.c.sortOf(t)+")")
		in = append(in, n)
	}
	et := x.w.resolveType(e.pkg, l.Elem.Type)
	es := x.c.sortOf(et)
	mk := func(v string) string { return "(" + strings.Join(append(append([]string{f}, in...), v), " ") + ")" }
	// source: forall idx, elem. src => R
	b1 := base.bind(l.Elem.Name, term(et, es, "el"))
	src := b1.boolT(l.Src)
	qv := strings.Join(append(append([]string(nil), ib...), "(el "+es+")"), " ")
	x.c.axiom("lfp-src:"+l.Name, fmt.Sprintf("(forall (%s) (! (=> %s %s) :pattern (%s)))", qv, src, mk("el"), mk("el")))
	// a second pattern for introducing R from a source fact
	// step: forall idx, vars. R(from) && guard => R(to)
	step := func(names []string) (from, to, guard string) {
		b := base
		for i, v := range l.StepV {
			t := x.w.resolveType(e.pkg, v.Type)
			b = b.bind(v.Name, term(t, x.c.sortOf(t), names[i]))
		}
		ft := b.eval(l.From)
		tt := b.eval(l.To)
		return b.termOf(ft), b.termOf(tt), b.boolT(l.Guard)
	}
	var sb, sn []string
	for _, v := range l.StepV {
		t := x.w.resolveType(e.pkg, v.Type)
		sb = append(sb, "(st."+v.Name+" "+x.c.sortOf(t)+")")
		sn = append(sn, "st."+v.Name)
	}
	from, to, guard := step(sn)
	pt := patTerms(to)
	if len(pt) == 0 {
		pt = []string{mk(to)}
	}
	pat := "(" + mk(from) + " " + strings.Join(pt, " ") + ")"
	x.c.axiom("lfp-step:"+l.Name, fmt.Sprintf("(forall (%s) (! (=> (and %s %s) %s) :pattern %s))", strings.Join(append(append([]string(nil), ib...), sb...), " "), mk(from), guard, mk(to), pat))
	if l.Trans {
		if _, ok := under(et).(*types.Pointer); ok {
			// the objects allocated on entry, as a set minimality applies to
			x.c.declFun("alloc0", nil, "(Array Int Bool)")
			x.c.axiom("alloc0", fmt.Sprintf("(forall ((el Int)) (! (= (select alloc0 el) (< el %s)) :pattern ((select alloc0 el))))", x.A0))
			x.c.axiom("alloc0:"+l.Name, fmt.Sprintf("(forall (%s (el Int)) (! (= (select alloc0 el) (< el %s)) :pattern (%s)))", strings.Join(ib, " "), x.A0, mk("el")))
		}
		x.c.axiom("lfp-trans:"+l.Name, fmt.Sprintf("(forall ((a %s) (b %s) (c %s)) (! (=> (and (%s a b) (%s b c)) (%s a c)) :pattern ((%s a b) (%s b c))))", es, es, es, f, f, f, f, f))
	}
	ixs := []string{}
	for _, p := range l.Index {
		ixs = append(ixs, x.c.sortOf(x.w.resolveType(e.pkg, p.Type)))
	}
	if l.Some {
		// nothing is in the fixpoint unless there is a source
		w := q("lfpw-some:" + l.Name)
		x.c.declFun(w, ixs, es)
		wapp := w
		if len(in) > 0 {
			wapp = "(" + w + " " + strings.Join(in, " ") + ")"
		}
		x.c.axiom("lfp-some:"+l.Name, fmt.Sprintf("(forall (%s) (! (=> %s %s) :pattern (%s)))", qv, mk("el"), base.bind(l.Elem.Name, term(et, es, wapp)).boolT(l.Src), mk("el")))
	}
	// minimality
	S := "(Array " + es + " Bool)"
	wsrc := q("lfpw-src:" + l.Name)
	x.c.declFun(wsrc, append(append([]string(nil), ixs...), S), es)
	wapp := "(" + strings.Join(append(append([]string{wsrc}, in...), "S"), " ") + ")"
	src2 := base.bind(l.Elem.Name, term(et, es, wapp)).boolT(l.Src)
	var wn []string
	for i, v := range l.StepV {
		w := q(fmt.Sprintf("lfpw-%s:%s", v.Name, l.Name))
		t := x.w.resolveType(e.pkg, v.Type)
		x.c.declFun(w, append(append([]string(nil), ixs...), S), x.c.sortOf(t))
		wn = append(wn, "("+strings.Join(append(append([]string{w}, in...), "S"), " ")+")")
		_ = i
	}
	wf, wt, wg := step(wn)
	qv = strings.Join(append(append([]string(nil), ib...), "(S "+S+")", "(el "+es+")"), " ")
	selS := "(select S el)"
	if l.Marked {
		selS = x.inductTerm(es, "S")
	}
	if l.Co {
		x.c.axiom("lfp-min:"+l.Name, fmt.Sprintf("(forall (%s) (! (=> (and %s (select S el)) (or (and %s (select S %s)) (and %s (not (select S %s)) %s (select S %s)))) :pattern (%s %s)))",
			qv, mk("el"), src2, wapp, mk(wf), wf, wg, wt, mk("el"), selS))
		return boolVal(app)
	}
	x.c.axiom("lfp-min:"+l.Name, fmt.Sprintf("(forall (%s) (! (=> (and %s (not (select S el))) (or (and %s (not (select S %s))) (and %s (select S %s) %s (not (select S %s))))) :pattern (%s %s)))",
		qv, mk("el"), src2, wapp, mk(wf), wf, wg, wt, mk("el"), selS))
	return boolVal(app)
}
