package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// closedImpls lists the concrete types a value of an interface type can have,
// when the interface has an unexported method of a package of the module: only
// types declared in that package can implement it.
func (w *World) closedImpls(t types.Type) ([]types.Type, bool) {
	u, ok := under(t).(*types.Interface)
	if !ok {
		return nil, false
	}
	var pkg *types.Package
	for i := 0; i < u.NumMethods(); i++ {
		if m := u.Method(i); !m.Exported() {
			pkg = m.Pkg()
		}
	}
	if pkg == nil || w.pkgs[pkg.Path()] == nil || !strings.HasPrefix(pkg.Path(), modPath) {
		return nil, false
	}
	var out []types.Type
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		for _, ct := range []types.Type{nt, types.NewPointer(nt)} {
			if types.Implements(ct, u) {
				out = append(out, ct)
			}
		}
	}
	return out, len(out) > 0
}

// dispatch calls the method of each type the receiver can have.
func (x *Exec) dispatch(fr *Frame, st **State, m *types.Func, impls []types.Type, recv Val, args []Val, sig *types.Signature, name string, pos token.Pos) Val {
	rt := x.asTerm(recv)
	g0 := fr.guard
	var gs []string
	var sts []*State
	var rs []Val
	for k, ct := range impls {
		fn := x.w.prog.LookupMethod(ct, m.Pkg(), m.Name())
		if fn == nil {
			unsup("no method %s of %v", m.Name(), ct)
		}
		n := fmt.Sprintf("%s.dyn%d", name, k)
		s := (*st).clone()
		fr.guard = x.c.define(n+".is", "Bool", and(g0, eq("(i.tag "+rt+")", x.c.tagOf(ct))))
		r := term(ct, x.c.sortOf(ct), x.c.define(n+".recv", x.c.sortOf(ct), x.c.unbox(ct, "(i.val "+rt+")")))
		v := x.callFn(fr, &s, fn, nil, append([]Val{r}, args...), n, pos)
		gs, sts, rs = append(gs, fr.guard), append(sts, s), append(rs, v)
	}
	x.noteAssumption("a nil interface value on which a method is called panics")
	fr.guard = x.c.define(name+".any", "Bool", or(gs...))
	out := x.mergeStates(gs, sts, name+".dyn")
	var vs []Val
	for k := 0; k < sig.Results().Len(); k++ {
		var rv []Val
		for _, r := range rs {
			if r.Kind == KTuple {
				r = r.Elems[k]
			}
			rv = append(rv, r)
		}
		vs = append(vs, x.mergeVals(fr, out, gs, rv, sig.Results().At(k).Type(), fmt.Sprintf("%s.dres%d", name, k)))
	}
	*st = out
	return pack(sig.Results(), vs)
}

// initialGlobal states the value a package-level variable gets from its
// initialiser, extracted from the package's init function, after checking that
// nothing in the module assigns the variable or what it refers to afterwards.
func (x *Exec) initialGlobal(pkg, name string) {
	p := x.w.pkgs[pkg]
	if p == nil {
		specErr("no package %s", pkg)
	}
	sp := x.w.prog.Package(p.Types)
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		specErr("no variable %s in %s", name, pkg)
	}
	var value ssa.Value
	init := sp.Func("init")
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Addr == g {
				if value != nil {
					unsup("variable %s is initialised twice", name)
				}
				value = s.Val
			}
		}
	}
	if value == nil {
		unsup("variable %s has no initialiser", name)
	}
	structs, elems := map[string]bool{}, map[string]bool{}
	var refs []string
	ref := func() string {
		n := q(fmt.Sprintf("init:%s!%d", name, len(refs)))
		x.c.decl("sym:"+n, fmt.Sprintf("(declare-const %s Int)", n))
		x.c.assume("true", and("(>= "+n+" 1000)", "(< "+n+" "+x.A0+")"))
		for _, r := range refs {
			x.c.assume("true", not(eq(r, n)))
		}
		refs = append(refs, n)
		return n
	}
	var build func(v ssa.Value) string
	build = func(v ssa.Value) string {
		switch v := v.(type) {
		case *ssa.Const:
			return x.constVal(v).S
		case *ssa.MakeInterface:
			t := v.X.Type()
			return "(mk-iface " + x.c.tagOf(t) + " " + x.c.box(t, build(v.X)) + ")"
		case *ssa.ChangeType:
			return build(v.X)
		case *ssa.Slice:
			al, ok := v.X.(*ssa.Alloc)
			if !ok || v.Low != nil || v.High != nil || v.Max != nil {
				break
			}
			at, ok := under(derefT(al.Type())).(*types.Array)
			if !ok {
				break
			}
			vals := map[int64]ssa.Value{}
			for _, r := range *al.Referrers() {
				switch r := r.(type) {
				case *ssa.IndexAddr:
					c, ok := r.Index.(*ssa.Const)
					if !ok {
						unsup("initialiser of %s", name)
					}
					for _, u := range *r.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == r {
							vals[c.Int64()] = s.Val
						} else {
							unsup("initialiser of %s", name)
						}
					}
				case *ssa.Slice:
					if r != v {
						unsup("initialiser of %s", name)
					}
				default:
					unsup("initialiser of %s", name)
				}
			}
			n := ref()
			elems[tkey(at.Elem())] = true
			for k := int64(0); k < at.Len(); k++ {
				e := x.c.zero(at.Elem())
				if vals[k] != nil {
					e = build(vals[k])
				}
				x.c.assume("true", eq(sel(sel(x.H(x.st0, x.compE(at.Elem())), n), fmt.Sprint(k)), e))
			}
			return fmt.Sprintf("(mk-slice %s 0 %d)", n, at.Len())
		case *ssa.Alloc:
			t := derefT(v.Type())
			u, ok := under(t).(*types.Struct)
			if !ok {
				break
			}
			vals := map[int]ssa.Value{}
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.FieldAddr:
					for _, w := range *r.Referrers() {
						if s, ok := w.(*ssa.Store); ok && s.Addr == r {
							vals[r.Field] = s.Val
						} else {
							unsup("initialiser of %s", name)
						}
					}
				case *ssa.MakeInterface:
				case *ssa.Store:
					if r.Addr == v {
						unsup("initialiser of %s", name)
					}
				default:
					unsup("initialiser of %s", name)
				}
			}
			n := ref()
			structs[tkey(t)] = true
			for k := 0; k < u.NumFields(); k++ {
				e := x.c.zero(u.Field(k).Type())
				if vals[k] != nil {
					e = build(vals[k])
				}
				x.c.assume("true", eq(sel(x.H(x.st0, x.compF(t, k)), n), e))
			}
			return n
		}
		unsup("initialiser of %s is not a literal", name)
		return ""
	}
	t := derefT(g.Type())
	val := build(value)
	x.c.assume("true", eq(sel(x.H(x.st0, x.compC(t)), x.globalRef(g)), val))
	// Nothing else may write it.
	for _, fn := range x.w.fns {
		if fn == init {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op == g {
						if l, ok := i.(*ssa.UnOp); !ok || l.Op != token.MUL {
							unsup("variable %s may be changed by %s", name, fn)
						}
					}
				}
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := s.Addr.(type) {
				case *ssa.FieldAddr:
					if structs[tkey(derefT(a.X.Type()))] {
						unsup("what variable %s refers to may be changed by %s", name, fn)
					}
				case *ssa.IndexAddr:
					if sl, ok := under(a.X.Type()).(*types.Slice); ok && elems[tkey(sl.Elem())] {
						unsup("what variable %s refers to may be changed by %s", name, fn)
					}
				}
			}
		}
	}
	x.noteAssumption("variable " + name + " has the value its initialiser gives it (extracted from the source; no other function of the module assigns it)")
}
