package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program plus the contract files.
type World struct {
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*packages.Package
	fns     map[string]*ssa.Function     // by String()
	imports map[string]map[string]string // pkg path -> alias -> import path
	specs   []*SpecFile
	byFn    map[string]*Contract
	specOf  map[*Contract]*SpecFile
	pure    map[string]bool
	noeff   map[string]bool
	inline  map[string]bool
	inlined map[string]bool // contracts dropped for this attempt: inline instead
	loadErr []string
	rwcache map[string]map[string]bool
	globIdx map[string]int
	ghostF  map[string]types.Type
	// error types of the module, once computed
	errTypes []*types.Named
}

const modPath = "github.com/google/capslock"

func loadWorld(repo string, patterns []string) (*World, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Fset: fset,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	w := &World{fset: fset, pkgs: map[string]*packages.Package{}, fns: map[string]*ssa.Function{}, imports: map[string]map[string]string{},
		byFn: map[string]*Contract{}, specOf: map[*Contract]*SpecFile{}, pure: map[string]bool{}, noeff: map[string]bool{}, inline: map[string]bool{},
		inlined: map[string]bool{}, rwcache: map[string]map[string]bool{}, globIdx: map[string]int{}, ghostF: map[string]types.Type{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		w.pkgs[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				w.loadErr = append(w.loadErr, e.Error())
			}
		}
	})
	if p := w.pkgs[modPath+"/analyzer"]; p == nil || len(p.Syntax) == 0 {
		return nil, fmt.Errorf("the packages of %s could not be loaded from %s", modPath, repo)
	}
	if len(w.loadErr) > 0 {
		return nil, fmt.Errorf("load errors: %v", w.loadErr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	if prog.Package(w.pkgs[modPath+"/analyzer"].Types) == nil {
		return nil, fmt.Errorf("the packages %s depends on could not be loaded", modPath)
	}
	// Only bodies of this module (and generated getters) are needed.
	for path, p := range w.pkgs {
		if strings.HasPrefix(path, modPath) {
			if sp := prog.Package(p.Types); sp != nil {
				sp.Build()
			}
			w.imports[path] = map[string]string{}
			for _, f := range p.Syntax {
				for _, im := range f.Imports {
					ip, _ := strconv.Unquote(im.Path.Value)
					name := ""
					if im.Name != nil {
						name = im.Name.Name
					} else if q := p.Imports[ip]; q != nil {
						name = q.Name
					}
					w.imports[path][name] = ip
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			w.fns[fn.String()] = fn
		}
	}
	// AllFunctions needs reachable functions only; add all members and methods.
	for path, p := range w.pkgs {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		var addFn func(f *ssa.Function)
		addFn = func(f *ssa.Function) {
			if f == nil {
				return
			}
			w.fns[f.String()] = f
			for _, a := range f.AnonFuncs {
				addFn(a)
			}
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				addFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := ms.At(i).Obj().(*types.Func); f.Pkg() == p.Types {
							addFn(prog.FuncValue(f))
						}
					}
				}
			}
		}
	}
	return w, nil
}

// qualName turns a name as written in a contract file ("forEachPath",
// "(*Classifier).IncludeCall", "strings.HasSuffix", "(*ssa.Function).Package")
// into the fully qualified name.
func (w *World) qualName(pkg, n string) string {
	if strings.HasPrefix(n, "(") {
		i := strings.Index(n, ")")
		recv, m := n[1:i], n[i+1:]
		star := ""
		if strings.HasPrefix(recv, "*") {
			star, recv = "*", recv[1:]
		}
		return "(" + star + w.qualTypeName(pkg, recv) + ")" + m
	}
	if i := strings.LastIndex(n, "."); i >= 0 {
		if ip, ok := w.imports[pkg][n[:i]]; ok {
			return ip + n[i:]
		}
		return n
	}
	return pkg + "." + n
}

func (w *World) qualTypeName(pkg, n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		if ip, ok := w.imports[pkg][n[:i]]; ok {
			return ip + n[i:]
		}
		return n
	}
	if n == "error" {
		return n
	}
	return pkg + "." + n
}

func (w *World) loadSpecs(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.gcv"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		sf := parseSpecFile(f)
		w.specs = append(w.specs, sf)
		for _, c := range sf.Contracts {
			name := c.Fn
			if !c.Lemma {
				name = w.qualName(sf.Pkg, c.Fn)
			}
			c.Fn = name
			if o := w.byFn[name]; o != nil {
				return fmt.Errorf("two contracts for %s", name)
			}
			w.byFn[name] = c
			w.specOf[c] = sf
			if c.Pure {
				w.pure[name] = true
			}
		}
		for _, g := range sf.GhostFields {
			w.ghostF[tkey(w.resolveType(sf.Pkg, g.Type))+"."+g.Name] = w.resolveType(sf.Pkg, g.Res)
		}
		for _, p := range sf.Pures {
			w.pure[w.qualName(sf.Pkg, p)] = true
		}
		for _, p := range sf.NoEffect {
			w.noeff[w.qualName(sf.Pkg, p)] = true
		}
		for _, p := range sf.Inlines {
			w.inline[w.qualName(sf.Pkg, p)] = true
		}
	}
	w.findTraces()
	w.errorTypes()
	return nil
}

// resolveType resolves a Go type expression in the scope of package pkg.
func (w *World) resolveType(pkg, s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(w.resolveType(pkg, s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(w.resolveType(pkg, s[2:]))
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		n, _ := strconv.Atoi(s[1:i])
		return types.NewArray(w.resolveType(pkg, s[i+1:]), int64(n))
	case strings.HasPrefix(s, "map["):
		depth, i := 0, 3
		for ; i < len(s); i++ {
			if s[i] == '[' {
				depth++
			}
			if s[i] == ']' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		return types.NewMap(w.resolveType(pkg, s[4:i]), w.resolveType(pkg, s[i+1:]))
	case s == "struct{}":
		return types.NewStruct(nil, nil)
	case s == "any":
		return types.NewInterfaceType(nil, nil)
	}
	if i := strings.Index(s, "."); i >= 0 {
		ip := w.imports[pkg][s[:i]]
		if ip == "" && w.pkgs[s[:i]] == nil {
			// a package only other packages of the module import
			ip = w.imports[modPath+"/analyzer"][s[:i]]
		}
		if ip == "" {
			ip = s[:i]
		}
		p := w.pkgs[ip]
		if p == nil {
			panic(fmt.Sprintf("contract: unknown package %q in type %s", ip, s))
		}
		o := p.Types.Scope().Lookup(s[i+1:])
		if o == nil {
			panic(fmt.Sprintf("contract: unknown type %s", s))
		}
		return o.Type()
	}
	if p := w.pkgs[pkg]; p != nil {
		if o, ok := p.Types.Scope().Lookup(s).(*types.TypeName); ok {
			return o.Type()
		}
		// function-local types
		var found types.Type
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if ts, ok := n.(*ast.TypeSpec); ok && ts.Name.Name == s {
					if o := p.TypesInfo.Defs[ts.Name]; o != nil {
						found = o.Type()
					}
				}
				return true
			})
		}
		if found != nil {
			return found
		}
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	panic(fmt.Sprintf("contract: unknown type %s in %s", s, pkg))
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}
