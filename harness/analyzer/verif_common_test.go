package analyzer_test

// Shared by the bounded runtime checks: generated programs, random
// configurations, and an independent, deliberately naive oracle working on the
// program's call graph by function name.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var verifCases int

func verifDone(t *testing.T) { fmt.Printf("VERIF-CASES %d\n", verifCases) }

func verifFail(t *testing.T, format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	fmt.Printf("VERIF-FAIL: %s\n", strings.ReplaceAll(s, "\n", " | "))
	t.FailNow()
}

func verifSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func verifN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return quick
}

// ---- generated programs ----

type vProg struct {
	dir  string
	src  map[string]string
	pkgs []*packages.Package
	g    *vGraph
}

var vProgCount int

// loadProg writes a module named m.x and loads the packages named by patterns.
func loadProg(t *testing.T, src map[string]string, patterns ...string) *vProg {
	vProgCount++
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("prog%d", vProgCount))
	for name, text := range src {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	if _, ok := src["go.mod"]; !ok {
		os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module m.x\n\ngo 1.22\n"), 0o644)
	}
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	p := &vProg{dir: dir, src: src}
	p.pkgs = p.load(t, patterns...)
	p.g = newVGraph(p.load(t, patterns...))
	return p
}

func (p *vProg) load(t *testing.T, patterns ...string) []*packages.Package {
	pkgs, err := packages.Load(&packages.Config{Mode: analyzer.PackagesLoadModeNeeded, Dir: p.dir}, patterns...)
	if err != nil {
		t.Fatal(err)
	}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			t.Fatalf("generated program does not load: %v", e)
		}
	})
	return pkgs
}

// ---- the oracle's view of a program ----

type vNode struct {
	name    string // full name
	pkg     string // package path; empty when the function belongs to none
	path    string // package path, that of the origin for instantiations
	askPkg  string // what the classifier must be asked about
	askName string
	ask     bool
	fn      *ssa.Function
	out     []*vEdge
	in      []*vEdge
}

type vEdge struct {
	from, to *vNode
	pos      token.Position
}

type vGraph struct {
	nodes  []*vNode // ordered by name; several nodes can share one
	byName map[string][]*vNode
}

func newVGraph(pkgs []*packages.Package) *vGraph {
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	cg := vta.CallGraph(ssautil.AllFunctions(prog), nil)
	g := &vGraph{byName: map[string][]*vNode{}}
	byNode := map[*callgraph.Node]*vNode{}
	for f, n := range cg.Nodes {
		if f == nil {
			continue
		}
		v := &vNode{name: f.String(), fn: f}
		if f.Package() != nil && f.Package().Pkg != nil {
			v.pkg = f.Package().Pkg.Path()
			v.askPkg, v.askName, v.ask = v.pkg, v.name, true
		} else if o := f.Origin(); o != nil && o.Package() != nil && o.Package().Pkg != nil {
			v.askPkg, v.askName, v.ask = o.Package().Pkg.Path(), o.String(), true
		}
		v.path = v.askPkg
		if v.path == "" && f.Object() != nil && f.Object().Pkg() != nil {
			v.path = f.Object().Pkg().Path()
		}
		g.byName[v.name] = append(g.byName[v.name], v)
		g.nodes = append(g.nodes, v)
		byNode[n] = v
	}
	for _, n := range cg.Nodes {
		for _, e := range n.Out {
			a, b := byNode[e.Caller], byNode[e.Callee]
			if a == nil || b == nil {
				continue
			}
			ve := &vEdge{from: a, to: b, pos: prog.Fset.Position(e.Pos())}
			a.out = append(a.out, ve)
			b.in = append(b.in, ve)
		}
	}
	sort.Slice(g.nodes, func(i, j int) bool { return g.nodes[i].name < g.nodes[j].name })
	for _, v := range g.nodes {
		sort.Slice(v.out, func(i, j int) bool {
			a, b := v.out[i], v.out[j]
			return edgeKey(a.from.name, a.to.name, a.pos) < edgeKey(b.from.name, b.to.name, b.pos)
		})
	}
	return g
}

// ---- classifiers ----

type vClassifier struct {
	cat     map[string]cpb.Capability // by "pkg name"
	exclude map[string]bool           // by edgeKey
	asked   map[string]bool
}

func posKey(p token.Position) string {
	if !p.IsValid() {
		return "-"
	}
	return fmt.Sprintf("%s:%d:%d", filepath.Base(p.Filename), p.Line, p.Column)
}

func edgeKey(from, to string, pos token.Position) string {
	return from + " -> " + to + " @" + posKey(pos)
}

func (c *vClassifier) FunctionCategory(pkg, name string) cpb.Capability {
	if c.asked != nil {
		c.asked[pkg+" "+name] = true
	}
	return c.cat[pkg+" "+name]
}

func (c *vClassifier) IncludeCall(e *callgraph.Edge) bool {
	if e.Caller.Func == nil || e.Callee.Func == nil {
		return true
	}
	return !c.exclude[edgeKey(e.Caller.Func.String(), e.Callee.Func.String(), e.Caller.Func.Prog.Fset.Position(e.Pos()))]
}

func (c *vClassifier) category(n *vNode) cpb.Capability {
	if !n.ask {
		return cpb.Capability_CAPABILITY_UNSPECIFIED
	}
	return c.cat[n.askPkg+" "+n.askName]
}

func (c *vClassifier) included(e *vEdge) bool {
	return !c.exclude[edgeKey(e.from.name, e.to.name, e.pos)]
}

func (c *vClassifier) String() string {
	var s []string
	for k, v := range c.cat {
		if v != cpb.Capability_CAPABILITY_UNSPECIFIED {
			s = append(s, k[strings.Index(k, " ")+1:]+"="+v.String())
		}
	}
	for k := range c.exclude {
		s = append(s, "ignore "+k)
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// vModel is one program with one classification.
type vModel struct {
	g     *vGraph
	c     *vClassifier
	extra map[string]map[cpb.Capability]bool // by node name; nil when builtin analysis is disabled
	query map[string]bool                    // package paths
}

func (m *vModel) safe(n *vNode) bool {
	return m.c.category(n) == cpb.Capability_CAPABILITY_SAFE
}

func (m *vModel) explicit(n *vNode) bool {
	c := m.c.category(n)
	return c != cpb.Capability_CAPABILITY_SAFE && c != cpb.Capability_CAPABILITY_UNSPECIFIED
}

// has reports whether n itself has capability c.
func (m *vModel) has(n *vNode, c cpb.Capability) bool {
	if m.safe(n) {
		return false
	}
	if m.explicit(n) {
		return m.c.category(n) == c
	}
	return m.extra[n.name][c]
}

func (m *vModel) caps() []cpb.Capability {
	set := map[cpb.Capability]bool{}
	for _, n := range m.g.nodes {
		if m.explicit(n) {
			set[m.c.category(n)] = true
		}
		for c := range m.extra[n.name] {
			if m.has(n, c) {
				set[c] = true
			}
		}
	}
	var out []cpb.Capability
	for c := range set {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// leads computes the functions with a chain to one having capability c.
func (m *vModel) leads(cs ...cpb.Capability) map[*vNode]bool {
	r := map[*vNode]bool{}
	for _, n := range m.g.nodes {
		for _, c := range cs {
			if m.has(n, c) {
				r[n] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, n := range m.g.nodes {
			if r[n] || m.safe(n) || m.explicit(n) {
				continue
			}
			for _, e := range n.out {
				if m.c.included(e) && r[e.to] {
					r[n] = true
					changed = true
				}
			}
		}
	}
	return r
}

func (m *vModel) queried(n *vNode) bool { return n.pkg != "" && m.query[n.pkg] }

// between computes the functions on chains from queried functions to c.
func (m *vModel) between(cs ...cpb.Capability) (nodes map[*vNode]bool, edges map[string]bool) {
	lead := m.leads(cs...)
	nodes, edges = map[*vNode]bool{}, map[string]bool{}
	for n := range lead {
		if m.queried(n) {
			nodes[n] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for n := range nodes {
			if m.explicit(n) {
				continue
			}
			for _, e := range n.out {
				if m.c.included(e) && lead[e.to] {
					edges[n.name+" -> "+e.to.name] = true
					if !nodes[e.to] {
						nodes[e.to] = true
						changed = true
					}
				}
			}
		}
	}
	return
}

func stdPath(p string) bool {
	return p == "unsafe" || p == "runtime" || p == "reflect" || p == "sort" || p == "sync" || strings.HasPrefix(p, "container/") || strings.HasPrefix(p, "unicode") || strings.HasPrefix(p, "internal/") || strings.HasPrefix(p, "math")
}

func (p *vProg) queriedPackages(r *rand.Rand) (map[*types.Package]struct{}, map[string]bool) {
	q := map[*types.Package]struct{}{}
	names := map[string]bool{}
	for _, k := range p.pkgs {
		if r == nil || r.Intn(3) > 0 {
			q[k.Types] = struct{}{}
			names[k.PkgPath] = true
		}
	}
	return q, names
}

var vCaps = []cpb.Capability{cpb.Capability_CAPABILITY_FILES, cpb.Capability_CAPABILITY_NETWORK, cpb.Capability_CAPABILITY_UNANALYZED, cpb.Capability_CAPABILITY_EXEC}

// randomModel draws a classification, excluded calls and queried packages.
func (p *vProg) randomModel(r *rand.Rand) (*vModel, map[*types.Package]struct{}) {
	c := &vClassifier{cat: map[string]cpb.Capability{}, exclude: map[string]bool{}}
	m := &vModel{g: p.g, c: c}
	pc, ps, px := 1+r.Intn(20), r.Intn(15), r.Intn(20)
	for _, v := range p.g.nodes {
		if v.ask {
			k := v.askPkg + " " + v.askName
			if _, ok := c.cat[k]; !ok {
				x := r.Intn(100)
				switch {
				case x < pc:
					c.cat[k] = vCaps[r.Intn(len(vCaps))]
				case x < pc+ps:
					c.cat[k] = cpb.Capability_CAPABILITY_SAFE
				default:
					c.cat[k] = cpb.Capability_CAPABILITY_UNSPECIFIED
				}
			}
		}
		for _, e := range v.out {
			if r.Intn(100) < px {
				c.exclude[edgeKey(e.from.name, e.to.name, e.pos)] = true
			}
		}
	}
	q, qn := p.queriedPackages(r)
	m.query = qn
	return m, q
}

// genProgram writes a program of k packages with random calls of many forms.
func genProgram(r *rand.Rand, k, nf int) map[string]string {
	src := map[string]string{}
	type target struct {
		pkg  int
		call string // with %s for the qualifier
	}
	var targets []target
	for i := 0; i < k; i++ {
		for f := 0; f < nf; f++ {
			switch r.Intn(5) {
			case 0:
				targets = append(targets, target{i, fmt.Sprintf("%%sG%d[int]()", f)}, target{i, fmt.Sprintf("%%sG%d[string]()", f)})
			case 1:
				targets = append(targets, target{i, fmt.Sprintf("%%sT{}.M%d()", f)})
			case 2:
				targets = append(targets, target{i, fmt.Sprintf("(&%%sT{}).P%d()", f)})
			default:
				targets = append(targets, target{i, fmt.Sprintf("%%sF%d()", f)})
			}
		}
	}
	for i := 0; i < k; i++ {
		used := map[int]bool{}
		ring := false
		stmt := func() string {
			for try := 0; ; try++ {
				t := targets[r.Intn(len(targets))]
				if t.pkg < i {
					if try > 20 {
						return ""
					}
					continue
				}
				q := ""
				switch r.Intn(11) {
				case 5:
					return "\tI(T{}).M0()\n"
				case 6:
					return "\tfunc(f func()) { f() }(T{}.M0)\n"
				case 7:
					return "\tfunc(f func(T)) { f(T{}) }(T.M0)\n"
				}
				if t.pkg != i {
					q = fmt.Sprintf("p%d.", t.pkg)
					used[t.pkg] = true
				}
				c := fmt.Sprintf(t.call, q)
				switch r.Intn(7) {
				case 0:
					return "\tfunc() { " + c + " }()\n"
				case 1:
					return "\tdefer " + c + "\n"
				case 2:
					return "\tgo " + c + "\n"
				case 3:
					ring = true
					return "\tring.New(1).Do(func(any) { " + c + " })\n"
				case 4:
					return "\t" + c + "\n\t" + c + "\n"
				default:
					return "\t" + c + "\n"
				}
			}
		}
		body := func() string {
			s := ""
			for n := r.Intn(4); n > 0; n-- {
				s += stmt()
			}
			return s
		}
		var b strings.Builder
		b.WriteString("type T struct{}\n\ntype U struct{}\n\ntype I interface{ M0() }\n\nvar _ I = U{}\n\n")
		done := map[string]bool{"M0": true}
		fmt.Fprintf(&b, "func (T) M0() {\n%s}\n\nfunc (U) M0() {\n%s}\n\n", body(), body())
		for f := 0; f < nf; f++ {
			for _, t := range targets {
				if t.pkg != i {
					continue
				}
				switch t.call {
				case fmt.Sprintf("%%sG%d[int]()", f):
					fmt.Fprintf(&b, "func G%d[X any]() {\n%s}\n\n", f, body())
				case fmt.Sprintf("%%sT{}.M%d()", f):
					if n := fmt.Sprintf("M%d", f); !done[n] {
						done[n] = true
						fmt.Fprintf(&b, "func (T) M%d() {\n%s}\n\n", f, body())
					}
				case fmt.Sprintf("(&%%sT{}).P%d()", f):
					fmt.Fprintf(&b, "func (*T) P%d() {\n%s}\n\n", f, body())
				case fmt.Sprintf("%%sF%d()", f):
					fmt.Fprintf(&b, "func F%d() {\n%s}\n\n", f, body())
				}
			}
		}
		if r.Intn(2) == 0 {
			fmt.Fprintf(&b, "var V = func() int {\n%s\treturn 0\n}()\n\n", body())
		}
		if r.Intn(2) == 0 {
			fmt.Fprintf(&b, "func init() {\n%s}\n", body())
		}
		head := fmt.Sprintf("package p%d\n\n", i)
		if ring {
			head += "import \"container/ring\"\n"
		}
		for j := 0; j < k; j++ {
			if used[j] {
				head += fmt.Sprintf("import \"m.x/p%d\"\n", j)
			}
		}
		src[fmt.Sprintf("p%d/a.go", i)] = head + "\n" + b.String()
	}
	return src
}

// vPrograms returns generated programs, each loaded once.
func vPrograms(t *testing.T, r *rand.Rand, n int) []*vProg {
	var out []*vProg
	for i := 0; i < n; i++ {
		out = append(out, loadProg(t, genProgram(r, 2+r.Intn(3), 2+r.Intn(5))))
	}
	return out
}

func (p *vProg) describe(m *vModel) string {
	var s []string
	for _, k := range p.pkgs {
		if m.query[k.PkgPath] {
			s = append(s, k.PkgPath)
		}
	}
	var files []string
	for f, t := range p.src {
		files = append(files, f+": "+t)
	}
	sort.Strings(files)
	return fmt.Sprintf("queried %v; classification %s; program %s", s, m.c, strings.Join(files, " "))
}
