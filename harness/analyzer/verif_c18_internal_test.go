package analyzer

import (
	"fmt"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// c18Path is the package path of a function by which it is ordered.
func c18Path(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func c18Func(a, b *ssa.Function) int {
	if a == nil || b == nil {
		switch {
		case a == b:
			return 0
		case b == nil:
			return -1
		}
		return 1
	}
	if c := strings.Compare(c18Path(a), c18Path(b)); c != 0 {
		return c
	}
	ra, rb := a.Signature.Recv() != nil, b.Signature.Recv() != nil
	if ra != rb {
		if rb {
			return -1
		}
		return 1
	}
	return strings.Compare(a.String(), b.String())
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func c18Position(a, b token.Position) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() && !b.IsValid()
	}
	return a.Filename < b.Filename || a.Filename == b.Filename && a.Offset < b.Offset
}

// Bounded runtime check of C18, on the functions and edges of one program.
func TestVerifC18(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	fail := func(format string, args ...any) {
		fmt.Printf("VERIF-FAIL: %s\n", strings.ReplaceAll(fmt.Sprintf(format, args...), "\n", " | "))
		t.FailNow()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 1818))
	rounds := 300000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 3000000
	}
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "c18")
	for name, text := range map[string]string{
		"go.mod":  "module m.x\n\ngo 1.22\n",
		"a/a.go":  "package a\n\nimport \"m.x/b\"\n\nvar V = F() + G[int](1)\n\nfunc F() int { return b.F() }\nfunc G[X any](x X) int { H(x); H(\"\"); H(b.T{}); return 0 }\nfunc H[X any](x X) {}\n\ntype T struct{ b.T }\n\nfunc (T) M() { F(); F(); F() }\nfunc (*T) P() { b.F(); b.F() }\n\ntype Gen[X any] struct{ x X }\n\nfunc (g Gen[X]) M() { H(g.x) }\nfunc (g *Gen[X]) N() { g.M(); F() }\n\nfunc Use(i interface{ M() }) { i.M(); i.M() }\nfunc All() { Use(T{}); Use(b.T{}); Use(&b.T{}); Use(Gen[int]{}); Use(&Gen[string]{}); f := T{}.M; f(); g := (*T).P; g(nil); h := b.T.Q; h(b.T{}); k := T.Q; k(T{}); go F(); defer b.F() }\n",
		"a/a2.go": "package a\n\nvar W = F()\n\nfunc F2() { F(); G(2); G(\"\") }\n",
		"b/b.go":  "package b\n\nfunc F() int { return 1 }\nfunc f() { F(); F() }\n\ntype T struct{}\n\nfunc (T) M() { F() }\nfunc (T) Q() { f() }\nfunc M() {}\nfunc Q() {}\n",
	} {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	pkgs, err := packages.Load(&packages.Config{Mode: PackagesLoadModeNeeded, Dir: dir}, "./...")
	if err != nil || packages.PrintErrors(pkgs) > 0 {
		t.Fatal("program does not load", err)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	cg := vta.CallGraph(ssautil.AllFunctions(prog), nil)
	var nodes []*callgraph.Node
	var edges []*callgraph.Edge
	for _, n := range cg.Nodes {
		nodes = append(nodes, n)
		edges = append(edges, n.Out...)
	}
	sort.Slice(nodes, func(i, j int) bool { return fmt.Sprint(nodes[i].Func) < fmt.Sprint(nodes[j].Func) })
	sort.Slice(edges, func(i, j int) bool {
		return edges[i].String()+edges[i].Description() < edges[j].String()+edges[j].Description()
	})
	nodes = append(nodes, &callgraph.Node{})
	name := func(f *ssa.Function) string {
		if f == nil {
			return "no function"
		}
		return f.String()
	}
	pos := func(e *callgraph.Edge) token.Position {
		if e.Caller.Func == nil {
			return token.Position{}
		}
		return e.Caller.Func.Prog.Fset.Position(e.Pos())
	}
	for _, a := range nodes {
		for _, b := range nodes {
			cases++
			want := c18Func(a.Func, b.Func)
			if got := funcCompare(a.Func, b.Func); sign(got) != want {
				fail("funcCompare(%s, %s) is %d, expected %d", name(a.Func), name(b.Func), got, want)
			}
			if got := (byFunction{a, b}).Less(0, 1); got != (want < 0) {
				fail("byFunction: %s before %s is %v", name(a.Func), name(b.Func), got)
			}
		}
	}
	for _, a := range edges {
		for _, b := range edges {
			cases++
			pa, pb := pos(a), pos(b)
			lt := c18Position(pa, pb)
			for _, k := range []struct {
				what string
				a, b *callgraph.Node
				got  bool
			}{{"byCaller", a.Caller, b.Caller, (byCaller{a, b}).Less(0, 1)}, {"byCallee", a.Callee, b.Callee, (byCallee{a, b}).Less(0, 1)}} {
				c := c18Func(k.a.Func, k.b.Func)
				if want := c < 0 || c == 0 && lt; k.got != want {
					fail("%s: edge %v at %v before edge %v at %v is %v", k.what, a, pa, b, pb, k.got)
				}
			}
		}
	}
	draw := func() token.Position {
		p := token.Position{Filename: []string{"", "a.go", "b.go", "dir/a.go"}[r.Intn(4)], Line: r.Intn(4), Column: r.Intn(3), Offset: r.Intn(4)}
		if r.Intn(30) == 0 {
			p.Line = -1
		}
		return p
	}
	for k := 0; k < rounds; k++ {
		cases++
		a, b, c := draw(), draw(), draw()
		if a.Line >= 0 && b.Line >= 0 {
			if got := positionLess(a, b); got != c18Position(a, b) {
				fail("positionLess(%+v, %+v) is %v", a, b, got)
			}
		}
		ab, ba, bc, cb, ac, ca := positionLess(a, b), positionLess(b, a), positionLess(b, c), positionLess(c, b), positionLess(a, c), positionLess(c, a)
		if ab && ba || ab && bc && !ac || !ab && !ba && !bc && !cb && (ac || ca) {
			fail("positionLess is not a strict weak order on %+v, %+v, %+v", a, b, c)
		}
	}
	// Sorting permutes.
	for k := 0; k < 300; k++ {
		cases++
		r.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		r.Shuffle(len(edges), func(i, j int) { edges[i], edges[j] = edges[j], edges[i] })
		ns := append([]*callgraph.Node(nil), nodes[:r.Intn(len(nodes))]...)
		es := append([]*callgraph.Edge(nil), edges[:r.Intn(len(edges))]...)
		count := map[any]int{}
		for _, n := range ns {
			count[n]++
		}
		for _, e := range es {
			count[e]++
		}
		sort.Sort(byFunction(ns))
		if k%2 == 0 {
			sort.Sort(byCaller(es))
		} else {
			sort.Sort(byCallee(es))
		}
		for i, n := range ns {
			count[n]--
			if i > 0 && c18Func(ns[i-1].Func, n.Func) > 0 {
				fail("sorted by function: %s after %s", name(n.Func), name(ns[i-1].Func))
			}
		}
		for _, e := range es {
			count[e]--
		}
		for x, n := range count {
			if n != 0 {
				fail("sorting changed how often %v occurs by %d", x, -n)
			}
		}
	}
}
