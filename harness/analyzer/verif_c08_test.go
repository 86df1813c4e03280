package analyzer_test

import (
	"math/rand"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
)

// namesakes calls functions of the same name one after the other.
var namesakes = map[string]string{
	"p0/a.go": "package p0\n\ntype T int\n\nfunc (T) M() { k() }\n\ntype U int\n\nfunc (U) M() { k() }\n\nfunc (*U) N() { k() }\n\nfunc k() {}\n\nfunc M() { k() }\n\nfunc G[X any](x X) { k() }\n\nfunc A() {\n\tT(0).M()\n\tU(0).M()\n\tM()\n\tG(1)\n\tG(\"\")\n}\n",
	"p1/a.go": "package p1\n\nimport \"m.x/p0\"\n\nfunc M() { p0.M() }\n\nfunc A() {\n\tM()\n\tp0.M()\n\tp0.A()\n\tp0.T(0).M()\n\tp0.U(0).M()\n}\n",
}

// Bounded runtime check of C08.
func TestVerifC08(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 808))
	progs := vPrograms(t, r, verifN(24, 60))
	for k := 0; k < 6; k++ {
		progs = append(progs, loadProg(t, namesakes))
	}
	progs = append(progs, loadProg(t, extraProgram))
	for i, p := range progs {
		for k := 0; k < verifN(40, 80); k++ {
			m, q := p.randomModel(r)
			cfg := &analyzer.Config{Classifier: m.c, DisableBuiltin: r.Intn(2) == 0}
			if i == len(progs)-1 && !cfg.DisableBuiltin {
				m.extra = extraOf(p.g)
			}
			type part struct {
				nodes map[string]int
				edges map[string]int
				caps  map[string]int
			}
			parts := map[cpb.Capability]*part{}
			var cur *part
			start := func(c cpb.Capability) {
				cur = &part{map[string]int{}, map[string]int{}, map[string]int{}}
				parts[c] = cur
			}
			var filter func(cpb.Capability) bool
			keep := map[cpb.Capability]bool{}
			if r.Intn(2) == 0 {
				for _, c := range m.caps() {
					keep[c] = r.Intn(2) == 0
				}
				asked := map[cpb.Capability]int{}
				filter = func(c cpb.Capability) bool {
					if asked[c]++; asked[c] > 1 {
						verifFail(t, "filter asked twice about %v; %s", c, p.describe(m))
					}
					if keep[c] {
						start(c)
					} else {
						cur = nil
					}
					return keep[c]
				}
			} else {
				start(0)
			}
			check := func() {
				if cur == nil {
					verifFail(t, "output for a capability that was not selected; %s", p.describe(m))
				}
			}
			analyzer.CapabilityGraph(p.pkgs, q, cfg,
				nil,
				func(e *callgraph.Edge) {
					check()
					cur.edges[e.Caller.Func.String()+" -> "+e.Callee.Func.String()]++
					if !m.c.IncludeCall(e) {
						verifFail(t, "ignored call from %s to %s output; %s", e.Caller.Func, e.Callee.Func, p.describe(m))
					}
				},
				func(n *callgraph.Node, c cpb.Capability) {
					check()
					cur.caps[n.Func.String()+" "+c.String()]++
				}, filter)
			for c, got := range parts {
				cs := []cpb.Capability{c}
				if filter == nil {
					cs = m.caps()
				}
				nodes, edges := m.between(cs...)
				wantE := map[string]int{}
				for e := range edges {
					wantE[e] = got.edges[e]
					if wantE[e] == 0 {
						wantE[e] = 1
					}
				}
				if d := diffCounts(got.edges, wantE); d != "" {
					verifFail(t, "calls: %s; filter %v; %s", d, cs, p.describe(m))
				}
				wantC := map[string]int{}
				for n := range nodes {
					for _, c := range cs {
						if m.has(n, c) {
							wantC[n.name+" "+c.String()]++
						}
					}
				}
				if d := diffCounts(got.caps, wantC); d != "" {
					verifFail(t, "capability edges: %s; filter %v; %s", d, cs, p.describe(m))
				}
			}
			if filter != nil {
				for _, c := range m.caps() {
					nodes, _ := m.between(c)
					if keep[c] && parts[c] == nil && len(nodes) > 0 {
						verifFail(t, "no graph for selected %v; %s", c, p.describe(m))
					}
				}
			}
			verifCases++
		}
	}
}
