package analyzer_test

import (
	"math/rand"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

// A program in which builtin analysis finds capabilities, written so that what
// each function gets is known.
var extraProgram = map[string]string{
	"p0/a.go": `package p0

import "unsafe"
import "m.x/p1"

func Conv(p unsafe.Pointer) *int { return (*int)(p) }

func Asm()

func Both() { Conv(nil); Asm(); p1.G[int](nil); p1.Use() }

func Plain() { Both() }

type T struct{}

func (T) M() { Conv(nil) }
`,
	"p0/a.s": "",
	"p1/a.go": `package p1

import "unsafe"

func G[X any](p unsafe.Pointer) *X { return (*X)(p) }

func Asm()

func Use() { Asm(); func(p unsafe.Pointer) { _ = (*byte)(p) }(nil) }
`,
	"p1/a.s": "",
}

func extraOf(g *vGraph) map[string]map[cpb.Capability]bool {
	u, a := cpb.Capability_CAPABILITY_UNSAFE_POINTER, cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION
	return map[string]map[cpb.Capability]bool{
		"m.x/p0.Conv":   {u: true},
		"m.x/p0.Asm":    {a: true},
		"m.x/p1.Asm":    {a: true},
		"m.x/p1.G":      {u: true},
		"m.x/p1.G[int]": {u: true},
		"m.x/p1.Use$1":  {u: true},
	}
}

// Bounded runtime check of C03.
func TestVerifC03(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 303))
	progs := append(vPrograms(t, r, verifN(4, 12)), loadProg(t, extraProgram))
	for i, p := range progs {
		for k := 0; k < verifN(40, 80); k++ {
			m, q := p.randomModel(r)
			m.c.asked = map[string]bool{}
			cfg := &analyzer.Config{Classifier: m.c, DisableBuiltin: r.Intn(2) == 0}
			if i == len(progs)-1 && !cfg.DisableBuiltin {
				m.extra = extraOf(p.g)
			}
			cil := analyzer.GetCapabilityInfo(p.pkgs, q, cfg)
			for _, n := range p.g.nodes {
				if n.ask && !m.c.asked[n.askPkg+" "+n.askName] {
					verifFail(t, "the classifier was not asked about %q %q; %s", n.askPkg, n.askName, p.describe(m))
				}
			}
			for a := range m.c.asked {
				ok := false
				for _, n := range p.g.nodes {
					ok = ok || n.askPkg+" "+n.askName == a
				}
				if !ok {
					verifFail(t, "the classifier was asked about %q; %s", a, p.describe(m))
				}
			}
			want := map[string]int{}
			for _, c := range m.caps() {
				for n := range m.leads(c) {
					if m.queried(n) {
						want[c.String()+" "+n.name]++
					}
				}
			}
			got := map[string]int{}
			for _, ci := range cil.CapabilityInfo {
				got[ci.GetCapability().String()+" "+ci.Path[0].GetName()]++
			}
			if d := diffCounts(got, want); d != "" {
				verifFail(t, "builtin analysis disabled %v: %s; %s", cfg.DisableBuiltin, d, p.describe(m))
			}
			verifCases++
		}
	}
}
