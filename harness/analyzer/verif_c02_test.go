package analyzer_test

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

func siteKey(s *cpb.Function_Site) string {
	if s == nil {
		return "-"
	}
	return fmt.Sprintf("%s:%d:%d", s.GetFilename(), s.GetLine(), s.GetColumn())
}

// checkPath checks that path is a chain of included calls ending at a function
// with capability c.
func checkPath(m *vModel, path []*cpb.Function, c cpb.Capability) string {
	if len(path) == 0 {
		return "the path is empty"
	}
	var cur []*vNode // the nodes the chain may have reached
	for i, f := range path {
		var next []*vNode
		for _, n := range m.g.byName[f.GetName()] {
			if m.safe(n) || i+1 < len(path) && m.explicit(n) {
				continue
			}
			ok := i == 0 && f.Site == nil
			for _, p := range cur {
				for _, e := range p.out {
					if e.to == n && m.c.included(e) && posKey(e.pos) == siteKey(f.Site) {
						ok = true
					}
				}
			}
			if ok && (i+1 < len(path) || m.has(n, c)) {
				next = append(next, n)
			}
		}
		if len(next) == 0 {
			return fmt.Sprintf("element %d, %s called at %s, is not a function an included call of the previous element can reach, or is safe, or is classified but not last, or is last without having the capability", i, f.GetName(), siteKey(f.Site))
		}
		cur = next
	}
	return ""
}

// Bounded runtime check of C02.
func TestVerifC02(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 202))
	for _, p := range vPrograms(t, r, verifN(6, 20)) {
		for k := 0; k < verifN(40, 80); k++ {
			m, q := p.randomModel(r)
			cfg := &analyzer.Config{Classifier: m.c, DisableBuiltin: true}
			if r.Intn(3) == 0 {
				cfg.Granularity = analyzer.GranularityPackage
			}
			cil := analyzer.GetCapabilityInfo(p.pkgs, q, cfg)
			for _, ci := range cil.CapabilityInfo {
				if d := checkPath(m, ci.Path, ci.GetCapability()); d != "" {
					verifFail(t, "entry %v: %s; %s", ci, d, p.describe(m))
				}
				n := m.g.byName[ci.Path[0].GetName()][0]
				if !m.queried(n) || n.pkg != ci.GetPackageDir() {
					verifFail(t, "entry %v starts at %s of package %q; %s", ci, n.name, n.pkg, p.describe(m))
				}
				dep := ""
				for i, f := range ci.Path {
					if i > 0 {
						dep += " "
					}
					dep += f.GetName()
				}
				if ci.GetDepPath() != dep {
					verifFail(t, "entry %v: dependency path %q does not spell the path; %s", ci, ci.GetDepPath(), p.describe(m))
				}
				verifCases++
			}
			full := cil
			cfg.OmitPaths = true
			cil = analyzer.GetCapabilityInfo(p.pkgs, q, cfg)
			if len(cil.CapabilityInfo) != len(full.CapabilityInfo) {
				verifFail(t, "%d entries without paths, %d with; %s", len(cil.CapabilityInfo), len(full.CapabilityInfo), p.describe(m))
			}
			for i, ci := range cil.CapabilityInfo {
				if cfg.Granularity == analyzer.GranularityPackage {
					if len(ci.Path) != 0 {
						verifFail(t, "omitted path present in %v; %s", ci, p.describe(m))
					}
				} else if len(ci.Path) != 1 || ci.Path[0].GetName() != full.CapabilityInfo[i].Path[0].GetName() || ci.Path[0].Site != nil {
					verifFail(t, "entry without path %v; %s", ci, p.describe(m))
				}
			}
		}
	}
}
