package analyzer_test

import (
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

// Bounded runtime check of C09.
func TestVerifC09(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 909))
	for _, p := range vPrograms(t, r, verifN(24, 60)) {
		for k := 0; k < verifN(40, 80); k++ {
			m, q := p.randomModel(r)
			cfg := &analyzer.Config{Classifier: m.c, DisableBuiltin: true, Granularity: analyzer.GranularityIntermediate, OmitPaths: r.Intn(3) == 0}
			keep := func(cpb.Capability) bool { return true }
			if r.Intn(2) == 0 {
				list := []string{}
				for _, c := range vCaps {
					if r.Intn(2) == 0 {
						list = append(list, strings.TrimPrefix(c.String(), "CAPABILITY_"))
					}
				}
				cs, err := analyzer.NewCapabilitySet(strings.Join(list, ","))
				if err != nil {
					verifFail(t, "capability list %v rejected: %v", list, err)
				}
				cfg.CapabilitySet = cs
				keep = func(c cpb.Capability) bool {
					for _, l := range list {
						if "CAPABILITY_"+l == c.String() {
							return true
						}
					}
					return len(list) == 0
				}
			}
			want := map[string]int{}
			for _, c := range m.caps() {
				if !keep(c) {
					continue
				}
				nodes, _ := m.between(c)
				for n := range nodes {
					if n.path != "" {
						want[c.String()+" "+n.path] = 1
					}
				}
			}
			got := map[string]int{}
			var keys []string
			cil := analyzer.GetCapabilityInfo(p.pkgs, q, cfg)
			for _, ci := range cil.CapabilityInfo {
				got[ci.GetCapability().String()+" "+ci.GetPackageDir()]++
				keys = append(keys, string(rune('A'+ci.GetCapability()))+" "+ci.GetPackageDir())
				if cfg.OmitPaths {
					if len(ci.Path) != 0 {
						verifFail(t, "omitted path present in %v; %s", ci, p.describe(m))
					}
					continue
				}
				if d := checkPath(m, ci.Path, ci.GetCapability()); d != "" {
					verifFail(t, "entry %v: %s; %s", ci, d, p.describe(m))
				}
				if n := m.g.byName[ci.Path[0].GetName()][0]; !m.queried(n) {
					verifFail(t, "entry %v starts outside the queried packages; %s", ci, p.describe(m))
				}
				through := false
				for _, f := range ci.Path {
					through = through || m.g.byName[f.GetName()][0].path == ci.GetPackageDir()
					if m.g.byName[f.GetName()][0].path != f.GetPackage() {
						verifFail(t, "%s is said to be of package %q; %s", f.GetName(), f.GetPackage(), p.describe(m))
					}
				}
				if !through {
					verifFail(t, "the path of %v does not pass through its package; %s", ci, p.describe(m))
				}
			}
			if d := diffCounts(got, want); d != "" {
				verifFail(t, "intermediate granularity: %s; %s", d, p.describe(m))
			}
			if !sort.StringsAreSorted(keys) {
				verifFail(t, "entries not ordered by capability and package: %v; %s", keys, p.describe(m))
			}
			verifCases++
		}
	}
}
