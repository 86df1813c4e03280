package analyzer_test

import (
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

// Bounded runtime check of C01: reported pairs, counts and statistics against
// the naive reachability oracle.
func TestVerifC01(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 101))
	for _, p := range vPrograms(t, r, verifN(4, 20)) {
		for k := 0; k < verifN(25, 80); k++ {
			m, q := p.randomModel(r)
			cfg := &analyzer.Config{Classifier: m.c, DisableBuiltin: true, OmitPaths: r.Intn(2) == 0}
			want := map[string]int{}
			counts := map[string]int64{}
			for _, c := range m.caps() {
				for n := range m.leads(c) {
					if m.queried(n) {
						want[c.String()+" "+n.name]++
						counts[c.String()]++
					}
				}
			}
			cil := analyzer.GetCapabilityInfo(p.pkgs, q, cfg)
			got := map[string]int{}
			for _, ci := range cil.CapabilityInfo {
				got[ci.GetCapability().String()+" "+ci.Path[0].GetName()]++
			}
			if d := diffCounts(got, want); d != "" {
				verifFail(t, "function granularity: %s; %s", d, p.describe(m))
			}
			cl := analyzer.GetCapabilityCounts(p.pkgs, q, cfg)
			if len(cl.CapabilityCounts) != len(counts) {
				verifFail(t, "counts %v, expected %v; %s", cl.CapabilityCounts, counts, p.describe(m))
			}
			for c, n := range counts {
				if cl.CapabilityCounts[c] != n {
					verifFail(t, "count of %s is %d, expected %d; %s", c, cl.CapabilityCounts[c], n, p.describe(m))
				}
			}
			sl := analyzer.GetCapabilityStats(p.pkgs, q, cfg)
			seen := map[string]bool{}
			for _, s := range sl.CapabilityStats {
				c := s.GetCapability().String()
				if seen[c] || s.GetCount() != counts[c] {
					verifFail(t, "statistics state %d for %s, expected %d; %s", s.GetCount(), c, counts[c], p.describe(m))
				}
				seen[c] = true
			}
			if len(seen) != len(counts) {
				verifFail(t, "statistics for %v, expected %v; %s", seen, counts, p.describe(m))
			}
			verifCases++
		}
	}
}

func diffCounts(got, want map[string]int) string {
	var s []string
	for k, n := range got {
		if want[k] != n {
			s = append(s, "reported "+strings.Repeat("+", n)+k)
		}
	}
	for k := range want {
		if got[k] == 0 {
			s = append(s, "not reported "+k)
		}
	}
	sort.Strings(s)
	if len(s) > 5 {
		s = s[:5]
	}
	return strings.Join(s, ", ")
}

var _ = cpb.Capability_CAPABILITY_SAFE
