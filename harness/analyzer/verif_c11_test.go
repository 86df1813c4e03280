package analyzer_test

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

// ambiguous reports whether two functions leading to c have the same name. The
// order of the search is then open, and another analysis of the same program
// may find another chain.
func ambiguous(m *vModel, c cpb.Capability) bool {
	seen := map[string]bool{}
	for n := range m.leads(c) {
		if seen[n.name] {
			return true
		}
		seen[n.name] = true
	}
	return false
}

// dotted moves the packages of a generated program to import paths some of
// which have a dot, though not in the first element, and some of which have
// none.
func dotted(r *rand.Rand, src map[string]string) map[string]string {
	var old []string
	for name := range src {
		old = append(old, filepath.Dir(name))
	}
	sort.Strings(old)
	out := map[string]string{"go.mod": "module m\n\ngo 1.22\n"}
	dirs := map[string]string{}
	var pairs []string
	for _, d := range old {
		dirs[d] = d + []string{"", ".v1", ".x/q", "/q.v2"}[r.Intn(4)]
		pairs = append(pairs, fmt.Sprintf("%q", "m.x/"+d), fmt.Sprintf("%q", "m/"+dirs[d]))
	}
	for name, text := range src {
		out[dirs[filepath.Dir(name)]+"/a.go"] = strings.NewReplacer(pairs...).Replace(text)
	}
	return out
}

// Bounded runtime check of C11. A package belongs to the standard library when
// its path has no dot.
func TestVerifC11(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 1111))
	progs := vPrograms(t, r, verifN(6, 20))
	for i := 0; i < verifN(4, 10); i++ {
		progs = append(progs, loadProg(t, dotted(r, genProgram(r, 2+r.Intn(3), 2+r.Intn(5)))))
	}
	for _, p := range progs {
		for k := 0; k < verifN(40, 80); k++ {
			m, q := p.randomModel(r)
			cfg := &analyzer.Config{Classifier: m.c, DisableBuiltin: true, Granularity: analyzer.GranularityFunction}
			list := analyzer.GetCapabilityInfo(p.pkgs, q, cfg).CapabilityInfo
			cfg.OmitPaths = true
			omitted := analyzer.GetCapabilityInfo(p.pkgs, q, cfg).CapabilityInfo
			if len(omitted) != len(list) {
				verifFail(t, "%d entries with paths, %d without; %s", len(list), len(omitted), p.describe(m))
			}
			type n3 struct{ n, direct, transitive int64 }
			sum := map[cpb.Capability]*n3{}
			open := map[cpb.Capability]bool{}
			for _, c := range m.caps() {
				open[c] = ambiguous(m, c)
			}
			for i, ci := range list {
				direct := true
				for _, f := range ci.Path {
					path := m.g.byName[f.GetName()][0].path
					if path != ci.GetPackageDir() && strings.Contains(path, ".") {
						direct = false
					}
				}
				if omitted[i].GetCapability() != ci.GetCapability() || omitted[i].GetPackageDir() != ci.GetPackageDir() {
					verifFail(t, "entry %v with paths, %v without; %s", ci, omitted[i], p.describe(m))
				}
				for j, e := range []*cpb.CapabilityInfo{ci, omitted[i]} {
					if j == 1 && open[ci.GetCapability()] {
						continue
					}
					if (e.GetCapabilityType() == cpb.CapabilityType_CAPABILITY_TYPE_DIRECT) != direct || (e.GetCapabilityType() == cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE) == direct {
						verifFail(t, "entry %v (path %v) should be direct: %v; %s", e, ci.GetDepPath(), direct, p.describe(m))
					}
				}
				s := sum[ci.GetCapability()]
				if s == nil {
					s = &n3{}
					sum[ci.GetCapability()] = s
				}
				s.n++
				if direct {
					s.direct++
				} else {
					s.transitive++
				}
			}
			for _, omit := range []bool{false, true} {
				cfg.OmitPaths = omit
				stats := analyzer.GetCapabilityStats(p.pkgs, q, cfg).CapabilityStats
				if len(stats) != len(sum) {
					verifFail(t, "statistics for %d capabilities, expected %d; %s", len(stats), len(sum), p.describe(m))
				}
				for i, s := range stats {
					if i > 0 && stats[i-1].GetCapability() >= s.GetCapability() {
						verifFail(t, "statistics not ordered by capability: %v; %s", stats, p.describe(m))
					}
					w := sum[s.GetCapability()]
					if w == nil || s.GetCount() != w.n || s.GetDirectCount()+s.GetTransitiveCount() != w.n || !open[s.GetCapability()] && s.GetDirectCount() != w.direct {
						verifFail(t, "statistics %v, expected %+v; %s", s, w, p.describe(m))
					}
					if !omit {
						if d := checkPath(m, s.ExampleCallpath, s.GetCapability()); d != "" {
							verifFail(t, "example path of %v: %s; %s", s, d, p.describe(m))
						}
					}
				}
				counts := analyzer.GetCapabilityCounts(p.pkgs, q, cfg).CapabilityCounts
				if len(counts) != len(sum) {
					verifFail(t, "counts %v; %s", counts, p.describe(m))
				}
				for c, w := range sum {
					if counts[c.String()] != w.n {
						verifFail(t, "counts %v, expected %d for %v; %s", counts, w.n, c, p.describe(m))
					}
				}
			}
			verifCases++
		}
	}
}
