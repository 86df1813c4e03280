package analyzer_test

import (
	"math/rand"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

// functionOrder is the order of C18, on the oracle's nodes.
func functionOrder(a, b *vNode) int {
	recv := func(n *vNode) int {
		if n.fn.Signature != nil && n.fn.Signature.Recv() != nil {
			return 1
		}
		return 0
	}
	switch {
	case a.path < b.path:
		return -1
	case a.path > b.path:
		return 1
	case recv(a) != recv(b):
		return recv(a) - recv(b)
	case a.name < b.name:
		return -1
	case a.name > b.name:
		return 1
	}
	return 0
}

// Bounded runtime check of C10.
func TestVerifC10(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 1010))
	for _, p := range vPrograms(t, r, verifN(6, 20)) {
		for k := 0; k < verifN(40, 80); k++ {
			m, q := p.randomModel(r)
			cfg := func(g analyzer.Granularity, omit bool) *analyzer.Config {
				return &analyzer.Config{Classifier: m.c, DisableBuiltin: true, Granularity: g, OmitPaths: omit}
			}
			fl := analyzer.GetCapabilityInfo(p.pkgs, q, cfg(analyzer.GranularityFunction, false)).CapabilityInfo
			for i := 1; i < len(fl); i++ {
				a, b := fl[i-1], fl[i]
				if a.GetCapability() > b.GetCapability() || a.GetCapability() == b.GetCapability() &&
					functionOrder(m.g.byName[a.Path[0].GetName()][0], m.g.byName[b.Path[0].GetName()][0]) > 0 {
					verifFail(t, "entries out of order: %v before %v; %s", a, b, p.describe(m))
				}
			}
			il := analyzer.GetCapabilityInfo(p.pkgs, q, cfg(analyzer.GranularityIntermediate, k%2 == 0)).CapabilityInfo
			for i := 1; i < len(il); i++ {
				a, b := il[i-1], il[i]
				if a.GetCapability() > b.GetCapability() || a.GetCapability() == b.GetCapability() && a.GetPackageDir() >= b.GetPackageDir() {
					verifFail(t, "intermediate entries out of order: %v before %v; %s", a, b, p.describe(m))
				}
			}
			type key struct {
				c cpb.Capability
				p string
			}
			var want []*cpb.CapabilityInfo
			seen := map[key]bool{}
			for _, ci := range fl {
				if k := (key{ci.GetCapability(), ci.GetPackageDir()}); !seen[k] {
					seen[k] = true
					want = append(want, ci)
				}
			}
			for _, omit := range []bool{false, true} {
				pl := analyzer.GetCapabilityInfo(p.pkgs, q, cfg(analyzer.GranularityPackage, omit)).CapabilityInfo
				if len(pl) != len(want) {
					verifFail(t, "%d entries at package granularity, expected %d; %s", len(pl), len(want), p.describe(m))
				}
				for i := range pl {
					// Which of several chains is reported may differ from one
					// analysis to the next; the function it starts at may not.
					x, w := pl[i], want[i]
					if x.GetCapability() != w.GetCapability() || x.GetPackageDir() != w.GetPackageDir() || x.GetPackageName() != w.GetPackageName() ||
						omit && (len(x.Path) > 0 || x.DepPath != nil) || !omit && (len(x.Path) == 0 || x.Path[0].GetName() != w.Path[0].GetName()) {
						verifFail(t, "package entry %v, expected one like %v (paths omitted: %v); %s", x, w, omit, p.describe(m))
					}
				}
			}
			verifCases++
		}
	}
}
