package analyzer_test

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
)

// Bounded runtime check of C17, on generated modules with vendored
// dependencies: an acyclic import graph with sharing, several packages to a
// module, and files excluded by build constraints.
func TestVerifC17(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 1717))
	for i := 0; i < verifN(6, 30); i++ {
		src := map[string]string{}
		type vpkg struct {
			path    string
			imports []int
			ignored []string
		}
		var ps []vpkg
		version := map[string]string{}
		nmod := 1 + r.Intn(4)
		n := 3 + r.Intn(7)
		for k := 0; k < n; k++ {
			var p vpkg
			dir := ""
			if k >= n-2 || r.Intn(3) == 0 {
				p.path = fmt.Sprintf("m.x/p%d", k)
				dir = fmt.Sprintf("p%d/", k)
			} else {
				m := fmt.Sprintf("v%d.org/m", r.Intn(nmod))
				version[m] = fmt.Sprintf("v1.%d.0", len(m)+r.Intn(9))
				p.path = fmt.Sprintf("%s/q%d", m, k)
				dir = "vendor/" + p.path + "/"
			}
			var imp strings.Builder
			for j := 0; j < k; j++ {
				// Vendored packages can only import vendored packages.
				if strings.HasPrefix(ps[j].path, "m.x/") && !strings.HasPrefix(p.path, "m.x/") {
					continue
				}
				if r.Intn(3) == 0 || k >= n-2 && r.Intn(2) == 0 {
					p.imports = append(p.imports, j)
					fmt.Fprintf(&imp, "import _ %q\n", ps[j].path)
				}
			}
			if r.Intn(3) == 0 {
				imp.WriteString("import _ \"unsafe\"\n")
			}
			src[dir+"a.go"] = fmt.Sprintf("package q\n\n%sfunc F%d(q *int) { *q = 1 }\nfunc Asm()\n", imp.String(), k)
			src[dir+"a.s"] = ""
			for x := r.Intn(3); x > 0; x-- {
				p.ignored = append(p.ignored, fmt.Sprintf("x%d.go", x))
				src[fmt.Sprintf("%sx%d.go", dir, x)] = "//go:build someothertag\n\npackage q\n"
			}
			ps = append(ps, p)
		}
		var mods []string
		for m := range version {
			mods = append(mods, m)
		}
		sort.Strings(mods)
		gomod, txt := "module m.x\n\ngo 1.22\n", ""
		for _, m := range mods {
			gomod += fmt.Sprintf("require %s %s\n", m, version[m])
			txt += fmt.Sprintf("# %s %s\n## explicit; go 1.22\n", m, version[m])
			for _, p := range ps {
				if strings.HasPrefix(p.path, m+"/") {
					txt += p.path + "\n"
				}
			}
		}
		src["go.mod"] = gomod
		flags := os.Getenv("GOFLAGS")
		t.Setenv("GOFLAGS", "")
		if txt != "" {
			t.Setenv("GOFLAGS", "-mod=vendor")
			src["vendor/modules.txt"] = txt
		}
		var roots []int
		var patterns []string
		for k, p := range ps {
			if strings.HasPrefix(p.path, "m.x/") && (k >= n-2 || r.Intn(2) == 0) {
				roots = append(roots, k)
				patterns = append(patterns, "./"+path.Base(p.path))
			}
		}
		p := loadProg(t, src, patterns...)
		t.Setenv("GOFLAGS", flags)
		r.Shuffle(len(p.pkgs), func(i, j int) { p.pkgs[i], p.pkgs[j] = p.pkgs[j], p.pkgs[i] })
		in := map[int]bool{}
		var visit func(k int)
		visit = func(k int) {
			in[k] = true
			for _, j := range ps[k].imports {
				visit(j)
			}
		}
		for _, k := range roots {
			visit(k)
		}
		wantMods := map[string]bool{}
		var wantM, wantP []string
		wantAsm := map[string]int{}
		for k, p := range ps {
			if !in[k] {
				continue
			}
			ign := append([]string{}, p.ignored...)
			sort.Strings(ign)
			wantP = append(wantP, fmt.Sprintf("%s %v", p.path, ign))
			wantAsm[p.path+".Asm"] = 1
			for m := range version {
				if strings.HasPrefix(p.path, m+"/") && !wantMods[m] {
					wantMods[m] = true
					wantM = append(wantM, m+" "+version[m])
				}
			}
		}
		sort.Strings(wantM)
		sort.Slice(wantP, func(i, j int) bool { return strings.Fields(wantP[i])[0] < strings.Fields(wantP[j])[0] })
		q := analyzer.GetQueriedPackages(p.pkgs)
		cil := analyzer.GetCapabilityInfo(p.pkgs, q, &analyzer.Config{Classifier: &vClassifier{}})
		var gotM, gotP []string
		for _, m := range cil.ModuleInfo {
			gotM = append(gotM, m.GetPath()+" "+m.GetVersion())
		}
		for _, x := range cil.PackageInfo {
			ign := append([]string{}, x.IgnoredFiles...)
			sort.Strings(ign)
			gotP = append(gotP, fmt.Sprintf("%s %v", x.GetPath(), ign))
		}
		if fmt.Sprint(gotM) != fmt.Sprint(wantM) {
			verifFail(t, "module list %v, want %v; roots %v of program %v", gotM, wantM, patterns, src)
		}
		if fmt.Sprint(gotP) != fmt.Sprint(wantP) {
			verifFail(t, "package list %v, want %v; roots %v of program %v", gotP, wantP, patterns, src)
		}
		// Capabilities are found in every package, not just the listed ones.
		all := q
		packages.Visit(p.pkgs, nil, func(d *packages.Package) { all[d.Types] = struct{}{} })
		asm := map[string]int{}
		for _, ci := range analyzer.GetCapabilityInfo(p.pkgs, all, &analyzer.Config{Classifier: &vClassifier{}}).CapabilityInfo {
			if ci.GetCapability() == cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION && len(ci.Path) == 1 {
				asm[ci.Path[0].GetName()]++
			}
		}
		for f := range asm {
			if !strings.Contains(f, ".org/") && !strings.Contains(f, "m.x/") {
				delete(asm, f)
			}
		}
		if d := diffCounts(asm, wantAsm); d != "" {
			verifFail(t, "functions without a body: %s; roots %v of program %v", d, patterns, src)
		}
		verifCases++
	}
}
