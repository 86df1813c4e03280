package analyzer

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"golang.org/x/tools/go/packages"
)

// Bounded runtime check of C17 on hand-built import graphs, including cyclic
// ones and different modules with one path.
func TestVerifC17Internal(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 17))
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	n := 3000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 60000
	}
	for ; n > 0; n-- {
		mods := make([]*packages.Module, 1+r.Intn(4))
		for i := range mods {
			m := &packages.Module{Path: fmt.Sprintf("mod%d", r.Intn(3)), Version: fmt.Sprintf("v%d", i)}
			switch r.Intn(6) {
			case 0:
				m.Path = ""
			case 1:
				m.Version = ""
			}
			mods[i] = m
		}
		ps := make([]*packages.Package, 1+r.Intn(6))
		for i := range ps {
			p := &packages.Package{ID: fmt.Sprint(i), PkgPath: fmt.Sprintf("x.y/p%d", r.Intn(10)*10+i), Imports: map[string]*packages.Package{}}
			if r.Intn(5) == 0 {
				p.PkgPath = []string{"fmt", "os", "net/http"}[r.Intn(3)]
			}
			if r.Intn(4) != 0 {
				p.Module = mods[r.Intn(len(mods))]
			}
			for k := r.Intn(3); k > 0; k-- {
				p.IgnoredFiles = append(p.IgnoredFiles, fmt.Sprintf("/d/e%d/f%d.go", i, k))
			}
			ps[i] = p
		}
		for i, p := range ps {
			for k := r.Intn(4); k > 0; k-- {
				j := r.Intn(len(ps))
				if i != j {
					p.Imports[fmt.Sprintf("%d.%d", j, r.Intn(2))] = ps[j]
				}
			}
		}
		var roots []*packages.Package
		for k := r.Intn(4); k > 0; k-- {
			roots = append(roots, ps[r.Intn(len(ps))])
		}
		want := map[*packages.Package]bool{}
		for _, p := range roots {
			want[p] = true
		}
		for grew := true; grew; {
			grew = false
			for p := range want {
				for _, q := range p.Imports {
					if !want[q] {
						want[q], grew = true, true
					}
				}
			}
		}
		describe := func() string {
			var s []string
			for _, p := range ps {
				var imp []string
				for _, q := range p.Imports {
					imp = append(imp, q.ID)
				}
				sort.Strings(imp)
				m := "no module"
				if p.Module != nil {
					m = fmt.Sprintf("module %q %q", p.Module.Path, p.Module.Version)
				}
				s = append(s, fmt.Sprintf("package %s (%s, %s, ignored %v) imports %v", p.ID, p.PkgPath, m, p.IgnoredFiles, imp))
			}
			var rs []string
			for _, p := range roots {
				rs = append(rs, p.ID)
			}
			return strings.Join(s, "; ") + "; listed " + fmt.Sprint(rs)
		}
		fail := func(format string, args ...any) {
			fmt.Printf("VERIF-FAIL: %s; %s\n", fmt.Sprintf(format, args...), describe())
			t.FailNow()
		}
		count := map[*packages.Package]int{}
		forEachPackageIncludingDependencies(roots, func(p *packages.Package) { count[p]++ })
		for _, p := range ps {
			w := 0
			if want[p] {
				w = 1
			}
			if count[p] != w {
				fail("package %s processed %d times, want %d", p.ID, count[p], w)
			}
		}
		versions := map[string]map[string]bool{}
		var wantP []string
		for p := range want {
			if m := p.Module; m != nil && m.Path != "" && m.Version != "" {
				if versions[m.Path] == nil {
					versions[m.Path] = map[string]bool{}
				}
				versions[m.Path][m.Version] = true
			}
			if strings.HasPrefix(p.PkgPath, "x.y/") {
				var ign []string
				for _, f := range p.IgnoredFiles {
					ign = append(ign, f[strings.LastIndex(f, "/")+1:])
				}
				sort.Strings(ign)
				wantP = append(wantP, fmt.Sprintf("%s %v", p.PkgPath, ign))
			}
		}
		var gotM, wantM []string
		for m := range versions {
			wantM = append(wantM, m)
		}
		sort.Strings(wantM)
		for _, m := range collectModuleInfo(roots) {
			gotM = append(gotM, m.GetPath())
			if v := versions[m.GetPath()]; v != nil && !v[m.GetVersion()] {
				fail("module %s listed with version %q", m.GetPath(), m.GetVersion())
			}
		}
		if fmt.Sprint(gotM) != fmt.Sprint(wantM) {
			fail("module list %v, want %v", gotM, wantM)
		}
		var gotP, gotPaths []string
		for _, x := range collectPackageInfo(roots) {
			ign := append([]string(nil), x.IgnoredFiles...)
			sort.Strings(ign)
			gotP = append(gotP, fmt.Sprintf("%s %v", x.GetPath(), ign))
			gotPaths = append(gotPaths, x.GetPath())
		}
		if !sort.StringsAreSorted(gotPaths) {
			fail("package list not in order: %v", gotPaths)
		}
		sort.Strings(gotP)
		sort.Strings(wantP)
		if fmt.Sprint(gotP) != fmt.Sprint(wantP) {
			fail("package list %v, want %v", gotP, wantP)
		}
		cases++
	}
}
