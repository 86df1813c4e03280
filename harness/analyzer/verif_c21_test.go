package analyzer_test

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	"golang.org/x/tools/go/packages"
)

type vBuild struct {
	goos, goarch string
	tags         map[string]bool
}

func (b vBuild) tag(t string) bool { return b.tags[t] || t == b.goos || t == b.goarch }

// Files and when they are part of the build.
var constrained = []struct {
	name, line string
	in         func(b vBuild) bool
}{
	{"base.go", "", func(b vBuild) bool { return true }},
	{"t1.go", "ta", func(b vBuild) bool { return b.tag("ta") }},
	{"t2.go", "!ta", func(b vBuild) bool { return !b.tag("ta") }},
	{"t3.go", "ta && tb", func(b vBuild) bool { return b.tag("ta") && b.tag("tb") }},
	{"t4.go", "tb || windows", func(b vBuild) bool { return b.tag("tb") || b.tag("windows") }},
	{"t5.go", "tc", func(b vBuild) bool { return b.tag("tc") }},
	{"t6.go", "linux && amd64", func(b vBuild) bool { return b.tag("linux") && b.tag("amd64") }},
	{"t7.go", "!linux", func(b vBuild) bool { return !b.tag("linux") }},
	{"x_linux.go", "", func(b vBuild) bool { return b.goos == "linux" }},
	{"x_windows.go", "", func(b vBuild) bool { return b.goos == "windows" }},
	{"x_darwin_arm64.go", "", func(b vBuild) bool { return b.goos == "darwin" && b.goarch == "arm64" }},
	{"x_arm64.go", "", func(b vBuild) bool { return b.goarch == "arm64" }},
	{"x_amd64.go", "ta", func(b vBuild) bool { return b.goarch == "amd64" && b.tag("ta") }},
}

// Bounded runtime check of C21.
func TestVerifC21(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 2121))
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "build")
	src := map[string]string{"go.mod": "module m.x\n\ngo 1.22\n"}
	names := []string{"p0", "p1", "p1/q", "p2"}
	imports := map[string][]string{"p0": {"p1/q"}, "p1": {"p2"}, "p1/q": {"p2"}}
	for _, p := range names {
		for i, f := range constrained {
			s := ""
			if f.line != "" {
				s = "//go:build " + f.line + "\n\n"
			}
			s += "package q\n\n"
			if i == 0 {
				for _, d := range imports[p] {
					s += fmt.Sprintf("import _ %q\n", "m.x/"+d)
				}
				s += "import _ \"unicode/utf8\"\n"
			}
			s += fmt.Sprintf("func F%d() {}\n", i)
			src[p+"/"+f.name] = s
		}
	}
	for name, text := range src {
		f := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(f), 0o755)
		if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	wd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(wd)
	oses, arches := []string{"", "linux", "windows", "darwin"}, []string{"", "amd64", "arm64"}
	patterns := []struct {
		list []string
		want []string
	}{
		{[]string{"./..."}, names},
		{[]string{"./p1"}, []string{"p1"}},
		{[]string{"./p1/..."}, []string{"p1", "p1/q"}},
		{[]string{"m.x/p0", "./p2"}, []string{"p0", "p2"}},
		{[]string{"./p0", "m.x/p0"}, []string{"p0"}},
		{[]string{"m.x/p1/..."}, []string{"p1", "p1/q"}},
	}
	for k := 0; k < verifN(40, 300); k++ {
		b := vBuild{goos: runtime.GOOS, goarch: runtime.GOARCH, tags: map[string]bool{}}
		env := map[string]string{"GOOS": oses[r.Intn(4)], "GOARCH": arches[r.Intn(3)], "GOFLAGS": ""}
		if r.Intn(2) == 0 {
			env["GOOS"], env["GOARCH"] = "", ""
		}
		envTag := ""
		if r.Intn(4) == 0 {
			envTag = []string{"ta", "tc"}[r.Intn(2)]
			env["GOFLAGS"] = "-tags=" + envTag
		}
		for n, v := range env {
			if v == "" {
				old, had := os.LookupEnv(n)
				os.Unsetenv(n)
				if had {
					t.Cleanup(func() { os.Setenv(n, old) })
				}
			} else {
				t.Setenv(n, v)
			}
		}
		if env["GOOS"] != "" {
			b.goos = env["GOOS"]
		}
		if env["GOARCH"] != "" {
			b.goarch = env["GOARCH"]
		}
		cfg := analyzer.LoadConfig{GOOS: oses[r.Intn(4)], GOARCH: arches[r.Intn(3)]}
		var tags []string
		for _, x := range []string{"ta", "tb", "tc", "td"} {
			if r.Intn(3) == 0 {
				tags = append(tags, x)
			}
		}
		r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		cfg.BuildTags = strings.Join(tags, ",")
		if cfg.GOOS != "" {
			b.goos = cfg.GOOS
		}
		if cfg.GOARCH != "" {
			b.goarch = cfg.GOARCH
		}
		if len(tags) == 0 && envTag != "" {
			tags = []string{envTag}
		}
		for _, x := range tags {
			b.tags[x] = true
		}
		pat := patterns[r.Intn(len(patterns))]
		fail := func(format string, args ...any) {
			verifFail(t, "LoadPackages(%q, %+v) with environment %v: %s", pat.list, cfg, env, fmt.Sprintf(format, args...))
		}
		pkgs, err := analyzer.LoadPackages(pat.list, cfg)
		if err != nil {
			fail("error %v", err)
		}
		var got []string
		for _, p := range pkgs {
			got = append(got, strings.TrimPrefix(p.PkgPath, "m.x/"))
		}
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(pat.want) {
			fail("packages %v, want %v", got, pat.want)
		}
		queried := analyzer.GetQueriedPackages(pkgs)
		if len(queried) != len(pkgs) {
			fail("%d queried packages, want %d", len(queried), len(pkgs))
		}
		for _, p := range pkgs {
			if _, ok := queried[p.Types]; !ok {
				fail("package %s is not queried", p.PkgPath)
			}
		}
		closure := map[string]bool{}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			closure[p.PkgPath] = true
			if len(p.Errors) > 0 {
				fail("package %s: %v", p.PkgPath, p.Errors)
			}
			if p.Types == nil || !p.Types.Complete() || p.TypesInfo == nil || len(p.Syntax) != len(p.CompiledGoFiles) || len(p.Syntax) == 0 {
				fail("package %s is loaded without types or syntax", p.PkgPath)
			}
			if !strings.HasPrefix(p.PkgPath, "m.x/") {
				return
			}
			var got, want, ign, wantIgn []string
			for _, f := range p.GoFiles {
				got = append(got, filepath.Base(f))
			}
			for _, f := range p.IgnoredFiles {
				ign = append(ign, filepath.Base(f))
			}
			for _, f := range constrained {
				if f.in(b) {
					want = append(want, f.name)
				} else {
					wantIgn = append(wantIgn, f.name)
				}
			}
			for _, l := range [][]string{got, want, ign, wantIgn} {
				sort.Strings(l)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fail("package %s consists of %v, want %v", p.PkgPath, got, want)
			}
			if fmt.Sprint(ign) != fmt.Sprint(wantIgn) {
				fail("package %s ignores %v, want %v", p.PkgPath, ign, wantIgn)
			}
		})
		for _, p := range pat.want {
			for _, d := range imports[p] {
				if !closure["m.x/"+d] {
					fail("dependency %s is not loaded", d)
				}
			}
		}
		verifCases++
	}
	// A request that cannot be met.
	if pkgs, err := analyzer.LoadPackages([]string{"./p0"}, analyzer.LoadConfig{GOOS: "nosuchos"}); err == nil {
		bad := false
		packages.Visit(pkgs, nil, func(p *packages.Package) { bad = bad || len(p.Errors) > 0 })
		if !bad {
			verifFail(t, "LoadPackages with GOOS=nosuchos reports no error")
		}
	}
	verifCases++
}
