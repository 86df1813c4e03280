package main_test

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
)

// Bounded runtime check of C19: the program is built and run on generated
// modules, with a small capability map.
func TestVerifC19(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 1919))
	scratch := os.Getenv("VERIF_SCRATCH")
	bin := filepath.Join(scratch, "capslock")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatalf("%v\n%s", err, out)
	}
	write := func(dir string, files map[string]string) {
		for name, text := range files {
			p := filepath.Join(dir, name)
			os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
				t.Fatal(err)
			}
		}
	}
	type result struct {
		stdout, stderr string
		code           int
	}
	run := func(dir string, args ...string) result {
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "TMPDIR="+scratch)
		var out, errs strings.Builder
		cmd.Stdout, cmd.Stderr = &out, &errs
		err := cmd.Run()
		res := result{stdout: out.String(), stderr: errs.String()}
		if e, ok := err.(*exec.ExitError); ok {
			res.code = e.ExitCode()
		} else if err != nil {
			t.Fatal(err)
		}
		cases++
		return res
	}
	fail := func(files map[string]string, args []string, res result, format string, a ...any) {
		s := fmt.Sprintf("capslock %q: %s; exit status %d, stdout %q, stderr %q; files %v", args, fmt.Sprintf(format, a...), res.code, res.stdout, res.stderr, files)
		fmt.Printf("VERIF-FAIL: %s\n", strings.ReplaceAll(s, "\n", " | "))
		t.FailNow()
	}
	modes := []string{"", "json", "j", "m", "v", "graph"}
	dir := filepath.Join(scratch, "ok")
	ok := map[string]string{
		"go.mod":       "module m.x\n\ngo 1.22\n",
		"map.cm":       "func m.x/p1.K CAPABILITY_FILES\nfunc m.x/p1.L CAPABILITY_NETWORK\n",
		"bad.cm":       "func m.x/p1.K CAPABILITY_NONE_SUCH\n",
		"p0/a.go":      "package p0\n\nimport \"m.x/p1\"\n\nfunc F() { p1.K() }\n\nfunc H() { p1.L() }\n",
		"p0/a_test.go": "package p0\n\nvar x int = \"not loaded\"\n",
		"p1/a.go":      "package p1\n\nfunc K() {}\n\nfunc L() {}\n",
		"trunc.json":   "{\"capabilityInfo\": [",
		"empty.json":   "",
		"none.json":    "{}",
	}
	write(dir, ok)
	base := []string{"-packages=./p0", "-capability_map=map.cm", "-disable_builtin", "-force_local_module"}
	args := func(extra ...string) []string { return append(append([]string{}, base...), extra...) }
	expect := func(code int, a ...string) {
		res := run(dir, a...)
		if res.code != code {
			fail(ok, a, res, "want exit status %d", code)
		}
		if code == 2 && res.stdout != "" {
			fail(ok, a, res, "want no result on standard output")
		}
		if code == 0 && !strings.Contains(strings.Join(a, " "), "compare") && res.stdout == "" {
			fail(ok, a, res, "want a result on standard output")
		}
		if code == 1 && res.stdout == "" {
			fail(ok, a, res, "want the difference on standard output")
		}
	}
	for _, m := range modes {
		expect(0, args("-output="+m)...)
	}
	for _, g := range []string{"package", "function", "intermediate"} {
		a := args("-output=json", "-granularity="+g)
		res := run(dir, a...)
		if res.code != 0 {
			fail(ok, a, res, "want exit status 0")
		}
		write(dir, map[string]string{"same.json": res.stdout, "less.json": strings.Replace(res.stdout, "CAPABILITY_NETWORK", "CAPABILITY_EXEC", 1)})
		expect(0, args("-output=compare", "-granularity="+g, "same.json")...)
		expect(1, args("-output=compare", "-granularity="+g, "less.json")...)
		expect(1, args("-output=compare", "-granularity="+g, "none.json")...)
	}
	for _, f := range []string{"trunc.json", "empty.json", "missing.json", "p0", "p0/a.go"} {
		expect(2, args("-output=compare", f)...)
	}
	expect(2, args("-output=compare")...)
	expect(2, args("-output=compare", "same.json", "same.json")...)
	expect(2, args("-output=json", "same.json")...)
	expect(2, args("-granularity=file")...)
	expect(2, args("-capabilities=NONE_SUCH")...)
	expect(2, args("-capabilities=FILES,-EXEC")...)
	expect(2, args("-capability_map=missing.cm")...)
	expect(2, args("-capability_map=bad.cm")...)
	expect(2, args("-cpuprofile=missing/cpu")...)
	expect(0, args("-memprofile=mem", "-cpuprofile=cpu")...)
	expect(1, args("-memprofile=mem", "-output=compare", "none.json")...)
	expect(2, "-packages=./p0", "-disable_builtin", "-force_local_module")
	expect(2, args("-packages=./nosuch")...)
	expect(2, args("-packages=./nosuch/...")...)
	expect(2, args("-packages=./p0,./nosuch")...)
	expect(2, args("-packages=m.x/p0,n.org/x")...)
	expect(2, "-packages=n.org/nosuch", "-capability_map=map.cm", "-disable_builtin")
	expect(2, args("-goos=nosuchos")...)
	// Errors in one package of a module: an error exactly if the package is in
	// the import closure of the requested ones.
	flaws := []string{
		"func Bad() int { return \"x\" }\n",
		"func Bad() { x := 1 }\n",
		"func Bad() { nosuch() }\n",
		"func Bad( {\n",
		"}\n",
		"func Bad() {}\nfunc Bad() {}\n",
		strings.Repeat("var _ int = \"a rather long text to make the list of errors long\"\n", 60),
		"func Bad() { p9.F() }\n",
		"var _ = Bad\n",
		"type Bad struct { Bad }\n",
		"const Bad uint8 = 300\n",
	}
	n := 10
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 100
	}
	for ; n > 0; n-- {
		dir := filepath.Join(scratch, fmt.Sprintf("m%d", n))
		np := 2 + r.Intn(4)
		bad := r.Intn(np)
		files := map[string]string{"go.mod": "module m.x\n\ngo 1.22\n", "map.cm": "func m.x/p0.F CAPABILITY_FILES\n"}
		reach := make([]map[int]bool, np)
		for k := 0; k < np; k++ {
			imp, body := "", ""
			reach[k] = map[int]bool{k: true}
			for j := 0; j < k; j++ {
				if r.Intn(2) == 0 || j == k-1 && r.Intn(3) != 0 {
					imp += fmt.Sprintf("import \"m.x/p%d\"\n", j)
					body += fmt.Sprintf(" p%d.F();", j)
					for x := range reach[j] {
						reach[k][x] = true
					}
				}
			}
			text := fmt.Sprintf("package p%d\n\n%s\nfunc F() {%s }\n", k, imp, body)
			if k == bad {
				text += flaws[r.Intn(len(flaws))]
			}
			files[fmt.Sprintf("p%d/a.go", k)] = text
		}
		write(dir, files)
		for q := 0; q < np; q++ {
			list := fmt.Sprintf("./p%d", q)
			want := 0
			if reach[q][bad] {
				want = 2
			}
			if r.Intn(3) == 0 {
				q2 := r.Intn(np)
				list += fmt.Sprintf(",./p%d", q2)
				if reach[q2][bad] {
					want = 2
				}
			}
			a := []string{"-packages=" + list, "-capability_map=map.cm", "-disable_builtin", "-output=" + modes[r.Intn(len(modes))]}
			if r.Intn(2) == 0 {
				a = append(a, "-force_local_module")
			}
			res := run(dir, a...)
			if res.code != want {
				fail(files, a, res, "want exit status %d", want)
			}
			if want == 2 && res.stdout != "" {
				fail(files, a, res, "want no result on standard output")
			}
		}
	}
}
