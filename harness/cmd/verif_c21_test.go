package main_test

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// Bounded runtime check of C21: the program is built and run with generated
// settings on a module with one function for each of them.
func TestVerifC21Command(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 2121))
	scratch := os.Getenv("VERIF_SCRATCH")
	bin := filepath.Join(scratch, "capslock21")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatalf("%v\n%s", err, out)
	}
	dir := filepath.Join(scratch, "c21")
	files := map[string]string{"go.mod": "module m.x\n\ngo 1.21\n", "map.cm": "func m.x/q.K CAPABILITY_FILES\n", "q/q.go": "package q\n\nfunc K() {}\n", "p/base.go": "package p\n", "r/base.go": "package r\n"}
	constraints := []string{"ta", "tb", "linux", "windows", "darwin", "amd64", "arm64", "386"}
	for _, c := range constraints {
		for _, p := range []string{"p", "r"} {
			files[p+"/c"+c+".go"] = "//go:build " + c + "\n\npackage " + p + "\n\nimport \"m.x/q\"\n\nfunc F" + c + "() { q.K() }\n"
		}
	}
	for name, text := range files {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	n := 8
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 60
	}
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	for k := 0; k < n; k++ {
		tags, goos, goarch := pick("", "ta", "tb", "ta,tb"), pick("", "linux", "windows", "darwin"), pick("", "amd64", "arm64", "386")
		if goos == "darwin" && goarch == "386" {
			goarch = ""
		}
		patterns := pick("./p", "./r", "./p,./r")
		args := []string{"-packages=" + patterns, "-capability_map=map.cm", "-disable_builtin", "-force_local_module", "-output=json", "-granularity=function"}
		for f, v := range map[string]string{"buildtags": tags, "goos": goos, "goarch": goarch} {
			if v != "" {
				args = append(args, "-"+f+"="+v)
			}
		}
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		env := []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "TMPDIR=" + scratch}
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "GOOS=") && !strings.HasPrefix(e, "GOARCH=") {
				env = append(env, e)
			}
		}
		cmd.Env = env
		var errs strings.Builder
		cmd.Stderr = &errs
		out, err := cmd.Output()
		cases++
		has := map[string]bool{}
		for _, t := range strings.Split(tags, ",") {
			has[t] = true
		}
		if goos == "" {
			goos = runtime.GOOS
		}
		if goarch == "" {
			goarch = runtime.GOARCH
		}
		has[goos], has[goarch] = true, true
		var bad []string
		for _, c := range constraints {
			for _, p := range []string{"p", "r"} {
				name := "m.x/" + p + ".F" + c
				want := has[c] && strings.Contains(patterns, "./"+p)
				if got := strings.Contains(string(out), `"`+name+`"`); got != want {
					bad = append(bad, fmt.Sprintf("%s reported: %v, want %v", name, got, want))
				}
			}
		}
		if err != nil || len(bad) > 0 {
			sort.Strings(args)
			fmt.Printf("VERIF-FAIL: capslock %q: %v, %s, %q\n", args, err, strings.Join(bad, ", "), errs.String())
			t.FailNow()
		}
	}
}
