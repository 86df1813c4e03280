package main_test

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

var (
	oneLine    = regexp.MustCompile(`^(Package|Function) (.*) has capability (\S+):$`)
	manyLine   = regexp.MustCompile(`^(Package|Function)s (.*) have capability (\S+):$`)
	newCaps    = regexp.MustCompile(`^Added (\d+) new capabilit(y|ies):$`)
	newUses    = regexp.MustCompile(`^Added (\d+) new uses? of existing capabilit(y|ies):$`)
	capability = regexp.MustCompile(`^\s+(CAPABILITY_[A-Z_]+):`)
)

// Bounded runtime check of C13: the program is built and run with a stand-in
// for capslock that prints one generated result for the old revision and
// another for the new one.
func TestVerifC13(t *testing.T) {
	cases := 0
	defer func() { fmt.Printf("VERIF-CASES %d\n", cases) }()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 1313))
	dir := os.Getenv("VERIF_SCRATCH")
	bin := filepath.Join(dir, "capslock-git-diff")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatalf("%v\n%s", err, out)
	}
	fake := filepath.Join(dir, "fake")
	os.MkdirAll(fake, 0o755)
	script := fmt.Sprintf("#!/bin/sh\ncd %s\nif [ -f second ]; then cat 2.json; exit $(cat 2.status); fi\n: > second\ncat 1.json\nexit $(cat 1.status)\n", fake)
	if err := os.WriteFile(filepath.Join(fake, "capslock"), []byte(script), 0o755); err != nil {
		t.Fatal(err)
	}
	run := func(json [2]string, status [2]int, granularity string) (stdout string, code int) {
		os.Remove(filepath.Join(fake, "second"))
		for i := range json {
			os.WriteFile(filepath.Join(fake, fmt.Sprintf("%d.json", i+1)), []byte(json[i]), 0o644)
			os.WriteFile(filepath.Join(fake, fmt.Sprintf("%d.status", i+1)), []byte(fmt.Sprint(status[i])), 0o644)
		}
		cmd := exec.Command(bin, "-granularity="+granularity, ".", ".", "m.x/...")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "PATH="+fake+":"+os.Getenv("PATH"), "CAPSLOCKTOOLSTMPDIR="+dir)
		out, err := cmd.Output()
		if err == nil {
			return string(out), 0
		}
		if e, ok := err.(*exec.ExitError); ok {
			return string(out), e.ExitCode()
		}
		t.Fatal(err)
		return "", 0
	}
	// runGit commits the results to a repository, in a subdirectory, and
	// compares the two revisions with a capslock that prints what it finds there.
	repo := filepath.Join(dir, "repo")
	git := func(args ...string) {
		cmd := exec.Command("git", append([]string{"-c", "user.name=x", "-c", "user.email=x@x", "-c", "init.defaultBranch=main", "-C", repo}, args...)...)
		if out, err := cmd.CombinedOutput(); err != nil {
			t.Fatalf("git %v: %v\n%s", args, err, out)
		}
	}
	runGit := func(json [2]string, granularity string, old, new string) (stdout string, code int) {
		os.RemoveAll(repo)
		os.MkdirAll(filepath.Join(repo, "sub"), 0o755)
		git("init", "-q")
		for i := range json {
			os.WriteFile(filepath.Join(repo, "sub", "result.json"), []byte(json[i]), 0o644)
			git("add", ".")
			git("commit", "-q", "--allow-empty", "-m", fmt.Sprint(i))
			git("tag", fmt.Sprintf("r%d", i))
		}
		os.WriteFile(filepath.Join(repo, "sub", "result.json"), []byte("{}"), 0o644)
		real := filepath.Join(dir, "real")
		os.MkdirAll(real, 0o755)
		os.WriteFile(filepath.Join(real, "capslock"), []byte("#!/bin/sh\ncat result.json\n"), 0o755)
		cmd := exec.Command(bin, "-granularity="+granularity, old, new)
		cmd.Dir = filepath.Join(repo, "sub")
		cmd.Env = append(os.Environ(), "PATH="+real+":"+os.Getenv("PATH"), "CAPSLOCKTOOLSTMPDIR="+dir)
		out, err := cmd.Output()
		if err == nil {
			return string(out), 0
		}
		if e, ok := err.(*exec.ExitError); ok {
			return string(out), e.ExitCode()
		}
		t.Fatal(err)
		return "", 0
	}
	n := 150
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 1500
	}
	for ; n > 0; n-- {
		granularity := []string{"package", "intermediate", "function", "function", ""}[r.Intn(5)]
		npkg, ncap := 1+r.Intn(4), 1+r.Intn(5)
		entry := func() *cpb.CapabilityInfo {
			ci := &cpb.CapabilityInfo{Capability: cpb.Capability(r.Intn(ncap) * 2).Enum()}
			if r.Intn(10) == 0 {
				ci.Capability = cpb.Capability(r.Intn(15)).Enum()
			}
			for k := 1 + r.Intn(4); k > 0; k-- {
				pkg := fmt.Sprintf("m.x/p%d", r.Intn(npkg))
				f := &cpb.Function{Name: proto.String(fmt.Sprintf("%s.F%d", pkg, r.Intn(3))), Package: proto.String(pkg)}
				if r.Intn(8) == 0 {
					f.Package = nil
				}
				if r.Intn(2) == 0 {
					f.Site = &cpb.Function_Site{Filename: proto.String("a.go"), Line: proto.Int64(int64(r.Intn(99))), Column: proto.Int64(3)}
				}
				ci.Path = append(ci.Path, f)
			}
			ci.Path[0].Package = proto.String(strings.Split(ci.Path[0].GetName(), ".F")[0])
			ci.PackageDir = proto.String(ci.Path[0].GetPackage())
			if granularity == "intermediate" {
				for _, f := range ci.Path {
					if f.GetPackage() != "" && r.Intn(2) == 0 {
						ci.PackageDir = f.Package
					}
				}
			}
			return ci
		}
		var cils [2]*cpb.CapabilityInfoList
		for i := range cils {
			cils[i] = new(cpb.CapabilityInfoList)
			for k := r.Intn(6); k > 0; k-- {
				cils[i].CapabilityInfo = append(cils[i].CapabilityInfo, entry())
			}
		}
		// Results usually have much in common.
		for _, ci := range cils[0].CapabilityInfo {
			if r.Intn(3) != 0 {
				cils[1].CapabilityInfo = append(cils[1].CapabilityInfo, proto.Clone(ci).(*cpb.CapabilityInfo))
			}
		}
		r.Shuffle(len(cils[1].CapabilityInfo), func(i, j int) {
			l := cils[1].CapabilityInfo
			l[i], l[j] = l[j], l[i]
		})
		if r.Intn(10) == 0 {
			cils[1] = proto.Clone(cils[0]).(*cpb.CapabilityInfoList)
		}
		var json [2]string
		for i := range json {
			b, err := protojson.Marshal(cils[i])
			if err != nil {
				t.Fatal(err)
			}
			json[i] = string(b)
		}
		key := func(ci *cpb.CapabilityInfo) string {
			if granularity == "function" || granularity == "" {
				return ci.Path[0].GetName()
			}
			return ci.GetPackageDir()
		}
		type pair struct{ key, capability string }
		var in [2]map[pair]bool
		var capIn [2]map[string]bool
		for i := range in {
			in[i], capIn[i] = map[pair]bool{}, map[string]bool{}
			for _, ci := range cils[i].CapabilityInfo {
				in[i][pair{key(ci), ci.GetCapability().String()}] = true
				capIn[i][ci.GetCapability().String()] = true
			}
		}
		want := map[pair]int{}
		wantNew, wantUses := map[string]int{}, map[string]int{}
		uses := 0
		for p := range in[1] {
			if in[0][p] {
				continue
			}
			want[p] = 1
			if capIn[0][p.capability] {
				wantUses[p.capability] = 1
				uses++
			} else {
				wantNew[p.capability] = 1
			}
		}
		out, code := run(json, [2]int{}, granularity)
		fail := func(format string, args ...any) {
			s := fmt.Sprintf(format, args...)
			s = fmt.Sprintf("granularity %q: %s; old result %s; new result %s; output %s", granularity, s, json[0], json[1], out)
			fmt.Printf("VERIF-FAIL: %s\n", strings.ReplaceAll(s, "\n", " | "))
			t.FailNow()
		}
		if w := min(len(want), 1); code != w {
			fail("exit status %d, want %d", code, w)
		}
		got := map[pair]int{}
		gotNew, gotUses := map[string]int{}, map[string]int{}
		lines := strings.Split(out, "\n")
		for i := 0; i < len(lines); i++ {
			var keys []string
			var c string
			kind := ""
			if s := oneLine.FindStringSubmatch(lines[i]); s != nil {
				kind, keys, c = s[1], []string{s[2]}, s[3]
			} else if s := manyLine.FindStringSubmatch(lines[i]); s != nil {
				kind, keys, c = s[1], strings.Split(s[2], ", "), s[3]
			}
			if keys != nil {
				if k := map[bool]string{true: "Function", false: "Package"}[granularity == "function" || granularity == ""]; kind != k {
					fail("%q should speak of a %s", lines[i], k)
				}
				for _, k := range keys {
					got[pair{k, c}]++
				}
				// The call path below belongs to an entry with the capability.
				var names []string
				for i+1 < len(lines) && strings.TrimSpace(lines[i+1]) != "" {
					i++
					f := strings.Fields(lines[i])
					names = append(names, f[len(f)-1])
				}
				found := false
				for _, ci := range cils[1].CapabilityInfo {
					var p []string
					pkgs := map[string]bool{}
					for _, f := range ci.Path {
						p = append(p, f.GetName())
						pkgs[f.GetName()] = true
						pkgs[f.GetPackage()] = true
					}
					ok := ci.GetCapability().String() == c && fmt.Sprint(p) == fmt.Sprint(names)
					for _, k := range keys {
						ok = ok && pkgs[k]
					}
					found = found || ok
				}
				if !found {
					fail("%v with capability %s are listed with the path %v", keys, c, names)
				}
				continue
			}
			set, count, w := map[string]int(nil), 0, 0
			if s := newCaps.FindStringSubmatch(lines[i]); s != nil {
				set, w = gotNew, len(wantNew)
				count, _ = strconv.Atoi(s[1])
			} else if s := newUses.FindStringSubmatch(lines[i]); s != nil {
				set, w = gotUses, uses
				count, _ = strconv.Atoi(s[1])
			}
			if set != nil {
				if count != w {
					fail("%q, want %d", lines[i], w)
				}
				for i+1 < len(lines) && capability.MatchString(lines[i+1]) {
					i++
					set[capability.FindStringSubmatch(lines[i])[1]]++
				}
			}
		}
		if fmt.Sprint(sorted(got)) != fmt.Sprint(sorted(want)) {
			fail("listed %v, want %v", sorted(got), sorted(want))
		}
		if fmt.Sprint(sorted(gotNew)) != fmt.Sprint(sorted(wantNew)) {
			fail("newly used capabilities %v, want %v", sorted(gotNew), sorted(wantNew))
		}
		if fmt.Sprint(sorted(gotUses)) != fmt.Sprint(sorted(wantUses)) {
			fail("existing capabilities with new uses %v, want %v", sorted(gotUses), sorted(wantUses))
		}
		cases++
		if n%25 == 0 {
			// The same between two revisions of a repository.
			listing := func(s string) (l []string) {
				for _, x := range strings.Split(s, "\n") {
					if oneLine.MatchString(x) || manyLine.MatchString(x) {
						l = append(l, x)
					}
				}
				return l
			}
			w := listing(out)
			out, code = runGit(json, granularity, "r0", "r1")
			if x := min(len(want), 1); code != x {
				fail("between two revisions of a repository: exit status %d, want %d", code, x)
			}
			if g := listing(out); fmt.Sprint(g) != fmt.Sprint(w) {
				fail("between two revisions of a repository: %q, want %q", g, w)
			}
			// The working tree, which has no capabilities.
			if out, code = runGit(json, granularity, "r1", "."); code != 0 {
				fail("compared with a working tree without capabilities: exit status %d, want 0", code)
			}
			if out, code = runGit(json, granularity, "r0", "nosuchrevision"); code != 2 {
				fail("compared with a revision that does not exist: exit status %d, want 2", code)
			}
			cases++
		}
		if n%10 == 0 {
			// A failing analysis is neither a difference nor none.
			status := [2]int{}
			bad := json
			switch r.Intn(4) {
			case 0:
				status[0] = 2
			case 1:
				status[1] = 1
			case 2:
				bad[0] = "{"
			default:
				bad[1] = bad[1][:len(bad[1])/2]
			}
			out, code = run(bad, status, granularity)
			if code != 2 {
				fail("exit status %d, want 2, when capslock's statuses are %v and its outputs %q", code, status, bad)
			}
			cases++
		}
	}
}

func sorted[K comparable](m map[K]int) []string {
	var s []string
	for k, n := range m {
		s = append(s, fmt.Sprintf("%v x%d", k, n))
	}
	sort.Strings(s)
	return s
}
