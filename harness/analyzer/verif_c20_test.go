package analyzer_test

import (
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

// captureStdout runs f and returns what it wrote to standard output.
func captureStdout(t *testing.T, f func()) string {
	file, err := os.Create(filepath.Join(os.Getenv("VERIF_SCRATCH"), "stdout"))
	if err != nil {
		t.Fatal(err)
	}
	saved := os.Stdout
	os.Stdout = file
	defer func() { os.Stdout = saved }()
	f()
	os.Stdout = saved
	file.Seek(0, 0)
	b, err := io.ReadAll(file)
	file.Close()
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

// readQuoted reads one quoted name and returns it unescaped, and the rest.
func readQuoted(s string) (name, rest string, ok bool) {
	if !strings.HasPrefix(s, `"`) {
		return "", "", false
	}
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case '"':
			return b.String(), s[i+1:], true
		case '\\':
			i++
			if i == len(s) || s[i] != '\\' && s[i] != '"' {
				return "", "", false
			}
			b.WriteByte(s[i])
		default:
			b.WriteByte(s[i])
		}
	}
	return "", "", false
}

// Names with quotes and backslashes, from struct tags in type arguments.
var quotedProgram = map[string]string{
	"p0/a.go": "package p0\n\nfunc G[X any]() { H[X]() }\n\nfunc H[X any]() { L() }\n\nfunc L() {}\n\n" +
		"func F() {\n\tG[struct{ A int `json:\"a\"` }]()\n\tG[struct{ B int `a\\b` }]()\n\tG[struct{ C int \"\\\\\\\"\\n\\t\" }]()\n\tG[struct{ D int `\"` }]()\n\tG[struct{ E int `\\` }]()\n\tG[struct{ F int `\\\\\"` }]()\n}\n",
}

// Bounded runtime check of C20: the whole graph output, parsed back.
func TestVerifC20(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 2020))
	progs := append([]*vProg{loadProg(t, quotedProgram)}, vPrograms(t, r, verifN(5, 15))...)
	for i, p := range progs {
		for k := 0; k < verifN(40, 80); k++ {
			m, q := p.randomModel(r)
			if i == 0 {
				q, m.query = p.queriedPackages(nil)
				if k%2 == 0 {
					for n := range m.c.cat {
						m.c.cat[n] = cpb.Capability_CAPABILITY_UNSPECIFIED
					}
					m.c.cat["m.x/p0 m.x/p0.L"] = cpb.Capability_CAPABILITY_FILES
					m.c.exclude = nil
				}
			}
			list := ""
			if r.Intn(2) == 0 {
				list = []string{"FILES", "-FILES", "CAPABILITY_NETWORK,EXEC", "-UNANALYZED,-EXEC", "CGO"}[r.Intn(5)]
			}
			cs, err := analyzer.NewCapabilitySet(list)
			if err != nil {
				verifFail(t, "capability list %q: %v", list, err)
			}
			cfg := &analyzer.Config{Classifier: m.c, DisableBuiltin: true, CapabilitySet: cs}
			var caps []cpb.Capability
			for _, c := range m.caps() {
				in := list == ""
				for _, n := range strings.Split(list, ",") {
					if strings.HasPrefix(n, "-") {
						in = true
					}
				}
				for _, n := range strings.Split(list, ",") {
					if strings.HasSuffix(c.String(), "_"+strings.TrimPrefix(n, "-")) || n == c.String() {
						in = !strings.HasPrefix(n, "-")
					}
				}
				if in {
					caps = append(caps, c)
				}
			}
			out := captureStdout(t, func() { err = analyzer.RunCapslock(nil, "graph", p.pkgs, q, cfg) })
			if err != nil {
				verifFail(t, "graph output failed: %v; %s", err, p.describe(m))
			}
			body, ok := strings.CutPrefix(out, "digraph {\n")
			if ok {
				body, ok = strings.CutSuffix(body, "}\n")
			}
			if !ok || body != "" && !strings.HasSuffix(body, "\n") {
				verifFail(t, "not one digraph block: %q; %s", out, p.describe(m))
			}
			got := map[string]int{}
			for _, l := range strings.Split(strings.TrimSuffix(body, "\n"), "\n") {
				if body == "" {
					break
				}
				a, rest, ok1 := readQuoted(strings.TrimLeft(l, "\t "))
				rest, ok2 := strings.CutPrefix(rest, " -> ")
				b, rest, ok3 := readQuoted(rest)
				if !ok1 || !ok2 || !ok3 || rest != "" {
					verifFail(t, "malformed line %q; %s", l, p.describe(m))
				}
				got[a+" -> "+b] = 1
			}
			nodes, edges := m.between(caps...)
			want := map[string]int{}
			for e := range edges {
				want[e] = 1
			}
			for n := range nodes {
				for _, c := range caps {
					if m.has(n, c) {
						want[n.name+" -> "+c.String()] = 1
					}
				}
			}
			if d := diffCounts(got, want); d != "" {
				verifFail(t, "graph text for capabilities %q: %s; %s", list, d, p.describe(m))
			}
			verifCases++
		}
	}
}
