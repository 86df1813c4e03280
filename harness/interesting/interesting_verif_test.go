package interesting_test

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/ssa"
)

type vGen struct{ *rand.Rand }

func vNew(salt int64) vGen {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return vGen{rand.New(rand.NewSource(s*1000003 + salt))}
}

func vCases(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 10
	}
	return quick
}

func vFail(t *testing.T, format string, args ...any) {
	t.Helper()
	fmt.Printf("VERIF-FAIL: %s\n", strings.ReplaceAll(fmt.Sprintf(format, args...), "\n", `\n`))
	t.FailNow()
}

func (g vGen) pick(xs ...string) string { return xs[g.Intn(len(xs))] }

var vNames = []string{"a.F", "a.G", "a.F_Cfunc", "a.x_Cfunc_y", "b.F", "(a.T).M", "(*a.T).M", "b._cgo", "a", "b", "c/d", "c/d.F", "_Cfunc", "F", "os.Exit", "os.ReadFile", "fmt.Println", "runtime.GC", "sync", "os", "runtime"}

func (g vGen) name() string { return vNames[g.Intn(len(vNames))] }

var vCapNames = func() []string {
	var out []string
	for i := int32(0); i < 40; i++ {
		if n, ok := cpb.Capability_name[i]; ok {
			out = append(out, n)
		}
	}
	return out
}()

func (g vGen) capName(bad bool) string {
	if bad && g.Intn(12) == 0 {
		return g.pick("CAPABILITY_NOPE", "FILES", "capability_files", "0", "CAPABILITY_")
	}
	if g.Intn(5) == 0 {
		return g.pick("CAPABILITY_UNSPECIFIED", "CAPABILITY_SAFE", "CAPABILITY_UNANALYZED")
	}
	return vCapNames[g.Intn(len(vCapNames))]
}

func (g vGen) sp() string { return g.pick(" ", "\t", "  ", " \t ") }

// line returns one line of a map file.
func (g vGen) line(bad bool) string {
	pre := g.pick("", "", " ", "\t")
	post := g.pick("", "", " ", " # c", "#x func y z", "\r")
	if g.Intn(9) == 0 {
		return pre + g.pick("", "# comment", "#func a.F CAPABILITY_FILES", "   ") + post
	}
	kw := g.pick("func", "func", "package", "unanalyzed", "cgo_suffix", "ignore_edge")
	if bad && g.Intn(25) == 0 {
		kw = g.pick("Func", "fun", "pkg", "edge", "cgo_suffixes", "capability")
	}
	f := []string{kw, g.name()}
	switch kw {
	case "func", "package":
		f = append(f, g.capName(bad))
	case "ignore_edge":
		f = append(f, g.name())
	}
	if bad && g.Intn(20) == 0 {
		f = f[:1+g.Intn(len(f)-1)]
	}
	if g.Intn(20) == 0 {
		f = append(f, g.pick("extra", "CAPABILITY_FILES"))
	}
	return pre + strings.Join(f, g.sp()) + post
}

func (g vGen) text(bad bool, max int) string {
	n := g.Intn(max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		l := g.line(bad)
		b.WriteString(l)
		if f := strings.Fields(l); bad && g.Intn(6) == 0 && len(f) > 2 {
			// the same key again
			b.WriteString("\n" + f[0] + " " + f[1] + " " + g.pick(f[2], g.capName(bad), g.name()))
		}
		if i < n-1 || g.Intn(2) == 0 {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// vMap is what a map file states.
type vMap struct {
	fn, un, pkg map[string]cpb.Capability
	edge        map[[2]string]bool
	cgo         map[string]bool
}

func vParse(text string) (*vMap, bool) {
	m := &vMap{map[string]cpb.Capability{}, map[string]cpb.Capability{}, map[string]cpb.Capability{}, map[[2]string]bool{}, map[string]bool{}}
	for _, l := range strings.Split(text, "\n") {
		l, _, _ = strings.Cut(l, "#")
		w := strings.Fields(l)
		if len(w) == 0 {
			continue
		}
		if len(w) < 2 {
			return nil, false
		}
		need3 := w[0] == "func" || w[0] == "package" || w[0] == "ignore_edge"
		if need3 && len(w) < 3 {
			return nil, false
		}
		switch w[0] {
		case "func", "package":
			dst := m.fn
			if w[0] == "package" {
				dst = m.pkg
			}
			c, ok := cpb.Capability_value[w[2]]
			if _, dup := dst[w[1]]; dup || !ok {
				return nil, false
			}
			dst[w[1]] = cpb.Capability(c)
		case "unanalyzed":
			if _, dup := m.un[w[1]]; dup {
				return nil, false
			}
			m.un[w[1]] = cpb.Capability_CAPABILITY_UNANALYZED
		case "cgo_suffix":
			m.cgo[w[1]] = true
		case "ignore_edge":
			k := [2]string{w[1], w[2]}
			if m.edge[k] {
				return nil, false
			}
			m.edge[k] = true
		default:
			return nil, false
		}
	}
	return m, true
}

func (m *vMap) category(pkg, name string) cpb.Capability {
	for s := range m.cgo {
		if strings.HasSuffix(name, s) {
			return cpb.Capability_CAPABILITY_CGO
		}
	}
	if c, ok := m.fn[name]; ok {
		return c
	}
	if c, ok := m.un[name]; ok {
		return c
	}
	return m.pkg[pkg]
}

func vMerge(b, u *vMap) *vMap {
	m := &vMap{map[string]cpb.Capability{}, map[string]cpb.Capability{}, map[string]cpb.Capability{}, map[[2]string]bool{}, map[string]bool{}}
	for k, v := range b.fn {
		if _, ok := u.un[k]; !ok {
			m.fn[k] = v
		}
	}
	for k, v := range u.fn {
		m.fn[k] = v
	}
	for _, x := range []*vMap{b, u} {
		for k, v := range x.un {
			m.un[k] = v
		}
		for k, v := range x.pkg {
			m.pkg[k] = v
		}
		for k := range x.edge {
			m.edge[k] = true
		}
		for k := range x.cgo {
			m.cgo[k] = true
		}
	}
	return m
}

func (m *vMap) withoutUnanalyzed() *vMap {
	n := *m
	n.un = nil
	n.fn, n.pkg = map[string]cpb.Capability{}, map[string]cpb.Capability{}
	for k, v := range m.fn {
		if v != cpb.Capability_CAPABILITY_UNANALYZED {
			n.fn[k] = v
		}
	}
	for k, v := range m.pkg {
		if v != cpb.Capability_CAPABILITY_UNANALYZED {
			n.pkg[k] = v
		}
	}
	return &n
}

var vProg = ssa.NewProgram(token.NewFileSet(), 0)

func vEdge(a, b string) *callgraph.Edge {
	sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	n := func(s string) *callgraph.Node {
		return &callgraph.Node{Func: vProg.NewFunction(s, sig, "verif")}
	}
	return &callgraph.Edge{Caller: n(a), Callee: n(b)}
}

// vCompare checks all answers of c about the names in the pools and in m.
func vCompare(c *interesting.Classifier, m *vMap, extra *vMap, edges bool) string {
	names := append([]string(nil), vNames...)
	pkgs := []string{"a", "b", "c/d", "os", "runtime", "sync", "", "a.F"}
	for _, x := range []*vMap{m, extra} {
		if x == nil {
			continue
		}
		n := 0
		for k := range x.fn {
			if n++; n < 60 {
				names = append(names, k)
			}
		}
		n = 0
		for k := range x.un {
			if n++; n < 60 {
				names = append(names, k)
			}
		}
		for k := range x.cgo {
			names = append(names, k, "pre"+k, k+"post")
		}
		n = 0
		for k := range x.pkg {
			if n++; n < 20 {
				pkgs = append(pkgs, k)
			}
		}
	}
	for _, p := range pkgs {
		for _, n := range names {
			if got, want := c.FunctionCategory(p, n), m.category(p, n); got != want {
				return fmt.Sprintf("FunctionCategory(%q, %q) = %v, want %v", p, n, got, want)
			}
		}
	}
	if edges {
		for _, a := range vNames[:12] {
			for _, b := range vNames[:12] {
				if got, want := c.IncludeCall(vEdge(a, b)), !m.edge[[2]string{a, b}]; got != want {
					return fmt.Sprintf("IncludeCall(%q -> %q) = %v, want %v", a, b, got, want)
				}
			}
		}
		for _, x := range []*vMap{m, extra} {
			if x == nil {
				continue
			}
			n := 0
			for k := range x.edge {
				if n++; n > 20 {
					break
				}
				if got, want := c.IncludeCall(vEdge(k[0], k[1])), !m.edge[k]; got != want {
					return fmt.Sprintf("IncludeCall(%q -> %q) = %v, want %v", k[0], k[1], got, want)
				}
				if got, want := c.IncludeCall(vEdge(k[1], k[0])), !m.edge[[2]string{k[1], k[0]}]; got != want {
					return fmt.Sprintf("IncludeCall(%q -> %q) = %v, want %v", k[1], k[0], got, want)
				}
			}
		}
	}
	return ""
}

func TestVerifC04(t *testing.T) {
	g := vNew(4)
	n := vCases(4000)
	for i := 0; i < n; i++ {
		text := g.text(false, 12)
		m, ok := vParse(text)
		c, err := interesting.LoadClassifier("t", strings.NewReader(text), true)
		if !ok || err != nil {
			continue
		}
		for k := 0; k < 2; k++ { // twice: lookups change nothing
			if d := vCompare(c, m, nil, false); d != "" {
				vFail(t, "map %q: %s", text, d)
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}

type vBadReader struct {
	r io.Reader
}

func (b vBadReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("broken")
	}
	return n, err
}

func TestVerifC05(t *testing.T) {
	g := vNew(5)
	n := vCases(3000)
	for i := 0; i < n; i++ {
		text := g.text(i%3 != 0, 9)
		m, ok := vParse(text)
		var r io.Reader = strings.NewReader(text)
		if i%10 == 0 {
			r = vBadReader{r}
			ok = false
		}
		if i%50 == 1 {
			text += "\nfunc z." + strings.Repeat("z", 70000) + " CAPABILITY_FILES\nfunc y.Y CAPABILITY_FILES\n"
			r = strings.NewReader(text)
			m2, ok2 := vParse(text)
			c, err := interesting.LoadClassifier("t", r, true)
			if err == nil && ok2 {
				// accepting such lines is fine if nothing is lost
				if d := vCompare(c, m2, nil, false); d != "" {
					vFail(t, "map with a very long line: %s", d)
				}
			} else if err == nil {
				vFail(t, "map %q ... accepted", text[:50])
			}
			continue
		}
		c, err := interesting.LoadClassifier("t", r, true)
		if (err == nil) != ok {
			vFail(t, "map %q (reader failing: %v): err = %v, want accepted = %v", text, i%10 == 0, err, ok)
		}
		if err == nil {
			if d := vCompare(c, m, nil, i%4 == 0); d != "" {
				vFail(t, "map %q: %s", text, d)
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}

func TestVerifC06(t *testing.T) {
	data, err := os.ReadFile("interesting.cm")
	if err != nil {
		t.Skip(err)
	}
	b, ok := vParse(string(data))
	if !ok {
		vFail(t, "builtin map is malformed")
	}
	g := vNew(6)
	n := vCases(800)
	var some []string
	for k := range b.fn {
		some = append(some, k)
	}
	for i := 0; i < n; i++ {
		text := g.text(false, 14)
		// mention builtin entries too
		for k := g.Intn(6); k > 0; k-- {
			switch g.Intn(4) {
			case 0:
				text += "\nfunc " + some[g.Intn(len(some))] + " " + g.capName(false)
			case 1:
				text += "\nunanalyzed " + some[g.Intn(len(some))]
			case 2:
				text += "\nignore_edge " + some[g.Intn(len(some))] + " " + some[g.Intn(len(some))]
			default:
				text += "\npackage os" + g.pick("", "/exec", "/user") + " " + g.capName(false)
			}
		}
		text += "\n"
		u, ok := vParse(text)
		if !ok {
			continue
		}
		full, err := interesting.LoadClassifier("t", strings.NewReader(text), false)
		if err != nil {
			vFail(t, "map %q rejected: %v", text, err)
		}
		alone, err := interesting.LoadClassifier("t", strings.NewReader(text), true)
		if err != nil {
			vFail(t, "map %q rejected: %v", text, err)
		}
		m := vMerge(b, u)
		check := func(what string, c *interesting.Classifier, want *vMap) {
			if d := vCompare(c, want, u, true); d != "" {
				vFail(t, "user map %q: %s: %s", text, what, d)
			}
		}
		check("merged", full, m)
		check("user only", alone, u)
		d1, d2 := interesting.ClassifierExcludingUnanalyzed(full), interesting.ClassifierExcludingUnanalyzed(alone)
		check("merged, excluding unanalyzed", d1, m.withoutUnanalyzed())
		check("user only, excluding unanalyzed", d2, u.withoutUnanalyzed())
		check("merged, after deriving", full, m)
		check("user only, after deriving", alone, u)
		d3 := interesting.ClassifierExcludingUnanalyzed(interesting.DefaultClassifier())
		check("builtin, excluding unanalyzed", d3, b.withoutUnanalyzed())
		check("builtin, afterwards", interesting.DefaultClassifier(), b)
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}
