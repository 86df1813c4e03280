package analyzer_test

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
)

// Markers, each with a capability of its own: K0..K5 are called by the
// arguments and receivers, F and the methods L, W, N are what the simplified
// call must call, U marks functions that only look like library functions,
// and LIB the library functions themselves.
var c14Caps = map[string]cpb.Capability{
	"K0": cpb.Capability_CAPABILITY_FILES, "K1": cpb.Capability_CAPABILITY_NETWORK, "K2": cpb.Capability_CAPABILITY_RUNTIME,
	"K3": cpb.Capability_CAPABILITY_READ_SYSTEM_STATE, "K4": cpb.Capability_CAPABILITY_MODIFY_SYSTEM_STATE, "K5": cpb.Capability_CAPABILITY_OPERATING_SYSTEM,
	"F": cpb.Capability_CAPABILITY_SYSTEM_CALLS, "L": cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, "W": cpb.Capability_CAPABILITY_CGO,
	"N": cpb.Capability_CAPABILITY_UNANALYZED, "U": cpb.Capability_CAPABILITY_UNSAFE_POINTER, "LIB": cpb.Capability_CAPABILITY_EXEC,
}

type c14Classifier struct{ cat map[string]cpb.Capability }

func (c c14Classifier) FunctionCategory(pkg, name string) cpb.Capability { return c.cat[name] }
func (c c14Classifier) IncludeCall(*callgraph.Edge) bool                 { return true }

// c14Expr draws an expression of type int, a []int or a *sync.Once, noting the
// markers it calls.
type c14Gen struct {
	r    *rand.Rand
	used map[string]bool
	k    int // chance of a marker call, in percent
}

func (g *c14Gen) i(d int) string {
	if d <= 0 || g.r.Intn(3) == 0 {
		if g.r.Intn(100) < g.k {
			m := fmt.Sprintf("K%d", g.r.Intn(6))
			g.used[m] = true
			if g.r.Intn(6) == 0 {
				return "(" + m + ")()"
			}
			return m + "()"
		}
		return []string{"v", "v", "st.n", "(v)", "*pv", "con"}[g.r.Intn(6)]
	}
	d--
	switch g.r.Intn(14) {
	case 0:
		return "(" + g.i(d) + ")"
	case 1:
		return g.i(d) + " + " + g.i(d)
	case 2:
		return "-(" + g.i(d) + ")"
	case 3:
		return "xs[v+" + g.i(d) + "]"
	case 4:
		return "S{n: " + g.i(d) + "}.n"
	case 5:
		return "[]int{" + g.i(d) + ", v, " + g.i(d) + "}[v]"
	case 6:
		return "map[int]int{v: " + g.i(d) + "}[" + g.i(d) + "]"
	case 7:
		return "map[int]int{v + " + g.i(d) + ": v}[v]"
	case 8:
		return g.s(d) + "[v+" + g.i(d) + "]"
	case 9:
		return "ifaces[v+" + g.i(d) + "].(int)"
	case 10:
		return "ptrs[v+" + g.i(d) + "].n"
	case 11:
		return "*(&[]int{" + g.i(d) + "}[v])"
	case 12:
		return "fs[v+" + g.i(d) + "].fs[v].n"
	}
	return "(*ptrs[v+" + g.i(d) + "]).n"
}

func (g *c14Gen) s(d int) string {
	if d <= 0 {
		return "xs"
	}
	d--
	switch g.r.Intn(8) {
	case 0:
		return "xs[v+" + g.i(d) + ":]"
	case 1:
		return "xs[:v+" + g.i(d) + "]"
	case 2:
		return "xs[v:v:v+" + g.i(d) + "]"
	case 3:
		return "[]int{v, " + g.i(d) + "}"
	case 4:
		return "S{v, []int{" + g.i(d) + "}, nil}.xs"
	case 5:
		return "xss[v+" + g.i(d) + "]"
	case 6:
		return "ifaces[v+" + g.i(d) + "].([]int)"
	}
	return "xs"
}

func (g *c14Gen) once(d int) string {
	switch g.r.Intn(10) {
	case 0:
		return "(&on)"
	case 1:
		return "pon"
	case 2:
		return "ons[v+" + g.i(d) + "]"
	case 3:
		return "onm[" + g.i(d) + "]"
	case 4:
		return "(&onv[v+" + g.i(d) + "])"
	case 5:
		return "ifaces[v+" + g.i(d) + "].(*sync.Once)"
	case 6:
		return "S{n: " + g.i(d) + ", on: pon}.on"
	case 7:
		return "(*ppon[v+" + g.i(d) + "])"
	case 8:
		return "aon"
	}
	return "on"
}

// Bounded runtime check of C14: the capabilities of many generated statements.
func TestVerifC14(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 1414))
	var b strings.Builder
	b.WriteString("package p0\n\nimport (\n\t\"sort\"\n\tsrt \"sort\"\n\t\"sync\"\n\tmine \"m.x/sort\"\n\tmysync \"m.x/sync\"\n)\n\n")
	for m := range c14Caps {
		if m[0] == 'K' {
			fmt.Fprintf(&b, "func %s() int { return 0 }\n", m)
		}
	}
	b.WriteString(`
func F()          {}
func FI(int, int) bool { F(); return true }
func L()          {}
func W()          {}
func N()          {}
func U()          {}

type S struct {
	n  int
	xs []int
	on *sync.Once
}
type O = sync.Once
type Srt []int
func (Srt) Len() int           { N(); return 0 }
func (Srt) Less(i, j int) bool { L(); return false }
func (Srt) Swap(i, j int)      { W() }
type PSrt struct{ n int }
func (*PSrt) Len() int           { N(); return 0 }
func (*PSrt) Less(i, j int) bool { L(); return false }
func (*PSrt) Swap(i, j int)      { W() }
type ESrt struct{ Srt }
type ISrt struct{ sort.Interface }
type EOnce struct{ sync.Once }
type Once struct{}
func (*Once) Do(f func())                         { U() }
type fakeSort struct{}
func (fakeSort) Slice(x any, f func(int, int) bool) { U() }
func (fakeSort) Sort(x sort.Interface)             { U() }
type fsT struct{ fs []S }

const con = 1
var (
	v      int
	pv     *int
	st     S
	xs     []int
	xss    [][]int
	ifaces []any
	ptrs   []*S
	fs     []fsT
	on     sync.Once
	aon    O
	pon    *sync.Once
	ppon   []**sync.Once
	ons    []*sync.Once
	onv    []sync.Once
	onm    map[int]*sync.Once
	eon    EOnce
	myOnce mysync.Once
	once2  Once
	fvar   = F
)

func use(any) {}
`)
	type want struct {
		stmt   string
		must   map[string]bool // markers that must be visible
		target []string        // markers to be called instead of the library function
		lib    bool
	}
	wants := map[string]*want{}
	n := verifN(2000, 8000)
	for k := 0; k < n; k++ {
		g := &c14Gen{r: r, used: map[string]bool{}, k: []int{0, 10, 40}[r.Intn(3)]}
		w := &want{must: g.used, lib: true}
		d := r.Intn(4)
		mk := ""
		arg := func(name string) string {
			switch r.Intn(5) {
			case 0:
				return name
			case 1:
				m := fmt.Sprintf("K%d", r.Intn(6))
				g.used[m] = true
				mk = m
				if name == "F" {
					return "mk" + fmt.Sprint(k) + "()"
				}
				return "FI"
			case 2:
				if name == "F" {
					return "func() { F() }"
				}
				return "func(i, j int) bool { F(); return i < j }"
			}
			return name
		}
		pre, stmt := "", ""
		switch r.Intn(12) {
		case 0, 1, 2:
			w.target = []string{"F"}
			stmt = g.once(d) + ".Do(" + arg("F") + ")"
		case 3, 4, 5:
			w.target = []string{"F"}
			a := arg("FI")
			delete(g.used, mk)
			mk = ""
			stmt = []string{"sort", "srt"}[r.Intn(2)] + "." + []string{"Slice", "SliceStable"}[r.Intn(2)] + "(" + g.s(d) + ", " + a + ")"
		case 6, 7, 8:
			w.target = []string{"L", "W", "N"}
			x := []string{"Srt(xs)", "Srt(" + g.s(d) + ")", "&PSrt{n: " + g.i(d) + "}", "ESrt{}", "ISrt{Srt(nil)}", "x"}[r.Intn(6)]
			if x != "x" && !strings.Contains(x, "(Srt(") {
				// only one of the drawn expressions is used
				for m := range g.used {
					if !strings.Contains(x, m) {
						delete(g.used, m)
					}
				}
			} else {
				for m := range g.used {
					delete(g.used, m)
				}
			}
			pre = "var x sort.Interface = Srt(xs); use(0); _ = x"
			stmt = []string{"sort", "srt"}[r.Intn(2)] + "." + []string{"Sort", "Stable", "IsSorted"}[r.Intn(3)] + "(" + x + ")"
		case 9:
			w.lib = false
			g.used["U"] = true
			switch r.Intn(6) {
			case 5:
				stmt = "mine.Sort(Srt(xs))"
			case 0:
				stmt = "once2.Do(F)"
			case 1:
				pre, stmt = "var sort fakeSort", "sort.Slice(xs, FI)"
			case 2:
				pre, stmt = "var sort fakeSort", "sort.Sort(Srt(xs))"
			case 3:
				stmt = "mine.Slice(xs, FI)"
			case 4:
				stmt = "myOnce.Do(F)"
			}
		case 10:
			w.target = []string{"F"}
			stmt = "eon.Do(F)"
		case 11:
			w.target = []string{"F"}
			stmt = g.once(d) + ".Do(fvar)"
		}
		w.stmt = stmt
		block := func(f string) string { return fmt.Sprintf(f, stmt) }
		switch r.Intn(12) {
		case 0:
			w.stmt = block("if v > 0 { %s } else { use(0) }")
		case 1:
			w.stmt = block("switch v { case 1: use(1); %s\ndefault: }")
		case 2:
			w.stmt = block("select { default: %s }")
		case 3:
			w.stmt = block("lab: %s\ngoto lab")
		case 4:
			w.stmt = block("for i := 0; i < v; i++ { %s }")
		case 5:
			w.stmt = block("func() { %s }()")
		case 6:
			if w.lib {
				w.stmt = block("defer %s")
				if strings.Contains(stmt, "IsSorted") {
					w.stmt = block("defer func() { %s }()")
				}
			}
		case 7:
			w.stmt = block("if %s; v > 0 { use(1) }")
		case 8:
			w.stmt = block("for ; v > 0; %s { use(1) }")
		case 9:
			w.stmt = block("switch %s; v { case 1: }")
		}
		if strings.Contains(stmt, "S{") && !strings.Contains(stmt, "func(") && w.stmt != stmt {
			w.stmt = "{ " + stmt + " }" // composite literals are not allowed in headers
		}
		if strings.Contains(w.stmt, "{ ") && (strings.HasPrefix(w.stmt, "if "+stmt) || strings.HasPrefix(w.stmt, "for ;") || strings.HasPrefix(w.stmt, "switch "+stmt)) && strings.Contains(stmt, "{") {
			w.stmt = "{ " + stmt + " }"
		}
		if mk != "" {
			fmt.Fprintf(&b, "func mk%d() func() { %s(); return F }\n", k, mk)
		}
		fmt.Fprintf(&b, "func X%d() {\n\t%s\n\t%s\n}\n", k, pre, w.stmt)
		wants[fmt.Sprintf("m.x/p0.X%d", k)] = w
	}
	p := loadProg(t, map[string]string{
		"p0/a.go":   b.String(),
		"sort/s.go": "package sort\n\nfunc Slice(x any, f func(i, j int) bool) { U() }\nfunc Sort(x any) { U() }\nfunc U() {}\n",
		"sync/s.go": "package sync\n\ntype Once struct{}\n\nfunc (*Once) Do(f func()) { U() }\nfunc U() {}\n",
	}, "./p0")
	c := c14Classifier{map[string]cpb.Capability{}}
	for m, cap := range c14Caps {
		c.cat["m.x/p0."+m] = cap
	}
	c.cat["m.x/sort.U"], c.cat["m.x/sync.U"] = c14Caps["U"], c14Caps["U"]
	for _, n := range []string{"sort.Sort", "sort.Stable", "sort.IsSorted", "sort.Slice", "sort.SliceStable", "(*sync.Once).Do"} {
		c.cat[n] = c14Caps["LIB"]
	}
	got := map[string]map[cpb.Capability]bool{}
	for _, ci := range analyzer.GetCapabilityInfo(p.pkgs, analyzer.GetQueriedPackages(p.pkgs), &analyzer.Config{Classifier: c, DisableBuiltin: true, Granularity: analyzer.GranularityFunction}).CapabilityInfo {
		name := ci.Path[0].GetName()
		if got[name] == nil {
			got[name] = map[cpb.Capability]bool{}
		}
		got[name][ci.GetCapability()] = true
	}
	names := func(m map[cpb.Capability]bool) string {
		var out []string
		for n, c := range c14Caps {
			if m[c] {
				out = append(out, n)
			}
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	}
	for k := 0; k < n; k++ {
		name := fmt.Sprintf("m.x/p0.X%d", k)
		w, g := wants[name], got[name]
		verifCases++
		allowed := map[cpb.Capability]bool{}
		for m := range w.must {
			allowed[c14Caps[m]] = true
			if !g[c14Caps[m]] {
				verifFail(t, "statement %q: the call of %s is not visible, only %s", w.stmt, m, names(g))
			}
		}
		if w.lib {
			allowed[c14Caps["LIB"]] = true
			if !g[c14Caps["LIB"]] {
				for _, m := range w.target {
					if !g[c14Caps[m]] {
						verifFail(t, "statement %q: replaced, but %s is not called, only %s", w.stmt, m, names(g))
					}
				}
			}
			for _, m := range w.target {
				allowed[c14Caps[m]] = true
			}
		}
		for c := range g {
			if !allowed[c] {
				verifFail(t, "statement %q: unexpected %v among %s", w.stmt, c, names(g))
			}
		}
	}
}
