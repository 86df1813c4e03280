package analyzer_test

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

// Statements with and without a conversion of an unsafe pointer, for
// functions with p unsafe.Pointer and u uintptr in scope.
var unsafeStmts = []struct {
	text string
	conv bool
}{
	{"_ = (*int)(p)", true},
	{"_ = (Ptr)(p)", true},
	{"_ = PtrAlias(p)", true},
	{"_ = UP(p)", true},
	{"_ = (*int)(UP(p))", true},
	{"var q UP; _ = (*byte)(q)", true},
	{"var q UPAlias; _ = (*byte)(q)", true},
	{"var q UP2; _ = (**byte)((q))", true},
	{"_ = unsafe.Pointer(p)", true},
	{"_ = ((*[4]int)(p))[1]", true},
	{"if (*int)(p) != nil { use(0) }", true},
	{"for i := 0; i < *(*int)(p); i++ { use(0) }", true},
	{"switch { case (*int)(p) == nil: use(1) }", true},
	{"use(*(*int)(p))", true},
	{"defer use(*(*int)(p))", true},
	{"_ = map[string]*int{\"a\": (*int)(p)}", true},
	{"_ = []UP{UP(p)}", true},
	{"_ = (func())(nil) == nil && (*int)(p) == nil", true},
	{"_ = uintptr(unsafe.Pointer((*int)(p)))", true},
	{"_ = uintptr(p)", false},
	{"_ = UI(p)", false},
	{"_ = UIAlias(p)", false},
	{"_ = UI2(p)", false},
	{"_ = unsafe.Pointer(u)", false},
	{"x := 1; _ = unsafe.Pointer(&x)", false},
	{"_ = UP(unsafe.Add(nil, 1)) == nil", true},
	{"q := p; _ = q", false},
	{"useP(p)", false},
	{"_ = interface{}(p)", true},
	{"var i interface{} = p; _ = i.(unsafe.Pointer)", false},
	{"_ = unsafe.Sizeof(p)", false},
	{"_ = int64(uintptr(p))", false},
	{"_ = []unsafe.Pointer{p}", false},
	{"_ = append([]unsafe.Pointer(nil), p)", false},
	{"_ = []byte(\"x\")", false},
	{"if u == 77 { panic(p) }", false},
}

const unsafeTypes = `
type Ptr *int
type PtrAlias = *int
type UP unsafe.Pointer
type UP2 UP
type UPAlias = UP
type UI uintptr
type UI2 UI
type UIAlias = UI
func use(int) {}
func useP(unsafe.Pointer) {}
func call(func(unsafe.Pointer, uintptr)) {}
var _ unsafe.Pointer
`

// unsafeBody writes a random body of the function called name, recording which
// functions convert.
func unsafeBody(r *rand.Rand, name string, depth int, want map[string]bool) string {
	var b strings.Builder
	lits := 0
	for n := r.Intn(4); n > 0; n-- {
		if depth > 0 && r.Intn(3) == 0 {
			lits++
			body := unsafeBody(r, fmt.Sprintf("%s$%d", name, lits), depth-1, want)
			switch r.Intn(3) {
			case 0:
				fmt.Fprintf(&b, "func(p unsafe.Pointer, u uintptr) {\n%s}(nil, 0)\n", body)
			case 1:
				fmt.Fprintf(&b, "call(func(p unsafe.Pointer, u uintptr) {\n%s})\n", body)
			default:
				fmt.Fprintf(&b, "{ f := func(p unsafe.Pointer, u uintptr) {\n%s}; f(nil, u) }\n", body)
			}
			continue
		}
		s := unsafeStmts[r.Intn(len(unsafeStmts))]
		if s.conv {
			want[name] = true
		}
		if r.Intn(4) == 0 {
			fmt.Fprintf(&b, "if u == %d { %s }\n", r.Intn(9), s.text)
		} else {
			fmt.Fprintf(&b, "{ %s }\n", s.text)
		}
	}
	return b.String()
}

// directly returns the functions with a one-step path, by capability.
func directly(p *vProg, c *vClassifier) map[cpb.Capability]map[string]int {
	q := analyzer.GetQueriedPackages(p.pkgs)
	cil := analyzer.GetCapabilityInfo(p.pkgs, q, &analyzer.Config{Classifier: c})
	out := map[cpb.Capability]map[string]int{}
	for _, ci := range cil.CapabilityInfo {
		if len(ci.Path) != 1 {
			continue
		}
		m := out[ci.GetCapability()]
		if m == nil {
			m = map[string]int{}
			out[ci.GetCapability()] = m
		}
		m[ci.Path[0].GetName()]++
	}
	return out
}

// Bounded runtime check of C15.
func TestVerifC15(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 1515))
	for i := 0; i < verifN(6, 30); i++ {
		src := map[string]string{}
		want := map[string]bool{}
		for k := 0; k < 3; k++ {
			pkg := fmt.Sprintf("p%d", k)
			pre := "m.x/" + pkg + "."
			for file := 0; file < 2; file++ {
				var b strings.Builder
				fmt.Fprintf(&b, "package %s\n\nimport \"unsafe\"\n", pkg)
				if file == 0 {
					b.WriteString(unsafeTypes)
					b.WriteString("type R struct{}\n")
				} else {
					b.WriteString("var _ unsafe.Pointer\n")
				}
				if k > 0 && file == 0 {
					fmt.Fprintf(&b, "import _ \"m.x/p%d\"\n", k-1)
				}
				for f := 0; f < 5; f++ {
					name := fmt.Sprintf("F%d%d", file, f)
					if r.Intn(4) == 0 {
						fmt.Fprintf(&b, "func (R) %s(p unsafe.Pointer, u uintptr) {\n%s}\n", name, unsafeBody(r, "(m.x/"+pkg+".R)."+name, 2, want))
					} else {
						fmt.Fprintf(&b, "func %s(p unsafe.Pointer, u uintptr) {\n%s}\n", name, unsafeBody(r, pre+name, 2, want))
					}
				}
				switch r.Intn(5) {
				case 0:
					fmt.Fprintf(&b, "var V%d = (*int)(unsafe.Pointer((*byte)(nil)))\n", file)
					want[pre+"init"] = true
				case 1:
					fmt.Fprintf(&b, "var (\n\tW%d = 1\n\tV%d = uintptr(unsafe.Pointer(&W%d))\n)\n", file, file, file)
				case 2:
					fmt.Fprintf(&b, "func init() {\n\tvar p unsafe.Pointer; _ = (*int)(p) }\n")
				case 3:
					fmt.Fprintf(&b, "func init() { use(0) }\n")
				}
				src[fmt.Sprintf("%s/f%d.go", pkg, file)] = b.String()
			}
			// Imports come before declarations.
			for name, text := range src {
				if i := strings.Index(text, "import _ "); i >= 0 {
					end := i + strings.Index(text[i:], "\n") + 1
					imp := text[i:end]
					text = text[:i] + text[end:]
					src[name] = strings.Replace(text, "import \"unsafe\"\n", "import \"unsafe\"\n"+imp, 1)
				}
			}
		}
		// Declared init functions are called init#1, init#2 in file order.
		for k := 0; k < 3; k++ {
			n := 0
			for file := 0; file < 2; file++ {
				text := src[fmt.Sprintf("p%d/f%d.go", k, file)]
				if strings.Contains(text, "func init()") {
					n++
					if strings.Contains(text, "func init() {\n\tvar p") {
						want[fmt.Sprintf("m.x/p%d.init#%d", k, n)] = true
					}
				}
			}
		}
		p := loadProg(t, src)
		c := &vClassifier{}
		got := map[string]bool{}
		for f, n := range directly(p, c)[cpb.Capability_CAPABILITY_UNSAFE_POINTER] {
			got[f] = true
			if n != 1 {
				verifFail(t, "%s is reported %d times; program %v", f, n, src)
			}
		}
		names := map[string]bool{}
		for f := range got {
			names[f] = true
		}
		for f := range want {
			names[f] = true
		}
		var all []string
		for f := range names {
			all = append(all, f)
		}
		sort.Strings(all)
		for _, f := range all {
			if got[f] != want[f] {
				m := &vModel{c: c, query: map[string]bool{}}
				verifFail(t, "function %s: marked as converting unsafe pointers %v, want %v; %s", f, got[f], want[f], p.describe(m))
			}
		}
		verifCases++
	}
}
