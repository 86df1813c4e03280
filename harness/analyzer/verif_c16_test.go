package analyzer_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	cpb "github.com/google/capslock/proto"
)

// Types and whether a value of the type contains a reflect.Value.
var reflectTypes = []struct {
	name string
	has  bool
}{
	{"reflect.Value", true},
	{"A0", true},
	{"N0", true},
	{"S1", true},
	{"S2", true},
	{"S3", true},
	{"Arr", true},
	{"Arr2", true},
	{"E", true},
	{"Gen[reflect.Value]", true},
	{"[2]S1", true},
	{"struct{ x [1]A0 }", true},
	{"int", false},
	{"P", false},
	{"*reflect.Value", false},
	{"[]reflect.Value", false},
	{"map[string]reflect.Value", false},
	{"chan reflect.Value", false},
	{"func() reflect.Value", false},
	{"interface{}", false},
	{"Gen[int]", false},
	{"Rec", false},
	{"reflect.Kind", false},
	{"struct{ x *S1 }", false},
}

const reflectDecls = `
type A0 = reflect.Value
type N0 S1
type S1 struct { a int; v reflect.Value }
type S2 struct { s S1 }
type S3 struct { a int; b [2]S2 }
type Arr [3]reflect.Value
type Arr2 [2]struct { n int; a Arr }
type E struct { reflect.Value }
type Gen[T any] struct { x T }
type P struct { p *reflect.Value; s []S1 }
type Rec struct { next *Rec; p *S1 }
func use(interface{}) {}
func Asm0()
func Asm1(int) int
type R struct{}
func (R) Asm2()
`

// Stores to t, in a function with x T and q *T as parameters.
var reflectStores = []struct {
	text  string
	store bool
}{
	{"*q = x", true},
	{"Global%d = x", true},
	{"w := &Wrap%d{}; w.f = x; use(w)", true},
	{"s := make([]T%d, 2); s[1] = x; use(s)", true},
	{"var y T%d; y = x; _ = y", false},
	{"var a [3]T%d; a[0] = x; _ = a[1]", false},
	{"var y Wrap%d; y.f = x; _ = y.f", false},
	{"m := map[int]T%d{}; m[0] = x; use(m)", false},
	{"z := *q; _ = z", false},
	{"var y struct { w [2]Wrap%d }; y.w[1].f = x; _ = y.w[0].f", false},
	{"y := x; use(&y)", true},
	{"GlobalW%d.f = x", true},
}

// Bounded runtime check of C16.
func TestVerifC16(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 1616))
	var b strings.Builder
	b.WriteString("package p0\n\nimport \"reflect\"\n")
	b.WriteString(reflectDecls)
	want := map[string]bool{}
	for i, typ := range reflectTypes {
		fmt.Fprintf(&b, "type T%d = %s\ntype Wrap%d struct { n int; f T%d }\nvar Global%d T%d\nvar GlobalW%d Wrap%d\n", i, typ.name, i, i, i, i, i, i)
		for k, s := range reflectStores {
			text := s.text
			if strings.Contains(text, "%d") {
				text = fmt.Sprintf(text, i)
			}
			name := fmt.Sprintf("F%dx%d", i, k)
			if r.Intn(2) == 0 {
				text = "var loc [4]int; loc[n&3] = n; " + text + "; _ = loc[n&1]"
			}
			if r.Intn(3) == 0 {
				text = "if n > 0 { " + text + " }"
			}
			if r.Intn(4) == 0 {
				text = "for i := 0; i < n; i++ { " + text + " }"
			}
			fmt.Fprintf(&b, "func %s(n int, x T%d, q *T%d) { %s }\n", name, i, i, text)
			if s.store && typ.has {
				want["m.x/p0."+name] = true
			}
		}
	}
	src := map[string]string{"p0/a.go": b.String(), "p0/a.s": "", "p1/a.go": "package p1\nimport \"m.x/p0\"\nfunc F() { p0.Asm0() }\n"}
	p := loadProg(t, src)
	c := &vClassifier{}
	d := directly(p, c)
	for i := range reflectTypes {
		for k := range reflectStores {
			f := fmt.Sprintf("m.x/p0.F%dx%d", i, k)
			if got := d[cpb.Capability_CAPABILITY_REFLECT][f] > 0; got != want[f] {
				line := ""
				for _, l := range strings.Split(b.String(), "\n") {
					if strings.HasPrefix(l, fmt.Sprintf("func F%dx%d(", i, k)) {
						line = l
					}
				}
				verifFail(t, "type %s: %s: has the reflect capability %v, want %v", reflectTypes[i].name, line, got, want[f])
			}
			verifCases++
		}
	}
	asm := map[string]int{"m.x/p0.Asm0": 1, "m.x/p0.Asm1": 1, "(m.x/p0.R).Asm2": 1}
	got := d[cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION]
	if diff := diffCounts(got, asm); diff != "" {
		verifFail(t, "functions with the arbitrary-execution capability: %s; the bodiless functions are %v", diff, asm)
	}
	if len(d[cpb.Capability_CAPABILITY_UNSAFE_POINTER]) != 0 {
		verifFail(t, "functions without conversions have the unsafe pointer capability: %v", d[cpb.Capability_CAPABILITY_UNSAFE_POINTER])
	}
	verifCases++
	// The unsafe pointer capability, and functions with several.
	p = loadProg(t, extraProgram)
	d = directly(p, c)
	for _, n := range p.g.nodes {
		if !strings.HasPrefix(n.path, "m.x/") || n.pkg == "" {
			continue
		}
		e := extraOf(p.g)[n.name]
		for _, k := range []cpb.Capability{cpb.Capability_CAPABILITY_UNSAFE_POINTER, cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, cpb.Capability_CAPABILITY_REFLECT} {
			if got := d[k][n.name] > 0; got != e[k] {
				verifFail(t, "function %s: capability %v %v, want %v; program %v", n.name, k, got, e[k], extraProgram)
			}
		}
		verifCases++
	}
}
