package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Unsup is panicked with when the code under verification uses a construct
// outside the translated subset.
type Unsup struct{ Msg string }

func unsup(f string, a ...any) { panic(Unsup{fmt.Sprintf(f, a...)}) }

// Kind of a symbolic value.
type Kind int

const (
	KTerm Kind = iota
	KAddr
	KClosure
	KTuple
	KIter
	KFuncParam // unknown function value, known by callback name
)

// Val is the symbolic value of an SSA value.
type Val struct {
	Kind  Kind
	T     types.Type // Go type; nil for ghost values with only a sort
	S     string     // SMT term (KTerm)
	Sort  string
	Addr  *Addr
	Fn    any // *ssa.Function for KClosure
	Binds []Val
	Elems []Val
	Iter  *Iter
	Dyn   *Val // for interface values built from a known value
	// ghost set application (progress sets, ghost arrays)
	Set   *ProgSet
	CB    *Callback
	Lit   string // for string constants: the Go value
	IsLit bool
	Txt   string // for byte slices made from a string: that string
	// known contents of a slice built from a local array
}

type Iter struct {
	Map      Val
	MapT     *types.Map
	SeenComp string
	DomStart string
}

// Addr is a symbolic address: a heap component at a reference (and index),
// followed by a path of struct-field / array-element projections.
type Addr struct {
	Comp string
	Ref  string
	Idx  string     // for slice element components
	Base types.Type // type stored in the component
	Path []pathElem
	T    types.Type // type of the addressed value
}

type pathElem struct {
	strct *types.Struct
	field int
	arr   *types.Array
	aidx  int
	st    types.Type
}

func term(t types.Type, sort, s string) Val { return Val{Kind: KTerm, T: t, S: s, Sort: sort} }

func q(s string) string {
	s = strings.ReplaceAll(s, "|", "!")
	s = strings.ReplaceAll(s, "\\", "!")
	return "|" + s + "|"
}

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" {
			continue
		}
		if x == "false" {
			return "false"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}

func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}

func not(x string) string {
	if x == "true" {
		return "false"
	}
	if x == "false" {
		return "true"
	}
	if strings.HasPrefix(x, "(not ") {
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}

func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if a == b || c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

// curDefs are the defined symbols of the unit being translated whose
// definitions sel and the slice projections look through.
var curDefs = map[string][]string{}
var curAlloc = map[string]bool{}
var curPureSlices = map[string]bool{}
var curExp = map[string]string{}

// canon replaces the symbols in t that stand for loads by their definitions.
func canon(t string) string {
	if e, ok := curExp[t]; ok {
		return e
	}
	if !strings.HasPrefix(t, "(") || len(t) > 400 {
		return t
	}
	d := splitArgs(t)
	for i := range d {
		d[i] = canon(d[i])
	}
	return "(" + strings.Join(d, " ") + ")"
}

func sel(a, i string) string {
	for {
		d := curDefs[a]
		if d == nil && strings.HasPrefix(a, "(store ") {
			d = splitArgs(a)
		}
		if len(d) != 4 || d[0] != "store" {
			break
		}
		if d[2] == i || canon(d[2]) == canon(i) {
			return d[3]
		}
		if !(curAlloc[d[2]] && curAlloc[i]) {
			break
		}
		a = d[1]
	}
	return "(select " + a + " " + i + ")"
}

func store(a, i, v string) string { return "(store " + a + " " + i + " " + v + ")" }

func add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	return "(+ " + a + " " + b + ")"
}

func intLit(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}

// tkey is the canonical name of a Go type.
func tkey(t types.Type) string {
	return types.TypeString(unalias(t), nil)
}

func unalias(t types.Type) types.Type { return types.Unalias(t) }

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

// Ctx accumulates the SMT script for one verification unit.
type Ctx struct {
	decls      []string
	declared   map[string]bool
	lines      []string
	lineOf     map[string]int // symbol -> line index where it was introduced
	obs        []*Obligation
	cands      []*Cand
	candIdx    map[string]*Cand
	dts        map[string]string // sort symbol -> "struct" etc.
	strLits    map[string]string
	litText    map[string]string // the string each literal symbol stands for
	tags       map[string]int
	tagTypes   []types.Type
	alloc      map[string]bool // symbols naming freshly allocated references
	closures   map[string]Val  // closure reference symbol -> closure
	ifaceIs    map[string]bool
	nsym       map[string]int
	sortTypes  map[string]types.Type // declared sort symbol -> its Go type
	inlineDefs bool
}

func newCtx() *Ctx {
	curDefs = map[string][]string{}
	curAlloc = map[string]bool{}
	curPureSlices = map[string]bool{}
	curExp = map[string]string{}
	return &Ctx{
		declared:  map[string]bool{},
		lineOf:    map[string]int{},
		candIdx:   map[string]*Cand{},
		dts:       map[string]string{},
		strLits:   map[string]string{},
		litText:   map[string]string{},
		tags:      map[string]int{},
		alloc:     curAlloc,
		closures:  map[string]Val{},
		ifaceIs:   map[string]bool{},
		nsym:      map[string]int{},
		sortTypes: map[string]types.Type{},
	}
}

const prelude = `(declare-sort Str 0)
(declare-sort Flt 0)
(declare-datatypes ((Slice 0)) (((mk-slice (s.ref Int) (s.off Int) (s.len Int)))))
(declare-datatypes ((Iface 0)) (((mk-iface (i.tag Int) (i.val Int)))))
(declare-datatypes ((Unit 0)) (((unit))))
(declare-fun slen (Str) Int)
(declare-fun slt (Str Str) Bool)
(declare-fun scat (Str Str) Str)
(declare-fun sat (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun closure-of (Int) Int)
(declare-const flt0 Flt)
(assert (forall ((a Str)) (! (>= (slen a) 0) :pattern ((slen a)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str)) (! (not (slt a a)) :pattern ((slt a a)))))
(assert (forall ((a Str) (b Str)) (! (or (= a b) (slt a b) (slt b a)) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str)) (! (not (and (slt a b) (slt b a))) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))
`

func (c *Ctx) decl(key, line string) {
	if c.declared[key] {
		return
	}
	c.declared[key] = true
	c.decls = append(c.decls, line)
}

func (c *Ctx) declFun(name string, args []string, res string) {
	c.decl("fun:"+name, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), res))
}

func (c *Ctx) axiom(key, f string) { c.decl("ax:"+key, "(assert "+f+")") }

// uniq makes name unique within the unit; the same call sequence gives the
// same names on every execution of the unit.
func (c *Ctx) uniq(name string) string {
	n := c.nsym[name]
	c.nsym[name] = n + 1
	if n == 0 {
		return q(name)
	}
	return q(fmt.Sprintf("%s#%d", name, n))
}

func (c *Ctx) fresh(name, sort string) string {
	s := c.uniq(name)
	c.lineOf[s] = len(c.lines)
	c.lines = append(c.lines, fmt.Sprintf("(declare-const %s %s)", s, sort))
	return s
}

func (c *Ctx) define(name, sort, t string) string {
	if !strings.HasPrefix(t, "(") || c.inlineDefs {
		return t
	}
	if len(t) < 24 {
		// small terms stay inline
		if strings.Count(t, "(") == 1 {
			return t
		}
	}
	s := c.uniq(name)
	c.lineOf[s] = len(c.lines)
	if strings.HasPrefix(t, "(select ") || strings.HasPrefix(t, "(i.val ") {
		if e := canon(t); len(e) < 400 {
			curExp[s] = e
		}
	}
	if strings.HasPrefix(t, "(store ") || strings.HasPrefix(t, "(scat ") || sort == "Slice" && strings.HasPrefix(t, "(") {
		curDefs[s] = splitArgs(t)
	}
	if strings.HasPrefix(sort, "(Array") || sort != "Bool" && strings.HasPrefix(t, "(ite ") {
		// heap versions are constants, so that patterns mention them by name
		c.lines = append(c.lines, fmt.Sprintf("(declare-const %s %s)", s, sort), fmt.Sprintf("(assert (= %s %s))", s, t))
		return s
	}
	c.lines = append(c.lines, fmt.Sprintf("(define-fun %s () %s %s)", s, sort, t))
	return s
}

func (c *Ctx) assume(guard, f string) {
	if f == "true" {
		return
	}
	c.lines = append(c.lines, "(assert "+implies(guard, f)+")")
}

// termSyms lists the quoted symbols in a term.
func termSyms(t string) []string {
	var out []string
	for {
		i := strings.IndexByte(t, '|')
		if i < 0 {
			return out
		}
		j := strings.IndexByte(t[i+1:], '|')
		if j < 0 {
			return out
		}
		out = append(out, t[i:i+j+2])
		t = t[i+j+2:]
	}
}

func (c *Ctx) sortOf(t types.Type) string {
	t = unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return "Flt"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		if u.NumFields() == 0 {
			return "Unit"
		}
		name := q("S:" + tkey(structKeyType(t)))
		if _, ok := c.dts[name]; ok {
			return name
		}
		c.dts[name] = "struct"
		c.sortTypes[name] = t
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, fmt.Sprintf("(%s %s)", c.fieldSel(t, i), c.sortOf(u.Field(i).Type())))
		}
		c.decls = append(c.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", name, q("mk:"+tkey(structKeyType(t))), strings.Join(fs, " ")))
		return name
	case *types.Array:
		n := u.Len()
		es := c.sortOf(u.Elem())
		if n > 8 {
			return "(Array Int " + es + ")"
		}
		name := q(fmt.Sprintf("A:%d:%s", n, tkey(u.Elem())))
		if _, ok := c.dts[name]; ok {
			return name
		}
		c.dts[name] = "array"
		c.sortTypes[name] = t
		var fs []string
		for i := 0; i < int(n); i++ {
			fs = append(fs, fmt.Sprintf("(%s %s)", q(fmt.Sprintf("A:%d:%s.%d", n, tkey(u.Elem()), i)), es))
		}
		c.decls = append(c.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", name, q(fmt.Sprintf("mkA:%d:%s", n, tkey(u.Elem()))), strings.Join(fs, " ")))
		return name
	case *types.Tuple:
		unsup("tuple sort")
	}
	unsup("no sort for type %v", t)
	return ""
}

// structKeyType: all struct types with the same name share components; an
// unnamed struct is keyed by its literal type.
func structKeyType(t types.Type) types.Type { return unalias(t) }

func (c *Ctx) fieldSel(t types.Type, i int) string {
	u := under(t).(*types.Struct)
	return q(fmt.Sprintf("S:%s.%s.%d", tkey(structKeyType(t)), u.Field(i).Name(), i))
}

func (c *Ctx) mkStruct(t types.Type, fs []string) string {
	if len(fs) == 0 {
		return "unit"
	}
	c.sortOf(t)
	return "(" + q("mk:"+tkey(structKeyType(t))) + " " + strings.Join(fs, " ") + ")"
}

func (c *Ctx) mkArr(u *types.Array, es []string) string {
	c.sortOf(u)
	if u.Len() == 0 {
		return q(fmt.Sprintf("mkA:%d:%s", u.Len(), tkey(u.Elem())))
	}
	return "(" + q(fmt.Sprintf("mkA:%d:%s", u.Len(), tkey(u.Elem()))) + " " + strings.Join(es, " ") + ")"
}

func (c *Ctx) arrSel(u *types.Array, i int) string {
	return q(fmt.Sprintf("A:%d:%s.%d", u.Len(), tkey(u.Elem()), i))
}

func (c *Ctx) zero(t types.Type) string {
	switch s := c.sortOf(t); s {
	case "Bool":
		return "false"
	case "Int":
		return "0"
	case "Str":
		return c.strLit("")
	case "Flt":
		return "flt0"
	case "Slice":
		return "(mk-slice 0 0 0)"
	case "Iface":
		return "(mk-iface 0 0)"
	case "Unit":
		return "unit"
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, c.zero(u.Field(i).Type()))
		}
		return c.mkStruct(t, fs)
	case *types.Array:
		if u.Len() > 8 {
			return fmt.Sprintf("((as const %s) %s)", c.sortOf(t), c.zero(u.Elem()))
		}
		var fs []string
		for i := 0; i < int(u.Len()); i++ {
			fs = append(fs, c.zero(u.Elem()))
		}
		return c.mkArr(u, fs)
	}
	unsup("zero of %v", t)
	return ""
}

func (c *Ctx) strLit(s string) string {
	if x, ok := c.strLits[s]; ok {
		return x
	}
	x := q(fmt.Sprintf("str:%q", s))
	if c.declared["sym:"+x] {
		x = q(fmt.Sprintf("str:%q:%d", s, len(c.strLits)))
	}
	c.declared["sym:"+x] = true
	c.strLits[s] = x
	c.litText[x] = s
	c.decls = append(c.decls, fmt.Sprintf("(declare-const %s Str)", x))
	c.decls = append(c.decls, fmt.Sprintf("(assert (= (slen %s) %d))", x, len(s)))
	for i := 0; i < len(s) && i < 3; i++ {
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (sat %s %d) %d))", x, i, s[i]))
	}
	if s == "" {
		c.decls = append(c.decls, fmt.Sprintf("(assert (forall ((a Str)) (! (=> (= (slen a) 0) (= a %s)) :pattern ((slen a)))))", x))
	}
	return x
}

func (c *Ctx) strDistinct() string {
	if len(c.strLits) < 2 {
		return ""
	}
	var xs []string
	for _, x := range c.strLits {
		xs = append(xs, x)
	}
	sort.Strings(xs)
	return "(assert (distinct " + strings.Join(xs, " ") + "))"
}

// tagOf returns the type tag used in interface values holding a value of the
// concrete type t.
func (c *Ctx) tagOf(t types.Type) string {
	k := tkey(t)
	n, ok := c.tags[k]
	if !ok {
		n = len(c.tags) + 1
		c.tags[k] = n
		c.tagTypes = append(c.tagTypes, t)
	}
	return fmt.Sprint(n)
}

func isPtrLike(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// box / unbox convert a value to and from the payload of an interface value.
func (c *Ctx) box(t types.Type, v string) string {
	if isPtrLike(t) {
		return v
	}
	s := c.sortOf(t)
	b, ub := q("box:"+tkey(t)), q("unbox:"+tkey(t))
	c.declFun(b, []string{s}, "Int")
	c.declFun(ub, []string{"Int"}, s)
	c.axiom("box:"+tkey(t), fmt.Sprintf("(forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x))))", s, ub, b, b))
	return "(" + b + " " + v + ")"
}

func (c *Ctx) unbox(t types.Type, v string) string {
	if isPtrLike(t) {
		return v
	}
	c.box(t, "0") // declare
	return "(" + q("unbox:"+tkey(t)) + " " + v + ")"
}
