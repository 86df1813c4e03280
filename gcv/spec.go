package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
)

// ---- contract expression AST ----

type Expr struct {
	Op   string // "id","int","str","forall","exists","field","index","call","un","bin","ite","old","typetest","assert"
	Name string
	Args []*Expr
	Vars []TVar
	Trig []*Expr
	Line int
}

type TVar struct {
	Name string
	Kind string // "", "done", "rng", "phi", "enc", "cb", "local", "param"
	Type string
}

func (e *Expr) String() string {
	switch e.Op {
	case "id", "int":
		return e.Name
	case "str":
		return strconv.Quote(e.Name)
	case "field":
		return e.Args[0].String() + "." + e.Name
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "slice":
		s := e.Args[0].String() + "[" + e.Args[1].String() + ":"
		if len(e.Args) > 2 {
			s += e.Args[2].String()
		}
		return s + "]"
	case "call":
		var a []string
		for _, x := range e.Args[1:] {
			a = append(a, x.String())
		}
		return e.Args[0].String() + "(" + strings.Join(a, ", ") + ")"
	case "un":
		return e.Name + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "forall", "exists":
		var vs []string
		for _, v := range e.Vars {
			vs = append(vs, v.Name+" "+v.Type)
		}
		return "(" + e.Op + " " + strings.Join(vs, ", ") + " :: " + e.Args[0].String() + ")"
	case "is":
		return e.Args[0].String() + " is " + e.Name
	case "as":
		return e.Args[0].String() + ".(" + e.Name + ")"
	}
	return e.Op
}

// ---- lexer ----

type tok struct {
	k string // id int str op eof
	s string
}

type parser struct {
	toks []tok
	pos  int
	src  string
}

func lex(src string) []tok {
	var out []tok
	i := 0
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r':
			i++
		case ch == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(ch)) || ch == '_' || ch == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		case unicode.IsDigit(rune(ch)):
			j := i
			for j < len(src) && unicode.IsDigit(rune(src[j])) {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
		case ch == '\'':
			out = append(out, tok{"int", fmt.Sprint(int(src[i+1]))})
			i += 3
		case ch == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("bad string %s", src[i:j+1]))
			}
			out = append(out, tok{"str", s})
			i = j + 1
		default:
			for _, op := range []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||"} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					goto next
				}
			}
			out = append(out, tok{"op", string(ch)})
			i++
		next:
		}
	}
	return append(out, tok{"eof", ""})
}

func (p *parser) peek() tok { return p.toks[p.pos] }
func (p *parser) next() tok { t := p.toks[p.pos]; p.pos++; return t }
func (p *parser) accept(s string) bool {
	if t := p.peek(); t.k != "str" && t.s == s {
		p.pos++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("contract syntax: expected %q, got %q in: %s", s, p.peek().s, p.src))
	}
}

// parseType parses a Go type expression and returns its text.
func (p *parser) parseType() string {
	t := p.next()
	switch {
	case t.s == "*":
		return "*" + p.parseType()
	case t.s == "[":
		if p.accept("]") {
			return "[]" + p.parseType()
		}
		n := p.next()
		p.expect("]")
		return "[" + n.s + "]" + p.parseType()
	case t.s == "map":
		p.expect("[")
		k := p.parseType()
		p.expect("]")
		return "map[" + k + "]" + p.parseType()
	case t.s == "struct":
		p.expect("{")
		p.expect("}")
		return "struct{}"
	case t.s == "func":
		p.expect("(")
		p.expect(")")
		return "func()"
	case t.k == "id":
		s := t.s
		if p.accept(".") {
			s += "." + p.next().s
		}
		return s
	}
	panic(fmt.Sprintf("contract syntax: bad type at %q in: %s", t.s, p.src))
}

func (p *parser) parseVars(end string) []TVar {
	var vs []TVar
	for !p.accept(end) {
		v := TVar{Name: p.next().s}
		switch p.peek().s {
		case "done", "rng", "phi", "enc", "cb", "local", "param":
			v.Kind = p.next().s
		}
		v.Type = p.parseType()
		vs = append(vs, v)
		p.accept(",")
	}
	return vs
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "is": 6, "+": 7, "-": 7, "*": 8}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k == "str" || t.k == "int" || t.k == "eof" {
			return l
		}
		if t.s == "?" && min <= 0 {
			p.next()
			a := p.expr(0)
			p.expect(":")
			b := p.expr(0)
			l = &Expr{Op: "ite", Args: []*Expr{l, a, b}}
			continue
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		if t.s == "is" {
			l = &Expr{Op: "is", Args: []*Expr{l}, Name: p.parseType()}
			continue
		}
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		l = &Expr{Op: "bin", Name: t.s, Args: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k != "str" {
		switch t.s {
		case "!", "-":
			p.next()
			return &Expr{Op: "un", Name: t.s, Args: []*Expr{p.unary()}}
		case "*":
			p.next()
			return &Expr{Op: "un", Name: "*", Args: []*Expr{p.unary()}}
		case "forall", "exists":
			p.next()
			e := &Expr{Op: t.s}
			var vs []TVar
			for !p.accept("::") {
				if p.accept("{") {
					for !p.accept("}") {
						e.Trig = append(e.Trig, p.expr(0))
						p.accept(",")
					}
					continue
				}
				v := TVar{Name: p.next().s}
				v.Type = p.parseType()
				vs = append(vs, v)
				p.accept(",")
			}
			e.Vars = vs
			e.Args = []*Expr{p.expr(0)}
			return e
		}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{Op: "int", Name: t.s}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "id":
		return &Expr{Op: "id", Name: t.s}
	}
	if t.s == "(" {
		e := p.expr(0)
		p.expect(")")
		return e
	}
	panic(fmt.Sprintf("contract syntax: unexpected %q in: %s", t.s, p.src))
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			if p.accept("(") {
				ty := p.parseType()
				p.expect(")")
				e = &Expr{Op: "as", Name: ty, Args: []*Expr{e}}
				continue
			}
			e = &Expr{Op: "field", Name: p.next().s, Args: []*Expr{e}}
		case p.accept("["):
			i := p.expr(0)
			if p.accept(":") {
				e = &Expr{Op: "slice", Args: []*Expr{e, i}}
				if !p.accept("]") {
					e.Args = append(e.Args, p.expr(0))
					p.expect("]")
				}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
		case p.accept("("):
			args := []*Expr{e}
			for !p.accept(")") {
				args = append(args, p.expr(0))
				p.accept(",")
			}
			e = &Expr{Op: "call", Args: args}
		default:
			return e
		}
	}
}

// tracesEvents reports whether the contract describes the function's event
// trace. Such functions are inlined by their callers, whose traces include
// theirs.
func (c *Contract) tracesEvents() bool { return c.traces }

// findTraces sets what tracesEvents reports.
func (w *World) findTraces() {
	var mentions func(pkg string, e *Expr) bool
	mentions = func(pkg string, e *Expr) bool {
		if e.Op == "call" && e.Args[0].Op == "id" {
			n := e.Args[0].Name
			if n == "emitted" || n == "output" {
				return true
			}
			if f := w.specFn(pkg, n); f != nil && f.Body != nil && mentions(pkg, f.Body) {
				return true
			}
		}
		for _, a := range e.Args {
			if mentions(pkg, a) {
				return true
			}
		}
		return false
	}
	for c, sf := range w.specOf {
		for _, e := range c.Ensures {
			if mentions(sf.Pkg, e.E) {
				c.traces, e.traces = true, true
			}
		}
	}
}

func parseExpr(src string) *Expr {
	p := &parser{toks: lex(src), src: src}
	e := p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("contract syntax: trailing %q in: %s", p.peek().s, src))
	}
	return e
}

// ---- contract files ----

type Clause struct {
	Label  string
	E      *Expr
	Src    string
	traces bool // about the function's own events
}

type Template struct {
	Label string
	Vars  []TVar
	E     *Expr
	Src   string
	In    string // only for loops of this function, where it is inlined
}

type ModClause struct {
	Type string
	Var  string
	E    *Expr
}

type CallbackSpec struct {
	Name     string
	Params   []string
	Requires []*Clause
	Key      []*Expr // arguments forming the key; "once"
	Once     bool // at most one call per key
	Records  bool // calls are recorded by key
	Opt      bool // may be nil
	Shared   bool // a captured variable; the record of calls is part of the state
	Assumes  []*Clause
	Sets     []GhostSet
	Result   *Expr
	CheckRes *Clause
	Class    *Expr // calls for which it holds are counted separately
}

// GhostSet assigns a ghost variable when a callback is invoked.
type GhostSet struct {
	Name string
	E    *Expr
}

// EventSpec records an observable action in a ghost event set of the unit.
type EventSpec struct {
	Name string
	Args []*Expr
}

type SpecFn struct {
	Name   string
	Params []TVar
	Result string
	Body   *Expr // macro definition, or nil if uninterpreted
}

type Lfp struct {
	Name  string
	Index []TVar
	Elem  TVar
	Src   *Expr
	StepV []TVar
	// step: Reach(idx, from) && guard ==> Reach(idx, to)
	From, To, Guard *Expr
	// minimality is stated for sets disjoint from the fixpoint instead of
	// sets containing it
	Co bool
	// the index is the only source, so the relation is transitive
	Trans bool
	// state that the fixpoint is empty if there is no source
	Some bool
	// minimality is stated for the sets marked with induct only
	Marked bool
}

type Contract struct {
	Fn        string // qualified name as printed by ssa
	Params    []string
	Results   []string
	Requires  []*Clause
	Ensures   []*Clause
	Modifies  []*ModClause
	Invs      []*Template
	Callbacks []*CallbackSpec
	Trusted   bool
	Pure      bool
	Inline    bool
	NoBounds  bool
	FreeRead  bool            // may be called through a recorded closure
	Opaque    map[string]bool // axioms not needed given the contracts of callees
	File      string
	Ghost     []string
	Lemmas    []*Clause
	Initial   []string // variables whose initial value is used
	Optional  bool
	Assumes   []*Clause
	Events    []*EventSpec
	NoReturn  bool
	KeepLits  bool
	PrintOnce bool
	traces    bool
	Lemma     bool // a statement proved on its own, not about a function
	PureVals  bool // function values it calls are pure
}

// GhostField is a specification-only field of a struct type.
type GhostField struct{ Type, Name, Res string }

type PropSpec struct {
	ID    string
	Units []string
}

type SpecFile struct {
	Path        string
	Pkg         string // import path of package whose scope resolves names
	Contracts   []*Contract
	Fns         []*SpecFn
	Axioms      []*Clause
	Pures       []string
	NoEffect    []string
	Lfps        []*Lfp
	Lemmas      []*Clause
	Templates   []*Template
	Inlines     []string
	GhostFields []GhostField
}

var clauseKw = map[string]bool{"package": true, "func": true, "spec": true, "def": true, "axiom": true, "lfp": true, "pure": true, "noeffect": true,
	"requires": true, "ensures": true, "modifies": true, "invariant": true, "callback": true, "once": true, "cbrequires": true, "trusted": true,
	"nobounds": true, "opaque": true, "lemma": true, "inline": true, "ghost": true, "template": true, "pureresult": true, "optional": true, "assumes": true, "cbset": true, "class": true, "records": true, "cbresult": true, "cbensures": true, "event": true, "noreturn": true, "keeplits": true, "printonce": true, "purevalues": true, "ghostfield": true, "initial": true}

func takeLabel(s string) (string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		return s[1:i], strings.TrimSpace(s[i+1:])
	}
	return "", s
}

func parseTemplate(rest string) *Template {
	lbl, r := takeLabel(rest)
	t := &Template{Label: lbl, Src: r}
	if f, ok := strings.CutPrefix(r, "in "); ok {
		t.In, r, _ = strings.Cut(f, " ")
	}
	p := &parser{toks: lex(r), src: r}
	if p.accept("(") {
		t.Vars = p.parseVars(")")
	}
	p.expect("::")
	t.E = p.expr(0)
	if p.peek().k != "eof" {
		panic("contract syntax: trailing tokens in template " + r)
	}
	return t
}

// mentionsVar reports whether e contains the identifier n.
func mentionsVar(e *Expr, n string) bool {
	if e.Op == "id" && e.Name == n {
		return true
	}
	for _, a := range e.Args {
		if a != nil && mentionsVar(a, n) {
			return true
		}
	}
	return false
}

func parseSpecFile(path string) *SpecFile {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	sf := &SpecFile{Path: path}
	type stmt struct{ kw, rest string }
	var stmts []stmt
	for _, ln := range strings.Split(string(b), "\n") {
		tr := strings.TrimSpace(ln)
		if strings.HasPrefix(tr, "//") || tr == "" {
			continue
		}
		w := tr
		if i := strings.IndexAny(tr, " \t"); i >= 0 {
			w = tr[:i]
		}
		if clauseKw[w] {
			stmts = append(stmts, stmt{w, strings.TrimSpace(tr[len(w):])})
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1].rest += "\n" + tr
		} else {
			panic("contract syntax: " + path + ": " + tr)
		}
	}
	var cur *Contract
	var cb *CallbackSpec
	clause := func(rest string) *Clause {
		l, r := takeLabel(rest)
		return &Clause{Label: l, E: parseExpr(r), Src: r}
	}
	for _, s := range stmts {
		switch s.kw {
		case "package":
			sf.Pkg = s.rest
		case "func":
			// name(params) (results)
			cur = &Contract{File: path}
			cb = nil
			r := s.rest
			// function name: up to the "(" that opens the parameter list; method
			// names are written (T).m or (*T).m
			i := 0
			if strings.HasPrefix(r, "(") {
				i = strings.Index(r, ")") + 1
			}
			j := strings.Index(r[i:], "(") + i
			cur.Fn = strings.TrimSpace(r[:j])
			k := strings.Index(r[j:], ")") + j
			for _, x := range strings.Split(r[j+1:k], ",") {
				if x = strings.TrimSpace(x); x != "" {
					cur.Params = append(cur.Params, x)
				}
			}
			rest := strings.TrimSpace(r[k+1:])
			rest = strings.Trim(rest, "()")
			for _, x := range strings.Split(rest, ",") {
				if x = strings.TrimSpace(x); x != "" {
					cur.Results = append(cur.Results, x)
				}
			}
			sf.Contracts = append(sf.Contracts, cur)
		case "requires":
			cur.Requires = append(cur.Requires, clause(s.rest))
		case "ensures":
			cur.Ensures = append(cur.Ensures, clause(s.rest))
		case "modifies":
			// Type r :: expr
			p := &parser{toks: lex(s.rest), src: s.rest}
			m := &ModClause{Type: p.parseType()}
			if p.accept(".") {
				m.Type += "." + p.next().s
			}
			m.Var = p.next().s
			p.expect("::")
			m.E = p.expr(0)
			cur.Modifies = append(cur.Modifies, m)
		case "invariant":
			cur.Invs = append(cur.Invs, parseTemplate(s.rest))
		case "template":
			sf.Templates = append(sf.Templates, parseTemplate(s.rest))
		case "callback":
			p := &parser{toks: lex(s.rest), src: s.rest}
			cb = &CallbackSpec{Name: p.next().s}
			p.expect("(")
			for !p.accept(")") {
				cb.Params = append(cb.Params, p.next().s)
				p.accept(",")
			}
			if p.accept("optional") {
				cb.Opt = true
			}
			if p.accept("shared") {
				cb.Shared = true
			}
			cur.Callbacks = append(cur.Callbacks, cb)
		case "cbrequires":
			cb.Requires = append(cb.Requires, clause(s.rest))
		case "once", "records":
			p := &parser{toks: lex(s.rest), src: s.rest}
			cb.Once, cb.Records = s.kw == "once", true
			p.expect("(")
			for !p.accept(")") {
				cb.Key = append(cb.Key, p.expr(0))
				p.accept(",")
			}
		case "assumes":
			cl := clause(s.rest)
			if cb != nil {
				cb.Assumes = append(cb.Assumes, cl)
			} else {
				cur.Assumes = append(cur.Assumes, cl)
			}
		case "cbset":
			p := &parser{toks: lex(s.rest), src: s.rest}
			g := GhostSet{Name: p.next().s}
			p.expect(":=")
			g.E = p.expr(0)
			cb.Sets = append(cb.Sets, g)
		case "class":
			cb.Class = parseExpr(s.rest)
		case "cbresult":
			cb.Result = parseExpr(s.rest)
		case "cbensures":
			cb.CheckRes = clause(s.rest)
		case "event":
			p := &parser{toks: lex(s.rest), src: s.rest}
			e := &EventSpec{Name: p.next().s}
			p.expect("(")
			for !p.accept(")") {
				e.Args = append(e.Args, p.expr(0))
				p.accept(",")
			}
			cur.Events = append(cur.Events, e)
		case "ghostfield":
			p := &parser{toks: lex(s.rest), src: s.rest}
			g := GhostField{Type: p.parseType()}
			g.Name = p.next().s
			g.Res = p.parseType()
			sf.GhostFields = append(sf.GhostFields, g)
		case "noreturn":
			cur.NoReturn = true
		case "purevalues":
			cur.PureVals = true
		case "printonce":
			cur.PrintOnce = true
		case "keeplits":
			cur.KeepLits = true
		case "trusted":
			cur.Trusted = true
		case "pureresult":
			cur.Pure = true
		case "nobounds":
			cur.NoBounds = true
		case "optional":
			cur.Optional = true
		case "initial":
			cur.Initial = append(cur.Initial, strings.Fields(s.rest)...)
		case "inline":
			if s.rest != "" {
				sf.Inlines = append(sf.Inlines, strings.Fields(s.rest)...)
			} else {
				cur.Inline = true
			}
		case "opaque":
			if cur.Opaque == nil {
				cur.Opaque = map[string]bool{}
			}
			for _, l := range strings.Fields(s.rest) {
				cur.Opaque[l] = true
			}
		case "pure":
			sf.Pures = append(sf.Pures, strings.Fields(s.rest)...)
		case "noeffect":
			sf.NoEffect = append(sf.NoEffect, strings.Fields(s.rest)...)
		case "spec", "def":
			p := &parser{toks: lex(s.rest), src: s.rest}
			f := &SpecFn{Name: p.next().s}
			p.expect("(")
			f.Params = p.parseVars(")")
			f.Result = p.parseType()
			if p.accept(":=") {
				f.Body = p.expr(0)
				if p.peek().k != "eof" {
					panic("contract syntax: trailing tokens in def " + s.rest)
				}
			}
			sf.Fns = append(sf.Fns, f)
		case "axiom":
			sf.Axioms = append(sf.Axioms, clause(s.rest))
		case "lemma":
			cl := clause(s.rest)
			cur = &Contract{File: path, Fn: "lemma:" + cl.Label, Lemma: true, Ensures: []*Clause{cl}}
			cb = nil
			sf.Contracts = append(sf.Contracts, cur)
		case "lfp":
			// Name(idx.., elem T) source <expr> step (vars) from <expr> to <expr> when <expr>
			p := &parser{toks: lex(s.rest), src: s.rest}
			l := &Lfp{Name: p.next().s}
			p.expect("(")
			vs := p.parseVars(")")
			l.Index, l.Elem = vs[:len(vs)-1], vs[len(vs)-1]
			if p.peek().s == "co" {
				p.next()
				l.Co = true
			}
			if p.peek().s == "some" {
				p.next()
				l.Some = true
			}
			if p.peek().s == "marked" {
				p.next()
				l.Marked = true
			}
			if p.peek().s == "trans" {
				p.next()
				l.Trans = true
			}
			p.expect("source")
			l.Src = p.expr(0)
			p.expect("step")
			p.expect("(")
			l.StepV = p.parseVars(")")
			p.expect("from")
			l.From = p.expr(0)
			p.expect("to")
			l.To = p.expr(0)
			p.expect("when")
			l.Guard = p.expr(0)
			if l.Trans {
				e, ok := l.Src, len(l.Index) == 1 && l.Index[0].Type == l.Elem.Type
				ok = ok && e.Op == "bin" && e.Name == "==" && e.Args[0].Op == "id" && e.Args[1].Op == "id" && e.Args[0].Name == l.Elem.Name && e.Args[1].Name == l.Index[0].Name
				for _, v := range l.StepV {
					// so that the step cannot depend on the index
					ok = ok && v.Name != l.Index[0].Name
				}
				for _, s := range []*Expr{l.From, l.To, l.Guard} {
					ok = ok && !mentionsVar(s, l.Index[0].Name)
				}
				if !ok {
					panic("contract syntax: " + l.Name + " is not of the form that is transitive")
				}
			}
			sf.Lfps = append(sf.Lfps, l)
		}
	}
	return sf
}
