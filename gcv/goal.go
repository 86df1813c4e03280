package main

import (
	"fmt"
	"regexp"
	"strings"
)

// negated is the text asserting the negation of a goal. Quantifiers at the
// outside of the goal are instantiated with new constants, and the terms of
// their patterns are mentioned so that they are there to be matched.
func (s *Solver) negated(goal string) string {
	n := 0
	var decls, mentions []string
	sorts := map[string]string{}
	var peel func(g string) string
	peel = func(g string) string {
		switch {
		case strings.HasPrefix(g, "(and "):
			a := splitArgs(g)
			for i := 1; i < len(a); i++ {
				a[i] = peel(a[i])
			}
			return "(" + strings.Join(a, " ") + ")"
		case strings.HasPrefix(g, "(=> "):
			a := splitArgs(g)
			a[2] = peel(a[2])
			return "(" + strings.Join(a, " ") + ")"
		case strings.HasPrefix(g, "(forall "):
			a := splitArgs(g)
			body := a[2]
			var pats []string
			if strings.HasPrefix(body, "(! ") {
				b := splitArgs(body)
				body = b[1]
				for i := 2; i+1 < len(b); i += 2 {
					if b[i] == ":pattern" {
						pats = append(pats, splitArgs(b[i+1])...)
					}
				}
			}
			for _, v := range splitArgs(a[1]) {
				p := splitArgs(v)
				c := q(fmt.Sprintf("sk!%s!%d", p[0], n))
				n++
				so := strings.Join(p[1:], " ")
				decls = append(decls, fmt.Sprintf("(declare-const %s %s)\n", c, so))
				sorts[c] = so
				body = replaceTok(body, p[0], c)
				for i := range pats {
					pats[i] = replaceTok(pats[i], p[0], c)
				}
			}
			mentions = append(mentions, pats...)
			return peel(body)
		}
		return g
	}
	g := peel(goal)
	if n == 0 {
		return fmt.Sprintf("(assert (not %s))\n", goal)
	}
	out := strings.Join(decls, "")
	seen := map[string]bool{}
	for _, m := range mentions {
		if seen[m] || strings.Contains(m, "(ite ") {
			continue
		}
		seen[m] = true
		so := s.sortOfTerm(m, sorts)
		if so == "" {
			continue
		}
		f := q("mention!" + strings.ReplaceAll(so, "|", "!"))
		if !seen[f] {
			seen[f] = true
			out += fmt.Sprintf("(declare-fun %s (%s) Bool)\n", f, so)
		}
		out += fmt.Sprintf("(assert (%s %s))\n", f, m)
	}
	return out + fmt.Sprintf("(assert (not %s))\n", g)
}

// replaceTok replaces the symbol a by b.
func replaceTok(t, a, b string) string {
	var out strings.Builder
	for i := 0; i < len(t); {
		c := t[i]
		if c == '(' || c == ')' || c == ' ' {
			out.WriteByte(c)
			i++
			continue
		}
		j := i
		if c == '|' {
			j = i + 1 + strings.IndexByte(t[i+1:], '|') + 1
		} else {
			for j < len(t) && t[j] != '(' && t[j] != ')' && t[j] != ' ' {
				j++
			}
		}
		if t[i:j] == a {
			out.WriteString(b)
		} else {
			out.WriteString(t[i:j])
		}
		i = j
	}
	return out.String()
}

var declRE = regexp.MustCompile(`^\((declare-const|declare-fun|define-fun) (\|[^|]*\||[^ ]+) `)

// sortOfTerm is the sort of a term, or "" if it is not known.
func (s *Solver) sortOfTerm(t string, local map[string]string) string {
	syms := s.sorts()
	if so := local[t]; so != "" {
		return so
	}
	if !strings.HasPrefix(t, "(") {
		if so := syms[t]; so != "" {
			return so
		}
		if t != "" && t[0] >= '0' && t[0] <= '9' {
			return "Int"
		}
		return ""
	}
	a := splitArgs(t)
	switch a[0] {
	case "select":
		so := s.sortOfTerm(a[1], local)
		if !strings.HasPrefix(so, "(Array ") {
			return ""
		}
		return arrayElemSort(so)
	case "store":
		return s.sortOfTerm(a[1], local)
	case "+", "-", "*":
		return "Int"
	}
	return syms[a[0]]
}

// sorts gives the sorts of the symbols of the translation.
func (s *Solver) sorts() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.symSort == nil {
		s.symSort = map[string]string{"s.ref": "Int", "s.off": "Int", "s.len": "Int", "i.tag": "Int", "i.val": "Int", "slen": "Int", "scat": "Str", "ssub": "Str", "sat": "Int", "mk-slice": "Slice", "mk-iface": "Iface"}
		for _, ls := range [][]string{s.x.c.decls, s.x.c.lines} {
			for _, l := range ls {
				m := declRE.FindStringSubmatch(l)
				if m == nil {
					if strings.HasPrefix(l, "(declare-datatypes ") {
						a := splitArgs(l)
						name := splitArgs(splitArgs(a[1])[0])[0]
						for _, con := range splitArgs(splitArgs(a[2])[0]) {
							if !strings.HasPrefix(con, "(") {
								s.symSort[con] = name
								continue
							}
							c := splitArgs(con)
							s.symSort[c[0]] = name
							for _, f := range c[1:] {
								if !strings.HasPrefix(f, "(") {
									continue
								}
								p := splitArgs(f)
								s.symSort[p[0]] = strings.Join(p[1:], " ")
							}
						}
					}
					continue
				}
				a := splitArgs(l)
				if m[1] == "declare-const" {
					s.symSort[m[2]] = a[2]
				} else {
					s.symSort[m[2]] = a[3]
				}
			}
		}
	}
	return s.symSort
}
