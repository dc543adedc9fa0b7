package main

import (
	"os"
	"strings"
)

// The obligations are simplified before they go to a solver: a projection of
// a constructor is replaced by the argument.  Why3 leaves such terms behind in
// quantifier patterns, where they keep the pattern from matching.

type sx struct {
	atom string
	list []*sx
}

func (s *sx) isList() bool { return s.atom == "" }

func (s *sx) head() string {
	if len(s.list) > 0 {
		return s.list[0].atom
	}
	return ""
}

func (s *sx) write(b *strings.Builder) {
	if !s.isList() {
		b.WriteString(s.atom)
		return
	}
	b.WriteByte('(')
	for i, x := range s.list {
		if i > 0 {
			b.WriteByte(' ')
		}
		x.write(b)
	}
	b.WriteByte(')')
}

type sxParser struct {
	t string
	i int
}

func (p *sxParser) space() {
	for p.i < len(p.t) {
		c := p.t[p.i]
		if c == ';' {
			for p.i < len(p.t) && p.t[p.i] != '\n' {
				p.i++
			}
		} else if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			p.i++
		} else {
			return
		}
	}
}

func (p *sxParser) parse() *sx {
	p.space()
	if p.i >= len(p.t) {
		return nil
	}
	if p.t[p.i] == '(' {
		p.i++
		n := &sx{}
		for {
			p.space()
			if p.i >= len(p.t) {
				return nil
			}
			if p.t[p.i] == ')' {
				p.i++
				return n
			}
			x := p.parse()
			if x == nil {
				return nil
			}
			n.list = append(n.list, x)
		}
	}
	j := p.i
	switch p.t[j] {
	case '"':
		p.i++
		for p.i < len(p.t) && p.t[p.i] != '"' {
			p.i++
		}
		p.i++
	case '|':
		p.i++
		for p.i < len(p.t) && p.t[p.i] != '|' {
			p.i++
		}
		p.i++
	default:
		for p.i < len(p.t) && !strings.ContainsRune(" \n\t\r();", rune(p.t[p.i])) {
			p.i++
		}
	}
	if p.i == j {
		p.i++
	}
	return &sx{atom: p.t[j:p.i]}
}

type projRule struct {
	con string
	arg int
}

// learn records the projections which a declaration or an axiom defines.
func learn(rules map[string]projRule, n *sx) {
	switch n.head() {
	case "declare-datatypes":
		if len(n.list) != 3 {
			return
		}
		for _, d := range n.list[2].list {
			if d.head() == "par" && len(d.list) == 3 {
				d = d.list[2]
			}
			for _, c := range d.list {
				if !c.isList() {
					continue
				}
				for k, f := range c.list[1:] {
					if f.isList() && len(f.list) == 2 {
						rules[f.list[0].atom] = projRule{c.head(), k}
					}
				}
			}
		}
	case "assert":
		// (forall (vars) (= (sel (mk v1 .. vn)) vi))
		b := n.list[1]
		vars := map[string]bool{}
		for b.head() == "forall" && len(b.list) == 3 {
			for _, v := range b.list[1].list {
				vars[v.head()] = true
			}
			b = b.list[2]
		}
		if len(vars) == 0 || b.head() != "=" || len(b.list) != 3 {
			return
		}
		l, r := b.list[1], b.list[2]
		if !l.isList() || len(l.list) != 2 || r.isList() || !vars[r.atom] {
			return
		}
		m := l.list[1]
		if !m.isList() || m.head() == "" || len(m.list)-1 != len(vars) {
			return
		}
		arg := -1
		seen := map[string]bool{}
		for k, a := range m.list[1:] {
			if a.isList() || !vars[a.atom] || seen[a.atom] {
				return
			}
			seen[a.atom] = true
			if a.atom == r.atom {
				arg = k
			}
		}
		if arg >= 0 && l.head() != "" {
			rules[l.head()] = projRule{m.head(), arg}
		}
	}
}

func rewrite(rules map[string]projRule, n *sx) (*sx, bool) {
	if !n.isList() {
		return n, false
	}
	ch := false
	for i, x := range n.list {
		y, c := rewrite(rules, x)
		if c {
			n.list[i] = y
			ch = true
		}
	}
	if len(n.list) == 2 {
		if r, ok := rules[n.head()]; ok && n.list[1].head() == r.con && len(n.list[1].list) > r.arg+1 {
			return n.list[1].list[r.arg+1], true
		}
	}
	return n, ch
}

func simplifyFile(name string) error {
	raw, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	t := string(raw)
	rules := map[string]projRule{}
	var b strings.Builder
	i := 0
	for i < len(t) {
		// comments and blanks between the top-level items are kept
		j := i
		for j < len(t) && t[j] != '(' {
			if t[j] == ';' {
				for j < len(t) && t[j] != '\n' {
					j++
				}
			} else {
				j++
			}
		}
		b.WriteString(t[i:j])
		if j >= len(t) {
			break
		}
		p := &sxParser{t: t, i: j}
		n := p.parse()
		if n == nil {
			b.WriteString(t[j:])
			break
		}
		own := false
		if n.head() == "assert" || n.head() == "declare-datatypes" {
			before := len(rules)
			learn(rules, n)
			own = len(rules) != before
		}
		if n.head() == "assert" && !own {
			if m, ch := rewrite(rules, n); ch {
				m.write(&b)
				i = p.i
				continue
			}
		}
		b.WriteString(t[j:p.i])
		i = p.i
	}
	return os.WriteFile(name, []byte(b.String()), 0o644)
}
