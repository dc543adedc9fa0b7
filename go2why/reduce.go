package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Obligations over a large state are reduced before they go to a solver.
// Every step keeps the obligation equivalent or makes it harder:
//   - predicates and functions which Why3 defines by one equation, and which
//     occur in no quantifier pattern, are replaced by their bodies;
//   - a constant of a record type is replaced by the record of its fields, each
//     a new constant, and projections of records and equations between records
//     are resolved field by field (records have one constructor, which is
//     injective and covers the type);
//   - constants which a hypothesis equates are identified;
//   - hypotheses and definitions which share no symbol with what is left are
//     dropped;
//   - a conjunction to be proved becomes several obligations.

type item struct {
	name string // Why3's name, from the comment in front
	n    *sx
	src  string
	sym  string // for a definition: the defined symbol
	vars []*sx
	body *sx
	lhs  *sx
}

type reducer struct {
	hide  map[string]bool
	items []*item
	goal  int
	head  string // comments of the goal
	// records
	con    map[string]string   // record sort -> constructor
	conOf  map[string]string   // constructor -> sort
	fields map[string][]string // sort -> projections in order
	fsort  map[string][]string // sort -> field sorts
	proj   map[string]projRule
	sig    map[string]*sx // function -> (declare-fun ..)
	idx    map[string]string
	enums  map[string][]string // enumeration sort -> its constants
	defs   map[string]*item
	pats   map[string]bool
	n      int
	newc   map[string]string // new constants and their sorts
	order  []string
	rep    map[string]*sx
	size   int
	symc   map[*sx][]string // symbols of a node
	txt    map[*sx]string   // its text
}

var nameRe = regexp.MustCompile(`^;; "(.*)"$`)

func clone(s *sx) *sx {
	if !s.isList() {
		return s
	}
	r := &sx{list: make([]*sx, len(s.list))}
	for i, x := range s.list {
		r.list[i] = clone(x)
	}
	return r
}

func at(s string) *sx          { return &sx{atom: s} }
func ls(xs ...*sx) *sx         { return &sx{list: xs} }
func (s *sx) is(a string) bool { return s.atom == a }

func (s *sx) text() string {
	var b strings.Builder
	s.write(&b)
	return b.String()
}

func isBinder(h string) bool { return h == "forall" || h == "exists" }

// patSyms collects the symbols of patterns.
func patSyms(n *sx, out map[string]bool) {
	if !n.isList() {
		return
	}
	if n.head() == "!" {
		for i := 2; i+1 < len(n.list); i += 2 {
			if n.list[i].is(":pattern") {
				syms(n.list[i+1], out)
			}
		}
	}
	for _, x := range n.list {
		patSyms(x, out)
	}
}

func syms(n *sx, out map[string]bool) {
	if !n.isList() {
		out[n.atom] = true
		return
	}
	for _, x := range n.list {
		syms(x, out)
	}
}

// An obligation whose goal is, letter by letter, one of its hypotheses starts
// with this line; no solver is asked.
const isHyp = ";; the goal is a hypothesis\n"

// symsOf is syms as a list, computed once for each node.
func (r *reducer) symsOf(n *sx) []string {
	if l, ok := r.symc[n]; ok {
		return l
	}
	m := map[string]bool{}
	syms(n, m)
	l := make([]string, 0, len(m))
	for x := range m {
		l = append(l, x)
	}
	if r.symc == nil {
		r.symc = map[*sx][]string{}
	}
	r.symc[n] = l
	return l
}

func (r *reducer) text(n *sx) string {
	if t, ok := r.txt[n]; ok {
		return t
	}
	var b strings.Builder
	n.write(&b)
	if r.txt == nil {
		r.txt = map[*sx]string{}
	}
	r.txt[n] = b.String()
	return b.String()
}

func eqsx(a, b *sx) bool {
	if a == b {
		return true
	}
	if a.isList() != b.isList() {
		return false
	}
	if !a.isList() {
		return a.atom == b.atom
	}
	if len(a.list) != len(b.list) {
		return false
	}
	for i := range a.list {
		if !eqsx(a.list[i], b.list[i]) {
			return false
		}
	}
	return true
}

func (r *reducer) load(t string) bool {
	i := 0
	var cm []string
	for i < len(t) {
		j := i
		for j < len(t) && t[j] != '(' {
			if t[j] == ';' {
				k := j
				for j < len(t) && t[j] != '\n' {
					j++
				}
				cm = append(cm, t[k:j])
			} else {
				j++
			}
		}
		if j >= len(t) {
			break
		}
		p := &sxParser{t: t, i: j}
		n := p.parse()
		if n == nil {
			return false
		}
		it := &item{n: n, src: t[j:p.i]}
		for _, c := range cm {
			if m := nameRe.FindStringSubmatch(c); m != nil {
				it.name = m[1]
			}
			if strings.HasPrefix(c, ";; Goal ") {
				r.goal = len(r.items)
				r.head = strings.Join(cm, "\n")
			}
		}
		cm = nil
		if k := strings.TrimSuffix(it.name, "'def"); (k != it.name || n.head() == "assert") && r.hide[k] {
			i = p.i
			continue
		}
		r.items = append(r.items, it)
		i = p.i
	}
	return r.goal > 0
}

func (r *reducer) learnAll() {
	r.proj = map[string]projRule{}
	r.sig = map[string]*sx{}
	r.con, r.conOf, r.fields, r.fsort = map[string]string{}, map[string]string{}, map[string][]string{}, map[string][]string{}
	r.idx, r.defs, r.pats = map[string]string{}, map[string]*item{}, map[string]bool{}
	r.newc, r.rep = map[string]string{}, map[string]*sx{}
	for _, it := range r.items {
		n := it.n
		switch n.head() {
		case "declare-fun":
			if len(n.list) == 4 {
				r.sig[n.list[1].atom] = n
			}
		case "assert":
			before := len(r.proj)
			learn(r.proj, n)
			b := n.list[1]
			if len(r.proj) != before {
				continue
			}
			if b.head() == "=" && len(b.list) == 3 && strings.HasPrefix(b.list[1].head(), "index_") && len(b.list[1].list) == 2 && !b.list[1].list[1].isList() && !b.list[2].isList() {
				r.idx[b.list[1].list[1].atom] = b.list[1].head() + " " + b.list[2].atom
			}
			patSyms(n, r.pats)
			if b.head() == "forall" && len(b.list) == 3 && strings.HasSuffix(it.name, "'def") {
				if lhs, body := splitDef(b.list[2]); lhs != nil && len(lhs.list)-1 == len(b.list[1].list) {
					ok := true
					for k, v := range b.list[1].list {
						if !lhs.list[k+1].is(v.head()) || v.head() == "" {
							ok = false
						}
					}
					s := map[string]bool{}
					syms(body, s)
					f := lhs.head()
					if d := r.sig[f]; ok && d != nil && !s[f] {
						it.sym, it.vars, it.body, it.lhs = f, b.list[1].list, body, lhs
						if d.list[3].is("Bool") || nodes(body) < 60 {
							r.defs[f] = it
						}
					}
				}
			}
		}
	}
	// enumerations become datatypes of the solver
	r.enums = map[string][]string{}
	for _, it := range r.items {
		if b := it.n; strings.HasSuffix(it.name, "_inversion") && b.head() == "assert" && b.list[1].head() == "forall" && len(b.list[1].list[1].list) == 1 {
			v := b.list[1].list[1].list[0]
			var cs []string
			for _, d := range flat("or", []*sx{b.list[1].list[2]}) {
				if d.head() != "=" || len(d.list) != 3 || !d.list[1].is(v.list[0].atom) || r.idx[d.list[2].atom] == "" {
					cs = nil
					break
				}
				cs = append(cs, d.list[2].atom)
			}
			if len(cs) > 0 && v.list[1].atom != "" {
				r.enums[v.list[1].atom] = cs
			}
		}
	}
	// records: a constructor Xqtmk all of whose arguments have a projection
	byCon := map[string]map[int]string{}
	for f, p := range r.proj {
		if byCon[p.con] == nil {
			byCon[p.con] = map[int]string{}
		}
		byCon[p.con][p.arg] = f
	}
	for c, fs := range byCon {
		d := r.sig[c]
		if d == nil || !strings.HasSuffix(c, "qtmk") || len(fs) != len(d.list[2].list) || d.list[3].isList() {
			continue
		}
		s := d.list[3].atom
		r.con[s], r.conOf[c] = c, s
		for k, a := range d.list[2].list {
			r.fields[s] = append(r.fields[s], fs[k])
			r.fsort[s] = append(r.fsort[s], a.text())
		}
	}
	for f := range r.proj {
		if c := r.proj[f].con; r.conOf[c] == "" {
			delete(r.proj, f)
		}
	}
	// definitions which only take records apart go from patterns as well
	for ch := true; ch; {
		ch = false
		for f, d := range r.defs {
			if r.pats[f] && r.onlyRecords(d.body) {
				delete(r.pats, f)
				ch = true
			}
		}
	}
}

func (r *reducer) onlyRecords(n *sx) bool {
	if !n.isList() {
		return true
	}
	h := n.head()
	if _, ok := r.proj[h]; !ok && r.conOf[h] == "" && (r.defs[h] == nil || r.pats[h]) {
		return false
	}
	for _, x := range n.list[1:] {
		if !r.onlyRecords(x) {
			return false
		}
	}
	return true
}

func nodes(n *sx) int {
	k := 1
	for _, x := range n.list {
		k += nodes(x)
	}
	return k
}

// splitDef takes a defining equation apart; Why3 moves the equation below the
// conditions of the right hand side.
func splitDef(e *sx) (lhs, body *sx) {
	switch {
	case e.head() == "let" && len(e.list) == 3:
		l, b := splitDef(e.list[2])
		if l == nil {
			return nil, nil
		}
		return l, ls(e.list[0], e.list[1], b)
	case e.head() == "=" && len(e.list) == 3 && e.list[1].isList():
		return e.list[1], e.list[2]
	case e.head() == "not" && len(e.list) == 2 && e.list[1].isList() && e.list[1].head() != "":
		return e.list[1], sFalse
	case e.head() == "ite" && len(e.list) == 4:
		l1, b1 := splitDef(e.list[2])
		l2, b2 := splitDef(e.list[3])
		if l1 == nil || l2 == nil || !eqsx(l1, l2) {
			return nil, nil
		}
		return l1, ls(e.list[0], e.list[1], b1, b2)
	case e.isList() && e.head() != "" && !isBinder(e.head()) && e.head() != "let" && e.head() != "and" && e.head() != "or" && e.head() != "=>" && e.head() != "!":
		return e, sTrue
	}
	return nil, nil
}

// subst replaces free atoms; bound variables of n are renamed apart.
func (r *reducer) subst(n *sx, m map[string]*sx) *sx {
	if !n.isList() {
		if x, ok := m[n.atom]; ok {
			return x
		}
		return n
	}
	h := n.head()
	if isBinder(h) && len(n.list) == 3 {
		m2 := make(map[string]*sx, len(m)+4)
		for k, v := range m {
			m2[k] = v
		}
		vs := &sx{}
		for _, v := range n.list[1].list {
			r.n++
			x := at(fmt.Sprintf("%s!%d", strings.SplitN(v.list[0].atom, "!", 2)[0], r.n))
			m2[v.list[0].atom] = x
			vs.list = append(vs.list, ls(x, v.list[1]))
		}
		return ls(n.list[0], vs, r.subst(n.list[2], m2))
	}
	if h == "let" && len(n.list) == 3 {
		// lets are expanded
		m2 := make(map[string]*sx, len(m)+4)
		for k, v := range m {
			m2[k] = v
		}
		for _, v := range n.list[1].list {
			m2[v.list[0].atom] = r.subst(v.list[1], m)
		}
		return r.subst(n.list[2], m2)
	}
	o := &sx{list: make([]*sx, len(n.list))}
	for i, x := range n.list {
		o.list[i] = r.subst(x, m)
	}
	return o
}

var sTrue, sFalse = &sx{atom: "true"}, &sx{atom: "false"}

// norm expands definitions and resolves records, bottom up.
func (r *reducer) norm(n *sx, depth int) *sx {
	if !n.isList() {
		if x, ok := r.rep[n.atom]; ok {
			return x
		}
		return n
	}
	r.size++
	h := n.head()
	if isBinder(h) && len(n.list) == 3 {
		b := r.norm(n.list[2], depth)
		if b.is("true") || b.is("false") {
			return b
		}
		return ls(n.list[0], n.list[1], b)
	}
	if h == "!" {
		o := &sx{list: []*sx{n.list[0], r.norm(n.list[1], depth)}}
		if o.list[1].is("true") || o.list[1].is("false") {
			return o.list[1]
		}
		for i := 2; i < len(n.list); i++ {
			if n.list[i-1].is(":pattern") {
				p := &sx{}
				for _, x := range n.list[i].list {
					p.list = append(p.list, r.norm(x, depth))
				}
				o.list = append(o.list, p)
			} else {
				o.list = append(o.list, n.list[i])
			}
		}
		return o
	}
	if h == "let" {
		return r.norm(r.subst(n, map[string]*sx{}), depth)
	}
	o := &sx{list: make([]*sx, len(n.list))}
	for i, x := range n.list {
		if i == 0 {
			o.list[0] = n.list[0]
			if n.list[0].isList() {
				o.list[0] = r.norm(x, depth)
			}
			continue
		}
		o.list[i] = r.norm(x, depth)
		switch h {
		case "and":
			if o.list[i].is("false") {
				return sFalse
			}
		case "or":
			if o.list[i].is("true") {
				return sTrue
			}
		case "=>":
			if i == 1 && o.list[1].is("false") {
				return sTrue
			}
		case "ite":
			if i == 1 && o.list[1].is("true") {
				return r.norm(n.list[2], depth)
			}
			if i == 1 && o.list[1].is("false") {
				return r.norm(n.list[3], depth)
			}
		}
	}
	return r.simp(o, depth)
}

func flat(op string, xs []*sx) []*sx {
	var out []*sx
	for _, x := range xs {
		if x.head() == op && x.isList() {
			out = append(out, flat(op, x.list[1:])...)
		} else {
			out = append(out, x)
		}
	}
	return out
}

func (r *reducer) simp(o *sx, depth int) *sx {
	h := o.head()
	switch h {
	case "and", "or":
		unit, zero := "true", "false"
		if h == "or" {
			unit, zero = zero, unit
		}
		var xs []*sx
		for _, x := range flat(h, o.list[1:]) {
			if x.is(zero) {
				return at(zero)
			}
			if !x.is(unit) {
				xs = append(xs, x)
			}
		}
		if len(xs) == 0 {
			return at(unit)
		}
		if len(xs) == 1 {
			return xs[0]
		}
		return ls(append([]*sx{at(h)}, xs...)...)
	case "not":
		if o.list[1].is("true") {
			return sFalse
		}
		if o.list[1].is("false") {
			return sTrue
		}
	case "=>":
		a, b := o.list[1], o.list[2]
		if len(o.list) == 3 {
			if a.is("false") || b.is("true") {
				return sTrue
			}
			if a.is("true") {
				return b
			}
			if b.is("false") {
				return r.simp(ls(at("not"), a), depth)
			}
		}
	case "ite":
		if o.list[1].is("true") {
			return o.list[2]
		}
		if o.list[1].is("false") {
			return o.list[3]
		}
		if eqsx(o.list[2], o.list[3]) {
			return o.list[2]
		}
	case "=":
		if len(o.list) != 3 {
			return o
		}
		a, b := o.list[1], o.list[2]
		if eqsx(a, b) {
			return sTrue
		}
		if a.is("true") {
			return b
		}
		if b.is("true") {
			return a
		}
		if a.is("false") {
			return r.simp(ls(at("not"), b), depth)
		}
		if b.is("false") {
			return r.simp(ls(at("not"), a), depth)
		}
		if x, y := r.idx[a.atom], r.idx[b.atom]; a.atom != "" && b.atom != "" && x != "" && y != "" {
			return sFalse // distinct constructors
		}
		if isNum(a) && isNum(b) {
			return sFalse
		}
		ca, cb := r.conOf[a.head()], r.conOf[b.head()]
		if a.isList() && b.isList() && ca != "" && ca == cb {
			c := []*sx{at("and")}
			for i := 1; i < len(a.list); i++ {
				c = append(c, r.simp(ls(at("="), a.list[i], b.list[i]), depth))
			}
			return r.simp(ls(c...), depth)
		}
		// a record on one side only
		if a.isList() && ca != "" && b.atom == "" && b.head() != "ite" && b.head() != "" {
			c := []*sx{at("and")}
			for i, f := range r.fields[ca] {
				c = append(c, r.simp(ls(at("="), a.list[i+1], ls(at(f), b)), depth))
			}
			return r.simp(ls(c...), depth)
		}
		if b.isList() && cb != "" && a.atom == "" && a.head() != "ite" && a.head() != "" {
			c := []*sx{at("and")}
			for i, f := range r.fields[cb] {
				c = append(c, r.simp(ls(at("="), ls(at(f), a), b.list[i+1]), depth))
			}
			return r.simp(ls(c...), depth)
		}
	case "<=", "<", ">=", ">":
		if len(o.list) == 3 && isNum(o.list[1]) && isNum(o.list[2]) && len(o.list[1].atom) < 18 && len(o.list[2].atom) < 18 {
			x, _ := strconv.ParseInt(o.list[1].atom, 10, 64)
			y, _ := strconv.ParseInt(o.list[2].atom, 10, 64)
			v := false
			switch h {
			case "<=":
				v = x <= y
			case "<":
				v = x < y
			case ">=":
				v = x >= y
			case ">":
				v = x > y
			}
			if v {
				return sTrue
			}
			return sFalse
		}
	}
	if p, ok := r.proj[h]; ok && len(o.list) == 2 {
		a := o.list[1]
		if a.head() == p.con && a.isList() {
			return a.list[p.arg+1]
		}
		if a.head() == "ite" && a.isList() {
			return r.simp(ls(a.list[0], a.list[1], r.simp(ls(o.list[0], a.list[2]), depth), r.simp(ls(o.list[0], a.list[3]), depth)), depth)
		}
	}
	if d, ok := r.defs[h]; ok && !r.pats[h] && depth < 60 && len(o.list)-1 == len(d.vars) && h != "" {
		m := map[string]*sx{}
		for i, v := range d.vars {
			m[v.head()] = o.list[i+1]
		}
		return r.norm(r.subst(d.body, m), depth+1)
	}
	return o
}

func isNum(s *sx) bool {
	if s.atom == "" {
		return false
	}
	for _, c := range s.atom {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// fresh gives the record of new constants which stands for constant c.
func (r *reducer) fresh(c, sort string) *sx {
	if k, ok := r.con[sort]; ok {
		o := []*sx{at(k)}
		for i, f := range r.fields[sort] {
			o = append(o, r.fresh(c+"!"+f, r.fsort[sort][i]))
		}
		return ls(o...)
	}
	r.newc[c] = sort
	r.order = append(r.order, c)
	return at(c)
}

func (r *reducer) isConst(s *sx) bool {
	if s.atom == "" {
		return false
	}
	if _, ok := r.newc[s.atom]; ok {
		return true
	}
	d := r.sig[s.atom]
	return d != nil && len(d.list[2].list) == 0
}

func occurs(c string, s *sx) bool {
	if !s.isList() {
		return s.atom == c
	}
	for _, x := range s.list {
		if occurs(c, x) {
			return true
		}
	}
	return false
}

type hyp struct {
	n    *sx
	def  bool     // describes a function: goes when nothing uses it
	sym  string   // the function it describes, when known
	kind []string // it matters when one of these occurs
}

// reduce returns the reduced obligations of a file.
func reduce(t string, hide map[string]bool) ([]string, bool) {
	r := &reducer{hide: hide}
	if !r.load(t) {
		return nil, false
	}
	r.learnAll()
	for c, d := range r.sig {
		if len(d.list[2].list) == 0 && !d.list[3].isList() && r.con[d.list[3].atom] != "" {
			r.rep[c] = nil
		}
	}
	var cs []string
	for c := range r.rep {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		r.rep[c] = r.fresh(c, r.sig[c].list[3].atom)
	}
	g := r.items[r.goal].n.list[1]
	if g.head() != "not" {
		return nil, false
	}
	goal := r.norm(r.subst(g.list[1], map[string]*sx{}), 0)
	var hyps []*hyp
	for i, it := range r.items {
		if i >= r.goal || it.n.head() != "assert" {
			continue
		}
		if it.sym != "" && !r.pats[it.sym] && r.defs[it.sym] != nil {
			continue // expanded everywhere
		}
		b := it.n.list[1]
		if strings.HasSuffix(it.name, "_inversion") && b.head() == "forall" && r.enums[b.list[1].list[0].list[1].atom] != nil {
			continue
		}
		// projections and inversion of records stay as they are
		if strings.HasSuffix(it.name, "_inversion") || isProjAxiom(r, b) {
			hyps = append(hyps, &hyp{n: r.subst(b, map[string]*sx{}), def: true})
			continue
		}
		if it.sym != "" {
			// keep the left hand side of a definition
			d := r.subst(ls(b.list[0], b.list[1], ls(at("="), it.lhs, it.body)), map[string]*sx{})
			e := d.list[2]
			hyps = append(hyps, &hyp{n: ls(d.list[0], d.list[1], ls(e.list[0], e.list[1], r.norm(e.list[2], 0))), def: true, sym: it.sym})
			continue
		}
		x := r.norm(r.subst(b, map[string]*sx{}), 0)
		ground := it.name == "H" || strings.HasPrefix(it.name, "Ensures") || strings.HasPrefix(it.name, "LoopInvariant") || strings.HasPrefix(it.name, "Requires") || strings.HasPrefix(it.name, "Assert") || strings.HasPrefix(it.name, "Assume")
		sym := r.specSym(it.name, x)
		for _, y := range flat("and", []*sx{x}) {
			if y.is("true") {
				continue
			}
			for _, z := range r.splitSpec(y, sym) {
				hyps = append(hyps, &hyp{n: z, def: !ground, sym: sym})
			}
		}
		if r.size > 4000000 {
			return nil, false
		}
	}
	hyps = dropUnpatterned(hyps)
	// identify constants
	for round := 0; round < 30; round++ {
		uf := map[string]*sx{}
		var find func(s *sx) *sx
		find = func(s *sx) *sx {
			for s.atom != "" {
				x, ok := uf[s.atom]
				if !ok {
					return s
				}
				s = x
			}
			return s
		}
		n := 0
		for _, h := range hyps {
			y := h.n
			if h.def {
				continue
			}
			if r.isConst(y) && !y.is("true") && !y.is("false") {
				if find(y) == y {
					uf[y.atom] = sTrue
					h.n = sTrue
					n++
				}
				continue
			}
			if y.head() == "not" && r.isConst(y.list[1]) {
				if find(y.list[1]) == y.list[1] {
					uf[y.list[1].atom] = sFalse
					h.n = sTrue
					n++
				}
				continue
			}
			if y.head() == "=" && len(y.list) == 3 {
				a, b := y.list[1], y.list[2]
				okc := func(x *sx) bool { return r.isConst(x) && r.idx[x.atom] == "" && find(x) == x }
				lit := func(x *sx) bool { return x.atom != "" && (isNum(x) || r.idx[x.atom] != "" || r.isConst(x)) }
				if okc(a) && lit(b) {
					fb := find(b)
					if fb.atom != a.atom {
						uf[a.atom] = fb
						h.n = sTrue
						n++
					}
				} else if okc(b) && lit(a) {
					fa := find(a)
					if fa.atom != b.atom {
						uf[b.atom] = fa
						h.n = sTrue
						n++
					}
				}
			}
		}
		if n == 0 {
			break
		}
		r.rep = map[string]*sx{}
		for k := range uf {
			r.rep[k] = find(at(k))
		}
		goal = r.norm(goal, 0)
		var hs []*hyp
		for _, h := range hyps {
			if h.def && !mentions(h.n, r.rep) {
				hs = append(hs, h)
				continue
			}
			x := h.n
			if !(h.def && (x.head() == "forall")) || mentions(x, r.rep) {
				x = r.norm(x, 0)
			}
			for _, y := range flat("and", []*sx{x}) {
				if !y.is("true") {
					hs = append(hs, &hyp{n: y, def: h.def, sym: h.sym, kind: h.kind})
				}
			}
		}
		hyps = hs
	}
	r.rep = map[string]*sx{}
	// split the goal
	var parts [][2]*sx // extra hypothesis (or nil), goal
	var split func(g *sx, hyp *sx)
	split = func(g *sx, hyp *sx) {
		if g.head() == "and" && g.isList() {
			for _, x := range g.list[1:] {
				split(x, hyp)
			}
			return
		}
		if g.isList() && g.head() == "=>" && len(g.list) == 3 && splits(g.list[2]) {
			split(g.list[2], conj(hyp, g.list[1]))
			return
		}
		if k := splitsOr(g); k > 0 {
			h := hyp
			for i, x := range g.list {
				if i > 0 && i != k {
					h = conj(h, ls(at("not"), x))
				}
			}
			split(g.list[k], h)
			return
		}
		if g.is("true") {
			return
		}
		parts = append(parts, [2]*sx{hyp, g})
	}
	split(goal, nil)
	var out []string
	for _, p := range parts {
		hs := append([]*hyp{}, hyps...)
		if p[0] != nil {
			hs = append(hs, &hyp{n: p[0]})
		}
		out = append(out, r.emit(hs, p[1]))
	}
	return out, true
}

func conj(a, b *sx) *sx {
	if a == nil {
		return b
	}
	return ls(at("and"), a, b)
}

// splitsOr is the one part of a disjunction which can be split, or 0.
func splitsOr(g *sx) int {
	if !g.isList() || g.head() != "or" {
		return 0
	}
	k := 0
	for i, x := range g.list {
		if i > 0 && splits(x) {
			if k > 0 {
				return 0
			}
			k = i
		}
	}
	return k
}

func splits(g *sx) bool {
	return g.isList() && (g.head() == "and" || (g.head() == "=>" && len(g.list) == 3 && splits(g.list[2])) || splitsOr(g) > 0)
}

func mentions(n *sx, m map[string]*sx) bool {
	if !n.isList() {
		_, ok := m[n.atom]
		return ok
	}
	for _, x := range n.list {
		if mentions(x, m) {
			return true
		}
	}
	return false
}

func isProjAxiom(r *reducer, b *sx) bool {
	for b.head() == "forall" && len(b.list) == 3 {
		b = b.list[2]
	}
	if b.head() != "=" || len(b.list) != 3 || !b.list[1].isList() || len(b.list[1].list) != 2 {
		return false
	}
	p, ok := r.proj[b.list[1].head()]
	return ok && b.list[1].list[1].head() == p.con && b.list[1].list[1].isList()
}

// recSyms lists what makes an axiom about a record or an enumeration matter.
func (r *reducer) recSyms(b *sx) []string {
	for b.head() == "forall" && len(b.list) == 3 {
		b = b.list[2]
	}
	if b.head() == "=" && len(b.list) == 3 {
		if p, ok := r.proj[b.list[1].head()]; ok {
			_ = p
			return []string{b.list[1].head()}
		}
		// inversion of a record: u = mk (p1 u) ..
		if s := r.conOf[b.list[2].head()]; s != "" {
			return append([]string{r.con[s]}, r.fields[s]...)
		}
	}
	// inversion of an enumeration or of a sum
	s := map[string]bool{}
	syms(b, s)
	var out []string
	for f := range s {
		if r.sig[f] != nil {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

// specSym finds the function which an axiom "f'spec" describes.
func (r *reducer) specSym(name string, n *sx) string {
	k := strings.Index(name, "'spec")
	if k < 0 {
		return ""
	}
	f := name[:k]
	s := map[string]bool{}
	syms(n, s)
	for g := range s {
		if r.sig[g] != nil && strings.HasPrefix(g, f) && strings.Trim(g[len(f):], "0123456789") == "" {
			return g
		}
	}
	return ""
}

// splitSpec takes the axiom "f'spec" of a function apart and gives each part
// f applied to the variables, or its own pattern, as the pattern.
func (r *reducer) splitSpec(n *sx, f string) []*sx {
	if f == "" || n.head() != "forall" || len(n.list) != 3 || n.list[2].head() == "!" {
		return []*sx{n}
	}
	vs := n.list[1]
	call := ls(at(f))
	for _, v := range vs.list {
		call.list = append(call.list, at(v.head()))
	}
	body := n.list[2]
	var pre []*sx
	for body.head() == "=>" && len(body.list) == 3 {
		pre = append(pre, body.list[1])
		body = body.list[2]
	}
	guard := func(b *sx) *sx {
		for i := len(pre) - 1; i >= 0; i-- {
			b = ls(at("=>"), pre[i], b)
		}
		return b
	}
	if !contains(body, call) {
		return []*sx{n}
	}
	var out []*sx
	for _, c := range flat("and", []*sx{body}) {
		if c.head() == "forall" && len(c.list) == 3 && c.list[2].head() == "!" && len(c.list[2].list) == 4 {
			q := c.list[2]
			s := map[string]bool{}
			for _, p := range q.list[3].list {
				syms(p, s)
			}
			all := len(q.list[3].list) == 1
			for _, v := range vs.list {
				all = all && s[v.head()]
			}
			if all {
				w := &sx{list: append(append([]*sx{}, vs.list...), c.list[1].list...)}
				out = append(out, ls(at("forall"), w, ls(at("!"), guard(q.list[1]), at(":pattern"), q.list[3])))
				continue
			}
		}
		out = append(out, ls(at("forall"), vs, ls(at("!"), guard(c), at(":pattern"), ls(call))))
	}
	return out
}

// dropUnpatterned removes a quantified fact when the same one is there with a
// pattern.
func dropUnpatterned(hyps []*hyp) []*hyp {
	canon := func(n *sx) (string, bool) {
		if n.head() != "forall" || len(n.list) != 3 {
			return "", false
		}
		m := map[string]*sx{}
		for i, v := range n.list[1].list {
			m[v.head()] = at(fmt.Sprintf("$%d", i))
		}
		b, pat := n.list[2], false
		if b.head() == "!" {
			b, pat = b.list[1], true
		}
		return (&reducer{}).subst(b, m).text(), pat
	}
	have := map[string]bool{}
	for _, h := range hyps {
		if c, pat := canon(h.n); pat {
			have[c] = true
		}
	}
	var out []*hyp
	for _, h := range hyps {
		if c, pat := canon(h.n); c != "" && !pat && have[c] {
			continue
		}
		out = append(out, h)
	}
	return out
}

func contains(n, t *sx) bool {
	if eqsx(n, t) {
		return true
	}
	for _, x := range n.list {
		if contains(x, t) {
			return true
		}
	}
	return false
}

// relevant tells whether a library fact can matter for what is needed.
func (r *reducer) relevant(h *hyp, fs []string, need map[string]bool) bool {
	if h.sym != "" {
		return need[h.sym]
	}
	if h.kind != nil {
		for _, f := range h.kind {
			if need[f] {
				return true
			}
		}
		return false
	}
	if k := patternsOf(h.n); len(k) > 0 {
		for _, p := range k {
			all := true
			for _, f := range r.symsOf(p) {
				if d := r.sig[f]; d != nil && len(d.list[2].list) > 0 && !need[f] {
					all = false
				}
			}
			if all {
				return true
			}
		}
		return false
	}
	if f := r.leftSym(h.n); f != "" {
		return need[f]
	}
	// the premises of an implication must come from somewhere
	c := h.n
	for c.head() == "forall" && len(c.list) == 3 || c.head() == "=>" && len(c.list) == 3 {
		if c.head() == "=>" {
			s := map[string]bool{}
			syms(c.list[1], s)
			for f := range s {
				if d := r.sig[f]; d != nil && len(d.list[2].list) > 0 && !need[f] {
					return false
				}
			}
			fs = r.symsOf(c.list[2])
		}
		c = c.list[2]
	}
	nf, nc, cf, cc := 0, 0, 0, 0
	for _, f := range fs {
		if _, ok := r.newc[f]; ok {
			nc++
			if need[f] {
				cc++
			}
			continue
		}
		d := r.sig[f]
		if d == nil {
			continue
		}
		if len(d.list[2].list) == 0 {
			nc++
			if need[f] {
				cc++
			}
			continue
		}
		nf++
		if need[f] {
			cf++
		}
	}
	if h.n.head() == "forall" {
		return cf > 0 || nf == 0 && (cc > 0 || nc == 0)
	}
	if nc > 0 {
		return cc > 0 && (cf > 0 || nf == 0)
	}
	return cf == nf
}

// leftSym is the function on the left of an equation f(..) = .. below
// quantifiers and conditions.
func (r *reducer) leftSym(n *sx) string {
	q := false
	for {
		switch {
		case n.head() == "forall" && len(n.list) == 3:
			n = n.list[2]
			q = true
			continue
		case n.head() == "=>" && len(n.list) == 3:
			n = n.list[2]
			continue
		case n.head() == "ite" && len(n.list) == 4 && q:
			n = n.list[2]
			continue
		}
		break
	}
	if q && n.head() == "=" && len(n.list) == 3 {
		f := n.list[1].head()
		if d := r.sig[f]; d != nil && len(d.list[2].list) > 0 {
			return f
		}
	}
	return ""
}

// emit writes an obligation with what its symbols need.
func (r *reducer) emit(hyps []*hyp, goal *sx) string {
	// the goal is a hypothesis
	gt := r.text(goal)
	for _, h := range hyps {
		if r.text(h.n) == gt {
			return isHyp + "(assert " + gt + ")\n" + r.head + "\n(assert (not " + gt + "))\n(check-sat)\n"
		}
	}
	need := map[string]bool{}
	syms(goal, need)
	used := make([]bool, len(hyps))
	hs := make([][]string, len(hyps))
	for i, h := range hyps {
		hs[i] = r.symsOf(h.n)
		if !h.def {
			used[i] = true
			for _, s := range hs[i] {
				need[s] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i, h := range hyps {
			if !used[i] && r.relevant(h, hs[i], need) {
				used[i] = true
				ch = true
				for _, s := range hs[i] {
					need[s] = true
				}
			}
		}
	}
	var b strings.Builder
	isCon := map[string]bool{}
	for _, cs := range r.enums {
		for _, c := range cs {
			isCon[c] = true
		}
	}
	for i, it := range r.items {
		if i >= r.goal {
			break
		}
		switch it.n.head() {
		case "assert":
			continue
		case "set-logic":
			b.WriteString("(set-logic ALL)\n")
			continue
		case "declare-sort":
			if cs := r.enums[it.n.list[1].atom]; cs != nil {
				fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s))))\n", it.n.list[1].atom, strings.Join(cs, ") ("))
				continue
			}
		case "declare-fun":
			if isCon[it.n.list[1].atom] {
				continue
			}
			if !need[it.n.list[1].atom] {
				continue
			}
		}
		b.WriteString(it.src)
		b.WriteByte('\n')
	}
	for _, c := range r.order {
		if need[c] {
			fmt.Fprintf(&b, "(declare-fun %s () %s)\n", c, r.newc[c])
		}
	}
	// constant constructors of other sums are distinct, as their indexes are
	byIdx := map[string][]string{}
	for c := range need {
		if x := r.idx[c]; x != "" && !isCon[c] {
			byIdx[strings.Fields(x)[0]] = append(byIdx[strings.Fields(x)[0]], c)
		}
	}
	var fns []string
	for f := range byIdx {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, f := range fns {
		cs := byIdx[f]
		sort.Strings(cs)
		if len(cs) > 1 {
			fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(cs, " "))
		}
	}
	for i, h := range hyps {
		if used[i] {
			b.WriteString("(assert ")
			b.WriteString(r.text(h.n))
			b.WriteString(")\n")
		}
	}
	b.WriteString(r.head)
	b.WriteString("\n(assert (not ")
	goal.write(&b)
	b.WriteString("))\n(check-sat)\n")
	return b.String()
}

func patternsOf(n *sx) []*sx {
	var out []*sx
	for n.head() == "forall" && len(n.list) == 3 {
		n = n.list[2]
	}
	if n.head() == "!" {
		for i := 2; i+1 < len(n.list); i += 2 {
			if n.list[i].is(":pattern") {
				out = append(out, n.list[i+1])
			}
		}
	}
	return out
}

// reduceFile replaces an obligation by its reduced parts.
func reduceFile(name string, hide map[string]bool) ([]string, error) {
	raw, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	parts, ok := reduce(string(raw), hide)
	if !ok {
		return []string{name}, nil
	}
	var out []string
	base := strings.TrimSuffix(name, filepath.Ext(name))
	for i, p := range parts {
		f := name
		if len(parts) > 1 {
			f = fmt.Sprintf("%s.%d.smt2", base, i+1)
		}
		if err := os.WriteFile(f, []byte(p), 0o644); err != nil {
			return nil, err
		}
		out = append(out, f)
	}
	if len(parts) == 0 {
		f := base + ".smt2"
		_ = os.WriteFile(f, []byte("(assert false)\n"+goalComment(string(raw))+"\n(check-sat)\n"), 0o644)
		out = append(out, f)
	}
	return out, nil
}

func goalComment(t string) string {
	var out []string
	for _, l := range strings.Split(t, "\n") {
		if strings.HasPrefix(l, ";; Goal") || strings.HasPrefix(l, ";; File") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
