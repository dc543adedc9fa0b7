package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Gen struct {
	cfg       *Config
	fset      *token.FileSet
	pkgs      []*Pkg
	byPath    map[string]*Pkg
	declOf    map[*types.Func]*ast.FuncDecl
	pkgOf     map[*types.Func]*Pkg
	byKey     map[string]*types.Func
	decls     []string
	done      map[string]bool
	infos     map[string]*FuncInfo
	fnValues  map[string][]*fnCons
	litCons   map[*ast.FuncLit]*fnCons
	namedCons map[*types.Func]*fnCons
	tables    map[string]string // global tables already emitted
	pins      map[string][][2]string
	strs      map[string]string
}

type Param struct {
	Name   string // WhyML name
	Type   types.Type
	Why    string
	Mode   string // region, ref, val
	Obj    types.Object
	Region string // struct key for regions
}

type FuncInfo struct {
	Key        string
	Fn         *types.Func
	Decl       *ast.FuncDecl
	Pkg        *Pkg
	Inst       string // region key which stands for the bitwriter interface
	Params     []*Param
	Results    []types.Type
	Ret        string
	Body       string
	Excs       []string
	Contract   *Contract
	RegWrites  map[string]map[string]bool // param name -> fields
	RefWrites  map[string]bool
	Recursive  map[string]bool
	GlobWrites map[string]bool
	Calls      map[string]*FuncInfo
	Externs    map[string]*Contract
	Err        error
	busy       bool
	NumLoops   int
	Lines      string
	Locals     [][2]string
	Diverges   bool
}

func NewGen(cfg *Config, pkgs []*Pkg, fset *token.FileSet) *Gen {
	g := &Gen{cfg: cfg, fset: fset, pkgs: pkgs, byPath: map[string]*Pkg{}, declOf: map[*types.Func]*ast.FuncDecl{}, pkgOf: map[*types.Func]*Pkg{}, byKey: map[string]*types.Func{},
		done: map[string]bool{}, infos: map[string]*FuncInfo{}, fnValues: map[string][]*fnCons{}, litCons: map[*ast.FuncLit]*fnCons{}, namedCons: map[*types.Func]*fnCons{}, tables: map[string]string{}, strs: map[string]string{}}
	for _, p := range pkgs {
		g.byPath[p.Path] = p
	}
	for _, p := range pkgs {
		ninit := 0
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				fn := p.Info.Defs[fd.Name].(*types.Func)
				if fd.Name.Name == "init" {
					ninit++
				}
				g.declOf[fn] = fd
				g.pkgOf[fn] = p
				g.byKey[g.funcKey(fn)] = fn
			}
		}
	}
	g.collectFnValues()
	return g
}

// funcKey names a function in the contract files.
func (g *Gen) funcKey(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	pre := ""
	if s := g.shortPkg(fn.Pkg()); s != "" {
		pre = s + "."
	}
	if r := sig.Recv(); r != nil {
		if k := g.typeKey(r.Type()); k != "" {
			return k + "." + fn.Name()
		}
	}
	return pre + fn.Name()
}

func whyName(key string) string {
	return "f_" + strings.NewReplacer(".", "_", "<", "_", ">", "", " ", "_").Replace(key)
}

var keywords = map[string]bool{"val": true, "type": true, "end": true, "ref": true, "match": true, "in": true, "at": true, "old": true, "let": true, "rec": true, "with": true, "fun": true, "function": true,
	"predicate": true, "axiom": true, "lemma": true, "goal": true, "use": true, "clone": true, "module": true, "theory": true, "scope": true, "if": true, "then": true, "else": true, "while": true, "do": true, "done": true,
	"for": true, "to": true, "downto": true, "raise": true, "try": true, "exception": true, "assert": true, "assume": true, "check": true, "begin": true, "not": true, "true": true, "false": true, "forall": true,
	"exists": true, "by": true, "so": true, "absurd": true, "any": true, "ghost": true, "private": true, "mutable": true, "abstract": true, "return": true, "break": true, "continue": true, "result": true, "constant": true,
	"export": true, "import": true, "invariant": true, "variant": true, "reads": true, "writes": true, "requires": true, "ensures": true, "returns": true, "raises": true, "diverges": true, "pure": true, "partial": true,
	"alias": true, "label": true, "range": true, "float": true, "meta": true, "inductive": true, "coinductive": true, "as": true, "is": true}

func localName(s string) string {
	if s == "" || s == "_" {
		return "unused"
	}
	if keywords[s] || s[0] >= 'A' && s[0] <= 'Z' {
		return "v_" + s
	}
	return s
}

func (g *Gen) pos(p token.Pos) string {
	q := g.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// Info translates a function (once).
func (g *Gen) Info(fn *types.Func, inst string) (res *FuncInfo) {
	key := g.funcKey(fn)
	if inst != "" {
		key += "<" + inst + ">"
	}
	if fi := g.infos[key]; fi != nil {
		if fi.busy {
			// a recursive call: the effects are those the contract states
			if fi.Contract == nil || len(fi.Contract.Writes) == 0 {
				fail("recursion through %s", key)
			}
			if fi.Recursive == nil {
				fi.Recursive = map[string]bool{}
				for _, w := range fi.Contract.Writes {
					fi.Recursive[w] = true
				}
			}
			for _, p := range fi.Params {
				for w := range fi.Recursive {
					if strings.HasPrefix(w, p.Name+".") && p.Mode == "region" {
						fi.RegWrites[p.Name][w[len(p.Name)+1:]] = true
					}
				}
			}
		}
		return fi
	}
	fi := &FuncInfo{Key: key, Fn: fn, Decl: g.declOf[fn], Pkg: g.pkgOf[fn], Inst: inst, RegWrites: map[string]map[string]bool{}, RefWrites: map[string]bool{}, GlobWrites: map[string]bool{},
		Calls: map[string]*FuncInfo{}, Externs: map[string]*Contract{}, busy: true}
	g.infos[key] = fi
	res = fi
	fi.Contract = g.cfg.Contracts[key]
	defer func() {
		fi.busy = false
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			fi.Err = fmt.Errorf("%s: %s", key, u.msg)
		}
	}()
	sig := fn.Type().(*types.Signature)
	var vars []*types.Var
	if sig.Recv() != nil {
		vars = append(vars, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		vars = append(vars, sig.Params().At(i))
	}
	for i, v := range vars {
		p := &Param{Name: localName(v.Name()), Type: v.Type(), Obj: v, Mode: "val"}
		if v.Name() == "" || v.Name() == "_" {
			p.Name = fmt.Sprintf("unused%d", i)
		}
		if fi.Contract != nil && i < len(fi.Contract.Params) {
			p.Name = fi.Contract.Params[i]
		}
		if sig.Variadic() && i == len(vars)-1 && isEmptyIfaceSlice(v.Type()) {
			p.Mode = "drop"
		} else if k := g.regionKey(v.Type(), inst); k != "" {
			p.Mode = "region"
			p.Region = k
			p.Why = g.cfg.Structs[k][0]
			g.needRegion(k)
			fi.RegWrites[p.Name] = map[string]bool{}
		} else {
			p.Why = g.whyType(v.Type())
		}
		fi.Params = append(fi.Params, p)
	}
	fi.Results = g.resultTypes(sig)
	fi.Ret = g.tupleType(sig.Results())
	if fi.Contract != nil && fi.Contract.Trusted {
		for _, p := range fi.Params {
			for _, w := range fi.Contract.Writes {
				if w == p.Name {
					fi.RefWrites[p.Name] = true
					if p.Mode == "val" {
						p.Mode = "ref"
					}
				} else if strings.HasPrefix(w, p.Name+".") && p.Mode == "region" {
					fi.RegWrites[p.Name][w[len(p.Name)+1:]] = true
				}
			}
		}
		return fi
	}
	if fi.Decl == nil || fi.Decl.Body == nil {
		fail("no body and no trusted contract")
	}
	if fi.Contract != nil {
		g.ghostWrites(fi)
	}
	c := g.newCtx(fi)
	fi.Body = c.function()
	if fi.Recursive != nil {
		for _, p := range fi.Params {
			if fi.RefWrites[p.Name] {
				fail("recursive, and writes to %s", p.Name)
			}
			for f := range fi.RegWrites[p.Name] {
				if !fi.Recursive[p.Name+"."+f] {
					fail("recursive, and writes to %s.%s which the contract does not list", p.Name, f)
				}
			}
		}
	}
	fi.NumLoops = *c.loopN
	for _, p := range fi.Params {
		if p.Mode == "val" && fi.RefWrites[p.Name] {
			p.Mode = "ref"
		}
	}
	return fi
}

// ghostWrites adds the ghost fields which the contract's hooks write.
func (g *Gen) ghostWrites(fi *FuncInfo) {
	for _, p := range fi.Params {
		if p.Mode != "region" {
			continue
		}
		for _, gf := range g.cfg.Ghost {
			if gf.Struct != p.Region {
				continue
			}
			for _, w := range fi.Contract.Writes {
				if w == p.Name+"."+gf.Name {
					fi.RegWrites[p.Name][gf.Name] = true
				}
			}
			for _, hs := range fi.Contract.Hooks {
				h := strings.Join(hs, "\n")
				if strings.Contains(h, p.Name+"."+gf.Name+" <-") {
					fi.RegWrites[p.Name][gf.Name] = true
				}
				for _, f := range g.cfg.GhostFns[gf.Name] {
					if regexp.MustCompile(`\b` + f + `\b`).MatchString(h) {
						fi.RegWrites[p.Name][gf.Name] = true
					}
				}
			}
		}
	}
}

func (g *Gen) needRegion(k string) {
	for _, p := range g.pkgs {
		if o := p.Types.Scope().Lookup(k[strings.LastIndex(k, ".")+1:]); o != nil && g.typeKey(o.Type()) == k {
			g.needStruct(o.Type())
		}
	}
}

func isEmptyIfaceSlice(t types.Type) bool {
	s, ok := t.(*types.Slice)
	if !ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (g *Gen) regionKey(t types.Type, inst string) string {
	k := g.typeKey(t)
	if k == "bitwriter" {
		return inst
	}
	if g.cfg.Regions[k] {
		return k
	}
	return ""
}

var resRe = regexp.MustCompile(`result#(\d+)`)

func resultRefs(s, ret string, n int) string {
	return resRe.ReplaceAllStringFunc(s, func(m string) string {
		if n == 1 {
			return "result"
		}
		return "result." + ret + "_" + m[len("result#"):]
	})
}

// header renders "name (params) : ret" plus the specification clauses.
func (fi *FuncInfo) header(g *Gen, asVal bool) string {
	var b strings.Builder
	b.WriteString(whyName(fi.Key))
	n := 0
	for _, p := range fi.Params {
		switch p.Mode {
		case "drop":
			continue
		case "ref":
			fmt.Fprintf(&b, " (ref %s: %s)", p.Name, p.Why)
		default:
			fmt.Fprintf(&b, " (%s: %s)", p.Name, p.Why)
		}
		n++
	}
	if n == 0 {
		b.WriteString(" ()")
	}
	fmt.Fprintf(&b, " : %s\n", fi.Ret)
	ct := fi.Contract
	if ct != nil {
		for _, r := range ct.Requires {
			fmt.Fprintf(&b, "    requires { %s }\n", r)
		}
		for _, r := range ct.Ensures {
			fmt.Fprintf(&b, "    ensures { %s }\n", resultRefs(r, fi.Ret, len(fi.Results)))
		}
	}
	if fi.Diverges {
		b.WriteString("    diverges\n")
	}
	if asVal {
		var ws []string
		for _, p := range fi.Params {
			if p.Mode == "ref" && fi.RefWrites[p.Name] {
				ws = append(ws, p.Name)
			}
			var fs []string
			for f := range fi.RegWrites[p.Name] {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				ws = append(ws, p.Name+"."+f)
			}
		}
		for gl := range fi.GlobWrites {
			ws = append(ws, gl)
		}
		if len(ws) > 0 {
			sort.Strings(ws)
			fmt.Fprintf(&b, "    writes { %s }\n", strings.Join(ws, ", "))
		}
	}
	return b.String()
}

// Job renders the verification module of one function.
func (g *Gen) Job(fi *FuncInfo) string {
	var b strings.Builder
	fmt.Fprintf(&b, "module Job\n%s", g.uses())
	uses := map[string]bool{}
	use := func(ct *Contract) {
		if ct == nil {
			return
		}
		for _, u := range ct.Uses {
			if !uses[u] {
				uses[u] = true
				fmt.Fprintf(&b, "  use %s\n", u)
			}
		}
	}
	use(fi.Contract)
	b.WriteString("\n")
	var ks []string
	for k := range fi.Externs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		use(fi.Externs[k])
	}
	for _, k := range ks {
		b.WriteString(g.externVal(fi.Externs[k]))
	}
	ks = ks[:0]
	for k := range fi.Calls {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		use(fi.Calls[k].Contract)
	}
	for _, k := range ks {
		fmt.Fprintf(&b, "  val %s\n", fi.Calls[k].header(g, true))
	}
	for _, e := range fi.Excs {
		fmt.Fprintf(&b, "  exception %s\n", e)
	}
	fmt.Fprintf(&b, "\n  let %s", fi.header(g, false))
	if fi.Contract != nil && fi.Contract.SP {
		fmt.Fprintf(&b, "  =\n[@vc:sp] (%s)\nend\n", fi.Body)
	} else {
		fmt.Fprintf(&b, "  =\n%s\nend\n", fi.Body)
	}
	return b.String()
}

func (g *Gen) uses() string {
	return `  use int.Int
  use int.EuclideanDivision
  use ref.Ref
  use Base
  use Model
  use GoTypes
  use Spec
`
}

var wordRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.]*$`)

func (g *Gen) externVal(ct *Contract) string {
	var b strings.Builder
	if ct.Sig == "" {
		fail("%s: a contract without a body and without a signature", ct.Key)
	}
	ret := externRet(ct.Sig)
	sig := ct.Sig
	n := 1
	w := ret
	if strings.HasPrefix(ret, "(") {
		ws := splitTop(ret[1 : len(ret)-1])
		n = len(ws)
		w = g.tupleName(ws)
		sig = strings.TrimSpace(sig[:strings.LastIndex(sig, "(")]) + " " + w
	}
	fmt.Fprintf(&b, "  val %s %s\n", externName(ct.Key), sig)
	for _, r := range ct.Requires {
		fmt.Fprintf(&b, "    requires { %s }\n", r)
	}
	for _, r := range ct.Ensures {
		fmt.Fprintf(&b, "    ensures { %s }\n", resultRefs(r, w, n))
	}
	if len(ct.Writes) > 0 {
		fmt.Fprintf(&b, "    writes { %s }\n", strings.Join(ct.Writes, ", "))
	}
	return b.String()
}

func externName(key string) string {
	return "x_" + strings.NewReplacer(".", "_", "<", "_", ">", "", " ", "_").Replace(key)
}

// externRet extracts the result type from "(a: t) (b: t) : ret".
func externRet(sig string) string {
	i := strings.LastIndex(sig, ") :")
	if i < 0 {
		fail("bad extern signature %q", sig)
	}
	return strings.TrimSpace(sig[i+3:])
}

func splitTop(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		out = append(out, strings.TrimSpace(x))
	}
	return out
}

// externParams parses the parameter list of an extern signature.
func externParams(sig string) (names []string, ref []bool, typ []string) {
	i := strings.LastIndex(sig, ") :")
	s := sig[:i+1]
	for len(s) > 0 {
		a := strings.Index(s, "(")
		if a < 0 {
			break
		}
		b := strings.Index(s, ")")
		item := strings.TrimSpace(s[a+1 : b])
		s = s[b+1:]
		if item == "" {
			continue
		}
		k := strings.Index(item, ":")
		nm := strings.TrimSpace(item[:k])
		isRef := strings.HasPrefix(nm, "ref ")
		nm = strings.TrimPrefix(nm, "ref ")
		names = append(names, strings.TrimSpace(nm))
		ref = append(ref, isRef)
		typ = append(typ, strings.TrimSpace(item[k+1:]))
	}
	return
}

// Decls renders the generated module of types and constant tables.
func (g *Gen) Decls() string {
	return "module GoTypes\n  use int.Int\n  use int.EuclideanDivision\n  use Base\n  use Model\n" + strings.Join(g.decls, "") + "end\n\n"
}

// globalTable emits a package-level table whose elements are all constant.
func (g *Gen) globalTable(p *Pkg, v *types.Var) string {
	key := v.Name()
	if s := g.shortPkg(v.Pkg()); s != "" {
		key = s + "." + key
	}
	if t, ok := g.cfg.Globals[key]; ok {
		return t
	}
	if t, ok := g.tables[key]; ok {
		return t
	}
	var lit *ast.CompositeLit
	for _, f := range p.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, id := range vs.Names {
					if p.Info.Defs[id] == v && i < len(vs.Values) {
						lit, _ = vs.Values[i].(*ast.CompositeLit)
					}
				}
			}
		}
	}
	if lit == nil {
		fail("global %s has no model", key)
	}
	name := "tbl_" + strings.ReplaceAll(key, ".", "_")
	if g.assignedGlobally(p, v) {
		fail("global table %s is assigned", key)
	}
	switch t := v.Type().Underlying().(type) {
	case *types.Array, *types.Slice:
		n := 0
		var ax []string
		elem := elemOf(t)
		mod := g.modOf(t)
		idx := 0
		vals := map[int]string{}
		for _, e := range lit.Elts {
			val := e
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				k, _ := constant.Int64Val(p.Info.Types[kv.Key].Value)
				idx = int(k)
				val = kv.Value
			}
			vals[idx] = g.constExpr(p, val, elem)
			idx++
			if idx > n {
				n = idx
			}
		}
		if a, ok := t.(*types.Array); ok {
			n = int(a.Len())
		}
		for i := 0; i < n; i++ {
			s, ok := vals[i]
			if !ok {
				s = g.zero(elem)
			}
			ax = append(ax, fmt.Sprintf("%s.get %s %d = %s", mod, name, i, s))
		}
		txt := fmt.Sprintf("  val constant %s : %s.t\n  axiom %s_def: %s.len %s = %d /\\ %s\n", name, mod, name, mod, name, n, strings.Join(ax, " /\\ "))
		g.emitDecl(name, txt)
	case *types.Map:
		g.needTupleMap(t)
		get, has := g.zero(t.Elem()), "False"
		for i := len(lit.Elts) - 1; i >= 0; i-- {
			kv := lit.Elts[i].(*ast.KeyValueExpr)
			k := g.constExpr(p, kv.Key, t.Key())
			get = fmt.Sprintf("if k = %s then %s else %s", k, g.constExpr(p, kv.Value, t.Elem()), get)
			has = fmt.Sprintf("if k = %s then True else %s", k, has)
		}
		g.emitDecl(name, fmt.Sprintf("  let function %s_get (k: int) : int = %s\n  let function %s_has (k: int) : bool = %s\n", name, get, name, has))
	default:
		fail("global %s has no model", key)
	}
	g.tables[key] = name
	return name
}

func (g *Gen) needTupleMap(t *types.Map) {
	if !isInt(t.Key()) || !isInt(t.Elem()) {
		fail("map type %s", t)
	}
}

func (g *Gen) assignedGlobally(p *Pkg, v *types.Var) bool {
	found := false
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					if rootVar(p, l) == v {
						found = true
					}
				}
			case *ast.IncDecStmt:
				if rootVar(p, s.X) == v {
					found = true
				}
			case *ast.UnaryExpr:
				if s.Op == token.AND && rootVar(p, s.X) == v {
					found = true
				}
			}
			return true
		})
	}
	return found
}

func rootVar(p *Pkg, e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.UnaryExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.Ident:
			if v, ok := p.Info.Uses[x].(*types.Var); ok {
				return v
			}
			v, _ := p.Info.Defs[x].(*types.Var)
			return v
		default:
			return nil
		}
	}
}

func (g *Gen) constExpr(p *Pkg, e ast.Expr, t types.Type) string {
	if tv, ok := p.Info.Types[e]; ok && tv.Value != nil {
		if s := constStr(tv.Value); s != "" {
			return s
		}
	}
	switch x := e.(type) {
	case *ast.CompositeLit:
		k := g.typeKey(t)
		w, ok := g.cfg.Structs[k]
		st, ok2 := t.Underlying().(*types.Struct)
		if ok && ok2 {
			g.needStruct(t)
			vals := map[string]string{}
			for i, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					id := kv.Key.(*ast.Ident)
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Name() == id.Name {
							vals[id.Name] = g.constExpr(p, kv.Value, st.Field(j).Type())
						}
					}
				} else {
					vals[st.Field(i).Name()] = g.constExpr(p, el, st.Field(i).Type())
				}
			}
			var fs []string
			for j := 0; j < st.NumFields(); j++ {
				f := st.Field(j)
				if g.dropped(k, f) {
					continue
				}
				v, ok := vals[f.Name()]
				if !ok {
					v = g.zero(f.Type())
				}
				fs = append(fs, w[1]+f.Name()+" = "+v)
			}
			return "{ " + strings.Join(fs, "; ") + " }"
		}
	case *ast.Ident:
		if fn, ok := p.Info.Uses[x].(*types.Func); ok {
			if c := g.namedCons[fn]; c != nil {
				g.fnType(fn.Type().(*types.Signature))
				return c.name
			}
		}
	}
	fail("table element %s is not constant", g.pos(e.Pos()))
	return ""
}
