package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

type unsupported struct{ msg string }

func fail(format string, v ...interface{}) { panic(unsupported{fmt.Sprintf(format, v...)}) }

func (g *Gen) shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	if q, ok := g.byPath[p.Path()]; ok {
		return q.Name
	}
	return p.Name()
}

// typeKey is the name of a named type in the contract files.
func (g *Gen) typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		s := g.shortPkg(t.Obj().Pkg())
		if s == "" {
			return t.Obj().Name()
		}
		return s + "." + t.Obj().Name()
	case *types.Pointer:
		return g.typeKey(t.Elem())
	}
	return ""
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intBits(t types.Type) (bits int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func intName(t types.Type) string {
	bits, signed := intBits(t)
	if signed {
		return fmt.Sprintf("i%d", bits)
	}
	return fmt.Sprintf("u%d", bits)
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func lower(s string) string { return strings.ToLower(s[:1]) + s[1:] }

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

func isSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func isPtrSeq(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isSeq(p.Elem())
}

// seqMod returns the WhyML module alias for sequences of the given element type.
func (g *Gen) seqMod(elem types.Type) string {
	if isInt(elem) {
		switch intName(elem) {
		case "u8":
			return "B"
		case "u32":
			return "U"
		}
		return "I"
	}
	w := g.whyType(elem)
	m := "S_" + strings.NewReplacer(".", "_", " ", "_").Replace(w)
	g.needSeq(m, w)
	return m
}

func (g *Gen) modOf(t types.Type) string {
	if isString(t) {
		return "B"
	}
	return g.seqMod(elemOf(t))
}

func (g *Gen) whyType(t types.Type) string {
	t = types.Unalias(t)
	if k := g.typeKey(t); k != "" {
		if w, ok := g.cfg.Types[k]; ok {
			return w[0]
		}
		if w, ok := g.cfg.Structs[k]; ok {
			g.needStruct(t)
			return w[0]
		}
	}
	if isErr(t) {
		return "err"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsString != 0:
			return "B.t"
		}
	case *types.Slice, *types.Array:
		e := elemOf(t)
		if isSeq(e) && !isString(e) {
			return "T2.t"
		}
		return g.seqMod(e) + ".t"
	case *types.Pointer:
		return g.whyType(u.Elem())
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return g.fnType(u)
	case *types.Tuple:
		return g.tupleType(u)
	}
	fail("type %s has no model", t)
	return ""
}

func (g *Gen) zero(t types.Type) string {
	t = types.Unalias(t)
	if k := g.typeKey(t); k != "" {
		if w, ok := g.cfg.Types[k]; ok {
			return w[1]
		}
		if w, ok := g.cfg.Structs[k]; ok {
			st, _ := t.Underlying().(*types.Struct)
			if st == nil {
				st = t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			}
			var fs []string
			for i := 0; i < st.NumFields(); i++ {
				if g.dropped(k, st.Field(i)) {
					continue
				}
				fs = append(fs, w[1]+fieldName(st.Field(i).Name())+" = "+g.zeroField(k, st.Field(i)))
			}
			for _, gf := range g.cfg.Ghost {
				if gf.Struct == k {
					fs = append(fs, gf.Name+" = "+"ghost_zero_"+gf.Name)
				}
			}
			return "{ " + strings.Join(fs, "; ") + " }"
		}
	}
	if isErr(t) {
		return "ErrNil"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "0"
		case u.Info()&types.IsBoolean != 0:
			return "False"
		case u.Info()&types.IsString != 0:
			return "B.empty"
		}
	case *types.Slice:
		return g.modOf(t) + ".empty"
	case *types.Array:
		if isSeq(u.Elem()) {
			return "t2_zeros"
		}
		if isInt(u.Elem()) {
			return fmt.Sprintf("(%s.zeros %d)", g.modOf(t), u.Len())
		}
		return fmt.Sprintf("(%s.fill %d %s)", g.modOf(t), u.Len(), g.zero(u.Elem()))
	case *types.Pointer:
		return g.zero(u.Elem())
	case *types.Interface:
		return "iface_nil"
	case *types.Signature:
		return "Nil_" + g.fnType(u)
	}
	fail("type %s has no zero value in the model", t)
	return ""
}

func fieldName(s string) string { return s }

func (g *Gen) dropped(structKey string, f *types.Var) bool {
	if g.cfg.Drop[structKey+"."+f.Name()] {
		return true
	}
	t := f.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return g.cfg.Drop[g.typeKey(t)]
}

// typed returns formulas which hold of every value of the Go type.
func (g *Gen) typed(t types.Type, e string) []string {
	t = types.Unalias(t)
	k := g.typeKey(t)
	if k != "" {
		if _, ok := g.cfg.Types[k]; ok {
			return nil
		}
		if w, ok := g.cfg.Structs[k]; ok {
			g.needStruct(t)
			return []string{fmt.Sprintf("typed_%s %s", w[0], paren(e))}
		}
	}
	if isInt(t) {
		return []string{fmt.Sprintf("in_%s %s", intName(t), paren(e))}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isSeq(u.Elem()) && !isString(u.Elem()) {
			return nil
		}
		return []string{fmt.Sprintf("%s.len %s <= max_len", g.modOf(t), paren(e))}
	case *types.Array:
		if isSeq(u.Elem()) {
			return nil
		}
		return []string{fmt.Sprintf("%s.len %s = %d", g.modOf(t), paren(e), u.Len())}
	case *types.Basic:
		if isString(t) {
			return []string{fmt.Sprintf("B.len %s <= max_len", paren(e))}
		}
	case *types.Pointer:
		return g.typed(u.Elem(), e)
	}
	return nil
}

func paren(s string) string {
	if s == "" || isAtom(s) {
		return s
	}
	return "(" + s + ")"
}

func isAtom(s string) bool {
	if s[0] == '(' || s[0] == '{' {
		// matching close at the very end?
		d := 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '(', '{':
				d++
			case ')', '}':
				d--
				if d == 0 {
					return i == len(s)-1
				}
			}
		}
		return false
	}
	for _, c := range s {
		if !(c == '_' || c == '.' || c == '\'' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

// ---- declarations generated on demand, in dependency order ----

func (g *Gen) emitDecl(key, text string) {
	g.decls = append(g.decls, text)
}

func (g *Gen) needSeq(mod, elem string) {
	if g.done["seq "+mod] {
		return
	}
	g.done["seq "+mod] = true
	g.emitDecl(mod, fmt.Sprintf("  function nrm_%s (x: %s) : %s = x\n  clone SeqG as %s with type elt = %s, function norm = nrm_%s, axiom .\n", mod, elem, elem, mod, elem, mod))
}

func (g *Gen) needStruct(t types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	k := g.typeKey(t)
	if g.done["struct "+k] {
		return
	}
	g.done["struct "+k] = true
	w := g.cfg.Structs[k]
	st := t.Underlying().(*types.Struct)
	mut := ""
	if g.cfg.Regions[k] {
		mut = "mutable "
	}
	var fs, tf []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if g.dropped(k, f) {
			continue
		}
		name := w[1] + fieldName(f.Name())
		if o := g.optField(k, f); o != "" {
			g.needStruct(f.Type())
			g.needPtr(o)
			fs = append(fs, fmt.Sprintf("    %s%s: ptr_%s", mut, name, o))
			continue
		}
		fs = append(fs, fmt.Sprintf("    %s%s: %s", mut, name, g.whyType(f.Type())))
		if g.cfg.Counters[k+"."+f.Name()] {
			tf = append(tf, "in_counter x."+name)
		} else {
			tf = append(tf, g.typed(f.Type(), "x."+name)...)
		}
	}
	for _, gf := range g.cfg.Ghost {
		if gf.Struct == k {
			fs = append(fs, fmt.Sprintf("    ghost %s%s: %s", mut, gf.Name, gf.Type))
		}
	}
	if len(tf) == 0 {
		tf = []string{"true"}
	}
	s := fmt.Sprintf("  type %s = {\n%s\n  }\n  predicate typed_%s (x: %s) = %s\n", w[0], strings.Join(fs, ";\n"), w[0], w[0], strings.Join(tf, " /\\ "))
	g.emitDecl(k, s)
}

func (g *Gen) needPtr(w string) {
	if g.done["ptr "+w] {
		return
	}
	g.done["ptr "+w] = true
	g.emitDecl("ptr_"+w, fmt.Sprintf("  type ptr_%s = Nil_%s | Ptr_%s %s\n", w, w, w, w))
}

// isVoidResult: dropped results (none)
func (g *Gen) resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (g *Gen) tupleName(ws []string) string {
	var n []string
	for _, w := range ws {
		n = append(n, strings.NewReplacer(".", "_", " ", "_").Replace(w))
	}
	name := "r" + fmt.Sprint(len(ws)) + "_" + strings.Join(n, "_")
	if !g.done["tuple "+name] {
		g.done["tuple "+name] = true
		var fs []string
		for i, w := range ws {
			fs = append(fs, fmt.Sprintf("%s_%d: %s", name, i, w))
		}
		g.emitDecl(name, fmt.Sprintf("  type %s = { %s }\n", name, strings.Join(fs, "; ")))
	}
	return name
}

func (g *Gen) tupleType(t *types.Tuple) string {
	var ws []string
	for i := 0; i < t.Len(); i++ {
		ws = append(ws, g.whyType(t.At(i).Type()))
	}
	if len(ws) == 0 {
		return "unit"
	}
	if len(ws) == 1 {
		return ws[0]
	}
	return g.tupleName(ws)
}

// ---- function values ----

type fnCons struct {
	name string
	lit  *ast.FuncLit
	caps []*types.Var
	fn   *types.Func
	pkg  *Pkg
}

func (g *Gen) fnKey(sig *types.Signature) string {
	var n []string
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if k := g.typeKey(t); k != "" {
			n = append(n, strings.ReplaceAll(k, ".", "_"))
		} else {
			n = append(n, strings.NewReplacer("*", "p", "[]", "s", ".", "_", "/", "_", " ", "_", "{", "", "}", "").Replace(t.String()))
		}
	}
	n = append(n, "to")
	for i := 0; i < sig.Results().Len(); i++ {
		n = append(n, strings.NewReplacer("*", "p", "[]", "s", ".", "_", "/", "_", " ", "_").Replace(sig.Results().At(i).Type().String()))
	}
	return "fn_" + strings.Join(n, "_")
}

// fnType declares the type of function values with this signature: one
// constructor for each function literal or named function used as a value.
func (g *Gen) fnType(sig *types.Signature) string {
	key := g.fnKey(sig)
	if g.done["fn "+key] {
		return key
	}
	g.done["fn "+key] = true
	var cs []string
	cs = append(cs, "Nil_"+key)
	for _, c := range g.fnValues[key] {
		s := c.name
		for _, v := range c.caps {
			s += " " + paren(g.whyType(v.Type()))
		}
		cs = append(cs, s)
	}
	g.emitDecl(key, fmt.Sprintf("  type %s = %s\n", key, strings.Join(cs, " | ")))
	return key
}

// collectFnValues finds the function literals and functions used as values.
func (g *Gen) collectFnValues() {
	for _, p := range g.pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				name := "global"
				if fd, ok := d.(*ast.FuncDecl); ok {
					name = fd.Name.Name
				}
				n := 0
				called := map[ast.Expr]bool{}
				ast.Inspect(d, func(x ast.Node) bool {
					if c, ok := x.(*ast.CallExpr); ok {
						called[ast.Unparen(c.Fun)] = true
					}
					if s, ok := x.(*ast.SelectorExpr); ok {
						called[s.Sel] = true // handled through the selector
					}
					return true
				})
				seen := map[string]bool{}
				ast.Inspect(d, func(x ast.Node) bool {
					switch e := x.(type) {
					case *ast.FuncLit:
						if called[e] {
							return true
						}
						sig, ok := p.Info.TypeOf(e).(*types.Signature)
						if !ok {
							return true
						}
						n++
						c := &fnCons{name: fmt.Sprintf("Fn_%s_%d", name, n), lit: e, caps: g.captured(p, e), pkg: p}
						g.litCons[e] = c
						k := g.fnKey(sig)
						g.fnValues[k] = append(g.fnValues[k], c)
					case *ast.Ident:
						fn, ok := p.Info.Uses[e].(*types.Func)
						if !ok || called[e] {
							return true
						}
						sig := fn.Type().(*types.Signature)
						if sig.Recv() != nil || g.declOf[fn] == nil {
							return true
						}
						k := g.fnKey(sig)
						cn := "Fn_" + fn.Name()
						if seen[cn] || g.namedCons[fn] != nil {
							return true
						}
						seen[cn] = true
						c := &fnCons{name: cn, fn: fn, pkg: p}
						g.namedCons[fn] = c
						g.fnValues[k] = append(g.fnValues[k], c)
					}
					return true
				})
			}
		}
	}
}

func (g *Gen) captured(p *Pkg, lit *ast.FuncLit) []*types.Var {
	seen := map[*types.Var]bool{}
	var out []*types.Var
	ast.Inspect(lit.Body, func(x ast.Node) bool {
		id, ok := x.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := p.Info.Uses[id].(*types.Var)
		if !ok || v.IsField() || seen[v] || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
			return true
		}
		if v.Pos() >= lit.Pos() && v.Pos() < lit.End() {
			return true
		}
		seen[v] = true
		out = append(out, v)
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func constStr(v constant.Value) string {
	switch v.Kind() {
	case constant.Int:
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(" + s + ")"
		}
		return s
	case constant.Bool:
		if constant.BoolVal(v) {
			return "True"
		}
		return "False"
	}
	return ""
}
