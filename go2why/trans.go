package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type bind struct {
	kind byte // 'r' region record, 'm' mutable variable, 'f' function literal bound to a name
	name string
	reg  string // region key
	lit  *ast.FuncLit
	lp   *Pkg
	lc   *ctx
	prm  *Param // set for parameters of the function under translation
}

type shared struct {
	tmp   int
	loop  int
	exc   int
	calls map[string]int // occurrences of each callee, for hooks
}

type loopFrame struct {
	label string
	brk   string // statement which leaves the loop or switch
	cont  string
	isSw  bool
}

// ctx translates one function body (or one inlined call).
type ctx struct {
	g       *Gen
	fi      *FuncInfo
	p       *Pkg
	inst    string
	vars    map[types.Object]*bind
	pre     *[]string
	sh      *shared
	retExc  string
	retUsed bool
	results []types.Type
	named   []*types.Var
	frames  []loopFrame
	after   string // hooks which wait for the end of the statement
	defer_  bool
	depth   int
	inlined bool
	closure string // the literal which is being inlined by callValue
	loopN   *int
	stack   []*types.Func
	locals  map[types.Object]string
	wregs   map[string]bool // regions mentioned (for typing assumptions)
}

func (g *Gen) newCtx(fi *FuncInfo) *ctx {
	sh := &shared{calls: map[string]int{}}
	var pre []string
	c := &ctx{g: g, fi: fi, p: fi.Pkg, inst: fi.Inst, vars: map[types.Object]*bind{}, pre: &pre, sh: sh, results: fi.Results}
	c.loopN = &sh.loop
	c.stack = []*types.Func{fi.Fn}
	return c
}

func (c *ctx) tmp(p string) string {
	c.sh.tmp++
	return fmt.Sprintf("%s_%d", p, c.sh.tmp)
}

func (c *ctx) emit(format string, v ...interface{}) {
	*c.pre = append(*c.pre, fmt.Sprintf(format, v...))
}

// take removes and returns the pending bindings.
func (c *ctx) take() string {
	s := strings.Join(*c.pre, "")
	*c.pre = nil
	return s
}

func (c *ctx) typeOf(e ast.Expr) types.Type {
	t := c.p.Info.TypeOf(e)
	if t == nil {
		fail("no type at %s", c.g.pos(e.Pos()))
	}
	return t
}

func (c *ctx) expl(what string, p token.Pos) string {
	return fmt.Sprintf("[@expl:%s at %s]", what, c.g.pos(p))
}

func (c *ctx) check(what string, p token.Pos, formula string) {
	c.emit("assert { %s %s };\n", c.expl(what, p), formula)
}

func (c *ctx) hook(key string) string {
	if c.inlined || c.fi.Contract == nil {
		return ""
	}
	var b strings.Builder
	for _, h := range c.fi.Contract.Hooks[key] {
		b.WriteString(h + ";\n")
	}
	return b.String()
}

// typing returns assumptions which hold of every value of the type.
func (c *ctx) typing(t types.Type, e string) string {
	fs := c.g.typed(t, e)
	if len(fs) == 0 {
		return ""
	}
	return "assume { " + strings.Join(fs, " /\\ ") + " };\n"
}

// function translates the whole body.
func (c *ctx) function() string {
	fi := c.fi
	var b strings.Builder
	assigned := assignedVars(c.p, fi.Decl.Body)
	for _, p := range fi.Params {
		switch p.Mode {
		case "drop":
		case "region":
			c.vars[p.Obj] = &bind{kind: 'r', name: p.Name, reg: p.Region, prm: p}
			fmt.Fprintf(&b, "assume { typed_%s %s };\n", p.Why, p.Name)
		default:
			c.vars[p.Obj] = &bind{kind: 'v', name: p.Name, prm: p}
			b.WriteString(c.typing(p.Type, p.Name))
			byValue := false
			switch p.Type.Underlying().(type) {
			case *types.Struct, *types.Array:
				byValue = ownWritten(c.p, fi.Decl.Body, p.Obj)
			}
			if assigned[p.Obj] || byValue {
				if !byValue && fi.Contract != nil && elemWritten(c.p, fi.Decl.Body, p.Obj) {
					fail("parameter %s is both reassigned and written through", p.Name)
				}
				fmt.Fprintf(&b, "let ref %s = %s in\n", p.Name, p.Name)
				c.vars[p.Obj] = &bind{kind: 'm', name: p.Name}
			} else {
				c.vars[p.Obj].kind = 'p'
			}
		}
	}
	if fi.Contract != nil {
		for _, gv := range fi.Contract.GlobalVars {
			fmt.Fprintf(&b, "let ref %s = %s in\n", gv[1], gv[2])
		}
	}
	c.pinLocals(fi)
	b.WriteString(c.resultVars(fi.Decl.Type))
	b.WriteString(c.hook("entry"))
	body := c.block(fi.Decl.Body.List)
	return c.finish(b.String(), body, fi.Ret)
}

func (c *ctx) resultVars(ft *ast.FuncType) string {
	var b strings.Builder
	c.named = nil
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, id := range f.Names {
				v, ok := c.p.Info.Defs[id].(*types.Var)
				if !ok || id.Name == "_" {
					continue
				}
				c.named = append(c.named, v)
				b.WriteString(c.declare(v, c.g.zero(v.Type())))
			}
		}
	}
	return b.String()
}

func (c *ctx) newExc(ret string) string {
	c.sh.exc++
	n := fmt.Sprintf("Ret%d", c.sh.exc)
	t := ""
	if ret != "unit" {
		t = " " + paren(ret)
	}
	c.fi.Excs = append(c.fi.Excs, n+t)
	return n
}

// finish wraps a body whose returns raise c.retExc.
func (c *ctx) finish(prefix, body, ret string) string {
	end := "absurd"
	if ret == "unit" {
		end = "()"
	} else if c.named != nil && false {
		end = "absurd"
	}
	if c.retExc == "" {
		return prefix + body + end
	}
	with := fmt.Sprintf("with %s v_ret -> v_ret end", c.retExc)
	if ret == "unit" {
		with = fmt.Sprintf("with %s -> () end", c.retExc)
	}
	return prefix + "try\n" + body + end + "\n" + with
}

func (c *ctx) raiseRet(v string) string {
	if c.retExc == "" {
		c.retExc = c.newExc(c.retType())
	}
	if v == "" {
		return fmt.Sprintf("raise %s;\n", c.retExc)
	}
	return fmt.Sprintf("raise (%s %s);\n", c.retExc, paren(v))
}

func (c *ctx) retType() string {
	var ws []string
	for _, t := range c.results {
		ws = append(ws, c.g.whyType(t))
	}
	switch len(ws) {
	case 0:
		return "unit"
	case 1:
		return ws[0]
	}
	return c.g.tupleName(ws)
}

func (c *ctx) tuple(vals []string) string {
	if len(vals) == 0 {
		return ""
	}
	if len(vals) == 1 {
		return vals[0]
	}
	n := c.retType()
	var fs []string
	for i, v := range vals {
		fs = append(fs, fmt.Sprintf("%s_%d = %s", n, i, v))
	}
	return "{ " + strings.Join(fs, "; ") + " }"
}

func (c *ctx) local(v *types.Var) string {
	if n, ok := c.locals[v]; ok {
		return n
	}
	return localName(v.Name())
}

// declare introduces a local variable.
func (c *ctx) declare(v *types.Var, val string) string {
	n := c.local(v)
	if c.inlined {
		n = c.tmp(n)
	}
	if k := c.g.regionKey(v.Type(), ""); k != "" {
		if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
			c.vars[v] = &bind{kind: 'r', name: n, reg: k}
			c.g.needRegion(k)
			return fmt.Sprintf("let %s = %s in\n", n, val)
		}
		fail("local pointer to %s", k)
	}
	c.vars[v] = &bind{kind: 'm', name: n}
	return fmt.Sprintf("let ref %s = %s in\n", n, val)
}

// ---- statements ----

func (c *ctx) scope(f func() string) string {
	saved := c.vars
	c.vars = map[types.Object]*bind{}
	for k, v := range saved {
		c.vars[k] = v
	}
	s := f()
	c.vars = saved
	return s
}

// body translates a nested block as a unit expression.
func (c *ctx) body(list []ast.Stmt) string {
	return c.scope(func() string { return "begin\n" + c.block(list) + "()\nend" })
}

func (c *ctx) block(list []ast.Stmt) string {
	var b strings.Builder
	for i, s := range list {
		fmt.Fprintf(&b, "(* @%s *)\n", c.g.pos(s.Pos()))
		if d, ok := s.(*ast.DeferStmt); ok {
			after := c.deferred(d)
			rest := c.block(list[i+1:])
			if after == "" {
				b.WriteString(rest)
				return b.String()
			}
			if c.retExc == "" {
				c.retExc = c.newExc(c.retType())
			}
			with := fmt.Sprintf("with %s v_def -> begin %s raise (%s v_def) end end;\n", c.retExc, after, c.retExc)
			if c.retType() == "unit" {
				with = fmt.Sprintf("with %s -> begin %s raise %s end end;\n", c.retExc, after, c.retExc)
			}
			b.WriteString("try\n" + rest + "()\n" + with + after)
			return b.String()
		}
		b.WriteString(c.stmt(s))
	}
	return b.String()
}

func (c *ctx) deferred(d *ast.DeferStmt) string {
	if lit, ok := d.Call.Fun.(*ast.FuncLit); ok && len(d.Call.Args) == 0 {
		return c.body(lit.Body.List) + ";\n"
	}
	s := c.stmt(&ast.ExprStmt{X: d.Call})
	if strings.TrimSpace(s) == "" {
		return ""
	}
	return s
}

func (c *ctx) stmt(s ast.Stmt) string {
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return ""
	case *ast.BlockStmt:
		return c.body(s.List) + ";\n"
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			return c.loop(s.Stmt, s.Label.Name)
		}
		return c.stmt(s.Stmt)
	case *ast.ExprStmt:
		return c.late(func() string { return c.exprStmt(s) })
	case *ast.DeclStmt:
		return c.late(func() string { return c.declStmt(s) })
	case *ast.AssignStmt:
		return c.late(func() string { return c.assign(s) })
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		lv := c.lval(s.X)
		v := c.arith(op, lv.load(), "1", c.typeOf(s.X), lv.counter, s.Pos(), nil)
		st := lv.store(v)
		return c.take() + st + ";\n"
	case *ast.ReturnStmt:
		return c.ret(s)
	case *ast.IfStmt:
		return c.ifStmt(s)
	case *ast.SwitchStmt:
		return c.switchStmt(s)
	case *ast.ForStmt, *ast.RangeStmt:
		return c.loop(s, "")
	case *ast.BranchStmt:
		return c.branch(s)
	case *ast.GoStmt:
		return c.goStmt(s)
	}
	fail("statement %T at %s", s, c.g.pos(s.Pos()))
	return ""
}

// late moves hooks which follow a call behind the statement of the call.
func (c *ctx) late(f func() string) string {
	old, was := c.after, c.defer_
	c.after, c.defer_ = "", true
	r := f()
	r += c.after
	c.after, c.defer_ = old, was
	return r
}

func (c *ctx) goStmt(s *ast.GoStmt) string {
	fn := c.callee(s.Call)
	if fn == nil {
		fail("go statement at %s", c.g.pos(s.Pos()))
	}
	key := "go." + c.g.funcKey(fn)
	ct := c.g.cfg.Contracts[key]
	if ct == nil {
		fail("no contract for %s", key)
	}
	var recv ast.Expr
	if sel, ok := ast.Unparen(s.Call.Fun).(*ast.SelectorExpr); ok && fn.Type().(*types.Signature).Recv() != nil {
		recv = sel.X
	}
	r := c.externCall(ct, s.Call, recv, nil)
	return c.take() + c.discard(r)
}

func (c *ctx) discard(r string) string {
	if r == "" || r == "()" {
		return ""
	}
	return fmt.Sprintf("let _ = %s in\n", r)
}

func (c *ctx) exprStmt(s *ast.ExprStmt) string {
	if u, ok := ast.Unparen(s.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		fail("channel operation")
	}
	r := c.expr(s.X)
	pre := c.take()
	if isAtom0(r) {
		return pre
	}
	return pre + c.discard(r)
}

func isAtom0(s string) bool { return s == "" || isAtom(s) && s[0] != '{' && s[0] != '(' || s == "()" }

func (c *ctx) declStmt(s *ast.DeclStmt) string {
	gd := s.Decl.(*ast.GenDecl)
	if gd.Tok != token.VAR {
		return ""
	}
	var b strings.Builder
	for _, sp := range gd.Specs {
		vs := sp.(*ast.ValueSpec)
		if len(vs.Values) == 0 {
			for _, id := range vs.Names {
				if id.Name == "_" {
					continue
				}
				v := c.p.Info.Defs[id].(*types.Var)
				b.WriteString(c.declare(v, c.g.zero(v.Type())))
			}
			continue
		}
		var lhs []ast.Expr
		for _, id := range vs.Names {
			lhs = append(lhs, id)
		}
		b.WriteString(c.assignMany(lhs, vs.Values, true, s.Pos()))
	}
	return b.String()
}

func (c *ctx) assign(s *ast.AssignStmt) string {
	switch s.Tok {
	case token.DEFINE:
		return c.assignMany(s.Lhs, s.Rhs, true, s.Pos())
	case token.ASSIGN:
		return c.assignMany(s.Lhs, s.Rhs, false, s.Pos())
	}
	op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
		token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
	if op == token.ILLEGAL {
		fail("assignment operator %s", s.Tok)
	}
	lv := c.lval(s.Lhs[0])
	t := c.typeOf(s.Lhs[0])
	var v string
	if isString(t) {
		v = fmt.Sprintf("(B.app %s %s)", paren(lv.load()), paren(c.expr(s.Rhs[0])))
	} else {
		v = c.binary(op, lv.load(), s.Rhs[0], t, lv.counter, s.Pos())
	}
	st := lv.store(v)
	return c.take() + st + ";\n"
}

func (c *ctx) assignMany(lhs, rhs []ast.Expr, define bool, pos token.Pos) string {
	var b strings.Builder
	// evaluate
	var vals []string
	var ts []types.Type
	if len(lhs) > 1 && len(rhs) == 1 {
		vals, ts = c.multi(rhs[0], len(lhs))
	} else {
		for i, r := range rhs {
			var want types.Type
			if id, ok := lhs[i].(*ast.Ident); ok && (id.Name == "_" || c.p.Info.Defs[id] != nil) {
				if o := c.p.Info.Defs[id]; o != nil {
					want = o.Type()
					if lit, ok := ast.Unparen(r).(*ast.FuncLit); ok {
						// a local helper function: its calls are inlined
						c.vars[o] = &bind{kind: 'f', lit: lit, lp: c.p, lc: c}
						vals = append(vals, "")
						ts = append(ts, nil)
						continue
					}
				}
			} else {
				want = c.typeOf(lhs[i])
			}
			v := c.expr(r)
			rt := c.typeOf(r)
			if want != nil {
				v = c.convert(v, rt, want, r)
			} else {
				want = rt
			}
			vals = append(vals, v)
			ts = append(ts, want)
		}
	}
	if len(lhs) > 1 && len(rhs) > 1 {
		for i := range vals {
			if vals[i] == "" {
				continue
			}
			t := c.tmp("v")
			c.emit("let %s = %s in\n", t, vals[i])
			vals[i] = t
		}
	}
	b.WriteString(c.take())
	for i, l := range lhs {
		if vals[i] == "" && ts[i] == nil {
			continue
		}
		id, isID := l.(*ast.Ident)
		if isID && id.Name == "_" {
			if !isAtom0(vals[i]) {
				b.WriteString(c.discard(vals[i]))
			}
			continue
		}
		if isID && define {
			if o, ok := c.p.Info.Defs[id].(*types.Var); ok && o != nil {
				v := vals[i]
				if len(rhs) != len(lhs) {
					v = c.convert(v, ts[i], o.Type(), nil)
				}
				b.WriteString(c.declare(o, v))
				continue
			}
		}
		lv := c.lval(l)
		v := vals[i]
		if len(rhs) != len(lhs) {
			v = c.convert(v, ts[i], c.typeOf(l), nil)
		}
		st := lv.store(v)
		b.WriteString(c.take() + st + ";\n")
	}
	return b.String()
}

// multi evaluates an expression with several results.
func (c *ctx) multi(e ast.Expr, n int) ([]string, []types.Type) {
	e = ast.Unparen(e)
	switch x := e.(type) {
	case *ast.CallExpr:
		r := c.expr(x)
		t := c.typeOf(x).(*types.Tuple)
		var ws []string
		var ts []types.Type
		for i := 0; i < t.Len(); i++ {
			ws = append(ws, c.g.whyType(t.At(i).Type()))
			ts = append(ts, t.At(i).Type())
		}
		name := c.g.tupleName(ws)
		if !isAtom0(r) {
			v := c.tmp("m")
			c.emit("let %s = %s in\n", v, r)
			r = v
		}
		var out []string
		for i := range ws {
			out = append(out, fmt.Sprintf("%s.%s_%d", r, name, i))
		}
		return out, ts
	case *ast.IndexExpr: // map lookup
		m := ast.Unparen(x.X)
		if id, ok := m.(*ast.Ident); ok {
			if v, ok := c.p.Info.Uses[id].(*types.Var); ok && v.Parent() == v.Pkg().Scope() {
				t := c.g.globalTable(c.g.byPath[v.Pkg().Path()], v)
				k := c.expr(x.Index)
				mt := v.Type().Underlying().(*types.Map)
				return []string{fmt.Sprintf("(%s_get %s)", t, paren(k)), fmt.Sprintf("(%s_has %s)", t, paren(k))}, []types.Type{mt.Elem(), types.Typ[types.Bool]}
			}
		}
	case *ast.TypeAssertExpr:
		v := c.expr(x.X)
		k := c.g.typeKey(c.typeOf(x.Type))
		return []string{v, fmt.Sprintf("(is_%s %s)", strings.ReplaceAll(k, ".", "_"), paren(v))}, []types.Type{c.typeOf(x.X), types.Typ[types.Bool]}
	}
	fail("multiple results at %s", c.g.pos(e.Pos()))
	return nil, nil
}

func (c *ctx) ret(s *ast.ReturnStmt) string {
	var vals []string
	switch {
	case len(s.Results) == 0 && len(c.results) == 0:
		ex := c.hook("exit")
		return ex + c.raiseRet("")
	case len(s.Results) == 0:
		for _, v := range c.named {
			vals = append(vals, c.vars[v].name)
		}
	case len(s.Results) == 1 && len(c.results) > 1:
		vs, ts := c.multi(s.Results[0], len(c.results))
		for i := range vs {
			vals = append(vals, c.convert(vs[i], ts[i], c.results[i], nil))
		}
	default:
		for i, r := range s.Results {
			v := c.expr(r)
			vals = append(vals, c.convert(v, c.typeOf(r), c.results[i], r))
		}
	}
	pre := c.take()
	ex := c.hook("exit")
	return pre + ex + c.raiseRet(c.tuple(vals))
}

func (c *ctx) cond(e ast.Expr) string { return c.expr(e) }

func (c *ctx) ifStmt(s *ast.IfStmt) string {
	return c.scope(func() string {
		var b strings.Builder
		b.WriteString("begin\n")
		if s.Init != nil {
			b.WriteString(c.stmt(s.Init))
		}
		cond := c.cond(s.Cond)
		b.WriteString(c.take())
		fmt.Fprintf(&b, "if %s then %s", cond, c.body(s.Body.List))
		switch e := s.Else.(type) {
		case nil:
		case *ast.BlockStmt:
			b.WriteString(" else " + c.body(e.List))
		case *ast.IfStmt:
			b.WriteString(" else begin\n" + c.ifStmt(e) + "()\nend")
		}
		b.WriteString("\nend;\n")
		return b.String()
	})
}

func hasBreak(list []ast.Stmt) bool {
	found := false
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt, *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					found = true
				}
			}
			return true
		})
	}
	return found
}

func (c *ctx) switchStmt(s *ast.SwitchStmt) string {
	return c.scope(func() string {
		var b strings.Builder
		b.WriteString("begin\n")
		if s.Init != nil {
			b.WriteString(c.stmt(s.Init))
		}
		tag := ""
		var tt types.Type
		if s.Tag != nil {
			tt = c.typeOf(s.Tag)
			v := c.expr(s.Tag)
			b.WriteString(c.take())
			tag = c.tmp("tag")
			fmt.Fprintf(&b, "let %s = %s in\n", tag, v)
		}
		brk := false
		for _, cl := range s.Body.List {
			if hasBreak(cl.(*ast.CaseClause).Body) {
				brk = true
			}
		}
		exc := ""
		if brk {
			exc = c.newExc("unit")
			b.WriteString("try\n")
		}
		c.frames = append(c.frames, loopFrame{brk: "raise " + exc, isSw: true})
		var deflt *ast.CaseClause
		closers := 0
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			if cc.List == nil {
				deflt = cc
				continue
			}
			var conds []string
			for _, e := range cc.List {
				var v string
				if tag == "" {
					v = c.expr(e)
				} else {
					v = c.equal(tag, c.convert(c.expr(e), c.typeOf(e), tt, e), tt)
				}
				conds = append(conds, paren(v))
			}
			b.WriteString(c.take())
			fmt.Fprintf(&b, "(* @%s *)\nif %s then %s else begin\n", c.g.pos(cc.Pos()), strings.Join(conds, " || "), c.body(cc.Body))
			closers++
		}
		if deflt != nil {
			b.WriteString(c.body(deflt.Body))
		} else {
			b.WriteString("()")
		}
		b.WriteString(strings.Repeat("\nend", closers))
		c.frames = c.frames[:len(c.frames)-1]
		if brk {
			fmt.Fprintf(&b, "\nwith %s -> () end", exc)
		}
		b.WriteString("\nend;\n")
		return b.String()
	})
}

func (c *ctx) branch(s *ast.BranchStmt) string {
	lab := ""
	if s.Label != nil {
		lab = s.Label.Name
	}
	for i := len(c.frames) - 1; i >= 0; i-- {
		f := c.frames[i]
		if s.Tok == token.BREAK {
			if lab == "" || lab == f.label {
				if lab != "" && i != len(c.frames)-1 {
					fail("labelled break at %s", c.g.pos(s.Pos()))
				}
				return f.brk + ";\n"
			}
		}
		if s.Tok == token.CONTINUE {
			if f.isSw {
				continue
			}
			if lab == "" || lab == f.label {
				if lab != "" && i != len(c.frames)-1 {
					fail("labelled continue at %s", c.g.pos(s.Pos()))
				}
				return f.cont + ";\n"
			}
		}
	}
	fail("%s at %s", s.Tok, c.g.pos(s.Pos()))
	return ""
}

func (c *ctx) loopSpec(k int, auto []string, variant string) string {
	var b strings.Builder
	for _, a := range auto {
		fmt.Fprintf(&b, "invariant { %s }\n", a)
	}
	v := variant
	if !c.inlined && c.fi.Contract != nil {
		if l := c.fi.Contract.Loops[k]; l != nil {
			for _, i := range l.Inv {
				fmt.Fprintf(&b, "invariant { %s }\n", i)
			}
			if l.Variant != "" {
				v = l.Variant
			}
		}
	}
	if v != "" && v != "none" {
		fmt.Fprintf(&b, "variant { %s }\n", v)
	} else {
		c.fi.Diverges = true
	}
	return b.String()
}

// loopTyping assumes that the variables which the loop changes have values
// of their types.
func (c *ctx) loopTyping(n ast.Node) string {
	var names []string
	regs := map[string]string{}
	seen := map[types.Object]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		id, ok := x.(*ast.Ident)
		if !ok {
			return true
		}
		o := c.p.Info.Uses[id]
		if o == nil || seen[o] {
			return true
		}
		seen[o] = true
		b := c.vars[o]
		if b == nil {
			return true
		}
		if b.kind == 'r' {
			regs[b.name] = c.g.cfg.Structs[b.reg][0]
		}
		if b.kind == 'm' || b.kind == 'p' {
			names = append(names, c.typing(o.Type(), b.name))
		}
		return true
	})
	var rs []string
	for r, k := range regs {
		rs = append(rs, fmt.Sprintf("assume { typed_%s %s };\n", k, r))
	}
	sort.Strings(rs)
	return strings.Join(names, "") + strings.Join(rs, "")
}

func (c *ctx) loop(s ast.Stmt, label string) string {
	c.sh.loop++
	k := c.sh.loop
	return c.scope(func() string {
		var b strings.Builder
		b.WriteString("begin\n")
		switch s := s.(type) {
		case *ast.ForStmt:
			if s.Init != nil {
				b.WriteString(c.stmt(s.Init))
			}
			b.WriteString(c.hook(fmt.Sprintf("loop %d before", k)))
			cond := "true"
			pre := ""
			if s.Cond != nil {
				cond = c.cond(s.Cond)
				pre = c.take()
			}
			fr := loopFrame{label: label, brk: "break", cont: "continue"}
			exc := ""
			if s.Post != nil && hasContinue(s.Body.List) {
				exc = c.newExc("unit")
				fr.cont = "raise " + exc
			}
			spec := c.loopSpec(k, nil, autoVariant(c, s))
			typing := c.loopTyping(s)
			c.frames = append(c.frames, fr)
			if pre == "" {
				fmt.Fprintf(&b, "while %s do\n%s%s", cond, spec, typing)
			} else {
				fmt.Fprintf(&b, "while true do\n%s%s%sif not %s then break;\n", spec, typing, pre, paren(cond))
			}
			b.WriteString(c.hook(fmt.Sprintf("loop %d body", k)))
			body := c.body(s.Body.List)
			if exc != "" {
				body = "try " + body + " with " + exc + " -> () end"
			}
			b.WriteString(body + ";\n")
			if s.Post != nil {
				b.WriteString(c.stmt(s.Post))
			}
			b.WriteString(c.hook(fmt.Sprintf("loop %d end", k)))
			b.WriteString("()\ndone;\n")
			b.WriteString(typing)
			c.frames = c.frames[:len(c.frames)-1]
		case *ast.RangeStmt:
			b.WriteString(c.rangeLoop(s, label, k))
		}
		b.WriteString(c.hook(fmt.Sprintf("loop %d after", k)))
		b.WriteString("()\nend;\n")
		return b.String()
	})
}

// autoVariant recognises loops which count up to a bound.
func autoVariant(c *ctx, s *ast.ForStmt) string {
	be, ok := s.Cond.(*ast.BinaryExpr)
	if !ok || s.Post == nil {
		return ""
	}
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok {
		return ""
	}
	x, ok := be.X.(*ast.Ident)
	y, ok2 := inc.X.(*ast.Ident)
	if !ok || !ok2 || c.p.Info.Uses[x] != c.p.Info.Uses[y] || inc.Tok != token.INC {
		return ""
	}
	bx := c.vars[c.p.Info.Uses[x]]
	if bx == nil {
		return ""
	}
	save := *c.pre
	*c.pre = nil
	bound := c.expr(be.Y)
	clean := len(*c.pre) == 0
	*c.pre = save
	if !clean {
		return ""
	}
	switch be.Op {
	case token.LSS, token.LEQ, token.NEQ:
		return fmt.Sprintf("%s + 1 - %s", bound, bx.name)
	}
	return ""
}

func hasContinue(list []ast.Stmt) bool {
	found := false
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					found = true
				}
			}
			return true
		})
	}
	return found
}

func (c *ctx) rangeLoop(s *ast.RangeStmt, label string, k int) string {
	var b strings.Builder
	t := c.typeOf(s.X)
	idx := fmt.Sprintf("idx%d", k)
	rng := fmt.Sprintf("rng%d", k)
	if c.inlined {
		idx, rng = c.tmp("idx"), c.tmp("rng")
	}
	x := c.expr(s.X)
	b.WriteString(c.take())
	fmt.Fprintf(&b, "let %s = %s in\nlet ref %s = 0 in\n", rng, x, idx)
	b.WriteString(c.hook(fmt.Sprintf("loop %d before", k)))
	length := rng
	mod := ""
	if !isInt(t) {
		if isString(t) {
			fail("range over string")
		}
		if !isSeq(t) && !isPtrSeq(t) {
			fail("range over %s", t)
		}
		mod = c.g.modOf(t)
		length = fmt.Sprintf("(%s.len %s)", mod, rng)
	}
	exc := ""
	fr := loopFrame{label: label, brk: "break", cont: "continue"}
	if hasContinue(s.Body.List) {
		exc = c.newExc("unit")
		fr.cont = "raise " + exc
	}
	spec := c.loopSpec(k, []string{fmt.Sprintf("0 <= %s <= %s", idx, length)}, fmt.Sprintf("%s - %s", length, idx))
	typing := c.loopTyping(s)
	c.frames = append(c.frames, fr)
	fmt.Fprintf(&b, "while %s < %s do\n%s%s", idx, length, spec, typing)
	bindVar := func(e ast.Expr, val string, vt types.Type) {
		id, ok := e.(*ast.Ident)
		if ok && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			v := c.p.Info.Defs[id].(*types.Var)
			b.WriteString(c.declare(v, val))
			b.WriteString(c.typing(v.Type(), c.vars[v].name))
			return
		}
		lv := c.lval(e)
		st := lv.store(val)
		b.WriteString(c.take() + st + ";\n")
	}
	c.scope(func() string {
		if s.Key != nil {
			bindVar(s.Key, idx, types.Typ[types.Int])
		}
		if s.Value != nil {
			bindVar(s.Value, fmt.Sprintf("(%s.get %s %s)", mod, rng, idx), elemOf(t))
		}
		b.WriteString(c.hook(fmt.Sprintf("loop %d body", k)))
		body := c.body(s.Body.List)
		if exc != "" {
			body = "try " + body + " with " + exc + " -> () end"
		}
		b.WriteString(body + ";\n")
		b.WriteString(c.hook(fmt.Sprintf("loop %d end", k)))
		return ""
	})
	fmt.Fprintf(&b, "%s <- %s + 1\ndone;\n", idx, idx)
	b.WriteString(typing)
	c.frames = c.frames[:len(c.frames)-1]
	return b.String()
}

// ---- lvalues ----

type step struct {
	field string // record field
	index string // sequence index
	mod   string
	idx2  bool
	wrap  string // constructor to apply when storing, for optional pointers
}

type lvalue struct {
	c       *ctx
	base    string
	setBase func(v string) string
	steps   []step
	counter bool
}

func (l *lvalue) load() string { return l.loadN(len(l.steps)) }

func (l *lvalue) loadN(n int) string {
	e := l.base
	for _, s := range l.steps[:n] {
		e = loadStep(e, s)
	}
	return e
}

func loadStep(e string, s step) string {
	if s.field != "" {
		return paren(e) + "." + s.field
	}
	return fmt.Sprintf("(%s.get %s %s)", s.mod, paren(e), paren(s.index))
}

func (l *lvalue) store(v string) string {
	return l.setBase(l.rebuild(l.base, l.steps, v))
}

func (l *lvalue) rebuild(e string, st []step, v string) string {
	if len(st) == 0 {
		return v
	}
	s := st[0]
	inner := l.rebuild(loadStep(e, s), st[1:], v)
	if s.field != "" {
		return fmt.Sprintf("{ %s with %s = %s }", paren(e), s.field, inner)
	}
	return fmt.Sprintf("(%s.upd %s %s %s)", s.mod, paren(e), paren(s.index), paren(inner))
}

func (c *ctx) boundsCheck(idx, length string, pos token.Pos, what string) {
	c.check(what, pos, fmt.Sprintf("0 <= %s < %s", idx, length))
}

func (c *ctx) lval(e ast.Expr) *lvalue {
	e = ast.Unparen(e)
	switch x := e.(type) {
	case *ast.Ident:
		o := c.p.Info.Uses[x]
		if o == nil {
			o = c.p.Info.Defs[x]
		}
		if b := c.vars[o]; b != nil {
			switch b.kind {
			case 'm':
				return &lvalue{c: c, base: b.name, setBase: func(v string) string { return b.name + " <- " + v }}
			case 'p':
				return &lvalue{c: c, base: b.name, setBase: func(v string) string {
					c.fi.RefWrites[b.prm.Name] = true
					return b.name + " <- " + v
				}}
			case 'r':
				return &lvalue{c: c, base: b.name, setBase: func(v string) string { fail("assignment to region %s", b.name); return "" }}
			}
		}
		if v, ok := o.(*types.Var); ok && c.fi.Contract != nil {
			for _, gv := range c.fi.Contract.GlobalVars {
				if gv[0] == c.globalKey(v) {
					n := gv[1]
					return &lvalue{c: c, base: n, setBase: func(v string) string { return n + " <- " + v }}
				}
			}
		}
		fail("cannot assign %s at %s", x.Name, c.g.pos(x.Pos()))
	case *ast.StarExpr:
		return c.lval(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return c.lval(x.X)
		}
	case *ast.SelectorExpr:
		sel := c.p.Info.Selections[x]
		if sel == nil {
			fail("cannot assign %s", x.Sel.Name)
		}
		base := c.lval(x.X)
		cur := c.typeOf(x.X)
		for _, i := range sel.Index() {
			st := structOf(cur)
			f := st.Field(i)
			base = c.fieldLV(base, cur, f)
			cur = f.Type()
		}
		return base
	case *ast.IndexExpr:
		base := c.lval(x.X)
		t := c.typeOf(x.X)
		idx := c.expr(x.Index)
		if !isAtom0(idx) {
			v := c.tmp("ix")
			c.emit("let %s = %s in\n", v, idx)
			idx = v
		} else if isMutName(idx) {
			v := c.tmp("ix")
			c.emit("let %s = %s in\n", v, idx)
			idx = v
		}
		et := elemOf(t)
		mod := "T2"
		if !isSeq(et) || isString(et) {
			mod = c.g.modOf(t)
		}
		c.boundsCheck(idx, fmt.Sprintf("%s.len %s", mod, paren(base.load())), x.Pos(), "index in range")
		n := *base
		n.steps = append(append([]step{}, base.steps...), step{index: idx, mod: mod})
		n.counter = false
		return &n
	}
	fail("not assignable: %T at %s", e, c.g.pos(e.Pos()))
	return nil
}

func isMutName(s string) bool { return s != "" && (s[0] < '0' || s[0] > '9') }

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		fail("not a struct: %s", t)
	}
	return st
}

func (c *ctx) fieldLV(base *lvalue, t types.Type, f *types.Var) *lvalue {
	k := c.g.typeKey(t)
	if k == "bitwriter" && c.inst != "" {
		k = c.inst
	}
	w, ok := c.g.cfg.Structs[k]
	if !ok {
		fail("struct %s has no model", k)
	}
	if c.g.dropped(k, f) {
		fail("field %s.%s is not modelled", k, f.Name())
	}
	c.g.needStruct(t)
	name := w[1] + fieldName(f.Name())
	if c.g.cfg.Regions[k] && len(base.steps) == 0 {
		reg := base.base
		var prm *Param
		for _, b := range c.vars {
			if b.kind == 'r' && b.name == reg {
				prm = b.prm
			}
		}
		return &lvalue{c: c, base: reg + "." + name, counter: c.g.cfg.Counters[k+"."+f.Name()], setBase: func(v string) string {
			if prm != nil {
				c.fi.RegWrites[prm.Name][name] = true
			}
			return reg + "." + name + " <- " + v
		}}
	}
	n := *base
	n.steps = append(append([]step{}, base.steps...), step{field: name})
	n.counter = c.g.cfg.Counters[k+"."+f.Name()]
	return &n
}

func (c *ctx) globalKey(v *types.Var) string {
	if s := c.g.shortPkg(v.Pkg()); s != "" {
		return s + "." + v.Name()
	}
	return v.Name()
}

// ---- expressions ----

func (c *ctx) exprAs(e ast.Expr, want types.Type) string {
	return c.convert(c.expr(e), c.typeOf(e), want, e)
}

// convert adapts a value to the type of the place it goes to.
func (c *ctx) convert(v string, from, to types.Type, e ast.Expr) string {
	if to == nil || from == nil {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return c.g.zero(to)
	}
	if isErr(to) && !isErr(from) {
		if _, isIface := from.Underlying().(*types.Interface); !isIface {
			if k := c.g.typeKey(from); k == "CorruptInputError" {
				return "ErrCorrupt"
			}
			return "ErrOther"
		}
	}
	return v
}

func (c *ctx) expr(e ast.Expr) string {
	e = ast.Unparen(e)
	tv, ok := c.p.Info.Types[e]
	if ok && tv.Value != nil {
		if tv.Value.Kind() == constant.String {
			return c.g.strConst(constant.StringVal(tv.Value))
		}
		v := tv.Value
		if isInt(tv.Type) {
			v = constant.ToInt(v)
		}
		if s := constStr(v); s != "" {
			return s
		}
		fail("constant at %s", c.g.pos(e.Pos()))
	}
	switch x := e.(type) {
	case *ast.Ident:
		return c.ident(x)
	case *ast.SelectorExpr:
		return c.selector(x)
	case *ast.StarExpr:
		return c.expr(x.X)
	case *ast.UnaryExpr:
		return c.unary(x)
	case *ast.BinaryExpr:
		return c.binExpr(x)
	case *ast.IndexExpr:
		return c.index(x)
	case *ast.SliceExpr:
		return c.slice(x)
	case *ast.CallExpr:
		return c.call(x)
	case *ast.CompositeLit:
		return c.composite(x)
	case *ast.FuncLit:
		cons := c.g.litCons[x]
		if cons == nil {
			fail("function literal at %s", c.g.pos(x.Pos()))
		}
		c.g.fnType(c.typeOf(x).(*types.Signature))
		s := cons.name
		for _, v := range cons.caps {
			b := c.vars[v]
			if b == nil || b.kind == 'r' {
				fail("captured variable %s", v.Name())
			}
			s += " " + b.name
		}
		return paren(s)
	case *ast.TypeAssertExpr:
		fail("type assertion at %s", c.g.pos(x.Pos()))
	}
	fail("expression %T at %s", e, c.g.pos(e.Pos()))
	return ""
}

func (c *ctx) ident(x *ast.Ident) string {
	o := c.p.Info.Uses[x]
	if o == nil {
		o = c.p.Info.Defs[x]
	}
	if b := c.vars[o]; b != nil {
		if b.kind == 'f' {
			fail("function value %s", x.Name)
		}
		return b.name
	}
	switch v := o.(type) {
	case *types.Nil:
		return "nil"
	case *types.Var:
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return c.global(v)
		}
	case *types.Func:
		if k := c.g.namedCons[v]; k != nil {
			c.g.fnType(v.Type().(*types.Signature))
			return k.name
		}
	}
	fail("identifier %s at %s", x.Name, c.g.pos(x.Pos()))
	return ""
}

func (c *ctx) global(v *types.Var) string {
	key := c.globalKey(v)
	if c.fi.Contract != nil {
		for _, gv := range c.fi.Contract.GlobalVars {
			if gv[0] == key {
				return gv[1]
			}
		}
	}
	if t, ok := c.g.cfg.Globals[key]; ok {
		return t
	}
	p := c.g.byPath[v.Pkg().Path()]
	if p == nil {
		fail("global %s has no model", key)
	}
	return c.g.globalTable(p, v)
}

func (c *ctx) selector(x *ast.SelectorExpr) string {
	sel := c.p.Info.Selections[x]
	if sel == nil { // package-qualified
		switch v := c.p.Info.Uses[x.Sel].(type) {
		case *types.Var:
			return c.global(v)
		}
		fail("selector %s", x.Sel.Name)
	}
	if sel.Kind() != types.FieldVal {
		fail("method value %s", x.Sel.Name)
	}
	base := c.expr(x.X)
	cur := c.typeOf(x.X)
	for _, i := range sel.Index() {
		f := structOf(cur).Field(i)
		k := c.g.typeKey(cur)
		w, ok := c.g.cfg.Structs[k]
		if !ok {
			fail("struct %s has no model", k)
		}
		if c.g.dropped(k, f) {
			fail("field %s.%s is not modelled", k, f.Name())
		}
		c.g.needStruct(cur)
		base = paren(base) + "." + w[1] + fieldName(f.Name())
		cur = f.Type()
	}
	return base
}

func (c *ctx) unary(x *ast.UnaryExpr) string {
	t := c.typeOf(x)
	switch x.Op {
	case token.NOT:
		return "(not " + paren(c.expr(x.X)) + ")"
	case token.SUB:
		return fmt.Sprintf("(wrap_%s (- %s))", intName(t), paren(c.expr(x.X)))
	case token.ADD:
		return c.expr(x.X)
	case token.XOR:
		bits, signed := intBits(t)
		if signed {
			return fmt.Sprintf("(- %s - 1)", paren(c.expr(x.X)))
		}
		return fmt.Sprintf("(%s - %s)", maxU(bits), paren(c.expr(x.X)))
	case token.AND:
		if cl, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok && types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			if _, known := c.g.cfg.Structs[c.g.typeKey(t)]; !known {
				for _, el := range cl.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						el = kv.Value
					}
					_ = c.expr(el)
				}
				return "ErrOther"
			}
		}
		return c.expr(x.X)
	}
	fail("unary %s", x.Op)
	return ""
}

func maxU(bits int) string {
	n := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	return n.Sub(n, big.NewInt(1)).String()
}

func pow2(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() }

func (c *ctx) constOf(e ast.Expr) (*big.Int, bool) {
	tv := c.p.Info.Types[e]
	if tv.Value == nil {
		return nil, false
	}
	v := constant.ToInt(tv.Value)
	if v.Kind() != constant.Int {
		return nil, false
	}
	b, ok := new(big.Int).SetString(v.ExactString(), 10)
	return b, ok
}

func (c *ctx) binExpr(x *ast.BinaryExpr) string {
	switch x.Op {
	case token.LAND, token.LOR:
		l := c.expr(x.X)
		save := *c.pre
		*c.pre = nil
		r := c.expr(x.Y)
		rpre := c.take()
		*c.pre = save
		op := "&&"
		if x.Op == token.LOR {
			op = "||"
		}
		if rpre == "" {
			return fmt.Sprintf("(%s %s %s)", paren(l), op, paren(r))
		}
		v := c.tmp("b")
		c.emit("let ref %s = %s in\n", v, l)
		cond := v
		if x.Op == token.LOR {
			cond = "(not " + v + ")"
		}
		c.emit("if %s then begin\n%s%s <- %s\nend;\n", cond, rpre, v, r)
		return v
	case token.EQL, token.NEQ:
		tx, ty := c.typeOf(x.X), c.typeOf(x.Y)
		if b, ok := tx.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			tx, ty = ty, tx
			x = &ast.BinaryExpr{X: x.Y, Op: x.Op, Y: x.X, OpPos: x.OpPos}
		}
		l := c.expr(x.X)
		var r string
		if b, ok := ty.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			if _, ok := tx.Underlying().(*types.Slice); ok {
				r = fmt.Sprintf("(%s.len %s = 0)", c.g.modOf(tx), paren(l))
			} else {
				r = c.equal(l, c.g.zero(tx), tx)
			}
		} else {
			r = c.equal(l, c.expr(x.Y), tx)
		}
		if x.Op == token.NEQ {
			return "(not " + paren(r) + ")"
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if !isInt(c.typeOf(x.X)) {
			fail("ordering of %s", c.typeOf(x.X))
		}
		l := c.expr(x.X)
		r := c.expr(x.Y)
		return fmt.Sprintf("(%s %s %s)", paren(l), x.Op, paren(r))
	}
	t := c.typeOf(x)
	if isString(t) {
		return fmt.Sprintf("(B.app %s %s)", paren(c.expr(x.X)), paren(c.expr(x.Y)))
	}
	l := c.expr(x.X)
	return c.binaryX(x.Op, l, x.X, x.Y, t, false, x.Pos())
}

func (c *ctx) equal(a, b string, t types.Type) string {
	switch {
	case isInt(t):
		return fmt.Sprintf("(%s = %s)", paren(a), paren(b))
	case isBool(t):
		return fmt.Sprintf("(beq %s %s)", paren(a), paren(b))
	case isErr(t):
		return fmt.Sprintf("(err_eq %s %s)", paren(a), paren(b))
	case isString(t):
		return fmt.Sprintf("(B.eqb %s %s)", paren(a), paren(b))
	}
	w := c.g.whyType(t)
	return fmt.Sprintf("(eq_%s %s %s)", strings.ReplaceAll(w, ".", "_"), paren(a), paren(b))
}

func (c *ctx) binary(op token.Token, l string, y ast.Expr, t types.Type, counter bool, pos token.Pos) string {
	return c.binaryX(op, l, nil, y, t, counter, pos)
}

// maskOf decomposes a constant into ones at positions [lo, lo+n).
func maskOf(v *big.Int) (lo, n int, ok bool) {
	if v.Sign() <= 0 {
		return 0, 0, false
	}
	lo = int(v.TrailingZeroBits())
	w := new(big.Int).Rsh(v, uint(lo))
	n = w.BitLen()
	w.Add(w, big.NewInt(1))
	if w.BitLen() != n+1 || w.TrailingZeroBits() != uint(n) {
		return 0, 0, false
	}
	return lo, n, true
}

func (c *ctx) masked(x string, m *big.Int, t types.Type) (string, bool) {
	bits, signed := intBits(t)
	if m.Sign() == 0 {
		return "0", true
	}
	lo, n, ok := maskOf(m)
	if !ok {
		return "", false
	}
	e := paren(x)
	if lo > 0 {
		e = fmt.Sprintf("(ediv %s %s)", e, pow2(lo))
	}
	if signed || lo+n < bits {
		e = fmt.Sprintf("(emod %s %s)", e, pow2(n))
	}
	if lo > 0 {
		e = fmt.Sprintf("(%s * %s)", e, pow2(lo))
	}
	return e, true
}

func (c *ctx) binaryX(op token.Token, l string, lx, y ast.Expr, t types.Type, counter bool, pos token.Pos) string {
	if op == token.AND {
		if m, ok := c.constOf(y); ok {
			if s, ok := c.masked(l, m, t); ok {
				return s
			}
		}
		if lx != nil {
			if m, ok := c.constOf(lx); ok {
				if s, ok := c.masked(c.expr(y), m, t); ok {
					return s
				}
			}
		}
	}
	r := c.expr(y)
	var k *big.Int
	if v, ok := c.constOf(y); ok {
		k = v
	}
	return c.arith(op, l, r, t, counter, pos, k)
}

// arith renders an integer operation of type t.
func (c *ctx) arith(op token.Token, l, r string, t types.Type, counter bool, pos token.Pos, k *big.Int) string {
	if !isInt(t) {
		fail("arithmetic on %s", t)
	}
	w := "wrap_" + intName(t)
	_, signed := intBits(t)
	l, r = paren(l), paren(r)
	switch op {
	case token.ADD, token.SUB, token.MUL:
		e := fmt.Sprintf("(%s %s %s)", l, op, r)
		if counter {
			return e
		}
		return fmt.Sprintf("(%s %s)", w, e)
	case token.QUO, token.REM:
		if k == nil {
			c.check("division by zero", pos, r+" <> 0")
		}
		f := "ediv"
		if op == token.REM {
			f = "emod"
		}
		if signed {
			f = "t" + f[1:]
		}
		e := fmt.Sprintf("(%s %s %s)", f, l, r)
		if signed && op == token.QUO {
			e = fmt.Sprintf("(%s %s)", w, e)
		}
		return e
	case token.AND:
		return fmt.Sprintf("(band %s %s)", l, r)
	case token.OR:
		return fmt.Sprintf("(bor %s %s)", l, r)
	case token.XOR:
		return fmt.Sprintf("(bxor %s %s)", l, r)
	case token.AND_NOT:
		return fmt.Sprintf("(bandnot %s %s)", l, r)
	case token.SHL:
		bits, _ := intBits(t)
		if k != nil && k.IsInt64() && k.Int64() <= 64 {
			if int(k.Int64()) >= bits {
				return "0"
			}
			return fmt.Sprintf("(%s (%s * %s))", w, l, pow2(int(k.Int64())))
		}
		c.check("shift count", pos, "0 <= "+r)
		return fmt.Sprintf("(%s (%s * pow2 %s))", w, l, r)
	case token.SHR:
		if k != nil && k.IsInt64() && k.Int64() <= 64 {
			return fmt.Sprintf("(ediv %s %s)", l, pow2(int(k.Int64())))
		}
		c.check("shift count", pos, "0 <= "+r)
		return fmt.Sprintf("(shr %s %s)", l, r)
	}
	fail("operator %s", op)
	return ""
}

func (c *ctx) index(x *ast.IndexExpr) string {
	t := c.typeOf(x.X)
	if m, ok := t.Underlying().(*types.Map); ok {
		vs, _ := c.multi(x, 2)
		_ = m
		return vs[0]
	}
	base := c.expr(x.X)
	idx := c.expr(x.Index)
	et := elemOf(t)
	mod := "T2"
	if !isSeq(et) || isString(et) {
		mod = c.g.modOf(t)
	}
	if a, ok := arrayOf(t); ok {
		if k, ok := c.constOf(x.Index); ok && k.IsInt64() && k.Int64() < a {
			return fmt.Sprintf("(%s.get %s %s)", mod, paren(base), paren(idx))
		}
		c.boundsCheck(idx, fmt.Sprint(a), x.Pos(), "index in range")
	} else {
		c.boundsCheck(idx, fmt.Sprintf("%s.len %s", mod, paren(base)), x.Pos(), "index in range")
	}
	return fmt.Sprintf("(%s.get %s %s)", mod, paren(base), paren(idx))
}

func arrayOf(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return a.Len(), true
}

func (c *ctx) sliceBounds(x *ast.SliceExpr, base string, mod string) (lo, hi string) {
	lo, hi = "0", fmt.Sprintf("(%s.len %s)", mod, paren(base))
	if x.Low != nil {
		lo = c.expr(x.Low)
	}
	if x.High != nil {
		hi = c.expr(x.High)
	}
	if x.Low != nil || x.High != nil {
		n := fmt.Sprintf("%s.len %s", mod, paren(base))
		f := fmt.Sprintf("0 <= %s <= %s", lo, n)
		if x.High != nil {
			f = fmt.Sprintf("0 <= %s <= %s <= %s", lo, hi, n)
		}
		c.check("slice bounds", x.Pos(), f)
	}
	return
}

func (c *ctx) slice(x *ast.SliceExpr) string {
	t := c.typeOf(x.X)
	base := c.expr(x.X)
	mod := c.g.modOf(t)
	if x.Low == nil && x.High == nil {
		return base
	}
	lo, hi := c.sliceBounds(x, base, mod)
	return fmt.Sprintf("(%s.sub %s %s %s)", mod, paren(base), paren(lo), paren(hi))
}

func (c *ctx) composite(x *ast.CompositeLit) string {
	t := c.typeOf(x)
	k := c.g.typeKey(t)
	if _, ok := c.g.cfg.Types[k]; ok {
		for _, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				e = kv.Value
			}
			_ = e
		}
		return "lit_" + strings.ReplaceAll(k, ".", "_")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		w, ok := c.g.cfg.Structs[k]
		if !ok {
			fail("struct %s has no model", k)
		}
		c.g.needStruct(t)
		vals := map[string]string{}
		set := func(f *types.Var, e ast.Expr) {
			if c.g.dropped(k, f) {
				return
			}
			if opt := c.g.optField(k, f); opt != "" {
				if id, ok := ast.Unparen(e).(*ast.Ident); ok && id.Name == "nil" {
					vals[f.Name()] = "Nil_" + opt
				} else {
					vals[f.Name()] = "(Ptr_" + opt + " " + paren(c.expr(e)) + ")"
				}
				return
			}
			vals[f.Name()] = c.exprAs(e, f.Type())
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						set(u.Field(j), kv.Value)
					}
				}
			} else {
				set(u.Field(i), el)
			}
		}
		var fs []string
		for j := 0; j < u.NumFields(); j++ {
			f := u.Field(j)
			if c.g.dropped(k, f) {
				continue
			}
			v, ok := vals[f.Name()]
			if !ok {
				v = c.g.zeroField(k, f)
			}
			fs = append(fs, w[1]+f.Name()+" = "+v)
		}
		for _, gf := range c.g.cfg.Ghost {
			if gf.Struct == k {
				fs = append(fs, gf.Name+" = ghost_zero_"+gf.Name)
			}
		}
		return "{ " + strings.Join(fs, "; ") + " }"
	case *types.Array, *types.Slice:
		mod := c.g.modOf(t)
		var e string
		if a, ok := u.(*types.Array); ok {
			e = c.g.zero(a)
			idx := 0
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					b, _ := c.constOf(kv.Key)
					idx = int(b.Int64())
					el = kv.Value
				}
				e = fmt.Sprintf("(%s.upd %s %d %s)", mod, paren(e), idx, paren(c.exprAs(el, a.Elem())))
				idx++
			}
			return e
		}
		e = mod + ".empty"
		for _, el := range x.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				fail("keyed slice literal")
			}
			e = fmt.Sprintf("(%s.snoc %s %s)", mod, e, paren(c.exprAs(el, elemOf(t))))
		}
		return e
	}
	fail("composite literal of %s", t)
	return ""
}

// ---- calls ----

func (c *ctx) callee(x *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		fn, _ := c.p.Info.Uses[f].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := c.p.Info.Uses[f.Sel].(*types.Func)
		return fn
	}
	return nil
}

func (c *ctx) call(x *ast.CallExpr) string {
	// conversions
	if tv, ok := c.p.Info.Types[x.Fun]; ok && tv.IsType() {
		return c.conversion(x, tv.Type)
	}
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := c.p.Info.Uses[id].(*types.Builtin); ok {
			return c.builtin(b.Name(), x)
		}
		if b := c.vars[c.p.Info.Uses[id]]; b != nil && b.kind == 'f' {
			return c.inlineLit(b.lit, b.lp, x, "")
		}
	}
	if lit, ok := ast.Unparen(x.Fun).(*ast.FuncLit); ok {
		return c.inlineLit(lit, c.p, x, "")
	}
	fn := c.callee(x)
	if fn == nil {
		return c.callValue(x)
	}
	fn = fn.Origin()
	key := c.g.funcKey(fn)
	switch key {
	case "assert.NotNil":
		return "()"
	case "assert.Assert", "assert.Assertf":
		cond := c.expr(x.Args[0])
		v := c.tmp("b")
		c.emit("let %s = %s in\n", v, cond)
		c.check("assertion", x.Pos(), v+" = True")
		return "()"
	case "assert.Raise", "assert.Raisef", "panic":
		c.emit("assert { %s false };\nabsurd;\n", c.expl("unreachable panic", x.Pos()))
		return "()"
	}
	sel, _ := ast.Unparen(x.Fun).(*ast.SelectorExpr)
	sig := fn.Type().(*types.Signature)
	var recv ast.Expr
	if sig.Recv() != nil {
		recv = sel.X
		// interface with a known implementation
		if c.g.typeKey(sig.Recv().Type()) == "bitwriter" || c.g.typeKey(c.typeOf(recv)) == "bitwriter" {
			fn = c.g.methodOf(c.inst, fn.Name())
			key = c.g.funcKey(fn)
			sig = fn.Type().(*types.Signature)
		}
		// synchronisation primitives and other fields outside the model
		if s, ok := ast.Unparen(recv).(*ast.SelectorExpr); ok {
			if fs := c.p.Info.Selections[s]; fs != nil && fs.Kind() == types.FieldVal {
				owner := c.g.typeKey(c.typeOf(s.X))
				f := fs.Obj().(*types.Var)
				if c.g.dropped(owner, f) {
					return c.syncCall(owner, f.Name(), fn.Name(), s.X, x)
				}
			}
		}
		if c.g.cfg.Drop[c.g.typeKey(c.typeOf(recv))] {
			if key == "sync.Once.Do" {
				return "()"
			}
			return "()"
		}
	}
	name := fn.Name()
	c.emit("%s", c.hookBefore(name))
	var r string
	if c.g.declOf[fn] != nil {
		r = c.internalCall(fn, recv, x)
	} else {
		ct := c.g.cfg.Contracts[key]
		if ct == nil && recv != nil {
			ct = c.g.cfg.Contracts[c.g.typeKey(c.typeOf(recv))+"."+fn.Name()]
		}
		if ct == nil {
			fail("call of %s which has no contract", key)
		}
		r = c.externCall(ct, x, recv, sig)
	}
	c.emit("%s", c.hookAfter(name, r))
	return r
}

func (c *ctx) hookBefore(name string) string {
	if c.inlined {
		return c.closureHook("before ", name)
	}
	c.sh.calls[name]++
	return c.hook("before "+name) + c.hook(fmt.Sprintf("before %s %d", name, c.sh.calls[name]))
}

// closureHook gives the hooks around a call in a function literal which is
// inlined where its value is called.
func (c *ctx) closureHook(when, name string) string {
	if c.closure == "" || c.fi.Contract == nil {
		return ""
	}
	var b strings.Builder
	for _, h := range c.fi.Contract.Hooks[when+c.closure+"."+name] {
		b.WriteString(h + ";\n")
	}
	return b.String()
}

// hookAfter gives the hooks behind a call; those which speak about its RESULT
// come at once, the others behind the statement of the call.
func (c *ctx) hookAfter(name, r string) string {
	if c.inlined {
		return strings.ReplaceAll(c.closureHook("after ", name), "RESULT", r)
	}
	h := c.hook("after "+name) + c.hook(fmt.Sprintf("after %s %d", name, c.sh.calls[name]))
	if strings.Contains(h, "RESULT") {
		return strings.ReplaceAll(h, "RESULT", r)
	}
	if c.defer_ {
		c.after += h
		return ""
	}
	return h
}

func (g *Gen) methodOf(inst, name string) *types.Func {
	if fn := g.byKey[inst+"."+name]; fn != nil {
		return fn
	}
	fail("no method %s.%s", inst, name)
	return nil
}

// syncCall handles calls on fields which the model leaves out.
func (c *ctx) syncCall(owner, field, method string, base ast.Expr, x *ast.CallExpr) string {
	key := owner + "." + field + "." + method
	ct := c.g.cfg.Contracts[key]
	if ct == nil {
		return "()"
	}
	c.emit("%s", c.hookBefore(field+"."+method))
	r := c.externCall(ct, x, base, nil)
	c.emit("%s", c.hookAfter(field+"."+method, r))
	return r
}

type actual struct {
	text  string
	after string
}

// refArg passes a place by reference through a temporary.
func (c *ctx) refArg(e ast.Expr) actual {
	e = ast.Unparen(e)
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		e = ast.Unparen(u.X)
	}
	if call, ok := e.(*ast.CallExpr); ok {
		if tv, ok := c.p.Info.Types[call.Fun]; ok && tv.IsType() {
			return c.refArg(call.Args[0])
		}
		// a fresh value, such as make([]byte, n)
		v := c.expr(e)
		t := c.tmp("r")
		c.emit("let ref %s = %s in\n", t, v)
		return actual{text: t}
	}
	if s, ok := e.(*ast.SliceExpr); ok {
		t0 := c.typeOf(s.X)
		mod := c.g.modOf(t0)
		var lv *lvalue
		if id, ok := ast.Unparen(s.X).(*ast.Ident); ok {
			lv = c.lval(id)
		} else {
			lv = c.lval(s.X)
		}
		base := lv.load()
		lo, hi := "0", ""
		if s.Low == nil && s.High == nil {
			t := c.tmp("r")
			c.emit("let ref %s = %s in\n", t, base)
			return actual{text: t, after: lv.store(t) + ";\n"}
		}
		lo, hi = c.sliceBounds(s, base, mod)
		t := c.tmp("r")
		l := c.tmp("lo")
		c.emit("let %s = %s in\nlet ref %s = %s.sub %s %s %s in\n", l, lo, t, mod, paren(base), l, paren(hi))
		return actual{text: t, after: lv.store(fmt.Sprintf("(%s.splice %s %s %s)", mod, paren(base), l, t)) + ";\n"}
	}
	lv := c.lval(e)
	t := c.tmp("r")
	c.emit("let ref %s = %s in\n", t, lv.load())
	return actual{text: t, after: lv.store(t) + ";\n"}
}

func (c *ctx) regionArg(e ast.Expr) (string, *bind) {
	e = ast.Unparen(e)
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		e = ast.Unparen(u.X)
	}
	if id, ok := e.(*ast.Ident); ok {
		if b := c.vars[c.p.Info.Uses[id]]; b != nil && b.kind == 'r' {
			return b.name, b
		}
	}
	fail("region argument at %s", c.g.pos(e.Pos()))
	return "", nil
}

func (c *ctx) isRegionExpr(e ast.Expr) bool {
	e = ast.Unparen(e)
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		e = ast.Unparen(u.X)
	}
	if id, ok := e.(*ast.Ident); ok {
		b := c.vars[c.p.Info.Uses[id]]
		return b != nil && b.kind == 'r'
	}
	return false
}

func (c *ctx) bindResult(call string, resTypes []types.Type, after string) string {
	var ret string
	switch len(resTypes) {
	case 0:
		c.emit("%s;\n%s", call, after)
		return "()"
	case 1:
		ret = c.tmp("c")
		c.emit("let %s = %s in\n%s", ret, call, after)
		c.emit("%s", c.typing(resTypes[0], ret))
		return ret
	}
	var ws []string
	for _, t := range resTypes {
		ws = append(ws, c.g.whyType(t))
	}
	n := c.g.tupleName(ws)
	ret = c.tmp("c")
	c.emit("let %s = %s in\n%s", ret, call, after)
	for i, t := range resTypes {
		c.emit("%s", c.typing(t, fmt.Sprintf("%s.%s_%d", ret, n, i)))
	}
	return ret
}

func (c *ctx) externCall(ct *Contract, x *ast.CallExpr, recv ast.Expr, sig *types.Signature) string {
	names, refs, typs := externParams(ct.Sig)
	var args []ast.Expr
	if recv != nil {
		if st, ok := c.typeOf(recv).Underlying().(*types.Struct); ok && st.NumFields() == 0 {
			recv = nil // no state
		}
	}
	if recv != nil {
		args = append(args, recv)
	}
	args = append(args, x.Args...)
	var texts []string
	after := ""
	seen := map[string]*bind{}
	n := 0
	for i := range names {
		if n >= len(args) {
			fail("too few arguments for %s", ct.Key)
		}
		e := args[n]
		// receivers and arguments which the contract leaves out
		n++
		if c.isRegionExpr(e) {
			t, b := c.regionArg(e)
			seen[names[i]] = b
			texts = append(texts, t)
			continue
		}
		if refs[i] {
			a := c.refArg(e)
			texts = append(texts, a.text)
			after += a.after
			continue
		}
		v := c.expr(e)
		if sig != nil {
			j := n - 1
			if recv != nil {
				j--
			}
			if j >= 0 && j < sig.Params().Len() {
				v = c.convert(v, c.typeOf(e), sig.Params().At(j).Type(), e)
			}
		}
		_ = typs
		texts = append(texts, paren(v))
	}
	if len(texts) == 0 {
		texts = []string{"()"}
	}
	// remaining arguments are evaluated for their effects only
	for ; n < len(args); n++ {
		if _, isLit := ast.Unparen(args[n]).(*ast.BasicLit); !isLit && recvMode(args[n]) {
			c.sideEffects(args[n])
		}
	}
	c.fi.Externs[ct.Key] = ct
	for _, w := range ct.Writes {
		if i := strings.Index(w, "."); i > 0 {
			if b := seen[w[:i]]; b != nil && b.prm != nil {
				c.fi.RegWrites[b.prm.Name][w[i+1:]] = true
			}
		}
	}
	var rts []types.Type
	if t := c.p.Info.TypeOf(x); t != nil {
		if tup, ok := t.(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				rts = append(rts, tup.At(i).Type())
			}
		} else {
			rts = append(rts, t)
		}
	}
	if ct.Sig == "" {
		fail("%s: contract without signature", ct.Key)
	}
	if strings.HasPrefix(ct.Key, "go.") || externRet(ct.Sig) == "unit" {
		rts = nil
	}
	return c.bindResult(externName(ct.Key)+" "+strings.Join(texts, " "), rts, after)
}

func recvMode(e ast.Expr) bool { return true }

// sideEffects evaluates an argument whose value is not modelled.
func (c *ctx) sideEffects(e ast.Expr) {
	has := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(*ast.CallExpr); ok {
			if tv, ok := c.p.Info.Types[x.Fun]; !ok || !tv.IsType() {
				if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
					if _, ok := c.p.Info.Uses[id].(*types.Builtin); ok {
						return true
					}
				}
				has = true
			}
		}
		if _, ok := n.(*ast.IndexExpr); ok {
			has = true
		}
		return true
	})
	if has {
		v := c.expr(e)
		if !isAtom0(v) {
			c.emit("let _ = %s in\n", v)
		}
	}
}

func (c *ctx) internalCall(fn *types.Func, recv ast.Expr, x *ast.CallExpr) string {
	sig := fn.Type().(*types.Signature)
	// which implementation of bitwriter does the callee get?
	inst := ""
	var args []ast.Expr
	if recv != nil {
		args = append(args, recv)
	}
	args = append(args, x.Args...)
	for i, e := range args {
		j := i
		if recv != nil {
			j--
		}
		if j >= 0 && j < sig.Params().Len() && c.g.typeKey(sig.Params().At(j).Type()) == "bitwriter" {
			_, b := c.regionArg(e)
			inst = b.reg
		}
	}
	key := c.g.funcKey(fn)
	if inst != "" {
		key += "<" + inst + ">"
	}
	if ct := c.g.cfg.Contracts[key]; ct == nil {
		return c.inline(fn, inst, args, x)
	}
	fi := c.g.Info(fn, inst)
	if fi.Err != nil && len(fi.Params) == 0 {
		panic(unsupported{fi.Err.Error()})
	}
	c.fi.Calls[key] = fi
	if fi.Diverges {
		c.fi.Diverges = true
	}
	var texts []string
	after := ""
	for i, p := range fi.Params {
		switch p.Mode {
		case "drop":
			for _, e := range args[i:] {
				c.sideEffects(e)
			}
			continue
		case "region":
			t, b := c.regionArg(args[i])
			texts = append(texts, t)
			if b.prm != nil {
				for f := range fi.RegWrites[p.Name] {
					c.fi.RegWrites[b.prm.Name][f] = true
				}
			}
		case "ref":
			a := c.refArg(args[i])
			texts = append(texts, a.text)
			after += a.after
		default:
			v := c.exprAs(args[i], p.Type)
			texts = append(texts, paren(v))
		}
	}
	if len(texts) == 0 {
		texts = []string{"()"}
	}
	return c.bindResult(whyName(key)+" "+strings.Join(texts, " "), fi.Results, after)
}

// inline translates the callee's body in place of the call.
func (c *ctx) inline(fn *types.Func, inst string, args []ast.Expr, x *ast.CallExpr) string {
	decl := c.g.declOf[fn]
	if decl.Body == nil {
		fail("call of %s which has no body and no contract", fn.Name())
	}
	for _, f := range c.stack {
		if f == fn {
			fail("recursive call of %s", fn.Name())
		}
	}
	sig := fn.Type().(*types.Signature)
	sub := &ctx{g: c.g, fi: c.fi, p: c.g.pkgOf[fn], inst: c.inst, vars: map[types.Object]*bind{}, pre: new([]string), sh: c.sh, loopN: c.loopN, inlined: true, stack: append(append([]*types.Func{}, c.stack...), fn)}
	if inst != "" {
		sub.inst = inst
	}
	for i := 0; i < sig.Results().Len(); i++ {
		sub.results = append(sub.results, sig.Results().At(i).Type())
	}
	var params []*types.Var
	if sig.Recv() != nil {
		params = append(params, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i))
	}
	after := ""
	for i, p := range params {
		if sig.Variadic() && i == len(params)-1 {
			if isEmptyIfaceSlice(p.Type()) {
				for _, e := range args[i:] {
					c.sideEffects(e)
				}
				continue
			}
			fail("inlining variadic %s", fn.Name())
		}
		a := args[i]
		if c.isRegionExpr(a) {
			t, b := c.regionArg(a)
			sub.vars[p] = &bind{kind: 'r', name: t, reg: b.reg, prm: b.prm}
			continue
		}
		_, isPtr := p.Type().Underlying().(*types.Pointer)
		w := elemWritten(sub.p, decl.Body, p) || c.passedOn(sub.p, decl.Body, p, 0)
		if isPtr || w {
			if w || c.ptrWritten(fn, decl, p) {
				r := c.refArg(a)
				sub.vars[p] = &bind{kind: 'm', name: r.text}
				after += r.after
				continue
			}
		}
		v := c.exprAs(a, p.Type())
		n := c.tmp(localName0(p.Name()))
		c.emit("let ref %s = %s in\n", n, v)
		sub.vars[p] = &bind{kind: 'm', name: n}
	}
	return c.inlineBody(sub, decl.Type, decl.Body, after)
}

// ptrWritten reports whether a pointer parameter can be written through.
func (c *ctx) ptrWritten(fn *types.Func, decl *ast.FuncDecl, p *types.Var) bool {
	if assignedThrough(c.g.pkgOf[fn], decl.Body, p) {
		return true
	}
	// passed on to another function: assume it is written
	found := false
	pk := c.g.pkgOf[fn]
	ast.Inspect(decl.Body, func(n ast.Node) bool {
		if x, ok := n.(*ast.CallExpr); ok {
			for _, a := range x.Args {
				if rootVar(pk, a) == p {
					found = true
				}
			}
			if s, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok && rootVar(pk, s.X) == p {
				found = true
			}
		}
		return true
	})
	return found
}

func localName0(s string) string {
	if s == "" || s == "_" {
		return "u"
	}
	return localName(s)
}

func (c *ctx) inlineBody(sub *ctx, ft *ast.FuncType, body *ast.BlockStmt, after string) string {
	// a body which is one return of one simple expression
	if len(body.List) == 1 && after == "" {
		if r, ok := body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 && len(sub.results) == 1 && ft.Results.List[0].Names == nil {
			v := sub.exprAs(r.Results[0], sub.results[0])
			c.emit("%s", sub.take())
			t := c.tmp("c")
			c.emit("let %s = %s in\n", t, v)
			return t
		}
	}
	pre := sub.resultVars(ft)
	text := sub.block(body.List)
	ret := sub.retType()
	e := sub.finish(pre, text, ret)
	switch {
	case ret == "unit":
		c.emit("begin\n%s\nend;\n%s", e, after)
		return "()"
	default:
		t := c.tmp("c")
		c.emit("let %s = begin\n%s\nend in\n%s", t, e, after)
		return t
	}
}

// inlineLit inlines a call of a function literal.
func (c *ctx) inlineLit(lit *ast.FuncLit, lp *Pkg, x *ast.CallExpr, closure string) string {
	sig := lp.Info.TypeOf(lit).(*types.Signature)
	sub := &ctx{g: c.g, fi: c.fi, p: lp, inst: c.inst, vars: map[types.Object]*bind{}, pre: new([]string), sh: c.sh, loopN: c.loopN, inlined: true, closure: closure, stack: c.stack}
	for k, v := range c.vars {
		sub.vars[k] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		sub.results = append(sub.results, sig.Results().At(i).Type())
	}
	after := ""
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		a := x.Args[i]
		if c.isRegionExpr(a) {
			t, b := c.regionArg(a)
			sub.vars[p] = &bind{kind: 'r', name: t, reg: b.reg, prm: b.prm}
			continue
		}
		if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr {
			r := c.refArg(a)
			sub.vars[p] = &bind{kind: 'm', name: r.text}
			after += r.after
			continue
		}
		v := c.exprAs(a, p.Type())
		n := c.tmp(localName0(p.Name()))
		c.emit("let ref %s = %s in\n", n, v)
		sub.vars[p] = &bind{kind: 'm', name: n}
	}
	return c.inlineBody(sub, lit.Type, lit.Body, after)
}

// likelyValues is the function which makes the value of e, when e is a local
// variable which is assigned once, from a call: its literals are the values
// which e can have.  (That e has no other value is proved, not assumed.)
func (c *ctx) likelyValues(e ast.Expr) *ast.FuncDecl {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return nil
	}
	v := c.p.Info.Uses[id]
	var res *ast.FuncDecl
	n := 0
	ast.Inspect(c.fi.Decl, func(y ast.Node) bool {
		as, ok := y.(*ast.AssignStmt)
		if !ok {
			return true
		}
		for _, l := range as.Lhs {
			li, ok := ast.Unparen(l).(*ast.Ident)
			if !ok || v == nil || c.p.Info.Defs[li] != v && c.p.Info.Uses[li] != v {
				continue
			}
			n++
			if call, ok := ast.Unparen(as.Rhs[0]).(*ast.CallExpr); ok && len(as.Rhs) == 1 {
				if fn := c.callee(call); fn != nil {
					res = c.g.declOf[fn]
				}
			}
		}
		return true
	})
	if n != 1 {
		return nil
	}
	return res
}

// callValue calls a function value: a match over every function it can be.
func (c *ctx) callValue(x *ast.CallExpr) string {
	t, ok := c.typeOf(x.Fun).Underlying().(*types.Signature)
	if !ok {
		fail("call at %s", c.g.pos(x.Pos()))
	}
	name := "value"
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = f.Sel.Name
	}
	c.emit("%s", c.hookBefore(name))
	f := c.expr(x.Fun)
	key := c.g.fnKey(t)
	c.g.fnType(t)
	var rts []types.Type
	for i := 0; i < t.Results().Len(); i++ {
		rts = append(rts, t.Results().At(i).Type())
	}
	var b strings.Builder
	fmt.Fprintf(&b, "match %s with\n| Nil_%s -> absurd\n", f, key)
	likely := c.likelyValues(x.Fun)
	for _, cons := range c.g.fnValues[key] {
		if likely != nil && (cons.lit == nil || !(likely.Pos() <= cons.lit.Pos() && cons.lit.End() <= likely.End())) {
			fmt.Fprintf(&b, "| %s%s -> absurd\n", cons.name, strings.Repeat(" _", len(cons.caps)))
			continue
		}
		save := *c.pre
		*c.pre = nil
		var r string
		pat := cons.name
		if cons.fn != nil {
			r = c.internalCall(cons.fn, nil, x)
		} else {
			saved := map[types.Object]*bind{}
			for k, v := range c.vars {
				saved[k] = v
			}
			pre := ""
			for _, v := range cons.caps {
				n := c.tmp(localName0(v.Name()))
				pat += " " + n
				m := c.tmp(localName0(v.Name()))
				pre += fmt.Sprintf("let ref %s = %s in\n", m, n)
				c.vars[v] = &bind{kind: 'm', name: m}
			}
			c.emit("%s", pre)
			r = c.inlineLit(cons.lit, cons.pkg, x, cons.name)
			c.vars = saved
		}
		body := c.take()
		*c.pre = save
		fmt.Fprintf(&b, "| %s -> begin\n%s%s\nend\n", pat, body, r)
	}
	b.WriteString("end")
	r := c.bindResult(b.String(), rts, "")
	c.emit("%s", c.hookAfter(name, r))
	return r
}

func (c *ctx) conversion(x *ast.CallExpr, to types.Type) string {
	a := x.Args[0]
	from := c.typeOf(a)
	v := c.expr(a)
	switch {
	case isInt(to) && isInt(from):
		fb, fs := intBits(from)
		tb, ts := intBits(to)
		if fs == ts && fb <= tb || !fs && ts && fb < tb {
			return v
		}
		return fmt.Sprintf("(wrap_%s %s)", intName(to), paren(v))
	case isSeq(to) && isSeq(from):
		return v
	case isErr(to):
		return c.convert(v, from, to, a)
	}
	if c.g.whyType(to) == c.g.whyType(from) {
		return v
	}
	fail("conversion to %s at %s", to, c.g.pos(x.Pos()))
	return ""
}

func (c *ctx) builtin(name string, x *ast.CallExpr) string {
	switch name {
	case "len":
		t := c.typeOf(x.Args[0])
		if n, ok := arrayOf(t); ok {
			return fmt.Sprint(n)
		}
		v := c.expr(x.Args[0])
		return fmt.Sprintf("(%s.len %s)", c.g.modOf(t), paren(v))
	case "append":
		t := c.typeOf(x)
		mod := c.g.modOf(t)
		e := c.expr(x.Args[0])
		if x.Ellipsis.IsValid() {
			return fmt.Sprintf("(%s.app %s %s)", mod, paren(e), paren(c.expr(x.Args[1])))
		}
		for _, a := range x.Args[1:] {
			e = fmt.Sprintf("(%s.snoc %s %s)", mod, paren(e), paren(c.exprAs(a, elemOf(t))))
		}
		return e
	case "make":
		t := c.typeOf(x)
		if _, ok := t.Underlying().(*types.Slice); !ok {
			fail("make of %s", t)
		}
		n := c.expr(x.Args[1])
		if _, ok := c.constOf(x.Args[1]); !ok {
			c.check("length of make", x.Pos(), "0 <= "+n)
		}
		for _, a := range x.Args[2:] {
			c.sideEffects(a)
		}
		if !isInt(elemOf(t)) {
			return fmt.Sprintf("(%s.fill %s %s)", c.g.modOf(t), paren(n), c.g.zero(elemOf(t)))
		}
		return fmt.Sprintf("(%s.zeros %s)", c.g.modOf(t), paren(n))
	case "new":
		return c.g.zero(c.typeOf(x.Args[0]))
	case "copy":
		src := c.expr(x.Args[1])
		mod := c.g.modOf(c.typeOf(x.Args[0]))
		sv := c.tmp("src")
		c.emit("let %s = %s in\n", sv, src)
		a := c.refArg(x.Args[0])
		n := c.tmp("n")
		c.emit("let %s = imin (%s.len %s) (%s.len %s) in\n%s <- %s.splice %s 0 (%s.sub %s 0 %s);\n%s", n, mod, a.text, mod, sv, a.text, mod, a.text, mod, sv, n, a.after)
		return n
	case "panic":
		c.emit("assert { %s false };\nabsurd;\n", c.expl("unreachable panic", x.Pos()))
		return "()"
	case "min", "max":
		e := c.expr(x.Args[0])
		for _, a := range x.Args[1:] {
			e = fmt.Sprintf("(i%s %s %s)", name, paren(e), paren(c.expr(a)))
		}
		return e
	}
	fail("builtin %s", name)
	return ""
}

// ---- syntactic helpers ----

// assignedVars finds the variables which are assigned as a whole.
func assignedVars(p *Pkg, body ast.Node) map[types.Object]bool {
	out := map[types.Object]bool{}
	add := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if o := p.Info.Uses[id]; o != nil {
				out[o] = true
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				add(l)
			}
		case *ast.IncDecStmt:
			add(s.X)
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				if s.Key != nil {
					add(s.Key)
				}
				if s.Value != nil {
					add(s.Value)
				}
			}
		}
		return true
	})
	return out
}

// assignedThrough reports assignments to parts of *p or p[i].
func assignedThrough(p *Pkg, body ast.Node, v types.Object) bool {
	found := false
	chk := func(e ast.Expr) {
		if _, ok := ast.Unparen(e).(*ast.Ident); ok {
			return
		}
		if rootVar(p, e) == v {
			found = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				chk(l)
			}
		case *ast.IncDecStmt:
			chk(s.X)
		}
		return true
	})
	return found
}

// ownWritten reports whether a parameter which is a struct or an array has
// parts of itself assigned, and nothing which it merely refers to: the caller
// does not see that.
func ownWritten(p *Pkg, body ast.Node, v types.Object) bool {
	if !assignedThrough(p, body, v) {
		return false
	}
	own := true
	chk := func(e ast.Expr) {
		if rootVar(p, e) != v {
			return
		}
		for {
			var x ast.Expr
			switch y := ast.Unparen(e).(type) {
			case *ast.Ident:
				return
			case *ast.SelectorExpr:
				x = y.X
			case *ast.IndexExpr:
				x = y.X
			default:
				own = false
				return
			}
			switch p.Info.Types[x].Type.Underlying().(type) {
			case *types.Struct, *types.Array:
			default:
				own = false
			}
			e = x
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				chk(l)
			}
		case *ast.IncDecStmt:
			chk(s.X)
		}
		return true
	})
	return own
}

// elemWritten reports whether elements of a slice parameter are written.
func elemWritten(p *Pkg, body ast.Node, v types.Object) bool {
	if assignedThrough(p, body, v) {
		_, isPtr := v.Type().Underlying().(*types.Pointer)
		_, isSl := v.Type().Underlying().(*types.Slice)
		return isPtr || isSl
	}
	return false
}

// passedOn reports whether a slice parameter is handed to a callee which
// writes its elements.
func (c *ctx) passedOn(pk *Pkg, body ast.Node, v types.Object, depth int) bool {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok || depth > 4 {
		return false
	}
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		x, ok := n.(*ast.CallExpr)
		if !ok || found {
			return !found
		}
		var fn *types.Func
		var recv ast.Expr
		switch f := ast.Unparen(x.Fun).(type) {
		case *ast.Ident:
			fn, _ = pk.Info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			fn, _ = pk.Info.Uses[f.Sel].(*types.Func)
			recv = f.X
		}
		if fn == nil {
			return true
		}
		fn = fn.Origin()
		sig := fn.Type().(*types.Signature)
		if sig.Recv() == nil {
			recv = nil
		}
		decl := c.g.declOf[fn]
		for i, a := range x.Args {
			if rootVar(pk, a) != v || i >= sig.Params().Len() {
				continue
			}
			if decl != nil {
				if ct := c.g.cfg.Contracts[c.g.funcKey(fn)]; ct != nil {
					pn := sig.Params().At(i).Name()
					for _, w := range ct.Writes {
						if w == pn || w == localName0(pn) {
							found = true
						}
					}
					continue
				}
				if decl.Body != nil {
					p := sig.Params().At(i)
					q := c.g.pkgOf[fn]
					if elemWritten(q, decl.Body, p) || c.passedOn(q, decl.Body, p, depth+1) {
						found = true
					}
				}
				continue
			}
			ct := c.g.cfg.Contracts[c.g.funcKey(fn)]
			if ct == nil && recv != nil {
				ct = c.g.cfg.Contracts[c.g.typeKey(pk.Info.TypeOf(recv))+"."+fn.Name()]
			}
			if ct == nil || ct.Sig == "" {
				continue
			}
			_, refs, _ := externParams(ct.Sig)
			j := i
			if recv != nil {
				if st, ok := pk.Info.TypeOf(recv).Underlying().(*types.Struct); !ok || st.NumFields() != 0 {
					j++
				}
			}
			if j < len(refs) && refs[j] {
				found = true
			}
		}
		return !found
	})
	return found
}

// pinLocals renames local variables to the names which the contract uses,
// when the function declares the same variables in the same order.
func (c *ctx) pinLocals(fi *FuncInfo) {
	var vars []*types.Var
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := c.p.Info.Defs[id].(*types.Var); ok && !v.IsField() {
				vars = append(vars, v)
			}
		}
		return true
	})
	sort.Slice(vars, func(i, j int) bool { return vars[i].Pos() < vars[j].Pos() })
	for _, v := range vars {
		fi.Locals = append(fi.Locals, [2]string{v.Name(), v.Type().String()})
	}
	pins, ok := c.g.pins[fi.Key]
	if !ok {
		return
	}
	same := len(pins) == len(vars)
	names := map[string]bool{}
	for i := range pins {
		names[pins[i][0]] = true
		if same && pins[i][1] != fi.Locals[i][1] {
			same = false
		}
	}
	c.locals = map[types.Object]string{}
	if same {
		for i, v := range vars {
			c.locals[v] = localName(pins[i][0])
		}
		return
	}
	// otherwise match the variables which are gone with those which are new,
	// by type and order
	have := map[string]bool{}
	for _, v := range vars {
		have[v.Name()] = true
	}
	used := map[int]bool{}
	renamed := map[string]string{}
	for _, v := range vars {
		if names[v.Name()] {
			continue
		}
		if n, ok := renamed[v.Name()]; ok {
			c.locals[v] = n
			continue
		}
		for j, p := range pins {
			if used[j] || have[p[0]] || p[1] != v.Type().String() {
				continue
			}
			for k := range pins {
				if pins[k][0] == p[0] {
					used[k] = true
				}
			}
			renamed[v.Name()] = localName(p[0])
			c.locals[v] = localName(p[0])
			break
		}
	}
}

func (g *Gen) optField(k string, f *types.Var) string {
	if !g.cfg.OptPtr[k+"."+f.Name()] {
		return ""
	}
	t := f.Type().(*types.Pointer).Elem()
	return g.whyType(t)
}

func (g *Gen) zeroField(k string, f *types.Var) string {
	if o := g.optField(k, f); o != "" {
		g.needStruct(f.Type())
		return "Nil_" + o
	}
	return g.zero(f.Type())
}

// strConst declares a string constant.
func (g *Gen) strConst(s string) string {
	if s == "" {
		return "B.empty"
	}
	if n, ok := g.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("str_%d", len(g.strs)+1)
	g.strs[s] = n
	ax := []string{fmt.Sprintf("B.len %s = %d", n, len(s))}
	if len(s) <= 40 {
		for i := 0; i < len(s); i++ {
			ax = append(ax, fmt.Sprintf("B.get %s %d = %d", n, i, s[i]))
		}
	}
	g.emitDecl(n, fmt.Sprintf("  (* %s *)\n  val constant %s : B.t\n  axiom %s_def: %s\n", strings.NewReplacer("(*", "", "*)", "").Replace(strconv.Quote(s)), n, n, strings.Join(ax, " /\\ ")))
	return n
}
