package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// fx translates one function body.
type fx struct {
	t       *tr
	fi      *fnInfo
	con     *Contract
	b       strings.Builder
	ind     int
	tmp     int
	loopN   int
	callN   map[string]int
	posts   []func()            // post statements of enclosing loops, for continue
	brk     []string            // enclosing breakable constructs: "loop" or "switch"
	ret     func(vals []string) // how to return
	results []types.Type
	depth   int // inlining depth
	subst   map[types.Object]string
	inline  bool
	lastPos string
	inlined map[string]bool
}

func (f *fx) line(format string, a ...any) {
	f.b.WriteString(strings.Repeat("    ", f.ind))
	fmt.Fprintf(&f.b, format, a...)
	f.b.WriteString("\n")
}

func (f *fx) raw(txt string) {
	if strings.TrimSpace(txt) == "" {
		return
	}
	for _, l := range strings.Split(strings.TrimRight(txt, "\n"), "\n") {
		f.b.WriteString(strings.Repeat("    ", f.ind))
		f.b.WriteString(f.hint(l))
		f.b.WriteString("\n")
	}
}

// hint rewrites the heap shorthand of annotation text inside bodies.
func (f *fx) hint(s string) string { return replaceIdent(s, "h1", "h@") }

func (f *fx) bad(n ast.Node, format string, a ...any) {
	panic(unsup{n.Pos(), fmt.Sprintf(format, a...)})
}

func (f *fx) fresh() string {
	f.tmp++
	return fmt.Sprintf("t%d_", f.tmp)
}

var reserved = map[string]bool{"old": true, "final": true, "fn": true, "match": true, "type": true, "mut": true, "ref": true, "let": true, "in": true, "loop": true, "move": true, "self": true, "impl": true, "use": true, "where": true, "pub": true, "mod": true, "as": true, "h": true, "r": true, "exists": true, "forall": true, "spec": true, "proof": true, "exec": true, "assert": true, "assume": true, "int": true, "nat": true, "h0": true, "h1": true}

func rname(n string) string {
	if reserved[n] {
		return n + "_"
	}
	return n
}

func isIdentByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func replaceIdent(s, from, to string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], from) && (i == 0 || !isIdentByte(s[i-1])) && (i+len(from) == len(s) || !isIdentByte(s[i+len(from)])) {
			b.WriteString(to)
			i += len(from)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func (t *tr) clause(s string, writes bool) string {
	if writes {
		s = replaceIdent(s, "h0", "old(h)@")
		return replaceIdent(s, "h1", "final(h)@")
	}
	s = replaceIdent(s, "h0", "h@")
	return replaceIdent(s, "h1", "h@")
}

func (t *tr) sigText(name string, writes bool, params []string, ret string, req, ens []string, dec string, attr []string) string {
	var b strings.Builder
	for _, a := range attr {
		fmt.Fprintf(&b, "#[verifier::%s]\n", a)
	}
	hp := "h: &Heap"
	if writes {
		hp = "h: &mut Heap"
	}
	fmt.Fprintf(&b, "pub fn %s(%s)", name, strings.Join(append([]string{hp}, params...), ", "))
	if ret != "" {
		fmt.Fprintf(&b, " -> (r: %s)", ret)
	}
	b.WriteString("\n")
	if len(req) > 0 {
		b.WriteString("    requires\n")
		for _, c := range req {
			// in preconditions only the entry heap exists
			fmt.Fprintf(&b, "        %s,\n", t.clause(replaceIdent(c, "h1", "h0"), writes))
		}
	}
	if len(ens) > 0 {
		b.WriteString("    ensures\n")
		for _, c := range ens {
			fmt.Fprintf(&b, "        %s,\n", t.clause(c, writes))
		}
	}
	if dec != "" {
		fmt.Fprintf(&b, "    decreases %s\n", t.clause(replaceIdent(dec, "h1", "h0"), writes))
	}
	return b.String()
}

func (t *tr) retType(sig *types.Signature) string {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return ""
	case 1:
		return t.rtype(rs.At(0).Type())
	}
	var p []string
	for i := 0; i < rs.Len(); i++ {
		p = append(p, t.rtype(rs.At(i).Type()))
	}
	return "(" + strings.Join(p, ", ") + ")"
}

// fact lists what the type alone says about v.
func (t *tr) fact(ty types.Type, v string) []string {
	s := strings.TrimPrefix(t.typeFact(ty, v), ", ")
	if s == "" {
		return nil
	}
	return []string{s}
}

func (t *tr) resFacts(sig *types.Signature) []string {
	var out []string
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		v := "r"
		if n > 1 {
			v = fmt.Sprintf("r.%d", i)
		}
		out = append(out, t.fact(sig.Results().At(i).Type(), v)...)
	}
	return out
}

// ifaceWrites reports whether any implementation writes the heap.
func (t *tr) ifaceWrites(m string) bool {
	for _, g := range t.targets("Node." + m) {
		if g.writes {
			return true
		}
	}
	return false
}

func (t *tr) dispatcher(m string) (string, error) {
	c := t.sp.Ifaces[m]
	var sig *types.Signature
	for _, x := range t.ifaceMethods {
		if x.Name() == m {
			sig = x.Type().(*types.Signature)
		}
	}
	w := t.ifaceWrites(m)
	params := []string{"n: Node"}
	var args []string
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, fmt.Sprintf("a%d: %s", i, t.rtype(sig.Params().At(i).Type())))
		args = append(args, fmt.Sprintf("a%d", i))
	}
	req := []string{"n.tag != Tag::Nil", "typed(n)"}
	for i := 0; i < sig.Params().Len(); i++ {
		req = append(req, t.fact(sig.Params().At(i).Type(), fmt.Sprintf("a%d", i))...)
	}
	req = append(req, c.Req...)
	ens := append(t.resFacts(sig), c.Ens...)
	ret := t.retType(sig)
	if c.Pure != "" {
		ens = append([]string{"r == (" + c.Pure + ")"}, ens...)
	}
	var b strings.Builder
	b.WriteString("// interface dispatch\n")
	b.WriteString(t.sigText("Node_"+m, w, params, ret, req, ens, c.Dec, c.Attr))
	b.WriteString("{\n    match n.tag {\n")
	for _, s := range tagOrder {
		g := t.fns[s+"_"+m]
		hp := "h"
		if w && !g.writes {
			hp = "&*h"
		}
		fmt.Fprintf(&b, "        Tag::%s => %s_%s(%s),\n", t.tags[s], s, m, strings.Join(append([]string{hp, "n.p"}, args...), ", "))
	}
	if ret == "" {
		b.WriteString("        Tag::Nil => { vstd::pervasive::unreached::<()>() }\n")
	} else {
		b.WriteString("        Tag::Nil => vstd::pervasive::unreached(),\n")
	}
	b.WriteString("    }\n}\n")
	return b.String(), nil
}

// function translates one function; stub asks for its contract only.
func (t *tr) function(fi *fnInfo, stub bool) (text string, un string, inlined []string) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsup); ok {
				p := t.fset.Position(u.pos)
				un = fmt.Sprintf("%s (%s:%d)", u.msg, filepath.Base(p.Filename), p.Line)
				return
			}
			panic(e)
		}
	}()
	con := t.renamed(fi)
	f := &fx{t: t, fi: fi, con: con, callN: map[string]int{}, subst: map[types.Object]string{}, inlined: map[string]bool{}}
	con = f.con
	sig := fi.obj.Type().(*types.Signature)
	var params []string
	isIface := t.sp.Fns[fi.name] == nil
	if fi.recv != "" {
		params = append(params, rname(fi.rname)+": Ptr")
	}
	var pn []string
	var mutated []string
	asg := assigned(t.info, fi.decl.Body)
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		n := rname(p.Name())
		if n == "" || n == "_" {
			n = fmt.Sprintf("unused%d", i)
		}
		params = append(params, n+": "+t.rtype(p.Type()))
		pn = append(pn, n)
		if asg[p] {
			mutated = append(mutated, n)
		}
	}
	ret := t.retType(sig)
	wrap := func(c string) string {
		if !isIface {
			return c
		}
		s := fmt.Sprintf("({ let n = Node { tag: Tag::%s, p: %s };", t.tags[fi.recv], rname(fi.rname))
		for i, p := range pn {
			s += fmt.Sprintf(" let a%d = %s;", i, p)
		}
		return s + " " + c + " })"
	}
	var req, ens []string
	if fi.recv != "" {
		req = append(req, rname(fi.rname)+" != 0")
		if tg, ok := t.tags[fi.recv]; ok {
			req = append(req, fmt.Sprintf("kind_of(%s) == Tag::%s", rname(fi.rname), tg))
		}
	}
	for i, p := range pn {
		req = append(req, t.fact(sig.Params().At(i).Type(), p)...)
	}
	ens = append(ens, t.resFacts(sig)...)
	for _, c := range con.Req {
		req = append(req, wrap(c))
	}
	if con.Pure != "" {
		ens = append(ens, wrap("r == ("+con.Pure+")"))
	}
	for _, c := range con.Ens {
		ens = append(ens, wrap(c))
	}
	dec := con.Dec
	if dec != "" && isIface {
		dec = wrap(dec)
	}
	attr := con.Attr
	p := t.fset.Position(fi.decl.Pos())
	head := fmt.Sprintf("// src %s:%d\n", filepath.Base(p.Filename), p.Line)
	if con.Trusted || stub {
		return head + t.sigText(fi.name, fi.writes, params, ret, req, ens, "", append([]string{"external_body"}, attr...)) + "{ unimplemented!() }\n", "", nil
	}
	head += t.sigText(fi.name, fi.writes, params, ret, req, ens, dec, attr)
	for i := 0; i < sig.Results().Len(); i++ {
		f.results = append(f.results, sig.Results().At(i).Type())
	}
	f.ind = 1
	if con.Hide != "" {
		f.line("%s", con.Hide)
	}
	f.line("let ghost h0 = h@;")
	for _, m := range mutated {
		f.line("let ghost %s_0 = %s;", m, m)
		f.line("let mut %s = %s;", m, m)
	}
	f.raw(con.Entry)
	if t.probe == "entry" {
		f.line("proof { assert(false); } // probe")
	}
	f.ret = func(vals []string) {
		if t.probe == "exit" {
			f.line("proof { assert(false); } // probe")
		}
		switch len(vals) {
		case 0:
			f.raw(con.Exit)
			f.line("return;")
		case 1:
			if strings.TrimSpace(con.Exit) != "" {
				f.line("let r = %s;", vals[0])
				f.raw(con.Exit)
				f.line("return r;")
			} else {
				f.line("return %s;", vals[0])
			}
		default:
			v := "(" + strings.Join(vals, ", ") + ")"
			if strings.TrimSpace(con.Exit) != "" {
				f.line("let r = %s;", v)
				f.raw(con.Exit)
				f.line("return r;")
			} else {
				f.line("return %s;", v)
			}
		}
	}
	f.stmts(fi.decl.Body.List)
	if sig.Results().Len() == 0 && !terminates(fi.decl.Body.List) {
		if t.probe == "exit" {
			f.line("proof { assert(false); } // probe")
		}
		f.raw(con.Exit)
	}
	for k := range con.Loops {
		if k >= f.loopN {
			panic(unsup{fi.decl.Pos(), fmt.Sprintf("annotated loop %d does not exist", k)})
		}
	}
	for k := range f.inlined {
		inlined = append(inlined, k)
	}
	sort.Strings(inlined)
	return split(fi.name, head+"{\n"+f.b.String()+"}\n"), "", inlined
}

var splitMark = regexp.MustCompile(`(?m)^\s*//@split (\w+)$`)

// split emits a function with "//@split X" marks once per mark and once
// without: each copy stops at every mark but its own. A path through one mark
// is checked whole in that mark's copy, a path through none in the unnamed
// copy. That no path passes two marks is an obligation of every copy. The
// calls a copy makes to itself stay within the copy, so its measure is checked.
func split(name, text string) string {
	var marks []string
	for _, m := range splitMark.FindAllStringSubmatch(text, -1) {
		marks = append(marks, m[1]+strconv.Itoa(len(marks)+1))
	}
	if len(marks) == 0 {
		return text
	}
	text = strings.Replace(text, "let ghost h0 = h@;\n", "let ghost h0 = h@;\n    let ghost mut part_: int = 0;\n", 1)
	call := regexp.MustCompile(`\b` + name + `\(`)
	var b strings.Builder
	for i, own := range append([]string{""}, marks...) {
		txt := text
		if own != "" {
			txt = call.ReplaceAllString(txt, name+"__"+own+"(")
		}
		n := 0
		txt = splitMark.ReplaceAllStringFunc(txt, func(m string) string {
			n++
			if n == i {
				return "proof { assert(part_ == 0); part_ = " + strconv.Itoa(n) + "; }"
			}
			return "proof { assert(part_ == 0); assume(false); }"
		})
		b.WriteString(strings.Replace(txt, "pub fn ", "#[verifier::spinoff_prover]\npub fn ", 1))
	}
	return b.String()
}

// declared lists the variables a function declares, in source order.
func (t *tr) declared(fi *fnInfo) []string {
	var out []string
	if fi.recv != "" {
		out = append(out, fi.rname)
	}
	sig := fi.obj.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Name())
	}
	ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := t.info.Defs[id].(*types.Var); ok && !v.IsField() {
				out = append(out, id.Name)
			}
		}
		return true
	})
	return out
}

// renamed adapts the annotations of a function to renamed variables.
func (t *tr) renamed(fi *fnInfo) *Contract {
	c := fi.con
	if t.sp.Fns[fi.name] == nil {
		return c
	}
	was, now := t.names[fi.name], t.declared(fi)
	if len(was) != len(now) {
		return c
	}
	m := map[string]string{}
	same := true
	for i := range was {
		if o, ok := m[was[i]]; ok && o != now[i] {
			return c
		}
		m[was[i]] = now[i]
		same = same && was[i] == now[i]
	}
	if same {
		return c
	}
	ren := func(s string) string {
		for a := range m {
			if a != m[a] && a != "_" && a != "" {
				s = replaceIdent(s, rname(a), "\x01"+a+"\x02")
				s = replaceIdent(s, rname(a)+"_0", "\x01"+a+"\x02_0")
			}
		}
		for a := range m {
			s = strings.ReplaceAll(s, "\x01"+a+"\x02", rname(m[a]))
		}
		return s
	}
	list := func(l []string) []string {
		var out []string
		for _, s := range l {
			out = append(out, ren(s))
		}
		return out
	}
	maps := func(l map[string]string) map[string]string {
		out := map[string]string{}
		for k, s := range l {
			out[k] = ren(s)
		}
		return out
	}
	d := *c
	d.Req, d.Ens, d.Dec, d.Pure, d.Entry, d.Exit = list(c.Req), list(c.Ens), ren(c.Dec), ren(c.Pure), ren(c.Entry), ren(c.Exit)
	d.After, d.Before = maps(c.After), maps(c.Before)
	d.Loops = map[int]*LoopSpec{}
	for k, l := range c.Loops {
		d.Loops[k] = &LoopSpec{Inv: list(l.Inv), Ens: list(l.Ens), Dec: ren(l.Dec), Pre: ren(l.Pre), Start: ren(l.Start), End: ren(l.End), Post: ren(l.Post)}
	}
	return &d
}

// assigned collects the variables that are assigned after declaration.
func assigned(info *types.Info, b ast.Node) map[types.Object]bool {
	m := map[types.Object]bool{}
	add := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if o := info.Uses[id]; o != nil {
				m[o] = true
			}
		}
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				add(l)
			}
		case *ast.IncDecStmt:
			add(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				add(x.Key)
				if x.Value != nil {
					add(x.Value)
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				add(x.X)
			}
		}
		return true
	})
	return m
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return terminates(x.List)
	case *ast.IfStmt:
		if x.Else == nil {
			return false
		}
		e := []ast.Stmt{x.Else}
		return terminates(x.Body.List) && terminates(e)
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	case *ast.BranchStmt:
		return true
	case *ast.SwitchStmt:
		hasDef := false
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				hasDef = true
			}
			if !terminates(cc.Body) {
				return false
			}
		}
		return hasDef
	case *ast.ForStmt:
		return x.Cond == nil && !hasBreak(x.Body)
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			if !terminates(c.(*ast.CommClause).Body) {
				return false
			}
		}
		return true
	}
	return false
}

func hasBreak(b *ast.BlockStmt) bool {
	found := false
	var walk func(n ast.Node, inner bool)
	walk = func(n ast.Node, inner bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				return false
			case *ast.BranchStmt:
				if x.Tok == token.BREAK {
					found = true
				}
			}
			return true
		})
	}
	walk(b, false)
	return found
}

func containsReturn(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			found = true
		}
		return true
	})
	return found
}

// ---- statements ----

func (f *fx) stmts(l []ast.Stmt) {
	for i, s := range l {
		if f.inline && i < len(l)-1 && containsReturn(s) {
			// inlined body: the rest goes into the branch that falls through
			f.inlineSplit(s, l[i+1:])
			return
		}
		f.stmt(s)
	}
}

// inlineSplit handles "if c { ...; return x }; rest" of an inlined helper.
func (f *fx) inlineSplit(s ast.Stmt, rest []ast.Stmt) {
	x, ok := s.(*ast.IfStmt)
	if !ok {
		f.bad(s, "return inside a loop or switch of a helper without contract")
	}
	if x.Init != nil {
		f.line("{")
		f.ind++
		f.stmt(x.Init)
	}
	c := f.expr(x.Cond, nil)
	f.line("if %s {", c)
	f.ind++
	if terminates(x.Body.List) {
		f.stmts(x.Body.List)
	} else {
		f.stmts(append(append([]ast.Stmt{}, x.Body.List...), rest...))
	}
	f.ind--
	f.line("} else {")
	f.ind++
	if x.Else != nil {
		var el []ast.Stmt
		if bl, ok := x.Else.(*ast.BlockStmt); ok {
			el = bl.List
		} else {
			el = []ast.Stmt{x.Else}
		}
		if terminates(el) {
			f.stmts(el)
		} else {
			f.stmts(append(append([]ast.Stmt{}, el...), rest...))
		}
	} else {
		f.stmts(rest)
	}
	f.ind--
	f.line("}")
	if x.Init != nil {
		f.ind--
		f.line("}")
	}
}

func (f *fx) mark(n ast.Node) {
	p := f.t.fset.Position(n.Pos())
	s := fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
	if s != f.lastPos {
		f.line("// src %s", s)
		f.lastPos = s
	}
}

func (f *fx) block(b *ast.BlockStmt) {
	f.ind++
	f.stmts(b.List)
	f.ind--
}

func (f *fx) name(id *ast.Ident) string {
	o := f.t.info.Uses[id]
	if o == nil {
		o = f.t.info.Defs[id]
	}
	if s, ok := f.subst[o]; ok {
		return s
	}
	return rname(id.Name)
}

func (f *fx) declare(id *ast.Ident) string {
	n := rname(id.Name)
	if f.inline {
		n = fmt.Sprintf("%s_i%d", n, f.tmp)
		f.tmp++
		if o := f.t.info.Defs[id]; o != nil {
			f.subst[o] = n
		}
	}
	return n
}

func (f *fx) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		f.line("{")
		f.block(x)
		f.line("}")
	case *ast.DeclStmt:
		f.mark(s)
		gd, ok := x.Decl.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			if ok && gd.Tok == token.CONST {
				return
			}
			f.bad(s, "declaration")
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, id := range vs.Names {
				ty := f.t.info.Defs[id].Type()
				if len(vs.Values) == len(vs.Names) {
					v := f.expr(vs.Values[i], ty)
					f.line("let mut %s: %s = %s;", f.declare(id), f.t.rtype(ty), v)
				} else if len(vs.Values) == 0 {
					f.line("let mut %s: %s = %s;", f.declare(id), f.t.rtype(ty), f.zero(ty))
				} else {
					f.bad(s, "multi-value var")
				}
			}
		}
	case *ast.ExprStmt:
		f.mark(s)
		c, ok := ast.Unparen(x.X).(*ast.CallExpr)
		if !ok {
			f.bad(s, "expression statement")
		}
		f.call(c, true)
	case *ast.IncDecStmt:
		f.mark(s)
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		ty := f.t.info.Types[x.X].Type
		cur := f.expr(x.X, nil)
		f.store(x.X, f.arith(op, cur, "1"+f.t.rtype(ty), ty))
	case *ast.AssignStmt:
		f.mark(s)
		f.assign(x)
	case *ast.ReturnStmt:
		f.mark(s)
		var vals []string
		if len(x.Results) == 1 && len(f.results) > 1 {
			v := f.expr(x.Results[0], nil)
			t := f.fresh()
			f.line("let %s = %s;", t, v)
			for i := range f.results {
				vals = append(vals, fmt.Sprintf("%s.%d", t, i))
			}
			tup := f.t.info.Types[x.Results[0]].Type.(*types.Tuple)
			for i := range f.results {
				vals[i] = f.conv(vals[i], tup.At(i).Type(), f.results[i], x)
			}
		} else {
			if len(x.Results) != len(f.results) {
				f.bad(s, "bare return")
			}
			for i, e := range x.Results {
				vals = append(vals, f.expr(e, f.results[i]))
			}
		}
		f.ret(vals)
	case *ast.IfStmt:
		f.mark(s)
		if x.Init != nil {
			f.line("{")
			f.ind++
			f.stmt(x.Init)
		}
		c := f.expr(x.Cond, nil)
		f.line("if %s {", c)
		f.block(x.Body)
		if x.Else != nil {
			f.line("} else {")
			f.ind++
			if bl, ok := x.Else.(*ast.BlockStmt); ok {
				f.stmts(bl.List)
			} else {
				f.stmt(x.Else)
			}
			f.ind--
		}
		f.line("}")
		if x.Init != nil {
			f.ind--
			f.line("}")
		}
	case *ast.ForStmt:
		f.mark(s)
		f.forLoop(x)
	case *ast.RangeStmt:
		f.mark(s)
		f.rangeLoop(x)
	case *ast.SwitchStmt:
		f.mark(s)
		f.switchStmt(x)
	case *ast.TypeSwitchStmt:
		f.mark(s)
		f.typeSwitch(x)
	case *ast.SelectStmt:
		f.mark(s)
		f.selectStmt(x)
	case *ast.BranchStmt:
		f.mark(s)
		if x.Label != nil {
			f.bad(s, "labelled branch")
		}
		switch x.Tok {
		case token.BREAK:
			if len(f.brk) == 0 || f.brk[len(f.brk)-1] != "loop" {
				f.bad(s, "break out of switch")
			}
			f.line("break;")
		case token.CONTINUE:
			f.posts[len(f.posts)-1]()
			f.line("continue;")
		default:
			f.bad(s, "branch %s", x.Tok)
		}
	default:
		f.bad(s, "statement %T", s)
	}
}

func (f *fx) zero(ty types.Type) string { return zeroExec(f.t.rtype(ty)) }

func zeroExec(rt string) string {
	switch rt {
	case "bool":
		return "false"
	case "Node":
		return "NIL"
	case "Slice":
		return "NILS"
	case "Val":
		return "zero_value()"
	case "Ptr", "Chan":
		return "0u64"
	case "GoStr":
		return "empty_str()"
	}
	return "0" + rt
}

func (f *fx) assign(x *ast.AssignStmt) {
	info := f.t.info
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		op, ok := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM}[x.Tok]
		if !ok {
			f.bad(x, "assignment %s", x.Tok)
		}
		ty := info.Types[x.Lhs[0]].Type
		cur := f.expr(x.Lhs[0], nil)
		v := f.expr(x.Rhs[0], ty)
		f.store(x.Lhs[0], f.arith(op, cur, v, ty))
		return
	}
	lhsType := func(l ast.Expr) types.Type {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				return nil
			}
			if o := info.Defs[id]; o != nil {
				return o.Type()
			}
			if o := info.Uses[id]; o != nil {
				return o.Type()
			}
		}
		return info.Types[l].Type
	}
	isDef := func(l ast.Expr) *ast.Ident {
		id, ok := l.(*ast.Ident)
		if x.Tok == token.DEFINE && ok && id.Name != "_" && info.Defs[id] != nil {
			return id
		}
		return nil
	}
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		v := f.expr(x.Rhs[0], nil)
		tup, ok := info.Types[x.Rhs[0]].Type.(*types.Tuple)
		if !ok {
			f.bad(x, "comma-ok form")
		}
		t := f.fresh()
		f.line("let %s = %s;", t, v)
		for i, l := range x.Lhs {
			ty := lhsType(l)
			if ty == nil {
				continue
			}
			val := f.conv(fmt.Sprintf("%s.%d", t, i), tup.At(i).Type(), ty, x)
			if id := isDef(l); id != nil {
				f.line("let mut %s: %s = %s;", f.declare(id), f.t.rtype(ty), val)
			} else {
				f.store(l, val)
			}
		}
		return
	}
	if len(x.Lhs) != len(x.Rhs) {
		f.bad(x, "assignment shape")
	}
	var vals []string
	for i, r := range x.Rhs {
		v := f.expr(r, lhsType(x.Lhs[i]))
		if len(x.Rhs) > 1 {
			t := f.fresh()
			f.line("let %s = %s;", t, v)
			v = t
		}
		vals = append(vals, v)
	}
	for i, l := range x.Lhs {
		ty := lhsType(l)
		if ty == nil {
			f.line("let _ = %s;", vals[i])
			continue
		}
		if id := isDef(l); id != nil {
			f.line("let mut %s: %s = %s;", f.declare(id), f.t.rtype(ty), vals[i])
		} else {
			f.store(l, vals[i])
		}
	}
}

// store assigns v to the location l.
func (f *fx) store(l ast.Expr, v string) {
	info := f.t.info
	switch x := ast.Unparen(l).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return
		}
		f.line("%s = %s;", f.name(x), v)
	case *ast.StarExpr:
		if f.t.rtype(info.Types[x.X].Type) != "&mut i64" {
			f.bad(l, "store through pointer")
		}
		f.line("*%s = %s;", f.expr(x.X, nil), v)
	case *ast.SelectorExpr:
		p, fn := f.fieldRef(x)
		f.needMut(l)
		f.around("st_"+fn, fmt.Sprintf("st_%s(h, %s, %s)", fn, p, v), "", []string{p, v}, false)
	case *ast.IndexExpr:
		f.needMut(l)
		bt := info.Types[x.X].Type
		if a, ok := bt.Underlying().(*types.Array); ok {
			sel, ok := ast.Unparen(x.X).(*ast.SelectorExpr)
			if !ok {
				f.bad(l, "array store")
			}
			p := f.expr(sel.X, nil)
			i := f.expr(x.Index, types.Typ[types.Int])
			f.line("%s_set(h, %s, %s, %s, %d);", f.arrayField(sel), p, f.toInt(i, x.Index), v, a.Len())
			return
		}
		k := f.t.elemKind(bt)
		if k == "?" {
			f.bad(l, "store to %s", bt)
		}
		s := f.expr(x.X, nil)
		i := f.expr(x.Index, types.Typ[types.Int])
		f.line("%ss_set(h, %s, %s, %s);", k, s, f.toInt(i, x.Index), v)
	default:
		f.bad(l, "store to %T", l)
	}
}

func (f *fx) needMut(n ast.Node) {
	if !f.fi.writes {
		f.bad(n, "internal: heap write in a function classified as reader")
	}
}

func (f *fx) arrayField(sel *ast.SelectorExpr) string {
	n := sel.Sel.Name
	if n != "keys" && n != "children" {
		f.bad(sel, "array field %s", n)
	}
	return "arr_" + n
}

// fieldRef returns the base pointer and the accessor suffix of x.f.
func (f *fx) fieldRef(x *ast.SelectorExpr) (string, string) {
	sel := f.t.info.Selections[x]
	if sel == nil || sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
		f.bad(x, "selector %s", x.Sel.Name)
	}
	base := f.expr(x.X, nil)
	n := named(sel.Recv())
	if f.t.isNodeStruct(n) {
		if x.Sel.Name == "mutateCh" {
			f.bad(x, "direct access to the watch slot")
		}
		return base, x.Sel.Name
	}
	for _, s := range objStructs {
		if s == n {
			return base, n + "_" + x.Sel.Name
		}
	}
	f.bad(x, "field of %s", n)
	return "", ""
}

func (f *fx) loopSpec() *LoopSpec {
	k := f.loopN
	f.loopN++
	return f.con.Loops[k]
}

func (f *fx) emitLoopHead(ls *LoopSpec, auto []string, autoDec string) {
	var inv []string
	inv = append(inv, auto...)
	if ls != nil {
		inv = append(inv, ls.Inv...)
	}
	if len(inv) > 0 {
		f.line("    invariant")
		for _, i := range inv {
			f.line("        %s,", f.hint(i))
		}
	}
	if ls != nil && len(ls.Ens) > 0 {
		f.line("    ensures")
		for _, i := range ls.Ens {
			f.line("        %s,", f.hint(i))
		}
	}
	d := autoDec
	if ls != nil && ls.Dec != "" {
		d = ls.Dec
	}
	if d != "" {
		f.line("    decreases %s", f.hint(d))
	}
}

// loopFacts restates the type facts of the variables a loop assigns.
func (f *fx) loopFacts(body ast.Node, from token.Pos) []string {
	var objs []types.Object
	for o := range assigned(f.t.info, body) {
		if o.Pos() < from || f.subst[o] != "" {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	var out []string
	for _, o := range objs {
		n := rname(o.Name())
		if s, ok := f.subst[o]; ok {
			n = s
		}
		out = append(out, f.t.fact(o.Type(), n)...)
	}
	return out
}

func (f *fx) forLoop(x *ast.ForStmt) {
	f.line("{")
	f.ind++
	if x.Init != nil {
		f.stmt(x.Init)
	}
	ls := f.loopSpec()
	if ls != nil {
		f.raw(ls.Pre)
	}
	f.line("#[verifier::loop_isolation(false)]")
	if x.Cond != nil {
		// the condition is evaluated at every iteration
		sub := f.sub()
		c := sub.expr(x.Cond, nil)
		pre := sub.take(f)
		if pre == "" {
			f.line("while %s", c)
		} else {
			f.line("while ({")
			f.b.WriteString(pre)
			f.line("    %s", c)
			f.line("})")
		}
	} else {
		f.line("loop")
	}
	f.emitLoopHead(ls, f.loopFacts(x, x.Body.Pos()), "")
	f.line("{")
	f.ind++
	if ls != nil {
		f.raw(ls.Start)
	}
	post := func() {
		if ls != nil {
			f.raw(ls.End)
		}
		if x.Post != nil {
			f.stmt(x.Post)
		}
	}
	f.posts = append(f.posts, post)
	f.brk = append(f.brk, "loop")
	f.stmts(x.Body.List)
	if !terminates(x.Body.List) {
		post()
	}
	f.brk = f.brk[:len(f.brk)-1]
	f.posts = f.posts[:len(f.posts)-1]
	f.ind--
	f.line("}")
	if ls != nil {
		f.raw(ls.Post)
	}
	f.ind--
	f.line("}")
}

// sub makes a child emitter for code that must be placed inside an expression.
func (f *fx) sub() *fx {
	g := *f
	g.b = strings.Builder{}
	g.ind = f.ind + 1
	return &g
}

func (f *fx) take(parent *fx) string {
	parent.tmp = f.tmp
	parent.loopN = f.loopN
	return f.b.String()
}

func (f *fx) rangeLoop(x *ast.RangeStmt) {
	ty := f.t.info.Types[x.X].Type
	if x.Tok == token.ASSIGN {
		f.bad(x, "range with assignment")
	}
	f.line("{")
	f.ind++
	s := f.fresh()
	k := ""
	if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		v := f.expr(x.X, ty)
		f.line("let %s: i64 = %s;", s, v)
	} else {
		k = f.t.elemKind(ty)
		if k == "?" {
			f.bad(x, "range over %s", ty)
		}
		if a, ok := ty.Underlying().(*types.Array); ok {
			sel, ok := ast.Unparen(x.X).(*ast.SelectorExpr)
			if !ok {
				f.bad(x, "range over array")
			}
			f.line("let %s = %s_slice(h, %s, %d);", s, f.arrayField(sel), f.expr(sel.X, nil), a.Len())
		} else {
			v := f.expr(x.X, ty)
			f.line("let %s = %s;", s, v)
		}
	}
	ls := f.loopSpec()
	// the hidden index is available to invariants as ix_<loop number>
	ix := fmt.Sprintf("ix_%d", f.loopN-1)
	sl := fmt.Sprintf("sl_%d", f.loopN-1)
	f.line("let %s = %s;", sl, s)
	f.line("let mut %s: i64 = 0;", ix)
	if ls != nil {
		f.raw(ls.Pre)
	}
	ln := s + ".len"
	if k == "" {
		ln = s
	}
	f.line("#[verifier::loop_isolation(false)]")
	f.line("while %s < %s", ix, ln)
	f.emitLoopHead(ls, append(f.loopFacts(x, x.Pos()), fmt.Sprintf("0 <= %s", ix), fmt.Sprintf("%s <= %s || %s < 0", ix, ln, ln)), fmt.Sprintf("%s - %s", ln, ix))
	f.line("{")
	f.ind++
	if ls != nil {
		f.raw(ls.Start)
	}
	if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
		f.line("let mut %s: i64 = %s;", f.declare(id), ix)
	}
	if x.Value != nil {
		if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
			vt := f.t.info.Defs[id].Type()
			f.line("let mut %s: %s = %ss_get(h, %s, %s);", f.declare(id), f.t.rtype(vt), k, s, ix)
		}
	}
	post := func() {
		if ls != nil {
			f.raw(ls.End)
		}
		f.line("%s = %s + 1;", ix, ix)
	}
	f.posts = append(f.posts, post)
	f.brk = append(f.brk, "loop")
	f.stmts(x.Body.List)
	if !terminates(x.Body.List) {
		post()
	}
	f.brk = f.brk[:len(f.brk)-1]
	f.posts = f.posts[:len(f.posts)-1]
	f.ind--
	f.line("}")
	if ls != nil {
		f.raw(ls.Post)
	}
	f.ind--
	f.line("}")
}

func (f *fx) switchStmt(x *ast.SwitchStmt) {
	f.line("{")
	f.ind++
	if x.Init != nil {
		f.stmt(x.Init)
	}
	tag := ""
	var tagT types.Type
	if x.Tag != nil {
		tagT = f.t.info.Types[x.Tag].Type
		v := f.expr(x.Tag, nil)
		tag = f.fresh()
		f.line("let %s = %s;", tag, v)
	}
	f.brk = append(f.brk, "switch")
	var def *ast.CaseClause
	depth := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []string
		for _, e := range cc.List {
			if tag == "" {
				conds = append(conds, f.expr(e, nil))
			} else {
				conds = append(conds, f.equal(tag, tagT, e))
			}
		}
		f.line("if %s {", strings.Join(conds, " || "))
		f.ind++
		f.stmts(cc.Body)
		f.ind--
		f.line("} else {")
		f.ind++
		depth++
	}
	if def != nil {
		f.stmts(def.Body)
	}
	for ; depth > 0; depth-- {
		f.ind--
		f.line("}")
	}
	f.brk = f.brk[:len(f.brk)-1]
	f.ind--
	f.line("}")
}

func (f *fx) equal(a string, ty types.Type, e ast.Expr) string {
	v := f.expr(e, ty)
	switch f.t.rtype(ty) {
	case "Node":
		return fmt.Sprintf("node_eq(%s, %s)", a, v)
	}
	return fmt.Sprintf("%s == %s", a, v)
}

func (f *fx) typeSwitch(x *ast.TypeSwitchStmt) {
	if x.Init != nil {
		f.bad(x, "type switch with init")
	}
	var src ast.Expr
	var bind *ast.Ident
	switch a := x.Assign.(type) {
	case *ast.ExprStmt:
		src = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		src = a.Rhs[0].(*ast.TypeAssertExpr).X
		bind = a.Lhs[0].(*ast.Ident)
	}
	if f.t.rtype(f.t.info.Types[src].Type) != "Node" {
		f.bad(x, "type switch on %s", f.t.info.Types[src].Type)
	}
	f.line("{")
	f.ind++
	v := f.expr(src, nil)
	tag := f.fresh()
	f.line("let %s: Node = %s;", tag, v)
	f.brk = append(f.brk, "switch")
	var def *ast.CaseClause
	depth := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []string
		for _, e := range cc.List {
			if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
				conds = append(conds, fmt.Sprintf("is_tag(%s, Tag::Nil)", tag))
				continue
			}
			n := named(f.t.info.Types[e].Type)
			tg, ok := f.t.tags[n]
			if !ok {
				f.bad(e, "type case %s", n)
			}
			conds = append(conds, fmt.Sprintf("is_tag(%s, Tag::%s)", tag, tg))
		}
		f.line("if %s {", strings.Join(conds, " || "))
		f.ind++
		if bind != nil {
			o := f.t.info.Implicits[cc]
			if o != nil {
				n := rname(bind.Name)
				if len(cc.List) == 1 && f.t.rtype(o.Type()) == "Ptr" {
					f.line("let mut %s: Ptr = %s.p;", n, tag)
				} else {
					f.line("let mut %s: Node = %s;", n, tag)
				}
			}
		}
		f.stmts(cc.Body)
		f.ind--
		f.line("} else {")
		f.ind++
		depth++
	}
	if def != nil {
		if bind != nil && f.t.info.Implicits[def] != nil {
			f.line("let mut %s: Node = %s;", rname(bind.Name), tag)
		}
		f.stmts(def.Body)
	}
	for ; depth > 0; depth-- {
		f.ind--
		f.line("}")
	}
	f.brk = f.brk[:len(f.brk)-1]
	f.ind--
	f.line("}")
}

// selectStmt supports only "case <-ch: ... default: ..." on channels that are
// never sent on, where the receive is possible exactly when ch is closed.
func (f *fx) selectStmt(x *ast.SelectStmt) {
	if f.t.sends != 0 {
		f.bad(x, "select on channels with sends")
	}
	var recv, def *ast.CommClause
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = cc
		} else if recv == nil {
			recv = cc
		} else {
			f.bad(x, "select with several cases")
		}
	}
	if recv == nil || def == nil {
		f.bad(x, "blocking select")
	}
	es, ok := recv.Comm.(*ast.ExprStmt)
	if !ok {
		f.bad(x, "select receive form")
	}
	u, ok := ast.Unparen(es.X).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		f.bad(x, "select receive form")
	}
	ch := f.expr(u.X, nil)
	f.line("if chan_ready(h, %s) {", ch)
	f.brk = append(f.brk, "switch")
	f.ind++
	f.stmts(recv.Body)
	f.ind--
	f.line("} else {")
	f.ind++
	f.stmts(def.Body)
	f.ind--
	f.line("}")
	f.brk = f.brk[:len(f.brk)-1]
}

// ---- expressions ----

func (f *fx) arith(op token.Token, a, b string, ty types.Type) string {
	rt := f.t.rtype(ty)
	signed := rt == "i64" || rt == "i32"
	switch op {
	case token.ADD, token.SUB, token.MUL:
		if rt == "GoStr" {
			break
		}
		o := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*"}[op]
		if signed {
			return fmt.Sprintf("(%s %s %s)", a, o, b)
		}
		w := map[token.Token]string{token.ADD: "wadd", token.SUB: "wsub", token.MUL: "wmul"}[op]
		return fmt.Sprintf("%s_%s(%s, %s)", w, rt, a, b)
	case token.QUO, token.REM:
		if !signed {
			o := "/"
			if op == token.REM {
				o = "%"
			}
			return fmt.Sprintf("(%s %s %s)", a, o, b)
		}
	}
	panic(unsup{f.fi.decl.Pos(), "operator " + op.String() + " on " + rt})
}

func (f *fx) toInt(v string, e ast.Expr) string {
	tv := f.t.info.Types[e]
	if tv.Value != nil {
		return v
	}
	return f.conv(v, tv.Type, types.Typ[types.Int], e)
}

func isNilExpr(info *types.Info, e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.IsNil()
}

// conv converts an already translated value between Go types where Go does so
// implicitly (interface boxing) or explicitly (integers).
func (f *fx) conv(v string, from, to types.Type, at ast.Node) string {
	if to == nil || from == nil {
		return v
	}
	if types.Identical(from, to) {
		return v
	}
	tr, fr := f.t.rtype(to), f.t.rtype(from)
	if tr == fr {
		return v
	}
	if tr == "Node" && fr == "Ptr" {
		tg, ok := f.t.tags[named(from)]
		if !ok {
			f.bad(at, "boxing of %s", from)
		}
		return fmt.Sprintf("mk_node(Tag::%s, %s)", tg, v)
	}
	ints := map[string]bool{"i64": true, "u64": true, "u32": true, "u16": true, "u8": true, "i32": true}
	if ints[tr] && ints[fr] {
		return fmt.Sprintf("cv_%s_%s(%s)", fr, tr, v)
	}
	f.bad(at, "conversion from %s to %s", from, to)
	return ""
}

func (f *fx) constant(tv types.TypeAndValue, want types.Type, at ast.Node) string {
	ty := tv.Type
	if want != nil {
		if _, ok := want.Underlying().(*types.Basic); ok {
			ty = want
		}
	}
	if b, ok := ty.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		ty = types.Default(ty)
	}
	switch tv.Value.Kind() {
	case constant.Int:
		v := constant.ToInt(tv.Value)
		s := v.ExactString()
		rt := f.t.rtype(ty)
		if strings.HasPrefix(s, "-") {
			return "(-" + s[1:] + rt + ")"
		}
		return s + rt
	case constant.Bool:
		if constant.BoolVal(tv.Value) {
			return "true"
		}
		return "false"
	}
	f.bad(at, "constant %s", tv.Value)
	return ""
}

// expr translates e; the result is converted to want when that is non-nil.
func (f *fx) expr(e ast.Expr, want types.Type) string {
	info := f.t.info
	e = ast.Unparen(e)
	tv := info.Types[e]
	if tv.Value != nil {
		return f.constant(tv, want, e)
	}
	if isNilExpr(info, e) {
		ty := want
		if ty == nil {
			ty = tv.Type
		}
		switch f.t.rtype(ty) {
		case "Node":
			return "NIL"
		case "Slice":
			return "NILS"
		case "Ptr", "Chan":
			return "0u64"
		}
		f.bad(e, "nil of %s", ty)
	}
	v := f.expr0(e)
	if want != nil {
		if _, ok := tv.Type.(*types.Tuple); !ok {
			v = f.conv(v, tv.Type, want, e)
		}
	}
	return v
}

func (f *fx) bind(v string) string {
	t := f.fresh()
	f.line("let %s = %s;", t, v)
	return t
}

func (f *fx) expr0(e ast.Expr) string {
	info := f.t.info
	switch x := e.(type) {
	case *ast.Ident:
		switch info.Uses[x].(type) {
		case *types.Var:
			return f.name(x)
		}
		f.bad(e, "identifier %s", x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return "!(" + f.expr(x.X, nil) + ")"
		case token.SUB:
			return "(-" + f.expr(x.X, nil) + ")"
		case token.AND:
			return f.addr(x)
		}
		f.bad(e, "unary %s", x.Op)
	case *ast.BinaryExpr:
		return f.binary(x)
	case *ast.CallExpr:
		return f.call(x, false)
	case *ast.SelectorExpr:
		p, fn := f.fieldRef(x)
		return f.bind(fmt.Sprintf("ld_%s(h, %s)", fn, p))
	case *ast.StarExpr:
		if f.t.rtype(info.Types[x.X].Type) == "&mut i64" {
			return "*" + f.expr(x.X, nil)
		}
		f.bad(e, "dereference")
	case *ast.IndexExpr:
		bt := info.Types[x.X].Type
		if a, ok := bt.Underlying().(*types.Array); ok {
			sel, ok := ast.Unparen(x.X).(*ast.SelectorExpr)
			if !ok {
				f.bad(e, "array index")
			}
			p := f.expr(sel.X, nil)
			i := f.toInt(f.expr(x.Index, nil), x.Index)
			return f.bind(fmt.Sprintf("%s_get(h, %s, %s, %d)", f.arrayField(sel), p, i, a.Len()))
		}
		k := f.t.elemKind(bt)
		if k == "?" {
			f.bad(e, "index of %s", bt)
		}
		s := f.expr(x.X, nil)
		i := f.toInt(f.expr(x.Index, nil), x.Index)
		return f.bind(fmt.Sprintf("%ss_get(h, %s, %s)", k, s, i))
	case *ast.SliceExpr:
		if x.Slice3 {
			f.bad(e, "three-index slice")
		}
		bt := info.Types[x.X].Type
		var s string
		if p, ok := bt.Underlying().(*types.Pointer); ok {
			bt = p.Elem()
		}
		if a, ok := bt.Underlying().(*types.Array); ok {
			sel, ok := ast.Unparen(x.X).(*ast.SelectorExpr)
			if !ok {
				f.bad(e, "slice of array")
			}
			p := f.expr(sel.X, nil)
			s = f.bind(fmt.Sprintf("%s_slice(h, %s, %d)", f.arrayField(sel), p, a.Len()))
		} else if f.t.rtype(bt) == "Slice" {
			s = f.expr(x.X, nil)
		} else {
			f.bad(e, "slice of %s", bt)
		}
		lo, hi := "", ""
		if x.Low != nil {
			lo = f.toInt(f.expr(x.Low, nil), x.Low)
		}
		if x.High != nil {
			hi = f.toInt(f.expr(x.High, nil), x.High)
		}
		switch {
		case lo == "" && hi == "":
			return s
		case hi == "":
			return f.bind(fmt.Sprintf("slice_from(%s, %s)", s, lo))
		case lo == "":
			return f.bind(fmt.Sprintf("slice_range(%s, 0, %s)", s, hi))
		}
		return f.bind(fmt.Sprintf("slice_range(%s, %s, %s)", s, lo, hi))
	case *ast.TypeAssertExpr:
		v := f.expr(x.X, nil)
		ty := info.Types[e].Type
		if _, ok := ty.(*types.Tuple); ok {
			f.bad(e, "comma-ok type assertion")
		}
		if f.t.rtype(info.Types[x.X].Type) != "Node" {
			f.bad(e, "type assertion on %s", info.Types[x.X].Type)
		}
		if f.t.rtype(ty) == "Node" {
			return f.bind(fmt.Sprintf("as_iface(%s)", v))
		}
		n := named(ty)
		if !f.t.isNodeStruct(n) {
			f.bad(e, "type assertion to %s", ty)
		}
		return f.bind(fmt.Sprintf("as_%s(%s)", n, v))
	case *ast.CompositeLit:
		return f.complit(x)
	}
	f.bad(e, "expression %T", e)
	return ""
}

func (f *fx) addr(x *ast.UnaryExpr) string {
	switch y := ast.Unparen(x.X).(type) {
	case *ast.CompositeLit:
		return f.newStruct(y)
	case *ast.Ident:
		ty := f.t.info.Types[y].Type
		switch f.t.rtype(ty) {
		case "i64":
			return "&mut " + f.name(y)
		case "Node":
			return f.bind(fmt.Sprintf("box_node(%s)", f.name(y)))
		}
	}
	f.bad(x, "address of %T", x.X)
	return ""
}

func (f *fx) newStruct(c *ast.CompositeLit) string {
	info := f.t.info
	ty := info.Types[c].Type
	n := named(ty)
	isNode := f.t.isNodeStruct(n)
	isObj := false
	for _, s := range objStructs {
		isObj = isObj || s == n
	}
	if !isNode && !isObj {
		f.bad(c, "composite literal of %s", n)
	}
	f.needMut(c)
	st := ty.Underlying().(*types.Struct)
	// operands are evaluated before the allocation is visible
	type fv struct{ fn, v string }
	var fvs []fv
	for i, el := range c.Elts {
		fi := i
		val := el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			val = kv.Value
			fi = -1
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == kv.Key.(*ast.Ident).Name {
					fi = j
				}
			}
		}
		fd := st.Field(fi)
		if _, ok := fd.Type().Underlying().(*types.Array); ok || fd.Name() == "mutateCh" {
			f.bad(c, "literal for field %s", fd.Name())
		}
		v := f.bind(f.expr(val, fd.Type()))
		fn := fd.Name()
		if isObj {
			fn = n + "_" + fn
		}
		fvs = append(fvs, fv{fn, v})
	}
	p := f.bind(fmt.Sprintf("new_%s(h)", n))
	for _, x := range fvs {
		f.line("st_%s(h, %s, %s);", x.fn, p, x.v)
	}
	name := "new_" + n
	f.callN[name]++
	if a := f.con.After[fmt.Sprintf("%s#%d", name, f.callN[name])] + f.con.After[name+"#*"]; a != "" {
		f.raw(strings.ReplaceAll(a, "$r", p))
	}
	return p
}

func (f *fx) complit(c *ast.CompositeLit) string {
	ty := f.t.info.Types[c].Type
	if f.t.rtype(ty) != "Slice" {
		f.bad(c, "composite literal of %s", ty)
	}
	k := f.t.elemKind(ty)
	if k == "?" {
		f.bad(c, "slice literal of %s", ty)
	}
	if len(c.Elts) == 0 {
		return "EMPTYS"
	}
	f.needMut(c)
	el := ty.Underlying().(*types.Slice).Elem()
	var vals []string
	for _, e := range c.Elts {
		if _, ok := e.(*ast.KeyValueExpr); ok {
			f.bad(c, "keyed slice literal")
		}
		vals = append(vals, f.expr(e, el))
	}
	s := f.bind(fmt.Sprintf("%ss_make(h, %di64)", k, len(vals)))
	for i, v := range vals {
		f.line("%ss_set(h, %s, %di64, %s);", k, s, i, v)
	}
	return s
}

func (f *fx) binary(x *ast.BinaryExpr) string {
	info := f.t.info
	switch x.Op {
	case token.LAND, token.LOR:
		a := f.expr(x.X, nil)
		sub := f.sub()
		b := sub.expr(x.Y, nil)
		pre := sub.take(f)
		if pre == "" {
			op := "&&"
			if x.Op == token.LOR {
				op = "||"
			}
			return fmt.Sprintf("(%s %s %s)", a, op, b)
		}
		t := f.fresh()
		if x.Op == token.LAND {
			f.line("let %s: bool = if %s {", t, a)
			f.b.WriteString(pre)
			f.line("    %s", b)
			f.line("} else { false };")
		} else {
			f.line("let %s: bool = if %s { true } else {", t, a)
			f.b.WriteString(pre)
			f.line("    %s", b)
			f.line("};")
		}
		return t
	case token.EQL, token.NEQ:
		lt, rt := info.Types[x.X], info.Types[x.Y]
		var ty types.Type
		switch {
		case lt.IsNil():
			ty = rt.Type
		case rt.IsNil():
			ty = lt.Type
		case lt.Value != nil:
			ty = rt.Type
		case rt.Value != nil:
			ty = lt.Type
		case types.IsInterface(lt.Type):
			ty = lt.Type
		default:
			ty = rt.Type
		}
		a := f.expr(x.X, ty)
		b := f.expr(x.Y, ty)
		var s string
		switch f.t.rtype(ty) {
		case "Node":
			s = fmt.Sprintf("node_eq(%s, %s)", a, b)
		case "Slice":
			if rt.IsNil() {
				s = fmt.Sprintf("slice_is_nil(%s)", a)
			} else {
				s = fmt.Sprintf("slice_is_nil(%s)", b)
			}
		case "i64", "u64", "u32", "u16", "u8", "i32", "bool", "Ptr", "Chan":
			s = fmt.Sprintf("(%s == %s)", a, b)
		default:
			f.bad(x, "comparison of %s", ty)
		}
		if x.Op == token.NEQ {
			return "!" + s
		}
		return s
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		ty := f.opType(x)
		a := f.expr(x.X, ty)
		b := f.expr(x.Y, ty)
		return fmt.Sprintf("(%s %s %s)", a, x.Op, b)
	}
	ty := info.Types[x].Type
	a := f.expr(x.X, ty)
	b := f.expr(x.Y, ty)
	return f.arith(x.Op, a, b, ty)
}

func (f *fx) opType(x *ast.BinaryExpr) types.Type {
	lt, rt := f.t.info.Types[x.X], f.t.info.Types[x.Y]
	if lt.Value != nil {
		return rt.Type
	}
	return lt.Type
}

func (f *fx) heapArg(writes bool) string {
	if !f.fi.writes {
		return "h"
	}
	if writes {
		return "h"
	}
	return "&*h"
}

func (f *fx) around(name, call, res string, args []string, stmtOnly bool) string {
	f.callN[name]++
	key := fmt.Sprintf("%s#%d", name, f.callN[name])
	sub := func(s, r string) string {
		s = strings.ReplaceAll(s, "$r", r)
		for i := len(args); i > 0; i-- {
			s = strings.ReplaceAll(s, fmt.Sprintf("$%d", i), args[i-1])
		}
		return s
	}
	get := func(m map[string]string) string {
		return m[key] + m[name+"#*"]
	}
	if b := get(f.con.Before); b != "" {
		f.raw(sub(b, ""))
	}
	if res == "" {
		f.line("%s;", call)
		if a := get(f.con.After); a != "" {
			f.raw(sub(a, ""))
		}
		return ""
	}
	t := f.bind(call)
	if a := get(f.con.After); a != "" {
		f.raw(sub(a, t))
	}
	return t
}

// call translates a call; stmt tells that the result is not used.
func (f *fx) call(c *ast.CallExpr, stmt bool) string {
	info := f.t.info
	if tv, ok := info.Types[c.Fun]; ok && tv.IsType() {
		return f.conversion(c, tv.Type)
	}
	k, builtin := f.t.callee(c)
	if builtin {
		return f.builtin(k, c)
	}
	sig, ok := info.Types[c.Fun].Type.Underlying().(*types.Signature)
	if !ok {
		f.bad(c, "call of a value that is not a function")
	}
	args := func(off int) []string {
		var out []string
		if sig.Variadic() {
			f.bad(c, "variadic call")
		}
		for i, a := range c.Args {
			v := f.expr(a, sig.Params().At(i).Type())
			out = append(out, v)
		}
		return out
	}
	switch {
	case k == "$dynamic":
		fn := f.expr(c.Fun, nil)
		as := args(0)
		if len(as) != 2 {
			f.bad(c, "call of a function value")
		}
		f.needMut(c)
		return f.around("callback", fmt.Sprintf("callback(h, %s, %s)", fn, strings.Join(as, ", ")), "x", as, stmt)
	case k == "sort.Search":
		return f.sortSearch(c)
	case strings.HasPrefix(k, "bytes."):
		as := args(0)
		n := map[string]string{"bytes.Compare": "bytes_compare", "bytes.Equal": "bytes_equal", "bytes.HasPrefix": "bytes_has_prefix"}[k]
		if n == "" {
			f.bad(c, "call of %s", k)
		}
		return f.bind(fmt.Sprintf("%s(h, %s)", n, strings.Join(as, ", ")))
	case strings.HasPrefix(k, "Node."):
		m := k[5:]
		if f.t.sp.Ifaces[m] == nil {
			f.bad(c, "interface method %s has no contract", m)
		}
		sel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		rv := f.expr(sel.X, nil)
		as := args(0)
		all := append([]string{rv}, as...)
		call := fmt.Sprintf("Node_%s(%s)", m, strings.Join(append([]string{f.heapArg(f.t.ifaceWrites(m))}, all...), ", "))
		res := "x"
		if sig.Results().Len() == 0 {
			res = ""
		}
		return f.around("Node_"+m, call, res, all, stmt)
	}
	g := f.t.fns[k]
	if g == nil {
		f.bad(c, "call of %s", k)
	}
	var all []string
	if g.recv != "" {
		sel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		all = append(all, f.expr(sel.X, nil))
	}
	all = append(all, args(0)...)
	if g.con == nil {
		return f.inlineCall(g, c, all)
	}
	if g == f.fi && f.con.Dec == "" {
		f.bad(c, "recursion without a measure")
	}
	call := fmt.Sprintf("%s(%s)", k, strings.Join(append([]string{f.heapArg(g.writes)}, all...), ", "))
	res := "x"
	if sig.Results().Len() == 0 {
		res = ""
	}
	return f.around(k, call, res, all, stmt)
}

// inlineCall expands a helper that has no contract at the call site.
func (f *fx) inlineCall(g *fnInfo, c *ast.CallExpr, args []string) string {
	if f.depth > 4 {
		f.bad(c, "helper %s without contract is recursive or nested too deeply", g.name)
	}
	sig := g.obj.Type().(*types.Signature)
	saveInline, saveRet, saveRes, savePosts, saveBrk, savefi := f.inline, f.ret, f.results, f.posts, f.brk, f.fi
	var outs []string
	f.results = nil
	for i := 0; i < sig.Results().Len(); i++ {
		ty := sig.Results().At(i).Type()
		f.results = append(f.results, ty)
		o := f.fresh()
		f.line("let mut %s: %s = %s;", o, f.t.rtype(ty), f.zero(ty))
		outs = append(outs, o)
	}
	f.line("{")
	f.ind++
	f.inlined[g.name] = true
	i := 0
	var lets []string
	if g.recv != "" {
		n := f.fresh()
		f.line("let mut %s = %s;", n, args[0])
		if len(g.decl.Recv.List[0].Names) == 1 {
			id := g.decl.Recv.List[0].Names[0]
			lets = append(lets, fmt.Sprintf("let mut %s = %s;", rname(id.Name), n))
			f.subst[f.t.info.Defs[id]] = rname(id.Name)
		}
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		p := sig.Params().At(j)
		n := f.fresh()
		if f.t.rtype(p.Type()) == "&mut i64" {
			f.subst[p] = strings.TrimPrefix(args[i+j], "&mut ")
			if strings.HasPrefix(args[i+j], "&mut ") {
				f.bad(c, "pointer argument of an inlined helper")
			}
			continue
		}
		f.line("let mut %s: %s = %s;", n, f.t.rtype(p.Type()), args[i+j])
		f.subst[p] = n
		if p.Name() != "" && p.Name() != "_" {
			lets = append(lets, fmt.Sprintf("let mut %s = %s;", rname(p.Name()), n))
			f.subst[p] = rname(p.Name())
		}
	}
	for _, l := range lets {
		f.line("%s", l)
	}
	f.inline = true
	f.depth++
	f.posts, f.brk = nil, nil
	f.ret = func(vals []string) {
		for i, v := range vals {
			f.line("%s = %s;", outs[i], v)
		}
	}
	f.stmts(g.decl.Body.List)
	f.depth--
	f.inline, f.ret, f.results, f.posts, f.brk, f.fi = saveInline, saveRet, saveRes, savePosts, saveBrk, savefi
	f.ind--
	f.line("}")
	switch len(outs) {
	case 0:
		return "()"
	case 1:
		return outs[0]
	}
	return "(" + strings.Join(outs, ", ") + ")"
}

func (f *fx) conversion(c *ast.CallExpr, to types.Type) string {
	from := f.t.info.Types[c.Args[0]].Type
	if tv := f.t.info.Types[c.Args[0]]; tv.Value != nil {
		return f.constant(tv, to, c)
	}
	v := f.expr(c.Args[0], nil)
	tr, fr := f.t.rtype(to), f.t.rtype(from)
	if fr == "GoStr" && tr == "Slice" {
		f.needMut(c)
		return f.bind(fmt.Sprintf("str_bytes(h, %s)", v))
	}
	if fr == "Slice" && tr == "GoStr" {
		return f.bind(fmt.Sprintf("bytes_str(h, %s)", v))
	}
	return f.conv(v, from, to, c)
}

func (f *fx) builtin(k string, c *ast.CallExpr) string {
	info := f.t.info
	switch k {
	case "len", "cap":
		ty := info.Types[c.Args[0]].Type
		if f.t.rtype(ty) != "Slice" {
			f.bad(c, "%s of %s", k, ty)
		}
		return fmt.Sprintf("%s.%s", f.expr(c.Args[0], nil), k)
	case "panic":
		f.line("vstd::pervasive::unreached::<()>(); // panic")
		f.line("return vstd::pervasive::unreached();")
		return ""
	case "copy":
		f.needMut(c)
		e := f.t.elemKind(info.Types[c.Args[0]].Type)
		if e == "?" {
			f.bad(c, "copy of %s", info.Types[c.Args[0]].Type)
		}
		d := f.expr(c.Args[0], nil)
		s := f.expr(c.Args[1], nil)
		return f.around("copy", fmt.Sprintf("%ss_copy(h, %s, %s)", e, d, s), "x", []string{d, s}, true)
	case "make":
		f.needMut(c)
		ty := info.Types[c.Args[0]].Type
		if f.t.rtype(ty) == "Chan" {
			if len(c.Args) != 1 {
				f.bad(c, "buffered channel")
			}
			return f.bind("chan_make(h)")
		}
		if f.t.rtype(ty) != "Slice" || f.t.elemKind(ty) == "?" {
			f.bad(c, "make %s", ty)
		}
		n := f.toInt(f.expr(c.Args[1], nil), c.Args[1])
		if len(c.Args) == 3 {
			// capacity does not matter to the model beyond cap >= len
			f.toInt(f.expr(c.Args[2], nil), c.Args[2])
		}
		return f.bind(fmt.Sprintf("%ss_make(h, %s)", f.t.elemKind(ty), n))
	case "append":
		f.needMut(c)
		ty := info.Types[c.Args[0]].Type
		if tv := info.Types[c]; tv.Type != nil {
			ty = tv.Type
		}
		e := f.t.elemKind(ty)
		if e == "?" {
			f.bad(c, "append to %s", ty)
		}
		s := f.expr(c.Args[0], ty)
		if c.Ellipsis.IsValid() {
			o := f.expr(c.Args[1], nil)
			return f.around("append", fmt.Sprintf("%ss_append_all(h, %s, %s)", e, s, o), "x", []string{s, o}, false)
		}
		el := ty.Underlying().(*types.Slice).Elem()
		for _, a := range c.Args[1:] {
			v := f.expr(a, el)
			s = f.around("append", fmt.Sprintf("%ss_append(h, %s, %s)", e, s, v), "x", []string{s, v}, false)
		}
		return s
	case "close":
		f.needMut(c)
		ch := f.expr(c.Args[0], nil)
		f.line("chan_close(h, %s);", ch)
		return ""
	}
	f.bad(c, "builtin %s", k)
	return ""
}

// sortSearch expands sort.Search with the loop of the standard library.
func (f *fx) sortSearch(c *ast.CallExpr) string {
	lit, ok := ast.Unparen(c.Args[1]).(*ast.FuncLit)
	if !ok || len(lit.Body.List) != 1 {
		f.bad(c, "sort.Search with a complex predicate")
	}
	rs, ok := lit.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(rs.Results) != 1 {
		f.bad(c, "sort.Search with a complex predicate")
	}
	n := f.bind(f.expr(c.Args[0], types.Typ[types.Int]))
	f.tmp++
	lo, hi, mid := fmt.Sprintf("lo%d_", f.tmp), fmt.Sprintf("hi%d_", f.tmp), fmt.Sprintf("mid%d_", f.tmp)
	par := f.t.info.Defs[lit.Type.Params.List[0].Names[0]]
	f.line("let mut %s: i64 = 0;", lo)
	f.line("let mut %s: i64 = %s;", hi, n)
	sp := &sx{f: f, par: par}
	f.line("#[verifier::loop_isolation(false)]")
	f.line("while %s < %s", lo, hi)
	f.line("    invariant")
	f.line("        0 <= %s, %s <= %s || %s < 0, %s <= %s,", lo, lo, hi, n, hi, n)
	sp.val = fmt.Sprintf("(%s - 1)", lo)
	f.line("        %s > 0 ==> !(%s),", lo, sp.expr(rs.Results[0]))
	sp.val = hi
	f.line("        0 <= %s < %s ==> (%s),", hi, n, sp.expr(rs.Results[0]))
	f.line("    decreases %s - %s", hi, lo)
	f.line("{")
	f.ind++
	f.line("let %s: i64 = %s + half(%s - %s);", mid, lo, hi, lo)
	f.subst[par] = mid
	b := f.expr(rs.Results[0], nil)
	f.line("if !(%s) { %s = %s + 1; } else { %s = %s; }", b, lo, mid, hi, mid)
	f.ind--
	f.line("}")
	return lo
}

// sx translates a pure expression into specification form.
type sx struct {
	f   *fx
	par types.Object
	val string
}

func (s *sx) expr(e ast.Expr) string {
	f := s.f
	info := f.t.info
	e = ast.Unparen(e)
	if tv := info.Types[e]; tv.Value != nil {
		return f.constant(tv, nil, e)
	}
	switch x := e.(type) {
	case *ast.Ident:
		if info.Uses[x] == s.par {
			return s.val
		}
		return f.name(x)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			return fmt.Sprintf("(%s %s %s)", s.expr(x.X), x.Op, s.expr(x.Y))
		case token.LAND, token.LOR:
			return fmt.Sprintf("(%s %s %s)", s.expr(x.X), x.Op, s.expr(x.Y))
		}
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return "!(" + s.expr(x.X) + ")"
		}
	case *ast.IndexExpr:
		bt := info.Types[x.X].Type
		if _, ok := bt.Underlying().(*types.Array); ok {
			if sel, ok := ast.Unparen(x.X).(*ast.SelectorExpr); ok {
				return fmt.Sprintf("h@.nodes[%s].%s[%s as int]", s.expr(sel.X), sel.Sel.Name, s.expr(x.Index))
			}
		}
		if f.t.rtype(bt) == "Slice" && f.t.elemKind(bt) == "b" {
			return fmt.Sprintf("bs_at(h@, %s, %s as int)", s.expr(x.X), s.expr(x.Index))
		}
	case *ast.CallExpr:
		k, b := f.t.callee(x)
		if b {
			break
		}
		var con *Contract
		var recv string
		if strings.HasPrefix(k, "Node.") {
			con = f.t.sp.Ifaces[k[5:]]
			recv = s.expr(ast.Unparen(x.Fun).(*ast.SelectorExpr).X)
		} else if g := f.t.fns[k]; g != nil && g.recv != "" && f.t.isNodeStruct(g.recv) {
			con = g.con
			recv = fmt.Sprintf("(Node { tag: Tag::%s, p: %s })", f.t.tags[g.recv], s.expr(ast.Unparen(x.Fun).(*ast.SelectorExpr).X))
		}
		if con == nil || con.Pure == "" {
			break
		}
		p := "({ let n = " + recv + ";"
		for i, a := range x.Args {
			p += fmt.Sprintf(" let a%d = %s;", i, s.expr(a))
		}
		return p + " " + f.t.clause(con.Pure, false) + " })"
	}
	f.bad(e, "expression in a search predicate")
	return ""
}
