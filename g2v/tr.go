package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type fnInfo struct {
	name   string // generated name
	decl   *ast.FuncDecl
	recv   string // receiver named type, "" for functions
	rname  string // receiver variable
	obj    *types.Func
	writes bool
	calls  map[string]bool
	con    *Contract
	order  int
}

type tr struct {
	fset         *token.FileSet
	pkg          *types.Package
	info         *types.Info
	files        []*ast.File
	sp           *Specs
	fns          map[string]*fnInfo
	order        []string
	impls        []string          // node struct names implementing the Node interface
	tags         map[string]string // struct -> tag
	iface        *types.Interface
	ifaceMethods []*types.Func
	sends        int
	probe        string
	stubs        map[string]bool
	only         map[string]bool
	names        map[string][]string
}

type unsup struct {
	pos token.Pos
	msg string
}

func newTr(fset *token.FileSet, pkg *types.Package, info *types.Info, files []*ast.File, sp *Specs) *tr {
	return &tr{fset: fset, pkg: pkg, info: info, files: files, sp: sp, fns: map[string]*fnInfo{}, tags: map[string]string{
		"NodeLeaf": "Leaf", "Node4": "N4", "Node16": "N16", "Node48": "N48", "Node256": "N256"}}
}

var tagOrder = []string{"NodeLeaf", "Node4", "Node16", "Node48", "Node256"}

func named(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (t *tr) isNodeStruct(n string) bool { _, ok := t.tags[n]; return ok }

func (t *tr) collect() error {
	o := t.pkg.Scope().Lookup("Node")
	if o == nil {
		return fmt.Errorf("no Node interface in the package")
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return fmt.Errorf("Node is not an interface")
	}
	t.iface = it
	for i := 0; i < it.NumMethods(); i++ {
		t.ifaceMethods = append(t.ifaceMethods, it.Method(i))
	}
	order := 0
	for _, f := range t.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fi := &fnInfo{decl: fd, calls: map[string]bool{}, order: order}
			order++
			fi.obj, _ = t.info.Defs[fd.Name].(*types.Func)
			fi.name = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				rt := fi.obj.Type().(*types.Signature).Recv().Type()
				fi.recv = named(rt)
				fi.name = fi.recv + "_" + fd.Name.Name
				if len(fd.Recv.List[0].Names) == 1 {
					fi.rname = fd.Recv.List[0].Names[0].Name
				} else {
					fi.rname = "_recv"
				}
			}
			t.fns[fi.name] = fi
			t.order = append(t.order, fi.name)
		}
	}
	// every struct type with all interface methods must be a known node kind
	mset := map[string]int{}
	for _, fi := range t.fns {
		if fi.recv != "" && t.hasMethod(fi.decl.Name.Name) {
			mset[fi.recv]++
		}
	}
	for n, k := range mset {
		if k == len(t.ifaceMethods) {
			if !t.isNodeStruct(n) {
				return fmt.Errorf("unknown node kind %s", n)
			}
			t.impls = append(t.impls, n)
		}
	}
	if len(t.impls) != len(tagOrder) {
		return fmt.Errorf("expected %d node kinds, found %v", len(tagOrder), t.impls)
	}
	t.impls = tagOrder
	for _, f := range t.files {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.SendStmt); ok {
				t.sends++
			}
			return true
		})
	}
	for _, fi := range t.fns {
		fi.con = t.contractOf(fi)
		t.scan(fi)
	}
	for changed := true; changed; {
		changed = false
		for _, fi := range t.fns {
			if fi.writes || (fi.con != nil && fi.con.Trusted) {
				continue
			}
			for c := range fi.calls {
				for _, g := range t.targets(c) {
					if g.writes {
						fi.writes = true
						changed = true
					}
				}
			}
		}
	}
	return nil
}

func (t *tr) hasMethod(n string) bool {
	for _, m := range t.ifaceMethods {
		if m.Name() == n {
			return true
		}
	}
	return false
}

// contractOf returns the contract of a function: its own, or the one of the
// interface method it implements.
func (t *tr) contractOf(fi *fnInfo) *Contract {
	if c := t.sp.Fns[fi.name]; c != nil {
		if fi.recv != "" && t.isNodeStruct(fi.recv) && t.hasMethod(fi.decl.Name.Name) {
			if ic := t.sp.Ifaces[fi.decl.Name.Name]; ic != nil && len(c.Req) == 0 && len(c.Ens) == 0 && c.Pure == "" {
				return t.inherit(fi, c, ic)
			}
		}
		return c
	}
	if fi.recv != "" && t.isNodeStruct(fi.recv) && t.hasMethod(fi.decl.Name.Name) {
		return t.sp.Ifaces[fi.decl.Name.Name]
	}
	return nil
}

// inherit completes annotations on an implementation with the contract of the
// interface method.
func (t *tr) inherit(fi *fnInfo, c, ic *Contract) *Contract {
	m := *c
	sig := fi.obj.Type().(*types.Signature)
	wrap := func(x string) string {
		s := fmt.Sprintf("({ let n = Node { tag: Tag::%s, p: %s };", t.tags[fi.recv], rname(fi.rname))
		for i := 0; i < sig.Params().Len(); i++ {
			s += fmt.Sprintf(" let a%d = %s;", i, rname(sig.Params().At(i).Name()))
		}
		return s + " " + x + " })"
	}
	for _, x := range ic.Req {
		m.Req = append(m.Req, wrap(x))
	}
	for _, x := range ic.Ens {
		m.Ens = append(m.Ens, wrap(x))
	}
	if ic.Pure != "" {
		m.Ens = append(m.Ens, wrap("r == ("+ic.Pure+")"))
	}
	return &m
}

// targets maps a callee key to the functions it can reach.
func (t *tr) targets(c string) []*fnInfo {
	if strings.HasPrefix(c, "Node.") {
		var out []*fnInfo
		for _, s := range t.impls {
			if g := t.fns[s+"_"+c[5:]]; g != nil {
				out = append(out, g)
			}
		}
		return out
	}
	if g := t.fns[c]; g != nil {
		return []*fnInfo{g}
	}
	return nil
}

// scan records callees and direct heap writes.
func (t *tr) scan(fi *fnInfo) {
	if fi.con != nil && fi.con.Trusted {
		fi.writes = strings.HasPrefix(fi.con.Reason, "mut")
		return
	}
	ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if !t.isLocalLHS(l) {
					fi.writes = true
				}
			}
		case *ast.IncDecStmt:
			if !t.isLocalLHS(x.X) {
				fi.writes = true
			}
		case *ast.CompositeLit:
			if _, ok := t.info.Types[x].Type.Underlying().(*types.Slice); !ok || len(x.Elts) > 0 {
				fi.writes = true
			}
		case *ast.CallExpr:
			if tv, ok := t.info.Types[x.Fun]; ok && tv.IsType() {
				if _, ok := tv.Type.Underlying().(*types.Slice); ok {
					fi.writes = true
				}
				return true
			}
			k, b := t.callee(x)
			if b {
				switch k {
				case "make", "append", "copy", "close", "new":
					fi.writes = true
				}
				return true
			}
			if k == "$dynamic" {
				fi.writes = true
			}
			fi.calls[k] = true
		}
		return true
	})
}

func (t *tr) isLocalLHS(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.StarExpr:
		// *old with old an *int parameter
		return true
	case *ast.ParenExpr:
		return t.isLocalLHS(x.X)
	}
	return false
}

// callee names the target of a call: a generated function name, "Node.m" for
// an interface method, "pkg.F" for other packages, builtin name with true.
func (t *tr) callee(c *ast.CallExpr) (string, bool) {
	fun := ast.Unparen(c.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		if tv, ok := t.info.Types[ix.Index]; ok && tv.IsType() {
			fun = ix.X
		}
	}
	switch x := fun.(type) {
	case *ast.Ident:
		switch o := t.info.Uses[x].(type) {
		case *types.Builtin:
			return o.Name(), true
		case *types.Func:
			return o.Name(), false
		case *types.Var:
			return "$dynamic", false
		}
	case *ast.SelectorExpr:
		if sel := t.info.Selections[x]; sel != nil {
			if sel.Kind() == types.MethodVal {
				rt := sel.Recv()
				if types.IsInterface(rt) {
					return "Node." + x.Sel.Name, false
				}
				n := named(rt)
				if _, ok := t.fns[n+"_"+x.Sel.Name]; ok {
					return n + "_" + x.Sel.Name, false
				}
				return "ext." + n + "." + x.Sel.Name, false
			}
			return "$dynamic", false
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := t.info.Uses[id].(*types.PkgName); ok {
				return pn.Imported().Path() + "." + x.Sel.Name, false
			}
		}
	}
	return "$dynamic", false
}

// ---- types ----

func (t *tr) rtype(ty types.Type) string {
	if tp, ok := ty.(*types.TypeParam); ok {
		_ = tp
		return "Val"
	}
	switch u := ty.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Int64, types.UntypedInt:
			return "i64"
		case types.Uint64:
			return "u64"
		case types.Uint32:
			return "u32"
		case types.Uint16:
			return "u16"
		case types.Uint8:
			return "u8"
		case types.Int32:
			return "i32"
		case types.Bool, types.UntypedBool:
			return "bool"
		case types.String, types.UntypedString:
			return "GoStr"
		}
	case *types.Named:
		if types.IsInterface(u) && u.Obj().Name() == "Node" {
			return "Node"
		}
		if _, ok := u.Underlying().(*types.Basic); ok {
			return t.rtype(u.Underlying())
		}
		if _, ok := u.Underlying().(*types.Signature); ok {
			return "Callback"
		}
	case *types.Slice:
		return "Slice"
	case *types.Chan:
		return "Chan"
	case *types.Pointer:
		if b, ok := u.Elem().(*types.Basic); ok && b.Kind() == types.Int {
			return "&mut i64"
		}
		return "Ptr"
	case *types.Signature:
		return "Callback"
	}
	panic(unsup{token.NoPos, "type " + ty.String()})
}

func (t *tr) elemKind(ty types.Type) string {
	s, ok := ty.Underlying().(*types.Slice)
	if !ok {
		if a, ok := ty.Underlying().(*types.Array); ok {
			return t.elemKindOf(a.Elem())
		}
		return "?"
	}
	return t.elemKindOf(s.Elem())
}

func (t *tr) elemKindOf(e types.Type) string {
	switch t.rtype(e) {
	case "u8":
		return "b"
	case "Node":
		return "n"
	case "Chan":
		return "c"
	}
	return "?"
}

// ---- generation ----

type field struct {
	name string
	typ  types.Type
}

func (t *tr) structFields(name string) ([]field, error) {
	o := t.pkg.Scope().Lookup(name)
	if o == nil {
		return nil, fmt.Errorf("no type %s", name)
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("%s is not a struct", name)
	}
	var out []field
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, field{st.Field(i).Name(), st.Field(i).Type()})
	}
	return out, nil
}

var objStructs = []string{"RadixTree", "Txn", "Iterator", "LowerBoundIterator", "PathIterator", "ReverseIterator"}

func zeroOf(rt string) string {
	switch rt {
	case "bool":
		return "false"
	case "Node":
		return "nil_node()"
	case "Slice":
		return "nil_slice()"
	case "Val":
		return "zero_val()"
	case "Ptr", "Chan":
		return "0u64"
	case "&mut i64":
		return "0u64"
	}
	return "0" + rt
}

func (t *tr) genStructs() (string, error) {
	var b strings.Builder
	// node record: union of the fields of the node kinds
	type uf struct {
		name, typ string
	}
	seen := map[string]string{}
	var ufs []uf
	arrays := map[string]map[string]int64{"keys": {}, "children": {}}
	for _, s := range tagOrder {
		fs, err := t.structFields(s)
		if err != nil {
			return "", err
		}
		for _, f := range fs {
			if a, ok := f.typ.Underlying().(*types.Array); ok {
				if arrays[f.name] == nil {
					return "", fmt.Errorf("unsupported array field %s.%s", s, f.name)
				}
				arrays[f.name][s] = a.Len()
				continue
			}
			if f.name == "mutateCh" {
				continue
			}
			rt := t.rtype(f.typ)
			if o, ok := seen[f.name]; ok {
				if o != rt {
					return "", fmt.Errorf("field %s has different types across node kinds", f.name)
				}
				continue
			}
			seen[f.name] = rt
			ufs = append(ufs, uf{f.name, rt})
		}
	}
	b.WriteString("pub ghost struct Rec {\n    pub ch: Chan,\n    pub keys: Seq<u8>,\n    pub children: Seq<Node>,\n")
	for _, f := range ufs {
		fmt.Fprintf(&b, "    pub %s: %s,\n", f.name, f.typ)
	}
	b.WriteString("}\n")
	lens := func(fn, a string) {
		fmt.Fprintf(&b, "pub open spec fn %s(t: Tag) -> nat {\n    match t {\n        Tag::Nil => 0,\n", fn)
		for _, s := range tagOrder {
			fmt.Fprintf(&b, "        Tag::%s => %d,\n", t.tags[s], arrays[a][s])
		}
		b.WriteString("    }\n}\n")
	}
	lens("keys_len", "keys")
	lens("children_len", "children")
	b.WriteString("pub open spec fn zero_rec(t: Tag, c: Chan) -> Rec {\n    Rec { ch: c, keys: Seq::new(keys_len(t), |i: int| 0u8), children: Seq::new(children_len(t), |i: int| nil_node()),\n")
	for _, f := range ufs {
		z := zeroOf(f.typ)
		fmt.Fprintf(&b, "        %s: %s,\n", f.name, z)
	}
	b.WriteString("    }\n}\n")
	// other objects
	for _, s := range objStructs {
		fs, err := t.structFields(s)
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&b, "pub ghost struct R%s {\n", s)
		for _, f := range fs {
			rt := t.rtype(f.typ)
			fmt.Fprintf(&b, "    pub %s: %s,\n", f.name, rt)
		}
		b.WriteString("}\n")
		fmt.Fprintf(&b, "pub open spec fn zero_%s() -> R%s { R%s {", s, s, s)
		for _, f := range fs {
			fmt.Fprintf(&b, " %s: %s,", f.name, zeroOf(t.rtype(f.typ)))
		}
		b.WriteString(" } }\n")
	}
	b.WriteString("pub ghost struct H {\n    pub nodes: Map<Ptr, Rec>,\n    pub gh: Map<Ptr, GRec>,\n    pub bytes: Map<u64, BArr>,\n    pub narr: Map<u64, NArr>,\n    pub carr: Map<u64, CArr>,\n    pub chans: Set<Chan>,\n    pub closed: Set<Chan>,\n    pub trace: Seq<(Seq<u8>, Val, bool)>,\n    pub gx: GX,\n")
	for _, s := range objStructs {
		fmt.Fprintf(&b, "    pub m_%s: Map<Ptr, R%s>,\n", s, s)
	}
	b.WriteString("}\n")
	return b.String(), nil
}

func genInts() string {
	var b strings.Builder
	bits := []struct {
		n string
		k int
		s bool
	}{{"i64", 64, true}, {"i32", 32, true}, {"u64", 64, false}, {"u32", 32, false}, {"u16", 16, false}, {"u8", 8, false}}
	pow := map[int]string{8: "0x100", 16: "0x1_0000", 32: "0x1_0000_0000", 64: "0x1_0000_0000_0000_0000"}
	half := map[int]string{8: "0x80", 16: "0x8000", 32: "0x8000_0000", 64: "0x8000_0000_0000_0000"}
	for _, x := range bits {
		for _, y := range bits {
			if x.n == y.n {
				continue
			}
			fits := fmt.Sprintf("0 <= x < %s ==> r as int == x as int", pow[y.k])
			mod := fmt.Sprintf("r as int == x as int %% %s", pow[y.k])
			if y.s {
				fits = fmt.Sprintf("-%s <= x < %s ==> r as int == x as int", half[y.k], half[y.k])
				mod = fmt.Sprintf("(r as int - x as int) %% %s == 0", pow[y.k])
			}
			fmt.Fprintf(&b, "#[verifier::external_body] pub fn cv_%s_%s(x: %s) -> (r: %s)\n    ensures %s, %s,\n{ unimplemented!() }\n", x.n, y.n, x.n, y.n, fits, mod)
		}
	}
	for _, x := range bits[2:] {
		p := pow[x.k]
		fmt.Fprintf(&b, "#[verifier::external_body] pub fn wadd_%s(a: %s, b: %s) -> (r: %s)\n    ensures r as int == if a + b < %s { a + b } else { a + b - %s },\n{ unimplemented!() }\n", x.n, x.n, x.n, x.n, p, p)
		fmt.Fprintf(&b, "#[verifier::external_body] pub fn wsub_%s(a: %s, b: %s) -> (r: %s)\n    ensures r as int == if a >= b { a - b } else { a - b + %s },\n{ unimplemented!() }\n", x.n, x.n, x.n, x.n, p)
	}
	return b.String()
}

var arrMap = map[string]string{"b": "bytes", "n": "narr", "c": "carr"}

// typeFact is what Go's type safety says about a loaded value.
func (t *tr) typeFact(ty types.Type, v string) string {
	switch t.rtype(ty) {
	case "Node":
		return ", typed(" + v + ")"
	case "Slice":
		return ", swf(" + v + ")"
	case "Ptr":
		if tg, ok := t.tags[named(ty)]; ok {
			return fmt.Sprintf(", %s == 0 || kind_of(%s) == Tag::%s", v, v, tg)
		}
	}
	return ""
}

func (t *tr) genPrims() (string, error) {
	var b strings.Builder
	b.WriteString(genInts())
	done := map[string]bool{}
	for _, s := range tagOrder {
		fs, _ := t.structFields(s)
		for _, f := range fs {
			if done[f.name] {
				continue
			}
			if _, ok := f.typ.Underlying().(*types.Array); ok || f.name == "mutateCh" {
				continue
			}
			done[f.name] = true
			rt := t.rtype(f.typ)
			fmt.Fprintf(&b, "#[verifier::external_body] pub fn ld_%s(h: &Heap, p: Ptr) -> (r: %s)\n    requires p != 0,\n    ensures r == h@.nodes[p].%s%s,\n{ unimplemented!() }\n", f.name, rt, f.name, t.typeFact(f.typ, "r"))
			owner := ""
			if rt == "Slice" {
				owner = fmt.Sprintf(", %s: own_%s(old(h)@.%s, v.arr, node_own(p))", arrMap[t.elemKind(f.typ)], t.elemKind(f.typ), arrMap[t.elemKind(f.typ)])
			}
			fmt.Fprintf(&b, "#[verifier::external_body] pub fn st_%s(h: &mut Heap, p: Ptr, v: %s)\n    requires p != 0,\n    ensures final(h)@ == (H { nodes: old(h)@.nodes.insert(p, Rec { %s: v, ..old(h)@.nodes[p] })%s, ..old(h)@ }),\n{ unimplemented!() }\n", f.name, rt, f.name, owner)
		}
	}
	for _, s := range tagOrder {
		tag := t.tags[s]
		fmt.Fprintf(&b, "#[verifier::external_body] pub fn new_%s(h: &mut Heap) -> (r: Ptr)\n    ensures r != 0, kind_of(r) == Tag::%s, !old(h)@.nodes.contains_key(r),\n        exists|c: Chan| c != 0 && !old(h)@.chans.contains(c) && final(h)@ == (H { nodes: old(h)@.nodes.insert(r, #[trigger] zero_rec(Tag::%s, c)), chans: old(h)@.chans.insert(c), ..old(h)@ }),\n{ unimplemented!() }\n", s, tag, tag)
		fmt.Fprintf(&b, "#[verifier::external_body] pub fn as_%s(n: Node) -> (r: Ptr)\n    requires n.tag == Tag::%s, typed(n),\n    ensures r == n.p, kind_of(r) == Tag::%s, r != 0,\n{ unimplemented!() }\n", s, tag, tag)
	}
	for si, s := range objStructs {
		fmt.Fprintf(&b, "pub open spec fn own_%s(p: Ptr) -> Own { Own { k: %d, p } }\n", s, 2+si)
		fs, err := t.structFields(s)
		if err != nil {
			return "", err
		}
		for _, f := range fs {
			rt := t.rtype(f.typ)
			extra := t.typeFact(f.typ, "r")
			if s == "RadixTree" && (f.name == "size" || f.name == "maxNodeId") {
				extra += ", r < 0x4000_0000_0000_0000"
			}
			if s == "Txn" && f.name == "size" {
				extra += ", r < 0x4000_0000_0000_0000"
			}
			fmt.Fprintf(&b, "#[verifier::external_body] pub fn ld_%s_%s(h: &Heap, p: Ptr) -> (r: %s)\n    requires p != 0,\n    ensures r == h@.m_%s[p].%s%s,\n{ unimplemented!() }\n", s, f.name, rt, s, f.name, extra)
			owner := ""
			if rt == "Slice" {
				k := t.elemKind(f.typ)
				owner = fmt.Sprintf(", %s: own_%s(old(h)@.%s, v.arr, Own { k: %d, p })", arrMap[k], k, arrMap[k], 2+si)
			}
			fmt.Fprintf(&b, "#[verifier::external_body] pub fn st_%s_%s(h: &mut Heap, p: Ptr, v: %s)\n    requires p != 0,\n    ensures final(h)@ == (H { m_%s: old(h)@.m_%s.insert(p, R%s { %s: v, ..old(h)@.m_%s[p] })%s, ..old(h)@ }),\n{ unimplemented!() }\n", s, f.name, rt, s, s, s, f.name, s, owner)
		}
		fmt.Fprintf(&b, "#[verifier::external_body] pub fn new_%s(h: &mut Heap) -> (r: Ptr)\n    ensures r != 0, !old(h)@.m_%s.contains_key(r), final(h)@ == (H { m_%s: old(h)@.m_%s.insert(r, zero_%s()), ..old(h)@ }),\n{ unimplemented!() }\n", s, s, s, s, s)
	}
	return b.String(), nil
}

// callsOf lists the contracts a function relies on, with those of the helpers
// expanded in it.
func (t *tr) callsOf(fi *fnInfo, inl []string) []string {
	set := map[string]bool{}
	add := func(g *fnInfo) {
		for k := range g.calls {
			if strings.HasPrefix(k, "Node.") {
				for _, s := range tagOrder {
					set[s+"_"+k[5:]] = true
				}
			} else if o := t.fns[k]; o != nil {
				set[k] = true
			}
		}
	}
	add(fi)
	for _, n := range inl {
		add(t.fns[n])
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (t *tr) generate(specDir string, rep *Report) (string, error) {
	if err := t.collect(); err != nil {
		return "", err
	}
	if t.sends != 0 {
		rep.Unsupported = append(rep.Unsupported, "channel send statement in the package")
	}
	rep.Sends = t.sends
	pre, err := os.ReadFile(filepath.Join(specDir, "prelude.rs"))
	if err != nil {
		return "", err
	}
	st, err := t.genStructs()
	if err != nil {
		return "", err
	}
	pr, err := t.genPrims()
	if err != nil {
		return "", err
	}
	var out strings.Builder
	lines := func() int { return strings.Count(out.String(), "\n") + 1 }
	out.WriteString("// Generated by g2v from the Go source; do not edit.\n#![allow(unused_mut, unused_variables, unused_assignments, unused_parens, unused_braces, unused_labels, unused_imports, dead_code, non_snake_case, non_camel_case_types, unreachable_code, unused_must_use, path_statements, non_upper_case_globals)]\nuse vstd::prelude::*;\n")
	out.WriteString("pub mod base {\nuse vstd::prelude::*;\nverus! {\n")
	out.Write(pre)
	out.WriteString("\n// ---- generated records ----\n")
	out.WriteString(st)
	out.WriteString("\n// ---- generated field access ----\n")
	out.WriteString(pr)
	out.WriteString("} // verus!\n}\n")
	// specification modules, in name order
	libs, _ := filepath.Glob(filepath.Join(specDir, "*.rs"))
	sort.Strings(libs)
	uses := "use vstd::prelude::*;\nuse crate::base::*;\n"
	for _, l := range libs {
		b := filepath.Base(l)
		if b == "prelude.rs" {
			continue
		}
		txt, err := os.ReadFile(l)
		if err != nil {
			return "", err
		}
		m := strings.TrimSuffix(b, ".rs")
		fmt.Fprintf(&out, "pub mod %s {\n%sverus! {\n", m, uses)
		out.Write(txt)
		out.WriteString("} // verus!\n}\n")
		uses += "use crate::" + m + "::*;\n"
	}
	// functions by module
	mods := map[string][]*fnInfo{}
	var modNames []string
	addMod := func(m string, fi *fnInfo) {
		if _, ok := mods[m]; !ok {
			modNames = append(modNames, m)
		}
		mods[m] = append(mods[m], fi)
	}
	have := map[string]bool{}
	for _, n := range t.order {
		fi := t.fns[n]
		if fi.con == nil {
			p := t.fset.Position(fi.decl.Pos())
			rep.Functions = append(rep.Functions, FnReport{Name: n, File: filepath.Base(p.Filename), Line: p.Line, Status: "uncontracted", Calls: t.callsOf(fi, nil)})
			continue
		}
		have[fi.con.Name] = true
		addMod(fi.con.Module, fi)
	}
	for _, n := range t.sp.Order {
		if t.fns[n] == nil {
			rep.Functions = append(rep.Functions, FnReport{Name: n, Module: t.sp.Fns[n].Module, Status: "missing"})
			rep.Unsupported = append(rep.Unsupported, "function "+n+" not found")
		}
	}
	// interface dispatchers
	disp := map[string][]string{}
	for _, m := range t.ifaceMethods {
		c := t.sp.Ifaces[m.Name()]
		if c == nil {
			continue
		}
		disp[c.Module] = append(disp[c.Module], m.Name())
		if _, ok := mods[c.Module]; !ok {
			modNames = append(modNames, c.Module)
			mods[c.Module] = nil
		}
	}
	sort.Strings(modNames)
	guses := uses
	for _, m := range modNames {
		guses += "use crate::" + m + "::*;\n"
	}
	for _, m := range modNames {
		fmt.Fprintf(&out, "pub mod %s {\n%sverus! {\n", m, strings.Replace(guses, "use crate::"+m+"::*;\n", "", 1))
		sort.Strings(disp[m])
		for _, d := range disp[m] {
			txt, err := t.dispatcher(d)
			if err != nil {
				return "", err
			}
			out.WriteString(txt)
		}
		sort.SliceStable(mods[m], func(i, j int) bool { return mods[m][i].order < mods[m][j].order })
		for _, fi := range mods[m] {
			p := t.fset.Position(fi.decl.Pos())
			r := FnReport{Name: fi.name, Module: m, File: filepath.Base(p.Filename), Line: p.Line, Clauses: len(fi.con.Req) + len(fi.con.Ens)}
			skip := t.only != nil && !t.only[fi.name]
			txt, un, inl := t.function(fi, t.stubs[fi.name] || skip)
			r.Calls = t.callsOf(fi, inl)
			r.Inlined = inl
			switch {
			case un != "":
				r.Status, r.Detail = "unsupported", un
				rep.Unsupported = append(rep.Unsupported, fi.name+": "+un)
				txt, un, _ = t.function(fi, true)
				if un != "" {
					return "", fmt.Errorf("%s: %s", fi.name, un)
				}
			case skip:
				r.Status = "skipped"
			case fi.con.Trusted:
				r.Status, r.Detail = "trusted", fi.con.Reason
			case t.stubs[fi.name]:
				r.Status, r.Detail = "unsupported", "the annotations do not fit the current source"
			default:
				r.Status = "translated"
			}
			r.GenFrom = lines()
			out.WriteString(txt)
			r.GenTo = lines()
			rep.Functions = append(rep.Functions, r)
		}
		out.WriteString("} // verus!\n}\n")
	}
	for _, n := range t.order {
		if t.fns[n].con == nil {
			rep.Uncontracted = append(rep.Uncontracted, n)
		}
	}
	if t.probe == "entry" {
		txt, err := os.ReadFile(filepath.Join(specDir, "probes.txt"))
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&out, "pub mod probes {\n%sverus! {\n%s} // verus!\n}\n", guses, txt)
	}
	out.WriteString("fn main() {}\n")
	return out.String(), nil
}
