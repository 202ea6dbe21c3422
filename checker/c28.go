package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: the program text of the memory helpers is itself analysed. The texts
// are those the analysis of the generator finds in the helpers, with a type of
// its own for every type the text leaves open; what cgo provides is declared
// with the signatures that cgo gives it.

func init() { checks["C28"] = c28 }

const cgo28 = `package gen

type C_size_t uint64
type C_int int32
type C_uint uint32
type C_char int8
type C_uchar uint8

func C_calloc(n, size C_size_t) (unsafe.Pointer, error) { return nil, nil }
func C_malloc(size C_size_t) (unsafe.Pointer, error)    { return nil, nil }
func C_free(p unsafe.Pointer)                           {}
func C_CString(s string) *C_char                        { return nil }
func C_CBytes(b []byte) unsafe.Pointer                  { return nil }
func C_GoString(p *C_char) string                       { return "" }
func C_GoStringN(p *C_char, n C_int) string             { return "" }
func C_GoBytes(p unsafe.Pointer, n C_int) []byte        { return nil }
`

type helper28 struct {
	name string
	src  string
	reqs []string
	pos  token.Pos
}

type all28 struct {
	c     *Ctx
	by    map[string]*helper28
	names []string
	holes map[string]string // what a text leaves open -> the identifier used for it
	types []string          // declarations of the types left open
	size  map[string]int64
	p     *Program
}

func c28(c *Ctx) {
	c.explain = "The texts of the helpers that allocate, remember, copy and free C memory are found by interpreting the generator's own declarations and the functions that make such helpers, for an arbitrary C type, with and without safe strings. Each text, with those it requires, is type-checked as the Go program it will be part of, and its functions are interpreted abstractly in their turn: for an arbitrary map, pointer, string or slice, what every path through them leaves in the maps, passes to C and returns is compared with what the conversions count on."
	c.Rule("form: a memory helper, with those it requires and nothing else, is a Go program that type-checks")
	c.Rule("add: a pointer that is added to an allocation map is in it afterwards, along with those that were in it before, whatever the map held")
	c.Rule("borrow: every pointer of the other map is in this one afterwards and no longer in the other one; nothing is done only if the other map is missing or has none")
	c.Rule("free: every pointer of the map is freed once, and is no longer in the map afterwards")
	c.Rule("empty: a map is empty exactly if it has no pointers")
	c.Rule("alloc: memory is allocated zeroed, for as many values as are asked for, each of the size of the type the helper is for; what is returned is that memory and never nil")
	c.Rule("copy: a string or a byte slice is copied as a whole, the copy is returned, is in the map that is returned with it, and that map frees it once it is not used any more and not before")
	c.Rule("view: a string that shows C memory begins at the pointer it is made of and ends before the first zero byte; it is empty without one, and a copy of a raw string has all its bytes")
	c.Rule("safe: a safe string ends in a zero byte and is the given string up to there")
	a := &all28{c: c, by: map[string]*helper28{}, holes: map[string]string{}, size: map[string]int64{}}
	if !a.statics() {
		return
	}
	made := map[string][]*helper28{}
	for _, fn := range []string{"getAllocMemoryHelper", "getUnpackStringHelper", "getCopyBytesHelper", "getPackStringHelper"} {
		made[fn] = a.made(fn)
	}
	if !a.check() {
		return
	}
	a.allocMap()
	a.strings()
	for _, h := range made["getAllocMemoryHelper"] {
		a.alloc(h)
	}
	for _, h := range made["getUnpackStringHelper"] {
		a.unpacked(h)
	}
	for _, h := range made["getCopyBytesHelper"] {
		a.copied(h)
	}
	for _, h := range made["getPackStringHelper"] {
		a.packed(h)
	}
	for r, n := range map[string]int{"form": 8, "add": 2, "borrow": 3, "free": 2, "empty": 1, "alloc": 2, "copy": 3, "view": 4, "safe": 3} {
		c.Floor(r, n)
	}
	c.Assume("C.calloc, C.free, C.CString, C.CBytes and C.GoStringN do what cgo documents")
	c.Assume("that every access of the map is under its lock is C11's matter")
}

// statics reads the helpers that are package variables.
func (a *all28) statics() bool {
	c := a.c
	ip := newInterp(c.Program)
	if err := ip.runInits(); err != nil {
		c.Fail("form", "init", token.NoPos, "%v", err)
		return false
	}
	pkg := c.SSA["generator"]
	if pkg == nil {
		c.Fail("form", "package", token.NoPos, "there is no package generator")
		return false
	}
	st := ip.newState()
	for _, m := range sortedKeys(pkg.Members) {
		g, ok := pkg.Members[m].(*ssa.Global)
		if !ok || !isHelper(derefT(derefT(g.Type()))) {
			continue
		}
		s, ok := st.pointee(st.get(ip.globals[g])).(*StructV)
		if !ok {
			continue
		}
		if side := s.field("Side"); side != nil {
			if str, ok := isStrConst(side); ok && str != "" {
				continue
			}
			if n, ok := isIntConst(side); ok && n != 0 {
				continue
			}
		}
		a.add(st, s, g.Pos(), "")
	}
	return len(a.by) > 0
}

// add notes a helper and those it requires.
func (a *all28) add(st *State, s *StructV, pos token.Pos, variant string) *helper28 {
	h := &helper28{pos: pos}
	h.name = a.render(s.field("Name"), variant)
	h.src = a.render(s.field("Source"), variant)
	if h.name == "" || strings.HasPrefix(strings.TrimSpace(h.src), "#") {
		return nil
	}
	if old := a.by[h.name]; old != nil && old.src == h.src {
		return old
	}
	a.by[h.name] = h
	a.names = append(a.names, h.name)
	req := s.field("Requires")
	if l, ok := st.snap(req).(*SeqV); ok {
		for _, e := range l.E {
			if r, ok := st.pointee(e).(*StructV); ok {
				v := variant
				if _, fixed := isStrConst(r.field("Name")); fixed {
					v = ""
				}
				if q := a.add(st, r, pos, v); q != nil {
					h.reqs = append(h.reqs, q.name)
				}
			}
		}
	}
	return h
}

// render writes a text with an identifier for everything it leaves open.
func (a *all28) render(v V, variant string) string {
	if v == nil {
		return ""
	}
	b := &strings.Builder{}
	for _, p := range pieces(v, nil) {
		if s, ok := isStrConst(p); ok {
			b.WriteString(s)
			continue
		}
		if t, ok := p.(*Term); ok && strings.HasPrefix(t.Op, "str:") && len(t.Args) == 1 {
			if s, ok := t.Args[0].(*StructV); ok {
				n, _ := isIntConst(s.field("Pointers"))
				b.WriteString(strings.Repeat("*", int(n)))
				b.WriteString(a.hole("C_B", s.field("Base").K()))
				continue
			}
			b.WriteString(a.hole("C_S", t.Args[0].K()))
			continue
		}
		b.WriteString(a.hole("N", p.K()+"/"+variant))
	}
	return b.String()
}

func (a *all28) hole(kind, key string) string {
	if id, ok := a.holes[kind+key]; ok {
		return id
	}
	id := fmt.Sprintf("%s%d", kind, len(a.holes))
	a.holes[kind+key] = id
	switch kind {
	case "C_B": // the base of a string type: something like a character
		a.types = append(a.types, "type "+id+" int32") // any size but one
		a.size[id] = 4
	case "C_S":
		n := int64(24 + 16*len(a.holes))
		a.types = append(a.types, fmt.Sprintf("type %s struct{ _ [%d]byte }", id, n))
		a.size[id] = n
	}
	return id
}

// made interprets a function that makes a helper, for an arbitrary type.
func (a *all28) made(name string) (out []*helper28) {
	c := a.c
	fn := c.Anchor("generator", "Generator", name)
	if fn == nil {
		return nil
	}
	tb := c.table("form", fn, func(ip *Interp) {
		setupEmission(c, ip, "getAllocMemoryHelper")
	})
	if tb == nil {
		return nil
	}
	for i, r := range tb.Path {
		if r.Panic || len(r.Ret) == 0 {
			continue
		}
		s, ok := r.St.pointee(r.Ret[0]).(*StructV)
		if !c.Obl("form", name+" result", fn.Pos(), ok && isHelper(s.T), "%s returns something else than a helper of its own making", name) {
			continue
		}
		variant := ""
		if len(tb.Path) > 1 {
			variant = fmt.Sprintf("%s%d", name, i)
		}
		if h := a.add(r.St, s, fn.Pos(), variant); h != nil {
			out = append(out, h)
		}
	}
	return
}

// closure: a helper and all it requires.
func (a *all28) closure(h string, seen map[string]bool, out []string) []string {
	if seen[h] || a.by[h] == nil {
		return out
	}
	seen[h] = true
	for _, r := range a.by[h].reqs {
		out = a.closure(r, seen, out)
	}
	return append(out, h)
}

// check type-checks every helper with those it requires, and then builds the
// program of all of them.
func (a *all28) check() bool {
	ok := true
	for _, n := range a.names {
		// a method comes with its type, wherever the type comes
		of, _, _ := strings.Cut(n, ".")
		seen := map[string]bool{}
		_, err := a.build(a.closure(n, seen, a.closure(of, seen, nil)), false)
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		ok = a.c.Obl("form", a.label(n), a.by[n].pos, err == nil, "the helper %s with those it requires is not a valid program: %s", a.label(n), msg) && ok
	}
	sp, err := a.build(a.names, true)
	if !a.c.Obl("form", "together", token.NoPos, err == nil, "the helpers together are not a valid program: %v", err) {
		return false
	}
	a.p = &Program{Prog: sp.Prog, Fset: sp.Prog.Fset, Module: "gen", SSA: map[string]*ssa.Package{"gen": sp},
		inMod: map[*ssa.Function]bool{}}
	return ok
}

func (a *all28) label(n string) string {
	out := n
	for k, id := range a.holes {
		if strings.HasPrefix(k, "N") && strings.Contains(out, id) {
			out = strings.Replace(out, id, "…", 1)
			break
		}
	}
	return out
}

func (a *all28) build(names []string, full bool) (*ssa.Package, error) {
	src := "package gen\n"
	body := ""
	for _, n := range names {
		body += a.by[n].src + "\n\n"
	}
	body += strings.Join(a.types, "\n") + "\n"
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "h.go", src+body, 0)
	if err != nil {
		return nil, err
	}
	// what is imported by name, as the formatter of the generated files does
	used := map[string]bool{}
	var fix func(n ast.Node) bool
	cgo := map[*ast.SelectorExpr]string{}
	fix = func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil {
				if x.Name == "C" {
					cgo[s] = "C_" + s.Sel.Name
				} else {
					used[x.Name] = true
				}
			}
		}
		return true
	}
	ast.Inspect(f, fix)
	for s, n := range cgo {
		// C.name becomes C_name: written as a name of this package
		s.X = &ast.Ident{NamePos: s.X.Pos(), Name: "_C_"}
		s.Sel.Name = n
	}
	text := &strings.Builder{}
	if err := printer.Fprint(text, fset, f); err != nil {
		return nil, err
	}
	out := strings.ReplaceAll(text.String(), "_C_.", "")
	out = strings.TrimPrefix(strings.TrimSpace(out), "package gen")
	imports := "package gen\n"
	for _, p := range []string{"fmt", "runtime", "sync", "unsafe"} {
		if used[p] {
			imports += fmt.Sprintf("import %q\n", p)
		}
	}
	fset = token.NewFileSet()
	var files []*ast.File
	for i, s := range []string{imports + out, strings.Replace(cgo28, "package gen", "package gen\nimport \"unsafe\"\n", 1)} {
		g, err := parser.ParseFile(fset, fmt.Sprintf("f%d.go", i), s, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, g)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: std28{a.c.Program}, Sizes: types.SizesFor("gc", "amd64")}
	pkg, err := conf.Check("gen", fset, files, info)
	if err != nil || !full {
		return nil, err
	}
	prog := ssa.NewProgram(fset, ssa.BuilderMode(0))
	seen := map[*types.Package]bool{}
	var add func(p *types.Package)
	add = func(p *types.Package) {
		for _, q := range p.Imports() {
			if !seen[q] {
				seen[q] = true
				prog.CreatePackage(q, nil, nil, true)
				add(q)
			}
		}
	}
	add(pkg)
	sp := prog.CreatePackage(pkg, files, info, false)
	sp.Build()
	return sp, nil
}

// std28 finds the packages of the standard library the helpers use.
type std28 struct{ p *Program }

var runtime28 *types.Package

func (i std28) Import(path string) (*types.Package, error) {
	p, err := progImporter{i.p}.Import(path)
	if err == nil || path != "runtime" {
		return p, err
	}
	if runtime28 != nil {
		return runtime28, nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "runtime.go", "package runtime\nfunc SetFinalizer(obj any, finalizer any) {}\nfunc KeepAlive(x any) {}\nfunc GC() {}\n", 0)
	if err != nil {
		return nil, err
	}
	runtime28, err = (&types.Config{}).Check("runtime", fset, []*ast.File{f}, nil)
	return runtime28, err
}

// the functions that stay as they are in the interpretation of others
var known28 = map[string]bool{"Add": true, "IsEmpty": true, "Borrow": true, "Free": true, "safeString": true, "Copy": true}

// run interprets a function of the helpers.
func (a *all28) run(rule string, h *helper28, typ, name string) *Table {
	c := a.c
	fn := a.p.fn("gen", typ, name)
	label := name
	if typ != "" {
		label = typ + "." + name
	} else {
		label = a.label(name)
	}
	if !c.Obl(rule, label+" there", h.pos, fn != nil && len(fn.Blocks) > 0, "the helper %s has no function %s", a.label(h.name), label) {
		return nil
	}
	ip := newInterp(a.p)
	ip.NoMerge = true
	ip.initDone = true
	ip.Inline = func(f *ssa.Function) bool {
		return f.Parent() != nil || f.Synthetic != "" || !known28[f.Name()] && !strings.HasPrefix(f.Name(), "C_")
	}
	ip.Trace = func(e *Event) bool {
		switch e.Kind {
		case "mapset", "mapstore", "mapdelete", "store", "call", "go":
			return true
		}
		return false
	}
	outs, err := ip.Run(fn, namedArgs(fn), nil)
	if err != nil {
		c.Fail(rule, label, h.pos, "the analysis could not follow the helper %s: %v", label, err)
		return nil
	}
	t := &Table{Fn: fn, IP: ip}
	for _, l := range ip.AllLoops {
		for _, b := range l.Back {
			t.Iter = append(t.Iter, &Row{Fn: fn, Loop: l, Be: b, F: b.St.facts, Ev: b.delta(), St: b.St, Pos: h.pos})
		}
	}
	for _, o := range outs {
		t.Path = append(t.Path, &Row{Fn: fn, F: o.St.facts, Ev: o.St.tr, St: o.St, Ret: o.Ret, Pos: h.pos, Panic: o.Panic})
	}
	c.Stat("helper functions", 1)
	c.Stat("helper paths", len(t.Iter)+len(t.Path))
	return t
}
