package main

import (
	"fmt"
	"sort"
	"strings"

	"go/ast"
	"go/parser"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = c10 }

// slotModel: what a function that is not looked into writes to a writer it is
// handed is a slot of the text.
func slotModel(c *Ctx, ip *Interp) {
	inner := ip.Model
	ip.Model = func(ip *Interp, fr *Frame, st *State, site ssa.CallInstruction, name string, args []V) ([]Outcome, bool) {
		if inner != nil {
			if o, ok := inner(ip, fr, st, site, name, args); ok {
				return o, true
			}
		}
		if site == nil {
			return nil, false
		}
		f := site.Common().StaticCallee()
		if f == nil || f.String() != name || !c.isBaseline(f) || ip.Inline(f) {
			return nil, false
		}
		var snap []V
		for i, p := range f.Params {
			if i >= len(args) || !isWriter(p.Type()) && !isBuffer(p.Type()) && !isReverse(p.Type()) {
				continue
			}
			if snap == nil {
				snap = []V{cStr(f.Name())}
				for j, q := range f.Params {
					if j < len(args) && !isWriter(q.Type()) && !isBuffer(q.Type()) && !isReverse(q.Type()) {
						snap = append(snap, st.snap(args[j]))
					}
				}
			}
			if isReverse(p.Type()) {
				if ptr, ok := args[i].(*Ptr); ok {
					cur := ip.load(st, ptr, derefT(ptr.T))
					n := ip.appendList(st, derefT(ptr.T), cur, mkTerm(types.Typ[types.String], "slotend", snap...))
					st.set(ptr.Obj, setPath(st.get(ptr.Obj), ptr.Path, n, derefT(ptr.T)))
				}
				continue
			}
			ip.writeText(fr, st, site, args[i], mkTerm(types.Typ[types.String], "slot", snap...))
		}
		return nil, false
	}
}

func isReverse(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "generator"
}

func (ip *Interp) appendList(st *State, rt types.Type, list, e V) V {
	tmp := st.alloc(&SeqV{T: rt.Underlying().(*types.Slice).Elem(), E: []V{e}})
	return ip.appendTo(st, rt, []V{list, &SliceV{Obj: tmp, T: rt}})
}

var inlined10 = []string{"writeStartParams", "writeEndParams", "writeEndStruct", "writeStartFuncBody", "writeEndFuncBody", "writeSpace", "writeError",
	"writeValidation", "ptrs", "genIndices", "goSpecArg", "cgoSpecArg", "checkName", "notNilBarrier", "Line", "Linef", "String", "WriteTo", "unexportName",
	"writeStartConst", "writeEndConst", "iotaOnZero", "writePackageName", "writeStartComment", "writeEndComment", "writeSourceBlock", "writeTextBlock", "writeLongTextBlock"}

// cats10: what each emission function writes: the part of the grammar that
// its text is, and a text that stands for it where its callers write it.
var cats10 = map[string]string{
	"writeFunctionParam": "param", "writeFunctionAsArg": "param",
	"writeFunctionParams": "params", "writeCallbackProxyFuncParams": "params",
	"writeInstanceObjectParam": "receiver", "writeFunctionBody": "body", "writeCallbackProxyFunc": "header",
	"writeStructMembers": "fields",
	"writeTypeTypedef":   "decls", "writeEnumTypedef": "decls", "writeFunctionTypedef": "decls", "writeStructTypedef": "decls", "writeUnionTypedef": "decls",
	"expandEnum": "decls", "expandEnumAnonymous": "decls", "writeDefinesGroup": "decls", "writeFunctionDeclaration": "decls",
	"WriteConst": "decls", "WriteTypedefs": "decls", "WriteDeclares": "decls", "WriteUnions": "decls",
	"writeConstDeclaration": "decl", "writeStructDeclaration": "decl", "writeUnionDeclaration": "decl", "writeEnumDeclaration": "decl",
	"WriteDoc": "gofile", "WritePackageHeader": "gofile", "writeGoHelpersHeader": "gofile", "WriteIncludes": "preamble",
	"unpackArray": "nest", "unpackSlice": "nest", "packArray": "nest", "packSlice": "nest",
	"unpackPlain": "stmts", "unpackPlainSlice": "stmts", "unpackObj": "stmts", "packPlain": "stmts", "packPlainSlice": "stmts", "packObj": "stmts",
	"writeFlagGroup": "directives", "writeSysInclude": "directives", "writeInclude": "directives", "writePkgConfig": "directives",
	"writeCStdIncludes": "directives", "writeCGOIncludes": "directives", "writeCHPragma": "directives",
	"writeCHHelpersHeader": "c", "writeCCHelpersHeader": "c",
	"MonitorAndWriteHelpers": "helpers",
	"getPassRefSource":       "stmts", "getPassValueSource": "stmts", "getDerefSource": "stmts",
	"getStructHelpers": "helper", "getRawStructHelpers": "helper", "getCallbackHelpers": "helper", "getAllocMemoryHelper": "helper", "getUnpackStringHelper": "helper",
	"getCopyBytesHelper": "helper", "getUnpackHelper": "helper", "getPackStringHelper": "helper", "getPackHelper": "helper",
	"proxyValueFromGo": "pair", "proxyArgFromGo": "pair", "proxyArgToGo": "stmt", "proxyValueToGo": "stmt", "proxyRetToGo": "stmt", "proxyCallbackArgToGo": "stmt",
}

var samples10 = map[string]string{
	"param": "p0 T0", "params": "(p0 T0)", "receiver": "\n(r0 T0)", "body": "{\nbody()\n}\n", "header": "func f0()", "fields": "f0 T0\n",
	"decls": "var s0 int\n", "decl": "var s0 int", "gofile": "package p\n", "preamble": "import \"C\"\n", "nest": "{\n", "stmts": "stmt()\n",
	"directives": "#include x\n", "c": "#include x\n", "pair": "a0, b0", "stmt": "stmt()",
}

// parse10 parses a text as what it has to be.
func parse10(cat, text, end string) error {
	var src string
	switch cat {
	case "param":
		src = "package p\nfunc f(" + text + ")\ntype s struct {\n" + text + "\n}\n"
	case "params":
		src = "package p\nfunc f" + text + "{}\n"
	case "receiver":
		src = "package p\nfunc" + text + " f(){}\n"
	case "body":
		src = "package p\nfunc f() (r T0)" + text + "var after int\n"
	case "header":
		src = "package p\n" + text + "{}\n"
	case "fields":
		src = "package p\ntype s struct {\n" + text + "}\n"
	case "decls":
		src = "package p\n" + text + "var after int\n"
	case "decl", "helper":
		src = "package p\n" + text + "\nvar after int\n"
	case "gofile":
		src = text + "var after int\n"
	case "preamble":
		src = "package p\n" + text + "var after int\n"
	case "nest":
		src = "package p\nfunc f() {\n" + text + "inner()\n" + end + "}\n"
	case "stmts":
		src = "package p\nfunc f() {\n" + text + "}\n"
	case "stmt":
		src = "package p\nfunc f() {\n" + text + "\n}\n"
	case "pair":
		src = "package p\nfunc f() {\na, b := " + text + "\n}\n"
	case "directives", "c":
		return c10c(cat, text)
	case "ctext":
		return c10c("ctext", text+"\n")
	default:
		return fmt.Errorf("no grammar for %s", cat)
	}
	f, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution|parser.ParseComments)
	if err != nil {
		return err
	}
	if err := attached10(f, text); err != nil {
		return err
	}
	if cat == "pair" {
		fd, ok := f.Decls[0].(*ast.FuncDecl)
		if !ok || len(f.Decls) != 1 || len(fd.Body.List) != 1 {
			return fmt.Errorf("more than an expression")
		}
		as, ok := fd.Body.List[0].(*ast.AssignStmt)
		if !ok {
			return fmt.Errorf("no expression")
		}
		if len(as.Rhs) == 1 {
			if _, ok := as.Rhs[0].(*ast.CallExpr); ok {
				return nil
			}
		}
		if len(as.Rhs) != 2 {
			return fmt.Errorf("%d values instead of two", len(as.Rhs))
		}
	}
	return nil
}

// attached10: the comments that mean something are right before what they
// are about.
func attached10(f *ast.File, text string) error {
	if strings.Contains(text, described) {
		if f.Doc == nil || !strings.Contains(f.Doc.Text(), described) {
			return fmt.Errorf("the description is not right before the package clause")
		}
	} else if f.Doc != nil && strings.Contains(text, "package ") {
		return fmt.Errorf("a comment that is no description is right before the package clause")
	}
	raw := func(g *ast.CommentGroup) string {
		out := ""
		if g != nil {
			for _, c := range g.List {
				out += c.Text + "\n"
			}
		}
		return out
	}
	for _, i := range f.Imports {
		if i.Path.Value != "\"C\"" {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Pos() > i.Pos() || g.End() < i.End() {
				continue
			}
			for _, l := range strings.Split(text, "\n") {
				if strings.HasPrefix(l, "#") && !strings.Contains(raw(g.Doc), l+"\n") {
					return fmt.Errorf("the line %s is not in the comment right before import \"C\"", l)
				}
			}
		}
	}
	for _, g := range f.Comments {
		if !strings.Contains(raw(g), "//export ") {
			continue
		}
		of := false
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc == g {
				of = true
			}
		}
		if !of {
			return fmt.Errorf("//export is not right before a function")
		}
	}
	return nil
}

// c10c: the brackets, strings and comments of a C text match, and directives
// have lines of their own.
func c10c(cat, text string) error {
	if text != "" && !strings.HasSuffix(text, "\n") {
		return fmt.Errorf("the last line has no end")
	}
	var open []byte
	last := byte(';') // the last character of the code
	lines := strings.Split(text, "\n")
	inComment := false
	for _, l := range lines {
		t := strings.TrimSpace(l)
		if !inComment && strings.HasPrefix(t, "#") {
			if len(open) > 0 {
				return fmt.Errorf("directive inside brackets: %s", clip(t, 60))
			}
			continue
		}
		if cat == "directives" && t != "" {
			return fmt.Errorf("no directive: %s", clip(t, 60))
		}
		for i := 0; i < len(l); i++ {
			if inComment {
				if strings.HasPrefix(l[i:], "*/") {
					inComment = false
					i++
				}
				continue
			}
			if cat == "ctext" && l[i] == '}' && strings.IndexByte(";{}", last) < 0 {
				return fmt.Errorf("statement without an end: %s", clip(t, 60))
			}
			if l[i] != ' ' && l[i] != '\t' && !strings.HasPrefix(l[i:], "//") && !strings.HasPrefix(l[i:], "/*") {
				last = l[i]
			}
			switch {
			case strings.HasPrefix(l[i:], "//"):
				i = len(l)
			case strings.HasPrefix(l[i:], "/*"):
				inComment = true
				i++
			case l[i] == '"' || l[i] == '\'':
				k := strings.IndexByte(l[i+1:], l[i])
				if k < 0 {
					return fmt.Errorf("string without an end: %s", clip(t, 60))
				}
				i += k + 1
				last = l[i]
			case strings.IndexByte("([{", l[i]) >= 0:
				open = append(open, l[i])
			case strings.IndexByte(")]}", l[i]) >= 0:
				k := strings.IndexByte(")]}", l[i])
				if len(open) == 0 || open[len(open)-1] != "([{"[k] {
					return fmt.Errorf("%c without its other half: %s", l[i], clip(t, 60))
				}
				open = open[:len(open)-1]
			}
		}
	}
	if inComment || len(open) > 0 {
		return fmt.Errorf("comment or bracket without an end")
	}
	if cat == "ctext" && last != ';' && last != '}' {
		return fmt.Errorf("declaration without an end")
	}
	return nil
}

// hostile is a line that is nothing but text.
const hostile = "it's \"a {( ["

// described is a line of the package's description.
const described = "what it is"

// inst10 makes texts out of what a path writes: one for each way its loops
// can go for few elements, with texts in place of the holes.
type inst10 struct {
	c     *Ctx
	t     *Table
	r     *Row
	n     int // variant
	bad   map[string]V
	open  int // blocks that loops opened
	depth int
	rev   bool // a list of ends
	most  int  // number of variants there are
	cache map[string][][]int
}

func (x *inst10) text(v V) string {
	var b strings.Builder
	ps := pieces(v, nil)
	for i, p := range ps {
		if i+1 < len(ps) && isSlot(ps[i+1], "writeFunctionParams") && x.isSpec(p) {
			b.WriteString("func") // the type of a function goes on with its parameters
			continue
		}
		b.WriteString(x.piece(p))
	}
	return b.String()
}

func isSlot(v V, name string) bool {
	t, ok := v.(*Term)
	return ok && t.Op == "slot" && mustStr(t.Args[0]) == name
}

func (x *inst10) isSpec(v V) bool {
	t, ok := v.(*Term)
	return ok && x.typeHole(t)
}

func (x *inst10) unknown(v V, what string) string {
	x.bad[what] = v
	return ""
}

func (x *inst10) pick(alts ...string) string { return alts[x.n%len(alts)] }

func (x *inst10) piece(p V) string {
	if s, ok := isStrConst(p); ok {
		return s
	}
	t, ok := p.(*Term)
	if !ok {
		return x.unknown(p, "a text that cannot be followed: "+clip(p.K(), 80))
	}
	op := t.Op
	arg := func(i int) V {
		if i < len(t.Args) {
			return peel(t.Args[i])
		}
		return nil
	}
	switch {
	case op == "rep":
		key, _ := isStrConst(t.Args[0])
		return strings.Join(x.repeated(repKey(key), t.Args[1:]), "")
	case op == "s:Join":
		sep, _ := isStrConst(t.Args[1])
		return strings.Join(x.list(t.Args[0]), sep)
	case op == "slot" || op == "slotend":
		name := mustStr(t.Args[0])
		cat := cats10[name]
		if s, ok := samples10[cat]; ok {
			if cat == "nest" {
				if op == "slotend" {
					return "}\n"
				}
				if x.depth > 0 {
					x.open++
				}
			}
			return s
		}
		return x.unknown(p, "what "+name+" writes here has no known form")
	case op == "repeat":
		s, _ := isStrConst(t.Args[0])
		return strings.Repeat(s, x.n%3)
	case op == "itoa":
		_, n, _ := lin(t.Args[0])
		return fmt.Sprint(5 + n)
	case strings.HasPrefix(op, "fmt:%") && (strings.HasSuffix(op, "x") || strings.HasSuffix(op, "X")):
		return "a1"
	case (op == "s:ToLower" || op == "s:ToUpper" || op == "s:Title" || op == "s:TrimSpace") && len(t.Args) == 1:
		return x.piece(arg(0))
	case (op == "s:ReplaceAll" || op == "s:Replace") && len(t.Args) >= 3:
		a, ok := isStrConst(t.Args[1])
		b, ok1 := isStrConst(t.Args[2])
		if ok && ok1 {
			return strings.ReplaceAll(x.piece(arg(0)), a, b)
		}
	case op == "slice":
		return "x" // the receiver in a name
	case op == "fmt:%v" || op == "fmt:%s" || strings.HasPrefix(op, "str:") && x.isText(arg(0)):
		return x.piece(arg(0))
	case x.typeHole(t):
		return x.pick("T0", "*T0", "[4]T0", "*[4]T0", "unsafe.Pointer")
	case op == "[]":
		// a line of a text, or an element of a list
		if a, ok := arg(0).(*Term); ok && strings.HasSuffix(a.Op, "Split") {
			return hostile
		} else if ok && strings.HasSuffix(a.Op, "SplitN") && len(a.Args) > 1 {
			return hostile + mustStr(a.Args[1]) + hostile
		}
		return x.unknown(p, "an element of an unknown list")
	}
	name := opSuffix(op)
	if strings.HasPrefix(op, "#") && len(t.Args) == 1 {
		if a, ok := arg(0).(*Term); ok {
			name = opSuffix(a.Op) + op
		}
	}
	switch name {
	case "getTypedHelperName", "getHelperName", "TransformName", "CGoName", "GetBase", "GetTag", "checkName", "unexportName":
		return "Id0"
	case "ToSlash", "SrcLocation":
		return hostile
	case "PackageDescription":
		return hostile + "\n\n" + described
	case "PackageLicense", "genLabel", "Description":
		return hostile + "\n\n" + hostile + "\n" + hostile
	case "maxMem":
		return "0x7fffffff"
	case "Raw", "Name", "pkg", "Base", "Typedef":
		return "Id0"
	case "Expression", "Value", "iotaOnZero":
		return x.pick("1", "\"s\"", "1+K0")
	case "Source":
		return "var s0 int"
	case "GetLibrarySymbolValidation#0":
		return "valid0"
	case "GetLibrarySymbolValidation#1":
		return "ret0"
	case "Decl":
		// a conversion after the call ends its line, one before it does not
		if strings.Contains(t.K(), "#1(call:(*generator.Generator).createProxies") || strings.Contains(t.K(), "createCallbackProxies") {
			return "stmt()\n"
		}
		return "stmt()"
	}
	if strings.HasSuffix(name, "#0") {
		if s, ok := samples10[cats10[strings.TrimSuffix(name, "#0")]]; ok {
			return s
		}
	}
	if strings.HasPrefix(op, "call:") {
		if s, ok := samples10[cats10[name]]; ok {
			return s
		}
	}
	if strings.HasPrefix(op, "$") {
		return x.param(op)
	}
	if isLV(t) && isText(t) {
		return "id0" // a name that a loop looks for
	}
	return x.unknown(p, "an unknown part: "+clip(p.K(), 80))
}

// param: what a parameter of a writer can be.
func (x *inst10) param(op string) string {
	var n int
	fmt.Sscanf(op, "$%d", &n)
	if n < len(x.r.Fn.Params) {
		b, ok := x.r.Fn.Params[n].Type().Underlying().(*types.Basic)
		switch {
		case ok && b.Info()&types.IsInteger != 0:
			return "5"
		case ok && b.Info()&types.IsString != 0, isByteSlice(x.r.Fn.Params[n].Type()):
			if x.directive() {
				return hostile
			}
			return "id0"
		case types.Implements(x.r.Fn.Params[n].Type(), errorType10):
			return hostile
		}
	}
	return "id0"
}

var errorType10 = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (x *inst10) directive() bool { return cats10[x.r.Fn.Name()] == "directives" }

func (x *inst10) isText(v V) bool { return v != nil && isText(v) }

// typeHole: a part that is a type.
func (x *inst10) typeHole(t *Term) bool {
	switch opSuffix(t.Op) {
	case "AtLevel", "String", "UnderlyingString", "PlainType":
		return strings.HasPrefix(t.Op, "call:") || strings.HasPrefix(t.Op, "inv:")
	}
	if strings.HasPrefix(t.Op, "str:") {
		return strings.HasSuffix(t.Op, "Spec")
	}
	return false
}

// list: the elements of a list of texts.
func (x *inst10) list(v V) []string {
	switch t := peel(v).(type) {
	case *Term:
		if t.Op == "seq" && len(t.Args) > 1 {
			key, _ := isStrConst(t.Args[0])
			return x.repeated(repKey(key), t.Args[1:])
		}
		if t.Op == "s:Split" && len(t.Args) == 2 {
			if sep, ok := isStrConst(t.Args[1]); ok {
				return strings.Split(x.piece(peel(t.Args[0])), sep)
			}
		}
		if isLV(t) && x.rev {
			return x.ends()
		}
		if strings.HasPrefix(t.Op, "seq#") || isLV(t) {
			return nil // the list of a loop before this iteration
		}
		if x.directive() || strings.HasPrefix(t.Op, ".") {
			return []string{hostile, hostile}
		}
	case *SeqV:
		var out []string
		if t.Base != nil && isLV(t.Base) && x.rev {
			out = x.ends()
		} else if t.Base != nil {
			out = x.list(t.Base)
		}
		for _, e := range t.E {
			if a, ok := e.(*Term); ok && a.Op == "all" {
				out = append(out, x.list(a.Args[0])...)
				continue
			}
			out = append(out, x.text(e))
		}
		return out
	case *Const:
		return nil
	}
	x.unknown(v, "an unknown list: "+clip(v.K(), 80))
	return nil
}

// repeated: the texts that a loop adds, one for each iteration that adds one.
func (x *inst10) repeated(key string, alts []V) []string {
	// the elements of another list, from its end
	if len(alts) == 1 {
		if l, ix, ok := elemOf(alts[0]); ok && x.isStringList(l) {
			var els []string
			x.rev = true
			els = x.list(l)
			x.rev = false
			if x.down(ix) {
				for i, j := 0, len(els)-1; i < j; i, j = i+1, j-1 {
					els[i], els[j] = els[j], els[i]
				}
			}
			return els
		}
	}
	seqs := x.seqs(key, alts)
	if len(seqs) > x.most {
		x.most = len(seqs)
	}
	x.depth++
	defer func() { x.depth-- }()
	var out []string
	for _, k := range seqs[x.n%len(seqs)] {
		out = append(out, x.text(alts[k]))
	}
	return out
}

// ends: the ends of the blocks that loops opened; every iteration leaves as
// many as it opens.
func (x *inst10) ends() []string {
	var els []string
	for i := 0; i < x.open; i++ {
		els = append(els, "}\n")
	}
	return els
}

func (x *inst10) isStringList(l V) bool {
	if strings.Contains(l.K(), "slotend(") {
		return true
	}
	t := typeOf(l)
	return t == nil && isLV(l) || t != nil && isReverse(t)
}

// down: an index that counts down.
func (x *inst10) down(ix V) bool {
	for _, it := range x.t.Iter {
		if after, ok := it.Be.Carry[ix.K()]; ok {
			if b, n, ok := lin(after); ok && b != nil && b.K() == ix.K() && n == -1 {
				return true
			}
		}
	}
	return false
}

// seqs: the sequences of texts that a loop can add for up to three elements,
// according to what each kind of iteration requires and leaves behind.
func (x *inst10) seqs(key string, alts []V) (out [][]int) {
	id := key
	for _, a := range alts {
		id += "|" + a.K()
	}
	if s, ok := x.cache[id]; ok {
		return s
	}
	defer func() { x.cache[id] = out }()
	var rows []*Row
	var emits []int // index of the text, or -1
	idx := map[string]int{}
	for i, a := range alts {
		idx[noIDs(a.K())] = i
	}
	byLoop := map[*LoopMeta][]*Row{}
	hit := map[*LoopMeta]bool{}
	em := map[*Row]int{}
	for _, it := range x.t.Iter {
		if repKey("#"+it.Loop.Key+"#") != key && it.Loop.Key != key {
			continue
		}
		byLoop[it.Loop] = append(byLoop[it.Loop], it)
		em[it] = -1
		for _, d := range deltas10(it) {
			if k, ok := idx[noIDs(d.K())]; ok {
				em[it] = k
				hit[it.Loop] = true
			}
		}
	}
	seen := map[string]bool{}
	add := func(s []int) {
		k := fmt.Sprint(s)
		if !seen[k] {
			seen[k] = true
			out = append(out, append([]int(nil), s...))
		}
	}
	for _, it := range x.t.Iter {
		l := it.Loop
		if !hit[l] || byLoop[l] == nil {
			continue
		}
		rows, emits = byLoop[l], nil
		byLoop[l] = nil
		for _, r := range rows {
			emits = append(emits, em[r])
		}
		for n := 0; n <= 3; n++ {
			budget := 400
			sim10(l, rows, emits, n, &budget, add)
		}
	}
	if len(out) == 0 {
		add(nil)
		for i := range alts {
			add([]int{i})
			add([]int{i, i})
		}
	}
	return out
}

// deltas10: what an iteration adds to each text and list.
func deltas10(r *Row) []V {
	var out []V
	suffix := func(h, v V) {
		if h == nil || v == nil || h.K() == v.K() {
			return
		}
		if s, ok := v.(*SeqV); ok {
			n := 0
			if hs, ok := h.(*SeqV); ok {
				n = len(hs.E)
			}
			for i := n; i < len(s.E); i++ {
				out = append(out, s.E[i])
			}
			return
		}
		if d, ok := textSuffix(h, v); ok {
			out = append(out, d)
		}
	}
	for k, v := range r.Be.St.streams {
		h, ok := r.Be.Head.streams[k]
		if !ok {
			h = cStr("")
		}
		suffix(h, v)
	}
	for id, v := range r.Be.St.heap {
		h := r.Be.Head.heap[id]
		if _, ok := v.(*SliceV); ok && h != nil {
			v, h = r.Be.St.snap(v), r.Be.Head.snap(h)
		}
		suffix(h, v)
	}
	for k, v := range r.Be.Carry {
		switch v := r.Be.St.snap(v).(type) {
		case *SeqV:
			if v.Base != nil && len(v.E) > 0 && (v.Base.K() == k || strings.HasPrefix(v.Base.K(), "seq#")) {
				out = append(out, v.E...)
			}
		case *Cat:
			if v.Parts[0].K() == k {
				out = append(out, mkCat(v.Parts[1:]...))
			}
		}
	}
	return out
}

// sim10 runs the summary of a loop over n elements.
func sim10(l *LoopMeta, rows []*Row, emits []int, n int, budget *int, add func([]int)) {
	type state map[string]V
	ixKey := "ix#" + l.Key + "#"
	// kinds of iterations that cannot be told apart here
	var step func(k int, st state, acc []int)
	step = func(k int, st state, acc []int) {
		if *budget <= 0 {
			return
		}
		if k == n {
			*budget--
			add(acc)
			return
		}
		tried := map[string]bool{}
		for i, r := range rows {
			if !possible10(r, l, ixKey, k, n, st) {
				continue
			}
			next := state{}
			var ks []string
			for c, v := range r.Be.Carry {
				if strings.HasPrefix(c, "ix#") || strings.HasPrefix(c, "+c(") || strings.HasPrefix(c, "seq#") {
					continue
				}
				v = r.Be.St.snap(v)
				if _, ok := v.(*Const); ok {
					next[c] = v
				} else if v.K() == c && st[c] != nil {
					next[c] = st[c]
				}
				if next[c] != nil {
					ks = append(ks, c+"="+next[c].K())
				}
			}
			sort.Strings(ks)
			id := fmt.Sprint(emits[i], ks)
			if tried[id] {
				continue
			}
			tried[id] = true
			if emits[i] >= 0 {
				step(k+1, next, append(acc, emits[i]))
			} else {
				step(k+1, next, acc)
			}
		}
	}
	init := state{}
	for k, v := range l.Init {
		if c, ok := v.(*Const); ok {
			init[k] = c
		}
	}
	step(0, init, nil)
}

// possible10: whether an iteration can be the k-th of n.
func possible10(r *Row, l *LoopMeta, ixKey string, k, n int, st map[string]V) bool {
	var eval func(v V) (int64, bool)
	eval = func(v V) (int64, bool) {
		v = peel(v)
		if i, ok := isIntConst(v); ok {
			return i, true
		}
		if v.K() == l.Key {
			return int64(n), true
		}
		if v.K() == ixKey {
			return int64(k), true
		}
		if c, ok := st[v.K()]; ok {
			return isIntConst(c)
		}
		if b, d, ok := lin(v); ok && b != nil && d != 0 {
			if i, ok := eval(b); ok {
				return i + d, true
			}
		}
		return 0, false
	}
	if l.HasIx && l.Start != 0 && l.Start != -1 {
		return true
	}
	for _, t := range r.F.boolTerms() {
		want := r.F.b[t.K()]
		if c, ok := st[t.K()]; ok {
			if b, ok := isBoolConst(c); ok && b != want {
				return false
			}
			continue
		}
		if len(t.Args) != 2 {
			continue
		}
		a, ok := eval(t.Args[0])
		b, ok1 := eval(t.Args[1])
		if !ok || !ok1 {
			continue
		}
		switch t.Op {
		case "lt":
			if a < b != want {
				return false
			}
		case "eq":
			if a == b != want {
				return false
			}
		case "le":
			if a <= b != want {
				return false
			}
		}
	}
	for key, iv := range r.F.iv {
		t := r.F.at[key]
		if t == nil {
			continue
		}
		if a, ok := eval(t); ok && (a < iv.lo || a > iv.hi || iv.neq[a]) {
			return false
		}
	}
	return true
}

// endOf10: the lines a function adds for the end, the last one first.
func (c *Ctx) endOf10(r *Row) V {
	for i, p := range r.Fn.Params {
		if !isReverse(p.Type()) {
			continue
		}
		for _, e := range r.St.sym {
			if e.addr.K() != fmt.Sprintf("$%d", i) {
				continue
			}
			s, ok := r.St.snap(e.v).(*SeqV)
			if !ok {
				return nil
			}
			var out []V
			for k := len(s.E) - 1; k >= 0; k-- {
				out = append(out, s.E[k])
			}
			return mkCat(out...)
		}
	}
	return nil
}

func (c *Ctx) well10(tb *Table, r *Row, cat string, v, end V) {
	most := 5
	cache := map[string][][]int{}
	seen := map[string]bool{}
	for n := 0; n < most; n++ {
		x := &inst10{c: c, t: tb, r: r, n: n, bad: map[string]V{}, most: most, cache: cache}
		text := x.text(v)
		tail := ""
		if end != nil {
			tail = x.text(end)
		}
		most = x.most
		if len(x.bad) > 0 {
			for what := range x.bad {
				c.Stat("texts not followed: "+c.short(r.Fn)+" "+what, 1)
			}
			return
		}
		c.Stat("texts", 1)
		if seen[text+"\x00"+tail] {
			continue
		}
		seen[text+"\x00"+tail] = true
		err := parse10(cat, text, tail)
		if !c.Obl("parse", r.Fn.Name(), r.Pos, err == nil, "%s writes a text that is not well-formed when %s: %v", c.short(r.Fn), r.describe(), err) {
			return
		}
	}
}

func (c *Ctx) emitters10() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "generator" || fn.Parent() != nil || fn.Blocks == nil || !c.isBaseline(fn) {
			continue
		}
		em := false
		for _, p := range fn.Params {
			if isWriter(p.Type()) {
				em = true
			}
		}
		if res := fn.Signature.Results(); !em && res.Len() > 0 {
			t := res.At(0).Type()
			if strings.Contains(t.String(), "Helper") && strings.HasPrefix(fn.Name(), "get") || strings.HasPrefix(fn.Name(), "proxy") || isByteSlice(t) {
				em = true
			}
		}
		if em {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// ---- helpers: the source a helper is given ----

// helperTexts judges every helper that a path makes.
func (c *Ctx) helperTexts(tb *Table) {
	rows := append(append([]*Row(nil), tb.Path...), tb.Iter...)
	for _, r := range rows {
		st := r.St
		if st == nil && r.Be != nil {
			st = r.Be.St
		}
		if st == nil {
			continue
		}
		ids := make([]int, 0, len(st.heap))
		for id := range st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			s, ok := st.heap[id].(*StructV)
			if !ok || !isHelper(s.T) {
				continue
			}
			c.helper10(tb, r, s)
		}
	}
}

func isHelper(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Helper"
}

// helper10 judges the source and the name of a helper.
func (c *Ctx) helper10(tb *Table, r *Row, s *StructV) {
	src := s.field("Source")
	if src == nil {
		return
	}
	if t, ok := isStrConst(src); ok && t == "" {
		return
	}
	cat := "helper"
	if side := s.field("Side"); side != nil {
		if k, ok := isStrConst(side); ok && (k == "h" || k == "c") {
			cat = "ctext"
		}
	}
	c.well10(tb, r, cat, src, nil)
}

// declTexts judges the conversions that a function lists for its callers.
func (c *Ctx) declTexts(tb *Table) {
	for _, it := range tb.Iter {
		for i := range it.Ev {
			e := &it.Ev[i]
			if e.Kind != "store" && e.Kind != "append" || len(e.Args) == 0 {
				continue
			}
			v := e.Args[len(e.Args)-1]
			s, ok := v.(*StructV)
			if !ok {
				s, ok = it.St.pointee(v).(*StructV)
			}
			if !ok || s.field("Decl") == nil {
				continue
			}
			c.well10(tb, it, "stmt", s.field("Decl"), nil)
		}
	}
}

// levels10: an iteration leaves one end for every block it opens.
func (c *Ctx) levels10(tb *Table) {
	for _, it := range tb.Iter {
		open, end := 0, 0
		for _, d := range deltas10(it) {
			for _, p := range pieces(d, nil) {
				t, ok := p.(*Term)
				if !ok || len(t.Args) == 0 || cats10[mustStr(t.Args[0])] != "nest" {
					continue
				}
				switch t.Op {
				case "slot":
					open++
				case "slotend":
					end++
				}
			}
		}
		if open+end > 0 {
			c.Obl("levels", tb.Fn.Name(), it.Pos, open == end, "%s opens %d blocks for a level and ends %d", c.short(tb.Fn), open, end)
		}
	}
}

// statics10 judges the helpers that are there from the start.
func (c *Ctx) statics10(tb *Table) {
	var gs []*ssa.Global
	for g := range tb.IP.globals {
		if g.Pkg != nil && g.Pkg.Pkg.Name() == "generator" {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
	st := tb.IP.initial10()
	for _, g := range gs {
		if p, ok := g.Type().(*types.Pointer); !ok || !isHelper(p.Elem()) && !isHelper(derefT(p.Elem())) {
			continue
		}
		v := st.get(tb.IP.globals[g])
		s, ok := v.(*StructV)
		if !ok {
			s, ok = st.pointee(v).(*StructV)
		}
		if !ok {
			continue
		}
		src, ok := isStrConst(s.field("Source"))
		if !ok {
			continue
		}
		c.Stat("texts", 1)
		cat := "helper"
		if k, ok := isStrConst(s.field("Side")); ok && (k == "h" || k == "c") {
			cat = "ctext"
		}
		err := parse10(cat, src, "")
		c.Obl("parse", g.Name(), g.Pos(), err == nil, "the source of %s is not well-formed: %v", g.Name(), err)
	}
}

func (ip *Interp) initial10() *State {
	st := &State{heap: map[int]V{}}
	for id, v := range ip.base {
		st.heap[id] = v
	}
	return st
}

// monitor10 judges what is written for one helper.
func (c *Ctx) monitor10(tb *Table) {
	for _, r := range tb.Path {
		for _, v := range r.St.streams {
			for _, p := range pieces(v, nil) {
				t, ok := p.(*Term)
				if !ok || t.Op != "rep" {
					continue
				}
				for _, alt := range t.Args[1:] {
					cat := "decls"
					for _, q := range pieces(alt, nil) {
						if isSlot(q, "writeGoHelpersHeader") {
							cat = "gofile"
						} else if isSlot(q, "writeCHHelpersHeader") || isSlot(q, "writeCCHelpersHeader") {
							cat = "c"
						}
					}
					c.well10(tb, r, cat, alt, nil)
				}
			}
		}
	}
}

// names10: a helper's name has to be an identifier, whatever type it is for.
func (c *Ctx) names10() {
	for _, name := range []string{"getHelperName", "getTypedHelperName"} {
		fn := c.named10(name)
		if fn == nil {
			continue
		}
		tb := c.table("names", fn, func(ip *Interp) {
			setupEmission(c, ip, inlined10...)
		})
		if tb == nil {
			continue
		}
		for _, r := range tb.Path {
			if len(r.Ret) == 0 {
				continue
			}
			for _, base := range []string{"T0", "C.T0", "C.struct_T0", "unsafe.Pointer", "uint32"} {
				for n := 0; n < 3; n++ {
					x := &name10{r: r, base: base, n: n}
					if !x.possible() {
						continue
					}
					text, ok := x.eval(r.Ret[0])
					if !ok {
						c.Stat("names not followed", 1)
						continue
					}
					c.Stat("names", 1)
					if !c.Obl("identifier", name, r.Pos, token.IsIdentifier("f"+text), "for the type %s the name of a helper ends in %q, which is no part of an identifier", base, text) {
						return
					}
				}
			}
		}
	}
}

type name10 struct {
	r    *Row
	base string
	n    int
}

// possible: the path is one for the type.
func (x *name10) possible() bool {
	for _, t := range x.r.F.boolTerms() {
		if len(t.Args) != 2 {
			continue
		}
		a, ok := x.eval(t.Args[0])
		b, ok1 := x.eval(t.Args[1])
		if !ok || !ok1 {
			continue
		}
		want := x.r.F.b[t.K()]
		switch t.Op {
		case "s:HasPrefix":
			if strings.HasPrefix(a, b) != want {
				return false
			}
		case "s:Contains":
			if strings.Contains(a, b) != want {
				return false
			}
		case "eq":
			if a == b != want {
				return false
			}
		}
	}
	return true
}

// eval: the text for the type.
func (x *name10) eval(v V) (string, bool) {
	v = peel(v)
	if s, ok := isStrConst(v); ok {
		return s, true
	}
	switch t := v.(type) {
	case *Cat:
		out := ""
		for _, p := range t.Parts {
			s, ok := x.eval(p)
			if !ok {
				return "", false
			}
			out += s
		}
		return out, true
	case *Term:
		one := func(i int) (string, bool) {
			if i < len(t.Args) {
				return x.eval(t.Args[i])
			}
			return "", false
		}
		switch name := opSuffix(t.Op); {
		case strings.HasPrefix(t.Op, "$"):
			return "word", true
		case t.Op == ".Base" || strings.HasPrefix(t.Op, "call:") && name == "PlainType":
			return x.base, true
		case t.Op == "rep":
			if x.n == 0 || len(t.Args) < 2 {
				return "", true
			}
			return one(1 + (x.n-1)%(len(t.Args)-1))
		case t.Op == "repeat":
			s, ok := one(0)
			return strings.Repeat(s, x.n), ok
		case t.Op == "itoa":
			return "4", true
		case strings.HasPrefix(t.Op, "call:") && name == "TransformName":
			return one(2)
		case t.Op == "slice" && len(t.Args) >= 2:
			s, ok := one(0)
			lo, isLo := isIntConst(t.Args[1])
			if !ok || !isLo || lo > int64(len(s)) || len(t.Args) > 2 && !isNilV(t.Args[2]) {
				return "", false
			}
			return s[lo:], true
		case t.Op == "s:TrimPrefix" || t.Op == "s:TrimLeft":
			a, ok := one(0)
			b, ok1 := one(1)
			return strings.TrimPrefix(a, b), ok && ok1
		case t.Op == "s:Title" || t.Op == "s:ToUpper" || t.Op == "s:ToLower" || strings.HasPrefix(t.Op, "str:") || t.Op == "fmt:%s" || t.Op == "fmt:%v":
			return one(0)
		case strings.HasPrefix(t.Op, "call:") && name == "Title":
			return one(0)
		}
	}
	return "", false
}

func c10(c *Ctx) {
	c.Rule("parse: what every function of the generator that writes declarations, statements, parameters, members, helpers or directives writes on every one of its paths, with loops unrolled for up to three elements as their summaries allow and with texts of the right kind in place of what is only known when it runs, is a sentence of the part of the Go grammar its callers place it in (for the C files: brackets, strings and comments match, directives have lines of their own); the text of a comment is never taken for code. The comments that mean something are in their place: the includes and flags right before import \"C\", //export right before its function, the package's description and nothing else right before the package clause")
	c.Rule("levels: an iteration that opens blocks for a level of pointers or arrays leaves as many ends behind")
	c.Rule("identifier: the name of a helper is an identifier for every kind of type it can be made for")
	c.explain = "Every function of the generator that writes Go or C is interpreted abstractly to the text each of its paths appends, as constants, holes and repetitions; holes are filled with texts of the kind the called helper returns, repetitions unrolled for up to three elements, and the result is parsed by go/parser as the part of the grammar the function's callers place it in. A path whose text has a part of unknown kind is skipped and counted (stats: texts not followed)."
	fns := c.emitters10()
	judged := 0
	for _, fn := range fns {
		cat := cats10[fn.Name()]
		if cat == "" {
			continue
		}
		tb := c.table("parse", fn, c.setup10)
		if tb == nil {
			continue
		}
		judged++
		if cat == "helpers" {
			c.monitor10(tb)
			c.statics10(tb)
			continue
		}
		c.levels10(tb)
		for _, r := range tb.Path {
			if len(r.kinds()) == 0 {
				continue
			}
			end := c.endOf10(r)
			var ks []string
			for k := range r.St.streams {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				c.well10(tb, r, cat, r.St.streams[k], end)
			}
			for _, v := range r.Ret {
				if isText(v) {
					c.well10(tb, r, cat, v, nil)
				}
			}
		}
		if strings.Contains(fn.Signature.Results().String(), "Helper") {
			c.helperTexts(tb)
		}
	}
	for _, name := range []string{"createProxies", "createCallbackProxies"} {
		if fn := c.named10(name); fn != nil {
			if tb := c.table("parse", fn, c.setup10); tb != nil {
				judged++
				c.declTexts(tb)
			}
		}
	}
	c.names10()
	c.Stat("writers", judged)
	c.Assume("a generator that is handed a name, a type or a value by the translator is handed one that is well-formed on its own (names: C03; types: C06; values: C24, C18)")
	c.Assume("what an enumerator, a macro or a constant is given as its value is one expression; every enumerator has one")
	c.Assume("the checksum in a name has two hexadecimal digits at least (a smaller one would leave a blank in the name)")
	c.Floor("parse", 1200)
	c.Floor("identifier", 10)
}

// named10: the function of the generator with the name.
func (c *Ctx) named10(name string) *ssa.Function {
	for _, fn := range c.Funcs {
		if fn.Pkg != nil && fn.Pkg.Pkg.Name() == "generator" && fn.Parent() == nil && fn.Blocks != nil && fn.Name() == name {
			return fn
		}
	}
	return nil
}

func (c *Ctx) setup10(ip *Interp) {
	setupEmission(c, ip, inlined10...)
	old := ip.Inline
	ip.Inline = func(f *ssa.Function) bool {
		if f.Name() == "String" && !isReverse(f.Params[0].Type()) {
			return false
		}
		return old(f)
	}
	slotModel(c, ip)
}
