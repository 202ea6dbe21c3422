package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: descriptions of types answer for their own parts: what the methods of
// the type models return is decided by the fields of the description alone.
func init() { checks["C14"] = c14 }

// q14 answers, for one path of a method, questions about the fields of the
// description; what the path leaves open is taken both ways.
type q14 struct {
	F      *Facts
	recv   V
	st     *types.Struct
	script []bool
	used   int
	dead   bool // the answers contradict the path
	skip   bool // nothing is asked of such a description
}

func (q *q14) val(f string) V {
	for i := 0; i < q.st.NumFields(); i++ {
		if q.st.Field(i).Name() == f {
			return mkTerm(q.st.Field(i).Type(), "."+f, q.recv)
		}
	}
	q.skip = true
	return cBool(false)
}

func (q *q14) ask(v V) bool {
	if q.dead {
		return false
	}
	switch q.F.evalBool(v) {
	case 1:
		return true
	case 0:
		return false
	}
	if q.used == len(q.script) {
		q.script = append(q.script, true)
	}
	b := q.script[q.used]
	q.used++
	if g := q.F.assume(v, b); g != nil {
		q.F = g
	} else {
		q.dead = true
	}
	return b
}

func (q *q14) flag(f string) bool { return q.ask(q.val(f)) }

// some: the text, list or number is not empty.
func (q *q14) some(f string) bool {
	v := q.val(f)
	if b, ok := typeOf14(q.st, f).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if q.F.interval(v).lo > 0 {
			return true
		}
		return !q.ask(mkEq(v, cInt(0), typeOf14(q.st, f), nil))
	}
	if _, ok := typeOf14(q.st, f).Underlying().(*types.Interface); ok {
		return !q.ask(mkTerm(types.Typ[types.Bool], "isnil", v))
	}
	if s, ok := q.F.eq[v.K()]; ok {
		return s != ""
	}
	l := mkTerm(types.Typ[types.Int], "len", v)
	if iv := q.F.interval(l); iv.lo > 0 {
		return true
	} else if iv.hi == 0 {
		return false
	}
	if q.F.evalBool(mkTerm(types.Typ[types.Bool], "eqs", v, cStr(""))) == 0 {
		return true
	}
	return q.ask(mkLt(cInt(0), l))
}

func (q *q14) is(f, s string) bool {
	return q.ask(mkTerm(types.Typ[types.Bool], "eqs", q.val(f), cStr(s)))
}

// oneOf asks for one of some texts; the one it is.
func (q *q14) oneOf(f string, ss ...string) (string, bool) {
	for _, s := range ss {
		if q.is(f, s) {
			return s, true
		}
	}
	return "", false
}

func (q *q14) kind(f string, ns ...int64) bool {
	for _, n := range ns {
		if q.ask(mkEq(q.val(f), cInt(n), typeOf14(q.st, f), nil)) {
			return true
		}
	}
	return false
}

func typeOf14(st *types.Struct, f string) types.Type {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

// text14 spells what a method answers in terms of the description's fields.
func (q *q14) text(v V) string {
	var sb strings.Builder
	for _, p := range pieces(v, nil) {
		sb.WriteString(q.piece(p))
	}
	return sb.String()
}

func (q *q14) piece(p V) string {
	p = peel(p)
	if s, ok := isStrConst(p); ok {
		return s
	}
	if s, ok := q.F.eq[p.K()]; ok {
		return s
	}
	if x, n, ok := lin(p); ok && x == nil {
		return fmt.Sprint(n)
	}
	t, ok := p.(*Term)
	if !ok {
		if i, isI := p.(*Iface); isI {
			return q.piece(i.X)
		}
		return "⟨" + clip(p.K(), 80) + "⟩"
	}
	if strings.HasPrefix(t.Op, ".") && len(t.Args) == 1 && t.Args[0].K() == q.recv.K() {
		return "{" + t.Op[1:] + "}"
	}
	if d, ok := q.recv.(*Term); ok && d.Op == "*" && strings.HasPrefix(t.Op, "&.") && len(t.Args) == 1 && t.Args[0].K() == d.Args[0].K() {
		return "{" + t.Op[2:] + "}"
	}
	switch {
	case t.Op == "repeat" && len(t.Args) == 2:
		s, _ := isStrConst(t.Args[0])
		return s + "×" + q.piece(t.Args[1])
	case t.Op == "str" || strings.HasPrefix(t.Op, "str:") || t.Op == "itoa" || strings.HasPrefix(t.Op, "fmt:"):
		return q.piece(t.Args[0])
	case strings.HasPrefix(t.Op, "inv:") && strings.HasSuffix(t.Op, ".String") && len(t.Args) == 1:
		return q.piece(t.Args[0])
	case strings.HasSuffix(t.Op, ").String") && len(t.Args) == 1:
		return q.piece(t.Args[0])
	case strings.HasSuffix(t.Op, ").Sizes") && len(t.Args) == 1:
		return "Sizes(" + q.piece(t.Args[0]) + ")"
	case t.Op == "*" && len(t.Args) == 1:
		if e, ok := t.Args[0].(*Term); ok && e.Op == "[]" {
			return q.piece(e)
		}
	case strings.HasSuffix(t.Op, "TrimPrefix") && len(t.Args) == 2:
		return q.piece(t.Args[0]) + "-" + q.piece(t.Args[1])
	case t.Op == "[]" && len(t.Args) == 2:
		return q.piece(t.Args[0]) + "[i]"
	case t.Op == "-" && len(t.Args) == 2:
		return q.piece(t.Args[0]) + "-" + q.piece(t.Args[1])
	case t.Op == "s:Join" && len(t.Args) == 2:
		var alts []string
		if l, ok := t.Args[0].(*Term); ok && l.Op == "seq" {
			for _, a := range l.Args[1:] {
				alts = append(alts, q.text(a))
			}
			sort.Strings(alts)
		}
		return "all(" + strings.Join(alts, "|") + ";" + q.text(t.Args[1]) + ")"
	}
	if x, n, ok := lin(p); ok {
		if x == nil {
			return fmt.Sprint(n)
		}
		if n != 0 {
			return fmt.Sprintf("%s%+d", q.piece(x), n)
		}
	}
	if strings.HasPrefix(t.Op, "ix#") {
		return "i"
	}
	return "⟨" + clip(p.K(), 80) + "⟩"
}

// m14 is the run of a method.
type m14 struct {
	c    *Ctx
	fn   *ssa.Function
	t    *Table
	name string
	recv V
	st   *types.Struct
}

func (c *Ctx) method14(rule, pkg, typ, name string) *m14 {
	fn := c.Anchor(pkg, typ, name)
	if fn == nil {
		return nil
	}
	t := c.table(rule, fn, func(ip *Interp) {
		setupEmission(c, ip, "ptrs", "slcs", "arrs", "PlainType", "AddSized", "IsComplete", "IsOpaque", "IsConst", "GetBase", "GetTag", "CGoName", "Kind", "GetPointers", "OuterArrays", "InnerArrays", "SetPointers", "SetRaw")
	})
	if t == nil {
		return nil
	}
	m := &m14{c: c, fn: fn, t: t, name: typ + "." + name}
	a := namedArgs(fn)[0]
	rt := fn.Params[0].Type()
	m.recv = a
	if p, ok := rt.Underlying().(*types.Pointer); ok {
		m.recv = mkTerm(p.Elem(), "*", a)
		rt = p.Elem()
	}
	m.st, _ = rt.Underlying().(*types.Struct)
	if m.st == nil {
		m.st = types.NewStruct(nil, nil)
	}
	return m
}

// answers: on every path the method returns what the description asks for.
// want returns the text expected, or "yes"/"no" for a truth value.
func (m *m14) answers(rule string, want func(q *q14) string) {
	if m == nil {
		return
	}
	c := m.c
	for _, it := range m.t.Iter {
		if it.Loop.Early {
			c.Fail(rule, m.name+": list", it.Pos, "%s leaves the list before its end", m.name)
		}
	}
	n := 0
	for i, r := range m.t.Path {
		if len(r.Ret) != 1 {
			continue
		}
		var script []bool
		for round := 0; round < 4096; round++ {
			q := &q14{F: r.F, recv: m.recv, st: m.st, script: script}
			w := want(q)
			script = q.script[:q.used]
			if !q.dead && !q.skip {
				n++
				got := ""
				v := r.St.snap(r.Ret[0])
				if b, ok := typeOf(v).Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					switch q.F.evalBool(v) {
					case 1:
						got = "yes"
					case 0:
						got = "no"
					default:
						got = q.text(v)
						if got == w {
							break
						}
						// what is left open is one question: both answers must agree
						if w == "yes" || w == "no" {
							got = "undecided: " + got
						}
					}
				} else {
					got = q.text(v)
				}
				c.Obl(rule, fmt.Sprintf("%s path %d.%d", m.name, i+1, round+1), r.Pos, got == w,
					"%s answers %q where the description asks for %q (where %s)", m.name, clip(got, 160), clip(w, 160), clip(q.F.String(), 300))
			}
			// next script
			for len(script) > 0 && !script[len(script)-1] {
				script = script[:len(script)-1]
			}
			if len(script) == 0 {
				break
			}
			script = append([]bool(nil), script...)
			script[len(script)-1] = false
		}
	}
	c.Obl(rule, m.name, m.fn.Pos(), n > 0, "%s is not decided on any path", m.name)
}

// sets: the method assigns what it is handed to the field, and nothing else.
func (m *m14) sets(rule, field string, want func(arg V) string) {
	if m == nil {
		return
	}
	c := m.c
	arg := namedArgs(m.fn)[1]
	n := 0
	for _, r := range m.t.Path {
		hit := 0
		for _, e := range r.Ev {
			switch e.Kind {
			case "store":
				to := e.Args[0].K()
				if strings.HasSuffix(to, "&."+field+"($0)") {
					q := &q14{F: r.F, recv: m.recv, st: m.st}
					got := strings.ReplaceAll(q.text(e.Args[1]), q.piece(arg), "$1")
					c.Obl(rule, m.name, e.Pos, got == want(arg), "%s sets %s to %q", m.name, field, got)
					hit++
				} else if strings.HasPrefix(to, "&.") {
					c.Fail(rule, m.name+" other", e.Pos, "%s assigns %s, not %s alone", m.name, to, field)
				}
			case "call":
				c.Fail(rule, m.name+" call", e.Pos, "%s does more than set %s: it calls %s", m.name, field, e.Name)
			}
		}
		n += hit
		c.Obl(rule, m.name+" once", r.Pos, hit > 0, "a path of %s does not set %s", m.name, field)
	}
}

func c14(c *Ctx) {
	c.Rule("named: the name cgo has for a described type is the typedef's name, or else the keyword and the tag; for arithmetic types cgo's own word")
	c.Rule("answers: tag, base, kind, completeness, constness, pointers and arrays asked of a description are those of its own fields")
	c.Rule("set: a setter sets the field it is about to what it is handed, and nothing else")
	c.Rule("copied: a copy is a new description with every field the same")
	c.Rule("text: the C text of a type has its sign, size, keyword, tag or members, arrays and one asterisk per pointer; that of a declaration has its type, name and value")
	c.Rule("gotext: the Go text of a type has its slices, arrays, asterisks, base and size")
	c.Rule("members: a described structure has one member per field, a described function one parameter per parameter that is not void, in order, each with the name and type of its own")
	c.Rule("kinds: structures, unions and enumerations are described with their own tag, members, typedef, pointers and arrays")
	c.Rule("names: identifiers come from the declarator itself, and are altered only where they are Go keywords")

	tl := "translator"
	yn := func(b bool) string {
		if b {
			return "yes"
		}
		return "no"
	}
	kinds := map[string]int64{}
	for _, k := range []string{"TypeKind", "PlainTypeKind", "StructKind", "OpaqueStructKind", "UnionKind", "FunctionKind", "EnumKind"} {
		if v, ok := c.kindConst14(k); ok {
			kinds[k] = v
		} else {
			c.Fail("answers", k, 0, "there is no kind %s", k)
			return
		}
	}
	kind := func(k string) string { return fmt.Sprint(kinds[k]) }
	field := func(f string) func(q *q14) string {
		return func(q *q14) string { return q.piece(q.val(f)) }
	}
	is := func(s string) func(q *q14) string { return func(*q14) string { return s } }

	// CTypeSpec
	c.method14("named", tl, "CTypeSpec", "CGoName").answers("named", func(q *q14) string {
		if q.some("Raw") {
			return q.piece(q.val("Raw"))
		}
		base, arith := q.oneOf("Base", "int", "short", "long", "char")
		if !arith {
			return q.piece(q.val("Base"))
		}
		pre := ""
		if q.flag("Unsigned") {
			pre = "u"
		} else if q.flag("Signed") {
			pre = "s"
		}
		if q.flag("Long") {
			if base == "long" {
				return pre + "longlong"
			}
			return pre + "long"
		}
		if q.flag("Short") {
			return pre + "short"
		}
		return pre + base
	})
	c.method14("text", tl, "CTypeSpec", "String").answers("text", func(q *q14) string {
		sign, size, base := "", "", ""
		if q.flag("Unsigned") {
			sign = "unsigned "
		} else if q.flag("Signed") {
			sign = "signed "
		}
		if q.flag("Long") {
			size = "long "
		} else if q.flag("Short") {
			size = "short "
		}
		less := ""
		base = q.piece(q.val("Base"))
		if q.is("Base", "unsafe.Pointer") {
			less = "-1"
			base = q.piece(q.val("Base"))
		}
		if q.flag("Complex") {
			// cgo's own words for these types begin with complex
			size += "_Complex "
			base += "-complex"
		}
		return sign + size + base + "{InnerArr}*×{Pointers}" + less + "{OuterArr}"
	})
	for _, typ := range []string{"CStructSpec", "CEnumSpec"} {
		enum := typ == "CEnumSpec"
		keyword := func(q *q14) string {
			switch {
			case enum:
				return "enum"
			case q.flag("IsUnion"):
				return "union"
			}
			return "struct"
		}
		c.method14("named", tl, typ, "CGoName").answers("named", func(q *q14) string {
			if q.some("Typedef") {
				return q.piece(q.val("Typedef"))
			}
			return keyword(q) + "_" + q.piece(q.val("Tag"))
		})
		c.method14("text", tl, typ, "String").answers("text", func(q *q14) string {
			s := ""
			switch {
			case q.some("Typedef"):
				s = q.piece(q.val("Typedef"))
			case q.some("Tag"):
				s = keyword(q) + " " + q.piece(q.val("Tag"))
			case q.some("Members"):
				s = keyword(q) + "  {all({Members}[i];,\n)}"
			default:
				s = keyword(q) + " "
			}
			return s + "{OuterArr}*×{Pointers}{InnerArr}"
		})
		c.method14("answers", tl, typ, "GetBase").answers("answers", func(q *q14) string {
			if q.some("Typedef") {
				return q.piece(q.val("Typedef"))
			}
			return q.piece(q.val("Tag"))
		})
		c.method14("answers", tl, typ, "GetTag").answers("answers", field("Tag"))
		c.method14("answers", tl, typ, "IsComplete").answers("answers", func(q *q14) string { return yn(q.some("Members")) })
		c.method14("answers", tl, typ, "IsOpaque").answers("answers", func(q *q14) string { return yn(!q.some("Members")) })
	}
	c.method14("answers", tl, "CStructSpec", "Kind").answers("answers", func(q *q14) string {
		switch {
		case q.flag("IsUnion"):
			return kind("UnionKind")
		case q.some("Members"):
			return kind("StructKind")
		}
		return kind("OpaqueStructKind")
	})
	c.method14("answers", tl, "CEnumSpec", "Kind").answers("answers", is(kind("EnumKind")))
	c.method14("answers", tl, "CTypeSpec", "Kind").answers("answers", is(kind("TypeKind")))
	c.method14("answers", tl, "CTypeSpec", "GetBase").answers("answers", field("Base"))
	c.method14("answers", tl, "CTypeSpec", "GetTag").answers("answers", is(""))
	c.method14("answers", tl, "CTypeSpec", "IsConst").answers("answers", func(q *q14) string { return yn(q.flag("Const")) })
	c.method14("answers", tl, "CTypeSpec", "IsOpaque").answers("answers", func(q *q14) string { return yn(q.flag("Opaque")) })
	c.method14("answers", tl, "CTypeSpec", "IsComplete").answers("answers", is("yes"))
	c.method14("answers", tl, "CFunctionSpec", "Kind").answers("answers", is(kind("FunctionKind")))
	c.method14("answers", tl, "CFunctionSpec", "IsComplete").answers("answers", is("yes"))
	c.method14("answers", tl, "CFunctionSpec", "GetTag").answers("answers", field("Raw"))
	c.method14("answers", tl, "CFunctionSpec", "GetBase").answers("answers", is(""))
	c.method14("named", tl, "CFunctionSpec", "CGoName").answers("named", field("Raw"))

	for _, typ := range []string{"CTypeSpec", "CStructSpec", "CEnumSpec", "CFunctionSpec"} {
		c.method14("answers", tl, typ, "GetPointers").answers("answers", field("Pointers"))
		if typ != "CFunctionSpec" {
			for _, which := range []string{"Outer", "Inner"} {
				c.method14("answers", tl, typ, which+"Arrays").answers("answers", field(which+"Arr"))
				c.method14("answers", tl, typ, which+"ArraySizes").answers("answers", is("Sizes({"+which+"Arr})"))
				c.method14("set", tl, typ, "Add"+which+"Arr").sets("set", which+"Arr", func(V) string { return "{" + which + "Arr}[$1]" })
			}
		}
		c.method14("set", tl, typ, "SetPointers").sets("set", "Pointers", func(V) string { return "$1" })
		raw := "Raw"
		if typ == "CStructSpec" || typ == "CEnumSpec" {
			raw = "Typedef"
		}
		c.method14("set", tl, typ, "SetRaw").sets("set", raw, func(V) string { return "$1" })
		c.copied14(tl, typ)
	}

	// functions and declarations
	if m := c.method14("text", tl, "CFunctionSpec", "String"); m != nil {
		m.answers("text", func(q *q14) string {
			if q.some("Raw") {
				return q.piece(q.val("Raw"))
			}
			ret := "void"
			if q.some("Return") {
				ret = "{Return}"
			}
			return ret + " (all(argi|{Params}[i];, ))"
		})
		m.params()
	}
	c.method14("text", tl, "CDecl", "String").answers("text", func(q *q14) string {
		s := "{Spec}"
		if q.some("Name") {
			s += " " + q.piece(q.val("Name"))
		}
		if q.some("Expression") {
			s += " = " + q.piece(q.val("Expression"))
		}
		return s
	})

	// Go types
	goBase := func(q *q14, raw bool) string {
		if raw && q.some("Raw") {
			return q.piece(q.val("Raw"))
		}
		u := ""
		if _, arith := q.oneOf("Base", "char", "short", "long", "int"); arith {
			if q.flag("Unsigned") {
				u = "u"
			}
		} else if !raw && q.flag("Unsigned") {
			q.skip = true // no such type is described
		}
		s := u + q.piece(q.val("Base"))
		if q.some("Bits") {
			s += "{Bits}"
		}
		return s
	}
	full := func(raw bool) func(q *q14) string {
		return func(q *q14) string {
			less := ""
			stars := ""
			if q.some("Pointers") {
				if q.is("Base", "unsafe.Pointer") && !(raw && q.some("Raw")) {
					less = "-1"
				}
				stars = "*×{Pointers}" + less
			}
			return "[]×{Slices}{OuterArr}" + stars + "{InnerArr}" + goBase(q, raw)
		}
	}
	c.method14("gotext", tl, "GoTypeSpec", "String").answers("gotext", full(true))
	c.method14("gotext", tl, "GoTypeSpec", "UnderlyingString").answers("gotext", full(false))
	c.method14("gotext", tl, "GoTypeSpec", "PlainType").answers("gotext", func(q *q14) string { return goBase(q, true) })
	c.method14("gotext", tl, "CGoSpec", "String").answers("gotext", is("{OuterArr}*×{Pointers}{InnerArr}{Base}"))
	c.method14("gotext", tl, "GoTypeSpec", "IsGoString").answers("gotext", func(q *q14) string {
		return yn(q.is("Base", "string") && !q.some("Slices") && !q.some("InnerArr") && !q.some("OuterArr"))
	})
	c.method14("gotext", tl, "GoTypeSpec", "IsPlain").answers("gotext", func(q *q14) string {
		_, ok := q.oneOf("Base", "int", "byte", "rune", "float", "complex", "unsafe.Pointer", "bool")
		return yn(ok)
	})
	c.method14("gotext", tl, "GoTypeSpec", "IsPlainKind").answers("gotext", func(q *q14) string {
		return yn(q.kind("Kind", kinds["PlainTypeKind"], kinds["OpaqueStructKind"], kinds["EnumKind"], kinds["UnionKind"]))
	})
	c.members14()

	c.Floor("named", 8)
	c.Floor("answers", 40)
	c.Floor("set", 14)
	c.Floor("copied", 4)
	c.Floor("text", 25)
	c.Floor("gotext", 30)
	c.Floor("members", 8)
	c.Floor("kinds", 8)
	c.Floor("names", 6)
}

func (c *Ctx) kindConst14(name string) (int64, bool) {
	if k, ok := c.SSA["translator"].Pkg.Scope().Lookup(name).(*types.Const); ok {
		return constant.Int64Val(constant.ToInt(k.Val()))
	}
	return 0, false
}

// copied14: Copy and AtLevel make a new description of the same type.
func (c *Ctx) copied14(pkg, typ string) {
	for _, name := range []string{"Copy", "AtLevel"} {
		m := c.method14("copied", pkg, typ, name)
		if m == nil {
			continue
		}
		own := map[string]bool{}
		if name == "AtLevel" {
			own = map[string]bool{"Pointers": true, "InnerArr": true, "OuterArr": true}
		}
		for _, r := range m.t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			v := peel(r.Ret[0])
			if i, ok := v.(*Iface); ok {
				v = i.X
			}
			var got V
			if p, ok := v.(*Ptr); ok {
				got = r.St.pointee(p)
			} else if t, ok := v.(*Term); ok && t.Op == "ptr" {
				got = t.Args[0]
			}
			if !c.Obl("copied", m.name, r.Pos, got != nil, "%s of %s returns %s, not a new description", name, typ, clip(v.K(), 80)) {
				continue
			}
			if got.K() == m.recv.K() {
				continue
			}
			s, ok := got.(*StructV)
			if !c.Obl("copied", m.name+" parts", r.Pos, ok, "%s of %s returns %s", name, typ, clip(got.K(), 100)) {
				continue
			}
			for i := 0; i < m.st.NumFields(); i++ {
				f := m.st.Field(i).Name()
				if own[f] {
					continue
				}
				k := s.F[i].K()
				c.Obl("copied", m.name+"."+f, r.Pos, k == "."+f+"("+m.recv.K()+")" || strings.HasPrefix(k, "."+f+"(lv#"), "%s of %s does not keep %s: %s", name, typ, f, clip(k, 100))
			}
		}
	}
}

// params: a parameter without a name is called by its place.
func (m *m14) params() {
	c := m.c
	n := 0
	for _, it := range m.t.Iter {
		q := &q14{F: it.F, recv: m.recv, st: m.st}
		apps := 0
		for _, e := range it.Ev {
			if e.Kind != "append" {
				continue
			}
			for _, v := range e.Args {
				apps++
				got := q.text(it.St.snap(v))
				named := unk
				for k, t := range it.F.at {
					if tm, ok := t.(*Term); ok && tm.Op == "len" && len(tm.Args) == 1 && strings.HasPrefix(tm.Args[0].K(), ".Name(") {
						_ = k
						if iv := it.F.interval(tm); iv.lo > 0 {
							named = yes
						} else if iv.hi == 0 {
							named = no
						}
					}
				}
				n++
				c.Obl("text", m.name+" parameter", e.Pos, (named == yes && got == "{Params}[i]") || (named == no && got == "argi"),
					"a parameter (named: %v) is written %q", named == yes, got)
			}
		}
		c.Obl("text", m.name+" each", it.Pos, apps == 1, "a parameter is written %d times", apps)
	}
	c.Obl("text", m.name+" parameters", m.fn.Pos(), n > 1, "the parameters are not written")
}

// elem14: what one iteration of a loop is about: the element it takes from
// its list at the index that counts the iterations.
func elem14(it *Row) string {
	k := ""
	for _, v := range it.Ev {
		for _, a := range v.Args {
			walkV(it.St.snap(a), func(x V) {
				if t, ok := x.(*Term); ok && (t.Op == "[]" || strings.HasSuffix(t.Op, ".FieldByIndex")) && len(t.Args) == 2 && isIx14(t.Args[1]) {
					k = t.K()
				}
			})
		}
	}
	return k
}

func isIx14(v V) bool {
	x, n, ok := lin(v)
	return ok && n == 0 && x != nil && strings.HasPrefix(x.K(), "ix#")
}

// kindsOf14: which values' kinds a path has established.
func kindsOf14(f *Facts, k int64) (out []string) {
	for key, v := range f.at {
		t, ok := v.(*Term)
		if !ok || !strings.HasPrefix(t.Op, "inv:") || !strings.HasSuffix(t.Op, ".Kind") || len(t.Args) != 1 {
			continue
		}
		_ = key
		if iv := f.interval(t); iv.lo == k && iv.hi == k {
			out = append(out, t.Args[0].K())
		}
	}
	sort.Strings(out)
	return
}

// part: the call of a method on the element, e.g. .Type(elem).
func partOf14(v V, name, elem string) bool {
	t, ok := peel(v).(*Term)
	if !ok || !strings.Contains(t.K(), elem) {
		return false
	}
	return strings.HasSuffix(t.Op, ")."+name) || strings.HasSuffix(t.Op, "."+name)
}

// isCall14: v is what the module's function made of the arguments.
func isCall14(v V, name string) ([]V, bool) {
	t, ok := peel(v).(*Term)
	if !ok || (t.Op != name && !strings.HasSuffix(t.Op, "."+name)) {
		return nil, false
	}
	return t.Args, true
}

func (c *Ctx) members14() {
	union, _ := c.ccKind("Union")
	void, _ := c.ccKind("Void")
	for _, x := range []struct {
		fn, item, namer string
		fn2             int
	}{{"structSpec", "FieldByIndex", "memberName", 3}, {"functionSpec", "Parameters", "paramName", 5}} {
		fn := c.Anchor("translator", "Translator", x.fn)
		if fn == nil {
			continue
		}
		t := c.table("members", fn, func(ip *Interp) { setupEmission(c, ip) })
		if t == nil {
			continue
		}
		args := namedArgs(fn)
		deep := args[x.fn2].K()
		for _, it := range t.Iter {
			var apps []*StructV
			for i := range it.Ev {
				e := &it.Ev[i]
				if e.Kind != "append" {
					continue
				}
				for _, a := range e.Args {
					if s := specOf(it.St, a); s != nil && strings.HasSuffix(s.T.String(), "CDecl") {
						apps = append(apps, s)
					} else {
						c.Fail("members", x.fn+": member", e.Pos, "what is added is not a declaration: %s", clip(it.St.snap(a).K(), 120))
					}
				}
			}
			if len(kindsOf14(it.F, void)) > 1 || (len(apps) == 0 && len(kindsOf14(it.F, void)) > 0) {
				// (void): no parameters
				if x.fn == "functionSpec" && len(apps) == 0 {
					isParam := false
					for _, k := range kindsOf14(it.F, void) {
						isParam = isParam || strings.Contains(k, "ix#")
					}
					c.Obl("members", x.fn+": none for void", it.Pos, isParam, "a parameter that is not void is left out")
					continue
				}
			}
			if !c.Obl("members", x.fn+": one each", it.Pos, len(apps) == 1 && !it.Loop.Early, "%d members are described for a field or parameter", len(apps)) {
				continue
			}
			s := apps[0]
			el := elem14(it)
			c.Obl("members", x.fn+": element", it.Pos, el != "" && strings.Contains(el, x.item), "the member is not about the element in its turn: %s", clip(el, 120))
			a, ok := isCall14(s.field("Spec"), "typeSpec")
			if c.Obl("members", x.fn+": type", it.Pos, ok && len(a) == 6 && partOf14(a[1], "Type", el), "the type of a member is not that of its field: %s", clip(s.field("Spec").K(), 160)) {
				_, n, isN := lin(a[3])
				c.Obl("members", x.fn+": depth", it.Pos, isN && n > 0 && strings.Contains(a[3].K(), deep), "the depth of a member is %s", a[3].K())
				c.Obl("members", x.fn+": kept typedef", it.Pos, a[5].K() == "false", "a member's typedef is not looked up")
				cst := a[4].K()
				c.Obl("members", x.fn+": constness", it.Pos, cst == "false" || partOf14(a[4], "IsConst", el), "the constness of a member is %s", clip(cst, 120))
				if cst == "false" {
					declared := false
					for k, v := range it.F.b {
						if v && strings.HasPrefix(k, "isnil(") && strings.Contains(k, "Declarator") && strings.Contains(k, el) {
							declared = true
						}
					}
					c.Obl("members", x.fn+": constness", it.Pos, declared, "a member with a declarator is taken for not constant")
				}
			}
			na, ok := isCall14(s.field("Name"), x.namer)
			c.Obl("members", x.fn+": name", it.Pos, ok && len(na) == 2 && isIx14(na[0]) && strings.Contains(na[1].K(), el), "the name of a member is not that of its field: %s", clip(s.field("Name").K(), 160))
		}
		// every one: the list is run from its first to its last
		n := 0
		for _, r := range t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			s := specOf(r.St, r.Ret[0])
			if !c.Obl("kinds", x.fn, r.Pos, s != nil, "%s does not return a new description: %s", x.fn, clip(r.St.snap(r.Ret[0]).K(), 120)) {
				continue
			}
			for _, f := range []string{"Pointers", "InnerArr", "OuterArr"} {
				if v := s.field(f); v != nil {
					c.Obl("kinds", x.fn+": "+f, r.Pos, v.K() == "."+f+"(*("+args[1].K()+"))", "%s of the description is %s", f, clip(v.K(), 100))
				}
			}
			list := "Members"
			if x.fn == "functionSpec" {
				list = "Params"
			} else {
				ta, ok := isCall14(s.field("Tag"), "getStructTag")
				c.Obl("kinds", x.fn+": Tag", r.Pos, ok && ta[len(ta)-1].K() == args[2].K(), "the tag of a structure is %s", clip(s.field("Tag").K(), 100))
				q := &q14{F: r.F, recv: args[0], st: types.NewStruct(nil, nil)}
				_ = q
				k := mkTerm(types.Typ[types.Int], "inv:modernc.org/cc/v4.Type.Kind", args[2])
				is := r.F.evalBool(s.field("IsUnion"))
				iv := r.F.interval(k)
				ok = strings.HasPrefix(s.field("IsUnion").K(), "eqi(inv:") && strings.Contains(s.field("IsUnion").K(), fmt.Sprintf(",%d)", union)) || is == 0 && (iv.neq[union] || iv.lo > union || iv.hi < union) || is == 1 && iv.lo == union && iv.hi == union
				c.Obl("kinds", x.fn+": IsUnion", r.Pos, ok, "whether it is a union is %s", clip(s.field("IsUnion").K(), 100))
			}
			l := s.field(list)
			isType, tooDeep := no, no
			for k, v := range r.F.b {
				if v && strings.HasPrefix(k, "is:*") && strings.HasSuffix(k, "("+args[2].K()+")") && (strings.Contains(k, "StructType") || strings.Contains(k, "FunctionType")) {
					isType = yes
				}
			}
			if iv := r.F.interval(args[x.fn2]); iv.lo > 1 {
				tooDeep = yes
			}
			if isType == yes && tooDeep == no {
				n++
				c.Obl("members", x.fn+": all", r.Pos, strings.Contains(l.K(), "seq(") || strings.Contains(l.K(), "seq#"), "the members are not described: %s", clip(l.K(), 100))
			}
		}
		c.Obl("members", x.fn+": described", fn.Pos(), n > 0, "no path of %s describes the members", x.fn)
	}
	c.enum14()
	c.kinds14()
	c.names14()
}

// kinds14: what typeSpec records of a structure, union or enumeration.
func (c *Ctx) kinds14() {
	fn := c.Anchor("translator", "Translator", "typeSpec")
	if fn == nil {
		return
	}
	t := c.table("kinds", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "invoke" && strings.HasSuffix(e.Name, ".SetRaw") })
	})
	if t == nil {
		return
	}
	args := namedArgs(fn)
	isRet := args[len(args)-1]
	for _, kn := range []string{"Struct", "Union", "Enum"} {
		kv, ok := c.ccKind(kn)
		if !ok {
			c.Fail("kinds", kn, fn.Pos(), "the front end has no kind %s", kn)
			continue
		}
		n := 0
		for _, r := range t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			subj := ""
			for _, k := range kindsOf14(r.F, kv) {
				subj = k
			}
			if subj == "" {
				continue
			}
			n++
			v := r.Ret[0]
			if i, ok := peel(v).(*Iface); ok {
				v = i.X
			}
			typedef, stored := "", false
			for _, e := range r.Ev {
				if e.Kind == "store" && strings.HasSuffix(e.Args[0].K(), "&.Typedef("+v.K()+")") {
					stored = true
					typedef = e.Args[1].K()
				}
			}
			own := "call:translator.typedefNameOf(" + subj + ")"
			ret := r.F.evalBool(isRet)
			if !stored {
				for _, x := range r.F.at {
					if tm, ok := x.(*Term); ok && tm.Op == "len" && tm.Args[0].K() == own && r.F.interval(tm).hi == 0 {
						stored, typedef = true, own // there is nothing to record
					}
				}
				if r.F.eq[own] == "" {
					if _, ok := r.F.eq[own]; ok {
						stored, typedef = true, own
					}
				}
			}
			if kn == "Union" {
				s := specOf(r.St, r.Ret[0])
				if !c.Obl("kinds", kn, r.Pos, s != nil && s.field("IsUnion") != nil, "a union is not described as one: %s", clip(v.K(), 100)) {
					continue
				}
				ta, ok := isCall14(s.field("Tag"), "getStructTag")
				c.Obl("kinds", kn+": tag", r.Pos, ok && ta[len(ta)-1].K() == subj, "the tag of a union is %s", clip(s.field("Tag").K(), 100))
				c.Obl("kinds", kn+": union", r.Pos, s.field("IsUnion").K() == "true", "a union is described as a structure")
				td := s.field("Typedef").K()
				c.Obl("kinds", kn+": typedef", r.Pos, td == own, "the typedef of a union is %s", clip(td, 100))
				continue
			}
			maker := map[string]string{"Struct": "structSpec", "Enum": "enumSpec"}[kn]
			ma, ok := isCall14(v, maker)
			c.Obl("kinds", kn, r.Pos, ok && len(ma) > 2 && ma[2].K() == subj, "a type of kind %s is not described by %s of itself: %s", kn, maker, clip(v.K(), 120))
			if ret == 0 {
				c.Obl("kinds", kn+": typedef", r.Pos, stored && typedef == own, "the typedef of a type of kind %s is %q, not that of the type itself", kn, clip(typedef, 100))
			} else if ret == 1 {
				c.Obl("kinds", kn+": typedef of a result", r.Pos, !stored || typedef == own, "the typedef of a result is %q", clip(typedef, 100))
			} else {
				c.Obl("kinds", kn+": typedef", r.Pos, stored && typedef == own, "whether the typedef of a type of kind %s is recorded is not decided by its being a result", kn)
			}
		}
		c.Obl("kinds", kn+" described", fn.Pos(), n > 0, "no path of typeSpec is about kind %s", kn)
	}
	// a function's result is called by the typedef it was declared with
	fk, _ := c.ccKind("Function")
	n := 0
	for _, r := range t.Path {
		if len(r.Ret) != 1 || len(kindsOf14(r.F, fk)) == 0 {
			continue
		}
		v := r.Ret[0]
		if i, ok := peel(v).(*Iface); ok {
			v = i.X
		}
		ma, ok := isCall14(v, "functionSpec")
		if !c.Obl("kinds", "Function", r.Pos, ok && len(ma) == 6, "a type of kind Function is not described by functionSpec: %s", clip(v.K(), 120)) {
			continue
		}
		subj := ma[2].K()
		c.Obl("kinds", "Function: of itself", r.Pos, contains14(kindsOf14(r.F, fk), subj), "the description of a function is about %s", clip(subj, 100))
		c.Obl("kinds", "Function: name", r.Pos, ma[3].K() == args[2].K() && ma[4].K() == args[4].K(), "the name of a function is %s", clip(ma[3].K(), 60))
		known, isFn := unk, false
		for k, b := range r.F.b {
			if strings.HasPrefix(k, "isnil(.Return(") {
				known = no
				if b {
					known = yes
				}
			}
			isFn = isFn || b && strings.HasPrefix(k, "is:*") && strings.HasSuffix(k, "FunctionType("+subj+")")
		}
		if r.F.evalBool(isRet) != 0 || !isFn {
			continue
		}
		set := ""
		for _, e := range r.Ev {
			if e.Kind == "invoke" && strings.HasPrefix(e.Args[0].K(), ".Return(") {
				set = e.Args[1].K()
			}
		}
		n++
		if known == yes {
			c.Obl("kinds", "Function: no result", r.Pos, set == "", "a result that there is not is named %s", clip(set, 100))
		} else {
			c.Obl("kinds", "Function: result", r.Pos, known == no && strings.Contains(set, "typedefNameOf(") && strings.Contains(set, ".Result(") && strings.Contains(set, subj), "the result of a function is not called by its typedef, but by %q", clip(set, 100))
		}
	}
	c.Obl("kinds", "Function described", fn.Pos(), n > 0, "no path of typeSpec describes a function")
	// the plain ones: Raw is the typedef of the type as it was given
	for _, r := range t.Path {
		if len(r.Ret) != 1 {
			continue
		}
		s := specOf(r.St, r.Ret[0])
		if s == nil || !strings.HasSuffix(s.T.String(), "CTypeSpec") {
			continue
		}
		raw := s.field("Raw").K()
		switch r.F.evalBool(isRet) {
		case 0:
			c.Obl("kinds", "plain: typedef", r.Pos, raw == "call:translator.typedefNameOf("+args[1].K()+")", "the typedef of a plain type is %s", clip(raw, 100))
		case 1:
			c.Obl("kinds", "plain: typedef of a result", r.Pos, raw == `""` || raw == "call:translator.typedefNameOf("+args[1].K()+")", "the typedef of a result is %s", clip(raw, 100))
		}
		c.Obl("kinds", "plain: constness", r.Pos, s.field("Const").K() == args[4].K(), "the constness of a plain type is %s", clip(s.field("Const").K(), 100))
	}
	c.declared14()
}

// declared14: a declaration is described from one declarator.
func (c *Ctx) declared14() {
	fn := c.Anchor("translator", "Translator", "declarator")
	if fn == nil {
		return
	}
	if t := c.table("kinds", fn, func(ip *Interp) { setupEmission(c, ip) }); t != nil {
		// the parameters, by what the declaration keeps of them
		a := namedArgs(fn)
		for _, r := range t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			s := specOf(r.St, r.Ret[0])
			if !c.Obl("kinds", "declaration", r.Pos, s != nil, "a declaration is not described: %s", clip(r.Ret[0].K(), 100)) {
				continue
			}
			ta, ok := isCall14(s.field("Spec"), "typeSpec")
			c.Obl("kinds", "declaration: type", r.Pos, ok && len(ta) == 6 && ta[1].K() == a[1].K() && ta[2].K() == a[2].K() && ta[3].K() == "0" && ta[4].K() == a[5].K() && ta[5].K() == "false", "the type of a declaration is %s", clip(s.field("Spec").K(), 160))
			for f, i := range map[string]int{"Name": 2, "IsTypedef": 3, "IsStatic": 4, "Position": 6} {
				c.Obl("kinds", "declaration: "+f, r.Pos, i < len(a) && s.field(f).K() == a[i].K(), "%s of a declaration is %s", f, clip(s.field(f).K(), 100))
			}
		}
	}
	// and every declaration's parts are those of the same declarator
	n := 0
	var callers []*ssa.Function
	for _, ci := range c.callersOf(fn) {
		callers = append(callers, ci.Parent())
	}
	for _, f := range c.rootsOf(callers) {
		t := c.table("kinds", f, func(ip *Interp) { setupEmission(c, ip) })
		if t == nil {
			continue
		}
		for _, r := range append(append([]*Row(nil), t.Path...), t.Iter...) {
			for _, e := range r.Ev {
				if e.Kind != "call" || !strings.HasSuffix(e.Name, ".declarator") || len(e.Args) != 7 {
					continue
				}
				n++
				base := ""
				for i, part := range []string{"", "Type", "DirectDeclarator", "IsTypename", "IsStatic", "IsConst", "Position"} {
					if part == "" {
						continue
					}
					v := peel(e.Args[i])
					if part == "DirectDeclarator" {
						if ia, ok := isCall14(v, "identifierOf"); ok {
							v = peel(ia[0])
						} else if v.K() == `""` {
							continue
						}
					}
					if v.K() == "false" || part == "IsTypename" && strings.Contains(v.K(), "Typedef") {
						// a structure or enumeration declared by itself
						c.Obl("kinds", "declarator: "+part, e.Pos, !strings.Contains(base, "InitDeclarator") && !strings.HasPrefix(base, ".Declarator("), "%s of a declarator is %s", part, v.K())
						continue
					}
					tm, ok := v.(*Term)
					of := ""
					if ok && len(tm.Args) == 1 && strings.HasSuffix(tm.Op, "."+part) {
						of = unstar14(tm.Args[0])
					}
					if base == "" {
						base = of
					}
					c.Obl("kinds", "declarator: "+part, e.Pos, of != "" && of == base, "%s of a declaration is %s, where its type is that of %s", part, clip(v.K(), 120), clip(base, 120))
				}
			}
		}
	}
	c.Obl("kinds", "declarations", fn.Pos(), n > 1, "no declaration is described")
}

// unstar14: the object a method is called on, embedded parts and pointers aside.
func unstar14(v V) string {
	for {
		v = peel(v)
		t, ok := v.(*Term)
		if !ok || len(t.Args) != 1 {
			return v.K()
		}
		switch {
		case t.Op == "*", t.Op == "ptr", t.Op == ".typer", t.Op == "&.typer", t.Op == ".Node", strings.HasSuffix(t.Op, ".typer"), strings.HasSuffix(t.Op, ".visible"), strings.HasSuffix(t.Op, ".resolver"):
			v = t.Args[0]
		default:
			return v.K()
		}
	}
}

// names14: identifiers are those of the declarator.
func (c *Ctx) names14() {
	str := func(v V) string { return squeeze(ccPkg14.Replace(v.K())) }
	get := func(name, typ string) *Table {
		fn := c.Anchor("translator", typ, name)
		if fn == nil {
			return nil
		}
		return c.table("names", fn, func(ip *Interp) { setupEmission(c, ip) })
	}
	for name, lit := range map[string]string{"memberName": "field", "paramName": "arg"} {
		t := get(name, "")
		if t == nil {
			continue
		}
		for _, r := range t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			a := namedArgs(t.Fn)
			empty := unk
			for _, v := range r.F.at {
				if tm, ok := v.(*Term); ok && tm.Op == "len" && strings.HasSuffix(tm.Args[0].(interface{ K() string }).K(), ".Name("+a[1].K()+")") {
					if iv := r.F.interval(tm); iv.hi == 0 {
						empty = yes
					} else if iv.lo > 0 {
						empty = no
					}
				}
			}
			got := str(r.Ret[0])
			if name == "memberName" {
				// cgo gives no access to bit-fields
				bit := 0
				for _, v := range r.F.boolTerms() {
					if strings.HasSuffix(v.K(), ".IsBitfield("+a[1].K()+")") {
						bit = -1
						if r.F.b[v.K()] {
							bit = 1
						}
					}
				}
				c.Obl("names", name+": bit-field", r.Pos, bit == 1 && got == `""` || bit == -1, "a bit-field is called %s", clip(got, 100))
				if bit != -1 {
					continue
				}
			}
			if empty == yes {
				c.Obl("names", name+": unnamed", r.Pos, got == `cat("`+lit+`",itoa(`+a[0].K()+`))`, "without a name it is called %s", clip(got, 100))
			} else {
				b, ok := isCall14(r.Ret[0], "blessName")
				c.Obl("names", name, r.Pos, empty == no && ok && strings.HasSuffix(b[0].K(), ".Name("+a[1].K()+")"), "it is called %s", clip(got, 100))
			}
		}
	}
	if t := get("identifierOf", ""); t != nil {
		ident, _ := c.ccConst14("DirectDeclaratorIdent")
		paren, _ := c.ccConst14("DirectDeclaratorDecl")
		a := namedArgs(t.Fn)[0].K()
		for _, r := range t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			got := str(r.Ret[0])
			cs := ival{lo: minI, hi: maxI}
			for _, v := range r.F.at {
				if v.K() == ".Case(*("+a+"))" {
					cs = r.F.interval(v)
				}
			}
			switch {
			case got == `""`:
				c.Obl("names", "identifierOf: none", r.Pos, r.F.b["isnil("+a+")"], "a declarator has no name")
			case strings.Contains(got, "blessName"):
				c.Obl("names", "identifierOf: identifier", r.Pos, cs.lo == ident && cs.hi == ident && strings.Contains(got, ".Token("), "the name is %s", clip(got, 100))
			case strings.Contains(got, ".Declarator(*("+a):
				c.Obl("names", "identifierOf: in parentheses", r.Pos, cs.lo == paren && cs.hi == paren && strings.Contains(got, "identifierOf(.DirectDeclarator(*(.Declarator("), "the name is %s", clip(got, 100))
			default:
				c.Obl("names", "identifierOf: arrays and functions", r.Pos, got == "translator.identifierOf(.DirectDeclarator(*("+a+")))" && (cs.neq[ident] || cs.lo > ident || cs.hi < ident) && (cs.neq[paren] || cs.lo > paren || cs.hi < paren), "the name is %s", clip(got, 100))
			}
		}
	}
	if t := get("typedefNameOf", ""); t != nil {
		a := namedArgs(t.Fn)[0].K()
		for _, r := range t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			got := str(r.Ret[0])
			def := "inv:Type.Typedef(" + a + ")"
			byName, byDecl := "translator.blessName(", "translator.identifierOf(.DirectDeclarator(*("+def+")))"
			none := false
			isPtr, isArr := false, false
			for k, b := range r.F.b {
				k = squeeze(ccPkg14.Replace(k))
				if b && k == "isnil("+def+")" {
					none = true
				}
				isPtr = isPtr || b && k == "is:*PointerType("+a+")"
				isArr = isArr || b && k == "is:*ArrayType("+a+")"
			}
			switch {
			case strings.HasPrefix(got, "translator.typedefNameOf("):
				c.Obl("names", "typedefNameOf: element", r.Pos, (isPtr || isArr) && strings.Contains(got, ".Elem(") && strings.Contains(got, a), "the typedef is %s", clip(got, 100))
			case strings.HasPrefix(got, byName):
				c.Obl("names", "typedefNameOf: name", r.Pos, !none && strings.Contains(got, def), "the typedef is %s", clip(got, 100))
			case got == byDecl:
				c.Obl("names", "typedefNameOf: declarator", r.Pos, !none && !isPtr && !isArr || !none, "the typedef is %s", clip(got, 100))
			default:
				c.Obl("names", "typedefNameOf: none", r.Pos, got == `""` && none && !isPtr && !isArr, "the typedef is %s", clip(got, 100))
			}
		}
	}
	if t := get("getStructTag", "Translator"); t != nil {
		a := namedArgs(t.Fn)[1].K()
		for _, r := range t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			got := str(r.Ret[0])
			is := ""
			for k, b := range r.F.b {
				k = squeeze(ccPkg14.Replace(k))
				if b && strings.HasPrefix(k, "is:*") && strings.HasSuffix(k, "("+a+")") {
					is = k
				}
			}
			_, ok := isCall14(r.Ret[0], "blessName")
			c.Obl("names", "getStructTag", r.Pos, ok && (is == "" || strings.Contains(got, ".Tag(") && strings.Contains(got, a)), "the tag is %s", clip(got, 100))
		}
		n := map[string]bool{}
		for _, r := range t.Path {
			for k, b := range r.F.b {
				if b {
					for _, w := range []string{"StructType", "UnionType"} {
						if strings.Contains(k, w) {
							n[w] = true
						}
					}
				}
			}
		}
		c.Obl("names", "getStructTag: both", t.Fn.Pos(), len(n) == 2, "the tags of structures and unions are not both known: %v", n)
	}
}

var ccPkg14 = strings.NewReplacer("modernc.org/cc/v4.", "", "ext:", "", "call:", "")

func (c *Ctx) ccConst14(name string) (int64, bool) {
	v := c.ccConst(name, -1)
	return v, v >= 0
}

func contains14(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// enum14: an enumeration has its own tag, pointers and arrays, and its
// enumerators by their own names.
func (c *Ctx) enum14() {
	fn := c.Anchor("translator", "Translator", "enumSpec")
	if fn == nil {
		return
	}
	t := c.table("kinds", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	a := namedArgs(fn)
	for _, r := range t.Path {
		if len(r.Ret) != 1 {
			continue
		}
		s := specOf(r.St, r.Ret[0])
		if !c.Obl("kinds", "enumSpec", r.Pos, s != nil, "enumSpec does not return a new description: %s", clip(r.Ret[0].K(), 120)) {
			continue
		}
		for _, f := range []string{"Pointers", "InnerArr", "OuterArr"} {
			c.Obl("kinds", "enumSpec: "+f, r.Pos, s.field(f).K() == "."+f+"(*("+a[1].K()+"))", "%s of the description is %s", f, clip(s.field(f).K(), 100))
		}
		tag := s.field("Tag").K()
		c.Obl("kinds", "enumSpec: blessed Tag", r.Pos, strings.Contains(tag, "blessName(") && strings.Contains(tag, a[2].K()), "the tag of an enumeration is %s", clip(tag, 100))
		c.Obl("kinds", "enumSpec: Tag", r.Pos, strings.Contains(tag, "EnumType).Tag("), "the tag of an enumeration is not the one it was declared with, but %s", clip(ccPkg14.Replace(tag), 100))
	}
	n := 0
	for _, it := range t.Iter {
		for i := range it.Ev {
			e := &it.Ev[i]
			if e.Kind != "append" {
				continue
			}
			for _, x := range e.Args {
				s := specOf(it.St, x)
				if s == nil || !strings.HasSuffix(s.T.String(), "CDecl") {
					continue
				}
				n++
				na, ok := isCall14(s.field("Name"), "blessName")
				c.Obl("members", "enumSpec: name", e.Pos, ok && strings.Contains(na[0].K(), ".Token") && strings.Contains(na[0].K(), "ix#") && strings.Contains(na[0].K(), "Enumerators("), "the name of an enumerator is %s", clip(s.field("Name").K(), 120))
			}
		}
	}
	c.Obl("members", "enumSpec: described", fn.Pos(), n > 0, "the enumerators are not described")
}
