package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// C15: the Go struct of a C struct has the members of the C struct, and its
// methods carry the same ones across.

func init() { checks["C15"] = c15 }

func c15(c *Ctx) {
	c.Rule("all: a loop that goes through the members of a structure and makes something of each is not left before the last, but with an error")
	c.Rule("members: for each member of the C struct, in their order, the fields, the statements of PassRef and of Deref and the accessors of a raw struct are written for the same members, under the same names and with the types that the same tips choose")
	c.Rule("methods: the methods of a struct are the complete set for its form, and each of them reads and sets the fields that the struct has")
	c.Rule("form: a struct that is raw or has no members known is written as the C type with the methods for that, any other with its fields and the methods that convert them")
	c.Rule("length: the field with the length of a member is looked up under the names of the struct and the member")
	c.explain = "The writers of struct fields, of PassRef and Deref and of the accessors are interpreted abstractly over a struct of any members. For one member of any kind, name and tips, what each of them adds in an iteration is spelled in terms of the member and compared with what the member calls for; before and after the members, and for the methods that do not go through them, the texts are compared whole."
	c.fields15()
	c.passRef15()
	c.deref15()
	c.accessors15()
	c.sets15()
	c.form15()
	c.length15()
	c.throughAll("all", "the members of a structure", func(pkg, name, file, over string) bool { return over == "CStructSpec.Members" })
	c.Floor("all", 1)
	c.Floor("members", 40)
	c.Floor("methods", 12)
	c.Floor("form", 5)
	c.Floor("length", 2)
}

// s15: a function that goes through the members of a struct.
type s15 struct {
	*conv21
	spec  V
	cname V
	ix    V // in an iteration: the index of the member
	elem  V // and the member
	rows  []V
}

func (c *Ctx) s15(rule, typ, name string, roles ...string) *s15 {
	fn := c.Anchor("generator", typ, name)
	if fn == nil {
		return nil
	}
	t := c.table(rule, fn, func(ip *Interp) {
		setupEmission(c, ip, "writeSpace", "writeStartParams", "writeEndParams", "writeEndStruct", "writeStartFuncBody", "writeEndFuncBody")
	})
	if t == nil {
		return nil
	}
	s := &s15{conv21: &conv21{c: c, rule: rule, fn: fn, t: t, names: map[string]string{}}}
	args := namedArgs(fn)
	if len(args) != len(roles) {
		c.Fail(rule, name+": parameters", fn.Pos(), "%s does not take %s", name, strings.Join(roles, ", "))
		return nil
	}
	for i, r := range roles {
		s.names[args[i].K()] = r
		switch r {
		case "SPEC":
			s.spec = args[i]
		case "CNAME":
			s.cname = args[i]
		}
	}
	s.hook = s.spell15
	seen := map[string]bool{}
	note := func(v V) {
		if v == nil {
			return
		}
		walkV(v, func(x V) {
			if t, ok := x.(*Term); ok && !seen[t.K()] {
				seen[t.K()] = true
				s.rows = append(s.rows, x)
			}
		})
	}
	for _, r := range append(append([]*Row{}, t.Iter...), t.Path...) {
		for _, k := range sortedKeys(r.F.at) {
			note(r.F.at[k])
		}
		for _, e := range r.Ev {
			for _, a := range e.Args {
				note(a)
			}
		}
	}
	return s
}

// spell15 names what belongs to the struct and the member of the iteration.
func (s *s15) spell15(f *Facts, p V) (string, bool) {
	if k, ok := crcOf(p); ok {
		return "‹" + k + "›", true
	}
	if s.elem != nil && p.K() == s.elem.K() {
		return "{M}", true
	}
	switch t := p.(type) {
	case *SeqV:
		if t.Base == nil {
			var a []string
			for _, e := range t.E {
				a = append(a, s.piece(f, e))
			}
			return "[" + strings.Join(a, " ") + "]", true
		}
	case *StructV:
		// a specification with some fields changed
		var from V
		var diff []string
		st := t.T.Underlying().(*types.Struct)
		for i, e := range t.F {
			ft, ok := e.(*Term)
			if ok && ft.Op == "."+st.Field(i).Name() && len(ft.Args) == 1 && (from == nil || from.K() == ft.Args[0].K()) {
				from = ft.Args[0]
				continue
			}
			diff = append(diff, st.Field(i).Name()+"="+s.piece(f, e))
		}
		if from != nil {
			if len(diff) == 0 {
				return s.piece(f, from), true
			}
			sort.Strings(diff)
			return s.piece(f, from) + "{" + strings.Join(diff, " ") + "}", true
		}
	case *Term:
		if tip, ok := s.tipAt(t); ok {
			return "{" + tip + "}", true
		}
		if a, ok := callArgs(p, "MemTipOf"); ok && len(a) == 2 && s.elem != nil && s.piece(f, a[1]) == "{M}" {
			return "{mem of M}", true
		}
		if strings.HasPrefix(t.Op, "as:") && len(t.Args) == 1 {
			return s.piece(f, t.Args[0]), true
		}
		if t.Op == ".tr" && len(t.Args) == 1 && s.piece(f, t.Args[0]) == "{gen}" {
			return "{gen}", true
		}
		if t.Op == "rep" || t.Op == "s:Join" || strings.HasPrefix(t.K(), "lv#") || strings.HasPrefix(t.K(), "stream#") {
			return "{MEMBERS}", true
		}
		if s.elem != nil && (t.Op == ".Name" || t.Op == ".Spec") && len(t.Args) == 1 && s.piece(f, t.Args[0]) == "{M}" {
			return "{M" + t.Op + "}", true
		}
		if a, ok := callArgs(p, "checkName"); ok && len(a) == 1 {
			if x := s.piece(f, a[0]); x == "{GoM}" {
				return x, true
			}
		}
		if a, ok := callArgs(p, "TransformName"); ok && len(a) == 4 && s.elem != nil {
			n, _ := isStrConst(a[1])
			if l, ok := a[3].(*SeqV); ok && n == "type" && len(l.E) == 1 && isTrue(l.E[0]) && s.piece(f, a[2]) == "{M.Name}" {
				return "{GoM}", true
			}
		}
	}
	return "", false
}

// tipAt: v is the tip of a kind for the member of the iteration.
func (s *s15) tipAt(v V) (string, bool) {
	a, ok := callArgs(v, "TipAt")
	if !ok || len(a) != 2 || s.ix == nil || a[1].K() != s.ix.K() {
		return "", false
	}
	for i, n := range []string{"ptr", "type", "mem"} {
		if x, ok := resultOf(peel(a[0]), i); ok && s.tipsOf(x) {
			return n, true
		}
	}
	return "", false
}

// tipsOf: v is the lookup of the tips of the struct.
func (s *s15) tipsOf(v V) bool {
	a, ok := callArgs(v, "TipRxsForSpec")
	if !ok || len(a) != 4 {
		return false
	}
	sc, _ := isStrConst(a[1])
	return sc == "type" && s.cname != nil && peel(a[2]).K() == s.cname.K() && s.piece(nil, a[3]) == "{SPEC}"
}

// at: the iteration goes through the members; its member.
func (s *s15) at(it *Row) bool {
	s.ix, s.elem = nil, nil
	ix, n := it.position()
	if ix == nil {
		return false
	}
	t, ok := n.(*Term)
	if !ok || t.Op != "len" || len(t.Args) != 1 {
		return false
	}
	l, ok := t.Args[0].(*Term)
	if !ok || l.Op != ".Members" || len(l.Args) != 1 || s.piece(nil, l.Args[0]) != "{SPEC}" {
		return false
	}
	s.ix = ix
	et := typeOf(l)
	if sl, ok := et.Underlying().(*types.Slice); ok {
		s.elem = mkTerm(sl.Elem(), "[]", l, ix)
		if p, ok := sl.Elem().Underlying().(*types.Pointer); ok {
			s.elem = mkTerm(p.Elem(), "*", s.elem)
		}
	}
	// the elements are written with or without the dereference
	s.names[mkTerm(et.Underlying().(*types.Slice).Elem(), "[]", l, ix).K()] = "M"
	return s.elem != nil
}

// find: what the function asks that is spelled so.
func (s *s15) find(spelled string) V {
	for _, x := range s.rows {
		if !strings.HasPrefix(x.(*Term).Op, ".") && s.piece(nil, x) == spelled {
			return x
		}
	}
	return nil
}

// each goes through the ways the iterations for a member can go.
func (s *s15) each(want func(q *m15) (string, bool)) {
	if s == nil {
		return
	}
	c, n := s.c, 0
	for i, it := range s.t.Iter {
		if it.Loop.Fn != s.fn && c.isBaseline(it.Loop.Fn) || !s.at(it) {
			continue
		}
		if it.Loop.Early {
			c.Fail(s.rule, s.fn.Name()+": members", it.Pos, "%s leaves the members before the last one", s.fn.Name())
		}
		var st *types.Struct
		if tv := typeOf(s.elem); tv != nil {
			st, _ = tv.Underlying().(*types.Struct)
		}
		if st == nil {
			c.Fail(s.rule, s.fn.Name()+": member", it.Pos, "the members of a struct are not descriptions")
			return
		}
		var script []bool
		for round := 0; round < 4096; round++ {
			q := &m15{q14: &q14{F: it.F, recv: s.elem, st: st, script: script}, s: s, it: it}
			w, what := want(q)
			script = q.script[:q.used]
			if !q.dead && !q.skip {
				n++
				got := s.added(q, it, what)
				if q.raw != "" {
					got, w = strings.ReplaceAll(got, q.raw, "raw"), strings.ReplaceAll(w, q.raw, "raw")
				}
				c.Obl(s.rule, fmt.Sprintf("%s member %d.%d", s.fn.Name(), i+1, round+1), it.Pos, tight21(squeeze(got)) == tight21(squeeze(w)),
					"%s writes %q for a member that calls for %q (where %s)", s.fn.Name(), clip(squeeze(got), 400), clip(squeeze(w), 400), clip(q.F.String(), 300))
			}
			for len(script) > 0 && !script[len(script)-1] {
				script = script[:len(script)-1]
			}
			if len(script) == 0 {
				break
			}
			script = append([]bool(nil), script...)
			script[len(script)-1] = false
		}
	}
	c.Obl(s.rule, s.fn.Name()+": members", s.fn.Pos(), n > 4, "%s does not go through the members of the struct (%d cases)", s.fn.Name(), n)
}

// added: what the iteration writes; helpers as name and source.
func (s *s15) added(q *m15, it *Row, helpers bool) string {
	var sb strings.Builder
	for _, v := range iterText(it) {
		v = it.St.snap(v)
		if helpers {
			if h, ok := pointed15(v); ok {
				sb.WriteString(s.spell(q.F, h.field("Name")) + ": " + s.spell(q.F, h.field("Source")))
			}
			continue
		}
		sb.WriteString(s.spell(q.F, v))
	}
	return sb.String()
}

func pointed15(v V) (*StructV, bool) {
	if t, ok := v.(*Term); ok && t.Op == "ptr" && len(t.Args) == 1 {
		v = t.Args[0]
	}
	h, ok := v.(*StructV)
	return h, ok && h.field("Source") != nil
}

// m15: the questions about a member.
type m15 struct {
	*q14
	s   *s15
	it  *Row
	raw string // the memory tip that is known to be raw
}

// asked: the answer to a question that the function asks, if it does.
func (q *m15) asked(spelled string) bool {
	v := q.s.find(spelled)
	if v == nil {
		return q.ask(mkTerm(types.Typ[types.Bool], "question:"+spelled))
	}
	return q.ask(v)
}

func (q *m15) kindIs(names ...string) bool {
	v := q.s.find("⟨Kind({M.Spec})⟩")
	if v == nil {
		q.s.c.Fail(q.s.rule, q.s.fn.Name()+": kinds", q.it.Pos, "%s does not tell the kinds of members apart", q.s.fn.Name())
		q.skip = true
		return false
	}
	for _, n := range names {
		k, ok := q.s.c.kindConst14(n)
		if !ok {
			q.s.c.Fail(q.s.rule, "kinds", q.it.Pos, "there is no kind %s", n)
			q.skip = true
			return false
		}
		if q.ask(mkEq(v, cInt(k), typeOf(v), nil)) {
			return true
		}
	}
	return false
}

// left: the member is of a type that is not generated.
func (q *m15) left(kinds ...string) bool {
	return q.kindIs(kinds...) && !q.asked("⟨IsAcceptableName(type,⟨GetBase({M.Spec})⟩)⟩")
}

// tips: those the member is translated with; def: the writer has defaults.
func (q *m15) tips(def bool) (ptr, typ, mem string) {
	c := q.s.c
	ptr, typ, mem = "{ptr}", "{type}", "{mem}"
	if def && !q.asked("⟨IsValid({ptr})⟩") {
		ptr = c.strConst("translator", "TipPtrArr", "arr")
	}
	if def && !q.asked("⟨IsValid({type})⟩") {
		typ = c.strConst("translator", "TipTypeNamed", "named")
	}
	if !q.asked("⟨IsValid({mem})⟩") {
		mem = "{mem of M}"
	}
	raw := c.strConst("translator", "TipMemRaw", "raw")
	if v := q.s.find(mem); v != nil && q.ask(mkEq(v, cStr(raw), typeOf(v), nil)) {
		q.raw = mem
		ptr = c.strConst("translator", "TipPtrSRef", "sref")
	}
	return
}

var typed15 = []string{"StructKind", "OpaqueStructKind", "UnionKind", "EnumKind"}

func (c *Ctx) fields15() {
	s := c.s15("members", "Generator", "writeStructMembers", "gen", "WR", "CNAME", "SPEC")
	s.each(func(q *m15) (string, bool) {
		if q.left(typed15...) {
			return "", false
		}
		ptr, typ, _ := q.tips(true)
		switch {
		case q.kindIs("TypeKind"), q.kindIs(typed15...):
			return "{GoM} ⟨TranslateSpec({M.Spec},[" + ptr + " " + typ + "])⟩", false
		case q.kindIs("FunctionKind"):
			q.s.function15(q, ptr, typ)
		}
		return "", false
	})
	if s == nil {
		return
	}
	// behind the members
	s.ix, s.elem = nil, nil
	var self V
	for _, x := range s.rows {
		if a, ok := callArgs(x, "Self"); ok && len(a) == 1 {
			if l, ok := resultOf(peel(a[0]), 2); ok && s.tipsOf(l) {
				self = x
			}
		}
	}
	c.Obl(s.rule, s.fn.Name()+": raw", s.fn.Pos(), self != nil, "%s does not look at the memory tip of the struct itself", s.fn.Name())
	if self == nil {
		return
	}
	for i, r := range s.t.Path {
		if r.Panic {
			continue
		}
		for _, script := range [][]bool{{true}, {false}} {
			q := &q14{F: r.F, script: script}
			empty := q.ask(mkEq(self, cStr(c.strConst("translator", "TipMemRaw", "raw")), typeOf(self), nil))
			if q.used == 0 && !script[0] {
				continue // the path knows
			}
			if v := s.base15(r); v != nil && !empty {
				q2 := &q14{F: q.F, script: []bool{false}}
				empty = !q2.ask(mkLt(cInt(0), mkTerm(types.Typ[types.Int], "len", v)))
				if q.F.evalBool(mkTerm(types.Typ[types.Bool], "eqs", v, cStr(""))) == 0 {
					empty = false
				}
			}
			w := "{MEMBERS}"
			if !empty {
				w += "ref‹crc› *⟨CGoSpec({SPEC},false)⟩\nallocs‹crc› interface{}\n"
			}
			got := s.written(r)
			c.Obl(s.rule, fmt.Sprintf("%s: behind the members %d %v", s.fn.Name(), i+1, script), r.Pos, tight21(squeeze(got)) == tight21(squeeze(w)),
				"%s writes %q around the members where the struct calls for %q", s.fn.Name(), clip(squeeze(got), 300), clip(w, 300))
		}
	}
}

// written: what the path writes.
func (s *s15) written(r *Row) string {
	if v := r.St.streams["$1"]; v != nil {
		return s.spell(r.F, v)
	}
	return ""
}

func (s *s15) base15(r *Row) V {
	for _, x := range s.rows {
		t := x.(*Term)
		if t.Op == ".Base" && len(t.Args) == 1 && s.piece(nil, t.Args[0]) == "⟨CGoSpec({SPEC},false)⟩" {
			return x
		}
	}
	return nil
}

// function15: a member that is a function is written by the writer of arguments.
func (s *s15) function15(q *m15, ptr, typ string) {
	n := 0
	for _, e := range q.it.Ev {
		if e.Kind != "call" || opSuffix("call:"+e.Name) != "writeFunctionAsArg" {
			continue
		}
		n++
		var a []string
		for _, x := range e.Args[1:] {
			a = append(a, s.piece(q.F, q.it.St.snap(x)))
		}
		want := "{WR} {M} " + ptr + " " + typ + " true"
		got := strings.Join(a, " ")
		s.c.Obl(s.rule, s.fn.Name()+": function "+ptr+" "+typ, e.Pos, got == want, "%s hands %q on for a member that is a function, which calls for %q", s.fn.Name(), clip(got, 200), want)
	}
	s.c.Obl(s.rule, s.fn.Name()+": function", q.it.Pos, n == 1, "%s writes a member that is a function %d times", s.fn.Name(), n)
}

func (q *m15) goSpec(ptr, typ string) string {
	return "⟨TranslateSpec({M.Spec},[" + ptr + " " + typ + "])⟩"
}

func (q *m15) skipped() bool {
	return !q.some("Name") || q.left(typed15...)
}

func (c *Ctx) passRef15() {
	s := c.s15("members", "Generator", "getPassRefSource", "gen", "GO", "CNAME", "SPEC")
	s.each(func(q *m15) (string, bool) {
		if q.skipped() {
			return "", false
		}
		ptr, typ, mem := q.tips(false)
		call := "⟨proxyValueFromGo(" + mem + ",x.{GoM}," + q.goSpec(ptr, typ) + ",⟨CGoSpec({M.Spec},false)⟩)⟩"
		text := "var c{M.Name}_allocs *cgoAllocMap\nref‹crc›.{M.Name}, c{M.Name}_allocs = ⟨#0(" + call + ")⟩\nallocs‹crc›.Borrow(c{M.Name}_allocs)\n"
		if q.asked("⟨#1(" + call + ")⟩") {
			text = "if x.{GoM} != nil {\n" + text + "}\n\n"
		}
		return text, false
	})
	s.whole("if x == nil {\nreturn nil, nil\n} else if x.ref‹crc› != nil {\nreturn x.ref‹crc›, nil\n}\n" +
		"mem‹crc› := ⟨getAllocMemoryHelper(⟨CGoSpec({SPEC},false)⟩{InnerArr= OuterArr= Pointers=0})⟩(1)\nref‹crc› := (*⟨CGoSpec({SPEC},false)⟩.Base)(mem‹crc›)\nallocs‹crc› := new(cgoAllocMap)\nallocs‹crc›.Add(mem‹crc›)\n" +
		"{MEMBERS}x.ref‹crc› = ref‹crc›\nx.allocs‹crc› = allocs‹crc›\nreturn ref‹crc›, allocs‹crc›\n")
}

// whole: the text a function returns, around the members.
func (s *s15) whole(want string) {
	if s == nil {
		return
	}
	s.ix, s.elem = nil, nil
	n := 0
	for i, r := range s.t.Path {
		if len(r.Ret) != 1 {
			continue
		}
		n++
		got := s.spell(r.F, r.St.snap(r.Ret[0]))
		s.c.Obl(s.rule, fmt.Sprintf("%s text %d", s.fn.Name(), i+1), r.Pos, tight21(squeeze(got)) == tight21(squeeze(want)),
			"%s writes %q where the method is %q", s.fn.Name(), diff21(squeeze(got), squeeze(want)), diff21(squeeze(want), squeeze(got)))
	}
	s.c.Obl(s.rule, s.fn.Name()+" text", s.fn.Pos(), n > 0, "%s returns no text", s.fn.Name())
}

func (c *Ctx) deref15() {
	s := c.s15("members", "Generator", "getDerefSource", "gen", "GO", "CNAME", "SPEC")
	s.each(func(q *m15) (string, bool) {
		if q.skipped() {
			return "", false
		}
		ptr, typ, mem := q.tips(false)
		return "⟨#0(⟨proxyValueToGo(" + mem + ",x.{GoM},x.ref‹crc›.{M.Name}," + q.goSpec(ptr, typ) + ",⟨CGoSpec({M.Spec},false)⟩,⟨getLenField({SPEC},{M})⟩)⟩)⟩\n", false
	})
	s.whole("if x.ref‹crc› == nil {\nreturn\n}\n{MEMBERS}")
}

func (c *Ctx) accessors15() {
	s := c.s15("members", "Generator", "getRawStructHelpers", "gen", "GO", "CNAME", "SPEC")
	s.each(func(q *m15) (string, bool) {
		if q.skipped() {
			return "", true
		}
		ptr, typ, mem := q.tips(false)
		spec, cgo := q.goSpec(ptr, typ), "⟨CGoSpec({M.Spec},false)⟩"
		fn := s.gt0(q, spec+".Pointers") && q.text15(spec+".Base", "func")
		if fn {
			return "", true
		}
		if !s.listed(q, "⟨Sizes("+spec+".OuterArr)⟩") && !s.listed(q, "⟨Sizes("+spec+".InnerArr)⟩") {
			spec, cgo = spec+"{Pointers="+spec+".Pointers+1}", cgo+"{Pointers="+cgo+".Pointers+1}"
		}
		return "{GO}.Get{GoM}: func (s *{GO}) Get{GoM}() " + spec + " {\n\tvar ret " + spec + "\n\t⟨#0(⟨proxyValueToGo(" + mem + ",ret,&s.{M.Name}," + spec + "," + cgo + ",⟨getLenField({SPEC},{M})⟩)⟩)⟩\n\treturn ret\n}\n", true
	})
}

// gt0: the number spelled so is not zero.
func (s *s15) gt0(q *m15, spelled string) bool {
	for _, x := range s.rows {
		if strings.HasPrefix(x.(*Term).Op, ".Pointers") && s.piece(nil, x) == spelled {
			return !q.ask(mkEq(x, cInt(0), typeOf(x), nil))
		}
	}
	return q.ask(mkTerm(types.Typ[types.Bool], "question:"+spelled))
}

// text15: the text spelled so is s.
func (q *m15) text15(spelled, s string) bool {
	for _, x := range q.s.rows {
		if t := x.(*Term); strings.HasPrefix(t.Op, ".Base") && q.s.piece(nil, x) == spelled {
			return q.ask(mkTerm(types.Typ[types.Bool], "eqs", x, cStr(s)))
		}
	}
	return q.ask(mkTerm(types.Typ[types.Bool], "question:"+spelled))
}

// listed: the list spelled so has elements.
func (s *s15) listed(q *m15, spelled string) bool {
	if v := s.find(spelled); v != nil {
		return q.ask(mkLt(cInt(0), mkTerm(types.Typ[types.Int], "len", v)))
	}
	return q.ask(mkTerm(types.Typ[types.Bool], "question:"+spelled))
}

// sets15: the methods made for a struct, and their texts.
func (c *Ctx) sets15() {
	const rule = "methods"
	const cgo = "⟨CGoSpec({SPEC},true)⟩"
	if s := c.s15(rule, "Generator", "getStructHelpers", "gen", "GO", "CNAME", "SPEC"); s != nil {
		s.helpers15(map[string]string{
			"{GO}.Ref":       "func (x *{GO}) Ref() *" + cgo + "{\nif x == nil {\nreturn nil\n}\nreturn x.ref‹crc›\n}",
			"{GO}.Free":      "func (x *{GO}) Free(){\nif x != nil && x.allocs‹crc› != nil {\nx.allocs‹crc›.(*cgoAllocMap).Free()\nx.ref‹crc› = nil\n}\n}",
			"New{GO}Ref":     "func New{GO}Ref(ref unsafe.Pointer) *{GO}{\nif ref == nil {\nreturn nil\n}\nobj := new({GO})\nobj.ref‹crc› = (*" + cgo + ")(unsafe.Pointer(ref))\nreturn obj\n}",
			"{GO}.PassRef":   "func (x *{GO}) PassRef() (*" + cgo + ", *cgoAllocMap) {\n⟨getPassRefSource({GO},{CNAME},{SPEC})⟩}",
			"{GO}.PassValue": "func (x {GO}) PassValue() (" + cgo + ", *cgoAllocMap) {\n⟨getPassValueSource({GO},{SPEC})⟩}",
			"{GO}.Deref":     "func (x *{GO}) Deref() {\n⟨getDerefSource({GO},{CNAME},{SPEC})⟩}",
		}, nil)
	}
	if s := c.s15(rule, "Generator", "getPassValueSource", "gen", "GO", "SPEC"); s != nil {
		s.whole("if x.ref‹crc› != nil {\nreturn *x.ref‹crc›, nil\n}\nref, allocs := x.PassRef()\nreturn *ref, allocs\n")
	}
	if s := c.s15(rule, "Generator", "getRawStructHelpers", "gen", "GO", "CNAME", "SPEC"); s != nil {
		const alloc = "⟨getAllocMemoryHelper(" + cgo + ")⟩"
		s.helpers15(map[string]string{
			"{GO}.Ref":     "func (x *{GO}) Ref() *" + cgo + "{\nif x == nil {\nreturn nil\n}\nreturn (*" + cgo + ")(unsafe.Pointer(x))\n}",
			"{GO}.Free":    "func (x *{GO}) Free(){\nif x != nil {\nC.free(unsafe.Pointer(x))\n}\n}",
			"New{GO}Ref":   "func New{GO}Ref(ref unsafe.Pointer) *{GO}{\nreturn (*{GO})(ref)\n}",
			"New{GO}":      "func New{GO}() *{GO}{\nreturn (*{GO})(" + alloc + "(1))\n}",
			"{GO}.PassRef": "func (x *{GO}) PassRef() *" + cgo + "{\nif x == nil {\nx = (*{GO})(" + alloc + "(1))\n}\nreturn (*" + cgo + ")(unsafe.Pointer(x))\n}",
		}, func(q *q14) bool {
			for _, x := range s.rows {
				if s.piece(nil, x) == "⟨GetPointers({SPEC})⟩" {
					return !q.ask(mkEq(x, cInt(0), typeOf(x), nil))
				}
			}
			return false
		})
		// accessors are made if and only if they are asked for
		for i, r := range s.t.Path {
			if len(r.Ret) != 1 || isNilV(r.Ret[0]) {
				continue
			}
			want := unk
			for _, x := range s.rows {
				if t := x.(*Term); t.Op == ".StructAccessors" {
					switch r.F.evalBool(x) {
					case 1:
						want = yes
					case 0:
						want = no
					}
				}
			}
			l, list := r.St.snap(r.Ret[0]).(*SeqV)
			list = list && l.Base == nil
			c.Obl(rule, fmt.Sprintf("%s accessors %d", s.fn.Name(), i+1), r.Pos, want == no && list || want == yes && !list,
				"%s makes accessors without the option StructAccessors deciding about it", s.fn.Name())
		}
	}
	if fn := c.fn("generator", "", "getRefCRC"); fn != nil {
		t := c.table(rule, fn, func(ip *Interp) { setupEmission(c, ip) })
		if t == nil {
			return
		}
		for _, r := range t.Path {
			if len(r.Ret) != 1 {
				continue
			}
			n := 0
			walkV(r.Ret[0], func(x V) {
				if tm, ok := x.(*Term); ok && opSuffix(tm.Op) == "String" {
					n++
				}
			})
			c.Obl(rule, "getRefCRC", r.Pos, n > 0, "the number in the names of the fields is not made of the description of the type")
		}
	}
}

// initial: the list a function returns, without what a loop adds.
func (s *s15) initial(r *Row) ([]V, bool) {
	if l, ok := r.St.snap(r.Ret[0]).(*SeqV); ok && l.Base == nil {
		return l.E, true
	}
	for _, it := range s.t.Iter {
		for _, v := range it.Loop.Init {
			if l, ok := it.Be.Head.snap(v).(*SeqV); ok && l.Base == nil && len(l.E) > 0 {
				if _, ok := pointed15(l.E[0]); ok {
					return l.E, true
				}
			}
		}
	}
	return nil, false
}

func (s *s15) helpers15(want map[string]string, none func(q *q14) bool) {
	c := s.c
	s.ix, s.elem = nil, nil
	n := 0
	for i, r := range s.t.Path {
		if len(r.Ret) != 1 {
			continue
		}
		q := &q14{F: r.F}
		con := fmt.Sprintf("%s list %d", s.fn.Name(), i+1)
		if none != nil && none(q) {
			c.Obl(s.rule, con, r.Pos, isNilV(r.Ret[0]), "%s makes methods for a pointer", s.fn.Name())
			continue
		}
		l, ok := s.initial(r)
		c.Obl(s.rule, con, r.Pos, ok, "%s returns a list that is not followed", s.fn.Name())
		if !ok {
			continue
		}
		n++
		got := map[string]int{}
		for _, e := range l {
			h, ok := pointed15(e)
			if !ok {
				c.Fail(s.rule, con, r.Pos, "%s returns a method that is not followed", s.fn.Name())
				continue
			}
			name := s.spell(q.F, h.field("Name"))
			got[name]++
			w, known := want[name]
			src := s.spell(q.F, h.field("Source"))
			c.Obl(s.rule, con+" "+name, r.Pos, known && tight21(squeeze(src)) == tight21(squeeze(w)),
				"%s makes %s as %q where it is %q", s.fn.Name(), name, diff21(squeeze(src), squeeze(w)), diff21(squeeze(w), squeeze(src)))
		}
		for _, k := range sortedKeys(want) {
			c.Obl(s.rule, con+" has "+k, r.Pos, got[k] == 1, "%s makes %s %d times", s.fn.Name(), k, got[k])
		}
	}
	c.Obl(s.rule, s.fn.Name()+" list", s.fn.Pos(), n > 0, "%s makes no methods", s.fn.Name())
}

// form15: which of the two forms a struct takes.
func (c *Ctx) form15() {
	const rule = "form"
	s := c.s15(rule, "Generator", "writeStructTypedef", "gen", "WR", "DECL", "RAW", "SEEN")
	if s == nil {
		return
	}
	n := 0
	for i, r := range s.t.Path {
		if r.Panic {
			continue
		}
		calls := map[string][]string{}
		for _, e := range r.St.tr {
			if e.Kind != "call" {
				continue
			}
			var a []string
			for _, x := range e.Args {
				if p := s.piece(r.F, r.St.snap(x)); p != "{gen}" {
					a = append(a, p)
				}
			}
			name := opSuffix("call:" + e.Name)
			calls[name] = append(calls[name], strings.Join(a, " "))
		}
		fields, methods, raws := calls["writeStructMembers"], calls["getStructHelpers"], calls["getRawStructHelpers"]
		text := squeeze(s.written(r))
		con := fmt.Sprintf("%s %d", s.fn.Name(), i+1)
		if len(fields)+len(methods)+len(raws) == 0 && text == "" {
			continue // seen before, or without a name
		}
		n++
		const cname = "⟨#0(⟨getName({DECL})⟩)⟩"
		const goname = "⟨TransformName(type," + cname + ",⟨nil⟩)⟩"
		q := &q14{F: r.F}
		isRaw := q.F.evalBool(namedArgs(s.fn)[3]) == 1
		if !isRaw {
			for _, x := range s.rows {
				if s.piece(nil, x) == "⟨IsComplete({DECL}.Spec)⟩" {
					isRaw = q.F.evalBool(x) != 1
				}
			}
		}
		if isRaw {
			c.Obl(rule, con, r.Pos, len(fields)+len(methods) == 0 && len(raws) == 1 && nils15(raws[0]) == nils15(goname+" "+cname+" {DECL}.Spec"),
				"a struct in raw form has fields %v and methods %v, %v", fields, methods, raws)
			c.Obl(rule, con+" text", r.Pos, strings.HasSuffix(nils15(text), nils15("type "+goname+" C.⟨CGoName({DECL}.Spec)⟩")), "a struct in raw form is written as %q", clip(text, 300))
			continue
		}
		c.Obl(rule, con, r.Pos, len(fields) == 1 && len(raws) == 0 && len(methods) == 1 && nils15(fields[0]) == "{WR} "+cname+" {DECL}.Spec" && nils15(methods[0]) == nils15(goname+" "+cname+" {DECL}.Spec"),
			"a struct with fields has the fields %v and the methods %v, %v", fields, methods, raws)
		c.Obl(rule, con+" text", r.Pos, strings.Contains(nils15(text), nils15("type "+goname+" struct {")), "a struct with fields is written as %q", clip(text, 300))
	}
	c.Obl(rule, s.fn.Name(), s.fn.Pos(), n >= 2, "%s writes no structs (%d forms)", s.fn.Name(), n)
}

// nils15: no further arguments, however they are spelled.
func nils15(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, ",⟨nil⟩)", ")"), ",[])", ")")
}

func (c *Ctx) length15() {
	const rule = "length"
	fn := c.fn("generator", "", "getLenField")
	if fn == nil {
		c.Fail(rule, "getLenField", token.NoPos, "there is no getLenField")
		return
	}
	s := c.s15(rule, "", "getLenField", "gen", "SPEC", "M")
	if s == nil {
		return
	}
	found := 0
	for i, r := range s.t.Path {
		if len(r.Ret) != 1 {
			continue
		}
		con := fmt.Sprintf("getLenField %d", i+1)
		if v, ok := isStrConst(r.Ret[0]); ok {
			// there are none
			known := false
			for _, x := range r.F.boolTerms() {
				if strings.Contains(x.K(), ".lenFields(") && (x.Op == "isnil") == r.F.b[x.K()] {
					known = true
				}
			}
			c.Obl(rule, con, r.Pos, v == "" && known, "there is the length field %q without a look at the rules", v)
			continue
		}
		found++
		got := lookup15(s, r)
		c.Obl(rule, con, r.Pos, got == "{gen}.lenFields {SPEC}.Typedef.{M}", "the length field is looked up as %q", got)
	}
	c.Obl(rule, "getLenField", fn.Pos(), found > 0, "the length field is not looked up")
}

func lookup15(s *s15, r *Row) string {
	t, ok := peel(r.Ret[0]).(*Term)
	if ok && t.Op == "#0" && len(t.Args) == 1 {
		t, ok = t.Args[0].(*Term)
	}
	if !ok || len(t.Args) < 2 {
		return s.spell(r.F, r.Ret[0])
	}
	return s.piece(r.F, t.Args[0]) + " " + s.spell(r.F, t.Args[1])
}
