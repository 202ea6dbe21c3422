package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = c18 }

func c18(c *Ctx) {
	c.explain = "The functions that write constants are interpreted on every path into what one iteration writes for one constant and into the text around it. The name, the value and the type of every line are compared with the fields of the same constant; the iterations that write nothing have to know one of the permitted reasons. What the translator records for an enumerator is decided the same way."
	c.Rule("all: a loop that goes through macros or the enumerators of an enumeration and makes something of each is not left before the last, but with an error")
	c.Rule("recorded: every enumerator is recorded once, in order, under its own name and with its own value: what the C compiler makes of it, its name in C, or its own expression, as the configuration asks")
	c.Rule("member: the line written for a constant gives the constant's own name and its own value; iota stands for a value of 0 on the first line only, and no line leaves the value out")
	c.Rule("dropped: a constant is left out only if its name is not accepted, is empty or was written before, or if there is nothing but the name to give it as value")
	c.Rule("once: a name that is written is remembered as written")
	c.Rule("block: the constants are the contents of a const block that is opened directly before the first and closed directly after the last")
	c.Rule("type: every constant of an enum with a type name is given the type; the type given to a constant is one declared above it on every path, over the integer type of the same enum, unsigned exactly if the enum's tip says so")
	for _, n := range []string{"expandEnum", "expandEnumAnonymous", "writeDefinesGroup", "writeConstDeclaration"} {
		if fn := c.Anchor("generator", "Generator", n); fn != nil {
			c.c18emit(n, fn)
		}
	}
	if fn := c.Anchor("translator", "Translator", "enumSpec"); fn != nil {
		c.c18record(fn)
	}
	c.throughAll("all", "macros or enumerators", func(pkg, name, file, over string) bool {
		return over == "CEnumSpec.Members" || file == "gen_const.go" || strings.HasSuffix(name, "Defines")
	})
	c.Floor("all", 1)
	c.Floor("member", 10)
	c.Floor("dropped", 5)
	c.Floor("type", 4)
}

// constName: the constant whose transformed name a value is.
func constName(v V, target string) (V, bool) {
	a, ok := callArgs(v, "TransformName")
	if !ok || len(a) < 3 {
		return nil, false
	}
	if s, ok := isStrConst(a[1]); !ok || s != target {
		return nil, false
	}
	n, ok := peel(a[2]).(*Term)
	if !ok || n.Op != ".Name" || len(n.Args) != 1 {
		return nil, false
	}
	return n.Args[0], true
}

// verb removes the formatting of a value as it is.
func verb(v V) V {
	for {
		t, ok := peel(v).(*Term)
		if !ok || len(t.Args) != 1 || t.Op != "fmt:%v" && t.Op != "fmt:%s" && !strings.HasPrefix(t.Op, "str:") {
			return peel(v)
		}
		v = t.Args[0]
	}
}

// nothing: whether a path knows that a field is nil or empty.
func (r *Row) nothing(field V) tri {
	k := field.K()
	if b, ok := r.F.b["isnil("+k+")"]; ok {
		return triOf(b)
	}
	if s, ok := r.F.eq[k]; ok {
		return triOf(s == "")
	}
	if iv, ok := r.F.iv["len("+k+")"]; ok {
		if iv.lo > 0 {
			return no
		}
		if iv.hi <= 0 {
			return yes
		}
	}
	if b, ok := r.F.b["eqs("+k+`,"")`]; ok {
		return triOf(b)
	}
	return unk
}

type constLine struct {
	decl       V // the constant it is about
	typ, value V
	iota       bool
	kw         string
}

// constLineOf takes `name [type] = value` apart.
func constLineOf(l tline) (cl constLine, why string) {
	segs := l.segs
	if len(segs) > 0 {
		if s, ok := isStrConst(segs[0]); ok {
			cl.kw = strings.TrimSpace(s)
			if cl.kw == "const" || cl.kw == "var" {
				segs = segs[1:]
			}
		}
	}
	if len(segs) == 0 {
		return cl, "it has no name"
	}
	d, ok := constName(verb(segs[0]), "const")
	if !ok {
		return cl, "it does not start with the name of a constant"
	}
	cl.decl = d
	var mid []V
	eq := false
	for _, s := range segs[1:] {
		k, isC := isStrConst(s)
		switch {
		case isC && !eq && strings.Contains(k, "="):
			i := strings.IndexByte(k, '=')
			if strings.TrimSpace(k[:i]) != "" {
				return cl, "there is something before the ="
			}
			eq = true
			if v := strings.TrimSpace(k[i+1:]); v == "iota" {
				cl.iota = true
			} else if v != "" {
				return cl, "its value is the constant " + v
			}
		case isC && strings.TrimSpace(k) == "":
		case isC && eq && strings.TrimSpace(k) == "iota":
			cl.iota = true
		case isC:
			return cl, "it contains " + k
		case !eq:
			mid = append(mid, s)
		case cl.value == nil && !cl.iota:
			cl.value = verb(s)
		default:
			return cl, "more than one value is written"
		}
	}
	if len(mid) > 1 {
		return cl, "more than a type is between name and value"
	}
	if len(mid) == 1 {
		cl.typ = verb(mid[0])
	}
	if cl.value == nil && !cl.iota && cl.kw != "var" {
		return cl, "no value is written"
	}
	return cl, ""
}

func codeLines(ls []tline) (out []tline) {
	for _, l := range ls {
		var segs []V
		for _, s := range l.segs {
			if k, ok := isStrConst(s); !ok || k != "" {
				segs = append(segs, s)
			}
		}
		l.segs = segs
		if l.rep == "" && (strings.TrimSpace(l.s) == "" || strings.HasPrefix(strings.TrimSpace(l.s), "//")) {
			continue
		}
		out = append(out, l)
	}
	return out
}

func (c *Ctx) c18emit(name string, fn *ssa.Function) {
	tb := c.table("member", fn, func(ip *Interp) {
		setupEmission(c, ip, "iotaOnZero", "writeStartConst", "writeEndConst", "writeSpace")
		withEvents(ip, func(e *Event) bool { return e.Kind == "write" || e.Kind == "mapset" || e.Kind == "mapstore" })
	})
	if tb == nil {
		return
	}
	enum := strings.HasPrefix(name, "expandEnum")
	types := map[string]V{}
	for _, r := range tb.Iter {
		ls := codeLines(textLines(mkCat(iterText(r)...)))
		if len(ls) == 0 {
			c.Obl("dropped", name, r.Pos, r.mayDrop(), "%s writes nothing for a constant when [%s]", name, clip(r.F.String(), 300))
			continue
		}
		if cl, _ := constLineOf(ls[0]); cl.decl != nil && r.empty18(cl.decl) {
			continue // no such constant is recorded
		}
		if !c.Obl("member", name+" lines", r.Pos, len(ls) == 1, "%s writes %d lines for one constant: %s", name, len(ls), clip(ls[0].s, 200)) {
			continue
		}
		cl := c.c18line(name, r, ls[0])
		if cl == nil {
			continue
		}
		bare := cl.typ == nil
		if cl.typ != nil {
			types[cl.typ.K()] = cl.typ
			if s, ok := isStrConst(cl.typ); ok && s == "" {
				bare = true
			}
		}
		if enum && bare {
			c.Obl("type", name+" given", r.Pos, r.noType18(), "%s writes a constant without the type of its enum when [%s]", name, clip(r.F.String(), 300))
		}
		if enum {
			seen := false
			for i := range r.Ev {
				e := &r.Ev[i]
				if e.Kind != "mapset" && e.Kind != "mapstore" || len(e.Args) < 3 {
					continue
				}
				if d, ok := constName(verb(e.Args[1]), "const"); ok && d.K() == cl.decl.K() {
					if b, ok := isBoolConst(e.Args[2]); !ok || b {
						seen = true
					}
				}
			}
			c.Obl("once", name, r.Pos, seen, "%s does not remember a name that it writes: two constants of this name can be written", name)
		}
	}
	for _, r := range tb.Path {
		var ls []tline
		if v := r.St.streams["$1"]; v != nil {
			ls = codeLines(textLines(v))
		}
		if len(tb.Iter) == 0 {
			if len(ls) == 0 {
				c.Obl("dropped", name, r.Pos, r.mayDrop(), "%s writes nothing for a constant when [%s]", name, clip(r.F.String(), 300))
				continue
			}
			if c.Obl("member", name+" lines", r.Pos, len(ls) == 1, "%s writes %d lines for one constant", name, len(ls)) {
				c.c18line(name, r, ls[0])
			}
			continue
		}
		at := -1
		for i, l := range ls {
			if l.rep != "" {
				at = i
			}
		}
		if !c.Obl("block", name, r.Pos, at > 0 && at+1 < len(ls) && strings.TrimSpace(ls[at-1].s) == "const (" && strings.TrimSpace(ls[at+1].s) == ")" && at+2 == len(ls),
			"%s: the constants are not the whole of one const block at the end of the text", name) {
			continue
		}
		if !enum {
			c.Obl("block", name+" before", r.Pos, at == 1, "%s writes other code before the const block", name)
			continue
		}
		// the types
		var decls []V
		for _, l := range ls[:at-1] {
			var n, def V
			if len(l.segs) == 4 {
				if s, ok := isStrConst(l.segs[0]); ok && s == "type " {
					n, def = verb(l.segs[1]), l.segs[3]
				}
			}
			if !c.Obl("type", name+" line", r.Pos, n != nil, "%s writes %q before the const block", name, clip(l.s, 160)) {
				continue
			}
			c.c18under(name, r, def, decls)
			decls = append(decls, n)
		}
		for _, ty := range types {
			if s, ok := isStrConst(ty); ok && s == "" {
				continue
			}
			ok := !c.typed18(r, ty)
			for _, d := range decls {
				if r.F.eqVals(d, ty) == yes || r.F.b["s:Equal("+d.K()+","+ty.K()+")"] || r.F.b["s:Equal("+ty.K()+","+d.K()+")"] {
					ok = true
				}
			}
			c.Obl("type", name+" declared", r.Pos, ok, "%s gives constants the type %s, which is not declared when [%s]", name, clip(ty.K(), 120), clip(r.F.String(), 300))
		}
	}
}

// typed18: whether constants written on the path can have the type: a name
// taken from a declaration is given only to a typedef's constants.
func (c *Ctx) typed18(r *Row, ty V) bool {
	d, ok := constName(ty, "type")
	if !ok {
		return true
	}
	if b, ok := r.F.b[".IsTypedef("+d.K()+")"]; ok && !b {
		return false
	}
	iv := r.F.interval(mkTerm(nil, "len", ty))
	return iv.hi > 0
}

// empty18: neither a value nor an expression.
func (r *Row) empty18(d V) bool {
	return r.nothing(mkTerm(nil, ".Value", d)) == yes && r.nothing(mkTerm(nil, ".Expression", d)) == yes
}

// noType18: the path knows that there is no typedef or no name for it.
func (r *Row) noType18() bool {
	if b, ok := r.F.b[".IsTypedef(*($2))"]; ok && !b {
		return true
	}
	for k, iv := range r.F.iv {
		if t, ok := r.F.at[k].(*Term); ok && t.Op == "len" && iv.hi <= 0 {
			if d, ok := constName(verb(t.Args[0]), "type"); ok && d.K() == "*($2)" {
				return true
			}
		}
	}
	return false
}

func (r *Row) mayDrop() bool {
	for k, b := range r.F.b {
		t, ok := r.F.at[k].(*Term)
		if !ok {
			continue
		}
		switch {
		case strings.HasPrefix(t.Op, "call:") && opSuffix(t.Op) == "IsAcceptableName" && !b:
			return true
		case t.Op == "get" && b && len(t.Args) == 2:
			if _, ok := constName(verb(t.Args[1]), "const"); ok {
				return true
			}
		case t.Op == "has" && b && len(t.Args) == 2:
			if _, ok := constName(verb(t.Args[1]), "const"); ok {
				return true
			}
		case t.Op == ".IsDefine" && !b:
			return true
		case t.Op == "eqs" && b && len(t.Args) == 2:
			// only the name itself as value
			for i := range t.Args {
				x, ok := peel(t.Args[i]).(*Term)
				d, ok2 := constName(verb(t.Args[1-i]), "const")
				if ok && ok2 && x.Op == ".Expression" && x.Args[0].K() == d.K() && r.nothing(mkTerm(nil, ".Value", d)) == yes {
					return true
				}
			}
		}
	}
	// no name, no value
	for k, iv := range r.F.iv {
		t, ok := r.F.at[k].(*Term)
		if !ok || t.Op != "len" || iv.hi > 0 {
			continue
		}
		if _, ok := constName(verb(t.Args[0]), "const"); ok {
			return true
		}
		if x, ok := peel(t.Args[0]).(*Term); ok && x.Op == ".Expression" && r.nothing(mkTerm(nil, ".Value", x.Args[0])) == yes {
			return true
		}
	}
	return false
}

func (c *Ctx) c18line(name string, r *Row, l tline) *constLine {
	cl, why := constLineOf(l)
	if cl.decl == nil {
		c.Fail("member", name, r.Pos, "%s writes the line %q: %s", name, clip(l.s, 200), why)
		return nil
	}
	val, expr := mkTerm(nil, ".Value", cl.decl), mkTerm(nil, ".Expression", cl.decl)
	nv, ne := r.nothing(val), r.nothing(expr)
	if r.Loop != nil {
		c.Obl("member", name+" own", r.Pos, strings.Contains(cl.decl.K(), "ix#"+r.Loop.Key+"#"), "%s writes the line of another constant than the current one: %s", name, clip(l.s, 160))
	} else {
		c.Obl("member", name+" own", r.Pos, cl.decl.K() == "*($2)", "%s writes the line of another declaration: %s", name, clip(l.s, 160))
	}
	if !c.Obl("member", name+" form", r.Pos, why == "", "%s writes the line %q: %s", name, clip(l.s, 200), why) {
		return &cl
	}
	is := func(k string) bool { return cl.value != nil && cl.value.K() == k }
	switch {
	case cl.kw == "var":
		c.Obl("member", name+" variable", r.Pos, nv == yes && ne == yes, "%s declares a variable although the constant has a value", name)
	case cl.iota:
		zero := false
		for k, s := range r.F.eq {
			if x := r.F.at[k]; x != nil && s == "0" {
				y := verb(x).K()
				zero = zero || nv == no && y == val.K() || nv == yes && y == expr.K()
			}
		}
		first := false
		for k, iv := range r.F.iv {
			if r.Loop != nil && k == "ix#"+r.Loop.Key+"#" && iv.lo == 0 && iv.hi == 0 {
				first = true
			}
		}
		c.Obl("member", name+" iota", r.Pos, zero && first, "%s writes iota for a constant that is not known to be both 0 and on the first line", name)
	case nv == no:
		c.Obl("member", name+" value", r.Pos, is(val.K()), "%s writes %s as the value of a constant whose value is known", name, clip(cl.value.K(), 160))
	case nv == yes && ne == no:
		c.Obl("member", name+" expression", r.Pos, is(expr.K()), "%s writes %s as the value of a constant that has an expression", name, clip(cl.value.K(), 160))
	default:
		c.Fail("member", name+" value", r.Pos, "%s writes %s without knowing that the constant has it", name, clip(cl.value.K(), 160))
	}
	return &cl
}

// c18under: the type under a declared type.
func (c *Ctx) c18under(name string, r *Row, def V, decls []V) {
	d := verb(def)
	for _, x := range decls {
		if d.K() == x.K() {
			return
		}
	}
	// the integer type of the enum
	uns := r.F.factBool(func(v V) bool {
		t, ok := v.(*Term)
		if !ok || opSuffix(t.Op) != "HasTip" || len(t.Args) < 2 {
			return false
		}
		s, ok := isStrConst(t.Args[1])
		return ok && s == "unsigned"
	})
	own := func(v V) bool {
		a, ok := callArgs(v, "TranslateSpec")
		return ok && len(a) > 1 && strings.Contains(a[1].K(), ".Type(as:") && strings.Contains(a[1].K(), ".Spec(*($2))")
	}
	ok, got := own(d), no
	if st, is := d.(*StructV); is {
		ok, got = true, unk
		for i := range st.F {
			v := st.F[i]
			if b, is := isBoolConst(v); is && v == st.field("Unsigned") {
				got = triOf(b)
				continue
			}
			t, is := v.(*Term)
			ok = ok && is && len(t.Args) == 1 && own(t.Args[0])
		}
	}
	c.Obl("type", name+" underlying", r.Pos, ok, "%s declares the enum's type as %s, not as the enum's integer type", name, clip(d.K(), 160))
	c.Obl("type", name+" unsigned", r.Pos, !ok || (got == yes) == (uns == yes), "%s: the enum's type is made unsigned: %v, the enum's tip says so: %v", name, got == yes, uns == yes)
}

func (c *Ctx) c18record(fn *ssa.Function) {
	tb := c.table("recorded", fn, func(ip *Interp) {
		setupEmission(c, ip)
	})
	if tb == nil {
		return
	}
	n := 0
	kind := c.strConst("translator", "ConstEnum", "enum")
	for _, r := range tb.Iter {
		if !strings.HasPrefix(r.Loop.Key, "len(ext:(*modernc.org/cc/v4.EnumType).Enumerators(") {
			continue
		}
		list := strings.TrimSuffix(strings.TrimPrefix(r.Loop.Key, "len("), ")")
		el := "[](" + list + ",ix#" + r.Loop.Key + "#)"
		n++
		var ms []*StructV
		for i := range r.Ev {
			e := &r.Ev[i]
			if e.Kind != "append" {
				continue
			}
			for _, a := range e.Args {
				if s := specOf(r.St, a); s != nil && strings.HasSuffix(s.T.String(), "translator.CDecl") {
					ms = append(ms, s)
				}
			}
		}
		if !c.Obl("recorded", "enumerator once", r.Pos, len(ms) == 1, "%d members are recorded for one enumerator when [%s]", len(ms), clip(r.F.String(), 200)) {
			continue
		}
		nm, vl, ex := ms[0].field("Name"), ms[0].field("Value"), ms[0].field("Expression")
		c.Obl("recorded", "enumerator name", r.Pos, nm != nil && strings.Contains(nm.K(), "SrcStr(&.Token("+el+"))") && opSuffix(topOp(nm)) == "blessName", "the member of an enumerator is recorded as %s", clip(nm.K(), 160))
		mode := ""
		for k, v := range r.F.eq {
			if strings.HasPrefix(k, "get(.constRules(") && strings.HasSuffix(k, `,"`+kind+`")`) {
				mode = v
			}
		}
		if ex == nil || vl == nil {
			c.Fail("recorded", "enumerator value", r.Pos, "a member is recorded without the fields for its value")
			continue
		}
		_, noEx := isStrConst(ex)
		isVal := noEx && !isNilV(vl) && opSuffix(topOp(vl)) == "Value" && strings.Contains(vl.K(), "(*("+el+")")
		switch {
		case mode == "cgo":
			ps := pieces(ex, nil)
			pre := ""
			if len(ps) == 2 {
				pre, _ = isStrConst(ps[0])
			}
			c.Obl("recorded", "enumerator in cgo mode", r.Pos, isNilV(vl) && pre == "C." && ps[1].K() == nm.K(), "in cgo mode an enumerator is recorded as %s", clip(ex.K(), 160))
		case mode == "expand" && !isVal:
			t, _ := ex.(*Term)
			ok := isNilV(vl) && t != nil && t.Op == "s:Join" && len(t.Args) == 2 && strings.Contains(t.Args[0].K(), "NodeTokens(.ConstantExpression(*("+el+")))")
			if ok {
				sep, isC := isStrConst(t.Args[1])
				ok = isC && strings.TrimSpace(sep) == ""
			}
			c.Obl("recorded", "enumerator expression", r.Pos, ok, "an enumerator is recorded with the expression %s", clip(ex.K(), 160))
		case mode == "expand":
			empty := false
			for k, iv := range r.F.iv {
				empty = empty || strings.HasPrefix(k, "len(") && strings.Contains(k, "NodeTokens(.ConstantExpression(*("+el+")))") && iv.hi <= 0
			}
			none := r.F.factBool(func(v V) bool {
				t, ok := v.(*Term)
				return ok && t.Op == "lt" && strings.Contains(t.K(), "NodeTokens(")
			})
			c.Obl("recorded", "enumerator without expression", r.Pos, empty || none == no, "the expression of an enumerator is not recorded although expressions are asked for")
		default:
			c.Obl("recorded", "enumerator value", r.Pos, isVal, "an enumerator is recorded with the value %s and the expression %s", clip(vl.K(), 160), clip(ex.K(), 100))
		}
	}
	c.Obl("recorded", "enumerators", fn.Pos(), n > 0, "enumSpec has no loop over the enumerators")
}

func topOp(v V) string {
	if t, ok := peel(v).(*Term); ok {
		return t.Op
	}
	return ""
}
