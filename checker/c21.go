package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: a value crosses between Go and C by the conversion of its kind, and the
// conversion reads the value it is handed and fills the place it is for.
func init() { checks["C21"] = c21 }

// conv21 is the run of a function that writes a conversion.
type conv21 struct {
	c     *Ctx
	rule  string
	fn    *ssa.Function
	t     *Table
	names map[string]string // what the parameters are called in the texts
	goV   V
	cgoV  V
	tip   V
	st    *types.Struct
	str   [2]V // the kinds of strings the tables of helpers know
	hook  func(f *Facts, p V) (string, bool)
}

func (c *Ctx) conv21(rule, name string) *conv21 {
	fn := c.Anchor("generator", "Generator", name)
	if fn == nil {
		return nil
	}
	t := c.table(rule, fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return nil
	}
	v := &conv21{c: c, rule: rule, fn: fn, t: t, names: map[string]string{}}
	args := namedArgs(fn)
	var strs []string
	for i, p := range fn.Params {
		switch {
		case strings.HasSuffix(p.Type().String(), "translator.GoTypeSpec"):
			v.goV = args[i]
			v.st, _ = p.Type().Underlying().(*types.Struct)
			v.names[args[i].K()] = "GO"
		case strings.HasSuffix(p.Type().String(), "translator.CGoSpec"):
			v.cgoV = args[i]
			v.names[args[i].K()] = "CGO"
		case strings.HasSuffix(p.Type().String(), "translator.Tip"):
			v.tip = args[i]
			v.names[args[i].K()] = "TIP"
		case isStringType(p.Type()):
			strs = append(strs, args[i].K())
		case i == 0:
			v.names[args[i].K()] = "gen"
		}
	}
	want := map[int][]string{1: {"NAME"}, 2: {"VAR", "PTR"}, 3: {"VAR", "PTR", "LEN"}}[len(strs)]
	if v.goV == nil || v.cgoV == nil || v.st == nil || want == nil {
		c.Fail(rule, name+": parameters", fn.Pos(), "%s does not take names, a memory tip and the specifications of the Go and the C type", name)
		return nil
	}
	for i, s := range strs {
		v.names[s] = want[i]
	}
	return v
}

// spell21 writes a text in terms of the parameters.
func (v *conv21) spell(f *Facts, x V) string {
	var sb strings.Builder
	for _, p := range pieces(x, nil) {
		sb.WriteString(v.piece(f, p))
	}
	return sb.String()
}

// comments say nothing to the compiler
var comments21 = regexp.MustCompile(`(?m)^//.*$`)

var callPrefix21 = regexp.MustCompile(`^(call:|s:)?(.*[./)])?`)

func (v *conv21) piece(f *Facts, p V) string {
	p = peel(p)
	if v.hook != nil {
		if s, ok := v.hook(f, p); ok {
			return s
		}
	}
	if s, ok := isStrConst(p); ok {
		return s
	}
	if b, ok := isBoolConst(p); ok {
		return fmt.Sprint(b)
	}
	if n, ok := v.names[p.K()]; ok {
		return "{" + n + "}"
	}
	if f != nil {
		if s, ok := f.eq[p.K()]; ok {
			return s
		}
	}
	switch t := p.(type) {
	case *Iface:
		return v.piece(f, t.X)
	case *Cat:
		return v.spell(f, t)
	case *Ptr:
		return "⟨" + clip(noIDs(p.K()), 100) + "⟩"
	case *StructV:
		// a specification made for one use: what differs from the one handed in
		var sb []string
		for i, e := range t.F {
			if n := t.T.Underlying().(*types.Struct).Field(i).Name(); v.cgoV != nil && types.Identical(t.T, typeOf(v.cgoV)) {
				if e.K() != "."+n+"("+v.cgoV.K()+")" {
					sb = append(sb, n+"="+v.piece(f, e))
				}
			} else {
				sb = append(sb, n+"="+v.piece(f, e))
			}
		}
		if v.cgoV != nil && types.Identical(t.T, typeOf(v.cgoV)) {
			if len(sb) == 0 {
				return "{CGO}"
			}
			return "{CGO " + strings.Join(sb, " ") + "}"
		}
		return "{" + strings.Join(sb, " ") + "}"
	case *Term:
		switch {
		case t.Op == "str" || strings.HasPrefix(t.Op, "str:") || t.Op == "itoa":
			return v.piece(f, t.Args[0])
		case strings.HasPrefix(t.Op, "fmt:"):
			return v.piece(f, t.Args[0])
		case t.Op == "ptr" && len(t.Args) == 1:
			return v.piece(f, t.Args[0])
		case t.Op == "repeat" && len(t.Args) == 2:
			s, _ := isStrConst(t.Args[0])
			return s + "×" + v.piece(f, t.Args[1])
		case t.Op == "*" && len(t.Args) == 1:
			return v.piece(f, t.Args[0])
		case strings.HasPrefix(t.Op, ".") && len(t.Args) == 1:
			if t.Op == ".Name" {
				return v.piece(f, t.Args[0])
			}
			return v.piece(f, t.Args[0]) + t.Op
		case t.Op == "[:]" || strings.HasPrefix(t.Op, "slice"):
			if len(t.Args) >= 3 && t.Args[1] != nil && t.Args[2] != nil {
				if _, n, ok := lin(t.Args[1]); ok && n == 0 && v.piece(f, t.Args[2]) == "⟨LastIndex("+v.piece(f, t.Args[0])+",.)⟩+1" {
					return strings.TrimSuffix(v.piece(f, t.Args[0]), "}") + " to the last .}"
				}
			}
			var a []string
			for _, x := range t.Args {
				if x == nil {
					a = append(a, "")
					continue
				}
				a = append(a, v.piece(f, x))
			}
			return "slice(" + strings.Join(a, ",") + ")"
		}
		if x, n, ok := lin(p); ok && x != nil && n != 0 {
			return fmt.Sprintf("%s%+d", v.piece(f, x), n)
		}
		if x, n, ok := lin(p); ok && x == nil {
			return fmt.Sprint(n)
		}
		name := callPrefix21.ReplaceAllString(t.Op, "")
		if name == "String" && len(t.Args) == 1 {
			return v.piece(f, t.Args[0])
		}
		var a []string
		for _, x := range t.Args {
			if s := v.piece(f, x); s != "{gen}" {
				a = append(a, s)
			}
		}
		return "⟨" + name + "(" + strings.Join(a, ",") + ")⟩"
	}
	if x, n, ok := lin(p); ok && x == nil {
		return fmt.Sprint(n)
	}
	return "⟨" + clip(p.K(), 80) + "⟩"
}

// q21 adds to the questions of one path those about conversions.
type q21 struct {
	*q14
	v *conv21
}

func (q q21) isString() bool { return q.asks("IsGoString") }

func (q q21) asks(method string) bool {
	var t V
	for _, r := range q.v.t.Path {
		for _, b := range r.F.boolTerms() {
			if u := b; strings.HasSuffix(u.Op, ")."+method) && len(u.Args) == 1 && u.Args[0].K() == q.v.goV.K() {
				t = b
			}
		}
	}
	if t == nil {
		q.q14.skip = true
		q.v.c.Fail(q.v.rule, q.v.fn.Name()+": "+method, q.v.fn.Pos(), "%s never asks %s of the Go type", q.v.fn.Name(), method)
		return false
	}
	return q.ask(t)
}

// exactString: the Go type is string itself, without a name of its own.
func (q q21) exactString() bool {
	found := false
	for _, t := range q.v.plainStrings() {
		found = true
		if q.ask(t) {
			return true
		}
	}
	if !found {
		q.q14.skip = true
	}
	return false
}

func (v *conv21) plainStrings() (out []V) {
	seen := map[string]bool{}
	for _, r := range v.t.Path {
		for _, b := range r.F.boolTerms() {
			u := b
			if !strings.HasPrefix(u.Op, "eq") || len(u.Args) != 2 || seen[u.K()] {
				continue
			}
			for i := 0; i < 2; i++ {
				if u.Args[i].K() != v.goV.K() {
					continue
				}
				if s, ok := u.Args[1-i].(*StructV); ok {
					if n, ok := isStrConst(s.field("Base")); ok && n == "string" {
						seen[u.K()] = true
						out = append(out, b)
					}
				}
			}
		}
	}
	return
}

func (q q21) raw() bool {
	return q.ask(mkTerm(types.Typ[types.Bool], "eqs", q.v.tip, cStr("raw")))
}

// plain: memory of the type means the same in Go and in C.
func (q q21) plain() bool { return q.raw() || q.asks("IsPlain") || q.asks("IsPlainKind") }

func (q q21) more(f string, n int64) bool {
	x := q.val(f)
	iv := q.F.interval(x)
	if iv.lo > n {
		return true
	}
	if iv.hi <= n {
		return false
	}
	return q.ask(mkLt(cInt(n), x))
}

// scattered: the value's parts lie apart, or have to be converted one by one.
func (q q21) scattered() bool {
	if !q.plain() {
		return q.more("Slices", 0) || q.some("OuterArr")
	}
	return q.more("Slices", 0) && q.some("OuterArr") || q.more("Slices", 1)
}

func (q q21) noArrays() bool {
	l := func(f string) V { return mkTerm(types.Typ[types.Int], "len", q.val(f)) }
	a, b := q.F.interval(l("OuterArr")), q.F.interval(l("InnerArr"))
	none := 0 // what the path knows of both together: 1 there are none, 0 there are some
	known := false
	for _, x := range [][2]string{{"OuterArr", "InnerArr"}, {"InnerArr", "OuterArr"}} {
		sum := mkTerm(types.Typ[types.Int], "+", l(x[0]), l(x[1]))
		if iv := q.F.interval(sum); iv.lo > 0 {
			none, known = 0, true
		} else if iv.hi == 0 {
			none, known = 1, true
		} else if n := q.F.evalBool(mkEq(sum, cInt(0), types.Typ[types.Int], nil)); n >= 0 {
			none, known = n, true
		}
	}
	some := a.lo > 0 || b.lo > 0
	empty := a.hi == 0 && b.hi == 0
	if known {
		if none == 1 && some || none == 0 && empty {
			q.q14.dead = true
		}
		return none == 1
	}
	if some || empty {
		return empty
	}
	return !q.some("OuterArr") && !q.some("InnerArr")
}

// pointed: the text of the pointer begins with & already.
func (q q21) pointed() bool {
	for k, n := range q.v.names {
		if n == "PTR" {
			for _, r := range q.v.t.Path {
				for key := range r.F.iv {
					if b, ok := r.F.at[key].(*Term); ok && b.Op == "[]" && len(b.Args) == 2 && b.Args[0].K() == k {
						if _, n, ok := lin(b.Args[1]); ok && n == 0 {
							return q.ask(mkEq(b, cInt('&'), typeOf(b), nil))
						}
					}
				}
				for _, b := range r.F.boolTerms() {
					if strings.HasSuffix(b.Op, "HasPrefix") && len(b.Args) == 2 && b.Args[0].K() == k {
						return q.ask(b)
					}
				}
			}
		}
	}
	return false
}

// simple: one number, or one enumerator.
func (q q21) simple() bool {
	pk, ok1 := q.v.c.kindConst14("PlainTypeKind")
	ek, ok2 := q.v.c.kindConst14("EnumKind")
	if !ok1 || !ok2 {
		return false
	}
	return q.kind("Kind", pk, ek) && q.noArrays() && !q.more("Pointers", 0)
}

func (q q21) function() bool {
	fk, ok := q.v.c.kindConst14("FunctionKind")
	return ok && q.kind("Kind", fk)
}

// voidPtr: the Go type is unsafe.Pointer itself.
func (q q21) voidPtr() bool {
	return q.is("Base", "unsafe.Pointer") && (!q.some("Raw") || q.is("Raw", "unsafe.Pointer"))
}

// cPtr: the C type is a pointer.
func (q q21) cPtr() bool {
	x := mkTerm(types.Typ[types.Uint8], ".Pointers", q.v.cgoV)
	iv := q.F.interval(x)
	if iv.lo > 0 {
		return true
	}
	if iv.hi == 0 {
		return false
	}
	return !q.ask(mkEq(x, cInt(0), types.Typ[types.Uint8], nil))
}

// lenKnown: the field with the length is known, and the pointer is a member
// of the object that has it.
func (q q21) lenKnown() bool {
	var ptr, field V
	for i, a := range namedArgs(q.v.fn) {
		switch q.v.names[a.K()] {
		case "PTR":
			ptr = namedArgs(q.v.fn)[i]
		case "LEN":
			field = namedArgs(q.v.fn)[i]
		}
	}
	if ptr == nil || field == nil {
		return false
	}
	l := mkTerm(types.Typ[types.Int], "len", field)
	if iv := q.F.interval(l); iv.hi == 0 || iv.lo == 0 && !q.ask(mkLt(cInt(0), l)) {
		return false
	}
	ix := mkTerm(types.Typ[types.Int], "s:LastIndex", ptr, cStr("."))
	if iv := q.F.interval(ix); iv.lo > 0 {
		return true
	} else if iv.hi <= 0 {
		return false
	}
	return q.ask(mkLt(cInt(0), ix))
}

// alts: any one of these texts will do.
func alts21(s string) []string { return strings.Split(s, "\x00") }

// writes: on every path the conversion is the one of the kind.
func (v *conv21) writes(want func(q q21) (text, nillable string)) {
	if v == nil {
		return
	}
	c, n := v.c, 0
	for i, r := range v.t.Path {
		if len(r.Ret) != 2 {
			continue
		}
		var script []bool
		for round := 0; round < 4096; round++ {
			q := q21{&q14{F: r.F, recv: v.goV, st: v.st, script: script}, v}
			w, nw := want(q)
			script = q.script[:q.used]
			if !q.dead && !q.skip {
				n++
				got := squeeze(comments21.ReplaceAllString(v.spell(q.F, r.St.snap(r.Ret[0])), ""))
				ok := false
				for _, a := range alts21(w) {
					ok = ok || squeeze(a) == got
				}
				cons := fmt.Sprintf("%s path %d.%d", v.fn.Name(), i+1, round+1)
				c.Obl(v.rule, cons, r.Pos, ok,
					"%s writes %q where a value of this kind needs %q (where %s)", v.fn.Name(), clip(got, 200), clip(squeeze(w), 200), clip(q.F.String(), 300))
				if nw != "" {
					gn := v.piece(q.F, r.St.snap(r.Ret[1]))
					if strings.HasSuffix(gn, ".Nillable") {
						gn = "helper's"
					}
					c.Obl(v.rule, cons+" nil", r.Pos, gn == nw || nw == "helper's" && gn == "false",
						"%s reports %q about nil values where a conversion like %q has %q", v.fn.Name(), gn, clip(squeeze(w), 120), nw)
				}
			}
			for len(script) > 0 && !script[len(script)-1] {
				script = script[:len(script)-1]
			}
			if len(script) == 0 {
				break
			}
			script = append([]bool(nil), script...)
			script[len(script)-1] = false
		}
	}
	c.Obl(v.rule, v.fn.Name(), v.fn.Pos(), n > 10, "%s is not decided (%d cases)", v.fn.Name(), n)
}

func c21(c *Ctx) {
	c.Rule("all: the typedefs whose kind the conversions go by are gone through to the last")
	c.throughAll("all", "typedefs", func(pkg, name, file, over string) bool { return pkg == "translator" && name == "resolveTypedefs" })
	c.Rule("from: what is written to make a C value of a Go value reads that value, and is the conversion of its kind to the C type of the position")
	c.Rule("to: what is written to make a Go value of a C value fills the variable it is for from the pointer it is handed, by the conversion of its kind to the Go type of the position")
	c.Rule("kinds: a type is a string, plain or of a plain kind by its own base, arrays, slices and kind")

	c.Rule("levels: a level of a pointer or array is opened, counted, allocated and remembered under its own number, takes its elements from the level of the value it converts, and is stored in the level above when it is closed")
	c.Rule("steps: a helper for several levels opens one level for each dimension of the array and then for each slice, numbered from 0 in that order, and ends with the conversion of the elements' kind at the level that follows")
	c.kinds21()
	c.from21()
	c.to21()
	c.levels21()
	c.steps21("getUnpackHelper", "unpack", "gen", "GO", "CGO", "ARG")
	c.steps21("getPackHelper", "pack", "gen", "TIP", "GO", "CGO")
}

func (c *Ctx) from21() {
	const rule = "from"
	c.conv21(rule, "proxyValueFromGo").writes(func(q q21) (string, string) {
		if q.exactString() {
			return "⟨getUnpackStringHelper({CGO})⟩({NAME})", "helper's"
		}
		switch {
		case q.scattered():
			return "⟨getUnpackHelper({GO},{CGO},false)⟩({NAME})", "helper's"
		case !q.plain():
			if q.more("Pointers", 0) {
				return "{NAME}.PassRef()", "false"
			}
			return "{NAME}.PassValue()", "false"
		case q.more("Slices", 0):
			return "⟨getCopyBytesHelper({CGO})⟩((*sliceHeader)(unsafe.Pointer(&{NAME})))", "helper's"
		case q.simple():
			return "({CGO})({NAME}), cgoAllocsUnknown", "false"
		case q.function():
			ref := "&"
			if q.more("Pointers", 0) {
				ref = ""
			}
			return "(*[0]byte)(unsafe.Pointer(" + ref + "{NAME})), cgoAllocsUnknown", "false"
		}
		return "*(*{CGO})(unsafe.Pointer(&{NAME})), cgoAllocsUnknown", "false"
	})
	c.conv21(rule, "proxyArgFromGo").writes(func(q q21) (string, string) {
		if q.isString() || q.exactString() {
			return "⟨getUnpackStringHelper({CGO})⟩({NAME})", "helper's"
		}
		switch {
		case q.scattered():
			return "⟨getUnpackHelper({GO},{CGO},true)⟩({NAME})", "helper's"
		case !q.plain():
			if q.more("Pointers", 0) {
				return "{NAME}.PassRef()", "false"
			}
			return "{NAME}.PassValue()", "false"
		case q.more("Slices", 0):
			cgo := "{CGO}"
			if q.voidPtr() {
				cgo = "{CGO Base=unsafe.Pointer}"
			}
			return "(⟨AtLevel(" + cgo + ",0)⟩)(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&{NAME})).Data)), cgoAllocsUnknown", "helper's"
		case q.simple():
			return "(⟨AtLevel({CGO},0)⟩)({NAME}), cgoAllocsUnknown", "false"
		case q.function():
			ref := "&"
			if q.more("Pointers", 0) {
				ref = ""
			}
			return "*(**[0]byte)(unsafe.Pointer(" + ref + "{NAME})), cgoAllocsUnknown", "false"
		case q.voidPtr():
			return "{NAME}, cgoAllocsUnknown", "false"
		case q.more("Pointers", 0):
			return "(⟨AtLevel({CGO},0)⟩)(unsafe.Pointer({NAME})), cgoAllocsUnknown", "false"
		}
		return "*(*⟨AtLevel({CGO},0)⟩)(unsafe.Pointer(&{NAME})), cgoAllocsUnknown", "false"
	})
}

func (c *Ctx) to21() {
	const rule = "to"
	object := func(q q21, as string) string {
		if q.cPtr() {
			return "{VAR} " + as + " New{GO}.RawRef(unsafe.Pointer({PTR}))"
		}
		return "{VAR} " + as + " *New{GO}.RawRef(unsafe.Pointer(&{PTR}))"
	}
	str := func(q q21, as string) (string, bool) {
		if q.isString() || q.exactString() {
			return "{VAR} " + as + " ⟨getPackStringHelper({CGO})⟩({PTR})", true
		}
		return "", false
	}
	const pack = "⟨getPackHelper({TIP},{GO},{CGO})⟩"
	c.conv21(rule, "proxyArgToGo").writes(func(q q21) (string, string) {
		if s, ok := str(q, "="); ok {
			return s, "helper's"
		}
		switch {
		case q.scattered():
			p := "{PTR}"
			if q.some("OuterArr") {
				p = "(*{CGO})(unsafe.Pointer({PTR}))"
			}
			return pack + "({VAR}, " + p + ")", "helper's"
		case !q.plain():
			return "*{VAR} = *(New{GO}.RawRef(unsafe.Pointer({PTR})))", "true"
		case q.more("Slices", 0):
			return "", "true" // the memory is shared
		case q.simple():
			return "*{VAR} = *({GO})({PTR})", "true"
		case q.function():
			return "", "true"
		}
		return "*{VAR} = *(*{GO})(unsafe.Pointer(&{PTR}))", "true"
	})
	c.conv21(rule, "proxyRetToGo").writes(func(q q21) (string, string) {
		if s, ok := str(q, ":="); ok {
			return s, "helper's"
		}
		switch {
		case q.scattered():
			ref := ""
			if q.some("OuterArr") {
				ref = "&"
			}
			return "var {VAR} {GO}\n" + pack + "(" + ref + "{VAR}, {PTR})", "helper's"
		case !q.plain():
			return object(q, ":="), "false"
		case q.more("Slices", 0):
			return "{VAR} := (*(*[{gen}.maxMem]⟨ptrs({GO}.Pointers)⟩⟨PlainType({GO})⟩)(unsafe.Pointer({PTR})))[:0]", "false"
		case q.simple():
			return "{VAR} := ({GO})({PTR})", "false"
		case q.function():
			return "", "false"
		}
		return "{VAR} := *(*{GO})(unsafe.Pointer(&{PTR}))", "false"
	})
	header := func(declared bool, len string) string {
		const hx = "hx⟨randPostfix()⟩"
		s := hx + " := (*sliceHeader)(unsafe.Pointer(&{VAR}))\n" + hx + ".Data = unsafe.Pointer({PTR})\n" + hx + ".Cap = {gen}.maxMem\n"
		if declared {
			s = "var {VAR} {GO}\n" + s
		}
		return s + strings.ReplaceAll(len, "HX", hx)
	}
	c.conv21(rule, "proxyCallbackArgToGo").writes(func(q q21) (string, string) {
		if s, ok := str(q, ":="); ok {
			return s, "helper's"
		}
		switch {
		case q.scattered():
			p := "*(*{CGO})(unsafe.Pointer(&{PTR}))"
			if q.noArrays() {
				p = "{PTR}"
			}
			return "var {VAR} {GO}\n" + pack + "({VAR}, " + p + ")", "helper's"
		case !q.plain():
			return object(q, ":="), "true"
		case q.more("Slices", 0):
			return header(true, ""), "true"
		case q.simple():
			return "{VAR} := ({GO})({PTR})", "true"
		case q.function():
			return "", "true"
		case q.more("Pointers", 0):
			return "{VAR} := ({GO})(unsafe.Pointer({PTR}))", "true"
		}
		return "{VAR} := *(*{GO})(unsafe.Pointer(&{PTR}))", "true"
	})
	c.conv21(rule, "proxyValueToGo").writes(func(q q21) (string, string) {
		if s, ok := str(q, "="); ok {
			return s, ""
		}
		switch {
		case q.scattered():
			p := "{PTR}"
			if q.some("OuterArr") {
				p = "(*{CGO})(unsafe.Pointer(&{PTR}))"
			}
			ref := ""
			if q.some("OuterArr") || !q.more("Pointers", 0) && !q.more("Slices", 0) {
				ref = "&"
			}
			return pack + "(" + ref + "{VAR}, " + p + ")", ""
		case !q.plain():
			return object(q, "="), ""
		case q.more("Slices", 0):
			if q.lenKnown() {
				return header(false, "HX.Len = int({PTR to the last .}{LEN})"), ""
			}
			return header(false, ""), ""
		case q.simple():
			return "{VAR} = ({GO})({PTR})", ""
		case q.function():
			return "", ""
		case q.more("Pointers", 0) && !q.some("OuterArr"):
			return "{VAR} = ({GO})(unsafe.Pointer({PTR}))", ""
		case q.pointed():
			return "{VAR} = *(*{GO})(unsafe.Pointer({PTR}))", ""
		}
		return "{VAR} = *(*{GO})(unsafe.Pointer(&{PTR}))", ""
	})
}

func (c *Ctx) kinds21() {
	const rule = "kinds"
	m := func(name string, want func(q *q14) bool) {
		c.method14(rule, "translator", "GoTypeSpec", name).answers(rule, func(q *q14) string {
			if want(q) {
				return "yes"
			}
			return "no"
		})
	}
	m("IsPlain", func(q *q14) bool {
		_, ok := q.oneOf("Base", "int", "byte", "rune", "float", "complex", "unsafe.Pointer", "bool")
		return ok
	})
	var ks []int64
	for _, n := range []string{"PlainTypeKind", "OpaqueStructKind", "EnumKind", "UnionKind"} {
		if k, ok := c.kindConst14(n); ok {
			ks = append(ks, k)
		}
	}
	c.Obl(rule, "plain kinds", 0, len(ks) == 4, "the kinds of types that are plain are not all known")
	m("IsPlainKind", func(q *q14) bool { return q.kind("Kind", ks...) })
	m("IsGoString", func(q *q14) bool {
		return q.is("Base", "string") && !q.more14("Slices") && !q.some("InnerArr") && !q.some("OuterArr")
	})
}

func (q *q14) more14(f string) bool { return q.some(f) }

// level21 is the run of a function that writes one level of a conversion.
func (c *Ctx) level21(rule, typ, name string, roles ...string) *conv21 {
	fn := c.Anchor("generator", typ, name)
	if fn == nil {
		return nil
	}
	t := c.table(rule, fn, func(ip *Interp) {
		setupEmission(c, ip, "Linef", "Line", "notNilBarrier", "writeSpace", "cgoSpecArg")
	})
	if t == nil {
		return nil
	}
	args := namedArgs(fn)
	if len(args) != len(roles) {
		c.Fail(rule, name+": parameters", fn.Pos(), "%s takes %d parameters, not %d", name, len(args), len(roles))
		return nil
	}
	v := &conv21{c: c, rule: rule, fn: fn, t: t, names: map[string]string{}}
	for i, a := range args {
		v.names[a.K()] = roles[i]
		switch roles[i] {
		case "GO":
			v.goV = a
			v.st, _ = fn.Params[i].Type().Underlying().(*types.Struct)
		case "CGO":
			v.cgoV = a
		case "TIP":
			v.tip = a
		}
	}
	if v.goV == nil { // nothing is asked of the Go type
		v.goV, v.st = args[0], types.NewStruct(nil, nil)
	}
	return v
}

func (v *conv21) arg(role string) V {
	for _, a := range namedArgs(v.fn) {
		if v.names[a.K()] == role {
			return a
		}
	}
	return nil
}

func (q q21) top() bool {
	return q.ask(mkEq(q.v.arg("L"), cInt(0), types.Typ[types.Uint8], nil))
}

func (q q21) isArg() bool { return q.ask(q.v.arg("ARG")) }

// text21 is what a level should come to: the text that opens it, what closes
// it (in the order written, which is the reverse of the order it appears in),
// the helper it hands back and those it submits.
type text21 struct {
	open, back, ret string
	gives           string
}

func (v *conv21) texts(want func(q q21) text21) {
	if v == nil {
		return
	}
	c, n := v.c, 0
	for _, it := range v.t.Iter {
		if it.Loop.Early {
			c.Fail(v.rule, v.fn.Name()+": list", it.Pos, "%s leaves a list before its end", v.fn.Name())
		}
	}
	for i, r := range v.t.Path {
		if len(r.Ret) != v.fn.Signature.Results().Len() {
			continue
		}
		var script []bool
		for round := 0; round < 1024; round++ {
			q := q21{&q14{F: r.F, recv: v.goV, st: v.st, script: script}, v}
			w := want(q)
			script = q.script[:q.used]
			if !q.dead && !q.skip {
				n++
				cons := fmt.Sprintf("%s path %d.%d", v.fn.Name(), i+1, round+1)
				open, back, ret := "", "", ""
				if s := v.arg("BUF"); s != nil {
					if x, ok := r.St.streams[s.K()]; ok {
						open = v.spell(q.F, x)
					}
				}
				back = v.backText(q.F, r)
				if len(r.Ret) == 1 {
					ret = v.piece(q.F, r.St.snap(r.Ret[0]))
				}
				same := func(what, got, want string) {
					got, want = squeeze(comments21.ReplaceAllString(got, "")), squeeze(want)
					c.Obl(v.rule, cons+" "+what, r.Pos, tight21(got) == tight21(want), "%s %s %q where it has to be %q (where %s)",
						v.fn.Name(), what, diff21(got, want), clip(want, 300), clip(q.F.String(), 200))
				}
				same("opens with", open, w.open)
				same("closes with", back, w.back)
				if len(r.Ret) == 1 {
					same("hands back", ret, w.ret)
				}
				for _, g := range strings.Fields(w.gives) {
					c.Obl(v.rule, cons+" gives "+g, r.Pos, v.gave(q.F, r, g), "%s names %s without handing it to the writer of helpers", v.fn.Name(), g)
				}
			}
			for len(script) > 0 && !script[len(script)-1] {
				script = script[:len(script)-1]
			}
			if len(script) == 0 {
				break
			}
			script = append([]bool(nil), script...)
			script[len(script)-1] = false
		}
	}
	c.Obl(v.rule, v.fn.Name(), v.fn.Pos(), n > 0, "%s is not decided on any path", v.fn.Name())
}

// gave: a helper is submitted, by its name or as the result of a call.
func (v *conv21) gave(f *Facts, r *Row, name string) bool {
	if submits(r, name) {
		return true
	}
	for _, i := range callsTo(r, "submitHelper") {
		for _, a := range r.Ev[i].Args {
			if v.piece(f, a) == name {
				return true
			}
		}
	}
	return false
}

// backText: what is added to the text that closes the levels.
func (v *conv21) backText(f *Facts, r *Row) string {
	b := v.arg("BACK")
	if b == nil {
		return ""
	}
	var out []string
	for _, e := range r.Ev {
		if e.Kind == "append" && len(e.Args) > 0 && strings.HasSuffix(e.Name, "reverseBuffer") {
			for _, a := range e.Args {
				out = append(out, v.spell(f, a))
			}
		}
	}
	return strings.Join(out, "")
}

// tight21: blanks between tokens say nothing.
func tight21(s string) string { return spaces21.ReplaceAllString(s, "$1$2") }

var spaces21 = regexp.MustCompile(`([^\w]) | ([^\w])`)

func diff21(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	if i < 40 {
		return clip(got, 160)
	}
	return "…" + clip(got[i-30:], 160)
}

func (c *Ctx) levels21() {
	const rule = "levels"
	const ix = "⟨genIndices(i,{L})⟩"
	const final = "allocs = new(cgoAllocMap)\ndefer runtime.SetFinalizer(allocs, func(a *cgoAllocMap) {\ngo a.Free()\n})\n"

	c.level21(rule, "Generator", "unpackArray", "gen", "BUF", "BACK", "CGO", "L", "ARG").texts(func(q q21) text21 {
		if q.top() {
			const alloc = "⟨getAllocMemoryHelper({CGO})⟩"
			t := text21{
				open:  final + "mem0 := " + alloc + "(1)\nallocs.Add(mem0)\nv0 := (*{CGO})(mem0)\nfor i0 := range x {\n",
				gives: alloc + " sizeOfPtr cgoAllocMap",
			}
			if q.isArg() {
				t.back = "return\nunpacked = (⟨AtLevel({CGO},0)⟩)(mem0)\n}\n"
			} else {
				t.back = "return\nunpacked = *(*{CGO})(mem0)\n}\n"
			}
			return t
		}
		const alloc = "⟨getAllocMemoryHelper(⟨SpecAtLevel({CGO},{L})⟩)⟩"
		return text21{
			open: "mem{L} := " + alloc + "(1)\nallocs.Add(mem{L})\nv{L} := (*⟨AtLevel({CGO},{L})⟩)(mem{L})\n" +
				"for i{L} := range x" + ix + " {\n",
			back:  "v{L}-1[i{L}-1] = *(*⟨AtLevel({CGO},{L})⟩)(mem{L})\n}\n",
			gives: alloc + " sizeOfPtr cgoAllocMap",
		}
	})
	c.level21(rule, "Generator", "unpackSlice", "gen", "BUF", "BACK", "CGO", "L", "ARG").texts(func(q q21) text21 {
		header := func(l string) string {
			return "h" + l + " := &sliceHeader{\nData: mem" + l + ",\nCap: len" + l + ",\nLen: len" + l + ",\n}\n"
		}
		if q.top() {
			const spec = "⟨SpecAtLevel({CGO},1)⟩"
			const alloc = "⟨getAllocMemoryHelper(" + spec + ")⟩"
			t := text21{
				open: "if x == nil {\nreturn nil, nil\n}\n" + final + "len0 := len(x)\nmem0 := " + alloc + "(len0)\nallocs.Add(mem0)\n" +
					header("0") + "v0 := *(*[]" + spec + ")(unsafe.Pointer(h0))\nfor i0 := range x {\n",
				gives: alloc + " sizeOfPtr cgoAllocMap",
			}
			as := "{CGO}"
			if q.isArg() {
				as = "⟨AtLevel({CGO},0)⟩"
			}
			t.back = "return\nunpacked = (" + as + ")(h.Data)\nh := (*sliceHeader)(unsafe.Pointer(&v0))\n}\n"
			return t
		}
		const spec = "⟨SpecAtLevel({CGO},{L}+1)⟩"
		const alloc = "⟨getAllocMemoryHelper(" + spec + ")⟩"
		return text21{
			open: "len{L} := len(x" + ix + ")\nmem{L} := " + alloc + "(len{L})\nallocs.Add(mem{L})\n" + header("{L}") +
				"v{L} := *(*[]" + spec + ")(unsafe.Pointer(h{L}))\nfor i{L} := range x" + ix + " {\n",
			back:  "v{L}-1[i{L}-1] = (⟨AtLevel({CGO},{L})⟩)(h.Data)\nh := (*sliceHeader)(unsafe.Pointer(&v{L}))\n}\n",
			gives: alloc + " sizeOfPtr",
		}
	})
	c.level21(rule, "", "packArray", "BUF", "BACK", "CGO", "L").texts(func(q q21) text21 {
		if q.top() {
			return text21{open: "for i0 := range v {\nptr1 := ptr0[i0]\n", back: "}\n"}
		}
		return text21{open: "for i{L} := range v" + ix + " {\nptr{L}+1 := ptr{L}[i{L}]\n", back: "}\n"}
	})
	c.level21(rule, "Generator", "packSlice", "gen", "BUF", "BACK", "CGO", "SIZE", "L").texts(func(q q21) text21 {
		if q.top() {
			return text21{open: "const m = {gen}.maxMem\nfor i0 := range v {\nptr1 := (*(*[m/{SIZE}]⟨AtLevel({CGO},{L}+1)⟩)(unsafe.Pointer(ptr0)))[i0]\n", back: "}\n"}
		}
		return text21{open: "for i{L} := range v" + ix + " {\nptr{L}+1 := (*(*[m/{SIZE}]⟨AtLevel({CGO},{L}+1)⟩)(unsafe.Pointer(ptr{L})))[i{L}]\n", back: "}\n"}
	})
	c.level21(rule, "Generator", "unpackObj", "gen", "BUF", "GO", "CGO", "L").texts(func(q q21) text21 {
		const to = "v{L}-1[i{L}-1]"
		switch {
		case q.exactString():
			return text21{open: to + ", _ = ⟨getUnpackStringHelper({CGO})⟩(⟨ptrs({GO}.Pointers)⟩x" + ix + ")\n", ret: "⟨getUnpackStringHelper({CGO})⟩"}
		case q.more("Pointers", 0):
			return text21{open: to + ", _ = x" + ix + ".PassRef()\n", ret: "⟨nil⟩"}
		}
		return text21{
			open: "allocs{L}-1 := new(cgoAllocMap)\n" + to + ", allocs{L}-1 = x" + ix + ".PassValue()\nallocs.Borrow(allocs{L}-1)\n",
			ret:  "⟨nil⟩",
		}
	})
	c.level21(rule, "Generator", "packObj", "gen", "BUF", "GO", "CGO", "L").texts(func(q q21) text21 {
		switch {
		case q.exactString():
			return text21{open: "v" + ix + " = ⟨getPackStringHelper({CGO})⟩(⟨ptrs({GO}.Pointers)⟩ptr{L})\n", ret: "⟨getPackStringHelper({CGO})⟩"}
		case q.more("Pointers", 0):
			return text21{open: "v" + ix + " = New{GO}.RawRef(unsafe.Pointer(ptr{L}))\n", ret: "⟨nil⟩"}
		}
		return text21{open: "v" + ix + " = *New{GO}.RawRef(unsafe.Pointer(&ptr{L}))\n", ret: "⟨nil⟩"}
	})
	c.level21(rule, "", "unpackPlainSlice", "BUF", "CGO", "L").texts(func(q q21) text21 {
		return text21{open: "h := (*sliceHeader)(unsafe.Pointer(&x" + ix + "))\nv{L}-1[i{L}-1] = (⟨AtLevel({CGO},{L})⟩)(h.Data)\n"}
	})
	c.level21(rule, "Generator", "packPlainSlice", "gen", "BUF", "BASE", "PTRS", "L").texts(func(q q21) text21 {
		const hx = "hx⟨randPostfix()⟩"
		return text21{open: hx + " := (*sliceHeader)(unsafe.Pointer(&v" + ix + "))\n" + hx + ".Data = unsafe.Pointer(ptr{L})\n" + hx + ".Cap = {gen}.maxMem\n"}
	})
}

// steps21: the helper for several levels goes through them one by one.
func (c *Ctx) steps21(name, verb string, roles ...string) {
	const rule = "steps"
	v := c.level21(rule, "Generator", name, roles...)
	if v == nil {
		return
	}
	pos := v.fn.Pos()
	numOf := func(r *Row, i int) V { // the level is the last number handed over
		var out V
		for _, a := range r.Ev[i].Args {
			if b, ok := typeOf(a).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				out = bare21(a)
			}
		}
		return out
	}
	var after V // the level once all levels are open
	arrs, slcs := 0, 0
	for _, it := range v.t.Iter {
		if it.Loop.Early {
			c.Fail(rule, name+": list", it.Pos, "%s leaves a list before its end", name)
		}
		for _, i := range callsTo(it, verb+"Array") {
			arrs++
			l := numOf(it, i)
			ok := l != nil && (strings.HasPrefix(l.K(), "ix#") || strings.HasPrefix(l.K(), "lv#"+it.Loop.Key)) && strings.Contains(it.Loop.Key, "Sizes(") && strings.Contains(it.Loop.Key, ".OuterArr("+v.goV.K()+")")
			if ok {
				ok = v.starts(it, l, "0") && v.oneMore(it, l)
			}
			c.Obl(rule, name+": arrays", it.Ev[i].Pos, ok, "%s does not open one level for each dimension of the array, from 0 on (it opens level %s)", name, clip(showPart(l), 60))
		}
		for _, i := range callsTo(it, verb+"Slice") {
			slcs++
			l := numOf(it, i)
			ok := l != nil
			if ok {
				ok = (v.starts(it, l, "ix#len(") || v.starts(it, l, "lv#len(")) && v.oneMore(it, l)
				after = l
			}
			c.Obl(rule, name+": slices", it.Ev[i].Pos, ok, "%s does not open the levels of the slices one by one where those of the array end (it opens level %s)", name, clip(showPart(l), 60))
			more := false
			for k, iv := range it.F.iv {
				if strings.HasSuffix(k, ".Slices") && strings.HasPrefix(k, "lv#") && iv.lo == 2 {
					more = true
				}
			}
			c.Obl(rule, name+": all slices", it.Ev[i].Pos, more, "%s does not go on until one slice is left", name)
			v.sized(rule, it, i, l)
		}
	}
	c.Obl(rule, name+": both", pos, arrs > 0 && slcs > 0, "%s does not go through the dimensions of the array and the slices", name)
	if after == nil {
		return
	}
	n := 0
	for i, r := range v.t.Path {
		if len(r.Ret) != 1 {
			continue
		}
		n++
		plain := no
		for _, b := range r.F.boolTerms() {
			asks := strings.HasSuffix(b.Op, ").IsPlain") || strings.HasSuffix(b.Op, ").IsPlainKind") ||
				strings.HasPrefix(b.Op, "eqs") && v.tip != nil && len(b.Args) == 2 && b.Args[0].K() == v.tip.K()
			if asks && r.F.b[b.K()] {
				plain = yes
			}
		}
		if v.tip != nil && r.F.eq[v.tip.K()] == "raw" {
			plain = yes
		}
		slice := unk
		for k, iv := range r.F.iv {
			if strings.HasSuffix(k, ".Slices") && strings.HasPrefix(k, "lv#") {
				if iv.lo > 0 {
					slice = yes
				} else if iv.hi == 0 {
					slice = no
				}
			}
		}
		var want, got []string
		at := after.K()
		next := mkAdd(typeOf(after), after, 1).K()
		switch {
		case slice == unk:
			c.Fail(rule, name+": elements", r.Pos, "%s ends without asking whether a slice is left", name)
			continue
		case plain == yes && slice == yes:
			want = []string{"PlainSlice " + at}
		case plain == yes:
			want = []string{"Plain " + at}
		case slice == yes:
			want = []string{"Slice " + at, "Obj " + next}
		default:
			want = []string{"Obj " + at}
		}
		for j, e := range r.Ev {
			if e.Kind != "call" {
				continue
			}
			for _, s := range []string{"PlainSlice", "Plain", "Slice", "Obj"} {
				if !strings.HasSuffix(e.Name, "."+verb+s) {
					continue
				}
				l := numOf(r, j)
				got = append(got, s+" "+l.K())
				if s == "Slice" {
					v.sized(rule, r, j, l)
				}
				if s == "Obj" {
					v.elem(rule, r, j)
				}
			}
		}
		c.Obl(rule, fmt.Sprintf("%s path %d", name, i+1), r.Pos, strings.Join(got, ", ") == strings.Join(want, ", "),
			"%s ends with %s where it has to end with %s", name, clip(noIDs(strings.Join(got, ", ")), 160), clip(noIDs(strings.Join(want, ", ")), 160))
		v.named(rule, r, i, verb)
	}
	c.Obl(rule, name, pos, n > 0, "%s is not decided on any path", name)
}

// bare21: a number without the conversions between widths around it.
func bare21(v V) V {
	for {
		t, ok := v.(*Term)
		if !ok || !strings.HasPrefix(t.Op, "conv:") || len(t.Args) != 1 {
			return v
		}
		v = t.Args[0]
	}
}

// starts: the level begins where it has to.
func (v *conv21) starts(it *Row, l V, where string) bool {
	init, ok := it.Loop.Init[l.K()]
	init = bare21(init)
	if !ok {
		// counted together with the list
		return where == "0" && strings.HasPrefix(l.K(), "ix#"+it.Loop.Key)
	}
	if where == "0" {
		n, ok := isIntConst(init)
		return ok && n == 0
	}
	if strings.HasPrefix(init.K(), where) {
		return true
	}
	sizes, ok := init.(*Term)
	return ok && sizes.Op == "len" && strings.Contains(init.K(), ".Sizes(.OuterArr("+v.goV.K()+")")
}

// oneMore: the level grows by one each time.
func (v *conv21) oneMore(it *Row, l V) bool {
	next, ok := it.Be.Carry[l.K()]
	if !ok {
		return strings.HasPrefix(l.K(), "ix#")
	}
	x, n, ok := lin(next)
	return ok && n == 1 && x != nil && x.K() == l.K()
}

// sized: the elements of a level of C memory are as big as what lies there.
func (v *conv21) sized(rule string, r *Row, i int, l V) {
	if v.names[namedArgs(v.fn)[1].K()] != "TIP" || l == nil {
		return
	}
	var size V
	for _, a := range r.Ev[i].Args {
		if isStringType(typeOf(a)) {
			size = a
		}
	}
	if size == nil {
		return
	}
	next := mkAdd(typeOf(l), l, 1)
	got := v.spell(r.F, size)
	spec := "⟨getTypedHelperName(value,⟨SpecAtLevel({CGO}," + v.piece(nil, next) + ")⟩)⟩"
	ptrs := unk
	for k, iv := range r.F.iv {
		t, ok := r.F.at[k].(*Term)
		if ok && strings.HasSuffix(t.Op, ").PointersAtLevel") && len(t.Args) == 2 && t.Args[1].K() == next.K() {
			if iv.lo > 0 {
				ptrs = yes
			} else if iv.hi == 0 {
				ptrs = no
			}
		}
	}
	ok := ptrs == yes && got == "sizeOfPtr" || ptrs == no && got == "sizeOf"+spec
	v.c.Obl(rule, v.fn.Name()+": size", r.Ev[i].Pos, ok, "%s takes the elements below a level to have the size %s, whether or not they are pointers", v.fn.Name(), clip(noIDs(got), 120))
}

// elem: an element is converted by the type that is left without its slices,
// and the helper needed for it comes with the one made here.
func (v *conv21) elem(rule string, r *Row, i int) {
	c, name := v.c, v.fn.Name()
	var res string
	for _, a := range r.Ev[i].Args {
		s, ok := a.(*StructV)
		if !ok || !types.Identical(s.T, typeOf(v.goV)) {
			continue
		}
		n, _ := isIntConst(s.field("Slices"))
		c.Obl(rule, name+": element", r.Ev[i].Pos, s.field("Slices") != nil && (s.field("Slices").K() == "0" || n == 0) &&
			s.field("Base").K() == ".Base("+v.goV.K()+")" && s.field("Pointers").K() == ".Pointers("+v.goV.K()+")",
			"%s converts an element as %s, not as the element of the type it is for", name, clip(noIDs(s.K()), 120))
	}
	_ = res
	h, ok := r.St.pointee(r.Ret[0]).(*StructV)
	if !ok {
		return
	}
	reqs := noIDs(r.St.snap(h.field("Requires")).K())
	for k, b := range r.F.b {
		t, ok := r.F.at[k].(*Term)
		if ok && t.Op == "isnil" && strings.Contains(k, "Obj(") && !b {
			c.Obl(rule, name+": helper", r.Pos, strings.Contains(reqs, noIDs(t.Args[0].K())), "%s does not require the helper that converts its elements", name)
		}
	}
}

// named: the helper has the name of its type, and so has its function.
func (v *conv21) named(rule string, r *Row, i int, verb string) {
	c, name := v.c, v.fn.Name()
	h, ok := r.St.pointee(r.Ret[0]).(*StructV)
	if !ok {
		c.Fail(rule, name+": result", r.Pos, "%s does not hand back a helper of its own", name)
		return
	}
	isArg := v.arg("ARG") != nil && r.F.evalBool(v.arg("ARG")) == 1
	want := verb
	if isArg {
		want += "Arg"
	}
	want += "⟨getHelperName({GO})⟩"
	got := v.spell(r.F, h.field("Name"))
	c.Obl(rule, fmt.Sprintf("%s name %d", name, i+1), r.Pos, got == want, "%s calls its helper %q, not %q", name, clip(got, 120), want)
	src := v.spell(r.F, h.field("Source"))
	head := ""
	if verb == "unpack" {
		head = "func " + want + "(x ⟨goSpecArg({GO},{ARG})⟩) (unpacked %s, allocs *cgoAllocMap) {\n"
		if v.arg("ARG") != nil {
			head = strings.ReplaceAll(head, "{ARG}", fmt.Sprint(isArg))
		}
		as := "{CGO}"
		if isArg {
			as = "⟨AtLevel({CGO},0)⟩"
		}
		src = strings.ReplaceAll(src, "{ARG}", fmt.Sprint(isArg))
		head = strings.Replace(head, "%s", as, 1)
	} else {
		l := mkTerm(types.Typ[types.Int], "len", mkTerm(typeOf14(v.st, "OuterArr"), ".OuterArr", v.goV))
		ref := ""
		if r.F.interval(l).lo > 0 {
			ref = "*"
		}
		head = "func " + want + "(v " + ref + "{GO}, ptr0 " + ref + "{CGO}) {\n"
	}
	c.Obl(rule, fmt.Sprintf("%s head %d", name, i+1), r.Pos, strings.HasPrefix(src, head), "the helper of %s begins %q, not %q", name, clip(src, 160), head)
}
