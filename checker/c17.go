package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = c17 }

func c17(c *Ctx) {
	c.explain = "The functions that write a callback type and its helpers are interpreted on every path into the texts of the helpers; lists of parameters are recognised by what each iteration adds to them. The texts of the C prototype, the C proxy, the exported Go proxy and the methods of the callback type are compared with each other, and the conversions in the exported proxy with the signature of the callback type, under every combination of tips."
	c.Rule("lists: every list of parameters or arguments has exactly one item for every parameter, in order: the C parameters (type and name), the C arguments, the parameters of the exported function, and the Go arguments")
	c.Rule("prototype: the C header declares the very function the C file defines: same result, name and parameters")
	c.Rule("proxy: the C function passes all its arguments, in order, to the exported Go function, and returns what it returns exactly if the callback has a result")
	c.Rule("export: the exported function carries the export comment with its own name directly before it, is the one the C function calls, takes the C forms of the parameters and returns the C form of the result exactly if there is one")
	c.Rule("call: the exported function converts its parameters and calls the function that was registered, with the Go arguments in order; its result is converted and returned; without a function registered it does not return normally")
	c.Rule("register: what the exported function calls is the variable that the methods of the callback type set, which has that type; those methods return the address of the C function, as the C type of the callback")
	c.Rule("methods: every callback type has PassRef and New...Ref, and PassValue if it is a pointer in C")
	c.Rule("converted: every parameter is converted once, from the exported function's parameter for it into the variable passed for it, from its own C type to the translation of its own type, under its own memory tip or its type's")
	c.Rule("translate: for every combination of tips, the conversion is to the type the signature of the callback type gives the parameter; the result likewise")
	c.Rule("declared: the conversion of an argument declares the variable that is passed on, on every path")
	c.Rule("distinct: the variables of the result have names that no parameter and no converted argument can have")
	c.Rule("typedef: a callback type is declared with the parameters and the result of its own declaration, and all its helpers are submitted")
	c.Assume("every parameter has a name in C once the translator is done with it, and no two have the same Go name")
	c.Assume("the parameters of a callback type do not have the tip that makes one the receiver")
	b := &bind17{c: c, kind: map[string]string{}}
	b.helpers()
	b.conversions()
	b.typedef()
	b.declared()
	c.Floor("translate", 60)
}

type bind17 struct {
	c                *Ctx
	kind             map[string]string // what a loop adds to a list
	arg, goArg       string            // names of an exported parameter and a converted argument
	resGo, resDecl   map[string]map[pair16]bool
	sig, conv        map[string]map[pair16]bool
	typedefPtr, tyTp V
}

// listedKey tells loops over the same list apart by what they write.
func listedKey(key string, parts []V) string {
	k := noIDs(key)
	for _, p := range parts {
		if _, ok := isStrConst(p); !ok {
			k += "|" + noIDs(p.K())
		}
	}
	return k
}

// isSpecArg: v is the function type given to the function, as whatever type.
func isSpecArg(v V) bool {
	for {
		if f, ok := v.(*Iface); ok {
			v = f.X
			continue
		}
		t, ok := peel(v).(*Term)
		if !ok {
			return false
		}
		if k := t.K(); k == "$2" || k == "$3" {
			return true
		}
		if !strings.HasPrefix(t.Op, "as:") || len(t.Args) != 1 {
			return false
		}
		v = t.Args[0]
	}
}

// crcOf: v is the checksum of the function type, in which case.
func crcOf(v V) (string, bool) {
	t, ok := peel(v).(*Term)
	if !ok || len(t.Args) != 1 || t.Op != "fmt:%2x" && t.Op != "fmt:%2X" && t.Op != "fmt:%x" && t.Op != "fmt:%X" {
		return "", false
	}
	a, ok := callArgs(t.Args[0], "getRefCRC")
	if !ok || len(a) != 1 || !isSpecArg(a[0]) {
		return "", false
	}
	if strings.HasSuffix(t.Op, "X") {
		return "CRC", true
	}
	return "crc", true
}

// cName: v is the C name of the parameter of an iteration.
func (r *Row) cParamName(v V) bool {
	if r.paramField(v, "Name") {
		return true
	}
	return false
}

// unnamed: the parameter of the iteration has no name.
func (r *Row) unnamed() bool {
	for k, iv := range r.F.iv {
		if t, ok := r.F.at[k].(*Term); ok && t.Op == "len" && len(t.Args) == 1 && iv.hi <= 0 && r.paramField(t.Args[0], "Name") {
			return true
		}
	}
	for k, s := range r.F.eq {
		if s == "" && r.F.at[k] != nil && r.paramField(r.F.at[k], "Name") {
			return true
		}
	}
	return false
}

// label17: the text of an item of a parameter.
func (r *Row) label17(parts []V) string {
	var sb strings.Builder
	for _, p := range parts {
		if s, ok := isStrConst(p); ok {
			sb.WriteString(s)
			continue
		}
		if k, ok := crcOf(p); ok {
			sb.WriteString("⟨" + k + "⟩")
			continue
		}
		if r.cParamName(peel(p)) {
			sb.WriteString("⟨C name⟩")
			continue
		}
		if r.paramName(p) {
			sb.WriteString("⟨Go name⟩")
			continue
		}
		if t, ok := peel(p).(*Term); ok {
			if (strings.HasPrefix(t.Op, "fmt:%") || strings.HasPrefix(t.Op, "str:")) && len(t.Args) == 1 {
				t, ok = t.Args[0].(*Term)
			}
			if ok && strings.HasSuffix(t.Op, ".AtLevel") && len(t.Args) == 2 && isIntConst0(t.Args[1]) {
				x := unptr(t.Args[0])
				if a, ok := callArgs(x, "NormalizeSpecPointers"); ok && len(a) == 2 && r.paramField(a[1], "Spec") {
					sb.WriteString("⟨C type⟩")
					continue
				}
				if a, ok := callArgs(x, "CGoSpec"); ok && len(a) == 3 && r.paramField(a[1], "Spec") && isTrue(a[2]) {
					sb.WriteString("⟨cgo type⟩")
					continue
				}
			}
		}
		sb.WriteString("⟨" + holeName(p) + "⟩")
	}
	return sb.String()
}

// unptr: what a pointer to a copy of a value points to.
func unptr(v V) V {
	for {
		t, ok := peel(v).(*Term)
		if !ok || t.Op != "ptr" || len(t.Args) != 1 {
			return v
		}
		v = t.Args[0]
	}
}

func isIntConst0(v V) bool { n, ok := isIntConst(v); return ok && n == 0 }

// listParts: what an iteration appends to each list and writes to each text.
func (r *Row) listParts() [][]V {
	var out [][]V
	for _, k := range sortedKeys(r.Be.Carry) {
		if s, ok := r.St.snap(r.Be.Carry[k]).(*SeqV); ok && strings.HasPrefix(k, "seq#") {
			for _, e := range s.E {
				out = append(out, pieces(e, nil))
			}
		}
	}
	return out
}

var wanted17 = map[string]string{
	"⟨C type⟩ ⟨C name⟩":           "C parameters",
	"⟨C name⟩":                    "C arguments",
	"⟨Go name⟩⟨crc⟩":              "Go arguments",
	"⟨Go name⟩⟨CRC⟩":              "Go arguments",
	"c⟨Go name⟩ ⟨cgo type⟩":       "export parameters",
	"⟨Go name⟩⟨crc⟩ ⟨cgo type⟩":   "export parameters",
	"c⟨Go name⟩⟨crc⟩ ⟨cgo type⟩":  "export parameters",
	"_c⟨Go name⟩⟨crc⟩ ⟨cgo type⟩": "export parameters",
}

func (b *bind17) helpers() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "getCallbackHelpers")
	if fn == nil {
		return
	}
	tb := c.table("lists", fn, func(ip *Interp) {
		setupEmission(c, ip, "writeCallbackProxyFunc", "writeCallbackProxyFuncParams", "writeStartParams", "writeEndParams", "writeStartFuncBody", "writeEndFuncBody", "writeSpace")
	})
	if tb == nil {
		return
	}
	b.lists(tb)
	for _, r := range tb.Path {
		b.oneCallback(fn, r)
	}
}

// lists: what the loops over the parameters collect.
func (b *bind17) lists(tb *Table) {
	c := b.c
	type group struct {
		items  []listedItem
		joined bool
	}
	groups := map[string]*group{}
	perLoop := map[*LoopMeta]map[string]bool{}
	count := map[*Row]map[string]int{}
	for _, r := range tb.Iter {
		if ix, n := r.position(); ix == nil || n == nil || !strings.Contains(n.K(), ".Params(") {
			continue
		}
		if r.unnamed() {
			continue
		}
		count[r] = map[string]int{}
		add := func(it listedItem, joined bool) {
			if len(it.parts) == 0 {
				return
			}
			t := squeeze(r.label17(it.parts))
			k, ok := wanted17[t]
			if !ok {
				k = "?" + t
			}
			if k == "export parameters" || k == "Go arguments" {
				n := strings.TrimSuffix(t, " ⟨cgo type⟩")
				if k == "Go arguments" {
					b.goArg = n
				} else {
					b.arg = n
				}
			}
			lk := listedKey(r.Loop.Key, it.parts)
			if o := b.kind[lk]; o != "" && o != k {
				k = "?several things"
			}
			b.kind[lk] = k
			g := groups[k]
			if g == nil {
				g = &group{joined: joined}
				groups[k] = g
			}
			g.items = append(g.items, it)
			count[r][k]++
			if perLoop[r.Loop] == nil {
				perLoop[r.Loop] = map[string]bool{}
			}
			perLoop[r.Loop][k] = true
		}
		for _, ps := range r.listParts() {
			add(listedItem{row: r, parts: ps}, true)
		}
		if len(r.listParts()) == 0 {
			it := itemOf(r, ", ")
			add(it, false)
		}
	}
	for r, n := range count {
		for k := range perLoop[r.Loop] {
			c.Obl("lists", k, r.Pos, n[k] == 1, "a parameter of a callback has %d items in the list of its %s", n[k], k)
		}
	}
	for _, k := range sortedKeys(groups) {
		if strings.HasPrefix(k, "?") {
			continue // told where the list is written
		}
		why := separated(groups[k].items, groups[k].joined)
		c.Obl("lists", "separators of the "+k, tb.Fn.Pos(), why == "", "%s: %s", c.short(tb.Fn), why)
	}
	c.Floor("lists", 5)
}

// text17: the text of a helper.
func (b *bind17) text17(r *Row, v V, holes *[]V) string {
	var sb strings.Builder
	for _, p := range pieces(v, nil) {
		if s, ok := isStrConst(p); ok {
			sb.WriteString(s)
			continue
		}
		if k, ok := crcOf(p); ok {
			sb.WriteString("⟨" + k + "⟩")
			continue
		}
		q := peel(p)
		switch q.K() {
		case "$1":
			sb.WriteString("⟨go⟩")
			continue
		case "$2":
			sb.WriteString("⟨c⟩")
			continue
		}
		if a, ok := callArgs(q, "unexportName"); ok && len(a) == 1 && a[0].K() == "$1" {
			sb.WriteString("⟨lower⟩")
			continue
		}
		t, _ := q.(*Term)
		if l, ok := joinedList(p); ok {
			t = l
		}
		if t != nil && (t.Op == "rep" || t.Op == "seq") {
			k := ""
			for _, a := range t.Args[1:] {
				ps := pieces(a, nil)
				if len(ps) == 0 {
					continue
				}
				if e, ok := proxyOf(ps); ok {
					*holes = append(*holes, e)
					k = "conversions"
					continue
				}
				n := b.kind[listedKey(repKey(mustStr(t.Args[0])), ps)]
				if n == "" || strings.HasPrefix(n, "?") {
					n = "?" + strings.TrimPrefix(n, "?")
				}
				if strings.Contains(n, "arg⟨") {
					continue // only parameters without a name
				}
				if k == "" || strings.HasPrefix(n, "?") && !unnamedAlt(ps) {
					k = n
				}
			}
			sb.WriteString("⟨" + k + "⟩")
			continue
		}
		if t != nil {
			a := t
			if (strings.HasPrefix(t.Op, "str:") || strings.HasPrefix(t.Op, "fmt:%")) && len(t.Args) == 1 {
				if x, ok := t.Args[0].(*Term); ok {
					a = x
				}
			} else if strings.HasSuffix(t.Op, ".String") && len(t.Args) == 1 {
				if x, ok := t.Args[0].(*Term); ok {
					a = x
				}
			}
			if x, ok := callArgs(a, "NormalizeSpecPointers"); ok && len(x) == 2 && isReturn(x[1]) {
				sb.WriteString("⟨C result⟩")
				continue
			}
			if x, ok := callArgs(a, "CGoSpec"); ok && len(x) == 3 {
				if isReturn(x[1]) {
					sb.WriteString("⟨cgo result⟩")
					continue
				}
				if st := r.typeSpecOf(x[1]); st == "$2" {
					sb.WriteString("⟨cgo⟩")
					continue
				}
			}
			if x, ok := resultOf(t, 0); ok {
				if _, ok := callArgs(x, "proxyArgFromGo"); ok {
					*holes = append(*holes, x)
					sb.WriteString("⟨result conversion⟩")
					continue
				}
			}
		}
		sb.WriteString("⟨" + holeName(p) + "⟩")
	}
	return sb.String()
}

// unnamedAlt: an item for a parameter without a name.
func unnamedAlt(ps []V) bool {
	for _, p := range ps {
		if s, ok := isStrConst(p); ok && strings.HasSuffix(s, "arg") {
			return true
		}
		if strings.Contains(p.K(), `cat("arg"`) {
			return true
		}
	}
	return false
}

// typeSpecOf: the base of a C type made up for the purpose.
func (r *Row) typeSpecOf(v V) string {
	for i := 0; i < 3; i++ {
		if s, ok := v.(*StructV); ok {
			if f := s.field("Base"); f != nil {
				return f.K()
			}
			return ""
		}
		if t, ok := v.(*Term); ok && len(t.Args) > 0 && (t.Op == "i" || strings.HasPrefix(t.Op, "i:") || t.Op == "ptr") {
			v = t.Args[len(t.Args)-1]
			continue
		}
		if f, ok := v.(*Iface); ok {
			v = f.X
			continue
		}
		v = r.St.pointee(v)
	}
	return ""
}

// proxyOf: the conversions of the arguments, in order.
func proxyOf(ps []V) (V, bool) {
	e := peel(ps[0])
	t, ok := e.(*Term)
	if !ok || t.Op != ".Decl" || len(t.Args) != 1 {
		return nil, false
	}
	e = t.Args[0]
	if d, ok := e.(*Term); ok && d.Op == "*" && len(d.Args) == 1 {
		e = d.Args[0]
	}
	l, _, ok := elemOf(e)
	if !ok {
		return nil, false
	}
	_, ok = callArgs(l, "createCallbackProxies")
	return l, ok && len(ps) == 1
}

func re17(s string) *regexp.Regexp { return regexp.MustCompile("^" + s + "$") }

var (
	reProto  = re17(`(\S.*?) (\S+)\(⟨C parameters⟩\) ?;`)
	reDef    = re17(`(\S.*?) (\S+)\(⟨C parameters⟩\) ?\{ ?(return )?(\S+)\(⟨C arguments⟩\); ?\}`)
	reExport = re17(`//export (\S+) func (\S+?)\(⟨export parameters⟩\) ?(⟨cgo result⟩)? ?\{ if (\S+) != nil \{ ?⟨conversions⟩ ?(.*) \} panic\(.*?\) \}(.*)`)
	reCall   = re17(`(?:(\S+) := )?(\S+)\(⟨Go arguments⟩\) (.*)`)
	reRet    = re17(`(\S+), _ :?= ⟨result conversion⟩ return (\S+)`)
	reVar    = re17(`.*\bvar (\S+) ⟨go⟩.*`)
	reNew    = re17(`func New⟨go⟩Ref\((\w+) unsafe\.Pointer\) \*⟨go⟩ ?\{ ?return \(\*⟨go⟩\)\((\w+)\) ?\}`)
	rePass   = re17(`func \((\w+) ⟨go⟩\) (PassRef|PassValue)\(\) \((\w+) (\*?)⟨cgo⟩, (\w+) \*cgoAllocMap\) ?\{ if (\w+) == nil \{ return nil, nil \} if (\S+) == nil \{ (\S+) = (\w+) \} return \((\*?)⟨cgo⟩\)\(C\.(\S+?)\), nil \}`)
)

func (b *bind17) oneCallback(fn *ssa.Function, r *Row) {
	c := b.c
	ret := hasReturn(r.F)
	if !c.Obl("call", "result known", fn.Pos(), ret != unk, "the helpers of a callback are written without regard to whether it has a result") {
		return
	}
	var ptrs tri
	isPtrs := func(v V) bool { return strings.HasSuffix(topOp(v), ".GetPointers") }
	for k, iv := range r.F.iv {
		if v := r.F.at[k]; v != nil && isPtrs(v) {
			if iv.hi <= 0 {
				ptrs = no
			} else if iv.lo >= 1 {
				ptrs = yes
			}
		}
	}
	if len(r.Ret) != 1 {
		return
	}
	seq, ok := r.St.snap(r.Ret[0]).(*SeqV)
	if !c.Obl("methods", "list of helpers", fn.Pos(), ok && seq.Base == nil, "the helpers of a callback cannot be told") {
		return
	}
	texts := map[string][]string{}
	raw := map[string][]string{}
	var holes []V
	for _, e := range seq.E {
		h, ok := r.St.pointee(e).(*StructV)
		if !ok {
			c.Fail("methods", "helper", fn.Pos(), "a helper of a callback cannot be told")
			continue
		}
		side := ""
		if f := h.field("Side"); f != nil {
			side, _ = isStrConst(f)
		}
		src := h.field("Source")
		if src == nil {
			continue
		}
		t := b.text17(r, src, &holes)
		if side == "" {
			switch s := squeeze(t); {
			case strings.HasPrefix(s, "//"):
				side = "export"
			case strings.HasPrefix(s, "func New"):
				side = "new"
			default:
				side = "method"
			}
			if strings.HasPrefix(squeeze(t), "var ") {
				side = "var"
			}
		}
		texts[side] = append(texts[side], squeeze(t))
		raw[side] = append(raw[side], t)
	}
	one := func(side, what string, re *regexp.Regexp) []string {
		if len(texts[side]) != 1 {
			c.Obl("methods", what, fn.Pos(), false, "a callback has %d helpers for %s", len(texts[side]), what)
			return nil
		}
		m := re.FindStringSubmatch(texts[side][0])
		c.Obl("proxy", what, fn.Pos(), m != nil, "the text of %s is not as it has to be: %q", what, texts[side][0])
		return m
	}
	h := one("h", "the C prototype", reProto)
	d := one("c", "the C function", reDef)
	if h == nil || d == nil {
		return
	}
	c.Obl("prototype", "result", fn.Pos(), h[1] == d[1], "the C header declares the result %s, the C file defines %s", h[1], d[1])
	c.Obl("prototype", "name", fn.Pos(), h[2] == d[2], "the C header declares %s, the C file defines %s", h[2], d[2])
	c.Obl("prototype", "name of its own", fn.Pos(), strings.Contains(h[2], "⟨c⟩") || strings.Contains(h[2], "⟨go⟩"), "the C function %s has no name of its own", h[2])
	wantC := "void"
	if ret == yes {
		wantC = "⟨C result⟩"
	}
	c.Obl("prototype", "C result", fn.Pos(), d[1] == wantC, "the C function of a callback has the result %s, not %s", d[1], wantC)
	c.Obl("proxy", "returned", fn.Pos(), (ret == yes) == (d[3] != ""), "the C function of a callback returns a result exactly if it has none")
	x := one("export", "the exported function", reExport)
	if x == nil {
		return
	}
	ex := x[1]
	c.Obl("export", "comment", fn.Pos(), strings.HasPrefix(strings.TrimLeft(raw["export"][0], "\n \t"), "//export "+ex+"\nfunc "+ex+"("), "the export comment is not directly before the function it names: %q", clip(raw["export"][0], 80))
	c.Obl("export", "called", fn.Pos(), d[4] == ex, "the C function calls %s, the function exported is %s", d[4], ex)
	for k, iv := range r.F.iv {
		if t, ok := r.F.at[k].(*Term); ok && t.Op == "len" && iv.hi <= 0 && strings.Contains(k, "CGoSpec(") {
			return // no type has an empty name
		}
	}
	c.Obl("export", "result", fn.Pos(), (ret == yes) == (x[3] != ""), "the exported function has a result exactly if the callback has none")
	c.Obl("export", "name of its own", fn.Pos(), strings.Contains(ex, "⟨c⟩") || strings.Contains(ex, "⟨go⟩") || strings.Contains(ex, "⟨lower⟩"), "the exported function %s has no name of its own", ex)
	reg := x[4]
	m := reCall.FindStringSubmatch(x[5])
	if c.Obl("call", "text", fn.Pos(), m != nil, "the exported function does not call the registered function with all Go arguments: %q", x[5]) {
		c.Obl("call", "registered function", fn.Pos(), m[2] == reg, "the exported function tests %s and calls %s", reg, m[2])
		if ret == yes {
			q := reRet.FindStringSubmatch(m[3])
			if c.Obl("call", "result", fn.Pos(), m[1] != "" && q != nil, "the result of a callback is not converted and returned: %q", x[5]) {
				c.Obl("call", "returned", fn.Pos(), q[1] == q[2], "the exported function converts its result to %s and returns %s", q[1], q[2])
				for _, n := range []string{m[1], q[1]} {
					c.Obl("distinct", "result", fn.Pos(), b.notParam(n), "the variable %s of the exported function may have the name of a parameter or of an argument", n)
				}
				c.Obl("distinct", "results", fn.Pos(), m[1] != q[1], "the Go and the C result of a callback have the same name")
				b.resultConversion(fn, r, holes, m[1])
			}
		} else {
			c.Obl("call", "no result", fn.Pos(), m[1] == "" && squeeze(m[3]) == "return", "a callback without result does not just call and return: %q", x[5])
		}
	}
	proxies := 0
	for _, hv := range holes {
		if a, ok := callArgs(hv, "createCallbackProxies"); ok {
			proxies++
			c.Obl("converted", "conversions of the callback", fn.Pos(), len(a) == 3 && a[1].K() == "$2" && strings.Contains(a[2].K(), "$3"), "the conversions written are not those of the callback: %s", holeName(hv))
		}
	}
	c.Obl("converted", "conversions once", fn.Pos(), proxies == 1, "the conversions of a callback's arguments are written %d times", proxies)
	// the variable
	where := x[6]
	if len(texts["var"]) > 0 {
		where += " " + texts["var"][0]
	}
	v := reVar.FindStringSubmatch(where)
	if c.Obl("register", "variable", fn.Pos(), v != nil, "no variable holds the registered function: %q", where) {
		c.Obl("register", "variable called", fn.Pos(), v[1] == reg, "the exported function calls %s, the variable declared is %s", reg, v[1])
	}
	seen := map[string]bool{}
	for _, t := range texts["method"] {
		m := rePass.FindStringSubmatch(t)
		if !c.Obl("register", "method", fn.Pos(), m != nil, "a method of a callback type does not register the function and return the C function: %q", t) {
			continue
		}
		seen[m[2]] = true
		c.Obl("register", m[2]+" registers", fn.Pos(), m[7] == reg && m[8] == reg && m[9] == m[1] && m[6] == m[1], "%s does not register its receiver in %s: %q", m[2], reg, t)
		c.Obl("register", m[2]+" returns", fn.Pos(), m[11] == d[2], "%s returns %s, not the C function %s", m[2], m[11], d[2])
		star := ""
		if m[2] == "PassRef" {
			star = "*"
		}
		c.Obl("register", m[2]+" type", fn.Pos(), m[4] == star && m[10] == star, "%s does not return the C type of the callback: %q", m[2], t)
	}
	c.Obl("methods", "PassRef", fn.Pos(), seen["PassRef"], "a callback type has no PassRef")
	c.Obl("methods", "PassValue", fn.Pos(), seen["PassValue"] || ptrs == no, "a callback type that is a pointer in C has no PassValue")
	if n := one("new", "the conversion from a reference", reNew); n != nil {
		c.Obl("methods", "New", fn.Pos(), n[1] == n[2], "New...Ref does not return its argument")
	}
}

// notParam: a constant name is unlike all names of parameters and arguments.
func (b *bind17) notParam(n string) bool {
	if b.arg == "" || b.goArg == "" || strings.Contains(n, "⟨") || strings.Contains(n, "&") {
		return false
	}
	apart := func(shape string) bool {
		i := strings.Index(shape, "⟨")
		j := strings.LastIndex(shape, "⟩")
		pre, post := shape[:i], shape[j+len("⟩"):]
		if pre != "" && !strings.HasPrefix(n, pre) || post != "" && !strings.HasSuffix(n, post) {
			return true
		}
		if strings.HasSuffix(shape, "crc⟩") || strings.HasSuffix(shape, "CRC⟩") {
			return !strings.ContainsAny(n[len(n)-1:], "0123456789abcdefABCDEF ")
		}
		return false
	}
	return n != "" && apart(b.arg) && apart(b.goArg)
}

func (b *bind17) resultConversion(fn *ssa.Function, r *Row, holes []V, name string) {
	c := b.c
	n := 0
	for _, h := range holes {
		a, ok := callArgs(h, "proxyArgFromGo")
		if !ok || len(a) != 5 {
			continue
		}
		n++
		c.Obl("call", "result converted", fn.Pos(), b.text17(r, a[2], nil) == name, "what is converted is not the result of the call")
		cg, ok := callArgs(a[4], "CGoSpec")
		c.Obl("call", "result's C type", fn.Pos(), ok && isReturn(cg[1]), "the result is not converted to its own C type: %s", holeName(a[4]))
		m, ok := tipRefOf(a[1])
		c.Obl("call", "result's memory tip", fn.Pos(), ok && m.what == "mem" && m.at == nil && m.name.K() == "$2", "the result is converted with another memory tip than the callback's own: %s", holeName(a[1]))
		pv, tv, ok := returnType(a[3])
		if !c.Obl("call", "result's Go type", fn.Pos(), ok, "the result is not converted from the translation of its type: %s", holeName(a[3])) {
			continue
		}
		if b.resGo == nil {
			b.resGo = map[string]map[pair16]bool{}
		}
		b.tips(r, "$2", pv, tv, b.resGo, fn)
	}
	c.Obl("call", "one conversion", fn.Pos(), n == 1, "the result of a callback is converted %d times", n)
}

func (b *bind17) tips(r *Row, name string, pv, tv V, m map[string]map[pair16]bool, fn *ssa.Function) {
	resultTips(func(key string, mk func(string) choice) {
		ch := mk(name)
		if !r.F.possible(ch) {
			return
		}
		p, ok1 := tipVal(pv, ch)
		t, ok2 := tipVal(tv, ch)
		if b.c.Obl("translate", "tips of the result", fn.Pos(), ok1 && ok2, "the result of a callback is translated with tips that are not its own: %s, %s", showPart(pv), showPart(tv)) {
			if m[key] == nil {
				m[key] = map[pair16]bool{}
			}
			m[key][norm16(p, t)] = true
		}
	})
}

// conversions: the conversions of a callback's arguments.
func (b *bind17) conversions() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "createCallbackProxies")
	if fn == nil {
		return
	}
	tb := c.table("converted", fn, func(ip *Interp) { setupEmission(c, ip, "Line", "Linef", "String") })
	if tb == nil {
		return
	}
	b.conv = map[string]map[pair16]bool{}
	for _, r := range tb.Iter {
		ix, n := r.position()
		if ix == nil || n == nil || !strings.Contains(n.K(), ".Params(") || r.unnamed() {
			continue
		}
		at := callsTo(r, "proxyCallbackArgToGo")
		if !c.Obl("converted", "one conversion", r.Pos, len(at) == 1, "a parameter of a callback is converted %d times", len(at)) {
			continue
		}
		e := &r.Ev[at[0]]
		if len(e.Args) != 6 {
			c.Fail("converted", "conversion", r.Pos, "a parameter is converted with unexpected arguments")
			continue
		}
		mem, goSpec, cgoSpec := e.Args[1], e.Args[4], e.Args[5]
		to := squeeze(r.label17(pieces(e.Args[2], nil)))
		from := squeeze(r.label17(pieces(e.Args[3], nil)))
		c.Obl("converted", "into", r.Pos, to == b.goArg, "a parameter is converted into %s, the argument passed on is %s", to, b.goArg)
		c.Obl("converted", "from", r.Pos, from == b.arg, "a parameter is converted from %s, the parameter of the exported function is %s", from, b.arg)
		cg, ok := callArgs(peel(cgoSpec), "CGoSpec")
		c.Obl("converted", "C type", r.Pos, ok && len(cg) == 3 && r.paramField(cg[1], "Spec") && isTrue(cg[2]), "a parameter is not converted from its own C type: %s", holeName(cgoSpec))
		for _, m := range []string{"", "raw"} {
			for _, o := range []string{"", "raw"} {
				ch := memChoice(r, "$1", ix, m, o)
				if !r.F.possible(ch) {
					continue
				}
				got, ok := tipVal(mem, ch)
				c.Obl("converted", "memory tip", r.Pos, ok && (got == m || m == "" && got == o), "a parameter is converted with a memory tip that is neither its own nor its type's: %s", holeName(mem))
			}
		}
		pv, tv, ok := r.translated(goSpec, "Spec")
		if c.Obl("converted", "Go type", r.Pos, ok, "a parameter is not converted to the translation of its own type: %s", holeName(goSpec)) {
			choices16(func(key, ptr string, mk func(string, V) choice) {
				ch := mk("$1", ix)
				if ptr == "inst" || !r.F.possible(ch) {
					return
				}
				p, ok1 := tipVal(pv, ch)
				t, ok2 := tipVal(tv, ch)
				if c.Obl("converted", "tips", r.Pos, ok1 && ok2, "a parameter is translated with tips that are not its own: %s, %s", showPart(pv), showPart(tv)) {
					if b.conv[key] == nil {
						b.conv[key] = map[pair16]bool{}
					}
					b.conv[key][norm16(p, t)] = true
				}
			})
		}
		// kept
		conv := mkTerm(nil, "#0", mkTerm(nil, "call:"+e.Name, e.Args...))
		empty := false
		for k, iv := range r.F.iv {
			if t, ok := r.F.at[k].(*Term); ok && t.Op == "len" && len(t.Args) == 1 && iv.hi <= 0 && isProxyText(t.Args[0]) {
				empty = true
			}
		}
		_ = conv
		n2 := 0
		for _, k := range sortedKeys(r.Be.Carry) {
			s, ok := r.St.snap(r.Be.Carry[k]).(*SeqV)
			if !ok || !strings.HasPrefix(k, "seq#") {
				continue
			}
			for _, x := range s.E {
				st, ok := x.(*StructV)
				if !ok {
					st, ok = r.St.pointee(x).(*StructV)
				}
				if !ok {
					continue
				}
				n2++
				ps := pieces(st.field("Decl"), nil)
				ok = len(ps) > 0 && isProxyText(ps[0])
				for _, p := range ps[min(1, len(ps)):] {
					ok = ok && strings.TrimSpace(mustStr(p)) == "" && strings.Contains(mustStr(p), "\n")
				}
				c.Obl("converted", "kept", r.Pos, ok && len(ps) == 2, "what is kept is not the conversion on lines of its own: %s", showParts(ps))
			}
		}
		if !empty {
			c.Obl("converted", "once", r.Pos, n2 == 1, "a conversion is kept %d times", n2)
		}
	}
	c.Floor("converted", 50)
	// against the signature
	sc := newCtx(c.Program, "C16")
	sb := &bind16{c: sc}
	sb.signature()
	b.sig = sb.sig
	choices16(func(key, ptr string, _ func(string, V) choice) {
		if ptr == "inst" {
			return
		}
		s, d := b.sig[key], b.conv[key]
		c.Obl("translate", key, fn.Pos(), len(s) == 1 && len(d) == 1 && tipsOf(s) == tipsOf(d), "the signature of a callback type gives a parameter the type for the tips %s, the exported function converts it to that for %s (%s)", tipsOf(s), tipsOf(d), key)
	})
}

func isProxyText(v V) bool {
	x, ok := resultOf(peel(v), 0)
	if !ok {
		return false
	}
	_, ok = callArgs(x, "proxyCallbackArgToGo")
	return ok
}

// typedef: the declaration of a callback type.
func (b *bind17) typedef() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "writeFunctionTypedef")
	if fn == nil {
		return
	}
	tb := c.table("typedef", fn, func(ip *Interp) {
		setupEmission(c, ip, "writeSpace")
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" || e.Kind == "write" })
	})
	if tb == nil {
		return
	}
	const name = ".Name(*($2))"
	isGoName := func(v V) bool {
		v = peel(v)
		a, ok := callArgs(v, "TransformName")
		if !ok || len(a) < 3 || a[2].K() != name {
			return false
		}
		s, _ := isStrConst(a[1])
		return s == "type"
	}
	helpers := func(v V) bool {
		a, ok := callArgs(v, "getCallbackHelpers")
		return ok && len(a) == 4 && isGoName(a[1]) && a[2].K() == name && strings.Contains(a[3].K(), ".Spec(*($2))")
	}
	// every helper is submitted
	submitted, loops := true, 0
	for _, r := range tb.Iter {
		ix, total := r.position()
		n := 0
		own := false
		over := false
		if t, ok := total.(*Term); ok && t.Op == "len" && len(t.Args) == 1 {
			over = helpers(t.Args[0])
		}
		for _, i := range callsTo(r, "submitHelper") {
			e := &r.Ev[i]
			if len(e.Args) == 2 {
				x := e.Args[1]
				if d, ok := x.(*Term); ok && d.Op == "*" && len(d.Args) == 1 {
					x = d.Args[0]
				}
				if l, i, ok := elemOf(x); ok && ix != nil && i.K() == ix.K() && helpers(l) {
					own = true
				}
				n++
			}
		}
		if n > 0 || over {
			loops++
			submitted = submitted && own && n == 1
		}
	}
	c.Obl("typedef", "helpers", fn.Pos(), loops > 0 && submitted, "not every helper of a callback type is submitted")
	written := 0
	for _, r := range tb.Path {
		var sb strings.Builder
		gets := 0
		var pv, tv V
		for i := range r.Ev {
			e := &r.Ev[i]
			switch {
			case e.Kind == "write" && len(e.Args) > 0:
				for _, p := range pieces(e.Args[len(e.Args)-1], nil) {
					if s, ok := isStrConst(p); ok {
						sb.WriteString(s)
						continue
					}
					if isGoName(p) {
						sb.WriteString("⟨name⟩")
						continue
					}
					if x, y, ok := returnType(p); ok {
						pv, tv = x, y
						sb.WriteString("⟨result⟩")
						continue
					}
					if b.funcType(p) {
						sb.WriteString("⟨func⟩")
						continue
					}
					sb.WriteString("⟨?⟩")
				}
			case e.Kind == "call" && opSuffix(e.Name) == "writeFunctionParams":
				sb.WriteString("⟨parameters⟩")
				c.Obl("typedef", "parameters", fn.Pos(), len(e.Args) == 4 && e.Args[2].K() == name && strings.Contains(e.Args[3].K(), ".Spec(*($2))"), "the parameters written are not those of the callback type, under its name")
			case e.Kind == "call" && opSuffix(e.Name) == "getCallbackHelpers":
				gets++
				c.Obl("typedef", "helpers of the type", fn.Pos(), len(e.Args) == 4 && isGoName(e.Args[1]) && e.Args[2].K() == name && strings.Contains(e.Args[3].K(), ".Spec(*($2))"), "the helpers are not those of the callback type, under its names")
			}
		}
		text := sb.String()
		if i := strings.Index(text, "\ntype"); strings.HasPrefix(text, "//") && i >= 0 {
			text = text[i:]
		}
		text = squeeze(text)
		if text == "" {
			c.Obl("typedef", "helpers only with the type", fn.Pos(), gets == 0, "the helpers of a callback type are written without it")
			continue
		}
		written++
		ret := hasReturn(r.F)
		want := "type ⟨name⟩ ⟨func⟩⟨parameters⟩"
		if !c.Obl("typedef", "result known", fn.Pos(), ret != unk, "a callback type is written without regard to whether it has a result") {
			continue
		}
		if ret == yes {
			empty := false
			for k, iv := range r.F.iv {
				if t, ok := r.F.at[k].(*Term); ok && t.Op == "len" && len(t.Args) == 1 && iv.hi <= 0 {
					if _, _, ok := returnType(t.Args[0]); ok {
						empty = true
					}
				}
			}
			if empty {
				continue // no type has an empty name
			}
			want += " ⟨result⟩"
		}
		c.Obl("typedef", "declaration", fn.Pos(), text == want, "a callback type is declared as %q, not %q", text, want)
		c.Obl("typedef", "helpers of the type", fn.Pos(), gets == 1, "the helpers of a callback type are made %d times", gets)
		if ret == yes && pv != nil {
			if b.resDecl == nil {
				b.resDecl = map[string]map[pair16]bool{}
			}
			b.tips(r, name, pv, tv, b.resDecl, fn)
		}
	}
	c.Obl("typedef", "written", fn.Pos(), written > 0, "no callback type is written")
	resultTips(func(key string, _ func(string) choice) {
		s, d := b.resDecl[key], b.resGo[key]
		c.Obl("translate", key, fn.Pos(), len(s) == 1 && tipsOf(s) == tipsOf(d), "a callback type gives its result the type for the tips %s, the exported function converts it as of %s (%s)", tipsOf(s), tipsOf(d), key)
	})
}

// funcType: the translation of the function type itself.
func (b *bind17) funcType(v V) bool {
	if t, ok := peel(v).(*Term); ok && strings.HasPrefix(t.Op, "str:") && len(t.Args) == 1 {
		return strings.Contains(t.K(), "TranslateSpec(")
	}
	return strings.Contains(v.K(), "TranslateSpec(")
}

// declared: conversions to Go declare their variable.
func (b *bind17) declared() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "proxyCallbackArgToGo")
	if fn == nil {
		return
	}
	c.declares("declared", fn)
	c.Floor("declared", 20)
}

// declares: on every path of a conversion to Go, the text declares the
// variable named first and mentions what is converted.
func (c *Ctx) declares(rule string, fn *ssa.Function) {
	tb := c.table(rule, fn, func(ip *Interp) { setupEmission(c, ip) })
	if tb == nil {
		return
	}
	for _, r := range tb.Path {
		if len(r.Ret) == 0 {
			continue
		}
		ps := pieces(r.Ret[0], nil)
		text := label(r.Ret[0], map[string]string{"$2": "⟨var⟩", "$3": "⟨from⟩"})
		key := convCase(text)
		for k, iv := range r.F.iv {
			if t, ok := r.F.at[k].(*Term); ok && t.Op == ".Kind" && iv.lo == 5 && iv.hi == 5 {
				key = "conversion of a function"
			}
		}
		c.Obl(rule, key, fn.Pos(), len(ps) > 0 && (strings.HasPrefix(text, "⟨var⟩ := ") || strings.HasPrefix(text, "var ⟨var⟩ ")), "the conversion declares no variable for its result: %q", text)
		c.Obl(rule, "converts", fn.Pos(), strings.Contains(text, "⟨from⟩") || !strings.Contains(text, "="), "the conversion does not read what it is to convert: %q", text)
	}
}

// convCase names a conversion by the first words of its text.
func convCase(text string) string {
	t := squeeze(text)
	if len(t) > 60 {
		t = clip(t, 60)
	}
	return fmt.Sprintf("conversion %q", t)
}
