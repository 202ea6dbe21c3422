package main

import (
	"fmt"
	"go/token"
	"regexp"
	"sort"
	"strings"
)

func init() { checks["C16"] = c16 }

func c16(c *Ctx) {
	c.explain = "The functions that write a wrapper's parameters, receiver, body and result are interpreted on every path. For every combination of tips, what the signature says about a parameter is compared with what the body does with it, as documents written under the facts of each path."
	c.Rule("all: a loop that goes through the parameters of a function and makes something of each is not left before the last, but with an error")
	c.Rule("list: the parameters written are one parenthesised list, every parameter of the function once and in order, with a separator between every two that are written and nowhere else, whichever of them became the receiver")
	c.Rule("parameters: for every combination of tips, the receiver is left out of the list and every other parameter, of whatever kind, is written as its own Go name and the translation of its own type")
	c.Rule("receiver: exactly a parameter whose pointer tip makes it the receiver is written as the receiver, in parentheses, under its own Go name and translated type")
	c.Rule("named: what the body converts, assigns back to or tests is the parameter under the very name the signature gives it")
	c.Rule("converted: every parameter is converted once, from the translation of its own type under its own tips to the C form of its own type, with its own memory tip or that of its type, into the one argument that is kept at its own position")
	c.Rule("translate: for every combination of tips, the type the signature gives a parameter and the type the body converts it from are translations under the same tips, or under tips that translate alike")
	c.Rule("distinct: the variables the body declares have names that no parameter and no other variable of the body has")
	c.Rule("safe: with safe strings, exactly a string is passed through safeString, and the helper is submitted then")
	c.Rule("cleanup: the allocations of an argument are kept alive across the call exactly if they were taken, a safe string exactly if it was made, after everything else about the argument")
	c.Rule("back: elements are written back after the call exactly for arguments whose Go value is a copy: nested slices, arrays of slices, slices and arrays of what is not plain; into the parameter itself, under a nil test if the conversion asks for one")
	c.Rule("call: the body is, in this order, the conversions of the arguments in the order of the parameters, the call of the C function under its own name with all the arguments in order, what follows the call, and the return")
	c.Rule("result: the call's result is kept, converted and returned exactly if the function has one; the type it is converted to and the type the declaration gives are translations of the result's type under the same tips")
	c.Rule("linked: the declaration written, its receiver, parameters, result and body are those of one function under one name")
	c.Assume("no pointer tip means the tip arr, and no type tip the tip named, to the translation (C07 and C22 look at what the translation does with them)")
	c.Assume("at most one parameter of a function has the tip that makes it the receiver, and it has one pointer")
	c.Assume("every parameter has a name in C once the translator is done with it (unnamed ones are numbered)")
	c.Assume("the kinds are the seven the translator defines, and a tip lookup that finds nothing gives tips that are not set")
	b := &bind16{c: c}
	b.signature()
	b.receiver()
	b.body()
	b.agree()
	b.call()
	b.result()
	if fn := c.Anchor("generator", "Generator", "proxyRetToGo"); fn != nil {
		c.declares("result", fn)
	}
	c.throughAll("all", "the parameters of a function", func(pkg, name, file, over string) bool { return over == "CFunctionSpec.Params" })
	c.Floor("all", 1)
	c.Floor("translate", 100)
}

type pair16 struct{ p, t string }

type bind16 struct {
	c                      *Ctx
	sig, bod, ret          map[string]map[pair16]bool
	revOK, fwdOK, refTaken bool
	bodyPos                token.Pos
}

var ptrTips16 = []string{"", "arr", "ref", "sref", "inst"}
var typeTips16 = []string{"", "plain", "named", "string", "unsigned"}

// choices: every combination of a parameter's tips.
func choices16(f func(key string, ptr string, ch func(fnName string, ix V) choice)) {
	for _, p := range ptrTips16 {
		for _, t := range typeTips16 {
			for _, o := range typeTips16 {
				p, t, o := p, t, o
				f(fmt.Sprintf("pointer tip %q, type tip %q, tip of the type itself %q", p, t, o), p, func(fnName string, ix V) choice {
					return func(r tipRef) (string, bool) {
						switch {
						case r.what == "ptr" && r.scope == "function" && r.at != nil && (ix == nil || r.at.K() == ix.K() || r.at.K() == "any position") && r.name.K() == fnName:
							return p, true
						case r.what == "type" && r.scope == "function" && r.at != nil && (ix == nil || r.at.K() == ix.K() || r.at.K() == "any position") && r.name.K() == fnName:
							return t, true
						case r.what == "type" && r.scope == "type" && r.at == nil && strings.Contains(r.name.K(), "CGoName("):
							return o, true
						}
						return "", false
					}
				})
			}
		}
	}
}

// isOf: v belongs to the parameter an iteration is about: one of its fields.
func (r *Row) paramField(v V, field string) bool {
	t, ok := peel(v).(*Term)
	if !ok || t.Op != "."+field || len(t.Args) != 1 {
		return false
	}
	d, ok := t.Args[0].(*Term)
	if ok && d.Op == "*" && len(d.Args) == 1 {
		d, ok = d.Args[0].(*Term)
	}
	if !ok {
		return false
	}
	list, ix, ok := elemOf(d)
	if !ok || !strings.Contains(list.K(), ".Params(") {
		return false
	}
	i, _ := r.position()
	return i == nil || i.K() == ix.K()
}

// paramName: v is the Go name of the parameter.
func (r *Row) paramName(v V) bool {
	v = peel(v)
	if a, ok := callArgs(v, "checkName"); ok && len(a) == 1 {
		v = peel(a[0])
	}
	a, ok := callArgs(v, "TransformName")
	if !ok || len(a) != 4 {
		return false
	}
	if s, ok := isStrConst(a[1]); !ok || s != "type" {
		return false
	}
	if s, ok := a[3].(*SeqV); !ok || len(s.E) != 1 || !isFalse(s.E[0]) {
		return false
	}
	n := peel(a[2])
	if g, ok := resultOf(n, 0); ok {
		if ga, ok := callArgs(g, "getName"); ok && len(ga) == 1 {
			list, ix, ok := elemOf(ga[0])
			i, _ := r.position()
			return ok && strings.Contains(list.K(), ".Params(") && (i == nil || i.K() == ix.K())
		}
	}
	return r.paramField(n, "Name")
}

func isFalse(v V) bool { b, ok := isBoolConst(v); return ok && !b }

// translated: v is the translation of a field of the parameter; its tips.
func (r *Row) translated(v V, field string) (p, t V, ok bool) {
	v = peel(v)
	a, ok := callArgs(v, "TranslateSpec")
	if !ok || len(a) != 3 || !r.paramField(a[1], field) {
		return nil, nil, false
	}
	s, ok := a[2].(*SeqV)
	if !ok || s.Base != nil || len(s.E) != 2 {
		return nil, nil, false
	}
	return s.E[0], s.E[1], true
}

// noneChosen: a parameter without tips that is not the receiver.
func isRecv(ch choice, fnName string, ix V) bool {
	s, _ := ch(tipRef{what: "ptr", scope: "function", name: mkKey(fnName), at: ix})
	return s == "inst"
}

// norm16: tips that mean the same to the translation.
func norm16(p, t string) pair16 {
	switch p {
	case "":
		p = "arr"
	case "inst", "sref":
		// for the one pointer a receiver has
	}
	if t == "" || t == "named" {
		t = "named"
	}
	return pair16{p, t}
}

// paramText: what is said about a parameter, checked for its form; the tips of
// its translation, if it is translated.
func (b *bind16) paramText(rule, con string, r *Row, parts []V, ch choice) (got pair16, tr bool, why string) {
	ps := parts
	next := func() V {
		if len(ps) == 0 {
			return cStr("")
		}
		v := ps[0]
		ps = ps[1:]
		return v
	}
	n := next()
	if !r.paramName(n) {
		return got, false, "does not begin with the parameter's Go name: " + showParts(parts)
	}
	if s, _ := isStrConst(next()); s != " " && s != " *" {
		return got, false, "has no space between the name and the type: " + showParts(parts)
	}
	ty := peel(next())
	if a, ok := callArgs(ty, "checkName"); ok {
		ty = peel(a[0])
	}
	if t, ok := ty.(*Term); ok && strings.HasPrefix(t.Op, "str:") && len(t.Args) == 1 {
		ty = t.Args[0]
	} else if a, ok := callArgs(ty, "String"); ok && len(a) == 1 {
		ty = a[0]
	}
	if a, ok := callArgs(ty, "TransformName"); ok && len(a) == 4 {
		// the type of a function pointer with a name of its own
		f, ok := peel(a[2]).(*Term)
		if s, _ := isStrConst(a[1]); ok && s == "type" && f.Op == ".Typedef" && strings.Contains(f.K(), ".Spec(") {
			return got, false, ""
		}
	}
	pv, tv, ok := r.translated(ty, "Spec")
	if !ok {
		return got, false, "does not give the translation of the parameter's type: " + showParts(parts)
	}
	p, ok1 := tipVal(pv, ch)
	t, ok2 := tipVal(tv, ch)
	if !ok1 || !ok2 {
		return got, false, fmt.Sprintf("is translated with tips that are not those of the parameter: %s, %s", showPart(pv), showPart(tv))
	}
	return norm16(p, t), true, ""
}

// specKinds: the kinds a C type can have.
func (c *Ctx) specKinds(r *Row) []int {
	var out []int
	for _, k := range r.kinds() {
		if k != 1 { // plain kinds are kinds of Go types
			out = append(out, k)
		}
	}
	return out
}

func (b *bind16) note(m map[string]map[pair16]bool, key string, p pair16) {
	if m[key] == nil {
		m[key] = map[pair16]bool{}
	}
	m[key][p] = true
}

func tipsOf(m map[pair16]bool) string {
	var out []string
	for k := range m {
		out = append(out, fmt.Sprintf("(%s, %s)", k.p, k.t))
	}
	sort.Strings(out)
	return strings.Join(out, " or ")
}

const fnArg = "$2"

func (b *bind16) signature() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "writeFunctionParams")
	if fn == nil {
		return
	}
	tb := c.table("parameters", fn, func(ip *Interp) {
		setupEmission(c, ip, "writeFunctionParam", "writeFunctionAsArg", "writeStartParams", "writeEndParams", "writeSpace")
	})
	if tb == nil {
		return
	}
	b.sig = map[string]map[pair16]bool{}
	var items []listedItem
	joined := false
	for _, r := range tb.Path {
		ps := pieces(r.St.streams["$1"], nil)
		for _, p := range ps {
			if a, ok := p.(*Term); ok && a.Op == "s:Join" {
				if s, ok := isStrConst(a.Args[1]); ok && s == ", " {
					joined = true
				}
			}
		}
		n := len(ps)
		first, _ := isStrConst(ps[0])
		last, _ := isStrConst(ps[n-1])
		c.Obl("list", "parameters are one list", r.Pos, n == 3 && first == "(" && last == ")" || n == 1 && first == "()", "a parameter list is not a parenthesised list of the parameters: %s", showParts(ps))
	}
	for _, r := range tb.Iter {
		if ix, _ := r.position(); ix == nil || len(c.specKinds(r)) == 0 {
			continue
		}
		it := itemOf(r, ", ")
		items = append(items, it)
		ix, _ := r.position()
		choices16(func(key, ptr string, mk func(string, V) choice) {
			ch := mk(fnArg, ix)
			if !r.F.possible(ch) {
				return
			}
			if isRecv(ch, fnArg, ix) {
				c.Obl("parameters", "receiver among the parameters", r.Pos, len(it.parts) == 0, "the receiver of a method is written as a parameter as well (%s)", key)
				return
			}
			if !c.Obl("parameters", "parameter left out", r.Pos, len(it.parts) > 0, "a parameter of kind %s is not written (%s)", kindList(c.specKinds(r)), key) {
				return
			}
			got, tr, why := b.paramText("parameters", "parameter", r, it.parts, ch)
			if !c.Obl("parameters", "parameter text", r.Pos, why == "", "a parameter %s", why) {
				return
			}
			if tr {
				b.note(b.sig, key, got)
			}
		})
	}
	why := separated(items, joined)
	c.Obl("list", "separators of the parameters", fn.Pos(), why == "", "%s: %s", c.short(fn), why)
	c.Floor("parameters", 200)
	c.Floor("list", 2)
}

func kindList(ks []int) string {
	var out []string
	for _, k := range ks {
		out = append(out, kindNames[k])
	}
	return strings.Join(out, "/")
}

func (b *bind16) receiver() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "writeInstanceObjectParam")
	if fn == nil {
		return
	}
	tb := c.table("receiver", fn, func(ip *Interp) {
		setupEmission(c, ip, "writeFunctionParam", "writeFunctionAsArg", "writeStartParams", "writeEndParams", "writeSpace")
	})
	if tb == nil {
		return
	}
	for _, r := range tb.Iter {
		ix, _ := r.position()
		if ix == nil {
			continue
		}
		var ps []V
		for _, v := range iterText(r) {
			ps = pieces(v, ps)
		}
		choices16(func(key, ptr string, mk func(string, V) choice) {
			ch := mk(fnArg, ix)
			if r.F.possible(ch) {
				c.Obl("receiver", "other parameter", r.Pos, !isRecv(ch, fnArg, ix) && len(ps) == 0, "a parameter is passed over although it is the receiver, or written although it is not (%s)", key)
			}
		})
	}
	n := 0
	for _, r := range tb.Path {
		ps := pieces(r.St.streams["$1"], nil)
		if r.St.streams["$1"] == nil || len(ps) == 0 {
			continue
		}
		n++
		ix := V(nil)
		for _, l := range tb.IP.AllLoops {
			rr := &Row{Fn: fn, Loop: l, F: r.F}
			if i, _ := rr.position(); i != nil {
				ix = i
			}
		}
		if len(c.specKinds(r)) == 0 {
			continue
		}
		if !c.Obl("receiver", "position", r.Pos, ix != nil, "the receiver written cannot be told") {
			continue
		}
		first, _ := isStrConst(ps[0])
		last, _ := isStrConst(ps[len(ps)-1])
		if !c.Obl("receiver", "parentheses", r.Pos, len(ps) > 2 && strings.HasSuffix(first, "(") && strings.TrimSpace(strings.TrimSuffix(first, "(")) == "" && last == ")", "a receiver is not a parameter in parentheses: %s", showParts(ps)) {
			continue
		}
		rr := &Row{Fn: fn, Loop: r.Loop, F: r.F, Pos: r.Pos, St: r.St}
		rr.Loop = loopOver(tb.IP.AllLoops, ix)
		choices16(func(key, ptr string, mk func(string, V) choice) {
			ch := mk(fnArg, ix)
			if !r.F.possible(ch) {
				return
			}
			if !c.Obl("receiver", "is the receiver", r.Pos, isRecv(ch, fnArg, ix), "a parameter that is not the receiver is written as the receiver (%s)", key) {
				return
			}
			got, tr, why := b.paramText("receiver", "receiver", rr, ps[1:len(ps)-1], ch)
			if c.Obl("receiver", "receiver text", r.Pos, why == "", "a receiver %s", why) && tr {
				b.note(b.sig, key, got)
			}
		})
	}
	c.Obl("receiver", "written", fn.Pos(), n > 0, "no receiver is written on any path")
	c.Floor("receiver", 50)
}

func loopOver(ls []*LoopMeta, ix V) *LoopMeta {
	for _, l := range ls {
		if "ix#"+l.Key+"#" == ix.K() {
			return l
		}
	}
	return ls[0]
}

// label writes a text with names for the values it is made of.
func label(v V, names map[string]string) string {
	var sb strings.Builder
	for _, p := range pieces(v, nil) {
		if s, ok := isStrConst(p); ok {
			sb.WriteString(s)
		} else if n, ok := names[p.K()]; ok {
			sb.WriteString(n)
		} else if t, ok := p.(*Term); ok && strings.HasPrefix(t.Op, "str:") && len(t.Args) == 1 && names[t.Args[0].K()] != "" {
			sb.WriteString(names[t.Args[0].K()])
		} else {
			sb.WriteString("⟨" + holeName(p) + "⟩")
		}
	}
	return sb.String()
}

var blanks = regexp.MustCompile(`\s+`)

func squeeze(s string) string { return strings.TrimSpace(blanks.ReplaceAllString(s, " ")) }

func (b *bind16) body() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "createProxies")
	if fn != nil {
		b.bodyPos = fn.Pos()
	}
	if fn == nil {
		return
	}
	const name = "$1"
	tb := c.table("body", fn, func(ip *Interp) { setupEmission(c, ip) })
	if tb == nil {
		return
	}
	b.bod = map[string]map[pair16]bool{}
	b.revOK, b.fwdOK = true, true
	mains := map[string]bool{}
	for _, r := range tb.Iter {
		if len(callsTo(r, "proxyArgFromGo")) > 0 {
			mains[r.Loop.Key] = true
		}
	}
	listed := false
	for _, r := range tb.Iter {
		if ix, _ := r.position(); ix == nil || !strings.Contains(r.Loop.Key, ".Params(") {
			continue
		}
		if len(callsTo(r, "proxyArgFromGo")) == 0 {
			if named := b.takenNames(r); named {
				listed = true
			}
			continue
		}
		b.argument(tb, r, name)
	}
	c.Obl("distinct", "the parameters' names are taken", fn.Pos(), listed || b.refTaken, "the Go names of the parameters are not kept apart from the variables of the body")
	c.Floor("converted", 100)
	c.Floor("distinct", 100)
	c.Floor("cleanup", 100)
	c.Floor("back", 100)
}

// takenNames: an iteration notes the Go name of the parameter, if it has one.
func (b *bind16) takenNames(r *Row) bool {
	for i := range r.Ev {
		if e := &r.Ev[i]; (e.Kind == "mapset" || e.Kind == "mapstore") && len(e.Args) >= 2 && r.paramName(e.Args[1]) {
			return true
		}
	}
	return false
}

func (b *bind16) argument(tb *Table, r *Row, fnName string) {
	c := b.c
	ix, _ := r.position()
	at := callsTo(r, "proxyArgFromGo")
	if !c.Obl("converted", "one conversion", r.Pos, len(at) == 1, "a parameter is converted %d times", len(at)) {
		return
	}
	ev := r.Ev[at[0]]
	if len(ev.Args) != 5 {
		c.Fail("converted", "conversion", r.Pos, "a parameter is converted with unexpected arguments")
		return
	}
	mem, ref, goSpec, cgoSpec := ev.Args[1], ev.Args[2], ev.Args[3], ev.Args[4]
	ok := c.Obl("named", "name converted", r.Pos, r.paramName(ref), "what is converted is not the parameter under its Go name: %s", holeName(ref))
	pv, tv, isTr := r.translated(goSpec, "Spec")
	ok = c.Obl("converted", "converted from", r.Pos, isTr, "the argument is not converted from the translation of the parameter's type: %s", holeName(goSpec)) && ok
	cg, isCG := callArgs(goSpecPeel(cgoSpec), "CGoSpec")
	ok = c.Obl("converted", "converted to", r.Pos, isCG && len(cg) == 3 && r.paramField(cg[1], "Spec") && isTrue(cg[2]), "the argument is not converted to the parameter's C type: %s", holeName(cgoSpec)) && ok
	if !ok {
		return
	}
	// the memory tip of the position, or else that of the type
	for _, m := range []string{"", "raw"} {
		for _, o := range []string{"", "raw"} {
			ch := memChoice(r, fnName, ix, m, o)
			if !r.F.possible(ch) {
				continue
			}
			want := m
			if want == "" {
				want = o
			}
			got, ok := tipVal(mem, ch)
			c.Obl("converted", "memory tip", r.Pos, ok && got == want, "the argument is converted with a memory tip that is not the parameter's or, without one, its type's: %s (memory tip %q, of the type itself %q)", holeName(mem), m, o)
		}
	}

	choices16(func(key, ptr string, mk func(string, V) choice) {
		ch := mk(fnName, ix)
		if !r.F.possible(ch) {
			return
		}
		p, ok1 := tipVal(pv, ch)
		t, ok2 := tipVal(tv, ch)
		if c.Obl("converted", "tips", r.Pos, ok1 && ok2, "the argument's type is translated with tips that are not those of the parameter: %s, %s", showPart(pv), showPart(tv)) {
			b.note(b.bod, key, norm16(p, t))
		}
	})

	// the declaration of the argument
	proxy := &Term{}
	_ = proxy
	var decl *StructV
	var declName, declText V
	stored := 0
	var lists []*StructV
	for i := range r.Ev {
		e := &r.Ev[i]
		if e.Kind != "store" && e.Kind != "append" || len(e.Args) == 0 {
			continue
		}
		var st *StructV
		var addr V
		if e.Kind == "store" {
			addr = e.Args[0]
			st, _ = e.Args[len(e.Args)-1].(*StructV)
		} else {
			st, _ = e.Args[len(e.Args)-1].(*StructV)
		}
		if st == nil || st.field("Decl") == nil {
			continue
		}
		if !mentionsResult(st.field("Decl"), "proxyArgFromGo") {
			lists = append(lists, st)
			continue
		}
		stored++
		decl, declName, declText = st, st.field("Name"), st.field("Decl")
		if addr != nil {
			_, i, ok := elemOf(addrPeel(addr))
			c.Obl("converted", "position stored", r.Pos, ok && i.K() == ix.K(), "the argument is kept at another position than its parameter's: %s", clip(addr.K(), 200))
		}
	}
	if !c.Obl("converted", "one argument", r.Pos, stored == 1 && decl != nil, "%d arguments are kept for a parameter", stored) {
		return
	}
	var from, nillable V
	walkV(declText, func(v V) {
		if a, ok := resultOf(v, 0); ok {
			if ca, ok := callArgs(a, "proxyArgFromGo"); ok && len(ca) == len(ev.Args) {
				from = v
			}
		}
	})
	if !c.Obl("converted", "conversion used", r.Pos, from != nil, "the declaration of an argument does not contain its conversion") {
		return
	}
	call, _ := resultOf(from, 0)
	nillable = mkTerm(nil, "#1", call)
	names := map[string]string{from.K(): "⟨conversion⟩", ref.K(): "⟨param⟩", cgoSpec.K(): "⟨ctype⟩"}
	for _, v := range pieces(declName, nil) {
		if _, ok := isStrConst(v); !ok && names[v.K()] == "" {
			names[v.K()] = "⟨var⟩"
		}
	}
	n := label(declName, names)
	text := squeeze(label(declText, names))
	safeLine := "⟨param⟩ = safeString(⟨param⟩) "
	safe := strings.HasPrefix(text, safeLine)
	text = strings.TrimPrefix(text, safeLine)
	isNil := r.F.evalBool(nillable)
	plainForm := fmt.Sprintf("%s, %sAllocMap := ⟨conversion⟩", n, n)
	nilForm := fmt.Sprintf("var %s ⟨ctype⟩ if ⟨param⟩ != nil { %s, _ = ⟨conversion⟩ }", n, n)
	c.Obl("converted", "declaration", r.Pos, isNil != 1 && text == plainForm || isNil != 0 && text == nilForm,
		"the body declares an argument as %q; its variable is %s", text, n)
	if !safe {
		c.Obl("safe", "string left as it is", r.Pos, b.notSafe(r, goSpec), "with safe strings, a string is passed without being made safe")
	} else {
		c.Obl("safe", "string made safe", r.Pos, !b.notSafe(r, goSpec), "something that is not a string, or without the option for safe strings, is passed through safeString")
		c.Obl("safe", "helper", r.Pos, submits(r, "safeString"), "safeString is called without its helper being submitted")
	}

	// its name is new
	c.Obl("distinct", "variable", r.Pos, b.fresh(tb, r, declName), "the variable %s of the body may have the name of a parameter or of another variable", n)
	marked := false
	for i := range r.Ev {
		if e := &r.Ev[i]; (e.Kind == "mapset" || e.Kind == "mapstore") && len(e.Args) >= 2 && e.Args[1].K() == declName.K() {
			marked = true
		}
	}
	c.Obl("distinct", "variable noted", r.Pos, marked, "the name of the variable %s is not noted as taken", n)

	// after the call
	keep, keepRef, repack := -1, -1, -1
	for i, st := range lists {
		t := label(st.field("Decl"), names)
		switch {
		case squeeze(t) == "runtime.KeepAlive("+n+"AllocMap)":
			c.Obl("cleanup", "allocations once", r.Pos, keep < 0, "the allocations of an argument are kept twice")
			keep = i
		case squeeze(t) == "runtime.KeepAlive(⟨param⟩)":
			keepRef = i
		case mentionsResult(st.field("Decl"), "proxyArgToGo"):
			repack = i
			b.repacked(r, st, ref, declName, mem, goSpec, cgoSpec, names)
		default:
			c.Fail("cleanup", "unknown", r.Pos, "after the call the body does something unexpected with an argument: %q", squeeze(t))
		}
		if !strings.HasSuffix(t, "\n") && !strings.HasSuffix(t, "}") {
			c.Fail("cleanup", "line", r.Pos, "a statement after the call does not end its line: %q", t)
		}
	}
	c.Obl("cleanup", "allocations kept", r.Pos, (keep >= 0) == (text == plainForm), "the allocations of an argument are %s: %q", map[bool]string{true: "kept alive although they are not declared", false: "not kept alive across the call"}[keep >= 0], text)
	c.Obl("cleanup", "safe string kept", r.Pos, (keepRef >= 0) == safe, "a string is made safe but not kept alive across the call, or the other way round")
	if repack >= 0 {
		for _, k := range []int{keep, keepRef} {
			if k >= 0 && k > repack {
				b.revOK = false
			}
			if k >= 0 && k < repack {
				b.fwdOK = false
			}
		}
	}
	b.backNeeded(r, goSpec, repack >= 0)
}

func goSpecPeel(v V) V { return peel(v) }
func isTrue(v V) bool  { b, ok := isBoolConst(v); return ok && b }

func addrPeel(v V) V {
	t, ok := v.(*Term)
	if ok && strings.HasPrefix(t.Op, "&") && t.Op != "&" {
		return mkTerm(t.T, t.Op[1:], t.Args...)
	}
	if ok && t.Op == "&" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return v
}

// mentionsResult: a value contains the first result of a call.
func mentionsResult(v V, fn string) (found bool) {
	walkV(v, func(x V) {
		if a, ok := resultOf(x, 0); ok {
			if _, ok := callArgs(a, fn); ok {
				found = true
			}
		}
	})
	return
}

// notSafe: the path knows the argument needs no safe string.
func (b *bind16) notSafe(r *Row, goSpec V) bool {
	for _, t := range r.F.boolTerms() {
		if r.F.b[t.K()] {
			continue
		}
		if t.Op == ".SafeStrings" {
			return true
		}
		if a, ok := callArgs(t, "IsGoString"); ok && len(a) == 1 && a[0].K() == goSpec.K() {
			return true
		}
	}
	return false
}

// submits: the path submits the helper with this name.
func submits(r *Row, name string) bool {
	for _, i := range callsTo(r, "submitHelper") {
		for _, a := range r.Ev[i].Args {
			if st, ok := r.St.pointee(a).(*StructV); ok {
				if n, ok := isStrConst(st.field("Name")); ok && n == name {
					return true
				}
			}
		}
	}
	return false
}

// fresh: the path knows that the name is in no set of taken names.
func (b *bind16) fresh(tb *Table, r *Row, name V) bool {
	hasName := func(v V, name string) bool {
		t, ok := v.(*Term)
		return ok && t.Op == "has" && len(t.Args) == 2 && t.Args[1].K() == name
	}
	for _, t := range r.F.boolTerms() {
		if r.F.b[t.K()] {
			continue
		}
		if hasName(t, name.K()) {
			return true
		}
		// a flag that says so for the value of a loop variable
		for _, l := range tb.IP.AllLoops {
			i0, ok := l.Init[t.K()]
			if !ok || len(l.Back) == 0 {
				continue
			}
			n0, ok := l.Init[name.K()]
			if !ok || !hasName(i0, n0.K()) {
				continue
			}
			all := true
			for _, be := range l.Back {
				f, ok1 := be.Carry[t.K()]
				n, ok2 := be.Carry[name.K()]
				if !ok1 || !ok2 || !hasName(f, n.K()) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// repacked: what is written back is the converted argument.
func (b *bind16) repacked(r *Row, st *StructV, ref, name, mem, goSpec, cgoSpec V, names map[string]string) {
	c := b.c
	var call []V
	var res V
	walkV(st.field("Decl"), func(v V) {
		if a, ok := resultOf(v, 0); ok {
			if ca, ok := callArgs(a, "proxyArgToGo"); ok {
				call, res = ca, v
			}
		}
	})
	ok := len(call) == 6 && call[1].K() == mem.K() && call[2].K() == ref.K() && call[3].K() == name.K() && call[4].K() == goSpec.K() && call[5].K() == cgoSpec.K()
	if !c.Obl("back", "written back", r.Pos, ok, "what is written back after the call is not the argument into its parameter") {
		return
	}
	names[res.K()] = "⟨back⟩"
	t := squeeze(label(st.field("Decl"), names))
	n1 := r.F.evalBool(mkTerm(nil, "#1", call0(res)))
	c.Obl("back", "statement", r.Pos, n1 != 1 && t == "⟨back⟩" || n1 != 0 && t == "if ⟨param⟩ != nil { ⟨back⟩ }", "an argument is written back with %q", t)
}

func call0(v V) V { c, _ := resultOf(v, 0); return c }

// backNeeded: arguments whose elements were converted are written back.
func (b *bind16) backNeeded(r *Row, goSpec V, done bool) {
	c := b.c
	plain := unk
	p1, p2 := unk, unk
	for _, t := range r.F.boolTerms() {
		v := triOf(r.F.b[t.K()])
		if a, ok := callArgs(t, "IsPlain"); ok && len(a) == 1 && a[0].K() == goSpec.K() {
			p1 = v
		}
		if a, ok := callArgs(t, "IsPlainKind"); ok && len(a) == 1 && a[0].K() == goSpec.K() {
			p2 = v
		}
	}
	switch {
	case p1 == yes || p2 == yes:
		plain = yes
	case p1 == no && p2 == no:
		plain = no
	}
	sl := r.F.interval(mkTerm(nil, ".Slices", goSpec))
	oa := r.F.interval(mkTerm(nil, "len", mkTerm(nil, ".OuterArr", goSpec)))
	// nothing to write back if the conversion of the argument back is empty
	for _, i := range callsTo(r, "proxyArgToGo") {
		_ = i
		if !done {
			c.Obl("back", "empty", r.Pos, true, "")
			return
		}
	}
	for _, p := range []bool{true, false} {
		if plain != unk && p != (plain == yes) {
			continue
		}
		for s := int64(0); s <= 2; s++ {
			for a := int64(0); a <= 1; a++ {
				if s < sl.lo || s > sl.hi || sl.neq[s] || a < oa.lo || a > oa.hi || oa.neq[a] {
					continue
				}
				need := !p && (s > 0 || a > 0) || p && (s > 0 && a > 0 || s > 1)
				c.Obl("back", fmt.Sprintf("plain %v, %d slices, %d arrays", p, s, a), r.Pos, need == done,
					"an argument that is %s, with %d slices and %d arrays, is %s after the call", map[bool]string{true: "plain", false: "not plain"}[p], s, a, map[bool]string{true: "written back", false: "not written back"}[done])
			}
		}
	}
}

func (b *bind16) agree() {
	c := b.c
	choices16(func(key, ptr string, mk func(string, V) choice) {
		s, d := b.sig[key], b.bod[key]
		if len(s) == 0 || len(d) == 0 {
			c.Fail("translate", key, b.bodyPos, "no translation of a parameter found: signature %s, body %s (%s)", tipsOf(s), tipsOf(d), key)
			return
		}
		same := func(x, y pair16) bool {
			one := map[string]bool{"ref": true, "inst": true, "sref": true}
			return x.t == y.t && (x.p == y.p || ptr == "inst" && one[x.p] && one[y.p])
		}
		ok := true
		for x := range s {
			for y := range d {
				ok = ok && same(x, y)
			}
		}
		c.Obl("translate", key, b.bodyPos, ok, "the signature gives a parameter the type for the tips %s, the body converts it as of the type for the tips %s (%s)", tipsOf(s), tipsOf(d), key)
	})
}

// memChoice: the memory tip of a position and of the type of the parameter itself.
func memChoice(r *Row, fnName string, ix V, m, o string) choice {
	return func(t tipRef) (string, bool) {
		switch {
		case t.what == "mem" && t.at != nil && t.at.K() == ix.K() && t.name.K() == fnName:
			return m, true
		case t.what == "mem of":
			if l, i, ok := elemOf(t.name); ok && strings.Contains(l.K(), ".Params(") && i.K() == ix.K() {
				return o, true
			}
		case t.what == "mem" && t.at == nil:
			if a, ok := callArgs(t.name, "CGoName"); ok && len(a) == 1 && r.paramField(a[0], "Spec") {
				return o, true
			}
		}
		return "", false
	}
}

// resultTips: the choices of the tips of a function itself.
func resultTips(f func(key string, mk func(fnName string) choice)) {
	for _, p := range ptrTips16 {
		for _, t := range typeTips16 {
			p, t := p, t
			f(fmt.Sprintf("pointer tip %q, type tip %q of the function itself", p, t), func(fnName string) choice {
				return func(r tipRef) (string, bool) {
					if r.scope != "function" || r.at != nil || r.name.K() != fnName {
						return "", false
					}
					switch r.what {
					case "ptr":
						return p, true
					case "type":
						return t, true
					}
					return "", false
				}
			})
		}
	}
}

// returnType: v is the translation of the result of the function; its tips.
func returnType(v V) (p, t V, ok bool) {
	v = peel(v)
	if x, ok := v.(*Term); ok && strings.HasPrefix(x.Op, "str:") && len(x.Args) == 1 {
		v = x.Args[0]
	} else if a, ok := callArgs(v, "String"); ok && len(a) == 1 {
		v = a[0]
	}
	a, ok := callArgs(v, "TranslateSpec")
	if !ok || len(a) != 3 || !isReturn(a[1]) {
		return nil, nil, false
	}
	s, ok := a[2].(*SeqV)
	if !ok || s.Base != nil || len(s.E) != 2 {
		return nil, nil, false
	}
	return s.E[0], s.E[1], true
}

func isReturn(v V) bool {
	t, ok := peel(v).(*Term)
	return ok && t.Op == ".Return" && (strings.Contains(t.K(), ".Spec(") || strings.Contains(t.K(), "CFunctionSpec($"))
}

func hasReturn(f *Facts) tri {
	return f.factBool(func(v V) bool {
		t, ok := v.(*Term)
		return ok && t.Op == "isnil" && len(t.Args) == 1 && isReturn(t.Args[0])
	}).not()
}

func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unk
}

// call: the body of a wrapper.
func (b *bind16) call() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "writeFunctionBody")
	if fn == nil {
		return
	}
	tb := c.table("call", fn, func(ip *Interp) {
		setupEmission(c, ip, "writeStartFuncBody", "writeEndFuncBody", "writeStartParams", "writeEndParams", "writeSpace", "writeValidation", "Line", "Linef", "WriteTo", "String")
	})
	if tb == nil {
		return
	}
	b.ret = map[string]map[pair16]bool{}
	name := ".Name(*($2))"
	proxies := func(v V, n int) bool {
		r, ok := resultOf(peel(v), n)
		if !ok {
			return false
		}
		a, ok := callArgs(r, "createProxies")
		return ok && len(a) == 3 && a[1].K() == name && a[2].K() == ".Spec(*($2))"
	}
	// the loops, by what they write for an element
	kind := map[string]string{}
	bad := map[string]string{}
	args := map[string][]listedItem{}
	set := func(key, k string) {
		if o, ok := kind[key]; ok && o != k {
			k = "several things"
		}
		kind[key] = k
	}
	field := func(v V) (string, V, V) {
		t, ok := peel(v).(*Term)
		if !ok || len(t.Args) != 1 {
			return "", nil, nil
		}
		e := t.Args[0]
		if d, ok := e.(*Term); ok && d.Op == "*" {
			e = d.Args[0]
		}
		l, ix, ok := elemOf(e)
		if !ok {
			return "", nil, nil
		}
		return t.Op, l, ix
	}
	for _, r := range tb.Iter {
		it := itemOf(r, ", ")
		if len(it.parts) == 0 {
			continue
		}
		f, l, ix := field(it.parts[0])
		pos, _ := r.position()
		own := pos != nil && ix != nil && pos.K() == ix.K()
		rest := ""
		for _, p := range it.parts[1:] {
			s, ok := isStrConst(p)
			if !ok {
				s = "?"
			}
			rest += s
		}
		switch {
		case f == ".Decl" && own && proxies(l, 0) && rest == "\n":
			set(loopKey(r.Loop.Key, it.parts), "declarations")
		case f == ".Name" && own && proxies(l, 0) && rest == "":
			set(loopKey(r.Loop.Key, it.parts), "arguments")
			k := loopKey(r.Loop.Key, it.parts)
			args[k] = append(args[k], it)
		case f == ".Decl" && own && proxies(l, 1) && strings.TrimSpace(rest) == "":
			set(loopKey(r.Loop.Key, it.parts), "cleanup forward")
		default:
			if down, src := reversed(r, it.parts); down != "" {
				f, l, _ := field(down2(tb, src))
				if f == ".Decl" && proxies(l, 1) || proxies(src, 1) && isDecl(it.parts[0]) {
					set(loopKey(r.Loop.Key, it.parts), "cleanup reversed")
					continue
				}
			}
			set(loopKey(r.Loop.Key, it.parts), "something else")
			bad[loopKey(r.Loop.Key, it.parts)] = showParts(it.parts)
		}
	}
	joined := map[string]bool{}
	for _, r := range tb.Path {
		for _, p := range pieces(r.St.streams["$1"], nil) {
			if l, ok := joinedList(p); ok {
				joined[loopKey(repKey(mustStr(l.Args[0])), pieces(l.Args[1], nil))] = true
			}
		}
	}
	for _, k := range sortedKeys(args) {
		why := separated(args[k], joined[k])
		c.Obl("call", "separators of the arguments", fn.Pos(), why == "", "%s: %s", c.short(fn), why)
	}
	for _, r := range tb.Path {
		v := r.St.streams["$1"]
		if !c.Obl("call", "text", r.Pos, v != nil, "no body can be followed on a path") {
			continue
		}
		matched := r.F.factBool(func(v V) bool {
			x, ok := v.(*Term)
			return ok && x.Op == "#2" && strings.Contains(x.K(), "GetLibrarySymbolValidation(") && strings.Contains(x.K(), name)
		})
		ret := hasReturn(r.F)
		var sb strings.Builder
		var proxy V
		for _, p := range pieces(v, nil) {
			if s, ok := isStrConst(p); ok {
				sb.WriteString(s)
				continue
			}
			t, _ := p.(*Term)
			if l, ok := joinedList(p); ok {
				t = l
			}
			switch {
			case t != nil && (t.Op == "rep" || t.Op == "seq"):
				k := ""
				for _, a := range t.Args[1:] {
					if ps := pieces(a, nil); len(ps) > 0 {
						k2 := loopKey(repKey(mustStr(t.Args[0])), ps)
						if k != "" && kind[k] != kind[k2] {
							k = "?"
							break
						}
						k = k2
					}
				}
				if kind[k] == "" || bad[k] != "" {
					sb.WriteString("⟨" + bad[k] + "⟩")
				} else {
					sb.WriteString("⟨" + kind[k] + "⟩")
				}
			case p.K() == name:
				sb.WriteString("⟨name⟩")
			default:
				if x, ok := resultOf(p, 0); ok {
					if _, ok := callArgs(x, "proxyRetToGo"); ok {
						proxy = x
						sb.WriteString("⟨result⟩")
						continue
					}
				}
				if strings.Contains(p.K(), "GetLibrarySymbolValidation(") && t != nil {
					sb.WriteString("⟨validation" + t.Op + "⟩")
					continue
				}
				sb.WriteString("⟨" + holeName(p) + "⟩")
			}
		}
		text := squeeze(sb.String())
		if i := strings.Index(text, "if ret == nil { return nil }"); i >= 0 && proxy != nil && r.F.evalBool(mkTerm(nil, "#1", proxy)) == 1 {
			// no conversion of a result is nillable (rule result)
			continue
		}
		want := "{ "
		valid := `if ⟨validation#0⟩("⟨name⟩") != nil { return ⟨validation#1⟩ } `
		if strings.Contains(text, valid) != (matched == yes) {
			c.Obl("call", "validation", r.Pos, false, "a function is validated exactly if that is configured, but the body is %q with a validation %s", text, matched)
			continue
		}
		if matched == yes {
			want += valid
		}
		want += "⟨declarations⟩"
		cleanup := "⟨cleanup reversed⟩"
		if strings.Contains(text, "⟨cleanup forward⟩") {
			cleanup = "⟨cleanup forward⟩"
			c.Obl("cleanup", "order", r.Pos, b.fwdOK, "the allocations of an argument are let go before its elements are written back")
		} else {
			c.Obl("cleanup", "order", r.Pos, b.revOK, "the allocations of an argument are let go before its elements are written back")
		}
		if !c.Obl("call", "result known", r.Pos, ret != unk, "the body is written without regard to whether the function has a result") {
			continue
		}
		var varV, varR string
		if ret == yes {
			a, _ := callArgs(proxy, "proxyRetToGo")
			if !c.Obl("result", "converted", r.Pos, len(a) == 6, "the result of a function is not converted to Go: %q", text) {
				continue
			}
			varV, varR = mustStr(a[2]), mustStr(a[3])
			want += varR + " := "
			c.Obl("result", "C type", r.Pos, isResultCGo(a[5]), "the result is not converted from the C type of the function's result: %s", holeName(a[5]))
			m, ok := tipRefOf(a[1])
			c.Obl("result", "memory tip", r.Pos, ok && m.what == "mem" && m.at == nil && m.name.K() == name, "the result is converted with another memory tip than the function's: %s", holeName(a[1]))
			pv, tv, ok := returnType(a[4])
			if !c.Obl("result", "Go type", r.Pos, ok, "the result is not converted to the translation of its type: %s", holeName(a[4])) {
				continue
			}
			resultTips(func(key string, mk func(string) choice) {
				ch := mk(name)
				if !r.F.possible(ch) {
					return
				}
				p, ok1 := tipVal(pv, ch)
				t, ok2 := tipVal(tv, ch)
				if c.Obl("result", "tips", r.Pos, ok1 && ok2, "the result is translated with tips that are not the function's: %s, %s", showPart(pv), showPart(tv)) {
					b.note(b.ret, key, norm16(p, t))
				}
			})
		}
		want += "C.⟨name⟩(⟨arguments⟩) " + cleanup
		if ret == yes {
			want += "⟨result⟩ return " + varV + " "
		}
		want += "}"
		c.Obl("call", "body", r.Pos, text == want, "the body of a wrapper is %q, not %q", text, want)
	}
	c.Floor("call", 6)
}

func isDecl(v V) bool {
	t, ok := peel(v).(*Term)
	return ok && t.Op == ".Decl"
}

// joinedList: a list whose elements are written with commas between them.
func joinedList(v V) (*Term, bool) {
	t, ok := peel(v).(*Term)
	if !ok || t.Op != "s:Join" || len(t.Args) != 2 || mustStr(t.Args[1]) != ", " {
		return nil, false
	}
	l, ok := t.Args[0].(*Term)
	return l, ok && l.Op == "seq" && len(l.Args) > 1
}

// loopKey tells loops over the same list apart by what they write.
func loopKey(key string, parts []V) string {
	for _, p := range parts {
		if _, ok := isStrConst(p); !ok {
			return noIDs(key) + "|" + noIDs(p.K())
		}
	}
	return noIDs(key)
}

func isResultCGo(v V) bool {
	a, ok := callArgs(peel(v), "CGoSpec")
	return ok && len(a) == 3 && isReturn(a[1]) && isFalse(a[2])
}

func mustStr(v V) string { s, _ := isStrConst(v); return s }

// reversed: an iteration that goes down a list, element by element.
func reversed(r *Row, parts []V) (key string, src V) {
	e := peel(parts[0])
	if t, ok := e.(*Term); ok && t.Op == ".Decl" && len(t.Args) == 1 {
		e = t.Args[0]
		if d, ok := e.(*Term); ok && d.Op == "*" && len(d.Args) == 1 {
			e = d.Args[0]
		}
	}
	l, ix, ok := elemOf(e)
	if !ok || len(parts) > 1 {
		return "", nil
	}
	k := ix.K()
	init, ok := r.Loop.Init[k]
	if !ok {
		return "", nil
	}
	after, ok := r.Be.Carry[k]
	if !ok {
		return "", nil
	}
	b0, n0, ok := lin(init)
	b1, n1, ok1 := lin(after)
	if !ok || !ok1 || b1 == nil || b1.K() != k || n1 != -1 || n0 != -1 || b0 == nil || noIDs(b0.K()) != noIDs("len("+l.K()+")") {
		return "", nil
	}
	if r.F.interval(ix).lo != 0 {
		return "", nil
	}
	return k, l
}

var objectIDs = regexp.MustCompile(`#h\d+`)

// noIDs: a term's key without the numbers of the objects on the way.
func noIDs(k string) string { return objectIDs.ReplaceAllString(k, "#h") }

// down2: what a list collected in a loop holds for an element.
func down2(tb *Table, l V) V {
	t, ok := l.(*Term)
	if !ok || t.Op != "seq" || len(t.Args) != 2 {
		return l
	}
	return t.Args[1]
}

// result: the type the signature gives the result.
func (b *bind16) result() {
	c := b.c
	fn := c.Anchor("generator", "Generator", "writeFunctionDeclaration")
	if fn == nil {
		return
	}
	tb := c.table("result", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" || e.Kind == "write" })
	})
	if tb == nil {
		return
	}
	isName := func(v V) bool {
		v = peel(v)
		if r, ok := resultOf(v, 0); ok {
			a, ok := callArgs(r, "getName")
			return ok && len(a) == 1 && a[0].K() == "$2"
		}
		return v.K() == ".Name(*($2))"
	}
	ptrArg, typeArg := "", ""
	for _, r := range tb.Path {
		var sb strings.Builder
		for i := range r.Ev {
			e := &r.Ev[i]
			switch {
			case e.Kind == "write":
				for _, p := range pieces(e.Args[len(e.Args)-1], nil) {
					if s, ok := isStrConst(p); ok {
						sb.WriteString(s)
						continue
					}
					q := peel(p)
					if a, ok := callArgs(q, "checkName"); ok {
						q = peel(a[0])
					}
					if a, ok := callArgs(q, "TransformName"); ok && len(a) == 4 {
						n := a[2]
						if ct, ok := n.(*Cat); ok {
							n = ct.Parts[len(ct.Parts)-1]
						}
						if s := mustStr(a[1]); s == "function" && isName(n) {
							sb.WriteString("⟨name⟩")
							continue
						}
					}
					if pv, tv, ok := returnType(q); ok {
						sb.WriteString("⟨result⟩")
						ptrArg, typeArg = pv.K(), tv.K()
						continue
					}
					sb.WriteString("⟨?⟩")
				}
			case e.Kind == "call":
				k := ""
				switch opSuffix(e.Name) {
				case "writeInstanceObjectParam":
					k = "⟨receiver⟩"
				case "writeFunctionParams":
					k = "⟨parameters⟩"
				case "writeFunctionBody":
					ok := len(e.Args) == 3 && e.Args[2].K() == "$2"
					c.Obl("linked", "body", r.Pos, ok, "the body written is not that of the function declared")
					sb.WriteString("⟨body⟩")
					continue
				default:
					continue
				}
				sb.WriteString(k)
				ok := len(e.Args) == 4 && isName(e.Args[2]) && e.Args[3].K() == ".Spec(*($2))"
				c.Obl("linked", k, r.Pos, ok, "the %s written are not those of the function declared, under its name", k)
			}
		}
		text := sb.String()
		if i := strings.Index(text, "\nfunc"); strings.HasPrefix(text, "//") && i >= 0 {
			text = text[i:]
		}
		text = squeeze(strings.ReplaceAll(text, "⟨receiver⟩", " ⟨receiver⟩ "))
		ret := hasReturn(r.F)
		want := "func ⟨receiver⟩ ⟨name⟩⟨parameters⟩"
		if !c.Obl("result", "known", r.Pos, ret != unk, "the declaration is written without regard to whether the function has a result") {
			continue
		}
		if ret == yes {
			empty := false
			for _, iv := range r.F.iv {
				_ = iv
			}
			for k, iv := range r.F.iv {
				if t, ok := r.F.at[k].(*Term); ok && t.Op == "len" && len(t.Args) == 1 && iv.hi <= 0 {
					if _, _, ok := returnType(t.Args[0]); ok {
						empty = true
					}
				}
			}
			if empty {
				continue // no type has an empty name
			}
			want += " ⟨result⟩"
		}
		want += "⟨body⟩"
		if !c.Obl("linked", "declaration", r.Pos, text == want, "the wrapper of a function is written as %q, not %q", text, want) {
			continue
		}
	}
	if !c.Obl("result", "declared", fn.Pos(), ptrArg != "" && typeArg != "", "no result is declared") {
		return
	}
	wd := c.Anchor("generator", "Generator", "WriteDeclares")
	if wd == nil {
		return
	}
	tb = c.table("result", wd, func(ip *Interp) { setupEmission(c, ip) })
	if tb == nil {
		return
	}
	sig := map[string]map[pair16]bool{}
	at := func(e *Event, arg string) V {
		if len(arg) == 2 && arg[0] == '$' {
			if n := int(arg[1] - '0'); n < len(e.Args) {
				return e.Args[n]
			}
		}
		return nil
	}
	for _, r := range tb.Iter {
		for _, i := range callsTo(r, "writeFunctionDeclaration") {
			e := &r.Ev[i]
			pv, tv := at(e, ptrArg), at(e, typeArg)
			if !c.Obl("result", "tips of the declaration", r.Pos, pv != nil && tv != nil && len(e.Args) > 2, "the tips of a function's result are not told to its declaration") {
				continue
			}
			name := mkTerm(nil, ".Name", mkTerm(nil, "*", e.Args[2])).K()
			resultTips(func(key string, mk func(string) choice) {
				ch := mk(name)
				if !r.F.possible(ch) {
					return
				}
				p, ok1 := tipVal(pv, ch)
				t, ok2 := tipVal(tv, ch)
				if c.Obl("result", "declared with the tips", r.Pos, ok1 && ok2, "the result is declared with tips that are not the function's: %s, %s", showPart(pv), showPart(tv)) {
					b.note(sig, key, norm16(p, t))
				}
			})
		}
	}
	resultTips(func(key string, mk func(string) choice) {
		s, d := sig[key], b.ret[key]
		c.Obl("result", key, wd.Pos(), len(s) == 1 && tipsOf(s) == tipsOf(d), "the result is declared with the type for the tips %s, and converted to the type for the tips %s (%s)", tipsOf(s), tipsOf(d), key)
	})
	c.Floor("result", 50)
	c.Floor("linked", 10)
}
