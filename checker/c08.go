package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: what generated code calls on is generated with it.

func init() { checks["C08"] = c08 }

// names08: identifiers, and what they are there for.
type names08 map[string]bool

// fn08: what a function of the generator leaves submitted whenever it
// returns, and what it writes about without having it submitted.
type fn08 struct {
	fn    *ssa.Function
	gives names08
	needs map[string]need08
	// for a function that makes a helper: what comes with that helper
	comes names08
	calls []*ssa.Function
}

type need08 struct {
	pos  token.Pos
	what string
}

type all08 struct {
	c *Ctx
	// an identifier of the static helpers' sources: the helper it is in
	owner map[string]string
	reqs  map[string]names08 // closure of what a static helper requires, itself included
	says  map[string]names08 // what the source of a static helper refers to
	at    map[string]token.Pos
	used  names08 // the static helpers that are submitted or required by helpers made
	done  map[*ssa.Function]*fn08
	order []*fn08
}

func c08(c *Ctx) {
	c.Rule("defined: what a text written into the generated package refers to of the fixed helpers is submitted on the path that writes it, comes with the helper that the text is part of, or is submitted by every caller")
	c.Rule("handled: a helper that a function makes or is given is submitted, required by another helper or handed on, on every path where there is one")
	c.Rule("name: the name of a helper made for one type has all the sizes of its arrays, its slices and pointers, in this order, and its base, so that no other type has it")
	c.Rule("static: a fixed helper that is submitted or required brings along everything that it and the helpers it brings refer to")
	c.explain = "Every function of the generator is interpreted abstractly; on each path (and each iteration of each loop) the texts written, returned or stored and the sources of the helpers made are searched for the names that the fixed helpers declare, and for names taken of helpers that other functions make. What a path submits, what the helpers bring along and what every path of a called function submits is set against that; what is left over is asked of the callers in turn, and an exported function or one without callers may leave nothing over."
	a := &all08{c: c, owner: map[string]string{}, reqs: map[string]names08{}, says: map[string]names08{}, at: map[string]token.Pos{}, used: names08{}, done: map[*ssa.Function]*fn08{}}
	if !a.statics() {
		return
	}
	for _, fn := range c.Funcs {
		if fn.Pkg != nil && fn.Pkg.Pkg.Name() == "generator" && fn.Parent() == nil && fn.Blocks != nil && fn.Synthetic == "" && c.isBaseline(fn) && fn.Name() != "init" {
			a.of(fn)
		}
	}
	for _, n := range sortedKeys(a.used) {
		var left []string
		for h := range a.reqs[n] {
			for m := range a.says[h] {
				if !a.reqs[n][m] {
					left = append(left, m+" (in "+h+")")
				}
			}
		}
		sort.Strings(left)
		c.Obl("static", n, a.at[n], len(left) == 0, "the helper %s comes without %s, which it refers to", n, strings.Join(left, ", "))
	}
	called := map[*ssa.Function]bool{}
	for _, f := range a.order {
		for _, g := range f.calls {
			called[g] = true
		}
	}
	n := 0
	for _, f := range a.order {
		if called[f.fn] && !ast.IsExported(f.fn.Name()) {
			continue
		}
		n++
		c.Fn(f.fn)
		var left []string
		var pos token.Pos = f.fn.Pos()
		for _, k := range sortedKeys(f.needs) {
			left = append(left, k+" ("+f.needs[k].what+")")
			pos = f.needs[k].pos
		}
		c.Obl("defined", f.fn.Name(), pos, len(left) == 0, "%s writes code that refers to %s without the helper being submitted or required", f.fn.Name(), strings.Join(left, ", "))
	}
	c.Stat("outermost functions", n)
	c.Stat("functions followed", len(a.order))
	c.Assume("a helper that is submitted is written with everything it requires (C09)")
	c.names08("", "getHelperName", "$0", []string{"OuterArr", "Slices", "Pointers", "InnerArr", "base"})
	c.names08("Generator", "getTypedHelperName", "$2", []string{"OuterArr", "Pointers", "InnerArr", "base", "$1"})
	c.Floor("name", 12)
	c.Floor("defined", 10)
	c.Floor("handled", 40)
	c.Floor("static", 5)
}

// statics reads the helpers that are package variables.
func (a *all08) statics() bool {
	c := a.c
	ip := newInterp(c.Program)
	if err := ip.runInits(); err != nil {
		c.Fail("static", "init", token.NoPos, "%v", err)
		return false
	}
	pkg := c.SSA["generator"]
	if pkg == nil {
		c.Fail("static", "package", token.NoPos, "there is no package generator")
		return false
	}
	st := ip.newState()
	type helper struct {
		name, src string
		reqs      []string
		pos       token.Pos
	}
	var list []helper
	for _, m := range sortedKeys(pkg.Members) {
		g, ok := pkg.Members[m].(*ssa.Global)
		if !ok || !isHelper(derefT(derefT(g.Type()))) {
			continue
		}
		s, ok := st.pointee(st.get(ip.globals[g])).(*StructV)
		if !ok {
			c.Fail("static", g.Name(), g.Pos(), "the helper %s is not known before the program begins", g.Name())
			continue
		}
		h := helper{pos: g.Pos()}
		h.name, _ = isStrConst(s.field("Name"))
		h.src, _ = isStrConst(s.field("Source"))
		if l, ok := st.snap(s.field("Requires")).(*SeqV); ok {
			for _, e := range l.E {
				if r, ok := st.pointee(e).(*StructV); ok {
					n, _ := isStrConst(r.field("Name"))
					h.reqs = append(h.reqs, n)
				}
			}
		}
		list = append(list, h)
	}
	for _, h := range list {
		for _, d := range declared08(h.src) {
			a.owner[d] = h.name
		}
		a.reqs[h.name] = names08{h.name: true}
	}
	for more := true; more; {
		more = false
		for _, h := range list {
			for _, r := range h.reqs {
				for n := range a.reqs[r] {
					if !a.reqs[h.name][n] {
						a.reqs[h.name][n] = true
						more = true
					}
				}
			}
		}
	}
	for _, h := range list {
		a.says[h.name] = a.idents(h.src)
		a.at[h.name] = h.pos
	}
	return len(list) > 0
}

// declared08: what a piece of Go declares at its top level.
func declared08(src string) (out []string) {
	f, err := parser.ParseFile(token.NewFileSet(), "", "package p\n"+src, 0)
	if err != nil {
		return nil
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				out = append(out, d.Name.Name)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					out = append(out, s.Name.Name)
				case *ast.ValueSpec:
					for _, n := range s.Names {
						out = append(out, n.Name)
					}
				}
			}
		}
	}
	return
}

// idents: the fixed helpers that a text refers to, comments left out.
func (a *all08) idents(text string) names08 {
	out := names08{}
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		lines = append(lines, l)
	}
	for _, w := range strings.FieldsFunc(strings.Join(lines, "\n"), func(r rune) bool {
		return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
	}) {
		if o, ok := a.owner[w]; ok {
			out[o] = true
		}
	}
	return out
}

// of interprets a function once.
func (a *all08) of(fn *ssa.Function) *fn08 {
	if f, ok := a.done[fn]; ok {
		return f
	}
	f := &fn08{fn: fn, needs: map[string]need08{}, gives: names08{}, comes: names08{}}
	a.done[fn] = f
	if !a.writes(fn) {
		return f
	}
	a.order = append(a.order, f)
	t := a.c.table("defined", fn, func(ip *Interp) { setupEmission(a.c, ip) })
	if t == nil {
		return f
	}
	for _, r := range append(append([]*Row(nil), t.Path...), t.Iter...) {
		evs := r.Ev
		for i := range evs {
			if g := a.callee(&evs[i]); g != nil {
				f.calls = append(f.calls, g)
			}
		}
	}
	// what every path gives
	first := true
	for _, r := range t.Path {
		if len(r.Ret) == 0 && fn.Signature.Results().Len() > 0 {
			continue
		}
		sub := a.submitted(r)
		come := a.comesWith(r, r.Ret)
		if first {
			f.gives, f.comes, first = sub, come, false
			continue
		}
		f.gives, f.comes = both08(f.gives, sub), both08(f.comes, come)
	}
	for _, r := range append(append([]*Row(nil), t.Path...), t.Iter...) {
		have := a.submitted(r)
		for n := range f.gives {
			have[n] = true
		}
		a.wants(f, r, have)
		a.handled(f, t, r)
		a.made(f, r)
	}
	return f
}

// writes: the function has to do with what is generated.
func (a *all08) writes(fn *ssa.Function) bool {
	if fn.Name() == "submitHelper" || fn.Name() == "MonitorAndWriteHelpers" {
		return false
	}
	return true
}

// callee: the function of the generator that a call is to.
func (a *all08) callee(e *Event) *ssa.Function {
	if e.Kind != "call" || e.Call == nil {
		return nil
	}
	if g := e.Call.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Name() == "generator" {
		return g
	}
	for _, g := range a.c.Funcs {
		if g.Pkg != nil && g.Pkg.Pkg.Name() == "generator" && a.c.short(g) == e.Name {
			return g
		}
	}
	return nil
}

func both08(a, b names08) names08 {
	out := names08{}
	for n := range a {
		if b[n] {
			out[n] = true
		}
	}
	return out
}

// submitted: what is sure to be submitted once the path is done.
func (a *all08) submitted(r *Row) names08 {
	out := names08{}
	evs := r.St.tr
	for i := range evs {
		e := &evs[i]
		g := a.callee(e)
		if g == nil {
			continue
		}
		if g.Name() == "submitHelper" {
			for n := range a.comesWith(r, e.Raw[1:]) {
				out[n] = true
			}
			continue
		}
		for n := range a.of(g).gives {
			out[n] = true
		}
	}
	return out
}

// comesWith: the fixed helpers that are written when the values, which are
// helpers, are submitted.
func (a *all08) comesWith(r *Row, vs []V) names08 {
	out := names08{}
	add := func(m names08) {
		for n := range m {
			out[n] = true
		}
	}
	for _, v := range vs {
		if s, ok := r.St.pointee(v).(*StructV); ok && isHelper(s.T) {
			if n, ok := isStrConst(s.field("Name")); ok && a.reqs[n] != nil {
				add(a.reqs[n])
				a.used[n] = true
				continue
			}
			if l, ok := r.St.snap(s.field("Requires")).(*SeqV); ok {
				add(a.comesWith(r, l.E))
			}
			continue
		}
		if t, ok := v.(*Term); ok && strings.HasPrefix(t.Op, "call:") {
			for _, g := range a.c.Funcs {
				if "call:"+a.c.short(g) == t.Op {
					add(a.of(g).comes)
				}
			}
		}
	}
	return out
}

// wants: what the path writes about.
func (a *all08) wants(f *fn08, r *Row, have names08) {
	need := func(n string, own names08, pos token.Pos, what string) {
		a.c.Stat("references", 1)
		if have[n] || own[n] {
			return
		}
		if _, ok := f.needs[n]; !ok {
			f.needs[n] = need08{pos, what}
		}
	}
	text := func(v V, own names08, what string) {
		for _, s := range consts08(v) {
			for n := range a.idents(s) {
				need(n, own, r.Pos, what)
			}
		}
	}
	for _, k := range sortedKeys(r.St.streams) {
		text(r.St.streams[k], nil, "written by "+f.fn.Name())
	}
	for _, v := range r.Ret {
		if isText(v) || typeOf(v) != nil && isStringType(typeOf(v)) {
			text(v, nil, "returned by "+f.fn.Name())
		}
	}
	for _, id := range sortedInts(r.St.heap) {
		switch s := r.St.heap[id].(type) {
		case *StructV:
			if isHelper(s.T) {
				if n, ok := isStrConst(s.field("Name")); ok && a.reqs[n] != nil {
					continue
				}
				own := names08{}
				if l, ok := r.St.snap(s.field("Requires")).(*SeqV); ok {
					own = a.comesWith(r, l.E)
				}
				if s.field("Source") != nil {
					text(s.field("Source"), own, "in a helper made by "+f.fn.Name())
				}
			}
		}
	}
	for i := range r.Ev {
		e := &r.Ev[i]
		switch e.Kind {
		case "append", "store", "mapset", "mapstore", "copy", "write":
			for _, v := range e.Args {
				if v == nil || typeOf(v) != nil && isHelper(derefT(typeOf(v))) {
					continue
				}
				if s, ok := v.(*StructV); ok {
					for _, fv := range s.F {
						text(fv, nil, "stored by "+f.fn.Name())
					}
					continue
				}
				text(v, nil, "stored by "+f.fn.Name())
			}
		}
		if g := a.callee(e); g != nil && g.Name() != "submitHelper" {
			n08 := a.of(g).needs
			for _, n := range sortedKeys(n08) {
				need(n, nil, e.Pos, n08[n].what)
			}
		}
	}
}

// consts08: the constant parts of a text; what calls are handed is theirs.
func consts08(v V) (out []string) {
	switch v := v.(type) {
	case *Const:
		if s, ok := isStrConst(v); ok {
			out = append(out, s)
		}
	case *Term:
		if strings.HasPrefix(v.Op, "call:") || strings.HasPrefix(v.Op, "inv:") {
			return
		}
		for _, x := range v.Args {
			out = append(out, consts08(x)...)
		}
	case *Cat:
		for _, x := range v.Parts {
			out = append(out, consts08(x)...)
		}
	case *SeqV:
		for _, x := range v.E {
			out = append(out, consts08(x)...)
		}
	case *Iface:
		return consts08(v.X)
	}
	return
}

// handled: nothing that is made is forgotten.
func (a *all08) handled(f *fn08, t *Table, r *Row) {
	c := a.c
	for i := range r.Ev {
		e := &r.Ev[i]
		if e.Kind != "call" || e.Res == nil {
			continue
		}
		res, ok := e.Res.(*Term)
		if !ok {
			continue
		}
		rt := typeOf(res)
		if rt == nil {
			continue
		}
		switch {
		case isHelper(derefT(rt)) && rt != derefT(rt):
			if nilKnown08(r, res) {
				continue
			}
			c.Obl("handled", f.fn.Name()+": "+opSuffix(e.Name), e.Pos, a.kept(r, res), "%s neither submits nor requires nor hands on the helper that %s makes", f.fn.Name(), opSuffix(e.Name))
		case isHelpers08(rt):
			ok := false
			for _, l := range t.IP.AllLoops {
				if strings.Contains(l.Key, res.K()) {
					ok = true
				}
			}
			each := 0
			for _, it := range t.Iter {
				if !strings.Contains(it.Loop.Key, res.K()) {
					continue
				}
				each++
				sub := false
				for _, j := range callsTo(it, "submitHelper") {
					for _, x := range it.Ev[j].Raw {
						if l, _, isE := elemOf(x); isE && l.K() == res.K() {
							sub = true
						}
					}
				}
				ok = ok && sub && !it.Loop.Early
			}
			c.Obl("handled", f.fn.Name()+": "+opSuffix(e.Name), e.Pos, (ok && each > 0) || a.kept(r, res), "%s does not submit every helper that %s makes", f.fn.Name(), opSuffix(e.Name))
		}
	}
}

func isHelpers08(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isHelper(derefT(s.Elem()))
}

func nilKnown08(r *Row, v V) bool {
	for _, t := range r.F.boolTerms() {
		if t.Op == "isnil" && t.Args[0].K() == v.K() && r.F.b[t.K()] {
			return true
		}
	}
	return false
}

// kept: the helper is submitted, required or handed on.
func (a *all08) kept(r *Row, v V) bool {
	k := v.K()
	for i := range r.Ev {
		e := &r.Ev[i]
		if e.Kind == "call" && opSuffix(e.Name) == "submitHelper" {
			for _, x := range e.Raw {
				if x.K() == k {
					return true
				}
			}
		}
		if e.Kind == "append" || e.Kind == "store" {
			for _, x := range e.Args {
				if a.holds(r, x, k, 0) {
					return true
				}
			}
		}
	}
	for _, x := range r.Ret {
		if a.holds(r, x, k, 0) {
			return true
		}
	}
	for _, id := range sortedInts(r.St.heap) {
		if s, ok := r.St.heap[id].(*StructV); ok && isHelper(s.T) {
			if l, ok := r.St.snap(s.field("Requires")).(*SeqV); ok {
				for _, e := range l.E {
					if e.K() == k {
						return true
					}
				}
			}
		}
	}
	return false
}

// holds: the value is the one with the key, or a list, an object or a helper
// that brings it along.
func (a *all08) holds(r *Row, v V, k string, depth int) bool {
	if v == nil || depth > 4 {
		return false
	}
	if v.K() == k {
		return true
	}
	v = r.St.snap(v)
	if v.K() == k {
		return true
	}
	if p := r.St.pointee(v); p != nil {
		return a.holds(r, p, k, depth+1)
	}
	switch v := v.(type) {
	case *Iface:
		return a.holds(r, v.X, k, depth+1)
	case *Term:
		if v.Op == "seq" { // what a loop goes on with
			for _, e := range v.Args {
				if a.holds(r, e, k, depth+1) {
					return true
				}
			}
		}
	case *SeqV:
		if v.Base != nil && a.holds(r, v.Base, k, depth+1) {
			return true
		}
		for _, e := range v.E {
			if a.holds(r, e, k, depth+1) {
				return true
			}
		}
	case *StructV:
		if isHelper(v.T) {
			return a.holds(r, v.field("Requires"), k, depth+1)
		}
		for _, f := range v.F {
			if a.holds(r, f, k, depth+1) {
				return true
			}
		}
	}
	return false
}

// made: the helpers made on the path are handed on.
func (a *all08) made(f *fn08, r *Row) {
	for _, id := range sortedInts(r.St.heap) {
		s, ok := r.St.heap[id].(*StructV)
		if !ok || !isHelper(s.T) || id < r.St.ip.baseN {
			continue
		}
		if r.Be != nil {
			if _, old := r.Be.Head.heap[id]; old {
				continue
			}
		}
		at := r.St.snap(&Ptr{Obj: id, T: types.NewPointer(s.T)})
		name := ""
		if ps := pieces(s.field("Name"), nil); len(ps) > 0 {
			for _, p := range ps {
				if t, ok := isStrConst(p); ok {
					name += t
				} else {
					name += "…"
				}
			}
		}
		ok = a.kept(r, at)
		if ok && r.Be == nil {
			// appended once, but not in what is handed back
			back := false
			for _, x := range r.Ret {
				back = back || a.holds(r, x, at.K(), 0)
			}
			for i := range r.Ev {
				e := &r.Ev[i]
				if e.Kind == "call" && opSuffix(e.Name) == "submitHelper" {
					for _, x := range e.Raw {
						back = back || a.holds(r, x, at.K(), 0)
					}
				}
			}
			ok = back
		}
		a.c.Obl("handled", f.fn.Name()+": "+name, r.Pos, ok, "%s makes the helper %s and neither submits nor requires it nor hands it on", f.fn.Name(), name)
	}
}

func sortedInts[T any](m map[int]T) (out []int) {
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return
}

// names08: what a function that names a helper after a type says of the type.
func (c *Ctx) names08(typ, name, spec string, parts []string) {
	fn := c.Anchor("generator", typ, name)
	if fn == nil {
		return
	}
	tb := c.table("name", fn, func(ip *Interp) { setupEmission(c, ip) })
	if tb == nil {
		return
	}
	n := 0
	for _, r := range tb.Path {
		if r.Panic || len(r.Ret) != 1 {
			continue
		}
		n++
		ps := pieces(r.St.snap(r.Ret[0]), nil)
		at := 0
		marks := map[string]string{}
		for _, part := range parts {
			found := false
			for i := at; i < len(ps) && !found; i++ {
				if found = says08(r, ps[i], part, spec, marks); found {
					at = i + 1
				}
			}
			what := map[string]string{"OuterArr": "every size of the outer array", "InnerArr": "every size of the inner array", "Slices": "the number of slices", "Pointers": "the number of pointers", "base": "the base type", "$1": "what kind of helper it is"}[part]
			c.Obl("name", name+": "+part, r.Pos, found, "the name that %s gives does not have %s in its place: types that differ in it share a helper", name, what)
		}
	}
	c.Obl("name", name, fn.Pos(), n > 0, "%s returns no name", name)
}

// says08: the piece of a name tells this part of the type.
func says08(r *Row, p V, part, spec string, marks map[string]string) bool {
	field := "." + part + "(" + spec + ")"
	has := func(v V, sub string) bool { return strings.Contains(v.K(), sub) }
	t, ok := peel(p).(*Term)
	switch part {
	case "OuterArr", "InnerArr":
		if !ok || t.Op != "rep" || len(t.Args) < 2 || !has(t.Args[0], field) {
			return false
		}
		for _, alt := range t.Args[1:] {
			ps := pieces(alt, nil)
			first, is := isStrConst(ps[0])
			if !is || first == "" || strings.Trim(first[:1], "0123456789") == "" {
				return false // two sizes are told apart only by what is between them
			}
			size := false
			for _, q := range ps[1:] {
				k := q.K()
				size = size || strings.Contains(k, ".N([](") && strings.Contains(k, field)
			}
			if !size {
				return false
			}
		}
		return true
	case "Slices", "Pointers":
		if !ok || len(t.Args) != 2 {
			return false
		}
		one, times := t.Args[0], t.Args[1]
		switch {
		case t.Op == "repeat" && peel(times).K() == field:
		case t.Op == "rep" && countsTo08(r, strings.Trim(repKey(strings.Trim(one.K(), "\"")), "#"), field):
			one = times // a loop that counts up to it
		default:
			return false
		}
		s, is := isStrConst(one)
		if !is || s == "" || marks[s] != "" && marks[s] != part {
			return false
		}
		marks[s] = part
		return true
	case "base":
		return has(p, "PlainType(") && has(p, spec) || has(p, "TransformName(") && has(p, ".Base("+spec+")")
	}
	return ok && has(p, part)
}

// countsTo08: the loop ends when what it counts from nothing has reached the
// given number.
func countsTo08(r *Row, key, field string) bool {
	if key == field {
		return true
	}
	for _, t := range r.F.boolTerms() {
		if t.Op == "lt" && !r.F.b[t.K()] && len(t.Args) == 2 && peel(t.Args[1]).K() == field && strings.Contains(t.Args[0].K(), key) {
			l := r.St.ip.Loops[key]
			if l == nil {
				return false
			}
			n, ok := isIntConst(l.Init[t.Args[0].K()])
			return ok && n == 0
		}
	}
	return false
}
