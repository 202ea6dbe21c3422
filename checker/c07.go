package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: levels of indirection are accounted for exactly.

func init() { checks["C07"] = c07 }

func c07(c *Ctx) {
	c.explain = "Every unsigned subtraction and sign-changing conversion of the module is interpreted in all its contexts; one whose result can wrap and is used is a violation. The levels recorded, translated and handed to cgo are compared, as linear expressions over the levels of the C type and of its tag's declaration, with what they have to be on each path."
	c.Rule("nowrap: no unsigned difference that is used can be negative, on any path, in the contexts its function is called in")
	c.Rule("split: n levels become n slices, n pointers (sref, inst) or one pointer under n-1 slices (ref)")
	c.Rule("residual: a type has the levels of its declarator, less those of its tag's declaration where that has no more")
	c.Rule("tips: the last pointer tip decides, except that the elements of an array always stay pointers")
	c.Assume("no type has 256 or more levels of indirection (the counters' additions do not overflow)")
	c.Assume("an array specification that is not empty lists at least one size")
	c.nowrap()
	c.splitPointers()
	c.residual()
	c.Floor("nowrap", 10)
	c.Floor("split", 4)
	c.Floor("residual", 8)
}

// wrapSites: the instructions of a function that may wrap around below zero.
func wrapSites(fn *ssa.Function) (sites []ssa.Instruction) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op == token.SUB && isUnsigned(x.Type()) {
					sites = append(sites, x)
				}
			case *ssa.Convert:
				if isIntType(x.X.Type()) && isUnsigned(x.Type()) && !isUnsigned(x.X.Type()) {
					sites = append(sites, x)
				}
			}
		}
	}
	return
}

func (c *Ctx) nowrap() {
	var fns []*ssa.Function
	for _, fn := range c.Funcs {
		if len(wrapSites(fn)) > 0 {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		n := len(wrapSites(fn))
		bad := c.wrapsIn(fn, []*ssa.Function{fn}, 0)
		c.Fn(fn)
		for i := 0; i < n-len(bad); i++ {
			c.Obl("nowrap", c.short(fn), fn.Pos(), true, "")
		}
		for _, b := range bad {
			c.Fail("nowrap", c.short(fn), b.pos, "%s", b.text)
		}
	}
}

type wrapBad struct {
	pos  token.Pos
	text string
}

// wrapsIn: what may wrap and is used in the body of the last function of the
// chain, in the contexts of the functions that call it.
func (c *Ctx) wrapsIn(root *ssa.Function, chain []*ssa.Function, depth int) []wrapBad {
	var bad []wrapBad
	var err string
	fn := chain[len(chain)-1]
	bad, err = c.wrapRun(root, fn)
	if err != "" {
		if depth > 0 {
			err = "" // no help from this caller
		}
		return []wrapBad{{fn.Pos(), err}}
	}
	if len(bad) == 0 || depth >= 3 {
		return bad
	}
	// the callers may establish what is missing
	sites := c.callersOf(root)
	if len(sites) == 0 {
		return bad
	}
	seen := map[*ssa.Function]bool{}
	var up []wrapBad
	for _, s := range sites {
		g := s.Parent()
		if g.Synthetic != "" && len(c.callersOf(g)) == 0 && !c.usedAsValue(g) {
			continue // a wrapper nothing calls
		}
		if s.Common().StaticCallee() != root || g == root {
			return bad
		}
		if seen[g] {
			continue
		}
		seen[g] = true
		up = append(up, c.wrapsIn(g, append([]*ssa.Function{g}, chain...), depth+1)...)
		if len(up) > 0 {
			if up[0].text == "" {
				return bad
			}
			return up
		}
	}
	return up
}

// wrapRun interprets root with everything down to fn looked into and reports
// the differences computed in fn that may wrap and are used.
func (c *Ctx) wrapRun(root, fn *ssa.Function) (bad []wrapBad, err string) {
	ip := newInterp(c.Program)
	ip.NoMerge = true
	if e := ip.runInits(); e != nil {
		return nil, e.Error()
	}
	reach := c.reaching(root, fn)
	ip.Wraps = map[string]token.Pos{}
	ip.PeelExit = root != fn
	if root != fn {
		ip.maxSteps = 300000
	}
	setupEmission(c, ip)
	in := ip.Inline
	ip.Inline = func(f *ssa.Function) bool {
		return in(f) || reach[f] || f.Name() == "ptrs" || f.Name() == "slcs" || f.Name() == "IsPlain" || f.Name() == "IsPlainKind"
	}
	withEvents(ip, func(e *Event) bool { return e.Kind == "call" || e.Kind == "write" })
	outs, e := ip.Run(root, namedArgs(root), nil)
	if e != nil {
		return nil, fmt.Sprintf("the analysis could not follow %s: %v", c.short(root), e)
	}
	seen := map[string]bool{}
	lo, hi := fn.Pos(), token.Pos(0)
	if s := fn.Syntax(); s != nil {
		lo, hi = s.Pos(), s.End()
	}
	look := func(st *State, v V, where string) {
		walkV(v, func(x V) {
			t, ok := x.(*Term)
			if !ok || t.Op != "wrap" || seen[t.K()] {
				return
			}
			if st.facts.geq(t.Args[0], t.Args[1]) || impossible(st.facts) {
				return
			}
			p := ip.Wraps[t.K()]
			if p.IsValid() && (p < lo || p > hi) {
				return
			}
			seen[t.K()] = true
			if !p.IsValid() {
				p = fn.Pos()
			}
			bad = append(bad, wrapBad{p, fmt.Sprintf("%s less %s may be below zero and wrap around; it is used in %s (from %s)", clip(t.Args[0].K(), 80), clip(t.Args[1].K(), 80), where, c.short(root))})
		})
	}
	scan := func(st *State, ret []V) {
		for _, e := range st.tr {
			for _, a := range e.Args {
				look(st, a, e.Kind+" "+e.Name)
			}
		}
		for _, r := range ret {
			look(st, st.snap(r), "the result")
		}
		for _, s := range st.sym {
			look(st, s.v, "a store")
		}
		for _, f := range st.facts.at {
			look(st, f, "a condition")
		}
	}
	for _, o := range outs {
		if !o.Panic {
			scan(o.St, o.Ret)
		}
	}
	for _, l := range ip.AllLoops {
		for _, b := range l.Back {
			scan(b.St, nil)
			for _, v := range b.Carry {
				look(b.St, v, "a loop")
			}
		}
	}
	return bad, ""
}

// impossible: no C type is called unsafe.Pointer, a dot not being part of a C
// name.
func impossible(f *Facts) bool {
	for k, v := range f.eq {
		if v != "unsafe.Pointer" {
			continue
		}
		named := false
		walkV(f.at[k], func(x V) {
			if t, ok := x.(*Term); ok && t.Op == ".Base" && len(t.Args) == 1 {
				n := namedOf(derefT(typeOf(t.Args[0])))
				named = named || n != nil && n.Obj().Name() == "CTypeSpec"
			}
		})
		if named {
			return true
		}
	}
	// an array specification that is not empty lists at least one size
	for k, iv := range f.iv {
		if iv.hi > 0 || !strings.HasPrefix(k, "len(call:(translator.ArraySpec).Sizes(") {
			continue
		}
		x := strings.TrimSuffix(strings.TrimPrefix(k, "len(call:(translator.ArraySpec).Sizes("), "))")
		if n, ok := f.iv["len("+x+")"]; ok && n.lo >= 1 {
			return true
		}
		for _, e := range []string{"eq(" + x + `,"")`, `eq("",` + x + ")"} {
			if b, ok := f.b[e]; ok && !b {
				return true
			}
		}
	}
	return false
}

// reaching: the functions on a call path from root to fn.
func (c *Ctx) reaching(root, fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		if out[f] {
			return
		}
		out[f] = true
		if f == root || d > 4 {
			return
		}
		for _, s := range c.callersOf(f) {
			up(s.Parent(), d+1)
		}
	}
	up(fn, 0)
	return out
}

// geq: a is known to be at least b.
func (f *Facts) geq(a, b V) bool {
	if f.evalBool(mkLt(a, b)) == 0 {
		return true
	}
	hi := f.interval(b).hi
	if n, ok := isIntConst(b); ok {
		hi = n
	}
	return hi < 1<<40 && f.least(a) >= hi
}

// least: the smallest value of a sum.
func (f *Facts) least(v V) int64 {
	if t, ok := v.(*Term); ok && len(t.Args) == 2 && (t.Op == "+" || t.Op == "+c") {
		x, y := f.least(t.Args[0]), f.least(t.Args[1])
		if x > -1<<40 && y > -1<<40 {
			return x + y
		}
	}
	if n, ok := isIntConst(v); ok {
		return n
	}
	return f.interval(v).lo
}

func walkV(v V, f func(V)) {
	mapV(v, func(x V) V { f(x); return nil })
}

// levelsOf: the slices and pointers of a Go type specification.
func levelsOf(s *StructV) (sl, pt V) { return s.field("Slices"), s.field("Pointers") }

func tipIs(f *Facts, tip V, name string) tri {
	switch f.evalBool(mkEq(tip, cStr(name), typeOf(tip), nil)) {
	case 1:
		return yes
	case 0:
		return no
	}
	return unk
}

func (c *Ctx) splitPointers() {
	fn := c.fn("translator", "GoTypeSpec", "splitPointers")
	if fn == nil {
		// inlined by hand: residual sees its effect
		c.Obl("split", "splitPointers", token.NoPos, true, "")
		return
	}
	t := c.table("split", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	recv, tip, n := V(mkTerm(fn.Params[0].Type(), "$0")), V(mkTerm(fn.Params[1].Type(), "$1")), V(mkTerm(fn.Params[2].Type(), "$2"))
	for _, r := range t.Path {
		get := func(name string) (V, V) {
			st, ok := derefT(fn.Params[0].Type()).Underlying().(*types.Struct)
			if !ok {
				return nil, nil
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					a := fieldAddr(recv, i, fn.Params[0].Type(), types.NewPointer(st.Field(i).Type()))
					return t.IP.load(r.St, a, st.Field(i).Type()), t.IP.load(t.IP.newState(), a, st.Field(i).Type())
				}
			}
			return nil, nil
		}
		sl, sl0 := get("Slices")
		pt, pt0 := get("Pointers")
		if sl == nil || pt == nil {
			c.Fail("split", "fields", fn.Pos(), "the slices and pointers of a type were not found")
			return
		}
		ds, dp := linOf(sl).sub(linOf(sl0)).String(), linOf(pt).sub(linOf(pt0)).String()
		none := r.F.interval(n).hi == 0
		name := "other"
		for _, x := range []string{"ref", "sref", "inst", "arr"} {
			if tipIs(r.F, tip, x) == yes {
				name = x
			}
		}
		wantS, wantP := linOf(n), linOf(cInt(0))
		switch {
		case none:
			name, wantS = "no levels", linOf(cInt(0))
		case name == "ref":
			wantS, wantP = linOf(n).sub(linOf(cInt(1))), linOf(cInt(1))
		case name == "sref" || name == "inst":
			wantS, wantP = linOf(cInt(0)), linOf(n)
		}
		c.Obl("split", name, fn.Pos(), ds == wantS.String() && dp == wantP.String(), "with the tip %s, %s levels become %s slices and %s pointers instead of %s and %s", name, "n", ds, dp, wantS, wantP)
	}
}

// declared: what a path knows about the declaration of a type's tag: whether
// the tag was looked up and is known.
func declared(f *Facts) (known tri) {
	for k, b := range f.b {
		v, ok := f.at[k].(*Term)
		if !ok || v.Op != "has" || !strings.Contains(k, ".tagMap(") {
			continue
		}
		if b {
			return yes
		}
		known = no
	}
	return
}

// difference finds P - D in a level count, D being the levels of the
// declaration of a tag.
func difference(v V) (p, d V) {
	walkV(v, func(x V) {
		t, ok := x.(*Term)
		if !ok || t.Op != "-" && t.Op != "wrap" || len(t.Args) != 2 {
			return
		}
		dt, ok := t.Args[1].(*Term)
		if ok && (strings.HasSuffix(dt.Op, ".GetPointers") || dt.Op == ".Pointers") && strings.Contains(dt.K(), ".tagMap(") {
			p, d = t.Args[0], dt
		}
	})
	return
}

func isGetPointers(v V, of string) bool {
	t, ok := v.(*Term)
	if !ok || !strings.HasSuffix(t.Op, ".GetPointers") || len(t.Args) != 1 {
		return false
	}
	x := peel(t.Args[0])
	if cp, ok := x.(*Term); ok && strings.HasSuffix(cp.Op, ".Copy") && len(cp.Args) == 1 {
		x = cp.Args[0]
	}
	return x.K() == of
}

func (c *Ctx) kindNamed(name string) int64 {
	for _, p := range c.Prog.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), "/translator") {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if n, ok := constant.Int64Val(k.Val()); ok {
					return n
				}
			}
		}
	}
	return -1
}

// mayBeKind: the path is open to specifications of a kind.
func (c *Ctx) mayBeKind(f *Facts, spec, name string) bool {
	n := c.kindNamed(name)
	for k, iv := range f.iv {
		if strings.HasPrefix(k, "inv:") && strings.HasSuffix(k, ".Kind("+spec+")") {
			return n >= iv.lo && n <= iv.hi && !iv.neq[n]
		}
	}
	return true
}

func (c *Ctx) residual() {
	for _, name := range []string{"CGoSpec", "NormalizeSpecPointers", "TranslateSpec"} {
		fn := c.Anchor("translator", "Translator", name)
		if fn == nil {
			continue
		}
		t := c.table("residual", fn, func(ip *Interp) {
			setupEmission(c, ip, "splitPointers")
			withEvents(ip, func(e *Event) bool { return e.Kind == "call" || e.Kind == "invoke" })
		})
		if t == nil {
			continue
		}
		n := 0
		for _, r := range t.Path {
			if len(r.Ret) != 1 || impossible(r.F) {
				continue
			}
			var sum Lin
			var vals []V
			must := []string{}
			zero := linOf(cInt(0))
			extra := zero
			switch name {
			case "CGoSpec":
				s := specOf(r.St, r.Ret[0])
				if s == nil {
					c.Fail("residual", name, fn.Pos(), "CGoSpec answers %s", clip(kOf(r.Ret[0]), 100))
					continue
				}
				vals = []V{s.field("Pointers")}
				must = []string{"StructKind", "OpaqueStructKind", "UnionKind", "FunctionKind", "TypeKind", "EnumKind"}
				// a named void pointer is a pointer to what it names
				void, raw, arg := unk, unk, unk
				for k, b := range r.F.b {
					if strings.HasPrefix(k, "eqs(.Base(") && strings.HasSuffix(k, `,"void*")`) {
						void = triOf(b)
					}
					if k == "$2" {
						arg = triOf(b)
					}
				}
				for k, v := range r.F.eq {
					if strings.HasPrefix(k, ".Base(") && v == "void*" {
						void = yes
					}
				}
				for k, iv := range r.F.iv {
					if strings.HasPrefix(k, "len(.Raw(") {
						if iv.hi == 0 {
							raw = no
						} else if iv.lo >= 1 {
							raw = yes
						}
					}
				}
				if void == yes && raw == yes && arg == no {
					extra = linOf(cInt(1))
				}
			case "NormalizeSpecPointers":
				var set V
				for i := range r.Ev {
					if e := &r.Ev[i]; strings.HasSuffix(e.Name, ".SetPointers") && len(e.Args) == 2 {
						set = e.Args[1]
					}
				}
				if set == nil {
					vals = []V{mkTerm(types.Typ[types.Uint8], "inv:.GetPointers", mkTerm(fn.Params[1].Type(), "$1"))}
					if c.mayBeKind(r.F, "$1", "OpaqueStructKind") {
						must = []string{"OpaqueStructKind"}
					}
				} else {
					vals = []V{set}
					c.Obl("residual", name+" copy", fn.Pos(), !isParam(r.Ret[0]), "the levels of the given type itself are changed")
				}
			default:
				if c.mayBeKind(r.F, "$1", "TypeKind") && !c.mayBeKind(r.F, "$1", "StructKind") && !c.mayBeKind(r.F, "$1", "FunctionKind") && !c.mayBeKind(r.F, "$1", "EnumKind") {
					continue // arithmetic and named types: C06
				}
				s := specOf(r.St, r.Ret[0])
				if s == nil {
					c.Fail("residual", name, fn.Pos(), "TranslateSpec answers %s", clip(kOf(r.Ret[0]), 100))
					continue
				}
				sl, pt := levelsOf(s)
				vals = []V{sl, pt}
				must = []string{"StructKind", "OpaqueStructKind", "UnionKind", "FunctionKind"}
				if !c.mayBeKind(r.F, "$1", "FunctionKind") || c.mayBeKind(r.F, "$1", "StructKind") || c.mayBeKind(r.F, "$1", "EnumKind") {
					c.distribution(r, sl, pt)
				}
			}
			n++
			var p, d V
			for _, v := range vals {
				if a, b := difference(v); d == nil {
					p, d = a, b
				}
				sum = sumLin(sum, linOf(v))
			}
			sum = sum.sub(extra)
			if sum.String() == "0" {
				// nothing left: the count is known to be zero on this path
				for k, iv := range r.F.iv {
					if iv.hi == 0 {
						v := r.F.at[k]
						if v == nil {
							continue
						}
						a, b := difference(v)
						if b != nil {
							p, d = a, b
						}
						if b != nil || isGetPointers(v, "$1") {
							sum = linOf(v)
						}
					}
				}
			}
			kn := declared(r.F)
			con := fmt.Sprintf("%s tag %s", name, map[tri]string{unk: "not looked up", yes: "known", no: "unknown"}[kn])
			if d != nil {
				ok := isGetPointers(p, "$1") && sum.sub(linOf(mkTerm(types.Typ[types.Uint8], "-", p, d))).String() == "0"
				c.Obl("residual", con, fn.Pos(), ok && kn == yes, "%s levels are left of a type whose tag's declaration has some", clip(sum.String(), 150))
				c.Obl("residual", con+" fits", fn.Pos(), r.F.geq(p, d), "the levels of the tag's declaration are taken off although there may be fewer")
				continue
			}
			one := len(sum.co) == 1 && sum.k == 0
			for k, m := range sum.co {
				one = one && m == 1 && strings.HasPrefix(k, "inv:") && (strings.HasSuffix(k, ".GetPointers($1)") || strings.Contains(k, ".GetPointers(inv:") && strings.HasSuffix(k, ".Copy($1))"))
			}
			c.Obl("residual", con, fn.Pos(), one, "a type has %s levels, not those of its declarator", clip(sum.String(), 150))
			fewer := false
			for k, b := range r.F.b {
				if t, ok := r.F.at[k].(*Term); ok && t.Op == "lt" && b && len(t.Args) == 2 && isGetPointers(t.Args[0], "$1") && strings.Contains(t.Args[1].K(), ".tagMap(") {
					fewer = true
				}
			}
			if kn == yes {
				c.Obl("residual", con+" kept", fn.Pos(), fewer, "the levels of the tag's declaration are counted again")
			}
			if kn == unk {
				bad := ""
				for _, k := range must {
					if c.mayBeKind(r.F, "$1", k) {
						bad = k
					}
				}
				c.Obl("residual", con+" kinds", fn.Pos(), bad == "", "the declaration of the tag is not consulted for a specification of %s", bad)
			}
		}
		c.Obl("residual", name+" paths", fn.Pos(), n > 1, "no path of %s was recognised", name)
		if name == "TranslateSpec" {
			c.tipLoop(t)
		}
	}
}

func isParam(v V) bool {
	t, ok := peel(v).(*Term)
	return ok && strings.HasPrefix(t.Op, "$")
}

func sumLin(a, b Lin) Lin {
	if a.co == nil {
		return b
	}
	return a.add(b)
}

// distribution: which of the levels are slices and which pointers.
func (c *Ctx) distribution(r *Row, sl, pt V) {
	none := true
	for _, v := range []V{sl, pt} {
		if n, ok := isIntConst(v); !ok || n != 0 {
			none = false
		}
	}
	if none {
		return
	}
	array := unk
	for k, iv := range r.F.iv {
		if strings.HasPrefix(k, "len(inv:") && strings.HasSuffix(k, ".OuterArrays($1))") {
			if iv.lo >= 1 {
				array = yes
			} else if iv.hi == 0 {
				array = no
			}
		}
	}
	tip := ""
	for _, v := range r.F.eq {
		switch v {
		case "ref", "sref", "inst", "arr":
			tip = v
		}
	}
	zero := func(v V) bool { n, ok := isIntConst(v); return ok && n == 0 }
	one := func(v V) bool { n, ok := isIntConst(v); return ok && n == 1 }
	switch {
	case array == yes:
		c.Obl("tips", "elements of an array", r.Pos, zero(sl), "the elements of an array become slices: %s", clip(kOf(sl), 100))
	case tip == "ref":
		c.Obl("tips", "ref", r.Pos, one(pt), "with the tip ref there are %s pointers", clip(kOf(pt), 100))
	case tip == "sref" || tip == "inst":
		c.Obl("tips", tip, r.Pos, zero(sl), "with the tip %s there are %s slices", tip, clip(kOf(sl), 100))
	default:
		c.Obl("tips", "arr", r.Pos, zero(pt), "with no tip there are %s pointers", clip(kOf(pt), 100))
	}
}

// tipLoop: the last tip of a kind is the one that counts.
func (c *Ctx) tipLoop(t *Table) {
	n := 0
	for _, r := range t.Iter {
		if r.Loop.Key != "len($2)" {
			continue
		}
		kind := unk
		for k, b := range r.F.b {
			if strings.HasPrefix(k, "eqs(call:(translator.Tip).Kind(") && strings.HasSuffix(k, `,"ptr")`) {
				kind = triOf(b)
			}
		}
		for k, v := range r.F.eq {
			if strings.HasPrefix(k, "call:(translator.Tip).Kind(") {
				kind = triOf(v == "ptr")
			}
		}
		for k, v := range r.Be.Carry {
			if !strings.HasSuffix(k, "#ptrTip") {
				continue
			}
			n++
			list, ix, ok := elemOf(peel(v))
			if kind == yes {
				c.Obl("tips", "pointer tip", r.Pos, ok && list.K() == "$2" && r.ownIndex(ix), "a pointer tip is not used")
			} else {
				c.Obl("tips", "other tip", r.Pos, v.K() == k, "a tip that is not a pointer tip is used as one")
			}
		}
	}
	if n == 0 {
		c.Sample("the loop over the tips was not recognised")
	}
}
