package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: generating leaves what was learned as it is.

func init() { checks["C13"] = c13 }

// reachableFrom: functions that can run as part of the given ones.
func (c *Ctx) reachableFrom(roots []*ssa.Function, stop func(f *ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] || len(f.Blocks) == 0 || !c.owned(f) || stop != nil && stop(f) {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range c.callees(ci) {
						visit(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return out
}

// lockedType: a type that keeps a lock, and looks after its own writes.
func recvOf(f *ssa.Function) types.Type {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

// setupOnly: the functions that make and adjust a generator or a process, and
// those only they call.
func (c *Ctx) setupOnly() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		pkg, typ, name := fnParts(f)
		if f.Parent() != nil {
			continue
		}
		if pkg == "generator" && (name == "New" || strings.HasPrefix(name, "init") || strings.HasPrefix(name, "Set") || strings.HasPrefix(name, "Disable")) || pkg == "main" && typ == "Process" && name == "NewProcess" {
			out[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.Funcs {
			_, _, name := fnParts(f)
			if out[f] || f.Parent() != nil || token.IsExported(name) || c.usedAsValue(f) {
				continue
			}
			sites := c.callersOf(f)
			all := len(sites) > 0
			for _, s := range sites {
				if _, call := s.(*ssa.Call); !call || !out[s.Parent()] {
					all = false
				}
			}
			if all {
				out[f], ch = true, true
			}
		}
	}
	return out
}

func c13(c *Ctx) {
	c.explain = "Alias flow from the translator's and generator's learned state and configuration, through every function that can run while text is generated, to every store, map update, append, copy and writing library call: none reaches a learned object."
	c.Rule("learned: nothing reached from the translator's state, or from the generator's configuration, is written while generating")
	c.Rule("named: a write that only fills in a missing parameter name cannot happen: every parameter is named when it is learned")
	var roots []*ssa.Function
	setup := c.setupOnly()
	for _, f := range c.Funcs {
		pkg, typ, _ := fnParts(f)
		if f.Parent() != nil || setup[f] {
			continue
		}
		if pkg == "generator" || pkg == "main" && typ == "Process" {
			roots = append(roots, f)
		}
	}
	phase := c.reachableFrom(roots, nil)
	locked := func(f *ssa.Function) bool {
		t := recvOf(f)
		return t != nil && lockField(t) >= 0
	}
	tr := c.namedType("translator", "Translator")
	gen := c.namedType("generator", "Generator")
	proc := c.namedType("main", "Process")
	seeds := 0
	a := &aliasFlow{p: c.Program, scope: func(f *ssa.Function) bool { return phase[f] }, exempt: locked}
	model := func(fa *ssa.FieldAddr) bool {
		n := namedOf(derefT(fa.X.Type()))
		if n == nil {
			return false
		}
		ft := derefT(derefT(fa.Type()))
		switch {
		case tr != nil && n.Obj() == tr.Obj():
			return lockField(ft) < 0 && !lockType(ft)
		case gen != nil && n.Obj() == gen.Obj(), proc != nil && n.Obj() == proc.Obj():
			m := namedOf(ft)
			return m != nil && (strings.HasSuffix(m.Obj().Name(), "Config") || tr != nil && m.Obj() == tr.Obj()) || isStringType(ft)
		}
		return false
	}
	a.seed = func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && phase[fa.Parent()] && model(fa)
	}
	a.solve()
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && a.seed(v) {
					seeds++
				}
			}
		}
	}
	ws, sites := a.writes()
	named, asked := false, false
	bad := map[*ssa.Function]bool{}
	for _, w := range ws {
		if w.What == "CDecl.Name" && guardedByEmpty(w) {
			if !asked {
				asked, named = true, c.paramsNamed()
			}
			if named {
				continue
			}
		}
		bad[w.Fn] = true
		c.Fail("learned", c.short(w.Fn)+" "+w.What, w.Pos, "%s of something learned from the headers is written while generating: what is generated later sees the change", w.What)
	}
	for _, f := range c.Funcs {
		if phase[f] && !bad[f] {
			c.Fn(f)
			c.Obl("learned", c.short(f), f.Pos(), true, "")
		}
	}
	c.Stat("learned: functions that generate", len(phase))
	c.Stat("learned: places the learned state is reached from", seeds)
	c.Stat("learned: writes judged", sites)
	c.Floor("learned", 120)
	if seeds < 20 {
		c.Fail("learned", "seeds", token.NoPos, "only %d places reach the learned state: the analysis does not see it", seeds)
	}
}

// guardedByEmpty: the write happens only where the same field was empty.
func guardedByEmpty(w aliasWrite) bool {
	fa, ok := w.Via.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	for _, b := range w.Fn.Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var of ssa.Value
		zero := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Const)
			return ok && k.Value != nil && (k.Value.ExactString() == "0" || k.Value.ExactString() == `""`)
		}
		x, y := cmp.X, cmp.Y
		if zero(x) {
			x, y = y, x
		}
		if !zero(y) {
			continue
		}
		of = x
		if l, ok := of.(*ssa.Call); ok {
			if bi, ok := l.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				continue
			}
			of = l.Call.Args[0]
		}
		u, ok := of.(*ssa.UnOp)
		if !ok || !sameAddr(u.X, fa) {
			continue
		}
		var s *ssa.BasicBlock
		switch cmp.Op {
		case token.EQL:
			s = b.Succs[0]
		case token.NEQ:
			s = b.Succs[1]
		default:
			continue
		}
		if len(s.Preds) == 1 && s.Dominates(fa.Block()) {
			return true
		}
	}
	return false
}

// paramsNamed: every parameter that is learned has a name.
func (c *Ctx) paramsNamed() bool {
	n, all := 0, true
	for _, f := range c.Funcs {
		if pkg, _, _ := fnParts(f); pkg != "translator" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) != "CDecl.Name" {
					continue
				}
				if !c.isParamDecl(fa.X) {
					continue
				}
				n++
				ok = c.neverEmpty(st.Val)
				c.Obl("named", c.short(f), instrPos(in), ok, "a parameter may be learned without a name")
				all = all && ok
			}
		}
	}
	return n > 0 && all
}

// isParamDecl: the declaration becomes an element of a list of parameters.
func (c *Ctx) isParamDecl(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Val != v {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ia.X.Referrers() {
			sl, ok := r2.(*ssa.Slice)
			if !ok {
				continue
			}
			for _, r3 := range *sl.Referrers() {
				call, ok := r3.(*ssa.Call)
				if !ok {
					continue
				}
				for _, r4 := range *call.Referrers() {
					if s4, ok := r4.(*ssa.Store); ok {
						if fa, ok := s4.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(fa), ".Params") {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// neverEmpty: the text is not empty on any path of the function that makes it.
func (c *Ctx) neverEmpty(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	g := call.Call.StaticCallee()
	if g == nil {
		return false
	}
	t := c.table("named", g, func(ip *Interp) {
		setupEmission(c, ip)
		inl := ip.Inline
		ip.Inline = func(f *ssa.Function) bool {
			_, _, n := fnParts(f)
			return n == "blessName" || inl(f)
		}
	})
	if t == nil {
		return false
	}
	all := len(t.Path) > 0
	for _, r := range t.Path {
		if len(r.Ret) != 1 || !nonEmptyText(r, r.St.snap(r.Ret[0])) {
			all = false
		}
	}
	return all
}

func nonEmptyText(r *Row, v V) bool {
	if s, ok := isStrConst(v); ok {
		return s != ""
	}
	if k, ok := v.(*Cat); ok {
		for _, p := range k.Parts {
			if nonEmptyText(r, p) {
				return true
			}
		}
	}
	iv := r.F.interval(lenOf(v, r.St))
	return iv.lo > 0 || iv.neq[0] || r.F.evalBool(mkEq(v, cStr(""), types.Typ[types.String], r.St)) == 0
}
