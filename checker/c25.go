package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C25: one package's generation leaves nothing behind for the next.

func init() { checks["C25"] = c25 }

// initOnly: functions that run only while packages are initialised.
func (c *Ctx) initOnly() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if f.Name() == "init" || len(f.Name()) > 5 && f.Name()[:5] == "init#" {
			out[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range c.Funcs {
			if out[f] || f.Object() != nil && f.Object().Exported() || f.Name() == "main" {
				continue
			}
			cs := c.callersOf(f)
			if len(cs) == 0 && f.Parent() == nil {
				continue
			}
			ok := len(cs) > 0 || f.Parent() != nil && out[f.Parent()]
			for _, ci := range cs {
				if !out[ci.Parent()] {
					ok = false
				}
			}
			if ok {
				out[f], again = true, true
			}
		}
	}
	return out
}

func c25(c *Ctx) {
	c.explain = "Alias flow from every package-level variable of the module (and of the libraries it can assign) to every store, map update, append, copy and library call that writes: none is reached outside package initialisation."
	c.Rule("global: no package-level variable, and nothing reached from one, is written after initialisation; appending to a shared slice counts as writing")
	inits := c.initOnly()
	globals := 0
	for _, p := range c.SSA {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				globals++
			}
		}
	}
	a := &aliasFlow{p: c.Program, exempt: func(f *ssa.Function) bool { return inits[f] }}
	a.seed = func(v ssa.Value) bool {
		g, ok := v.(*ssa.Global)
		return ok && hasPointers(g.Type())
	}
	a.solve()
	ws, sites := a.writes()
	for _, w := range ws {
		c.Fail("global", c.short(w.Fn)+" "+w.What, w.Pos, "%s, kept in a package-level variable, is written after initialisation: the next package to be generated, or any other use of it, sees the change", w.What)
	}
	for _, f := range c.Funcs {
		if inits[f] {
			continue
		}
		c.Fn(f)
		bad := false
		for _, w := range ws {
			if w.Fn == f {
				bad = true
			}
		}
		if !bad {
			c.Obl("global", c.short(f), f.Pos(), true, "")
		}
	}
	c.Stat("global: package-level variables", globals)
	c.Stat("global: writes judged", sites)
	c.Floor("global", 150)
	_ = types.Typ
}
