package main

import (
	"go/constant"

	"golang.org/x/tools/go/ssa"
)

type ssaFunction = ssa.Function

func (c *Ctx) pkgOf(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Name()
		}
		if g.Signature.Recv() != nil {
			if n := namedOf(g.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Name()
			}
		}
	}
	return ""
}

// strConst reads a string constant of the program; the property fixes its
// configuration-file spelling.
func (c *Ctx) strConst(pkg, name, want string) string {
	sp := c.SSA[pkg]
	if sp != nil {
		if m, ok := sp.Members[name].(*ssa.NamedConst); ok && m.Value.Value.Kind() == constant.String {
			s := constant.StringVal(m.Value.Value)
			c.Obl("vocabulary", pkg+"."+name, m.Pos(), s == want, "%s is %q; configuration files spell it %q", name, s, want)
		}
	}
	return want
}
