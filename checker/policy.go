package main

import "golang.org/x/tools/go/ssa"

func defaultInline(fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Name() == "generator"
}
