package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// delta: the events of this iteration.
func (b *BackEdge) delta() []Event {
	n := len(b.Head.tr)
	if n > len(b.St.tr) {
		n = len(b.St.tr)
	}
	return b.St.tr[n:]
}

func namedArgs(fn *ssa.Function) []V {
	var args []V
	for i, p := range fn.Params {
		args = append(args, mkTerm(p.Type(), fmt.Sprintf("$%d", i)))
	}
	return args
}

// isGetter: a function that only loads a field of its receiver.
func isGetter(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 || fn.Signature.Results().Len() != 1 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.FieldAddr, *ssa.Field, *ssa.UnOp, *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// baselineFuncs are the functions known by name; others are new helpers,
// analysed in their callers' context.
func (c *Ctx) isBaseline(fn *ssa.Function) bool {
	pk, ty, nm := fnParts(fn)
	return baselineSet()[pk+"."+ty+"."+nm]
}

var baselineSetV map[string]bool

func baselineSet() map[string]bool {
	if baselineSetV == nil {
		baselineSetV = map[string]bool{}
		for _, l := range strings.Split(baselineNames, "\n") {
			f := strings.SplitN(l, "\t", 4)
			if len(f) == 4 {
				baselineSetV[f[0]+"."+f[1]+"."+f[2]] = true
			}
		}
	}
	return baselineSetV
}

func isWriterType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && n.Obj().Name() == "Writer"
}

// setupEmission configures an interpreter for deciding which iterations emit
// something: functions of the pristine tree are opaque events, helpers that
// are not known are looked into, getters are resolved.
func setupEmission(c *Ctx, ip *Interp, inline ...string) {
	in := map[string]bool{}
	for _, s := range inline {
		in[s] = true
	}
	ip.Inline = func(f *ssa.Function) bool {
		if f.Parent() != nil || isGetter(f) || in[f.Name()] {
			return true
		}
		if f.Synthetic != "" {
			return true
		}
		return !c.isBaseline(f)
	}
	ip.Trace = func(e *Event) bool {
		switch e.Kind {
		case "append", "mapset", "mapstore", "write", "store", "copy":
			return true
		case "call":
			return strings.HasPrefix(e.Name, "(*generator.") || strings.HasPrefix(e.Name, "generator.") || strings.HasPrefix(e.Name, "(*translator.")
		}
		return false
	}
}
