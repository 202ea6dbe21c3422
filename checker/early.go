package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// throughAll: a loop that goes through the parts of something and makes
// something of each is not left before its end, but with an error.
func (c *Ctx) throughAll(rule string, what string, sel func(pkg, name, file, over string) bool) {
	for _, f := range c.Funcs {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		pkg := ""
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Name()
		}
		file := filepath.Base(c.Fset.Position(f.Pos()).Filename)
		for _, l := range loops29(f) {
			l.fn, l.c = f, c
			over, ok := l.over()
			chosen := false
			for _, h := range c.homes(f, 0) {
				chosen = chosen || sel(pkg, h, file, over)
			}
			if !ok || !chosen || !l.produces() && !strings.HasPrefix(f.Name(), "walk") {
				continue
			}
			var early token.Pos
			left := false
			for b := range l.body {
				if b == l.head {
					continue
				}
				for _, s := range b.Succs {
					if l.body[s] || endsBadly(s) {
						continue
					}
					left = true
					if i := len(b.Instrs) - 1; early == token.NoPos && i >= 0 {
						early = l.pos()
					}
				}
			}
			if !left {
				early = l.pos()
			}
			c.Obl(rule, fmt.Sprintf("%s %s", c.short(f), l.label()), early, !left, "%s can leave its loop over %s before it has come to the last", c.short(f), what)
		}
	}
}

// homes: the name of the function, or those of the functions it was split off.
func (c *Ctx) homes(f *ssa.Function, d int) []string {
	out := []string{f.Name()}
	if f.Parent() != nil || c.isBaseline(f) || d > 3 {
		return out
	}
	for _, ci := range c.callersOf(f) {
		out = append(out, c.homes(ci.Parent(), d+1)...)
	}
	return out
}

// endsBadly: the block ends in a panic, or returns what may be an error.
func endsBadly(b *ssa.BasicBlock) bool {
	for n := 0; n < 12 && len(b.Instrs) > 0; n++ {
		switch in := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		case *ssa.Return:
			for _, r := range in.Results {
				if types.TypeString(r.Type(), nil) == "error" {
					k, ok := r.(*ssa.Const)
					return !ok || !k.IsNil()
				}
			}
			return false
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

// over: what the loop goes through, if it goes through something.
func (l *loop29) over() (string, bool) {
	name, found := "", false
	l.exits(func(cond ssa.Value, stay bool) {
		if e, ok := cond.(*ssa.Extract); ok && e.Index == 0 {
			if n, ok := e.Tuple.(*ssa.Next); ok && !n.IsString {
				found = true
				if r, ok := n.Iter.(*ssa.Range); ok {
					name = l.fieldOf(r.X, 0)
				}
			}
		}
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return
		}
		for _, v := range []ssa.Value{b.X, b.Y} {
			if cl, ok := v.(*ssa.Call); ok && isBuiltin(cl, "len") {
				if b, ok := cl.Call.Args[0].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					continue
				}
				if sl, ok := cl.Call.Args[0].Type().Underlying().(*types.Slice); ok && typeName29(sl.Elem()) == "Token" {
					continue // what cannot be translated is given up at a token
				}
				found = true
				if s := l.fieldOf(cl.Call.Args[0], 0); s != "" {
					name = s
				}
			}
		}
	})
	if !found && strings.HasPrefix(l.fn.Name(), "walk") && l.reason() == "links" {
		found = true
	}
	return name, found
}

func typeName29(t types.Type) string {
	if n := namedOf(derefT(t)); n != nil {
		return n.Obj().Name()
	}
	return ""
}

func (l *loop29) fieldOf(v ssa.Value, d int) string {
	if d > 5 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if st, ok := derefT(fa.X.Type()).Underlying().(*types.Struct); ok {
				return typeName29(fa.X.Type()) + "." + st.Field(fa.Field).Name()
			}
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return typeName29(x.X.Type()) + "." + st.Field(x.Field).Name()
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := l.fieldOf(e, d+1); s != "" {
				return s
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if l.c.isBaseline(f) || f.Parent() != nil {
			return ""
		}
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, ci := range l.c.callersOf(f) {
				if a := argOf29(ci, i); a != nil {
					if s := l.fieldOf(a, d+1); s != "" {
						return s
					}
				}
			}
		}
	}
	return ""
}

// produces: an iteration writes, or adds to a list or map.
func (l *loop29) produces() bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				return true
			case *ssa.Call:
				if isBuiltin(in, "append") {
					return true
				}
				if _, ok := in.Call.Value.(*ssa.MakeClosure); ok {
					return true
				}
				for _, a := range in.Call.Args {
					if isWriterType(a.Type()) || types.TypeString(a.Type(), nil) == "*bytes.Buffer" {
						return true
					}
				}
			}
		}
	}
	return false
}
