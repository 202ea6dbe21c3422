package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mod/ref analysis: for every function of the module, which objects that exist
// outside the call it may write. Objects are named by the root they are reached
// from: a parameter, a captured variable, a package-level variable, or "fresh"
// for objects allocated by the call itself. Flow-insensitive, interprocedural,
// computed to a fixpoint.

type Root struct {
	Kind string // fresh, param, freevar, global, unknown
	N    int
	G    *ssa.Global
	At   ssa.Value // the allocation of a fresh object
}

func (r Root) String() string {
	switch r.Kind {
	case "param", "freevar":
		return fmt.Sprintf("%s%d", r.Kind, r.N)
	case "global":
		return "global " + r.G.Name()
	}
	return r.Kind
}

type Effect struct {
	Root  Root
	What  string // "CDecl.Name", "map CDecl", "elem", "buffer", "file", ...
	Field string // named struct.field the written object was reached through last, if any
	Class string // for stores and map updates: append, count, const, other
	Fn    *ssa.Function
	Pos   token.Pos
	Instr ssa.Instruction
}

type effSummary struct {
	effects map[string]*Effect
	returns []map[Root]bool // per result, what a returned pointer may refer to
}

type Effects struct {
	p    *Program
	sum  map[*ssa.Function]*effSummary
	pts  map[ssa.Value]map[Root]bool
	busy map[ssa.Value]bool
	chg  bool
}

func (p *Program) effects() *Effects {
	e := &Effects{p: p, sum: map[*ssa.Function]*effSummary{}}
	for _, f := range p.Funcs {
		s := &effSummary{effects: map[string]*Effect{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			s.returns = append(s.returns, map[Root]bool{})
		}
		e.sum[f] = s
	}
	for round := 0; round < 30; round++ {
		e.chg = false
		e.pts = map[ssa.Value]map[Root]bool{}
		e.busy = map[ssa.Value]bool{}
		for _, f := range p.Funcs {
			e.function(f)
		}
		if !e.chg {
			break
		}
	}
	return e
}

func hasPointers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(t.Elem())
	case *types.Tuple:
		return true
	}
	return true
}

func merge(dst, src map[Root]bool) {
	for r := range src {
		dst[r] = true
	}
}

// pointsTo names the objects a pointer-like value may refer to (or, for a
// value containing pointers, the objects reachable in one step).
func (e *Effects) pointsTo(v ssa.Value) map[Root]bool {
	if r, ok := e.pts[v]; ok {
		return r
	}
	if e.busy[v] {
		return nil
	}
	e.busy[v] = true
	out := map[Root]bool{}
	cyc := false
	add := func(w ssa.Value) {
		if e.busy[w] {
			cyc = true
		}
		merge(out, e.pointsTo(w))
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.Parameter:
		for i, pa := range v.Parent().Params {
			if pa == v {
				out[Root{Kind: "param", N: i}] = true
			}
		}
	case *ssa.FreeVar:
		for i, fv := range v.Parent().FreeVars {
			if fv == v {
				out[Root{Kind: "freevar", N: i}] = true
			}
		}
	case *ssa.Global:
		out[Root{Kind: "global", G: v}] = true
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		out[Root{Kind: "fresh", At: v}] = true
	case *ssa.MakeClosure:
		out[Root{Kind: "fresh", At: v}] = true
		for _, b := range v.Bindings {
			add(b)
		}
	case *ssa.FieldAddr:
		add(v.X)
	case *ssa.IndexAddr:
		add(v.X)
	case *ssa.Field:
		add(v.X)
	case *ssa.Index:
		add(v.X)
	case *ssa.Slice:
		add(v.X)
	case *ssa.Phi:
		for _, x := range v.Edges {
			add(x)
		}
	case *ssa.ChangeType:
		add(v.X)
	case *ssa.ChangeInterface:
		add(v.X)
	case *ssa.MakeInterface:
		if hasPointers(v.X.Type()) {
			add(v.X)
		}
	case *ssa.TypeAssert:
		add(v.X)
	case *ssa.SliceToArrayPointer:
		add(v.X)
	case *ssa.Convert:
		if hasPointers(v.X.Type()) && hasPointers(v.Type()) && !isStringType(v.X.Type()) {
			add(v.X)
		} else {
			out[Root{Kind: "fresh", At: v}] = true
		}
	case *ssa.BinOp:
		// strings, numbers
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if !hasPointers(v.Type()) || isStringType(v.Type()) {
				break
			}
			e.contents(v.X, out, &cyc)
		case token.ARROW:
			out[Root{Kind: "unknown"}] = true
		}
	case *ssa.Lookup:
		if hasPointers(v.Type()) && !isStringType(v.X.Type()) {
			e.contents(v.X, out, &cyc)
		}
	case *ssa.Range:
		add(v.X)
	case *ssa.Next:
		if !v.IsString {
			e.contents(v.Iter.(*ssa.Range).X, out, &cyc)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			merge(out, e.callResult(c, v.Index, &cyc))
		} else {
			add(v.Tuple)
		}
	case *ssa.Call:
		merge(out, e.callResult(v, 0, &cyc))
	case *ssa.Select:
		out[Root{Kind: "unknown"}] = true
	default:
		out[Root{Kind: "unknown"}] = true
	}
	delete(e.busy, v)
	if !cyc || len(e.busy) == 0 {
		e.pts[v] = out
	}
	return out
}

// contents adds what pointers stored in the object addr refers to may point to.
func (e *Effects) contents(addr ssa.Value, out map[Root]bool, cyc *bool) {
	for r := range e.pointsTo(addr) {
		if r.Kind != "fresh" {
			out[r] = true // everything reachable from an outer root is that root
			continue
		}
		// values stored into this allocation anywhere
		for _, sv := range e.storedInto(r.At) {
			if e.busy[sv] {
				*cyc = true
			}
			merge(out, e.pointsTo(sv))
		}
		switch at := r.At.(type) {
		case *ssa.Call:
			_ = at
		}
		if _, ok := r.At.(*ssa.Convert); !ok {
			out[r] = true // and nested parts of the object itself
		}
	}
}

// storedInto lists the values stored in an allocation through addresses derived
// from it in the same function or in closures capturing it.
func (e *Effects) storedInto(at ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(a ssa.Value)
	walk = func(a ssa.Value) {
		if seen[a] || a.Referrers() == nil {
			return
		}
		seen[a] = true
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == a {
					out = append(out, r.Val)
				}
			case *ssa.MapUpdate:
				if r.Map == a {
					out = append(out, r.Value, r.Key)
				}
			case *ssa.FieldAddr:
				walk(r)
			case *ssa.IndexAddr:
				walk(r)
			case *ssa.Slice:
				walk(r)
			case *ssa.Phi:
				walk(r)
			case *ssa.ChangeType:
				walk(r)
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					for _, x := range r.Call.Args[1:] {
						out = append(out, x)
					}
					walk(r)
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == a {
						walk(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.UnOp:
				// values loaded from a cell holding a container
				if r.Op == token.MUL {
					switch r.Type().Underlying().(type) {
					case *types.Map, *types.Slice, *types.Pointer:
						walk(r)
					}
				}
			}
		}
	}
	walk(at)
	return out
}

func (e *Effects) callResult(c *ssa.Call, idx int, cyc *bool) map[Root]bool {
	out := map[Root]bool{}
	var rt types.Type
	if tp, ok := c.Type().(*types.Tuple); ok {
		rt = tp.At(idx).Type()
	} else {
		rt = c.Type()
	}
	if !hasPointers(rt) || isStringType(rt) {
		return out
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range c.Call.Args[:1] {
				if e.busy[a] {
					*cyc = true
				}
				merge(out, e.pointsTo(a))
			}
			out[Root{Kind: "fresh", At: c}] = true
		}
		return out
	}
	cs := e.p.callees(c)
	if len(cs) == 0 {
		// library call: assume it may hand back what it was given, or something new
		for _, a := range c.Call.Args {
			if hasPointers(a.Type()) && !isStringType(a.Type()) && types.AssignableTo(a.Type(), rt) {
				if e.busy[a] {
					*cyc = true
				}
				merge(out, e.pointsTo(a))
			}
		}
		if c.Call.IsInvoke() || libReturnsInner(calleeName(&c.Call)) {
			// an accessor of a library object
			v := c.Call.Value
			if !c.Call.IsInvoke() && len(c.Call.Args) > 0 {
				v = c.Call.Args[0]
			}
			if e.busy[v] {
				*cyc = true
			}
			merge(out, e.pointsTo(v))
			return out
		}
		out[Root{Kind: "fresh", At: c}] = true
		return out
	}
	for _, f := range cs {
		s := e.sum[f]
		if s == nil {
			if len(c.Call.Args) > 0 && f.Signature.Recv() != nil && libReturnsInner(f.String()) {
				merge(out, e.pointsTo(c.Call.Args[0]))
			} else {
				out[Root{Kind: "fresh", At: c}] = true
			}
			continue
		}
		if idx >= len(s.returns) {
			continue
		}
		for r := range s.returns[idx] {
			merge(out, e.mapRoot(r, f, c, cyc))
		}
	}
	return out
}

func libReturnsInner(n string) bool {
	return strings.Contains(n, "modernc.org/cc")
}

// mapRoot translates a callee's root into the caller's terms.
func (e *Effects) mapRoot(r Root, f *ssa.Function, c ssa.CallInstruction, cyc *bool) map[Root]bool {
	out := map[Root]bool{}
	cc := c.Common()
	switch r.Kind {
	case "param":
		var a ssa.Value
		if cc.IsInvoke() {
			if r.N == 0 {
				a = cc.Value
			} else if r.N-1 < len(cc.Args) {
				a = cc.Args[r.N-1]
			}
		} else if r.N < len(cc.Args) {
			a = cc.Args[r.N]
		}
		if a != nil {
			if cyc != nil && e.busy[a] {
				*cyc = true
			}
			merge(out, e.pointsTo(a))
		} else {
			out[Root{Kind: "unknown"}] = true
		}
	case "freevar":
		if mc := closureOf(cc.Value, f); mc != nil && r.N < len(mc.Bindings) {
			merge(out, e.pointsTo(mc.Bindings[r.N]))
		} else if b := e.bindingIn(f, r.N, c.Parent()); b != nil {
			merge(out, e.pointsTo(b))
		} else {
			out[Root{Kind: "unknown"}] = true
		}
	case "fresh":
		if v, ok := c.(ssa.Value); ok {
			out[Root{Kind: "fresh", At: v}] = true
		} else {
			out[Root{Kind: "fresh", At: cc.Value}] = true
		}
	default:
		out[r] = true
	}
	return out
}

func closureOf(v ssa.Value, f *ssa.Function) *ssa.MakeClosure {
	if mc, ok := v.(*ssa.MakeClosure); ok && mc.Fn == f {
		return mc
	}
	return nil
}

// bindingIn finds the value bound to a captured variable of f where f is made,
// if that is in fn or fn is a sibling that captures the same variable.
func (e *Effects) bindingIn(f *ssa.Function, n int, fn *ssa.Function) ssa.Value {
	par := f.Parent()
	if par == nil {
		return nil
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				bd := mc.Bindings[n]
				if par == fn {
					return bd
				}
				// the call is inside another closure of par: find its own capture
				for g := fn; g != nil && g != par; g = g.Parent() {
					for _, b2 := range par.Blocks {
						for _, in2 := range b2.Instrs {
							if mc2, ok := in2.(*ssa.MakeClosure); ok && mc2.Fn == g {
								for i, x := range mc2.Bindings {
									if x == bd {
										return g.FreeVars[i]
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return nil
}

// lastField names the struct field an address goes through last.
func lastField(addr ssa.Value) string {
	for d := 0; d < 12; d++ {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			return structName(a.X.Type()) + "." + fieldName(derefT(a.X.Type()), a.Field)
		case *ssa.Field:
			return structName(a.X.Type()) + "." + fieldName(a.X.Type(), a.Field)
		case *ssa.IndexAddr:
			addr = a.X
		case *ssa.UnOp:
			addr = a.X
		case *ssa.Slice:
			addr = a.X
		case *ssa.Lookup:
			addr = a.X
		default:
			return ""
		}
	}
	return ""
}

func structName(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return "struct"
}

// storeClass tells updates that commute with themselves from others.
func storeClass(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Store:
		switch v := in.Val.(type) {
		case *ssa.Const:
			return "const"
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if l, ok := v.Call.Args[0].(*ssa.UnOp); ok && l.Op == token.MUL && sameAddr(l.X, in.Addr) {
					return "append"
				}
			}
		case *ssa.BinOp:
			if v.Op == token.ADD || v.Op == token.SUB || v.Op == token.OR || v.Op == token.AND {
				if l, ok := v.X.(*ssa.UnOp); ok && l.Op == token.MUL && sameAddr(l.X, in.Addr) && isIntType(v.Type()) {
					return "count"
				}
			}
		}
	case *ssa.MapUpdate:
		if isConstLike(in.Value) {
			return "const"
		}
	}
	return "other"
}

// isConstLike: a constant, or a load of a zero-sized / never-written local.
func isConstLike(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	if st, ok := v.Type().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return true
	}
	return false
}

// sameAddr: two address expressions denote the same location, syntactically.
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameVal(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameVal(x.X, y.X) && sameVal(x.Index, y.Index)
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return sameAddr(a, b)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameVal(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameVal(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.String() == y.String()
	}
	return false
}

func (e *Effects) add(f *ssa.Function, r Root, what, field string, in ssa.Instruction, fn *ssa.Function, pos token.Pos) {
	if r.Kind == "fresh" {
		return
	}
	s := e.sum[f]
	class := storeClass(in)
	k := r.String() + "|" + what + "|" + field + "|" + class
	if r.G != nil {
		k += r.G.Pkg.Pkg.Path()
	}
	if _, ok := s.effects[k]; !ok {
		s.effects[k] = &Effect{Root: r, What: what, Field: field, Class: class, Fn: fn, Pos: pos, Instr: in}
		e.chg = true
	}
}

func (e *Effects) function(f *ssa.Function) {
	s := e.sum[f]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				what := "*" + structName(in.Addr.Type())
				for r := range e.pointsTo(in.Addr) {
					e.add(f, r, what, lastField(in.Addr), in, f, instrPos(in))
				}
			case *ssa.MapUpdate:
				for r := range e.pointsTo(in.Map) {
					e.add(f, r, "map", lastField(in.Map), in, f, instrPos(in))
				}
			case *ssa.Send:
				for r := range e.pointsTo(in.Chan) {
					e.add(f, r, "send", lastField(in.Chan), in, f, instrPos(in))
				}
			case *ssa.Return:
				for i, v := range in.Results {
					if i < len(s.returns) && hasPointers(v.Type()) && !isStringType(v.Type()) {
						for r := range e.pointsTo(v) {
							if r.Kind == "fresh" {
								// the caller sees one fresh object, plus what it holds
								if !s.returns[i][Root{Kind: "fresh"}] {
									s.returns[i][Root{Kind: "fresh"}] = true
									e.chg = true
								}
								continue
							}
							if !s.returns[i][r] {
								s.returns[i][r] = true
								e.chg = true
							}
						}
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				e.callEffects(f, c)
			}
		}
	}
}

func (e *Effects) callEffects(f *ssa.Function, c ssa.CallInstruction) {
	for _, ef := range e.siteEffects(c) {
		e.add(f, ef.Root, ef.What, ef.Field, ef.Instr, ef.Fn, ef.Pos)
	}
}

// siteEffects gives the effects of one call in the caller's terms.
func (e *Effects) siteEffects(c ssa.CallInstruction) []*Effect {
	cc := c.Common()
	fn := c.Parent()
	var out []*Effect
	emit := func(v ssa.Value, what string) {
		for r := range e.pointsTo(v) {
			out = append(out, &Effect{Root: r, What: what, Field: lastField(v), Fn: fn, Pos: instrPos(c), Instr: c})
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy", "clear", "delete":
			if b.Name() == "append" {
				return nil // judged separately where it matters
			}
			emit(cc.Args[0], b.Name())
		case "close":
			emit(cc.Args[0], "close")
		}
		return out
	}
	cs := e.p.callees(c)
	for _, g := range cs {
		s := e.sum[g]
		if s == nil {
			out = append(out, e.libEffects(c, g.String())...)
			continue
		}
		for _, ef := range s.effects {
			for r := range e.mapRoot(ef.Root, g, c, nil) {
				out = append(out, &Effect{Root: r, What: ef.What, Field: ef.Field, Class: ef.Class, Fn: ef.Fn, Pos: ef.Pos, Instr: ef.Instr})
			}
		}
	}
	if len(cs) == 0 {
		out = append(out, e.libEffects(c, calleeName(cc))...)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].Root.String()+out[i].What+out[i].Field < out[j].Root.String()+out[j].What+out[j].Field
	})
	return out
}

// libEffects models the library functions that write through their arguments.
func (e *Effects) libEffects(c ssa.CallInstruction, name string) []*Effect {
	cc := c.Common()
	var out []*Effect
	emit := func(v ssa.Value, what string) {
		for r := range e.pointsTo(v) {
			out = append(out, &Effect{Root: r, What: what, Field: lastField(v), Fn: c.Parent(), Pos: instrPos(c), Instr: c})
		}
	}
	arg := func(i int) ssa.Value {
		if cc.IsInvoke() {
			if i == 0 {
				return cc.Value
			}
			i--
		}
		if i < len(cc.Args) {
			return cc.Args[i]
		}
		return nil
	}
	switch {
	case strings.HasPrefix(name, "fmt.Fprint"), name == "io.WriteString", name == "io.Copy":
		emit(arg(0), "write")
	case strings.HasPrefix(name, "sort."):
		if strings.HasPrefix(name, "sort.S") || strings.HasPrefix(name, "sort.Ints") || strings.HasPrefix(name, "sort.Float") {
			emit(arg(0), "sort")
		}
	case strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*strings.Builder)."):
		m := name[strings.LastIndex(name, ".")+1:]
		switch m {
		case "Bytes", "String", "Len", "Cap":
		default:
			emit(arg(0), "write")
		}
	case strings.HasPrefix(name, "(io.Writer).Write"), strings.HasSuffix(name, ".WriteTo"), strings.HasSuffix(name, ".ReadFrom"):
		emit(arg(0), "write")
		if a := arg(1); a != nil && strings.HasSuffix(name, "To") {
			emit(a, "write")
		}
	case strings.HasPrefix(name, "(*sync.Map)."):
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Load", "Range":
		default:
			emit(arg(0), "map")
		}
	case strings.HasPrefix(name, "(*sync."):
		emit(arg(0), "lock")
	case strings.HasPrefix(name, "(*math/rand.Rand)."):
		emit(arg(0), "rand")
	case strings.HasPrefix(name, "os.Create"), name == "os.WriteFile", name == "os.OpenFile", strings.HasPrefix(name, "os.Mkdir"),
		strings.HasPrefix(name, "os.Remove"), strings.HasPrefix(name, "os.Rename"), strings.HasPrefix(name, "io/ioutil.Write"):
		out = append(out, &Effect{Root: Root{Kind: "unknown"}, What: "file", Fn: c.Parent(), Pos: instrPos(c), Instr: c})
	case strings.HasPrefix(name, "(*os.File)."):
		out = append(out, &Effect{Root: Root{Kind: "unknown"}, What: "file", Fn: c.Parent(), Pos: instrPos(c), Instr: c})
	case strings.HasSuffix(name, "yaml.v2.Unmarshal"):
		emit(arg(1), "write")
	}
	return out
}
