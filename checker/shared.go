package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Alias flow: which values may refer to objects that are shared and must stay
// as they are, through copies of the references, and where such an object is
// written. Flow-insensitive, interprocedural, field-based for the heap.

const (
	refShared = 1 // refers into a shared object
	refHolds  = 2 // refers to (or is) something of its own that holds references to shared objects
	refDeep   = 4 // refers to something of its own that holds such holders
)

type aliasFlow struct {
	p      *Program
	seed   func(v ssa.Value) bool // a value that refers into a shared object from the start
	scope  func(f *ssa.Function) bool
	exempt func(f *ssa.Function) bool

	tag   map[ssa.Value]int
	field map[string]int // what the values kept in Struct.Field may be
	ret   map[*ssa.Function][]int
	chg   bool
}

type aliasWrite struct {
	Fn   *ssa.Function
	Pos  token.Pos
	What string
	Via  ssa.Value
}

func (a *aliasFlow) add(v ssa.Value, t int) {
	if t == 0 || v == nil || !hasPointers(v.Type()) {
		return
	}
	if isStringType(v.Type()) {
		return
	}
	if a.tag[v]|t != a.tag[v] {
		a.tag[v] |= t
		a.chg = true
	}
}

func baseAlloc(v ssa.Value) ssa.Value {
	for d := 0; d < 12; d++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
	return v
}

func (a *aliasFlow) solve() {
	a.tag = map[ssa.Value]int{}
	a.field = map[string]int{}
	a.ret = map[*ssa.Function][]int{}
	for round := 0; round < 60; round++ {
		a.chg = false
		for _, f := range a.p.Funcs {
			if a.scope == nil || a.scope(f) {
				a.function(f)
			}
		}
		if !a.chg {
			break
		}
	}
}

// get: the tag of a value, operands included (globals, constants are not
// instructions of a function).
func (a *aliasFlow) get(v ssa.Value) int {
	if v == nil {
		return 0
	}
	t := a.tag[v]
	if a.seed(v) {
		t |= refShared
	}
	return t
}

func elemHasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return hasPointers(u.Elem()) && !isStringType(u.Elem())
	case *types.Map:
		return hasPointers(u.Elem()) && !isStringType(u.Elem()) || hasPointers(u.Key()) && !isStringType(u.Key())
	}
	return true
}

func (a *aliasFlow) function(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && a.seed(v) {
				a.add(v, refShared)
			}
			switch in := in.(type) {
			case *ssa.FieldAddr:
				a.add(in, a.get(in.X))
			case *ssa.IndexAddr:
				a.add(in, a.get(in.X))
			case *ssa.Field:
				a.add(in, a.get(in.X))
				a.add(in, a.field[structName(in.X.Type())+"."+fieldName(in.X.Type(), in.Field)])
			case *ssa.Index:
				a.add(in, a.get(in.X))
			case *ssa.Slice:
				a.add(in, a.get(in.X))
			case *ssa.ChangeType:
				a.add(in, a.get(in.X))
			case *ssa.ChangeInterface:
				a.add(in, a.get(in.X))
			case *ssa.MakeInterface:
				a.add(in, a.get(in.X))
			case *ssa.TypeAssert:
				a.add(in, a.get(in.X))
			case *ssa.Convert:
				if !isStringType(in.Type()) && !isStringType(in.X.Type()) {
					a.add(in, a.get(in.X))
				}
			case *ssa.Phi:
				for _, x := range in.Edges {
					a.add(in, a.get(x))
				}
			case *ssa.Extract:
				if c, ok := in.Tuple.(*ssa.Call); ok {
					a.add(in, a.result(c, in.Index))
				} else {
					a.add(in, a.get(in.Tuple))
				}
			case *ssa.Range:
				a.add(in, a.get(in.X))
			case *ssa.Next:
				if !in.IsString {
					a.load(in, in.Iter)
				}
			case *ssa.Lookup:
				a.load(in, in.X)
			case *ssa.UnOp:
				if in.Op == token.MUL {
					a.load(in, in.X)
					if fa, ok := in.X.(*ssa.FieldAddr); ok {
						a.add(in, a.field[fieldKey(fa)])
					}
				} else if in.Op == token.ARROW {
					a.add(in, a.get(in.X))
				}
			case *ssa.Store:
				a.keep(in.Addr, in.Val)
			case *ssa.MapUpdate:
				a.keep(in.Map, in.Value)
				a.keep(in.Map, in.Key)
			case *ssa.Send:
				a.keep(in.Chan, in.X)
			case *ssa.MakeClosure:
				g := in.Fn.(*ssa.Function)
				for i, bd := range in.Bindings {
					if i < len(g.FreeVars) {
						a.add(g.FreeVars[i], a.get(bd))
						// the variable may hold something new for its owner
						a.add(bd, a.tag[g.FreeVars[i]]&^refShared)
					}
				}
			case *ssa.Return:
				r := a.ret[f]
				if r == nil {
					r = make([]int, len(in.Results))
					a.ret[f] = r
				}
				for i, v := range in.Results {
					if t := a.get(v); t|r[i] != r[i] && hasPointers(v.Type()) {
						r[i] |= t
						a.chg = true
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				a.call(c)
			}
		}
	}
}

func fieldKey(fa *ssa.FieldAddr) string {
	return structName(fa.X.Type()) + "." + fieldName(derefT(fa.X.Type()), fa.Field)
}

// load: what is read out of something tagged.
func (a *aliasFlow) load(v ssa.Value, from ssa.Value) {
	a.add(v, loaded(a.get(from)))
}

func loaded(t int) (out int) {
	if t&refShared != 0 {
		out |= refShared
	}
	if t&refHolds != 0 {
		out |= refShared
	}
	if t&refDeep != 0 {
		out |= refHolds | refDeep
	}
	return
}

func holding(t int) (out int) {
	if t&refShared != 0 {
		out |= refHolds
	}
	if t&(refHolds|refDeep) != 0 {
		out |= refDeep
	}
	return
}

// keep: a tagged value is stored: its new place holds it. A struct stored as a
// whole holds what it held.
func (a *aliasFlow) keep(addr, val ssa.Value) {
	t := a.get(val)
	if t == 0 || !hasPointers(val.Type()) || isStringType(val.Type()) {
		return
	}
	switch val.Type().Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		// a copy: its parts are the references it had
		n := t &^ refShared
		if t&refShared != 0 {
			n |= refHolds
		}
		a.hold(addr, n)
	default:
		a.hold(addr, holding(t))
	}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		a.cell(fa, t)
	}
	if u, ok := addr.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			a.cell(fa, holding(t))
		}
	}
}

func (a *aliasFlow) cell(fa *ssa.FieldAddr, t int) {
	k := fieldKey(fa)
	if a.field[k]|t != a.field[k] {
		a.field[k] |= t
		a.chg = true
	}
}

func (a *aliasFlow) hold(addr ssa.Value, t int) {
	v := addr
	for d := 0; d < 12; d++ {
		a.add(v, t)
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return
		}
	}
}

func (a *aliasFlow) result(c *ssa.Call, i int) int {
	t := 0
	for _, g := range a.p.callees(c) {
		if r := a.ret[g]; i < len(r) {
			t |= r[i]
		}
	}
	if a.seed(c) {
		t |= refShared
	}
	return t
}

func (a *aliasFlow) call(c ssa.CallInstruction) {
	cc := c.Common()
	cv, _ := c.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && cv != nil {
			a.add(cv, a.get(cc.Args[0]))
			if len(cc.Args) > 1 && elemHasPtr(cc.Args[1].Type()) {
				a.add(cv, a.get(cc.Args[1])&^refShared)
				if a.get(cc.Args[1])&refShared != 0 {
					a.add(cv, refHolds)
				}
			}
		}
		if b.Name() == "copy" && elemHasPtr(cc.Args[1].Type()) {
			if t := a.get(cc.Args[1]); t != 0 {
				n := t &^ refShared
				if t&refShared != 0 {
					n |= refHolds
				}
				a.hold(cc.Args[0], n)
			}
		}
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	gs := a.p.callees(c)
	for _, g := range gs {
		if len(g.Blocks) == 0 || !a.p.owned(g) {
			continue
		}
		for i, p := range g.Params {
			if i < len(args) {
				a.add(p, a.get(args[i]))
				a.add(args[i], a.tag[p]&^refShared)
			}
		}
	}
	if cv != nil {
		if cv.Call.Signature().Results().Len() == 1 {
			a.add(cv, a.result(cv, 0))
		}
		if n := calleeName(cc); libAliases(n) {
			for i, x := range args {
				if strings.HasSuffix(n, ").Expand") && i != 1 {
					continue // only the destination is part of the result
				}
				if _, ok := x.Type().Underlying().(*types.Slice); ok {
					a.add(cv, a.get(x))
				}
			}
		}
	}
}

// libAliases: library functions whose result is part of an argument.
func libAliases(n string) bool {
	if strings.HasPrefix(n, "bytes.Trim") || strings.HasPrefix(n, "bytes.Split") || strings.HasPrefix(n, "bytes.Fields") || n == "bytes.Cut" || strings.HasPrefix(n, "slices.") && !strings.HasPrefix(n, "slices.Clone") {
		return true
	}
	if strings.HasPrefix(n, "(*regexp.Regexp).Find") && !strings.Contains(n, "Index") && !strings.Contains(n, "String") || n == "(*regexp.Regexp).Expand" {
		return true
	}
	return n == "bytes.NewBuffer" || n == "bytes.NewReader"
}

// writes lists the places where a shared object is written.
func (a *aliasFlow) writes() (out []aliasWrite, sites int) {
	at := func(f *ssa.Function, in ssa.Instruction, via ssa.Value, what string) {
		out = append(out, aliasWrite{f, instrPos(in), what, via})
	}
	for _, f := range a.p.Funcs {
		if a.scope != nil && !a.scope(f) || a.exempt != nil && a.exempt(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					sites++
					if a.get(in.Addr)&refShared != 0 {
						what := "an element"
						if _, ok := in.Addr.(*ssa.FieldAddr); ok {
							what = lastField(in.Addr)
						} else if g, ok := in.Addr.(*ssa.Global); ok {
							what = g.Name()
						} else if lf := sharedName(in.Addr); lf != "" {
							what = "part of " + lf
						}
						at(f, in, in.Addr, what)
					}
				case *ssa.MapUpdate:
					sites++
					if a.get(in.Map)&refShared != 0 {
						at(f, in, in.Map, "the map "+sharedName(in.Map))
					}
				case ssa.CallInstruction:
					cc := in.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear", "copy":
							sites++
							if a.get(cc.Args[0])&refShared != 0 {
								at(f, in, cc.Args[0], bi.Name()+" on "+sharedName(cc.Args[0]))
							}
						case "append":
							sites++
							if a.get(cc.Args[0])&refShared != 0 && !a.fullSlice(cc.Args[0]) {
								at(f, in, cc.Args[0], "append to "+sharedName(cc.Args[0]))
							}
						}
						continue
					}
					n := calleeName(cc)
					for i, x := range libWrites(n, cc) {
						if x && argAt(cc, i) != nil && a.get(argAt(cc, i))&refShared != 0 {
							at(f, in, argAt(cc, i), n+" writes "+sharedName(argAt(cc, i)))
						}
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos < out[j].Pos })
	return
}

func argAt(cc *ssa.CallCommon, i int) ssa.Value {
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i >= len(cc.Args) {
		return nil
	}
	return stripIface(cc.Args[i])
}

// fullSlice: appending cannot reach the shared memory behind it.
func (a *aliasFlow) fullSlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Max != nil && x.High != nil && sameVal(x.Max, x.High)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && a.get(e)&refShared != 0 && !a.fullSlice(e) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return exactLiteral(g)
		}
	case *ssa.Call:
		// what an append returned: judged at that append
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return true
		}
	}
	return false
}

func libWrites(n string, cc *ssa.CallCommon) map[int]bool {
	switch {
	case strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "sort.Search") && !strings.HasSuffix(n, "AreSorted") && !strings.HasSuffix(n, "IsSorted"),
		strings.HasPrefix(n, "slices.Sort"), strings.HasPrefix(n, "slices.Reverse"), strings.HasPrefix(n, "slices.Compact"), strings.HasPrefix(n, "slices.Delete"), strings.HasPrefix(n, "slices.Insert"):
		return map[int]bool{0: true}
	case strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "(*bytes.Buffer).Reset"), strings.HasPrefix(n, "(*bytes.Buffer).Trunc"), strings.HasPrefix(n, "(*strings.Builder).Write"), strings.HasPrefix(n, "(*strings.Builder).Reset"):
		return map[int]bool{0: true}
	case strings.HasPrefix(n, "fmt.Fprint"), n == "io.WriteString", n == "io.Copy":
		return map[int]bool{0: true}
	case strings.Contains(n, "Unmarshal") && len(cc.Args) >= 2:
		return map[int]bool{1: true}
	case n == "(*regexp.Regexp).Expand" || n == "(*regexp.Regexp).ExpandString":
		return map[int]bool{1: true}
	case strings.HasPrefix(n, "strconv.Append"), strings.HasPrefix(n, "fmt.Append"):
		return map[int]bool{0: true}
	case n == "maps.Copy" || n == "maps.DeleteFunc":
		return map[int]bool{0: true}
	}
	return nil
}

// exactLiteral: a package-level slice that is only ever its literal, which has
// no room to append in.
func exactLiteral(g *ssa.Global) bool {
	n := 0
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, h := range withAnon(f) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(g) {
						continue
					}
					n++
					switch v := st.Val.(type) {
					case *ssa.Convert:
						if _, isC := v.X.(*ssa.Const); !isC {
							return false
						}
					case *ssa.Slice:
						if _, isA := v.X.(*ssa.Alloc); !isA || v.High != nil || v.Low != nil {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return n == 1
}

func sharedName(v ssa.Value) string {
	if f := lastField(v); f != "" {
		return f
	}
	for d := 0; d < 12; d++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x.Name()
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		default:
			return "a shared object"
		}
	}
	return "a shared object"
}
