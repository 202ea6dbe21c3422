package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func constV(c *ssa.Const) V {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	v := c.Value
	if isIntType(c.Type()) && v.Kind() != constant.Int {
		v = constant.ToInt(v)
	}
	return &Const{c.Type(), v}
}

func (ip *Interp) val(ps *PS, v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		return constV(v)
	case *ssa.Global:
		id, ok := ip.globals[v]
		if !ok {
			return mkTerm(v.Type(), "glob:"+v.String())
		}
		return &Ptr{Obj: id, T: v.Type()}
	case *ssa.Function:
		return &FnV{F: v}
	case *ssa.Builtin:
		return mkTerm(v.Type(), "builtin:"+v.Name())
	}
	if x, ok := ps.env[v]; ok {
		return x
	}
	return mkTerm(v.Type(), "?undef:"+v.Name())
}

func (ip *Interp) vals(ps *PS, vs []ssa.Value) []V {
	out := make([]V, len(vs))
	for i, v := range vs {
		out[i] = ip.val(ps, v)
	}
	return out
}

func (ip *Interp) freshTerm(t types.Type, what string) *Term {
	ip.fresh++
	return mkTerm(t, fmt.Sprintf("%s!%d", what, ip.fresh))
}

// block executes b from instruction index i on; returns the out edges taken.
func (ip *Interp) block(fr *Frame, b *ssa.BasicBlock, i int, ps *PS, outs *[]Outcome) []edgeState {
	var edges []edgeState
	for ; i < len(b.Instrs); i++ {
		ip.steps++
		if ip.steps > ip.maxSteps {
			panic(budgetErr{"analysis budget exceeded in " + ip.p.short(fr.fn)})
		}
		in := b.Instrs[i]
		forkRest := func(list []*PS) []edgeState {
			var es []edgeState
			for _, q := range list {
				es = append(es, ip.block(fr, b, i+1, q, outs)...)
			}
			return es
		}
		switch x := in.(type) {
		case *ssa.Phi:
			continue // set on the edge
		case *ssa.Jump:
			return append(edges, ip.edge(b, 0, ps))
		case *ssa.If:
			c := ip.val(ps, x.Cond)
			tf := ps.st.facts.assume(c, true)
			ff := ps.st.facts.assume(c, false)
			if tf != nil && ff != nil {
				q := ps.clone()
				ps.st.facts = tf
				q.st.facts = ff
				return append(edges, ip.edge(b, 0, ps), ip.edge(b, 1, q))
			}
			if tf != nil {
				ps.st.facts = tf
				return append(edges, ip.edge(b, 0, ps))
			}
			if ff != nil {
				ps.st.facts = ff
				return append(edges, ip.edge(b, 1, ps))
			}
			return edges // contradictory
		case *ssa.Return:
			*outs = append(*outs, Outcome{Ret: ip.vals(ps, x.Results), St: ps.st})
			return edges
		case *ssa.Panic:
			ip.event(ps.st, &Event{Kind: "panic", Args: []V{ps.st.snap(ip.val(ps, x.X))}, Pos: x.Pos(), Fn: fr.fn})
			*outs = append(*outs, Outcome{St: ps.st, Panic: true})
			return edges
		case *ssa.Call:
			res := ip.call(fr, ps, x, x.Common())
			var list []*PS
			for k, o := range res {
				if o.Panic {
					*outs = append(*outs, o)
					continue
				}
				q := ps
				if k < len(res)-1 {
					q = ps.clone()
				}
				q = &PS{o.St, q.env}
				q.env[x] = tuple(o.Ret)
				list = append(list, q)
			}
			if len(list) == 1 {
				ps = list[0]
				continue
			}
			return append(edges, forkRest(list)...)
		case *ssa.Defer:
			d := deferred{fr: fr, call: x, args: ip.vals(ps, x.Call.Args)}
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fn = ip.val(ps, x.Call.Value)
			}
			ps.st.defers = append(ps.st.defers, d)
			continue
		case *ssa.RunDefers:
			list := []*PS{ps}
			for {
				var next []*PS
				more := false
				for _, p := range list {
					n := len(p.st.defers)
					if n == 0 || p.st.defers[n-1].fr != fr {
						next = append(next, p)
						continue
					}
					more = true
					d := p.st.defers[n-1]
					p.st.defers = p.st.defers[: n-1 : n-1]
					res := ip.callVals(fr, p.st, d.call, d.call.Common(), d.fn, d.args)
					for k, o := range res {
						if o.Panic {
							*outs = append(*outs, o)
							continue
						}
						q := p
						if k < len(res)-1 {
							q = p.clone()
						}
						next = append(next, &PS{o.St, q.env})
					}
				}
				list = next
				if !more {
					break
				}
			}
			if len(list) == 1 {
				ps = list[0]
				continue
			}
			return append(edges, forkRest(list)...)
		case *ssa.Go:
			ip.event(ps.st, &Event{Kind: "go", Name: calleeName(x.Common()), Args: ps.st.snaps(ip.vals(ps, x.Call.Args)), Pos: x.Pos(), Fn: fr.fn, Call: x})
			if ip.GoInline {
				// what the goroutine does, as if it ran here
				res := ip.call(fr, ps, x, x.Common())
				var list []*PS
				for _, o := range res {
					if o.Panic {
						*outs = append(*outs, o)
						continue
					}
					ip.event(o.St, &Event{Kind: "gone", Pos: x.Pos(), Fn: fr.fn})
					env := ps.env
					if len(res) > 1 {
						env = ps.clone().env
					}
					list = append(list, &PS{o.St, env})
				}
				if len(list) == 1 {
					ps = list[0]
					continue
				}
				return append(edges, forkRest(list)...)
			}
			continue
		case *ssa.Send:
			ip.event(ps.st, &Event{Kind: "send", Name: types.TypeString(x.Chan.Type(), nil),
				Args: []V{ps.st.snap(ip.val(ps, x.Chan)), ps.st.snap(ip.val(ps, x.X))}, Pos: x.Pos(), Fn: fr.fn})
			continue
		case *ssa.Store:
			ip.store(fr, ps.st, ip.val(ps, x.Addr), ip.val(ps, x.Val), x.Pos())
			continue
		case *ssa.MapUpdate:
			ip.mapUpdate(fr, ps.st, ip.val(ps, x.Map), ip.val(ps, x.Key), ip.val(ps, x.Value), x.Pos())
			continue
		case *ssa.Lookup:
			list := ip.lookup(fr, ps, x)
			if len(list) == 1 {
				ps = list[0]
				continue
			}
			return append(edges, forkRest(list)...)
		case *ssa.TypeAssert:
			list := ip.typeAssert(fr, ps, x, outs)
			if len(list) == 1 {
				ps = list[0]
				continue
			}
			return append(edges, forkRest(list)...)
		case *ssa.Next:
			list := ip.nextFork(ps, x)
			if len(list) == 1 {
				ps = list[0]
				continue
			}
			return append(edges, forkRest(list)...)
		case *ssa.Select:
			var list []*PS
			for k := range x.States {
				q := ps.clone()
				ok := ip.freshTerm(types.Typ[types.Bool], "recvok")
				tv := []V{cInt(int64(k)), ok}
				for j, s := range x.States {
					if s.Dir == types.RecvOnly {
						el := s.Chan.Type().Underlying().(*types.Chan).Elem()
						if j != k {
							tv = append(tv, zeroVal(el))
							continue
						}
						r := ip.freshTerm(el, "recv")
						tv = append(tv, r)
						ip.event(q.st, &Event{Kind: "recv", Args: []V{q.st.snap(ip.val(q, s.Chan)), r, ok}, Pos: x.Pos(), Fn: fr.fn})
					} else if j == k {
						ip.event(q.st, &Event{Kind: "send", Name: types.TypeString(s.Chan.Type(), nil), Args: []V{q.st.snap(ip.val(q, s.Chan)), q.st.snap(ip.val(q, s.Send))}, Pos: x.Pos(), Fn: fr.fn})
					}
				}
				q.env[x] = &TupleV{tv}
				list = append(list, q)
			}
			if !x.Blocking {
				q := ps.clone()
				tv := []V{cInt(-1), cBool(false)}
				for _, s := range x.States {
					if s.Dir == types.RecvOnly {
						tv = append(tv, zeroVal(s.Chan.Type().Underlying().(*types.Chan).Elem()))
					}
				}
				q.env[x] = &TupleV{tv}
				list = append(list, q)
			}
			return append(edges, forkRest(list)...)
		default:
			ip.simple(fr, ps, in)
		}
	}
	return edges
}

func tuple(r []V) V {
	if len(r) == 1 {
		return r[0]
	}
	return &TupleV{r}
}

// edge moves a path state along b's k-th out edge, evaluating the target's
// phis.
func (ip *Interp) edge(b *ssa.BasicBlock, k int, ps *PS) edgeState {
	to := b.Succs[k]
	pi := -1
	for i, p := range to.Preds {
		if p == b {
			pi = i
			// both branches to one block: take the matching occurrence
			if b.Succs[0] == b.Succs[len(b.Succs)-1] && len(b.Succs) == 2 && k == 1 {
				continue
			}
			break
		}
	}
	var phis []*ssa.Phi
	var vs []V
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vs = append(vs, ip.val(ps, ph.Edges[pi]))
	}
	for i, ph := range phis {
		ps.env[ph] = vs[i]
	}
	return edgeState{to, ps}
}

func (ip *Interp) event(st *State, e *Event) {
	e.Facts = st.facts
	if ip.OnEvent != nil {
		ip.OnEvent(st, e)
	}
	if ip.Trace != nil && ip.Trace(e) {
		st.tr = append(st.tr, *e)
	}
}

// simple executes instructions that never split the state.
func (ip *Interp) simple(fr *Frame, ps *PS, in ssa.Instruction) {
	st := ps.st
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		ps.env[x] = &Ptr{Obj: st.alloc(zeroObj(et)), T: x.Type()}
	case *ssa.BinOp:
		ps.env[x] = ip.binop(fr, st, x, ip.val(ps, x.X), ip.val(ps, x.Y))
	case *ssa.UnOp:
		v := ip.val(ps, x.X)
		switch x.Op {
		case token.MUL:
			ps.env[x] = ip.load(st, v, x.Type())
		case token.NOT:
			ps.env[x] = mkNot(v)
		case token.ARROW:
			r := ip.freshTerm(x.Type(), "recv")
			ok := ip.freshTerm(types.Typ[types.Bool], "recvok")
			var got V = r
			if x.CommaOk {
				got = mkTerm(x.Type().(*types.Tuple).At(0).Type(), r.Op)
				ps.env[x] = &TupleV{[]V{got, ok}}
			} else {
				ps.env[x] = r
			}
			ip.event(st, &Event{Kind: "recv", Args: []V{st.snap(v), got, ok}, Pos: x.Pos(), Fn: fr.fn})
		case token.SUB:
			if c, ok := v.(*Const); ok && c.C != nil {
				ps.env[x] = &Const{x.Type(), constant.UnaryOp(token.SUB, c.C, 0)}
			} else {
				ps.env[x] = mkTerm(x.Type(), "neg", v)
			}
		default:
			ps.env[x] = mkTerm(x.Type(), "un"+x.Op.String(), v)
		}
	case *ssa.ChangeType:
		ps.env[x] = retype(ip.val(ps, x.X), x.Type())
	case *ssa.ChangeInterface:
		ps.env[x] = ip.val(ps, x.X)
	case *ssa.MakeInterface:
		ps.env[x] = &Iface{x.X.Type(), ip.val(ps, x.X)}
	case *ssa.Convert:
		ps.env[x] = ip.convert(st, ip.val(ps, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		ps.env[x] = ip.val(ps, x.X)
	case *ssa.FieldAddr:
		ps.env[x] = fieldAddr(ip.val(ps, x.X), x.Field, x.X.Type(), x.Type())
	case *ssa.Field:
		ps.env[x] = fieldOf(ip.val(ps, x.X), x.Field, x.Type(), x.X.Type())
	case *ssa.IndexAddr:
		ps.env[x] = ip.indexAddr(st, ip.val(ps, x.X), ip.val(ps, x.Index), x.X.Type(), x.Type())
	case *ssa.Index:
		a, ix := ip.val(ps, x.X), ip.val(ps, x.Index)
		if n, ok := isIntConst(ix); ok {
			if q, ok := a.(*SeqV); ok && q.Base == nil && int(n) < len(q.E) {
				ps.env[x] = q.E[n]
				break
			}
			if s, ok := isStrConst(a); ok && n >= 0 && int(n) < len(s) {
				ps.env[x] = &Const{x.Type(), constant.MakeInt64(int64(s[n]))}
				break
			}
		}
		ps.env[x] = mkTerm(x.Type(), "[]", a, ix)
	case *ssa.Slice:
		ps.env[x] = ip.slice(ps, x)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := ip.val(ps, x.Len)
		if isByteSlice(x.Type()) {
			if k, ok := isIntConst(n); ok && k == 0 {
				ps.env[x] = cStr("")
			} else {
				ps.env[x] = mkTerm(x.Type(), "make", n)
			}
			break
		}
		q := &SeqV{T: et}
		if k, ok := isIntConst(n); ok && k < 4096 {
			for i := int64(0); i < k; i++ {
				q.E = append(q.E, zeroVal(et))
			}
		} else {
			q.N = n
		}
		ps.env[x] = &SliceV{Obj: st.alloc(q), T: x.Type()}
	case *ssa.MakeMap:
		ps.env[x] = &MapV{Obj: st.alloc(&MapVal{}), T: x.Type()}
	case *ssa.MakeChan:
		ps.env[x] = ip.freshTerm(x.Type(), "chan")
	case *ssa.MakeClosure:
		ps.env[x] = &FnV{F: x.Fn.(*ssa.Function), B: ip.vals(ps, x.Bindings)}
	case *ssa.Range:
		ps.env[x] = mkTerm(x.Type(), "iter", st.rangeOver(ip.val(ps, x.X)), cInt(0))
	case *ssa.Extract:
		t := ip.val(ps, x.Tuple)
		if tv, ok := t.(*TupleV); ok && x.Index < len(tv.E) {
			ps.env[x] = tv.E[x.Index]
		} else {
			ps.env[x] = mkTerm(x.Type(), fmt.Sprintf("#%d", x.Index), t)
		}
	case *ssa.SliceToArrayPointer:
		ps.env[x] = mkTerm(x.Type(), "s2a", ip.val(ps, x.X))
	default:
		if v, ok := in.(ssa.Value); ok {
			ps.env[v] = ip.freshTerm(v.Type(), "unk")
		}
	}
}

func (s *State) rangeOver(v V) V { return v }

func zeroObj(t types.Type) V {
	if isTextBuffer(t) {
		return cStr("")
	}
	return zeroVal(t)
}

// isTextBuffer: library types whose abstract content is the text written.
func isTextBuffer(t types.Type) bool {
	return isNamedT(t, "bytes", "Buffer") || isNamedT(t, "strings", "Builder")
}

func isNamedT(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func retype(v V, t types.Type) V {
	switch x := v.(type) {
	case *Const:
		return &Const{t, x.C}
	case *Term:
		if x.T != nil && types.Identical(x.T, t) {
			return x
		}
		return &Term{Op: x.Op, Args: x.Args, T: t, k: x.k}
	case *StructV:
		return &StructV{T: t, F: x.F}
	case *SliceV:
		return &SliceV{x.Obj, t}
	case *MapV:
		return &MapV{x.Obj, t}
	case *Ptr:
		return &Ptr{x.Obj, x.Path, t}
	}
	return v
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func basicBits(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, true
	case types.Int8:
		return 8, false
	case types.Uint16:
		return 16, true
	case types.Int16:
		return 16, false
	case types.Uint32:
		return 32, true
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func wrapInt(c constant.Value, t types.Type) constant.Value {
	if c.Kind() != constant.Int {
		return c
	}
	bits, uns := basicBits(t)
	m := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	if uns {
		if constant.Sign(c) >= 0 && constant.Compare(c, token.LSS, m) {
			return c
		}
		r := constant.BinaryOp(c, token.REM, m)
		if constant.Sign(r) < 0 {
			r = constant.BinaryOp(r, token.ADD, m)
		}
		return r
	}
	h := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
	if constant.Compare(c, token.LSS, h) && constant.Compare(c, token.GEQ, constant.UnaryOp(token.SUB, h, 0)) {
		return c
	}
	r := constant.BinaryOp(constant.BinaryOp(c, token.ADD, h), token.REM, m)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, m)
	}
	return constant.BinaryOp(r, token.SUB, h)
}

func (ip *Interp) convert(st *State, v V, from, to types.Type) V {
	fromText := isStringType(from) || isByteSlice(from)
	toText := isStringType(to) || isByteSlice(to)
	if fromText && toText {
		if isByteSlice(from) && isNilConst(v) {
			return cStr("")
		}
		return retype(v, to)
	}
	if isIntType(from) && isIntType(to) {
		if ip.Wraps != nil && isUnsigned(to) && !isUnsigned(from) && !st.facts.geq(v, cInt(0)) {
			w := mkTerm(to, "wrap", v, cInt(0))
			ip.Wraps[w.K()] = token.NoPos
			return w
		}
		if c, ok := v.(*Const); ok && c.C != nil {
			return &Const{to, wrapInt(c.C, to)}
		}
		fb, fu := basicBits(from)
		tb, tu := basicBits(to)
		if tb > fb || (tb == fb && fu == tu) || (tb == fb && fu && !tu) {
			return keepType(v, from, to)
		}
		// narrowing or sign change: exact when the interval fits
		if b, _, ok := lin(v); ok && b != nil {
			iv := st.facts.interval(b)
			if iv.lo >= 0 && !tu && iv.hi < int64(1)<<uint(min(tb-1, 62)) {
				return keepType(v, from, to)
			}
			if iv.lo >= 0 && tu && (tb == 64 || iv.hi < int64(1)<<uint(min(tb, 62))) {
				return keepType(v, from, to)
			}
		}
		return mkTerm(to, "conv:"+to.String(), v)
	}
	if isStringType(to) && isIntType(from) {
		if n, ok := isIntConst(v); ok {
			return &Const{to, constant.MakeString(string(rune(n)))}
		}
		return mkTerm(to, "chr", v)
	}
	if c, ok := v.(*Const); ok && c.C != nil {
		if b, ok := to.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsFloat != 0:
				return &Const{to, constant.ToFloat(c.C)}
			case b.Info()&types.IsInteger != 0:
				if i := constant.ToInt(c.C); i.Kind() == constant.Int {
					return &Const{to, wrapInt(i, to)}
				}
			}
		}
	}
	return mkTerm(to, "conv:"+to.String(), v)
}

// keepType keeps a widened integer the same term (facts about it stay
// usable) but with the interval of its original type recorded.
func keepType(v V, from, to types.Type) V { return v }

func (ip *Interp) binop(fr *Frame, st *State, x *ssa.BinOp, a, b V) V {
	t := x.Type()
	switch x.Op {
	case token.EQL:
		return mkEq(a, b, x.X.Type(), st)
	case token.NEQ:
		return mkNot(mkEq(a, b, x.X.Type(), st))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if x.Op == token.ADD && isStringType(t) {
		return mkCat(a, b)
	}
	if ip.Wraps != nil && x.Op == token.SUB && isUnsigned(t) && !st.facts.geq(a, b) {
		w := mkTerm(t, "wrap", a, b)
		ip.Wraps[w.K()] = x.Pos()
		return w
	}
	ca, oka := a.(*Const)
	cb, okb := b.(*Const)
	if (x.Op == token.SUB || x.Op == token.ADD || x.Op == token.MUL || x.Op == token.SHL) && isIntType(t) {
		ip.event(st, &Event{Kind: "arith", Name: x.Op.String(), Args: []V{a, b}, Pos: x.Pos(), Fn: fr.fn})
	}
	if oka && okb && ca.C != nil && cb.C != nil {
		switch x.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(cb.C); ok && n < 512 {
				return &Const{t, wrapInt(constant.Shift(ca.C, x.Op, uint(n)), t)}
			}
		case token.QUO, token.REM:
			if constant.Sign(cb.C) != 0 {
				op := x.Op
				if isIntType(t) && op == token.QUO {
					op = token.QUO_ASSIGN
				}
				return &Const{t, constant.BinaryOp(ca.C, op, cb.C)}
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			r := constant.BinaryOp(ca.C, x.Op, cb.C)
			if isIntType(t) {
				r = wrapInt(r, t)
			}
			return &Const{t, r}
		}
	}
	if isIntType(t) && (x.Op == token.ADD || x.Op == token.SUB) {
		la, na, ok1 := lin(a)
		lb, nb, ok2 := lin(b)
		if ok1 && ok2 {
			if x.Op == token.ADD {
				if lb == nil {
					return mkAdd(t, la, na+nb)
				}
				if la == nil {
					return mkAdd(t, lb, na+nb)
				}
			} else {
				if lb == nil {
					return mkAdd(t, la, na-nb)
				}
				if la != nil && la.K() == lb.K() {
					return &Const{t, constant.MakeInt64(na - nb)}
				}
			}
		}
	}
	if x.Op == token.AND || x.Op == token.OR {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			return mkTerm(t, x.Op.String(), a, b)
		}
	}
	return mkTerm(t, x.Op.String(), a, b)
}

// ---- memory ---------------------------------------------------------------

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldName(st types.Type, i int) string {
	s, ok := derefT(st).Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return fmt.Sprintf("f%d", i)
	}
	return s.Field(i).Name()
}

func fieldAddr(v V, i int, xt, rt types.Type) V {
	switch p := v.(type) {
	case *Ptr:
		return &Ptr{p.Obj, append(append([]int(nil), p.Path...), i), rt}
	}
	return mkTerm(rt, "&."+fieldName(xt, i), v)
}

func fieldOf(v V, i int, ft, st types.Type) V {
	switch s := v.(type) {
	case *StructV:
		if i < len(s.F) {
			return s.F[i]
		}
	}
	return mkTerm(ft, "."+fieldName(st, i), v)
}

func (ip *Interp) indexAddr(st *State, a, ix V, at, rt types.Type) V {
	n, isC := isIntConst(ix)
	switch p := a.(type) {
	case *Ptr: // pointer to array
		if isC {
			return &Ptr{p.Obj, append(append([]int(nil), p.Path...), int(n)), rt}
		}
	case *SliceV:
		if q, ok := st.get(p.Obj).(*SeqV); ok && isC && q.Base == nil && q.N == nil && int(n) < len(q.E) && n >= 0 {
			return &Ptr{p.Obj, []int{int(n)}, rt}
		}
	}
	return mkTerm(rt, "&[]", a, ix)
}

// content of the thing an address term denotes
func (ip *Interp) load(st *State, addr V, t types.Type) V {
	switch a := addr.(type) {
	case *Ptr:
		v := st.get(a.Obj)
		ct := types.Type(nil)
		for _, i := range a.Path {
			v, ct = childOf(v, i, ct)
		}
		if v == nil {
			return mkTerm(t, "?load", addr)
		}
		return collapse(v)
	case *Term:
		return ip.loadTerm(st, a, t)
	case *Const:
		return mkTerm(t, "nilderef")
	}
	return mkTerm(t, "*", addr)
}

func childOf(v V, i int, _ types.Type) (V, types.Type) {
	switch s := v.(type) {
	case *StructV:
		if i < len(s.F) {
			return s.F[i], nil
		}
	case *SeqV:
		if i < len(s.E) && s.Base == nil {
			return s.E[i], nil
		}
		return mkTerm(s.T, "[]", s, cInt(int64(i))), nil
	case *Term:
		if s.T != nil {
			switch u := s.T.Underlying().(type) {
			case *types.Struct:
				return mkTerm(u.Field(i).Type(), "."+u.Field(i).Name(), s), nil
			case *types.Array:
				return mkTerm(u.Elem(), "[]", s, cInt(int64(i))), nil
			}
		}
		return mkTerm(nil, fmt.Sprintf(".%d", i), s), nil
	}
	return nil, nil
}

func collapse(v V) V {
	s, ok := v.(*StructV)
	if !ok || len(s.F) == 0 {
		return v
	}
	u, ok := s.T.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	var base V
	for i, f := range s.F {
		t, ok := f.(*Term)
		if !ok || t.Op != "."+u.Field(i).Name() || len(t.Args) != 1 {
			return v
		}
		if base == nil {
			base = t.Args[0]
		} else if base.K() != t.Args[0].K() {
			return v
		}
	}
	if bt, ok := base.(*Term); ok {
		return retype(bt, s.T)
	}
	return v
}

// derefTerm: the value an address (or pointer) term refers to, before any
// recorded store.
func derefTerm(a *Term, t types.Type) V {
	switch {
	case strings.HasPrefix(a.Op, "&."):
		return mkTerm(t, a.Op[1:], derefAny(a.Args[0]))
	case a.Op == "&[]":
		return mkTerm(t, "[]", a.Args...)
	}
	return mkTerm(t, "*", a)
}

func derefAny(v V) V {
	if a, ok := v.(*Term); ok {
		var t types.Type
		if a.T != nil {
			t = derefT(a.T)
		}
		return derefTerm(a, t)
	}
	return mkTerm(nil, "*", v)
}

func (ip *Interp) loadTerm(st *State, a *Term, t types.Type) V {
	if e, ok := st.sym[a.K()]; ok {
		return e.v
	}
	// element of a known slice at an unknown index
	if a.Op == "&[]" {
		if sl, ok := a.Args[0].(*SliceV); ok {
			if q, ok := st.get(sl.Obj).(*SeqV); ok {
				if q.N != nil && len(q.E) == 0 {
					// a generic store covers every index
					for _, e := range st.sym {
						if e.addr.Op == "&[]" && e.addr.Args[0].K() == sl.K() {
							return substTerm(e.v, e.addr.Args[1], a.Args[1])
						}
					}
				}
				if q.Base != nil && len(q.E) == 0 {
					return mkTerm(t, "[]", q.Base, a.Args[1])
				}
				return mkTerm(t, "[]", st.snap(q), a.Args[1])
			}
		}
		if pt, ok := a.Args[0].(*Ptr); ok {
			return mkTerm(t, "[]", st.snap(ip.load(st, pt, derefT(pt.T))), a.Args[1])
		}
	}
	// a field of something stored as a whole
	if strings.HasPrefix(a.Op, "&.") {
		if pt, ok := a.Args[0].(*Term); ok {
			if ip.hasSymPrefix(st, pt) {
				whole := ip.loadTerm(st, pt, derefT(pt.T))
				if s, ok := whole.(*StructV); ok {
					if u, ok := s.T.Underlying().(*types.Struct); ok {
						for i := 0; i < u.NumFields(); i++ {
							if "&."+u.Field(i).Name() == a.Op {
								return s.F[i]
							}
						}
					}
				}
				return mkTerm(t, a.Op[1:], whole)
			}
		}
	}
	// whole struct with some fields stored
	if u, ok := t.Underlying().(*types.Struct); ok && len(st.sym) > 0 {
		any := false
		for _, e := range st.sym {
			if strings.HasPrefix(e.addr.Op, "&.") && e.addr.Args[0].K() == a.K() {
				any = true
			}
		}
		if any {
			s := &StructV{T: t}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				s.F = append(s.F, ip.loadTerm(st, mkTerm(types.NewPointer(f.Type()), "&."+f.Name(), a), f.Type()))
			}
			return s
		}
	}
	return derefTerm(a, t)
}

func (ip *Interp) hasSymPrefix(st *State, a *Term) bool {
	if len(st.sym) == 0 {
		return false
	}
	if _, ok := st.sym[a.K()]; ok {
		return true
	}
	if strings.HasPrefix(a.Op, "&.") {
		if p, ok := a.Args[0].(*Term); ok {
			return ip.hasSymPrefix(st, p)
		}
	}
	return false
}

func substTerm(v V, from, to V) V {
	fk := from.K()
	if fk == to.K() {
		return v
	}
	return mapV(v, func(x V) V {
		if t, ok := x.(*Term); ok && t.K() == fk {
			return to
		}
		return nil
	})
}

func (ip *Interp) store(fr *Frame, st *State, addr, v V, pos token.Pos) {
	switch a := addr.(type) {
	case *Ptr:
		cur := st.get(a.Obj)
		if a.Obj < ip.baseN && ip.initDone {
			ip.event(st, &Event{Kind: "gstore", Name: ip.globalName(a.Obj), Args: []V{st.snap(v)}, Pos: pos, Fn: fr.fn})
		}
		st.set(a.Obj, setPath(cur, a.Path, v, derefT(a.T)))
	case *Term:
		ip.event(st, &Event{Kind: "store", Args: []V{a, st.snap(v)}, Pos: pos, Fn: fr.fn})
		// forget what is known about parts of it
		for k, e := range st.sym {
			if isUnder(e.addr, a.K()) {
				delete(st.sym, k)
			}
		}
		st.sym[a.K()] = symEnt{a, v}
	}
}

func isUnder(a *Term, k string) bool {
	for {
		if a.K() == k {
			return true
		}
		if !strings.HasPrefix(a.Op, "&.") || len(a.Args) == 0 {
			return false
		}
		p, ok := a.Args[0].(*Term)
		if !ok {
			return false
		}
		a = p
	}
}

func (ip *Interp) globalName(id int) string {
	for g, i := range ip.globals {
		if i == id {
			return g.String()
		}
	}
	return fmt.Sprintf("object%d", id)
}

func setPath(cur V, path []int, v V, t types.Type) V {
	if len(path) == 0 {
		return v
	}
	i := path[0]
	switch s := cur.(type) {
	case *StructV:
		n := &StructV{T: s.T, F: append([]V(nil), s.F...)}
		n.F[i] = setPath(s.F[i], path[1:], v, t)
		return n
	case *SeqV:
		n := &SeqV{Base: s.Base, T: s.T, N: s.N, E: append([]V(nil), s.E...)}
		if i < len(n.E) {
			n.E[i] = setPath(n.E[i], path[1:], v, t)
		}
		return n
	case *Term:
		if s.T != nil {
			if u, ok := s.T.Underlying().(*types.Struct); ok {
				n := &StructV{T: s.T}
				for j := 0; j < u.NumFields(); j++ {
					n.F = append(n.F, mkTerm(u.Field(j).Type(), "."+u.Field(j).Name(), s))
				}
				n.F[i] = setPath(n.F[i], path[1:], v, t)
				return n
			}
		}
		return mkTerm(s.T, "upd", s, cInt(int64(i)), v)
	}
	return cur
}

func (ip *Interp) mapUpdate(fr *Frame, st *State, m, k, v V, pos token.Pos) {
	switch x := m.(type) {
	case *MapV:
		cur, _ := st.get(x.Obj).(*MapVal)
		if cur == nil {
			cur = &MapVal{}
		}
		if x.Obj < ip.baseN && ip.initDone {
			ip.event(st, &Event{Kind: "gstore", Name: ip.globalName(x.Obj), Args: []V{st.snap(k), st.snap(v)}, Pos: pos, Fn: fr.fn})
		}
		ip.event(st, &Event{Kind: "mapset", Args: []V{x, st.snap(k), st.snap(v)}, Pos: pos, Fn: fr.fn})
		n := &MapVal{Base: cur.Base}
		kk := k.K()
		done := false
		for i := range cur.Ks {
			if cur.Ks[i].K() == kk {
				n.Ks = append(n.Ks, k)
				n.Vs = append(n.Vs, v)
				done = true
				continue
			}
			n.Ks = append(n.Ks, cur.Ks[i])
			n.Vs = append(n.Vs, cur.Vs[i])
		}
		if !done {
			n.Ks = append(n.Ks, k)
			n.Vs = append(n.Vs, v)
		}
		st.set(x.Obj, n)
	case *Term:
		ip.event(st, &Event{Kind: "mapstore", Args: []V{x, st.snap(k), st.snap(v)}, Pos: pos, Fn: fr.fn})
		a := mkTerm(types.NewPointer(types.Typ[types.Invalid]), "&m[]", x, k)
		st.sym[a.K()] = symEnt{a, v}
	}
}

func (ip *Interp) lookup(fr *Frame, ps *PS, x *ssa.Lookup) []*PS {
	m, k := ip.val(ps, x.X), ip.val(ps, x.Index)
	st := ps.st
	if isStringType(x.X.Type()) {
		if s, ok := isStrConst(m); ok {
			if n, ok := isIntConst(k); ok && n >= 0 && int(n) < len(s) {
				ps.env[x] = &Const{x.Type(), constant.MakeInt64(int64(s[n]))}
				return []*PS{ps}
			}
		}
		if c, ok := m.(*Cat); ok {
			if n, ok := isIntConst(k); ok {
				if s, ok := isStrConst(c.Parts[0]); ok && int(n) < len(s) {
					ps.env[x] = &Const{x.Type(), constant.MakeInt64(int64(s[n]))}
					return []*PS{ps}
				}
			}
		}
		ps.env[x] = mkTerm(x.Type(), "at", m, k)
		return []*PS{ps}
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	set := func(q *PS, v, ok V) {
		if x.CommaOk {
			q.env[x] = &TupleV{[]V{v, ok}}
		} else {
			q.env[x] = v
		}
	}
	switch mv := m.(type) {
	case *Const:
		set(ps, zeroVal(vt), cBool(false))
		return []*PS{ps}
	case *MapV:
		mm, _ := st.get(mv.Obj).(*MapVal)
		if mm == nil {
			break
		}
		var out []*PS
		cur := ps
		// equal known key first
		for i := range mm.Ks {
			e := mkEq(mm.Ks[i], k, nil, st)
			if b, ok := isBoolConst(e); ok && b {
				set(cur, mm.Vs[i], cBool(true))
				return []*PS{cur}
			}
		}
		unknown := 0
		for i := range mm.Ks {
			if _, ok := isBoolConst(mkEq(mm.Ks[i], k, nil, st)); !ok {
				unknown++
			}
		}
		if unknown > 40 {
			has := mkTerm(types.Typ[types.Bool], "has", mv, k)
			set(ps, mkTerm(vt, "get", mv, k), has)
			return []*PS{ps}
		}
		for i := range mm.Ks {
			e := mkEq(mm.Ks[i], k, nil, st)
			if _, ok := isBoolConst(e); ok {
				continue
			}
			if tf := cur.st.facts.assume(e, true); tf != nil {
				q := cur.clone()
				q.st.facts = tf
				set(q, mm.Vs[i], cBool(true))
				out = append(out, q)
			}
			ff := cur.st.facts.assume(e, false)
			if ff == nil {
				return out
			}
			cur = cur.clone()
			cur.st.facts = ff
		}
		if mm.Base != nil {
			set(cur, mkTerm(vt, "get", mm.Base, k), mkTerm(types.Typ[types.Bool], "has", mm.Base, k))
		} else {
			set(cur, zeroVal(vt), cBool(false))
		}
		return append(out, cur)
	case *Term:
		a := mkTerm(types.NewPointer(types.Typ[types.Invalid]), "&m[]", mv, k)
		if e, ok := st.sym[a.K()]; ok {
			set(ps, e.v, cBool(true))
			return []*PS{ps}
		}
		set(ps, mkTerm(vt, "get", mv, k), mkTerm(types.Typ[types.Bool], "has", mv, k))
		return []*PS{ps}
	}
	set(ps, mkTerm(vt, "get", m, k), mkTerm(types.Typ[types.Bool], "has", m, k))
	return []*PS{ps}
}

func (ip *Interp) typeAssert(fr *Frame, ps *PS, x *ssa.TypeAssert, outs *[]Outcome) []*PS {
	v := ip.val(ps, x.X)
	set := func(q *PS, r V, ok bool) {
		if x.CommaOk {
			q.env[x] = &TupleV{[]V{r, cBool(ok)}}
		} else {
			q.env[x] = r
		}
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	fail := func(q *PS) []*PS {
		if x.CommaOk {
			set(q, zeroVal(x.AssertedType), false)
			return []*PS{q}
		}
		*outs = append(*outs, Outcome{St: q.st, Panic: true})
		return nil
	}
	switch i := v.(type) {
	case *Iface:
		if toIface {
			if types.Implements(i.T, x.AssertedType.Underlying().(*types.Interface)) {
				set(ps, i, true)
				return []*PS{ps}
			}
			return fail(ps)
		}
		if types.Identical(i.T, x.AssertedType) {
			set(ps, i.X, true)
			return []*PS{ps}
		}
		return fail(ps)
	case *Const:
		return fail(ps)
	}
	is := mkTerm(types.Typ[types.Bool], "is:"+types.TypeString(x.AssertedType, nil), v)
	as := mkTerm(x.AssertedType, "as:"+types.TypeString(x.AssertedType, nil), v)
	var res V = as
	if toIface {
		res = v
	}
	// a known dynamic type excludes the others
	if !toIface {
		for k, b := range ps.st.facts.b {
			if b && strings.HasPrefix(k, "is:") && strings.HasSuffix(k, "("+v.K()+")") && k != is.K() {
				if t, ok := ps.st.facts.at[k].(*Term); ok && !strings.HasPrefix(t.Op, "is:iface") {
					if tt := ip.typeByIs(t.Op); tt {
						return fail(ps)
					}
				}
			}
		}
	}
	var out []*PS
	tf := ps.st.facts.assume(is, true)
	ff := ps.st.facts.assume(is, false)
	if !x.CommaOk {
		if tf == nil {
			return fail(ps)
		}
		// unchecked assertion: the code's own claim
		ps.st.facts = tf
		set(ps, res, true)
		return []*PS{ps}
	}
	if tf != nil {
		q := ps.clone()
		q.st.facts = tf
		set(q, res, true)
		out = append(out, q)
	}
	if ff != nil {
		q := ps.clone()
		q.st.facts = ff
		out = append(out, fail(q)...)
	}
	return out
}

func (ip *Interp) typeByIs(op string) bool {
	return strings.HasPrefix(op, "is:*") || !strings.Contains(op, "interface")
}

func (ip *Interp) nextFork(ps *PS, x *ssa.Next) []*PS {
	it, _ := ip.val(ps, x.Iter).(*Term)
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if it == nil {
		ps.env[x] = ip.freshTerm(x.Type(), "next")
		return []*PS{ps}
	}
	src := it.Args[0]
	if c, ok := src.(*Const); ok && c.C == nil {
		ps.env[x] = &TupleV{[]V{cBool(false), zeroValOrNil(kt), zeroValOrNil(vt)}}
		return []*PS{ps}
	}
	if mv, ok := src.(*MapV); ok {
		if mm, ok := ps.st.get(mv.Obj).(*MapVal); ok && mm.Base == nil {
			ck := "iterpos:" + it.K() + x.Name()
			n := int64(0)
			if c, ok := ps.st.marks[ck]; ok {
				n, _ = isIntConst(c)
			}
			ix := make([]int, len(mm.Ks))
			for i := range ix {
				ix[i] = i
			}
			sort.Slice(ix, func(a, b int) bool { return mm.Ks[ix[a]].K() < mm.Ks[ix[b]].K() })
			if int(n) >= len(ix) {
				delete(ps.st.marks, ck)
				ps.env[x] = &TupleV{[]V{cBool(false), zeroValOrNil(kt), zeroValOrNil(vt)}}
				return []*PS{ps}
			}
			ps.st.marks[ck] = cInt(n + 1)
			ps.env[x] = &TupleV{[]V{cBool(true), mm.Ks[ix[n]], mm.Vs[ix[n]]}}
			return []*PS{ps}
		}
	}
	if s, ok := isStrConst(src); ok {
		ck := "iterpos:" + it.K() + x.Name()
		n := int64(0)
		if c, ok := ps.st.marks[ck]; ok {
			n, _ = isIntConst(c)
		}
		var pos []int
		for i := range s {
			pos = append(pos, i)
		}
		if int(n) >= len(pos) {
			delete(ps.st.marks, ck)
			ps.env[x] = &TupleV{[]V{cBool(false), cInt(0), cInt(0)}}
			return []*PS{ps}
		}
		ps.st.marks[ck] = cInt(n + 1)
		r := []rune(s[pos[n]:])[0]
		ps.env[x] = &TupleV{[]V{cBool(true), cInt(int64(pos[n])), &Const{types.Typ[types.Int32], constant.MakeInt64(int64(r))}}}
		return []*PS{ps}
	}
	ok := mkTerm(types.Typ[types.Bool], "more#"+it.K()+"#")
	key := mkTerm(kt, "key#"+it.K()+"#", src)
	var val V = mkTerm(vt, "get", src, key)
	if x.IsString {
		val = mkTerm(vt, "rune", src, key)
	}
	ps.env[x] = &TupleV{[]V{ok, key, val}}
	ps.st.facts = ps.st.facts.without("#" + it.K() + "#")
	return []*PS{ps}
}

func zeroValOrNil(t types.Type) V {
	if t == nil || t == types.Typ[types.Invalid] {
		return cNil(t)
	}
	return zeroVal(t)
}

func (ip *Interp) slice(ps *PS, x *ssa.Slice) V {
	st := ps.st
	v := ip.val(ps, x.X)
	var lo, hi V
	if x.Low != nil {
		lo = ip.val(ps, x.Low)
	}
	if x.High != nil {
		hi = ip.val(ps, x.High)
	}
	bound := func(b V, def int) (int, bool) {
		if b == nil {
			return def, true
		}
		n, ok := isIntConst(b)
		return int(n), ok
	}
	isT := isStringType(x.Type()) || isByteSlice(x.Type())
	if isT {
		if s, ok := isStrConst(v); ok {
			a, ok1 := bound(lo, 0)
			b, ok2 := bound(hi, len(s))
			if ok1 && ok2 && a >= 0 && a <= b && b <= len(s) {
				return &Const{x.Type(), constant.MakeString(s[a:b])}
			}
		}
		if c, ok := v.(*Cat); ok && hi == nil && lo != nil {
			if s, ok := isStrConst(c.Parts[0]); ok {
				if n, ok := isIntConst(lo); ok && int(n) <= len(s) {
					return mkCat(append([]V{cStr(s[n:])}, c.Parts[1:]...)...)
				}
			}
		}
		if a, ok := bound(hi, -1); ok && a == 0 {
			return cStr("")
		}
		args := []V{v}
		for _, b := range []V{lo, hi} {
			if b == nil {
				b = cNil(types.Typ[types.UntypedNil])
			}
			args = append(args, b)
		}
		if lo == nil && hi == nil {
			return v
		}
		return mkTerm(x.Type(), "slice", args...)
	}
	var q *SeqV
	switch p := v.(type) {
	case *Ptr:
		c := ip.load(st, p, derefT(p.T))
		q, _ = c.(*SeqV)
	case *SliceV:
		q, _ = st.get(p.Obj).(*SeqV)
		if lo == nil && hi == nil {
			return retype(v, x.Type())
		}
	case *Const:
		return v
	}
	if q != nil && q.Base == nil && q.N == nil {
		a, ok1 := bound(lo, 0)
		b, ok2 := bound(hi, len(q.E))
		if ok1 && ok2 && a >= 0 && a <= b && b <= len(q.E) {
			return &SliceV{Obj: st.alloc(&SeqV{T: q.T, E: append([]V(nil), q.E[a:b]...)}), T: x.Type()}
		}
	}
	args := []V{st.snap(v)}
	for _, b := range []V{lo, hi} {
		if b == nil {
			b = cNil(types.Typ[types.UntypedNil])
		}
		args = append(args, b)
	}
	return mkTerm(x.Type(), "slice", args...)
}

// snap replaces references to local mutable objects by their content, so that
// the value keeps its meaning when the objects change later.
func (st *State) snap(v V) V { return st.snapD(v, map[int]bool{}, 0) }

func (st *State) snaps(vs []V) []V {
	out := make([]V, len(vs))
	for i, v := range vs {
		out[i] = st.snap(v)
	}
	return out
}

func (st *State) snapD(v V, seen map[int]bool, d int) V {
	if v == nil || d > 12 {
		return v
	}
	switch x := v.(type) {
	case *Ptr:
		if x.Obj < st.ip.baseN && st.ip.initDone {
			return v // package level object: stable identity
		}
		if seen[x.Obj] {
			return mkTerm(x.T, "cycle")
		}
		seen[x.Obj] = true
		c := st.ip.load(st, x, derefT(x.T))
		r := mkTerm(x.T, "ptr", st.snapD(c, seen, d+1))
		delete(seen, x.Obj)
		return r
	case *SliceV:
		if seen[x.Obj] {
			return mkTerm(x.T, "cycle")
		}
		seen[x.Obj] = true
		r := st.snapD(st.get(x.Obj), seen, d+1)
		delete(seen, x.Obj)
		return r
	case *MapV:
		if x.Obj < st.ip.baseN && st.ip.initDone {
			return v
		}
		if seen[x.Obj] {
			return mkTerm(x.T, "cycle")
		}
		seen[x.Obj] = true
		r := st.snapD(st.get(x.Obj), seen, d+1)
		delete(seen, x.Obj)
		return r
	case *StructV:
		n := &StructV{T: x.T}
		for _, f := range x.F {
			n.F = append(n.F, st.snapD(f, seen, d+1))
		}
		return n
	case *SeqV:
		n := &SeqV{T: x.T, N: x.N, Base: x.Base}
		for _, f := range x.E {
			n.E = append(n.E, st.snapD(f, seen, d+1))
		}
		return n
	case *MapVal:
		n := &MapVal{Base: x.Base}
		for i := range x.Ks {
			n.Ks = append(n.Ks, st.snapD(x.Ks[i], seen, d+1))
			n.Vs = append(n.Vs, st.snapD(x.Vs[i], seen, d+1))
		}
		return n
	case *Iface:
		return &Iface{x.T, st.snapD(x.X, seen, d+1)}
	case *FnV:
		n := &FnV{F: x.F}
		for _, b := range x.B {
			n.B = append(n.B, st.snapD(b, seen, d+1))
		}
		return n
	}
	return v
}
