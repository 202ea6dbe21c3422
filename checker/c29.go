package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: reading and generating come to an end.

func init() { checks["C29"] = c29 }

func c29(c *Ctx) {
	c.explain = "Every natural loop of every function of the module, and every cycle of its call graph, is given a reason why it ends: something that is the same in every iteration or call bounds something that moves towards it each time. Loops are judged on the SSA form; recursion by size change: every function on a cycle is interpreted abstractly, and of every call back into the cycle it is noted which arguments are parts of the caller's, or counters that go up under a bound; every way around the cycle must make one of them smaller."
	c.Rule("loop: a loop goes through the elements of something, counts towards a bound that does not move, follows the links of a list, uses up a string, a slice or a counter, goes from what is required to what that requires in turn, or looks for a name by making it longer; and it looks each time whether it is done")
	c.Rule("recursion: every way around a cycle of calls makes an argument smaller: it is a part of the caller's, a counter that goes up and is stopped at a bound, or a value that is given only if it is another one")
	c.Rule("requirements: no fixed helper requires itself through others, and what a helper requires is decided when it is made")
	n := 0
	for _, f := range c.Funcs {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		for _, l := range loops29(f) {
			n++
			l.fn, l.c = f, c
			l.judge(c)
		}
	}
	c.Stat("loops", n)
	c.recursion29()
	c.requirements29()
	c.Floor("loop", 40)
	c.Floor("recursion", 6)
	c.Floor("requirements", 5)
	c.Assume("the front end's declarations and types are finite: following their parts, without going through the members of structures, comes to an end")
	c.Assume("goroutines that wait for others (channels, timers) are C09's and C27's matter; calls of other modules return")
}

type loop29 struct {
	fn    *ssa.Function
	c     *Ctx
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	latch []*ssa.BasicBlock
}

// val29: a value, in the helper function it was followed into.
type val29 struct {
	v  ssa.Value
	up *ctx29
}

type ctx29 struct {
	call *ssa.Call
	up   *ctx29
	n    int
}

func (l *loop29) at(v ssa.Value) val29 { return val29{v: v} }

func (x val29) with(v ssa.Value) val29 { return val29{v, x.up} }

// res follows a value into the helpers that are not the module's own parts
// (they were taken out of one): what it is there, or all it can be.
func (l *loop29) res(x val29) []val29 {
	switch v := x.v.(type) {
	case *ssa.Parameter:
		if x.up != nil {
			f := x.up.call.Call.StaticCallee()
			for i, p := range f.Params {
				if p == v && i < len(x.up.call.Call.Args) {
					return l.res(val29{x.up.call.Call.Args[i], x.up.up})
				}
			}
		}
	case *ssa.Call:
		if r := l.results(x, v, 0); r != nil {
			return r
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if r := l.results(x, c, v.Index); r != nil {
				return r
			}
		}
	}
	return []val29{x}
}

func (l *loop29) results(x val29, call *ssa.Call, k int) (out []val29) {
	f := call.Call.StaticCallee()
	if f == nil || f.Blocks == nil || f.Parent() != nil || l.c == nil || l.c.isBaseline(f) || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/xlab/c-for-go") {
		return nil
	}
	ctx := &ctx29{call: call, up: x.up, n: 1}
	if x.up != nil {
		ctx.n += x.up.n
	}
	if ctx.n > 4 {
		return nil
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(r.Results) || x.up == nil && l.leaves(call, r) {
			continue
		}
		out = append(out, l.res(val29{r.Results[k], ctx})...)
	}
	return
}

// leaves: where the helper returns so, the loop is left.
func (l *loop29) leaves(call *ssa.Call, r *ssa.Return) bool {
	if call.Referrers() == nil {
		return false
	}
	for _, u := range *call.Referrers() {
		e, ok := u.(*ssa.Extract)
		if !ok || e.Index >= len(r.Results) || e.Referrers() == nil {
			continue
		}
		k, ok := r.Results[e.Index].(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Bool {
			continue
		}
		for _, w := range *e.Referrers() {
			if i, ok := w.(*ssa.If); ok && l.body[i.Block()] {
				to := 1
				if constant.BoolVal(k.Value) {
					to = 0
				}
				if !l.body[i.Block().Succs[to]] {
					return true
				}
			}
		}
	}
	return false
}

// all: what holds of everything the value can be.
func (l *loop29) all(x val29, f func(x val29) bool) bool {
	rs := l.res(x)
	for _, r := range rs {
		if !f(r) {
			return false
		}
	}
	return len(rs) > 0
}

func loops29(f *ssa.Function) (out []*loop29) {
	by := map[*ssa.BasicBlock]*loop29{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := by[h]
			if l == nil {
				l = &loop29{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				by[h] = l
				out = append(out, l)
			}
			l.latch = append(l.latch, b)
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return
}

func (l *loop29) pos() token.Pos {
	for _, b := range append([]*ssa.BasicBlock{l.head}, l.latch...) {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return l.fn.Pos()
}

// always: the block is passed in every iteration that goes on.
func (l *loop29) always(b *ssa.BasicBlock) bool {
	for _, x := range l.latch {
		if !b.Dominates(x) {
			return false
		}
	}
	return true
}

// exits calls f for every test that every iteration makes and that can end
// the loop; stay is the outcome of the condition with which it goes on.
func (l *loop29) exits(f func(cond ssa.Value, stay bool)) {
	for b := range l.body {
		if len(b.Instrs) == 0 || !l.always(b) {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		in0, in1 := l.body[b.Succs[0]], l.body[b.Succs[1]]
		if in0 == in1 {
			continue
		}
		l.conds(i.Cond, in0, f, 0)
	}
}

func (l *loop29) conds(v ssa.Value, stay bool, f func(ssa.Value, bool), d int) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT && d < 5 {
		l.conds(u.X, !stay, f, d+1)
		return
	}
	f(v, stay)
}

func (l *loop29) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && in.Parent() == l.fn && l.body[in.Block()]
}

func (l *loop29) judge(c *Ctx) {
	why := l.reason()
	if why == "waits" {
		c.Stat("loops that wait", 1)
		return
	}
	name := c.short(l.fn)
	c.Obl("loop", fmt.Sprintf("%s %s", name, l.label()), l.pos(), why != "", "nothing that the analysis knows makes this loop of %s come to an end for every input", name)
	if why != "" {
		c.Stat("loops: "+why, 1)
	}
}

// label names a loop by its place among the loops of its function.
func (l *loop29) label() string {
	n := 1
	for _, o := range loops29(l.fn) {
		if o.head == l.head {
			break
		}
		n++
	}
	return fmt.Sprintf("loop %d", n)
}

func (l *loop29) reason() string {
	why := ""
	set := func(s string) {
		if why == "" {
			why = s
		}
	}
	l.exits(func(cond ssa.Value, stay bool) {
		switch x := cond.(type) {
		case *ssa.Call:
			// a reader of another module that says whether there is more
			if f := x.Call.StaticCallee(); f != nil && stay && f.Signature.Recv() != nil && l.fixed(x.Call.Args[0], 0) {
				if n := f.Name(); (n == "Scan" || n == "Next" || n == "More") && f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/xlab/c-for-go") {
					set("elements")
				}
			}
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Next:
				r, _ := t.Iter.(*ssa.Range)
				if x.Index == 0 && stay && (r == nil || t.IsString || !l.grows(r.X)) {
					set("elements")
				}
			case *ssa.UnOp:
				if t.Op == token.ARROW {
					set("waits")
				}
			case *ssa.TypeAssert:
				if x.Index == 1 && stay && l.oneOf(t.X) {
					set("links")
				}
			case *ssa.Lookup:
				if x.Index == 1 && stay && l.longer(t.Index) && !l.changes(t.X) {
					set("names")
				}
			}
		case *ssa.Phi:
			// the outcome of a look-up carried around
			if x.Block() == l.head && stay && l.search(x) {
				set("names")
			}
			if x.Block() == l.head && stay && l.each(x, func(v ssa.Value) bool {
				e, ok := v.(*ssa.Extract)
				if !ok || e.Index != 1 {
					return false
				}
				t, ok := e.Tuple.(*ssa.TypeAssert)
				return ok && l.oneOf(t.X)
			}) {
				set("links")
			}
		case *ssa.BinOp:
			if s := l.compare(x, stay); s != "" {
				set(s)
			}
		}
	})
	if why == "" {
		for b := range l.body {
			if !l.always(b) {
				continue
			}
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Select:
					return "waits"
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						return "waits"
					}
				}
			}
		}
	}
	return why
}

func negate29(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func flip29(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (l *loop29) compare(x *ssa.BinOp, stay bool) string {
	op := x.Op
	if !stay {
		op = negate29(op)
	}
	if op == token.ILLEGAL {
		return ""
	}
	for _, s := range []struct {
		a, b ssa.Value
		op   token.Token
	}{{x.X, x.Y, op}, {x.Y, x.X, flip29(op)}} {
		if isNilConst29(s.b) && s.op == token.NEQ && l.follows(s.a) {
			return "links"
		}
		if basic, ok := s.a.Type().Underlying().(*types.Basic); ok && basic.Info()&types.IsInteger != 0 {
			lo, hi, ok := l.moves(s.a)
			if ok && lo >= 1 && (s.op == token.LSS || s.op == token.LEQ || s.op == token.NEQ && lo == 1 && hi == 1) && l.fixed(s.b, 0) {
				return "counts"
			}
			if ok && hi <= -1 && (s.op == token.GTR || s.op == token.GEQ || s.op == token.NEQ && lo == -1 && hi == -1) && l.fixed(s.b, 0) {
				return "counts"
			}
			if (s.op == token.LSS || s.op == token.LEQ) && l.fixed(s.b, 0) && l.spent(s.a, token.ADD) {
				return "counts"
			}
			if (s.op == token.GTR || s.op == token.NEQ || s.op == token.GEQ) && isConst(s.b) {
				if l.spent(s.a, token.SUB) {
					return "used up"
				}
				if cl, ok := s.a.(*ssa.Call); ok && isBuiltin(cl, "len") && len(cl.Call.Args) == 1 {
					if l.shorter(cl.Call.Args[0]) {
						return "used up"
					}
					if l.descends(cl.Call.Args[0]) {
						return "requirements"
					}
				}
				// an index looked for in what is left
				if cl, ok := s.a.(*ssa.Call); ok && len(cl.Call.Args) > 0 && strings.HasPrefix(calleeName(cl.Common()), "strings.") && l.shorter(cl.Call.Args[0]) {
					return "used up"
				}
			}
		}
		if basic, ok := s.a.Type().Underlying().(*types.Basic); ok && basic.Info()&types.IsString != 0 && s.op == token.NEQ && l.shorter(s.a) {
			return "used up"
		}
	}
	return ""
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func isNilConst29(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

func isBuiltin(c *ssa.Call, name string) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

// headPhi: the variable of the loop a value is, or is a fixed distance from.
func (l *loop29) headPhi(v ssa.Value, d int) *ssa.Phi {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == l.head {
			return x
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if isConst(x.Y) {
				return l.headPhi(x.X, d+1)
			}
			if isConst(x.X) && x.Op == token.ADD {
				return l.headPhi(x.Y, d+1)
			}
		}
	case *ssa.Convert:
		return l.headPhi(x.X, d+1)
	}
	return nil
}

// moves: by how much the loop's variable differs from one iteration to the
// next, at least and at most.
func (l *loop29) moves(v ssa.Value) (lo, hi int64, ok bool) {
	p := l.headPhi(v, 0)
	if p == nil {
		return
	}
	first := true
	for i, pred := range l.head.Preds {
		if !l.body[pred] {
			continue
		}
		a, b, good := l.diff(p.Edges[i], p, map[val29]bool{}, 0)
		if !good {
			return 0, 0, false
		}
		if first || a < lo {
			lo = a
		}
		if first || b > hi {
			hi = b
		}
		first = false
	}
	return lo, hi, !first
}

const far29 = int64(1) << 40

// diff: v minus p, at least and at most.
func (l *loop29) diff(v ssa.Value, p *ssa.Phi, busy map[val29]bool, d int) (lo, hi int64, ok bool) {
	return l.diffs(l.at(v), p, busy, d)
}

func (l *loop29) diffs(x val29, p *ssa.Phi, busy map[val29]bool, d int) (lo, hi int64, ok bool) {
	return l.hull(l.res(x), func(r val29) (int64, int64, bool) { return l.diff1(r, p, busy, d) })
}

func (l *loop29) hull(vs []val29, f func(x val29) (int64, int64, bool)) (lo, hi int64, ok bool) {
	for i, v := range vs {
		a, b, good := f(v)
		if !good {
			return 0, 0, false
		}
		if i == 0 || a < lo {
			lo = a
		}
		if i == 0 || b > hi {
			hi = b
		}
	}
	return lo, hi, len(vs) > 0
}

func (l *loop29) diff1(v val29, p *ssa.Phi, busy map[val29]bool, d int) (lo, hi int64, ok bool) {
	if v.v == ssa.Value(p) {
		return 0, 0, true
	}
	if d > 30 {
		return
	}
	switch x := v.v.(type) {
	case *ssa.BinOp:
		k, isK := intConst29(x.Y)
		y := x.X
		if !isK && x.Op == token.ADD {
			k, isK = intConst29(x.X)
			y = x.Y
		}
		if !isK {
			return
		}
		if x.Op == token.SUB {
			k = -k
		} else if x.Op != token.ADD {
			return
		}
		lo, hi, ok = l.diffs(v.with(y), p, busy, d+1)
		return sat29(lo + k), sat29(hi + k), ok
	case *ssa.Phi:
		if x.Block() == l.head || v.up == nil && !l.body[x.Block()] || busy[v] {
			return
		}
		// an inner loop's variable: its own steps are all in one direction
		for _, o := range loops29(x.Parent()) {
			if o.head != x.Block() {
				continue
			}
			o.fn, o.c = x.Parent(), l.c
			slo, shi, good := o.moves(x)
			if !good {
				return
			}
			var in []val29
			for i, pred := range x.Block().Preds {
				if !o.body[pred] {
					in = append(in, v.with(x.Edges[i]))
				}
			}
			lo, hi, ok = l.hull(in, func(r val29) (int64, int64, bool) { return l.diffs(r, p, busy, d+1) })
			if slo < 0 {
				lo = -far29
			}
			if shi > 0 {
				hi = far29
			}
			return
		}
		busy[v] = true
		defer delete(busy, v)
		var in []val29
		for _, e := range x.Edges {
			in = append(in, v.with(e))
		}
		return l.hull(in, func(r val29) (int64, int64, bool) { return l.diffs(r, p, busy, d+1) })
	case *ssa.Convert:
		return l.diffs(v.with(x.X), p, busy, d+1)
	}
	return
}

func sat29(n int64) int64 {
	if n > far29 {
		return far29
	}
	if n < -far29 {
		return -far29
	}
	return n
}

func intConst29(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return k.Int64(), true
}

// fixed: the value is the same in every iteration.
func (l *loop29) fixed(v ssa.Value, d int) bool {
	if !l.inside(v) {
		return true
	}
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return l.fixed(x.Call.Args[0], d+1)
		}
		// an accessor of what does not change, of another module
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && !getter29(f) {
			return false
		}
		args := x.Call.Args
		if x.Call.IsInvoke() {
			args = append([]ssa.Value{x.Call.Value}, args...)
		}
		for _, a := range args {
			if !l.fixed(a, d+1) {
				return false
			}
		}
		return len(args) > 0
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return l.fixed(x.X, d+1) && !l.stores(x.X)
		}
		return x.Op != token.ARROW && l.fixed(x.X, d+1)
	case *ssa.BinOp:
		return l.fixed(x.X, d+1) && l.fixed(x.Y, d+1)
	case *ssa.FieldAddr:
		return l.fixed(x.X, d+1)
	case *ssa.Field:
		return l.fixed(x.X, d+1)
	case *ssa.Convert:
		return l.fixed(x.X, d+1)
	case *ssa.ChangeType:
		return l.fixed(x.X, d+1)
	case *ssa.ChangeInterface:
		return l.fixed(x.X, d+1)
	case *ssa.MakeInterface:
		return l.fixed(x.X, d+1)
	case *ssa.TypeAssert:
		return l.fixed(x.X, d+1)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return l.fixed(t.X, d+1)
		}
	case *ssa.Phi:
		if x.Block() != l.head {
			return false
		}
		for i, pred := range l.head.Preds {
			if l.body[pred] && x.Edges[i] != ssa.Value(x) {
				return false
			}
		}
		return true
	}
	return false
}

func getter29(f *ssa.Function) bool { return len(f.Blocks) == 1 && pure29(f) }

func pure29(f *ssa.Function) bool {
	for _, in := range f.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
			return false
		}
	}
	return true
}

// sameAddr: two addresses of the same field of the same thing.
func sameAddr29(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && sameAddr29(x.X, y.X)
}

// mayBe: a store to one address may change what is at the other.
func mayBe29(st, addr ssa.Value) bool {
	if sameAddr29(st, addr) {
		return true
	}
	x, ok1 := st.(*ssa.FieldAddr)
	y, ok2 := addr.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type()) || mayBe29(st, y.X)
	}
	if ok2 {
		return mayBe29(st, y.X) // the whole of it
	}
	return false
}

// stores: what is at the address may be changed in the loop.
func (l *loop29) stores(addr ssa.Value) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && mayBe29(s.Addr, addr) {
				return true
			}
		}
	}
	return false
}

// spent: a counter in memory that every iteration makes smaller (or larger)
// and nothing moves the other way.
func (l *loop29) spent(v ssa.Value, by token.Token) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || !l.inside(u) {
		return false
	}
	down := false
	for b := range l.body {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || !mayBe29(s.Addr, u.X) {
				continue
			}
			x, ok := s.Val.(*ssa.BinOp)
			if !ok || x.Op != by || !sameAddr29(s.Addr, u.X) {
				return false
			}
			k, isK := intConst29(x.Y)
			ld, isLd := x.X.(*ssa.UnOp)
			if !isK || k < 1 || !isLd || ld.Op != token.MUL || !sameAddr29(ld.X, u.X) {
				return false
			}
			if k != 1 && by == token.SUB {
				if basic, ok := u.Type().Underlying().(*types.Basic); ok && basic.Info()&types.IsUnsigned != 0 {
					return false // may step over the end
				}
			}
			down = down || l.always(b)
		}
	}
	return down
}

// each calls f with the value the loop's variable has after an iteration.
func (l *loop29) each(p *ssa.Phi, f func(v ssa.Value) bool) bool {
	n := 0
	for i, pred := range l.head.Preds {
		if !l.body[pred] {
			continue
		}
		n++
		if !f(p.Edges[i]) {
			return false
		}
	}
	return n > 0
}

// follows: the loop's variable goes on to a part of itself each time.
func (l *loop29) follows(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if !ok || p.Block() != l.head {
		return false
	}
	return l.each(p, func(v ssa.Value) bool { return l.partOf(v, p, 0) > 0 })
}

// partMethods29: the front end's accessors that give a part of a type or
// declaration; others may give the thing itself or something around it. The
// members of a structure are none: they may lead back to it.
var partMethods29 = map[string]bool{"Elem": true, "Result": true, "Parameters": true, "Type": true}

// oneOf: the value belongs to a variable of the loop that goes on to a part of
// itself each time.
func (l *loop29) oneOf(v ssa.Value) bool {
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if l.partOf(v, p, 0) >= 0 && l.follows(p) {
			return true
		}
	}
	return false
}

// partOf: v is reached from p by that many steps, -1 if not at all.
func (l *loop29) partOf(v ssa.Value, p ssa.Value, d int) int { return l.part(l.at(v), p, d) }

func (l *loop29) part(x val29, p ssa.Value, d int) int {
	least := -1
	for i, r := range l.res(x) {
		k := l.part1(r, p, d)
		if k < 0 {
			return -1
		}
		if i == 0 || k < least {
			least = k
		}
	}
	return least
}

func (l *loop29) part1(v val29, p ssa.Value, d int) int {
	if v.v == p {
		return 0
	}
	if d > 12 {
		return -1
	}
	up := func(x ssa.Value, n int) int {
		if k := l.part(v.with(x), p, d+1); k >= 0 {
			return k + n
		}
		return -1
	}
	switch x := v.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return up(x.X, 0)
		}
	case *ssa.FieldAddr:
		return up(x.X, 1)
	case *ssa.Field:
		return up(x.X, 1)
	case *ssa.IndexAddr:
		return up(x.X, 1)
	case *ssa.ChangeInterface:
		return up(x.X, 0)
	case *ssa.ChangeType:
		return up(x.X, 0)
	case *ssa.MakeInterface:
		return up(x.X, 0)
	case *ssa.TypeAssert:
		return up(x.X, 0)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return up(t.X, 0)
		}
	case *ssa.Call:
		if x.Call.IsInvoke() {
			if partMethods29[x.Call.Method.Name()] {
				return up(x.Call.Value, 1)
			}
			return -1
		}
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(x.Call.Args) > 0 && (partMethods29[f.Name()] || isGetter29(f)) {
			return up(x.Call.Args[0], 1)
		}
	case *ssa.Phi:
		if x.Block() == l.head {
			return -1
		}
		least := -1
		for i, e := range x.Edges {
			k := l.part(v.with(e), p, d+1)
			if k < 0 {
				return -1
			}
			if i == 0 || k < least {
				least = k
			}
		}
		return least
	}
	return -1
}

// shorter: each iteration leaves less of the string or slice.
func (l *loop29) shorter(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if !ok || p.Block() != l.head {
		return false
	}
	return l.each(p, func(v ssa.Value) bool { return l.less(v, p, 0) })
}

func (l *loop29) less(v ssa.Value, p *ssa.Phi, d int) bool { return l.lesser(l.at(v), p, d) }

func (l *loop29) lesser(v val29, p *ssa.Phi, d int) bool {
	return l.all(v, func(v val29) bool { return l.less1(v, p, d) })
}

// isVar: the value is the loop's variable.
func (l *loop29) isVar(v val29, p *ssa.Phi) bool {
	return l.all(v, func(v val29) bool { return v.v == ssa.Value(p) })
}

func (l *loop29) less1(v val29, p *ssa.Phi, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.v.(type) {
	case *ssa.Phi:
		if x.Block() == l.head || len(x.Edges) == 0 {
			return false
		}
		for _, e := range x.Edges {
			if !l.lesser(v.with(e), p, d+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		if !l.isVar(v.with(x.X), p) {
			return l.lesser(v.with(x.X), p, d+1)
		}
		if x.Low != nil {
			if n, ok := intConst29(x.Low); ok && n >= 1 {
				return true
			}
			// beyond a place found in it
			if l.all(v.with(x.Low), func(y val29) bool {
				b, ok := y.v.(*ssa.BinOp)
				if !ok || b.Op != token.ADD {
					return false
				}
				n, ok := intConst29(b.Y)
				return ok && n >= 1 && l.placeIn(y.with(b.X), p)
			}) {
				return true
			}
		}
		if x.High != nil {
			if l.placeIn(v.with(x.High), p) {
				return true
			}
			if l.all(v.with(x.High), func(y val29) bool {
				b, ok := y.v.(*ssa.BinOp)
				if !ok || b.Op != token.SUB {
					return false
				}
				n, ok := intConst29(b.Y)
				c, ok2 := b.X.(*ssa.Call)
				return ok && n >= 1 && ok2 && isBuiltin(c, "len") && l.isVar(y.with(c.Call.Args[0]), p)
			}) {
				return true
			}
		}
	}
	return false
}

// placeIn: a place found in the string, before its end.
func (l *loop29) placeIn(v val29, p *ssa.Phi) bool {
	return l.all(v, func(v val29) bool {
		c, ok := v.v.(*ssa.Call)
		if !ok || len(c.Call.Args) < 2 {
			return false
		}
		n := calleeName(c.Common())
		if !strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "bytes.") || !strings.Contains(n, "Index") {
			return false
		}
		if strings.HasSuffix(n, "Index") { // of the empty string: may be the end
			k, ok := c.Call.Args[1].(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String || constant.StringVal(k.Value) == "" {
				return false
			}
		}
		return l.isVar(v.with(c.Call.Args[0]), p)
	})
}

// longer: the key looked up is made longer in every iteration.
func (l *loop29) longer(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	for _, s := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		k, ok := s[0].(*ssa.Const)
		p, ok2 := s[1].(*ssa.Phi)
		if ok && ok2 && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) != "" && p.Block() == l.head {
			return l.each(p, func(v ssa.Value) bool { return v == ssa.Value(b) })
		}
	}
	return false
}

// search: the test is the outcome of looking up a name that gets longer.
func (l *loop29) search(p *ssa.Phi) bool {
	return l.each(p, func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		if !ok || e.Index != 1 {
			return false
		}
		t, ok := e.Tuple.(*ssa.Lookup)
		return ok && l.longer(t.Index) && !l.changes(t.X)
	})
}

// changes: the loop puts something into the map.
func (l *loop29) changes(m ssa.Value) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type(), m.Type()) {
				return true
			}
		}
	}
	return false
}

// grows: the loop puts something into the very map it goes through.
func (l *loop29) grows(m ssa.Value) bool {
	same := func(a ssa.Value) bool {
		if a == m {
			return true
		}
		x, ok1 := a.(*ssa.UnOp)
		y, ok2 := m.(*ssa.UnOp)
		return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr29(x.X, y.X)
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && same(u.Map) && u.Key != l.key() {
				return true
			}
		}
	}
	return false
}

// key: the key of the element the loop is at.
func (l *loop29) key() ssa.Value {
	for b := range l.body {
		for _, in := range b.Instrs {
			if e, ok := in.(*ssa.Extract); ok && e.Index == 1 {
				if _, ok := e.Tuple.(*ssa.Next); ok && b == l.head || ok && b.Idom() == l.head {
					return e
				}
			}
		}
	}
	return nil
}

// descends: the list for the next iteration is put together from what the
// elements of this one refer to.
func (l *loop29) descends(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if !ok || p.Block() != l.head {
		return false
	}
	return l.each(p, func(v ssa.Value) bool { return l.fromParts(l.at(v), p, map[val29]bool{}) })
}

func (l *loop29) fromParts(v val29, p *ssa.Phi, seen map[val29]bool) bool {
	return l.all(v, func(v val29) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Phi:
			if x == p {
				return false
			}
			for _, e := range x.Edges {
				if !l.fromParts(v.with(e), p, seen) {
					return false
				}
			}
			return true
		case *ssa.ChangeType:
			return l.fromParts(v.with(x.X), p, seen)
		case *ssa.Slice:
			return l.lesser(v, p, 0) // one is taken off
		case *ssa.Call:
			if isBuiltin(x, "append") {
				return l.fromParts(v.with(x.Call.Args[0]), p, seen) && l.fromParts(v.with(x.Call.Args[1]), p, seen)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return l.part(v, p, 0) >= 2
			}
		}
		return false
	})
}

// isGetter29: the method only returns a field of its receiver.
func isGetter29(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return false
	}
	u, ok := r.Results[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	_, ok = u.X.(*ssa.FieldAddr)
	return ok
}
