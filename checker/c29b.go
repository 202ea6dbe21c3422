package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cycles29: the strongly connected parts of a graph of functions that have a
// cycle.
func cycles29(fs []*ssa.Function, succ func(*ssa.Function) []*ssa.Function) (out [][]*ssa.Function) {
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		index[f] = len(index) + 1
		low[f] = index[f]
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range succ(f) {
			if g == f {
				self = true
			}
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] != index[f] {
			return
		}
		var comp []*ssa.Function
		for {
			g := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[g] = false
			comp = append(comp, g)
			if g == f {
				break
			}
		}
		if len(comp) > 1 || self {
			out = append(out, comp)
		}
	}
	for _, f := range fs {
		if index[f] == 0 {
			visit(f)
		}
	}
	return
}

func (c *Ctx) recursion29() {
	mod := map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		if f.Blocks != nil {
			mod[f] = true
		}
	}
	memo := map[*ssa.Function][]*ssa.Function{}
	succ := func(f *ssa.Function) []*ssa.Function {
		if s, ok := memo[f]; ok {
			return s
		}
		seen := map[*ssa.Function]bool{}
		var out []*ssa.Function
		add := func(g *ssa.Function) {
			if mod[g] && !seen[g] {
				seen[g] = true
				out = append(out, g)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range c.callees(ci) {
						add(g)
					}
				}
				// a function literal is taken to be called where it is made
				for _, o := range in.Operands(nil) {
					if mc, ok := (*o).(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
					if g, ok := (*o).(*ssa.Function); ok && g.Parent() != nil {
						add(g)
					}
				}
			}
		}
		memo[f] = out
		return out
	}
	for _, comp := range cycles29(c.Funcs, succ) {
		nodes := c.nodes29(comp, succ)
		c.shrinks29(nodes)
	}
}

// nodes29: the functions every cycle of the part passes through.
func (c *Ctx) nodes29(comp []*ssa.Function, succ func(*ssa.Function) []*ssa.Function) []*ssa.Function {
	node := map[*ssa.Function]bool{}
	for _, f := range comp {
		if f.Parent() == nil && c.isBaseline(f) {
			node[f] = true
		}
	}
	in := map[*ssa.Function]bool{}
	for _, f := range comp {
		in[f] = !node[f]
	}
	var rest []*ssa.Function
	for _, f := range comp {
		if !node[f] {
			rest = append(rest, f)
		}
	}
	for _, sub := range cycles29(rest, func(f *ssa.Function) (out []*ssa.Function) {
		if !in[f] {
			return nil
		}
		for _, g := range succ(f) {
			if in[g] {
				out = append(out, g)
			}
		}
		return
	}) {
		for _, f := range sub {
			node[f] = true
		}
	}
	var out []*ssa.Function
	for f := range node {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return c.short(out[i]) < c.short(out[j]) })
	return out
}

// node29: a function on a cycle, called with some arguments known.
type node29 struct {
	f    *ssa.Function
	args []V // nil: not known
	key  string
}

func (c *Ctx) mkNode29(f *ssa.Function, args []V) *node29 {
	n := &node29{f: f, args: make([]V, len(f.Params)), key: c.short(f)}
	for i := range n.args {
		if i >= len(args) {
			break
		}
		k, ok := args[i].(*Const)
		if !ok {
			continue
		}
		if k.C != nil && k.C.Kind() != constant.String && k.C.Kind() != constant.Bool {
			continue // counters
		}
		n.args[i] = k
		n.key += fmt.Sprintf(" $%d=%s", i, k.K())
	}
	return n
}

// edge29: a call from one to another, and how the arguments compare to the
// caller's: equal or smaller (strict).
type edge29 struct {
	from, to string
	rel      map[rel29]bool // true: smaller
	site     token.Pos
}

// rel29: argument i of the caller, j of the callee, by one measure.
type rel29 struct {
	i, j int
	by   string
}

func (e *edge29) key() string {
	var ks []string
	for r, s := range e.rel {
		ks = append(ks, fmt.Sprint(r, s))
	}
	sort.Strings(ks)
	return e.from + " > " + e.to + " " + strings.Join(ks, " ")
}

func (c *Ctx) shrinks29(nodes []*ssa.Function) {
	in := map[*ssa.Function]bool{}
	for _, f := range nodes {
		in[f] = true
	}
	var edges []*edge29
	known := map[string]bool{}
	done := map[string]bool{}
	var work []*node29
	push := func(n *node29) {
		if !known[n.key] {
			known[n.key] = true
			work = append(work, n)
		}
	}
	for _, f := range nodes {
		push(c.mkNode29(f, nil))
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if len(known) > 120 {
			c.Fail("recursion", c.short(n.f), n.f.Pos(), "the calls of %s with known arguments are too many to follow", c.short(n.f))
			return
		}
		t := c.tableArgs("recursion", n.f, n.args, func(ip *Interp) {
			setupEmission(c, ip)
			old := ip.Inline
			ip.Inline = func(g *ssa.Function) bool { return !in[g] && old(g) }
			withEvents(ip, func(e *Event) bool {
				return e.Kind == "call" || e.Kind == "invoke" || e.Kind == "go" || e.Kind == "defer"
			})
		})
		if t == nil {
			return
		}
		for _, r := range append(append([]*Row{}, t.Iter...), t.Path...) {
			for i := range r.Ev {
				e := &r.Ev[i]
				if e.Call == nil || e.Kind != "call" && e.Kind != "invoke" && e.Kind != "go" && e.Kind != "defer" {
					continue
				}
				args := e.Raw
				if args == nil {
					args = e.Args
				}
				for _, g := range c.callees(e.Call) {
					if !in[g] || len(args) != len(g.Params) {
						continue
					}
					m := c.mkNode29(g, args)
					push(m)
					ed := &edge29{from: n.key, to: m.key, rel: relations29(n, e, args), site: e.Pos}
					if k := ed.key(); !done[k] {
						done[k] = true
						edges = append(edges, ed)
					}
				}
			}
		}
	}
	c.Stat("recursive calls", len(edges))
	// every way around: size-change graphs closed under composition
	var all []*edge29
	seen := map[string]bool{}
	bad := map[*ssa.Function]*edge29{}
	add := func(e *edge29) {
		if k := e.key(); !seen[k] {
			seen[k] = true
			all = append(all, e)
		}
	}
	for _, e := range edges {
		add(e)
	}
	owner := func(key string) *ssa.Function {
		for _, f := range nodes {
			if n := c.short(f); key == n || strings.HasPrefix(key, n+" ") {
				return f
			}
		}
		return nil
	}
	for i := 0; i < len(all); i++ {
		if len(all) > 4000 {
			c.Fail("recursion", c.short(nodes[0]), nodes[0].Pos(), "the ways around the cycle of %s are too many to follow", c.short(nodes[0]))
			return
		}
		e := all[i]
		if e.from == e.to {
			if sq := compose29(e, e); sq.key() == e.key() {
				down := false
				for r, s := range e.rel {
					down = down || s && r.i == r.j
				}
				if f := owner(e.from); !down && f != nil && bad[f] == nil {
					bad[f] = e
				}
			}
		}
		for _, d := range edges {
			if e.to == d.from {
				add(compose29(e, d))
			}
		}
	}
	for _, f := range nodes {
		e := bad[f]
		pos := f.Pos()
		if e != nil {
			pos = e.site
		}
		c.Obl("recursion", c.short(f), pos, e == nil, "%s can come back to itself with nothing smaller than before, so it need not come to an end", c.short(f))
	}
}

func compose29(a, b *edge29) *edge29 {
	out := &edge29{from: a.from, to: b.to, rel: map[rel29]bool{}, site: a.site}
	for r, s := range a.rel {
		for q, u := range b.rel {
			if r.j == q.i && r.by == q.by {
				k := rel29{r.i, q.j, r.by}
				out.rel[k] = out.rel[k] || s || u
			}
		}
	}
	return out
}

func relations29(n *node29, e *Event, args []V) map[rel29]bool {
	out := map[rel29]bool{}
	for i, p := range n.f.Params {
		if n.args[i] != nil {
			continue
		}
		me := mkTerm(p.Type(), fmt.Sprintf("$%d", i))
		for j, a := range args {
			if basic, ok := p.Type().Underlying().(*types.Basic); ok {
				if basic.Info()&types.IsInteger == 0 {
					continue
				}
				b, k, ok := lin(peel(a))
				if !ok || b == nil || b.K() != me.K() {
					continue
				}
				iv := ival{lo: minI, hi: maxI}
				if e.Facts != nil {
					iv = e.Facts.interval(me)
				}
				if k >= 0 {
					out[rel29{i, j, "up"}] = k > 0 && iv.hi != maxI
				}
				if k <= 0 {
					out[rel29{i, j, "down"}] = k < 0 && iv.lo != minI
				}
				continue
			}
			k := part29(a, me, 0)
			if k < 1 && e.Fn == n.f {
				if v := argOf29(e.Call, j); v != nil {
					if q := partOfParam29(v, p, map[ssa.Value]bool{}); q < far29 && int(q) > k {
						k = int(q)
					}
				}
			}
			if k >= 0 {
				out[rel29{i, j, "part"}] = k > 0
			}
		}
	}
	return out
}

func argOf29(ci ssa.CallInstruction, j int) ssa.Value {
	cc := ci.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	if j < len(args) {
		return args[j]
	}
	return nil
}

// partOfParam29: by how many steps at least the value is reached from the
// parameter, through loops too; -1 if it need not be.
func partOfParam29(v ssa.Value, p *ssa.Parameter, busy map[ssa.Value]bool) int64 {
	if v == ssa.Value(p) {
		return 0
	}
	if busy[v] {
		return far29 // around a loop: no fewer
	}
	busy[v] = true
	defer delete(busy, v)
	up := func(x ssa.Value, n int64) int64 {
		k := partOfParam29(x, p, busy)
		if k < 0 {
			return -1
		}
		return sat29(k + n)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return up(x.X, 0)
		}
	case *ssa.FieldAddr:
		return up(x.X, 1)
	case *ssa.Field:
		return up(x.X, 1)
	case *ssa.IndexAddr:
		return up(x.X, 1)
	case *ssa.ChangeInterface:
		return up(x.X, 0)
	case *ssa.ChangeType:
		return up(x.X, 0)
	case *ssa.MakeInterface:
		return up(x.X, 0)
	case *ssa.TypeAssert:
		return up(x.X, 0)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return up(t.X, 0)
		}
	case *ssa.Call:
		if x.Call.IsInvoke() && partMethods29[x.Call.Method.Name()] {
			return up(x.Call.Value, 1)
		}
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(x.Call.Args) > 0 && (partMethods29[f.Name()] || isGetter29(f)) {
			return up(x.Call.Args[0], 1)
		}
	case *ssa.Phi:
		least := far29
		for _, e := range x.Edges {
			k := partOfParam29(e, p, busy)
			if k < 0 {
				return -1
			}
			if k < least {
				least = k
			}
		}
		return least
	}
	return -1
}

// part29: the value is reached from the argument by that many steps.
func part29(v V, me *Term, d int) int {
	if v == nil || d > 40 {
		return -1
	}
	if i, ok := v.(*Iface); ok {
		return part29(i.X, me, d+1)
	}
	if v.K() == me.K() {
		return 0
	}
	t, ok := v.(*Term)
	if !ok || len(t.Args) == 0 {
		return -1
	}
	step := -1
	switch {
	case t.Op == "*" || t.Op == "conv" || strings.HasPrefix(t.Op, "conv:") || strings.HasPrefix(t.Op, "as:") || t.Op == "&":
		step = 0
	case strings.HasPrefix(t.Op, ".") || t.Op == "[]":
		step = 1
	case strings.HasPrefix(t.Op, "inv:") || strings.HasPrefix(t.Op, "ext:"):
		if partMethods29[opSuffix(t.Op)] {
			step = 1
		}
	}
	if step < 0 {
		return -1
	}
	k := part29(t.Args[0], me, d+1)
	if k < 0 {
		return -1
	}
	return k + step
}

// requirements29: what helpers require has no way back to them. The list of a
// helper is set where the helper is made, or before the program begins, and
// the helper is not put into its own list.
func (c *Ctx) requirements29() {
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isHelper(derefT(fa.X.Type())) {
					continue
				}
				sl, ok := st.Val.Type().Underlying().(*types.Slice)
				if !ok || !isHelper(derefT(sl.Elem())) {
					continue
				}
				made, init := c.fresh29(fa.X, 0), f.Synthetic != "" && f.Name() == "init"
				own := false
				if made {
					own = holds29(st.Val, fa.X, map[ssa.Value]bool{})
				}
				c.Obl("requirements", fmt.Sprintf("%s %s", c.short(f), c.nthStore29(f, st)), in.Pos(), (made || init) && !own, "%s changes what a helper requires that was made elsewhere, or has it require itself: requirements need not come to an end", c.short(f))
			}
		}
	}
	// the fixed ones, as they are before the program begins
	ip := newInterp(c.Program)
	if err := ip.runInits(); err != nil {
		c.Fail("requirements", "init", token.NoPos, "%v", err)
		return
	}
	pkg := c.SSA["generator"]
	if pkg == nil {
		c.Fail("requirements", "package", token.NoPos, "there is no package generator")
		return
	}
	st := ip.newState()
	for _, m := range sortedKeys(pkg.Members) {
		g, ok := pkg.Members[m].(*ssa.Global)
		if !ok || !isHelper(derefT(derefT(g.Type()))) {
			continue
		}
		var round func(v V, on map[*StructV]bool) bool
		round = func(v V, on map[*StructV]bool) bool {
			s, ok := st.pointee(v).(*StructV)
			if !ok {
				return false
			}
			if on[s] {
				return true
			}
			on[s] = true
			defer delete(on, s)
			if l, ok := st.snap(s.field("Requires")).(*SeqV); ok {
				for _, e := range l.E {
					if round(e, on) {
						return true
					}
				}
			}
			return false
		}
		c.Obl("requirements", g.Name(), g.Pos(), !round(st.get(ip.globals[g]), map[*StructV]bool{}), "the helper %s requires itself through others", g.Name())
	}
	c.strings29()
}

func (c *Ctx) nthStore29(f *ssa.Function, st *ssa.Store) string {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isHelper(derefT(fa.X.Type())) {
					n++
				}
				if s == st {
					return fmt.Sprint("store ", n)
				}
			}
		}
	}
	return ""
}

// fresh29: the helper is made by this function.
func (c *Ctx) fresh29(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		return c.freshResult29(x, 0, d)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.freshResult29(call, x.Index, d)
		}
	case *ssa.Parameter:
		// a step taken out of the function that makes it
		f := x.Parent()
		cs := c.callersOf(f)
		if f.Parent() != nil || c.isBaseline(f) || len(cs) == 0 {
			return false
		}
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, ci := range cs {
				if v := argOf29(ci, i); v == nil || !c.fresh29(v, d+1) {
					return false
				}
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.fresh29(e, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.UnOp:
		// a variable of the function that holds it
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			ok := false
			for _, r := range *a.Referrers() {
				if s, is := r.(*ssa.Store); is && s.Addr == ssa.Value(a) {
					if !c.fresh29(s.Val, d+1) {
						return false
					}
					ok = true
				}
			}
			return ok
		}
	}
	return false
}

func (c *Ctx) freshResult29(call *ssa.Call, k, d int) bool {
	f := call.Call.StaticCallee()
	if f == nil || f.Blocks == nil || f.Parent() != nil || c.isBaseline(f) {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(r.Results) {
			v := r.Results[k]
			if kc, ok := v.(*ssa.Const); ok && kc.IsNil() {
				continue
			}
			if p, ok := v.(*ssa.Parameter); ok {
				for i, q := range f.Params {
					if q == p && (i >= len(call.Call.Args) || !c.fresh29(call.Call.Args[i], d+1)) {
						return false
					}
				}
			} else if !c.fresh29(v, d+1) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// holds29: the list may hold the helper.
func holds29(v, h ssa.Value, seen map[ssa.Value]bool) bool {
	if v == h {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if holds29(e, h, seen) {
				return true
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if holds29(a, h, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return holds29(x.X, h, seen)
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return holds29(x.X, h, seen)
		}
		for _, r := range *a.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, q := range *ia.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(ia) && holds29(s.Val, h, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// strings29: what prints itself through its own String method never ends.
func (c *Ctx) strings29() {
	for _, f := range c.Funcs {
		if f.Signature.Recv() == nil || f.Blocks == nil || f.Name() != "String" && f.Name() != "Error" || f.Signature.Params().Len() != 0 || f.Synthetic != "" {
			continue
		}
		self := false
		pos := f.Pos()
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !types.Identical(derefT(mi.X.Type()), derefT(f.Params[0].Type())) {
					continue
				}
				if receiver29(mi.X, f.Params[0], 0) && c.Prog.MethodSets.MethodSet(mi.X.Type()).Lookup(f.Pkg.Pkg, f.Name()) != nil {
					self, pos = true, mi.Pos()
				}
			}
		}
		c.Obl("recursion", c.short(f)+" prints itself", pos, !self, "%s formats its own receiver, which calls it again", c.short(f))
	}
}

func receiver29(v ssa.Value, recv *ssa.Parameter, d int) bool {
	if v == ssa.Value(recv) {
		return true
	}
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && receiver29(x.X, recv, d+1)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) && receiver29(s.Val, recv, d+1) {
				return true
			}
		}
	}
	return false
}
