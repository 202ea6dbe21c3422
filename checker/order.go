package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Iteration-order analysis. Go randomises the order of map iteration, so a
// loop over a map must either commute (every iteration writes only its own
// locations, or updates others in a way that commutes) or feed a collection
// that is put into a total order before anything else looks at it.

type mapLoop struct {
	fn   *ssa.Function
	rng  *ssa.Range
	next *ssa.Next
	body map[*ssa.BasicBlock]bool
	head *ssa.BasicBlock
}

func (p *Program) mapLoops() []*mapLoop {
	var out []*mapLoop
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				nx, ok := in.(*ssa.Next)
				if !ok || nx.IsString {
					continue
				}
				r, ok := nx.Iter.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				out = append(out, &mapLoop{fn: fn, rng: r, next: nx, head: b, body: naturalLoop(b)})
			}
		}
	}
	return out
}

// naturalLoop gives the blocks of the loop with this header.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			walk(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			walk(p)
		}
	}
	return in
}

type orderCheck struct {
	c  *Ctx
	e  *Effects
	ml *mapLoop
	// problems found, and collections that must be sorted later
	probs []orderProb
	acc   []accum
}

type orderProb struct {
	pos token.Pos
	msg string
}

// accum is a collection filled in iteration order.
type accum struct {
	field string    // "Translator.defines", or
	cell  ssa.Value // a local variable cell, or
	phi   ssa.Value // an SSA value
	pos   token.Pos
	keyed map[string]bool // element fields set from the range key
}

func (oc *orderCheck) bad(pos token.Pos, f string, a ...any) {
	oc.probs = append(oc.probs, orderProb{pos, fmt.Sprintf(f, a...)})
}

func (oc *orderCheck) iterFresh(r Root) bool {
	if r.Kind != "fresh" {
		return false
	}
	in, ok := r.At.(ssa.Instruction)
	return ok && in.Parent() == oc.ml.fn && oc.ml.body[in.Block()]
}

// fromRange: derived only from the range key (want 1), or key or value (want 2).
func (oc *orderCheck) fromKey(v ssa.Value) bool {
	for d := 0; d < 8; d++ {
		switch x := v.(type) {
		case *ssa.Extract:
			if x.Tuple == oc.ml.next {
				return x.Index == 1
			}
			return false
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			// a cell assigned once from the key in this iteration
			a, ok := x.X.(*ssa.Alloc)
			if !ok || !oc.ml.body[a.Block()] {
				return false
			}
			var sv ssa.Value
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					if sv != nil {
						return false
					}
					sv = st.Val
				}
			}
			if sv == nil {
				return false
			}
			v = sv
		default:
			return false
		}
	}
	return false
}

func (oc *orderCheck) derivedFromIter(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if v == nil || d > 30 || seen[v] {
		return false
	}
	seen[v] = true
	if v == oc.ml.next {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if !oc.ml.body[in.Block()] || in.Parent() != oc.ml.fn {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for _, x := range ph.Edges {
			if oc.derivedFromIter(x, d+1, seen) {
				return true
			}
		}
		return false
	}
	if a, ok := v.(*ssa.Alloc); ok {
		for _, sv := range oc.e.storedInto(a) {
			if oc.derivedFromIter(sv, d+1, seen) {
				return true
			}
		}
		return false
	}
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && oc.derivedFromIter(*op, d+1, seen) {
			return true
		}
	}
	return false
}

func (oc *orderCheck) run() {
	ml := oc.ml
	// header phis: variables carried from one iteration to the next
	for _, in := range ml.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		oc.headerPhi(ph)
	}
	earlyExit := false
	for b := range ml.body {
		for _, s := range b.Succs {
			if !ml.body[s] && b != ml.head {
				earlyExit = true
			}
		}
	}
	_ = earlyExit
	for b := range ml.body {
		for _, in := range b.Instrs {
			oc.instr(in)
		}
	}
	// leaving the loop early, having seen only some of the entries
	for b := range ml.body {
		if b == ml.head {
			continue
		}
		for _, s := range b.Succs {
			if ml.body[s] {
				continue
			}
			oc.exit(b, s)
		}
		if len(b.Succs) == 0 {
			oc.returnIn(b)
		}
	}
}

// exit judges an edge leaving the loop from inside the body: blocks reachable
// only from inside that return, or a break.
func (oc *orderCheck) exit(from, to *ssa.BasicBlock) {
	// values chosen by the iteration that are used outside
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == from && oc.derivedFromIter(ph.Edges[i], 0, map[ssa.Value]bool{}) && !isErrorType(ph.Type()) {
				oc.bad(ph.Pos(), "the loop stops at the first entry found and keeps a value of that entry (%s)", ph.Comment)
			}
		}
	}
	// blocks only reached from the body
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || oc.ml.body[b] {
			return
		}
		for _, p := range b.Preds {
			if !oc.ml.body[p] && !seen[p] {
				return
			}
			if p == oc.ml.head {
				return
			}
		}
		seen[b] = true
		for _, in := range b.Instrs {
			oc.instrAfterExit(in)
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(to)
}

func (oc *orderCheck) returnIn(b *ssa.BasicBlock) {
	if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		oc.ret(r)
	}
}

func (oc *orderCheck) instrAfterExit(in ssa.Instruction) {
	if r, ok := in.(*ssa.Return); ok {
		oc.ret(r)
		return
	}
	// a value of the entry at which the loop stopped, used outside
	for _, op := range in.Operands(nil) {
		if op == nil || *op == nil {
			continue
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			n := calleeName(c.Common())
			if strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "errors.") {
				continue
			}
		}
	}
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (oc *orderCheck) ret(r *ssa.Return) {
	for _, v := range r.Results {
		if isErrorType(v.Type()) {
			continue
		}
		if _, ok := v.(*ssa.Const); ok {
			continue
		}
		d := map[ssa.Value]bool{}
		if oc.derivedAny(v, 0, d) {
			oc.bad(r.Pos(), "returns a value of whichever entry the iteration reaches first")
		}
	}
}

// derivedAny is derivedFromIter for values computed after leaving the body.
func (oc *orderCheck) derivedAny(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if v == nil || d > 20 || seen[v] {
		return false
	}
	if oc.derivedFromIter(v, 0, map[ssa.Value]bool{}) {
		return true
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && oc.derivedAny(*op, d+1, seen) {
			return true
		}
	}
	return false
}

func (oc *orderCheck) headerPhi(ph *ssa.Phi) {
	// what arrives over the back edges
	var in []ssa.Value
	for i, p := range oc.ml.head.Preds {
		if oc.ml.body[p] {
			in = append(in, ph.Edges[i])
		}
	}
	live := false
	for _, r := range *ph.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			live = true
		}
	}
	if !live {
		return
	}
	kind := "same"
	for _, v := range in {
		k := oc.carried(v, ph, map[ssa.Value]bool{})
		if kind == "same" || k == "other" {
			kind = k
		} else if k != "same" && k != kind {
			kind = "other"
		}
	}
	switch kind {
	case "same", "count", "const":
		// invariants, counters, flags
		if kind == "const" {
			oc.flagPhi(ph, in)
		}
	case "append":
		oc.acc = append(oc.acc, accum{phi: ph, pos: ph.Pos(), keyed: oc.keyedFields(ph)})
	default:
		oc.bad(ph.Pos(), "the variable %q carries a value from one map iteration to the next", ph.Comment)
	}
}

// flagPhi: a flag set to one constant only.
func (oc *orderCheck) flagPhi(ph *ssa.Phi, in []ssa.Value) {
	vals := map[string]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		switch x := v.(type) {
		case *ssa.Const:
			vals[x.String()] = true
		case *ssa.Phi:
			if x != ph && d < 6 {
				for _, e := range x.Edges {
					walk(e, d+1)
				}
			}
		}
	}
	for _, v := range in {
		walk(v, 0)
	}
	if len(vals) > 1 {
		oc.bad(ph.Pos(), "the variable %q is set to different constants by different map iterations", ph.Comment)
	}
}

func (oc *orderCheck) carried(v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) string {
	if v == ph || seen[v] {
		return "same"
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return "const"
	case *ssa.Phi:
		k := "same"
		for _, e := range x.Edges {
			q := oc.carried(e, ph, seen)
			if q == "same" {
				continue
			}
			if k != "same" && k != q {
				return "other"
			}
			k = q
		}
		return k
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			k := oc.carried(x.Call.Args[0], ph, seen)
			if k == "same" || k == "append" {
				return "append"
			}
		}
	case *ssa.BinOp:
		if isIntType(x.Type()) && (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.OR) {
			k := oc.carried(x.X, ph, seen)
			if k == "same" || k == "count" {
				return "count"
			}
		}
	}
	if in, ok := v.(ssa.Instruction); !ok || !oc.ml.body[in.Block()] {
		return "const" // loop invariant
	}
	return "other"
}

func (oc *orderCheck) instr(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		outer := false
		for r := range oc.e.pointsTo(in.Addr) {
			if !oc.iterFresh(r) {
				outer = true
			}
		}
		if !outer {
			return
		}
		// element of a collection indexed by a fresh/append temp (varargs) is iteration fresh
		switch storeClass(in) {
		case "append":
			oc.accumAt(in.Addr, in.Val, instrPos(in))
		case "count", "const":
		default:
			if _, ok := in.Addr.(*ssa.Alloc); ok && !oc.liveAcross(in.Addr) {
				return
			}
			oc.bad(instrPos(in), "stores a per-entry value into %s, which outlives the iteration", locName(in.Addr))
		}
	case *ssa.MapUpdate:
		outer := false
		for r := range oc.e.pointsTo(in.Map) {
			if !oc.iterFresh(r) {
				outer = true
			}
		}
		if !outer {
			return
		}
		if oc.fromKey(in.Key) && !oc.readsOther(in.Map, in.Key) {
			return
		}
		if isConstLike(in.Value) {
			if !oc.readsOther(in.Map, nil) {
				return
			}
			oc.bad(instrPos(in), "marks entries in %s while also reading it, so which entry counts as first depends on map order", locName(in.Map))
			return
		}
		oc.bad(instrPos(in), "writes %s under a key that is not the iteration's own, so the outcome depends on map order", locName(in.Map))
	case *ssa.Send:
		oc.bad(instrPos(in), "sends on a channel in map order")
	case *ssa.Go:
		oc.bad(instrPos(in), "starts goroutines in map order")
	case *ssa.Return:
		oc.ret(in)
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		oc.callIn(c)
	}
}

func (oc *orderCheck) liveAcross(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && !oc.ml.body[u.Block()] {
			return true
		}
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
		if u, ok := r.(*ssa.UnOp); ok && oc.ml.body[u.Block()] {
			// loaded in the loop: fine when a store dominates it in the loop
			dom := false
			for _, q := range *a.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == a && oc.ml.body[st.Block()] && instrDom(st, u) {
					dom = true
				}
			}
			if !dom {
				return true
			}
		}
		if fa, ok := r.(*ssa.FieldAddr); ok {
			_ = fa
		}
	}
	return false
}

func instrDom(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func locName(v ssa.Value) string {
	if f := lastField(v); f != "" {
		return f
	}
	for d := 0; d < 8; d++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return "variable " + x.Comment
		case *ssa.Global:
			return "package variable " + x.Name()
		case *ssa.FreeVar:
			return "captured variable " + x.Name()
		case *ssa.Parameter:
			return "parameter " + x.Name()
		case *ssa.MakeMap:
			return "a map"
		case *ssa.UnOp:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		default:
			return "memory"
		}
	}
	return "memory"
}

// readsOther: the loop reads the map under some key other than k.
func (oc *orderCheck) readsOther(m, k ssa.Value) bool {
	for b := range oc.ml.body {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Lookup); ok && sameVal(l.X, m) {
				if k != nil && (sameVal(l.Index, k) || oc.fromKey(l.Index)) {
					continue
				}
				return true
			}
		}
	}
	return false
}

func (oc *orderCheck) accumAt(addr, val ssa.Value, pos token.Pos) {
	if f := lastField(addr); f != "" {
		if _, ok := addr.(*ssa.FieldAddr); ok {
			oc.acc = append(oc.acc, accum{field: f, pos: pos, keyed: oc.keyedFields(val)})
			return
		}
	}
	switch addr.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		oc.acc = append(oc.acc, accum{cell: addr, pos: pos, keyed: oc.keyedFields(val)})
		return
	}
	oc.bad(pos, "appends to %s in map order", locName(addr))
}

// keyedFields finds the fields of appended composite elements that hold the range key.
func (oc *orderCheck) keyedFields(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	for b := range oc.ml.body {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && oc.fromKey(st.Val) {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					out[fieldName(derefT(fa.X.Type()), fa.Field)] = true
				}
				if _, ok := st.Addr.(*ssa.IndexAddr); ok {
					out[""] = true // the element is the key itself
				}
			}
		}
	}
	return out
}

var memoFields = map[string]bool{}

func (oc *orderCheck) callIn(c ssa.CallInstruction) {
	cc := c.Common()
	name := calleeName(cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if !oc.fromKey(cc.Args[1]) {
				oc.bad(instrPos(c), "deletes entries other than the current one in map order")
			}
		case "append", "len", "cap", "copy", "print", "println", "panic", "ssa:wrapnilchk":
		}
		return
	}
	if strings.HasPrefix(name, "log.") || name == "fmt.Printf" || name == "fmt.Println" || name == "fmt.Print" {
		return // diagnostics, not generated text
	}
	seen := map[string]bool{}
	for _, ef := range oc.e.siteEffects(c) {
		if oc.iterFresh(ef.Root) {
			continue
		}
		if ef.Root.Kind == "fresh" && ef.Root.At == cValue(c) {
			continue
		}
		what := ef.What + " " + ef.Field
		if seen[what+ef.Class] {
			continue
		}
		seen[what+ef.Class] = true
		switch {
		case ef.What == "lock" || memoField(ef.Field):
			continue
		case ef.What == "file":
			// one file per entry
			keyed := false
			for _, a := range cc.Args {
				if oc.derivedFromIter(a, 0, map[ssa.Value]bool{}) {
					keyed = true
				}
			}
			if !keyed {
				oc.bad(instrPos(c), "writes one file from several map iterations (%s)", name)
			}
			continue
		case ef.Class == "append" && ef.Field != "":
			oc.acc = append(oc.acc, accum{field: ef.Field, pos: ef.Pos})
			continue
		case ef.Class == "count" || ef.Class == "const":
			if ef.What != "map" {
				continue
			}
		case strings.HasPrefix(ef.What, "write") && ef.Root.Kind == "fresh" && oc.iterFresh(ef.Root):
			continue
		}
		if ef.What == "map" && ef.Class == "const" {
			// set insertion through a helper; the helper must not also read it
			if !readsMapIn(ef.Fn, ef.Instr) {
				continue
			}
		}
		oc.bad(instrPos(c), "calls %s, which does %q to %s shared between iterations (at %s)", clip(name, 80), ef.What, strings.TrimSpace(ef.Field+" "+ef.Root.String()), oc.c.pos(ef.Pos))
	}
}

func cValue(c ssa.CallInstruction) ssa.Value {
	v, _ := c.(ssa.Value)
	return v
}

func readsMapIn(fn *ssa.Function, in ssa.Instruction) bool {
	mu, ok := in.(*ssa.MapUpdate)
	if !ok {
		return true
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if l, ok := i.(*ssa.Lookup); ok && sameVal(l.X, mu.Map) {
				return true
			}
		}
	}
	return false
}

// memoField: caches, whose entries are a function of their keys (that is
// decided by the memoisation property).
func memoField(f string) bool {
	t, _, _ := strings.Cut(f, ".")
	return strings.HasSuffix(t, "Cache")
}

// ---- "sorted before any other use" ----------------------------------------

// sortedArg returns the value a call puts in order, and the comparator, if the
// call sorts.
func (p *Program) sortedArg(c ssa.CallInstruction) (arg ssa.Value, cmp *ssa.Function, kind string) {
	cc := c.Common()
	n := calleeName(cc)
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s":
		return stripIface(cc.Args[0]), nil, "natural"
	case "sort.Slice", "sort.SliceStable":
		fs := resolveFuncValue(cc.Args[1], 0)
		if len(fs) == 1 {
			return stripIface(cc.Args[0]), fs[0], "slice"
		}
		return stripIface(cc.Args[0]), nil, "unknown"
	case "sort.Sort", "sort.Stable":
		a := cc.Args[0]
		if mi, ok := a.(*ssa.MakeInterface); ok {
			t := mi.X.Type()
			if nm := namedOf(t); nm != nil && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "sort" {
				return stripIface(a), nil, "natural" // sort.StringSlice etc.
			}
			ms := p.Prog.MethodSets.MethodSet(t)
			if sel := ms.Lookup(nil, "Less"); sel != nil {
				return stripIface(a), p.Prog.MethodValue(sel), "less"
			}
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "Less" {
					return stripIface(a), p.Prog.MethodValue(ms.At(i)), "less"
				}
			}
		}
		return stripIface(a), nil, "unknown"
	}
	if strings.HasPrefix(n, "slices.Sort") {
		return stripIface(cc.Args[0]), nil, "unknown"
	}
	return nil, nil, ""
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// sortHelper: the callee sorts its parameter n as its first action on it.
func (p *Program) sortHelper(f *ssa.Function, n int) (cmp *ssa.Function, kind string, ok bool) {
	if f == nil || n >= len(f.Params) || f.Blocks == nil {
		return nil, "", false
	}
	for _, in := range f.Blocks[0].Instrs {
		if c, isC := in.(*ssa.Call); isC {
			if a, cmp, k := p.sortedArg(c); a != nil {
				if a == f.Params[n] {
					return cmp, k, true
				}
				if u, isU := a.(*ssa.UnOp); isU {
					if al, isA := u.X.(*ssa.Alloc); isA {
						for _, r := range *al.Referrers() {
							if st, isS := r.(*ssa.Store); isS && st.Addr == al && st.Val == f.Params[n] {
								return cmp, k, true
							}
						}
					}
				}
			}
		}
	}
	return nil, "", false
}

// requireSorted decides that the collection is sorted, by a total order on its
// elements, on every path from the given point before it is used otherwise.
func (oc *orderCheck) requireSorted(a accum) {
	var starts []*ssa.BasicBlock
	for b := range oc.ml.body {
		for _, s := range b.Succs {
			if !oc.ml.body[s] {
				starts = append(starts, s)
			}
		}
	}
	sort.Slice(starts, func(i, j int) bool { return starts[i].Index < starts[j].Index })
	w := &sortWalk{oc: oc, a: a, seen: map[string]bool{}}
	vals := map[ssa.Value]bool{}
	if a.phi != nil {
		vals[a.phi] = true
	}
	for _, s := range starts {
		w.walk(oc.ml.fn, s, 0, vals, a.cell, a.field, 0)
	}
}

type sortWalk struct {
	oc   *orderCheck
	a    accum
	seen map[string]bool
}

func (w *sortWalk) walk(fn *ssa.Function, b *ssa.BasicBlock, from int, vals map[ssa.Value]bool, cell ssa.Value, field string, depth int) {
	key := fmt.Sprintf("%p/%d/%d/%s/%d", b, from, depth, field, len(vals))
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	if depth > 5 {
		w.oc.bad(w.a.pos, "the collection filled in map order travels too far to follow")
		return
	}
	p := w.oc.c.Program
	isLoc := func(v ssa.Value) bool {
		v = stripIface(v)
		if vals[v] {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if cell != nil && u.X == cell {
				return true
			}
			if field != "" && lastField(u.X) == field {
				if _, ok := u.X.(*ssa.FieldAddr); ok {
					return true
				}
			}
		}
		return false
	}
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Phi:
			for _, e := range x.Edges {
				if vals[e] {
					vals[x] = true
				}
			}
			continue
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeClosure, *ssa.Jump, *ssa.If, *ssa.Alloc:
			continue
		case *ssa.Store:
			if isLoc(x.Val) {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					field = lastField(fa)
					continue
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					cell = al
					continue
				}
				w.oc.bad(instrPos(in), "a collection filled in map order is stored in %s unsorted", locName(x.Addr))
				return
			}
			continue
		case *ssa.Return:
			for ri, rv := range x.Results {
				if isLoc(rv) {
					w.callers(fn, ri, "", depth)
				}
			}
			if field != "" {
				w.callers(fn, -1, field, depth)
			}
			return
		case ssa.CallInstruction:
			cc := x.Common()
			if arg, cmp, kind := p.sortedArg(x); arg != nil && isLoc(arg) {
				w.total(x, cmp, kind)
				return
			}
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap":
					continue
				case "append":
					if isLoc(cc.Args[0]) {
						if v, ok := in.(ssa.Value); ok {
							vals[v] = true
						}
						continue
					}
				}
			}
			used := false
			for ai, arg := range cc.Args {
				if isLoc(arg) {
					if f := cc.StaticCallee(); f != nil {
						if cmp, kind, ok := p.sortHelper(f, ai); ok {
							w.total(x, cmp, kind)
							return
						}
					}
					used = true
				}
			}
			if used {
				w.oc.bad(instrPos(in), "a collection filled in map order is passed to %s before being sorted", clip(calleeName(cc), 60))
				return
			}
			if field != "" {
				done := false
				for _, g := range p.callees(x) {
					if sorted, reads := w.fieldIn(g, field); sorted {
						done = true
					} else if reads {
						w.oc.bad(instrPos(in), "%s reads %s, filled in map order, before it is sorted", p.short(g), field)
						return
					}
				}
				if done {
					return
				}
			}
			continue
		}
		for _, op := range in.Operands(nil) {
			if op != nil && *op != nil && isLoc(*op) {
				w.oc.bad(instrPos(in), "a collection filled in map order is used before being sorted")
				return
			}
		}
	}
	for _, s := range b.Succs {
		if w.oc.ml.fn == fn && w.oc.ml.body[s] {
			continue
		}
		nv := map[ssa.Value]bool{}
		for v := range vals {
			nv[v] = true
		}
		w.walk(fn, s, 0, nv, cell, field, depth)
	}
}

// fieldIn: does g sort the field first thing, or (transitively) read it?
func (w *sortWalk) fieldIn(g *ssa.Function, field string) (sorted, reads bool) {
	p := w.oc.c.Program
	seen := map[*ssa.Function]bool{}
	var rd func(f *ssa.Function) bool
	rd = func(f *ssa.Function) bool {
		if f == nil || seen[f] || f.Blocks == nil {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && lastField(fa) == field {
						return true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range p.callees(c) {
						if p.inMod[h] && rd(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if g.Blocks != nil {
		for _, in := range g.Blocks[0].Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if arg, cmp, kind := p.sortedArg(c); arg != nil {
					if u, ok := arg.(*ssa.UnOp); ok && lastField(u.X) == field {
						w.total(c, cmp, kind)
						return true, true
					}
				}
			}
		}
	}
	return false, rd(g)
}

func (w *sortWalk) callers(fn *ssa.Function, result int, field string, depth int) {
	p := w.oc.c.Program
	cs := p.callersOf(fn)
	if len(cs) == 0 {
		w.oc.bad(fn.Pos(), "%s hands out a collection in map order", p.short(fn))
		return
	}
	for _, c := range cs {
		vals := map[ssa.Value]bool{}
		if result >= 0 {
			v := cValue(c)
			if v == nil {
				continue
			}
			if _, ok := v.Type().(*types.Tuple); ok {
				for _, r := range *v.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == result {
						vals[ex] = true
					}
				}
			} else {
				vals[v] = true
			}
		}
		idx := 0
		for i, in := range c.Block().Instrs {
			if in == c {
				idx = i + 1
			}
		}
		w.walk(c.Parent(), c.Block(), idx, vals, nil, field, depth+1)
	}
}

// total decides that a comparator orders any two different elements.
func (w *sortWalk) total(site ssa.CallInstruction, cmp *ssa.Function, kind string) {
	c := w.oc.c
	pos := instrPos(site)
	if kind == "natural" {
		c.Obl("total-order", c.short(site.Parent())+" natural", pos, true, "")
		return
	}
	if kind == "unknown" || cmp == nil {
		w.oc.bad(pos, "the comparator that orders a collection filled in map order cannot be resolved")
		return
	}
	if cmp.Synthetic != "" {
		if u := unwrapWrapper(cmp); u != nil {
			cmp = u
		}
	}
	c.Fn(cmp)
	keys, err := analyseLess(c.Program, cmp)
	if err != "" {
		c.Fail("total-order", c.short(cmp), cmp.Pos(), "%s", err)
		return
	}
	// the keys must identify an element
	ident := false
	hasF := map[string]bool{}
	for k := range keys {
		f := k
		if i := strings.LastIndex(k, "."); i >= 0 {
			f = k[i+1:]
		} else {
			f = ""
		}
		hasF[f] = true
		if w.a.keyed != nil && w.a.keyed[f] {
			ident = true
		}
		if f == "" {
			ident = true
		}
	}
	if hasF["Filename"] && hasF["Offset"] && hasF["Name"] {
		ident = true
	}
	c.Obl("total-order", c.short(cmp), cmp.Pos(), ident,
		"the comparator only looks at %v: two different elements can compare equal, and then keep their map order", sortedKeys(keys))
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- comparators ----------------------------------------------------------

// analyseLess decides that a comparator less(i, j) is a strict total order on
// the tuple of keys it looks at, by evaluating its control flow for every
// combination of the keys' order (<, =, >), and returns those keys.
func analyseLess(p *Program, f *ssa.Function) (map[string]bool, string) {
	le := &lessEval{p: p, keys: map[string]bool{}}
	// find keys first
	rel := map[string]int{}
	for round := 0; round < 12; round++ {
		n := len(le.keys)
		le.enumerate(rel, func() {
			le.rel = rel
			le.run(f)
		})
		if le.err != "" {
			return nil, le.err
		}
		if len(le.keys) == n {
			break
		}
		if len(le.keys) > 7 {
			return nil, "comparator looks at too many keys"
		}
	}
	if len(le.keys) == 0 {
		return nil, "comparator does not compare the two elements"
	}
	bad := ""
	le.enumerate(rel, func() {
		le.rel = rel
		a := le.run(f)
		inv := map[string]int{}
		all0 := true
		for k, v := range rel {
			inv[k] = -v
			if v != 0 {
				all0 = false
			}
		}
		le.rel = inv
		b := le.run(f)
		if all0 {
			if a || b {
				bad = "comparator holds for equal elements"
			}
		} else if a == b {
			bad = fmt.Sprintf("comparator does not order elements whose keys compare as %v", rel)
		}
	})
	return le.keys, bad
}

type lessEval struct {
	p    *Program
	keys map[string]bool
	rel  map[string]int
	err  string
}

func (le *lessEval) enumerate(rel map[string]int, f func()) {
	ks := sortedKeys(le.keys)
	var rec func(i int)
	rec = func(i int) {
		if le.err != "" {
			return
		}
		if i == len(ks) {
			f()
			return
		}
		for v := -1; v <= 1; v++ {
			rel[ks[i]] = v
			rec(i + 1)
		}
	}
	rec(0)
}

type lval struct {
	expr string // canonical expression with #i / #j
	b    *bool
	n    *int64
	cmp  *int // result of a three-way comparison
}

func (le *lessEval) run(f *ssa.Function) bool {
	n := len(f.Params)
	if n < 2 {
		le.err = "comparator without two elements"
		return false
	}
	env := map[ssa.Value]lval{}
	for i, pa := range f.Params {
		switch {
		case i == n-2:
			env[pa] = lval{expr: "#i"}
		case i == n-1:
			env[pa] = lval{expr: "#j"}
		default:
			env[pa] = lval{expr: "s"}
		}
	}
	v := le.exec(f, env, 0)
	if v.b == nil {
		if le.err == "" {
			le.err = "comparator result cannot be decided"
		}
		return false
	}
	return *v.b
}

func (le *lessEval) exec(f *ssa.Function, env map[ssa.Value]lval, depth int) lval {
	if depth > 4 || f.Blocks == nil {
		le.err = "comparator too deep"
		return lval{}
	}
	b := f.Blocks[0]
	var prev *ssa.BasicBlock
	for steps := 0; steps < 500; steps++ {
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == prev {
						env[x] = le.val(env, x.Edges[i])
					}
				}
			case *ssa.If:
				c := le.val(env, x.Cond)
				if c.b == nil {
					le.err = "comparator branches on something other than the two elements' keys"
					return lval{}
				}
				if *c.b {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				return le.val(env, x.Results[0])
			case *ssa.Store:
				// spilled parameters
				env[x.Addr] = le.val(env, x.Val)
			case ssa.Value:
				env[x] = le.inst(env, x, depth)
			}
			if le.err != "" {
				return lval{}
			}
		}
		prev, b = b, next
		if b == nil {
			le.err = "comparator does not return"
			return lval{}
		}
	}
	le.err = "comparator loops"
	return lval{}
}

func (le *lessEval) val(env map[ssa.Value]lval, v ssa.Value) lval {
	if l, ok := env[v]; ok {
		return l
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			switch v.Value.Kind() {
			case constant.Bool:
				b := constant.BoolVal(v.Value)
				return lval{b: &b}
			case constant.Int:
				n, _ := constant.Int64Val(v.Value)
				return lval{n: &n, expr: v.Value.ExactString()}
			}
		}
		return lval{expr: v.String()}
	case *ssa.FreeVar:
		return lval{expr: "s"}
	}
	return lval{}
}

func (le *lessEval) inst(env map[ssa.Value]lval, v ssa.Value, depth int) lval {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return lval{expr: le.val(env, x.X).expr + "." + fieldName(derefT(x.X.Type()), x.Field)}
	case *ssa.Field:
		return lval{expr: le.val(env, x.X).expr + "." + fieldName(x.X.Type(), x.Field)}
	case *ssa.IndexAddr:
		return lval{expr: le.val(env, x.X).expr + "[" + le.val(env, x.Index).expr + "]"}
	case *ssa.Index:
		return lval{expr: le.val(env, x.X).expr + "[" + le.val(env, x.Index).expr + "]"}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return le.val(env, x.X)
		case token.NOT:
			l := le.val(env, x.X)
			if l.b != nil {
				r := !*l.b
				return lval{b: &r}
			}
		}
		return lval{}
	case *ssa.ChangeType:
		return le.val(env, x.X)
	case *ssa.Convert:
		return le.val(env, x.X)
	case *ssa.Alloc:
		return lval{expr: "s"}
	case *ssa.BinOp:
		return le.binop(env, x)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			if n := g.String(); n == "strings.Compare" || n == "cmp.Compare" {
				r, ok := le.relOf(le.val(env, x.Call.Args[0]).expr, le.val(env, x.Call.Args[1]).expr)
				if ok {
					return lval{cmp: &r}
				}
				return lval{}
			}
			if le.p.inMod[g] && g.Blocks != nil {
				e2 := map[ssa.Value]lval{}
				for i, pa := range g.Params {
					e2[pa] = le.val(env, x.Call.Args[i])
				}
				return le.exec(g, e2, depth+1)
			}
			ex := g.String() + "("
			for i, a := range x.Call.Args {
				if i > 0 {
					ex += ","
				}
				ex += le.val(env, a).expr
			}
			return lval{expr: ex + ")"}
		}
	}
	return lval{}
}

// relOf: how key(i) and key(j) compare; registers the key.
func (le *lessEval) relOf(a, b string) (int, bool) {
	ai, aj := strings.Contains(a, "#i"), strings.Contains(a, "#j")
	bi, bj := strings.Contains(b, "#i"), strings.Contains(b, "#j")
	switch {
	case ai && !aj && bj && !bi:
		k := strings.ReplaceAll(a, "#i", "@")
		if k != strings.ReplaceAll(b, "#j", "@") {
			return 0, false
		}
		le.keys[k] = true
		return le.rel[k], true
	case aj && !ai && bi && !bj:
		k := strings.ReplaceAll(a, "#j", "@")
		if k != strings.ReplaceAll(b, "#i", "@") {
			return 0, false
		}
		le.keys[k] = true
		return -le.rel[k], true
	}
	return 0, false
}

func (le *lessEval) binop(env map[ssa.Value]lval, x *ssa.BinOp) lval {
	a, b := le.val(env, x.X), le.val(env, x.Y)
	var r int
	ok := false
	switch {
	case a.cmp != nil && b.n != nil:
		r, ok = cmpInt(int64(*a.cmp), *b.n), true
	case a.n != nil && b.n != nil:
		r, ok = cmpInt(*a.n, *b.n), true
	case a.b != nil && b.b != nil && (x.Op == token.EQL || x.Op == token.NEQ):
		res := (*a.b == *b.b) == (x.Op == token.EQL)
		return lval{b: &res}
	case a.expr != "" && b.expr != "":
		r, ok = le.relOf(a.expr, b.expr)
	}
	if !ok {
		return lval{}
	}
	var res bool
	switch x.Op {
	case token.LSS:
		res = r < 0
	case token.LEQ:
		res = r <= 0
	case token.GTR:
		res = r > 0
	case token.GEQ:
		res = r >= 0
	case token.EQL:
		res = r == 0
	case token.NEQ:
		res = r != 0
	default:
		return lval{}
	}
	return lval{b: &res}
}

func cmpInt(a, b int64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}
