package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: what a goroutine started by the module touches and what the code that
// goes on meanwhile touches do not conflict.

func init() { checks["C27"] = c27 }

type access struct {
	Fn    *ssa.Function
	In    ssa.Instruction
	Key   string
	Write bool
	Phase string // the signal this access comes after (goroutine side)
}

type raceScan struct {
	c    *Ctx
	eff  *Effects
	goIn *ssa.Go
	root *ssa.Function // the goroutine's function
	// what the goroutine does to a channel variable before it ends
	known   map[string]bool // conditions known to hold where the goroutine is started
	closes  map[string]bool // channels the goroutine closes
	signal  map[string]bool // channels the goroutine waits on
	senders map[*ssa.Function]bool
	joins   int
	bufs    map[string]bool // fields the goroutine's writers come from
	bufKeys map[string]string
	args    map[argPos]bool
}

func c27(c *Ctx) {
	c.explain = "Every place where the module starts a goroutine: the memory the goroutine may touch (fields, package-level variables, captured variables, elements, library objects) against the memory touched by everything that may run meanwhile, up to where its end is waited for."
	c.Rule("share: nothing the goroutine touches is written by the code that runs meanwhile, and nothing it writes is touched by it, unless a lock guards it (C11) or a channel orders it")
	c.Rule("writer: nothing that runs meanwhile takes one of the buffers the goroutine writes to")
	c.Rule("joined: the end of the goroutine is waited for")
	c.Assume("objects are told apart by type and field, not by identity; two goroutines of one go statement do not overlap")
	n := 0
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				n++
				for _, root := range c.callees(g) {
					rs := &raceScan{c: c, eff: c.effects(), goIn: g, root: root}
					rs.run()
				}
			}
		}
	}
	c.Stat("go statements", n)
	c.Floor("share", 15)
	c.Floor("writer", 1)
	c.Floor("joined", 1)
}

func (rs *raceScan) run() {
	c := rs.c
	con := c.short(rs.goIn.Parent()) + " goroutine"
	rs.known, rs.closes, rs.signal = map[string]bool{}, map[string]bool{}, map[string]bool{}
	rs.senders = map[*ssa.Function]bool{}
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Send, *ssa.Go:
					rs.senders[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.Funcs {
			if rs.senders[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						for _, g := range c.callees(ci) {
							if rs.senders[g] && !rs.senders[f] {
								rs.senders[f] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	// the goroutine's side
	body := c.reachableFrom([]*ssa.Function{rs.root}, nil)
	var gs []access
	ends := map[string]bool{} // wait groups it reports to
	for f := range body {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					switch calleeName(cc) {
					case "(*sync.WaitGroup).Done":
						ends[rs.prov(cc.Args[0], 0)] = true
					case "builtin close":
						rs.closes[rs.prov(cc.Args[0], 0)] = true
					}
					if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						rs.closes[rs.prov(cc.Args[0], 0)] = true
					}
				}
			}
		}
	}
	for f := range body {
		for _, b := range f.Blocks {
			ph := rs.phase(b)
			for _, in := range b.Instrs {
				for _, a := range rs.accesses(f, in) {
					a.Phase = ph
					gs = append(gs, a)
				}
			}
		}
	}
	// what is known where it is started
	for b := rs.goIn.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		if i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			if k := rs.condKey(i.Cond); k != "" && len(b.Preds) == 1 && b.Preds[0] == d {
				rs.known[k] = b == d.Succs[0]
			}
		}
	}
	// the writers it is given
	rs.writersOf(body)
	// the other side: everything that may run until its end is waited for
	w := &meanwhile{rs: rs, seen: map[ssa.Instruction]bool{}, fn: map[*ssa.Function]map[string]bool{}, given: map[*ssa.Function]map[string]bool{}, cont: map[*ssa.Function]bool{}, ends: ends, at: map[ssa.Instruction]map[string]bool{}}
	w.up(rs.goIn.Parent(), rs.goIn, map[*ssa.Function]bool{})
	c.Obl("joined", con+" "+c.pos(rs.goIn.Pos()), rs.goIn.Pos(), w.joined, "the end of the goroutine started in %s is never waited for", c.short(rs.goIn.Parent()))

	byKey := map[string][]access{}
	for _, a := range gs {
		byKey[a.Key] = append(byKey[a.Key], a)
	}
	type hit struct{ g, h access }
	bad := map[string]hit{}
	keys := map[string]bool{}
	for _, a := range gs {
		keys[a.Key] = true
	}
	hs := 0
	var order []ssa.Instruction
	for in := range w.seen {
		order = append(order, in)
	}
	sort.Slice(order, func(i, j int) bool { return instrPos(order[i]) < instrPos(order[j]) })
	for _, in := range order {
		f := in.Parent()
		for _, h := range rs.accesses(f, in) {
			hs++
			for _, g := range byKey[h.Key] {
				if !g.Write && !h.Write {
					continue
				}
				if g.Phase != "" && !w.at[in][g.Phase] {
					continue // before the signal the goroutine waits for
				}
				k := h.Key
				if _, ok := bad[k]; !ok {
					bad[k] = hit{g, h}
				}
			}
		}
		rs.takesBuffer(con, in)
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b, isBad := bad[k]
		if !isBad {
			c.Obl("share", con+" "+k, rs.goIn.Pos(), true, "")
			continue
		}
		verb := func(w bool) string {
			if w {
				return "writes"
			}
			return "reads"
		}
		c.Obl("share", con+" "+k, instrPos(b.h.In), false, "%s %s %s while the goroutine started in %s may run, which %s it in %s", c.short(b.h.Fn), verb(b.h.Write), k, c.short(rs.goIn.Parent()), verb(b.g.Write), c.short(b.g.Fn))
	}
	c.Stat("places touched by goroutines", len(gs))
	c.Stat("places touched meanwhile", hs)
	c.Stat("functions run by goroutines", len(body))
	c.Stat("instructions that may run meanwhile", len(w.seen))
}

// phase: the channel whose receive a block of the goroutine comes after.
func (rs *raceScan) phase(b *ssa.BasicBlock) string {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return ""
		}
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != p || p.Succs[0] != d {
			continue
		}
		eq, ok := i.Cond.(*ssa.BinOp)
		if !ok || eq.Op != token.EQL {
			continue
		}
		ex, ok := eq.X.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		sel, ok := ex.Tuple.(*ssa.Select)
		k, ok2 := eq.Y.(*ssa.Const)
		if !ok || !ok2 {
			continue
		}
		n := int(k.Int64())
		if n >= 0 && n < len(sel.States) && sel.States[n].Dir == types.RecvOnly {
			return rs.prov(sel.States[n].Chan, 0)
		}
	}
	return ""
}

// condKey: a condition that reads only what is never written, by its text.
func (rs *raceScan) condKey(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	if u.Op == token.NOT {
		return ""
	}
	in, ok := u.X.(*ssa.UnOp)
	if ok {
		if g, ok := in.X.(*ssa.Global); ok {
			return "**" + g.String()
		}
	}
	if g, ok := u.X.(*ssa.Global); ok {
		return "*" + g.String()
	}
	return ""
}

// prov: where a value comes from, as a key.
func (rs *raceScan) prov(v ssa.Value, d int) string {
	if d > 12 {
		return "T:" + v.Type().String()
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey(x)
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return structName(x.X.Type()) + "." + st.Field(x.Field).Name()
		}
	case *ssa.Global:
		return "var " + x.Name()
	case *ssa.Alloc:
		return "var " + x.Comment + " of " + rs.c.short(x.Parent())
	case *ssa.FreeVar:
		if b := rs.eff.bindingIn(x.Parent(), freeIdx(x), x.Parent().Parent()); b != nil {
			return rs.prov(b, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return rs.prov(x.X, d+1)
		}
	case *ssa.IndexAddr:
		return rs.prov(x.X, d+1) + "[]"
	case *ssa.Index:
		return rs.prov(x.X, d+1) + "[]"
	case *ssa.Lookup:
		return rs.prov(x.X, d+1) + "[]"
	case *ssa.Slice:
		return rs.prov(x.X, d+1)
	case *ssa.ChangeType:
		return rs.prov(x.X, d+1)
	case *ssa.MakeInterface:
		return rs.prov(x.X, d+1)
	case *ssa.ChangeInterface:
		return rs.prov(x.X, d+1)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok && x.Index == 2 {
				return rs.prov(r.X, d+1) + "[]"
			}
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			return rs.prov(l, d+1)
		}
	}
	return "T:" + v.Type().String()
}

func freeIdx(v *ssa.FreeVar) int {
	for i, f := range v.Parent().FreeVars {
		if f == v {
			return i
		}
	}
	return -1
}

// ownPlace: the place is in an object of the function's own, which no other
// goroutine has been given yet.
func (rs *raceScan) own(f *ssa.Function, addr ssa.Value, at ssa.Instruction) bool {
	roots := rs.eff.pointsTo(addr)
	if len(roots) == 0 {
		return false
	}
	base := baseAlloc(addr)
	for r := range roots {
		if r.Kind == "fresh" {
			continue
		}
		// an object every caller made and has kept to itself so far
		p, ok := base.(*ssa.Parameter)
		if !ok || r.Kind != "param" || r.N >= len(f.Params) || f.Params[r.N] != p || !rs.ownArg(f, r.N) {
			return false
		}
	}
	if rs.captured(rs.prov(addr, 0)) {
		return false
	}
	if a, ok := base.(*ssa.Alloc); ok && a.Parent() == f {
		if capturedBy(a, rs.goIn) {
			return false
		}
	}
	return !rs.givenAway(f, base, at)
}

// ownArg: what every caller hands over as parameter n is an object of its own.
func (rs *raceScan) ownArg(f *ssa.Function, n int) bool {
	k := argPos{f, n}
	if v, ok := rs.args[k]; ok {
		return v
	}
	if rs.args == nil {
		rs.args = map[argPos]bool{}
	}
	rs.args[k] = false // within a cycle
	sites := rs.c.callersOf(f)
	ok := len(sites) > 0 && !rs.c.usedAsValue(f)
	for _, s := range sites {
		cc := s.Common()
		_, isCall := s.(*ssa.Call)
		if !ok || !isCall || cc.StaticCallee() != f || n >= len(cc.Args) || !rs.own(s.Parent(), cc.Args[n], s) {
			ok = false
			break
		}
	}
	rs.args[k] = ok
	return ok
}

type argPos struct {
	f *ssa.Function
	n int
}

// capturedBy: the goroutine's closure captures the variable.
func capturedBy(a ssa.Value, g *ssa.Go) bool {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	for _, b := range mc.Bindings {
		if b == a {
			return true
		}
	}
	return false
}

// givenAway: the object may have been sent to the goroutine before at.
func (rs *raceScan) givenAway(f *ssa.Function, obj ssa.Value, at ssa.Instruction) bool {
	seen := map[ssa.Value]bool{}
	var gone []ssa.Instruction
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Send:
				if u.X == v {
					gone = append(gone, u)
				}
			case *ssa.Select:
				gone = append(gone, u)
			case ssa.CallInstruction:
				for _, g := range rs.c.callees(u) {
					if rs.senders[g] {
						gone = append(gone, u)
					}
				}
			case *ssa.Store:
				if u.Val == v {
					visit(baseAlloc(u.Addr))
				}
			case *ssa.Phi:
				visit(u)
			case *ssa.MakeInterface:
				visit(u)
			case *ssa.Slice:
				visit(u)
			case *ssa.UnOp:
				visit(u)
			}
		}
	}
	visit(obj)
	for _, g := range gone {
		if g != at && g.Parent() == at.Parent() && comesAfter(g, at) {
			return true
		}
	}
	return false
}

// comesAfter: b may run after a, within one function.
func comesAfter(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block())
}

func guardedType(t types.Type) bool {
	t = derefT(t)
	if n := namedOf(t); n != nil {
		if p := n.Obj().Pkg(); p != nil {
			switch p.Path() {
			case "sync", "sync/atomic", "regexp", "log", "text/template", "html/template", "time", "reflect":
				return true
			}
		}
	}
	return holdsLock(t)
}

// accesses: the memory an instruction touches that others may touch too.
func (rs *raceScan) accesses(f *ssa.Function, in ssa.Instruction) (out []access) {
	add := func(key string, write bool) {
		out = append(out, access{Fn: f, In: in, Key: key, Write: write})
	}
	place := func(addr ssa.Value, write bool) {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			if n := namedOf(derefT(a.X.Type())); n != nil && holdsLock(n) {
				return // its lock guards it (C11)
			}
			if rs.own(f, addr, in) {
				return
			}
			add(fieldKey(a), write)
		case *ssa.Global:
			add("var "+a.Name(), write)
		case *ssa.Alloc, *ssa.FreeVar:
			if al, ok := a.(*ssa.Alloc); ok && !al.Heap {
				return
			}
			k := rs.prov(a, 0)
			if rs.captured(k) {
				add(k, write)
			}
		case *ssa.IndexAddr:
			if rs.own(f, addr, in) {
				return
			}
			add("elements of "+rs.prov(a.X, 0), write)
		case *ssa.UnOp:
			if rs.own(f, addr, in) {
				return
			}
			if g, ok := a.X.(*ssa.Global); ok {
				add("what "+g.Name()+" points to", write)
			}
		}
		// a whole struct
		if st, ok := derefT(addr.Type()).Underlying().(*types.Struct); ok {
			if n := namedOf(derefT(addr.Type())); n != nil && !holdsLock(n) && !rs.own(f, addr, in) {
				for i := 0; i < st.NumFields(); i++ {
					add(structName(n)+"."+st.Field(i).Name(), write)
				}
			}
		}
	}
	elems := func(v ssa.Value, write bool) {
		if rs.own(f, v, in) {
			return
		}
		add("elements of "+rs.prov(v, 0), write)
	}
	switch in := in.(type) {
	case *ssa.Store:
		place(in.Addr, true)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			place(in.X, false)
		}
	case *ssa.MapUpdate:
		elems(in.Map, true)
	case *ssa.Lookup:
		if !isStringType(in.X.Type()) {
			elems(in.X, false)
		}
	case *ssa.Range:
		if !isStringType(in.X.Type()) {
			elems(in.X, false)
		}
	case ssa.CallInstruction:
		cc := in.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "delete", "copy", "clear":
				elems(cc.Args[0], true)
			case "append":
				if !rs.own(f, cc.Args[0], in) && !constNil(cc.Args[0]) {
					elems(cc.Args[0], false)
				}
			case "len", "cap":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					elems(cc.Args[0], false)
				}
			}
			break
		}
		// a writer handed on is written to
		for _, v := range cc.Args {
			if isWriterObj(stripIface(v).Type()) && !rs.own(f, v, in) {
				if k := rs.prov(v, 0); !strings.HasPrefix(k, "T:") {
					add("the object of "+k, true)
				}
			}
		}
		// library objects, by their methods
		lib := false
		if g := cc.StaticCallee(); g != nil && !rs.c.owned(g) {
			lib = true
			for i := range libWrites(calleeName(cc), cc) {
				if i < len(cc.Args) {
					if _, ok := cc.Args[i].Type().Underlying().(*types.Slice); ok {
						elems(cc.Args[i], true)
					} else if mi, ok := cc.Args[i].(*ssa.MakeInterface); ok {
						if _, ok := mi.X.Type().Underlying().(*types.Slice); ok {
							elems(mi.X, true)
						}
					}
				}
			}
		}
		var recv ssa.Value
		if lib && cc.Signature().Recv() != nil && len(cc.Args) > 0 {
			recv = cc.Args[0]
		} else if cc.IsInvoke() && len(rs.c.callees(in)) == 0 {
			recv = cc.Value
		}
		if recv == nil || !hasPointers(recv.Type()) || guardedType(recv.Type()) {
			break
		}
		if isWriterObj(recv.Type()) && strings.HasPrefix(rs.prov(recv, 0), "T:") {
			break
		}
		if _, ok := recv.Type().Underlying().(*types.Interface); ok && isErrorType(recv.Type()) {
			break
		}
		if n := namedOf(derefT(recv.Type())); n != nil && n.Obj().Pkg() != nil && readOnlyLib(n.Obj().Pkg().Path()) && !isWriterObj(recv.Type()) {
			break
		}
		if !rs.own(f, recv, in) {
			add("the object of "+rs.prov(recv, 0), true)
		}
	}
	return
}

func constNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// readOnlyLib: libraries whose values are only looked at.
func readOnlyLib(p string) bool {
	return strings.HasPrefix(p, "modernc.org/") || p == "go/token" || strings.HasPrefix(p, "go/") || p == "os" || p == "io/fs" || p == "unicode"
}

// isWriterObj: buffers and other writers are judged by where they come from.
func isWriterObj(t types.Type) bool {
	if n := namedOf(derefT(t)); n != nil && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "bytes.Buffer", "io.Writer", "strings.Builder", "bufio.Writer", "os.File":
			return true
		}
	}
	return false
}

// captured: a variable the goroutine's closure captures.
func (rs *raceScan) captured(k string) bool {
	mc, ok := rs.goIn.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	for _, b := range mc.Bindings {
		if rs.prov(b, 0) == k {
			return true
		}
	}
	return false
}

// ---- what runs meanwhile ----------------------------------------------------

type meanwhile struct {
	rs     *raceScan
	seen   map[ssa.Instruction]bool
	fn     map[*ssa.Function]map[string]bool // walked, with these signals given
	given  map[*ssa.Function]map[string]bool
	cont   map[*ssa.Function]bool // a walk of the function may come back before the end is waited for
	ends   map[string]bool
	joined bool
	at     map[ssa.Instruction]map[string]bool // signals that may have been given before
	sig    map[string]bool
}

// up: everything after the instruction in its function, and after the calls of
// that function, and so on.
func (w *meanwhile) up(f *ssa.Function, after ssa.Instruction, busy map[*ssa.Function]bool) {
	if busy[f] {
		return
	}
	busy[f] = true
	b := after.Block()
	i := 0
	for i < len(b.Instrs) && b.Instrs[i] != after {
		i++
	}
	if !w.from(f, b, i+1, map[*ssa.BasicBlock]map[string]bool{}, w.sig) {
		return
	}
	w.sig = withSigs(w.sig, w.gives(f))
	for _, site := range w.rs.c.callersOf(f) {
		if _, ok := site.(*ssa.Go); ok {
			continue
		}
		w.up(site.Parent(), site, busy)
	}
}

// from walks the instructions of f from a place on; it reports whether f may
// return before the end of the goroutine was waited for.
func (w *meanwhile) from(f *ssa.Function, b *ssa.BasicBlock, i int, seen map[*ssa.BasicBlock]map[string]bool, sig map[string]bool) bool {
	out := false
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if w.joins(in) {
			w.joined = true
			return out
		}
		if in == ssa.Instruction(w.rs.goIn) {
			return out // the next goroutine of this statement
		}
		w.seen[in] = true
		if w.at[in] == nil {
			w.at[in] = map[string]bool{}
		}
		for s := range sig {
			w.at[in][s] = true
		}
		switch x := in.(type) {
		case *ssa.Return:
			return true
		case *ssa.Panic:
			return out
		case *ssa.Send:
			sig = withSig(sig, w.rs.prov(x.Chan, 0))
		case ssa.CallInstruction:
			cc := x.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
				sig = withSig(sig, w.rs.prov(cc.Args[0], 0))
			}
			switch n := calleeName(cc); {
			case n == "os.Exit", strings.HasPrefix(n, "log.Fatal"), strings.HasPrefix(n, "log.Panic"):
				return out
			}
			gs := w.rs.c.callees(x)
			if len(gs) == 0 {
				break
			}
			back := false
			for _, g := range gs {
				if len(g.Blocks) == 0 || !w.rs.c.owned(g) {
					back = true
					continue
				}
				if w.call(g, sig) {
					back = true
				}
			}
			for _, g := range gs {
				sig = withSigs(sig, w.gives(g))
			}
			if !back {
				return out
			}
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	for n, s := range b.Succs {
		if i, ok := last.(*ssa.If); ok {
			if v, ok := w.rs.known[w.rs.condKey(i.Cond)]; ok && v != (n == 0) {
				continue
			}
		}
		if old, ok := seen[s]; ok && len(withSigs(old, sig)) == len(old) {
			continue
		}
		seen[s] = withSigs(seen[s], sig)
		if w.from(f, s, 0, seen, sig) {
			out = true
		}
	}
	return out
}

func withSig(m map[string]bool, k string) map[string]bool {
	return withSigs(m, map[string]bool{k: true})
}

func withSigs(m, n map[string]bool) map[string]bool {
	out := map[string]bool{}
	for x := range m {
		out[x] = true
	}
	for x := range n {
		out[x] = true
	}
	return out
}

// gives: the channels a call of f may send on or close.
func (w *meanwhile) gives(f *ssa.Function) map[string]bool {
	if out, ok := w.given[f]; ok {
		return out
	}
	out := map[string]bool{}
	for g := range w.rs.c.reachableFrom([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					out[w.rs.prov(x.Chan, 0)] = true
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							out[w.rs.prov(s.Chan, 0)] = true
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						out[w.rs.prov(x.Common().Args[0], 0)] = true
					}
				}
			}
		}
	}
	w.given[f] = out
	return out
}

func (w *meanwhile) call(g *ssa.Function, sig map[string]bool) bool {
	if old, ok := w.fn[g]; ok && len(withSigs(old, sig)) == len(old) {
		return w.cont[g]
	}
	sig = withSigs(w.fn[g], sig)
	w.fn[g] = sig
	if _, ok := w.cont[g]; !ok {
		w.cont[g] = true
	}
	r := w.from(g, g.Blocks[0], 0, map[*ssa.BasicBlock]map[string]bool{}, sig)
	w.cont[g] = r
	return r
}

// joins: the end of the goroutine is waited for here.
func (w *meanwhile) joins(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW && w.rs.closes[w.rs.prov(x.X, 0)]
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Defer); ok {
			return false
		}
		cc := x.Common()
		if calleeName(cc) == "(*sync.WaitGroup).Wait" {
			return w.ends[w.rs.prov(cc.Args[0], 0)]
		}
	}
	return false
}

// ---- the goroutine's writers ------------------------------------------------

// writersOf: the fields the writers handed to the goroutine are kept in.
func (rs *raceScan) writersOf(body map[*ssa.Function]bool) {
	rs.bufs = map[string]bool{}
	rs.bufKeys = map[string]string{}
	note := func(v ssa.Value) {
		for d := 0; d < 10; d++ {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.FreeVar:
				if b := rs.eff.bindingIn(x.Parent(), freeIdx(x), x.Parent().Parent()); b != nil {
					v = b
					continue
				}
			case *ssa.Alloc:
				if s := onlyStore(x); s != nil {
					v = s
					continue
				}
			case *ssa.Extract:
				v = x.Tuple
				continue
			case *ssa.Lookup:
				k := rs.prov(x.X, 0)
				rs.bufs[k] = true
				if cst, ok := x.Index.(*ssa.Const); ok && cst.Value != nil {
					rs.bufKeys[k] = cst.Value.ExactString()
				}
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					rs.bufs[fieldKey(fa)] = true
				} else {
					v = x.X
					continue
				}
			}
			return
		}
	}
	visit := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range ci.Common().Args {
					if isWriter(a.Type()) || isWriterObj(a.Type()) {
						note(a)
					}
				}
			}
		}
	}
	for f := range body {
		visit(f)
	}
	for _, a := range rs.goIn.Call.Args {
		if isWriter(a.Type()) || isWriterObj(a.Type()) {
			note(a)
		}
	}
}

// takesBuffer: the instruction takes a buffer that may be the goroutine's.
func (rs *raceScan) takesBuffer(con string, in ssa.Instruction) {
	c := rs.c
	f := in.Parent()
	switch x := in.(type) {
	case *ssa.Lookup:
		k := rs.prov(x.X, 0)
		if !rs.bufs[k] {
			return
		}
		own := rs.bufKeys[k]
		same := true
		if cst, ok := x.Index.(*ssa.Const); ok && cst.Value != nil && own != "" {
			same = cst.Value.ExactString() == own
		}
		c.Obl("writer", con+" "+k+" "+c.short(f), x.Pos(), !same, "%s takes a buffer from %s which may be one the goroutine is writing to", c.short(f), k)
	case *ssa.Range:
		k := rs.prov(x.X, 0)
		if rs.bufs[k] && valueUsed(x) {
			c.Obl("writer", con+" "+k+" "+c.short(f), x.Pos(), false, "%s goes over %s while the goroutine may be writing to one of its buffers", c.short(f), k)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || !rs.bufs[fieldKey(fa)] {
			return
		}
		if _, ok := x.Type().Underlying().(*types.Map); ok {
			return
		}
		c.Obl("writer", con+" "+fieldKey(fa)+" "+c.short(f), x.Pos(), false, "%s takes %s, which the goroutine may be writing to", c.short(f), fieldKey(fa))
	}
}

// valueUsed: the loop uses the values it goes over.
func valueUsed(r *ssa.Range) bool {
	for _, u := range *r.Referrers() {
		n, ok := u.(*ssa.Next)
		if !ok {
			return true
		}
		for _, e := range *n.Referrers() {
			if ex, ok := e.(*ssa.Extract); ok && ex.Index == 2 && len(*ex.Referrers()) > 0 {
				return true
			}
		}
	}
	return false
}
