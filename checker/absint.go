package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpreter over SSA. It computes, for one function, the set of
// abstract outcomes: what is returned, what text is appended to which writer,
// which helpers are submitted, under which branch facts. Branches that the
// facts do not decide split the state; states that agree on everything that
// is still live are merged again (facts are met). Loops over data that is not
// a compile time constant are analysed once for a generic iteration: whatever
// the body changes is widened to an unknown at the loop head, text the body
// appends becomes a repetition.

type Frame struct {
	fn    *ssa.Function
	up    *Frame
	depth int
	site  ssa.CallInstruction
}

type deferred struct {
	fr   *Frame
	call ssa.CallInstruction
	fn   V
	args []V
}

type symEnt struct {
	addr *Term
	v    V
}

type State struct {
	heap    map[int]V
	sym     map[string]symEnt
	streams map[string]V
	marks   map[string]V
	facts   *Facts
	next    int
	ip      *Interp
	tr      []Event      // events of this path, in order
	inits   map[string]V // what loop carried values were before their loop
	defers  []deferred   // calls deferred on this path and not run yet, of all frames
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]V, len(s.heap)), sym: make(map[string]symEnt, len(s.sym)),
		streams: make(map[string]V, len(s.streams)), marks: make(map[string]V, len(s.marks)), facts: s.facts, next: s.next, ip: s.ip}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.sym {
		n.sym[k] = v
	}
	for k, v := range s.streams {
		n.streams[k] = v
	}
	for k, v := range s.marks {
		n.marks[k] = v
	}
	n.tr = s.tr[:len(s.tr):len(s.tr)]
	n.inits = s.inits
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return n
}

func (s *State) get(id int) V {
	if v, ok := s.heap[id]; ok {
		return v
	}
	return s.ip.base[id]
}
func (s *State) set(id int, v V) { s.heap[id] = v }
func (s *State) alloc(v V) int {
	id := s.next
	s.next++
	s.heap[id] = v
	return id
}

type PS struct {
	st  *State
	env map[ssa.Value]V
}

func (p *PS) clone() *PS {
	e := make(map[ssa.Value]V, len(p.env)+4)
	for k, v := range p.env {
		e[k] = v
	}
	return &PS{p.st.clone(), e}
}

type Outcome struct {
	Ret   []V
	St    *State
	Panic bool
}

type Event struct {
	Kind  string // "call", "send", "panic", "go", "store"
	Name  string
	Args  []V
	Pos   token.Pos
	Fn    *ssa.Function
	Facts *Facts
	Call  ssa.CallInstruction
	Raw   []V // the arguments of a call, not looked into
	Res   V   // the result of a call that is not followed (a tuple if there are several)
}

// LoopInfo collects, while one loop is analysed, what one iteration appends to
// each widened text or sequence.
type LoopInfo struct {
	Key   string
	Pos   token.Pos
	Fn    *ssa.Function
	Items map[string][]V
	Init  map[string][]V // elements present before the loop
}

// AltInfo is what held at the end of an iteration that appended an
// alternative.
type AltInfo struct {
	Facts *Facts
	Marks map[string]V
	Fn    *ssa.Function
	Pos   token.Pos
}

type Interp struct {
	p        *Program
	base     map[int]V
	baseN    int
	Wraps    map[string]token.Pos // unsigned differences not known to stay at or above zero, if wanted
	PeelExit bool                 // what follows a loop knows which iteration left it: none or the first, or one after an arbitrary one
	GoInline bool                 // goroutine bodies are interpreted where they start
	globals  map[*ssa.Global]int
	// Inline decides whether a module function's body is analysed in the
	// caller's context (true) or stands for an unknown function of its
	// arguments.
	Inline func(fn *ssa.Function) bool
	// Model may replace a call entirely.
	Model  func(ip *Interp, fr *Frame, st *State, c ssa.CallInstruction, name string, args []V) ([]Outcome, bool)
	Events []Event
	// TraceKinds selects the events kept in the path trace (which keeps
	// paths with different traces apart).
	Trace     func(ev *Event) bool
	OnEvent   func(st *State, ev *Event)
	Alts      map[string]*AltInfo // by key of the alternative
	steps     int
	maxSteps  int
	dom       map[*ssa.Function]*fnInfo
	active    map[string]int
	fresh     int
	initDone  bool
	Visited   map[*ssa.Function]bool
	StrInline bool
	// NoMerge keeps paths with different facts apart.
	NoMerge bool
	Loops   map[string]*LoopMeta
	// AllLoops lists every completed loop analysis in order.
	AllLoops []*LoopMeta
}

// LoopMeta describes a generically analysed loop: where its induction
// variable starts and what held at the end of each kind of iteration.
type LoopMeta struct {
	Key   string
	Start int64 // of the induction variable (range loops: 0)
	HasIx bool
	Back  []*BackEdge
	Pos   token.Pos
	Fn    *ssa.Function
	Init  map[string]V // value before the loop of what it carries, by head value
	Early bool         // it can be left other than where it starts an iteration
}

// BackEdge is one way an iteration can end that goes on to the next one.
type BackEdge struct {
	St    *State
	Head  *State
	Carry map[string]V // loop carried value by the key of its head value
}

type budgetErr struct{ msg string }

func newInterp(p *Program) *Interp {
	ip := &Interp{p: p, base: map[int]V{}, globals: map[*ssa.Global]int{}, Alts: map[string]*AltInfo{},
		maxSteps: 4000000, dom: map[*ssa.Function]*fnInfo{}, active: map[string]int{}, Visited: map[*ssa.Function]bool{}}
	ip.Inline = func(fn *ssa.Function) bool { return true }
	var names []string
	for n := range p.SSA {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sp := p.SSA[n]
		var ms []string
		for m := range sp.Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if g, ok := sp.Members[m].(*ssa.Global); ok {
				id := ip.baseN
				ip.baseN++
				ip.globals[g] = id
				ip.base[id] = zeroVal(g.Type().(*types.Pointer).Elem())
			}
		}
	}
	return ip
}

// runInits interprets the package initialisers so that package level tables
// have their contents.
func (ip *Interp) runInits() error {
	nm := ip.NoMerge
	ip.NoMerge = false
	defer func() { ip.NoMerge = nm }()
	for _, n := range []string{"parser", "translator", "generator", "main"} {
		sp := ip.p.SSA[n]
		if sp == nil {
			continue
		}
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		outs, err := ip.Run(fn, nil, nil)
		if err != nil {
			return fmt.Errorf("package initialiser of %s: %v", n, err)
		}
		var done []Outcome
		for _, o := range outs {
			if !o.Panic {
				done = append(done, o)
			}
		}
		outs = done
		if len(outs) != 1 {
			return fmt.Errorf("package initialiser of %s has %d outcomes", n, len(outs))
		}
		for id, v := range outs[0].St.heap {
			ip.base[id] = v
			if id >= ip.baseN {
				ip.baseN = id + 1
			}
		}
		if outs[0].St.next > ip.baseN {
			ip.baseN = outs[0].St.next
		}
	}
	ip.initDone = true
	return nil
}

func (ip *Interp) newState() *State {
	return &State{heap: map[int]V{}, sym: map[string]symEnt{}, streams: map[string]V{}, marks: map[string]V{},
		facts: newFacts(), next: ip.baseN, ip: ip}
}

// Run analyses fn for the given arguments (nil: one unknown per parameter).
func (ip *Interp) Run(fn *ssa.Function, args []V, st *State) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetErr); ok {
				err = fmt.Errorf("%s", b.msg)
				return
			}
			panic(r)
		}
	}()
	if st == nil {
		st = ip.newState()
	}
	if args == nil {
		for i, pa := range fn.Params {
			args = append(args, ip.param(i, pa))
		}
	}
	ip.steps = 0
	return ip.callFn(nil, st, nil, fn, args, nil), nil
}

func (ip *Interp) param(i int, pa *ssa.Parameter) V {
	return mkTerm(pa.Type(), fmt.Sprintf("$%s", pa.Name()))
}

// ---- control flow ---------------------------------------------------------

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (ip *Interp) info(fn *ssa.Function) *fnInfo {
	if f, ok := ip.dom[fn]; ok {
		return f
	}
	f := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := range post {
		f.rpo[post[i]] = len(post) - 1 - i
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if seen[b] && s.Dominates(b) { // back edge
				body := f.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					f.loops[s] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, pr := range x.Preds {
						if !body[pr] && seen[pr] {
							body[pr] = true
							st = append(st, pr)
						}
					}
				}
			}
		}
	}
	f.liveIn = liveness(fn)
	ip.dom[fn] = f
	return f
}

// liveness of SSA values at block entry (phi results count as defined at
// entry, i.e. they are live-in values of their own block).
func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 && tracked(ph.Edges[pi]) {
						live[ph.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				if v, ok := x.(ssa.Value); ok {
					delete(live, v)
				}
				var buf [8]*ssa.Value
				for _, op := range x.Operands(buf[:0]) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			// phis used in the block or live through stay live-in
			if len(live) != len(in[b]) {
				in[b] = live
				changed = true
			} else {
				for v := range live {
					if !in[b][v] {
						in[b] = live
						changed = true
						break
					}
				}
			}
		}
	}
	return in
}

type edgeState struct {
	to *ssa.BasicBlock
	ps *PS
}

func (ip *Interp) callFn(fr *Frame, st *State, site ssa.CallInstruction, fn *ssa.Function, args []V, bind []V) []Outcome {
	depth := 0
	if fr != nil {
		depth = fr.depth + 1
	}
	if depth > 60 {
		panic(budgetErr{"call depth exceeded at " + ip.p.short(fn)})
	}
	ip.Visited[fn] = true
	nf := &Frame{fn: fn, up: fr, depth: depth, site: site}
	ps := &PS{st: st, env: map[ssa.Value]V{}}
	for i, pa := range fn.Params {
		if i < len(args) {
			ps.env[pa] = args[i]
		} else {
			ps.env[pa] = mkTerm(pa.Type(), "?missing")
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			ps.env[fv] = bind[i]
		} else {
			ps.env[fv] = mkTerm(fv.Type(), "$free:"+fv.Name())
		}
	}
	var outs []Outcome
	ip.region(nf, nil, nil, []edgeState{{fn.Blocks[0], ps}}, &outs)
	return ip.mergeOutcomes(st.next, outs)
}

// region runs all blocks reachable from the entries inside `in` (nil: the
// whole function) in reverse post order; edges to header come back as back,
// edges out of the region as exits.
func (ip *Interp) region(fr *Frame, header *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, entries []edgeState, outs *[]Outcome) (back []*PS, exits []edgeState) {
	inf := ip.info(fr.fn)
	pending := map[*ssa.BasicBlock][]*PS{}
	push := func(e edgeState, entry bool) {
		if e.to == header && !entry {
			back = append(back, e.ps)
			return
		}
		if in != nil && !in[e.to] {
			exits = append(exits, e)
			return
		}
		pending[e.to] = append(pending[e.to], e.ps)
	}
	for _, e := range entries {
		push(e, true)
	}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || inf.rpo[c] < inf.rpo[b] {
				b = c
			}
		}
		list := ip.mergePS(inf, b, pending[b])
		delete(pending, b)
		if body, isLoop := inf.loops[b]; isLoop && b != header {
			for _, ps := range list {
				for _, e := range ip.loop(fr, b, body, ps, outs, 0) {
					push(e, false)
				}
			}
			continue
		}
		for _, ps := range list {
			for _, e := range ip.block(fr, b, 0, ps, outs) {
				push(e, false)
			}
		}
	}
	back = ip.mergeBack(inf, header, back)
	return back, exits
}

func (ip *Interp) mergeBack(inf *fnInfo, header *ssa.BasicBlock, l []*PS) []*PS {
	if header == nil {
		return l
	}
	return ip.mergePS(inf, header, l)
}

func (ip *Interp) mergePS(inf *fnInfo, b *ssa.BasicBlock, l []*PS) []*PS {
	if len(l) < 2 {
		return l
	}
	live := inf.liveIn[b]
	var phis []ssa.Value
	for _, x := range b.Instrs {
		ph, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	idx := map[string]int{}
	var out []*PS
	for _, ps := range l {
		k := ip.psKey(ps, live, phis)
		if i, ok := idx[k]; ok {
			out[i].st.facts = out[i].st.facts.meet(ps.st.facts)
			if ps.st.next > out[i].st.next {
				out[i].st.next = ps.st.next
			}
			continue
		}
		idx[k] = len(out)
		out = append(out, ps)
	}
	return out
}

func (ip *Interp) psKey(ps *PS, live map[ssa.Value]bool, phis []ssa.Value) string {
	var items []string
	for v, x := range ps.env {
		isPhi := false
		for _, p := range phis {
			if p == v {
				isPhi = true
			}
		}
		_, isFV := v.(*ssa.FreeVar)
		if live[v] || isPhi || isFV {
			items = append(items, v.Name()+"="+x.K())
		}
	}
	sort.Strings(items)
	k := strings.Join(items, ";") + "##" + ps.st.key()
	if ip.NoMerge {
		k += "##" + ps.st.facts.key()
	}
	return k
}

func (s *State) key() string {
	var items []string
	for k, v := range s.heap {
		if b, ok := s.ip.base[k]; ok && b == v {
			continue
		}
		items = append(items, fmt.Sprintf("h%d=%s", k, v.K()))
	}
	for k, e := range s.sym {
		items = append(items, "s"+k+"="+e.v.K())
	}
	for k, v := range s.streams {
		items = append(items, "w"+k+"="+v.K())
	}
	for k, v := range s.marks {
		items = append(items, "m"+k+"="+v.K())
	}
	sort.Strings(items)
	var sb strings.Builder
	sb.WriteString(strings.Join(items, ";"))
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "|defer %d", d.call.Pos())
		for _, a := range d.args {
			sb.WriteString("," + a.K())
		}
	}
	for i := range s.tr {
		e := &s.tr[i]
		sb.WriteString("|" + e.Kind + " " + e.Name)
		for _, a := range e.Args {
			sb.WriteString("," + a.K())
		}
	}
	return sb.String()
}

// mergeOutcomes drops garbage allocated by the callee, renumbers what is left
// in a canonical order and merges outcomes that only differ in facts.
func (ip *Interp) mergeOutcomes(old int, outs []Outcome) []Outcome {
	idx := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		o = ip.renumber(old, o)
		k := ""
		for _, r := range o.Ret {
			k += r.K() + ";"
		}
		if o.Panic {
			k = "panic"
		}
		k += "##" + o.St.key()
		if ip.NoMerge {
			k += "##" + o.St.facts.key()
		}
		if i, ok := idx[k]; ok {
			res[i].St.facts = res[i].St.facts.meet(o.St.facts)
			if o.St.next > res[i].St.next {
				res[i].St.next = o.St.next
			}
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

func (ip *Interp) renumber(old int, o Outcome) Outcome {
	remap := map[int]int{}
	next := old
	var order []int
	var visit func(v V)
	visitObj := func(id int) {
		if id < old {
			return
		}
		if _, ok := remap[id]; ok {
			return
		}
		remap[id] = next
		next++
		order = append(order, id)
	}
	visit = func(v V) {
		switch v := v.(type) {
		case *Ptr:
			visitObj(v.Obj)
		case *SliceV:
			visitObj(v.Obj)
		case *MapV:
			visitObj(v.Obj)
		case *StructV:
			for _, f := range v.F {
				visit(f)
			}
		case *SeqV:
			if v.Base != nil {
				visit(v.Base)
			}
			if v.N != nil {
				visit(v.N)
			}
			for _, f := range v.E {
				visit(f)
			}
		case *MapVal:
			if v.Base != nil {
				visit(v.Base)
			}
			for i := range v.Ks {
				visit(v.Ks[i])
				visit(v.Vs[i])
			}
		case *Iface:
			visit(v.X)
		case *FnV:
			for _, b := range v.B {
				visit(b)
			}
		case *TupleV:
			for _, b := range v.E {
				visit(b)
			}
		case *Term:
			for _, a := range v.Args {
				visit(a)
			}
		case *Cat:
			for _, a := range v.Parts {
				visit(a)
			}
		}
	}
	if !o.Panic {
		for _, r := range o.Ret {
			visit(r)
		}
	}
	var ids []int
	for id := range o.St.heap {
		if id < old {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		visit(o.St.heap[id])
	}
	sortedV := func(m map[string]V) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(m[k])
		}
	}
	var ks []string
	for k := range o.St.sym {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		visit(o.St.sym[k].addr)
		visit(o.St.sym[k].v)
	}
	sortedV(o.St.streams)
	sortedV(o.St.marks)
	for _, e := range o.St.tr {
		for _, a := range e.Args {
			visit(a)
		}
	}
	for i := 0; i < len(order); i++ {
		if v, ok := o.St.heap[order[i]]; ok {
			visit(v)
		}
	}
	same := true
	for a, b := range remap {
		if a != b {
			same = false
		}
	}
	st := o.St
	n := &State{heap: map[int]V{}, sym: map[string]symEnt{}, streams: st.streams, marks: st.marks, facts: st.facts, next: next, ip: ip, tr: st.tr, inits: st.inits}
	ren := func(v V) V {
		if same {
			return v
		}
		return remapV(v, remap)
	}
	for id, v := range st.heap {
		if id >= old {
			if to, ok := remap[id]; ok {
				n.heap[to] = ren(v)
			}
			continue
		}
		n.heap[id] = ren(v)
	}
	for _, e := range st.sym {
		a, ok := ren(e.addr).(*Term)
		if !ok {
			continue
		}
		n.sym[a.K()] = symEnt{a, ren(e.v)}
	}
	if !same {
		n.streams = map[string]V{}
		for k, v := range st.streams {
			n.streams[k] = ren(v)
		}
		n.marks = map[string]V{}
		for k, v := range st.marks {
			n.marks[k] = ren(v)
		}
		n.inits = map[string]V{}
		for k, v := range st.inits {
			n.inits[k] = ren(v)
		}
		n.tr = nil
		for _, e := range st.tr {
			var as []V
			for _, a := range e.Args {
				as = append(as, ren(a))
			}
			e.Args = as
			n.tr = append(n.tr, e)
		}
	}
	var ret []V
	for _, r := range o.Ret {
		ret = append(ret, ren(r))
	}
	return Outcome{ret, n, o.Panic}
}

func remapV(v V, m map[int]int) V {
	return mapV(v, func(x V) V {
		switch x := x.(type) {
		case *Ptr:
			if to, ok := m[x.Obj]; ok && to != x.Obj {
				return &Ptr{to, x.Path, x.T}
			}
		case *SliceV:
			if to, ok := m[x.Obj]; ok && to != x.Obj {
				return &SliceV{to, x.T}
			}
		case *MapV:
			if to, ok := m[x.Obj]; ok && to != x.Obj {
				return &MapV{to, x.T}
			}
		}
		return nil
	})
}

// mapV rebuilds a value bottom up; f returns nil to keep a node.
func mapV(v V, f func(V) V) V {
	if v == nil {
		return nil
	}
	if r := f(v); r != nil {
		return r
	}
	list := func(l []V) ([]V, bool) {
		ch := false
		var out []V
		for i, a := range l {
			b := mapV(a, f)
			if b != a && !ch {
				ch = true
				out = append(out, l[:i]...)
			}
			if ch {
				out = append(out, b)
			}
		}
		if !ch {
			return l, false
		}
		return out, true
	}
	switch v := v.(type) {
	case *Term:
		if as, ch := list(v.Args); ch {
			return mkTerm(v.T, v.Op, as...)
		}
	case *Cat:
		if as, ch := list(v.Parts); ch {
			return mkCat(as...)
		}
	case *StructV:
		if as, ch := list(v.F); ch {
			return &StructV{T: v.T, F: as}
		}
	case *SeqV:
		as, ch := list(v.E)
		b, n := v.Base, v.N
		if b != nil {
			b = mapV(b, f)
		}
		if n != nil {
			n = mapV(n, f)
		}
		if ch || b != v.Base || n != v.N {
			return &SeqV{Base: b, E: as, T: v.T, N: n}
		}
	case *MapVal:
		k, c1 := list(v.Ks)
		x, c2 := list(v.Vs)
		b := v.Base
		if b != nil {
			b = mapV(b, f)
		}
		if c1 || c2 || b != v.Base {
			return &MapVal{Ks: k, Vs: x, Base: b}
		}
	case *Iface:
		if x := mapV(v.X, f); x != v.X {
			return &Iface{v.T, x}
		}
	case *FnV:
		if b, ch := list(v.B); ch {
			return &FnV{v.F, b}
		}
	case *TupleV:
		if b, ch := list(v.E); ch {
			return &TupleV{b}
		}
	}
	return v
}

// ---- loops ----------------------------------------------------------------

const unrollLimit = 600

func (ip *Interp) loop(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ps *PS, outs *[]Outcome, n int) []edgeState {
	// Can the header condition be decided as a compile time constant?
	dec := ip.constCond(fr, h, ps)
	if dec >= 0 && n < unrollLimit {
		back, exits := ip.region(fr, h, body, []edgeState{{h, ps}}, outs)
		for _, b := range back {
			exits = append(exits, ip.loop(fr, h, body, b, outs, n+1)...)
		}
		return exits
	}
	return ip.genericLoop(fr, h, body, ps, outs)
}

// constCond evaluates the header's branch condition on a scratch copy when it
// is built only from constants; 1/0 or -1.
func (ip *Interp) constCond(fr *Frame, h *ssa.BasicBlock, ps *PS) int {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	scratch := ps.clone()
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				scratch.env[x] = ip.builtin(fr, scratch.st, x, b.Name(), ip.vals(scratch, x.Call.Args))
				continue
			}
			return -1
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.Extract:
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return -1
			}
			ip.simple(fr, scratch, in)
		case *ssa.Next:
			return ip.nextDecided(scratch, x)
		default:
			return -1
		}
	}
	c, ok := scratch.env[iff.Cond]
	if !ok {
		if cc, ok := iff.Cond.(*ssa.Const); ok {
			c = constV(cc)
		} else {
			return -1
		}
	}
	if b, ok := isBoolConst(c); ok {
		switch iff.Cond.(type) {
		case *ssa.Const:
			return -1 // for {}: generic
		case *ssa.Phi, *ssa.Extract:
			if x, isX := iff.Cond.(*ssa.Extract); isX {
				if _, isN := x.Tuple.(*ssa.Next); isN {
					return b2i(b)
				}
			}
			return -1 // a flag, known on this path only
		}
		return b2i(b)
	}
	return -1
}

func (ip *Interp) nextDecided(ps *PS, x *ssa.Next) int {
	it, ok := ps.env[x.Iter].(*Term)
	if !ok {
		return -1
	}
	if it.Op == "iter" {
		if mv, ok := it.Args[0].(*MapV); ok {
			if mm, ok := ps.st.get(mv.Obj).(*MapVal); ok && mm.Base == nil {
				return 1
			}
			return -1
		}
		if c, ok := it.Args[0].(*Const); ok && c.C == nil {
			return 0
		}
		if _, ok := isStrConst(it.Args[0]); ok {
			return 1
		}
	}
	return -1
}

func (ip *Interp) loopKey(fr *Frame, h *ssa.BasicBlock, ps *PS) string {
	// name the loop by what it ranges over when that can be seen in the
	// header condition; else by position.
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	key := ""
	if ok {
		if b, ok := iff.Cond.(*ssa.BinOp); ok {
			var lim ssa.Value
			switch b.Op {
			case token.LSS:
				lim = b.Y
			case token.GTR:
				lim = b.X
			}
			if lim != nil {
				if v, ok := ps.env[lim]; ok {
					key = v.K()
				} else if c, ok := lim.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if v, ok := ps.env[c.Call.Args[0]]; ok {
							key = lenOf(v, ps.st).K()
						} else if u, ok := c.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
							scratch := ps.clone()
							for _, in := range h.Instrs {
								switch in.(type) {
								case *ssa.UnOp, *ssa.FieldAddr, *ssa.Field:
									ip.simple(fr, scratch, in)
								}
							}
							if v, ok := scratch.env[u]; ok {
								key = lenOf(v, ps.st).K()
							}
						}
					}
				}
			}
		}
		if e, ok := iff.Cond.(*ssa.Extract); ok {
			if nx, ok := e.Tuple.(*ssa.Next); ok {
				if v, ok := ps.env[nx.Iter]; ok {
					key = v.K()
				}
			}
		}
	}
	if key == "" {
		key = "@" + ip.p.short(fr.fn) + fmt.Sprintf(".%d", h.Index)
	}
	return key
}

func (ip *Interp) genericLoop(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ps *PS, outs *[]Outcome) []edgeState {
	key := ip.loopKey(fr, h, ps)
	if k := ip.active[key]; k > 0 {
		ip.active[key] = k + 1
		defer func() { ip.active[key] = k }()
		key = fmt.Sprintf("%s'%d", key, k)
	} else {
		ip.active[key] = 1
		k0 := key
		defer func() { delete(ip.active, k0) }()
	}
	var entry *PS
	if ip.PeelExit {
		entry = ps.clone()
	}
	ps = ps.clone()
	// forget what an earlier run of the same loop said about its iteration
	ps.st.facts = ps.st.facts.without("#" + key + "#")
	li := &LoopInfo{Key: key, Pos: blockPos(h), Fn: fr.fn}
	// havoc the loop-carried SSA values
	type phiW struct {
		phi *ssa.Phi
		v0  V
	}
	var phis []phiW
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phiW{ph, ps.env[ph]})
	}
	hix := map[*ssa.Phi]V{}
	for _, pw := range phis {
		v := ip.phiHavoc(fr, h, body, pw.phi, pw.v0, key, ps)
		hix[pw.phi] = v
	}
	head := ps
	for ph, v := range hix {
		if v != nil {
			head.env[ph] = v
		}
	}
	for iter := 0; iter < 12; iter++ {
		var louts []Outcome
		li.Items = map[string][]V{}
		for k, l := range li.Init {
			li.Items[k] = append([]V(nil), l...)
		}
		inits := make(map[string]V, len(head.st.inits)+len(phis))
		for k, v := range head.st.inits {
			inits[k] = v
		}
		for _, pw := range phis {
			if hv := head.env[pw.phi]; hv != nil && pw.v0 != nil && hv.K() != pw.v0.K() {
				inits[hv.K()] = pw.v0
			}
		}
		head.st.inits = inits
		start := head.clone()
		back, exits := ip.region(fr, h, body, []edgeState{{h, start}}, &louts)
		changed := false
		head0 := head.clone()
		for _, b := range back {
			for _, pw := range phis {
				if hix[pw.phi] != nil {
					continue
				}
				nv := b.env[pw.phi]
				if nv == nil {
					continue
				}
				nm := pw.phi.Comment
				if nm == "" {
					nm = pw.phi.Name()
				}
				if n, ch := ip.widenV(head0.env[pw.phi], nv, "#"+key+"#"+nm, li, b.st, pw.phi.Type()); ch {
					head.env[pw.phi] = joinW(head0.env[pw.phi], head.env[pw.phi], n)
					changed = true
				}
			}
			if ip.widenState(head0.st, head.st, b.st, key, li) {
				changed = true
			}
		}
		if !changed {
			lm := &LoopMeta{Key: key, Pos: li.Pos, Fn: fr.fn, Start: -1, Init: map[string]V{}}
			for _, pw := range phis {
				if hv := head0.env[pw.phi]; hv != nil && pw.v0 != nil {
					lm.Init[hv.K()] = pw.v0
				}
			}
			for _, pw := range phis {
				if hix[pw.phi] != nil {
					lm.HasIx = true
					if _, c0, ok := lin(pw.v0); ok && isIntC(pw.v0) {
						lm.Start = c0
						if _, n, _ := lin(hix[pw.phi]); n == -1 {
							lm.Start++
						}
					}
				}
			}
			for b := range body {
				for _, s := range b.Succs {
					if b != h && !body[s] {
						lm.Early = true
					}
				}
			}
			lm.Early = lm.Early || len(louts) > 0
			for _, b := range back {
				be := &BackEdge{St: b.st, Head: head0.st, Carry: map[string]V{}}
				for _, pw := range phis {
					if hv := head0.env[pw.phi]; hv != nil {
						be.Carry[hv.K()] = b.env[pw.phi]
					}
				}
				lm.Back = append(lm.Back, be)
			}
			if ip.Loops == nil {
				ip.Loops = map[string]*LoopMeta{}
			}
			if o := ip.Loops[key]; o != nil && o.Fn == lm.Fn {
				lm.Back = append(o.Back[:len(o.Back):len(o.Back)], lm.Back...)
			}
			ip.Loops[key] = lm
			ip.AllLoops = append(ip.AllLoops, lm)
			if ip.PeelExit {
				louts = nil
				_, exits = ip.region(fr, h, body, []edgeState{{h, entry}}, &louts)
				for _, b := range back {
					_, ex := ip.region(fr, h, body, []edgeState{{h, b.clone()}}, &louts)
					exits = append(exits, ex...)
				}
			}
			for _, e := range exits {
				ip.closeLoop(e.ps, li)
			}
			for i := range louts {
				p := &PS{louts[i].St, map[ssa.Value]V{}}
				ip.closeLoop(p, li)
				for j := range louts[i].Ret {
					louts[i].Ret[j] = li.subst(louts[i].Ret[j])
				}
			}
			*outs = append(*outs, louts...)
			return exits
		}
	}
	panic(budgetErr{"loop does not stabilise at " + ip.p.pos(blockPos(h)) + " in " + ip.p.short(fr.fn)})
}

// subst replaces the repetition markers of this loop by terms that carry the
// alternatives of one iteration.
func (li *LoopInfo) subst(v V) V {
	if len(li.Items) == 0 {
		return v
	}
	return mapV(v, func(x V) V {
		t, ok := x.(*Term)
		if !ok || len(t.Args) > 0 || (!strings.HasPrefix(t.Op, "rep#") && !strings.HasPrefix(t.Op, "seq#")) {
			return nil
		}
		items, ok := li.Items[t.Op]
		if !ok {
			return nil
		}
		return mkTerm(t.T, t.Op[:3], append([]V{cStr(t.Op[3:])}, items...)...)
	})
}

func (ip *Interp) closeLoop(ps *PS, li *LoopInfo) {
	if len(li.Items) == 0 {
		return
	}
	for k, v := range ps.env {
		ps.env[k] = li.subst(v)
	}
	st := ps.st
	for k, v := range st.heap {
		st.heap[k] = li.subst(v)
	}
	for k, v := range st.streams {
		st.streams[k] = li.subst(v)
	}
	for k, v := range st.marks {
		st.marks[k] = li.subst(v)
	}
	for k, e := range st.sym {
		st.sym[k] = symEnt{e.addr, li.subst(e.v)}
	}
	for i := range st.tr {
		var as []V
		for _, a := range st.tr[i].Args {
			as = append(as, li.subst(a))
		}
		st.tr[i].Args = as
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// phiHavoc names integer induction variables; nil leaves the phi to the
// widening.
func (ip *Interp) phiHavoc(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ph *ssa.Phi, v0 V, key string, ps *PS) V {
	if !isIntType(ph.Type()) {
		return nil
	}
	step := int64(0)
	for i, pr := range h.Preds {
		if !body[pr] {
			continue
		}
		e := ph.Edges[i]
		if e == ph {
			return nil // a counter that some rounds leave as it is
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ph || (bo.Op != token.ADD && bo.Op != token.SUB) {
			return nil
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		n, ok := constant.Int64Val(c.Value)
		if !ok {
			return nil
		}
		if bo.Op == token.SUB {
			n = -n
		}
		if step != 0 && step != n {
			return nil
		}
		step = n
	}
	if step != 1 {
		return nil
	}
	lb, c0, ok := lin(v0)
	if !ok {
		return nil
	}
	ix := mkTerm(ph.Type(), "ix#"+key+"#")
	f := ps.st.facts.clone()
	if lb == nil {
		// index term is the offset from the first iteration, shifted so
		// that a -1 start (range loops) and a 0 start coincide
		if c0 == -1 {
			f.iv[ix.K()] = ival{lo: 0, hi: maxI}
			f.at[ix.K()] = ix
			ps.st.facts = f
			return mkAdd(ph.Type(), ix, -1)
		}
		if c0 != 0 && ph.Comment != "" {
			// kept apart from the variables that count from 0
			ix = mkTerm(ph.Type(), "ix#"+key+"#"+ph.Comment)
		}
		f.iv[ix.K()] = ival{lo: c0, hi: maxI}
		f.at[ix.K()] = ix
		ps.st.facts = f
		return ix
	}
	return mkTerm(ph.Type(), "ix#"+key+"#"+ph.Comment)
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// textSuffix returns what to has beyond the prefix from (nil, false when from
// is not a prefix).
func textSuffix(from, to V) (V, bool) {
	fp, tp := parts(from), parts(to)
	if len(tp) < len(fp) {
		return nil, false
	}
	for i := range fp {
		if fp[i].K() == tp[i].K() {
			continue
		}
		a, oka := isStrConst(fp[i])
		b, okb := isStrConst(tp[i])
		if i == len(fp)-1 && oka && okb && strings.HasPrefix(b, a) {
			rest := append([]V{cStr(b[len(a):])}, tp[i+1:]...)
			return mkCat(rest...), true
		}
		return nil, false
	}
	return mkCat(tp[len(fp):]...), true
}

func (ip *Interp) addItem(li *LoopInfo, what string, v V, st *State) {
	ai := ip.Alts[v.K()]
	if ai == nil {
		ip.Alts[v.K()] = &AltInfo{Facts: st.facts, Marks: st.marks, Fn: li.Fn, Pos: li.Pos}
	} else {
		ai.Facts = ai.Facts.meet(st.facts)
		m := map[string]V{}
		for k, x := range ai.Marks {
			if y, ok := st.marks[k]; ok && y.K() == x.K() {
				m[k] = x
			}
		}
		ai.Marks = m
	}
	for _, o := range li.Items[what] {
		if o.K() == v.K() {
			return
		}
	}
	li.Items[what] = append(li.Items[what], v)
}

func (li *LoopInfo) addInit(what string, v V) {
	if li.Init == nil {
		li.Init = map[string][]V{}
	}
	for _, o := range li.Init[what] {
		if o.K() == v.K() {
			return
		}
	}
	li.Init[what] = append(li.Init[what], v)
}

func isText(v V) bool {
	switch v := v.(type) {
	case *Cat:
		return true
	case *Const:
		return v.C != nil && v.C.Kind() == constant.String
	case *Term:
		return v.T != nil && (isStringType(v.T) || isByteSlice(v.T))
	}
	return false
}

// widenV generalises from so that it also covers to (the value one iteration
// later); reports whether from had to change.
func (ip *Interp) widenV(from, to V, rk string, li *LoopInfo, st *State, t types.Type) (V, bool) {
	if from.K() == to.K() {
		return from, false
	}
	if isText(from) && isText(to) {
		rep := mkTerm(types.Typ[types.String], "rep"+rk)
		lv := mkTerm(types.Typ[types.String], "lv"+rk)
		if from.K() == lv.K() {
			return from, false
		}
		if suf, ok := textSuffix(from, to); ok {
			fp := parts(from)
			if len(fp) > 0 && fp[len(fp)-1].K() == rep.K() {
				ip.addItem(li, rep.Op, suf, st)
				return from, false // covered by the repetition
			}
			return mkCat(from, rep), true
		}
		if debugWiden {
			fmt.Println("WIDEN", from.K(), "->", to.K())
		}
		return lv, true
	}
	switch fs := from.(type) {
	case *SeqV:
		if ts, ok := to.(*SeqV); ok {
			base := mkTerm(types.NewSlice(fs.T), "seq"+rk)
			pre := len(ts.E) >= len(fs.E)
			if pre {
				if (fs.Base == nil) != (ts.Base == nil) || (fs.Base != nil && fs.Base.K() != ts.Base.K()) {
					pre = false
				}
				for i := range fs.E {
					if pre && fs.E[i].K() != ts.E[i].K() {
						pre = false
					}
				}
			}
			if pre {
				for _, e := range ts.E[len(fs.E):] {
					ip.addItem(li, base.Op, e, st)
				}
			}
			if fs.Base != nil && fs.Base.K() == base.K() && len(fs.E) == 0 {
				if !pre {
					ip.addItem(li, base.Op, mkTerm(fs.T, "lv"+rk), st)
				}
				return from, false
			}
			// what was there before the loop is one more source
			if fs.Base != nil {
				li.addInit(base.Op, mkTerm(fs.T, "elemof", fs.Base))
			}
			for _, e := range fs.E {
				li.addInit(base.Op, e)
			}
			return &SeqV{Base: base, T: fs.T}, true
		}
	case *MapVal:
		if tm, ok := to.(*MapVal); ok {
			base := mkTerm(nil, "seq"+rk)
			for i := range tm.Ks {
				ip.addItem(li, base.Op, &TupleV{[]V{tm.Ks[i], tm.Vs[i]}}, st)
			}
			if fs.Base != nil && fs.Base.K() == base.K() && len(fs.Ks) == 0 {
				return from, false
			}
			return &MapVal{Base: base}, true
		}
	case *StructV:
		if ts, ok := to.(*StructV); ok && len(fs.F) == len(ts.F) {
			ns := &StructV{T: fs.T, F: append([]V(nil), fs.F...)}
			ch := false
			stt, _ := fs.T.Underlying().(*types.Struct)
			for i := range fs.F {
				if n, c := ip.widenV(fs.F[i], ts.F[i], rk+"."+stt.Field(i).Name(), li, st, stt.Field(i).Type()); c {
					ns.F[i] = n
					ch = true
				}
			}
			if !ch {
				return from, false
			}
			return ns, true
		}
	case *SliceV, *Ptr, *MapV:
	}
	if t == nil {
		t = typeOf(from)
	}
	if t == nil {
		t = typeOf(to)
	}
	if sf, ok := from.(*SliceV); ok {
		// a slice variable re-assigned by append: generalise its content
		if sq, ok := st.get(sf.Obj).(*SeqV); ok {
			var ts *SeqV
			switch x := to.(type) {
			case *SliceV:
				ts, _ = st.get(x.Obj).(*SeqV)
			}
			if ts != nil {
				base := mkTerm(sf.T, "seq"+rk)
				if sq.Base != nil {
					li.addInit(base.Op, mkTerm(sq.T, "elemof", sq.Base))
				}
				for _, e := range sq.E {
					li.addInit(base.Op, e)
				}
				return base, true
			}
		}
	}
	if tf, ok := from.(*Term); ok && strings.HasPrefix(tf.Op, "seq"+rk) && len(tf.Args) == 0 {
		if x, ok := to.(*SliceV); ok {
			if ts, ok := st.get(x.Obj).(*SeqV); ok && ts.Base != nil && ts.Base.K() == tf.K() {
				for _, e := range ts.E {
					ip.addItem(li, tf.Op, e, st)
				}
				return from, false
			}
		}
		ip.addItem(li, tf.Op, mkTerm(nil, "lv"+rk), st)
		return from, false
	}
	if _, isNil := from.(*Const); isNil && isNilConst(from) && t != nil {
		if _, isSl := t.Underlying().(*types.Slice); isSl && !isByteSlice(t) {
			if x, ok := to.(*SliceV); ok {
				if ts, ok := st.get(x.Obj).(*SeqV); ok && ts.Base == nil {
					base := mkTerm(t, "seq"+rk)
					for _, e := range ts.E {
						ip.addItem(li, base.Op, e, st)
					}
					return base, true
				}
			}
		}
	}
	lv := mkTerm(t, "lv"+rk)
	if from.K() == lv.K() {
		return from, false
	}
	return lv, true
}

// joinW combines two generalisations of the same old value.
func joinW(old, cur, n V) V {
	if cur == nil || cur.K() == old.K() || cur.K() == n.K() {
		return n
	}
	if isLV(cur) {
		return cur
	}
	if a, ok := cur.(*StructV); ok {
		if b, ok := n.(*StructV); ok {
			if o, ok := old.(*StructV); ok && len(a.F) == len(b.F) && len(o.F) == len(a.F) {
				r := &StructV{T: a.T}
				for i := range a.F {
					r.F = append(r.F, joinW(o.F[i], a.F[i], b.F[i]))
				}
				return r
			}
		}
	}
	if n.K() == old.K() {
		return cur
	}
	return n
}

func isLV(v V) bool {
	t, ok := v.(*Term)
	return ok && strings.HasPrefix(t.Op, "lv#")
}

// widenState generalises head so that it covers st; reports a change.
func (ip *Interp) widenState(head0, head, st *State, key string, li *LoopInfo) bool {
	changed := false
	wv := func(what string, from, to V) (V, bool) {
		return ip.widenV(from, to, "#"+key+"#"+what, li, st, nil)
	}
	var ids []int
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		v := st.heap[id]
		if id >= head.next { // allocated by the iteration
			continue
		}
		hv := head0.get(id)
		if hv == nil {
			continue
		}
		if n, ch := wv(fmt.Sprintf("h%d", id), hv, v); ch {
			head.heap[id] = joinW(hv, head.get(id), n)
			changed = true
		}
	}
	for k, v := range st.streams {
		hv, ok := head0.streams[k]
		if !ok {
			hv = cStr("")
			if _, ok := head.streams[k]; !ok {
				head.streams[k] = hv
			}
		}
		if n, ch := wv("w"+k, hv, v); ch {
			head.streams[k] = joinW(hv, head.streams[k], n)
			changed = true
		}
	}
	for k, v := range st.marks {
		if _, ok := head.marks[k]; !ok {
			_ = v
			// marks made by the body hold on later iterations only; keep
			// the head without them (must information)
		}
	}
	for k, e := range st.sym {
		h, ok := head.sym[k]
		if ok && h.v.K() == e.v.K() {
			continue
		}
		// a store inside the loop to an address that mentions the
		// iteration only affects that iteration's element
		if strings.Contains(k, "#"+key+"#") {
			continue
		}
		lv := mkTerm(typeOf(e.v), "lv#"+key+"#s"+k)
		if ok && h.v.K() == lv.K() {
			continue
		}
		head.sym[k] = symEnt{e.addr, lv}
		changed = true
	}
	if st.next > head.next {
		// keep ids allocated in the body apart from later ones
	}
	return changed
}

func (f *Facts) without(sub string) *Facts {
	has := false
	for k := range f.at {
		if strings.Contains(k, sub) {
			has = true
			break
		}
	}
	if !has {
		return f
	}
	g := newFacts()
	for k, v := range f.b {
		if !strings.Contains(k, sub) {
			g.b[k] = v
		}
	}
	for k, v := range f.iv {
		if !strings.Contains(k, sub) {
			g.iv[k] = v
		}
	}
	for k, v := range f.eq {
		if !strings.Contains(k, sub) {
			g.eq[k] = v
		}
	}
	for k, v := range f.at {
		if !strings.Contains(k, sub) {
			g.at[k] = v
		}
	}
	return g
}

var debugWiden = os.Getenv("CFG_DEBUG") != ""

func isIntC(v V) bool { _, ok := isIntConst(v); return ok }
