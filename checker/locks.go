package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock typestate: which locks are held, on every path, where fields next to a
// mutex are used.

func lockType(t types.Type) bool {
	t = derefT(t)
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

// lockField: the field of a struct that is a lock, -1 if none.
func lockField(t types.Type) int {
	st, ok := derefT(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	if n := namedOf(derefT(t)); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if lockType(st.Field(i).Type()) {
			return i
		}
	}
	return -1
}

func holdsLock(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return false
	}
	if lockType(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsLock(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return holdsLock(u.Elem())
	}
	return false
}

type lockFlow struct {
	p       *Program
	report  func(kind, construct string, pos token.Pos, ok bool, msg string)
	callees func(c ssa.CallInstruction) []*ssa.Function
	owned   func(f *ssa.Function) bool
	name    func(f *ssa.Function) string
	touch   map[*ssa.Function]bool
	memo    map[string][]lockState
	busy    map[string]bool
	ran     map[*ssa.Function]bool
	access  map[string]bool // distinct access sites
}

// lockState: locks held ("r"/"w" per lock), fields read in the current and in
// earlier sections, fresh objects published under a guard.
type lockState struct {
	held map[string]string
	mark map[string]string
	defs []ssa.CallInstruction
}

func (s lockState) clone() lockState {
	n := lockState{held: map[string]string{}, mark: map[string]string{}, defs: append([]ssa.CallInstruction(nil), s.defs...)}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.mark {
		n.mark[k] = v
	}
	return n
}

func (s lockState) key() string {
	var b strings.Builder
	for _, k := range sortedStr(s.held) {
		b.WriteString(k + "=" + s.held[k] + ";")
	}
	b.WriteString("|")
	for _, k := range sortedStr(s.mark) {
		b.WriteString(k + "=" + s.mark[k] + ";")
	}
	for _, d := range s.defs {
		fmt.Fprintf(&b, "|%p", d)
	}
	return b.String()
}

func sortedStr(m map[string]string) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type lockEnv struct {
	fn  *ssa.Function
	val map[ssa.Value]string
	fns map[ssa.Value]closureIn
}

// closureIn: a function value and where what it captures has its names.
type closureIn struct {
	mc  *ssa.MakeClosure
	env *lockEnv
}

func (lf *lockFlow) closure(v ssa.Value, env *lockEnv, st lockState, d int) (closureIn, bool) {
	if d > 6 {
		return closureIn{}, false
	}
	if c, ok := env.fns[v]; ok {
		return c, true
	}
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return closureIn{v, env}, true
	case *ssa.ChangeType:
		return lf.closure(v.X, env, st, d+1)
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			if s := onlyStore(a); s != nil {
				return lf.closure(s, env, st, d+1)
			}
		}
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || !lf.touch[g] && len(g.AnonFuncs) == 0 {
			break
		}
		var mc *ssa.MakeClosure
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 {
					return closureIn{}, false
				}
				m, ok := r.Results[0].(*ssa.MakeClosure)
				if !ok || mc != nil && m != mc {
					return closureIn{}, false
				}
				mc = m
			}
		}
		if mc != nil {
			var own *ssa.MakeClosure
			if m, ok := v.Call.Value.(*ssa.MakeClosure); ok {
				own = m
			}
			return closureIn{mc, lf.bind(env, st, g, v.Call.Args, own)}, true
		}
	}
	return closureIn{}, false
}

// key names a place: where a value was loaded from, or which field it is.
func (e *lockEnv) key(v ssa.Value, d int) string {
	if d > 20 {
		return "?"
	}
	if k, ok := e.val[v]; ok {
		return k
	}
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return v.Name()
	case *ssa.Global:
		return "global " + v.Name()
	case *ssa.FieldAddr:
		return e.key(v.X, d+1) + "." + derefT(v.X.Type()).Underlying().(*types.Struct).Field(v.Field).Name()
	case *ssa.IndexAddr:
		return e.key(v.X, d+1) + "[]"
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					return e.key(s, d+1)
				}
			}
			if f, ok := v.X.(*ssa.FreeVar); ok {
				if k, ok := e.val[f]; ok && strings.HasPrefix(k, "&") {
					return k[1:]
				}
			}
			return "*" + e.key(v.X, d+1)
		}
	case *ssa.Alloc:
		if s := onlyStore(v); s != nil {
			return "&" + e.key(s, d+1)
		}
	case *ssa.ChangeType:
		return e.key(v.X, d+1)
	case *ssa.MakeInterface:
		return e.key(v.X, d+1)
	case *ssa.Phi:
		k := ""
		for _, x := range v.Edges {
			if x == v {
				continue
			}
			n := e.key(x, d+5)
			if k != "" && n != k {
				return e.fn.Name() + "/" + v.Name()
			}
			k = n
		}
		return k
	}
	return e.fn.Name() + "/" + v.Name()
}

func onlyStore(a *ssa.Alloc) ssa.Value {
	var got ssa.Value
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if got != nil && got != s.Val {
				return nil
			}
			got = s.Val
		}
	}
	return got
}

// guard of a value or address: the lock next to the field it is (part of) the
// content of.
func (e *lockEnv) guard(v ssa.Value, st lockState, d int) (lock, field string) {
	if d > 20 {
		return "", ""
	}
	if k, ok := e.val[v]; ok && strings.Contains(k, "\x00") {
		parts := strings.Split(k, "\x00")
		return parts[1], parts[2]
	}
	if k, ok := st.mark["pub:"+e.fn.Name()+"/"+v.Name()]; ok {
		parts := strings.Split(k, "\x00")
		return parts[0], parts[1]
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		i := lockField(v.X.Type())
		if i >= 0 && v.Field != i {
			if a, ok := v.X.(*ssa.Alloc); ok && onlyStore(a) == nil && !published(a) {
				return "", "" // not shared yet
			}
			s := derefT(v.X.Type()).Underlying().(*types.Struct)
			lk := s.Field(i)
			n := e.key(v.X, 0) + "." + lk.Name()
			if _, ptr := lk.Type().(*types.Pointer); ptr {
				n = "*" + n
			}
			return n, structName(v.X.Type()) + "." + s.Field(v.Field).Name()
		}
		return e.guard(v.X, st, d+1)
	case *ssa.IndexAddr:
		return e.guard(v.X, st, d+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					return e.guard(s, st, d+1)
				}
			}
			if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
				return "", "" // another object
			}
			switch v.Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				return e.guard(v.X, st, d+1)
			}
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			if x == v {
				continue
			}
			if l, f := e.guard(x, st, d+5); l != "" {
				return l, f
			}
		}
	case *ssa.ChangeType:
		return e.guard(v.X, st, d+1)
	case *ssa.Slice:
		return e.guard(v.X, st, d+1)
	case *ssa.Range:
		return e.guard(v.X, st, d+1)
	}
	return "", ""
}

// published: a local object whose address leaves other than by a return.
func published(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Store:
			if r.Val == a {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (lf *lockFlow) lockOp(c *ssa.CallCommon) (op string, on ssa.Value) {
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(c.Args) == 0 {
		return "", nil
	}
	if !lockType(f.Signature.Recv().Type()) {
		return "", nil
	}
	return f.Name(), c.Args[0]
}

// directTouch: the function uses a lock or a guarded field.
func (lf *lockFlow) directTouch(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if lockField(in.X.Type()) >= 0 {
					return true
				}
			case ssa.CallInstruction:
				if op, _ := lf.lockOp(in.Common()); op != "" {
					return true
				}
			}
		}
	}
	return false
}

func (lf *lockFlow) prepare(fns []*ssa.Function) {
	lf.touch = map[*ssa.Function]bool{}
	lf.memo = map[string][]lockState{}
	lf.busy = map[string]bool{}
	lf.ran = map[*ssa.Function]bool{}
	lf.access = map[string]bool{}
	for _, f := range fns {
		if lf.directTouch(f) {
			lf.touch[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range fns {
			if lf.touch[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && lf.touch[mc.Fn.(*ssa.Function)] {
						lf.touch[f], again = true, true
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, g := range lf.callees(c) {
							if lf.touch[g] {
								lf.touch[f], again = true, true
							}
						}
					}
				}
			}
		}
	}
}

func (lf *lockFlow) exec(f *ssa.Function, env *lockEnv, entry lockState) []lockState {
	mk := fmt.Sprintf("%p|", f) + entry.key()
	var names []string
	for v, k := range env.val {
		names = append(names, v.Name()+"="+k)
	}
	for v, cl := range env.fns {
		names = append(names, fmt.Sprintf("%s=%p/%s", v.Name(), cl.mc, envKey(cl.env)))
	}
	sort.Strings(names)
	mk += strings.Join(names, ",")
	if out, ok := lf.memo[mk]; ok {
		return out
	}
	if lf.busy[mk] {
		return []lockState{entry}
	}
	lf.busy[mk] = true
	defer delete(lf.busy, mk)
	lf.ran[f] = true
	seen := map[string]bool{}
	outs := map[string]lockState{}
	type item struct {
		b  *ssa.BasicBlock
		st lockState
	}
	start := entry.clone()
	start.defs = nil
	work := []item{{f.Blocks[0], start}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprint(it.b.Index) + "#" + it.st.key()
		if seen[k] || len(seen) > 4000 {
			continue
		}
		seen[k] = true
		states := []lockState{it.st.clone()}
		for _, in := range it.b.Instrs {
			var next []lockState
			for _, s := range states {
				next = append(next, lf.instr(f, env, s, in)...)
			}
			states = next
		}
		if len(it.b.Succs) == 0 {
			if _, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.Return); ok {
				for _, s := range states {
					s.defs = nil
					for k := range s.mark {
						if strings.HasPrefix(k, "pub:") {
							delete(s.mark, k)
						}
					}
					outs[s.key()] = s
				}
			}
			continue
		}
		for _, s := range states {
			for _, n := range it.b.Succs {
				work = append(work, item{n, s})
			}
		}
	}
	var res []lockState
	keys := []string{}
	for k := range outs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		res = append(res, outs[k])
	}
	lf.memo[mk] = res
	return res
}

func (lf *lockFlow) use(f *ssa.Function, st lockState, lock, field string, write bool, in ssa.Instruction) {
	if lock == "" {
		return
	}
	h := st.held[lock]
	what := "read"
	ok := h != ""
	if write {
		what, ok = "written", h == "w"
	}
	have := "without holding its lock"
	if h == "r" {
		have = "holding its lock for reading only"
	}
	lf.access[fmt.Sprintf("%p", in)] = true
	lf.report("guarded", lf.name(f)+" "+field+" "+what, instrPos(in), ok, field+" is "+what+" "+have)
}

func (lf *lockFlow) instr(f *ssa.Function, env *lockEnv, st lockState, in ssa.Instruction) []lockState {
	one := []lockState{st}
	read := func(v ssa.Value) {
		l, fl := env.guard(v, st, 0)
		lf.use(f, st, l, fl, false, in)
	}
	write := func(v ssa.Value) {
		l, fl := env.guard(v, st, 0)
		lf.use(f, st, l, fl, true, in)
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if l, fl := env.guard(in.X, st, 0); l != "" {
				if a, ok := in.X.(*ssa.Alloc); ok && onlyStore(a) != nil {
					return one
				}
				lf.use(f, st, l, fl, false, in)
				st.mark["now:"+l+" "+fl] = "1"
			}
		}
	case *ssa.Store:
		if l, fl := env.guard(in.Addr, st, 0); l != "" {
			if a, ok := in.Addr.(*ssa.Alloc); ok && onlyStore(a) != nil {
				return one
			}
			lf.use(f, st, l, fl, true, in)
			stale := st.mark["old:"+l+" "+fl] != "" && st.mark["now:"+l+" "+fl] == ""
			lf.report("section", lf.name(f)+" "+fl, instrPos(in), !stale, fl+" is replaced on the strength of a read made before its lock was taken: what was stored in between is lost")
			switch v := in.Val.(type) {
			case *ssa.MakeMap, *ssa.MakeSlice:
				st.mark["pub:"+env.fn.Name()+"/"+v.Name()] = l + "\x00" + fl
			}
		}
	case *ssa.Lookup:
		read(in.X)
	case *ssa.MapUpdate:
		write(in.Map)
	case *ssa.Range:
		read(in.X)
	case *ssa.Next:
		read(in.Iter)
	case *ssa.Return:
		for _, r := range in.Results {
			if l, fl := env.guard(r, st, 0); l != "" {
				switch r.Type().Underlying().(type) {
				case *types.Map, *types.Slice:
					if f.Object() != nil && f.Object().Exported() {
						lf.report("guarded", lf.name(f)+" "+fl+" returned", instrPos(in), false, fl+" itself is handed out, to be used without its lock")
					}
				}
			}
		}
	case *ssa.Go:
		// a goroutine starts without locks
		var gs []*ssa.Function
		if cl, ok := lf.closure(in.Call.Value, env, st, 0); ok {
			gs = []*ssa.Function{cl.mc.Fn.(*ssa.Function)}
		} else {
			gs = lf.callees(in)
		}
		for _, g := range gs {
			if lf.touch[g] {
				lf.root(g)
			}
		}
		return one
	case *ssa.Defer:
		if op, _ := lf.lockOp(&in.Call); op != "" || lf.anyTouch(in) || lf.isClosure(in.Call.Value, env, st) {
			st.defs = append(st.defs, in)
		}
		return []lockState{st}
	case *ssa.RunDefers:
		states := []lockState{st}
		for i := len(st.defs) - 1; i >= 0; i-- {
			var next []lockState
			for _, s := range states {
				next = append(next, lf.call(f, env, s, st.defs[i])...)
			}
			states = next
		}
		return states
	case ssa.CallInstruction:
		return lf.call(f, env, st, in)
	}
	return one
}

func (lf *lockFlow) anyTouch(c ssa.CallInstruction) bool {
	for _, g := range lf.callees(c) {
		if lf.touch[g] {
			return true
		}
	}
	return false
}

func (lf *lockFlow) call(f *ssa.Function, env *lockEnv, st lockState, in ssa.CallInstruction) []lockState {
	cc := in.Common()
	if op, on := lf.lockOp(cc); op != "" {
		st = st.clone()
		k := env.key(on, 0)
		h := st.held[k]
		lbl := lf.name(f) + " " + op
		ok, msg := true, ""
		switch op {
		case "Lock":
			ok, msg = h == "", "the lock is taken while it is held already: this never returns"
			st.held[k] = "w"
		case "RLock":
			ok, msg = h == "", "the lock is taken for reading while it is held already: this can wait forever"
			if h != "w" {
				st.held[k] = "r"
			}
		case "Unlock":
			ok, msg = h == "w", "a lock that is not held for writing is released"
			delete(st.held, k)
		case "RUnlock":
			ok, msg = h == "r", "a lock that is not held for reading is released"
			delete(st.held, k)
		default:
			ok, msg = false, op+" is not covered by this analysis"
		}
		lf.report("balanced", lbl, instrPos(in), ok, msg)
		for m := range st.mark {
			if strings.HasPrefix(m, "now:"+k+" ") {
				if op == "Lock" || op == "RLock" || op == "Unlock" || op == "RUnlock" {
					delete(st.mark, m)
					st.mark["old:"+m[4:]] = "1"
				}
			}
		}
		return []lockState{st}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		for i, a := range cc.Args {
			if l, fl := env.guard(a, st, 0); l != "" {
				w := b.Name() == "delete" || b.Name() == "copy" && i == 0 || b.Name() == "clear"
				lf.use(f, st, l, fl, w, in)
			}
		}
		return []lockState{st}
	}
	if cc.StaticCallee() == nil && !cc.IsInvoke() {
		if cl, ok := lf.closure(cc.Value, env, st, 0); ok {
			g := cl.mc.Fn.(*ssa.Function)
			if !lf.touch[g] {
				return []lockState{st}
			}
			return lf.enter(st, g, lf.bindFrom(env, cl, st, g, cc.Args), true)
		}
	}
	callees := lf.callees(in)
	lib := len(callees) == 0
	if lib {
		// a library function may call the closures it is given
		for _, a := range cc.Args {
			if mc, ok := stripIface(a).(*ssa.MakeClosure); ok && lf.touch[mc.Fn.(*ssa.Function)] {
				lf.inner2(env, st, mc.Fn.(*ssa.Function), nil, mc)
			}
		}
		return []lockState{st}
	}
	var out []lockState
	pass := false
	for _, g := range callees {
		if !lf.touch[g] || len(g.Blocks) == 0 {
			pass = true
			continue
		}
		if cc.StaticCallee() == nil && !cc.IsInvoke() && g.Parent() != nil && closureOf(cc.Value, f) == nil {
			pass = true // resolved by its type only; it is followed where it is made
			continue
		}
		var mc *ssa.MakeClosure
		if m, ok := cc.Value.(*ssa.MakeClosure); ok {
			mc = m
		} else if len(g.FreeVars) > 0 {
			mc = closureOf(cc.Value, f)
		}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		out = append(out, lf.inner2(env, st, g, args, mc)...)
	}
	if pass || len(out) == 0 {
		out = append(out, st)
	}
	return out
}

// bind: places the callee knows by its own names.
func (lf *lockFlow) bind(env *lockEnv, st lockState, g *ssa.Function, args []ssa.Value, mc *ssa.MakeClosure) *lockEnv {
	return lf.bindFrom(env, closureIn{mc, env}, st, g, args)
}

func (lf *lockFlow) bindFrom(env *lockEnv, cl closureIn, st lockState, g *ssa.Function, args []ssa.Value) *lockEnv {
	n := &lockEnv{fn: g, val: map[ssa.Value]string{}, fns: map[ssa.Value]closureIn{}}
	set := func(p, a ssa.Value, env *lockEnv) {
		if !hasPointers(a.Type()) {
			return
		}
		k := env.key(a, 0)
		if l, fl := env.guard(a, st, 0); l != "" {
			k += "\x00" + l + "\x00" + fl
		}
		n.val[p] = k
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			if c, ok := lf.closure(a, env, st, 0); ok {
				n.fns[p] = c
			}
		}
	}
	for i, p := range g.Params {
		if i < len(args) {
			set(p, args[i], env)
		}
	}
	if cl.mc != nil {
		for i, b := range cl.mc.Bindings {
			if i < len(g.FreeVars) {
				set(g.FreeVars[i], b, cl.env)
			}
		}
	}
	return n
}

func (lf *lockFlow) inner2(env *lockEnv, st lockState, g *ssa.Function, args []ssa.Value, mc *ssa.MakeClosure) []lockState {
	return lf.enter(st, g, lf.bind(env, st, g, args, mc), mc != nil)
}

func (lf *lockFlow) enter(st lockState, g *ssa.Function, ne *lockEnv, closure bool) []lockState {
	entry := lockState{held: st.held, mark: st.mark}
	named := len(ne.fns) > 0 || closure
	for _, k := range ne.val {
		if strings.Contains(k, "\x00") {
			named = true
		}
	}
	if len(st.held) == 0 && !named {
		// nothing held: what the callee does is the same under any name
		outs := lf.exec(g, &lockEnv{fn: g, val: map[ssa.Value]string{}}, lockState{held: map[string]string{}, mark: map[string]string{}})
		plain := true
		for _, o := range outs {
			if len(o.held) > 0 {
				plain = false
			}
		}
		if plain && len(outs) > 0 && (g.Object() == nil || g.Object().Exported()) {
			return []lockState{st}
		}
	}
	outs := lf.exec(g, ne, entry)
	var res []lockState
	for _, o := range outs {
		n := o.clone()
		n.defs = st.defs
		res = append(res, n)
	}
	return res
}

// root runs a function as called from outside: it starts and ends without locks.
func (lf *lockFlow) root(f *ssa.Function) {
	if len(f.Blocks) == 0 {
		return
	}
	outs := lf.exec(f, &lockEnv{fn: f, val: map[ssa.Value]string{}}, lockState{held: map[string]string{}, mark: map[string]string{}})
	ok, left := true, ""
	for _, o := range outs {
		for k, m := range o.held {
			ok, left = false, k+" ("+map[string]string{"r": "reading", "w": "writing"}[m]+")"
		}
	}
	lf.report("released", lf.name(f), f.Pos(), ok, "a path ends with the lock "+left+" still held")
}

func envKey(e *lockEnv) string {
	var names []string
	for v, k := range e.val {
		names = append(names, v.Name()+"="+k)
	}
	sort.Strings(names)
	return strings.Join(names, ",")
}

func (lf *lockFlow) isClosure(v ssa.Value, env *lockEnv, st lockState) bool {
	_, ok := lf.closure(v, env, st, 0)
	return ok
}
