package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = c02 }

func c02(c *Ctx) {
	c.explain = "For every call in the module that yields an error, all control-flow paths from the call are followed with the error assumed non-nil: each must end in returning a non-nil error, in terminating the process with a failure status, or, for the failures the tool declares non-fatal (pkg-config lookup, host preprocessor query, source formatting), in a logged warning. Path conditions on the error value itself are respected."
	c.Rule("handled: a non-nil error reaches the caller as a non-nil error, or ends the process with a failure status")
	c.Rule("warned: a failure that is tolerated by design is at least logged")
	c.Rule("probe: when every candidate location of a file has been probed without success, the result is a failure")
	c.Rule("recover: no recover() hides a panic")
	ef := &errFlow{c: c}
	for _, fn := range c.Funcs {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					c.Fail("recover", c.short(fn), instrPos(in), "recover() can turn a crash into apparent success")
					continue
				}
				ef.site(fn, ci)
			}
		}
	}
	c.Stat("calls_returning_errors", ef.sites)
	c.Stat("paths_followed", ef.paths)
	c.Stat("exempt_in_memory_writes", ef.exempt)
	c.Floor("handled", 15)
	c.Assume("writing to in-memory buffers and printing diagnostics cannot fail")
	c.Assume("log.Fatal* terminates the process with status 1")
}

type errFlow struct {
	c      *Ctx
	sites  int
	paths  int
	exempt int
}

// errResult gives the index of the error result of a call, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	if isErrorType(sig.Results().At(n - 1).Type()) {
		return n - 1
	}
	return -1
}

// exemptCall: library calls that cannot fail, or whose failure is not one of
// the operations the tool performs for its user.
func exemptCall(ci ssa.CallInstruction) bool {
	n := calleeName(ci.Common())
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "(*bytes.Buffer).", "(*strings.Builder).", "io.WriteString", "errors.New", "fmt.Errorf", "errors.Join", "log.", "(hash.", "(*github.com/dlclark/regexp2.Regexp).MatchString", "strconv.", "path/filepath.Abs", "path/filepath.Rel"} {
		if strings.HasPrefix(n, p) {
			if strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" {
				// to a file it can fail
				if mi, ok := ci.Common().Args[0].(*ssa.MakeInterface); ok && isNamedT(derefT(mi.X.Type()), "os", "File") && !isStdStream(mi.X) {
					return false
				}
			}
			return true
		}
	}
	if ci.Common().IsInvoke() {
		t := types.TypeString(ci.Common().Value.Type(), nil)
		if t == "io.Writer" && ci.Common().Method.Name() == "Write" || strings.HasPrefix(t, "hash.") {
			return true // the generator writes to in-memory buffers
		}
		if ci.Common().Method.Name() == "Error" {
			return true
		}
	}
	return false
}

func isStdStream(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && (g.Name() == "Stderr" || g.Name() == "Stdout")
}

func toleratedCall(n string) bool {
	return strings.Contains(n, "xlab/pkgconfig/pkg") || strings.HasSuffix(n, "tools/imports.Process") || strings.HasPrefix(n, "go/format.") ||
		strings.HasSuffix(n, "hostCppConfig")
}

func probeCall(n string) bool { return n == "os.Stat" || n == "os.Lstat" }

func (ef *errFlow) site(fn *ssa.Function, ci ssa.CallInstruction) {
	c := ef.c
	sig := ci.Common().Signature()
	ei := errResult(sig)
	if ei < 0 {
		return
	}
	if exemptCall(ci) {
		ef.exempt++
		return
	}
	name := calleeName(ci.Common())
	if f := ci.Common().StaticCallee(); f != nil && c.inMod[f] {
		name = c.short(f)
	}
	if name == "dynamic" {
		if fs := c.callees(ci); len(fs) > 0 {
			name = c.short(fs[0])
		} else if pa := calledParam(ci.Common().Value); pa {
			return // a callback supplied by an embedding program, not by the command
		}
	}
	ef.sites++
	c.Fn(fn)
	rule := "handled"
	switch {
	case toleratedCall(name):
		rule = "warned"
	case probeCall(name):
		rule = "probe"
	}
	construct := c.short(fn) + " <- " + name
	v := cValue(ci)
	_, isDefer := ci.(*ssa.Defer)
	_, isGo := ci.(*ssa.Go)
	if v == nil || isDefer || isGo {
		if isDefer && strings.HasSuffix(name, ".Close") && ef.readOnly(ci) {
			return
		}
		c.Fail(rule, construct, instrPos(ci), "the error of %s is discarded", name)
		return
	}
	var errV ssa.Value
	if sig.Results().Len() == 1 {
		errV = v
	} else {
		for _, r := range *v.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == ei {
				errV = ex
			}
		}
	}
	if strings.HasSuffix(name, "os.File).Close") && ef.readOnly(ci) {
		return
	}
	w := &errWalk{ef: ef, fn: fn, site: ci, err: errV, rule: rule, seen: map[string]bool{}}
	idx := 0
	for i, in := range ci.Block().Instrs {
		if in == ci {
			idx = i + 1
		}
	}
	env := &errEnv{nil_: map[ssa.Value]int{}, alias: map[ssa.Value]ssa.Value{}}
	if errV != nil {
		env.nil_[errV] = 1
	}
	// facts that hold whenever the call executes: dominating branches
	ef.dominatingFacts(fn, ci.Block(), env)
	w.walk(ci.Block(), idx, env, false, 0)
	ef.paths += w.n
	msg := strings.Join(w.msgs, "; ")
	c.Obl(rule, construct, instrPos(ci), len(w.msgs) == 0, "when %s fails, %s", name, msg)
}

// dominatingFacts records the nil-ness of errors tested by branches that
// dominate the block.
func (ef *errFlow) dominatingFacts(fn *ssa.Function, blk *ssa.BasicBlock, env *errEnv) {
	for d := blk; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok {
			if v, neq := nilTest(iff.Cond); v != nil {
				isNonNil := (pr.Succs[0] == d) == neq
				if _, ok := env.nil_[v]; !ok {
					if isNonNil {
						env.nil_[v] = 1
					} else {
						env.nil_[v] = -1
					}
				}
			} else {
				ef.tested(iff.Cond, pr.Succs[0] == d, env)
			}
		}
	}
}

// tested: what the answer of a helper says about an error it is given.
func (ef *errFlow) tested(cond ssa.Value, yes bool, env *errEnv) {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		ef.tested(u.X, !yes, env)
		return
	}
	call, ok := cond.(*ssa.Call)
	if !ok {
		return
	}
	f := call.Call.StaticCallee()
	if f == nil || !ef.c.inMod[f] || len(f.Blocks) == 0 || len(f.Params) != len(call.Call.Args) {
		return
	}
	for k, a := range call.Call.Args {
		if !isErrorType(a.Type()) || env.nil_[a] != 0 {
			continue
		}
		for _, st := range []int{1, -1} {
			known := make([]int, len(f.Params))
			known[k] = st
			fits := false
			for _, o := range ef.outcomes(f, known, 1) {
				if len(o.res) != 1 || o.res[0] == 0 || (o.res[0] == 1) == yes {
					fits = true
				}
			}
			if !fits {
				env.nil_[a] = -st
			}
		}
	}
}

func calledParam(v ssa.Value) bool {
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		case *ssa.UnOp:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Index:
			v = x.X
		default:
			return false
		}
	}
	return false
}

func (ef *errFlow) readOnly(ci ssa.CallInstruction) bool {
	if len(ci.Common().Args) == 0 {
		return false
	}
	a := ci.Common().Args[0]
	if ex, ok := a.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok {
			return calleeName(&call.Call) == "os.Open"
		}
	}
	return false
}

func nilTest(v ssa.Value) (ssa.Value, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return nil, false
	}
	if k, ok := b.Y.(*ssa.Const); ok && k.IsNil() && isErrorType(b.X.Type()) {
		return b.X, b.Op == token.NEQ
	}
	if k, ok := b.X.(*ssa.Const); ok && k.IsNil() && isErrorType(b.Y.Type()) {
		return b.Y, b.Op == token.NEQ
	}
	return nil, false
}

type errEnv struct {
	nil_  map[ssa.Value]int // 1 non-nil or true, -1 nil or false
	alias map[ssa.Value]ssa.Value
}

func (e *errEnv) clone() *errEnv {
	n := &errEnv{nil_: map[ssa.Value]int{}, alias: map[ssa.Value]ssa.Value{}}
	for k, v := range e.nil_ {
		n.nil_[k] = v
	}
	for k, v := range e.alias {
		n.alias[k] = v
	}
	return n
}

func (e *errEnv) key() string {
	var s []string
	for k, v := range e.nil_ {
		s = append(s, fmt.Sprintf("%p=%d", k, v))
	}
	for k, v := range e.alias {
		s = append(s, fmt.Sprintf("%p~%p", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (e *errEnv) resolve(v ssa.Value) ssa.Value {
	for d := 0; d < 20; d++ {
		if a, ok := e.alias[v]; ok && a != v {
			v = a
			continue
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := e.alias[u.X]; ok {
				v = a
				continue
			}
		}
		return v
	}
	return v
}

// state of an error value: 1 non-nil, -1 nil, 0 unknown
func (e *errEnv) state(v ssa.Value) int {
	v = e.resolve(v)
	if s, ok := e.nil_[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return -1
		}
	case *ssa.MakeInterface:
		return 1
	case *ssa.Call:
		n := calleeName(&x.Call)
		if n == "errors.New" || n == "fmt.Errorf" {
			return 1
		}
		if strings.Contains(n, "pkg/errors.") && len(x.Call.Args) > 0 {
			return e.state(x.Call.Args[0])
		}
		// a helper of the module that wraps an error it is given
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil {
			if wrapsNonNil(f) {
				return 1
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErrorType(derefT(g.Type())) {
			return 1 // a sentinel error
		}
	}
	return 0
}

// wrapsNonNil: every return of the function is a non-nil error.
func wrapsNonNil(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) == 0 {
				return false
			}
			v := r.Results[len(r.Results)-1]
			if !isErrorType(v.Type()) {
				return false
			}
			env := &errEnv{nil_: map[ssa.Value]int{}, alias: map[ssa.Value]ssa.Value{}}
			switch x := v.(type) {
			case *ssa.MakeInterface:
			case *ssa.Call:
				n := calleeName(&x.Call)
				if n != "errors.New" && n != "fmt.Errorf" {
					return false
				}
			default:
				if env.state(v) != 1 {
					return false
				}
			}
		}
	}
	return true
}

// boolOf: 1 true, -1 false, 0 unknown, from what is known of errors.
func (e *errEnv) boolOf(v ssa.Value, d int) int {
	v = e.resolve(v)
	if s, ok := e.nil_[v]; ok {
		return s
	}
	if d > 6 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 1
			}
			return -1
		}
	case *ssa.BinOp:
		if t, neq := nilTest(x); t != nil {
			s := e.state(t)
			if !neq {
				s = -s
			}
			return s
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return -e.boolOf(x.X, d+1)
		}
	}
	return 0
}

// outcome: one way a helper of the module that is given an error can return.
type outcome struct {
	res    []int
	warned bool
}

// outcomes: how a helper can return, given what is known of the errors it is
// handed; none when it ends the process.
func (ef *errFlow) outcomes(f *ssa.Function, known []int, depth int) []outcome {
	w := &errWalk{ef: ef, fn: f, rule: "collect", seen: map[string]bool{}, collect: map[string]outcome{}, depth: depth}
	env := &errEnv{nil_: map[ssa.Value]int{}, alias: map[ssa.Value]ssa.Value{}}
	for i, p := range f.Params {
		if known[i] != 0 {
			env.nil_[p] = known[i]
		}
	}
	w.walk(f.Blocks[0], 0, env, false, 0)
	var ks []string
	for k := range w.collect {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []outcome
	for _, k := range ks {
		out = append(out, w.collect[k])
	}
	return out
}

// handed: a call of a helper of the module that is given an error of which
// something is known; the path goes on for each way the helper can return.
func (w *errWalk) handed(b *ssa.BasicBlock, i int, ci ssa.CallInstruction, env *errEnv, warned bool, depth int) bool {
	call, ok := ci.(*ssa.Call)
	if !ok || w.depth > 3 {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || !w.ef.c.inMod[f] || len(f.Blocks) == 0 || len(f.Params) != len(call.Call.Args) {
		return false
	}
	known := make([]int, len(f.Params))
	any := false
	for k, a := range call.Call.Args {
		if isErrorType(a.Type()) {
			known[k] = env.state(a)
			any = any || known[k] == 1
		}
	}
	if !any {
		return false
	}
	for _, o := range w.ef.outcomes(f, known, w.depth+1) {
		e2 := env.clone()
		if len(o.res) == 1 {
			if o.res[0] != 0 {
				e2.nil_[call] = o.res[0]
			}
		} else {
			for _, r := range *call.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index < len(o.res) && o.res[ex.Index] != 0 {
					e2.nil_[ex] = o.res[ex.Index]
				}
			}
		}
		w.walk(b, i+1, e2, warned || o.warned, depth+1)
	}
	return true
}

type errWalk struct {
	collect map[string]outcome
	depth   int
	ef      *errFlow
	fn      *ssa.Function
	site    ssa.CallInstruction
	err     ssa.Value
	rule    string
	seen    map[string]bool
	msgs    []string
	n       int
}

func (w *errWalk) bad(s string) {
	for _, m := range w.msgs {
		if m == s {
			return
		}
	}
	w.msgs = append(w.msgs, s)
}

// walk follows a path on which the tracked error is non-nil.
func (w *errWalk) walk(b *ssa.BasicBlock, from int, env *errEnv, warned bool, depth int) {
	if w.n > 20000 {
		w.bad("the number of paths is too large to follow")
		return
	}
	if from == 0 {
		k := fmt.Sprintf("%p|%v|%s", b, warned, env.key())
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	w.n++
	c := w.ef.c
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); ok && isErrorType(x.Val.Type()) {
				env.alias[x.Addr] = env.resolve(x.Val)
			} else if isErrorType(x.Val.Type()) && env.state(x.Val) == 1 {
				if _, ok := x.Addr.(*ssa.FreeVar); ok {
					// handed to the enclosing function through a captured variable:
					// judged where that variable is read
					env.alias[x.Addr] = env.resolve(x.Val)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isErrorType(x.Type()) {
				if a, ok := env.alias[x.X]; ok {
					env.alias[x] = a
				}
			}
		case *ssa.Send:
			if env.state(x.X) == 1 && isErrorType(x.X.Type()) {
				return // handed to another goroutine
			}
		case *ssa.Return:
			w.ret(x, env, warned)
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			v, neq := nilTest(x.Cond)
			if v != nil {
				r := env.resolve(v)
				switch env.state(r) {
				case 1:
					w.edge(b, tern(neq, 0, 1), env, warned, depth)
				case -1:
					w.edge(b, tern(neq, 1, 0), env, warned, depth)
				default:
					for k := 0; k < 2; k++ {
						e2 := env.clone()
						if (k == 0) == neq {
							e2.nil_[r] = 1
						} else {
							e2.nil_[r] = -1
						}
						w.edge(b, k, e2, warned, depth)
					}
				}
				return
			}
			switch env.boolOf(x.Cond, 0) {
			case 1:
				w.edge(b, 0, env, warned, depth)
				return
			case -1:
				w.edge(b, 1, env, warned, depth)
				return
			}
			w.edge(b, 0, env.clone(), warned, depth)
			w.edge(b, 1, env, warned, depth)
			return
		case *ssa.Jump:
			w.edge(b, 0, env, warned, depth)
			return
		case ssa.CallInstruction:
			if x == w.site {
				if w.rule == "warned" && warned {
					return
				}
				if w.rule == "probe" {
					return
				}
				w.bad("the failure is passed over and the loop goes on (" + c.pos(instrPos(in)) + ")")
				return
			}
			n := calleeName(x.Common())
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
			if w.handed(b, i, x, env, warned, depth) {
				return
			}
			switch {
			case strings.HasPrefix(n, "log.Fatal"), strings.HasPrefix(n, "log.Panic"):
				return
			case n == "os.Exit":
				if k, ok := x.Common().Args[0].(*ssa.Const); ok && k.Value != nil && k.Int64() != 0 {
					return
				}
				w.bad("the process exits with a success status (" + c.pos(instrPos(in)) + ")")
				return
			case strings.HasPrefix(n, "log.Print"), n == "log.Output":
				warned = true
			case w.rule == "probe" && probeCall(n):
				return // the next candidate's turn
			case noReturn(c.Program, x):
				return
			case w.rule == "warned" && c.warns(x):
				warned = true
			}
			// another call of an error-returning helper that probes further
			if w.rule == "probe" {
				if f := x.Common().StaticCallee(); f != nil && c.inMod[f] && errResult(f.Signature) >= 0 && c.callsProbe(f) {
					return
				}
			}
		}
	}
}

func tern(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

// noReturn: a module function that always ends the process.
func noReturn(p *Program, ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()
	if f == nil || !p.inMod[f] || f.Blocks == nil {
		return false
	}
	any := false
	for _, b := range f.Blocks {
		last := b.Instrs[len(b.Instrs)-1]
		if _, ok := last.(*ssa.Return); ok {
			// it must be preceded by a fatal call in the same block
			fatal := false
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					n := calleeName(&c.Call)
					if strings.HasPrefix(n, "log.Fatal") {
						fatal = true
					}
					if n == "os.Exit" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Int64() != 0 {
							fatal = true
						}
					}
				}
			}
			if !fatal {
				return false
			}
			any = true
		}
	}
	return any
}

// warns: a module helper that logs.
func (c *Ctx) warns(ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()
	if f == nil || !c.inMod[f] || f.Blocks == nil {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if x, ok := in.(*ssa.Call); ok && strings.HasPrefix(calleeName(&x.Call), "log.Print") {
			return true
		}
	}
	return false
}

func (c *Ctx) callsProbe(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && probeCall(calleeName(ci.Common())) {
				return true
			}
		}
	}
	return false
}

func (w *errWalk) edge(b *ssa.BasicBlock, k int, env *errEnv, warned bool, depth int) {
	s := b.Succs[k]
	// phis take the value of this edge
	pi := -1
	for i, p := range s.Preds {
		if p == b {
			pi = i
		}
	}
	e2 := env.clone()
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isErrorType(ph.Type()) {
			e2.alias[ph] = env.resolve(ph.Edges[pi])
		}
		if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			e2.alias[ph] = env.resolve(ph.Edges[pi])
		}
	}
	w.walk(s, 0, e2, warned, depth+1)
}

func (w *errWalk) ret(r *ssa.Return, env *errEnv, warned bool) {
	c := w.ef.c
	n := len(r.Results)
	if w.collect != nil {
		o := outcome{warned: warned}
		for _, v := range r.Results {
			s := 0
			if isErrorType(v.Type()) {
				s = env.state(v)
			} else if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				s = env.boolOf(v, 0)
			}
			o.res = append(o.res, s)
		}
		w.collect[fmt.Sprint(o)] = o
		return
	}
	if n > 0 && isErrorType(r.Results[n-1].Type()) {
		if env.state(r.Results[n-1]) == 1 {
			return
		}
	} else if n > 0 {
		// no error result: an explicit "not ok"
		if k, ok := env.resolve(r.Results[n-1]).(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
			return
		}
	}
	if w.rule == "warned" && warned {
		return
	}
	where := c.pos(instrPos(r))
	if n > 0 && isErrorType(r.Results[n-1].Type()) {
		w.bad(c.short(w.fn) + " can still return without an error (" + where + ")")
	} else {
		w.bad(c.short(w.fn) + " goes on as if it had succeeded (" + where + ")")
	}
}
