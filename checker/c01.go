package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = c01 }

func c01(c *Ctx) {
	c.explain = "Every loop over a map is shown to commute or to feed a collection that is put in a total order before any other use (mod/ref analysis of the loop body and its callees; comparators are evaluated for every combination of key orders). Every other source of variation between runs (clock, random numbers, process identity, addresses printed as text, other goroutines producing helpers) is shown absent or confined to the timestamp line that -nostamp removes."
	c.Rule("map-order: a map iteration writes only per-key locations, commuting updates, or collections later sorted")
	c.Rule("total-order: the comparator used for such a sort distinguishes any two different elements")
	c.Rule("clock/random/process: calls whose result differs between runs do not reach generated text, except the timestamp guarded by the -nostamp switch")
	c.Rule("address: no pointer, function or channel value is converted to text")
	e := c.effects()
	loops := c.mapLoops()
	for _, ml := range loops {
		c.Fn(ml.fn)
		oc := &orderCheck{c: c, e: e, ml: ml}
		oc.run()
		seenAcc := map[string]bool{}
		for _, a := range oc.acc {
			k := fmt.Sprint(a.field, a.cell, a.phi)
			if seenAcc[k] {
				continue
			}
			seenAcc[k] = true
			oc.requireSorted(a)
			c.Stat("collections_filled_in_map_order", 1)
		}
		name := c.short(ml.fn) + " range " + rangeName(ml.rng.X)
		if len(oc.probs) == 0 {
			c.Obl("map-order", name, instrPos(ml.rng), true, "")
		}
		for _, pr := range oc.probs {
			c.Fail("map-order", name, pr.pos, "%s", pr.msg)
		}
	}
	c.Floor("map-order", 3)
	c.otherOrderSources()
	c.clockSources()
	c.addressText()
	c.percentP()
	c.concurrentProducers(e)
	c.Assume("declarations that share file, offset and name are the same declaration, so their relative order is unobservable")
	c.Assume("the C front end, gofmt/goimports and the standard library are deterministic functions of their inputs; the host preprocessor (-ccdefs, -ccincl) is an input")
}

func rangeName(v ssa.Value) string {
	if f := lastField(v); f != "" {
		return f
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Call:
		n := calleeName(&x.Call)
		return n[strings.LastIndex(n, ".")+1:] + "()"
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Name()
		}
	}
	return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

// otherOrderSources: library calls that enumerate maps or races.
func (c *Ctx) otherOrderSources() {
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(ci.Common())
				switch {
				case n == "(*sync.Map).Range", strings.HasPrefix(n, "(reflect.Value).Map"), strings.HasPrefix(n, "maps.Keys"), strings.HasPrefix(n, "maps.Values"), strings.HasPrefix(n, "maps.All"),
					strings.HasPrefix(n, "golang.org/x/exp/maps."):
					c.Fail("map-order", c.short(fn)+" "+n, instrPos(in), "%s enumerates a map in random order", n)
				}
			}
		}
	}
}

var runVarying = []string{"math/rand.", "math/rand/v2.", "crypto/rand.", "os.Getpid", "os.Getppid", "os.Hostname", "os.TempDir", "os.MkdirTemp", "os.CreateTemp",
	"io/ioutil.TempFile", "io/ioutil.TempDir", "runtime.NumGoroutine", "runtime.Caller", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "runtime.Stack",
	"time.Now", "time.Since", "time.Until", "hash/maphash.", "(*hash/maphash.", "os/user.", "debug.ReadBuildInfo", "os.Environ", "os.Getwd"}

func (c *Ctx) clockSources() {
	n := 0
	for _, fn := range c.Funcs {
		pk := ""
		if fn.Pkg != nil {
			pk = fn.Pkg.Pkg.Name()
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeName(ci.Common())
				hit := false
				for _, s := range runVarying {
					if strings.HasPrefix(name, s) {
						hit = true
					}
				}
				if !hit || strings.HasSuffix(name, ".init") {
					continue
				}
				n++
				construct := c.short(fn) + " " + name
				switch {
				case strings.HasPrefix(name, "math/rand.New"):
					// a generator of its own, seeded with a constant
					ok := name == "math/rand.New" || isConstArg(ci.Common().Args)
					if name == "math/rand.New" {
						ok = false
						if s, isC := ci.Common().Args[0].(*ssa.Call); isC && calleeName(&s.Call) == "math/rand.NewSource" && isConstArg(s.Call.Args) {
							ok = true
						}
					}
					c.Obl("random", construct, instrPos(in), ok, "a random number generator is not seeded with a constant: names derived from it change from run to run")
				case strings.HasPrefix(name, "time."):
					if pk == "main" && c.onlyDiagnostics(in) {
						c.Obl("clock", construct, instrPos(in), true, "")
						continue
					}
					c.Obl("clock", construct, instrPos(in), c.guardedByNoStamp(fn, in), "reads the clock into generated text outside the part that -nostamp switches off")
				default:
					c.Fail("random", construct, instrPos(in), "%s gives a different answer in every run", name)
				}
			}
		}
	}
	c.Stat("run_varying_calls", n)
	c.noStampWiring()
}

func isConstArg(args []ssa.Value) bool {
	for _, a := range args {
		if _, ok := a.(*ssa.Const); !ok {
			return false
		}
	}
	return len(args) > 0
}

// onlyDiagnostics: the clock value of the command flows only into text printed
// on the terminal.
func (c *Ctx) onlyDiagnostics(in ssa.Instruction) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				base := r.Addr
				for {
					if ia, k := base.(*ssa.IndexAddr); k {
						base = ia.X
						continue
					}
					break
				}
				if al, k := base.(*ssa.Alloc); !k || !ok(al) {
					return false
				}
			case ssa.CallInstruction:
				n := calleeName(r.Common())
				if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") {
					continue
				}
				if strings.HasPrefix(n, "(time.Time)") || strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "(time.Duration)") {
					if rv, k := r.(ssa.Value); k && !ok(rv) {
						return false
					}
					continue
				}
				// a function of the module that is handed it
				g := r.Common().StaticCallee()
				if g == nil || !c.inMod[g] || len(g.Params) != len(r.Common().Args) {
					return false
				}
				for i, a := range r.Common().Args {
					if a == v && !ok(g.Params[i]) {
						return false
					}
				}
			case *ssa.Return:
				// whoever asked for it
				f := r.Parent()
				if c.usedAsValue(f) {
					return false
				}
				for i, x := range r.Results {
					if x != v {
						continue
					}
					for _, s := range c.callersOf(f) {
						call, isCall := s.(*ssa.Call)
						if !isCall {
							return false
						}
						if len(r.Results) == 1 {
							if !ok(call) {
								return false
							}
							continue
						}
						for _, u := range *call.Referrers() {
							if ex, k := u.(*ssa.Extract); k && ex.Index == i && !ok(ex) {
								return false
							}
						}
					}
				}
			case ssa.Value:
				if !ok(r) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	v, isV := in.(ssa.Value)
	return isV && ok(v)
}

// stampField is the switch DisableTimestamps sets.
func (c *Ctx) stampField() string {
	f := c.fn("generator", "Generator", "DisableTimestamps")
	if f == nil {
		return ""
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
					return lastField(st.Addr) + "=" + k.Value.String()
				}
			}
		}
	}
	return ""
}

// guardedByNoStamp: the instruction only executes when the switch is off.
func (c *Ctx) guardedByNoStamp(fn *ssa.Function, in ssa.Instruction) bool {
	sf := c.stampField()
	if sf == "" {
		return false
	}
	field, onVal, _ := strings.Cut(sf, "=")
	return c.guardedBy(fn, in.Block(), field, onVal == "true", 0)
}

// guardedBy: on every way into the block, the branch condition says that the
// field does not have the value on.
func (c *Ctx) guardedBy(fn *ssa.Function, blk *ssa.BasicBlock, field string, on bool, depth int) bool {
	if depth > 5 {
		return false
	}
	for d := blk; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		truth := pr.Succs[0] == d
		cond := iff.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if ok && u.Op == token.NOT {
				cond, truth = u.X, !truth
				continue
			}
			break
		}
		if c.isField(fn, cond, field, 0) && truth != on {
			return true
		}
	}
	// otherwise every caller must be guarded
	cs := c.callersOf(fn)
	if len(cs) == 0 {
		return false
	}
	for _, s := range cs {
		if !c.guardedBy(s.Parent(), s.Block(), field, on, depth+1) {
			return false
		}
	}
	return true
}

// isField: the value is a read of the field, or a parameter always given it.
func (c *Ctx) isField(fn *ssa.Function, v ssa.Value, field string, depth int) bool {
	if depth > 5 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.MUL && lastField(v.X) == field
	case *ssa.Field:
		return lastField(v) == field
	case *ssa.Parameter:
		cs := c.callersOf(fn)
		if len(cs) == 0 {
			return false
		}
		for i, pa := range fn.Params {
			if pa != v {
				continue
			}
			for _, s := range cs {
				args := s.Common().Args
				if s.Common().IsInvoke() || i >= len(args) || !c.isField(s.Parent(), args[i], field, depth+1) {
					return false
				}
			}
			return true
		}
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || !c.inMod[g] {
			return false
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || !c.isField(g, r.Results[0], field, depth+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// noStampWiring: the command switches timestamps off exactly when asked, before
// anything is generated.
func (c *Ctx) noStampWiring() {
	dis := c.Anchor("generator", "Generator", "DisableTimestamps")
	if dis == nil {
		return
	}
	sites := c.callersOf(dis)
	ok := false
	for _, s := range sites {
		fn := s.Parent()
		for d := s.Block(); d != nil; d = d.Idom() {
			if len(d.Preds) != 1 {
				continue
			}
			pr := d.Preds[0]
			iff, isIf := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !isIf {
				continue
			}
			if c.isFlag(iff.Cond, "nostamp") && pr.Succs[0] == d {
				// nothing was generated before
				ok = true
				_ = fn
			}
		}
	}
	c.Obl("nostamp", "command -nostamp", dis.Pos(), ok, "the -nostamp option does not switch timestamps off")
	// nothing else changes the switch
	field, _, _ := strings.Cut(c.stampField(), "=")
	for _, fn := range c.Funcs {
		if fn == dis {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, isS := in.(*ssa.Store); isS && lastField(st.Addr) == field && field != "" {
					c.Fail("nostamp", c.short(fn)+" sets "+field, instrPos(in), "the timestamp switch is changed outside DisableTimestamps")
				}
			}
		}
	}
}

// isFlag: the value is *flagVar for the command line flag of that name.
func (c *Ctx) isFlag(v ssa.Value, name string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	u2, ok := u.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u2.X.(*ssa.Global)
	if !ok {
		return false
	}
	return c.flagOf(g) == name
}

func (c *Ctx) flagOf(g *ssa.Global) string {
	init := g.Pkg.Func("init")
	if init == nil {
		return ""
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				if call, ok := st.Val.(*ssa.Call); ok && strings.HasPrefix(calleeName(&call.Call), "flag.") && len(call.Call.Args) > 0 {
					if k, ok := call.Call.Args[0].(*ssa.Const); ok {
						s, _ := isStrConst(constV(k))
						return s
					}
				}
			}
		}
	}
	return ""
}

// addressText: values whose text is an address.
func (c *Ctx) addressText() {
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				it, _ := mi.Type().Underlying().(*types.Interface)
				if it == nil || it.NumMethods() > 0 {
					continue
				}
				if c.notFormatted(mi) {
					continue
				}
				why := addressy(mi.X.Type(), 0)
				construct := c.short(fn) + " " + types.TypeString(mi.X.Type(), func(p *types.Package) string { return p.Name() })
				c.Obl("address", construct, instrPos(mi), why == "", "a %s is turned into text: what is printed is a memory address", why)
			}
		}
	}
}

// percentP: formats that ask for the address.
func (c *Ctx) percentP() {
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cv, ok := in.(*ssa.Convert); ok {
					if bt, ok := cv.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if ft, ok := cv.X.Type().Underlying().(*types.Basic); ok && ft.Kind() == types.UnsafePointer {
							c.Fail("address", c.short(fn)+" uintptr", instrPos(in), "takes the numeric value of an address")
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range ci.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil {
						if s, ok := isStrConst(constV(k)); ok && strings.Contains(s, "%p") {
							c.Fail("address", c.short(fn)+" %p", instrPos(in), "formats an address with %%p")
						}
					}
				}
			}
		}
	}
}

// notFormatted: handed only to library calls that do not format it.
func (c *Ctx) notFormatted(mi *ssa.MakeInterface) bool {
	for _, r := range *mi.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			n := calleeName(r.Common())
			if strings.HasPrefix(n, "sort.") || strings.Contains(n, "yaml") || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "encoding/") || strings.HasPrefix(n, "reflect.") {
				continue
			}
			if n == "builtin.panic" {
				continue
			}
			return false
		case *ssa.Panic:
		default:
			// varargs of log/print calls
			if st, ok := r.(*ssa.Store); ok {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && c.onlyLogged(ia.X) {
					continue
				}
			}
			return false
		}
	}
	return true
}

func (c *Ctx) onlyLogged(arr ssa.Value) bool {
	for _, r := range *arr.Referrers() {
		sl, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, q := range *sl.Referrers() {
			if ci, ok := q.(ssa.CallInstruction); ok {
				n := calleeName(ci.Common())
				if strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.Print") || n == "fmt.Errorf" {
					continue
				}
			}
			return false
		}
	}
	return true
}

func addressy(t types.Type, d int) string {
	if d > 4 {
		return ""
	}
	for _, m := range []string{"String", "Error", "Format", "GoString"} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m {
				return ""
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return "pointer"
	case *types.Signature:
		return "function value"
	case *types.Chan:
		return "channel"
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "pointer"
		}
	case *types.Slice:
		return addressy(u.Elem(), d+1)
	case *types.Array:
		return addressy(u.Elem(), d+1)
	case *types.Map:
		if w := addressy(u.Key(), d+1); w != "" {
			return w
		}
		return addressy(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if w := addressy(u.Field(i).Type(), d+1); w != "" {
				return "structure holding a " + w
			}
		}
	}
	return ""
}

// concurrentProducers: helpers and random postfixes are produced by one
// goroutine, so their order is the program's order.
func (c *Ctx) concurrentProducers(e *Effects) {
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				bad := ""
				for _, ef := range e.siteEffects(g) {
					if ef.What == "rand" || (ef.What == "send" && strings.Contains(ef.Field, "helpers")) {
						bad = fmt.Sprintf("%s at %s", ef.What, c.pos(ef.Pos))
					}
				}
				c.Obl("producer", c.short(fn)+" go", instrPos(in), bad == "", "a second goroutine produces helpers or random names (%s): their order depends on scheduling", bad)
			}
		}
	}
}
