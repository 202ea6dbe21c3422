package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, vs ...V) []Outcome { return []Outcome{{Ret: vs, St: st}} }

func (ip *Interp) call(fr *Frame, ps *PS, site ssa.CallInstruction, cc *ssa.CallCommon) []Outcome {
	var fv V
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fv = ip.val(ps, cc.Value)
	}
	return ip.callVals(fr, ps.st, site, cc, fv, ip.vals(ps, cc.Args))
}

// callVals calls with the function (or receiver) and the arguments evaluated.
func (ip *Interp) callVals(fr *Frame, st *State, site ssa.CallInstruction, cc *ssa.CallCommon, fv V, args []V) []Outcome {
	if cc.IsInvoke() {
		recv := fv
		if i, ok := recv.(*Iface); ok {
			if m := ip.methodOf(i.T, cc.Method); m != nil {
				return ip.dispatch(fr, st, site, m, append([]V{i.X}, args...), nil)
			}
		}
		name := "inv:" + types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
		all := append([]V{recv}, args...)
		if ip.Model != nil {
			if o, ok := ip.Model(ip, fr, st, site, name, all); ok {
				return o
			}
		}
		if o, ok := ip.lib(fr, st, site, name, cc.Signature(), all); ok {
			return o
		}
		ip.event(st, &Event{Kind: "invoke", Name: name, Args: st.snaps(all), Pos: sitePos(site, fr), Fn: fr.fn, Call: site})
		return one(st, ip.opaque(st, name, cc.Signature(), all)...)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		call, _ := site.(*ssa.Call)
		if b.Name() == "close" {
			ip.event(st, &Event{Kind: "close", Args: st.snaps(args), Pos: site.Pos(), Fn: fr.fn})
			return one(st, nil)
		}
		if call == nil && b.Name() != "delete" {
			return one(st, nil) // deferred for its effect: print, recover, ...
		}
		return one(st, ip.builtin(fr, st, call, b.Name(), args))
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []V
		if fv, ok := fv.(*FnV); ok {
			bind = fv.B
		}
		return ip.dispatch(fr, st, site, f, args, bind)
	}
	if f, ok := fv.(*FnV); ok {
		if fn, ok := f.F.(*ssa.Function); ok {
			return ip.dispatch(fr, st, site, fn, args, f.B)
		}
	}
	return one(st, ip.opaque(st, "dyn", cc.Signature(), append([]V{fv}, args...))...)
}

func (ip *Interp) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := ip.p.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return ip.p.Prog.MethodValue(sel)
}

func (ip *Interp) dispatch(fr *Frame, st *State, site ssa.CallInstruction, f *ssa.Function, args, bind []V) []Outcome {
	name := f.String()
	// bound method values and thunks
	if ip.Model != nil {
		if o, ok := ip.Model(ip, fr, st, site, name, args); ok {
			return o
		}
	}
	if o, ok := ip.lib(fr, st, site, name, f.Signature, args); ok {
		return o
	}
	if f.Blocks == nil || !(ip.p.owned(f) || strings.HasPrefix(f.Synthetic, "bound method") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "promotion")) {
		ip.event(st, &Event{Kind: "call", Name: name, Args: st.snaps(args), Raw: args, Pos: site.Pos(), Fn: fr.fn, Call: site, Res: ip.opaqueRes(st, "ext:"+name, f.Signature, args)})
		res := ip.opaque(st, "ext:"+name, f.Signature, args)
		ip.havocInto(st, name, args)
		return one(st, res...)
	}
	if f.Name() == "init" && f.Pkg != nil && fr != nil && fr.fn.Name() == "init" && f.Pkg != fr.fn.Pkg {
		return one(st) // other packages' initialisers are run on their own
	}
	// recursion
	n := 0
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			n++
		}
	}
	if n >= 1 || !ip.Inline(f) {
		ip.event(st, &Event{Kind: "call", Name: ip.p.short(f), Args: st.snaps(args), Raw: args, Pos: sitePos(site, fr), Fn: fr.fn, Call: site, Res: ip.opaqueRes(st, "call:"+ip.p.short(f), f.Signature, args)})
		res := ip.opaque(st, "call:"+ip.p.short(f), f.Signature, args)
		ip.havocArgs(st, f, args)
		return one(st, res...)
	}
	return ip.callFn(fr, st, site, f, args, bind)
}

func sitePos(site ssa.CallInstruction, fr *Frame) (p token.Pos) {
	if site != nil {
		return site.Pos()
	}
	if fr != nil {
		return fr.fn.Pos()
	}
	return
}

// havocArgs forgets what a function that is not looked into may overwrite in
// the known objects it is handed.
func (ip *Interp) havocArgs(st *State, f *ssa.Function, args []V) {
	known := false
	for _, a := range args {
		if i, ok := a.(*Iface); ok {
			a = i.X
		}
		if p, ok := a.(*Ptr); ok {
			if _, ok := st.get(p.Obj).(*StructV); ok {
				known = true
			}
		}
	}
	if !known {
		return
	}
	if ip.p.eff == nil {
		ip.p.eff = ip.p.effects()
	}
	sum := ip.p.eff.sum[f]
	if sum == nil {
		return
	}
	var keys []string
	for k := range sum.effects {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := sum.effects[k]
		if e.Root.Kind != "param" || e.Root.N >= len(args) {
			continue
		}
		a := args[e.Root.N]
		if i, ok := a.(*Iface); ok {
			a = i.X
		}
		p, ok := a.(*Ptr)
		if !ok {
			continue
		}
		cur := st.get(p.Obj)
		for _, ix := range p.Path {
			if s, ok := cur.(*StructV); ok && ix < len(s.F) {
				cur = s.F[ix]
			} else {
				cur = nil
			}
		}
		s, ok := cur.(*StructV)
		if !ok || s.T == nil {
			continue
		}
		u, ok := s.T.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < u.NumFields(); i++ {
			if structName(s.T)+"."+u.Field(i).Name() == e.What {
				nv := mkTerm(u.Field(i).Type(), "upd:"+f.Name(), append([]V{s.F[i]}, st.snaps(args)...)...)
				st.set(p.Obj, setPath(st.get(p.Obj), append(append([]int{}, p.Path...), i), nv, nil))
			}
		}
	}
}

// havocInto forgets an object that a decoder fills in.
func (ip *Interp) havocInto(st *State, name string, args []V) {
	if !strings.Contains(name, "Unmarshal") && !strings.Contains(name, "Decode") {
		return
	}
	for _, a := range args {
		if i, ok := a.(*Iface); ok {
			a = i.X
		}
		p, ok := a.(*Ptr)
		if !ok || len(p.Path) > 0 {
			continue
		}
		if s, ok := st.get(p.Obj).(*StructV); ok && s.T != nil {
			n := mkTerm(s.T, "decoded")
			st.set(p.Obj, structOf(s.T, nil, func(f string, t types.Type) V { return mkTerm(t, "."+f, n) }))
		}
	}
}

// opaque results: an unknown that depends on the arguments only.
// opaqueRes is the result as one value.
func (ip *Interp) opaqueRes(st *State, name string, sig *types.Signature, args []V) V {
	switch res := sig.Results(); res.Len() {
	case 0:
		return nil
	case 1:
		return mkTerm(res.At(0).Type(), name, st.snaps(args)...)
	default:
		return mkTerm(res, name, st.snaps(args)...)
	}
}

func (ip *Interp) opaque(st *State, name string, sig *types.Signature, args []V) []V {
	snap := st.snaps(args)
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return []V{mkTerm(res.At(0).Type(), name, snap...)}
	}
	base := mkTerm(res, name, snap...)
	var out []V
	for i := 0; i < res.Len(); i++ {
		out = append(out, mkTerm(res.At(i).Type(), fmt.Sprintf("#%d", i), base))
	}
	return out
}

func (ip *Interp) builtin(fr *Frame, st *State, c *ssa.Call, name string, args []V) V {
	var rt types.Type
	if c != nil {
		rt = c.Type()
	}
	switch name {
	case "len", "cap":
		if name == "cap" {
			return mkTerm(types.Typ[types.Int], "cap", st.snap(args[0]))
		}
		// a pointer to a known array
		if q, ok := args[0].(*SeqV); ok && q.Base == nil && q.N == nil {
			return cInt(int64(len(q.E)))
		}
		l := lenOf(args[0], st)
		if t, ok := l.(*Term); ok && t.Op == "len" {
			return mkTerm(types.Typ[types.Int], "len", st.snap(t.Args[0]))
		}
		return l
	case "append":
		if isByteSlice(rt) {
			return mkCat(args...)
		}
		if len(args) > 1 {
			var items []V
			if sl, ok := args[1].(*SliceV); ok {
				if q, ok := st.get(sl.Obj).(*SeqV); ok && q.Base == nil && q.N == nil {
					items = st.snaps(q.E)
				}
			}
			if items == nil {
				items = []V{st.snap(args[1])}
			}
			var pos token.Pos
			if c != nil {
				pos = c.Pos()
			}
			ip.event(st, &Event{Kind: "append", Name: types.TypeString(rt, nil), Args: items, Pos: pos, Fn: fr.fn})
		}
		return ip.appendTo(st, rt, args)
	case "copy":
		if dst, ok := args[0].(*SliceV); ok {
			if src, ok := args[1].(*SliceV); ok {
				if a, ok := st.get(dst.Obj).(*SeqV); ok {
					if b, ok := st.get(src.Obj).(*SeqV); ok && b.Base == nil && b.N == nil && a.N == nil && len(a.E) <= len(b.E) {
						st.set(dst.Obj, &SeqV{T: a.T, E: append([]V(nil), b.E[:len(a.E)]...)})
						return cInt(int64(len(a.E)))
					}
					st.set(dst.Obj, &SeqV{T: a.T, Base: mkTerm(dst.T, "copied", st.snap(args[1]))})
				}
			} else if a, ok := st.get(dst.Obj).(*SeqV); ok {
				st.set(dst.Obj, &SeqV{T: a.T, Base: mkTerm(dst.T, "copied", st.snap(args[1]))})
			}
		}
		if c != nil {
			ip.event(st, &Event{Kind: "copy", Args: st.snaps(args), Pos: c.Pos(), Fn: fr.fn})
		}
		return mkTerm(types.Typ[types.Int], "copy", st.snaps(args)...)
	case "delete":
		if c != nil {
			ip.event(st, &Event{Kind: "mapdelete", Args: st.snaps(args), Pos: c.Pos(), Fn: fr.fn})
		}
		if m, ok := args[0].(*MapV); ok {
			if mm, ok := st.get(m.Obj).(*MapVal); ok {
				n := &MapVal{Base: mm.Base}
				for i := range mm.Ks {
					if mm.Ks[i].K() != args[1].K() {
						n.Ks = append(n.Ks, mm.Ks[i])
						n.Vs = append(n.Vs, mm.Vs[i])
					}
				}
				st.set(m.Obj, n)
			}
		}
		return cNil(types.Typ[types.UntypedNil])
	case "close":
		ip.event(st, &Event{Kind: "close", Args: st.snaps(args), Pos: c.Pos(), Fn: fr.fn})
		return cNil(types.Typ[types.UntypedNil])
	case "panic", "print", "println":
		return cNil(types.Typ[types.UntypedNil])
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		return mkTerm(rt, name, args...)
	}
	if rt == nil {
		rt = types.Typ[types.Invalid]
	}
	return mkTerm(rt, "bi:"+name, st.snaps(args)...)
}

func (ip *Interp) appendTo(st *State, rt types.Type, args []V) V {
	et := rt.Underlying().(*types.Slice).Elem()
	n := &SeqV{T: et}
	switch a := args[0].(type) {
	case *SliceV:
		if q, ok := st.get(a.Obj).(*SeqV); ok {
			if q.N != nil {
				n.Base = st.snap(q)
			} else {
				n.Base = q.Base
			}
			n.E = append([]V(nil), q.E...)
		}
	case *Const:
	default:
		n.Base = args[0]
	}
	if len(args) > 1 {
		switch b := args[1].(type) {
		case *SliceV:
			if q, ok := st.get(b.Obj).(*SeqV); ok {
				if q.Base != nil || q.N != nil {
					n.E = append(n.E, mkTerm(nil, "all", st.snap(q)))
				} else {
					n.E = append(n.E, q.E...)
				}
			}
		case *Const:
		default:
			n.E = append(n.E, mkTerm(nil, "all", args[1]))
		}
	}
	return &SliceV{Obj: st.alloc(n), T: rt}
}

// ---- text output ----------------------------------------------------------

// writeText appends text to the writer w; false when w is not understood.
func (ip *Interp) writeText(fr *Frame, st *State, site ssa.CallInstruction, w, text V) ([]Outcome, bool) {
	for {
		if i, ok := w.(*Iface); ok {
			// a module type with its own Write: analyse it
			if n := namedOf(i.T); n != nil && n.Obj().Pkg() != nil && ip.p.isModPkg(n.Obj().Pkg()) {
				if m := ip.lookupMethod(i.T, "Write"); m != nil && m.Blocks != nil {
					return ip.dispatch(fr, st, site, m, []V{i.X, text}, nil), true
				}
			}
			w = i.X
			continue
		}
		break
	}
	switch x := w.(type) {
	case *Ptr:
		cur := ip.load(st, x, derefT(x.T))
		if isText(cur) {
			st.set(x.Obj, setPath(st.get(x.Obj), x.Path, mkCat(cur, text), derefT(x.T)))
			return one(st, cInt(0), cNil(nil)), true
		}
	case *Term:
		cur, ok := st.streams[x.K()]
		if !ok {
			cur = cStr("")
		}
		st.streams[x.K()] = mkCat(cur, text)
		ip.event(st, &Event{Kind: "write", Args: []V{x, st.snap(text)}, Pos: sitePos(site, fr), Fn: fr.fn})
		return one(st, cInt(0), cNil(nil)), true
	}
	return nil, false
}

func (p *Program) isModPkg(pk *types.Package) bool {
	for _, sp := range p.SSA {
		if sp.Pkg == pk {
			return true
		}
	}
	return false
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func (ip *Interp) lookupMethod(t types.Type, name string) *ssa.Function {
	ms := ip.p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ip.p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// variadic arguments of a ...interface{} call
func (ip *Interp) varargs(st *State, v V) ([]V, bool) {
	switch x := v.(type) {
	case *Const:
		return nil, true
	case *SliceV:
		if q, ok := st.get(x.Obj).(*SeqV); ok && q.Base == nil && q.N == nil {
			return q.E, true
		}
	}
	return nil, false
}

// fmtArg renders one operand of the fmt package under a verb.
func (ip *Interp) fmtArg(fr *Frame, st *State, site ssa.CallInstruction, verb string, a V) V {
	i, ok := a.(*Iface)
	if !ok {
		if c, ok := a.(*Const); ok && c.C == nil {
			return cStr("<nil>")
		}
		return mkTerm(types.Typ[types.String], "fmt:"+verb, st.snap(a))
	}
	last := verb[len(verb)-1]
	plain := len(verb) == 2
	if (last == 's' || last == 'v') && plain {
		if m := ip.stringer(i.T); m != nil {
			if ip.StrInline || isConcrete(i.X) {
				if f := m; f.Blocks != nil && ip.p.owned(f) {
					outs := ip.callFn(fr, st.clone(), site, f, []V{i.X}, nil)
					if len(outs) == 1 && !outs[0].Panic && len(outs[0].Ret) == 1 {
						return outs[0].Ret[0]
					}
				}
			}
			return mkTerm(types.Typ[types.String], "str:"+types.TypeString(i.T, func(p *types.Package) string { return p.Name() }), st.snap(i.X))
		}
		if isStringType(i.T) || isByteSlice(i.T) {
			if last == 'v' && isByteSlice(i.T) {
				return mkTerm(types.Typ[types.String], "fmt:"+verb, st.snap(i.X))
			}
			return mkCat(i.X)
		}
	}
	if isIntType(i.T) && plain && (last == 'd' || last == 'v') {
		if n, ok := i.X.(*Const); ok && n.C != nil {
			return cStr(n.C.ExactString())
		}
		return mkTerm(types.Typ[types.String], "itoa", st.snap(i.X))
	}
	if plain && (last == 'v' || last == 't') {
		if b, ok := isBoolConst(i.X); ok {
			return cStr(strconv.FormatBool(b))
		}
	}
	if last == 'q' && plain {
		if s, ok := isStrConst(i.X); ok {
			return cStr(strconv.Quote(s))
		}
	}
	if last == 'c' && plain {
		if n, ok := isIntConst(i.X); ok {
			return cStr(string(rune(n)))
		}
	}
	return mkTerm(types.Typ[types.String], "fmt:"+verb, st.snap(i.X))
}

func isConcrete(v V) bool {
	switch x := v.(type) {
	case *Const:
		return true
	case *StructV:
		for _, f := range x.F {
			if !isConcrete(f) {
				return false
			}
		}
		return true
	}
	return false
}

func (ip *Interp) stringer(t types.Type) *ssa.Function {
	ms := ip.p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" {
			sig, ok := ms.At(i).Type().(*types.Signature)
			if ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 && isStringType(sig.Results().At(0).Type()) {
				if f := ip.p.Prog.MethodValue(ms.At(i)); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

func (ip *Interp) sprintf(fr *Frame, st *State, site ssa.CallInstruction, format V, va V) V {
	f, ok := isStrConst(format)
	args, ok2 := ip.varargs(st, va)
	if !ok || !ok2 {
		return mkTerm(types.Typ[types.String], "sprintf", st.snap(format), st.snap(va))
	}
	var out []V
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, cStr(f[i:i+j]))
			i += j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = append(out, cStr("%!(NOVERB)"))
			break
		}
		verb := f[i : j+1]
		i = j
		if f[j] == '%' {
			out = append(out, cStr("%"))
			continue
		}
		if strings.ContainsAny(verb, "*[") {
			out = append(out, mkTerm(types.Typ[types.String], "sprintf", st.snap(format), st.snap(va)))
			return mkCat(out...)
		}
		if n >= len(args) {
			out = append(out, cStr("%!"+string(f[j])+"(MISSING)"))
			continue
		}
		out = append(out, ip.fmtArg(fr, st, site, verb, args[n]))
		n++
	}
	if n < len(args) {
		out = append(out, cStr("%!(EXTRA)"))
	}
	return mkCat(out...)
}

func (ip *Interp) sprint(fr *Frame, st *State, site ssa.CallInstruction, va V, ln bool) V {
	args, ok := ip.varargs(st, va)
	if !ok {
		return mkTerm(types.Typ[types.String], "sprint", st.snap(va))
	}
	var out []V
	isStr := func(v V) bool {
		i, ok := v.(*Iface)
		return ok && isStringType(i.T) && ip.stringer(i.T) == nil
	}
	for i, a := range args {
		if i > 0 && (ln || (!isStr(a) && !isStr(args[i-1]))) {
			out = append(out, cStr(" "))
		}
		out = append(out, ip.fmtArg(fr, st, site, "%v", a))
	}
	if ln {
		out = append(out, cStr("\n"))
	}
	return mkCat(out...)
}

// lib models the library functions whose effect matters to the analyses.
func (ip *Interp) lib(fr *Frame, st *State, site ssa.CallInstruction, name string, sig *types.Signature, a []V) ([]Outcome, bool) {
	tS := types.Typ[types.String]
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		ip.event(st, &Event{Kind: "exit", Name: name, Args: st.snaps(a), Pos: sitePos(site, fr), Fn: fr.fn, Call: site})
		return []Outcome{{St: st, Panic: true}}, true
	case "fmt.Sprintf":
		return one(st, ip.sprintf(fr, st, site, a[0], a[1])), true
	case "fmt.Sprint":
		return one(st, ip.sprint(fr, st, site, a[0], false)), true
	case "fmt.Sprintln":
		return one(st, ip.sprint(fr, st, site, a[0], true)), true
	case "fmt.Errorf":
		return one(st, mkTerm(sig.Results().At(0).Type(), "err:", ip.sprintf(fr, st, site, a[0], a[1]))), true
	case "errors.New":
		return one(st, mkTerm(sig.Results().At(0).Type(), "err:", st.snap(a[0]))), true
	case "fmt.Fprintf":
		if o, ok := ip.writeText(fr, st, site, a[0], ip.sprintf(fr, st, site, a[1], a[2])); ok {
			return o, true
		}
	case "fmt.Fprint":
		if o, ok := ip.writeText(fr, st, site, a[0], ip.sprint(fr, st, site, a[1], false)); ok {
			return o, true
		}
	case "fmt.Fprintln":
		if o, ok := ip.writeText(fr, st, site, a[0], ip.sprint(fr, st, site, a[1], true)); ok {
			return o, true
		}
	case "io.WriteString":
		if o, ok := ip.writeText(fr, st, site, a[0], a[1]); ok {
			return o, true
		}
	case "inv:io.Writer.Write":
		if o, ok := ip.writeText(fr, st, site, a[0], a[1]); ok {
			return o, true
		}
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write":
		if o, ok := ip.writeText(fr, st, site, a[0], a[1]); ok {
			return o, true
		}
	case "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte":
		var t V = mkTerm(tS, "chr", a[1])
		if n, ok := isIntConst(a[1]); ok {
			t = cStr(string(rune(n)))
		}
		if o, ok := ip.writeText(fr, st, site, a[0], t); ok {
			if strings.HasSuffix(name, "WriteByte") {
				o[0].Ret = []V{cNil(nil)}
			}
			return o, true
		}
	case "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*strings.Builder).String":
		if p, ok := a[0].(*Ptr); ok {
			if c := ip.load(st, p, derefT(p.T)); isText(c) {
				return one(st, retype(c, sig.Results().At(0).Type())), true
			}
		}
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		if p, ok := a[0].(*Ptr); ok {
			if c := ip.load(st, p, derefT(p.T)); isText(c) {
				return one(st, lenOf(c, st)), true
			}
		}
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		if p, ok := a[0].(*Ptr); ok {
			st.set(p.Obj, setPath(st.get(p.Obj), p.Path, cStr(""), nil))
			return one(st), true
		}
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return one(st), true
	case "(*bytes.Buffer).Truncate":
		if p, ok := a[0].(*Ptr); ok {
			if n, ok := isIntConst(a[1]); ok && n == 0 {
				st.set(p.Obj, setPath(st.get(p.Obj), p.Path, cStr(""), nil))
			} else {
				c := ip.load(st, p, derefT(p.T))
				st.set(p.Obj, setPath(st.get(p.Obj), p.Path, mkTerm(tS, "trunc", c, a[1]), nil))
			}
			return one(st), true
		}
	case "(*bytes.Buffer).WriteTo":
		if p, ok := a[0].(*Ptr); ok {
			if c := ip.load(st, p, derefT(p.T)); isText(c) {
				if o, ok := ip.writeText(fr, st, site, a[1], c); ok {
					for i := range o {
						o[i].St.set(p.Obj, setPath(o[i].St.get(p.Obj), p.Path, cStr(""), nil))
					}
					return o, true
				}
			}
		}
	case "bytes.NewBuffer", "bytes.NewBufferString":
		t := sig.Results().At(0).Type()
		var c V = cStr("")
		if !isNilConst(a[0]) {
			c = mkCat(a[0])
		}
		return one(st, &Ptr{Obj: st.alloc(c), T: t}), true
	case "io.Copy":
		if i, ok := a[1].(*Iface); ok {
			if p, ok := i.X.(*Ptr); ok {
				if c := ip.load(st, p, derefT(p.T)); isText(c) {
					if o, ok := ip.writeText(fr, st, site, a[0], c); ok {
						return o, true
					}
				}
			}
		}
	case "strings.Join":
		if es, ok := ip.varargs(st, a[0]); ok {
			var out []V
			for i, e := range es {
				if i > 0 {
					out = append(out, a[1])
				}
				out = append(out, e)
			}
			return one(st, mkCat(out...)), true
		}
	case "strings.Repeat", "bytes.Repeat":
		if n, ok := isIntConst(a[1]); ok && n >= 0 && n < 100 {
			var out []V
			for i := int64(0); i < n; i++ {
				out = append(out, a[0])
			}
			return one(st, mkCat(out...)), true
		}
		return one(st, mkTerm(tS, "repeat", st.snap(a[0]), a[1])), true
	case "strconv.Itoa":
		if n, ok := isIntConst(a[0]); ok {
			return one(st, cStr(strconv.FormatInt(n, 10))), true
		}
		return one(st, mkTerm(tS, "itoa", a[0])), true
	case "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable":
		v := a[0]
		if i, ok := v.(*Iface); ok {
			v = i.X
		}
		ip.event(st, &Event{Kind: "call", Name: name, Args: st.snaps(a), Raw: a, Pos: sitePos(site, fr), Fn: fr.fn, Call: site})
		if s, ok := v.(*SliceV); ok {
			if q, ok := st.get(s.Obj).(*SeqV); ok {
				st.set(s.Obj, &SeqV{T: q.T, Base: mkTerm(s.T, "sorted", st.snap(q))})
			}
		}
		return one(st), true
	}
	if strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "unicode.") || strings.HasPrefix(name, "path/filepath.") {
		if r, ok := pureText(name, a); ok {
			return one(st, r), true
		}
		n := strings.TrimPrefix(strings.TrimPrefix(name, "strings."), "bytes.")
		rt := sig.Results()
		if rt.Len() == 1 && (strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.")) {
			return one(st, mkTerm(rt.At(0).Type(), "s:"+n, st.snaps(a)...)), true
		}
	}
	return nil, false
}

func pureText(name string, a []V) (V, bool) {
	ss := make([]string, len(a))
	for i, v := range a {
		s, ok := isStrConst(v)
		if !ok {
			// prefix tests on partially known texts
			if c, isC := v.(*Cat); isC && i == 0 && len(a) == 2 && (name == "strings.HasPrefix" || name == "bytes.HasPrefix") {
				p, ok1 := isStrConst(c.Parts[0])
				w, ok2 := isStrConst(a[1])
				if ok1 && ok2 {
					if len(p) >= len(w) {
						return cBool(strings.HasPrefix(p, w)), true
					}
					if !strings.HasPrefix(w, p) {
						return cBool(false), true
					}
				}
			}
			return nil, false
		}
		ss[i] = s
	}
	n := name[strings.LastIndexByte(name, '.')+1:]
	switch n {
	case "HasPrefix":
		return cBool(strings.HasPrefix(ss[0], ss[1])), true
	case "HasSuffix":
		return cBool(strings.HasSuffix(ss[0], ss[1])), true
	case "Contains":
		return cBool(strings.Contains(ss[0], ss[1])), true
	case "TrimPrefix":
		return cStr(strings.TrimPrefix(ss[0], ss[1])), true
	case "TrimSuffix":
		return cStr(strings.TrimSuffix(ss[0], ss[1])), true
	case "TrimSpace":
		return cStr(strings.TrimSpace(ss[0])), true
	case "ToUpper":
		return cStr(strings.ToUpper(ss[0])), true
	case "ToLower":
		return cStr(strings.ToLower(ss[0])), true
	case "Title":
		return cStr(strings.Title(ss[0])), true //nolint
	case "Trim":
		return cStr(strings.Trim(ss[0], ss[1])), true
	case "TrimLeft":
		return cStr(strings.TrimLeft(ss[0], ss[1])), true
	case "TrimRight":
		return cStr(strings.TrimRight(ss[0], ss[1])), true
	case "EqualFold":
		return cBool(strings.EqualFold(ss[0], ss[1])), true
	case "Equal":
		return cBool(ss[0] == ss[1]), true
	case "Index":
		return cInt(int64(strings.Index(ss[0], ss[1]))), true
	case "LastIndex":
		return cInt(int64(strings.LastIndex(ss[0], ss[1]))), true
	}
	return nil, false
}

var _ = constant.MakeInt64
