package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program under analysis: every package of the module
// in the target directory, type checked with the flags of the real build, and
// its SSA form.
type Program struct {
	Dir     string
	Module  string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	Prog    *ssa.Program
	SSA     map[string]*ssa.Package // by short name: main, parser, translator, generator
	Funcs   []*ssa.Function         // every function with a body in the module, sorted
	inMod   map[*ssa.Function]bool
	implsOf map[string][]*ssa.Function
	asValue map[*ssa.Function]bool
	sites   map[*ssa.Function][]ssa.CallInstruction
	addrTkn map[string][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	eff     *Effects
}

func targetDir() string {
	if d := os.Getenv("CFG_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir:   dir,
		Tests: false,
		Fset:  token.NewFileSet(),
	}
	// only the module's own packages are parsed; dependencies come from
	// export data, which is what the compiler itself uses.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", dir)
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Program{
		Dir: dir, Fset: cfg.Fset, Pkgs: pkgs, Prog: prog,
		SSA:   map[string]*ssa.Package{},
		inMod: map[*ssa.Function]bool{},
	}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		p.SSA[pkgs[i].Name] = sp
		if pkgs[i].Module != nil {
			p.Module = pkgs[i].Module.Path
		}
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || !p.owned(fn) {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
		p.inMod[fn] = true
	}
	// AllFunctions only finds reachable anonymous functions and methods of
	// exported types; add every member explicitly.
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen[f] = true
	}
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		if !seen[f] && p.owned(f) {
			seen[f] = true
			p.Funcs = append(p.Funcs, f)
			p.inMod[f] = true
		}
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				addFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						addFn(prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	for _, f := range p.Funcs {
		if makesResult(f) {
			neverNil["call:"+p.short(f)] = true
		}
	}
	return p, nil
}

// neverNil lists the functions that hand back an object of their own making
// on every return, so that no caller ever sees nil.
var neverNil = map[string]bool{}

func makesResult(f *ssa.Function) bool {
	if f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 || f.Recover != nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				if _, ok := ret.Results[0].(*ssa.Alloc); !ok {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

func (p *Program) owned(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			for _, sp := range p.SSA {
				if sp == f.Pkg {
					return true
				}
			}
		}
		if f.Origin() != nil && f.Origin() != f {
			return p.owned(f.Origin())
		}
	}
	// synthetic wrappers (value receivers promoted to pointer) carry no package
	if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		for _, sp := range p.SSA {
			if sp.Pkg == fn.Object().Pkg() {
				return true
			}
		}
	}
	return false
}

// short gives pkg.Type.func names without the module path.
func (p *Program) short(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, p.Module+"/", "")
	s = strings.ReplaceAll(s, p.Module+".", "main.")
	return s
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, ps.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

// instrPos gives a usable position even for instructions without one.
func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	if v, ok := i.(ssa.Value); ok {
		for _, r := range *v.Referrers() {
			if r.Pos().IsValid() {
				return r.Pos()
			}
		}
	}
	b := i.Block()
	if b != nil {
		for _, j := range b.Instrs {
			if j.Pos().IsValid() {
				return j.Pos()
			}
		}
		return b.Parent().Pos()
	}
	return token.NoPos
}

// fn finds a function or method "pkg.Name" / "pkg.Type.Name" in the module.
func (p *Program) fn(pkg, typ, name string) *ssa.Function {
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	if typ == "" {
		return sp.Func(name)
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.Prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.Prog.MethodValue(ms.At(i))
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
	}
	return nil
}

func isNamed(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Name() != name {
		return false
	}
	if n.Obj().Pkg() == nil {
		return pkg == ""
	}
	return n.Obj().Pkg().Path() == pkg || n.Obj().Pkg().Name() == pkg
}

// ---- call graph -----------------------------------------------------------

// callees resolves a call instruction to module functions: the static callee,
// the methods that may implement an interface call, or for a call through a
// function value every address-taken function of that signature.
func (p *Program) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if cc.IsInvoke() {
		return p.implementers(cc.Value.Type(), cc.Method)
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	// function value: resolve locally when possible
	if fs := resolveFuncValue(cc.Value, 0); fs != nil {
		return fs
	}
	if fs := p.passedFuncs(cc.Value, 0); fs != nil {
		return fs
	}
	if p.addrTkn == nil {
		p.buildAddrTaken()
	}
	sig := cc.Signature()
	return p.addrTkn[sigKey(sig)]
}

// passedFuncs: the functions a parameter can be, from the calls of its
// function; nil when they are not all known.
func (p *Program) passedFuncs(v ssa.Value, d int) []*ssa.Function {
	pa, ok := v.(*ssa.Parameter)
	if !ok || d > 4 {
		return resolveFuncValue(v, 0)
	}
	f := pa.Parent()
	if p.usedAsValue(f) || f.Signature.Recv() != nil && token.IsExported(f.Name()) {
		return nil
	}
	n := -1
	for i, x := range f.Params {
		if x == pa {
			n = i
		}
	}
	out := []*ssa.Function{}
	sites := p.staticSites()[f]
	if len(sites) == 0 && f.Synthetic == "" {
		return nil
	}
	for _, s := range sites {
		if a := s.Common().Args; n < len(a) {
			fs := p.passedFuncs(a[n], d+1)
			if fs == nil {
				return nil
			}
			out = append(out, fs...)
		}
	}
	return out
}

func (p *Program) staticSites() map[*ssa.Function][]ssa.CallInstruction {
	if p.sites == nil {
		p.sites = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							p.sites[g] = append(p.sites[g], c)
						}
					}
				}
			}
		}
	}
	return p.sites
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func resolveFuncValue(v ssa.Value, d int) []*ssa.Function {
	if d > 6 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return resolveFuncValue(v.X, d+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			fs := resolveFuncValue(e, d+1)
			if fs == nil {
				return nil
			}
			out = append(out, fs...)
		}
		return out
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return funcsStoredAt(v.X, d+1)
		}
	}
	return nil
}

// funcsStoredAt finds the functions stored into a local variable cell or a
// captured one; nil when some store is not a known function.
func funcsStoredAt(addr ssa.Value, d int) []*ssa.Function {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return storesInto(a, d)
	case *ssa.FreeVar:
		// find the binding in the parent
		fn := a.Parent()
		idx := -1
		for i, fv := range fn.FreeVars {
			if fv == a {
				idx = i
			}
		}
		if idx < 0 || fn.Parent() == nil {
			return nil
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return funcsStoredAt(mc.Bindings[idx], d+1)
				}
			}
		}
	}
	return nil
}

func storesInto(a ssa.Value, d int) []*ssa.Function {
	var out []*ssa.Function
	if a.Referrers() == nil {
		return nil
	}
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			fs := resolveFuncValue(st.Val, d+1)
			if fs == nil {
				return nil
			}
			out = append(out, fs...)
		}
	}
	return out
}

func (p *Program) buildAddrTaken() {
	p.addrTkn = map[string][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if p.asValue == nil {
			p.asValue = map[*ssa.Function]bool{}
		}
		p.asValue[f] = true
		// method expressions/values and thunks: resolve to the real function
		k := sigKey(f.Signature)
		if f.Signature.Recv() != nil {
			// as used in a method expression
			var ps []*types.Var
			ps = append(ps, f.Signature.Recv())
			for i := 0; i < f.Signature.Params().Len(); i++ {
				ps = append(ps, f.Signature.Params().At(i))
			}
			k = sigKey(types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), f.Signature.Results(), f.Signature.Variadic()))
		}
		p.addrTkn[k] = append(p.addrTkn[k], f)
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var rands []*ssa.Value
				for _, op := range in.Operands(rands) {
					if op == nil || *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == f {
						continue
					}
					add(f)
				}
			}
		}
	}
}

// usedAsValue: the function is not only called.
func (p *Program) usedAsValue(f *ssa.Function) bool {
	if p.addrTkn == nil {
		p.buildAddrTaken()
	}
	return p.asValue[f]
}

func (p *Program) implementers(t types.Type, m *types.Func) []*ssa.Function {
	key := types.TypeString(t, nil) + "." + m.Name()
	if p.implsOf == nil {
		p.implsOf = map[string][]*ssa.Function{}
	}
	if r, ok := p.implsOf[key]; ok {
		return r
	}
	iface, _ := t.Underlying().(*types.Interface)
	var out []*ssa.Function
	if iface != nil {
		for _, pk := range p.Pkgs {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				if _, ok := tn.Type().Underlying().(*types.Interface); ok {
					continue
				}
				for _, ty := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if !types.Implements(ty, iface) {
						continue
					}
					sel := p.Prog.MethodSets.MethodSet(ty).Lookup(m.Pkg(), m.Name())
					if sel == nil {
						continue
					}
					if f := p.Prog.MethodValue(sel); f != nil && f.Blocks != nil {
						if f.Synthetic != "" {
							// unwrap promoted wrappers
							if u := unwrapWrapper(f); u != nil {
								f = u
							}
						}
						dup := false
						for _, o := range out {
							if o == f {
								dup = true
							}
						}
						if !dup {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	p.implsOf[key] = out
	return out
}

func unwrapWrapper(f *ssa.Function) *ssa.Function {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if s := c.Call.StaticCallee(); s != nil && s.Name() == f.Name() {
					return s
				}
			}
		}
	}
	return nil
}

func (p *Program) callersOf(fn *ssa.Function) []ssa.CallInstruction {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, g := range p.callees(c) {
							p.callers[g] = append(p.callers[g], c)
						}
					}
				}
			}
		}
	}
	return p.callers[fn]
}

// calleePath names the callee of a call: "fmt.Sprintf", "(*bytes.Buffer).Len".
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}
