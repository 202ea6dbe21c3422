package main

import (
	"errors"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: what is kept next to a lock is used with the lock held.

func init() { checks["C11"] = c11 }

func c11(c *Ctx) {
	c.explain = "Lock typestate over the SSA of every function that reaches a lock or a field kept next to one, and over the program text of the generated allocation map: which locks are held, and how, at every use and at every exit."
	c.Rule("guarded: a field next to a lock is read with that object's lock held, and written or modified with it held for writing")
	c.Rule("released: whoever takes a lock releases it on every path, once, the way it was taken, and never takes it while holding it")
	c.Rule("section: a field is not replaced because of what was read before the lock was taken")
	c.Rule("shared: an object with a lock is used in place; it is never copied")
	c.Rule("locked: the remembered answers of the translator and the generated allocation map have a lock")
	lf := &lockFlow{p: c.Program, callees: func(ci ssa.CallInstruction) []*ssa.Function { return c.callees(ci) }, name: c.short}
	lf.owned = c.owned
	lf.report = c.lockReport("")
	fns := c.Funcs
	lf.prepare(fns)
	c.lockRoots(lf, fns)
	c.Stat("lock: functions", len(lf.ran))
	c.Stat("lock: accesses", len(lf.access))
	c.Floor("guarded", 10)
	c.Floor("released", 10)
	c.Floor("balanced", 12)
	// the caches have locks
	cached := 0
	for _, n := range []string{"TypeCache", "NameTransformCache", "TipCache"} {
		t := c.namedType("translator", n)
		if t == nil {
			continue
		}
		cached++
		st, _ := t.Underlying().(*types.Struct)
		plain := false
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
				plain = true
			}
		}
		c.Obl("locked", n, t.Obj().Pos(), !plain || lockField(t) >= 0, "%s keeps a map that several goroutines may use and has no lock", n)
	}
	c.copies(fns)
	c.helperLocks()
	c.Floor("locked", 2)
	c.Assume("objects with locks are reached through one name per path: two names for one object within a function are not related")
}

func (c *Ctx) lockReport(prefix string) func(kind, construct string, pos token.Pos, ok bool, msg string) {
	return func(kind, construct string, pos token.Pos, ok bool, msg string) {
		c.Obl(kind, prefix+construct, pos, ok, "%s", msg)
	}
}

// lockRoots runs the functions that can be entered from outside.
func (c *Ctx) lockRoots(lf *lockFlow, fns []*ssa.Function) {
	called := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range lf.callees(ci) {
						called[g] = true
					}
					if len(lf.callees(ci)) == 0 {
						for _, a := range ci.Common().Args {
							if mc, ok := stripIface(a).(*ssa.MakeClosure); ok {
								called[mc.Fn.(*ssa.Function)] = true
							}
						}
					}
				}
			}
		}
	}
	later := []*ssa.Function{}
	for _, f := range fns {
		if !lf.touch[f] {
			continue
		}
		if f.Parent() != nil {
			later = append(later, f)
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if exported || !called[f] {
			c.Fn(f)
			lf.root(f)
		}
	}
	for _, f := range later {
		if !lf.ran[f] {
			lf.root(f)
		}
	}
}

func (c *Ctx) namedType(pkg, name string) *types.Named {
	for _, p := range c.Prog.AllPackages() {
		if p.Pkg.Name() == pkg && strings.HasPrefix(p.Pkg.Path(), c.Module) {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return namedOf(o.Type())
			}
		}
	}
	return nil
}

func (c *Ctx) copies(fns []*ssa.Function) {
	n := 0
	for _, f := range fns {
		for _, p := range f.Params {
			if holdsLock(p.Type()) {
				c.Fail("shared", c.short(f)+" "+p.Name(), f.Pos(), "%s is handed over by value: the lock in it is a copy that guards nothing", p.Name())
			}
			if lockField(p.Type()) >= 0 {
				n++
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if ok && u.Op == token.MUL && holdsLock(u.Type()) {
					c.Fail("shared", c.short(f)+" copy", instrPos(in), "an object with a lock is copied")
				}
			}
		}
	}
	c.Obl("shared", "receivers", token.NoPos, true, "")
	c.Stat("shared: locked objects handed over by reference", n)
}

// helperLocks analyses the text of generated helpers that define a lock.
func (c *Ctx) helperLocks() {
	found := false
	for name, src := range c.constTexts("sync.") {
		pkg, fset, err := c.textPackage(src.text)
		if err != nil {
			continue
		}
		_ = fset
		has := false
		for _, m := range pkg.Members {
			if t, ok := m.(*ssa.Type); ok && lockField(t.Type()) >= 0 {
				has = true
			}
		}
		if !has {
			continue
		}
		found = true
		var fns []*ssa.Function
		for _, m := range pkg.Members {
			switch m := m.(type) {
			case *ssa.Function:
				fns = append(fns, withAnon(m)...)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := pkg.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := pkg.Prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							fns = append(fns, withAnon(f)...)
						}
					}
				}
			}
		}
		uniq := map[*ssa.Function]bool{}
		var list []*ssa.Function
		for _, f := range fns {
			if !uniq[f] && len(f.Blocks) > 0 {
				uniq[f] = true
				list = append(list, f)
			}
		}
		lf := &lockFlow{p: c.Program, name: func(f *ssa.Function) string { return name + " " + f.Name() }}
		lf.callees = func(ci ssa.CallInstruction) []*ssa.Function {
			if g := ci.Common().StaticCallee(); g != nil && g.Pkg == pkg {
				return []*ssa.Function{g}
			}
			return nil
		}
		lf.report = func(kind, construct string, pos token.Pos, ok bool, msg string) {
			c.Obl(kind, "generated "+construct, src.pos, ok, "%s", msg)
		}
		lf.prepare(list)
		for _, f := range list {
			if lf.touch[f] {
				lf.root(f)
			}
			for _, p := range f.Params {
				if holdsLock(p.Type()) {
					c.Fail("shared", "generated "+f.Name(), src.pos, "%s is handed over by value: the lock in it is a copy that guards nothing", p.Name())
				}
			}
		}
		c.Obl("locked", "generated "+name, src.pos, len(list) > 0, "no method")
		c.Stat("generated lock: accesses", len(lf.access))
	}
	c.Obl("locked", "generated allocation map", token.NoPos, found || len(c.constTexts("type cgoAllocMap")) == 0, "the generated allocation map has no lock (or its text does not compile)")
}

type constText struct {
	text string
	pos  token.Pos
}

// constTexts: the string constants of the module that contain a text, by the
// name of the variable they are part of.
func (c *Ctx) constTexts(part string) map[string]constText {
	out := map[string]constText{}
	for _, pkg := range c.Pkgs {
		for _, file := range pkg.Syntax {
			ast.Inspect(file, func(n ast.Node) bool {
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				tv, ok := pkg.TypesInfo.Types[e]
				if !ok || tv.Value == nil {
					return true
				}
				if b, ok := tv.Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
					return true
				}
				s := constant.StringVal(tv.Value)
				if strings.Contains(s, part) {
					out[firstType(s)] = constText{s, e.Pos()}
				}
				return false
			})
		}
	}
	return out
}

func firstType(s string) string {
	f := strings.Fields(s)
	for i, w := range f {
		if (w == "type" || w == "func") && i+1 < len(f) {
			n := f[i+1]
			if j := strings.IndexAny(n, "([{"); j >= 0 {
				n = n[:j]
			}
			return n
		}
	}
	return clip(s, 20)
}

// textPackage compiles program text on its own; the C functions it uses are
// members of a variable C.
func (c *Ctx) textPackage(src string) (*ssa.Package, *token.FileSet, error) {
	head := "package generated\nimport (\n\t\"sync\"\n\t\"unsafe\"\n)\nvar _ sync.Mutex\nvar _ unsafe.Pointer\nvar C struct { free func(unsafe.Pointer) }\n"
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "generated.go", head+src, 0)
	if err != nil {
		return nil, nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: progImporter{c.Program}}
	pkg, err := conf.Check("generated", fset, []*ast.File{file}, info)
	if err != nil {
		return nil, nil, err
	}
	prog := ssa.NewProgram(fset, ssa.BuilderMode(0))
	var add func(p *types.Package)
	seen := map[*types.Package]bool{}
	add = func(p *types.Package) {
		for _, q := range p.Imports() {
			if !seen[q] {
				seen[q] = true
				prog.CreatePackage(q, nil, nil, true)
				add(q)
			}
		}
	}
	add(pkg)
	sp := prog.CreatePackage(pkg, []*ast.File{file}, info, false)
	sp.Build()
	return sp, fset, nil
}

type progImporter struct{ p *Program }

func (i progImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	for _, p := range i.p.Prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p.Pkg, nil
		}
	}
	return nil, errNoPackage
}

var errNoPackage = errors.New("package not loaded")

func withAnon(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, a := range f.AnonFuncs {
		out = append(out, withAnon(a)...)
	}
	return out
}
