package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: C arithmetic types become Go types of the same size and signedness.

func init() { checks["C06"] = c06 }

type arith struct {
	kind string // constant of cc
	cgo  string // name under C.
	go32 string // Go type where C long has 4 bytes
	go64 string // and 8
}

var ariths = []arith{
	{"Bool", "_Bool", "bool", "bool"},
	{"Char", "char", "byte", "byte"},
	{"SChar", "schar", "int8", "int8"},
	{"UChar", "uchar", "byte", "byte"},
	{"Short", "short", "int16", "int16"},
	{"UShort", "ushort", "uint16", "uint16"},
	{"Int", "int", "int32", "int32"},
	{"UInt", "uint", "uint32", "uint32"},
	{"Long", "long", "int32", "int64"},
	{"ULong", "ulong", "uint32", "uint64"},
	{"LongLong", "longlong", "int64", "int64"},
	{"ULongLong", "ulonglong", "uint64", "uint64"},
	{"Float", "float", "float32", "float32"},
	{"Double", "double", "float64", "float64"},
	{"ComplexFloat", "complexfloat", "complex64", "complex64"},
	{"ComplexDouble", "complexdouble", "complex128", "complex128"},
}

func c06(c *Ctx) {
	c.Rule("recorded: the specification made of a C type of each arithmetic kind is the same on every path and differs between kinds that differ")
	c.Rule("translated: abstract interpretation of TranslateSpec with that specification (constness, array dimensions, pointer depth, tips and user type map open) over the built-in type map as the code builds it yields the Go type of the same size and signedness on every path where the user's type map has no say")
	c.Rule("spelled: that Go type is written by its Go name, and the C side by the name cgo has for the kind")
	c.Rule("string: a pointer to constant characters, plain or unsigned, is a Go string by itself exactly if the setting for that kind of character says so, whatever the settings for the others")
	c.Rule("target: whether long has 8 bytes is taken from the ABI of the target")
	recorded := c.arithSpecs()
	if recorded == nil {
		return
	}
	c.translated(recorded)
	c.spelled(recorded)
	c.stringsAsSet()
	c.longSize()
	c.Floor("recorded", 16)
	c.Floor("translated", 60)
	c.Floor("spelled", 16)
	c.Floor("string", 8)
	c.Floor("target", 1)
}

func (c *Ctx) ccKind(name string) (int64, bool) {
	for _, p := range c.Prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), "modernc.org/cc/") {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return constant.Int64Val(k.Val())
			}
		}
	}
	return 0, false
}

// arithSpecs: kind name -> the CTypeSpec recorded for it (fields that matter).
func (c *Ctx) arithSpecs() map[string]*StructV {
	fn := c.Anchor("translator", "Translator", "typeSpec")
	if fn == nil {
		return nil
	}
	t := c.table("recorded", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return nil
	}
	out := map[string]*StructV{}
	for _, a := range ariths {
		kv, ok := c.ccKind(a.kind)
		if !ok {
			c.Fail("recorded", a.kind, fn.Pos(), "the front end has no type kind %s", a.kind)
			continue
		}
		seen := map[string]*StructV{}
		for _, r := range t.Path {
			if !kindIs(r.F, kv) || len(r.Ret) != 1 {
				continue
			}
			s := specOf(r.St, r.Ret[0])
			if s == nil || s.T == nil || !strings.HasSuffix(s.T.String(), "CTypeSpec") {
				c.Fail("recorded", a.kind, r.Pos, "a C type of kind %s is not recorded as a plain type: %s", a.kind, clip(r.St.snap(r.Ret[0]).K(), 120))
				continue
			}
			key := ""
			for _, f := range []string{"Base", "Signed", "Unsigned", "Short", "Long", "Complex"} {
				key += s.field(f).K() + ","
			}
			seen[key] = s
		}
		var ks []string
		for k := range seen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if c.Obl("recorded", a.kind, fn.Pos(), len(ks) == 1, "a C type of kind %s is recorded in %d ways: %v", a.kind, len(ks), ks) {
			out[a.kind] = seen[ks[0]]
		}
	}
	return out
}

// kindIs: the kind of the type at hand is known to be k.
func kindIs(f *Facts, k int64) bool {
	for key, iv := range f.iv {
		if strings.HasPrefix(key, "inv:") && strings.Contains(key, "Type.Kind(") && iv.lo == k && iv.hi == k && !strings.Contains(key, "Kind(ext:") {
			return true
		}
	}
	return false
}

// specOf: the struct an interface value or pointer refers to.
func specOf(st *State, v V) *StructV {
	v = st.snap(v)
	if i, ok := v.(*Iface); ok {
		v = i.X
	}
	if t, ok := v.(*Term); ok && t.Op == "ptr" && len(t.Args) == 1 {
		v = t.Args[0]
	}
	s, _ := v.(*StructV)
	return s
}

func (s *StructV) field(name string) V {
	st, ok := s.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.F[i]
		}
	}
	return nil
}

func structOf(t types.Type, vals map[string]V, dflt func(name string, t types.Type) V) *StructV {
	s := &StructV{T: t}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if v, ok := vals[f.Name()]; ok {
			s.F = append(s.F, v)
		} else {
			s.F = append(s.F, dflt(f.Name(), f.Type()))
		}
	}
	return s
}

func (c *Ctx) translated(recorded map[string]*StructV) {
	fn := c.Anchor("translator", "Translator", "TranslateSpec")
	mk := c.Anchor("translator", "", "getCTypeMap")
	if fn == nil || mk == nil {
		return
	}
	for _, long64 := range []bool{false, true} {
		ip := newInterp(c.Program)
		if err := ip.runInits(); err != nil {
			c.Fail("translated", "init", fn.Pos(), "%v", err)
			return
		}
		setupEmission(c, ip, "lookupSpec", "CGoName", "splitPointers", "Prepend", "IsPlain", "Kind", "Copy")
		typemap := func(str bool) V {
			outs, err := ip.Run(mk, []V{cBool(str), cBool(false), cBool(long64)}, nil)
			if err != nil || len(outs) != 1 {
				c.Fail("translated", "getCTypeMap", mk.Pos(), "the built-in type map could not be determined: %v, %d outcomes", err, len(outs))
				return nil
			}
			return outs[0].St.snap(outs[0].Ret[0])
		}
		m1, m2 := typemap(false), typemap(true)
		if m1 == nil || m2 == nil {
			return
		}
		for _, a := range ariths {
			rec := recorded[a.kind]
			if rec == nil {
				continue
			}
			for _, ptr := range []int{0, 1, 2, -1} {
				c.translateOne(ip, m1, m2, fn, mk, a, rec, long64, ptr)
			}
		}
	}
}

// stringsAsSet: what ConstCharIsString and ConstUCharIsString decide.
func (c *Ctx) stringsAsSet() {
	fn := c.Anchor("translator", "Translator", "lookupSpec")
	mk := c.Anchor("translator", "", "getCTypeMap")
	if fn == nil || mk == nil || len(mk.Params) < 2 {
		return
	}
	for n := 0; n < 8; n++ {
		set := map[string]bool{"plain": n&1 != 0, "unsigned": n&2 != 0}
		long64 := n&4 != 0
		ip := newInterp(c.Program)
		if err := ip.runInits(); err != nil {
			c.Fail("string", "init", fn.Pos(), "%v", err)
			return
		}
		setupEmission(c, ip)
		outs, err := ip.Run(mk, []V{cBool(set["plain"]), cBool(set["unsigned"]), cBool(long64)}, nil)
		if err != nil || len(outs) != 1 {
			c.Fail("string", "getCTypeMap", mk.Pos(), "the built-in type map could not be determined: %v, %d outcomes", err, len(outs))
			return
		}
		m := outs[0].St.snap(outs[0].Ret[0])
		for _, a := range []struct {
			kind string
			set  map[string]V
		}{{"plain", nil}, {"unsigned", map[string]V{"Unsigned": cBool(true)}}} {
			args := namedArgs(fn)
			tt := derefT(fn.Params[0].Type())
			self := mkTerm(tt, "*", args[0])
			tr := structOf(tt, map[string]V{"builtinTypemap": &MapV{Obj: ip.constObj(m), T: mk.Signature.Results().At(0).Type()}}, func(n string, t types.Type) V { return mkTerm(t, "."+n, self) })
			args[0] = &Ptr{Obj: ip.constObj(tr), T: fn.Params[0].Type()}
			vals := map[string]V{"Base": cStr("char"), "Const": cBool(true), "Pointers": &Const{types.Typ[types.Uint8], constant.MakeInt64(1)}}
			for k, v := range a.set {
				vals[k] = v
			}
			args[1] = structOf(fn.Params[1].Type(), vals, func(n string, t types.Type) V { return zeroVal(t) })
			args[2] = cBool(false)
			outs, err := ip.Run(fn, args, ip.newState())
			con := fmt.Sprintf("%s characters, settings %v %v, long of %d bytes", a.kind, set["plain"], set["unsigned"], map[bool]int{false: 4, true: 8}[long64])
			if err != nil {
				c.Fail("string", con, fn.Pos(), "the analysis could not follow lookupSpec: %v", err)
				continue
			}
			seen := 0
			for _, o := range outs {
				if o.Panic || len(o.Ret) != 2 {
					continue
				}
				v := o.St.snap(o.Ret[0])
				if strings.Contains(v.K(), ".typemap(") {
					continue // the user's type map decides
				}
				seen++
				base, uns := "", ""
				if s, ok := v.(*StructV); ok {
					base, _ = isStrConst(s.field("Base"))
					uns = s.field("Unsigned").K()
				}
				found := o.St.snap(o.Ret[1]).K() == "true"
				str := found && base == "string"
				ok := str == set[a.kind]
				if ok && str {
					ok = uns == map[string]string{"plain": "false", "unsigned": "true"}[a.kind]
				}
				c.Obl("string", con, fn.Pos(), ok, "a pointer to constant %s characters is looked up as %s (found: %v) although the setting says %v", a.kind, clip(v.K(), 120), found, set[a.kind])
			}
			c.Obl("string", con+" decided", fn.Pos(), seen > 0, "lookupSpec decides nothing for a pointer to constant %s characters", a.kind)
		}
	}
}

// constObj adds an object that exists before the analysis starts.
func (ip *Interp) constObj(v V) int {
	id := ip.baseN
	ip.base[id] = v
	ip.baseN++
	return id
}

func (c *Ctx) translateOne(ip *Interp, m1, m2 V, fn, mk *ssa.Function, a arith, rec *StructV, long64 bool, ptr int) {
	args := namedArgs(fn)
	tt := derefT(fn.Params[0].Type())
	self := mkTerm(tt, "*", args[0])
	vals := map[string]V{}
	for n, m := range map[string]V{"builtinTypemap": m1, "builtinTypemap2": m2} {
		vals[n] = &MapV{Obj: ip.constObj(m), T: mk.Signature.Results().At(0).Type()}
	}
	tr := structOf(tt, vals, func(n string, t types.Type) V { return mkTerm(t, "."+n, self) })
	args[0] = &Ptr{Obj: ip.constObj(tr), T: fn.Params[0].Type()}
	st := ip.newState()
	spec := &StructV{T: rec.T}
	u := rec.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		switch f.Name() {
		case "Base", "Signed", "Unsigned", "Short", "Long", "Complex", "Opaque":
			spec.F = append(spec.F, rec.F[i])
		case "Pointers":
			if ptr < 0 {
				p := mkTerm(f.Type(), "pointers")
				spec.F = append(spec.F, p)
				st.facts = st.facts.assume(mkLt(cInt(0), p), true)
			} else {
				spec.F = append(spec.F, &Const{f.Type(), constant.MakeInt64(int64(ptr))})
			}
		default:
			spec.F = append(spec.F, mkTerm(f.Type(), "spec."+f.Name()))
		}
	}
	pt := types.NewPointer(rec.T)
	args[1] = &Iface{T: pt, X: &Ptr{Obj: st.alloc(spec), T: pt}}
	outs, err := ip.Run(fn, args, st)
	con := fmt.Sprintf("%s, long of %d bytes", a.kind, map[bool]int{false: 4, true: 8}[long64])
	switch {
	case ptr < 0:
		con += ", behind pointers"
	case ptr > 0:
		con += fmt.Sprintf(", pointer depth %d", ptr)
	}
	if err != nil {
		c.Fail("translated", con, fn.Pos(), "the analysis could not follow TranslateSpec: %v", err)
		return
	}
	want := a.go32
	if long64 {
		want = a.go64
	}
	got := map[string]*StructV{}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		s := specOf(o.St, o.Ret[0])
		if s == nil {
			v := o.St.snap(o.Ret[0])
			if strings.Contains(v.K(), ".typemap(") {
				continue // the user's type map decides
			}
			c.Fail("translated", con, fn.Pos(), "TranslateSpec answers %s", clip(v.K(), 150))
			continue
		}
		k := ""
		for _, f := range []string{"Base", "Bits", "Unsigned"} {
			k += s.field(f).K() + " "
		}
		if strings.Contains(k, ".typemap(") {
			continue
		}
		got[k] = s
	}
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	n := 0
	for _, k := range ks {
		texts := c.goTexts(ip, got[k])
		if ptr != 0 && (a.kind == "Char" || a.kind == "UChar") && len(texts) > 0 && texts["String"] == "string" {
			continue // text, by the string tip or setting
		}
		n++
		for _, m := range textKeys(texts) {
			c.Obl("translated", con+" "+m, fn.Pos(), texts[m] == want, "a C type of kind %s becomes the Go type %s (%s of the specification), not %s", a.kind, texts[m], m, want)
		}
		if len(texts) == 0 && ptr < 0 && strings.Contains(k, ").TransformName(") {
			// no entry for any depth: that the last step of the search, at depth
			// zero, does find one is what the constant depths show
			n--
			continue
		}
		if len(texts) == 0 {
			c.Fail("translated", con, fn.Pos(), "a C type of kind %s becomes {%s}, not a type that is spelled %s", a.kind, k, want)
		}
	}
	c.Obl("translated", con+" decided", fn.Pos(), n > 0, "no path of TranslateSpec translates a C type of kind %s by the built-in type map", a.kind)
}

func textKeys(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// goTexts: how the methods of the Go specification spell it.
func (c *Ctx) goTexts(ip *Interp, s *StructV) map[string]string {
	z := zeroVal(s.T).(*StructV)
	n := &StructV{T: s.T}
	u := s.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "Base", "Bits", "Unsigned":
			n.F = append(n.F, s.F[i])
		default:
			n.F = append(n.F, z.F[i])
		}
	}
	out := map[string]string{}
	for _, m := range []string{"String", "PlainType", "UnderlyingString"} {
		fn := c.Anchor("translator", "GoTypeSpec", m)
		if fn == nil {
			continue
		}
		if txt, ok := c.textOf(fn, n); ok {
			out[m] = txt
		} else {
			return nil
		}
	}
	return out
}

// textOf: the text a method answers for a receiver that is known.
func (c *Ctx) textOf(fn *ssa.Function, recv *StructV) (string, bool) {
	key := c.short(fn) + " " + recv.K()
	if t, ok := c.texts[key]; ok {
		return t, t != "\x00"
	}
	if c.texts == nil {
		c.texts = map[string]string{}
	}
	t, ok := c.textOf1(fn, recv)
	if !ok {
		t = "\x00"
	}
	c.texts[key] = t
	return t, ok
}

func (c *Ctx) textOf1(fn *ssa.Function, recv *StructV) (string, bool) {
	ip := newInterp(c.Program)
	if ip.runInits() != nil {
		return "", false
	}
	ip.Inline = func(f *ssa.Function) bool { return true }
	st := ip.newState()
	var arg V = recv
	if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
		arg = &Ptr{Obj: st.alloc(recv), T: fn.Params[0].Type()}
	}
	outs, err := ip.Run(fn, []V{arg}, st)
	if err != nil || len(outs) != 1 || len(outs[0].Ret) != 1 {
		return "", false
	}
	return isStrConst(outs[0].St.snap(outs[0].Ret[0]))
}

func (c *Ctx) spelled(recorded map[string]*StructV) {
	fn := c.Anchor("translator", "CTypeSpec", "CGoName")
	if fn == nil {
		return
	}
	for _, a := range ariths {
		rec := recorded[a.kind]
		if rec == nil {
			continue
		}
		z := zeroVal(rec.T).(*StructV)
		n := &StructV{T: rec.T}
		u := rec.T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "Base", "Signed", "Unsigned", "Short", "Long", "Complex":
				n.F = append(n.F, rec.F[i])
			default:
				n.F = append(n.F, z.F[i])
			}
		}
		txt, ok := c.textOf(fn, n)
		c.Obl("spelled", a.kind, fn.Pos(), ok && txt == a.cgo, "the C side of a type of kind %s is named C.%s, not C.%s", a.kind, txt, a.cgo)
	}
}

// longSize: the translator learns the size of long from the target's ABI.
func (c *Ctx) longSize() {
	fn := c.Anchor("main", "", "NewProcess")
	if fn == nil {
		return
	}
	kv, _ := c.ccKind("Long")
	t := c.table("target", fn, func(ip *Interp) {
		setupEmission(c, ip)
		tr := ip.Trace
		ip.Trace = func(e *Event) bool { return tr(e) || e.Kind == "call" && e.Name == "translator.New" }
	})
	if t == nil {
		return
	}
	for _, r := range t.Path {
		for i, e := range r.Ev {
			if e.Kind != "call" || e.Name != "translator.New" {
				continue
			}
			v := fieldAtCall(r, i, 0, "LongIs64Bit")
			isSize := func(x V) bool {
				k := x.K()
				return strings.HasPrefix(k, ".Size(get(.Types(") && strings.Contains(k, "ABI") && strings.HasSuffix(k, fmt.Sprintf(",%d))", kv))
			}
			ok := false
			if t, is := v.(*Term); is && t.Op == "eqi" && len(t.Args) == 2 {
				n, isN := isIntConst(t.Args[1])
				ok = isSize(t.Args[0]) && isN && n == 8
				if n, isN := isIntConst(t.Args[0]); isN && n == 8 && isSize(t.Args[1]) {
					ok = true
				}
			}
			if b, is := isBoolConst(v); is {
				for key, iv := range r.F.iv {
					if isSize(mkTerm(nil, key)) {
						ok = b && iv.lo == 8 && iv.hi == 8 || !b && (iv.lo > 8 || iv.hi < 8 || iv.neq[8])
					}
				}
			}
			what := "nothing"
			if v != nil {
				what = clip(v.K(), 160)
			}
			c.Obl("target", "size of long", e.Pos, ok, "whether long has 8 bytes is decided by %s, not by the size of long in the target's ABI", what)
		}
	}
}

// fieldAtCall: what a field of the object handed to the i-th event's call as
// its n-th argument holds then.
func fieldAtCall(r *Row, i, n int, field string) V {
	e := r.Ev[i]
	if n >= len(e.Args) {
		return nil
	}
	if s := specOf(r.St, e.Args[n]); s != nil {
		return s.field(field)
	}
	at := "&." + field + "(" + e.Args[n].K() + ")"
	for j := i - 1; j >= 0; j-- {
		if x := r.Ev[j]; x.Kind == "store" && len(x.Args) == 2 && x.Args[0].K() == at {
			return x.Args[1]
		}
	}
	return nil
}
