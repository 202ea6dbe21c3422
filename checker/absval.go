package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Abstract values. A value is either known (constants, structs, heap
// references, concatenations of text pieces) or an uninterpreted term that
// names where an unknown quantity comes from ("field Slices of parameter
// goSpec"). Terms are compared structurally.

type V interface{ K() string }

type Const struct {
	T types.Type
	C constant.Value // nil: the nil of a nillable type
}

func (c *Const) K() string {
	if c.C == nil {
		return "nil"
	}
	if c.C.Kind() == constant.String {
		return strconv.Quote(constant.StringVal(c.C))
	}
	return c.C.ExactString()
}

type Term struct {
	Op   string
	Args []V
	T    types.Type
	k    string
}

func mkTerm(t types.Type, op string, args ...V) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	if len(args) > 0 {
		sb.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.K())
		}
		sb.WriteByte(')')
	}
	return &Term{Op: op, Args: args, T: t, k: sb.String()}
}
func (t *Term) K() string { return t.k }

// Cat is a concatenation of text pieces.
type Cat struct {
	Parts []V
	k     string
}

func (c *Cat) K() string {
	if c.k == "" {
		var sb strings.Builder
		sb.WriteString("cat(")
		for i, p := range c.Parts {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(p.K())
		}
		sb.WriteByte(')')
		c.k = sb.String()
	}
	return c.k
}

type StructV struct {
	T types.Type
	F []V
	k string
}

func (s *StructV) K() string {
	if s.k == "" {
		var sb strings.Builder
		sb.WriteString("{")
		for i, f := range s.F {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(f.K())
		}
		sb.WriteString("}")
		s.k = sb.String()
	}
	return s.k
}

// Ptr points into a heap object, along a path of field / element indexes.
type Ptr struct {
	Obj  int
	Path []int
	T    types.Type // pointer type
}

func (p *Ptr) K() string { return fmt.Sprintf("&%d%v", p.Obj, p.Path) }

// SliceV refers to a heap object holding a *SeqV.
type SliceV struct {
	Obj int
	T   types.Type
}

func (s *SliceV) K() string { return fmt.Sprintf("slice%d", s.Obj) }

// SeqV is the content of an array or slice: an optional unknown prefix and
// known elements after it.
type SeqV struct {
	Base V
	E    []V
	T    types.Type // element type
	N    V          // unknown length (make with a symbolic length)
	k    string
}

func (s *SeqV) K() string {
	if s.k != "" {
		return s.k
	}
	var sb strings.Builder
	sb.WriteString("[")
	if s.Base != nil {
		sb.WriteString(s.Base.K() + "..;")
	}
	if s.N != nil {
		sb.WriteString("n=" + s.N.K() + ";")
	}
	for _, e := range s.E {
		sb.WriteString(e.K() + ",")
	}
	sb.WriteString("]")
	s.k = sb.String()
	return s.k
}

type MapV struct {
	Obj int
	T   types.Type
}

func (m *MapV) K() string { return fmt.Sprintf("map%d", m.Obj) }

type MapVal struct {
	Ks, Vs []V
	Base   V // unknown initial content
	k      string
}

func (m *MapVal) K() string {
	if m.k == "" {
		var sb strings.Builder
		sb.WriteString("m{")
		if m.Base != nil {
			sb.WriteString(m.Base.K() + "..;")
		}
		for i := range m.Ks {
			sb.WriteString(m.Ks[i].K() + ":" + m.Vs[i].K() + ",")
		}
		sb.WriteString("}")
		m.k = sb.String()
	}
	return m.k
}

type Iface struct {
	T types.Type
	X V
}

func (i *Iface) K() string { return "i(" + types.TypeString(i.T, nil) + "," + i.X.K() + ")" }

type FnV struct {
	F fmt.Stringer
	B []V
}

func (f *FnV) K() string {
	s := "fn:" + f.F.String()
	for _, b := range f.B {
		s += "|" + b.K()
	}
	return s
}

type TupleV struct{ E []V }

func (t *TupleV) K() string {
	s := "("
	for _, e := range t.E {
		s += e.K() + ","
	}
	return s + ")"
}

// ---- constructors ---------------------------------------------------------

func cStr(s string) *Const { return &Const{types.Typ[types.String], constant.MakeString(s)} }
func cInt(n int64) *Const  { return &Const{types.Typ[types.Int], constant.MakeInt64(n)} }
func cBool(b bool) *Const  { return &Const{types.Typ[types.Bool], constant.MakeBool(b)} }
func cNil(t types.Type) *Const {
	return &Const{t, nil}
}

func isStrConst(v V) (string, bool) {
	c, ok := v.(*Const)
	if !ok || c.C == nil || c.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.C), true
}
func isIntConst(v V) (int64, bool) {
	c, ok := v.(*Const)
	if !ok || c.C == nil || c.C.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.C)
	return n, ok
}
func isBoolConst(v V) (bool, bool) {
	c, ok := v.(*Const)
	if !ok || c.C == nil || c.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.C), true
}
func isNilConst(v V) bool {
	c, ok := v.(*Const)
	return ok && c.C == nil
}

// parts flattens a string value into its pieces.
func parts(v V) []V {
	switch v := v.(type) {
	case *Cat:
		return v.Parts
	case *Const:
		if s, ok := isStrConst(v); ok && s == "" {
			return nil
		}
		if v.C == nil { // nil []byte
			return nil
		}
	}
	return []V{v}
}

func mkCat(vs ...V) V {
	var out []V
	for _, v := range vs {
		for _, p := range parts(v) {
			if s, ok := isStrConst(p); ok && len(out) > 0 {
				if s0, ok0 := isStrConst(out[len(out)-1]); ok0 {
					out[len(out)-1] = cStr(s0 + s)
					continue
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return cStr("")
	case 1:
		return out[0]
	}
	return &Cat{Parts: out}
}

func zeroVal(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &Const{t, constant.MakeString("")}
		case u.Info()&types.IsBoolean != 0:
			return &Const{t, constant.MakeBool(false)}
		case u.Info()&types.IsInteger != 0:
			return &Const{t, constant.MakeInt64(0)}
		case u.Info()&types.IsFloat != 0:
			return &Const{t, constant.MakeFloat64(0)}
		}
		return &Const{t, nil}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 64 {
			s := &SeqV{T: u.Elem()}
			for i := int64(0); i < u.Len(); i++ {
				s.E = append(s.E, zeroVal(u.Elem()))
			}
			return s
		}
		return mkTerm(t, "zeroarr")
	}
	return &Const{t, nil}
}

func typeOf(v V) types.Type {
	switch v := v.(type) {
	case *Const:
		return v.T
	case *Term:
		return v.T
	case *Cat:
		return types.Typ[types.String]
	case *StructV:
		return v.T
	case *Ptr:
		return v.T
	case *SliceV:
		return v.T
	case *MapV:
		return v.T
	case *Iface:
		return v.T
	}
	return nil
}

// ---- linear integer forms -------------------------------------------------

// lin splits an integer value into base term + constant.
func lin(v V) (V, int64, bool) {
	if n, ok := isIntConst(v); ok {
		return nil, n, true
	}
	if t, ok := v.(*Term); ok {
		if t.Op == "+c" {
			n, _ := isIntConst(t.Args[1])
			return t.Args[0], n, true
		}
		return t, 0, true
	}
	if c, ok := v.(*Cat); ok {
		return c, 0, true
	}
	return nil, 0, false
}

func mkAdd(t types.Type, b V, n int64) V {
	if b == nil {
		return &Const{t, constant.MakeInt64(n)}
	}
	if n == 0 {
		return b
	}
	return mkTerm(t, "+c", b, cInt(n))
}

// ---- facts ----------------------------------------------------------------

type ival struct {
	lo, hi int64
	neq    map[int64]bool
}

const (
	minI = math.MinInt64
	maxI = math.MaxInt64
)

// Facts are what branches taken on the way say about terms.
type Facts struct {
	b  map[string]bool
	iv map[string]ival
	eq map[string]string // string term -> const
	at map[string]V      // term by key, for reporting
}

func newFacts() *Facts {
	return &Facts{b: map[string]bool{}, iv: map[string]ival{}, eq: map[string]string{}, at: map[string]V{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.b {
		g.b[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.eq {
		g.eq[k] = v
	}
	for k, v := range f.at {
		g.at[k] = v
	}
	return g
}

func (f *Facts) meet(g *Facts) *Facts {
	h := newFacts()
	for k, v := range f.b {
		if w, ok := g.b[k]; ok && w == v {
			h.b[k] = v
			h.at[k] = f.at[k]
		}
	}
	for k, v := range f.eq {
		if w, ok := g.eq[k]; ok && w == v {
			h.eq[k] = v
			h.at[k] = f.at[k]
		}
	}
	for k, v := range f.iv {
		if w, ok := g.iv[k]; ok {
			r := ival{lo: min(v.lo, w.lo), hi: max(v.hi, w.hi)}
			for n := range v.neq {
				if w.neq[n] || n < w.lo || n > w.hi {
					if r.neq == nil {
						r.neq = map[int64]bool{}
					}
					r.neq[n] = true
				}
			}
			if r.lo != minI || r.hi != maxI || len(r.neq) > 0 {
				h.iv[k] = r
				h.at[k] = f.at[k]
			}
		}
	}
	return h
}

func (f *Facts) key() string {
	l := strings.Split(f.String(), "; ")
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (f *Facts) String() string {
	var out []string
	for k, v := range f.b {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	for k, v := range f.iv {
		out = append(out, fmt.Sprintf("%s in[%d,%d]", k, v.lo, v.hi))
	}
	for k, v := range f.eq {
		out = append(out, fmt.Sprintf("%s==%q", k, v))
	}
	return strings.Join(out, "; ")
}

func baseInterval(v V) ival {
	r := ival{lo: minI, hi: maxI}
	if c, ok := v.(*Cat); ok { // not an int; used through len()
		_ = c
		return r
	}
	t := typeOf(v)
	if t == nil {
		return r
	}
	if tm, ok := v.(*Term); ok && (tm.Op == "len" || tm.Op == "cap") {
		r.lo = 0
		if c, ok := tm.Args[0].(*Cat); ok {
			for _, p := range c.Parts {
				if s, ok := isStrConst(p); ok {
					r.lo += int64(len(s))
				}
			}
		}
		return r
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return ival{lo: 0, hi: 255}
		case types.Uint16:
			return ival{lo: 0, hi: 65535}
		case types.Uint32, types.Uint64, types.Uint, types.Uintptr:
			r.lo = 0
		}
	}
	return r
}

func (f *Facts) interval(v V) ival {
	r := baseInterval(v)
	if w, ok := f.iv[v.K()]; ok {
		if w.lo > r.lo {
			r.lo = w.lo
		}
		if w.hi < r.hi {
			r.hi = w.hi
		}
		r.neq = w.neq
	}
	return r
}

// evalBool decides a boolean value under the facts: 1 true, 0 false, -1 unknown.
func (f *Facts) evalBool(v V) int {
	if b, ok := isBoolConst(v); ok {
		if b {
			return 1
		}
		return 0
	}
	t, ok := v.(*Term)
	if !ok {
		return -1
	}
	if t.Op == "not" {
		r := f.evalBool(t.Args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	}
	if b, ok := f.b[t.K()]; ok {
		if b {
			return 1
		}
		return 0
	}
	switch t.Op {
	case "and":
		r := 1
		for _, a := range t.Args {
			switch f.evalBool(a) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	case "lt": // a < b
		a, b := t.Args[0], t.Args[1]
		la, na, ok1 := lin(a)
		lb, nb, ok2 := lin(b)
		if !ok1 || !ok2 {
			return -1
		}
		if la == nil && lb == nil {
			return b2i(na < nb)
		}
		if la != nil && lb != nil {
			if la.K() == lb.K() {
				return b2i(na < nb)
			}
			return -1
		}
		if la != nil { // x+na < nb  => x < nb-na
			iv := f.interval(la)
			lim := nb - na
			if iv.hi != maxI && iv.hi < lim {
				return 1
			}
			if iv.lo != minI && iv.lo >= lim {
				return 0
			}
			return -1
		}
		// na < x+nb  => x > na-nb
		iv := f.interval(lb)
		lim := na - nb
		if iv.lo != minI && iv.lo > lim {
			return 1
		}
		if iv.hi != maxI && iv.hi <= lim {
			return 0
		}
		return -1
	case "eqi":
		a, b := t.Args[0], t.Args[1]
		la, na, ok1 := lin(a)
		lb, nb, ok2 := lin(b)
		if !ok1 || !ok2 {
			return -1
		}
		if la != nil && lb != nil {
			if la.K() == lb.K() {
				return b2i(na == nb)
			}
			return -1
		}
		if la == nil && lb == nil {
			return b2i(na == nb)
		}
		if la == nil {
			la, na, nb = lb, nb, na
		}
		iv := f.interval(la)
		x := nb - na
		if x < iv.lo || x > iv.hi || iv.neq[x] {
			return 0
		}
		if iv.lo == iv.hi && iv.lo == x {
			return 1
		}
		return -1
	case "eqs":
		a, b := t.Args[0], t.Args[1]
		sb, okb := isStrConst(b)
		if okb {
			if s, ok := f.eq[a.K()]; ok {
				return b2i(s == sb)
			}
			if c, ok := a.(*Cat); ok {
				if s, ok := isStrConst(c.Parts[0]); ok && !strings.HasPrefix(sb, s) {
					return 0
				}
				if s, ok := isStrConst(c.Parts[len(c.Parts)-1]); ok && !strings.HasSuffix(sb, s) {
					return 0
				}
			}
		}
		return -1
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// assume returns the facts refined by v==truth, or nil when contradictory.
func (f *Facts) assume(v V, truth bool) *Facts {
	if r := f.evalBool(v); r >= 0 {
		if (r == 1) == truth {
			return f
		}
		return nil
	}
	t, ok := v.(*Term)
	if !ok {
		return f
	}
	if t.Op == "not" {
		return f.assume(t.Args[0], !truth)
	}
	if t.Op == "and" && truth {
		for _, a := range t.Args {
			if f = f.assume(a, true); f == nil {
				return nil
			}
		}
		return f
	}
	g := f.clone()
	switch t.Op {
	case "lt":
		la, na, _ := lin(t.Args[0])
		lb, nb, _ := lin(t.Args[1])
		if (la == nil) != (lb == nil) {
			var x V
			var iv ival
			if la != nil {
				x = la
				iv = f.interval(la)
				lim := nb - na
				if truth { // x < lim
					iv.hi = min(iv.hi, lim-1)
				} else {
					iv.lo = max(iv.lo, lim)
				}
			} else {
				x = lb
				iv = f.interval(lb)
				lim := na - nb
				if truth { // x > lim
					iv.lo = max(iv.lo, lim+1)
				} else {
					iv.hi = min(iv.hi, lim)
				}
			}
			for iv.neq[iv.lo] && iv.lo <= iv.hi {
				iv.lo++
			}
			for iv.neq[iv.hi] && iv.lo <= iv.hi {
				iv.hi--
			}
			if iv.lo > iv.hi {
				return nil
			}
			g.iv[x.K()] = iv
			g.at[x.K()] = x
			return g
		}
		g.b[t.K()] = truth
		g.at[t.K()] = t
		return g
	case "eqi":
		la, na, _ := lin(t.Args[0])
		lb, nb, _ := lin(t.Args[1])
		if (la == nil) != (lb == nil) {
			if la == nil {
				la, na, nb = lb, nb, na
			}
			iv := f.interval(la)
			x := nb - na
			if truth {
				iv.lo, iv.hi = x, x
				iv.neq = nil
			} else {
				m := map[int64]bool{x: true}
				for k := range iv.neq {
					m[k] = true
				}
				iv.neq = m
				for iv.neq[iv.lo] && iv.lo <= iv.hi {
					iv.lo++
				}
				for iv.neq[iv.hi] && iv.lo <= iv.hi {
					iv.hi--
				}
				if iv.lo > iv.hi {
					return nil
				}
			}
			g.iv[la.K()] = iv
			g.at[la.K()] = la
			return g
		}
		g.b[t.K()] = truth
		g.at[t.K()] = t
		return g
	case "eqs":
		if s, ok := isStrConst(t.Args[1]); ok && truth {
			g.eq[t.Args[0].K()] = s
			g.at[t.Args[0].K()] = t.Args[0]
			return g
		}
		g.b[t.K()] = truth
		g.at[t.K()] = t
		return g
	}
	g.b[t.K()] = truth
	g.at[t.K()] = t
	return g
}

// holds reports whether the named boolean term is known with that truth.
func (f *Facts) holds(v V, truth bool) bool {
	r := f.evalBool(v)
	return r >= 0 && (r == 1) == truth
}

// ---- comparisons ----------------------------------------------------------

func mkNot(v V) V {
	if b, ok := isBoolConst(v); ok {
		return cBool(!b)
	}
	if t, ok := v.(*Term); ok && t.Op == "not" {
		return t.Args[0]
	}
	return mkTerm(types.Typ[types.Bool], "not", v)
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func lenOf(v V, st *State) V {
	tI := types.Typ[types.Int]
	switch x := v.(type) {
	case *Const:
		if x.C == nil {
			return cInt(0)
		}
		if s, ok := isStrConst(x); ok {
			return cInt(int64(len(s)))
		}
	case *SliceV:
		if q, ok := st.get(x.Obj).(*SeqV); ok {
			if q.N != nil {
				return q.N
			}
			if q.Base == nil {
				return cInt(int64(len(q.E)))
			}
			return mkAdd(tI, lenOf(q.Base, st), int64(len(q.E)))
		}
	case *MapV:
		if m, ok := st.get(x.Obj).(*MapVal); ok && m.Base == nil {
			all := true
			for _, k := range m.Ks {
				if _, ok := k.(*Const); !ok {
					all = false
				}
			}
			if all {
				return cInt(int64(len(m.Ks)))
			}
		}
	case *Iface:
		return lenOf(x.X, st)
	}
	return mkTerm(tI, "len", v)
}

func mkEq(x, y V, t types.Type, st *State) V {
	tb := types.Typ[types.Bool]
	cx, okx := x.(*Const)
	cy, oky := y.(*Const)
	if okx && oky {
		if cx.C == nil || cy.C == nil {
			return cBool(cx.C == nil && cy.C == nil)
		}
		if cx.C.Kind() == cy.C.Kind() {
			return cBool(constant.Compare(cx.C, token.EQL, cy.C))
		}
	}
	if x.K() == y.K() {
		if _, isT := x.(*Iface); !isT {
			return cBool(true)
		}
	}
	if b, ok := isBoolConst(x); ok {
		if b {
			return y
		}
		return mkNot(y)
	}
	if b, ok := isBoolConst(y); ok {
		if b {
			return x
		}
		return mkNot(x)
	}
	// nil comparisons
	if okx && cx.C == nil {
		x, y = y, x
		cx, okx, cy, oky = cy, oky, cx, okx
	}
	if oky && cy.C == nil {
		switch x := x.(type) {
		case *Ptr, *SliceV, *MapV, *FnV, *Iface:
			_ = x
			return cBool(false)
		case *Term:
			if strings.HasPrefix(x.Op, "&.") || x.Op == "&[]" || strings.HasPrefix(x.Op, "err:") || neverNil[x.Op] {
				return cBool(false)
			}
		}
		return mkTerm(tb, "isnil", x)
	}
	if ix, ok := x.(*Iface); ok {
		if iy, ok := y.(*Iface); ok {
			if !types.Identical(ix.T, iy.T) {
				return cBool(false)
			}
			return mkEq(ix.X, iy.X, ix.T, st)
		}
	}
	if t == nil {
		t = typeOf(x)
	}
	if isStringType(t) || isStringType(typeOf(y)) {
		if okx && !oky {
			x, y = y, x
		}
		if s, ok := isStrConst(y); ok {
			if s == "" {
				return mkEq(lenOf(x, st), cInt(0), types.Typ[types.Int], st)
			}
			if c, ok := x.(*Cat); ok {
				if p, ok := isStrConst(c.Parts[0]); ok && !strings.HasPrefix(s, p) {
					return cBool(false)
				}
				if p, ok := isStrConst(c.Parts[len(c.Parts)-1]); ok && !strings.HasSuffix(s, p) {
					return cBool(false)
				}
			}
		} else if y.K() < x.K() {
			x, y = y, x
		}
		return mkTerm(tb, "eqs", x, y)
	}
	if isIntType(t) || isIntType(typeOf(y)) {
		if okx && !oky {
			x, y = y, x
		} else if !oky && y.K() < x.K() {
			x, y = y, x
		}
		return mkTerm(tb, "eqi", x, y)
	}
	if sx, ok := x.(*StructV); ok {
		if sy, ok := y.(*StructV); ok && len(sx.F) == len(sy.F) {
			var unknown []V
			for i := range sx.F {
				e := mkEq(sx.F[i], sy.F[i], nil, st)
				if b, ok := isBoolConst(e); ok {
					if !b {
						return cBool(false)
					}
					continue
				}
				unknown = append(unknown, e)
			}
			if len(unknown) == 0 {
				return cBool(true)
			}
			if len(unknown) == 1 {
				return unknown[0]
			}
			return mkTerm(tb, "and", unknown...)
		}
	}
	if y.K() < x.K() {
		x, y = y, x
	}
	return mkTerm(tb, "eq", x, y)
}

func mkLt(x, y V) V {
	tb := types.Typ[types.Bool]
	if a, ok := x.(*Const); ok {
		if b, ok := y.(*Const); ok && a.C != nil && b.C != nil {
			return cBool(constant.Compare(a.C, token.LSS, b.C))
		}
	}
	if x.K() == y.K() {
		return cBool(false)
	}
	if isStringType(typeOf(x)) {
		return mkTerm(tb, "lts", x, y)
	}
	return mkTerm(tb, "lt", x, y)
}
