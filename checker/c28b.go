package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapOf: the map of an allocation map as it is at the start of the path, or of
// the iteration.
func (a *all28) isMapOf(v V, obj string) bool {
	k := v.K()
	return k == ".m(*("+obj+"))" || strings.HasPrefix(k, "lv#") && strings.HasSuffix(k, "#s&.m("+obj+")")
}

// mapOps: what a path does to the map of an allocation map.
type mapOps28 struct {
	added, gone []string // keys
	fresh       bool     // a new map takes the place of the old one
	cleared     bool     // everything is taken out
	why         string   // not as it should be
}

func (a *all28) ops(r *Row, obj string) (m mapOps28) {
	var old V
	for i := range r.Ev {
		e := &r.Ev[i]
		switch e.Kind {
		case "store":
			if t, ok := e.Args[0].(*Term); ok && t.K() == "&.m("+obj+")" {
				if strings.HasPrefix(e.Args[1].K(), "m{") {
					m.fresh = true
				} else if isNilV(e.Args[1]) {
					m.cleared = true
				} else if !a.isMapOf(e.Args[1], obj) {
					m.why = "the map is replaced by another one"
				}
			}
		case "mapset":
			if a.isNow(r, e.Args[0], obj) {
				m.added = append(m.added, peel(e.Args[1]).K())
			}
		case "mapstore":
			if a.isMapOf(e.Args[0], obj) {
				old = e.Args[0]
				m.added = append(m.added, peel(e.Args[1]).K())
				if r.F.evalBool(a.isNil(old)) != 0 {
					m.why = "a pointer is put into a map that may not have been made"
				}
			}
		case "mapdelete":
			if a.isMapOf(e.Args[0], obj) {
				m.gone = append(m.gone, peel(e.Args[1]).K())
			}
		}
	}
	return
}

// isNow: the map is the one the allocation map has at the end of the path.
func (a *all28) isNow(r *Row, v V, obj string) bool {
	m, ok := v.(*MapV)
	now, ok2 := r.St.sym["&.m("+obj+")"].v.(*MapV)
	return ok && ok2 && m.Obj == now.Obj
}

func (a *all28) isNil(v V) V { return mkTerm(types.Typ[types.Bool], "isnil", v) }

// none: the map is known to have no pointers on the path.
func (a *all28) none(r *Row, obj string) bool {
	for _, t := range r.F.at {
		x, ok := t.(*Term)
		if !ok {
			continue
		}
		if x.Op == "len" && a.isMapOf(x.Args[0], obj) && r.F.interval(x).hi <= 0 {
			return true
		}
	}
	for _, t := range r.F.boolTerms() {
		if !r.F.b[t.K()] {
			continue
		}
		if t.Op == "isnil" && a.isMapOf(t.Args[0], obj) {
			return true
		}
		if strings.HasPrefix(t.Op, "call:") && strings.HasSuffix(t.Op, "IsEmpty") && len(t.Args) == 1 && t.Args[0].K() == obj {
			return true
		}
	}
	return false
}

// through: the path went through the whole map of obj.
func (a *all28) through(r *Row, obj string) bool {
	for _, t := range r.F.boolTerms() {
		if strings.HasPrefix(t.Op, "more#iter(.m(*("+obj+"))") && !r.F.b[t.K()] {
			return true
		}
	}
	return false
}

func (a *all28) overMap(r *Row, obj string) bool {
	return r.Loop != nil && strings.HasPrefix(r.Loop.Key, "iter(.m(*("+obj+"))")
}

// keyOf: the pointer the iteration is about.
func (a *all28) isKey(k string, r *Row) bool {
	return strings.HasPrefix(k, "key#"+r.Loop.Key)
}

func calls28(r *Row, name string) (out []*Event) {
	for i := range r.Ev {
		if e := &r.Ev[i]; e.Kind == "call" && opSuffix(e.Name) == name {
			out = append(out, e)
		}
	}
	return
}

func (a *all28) allocMap() {
	c := a.c
	h := a.by["cgoAllocMap"]
	if h == nil {
		c.Fail("form", "cgoAllocMap", 0, "there is no helper cgoAllocMap")
		return
	}
	if t := a.run("add", h, "cgoAllocMap", "Add"); t != nil {
		for _, r := range t.Path {
			if r.Panic {
				continue
			}
			m := a.ops(r, "$0")
			n := 0
			for _, k := range m.added {
				if k == "$1" {
					n++
				}
			}
			why := m.why
			switch {
			case why != "":
			case n == 0:
				why = "the pointer is not put into the map"
			case len(m.gone) > 0 || m.cleared:
				why = "pointers are taken out of the map"
			case m.fresh && !a.none(r, "$0"):
				why = "a new map takes the place of one that may have pointers"
			}
			c.Obl("add", "Add: "+a.facts(r), h.pos, why == "", "cgoAllocMap.Add: %s (when %s)", why, a.facts(r))
		}
	}
	if t := a.run("borrow", h, "cgoAllocMap", "Borrow"); t != nil {
		for _, r := range t.Iter {
			if !a.overMap(r, "$1") {
				continue
			}
			to, from := a.ops(r, "$0"), a.ops(r, "$1")
			why := to.why
			in, out := false, a.leftEmpty(t, "$1")
			for _, k := range to.added {
				in = in || a.isKey(k, r)
			}
			for _, k := range from.gone {
				out = out || a.isKey(k, r)
			}
			switch {
			case why != "":
			case !in:
				why = "a pointer of the other map is not taken over"
			case !out:
				why = "a pointer that is taken over stays in the other map, too: both will free it"
			case len(to.gone) > 0:
				why = "a pointer is taken out of the map that borrows"
			case to.fresh && !a.none(r, "$0"):
				why = "a new map takes the place of one that may have pointers"
			}
			c.Obl("borrow", "Borrow: "+a.facts(r), h.pos, why == "", "cgoAllocMap.Borrow: %s (when %s)", why, a.facts(r))
		}
		for _, r := range t.Path {
			if r.Panic {
				continue
			}
			to := a.ops(r, "$0")
			c.Obl("borrow", "Borrow keeps: "+a.facts(r), h.pos, to.why == "" && !to.cleared && len(to.gone) == 0 && (!to.fresh || a.none(r, "$0")), "cgoAllocMap.Borrow loses pointers of the map that borrows (when %s)", a.facts(r))
			ok := a.through(r, "$1") || a.none(r, "$1") || r.F.evalBool(a.isNil(mkTerm(nil, "$1"))) == 1
			c.Obl("borrow", "Borrow ends: "+a.facts(r), h.pos, ok, "cgoAllocMap.Borrow ends without having gone through the other map, though it may have pointers (when %s)", a.facts(r))
		}
	}
	if t := a.run("free", h, "cgoAllocMap", "Free"); t != nil {
		for _, r := range t.Iter {
			if !a.overMap(r, "$0") {
				continue
			}
			m := a.ops(r, "$0")
			freed, others := 0, 0
			for _, e := range calls28(r, "C_free") {
				if len(e.Args) == 1 && a.isKey(peel(e.Args[0]).K(), r) {
					freed++
				} else {
					others++
				}
			}
			gone := a.leftEmpty(t, "$0")
			for _, k := range m.gone {
				gone = gone || a.isKey(k, r)
			}
			why := ""
			switch {
			case freed == 0:
				why = "a pointer of the map is not freed"
			case freed > 1 || others > 0:
				why = "more is freed than the pointer at hand, once"
			case !gone:
				why = "a pointer that was freed stays in the map: it will be freed again"
			}
			c.Obl("free", "Free: "+a.facts(r), h.pos, why == "", "cgoAllocMap.Free: %s (when %s)", why, a.facts(r))
		}
		for _, r := range t.Path {
			if r.Panic {
				continue
			}
			ok := (a.through(r, "$0") || a.none(r, "$0")) && len(calls28(r, "C_free")) == 0
			c.Obl("free", "Free ends: "+a.facts(r), h.pos, ok, "cgoAllocMap.Free does not free exactly what is in the map (when %s)", a.facts(r))
		}
	}
	if t := a.run("empty", h, "cgoAllocMap", "IsEmpty"); t != nil {
		for _, r := range t.Path {
			if r.Panic || len(r.Ret) != 1 {
				continue
			}
			var l V
			walkV(r.Ret[0], func(v V) {
				if x, ok := v.(*Term); ok && x.Op == "len" && a.isMapOf(x.Args[0], "$0") {
					l = x
				}
			})
			for _, t := range r.F.at {
				if x, ok := t.(*Term); ok && x.Op == "len" && a.isMapOf(x.Args[0], "$0") {
					l = x
				}
			}
			ok := l != nil
			if ok {
				for n, want := range map[int64]int{0: 1, 1: 0, 2: 0} {
					f := r.F.assume(mkEq(l, cInt(n), types.Typ[types.Int], r.St), true)
					ok = ok && (f == nil || f.evalBool(r.Ret[0]) == want)
				}
			}
			c.Obl("empty", "IsEmpty: "+a.facts(r), h.pos, ok, "cgoAllocMap.IsEmpty does not tell whether there are pointers in the map: it returns %s", clip(r.Ret[0].K(), 80))
		}
	}
}

// leftEmpty: every path that went through the map leaves an empty one.
func (a *all28) leftEmpty(t *Table, obj string) bool {
	n := 0
	for _, r := range t.Path {
		if r.Panic || !a.through(r, obj) {
			continue
		}
		m := a.ops(r, obj)
		if !m.cleared && !(m.fresh && len(m.added) == 0) {
			return false
		}
		n++
	}
	return n > 0
}

func (a *all28) facts(r *Row) string {
	s := r.F.String()
	if r.Loop != nil {
		s = strings.ReplaceAll(s, r.Loop.Key, "…")
	}
	return clip(s, 120)
}

func (a *all28) strings() {
	c := a.c
	if h := a.by["safeString"]; h == nil {
		c.Fail("form", "safeString", 0, "there is no helper safeString")
	} else if t := a.run("safe", h, "", "safeString"); t != nil {
		s := V(mkTerm(types.Typ[types.String], "$0"))
		n := mkTerm(types.Typ[types.Int], "len", s)
		for _, r := range t.Path {
			if r.Panic || len(r.Ret) != 1 {
				continue
			}
			ret := peel(r.Ret[0])
			ok := false
			if ret.K() == "$0" {
				// ends in a zero byte already
				for _, x := range r.F.at {
					y, is := x.(*Term)
					if !is || y.Op != "[]" || len(y.Args) != 2 || y.Args[0].K() != "$0" {
						continue
					}
					if b, d, good := lin(y.Args[1]); good && b != nil && b.K() == n.K() && d == -1 {
						iv := r.F.interval(y)
						ok = ok || iv.lo == 0 && iv.hi == 0
					}
				}
			} else {
				ps := pieces(ret, nil)
				txt := ""
				open := 0
				for _, p := range ps {
					if x, is := isStrConst(p); is {
						txt += x
					} else if peel(p).K() == "$0" && txt == "" {
						open++
					} else {
						open = 9
					}
				}
				ok = txt == "\x00" && (open == 1 || open == 0 && r.F.interval(n).hi <= 0)
			}
			c.Obl("safe", "safeString: "+a.facts(r), h.pos, ok, "safeString returns %s, which is not the string up to a zero byte (when %s)", clip(ret.K(), 60), a.facts(r))
		}
	}
	if h := a.by["RawString.Copy"]; h == nil {
		c.Fail("form", "RawString.Copy", 0, "there is no helper RawString.Copy")
	} else if t := a.run("view", h, "RawString", "Copy"); t != nil {
		for _, r := range t.Path {
			if r.Panic || len(r.Ret) != 1 {
				continue
			}
			n := mkTerm(types.Typ[types.Int], "len", mkTerm(types.Typ[types.String], "$0"))
			ok := false
			if s, is := isStrConst(r.Ret[0]); is {
				ok = s == "" && r.F.interval(n).hi <= 0
			}
			for _, e := range calls28(r, "C_GoStringN") {
				if len(e.Args) != 2 || len(r.Ret) != 1 || e.Res == nil || e.Res.K() != r.Ret[0].K() {
					continue
				}
				d, is1 := peel(e.Args[0]).(*Term)
				l, is2 := peel(e.Args[1]).(*Term)
				same := is1 && is2 && d.Op == ".Data" && l.Op == ".Len" && d.Args[0].K() == l.Args[0].K()
				if is2 && l.K() == n.K() {
					same = is1 && d.Op == ".Data"
				}
				ok = ok || same && strings.Contains(d.Args[0].K(), "stringHeader") && a.headerOf(d.Args[0], r, "$0")
			}
			c.Obl("view", "Copy: "+a.facts(r), h.pos, ok, "RawString.Copy returns %s, which is not a copy of all bytes of the string (when %s)", clip(r.Ret[0].K(), 80), a.facts(r))
		}
	}
}

// headerOf: v is reached through the address of a variable that has the given
// value.
func (a *all28) headerOf(v V, r *Row, key string) bool {
	ok := false
	walkV(v, func(x V) {
		if p, is := x.(*Ptr); is {
			if w := r.St.get(p.Obj); w != nil && peel(w).K() == key {
				ok = true
			}
		}
	})
	return ok
}

func (a *all28) alloc(h *helper28) {
	c := a.c
	t := a.run("alloc", h, "", h.name)
	if t == nil {
		return
	}
	size := a.size[a.holes["C_S$1"]] // of the type it is made for
	n := 0
	for _, r := range t.Path {
		if r.Panic || len(r.Ret) != 1 {
			continue
		}
		n++
		why := "what is returned is not the memory that was allocated"
		for _, e := range calls28(r, "C_calloc") {
			x, ok := peel(r.Ret[0]).(*Term)
			if !ok || !strings.HasPrefix(x.Op, "#0") || len(e.Args) != 2 || x.Args[0].K() != resKey28(e) {
				continue
			}
			p, q := peel(e.Args[0]), peel(e.Args[1])
			if _, is := isIntConst(p); is {
				p, q = q, p
			}
			sz, is := isIntConst(q)
			switch {
			case p.K() != "$0":
				why = "the number of values is " + clip(p.K(), 60) + ", not the one asked for"
			case !is || sz != size:
				why = "the size of a value is not that of the type"
			case r.F.evalBool(a.isNil(r.Ret[0])) != 0:
				why = "nil may be returned when there is no memory"
			default:
				why = ""
			}
		}
		c.Obl("alloc", a.label(h.name)+": "+a.facts(r), h.pos, why == "", "the helper %s: %s (when %s)", a.label(h.name), why, a.facts(r))
	}
	c.Obl("alloc", a.label(h.name)+" returns", h.pos, n > 0, "the helper %s never returns", a.label(h.name))
}

func resKey28(e *Event) string {
	if e.Res != nil {
		return e.Res.K()
	}
	return ""
}

// keeps: the path returns the copy that the given function of cgo makes, and
// a new map that has it and will free it.
func (a *all28) keeps(h *helper28, r *Row, maker string) (made *Event, why string) {
	if len(r.Ret) != 2 {
		return nil, "it does not return the copy and its map"
	}
	for _, e := range calls28(r, maker) {
		if e.Res != nil && peel(r.Ret[0]).K() == peel(e.Res).K() {
			made = e
		}
	}
	if made == nil {
		return nil, "what is returned is not the copy that C has been given"
	}
	m, ok := r.Ret[1].(*Ptr)
	if !ok {
		return made, "the map that is returned is not one of its own"
	}
	same := func(v V) bool {
		if f, ok := v.(*Iface); ok {
			v = f.X
		}
		p, ok := v.(*Ptr)
		return ok && p.Obj == m.Obj && len(p.Path) == 0
	}
	in := false
	for _, e := range calls28(r, "Add") {
		if len(e.Raw) == 2 && same(e.Raw[0]) && peel(e.Raw[1]).K() == peel(made.Res).K() {
			in = true
		}
	}
	if !in {
		return made, "the copy is not in the map that is returned: it is never freed"
	}
	if len(calls28(r, "Free"))+len(calls28(r, "C_free")) > 0 {
		return made, "the copy is freed before it is returned"
	}
	for i := range r.Ev {
		if r.Ev[i].Kind == "go" {
			return made, "something else is started with the copy"
		}
	}
	fin := false
	for _, e := range calls28(r, "SetFinalizer") {
		if len(e.Raw) != 2 || !same(e.Raw[0]) {
			continue
		}
		f := e.Raw[1]
		if i, ok := f.(*Iface); ok {
			f = i.X
		}
		fv, ok := f.(*FnV)
		if !ok {
			return made, "the map's finalizer is not known"
		}
		fn, ok := fv.F.(*ssa.Function)
		fin = ok && a.frees(fn)
	}
	if !fin {
		return made, "nothing frees what is in the map when it is no longer used"
	}
	return made, ""
}

// frees: the function frees the allocation map it is called with, on every path.
func (a *all28) frees(fn *ssa.Function) bool {
	if fn.Name() == "Free" || strings.HasPrefix(fn.Name(), "Free$") {
		return true
	}
	if len(fn.Params) != 1 {
		return false
	}
	ip := newInterp(a.p)
	ip.NoMerge = true
	ip.initDone = true
	ip.GoInline = true
	ip.Inline = func(f *ssa.Function) bool {
		return f.Parent() != nil || f.Synthetic != "" || !known28[f.Name()] && !strings.HasPrefix(f.Name(), "C_")
	}
	ip.Trace = func(e *Event) bool { return e.Kind == "call" }
	outs, err := ip.Run(fn, namedArgs(fn), nil)
	if err != nil || len(outs) == 0 {
		return false
	}
	for _, o := range outs {
		n := 0
		for i := range o.St.tr {
			if e := &o.St.tr[i]; opSuffix(e.Name) == "Free" && len(e.Args) == 1 && e.Args[0].K() == "$0" {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

func (a *all28) unpacked(h *helper28) {
	c := a.c
	t := a.run("copy", h, "", h.name)
	if t == nil {
		return
	}
	for _, r := range t.Path {
		if r.Panic {
			continue
		}
		made, why := a.keeps(h, r, "C_CString")
		if why == "" {
			s := peel(made.Args[0])
			x, safe := s.(*Term)
			safe = safe && strings.HasSuffix(x.Op, "safeString") && len(x.Args) == 1
			if safe {
				s = peel(x.Args[0])
			}
			if s.K() != "$0" {
				why = "what is copied is " + clip(s.K(), 60) + ", not the string"
			}
		}
		c.Obl("copy", a.label(h.name)+": "+a.facts(r), h.pos, why == "", "the helper %s: %s", a.label(h.name), why)
	}
}

func (a *all28) copied(h *helper28) {
	c := a.c
	t := a.run("copy", h, "", h.name)
	if t == nil {
		return
	}
	// the size of the elements is the one of the type of the memory helper
	size := int64(0)
	for _, q := range h.reqs {
		for id, n := range a.size {
			if strings.Contains(a.by[q].src, "]"+id+"{") {
				size = n
			}
		}
	}
	for _, r := range t.Path {
		if r.Panic {
			continue
		}
		made, why := a.keeps(h, r, "C_CBytes")
		if why == "" {
			why = "the bytes copied are not those of the slice"
			var hd *StructV
			walkV(made.Raw[0], func(v V) {
				if p, ok := v.(*Ptr); ok {
					if s, ok := r.St.get(p.Obj).(*StructV); ok && s.field("Data") != nil && s.field("Len") != nil {
						hd = s
					}
				}
			})
			if hd != nil {
				d := peel(hd.field("Data"))
				if x, ok := d.(*Term); ok && x.Op == ".Data" && x.Args[0].K() == "*($0)" {
					why = ""
				}
				if why == "" && !a.times(hd.field("Len"), ".Len(*($0))", size) {
					why = "the number of bytes copied is not that of all elements"
				}
				if cp := hd.field("Cap"); why == "" && cp != nil && !a.times(cp, ".Len(*($0))", size) && !a.times(cp, ".Cap(*($0))", size) {
					why = "the capacity of the bytes copied is not that of all elements"
				}
			}
		}
		c.Obl("copy", a.label(h.name)+": "+a.facts(r), h.pos, why == "", "the helper %s: %s", a.label(h.name), why)
	}
}

// times: v is n times what the key names.
func (a *all28) times(v V, key string, n int64) bool {
	v = peel(v)
	if n == 1 && v.K() == key {
		return true
	}
	t, ok := v.(*Term)
	if !ok || len(t.Args) != 2 || !strings.Contains(t.Op, "*") {
		return false
	}
	p, q := peel(t.Args[0]), peel(t.Args[1])
	if _, is := isIntConst(p); is {
		p, q = q, p
	}
	k, is := isIntConst(q)
	return is && k == n && p.K() == key
}

func (a *all28) packed(h *helper28) {
	c := a.c
	t := a.run("view", h, "", h.name)
	if t == nil {
		return
	}
	name := a.label(h.name)
	isByte := func(v V, of func(V) bool) bool {
		x, ok := peel(v).(*Term)
		return ok && x.Op == "*" && len(x.Args) == 1 && of(peel(x.Args[0]))
	}
	// the loop goes on from one byte to the next while it is not zero
	head := map[string]bool{}
	for _, r := range t.Iter {
		ok, key := false, ""
		for k, v := range r.Be.Carry {
			x, d, good := lin(peel(v))
			if t, is := peel(v).(*Term); is && t.Op == "bi:Add" && len(t.Args) == 2 {
				x = t.Args[0]
				d, good = isIntConst(t.Args[1])
			}
			if good && x != nil && d == 1 && peel(x).K() == k {
				key = k
				if init := r.Loop.Init[k]; init != nil && peel(init).K() == "$0" {
					ok = true
				}
			}
		}
		nonzero := false
		for _, x := range r.F.at {
			if isByte(x, func(p V) bool { return p.K() == key }) {
				iv := r.F.interval(x)
				nonzero = nonzero || iv.neq[0] || iv.lo > 0 || iv.hi < 0
			}
		}
		c.Obl("view", name+" step: "+a.facts(r), h.pos, ok && nonzero, "the helper %s does not go from one byte to the next, beginning with the first, as long as they are not zero", name)
		head[key] = true
	}
	for _, r := range t.Path {
		if r.Panic || len(r.Ret) != 1 {
			continue
		}
		var data, length V
		for i := range r.Ev {
			e := &r.Ev[i]
			if e.Kind != "store" {
				continue
			}
			if x, ok := e.Args[0].(*Term); ok && strings.Contains(x.K(), "stringHeader") {
				switch x.Op {
				case "&.Data":
					data = peel(e.Args[1])
				case "&.Len":
					length = peel(e.Args[1])
				}
			}
		}
		null := r.F.evalBool(a.isNil(mkTerm(nil, "$0"))) == 1
		zero, ended, read := false, false, false
		for _, x := range r.F.at {
			iv := r.F.interval(x)
			if isByte(x, func(p V) bool { return p.K() == "$0" }) {
				read = true
				zero = zero || iv.lo == 0 && iv.hi == 0
			}
			if isByte(x, func(p V) bool { return head[p.K()] }) {
				ended = ended || iv.lo == 0 && iv.hi == 0
			}
		}
		why := ""
		switch {
		case data == nil && length == nil:
			if s, ok := isStrConst(r.Ret[0]); !ok || s != "" || !null && !zero {
				why = "an empty string is returned though there may be bytes"
			}
		case data == nil || data.K() != "$0":
			why = "the string does not begin at the pointer"
		case null || r.F.evalBool(a.isNil(mkTerm(nil, "$0"))) != 0:
			why = "the pointer is read without knowing that there is one"
		case length == nil || !ended && !zero:
			why = "the string does not end before the first zero byte"
		default:
			x, ok := length.(*Term)
			if !ok || x.Op != "-" || len(x.Args) != 2 || peel(x.Args[1]).K() != "$0" || !head[peel(x.Args[0]).K()] {
				why = "the length of the string is not the distance of the first zero byte: " + clip(length.K(), 80)
			}
		}
		if why == "" && read && r.F.evalBool(a.isNil(mkTerm(nil, "$0"))) != 0 {
			why = "the pointer is read without knowing that there is one"
		}
		c.Obl("view", name+": "+a.facts(r), h.pos, why == "", "the helper %s: %s (when %s)", name, why, a.facts(r))
	}
}
