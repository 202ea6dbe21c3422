package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: each part of a package is generated once, under its header, and reaches
// a file of its own.

func init() { checks["C20"] = c20 }

var (
	c20Heads    = map[string]bool{"WriteDoc": true, "WritePackageHeader": true}
	c20Always   = []string{"WriteConst", "WriteTypedefs"}
	c20WithCGO  = []string{"WriteUnions", "WriteDeclares"}
	c20Includes = "WriteIncludes"
)

func c20(c *Ctx) {
	c.explain = "Process.Generate and Process.Flush are interpreted on every path, with the calls of the generator, the creation of files and the writes to them as events: which parts go into which buffer in which order, which buffers are dropped, and which buffer's content reaches which file."
	c.Rule("parts: on every path each part of the package is generated exactly once, the documentation included; unions and declarations exactly when cgo is in use")
	c.Rule("header: every buffer starts with one package header, followed, when cgo is in use, by one cgo preamble before the first part")
	c.Rule("dropped: a buffer is dropped exactly when its part reported nothing")
	c.Rule("counted: a part that writes something for a declaration reports it")
	c.Rule("written: unless an error is returned, every buffer with something in it is written to a file under the output directory")
	c.Rule("content: what is written is the whole content of the buffer, or its formatted form when formatting succeeded")
	c.Rule("apart: no two buffers are written to the same file")
	c.generateParts()
	c.counted()
	c.flushFiles()
	c.Floor("parts", 20)
	c.Floor("header", 10)
	c.Floor("dropped", 4)
	c.Floor("counted", 10)
	c.Floor("written", 20)
	c.Floor("content", 2)
	c.Floor("apart", 4)
}

// genCall: a call of one of the generator's exported writing methods.
func (c *Ctx) genCall(e *Event) (name string, wr V) {
	if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*generator.Generator).Write") || len(e.Args) < 2 {
		return "", nil
	}
	return strings.TrimPrefix(e.Name, "(*generator.Generator)."), peelIface(e.Args[1])
}

func peelIface(v V) V {
	if i, ok := v.(*Iface); ok {
		return i.X
	}
	return v
}

func (c *Ctx) generateParts() {
	fn := c.Anchor("main", "Process", "Generate")
	if fn == nil {
		return
	}
	tb := c.table("parts", fn, func(ip *Interp) {
		setupEmission(c, ip)
		inl := ip.Inline
		ip.Inline = func(f *ssa.Function) bool {
			if strings.HasPrefix(f.RelString(nil), "(*") && strings.Contains(f.RelString(nil), "generator.Generator).Write") && c.isBaseline(f) {
				return false
			}
			return inl(f)
		}
		withEvents(ip, func(e *Event) bool { return strings.HasPrefix(e.Name, "(*generator.Generator).Write") })
	})
	if tb == nil {
		return
	}
	for _, r := range tb.Path {
		noCGO, known := r.F.b["$1"]
		modes := []bool{noCGO}
		if !known {
			modes = []bool{false, true}
		}
		count := map[string]int{}
		type use struct {
			heads, incl int
			first       string
			parts       []string
			inclLate    bool
			part        V // result of the part
		}
		by := map[string]*use{}
		vals := map[string]V{}
		var order []string
		dropped := map[string]string{} // buffer -> why not
		for i := range r.Ev {
			e := &r.Ev[i]
			if name, wr := c.genCall(e); name != "" {
				k := wr.K()
				vals[k] = wr
				u := by[k]
				if u == nil {
					u = &use{first: name}
					by[k] = u
					order = append(order, k)
				}
				count[name]++
				switch {
				case c20Heads[name]:
					u.heads++
					if name == "WriteDoc" {
						u.part = e.Res
					}
				case name == c20Includes:
					u.incl++
					u.inclLate = u.inclLate || len(u.parts) > 0
				default:
					u.parts = append(u.parts, name)
					u.part = e.Res
				}
				continue
			}
			if e.Kind == "mapstore" && len(e.Args) == 3 && isBufferMap(e.Args[0]) {
				key := "get(" + e.Args[0].K() + "," + e.Args[1].K() + ")"
				c.Obl("dropped", "Generate replaces", r.Pos, e.Args[2].K() == "nil", "Generate replaces the buffer %s", e.Args[1].K())
				dropped[key] = "dropped"
			}
			if e.Kind == "mapdelete" && len(e.Args) == 2 && isBufferMap(e.Args[0]) {
				dropped["get("+e.Args[0].K()+","+e.Args[1].K()+")"] = "dropped"
			}
		}
		for _, nc := range modes {
			for _, p := range append([]string{"WriteDoc"}, c20Always...) {
				c.Obl("parts", fmt.Sprintf("Generate %s nocgo=%v", p, nc), r.Pos, count[p] == 1, "Generate calls %s %d times (nocgo=%v)", p, count[p], nc)
			}
			want := 1
			if nc {
				want = 0
			}
			for _, p := range c20WithCGO {
				c.Obl("parts", fmt.Sprintf("Generate %s nocgo=%v", p, nc), r.Pos, count[p] == want, "Generate calls %s %d times (nocgo=%v)", p, count[p], nc)
			}
			for _, k := range order {
				u := by[k]
				if isNilBuf(r, vals[k]) {
					continue
				}
				c.Obl("header", "Generate first", r.Pos, c20Heads[u.first], "Generate calls %s on a buffer before its package header", u.first)
				c.Obl("header", "Generate one", r.Pos, u.heads == 1, "Generate writes %d package headers into one buffer", u.heads)
				if len(u.parts) > 0 {
					wi := 1
					if nc {
						wi = 0
					}
					c.Obl("header", fmt.Sprintf("Generate preamble nocgo=%v", nc), r.Pos, u.incl == wi && !u.inclLate, "Generate writes %d cgo preambles into the buffer of %s, or writes it late (nocgo=%v)", u.incl, strings.Join(u.parts, ", "), nc)
				}
			}
		}
		// what is dropped
		for _, k := range order {
			u := by[k]
			own := strings.HasPrefix(k, "get(") // kept in the map
			if !own {
				continue
			}
			empty, some := false, false
			if u.part != nil {
				pk := u.part.K()
				if iv, ok := r.F.iv[pk]; ok {
					empty = iv.lo == 0 && iv.hi == 0
				}
				if b, ok := r.F.b[pk]; ok {
					empty = !b
				}
				some = !empty
			}
			alone := len(u.parts) == 1 || len(u.parts) == 0 && u.first == "WriteDoc"
			if dropped[k] != "" {
				c.Obl("dropped", "Generate drops "+k, r.Pos, empty && alone, "Generate drops a buffer although %s may have written something", strings.Join(append(u.parts, u.first), ", "))
			} else if alone && u.part != nil {
				c.Obl("dropped", "Generate keeps "+k, r.Pos, some, "Generate keeps a buffer with nothing but a header (%s reported nothing)", strings.Join(append(u.parts, u.first), ", "))
			}
			delete(dropped, k)
		}
		for k := range dropped {
			c.Obl("dropped", "Generate drops "+k, r.Pos, false, "Generate drops a buffer it has not generated a part into")
		}
	}
}

func isNilBuf(r *Row, v V) bool {
	b, ok := r.F.b["isnil("+v.K()+")"]
	return ok && b
}

// isBufferMap: the map of Go buffers.
func isBufferMap(v V) bool {
	t := typeOf(v)
	if t == nil {
		return strings.Contains(v.K(), "Buffers")
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isBuffer(m.Elem())
}

func isBuffer(t types.Type) bool {
	n := namedOf(derefT(t))
	return n != nil && n.Obj().Name() == "Buffer" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes"
}

// counted: a part's result is positive when it wrote for a declaration.
func (c *Ctx) counted() {
	todo := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, n := range c20Always {
		add(c.Anchor("generator", "Generator", n))
	}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		con := c.short(fn)
		wi := -1
		for i, p := range fn.Params {
			if isWriter(p.Type()) {
				wi = i
			}
		}
		if wi < 0 {
			continue
		}
		wr := fmt.Sprintf("$%d", wi)
		tb := c.table("counted", fn, func(ip *Interp) {
			setupEmission(c, ip)
		})
		if tb == nil {
			continue
		}
		// which variables the result is made from
		from := map[string]bool{}
		for _, r := range tb.Path {
			if len(r.Ret) > 0 {
				from[r.St.snap(r.Ret[0]).K()] = true
			}
		}
		flows := func(k string) bool {
			for x := range from {
				if strings.Contains(x, k) {
					return true
				}
			}
			return false
		}
		for ch := true; ch; {
			ch = false
			for _, it := range tb.Iter {
				for k, v := range it.Loop.Init {
					if strings.HasPrefix(k, "lv") && flows(k) && !from[v.K()] {
						from[v.K()] = true
						ch = true
					}
				}
			}
		}
		for _, r := range tb.Iter {
			w := ""
			for i := range r.Ev {
				e := &r.Ev[i]
				if len(e.Args) == 0 {
					continue
				}
				switch e.Kind {
				case "write":
					if peelIface(e.Args[0]).K() == wr && len(e.Args) > 1 && hasTerm(e.Args[1]) {
						w = "text"
					}
				case "call":
					toWr, about := false, false
					for _, a := range e.Args {
						if peelIface(a).K() == wr {
							toWr = true
						} else if t := typeOf(a); t != nil {
							if n := namedOf(derefT(t)); n != nil && n.Obj().Name() == "CDecl" {
								about = true
							}
						}
					}
					if toWr && about {
						w = e.Name
					}
				}
			}
			if w == "" {
				continue
			}
			ok := false
			if r.Be != nil {
				for k, v := range r.Be.Carry {
					t, isT := r.St.snap(v).(*Term)
					if !isT || !strings.HasPrefix(t.Op, "+") || !flows(k) {
						continue
					}
					if n, c0, isLin := lin(t); isLin && n != nil && n.K() == k && c0 >= 1 {
						ok = true
					} else if strings.Contains(t.K(), k) && strings.Contains(t.K(), "call:") {
						ok = true
					}
				}
			}
			c.Obl("counted", con+" "+w, r.Pos, ok, "%s writes something (%s) that its result does not count", con, w)
		}
		// a count another function reports
		for _, r := range tb.Path {
			for i := range r.Ev {
				e := &r.Ev[i]
				if e.Kind != "call" || e.Res == nil || len(e.Args) == 0 {
					continue
				}
				toWr := false
				for _, a := range e.Args {
					toWr = toWr || peelIface(a).K() == wr
				}
				if !toWr || typeOf(e.Res) == nil || !isIntType(typeOf(e.Res)) {
					continue
				}
				c.Obl("counted", con+" "+e.Name, r.Pos, flows(e.Res.K()), "%s does not count what %s reports", con, e.Name)
				add(c.byShort(e.Name))
			}
		}
	}
}

func hasTerm(v V) bool {
	for _, p := range parts(v) {
		if _, ok := p.(*Const); !ok {
			return true
		}
	}
	return false
}

func (c *Ctx) byShort(n string) *ssa.Function {
	for _, f := range c.Funcs {
		if c.short(f) == n {
			return f
		}
	}
	return nil
}

// ---- files ------------------------------------------------------------------

func (c *Ctx) flushFiles() {
	fn := c.Anchor("main", "Process", "Flush")
	if fn == nil {
		return
	}
	tb := c.table("written", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" || e.Kind == "invoke" })
	})
	if tb == nil {
		return
	}
	// the buffers there are
	var bufs []string // as terms
	goBuf := map[string]bool{}
	mainKey := ""
	if n := c.namedType("main", "Process"); n != nil {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if isBuffer(f.Type()) {
					bufs = append(bufs, "."+f.Name()+"(*($0))")
				}
				if m, ok := f.Type().Underlying().(*types.Map); ok && isBuffer(m.Elem()) {
					sc := n.Obj().Pkg().Scope()
					for _, name := range sc.Names() {
						k, ok := sc.Lookup(name).(*types.Const)
						if !ok || !types.Identical(k.Type(), m.Key()) || k.Val().Kind() != constant.Int {
							continue
						}
						t := "get(." + f.Name() + "(*($0))," + k.Val().ExactString() + ")"
						bufs = append(bufs, t)
						goBuf[t] = true
						if name == "BufMain" {
							mainKey = t
						}
					}
				}
			}
		}
	}
	sort.Strings(bufs)
	c.Obl("written", "Flush buffers", fn.Pos(), len(bufs) >= 4 && mainKey != "", "only %d buffers found", len(bufs))
	writers := map[*ssa.Function]bool{}
	// helpers that receive the content and the file
	ok := 0
	fileNames := map[string]map[string]bool{} // buffer -> paths
	pairs := map[string]bool{}
	for _, r := range tb.Path {
		if len(r.Ret) == 0 {
			continue
		}
		ret := r.St.snap(r.Ret[0])
		if b, known := r.F.b["isnil("+ret.K()+")"]; known && !b {
			continue // an error is returned
		}
		if ret.K() != "nil" && !strings.Contains(ret.K(), "ext:") && !strings.Contains(ret.K(), "call:") {
			continue
		}
		ok++
		noCGO, known := r.F.b["$1"]
		names := map[string]V{}
		for _, b := range bufs {
			if isNil, kn := r.F.b["isnil("+b+")"]; kn && isNil {
				continue
			}
			empty := false
			for _, l := range []string{"ext:(*bytes.Buffer).Len(" + b + ")", "len(ext:(*bytes.Buffer).Bytes(" + b + "))", "len(ext:(*bytes.Buffer).String(" + b + "))"} {
				if iv, kn := r.F.iv[l]; kn && iv.hi <= 0 {
					empty = true
				}
			}
			if empty {
				continue
			}
			path, by := writtenTo(r, b)
			if path == nil {
				if known && noCGO && (!goBuf[b] || b == mainKey) {
					continue // only with cgo
				}
				// helpers' Go side belongs to cgo too
				c.Obl("written", "Flush "+b, r.Pos, false, "Flush can succeed without writing %s to a file although it is not empty", b)
				continue
			}
			if f := c.byShort(by); f != nil {
				writers[f] = true
			}
			pk := path.K()
			c.Obl("written", "Flush "+b, r.Pos, true, "")
			ext := ".go"
			if !goBuf[b] {
				ext = ""
			}
			c.Obl("written", "Flush "+b+" under", r.Pos, strings.Contains(pk, ".outputPath(*($0))") && strings.Contains(pk, ".PackageName("), "Flush writes %s outside the package's output directory", b)
			last := lastConst(path)
			c.Obl("written", "Flush "+b+" suffix", r.Pos, ext != "" && strings.HasSuffix(last, ext) || ext == "" && (strings.HasSuffix(last, ".h") || strings.HasSuffix(last, ".c")), "Flush writes %s to a file named ...%s", b, last)
			names[b] = path
			if fileNames[b] == nil {
				fileNames[b] = map[string]bool{}
			}
			fileNames[b][pk] = true
		}
		for i, a := range bufs {
			for _, b := range bufs[i+1:] {
				if names[a] == nil || names[b] == nil {
					continue
				}
				k := names[a].K() + "|" + names[b].K()
				if pairs[k] {
					continue
				}
				d, why := c.differ(r, names[a], names[b])
				if d {
					pairs[k] = true
				}
				c.Obl("apart", "Flush "+a+" "+b, r.Pos, d, "Flush can write %s and %s to the same file (%s)", a, b, why)
			}
		}
	}
	c.Obl("written", "Flush succeeds", fn.Pos(), ok > 0, "Flush never succeeds")
	for _, b := range bufs {
		c.Obl("written", "Flush some "+b, fn.Pos(), len(fileNames[b]) > 0, "Flush never writes %s", b)
	}
	var ws []*ssa.Function
	for f := range writers {
		ws = append(ws, f)
	}
	sort.Slice(ws, func(i, j int) bool { return c.short(ws[i]) < c.short(ws[j]) })
	for _, f := range ws {
		c.wholeContent(f)
	}
}

// writtenTo: the path of the file the buffer's content is written to in a row,
// and the function that does it.
func writtenTo(r *Row, b string) (V, string) {
	paths := map[string]V{}
	for i := range r.Ev {
		e := &r.Ev[i]
		if e.Kind != "call" {
			continue
		}
		switch e.Name {
		case "os.Create", "os.OpenFile":
			if len(e.Args) > 0 {
				paths["#0("+kOf(e.Res)+")"] = e.Args[0]
			}
			continue
		case "os.WriteFile", "io/ioutil.WriteFile":
			if len(e.Args) > 1 && holdsContent(e.Args[1], b) {
				return e.Args[0], e.Name
			}
			continue
		case "(*os.File).Close", "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
			continue
		}
		var path V
		has := false
		for _, a := range e.Args {
			a = peelIface(a)
			if p := paths[a.K()]; p != nil {
				path = p
			}
			if holdsContent(a, b) {
				has = true
			}
		}
		if path != nil && has {
			return path, e.Name
		}
	}
	return nil, ""
}

// holdsContent: the value is the buffer, or its bytes or text.
func holdsContent(v V, b string) bool {
	k := peelIface(peel(v)).K()
	return k == b || k == "ext:(*bytes.Buffer).Bytes("+b+")" || k == "ext:(*bytes.Buffer).String("+b+")"
}

// lastConst: the constant text a path ends with.
func lastConst(v V) string {
	v = peelIface(v)
	if s, ok := isStrConst(v); ok {
		return s
	}
	ps := parts(v)
	if len(ps) > 1 {
		return lastConst(ps[len(ps)-1])
	}
	switch t := v.(type) {
	case *Term:
		if strings.HasPrefix(t.Op, "ext:path") && len(t.Args) > 0 {
			return lastConst(t.Args[len(t.Args)-1])
		}
	case *SeqV:
		if len(t.E) > 0 {
			return lastConst(t.E[len(t.E)-1])
		}
	}
	return ""
}

// lastElem: what a joined path ends with.
func lastElem(v V) V {
	if t, ok := peelIface(v).(*Term); ok && strings.HasPrefix(t.Op, "ext:path") && len(t.Args) == 1 {
		if s, ok := t.Args[0].(*SeqV); ok && len(s.E) > 0 {
			return s.E[len(s.E)-1]
		}
	}
	return v
}

// differ: two paths are never the same.
func (c *Ctx) differ(r *Row, a, b V) (bool, string) {
	if a.K() == b.K() {
		return false, "one name for both"
	}
	x, y := lastElem(a), lastElem(b)
	xs, xok := isStrConst(x)
	ys, yok := isStrConst(y)
	if xok && yok {
		return xs != ys, xs
	}
	lx, ly := lastConst(x), lastConst(y)
	if lx != "" && ly != "" && !strings.HasSuffix(lx, ly) && !strings.HasSuffix(ly, lx) {
		return true, ""
	}
	if yok {
		x, y, xs, ys, xok, yok = y, x, ys, xs, yok, xok
	}
	if !xok {
		return false, "names that may be equal"
	}
	// a constant against a made-up name
	for _, alt := range c.nameAlts(r, y) {
		if !alt.never(xs) {
			return false, fmt.Sprintf("both may be %s", xs)
		}
	}
	return true, ""
}

// nameAlt: one form a name can have, with what is known of it.
type nameAlt struct {
	parts []V
	f     *Facts
}

func (a nameAlt) never(s string) bool {
	text, whole := "", true
	for _, p := range a.parts {
		if t, ok := isStrConst(p); ok {
			text += t
			continue
		}
		if t, ok := a.eqConst(p); ok {
			text += t
			continue
		}
		whole = false
	}
	if whole {
		return text != s
	}
	// one unknown part among constants: it would have to be the rest
	var unk V
	pre, post := "", ""
	for _, p := range a.parts {
		t, ok := isStrConst(p)
		if !ok {
			t, ok = a.eqConst(p)
		}
		switch {
		case !ok && unk == nil:
			unk = p
		case !ok:
			return false
		case unk == nil:
			pre += t
		default:
			post += t
		}
	}
	if !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, post) || len(pre)+len(post) > len(s) {
		return true
	}
	rest := s[len(pre) : len(s)-len(post)]
	return a.notEq(unk, rest)
}

func (a nameAlt) eqConst(p V) (string, bool) {
	for k, v := range a.f.b {
		t, ok := a.f.at[k].(*Term)
		if !ok || !v || len(t.Args) != 2 || t.Op != "eqs" && t.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if t.Args[i].K() == p.K() {
				if s, ok := isStrConst(t.Args[1-i]); ok {
					return s, true
				}
			}
		}
	}
	s, ok := a.f.eq[p.K()]
	return s, ok
}

func (a nameAlt) notEq(p V, s string) bool {
	if t, ok := a.eqConst(p); ok {
		return t != s
	}
	for k, v := range a.f.b {
		t, ok := a.f.at[k].(*Term)
		if !ok || v || len(t.Args) != 2 || t.Op != "eqs" && t.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if t.Args[i].K() == p.K() {
				if x, ok := isStrConst(t.Args[1-i]); ok && x == s {
					return true
				}
			}
		}
	}
	return false
}

// nameAlts: the forms of a name: calls of the module's own functions are
// replaced by their outcomes.
func (c *Ctx) nameAlts(r *Row, v V) []nameAlt {
	ps := parts(v)
	out := []nameAlt{{f: r.F}}
	for _, p := range ps {
		t, ok := p.(*Term)
		var fn *ssa.Function
		if ok && strings.HasPrefix(t.Op, "call:") {
			fn = c.byShort(strings.TrimPrefix(t.Op, "call:"))
		}
		if fn == nil {
			for i := range out {
				out[i].parts = append(out[i].parts, p)
			}
			continue
		}
		tb := c.nameTable(fn)
		if tb == nil {
			for i := range out {
				out[i].parts = append(out[i].parts, p)
			}
			continue
		}
		var next []nameAlt
		for _, a := range out {
			for _, row := range tb.Path {
				if len(row.Ret) == 0 {
					continue
				}
				n := nameAlt{parts: append([]V{}, a.parts...), f: row.F}
				n.parts = append(n.parts, parts(row.St.snap(row.Ret[0]))...)
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

var nameTables = map[*ssa.Function]*Table{}

func (c *Ctx) nameTable(fn *ssa.Function) *Table {
	if t, ok := nameTables[fn]; ok {
		return t
	}
	t := c.table("apart", fn, func(ip *Interp) { setupEmission(c, ip) })
	nameTables[fn] = t
	return t
}

// wholeContent: a function given content and a file writes all of it, once.
func (c *Ctx) wholeContent(fn *ssa.Function) {
	con := c.short(fn)
	data, file := "", ""
	for i, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			if isByteSlice(t) {
				data = fmt.Sprintf("$%d", i)
			}
		case *types.Basic:
			if t.Kind() == types.String && data == "" {
				data = fmt.Sprintf("$%d", i)
			}
		}
		if isBuffer(p.Type()) {
			data = fmt.Sprintf("$%d", i)
		}
		if n := namedOf(derefT(p.Type())); n != nil && (n.Obj().Name() == "File" || isWriter(p.Type())) && !isBuffer(p.Type()) {
			file = fmt.Sprintf("$%d", i)
		}
	}
	if data == "" || file == "" {
		c.Obl("content", con, fn.Pos(), false, "%s writes a buffer in a way that is not followed", con)
		return
	}
	tb := c.table("content", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" || e.Kind == "invoke" || e.Kind == "write" })
	})
	if tb == nil {
		return
	}
	for _, r := range tb.Path {
		n := 0
		for i := range r.Ev {
			e := &r.Ev[i]
			if len(e.Args) < 2 || peelIface(e.Args[0]).K() != file || strings.HasSuffix(e.Name, ".Close") || strings.HasSuffix(e.Name, ".Name") {
				continue
			}
			if e.Kind != "write" && !strings.Contains(e.Name, "Write") && !strings.Contains(e.Name, "Copy") && !strings.Contains(e.Name, "Fprint") {
				continue
			}
			n++
			what := peelIface(peel(e.Args[1]))
			ok := what.K() == data || holdsContent(what, data)
			if t, isT := what.(*Term); isT && t.Op == "#0" && len(t.Args) == 1 {
				// a formatted form
				call, isC := t.Args[0].(*Term)
				if isC && (strings.HasSuffix(call.Op, "imports.Process") || strings.HasSuffix(call.Op, "format.Source")) {
					for _, a := range call.Args {
						if peel(a).K() == data || holdsContent(a, data) {
							ok = true
						}
					}
					if b, known := r.F.b["isnil(#1("+call.K()+"))"]; !known || !b {
						ok = false
					}
				}
			}
			c.Obl("content", con, r.Pos, ok, "%s writes %s instead of the content it was given", con, clip(what.K(), 120))
		}
		if n == 0 {
			// an error before anything was written
			if len(r.Ret) > 0 {
				if b, known := r.F.b["isnil("+r.St.snap(r.Ret[len(r.Ret)-1]).K()+")"]; known && !b {
					continue
				}
			}
		}
		c.Obl("content", con+" once", r.Pos, n == 1, "%s writes the content %d times", con, n)
	}
}
