package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = c19 }

func c19(c *Ctx) {
	c.explain = "The functions that write the beginnings of the generated files are interpreted on every path into the text they write, as lines of constants and holes; the lines, their order and the condition each is written under are compared with what the configuration asks for."
	c.Rule("clause: a Go file has exactly one package clause, with the package's name, after the license and the label")
	c.Rule("license: the license of the configuration is written, as a comment, when there is one")
	c.Rule("label: the label that marks generated code is there, on a line of its own, in the form tools recognise, with the time exactly if timestamps are not disabled")
	c.Rule("doc: the description is written directly before the package clause when there is one, and the file is reported worth keeping exactly if there is a license or a description")
	c.Rule("preamble: the cgo preamble is one comment directly followed by import \"C\"; in it are the package options, each complete flag group, each system include and include in order, stdlib.h, and last the helpers' header under the name it is written to")
	c.Rule("c-header: the C header of the helpers repeats the includes and guards against being included twice")
	c.Rule("c-source: the C file of the helpers includes cgo's exports and the helpers' header")
	hName := c.helperHeaderName()
	c.Obl("preamble", "helpers header name", 0, hName != "", "no file name for the helpers' C header found")
	type head struct {
		name                             string
		goFile, doc, preamble, hdr, csrc bool
	}
	for _, h := range []head{
		{name: "WriteDoc", goFile: true, doc: true},
		{name: "WritePackageHeader", goFile: true},
		{name: "WriteIncludes", preamble: true},
		{name: "writeGoHelpersHeader", goFile: true, preamble: true},
		{name: "writeCHHelpersHeader", hdr: true},
		{name: "writeCCHelpersHeader", csrc: true},
	} {
		fn := c.Anchor("generator", "Generator", h.name)
		if fn == nil {
			continue
		}
		tb := c.textTable("clause", fn)
		if tb == nil {
			continue
		}
		wr := ""
		for i, p := range fn.Params {
			if isWriter(p.Type()) {
				wr = fmt.Sprintf("$%d", i)
			}
		}
		for _, r := range tb.Path {
			v := r.St.streams[wr]
			if !c.Obl("clause", h.name+" text", r.Pos, v != nil, "%s writes nothing that can be followed on a path", h.name) {
				continue
			}
			d := &doc19{c: c, t: tb, r: r, con: h.name, ls: textLines(v)}
			if h.goFile {
				d.clause()
			}
			if h.goFile || h.hdr || h.csrc {
				d.license()
				d.label()
			}
			if h.doc {
				d.doc()
			}
			if h.preamble {
				d.preamble(hName)
			}
			if h.hdr {
				d.includes("c-header", 0, len(d.ls))
				d.once("c-header", "#pragma once", 0, len(d.ls))
			}
			if h.csrc {
				d.once("c-source", `#include "_cgo_export.h"`, 0, len(d.ls))
				d.once("c-source", `#include "`+hName+`"`, 0, len(d.ls))
			}
		}
		c.Stat("heads", 1)
	}
	c.Floor("clause", 10)
	c.Floor("license", 10)
	c.Floor("label", 10)
	c.Floor("doc", 4)
	c.Floor("preamble", 20)
	c.Floor("c-header", 8)
	c.Floor("c-source", 4)
}

// textTable interprets a function with everything it calls in the module.
func (c *Ctx) textTable(rule string, fn *ssa.Function) *Table {
	return c.table(rule, fn, func(ip *Interp) {
		ip.Inline = func(*ssa.Function) bool { return true }
		ip.Trace = func(e *Event) bool { return e.Kind == "write" }
	})
}

// helperHeaderName: the name of the .h file that is written when flushing.
func (c *Ctx) helperHeaderName() string {
	fn := c.Anchor("main", "Process", "Flush")
	if fn == nil {
		return ""
	}
	tb := c.table("preamble", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" })
	})
	if tb == nil {
		return ""
	}
	names := map[string]bool{}
	for _, r := range tb.Path {
		for i := range r.Ev {
			for _, a := range r.Ev[i].Args {
				if s := lastConst(a); strings.HasSuffix(s, ".h") && len(s) > 2 {
					names[s[strings.LastIndexByte(s, '/')+1:]] = true
				}
			}
		}
	}
	if len(names) != 1 {
		return ""
	}
	for n := range names {
		return n
	}
	return ""
}

type doc19 struct {
	c   *Ctx
	t   *Table
	r   *Row
	con string
	ls  []tline
}

// lenIs: what the path knows about the length of a setting.
func lenIs(f *Facts, field string) (empty, some bool) {
	for k, iv := range f.iv {
		if strings.HasPrefix(k, "len(."+field+"(") {
			if iv.hi <= 0 {
				empty = true
			}
			if iv.lo > 0 {
				some = true
			}
		}
	}
	for k, s := range f.eq {
		if strings.HasPrefix(k, "."+field+"(") {
			if s == "" {
				empty = true
			} else {
				some = true
			}
		}
	}
	for k, b := range f.b {
		if strings.HasPrefix(k, "eqs(."+field+"(") && strings.HasSuffix(k, `,"")`) {
			if b {
				empty = true
			} else {
				some = true
			}
		}
	}
	return
}

func (d *doc19) find(match func(l tline) bool, from, to int) []int {
	var out []int
	for i := from; i < to && i < len(d.ls); i++ {
		if match(d.ls[i]) {
			out = append(out, i)
		}
	}
	return out
}

func isLine(s string) func(tline) bool {
	return func(l tline) bool { return l.rep == "" && l.s == s }
}

func (d *doc19) once(rule, line string, from, to int) int {
	at := d.find(isLine(line), from, to)
	d.c.Obl(rule, d.con+" "+line, d.r.Pos, len(at) == 1, "%s writes the line %q %d times", d.con, line, len(at))
	if len(at) != 1 {
		return -1
	}
	return at[0]
}

func (d *doc19) clauseAt() []int {
	return d.find(func(l tline) bool { return l.rep == "" && strings.HasPrefix(l.s, "package ") }, 0, len(d.ls))
}

func (d *doc19) clause() {
	at := d.clauseAt()
	d.c.Obl("clause", d.con+" one", d.r.Pos, len(at) == 1, "%s writes %d package clauses", d.con, len(at))
	for _, i := range at {
		empty, _ := lenIs(d.r.F, "pkg")
		s := d.ls[i].s
		d.c.Obl("clause", d.con+" name", d.r.Pos, s == "package ⟨pkg⟩" || empty && s != "package " && !strings.Contains(s, "⟨"), "%s writes the package clause %q", d.con, s)
		// only comments before it
		in := false
		for _, l := range d.ls[:i] {
			switch {
			case l.rep != "":
				d.c.Obl("clause", d.con+" before", d.r.Pos, false, "%s writes something repeated before the package clause", d.con)
			case in:
				in = l.s != "*/"
			case l.s == "/*":
				in = true
			default:
				d.c.Obl("clause", d.con+" before", d.r.Pos, l.s == "" || strings.HasPrefix(l.s, "//"), "%s writes %q before the package clause", d.con, l.s)
			}
		}
		d.c.Obl("clause", d.con+" closed", d.r.Pos, !in, "%s leaves a comment open before the package clause", d.con)
	}
}

func (d *doc19) license() {
	at := d.find(func(l tline) bool { return strings.Contains(l.s, "⟨cfg.PackageLicense⟩") }, 0, len(d.ls))
	empty, _ := lenIs(d.r.F, "PackageLicense")
	d.c.Obl("license", d.con, d.r.Pos, len(at) == 1 || empty && len(at) == 0, "%s writes the license %d times (on a path where it may be given)", d.con, len(at))
	for _, i := range at {
		l := d.ls[i]
		d.c.Obl("license", d.con+" comment", d.r.Pos, l.s == "// ⟨cfg.PackageLicense⟩", "%s writes the license as %q", d.con, l.s)
		if pc := d.clauseAt(); len(pc) > 0 {
			d.c.Obl("license", d.con+" first", d.r.Pos, i < pc[0], "%s writes the license after the package clause", d.con)
		}
	}
}

var generatedRx = regexp.MustCompile(`^// Code generated .* DO NOT EDIT\.$`)

func (d *doc19) label() {
	at := d.find(func(l tline) bool { return l.rep == "" && generatedRx.MatchString(l.s) }, 0, len(d.ls))
	d.c.Obl("label", d.con+" one", d.r.Pos, len(at) == 1, "%s writes %d lines that mark generated code", d.con, len(at))
	if pc := d.clauseAt(); len(pc) > 0 && len(at) > 0 {
		d.c.Obl("label", d.con+" first", d.r.Pos, at[0] < pc[0], "%s marks the file as generated only after the package clause", d.con)
	}
	stamped := false
	for _, l := range d.ls {
		for _, s := range l.segs {
			if strings.Contains(s.K(), "ext:time.Now") {
				stamped = true
			}
		}
	}
	for k, b := range d.r.F.b {
		if strings.HasPrefix(k, ".noTimestamps(") {
			d.c.Obl("label", d.con+" time", d.r.Pos, stamped == !b, "%s writes the time: %v, although timestamps are disabled: %v", d.con, stamped, b)
			return
		}
	}
	d.c.Obl("label", d.con+" time", d.r.Pos, false, "%s does not ask whether timestamps are disabled", d.con)
}

func (d *doc19) doc() {
	at := d.find(func(l tline) bool { return strings.Contains(l.s, "⟨cfg.PackageDescription⟩") }, 0, len(d.ls))
	empty, some := lenIs(d.r.F, "PackageDescription")
	d.c.Obl("doc", d.con, d.r.Pos, len(at) == 1 || empty && len(at) == 0, "%s writes the description %d times (on a path where it may be given)", d.con, len(at))
	if pc := d.clauseAt(); len(pc) == 1 && len(at) == 1 && some {
		i, p := at[0], pc[0]
		ok := i < p
		for j := i + 1; j < p; j++ {
			if d.ls[j].s == "" && d.ls[j-1].s == "*/" || d.ls[j].s == "" && strings.HasPrefix(d.ls[i].s, "//") {
				ok = false
			}
		}
		d.c.Obl("doc", d.con+" adjacent", d.r.Pos, ok, "%s does not write the description directly before the package clause", d.con)
	}
	le, ls := lenIs(d.r.F, "PackageLicense")
	if len(d.r.Ret) > 0 {
		b, known := truthOf(d.r, d.r.Ret[0])
		if known {
			d.c.Obl("doc", d.con+" kept", d.r.Pos, b && (some || ls) || !b && empty && le, "%s reports that there is documentation: %v (description known: %v, known empty: %v; license known: %v, known empty: %v)", d.con, b, some, empty, ls, le)
		} else {
			d.c.Obl("doc", d.con+" kept", d.r.Pos, false, "%s reports something that is not followed", d.con)
		}
	}
}

// truthOf: a condition as far as the path knows it.
func truthOf(r *Row, v V) (bool, bool) {
	if b, ok := isBoolConst(v); ok {
		return b, true
	}
	v = r.St.snap(v)
	if b, ok := r.F.b[v.K()]; ok {
		return b, true
	}
	t, ok := v.(*Term)
	if !ok {
		return false, false
	}
	field := func(x V) string {
		if f, ok := peel(x).(*Term); ok && strings.HasPrefix(f.Op, ".") {
			return f.Op[1:]
		}
		return ""
	}
	switch {
	case t.Op == "not" && len(t.Args) == 1:
		b, ok := truthOf(r, t.Args[0])
		return !b, ok
	case t.Op == "eqs" && len(t.Args) == 2:
		if s, ok := isStrConst(t.Args[1]); ok && s == "" {
			empty, some := lenIs(r.F, field(t.Args[0]))
			return empty, empty || some
		}
	case t.Op == "lt" && len(t.Args) == 2:
		if n, ok := isIntConst(t.Args[0]); ok && n == 0 {
			if l, ok := t.Args[1].(*Term); ok && l.Op == "len" {
				empty, some := lenIs(r.F, field(l.Args[0]))
				return some, empty || some
			}
		}
	case t.Op == "eqi" && len(t.Args) == 2:
		if n, ok := isIntConst(t.Args[1]); ok && n == 0 {
			if l, ok := t.Args[0].(*Term); ok && l.Op == "len" {
				empty, some := lenIs(r.F, field(l.Args[0]))
				return empty, empty || some
			}
		}
	}
	return false, false
}

func (d *doc19) preamble(hName string) {
	op := d.find(isLine("/*"), 0, len(d.ls))
	cl := d.find(isLine("*/"), 0, len(d.ls))
	imp := d.find(func(l tline) bool { return l.rep == "" && strings.HasPrefix(l.s, `import "C"`) }, 0, len(d.ls))
	ok := len(op) == 1 && len(cl) == 1 && len(imp) == 1 && op[0] < cl[0] && imp[0] == cl[0]+1
	if !d.c.Obl("preamble", d.con+" comment", d.r.Pos, ok, "%s does not write one comment directly followed by import \"C\" (%d begin, %d end, %d imports)", d.con, len(op), len(cl), len(imp)) {
		return
	}
	for _, l := range d.ls[imp[0]+1:] {
		d.c.Obl("preamble", d.con+" rest", d.r.Pos, l.rep == "" && l.s == "", "%s writes %q after the import", d.con, l.s)
	}
	from, to := op[0]+1, cl[0]
	last := d.includes("preamble", from, to)
	if h := d.once("preamble", `#include "`+hName+`"`, from, to); h >= 0 {
		d.c.Obl("preamble", d.con+" helpers last", d.r.Pos, h > last, "%s includes the helpers' header before the package's own", d.con)
	}
	// package options
	const opts = "#cgo pkg-config: ⟨all cfg.PkgConfigOpts⟩"
	empty, some := lenIs(d.r.F, "PkgConfigOpts")
	at := d.find(func(l tline) bool { return l.rep == "" && strings.HasPrefix(l.s, "#cgo pkg-config:") }, from, to)
	each := d.loopOver("PkgConfigOpts", from, to)
	switch {
	case each >= 0:
		d.each("preamble", "PkgConfigOpts", each, func(f *Facts, lines []string) (bool, string) {
			return len(lines) == 1 && lines[0] == "#cgo pkg-config: ⟨cfg.PkgConfigOpts[i]⟩", strings.Join(lines, " ")
		})
	default:
		d.c.Obl("preamble", d.con+" options", d.r.Pos, len(at) == 0 && empty || len(at) == 1 && some && d.ls[at[0]].s == opts, "%s writes %d lines of package options (known empty: %v, known some: %v)", d.con, len(at), empty, some)
	}
	// flag groups
	g := d.loopOver("FlagGroups", from, to)
	if !d.c.Obl("preamble", d.con+" groups", d.r.Pos, g >= 0, "%s does not write a line for each flag group", d.con) {
		return
	}
	d.each("preamble", "FlagGroups", g, func(f *Facts, lines []string) (bool, string) {
		ne, ns := lenIs(f, "Name")
		fe, fs := lenIs(f, "Flags")
		te, ts := lenIs(f, "Traits")
		if ne || fe {
			return len(lines) == 0, "a group without name or flags as " + strings.Join(lines, " ")
		}
		want := ""
		const e = "cfg.FlagGroups[i]"
		if te {
			want = "#cgo ⟨" + e + ".Name⟩: ⟨all " + e + ".Flags⟩"
		}
		if ts {
			want = "#cgo ⟨all " + e + ".Traits⟩ ⟨" + e + ".Name⟩: ⟨all " + e + ".Flags⟩"
		}
		return ns && fs && len(lines) == 1 && lines[0] == want, fmt.Sprintf("a flag group as %q instead of %q", strings.Join(lines, " "), want)
	})
	for i := from; i < to; i++ {
		l := d.ls[i]
		if l.rep != "" {
			k := d.over(l)
			d.c.Obl("preamble", d.con+" other", d.r.Pos, k == "FlagGroups" || k == "SysIncludes" || k == "Includes" || k == "PkgConfigOpts", "%s writes something else repeated into the preamble (%s)", d.con, clip(l.rep, 60))
		} else {
			d.c.Obl("preamble", d.con+" other", d.r.Pos, l.s == "" || strings.HasPrefix(l.s, "#cgo pkg-config:") || l.s == "#include <stdlib.h>" || l.s == `#include "`+hName+`"`, "%s writes %q into the preamble", d.con, l.s)
		}
	}
}

// over: the setting a repeated part goes through.
func (d *doc19) over(l tline) string {
	k := strings.TrimPrefix(l.rep, "len(.")
	if k == l.rep {
		return ""
	}
	if i := strings.IndexByte(k, '('); i > 0 {
		return k[:i]
	}
	return ""
}

func (d *doc19) loopOver(field string, from, to int) int {
	at := d.find(func(l tline) bool { return l.rep != "" && d.over(l) == field }, from, to)
	if len(at) != 1 {
		return -1
	}
	return at[0]
}

// each: the part is written for every element in order, as wanted.
func (d *doc19) each(rule, field string, at int, want func(f *Facts, lines []string) (bool, string)) {
	l := d.ls[at]
	con := d.con + " each " + field
	seen := map[string]bool{}
	n := 0
	// other loops over the same elements write nothing
	writes := map[*ssa.Function]bool{}
	for _, it := range d.t.Iter {
		if it.Loop.Key == l.rep {
			if len(iterText(it)) > 0 {
				writes[it.Loop.Fn] = true
			}
		}
	}
	for _, it := range d.t.Iter {
		if it.Loop.Key != l.rep || !writes[it.Loop.Fn] {
			continue
		}
		if lm := it.Loop; !lm.HasIx || lm.Start != 0 || lm.Early {
			b, known := d.r.F.b["lt(ix#"+l.rep+"#,"+l.rep+")"]
			d.c.Obl(rule, con+" whole", d.r.Pos, lm.HasIx && lm.Start == 0 && known && !b, "%s can leave out elements of %s", d.con, field)
		}
		text := iterText(it)
		var lines []string
		if len(text) > 0 {
			for _, x := range textLines(mkCat(text...)) {
				if x.s != "" || x.rep != "" {
					lines = append(lines, x.s)
				}
			}
		}
		step := true
		for h, v := range it.Be.Carry {
			if strings.HasPrefix(h, "+c(ix#") || strings.HasPrefix(h, "ix#") {
				if _, a, ok := lin(v); ok {
					_, b, _ := linK(h)
					step = a-b == 1
				}
			}
		}
		ok, what := want(it.F, lines)
		k := fmt.Sprint(ok, what, step)
		if seen[k] {
			continue
		}
		seen[k] = true
		n++
		d.c.Obl(rule, con, it.Pos, ok, "%s writes %s", d.con, what)
		d.c.Obl(rule, con+" step", it.Pos, step, "%s does not go through %s one by one", d.con, field)
	}
	d.c.Obl(rule, con+" any", d.r.Pos, n > 0, "%s: no iteration over %s was found", d.con, field)
}

// linK: the offset of a term given by its key.
func linK(k string) (string, int64, bool) {
	if strings.HasPrefix(k, "+c(") {
		i := strings.LastIndexByte(k, ',')
		var n int64
		if _, err := fmt.Sscanf(strings.TrimSuffix(k[i+1:], ")"), "%d", &n); err == nil {
			return k[3:i], n, true
		}
	}
	return k, 0, true
}

// includes: the includes of the configuration and stdlib.h; where the last is.
func (d *doc19) includes(rule string, from, to int) int {
	last := -1
	order := map[string]int{}
	for _, f := range []struct{ field, l, r string }{{"SysIncludes", "<", ">"}, {"Includes", `"`, `"`}} {
		at := d.loopOver(f.field, from, to)
		if !d.c.Obl(rule, d.con+" "+f.field, d.r.Pos, at >= 0, "%s does not write a line for each of %s", d.con, f.field) {
			continue
		}
		order[f.field] = at
		if at > last {
			last = at
		}
		line := "#include " + f.l + "⟨cfg." + f.field + "[i]⟩" + f.r
		d.each(rule, f.field, at, func(_ *Facts, lines []string) (bool, string) {
			return len(lines) == 1 && lines[0] == line, fmt.Sprintf("an element of %s as %q", f.field, strings.Join(lines, " "))
		})
	}
	if len(order) == 2 {
		d.c.Obl(rule, d.con+" order", d.r.Pos, order["SysIncludes"] < order["Includes"], "%s writes the includes before the system's", d.con)
	}
	std := d.find(isLine("#include <stdlib.h>"), from, to)
	listed := false
	for k, s := range d.r.F.eq {
		if s == "stdlib.h" && strings.HasPrefix(k, "[](.SysIncludes(") {
			listed = true
		}
	}
	for k, b := range d.r.F.b {
		if b && (strings.HasPrefix(k, "eqs([](.SysIncludes(") || strings.HasPrefix(k, "ext:slices.Contains(.SysIncludes(")) && strings.HasSuffix(k, `,"stdlib.h")`) {
			listed = true
		}
	}
	d.c.Obl(rule, d.con+" stdlib.h", d.r.Pos, len(std) == 1 || len(std) == 0 && listed, "%s writes the include of stdlib.h %d times (listed among the system includes: %v)", d.con, len(std), listed)
	return last
}
