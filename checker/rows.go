package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Row is what the analysis established about one iteration of a loop (the
// facts of the path and what happened on it), or about one path through a
// function.
type Row struct {
	Fn   *ssa.Function
	Loop *LoopMeta // nil for a whole path
	Be   *BackEdge
	F    *Facts
	Ev   []Event
	St   *State
	Ret  []V
	Pos  token.Pos

	atoms map[string]tri
	Panic bool
}

type Table struct {
	Fn   *ssa.Function
	IP   *Interp
	Iter []*Row // one per back edge
	Path []*Row // one per outcome
}

// table interprets a function and returns its rows.
func (c *Ctx) table(rule string, fn *ssa.Function, setup func(*Interp)) *Table {
	return c.tableArgs(rule, fn, nil, setup)
}

// tableArgs: with some of the arguments known.
func (c *Ctx) tableArgs(rule string, fn *ssa.Function, known []V, setup func(*Interp)) *Table {
	ip := newInterp(c.Program)
	ip.NoMerge = true
	if err := ip.runInits(); err != nil {
		c.Fail(rule, "init", fn.Pos(), "%v", err)
		return nil
	}
	setup(ip)
	args := namedArgs(fn)
	for i, v := range known {
		if v != nil {
			args[i] = v
		}
	}
	outs, err := ip.Run(fn, args, nil)
	if err != nil {
		c.Fail(rule, c.short(fn), fn.Pos(), "the analysis could not follow %s: %v", c.short(fn), err)
		return nil
	}
	t := &Table{Fn: fn, IP: ip}
	for _, l := range ip.AllLoops {
		for _, b := range l.Back {
			t.Iter = append(t.Iter, &Row{Fn: fn, Loop: l, Be: b, F: b.St.facts, Ev: b.delta(), St: b.St, Pos: l.Pos})
		}
	}
	for _, o := range outs {
		t.Path = append(t.Path, &Row{Fn: fn, F: o.St.facts, Ev: o.St.tr, St: o.St, Ret: o.Ret, Pos: fn.Pos(), Panic: o.Panic})
	}
	c.Fn(fn)
	c.Stat("functions", 1)
	c.Stat("rows", len(t.Iter)+len(t.Path))
	return t
}

// peel removes conversions.
func peel(v V) V {
	for {
		t, ok := v.(*Term)
		if !ok || t.Op != "conv" && !strings.HasPrefix(t.Op, "conv:") || len(t.Args) != 1 {
			return v
		}
		v = t.Args[0]
	}
}

// opSuffix: the last component of an invoked or called function's name.
func opSuffix(op string) string {
	if i := strings.LastIndexByte(op, '.'); i >= 0 {
		return op[i+1:]
	}
	return op
}

// subj names what a string is in terms of the declaration at hand.
func subj(v V) string {
	v = peel(v)
	t, ok := v.(*Term)
	if !ok {
		if s, ok := isStrConst(v); ok {
			return fmt.Sprintf("%q", s)
		}
		return clip(v.K(), 60)
	}
	switch {
	case t.Op == ".Name", t.Op == ".tagName" && len(t.Args) == 1:
		if t.Op == ".Name" {
			return "name"
		}
		return "tag"
	case strings.HasPrefix(t.Op, "key#"):
		return "tag"
	case strings.HasPrefix(t.Op, "inv:"):
		switch opSuffix(t.Op) {
		case "GetTag":
			return "tag"
		case "GetBase":
			return "base"
		case "CGoName":
			return "cgoname"
		}
	case strings.HasSuffix(t.Op, ".SrcStr") && strings.Contains(t.K(), ".Name("):
		return "name"
	case strings.HasPrefix(t.Op, "call:"):
		switch opSuffix(t.Op) {
		case "TransformName":
			if len(t.Args) >= 3 {
				if s, ok := isStrConst(t.Args[1]); ok {
					return "xf:" + s + "/" + subj(t.Args[2])
				}
			}
		case "checkName":
			return subj(t.Args[0])
		}
	case t.Op == "res" || strings.HasPrefix(t.Op, "#"):
		if len(t.Args) > 0 {
			return subj(t.Args[0])
		}
	}
	return clip(t.K(), 80)
}

// atomsOf: the facts of a row in the vocabulary of the properties.
func (r *Row) atomsOf() map[string]tri {
	if r.atoms != nil {
		return r.atoms
	}
	m := map[string]tri{}
	r.atoms = m
	set := func(k string, v tri) { m[k] = v }
	for _, t := range r.F.boolTerms() {
		v := triOf(r.F.b[t.K()])
		op := t.Op
		switch {
		case strings.HasPrefix(op, "call:"):
			switch opSuffix(op) {
			case "IsAcceptableName":
				if len(t.Args) == 3 {
					if s, ok := isStrConst(t.Args[1]); ok {
						set("acc:"+s+"/"+subj(t.Args[2]), v)
						continue
					}
				}
				set("acc:?/"+clip(t.K(), 80), v)
			case "IsTokenIgnored":
				set("ignored", v)
			default:
				set(opSuffix(op), v)
			}
		case strings.HasPrefix(op, "inv:"):
			switch opSuffix(op) {
			case "IsComplete":
				set("complete", v)
			case "IsConst":
				set("const", v)
			default:
				set(opSuffix(op), v)
			}
		case op == ".IsStatic":
			set("static", v)
		case op == ".IsTypedef":
			set("typedef", v)
		case op == ".IsDefine":
			set("define", v)
		case op == ".IsFnLike":
			set("fnlike", v)
		case op == "get" && len(t.Args) == 2:
			set("seen", pickYes(m["seen"], v))
			set("seen:"+clip(t.Args[0].K(), 4000)+"|"+subj(t.Args[1]), v)
		case op == "has" && len(t.Args) == 2:
			set("has", pickYes(m["has"], v))
			set("has:"+subj(t.Args[1]), v)
		case op == "isnil":
			if a, ok := peel(t.Args[0]).(*Term); ok && strings.HasPrefix(a.Op, ".") {
				set("nil:"+a.Op[1:], v)
			}
		case op == "eqs":
			a, b := subj(t.Args[0]), subj(t.Args[1])
			if b == `""` {
				set("empty:"+a, v)
			} else if a == `""` {
				set("empty:"+b, v)
			} else {
				if a > b {
					a, b = b, a
				}
				set("eq:"+a+"="+b, v)
			}
		}
	}
	for k, s := range r.F.eq {
		if t := r.F.at[k]; t != nil {
			set("empty:"+subj(t), triOf(s == ""))
		}
	}
	for k, iv := range r.F.iv {
		t, ok := r.F.at[k].(*Term)
		if !ok || t.Op != "len" {
			continue
		}
		if iv.hi <= 0 {
			set("empty:"+subj(t.Args[0]), yes)
		} else if iv.lo >= 1 || iv.neq[0] && iv.lo >= 0 {
			set("empty:"+subj(t.Args[0]), no)
		}
	}
	return m
}

func pickYes(a, b tri) tri {
	if a == yes || b == yes {
		return yes
	}
	if a == no || b == no {
		return no
	}
	return unk
}

// kinds: which declaration kinds the row is about (0..6).
func (r *Row) kinds() []int {
	in := map[int]bool{}
	for k := 0; k <= 6; k++ {
		in[k] = true
	}
	for k, iv := range r.F.iv {
		t, ok := r.F.at[k].(*Term)
		if !ok || !strings.HasPrefix(t.Op, "inv:") || opSuffix(t.Op) != "Kind" || strings.Contains(t.Op, "cc/v4") {
			continue
		}
		for k := range in {
			if int64(k) < iv.lo || int64(k) > iv.hi || iv.neq[int64(k)] {
				delete(in, k)
			}
		}
	}
	var out []int
	for k := range in {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

var kindNames = []string{"type", "plain type", "struct", "opaque struct", "union", "function", "enum"}

// hold: an atom is "name=yes", "name=no", or alternatives separated by |.
func (r *Row) hold(cond string) tri {
	res := no
	for _, a := range strings.Split(cond, "|") {
		i := strings.LastIndexByte(a, '=')
		got := r.atomsOf()[a[:i]]
		switch {
		case got == unk:
			if res == no {
				res = unk
			}
		case got.String() == a[i+1:]:
			return yes
		}
	}
	return res
}

func (r *Row) describe() string {
	var s []string
	for k, v := range r.atomsOf() {
		if strings.HasPrefix(k, "seen:") || v == unk {
			continue
		}
		s = append(s, k+"="+v.String())
	}
	sort.Strings(s)
	return clip(strings.Join(s, ", "), 300)
}
