package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C23"] = c23 }

type builtinRule struct{ From, To, Action, Transform string }

// the rules a configuration can load by name
var builtinRuleTable = map[string]builtinRule{
	"snakecase":  {From: "_([^_]+)", To: "$1", Action: "replace", Transform: "title"},
	"doc.file":   {Action: "doc", To: "$path:$line"},
	"doc.google": {Action: "doc", To: "https://google.com/search?q=$file+$name"},
}

func c23(c *Ctx) {
	c.explain = "The function that compiles rules is interpreted for an arbitrary rule in an arbitrary list: from what a path establishes about the rule (which of its fields are given, which ready-made rule it loads, its action) the compiled rule the property requires is computed and compared with the one the path keeps. New is interpreted on every path and each field of the translator compared with the setting it comes from."
	c.Rule("all: a loop that goes through rules, tips or settings and makes something of each is not left before the last, but with an error")
	c.Rule("compile: a rule of the wanted action is kept, at the end of its target's list, with the pattern, replacement and transform it was written with; any other is left out")
	c.Rule("unknown: loading a name that is not a ready-made rule is an error, as is a pattern that does not compile")
	c.Rule("settings: every setting reaches the part of the translator it is meant for, with its documented default")
	c.ruleCompile()
	c.translatorNew()
	c.throughAll("all", "rules, tips or settings", func(pkg, name, file, over string) bool {
		return pkg == "translator" && (strings.HasSuffix(name, "Rxs") || name == "New")
	})
	c.Floor("all", 1)
	c.Floor("compile", 20)
	c.Floor("unknown", 2)
	c.Floor("settings", 10)
}

// ruleRow is what one iteration establishes about the rule it handles.
type ruleRow struct {
	r    *Row
	elem V
	own  map[string]tri // field given
	load string         // ready-made rule loaded ("" none, "?" one that is not known)
}

func (c *Ctx) ruleRowOf(r *Row) *ruleRow {
	rr := &ruleRow{r: r, own: map[string]tri{}}
	note := func(t *Term, v tri) {
		f, ok := t.Args[0].(*Term)
		if !ok || !strings.HasPrefix(f.Op, ".") || len(f.Args) != 1 {
			return
		}
		if _, ix, ok := elemOf(f.Args[0]); !ok || r.Loop != nil && !r.ownIndex(ix) {
			return
		}
		switch f.Op {
		case ".From", ".To", ".Action", ".Transform", ".Load":
			rr.elem = f.Args[0]
			rr.own[f.Op[1:]] = v
		}
	}
	for k, iv := range r.F.iv {
		if t, ok := r.F.at[k].(*Term); ok && t.Op == "len" {
			if iv.lo >= 1 || iv.neq[0] {
				note(t, yes)
			} else if iv.hi <= 0 {
				note(t, no)
			}
		}
	}
	if rr.elem == nil {
		return nil
	}
	if rr.own["Load"] == no {
		return rr
	}
	rr.load = "?"
	lk := mkTerm(types.Typ[types.String], ".Load", rr.elem).K()
	if s, ok := r.F.eq[lk]; ok {
		if _, ok := builtinRuleTable[s]; ok {
			rr.load = s
		}
		return rr
	}
	return rr
}

// field: the rule's own value if given, else that of the rule it loads.
func (rr *ruleRow) field(name string) (V, tri) {
	switch rr.own[name] {
	case yes:
		return mkTerm(types.Typ[types.String], "."+name, rr.elem), yes
	case no:
		b := builtinRuleTable[rr.load]
		s := map[string]string{"From": b.From, "To": b.To, "Action": b.Action, "Transform": b.Transform}[name]
		return cStr(s), yes
	}
	if rr.load == "" { // no rule loaded: the rule's own value whatever it is
		return mkTerm(types.Typ[types.String], "."+name, rr.elem), yes
	}
	return nil, unk
}

// eqVals: whether two values are the same string, under the facts.
func (f *Facts) eqVals(a, b V) tri {
	a, b = peel(a), peel(b)
	if a.K() == b.K() {
		return yes
	}
	str := func(v V) (string, bool) {
		if s, ok := isStrConst(v); ok {
			return s, true
		}
		s, ok := f.eq[v.K()]
		return s, ok
	}
	x, ok1 := str(a)
	y, ok2 := str(b)
	if ok1 && ok2 {
		return triOf(x == y)
	}
	for _, t := range f.boolTerms() {
		if t.Op == "eqs" && len(t.Args) == 2 {
			p, q := t.Args[0].K(), t.Args[1].K()
			if p == a.K() && q == b.K() || p == b.K() && q == a.K() {
				return triOf(f.b[t.K()])
			}
		}
	}
	// empty or not
	empty := func(v V) tri {
		if s, ok := str(v); ok {
			return triOf(s == "")
		}
		iv := f.interval(mkTerm(types.Typ[types.Int], "len", v))
		if iv.lo >= 1 {
			return no
		}
		if iv.hi <= 0 {
			return yes
		}
		return unk
	}
	if p, q := empty(a), empty(b); p == yes && q == yes {
		return yes
	} else if p != unk && q != unk && p != q {
		return no
	}
	return unk
}

func (c *Ctx) ruleCompile() {
	fn := c.Anchor("translator", "", "getRuleActionRxs")
	if fn == nil {
		return
	}
	t := c.table("compile", fn, func(ip *Interp) { setupEmission(c, ip, "LoadSpec") })
	if t == nil {
		return
	}
	action := mkTerm(types.Typ[types.String], "$1")
	nameless := func(v V) V { return v }
	kept := 0
	for _, r := range t.Iter {
		rr := c.ruleRowOf(r)
		var apps []Event
		for _, e := range r.Ev {
			if e.Kind == "append" && strings.HasSuffix(e.Name, "translator.Rx") {
				apps = append(apps, e)
			}
		}
		if rr == nil {
			c.Obl("compile", c.short(fn)+" other iterations", r.Pos, len(apps) == 0, "%s keeps a rule without looking at it", c.short(fn))
			continue
		}
		var ds []string
		for k, v := range rr.own {
			ds = append(ds, k+"="+v.String())
		}
		sort.Strings(ds)
		con := fmt.Sprintf("rule {%s, loads %q}", strings.Join(ds, ", "), rr.load)
		if rr.load == "?" {
			c.Obl("unknown", con, r.Pos, false, "%s goes on after a rule that loads something which is not a ready-made rule", c.short(fn))
			continue
		}
		act, known := rr.field("Action")
		if known != yes {
			c.Fail("compile", con, r.Pos, "%s does not look at the action of a rule", c.short(fn))
			continue
		}
		// no action means: replace the whole match by itself
		identity := r.F.eqVals(act, cStr(""))
		if identity == unk {
			// an action equal to the wanted one may still be empty
			c.Fail("compile", con, r.Pos, "%s does not find out whether the rule has an action", c.short(fn))
			continue
		}
		if identity == yes {
			act = cStr("replace")
		}
		wanted := r.F.eqVals(act, action)
		con += fmt.Sprintf(" wanted=%s kept %d", wanted, len(apps))
		if len(apps) != 1 {
			c.Obl("compile", con, r.Pos, len(apps) == 0 && wanted == no, "%s keeps a rule %d times (the rule is of the wanted action: %s)", c.short(fn), len(apps), wanted)
			continue
		}
		kept++
		c.Obl("compile", con, r.Pos, wanted == yes, "%s keeps a rule of another action", c.short(fn))
		s, ok := apps[0].Args[0].(*StructV)
		if !ok {
			c.Fail("compile", con, r.Pos, "%s keeps %s", c.short(fn), clip(apps[0].Args[0].K(), 120))
			continue
		}
		st := s.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields() && i < len(s.F); i++ {
			got := peel(r.St.snap(s.F[i]))
			switch st.Field(i).Name() {
			case "From":
				from, fk := rr.field("From")
				pat := from
				empty := no
				if fk == yes {
					empty = r.F.eqVals(from, cStr(""))
				}
				switch {
				case fk != yes || empty == unk:
					pat = nil
				case identity == yes && empty == yes:
					pat = cStr("(?P<_src>.*)")
				case identity == yes:
					pat = mkCat(cStr("(?P<_src>"), from, cStr(")"))
				case empty == yes:
					pat = cStr("(.*)")
				}
				okP := false
				if pat != nil {
					k := got.K()
					okP = k == "#0(ext:regexp.Compile("+pat.K()+"))" || k == "ext:regexp.MustCompile("+pat.K()+")"
				}
				c.Obl("compile", con+" pattern", apps[0].Pos, okP, "the pattern of a rule becomes %s", clip(got.K(), 160))
			case "To":
				to, tk := rr.field("To")
				if identity == yes {
					to, tk = cStr("${_src}"), yes
				}
				c.Obl("compile", con+" replacement", apps[0].Pos, tk == yes && r.F.eqVals(got, nameless(to)) == yes, "the replacement of a rule becomes %s", clip(got.K(), 160))
			case "Transform":
				isRepl := r.F.eqVals(act, cStr("replace"))
				if isRepl == unk && wanted == yes {
					isRepl = r.F.eqVals(action, cStr("replace"))
				}
				tr, tk := rr.field("Transform")
				ok := false
				switch isRepl {
				case no: // a transform means something for replacements only
					ok = true
				case yes:
					ok = tk == yes && r.F.eqVals(got, tr) == yes
				}
				c.Obl("compile", con+" transform", apps[0].Pos, ok, "the transform of a rule becomes %s", clip(got.K(), 160))
			}
		}
		// where it goes
		filed := 0
		var target string
		if l, _, ok := elemOf(rr.elem); ok {
			if g, ok := peel(l).(*Term); ok && g.Op == "get" && len(g.Args) == 2 && isNamedArg("$0")(g.Args[0]) {
				target = g.Args[1].K()
			}
		}
		for _, e := range r.Ev {
			if e.Kind != "mapset" && e.Kind != "mapstore" || len(e.Args) != 3 {
				continue
			}
			filed++
			good := false
			if sq, ok := e.Args[2].(*SeqV); ok && sq.Base != nil && len(sq.E) == 1 && sq.E[0].K() == apps[0].Args[0].K() {
				if g, ok := sq.Base.(*Term); ok && g.Op == "get" && len(g.Args) == 2 && g.Args[1].K() == e.Args[1].K() {
					good = true
				}
			}
			c.Obl("compile", con+" filed", e.Pos, good && target != "" && e.Args[1].K() == target, "%s does not add the rule at the end of the list of its own target", c.short(fn))
		}
		if filed == 0 && target != "" && c.filedLater(t, r, target, apps[0].Args[0]) {
			continue
		}
		c.Obl("compile", con+" filed once", r.Pos, filed == 1, "%s files a rule %d times", c.short(fn), filed)
	}
	c.Obl("compile", "rules are kept", fn.Pos(), kept > 0, "%s keeps no rule", c.short(fn))
	for _, r := range t.Path {
		if len(r.Ret) != 2 {
			continue
		}
		failed := !isNilConst(r.St.snap(r.Ret[1]))
		rr := c.ruleRowOf(r)
		if rr == nil {
			c.Obl("unknown", "no rule at fault", fn.Pos(), !failed, "%s fails though no rule is at fault", c.short(fn))
			continue
		}
		bad := rr.load == "?" || rr.r.compileFailed()
		c.Obl("unknown", fmt.Sprintf("rule loads %q, pattern does not compile: %v", rr.load, rr.r.compileFailed()), fn.Pos(), failed == bad, "%s: the rule is at fault: %v, but failure is reported: %v", c.short(fn), bad, failed)
	}
}

// filedLater: the list the iteration adds v to starts empty for each target and
// is filed under the target once it is complete, unless it is empty.
func (c *Ctx) filedLater(t *Table, r *Row, target string, v V) bool {
	is := func(l V) bool {
		s, ok := peel(l).(*Term)
		if !ok || s.Op != "seq" || len(s.Args) < 2 {
			return false
		}
		name, ok := isStrConst(s.Args[0])
		if !ok || !strings.HasPrefix(name, "#"+r.Loop.Key+"#") {
			return false
		}
		for _, a := range s.Args[1:] {
			if a.K() == v.K() {
				return true
			}
		}
		return false
	}
	done, skipped := false, false
	for _, o := range t.Iter {
		if o.Loop == r.Loop || o.Loop.Key == r.Loop.Key || c.ruleRowOf(o) != nil && o.Loop.Key == r.Loop.Key {
			continue
		}
		n, empty := 0, false
		for _, e := range o.Ev {
			if (e.Kind == "mapset" || e.Kind == "mapstore") && len(e.Args) == 3 && e.Args[1].K() == target && is(e.Args[2]) {
				n++
			}
		}
		for k, iv := range o.F.iv {
			if s, ok := o.F.at[k].(*Term); ok && s.Op == "len" && is(s.Args[0]) && iv.hi <= 0 {
				empty = true
			}
		}
		if n == 1 {
			done = true
		} else if n > 1 || !empty {
			skipped = true
		}
	}
	return done && !skipped
}

// compileFailed: the path established that some pattern did not compile.
func (r *Row) compileFailed() bool {
	for _, t := range r.F.boolTerms() {
		if t.Op == "isnil" && !r.F.b[t.K()] {
			if call, ok := resultOf(t.Args[0], 1); ok {
				if ct, ok := call.(*Term); ok && strings.HasPrefix(ct.Op, "ext:") && strings.HasSuffix(ct.Op, ".Compile") {
					return true
				}
			}
		}
	}
	return false
}

// fieldsOf: the fields of the struct a pointer refers to.
func (st *State) fieldsOf(v V) map[string]V {
	p, ok := v.(*Ptr)
	if !ok || len(p.Path) != 0 {
		return nil
	}
	s, ok := st.get(p.Obj).(*StructV)
	if !ok {
		return nil
	}
	ts, ok := s.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	m := map[string]V{}
	for i := 0; i < ts.NumFields() && i < len(s.F); i++ {
		m[ts.Field(i).Name()] = s.F[i]
	}
	return m
}

func (c *Ctx) translatorNew() {
	fn := c.Anchor("translator", "", "New")
	if fn == nil {
		return
	}
	t := c.table("settings", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	actions := []string{"accept", "ignore", "replace", "doc"}
	n := 0
	for _, r := range t.Path {
		if len(r.Ret) != 2 || !isNilConst(r.St.snap(r.Ret[1])) {
			continue
		}
		n++
		fs := r.St.fieldsOf(r.Ret[0])
		if fs == nil {
			c.Fail("settings", "translator", fn.Pos(), "New returns %s", clip(r.Ret[0].K(), 100))
			return
		}
		given := yes // a configuration is given
		for _, t := range r.F.boolTerms() {
			if t.Op == "isnil" && isNamedArg("$0")(t.Args[0]) {
				given = triOf(!r.F.b[t.K()])
			}
		}
		set := func(name string) string { return "." + name + "(*($0))" }
		sub := "configuration given=" + given.String()
		isUnset := func(v V) bool {
			if isNilConst(v) {
				return true
			}
			b, ok := isBoolConst(v)
			return ok && !b
		}
		same := func(v V, name string) bool {
			if given == no {
				return isUnset(v)
			}
			return v.K() == set(name)
		}
		for _, f := range [][2]string{{"validations", "Validations"}, {"rules", "Rules"}, {"constRules", "ConstRules"}, {"typemap", "Typemap"}, {"lenFields", "LenFields"}} {
			v := fs[f[0]]
			if v == nil {
				continue
			}
			c.Obl("settings", f[1]+" "+sub, fn.Pos(), same(v, f[1]), "the translator's %s is %s, not the setting %s", f[0], clip(v.K(), 80), f[1])
		}
		// type maps
		deflt := func(v V, name string, d bool) bool {
			if b, ok := isBoolConst(v); ok {
				nilKnown := given == no
				for _, t := range r.F.boolTerms() {
					if t.Op == "isnil" && t.Args[0].K() == set(name) {
						nilKnown = r.F.b[t.K()]
						if !nilKnown {
							return false
						}
					}
				}
				return nilKnown && b == d
			}
			return v.K() == "*("+set(name)+")"
		}
		for _, m := range []struct {
			field string
			plain bool
		}{{"builtinTypemap", false}, {"builtinTypemap2", true}} {
			a, ok := callArgs(fs[m.field], "getCTypeMap")
			ok = ok && len(a) == 3
			if ok {
				if m.plain {
					x, ok1 := isBoolConst(a[0])
					y, ok2 := isBoolConst(a[1])
					ok = ok1 && ok2 && x && !y
				} else {
					ok = deflt(a[0], "ConstCharIsString", true) && deflt(a[1], "ConstUCharIsString", false)
				}
				ok = ok && same(a[2], "LongIs64Bit")
			}
			c.Obl("settings", m.field+" "+sub, fn.Pos(), ok, "the translator's %s is %s", m.field, clip(fs[m.field].K(), 160))
		}
		for _, f := range [][3]string{{"compiledPtrTipRxs", "getPtrTipRxs", "PtrTips"}, {"compiledTypeTipRxs", "getTypeTipRxs", "TypeTips"}, {"compiledMemTipRxs", "getMemTipRxs", "MemTips"}} {
			ok := false
			if call, is := resultOf(fs[f[0]], 0); is {
				if a, is := callArgs(call, f[1]); is && len(a) == 1 {
					ok = same(a[0], f[2])
				}
			}
			c.Obl("settings", f[2]+" "+sub, fn.Pos(), ok, "the translator's %s is %s, not the compiled %s", f[0], clip(fs[f[0]].K(), 100), f[2])
		}
	}
	c.Obl("settings", "New succeeds", fn.Pos(), n > 0, "New never returns a translator")
	// rules of every action, and ignored files
	done := map[string]bool{}
	file := func(r *Row, e Event) {
		if e.Kind != "mapset" && e.Kind != "mapstore" || len(e.Args) != 3 {
			return
		}
		if call, is := resultOf(e.Args[2], 0); is {
			a, is := callArgs(call, "getRuleActionRxs")
			if !is || len(a) != 2 {
				return
			}
			c.Obl("settings", "rules filed under their action", e.Pos, a[1].K() == e.Args[1].K(), "the rules of action %s are filed under %s", clip(a[1].K(), 60), clip(e.Args[1].K(), 60))
			rk := a[0].K()
			c.Obl("settings", "rules compiled are the configured ones", e.Pos, rk == ".Rules(*($0))" || isNilConst(a[0]), "the rules compiled are %s", clip(rk, 80))
			if s, ok := isStrConst(a[1]); ok {
				done[s] = true
			} else if l, ix, ok := elemOf(a[1]); ok && r.Loop != nil && r.ownIndex(ix) {
				if sq, ok := l.(*SeqV); ok && sq.Base == nil {
					for _, x := range sq.E {
						if s, ok := isStrConst(x); ok {
							done[s] = true
						}
					}
				}
			}
		}
	}
	ignored := false
	for _, r := range t.Iter {
		for _, e := range r.Ev {
			file(r, e)
			if (e.Kind == "mapset" || e.Kind == "mapstore") && len(e.Args) == 3 {
				if l, ix, ok := elemOf(e.Args[1]); ok && r.ownIndex(ix) && l.K() == ".IgnoredFiles(*($0))" {
					ignored = true
				}
			}
		}
	}
	for _, r := range t.Path {
		for _, e := range r.Ev {
			file(r, e)
		}
	}
	for _, a := range actions {
		c.Obl("settings", "rules of action "+a, fn.Pos(), done[a], "the rules of action %s are never compiled", a)
	}
	c.Obl("settings", "IgnoredFiles", fn.Pos(), ignored, "the ignored headers do not all reach the translator")
}

var _ = ssa.NaiveForm
