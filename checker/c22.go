package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = c22 }

// callArgs: the arguments of a call term whose name ends in suffix.
func callArgs(v V, suffix string) ([]V, bool) {
	t, ok := peel(v).(*Term)
	if !ok || !strings.HasPrefix(t.Op, "call:") || opSuffix(t.Op) != suffix {
		return nil, false
	}
	return t.Args, true
}

// result n of a call term.
func resultOf(v V, n int) (V, bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != fmt.Sprintf("#%d", n) || len(t.Args) != 1 {
		return nil, false
	}
	return t.Args[0], true
}

func c22(c *Ctx) {
	c.explain = "The lookup functions are interpreted over tip lists of any length: on every path, what the loops establish (some entry of the scope's list matches, none does, the same for the any scope) is compared with the entry returned; the entry returned has to be the one at the current index of a loop whose earlier iterations all refute a match. The construction of the lists, the use of an entry's tips and the order tag before name are decided the same way."
	c.Rule("first: the entry returned is the first matching one of its list")
	c.Rule("lookup: the scope's own list decides, then the list of the any scope, then there is no tip")
	c.Rule("cache: an entry is remembered for exactly the scope and name it was found for")
	c.Rule("spec: an entry matching the tag wins over one matching the name, for each kind of tip separately")
	c.Rule("entry: the i-th tip if there is one and it is valid, otherwise the default; the same for the self tip")
	c.Rule("compile: every entry with a pattern is kept, in order, under its scope; struct entries under the type scope too")
	any := c.strConst("translator", "TipScopeAny", "any")
	for _, l := range []struct {
		fn, field string
		scoped    bool
	}{{"PtrTipRx", ".compiledPtrTipRxs", true}, {"TypeTipRx", ".compiledTypeTipRxs", true}, {"MemTipRx", ".compiledMemTipRxs", false}} {
		c.tipLookup(l.fn, l.field, l.scoped, any)
	}
	c.tipsForSpec()
	c.tipEntry()
	c.tipCompile("getPtrTipRxs", true)
	c.tipCompile("getTypeTipRxs", true)
	c.tipCompile("getMemTipRxs", false)
	c.Floor("lookup", 5)
	c.Floor("first", 3)
	c.Floor("spec", 3)
	c.Floor("entry", 15)
	c.Floor("compile", 6)
}

func (c *Ctx) tipLookup(name, field string, scoped bool, any string) {
	fn := c.Anchor("translator", "Translator", name)
	if fn == nil {
		return
	}
	t := c.table("lookup", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	nameArg, scopeArg := "$1", ""
	if scoped {
		nameArg, scopeArg = "$2", "$1"
	}
	isName := isNamedArg(nameArg)
	isScope := func(v V) bool { return scopeArg != "" && isNamedArg(scopeArg)(v) }
	q := &quant{ip: t.IP, atom: func(t *Term) (V, V, bool) {
		if t.Op != "ext:(*regexp.Regexp).MatchString" || len(t.Args) != 2 || !isName(t.Args[1]) {
			return nil, nil, false
		}
		rx, ok := t.Args[0].(*Term)
		if !ok || rx.Op != ".Target" {
			return nil, nil, false
		}
		return elemOf(rx.Args[0])
	}, class: func(l V) string {
		t, ok := l.(*Term)
		if !ok {
			return ""
		}
		if !scoped {
			if t.Op == field {
				return "scope"
			}
			return ""
		}
		if t.Op != "get" || len(t.Args) != 2 {
			return ""
		}
		if m, ok := t.Args[0].(*Term); !ok || m.Op != field {
			return ""
		}
		if isScope(t.Args[1]) {
			return "scope"
		}
		if s, ok := isStrConst(t.Args[1]); ok && s == any {
			return "any"
		}
		return ""
	}}
	for _, r := range t.Path {
		f := r.F
		if len(r.Ret) != 2 {
			continue
		}
		got := r.St.snap(r.Ret[0])
		okv := r.St.snap(r.Ret[1])
		d := q.decide(f)
		isAny := unk
		if !scoped {
			isAny = yes
		} else if s, ok := f.eq[scopeArg]; ok {
			isAny = triOf(s == any)
		} else {
			for _, t := range f.boolTerms() {
				if t.Op == "eqs" && isScope(t.Args[0]) {
					if s, ok := isStrConst(t.Args[1]); ok && s == any {
						isAny = triOf(f.b[t.K()])
					}
				}
			}
		}
		con := fmt.Sprintf("%s {%s, scope is any=%s}", name, triMap(d), isAny)
		// remembered answers
		if call, isRes := resultOf(got, 0); isRes {
			a, ok := callArgs(call, "Get")
			hit := false
			for _, t := range f.boolTerms() {
				if c2, ok := resultOf(t, 1); ok && c2.K() == call.K() && f.b[t.K()] {
					hit = true
				}
			}
			okb, isC := isBoolConst(okv)
			good := ok && hit && isC && okb && len(a) >= 2 && isName(a[len(a)-1]) && (!scoped || len(a) == 3 && isScope(a[1]))
			c.Obl("cache", name+" remembered answer", fn.Pos(), good, "%s returns %s, which is not what was remembered for this scope and name", name, clip(got.K(), 120))
			continue
		}
		found, isC := isBoolConst(okv)
		if !isC {
			c.Fail("lookup", con, fn.Pos(), "%s: whether a tip was found is %s, not decided by the lists", name, clip(okv.K(), 120))
			continue
		}
		if !found {
			ok := d["scope"] == no && (isAny == yes || d["any"] == no)
			c.Obl("lookup", con+" none", fn.Pos(), ok, "%s reports no tip on a path where {%s}: some entry could match", name, triMap(d))
			continue
		}
		l, ix, isE := elemOf(got)
		cl := ""
		if isE {
			cl = q.class(l)
		}
		if cl == "" {
			c.Fail("lookup", con, fn.Pos(), "%s returns %s, which is not an entry of the scope's list or of the any list", name, clip(got.K(), 160))
			continue
		}
		ef := q.elemFacts(f, ix)[cl]
		c.Obl("lookup", con+" entry of "+cl, fn.Pos(), ef == yes && (cl == "scope" || d["scope"] == no), "%s returns an entry of the %s list on a path where {%s} and the entry matches=%s", name, cl, triMap(d), ef)
		first := unk
		if t2, ok := ix.(*Term); ok && strings.HasPrefix(t2.Op, "ix#") {
			if lm := t.IP.Loops[strings.TrimSuffix(strings.TrimPrefix(t2.Op, "ix#"), "#")]; lm != nil && lm.HasIx && lm.Start == 0 {
				first = no
				if q.exhausted(f, lm, ix, cl) == no {
					first = yes
				}
			}
		}
		c.Obl("first", con+" entry of "+cl, fn.Pos(), first == yes, "%s returns an entry of the %s list that need not be the first matching one", name, cl)
	}
	for _, r := range append(append([]*Row{}, t.Path...), t.Iter...) {
		for _, e := range r.Ev {
			if e.Kind != "call" || opSuffix(e.Name) != "Set" || len(e.Args) != 4 {
				continue
			}
			ok := isName(e.Args[2]) && (!scoped || isScope(e.Args[1]))
			if r.Loop == nil {
				got := r.St.snap(r.Ret[0])
				ok = ok && got.K() == e.Args[3].K()
			}
			c.Obl("cache", name+" remembers", e.Pos, ok, "%s remembers %s for (%s, %s), which is not the answer to this question", name, clip(e.Args[3].K(), 100), e.Args[1].K(), e.Args[2].K())
		}
	}
}

func (c *Ctx) tipsForSpec() {
	fn := c.Anchor("translator", "Translator", "TipRxsForSpec")
	if fn == nil {
		return
	}
	t := c.table("spec", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	isTag := func(v V) bool { return subj(v) == "base" || subj(v) == "tag" }
	for _, r := range t.Path {
		for i, want := range []string{"PtrTipRx", "TypeTipRx", "MemTipRx"} {
			got := r.St.snap(r.Ret[i])
			con := fmt.Sprintf("TipRxsForSpec %s {%s}", want, clip(r.F.key(), 200))
			call, ok := resultOf(got, 0)
			var a []V
			if ok {
				a, ok = callArgs(call, want)
			}
			if !ok || len(a) < 2 {
				c.Fail("spec", con, fn.Pos(), "TipRxsForSpec answers %s for %s", clip(got.K(), 120), want)
				continue
			}
			if want != "MemTipRx" && !isNamedArg("$1")(a[1]) {
				c.Fail("spec", con, fn.Pos(), "TipRxsForSpec asks %s about scope %s", want, clip(a[1].K(), 80))
				continue
			}
			key := a[len(a)-1]
			tagMatches := unk // the tag has an entry of this kind
			for _, t := range r.F.boolTerms() {
				if c2, ok := resultOf(t, 1); ok {
					if b, ok := callArgs(c2, want); ok && isTag(b[len(b)-1]) {
						tagMatches = triOf(r.F.b[t.K()])
					}
				}
			}
			if r.hold("empty:base=yes") == yes {
				tagMatches = no
			}
			switch {
			case isTag(key):
				c.Obl("spec", con, fn.Pos(), tagMatches == yes, "TipRxsForSpec uses the %s of the tag without knowing that there is one", want)
			case isNamedArg("$2")(key):
				c.Obl("spec", con, fn.Pos(), tagMatches == no, "TipRxsForSpec uses the %s of the name though an entry may match the tag", want)
			default:
				c.Fail("spec", con, fn.Pos(), "TipRxsForSpec asks %s about %s", want, clip(key.K(), 80))
			}
		}
	}
}

// tipVocabulary: the tips and what they are about.
var tipKinds = map[string]string{"arr": "ptr", "ref": "ptr", "sref": "ptr", "inst": "ptr", "plain": "type", "named": "type", "string": "type", "unsigned": "type", "raw": "mem"}

func (c *Ctx) tipEntry() {
	// TipAt and Self
	for _, e := range []struct{ name, field string }{{"TipAt", ".tips"}, {"Self", ".self"}} {
		fn := c.Anchor("translator", "TipSpecRx", e.name)
		if fn == nil {
			continue
		}
		t := c.table("entry", fn, func(ip *Interp) { setupEmission(c, ip) })
		if t == nil {
			continue
		}
		isOwn := func(v V) bool {
			tv, ok := v.(*Term)
			if !ok {
				return false
			}
			if e.name == "Self" {
				return tv.Op == ".self"
			}
			l, ix, ok := elemOf(v)
			if !ok || !isNamedArg("$1")(ix) {
				return false
			}
			lt, ok := l.(*Term)
			return ok && lt.Op == ".tips"
		}
		for _, r := range t.Path {
			got := r.St.snap(r.Ret[0])
			valid, in := unk, unk
			if e.name == "Self" {
				in = yes
			}
			for _, t := range r.F.boolTerms() {
				v := triOf(r.F.b[t.K()])
				if a, ok := callArgs(t, "IsValid"); ok && isOwn(a[0]) {
					valid = v
				}
				if t.Op == "lt" && isNamedArg("$1")(t.Args[0]) && strings.HasPrefix(t.Args[1].K(), "len(.tips(") {
					in = v
				}
			}
			con := fmt.Sprintf("%s {given=%s, valid=%s}", e.name, in, valid)
			gt, _ := got.(*Term)
			switch {
			case isOwn(got):
				c.Obl("entry", con, fn.Pos(), in == yes && valid == yes, "%s answers the entry's own tip without knowing that it is there and valid", e.name)
			case gt != nil && gt.Op == ".Default":
				c.Obl("entry", con, fn.Pos(), in == no || valid == no, "%s answers the default though the entry's own tip may be there and valid", e.name)
			default:
				c.Fail("entry", con, fn.Pos(), "%s answers %s", e.name, clip(got.K(), 80))
			}
		}
	}
	// the vocabulary
	for _, name := range []string{"IsValid", "Kind"} {
		fn := c.Anchor("translator", "Tip", name)
		if fn == nil {
			continue
		}
		t := c.table("entry", fn, func(ip *Interp) { setupEmission(c, ip) })
		if t == nil {
			continue
		}
		seen := map[string]bool{}
		for _, r := range t.Path {
			got := r.St.snap(r.Ret[0])
			var vals []string
			if s, ok := r.F.eq["$0"]; ok {
				vals = append(vals, s)
			} else {
				// all values not excluded
				ex := map[string]bool{}
				for _, t := range r.F.boolTerms() {
					if t.Op == "eqs" && !r.F.b[t.K()] {
						if s, ok := isStrConst(t.Args[1]); ok {
							ex[s] = true
						}
					}
				}
				for s := range tipKinds {
					if !ex[s] {
						vals = append(vals, s)
					}
				}
				vals = append(vals, "something else")
				if !ex[""] {
					vals = append(vals, "")
				}
			}
			sort.Strings(vals)
			for _, s := range vals {
				seen[s] = true
				k, known := tipKinds[s]
				con := fmt.Sprintf("%s of %q", name, s)
				if name == "IsValid" {
					b, ok := isBoolConst(got)
					c.Obl("entry", con, fn.Pos(), ok && b == known, "the tip %q is taken to be valid: %s", s, got.K())
				} else {
					if !known {
						k = "unknown"
					}
					g, ok := isStrConst(got)
					c.Obl("entry", con, fn.Pos(), ok && g == k, "the tip %q is taken to be of kind %s", s, got.K())
				}
			}
		}
		_ = seen
	}
	// HasTip
	fn := c.Anchor("translator", "TipSpecRx", "HasTip")
	if fn == nil {
		return
	}
	t := c.table("entry", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	q := &quant{ip: t.IP, atom: func(t *Term) (V, V, bool) {
		if t.Op != "eqs" || len(t.Args) != 2 {
			return nil, nil, false
		}
		for i := range t.Args {
			if isNamedArg("$1")(t.Args[i]) {
				return elemOf3(t.Args[1-i])
			}
		}
		return nil, nil, false
	}, class: func(l V) string {
		if t, ok := l.(*Term); ok && t.Op == ".tips" {
			return "tips"
		}
		return ""
	}}
	for _, r := range t.Path {
		got := r.St.snap(r.Ret[0])
		b, isC := isBoolConst(got)
		d := q.decide(r.F)
		con := fmt.Sprintf("HasTip {%s}", triMap(d))
		if isC && !b {
			// an invalid tip is never equal to the valid one asked for; the loop
			// must have gone over all of them
			over := false
			for _, t := range r.F.boolTerms() {
				if t.Op == "lt" && !r.F.b[t.K()] && strings.Contains(t.K(), "len(.tips(") {
					over = true
				}
			}
			c.Obl("entry", con, fn.Pos(), over, "HasTip answers no before having looked at every tip")
			continue
		}
		c.Obl("entry", con, fn.Pos(), isC && b && d["tips"] == yes, "HasTip answers %s on a path where {%s}", clip(got.K(), 60), triMap(d))
	}
}

func elemOf3(v V) (V, V, bool) { return elemOf(peel(v)) }

// tipCompile: the lists are built from the configuration's entries in order.
func (c *Ctx) tipCompile(name string, scoped bool) {
	fn := c.Anchor("translator", "", name)
	if fn == nil {
		return
	}
	t := c.table("compile", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	kept, left := 0, 0
	for _, r := range t.Iter {
		// iterations about an entry: those that establish whether it has a pattern
		var elem V
		for k, iv := range r.F.iv {
			tm, ok := r.F.at[k].(*Term)
			if !ok || tm.Op != "len" {
				continue
			}
			if ft, ok := tm.Args[0].(*Term); ok && ft.Op == ".Target" {
				if _, ix, isE := elemOf(ft.Args[0]); isE && r.ownIndex(ix) {
					elem = ft.Args[0]
					_ = iv
				}
			}
		}
		var apps []Event
		for _, e := range r.Ev {
			if e.Kind == "append" && strings.Contains(e.Name, "TipSpecRx") || e.Kind == "append" && strings.Contains(e.Name, "MemTipRxList") {
				apps = append(apps, e)
			}
		}
		if elem == nil {
			if len(apps) > 0 {
				c.Fail("compile", name, r.Pos, "%s keeps an entry without looking at its pattern", name)
			}
			continue
		}
		empty := r.hold("empty:" + subj(mkTerm(types.Typ[types.String], ".Target", elem)) + "=yes")
		con := fmt.Sprintf("%s {pattern empty=%s, kept %d}", name, empty, len(apps))
		if len(apps) == 0 {
			left++
			c.Obl("compile", con, r.Pos, empty == yes, "%s drops an entry that has a pattern", name)
			continue
		}
		kept++
		for _, a := range apps {
			ok := len(a.Args) == 1 && c.tipEntryOf(a.Args[0], elem)
			c.Obl("compile", con, a.Pos, ok, "%s keeps %s, which is not the entry as configured", name, clip(argKey(a.Args), 200))
		}
		if !scoped {
			c.Obl("compile", con+" once", r.Pos, len(apps) == 1, "%s keeps an entry %d times", name, len(apps))
			continue
		}
		// under which scopes
		var keys []string
		var scope V
		if l, _, ok := elemOf(elem); ok {
			if g, ok := l.(*Term); ok && g.Op == "get" && len(g.Args) == 2 {
				scope = g.Args[1]
			} else if g, ok := l.(*Term); ok && strings.HasPrefix(g.Op, "val#") {
				scope = nil
			}
		}
		for _, e := range r.Ev {
			if e.Kind != "mapset" && e.Kind != "mapstore" || len(e.Args) != 3 {
				continue
			}
			k := e.Args[1].K()
			if scope != nil && k == scope.K() {
				k = "own"
			}
			keys = append(keys, k)
			good := false
			if sq, ok := e.Args[2].(*SeqV); ok && sq.Base != nil {
				if g, ok := sq.Base.(*Term); ok && g.Op == "get" && len(g.Args) == 2 && g.Args[1].K() == e.Args[1].K() {
					good = true
				}
			}
			c.Obl("compile", con+" order under "+clip(k, 40), e.Pos, good, "%s does not add the entry at the end of the list it belongs to", name)
		}
		sort.Strings(keys)
		isStruct := unk
		if scope != nil {
			if s, ok := r.F.eq[scope.K()]; ok {
				isStruct = triOf(s == "struct")
			}
			for _, t := range r.F.boolTerms() {
				if t.Op == "eqs" && t.Args[0].K() == scope.K() {
					if s, ok := isStrConst(t.Args[1]); ok && s == "struct" {
						isStruct = triOf(r.F.b[t.K()])
					}
				}
			}
		}
		want := `"type",own`
		if isStruct == no {
			want = "own"
		}
		c.Obl("compile", con+" scopes, struct="+isStruct.String(), r.Pos, isStruct != unk && strings.Join(keys, ",") == want, "%s files an entry under %s (entry of the struct scope: %s)", name, strings.Join(keys, ","), isStruct)
	}
	c.Obl("compile", name+" keeps entries", fn.Pos(), kept > 0, "%s keeps no entry", name)
}

func argKey(vs []V) string {
	var s []string
	for _, v := range vs {
		s = append(s, v.K())
	}
	return strings.Join(s, ", ")
}

// ownIndex: ix is the index of the loop the row is an iteration of.
func (r *Row) ownIndex(ix V) bool {
	t, ok := ix.(*Term)
	return ok && t.Op == "ix#"+r.Loop.Key+"#"
}

// tipEntryOf: v is the compiled form of the configured entry elem.
func (c *Ctx) tipEntryOf(v, elem V) bool {
	s, ok := v.(*StructV)
	if !ok {
		return false
	}
	st, ok := s.T.Underlying().(*types.Struct)
	if !ok || st.NumFields() != len(s.F) {
		return false
	}
	e := elem.K()
	want := map[string]string{"Default": ".Default(" + e + ")", "tips": ".Tips(" + e + ")", "self": ".Self(" + e + ")", "Target": "#0(ext:regexp.Compile(.Target(" + e + ")))"}
	n := 0
	for i, f := range s.F {
		w, ok := want[st.Field(i).Name()]
		if !ok {
			continue
		}
		n++
		k := f.K()
		if k != w && k != strings.Replace(w, "#0(ext:regexp.Compile(", "ext:regexp.MustCompile(", 1) {
			return false
		}
	}
	return n == len(want)
}

var _ = ssa.NaiveForm
