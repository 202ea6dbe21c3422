package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = c05 }

var specialTargets = map[string]bool{"global": true, "post-global": true, "private": true, "public": true}

func c05(c *Ctx) {
	c.explain = "TransformName is interpreted on every path. The value it returns is reduced to the chain of rule lists that were applied to the name, following loop carried values back to what they were before each loop, and compared with the chain the property requires. One application of a rule is decided for an arbitrary rule and an arbitrary match: what is replaced, by what, and in which direction the matches are visited. The splice that replaces a match is decided by tiling its copies."
	c.Rule("chain: global rules, the target's own, post-global ones, those of the visibility asked for, in this order; only the target's own for the four special targets")
	c.Rule("match: every match found when the rule starts is replaced, each exactly once, by the expansion of that match against the name as it was found")
	c.Rule("transform: lower, title, export, unexport, upper do what they say to the expansion, anything else nothing")
	c.Rule("splice: replacing a match keeps what is before and after it")
	c.Rule("keyword: a result that is a Go keyword is rewritten into something that is not one; nothing else is rewritten")
	c.Rule("memory: an answer is remembered for exactly the target, visibility and name it was computed for")
	fn := c.Anchor("translator", "Translator", "TransformName")
	if fn == nil {
		return
	}
	t := c.table("chain", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t != nil {
		c.nameChains(t)
		c.nameMatches(t)
	}
	c.splice()
	c.keywords()
	c.Floor("chain", 8)
	c.Floor("match", 4)
	c.Floor("transform", 4)
	c.Floor("splice", 1)
	c.Floor("keyword", 20)
}

// targetOf: the target a value denotes on a path, "$1" when it is the one
// asked for and that is not one of the special ones.
func targetOf(f *Facts, v V) string {
	v = peel(v)
	if s, ok := isStrConst(v); ok {
		return s
	}
	if isNamedArg("$1")(v) {
		if s, ok := f.eq["$1"]; ok {
			return s
		}
		return "$1"
	}
	return "?" + clip(v.K(), 60)
}

// ruleLoop: the target whose replace rules a loop goes over, from its first to
// its last.
func ruleListTarget(l V) (V, bool) {
	t, ok := peel(l).(*Term)
	if !ok || t.Op != "get" || len(t.Args) != 2 {
		return nil, false
	}
	m, ok := t.Args[0].(*Term)
	if !ok || m.Op != "get" || len(m.Args) != 2 {
		return nil, false
	}
	if s, ok := isStrConst(m.Args[1]); !ok || s != "replace" {
		return nil, false
	}
	if r, ok := m.Args[0].(*Term); !ok || r.Op != ".compiledRxs" {
		return nil, false
	}
	return t.Args[1], true
}

// chainOf: the rule lists applied to $2 to obtain v.
func (c *Ctx) chainOf(t *Table, f *Facts, st *State, v V, depth int) ([]string, bool) {
	v = peel(v)
	if depth > 20 {
		return nil, false
	}
	if isNamedArg("$2")(v) {
		return nil, true
	}
	if a, ok := callArgs(v, "TransformName"); ok && len(a) >= 3 {
		tg := targetOf(f, a[1])
		if len(a) == 4 && !isNilConst(a[3]) {
			return nil, false
		}
		if !specialTargets[tg] {
			return nil, false
		}
		ch, ok := c.chainOf(t, f, st, a[2], depth+1)
		return append(ch, tg), ok
	}
	tv, ok := v.(*Term)
	if !ok || !strings.HasPrefix(tv.Op, "lv#") {
		return nil, false
	}
	for key, lm := range t.IP.Loops {
		if !strings.HasPrefix(tv.Op, "lv#"+key+"#") {
			continue
		}
		ini := st.inits[tv.K()]
		if ini == nil || len(lm.Back) == 0 || !lm.HasIx || lm.Start != 0 {
			continue
		}
		// the list: from the bound of the loop
		var tg V
		for _, b := range f.boolTerms() {
			if b.Op != "lt" || f.b[b.K()] || len(b.Args) != 2 {
				continue
			}
			if ix, ok := b.Args[0].(*Term); !ok || ix.Op != "ix#"+key+"#" {
				continue
			}
			if l, ok := b.Args[1].(*Term); ok && l.Op == "len" {
				tg, _ = ruleListTarget(l.Args[0])
			}
		}
		if tg == nil {
			return nil, false
		}
		ch, ok := c.chainOf(t, f, st, ini, depth+1)
		return append(ch, targetOf(f, tg)), ok
	}
	return nil, false
}

func (c *Ctx) nameChains(t *Table) {
	n := 0
	for _, r := range t.Path {
		f := r.F
		if len(r.Ret) != 1 {
			continue
		}
		got := peel(r.St.snap(r.Ret[0]))
		empty := f.interval(mkTerm(types.Typ[types.Int], "len", mkTerm(types.Typ[types.String], "$2"))).hi <= 0 || hasEq(f, "$2", "")
		if empty {
			s, isS := isStrConst(got)
			ok := isS && s == "" || emptyBytes(r.St, r.Ret[0])
			c.Obl("chain", "empty name", t.Fn.Pos(), ok, "an empty name becomes %s", clip(got.K(), 80))
			continue
		}
		// visibility asked for
		vis := "none"
		l3 := f.interval(mkTerm(types.Typ[types.Int], "len", mkTerm(nil, "$3")))
		if l3.hi > 0 {
			vis = "?"
			for _, b := range f.boolTerms() {
				if l, ix, ok := elemOf(b); ok && isNamedArg("$3")(l) {
					if k, ok := isIntConst(ix); ok && k == 0 {
						vis = "private"
						if f.b[b.K()] {
							vis = "public"
						}
					}
				}
			}
		}
		wantKey := vis
		if vis == "none" {
			wantKey = ""
		}
		// remembered
		if call, is := resultOf(got, 0); is {
			a, ok := callArgs(call, "Get")
			hit := false
			for _, b := range f.boolTerms() {
				if c2, is := resultOf(b, 1); is && c2.K() == call.K() && f.b[b.K()] {
					hit = true
				}
			}
			ok = ok && hit && len(a) == 4 && isNamedArg("$1")(a[1]) && isNamedArg("$2")(a[3])
			if ok {
				s, isS := isStrConst(a[2])
				ok = isS && s == wantKey
			}
			c.Obl("memory", "remembered name, visibility "+vis, t.Fn.Pos(), ok, "TransformName answers %s (visibility asked for: %s)", clip(got.K(), 160), vis)
			continue
		}
		n++
		target := targetOf(f, mkTerm(types.Typ[types.String], "$1"))
		special := specialTargets[target]
		known := special
		if !special {
			known = true
			for s := range specialTargets {
				if f.eqVals(mkTerm(types.Typ[types.String], "$1"), cStr(s)) != no {
					known = false
				}
			}
		}
		con := fmt.Sprintf("target %s, visibility %s", target, vis)
		if !known {
			c.Fail("chain", con, t.Fn.Pos(), "TransformName does not find out whether the target is one of the special ones")
			continue
		}
		// keyword
		kw := unk
		var subject V
		for _, b := range f.boolTerms() {
			if a, ok := callArgs(b, "isBuiltinName"); ok {
				kw, subject = triOf(f.b[b.K()]), a[0]
			}
		}
		body := got
		if a, ok := callArgs(got, "rewriteName"); ok {
			body = a[0]
			c.Obl("keyword", con+" rewritten", t.Fn.Pos(), !special && kw == yes && subject.K() == body.K(), "TransformName rewrites a name that is not known to be a keyword")
		} else if !special {
			c.Obl("keyword", con+" kept", t.Fn.Pos(), kw == no && subject != nil && peel(subject).K() == peel(body).K(), "TransformName answers a name that may be a keyword")
		}
		ch, ok := c.chainOf(t, f, r.St, body, 0)
		var want []string
		if special {
			want = []string{target}
		} else {
			want = []string{"global", "$1", "post-global"}
			if vis != "none" {
				want = append(want, vis)
			}
		}
		c.Obl("chain", con, t.Fn.Pos(), ok && strings.Join(ch, " ") == strings.Join(want, " "), "the rules applied are those of [%s], not of [%s]: TransformName answers %s", strings.Join(ch, " "), strings.Join(want, " "), clip(body.K(), 160))
		for _, e := range r.Ev {
			if e.Kind != "call" || opSuffix(e.Name) != "Set" || len(e.Args) != 5 {
				continue
			}
			s, isS := isStrConst(e.Args[2])
			ok := isNamedArg("$1")(e.Args[1]) && isS && s == wantKey && isNamedArg("$2")(e.Args[3]) && e.Args[4].K() == got.K()
			c.Obl("memory", con+" remembers", e.Pos, ok, "TransformName remembers %s under (%s, %s, %s)", clip(e.Args[4].K(), 100), clip(e.Args[1].K(), 30), clip(e.Args[2].K(), 30), clip(e.Args[3].K(), 30))
		}
	}
	c.Obl("chain", "names are computed", t.Fn.Pos(), n > 0, "TransformName computes no name")
}

func hasEq(f *Facts, k, s string) bool { v, ok := f.eq[k]; return ok && v == s }

// emptyBytes: v is a pointer to nothing or an empty sequence.
func emptyBytes(st *State, v V) bool {
	switch x := v.(type) {
	case *SliceV:
		q, ok := st.get(x.Obj).(*SeqV)
		return ok && q.Base == nil && q.N == nil && len(q.E) == 0
	case *Ptr:
		switch q := st.get(x.Obj).(type) {
		case *SeqV:
			return q.Base == nil && q.N == nil && len(q.E) == 0
		}
	case *Const:
		s, ok := isStrConst(x)
		return isNilConst(x) || ok && s == ""
	}
	if t, ok := st.snap(v).(*Term); ok && (t.Op == "ptr" || t.Op == "slice") {
		return t.K() == "ptr([])"
	}
	return false
}

// ---- one rule, one match --------------------------------------------------

// mapByHead looks up what a loop carries over for a head value.
func (r *Row) carryOf(k string) V { return r.Be.Carry[k] }

func (c *Ctx) nameMatches(t *Table) {
	outer, inner := 0, 0
	for _, r := range t.Iter {
		// the rule at hand: an element of a replace list
		rx, matches, name := c.matchCall(r)
		if rx == nil {
			continue
		}
		_, ix, _ := elemOf(rx)
		if r.ownIndex(ix) {
			// an iteration over the rules: the name becomes what replacing all
			// matches makes of it
			outer++
			c.ruleIteration(t, r, rx, matches, name)
			continue
		}
		inner++
		c.matchIteration(t, r, rx, matches, name)
	}
	c.Obl("match", "rules are applied", t.Fn.Pos(), outer > 0 && inner > 0, "no rule or no match is ever looked at")
}

// matchCall: the search for the matches of a rule, from what the iteration
// knows or carries.
func (c *Ctx) matchCall(r *Row) (rx V, matches *Term, name V) {
	var found, mine *Term
	visit := func(v V) {
		mapV(v, func(x V) V {
			t, ok := x.(*Term)
			if ok && strings.HasSuffix(t.Op, "Regexp).FindAllSubmatchIndex") && len(t.Args) == 3 {
				if f, ok := t.Args[0].(*Term); ok && f.Op == ".From" {
					if _, ix, isE := elemOf(f.Args[0]); isE {
						if r.ownIndex(ix) {
							mine = t
						}
						found = t
					}
				}
			}
			return nil
		})
	}
	for _, v := range r.Be.Carry {
		if v != nil {
			visit(r.St.snap(v))
		}
	}
	inCarry := found
	for _, v := range r.St.inits {
		visit(v)
	}
	for _, x := range r.F.at {
		visit(x)
	}
	found = inCarry
	if mine != nil {
		found = mine
	}
	if found == nil {
		return nil, nil, nil
	}
	f := found.Args[0].(*Term)
	return f.Args[0], found, found.Args[1]
}

// ruleIteration: what an iteration over the rules makes of the name.
func (c *Ctx) ruleIteration(t *Table, r *Row, rx V, matches *Term, name V) {
	con := "one rule"
	l, _, _ := elemOf(rx)
	_, isRules := ruleListTarget(l)
	all := false
	if k, ok := isIntConst(matches.Args[2]); ok && k < 0 {
		all = true
	}
	nt, isLv := peel(name).(*Term)
	isHead := isLv && r.Be.Carry[nt.K()] != nil && strings.HasPrefix(nt.Op, "lv#"+r.Loop.Key+"#")
	c.Obl("match", con+" search", r.Pos, isRules && all && isHead, "matches are looked for with %s", clip(matches.K(), 200))
	if !isHead {
		return
	}
	nv := peel(r.St.snap(r.Be.Carry[nt.K()]))
	ok := false
	if tv, is := nv.(*Term); is && strings.HasPrefix(tv.Op, "lv#") {
		// the name the loop over the matches ends with, starting from the name
		for key := range t.IP.Loops {
			if strings.HasPrefix(tv.Op, "lv#"+key+"#") && key != r.Loop.Key {
				if ini := r.St.inits[tv.K()]; ini != nil && peel(ini).K() == nt.K() {
					ok = true
				}
			}
		}
	}
	if !ok && nv.K() == nt.K() {
		// nothing to replace
		iv := r.F.interval(mkTerm(types.Typ[types.Int], "len", matches))
		ok = iv.hi <= 0
	}
	if !ok {
		ok = c.forwardBuilt(t, r, nv, nt)
	}
	c.Obl("match", con+" result", r.Pos, ok, "after a rule the name is %s", clip(nv.K(), 200))
}

// forwardBuilt: v is what a loop over the matches has collected so far followed
// by the rest of the name.
func (c *Ctx) forwardBuilt(t *Table, r *Row, v V, name *Term) bool {
	ps := parts(v)
	if len(ps) != 2 {
		return false
	}
	out, ok1 := ps[0].(*Term)
	rest, ok2 := ps[1].(*Term)
	if !ok1 || !ok2 || !strings.HasPrefix(out.Op, "lv#") && out.Op != "rep" || rest.Op != "slice" || len(rest.Args) != 3 || !isNilV(rest.Args[2]) {
		return false
	}
	last, ok := rest.Args[1].(*Term)
	if !ok || peel(rest.Args[0]).K() != name.K() {
		return false
	}
	for key, lm := range t.IP.Loops {
		if out.Op == "rep" {
			// text collected from nothing
			if n, ok := isStrConst(out.Args[0]); ok && strings.HasPrefix(n, "#"+key+"#") && strings.HasPrefix(last.Op, "lv#"+key+"#") {
				if k, isK := isIntConst(r.St.inits[last.K()]); isK && k == 0 && lm.HasIx && lm.Start == 0 {
					return true
				}
			}
			continue
		}
		if !strings.HasPrefix(out.Op, "lv#"+key+"#") || !strings.HasPrefix(last.Op, "lv#"+key+"#") {
			continue
		}
		i1, i2 := r.St.inits[out.K()], r.St.inits[last.K()]
		if i1 == nil || i2 == nil {
			continue
		}
		k, isK := isIntConst(i2)
		s, isS := isStrConst(i1)
		if isK && k == 0 && (isS && s == "" || isNilConst(i1) || i1.K() == "ptr([])") && lm.HasIx && lm.Start == 0 {
			return true
		}
	}
	return false
}

func isNilV(v V) bool { return v == nil || isNilConst(v) || v.K() == "nil" }

func (c *Ctx) matchIteration(t *Table, r *Row, rx V, matches *Term, name V) {
	con := "one match"
	// which match
	var idx, j V
	find := func(v V) {
		mapV(v, func(x V) V {
			if l, i, ok := elemOf(x); ok && l.K() == matches.K() {
				idx, j = x, i
			}
			return nil
		})
	}
	for _, v := range r.Be.Carry {
		if v != nil {
			find(r.St.snap(v))
		}
	}
	if idx == nil {
		c.Fail("match", con, r.Pos, "an iteration over the matches does not look at a match")
		return
	}
	at := func(n int64) string { return mkTerm(types.Typ[types.Int], "[]", idx, cInt(n)).K() }
	// what the name (or the text collected) becomes
	done := false
	for hk, v := range r.Be.Carry {
		if v == nil || !strings.HasPrefix(hk, "lv#"+r.Loop.Key+"#") && !strings.HasPrefix(hk, "rep#"+r.Loop.Key+"#") {
			continue
		}
		nv := r.St.snap(v)
		var piece V
		mode := ""
		if a, ok := callArgs(nv, "replaceBytes"); ok && len(a) == 3 {
			if peel(a[0]).K() == hk && a[1].K() == idx.K() {
				piece, mode = a[2], "in place"
			}
		} else if ps, ok := spliceParts(nv, r.Ev); ok && len(ps) >= 2 {
			// text before, piece, text after
			if len(ps) == 3 && sliceIs(ps[0], hk, "nil|0", at(0)) && sliceIs(ps[2], hk, at(1), "nil|len("+hk+")") {
				piece, mode = ps[1], "in place"
			} else if len(ps) == 3 && ps[0].K() == hk {
				// collected so far, text between the matches, piece
				if s, ok := ps[1].(*Term); ok && s.Op == "slice" && peel(s.Args[0]).K() == peel(name).K() && s.Args[2].K() == at(0) {
					last := s.Args[1].K()
					if lv, ok := r.Be.Carry[last]; ok && lv != nil && r.St.snap(lv).K() == at(1) {
						piece, mode = ps[2], "forward"
					}
				}
			}
		}
		if piece == nil {
			continue
		}
		done = true
		// direction
		ok := false
		src := []V{name}
		switch mode {
		case "in place":
			ok = c.downwards(t, r, j, matches)
			// text replaced so far lies behind the match at hand
			src = append(src, peel(headOf(hk, nv)))
		case "forward":
			ok = r.ownIndex(j) && r.Loop.HasIx && r.Loop.Start == 0
		}
		c.Obl("match", con+" order, "+mode, r.Pos, ok, "replacing matches %s needs them visited in the right direction, all of them: the match at hand is number %s", mode, clip(j.K(), 120))
		c.pieceOf(r, con, piece, rx, idx, src)
	}
	c.Obl("match", con+" replaced", r.Pos, done, "a match is not replaced by its expansion, or more than the match is")
}

// sliceIs: v is x[lo:hi].
func sliceIs(v V, x, lo, hi string) bool {
	t, ok := peel(v).(*Term)
	if !ok || t.Op != "slice" || len(t.Args) < 3 || peel(t.Args[0]).K() != x {
		return false
	}
	in := func(v V, alts string) bool {
		k := "nil"
		if v != nil {
			k = v.K()
		}
		for _, a := range strings.Split(alts, "|") {
			if a == k {
				return true
			}
		}
		return false
	}
	return in(t.Args[1], lo) && in(t.Args[2], hi)
}

// downwards: the matches are visited from the last to the first.
func (c *Ctx) downwards(t *Table, r *Row, j V, matches *Term) bool {
	n := linOf(mkTerm(types.Typ[types.Int], "len", matches))
	// counting down from the last
	if strings.HasPrefix(j.K(), "lv#"+r.Loop.Key+"#") {
		if ini := r.St.inits[j.K()]; ini != nil {
			nx := r.Be.Carry[j.K()]
			if nx == nil || linOf(ini).sub(n).String() != "-1" || linOf(nx).sub(linOf(j)).String() != "-1" {
				return false
			}
			// down to the first one: the loop is left only below zero
			for _, b := range r.F.boolTerms() {
				if b.Op == "lt" && len(b.Args) == 2 {
					a0, a1 := b.Args[0], b.Args[1]
					if k, ok := isIntConst(a1); ok && a0.K() == j.K() && k == 0 && !r.F.b[b.K()] {
						return true
					}
					if k, ok := isIntConst(a0); ok && a1.K() == j.K() && k == -1 && r.F.b[b.K()] {
						return true
					}
				}
			}
			iv := r.F.interval(j)
			return iv.lo == 0
		}
	}
	// number len-1-i for i counting up
	d := linOf(j).sub(n)
	for k, co := range d.co {
		if k == "ix#"+r.Loop.Key+"#" && co == -1 && len(d.co) == 1 && d.k == -1 {
			return r.Loop.HasIx && r.Loop.Start == 0
		}
		_ = k
	}
	// a loop over i from len down to 1 with number i-1
	for hk, ini := range r.St.inits {
		dj := linOf(j)
		if len(dj.co) == 1 && dj.co[hk] == 1 && dj.k == -1 && linOf(ini).sub(n).String() == "0" {
			nx := r.Be.Carry[hk]
			if nx == nil {
				continue
			}
			d := linOf(nx)
			if d.co[hk] == 1 && d.k == -1 {
				for _, v := range r.F.at {
					if v.K() == hk && r.F.interval(v).lo == 1 {
						return true
					}
				}
			}
		}
	}
	return false
}

// pieceOf: the replacement is the expansion of the match, transformed.
func (c *Ctx) pieceOf(r *Row, con string, piece, rx, idx V, src []V) {
	tr := mkTerm(types.Typ[types.String], ".Transform", rx)
	kind := "" // what the transform is on this path
	if s, ok := r.F.eq[tr.K()]; ok {
		kind = s
	} else {
		kind = "other"
		for _, s := range []string{"lower", "title", "export", "unexport", "upper"} {
			if r.F.eqVals(tr, cStr(s)) != no {
				kind = "?"
			}
		}
	}
	con += ", transform " + kind
	isExp := func(v V) bool {
		t, ok := peel(v).(*Term)
		if !ok || !strings.HasSuffix(t.Op, "Regexp).Expand") || len(t.Args) != 5 {
			return false
		}
		if t.Args[0].K() != ".From("+rx.K()+")" || peel(t.Args[2]).K() != ".To("+rx.K()+")" || t.Args[4].K() != idx.K() {
			return false
		}
		if k := t.Args[1].K(); k != "ptr([])" && k != "[]" && k != "nil" && k != `""` {
			return false
		}
		for _, n := range src {
			if n != nil && c.copyOf(r, t.Args[3], n) {
				return true
			}
		}
		return false
	}
	// stores into the expansion
	type st struct{ what, val string }
	var stores []string
	for _, e := range r.Ev {
		if e.Kind != "store" || len(e.Args) != 2 {
			continue
		}
		a, ok := e.Args[0].(*Term)
		if !ok || a.Op != "&[]" || !isExp(a.Args[0]) {
			continue
		}
		if k, ok := isIntConst(a.Args[1]); !ok || k != 0 {
			stores = append(stores, "elsewhere")
			continue
		}
		stores = append(stores, firstByte(e.Args[1], a.Args[0]))
	}
	emptyExp := no
	got := ""
	p := peel(piece)
	switch {
	case isExp(p):
		got = strings.Join(stores, "+")
		iv := r.F.interval(mkTerm(types.Typ[types.Int], "len", p))
		if iv.hi <= 0 {
			emptyExp = yes
		}
	default:
		if t, ok := p.(*Term); ok && len(t.Args) == 1 && isExp(t.Args[0]) && len(stores) == 0 {
			switch t.Op {
			case "s:ToLower", "s:ToUpper":
				got = "all " + t.Op[2:]
			}
		}
		if ps := parts(p); len(ps) == 2 && len(stores) == 0 && got == "" {
			if t, ok := peel(ps[1]).(*Term); ok && t.Op == "slice" && isExp(t.Args[0]) && t.Args[1].K() == "1" && isNilV(t.Args[2]) {
				if h, ok := peel(ps[0]).(*Term); ok && len(h.Args) == 1 && sliceIs(h.Args[0], peel(t.Args[0]).K(), "nil|0", "1") {
					switch h.Op {
					case "s:ToLower", "s:ToUpper":
						got = "first " + h.Op[2:]
					}
				}
			}
		}
		if got == "" {
			c.Fail("match", con+" expansion", r.Pos, "a match is replaced by %s", clip(p.K(), 220))
			return
		}
	}
	c.Obl("match", con+" expansion", r.Pos, true, "")
	want := map[string]string{"lower": "all ToLower", "upper": "all ToUpper", "title": "first ToUpper", "export": "first ToUpper", "unexport": "first ToLower", "other": ""}[kind]
	ok := kind != "?" && (got == want || emptyExp == yes && got == "")
	c.Obl("transform", con, r.Pos, ok, "with transform %s the expansion is changed by [%s]", kind, got)
}

// headOf is the term with the given key inside v.
func headOf(key string, v V) V {
	var out V
	mapV(v, func(x V) V {
		if x.K() == key {
			out = x
		}
		return nil
	})
	if out == nil {
		out = mkTerm(types.Typ[types.String], key)
	}
	return out
}

// firstByte describes what is stored into the first byte of buf.
func firstByte(v, buf V) string {
	l, ix, ok := elemOf(peel(v))
	if !ok {
		// unicode or arithmetic on the byte
		return "first " + clip(v.K(), 60)
	}
	if k, ok := isIntConst(ix); !ok || k != 0 {
		return "first ?"
	}
	t, ok := peel(l).(*Term)
	if !ok || len(t.Args) != 1 {
		return "first ?"
	}
	a := peel(t.Args[0])
	if a.K() != peel(buf).K() && !sliceIs(a, peel(buf).K(), "nil|0", "1") {
		return "first ?"
	}
	switch t.Op {
	case "s:ToUpper", "s:ToLower":
		return "first " + t.Op[2:]
	}
	return "first ?"
}

// copyOf: v is the name, or a copy of it made when the rule started.
func (c *Ctx) copyOf(r *Row, v, name V) bool {
	v = peel(v)
	if v.K() == peel(name).K() {
		return true
	}
	t, ok := v.(*Term)
	if ok && t.Op == "make" && t.Args[0].K() == "len("+peel(name).K()+")" {
		for _, e := range r.St.tr {
			if e.Kind == "copy" && len(e.Args) == 2 && e.Args[0].K() == v.K() && peel(e.Args[1]).K() == peel(name).K() {
				return true
			}
		}
		return false
	}
	return ok && (t.Op == "s:Clone" || t.Op == "ext:bytes.Clone") && peel(t.Args[0]).K() == peel(name).K()
}

// ---- splicing --------------------------------------------------------------

// Lin is a linear expression over terms.
type Lin struct {
	co map[string]int64
	k  int64
}

func (a Lin) sub(b Lin) Lin {
	n := Lin{map[string]int64{}, a.k - b.k}
	for k, v := range a.co {
		n.co[k] += v
	}
	for k, v := range b.co {
		n.co[k] -= v
	}
	for k, v := range n.co {
		if v == 0 {
			delete(n.co, k)
		}
	}
	return n
}
func (a Lin) add(b Lin) Lin { z := Lin{map[string]int64{}, 0}; return a.sub(z.sub(b)) }
func (a Lin) String() string {
	var s []string
	for k, v := range a.co {
		s = append(s, fmt.Sprintf("%d*%s", v, k))
	}
	sort.Strings(s)
	if a.k != 0 || len(s) == 0 {
		s = append(s, fmt.Sprint(a.k))
	}
	return strings.Join(s, "+")
}

func linOf(v V) Lin {
	if v == nil {
		return Lin{map[string]int64{}, 0}
	}
	if k, ok := isIntConst(v); ok {
		return Lin{map[string]int64{}, k}
	}
	if t, ok := v.(*Term); ok {
		switch {
		case t.Op == "+" && len(t.Args) == 2, t.Op == "+c" && len(t.Args) == 2:
			return linOf(t.Args[0]).add(linOf(t.Args[1]))
		case t.Op == "-" && len(t.Args) == 2:
			return linOf(t.Args[0]).sub(linOf(t.Args[1]))
		case t.Op == "copy" && len(t.Args) == 2:
			return lenLin(t.Args[1])
		case t.Op == "len" && len(t.Args) == 1:
			return lenLin(t.Args[0])
		}
	}
	return Lin{map[string]int64{v.K(): 1}, 0}
}

// lenLin: the length of a text.
func lenLin(v V) Lin {
	v = peel(v)
	if s, ok := isStrConst(v); ok {
		return Lin{map[string]int64{}, int64(len(s))}
	}
	if t, ok := v.(*Term); ok {
		switch {
		case t.Op == "slice" && len(t.Args) >= 3:
			hi := Lin{}
			if isNilV(t.Args[2]) {
				hi = lenLin(t.Args[0])
			} else {
				hi = linOf(t.Args[2])
			}
			lo := Lin{map[string]int64{}, 0}
			if !isNilV(t.Args[1]) {
				lo = linOf(t.Args[1])
			}
			return hi.sub(lo)
		case t.Op == "make" && len(t.Args) == 1:
			return linOf(t.Args[0])
		}
	}
	return Lin{map[string]int64{"len(" + v.K() + ")": 1}, 0}
}

// spliceParts: the texts a value consists of, in order. A buffer made with a
// given length consists of what is copied into it when the copies tile it.
func spliceParts(v V, ev []Event) ([]V, bool) {
	v = peel(v)
	t, ok := v.(*Term)
	if !ok || t.Op != "make" {
		ps := parts(v)
		return ps, len(ps) > 0
	}
	type cp struct {
		lo  Lin
		src V
	}
	var cps []cp
	for _, e := range ev {
		if e.Kind != "copy" || len(e.Args) != 2 {
			continue
		}
		d := peel(e.Args[0])
		lo := Lin{map[string]int64{}, 0}
		if s, ok := d.(*Term); ok && s.Op == "slice" {
			if !isNilV(s.Args[1]) {
				lo = linOf(s.Args[1])
			}
			if !isNilV(s.Args[2]) {
				// bounded from above: the source must fit
				room := linOf(s.Args[2]).sub(lo)
				if room.String() != lenLin(e.Args[1]).String() {
					return nil, false
				}
			}
			d = peel(s.Args[0])
		}
		if d.K() != t.K() {
			continue
		}
		cps = append(cps, cp{lo, peel(e.Args[1])})
	}
	at := Lin{map[string]int64{}, 0}
	var out []V
	used := map[int]bool{}
	for len(out) < len(cps) {
		found := false
		for i, x := range cps {
			if !used[i] && x.lo.sub(at).String() == "0" {
				used[i], found = true, true
				at = at.add(lenLin(x.src))
				out = append(out, x.src)
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	if at.sub(linOf(t.Args[0])).String() != "0" {
		return nil, false
	}
	return out, true
}

func (c *Ctx) splice() {
	fn := c.fn("translator", "", "replaceBytes")
	if fn == nil {
		// the splice is then part of TransformName and decided there
		return
	}
	t := c.table("splice", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	for _, r := range t.Path {
		if len(r.Ret) != 1 {
			continue
		}
		got := r.St.snap(r.Ret[0])
		a := mkTerm(types.Typ[types.Int], "[]", mkTerm(nil, "$1"), cInt(0)).K()
		b := mkTerm(types.Typ[types.Int], "[]", mkTerm(nil, "$1"), cInt(1)).K()
		ps, ok := spliceParts(got, r.Ev)
		// texts that are empty on this path may be missing
		ok = ok && len(ps) == 3 && sliceIs(ps[0], "$0", "nil|0", a) && isNamedArg("$2")(peel(ps[1])) && sliceIs(ps[2], "$0", b, "nil|len($0)")
		var s []string
		for _, p := range ps {
			s = append(s, clip(p.K(), 60))
		}
		c.Obl("splice", "replaceBytes", fn.Pos(), ok, "replaceBytes answers %s made of [%s], not the text with the match replaced", clip(got.K(), 100), strings.Join(s, " "))
	}
	c.Obl("splice", "replaceBytes leaves its argument alone", fn.Pos(), !c.overwrites(fn), "replaceBytes can overwrite the text it is given")
}

// overwrites: the function appends to a truncated slice it did not make, or
// stores into a parameter.
func (c *Ctx) overwrites(fn *ssa.Function) bool {
	var own func(v ssa.Value, d int) bool
	own = func(v ssa.Value, d int) bool {
		if d > 10 {
			return false
		}
		switch x := v.(type) {
		case *ssa.MakeSlice, *ssa.Alloc:
			return true
		case *ssa.Const:
			return true
		case *ssa.Slice:
			return x.Max != nil || own(x.X, d+1)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return own(x.Call.Args[0], d+1)
			}
			return false
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && !own(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Convert:
			return true
		}
		return false
	}
	bad := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				bi, ok := x.Call.Value.(*ssa.Builtin)
				if ok && (bi.Name() == "append" || bi.Name() == "copy") && len(x.Call.Args) > 0 {
					if !own(x.Call.Args[0], 0) {
						bad = true
					}
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !own(ia.X, 0) {
					if _, isArr := ia.X.Type().Underlying().(*types.Slice); isArr {
						bad = true
					}
				}
			}
		}
	}
	return bad
}

// ---- keywords ---------------------------------------------------------------

func goKeywords() map[string]bool {
	m := map[string]bool{}
	for t := token.BREAK; t <= token.VAR; t++ {
		if t.IsKeyword() {
			m[t.String()] = true
		}
	}
	return m
}

func (c *Ctx) keywords() {
	kws := goKeywords()
	vals := func(r *Row) (string, bool) {
		s, ok := r.F.eq["$0"]
		return s, ok
	}
	excl := func(r *Row) map[string]bool {
		ex := map[string]bool{}
		for _, t := range r.F.boolTerms() {
			if t.Op == "eqs" && !r.F.b[t.K()] && len(t.Args) == 2 {
				for i := range t.Args {
					if s, ok := isStrConst(t.Args[i]); ok && isNamedArg("$0")(peel(t.Args[1-i])) {
						ex[s] = true
					}
				}
			}
		}
		return ex
	}
	if fn := c.Anchor("translator", "", "isBuiltinName"); fn != nil {
		if t := c.table("keyword", fn, func(ip *Interp) { setupEmission(c, ip) }); t != nil {
			for _, r := range t.Path {
				got, isC := isBoolConst(r.St.snap(r.Ret[0]))
				if s, ok := vals(r); ok {
					c.Obl("keyword", "is a keyword: "+s, fn.Pos(), isC && got == kws[s], "%q is taken for a keyword: %v", s, got)
					continue
				}
				ex := excl(r)
				miss := ""
				for k := range kws {
					if !ex[k] && (miss == "" || k < miss) {
						miss = k
					}
				}
				c.Obl("keyword", "is not a keyword", fn.Pos(), isC && !got && miss == "", "the keyword %q is not recognised", miss)
			}
		}
	}
	if fn := c.Anchor("translator", "", "rewriteName"); fn != nil {
		if t := c.table("keyword", fn, func(ip *Interp) { setupEmission(c, ip) }); t != nil {
			for _, r := range t.Path {
				got := peel(r.St.snap(r.Ret[0]))
				con := "rewrites"
				ok := false
				if s, isS := isStrConst(got); isS {
					w, isW := vals(r)
					con += " " + w
					ok = isW && w == "type" && s == "kind"
				} else if ps := parts(got); len(ps) == 2 {
					s, isS := isStrConst(ps[0])
					w, isW := vals(r)
					ok = isS && s == "_" && isNamedArg("$0")(peel(ps[1])) && !(isW && w == "type") && (isW || excl(r)["type"])
				}
				c.Obl("keyword", con, fn.Pos(), ok, "a keyword is rewritten as %s", clip(got.K(), 100))
			}
		}
	}
	if fn := c.Anchor("translator", "", "blessName"); fn != nil {
		if t := c.table("keyword", fn, func(ip *Interp) { setupEmission(c, ip) }); t != nil {
			for _, r := range t.Path {
				got := peel(r.St.snap(r.Ret[0]))
				con := "C name"
				isKw := unk
				for _, b := range r.F.boolTerms() {
					if a, ok := callArgs(b, "isBuiltinName"); ok && isNamedArg("$0")(peel(a[0])) {
						isKw = triOf(r.F.b[b.K()])
					}
				}
				if s, ok := vals(r); ok {
					isKw = triOf(kws[s])
					con += " " + s
				} else if isKw == unk {
					ex := excl(r)
					isKw = no
					for k := range kws {
						if !ex[k] {
							isKw = unk
						}
					}
				}
				ok := false
				if ps := parts(got); len(ps) == 2 {
					s, isS := isStrConst(ps[0])
					ok = isKw == yes && isS && s == "_" && isNamedArg("$0")(peel(ps[1]))
				} else {
					ok = isKw == no && isNamedArg("$0")(got)
				}
				c.Obl("keyword", con, fn.Pos(), ok, "a C name (keyword: %s) is written %s", isKw, clip(got.K(), 80))
			}
		}
	}
}
