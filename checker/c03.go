package main

import (
	"go/token"
	"strings"
)

func init() { checks["C03"] = c03 }

// rxAtom recognises "the pattern of an element of a rule list matches subject".
func rxAtom(subj func(V) bool) func(t *Term) (V, V, bool) {
	return func(t *Term) (V, V, bool) {
		switch t.Op {
		case "ext:(*regexp.Regexp).MatchString", "ext:(*regexp.Regexp).Match":
		default:
			return nil, nil, false
		}
		if len(t.Args) != 2 || !subj(t.Args[1]) {
			return nil, nil, false
		}
		rx, ok := t.Args[0].(*Term)
		if !ok || !strings.HasPrefix(rx.Op, ".") {
			return nil, nil, false
		}
		return elemOf(rx.Args[0])
	}
}

func isNamedArg(name string) func(V) bool {
	return func(v V) bool {
		for {
			t, ok := v.(*Term)
			if !ok {
				return false
			}
			if t.Op == name && len(t.Args) == 0 {
				return true
			}
			if t.Op == "conv" && len(t.Args) == 1 {
				v = t.Args[0]
				continue
			}
			return false
		}
	}
}

// ruleList recognises compiled rules of an action and a target: get(get(rules, action), target).
func ruleList(v V) (action string, target V, ok bool) {
	t, isT := v.(*Term)
	if !isT || t.Op != "get" || len(t.Args) != 2 {
		return
	}
	in, isT := t.Args[0].(*Term)
	if !isT || in.Op != "get" || len(in.Args) != 2 {
		return
	}
	fld, isT := in.Args[0].(*Term)
	if !isT || fld.Op != ".compiledRxs" {
		return
	}
	a, isC := isStrConst(in.Args[1])
	if !isC {
		return
	}
	return a, t.Args[1], true
}

func c03(c *Ctx) {
	c.explain = "IsAcceptableName is interpreted over an abstract domain in which the rule lists have any length: every loop over a list is summarised by what its iterations establish about the element, so that a path yields \"some rule of the list matches the name\" or \"none does\". Each path's answer is compared with the precedence the property states, evaluated over those facts."
	c.Rule("table: on every path the answer equals the stated precedence of the target's accept and ignore rules, then the global ones, then rejection")
	fn := c.Anchor("translator", "Translator", "IsAcceptableName")
	if fn == nil {
		return
	}
	global := c.strConst("translator", "TargetGlobal", "global")
	accept := c.strConst("translator", "ActionAccept", "accept")
	ignore := c.strConst("translator", "ActionIgnore", "ignore")
	ip := newInterp(c.Program)
	ip.NoMerge = true
	if err := ip.runInits(); err != nil {
		c.Fail("table", "init", token.NoPos, "%v", err)
		return
	}
	ip.Inline = func(f *ssaFunction) bool { return c.pkgOf(f) == "translator" }
	var args []V
	names := []string{"$0", "$1", "$2"}
	for i, p := range fn.Params {
		args = append(args, mkTerm(p.Type(), names[i]))
	}
	outs, err := ip.Run(fn, args, nil)
	if err != nil {
		c.Fail("table", "IsAcceptableName", fn.Pos(), "%v", err)
		return
	}
	isTarget := isNamedArg("$1")
	q := &quant{ip: ip, atom: rxAtom(isNamedArg("$2")), class: func(l V) string {
		a, t, ok := ruleList(l)
		if !ok {
			return ""
		}
		if isTarget(t) {
			return a + "/target"
		}
		if s, ok := isStrConst(t); ok && s == global {
			return a + "/global"
		}
		return ""
	}}
	isGlobalTerm := func(f *Facts) tri {
		if s, ok := f.eq["$1"]; ok {
			return triOf(s == global)
		}
		for _, t := range f.boolTerms() {
			if t.Op == "eqs" && isTarget(t.Args[0]) {
				if s, ok := isStrConst(t.Args[1]); ok && s == global {
					return triOf(f.b[t.K()])
				}
			}
		}
		return unk
	}
	// level: yes accept, no reject, unk undecided; rest: falls through
	level := func(acc, ign tri) (res tri, falls tri) {
		switch {
		case ign == yes:
			return no, no
		case acc == yes && ign == no:
			return yes, no
		case acc == no && ign == no:
			return unk, yes
		}
		return unk, unk
	}
	for _, o := range outs {
		if o.Panic {
			c.Fail("table", "panic", fn.Pos(), "IsAcceptableName can panic")
			continue
		}
		f := o.St.facts
		d := q.decide(f)
		g := isGlobalTerm(f)
		at := triMap(d) + ", target is global=" + g.String()
		con := "path " + at
		got := o.St.snap(o.Ret[0])
		for _, gg := range []tri{yes, no} {
			if g != unk && g != gg {
				continue
			}
			d := copyTri(d)
			if gg == yes { // one and the same lists
				feasible := true
				for _, a := range []string{accept, ignore} {
					x, y := d[a+"/target"], d[a+"/global"]
					if x != unk && y != unk && x != y {
						feasible = false
					}
					if y == unk {
						d[a+"/global"] = x
					}
					if x == unk {
						d[a+"/target"] = y
					}
				}
				if !feasible {
					continue
				}
			}
			want := unk
			deleg := false
			r, falls := level(d[accept+"/target"], d[ignore+"/target"])
			switch {
			case r != unk:
				want = r
			case falls == yes && gg == yes:
				want = no
			case falls == yes:
				r2, f2 := level(d[accept+"/global"], d[ignore+"/global"])
				if r2 != unk {
					want = r2
				} else if f2 == yes {
					want = no
				} else {
					deleg = true
				}
			}
			if b, ok := isBoolConst(got); ok {
				if want == unk {
					c.Fail("table", con, fn.Pos(), "IsAcceptableName answers %v on a path that only establishes {%s}: the stated precedence is not determined by that", b, at)
					continue
				}
				c.Obl("table", con, fn.Pos(), (want == yes) == b, "IsAcceptableName answers %v on a path where {%s}; the rules say %v", b, at, want == yes)
				continue
			}
			if t, ok := got.(*Term); ok && strings.HasPrefix(t.Op, "call:") && strings.HasSuffix(t.Op, fn.Name()) && len(t.Args) == 3 {
				s, isC := isStrConst(t.Args[1])
				ok := deleg && isC && s == global && isNamedArg("$2")(t.Args[2])
				c.Obl("table", con+" delegates", fn.Pos(), ok, "IsAcceptableName delegates to %s on a path where {%s}; only undecided names of a specific target go to the global rules", clip(t.K(), 200), at)
				continue
			}
			c.Fail("table", con, fn.Pos(), "IsAcceptableName returns %s on a path where {%s}, which is not decided by the rules", clip(got.K(), 200), at)
		}
	}
	c.Stat("paths", len(outs))
	c.Floor("table", 5)
	c.Assume("regexp matching is a pure function of pattern and name")
}

func copyTri(m map[string]tri) map[string]tri {
	n := map[string]tri{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
