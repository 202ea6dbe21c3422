package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = c24 }

func c24(c *Ctx) {
	c.explain = "The loops that read numeric literals and that translate the tokens of macros and enumerators are summarised by abstract interpretation into one row per way an iteration can go. The rows are compared, as a transducer, with the forms C's literals have and with the translation a token may get; the rows of the loop over the macros with what may become of a macro."
	c.Rule("literal: for every character C's numeric literals contain, in and outside hexadecimal digits, exactly that character is kept, but for suffixes, which are left out and remembered")
	c.Rule("suffix: the suffixes of integer literals become the conversion to the type they stand for; a literal with a fraction or exponent is not converted")
	c.Rule("token: every token of an expression gives exactly one part of the translated expression: the token as it is, Go's spelling of it, or the Go name of the constant or type it names")
	c.Rule("resolved: an identifier stays only if it names a constant that is generated or a known type; else the macro gets its evaluated value")
	c.Rule("balance: a parenthesis is added only around the operand of a type cast: one is opened after the type, when none is open, and one is closed where the operand ends")
	c.Rule("define: every object-like macro with an accepted name, but for boolean ones, is recorded once under its name with its own value or expression; an expression is recorded only if asked for or if there is no value")
	if fn := c.Anchor("translator", "", "readNumeric"); fn != nil {
		c.c24literal(fn)
	}
	if fn := c.Anchor("translator", "Translator", "enumSpec"); fn != nil {
		c.c24tokens(fn, "enumSpec", false)
	}
	if fn := c.Anchor("translator", "Translator", "collectDefines"); fn != nil {
		c.c24tokens(fn, "collectDefines", true)
	}
	c.Floor("literal", 40)
	c.Floor("token", 10)
	c.Floor("balance", 4)
	c.Floor("define", 5)
}

// change24: what one iteration does to everything it carries.
type change24 struct{ head, v V }

func changes24(r *Row) []change24 {
	m := map[string]change24{}
	for k, v := range r.Be.Carry {
		m[k] = change24{mkKey(k), r.St.snap(v)}
	}
	for id, h := range r.Be.Head.heap {
		if v := r.Be.St.heap[id]; v != nil && h != nil && strings.Contains(h.K(), "#"+r.Loop.Key+"#") {
			m[h.K()] = change24{h, r.St.snap(v)}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []change24
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func mkKey(k string) V { return &Term{Op: k, k: k} }

// added: what the iteration adds to a list it carries.
func (x change24) added() ([]V, bool) {
	s, ok := x.v.(*SeqV)
	if !ok || s.Base == nil {
		return nil, false
	}
	if s.Base.K() == x.head.K() || strings.HasPrefix(s.Base.K(), "seq#") {
		return s.E, true
	}
	return nil, false
}

// mayBe: whether the path allows an integer value to be n.
func mayBe(f *Facts, v V, n int64) bool {
	iv := f.interval(v)
	if n < iv.lo || n > iv.hi || iv.neq[n] {
		return false
	}
	for k, b := range f.b {
		t, ok := f.at[k].(*Term)
		if !ok || len(t.Args) != 2 || !strings.HasSuffix(t.Op, "ContainsRune") && !strings.HasSuffix(t.Op, "ContainsAny") {
			continue
		}
		if s, ok := isStrConst(t.Args[0]); ok && peel(t.Args[1]).K() == v.K() && strings.ContainsRune(s, rune(n)) != b {
			return false
		}
	}
	return true
}

// setTo: the constant a flag is set to.
func (x change24) setTo() (val, set bool) {
	if x.v.K() == x.head.K() {
		return false, false
	}
	return isBoolConst(x.v)
}

func (c *Ctx) c24literal(fn *ssa.Function) {
	tb := c.table("literal", fn, func(ip *Interp) {
		setupEmission(c, ip)
	})
	if tb == nil {
		return
	}
	// the character at hand is what is kept
	var ch V
	kept := map[*Row][]V{}
	for _, r := range tb.Iter {
		for _, x := range changes24(r) {
			if e, ok := x.added(); ok && len(e) > 0 {
				kept[r] = append(kept[r], e...)
				if t := peel(e[0]); ch == nil && strings.Contains(t.K(), "ix#"+r.Loop.Key+"#") {
					ch = t
				}
			}
		}
	}
	if !c.Obl("literal", "characters", fn.Pos(), ch != nil, "readNumeric keeps no character of the literal") {
		return
	}
	flags := func(n rune) map[string]bool {
		m := map[string]bool{}
		for _, r := range tb.Iter {
			if mayBe(r.F, ch, int64(n)) {
				for _, x := range changes24(r) {
					if v, set := x.setTo(); set && v {
						m[x.head.K()] = true
					}
				}
			}
		}
		return m
	}
	hex, uns, long, frac := flags('x'), flags('u'), flags('l'), flags('.')
	one := func(what string, m map[string]bool) string {
		c.Obl("suffix", what, fn.Pos(), len(m) == 1, "readNumeric does not remember in one place that it has seen %s", what)
		for k := range m {
			return k
		}
		return ""
	}
	hk := one("the x of a hexadecimal literal", hex)
	uk, lk, fk := one("an unsigned suffix", uns), one("a long suffix", long), one("a fraction", frac)
	if hk == "" || uk == "" || lk == "" || fk == "" {
		return
	}
	type want struct {
		chars   string
		hex     int // 0, 1, or 2 for both
		keep    bool
		set     string // flags set: h u l f
		unsetsH bool
	}
	wants := []want{
		{"0123456789", 2, true, "", false},
		{"xX", 0, true, "h", false},
		{"bB", 2, true, "", false},
		{"eE", 0, true, "f", false},
		{"eE", 1, true, "", false},
		{"aAcCdDfF", 1, true, "", false},
		{"fF", 0, false, "", false},
		{".", 2, true, "f", false},
		{"+-", 2, true, "", false},
		{"pP", 1, true, "f", true},
		{"uU", 2, false, "u", false},
		{"lL", 2, false, "l", false},
	}
	key := map[string]string{hk: "h", uk: "u", lk: "l", fk: "f"}
	for _, w := range wants {
		for _, n := range w.chars {
			for h := 0; h < 2; h++ {
				if w.hex != 2 && w.hex != h {
					continue
				}
				con := fmt.Sprintf("%q", string(n)) + map[int]string{0: "", 1: " in a hexadecimal literal"}[h]
				rows := 0
				hasH := func(f *Facts) bool {
					b, ok := f.b[hk]
					return !ok || b == (h == 1)
				}
				for _, r := range tb.Iter {
					if !mayBe(r.F, ch, int64(n)) || !hasH(r.F) {
						continue
					}
					rows++
					e := kept[r]
					okKeep := len(e) == 0
					if w.keep {
						okKeep = len(e) == 1 && peel(e[0]).K() == ch.K()
						if len(e) == 1 && !okKeep {
							if k, isC := isIntConst(e[0]); isC && k == int64(n) {
								okKeep = true
							}
						}
					}
					c.Obl("literal", con, r.Pos, okKeep, "readNumeric: the character %s of a literal: kept %v, wanted %v", con, len(e), w.keep)
					got := ""
					unset := false
					for _, x := range changes24(r) {
						v, set := x.setTo()
						k, known := key[x.head.K()]
						if !known || x.v.K() == x.head.K() {
							continue
						}
						b, had := r.F.b[x.head.K()]
						switch {
						case !set:
							got += "?"
						case v && !(had && b):
							got += k
						case !v && !(had && !b):
							if k == "h" {
								unset = unset || h == 1
							} else {
								got += "-" + k
							}
						}
					}
					if w.set != "" && w.set != got {
						if b, had := r.F.b[map[string]string{"h": hk, "u": uk, "l": lk, "f": fk}[w.set]]; had && b {
							got = w.set
						}
					}
					if w.set == "f" && got == "" {
						got = "nothing"
					}
					c.Obl("literal", con+" meaning", r.Pos, got == w.set && unset == w.unsetsH, "readNumeric: after the character %s the literal is taken for [%s] (hexadecimal digits end: %v), wanted [%s] (%v)", con, got, unset, w.set, w.unsetsH)
				}
				for _, r := range tb.Path {
					if _, about := r.F.iv[ch.K()]; about && mayBe(r.F, ch, int64(n)) && hasH(r.F) {
						rows = 0
						break
					}
				}
				c.Obl("literal", con+" read", fn.Pos(), rows > 0, "readNumeric ends the literal at the character %s", con)
			}
		}
	}
	// what becomes of it
	for _, r := range tb.Path {
		if len(r.Ret) == 0 {
			continue
		}
		ps := pieces(r.St.snap(r.Ret[0]), nil)
		text := ""
		for _, p := range ps {
			if s, ok := isStrConst(p); ok {
				text += s
			} else if strings.Contains(p.K(), "#"+tb.Iter[0].Loop.Key+"#") {
				text += "N"
			} else {
				text += "?"
			}
		}
		for m := 0; m < 8; m++ {
			u, l, f := m&1 != 0, m&2 != 0, m&4 != 0
			fits := true
			for k, v := range map[string]bool{uk: u, lk: l, fk: f} {
				if b, ok := r.F.b[k]; ok && b != v {
					fits = false
				}
			}
			if !fits {
				continue
			}
			w := "N"
			switch {
			case f:
			case u && l:
				w = "uint64(N)"
			case u:
				w = "uint32(N)"
			case l:
				w = "int64(N)"
			}
			c.Obl("suffix", fmt.Sprintf("unsigned %v long %v fraction %v", u, l, f), r.Pos, text == w, "readNumeric turns a literal N (unsigned %v, long %v, fraction %v) into %s, wanted %s", u, l, f, text, w)
		}
	}
}

// ccConst: an integer constant of the C front end.
func (c *Ctx) ccConst(name string, dflt int64) int64 {
	for _, imp := range c.SSA["translator"].Pkg.Imports() {
		if !strings.Contains(imp.Path(), "modernc.org/cc/") {
			continue
		}
		if k, ok := imp.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
				return v
			}
		}
	}
	return dflt
}

type tokRow struct {
	r           *Row
	open, close bool // a parenthesis is added
	core        V
	kind        string
}

func (c *Ctx) c24tokens(fn *ssa.Function, name string, macros bool) {
	tb := c.table("token", fn, func(ip *Interp) {
		setupEmission(c, ip)
	})
	if tb == nil {
		return
	}
	ident := c.ccConst("IDENTIFIER", 57392)
	n := 0
	var rows []*Row
	for _, r := range tb.Iter {
		if k := r.Loop.Key; strings.HasPrefix(k, "len(ext:modernc.org/cc/v4.NodeTokens(") || strings.HasPrefix(k, "len(ext:(*modernc.org/cc/v4.Macro).ReplacementList(") {
			rows = append(rows, r)
		}
	}
	// the lists that are more than the tokens as they are
	expr := map[string]bool{}
	isSrc := func(r *Row, v V) bool {
		t, ok := peel(v).(*Term)
		return ok && opSuffix(t.Op) == "SrcStr" && strings.Contains(t.K(), tokOf(r))
	}
	for _, r := range rows {
		for _, x := range changes24(r) {
			if e, ok := x.added(); ok {
				for _, a := range e {
					if !isSrc(r, a) {
						expr[listKey(x)] = true
					}
				}
			}
		}
	}
	if !c.Obl("token", name+" tokens", fn.Pos(), len(rows) > 0 && len(expr) == 1, "%s: %d loops' rows over tokens, %d lists of translated tokens found", name, len(rows), len(expr)) {
		return
	}
	var toks []*tokRow
	for _, r := range rows {
		chT := ".Ch(" + tokOf(r) + ")"
		ch := V(mkKey(chT))
		may := func(n int64) bool { return mayBe(r.F, ch, n) }
		impossible := r.F.factBool(func(v V) bool {
			t, ok := v.(*Term)
			if !ok || opSuffix(t.Op) != "isNumeric" || len(t.Args) != 1 {
				return false
			}
			_, isC := isStrConst(peel(t.Args[0]))
			return isC
		})
		if impossible == yes {
			continue
		}
		var e []V
		for _, x := range changes24(r) {
			if a, ok := x.added(); ok && expr[listKey(x)] {
				e = append(e, a...)
			}
		}
		n++
		if !c.Obl("token", name+" one part", r.Pos, len(e) == 1, "%s makes %d parts of one token when [%s]", name, len(e), clip(tokFacts(r), 300)) {
			continue
		}
		t := &tokRow{r: r}
		for _, p := range pieces(e[0], nil) {
			if s, ok := isStrConst(p); ok && t.core == nil && s == ")" {
				t.close = true
			} else if ok && t.core != nil && s == "(" {
				t.open = true
			} else if ok && t.core == nil && s == "^" {
				t.core, t.kind = p, "xor"
			} else if t.core == nil {
				t.core = p
			} else {
				t.kind = "more than the token"
			}
		}
		if t.kind == "" {
			t.kind = c.tokKind(r, t.core, isSrc)
		}
		known := func(set bool) bool {
			return r.F.factBool(func(v V) bool {
				h, ok := v.(*Term)
				return ok && h.Op == "has" && len(h.Args) == 2 && isSrc(r, h.Args[1]) && strings.Contains(h.Args[0].K(), ".typedefsSet(") == set
			}) == yes
		}
		switch t.kind {
		case "src":
			c.Obl("resolved", name+" identifiers", r.Pos, !may(ident), "%s keeps an identifier as it is in C when [%s]", name, clip(tokFacts(r), 300))
			c.Obl("token", name+" complement", r.Pos, !may('~'), "%s keeps C's ~, which Go spells ^", name)
		case "xor":
			iv := r.F.interval(ch)
			c.Obl("token", name+" xor", r.Pos, iv.lo == '~' && iv.hi == '~', "%s writes ^ for another token than ~", name)
		case "number":
			num := r.F.factBool(func(v V) bool {
				h, ok := v.(*Term)
				return ok && opSuffix(h.Op) == "isNumeric" && len(h.Args) == 1 && isSrc(r, h.Args[0])
			})
			c.Obl("token", name+" number", r.Pos, num == yes && !may(ident), "%s reads as a number what is not known to be one", name)
		case "const":
			c.Obl("token", name+" constant", r.Pos, r.F.interval(ch).lo == ident, "%s takes another token than an identifier for a constant's name", name)
			if macros {
				c.Obl("resolved", name+" constant", r.Pos, known(false), "%s refers to a constant that is not known to be generated when [%s]", name, clip(tokFacts(r), 300))
			}
		case "type":
			c.Obl("resolved", name+" type", r.Pos, known(true) && r.F.interval(ch).lo == ident, "%s refers to a type that is not known when [%s]", name, clip(tokFacts(r), 300))
		default:
			c.Fail("token", name+" part", r.Pos, "%s makes %s of a token when [%s]", name, clip(e[0].K(), 200), clip(tokFacts(r), 300))
		}
		toks = append(toks, t)
	}
	c.Obl("token", name+" rows", fn.Pos(), n > 4, "%s: only %d ways to translate a token found", name, n)
	flag := c.c24balance(name, toks)
	if macros {
		c.c24defines(name, tb, expr, flag)
	}
}

func listKey(x change24) string {
	k := x.head.K()
	if s, ok := x.v.(*SeqV); ok && s.Base != nil {
		k = s.Base.K()
	}
	return k[strings.LastIndexByte(k, '#')+1:]
}

// tokOf: the token of the iteration.
func tokOf(r *Row) string {
	list := strings.TrimSuffix(strings.TrimPrefix(r.Loop.Key, "len("), ")")
	return "[](" + list + ",ix#" + r.Loop.Key + "#)"
}

func tokFacts(r *Row) string {
	return strings.ReplaceAll(strings.ReplaceAll(r.F.String(), tokOf(r), "token"), r.Loop.Key, "loop")
}

func (c *Ctx) tokKind(r *Row, core V, isSrc func(*Row, V) bool) string {
	switch {
	case core == nil:
		return "nothing"
	case isSrc(r, core):
		return "src"
	}
	if a, ok := callArgs(core, "readNumeric"); ok && len(a) == 1 && isSrc(r, a[0]) {
		return "number"
	}
	if a, ok := callArgs(core, "TransformName"); ok && len(a) >= 3 && isSrc(r, a[2]) {
		s, _ := isStrConst(a[1])
		return s
	}
	return "?"
}

func (c *Ctx) c24balance(name string, toks []*tokRow) string {
	// the flag that an operand is open, the flag that it is about to be, and
	// the parentheses within it
	flag, need, depth := "", "", ""
	for _, t := range toks {
		for _, x := range changes24(t.r) {
			v, set := x.setTo()
			switch {
			case t.open && set && v:
				flag = shortLV(x.head.K())
			case t.kind == "type" && set && v:
				need = shortLV(x.head.K())
			}
			if l, k, _ := lin(x.v); l != nil && l.K() == x.head.K() && (k == 1 || k == -1) && !strings.Contains(x.head.K(), "ix#"+t.r.Loop.Key) {
				depth = shortLV(x.head.K())
			}
		}
	}
	for _, t := range toks {
		r := t.r
		ch := V(mkKey(".Ch(" + tokOf(r) + ")"))
		iv := r.F.interval(ch)
		rpar := iv.lo == ')' && iv.hi == ')'
		fact := func(n string) tri {
			for k, b := range r.F.b {
				if strings.HasPrefix(k, "lv#"+r.Loop.Key+"#") && shortLV(k) == n {
					return triOf(b)
				}
			}
			return unk
		}
		var fSet, fVal, nSet, nVal bool
		step := int64(0)
		zero := depth == ""
		for _, x := range changes24(r) {
			switch shortLV(x.head.K()) {
			case "":
			case flag:
				fVal, fSet = x.setTo()
			case need:
				nVal, nSet = x.setTo()
			case depth:
				if l, k, _ := lin(x.v); l != nil && l.K() == x.head.K() {
					step = k
				} else if x.v.K() != x.head.K() {
					step = 99
				}
				d := r.F.interval(x.head)
				zero = d.hi <= 0
			}
		}
		f := no // never open where no cast is recognised
		if flag != "" {
			f = fact(flag)
		}
		switch {
		case t.open:
			c.Obl("balance", name+" opened", r.Pos, rpar && fSet && fVal && need != "" && fact(need) == yes && nSet && !nVal, "%s opens a parenthesis other than after the type of a cast when [%s]", name, clip(tokFacts(r), 300))
			c.Obl("balance", name+" nested cast", r.Pos, f == no, "%s opens a parenthesis for a cast within the operand of another cast; only one is closed", name)
		case t.close:
			c.Obl("balance", name+" closed", r.Pos, rpar && f == yes && fSet && !fVal && zero, "%s closes a parenthesis that was not opened, or within the operand, when [%s]", name, clip(tokFacts(r), 300))
		case flag == "" || f == no:
			c.Obl("balance", name+" outside", r.Pos, !(fSet && fVal), "%s takes an operand for open without opening it when [%s]", name, clip(tokFacts(r), 300))
		default:
			ok := step == 0
			if mayBe(r.F, ch, '(') && t.kind == "src" {
				ok = iv.lo == '(' && iv.hi == '(' && step == 1
			} else if mayBe(r.F, ch, ')') && t.kind == "src" {
				ok = rpar && step == -1 && !zero
			}
			c.Obl("balance", name+" within", r.Pos, ok && !fSet, "%s loses count of the parentheses within an operand when [%s]", name, clip(tokFacts(r), 300))
		}
		if t.kind == "type" {
			c.Obl("balance", name+" after a type", r.Pos, need == "" || nSet && nVal || fact(need) == yes, "%s does not expect an operand after a type", name)
		} else {
			c.Obl("balance", name+" not after others", r.Pos, !(nSet && nVal), "%s expects the operand of a cast after something that is no type", name)
		}
	}
	return flag
}

func shortLV(k string) string { return k[strings.LastIndexByte(k, '#')+1:] }

func (c *Ctx) c24defines(name string, tb *Table, expr map[string]bool, flag string) {
	boolKind, invalid := c.ccConst("Bool", 2), c.ccConst("InvalidKind", 0)
	kind := c.strConst("translator", "ConstDefines", "defines")
	for _, r := range tb.Iter {
		if strings.HasPrefix(r.Loop.Key, "len(.Members(") {
			var noted V
			for i := range r.Ev {
				if e := &r.Ev[i]; e.Kind == "mapset" && len(e.Args) > 1 {
					noted = e.Args[1]
				}
			}
			el := "[](" + strings.TrimSuffix(strings.TrimPrefix(r.Loop.Key, "len("), ")") + ",ix#" + r.Loop.Key + "#)"
			own := func(v V) bool { return v != nil && peel(v).K() == ".Name(*("+el+"))" }
			acc := r.F.factBool(func(v V) bool {
				t, ok := v.(*Term)
				if !ok || !strings.HasPrefix(t.Op, "call:") || opSuffix(t.Op) != "IsAcceptableName" || len(t.Args) < 3 {
					return false
				}
				s, _ := isStrConst(t.Args[1])
				return s == "const" && own(t.Args[2])
			})
			c.Obl("resolved", "enumerators that are generated", r.Pos, (noted != nil) == (acc == yes) && (noted == nil || own(noted)), "%s takes an enumerator for one that macros can refer to: %v, although its name is accepted: %v", name, noted != nil, acc == yes)
			continue
		}
		if !strings.HasPrefix(r.Loop.Key, "iter($2,") {
			continue
		}
		isName := func(v V) bool {
			t, ok := peel(v).(*Term)
			return ok && opSuffix(t.Op) == "SrcStr" && strings.Contains(t.K(), "&.Name(get($2,key#"+r.Loop.Key+"#($2)))")
		}
		var recs []*StructV
		noted := false
		for i := range r.Ev {
			e := &r.Ev[i]
			switch e.Kind {
			case "append":
				for _, a := range e.Args {
					if s := specOf(r.St, a); s != nil && strings.HasSuffix(s.T.String(), "translator.CDecl") {
						recs = append(recs, s)
					}
				}
			case "mapset":
				if len(e.Args) > 1 && isName(e.Args[1]) {
					noted = true
				}
			}
		}
		call := func(fn string) tri {
			return r.F.factBool(func(v V) bool {
				t, ok := v.(*Term)
				return ok && strings.HasPrefix(t.Op, "call:") && opSuffix(t.Op) == fn
			})
		}
		ignored, accepted := call("IsTokenIgnored"), call("IsAcceptableName")
		fnLike := r.F.factBool(func(v V) bool { t, ok := v.(*Term); return ok && t.Op == ".IsFnLike" })
		seen := r.F.factBool(func(v V) bool {
			t, ok := v.(*Term)
			return ok && t.Op == "has" && len(t.Args) == 2 && isName(t.Args[1])
		})
		if seen == unk && len(recs) == 0 && (noted || fnLike != unk || accepted != unk) {
			// the loop that finds out which there are
			want := ignored == no && fnLike == no && accepted == yes
			c.Obl("define", "names", r.Pos, noted == want, "%s: a macro's name is taken as generated: %v, when [%s]", name, noted, clip(r.F.String(), 300))
			continue
		}
		if ignored == yes || seen == no {
			c.Obl("define", "left out", r.Pos, len(recs) == 0, "%s records a macro that is ignored or not accepted", name)
			continue
		}
		// the kind and the value
		isKind := func(n int64) bool {
			for k, iv := range r.F.iv {
				if strings.HasPrefix(k, "inv:modernc.org/cc/v4.Type.Kind(") && strings.Contains(k, "get($2,key#"+r.Loop.Key) && iv.lo == n && iv.hi == n {
					return true
				}
			}
			return false
		}
		isValue := func(v V) bool {
			t, ok := peel(v).(*Term)
			return ok && opSuffix(t.Op) == "Value" && strings.Contains(t.K(), "get($2,key#"+r.Loop.Key)
		}
		noValue := r.F.factBool(func(v V) bool {
			t, ok := v.(*Term)
			if !ok {
				return false
			}
			if t.Op == "isnil" && isValue(t.Args[0]) {
				return true
			}
			return t.Op == "eq" && len(t.Args) == 2 && (isValue(t.Args[0]) || isValue(t.Args[1])) && strings.Contains(t.K(), "Unknown")
		})
		for k, b := range r.F.b {
			if t, ok := r.F.at[k].(*Term); ok && b && (t.Op == "isnil" && isValue(t.Args[0]) || t.Op == "eq" && len(t.Args) == 2 && strings.Contains(k, "Unknown") && (isValue(t.Args[0]) || isValue(t.Args[1]))) {
				noValue = yes
			}
		}
		expand := false
		for k, v := range r.F.eq {
			if strings.HasPrefix(k, "get(.constRules(") && strings.HasSuffix(k, `,"`+kind+`")`) && v == "expand" {
				expand = true
			}
		}
		unresolved := 0
		for k, b := range r.F.b {
			if t, ok := r.F.at[k].(*Term); ok && !b && t.Op == "has" && len(t.Args) == 2 && strings.Contains(t.Args[1].K(), "ReplacementList(") {
				unresolved++
			}
		}
		if len(recs) == 0 {
			c.Obl("define", "without a record", r.Pos, isKind(boolKind) || noValue == yes && unresolved >= 2, "%s records nothing for an accepted macro when [%s]", name, clip(r.F.String(), 400))
			continue
		}
		if !c.Obl("define", "once", r.Pos, len(recs) == 1, "%s records a macro %d times", name, len(recs)) {
			continue
		}
		nm, vl, ex, isd := recs[0].field("Name"), recs[0].field("Value"), recs[0].field("Expression"), recs[0].field("IsDefine")
		b, isC := isBoolConst(isd)
		c.Obl("define", "name", r.Pos, isName(nm) && isC && b, "%s records a macro as %s (as a macro: %v)", name, clip(nm.K(), 120), b)
		if s, isC := isStrConst(ex); isC && s == "" {
			c.Obl("define", "value", r.Pos, isValue(vl), "%s records %s as the value of a macro", name, clip(vl.K(), 160))
			c.Obl("define", "value allowed", r.Pos, !expand && !isKind(invalid) || unresolved >= 2, "%s records the value of a macro that was to be expanded when [%s]", name, clip(r.F.String(), 300))
			continue
		}
		t, ok := ex.(*Term)
		ok = ok && isNilV(vl) && t.Op == "s:Join" && len(t.Args) == 2 && strings.Contains(t.Args[0].K(), "ReplacementList(get($2,key#"+r.Loop.Key)
		if ok {
			sep, isC := isStrConst(t.Args[1])
			ok = isC && sep == " "
			own := false
			for e := range expr {
				own = own || strings.Contains(t.Args[0].K(), "#"+e)
			}
			ok = ok && own
		}
		c.Obl("define", "expression", r.Pos, ok, "%s records %s as the expression of a macro", name, clip(ex.K(), 160))
		c.Obl("define", "expression allowed", r.Pos, (expand || isKind(invalid)) && unresolved < 2, "%s records an expression that was not asked for or is not resolved when [%s]", name, clip(r.F.String(), 300))
		// an operand that is open is closed
		if ok {
			tail := false
			if q, is := t.Args[0].(*SeqV); is && len(q.E) == 1 {
				s, _ := isStrConst(q.E[0])
				tail = s == ")"
			} else if is && len(q.E) > 0 {
				tail = true
			}
			open := no
			if flag != "" {
				open = unk
				for k, b := range r.F.b {
					if strings.HasPrefix(k, "lv#len(ext:(*modernc.org/cc/v4.Macro).ReplacementList(") && shortLV(k) == flag {
						open = triOf(b)
					}
				}
			}
			c.Obl("balance", name+" at the end", r.Pos, open == triOf(tail), "%s: a parenthesis is closed at the end: %v, although one is open: %v", name, tail, open == yes)
		}
	}
}
