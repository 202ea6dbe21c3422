package main

import (
	"fmt"
	"go/types"
	"strings"
)

// What the checks of the generated functions, callbacks and structures share:
// tips as they are asked for, and lists as they are written.

// A tipRef is a tip asked of the configuration: which one, under what name and
// for which position (nil: for the thing itself).
type tipRef struct {
	what, scope string
	name, at    V
}

func (t tipRef) key() string {
	at := "self"
	if t.at != nil {
		at = t.at.K()
	}
	return t.what + "|" + t.scope + "|" + t.name.K() + "|" + at
}

// rxOf: the compiled tips a value holds.
func rxOf(v V) (tipRef, bool) {
	for n, what := range []string{"ptr", "type", "mem"} {
		rv, ok := resultOf(v, n)
		if !ok {
			continue
		}
		if a, ok := callArgs(rv, "TipRxsForSpec"); ok && len(a) == 4 {
			s, _ := isStrConst(a[1])
			if what == "mem" {
				s = ""
			}
			return tipRef{what: what, scope: s, name: a[2]}, true
		}
		if n > 0 {
			continue
		}
		for fn, what := range map[string]string{"PtrTipRx": "ptr", "TypeTipRx": "type"} {
			if a, ok := callArgs(rv, fn); ok && len(a) == 3 {
				s, _ := isStrConst(a[1])
				return tipRef{what: what, scope: s, name: a[2]}, true
			}
		}
		if a, ok := callArgs(rv, "MemTipRx"); ok && len(a) == 2 {
			return tipRef{what: "mem", name: a[1]}, true
		}
	}
	return tipRef{}, false
}

func tipRefOf(v V) (tipRef, bool) {
	if a, ok := callArgs(v, "TipAt"); ok && len(a) == 2 {
		r, ok := rxOf(a[0])
		r.at = a[1]
		return r, ok
	}
	if a, ok := callArgs(v, "Self"); ok && len(a) == 1 {
		return rxOf(a[0])
	}
	if a, ok := callArgs(v, "MemTipOf"); ok && len(a) == 2 {
		return tipRef{what: "mem of", name: a[1]}, true
	}
	return tipRef{}, false
}

// A choice says what each tip is.
type choice func(tipRef) (string, bool)

// tipVal: the tip a value is under a choice.
func tipVal(v V, ch choice) (string, bool) {
	if s, ok := isStrConst(v); ok {
		return s, true
	}
	if r, ok := tipRefOf(v); ok {
		return ch(r)
	}
	return "", false
}

// possible: whether the path can be taken under the choice.
func (f *Facts) possible(ch choice) bool {
	for k, c := range f.eq {
		if v := f.at[k]; v != nil {
			if s, ok := tipVal(v, ch); ok && s != c {
				return false
			}
		}
	}
	for _, t := range f.boolTerms() {
		b := f.b[t.K()]
		if !b && t.Op == "#1" {
			// nothing configured: no tips
			if r, ok := rxOf(mkTerm(nil, "#0", t.Args...)); ok {
				for _, at := range []V{nil, mkKey("any position")} {
					r.at = at
					if s, ok := ch(r); ok && s != "" {
						return false
					}
				}
			}
		}
		switch {
		case strings.HasSuffix(t.Op, "IsValid") && len(t.Args) == 1:
			if s, ok := tipVal(t.Args[0], ch); ok && (s != "") != b {
				return false
			}
		case t.Op == "eqs" && len(t.Args) == 2:
			x, ok1 := tipVal(t.Args[0], ch)
			y, ok2 := tipVal(t.Args[1], ch)
			if ok1 && ok2 && (x == y) != b {
				return false
			}
		}
	}
	return true
}

// A listedItem is what one iteration contributes to a list.
type listedItem struct {
	row   *Row
	parts []V // without separators
	lead  bool
	trail bool
	elem  bool // the item is collected, to be joined later
}

// itemOf takes an item apart.
func itemOf(r *Row, sep string) listedItem {
	it := listedItem{row: r}
	for _, v := range iterText(r) {
		it.parts = pieces(v, it.parts)
	}
	if n := len(it.parts); n > 0 {
		if s, ok := isStrConst(it.parts[0]); ok && strings.HasPrefix(s, sep) {
			it.lead = true
			it.parts = append([]V(nil), it.parts...)
			if s = s[len(sep):]; s == "" {
				it.parts = it.parts[1:]
			} else {
				it.parts[0] = cStr(s)
			}
		}
	}
	if n := len(it.parts); n > 0 {
		if s, ok := isStrConst(it.parts[n-1]); ok && strings.HasSuffix(s, sep) {
			it.trail = true
			it.parts = append([]V(nil), it.parts...)
			if s = s[:len(s)-len(sep)]; s == "" {
				it.parts = it.parts[:n-1]
			} else {
				it.parts[n-1] = cStr(s)
			}
		}
	}
	return it
}

// separated: why the items of a list may not have one separator between each
// two of them ("" if they do). list is the list that is walked.
func separated(items []listedItem, joined bool) string {
	skips := false
	for _, it := range items {
		if len(it.parts) == 0 {
			skips = true
			if it.lead || it.trail {
				return "a separator is written without an item"
			}
		}
	}
	if joined {
		for _, it := range items {
			if it.lead || it.trail {
				return "the items are joined, but also contain separators"
			}
		}
		return ""
	}
	// by the position, if every element is written
	byPos := func() string {
		if skips {
			return "some elements are not written, so the position of an element does not tell whether another item comes before or after it"
		}
		lead, trail := "", ""
		for _, it := range items {
			ix, n := it.row.position()
			if ix == nil {
				return "the position of an element cannot be told"
			}
			iv := it.row.F.interval(ix)
			first, notFirst := iv.hi <= 0, iv.lo >= 1
			e := it.row.F.evalBool(mkTerm(types.Typ[types.Bool], "lt", ix, mkAdd(types.Typ[types.Int], n, -1)))
			last, notLast := e == 0, e == 1
			if !(it.lead && notFirst || !it.lead && first) {
				lead = "an item has a separator before it although it may be the first, or none although it may not be"
			}
			if !(it.trail && notLast || !it.trail && last) {
				trail = "an item has a separator after it although it may be the last, or none although it may not be"
			}
			if it.lead {
				trail = "separators before items"
			}
			if it.trail {
				lead = "separators after items"
			}
		}
		if lead == "" || trail == "" {
			return ""
		}
		if strings.HasPrefix(lead, "an item") {
			return lead
		}
		return trail
	}
	why := byPos()
	if why == "" {
		return ""
	}
	// by what has been written
	keys := map[string]bool{}
	for _, it := range items {
		for k := range it.row.Be.Carry {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		if flagged(items, k) {
			return ""
		}
	}
	return why
}

// flagged: whether the loop-carried value k tells whether something has been
// written.
func flagged(items []listedItem, k string) bool {
	for _, it := range items {
		r := it.row
		init, ok := r.Loop.Init[k]
		if !ok {
			return false
		}
		after, ok := r.Be.Carry[k]
		if !ok {
			return false
		}
		var before, set tri
		if b0, ok := isBoolConst(init); ok {
			val := func(v V) tri {
				if b, ok := isBoolConst(v); ok {
					return triOf(b != b0)
				}
				switch r.F.evalBool(v) {
				case 0:
					return triOf(b0)
				case 1:
					return triOf(!b0)
				}
				return unk
			}
			before, set = val(mkKey(k)), val(after)
		} else if n0, ok := isIntConst(init); ok && n0 == 0 {
			iv := r.F.interval(mkKey(k))
			switch {
			case iv.lo >= 1:
				before = yes
			case iv.hi <= 0:
				before = no
			}
			if after.K() == k {
				set = before
			} else if b, n, ok := lin(after); ok && n >= 1 && (b == nil || b.K() == k) {
				set = yes
			}
		} else {
			return false
		}
		if len(it.parts) == 0 {
			// nothing written, nothing noted
			if after.K() != k && (set == unk || set != before) {
				return false
			}
			continue
		}
		if it.trail || set != yes || before == unk || it.lead != (before == yes) {
			return false
		}
	}
	return true
}

// position: the index of the element an iteration is about, and the number of
// elements.
func (r *Row) position() (ix, n V) {
	for _, t := range r.F.boolTerms() {
		if t.Op == "lt" && len(t.Args) == 2 && r.F.b[t.K()] && strings.HasPrefix(t.Args[0].K(), "ix#"+r.Loop.Key+"#") {
			if n == nil || t.Args[1].K() == r.Loop.Key {
				ix, n = t.Args[0], t.Args[1]
			}
		}
	}
	return
}

func showPart(v V) string {
	if s, ok := isStrConst(v); ok {
		return fmt.Sprintf("%q", s)
	}
	return holeName(v)
}

func showParts(ps []V) string {
	var out []string
	for _, p := range ps {
		out = append(out, showPart(p))
	}
	return strings.Join(out, " ")
}

// callsTo: the events of a row that call the functions of these names.
func callsTo(r *Row, names ...string) (out []int) {
	for i := range r.Ev {
		if e := &r.Ev[i]; e.Kind == "call" {
			for _, n := range names {
				if opSuffix(e.Name) == n {
					out = append(out, i)
				}
			}
		}
	}
	return
}

// pointee: what a pointer to a known object points to.
func (st *State) pointee(v V) V {
	if p, ok := v.(*Ptr); ok {
		return st.ip.load(st, p, derefT(p.T))
	}
	if t, ok := v.(*Term); ok && t.Op == "ptr" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}
