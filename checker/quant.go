package main

import (
	"fmt"
	"sort"
	"strings"
)

// Reading quantified facts off abstract paths: whether some element of a list
// satisfies a predicate, or none does, as established by the loops a path went
// through.

type tri int

const (
	unk tri = iota
	yes
	no
)

func (t tri) String() string { return [...]string{"unknown", "yes", "no"}[t] }

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

// quant decides "some element of a list of class c satisfies the predicate"
// under the facts of a path.
//
// atom recognises a predicate application: it returns the list the tested
// element is taken from, the index, and whether the term is an application.
type quant struct {
	ip    *Interp
	atom  func(t *Term) (list, ix V, ok bool)
	class func(list V) string // "" when the list is none of the interesting ones
}

// elemOf peels an element access: the list and index of [](list, ix).
func elemOf(v V) (list, ix V, ok bool) {
	t, isT := v.(*Term)
	if !isT {
		return nil, nil, false
	}
	if t.Op == "[]" && len(t.Args) == 2 {
		return t.Args[0], t.Args[1], true
	}
	return nil, nil, false
}

// sortedTerms lists the terms a fact set speaks about in a fixed order.
func (f *Facts) boolTerms() []*Term {
	var ks []string
	for k := range f.b {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Term
	for _, k := range ks {
		if t, ok := f.at[k].(*Term); ok {
			out = append(out, t)
		}
	}
	return out
}

// elemFacts gives the truth of predicate applications in f, per class; only
// for index ix when ix is not nil.
func (q *quant) elemFacts(f *Facts, ix V) map[string]tri {
	out := map[string]tri{}
	for _, t := range f.boolTerms() {
		l, i, ok := q.atom(t)
		if !ok || (ix != nil && i.K() != ix.K()) {
			continue
		}
		c := q.class(l)
		if c == "" {
			continue
		}
		v := triOf(f.b[t.K()])
		if o, ok := out[c]; ok && o != v {
			v = yes // true for one element, false for another
			if ix != nil {
				v = unk
			}
		}
		out[c] = v
	}
	return out
}

// decide returns, per class, yes (some element satisfies) or no (none does).
func (q *quant) decide(f *Facts) map[string]tri {
	out := map[string]tri{}
	for c, v := range q.elemFacts(f, nil) {
		if v == yes {
			out[c] = yes
		}
	}
	// lists known to be empty
	for _, t := range f.boolTerms() {
		v := f.b[t.K()]
		if t.Op == "has" && !v {
			if c := q.class(mkTerm(t.T, "get", t.Args...)); c != "" {
				out[c] = no
			}
			// an absent outer map has nothing in it either
			for _, c := range q.under(f, t) {
				out[c] = no
			}
		}
		if t.Op == "isnil" && v {
			if c := q.class(t.Args[0]); c != "" {
				out[c] = no
			}
		}
	}
	for k, iv := range f.iv {
		t, ok := f.at[k].(*Term)
		if ok && t.Op == "len" && iv.hi <= 0 {
			if c := q.class(t.Args[0]); c != "" {
				out[c] = no
			}
		}
	}
	// exhausted loops
	for _, t := range f.boolTerms() {
		if t.Op != "lt" || f.b[t.K()] || len(t.Args) != 2 {
			continue
		}
		ix, ok := t.Args[0].(*Term)
		if !ok || !strings.HasPrefix(ix.Op, "ix#") {
			continue
		}
		ln, ok := t.Args[1].(*Term)
		if !ok || ln.Op != "len" {
			continue
		}
		c := q.class(ln.Args[0])
		lm := q.ip.Loops[strings.TrimSuffix(strings.TrimPrefix(ix.Op, "ix#"), "#")]
		if c == "" || lm == nil || !lm.HasIx || lm.Start != 0 || out[c] != unk {
			continue
		}
		out[c] = q.exhausted(f, lm, ix, c)
	}
	for c, v := range out {
		if v == unk {
			delete(out, c)
		}
	}
	return out
}

func (q *quant) under(f *Facts, has *Term) []string {
	return nil
}

// exhausted: the loop went over every element; what each iteration that went
// on established holds for all of them.
func (q *quant) exhausted(f *Facts, lm *LoopMeta, ix V, c string) tri {
	allNo := true
	some := unk
	for _, be := range lm.Back {
		ef := q.elemFacts(be.St.facts, ix)[c]
		set := false  // this iteration sets a flag the path knows to be unset
		kept := false // ... knows to be set
		for hk, nv := range be.Carry {
			if nv == nil {
				continue
			}
			nb, isC := isBoolConst(nv)
			if !isC {
				continue
			}
			if v, ok := f.b[hk]; ok {
				if v != nb {
					set = true
				} else {
					kept = true
				}
			}
		}
		if set {
			continue // cannot have happened on this path
		}
		if kept && ef == yes {
			some = yes
			continue
		}
		if ef != no {
			allNo = false
		}
	}
	if some == yes {
		return yes
	}
	if allNo {
		return no
	}
	return unk
}

func triMap(m map[string]tri) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s=%s", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}
