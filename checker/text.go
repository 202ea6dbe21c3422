package main

import (
	"sort"
	"strings"
)

// The text a function writes, as lines of constant pieces and holes; a part
// repeated for the elements of a collection is an item of its own.
type tline struct {
	s    string // the line, holes as ⟨...⟩
	segs []V
	rep  string // key of the loop that writes this item for every element
	alts [][]tline
}

// pieces flattens a text into constants, holes and repetitions.
func pieces(v V, out []V) []V {
	v = peel(v)
	if t, ok := v.(*Cat); ok {
		for _, a := range t.Parts {
			out = pieces(a, out)
		}
		return out
	}
	// the elements of a list, put together
	if t, ok := v.(*Term); ok && t.Op == "s:Join" && len(t.Args) == 2 {
		if sep, ok := isStrConst(t.Args[1]); ok {
			if l, ok := t.Args[0].(*Term); ok && l.Op == "seq" && len(l.Args) > 1 && sep == "" {
				return append(out, mkTerm(t.T, "rep", l.Args...))
			}
			if l, ok := t.Args[0].(*SeqV); ok && l.N == nil && (l.Base == nil || sep == "") {
				if l.Base != nil {
					out = pieces(mkTerm(t.T, "s:Join", l.Base, t.Args[1]), out)
				}
				for i, e := range l.E {
					if i > 0 && sep != "" {
						out = append(out, cStr(sep))
					}
					out = pieces(e, out)
				}
				return out
			}
		}
	}
	return append(out, v)
}

// iterText: what one iteration adds to the texts and lists that go through the
// loop.
func iterText(r *Row) []V {
	var out []V
	for k, v := range r.Be.St.streams {
		h, ok := r.Be.Head.streams[k]
		if !ok {
			h = cStr("")
		}
		if h.K() != v.K() {
			if d, ok := textSuffix(h, v); ok {
				out = append(out, d)
			} else {
				out = append(out, v)
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	var ids []int
	for id := range r.Be.St.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	add := func(h, v V) {
		if h == nil || v == nil || h.K() == v.K() {
			return
		}
		if isText(h) && isText(v) {
			if d, ok := textSuffix(h, v); ok {
				out = append(out, d)
			}
			return
		}
		if vs, ok := v.(*SeqV); ok && vs.Base != nil && len(vs.E) > 0 && (vs.Base.K() == h.K() || strings.HasPrefix(vs.Base.K(), "seq#")) {
			if hs, ok := h.(*SeqV); !ok || hs.Base != nil && hs.Base.K() == vs.Base.K() && len(hs.E) < len(vs.E) {
				n := 0
				if ok {
					n = len(hs.E)
				}
				out = append(out, vs.E[n:]...)
			}
		}
	}
	var ks []string
	for k := range r.Be.Carry {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch v := r.Be.St.snap(r.Be.Carry[k]).(type) {
		case *SeqV:
			if v.Base != nil && len(v.E) > 0 && (v.Base.K() == k || strings.HasPrefix(v.Base.K(), "seq#")) {
				out = append(out, v.E...)
			}
		case *Cat:
			if v.Parts[0].K() == k {
				out = append(out, v.Parts[1:]...)
			}
		}
	}
	for _, id := range ids {
		add(r.Be.Head.heap[id], r.Be.St.heap[id])
	}
	return out
}

// textLines splits a text into lines. The last line has no end if the text
// does not end with one.
func textLines(v V) []tline { return splitLines(pieces(v, nil), "") }

func splitLines(ps []V, prefix string) []tline {
	var out []tline
	cur := tline{s: prefix}
	empty := true
	flush := func() {
		out = append(out, cur)
		cur, empty = tline{s: prefix}, true
	}
	for i := 0; i < len(ps); i++ {
		p := ps[i]
		if s, ok := isStrConst(p); ok {
			for {
				k := strings.IndexByte(s, '\n')
				if k < 0 {
					break
				}
				cur.s += s[:k]
				cur.segs = append(cur.segs, cStr(s[:k]))
				flush()
				s = s[k+1:]
			}
			if s != "" {
				cur.s += s
				cur.segs = append(cur.segs, cStr(s))
				empty = false
			}
			continue
		}
		if t, ok := p.(*Term); ok && t.Op == "rep" && len(t.Args) > 1 && empty {
			key, _ := isStrConst(t.Args[0])
			key = repKey(key)
			// the lines of a text, each with a prefix
			if x, pre, ok := prefixedLines(t, key); ok {
				ls := splitLines(pieces(x, nil), pre)
				out = append(out, ls...)
				continue
			}
			whole := true
			r := tline{rep: key}
			for _, a := range t.Args[1:] {
				ls := splitLines(pieces(a, nil), "")
				if n := len(ls); n > 0 && ls[n-1].s == "" && ls[n-1].rep == "" {
					ls = ls[:n-1]
				} else {
					whole = false
				}
				r.alts = append(r.alts, ls)
			}
			if whole {
				out = append(out, r)
				continue
			}
		}
		if t, ok := p.(*Term); ok && (t.Op == "s:ReplaceAll" || t.Op == "s:Replace") && len(t.Args) >= 3 {
			from, _ := isStrConst(t.Args[1])
			to, ok := isStrConst(t.Args[2])
			if ok && from == "\n" && strings.HasPrefix(to, "\n") && cur.s == prefix+to[1:] {
				ls := splitLines(pieces(t.Args[0], nil), prefix+to[1:])
				n := len(ls)
				out = append(out, ls[:n-1]...)
				cur, empty = ls[n-1], false
				continue
			}
		}
		cur.s += "⟨" + holeName(p) + "⟩"
		cur.segs = append(cur.segs, p)
		empty = false
	}
	if !empty || cur.s == prefix {
		out = append(out, cur)
	}
	return out
}

// repKey: the key of the loop from the marker of a repetition.
func repKey(k string) string {
	k = strings.TrimPrefix(k, "#")
	if i := strings.LastIndexByte(k, '#'); i >= 0 {
		k = k[:i]
	}
	return k
}

// prefixedLines: every line of a text is written with the same prefix.
func prefixedLines(t *Term, key string) (V, string, bool) {
	if len(t.Args) != 2 {
		return nil, "", false
	}
	ps := pieces(t.Args[1], nil)
	pre := ""
	if len(ps) == 3 {
		s, ok := isStrConst(ps[0])
		if !ok {
			return nil, "", false
		}
		pre = s
		ps = ps[1:]
	}
	if len(ps) != 2 {
		return nil, "", false
	}
	if s, ok := isStrConst(ps[1]); !ok || s != "\n" {
		return nil, "", false
	}
	e, ok := ps[0].(*Term)
	if !ok || e.Op != "[]" || len(e.Args) != 2 || key != "len("+e.Args[0].K()+")" {
		return nil, "", false
	}
	sp, ok := e.Args[0].(*Term)
	if !ok || sp.Op != "s:Split" || len(sp.Args) != 2 {
		return nil, "", false
	}
	if s, ok := isStrConst(sp.Args[1]); !ok || s != "\n" {
		return nil, "", false
	}
	return sp.Args[0], pre, true
}

// holeName: a short name for where a text comes from.
func holeName(v V) string {
	v = peel(v)
	t, ok := v.(*Term)
	if !ok {
		return clip(v.K(), 120)
	}
	switch {
	case t.Op == "*" && len(t.Args) == 1:
		return holeName(t.Args[0])
	case strings.HasPrefix(t.Op, ".") && len(t.Args) == 1:
		b := holeName(t.Args[0])
		if strings.HasPrefix(b, "$") && !strings.Contains(b, ".") {
			return t.Op[1:]
		}
		return b + t.Op
	case t.Op == "[]" && len(t.Args) == 2:
		if t.Args[1].K() == "ix#len("+t.Args[0].K()+")#" {
			return holeName(t.Args[0]) + "[i]"
		}
	case t.Op == "s:Join" && len(t.Args) == 2:
		if s, ok := isStrConst(t.Args[1]); ok {
			if s == " " {
				return "all " + holeName(t.Args[0])
			}
		}
	}
	return clip(v.K(), 120)
}
