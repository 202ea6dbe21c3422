package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: every helper that is submitted is written once, with all it requires.

func init() { checks["C09"] = c09 }

// rootsOf: the functions of the baseline, or without callers, that the given
// functions are part of.
func (c *Ctx) rootsOf(fs []*ssa.Function) []*ssa.Function {
	roots := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if seen[f] {
			return
		}
		seen[f] = true
		cs := c.callersOf(f)
		if c.isBaseline(f) || len(cs) == 0 {
			roots[f] = true
			return
		}
		for _, ci := range cs {
			up(ci.Parent())
		}
	}
	for _, f := range fs {
		up(f)
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	return list
}

// helperChan: the type is a channel of helpers.
func helperChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	n := namedOf(derefT(ch.Elem()))
	return n != nil && n.Obj().Name() == "Helper"
}

// sendersOf: functions that send on a channel of helpers.
func (c *Ctx) sendersOf() (out []*ssa.Function) {
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					if helperChan(in.Chan.Type()) {
						out = append(out, f)
					}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.SendOnly && helperChan(s.Chan.Type()) {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	return
}

func c09(c *Ctx) {
	c.explain = "The function that submits a helper, the loop that receives and writes helpers, and the functions that start and stop it are interpreted on every path, with channel operations as events: what is sent is closed under Requires, what is received is written exactly once to the writer of its side after that side's header, the loop ends only when everything sent was received, and what it wrote is read only afterwards."
	c.Rule("submit: with a helper everything it requires is sent, through any number of levels")
	c.Rule("write: a received helper is written, description then source, exactly if none of its side and name was before, to the writer of its side, after that side's header, which is written once")
	c.Rule("end: the loop goes on until the channel is closed and empty; the channel is closed only when asked to; the end is reported")
	c.Rule("stop: closing waits for the loop's end, nothing is submitted after it, and what was written is read only then")
	c.Rule("free: nothing the writing loop runs submits helpers or waits for the loop")
	senders := c.sendersOf()
	roots := c.rootsOf(senders)
	for _, f := range roots {
		c.submits(f)
	}
	c.Floor("submit", 3)
	if mon := c.monitor(); mon != nil {
		c.writesHelpers(mon)
		c.stops(mon, senders)
	}
	c.Floor("write", 8)
	c.Floor("end", 3)
	c.Floor("stop", 5)
}

func isSend(e *Event) bool {
	return e.Kind == "send" && len(e.Args) == 2 && helperChan(typeOf(e.Args[0]))
}

func requiresOf(k string) string { return ".Requires(*(" + k + "))" }

func (c *Ctx) submits(fn *ssa.Function) {
	con := c.short(fn)
	self := con
	tb := c.table("submit", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "send" || e.Kind == "call" && e.Name == self })
	})
	if tb == nil {
		return
	}
	// what the loops do, by the slice they range over
	type todo struct {
		slice string
		pos   token.Pos
	}
	var work []todo
	done := map[string]bool{}
	need := func(s string, pos token.Pos) {
		if !done[s] {
			done[s] = true
			work = append(work, todo{s, pos})
		}
	}
	isSelf := func(e *Event) bool { return e.Kind == "call" && e.Name == self }
	// handled: helpers submitted in a row, in full or sent only
	handled := func(r *Row) (full, sent map[string]bool) {
		full, sent = map[string]bool{}, map[string]bool{}
		for i := range r.Ev {
			e := &r.Ev[i]
			if isSend(e) {
				sent[e.Args[1].K()] = true
			}
			if isSelf(e) && len(e.Args) == 2 {
				full[e.Args[1].K()] = true
			}
		}
		return
	}
	// carried: does the row keep the given slice for a later iteration?
	carried := func(r *Row, slice string) string {
		if r.Be == nil {
			return ""
		}
		for k, v := range r.Be.Carry {
			if strings.Contains(r.St.snap(v).K(), "all("+slice+")") {
				return k
			}
		}
		return ""
	}
	var param string
	for i, p := range fn.Params {
		if n := namedOf(derefT(p.Type())); n != nil && n.Obj().Name() == "Helper" {
			param = "$" + string(rune('0'+i))
		}
	}
	// a queue: each round sends the next and appends what that requires; the
	// next is taken off the front, or found by an index that counts up
	type queueUse struct{ el, ix string }
	takes := func(it *Row, k string) (queueUse, bool) {
		if it.Be == nil || it.Be.Carry[k] == nil || it.Loop.Init[k] == nil {
			return queueUse{}, false
		}
		_, sent := handled(it)
		nk := it.St.snap(it.Be.Carry[k]).K()
		for el := range sent {
			if !strings.Contains(nk, "all("+requiresOf(el)+")") {
				continue
			}
			if el == "[]("+k+",0)" && strings.Contains(nk, "slice("+k+",1,") {
				return queueUse{el: el}, true
			}
			if !strings.HasPrefix(nk, "["+k+"..") {
				continue
			}
			for x, v := range it.Be.Carry {
				if el == "[]("+k+","+x+")" && it.St.snap(v).K() == "+c("+x+",1)" {
					return queueUse{el: el, ix: x}, true
				}
			}
		}
		return queueUse{}, false
	}
	queueOf := map[string]queueUse{}
	for _, it := range tb.Iter {
		if it.Be == nil {
			continue
		}
		for k := range it.Be.Carry {
			if u, ok := takes(it, k); ok {
				queueOf[k] = u
			}
		}
	}
	for k := range queueOf {
		// every round does, and the loop ends only when it is empty
		for _, it := range tb.Iter {
			if it.Be == nil || it.Be.Carry[k] == nil {
				continue
			}
			_, ok := takes(it, k)
			c.Obl("submit", con+" queue", it.Pos, ok, "%s can take a helper off its queue without sending it and queueing what it requires", con)
		}
	}
	paths := 0
	for _, r := range tb.Path {
		full, sent := handled(r)
		inQueue := false
		for k, u := range queueOf {
			mentions := false
			for _, t := range allFactKeys(r.F) {
				if strings.Contains(t, k) {
					mentions = true
				}
			}
			if mentions {
				iv := r.F.iv["len("+k+")"]
				empty := iv.hi == 0 && iv.lo == 0
				if u.ix != "" {
					v, ok := r.F.b["lt("+u.ix+",len("+k+"))"]
					empty = ok && !v
				}
				c.Obl("submit", con+" rounds", r.Pos, empty, "%s can stop before everything required is sent", con)
				inQueue = true
			}
		}
		if inQueue && param != "" {
			paths++
			c.Obl("submit", con+" helper", r.Pos, sent[param] || full[param], "%s does not send the helper it is given", con)
			continue
		}
		if param == "" {
			for h := range sent {
				need(requiresOf(h), r.Pos)
			}
			continue
		}
		isNil := false
		for _, t := range r.F.boolTerms() {
			if t.Op == "isnil" && t.Args[0].K() == param && r.F.b[t.K()] {
				isNil = true
			}
		}
		if isNil {
			c.Obl("submit", con+" nothing", r.Pos, len(sent)+len(full) == 0, "%s sends something when there is no helper", con)
			continue
		}
		paths++
		queued := false
		for _, it := range tb.Iter {
			// a queue that starts with the helper
			for k, v := range it.Loop.Init {
				if strings.Contains(v.K(), param+",") || strings.Contains(v.K(), param+";") {
					_, s := handled(it)
					if len(s) > 0 && strings.HasPrefix(k, "lv") {
						queued = true
						need(k, it.Pos)
					}
				}
			}
		}
		c.Obl("submit", con+" helper", r.Pos, sent[param] || full[param] || queued, "%s does not send the helper it is given", con)
		if sent[param] {
			need(requiresOf(param), r.Pos)
		}
	}
	if param != "" {
		c.Obl("submit", con+" paths", fn.Pos(), paths > 0, "%s never submits anything", con)
	}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		c.coverSlice(con, fn, tb, w.slice, handled, carried, need)
	}
}

// coverSlice: every helper of the slice is sent, and what it requires is
// handled.
func (c *Ctx) coverSlice(con string, fn *ssa.Function, tb *Table, slice string, handled func(r *Row) (full, sent map[string]bool), carried func(r *Row, s string) string, need func(s string, pos token.Pos)) {
	what := clip(slice, 80)
	ranged := false
	// the start of a loop's variable: the loop's rounds are judged for any
	// value of the variable
	for _, r := range tb.Iter {
		for k, v := range r.Loop.Init {
			if strings.HasPrefix(k, "lv#") && v.K() == slice {
				ranged = true
				need(k, r.Pos)
			}
		}
	}
	if ranged {
		return
	}
	for _, r := range tb.Iter {
		full, sent := handled(r)
		el := ""
		for h := range sent {
			if strings.HasPrefix(h, "[]("+slice+",") {
				el = h
			}
		}
		for h := range full {
			if strings.HasPrefix(h, "[]("+slice+",") {
				el = h
			}
		}
		over := false // the loop goes over the slice
		for k, v := range r.F.b {
			if v && strings.HasPrefix(k, "lt(ix#") && strings.HasSuffix(k, ",len("+slice+"))") && r.Loop != nil && strings.Contains(r.Loop.Key, "len("+slice+")") {
				over = true
			}
		}
		queue := false // or takes the first of it
		if r.Be != nil {
			if v, ok := r.Be.Carry[slice]; ok && el == "[]("+slice+",0)" {
				nk := r.St.snap(v).K()
				queue = strings.Contains(nk, slice) && strings.Contains(nk, "all("+requiresOf(el)+")") && strings.Contains(nk, "1")
			}
		}
		if !over && !queue {
			continue
		}
		ranged = true
		if !c.Obl("submit", con+" each", r.Pos, el != "", "%s goes over %s without sending each", con, what) {
			continue
		}
		if full[el] || queue {
			continue
		}
		// what the element requires: ranged over here, or kept for later
		rq := requiresOf(el)
		acc := carried(r, rq)
		if acc == "" {
			need(rq, r.Pos)
			continue
		}
		// the accumulator must become the slice of a later round
		next := ""
		if i := strings.IndexByte(acc, '#'); i >= 0 {
			for _, o := range tb.Iter {
				if o.Be == nil || o.Loop == r.Loop {
					continue
				}
				for k, v := range o.Be.Carry {
					vk := o.St.snap(v).K()
					if k != acc && strings.Contains(vk, acc[i:]) && strings.Contains(vk, "all("+rq+")") {
						next = k
					}
				}
			}
		}
		if c.Obl("submit", con+" required", r.Pos, next != "", "%s sends the helpers of %s, but keeps what they require in %s, which nothing goes over", con, what, clip(acc, 80)) {
			need(next, r.Pos)
			// the loop over the rounds ends only when a round is empty
			for _, p := range tb.Path {
				mentions := false
				for _, t := range allFactKeys(p.F) {
					if strings.Contains(t, next) {
						mentions = true
					}
				}
				if mentions {
					iv := p.F.iv["len("+next+")"]
					c.Obl("submit", con+" rounds", p.Pos, iv.hi == 0 && iv.lo == 0, "%s can stop before everything required is sent", con)
				}
			}
		}
	}
	// leaving the loop early
	for _, r := range append(append([]*Row{}, tb.Path...), tb.Iter...) {
		for k, v := range r.F.b {
			if v && strings.HasPrefix(k, "lt(ix#") && strings.HasSuffix(k, ",len("+slice+"))") && (r.Loop == nil || !strings.Contains(r.Loop.Key, "len("+slice+")")) {
				c.Obl("submit", con+" left", r.Pos, false, "%s can leave the loop over %s early", con, what)
			}
		}
	}
	c.Obl("submit", con+" covered", fn.Pos(), ranged, "%s sends a helper but not what it requires (%s)", con, what)
}

func allFactKeys(f *Facts) (out []string) {
	for k := range f.b {
		out = append(out, k)
	}
	for k := range f.iv {
		out = append(out, k)
	}
	for k := range f.eq {
		out = append(out, k)
	}
	return
}

// monitor: the function that receives helpers.
func (c *Ctx) monitor() *ssa.Function {
	var rs []*ssa.Function
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op == token.ARROW && helperChan(in.X.Type()) {
						rs = append(rs, f)
					}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.RecvOnly && helperChan(s.Chan.Type()) {
							rs = append(rs, f)
						}
					}
				}
			}
		}
	}
	roots := c.rootsOf(rs)
	if len(roots) != 1 {
		c.Fail("write", "receiver", token.NoPos, "%d functions receive helpers, one was expected", len(roots))
		return nil
	}
	return roots[0]
}

func (c *Ctx) writesHelpers(fn *ssa.Function) {
	con := c.short(fn)
	tb := c.table("write", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool {
			return e.Kind == "recv" || e.Kind == "close" || e.Kind == "send" || e.Kind == "call" || e.Kind == "invoke"
		})
	})
	if tb == nil {
		return
	}
	type wrow struct {
		r      *Row
		side   string
		header bool
	}
	var rows []wrow
	sidesSeen := map[string]bool{}
	headerOf := map[string]string{}
	for _, r := range tb.Iter {
		var h, okT V
		helpers := 0
		closes := 0
		asked := false
		for i := range r.Ev {
			e := &r.Ev[i]
			switch e.Kind {
			case "recv":
				if helperChan(typeOf(e.Args[0])) {
					h, okT = e.Args[1], e.Args[2]
					helpers++
				} else if closes == 0 {
					asked = true
				}
			case "close":
				closes++
				if helperChan(typeOf(e.Args[0])) {
					c.Obl("end", con+" asked", e.Pos, asked, "%s closes the channel of helpers without being asked to", con)
				} else {
					c.Obl("end", con+" reported early", e.Pos, false, "%s reports its end and goes on", con)
				}
			}
		}
		if helpers == 0 {
			continue
		}
		if !c.Obl("write", con+" one", r.Pos, helpers == 1, "%s receives %d helpers in one round", con, helpers) {
			continue
		}
		got, known := r.F.b[okT.K()]
		if !c.Obl("write", con+" received", r.Pos, known && got, "%s goes on with a helper it may not have received", con) {
			continue
		}
		hk := h.K()
		field := func(n string) string { return "." + n + "(*(" + hk + "))" }
		// the side
		side := ""
		if s, ok := r.F.eq[field("Side")]; ok {
			side = strings.Trim(s, `"`)
		} else if iv, ok := r.F.iv["len("+field("Side")+")"]; ok && iv.hi == 0 {
			side = ""
		} else {
			side = "?"
		}
		// was it written before?
		seen := unk
		for _, t := range r.F.boolTerms() {
			if (t.Op == "get" || t.Op == "has") && len(t.Args) == 2 && mentionsField(t.Args[1].K(), hk, "Side") && mentionsField(t.Args[1].K(), hk, "Name") {
				seen = triOf(r.F.b[t.K()])
			}
		}
		var marks int
		var outs []*Event
		for i := range r.Ev {
			e := &r.Ev[i]
			switch e.Kind {
			case "mapset", "mapstore":
				if mentionsField(e.Args[1].K(), hk, "Side") && mentionsField(e.Args[1].K(), hk, "Name") {
					b, isC := isBoolConst(e.Args[2])
					if !isC || b {
						marks++
					}
				}
			case "call", "invoke":
				for _, a := range e.Args {
					if k := peel(a).K(); strings.HasPrefix(k, "$") && k != "$0" && isWriter(typeOf(a)) || strings.Contains(k, "dyn(") && isWriter(typeOf(a)) {
						outs = append(outs, e)
						break
					}
				}
			}
		}
		switch {
		case seen == yes:
			c.Obl("write", con+" again", r.Pos, len(outs) == 0, "%s writes a helper that was written before", con)
			continue
		case seen == unk:
			c.Obl("write", con+" decided", r.Pos, false, "%s handles a helper without finding out whether one of its side and name was written before", con)
			continue
		}
		if len(outs) == 0 {
			// nowhere to write to, or a side that does not exist
			none := side == "?"
			for _, t := range r.F.boolTerms() {
				if t.Op == "isnil" && strings.HasPrefix(t.Args[0].K(), "$") && r.F.b[t.K()] {
					none = true
				}
			}
			c.Obl("write", con+" dropped", r.Pos, none, "%s drops a helper of side %q", con, side)
			continue
		}
		if !c.Obl("write", con+" remembered", r.Pos, marks > 0, "%s writes a helper and does not remember that", con) {
			continue
		}
		sidesSeen[side] = true
		// all to one writer: the one of the side
		want := map[string]string{"": "$1", "go": "$1", "h": "$2", "c": "$3"}[side]
		header, descs, srcs, order := "", 0, 0, true
		for _, e := range outs {
			w := ""
			text := ""
			for _, a := range e.Args {
				k := peel(a).K()
				if isWriter(typeOf(a)) {
					w = k
				}
				text += k + " "
			}
			isNil := r.F.b["isnil("+want+")"]
			c.Obl("write", con+" writer "+side, e.Pos, w == want && !isNil || isNil && strings.Contains(w, "dyn("), "%s writes a helper of side %q to %s, not to %s", con, side, clip(w, 40), want)
			switch {
			case strings.Contains(text, field("Source")):
				srcs++
			case strings.Contains(text, field("Description")):
				descs++
				if srcs > 0 {
					order = false
				}
			case strings.Contains(text, hk):
				// something else of the helper
			case e.Kind == "call" && strings.Contains(e.Name, "eader"):
				header = e.Name
				if srcs+descs > 0 {
					order = false
				}
			}
		}
		c.Obl("write", con+" source", r.Pos, srcs == 1, "%s writes the source of a helper %d times", con, srcs)
		c.Obl("write", con+" order", r.Pos, order, "%s does not write header, description and source in this order", con)
		empty := false
		if iv, ok := r.F.iv["len("+field("Description")+")"]; ok && iv.hi == 0 {
			empty = true
		}
		c.Obl("write", con+" description", r.Pos, descs == 1 || empty && descs == 0, "%s writes the description of a helper %d times", con, descs)
		if header != "" {
			s := side
			if s == "go" {
				s = ""
			}
			if o, ok := headerOf[s]; ok {
				c.Obl("write", con+" header "+side, r.Pos, o == header, "%s writes the header %s for side %q as well as %s", con, header, side, o)
			}
			headerOf[s] = header
		}
		if side == "go" {
			side = ""
		}
		rows = append(rows, wrow{r, side, header != ""})
	}
	used := map[string]string{}
	for s, h := range headerOf {
		if o, ok := used[h]; ok {
			c.Fail("write", con+" header", fn.Pos(), "%s writes the header %s for sides %q and %q", con, h, s, o)
		}
		used[h] = s
	}
	// the sides there are
	for _, s := range c.sides() {
		c.Obl("write", con+" side "+s, fn.Pos(), sidesSeen[s] || s == "" && sidesSeen["go"], "%s never writes a helper of side %q", con, s)
	}
	// a header is written exactly once per side: some flag is false where it
	// is written and set there, and true where it is not
	for _, s := range []string{"", "h", "c"} {
		var with, without []*Row
		for _, w := range rows {
			if w.side == s {
				if w.header {
					with = append(with, w.r)
				} else {
					without = append(without, w.r)
				}
			}
		}
		if !c.Obl("write", con+" header of "+s, fn.Pos(), len(with) > 0, "%s never writes the header for side %q", con, s) {
			continue
		}
		flag := ""
		for k := range with[0].F.b {
			good := strings.HasPrefix(k, "lv") || strings.HasPrefix(k, "get(") || strings.HasPrefix(k, "has(")
			for _, r := range with {
				v, ok := r.F.b[k]
				if !ok || v {
					good = false
				}
				if strings.HasPrefix(k, "lv") {
					nv, ok := r.Be.Carry[k]
					if b, isC := isBoolConst(nv); !ok || !isC || !b {
						good = false
					}
				} else if !setsTrue(r, k) {
					good = false
				}
			}
			for _, r := range without {
				if v, ok := r.F.b[k]; !ok || !v {
					good = false
				}
			}
			if good && strings.HasPrefix(k, "lv") {
				if iv, ok := with[0].Loop.Init[k]; ok {
					b, isC := isBoolConst(iv)
					good = isC && !b
				}
				for _, r := range tb.Iter {
					inWith := false
					for _, w := range with {
						inWith = inWith || w == r
					}
					if nv, ok := r.Be.Carry[k]; ok && !inWith && nv.K() != k {
						if b, isC := isBoolConst(nv); !isC || !b || r.F.b[k] == false {
							good = false
						}
					}
				}
			}
			if good {
				flag = k
			}
		}
		c.Obl("write", con+" header once "+s, with[0].Pos, flag != "", "%s does not write the header for side %q exactly once, before the first helper", con, s)
	}
	// the end
	for _, r := range tb.Path {
		var last *Event
		ended, order := false, false
		for i := range r.Ev {
			e := &r.Ev[i]
			switch e.Kind {
			case "recv":
				if helperChan(typeOf(e.Args[0])) {
					v, ok := r.F.b[e.Args[2].K()]
					ended = ok && !v
				}
			case "close", "send":
				if !helperChan(typeOf(e.Args[0])) {
					last = e
					order = ended
				} else {
					ended = false
				}
			}
		}
		c.Obl("end", con+" empty", r.Pos, ended, "%s can end while helpers may still be sent or waiting", con)
		c.Obl("end", con+" reported", r.Pos, last != nil && order, "%s does not report its end", con)
	}
	c.Obl("end", con+" ends", fn.Pos(), len(tb.Path) > 0, "%s never ends", con)
}

func setsTrue(r *Row, k string) bool {
	t, ok := r.F.at[k].(*Term)
	if !ok || len(t.Args) != 2 {
		return false
	}
	for i := range r.Ev {
		e := &r.Ev[i]
		if (e.Kind == "mapset" || e.Kind == "mapstore") && len(e.Args) == 3 && e.Args[1].K() == t.Args[1].K() {
			b, isC := isBoolConst(e.Args[2])
			return !isC || b
		}
	}
	return false
}

func mentionsField(k, obj, field string) bool {
	return strings.Contains(k, "."+field+"(*("+obj+"))")
}

func isWriter(t types.Type) bool {
	if t == nil {
		return false
	}
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Writer" || n != nil && n.Obj().Name() == "Buffer"
}

// sides: the constants of the type of the helpers' sides.
func (c *Ctx) sides() (out []string) {
	p := c.SSA["generator"]
	if p == nil {
		return nil
	}
	h := c.namedType("generator", "Helper")
	if h == nil {
		return nil
	}
	st, ok := h.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var side types.Type
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Side" {
			side = st.Field(i).Type()
		}
	}
	for _, m := range p.Members {
		if k, ok := m.(*ssa.NamedConst); ok && side != nil && types.Identical(k.Type(), side) {
			out = append(out, strings.Trim(k.Value.Value.ExactString(), `"`))
		}
	}
	sort.Strings(out)
	return
}

func (c *Ctx) stops(mon *ssa.Function, senders []*ssa.Function) {
	// nothing the loop runs submits or waits for it
	var wait []*ssa.Function
	for _, f := range c.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && !helperChan(u.X.Type()) && recvOf(f) != nil && recvOf(mon) != nil && types.Identical(recvOf(f), recvOf(mon)) {
					wait = append(wait, f)
				}
			}
		}
	}
	bad := map[*ssa.Function]string{}
	for _, f := range senders {
		bad[f] = "submits a helper"
	}
	for _, f := range wait {
		bad[f] = "waits for its end"
	}
	runs := c.reachableFrom([]*ssa.Function{mon}, nil)
	n := 0
	for f := range runs {
		n++
		c.Obl("free", c.short(f), f.Pos(), bad[f] == "", "%s, which runs as part of %s, %s: nobody would receive it", c.short(f), c.short(mon), bad[f])
	}
	c.Stat("functions the loop runs", n)
	// closing
	closers := c.rootsOf(wait)
	if !c.Obl("stop", "closing", mon.Pos(), len(closers) == 1, "%d functions wait for the end of %s, one was expected", len(closers), c.short(mon)) {
		return
	}
	cl := closers[0]
	con := c.short(cl)
	tb := c.table("stop", cl, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "recv" || e.Kind == "close" || e.Kind == "send" })
	})
	if tb == nil {
		return
	}
	acts := 0
	for _, r := range tb.Path {
		var seq []string
		marked := ""
		for i := range r.Ev {
			e := &r.Ev[i]
			switch e.Kind {
			case "send", "close":
				seq = append(seq, "ask:"+e.Args[0].K())
			case "recv":
				seq = append(seq, "wait:"+e.Args[0].K())
			case "store":
				if b, ok := isBoolConst(e.Args[1]); ok && b {
					marked = strings.TrimSuffix(strings.TrimPrefix(e.Args[0].K(), "&"), "")
				}
			}
		}
		if len(seq) == 0 {
			// only if closed before
			before := false
			for _, t := range r.F.boolTerms() {
				if strings.HasPrefix(t.Op, ".") && r.F.b[t.K()] {
					before = true
				}
			}
			c.Obl("stop", con+" twice", r.Pos, before, "%s does nothing on a first call", con)
			continue
		}
		acts++
		c.Obl("stop", con+" waits", r.Pos, len(seq) == 2 && strings.HasPrefix(seq[0], "ask:") && strings.HasPrefix(seq[1], "wait:"), "%s does not ask the loop to end and then wait for it: %v", con, seq)
		c.Obl("stop", con+" remembers", r.Pos, marked != "", "%s does not remember that it was called", con)
	}
	c.Obl("stop", con+" acts", cl.Pos(), acts > 0, "%s never asks the loop to end", con)
	// where the loop is started, and where it is closed
	var starts, ends []*ssa.Function
	for _, ci := range c.callersOf(mon) {
		starts = append(starts, ci.Parent())
	}
	for _, ci := range c.callersOf(cl) {
		ends = append(ends, ci.Parent())
	}
	for _, f := range c.rootsOf(starts) {
		c.startsLoop(f, mon)
	}
	er := c.rootsOf(ends)
	c.Obl("stop", "closed", cl.Pos(), len(er) > 0, "%s is never called", con)
	isSender := map[*ssa.Function]bool{}
	for _, f := range senders {
		isSender[f] = true
	}
	for _, f := range er {
		c.endsLoop(f, cl, isSender)
	}
}

// startsLoop: the loop runs in a goroutine of its own whose end is waited for,
// and has a writer for every side.
func (c *Ctx) startsLoop(fn, mon *ssa.Function) {
	con := c.short(fn)
	name := c.short(mon)
	tb := c.table("stop", fn, func(ip *Interp) {
		setupEmission(c, ip)
		ip.GoInline = true
		withEvents(ip, func(e *Event) bool {
			return e.Kind == "go" || e.Kind == "gone" || e.Kind == "call" && (e.Name == name || strings.HasPrefix(e.Name, "(*sync.WaitGroup)"))
		})
	})
	if tb == nil {
		return
	}
	n := 0
	for _, r := range tb.Path {
		in := false
		adds, runs, dones, early := 0, 0, 0, false
		var args []V
		var goCall *Event
		for i := range r.Ev {
			e := &r.Ev[i]
			switch {
			case e.Kind == "go":
				in = true
			case e.Kind == "gone":
				in = false
			case e.Kind != "call":
			case e.Name == name:
				if runs == 0 && in {
					args = e.Args
					goCall = e
				}
				runs++
				early = adds == 0 || dones > 0
				c.Obl("stop", con+" own goroutine", e.Pos, in, "%s runs %s in place: nobody would submit", con, name)
			case strings.HasSuffix(e.Name, ".Add"):
				if len(e.Args) == 2 && e.Args[1].K() == "1" {
					adds++
				} else {
					adds += 2
				}
			case strings.HasSuffix(e.Name, ".Done"):
				dones++
				if runs == 0 {
					early = true
				}
			}
		}
		if runs == 0 {
			continue
		}
		n++
		c.Obl("stop", con+" counted", r.Pos, runs == 1 && adds == 1 && dones == 1 && !early, "%s does not announce %s before and its end after it runs (%d runs, %d announced, %d ended)", con, name, runs, adds, dones)
		distinct := map[string]bool{}
		for k := 1; k < len(args) && k <= 3; k++ {
			a := args[k]
			if i, ok := a.(*Iface); ok {
				a = i.X
			}
			raw := goCall.Raw[k]
			if i, ok := raw.(*Iface); ok {
				raw = i.X
			}
			isNil := a.K() == "nil"
			distinct[raw.K()] = true
			c.Obl("stop", con+" writers", r.Pos, !isNil, "%s starts %s without a writer for helpers of one side", con, name)
		}
		c.Obl("stop", con+" distinct writers", r.Pos, len(distinct) == 3, "%s gives %s the same writer for different sides", con, name)
	}
	c.Obl("stop", con+" started", fn.Pos(), n > 0, "%s never starts %s", con, name)
}

// endsLoop: the loop is closed and its end waited for before anything it wrote
// is looked at, and nothing is submitted afterwards.
func (c *Ctx) endsLoop(fn, cl *ssa.Function, isSender map[*ssa.Function]bool) {
	con := c.short(fn)
	name := c.short(cl)
	tb := c.table("stop", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" || e.Kind == "invoke" })
	})
	if tb == nil {
		return
	}
	mayLate := map[*ssa.Function]bool{}
	for _, r := range append(append([]*Row{}, tb.Path...), tb.Iter...) {
		closed, waited := r.Loop != nil, r.Loop != nil
		for i := range r.Ev {
			e := &r.Ev[i]
			if e.Kind == "call" && e.Name == name {
				closed = true
				continue
			}
			if e.Kind == "call" && strings.HasPrefix(e.Name, "(*sync.WaitGroup)") && strings.HasSuffix(e.Name, ".Wait") {
				waited = closed
				continue
			}
			if strings.Contains(e.Name, "bytes.Buffer") {
				if !waited {
					c.Fail("stop", con+" looks early", e.Pos, "%s looks at what was written before the loop that writes it has ended", con)
				}
			}
			if closed && e.Call != nil {
				for _, g := range c.callees(e.Call) {
					mayLate[g] = true
				}
			}
		}
		if r.Loop == nil {
			c.Obl("stop", con+" closes", r.Pos, closed && waited, "%s can finish without closing the loop and waiting for its end", con)
		}
	}
	var late []*ssa.Function
	for f := range mayLate {
		late = append(late, f)
	}
	for f := range c.reachableFrom(late, nil) {
		c.Obl("stop", con+" late "+c.short(f), f.Pos(), !isSender[f], "%s submits a helper after the loop was closed", c.short(f))
	}
}
