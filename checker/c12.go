package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: remembering answers changes no answer.

func init() { checks["C12"] = c12 }

// cacheTypes: types that keep a lock next to a map.
func (c *Ctx) cacheTypes() (out []*types.Named) {
	for _, pkg := range []string{"main", "parser", "translator", "generator"} {
		sp := c.SSA[pkg]
		if sp == nil {
			continue
		}
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := sp.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok || lockField(t.Type()) < 0 {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
					out = append(out, namedOf(t.Type()))
					break
				}
			}
		}
	}
	return
}

func c12(c *Ctx) {
	c.explain = "The methods of each cache are interpreted on every path and compared with a plain map keyed by all they are given; what a remembered question reads is followed through everything it calls and must be fixed once the translator exists; the remembered answers are followed, by alias flow, to every write."
	c.Rule("look: a remembered answer is reported exactly when one was stored under all of the question's parts, and is the one stored")
	c.Rule("store: an answer is stored under all of the question's parts, under the same key it is looked up with, and nothing else is stored or dropped")
	c.Rule("question: a function that remembers its answers looks up and stores under all it is asked, no other function uses its cache, and the remembered answer is the one given")
	c.Rule("stable: what a remembered question is answered from is not changed once the translator exists")
	c.Rule("intact: an answer handed out is not modified")
	cts := c.cacheTypes()
	for _, t := range cts {
		c.cacheMethods(t)
	}
	memo := c.memoFunctions(cts)
	memo = append(memo, c.questions(memo, cts)...)
	c.stable(memo)
	c.intact(memo, cts)
	c.Stat("caches", len(cts))
	c.Stat("remembered questions", len(memo))
	c.Floor("look", 4)
	c.Floor("store", 5)
	c.Floor("stable", 4)
	c.Floor("intact", 100)
	if len(memo) < 3 {
		c.Fail("stable", "remembered questions", token.NoPos, "only %d functions found that look up and store remembered answers", len(memo))
	}
}

// cacheMap: the value is the map kept by the receiver.
func cacheMap(v V) bool {
	t, ok := peel(v).(*Term)
	if !ok || !strings.HasPrefix(t.Op, ".") || len(t.Args) != 1 {
		return false
	}
	_, isMap := typeOf(v).Underlying().(*types.Map)
	k := t.Args[0].K()
	return isMap && (k == "*($0)" || k == "$0")
}

func (c *Ctx) cacheMethods(t *types.Named) {
	name := t.Obj().Name()
	keys := map[string]string{} // key of a question, as a text over its parts
	var keyPos token.Pos
	ms := c.Prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		fn := c.Prog.MethodValue(ms.At(i))
		if fn == nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || !fn.Object().Exported() {
			continue
		}
		res := fn.Signature.Results()
		n := fn.Signature.Params().Len()
		con := name + "." + fn.Name()
		kind := "look"
		if res.Len() == 0 {
			kind = "store"
		}
		tb := c.table(kind, fn, func(ip *Interp) {
			setupEmission(c, ip)
			inl := ip.Inline
			ip.Inline = func(f *ssa.Function) bool {
				r := recvOf(f)
				return r != nil && namedOf(derefT(r)) != nil && namedOf(derefT(r)).Obj() == t.Obj() || inl(f)
			}
			withEvents(ip, func(e *Event) bool { return e.Kind == "mapdelete" })
		})
		if tb == nil {
			continue
		}
		c.Obl(kind, con+" paths", fn.Pos(), len(tb.Path) > 0 && len(tb.Iter) == 0, "%s loops over what is kept, or never returns", con)
		for _, r := range tb.Path {
			if kind == "look" {
				c.lookPath(con, fn, r, n, keys)
			} else {
				c.storePath(con, fn, r, n, keys)
			}
		}
		keyPos = fn.Pos()
	}
	if len(keys) > 0 {
		ks := sortedStr(keys)
		c.Obl("store", name+" key", keyPos, len(ks) == 1, "%s uses different keys for one question: %s", name, strings.Join(ks, " and "))
	}
}

// wholeKey: every part of the question, each once, is in the key.
func wholeKey(k V, n int) bool {
	s := k.K()
	for i := 1; i <= n; i++ {
		if !hasParam(k, i) {
			return false
		}
	}
	return s != ""
}

func hasParam(k V, i int) bool {
	switch k := k.(type) {
	case *StructV:
		for _, f := range k.F {
			if f != nil && hasParam(f, i) {
				return true
			}
		}
		return false
	case *Iface:
		return hasParam(k.X, i)
	case *Term:
		return k.Op == "$"+string(rune('0'+i)) && len(k.Args) == 0
	}
	return k.K() == "$"+string(rune('0'+i))
}

func (c *Ctx) lookPath(con string, fn *ssa.Function, r *Row, n int, keys map[string]string) {
	ret := make([]V, len(r.Ret))
	for i, v := range r.Ret {
		ret[i] = r.St.snap(v)
	}
	// the outcome of the lookup on this path
	hit, have := no, false
	var key V
	for _, t := range r.F.boolTerms() {
		if t.Op == "has" && len(t.Args) == 2 && cacheMap(t.Args[0]) {
			hit, have, key = triOf(r.F.b[t.K()]), true, t.Args[1]
		}
		if t.Op == "isnil" && len(t.Args) == 1 && cacheMap(t.Args[0]) && r.F.b[t.K()] {
			have = true // nothing was ever stored
		}
	}
	last := ret[len(ret)-1]
	if t, ok := last.(*Term); ok && t.Op == "has" && len(t.Args) == 2 && cacheMap(t.Args[0]) && len(ret) <= 2 && !have {
		// the outcome of the lookup is the answer, undecided
		keys[t.Args[1].K()] = ""
		c.Obl("look", con, fn.Pos(), wholeKey(t.Args[1], n), "%s looks under %s, not under all it is asked for", con, t.Args[1].K())
		if len(ret) == 2 {
			g, ok := ret[0].(*Term)
			same := ok && g.Op == "get" && len(g.Args) == 2 && cacheMap(g.Args[0]) && g.Args[1].K() == t.Args[1].K()
			c.Obl("look", con+" answer", fn.Pos(), same, "%s answers %s, not what was stored", con, clip(ret[0].K(), 100))
		}
		return
	}
	if !c.Obl("look", con+" decided", fn.Pos(), have, "%s answers without looking up what is remembered", con) {
		return
	}
	if key != nil {
		keys[key.K()] = ""
		c.Obl("look", con+" key", fn.Pos(), wholeKey(key, n), "%s looks under %s, not under all it is asked for", con, key.K())
	}
	okb, isC := isBoolConst(last)
	good := isC && okb == (hit == yes)
	if t, ok := last.(*Term); ok && t.Op == "has" && key != nil {
		good = t.Args[1].K() == key.K()
	}
	c.Obl("look", con+" found", fn.Pos(), good, "%s reports %s where an answer being remembered is %s", con, clip(last.K(), 60), hit)
	if hit == yes && len(ret) == 2 {
		t, ok := ret[0].(*Term)
		good := ok && t.Op == "get" && len(t.Args) == 2 && cacheMap(t.Args[0]) && t.Args[1].K() == key.K()
		c.Obl("look", con+" answer", fn.Pos(), good, "%s answers %s, not what was stored", con, clip(ret[0].K(), 100))
	}
}

func (c *Ctx) storePath(con string, fn *ssa.Function, r *Row, n int, keys map[string]string) {
	var fresh []string
	writes := 0
	del := false
	known := unk
	for _, t := range r.F.boolTerms() {
		if t.Op == "has" && len(t.Args) == 2 && cacheMap(t.Args[0]) && wholeKey(t.Args[1], 1) {
			known = triOf(r.F.b[t.K()])
		}
	}
	params := n
	val := ""
	if last := fn.Params[len(fn.Params)-1]; n > 1 && !c.isKeyPart(fn, last) {
		params, val = n-1, "$"+string(rune('0'+n))
	}
	for _, e := range r.Ev {
		switch e.Kind {
		case "store":
			if len(e.Args) == 2 && strings.Contains(e.Args[0].K(), "$0") {
				// the map may be created while there is none
				isNew := e.Args[1].K() == "m{}"
				empty := false
				for _, t := range r.F.boolTerms() {
					if t.Op == "isnil" && cacheMap(t.Args[0]) && r.F.b[t.K()] {
						empty = true
					}
				}
				c.Obl("store", con+" map", e.Pos, isNew && empty, "%s replaces what is remembered", con)
				fresh = append(fresh, e.Args[1].K())
			}
		case "mapstore", "mapset":
			if len(e.Args) != 3 || e.Kind == "mapstore" && !cacheMap(e.Args[0]) {
				continue
			}
			writes++
			keys[e.Args[1].K()] = ""
			c.Obl("store", con+" key", e.Pos, wholeKey(e.Args[1], params), "%s stores under %s, not under all it is given", con, e.Args[1].K())
			good := val == "" || e.Args[2].K() == val
			c.Obl("store", con+" answer", e.Pos, good, "%s stores %s, not the answer it is given", con, clip(e.Args[2].K(), 80))
		case "mapdelete":
			del = true
			keys[e.Args[1].K()] = ""
			c.Obl("store", con+" key", e.Pos, wholeKey(e.Args[1], n), "%s drops %s", con, e.Args[1].K())
		}
	}
	_ = fresh
	if strings.Contains(fn.Name(), "Delete") || strings.Contains(fn.Name(), "Remove") || del {
		c.Obl("store", con+" dropped", fn.Pos(), (del || known == no) && writes == 0, "%s does not drop what is remembered", con)
		return
	}
	c.Obl("store", con+" stored", fn.Pos(), writes == 1 || writes == 0 && known == yes, "%s stores %d answers", con, writes)
}

// isKeyPart: the parameter is used in the key of a lookup or an update.
func (c *Ctx) isKeyPart(fn *ssa.Function, p *ssa.Parameter) bool {
	// an answer is stored as it is; parts of a question are strings and scopes
	// that the lookup takes as well
	t := recvOf(fn)
	ms := c.Prog.MethodSets.MethodSet(t)
	n := fn.Signature.Params().Len()
	for i := 0; i < ms.Len(); i++ {
		g := c.Prog.MethodValue(ms.At(i))
		if g != nil && g.Signature.Results().Len() > 0 && g.Signature.Params().Len() >= n {
			return true
		}
	}
	return false
}

// memoFunctions: functions that look up and store in one cache.
func (c *Ctx) memoFunctions(cts []*types.Named) (out []*ssa.Function) {
	isCache := func(f *ssa.Function) *types.Named {
		r := recvOf(f)
		if r == nil {
			return nil
		}
		n := namedOf(derefT(r))
		for _, t := range cts {
			if n != nil && n.Obj() == t.Obj() {
				return t
			}
		}
		return nil
	}
	for _, f := range c.Funcs {
		if isCache(f) != nil {
			continue
		}
		looks, stores := false, false
		for _, h := range withAnon(f) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						for _, g := range c.callees(ci) {
							if isCache(g) != nil {
								if g.Signature.Results().Len() > 0 {
									looks = true
								} else {
									stores = true
								}
							}
						}
					}
				}
			}
		}
		if looks && f.Parent() == nil || stores && f.Parent() == nil {
			out = append(out, f)
		}
	}
	return
}

// stable: the translator's fields the questions are answered from are set up
// once.
func (c *Ctx) stable(memo []*ssa.Function) {
	tr := c.namedType("translator", "Translator")
	newf := c.Anchor("translator", "", "New")
	if tr == nil || newf == nil {
		return
	}
	reads := map[string]bool{}
	reach := c.reachableFrom(memo, nil)
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(derefT(fa.X.Type()))
				if n == nil || n.Obj() != tr.Obj() {
					continue
				}
				ft := derefT(derefT(fa.Type()))
				if lockField(ft) >= 0 {
					continue
				}
				reads[fieldName(derefT(fa.X.Type()), fa.Field)] = true
			}
		}
	}
	// set-up: New and what only it uses
	setup := map[*ssa.Function]bool{newf: true}
	for again := true; again; {
		again = false
		for _, f := range c.Funcs {
			if setup[f] {
				continue
			}
			cs := c.callersOf(f)
			ok := len(cs) > 0
			if f.Parent() != nil && setup[f.Parent()] {
				ok = true
			}
			for _, ci := range cs {
				if !setup[ci.Parent()] {
					ok = false
				}
			}
			if ok {
				setup[f], again = true, true
			}
		}
	}
	inits := c.initOnly()
	a := &aliasFlow{p: c.Program, exempt: func(f *ssa.Function) bool { return setup[f] || inits[f] }}
	a.seed = func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		n := namedOf(derefT(fa.X.Type()))
		return n != nil && n.Obj() == tr.Obj() && reads[fieldName(derefT(fa.X.Type()), fa.Field)]
	}
	a.solve()
	ws, _ := a.writes()
	for _, w := range ws {
		c.Fail("stable", c.short(w.Fn)+" "+w.What, w.Pos, "%s, which remembered answers depend on, is written after the translator is set up", w.What)
	}
	names := make([]string, 0, len(reads))
	for n := range reads {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.Obl("stable", "Translator."+n, newf.Pos(), true, "")
	}
}

// intact: answers of functions that remember them are not written to.

func (c *Ctx) intact(memo []*ssa.Function, cts []*types.Named) {
	isMemo := map[*ssa.Function]bool{}
	for _, f := range memo {
		isMemo[f] = true
	}
	slice := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Slice)
		return ok
	}
	a := &aliasFlow{p: c.Program}
	a.seed = func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if e, isE := v.(*ssa.Extract); isE {
			call, ok = e.Tuple.(*ssa.Call)
		}
		if !ok || !slice(v.Type()) {
			return false
		}
		for _, g := range c.callees(call) {
			if isMemo[g] && g != call.Parent() {
				return true
			}
			if r := recvOf(g); r != nil {
				for _, t := range cts {
					if n := namedOf(derefT(r)); n != nil && n.Obj() == t.Obj() {
						return true
					}
				}
			}
		}
		return false
	}
	a.solve()
	ws, sites := a.writes()
	bad := map[*ssa.Function]bool{}
	for _, w := range ws {
		if r := recvOf(w.Fn); r != nil && lockField(r) >= 0 {
			continue
		}
		bad[w.Fn] = true
		c.Fail("intact", c.short(w.Fn)+" "+w.What, w.Pos, "an answer that is remembered is modified (%s): the next to ask gets the modified one", w.What)
	}
	for _, f := range c.Funcs {
		if !bad[f] {
			c.Obl("intact", c.short(f), f.Pos(), true, "")
		}
	}
	c.Stat("intact: writes judged", sites)
}

// questions: in every function that remembers its answers, what is looked up
// and stored is keyed by all the function is asked.
func (c *Ctx) questions(memo []*ssa.Function, cts []*types.Named) []*ssa.Function {
	isCache := func(f *ssa.Function) bool {
		r := recvOf(f)
		if f == nil || r == nil {
			return false
		}
		n := namedOf(derefT(r))
		for _, t := range cts {
			if n != nil && n.Obj() == t.Obj() {
				return true
			}
		}
		return false
	}
	// helpers are looked at as part of the functions that use them
	roots := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if seen[f] {
			return
		}
		seen[f] = true
		cs := c.callersOf(f)
		if c.isBaseline(f) || len(cs) == 0 {
			roots[f] = true
			return
		}
		for _, ci := range cs {
			up(ci.Parent())
		}
	}
	for _, f := range memo {
		up(f)
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	type use struct {
		fn      *ssa.Function
		key     string
		missing string
		pos     token.Pos
	}
	users := map[string]map[string]bool{} // cache -> functions
	uses := map[string][]use{}            // cache and key -> what is known of the rest of the question
	for _, fn := range list {
		con := c.short(fn)
		tb := c.table("question", fn, func(ip *Interp) {
			setupEmission(c, ip)
			withEvents(ip, func(e *Event) bool { return e.Kind == "call" })
			inl := ip.Inline
			ip.Inline = func(f *ssa.Function) bool { return !isCache(f) && inl(f) }
		})
		if tb == nil {
			continue
		}
		hits := 0
		for _, r := range append(append([]*Row{}, tb.Path...), tb.Iter...) {
			atReturn := r.Loop == nil && len(r.Ret) > 0
			for i := range r.Ev {
				e := &r.Ev[i]
				if e.Kind != "call" || e.Call == nil || len(e.Args) < 2 {
					continue
				}
				g := e.Call.Common().StaticCallee()
				if !isCache(g) {
					continue
				}
				cache := r.St.snap(e.Args[0]).K()
				key := e.Args[1:]
				look := g.Signature.Results().Len() > 0
				var val V
				if !look && c.valueParam(g) {
					key, val = key[:len(key)-1], key[len(key)-1]
				}
				if users[cache] == nil {
					users[cache] = map[string]bool{}
				}
				users[cache][con] = true
				ks := cache
				for _, k := range key {
					ks += " | " + r.St.snap(k).K()
				}
				missing := ""
				for p := 1; p < len(fn.Params); p++ {
					name := "$" + string(rune('0'+p))
					in := false
					for _, k := range key {
						if strings.Contains(r.St.snap(k).K(), name) {
							in = true
						}
					}
					if in {
						continue
					}
					f := e.Facts
					if f == nil {
						f = r.F
					}
					known := factsAbout(f, name)
					if _, isSlice := fn.Params[p].Type().Underlying().(*types.Slice); !isSlice {
						// a part of the question that is neither in the key nor
						// pinned down where the key is used
						pinned := strings.Contains(known, name+"==")
						c.Obl("question", con+" "+fn.Params[p].Name(), e.Pos, pinned, "%s uses the key %s without the %s it is asked for", con, clip(ks, 120), fn.Params[p].Name())
					}
					missing += name + "{" + known + "}"
				}
				uses[ks] = append(uses[ks], use{fn, ks, missing, e.Pos})
				if look && g.Signature.Results().Len() == 2 && atReturn {
					res := g.Signature.Results()
					_ = res
					for k, v := range r.F.b {
						if !v || !strings.HasPrefix(k, "#1(call:") || !strings.Contains(k, opSuffix(g.Name())) {
							continue
						}
						t, ok := r.F.at[k].(*Term)
						if !ok {
							continue
						}
						call, ok := t.Args[0].(*Term)
						if !ok || !sameArgs(call.Args, e.Args) {
							continue
						}
						hits++
						got := r.St.snap(r.Ret[0])
						a, ok := resultOf(got, 0)
						c.Obl("question", con+" answer", r.Pos, ok && a.K() == call.K(), "%s answers %s, not what it remembered", con, clip(got.K(), 100))
					}
				}
				if val != nil && atReturn {
					got := r.St.snap(r.Ret[0])
					c.Obl("question", con+" stored", e.Pos, r.St.snap(val).K() == got.K(), "%s remembers %s but answers %s", con, clip(r.St.snap(val).K(), 80), clip(got.K(), 80))
				}
			}
		}
		c.Stat("remembered answers handed out: "+con, hits)
	}
	var ks []string
	for k := range uses {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		first := uses[k][0]
		for _, u := range uses[k] {
			c.Obl("question", c.short(u.fn)+" one question", u.pos, u.missing == first.missing, "%s uses the key %s for different questions: %s and %s", c.short(u.fn), clip(k, 100), clip(u.missing, 80), clip(first.missing, 80))
		}
	}
	for cache, us := range users {
		var ns []string
		for n := range us {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		c.Obl("question", "users "+ns[len(ns)-1], list[0].Pos(), len(ns) == 1, "%s remembers the answers of %s", clip(cache, 60), strings.Join(ns, " and "))
	}
	return list
}

// valueParam: the last parameter is the answer, not a part of the question.
func (c *Ctx) valueParam(g *ssa.Function) bool {
	n := g.Signature.Params().Len()
	return n > 1 && !c.isKeyPart(g, g.Params[len(g.Params)-1])
}

func sameArgs(a, b []V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].K() != b[i].K() {
			return false
		}
	}
	return true
}

// factsAbout: all that is known of a parameter.
func factsAbout(f *Facts, name string) string {
	var out []string
	for k, v := range f.b {
		if strings.Contains(k, name) && !strings.Contains(k, "call:") {
			if strings.HasPrefix(k, "eqs("+name+",") && v {
				out = append(out, name+"=="+k)
				continue
			}
			out = append(out, k+"="+triOf(v).String())
		}
	}
	for k, v := range f.iv {
		if strings.Contains(k, name) && !strings.Contains(k, "call:") {
			out = append(out, fmt.Sprintf("%s in %d..%d not %v", k, v.lo, v.hi, v.neq))
		}
	}
	for k, v := range f.eq {
		if strings.Contains(k, name) && !strings.Contains(k, "call:") {
			out = append(out, k+"=="+v)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}
