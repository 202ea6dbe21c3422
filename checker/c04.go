package main

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = c04 }

// A gate: an entity is emitted exactly when all the conditions hold and it has
// not been emitted already.
type gate struct {
	conds []string
	never bool // this kind is generated elsewhere
	seen  bool // may be left out as a repeat
}

type gateList struct {
	what  string
	match func(key string) bool
	kinds map[string]gate // by kind name; "" for entities without a kind
	other gate            // kinds not listed
	list  bool            // emission is collecting into a list of declarations
	// atLeast: kinds for which a generating iteration must exist
	need []string
}

func (c *Ctx) kindName(k int) string { return kindNames[k] }

// checkKinds verifies the numbering the analysis uses.
func (c *Ctx) checkKinds() bool {
	sp := c.SSA["translator"]
	for i, n := range []string{"TypeKind", "PlainTypeKind", "StructKind", "OpaqueStructKind", "UnionKind", "FunctionKind", "EnumKind"} {
		m, ok := sp.Members[n].(*ssa.NamedConst)
		if !ok {
			c.Fail("vocabulary", n, 0, "the declaration kind %s is gone; the analysis does not know what replaced it", n)
			return false
		}
		v, _ := constant.Int64Val(m.Value.Value)
		kindNum[kindNames[i]] = int(v)
		kindByNum[int(v)] = kindNames[i]
	}
	return true
}

var kindNum = map[string]int{}
var kindByNum = map[int]string{}

// emits: what an iteration writes about its entity.
func emits(r *Row, list bool) (string, bool) {
	for _, e := range r.Ev {
		switch e.Kind {
		case "append":
			if list && strings.HasSuffix(e.Name, "translator.CDecl") {
				return "collects it", true
			}
		case "write":
			if !list && len(e.Args) > 0 && e.Args[0].K() == "$1" {
				return "writes it", true
			}
		case "call":
			if list {
				continue
			}
			n := opSuffix(e.Name)
			if n == "writeSpace" || n == "writeStartConst" || n == "writeEndConst" || n == "writeTextBlock" {
				continue
			}
			for _, a := range e.Args {
				if a.K() == "$1" {
					return "calls " + n, true
				}
			}
		}
	}
	return "", false
}

func c04(c *Ctx) {
	c.explain = "The generator's loops over declarations are interpreted for an arbitrary element: each iteration path is reduced to what it establishes about the element (kind, completeness, accepted by which rules, seen before) and whether it generates something for it. Generating requires every stated condition; leaving out requires a stated reason. Sets of things seen are only filled by iterations that generate."
	c.Rule("all: a loop that goes through what was declared and makes something of each is not left before the last, but with an error")
	c.Rule("gate: an iteration that generates something has established every condition the property states for that kind of declaration")
	c.Rule("complete: an iteration that generates nothing has established one of the stated reasons")
	c.Rule("seen: a name is recorded as already generated only by an iteration that generates it, for the same kind of declaration")
	c.Rule("ignored: nothing is collected from a header that is listed as ignored, and nothing else is lost")
	if !c.checkKinds() {
		return
	}
	accType := gate{conds: []string{"acc:type/name=yes"}}
	accTypeSeen := gate{conds: []string{"acc:type/name=yes"}, seen: true}
	tagGate := gate{conds: []string{"acc:public/tag=yes", "acc:type/tag=yes"}, seen: true}
	never := gate{never: true}
	declGate := gate{conds: []string{"empty:name=no", "acc:public/name=yes"}, seen: true}
	starts := func(p string) func(string) bool {
		return func(k string) bool { return strings.HasPrefix(k, p) }
	}
	typedefs := starts("len(.typedefs(")
	declares := starts("len(.declares(")
	c.gates("generator", "Generator", "WriteTypedefs", nil, []gateList{
		{what: "typedefs", match: typedefs, kinds: map[string]gate{
			"type": accType, "plain type": never, "function": accType, "struct": accTypeSeen, "opaque struct": accTypeSeen, "union": accTypeSeen,
			"enum": {conds: []string{"acc:type/name=yes", "complete=no"}}},
			need: []string{"type", "struct", "opaque struct", "union", "function", "enum"}},
		{what: "tags", match: func(k string) bool {
			return strings.HasPrefix(k, "len(") && strings.Contains(k, ".tagMap(") || strings.HasPrefix(k, "iter(.tagMap(")
		}, kinds: map[string]gate{"struct": tagGate, "opaque struct": tagGate, "union": tagGate}, other: never,
			need: []string{"struct", "opaque struct", "union"}},
	})
	c.gates("generator", "Generator", "WriteDeclares", nil, []gateList{
		{what: "declarations", match: declares, kinds: map[string]gate{
			"struct": declGate, "opaque struct": declGate, "union": declGate,
			"enum":     {conds: []string{"complete=no", "acc:public/name=yes"}, seen: true},
			"function": {conds: []string{"acc:function/name=yes"}, seen: true}}, other: never,
			need: []string{"struct", "opaque struct", "union", "function", "enum"}},
	})
	collected := func(k string) bool {
		return strings.HasPrefix(k, "len(seq(") || strings.HasPrefix(k, "len(sorted(") || strings.HasPrefix(k, "len([")
	}
	c.gates("generator", "Generator", "WriteConst", nil, []gateList{
		{what: "enum tags", match: starts("iter(.tagMap("), kinds: map[string]gate{
			"enum": {conds: []string{"complete=yes", "acc:type/tag=yes"}}}, other: never, list: true, need: []string{"enum"}},
		{what: "collected enums", match: collected, kinds: map[string]gate{}, other: gate{seen: true}},
		{what: "enum typedefs", match: typedefs, kinds: map[string]gate{
			"enum": {conds: []string{"complete=yes", "acc:type/name=yes"}, seen: true}}, other: never, need: []string{"enum"}},
		{what: "enum and constant declarations", match: declares, kinds: map[string]gate{
			"enum": {conds: []string{"complete=yes", "empty:name=yes|acc:type/name=yes"}, seen: true},
			"type": {conds: []string{"static=no", "empty:name=no", "const=yes", "acc:public/name=yes"}}}, other: never, need: []string{"enum", "type"}},
	})
	for _, f := range []string{"expandEnum", "expandEnumAnonymous"} {
		c.gates("generator", "Generator", f, nil, []gateList{
			{what: "enumerators", match: func(k string) bool { return strings.HasPrefix(k, "len(.Members(") }, kinds: map[string]gate{},
				other: gate{conds: []string{"acc:const/name=yes", "empty:xf:const/name=no"}, seen: true}},
		})
	}
	c.gates("generator", "Generator", "writeDefinesGroup", nil, []gateList{
		{what: "macros", match: starts("len($2"), kinds: map[string]gate{},
			other: gate{conds: []string{"define=yes", "nil:Value=no|eq:.Expression=xf=no"}}},
	})
	c.collects()
	c.throughAll("all", "what was declared", func(pkg, name, file, over string) bool {
		return file == "generator.go" || file == "ast_walker.go" || over == "Translator.valueMap"
	})
	c.Floor("all", 1)
	c.Floor("gate", 40)
	c.Floor("complete", 40)
	c.Floor("seen", 8)
	c.Floor("ignored", 6)
}

// gates decides the lists of one function.
func (c *Ctx) gates(pkg, typ, name string, inline []string, lists []gateList) {
	fn := c.Anchor(pkg, typ, name)
	if fn == nil {
		return
	}
	t := c.table("gate", fn, func(ip *Interp) { setupEmission(c, ip, inline...) })
	if t == nil {
		return
	}
	type setUse struct {
		kinds map[string]bool
		keys  map[string]bool
	}
	written := map[string]*setUse{}
	matched := map[string]bool{}
	have := map[string]bool{}
	for _, r := range t.Iter {
		var gl *gateList
		for i := range lists {
			if lists[i].match(r.Loop.Key) {
				gl = &lists[i]
			}
		}
		if gl == nil {
			if how, ok := emits(r, false); ok {
				c.Obl("gate", name+" loop over "+clip(r.Loop.Key, 60), r.Pos, false, "%s %s in a loop over %s, which is none of the lists of declarations", name, how, clip(r.Loop.Key, 120))
			}
			continue
		}
		matched[gl.what] = true
		how, emit := emits(r, gl.list)
		r.addNameEq()
		marks := setMarks(r)
		for _, k := range r.kinds() {
			kn := kindByNum[k]
			g, ok := gl.kinds[kn]
			if !ok {
				g = gl.other
			}
			con := fmt.Sprintf("%s, %s (%s)", name, gl.what, kn)
			if len(gl.kinds) == 0 {
				con = fmt.Sprintf("%s, %s", name, gl.what)
			}
			con += " {" + r.describe() + "}"
			reason := ""
			for _, cd := range g.conds {
				if refuted(r, cd) {
					reason = cd
				}
			}
			if g.never {
				reason = "generated elsewhere"
			}
			if reason == "" && g.seen && r.hold("seen=yes") == yes {
				reason = "a repeat"
			}
			if emit {
				have[gl.what+"/"+kn] = true
				bad := ""
				for _, cd := range g.conds {
					if r.hold(cd) != yes {
						bad = cd
					}
				}
				if g.never {
					bad = "not a kind generated here"
				}
				c.Obl("gate", con, r.Pos, bad == "", "%s %s for one of the %s (%s) without having established %q; established: %s", name, how, gl.what, kn, bad, r.describe())
			} else {
				c.Obl("complete", con, r.Pos, reason != "", "%s generates nothing for one of the %s (%s) though no reason to leave it out is established: %s", name, gl.what, kn, r.describe())
			}
			for _, m := range marks {
				if written[m.set] == nil {
					written[m.set] = &setUse{map[string]bool{}, map[string]bool{}}
				}
				if len(r.kinds()) <= 2 {
					written[m.set].kinds[nsOf(kn)] = true
				}
				written[m.set].keys[m.key] = true
				c.Obl("seen", con+" marks "+m.key, r.Pos, emit || r.hold("seen=yes") == yes || r.rejects(m.key), "%s records %s as generated on a path that does not generate it: %s", name, m.key, r.describe())
			}
		}
	}
	// what a lookup relies on
	for _, r := range t.Iter {
		for _, k := range r.kinds() {
			for _, u := range setLooks(r) {
				w := written[u.set]
				con := fmt.Sprintf("%s looks up %s (%s)", name, u.key, kindByNum[k])
				if w == nil {
					continue // a set filled elsewhere (passed in)
				}
				ok := w.keys[u.key] && len(w.keys) == 1
				c.Obl("seen", con, r.Pos, ok, "%s leaves out a declaration whose %s is in a set that is filled with %s", name, u.key, strings.Join(sortedKeys(w.keys), ", "))
				if len(r.kinds()) <= 2 {
					bad := ""
					for n := range w.kinds {
						if n != nsOf(kindByNum[k]) {
							bad = n
						}
					}
					c.Obl("seen", con+" namespace", r.Pos, bad == "", "%s leaves out a %s because of a set that also records %s declarations", name, kindByNum[k], bad)
				}
			}
		}
	}
	for _, gl := range lists {
		c.Obl("gate", name+" goes over the "+gl.what, fn.Pos(), matched[gl.what], "%s no longer goes over the %s", name, gl.what)
		for _, k := range gl.need {
			c.Obl("gate", name+" generates "+k+" of "+gl.what, fn.Pos(), have[gl.what+"/"+k], "%s generates nothing for any %s among the %s", name, k, gl.what)
		}
	}
}

// refuted: the negation of a condition (or of all its alternatives) is established.
func refuted(r *Row, cd string) bool {
	for _, a := range strings.Split(cd, "|") {
		i := strings.LastIndexByte(a, '=')
		got := r.atomsOf()[a[:i]]
		if got == unk || got.String() == a[i+1:] {
			return false
		}
	}
	return true
}

// rejects: the iteration leaves the entity out for a reason that depends only
// on the string called key, so that a repeat would be left out as well.
func (r *Row) rejects(key string) bool {
	for a, v := range r.atomsOf() {
		if strings.HasPrefix(a, "acc:") && strings.HasSuffix(a, "/"+key) && v == no || a == "empty:"+key && v == yes {
			return true
		}
	}
	return false
}

// nsOf: struct and opaque struct share a namespace.
func nsOf(kind string) string {
	if kind == "opaque struct" {
		return "struct"
	}
	return kind
}

type setRef struct{ set, key string }

// setMarks: map entries set to true (or present) by an iteration.
func setMarks(r *Row) (out []setRef) {
	for _, e := range r.Ev {
		if e.Kind != "mapset" && e.Kind != "mapstore" {
			continue
		}
		if len(e.Args) != 3 {
			continue
		}
		if b, ok := isBoolConst(e.Args[2]); ok && !b {
			continue
		}
		out = append(out, setRef{setID(e.Args[0]), subj(e.Args[1])})
	}
	return
}

func setLooks(r *Row) (out []setRef) {
	for _, t := range r.F.boolTerms() {
		if (t.Op == "get" || t.Op == "has") && len(t.Args) == 2 && r.F.b[t.K()] {
			if id := setID(t.Args[0]); id != "" {
				out = append(out, setRef{id, subj(t.Args[1])})
			}
		}
	}
	return
}

// setID: the identity of a map object, however often loops have summarised it.
func setID(v V) string {
	if m, ok := v.(*MapV); ok {
		return m.K()
	}
	k := v.K()
	if i := strings.LastIndex(k, "#h"); i >= 0 && strings.HasPrefix(k, "seq") {
		n := 0
		for j := i + 2; j < len(k) && k[j] >= '0' && k[j] <= '9'; j++ {
			n = n*10 + int(k[j]-'0')
		}
		return fmt.Sprintf("map%d", n)
	}
	return k
}

// addNameEq: the comparison of a macro's expression with its own name.
func (r *Row) addNameEq() {
	for _, t := range r.F.boolTerms() {
		if t.Op != "eqs" || len(t.Args) != 2 {
			continue
		}
		a, b := subj(t.Args[0]), subj(t.Args[1])
		if strings.HasPrefix(b, "xf:") {
			a, b = b, a
		}
		bt, ok := peel(t.Args[1]).(*Term)
		if x, k := peel(t.Args[0]).(*Term); k && x.Op == ".Expression" {
			bt, ok = x, true
		}
		if ok && bt.Op == ".Expression" && a == "xf:const/name" {
			r.atomsOf()["eq:.Expression=xf"] = triOf(r.F.b[t.K()])
		}
	}
}

// collects: which declarations and macros of the parsed headers are kept.
func (c *Ctx) collects() {
	isList := func(e *Event) bool {
		return e.Kind == "append" && strings.HasSuffix(e.Name, "translator.CDecl")
	}
	n := func(r *Row) (k int) {
		for i := range r.Ev {
			if isList(&r.Ev[i]) {
				k++
			}
		}
		return
	}
	for _, name := range []string{"walkExternalDeclaration", "walkDeclaration"} {
		fn := c.Anchor("translator", "Translator", name)
		if fn == nil {
			continue
		}
		t := c.table("ignored", fn, func(ip *Interp) { setupEmission(c, ip) })
		if t == nil {
			continue
		}
		for _, r := range append(append([]*Row{}, t.Iter...), t.Path...) {
			k := n(r)
			for _, e := range r.Ev {
				if e.Kind == "call" && r.Loop == nil && opSuffix(e.Name) == "walkDeclaration" {
					k++
				}
			}
			if r.Loop == nil && len(r.Ret) == 1 {
				if rk := r.St.snap(r.Ret[0]).K(); rk != "nil" && rk != "[]" {
					k++
				}
			}
			con := name + " {" + r.describe() + "}"
			switch {
			case k > 0:
				c.Obl("ignored", con, r.Pos, r.hold("ignored=no") == yes, "%s collects a declaration without having established that its header is not ignored", name)
			case r.Loop != nil:
				c.Obl("ignored", con, r.Pos, r.hold("ignored=yes") == yes, "%s drops a declaration of a header that is not ignored", name)
			case r.hold("ignored=yes") == yes:
				c.Obl("ignored", con, r.Pos, true, "")
			}
		}
	}
	fn := c.Anchor("translator", "Translator", "collectDefines")
	if fn == nil {
		return
	}
	t := c.table("ignored", fn, func(ip *Interp) { setupEmission(c, ip) })
	if t == nil {
		return
	}
	var marks, appends int
	for _, r := range t.Iter {
		if !strings.HasPrefix(r.Loop.Key, "iter($2") && !strings.HasPrefix(r.Loop.Key, "len(.Members(") {
			continue
		}
		con := "collectDefines {" + r.describe() + "}"
		ms := 0
		for _, e := range r.Ev {
			if e.Kind == "mapset" {
				ms++
			}
		}
		if ms > 0 {
			marks++
			c.Obl("gate", con, r.Pos, r.hold("ignored=no") == yes && r.hold("acc:const/name=yes") == yes, "collectDefines admits a constant that is not accepted, or is from an ignored header: %s", r.describe())
			if strings.HasPrefix(r.Loop.Key, "iter($2") {
				c.Obl("gate", con+" function-like", r.Pos, r.hold("fnlike=no") == yes, "collectDefines admits a function-like macro: %s", r.describe())
			}
			continue
		}
		if n(r) > 0 {
			appends++
			c.Obl("gate", con, r.Pos, r.hold("ignored=no") == yes && r.hold("has:name=yes") == yes, "collectDefines keeps a macro that was not admitted, or is from an ignored header: %s", r.describe())
			continue
		}
	}
	c.Obl("gate", "collectDefines admits macros", fn.Pos(), marks >= 1, "collectDefines admits no macro")
	c.Obl("gate", "collectDefines keeps macros", fn.Pos(), appends >= 1, "collectDefines keeps no macro")
}
