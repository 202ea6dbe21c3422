package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: options and configuration reach the stage they are meant for.

func init() { checks["C26"] = c26 }

func c26(c *Ctx) {
	c.explain = "main, NewProcess and ParseWith are interpreted on every path; the arguments each stage is called with, and the fields of the objects handed on, are compared with the option or setting they have to come from."
	c.Rule("packages: every argument is processed once, in order, with -out and, for generating as for writing, -nocgo; a directory stands for its configuration file")
	c.Rule("stages: the parser, translator and generator are created from their sections, with the options of the command line, and handed on to each other")
	c.Rule("untouched: nothing else of the configuration is overwritten")
	c.Rule("defines: each define of the configuration becomes one #define of its value")
	c.Rule("frontend: the front end is configured with the target, definitions and search paths of the configuration and reads every source file in order")
	c.Rule("sources: each source file that exists is kept, in order, where it was found")
	c.packages()
	c.stages()
	c.parseWith()
	c.checkConfig()
	c.memSpec()
	c.Rule("keys: each documented key of the configuration file is bound to the field of that name, wherever the file's sections are decoded into")
	c.keys()
	c.Floor("keys", 40)
	c.Floor("packages", 6)
	c.Floor("stages", 12)
	c.Floor("defines", 6)
	c.Floor("frontend", 5)
	c.Floor("sources", 4)
}

// flagVal: the value of a command line option.
func flagVal(v V) string {
	t, ok := peel(v).(*Term)
	if !ok || t.Op != "*" || len(t.Args) != 1 {
		return ""
	}
	f, ok := t.Args[0].(*Term)
	if !ok || !strings.HasPrefix(f.Op, "ext:flag.") || len(f.Args) == 0 {
		return ""
	}
	s, _ := isStrConst(f.Args[0])
	return s
}

// factBool: what the path knows about a boolean.
func (f *Facts) factBool(pred func(v V) bool) tri {
	for k, b := range f.b {
		if v := f.at[k]; v != nil && pred(v) {
			if b {
				return yes
			}
			return no
		}
	}
	return unk
}

func withEvents(ip *Interp, pred func(e *Event) bool) {
	tr := ip.Trace
	ip.Trace = func(e *Event) bool { return tr(e) || pred(e) }
}

func calls(r *Row, names ...string) (out []int) {
	for i := range r.Ev {
		e := &r.Ev[i]
		if e.Kind != "call" {
			continue
		}
		for _, n := range names {
			if e.Name == n {
				out = append(out, i)
			}
		}
	}
	return
}

func isCallOf(v V, n int, name string) (*Term, bool) {
	v = peel(v)
	if n >= 0 {
		t, ok := v.(*Term)
		if !ok || t.Op != fmt.Sprintf("#%d", n) || len(t.Args) != 1 {
			return nil, false
		}
		v = t.Args[0]
	}
	t, ok := v.(*Term)
	if !ok || t.Op != "call:"+name && t.Op != "ext:"+name {
		return nil, false
	}
	return t, true
}

func kOf(v V) string {
	if v == nil {
		return "nothing"
	}
	return v.K()
}

func (c *Ctx) packages() {
	fn := c.Anchor("main", "", "main")
	if fn == nil {
		return
	}
	all := func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" || e.Kind == "exit" })
	}
	if t := c.table("packages", fn, all); t != nil {
		n := 0
		for _, r := range t.Iter {
			nps := calls(r, "main.NewProcess")
			if len(nps) == 0 {
				continue
			}
			n++
			c.Obl("packages", "one process", r.Pos, len(nps) == 1, "one argument is processed %d times", len(nps))
			e := r.Ev[nps[0]]
			_, ix, isE := elemOf(peel(e.Args[0]))
			list := ""
			if isE {
				lv, _, _ := elemOf(peel(e.Args[0]))
				list = kOf(lv)
			}
			c.Obl("packages", "path", e.Pos, isE && r.ownIndex(ix) && strings.Contains(list, "main.getConfigPaths"), "NewProcess is called with %s, not with the configuration file at hand", clip(e.Args[0].K(), 120))
			c.Obl("packages", "-out", e.Pos, flagVal(e.Args[1]) == "out", "the output directory is %s, not the option -out", clip(e.Args[1].K(), 100))
			order := []string{}
			for _, m := range []string{"Generate", "Flush"} {
				cs := calls(r, "(*main.Process)."+m)
				if !c.Obl("packages", m, r.Pos, len(cs) == 1, "%s is called %d times for one package", m, len(cs)) {
					continue
				}
				x := r.Ev[cs[0]]
				_, own := isCallOf(x.Args[0], 0, "main.NewProcess")
				c.Obl("packages", m+" process", x.Pos, own, "%s is called on %s, not on the package's process", m, clip(x.Args[0].K(), 100))
				c.Obl("packages", m+" -nocgo", x.Pos, flagVal(x.Args[1]) == "nocgo", "%s is called with %s, not the option -nocgo", m, clip(x.Args[1].K(), 100))
				order = append(order, fmt.Sprint(cs[0]))
				if len(order) == 2 {
					a := calls(r, "(*main.Process).Generate")[0]
					c.Obl("packages", "order", x.Pos, a < cs[0], "files are written before they are generated")
				}
			}
		}
		c.Obl("packages", "loop", fn.Pos(), n > 0, "no loop in main processes the configuration files")
	}
	c.argPaths(all)
	c.dirConfig(all)
}

// argPaths: each argument contributes itself, or the configuration file found
// in the directory it names.
func (c *Ctx) argPaths(all func(*Interp)) {
	fn := c.Anchor("main", "", "getConfigPaths")
	if fn == nil {
		return
	}
	t := c.table("packages", fn, all)
	if t == nil {
		return
	}
	n := 0
	kinds := map[string]bool{}
	for _, r := range t.Iter {
		isArgs := strings.Contains(r.Loop.Key, "flag.Args")
		if !isArgs {
			continue
		}
		n++
		var got []V
		for k, v := range r.Be.Carry {
			if s, ok := r.St.snap(v).(*SeqV); ok && strings.Contains(k, "seq#") {
				got = append(got, s.E...)
			}
		}
		if !c.Obl("packages", "argument", r.Pos, len(got) == 1, "an argument contributes %d configuration files", len(got)) {
			continue
		}
		_, ix, isE := elemOf(peel(got[0]))
		dir, isDir := isCallOf(got[0], 0, "main.configFromDir")
		switch {
		case isE && r.ownIndex(ix):
			kinds["file"] = true
			known := r.F.factBool(func(v V) bool {
				return strings.HasPrefix(v.K(), "inv:os.FileInfo.IsDir(") || strings.HasPrefix(v.K(), "inv:io/fs.FileInfo.IsDir(")
			})
			c.Obl("packages", "argument that is a file", r.Pos, known == no, "a directory is taken for a configuration file")
		case isDir:
			kinds["directory"] = true
			_, ix, isE := elemOf(peel(dir.Args[0]))
			ok := r.F.factBool(func(v V) bool { _, k := isCallOf(v, 1, "main.configFromDir"); return k })
			c.Obl("packages", "argument that is a directory", r.Pos, isE && r.ownIndex(ix) && ok == yes, "the configuration file used for a directory is not the one found in it")
		default:
			c.Fail("packages", "argument", r.Pos, "an argument contributes %s", clip(got[0].K(), 120))
		}
	}
	c.Obl("packages", "arguments of both kinds", fn.Pos(), len(kinds) == 2, "not both files and directories are accepted: %v", sortedKeys(kinds))
	c.Obl("packages", "arguments", fn.Pos(), n > 0, "no loop over the arguments collects the configuration files")
	for _, r := range t.Path {
		if len(r.Ret) == 0 {
			continue
		}
		k := kOf(r.St.snap(r.Ret[0]))
		c.Obl("packages", "collected", fn.Pos(), strings.HasPrefix(k, "seq(") && strings.Contains(k, "flag.Args") || len(t.Iter) == 0, "getConfigPaths answers %s", clip(k, 120))
	}
}

// dirConfig: the configuration file of a directory is one of four names that
// exists and is not itself a directory.
func (c *Ctx) dirConfig(all func(*Interp)) {
	fn := c.Anchor("main", "", "configFromDir")
	if fn == nil {
		return
	}
	t := c.table("packages", fn, all)
	if t == nil {
		return
	}
	found := map[string]bool{}
	for _, r := range append(append([]*Row{}, t.Path...), t.Iter...) {
		if len(r.Ret) != 2 {
			continue
		}
		k := kOf(r.St.snap(r.Ret[0]))
		if b, ok := isBoolConst(r.Ret[1]); !ok || !b {
			continue
		}
		for _, n := range []string{`"c-for-go.yaml"`, `"c-for-go.yml"`, `".yaml"`, `".yml"`} {
			if strings.Contains(k, n) {
				found[n] = true
			}
		}
		exists, file := unk, unk
		for fk, b := range r.F.b {
			if strings.Contains(fk, k) {
				if strings.HasPrefix(fk, "isnil(#1(ext:os.Stat(") {
					exists = map[bool]tri{true: yes, false: no}[b]
				}
				if strings.HasPrefix(fk, "inv:") && strings.Contains(fk, "FileInfo.IsDir(") {
					file = map[bool]tri{true: no, false: yes}[b]
				}
			}
		}
		c.Obl("packages", "configuration of a directory", fn.Pos(), strings.HasPrefix(k, "ext:path/filepath.Join([$0,") && exists == yes && file == yes, "the configuration of a directory is %s, not known to be a file in it", clip(k, 120))
	}
	c.Obl("packages", "names of a configuration", fn.Pos(), len(found) == 4, "only %d of the four names of a configuration file are looked for", len(found))
}

func (c *Ctx) stages() {
	fn := c.Anchor("main", "", "NewProcess")
	if fn == nil {
		return
	}
	t := c.table("stages", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" })
	})
	if t == nil {
		return
	}
	const (
		gen = ".Generator(decoded)"
		par = ".Parser(decoded)"
		tra = ".Translator(decoded)"
	)
	full := 0
	for _, r := range t.Path {
		if len(r.Ret) != 2 || isNilV(r.Ret[0]) {
			continue
		}
		full++
		one := func(name string) (int, *Event) {
			cs := calls(r, name)
			if !c.Obl("stages", name, fn.Pos(), len(cs) == 1, "%s is called %d times while a package is set up", name, len(cs)) {
				return -1, nil
			}
			return cs[0], &r.Ev[cs[0]]
		}
		pi, pe := one("parser.ParseWith")
		ti, te := one("translator.New")
		li, le := one("(*translator.Translator).Learn")
		gi, ge := one("generator.New")
		mi, me := one("(*generator.Generator).SetMaxMemory")
		if pe == nil || te == nil || le == nil || ge == nil || me == nil {
			continue
		}
		at := func(con string, e *Event, ok bool, f string, a ...any) { c.Obl("stages", con, e.Pos, ok, f, a...) }
		// parser
		hasPar := r.F.b["isnil("+par+")"]
		sec := specOf(r.St, pe.Args[0])
		fresh := sec != nil
		same := fresh
		if fresh {
			u := sec.T.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				switch f := u.Field(i).Name(); f {
				case "CCDefs", "CCIncl", "IncludePaths":
				default:
					// copied from the section, or the zero value where there is none
					k := sec.F[i].K()
					same = same && (k == "."+f+"(*("+par+"))" || k == "."+f+"("+par+")" || hasPar && k == zeroVal(u.Field(i).Type()).K())
				}
			}
		}
		at("parser section", pe, same || pe.Args[0].K() == par, "the parser is given %s, not the parser section", clip(pe.Args[0].K(), 100))
		for _, f := range []string{"CCDefs", "CCIncl"} {
			v := fieldAtCall(r, pi, 0, f)
			at("-"+strings.ToLower(f), pe, v != nil && flagVal(v) == strings.ToLower(f), "%s of the parser is %s, not the option -%s", f, clip(kOf(v), 100), strings.ToLower(f))
		}
		inc := kOf(fieldAtCall(r, pi, 0, "IncludePaths"))
		at("include paths", pe, strings.HasPrefix(inc, "[.IncludePaths(*("+par+"))..;") || hasPar && strings.HasPrefix(inc, "["), "the include paths of the configuration are not the first ones searched: %s", clip(inc, 120))
		at("pkg-config paths", pe, strings.Contains(inc, "call:main.includePathsFromPkgConfig(.PkgConfigOpts(*("+gen+"))"), "the include paths that pkg-config reports for the options of the configuration are not searched: %s", clip(inc, 120))
		at("configuration's directory", pe, strings.Contains(inc, "ext:path/filepath.Dir($0)"), "the configuration file's directory is not searched: %s", clip(inc, 120))
		// translator
		at("translator section", te, te.Args[0].K() == tra || specOf(r.St, te.Args[0]) != nil && r.F.b["isnil("+tra+")"], "the translator is given %s, not the translator section", clip(te.Args[0].K(), 100))
		ign := fieldAtCall(r, ti, 0, "IgnoredFiles")
		want := ".IgnoredPaths(*(" + par + "))"
		at("ignored paths", te, ign != nil && (ign.K() == want || fresh && isNilV(ign)), "the translator ignores %s, not the ignored paths of the configuration", clip(kOf(ign), 100))
		// learning
		_, ok := isCallOf(le.Args[0], 0, "translator.New")
		at("learning", le, ok, "Learn is called on %s", clip(le.Args[0].K(), 100))
		_, ok = isCallOf(le.Args[1], 0, "parser.ParseWith")
		at("learned", le, ok, "what is learned is %s, not what was parsed", clip(le.Args[1].K(), 100))
		// generator
		at("order", ge, li < gi && ti < li && pi < ti && gi < mi, "the stages are set up in the wrong order")
		at("package name", ge, ge.Args[0].K() == "ext:path/filepath.Base(.PackageName(*("+gen+")))", "the package is named %s, not the last element of PackageName", clip(ge.Args[0].K(), 100))
		at("generator section", ge, ge.Args[1].K() == gen, "the generator is given %s, not the generator section", clip(ge.Args[1].K(), 100))
		_, ok = isCallOf(ge.Args[2], 0, "translator.New")
		at("model", ge, ok, "the generator is given %s, not the translator that learned the unit", clip(ge.Args[2].K(), 100))
		ms, okm := isCallOf(me.Args[1], -1, "generator.NewMemSpec")
		_, okg := isCallOf(me.Args[0], 0, "generator.New")
		at("-maxmem", me, okm && okg && flagVal(ms.Args[0]) == "maxmem", "the memory limit is %s, not the option -maxmem", clip(me.Args[1].K(), 100))
		stamp := r.F.factBool(func(v V) bool { return flagVal(v) == "nostamp" })
		ds := calls(r, "(*generator.Generator).DisableTimestamps")
		c.Obl("stages", "-nostamp", fn.Pos(), stamp == yes && len(ds) == 1 || stamp == no && len(ds) == 0, "timestamps are not disabled exactly when -nostamp is given")
		// process
		if s := specOf(r.St, r.Ret[0]); s != nil {
			op := s.field("outputPath")
			c.Obl("stages", "output path", fn.Pos(), op != nil && op.K() == "$1", "the output path is %s", clip(kOf(op), 100))
			g := s.field("gen")
			_, ok := isCallOf(g, 0, "generator.New")
			c.Obl("stages", "generator", fn.Pos(), ok, "the process has %s for its generator", clip(kOf(g), 100))
		}
		for _, e := range r.Ev {
			if e.Kind != "store" || len(e.Args) != 2 {
				continue
			}
			k := e.Args[0].K()
			for base, okf := range map[string]string{par: " CCDefs CCIncl IncludePaths ", tra: " IgnoredFiles LongIs64Bit ", gen: " "} {
				if strings.HasSuffix(k, "("+base+")") && strings.HasPrefix(k, "&.") {
					f := k[2:strings.IndexByte(k, '(')]
					c.Obl("untouched", f, e.Pos, strings.Contains(okf, " "+f+" "), "%s of the configuration is overwritten with %s", f, clip(e.Args[1].K(), 100))
				}
			}
		}
	}
	c.Obl("stages", "success", fn.Pos(), full >= 1, "no path of NewProcess sets up a package")
	// a configuration that cannot be read, parsed or used is an error: no path
	// answers neither a process nor an error
	for _, r := range t.Path {
		if len(r.Ret) == 2 && isNilV(r.Ret[0]) {
			c.Obl("stages", "failure", fn.Pos(), !isNilV(r.Ret[1]), "NewProcess answers neither a process nor an error")
		}
	}
}

func (c *Ctx) parseWith() {
	fn := c.Anchor("parser", "", "ParseWith")
	if fn == nil {
		return
	}
	t := c.table("frontend", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" })
	})
	if t == nil {
		return
	}
	const cfg = "#0(call:parser.checkConfig($0))"
	// one define
	kinds := map[string]bool{}
	for _, r := range t.Iter {
		var dyn V
		typ := ""
		none := true
		for k, b := range r.F.b {
			v, ok := r.F.at[k].(*Term)
			if !ok || !strings.HasPrefix(v.Op, "is:") || !strings.Contains(k, ".Defines(*("+cfg+"))") {
				continue
			}
			none = false
			if b {
				typ, dyn = v.Op[3:], v.Args[0]
			}
		}
		if none {
			continue
		}
		added := ""
		var parts []V
		for k, v := range r.Be.Carry {
			cat, ok := v.(*Cat)
			if !ok || len(cat.Parts) == 0 || !isStringType(typeOf(v)) {
				continue
			}
			if cat.Parts[0].K() == k || strings.Contains(cat.Parts[0].K(), "#predefined") || strings.HasPrefix(cat.Parts[0].K(), "rep#") {
				parts = cat.Parts[1:]
			}
		}
		if parts == nil {
			parts = r.grown()
		}
		if parts == nil {
			for _, e := range r.Ev {
				if e.Kind == "write" {
					if cat, ok := e.Args[1].(*Cat); ok {
						parts = append(parts, cat.Parts...)
					} else {
						parts = append(parts, e.Args[1])
					}
				}
			}
		}
		for _, p := range parts {
			if s, ok := isStrConst(p); ok {
				added += s
				continue
			}
			k := p.K()
			switch {
			case dyn != nil && k == "itoa("+asOf(typ, dyn)+")", strings.HasPrefix(k, "itoa(") && dyn != nil && strings.Contains(k, dyn.K()):
				added += "<int>"
			case dyn != nil && strings.HasPrefix(k, "fmt:%d(") && strings.Contains(k, dyn.K()):
				added += "<int>"
			case dyn != nil && strings.HasPrefix(k, "fmt:%") && strings.Contains(k, dyn.K()):
				added += "<" + k[5:strings.IndexByte(k, '(')] + ">"
			case dyn != nil && strings.Contains(k, dyn.K()):
				added += "<text>"
			default:
				added += "<name>"
			}
		}
		added = strings.TrimSpace(added)
		want := ""
		switch typ {
		case "string":
			want = `#define <name> "<text>"`
		case "int", "int64", "uint64", "uint", "int32", "uint32", "int16", "uint16":
			want = "#define <name> <int>"
		case "float64", "float32":
			want = "#define <name> <f>f"
		default:
			if !strings.HasPrefix(typ, "map[") {
				continue
			}
			empty := unk
			for k, iv := range r.F.iv {
				if strings.HasPrefix(k, "len(") && dyn != nil && strings.Contains(k, dyn.K()) {
					if iv.hi <= 0 {
						empty = yes
					} else if iv.lo >= 1 {
						empty = no
					}
				}
			}
			if empty != yes {
				continue
			}
			want = "#define <name>"
			typ = "empty"
		}
		kinds[typ] = true
		c.Obl("defines", typ, r.Pos, added == want, "a define with a value of type %s becomes %q, not %q", typ, added, want)
	}
	for _, k := range []string{"string", "int", "int64", "uint64", "float64", "empty"} {
		c.Obl("defines", "of type "+k, fn.Pos(), kinds[k], "a define of type %s is not handled", k)
	}
	n, each := 0, 0
	for _, r := range t.Path {
		cs := calls(r, "modernc.org/cc/v4.Translate")
		if len(cs) != 1 {
			continue
		}
		n++
		e := &r.Ev[cs[0]]
		nc := calls(r, "modernc.org/cc/v4.NewConfig")
		if c.Obl("frontend", "configured", e.Pos, len(nc) == 1, "the front end is configured %d times", len(nc)) {
			x := r.Ev[nc[0]]
			c.Obl("frontend", "Arch", x.Pos, x.Args[1].K() == ".Arch(*("+cfg+"))", "the target architecture is %s, not the one configured", clip(x.Args[1].K(), 100))
		}
		_, ok := isCallOf(e.Args[0], 0, "modernc.org/cc/v4.NewConfig")
		c.Obl("frontend", "configuration", e.Pos, ok, "the front end is given %s", clip(e.Args[0].K(), 100))
		host := r.F.factBool(func(v V) bool { return v.K() == ".CCIncl(*("+cfg+"))" })
		hostDefs := r.F.factBool(func(v V) bool { return v.K() == ".CCDefs(*("+cfg+"))" })
		avail := r.F.factBool(func(v V) bool { return strings.HasPrefix(v.K(), "isnil(#3(call:parser.hostCppConfig(") })
		pre := kOf(fieldAtCall(r, cs[0], 0, "Predefined"))
		c.Obl("frontend", "definitions", e.Pos, strings.Contains(pre, ".Predefined(") && strings.Index(pre, ".Predefined(") < strings.LastIndex(pre, ".Defines(*("), "the definitions of the configuration do not follow the front end's own: %s", clip(pre, 150))
		hd := strings.Contains(pre, "#0(call:parser.hostCppConfig(")
		c.Obl("frontend", "-ccdefs", e.Pos, hd == (hostDefs == yes && avail == yes), "the definitions of the hosted compiler are not used exactly when -ccdefs is given")
		for i, f := range []string{"IncludePaths", "SysIncludePaths"} {
			v := kOf(fieldAtCall(r, cs[0], 0, f))
			own := strings.Contains(v, "."+f+"(*("+cfg+"))")
			front := strings.HasPrefix(v, "[."+f+"(*(#0(ext:modernc.org/cc/v4.NewConfig(")
			hp := fmt.Sprintf("#%d(call:parser.hostCppConfig(", i+1)
			hosted := strings.Contains(v, hp)
			some := unk
			for k, iv := range r.F.iv {
				if strings.HasPrefix(k, "len("+hp) {
					if iv.lo >= 1 {
						some = yes
					} else if iv.hi <= 0 {
						some = no
					}
				}
			}
			c.Obl("frontend", f, e.Pos, own && front, "the %s searched are %s", f, clip(v, 150))
			if host == yes && avail == yes {
				c.Obl("frontend", f+" -ccincl", e.Pos, hosted || some == no, "the hosted compiler's %s are not searched", f)
			} else {
				c.Obl("frontend", f+" -ccincl", e.Pos, !hosted, "the hosted compiler's %s are searched without -ccincl", f)
			}
		}
		src := kOf(r.St.snap(e.Args[1]))
		c.Obl("frontend", "sources", e.Pos, strings.Contains(src, `"<predefined>"`) && strings.Contains(src, `"<builtin>"`) && strings.Contains(src, ".SourcesPaths(*("+cfg+"))") && strings.Contains(src, "#sources") || strings.Contains(src, "all("), "the front end reads %s", clip(src, 200))
	}
	c.Obl("frontend", "translated", fn.Pos(), n >= 1, "no path of ParseWith has the front end translate the unit")
	for _, r := range t.Iter {
		if r.Loop.Key != "len(.SourcesPaths(*("+cfg+")))" {
			continue
		}
		each++
		var got []V
		for _, v := range r.Be.Carry {
			if s, ok := r.St.snap(v).(*SeqV); ok {
				got = append(got, s.E...)
			}
		}
		ok := false
		if len(got) == 1 {
			if s, is := got[0].(*StructV); is {
				_, ix, isE := elemOf(peel(s.field("Name")))
				ok = isE && r.ownIndex(ix)
			}
		}
		c.Obl("frontend", "each source", r.Pos, ok, "a source file is not read by its name")
	}
	c.Obl("frontend", "every source", fn.Pos(), each > 0, "no loop over all source files has them read")
}

// grown: what an iteration adds to a text buffer.
func (r *Row) grown() (parts []V) {
	if r.Be == nil {
		return nil
	}
	for id, v := range r.St.heap {
		cat, ok := v.(*Cat)
		if !ok || len(cat.Parts) == 0 {
			continue
		}
		if h, ok := r.Be.Head.heap[id]; ok && (cat.Parts[0].K() == h.K() || strings.HasPrefix(cat.Parts[0].K(), "rep#")) {
			parts = append(parts, cat.Parts[1:]...)
		}
	}
	return
}

func asOf(typ string, v V) string { return "as:" + typ + "(" + v.K() + ")" }

func (c *Ctx) checkConfig() {
	fn := c.Anchor("parser", "", "checkConfig")
	if fn == nil {
		return
	}
	t := c.table("sources", fn, func(ip *Interp) {
		setupEmission(c, ip)
		withEvents(ip, func(e *Event) bool { return e.Kind == "call" })
	})
	if t == nil {
		return
	}
	n := 0
	for _, r := range t.Iter {
		var got []V
		seq := false
		for _, v := range r.Be.Carry {
			if s, ok := r.St.snap(v).(*SeqV); ok {
				seq = true
				got = append(got, s.E...)
			}
		}
		dir := r.F.factBool(func(v V) bool { return strings.HasPrefix(v.K(), "inv:") && strings.Contains(v.K(), "FileInfo.IsDir(") })
		if dir == yes {
			c.Obl("sources", "directory", r.Pos, len(got) == 0, "a directory is taken for a source file")
			continue
		}
		if !seq && dir == unk {
			continue
		}
		n++
		if !c.Obl("sources", "file", r.Pos, len(got) == 1, "a source file is kept %d times", len(got)) {
			continue
		}
		abs := r.F.factBool(func(v V) bool { return strings.HasPrefix(v.K(), "ext:path/filepath.IsAbs(") })
		v := peel(got[0])
		if a, ok := isCallOf(v, 0, "path/filepath.Abs"); ok {
			v = peel(a.Args[0])
		}
		_, ix, isE := elemOf(v)
		found, isF := isCallOf(v, 0, "parser.findFile")
		switch {
		case isE && r.ownIndex(ix):
			c.Obl("sources", "absolute", r.Pos, abs == yes, "a relative source path is not looked up in the include paths")
		case isF:
			_, ix, isE := elemOf(peel(found.Args[0]))
			c.Obl("sources", "relative", r.Pos, isE && r.ownIndex(ix) && strings.HasPrefix(found.Args[1].K(), ".IncludePaths(*("), "a relative source path is looked up as %s", clip(found.K(), 120))
		default:
			c.Fail("sources", "file", r.Pos, "a source path becomes %s", clip(v.K(), 120))
		}
	}
	c.Obl("sources", "loop", fn.Pos(), n > 0, "no loop keeps the source files")
	for _, r := range t.Path {
		if len(r.Ret) != 2 || !isNilV(r.Ret[1]) {
			continue
		}
		arch := ""
		for _, e := range r.Ev {
			if e.Kind == "store" && strings.HasPrefix(e.Args[0].K(), "&.Arch(") {
				arch, _ = isStrConst(e.Args[1])
			}
		}
		given := unk
		for k, iv := range r.F.iv {
			if strings.HasPrefix(k, "len(.Arch(") {
				if iv.hi <= 0 {
					given = no
				} else if iv.lo >= 1 {
					given = yes
				}
			}
		}
		if given == yes {
			c.Obl("sources", "Arch given", fn.Pos(), arch == "", "the configured architecture is replaced")
		}
		if given == no {
			c.Obl("sources", "Arch default", fn.Pos(), arch != "", "an architecture that is not configured has no default")
		}
	}
	c.lookedUp()
}

// lookedUp: a relative path is taken as it is if it exists, else in the first
// include path that has it.
func (c *Ctx) lookedUp() {
	fn := c.Anchor("parser", "", "findFile")
	if fn == nil {
		return
	}
	t := c.table("sources", fn, func(ip *Interp) { setupEmission(c, ip); ip.PeelExit = true })
	if t == nil {
		return
	}
	seen := map[string]bool{}
	for _, r := range t.Path {
		if len(r.Ret) != 2 || !isNilV(r.Ret[1]) {
			continue
		}
		k := kOf(r.St.snap(r.Ret[0]))
		exists := func(p string) bool {
			b, ok := r.F.b["isnil(#1(ext:os.Stat("+p+")))"]
			return ok && b
		}
		missing := func(p string) bool {
			b, ok := r.F.b["isnil(#1(ext:os.Stat("+p+")))"]
			return ok && !b
		}
		switch {
		case k == "$0":
			seen["itself"] = true
			c.Obl("sources", "as written", fn.Pos(), exists("$0"), "a path that does not exist is taken as it is")
		case strings.HasPrefix(k, "ext:path/filepath.Join([[]($1,"):
			seen["in include path"] = true
			earlier := false
			for fk, b := range r.F.b {
				earlier = earlier || b && strings.HasPrefix(fk, "isnil(#1(ext:os.Stat(") && !strings.Contains(fk, k)
			}
			c.Obl("sources", "first include path", fn.Pos(), !earlier, "a source file is taken from an include path although an earlier one has it")
			c.Obl("sources", "in an include path", fn.Pos(), exists(k) && missing("$0") && strings.HasSuffix(k, ",$0,])"), "a source file is taken to be %s", clip(k, 120))
		default:
			c.Fail("sources", "looked up", fn.Pos(), "a source file is found at %s", clip(k, 120))
		}
	}
	c.Obl("sources", "lookup", fn.Pos(), len(seen) == 2, "source files are not looked for both as written and in the include paths")
}

// memSpec: -maxmem takes one of fifteen values, anything else is the default.
func (c *Ctx) memSpec() {
	fn := c.Anchor("generator", "", "NewMemSpec")
	if fn == nil {
		return
	}
	answer := func(arg V) map[string]bool {
		ip := newInterp(c.Program)
		if ip.runInits() != nil {
			return nil
		}
		ip.Inline = func(*ssa.Function) bool { return true }
		outs, err := ip.Run(fn, []V{arg}, nil)
		if err != nil {
			return nil
		}
		got := map[string]bool{}
		for _, o := range outs {
			if !o.Panic && len(o.Ret) == 1 {
				got[peel(o.Ret[0]).K()] = true
			}
		}
		return got
	}
	for _, d := range "123456789abcdef" {
		s := fmt.Sprintf("0x%cfffffff", d)
		got := answer(cStr(s))
		c.Obl("stages", "memory limit "+s, fn.Pos(), len(got) == 1 && got[fmt.Sprintf("%q", s)], "the memory limit %s becomes %v", s, sortedKeys(got))
	}
	got := answer(cStr("4G"))
	c.Obl("stages", "memory limit that is none", fn.Pos(), len(got) == 1 && got[`"0x7fffffff"`], "a memory limit that is not one of the known ones becomes %v", sortedKeys(got))
}

// documentedKeys: the keys of the configuration file (README and wiki), with
// the field each one sets.
var documentedKeys = map[string]string{
	"":                       "GENERATOR TRANSLATOR PARSER",
	"PARSER":                 "Arch IncludePaths SysIncludePaths SourcesPaths IgnoredPaths Defines",
	"GENERATOR":              "PackageName PackageDescription PackageLicense PkgConfigOpts FlagGroups SysIncludes Includes Options",
	"GENERATOR.FlagGroups":   "name traits flags",
	"GENERATOR.Options":      "SafeStrings StructAccessors KeepAlive",
	"TRANSLATOR":             "Validations Rules ConstRules PtrTips TypeTips MemTips Typemap ConstCharIsString ConstUCharIsString LenFields",
	"TRANSLATOR.Rules":       "from to action transform load",
	"TRANSLATOR.Validations": "validatefunc ret matchedfunc",
	"TRANSLATOR.PtrTips":     "target tips self default",
	"TRANSLATOR.TypeTips":    "target tips self default",
	"TRANSLATOR.MemTips":     "target tips self default",
}

// keys: what the file says reaches the field that the rest of the code reads.
func (c *Ctx) keys() {
	var root types.Type
	for _, fn := range c.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.Contains(call.Call.StaticCallee().String(), "yaml.v2.Unmarshal") {
					continue
				}
				if mi, ok := call.Call.Args[1].(*ssa.MakeInterface); ok {
					root = derefT(mi.X.Type())
				}
			}
		}
	}
	if root == nil {
		c.Fail("keys", "sections", 0, "the type that the configuration file is decoded into was not found")
		return
	}
	c.keysOf("", root, map[string]bool{})
}

func (c *Ctx) keysOf(path string, t types.Type, seen map[string]bool) {
	t = elemType(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	bound := map[string][]*types.Var{}
	sub := map[string]types.Type{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag, _ := reflect.StructTag(st.Tag(i)).Lookup("yaml")
		key := strings.Split(tag, ",")[0]
		switch {
		case tag == "" && !strings.Contains(st.Tag(i), ":") && st.Tag(i) != "":
			key = strings.Split(st.Tag(i), ",")[0]
		case key == "":
			key = strings.ToLower(f.Name())
		}
		if key == "-" || !f.Exported() {
			continue
		}
		bound[key] = append(bound[key], f)
		sub[key] = f.Type()
	}
	for _, key := range strings.Fields(documentedKeys[path]) {
		con := strings.TrimPrefix(path+"."+key, ".")
		fs := bound[key]
		if !c.Obl("keys", con, st.Field(0).Pos(), len(fs) == 1, "the key %s of the configuration file sets %d fields", con, len(fs)) {
			continue
		}
		c.Obl("keys", con+" field", fs[0].Pos(), strings.EqualFold(fs[0].Name(), key), "the key %s of the configuration file sets the field %s", con, fs[0].Name())
		if _, ok := documentedKeys[con]; ok && !seen[con] {
			seen[con] = true
			c.keysOf(con, sub[key], seen)
		}
	}
}

// elemType strips pointers, slices and maps.
func elemType(t types.Type) types.Type {
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			return t
		}
	}
}
