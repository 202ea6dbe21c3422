package main

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed baseline_names.txt
var baselineNames string

// Ctx collects what one check analysed and decided.
type Ctx struct {
	*Program
	ID       string
	Tier     string
	Seed     int
	start    time.Time
	oblBy    map[string]int
	okBy     map[string]int
	viol     []violation
	violKeys map[string]bool
	stats    map[string]int
	samples  []string
	sampBy   map[string]int
	assume   []string
	funcs    map[string]bool
	explain  string
	rules    []string
	texts    map[string]string
}

type violation struct {
	Key, Pos, Msg string
}

func newCtx(p *Program, id string) *Ctx {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &Ctx{Program: p, ID: id, Tier: tier, Seed: seed, start: time.Now(),
		oblBy: map[string]int{}, okBy: map[string]int{}, violKeys: map[string]bool{},
		stats: map[string]int{}, sampBy: map[string]int{}, funcs: map[string]bool{}}
}

// Rule documents a rule applied by the check.
func (c *Ctx) Rule(format string, a ...any) { c.rules = append(c.rules, fmt.Sprintf(format, a...)) }

// Obl records one decided obligation. construct names the analysed construct
// without line numbers, so that a known finding survives unrelated edits.
func (c *Ctx) Obl(rule, construct string, pos token.Pos, ok bool, format string, a ...any) bool {
	c.oblBy[rule]++
	if ok {
		c.okBy[rule]++
		if c.sampBy[rule] < 3 {
			c.sampBy[rule]++
			c.samples = append(c.samples, fmt.Sprintf("%s: %s at %s: holds", rule, clip(construct, 160), c.pos(pos)))
		}
		return true
	}
	key := rule + "|" + construct
	if !c.violKeys[key] {
		c.violKeys[key] = true
		c.viol = append(c.viol, violation{key, c.pos(pos), fmt.Sprintf(format, a...)})
	}
	return false
}

// Fail is an obligation that does not hold.
func (c *Ctx) Fail(rule, construct string, pos token.Pos, format string, a ...any) {
	c.Obl(rule, construct, pos, false, format, a...)
}

// Floor guards against a rule silently matching nothing.
func (c *Ctx) Floor(rule string, n int) {
	if c.oblBy[rule] < n {
		c.Fail("floor", rule, token.NoPos, "rule %q matched %d construct(s), at least %d expected: the code the rule is about is gone or no longer recognised", rule, c.oblBy[rule], n)
	}
}

func (c *Ctx) Stat(name string, n int) { c.stats[name] += n }
func (c *Ctx) Sample(format string, a ...any) {
	if len(c.samples) < 40 {
		c.samples = append(c.samples, clip(fmt.Sprintf(format, a...), 400))
	}
}
func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }
func (c *Ctx) Fn(f *ssa.Function) *ssa.Function {
	if f != nil {
		c.funcs[c.short(f)] = true
	}
	return f
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Anchor resolves a function by name; if it was renamed, by the only function
// with the same receiver and signature whose name is not known from before.
// sig is the signature in sigKey form, or "" to not allow the fallback.
func (c *Ctx) Anchor(pkg, typ, name string) *ssa.Function {
	if f := c.fn(pkg, typ, name); f != nil {
		return c.Fn(f)
	}
	want := ""
	known := map[string]bool{}
	for _, l := range strings.Split(baselineNames, "\n") {
		f := strings.SplitN(l, "\t", 4)
		if len(f) != 4 {
			continue
		}
		known[f[0]+"."+f[1]+"."+f[2]] = true
		if f[0] == pkg && f[1] == typ && f[2] == name {
			want = f[3]
		}
	}
	var cand []*ssa.Function
	for _, f := range c.Funcs {
		if f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		pk, ty, nm := fnParts(f)
		if pk == pkg && ty == typ && !known[pk+"."+ty+"."+nm] && sigKey(f.Signature) == want {
			cand = append(cand, f)
		}
	}
	if len(cand) == 1 {
		return c.Fn(cand[0])
	}
	c.Fail("anchor", pkg+"."+typ+"."+name, token.NoPos, "function %s.%s.%s, which the property is anchored in, no longer exists (and %d candidates for a rename)", pkg, typ, name, len(cand))
	return nil
}

func fnParts(f *ssa.Function) (pkg, typ, name string) {
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			typ = n.Obj().Name()
		}
	}
	return pkg, typ, f.Name()
}

func dumpNames(p *Program) {
	var out []string
	for _, f := range p.Funcs {
		if f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		a, b, n := fnParts(f)
		out = append(out, a+"\t"+b+"\t"+n+"\t"+sigKey(f.Signature))
	}
	sort.Strings(out)
	fmt.Println(strings.Join(out, "\n"))
}

// ---- finishing ------------------------------------------------------------

func verifDir() string {
	if d := os.Getenv("CFG_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" ")
		l = strings.TrimPrefix(l, "key=")
		k, what, _ := strings.Cut(l, " :: ")
		out[k] = what
	}
	return out
}

func (c *Ctx) finish() int {
	known := loadKnown(c.ID)
	sort.Slice(c.viol, func(i, j int) bool { return c.viol[i].Key < c.viol[j].Key })
	var bad, listed []violation
	for _, v := range c.viol {
		if _, ok := known[v.Key]; ok {
			listed = append(listed, v)
		} else {
			bad = append(bad, v)
		}
	}
	tot, ok := 0, 0
	for r, n := range c.oblBy {
		tot += n
		ok += c.okBy[r]
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":         c.explain,
		"rules_applied":       c.rules,
		"obligations":         tot,
		"discharged":          ok,
		"obligations_by_rule": c.oblBy,
		"functions_analysed":  fns,
		"counts":              c.stats,
		"samples":             c.samples,
		"known_findings":      len(listed),
	}
	if len(fns) > 60 {
		cov["functions_analysed"] = len(fns)
		cov["functions_sample"] = fns[:60]
	}
	var vs []string
	for _, v := range bad {
		vs = append(vs, v.Pos+": ["+v.Key+"] "+v.Msg)
	}
	if len(vs) > 0 {
		cov["violation_details"] = vs
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "other",
		"coverage": cov, "assumptions": c.assume,
		"wall_s":     float64(int(time.Since(c.start).Seconds()*1000)) / 1000,
		"violations": len(bad),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	for _, v := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", c.ID, v.Key, v.Pos, known[v.Key])
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d known findings, %.1fs\n", c.ID, tot, ok, len(fns), len(listed), time.Since(c.start).Seconds())
	replay := filepath.Join(dir, c.ID+".violations.txt")
	os.Remove(replay)
	if len(bad) == 0 {
		return 0
	}
	os.WriteFile(replay, []byte(strings.Join(vs, "\n")+"\n"), 0o644)
	for _, v := range bad {
		fmt.Printf("  %s: [%s] %s\n", v.Pos, v.Key, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}
