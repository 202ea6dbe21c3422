package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
)

// checks maps a property to the function that decides it.
var checks = map[string]func(*Ctx){}

func main() {
	if f := os.Getenv("CFG_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	debug.SetGCPercent(400)
	p, err := loadProgram(targetDir())
	if err != nil {
		// The target does not build: nothing can be decided about it.
		fmt.Println("cannot analyse:", err)
		os.Exit(3)
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: cforgocheck <property>|names|x pkg type func")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "names":
		dumpNames(p)
		return
	case "fx":
		e := p.effects()
		for _, f := range p.Funcs {
			for k, ef := range e.sum[f].effects {
				fmt.Println(p.short(f), k, p.short(ef.Fn), p.pos(ef.Pos))
			}
		}
		return
	case "xi":
		xIter(p)
		return
	case "x":
		runX(p)
		return
	case "all":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			if r := runCheck(p, id); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	}
	rc := runCheck(p, os.Args[1])
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func runCheck(p *Program, id string) (rc int) {
	f := checks[id]
	if f == nil {
		fmt.Println("no check for", id)
		return 2
	}
	c := newCtx(p, id)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("CFG_DEBUG") != "" {
					debug.PrintStack()
				}
				c.Fail("internal", fmt.Sprint(r), 0, "the analysis could not follow the code: %v", r)
			}
		}()
		f(c)
	}()
	return c.finish()
}

func runX(p *Program) {
	ip := newInterp(p)
	if err := ip.runInits(); err != nil {
		fmt.Println("init:", err)
	}
	fmt.Println(ip.steps, len(ip.base))
	if len(os.Args) > 4 {
		fn := p.fn(os.Args[2], os.Args[3], os.Args[4])
		ip.Inline = defaultInline
		outs, err := ip.Run(fn, nil, nil)
		fmt.Println(len(outs), err, ip.steps)
		for _, o := range outs {
			fmt.Println("----- panic:", o.Panic)
			for _, r := range o.Ret {
				fmt.Println("ret", o.St.snap(r).K())
			}
			var ks []string
			for k := range o.St.streams {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Println("stream", k, o.St.streams[k].K())
			}
			fmt.Println("facts", o.St.facts)
		}
	}
}
