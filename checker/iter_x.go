package main

import (
	"fmt"
	"os"
)

// xIter dumps the iteration table of a function (development aid).
func xIter(p *Program) {
	c := newCtx(p, "x")
	ip := newInterp(p)
	ip.NoMerge = true
	ip.runInits()
	fn := p.fn(os.Args[2], os.Args[3], os.Args[4])
	setupEmission(c, ip, os.Args[5:]...)
	if os.Getenv("EV") != "" {
		withEvents(ip, func(e *Event) bool { return true })
	}
	outs, err := ip.Run(fn, namedArgs(fn), nil)
	fmt.Println(len(outs), err, ip.steps)
	for _, l := range ip.AllLoops {
		fmt.Println("LOOP", clip(l.Key, 200), p.pos(l.Pos), "back", len(l.Back))
		for k, v := range l.Init {
			fmt.Println("   init", clip(k, 300), ":=", clip(v.K(), 500))
		}
		for _, b := range l.Back {
			fmt.Println("   facts", clip(b.St.facts.key(), 1500))
			for k, v := range b.Carry {
				fmt.Println("      carry", clip(k, 300), ":=", clip(b.St.snap(v).K(), 900))
			}
			for _, e := range b.delta() {
				fmt.Println("      ", e.Kind, e.Name, clip(fmt.Sprint(keys(e.Args)), 300))
			}
		}
	}
	for _, o := range outs {
		fmt.Println("OUT", clip(o.St.facts.key(), 1500))
		for k, v := range o.St.streams {
			fmt.Println("   stream", k, clip(v.K(), 3000))
		}
		for _, r := range o.Ret {
			fmt.Println("   ret", clip(o.St.snap(r).K(), 600))
		}
		for _, e := range o.St.tr {
			fmt.Println("      ", e.Kind, e.Name, clip(fmt.Sprint(keys(e.Args)), 300))
		}
	}
}

func keys(vs []V) (out []string) {
	for _, v := range vs {
		out = append(out, v.K())
	}
	return
}
