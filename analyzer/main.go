package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dumpRule struct{ kinds map[string]bool }

func (d *dumpRule) Wants(s *State, e *Event) bool { return d.kinds[e.Kind] }
func (d *dumpRule) On(s *State, e *Event) {
	if e.Kind == "exit" || e.Kind == "crash" || e.Kind == "select" && e.Depth == 1 {
		fmt.Println("----", e)
		for _, x := range s.trace {
			fmt.Println("   ", x)
		}
		if e.Kind == "select" {
			s.resetTrace()
		}
	}
}

func main() {
	if len(os.Args) >= 6 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	}
	p, err := Load("/repo", nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		parts := strings.Split(os.Args[2], "|")
		var d = &dumpRule{map[string]bool{}}
		for _, k := range strings.Split(os.Args[3], ",") {
			d.kinds[k] = true
		}
		ex := NewExec(p, os.Args[2], d)
		fn := p.Func(parts[0], parts[1])
		if len(parts) > 2 {
			fn = p.Method(parts[0], parts[1], parts[2])
		}
		t := time.Now()
		if f := os.Getenv("FOLLOW"); f != "" {
			ex.Opts.FollowGo = func(g *ssa.Function) bool { return g.Name() == f }
		}
		if m := os.Getenv("MAXSTEPS"); m != "" {
			fmt.Sscan(m, &ex.MaxSteps)
		}
		ex.Run(fn, nil, nil)
		for _, k := range sortedKeys(ex.hot) {
			fmt.Println("hot", k, ex.hot[k])
		}
		fmt.Println("steps", ex.Steps, "states", ex.States, "paths", ex.Paths, "inlined", len(ex.Inlined), time.Since(t), ex.Undecided, "terms", len(ex.ts.list))
	}
}
