package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"verif/tool/smt"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		var o checkOpts
		fs.StringVar(&o.repo, "repo", "/repo", "")
		fs.StringVar(&o.verif, "verif", "/verif", "")
		fs.StringVar(&o.property, "property", "", "")
		fs.StringVar(&o.tier, "tier", "quick", "")
		fs.Int64Var(&o.seed, "seed", 1, "")
		fs.Parse(os.Args[2:])
		os.Exit(Check(o))
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		fs.Parse(os.Args[2:])
		os.Exit(Replay(*repo, *verif, fs.Arg(0)))
	}
	repo := flag.String("repo", "/repo", "")
	con := flag.String("contracts", "/verif/contracts", "")
	only := flag.String("only", "", "")
	dump := flag.String("dump", "", "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	start := time.Now()
	p, err := Load(*repo, *con)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(start), "dropped", p.Dropped)
	pool := smt.NewPool(8)
	pool.Dump = *dump
	defer pool.Close()
	e := NewEngine(p, pool)
	if err := e.RunInit(); err != nil {
		fmt.Println(err)
	}
	for _, c := range p.Order {
		if *only != "" && !strings.Contains(c.Name, *only) {
			continue
		}
		t := time.Now()
		out := e.Verify(c)
		gen := time.Since(t)
		e.Discharge(out, e.facts, nil)
		bad := 0
		for _, o := range out.Obls {
			if o.Result.Answer != "unsat" {
				bad++
				fmt.Printf("  %s: %s %q %s [%s] %s\n", o.Result.Answer, o.Kind, o.Name, e.pos(o.Pos), o.Result.Back, o.Result.Time)
				if *verbose {
					fmt.Println("     pc:", o.PC)
					fmt.Println("     goal:", o.Goal)
				}
			} else if *verbose {
				fmt.Printf("  ok: %s %q %s [%s] %s\n", o.Kind, o.Name, e.pos(o.Pos), o.Result.Back, o.Result.Time.Round(time.Millisecond))
			}
		}
		fmt.Printf("%s: %d obligations, %d not proved, trivial %v, unsup %q, gen %s total %s nondet %v\n", c.Name, len(out.Obls), bad, out.Trivial, out.Unsup, gen.Round(time.Millisecond), time.Since(t).Round(time.Millisecond), out.Nondet)
	}
	for n := range e.notes {
		fmt.Println("note:", n)
	}
}
