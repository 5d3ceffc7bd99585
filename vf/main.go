package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

var debug bool

func main() {
	os.Setenv("PATH", "/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vf prove|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "prove":
		cmdProve(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdProve is the development entry point: prove units and print the outcome.
func cmdProve(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	pats := fs.String("pkgs", "", "comma separated package patterns")
	only := fs.String("unit", "", "only units whose name contains this")
	tmo := fs.Int("t", 10, "timeout per obligation (s)")
	ends := fs.Bool("ends", false, "look for unreachable returns")
	verbose := fs.Bool("v", false, "")
	fs.BoolVar(&debug, "debug", false, "")
	fs.Parse(args)
	t0 := time.Now()
	l, err := loadRepo(*repo, *verif, strings.Split(*pats, ","))
	if err != nil {
		fmt.Println("LOAD:", err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0), len(l.pkgs), len(l.funcs), len(l.contracts), len(l.docs))
	var us []*Unit
	for _, u := range l.units(*prop) {
		if *only == "" || strings.Contains(u.Name, *only) {
			us = append(us, u)
		}
	}
	for _, u := range us {
		u.generate(l)
	}
	fmt.Println("generated", time.Since(t0))
	solveAll(us, time.Duration(*tmo)*time.Second)
	tot, ok := 0, 0
	for _, u := range us {
		bad := 0
		for _, o := range u.Obls {
			tot++
			if o.Status == "proved" {
				ok++
			} else {
				bad++
			}
		}
		vac := u.vacuous(2 * time.Second)
		fmt.Printf("%-8s %-40s %3d obligations, %d open; end %s; %dms\n", u.Kind, u.Name, len(u.Obls), bad, vac, u.Ms)
		if *ends {
			for _, e := range u.deadEnds() {
				fmt.Println("   unreachable return", e)
			}
		}
		for _, o := range u.Obls {
			if *verbose || o.Status != "proved" {
				fmt.Printf("   %-8s %-10s %s  %s [%s %dms]\n", o.Status, o.Kind, o.Name, o.Pos, o.Solver, o.Ms)
				if o.Status != "proved" && *verbose {
					m := o.Model
					if len(m) > 600 {
						m = m[:600]
					}
					fmt.Println("      ", strings.ReplaceAll(m, "\n", "\n       "))
				}
			}
		}
		if *verbose {
			fmt.Println("   trusted:", u.Trusted)
			fmt.Println("   inlined:", u.Inlined)
			fmt.Println("   by contract:", u.ByContr)
		}
	}
	fmt.Printf("%d/%d proved in %v\n", ok, tot, time.Since(t0))
}
