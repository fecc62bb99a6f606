package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc fn|check ...")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(90*time.Second, pprof.StopCPUProfile)
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "fn":
		cmdFn(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdFn(args []string) {
	fs := flag.NewFlagSet("fn", flag.ExitOnError)
	v := fs.Int("v", 0, "")
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	to := fs.Float64("t", 8, "")
	dump := fs.String("dump", "", "")
	inl := fs.String("demote", "", "")
	lrn := fs.Bool("learn", false, "record the surviving invariants")
	fresh := fs.Bool("full", false, "ignore the recorded invariants")
	fs.Parse(args)
	if !*fresh {
		loadLearned(*root)
	}
	verbose = *v
	dumpDir = *dump
	sp, err := loadSpecs(*root + "/contracts")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	pr, err := loadProg(*repo, *root+"/stubs/repo.mod", []string{"./..."}, sp)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *inl != "" {
		for _, d := range strings.Split(*inl, ",") {
			pr.demoted[d] = true
		}
	}
	for _, e := range pr.loadErr {
		fmt.Println("load:", e)
	}
	match := func(n string) bool {
		if fs.NArg() == 0 {
			return true
		}
		for _, a := range fs.Args() {
			if strings.Contains(n, a) {
				return true
			}
		}
		return false
	}
	for _, l := range sp.LemOrd {
		if match("lemma " + l.Name) {
			show(pr.verifyLemma(l, *to))
		}
	}
	for _, c := range sp.Cons {
		if c.Extern || c.Trusted || !match(c.Name) {
			continue
		}
		r := pr.verifyFunction(c, *to)
		show(r)
		if r.OK() || os.Getenv("GOVC_LEARNALL") != "" {
			for k, v := range learnedNew {
				learned[k] = v
			}
		}
		learnedNew = map[string][]string{}
	}
	if *lrn {
		cur := learned
		learned = map[string][]string{}
		loadLearned(*root)
		for k, v := range cur {
			learned[k] = v
		}
		b, _ := json.MarshalIndent(learned, "", " ")
		os.WriteFile(*root+"/contracts/learned.json", append(b, '\n'), 0o644)
	}
}

func loadLearned(root string) {
	if b, err := os.ReadFile(root + "/contracts/learned.json"); err == nil {
		json.Unmarshal(b, &learned)
	}
}

func show(r *FnResult) {
	n := 0
	for _, o := range r.Obls {
		if o.OK {
			n++
		}
	}
	s := "ok  "
	if !r.OK() {
		s = "FAIL"
	}
	fmt.Printf("%s %s: %d/%d obligations, %d exits (%d reachable), %.1fs %s\n", s, r.Name, n, len(r.Obls), r.Exits, r.Reach, r.Secs, r.Err)
	for _, o := range r.Failed() {
		fmt.Printf("     fails: %s %s (%s, %.1fs)\n", o.Kind, o.Pos, o.Why, o.Secs)
		if verbose > 0 {
			fmt.Println("     goal:", o.Goal)
			fmt.Println("     model:", o.Model)
		}
		if verbose > 1 {
			for _, h := range o.Hyps {
				fmt.Println("       hyp:", h)
			}
		}
	}
	if verbose > 0 {
		for _, o := range r.Obls {
			if o.OK && o.Secs > 1 {
				fmt.Printf("     slow: %s %s (%s, %.1fs)\n", o.Kind, o.Pos, o.Solver, o.Secs)
			}
		}
		for _, l := range r.Loops {
			fmt.Println("     ", l)
		}
		fmt.Println("      inlined:", r.Inlined, "used:", r.Used, "assumed:", r.Assumed)
	}
}
