package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// check decides one property:
//   1. every contract listed under the property is verified against the current source; contracts of
//      callees that were used are verified too (transitively);
//   2. a callee contract that does not hold (or whose function is gone) is demoted: its callers are
//      verified again with the callee's body in its place;
//   3. the counterexample search (Go tests compiled into the real packages) looks for a concrete failing input.

type checker struct {
	pr    *Prog
	sp    *Specs
	prop  string
	to    float64
	res   map[string]*FnResult
	uses  map[string][]string
	lem   map[string]*FnResult
	order []string
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (k *checker) own(c *Contract) bool { return has(c.Props, k.prop) && !c.Extern }

func (k *checker) lemmaRefs(c *Contract) []string {
	var out []string
	for _, h := range c.Hints {
		out = append(out, lemmaNames(k.sp, h)...)
	}
	return out
}

func lemmaNames(sp *Specs, e *Expr) []string {
	var out []string
	if e == nil {
		return nil
	}
	if sp.Lemmas[e.Name] != nil {
		out = append(out, e.Name)
	}
	for _, a := range e.Args {
		out = append(out, lemmaNames(sp, a)...)
	}
	return out
}

func (k *checker) needLemma(n string) {
	if k.lem[n] != nil {
		return
	}
	l := k.sp.Lemmas[n]
	if l == nil || l.Assumed {
		return
	}
	k.lem[n] = &FnResult{}
	for _, u := range l.Uses {
		k.needLemma(u.Name)
	}
	k.lem[n] = k.pr.verifyLemma(l, k.to)
}

func (k *checker) run() {
	var work []string
	for _, c := range k.sp.Cons {
		if k.own(c) && !c.Trusted {
			work = append(work, c.Name)
		}
	}
	for _, l := range k.sp.LemOrd {
		if has(l.Props, k.prop) {
			k.needLemma(l.Name)
		}
	}
	seen := map[string]int{}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if seen[n] > 4 {
			continue
		}
		c := k.sp.ByName[n]
		seen[n]++
		r := k.pr.verifyFunction(c, k.to)
		if k.res[n] == nil {
			k.order = append(k.order, n)
		}
		k.res[n] = r
		k.uses[n] = r.Used
		show(r)
		for _, l := range k.lemmaRefs(c) {
			k.needLemma(l)
		}
		for _, u := range r.Used {
			uc := k.sp.ByName[u]
			if uc != nil && !uc.Extern && !uc.Trusted && k.res[u] == nil && !has(work, u) {
				work = append(work, u)
			}
		}
		if !r.OK() && !k.pr.demoted[n] {
			// a contract that does not hold is not used by callers; they see the body
			var users []string
			for m, us := range k.uses {
				if has(us, n) && m != n {
					users = append(users, m)
				}
			}
			if len(users) > 0 || !(k.own(c) && !c.Aux) {
				k.pr.demoted[n] = true
				r.Demoted = true
				sort.Strings(users)
				for _, u := range users {
					if !has(work, u) {
						work = append(work, u)
					}
				}
			}
		}
	}
}

// failures of obligations that decide the property
func (k *checker) failures() []string {
	var out []string
	for _, n := range k.order {
		c, r := k.sp.ByName[n], k.res[n]
		if r.OK() || !k.own(c) || c.Aux {
			continue
		}
		if r.Err != "" {
			out = append(out, fmt.Sprintf("%s: %s", n, r.Err))
		}
		for _, o := range r.Failed() {
			s := fmt.Sprintf("%s: obligation %s at %s not discharged (%s)", n, o.Kind, o.Pos, o.Why)
			if o.Model != "" {
				s += "\n    model: " + trunc(o.Model, 600)
			}
			out = append(out, s)
		}
	}
	for n, r := range k.lem {
		if !r.OK() {
			out = append(out, "lemma "+n+" not proved "+r.Err)
		}
	}
	return out
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---------------------------------------------------------------- counterexample search

type harnessOut struct {
	Ran     int      // packages run
	Fail    []string // failing inputs
	Cases   int
	Skipped []string
	Cmd     []string
}

var pkgRe = regexp.MustCompile(`(?m)^package (\w+)`)

func runHarness(repo, root, prop, tier string, seed int, budget float64, more []string) *harnessOut {
	h := &harnessOut{}
	base := filepath.Join(root, "harness")
	byDir := map[string][]string{}
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasPrefix(fi.Name(), "zz_verif_"+prop) && strings.HasSuffix(fi.Name(), "_test.go") {
			d, _ := filepath.Rel(base, filepath.Dir(p))
			byDir[d] = append(byDir[d], p)
		}
		return nil
	})
	var dirs []string
	for d := range byDir {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	bdir := filepath.Join(root, "build", "h-"+prop)
	os.MkdirAll(bdir, 0o755)
	util, _ := os.ReadFile(filepath.Join(base, "common", "util.go.txt"))
	for i, d := range dirs {
		rep := map[string]string{}
		pkg := ""
		for _, f := range byDir[d] {
			b, _ := os.ReadFile(f)
			if m := pkgRe.FindSubmatch(b); m != nil {
				pkg = string(m[1])
			}
			rep[filepath.Join(repo, d, filepath.Base(f))] = f
		}
		uf := filepath.Join(bdir, fmt.Sprintf("util%d_test.go", i))
		os.WriteFile(uf, []byte(pkgRe.ReplaceAllString(string(util), "package "+pkg)), 0o644)
		rep[filepath.Join(repo, d, "zz_verif_util_test.go")] = uf
		// the package's own tests are left out, so that only the code is judged
		olds, _ := filepath.Glob(filepath.Join(repo, d, "*_test.go"))
		for _, o := range olds {
			rep[o] = ""
		}
		b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		of := filepath.Join(bdir, fmt.Sprintf("overlay%d.json", i))
		os.WriteFile(of, b, 0o644)
		var ls [][]byte
		for _, s := range append(literals(filepath.Join(repo, d)), more...) {
			ls = append(ls, []byte(s))
		}
		lb, _ := json.Marshal(ls)
		lf := filepath.Join(bdir, fmt.Sprintf("lits%d.json", i))
		os.WriteFile(lf, lb, 0o644)
		args := []string{"test", "-modfile=" + filepath.Join(root, "stubs", "repo.mod"), "-overlay=" + of, "-vet=off", "-v", "-count=1", "-timeout", fmt.Sprintf("%.0fs", budget), "-run", "^TestVerif" + prop, "./" + d}
		cmd := exec.Command("go", args...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_LITS="+lf)
		out, err := cmd.CombinedOutput()
		h.Cmd = append(h.Cmd, "cd "+repo+" && go "+strings.Join(args, " "))
		txt := string(out)
		ran := false
		for _, l := range strings.Split(txt, "\n") {
			if j := strings.Index(l, "VERIF-FAIL "); j >= 0 {
				h.Fail = append(h.Fail, d+": "+trunc(l[j+len("VERIF-FAIL "):], 2000))
			}
			if j := strings.Index(l, "VERIF-CASES "); j >= 0 {
				n, _ := strconv.Atoi(strings.TrimSpace(l[j+len("VERIF-CASES "):]))
				h.Cases += n
				ran = true
			}
		}
		if ran {
			h.Ran++
		}
		if err != nil && len(h.Fail) == 0 {
			// a goroutine of the code under test crashed the process
			note := ""
			for _, l := range strings.Split(txt, "\n") {
				if j := strings.Index(l, "VERIF-NOTE"); j >= 0 {
					note = strings.TrimSpace(l[j+len("VERIF-NOTE"):])
				}
				if strings.HasPrefix(l, "panic: ") && !strings.Contains(l, "test timed out") && note != "" {
					h.Fail = append(h.Fail, d+": "+l+"; "+note)
					break
				}
			}
		}
		if (err != nil || !ran) && len(h.Fail) == 0 {
			h.Skipped = append(h.Skipped, d+": "+trunc(txt, 1500))
		}
	}
	return h
}

// literals of the package's current source: pieces for the search
func literals(dir string) []string {
	set := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := goparser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.STRING, token.CHAR:
				if l.Kind == token.CHAR {
					if r, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
						if r < 256 {
							set[string([]byte{byte(r)})] = true
						} else {
							set[string(r)] = true
						}
					}
					break
				}
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) < 200 {
					set[s] = true
				}
			case token.INT:
				if n, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					set[strconv.FormatInt(n, 10)] = true
					if n >= 0 && n < 256 {
						set[string([]byte{byte(n)})] = true
					}
				}
			}
			return true
		})
	}
	return sortedKeys(set)
}

// modelStrings: the string values of the verifier's counterexamples
func (k *checker) modelStrings() []string {
	set := map[string]bool{}
	for _, r := range k.res {
		for _, o := range r.Failed() {
			for _, m := range modelStrRe.FindAllStringSubmatch(o.Model, -1) {
				s := modelEscRe.ReplaceAllStringFunc(strings.ReplaceAll(m[1], `""`, `"`), func(e string) string {
					n, err := strconv.ParseInt(strings.Trim(e[2:], "{}"), 16, 32)
					if err != nil || n > 255 {
						return e
					}
					return string([]byte{byte(n)})
				})
				if len(s) < 4096 {
					set[s] = true
				}
			}
		}
	}
	return sortedKeys(set)
}

var modelStrRe = regexp.MustCompile(`"((?:[^"]|"")*)"`)
var modelEscRe = regexp.MustCompile(`\\u(\{[0-9a-fA-F]+\}|[0-9a-fA-F]{4})`)

// ---------------------------------------------------------------- command

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	tier := fs.String("tier", "", "")
	noProof := fs.Bool("noproof", false, "only the counterexample search")
	noHarness := fs.Bool("noharness", false, "only the proof")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var proofFail []string
	k := &checker{prop: *prop, to: 20, res: map[string]*FnResult{}, uses: map[string][]string{}, lem: map[string]*FnResult{}}
	if *tier == "thorough" {
		k.to = 30
	} else {
		loadLearned(*root)
	}
	var h *harnessOut
	if *noHarness {
		h = &harnessOut{}
	} else {
		b := 60.0
		if *tier == "thorough" {
			b = 300
		}
		h = runHarness(*repo, *root, *prop, *tier, seed, b, nil)
	}
	// the search for a failing input comes first: once one is known the proof attempt is only there to name the obligation
	budget := 650.0
	if *tier == "thorough" {
		budget = 3000
	}
	if len(h.Fail) > 0 {
		budget = 60
	}
	deadline = time.Now().Add(time.Duration(budget) * time.Second)
	var loadErr []string
	if !*noProof {
		func() {
			defer func() {
				if r := recover(); r != nil {
					proofFail = append(proofFail, fmt.Sprint("verifier error: ", r))
				}
			}()
			sp, err := loadSpecs(*root + "/contracts")
			if err != nil {
				proofFail = append(proofFail, "contracts: "+err.Error())
				return
			}
			pr, err := loadProg(*repo, *root+"/stubs/repo.mod", []string{"./..."}, sp)
			if err != nil {
				proofFail = append(proofFail, "source does not load: "+err.Error())
				return
			}
			loadErr = pr.loadErr
			k.pr, k.sp = pr, sp
			k.run()
			proofFail = k.failures()
			if len(k.order) == 0 {
				proofFail = append(proofFail, "no contract is listed under "+*prop)
			}
		}()
	}
	// the verifier's counterexamples are replayed against the real code
	if len(proofFail) > 0 && len(h.Fail) == 0 && !*noHarness && k.pr != nil {
		if ms := k.modelStrings(); len(ms) > 0 {
			h = runHarness(*repo, *root, *prop, *tier, seed+1, 60, ms)
		}
	}
	// known findings
	if b, err := os.ReadFile(*root + "/known-findings.txt"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "known: property="+*prop+" ") {
				fmt.Println("KNOWN-FINDING: " + strings.TrimPrefix(l, "known: "))
			}
		}
	}
	for _, s := range h.Skipped {
		fmt.Println("counterexample search did not run:", trunc(s, 400))
	}
	viol := len(proofFail) > 0 || len(h.Fail) > 0
	k.evidence(*root, *prop, *tier, seed, time.Since(t0).Seconds(), proofFail, h, loadErr)
	if viol {
		os.MkdirAll(*root+"/replay", 0o755)
		rp := filepath.Join(*root, "replay", *prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s violated\n\n", *prop)
		if len(h.Fail) > 0 {
			fmt.Fprintf(&b, "failing inputs, replayed against the real code:\n")
			for _, f := range h.Fail {
				fmt.Fprintf(&b, "  %s\n", f)
			}
			fmt.Fprintf(&b, "\nreplay with:\n")
			for _, c := range h.Cmd {
				fmt.Fprintf(&b, "  VERIF_SEED=%d VERIF_TIER=%s; %s\n", seed, *tier, c)
			}
		}
		if len(proofFail) > 0 {
			fmt.Fprintf(&b, "\nfailed obligations:\n")
			for _, f := range proofFail {
				fmt.Fprintf(&b, "  %s\n", f)
			}
		}
		os.WriteFile(rp, []byte(b.String()), 0o644)
		for i, f := range proofFail {
			if i < 6 {
				fmt.Println("proof:", trunc(f, 300))
			}
		}
		for i, f := range h.Fail {
			if i < 4 {
				fmt.Println("input:", trunc(f, 300))
			}
		}
		s := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, rp)
		if len(h.Fail) == 0 {
			s += " no-failing-input-found"
		}
		fmt.Println(s)
		os.Exit(1)
	}
	fmt.Printf("property %s holds (%.1fs)\n", *prop, time.Since(t0).Seconds())
}

func (k *checker) evidence(root, prop, tier string, seed int, wall float64, fails []string, h *harnessOut, loadErr []string) {
	obl, dis := 0, 0
	back := map[string]int{}
	secs := 0.0
	assumed := map[string]bool{}
	type fnE struct {
		Name        string   `json:"function"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Exits       int      `json:"exits"`
		Reachable   int      `json:"reachable_exits"`
		Inlined     []string `json:"inlined,omitempty"`
		Used        []string `json:"contracts_used,omitempty"`
		Loops       []string `json:"loop_invariants,omitempty"`
		Secs        float64  `json:"seconds"`
		Demoted     bool     `json:"demoted_to_inlining,omitempty"`
	}
	var fns []fnE
	add := func(n string, r *FnResult) {
		e := fnE{Name: n, Exits: r.Exits, Reachable: r.Reach, Inlined: uniq(r.Inlined), Used: uniq(r.Used), Loops: r.Loops, Secs: r.Secs, Demoted: r.Demoted}
		for _, o := range r.Obls {
			e.Obligations++
			if o.OK {
				e.Discharged++
				back[o.Solver]++
			}
			secs += o.Secs
		}
		if !r.Demoted {
			obl += e.Obligations
			dis += e.Discharged
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, u := range r.Used {
			if c := k.sp.ByName[u]; c != nil && (c.Extern || c.Trusted) {
				assumed["contract of "+u] = true
			}
		}
		fns = append(fns, e)
	}
	for _, n := range k.order {
		add(n, k.res[n])
	}
	var ls []string
	for n := range k.lem {
		ls = append(ls, n)
	}
	sort.Strings(ls)
	for _, n := range ls {
		add("lemma "+n, k.lem[n])
	}
	as := sortedKeys(assumed)
	as = append(as, "Go SSA (golang.org/x/tools/go/ssa) of the current source and govc's semantics of it", "the solvers cvc5 and z3", "external module packages github.com/indigo-web/utils and chunkedbody replaced by stubs (module cache is empty offline)")
	if k.sp != nil {
		for _, c := range k.sp.Cons {
			if has(c.Props, prop) && c.Trusted {
				as = append(as, "trusted (bounded check only): "+c.Name)
			}
		}
	}
	lvl := "proof"
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": lvl, "wall_s": wall,
		"violations":  len(h.Fail) + len(fails),
		"assumptions": as,
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": dis,
			"checker_cmd":                "bin/govc check -prop " + prop,
			"trusted_base":               as,
			"functions":                  fns,
			"backends":                   back,
			"solver_seconds":             secs,
			"failed":                     fails,
			"counterexample_search":      map[string]interface{}{"packages": h.Ran, "cases": h.Cases, "failing_inputs": h.Fail, "not_run": h.Skipped},
			"source_load_notes":          loadErr,
			"evaluations":                h.Cases,
			"contracts_under_this_check": len(k.order),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(root+"/evidence", 0o755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func uniq(l []string) []string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return sortedKeys(m)
}
