package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
)

// Guided proof search for goals over recursive functions: the conditions in the unfoldings are decided one by one,
// then arguments of like applications in the goal and in the unfoldings are proved equal; what was proved becomes a
// hypothesis. Every step is an entailment checked by a solver, so the order and choice of steps do not matter for
// soundness.

var guideLim = make(chan struct{}, 8)

func (pr *Prog) holds(q *Query, t float64) bool {
	l := *q
	l.lite = true
	s := pr.build(&l, pr.liteFuel())
	if s.triv {
		return true
	}
	return solve(s.text, t).res == "unsat"
}

func (pr *Prog) guided(q *Query, timeout float64) bool {
	cur := *q
	tried := map[*Term]bool{}
	note := func(f *Term) {
		cur.hyps = append(cur.hyps[:len(cur.hyps):len(cur.hyps)], f)
	}
	par := func(cs []*Term, both bool) int {
		got := make([]*Term, len(cs))
		for _, neg := range []bool{false, true} {
			if neg && !both {
				break
			}
			var wg sync.WaitGroup
			for i, c := range cs {
				if got[i] != nil {
					continue
				}
				if neg {
					c = Not(c)
				}
				x := cur
				x.goal, x.lite = c, true
				s := pr.build(&x, pr.liteFuel()) // terms are not built concurrently
				if s.triv {
					got[i] = c
					continue
				}
				wg.Add(1)
				go func(i int, c *Term) {
					defer wg.Done()
					guideLim <- struct{}{}
					defer func() { <-guideLim }()
					if solve(s.text, 1.5).res == "unsat" {
						got[i] = c
					}
				}(i, c)
			}
			wg.Wait()
		}
		n := 0
		for _, g := range got {
			if g != nil {
				if verbose > 2 {
					fmt.Println("guide:", g)
				}
				note(g)
				n++
			}
		}
		return n
	}
	for round := 0; round < 4 && !late(); round++ {
		l := cur
		l.lite = true
		s := pr.build(&l, pr.liteFuel())
		if s.triv {
			return true
		}
		var cs []*Term
		for _, b := range s.unf {
			atoms(b, func(a *Term) {
				if !tried[a] && len(cs) < 48 {
					tried[a] = true
					cs = append(cs, a)
				}
			})
		}
		n := par(cs, true)
		// arguments of applications in the goal against those of the unfoldings
		var es []*Term
		ga := apps(s.fs[len(s.fs)-1:])
		for _, u := range ga {
			for _, v := range apps(s.unf) {
				if u == v || u.S != v.S || len(u.Args) != len(v.Args) {
					continue
				}
				for i := range u.Args {
					e := Eq(u.Args[i], v.Args[i])
					if e != True && e != False && !tried[e] && len(es) < 48 {
						tried[e] = true
						es = append(es, e)
					}
				}
			}
		}
		if verbose > 2 {
			fmt.Println("guide: tries", len(es), "argument equalities")
		}
		// arguments of opaque applications in the unfoldings against those in the hypotheses
		var os []*Term
		ha := apps(cur.hyps)
		for _, u := range apps(s.unf) {
			if !pr.opaque[strings.TrimPrefix(u.S, "fn:")] {
				continue
			}
			for _, v := range ha {
				if u == v || u.S != v.S || len(u.Args) != len(v.Args) {
					continue
				}
				for i := range u.Args {
					e := Eq(u.Args[i], v.Args[i])
					if e != True && e != False && !tried[e] && len(os) < 32 {
						tried[e] = true
						os = append(os, e)
					}
				}
			}
		}
		n += par(os, false)
		n += par(es, false)
		if pr.holds(&cur, timeout) {
			return true
		}
		if n == 0 {
			break
		}
	}
	s := pr.build(&cur, 2)
	if hdump != "" {
		l := cur
		l.lite = true
		os.WriteFile(fmt.Sprintf("%s/g%d.smt2", hdump, termCnt), []byte("; "+q.name+"\n"+pr.build(&l, pr.liteFuel()).text), 0o644)
		os.WriteFile(fmt.Sprintf("%s/gf%d.smt2", hdump, termCnt), []byte("; "+q.name+"\n"+s.text), 0o644)
	}
	return s.triv || solve(s.text, timeout).res == "unsat"
}

func (pr *Prog) guides(goal *Term) bool {
	for _, a := range apps([]*Term{goal}) {
		for _, g := range pr.guide {
			if a.S == "fn:"+g {
				return true
			}
		}
	}
	return false
}

// atoms: the atomic formulas and ite conditions of an unfolding
func atoms(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || boundVar(x) {
			return
		}
		seen[x] = true
		for _, a := range x.Args {
			rec(a)
		}
		if x.Sort == SBool && x != True && x != False {
			switch x.Op {
			case "and", "or", "not", "=>", "ite", "forall":
			default:
				f(x)
			}
		}
	}
	rec(t)
}

func apps(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		walk(t, map[*Term]bool{}, func(x *Term) {
			if x.Op == "app" && strings.HasPrefix(x.S, "fn:") && !seen[x] && !boundVar(x) {
				seen[x] = true
				out = append(out, x)
			}
		})
	}
	return out
}
