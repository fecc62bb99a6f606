package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Query struct {
	hyps  []*Term
	goal  *Term
	extra []*Term
	name  string
	seq   int
	inst  []*Term // terms at which quantified hypotheses are instantiated
	lite  bool    // fewer background facts
	tiny  bool    // only hypotheses over the constants of the goal
	group int     // once one query of a group fails, the others are not needed
}

func (ex *Exec) query(st *State, g *Term) *Query {
	q := &Query{hyps: st.pc[:len(st.pc):len(st.pc)], goal: g, inst: ex.inst}
	if ex.old != nil {
		q.extra = ex.old.pc[:len(ex.old.pc):len(ex.old.pc)]
	}
	return q
}

// ---------------------------------------------------------------- context simplification

type ctxSimp struct {
	eq   map[*Term]*Term // atom -> True/False
	ge   map[string]*big.Int
	memo map[*Term]*Term
	iv   *State
}

func linKey(l *lin) string {
	var b []byte
	for _, k := range l.keys() {
		b = strconv.AppendInt(b, int64(k.id), 10)
		b = append(b, ':')
		b = l.m[k].Append(b, 10)
		b = append(b, ',')
	}
	return string(b)
}

func newCtx() *ctxSimp {
	return &ctxSimp{eq: map[*Term]*Term{}, ge: map[string]*big.Int{}, memo: map[*Term]*Term{}, iv: newState()}
}

func (c *ctxSimp) add(h *Term) {
	c.iv.learn(h)
	switch h.Op {
	case "ge0":
		l := toLin(h.Args[0])
		k := linKey(l)
		if o, ok := c.ge[k]; !ok || l.c.Cmp(o) < 0 {
			c.ge[k] = l.c
		}
	case "not":
		c.eq[h.Args[0]] = False
	case "true", "false":
	default:
		c.eq[h] = True
	}
	if h.Op == "=" && h.Args[0].Sort == SInt {
		l := toLin(h.Args[0]).sub(toLin(h.Args[1]))
		for _, s := range []int64{1, -1} {
			m := l.scale(big.NewInt(s))
			k := linKey(m)
			if o, ok := c.ge[k]; !ok || m.c.Cmp(o) < 0 {
				c.ge[k] = m.c
			}
		}
	}
}

func (c *ctxSimp) atom(t *Term) *Term {
	if v, ok := c.eq[t]; ok {
		return v
	}
	if t.Op == "ge0" {
		if c.iv.geK(t.Args[0]) {
			return True
		}
		if c.iv.geK(Sub(Int(-1), t.Args[0])) {
			return False
		}
		l := toLin(t.Args[0])
		if o, ok := c.ge[linKey(l)]; ok && l.c.Cmp(o) >= 0 {
			return True
		}
		n := l.scale(big.NewInt(-1))
		n.c.Sub(n.c, big.NewInt(1))
		if o, ok := c.ge[linKey(n)]; ok && n.c.Cmp(o) >= 0 {
			return False
		}
	}
	if t.Op == "=" && t.Args[0].Sort == SInt {
		l := toLin(t.Args[0]).sub(toLin(t.Args[1]))
		for _, s := range []int64{1, -1} {
			m := l.scale(big.NewInt(s))
			m.c.Add(m.c, big.NewInt(1)) // m+1 <= 0 ?
			n := m.scale(big.NewInt(-1))
			// n = -(s*l) - 1 >= 0  means s*l <= -1: disequal
			if o, ok := c.ge[linKey(n)]; ok && n.c.Cmp(o) >= 0 {
				return False
			}
		}
	}
	return nil
}

func (c *ctxSimp) simp(t *Term) *Term {
	if t.Sort == SBool {
		if v := c.atom(t); v != nil {
			return v
		}
	}
	if len(t.Args) == 0 || t.Op == "forall" {
		return t
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = c.simp(a)
	}
	r := rebuild(t, args)
	if r.Op == "nth" && r.Args[0].Op == "cat" {
		r = nthCtx(r.Args[0], r.Args[1], c.iv.geK)
	}
	if r != t && r.Sort == SBool {
		if v := c.atom(r); v != nil {
			r = v
		}
	}
	c.memo[t] = r
	return r
}

// ---------------------------------------------------------------- assembling

type script struct {
	text string
	triv bool // proved by simplification
	vars []*Term
	fs   []*Term // hypotheses and negated goal, without background axioms
	unf  []*Term // unfoldings of recursive functions
}

var nonInt = map[string]bool{}

// instHyps replaces quantified hypotheses by their instances at the goal's fresh constants and
// the contract's instance terms (dropping a hypothesis is sound)
func instHyps(hs []*Term, goal *Term, extra []*Term) []*Term {
	any := false
	for _, h := range hs {
		any = any || h.Op == "forall"
	}
	if !any {
		return hs
	}
	var ts []*Term
	walk(goal, map[*Term]bool{}, func(t *Term) {
		if t.Op == "const" && (strings.HasPrefix(t.S, "all_") || strings.HasPrefix(t.S, "sk:")) {
			ts = append(ts, t)
		}
	})
	ts = append(ts, extra...)
	if len(ts) == 0 || len(ts) > 6 {
		return hs
	}
	var out []*Term
	seen := map[*Term]bool{}
	add := func(h *Term) {
		if !seen[h] && h != True {
			seen[h] = true
			out = append(out, h)
		}
	}
	var rec func(h *Term)
	rec = func(h *Term) {
		if h.Op == "and" {
			for _, a := range h.Args {
				rec(a)
			}
			return
		}
		if h.Op != "forall" {
			add(h)
			return
		}
		n := 0
		for _, t := range ts {
			if t.Sort == h.Args[1].Sort {
				n++
				rec(Subst(h.Args[0], map[*Term]*Term{h.Args[1]: t}, map[*Term]*Term{}))
			}
		}
		if n == 0 {
			add(h)
		}
	}
	for _, h := range hs {
		rec(h)
	}
	return out
}

func (pr *Prog) build(q *Query, fuel int) *script {
	hs := []*Term{}
	seen := map[*Term]bool{}
	addH := func(h *Term) {
		if h.Op == "and" {
			for _, a := range h.Args {
				if !seen[a] {
					seen[a] = true
					hs = append(hs, a)
				}
			}
			return
		}
		if h != True && !seen[h] {
			seen[h] = true
			hs = append(hs, h)
		}
	}
	for _, h := range q.extra {
		addH(h)
	}
	for _, h := range q.hyps {
		addH(h)
	}
	// goal shapes: (a ==> b) moves a to the hypotheses
	goal := q.goal
	for goal.Op == "=>" {
		addH(goal.Args[0])
		goal = goal.Args[1]
	}
	// a quantified goal is proved for a fresh constant; quantified hypotheses are instantiated with it
	for goal.Op == "forall" {
		v := goal.Args[1]
		sk := Const("sk:"+v.S, v.Sort)
		goal = Subst(goal.Args[0], map[*Term]*Term{v: sk}, map[*Term]*Term{})
		for goal.Op == "=>" {
			addH(goal.Args[0])
			goal = goal.Args[1]
		}
	}
	if q.lite { // hypotheses about recursive functions the goal does not depend on are left out
		want := pr.recSyms(goal)
		var l []*Term
		for _, h := range hs {
			fs := map[string]bool{}
			walk(h, map[*Term]bool{}, func(x *Term) {
				if x.Op == "app" && strings.HasPrefix(x.S, "fn:") {
					fs[x.S[3:]] = true
				}
			})
			rel := len(fs) == 0
			for f := range fs {
				rel = rel || want[f]
			}
			if rel {
				l = append(l, h)
			}
		}
		hs = l
	}
	if q.tiny {
		cs := map[*Term]bool{}
		collect := func(t *Term, f func(*Term)) {
			walk(t, map[*Term]bool{}, func(x *Term) {
				if x.Op == "const" {
					f(x)
				}
			})
		}
		collect(goal, func(c *Term) { cs[c] = true })
		var l []*Term
		for _, h := range hs {
			in := true
			collect(h, func(c *Term) { in = in && cs[c] })
			if in {
				l = append(l, h)
			}
		}
		hs = l
	}
	hs = instHyps(hs, goal, q.inst)
	ctx := newCtx()
	for _, h := range hs {
		if h == False {
			return &script{triv: true}
		}
		ctx.add(h)
	}
	goal = ctx.simp(goal)
	for goal.Op == "=>" {
		addH(goal.Args[0])
		ctx.add(goal.Args[0])
		goal = goal.Args[1]
	}
	if goal == True {
		return &script{triv: true}
	}
	var fs []*Term
	for _, h := range hs {
		// Sub-terms are simplified under all hypotheses (what results is implied by them);
		// the hypothesis itself stays, so that no two can erase each other.
		r := h
		if h.Op == "not" && len(h.Args[0].Args) > 0 {
			x := h.Args[0]
			args := make([]*Term, len(x.Args))
			for i, a := range x.Args {
				args[i] = ctx.simp(a)
			}
			r = Not(rebuild(x, args))
		} else if len(h.Args) > 0 && h.Op != "forall" {
			args := make([]*Term, len(h.Args))
			for i, a := range h.Args {
				args[i] = ctx.simp(a)
			}
			r = rebuild(h, args)
		}
		if r == True && h.Op != "=>" && h.Op != "or" {
			r = h
		}
		if r == False {
			return &script{triv: true}
		}
		fs = append(fs, r)
	}
	fs = append(fs, Not(goal))
	n := len(fs)
	var unf []*Term
	fs = append(fs, pr.axioms(fs, fuel, ctx, q.lite, q.tiny, q.lite && !q.tiny, &unf)...)
	sc := render(fs)
	sc.fs = fs[:n]
	sc.unf = unf
	return sc
}

// recSyms: the recursive specification functions a term depends on
func (pr *Prog) recSyms(t *Term) map[string]bool {
	out := map[string]bool{}
	var expr func(e *Expr)
	var fn func(n string)
	expr = func(e *Expr) {
		if e == nil {
			return
		}
		if e.Op == "call" {
			fn(e.Name)
		}
		for _, a := range e.Args {
			expr(a)
		}
	}
	fn = func(n string) {
		f := pr.specs.Fns[n]
		if f == nil || out[n] {
			return
		}
		out[n] = true
		expr(f.Body)
	}
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == "app" && strings.HasPrefix(x.S, "fn:") {
			fn(x.S[3:])
		}
	})
	return out
}

func hasIte(t *Term) bool {
	f := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == "ite" {
			f = true
		}
	})
	return f
}

// axioms instantiates the background theory on the ground terms of fs.
func (pr *Prog) axioms(fs []*Term, fuel int, ctx *ctxSimp, lite, idx, opq bool, unf *[]*Term) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	seen := map[*Term]bool{}
	work := fs
	level := map[*Term]int{}
	var wins, exts, nths []*Term
	chars := map[[2]*Term]bool{} // (string, one-character needle)
	var charl [][2]*Term
	var subs []*Term
	for round := 0; len(work) > 0 && round < 40; round++ {
		var terms []*Term
		for _, f := range work {
			walk(f, seen, func(t *Term) { terms = append(terms, t) })
		}
		var next []*Term
		emit := func(t *Term) {
			t = ctx.simp(t)
			if t == True || done[t] {
				return
			}
			done[t] = true
			out = append(out, t)
			next = append(next, t)
		}
		for _, t := range terms {
			if boundVar(t) {
				continue
			}
			switch t.Op {
			case "app":
				switch {
				case strings.HasPrefix(t.S, "fn:"):
					f := pr.specs.Fns[t.S[3:]]
					if f != nil && f.Rec && level[t] < fuel && !(opq && pr.opaque[f.Name]) {
						body := pr.unfold(f, t)
						b := ctx.simp(body)
						// nested applications get a deeper level
						walk(b, map[*Term]bool{}, func(x *Term) {
							if x.Op == "app" && strings.HasPrefix(x.S, "fn:") && x != t && !seen[x] {
								if l, ok := level[x]; !ok || l < level[t]+1 {
									level[x] = level[t] + 1
								}
							}
						})
						emit(Eq(t, b))
						*unf = append(*unf, b)
					}
				case strings.HasPrefix(t.S, "box:"):
					for i, a := range t.Args {
						emit(Eq(App(fmt.Sprintf("unbox:%s:%d", t.S[4:], i), a.Sort, t), a))
					}
				case strings.HasPrefix(t.S, "sub:"):
					emit(Eq(App("inv"+t.S, SInt, t), t.Args[0]))
					emit(Lt(t, Int(-1000000)))
					for _, u := range subs {
						if u.S != t.S {
							emit(Ne(u, t))
						}
					}
					subs = append(subs, t)
				case strings.HasPrefix(t.S, "H:"):
					// nothing
				case t.S == "eqfold" || t.S == "asciifold":
					a, b := t.Args[0], t.Args[1]
					if t.S == "asciifold" {
						emit(Implies(t, Eq(Len(a), Len(b))))
						if a.IsStr() {
							emit(Eq(t, InRe(b, foldRe(a.S))))
						}
					}
					emit(Implies(Eq(a, b), t))
					emit(Implies(And(t, Eq(Len(a), Int(0))), Eq(Len(b), Int(0))))
					emit(Implies(And(t, Eq(Len(b), Int(0))), Eq(Len(a), Int(0))))
				case t.S == "itoa":
					n := t.Args[0]
					emit(Implies(Ge(n, Int(0)), InRe(t, `(re.+ (re.range "0" "9"))`)))
					emit(Implies(Ge(n, Int(0)), Eq(App("atoi", SInt, t), n)))
				}
			case "win":
				raw := intern("len", SInt, nil, "", t)
				emit(Eq(raw, t.Args[3]))
				for _, w := range wins {
					if w.S == t.S && w.Args[0] == t.Args[0] && w.Args[1] == t.Args[1] {
						for _, p := range [][2]*Term{{w, t}, {t, w}} {
							big, small := p[0], p[1]
							d := Sub(small.Args[2], big.Args[2])
							c := And(Ge(d, Int(0)), Ge(small.Args[3], Int(0)), Le(Add(d, small.Args[3]), big.Args[3]))
							k := ctx.simp(c)
							if k != True { // overlapping windows: the end of one is the start of the other
								n := Sub(big.Args[3], d)
								if ctx.simp(And(Ge(d, Int(0)), Ge(n, Int(0)), Ge(small.Args[3], n))) == True {
									emit(Eq(Extract(big, d, n), Extract(small, Int(0), n)))
								}
							}
							if lite && k != True {
								continue
							}
							emit(Implies(c, Eq(small, Extract(big, d, small.Args[3]))))
						}
					} else if w.S == t.S && w.Args[0] == t.Args[0] && w.Args[2] == t.Args[2] && w.Args[3] == t.Args[3] {
						// congruence covers equal refs
					}
				}
				wins = append(wins, t)
			case "indexof", "contains":
				if idx && len(t.Args) > 1 && t.Args[1].IsStr() && len(t.Args[1].S) == 1 && t.Args[0].Sort == SString &&
					(len(t.Args) < 3 || t.Args[2].IsInt() && t.Args[2].N.Sign() == 0) {
					s, c := t.Args[0], t.Args[1]
					key := [2]*Term{s, c}
					if !chars[key] {
						chars[key] = true
						charl = append(charl, key)
						x, y := IndexOf(s, c, Int(0)), Contains(s, c)
						code := Int(int64(c.S[0]))
						emit(Eq(y, Ge(x, Int(0))))
						emit(Or(Eq(x, Int(-1)), And(Ge(x, Int(0)), Lt(x, Len(s)), Eq(Nth(s, x), code))))
						for _, n := range nths {
							if n.Args[0] == s {
								k := n.Args[1]
								emit(Implies(And(Ge(k, Int(0)), Lt(k, Len(s)), Eq(n, code)), And(y, Le(x, k))))
							}
						}
					}
				}
			case "extract":
				s, a, n := t.Args[0], t.Args[1], t.Args[2]
				for _, u := range exts {
					if u.Args[0] != s || u.Args[1] != a {
						continue
					}
					for _, p := range [][2]*Term{{u, t}, {t, u}} {
						d := Sub(p[1].Args[2], p[0].Args[2])
						if d.IsInt() && d.N.Cmp(big.NewInt(1)) == 0 {
							l := p[0].Args[2]
							emit(Implies(And(Ge(l, Int(0)), Ge(a, Int(0)), Lt(Add(a, l), Len(s))),
								Eq(p[1], Cat(s.Sort, p[0], Unit(s.Sort, Nth(s, Add(a, l)))))))
						}
					}
				}
				_ = n
				exts = append(exts, t)
			case "zeros":
				raw := intern("len", SInt, nil, "", t)
				emit(Eq(raw, Max0(t.Args[0])))
			case "nth":
				if t.Args[0].Sort == SString {
					nths = append(nths, t)
					for _, key := range charl {
						if s, c, k := key[0], key[1], t.Args[1]; s == t.Args[0] {
							emit(Implies(And(Ge(k, Int(0)), Lt(k, Len(s)), Eq(t, Int(int64(c.S[0])))), And(Contains(s, c), Le(IndexOf(s, c, Int(0)), k))))
						}
					}
					s, i := t.Args[0], t.Args[1]
					emit(Implies(And(Ge(i, Int(0)), Lt(i, Len(s))), And(Ge(t, Int(0)), Le(t, Int(255)))))
				}
				if w := t.Args[0]; w.Op == "win" && w.Sort != SString {
					pr.elemFacts(t, w, emit)
				}
			case "mod":
				if b := t.Args[1]; b.IsInt() && b.N.Sign() > 0 {
					emit(Lt(t, b))
				}
			}
		}
		work = next
	}
	return out
}

// elemFacts: facts of every Go value stored in a typed slice
func (pr *Prog) elemFacts(t, w *Term, emit func(*Term)) {
	dt := dataTypes[t.Sort]
	if dt == nil {
		return
	}
	for i, n := range dt.sels {
		if !strings.HasSuffix(n, ".len") || i < 2 || i+1 >= len(dt.sels) || !strings.HasSuffix(dt.sels[i+1], ".cap") {
			continue
		}
		r, o, l, c := Sel(dt, i-2, t), Sel(dt, i-1, t), Sel(dt, i, t), Sel(dt, i+1, t)
		emit(And(Ge(o, Int(0)), Ge(l, Int(0)), Ge(c, l)))
		emit(Implies(Eq(r, Int(0)), Eq(c, Int(0))))
		if w.Args[0].Op == "const" && w.Args[0].S == "mv!0" {
			emit(And(Lt(r, Const("W!0", SInt)), Ge(r, Int(globLow))))
		}
	}
}

func boundVar(t *Term) bool {
	b := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == "const" && strings.HasPrefix(x.S, "q_") {
			b = true
		}
	})
	return b
}

func foldRe(s string) string {
	var b strings.Builder
	b.WriteString("(re.++ (str.to_re \"\")")
	for i := 0; i < len(s); i++ {
		c := s[i]
		l := asciiLower(string([]byte{c}))
		u := strings.ToUpper(l)
		if l != u && c < 128 {
			b.WriteString(" (re.union " + reLit(l[0]) + " " + reLit(u[0]) + ")")
		} else {
			b.WriteString(" " + reLit(c))
		}
	}
	return b.String() + ")"
}

func (pr *Prog) unfold(f *SpecFn, t *Term) *Term {
	env := &SpecEnv{ex: &Exec{pr: pr}, vars: map[string]SpecVal{}}
	for i, p := range f.Params {
		env.vars[p.Name] = tv(t.Args[i])
	}
	return env.term(f.Body)
}

func render(fs []*Term) *script {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	decl := map[string]bool{}
	sorts := map[string]bool{}
	var vars []*Term
	cnt := map[*Term]int{}
	seen := map[*Term]bool{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, f := range fs {
		visit(f)
	}
	var useSort func(s Sort)
	var dts []string
	useSort = func(s Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		switch {
		case strings.HasPrefix(s, "(Seq "):
			useSort(seqElem(s))
		case strings.HasPrefix(s, "(Array "):
			x := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
			i := strings.IndexByte(x, ' ')
			useSort(x[:i])
			useSort(x[i+1:])
		case strings.HasPrefix(s, "U_"):
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
		default:
			if dt, ok := dataTypes[s]; ok {
				for _, x := range dt.sorts {
					useSort(x)
				}
				var d strings.Builder
				fmt.Fprintf(&d, "(declare-datatypes ((%s 0)) (((mk_%s", s, s)
				for i, n := range dt.sels {
					fmt.Fprintf(&d, " (|%s| %s)", n, dt.sorts[i])
				}
				d.WriteString("))))\n")
				b.WriteString(d.String())
				dts = append(dts, s)
			}
		}
	}
	for _, t := range order {
		useSort(t.Sort)
		for _, a := range t.Args {
			useSort(a.Sort)
		}
	}
	name := map[*Term]string{}
	for _, t := range order {
		switch t.Op {
		case "const":
			if !decl[t.S] {
				decl[t.S] = true
				fmt.Fprintf(&b, "(declare-const |%s| %s)\n", t.S, t.Sort)
				if !strings.HasPrefix(t.S, "q_") {
					vars = append(vars, t)
				}
			}
		case "app", "win", "zeros":
			n := t.S
			if t.Op == "win" {
				n = winName(t)
			}
			if t.Op == "zeros" {
				n = "zeros"
			}
			sig := n
			if !decl["f:"+sig] {
				decl["f:"+sig] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, a.Sort)
				}
				fmt.Fprintf(&b, "(declare-fun |%s| (%s) %s)\n", n, strings.Join(as, " "), t.Sort)
			}
		}
	}
	inForall := map[*Term]bool{}
	for _, t := range order {
		if t.Op == "forall" {
			walk(t.Args[0], map[*Term]bool{}, func(x *Term) { inForall[x] = true })
		}
	}
	rd := func(t *Term) string { return name[t] }
	for _, t := range order {
		a := make([]string, len(t.Args))
		for i, x := range t.Args {
			a[i] = rd(x)
		}
		s := smtOp(t, a)
		if cnt[t] > 1 && len(s) > 24 && !inForall[t] {
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&b, "(define-fun |%s| () %s %s)\n", n, t.Sort, s)
			s = "|" + n + "|"
		}
		name[t] = s
	}
	for _, f := range fs {
		fmt.Fprintf(&b, "(assert %s)\n", name[f])
	}
	return &script{text: b.String(), vars: vars}
}

// ---------------------------------------------------------------- solvers

var (
	solverSem   = make(chan struct{}, 8)
	solverNanos = map[string]*int64{"cvc5": new(int64), "z3": new(int64), "z3-new": new(int64)}
	solverRuns  = map[string]*int64{"cvc5": new(int64), "z3": new(int64), "z3-new": new(int64)}
	solverWins  = map[string]*int64{"cvc5": new(int64), "z3": new(int64), "z3-new": new(int64)}
	cacheMu     sync.Mutex
	answerCache = map[string]answer{}
	dumpDir     string
	dumpN       int64
)

type answer struct {
	res    string // unsat, sat, unknown
	solver string
	secs   float64
}

func solverArgs(name string, t float64) (string, []string) {
	ms := int(t * 1000)
	switch name {
	case "cvc5":
		return "cvc5", []string{"--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms)}
	case "cvc5b":
		return "cvc5", []string{"--lang=smt2", "--strings-exp", "--no-strings-lazy-pp", fmt.Sprintf("--tlimit=%d", ms)}
	}
	return name, []string{"-smt2", "-in", fmt.Sprintf("-T:%d", int(t+0.999))}
}

func runSolver(ctx context.Context, name, text string, t float64) string {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown"
	}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown"
	}
	bin, args := solverArgs(name, t)
	c2, cancel := context.WithTimeout(ctx, time.Duration((t+1.5)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(c2, bin, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	key := name
	if key == "cvc5b" {
		key = "cvc5"
	}
	atomic.AddInt64(solverNanos[key], int64(time.Since(t0)))
	atomic.AddInt64(solverRuns[key], 1)
	o := out.String()
	first := strings.TrimSpace(o)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	if strings.Contains(first, "error") && verbose > 0 {
		fmt.Fprintf(os.Stderr, "solver %s: %s\n", name, first)
		if verbose > 1 {
			os.WriteFile("/tmp/govc_err.smt2", []byte(text), 0o644)
		}
	}
	switch first {
	case "unsat", "sat":
		return first
	}
	return "unknown"
}

// deadline: no query runs past it
var deadline time.Time

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }

// solve decides satisfiability of a script with a portfolio.
func solve(text string, timeout float64) answer {
	cacheMu.Lock()
	a, ok := answerCache[text]
	cacheMu.Unlock()
	if ok && (a.res != "unknown" || a.secs >= timeout) {
		return a
	}
	if !deadline.IsZero() {
		left := time.Until(deadline).Seconds()
		if left < 0.2 {
			return answer{res: "unknown", solver: "time budget used up"}
		}
		if timeout > left {
			timeout = left
		}
	}
	full := text + "(check-sat)\n"
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%04d.smt2", n)), []byte(full), 0o644)
	}
	t0 := time.Now()
	quick := 1.0
	if quick > timeout {
		quick = timeout
	}
	r := runSolver(context.Background(), "cvc5", full, quick)
	who := "cvc5"
	if r == "unknown" {
		ctx, cancel := context.WithCancel(context.Background())
		type ans struct{ n, r string }
		ch := make(chan ans, 3)
		ss := []string{"z3-new", "z3", "cvc5"}
		if timeout <= quick {
			ss = ss[:2]
		}
		for _, n := range ss {
			n := n
			go func() { ch <- ans{n, runSolver(ctx, n, full, timeout)} }()
		}
		for range ss {
			x := <-ch
			if x.r != "unknown" {
				r, who = x.r, x.n
				break
			}
		}
		cancel()
	}
	a = answer{r, who, time.Since(t0).Seconds()}
	if r == "unknown" {
		a.secs = timeout
	} else {
		atomic.AddInt64(solverWins[who], 1)
	}
	cacheMu.Lock()
	answerCache[text] = a
	cacheMu.Unlock()
	return a
}

// proveAll: which goals follow from their hypotheses
var hdump = os.Getenv("GOVC_HDUMP")

func (pr *Prog) proveAll(qs []*Query, timeout float64) []bool {
	out, _ := pr.proveAll2(qs, timeout)
	return out
}

// liteFuel: with some functions opaque, the others are unfolded once only in the reduced queries
func (pr *Prog) liteFuel() int {
	if len(pr.opaque) > 0 {
		return 1
	}
	return 2
}

// proveAll2 also tells which goals were refuted (the others were not decided)
func (pr *Prog) proveAll2(qs []*Query, timeout float64) ([]bool, []bool) {
	out := make([]bool, len(qs))
	ref := make([]bool, len(qs))
	ss := make([]*script, len(qs))
	ls := make([]*script, len(qs))
	ts := make([]*script, len(qs))
	for i, q := range qs {
		ss[i] = pr.build(q, 2)
		if !ss[i].triv && q.group > 0 {
			l := *q
			l.lite = true
			if x := pr.build(&l, pr.liteFuel()); x.triv || len(x.text) < len(ss[i].text)*9/10 {
				ls[i] = x
			}
			l.tiny = true
			if x := pr.build(&l, 1); x.triv || len(x.text) < len(ss[i].text)*6/10 {
				ts[i] = x
			}
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := map[int]bool{}
	var later []int
	lim := make(chan struct{}, 8)
	for i, s := range ss {
		if s.triv {
			out[i] = true
			continue
		}
		wg.Add(1)
		go func(i int, s *script) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			g := qs[i].group
			mu.Lock()
			skip := g > 0 && failed[g]
			mu.Unlock()
			if skip {
				return
			}
			if l := ts[i]; l != nil {
				if l.triv || solve(l.text, math.Min(timeout, 4)).res == "unsat" {
					out[i] = true
					return
				}
			}
			if l := ls[i]; l != nil {
				if l.triv || solve(l.text, math.Min(timeout, 3)).res == "unsat" {
					out[i] = true
					return
				}
			}
			tm := timeout
			if g > 0 && len(pr.guide) > 0 && pr.guides(qs[i].goal) {
				tm = math.Min(tm, 3)
			}
			a := solve(s.text, tm)
			if a.res == "unknown" && g > 0 && pr.guides(qs[i].goal) {
				mu.Lock()
				later = append(later, i)
				mu.Unlock()
				return
			}
			if g > 0 && a.res != "unsat" {
				mu.Lock()
				failed[g] = true
				mu.Unlock()
			}
			out[i] = a.res == "unsat"
			ref[i] = a.res == "sat"
			if hdump != "" && !out[i] && qs[i].name != "" {
				os.WriteFile(fmt.Sprintf("%s/h%d_%d_%s.smt2", hdump, qs[i].seq, i, a.res), []byte("; "+qs[i].name+"\n"+s.text), 0o644)
				if ls[i] != nil {
					os.WriteFile(fmt.Sprintf("%s/l%d_%d_%s.smt2", hdump, qs[i].seq, i, a.res), []byte("; "+qs[i].name+"\n"+ls[i].text), 0o644)
				}
				if ts[i] != nil {
					os.WriteFile(fmt.Sprintf("%s/t%d_%d_%s.smt2", hdump, qs[i].seq, i, a.res), []byte("; "+qs[i].name+"\n"+ts[i].text), 0o644)
				}
			}
		}(i, s)
	}
	wg.Wait()
	sort.Ints(later)
	for _, i := range later {
		g := qs[i].group
		if failed[g] {
			continue
		}
		if out[i] = pr.guided(qs[i], timeout); !out[i] {
			failed[g] = true
		}
	}
	return out, ref
}

// discharge proves obligations in place: first with a short timeout; what remains is split on the conditions
// occurring in the goal and the hypotheses, each case being proved separately; what then remains gets the full
// timeout.
func (pr *Prog) discharge(obls []*Obl, olds []*Term, timeout float64) {
	type item struct {
		o  *Obl
		q  *Query
		s  *script
		lt bool
		l  *script // with fewer background facts (an answer other than unsat means nothing)
		t  *script // with fewer hypotheses (likewise)
	}
	lite := func(it *item) *item {
		q := *it.q
		q.lite = true
		if l := pr.build(&q, pr.liteFuel()); l.triv || len(l.text) < len(it.s.text) {
			it.l = l
		}
		q.tiny = true
		if l := pr.build(&q, 1); l.triv || len(l.text) < len(it.s.text)*6/10 {
			it.t = l
		}
		return it
	}
	par := func(its []*item, t float64, fin func(*item, answer)) {
		var wg sync.WaitGroup
		lim := make(chan struct{}, 6)
		for _, it := range its {
			wg.Add(1)
			go func(it *item) {
				defer wg.Done()
				lim <- struct{}{}
				defer func() { <-lim }()
				if it.t != nil && !it.lt {
					if it.t.triv {
						fin(it, answer{res: "unsat", solver: "simplifier"})
						return
					}
					if a := solve(it.t.text, t/2); a.res == "unsat" {
						fin(it, a)
						return
					}
				}
				if it.l == nil {
					it.lt = true
				}
				if it.l != nil && !it.lt {
					it.lt = true
					if it.l.triv {
						fin(it, answer{res: "unsat", solver: "simplifier"})
						return
					}
					if a := solve(it.l.text, t/2); a.res == "unsat" {
						fin(it, a)
						return
					}
				}
				fin(it, solve(it.s.text, t))
			}(it)
		}
		wg.Wait()
	}
	var left []*item
	for _, o := range obls {
		if o.OK {
			continue
		}
		if late() {
			o.Why = "time budget used up"
			continue
		}
		q := &Query{hyps: o.Hyps, goal: o.Goal, extra: olds, inst: o.Inst}
		s := pr.build(q, 2)
		if s.triv {
			o.OK, o.Solver = true, "simplifier"
			continue
		}
		left = append(left, lite(&item{o: o, q: q, s: s}))
	}
	short := 3.0
	if short > timeout {
		short = timeout
	}
	var mu sync.Mutex
	done := func(it *item, a answer) {
		mu.Lock()
		defer mu.Unlock()
		it.o.Solver = a.solver
		it.o.Secs += a.secs
		it.o.Why = a.res
		if a.res == "unsat" {
			it.o.OK = true
		}
	}
	par(left, short, done)
	keep := func() {
		var l []*item
		for _, it := range left {
			if !it.o.OK {
				l = append(l, it)
			}
		}
		left = l
	}
	keep()
	if len(pr.guide) > 0 {
		for _, it := range left {
			if it.o.Why == "unknown" && !late() && pr.guides(it.q.goal) && pr.guided(it.q, timeout) {
				it.o.OK, it.o.Solver = true, "guided"
			}
		}
		keep()
	}
	// case splits
	var unk []*item
	for _, it := range left {
		if it.o.Why == "unknown" {
			unk = append(unk, it)
		}
	}
	if len(unk) > 0 && len(unk) <= 24 {
		cases := map[*Obl][]*item{}
		bad := map[*Obl]bool{}
		for _, it := range unk {
			cases[it.o] = []*item{it}
		}
		for depth := 0; depth < 4 && !late(); depth++ {
			var its []*item
			for _, it := range unk {
				if bad[it.o] || it.o.OK {
					continue
				}
				var next []*item
				for _, c := range cases[it.o] {
					cond := splitCond(c.s)
					if cond == nil {
						bad[it.o] = true
						break
					}
					for _, h := range []*Term{cond, Not(cond)} {
						q := *c.q
						q.hyps = append(c.q.hyps[:len(c.q.hyps):len(c.q.hyps)], h)
						s := pr.build(&q, 2)
						if !s.triv {
							next = append(next, lite(&item{o: it.o, q: &q, s: s}))
						}
					}
				}
				if bad[it.o] || len(next) > 12 {
					bad[it.o] = true
					continue
				}
				cases[it.o] = nil
				if len(next) == 0 {
					it.o.OK, it.o.Solver = true, "simplifier"
				}
				its = append(its, next...)
			}
			if len(its) == 0 {
				break
			}
			par(its, short, func(c *item, a answer) {
				mu.Lock()
				defer mu.Unlock()
				c.o.Secs += a.secs
				if a.res != "unsat" {
					cases[c.o] = append(cases[c.o], c)
				}
				if a.res == "sat" {
					bad[c.o] = true
				}
				if a.res == "unsat" {
					c.o.Solver = a.solver
				}
			})
			for _, it := range unk {
				if !bad[it.o] && !it.o.OK && len(cases[it.o]) == 0 {
					it.o.OK = true
				}
			}
		}
		keep()
	}
	if timeout > short {
		par(left, timeout, done)
		keep()
	}
	for i, it := range left {
		if i < 4 && !late() {
			it.o.Model = getModel(it.s, it.o.Solver)
		}
	}
}

// splitCond picks a condition to split on: the first ite condition of the goal, then of the hypotheses, then a
// disjunct of a hypothesis.
func splitCond(s *script) *Term {
	var c *Term
	look := func(t *Term) {
		walk(t, map[*Term]bool{}, func(x *Term) {
			if c == nil && x.Op == "ite" && !boundVar(x.Args[0]) && !hasIte(x.Args[0]) {
				c = x.Args[0]
			}
		})
	}
	for i := len(s.fs) - 1; i >= 0 && c == nil; i-- {
		if s.fs[i].Op != "forall" {
			look(s.fs[i])
		}
	}
	for i := len(s.fs) - 1; i >= 0 && c == nil; i-- {
		f := s.fs[i]
		if f.Op == "or" {
			c = f.Args[0]
		}
		if f.Op == "=>" {
			c = f.Args[0]
		}
		if f.Op == "not" && f.Args[0].Op == "and" {
			c = f.Args[0].Args[0]
		}
	}
	return c
}

// getModel asks for values of the string/int constants (seeds for replay)
func getModel(s *script, solver string) string {
	var vs []string
	for _, v := range s.vars {
		if (v.Sort == SString || v.Sort == SInt || v.Sort == SBool) && !strings.HasPrefix(v.S, "W!") {
			vs = append(vs, "|"+v.S+"|")
		}
	}
	sort.Strings(vs)
	if len(vs) == 0 {
		return ""
	}
	text := "(set-option :produce-models true)\n" + s.text + "(check-sat)\n(get-value (" + strings.Join(vs, " ") + "))\n"
	for _, n := range []string{"cvc5", "z3-new"} {
		bin, args := solverArgs(n, 5)
		ctx, cancel := context.WithTimeout(context.Background(), 7*time.Second)
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Stdin = strings.NewReader(text)
		out, _ := cmd.CombinedOutput()
		cancel()
		if strings.HasPrefix(string(out), "sat") {
			return string(out)
		}
	}
	return ""
}
