package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Name     string
	Missing  bool
	Err      string // unsupported construct, internal error
	Obls     []*Obl
	Inlined  []string
	Used     []string
	Assumed  []string
	Loops    []string
	Exits    int
	Reach    int
	Secs     float64
	Trusted  bool
	Aux      bool
	Demoted  bool
	ParamsOf string
}

func (r *FnResult) Failed() []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if !o.OK {
			out = append(out, o)
		}
	}
	return out
}

func (r *FnResult) OK() bool {
	return !r.Missing && r.Err == "" && len(r.Failed()) == 0
}

func (pr *Prog) verifyFunction(c *Contract, timeout float64) (res *FnResult) {
	pr.opaque, pr.guide = c.Opaque, c.Guide
	t0 := time.Now()
	res = &FnResult{Name: c.Name, Aux: c.Aux}
	defer func() { res.Secs = time.Since(t0).Seconds() }()
	fn := pr.funcByName(c.Name)
	if fn == nil || fn.Blocks == nil {
		res.Missing = true
		res.Err = "function not found in the source"
		return
	}
	if c.Timeout > 0 && timeout < c.Timeout {
		timeout = c.Timeout
	}
	ncase := len(c.Cases)
	if ncase == 0 {
		ncase = 1
	}
	noBound := map[ssa.Value]bool{}
	noGrow := map[string]bool{}
	noUnroll := map[*ssa.BasicBlock]bool{}
	for i := 0; i < ncase; i++ {
		full := false
	again:
		phiBound = map[*Term]*Term{}
		ex := &Exec{pr: pr, fn: fn, con: c, names: map[string]SpecVal{}, inlined: map[string]bool{}, used: map[string]bool{}, assumed: map[string]bool{}, maxPath: 3000, noBound: noBound, noGrow: noGrow, noUnroll: noUnroll, caseNo: i, full: full}
		if c.MaxPath > 0 {
			ex.maxPath = c.MaxPath
		}
		msg := ex.verifyCase(c, fn, i)
		if msg == "restart" {
			goto again
		}
		if verbose > 0 && msg != "" {
			fmt.Println("   ", c.Name, ":", msg)
		}
		if msg != "" && res.Err == "" {
			res.Err = msg
		}
		if ex.old != nil {
			pr.discharge(ex.obls, ex.old.pc, timeout)
		}
		if ex.usedLearned && !full {
			bad := msg != ""
			for _, o := range ex.obls {
				bad = bad || !o.OK
			}
			if bad {
				full = true
				goto again
			}
		}
		if msg == "" {
			// vacuity: the precondition and at least one exit are satisfiable
			res.Exits += len(ex.exits)
			var qs []*Query
			for j, s := range ex.exits {
				if j >= 24 {
					break
				}
				qs = append(qs, ex.query(s, False))
			}
			dead := pr.proveAll(qs, 2)
			n := 0
			for _, d := range dead {
				if !d {
					n++
				}
			}
			res.Reach += n
			if n == 0 && ncase == 1 {
				res.Err = "vacuous: no exit of the function is reachable under the contract"
			}
		}
		res.Obls = append(res.Obls, ex.obls...)
		res.Inlined = append(res.Inlined, sortedKeys(ex.inlined)...)
		res.Used = append(res.Used, sortedKeys(ex.used)...)
		res.Assumed = append(res.Assumed, sortedKeys(ex.assumed)...)
		res.Loops = append(res.Loops, ex.loopLog...)
	}
	for _, o := range res.Obls {
		o.Props = c.Props
	}
	if res.Err == "" && len(res.Obls) == 0 {
		res.Err = "vacuous: no obligations"
	}
	return
}

func (ex *Exec) verifyCase(c *Contract, fn *ssa.Function, ci int) (msg string) {
	recs = nil
	defer func() {
		if r := recover(); r != nil {
			recs = nil
			ex.silent, ex.dry = 0, 0
			if _, ok := r.(restart); ok {
				msg = "restart"
				return
			}
			if u, ok := r.(unsupported); ok {
				msg = "outside the verifier's reach: " + u.msg
				return
			}
			if verbose > 1 {
				panic(r)
			}
			if os.Getenv("GOVC_STACK") != "" {
				debug.PrintStack()
			}
			msg = fmt.Sprint("verifier error: ", r)
		}
	}()
	st := newState()
	st.assume(Ge(st.wm, Int(1)))
	var args []Value
	nslices, nother := 0, 0
	for _, p := range fn.Params {
		switch under(p.Type()).(type) {
		case *types.Slice:
			nslices++
		case *types.Basic:
		default:
			if !isTypeParam(p.Type()) {
				nother++
			}
		}
	}
	if len(c.Params) != len(fn.Params) {
		return fmt.Sprintf("signature changed: %d parameters, the contract names %d", len(fn.Params), len(c.Params))
	}
	for i, p := range fn.Params {
		v := freshValue("p_"+c.Params[i], p.Type())
		if sv, ok := v.(*SliceV); ok && nslices == 1 && nother == 0 {
			sv.Off = Int(0) // representation choice: the only slice in sight
		}
		st.wf(p.Type(), v)
		if pv, ok := v.(*PtrV); ok && !c.Nilable[c.Params[i]] {
			st.assume(Ne(pv.Ref, Int(0)))
		}
		args = append(args, v)
		ex.names[c.Params[i]] = SpecVal{v, p.Type()}
	}
	ex.old = st.clone()
	env := &SpecEnv{ex: ex, st: ex.old, old: ex.old, vars: ex.names}
	for _, l := range c.Lets {
		ex.names[l.Label] = env.eval(l.E)
	}
	for _, r := range c.Requires {
		ex.old.assume(env.bool(r.E))
	}
	for _, x := range c.Insts {
		ex.inst = append(ex.inst, env.term(x))
	}
	for _, h := range c.Hints {
		ex.hint(ex.old, h, env)
	}
	if len(c.Cases) > 0 {
		if ci == 0 {
			var cs []*Term
			for _, k := range c.Cases {
				cs = append(cs, env.bool(k.E))
			}
			e := ex.old.clone()
			ex.must(e, Or(cs...), "case-exhaustive", token.NoPos)
		}
		ex.old.assume(env.bool(c.Cases[ci].E))
	}
	if len(c.Cases) > 0 {
		// a case that equates two references: use one of them throughout
		m := map[*Term]*Term{}
		var eqs func(t *Term)
		eqs = func(t *Term) {
			if t.Op == "and" {
				for _, a := range t.Args {
					eqs(a)
				}
			}
			if t.Op == "=" && t.Args[0].Op == "const" && t.Args[1].Op == "const" && strings.Contains(t.Args[0].S, ".ref!") && strings.Contains(t.Args[1].S, ".ref!") {
				m[t.Args[0]] = t.Args[1]
			}
		}
		eqs(env.bool(c.Cases[ci].E))
		if len(m) > 0 {
			for i, p := range fn.Params {
				var ls []*Term
				for _, l := range flatten(args[i]) {
					ls = append(ls, Subst(l, m, map[*Term]*Term{}))
				}
				args[i] = unflatten(p.Type(), ls)
				ex.names[c.Params[i]] = SpecVal{args[i], p.Type()}
			}
			for _, l := range c.Lets {
				ex.names[l.Label] = env.eval(l.E)
			}
		}
	}
	st = ex.old.clone()
	ex.old = ex.old.clone()
	if fn.Signature.Results().Len() != len(c.Results) && len(c.Results) > 0 {
		return "signature changed: number of results"
	}
	ex.stack = append(ex.stack, fn)
	ex.runFunc(fn, args, nil, st, 0, func(st *State, res []Value) {
		if st.infeasible() {
			return
		}
		ex.atExit(c, fn, st, res)
	})
	return ""
}

// hint assumes an instance of a (separately proved) lemma.
func (ex *Exec) hint(st *State, h *Expr, env *SpecEnv) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				panic(r)
			}
			if verbose > 2 {
				fmt.Println("   hint not applicable:", r)
			}
		}
	}()
	st.assume(ex.lemmaInst(h, env))
}

func (ex *Exec) lemmaInst(h *Expr, env *SpecEnv) *Term {
	l := ex.pr.specs.Lemmas[h.Name]
	if l == nil {
		panic("spec: unknown lemma " + h.Name)
	}
	vars := map[string]SpecVal{}
	if len(h.Args) != len(l.Params) {
		panic("spec: lemma arity " + h.Name)
	}
	for i, p := range l.Params {
		vars[p.Name] = tv(env.seqOrTerm(env.eval(h.Args[i])))
	}
	le := &SpecEnv{ex: ex, st: env.st, old: env.old, vars: vars}
	var rs, es []*Term
	for _, r := range l.Requires {
		rs = append(rs, le.bool(r))
	}
	for _, e := range l.Ensures {
		es = append(es, le.bool(e))
	}
	return Implies(And(rs...), And(es...))
}

func (ex *Exec) atExit(c *Contract, fn *ssa.Function, st *State, res []Value) {
	ex.exits = append(ex.exits, st.clone())
	vars := map[string]SpecVal{}
	for k, v := range ex.names {
		vars[k] = v
	}
	for i, n := range c.Results {
		vars[n] = SpecVal{res[i], fn.Signature.Results().At(i).Type()}
	}
	env := &SpecEnv{ex: ex, st: st, old: ex.old, vars: vars, pol: true}
	for _, h := range c.Hints {
		henv := *env
		henv.pol = false
		ex.hint(st, h, &henv)
	}
	for _, e := range c.Ensures {
		g := env.bool(e.E)
		ex.must(st, g, "ensures:"+e.Label, token.NoPos)
	}
	ex.frameCheck(c, fn, st)
}

// frameCheck: every write is to a new object or allowed by the modifies clause.
func (ex *Exec) frameCheck(c *Contract, fn *ssa.Function, st *State) {
	if c.ModAll {
		return
	}
	env := &SpecEnv{ex: ex, st: ex.old, old: ex.old, vars: ex.names}
	allow := newRecorder(ex.old)
	allow.mark = 1 << 60
	ex.modSet(allow, c, env)
	oldwm := Add(ex.old.wm, Int(ex.old.cnt))
	emits := map[string]bool{}
	for _, e := range c.emits() {
		emits["tr:"+e] = true
	}
	covered := func(key string, r *Term) *Term {
		e := allow.m[key]
		if e != nil && e.all {
			return True
		}
		base := r
		for isSub(base) {
			base = base.Args[0]
		}
		cs := []*Term{st.refGE(base, oldwm)}
		if e != nil {
			for _, m := range sortedTerms(e.refs) {
				cs = append(cs, st.refEq(m, r))
			}
		}
		return Or(cs...)
	}
	check := func(key string, cur, old *Term) {
		seen := map[*Term]bool{}
		var rec func(x *Term)
		rec = func(x *Term) {
			if x == old || seen[x] {
				return
			}
			seen[x] = true
			switch x.Op {
			case "hstore":
				ex.must(st, covered(key, x.Args[1]), "frame:"+key, token.NoPos)
				rec(x.Args[0])
			case "hhav":
				rec(x.Args[0])
			case "mwr":
				ex.must(st, Or(covered(key, x.Args[1]), Eq(Len(x.Args[3]), Int(0))), "frame:"+key, token.NoPos)
				rec(x.Args[0])
			case "mhav":
				for _, r := range x.Args[3:] {
					ex.must(st, covered(key, r), "frame:"+key, token.NoPos)
				}
				rec(x.Args[0])
			case "hbase", "mbase":
				if x.Args[0].S == "hv!0" || x.Args[0].S == "mv!0" {
					return
				}
				if e := allow.m[key]; e != nil && e.all {
					return
				}
				ex.must(st, False, "frame:"+key, token.NoPos)
			default:
				panic("frame " + x.Op)
			}
		}
		rec(cur)
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		if k == "tr:#order" {
			continue
		}
		if strings.HasPrefix(k, "tr:") {
			if !emits[k] {
				ex.must(st, Eq(st.heap[k], Empty(st.heap[k].Sort)), "emits-nothing:"+k[3:], token.NoPos)
			}
			continue
		}
		if strings.HasPrefix(k, "cell:") {
			// local variables that escaped to the heap: only new cells may be written
		}
		check(k, st.heap[k], ex.old.heap[k])
	}
	keys = keys[:0]
	for k := range st.mem {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		check(k, st.mem[k], ex.old.mem[k])
	}
}

// ---------------------------------------------------------------- lemmas

func (pr *Prog) verifyLemma(l *Lemma, timeout float64) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{Name: "lemma " + l.Name}
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			res.Err = fmt.Sprint("verifier error: ", r)
		}
	}()
	ex := &Exec{pr: pr, names: map[string]SpecVal{}, inlined: map[string]bool{}, used: map[string]bool{}, assumed: map[string]bool{}, con: &Contract{Name: "lemma " + l.Name}}
	st := newState()
	ex.old = st
	for _, p := range l.Params {
		ex.names[p.Name] = tv(Const("l_"+p.Name, specSort(p.Kind)))
	}
	env := &SpecEnv{ex: ex, st: st, old: st, vars: ex.names}
	for _, r := range l.Requires {
		st.assume(env.bool(r))
	}
	for _, u := range l.Uses {
		ul := pr.specs.Lemmas[u.Name]
		if ul == nil {
			panic("unknown lemma " + u.Name)
		}
		inst := ex.lemmaInst(u, env)
		if ul == l {
			if l.Measure == nil {
				panic("induction without measure")
			}
			m := env.term(l.Measure)
			vars := map[string]SpecVal{}
			for i, p := range l.Params {
				vars[p.Name] = tv(env.seqOrTerm(env.eval(u.Args[i])))
			}
			m2 := (&SpecEnv{ex: ex, st: st, old: st, vars: vars}).term(l.Measure)
			inst = Implies(And(Ge(m2, Int(0)), Lt(m2, m)), inst)
		} else {
			ok := false
			for _, e := range pr.specs.LemOrd {
				if e == ul {
					ok = true
				}
				if e == l {
					break
				}
			}
			if !ok {
				panic("lemma used before it is proved: " + u.Name)
			}
		}
		st.assume(inst)
	}
	genv := &SpecEnv{ex: ex, st: st, old: st, vars: ex.names, pol: true}
	for i, e := range l.Ensures {
		ex.must(st, genv.bool(e), fmt.Sprintf("lemma:%s:%d", l.Name, i+1), token.NoPos)
	}
	pr.discharge(ex.obls, st.pc, timeout)
	res.Obls = ex.obls
	return
}
