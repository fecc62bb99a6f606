package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopInfo struct{ byHeader map[*ssa.BasicBlock]*Loop }

// findLoops: the nested strongly connected components. A component with one entry is a natural loop; of several
// entries the one with the most edges from inside is the header (entering elsewhere executes blocks until it).
func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	if len(fn.Blocks) == 0 {
		return li
	}
	var rec func(nodes map[*ssa.BasicBlock]bool)
	rec = func(nodes map[*ssa.BasicBlock]bool) {
		for _, c := range sccs(fn, nodes) {
			in := map[*ssa.BasicBlock]bool{}
			for _, b := range c {
				in[b] = true
			}
			loop := len(c) > 1
			for _, x := range c[0].Succs {
				loop = loop || in[x]
			}
			if !loop {
				continue
			}
			var h *ssa.BasicBlock
			best := -1
			for _, b := range fn.Blocks {
				if !in[b] {
					continue
				}
				entry, n := b == fn.Blocks[0], 0
				for _, p := range b.Preds {
					if in[p] {
						n++
					} else {
						entry = true
					}
				}
				if entry && n > best {
					h, best = b, n
				}
			}
			li.byHeader[h] = &Loop{header: h, body: in}
			sub := map[*ssa.BasicBlock]bool{}
			for b := range in {
				if b != h {
					sub[b] = true
				}
			}
			rec(sub)
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	rec(all)
	return li
}

// sccs of the subgraph induced by nodes
func sccs(fn *ssa.Function, nodes map[*ssa.BasicBlock]bool) [][]*ssa.BasicBlock {
	var out [][]*ssa.BasicBlock
	idx, low := map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	n := 0
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		n++
		idx[b], low[b] = n, n
		stack = append(stack, b)
		on[b] = true
		for _, s := range b.Succs {
			if !nodes[s] {
				continue
			}
			if idx[s] == 0 {
				visit(s)
				if low[s] < low[b] {
					low[b] = low[s]
				}
			} else if on[s] && idx[s] < low[b] {
				low[b] = idx[s]
			}
		}
		if low[b] == idx[b] {
			var c []*ssa.BasicBlock
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[x] = false
				c = append(c, x)
				if x == b {
					break
				}
			}
			out = append(out, c)
		}
	}
	for _, b := range fn.Blocks {
		if nodes[b] && idx[b] == 0 {
			visit(b)
		}
	}
	return out
}

type cand struct {
	name string
	f    func(st *State, phis []Value) *Term // nil if not applicable
	user bool

	phi  int // 1 + index of the phi an automatic candidate is about
	kind string
}

type restart struct{}

// learned: the invariants that survived on the reference tree, per loop. Starting from them only saves
// time: a function that does not verify from them is verified again from the full candidate set.
var learned = map[string][]string{}
var learnedNew = map[string][]string{}

// constTrip: a counted loop whose start and bound are literals, with few iterations
func (ex *Exec) constTrip(fr *Frame, lp *Loop, entry []Value) bool {
	h := lp.header
	if ex.noUnroll[h] || len(h.Instrs) == 0 {
		return false
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	lit := func(v ssa.Value) (int64, bool) {
		if _, ok := v.(*ssa.Const); !ok {
			if _, ok := fr.regs[v]; !ok {
				return 0, false
			}
		}
		t, ok := ex.val(fr, v).(*Term)
		if !ok || !t.IsInt() || !t.N.IsInt64() {
			return 0, false
		}
		return t.N.Int64(), true
	}
	phi := func(v ssa.Value) (int64, bool) {
		if b, ok := v.(*ssa.BinOp); ok && b.Block() == h {
			v = b.X
		}
		for i := range entry {
			if phiKeys(h)[i] == v {
				t, ok := entry[i].(*Term)
				if ok && t.IsInt() && t.N.IsInt64() {
					return t.N.Int64(), true
				}
			}
		}
		return 0, false
	}
	for _, p := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
		a, ok1 := phi(p[0])
		b, ok2 := lit(p[1])
		if ok1 && ok2 && b-a <= 17 && a-b <= 17 {
			return true
		}
	}
	return false
}

func (ex *Exec) unroll(fr *Frame, lp *Loop, vals []Value, st *State, k Cont, n *int) {
	h := lp.header
	if *n++; *n > 120 {
		ex.noUnroll[h] = true
		panic(restart{})
	}
	nfr := fr.clone()
	hs := map[*ssa.BasicBlock]func(*Frame, *ssa.BasicBlock, *State){}
	for b, f := range fr.handlers {
		hs[b] = f
	}
	hs[h] = func(bfr *Frame, p *ssa.BasicBlock, bst *State) {
		if !bst.infeasible() {
			ex.unroll(bfr, lp, ex.phiVals(bfr, h, p), bst, k, n)
		}
	}
	nfr.handlers = hs
	for i, v := range vals {
		nfr.regs[phiKeys(h)[i]] = v
	}
	ex.instrs(nfr, h, ex.firstNonPhi(h), st.clone(), k)
}

// loop handles a loop entered from outside.
func (ex *Exec) loop(fr *Frame, lp *Loop, prev *ssa.BasicBlock, st *State, k Cont) {
	h := lp.header
	var entry []Value
	var ptypes []types.Type
	var pnames []string
	if prev != nil {
		entry = ex.phiVals(fr, h, prev)
	}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ptypes = append(ptypes, p.Type())
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		pnames = append(pnames, n)
	}
	if prev != nil {
		for range strRanges(h) {
			ptypes = append(ptypes, types.Typ[types.Int])
			pnames = append(pnames, "pos")
		}
	}
	if ex.constTrip(fr, lp, entry) {
		ex.unroll(fr, lp, entry, st, k, new(int))
		return
	}
	W := newRecorder(st)
	W.mark = termCnt

	// has: is a candidate of this kind for phi i assumed?
	has := func(cs []*cand, i int, kind string) bool {
		for _, c := range cs {
			if c.phi == i+1 && c.kind == kind {
				return true
			}
		}
		return false
	}
	forked := func(cs []*cand) []int {
		var out []int
		for i := range entry {
			if _, ok := entry[i].(*SliceV); ok && has(cs, i, "bound") && !has(cs, i, "ref") && len(out) < 3 {
				out = append(out, i)
			}
		}
		return out
	}
	mkHeader := func(cs []*cand, modes map[int]bool) (*State, *Frame, []Value) {
		hst, hfr := st.clone(), fr.clone()
		hst.havoc(W)
		var vals []Value
		for i := range entry {
			v := freshValue("phi_"+pnames[i], ptypes[i])
			// pointers to locals etc. keep their shape only if the type is scalar
			if pv, ok := entry[i].(*PtrV); ok && pv.Kind != "obj" {
				unsup("loop-carried interior pointer")
			}
			if fv, ok := entry[i].(*FuncV); ok && fv.Fn != nil {
				unsup("loop-carried function value")
			}
			// equalities with the entry value are substituted rather than assumed
			switch x := v.(type) {
			case *SliceV:
				e := entry[i].(*SliceV)
				isNew, fork := modes[i]
				if has(cs, i, "ref") || fork && !isNew {
					x.Ref = e.Ref
					if x.Ref.IsInt() && x.Ref.N.Sign() == 0 {
						x.Len, x.Cap = Int(0), Int(0)
					}
				}
				if fork && isNew {
					hst.lows[x.Ref] = [2]int64{int64(st.gen), st.cnt}
					hst.assume(Ge(x.Ref, Add(st.wm, Int(st.cnt))))
				}
				if has(cs, i, "end") {
					x.Off = Sub(Add(e.Off, e.Len), x.Len)
				}
				if has(cs, i, "capend") {
					x.Cap = Sub(Add(e.Off, e.Cap), x.Off)
				}
			case *Term:
				if has(cs, i, "eq") || has(cs, i, "ge") && has(cs, i, "le") {
					v = entry[i]
				}
			case *PtrV:
				if has(cs, i, "eq") {
					v = entry[i]
				}
			}
			hst.wf(ptypes[i], v)
			if sv, ok := v.(*SliceV); ok && !ex.noBound[phiKeys(h)[i]] {
				phiBound[sv.Ref] = entry[i].(*SliceV).Ref
			}
			vals = append(vals, v)
			hfr.regs[phiKeys(h)[i]] = v
		}
		for _, c := range cs {
			if t := c.f(hst, vals); t != nil {
				hst.assume(t)
			}
		}
		return hst, hfr, vals
	}
	type back struct {
		st   *State
		vals []Value
	}
	runBody := func(cs []*cand, bounded bool) []back {
		var backs []back
		fk := forked(cs)
		for mask := 0; mask < 1<<len(fk); mask++ {
			modes := map[int]bool{}
			for b, i := range fk {
				modes[i] = mask>>b&1 == 1
			}
			hst, hfr, _ := mkHeader(cs, modes)
			hs := map[*ssa.BasicBlock]func(*Frame, *ssa.BasicBlock, *State){}
			for b, f := range fr.handlers {
				hs[b] = f
			}
			hs[h] = func(bfr *Frame, p *ssa.BasicBlock, bst *State) {
				if bst.infeasible() {
					return
				}
				backs = append(backs, back{bst, ex.phiVals(bfr, h, p)})
			}
			hfr.handlers = hs
			if bounded {
				hfr.bound = lp.body
			}
			ex.instrs(hfr, h, ex.firstNonPhi(h), hst, k)
		}
		return backs
	}
	// 1. modified set, by iteration to a fixpoint (no solver)
	ex.silent++
	ex.dry++
	for it := 0; ; it++ {
		rc := newRecorder(st)
		rc.mark = W.mark
		recs = append(recs, rc)
		runBody(nil, true)
		recs = recs[:len(recs)-1]
		ch := W.merge(rc)
		// slice headers in the heap: their storage is assumed to be the old one or new (proved below)
		for k, e := range W.m {
			if !e.mem && !e.all && strings.HasSuffix(k, ".ref") && !ex.noGrow[growKey(h, k)] {
				e.grow = e.refs
			}
		}
		if !ch {
			break
		}
		if it > 20 {
			unsup("modified set does not stabilise")
		}
	}
	ex.dry--
	ex.silent--
	if ex.dry > 0 {
		// inside the dry run of an outer loop: just propagate effects and exits
		runBody(nil, false)
		return
	}
	// 2. invariants: Houdini over candidates
	cands := ex.candidates(fr, lp, entry, ptypes, pnames, st)
	cands = append(cands, ex.heapCands(W, h, st)...)
	var qs []*Query
	var live []*cand
	rank := 0
	for _, l := range findLoops(fr.fn).byHeader {
		if l.header.Index < h.Index {
			rank++
		}
	}
	lkey := fmt.Sprintf("%s/%d:%s#%d", ex.name(), ex.caseNo, fnName(fr.fn), rank)
	if ls, ok := learned[lkey]; ok && !ex.full {
		keep := map[string]bool{}
		for _, n := range ls {
			keep[n] = true
		}
		var cs []*cand
		for _, c := range cands {
			if keep[c.name] {
				cs = append(cs, c)
			}
		}
		cands = cs
		ex.usedLearned = true
	}
	for _, c := range cands {
		g := c.f(st, entry)
		if g == nil {
			continue
		}
		live = append(live, c)
		qs = append(qs, ex.query(st, g))
	}
	live = filterCands(live, ex.pr.proveAll(qs, ex.houdiniTimeout()))
	for round := 0; round < 40; round++ {
		ex.silent++
		backs := runBody(live, true)
		ex.silent--
		user := false
	phase:
		var qs []*Query
		var owner []int
		for _, b := range backs {
			for i, c := range live {
				if c.user != user {
					continue
				}
				g := c.f(b.st, b.vals)
				if g == nil {
					g = False
				}
				if g == True {
					continue
				}
				q := ex.query(b.st, g)
				q.name, q.seq, q.group = c.name, round, i+1
				qs = append(qs, q)
				owner = append(owner, i)
			}
		}
		tmo := ex.houdiniTimeout()
		if !user {
			tmo = 1.5
		}
		if ex.usedLearned && !ex.full {
			tmo = 20
		}
		res, ref := ex.pr.proveAll2(qs, tmo)
		bad := map[int]bool{}
		// refuted candidates go first: without them the undecided ones may well be provable
		anyRef := false
		for _, r := range ref {
			anyRef = anyRef || r
		}
		for j, ok := range res {
			if !ok && user && anyRef && !ref[j] {
				continue
			}
			if !ok {
				bad[owner[j]] = true
				if verbose > 2 && user {
					fmt.Println("   not preserved:", res[j], live[owner[j]].name, "\n     goal:", qs[j].goal)
					for _, h := range qs[j].hyps {
						fmt.Println("       hyp:", h)
					}
				}
			}
		}
		if len(bad) == 0 && !user {
			user = true
			goto phase
		}
		if len(bad) == 0 {
			break
		}
		var nl []*cand
		for i, c := range live {
			if bad[i] {
				if verbose > 1 {
					fmt.Println("   houdini drops (preservation):", c.name)
				}
				continue
			}
			nl = append(nl, c)
		}
		live = nl
	}
	for i := range entry {
		if kindOf(ptypes[i]) != "bytes" && kindOf(ptypes[i]) != "slice" {
			continue
		}
		phi := phiKeys(h)[i]
		if !has(live, i, "bound") && !ex.noBound[phi] {
			ex.noBound[phi] = true
			panic(restart{})
		}
	}
	for k, e := range W.m {
		if e.grow == nil {
			continue
		}
		n := 0
		for _, c := range live {
			if c.kind == "grow:"+k {
				n++
			}
		}
		if n < len(e.grow) {
			ex.noGrow[growKey(h, k)] = true
			panic(restart{})
		}
	}
	var ns []string
	for _, c := range live {
		ns = append(ns, c.name)
	}
	if ex.silent == 0 {
		if learnedNew[lkey] == nil {
			learnedNew[lkey] = []string{}
		}
		for _, n := range ns {
			dup := false
			for _, o := range learnedNew[lkey] {
				dup = dup || o == n
			}
			if !dup {
				learnedNew[lkey] = append(learnedNew[lkey], n)
			}
		}
	}
	ex.loopLog = append(ex.loopLog, fmt.Sprintf("%s loop at %s: %s", fnName(fr.fn), ex.posOf(firstPos(h)), strings.Join(ns, "; ")))
	if ex.silent == 0 {
		for _, c := range live {
			ex.obls = append(ex.obls, &Obl{Fn: ex.name(), Kind: "loop-invariant", Pos: ex.posOf(firstPos(h)), Goal: True, OK: true, Solver: "houdini:" + c.name})
		}
	}
	// 3. the rest of the function, from an arbitrary iteration
	if verbose > 1 {
		fmt.Println("   invariants:", strings.Join(ns, "; "))
	}
	runBody(live, false)
}

func growKey(h *ssa.BasicBlock, k string) string {
	return fmt.Sprintf("%s/%d/%s", h.Parent(), h.Index, k)
}

// heapCands: storage of the slice headers the loop changes in the heap
func (ex *Exec) heapCands(W *Recorder, h *ssa.BasicBlock, st0 *State) []*cand {
	var out []*cand
	keys := map[string]bool{}
	for k, e := range W.m {
		if e.grow != nil {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		k := k
		base := strings.TrimSuffix(k, ".ref")
		for i, r := range sortedTerms(W.m[k].grow) {
			r := r
			cell := func(st *State, f string) *Term { return st.hsel(st.heapArr(base+f, SInt), r) }
			n := fmt.Sprintf("%s#%d", base, i)
			// whatever a slice header in the heap refers to has been allocated
			st0.assume(Lt(cell(st0, ".ref"), Add(st0.wm, Int(st0.cnt))))
			out = append(out, &cand{name: "storage(" + n + ") new or entry", kind: "grow:" + k, f: func(st *State, ph []Value) *Term {
				return Or(Eq(cell(st, ".ref"), cell(st0, ".ref")), st.refGE(cell(st, ".ref"), Add(st0.wm, Int(st0.cnt))))
			}})
			out = append(out, &cand{name: "storage(" + n + ") same window", f: func(st *State, ph []Value) *Term {
				return Implies(Eq(cell(st, ".ref"), cell(st0, ".ref")), And(Eq(cell(st, ".off"), cell(st0, ".off")), Eq(cell(st, ".cap"), cell(st0, ".cap"))))
			}})
		}
	}
	return out
}

func filterCands(cs []*cand, ok []bool) []*cand {
	var out []*cand
	for i, c := range cs {
		if ok[i] {
			out = append(out, c)
		} else if verbose > 1 {
			fmt.Println("   houdini drops (entry):", c.name)
		}
	}
	return out
}

func (ex *Exec) houdiniTimeout() float64 {
	if ex.con != nil && ex.con.Timeout > 0 {
		return ex.con.Timeout
	}
	return 4
}

func kindOf(t types.Type) string {
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsInteger != 0:
			return "int"
		case x.Info()&types.IsString != 0:
			return "string"
		case x.Info()&types.IsBoolean != 0:
			return "bool"
		}
	case *types.Slice:
		if isByte(x.Elem()) {
			return "bytes"
		}
		return "slice"
	case *types.Pointer:
		return "ptr"
	case *types.Interface:
		return "iface"
	}
	return "other"
}

func (ex *Exec) candidates(fr *Frame, lp *Loop, entry []Value, pt []types.Type, pn []string, st0 *State) []*cand {
	var out []*cand
	add := func(name string, user bool, f func(st *State, ph []Value) *Term) {
		out = append(out, &cand{name: name, user: user, f: func(st *State, ph []Value) (t *Term) {
			defer func() {
				if r := recover(); r != nil {
					if verbose > 2 {
						fmt.Println("   candidate", name, ":", r)
					}
					t = nil
				}
			}()
			return f(st, ph)
		}})
	}
	// values in scope: computed before the loop
	var scope []ssa.Value
	for _, b := range fr.fn.Blocks {
		if lp.body[b] || !b.Dominates(lp.header) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && fr.regs[v] != nil {
				scope = append(scope, v)
			}
		}
	}
	// user candidates, over the loop-carried values
	if ex.con != nil {
		for _, inv := range ex.con.Invs {
			inv := inv
			// asg: a carried value (>= 0) or one in scope (-1 - index)
			var rec func(i int, asg []int)
			rec = func(i int, asg []int) {
				if i == len(inv.Metas) {
					asg := append([]int(nil), asg...)
					var ns []string
					for _, a := range asg {
						if a < 0 {
							ns = append(ns, scope[-1-a].Name())
						} else {
							ns = append(ns, pn[a])
						}
					}
					add(fmt.Sprintf("%s {%s}", inv.E.Src, strings.Join(ns, ",")), true, func(st *State, ph []Value) *Term {
						vars := map[string]SpecVal{}
						for k, v := range ex.names {
							vars[k] = v
						}
						evars := map[string]SpecVal{}
						for k, v := range ex.names {
							evars[k] = v
						}
						for j, m := range inv.Metas {
							if a := asg[j]; a < 0 {
								v := scope[-1-a]
								vars[m.Name] = SpecVal{fr.regs[v], v.Type()}
								evars[m.Name] = vars[m.Name]
							} else {
								vars[m.Name] = SpecVal{ph[a], pt[a]}
								evars[m.Name] = SpecVal{entry[a], pt[a]}
							}
						}
						env := &SpecEnv{ex: ex, st: st, old: ex.old, vars: vars, ent: st0, entVars: evars}
						return env.bool(inv.E)
					})
					return
				}
				if kind := inv.Metas[i].Kind; strings.HasPrefix(kind, "^") {
					for j, v := range scope {
						if kindOf(v.Type()) == kind[1:] {
							rec(i+1, append(asg, -1-j))
						}
					}
					return
				}
				for j := range entry {
					dup := false
					for _, a := range asg {
						if a == j {
							dup = true
						}
					}
					if dup || kindOf(pt[j]) != inv.Metas[i].Kind {
						continue
					}
					rec(i+1, append(asg, j))
				}
			}
			rec(0, nil)
		}
	}
	// lengths in scope: values defined outside the loop, and carried ones
	type lenT struct {
		name string
		f    func(st *State, ph []Value) *Term
	}
	var lens []lenT
	seen := map[*Term]bool{}
	for v, val := range fr.regs {
		in, isIn := v.(ssa.Instruction)
		if isIn && lp.body[in.Block()] {
			continue
		}
		var l *Term
		switch x := val.(type) {
		case *Term:
			if x.Sort == SString {
				l = Len(x)
			} else if x.Sort == SInt && kindOf(v.Type()) == "int" {
				l = x
			}
		case *SliceV:
			l = x.Len
		}
		if l == nil || l.IsInt() || seen[l] {
			continue
		}
		seen[l] = true
		l0 := l
		lens = append(lens, lenT{v.Name(), func(*State, []Value) *Term { return l0 }})
	}
	// deterministic order
	for i := 0; i < len(lens); i++ {
		for j := i + 1; j < len(lens); j++ {
			if lens[j].name < lens[i].name {
				lens[i], lens[j] = lens[j], lens[i]
			}
		}
	}
	for j := range entry {
		j := j
		switch kindOf(pt[j]) {
		case "string":
			lens = append(lens, lenT{"len(" + pn[j] + ")", func(st *State, ph []Value) *Term { return Len(ph[j].(*Term)) }})
		case "bytes", "slice":
			lens = append(lens, lenT{"len(" + pn[j] + ")", func(st *State, ph []Value) *Term { return ph[j].(*SliceV).Len }})
		}
	}
	for j := range entry {
		j := j
		n := pn[j]
		tag := func(kind string) { out[len(out)-1].phi, out[len(out)-1].kind = j+1, kind }
		switch kindOf(pt[j]) {
		case "int":
			e := entry[j].(*Term)
			add(n+">=entry", false, func(st *State, ph []Value) *Term { return Ge(ph[j].(*Term), e) })
			tag("ge")
			add(n+"<=entry", false, func(st *State, ph []Value) *Term { return Le(ph[j].(*Term), e) })
			tag("le")
			if !(e.IsInt() && e.N.Sign() == 0) {
				add(n+">=0", false, func(st *State, ph []Value) *Term { return Ge(ph[j].(*Term), Int(0)) })
			}
			if !(e.IsInt() && e.N.Sign() < 0) {
				add(n+">=-1", false, func(st *State, ph []Value) *Term { return Ge(ph[j].(*Term), Int(-1)) })
			}
			for _, l := range lens {
				l := l
				add(n+"<="+l.name, false, func(st *State, ph []Value) *Term { return Le(ph[j].(*Term), l.f(st, ph)) })
				add(n+"<"+l.name, false, func(st *State, ph []Value) *Term { return Lt(ph[j].(*Term), l.f(st, ph)) })
			}
			for i := range entry {
				i := i
				if i != j && kindOf(pt[i]) == "int" {
					add(n+"<="+pn[i], false, func(st *State, ph []Value) *Term { return Le(ph[j].(*Term), ph[i].(*Term)) })
				}
			}
		case "string":
			e := entry[j].(*Term)
			add("suffixof("+n+",entry)", false, func(st *State, ph []Value) *Term { return SuffixOf(ph[j].(*Term), e) })
			add("prefixof("+n+",entry)", false, func(st *State, ph []Value) *Term { return PrefixOf(ph[j].(*Term), e) })
		case "bytes", "slice":
			e := entry[j].(*SliceV)
			add("ref("+n+")=entry", false, func(st *State, ph []Value) *Term { return Eq(ph[j].(*SliceV).Ref, e.Ref) })
			tag("ref")
			add("off("+n+")>=entry", false, func(st *State, ph []Value) *Term { return Ge(ph[j].(*SliceV).Off, e.Off) })
			add("end("+n+")=entry", false, func(st *State, ph []Value) *Term {
				s := ph[j].(*SliceV)
				return Eq(Add(s.Off, s.Len), Add(e.Off, e.Len))
			})
			tag("end")
			add("capend("+n+")=entry", false, func(st *State, ph []Value) *Term {
				s := ph[j].(*SliceV)
				return Eq(Add(s.Off, s.Cap), Add(e.Off, e.Cap))
			})
			tag("capend")
			add("ref("+n+") new or entry", false, func(st *State, ph []Value) *Term {
				s := ph[j].(*SliceV)
				return Or(Eq(s.Ref, e.Ref), st.refGE(s.Ref, Add(st0.wm, Int(st0.cnt))))
			})
			tag("bound")
			et := under(pt[j]).(*types.Slice).Elem()
			add("prefix(entry,"+n+")", false, func(st *State, ph []Value) *Term {
				return PrefixOf(st0.content(et, e), st.content(et, ph[j].(*SliceV)))
			})
		case "ptr":
			e := flatten(entry[j])[0]
			add(n+"!=nil", false, func(st *State, ph []Value) *Term { return Ne(flatten(ph[j])[0], Int(0)) })
			add(n+"=entry", false, func(st *State, ph []Value) *Term { return Eq(flatten(ph[j])[0], e) })
			tag("eq")
		case "iface":
			e := flatten(entry[j])
			add(n+"=entry", false, func(st *State, ph []Value) *Term {
				f := flatten(ph[j])
				return And(Eq(f[0], e[0]), Eq(f[1], e[1]))
			})
			tag("eq")
		case "bool":
			e := entry[j].(*Term)
			add(n+"=entry", false, func(st *State, ph []Value) *Term { return Eq(ph[j].(*Term), e) })
			tag("eq")
		}
	}
	return out
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}
