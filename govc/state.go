package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func sortStrings(x []string) { sort.Strings(x) }
func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

type State struct {
	pc     []*Term
	heap   map[string]*Term // object leaf "arrays" (abstract), ghost scalars
	mem    map[string]*Term // element memories (abstract)
	gen    int
	wm     *Term // watermark constant of this generation
	cnt    int64
	bounds map[*Term][2]int64 // ref term -> (gen,cnt) it is older than
	fork   int
	lows   map[*Term][2]int64 // ref term -> (gen,cnt) it is not older than
	facts  []*lin
	lins   map[string]*big.Int // linear form -> least c with form+c >= 0 known
	rmemo  map[*Term]iv
	ivs    map[*Term]iv // numeric bounds implied by the assumptions

	injected map[*Term]bool // package-level objects whose content is assumed
}

func newState() *State {
	return &State{heap: map[string]*Term{}, mem: map[string]*Term{}, wm: Const("W!0", SInt), bounds: map[*Term][2]int64{}, ivs: map[*Term]iv{}, lins: map[string]*big.Int{}, lows: map[*Term][2]int64{}}
}

func (s *State) clone() *State {
	c := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: make(map[string]*Term, len(s.heap)), mem: make(map[string]*Term, len(s.mem)),
		gen: s.gen, wm: s.wm, cnt: s.cnt, facts: s.facts, bounds: make(map[*Term][2]int64, len(s.bounds)), fork: s.fork}
	for k, v := range s.heap {
		c.heap[k] = v
	}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.bounds {
		c.bounds[k] = v
	}
	c.lins = make(map[string]*big.Int, len(s.lins))
	for k, v := range s.lins {
		c.lins[k] = v
	}
	c.lows = make(map[*Term][2]int64, len(s.lows))
	for k, v := range s.lows {
		c.lows[k] = v
	}
	c.ivs = make(map[*Term]iv, len(s.ivs))
	for k, v := range s.ivs {
		c.ivs[k] = v
	}
	c.injected = make(map[*Term]bool, len(s.injected))
	for k := range s.injected {
		c.injected[k] = true
	}
	return c
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == True {
			continue
		}
		if t.Op == "and" {
			s.assume(t.Args...)
			continue
		}
		s.pc = append(s.pc, t)
		s.learn(t)
	}
}

func (s *State) infeasible() bool {
	for _, t := range s.pc {
		if t == False {
			return true
		}
	}
	return false
}

// known tells whether c (or its negation) is literally among the assumptions
func (s *State) known(c *Term) (bool, bool) {
	if c == True {
		return true, true
	}
	if c == False {
		return false, true
	}
	if c.Op == "ge0" {
		if s.geK(c.Args[0]) {
			return true, true
		}
		if s.geK(Sub(Int(-1), c.Args[0])) {
			return false, true
		}
	}
	n := Not(c)
	for _, t := range s.pc {
		if t == c {
			return true, true
		}
		if t == n {
			return false, true
		}
	}
	return false, false
}

// ---- references

func (s *State) freshRef() *Term {
	r := Add(s.wm, Int(s.cnt))
	s.cnt++
	return r
}

// freshPos: (gen,cnt) if r is an allocation of some generation
func freshPos(r *Term) ([2]int64, bool) {
	l := toLin(r)
	if len(l.m) != 1 {
		return [2]int64{}, false
	}
	for k, v := range l.m {
		if k.Op == "const" && strings.HasPrefix(k.S, "W!") && v.IsInt64() && v.Int64() == 1 {
			var g int64
			fmt.Sscanf(k.S[2:], "%d", &g)
			return [2]int64{g, l.c.Int64()}, true
		}
	}
	return [2]int64{}, false
}

func lexLE(a, b [2]int64) bool { return a[0] < b[0] || a[0] == b[0] && a[1] <= b[1] }

// older: record that ref r was allocated before now
func (s *State) older(r *Term) {
	if r.IsInt() {
		return
	}
	if _, ok := freshPos(r); ok {
		return
	}
	if r.Op == "ite" {
		s.older(r.Args[1])
		s.older(r.Args[2])
		return
	}
	if _, ok := s.bounds[r]; ok {
		return
	}
	b := [2]int64{int64(s.gen), s.cnt}
	if v := verOf(r); v != nil { // content of a heap version: older than that version's generation
		if g, ok := verGen[v]; ok && g <= s.gen {
			b = [2]int64{int64(g), 0}
		}
	}
	s.bounds[r] = b
	s.assume(Lt(r, Add(Const(fmt.Sprintf("W!%d", b[0]), SInt), Int(b[1]))))
}

// verGen: heap version (or havoced constant) -> generation it opens
var verGen = map[*Term]int{Const("hv!0", SInt): 0, Const("mv!0", SInt): 0}

func verOf(r *Term) *Term {
	switch {
	case r.Op == "const":
		return r
	case r.Op == "app" && strings.HasPrefix(r.S, "H:"):
		return r.Args[0]
	case r.Op == "sel":
		return verOf(r.Args[0])
	case r.Op == "nth":
		return verOf(r.Args[0])
	case r.Op == "win":
		return r.Args[0]
	}
	return nil
}

func isSub(r *Term) bool { return r.Op == "app" && strings.HasPrefix(r.S, "sub:") }

// refEq: equality of two refs, simplified with allocation order
func (s *State) refEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], s.refEq(a.Args[1], b), s.refEq(a.Args[2], b))
	}
	if b.Op == "ite" {
		return Ite(b.Args[0], s.refEq(a, b.Args[1]), s.refEq(a, b.Args[2]))
	}
	pa, fa := freshPos(a)
	pb, fb := freshPos(b)
	switch {
	case fa && fb:
		return Bool(pa == pb)
	case fa && (b.IsInt() || isSub(b)), fb && (a.IsInt() || isSub(a)):
		return False
	case fa:
		if bd, ok := s.bounds[b]; ok && lexLE(bd, pa) {
			return False
		}
	case fb:
		if bd, ok := s.bounds[a]; ok && lexLE(bd, pb) {
			return False
		}
	}
	if la, ok := s.lows[a]; ok && s.before(b, la) {
		return False
	}
	if lb, ok := s.lows[b]; ok && s.before(a, lb) {
		return False
	}
	if isSub(a) && isSub(b) {
		if a.S != b.S {
			return False
		}
		return s.refEq(a.Args[0], b.Args[0])
	}
	e := Eq(a, b)
	if v, ok := s.known(e); ok {
		return Bool(v)
	}
	return e
}

// before: r is certainly older than position p
func (s *State) before(r *Term, p [2]int64) bool {
	if r.IsInt() || isSub(r) {
		return true
	}
	if q, ok := freshPos(r); ok {
		return !lexLE(p, q)
	}
	b, ok := s.bounds[r]
	return ok && lexLE(b, p)
}

func (s *State) refGE(r, wm *Term) *Term { // r >= wm (watermark position)
	if r.Op == "ite" {
		return Ite(r.Args[0], s.refGE(r.Args[1], wm), s.refGE(r.Args[2], wm))
	}
	pw, ok := freshPos(wm)
	if !ok {
		return Ge(r, wm)
	}
	if pr, ok := freshPos(r); ok {
		return Bool(lexLE(pw, pr))
	}
	if r.IsInt() || isSub(r) {
		return False
	}
	if b, ok := s.bounds[r]; ok && lexLE(b, pw) {
		return False
	}
	if l, ok := s.lows[r]; ok && lexLE(pw, l) {
		return True
	}
	return Ge(r, wm)
}

// ---- object heap. Values in s.heap: hbase(version) | hstore(H,ref,v) | hhav(H,Hf,wm)

func (s *State) heapArr(key string, sort Sort) *Term {
	if h, ok := s.heap[key]; ok {
		return h
	}
	h := intern("hbase", sort, nil, key, Const("hv!0", SInt))
	s.heap[key] = h
	return h
}

func (s *State) hsel(h, r *Term) *Term {
	switch h.Op {
	case "hbase":
		return App("H:"+h.S, h.Sort, h.Args[0], r)
	case "hstore":
		c := s.refEq(h.Args[1], r)
		if c == True {
			return h.Args[2]
		}
		if c == False {
			return s.hsel(h.Args[0], r)
		}
		return Ite(c, h.Args[2], s.hsel(h.Args[0], r))
	case "hhav":
		c := s.refGE(r, h.Args[2])
		if c == True {
			return s.hsel(h.Args[1], r)
		}
		if c == False {
			return s.hsel(h.Args[0], r)
		}
		return Ite(c, s.hsel(h.Args[1], r), s.hsel(h.Args[0], r))
	}
	panic("hsel " + h.Op)
}

func (s *State) hstore(key string, sort Sort, r, v *Term) {
	for _, rc := range recs {
		rc.heapWrite(key, sort, r)
	}
	h := s.heapArr(key, sort)
	if h.Op == "hstore" && h.Args[1] == r {
		h = h.Args[0]
	}
	s.heap[key] = intern("hstore", sort, nil, "", h, r, v)
}

// ---- element memory. mbase(key) | mwr(M,ref,off,content) | mhav(M,Mf,wm,refs...)

func (s *State) memArr(key string, sort Sort) *Term {
	if m, ok := s.mem[key]; ok {
		return m
	}
	m := intern("mbase", sort, nil, key, Const("mv!0", SInt))
	s.mem[key] = m
	return m
}

func (s *State) max0(n *Term) *Term {
	if s.geK(n) {
		return n
	}
	return Max0(n)
}

func (s *State) clamp(x, n *Term) *Term { // min(max(x,0),n), n>=0
	if s.geK(Sub(x, n)) {
		return s.max0(n)
	}
	if s.geK(Neg(x)) {
		return Int(0)
	}
	if s.geK(x) && s.geK(Sub(n, x)) {
		return x
	}
	if x.IsInt() && x.N.Sign() <= 0 {
		return Int(0)
	}
	c := ge0(Sub(n, x))
	if c == True { // x<=n
		return Max0(x)
	}
	if c == False {
		return n
	}
	return Ite(ge0(x), Ite(c, x, n), Int(0))
}

func (s *State) win(m, ref, o, n *Term) *Term {
	sort := m.Sort
	if n.IsInt() && n.N.Sign() <= 0 {
		return Empty(sort)
	}
	if ref.Op == "ite" {
		return Ite(ref.Args[0], s.win(m, ref.Args[1], s.iteUnder(o, ref.Args[0], true), s.iteUnder(n, ref.Args[0], true)),
			s.win(m, ref.Args[2], s.iteUnder(o, ref.Args[0], false), s.iteUnder(n, ref.Args[0], false)))
	}
	switch m.Op {
	case "mbase":
		return intern("win", sort, nil, m.S, m.Args[0], ref, o, s.max0(n))
	case "mwr":
		m0, r, off, content := m.Args[0], m.Args[1], m.Args[2], m.Args[3]
		c := s.refEq(r, ref)
		if c == False {
			return s.win(m0, ref, o, n)
		}
		var inside *Term
		l := Len(content)
		if r.Op == "ite" { // resolve the offset under the branch where refs agree
			if e := s.refEq(r.Args[2], ref); e == False {
				off = s.iteUnder(off, r.Args[0], true)
			} else if e := s.refEq(r.Args[1], ref); e == False {
				off = s.iteUnder(off, r.Args[0], false)
			}
		}
		if off == o && l == n {
			inside = content
		} else if s.geK(Sub(o, Add(off, l))) {
			inside = s.win(m0, ref, o, n)
		} else if s.geK(Sub(off, Add(o, n))) {
			inside = s.win(m0, ref, o, n)
		} else if d := Sub(o, off); s.geK(d) && s.geK(Sub(l, Add(d, n))) {
			// fully inside the written range
			inside = Extract(content, d, n)
		} else if one := n.IsInt() && n.N.IsInt64() && n.N.Int64() == 1; one && sort != SString {
			d := Sub(o, off)
			inside = Ite(And(ge0(d), ge0(Sub(Sub(l, d), Int(1)))), Extract(content, d, n), s.win(m0, ref, o, n))
		} else {
			a := s.clamp(Sub(off, o), n)
			b := s.clamp(Sub(Add(off, l), o), n)
			inside = Cat(sort, s.win(m0, ref, o, a), Extract(content, s.max0(Sub(o, off)), Sub(b, a)), s.win(m0, ref, Add(o, b), Sub(n, b)))
		}
		if c == True {
			return inside
		}
		return Ite(c, inside, s.win(m0, ref, o, n))
	case "mhav":
		var cs []*Term
		cs = append(cs, s.refGE(ref, m.Args[2]))
		for _, r := range m.Args[3:] {
			cs = append(cs, s.refEq(r, ref))
		}
		c := Or(cs...)
		if b, ok := phiBound[ref]; ok && c != True && verGen[ref] != 0 && verGen[ref] == verGen[m.Args[1].Args[0]] {
			// ref was havoced together with this memory and denotes b or a new object
			for _, r := range m.Args[3:] {
				if r == b {
					c = True
				}
			}
		}
		if c == True {
			return s.win(m.Args[1], ref, o, n)
		}
		if c == False {
			return s.win(m.Args[0], ref, o, n)
		}
		return Ite(c, s.win(m.Args[1], ref, o, n), s.win(m.Args[0], ref, o, n))
	}
	panic("win " + m.Op)
}

func (s *State) isKnown(c *Term) bool {
	v, ok := s.known(c)
	return ok && v
}

func (s *State) iteUnder(t, c *Term, val bool) *Term {
	return Subst(t, map[*Term]*Term{c: Bool(val)}, map[*Term]*Term{})
}

// content of a slice in the current memory
func (s *State) content(elem types.Type, v *SliceV) *Term {
	return s.win(s.memArr(memKey(elem), contentSort(elem)), v.Ref, v.Off, v.Len)
}

// elem: one element (in range) of a slice
func (s *State) elem(elem types.Type, v *SliceV, i *Term) *Term {
	if isByte(elem) {
		return Nth(s.content(elem, v), i)
	}
	w := s.win(s.memArr(memKey(elem), contentSort(elem)), v.Ref, Add(v.Off, i), Int(1))
	return s.nth0(w)
}

func (s *State) nth0(w *Term) *Term {
	if w.Op == "ite" {
		return Ite(w.Args[0], s.nth0(w.Args[1]), s.nth0(w.Args[2]))
	}
	return nthCtx(w, Int(0), s.geK)
}

func (s *State) memWrite(elem types.Type, ref, off, content *Term) {
	if content == Empty(content.Sort) {
		return
	}
	k := memKey(elem)
	m := s.memArr(k, contentSort(elem))
	for _, rc := range recs {
		rc.memWrite(k, m.Sort, ref)
	}
	s.mem[k] = intern("mwr", m.Sort, nil, "", m, ref, off, content)
}

// ---- well-formedness of a value (facts that hold for every Go value of the type)

var maxLen = Int(1 << 48)

func (s *State) wf(t types.Type, v Value) {
	if isTypeParam(t) {
		return
	}
	switch x := under(t).(type) {
	case *types.Basic:
		if x.Info()&types.IsInteger != 0 {
			s.assume(inRange(v.(*Term), t))
		}
		if x.Info()&types.IsString != 0 {
			s.assume(Le(Len(v.(*Term)), maxLen))
		}
	case *types.Pointer:
		if p, ok := v.(*PtrV); ok && p.Kind == "obj" && !isSub(p.Ref) {
			s.older(p.Ref)
			s.refLow(p.Ref)
		}
	case *types.Map, *types.Chan:
		s.older(v.(*Term))
		s.refLow(v.(*Term))
	case *types.Slice:
		sv := v.(*SliceV)
		s.older(sv.Ref)
		s.refLow(sv.Ref)
		s.assume(Ge(sv.Off, Int(0)), Ge(sv.Len, Int(0)), Ge(sv.Cap, Int(0)), Le(Add(sv.Off, sv.Cap), maxLen), Le(sv.Len, sv.Cap))
		s.assume(Implies(Eq(sv.Ref, Int(0)), Eq(sv.Cap, Int(0))))
	case *types.Struct:
		a := v.(*Agg)
		for i := 0; i < x.NumFields(); i++ {
			s.wf(x.Field(i).Type(), a.F[i])
		}
	case *types.Tuple:
		a := v.(*Agg)
		for i := 0; i < x.Len(); i++ {
			s.wf(x.At(i).Type(), a.F[i])
		}
	case *types.Interface:
		iv := v.(*IfaceV)
		s.assume(Ge(iv.Tag, Int(0)), Implies(Eq(iv.Tag, Int(0)), Eq(iv.Data, Int(0))))
		s.older(iv.Data)
	case *types.Array:
		av := v.(*ArrV)
		s.assume(Eq(Len(av.Content), Int(x.Len())))
	}
}

// refLow: a stored reference is an object or a package-level value, not a function or interior pointer
func (s *State) refLow(r *Term) {
	if r.Op == "ite" {
		s.refLow(r.Args[1])
		s.refLow(r.Args[2])
		return
	}
	if _, f := freshPos(r); f || isSub(r) || r.IsInt() {
		return
	}
	s.assume(Ge(r, Int(globLow)))
}

// package-level objects created by initialisers have literal references in [globLow, 0)
const globLow = -450000

// ---- modified sets (loops, calls)

type modEntry struct {
	mem  bool
	sort Sort
	refs map[*Term]bool
	news bool // objects allocated inside
	all  bool

	grow map[*Term]bool // slice headers whose storage is the old one or newly allocated
}

type Recorder struct {
	mark int      // constants with a larger id are local to the recorded region
	pos  [2]int64 // watermark at its start
	m    map[string]*modEntry
}

var recs []*Recorder

// phiBound: a loop-carried slice reference denotes the entry object or one allocated since (an
// invariant that the loop rule proves; when it cannot, the function is re-verified without it).
var phiBound = map[*Term]*Term{}

func newRecorder(s *State) *Recorder {
	return &Recorder{mark: termCnt, pos: [2]int64{int64(s.gen), s.cnt}, m: map[string]*modEntry{}}
}

func (rc *Recorder) entry(k string, mem bool, sort Sort) *modEntry {
	e := rc.m[k]
	if e == nil {
		e = &modEntry{mem: mem, sort: sort, refs: map[*Term]bool{}}
		rc.m[k] = e
	}
	return e
}

func (rc *Recorder) add(e *modEntry, r *Term) {
	if r == nil {
		e.all = true
		return
	}
	if r.IsInt() && r.N.Sign() == 0 {
		return // nothing is ever written through nil
	}
	if r.Op == "ite" {
		rc.add(e, r.Args[1])
		rc.add(e, r.Args[2])
		return
	}
	if p, ok := freshPos(r); ok && lexLE(rc.pos, p) {
		e.news = true
		return
	}
	if isSub(r) {
		base := r
		for isSub(base) {
			base = base.Args[0]
		}
		if p, ok := freshPos(base); ok && lexLE(rc.pos, p) {
			e.all = true // sub-objects of new objects are below the watermark
			return
		}
	}
	if b, ok := phiBound[r]; ok && r.id > rc.mark {
		e.news = true
		rc.add(e, b)
		return
	}
	if hasConst(r, func(c *Term) bool { return c.id > rc.mark }) {
		if verbose > 2 {
			fmt.Println("   write to an unknown object", r)
		}
		e.all = true
		return
	}
	e.refs[r] = true
}

func (rc *Recorder) heapWrite(k string, sort Sort, r *Term) { rc.add(rc.entry(k, false, sort), r) }
func (rc *Recorder) memWrite(k string, sort Sort, r *Term)  { rc.add(rc.entry(k, true, sort), r) }

// merge other into rc; true if anything new
func (rc *Recorder) merge(o *Recorder) bool {
	ch := false
	for k, e := range o.m {
		x := rc.m[k]
		if x == nil {
			x = &modEntry{mem: e.mem, sort: e.sort, refs: map[*Term]bool{}}
			rc.m[k] = x
			ch = true
		}
		for r := range e.refs {
			if !x.refs[r] {
				x.refs[r] = true
				ch = true
			}
		}
		if e.news && !x.news {
			x.news = true
			ch = true
		}
		if e.all && !x.all {
			x.all = true
			ch = true
		}
	}
	return ch
}

var hverCnt int

// havoc replaces everything in the modified set by unknown values, opening a new allocation generation.
func (s *State) havoc(rc *Recorder) {
	oldwm := Add(s.wm, Int(s.cnt))
	keys := make([]string, 0)
	for k := range rc.m {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		e := rc.m[k]
		for _, up := range recs { // an enclosing region modifies it too
			ue := up.entry(k, e.mem, e.sort)
			if e.all {
				ue.all = true
			}
			if e.news {
				ue.news = true
			}
			for r := range e.refs {
				up.add(ue, r)
			}
		}
		hverCnt++
		verGen[Const(fmt.Sprintf("mv!%d", hverCnt), SInt)] = genCnt + 1
		verGen[Const(fmt.Sprintf("hv!%d", hverCnt), SInt)] = genCnt + 1
		if strings.HasPrefix(k, "tr:") {
			s.heap[k] = Fresh(k, e.sort)
			continue
		}
		if e.mem {
			m := s.memArr(k, e.sort)
			mf := intern("mbase", e.sort, nil, k, Const(fmt.Sprintf("mv!%d", hverCnt), SInt))
			if e.all {
				s.mem[k] = mf
				continue
			}
			s.mem[k] = intern("mhav", e.sort, nil, "", append([]*Term{m, mf, oldwm}, sortedTerms(e.refs)...)...)
			continue
		}
		h := s.heapArr(k, e.sort)
		h0 := h
		hf := intern("hbase", e.sort, nil, k, Const(fmt.Sprintf("hv!%d", hverCnt), SInt))
		if e.all {
			s.heap[k] = hf
			continue
		}
		if e.news {
			h = intern("hhav", e.sort, nil, "", h, hf, oldwm)
		}
		for _, r := range sortedTerms(e.refs) {
			fv := Fresh("hv:"+k, e.sort)
			verGen[fv] = genCnt + 1
			if e.grow[r] {
				phiBound[fv] = s.hsel(h0, r)
			}
			h = intern("hstore", e.sort, nil, "", h, r, fv)
		}
		s.heap[k] = h
	}
	s.newGen()
}

var genCnt int

func (s *State) newGen() {
	oldwm := Add(s.wm, Int(s.cnt))
	genCnt++
	s.gen = genCnt
	s.wm = Const(fmt.Sprintf("W!%d", s.gen), SInt)
	s.cnt = 0
	s.assume(Ge(s.wm, oldwm))
}
