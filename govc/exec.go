package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cont func(st *State, res []Value)

type Obl struct {
	Fn    string
	Kind  string // ensures:<label>, safety kinds, requires:<callee>
	Pos   string
	Hyps  []*Term
	Goal  *Term
	State *State
	Props []string
	Inst  []*Term
	// results
	OK     bool
	Why    string
	Solver string
	Secs   float64
	Model  string
}

type Frame struct {
	fn       *ssa.Function
	regs     map[ssa.Value]Value
	loops    *loopInfo
	handlers map[*ssa.BasicBlock]func(fr *Frame, prev *ssa.BasicBlock, st *State)
	bound    map[*ssa.BasicBlock]bool
	defers   []func(fr *Frame, st *State, k func(*Frame, *State))
	depth    int
	names    map[string]Value // names bound by the contract (root frame)
}

func (f *Frame) clone() *Frame {
	c := *f
	c.regs = make(map[ssa.Value]Value, len(f.regs))
	for k, v := range f.regs {
		c.regs[k] = v
	}
	c.defers = f.defers[:len(f.defers):len(f.defers)]
	return &c
}

type Exec struct {
	pr                *Prog
	fn                *ssa.Function
	con               *Contract
	inst              []*Term
	silent            int // >0: obligations are not recorded
	dry               int // >0: no solver
	obls              []*Obl
	old               *State
	names             map[string]SpecVal
	paths             int
	stack             []*ssa.Function
	inlined           map[string]bool
	used              map[string]bool // callee contracts relied on
	assumed           map[string]bool // std/extern models relied on
	loopLog           []string
	maxPath           int
	noBound           map[ssa.Value]bool
	noGrow            map[string]bool
	noUnroll          map[*ssa.BasicBlock]bool
	caseNo            int
	full, usedLearned bool
	initPkg           *pkgInit
	initKey           string
	exits             []*State
}

func (ex *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.pr.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, ex.pr.repo+"/") + ":" + fmt.Sprint(q.Line)
}

// must records an obligation and then assumes it.
func (ex *Exec) must(st *State, goal *Term, kind string, pos token.Pos) {
	if goal == True {
		if ex.silent == 0 {
			ex.obls = append(ex.obls, &Obl{Fn: ex.name(), Kind: kind, Pos: ex.posOf(pos), Goal: True, OK: true, Solver: "simplifier"})
		}
		return
	}
	if ex.silent == 0 {
		ex.obls = append(ex.obls, &Obl{Fn: ex.name(), Kind: kind, Pos: ex.posOf(pos), Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: goal, State: st, Inst: ex.inst})
	}
	st.assume(goal)
}

func (ex *Exec) name() string {
	if ex.con != nil {
		return ex.con.Name
	}
	return ex.fn.String()
}

// ---------------------------------------------------------------- running

func (ex *Exec) runFunc(fn *ssa.Function, args []Value, free []Value, st *State, depth int, k Cont) {
	if fn.Blocks == nil {
		unsup("function without body: %s", fn)
	}
	if depth > 24 {
		unsup("inlining too deep at %s", fn)
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, loops: ex.pr.loopsOf(fn), handlers: map[*ssa.BasicBlock]func(*Frame, *ssa.BasicBlock, *State){}, depth: depth}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = free[i]
	}
	ex.block(fr, fn.Blocks[0], nil, st, k)
}

func (ex *Exec) block(fr *Frame, b, prev *ssa.BasicBlock, st *State, k Cont) {
	if fr.bound != nil && !fr.bound[b] {
		return
	}
	if st.infeasible() {
		return
	}
	if lp := fr.loops.byHeader[b]; lp != nil {
		if prev != nil && lp.body[prev] {
			if h := fr.handlers[b]; h != nil {
				h(fr, prev, st)
				return
			}
		}
		ex.loop(fr, lp, prev, st, k)
		return
	}
	ex.phis(fr, b, prev)
	ex.instrs(fr, b, ex.firstNonPhi(b), st, k)
}

func (ex *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (ex *Exec) phiVals(fr *Frame, b, prev *ssa.BasicBlock) []Value {
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
			break
		}
	}
	var out []Value
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 {
			panic("phi without pred")
		}
		out = append(out, ex.val(fr, p.Edges[idx]))
	}
	for _, r := range strRanges(b) {
		out = append(out, ex.val(fr, r))
	}
	return out
}

// strRanges: the string iterators advanced at the start of a block. The register of an *ssa.Range over a
// string holds the position; it is treated like one more phi of the loop header.
func strRanges(b *ssa.BasicBlock) []*ssa.Range {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok && n.IsString {
			return []*ssa.Range{n.Iter.(*ssa.Range)}
		}
	}
	return nil
}

// phiKeys: the registers set on entry to a block
func phiKeys(b *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	for _, r := range strRanges(b) {
		out = append(out, r)
	}
	return out
}

// strNext advances a string iterator: one path per encoded width.
func (ex *Exec) strNext(fr *Frame, in *ssa.Next, st *State, cont func(*Frame, *State)) {
	rg := in.Iter.(*ssa.Range)
	s, pos := ex.term(fr, rg.X), ex.val(fr, rg).(*Term)
	step := func(st *State, ok, k, r, np *Term) {
		if st.infeasible() {
			return
		}
		f := fr.clone()
		f.regs[in] = &Agg{F: []Value{ok, k, r}}
		f.regs[rg] = np
		cont(f, st)
	}
	end := st.clone()
	end.assume(Ge(pos, Len(s)))
	step(end, False, pos, Int(0), pos)
	at := func(i int64) *Term { return Nth(s, Add(pos, Int(i))) }
	in0 := st.clone()
	in0.assume(Lt(pos, Len(s)))
	b := at(0)
	in0.assume(And(Ge(b, Int(0)), Le(b, Int(255))))
	asc := in0.clone()
	asc.assume(Lt(b, Int(128)))
	step(asc, True, pos, b, Add(pos, Int(1)))
	for w := int64(1); w <= 4; w++ {
		m := in0.clone()
		m.assume(Ge(b, Int(128)))
		m.assume(Le(Add(pos, Int(w)), Len(s)))
		for j := int64(1); j < w; j++ {
			m.assume(And(Ge(at(j), Int(128)), Le(at(j), Int(191))))
		}
		r := App("runeat", SInt, s, pos)
		m.assume(And(Ge(r, Int(128)), Le(r, Int(0x10ffff))))
		step(m, True, pos, r, Add(pos, Int(w)))
	}
}

func (ex *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	vs := ex.phiVals(fr, b, prev)
	ks := phiKeys(b)
	for i, v := range vs {
		fr.regs[ks[i]] = v
	}
}

func (ex *Exec) val(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Global:
		return &PtrV{Kind: "glob", T: deref(x.Type()), Key: ex.pr.globalKey(x)}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch b := under(c.Type()).(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return Str(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Int(i)
			}
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return BigI(n)
		}
		return Const("float:"+c.Value.ExactString(), "U_float")
	}
	unsup("constant %s", c)
	return nil
}

func (ex *Exec) term(fr *Frame, v ssa.Value) *Term {
	x := ex.val(fr, v)
	switch y := x.(type) {
	case *Term:
		return y
	case *PtrV:
		return ptrTerm(y)
	case *FuncV:
		return funcTerm(y)
	}
	panic(fmt.Sprintf("term: %T for %s", x, v))
}

func (ex *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State, k Cont) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			c := ex.term(fr, in.Cond)
			if v, ok := st.known(c); ok {
				c = Bool(v)
			}
			if c == True {
				ex.block(fr, b.Succs[0], b, st, k)
				return
			}
			if c == False {
				ex.block(fr, b.Succs[1], b, st, k)
				return
			}
			ex.paths++
			if ex.paths > ex.maxPath {
				unsup("more than %d paths", ex.maxPath)
			}
			st2, fr2 := st.clone(), fr.clone()
			st.assume(c)
			ex.block(fr, b.Succs[0], b, st, k)
			st2.assume(Not(c))
			ex.block(fr2, b.Succs[1], b, st2, k)
			return
		case *ssa.Jump:
			ex.block(fr, b.Succs[0], b, st, k)
			return
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, ex.val(fr, r))
			}
			k(st, res)
			return
		case *ssa.Panic:
			ex.must(st, False, "no-panic", in.Pos())
			return
		case *ssa.RunDefers:
			ex.runDefers(fr, st, func(fr *Frame, st *State) { ex.instrs(fr, b, i+1, st, k) })
			return
		case *ssa.Defer:
			ex.addDefer(fr, in)
		case *ssa.Go:
			ex.goStmt(fr, in, st)
		case *ssa.Call:
			i0 := i
			ex.call(fr, in, &in.Call, st, func(st *State, res []Value) {
				fr2 := fr.clone()
				switch t := in.Type().(type) {
				case *types.Tuple:
					if t.Len() > 0 {
						fr2.regs[in] = &Agg{F: res}
					}
				default:
					if len(res) == 1 {
						fr2.regs[in] = res[0]
					}
				}
				ex.instrs(fr2, b, i0+1, st, k)
			})
			return
		case *ssa.DebugRef:
		case *ssa.Store:
			ex.store(st, ex.ptr(fr, in.Addr), ex.val(fr, in.Val), in.Pos())
		case *ssa.MapUpdate:
			ex.mapUpdate(fr, in, st)
		case *ssa.Next:
			if !in.IsString {
				unsup("range over a map")
			}
			i0 := i
			ex.strNext(fr, in, st, func(f *Frame, st *State) { ex.instrs(f, b, i0+1, st, k) })
			return
		case *ssa.Select, *ssa.Send:
			unsup("channel operation")
		case *ssa.UnOp:
			if in.Op == token.MUL {
				fr.regs[in] = ex.load(st, ex.ptr(fr, in.X), in.Pos())
				continue
			}
			fr.regs[in] = ex.unop(fr, in, st)
		case *ssa.Lookup:
			if _, ok := under(in.X.Type()).(*types.Map); ok {
				fr.regs[in] = ex.mapLookup(fr, in, st)
				continue
			}
			fr.regs[in] = ex.strIndex(st, ex.term(fr, in.X), ex.term(fr, in.Index), in.Pos())
		case ssa.Value:
			fr.regs[in] = ex.value(fr, in, st)
		default:
			unsup("instruction %T", in)
		}
	}
}

func (ex *Exec) strIndex(st *State, s, i *Term, pos token.Pos) *Term {
	ex.must(st, And(Ge(i, Int(0)), Lt(i, Len(s))), "index-in-range", pos)
	c := Nth(s, i)
	st.assume(Ge(c, Int(0)), Le(c, Int(255)))
	return c
}

func (ex *Exec) value(fr *Frame, in ssa.Value, st *State) Value {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := deref(in.Type())
		ref := st.freshRef()
		p := &PtrV{Kind: "obj", T: t, Ref: ref}
		ex.zeroInit(st, p)
		return p
	case *ssa.BinOp:
		return ex.binop(fr, in, st)
	case *ssa.ChangeType:
		return ex.val(fr, in.X)
	case *ssa.ChangeInterface:
		return ex.val(fr, in.X)
	case *ssa.Convert:
		return ex.convert(fr, in, st)
	case *ssa.MultiConvert:
		unsup("generic conversion")
	case *ssa.Extract:
		return ex.val(fr, in.Tuple).(*Agg).F[in.Index]
	case *ssa.Field:
		return ex.val(fr, in.X).(*Agg).F[in.Field]
	case *ssa.FieldAddr:
		return ex.fieldAddr(st, ex.ptr(fr, in.X), in.Field, in.Pos())
	case *ssa.Index:
		if isStringT(in.X.Type()) {
			return ex.strIndex(st, ex.term(fr, in.X), ex.term(fr, in.Index), in.Pos())
		}
		a := ex.val(fr, in.X).(*ArrV)
		at := under(in.X.Type()).(*types.Array)
		i := ex.term(fr, in.Index)
		ex.must(st, And(Ge(i, Int(0)), Lt(i, Int(at.Len()))), "index-in-range", in.Pos())
		v := unpackElem(at.Elem(), tableNth(a.Content, i))
		st.wf(at.Elem(), v)
		return v
	case *ssa.IndexAddr:
		return ex.indexAddr(fr, in, st)
	case *ssa.MakeClosure:
		f := &FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Free = append(f.Free, ex.val(fr, b))
		}
		return f
	case *ssa.MakeInterface:
		return boxValue(in.X.Type(), ex.val(fr, in.X))
	case *ssa.MakeMap:
		mt := under(in.Type()).(*types.Map)
		ref := st.freshRef()
		ks := leaves(mt.Key())
		if len(ks) != 1 {
			unsup("map key type")
		}
		st.hstore(mapKey(mt)+"#dom", ArrSort(ks[0].sort, SBool), ref, ConstArr(ArrSort(ks[0].sort, SBool), False))
		return ref
	case *ssa.MakeSlice:
		et := under(in.Type()).(*types.Slice).Elem()
		l, c := ex.term(fr, in.Len), ex.term(fr, in.Cap)
		ex.must(st, And(Ge(l, Int(0)), Le(l, c)), "makeslice-size", in.Pos())
		st.assume(Le(c, maxLen))
		ref := st.freshRef()
		st.memWrite(et, ref, Int(0), zeroSeq(et, l))
		return &SliceV{ref, Int(0), l, c}
	case *ssa.Slice:
		return ex.sliceExpr(fr, in, st)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, in, st)
	case *ssa.Range:
		if !isStringT(in.X.Type()) {
			unsup("range over a map")
		}
		return Int(0)
	case *ssa.Phi:
		panic("phi")
	}
	unsup("value %T: %s", in, in)
	return nil
}

func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---------------------------------------------------------------- pointers

func (ex *Exec) ptr(fr *Frame, v ssa.Value) *PtrV {
	x := ex.val(fr, v)
	p, ok := x.(*PtrV)
	if !ok {
		panic(fmt.Sprintf("ptr: %T", x))
	}
	return p
}

func structOf(t types.Type) *types.Struct { s, _ := under(t).(*types.Struct); return s }
func arrayOf(t types.Type) *types.Array   { s, _ := under(t).(*types.Array); return s }

func heapKey(t types.Type, i int) string { return typeKey(t) + "." + structOf(t).Field(i).Name() }

func subRef(t types.Type, i int, ref *Term) *Term { return App("sub:"+heapKey(t, i), SInt, ref) }

func (ex *Exec) nonNil(st *State, p *PtrV, pos token.Pos) {
	if p.Kind != "obj" || isSub(p.Ref) {
		return
	}
	if _, ok := freshPos(p.Ref); ok {
		return
	}
	ex.must(st, Ne(p.Ref, Int(0)), "nil-deref", pos)
}

func (ex *Exec) fieldAddr(st *State, p *PtrV, i int, pos token.Pos) *PtrV {
	s := structOf(p.T)
	ft := s.Field(i).Type()
	switch p.Kind {
	case "obj":
		ex.nonNil(st, p, pos)
		if structOf(ft) != nil || arrayOf(ft) != nil {
			return &PtrV{Kind: "obj", T: ft, Ref: subRef(p.T, i, p.Ref)}
		}
		return &PtrV{Kind: "field", T: ft, Ref: p.Ref, Key: heapKey(p.T, i)}
	case "elem":
		return &PtrV{Kind: "elem", T: ft, Base: p.Base, ET: p.ET, Idx: p.Idx, Path: append(p.Path[:len(p.Path):len(p.Path)], i)}
	}
	unsup("fieldaddr of %s pointer", p.Kind)
	return nil
}

func (ex *Exec) indexAddr(fr *Frame, in *ssa.IndexAddr, st *State) Value {
	i := ex.term(fr, in.Index)
	x := ex.val(fr, in.X)
	var base *SliceV
	var et types.Type
	switch y := x.(type) {
	case *SliceV:
		base = y
		et = under(in.X.Type()).(*types.Slice).Elem()
	case *PtrV:
		at := arrayOf(y.T)
		et = at.Elem()
		if y.Kind == "glob" {
			ex.must(st, And(Ge(i, Int(0)), Lt(i, Int(at.Len()))), "index-in-range", in.Pos())
			return &PtrV{Kind: "globelem", T: et, Key: y.Key, Idx: i}
		}
		if y.Kind == "globelem" { // an array of arrays, laid out flat
			ex.must(st, And(Ge(i, Int(0)), Lt(i, Int(at.Len()))), "index-in-range", in.Pos())
			return &PtrV{Kind: "globelem", T: et, Key: y.Key, Idx: Add(Mul(y.Idx, Int(at.Len())), i)}
		}
		if y.Kind != "obj" {
			unsup("array inside %s", y.Kind)
		}
		base = &SliceV{y.Ref, Int(0), Int(at.Len()), Int(at.Len())}
	default:
		unsup("indexaddr %T", x)
	}
	ex.must(st, And(Ge(i, Int(0)), Lt(i, base.Len)), "index-in-range", in.Pos())
	return &PtrV{Kind: "elem", T: et, ET: et, Base: base, Idx: i}
}

func (ex *Exec) load(st *State, p *PtrV, pos token.Pos) Value {
	switch p.Kind {
	case "glob":
		return ex.loadGlobal(st, p)
	case "globelem":
		if ex.initPkg != nil {
			unsup("read of an array element in an initialiser")
		}
		v := ex.pr.globalInit(ex, p.Key)
		if arrayOf(p.T) != nil {
			unsup("load of a row of a global array")
		}
		if a, ok := v.(*ArrV); ok {
			r := unpackElem(p.T, tableNth(a.Content, p.Idx))
			st.wf(p.T, r)
			return r
		}
		r := freshValue("glob_"+p.Key, p.T)
		st.wf(p.T, r)
		return r
	case "obj":
		ex.nonNil(st, p, pos)
		if s := structOf(p.T); s != nil {
			a := &Agg{}
			for i := 0; i < s.NumFields(); i++ {
				a.F = append(a.F, ex.load(st, ex.fieldAddr(st, p, i, pos), pos))
			}
			return a
		}
		if at := arrayOf(p.T); at != nil {
			return &ArrV{st.content(at.Elem(), &SliceV{p.Ref, Int(0), Int(at.Len()), Int(at.Len())})}
		}
		return ex.loadLeaves(st, "cell:"+typeKey(p.T), p.Ref, p.T)
	case "field":
		return ex.loadLeaves(st, p.Key, p.Ref, p.T)
	case "elem":
		e := st.elem(p.ET, p.Base, p.Idx)
		v := unpackElem(p.ET, e)
		t := p.ET
		for _, f := range p.Path {
			v = v.(*Agg).F[f]
			t = structOf(t).Field(f).Type()
		}
		st.wf(t, v)
		return v
	}
	unsup("load %s", p.Kind)
	return nil
}

func (ex *Exec) loadLeaves(st *State, key string, ref *Term, t types.Type) Value {
	var ls []*Term
	for _, l := range leaves(t) {
		ls = append(ls, st.hsel(st.heapArr(key+l.path, l.sort), ref))
	}
	v := unflatten(t, ls)
	st.wf(t, v)
	return v
}

func (ex *Exec) storeLeaves(st *State, key string, ref *Term, t types.Type, v Value) {
	ls := flatten(v)
	for i, l := range leaves(t) {
		st.hstore(key+l.path, l.sort, ref, ls[i])
	}
}

func (ex *Exec) store(st *State, p *PtrV, v Value, pos token.Pos) {
	switch p.Kind {
	case "obj":
		ex.nonNil(st, p, pos)
		if s := structOf(p.T); s != nil {
			a := v.(*Agg)
			for i := 0; i < s.NumFields(); i++ {
				ex.store(st, ex.fieldAddr(st, p, i, pos), a.F[i], pos)
			}
			return
		}
		if at := arrayOf(p.T); at != nil {
			st.memWrite(at.Elem(), p.Ref, Int(0), v.(*ArrV).Content)
			return
		}
		ex.storeLeaves(st, "cell:"+typeKey(p.T), p.Ref, p.T, v)
	case "field":
		ex.storeLeaves(st, p.Key, p.Ref, p.T, v)
	case "elem":
		nv := v
		if len(p.Path) > 0 {
			cur := unpackElem(p.ET, st.elem(p.ET, p.Base, p.Idx))
			nv = updatePath(cur, p.Path, v)
		}
		st.memWrite(p.ET, p.Base.Ref, Add(p.Base.Off, p.Idx), Unit(contentSort(p.ET), packElem(p.ET, nv)))
	case "glob", "globelem":
		ex.pr.storeGlobal(ex, st, p, v)
	default:
		unsup("store %s", p.Kind)
	}
}

func updatePath(cur Value, path []int, v Value) Value {
	if len(path) == 0 {
		return v
	}
	a := cur.(*Agg)
	n := &Agg{F: append([]Value(nil), a.F...)}
	n.F[path[0]] = updatePath(a.F[path[0]], path[1:], v)
	return n
}

func (ex *Exec) zeroInit(st *State, p *PtrV) {
	if s := structOf(p.T); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if structOf(ft) != nil || arrayOf(ft) != nil {
				ex.zeroInit(st, &PtrV{Kind: "obj", T: ft, Ref: subRef(p.T, i, p.Ref)})
				continue
			}
			ex.storeLeaves(st, heapKey(p.T, i), p.Ref, ft, zeroValue(ft))
		}
		return
	}
	if at := arrayOf(p.T); at != nil {
		st.memWrite(at.Elem(), p.Ref, Int(0), zeroSeq(at.Elem(), Int(at.Len())))
		return
	}
	ex.storeLeaves(st, "cell:"+typeKey(p.T), p.Ref, p.T, zeroValue(p.T))
}

// tableNth reads a constant table at a symbolic index: an ite over runs
func tableNth(content, i *Term) *Term {
	if i.IsInt() {
		return Nth(content, i)
	}
	var vals []*Term
	if content.IsStr() {
		for j := 0; j < len(content.S); j++ {
			vals = append(vals, Int(int64(content.S[j])))
		}
	} else {
		for _, p := range parts(content) {
			if p.Op != "unit" {
				return Nth(content, i)
			}
			vals = append(vals, p.Args[0])
		}
	}
	if len(vals) == 0 || len(vals) > 4096 {
		return Nth(content, i)
	}
	// most frequent value is the default
	cnt := map[*Term]int{}
	for _, v := range vals {
		cnt[v]++
	}
	def := vals[0]
	for _, v := range vals {
		if cnt[v] > cnt[def] {
			def = v
		}
	}
	r := def
	for j := len(vals) - 1; j >= 0; {
		v := vals[j]
		if v == def {
			j--
			continue
		}
		// run of equal values, or of values with slope 1
		a := j
		for a > 0 && vals[a-1] == v {
			a--
		}
		b := j
		if v.IsInt() {
			for b > 0 && vals[b-1].IsInt() && vals[b-1] != def && Add(vals[b-1], Int(1)) == vals[b] {
				b--
			}
		}
		in := func(lo, hi int) *Term {
			if lo == hi {
				return Eq(i, Int(int64(lo)))
			}
			return And(Ge(i, Int(int64(lo))), Le(i, Int(int64(hi))))
		}
		if b < a {
			r = Ite(in(b, j), Add(i, Sub(v, Int(int64(j)))), r)
			j = b - 1
		} else {
			r = Ite(in(a, j), v, r)
			j = a - 1
		}
	}
	return r
}

// ---------------------------------------------------------------- operators

func (ex *Exec) unop(fr *Frame, in *ssa.UnOp, st *State) Value {
	switch in.Op {
	case token.NOT:
		return Not(ex.term(fr, in.X))
	case token.SUB:
		return wrap(Neg(ex.term(fr, in.X)), in.Type())
	case token.XOR:
		lo, hi, ok := intRange(in.Type())
		if ok && lo.Sign() == 0 {
			return Sub(BigI(hi), ex.term(fr, in.X))
		}
		return Sub(Int(-1), ex.term(fr, in.X))
	}
	unsup("unop %s", in.Op)
	return nil
}

func (ex *Exec) valEq(st *State, t types.Type, x, y Value) *Term {
	// interface vs concrete
	xs, ys := flatten(x), flatten(y)
	if _, ok := under(t).(*types.Slice); ok { // only comparison with nil
		return Eq(xs[0], ys[0])
	}
	if len(xs) != len(ys) {
		unsup("comparison of different shapes")
	}
	var cs []*Term
	ls := leaves(t)
	for i := range xs {
		if ls[i].kind == "ref" {
			cs = append(cs, st.refEq(xs[i], ys[i]))
			continue
		}
		cs = append(cs, Eq(xs[i], ys[i]))
	}
	return And(cs...)
}

func (ex *Exec) binop(fr *Frame, in *ssa.BinOp, st *State) Value {
	t := in.X.Type()
	x, y := ex.val(fr, in.X), ex.val(fr, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		if types.IsInterface(t) != types.IsInterface(in.Y.Type()) {
			unsup("mixed comparison")
		}
		e := ex.valEq(st, t, x, y)
		if in.Op == token.NEQ {
			return Not(e)
		}
		return e
	}
	a, aok := x.(*Term)
	b, bok := y.(*Term)
	if !aok || !bok {
		unsup("binop on %T", x)
	}
	bt, _ := under(t).(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch in.Op {
		case token.ADD:
			return Cat(SString, a, b)
		case token.LSS:
			return App("strlt", SBool, a, b)
		case token.GTR:
			return App("strlt", SBool, b, a)
		case token.LEQ:
			return Not(App("strlt", SBool, b, a))
		case token.GEQ:
			return Not(App("strlt", SBool, a, b))
		}
	}
	if bt == nil || bt.Info()&types.IsInteger == 0 {
		return App("fop:"+strings.ReplaceAll(in.Op.String(), "|", "or"), leaves(in.Type())[0].sort, a, b)
	}
	switch in.Op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	}
	rt := in.Type()
	switch in.Op {
	case token.ADD:
		return ex.wrapS(st, Add(a, b), rt)
	case token.SUB:
		return ex.wrapS(st, Sub(a, b), rt)
	case token.MUL:
		return ex.wrapS(st, Mul(a, b), rt)
	case token.QUO, token.REM:
		ex.must(st, Ne(b, Int(0)), "div-by-zero", in.Pos())
		// truncated division
		q := DivE(a, b)
		if !(ge0(a) == True && b.IsInt() && b.N.Sign() > 0) {
			q = Ite(Ge(a, Int(0)), DivE(a, b), Neg(DivE(Neg(a), b)))
		}
		if in.Op == token.QUO {
			return ex.wrapS(st, q, rt)
		}
		if b.IsInt() {
			if b.N.Sign() > 0 {
				return Ite(Ge(a, Int(0)), ModE(a, b), Neg(ModE(Neg(a), b)))
			}
		}
		return Sub(a, Mul(q, b))
	case token.SHL:
		if b.IsInt() && b.N.IsInt64() && b.N.Int64() < 64 && b.N.Sign() >= 0 {
			return ex.wrapS(st, Mul(a, BigI(new(big.Int).Lsh(big.NewInt(1), uint(b.N.Int64())))), rt)
		}
		r := App("shl", SInt, a, b)
		st.assume(inRange(r, rt))
		return r
	case token.SHR:
		if b.IsInt() && b.N.IsInt64() && b.N.Int64() < 64 && b.N.Sign() >= 0 {
			return DivE(a, BigI(new(big.Int).Lsh(big.NewInt(1), uint(b.N.Int64()))))
		}
		r := App("shr", SInt, a, b)
		st.assume(inRange(r, rt))
		return r
	case token.OR, token.AND, token.XOR, token.AND_NOT:
		return ex.bitop(st, in.Op, a, b, rt)
	}
	unsup("binop %s", in.Op)
	return nil
}

// wrapS: wrap-around with the range condition decided syntactically when possible
func (ex *Exec) wrapS(st *State, x *Term, t types.Type) *Term {
	if lo, hi, ok := intRange(t); ok {
		if a, b := st.rng(x); a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
			return x
		}
	}
	return wrap(x, t)
}

func (ex *Exec) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if a.IsInt() && b.IsInt() && a.N.Sign() >= 0 && b.N.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.OR:
			r.Or(a.N, b.N)
		case token.AND:
			r.And(a.N, b.N)
		case token.XOR:
			r.Xor(a.N, b.N)
		default:
			r.AndNot(a.N, b.N)
		}
		return BigI(r)
	}
	if a.IsInt() && op != token.AND_NOT {
		a, b = b, a
	}
	if b.IsInt() && b.N.Sign() == 0 {
		switch op {
		case token.AND:
			return Int(0)
		default:
			return a
		}
	}
	if op == token.AND && b.IsInt() && b.N.Sign() > 0 {
		m := new(big.Int).Add(b.N, big.NewInt(1))
		if new(big.Int).And(m, b.N).Sign() == 0 { // 2^k-1
			return ModE(a, BigI(m))
		}
	}
	u := App("bit"+map[token.Token]string{token.OR: "or", token.AND: "and", token.XOR: "xor", token.AND_NOT: "andnot"}[op], SInt, a, b)
	st.assume(inRange(u, t))
	if op == token.AND {
		st.assume(Implies(Ge(a, Int(0)), And(Ge(u, Int(0)), Le(u, a))), Implies(Ge(b, Int(0)), And(Ge(u, Int(0)), Le(u, b))))
	}
	if op == token.OR || op == token.XOR {
		// disjoint bits: x = k*2^n, y < 2^n
		for _, n := range []int64{1, 2, 4, 8, 16, 32, 64, 128, 256, 65536} {
			c := And(Eq(ModE(a, Int(n)), Int(0)), Ge(b, Int(0)), Lt(b, Int(n)))
			st.assume(Implies(c, Eq(u, Add(a, b))))
		}
		if op == token.OR && b.IsInt() && b.N.Cmp(big.NewInt(0x20)) == 0 {
			// bit 5 on one byte
			st.assume(Implies(And(Ge(a, Int(0)), Le(a, Int(255))), Eq(u, Ite(Ge(ModE(a, Int(64)), Int(32)), a, Add(a, Int(32))))))
		}
	}
	return u
}

func (ex *Exec) convert(fr *Frame, in *ssa.Convert, st *State) Value {
	x := ex.val(fr, in.X)
	from, to := under(in.X.Type()), under(in.Type())
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		flo, fhi, _ := intRange(in.X.Type())
		tlo, thi, _ := intRange(in.Type())
		if tlo.Cmp(flo) <= 0 && thi.Cmp(fhi) >= 0 {
			return x
		}
		if t := x.(*Term); !t.IsInt() && st.geK(Sub(t, BigI(tlo))) && st.geK(Sub(BigI(thi), t)) {
			return t
		}
		return wrap(x.(*Term), in.Type())
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return x
	case tok && tb.Info()&types.IsString != 0:
		if sv, ok := x.(*SliceV); ok {
			et := from.(*types.Slice).Elem()
			if isByte(et) {
				return st.content(et, sv)
			}
			unsup("[]rune to string")
		}
		c := x.(*Term)
		r := App("runestr", SString, c)
		st.assume(Implies(And(Ge(c, Int(0)), Lt(c, Int(128))), Eq(r, Unit(SString, c))))
		return r
	case fok && fb.Info()&types.IsString != 0:
		if sl, ok := to.(*types.Slice); ok && isByte(sl.Elem()) {
			s := x.(*Term)
			ref := st.freshRef()
			c := Fresh("cap", SInt)
			st.assume(Ge(c, Len(s)), Le(c, maxLen))
			st.memWrite(sl.Elem(), ref, Int(0), s)
			return &SliceV{ref, Int(0), Len(s), c}
		}
	case fok && tok:
		r := App("conv:"+fb.Name()+":"+tb.Name(), leaves(in.Type())[0].sort, x.(*Term))
		st.wf(in.Type(), r)
		return r
	}
	unsup("convert %s -> %s", in.X.Type(), in.Type())
	return nil
}

func (ex *Exec) sliceExpr(fr *Frame, in *ssa.Slice, st *State) Value {
	x := ex.val(fr, in.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.term(fr, v)
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = Int(0)
	}
	if s, ok := x.(*Term); ok && s.Sort == SString {
		if hi == nil {
			hi = Len(s)
		}
		ex.must(st, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, Len(s))), "slice-bounds", in.Pos())
		r := Extract(s, lo, Sub(hi, lo))
		st.assume(Eq(Len(r), Sub(hi, lo)))
		return r
	}
	var sv *SliceV
	switch y := x.(type) {
	case *SliceV:
		sv = y
	case *PtrV:
		at := arrayOf(y.T)
		if at == nil || y.Kind != "obj" {
			unsup("slice of %s", y.Kind)
		}
		sv = &SliceV{y.Ref, Int(0), Int(at.Len()), Int(at.Len())}
	}
	if hi == nil {
		hi = sv.Len
	}
	c := sv.Cap
	if mx != nil {
		ex.must(st, And(Le(hi, mx), Le(mx, sv.Cap)), "slice-bounds", in.Pos())
		c = mx
	}
	ex.must(st, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, c)), "slice-bounds", in.Pos())
	return &SliceV{sv.Ref, Add(sv.Off, lo), Sub(hi, lo), Sub(c, lo)}
}

func (ex *Exec) typeAssert(fr *Frame, in *ssa.TypeAssert, st *State) Value {
	iv := ex.val(fr, in.X).(*IfaceV)
	var ok *Term
	var v Value
	if types.IsInterface(in.AssertedType) {
		if iv.Dyn != nil {
			ok = Bool(types.Implements(iv.Dyn, under(in.AssertedType).(*types.Interface)))
		} else {
			ok = And(Ne(iv.Tag, Int(0)), App("implements:"+typeKey(in.AssertedType), SBool, iv.Tag))
		}
		v = iv
	} else {
		tag := typeTag(in.AssertedType)
		ok = Eq(iv.Tag, tag)
		if iv.Dyn != nil && types.Identical(iv.Dyn, in.AssertedType) {
			v = iv.DynVal
		} else {
			v = unboxData(in.AssertedType, iv.Data)
		}
	}
	if !in.CommaOk {
		ex.must(st, ok, "type-assert", in.Pos())
		if !types.IsInterface(in.AssertedType) {
			st.wf(in.AssertedType, v)
		}
		return v
	}
	z := flatten(zeroValue(in.AssertedType))
	xs := flatten(v)
	for i := range xs {
		xs[i] = Ite(ok, xs[i], z[i])
	}
	var rv Value
	if ok == True {
		rv = v
	} else {
		rv = unflatten(in.AssertedType, xs)
	}
	st2 := unflattenGuard(st, ok, in.AssertedType, v)
	_ = st2
	return &Agg{F: []Value{rv, ok}}
}

// facts about v hold only under c
func unflattenGuard(st *State, c *Term, t types.Type, v Value) *State {
	n := len(st.pc)
	st.wf(t, v)
	for i := n; i < len(st.pc); i++ {
		st.pc[i] = Implies(c, st.pc[i])
	}
	return st
}

// ---------------------------------------------------------------- maps

func mapKey(m *types.Map) string { return "map:" + typeKey(m.Key()) + ":" + typeKey(m.Elem()) }

func (ex *Exec) mapLookup(fr *Frame, in *ssa.Lookup, st *State) Value {
	mt := under(in.X.Type()).(*types.Map)
	ref := ex.term(fr, in.X)
	kl := flatten(ex.val(fr, in.Index))
	if len(kl) != 1 {
		unsup("map key shape")
	}
	key := kl[0]
	v, ok := ex.mapGet(st, mt, ref, key)
	if in.CommaOk {
		return &Agg{F: []Value{v, ok}}
	}
	return v
}

func (ex *Exec) mapGet(st *State, mt *types.Map, ref, key *Term) (Value, *Term) {
	dom := st.hsel(st.heapArr(mapKey(mt)+"#dom", ArrSort(key.Sort, SBool)), ref)
	ok := Select(dom, key)
	if ref.IsInt() && ref.N.Sign() == 0 {
		ok = False
	}
	st.assume(Implies(Eq(ref, Int(0)), Not(ok)))
	var xs []*Term
	z := flatten(zeroValue(mt.Elem()))
	for i, l := range leaves(mt.Elem()) {
		raw := Select(st.hsel(st.heapArr(mapKey(mt)+l.path, ArrSort(key.Sort, l.sort)), ref), key)
		xs = append(xs, Ite(ok, raw, z[i]))
	}
	v := unflatten(mt.Elem(), xs)
	st.wf(mt.Elem(), v)
	return v, ok
}

func (ex *Exec) mapUpdate(fr *Frame, in *ssa.MapUpdate, st *State) {
	mt := under(in.Map.Type()).(*types.Map)
	ref := ex.term(fr, in.Map)
	key := flatten(ex.val(fr, in.Key))[0]
	if _, f := freshPos(ref); !f {
		ex.must(st, Ne(ref, Int(0)), "nil-map-write", in.Pos())
	}
	ex.mapPut(st, mt, ref, key, ex.val(fr, in.Value))
}

func (ex *Exec) mapPut(st *State, mt *types.Map, ref, key *Term, v Value) {
	ds := ArrSort(key.Sort, SBool)
	st.hstore(mapKey(mt)+"#dom", ds, ref, Store(st.hsel(st.heapArr(mapKey(mt)+"#dom", ds), ref), key, True))
	ls := flatten(v)
	for i, l := range leaves(mt.Elem()) {
		s := ArrSort(key.Sort, l.sort)
		st.hstore(mapKey(mt)+l.path, s, ref, Store(st.hsel(st.heapArr(mapKey(mt)+l.path, s), ref), key, ls[i]))
	}
}
