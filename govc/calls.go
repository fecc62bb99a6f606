package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/indigo-web/indigo/"

func shortPkg(p string) string {
	if p == strings.TrimSuffix(modPath, "/") {
		return "."
	}
	return strings.TrimPrefix(p, modPath)
}

// fnName: pkg.Func, pkg.Type.Method
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = shortPkg(fn.Pkg.Pkg.Path())
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = shortPkg(fn.Object().Pkg().Path())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pkg + "." + fn.Name()
}

func (ex *Exec) call(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, st *State, k Cont) {
	pos := in.Pos()
	if c.IsInvoke() {
		iv := ex.val(fr, c.Value).(*IfaceV)
		var args []Value
		for _, a := range c.Args {
			args = append(args, ex.val(fr, a))
		}
		ex.invoke(fr, iv, c.Value.Type(), c.Method, args, st, pos, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ex.builtin(fr, b, c, st, pos, k)
		return
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	f := ex.val(fr, c.Value).(*FuncV)
	ex.callFuncV(fr, f, c.Value.Type(), args, st, pos, k)
}

func (ex *Exec) callFuncV(fr *Frame, f *FuncV, ft types.Type, args []Value, st *State, pos token.Pos, k Cont) {
	if f.Fn != nil {
		ex.callFn(fr, f.Fn, args, f.Free, st, pos, k)
		return
	}
	sig := under(ft).(*types.Signature)
	name := "func:" + typeKey(ft)
	if n, ok := types.Unalias(ft).(*types.Named); ok {
		name = typeKey(n)
	}
	ex.extern(name, sig, f, ft, args, st, pos, k)
}

func (ex *Exec) invoke(fr *Frame, iv *IfaceV, it types.Type, m *types.Func, args []Value, st *State, pos token.Pos, k Cont) {
	if iv.Dyn != nil {
		if fn := ex.pr.prog.LookupMethod(iv.Dyn, m.Pkg(), m.Name()); fn != nil {
			if c := ex.pr.contractFor(fn); c != nil || fn.Blocks != nil {
				ex.callFn(fr, fn, append([]Value{iv.DynVal}, args...), nil, st, pos, k)
				return
			}
		}
	}
	if iv.Tag.Op != "int" || iv.Tag.N.Sign() == 0 {
		ex.must(st, Ne(iv.Tag, Int(0)), "nil-interface-call", pos)
	}
	name := typeKey(it) + "." + m.Name()
	// methods of embedded interfaces are specified where they are declared
	if ex.pr.specs.ByName[name] == nil {
		if n := m.FullName(); strings.HasPrefix(n, "(") {
			alt := shortPkg(strings.Trim(strings.Replace(n, ")", "", 1), "("))
			if ex.pr.specs.ByName[alt] != nil {
				name = alt
			}
		}
	}
	ex.extern(name, m.Type().(*types.Signature), iv, it, args, st, pos, k)
}

func (ex *Exec) callFn(fr *Frame, fn *ssa.Function, args, free []Value, st *State, pos token.Pos, k Cont) {
	name := fnName(fn)
	if ex.initPkg != nil && fn.Name() == "init" && fn.Synthetic != "" { // initialisers of imported packages
		k(st, nil)
		return
	}
	if ex.con != nil && ex.con.Views {
		if c := ex.pr.specs.ByName["view:"+name]; c != nil {
			ex.applyContract(c, fn.Signature, fn, args, st, pos, k)
			return
		}
	}
	if fn.Parent() == nil && ex.initPkg == nil {
		if c := ex.pr.contractFor(fn); c != nil && (fn != ex.fn || len(ex.stack) > 0 || true) && !(ex.con != nil && ex.con.Inline[name]) && !ex.pr.demoted[name] {
			if fn == ex.fn && fr.fn == ex.fn && ex.con == c {
				// recursion: rely on own contract
			}
			ex.applyContract(c, fn.Signature, fn, args, st, pos, k)
			return
		}
	}
	if m, ok := stdModels[name]; ok {
		ex.assumed["std:"+name] = true
		m(ex, st, args, pos, k)
		return
	}
	if fn.Origin() != nil && fn.Blocks == nil {
		fn = fn.Origin()
	}
	if fn.Blocks == nil {
		ex.extern(name, fn.Signature, nil, nil, args, st, pos, k)
		return
	}
	for _, s := range ex.stack {
		if s == fn {
			unsup("recursive call of %s without contract", name)
		}
	}
	if !ex.pr.isRepo(fn) {
		// dependency with source (stub modules are not loaded from source)
		ex.extern(name, fn.Signature, nil, nil, args, st, pos, k)
		return
	}
	ex.inlined[name] = true
	ex.stack = append(ex.stack, fn)
	saved := ex.stack
	ex.runFunc(fn, args, free, st, fr.depth+1, func(st *State, res []Value) {
		old := ex.stack
		ex.stack = saved[:len(saved)-1]
		k(st, res)
		ex.stack = old
	})
	ex.stack = saved[:len(saved)-1]
}

// ---- contracts at call sites

func (ex *Exec) bindParams(c *Contract, sig *types.Signature, args []Value, recvT types.Type) map[string]SpecVal {
	vars := map[string]SpecVal{}
	i := 0
	if len(args) == sig.Params().Len()+1 {
		if i < len(c.Params) {
			vars[c.Params[i]] = SpecVal{args[0], recvT}
		}
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		if i+j < len(c.Params) && i+j < len(args) {
			vars[c.Params[i+j]] = SpecVal{args[i+j], sig.Params().At(j).Type()}
		}
	}
	return vars
}

func (ex *Exec) applyContract(c *Contract, sig *types.Signature, fn *ssa.Function, args []Value, st *State, pos token.Pos, k Cont) {
	var recvT types.Type
	if sig.Recv() != nil {
		recvT = sig.Recv().Type()
	} else if fn != nil && fn.Signature.Recv() != nil {
		recvT = fn.Signature.Recv().Type()
	}
	if c.Extern {
		ex.assumed["extern:"+c.Name] = true
	} else {
		ex.used[c.Name] = true
	}
	ex.applyC(c, sig, recvT, args, st, pos, k)
}

func (ex *Exec) applyC(c *Contract, sig *types.Signature, recvT types.Type, args []Value, st *State, pos token.Pos, k Cont) {
	vars := ex.bindParams(c, sig, args, recvT)
	pre := st.clone()
	env := &SpecEnv{ex: ex, st: pre, old: pre, vars: vars, pol: true}
	for _, l := range c.Lets {
		vars[l.Label] = env.eval(l.E)
	}
	// pointers the callee dereferences are assumed non-nil there
	if !c.Extern {
		for n, v := range vars {
			if p, ok := v.V.(*PtrV); ok && !c.Nilable[n] {
				ex.nonNil(st, p, pos)
			}
		}
	}
	for _, r := range c.Requires {
		base := len(pre.pc)
		g := env.bool(r.E)
		for _, f := range pre.pc[base:] {
			st.assume(f)
		}
		ex.must(st, g, "requires:"+c.Name+":"+r.Label, pos)
	}
	// frame
	if c.ModAll {
		unsup("contract %s modifies everything", c.Name)
	}
	rc := newRecorder(st)
	ex.modSet(rc, c, env)
	for k := range rc.m {
		if strings.HasPrefix(k, "tr:") {
			delete(rc.m, k)
		}
	}
	st.havoc(rc)
	// results
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		n := "r"
		if i < len(c.Results) {
			n = c.Results[i]
		}
		v := freshValue(c.Name+"$"+n, t)
		st.wf(t, v)
		res = append(res, v)
		if i < len(c.Results) {
			vars[c.Results[i]] = SpecVal{v, t}
		}
	}
	// event segment
	traces := map[string]*Term{}
	for key, h := range st.heap {
		if strings.HasPrefix(key, "tr:") {
			traces[key] = h
		}
	}
	for key := range traces {
		delete(st.heap, key)
	}
	post := &SpecEnv{ex: ex, st: st, old: pre, vars: vars, pol: false}
	emits := c.emits()
	if len(emits) > 0 && !(c.Extern && c.Event) {
		st.heap["tr:#order"] = Fresh("seg:order", SString)
	}
	for _, e := range emits {
		dt := ex.pr.eventOf(e)
		st.heap["tr:"+e] = Fresh("seg:"+e, SeqOf(dt.name))
	}
	for _, en := range c.Ensures {
		st.assume(post.bool(en.E))
	}
	if c.Extern && c.Event {
		dt := ex.pr.eventDT(c, sig, recvT)
		var ls []*Term
		off := len(args) - sig.Params().Len()
		for i, a := range args {
			t := recvT
			if i >= off {
				t = sig.Params().At(i - off).Type()
			}
			if c.EventPost {
				ls = append(ls, evFlatten(st, t, a)...)
				continue
			}
			ls = append(ls, evFlatten(pre, t, a)...)
		}
		for i, r := range res {
			ls = append(ls, evFlatten(st, sig.Results().At(i).Type(), r)...)
		}
		st.heap["tr:"+c.Name] = Unit(SeqOf(dt.name), Mk(dt, ls...))
		if c.EventCh != "" {
			st.heap["tr:#order"] = Str(c.EventCh)
		}
	} else if len(emits) > 0 {
		if _, ok := st.heap["tr:#order"]; !ok {
			st.heap["tr:#order"] = Fresh("seg:order", SString)
		}
	}
	for key, seg := range st.heap {
		if !strings.HasPrefix(key, "tr:") {
			continue
		}
		base := traces[key]
		delete(traces, key)
		if base == nil {
			base = Empty(seg.Sort)
		}
		for _, rc := range recs {
			rc.heapWrite(key, seg.Sort, nil)
		}
		st.heap[key] = Cat(seg.Sort, base, seg)
	}
	for key, base := range traces {
		st.heap[key] = base
	}
	k(st, res)
}

func (c *Contract) emits() []string {
	var out []string
	for _, m := range c.Modifies {
		if m.Op == "call" && m.Name == "tr" {
			out = append(out, m.Args[0].Name)
		}
	}
	return out
}

// modSet turns a modifies clause into heap/memory locations.
func (ex *Exec) modSet(rc *Recorder, c *Contract, env *SpecEnv) {
	for _, m := range c.Modifies {
		if m.Op == "call" && m.Name == "tr" {
			continue
		}
		if m.Op == "call" && m.Name == "grow" {
			f := m.Args[0]
			p := env.eval(f.Args[0]).V.(*PtrV)
			v := env.eval(f)
			et := under(v.T).(*types.Slice).Elem()
			rc.memWrite(memKey(et), contentSort(et), v.V.(*SliceV).Ref)
			rc.entry(memKey(et), true, contentSort(et)).news = true
			ex.modField(rc, p, f.Name)
			for k, e := range rc.m {
				if strings.HasSuffix(k, "."+f.Name+".ref") && !e.mem && e.refs[p.Ref] {
					if e.grow == nil {
						e.grow = map[*Term]bool{}
					}
					e.grow[p.Ref] = true
				}
			}
			continue
		}
		if m.Op == "call" && (m.Name == "bytes" || m.Name == "seq") {
			v := env.eval(m.Args[0])
			et := under(v.T).(*types.Slice).Elem()
			rc.memWrite(memKey(et), contentSort(et), v.V.(*SliceV).Ref)
			continue
		}
		if m.Op == "call" && m.Name == "anymem" { // anymem("[]elem")
			et := ex.pr.typeByName(m.Args[0].Name)
			rc.memWrite(memKey(et), contentSort(et), nil)
			continue
		}
		if m.Op == "call" && m.Name == "anyobj" { // anyobj("T"): every field of every T
			ex.modAny(rc, ex.pr.typeByName(m.Args[0].Name))
			continue
		}
		if m.Op == "call" && m.Name == "newmem" {
			et := ex.pr.typeByName(m.Args[0].Name)
			rc.entry(memKey(et), true, contentSort(et)).news = true
			continue
		}
		if m.Op == "call" && m.Name == "map" {
			v := env.eval(m.Args[0])
			mt := under(v.T).(*types.Map)
			ks := leaves(mt.Key())[0].sort
			rc.heapWrite(mapKey(mt)+"#dom", ArrSort(ks, SBool), v.V.(*Term))
			for _, l := range leaves(mt.Elem()) {
				rc.heapWrite(mapKey(mt)+l.path, ArrSort(ks, l.sort), v.V.(*Term))
			}
			continue
		}
		if m.Op == "field" {
			b := env.eval(m.Args[0])
			p, ok := b.V.(*PtrV)
			if !ok {
				panic("modifies: " + m.Name)
			}
			ex.modField(rc, p, m.Name)
			continue
		}
		if m.Op == "call" && m.Name == "all" { // all(p): every field of *p
			p := env.eval(m.Args[0]).V.(*PtrV)
			s := structOf(p.T)
			for i := 0; i < s.NumFields(); i++ {
				ex.modField(rc, p, s.Field(i).Name())
			}
			continue
		}
		panic("modifies: unsupported " + m.Op + " " + m.Name)
	}
}

func (ex *Exec) modAny(rc *Recorder, t types.Type) {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if structOf(ft) != nil {
			ex.modAny(rc, ft)
			continue
		}
		if at := arrayOf(ft); at != nil {
			rc.memWrite(memKey(at.Elem()), contentSort(at.Elem()), nil)
			continue
		}
		for _, l := range leaves(ft) {
			rc.heapWrite(heapKey(t, i)+l.path, l.sort, nil)
		}
	}
}

func (ex *Exec) modField(rc *Recorder, p *PtrV, name string) {
	s := structOf(p.T)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != name {
			continue
		}
		ft := s.Field(i).Type()
		if structOf(ft) != nil {
			sub := &PtrV{Kind: "obj", T: ft, Ref: subRef(p.T, i, p.Ref)}
			ss := structOf(ft)
			for j := 0; j < ss.NumFields(); j++ {
				ex.modField(rc, sub, ss.Field(j).Name())
			}
			return
		}
		if at := arrayOf(ft); at != nil {
			rc.memWrite(memKey(at.Elem()), contentSort(at.Elem()), subRef(p.T, i, p.Ref))
			return
		}
		for _, l := range leaves(ft) {
			rc.heapWrite(heapKey(p.T, i)+l.path, l.sort, p.Ref)
		}
		return
	}
	panic("modifies: no field " + name)
}

// extern: a call whose body is not under verification
func (ex *Exec) extern(name string, sig *types.Signature, recv Value, recvT types.Type, args []Value, st *State, pos token.Pos, k Cont) {
	all := args
	if recv != nil {
		all = append([]Value{recv}, args...)
	}
	if c := ex.pr.specs.ByName[name]; c != nil && c.Extern {
		ex.assumed["extern:"+name] = true
		ex.applyC(c, sig, recvT, all, st, pos, k)
		return
	}
	if m, ok := stdModels[name]; ok {
		ex.assumed["std:"+name] = true
		m(ex, st, all, pos, k)
		return
	}
	ex.assumed["havoc-result:"+name] = true
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := freshValue("ext_"+name, t)
		st.newGen()
		st.wf(t, v)
		res = append(res, v)
	}
	k(st, res)
}

func (ex *Exec) trace(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if key == "tr:#order" {
		return Str("")
	}
	dt := ex.pr.eventOf(strings.TrimPrefix(key, "tr:"))
	return Empty(SeqOf(dt.name))
}

func (ex *Exec) goStmt(fr *Frame, in *ssa.Go, st *State) {
	c := &in.Call
	var name string
	var ls []*Term
	if f := c.StaticCallee(); f != nil {
		name = "go:" + fnName(f)
	} else {
		unsup("go of dynamic function")
	}
	for _, a := range c.Args {
		ls = append(ls, flatten(ex.val(fr, a))...)
	}
	dt := ex.pr.dynEvent(name, ls)
	key := "tr:" + name
	seg := Unit(SeqOf(dt.name), Mk(dt, ls...))
	for _, rc := range recs {
		rc.heapWrite(key, seg.Sort, nil)
	}
	base := st.heap[key]
	if base == nil {
		base = Empty(seg.Sort)
	}
	st.heap[key] = Cat(seg.Sort, base, seg)
	for _, rc := range recs {
		rc.heapWrite("tr:#order", SString, nil)
	}
	st.heap["tr:#order"] = Cat(SString, ex.trace(st, "tr:#order"), Str("G"))
}

func (ex *Exec) addDefer(fr *Frame, in *ssa.Defer) {
	c := in.Call
	if c.IsInvoke() {
		iv := ex.val(fr, c.Value).(*IfaceV)
		var args []Value
		for _, a := range c.Args {
			args = append(args, ex.val(fr, a))
		}
		fr.defers = append(fr.defers, func(fr *Frame, st *State, k func(*Frame, *State)) {
			ex.invoke(fr, iv, c.Value.Type(), c.Method, args, st, in.Pos(), func(st *State, _ []Value) { k(fr.clone(), st) })
		})
		return
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		unsup("deferred builtin")
	}
	f := ex.val(fr, c.Value).(*FuncV)
	var args []Value
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	if f.Fn != nil && usesRecover(f.Fn) {
		unsup("recover")
	}
	fr.defers = append(fr.defers, func(fr *Frame, st *State, k func(*Frame, *State)) {
		ex.callFuncV(fr, f, c.Value.Type(), args, st, in.Pos(), func(st *State, _ []Value) { k(fr.clone(), st) })
	})
}

func usesRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (ex *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	n := len(fr.defers)
	if n == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[n-1]
	fr.defers = fr.defers[:n-1]
	d(fr, st, func(fr2 *Frame, st *State) { ex.runDefers(fr2, st, k) })
}

// ---------------------------------------------------------------- builtins

func (ex *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, st *State, pos token.Pos, k Cont) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			if x.Sort == SString {
				k(st, []Value{Len(x)})
				return
			}
			r := App("maplen", SInt, x)
			st.assume(Ge(r, Int(0)))
			k(st, []Value{r})
			return
		case *SliceV:
			k(st, []Value{x.Len})
			return
		case *ArrV:
			k(st, []Value{Len(x.Content)})
			return
		case *PtrV:
			k(st, []Value{Int(arrayOf(x.T).Len())})
			return
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			k(st, []Value{x.Cap})
			return
		}
	case "append":
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		s := args[0].(*SliceV)
		var x *Term
		switch y := args[1].(type) {
		case *Term:
			x = y
		case *SliceV:
			x = st.content(et, y)
		}
		maxFork := 6
		if ex.con != nil && ex.con.Forks > 0 {
			maxFork = ex.con.Forks
		}
		if ex.con != nil && ex.con.FlatAppend {
			k(st, []Value{ex.appendSeq(st, et, s, x)})
			return
		}
		if fits := Le(Add(s.Len, Len(x)), s.Cap); x != Empty(x.Sort) && ex.dry == 0 && st.fork < maxFork && fits != True && fits != False {
			if _, ok := st.known(fits); !ok {
				st.fork++
				s2 := st.clone()
				st.assume(fits)
				k(st, []Value{ex.appendSeq(st, et, s, x)})
				s2.assume(Not(fits))
				k(s2, []Value{ex.appendSeq(s2, et, s, x)})
				return
			}
		}
		k(st, []Value{ex.appendSeq(st, et, s, x)})
		return
	case "copy":
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		d := args[0].(*SliceV)
		var srcLen *Term
		get := func(st *State, n *Term) *Term { return nil }
		switch y := args[1].(type) {
		case *Term:
			srcLen = Len(y)
			get = func(st *State, n *Term) *Term { return Extract(y, Int(0), n) }
		case *SliceV:
			srcLen = y.Len
			get = func(st *State, n *Term) *Term {
				return st.content(et, &SliceV{y.Ref, y.Off, n, n})
			}
		}
		cond := Le(d.Len, srcLen)
		if v, ok := st.known(cond); ok {
			cond = Bool(v)
		}
		do := func(st *State, n *Term) {
			st.memWrite(et, d.Ref, d.Off, get(st, n))
			k(st, []Value{n})
		}
		if cond == True {
			do(st, d.Len)
			return
		}
		if cond == False {
			do(st, srcLen)
			return
		}
		st2 := st.clone()
		st.assume(cond)
		do(st, d.Len)
		st2.assume(Not(cond))
		do(st2, srcLen)
		return
	case "print", "println":
		k(st, nil)
		return
	case "min", "max":
		a := args[0].(*Term)
		for _, y := range args[1:] {
			if b.Name() == "min" {
				a = Min(a, y.(*Term))
			} else {
				a = Ite(Ge(a, y.(*Term)), a, y.(*Term))
			}
		}
		k(st, []Value{a})
		return
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		ref := args[0].(*Term)
		key := flatten(args[1])[0]
		ds := ArrSort(key.Sort, SBool)
		st.hstore(mapKey(mt)+"#dom", ds, ref, Store(st.hsel(st.heapArr(mapKey(mt)+"#dom", ds), ref), key, False))
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		k(st, []Value{args[0]})
		return
	}
	unsup("builtin %s", b.Name())
}

func (ex *Exec) appendSeq(st *State, et types.Type, s *SliceV, x *Term) *SliceV {
	if x == Empty(x.Sort) {
		return s
	}
	c := st.content(et, s)
	nlen := Add(s.Len, Len(x))
	fits := Le(nlen, s.Cap)
	if v, ok := st.known(fits); ok {
		fits = Bool(v)
	}
	st.assume(Le(nlen, maxLen))
	fresh := st.freshRef()
	nc := Fresh("cap", SInt)
	st.assume(Ge(nc, nlen), Le(nc, maxLen))
	r := &SliceV{Ref: Ite(fits, s.Ref, fresh), Off: Ite(fits, s.Off, Int(0)), Len: nlen, Cap: Ite(fits, s.Cap, nc)}
	if ex.con != nil && ex.con.FlatAppend && fits != True && fits != False {
		// the two outcomes as a disjunction over named values instead of nested conditionals
		q := &SliceV{Ref: Fresh("aref", SInt), Off: Fresh("aoff", SInt), Len: nlen, Cap: Fresh("acap", SInt)}
		st.assume(Or(And(fits, Eq(q.Ref, s.Ref), Eq(q.Off, s.Off), Eq(q.Cap, s.Cap)), And(Not(fits), Eq(q.Ref, fresh), Eq(q.Off, Int(0)), Eq(q.Cap, nc))), Ge(q.Off, Int(0)), Ge(q.Cap, nlen))
		st.older(q.Ref)
		r = q
	}
	st.memWrite(et, r.Ref, r.Off, Cat(c.Sort, c, x))
	return r
}

// ---------------------------------------------------------------- standard library models (assumed contracts)

type model func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont)

func strOrBytes(st *State, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *SliceV:
		return st.content(types.Typ[types.Uint8], x)
	}
	panic("strOrBytes")
}

func pure(f func(st *State, a []*Term) *Term) model {
	return func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
		var ts []*Term
		for _, a := range args {
			switch x := a.(type) {
			case *Term:
				ts = append(ts, x)
			case *SliceV:
				ts = append(ts, strOrBytes(st, x))
			default:
				unsup("std model argument %T", a)
			}
		}
		k(st, []Value{f(st, ts)})
	}
}

func lastIndexByte(st *State, s, c *Term) *Term {
	r := App("lastindexbyte", SInt, s, c)
	u := Unit(SString, c)
	st.assume(Or(And(Eq(r, Int(-1)), Not(Contains(s, u))),
		And(Ge(r, Int(0)), Lt(r, Len(s)), Eq(Nth(s, r), c), Not(Contains(SuffixFrom(s, Add(r, Int(1))), u)))))
	return r
}

var stdModels map[string]model

func reLit(c byte) string { return fmt.Sprintf("(str.to_re %s)", smtStr(string([]byte{c}))) }
func reSet(set string) string {
	if len(set) == 1 {
		return reLit(set[0])
	}
	var b strings.Builder
	b.WriteString("(re.union")
	for i := 0; i < len(set); i++ {
		b.WriteString(" " + reLit(set[i]))
	}
	return b.String() + ")"
}

func trimRight(st *State, s, set *Term) *Term {
	if !set.IsStr() || set.S == "" {
		unsup("TrimRight with a non-constant cutset")
	}
	r := App("trimright:"+set.S, SString, s)
	suf := SuffixFrom(s, Len(r))
	st.assume(PrefixOf(r, s), InRe(suf, "(re.* "+reSet(set.S)+")"), Not(InRe(r, "(re.++ re.all "+reSet(set.S)+")")))
	st.assume(Eq(Cat(SString, r, suf), s))
	return r
}

func trimLeft(st *State, s, set *Term) *Term {
	if !set.IsStr() || set.S == "" {
		unsup("TrimLeft with a non-constant cutset")
	}
	r := App("trimleft:"+set.S, SString, s)
	pre := Extract(s, Int(0), Sub(Len(s), Len(r)))
	st.assume(SuffixOf(r, s), InRe(pre, "(re.* "+reSet(set.S)+")"), Not(InRe(r, "(re.++ "+reSet(set.S)+" re.all)")))
	st.assume(Eq(Cat(SString, pre, r), s))
	return r
}

func init() {
	idxByte := pure(func(st *State, a []*Term) *Term {
		r := IndexOf(a[0], Unit(SString, a[1]), Int(0))
		st.assume(Ge(r, Int(-1)), Or(Lt(r, Len(a[0])), Eq(r, Int(-1))))
		return r
	})
	idx := pure(func(st *State, a []*Term) *Term {
		r := IndexOf(a[0], a[1], Int(0))
		st.assume(Ge(r, Int(-1)), Le(r, Len(a[0])))
		return r
	})
	eqFold := pure(func(st *State, a []*Term) *Term { return eqfold(a[0], a[1]) })
	subslice := func(cond func(s, p *Term) *Term, cut func(sv *SliceV, n *Term) *SliceV) model {
		return func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			sv := args[0].(*SliceV)
			s, p := strOrBytes(st, sv), strOrBytes(st, args[1])
			c := cond(s, p)
			st2 := st.clone()
			st.assume(c)
			k(st, []Value{cut(sv, Len(p))})
			st2.assume(Not(c))
			k(st2, []Value{sv})
		}
	}
	byteT := types.Typ[types.Uint8]
	stdModels = map[string]model{
		"strings.IndexByte":     idxByte,
		"bytes.IndexByte":       idxByte,
		"strings.Index":         idx,
		"bytes.Index":           idx,
		"strings.LastIndexByte": pure(func(st *State, a []*Term) *Term { return lastIndexByte(st, a[0], a[1]) }),
		"bytes.LastIndexByte":   pure(func(st *State, a []*Term) *Term { return lastIndexByte(st, a[0], a[1]) }),
		"strings.LastIndex": pure(func(st *State, a []*Term) *Term {
			if a[1].IsStr() && len(a[1].S) == 1 {
				return lastIndexByte(st, a[0], Int(int64(a[1].S[0])))
			}
			r := App("lastindex", SInt, a[0], a[1])
			st.assume(Ge(r, Int(-1)), Le(r, Len(a[0])))
			return r
		}),
		"strings.IndexRune": pure(func(st *State, a []*Term) *Term {
			if a[1].IsInt() && a[1].N.Int64() < 128 {
				return IndexOf(a[0], Unit(SString, a[1]), Int(0))
			}
			unsup("IndexRune of non-ASCII")
			return nil
		}),
		"strings.HasPrefix": pure(func(st *State, a []*Term) *Term { return PrefixOf(a[1], a[0]) }),
		"bytes.HasPrefix":   pure(func(st *State, a []*Term) *Term { return PrefixOf(a[1], a[0]) }),
		"strings.HasSuffix": pure(func(st *State, a []*Term) *Term { return SuffixOf(a[1], a[0]) }),
		"bytes.HasSuffix":   pure(func(st *State, a []*Term) *Term { return SuffixOf(a[1], a[0]) }),
		"strings.Contains":  pure(func(st *State, a []*Term) *Term { return Contains(a[0], a[1]) }),
		"bytes.Contains":    pure(func(st *State, a []*Term) *Term { return Contains(a[0], a[1]) }),
		"strings.ContainsRune": pure(func(st *State, a []*Term) *Term {
			if a[1].IsInt() && a[1].N.Int64() < 128 {
				return Contains(a[0], Unit(SString, a[1]))
			}
			unsup("ContainsRune")
			return nil
		}),
		"bytes.Equal": pure(func(st *State, a []*Term) *Term { return Eq(a[0], a[1]) }),
		"strings.TrimPrefix": pure(func(st *State, a []*Term) *Term {
			return Ite(PrefixOf(a[1], a[0]), SuffixFrom(a[0], Len(a[1])), a[0])
		}),
		"strings.TrimSuffix": pure(func(st *State, a []*Term) *Term {
			return Ite(SuffixOf(a[1], a[0]), Extract(a[0], Int(0), Sub(Len(a[0]), Len(a[1]))), a[0])
		}),
		"bytes.TrimPrefix": subslice(func(s, p *Term) *Term { return PrefixOf(p, s) }, func(sv *SliceV, n *Term) *SliceV {
			return &SliceV{sv.Ref, Add(sv.Off, n), Sub(sv.Len, n), Sub(sv.Cap, n)}
		}),
		"bytes.TrimSuffix": subslice(func(s, p *Term) *Term { return SuffixOf(p, s) }, func(sv *SliceV, n *Term) *SliceV {
			return &SliceV{sv.Ref, sv.Off, Sub(sv.Len, n), sv.Cap}
		}),
		"strings.TrimRight": pure(func(st *State, a []*Term) *Term { return trimRight(st, a[0], a[1]) }),
		"strings.TrimLeft":  pure(func(st *State, a []*Term) *Term { return trimLeft(st, a[0], a[1]) }),
		"strings.Trim": pure(func(st *State, a []*Term) *Term {
			return trimLeft(st, trimRight(st, a[0], a[1]), a[1])
		}),
		"strings.EqualFold": eqFold,
		"bytes.EqualFold":   eqFold,
		"github.com/indigo-web/utils/strcomp.EqualFold": pure(func(st *State, a []*Term) *Term { return asciifold(a[0], a[1]) }),
		"strings.ToLower": pure(func(st *State, a []*Term) *Term { r := App("tolower", SString, a[0]); return r }),
		"strings.Repeat": pure(func(st *State, a []*Term) *Term {
			r := App("strrepeat", SString, a[0], a[1])
			return r
		}),
		"github.com/indigo-web/utils/uf.B2S": pure(func(st *State, a []*Term) *Term { return a[0] }),
		"github.com/indigo-web/utils/uf.S2B": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			s := args[0].(*Term)
			ref := st.freshRef()
			st.memWrite(byteT, ref, Int(0), s)
			z := Eq(Len(s), Int(0))
			k(st, []Value{&SliceV{Ite(z, Int(0), ref), Int(0), Len(s), Len(s)}})
		},
		"bytes.TrimRight": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			sv := args[0].(*SliceV)
			r := trimRight(st, strOrBytes(st, sv), args[1].(*Term))
			k(st, []Value{&SliceV{sv.Ref, sv.Off, Len(r), sv.Cap}})
		},
		"bytes.TrimLeft": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			sv := args[0].(*SliceV)
			r := trimLeft(st, strOrBytes(st, sv), args[1].(*Term))
			d := Sub(sv.Len, Len(r))
			k(st, []Value{&SliceV{sv.Ref, Add(sv.Off, d), Len(r), Sub(sv.Cap, d)}})
		},
		"strings.Cut": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			s, sep := args[0].(*Term), args[1].(*Term)
			i := IndexOf(s, sep, Int(0))
			st2 := st.clone()
			st.assume(Ge(i, Int(0)), Le(Add(i, Len(sep)), Len(s)))
			k(st, []Value{Extract(s, Int(0), i), SuffixFrom(s, Add(i, Len(sep))), True})
			st2.assume(Lt(i, Int(0)))
			k(st2, []Value{s, Str(""), False})
		},
		"strings.CutPrefix": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			s, p := args[0].(*Term), args[1].(*Term)
			c := PrefixOf(p, s)
			k(st, []Value{Ite(c, SuffixFrom(s, Len(p)), s), c})
		},
		"strings.CutSuffix": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			s, p := args[0].(*Term), args[1].(*Term)
			c := SuffixOf(p, s)
			k(st, []Value{Ite(c, Extract(s, Int(0), Sub(Len(s), Len(p))), s), c})
		},
		"bytes.Cut": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			sv := args[0].(*SliceV)
			s, sep := strOrBytes(st, sv), strOrBytes(st, args[1])
			i := IndexOf(s, sep, Int(0))
			st2 := st.clone()
			st.assume(Ge(i, Int(0)), Le(Add(i, Len(sep)), Len(s)))
			d := Add(i, Len(sep))
			k(st, []Value{&SliceV{sv.Ref, sv.Off, i, i}, &SliceV{sv.Ref, Add(sv.Off, d), Sub(sv.Len, d), Sub(sv.Cap, d)}, True})
			st2.assume(Lt(i, Int(0)))
			k(st2, []Value{sv, zeroValue(types.NewSlice(byteT)), False})
		},
		"strconv.FormatInt": pure(func(st *State, a []*Term) *Term {
			if a[1].IsInt() && a[1].N.Cmp(big.NewInt(10)) == 0 {
				return itoa(st, a[0])
			}
			return App("formatint", SString, a[0], a[1])
		}),
		"strconv.Itoa": pure(func(st *State, a []*Term) *Term { return itoa(st, a[0]) }),
		"strconv.AppendInt": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			b := args[2].(*Term)
			x := App("formatint", SString, args[1].(*Term), b)
			if b.IsInt() && b.N.Cmp(big.NewInt(10)) == 0 {
				x = itoa(st, args[1].(*Term))
			}
			k(st, []Value{ex.appendSeq(st, byteT, args[0].(*SliceV), x)})
		},
		"strconv.AppendUint": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			b := args[2].(*Term)
			x := App("formatint", SString, args[1].(*Term), b)
			if b.IsInt() && b.N.Cmp(big.NewInt(10)) == 0 {
				x = itoa(st, args[1].(*Term))
			} else {
				st.assume(Ge(Len(x), Int(1)), Le(Len(x), Int(64)))
				if b.IsInt() && b.N.Cmp(big.NewInt(16)) == 0 {
					st.assume(Le(Len(x), Int(16)), Implies(Lt(args[1].(*Term), Int(1<<32)), Le(Len(x), Int(8))))
				}
			}
			k(st, []Value{ex.appendSeq(st, byteT, args[0].(*SliceV), x)})
		},
		"errors.New": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			ref := st.freshRef()
			k(st, []Value{&IfaceV{Tag: Int(900001), Data: ref}})
		},
		"errors.Is": func(ex *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			unsup("errors.Is")
		},
	}
}

// itoa: decimal rendering; non-empty, and empty only never
func itoa(st *State, n *Term) *Term {
	if n.IsInt() {
		return Str(n.N.String())
	}
	r := App("itoa", SString, n)
	st.assume(Ge(Len(r), Int(1)), Le(Len(r), Int(20)))
	return r
}

func eqfold(a, b *Term) *Term {
	if a.IsStr() && b.IsStr() {
		return Bool(strings.EqualFold(a.S, b.S))
	}
	if a == b {
		return True
	}
	if b.IsStr() || (!a.IsStr() && a.id > b.id) {
		a, b = b, a
	}
	return App("eqfold", SBool, a, b)
}

// asciifold: ASCII case-insensitive equality (strcomp.EqualFold)
func asciifold(a, b *Term) *Term {
	if a.IsStr() && b.IsStr() {
		return Bool(len(a.S) == len(b.S) && asciiLower(a.S) == asciiLower(b.S))
	}
	if a == b {
		return True
	}
	if b.IsStr() || (!a.IsStr() && a.id > b.id) {
		a, b = b, a
	}
	return App("asciifold", SBool, a, b)
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}
