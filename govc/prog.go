package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var verbose int

type Prog struct {
	sentinels map[string]int64
	guide     []string
	opaque    map[string]bool
	prog      *ssa.Program
	repo      string
	specs     *Specs
	demoted   map[string]bool
	pkgs      map[string]*packages.Package // by short path
	ssapkgs   map[string]*ssa.Package
	loops     map[*ssa.Function]*loopInfo
	events    map[string]*dataType
	inits     map[string]*pkgInit
	mutable   map[string]bool // globals stored to outside initialisers
	loadErr   []string
}

type pkgInit struct {
	vals  map[string]Value
	elems map[string]map[int64]Value
	st    *State
	err   string
	base  int64
}

func loadProg(repo, modfile string, patterns []string, sp *Specs) (*Prog, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		BuildFlags: []string{"-modfile=" + modfile, "-mod=mod"},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	pr := &Prog{repo: repo, specs: sp, demoted: map[string]bool{}, pkgs: map[string]*packages.Package{}, ssapkgs: map[string]*ssa.Package{},
		loops: map[*ssa.Function]*loopInfo{}, events: map[string]*dataType{}, inits: map[string]*pkgInit{}, mutable: map[string]bool{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		pr.pkgs[shortPkg(p.PkgPath)] = p
		if strings.HasPrefix(p.PkgPath+"/", modPath) {
			for _, e := range p.Errors {
				pr.loadErr = append(pr.loadErr, e.Error())
			}
		}
	})
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	pr.prog = prog
	for _, sp := range prog.AllPackages() {
		pr.ssapkgs[shortPkg(sp.Pkg.Path())] = sp
		if strings.HasPrefix(sp.Pkg.Path()+"/", modPath) {
			sp.Build()
		}
	}
	// globals written outside initialisers, or whose address escapes
	for fn := range pr.repoFuncs() {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch y := in.(type) {
					case *ssa.UnOp:
						if y.Op == token.MUL {
							continue
						}
					case *ssa.IndexAddr:
						if onlyLoaded(y) {
							continue
						}
					case *ssa.FieldAddr:
						if onlyLoaded(y) {
							continue
						}
					}
					pr.mutable[pr.globalKey(g)] = true
				}
			}
		}
	}
	theProg = pr
	return pr, nil
}

func onlyLoaded(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				continue
			}
		case *ssa.IndexAddr:
			if x.X == v && onlyLoaded(x) {
				continue
			}
		case *ssa.FieldAddr:
			if onlyLoaded(x) {
				continue
			}
		case *ssa.DebugRef:
			continue
		}
		return false
	}
	return true
}

func (pr *Prog) repoFuncs() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for n, p := range pr.ssapkgs {
		_ = n
		if !strings.HasPrefix(p.Pkg.Path()+"/", modPath) {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				if nt, ok := types.Unalias(x.Type()).(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						add(pr.prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
	return out
}

func (pr *Prog) isRepo(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		// synthesised wrapper: repo if its object is
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path()+"/", modPath)
		}
		return f.Synthetic != ""
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path()+"/", modPath)
}

func (pr *Prog) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := pr.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	pr.loops[fn] = l
	return l
}

func (pr *Prog) contractFor(fn *ssa.Function) *Contract {
	c := pr.specs.ByName[fnName(fn)]
	if c == nil {
		return nil
	}
	return c
}

// ---------------------------------------------------------------- names

func splitLast(s string) (string, string) {
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return "", s
	}
	return s[:i], s[i+1:]
}

func (pr *Prog) typeByName(n string) types.Type {
	if t := pr.typeByName0(n); t != nil {
		return t
	}
	panic("spec: unknown type " + n)
}

func (pr *Prog) typeByName0(n string) types.Type {
	switch {
	case strings.HasPrefix(n, "*"):
		if t := pr.typeByName0(n[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(n, "[]"):
		if t := pr.typeByName0(n[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case n == "byte":
		return types.Typ[types.Uint8]
	}
	if o := types.Universe.Lookup(n); o != nil {
		return o.Type()
	}
	p, name := splitLast(n)
	if pk := pr.pkgs[p]; pk != nil {
		if o := pk.Types.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return nil
}

// funcByName finds the ssa function of a contract name.
func (pr *Prog) funcByName(n string) *ssa.Function {
	p, name := splitLast(n)
	if pk := pr.pkgs[p]; pk != nil {
		if o, ok := pk.Types.Scope().Lookup(name).(*types.Func); ok {
			return pr.prog.FuncValue(o)
		}
		return nil
	}
	p2, tname := splitLast(p)
	pk := pr.pkgs[p2]
	if pk == nil {
		return nil
	}
	o, ok := pk.Types.Scope().Lookup(tname).(*types.TypeName)
	if !ok {
		return nil
	}
	nt, ok := types.Unalias(o.Type()).(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < nt.NumMethods(); i++ {
		if nt.Method(i).Name() == name {
			return pr.prog.FuncValue(nt.Method(i))
		}
	}
	return nil
}

// sigByName: signature and receiver type of an extern name (function, method, interface method, func type)
func (pr *Prog) sigByName(n string) (*types.Signature, types.Type) {
	n = strings.TrimPrefix(n, "view:")
	if f := pr.funcByName(n); f != nil {
		if r := f.Signature.Recv(); r != nil {
			return f.Signature, r.Type()
		}
		return f.Signature, nil
	}
	if t := pr.typeByName0(n); t != nil {
		if s, ok := under(t).(*types.Signature); ok {
			return s, t
		}
	}
	p, name := splitLast(n)
	if t := pr.typeByName0(p); t != nil {
		if it, ok := under(t).(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == name {
					return it.Method(i).Type().(*types.Signature), t
				}
			}
		}
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, name); o != nil {
			if f, ok := o.(*types.Func); ok {
				s := f.Type().(*types.Signature)
				return s, s.Recv().Type()
			}
		}
	}
	panic("spec: unknown event/extern " + n)
}

// ---------------------------------------------------------------- events

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

// evFlatten: the leaves an event records of a value; byte slices by content
func evFlatten(st *State, t types.Type, v Value) []*Term {
	if sv, ok := v.(*SliceV); ok && isByteSlice(t) {
		return []*Term{st.content(types.Typ[types.Uint8], sv)}
	}
	return flatten(v)
}

func evSorts(t types.Type) []Sort {
	if isByteSlice(t) {
		return []Sort{SString}
	}
	var out []Sort
	for _, l := range leaves(t) {
		out = append(out, l.sort)
	}
	return out
}

func (pr *Prog) eventDT(c *Contract, sig *types.Signature, recvT types.Type) *dataType {
	return pr.eventBuild(c.Name, sig, recvT)
}

func (pr *Prog) eventBuild(name string, sig *types.Signature, recvT types.Type) *dataType {
	if dt, ok := pr.events[name]; ok {
		return dt
	}
	var ss []Sort
	if recvT != nil {
		ss = append(ss, evSorts(recvT)...)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ss = append(ss, evSorts(sig.Params().At(i).Type())...)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		ss = append(ss, evSorts(sig.Results().At(i).Type())...)
	}
	return pr.mkEvent(name, ss)
}

func (pr *Prog) mkEvent(name string, ss []Sort) *dataType {
	if len(ss) == 0 {
		ss = []Sort{SInt}
	}
	dt := &dataType{name: "Ev_" + sanitize(name), sorts: ss}
	for i := range ss {
		dt.sels = append(dt.sels, fmt.Sprintf("%s_%d", dt.name, i))
	}
	dataTypes[dt.name] = dt
	pr.events[name] = dt
	return dt
}

func (pr *Prog) eventOf(name string) *dataType {
	if dt, ok := pr.events[name]; ok {
		return dt
	}
	if strings.HasPrefix(name, "go:") {
		f := pr.funcByName(name[3:])
		if f == nil {
			panic("spec: unknown event " + name)
		}
		var ss []Sort
		for _, p := range f.Params {
			for _, l := range leaves(p.Type()) {
				ss = append(ss, l.sort)
			}
		}
		return pr.mkEvent(name, ss)
	}
	sig, rt := pr.sigByName(name)
	return pr.eventBuild(name, sig, rt)
}

func (pr *Prog) dynEvent(name string, ls []*Term) *dataType {
	if dt, ok := pr.events[name]; ok {
		return dt
	}
	var ss []Sort
	for _, l := range ls {
		ss = append(ss, l.Sort)
	}
	return pr.mkEvent(name, ss)
}

// ---------------------------------------------------------------- globals

func (pr *Prog) globalKey(g *ssa.Global) string {
	return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
}

func (pr *Prog) globalPtr(key string) *PtrV {
	p, n := splitLast(key)
	pk := pr.pkgs[p]
	if pk == nil {
		panic("spec: unknown package " + p)
	}
	o := pk.Types.Scope().Lookup(n)
	if o == nil {
		panic("spec: unknown global " + key)
	}
	if c, ok := o.(*types.Const); ok {
		_ = c
		panic("spec: G() of a constant " + key)
	}
	return &PtrV{Kind: "glob", T: o.Type(), Key: key}
}

// initOf evaluates a package's variable initialisers (straight-line part of the synthetic init function).
func (pr *Prog) initOf(pkg string) *pkgInit {
	if i, ok := pr.inits[pkg]; ok {
		return i
	}
	pi := &pkgInit{vals: map[string]Value{}, elems: map[string]map[int64]Value{}, base: int64(len(pr.inits)+1)*4000 - 440000}
	pr.inits[pkg] = pi
	sp := pr.ssapkgs[pkg]
	if sp == nil || !strings.HasPrefix(sp.Pkg.Path()+"/", modPath) {
		pi.err = "package outside the repository"
		return pi
	}
	fn := sp.Func("init")
	ex := &Exec{pr: pr, fn: fn, names: map[string]SpecVal{}, inlined: map[string]bool{}, used: map[string]bool{}, assumed: map[string]bool{}, maxPath: 1000, silent: 1, dry: 1, initPkg: pi, initKey: pkg}
	savedRecs := recs
	recs = nil
	defer func() {
		recs = savedRecs
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				pi.err = u.msg
				return
			}
			pi.err = fmt.Sprint(r)
		}
	}()
	st := newState()
	pi.st = st
	ex.runFunc(fn, nil, nil, st, 0, func(st *State, _ []Value) { pi.st = st })
	return pi
}

func (ex *Exec) loadGlobal(st *State, p *PtrV) Value {
	if ex.initPkg != nil {
		if strings.HasSuffix(p.Key, ".init$guard") {
			return False
		}
		if v, ok := ex.initPkg.vals[p.Key]; ok {
			return v
		}
		if pk, _ := splitLast(p.Key); pk == ex.initKey {
			return zeroValue(p.T)
		}
	}
	return ex.globalValue(st, p)
}

func (ex *Exec) globalValue(st *State, p *PtrV) Value {
	v := ex.pr.globalInit(ex, p.Key)
	if v == nil {
		if pk, n := splitLast(p.Key); ex.pr.ssapkgs[pk] != nil && !strings.HasPrefix(ex.pr.ssapkgs[pk].Pkg.Path()+"/", modPath) && (strings.HasPrefix(n, "Err") || n == "EOF") && !ex.pr.mutable[p.Key] && p.T.String() == "error" {
			// a sentinel error of another module: some error value of its own
			if ex.pr.sentinels == nil {
				ex.pr.sentinels = map[string]int64{}
			}
			if ex.pr.sentinels[p.Key] == 0 {
				ex.pr.sentinels[p.Key] = int64(len(ex.pr.sentinels) + 1)
			}
			return &IfaceV{Tag: Int(900001), Data: Int(-900000000 - ex.pr.sentinels[p.Key])}
		}
		// unknown or mutable: a heap cell named by the global
		return ex.loadLeaves(st, "glob:"+p.Key, Int(-449999), p.T)
	}
	pk, _ := splitLast(p.Key)
	ex.injectGlobal(st, ex.pr.inits[pk], p.T, v)
	return v
}

// globalInit: the initial value of an immutable global, nil if unknown
func (pr *Prog) globalInit(ex *Exec, key string) Value {
	if pr.mutable[key] {
		return nil
	}
	pk, _ := splitLast(key)
	pi := pr.initOf(pk)
	if es, ok := pi.elems[key]; ok {
		at := arrayOf(pr.globalPtrAny(key).T)
		if at == nil || pi.err != "" {
			return nil
		}
		n, et := at.Len(), at.Elem()
		for arrayOf(et) != nil {
			n, et = n*arrayOf(et).Len(), arrayOf(et).Elem()
		}
		sort := contentSort(et)
		var us []*Term
		for i := int64(0); i < n; i++ {
			v, ok := es[i]
			if !ok {
				v = zeroValue(et)
			}
			us = append(us, Unit(sort, pi.rebase(packElem(et, v))))
		}
		return &ArrV{Cat(sort, us...)}
	}
	v, ok := pi.vals[key]
	if !ok {
		return nil
	}
	t := pr.globalPtrAny(key).T
	var ls []*Term
	for _, l := range flatten(v) {
		ls = append(ls, pi.rebase(l))
	}
	return unflatten(t, ls)
}

func (pr *Prog) globalPtrAny(key string) *PtrV {
	p, n := splitLast(key)
	if sp := pr.ssapkgs[p]; sp != nil {
		if g, ok := sp.Members[n].(*ssa.Global); ok {
			return &PtrV{Kind: "glob", T: deref(g.Type()), Key: key}
		}
	}
	return pr.globalPtr(key)
}

func (pi *pkgInit) rebase(t *Term) *Term {
	return Subst(t, map[*Term]*Term{Const("W!0", SInt): Int(pi.base)}, map[*Term]*Term{})
}

func (pi *pkgInit) unbase(r *Term) *Term {
	n := r.N.Int64() - pi.base
	return Add(Const("W!0", SInt), Int(n))
}

// injectGlobal assumes the initial content of objects reachable from a package-level value.
func (ex *Exec) injectGlobal(st *State, pi *pkgInit, t types.Type, v Value) {
	isG := func(r *Term) bool {
		return r.IsInt() && r.N.IsInt64() && r.N.Int64() >= pi.base && r.N.Int64() < pi.base+4000
	}
	if st.injected == nil {
		st.injected = map[*Term]bool{}
	}
	switch x := under(t).(type) {
	case *types.Slice:
		sv := v.(*SliceV)
		if isG(sv.Ref) && !st.injected[sv.Ref] {
			st.injected[sv.Ref] = true
			c := pi.st.win(pi.st.memArr(memKey(x.Elem()), contentSort(x.Elem())), pi.unbase(sv.Ref), sv.Off, sv.Len)
			m := intern("mbase", contentSort(x.Elem()), nil, memKey(x.Elem()), Const("mv!0", SInt))
			st.assume(Eq(st.win(m, sv.Ref, sv.Off, sv.Len), pi.rebase(c)))
		}
	case *types.Map:
		r := v.(*Term)
		if isG(r) && !st.injected[r] {
			st.injected[r] = true
			ks := leaves(x.Key())[0].sort
			keys := []leaf{{path: "#dom", sort: ArrSort(ks, SBool)}}
			for _, l := range leaves(x.Elem()) {
				keys = append(keys, leaf{path: l.path, sort: ArrSort(ks, l.sort)})
			}
			for _, l := range keys {
				k := mapKey(x) + l.path
				if pi.st.heap[k] == nil {
					continue
				}
				val := pi.rebase(pi.st.hsel(pi.st.heap[k], pi.unbase(r)))
				st.assume(Eq(App("H:"+k, l.sort, Const("hv!0", SInt), r), val))
			}
		}
	case *types.Pointer:
		p, ok := v.(*PtrV)
		if ok && p.Kind == "obj" && isG(p.Ref) && !st.injected[p.Ref] {
			st.injected[p.Ref] = true
			s := structOf(p.T)
			if s == nil {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if structOf(ft) != nil || arrayOf(ft) != nil {
					continue
				}
				for _, l := range leaves(ft) {
					k := heapKey(p.T, i) + l.path
					if pi.st.heap[k] == nil {
						continue
					}
					val := pi.rebase(pi.st.hsel(pi.st.heap[k], pi.unbase(p.Ref)))
					st.assume(Eq(App("H:"+k, l.sort, Const("hv!0", SInt), p.Ref), val))
				}
			}
		}
	}
}

func (pr *Prog) storeFlat(m map[int64]Value, t types.Type, i int64, v Value) {
	at := arrayOf(t)
	if at == nil {
		m[i] = v
		return
	}
	for j := int64(0); j < at.Len(); j++ {
		pr.storeFlat(m, at.Elem(), i*at.Len()+j, unpackElem(at.Elem(), Nth(v.(*ArrV).Content, Int(j))))
	}
}

func (pr *Prog) storeGlobal(ex *Exec, st *State, p *PtrV, v Value) {
	if ex.initPkg != nil {
		if p.Kind == "globelem" {
			if !p.Idx.IsInt() {
				unsup("initialiser with symbolic index")
			}
			m := ex.initPkg.elems[p.Key]
			if m == nil {
				m = map[int64]Value{}
				ex.initPkg.elems[p.Key] = m
			}
			pr.storeFlat(m, p.T, p.Idx.N.Int64(), v)
			return
		}
		if p.Kind == "globfield" {
			unsup("initialiser of a struct field")
		}
		if at := arrayOf(p.T); at != nil && arrayOf(at.Elem()) != nil {
			m := map[int64]Value{}
			ex.initPkg.elems[p.Key] = m
			pr.storeFlat(m, p.T, 0, v)
			return
		}
		ex.initPkg.vals[p.Key] = v
		return
	}
	if p.Kind != "glob" {
		unsup("store to a part of a global")
	}
	ex.storeLeaves(st, "glob:"+p.Key, Int(-449999), p.T, v)
}

// ---------------------------------------------------------------- misc

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = ast.IsExported
