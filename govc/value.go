package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values.
type Value interface{}

type (
	Agg    struct{ F []Value } // struct value or tuple
	SliceV struct{ Ref, Off, Len, Cap *Term }
	IfaceV struct {
		Tag, Data *Term
		Dyn       types.Type // dynamic type if known (nil: unknown)
		DynVal    Value
	}
	ArrV struct { // array value
		Content *Term
	}
	FuncV struct {
		Fn   *ssa.Function
		Free []Value
		Sym  *Term // unknown function
	}
	PtrV struct {
		Kind string // obj, field, elem
		T    types.Type
		Ref  *Term
		Key  string  // field: heap key prefix
		Base *SliceV // elem
		ET   types.Type
		Idx  *Term
		Path []int
	}
)

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// core type of a type parameter-free type
func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Named:
		o := x.Origin().Obj()
		if o.Pkg() != nil {
			return strings.TrimPrefix(o.Pkg().Path(), "github.com/indigo-web/indigo/") + "." + o.Name()
		}
		return o.Name()
	case *types.Pointer:
		return "*" + typeKey(x.Elem())
	case *types.Slice:
		return "[]" + typeKey(x.Elem())
	case *types.TypeParam:
		return "T$" + x.Obj().Name()
	case *types.Basic:
		if x.Kind() == types.Uint8 {
			return "byte"
		}
		return x.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

type leaf struct {
	path string
	sort Sort
	kind string // int, ref, len, cap, off, tag, data, bool, str, opaque, arr
	typ  types.Type
}

func isTypeParam(t types.Type) bool { _, ok := types.Unalias(t).(*types.TypeParam); return ok }

func leaves(t types.Type) []leaf {
	if isTypeParam(t) {
		return []leaf{{"", "U_" + sanitize(typeKey(t)), "opaque", t}}
	}
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, "bool", t}}
		case x.Info()&types.IsString != 0:
			return []leaf{{"", SString, "str", t}}
		case x.Info()&types.IsInteger != 0:
			return []leaf{{"", SInt, "int", t}}
		case x.Kind() == types.UnsafePointer:
			return []leaf{{"", SInt, "ref", t}}
		default:
			return []leaf{{"", "U_float", "opaque", t}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", SInt, "ref", t}}
	case *types.Slice:
		return []leaf{{".ref", SInt, "ref", t}, {".off", SInt, "off", t}, {".len", SInt, "len", t}, {".cap", SInt, "cap", t}}
	case *types.Interface:
		return []leaf{{".tag", SInt, "tag", t}, {".data", SInt, "data", t}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < x.NumFields(); i++ {
			for _, l := range leaves(x.Field(i).Type()) {
				out = append(out, leaf{"." + x.Field(i).Name() + l.path, l.sort, l.kind, l.typ})
			}
		}
		return out
	case *types.Array:
		return []leaf{{"", contentSort(x.Elem()), "arr", t}}
	case *types.Tuple:
		var out []leaf
		for i := 0; i < x.Len(); i++ {
			for _, l := range leaves(x.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf(".%d", i) + l.path, l.sort, l.kind, l.typ})
			}
		}
		return out
	}
	unsup("leaves of type %s", t)
	return nil
}

// elemSort is the sort of one element of a slice of t.
func elemSort(t types.Type) Sort {
	ls := leaves(t)
	if len(ls) == 1 {
		return ls[0].sort
	}
	return elemDT(t).name
}

func elemDT(t types.Type) *dataType {
	name := "E_" + sanitize(typeKey(t))
	if dt, ok := dataTypes[name]; ok {
		return dt
	}
	dt := &dataType{name: name}
	for i, l := range leaves(t) {
		dt.sels = append(dt.sels, fmt.Sprintf("%s_%d%s", name, i, sanitize(l.path)))
		dt.sorts = append(dt.sorts, l.sort)
	}
	dataTypes[name] = dt
	return dt
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func contentSort(elem types.Type) Sort {
	if isByte(elem) {
		return SString
	}
	return SeqOf(elemSort(elem))
}

func memKey(elem types.Type) string {
	if isByte(elem) {
		return "mem:byte"
	}
	return "mem:" + typeKey(elem)
}

func flatten(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.Ref, x.Off, x.Len, x.Cap}
	case *IfaceV:
		return []*Term{x.Tag, x.Data}
	case *Agg:
		var out []*Term
		for _, f := range x.F {
			out = append(out, flatten(f)...)
		}
		return out
	case *ArrV:
		return []*Term{x.Content}
	case *PtrV:
		return []*Term{ptrTerm(x)}
	case *FuncV:
		return []*Term{funcTerm(x)}
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func ptrTerm(p *PtrV) *Term {
	switch p.Kind {
	case "obj":
		return p.Ref
	case "field":
		return App("fptr:"+p.Key, SInt, p.Ref)
	case "elem":
		return App(fmt.Sprintf("eptr:%s%v", memKey(p.ET), p.Path), SInt, p.Base.Ref, Add(p.Base.Off, p.Idx))
	}
	panic("ptrTerm")
}

var funcIDs = map[string]int64{}
var funcByTerm = map[*Term]*FuncV{}

func funcTerm(f *FuncV) *Term {
	if f.Sym != nil {
		return f.Sym
	}
	id, ok := funcIDs[f.Fn.String()]
	if !ok {
		id = int64(len(funcIDs) + 1)
		funcIDs[f.Fn.String()] = id
	}
	if len(f.Free) == 0 {
		t := Int(-500000 - id)
		funcByTerm[t] = f
		return t
	}
	var args []*Term
	for _, v := range f.Free {
		args = append(args, flatten(v)...)
	}
	t := App("closure:"+f.Fn.String(), SInt, args...)
	funcByTerm[t] = f
	return t
}

func unflatten(t types.Type, ls []*Term) Value {
	v, rest := unflat(t, ls)
	if len(rest) != 0 {
		panic("unflatten leftover")
	}
	return v
}

func unflat(t types.Type, ls []*Term) (Value, []*Term) {
	if isTypeParam(t) {
		return ls[0], ls[1:]
	}
	switch x := under(t).(type) {
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2], ls[3]}, ls[4:]
	case *types.Interface:
		return mkIface(ls[0], ls[1]), ls[2:]
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < x.NumFields(); i++ {
			var v Value
			v, ls = unflat(x.Field(i).Type(), ls)
			a.F = append(a.F, v)
		}
		return a, ls
	case *types.Tuple:
		a := &Agg{}
		for i := 0; i < x.Len(); i++ {
			var v Value
			v, ls = unflat(x.At(i).Type(), ls)
			a.F = append(a.F, v)
		}
		return a, ls
	case *types.Array:
		return &ArrV{ls[0]}, ls[1:]
	case *types.Pointer:
		return &PtrV{Kind: "obj", T: x.Elem(), Ref: ls[0]}, ls[1:]
	case *types.Signature:
		if f, ok := funcByTerm[ls[0]]; ok {
			return f, ls[1:]
		}
		return &FuncV{Sym: ls[0]}, ls[1:]
	}
	return ls[0], ls[1:]
}

// element <-> term
func packElem(t types.Type, v Value) *Term {
	ls := flatten(v)
	if len(ls) == 1 {
		return ls[0]
	}
	return Mk(elemDT(t), ls...)
}
func unpackElem(t types.Type, e *Term) Value {
	ls := leaves(t)
	if len(ls) == 1 {
		return unflatten(t, []*Term{e})
	}
	dt := elemDT(t)
	var xs []*Term
	for i := range ls {
		xs = append(xs, Sel(dt, i, e))
	}
	return unflatten(t, xs)
}

func zeroLeaf(l leaf) *Term {
	switch l.kind {
	case "bool":
		return False
	case "str":
		return Str("")
	case "opaque":
		return Const("zero:"+l.sort, l.sort)
	case "arr":
		a := under(l.typ).(*types.Array)
		return zeroSeq(a.Elem(), Int(a.Len()))
	}
	return Int(0)
}

func zeroSeq(elem types.Type, n *Term) *Term {
	s := contentSort(elem)
	if n.IsInt() && s == SString && n.N.Cmp(big.NewInt(1<<20)) <= 0 {
		return Str(string(make([]byte, n.N.Int64())))
	}
	if n.IsInt() && n.N.Cmp(big.NewInt(600)) <= 0 {
		var us []*Term
		for i := int64(0); i < n.N.Int64(); i++ {
			us = append(us, Unit(s, packElem(elem, zeroValue(elem))))
		}
		return Cat(s, us...)
	}
	return intern("zeros", s, nil, "", n, packElem(elem, zeroValue(elem)))
}

func zeroValue(t types.Type) Value {
	var ls []*Term
	for _, l := range leaves(t) {
		ls = append(ls, zeroLeaf(l))
	}
	return unflatten(t, ls)
}

func freshValue(name string, t types.Type) Value {
	var ls []*Term
	for _, l := range leaves(t) {
		ls = append(ls, Fresh(name+l.path, l.sort))
	}
	return unflatten(t, ls)
}

// ---- integers

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, uns := intBits(b)
	one := big.NewInt(1)
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func intBits(b *types.Basic) (uint, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	default:
		return 64, true
	}
}

func inRange(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return True
	}
	return And(Ge(x, BigI(lo)), Le(x, BigI(hi)))
}

// wrap gives the Go value of mathematical x in integer type t.
func wrap(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if x.IsInt() {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(x.N, lo)
		r.Mod(r, m)
		return BigI(r.Add(r, lo))
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	return Ite(inRange(x, t), x, Add(ModE(Sub(x, BigI(lo)), BigI(m)), BigI(lo)))
}

// ---- interfaces

var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	id, ok := typeTags[k]
	if !ok {
		id = int64(len(typeTags) + 1)
		typeTags[k] = id
		tagTypes[id] = t
	}
	return Int(id)
}

func mkIface(tag, data *Term) *IfaceV {
	iv := &IfaceV{Tag: tag, Data: data}
	if tag.IsInt() && tag.N.Sign() > 0 {
		iv.Dyn = tagTypes[tag.N.Int64()]
	}
	if iv.Dyn != nil {
		iv.DynVal = unboxData(iv.Dyn, data)
	}
	return iv
}

func boxValue(t types.Type, v Value) *IfaceV {
	return &IfaceV{Tag: typeTag(t), Data: boxData(t, v), Dyn: t, DynVal: v}
}

func boxData(t types.Type, v Value) *Term {
	ls := flatten(v)
	if len(ls) == 1 && ls[0].Sort == SInt {
		return ls[0]
	}
	return App("box:"+typeKey(t), SInt, ls...)
}

func unboxData(t types.Type, d *Term) Value {
	ls := leaves(t)
	if len(ls) == 1 && ls[0].sort == SInt {
		return unflatten(t, []*Term{d})
	}
	if d.Op == "app" && d.S == "box:"+typeKey(t) {
		return unflatten(t, d.Args)
	}
	var xs []*Term
	for i, l := range ls {
		xs = append(xs, App(fmt.Sprintf("unbox:%s:%d", typeKey(t), i), l.sort, d))
	}
	return unflatten(t, xs)
}
