package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed; every constructor simplifies.

type Sort = string

const (
	SBool   Sort = "Bool"
	SInt    Sort = "Int"
	SString Sort = "String"
)

type Term struct {
	id   int
	Op   string // operator; "const" = declared symbol, "int","str","true","false" literals
	Args []*Term
	Sort Sort
	N    *big.Int // int literal
	S    string   // str literal bytes / symbol name / index
}

var (
	termTab = map[string]*Term{}
	termCnt int
)

func intern(op string, sort Sort, n *big.Int, s string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	b.WriteByte('|')
	if n != nil {
		b.WriteString(n.String())
	}
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{id: termCnt, Op: op, Args: append([]*Term(nil), args...), Sort: sort, N: n, S: s}
	termTab[k] = t
	return t
}

var (
	True  = intern("true", SBool, nil, "")
	False = intern("false", SBool, nil, "")
)

func Int(i int64) *Term     { return intern("int", SInt, big.NewInt(i), "") }
func BigI(b *big.Int) *Term { return intern("int", SInt, new(big.Int).Set(b), "") }
func Str(s string) *Term    { return intern("str", SString, nil, s) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Const(name string, s Sort) *Term { return intern("const", s, nil, name) }

var freshCnt = map[string]int{}

func Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	freshCnt[prefix]++
	return Const(fmt.Sprintf("%s!%d", prefix, freshCnt[prefix]), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// App is an uninterpreted function application.
func App(fn string, s Sort, args ...*Term) *Term { return intern("app", s, nil, fn, args...) }

func (t *Term) IsInt() bool { return t.Op == "int" }
func (t *Term) IsStr() bool { return t.Op == "str" }
func (t *Term) IsLit() bool {
	return t.Op == "int" || t.Op == "str" || t == True || t == False
}

// ---------- booleans

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	case a.Op == "ge0":
		// not (x >= 0)  <=>  -x-1 >= 0
		return ge0(Sub(Neg(a.Args[0]), Int(1)))
	}
	return intern("not", SBool, nil, "", a)
}

func nary(op string, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.Op == op {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return intern(op, SBool, nil, "", out...)
}

func And(xs ...*Term) *Term { return nary("and", True, False, xs) }
func Or(xs ...*Term) *Term  { return nary("or", False, True, xs) }
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return intern("=>", SBool, nil, "", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return intern("ite", a.Sort, nil, "", c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts differ: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Sort == SInt {
		l := toLin(a).sub(toLin(b))
		if len(l.m) == 0 {
			return Bool(l.c.Sign() == 0)
		}
		// case: ite with literal branches vs literal
		if x, y := a, b; true {
			if y.Op == "ite" && x.IsInt() {
				x, y = y, x
			}
			if x.Op == "ite" && y.IsInt() {
				if x.Args[1].IsInt() || x.Args[2].IsInt() {
					return Ite(x.Args[0], Eq(x.Args[1], y), Eq(x.Args[2], y))
				}
			}
		}
		// canonical sign
		ks := l.keys()
		if l.m[ks[0]].Sign() < 0 {
			l = l.scale(big.NewInt(-1))
		}
		// to_code(at(s,i)) = k etc. left to the solver
		p, n := newLin(), newLin()
		for _, k := range ks {
			if l.m[k].Sign() > 0 {
				p.m[k] = l.m[k]
			} else {
				n.m[k] = new(big.Int).Neg(l.m[k])
			}
		}
		n.c = new(big.Int).Neg(l.c)
		return intern("=", SBool, nil, "", p.term(), n.term())
	}
	if a.IsLit() && b.IsLit() {
		return False
	}
	if a.Op == "ite" && a.Args[1].IsLit() && b.IsLit() || a.Op == "ite" && a.Args[2].IsLit() && b.IsLit() {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && b.Args[1].IsLit() && a.IsLit() || b.Op == "ite" && b.Args[2].IsLit() && a.IsLit() {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.Op == "mk" && b.Op == "mk" && a.S == b.S {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if isSeq(a.Sort) {
		// cancel common prefixes/suffixes of concatenations
		xa, xb := parts(a), parts(b)
		for len(xa) > 0 && len(xb) > 0 && xa[0] == xb[0] {
			xa, xb = xa[1:], xb[1:]
		}
		for len(xa) > 0 && len(xb) > 0 && xa[len(xa)-1] == xb[len(xb)-1] {
			xa, xb = xa[:len(xa)-1], xb[:len(xb)-1]
		}
		// unit vs unit at the ends
		if len(xa) > 0 && len(xb) > 0 && xa[0].Op == "unit" && xb[0].Op == "unit" {
			return And(Eq(xa[0].Args[0], xb[0].Args[0]), Eq(Cat(a.Sort, xa[1:]...), Cat(a.Sort, xb[1:]...)))
		}
		if len(xa) == 0 && len(xb) == 0 {
			return True
		}
		na, nb := Cat(a.Sort, xa...), Cat(a.Sort, xb...)
		if na != a || nb != b {
			return Eq(na, nb)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("=", SBool, nil, "", a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------- linear integers

type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func newLin() *lin { return &lin{m: map[*Term]*big.Int{}, c: new(big.Int)} }

var linCache = map[*Term]*lin{}

func toLin(t *Term) *lin {
	if l, ok := linCache[t]; ok {
		return l
	}
	l := newLin()
	switch t.Op {
	case "int":
		l.c.Set(t.N)
	case "+":
		for _, a := range t.Args {
			l = l.add(toLin(a))
		}
	case "*c":
		l = toLin(t.Args[0]).scale(t.N)
	default:
		l.m[t] = big.NewInt(1)
	}
	linCache[t] = l
	return l
}

func (l *lin) clone() *lin {
	r := newLin()
	for k, v := range l.m {
		r.m[k] = v
	}
	r.c.Set(l.c)
	return r
}
func (l *lin) add(o *lin) *lin {
	r := l.clone()
	for k, v := range o.m {
		s := new(big.Int)
		if x, ok := r.m[k]; ok {
			s.Set(x)
		}
		s.Add(s, v)
		if s.Sign() == 0 {
			delete(r.m, k)
		} else {
			r.m[k] = s
		}
	}
	r.c.Add(r.c, o.c)
	return r
}
func (l *lin) scale(n *big.Int) *lin {
	r := newLin()
	if n.Sign() == 0 {
		return r
	}
	for k, v := range l.m {
		r.m[k] = new(big.Int).Mul(v, n)
	}
	r.c.Mul(l.c, n)
	return r
}
func (l *lin) sub(o *lin) *lin { return l.add(o.scale(big.NewInt(-1))) }
func (l *lin) keys() []*Term {
	ks := make([]*Term, 0, len(l.m))
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}
func (l *lin) term() *Term {
	var xs []*Term
	for _, k := range l.keys() {
		if l.m[k].Cmp(big.NewInt(1)) == 0 {
			xs = append(xs, k)
		} else {
			xs = append(xs, intern("*c", SInt, l.m[k], "", k))
		}
	}
	if l.c.Sign() != 0 || len(xs) == 0 {
		xs = append(xs, BigI(l.c))
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return intern("+", SInt, nil, "", xs...)
}

func Add(xs ...*Term) *Term {
	l := newLin()
	for _, x := range xs {
		l = l.add(toLin(x))
	}
	return l.term()
}
func Neg(a *Term) *Term    { return toLin(a).scale(big.NewInt(-1)).term() }
func Sub(a, b *Term) *Term { return toLin(a).sub(toLin(b)).term() }
func Mul(a, b *Term) *Term {
	if a.IsInt() {
		return toLin(b).scale(a.N).term()
	}
	if b.IsInt() {
		return toLin(a).scale(b.N).term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("*", SInt, nil, "", a, b)
}

// Euclidean div/mod (SMT semantics).
func DivE(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() && b.N.Sign() != 0 {
		return BigI(new(big.Int).Div(a.N, b.N))
	}
	if b.IsInt() && b.N.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return intern("div", SInt, nil, "", a, b)
}
func ModE(a, b *Term) *Term {
	if b.IsInt() && b.N.Cmp(big.NewInt(1)) == 0 {
		return Int(0)
	}
	if a.IsInt() && b.IsInt() && b.N.Sign() != 0 {
		return BigI(new(big.Int).Mod(a.N, b.N))
	}
	return intern("mod", SInt, nil, "", a, b)
}

func ge0(l *Term) *Term {
	if l.IsInt() {
		return Bool(l.N.Sign() >= 0)
	}
	ln := toLin(l)
	// ite with literal branches, single occurrence
	if len(ln.m) == 1 {
		for k, v := range ln.m {
			if k.Op == "ite" && (k.Args[1].IsInt() && k.Args[2].IsInt()) {
				f := func(x *Term) *Term { return ge0(Add(BigI(new(big.Int).Mul(v, x.N)), BigI(ln.c))) }
				return Ite(k.Args[0], f(k.Args[1]), f(k.Args[2]))
			}
			if v.Sign() > 0 && ln.c.Sign() >= 0 && nonneg(k) {
				return True
			}
			if v.Sign() < 0 && ln.c.Sign() < 0 && nonneg(k) {
				return False
			}
		}
	}
	if linNonneg(ln) {
		return True
	}
	return intern("ge0", SBool, nil, "", l)
}

func linNonneg(l *lin) bool {
	if l.c.Sign() < 0 {
		return false
	}
	for k, v := range l.m {
		if v.Sign() < 0 || !nonneg(k) {
			return false
		}
	}
	return true
}

// nonneg: syntactically non-negative in every interpretation
func nonneg(t *Term) bool {
	switch t.Op {
	case "int":
		return t.N.Sign() >= 0
	case "len":
		return true
	case "mod":
		return true
	case "ite":
		return nonneg(t.Args[1]) && nonneg(t.Args[2]) || (t.Args[0].Op == "ge0" && t.Args[0].Args[0] == t.Args[1] && nonneg(t.Args[2]))
	case "+", "*c":
		return linNonneg(toLin(t))
	}
	return false
}

func Ge(a, b *Term) *Term { return ge0(Sub(a, b)) }
func Le(a, b *Term) *Term { return Ge(b, a) }
func Gt(a, b *Term) *Term { return ge0(Sub(Sub(a, b), Int(1))) }
func Lt(a, b *Term) *Term { return Gt(b, a) }
func Max0(a *Term) *Term  { return Ite(ge0(a), a, Int(0)) }
func Min(a, b *Term) *Term {
	return Ite(Le(a, b), a, b)
}

// ---------- sequences: String (bytes) and (Seq E)

func isSeq(s Sort) bool { return s == SString || strings.HasPrefix(s, "(Seq ") }
func SeqOf(e Sort) Sort { return "(Seq " + e + ")" }
func seqElem(s Sort) Sort {
	if s == SString {
		return SInt
	}
	return strings.TrimSuffix(strings.TrimPrefix(s, "(Seq "), ")")
}

func Empty(s Sort) *Term {
	if s == SString {
		return Str("")
	}
	return intern("empty", s, nil, "")
}

func parts(t *Term) []*Term {
	if t.Op == "cat" {
		return t.Args
	}
	if t == Empty(t.Sort) {
		return nil
	}
	return []*Term{t}
}

func Cat(s Sort, xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.Sort != s {
			panic("Cat sort mismatch: " + x.String() + " : " + x.Sort + " vs " + s)
		}
		for _, p := range parts(x) {
			if n := len(out); n > 0 && p.IsStr() && out[n-1].IsStr() {
				out[n-1] = Str(out[n-1].S + p.S)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return Empty(s)
	case 1:
		return out[0]
	}
	return intern("cat", s, nil, "", out...)
}

// Unit is the one-element sequence of e (for String: e is a byte code).
func Unit(s Sort, e *Term) *Term {
	if s == SString {
		if e.IsInt() && e.N.IsInt64() && e.N.Int64() >= 0 && e.N.Int64() < 256 {
			return Str(string([]byte{byte(e.N.Int64())}))
		}
		// from_code(to_code(at s i)) = at s i
		return intern("unit", s, nil, "", e)
	}
	return intern("unit", s, nil, "", e)
}

func Len(t *Term) *Term {
	switch t.Op {
	case "str":
		return Int(int64(len(t.S)))
	case "empty":
		return Int(0)
	case "unit":
		return Int(1)
	case "cat":
		var xs []*Term
		for _, a := range t.Args {
			xs = append(xs, Len(a))
		}
		return Add(xs...)
	case "ite":
		return Ite(t.Args[0], Len(t.Args[1]), Len(t.Args[2]))
	case "win":
		return t.Args[3]
	case "zeros":
		return Max0(t.Args[0])
	}
	return intern("len", SInt, nil, "", t)
}

// Extract: SMT substr/extract semantics: out of range -> empty, clipped.
func Extract(t, o, n *Term) *Term {
	if o.IsInt() && o.N.Sign() == 0 && n == Len(t) {
		return t
	}
	if n.IsInt() && n.N.Sign() <= 0 {
		return Empty(t.Sort)
	}
	if t.IsStr() && o.IsInt() && n.IsInt() {
		a, k := o.N.Int64(), n.N.Int64()
		if a < 0 || a >= int64(len(t.S)) {
			return Str("")
		}
		e := a + k
		if e > int64(len(t.S)) {
			e = int64(len(t.S))
		}
		return Str(t.S[a:e])
	}
	if t == Empty(t.Sort) {
		return t
	}
	if t.Op == "cat" && o.IsInt() && n.IsInt() && o.N.Sign() >= 0 && o.N.IsInt64() && n.N.IsInt64() {
		// literal bounds over a prefix of literal-length parts
		a, e := o.N.Int64(), o.N.Int64()+n.N.Int64()
		acc := int64(0)
		var out []*Term
		ok := true
		for _, p := range t.Args {
			if acc >= e {
				break
			}
			l := Len(p)
			if !l.IsInt() {
				ok = false
				break
			}
			k := l.N.Int64()
			x, y := a-acc, e-acc
			if x < 0 {
				x = 0
			}
			if y > k {
				y = k
			}
			if x < y {
				if x == 0 && y == k {
					out = append(out, p)
				} else {
					out = append(out, Extract(p, Int(x), Int(y-x)))
				}
			}
			acc += k
		}
		if ok {
			return Cat(t.Sort, out...)
		}
	}
	// prefix of concatenation: extract(a++b, 0, len a)
	if t.Op == "cat" {
		acc := Int(0)
		for i, p := range t.Args {
			if acc == o {
				// suffix or aligned block
				m := Int(0)
				for j := i; j < len(t.Args); j++ {
					m = Add(m, Len(t.Args[j]))
					if m == n {
						return Cat(t.Sort, t.Args[i:j+1]...)
					}
				}
			}
			acc = Add(acc, Len(p))
		}
	}
	return intern("extract", t.Sort, nil, "", t, o, n)
}

// Nth element; for String a byte code.
func Nth(t, i *Term) *Term {
	if t.IsStr() && i.IsInt() && i.N.Sign() >= 0 && i.N.Cmp(big.NewInt(int64(len(t.S)))) < 0 {
		return Int(int64(t.S[i.N.Int64()]))
	}
	if t.Op == "unit" && i.IsInt() && i.N.Sign() == 0 {
		return t.Args[0]
	}
	if t.Op == "cat" {
		acc := Int(0)
		for _, p := range t.Args {
			d := Sub(i, acc)
			if p.Op == "unit" && d.IsInt() && d.N.Sign() == 0 {
				return p.Args[0]
			}
			if d.IsInt() && d.N.Sign() >= 0 && p.IsStr() && d.N.Cmp(big.NewInt(int64(len(p.S)))) < 0 {
				return Nth(p, d)
			}
			if !p.IsStr() && p.Op != "unit" && !Len(p).IsInt() && d.IsInt() {
				break
			}
			acc = Add(acc, Len(p))
		}
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Nth(t.Args[1], i), Nth(t.Args[2], i))
	}
	// Elements of typed slices: an index out of range has no specified value, so the position in
	// the underlying memory may be taken.
	if t.Sort != SString {
		switch t.Op {
		case "extract":
			return Nth(t.Args[0], Add(t.Args[1], i))
		case "zeros":
			return t.Args[1]
		case "win":
			if !(t.Args[3].IsInt() && t.Args[3].N.IsInt64() && t.Args[3].N.Int64() == 1 && i.IsInt() && i.N.Sign() == 0) {
				return Nth(intern("win", t.Sort, nil, t.S, t.Args[0], t.Args[1], Add(t.Args[2], i), Int(1)), Int(0))
			}
		}
	}
	return intern("nth", seqElem(t.Sort), nil, "", t, i)
}

// nthCtx: Nth where the part of a concatenation is chosen with the facts of ge
func nthCtx(t, i *Term, ge func(*Term) bool) *Term {
	if t.Sort != SString && t.Op == "cat" {
		acc := Int(0)
		for k, p := range t.Args {
			d := Sub(i, acc)
			if k == len(t.Args)-1 || ge(Sub(Sub(Len(p), d), Int(1))) {
				if ge(d) {
					return nthCtx(p, d, ge)
				}
				break
			}
			if !ge(Sub(d, Len(p))) {
				break
			}
			acc = Add(acc, Len(p))
		}
	}
	return Nth(t, i)
}

func SuffixFrom(t, o *Term) *Term { return Extract(t, o, Sub(Len(t), o)) }

// string predicates
func IndexOf(s, p, from *Term) *Term {
	if s.IsStr() && p.IsStr() && from.IsInt() && from.N.Sign() >= 0 && from.N.Int64() <= int64(len(s.S)) {
		f := int(from.N.Int64())
		k := strings.Index(s.S[f:], p.S)
		if k < 0 {
			return Int(-1)
		}
		return Int(int64(k + f))
	}
	return intern("indexof", SInt, nil, "", s, p, from)
}
func PrefixOf(p, s *Term) *Term {
	if p.IsStr() && s.IsStr() {
		return Bool(strings.HasPrefix(s.S, p.S))
	}
	if p == Empty(p.Sort) {
		return True
	}
	return intern("prefixof", SBool, nil, "", p, s)
}
func SuffixOf(p, s *Term) *Term {
	if p.IsStr() && s.IsStr() {
		return Bool(strings.HasSuffix(s.S, p.S))
	}
	if p == Empty(p.Sort) {
		return True
	}
	return intern("suffixof", SBool, nil, "", p, s)
}
func Contains(s, p *Term) *Term {
	if p.IsStr() && s.IsStr() {
		return Bool(strings.Contains(s.S, p.S))
	}
	return intern("contains", SBool, nil, "", s, p)
}

// InRe: raw regex text
func InRe(s *Term, re string) *Term { return intern("in_re", SBool, nil, re, s) }

// ---------- arrays (only map contents are SMT arrays)

func ArrSort(k, e Sort) Sort { return "(Array " + k + " " + e + ")" }
func arrElem(s Sort) Sort {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	return s[strings.IndexByte(s, ' ')+1:]
}
func Select(a, i *Term) *Term {
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "store" {
		switch Eq(a.Args[1], i) {
		case True:
			return a.Args[2]
		case False:
			return Select(a.Args[0], i)
		}
	}
	return intern("select", arrElem(a.Sort), nil, "", a, i)
}
func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return intern("store", a.Sort, nil, "", a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return intern("constarr", s, nil, "", v) }

// ---------- datatypes

type dataType struct {
	name  string
	sels  []string
	sorts []Sort
}

var dataTypes = map[string]*dataType{}

func Mk(dt *dataType, args ...*Term) *Term {
	// eta: mk(sel0(x), sel1(x), ...) = x
	if len(args) > 0 && args[0].Op == "sel" && args[0].S == dt.sels[0] {
		x := args[0].Args[0]
		ok := x.Sort == dt.name
		for i, a := range args {
			if a.Op != "sel" || a.S != dt.sels[i] || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return intern("mk", dt.name, nil, dt.name, args...)
}
func Sel(dt *dataType, i int, x *Term) *Term {
	if x.Op == "mk" {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], Sel(dt, i, x.Args[1]), Sel(dt, i, x.Args[2]))
	}
	return intern("sel", dt.sorts[i], nil, dt.sels[i], x)
}

// ---------- traversal, substitution

func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.Args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args...)
	case "*c":
		return Mul(BigI(t.N), args[0])
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return DivE(args[0], args[1])
	case "mod":
		return ModE(args[0], args[1])
	case "ge0":
		return ge0(args[0])
	case "cat":
		return Cat(t.Sort, args...)
	case "unit":
		return Unit(t.Sort, args[0])
	case "len":
		return Len(args[0])
	case "extract":
		return Extract(args[0], args[1], args[2])
	case "nth":
		return Nth(args[0], args[1])
	case "indexof":
		return IndexOf(args[0], args[1], args[2])
	case "prefixof":
		return PrefixOf(args[0], args[1])
	case "suffixof":
		return SuffixOf(args[0], args[1])
	case "contains":
		return Contains(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "mk":
		return Mk(dataTypes[t.S], args...)
	case "sel":
		dt := dataTypes[t.Args[0].Sort]
		for i, s := range dt.sels {
			if s == t.S {
				return Sel(dt, i, args[0])
			}
		}
	}
	return intern(t.Op, t.Sort, t.N, t.S, args...)
}

// Subst maps terms bottom-up.
func Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = Subst(a, m, memo)
	}
	r := rebuild(t, args)
	memo[t] = r
	return r
}

func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		walk(a, seen, f)
	}
	f(t)
}

// consts occurring in t
func hasConst(t *Term, pred func(*Term) bool) bool {
	found := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == "const" && pred(x) {
			found = true
		}
	})
	return found
}

func (t *Term) String() string { return smt(t) }

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 32 && c < 127 && c != '"' && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

// smtOp renders t given rendered args.
func smtOp(t *Term, a []string) string {
	j := func(op string) string { return "(" + op + " " + strings.Join(a, " ") + ")" }
	str := len(t.Args) > 0 && t.Args[0].Sort == SString
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		return smtInt(t.N)
	case "str":
		return smtStr(t.S)
	case "const":
		return "|" + t.S + "|"
	case "not", "and", "or", "=>", "ite", "=", "+", "*", "div", "mod", "select", "store":
		return j(t.Op)
	case "*c":
		return "(* " + smtInt(t.N) + " " + a[0] + ")"
	case "ge0":
		// split into positive/negative sides for readability
		l := toLin(t.Args[0])
		_ = l
		return "(>= " + a[0] + " 0)"
	case "cat":
		if t.Sort == SString {
			return j("str.++")
		}
		return j("seq.++")
	case "unit":
		if t.Sort == SString {
			return j("str.from_code")
		}
		return j("seq.unit")
	case "empty":
		return "(as seq.empty " + t.Sort + ")"
	case "len":
		if str {
			return j("str.len")
		}
		return j("seq.len")
	case "extract":
		if str {
			return j("str.substr")
		}
		return j("seq.extract")
	case "nth":
		if str {
			return "(str.to_code (str.at " + a[0] + " " + a[1] + "))"
		}
		return j("seq.nth")
	case "indexof":
		if str {
			return j("str.indexof")
		}
		return j("seq.indexof")
	case "prefixof":
		if str {
			return j("str.prefixof")
		}
		return j("seq.prefixof")
	case "suffixof":
		if str {
			return j("str.suffixof")
		}
		return j("seq.suffixof")
	case "contains":
		if str {
			return j("str.contains")
		}
		return j("seq.contains")
	case "in_re":
		return "(str.in_re " + a[0] + " " + t.S + ")"
	case "constarr":
		return "((as const " + t.Sort + ") " + a[0] + ")"
	case "mk":
		if len(a) == 0 {
			return "mk_" + t.S
		}
		return j("mk_" + t.S)
	case "sel", "app":
		if len(a) == 0 {
			return "|" + t.S + "|"
		}
		return j("|" + t.S + "|")
	case "win":
		return j("|" + winName(t) + "|")
	case "zeros":
		return j("|zeros|")
	case "forall":
		return "(forall (" + t.S + ") " + a[0] + ")"
	}
	panic("smtOp: " + t.Op)
}

func winName(t *Term) string { return "win:" + t.S }

func smt(t *Term) string {
	a := make([]string, len(t.Args))
	for i, x := range t.Args {
		a[i] = smt(x)
	}
	return smtOp(t, a)
}
