package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- contract files

type Expr struct {
	Op   string // id num str call field index slice unary binary if let forall
	Name string
	Num  *big.Int
	Args []*Expr
	Src  string
}

type Clause struct {
	Label string
	E     *Expr
	Src   string
	Metas []Meta
	Props []string
}

type Meta struct{ Name, Kind string }

type Contract struct {
	Name       string // pkgpath.Func or pkgpath.Type.Method
	Params     []string
	Results    []string
	Props      []string
	Extern     bool
	Aux        bool
	Pure       bool
	Trusted    bool // body not verified (bounded stand-in / outside reach)
	Requires   []*Clause
	Ensures    []*Clause
	Modifies   []*Expr
	ModAll     bool
	Invs       []*Clause
	Lets       []*Clause
	Posts      []*Clause
	Nilable    map[string]bool
	Cases      []*Clause
	Hints      []*Expr
	Insts      []*Expr
	Unroll     int
	Timeout    float64
	File       string
	Event      bool
	EventCh    string
	Guide      []string        // guided proof search for what the solvers do not decide at once
	Views      bool
	Opaque     map[string]bool // not unfolded in the reduced queries
	NoAuto     bool
	Forks      int
	FlatAppend bool
	EventPost  bool
	NoSafety   bool
	Inline     map[string]bool
	Split      bool
	MaxPath    int
}

type SpecFn struct {
	Name   string
	Params []Meta
	Ret    string
	Body   *Expr
	Rec    bool
}

type Lemma struct {
	Name     string
	Params   []Meta
	Requires []*Expr
	Ensures  []*Expr
	Uses     []*Expr // instances of lemmas (itself included: induction hypothesis)
	Measure  *Expr
	Props    []string
	Assumed  bool
}

type Specs struct {
	Cons   []*Contract
	ByName map[string]*Contract
	Fns    map[string]*SpecFn
	Lemmas map[string]*Lemma
	LemOrd []*Lemma
}

func parseMetas(s string) []Meta {
	var out []Meta
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		a := strings.SplitN(p, ":", 2)
		m := Meta{Name: strings.TrimSpace(a[0])}
		if len(a) == 2 {
			m.Kind = strings.TrimSpace(a[1])
		}
		out = append(out, m)
	}
	return out
}

func names(s string) []string {
	var out []string
	for _, m := range parseMetas(s) {
		out = append(out, m.Name)
	}
	return out
}

var growRe = regexp.MustCompile(`grow\(([^()]*)\)`)

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{ByName: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Lemmas: map[string]*Lemma{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parse(string(b), filepath.Base(f)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return sp, nil
}

func (sp *Specs) parse(src, file string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	// join continuation lines: a line ending with '\' or starting with '|'
	var lines []string
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "#"); i >= 0 && !strings.Contains(l[:i], "\"") && !strings.Contains(l[:i], "'") {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "|") && !strings.HasPrefix(t, "||") && len(lines) > 0 {
			lines[len(lines)-1] += " " + t[1:]
			continue
		}
		lines = append(lines, l)
	}
	var cur *Contract
	var lem *Lemma
	var props []string
	for _, l := range lines {
		t := strings.TrimSpace(l)
		word, rest := t, ""
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			word, rest = t[:i], strings.TrimSpace(t[i:])
		}
		switch word {
		case "prop":
			props = nil
			for _, p := range strings.Split(rest, ",") {
				props = append(props, strings.TrimSpace(p))
			}
			cur, lem = nil, nil
		case "fn", "extern", "view":
			c := &Contract{Props: props, Extern: word != "fn", Nilable: map[string]bool{}, File: file, Inline: map[string]bool{}}
			i := strings.Index(rest, "(")
			// methods are written pkg.Type.Method
			c.Name = strings.TrimSpace(rest[:i])
			if word == "view" { // a coarser contract, used in place of the function's own one where a contract says "views"
				c.Name = "view:" + c.Name
			}
			j := strings.Index(rest, ")")
			c.Params = names(rest[i+1 : j])
			if k := strings.Index(rest[j+1:], "("); k >= 0 {
				r := rest[j+1:][k+1:]
				c.Results = names(r[:strings.Index(r, ")")])
			}
			if c.Extern {
				c.Props = nil
			}
			sp.Cons = append(sp.Cons, c)
			sp.ByName[c.Name] = c
			cur, lem = c, nil
		case "sort":
			i := strings.Index(rest, "=")
			sortAlias[strings.TrimSpace(rest[:i])] = strings.TrimSpace(rest[i+1:])
		case "rec", "def", "ufn":
			// name(params): Sort = body
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			f := &SpecFn{Name: strings.TrimSpace(rest[:i]), Params: parseMetas(rest[i+1 : j]), Rec: word == "rec"}
			tail := rest[j+1:]
			if word == "ufn" {
				f.Ret = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(tail), ":"))
				sp.Fns[f.Name] = f
				continue
			}
			e := strings.Index(tail, "=")
			f.Ret = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(tail[:e]), ":"))
			f.Body = parseExpr(tail[e+1:])
			sp.Fns[f.Name] = f
		case "lemma":
			i := strings.Index(rest, "(")
			j := strings.LastIndex(rest, ")")
			lem = &Lemma{Name: strings.TrimSpace(rest[:i]), Params: parseMetas(rest[i+1 : j]), Props: props}
			sp.Lemmas[lem.Name] = lem
			sp.LemOrd = append(sp.LemOrd, lem)
			cur = nil
		default:
			if lem != nil {
				switch word {
				case "requires":
					lem.Requires = append(lem.Requires, parseExpr(rest))
				case "ensures":
					lem.Ensures = append(lem.Ensures, parseExpr(rest))
				case "use":
					lem.Uses = append(lem.Uses, parseExpr(rest))
				case "measure":
					lem.Measure = parseExpr(rest)
				case "assumed":
					lem.Assumed = true
				default:
					panic("lemma clause? " + t)
				}
				continue
			}
			if cur == nil {
				panic("stray line: " + t)
			}
			switch word {
			case "aux":
				cur.Aux = true
			case "trusted":
				cur.Trusted = true
			case "event":
				cur.Event = true
				if f := strings.Fields(rest); len(f) == 2 && f[1] == "post" { // byte-slice arguments are recorded as the call left them
					cur.EventPost = true
					rest = f[0]
				}
				cur.EventCh = rest
			case "opaque":
				if cur.Opaque == nil {
					cur.Opaque = map[string]bool{}
				}
				for _, f := range strings.Fields(rest) {
					cur.Opaque[f] = true
				}
			case "guide":
				cur.Guide = strings.Fields(rest)
			case "noauto":
				cur.NoAuto = true
			case "nosafety":
				cur.NoSafety = true
			case "split":
				cur.Split = true
			case "views":
				cur.Views = true
			case "flatappend":
				cur.FlatAppend = true
			case "forks":
				cur.Forks, _ = strconv.Atoi(rest)
			case "maxpath":
				cur.MaxPath, _ = strconv.Atoi(rest)
			case "inline":
				cur.Inline[rest] = true
			case "requires", "ensures", "case":
				c := &Clause{Src: rest, Props: cur.Props}
				r := rest
				if i := strings.Index(r, ":"); i > 0 && isIdent(r[:i]) && !strings.HasPrefix(r[i:], "::") {
					c.Label = r[:i]
					r = r[i+1:]
				}
				if c.Label == "" {
					c.Label = fmt.Sprintf("%s%d", word, len(cur.Ensures)+len(cur.Requires)+1)
				}
				c.E = parseExpr(r)
				switch word {
				case "requires":
					cur.Requires = append(cur.Requires, c)
				case "ensures":
					for i := len(cur.Posts) - 1; i >= 0; i-- {
						c.E = &Expr{Op: "let", Name: cur.Posts[i].Label, Args: []*Expr{cur.Posts[i].E, c.E}}
					}
					cur.Ensures = append(cur.Ensures, c)
				default:
					cur.Cases = append(cur.Cases, c)
				}
			case "post": // a let evaluated in the final state
				i := strings.Index(rest, "=")
				cur.Posts = append(cur.Posts, &Clause{Label: strings.TrimSpace(rest[:i]), E: parseExpr(rest[i+1:])})
			case "let":
				i := strings.Index(rest, "=")
				cur.Lets = append(cur.Lets, &Clause{Label: strings.TrimSpace(rest[:i]), E: parseExpr(rest[i+1:])})
			case "inv":
				c := &Clause{Src: rest}
				if strings.HasPrefix(rest, "[") {
					j := strings.Index(rest, "]")
					c.Metas = parseMetas(rest[1:j])
					rest = rest[j+1:]
				}
				c.E = parseExpr(rest)
				cur.Invs = append(cur.Invs, c)
			case "modifies":
				if rest == "*" {
					cur.ModAll = true
					continue
				}
				// grow(x): the slice x and its elements change; its storage is the old one or new
				for _, m := range growRe.FindAllStringSubmatch(rest, -1) {
					x := m[1]
					cur.Ensures = append(cur.Ensures, &Clause{Label: "storage-of-" + x, Src: "grow(" + x + ")", E: parseExpr(fmt.Sprintf("(ref(%[1]s) == old(ref(%[1]s)) && off(%[1]s) == old(off(%[1]s)) && cap(%[1]s) == old(cap(%[1]s))) || fresh(%[1]s)", x))})
				}
				cur.Modifies = append(cur.Modifies, parseExprList(rest)...)
			case "hint":
				cur.Hints = append(cur.Hints, parseExpr(rest))
			case "inst":
				cur.Insts = append(cur.Insts, parseExpr(rest))
			case "nilable":
				for _, n := range names(rest) {
					cur.Nilable[n] = true
				}
			case "unroll":
				cur.Unroll, _ = strconv.Atoi(rest)
			case "timeout":
				cur.Timeout, _ = strconv.ParseFloat(rest, 64)
			default:
				panic("clause? " + t)
			}
		}
	}
	return nil
}

func isIdent(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-') {
			return false
		}
	}
	return s != ""
}

// ---------------------------------------------------------------- expression parser

type tok struct{ k, s string }
type parser struct {
	t []tok
	i int
}

func lex(s string) []tok {
	var out []tok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic("bad string " + s[i:j+1])
			}
			out = append(out, tok{"str", u})
			i = j + 1
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				panic("bad char " + s[i:j+1])
			}
			out = append(out, tok{"num", fmt.Sprint(int(r))})
			i = j + 1
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			done := false
			for _, op := range []string{"<==>", "==>", "++", "==", "!=", "<=", ">=", "&&", "||", "::"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					done = true
					break
				}
			}
			if !done {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""})
}

func parseExpr(s string) *Expr {
	p := &parser{t: lex(s)}
	e := p.expr(0)
	if p.t[p.i].k != "eof" {
		panic("trailing input in " + s + " at " + p.t[p.i].s)
	}
	e.Src = strings.TrimSpace(s)
	return e
}
func parseExprList(s string) []*Expr {
	p := &parser{t: lex(s)}
	var out []*Expr
	for {
		out = append(out, p.expr(0))
		if p.t[p.i].s == "," {
			p.i++
			continue
		}
		break
	}
	if p.t[p.i].k != "eof" {
		panic("trailing input in " + s)
	}
	return out
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) expect(s string) {
	if t := p.next(); t.s != s {
		panic(fmt.Sprintf("expected %q got %q", s, t.s))
	}
}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		n := pr + 1
		if t.s == "==>" {
			n = pr
		}
		r := p.expr(n)
		l = &Expr{Op: "binary", Name: t.s, Args: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &Expr{Op: "unary", Name: t.s, Args: []*Expr{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		t := p.peek()
		if t.k != "op" {
			return e
		}
		switch t.s {
		case ".":
			p.next()
			e = &Expr{Op: "field", Name: p.next().s, Args: []*Expr{e}}
		case "(":
			p.next()
			c := &Expr{Op: "call", Name: e.Name}
			if e.Op != "id" {
				panic("call of non-identifier")
			}
			for p.peek().s != ")" || p.peek().k != "op" {
				c.Args = append(c.Args, p.expr(0))
				if p.peek().s == "," {
					p.next()
				}
			}
			p.next()
			e = c
		case "[":
			p.next()
			var lo, hi *Expr
			if p.peek().s != ":" {
				lo = p.expr(0)
			}
			if p.peek().s == ":" {
				p.next()
				if p.peek().s != "]" {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}}
			} else {
				p.expect("]")
				e = &Expr{Op: "index", Args: []*Expr{e, lo}}
			}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			panic("number " + t.s)
		}
		return &Expr{Op: "num", Num: n}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "id":
		switch t.s {
		case "if":
			c := p.expr(0)
			p.expect("then")
			a := p.expr(0)
			p.expect("else")
			b := p.expr(0)
			return &Expr{Op: "if", Args: []*Expr{c, a, b}}
		case "let":
			n := p.next().s
			p.expect("=")
			v := p.expr(0)
			p.expect("in")
			b := p.expr(0)
			return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}}
		case "forall":
			n := p.next().s
			p.expect(":")
			s := p.next().s
			if p.peek().s == "(" { // sort of a Go type's value: T("...")
				panic("forall sort")
			}
			p.expect("::")
			b := p.expr(0)
			return &Expr{Op: "forall", Name: n + ":" + s, Args: []*Expr{b}}
		}
		return &Expr{Op: "id", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic("unexpected " + t.s)
}

// ---------------------------------------------------------------- evaluation

type SpecVal struct {
	V Value
	T types.Type // Go type, nil for spec-level values
}

type SpecEnv struct {
	ex   *Exec
	st   *State
	old  *State
	vars map[string]SpecVal
	pol  bool // true: goal position (forall -> skolem)

	ent     *State // loop invariants: the state and the carried values on entry to the loop
	entVars map[string]SpecVal
}

func (e *SpecEnv) with(st *State) *SpecEnv {
	c := *e
	c.st = st
	return &c
}

func (e *SpecEnv) bool(x *Expr) *Term { return e.term(x) }

func (e *SpecEnv) term(x *Expr) *Term {
	v := e.eval(x)
	return asTerm(v)
}

func asTerm(v SpecVal) *Term {
	switch y := v.V.(type) {
	case *Term:
		return y
	case *PtrV:
		return ptrTerm(y)
	case *FuncV:
		return funcTerm(y)
	}
	panic(fmt.Sprintf("spec: scalar expected, got %T", v.V))
}

func tv(t *Term) SpecVal { return SpecVal{V: t} }

func specSort(s string) Sort {
	switch s {
	case "string", "String":
		return SString
	case "int", "Int":
		return SInt
	case "bool", "Bool":
		return SBool
	}
	if g, ok := sortAlias[s]; ok {
		if strings.HasPrefix(g, "tr:") {
			return SeqOf(theProg.eventOf(g[3:]).name)
		}
		return contentSort(theProg.typeByName(g))
	}
	return s
}

// sort NAME = GoType: sequences of that type
var sortAlias = map[string]string{}
var theProg *Prog

func (e *SpecEnv) eval(x *Expr) SpecVal {
	switch x.Op {
	case "num":
		return tv(BigI(x.Num))
	case "str":
		return tv(Str(x.Name))
	case "id":
		switch x.Name {
		case "true":
			return tv(True)
		case "false":
			return tv(False)
		case "nil":
			return SpecVal{V: nil}
		}
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		if f, ok := e.ex.pr.specs.Fns[x.Name]; ok && len(f.Params) == 0 {
			return e.callFn(f, nil)
		}
		panic("spec: unknown name " + x.Name)
	case "if":
		c := e.term(x.Args[0])
		if c == True {
			return e.eval(x.Args[1])
		}
		if c == False {
			return e.eval(x.Args[2])
		}
		a, b := e.under(c).eval(x.Args[1]), e.under(Not(c)).eval(x.Args[2])
		if a.V == nil && b.V == nil {
			panic("nil in if")
		}
		zeroLike := func(v SpecVal) SpecVal {
			fl := flatten(v.V)
			z := make([]*Term, len(fl))
			for i := range z {
				z[i] = Int(0)
			}
			return SpecVal{unflatten(v.T, z), v.T}
		}
		if a.V == nil {
			a = zeroLike(b)
		}
		if b.V == nil {
			b = zeroLike(a)
		}
		fa, fb := flatten(a.V), flatten(b.V)
		if len(fa) == 1 {
			return SpecVal{Ite(c, fa[0], fb[0]), a.T}
		}
		for i := range fa {
			fa[i] = Ite(c, fa[i], fb[i])
		}
		return SpecVal{unflatten(a.T, fa), a.T}
	case "let":
		v := e.eval(x.Args[0])
		c := *e
		c.vars = map[string]SpecVal{}
		for k, y := range e.vars {
			c.vars[k] = y
		}
		c.vars[x.Name] = v
		return c.eval(x.Args[1])
	case "forall":
		p := strings.SplitN(x.Name, ":", 2)
		c := *e
		c.vars = map[string]SpecVal{}
		for k, y := range e.vars {
			c.vars[k] = y
		}
		s := specSort(p[1])
		if e.pol {
			c.vars[p[0]] = tv(Fresh("all_"+p[0], s))
			return c.eval(x.Args[0])
		}
		n := Fresh("q_"+p[0], s)
		c.vars[p[0]] = tv(n)
		b := c.eval(x.Args[0]).V.(*Term)
		return tv(intern("forall", SBool, nil, fmt.Sprintf("(|%s| %s)", n.S, s), b, n))
	case "unary":
		c := *e
		if x.Name == "!" {
			c.pol = !e.pol
			return tv(Not(c.term(x.Args[0])))
		}
		return tv(Neg(e.term(x.Args[0])))
	case "binary":
		return e.binary(x)
	case "field":
		return e.field(e.eval(x.Args[0]), x.Name)
	case "index":
		b := e.eval(x.Args[0])
		i := e.term(x.Args[1])
		switch y := b.V.(type) {
		case *Term:
			if isSeq(y.Sort) {
				return tv(Nth(y, i))
			}
			return tv(Select(y, i))
		case *SliceV:
			et := under(b.T).(*types.Slice).Elem()
			return SpecVal{unpackElem(et, Nth(e.st.content(et, y), i)), et}
		case *ArrV:
			et := under(b.T).(*types.Array).Elem()
			return SpecVal{unpackElem(et, Nth(y.Content, i)), et}
		}
		panic("spec: index")
	case "slice":
		b := e.eval(x.Args[0])
		lo := Int(0)
		if x.Args[1] != nil {
			lo = e.term(x.Args[1])
		}
		switch y := b.V.(type) {
		case *Term:
			hi := Len(y)
			if x.Args[2] != nil {
				hi = e.term(x.Args[2])
			}
			return SpecVal{Extract(y, lo, Sub(hi, lo)), b.T}
		case *SliceV:
			hi := y.Len
			if x.Args[2] != nil {
				hi = e.term(x.Args[2])
			}
			return SpecVal{&SliceV{y.Ref, Add(y.Off, lo), Sub(hi, lo), Sub(y.Cap, lo)}, b.T}
		}
		panic("spec: slice")
	case "call":
		return e.call(x)
	}
	panic("spec: eval " + x.Op)
}

func (e *SpecEnv) eq(a, b SpecVal) *Term {
	if a.V == nil && b.V == nil {
		return True
	}
	if b.V == nil {
		a, b = b, a
	}
	if a.V == nil { // nil comparison
		fs := flatten(b.V)
		return Eq(fs[0], Int(0))
	}
	// []byte vs string: compare contents
	if s, ok := a.V.(*SliceV); ok {
		if t, ok := b.V.(*Term); ok && isSeq(t.Sort) {
			return Eq(e.st.content(under(a.T).(*types.Slice).Elem(), s), t)
		}
	}
	if _, ok := b.V.(*SliceV); ok {
		if _, ok := a.V.(*Term); ok {
			return e.eq(b, a)
		}
	}
	// interface vs concrete error etc.
	fa, fb := flatten(a.V), flatten(b.V)
	if len(fa) != len(fb) {
		panic("spec: == on different shapes")
	}
	var cs []*Term
	for i := range fa {
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

// under: the environment in which a is known (only used to simplify)
func (e *SpecEnv) under(a *Term) *SpecEnv {
	if a.IsLit() || a == True || a == False || e.st == nil {
		return e
	}
	c := *e
	c.st = e.st.clone()
	c.st.assume(a)
	if e.old == e.st {
		c.old = c.st
	} else if e.old != nil {
		c.old = e.old.clone()
		c.old.assume(a)
	}
	return &c
}

func (e *SpecEnv) binary(x *Expr) SpecVal {
	switch x.Name {
	case "==>":
		c := *e
		c.pol = !e.pol
		a := c.term(x.Args[0])
		if a == False {
			return tv(True)
		}
		return tv(Implies(a, e.under(a).term(x.Args[1])))
	case "<==>":
		return tv(Eq(e.term(x.Args[0]), e.term(x.Args[1])))
	case "&&":
		a := e.term(x.Args[0])
		if a == False {
			return tv(False)
		}
		return tv(And(a, e.term(x.Args[1])))
	case "||":
		a := e.term(x.Args[0])
		if a == True {
			return tv(True)
		}
		return tv(Or(a, e.term(x.Args[1])))
	case "==":
		return tv(e.eq(e.eval(x.Args[0]), e.eval(x.Args[1])))
	case "!=":
		return tv(Not(e.eq(e.eval(x.Args[0]), e.eval(x.Args[1]))))
	case "++":
		a, b := e.seq(e.eval(x.Args[0])), e.seq(e.eval(x.Args[1]))
		return tv(Cat(a.Sort, a, b))
	}
	a, b := e.term(x.Args[0]), e.term(x.Args[1])
	switch x.Name {
	case "<":
		return tv(Lt(a, b))
	case "<=":
		return tv(Le(a, b))
	case ">":
		return tv(Gt(a, b))
	case ">=":
		return tv(Ge(a, b))
	case "+":
		return tv(Add(a, b))
	case "-":
		return tv(Sub(a, b))
	case "*":
		return tv(Mul(a, b))
	case "/":
		return tv(DivE(a, b))
	case "%":
		return tv(ModE(a, b))
	}
	panic("spec: op " + x.Name)
}

// seq coerces a slice to its content
func (e *SpecEnv) seq(v SpecVal) *Term {
	switch y := v.V.(type) {
	case *Term:
		return y
	case *SliceV:
		return e.st.content(under(v.T).(*types.Slice).Elem(), y)
	case *ArrV:
		return y.Content
	}
	panic("spec: sequence expected")
}

func (e *SpecEnv) field(b SpecVal, name string) SpecVal {
	if b.T == nil {
		// datatype element value at spec level: not supported
		panic("spec: field ." + name + " of untyped value")
	}
	if iv, ok := b.V.(*IfaceV); ok {
		switch name {
		case "tag":
			return tv(iv.Tag)
		case "data":
			return tv(iv.Data)
		}
	}
	t := b.T
	p, isPtr := b.V.(*PtrV)
	if isPtr {
		t = p.T
	}
	s := structOf(t)
	if s == nil {
		panic("spec: field of non-struct " + t.String())
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			ft := s.Field(i).Type()
			if !isPtr {
				return SpecVal{b.V.(*Agg).F[i], ft}
			}
			e.ex.silent++
			pc := e.st.pc
			fp := e.ex.fieldAddr(e.st, p, i, 0)
			e.st.pc = pc
			if fp.Kind == "obj" { // nested struct or array: keep a pointer to it
				if arrayOf(ft) != nil {
					v := e.ex.load(e.st, fp, 0)
					e.ex.silent--
					return SpecVal{v, ft}
				}
				e.ex.silent--
				return SpecVal{fp, types.NewPointer(ft)}
			}
			v := e.ex.load(e.st, fp, 0) // well-formedness facts are assumed in st
			e.ex.silent--
			return SpecVal{v, ft}
		}
	}
	// embedded
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			ft := deref(s.Field(i).Type())
			if st := structOf(ft); st != nil {
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == name {
						return e.field(e.field(b, s.Field(i).Name()), name)
					}
				}
			}
		}
	}
	panic("spec: no field " + name + " in " + t.String())
}

func (e *SpecEnv) callFn(f *SpecFn, args []SpecVal) SpecVal {
	if f.Body == nil || f.Rec {
		var ts []*Term
		for i, a := range args {
			t := e.seqOrTerm(a)
			_ = i
			ts = append(ts, t)
		}
		return tv(App("fn:"+f.Name, specSort(f.Ret), ts...))
	}
	c := *e
	c.vars = map[string]SpecVal{}
	for k, v := range e.vars { // macros see contract names (self etc.) too
		c.vars[k] = v
	}
	if len(args) != len(f.Params) {
		panic("spec: arity of " + f.Name)
	}
	for i, p := range f.Params {
		a := args[i]
		if p.Kind == "String" || p.Kind == "Int" || p.Kind == "Bool" || strings.HasPrefix(p.Kind, "(Seq") {
			a = SpecVal{V: e.seqOrTerm(a)}
		}
		c.vars[p.Name] = a
	}
	return c.eval(f.Body)
}

func (e *SpecEnv) seqOrTerm(a SpecVal) *Term {
	switch a.V.(type) {
	case *SliceV, *ArrV:
		return e.seq(a)
	}
	return asTerm(a)
}

func (e *SpecEnv) call(x *Expr) SpecVal {
	n := x.Name
	switch n {
	case "old":
		c := *e
		c.st = e.old
		return c.eval(x.Args[0])
	case "entry": // in a loop invariant: the value on entry to the loop
		c := *e
		c.st, c.vars = e.ent, e.entVars
		return c.eval(x.Args[0])
	case "G":
		k := x.Args[0].Name
		p := e.ex.pr.globalPtr(k)
		return SpecVal{e.ex.loadGlobal(e.st, p), p.T}
	case "callfn": // callfn("pkg.Fn", args...): the contract's pure function
		panic("callfn")
	}
	if f, ok := e.ex.pr.specs.Fns[n]; ok {
		var as []SpecVal
		for _, a := range x.Args {
			as = append(as, e.eval(a))
		}
		return e.callFn(f, as)
	}
	arg := func(i int) SpecVal { return e.eval(x.Args[i]) }
	tm := func(i int) *Term { return e.seqOrTerm(e.eval(x.Args[i])) }
	switch n {
	case "len":
		a := arg(0)
		switch y := a.V.(type) {
		case *SliceV:
			return tv(y.Len)
		case *Term:
			return tv(Len(y))
		case *ArrV:
			return tv(Len(y.Content))
		}
	case "tail": // tail(x) = x[len(x):cap(x)]
		y := arg(0)
		v := y.V.(*SliceV)
		return SpecVal{&SliceV{v.Ref, Add(v.Off, v.Len), Sub(v.Cap, v.Len), Sub(v.Cap, v.Len)}, y.T}
	case "cap":
		return tv(arg(0).V.(*SliceV).Cap)
	case "ref":
		switch y := arg(0).V.(type) {
		case *SliceV:
			return tv(y.Ref)
		case *PtrV:
			return tv(ptrTerm(y))
		case *Term:
			return tv(y)
		}
	case "off":
		return tv(arg(0).V.(*SliceV).Off)
	case "bytes", "seq":
		return tv(e.seq(arg(0)))
	case "indexof":
		from := Int(0)
		if len(x.Args) > 2 {
			from = tm(2)
		}
		return tv(IndexOf(tm(0), tm(1), from))
	case "contains":
		return tv(Contains(tm(0), tm(1)))
	case "prefixof":
		return tv(PrefixOf(tm(0), tm(1)))
	case "suffixof":
		return tv(SuffixOf(tm(0), tm(1)))
	case "substr":
		return tv(Extract(tm(0), tm(1), tm(2)))
	case "from":
		return tv(SuffixFrom(tm(0), tm(1)))
	case "upto":
		return tv(Extract(tm(0), Int(0), tm(1)))
	case "at":
		if a := arg(0); a.T != nil {
			if sl, ok := under(a.T).(*types.Slice); ok && !isByte(sl.Elem()) {
				if sv, ok := a.V.(*SliceV); ok {
					return SpecVal{V: unpackElem(sl.Elem(), e.st.elem(sl.Elem(), sv, tm(1))), T: sl.Elem()}
				}
			}
		}
		return tv(Nth(tm(0), tm(1)))
	case "chr":
		return tv(Unit(SString, tm(0)))
	case "unit": // unit(x): one-element sequence of the value
		a := arg(0)
		if a.T != nil {
			return tv(Unit(contentSort(a.T), packElem(a.T, a.V)))
		}
		t := asTerm(a)
		return tv(Unit(SeqOf(t.Sort), t))
	case "emptyseq":
		return tv(Empty(specSort(x.Args[0].Name)))
	case "eqfold":
		return tv(eqfold(tm(0), tm(1)))
	case "asciifold":
		return tv(asciifold(tm(0), tm(1)))
	case "in_re":
		return tv(InRe(tm(0), x.Args[1].Name))
	case "ite":
		return e.eval(&Expr{Op: "if", Args: x.Args})
	case "nooverlap": // two byte slices do not share memory
		a, b := arg(0).V.(*SliceV), arg(1).V.(*SliceV)
		return tv(Or(Ne(a.Ref, b.Ref), Ge(a.Off, Add(b.Off, b.Cap)), Ge(b.Off, Add(a.Off, a.Cap))))
	case "typeis": // typeis(iface, "pkg.Type") dynamic type
		t := e.ex.pr.typeByName(x.Args[1].Name)
		return tv(Eq(arg(0).V.(*IfaceV).Tag, typeTag(t)))
	case "unbox": // unbox(iface, "pkg.Type")
		t := e.ex.pr.typeByName(x.Args[1].Name)
		iv := arg(0).V.(*IfaceV)
		return SpecVal{unboxData(t, iv.Data), t}
	case "implements":
		return tv(And(Ne(arg(0).V.(*IfaceV).Tag, Int(0)), App("implements:"+x.Args[1].Name, SBool, arg(0).V.(*IfaceV).Tag)))
	case "mapget": // mapget(m, k): value (zero if absent)
		a := arg(0)
		mt := under(a.T).(*types.Map)
		v, _ := e.ex.mapGet(e.st, mt, a.V.(*Term), tm(1))
		return SpecVal{v, mt.Elem()}
	case "mapraw": // mapraw(m, k, "leafpath")
		a := arg(0)
		mt := under(a.T).(*types.Map)
		_, ok := e.ex.mapGet(e.st, mt, a.V.(*Term), tm(1))
		return tv(ok)
	case "maphas":
		a := arg(0)
		mt := under(a.T).(*types.Map)
		_, ok := e.ex.mapGet(e.st, mt, a.V.(*Term), tm(1))
		return tv(ok)
	case "fresh": // allocated during the call
		a := arg(0)
		r := flatten(a.V)[0]
		return tv(e.st.refGE(r, Add(e.old.wm, Int(e.old.cnt))))
	case "tr":
		k := "tr:" + x.Args[0].Name
		return tv(e.ex.trace(e.st, k))
	case "order": // the characters of the events so far, in order
		return tv(e.ex.trace(e.st, "tr:#order"))
	case "ev": // ev("name", args..., results...)
		c := e.ex.pr.eventOf(x.Args[0].Name)
		var ls []*Term
		for _, a := range x.Args[1:] {
			v := e.eval(a)
			if v.V == nil {
				ls = append(ls, Int(0), Int(0)) // nil interface
				continue
			}
			ls = append(ls, evFlatten(e.st, v.T, v.V)...)
		}
		if len(ls) != len(c.sorts) {
			panic(fmt.Sprintf("spec: ev(%s) has %d leaves, want %d", x.Args[0].Name, len(ls), len(c.sorts)))
		}
		return tv(Unit(SeqOf(c.name), Mk(c, ls...)))
	case "mk": // mk("GoType", leaves...): a value of a struct type
		t := e.ex.pr.typeByName(x.Args[0].Name)
		var ls []*Term
		for i := 1; i < len(x.Args); i++ {
			ls = append(ls, flatten(arg(i).V)...)
		}
		return SpecVal{unflatten(t, ls), t}
	case "as": // as(term, "GoType"): give a Go type to a term
		t := e.ex.pr.typeByName(x.Args[1].Name)
		v := arg(0)
		if x, ok := v.V.(*Term); ok && len(leaves(t)) > 1 {
			return SpecVal{unpackElem(t, x), t}
		}
		return SpecVal{unflatten(t, flatten(v.V)), t}
	case "wrap": // wrap(x, "int")
		return tv(wrap(tm(0), e.ex.pr.typeByName(x.Args[1].Name)))
	case "evlast", "evfield":
		// evfield("name", seq, idx, fieldno)
		dt := e.ex.pr.eventOf(x.Args[0].Name)
		el := Nth(tm(1), tm(2))
		return tv(Sel(dt, int(x.Args[3].Num.Int64()), el))
	case "evarg":
		// evarg("name", idx, "param"): a parameter or result of the idx-th call
		name, want := x.Args[0].Name, x.Args[2].Name
		dt := e.ex.pr.eventOf(name)
		sig, rt := e.ex.pr.sigByName(name)
		var ts []types.Type
		if rt != nil {
			ts = append(ts, rt)
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		for i := 0; i < sig.Results().Len(); i++ {
			ts = append(ts, sig.Results().At(i).Type())
		}
		ec := e.ex.pr.specs.ByName[name]
		ns := append(append([]string{}, ec.Params...), ec.Results...)
		el := Nth(e.ex.trace(e.st, "tr:"+name), tm(1))
		o := 0
		for i, t := range ts {
			n := len(evSorts(t))
			if ns[i] == want {
				if isByteSlice(t) {
					return tv(Sel(dt, o, el))
				}
				var ls []*Term
				for j := 0; j < n; j++ {
					ls = append(ls, Sel(dt, o+j, el))
				}
				return SpecVal{V: unflatten(t, ls), T: t}
			}
			o += n
		}
		panic("spec: evarg: no parameter " + want)
	case "app": // app("name","Sort", args...): uninterpreted
		var ts []*Term
		for _, a := range x.Args[2:] {
			v := e.eval(a)
			if _, ok := v.V.(*SliceV); ok {
				ts = append(ts, e.seq(v))
				continue
			}
			ts = append(ts, flatten(v.V)...)
		}
		return tv(App(x.Args[0].Name, specSort(x.Args[1].Name), ts...))
	}
	panic("spec: unknown function " + n)
}
