package main

import "math/big"

// Interval facts: cheap consequences of the path condition, used only to simplify terms.

type iv struct{ lo, hi *big.Int }

func (s *State) rng(t *Term) (lo, hi *big.Int) {
	if t.IsInt() {
		return t.N, t.N
	}
	if len(t.Args) > 0 {
		if v, ok := s.rmemo[t]; ok {
			return v.lo, v.hi
		}
		defer func() {
			if s.rmemo == nil {
				s.rmemo = map[*Term]iv{}
			}
			s.rmemo[t] = iv{lo, hi}
		}()
	}
	if v, ok := s.ivs[t]; ok {
		lo, hi = v.lo, v.hi
	}
	var l2, h2 *big.Int
	switch t.Op {
	case "len":
		l2 = new(big.Int)
	case "mod":
		if b := t.Args[1]; b.IsInt() && b.N.Sign() > 0 {
			l2, h2 = new(big.Int), new(big.Int).Sub(b.N, big.NewInt(1))
		}
	case "ite":
		a, b := t.Args[1], t.Args[2]
		al, ah := s.rng(a)
		bl, bh := s.rng(b)
		c := t.Args[0]
		// max(x,0)
		if c.Op == "ge0" && c.Args[0] == a && al == nil {
			al = new(big.Int)
		}
		if al != nil && bl != nil {
			l2 = al
			if bl.Cmp(al) < 0 {
				l2 = bl
			}
		}
		if ah != nil && bh != nil {
			h2 = ah
			if bh.Cmp(ah) > 0 {
				h2 = bh
			}
		}
	default:
		l := toLin(t)
		if len(l.m) == 1 && l.m[t] != nil {
			break
		}
		l2, h2 = s.rngLin(l)
	}
	if lo == nil || l2 != nil && l2.Cmp(lo) > 0 {
		lo = l2
	}
	if hi == nil || h2 != nil && h2.Cmp(hi) < 0 {
		hi = h2
	}
	return
}

func (s *State) rngLin(l *lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for x, c := range l.m {
		a, b := s.rng(x)
		if c.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil && a != nil {
			lo.Add(lo, new(big.Int).Mul(c, a))
		} else {
			lo = nil
		}
		if hi != nil && b != nil {
			hi.Add(hi, new(big.Int).Mul(c, b))
		} else {
			hi = nil
		}
	}
	return
}

func (s *State) learn(t *Term) {
	var l *lin
	eq := false
	switch {
	case t.Op == "ge0":
		l = toLin(t.Args[0])
	case t.Op == "not" && t.Args[0].Op == "ge0": // -x-1 >= 0
		l = toLin(t.Args[0].Args[0]).scale(big.NewInt(-1))
		l.c = new(big.Int).Sub(l.c, big.NewInt(1))
	case t.Op == "not" && t.Args[0].Op == "=" && t.Args[0].Args[0].Sort == SInt:
		// x != bound
		d := toLin(Sub(t.Args[0].Args[0], t.Args[0].Args[1]))
		for _, l := range []*lin{d, d.scale(big.NewInt(-1))} {
			if s.geK(l.term()) {
				m := l.clone()
				m.c = new(big.Int).Sub(m.c, big.NewInt(1))
				s.learnLin(m)
				return
			}
		}
		return
	case t.Op == "=" && t.Args[0].Sort == SInt:
		l = toLin(Sub(t.Args[0], t.Args[1]))
		eq = true
	default:
		return
	}
	if len(l.m) > 8 {
		return
	}
	s.learnLin(l)
	if eq {
		s.learnLin(l.scale(big.NewInt(-1)))
	}
}

// l >= 0
func (s *State) learnLin(l *lin) {
	k := linKey(l)
	if o, ok := s.lins[k]; !ok || l.c.Cmp(o) < 0 {
		s.lins[k] = l.c
		if len(l.m) > 1 {
			s.facts = append(s.facts[:len(s.facts):len(s.facts)], l)
		}
	}
	for x, c := range l.m {
		if c.CmpAbs(big.NewInt(1)) != 0 {
			continue
		}
		rest := l.clone()
		delete(rest.m, x)
		_, hi := s.rngLin(rest) // c*x >= -rest >= -hi
		if hi == nil {
			continue
		}
		cur := s.ivs[x]
		was := cur
		if c.Sign() > 0 {
			b := new(big.Int).Neg(hi)
			if cur.lo == nil || b.Cmp(cur.lo) > 0 {
				cur.lo = b
			}
		} else {
			if cur.hi == nil || hi.Cmp(cur.hi) < 0 {
				cur.hi = hi
			}
		}
		if cur != was {
			s.ivs[x] = cur
			s.rmemo = nil
		}
	}
}

// geK: t >= 0 follows cheaply from what is known
func (s *State) geK(t *Term) bool {
	if t.IsInt() {
		return t.N.Sign() >= 0
	}
	l := toLin(t)
	if linNonneg(l) {
		return true
	}
	if o, ok := s.lins[linKey(l)]; ok && l.c.Cmp(o) >= 0 {
		return true
	}
	lo, _ := s.rngLin(l)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	// a single fact plus non-negative rest: t = fact + r, r >= 0
	if len(l.m) <= 8 {
		for i := 0; i < len(s.facts); i++ {
			f := s.facts[i]
			n := len(l.m)
			for x, c := range f.m {
				if lc := l.m[x]; lc == nil {
					n++
				} else if lc.Cmp(c) == 0 {
					n--
				}
			}
			if n >= len(l.m) {
				continue
			}
			r := l.sub(f)
			if lo, _ := s.rngLin(r); lo != nil && lo.Sign() >= 0 {
				return true
			}
		}
	}
	return false
}
