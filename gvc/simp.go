package main

import "math/big"

// Simplification of a query under its own unit facts.

type unitFacts struct {
	truth map[*Term]bool
	val   map[*Term]*Term
	lo    map[*Term]*big.Int
	hi    map[*Term]*big.Int
}

func (u *unitFacts) add(t *Term, pos bool) {
	switch t.op {
	case ONot:
		u.add(t.args[0], !pos)
		return
	case OAnd:
		if pos {
			for _, a := range t.args {
				u.add(a, true)
			}
			return
		}
	case OOr:
		if !pos {
			for _, a := range t.args {
				u.add(a, false)
			}
			return
		}
	case OForall, OExists, OBoolL, OIte:
		return
	}
	if t.op == OAnd || t.op == OOr {
		return
	}
	u.truth[t] = pos
	switch t.op {
	case OEq:
		if pos && t.args[0].sort == SInt {
			a, b := t.args[0], t.args[1]
			if b.op == OInt {
				a, b = b, a
			}
			if a.op == OInt && b.op != OInt && b.op != OAdd && b.op != OMulC {
				u.val[b] = a
				return
			}
			u.bound(Sub(a, b), true)
			u.bound(Sub(b, a), true)
		}
	case OLe0:
		if pos {
			u.bound(t.args[0], true)
		} else {
			u.bound(Sub(Int(1), t.args[0]), true)
		}
	}
}

// bound records d <= 0 when d has a single unknown.
func (u *unitFacts) bound(d *Term, _ bool) {
	l := toLin(d)
	if len(l.co) != 1 {
		return
	}
	for t, k := range l.co {
		// k*t + c <= 0
		q, m := new(big.Int), new(big.Int)
		if k.Sign() > 0 {
			// t <= floor(-c/k)
			q.DivMod(new(big.Int).Neg(l.c), k, m) // Euclidean: m>=0, so q is the floor for k>0
			if h := u.hi[t]; h == nil || q.Cmp(h) < 0 {
				u.hi[t] = q
			}
		} else {
			// t >= ceil(c/-k)
			nk := new(big.Int).Neg(k)
			q.DivMod(l.c, nk, m)
			if m.Sign() != 0 {
				q.Add(q, big.NewInt(1))
			}
			if o := u.lo[t]; o == nil || q.Cmp(o) > 0 {
				u.lo[t] = q
			}
		}
	}
}

// rng gives the known range of a term.
func (u *unitFacts) rng(t *Term) (lo, hi *big.Int) {
	lo, hi = u.lo[t], u.hi[t]
	if t.op == OLen || t.op == OAt {
		if lo == nil || lo.Sign() < 0 {
			lo = new(big.Int)
		}
	}
	return
}

func (u *unitFacts) decide(t *Term) *Term {
	if v, ok := u.truth[t]; ok {
		return Bool(v)
	}
	switch t.op {
	case OLe0:
		l := toLin(t.args[0])
		mn, mx := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
		for x, k := range l.co {
			lo, hi := u.rng(x)
			if k.Sign() < 0 {
				lo, hi = hi, lo
			}
			if mn != nil {
				if lo == nil {
					mn = nil
				} else {
					mn.Add(mn, new(big.Int).Mul(k, lo))
				}
			}
			if mx != nil {
				if hi == nil {
					mx = nil
				} else {
					mx.Add(mx, new(big.Int).Mul(k, hi))
				}
			}
		}
		if mx != nil && mx.Sign() <= 0 {
			return True
		}
		if mn != nil && mn.Sign() > 0 {
			return False
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if b.op == OInt {
			a, b = b, a
		}
		if a.op == OInt && b.op != OAdd && b.op != OMulC {
			lo, hi := u.rng(b)
			if lo != nil && a.i.Cmp(lo) < 0 || hi != nil && a.i.Cmp(hi) > 0 {
				return False
			}
		}
	}
	return nil
}

// le decides a <= b from the ranges.
func (u *unitFacts) le(a, b *Term) bool {
	t := Le(a, b)
	if t == True {
		return true
	}
	return t != False && u.decide(t) == True
}

// strings resolves lengths, bytes and parts of substrings whose bounds are known to be right.
func (u *unitFacts) strings(t *Term) *Term {
	in := func(x *Term) bool {
		return x.op == OSub && u.le(Int(0), x.args[1]) && u.le(x.args[1], x.args[2]) && u.le(x.args[2], Len(x.args[0]))
	}
	switch t.op {
	case OLen:
		if x := t.args[0]; in(x) {
			return Sub(x.args[2], x.args[1])
		}
	case OAt:
		if x := t.args[0]; in(x) && u.le(Int(0), t.args[1]) && u.le(Add(t.args[1], Int(1)), Sub(x.args[2], x.args[1])) {
			return At(x.args[0], Add(x.args[1], t.args[1]))
		}
	case OSub:
		x := t.args[0]
		if in(x) && u.le(Int(0), t.args[1]) && u.le(t.args[1], t.args[2]) && u.le(t.args[2], Sub(x.args[2], x.args[1])) {
			return SubStr(x.args[0], Add(x.args[1], t.args[1]), Add(x.args[1], t.args[2]))
		}
		if x == t.args[0] && t.args[1].op == OInt && t.args[1].i.Sign() == 0 && t.args[2] == Len(x) {
			return x
		}
	}
	return t
}

func isUnit(t *Term) bool {
	switch t.op {
	case ONot:
		a := t.args[0]
		return a.op != OAnd && a.op != OOr && a.op != OForall && a.op != OExists && a.op != OIte
	case OAnd, OOr, OForall, OExists, OIte, OBoolL:
		return false
	}
	return true
}

// simplifyUnder rewrites assumptions and goal with the facts that hold outright.
func simplifyUnder(assume []*Term, goal *Term) ([]*Term, *Term) {
	var as []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == OAnd {
			for _, a := range t.args {
				flat(a)
			}
			return
		}
		if t.op == ONot && t.args[0].op == OOr {
			for _, a := range t.args[0].args {
				flat(Not(a))
			}
			return
		}
		as = append(as, t)
	}
	for _, a := range assume {
		flat(a)
	}
	for round := 0; round < 5; round++ {
		u := &unitFacts{map[*Term]bool{}, map[*Term]*Term{}, map[*Term]*big.Int{}, map[*Term]*big.Int{}}
		for _, a := range as {
			u.add(a, true)
		}
		memo := map[*Term]*Term{}
		var f func(t *Term) *Term
		inner := func(t *Term) *Term {
			if len(t.args) == 0 || t.op == OForall || t.op == OExists {
				return t
			}
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = f(a)
				if args[i] != a {
					ch = true
				}
			}
			if !ch {
				return t
			}
			return rebuild(t, args, f)
		}
		f = func(t *Term) *Term {
			if len(t.args) == 0 {
				if v, ok := u.val[t]; ok {
					return v
				}
				if t.sort == SBool {
					if v, ok := u.truth[t]; ok {
						return Bool(v)
					}
				}
				return t
			}
			if r, ok := memo[t]; ok {
				return r
			}
			var r *Term
			if v, ok := u.val[t]; ok {
				r = v
			} else if t.sort == SBool {
				r = u.decide(t)
			}
			if r == nil {
				r = u.strings(inner(t))
				if v, ok := u.val[r]; ok {
					r = v
				}
				if r.sort == SBool && r.op != OBoolL {
					if d := u.decide(r); d != nil {
						r = d
					}
				}
			}
			memo[t] = r
			return r
		}
		changed := false
		var out []*Term
		seen := map[*Term]bool{}
		push := func(t *Term) {
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
		for _, a := range as {
			if isUnit(a) {
				// a fact that holds outright stays; only the inside of definitions is rewritten
				if a.op == OEq && a.args[0].sort != SInt {
					l, r := a.args[0], a.args[1]
					r2 := r
					if len(r.args) > 0 {
						r2 = f(r)
					}
					l2 := l
					if len(l.args) > 0 && r2 == r {
						l2 = f(l)
					}
					if r2 != r || l2 != l {
						changed = true
						as2 := as
						as = nil
						flat(Eq(l2, r2))
						for _, x := range as {
							push(x)
						}
						as = as2
						continue
					}
				}
				push(a)
				continue
			}
			b := f(a)
			if b != a {
				changed = true
				if b == True {
					continue
				}
				as2 := as
				as = nil
				flat(b)
				for _, x := range as {
					push(x)
				}
				as = as2
				continue
			}
			push(a)
		}
		g := f(goal)
		if g != goal {
			goal = g
			changed = true
		}
		as = out
		if !changed {
			break
		}
	}
	return as, goal
}
