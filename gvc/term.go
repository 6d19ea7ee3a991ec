package main

// Hash-consed logical terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SAny   Sort = "Any"
	SFloat Sort = "F64"
	SSlice Sort = "Slice"
)

func ArrSort(elem Sort) Sort { return Sort("(Array Int " + string(elem) + ")") }
func ArrSortK(k, elem Sort) Sort {
	return Sort("(Array " + string(k) + " " + string(elem) + ")")
}

// splitArr returns key and element sort of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	str = strings.TrimSuffix(strings.TrimPrefix(str, "(Array "), ")")
	depth := 0
	for i, c := range str {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("not an array sort: " + string(s))
}

type Op int

const (
	OVar   Op = iota // free constant (name)
	OBound           // bound variable
	OInt             // integer literal
	OBoolL           // true/false
	OStrL            // string literal
	OApp             // uninterpreted / datatype function application (name)
	OAdd             // linear sum: n-ary, may contain OMul terms and a literal
	OMulC            // literal * term (name holds coefficient)
	OLe0             // arg <= 0
	OEq
	ONot
	OAnd
	OOr
	OIte
	OSelect
	OStore
	OForall // args: body ; bound vars in bv; triggers
	OExists
	OCat // n-ary string concat
	OLen
	OAt  // byte at index (Int)
	OSub // substring lo hi
	OUnit
	OMk  // datatype constructor
	OSel // datatype selector (name=field index)
	OConstArr
	OMul // nonlinear
)

type Term struct {
	op   Op
	sort Sort
	name string
	i    *big.Int
	args []*Term
	bv   []*Term
	trig [][]*Term
	id   int
	hasB bool // contains bound variables (free in term)
	fb   map[*Term]bool
}

var termTab = map[string]*Term{}
var termCnt int

func mk(op Op, s Sort, name string, i *big.Int, bv []*Term, trig [][]*Term, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(string(s))
	b.WriteByte('|')
	b.WriteString(strconv.Quote(name))
	if i != nil {
		b.WriteByte('#')
		b.WriteString(i.String())
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range bv {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, t := range trig {
		b.WriteByte('!')
		for _, a := range t {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{op: op, sort: s, name: name, i: i, args: args, bv: bv, trig: trig, id: termCnt}
	if op == OBound {
		t.fb = map[*Term]bool{t: true}
	}
	for _, a := range args {
		for v := range a.fb {
			isB := false
			for _, w := range bv {
				if w == v {
					isB = true
				}
			}
			if !isB {
				if t.fb == nil {
					t.fb = map[*Term]bool{}
				}
				t.fb[v] = true
			}
		}
	}
	t.hasB = len(t.fb) > 0
	termTab[k] = t
	return t
}

var freshCnt = map[string]int{}

func Fresh(name string, s Sort) *Term {
	freshCnt[name]++
	return mk(OVar, s, fmt.Sprintf("%s!%d", name, freshCnt[name]), nil, nil, nil)
}
func Var(name string, s Sort) *Term { return mk(OVar, s, name, nil, nil, nil) }
func Bound(name string, s Sort) *Term {
	freshCnt["?"+name]++
	return mk(OBound, s, fmt.Sprintf("%s?%d", name, freshCnt["?"+name]), nil, nil, nil)
}
func Int(n int64) *Term     { return mk(OInt, SInt, "", big.NewInt(n), nil, nil) }
func IntB(n *big.Int) *Term { return mk(OInt, SInt, "", n, nil, nil) }
func Bool(b bool) *Term {
	if b {
		return mk(OBoolL, SBool, "true", nil, nil, nil)
	}
	return mk(OBoolL, SBool, "false", nil, nil, nil)
}

var True, False = Bool(true), Bool(false)

func StrL(s string) *Term { return mk(OStrL, SStr, s, nil, nil, nil) }
func App(name string, s Sort, args ...*Term) *Term {
	if r := simpApp(name, s, args); r != nil {
		return r
	}
	return mk(OApp, s, name, nil, nil, nil, args...)
}

func isLit(t *Term) bool { return t.op == OInt || t.op == OBoolL || t.op == OStrL }

// ---- linear arithmetic

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	addLin(&l, t, big.NewInt(1))
	return l
}
func addLin(l *lin, t *Term, k *big.Int) {
	switch t.op {
	case OInt:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.i))
	case OAdd:
		for _, a := range t.args {
			addLin(l, a, k)
		}
	case OMulC:
		addLin(l, t.args[0], new(big.Int).Mul(k, t.i))
	default:
		if o, ok := l.co[t]; ok {
			n := new(big.Int).Add(o, k)
			if n.Sign() == 0 {
				delete(l.co, t)
			} else {
				l.co[t] = n
			}
		} else if k.Sign() != 0 {
			l.co[t] = k
		}
	}
}
func fromLin(l lin) *Term {
	keys := make([]*Term, 0, len(l.co))
	for t := range l.co {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var as []*Term
	for _, t := range keys {
		k := l.co[t]
		if k.IsInt64() && k.Int64() == 1 {
			as = append(as, t)
		} else {
			as = append(as, mk(OMulC, SInt, "", k, nil, nil, t))
		}
	}
	if l.c.Sign() != 0 || len(as) == 0 {
		as = append(as, IntB(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk(OAdd, SInt, "", nil, nil, nil, as...)
}
func Add(ts ...*Term) *Term {
	l := lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	for _, t := range ts {
		addLin(&l, t, big.NewInt(1))
	}
	return fromLin(l)
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}
func MulC(k *big.Int, a *Term) *Term {
	l := lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	addLin(&l, a, k)
	return fromLin(l)
}
func Mul(a, b *Term) *Term {
	if a.op == OInt {
		return MulC(a.i, b)
	}
	if b.op == OInt {
		return MulC(b.i, a)
	}
	return mk(OMul, SInt, "", nil, nil, nil, a, b)
}

// Le builds a<=b in the canonical form (a-b) <= 0.
func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.op == OInt {
		return Bool(d.i.Sign() <= 0)
	}
	// quick sign facts: all nonneg-known terms with positive coefficient
	l := toLin(d)
	allNonPos, allNonNeg := true, true
	for t, k := range l.co {
		if !nonNeg(t) {
			allNonPos, allNonNeg = false, false
			break
		}
		if k.Sign() > 0 {
			allNonPos = false
		} else {
			allNonNeg = false
		}
	}
	if allNonPos && l.c.Sign() <= 0 {
		return True
	}
	if allNonNeg && l.c.Sign() > 0 {
		return False
	}
	return mk(OLe0, SBool, "", nil, nil, nil, d)
}
func nonNeg(t *Term) bool { return t.op == OLen || t.op == OAt }
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Not(a *Term) *Term {
	switch a.op {
	case OBoolL:
		return Bool(a != True)
	case ONot:
		return a.args[0]
	case OLe0:
		// not(x<=0) = 1-x<=0
		return Le(Sub(Int(1), a.args[0]), Int(0))
	}
	return mk(ONot, SBool, "", nil, nil, nil, a)
}

func And(ts ...*Term) *Term {
	var as []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False || seen[Not(t)] {
			return false
		}
		if t.op == OAnd {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		as = append(as, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(as) == 0 {
		return True
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk(OAnd, SBool, "", nil, nil, nil, as...)
}
func Or(ts ...*Term) *Term {
	var as []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False || seen[t] {
			return true
		}
		if t == True || seen[Not(t)] {
			return false
		}
		if t.op == OOr {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		as = append(as, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	if len(as) == 0 {
		return False
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk(OOr, SBool, "", nil, nil, nil, as...)
}
func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	return mk(OIte, a.sort, "", nil, nil, nil, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.op == OInt {
			return Bool(d.i.Sign() == 0)
		}
		if distinctHook != nil && distinctHook(a, b) {
			return False
		}
		// canonical: solve with positive leading coefficient
		l := toLin(d)
		if len(l.co) == 1 {
			for t, k := range l.co {
				if k.IsInt64() && (k.Int64() == 1 || k.Int64() == -1) {
					c := new(big.Int).Neg(l.c)
					if k.Int64() == -1 {
						c = l.c
					}
					if t.op == OApp && t.name == "rem" && c.Sign() == 0 {
						// divisibility: the dividend modulo the divisor
						m := t.args[1].i
						dl := toLin(t.args[0])
						n := lin{c: new(big.Int).Mod(dl.c, m), co: map[*Term]*big.Int{}}
						for x, k := range dl.co {
							if r := new(big.Int).Mod(k, m); r.Sign() != 0 {
								n.co[x] = r
							}
						}
						d := fromLin(n)
						if d.op == OInt {
							return Bool(d.i.Sign() == 0)
						}
						t = App("rem", SInt, d, t.args[1])
					}
					if nonNeg(t) && c.Sign() < 0 {
						return False
					}
					if t.op == OIte && (t.args[1].op == OInt || t.args[2].op == OInt) {
						ic := IntB(c)
						return Ite(t.args[0], Eq(t.args[1], ic), Eq(t.args[2], ic))
					}
					return mkEq(t, IntB(c))
				}
			}
		}
	}
	if a.op == OMk && b.op == OMk {
		if a.name != b.name {
			return False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == SStr {
		return eqStr(a, b)
	}
	if a.sort == SAny {
		if a.op == OApp && b.op == OApp && strings.HasPrefix(a.name, "box") && strings.HasPrefix(b.name, "box") {
			if a.name != b.name {
				return False
			}
			return Eq(a.args[0], b.args[0])
		}
		if a == NilAny && b.op == OApp && strings.HasPrefix(b.name, "box") {
			return False
		}
		if b == NilAny && a.op == OApp && strings.HasPrefix(a.name, "box") {
			return False
		}
	}
	if a.op == OIte && (isLit(b) || b == NilAny) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == OIte && (isLit(a) || a == NilAny) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	return mkEq(a, b)
}
func mkEq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, SBool, "", nil, nil, nil, a, b)
}

// eqStr cancels common prefixes and suffixes.
func eqStr(a, b *Term) *Term {
	pa, pb := catParts(a), catParts(b)
	for len(pa) > 0 && len(pb) > 0 {
		if pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if pa[0].op == OStrL && pb[0].op == OStrL {
			x, y := pa[0].name, pb[0].name
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if x[:n] != y[:n] {
				return False
			}
			pa = append([]*Term{}, pa...)
			pb = append([]*Term{}, pb...)
			if len(x) > n {
				pa[0] = StrL(x[n:])
			} else {
				pa = pa[1:]
			}
			if len(y) > n {
				pb[0] = StrL(y[n:])
			} else {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		la, lb := pa[len(pa)-1], pb[len(pb)-1]
		if la == lb {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		if la.op == OStrL && lb.op == OStrL {
			x, y := la.name, lb.name
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if x[len(x)-n:] != y[len(y)-n:] {
				return False
			}
			pa = append([]*Term{}, pa...)
			pb = append([]*Term{}, pb...)
			if len(x) > n {
				pa[len(pa)-1] = StrL(x[:len(x)-n])
			} else {
				pa = pa[:len(pa)-1]
			}
			if len(y) > n {
				pb[len(pb)-1] = StrL(y[:len(y)-n])
			} else {
				pb = pb[:len(pb)-1]
			}
			continue
		}
		break
	}
	ra, rb := Cat(pa...), Cat(pb...)
	if ra == rb {
		return True
	}
	if isLit(ra) && isLit(rb) {
		return False
	}
	if rb.op == OStrL && rb.name == "" {
		ra, rb = rb, ra
	}
	if ra.op == OStrL && ra.name == "" {
		for _, p := range catParts(rb) {
			if p.op == OStrL || p.op == OUnit {
				return False
			}
		}
		return mkEqLen0(rb)
	}
	if ra.op == OIte && isLit(rb) {
		return Ite(ra.args[0], Eq(ra.args[1], rb), Eq(ra.args[2], rb))
	}
	if rb.op == OIte && isLit(ra) {
		return Ite(rb.args[0], Eq(ra, rb.args[1]), Eq(ra, rb.args[2]))
	}
	return mkEq(ra, rb)
}
func mkEqLen0(t *Term) *Term { return Eq(Len(t), Int(0)) }

func catParts(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if t.op == OStrL && t.name == "" {
		return nil
	}
	return []*Term{t}
}
func Cat(ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		for _, p := range catParts(t) {
			if p.op == OUnit && p.args[0].op == OInt {
				p = StrL(string([]byte{byte(p.args[0].i.Int64())}))
			}
			if p.op == OStrL && len(ps) > 0 && ps[len(ps)-1].op == OStrL {
				ps[len(ps)-1] = StrL(ps[len(ps)-1].name + p.name)
				continue
			}
			ps = append(ps, p)
		}
	}
	// merge adjacent substrings of the same string
	for i := 0; i+1 < len(ps); {
		if ps[i].op == OSub && ps[i+1].op == OSub && ps[i].args[0] == ps[i+1].args[0] && ps[i].args[2] == ps[i+1].args[1] {
			// valid only if lo<=mid<=hi; cannot check here, so skip merging
			i++
			continue
		}
		i++
	}
	switch len(ps) {
	case 0:
		return StrL("")
	case 1:
		return ps[0]
	}
	return mk(OCat, SStr, "", nil, nil, nil, ps...)
}
func Len(t *Term) *Term {
	switch t.op {
	case OStrL:
		return Int(int64(len(t.name)))
	case OUnit:
		return Int(1)
	case OCat:
		var ls []*Term
		for _, p := range t.args {
			ls = append(ls, Len(p))
		}
		return Add(ls...)
	case OIte:
		if t.args[1].op == OStrL || t.args[2].op == OStrL {
			return Ite(t.args[0], Len(t.args[1]), Len(t.args[2]))
		}
	case OApp:
		if t.name == "bytes2str" {
			// length given by its axioms; callers keep 0<=len
			return t.args[2]
		}
	}
	return mk(OLen, SInt, "", nil, nil, nil, t)
}
func At(s, i *Term) *Term {
	switch s.op {
	case OStrL:
		if i.op == OInt && i.i.IsInt64() {
			k := i.i.Int64()
			if k >= 0 && k < int64(len(s.name)) {
				return Int(int64(s.name[k]))
			}
		}
	case OUnit:
		if i.op == OInt && i.i.Sign() == 0 {
			return s.args[0]
		}
	case OCat:
		off := Int(0)
		for _, p := range s.args {
			l := Len(p)
			d := Sub(i, off)
			if d.op == OInt && d.i.Sign() >= 0 && l.op == OInt && d.i.Cmp(l.i) < 0 {
				return At(p, d)
			}
			if d.op == OInt && d.i.Sign() >= 0 && l.op == OInt {
				off = Add(off, l)
				continue
			}
			if Le(off, i) == True && Lt(i, Add(off, l)) == True {
				return At(p, d)
			}
			if Le(Add(off, l), i) == True {
				off = Add(off, l)
				continue
			}
			break
		}
		if off != Int(0) {
			// leading parts are known to be passed
			n := 0
			o := Int(0)
			for o != off {
				o = Add(o, Len(s.args[n]))
				n++
			}
			if n < len(s.args) {
				return At(Cat(s.args[n:]...), Sub(i, off))
			}
		}
	case OApp:
		if s.name == "bytes2str" {
			return Select(s.args[0], Add(s.args[1], i))
		}
	}
	return mk(OAt, SInt, "", nil, nil, nil, s, i)
}
func SubStr(s, lo, hi *Term) *Term {
	if lo == hi {
		return StrL("")
	}
	if lo == Int(0) && hi == Len(s) {
		return s
	}
	if s.op == OStrL && lo.op == OInt && hi.op == OInt {
		a, b := lo.i.Int64(), hi.i.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.name)) {
			return StrL(s.name[a:b])
		}
	}
	if s.op == OCat {
		// drop whole leading parts before lo and trailing parts after hi
		ps := s.args
		off := Int(0)
		for len(ps) > 0 && Le(Add(off, Len(ps[0])), lo) == True {
			off = Add(off, Len(ps[0]))
			ps = ps[1:]
		}
		if len(ps) > 0 && ps[0].op == OStrL {
			d := Sub(lo, off)
			if d.op == OInt && d.i.Sign() > 0 && d.i.Int64() < int64(len(ps[0].name)) {
				n := d.i.Int64()
				ps = append([]*Term{StrL(ps[0].name[n:])}, ps[1:]...)
				off = lo
			}
		}
		end := off
		for _, p := range ps {
			end = Add(end, Len(p))
		}
		for len(ps) > 0 && Le(hi, Sub(end, Len(ps[len(ps)-1]))) == True {
			end = Sub(end, Len(ps[len(ps)-1]))
			ps = ps[:len(ps)-1]
		}
		if len(ps) > 0 && ps[len(ps)-1].op == OStrL {
			d := Sub(end, hi)
			last := ps[len(ps)-1]
			if d.op == OInt && d.i.Sign() > 0 && d.i.Int64() < int64(len(last.name)) {
				n := int64(len(last.name)) - d.i.Int64()
				ps = append(append([]*Term{}, ps[:len(ps)-1]...), StrL(last.name[:n]))
				end = hi
			}
		}
		if len(ps) != len(s.args) || off != Int(0) {
			return SubStr(Cat(ps...), Sub(lo, off), Sub(hi, off))
		}
		// peel prefix fully contained
		if lo == Int(0) {
			var pre []*Term
			o := Int(0)
			i := 0
			for i < len(ps) && Le(Add(o, Len(ps[i])), hi) == True {
				pre = append(pre, ps[i])
				o = Add(o, Len(ps[i]))
				i++
			}
			if i > 0 && i < len(ps) {
				return Cat(append(pre, SubStr(Cat(ps[i:]...), Int(0), Sub(hi, o)))...)
			}
			if i == len(ps) && o == hi {
				return Cat(pre...)
			}
		}
	}
	if s.op == OSub {
		return mk(OSub, SStr, "", nil, nil, nil, s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	}
	if s.op == OApp && s.name == "bytes2str" {
		return App("bytes2str", SStr, s.args[0], Add(s.args[1], lo), Sub(hi, lo))
	}
	return mk(OSub, SStr, "", nil, nil, nil, s, lo, hi)
}
func Unit(c *Term) *Term {
	if c.op == OInt {
		return StrL(string([]byte{byte(c.i.Int64())}))
	}
	return mk(OUnit, SStr, "", nil, nil, nil, c)
}

// ---- arrays

func Select(a, i *Term) *Term {
	for {
		if a.op == OStore {
			e := Eq(a.args[1], i)
			if e == True {
				return a.args[2]
			}
			if e == False || distinctRefs(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		break
	}
	if a.op == OConstArr {
		return a.args[0]
	}
	if a.op == OApp && a.name == "s2b" {
		return At(a.args[0], i)
	}
	if a.op == OIte {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	if a.op == OApp && a.name == "framed" {
		return selFramed(a, i)
	}
	if a.op == OStore && hasFramed(a) {
		return Ite(Eq(a.args[1], i), a.args[2], Select(a.args[0], i))
	}
	_, es := splitArr(a.sort)
	return mk(OSelect, es, "", nil, nil, nil, a, i)
}
func Store(a, i, v *Term) *Term {
	_, es := splitArr(a.sort)
	if es != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s (%s)", a.sort, v.sort, v))
	}
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk(OStore, a.sort, "", nil, nil, nil, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk(OConstArr, s, "", nil, nil, nil, v) }

// refs: alloc birth order. Fresh references are named ref!N and are distinct.
var distinctHook func(a, b *Term) bool

func distinctRefs(a, b *Term) bool {
	if distinctHook != nil && a.sort == SInt && distinctHook(a, b) {
		return true
	}
	return a.op == OVar && b.op == OVar && a != b && strings.HasPrefix(a.name, "newref!") && strings.HasPrefix(b.name, "newref!")
}

// ---- datatypes

type DT struct {
	name   string
	fields []Sort
}

var datatypes = map[Sort]*DT{}
var dtOrder []Sort

func MkDT(s Sort, args ...*Term) *Term {
	// eta: mk(sel0(x),sel1(x)...) = x
	if len(args) > 0 && args[0].op == OSel && args[0].name == "0" && args[0].args[0].sort == s {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if a.op != OSel || a.args[0] != x || a.name != strconv.Itoa(i) {
				ok = false
				break
			}
		}
		if ok && len(args) == len(datatypes[s].fields) {
			return x
		}
	}
	for i, a := range args {
		if a.sort != datatypes[s].fields[i] {
			panic(fmt.Sprintf("MkDT %s field %d: %s expected %s", s, i, a.sort, datatypes[s].fields[i]))
		}
	}
	return mk(OMk, s, string(s), nil, nil, nil, args...)
}
func SelDT(t *Term, i int) *Term {
	if t.op == OMk {
		return t.args[i]
	}
	if t.op == OIte {
		return Ite(t.args[0], SelDT(t.args[1], i), SelDT(t.args[2], i))
	}
	d := datatypes[t.sort]
	if d == nil {
		panic("SelDT on " + string(t.sort))
	}
	return mk(OSel, d.fields[i], strconv.Itoa(i), nil, nil, nil, t)
}

// ---- Any

var NilAny = Var("nilAny", SAny)
var typeTags = map[string]int{} // type key -> tag
var tagNames = []string{"nil"}

func TagOf(key string) int {
	if n, ok := typeTags[key]; ok {
		return n
	}
	n := len(tagNames)
	typeTags[key] = n
	tagNames = append(tagNames, key)
	return n
}

// boxSort remembers the payload sort for each tag.
var boxSort = map[int]Sort{}

func Box(tag int, v *Term) *Term {
	if v.op == OApp && v.name == fmt.Sprintf("unbox%d", tag) {
		// box(unbox(x)) is x only under tag(x)=tag; keep the box, axioms settle it
	}
	if s, ok := boxSort[tag]; ok && s != v.sort {
		panic(fmt.Sprintf("box sort clash for %s: %s vs %s", tagNames[tag], s, v.sort))
	}
	boxSort[tag] = v.sort
	return mk(OApp, SAny, fmt.Sprintf("box%d", tag), nil, nil, nil, v)
}
func Unbox(tag int, s Sort, a *Term) *Term {
	if o, ok := boxSort[tag]; ok && o != s {
		panic(fmt.Sprintf("unbox sort clash for %s: %s vs %s", tagNames[tag], o, s))
	}
	boxSort[tag] = s
	if a.op == OApp && a.name == fmt.Sprintf("box%d", tag) {
		return a.args[0]
	}
	if a.op == OIte {
		return Ite(a.args[0], Unbox(tag, s, a.args[1]), Unbox(tag, s, a.args[2]))
	}
	return mk(OApp, s, fmt.Sprintf("unbox%d", tag), nil, nil, nil, a)
}
func Tag(a *Term) *Term {
	if a == NilAny {
		return Int(0)
	}
	if a.op == OApp && strings.HasPrefix(a.name, "box") {
		n, _ := strconv.Atoi(a.name[3:])
		return Int(int64(n))
	}
	if a.op == OIte {
		return Ite(a.args[0], Tag(a.args[1]), Tag(a.args[2]))
	}
	return mk(OApp, SInt, "tag", nil, nil, nil, a)
}

// simpApp: simplifications for interpreted-by-axiom functions.
func simpApp(name string, s Sort, args []*Term) *Term {
	switch name {
	case "bytes2str":
		if args[2] == Int(0) {
			return StrL("")
		}
		if args[0].op == OApp && args[0].name == "s2b" {
			return SubStr(args[0].args[0], args[1], Add(args[1], args[2]))
		}
		if args[2].op == OInt && args[2].i.Int64() <= 16 {
			var ps []*Term
			for i := int64(0); i < args[2].i.Int64(); i++ {
				ps = append(ps, Unit(Select(args[0], Add(args[1], Int(i)))))
			}
			return Cat(ps...)
		}
	}
	return nil
}

// ---- quantifiers

func Forall(bv []*Term, body *Term, trig ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var used []*Term
	for _, v := range bv {
		if body.fb[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	if len(used) == 1 && len(trig) == 0 {
		// forall k. k = e => phi  (one-point rule)
		v := used[0]
		if body.op == OOr {
			for i, a := range body.args {
				if a.op == ONot && a.args[0].op == OEq && a.args[0].args[0].sort == v.sort {
					e := solveFor(a.args[0], v)
					if e != nil {
						var rest []*Term
						rest = append(rest, body.args[:i]...)
						rest = append(rest, body.args[i+1:]...)
						return Subst(Or(rest...), map[*Term]*Term{v: e})
					}
				}
			}
		}
	}
	if len(used) == 1 && len(trig) == 0 && used[0].sort == SInt {
		if c := shiftOf(body, used[0]); c != nil {
			// re-index so that a plain use of the variable can be a pattern
			nv := Bound("k", SInt)
			return Forall([]*Term{nv}, Subst(body, map[*Term]*Term{used[0]: Add(nv, c)}), trig...)
		}
	}
	// canonical names, so that equal formulas are the same term
	d := qDepth(body)
	m := map[*Term]*Term{}
	nb := make([]*Term, len(used))
	own := map[*Term]bool{}
	for _, v := range used {
		own[v] = true
	}
	for i, v := range used {
		for {
			d++
			c := mk(OBound, v.sort, fmt.Sprintf("q?%d", d), nil, nil, nil)
			if body.fb[c] && !own[c] {
				continue
			}
			nb[i] = c
			break
		}
		if nb[i] != v {
			m[v] = nb[i]
		}
	}
	if len(m) > 0 {
		for v := range m {
			for _, c := range nb {
				if c == v {
					// names overlap: go over unused ones
					tmp := map[*Term]*Term{}
					for j, u := range used {
						t := Bound("t", u.sort)
						tmp[u] = t
						used[j] = t
					}
					body = Subst(body, tmp)
					var tr [][]*Term
					for _, x := range trig {
						var y []*Term
						for _, z := range x {
							y = append(y, Subst(z, tmp))
						}
						tr = append(tr, y)
					}
					return Forall(used, body, tr...)
				}
			}
		}
		nbody := Subst(body, m)
		var tr [][]*Term
		for _, x := range trig {
			var y []*Term
			for _, z := range x {
				y = append(y, Subst(z, m))
			}
			tr = append(tr, y)
		}
		if qDepth(nbody) != qDepth(body) || nbody == True || nbody == False {
			return Forall(nb, nbody, tr...)
		}
		body, trig = nbody, tr
	}
	return mk(OForall, SBool, "", nil, nb, trig, body)
}

var qDepths = map[*Term]int{}

// qDepth is the highest number of a variable bound inside t.
func qDepth(t *Term) int {
	if len(t.args) == 0 || !hasQ(t) {
		return 0
	}
	if d, ok := qDepths[t]; ok {
		return d
	}
	d := 0
	for _, a := range t.args {
		if x := qDepth(a); x > d {
			d = x
		}
	}
	if t.op == OForall {
		for _, v := range t.bv {
			if strings.HasPrefix(v.name, "q?") {
				n, _ := strconv.Atoi(v.name[2:])
				if n > d {
					d = n
				}
			}
		}
	}
	qDepths[t] = d
	return d
}

var hasQs = map[*Term]bool{}

func hasQ(t *Term) bool {
	if t.op == OForall {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if b, ok := hasQs[t]; ok {
		return b
	}
	r := false
	for _, a := range t.args {
		if hasQ(a) {
			r = true
			break
		}
	}
	hasQs[t] = r
	return r
}

// shiftOf: the variable indexes texts or rows only with non-zero offsets.
func shiftOf(body, v *Term) *Term {
	var off *Term
	plain, other := false, false
	seen := map[*Term]bool{}
	var f func(x *Term)
	f = func(x *Term) {
		if seen[x] || !x.fb[v] {
			return
		}
		seen[x] = true
		if x.op == OAt || x.op == OSelect {
			i := x.args[1]
			if i == v {
				plain = true
			} else if i.fb[v] {
				d := Sub(i, v)
				if d.fb[v] || d.hasB {
					other = true
				} else if off == nil || d.op == OInt && off.op == OInt && d.i.Cmp(new(big.Int).Neg(off.i)) < 0 {
					off = Sub(Int(0), d)
				}
			}
		}
		for _, a := range x.args {
			f(a)
		}
	}
	f(body)
	if plain || other || off == nil {
		return nil
	}
	return off
}
func solveFor(eq, v *Term) *Term {
	a, b := eq.args[0], eq.args[1]
	if v.sort != SInt {
		if a == v && !b.fb[v] {
			return b
		}
		if b == v && !a.fb[v] {
			return a
		}
		return nil
	}
	l := toLin(Sub(a, b))
	k, ok := l.co[v]
	if !ok || !k.IsInt64() || (k.Int64() != 1 && k.Int64() != -1) {
		return nil
	}
	delete(l.co, v)
	r := fromLin(l)
	if r.fb[v] {
		return nil
	}
	if k.Int64() == 1 {
		return MulC(big.NewInt(-1), r)
	}
	return r
}
func Exists(bv []*Term, body *Term) *Term {
	return Not(Forall(bv, Not(body)))
}

// ---- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if t.op == OForall && anyBound(m) {
			touched := false
			for v := range m {
				if v.op != OBound || t.fb[v] {
					touched = true
				}
			}
			if !touched {
				return t
			}
			for _, b := range t.bv {
				if _, ok := m[b]; ok {
					// the inner variable hides the outer one
					m2 := map[*Term]*Term{}
					for k, v := range m {
						if k != b {
							m2[k] = v
						}
					}
					return Subst(t, m2)
				}
			}
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}
func anyBound(m map[*Term]*Term) bool {
	for v := range m {
		if v.op == OBound {
			return true
		}
	}
	return false
}
func rebuild(t *Term, a []*Term, f func(*Term) *Term) *Term {
	switch t.op {
	case OApp:
		if strings.HasPrefix(t.name, "unbox") {
			n, _ := strconv.Atoi(t.name[5:])
			return Unbox(n, t.sort, a[0])
		}
		if t.name == "tag" {
			return Tag(a[0])
		}
		return App(t.name, t.sort, a...)
	case OAdd:
		return Add(a...)
	case OMulC:
		return MulC(t.i, a[0])
	case OMul:
		return Mul(a[0], a[1])
	case OLe0:
		return Le(a[0], Int(0))
	case OEq:
		return Eq(a[0], a[1])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OForall:
		var tr [][]*Term
		for _, x := range t.trig {
			var y []*Term
			for _, z := range x {
				y = append(y, f(z))
			}
			tr = append(tr, y)
		}
		return Forall(t.bv, a[0], tr...)
	case OCat:
		return Cat(a...)
	case OLen:
		return Len(a[0])
	case OAt:
		return At(a[0], a[1])
	case OSub:
		return SubStr(a[0], a[1], a[2])
	case OUnit:
		return Unit(a[0])
	case OMk:
		return MkDT(t.sort, a...)
	case OSel:
		n, _ := strconv.Atoi(t.name)
		return SelDT(a[0], n)
	case OConstArr:
		return ConstArr(t.sort, a[0])
	}
	panic(fmt.Sprintf("rebuild op %d", t.op))
}

func (t *Term) String() string { return termStr(t, 6) }
func termStr(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OVar, OBound:
		return t.name
	case OInt:
		return t.i.String()
	case OBoolL:
		return t.name
	case OStrL:
		return strconv.Quote(t.name)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, termStr(a, d-1))
	}
	nm := map[Op]string{OAdd: "+", OMulC: "*", OLe0: "<=0", OEq: "=", ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OSelect: "select", OStore: "store", OForall: "forall", OCat: "++", OLen: "len", OAt: "at", OSub: "sub", OUnit: "unit", OMk: "mk", OSel: "sel", OConstArr: "const", OMul: "mul"}[t.op]
	switch t.op {
	case OApp, OMk:
		nm = t.name
	case OSel:
		nm = "." + t.name
	case OMulC:
		as = append(as, t.i.String())
	case OForall:
		for _, b := range t.bv {
			nm += " " + b.name
		}
	}
	return "(" + nm + " " + strings.Join(as, " ") + ")"
}
