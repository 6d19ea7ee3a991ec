package main

// SMT-LIB output and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type smtMode int

const (
	modeAxiom smtMode = iota
	modeTheory
)

func q(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$') {
			return "|" + strings.ReplaceAll(n, "|", "_") + "|"
		}
	}
	return n
}

type printer struct {
	rows    []*Term
	cards   []Sort
	rowSeen map[*Term]bool
	keyed   []*Term // heaps of key sets
	mode    smtMode
	out     bytes.Buffer
	decl    map[string]bool
	lits    map[string]string
	sorts   map[Sort]bool
	boxes   map[int]bool
	uses    map[string]bool
	eqs     map[*Term]bool
	heads   bytes.Buffer
	axioms  bytes.Buffer
	seen    map[*Term]bool
	dts     []Sort
	dtSeen  map[Sort]bool
	defs    bytes.Buffer
	letN    map[*Term]string
}

func (p *printer) sort(s Sort) string {
	switch s {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	case SStr:
		if p.mode == modeTheory {
			return "String"
		}
		return "Str"
	case SAny, SFloat:
		return string(s)
	}
	if strings.HasPrefix(string(s), "(Array ") {
		k, e := splitArr(s)
		return "(Array " + p.sort(k) + " " + p.sort(e) + ")"
	}
	if d, ok := datatypes[s]; ok {
		if !p.dtSeen[s] {
			p.dtSeen[s] = true
			for _, f := range d.fields {
				p.sort(f)
			}
			p.dts = append(p.dts, s)
		}
		return q("T_" + string(s))
	}
	if !p.sorts[s] {
		p.sorts[s] = true
	}
	return q(string(s))
}

// visit declares everything a term needs.
func (p *printer) visit(t *Term) {
	if p.seen[t] {
		return
	}
	p.seen[t] = true
	p.sort(t.sort)
	for _, a := range t.args {
		p.visit(a)
	}
	for _, b := range t.bv {
		p.sort(b.sort)
	}
	for _, tr := range t.trig {
		for _, a := range tr {
			p.visit(a)
		}
	}
	if t.op == OApp && t.name == "bytes2str" && !t.args[0].hasB && !p.rowSeen[t.args[0]] {
		p.rowSeen[t.args[0]] = true
		p.rows = append(p.rows, t.args[0])
	}
	switch t.op {
	case OVar:
		if !p.decl[t.name] {
			p.decl[t.name] = true
			fmt.Fprintf(&p.heads, "(declare-const %s %s)\n", q(t.name), p.sort(t.sort))
			if strings.Contains(t.name, ":MD:") {
				p.keyed = append(p.keyed, t)
			}
		}
	case OApp:
		if t.name == "rem" || t.name == "quo" {
			break
		}
		if t.name == "mapcard" {
			if so := t.args[0].sort; !p.decl["c:"+string(so)] {
				p.decl["c:"+string(so)] = true
				p.cards = append(p.cards, so)
				ps := p.sort(so)
				ke, _ := splitArr(so)
				pk := p.sort(ke)
				n := q("mapcard:" + string(so))
				fmt.Fprintf(&p.heads, "(declare-fun %s (%s) Int)\n(declare-fun %s (%s) %s)\n(declare-fun %s (%s) Bool)\n", n, ps, q("mapwit:"+string(so)), ps, pk, q("mapfin:"+string(so)), ps)
			}
			break
		}
		if !p.decl["f:"+t.name] {
			p.decl["f:"+t.name] = true
			var as []string
			for _, a := range t.args {
				as = append(as, p.sort(a.sort))
			}
			fmt.Fprintf(&p.heads, "(declare-fun %s (%s) %s)\n", q(t.name), strings.Join(as, " "), p.sort(t.sort))
			if strings.HasPrefix(t.name, "box") {
				if n, err := strconv.Atoi(t.name[3:]); err == nil {
					p.boxes[n] = true
				}
			}
			if strings.HasPrefix(t.name, "unbox") {
				if n, err := strconv.Atoi(t.name[5:]); err == nil {
					p.boxes[n] = true
				}
			}
			p.uses[t.name] = true
		}
	case OStrL:
		if p.mode == modeAxiom {
			if _, ok := p.lits[t.name]; !ok {
				p.lits[t.name] = fmt.Sprintf("lit!%d", len(p.lits))
			}
		}
	case OEq:
		if t.args[0].sort == SStr && !t.hasB {
			p.eqs[t] = true
		}
	case OCat, OLen, OAt, OSub, OUnit:
		p.uses["str"] = true
	}
	if t.sort == SStr {
		p.uses["str"] = true
	}
	if t.sort == SAny {
		p.uses["any"] = true
	}
}

func smtInt(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

// closed renders a ground term without shared names.
func (p *printer) closed(t *Term) string {
	l := p.letN
	p.letN = map[*Term]string{}
	defer func() { p.letN = l }()
	return p.term(t)
}

func (p *printer) term(t *Term) string {
	if n, ok := p.letN[t]; ok {
		return n
	}
	return p.term0(t)
}
func (p *printer) term0(t *Term) string {
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = p.term(a)
	}
	j := strings.Join(as, " ")
	switch t.op {
	case OVar, OBound:
		return q(t.name)
	case OInt:
		return smtInt(t.i.String())
	case OBoolL:
		return t.name
	case OStrL:
		if p.mode == modeTheory {
			var b strings.Builder
			b.WriteByte('"')
			for i := 0; i < len(t.name); i++ {
				c := t.name[i]
				if c >= 32 && c < 127 && c != '"' && c != '\\' {
					b.WriteByte(c)
				} else {
					fmt.Fprintf(&b, "\\u{%x}", c)
				}
			}
			b.WriteByte('"')
			return b.String()
		}
		return p.lits[t.name]
	case OApp:
		if t.name == "rem" || t.name == "quo" {
			f := map[string]string{"rem": "mod", "quo": "div"}[t.name]
			return fmt.Sprintf("(ite (>= %s 0) (%s %s %s) (- (%s (- %s) %s)))", as[0], f, as[0], as[1], f, as[0], as[1])
		}
		if t.name == "mapcard" {
			return "(" + q("mapcard:"+string(t.args[0].sort)) + " " + j + ")"
		}
		if len(as) == 0 {
			return q(t.name)
		}
		return "(" + q(t.name) + " " + j + ")"
	case OAdd:
		return "(+ " + j + ")"
	case OMulC:
		return "(* " + smtInt(t.i.String()) + " " + j + ")"
	case OMul:
		return "(* " + j + ")"
	case OLe0:
		return "(<= " + j + " 0)"
	case OEq:
		return "(= " + j + ")"
	case ONot:
		return "(not " + j + ")"
	case OAnd:
		return "(and " + j + ")"
	case OOr:
		return "(or " + j + ")"
	case OIte:
		return "(ite " + j + ")"
	case OSelect:
		return "(select " + j + ")"
	case OStore:
		return "(store " + j + ")"
	case OConstArr:
		return "((as const " + p.sort(t.sort) + ") " + j + ")"
	case OForall:
		var bs []string
		for _, b := range t.bv {
			bs = append(bs, "("+q(b.name)+" "+p.sort(b.sort)+")")
		}
		body := as[0]
		trigs := t.trig
		if len(trigs) == 0 {
			trigs = autoTrig(t)
		}
		if len(trigs) > 0 {
			body = "(! " + body
			for _, tr := range trigs {
				var ts []string
				for _, x := range tr {
					ts = append(ts, p.term(x))
				}
				body += " :pattern (" + strings.Join(ts, " ") + ")"
			}
			body += ")"
		}
		return "(forall (" + strings.Join(bs, " ") + ") " + body + ")"
	case OCat:
		if p.mode == modeTheory {
			return "(str.++ " + j + ")"
		}
		r := as[len(as)-1]
		for i := len(as) - 2; i >= 0; i-- {
			r = "(scat " + as[i] + " " + r + ")"
		}
		return r
	case OLen:
		if p.mode == modeTheory {
			return "(str.len " + j + ")"
		}
		return "(slen " + j + ")"
	case OAt:
		if p.mode == modeTheory {
			return "(str.to_code (str.at " + j + "))"
		}
		return "(sat " + j + ")"
	case OSub:
		if p.mode == modeTheory {
			return "(str.substr " + as[0] + " " + as[1] + " (- " + as[2] + " " + as[1] + "))"
		}
		return "(ssub " + j + ")"
	case OUnit:
		if p.mode == modeTheory {
			return "(str.from_code " + j + ")"
		}
		return "(sunit " + j + ")"
	case OMk:
		if len(as) == 0 {
			return q("mk_" + t.name)
		}
		return "(" + q("mk_"+t.name) + " " + j + ")"
	case OSel:
		return "(" + q("s"+t.name+"_"+string(t.args[0].sort)) + " " + j + ")"
	}
	panic("term0")
}

// autoTrig picks patterns: smallest subterms headed by select/at/app that
// contain all bound variables and no interpreted arithmetic on them alone.
func autoTrig(t *Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	var ok func(x *Term) bool
	ok = func(x *Term) bool { // no boolean structure / ite / quantifier inside
		switch x.op {
		case OAnd, OOr, ONot, OLe0, OEq, OIte, OForall, OStore, OConstArr:
			return !x.hasB || x.op == OStore && false
		case OApp:
			if x.name == "rem" || x.name == "quo" {
				return !x.hasB
			}
		}
		for _, a := range x.args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || !x.hasB {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			walk(a)
		}
		if (x.op == OSelect || x.op == OAt || x.op == OApp && x.name != "tag" && !strings.HasPrefix(x.name, "unbox") && !strings.HasPrefix(x.name, "box")) && ok(x) {
			all := true
			for _, b := range t.bv {
				if !x.fb[b] {
					all = false
				}
			}
			if all {
				cands = append(cands, x)
			}
		}
	}
	walk(t.args[0])
	// drop candidates containing another candidate
	var res [][]*Term
	contains := func(x, y *Term) bool {
		var f func(z *Term) bool
		f = func(z *Term) bool {
			if z == y {
				return true
			}
			for _, a := range z.args {
				if f(a) {
					return true
				}
			}
			return false
		}
		return x != y && f(x)
	}
	for _, c := range cands {
		min := true
		for _, d := range cands {
			if contains(c, d) {
				min = false
			}
		}
		if min {
			res = append(res, []*Term{c})
		}
	}
	if len(res) > 6 {
		res = res[:6]
	}
	return res
}

func (p *printer) preamble() string {
	var b bytes.Buffer
	if p.mode == modeAxiom {
		b.WriteString("(declare-sort Str 0)\n")
	}
	b.WriteString("(declare-sort Any 0)\n(declare-sort F64 0)\n")
	var ss []string
	for s := range p.sorts {
		ss = append(ss, string(s))
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", q(s))
	}
	for _, s := range p.dts {
		d := datatypes[s]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", q("T_"+string(s)), q("mk_"+string(s)))
		for i, f := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", q("s"+strconv.Itoa(i)+"_"+string(s)), p.sort(f))
		}
		b.WriteString("))))\n")
	}
	if p.mode == modeAxiom && p.uses["str"] {
		b.WriteString(`(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun sunit (Int) Str)
(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen a))) (= (sat (scat a b) i) (sat a i))) :pattern ((sat (scat a b) i)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= (slen a) i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))
(assert (forall ((a Str) (b Str)) (! (=> (= (slen a) 0) (= (scat a b) b)) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str)) (! (=> (= (slen b) 0) (= (scat a b) a)) :pattern ((scat a b)))))
(assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s))) (= (slen (ssub s l h)) (- h l))) :pattern ((ssub s l h)))))
(assert (forall ((s Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s)) (<= 0 i) (< i (- h l))) (= (sat (ssub s l h) i) (sat s (+ l i)))) :pattern ((sat (ssub s l h) i)))))
(assert (forall ((s Str) (h Int)) (! (=> (= h (slen s)) (= (ssub s 0 h) s)) :pattern ((ssub s 0 h)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat a (scat b c)) (scat (scat a b) c)) :pattern ((scat a (scat b c))))))
(assert (forall ((s Str) (l Int) (m Int) (h Int)) (! (=> (and (<= 0 l) (<= l m) (<= m h) (<= h (slen s))) (= (scat (ssub s l m) (ssub s m h)) (ssub s l h))) :pattern ((scat (ssub s l m) (ssub s m h))))))
(assert (forall ((c Int)) (! (= (slen (sunit c)) 1) :pattern ((sunit c)))))
(assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (= h (+ l 1)) (<= h (slen s))) (= (ssub s l h) (sunit (sat s l)))) :pattern ((ssub s l h)))))
(assert (forall ((c Int)) (! (=> (and (<= 0 c) (<= c 255)) (= (sat (sunit c) 0) c)) :pattern ((sunit c)))))
`)
		var ls []string
		for l := range p.lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			n := p.lits[l]
			fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(l))
			for i := 0; i < len(l) && i < 40; i++ {
				fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", n, i, l[i])
			}
			if len(l) == 1 {
				fmt.Fprintf(&b, "(assert (= %s (sunit %d)))\n", n, l[0])
			}
		}
		if len(ls) > 1 {
			b.WriteString("(assert (distinct")
			for _, l := range ls {
				b.WriteString(" " + p.lits[l])
			}
			b.WriteString("))\n")
		}
	}
	return b.String()
}

func (p *printer) post() string {
	var b bytes.Buffer
	for _, so := range p.cards {
		ke, _ := splitArr(so)
		as, ks := p.sort(so), p.sort(ke)
		c, w := q("mapcard:"+string(so)), q("mapwit:"+string(so))
		fmt.Fprintf(&b, "(assert (forall ((a %s)) (! (and (>= (%s a) 0) (=> (> (%s a) 0) (select a (%s a)))) :pattern ((%s a)))))\n", as, c, c, w, c)
		fmt.Fprintf(&b, "(assert (forall ((a %s) (k %s)) (! (=> (select a k) (> (%s a) 0)) :pattern ((%s a) (select a k)))))\n", as, ks, c, c)
		// only a finite set of keys has a size to count with
		fi := q("mapfin:" + string(so))
		fmt.Fprintf(&b, "(assert (forall ((a %s) (k %s)) (! (=> (%s a) (= (%s (store a k true)) (+ (%s a) (ite (select a k) 0 1)))) :pattern ((%s (store a k true))))))\n", as, ks, fi, c, c, c)
		fmt.Fprintf(&b, "(assert (forall ((a %s) (k %s)) (! (=> (%s a) (= (%s (store a k false)) (- (%s a) (ite (select a k) 1 0)))) :pattern ((%s (store a k false))))))\n", as, ks, fi, c, c, c)
		for _, v := range []string{"true", "false"} {
			fmt.Fprintf(&b, "(assert (forall ((a %s) (k %s)) (! (= (%s (store a k %s)) (%s a)) :pattern ((%s (store a k %s))))))\n", as, ks, fi, v, fi, fi, v)
		}
		fmt.Fprintf(&b, "(assert (%s ((as const %s) false)))\n", fi, as)
		for _, h := range p.keyed {
			if i, e := splitArr(h.sort); e == so {
				fmt.Fprintf(&b, "(assert (forall ((m %s)) (! (%s (select %s m)) :pattern ((select %s m)))))\n", p.sort(i), fi, q(h.name), q(h.name))
			}
		}
		fmt.Fprintf(&b, "(assert (= (%s ((as const %s) false)) 0))\n", c, as)
	}
	if p.uses["bytes2str"] {
		if p.mode == modeAxiom {
			b.WriteString(`(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (bytes2str a o n)) n)) :pattern ((bytes2str a o n)))))
(declare-fun isbytes ((Array Int Int)) Bool)
(assert (forall ((a (Array Int Int)) (i Int)) (! (=> (isbytes a) (and (<= 0 (select a i)) (<= (select a i) 255))) :pattern ((isbytes a) (select a i)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (isbytes a) (<= 0 i) (< i n)) (= (sat (bytes2str a o n) i) (select a (+ o i)))) :pattern ((sat (bytes2str a o n) i)))))
(assert (forall ((a (Array Int Int)) (o Int)) (! (=> (isbytes a) (= (bytes2str a o 1) (sunit (select a o)))) :pattern ((bytes2str a o 1)))))
`)
			b.WriteString(`(assert (forall ((a (Array Int Int)) (i Int) (v Int) (o Int) (n Int)) (! (=> (and (<= o i) (< i (+ o n))) (= (bytes2str (store a i v) o n) (scat (bytes2str a o (- i o)) (scat (sunit v) (bytes2str a (+ i 1) (- (+ o n) (+ i 1))))))) :pattern ((bytes2str (store a i v) o n)))))
`)
			if p.uses["s2b"] {
				b.WriteString(`(assert (forall ((s Str) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (slen s))) (= (bytes2str (s2b s) o n) (ssub s o (+ o n)))) :pattern ((bytes2str (s2b s) o n)))))
`)
			}
			for _, t := range p.rows {
				fmt.Fprintf(&b, "(assert (isbytes %s))\n", p.closed(t))
			}
			b.WriteString(`(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (and (isbytes a) (= n 1)) (= (bytes2str a o n) (sunit (select a o)))) :pattern ((bytes2str a o n)))))
`)
		} else {
			b.WriteString(`(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (str.len (bytes2str a o n)) n)) :pattern ((bytes2str a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select a (+ o i))) (<= (select a (+ o i)) 255)) (= (str.to_code (str.at (bytes2str a o n) i)) (select a (+ o i)))) :pattern ((str.at (bytes2str a o n) i)))))
`)
		}
	}
	if p.uses["s2b"] {
		if p.mode == modeAxiom {
			b.WriteString("(assert (forall ((s Str) (i Int)) (! (= (select (s2b s) i) (sat s i)) :pattern ((select (s2b s) i)))))\n")
		} else {
			b.WriteString("(assert (forall ((s String) (i Int)) (! (= (select (s2b s) i) (str.to_code (str.at s i))) :pattern ((select (s2b s) i)))))\n")
		}
	}
	if p.uses["tag"] {
		b.WriteString("(assert (forall ((a Any)) (! (>= (tag a) 0) :pattern ((tag a)))))\n")
		if p.decl["nilAny"] {
			b.WriteString("(assert (= (tag nilAny) 0))\n(assert (forall ((a Any)) (! (=> (= (tag a) 0) (= a nilAny)) :pattern ((tag a)))))\n")
		}
	}
	var ns []int
	for n := range p.boxes {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		s := p.sort(boxSort[n])
		bx, ub := fmt.Sprintf("box%d", n), fmt.Sprintf("unbox%d", n)
		if !p.decl["f:"+bx] {
			continue
		}
		if p.decl["f:"+ub] {
			fmt.Fprintf(&b, "(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))\n", s, ub, bx, bx)
		}
		if p.decl["f:tag"] {
			fmt.Fprintf(&b, "(assert (forall ((x %s)) (! (= (tag (%s x)) %d) :pattern ((%s x)))))\n", s, bx, n, bx)
			if p.decl["f:"+ub] {
				fmt.Fprintf(&b, "(assert (forall ((a Any)) (! (=> (= (tag a) %d) (= (%s (%s a)) a)) :pattern ((%s a)))))\n", n, bx, ub, ub)
			}
		}
	}
	return b.String()
}

// shifted applies shiftQ to a query; ok reports whether anything changed.
func shifted(assume []*Term, goal *Term) (as []*Term, g *Term, ok bool) {
	memo := map[*Term]*Term{}
	as = make([]*Term, len(assume))
	for i, a := range assume {
		as[i] = shiftQ(a, memo)
		ok = ok || as[i] != a
	}
	g = shiftQ(goal, memo)
	return as, g, ok || g != goal
}

// query renders assumptions and the negated goal.
func query(assume []*Term, goal *Term, mode smtMode) string {
	p := &printer{mode: mode, decl: map[string]bool{}, lits: map[string]string{}, sorts: map[Sort]bool{}, boxes: map[int]bool{}, uses: map[string]bool{}, eqs: map[*Term]bool{}, seen: map[*Term]bool{}, dtSeen: map[Sort]bool{}, letN: map[*Term]string{}, rowSeen: map[*Term]bool{}}
	all := append([]*Term{}, assume...)
	ng := Not(goal)
	all = append(all, ng)
	for _, t := range all {
		p.visit(t)
	}
	if len(p.boxes) > 0 {
		// make both directions available
		for n := range p.boxes {
			if !p.decl[fmt.Sprintf("f:unbox%d", n)] && p.decl["f:tag"] {
				continue
			}
			if !p.decl[fmt.Sprintf("f:box%d", n)] {
				p.decl[fmt.Sprintf("f:box%d", n)] = true
				fmt.Fprintf(&p.heads, "(declare-fun box%d (%s) Any)\n", n, p.sort(boxSort[n]))
			}
		}
		if !p.decl["f:tag"] {
			p.decl["f:tag"] = true
			p.uses["tag"] = true
			p.heads.WriteString("(declare-fun tag (Any) Int)\n")
		}
	}
	// share ground subterms used more than once
	cnt := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			count(a)
		}
		for _, tr := range t.trig {
			for _, a := range tr {
				count(a)
			}
		}
	}
	for _, t := range all {
		count(t)
	}
	var body bytes.Buffer
	done := map[*Term]bool{}
	var def func(t *Term)
	named := map[*Term]bool{}
	inter := map[*Term]bool{}
	var hasInter func(t *Term) bool // holds a symbol solvers refuse in patterns
	hasInter = func(t *Term) bool {
		if r, ok := inter[t]; ok {
			return r
		}
		r := false
		switch t.op {
		case OAnd, OOr, ONot, OLe0, OEq, OIte, OForall:
			r = true
		default:
			r = t.op == OApp && (t.name == "rem" || t.name == "quo")
			for _, a := range t.args {
				if hasInter(a) {
					r = true
				}
			}
		}
		inter[t] = r
		return r
	}
	var nameInTrig func(t *Term)
	nameInTrig = func(t *Term) {
		if !t.hasB {
			if hasInter(t) && !named[t] {
				def(t)
				n := fmt.Sprintf("n!%d", t.id)
				fmt.Fprintf(&body, "(declare-const %s %s)\n(assert (= %s %s))\n", n, p.sort(t.sort), n, p.term(t))
				p.letN[t] = n
				named[t] = true
			}
			return
		}
		for _, a := range t.args {
			nameInTrig(a)
		}
	}
	// nameQ gives the ground quantified formulas below an equation or a
	// conditional a name, with a witness for the case that they fail.
	var nameQ func(t *Term)
	nameQ = func(t *Term) {
		switch t.op {
		case OAnd, OOr, ONot:
			for _, a := range t.args {
				nameQ(a)
			}
		case OForall:
			if t.hasB || named[t] {
				return
			}
			named[t] = true
			n := fmt.Sprintf("q!%d", t.id)
			sk := map[*Term]*Term{}
			for _, b := range t.bv {
				sk[b] = Fresh("w", b.sort)
				p.visit(sk[b])
			}
			in := Subst(t.args[0], sk)
			p.visit(in)
			def(in)
			fmt.Fprintf(&body, "(declare-const %s Bool)\n(assert (=> %s %s))\n(assert (or %s (not %s)))\n", n, n, p.term(t), n, p.term(in))
			p.letN[t] = n
		}
	}
	def = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		for _, a := range t.args {
			def(a)
		}
		if !t.hasB && (t.op == OIte || t.op == OEq && t.args[0].sort == SBool) {
			for _, a := range t.args {
				if a.sort == SBool {
					nameQ(a)
				}
			}
		}
		for _, tr := range t.trig {
			for _, a := range tr {
				def(a)
			}
		}
		if t.op == OForall {
			trigs := t.trig
			if len(trigs) == 0 {
				trigs = autoTrig(t)
			}
			for _, tr := range trigs {
				for _, a := range tr {
					nameInTrig(a)
				}
			}
		}
		if t.op == OConstArr && !t.hasB && !isValue(t.args[0]) {
			n := fmt.Sprintf("ca!%d", t.id)
			k, _ := splitArr(t.sort)
			fmt.Fprintf(&body, "(declare-const %s %s)\n(assert (forall ((k %s)) (! (= (select %s k) %s) :pattern ((select %s k)))))\n", n, p.sort(t.sort), p.sort(k), n, p.term(t.args[0]), n)
			p.letN[t] = n
			return
		}
		if cnt[t] > 1 && len(t.args) > 0 && !t.hasB && t.op != OForall {
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), p.term0(t))
			p.letN[t] = n
		}
	}
	for _, t := range all {
		def(t)
		fmt.Fprintf(&body, "(assert %s)\n", p.term(t))
	}
	if mode == modeAxiom {
		// an equation asserted on its own needs no witness of a difference
		unit := map[*Term]bool{}
		for _, t := range all {
			if t.op == OEq {
				unit[t] = true
			}
		}
		var es []*Term
		for e := range p.eqs {
			if unit[e] {
				continue
			}
			es = append(es, e)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
		for i, e := range es {
			a, b := p.term(e.args[0]), p.term(e.args[1])
			w := fmt.Sprintf("ext!%d", i)
			fmt.Fprintf(&body, "(declare-const %s Int)\n(assert (or (= %s %s) (not (= (slen %s) (slen %s))) (and (<= 0 %s) (< %s (slen %s)) (not (= (sat %s %s) (sat %s %s))))))\n", w, a, b, a, b, w, w, a, a, w, b, w)
		}
	}
	hdr := "(set-logic ALL)\n"
	return hdr + p.preamble() + p.heads.String() + p.post() + body.String() + "(check-sat)\n"
}

// isValue: a literal, or a structure of literals.
func isValue(t *Term) bool {
	switch t.op {
	case OInt, OBoolL:
		return true
	case OMk:
		for _, a := range t.args {
			if !isValue(a) {
				return false
			}
		}
		return true
	}
	return false
}

type solverRes struct {
	verdict string // unsat sat unknown
	solver  string
	ms      float64
}

var tmpDir string
var queryNo int64
var solverSem = make(chan struct{}, 8)
var statMu sync.Mutex
var solverMs = map[string]float64{}
var solverCalls = map[string]int{}
var keepQueries bool

func runOne(ctx context.Context, name string, args []string, file string) string {
	cmd := exec.CommandContext(ctx, name, append(args, file)...)
	out, _ := cmd.CombinedOutput()
	s := strings.TrimSpace(string(out))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		if strings.HasPrefix(s, "(error") && os.Getenv("GVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SMT error:", file, s[:i])
		}
		// first verdict line
		for _, l := range strings.Split(s, "\n") {
			if l == "unsat" || l == "sat" || l == "unknown" {
				if strings.Contains(s, "(error") && l == "unsat" {
					return "unknown" // never trust a query with an error in it
				}
				return l
			}
		}
	}
	if strings.Contains(s, "(error") {
		if os.Getenv("GVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SMT error:", file, s)
		}
		return "unknown"
	}
	return s
}

var z3fast = []string{"-smt2", "smt.mbqi=false", "smt.auto_config=false", "smt.case_split=3", "smt.qi.eager_threshold=100"}

// prepQuick renders a query for the search solver, nil when it is trivially valid,
// and a second form with shifted indices where that differs.
// Terms are not safe for concurrent use, so rendering happens on the caller's side.
func prepQuick(assume []*Term, goal *Term) []string {
	assume, goal = skolem(assume, goal)
	if goal == True {
		return nil
	}
	for _, a := range assume {
		if a == False || a == goal {
			return nil
		}
	}
	r := []string{query(assume, goal, modeAxiom)}
	if as, g, ok := shifted(assume, goal); ok {
		r = append(r, query(as, g, modeAxiom))
	}
	return r
}

// runQuick is the single-solver decision used for invariant search.
func runQuick(txts []string, ms int) bool {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	hard := ms > 1000 // a hint: worth more than one solver
	wall := 6 * ms
	if hard {
		wall = 4 * ms
	}
	// the limit is one of work, not of time, so that a busy machine decides alike
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(wall+500)*time.Millisecond)
	defer cancel()
	lim := fmt.Sprintf("rlimit=%d", 2000*ms)
	var wg sync.WaitGroup
	var won atomic.Bool
	run := func(after time.Duration, name, bin string, args []string, f string) {
		if after > 0 {
			select {
			case <-time.After(after):
			case <-ctx.Done():
				return
			}
		}
		if ctx.Err() != nil {
			return
		}
		t0 := time.Now()
		if runOne(ctx, bin, args, f) == "unsat" {
			won.Store(true)
			cancel()
		}
		statMu.Lock()
		solverMs[name] += float64(time.Since(t0).Microseconds()) / 1000
		solverCalls[name]++
		statMu.Unlock()
	}
	for _, txt := range txts {
		f := filepath.Join(tmpDir, fmt.Sprintf("q%d.smt2", atomic.AddInt64(&queryNo, 1)))
		os.WriteFile(f, []byte(txt), 0o644)
		if !keepQueries {
			defer os.Remove(f)
		}
		fast := append(append([]string{}, z3fast...), fmt.Sprintf("-t:%d", wall), lim)
		if !hard {
			run(0, "z3-new(search)", "z3-new", fast, f)
			break
		}
		wg.Add(2)
		go func() {
			defer wg.Done()
			run(0, "z3-new(search)", "z3-new", fast, f)
			run(0, "z3-new(search)", "z3-new", []string{"-smt2", fmt.Sprintf("-t:%d", wall), lim}, f)
		}()
		go func() {
			defer wg.Done()
			// only for what z3 does not settle at once
			run(700*time.Millisecond, "cvc5(search)", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", 2*ms)}, f)
		}()
	}
	wg.Wait()
	return won.Load()
}

type prepared struct {
	trivial     bool
	ax, th, shi string
}

// skolem replaces a universally quantified goal by one about fresh constants.
func skolem(assume []*Term, goal *Term) ([]*Term, *Term) {
	as := append([]*Term{}, assume...)
	for n := 0; n < 8; n++ {
		if goal.op == OOr {
			var fa *Term
			for _, a := range goal.args {
				if a.op == OForall {
					fa = a
				}
			}
			if fa == nil && n == 0 {
				break
			}
			var rest []*Term
			for _, a := range goal.args {
				if a == fa {
					continue
				}
				if fa == nil && a.op != ONot {
					rest = append(rest, a)
					continue
				}
				na := Not(a)
				if na.op == OAnd {
					as = append(as, na.args...)
				} else {
					as = append(as, na)
				}
			}
			if fa != nil {
				goal = fa
			} else {
				g := Or(rest...)
				if g == goal {
					break
				}
				goal = g
			}
			continue
		}
		if goal.op != OForall {
			break
		}
		m := map[*Term]*Term{}
		for _, v := range goal.bv {
			m[v] = Fresh("sk", v.sort)
		}
		goal = Subst(goal.args[0], m)
	}
	return as, goal
}

func prep(assume []*Term, goal *Term) prepared {
	assume, goal = skolem(assume, goal)
	if goal == True {
		return prepared{trivial: true}
	}
	for _, a := range assume {
		if a == False || a == goal {
			return prepared{trivial: true}
		}
	}
	if os.Getenv("GVC_NOSIMP") == "" {
		assume, goal = simplifyUnder(assume, goal)
		if goal == True {
			return prepared{trivial: true}
		}
		for _, a := range assume {
			if a == False || a == goal {
				return prepared{trivial: true}
			}
		}
	}
	r := prepared{ax: query(assume, goal, modeAxiom), th: query(assume, goal, modeTheory)}
	if as, g, ok := shifted(assume, goal); ok {
		r.shi = query(as, g, modeAxiom)
	}
	return r
}

// revAxiom carries characters of a text over to its substrings.
const revAxiom = "(assert (forall ((s Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l i) (< i h) (<= h (slen s))) (= (sat (ssub s l h) (- i l)) (sat s i))) :pattern ((ssub s l h) (sat s i)))))\n"

// solve runs the portfolio.
func solve(pq prepared, ms int) (solverRes, string) {
	if pq.trivial {
		return solverRes{"unsat", "simplifier", 0}, ""
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	n := atomic.AddInt64(&queryNo, 1)
	fa := filepath.Join(tmpDir, fmt.Sprintf("o%d_ax.smt2", n))
	ft := filepath.Join(tmpDir, fmt.Sprintf("o%d_th.smt2", n))
	os.WriteFile(fa, []byte(pq.ax), 0o644)
	os.WriteFile(ft, []byte(pq.th), 0o644)
	clean := func() {
		if !keepQueries {
			os.Remove(fa)
			os.Remove(ft)
		}
	}
	t0 := time.Now()
	el := func() float64 { return float64(time.Since(t0).Microseconds()) / 1000 }
	acct := func(s string, r string) {
		statMu.Lock()
		solverMs[s] += el()
		solverCalls[s]++
		statMu.Unlock()
	}
	first := 1500
	if first > ms {
		first = ms
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(first+500)*time.Millisecond)
	r := runOne(ctx, "z3-new", append(z3fast, fmt.Sprintf("-t:%d", first)), fa)
	cancel()
	acct("z3-new", r)
	if r == "unsat" {
		clean()
		return solverRes{"unsat", "z3-new", el()}, fa
	}
	type rr struct{ v, s string }
	ch := make(chan rr, 12)
	ctx, cancel = context.WithTimeout(context.Background(), time.Duration(ms+500)*time.Millisecond)
	defer cancel()
	type job struct {
		label, name string
		args        []string
		file        string
	}
	jobs := []job{
		{"z3-new-mbqi", "z3-new", []string{"-smt2", fmt.Sprintf("-t:%d", ms)}, fa},
		{"z3-new-strings", "z3-new", []string{"-smt2", fmt.Sprintf("-t:%d", ms)}, ft},
		{"z3-new", "z3-new", append(append([]string{}, z3fast...), fmt.Sprintf("-t:%d", ms)), fa},
		{"cvc5", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}, fa},
		{"cvc5-strings", "cvc5", []string{"--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms)}, ft},
	}
	if strings.Contains(pq.ax, "(ssub ") {
		fr := filepath.Join(tmpDir, fmt.Sprintf("o%d_rv.smt2", n))
		os.WriteFile(fr, []byte(strings.Replace(pq.ax, "(check-sat)", revAxiom+"(check-sat)", 1)), 0o644)
		defer os.Remove(fr)
		jobs = append(jobs, job{"z3-new-rev", "z3-new", append(append([]string{}, z3fast...), fmt.Sprintf("-t:%d", ms)), fr},
			job{"cvc5-rev", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}, fr})
	}
	if pq.shi != "" {
		fs := filepath.Join(tmpDir, fmt.Sprintf("o%d_sh.smt2", n))
		os.WriteFile(fs, []byte(pq.shi), 0o644)
		defer os.Remove(fs)
		jobs = append(jobs, job{"z3-new-shift", "z3-new", append(append([]string{}, z3fast...), fmt.Sprintf("-t:%d", ms)), fs})
	}
	for _, j := range jobs {
		go func(j job) { ch <- rr{runOne(ctx, j.name, j.args, j.file), j.label} }(j)
	}
	res := solverRes{"unknown", "", 0}
	for range jobs {
		x := <-ch
		acct(x.s, x.v)
		if x.v == "unsat" {
			res = solverRes{"unsat", x.s, el()}
			cancel()
			break
		}
		if x.v == "sat" && res.verdict != "sat" {
			res = solverRes{"sat", x.s, el()}
		}
	}
	if res.verdict == "unsat" {
		clean()
	}
	res.ms = el()
	return res, fa
}

// shiftQ renames bound indices so that patterns are plain: an index c+q that
// every pattern of a quantifier uses becomes the bound variable itself (the
// solvers do not match sums against sums).
func shiftQ(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = shiftQ(a, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args, func(x *Term) *Term { return shiftQ(x, memo) })
	}
	if r.op == OForall && len(r.bv) == 1 && r.bv[0].sort == SInt && len(r.trig) == 0 {
		q := r.bv[0]
		var off *Term
		same := true
		for _, tr := range autoTrig(r) {
			for _, x := range tr {
				var c *Term
				if (x.op == OSelect || x.op == OAt) && !x.args[0].fb[q] && x.args[1].op == OAdd {
					n := 0
					var rest []*Term
					for _, y := range x.args[1].args {
						if y == q {
							n++
						} else if y.fb[q] {
							n = -9
						} else {
							rest = append(rest, y)
						}
					}
					if n == 1 {
						c = Add(rest...)
					}
				}
				if c == nil || off != nil && off != c {
					same = false
				}
				off = c
			}
		}
		if same && off != nil {
			r = Forall([]*Term{q}, Subst(r.args[0], map[*Term]*Term{q: Sub(q, off)}))
		}
	}
	memo[t] = r
	return r
}
