package main

// The reference recogniser: loads the reference grammar (a PEG, /verif/ref/logstash.peg),
// and matches it with a small interpreter of its own.

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"
)

type xkind int

const (
	xLit xkind = iota
	xClass
	xAny
	xRef
	xSeq
	xAlt
	xStar
	xPlus
	xOpt
	xNot
	xLabel
	xAction
	xPred  // &{ code }
	xState // #{ code }
)

type expr struct {
	k     xkind
	s     string // literal, rule name, label
	runes []rune
	rng   []rune
	inv   bool
	subs  []*expr
	fn    string // method name of an action or predicate
	args  []string
	minD  int
}

type grammarRef struct {
	rules map[string]*expr
	order []string
}

type pegReader struct {
	s string
	i int
}

func loadGrammar(path string) *grammarRef {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	p := &pegReader{s: string(b)}
	g := &grammarRef{rules: map[string]*expr{}}
	for {
		p.ws()
		if p.i >= len(p.s) {
			break
		}
		name := p.ident()
		p.ws()
		if !p.eat("=") {
			panic("grammar: expected = after " + name + " at " + p.s[p.i:min(len(p.s), p.i+20)])
		}
		e := p.alt()
		g.rules[name] = e
		g.order = append(g.order, name)
	}
	g.computeMin()
	return g
}

func (p *pegReader) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}
func (p *pegReader) eat(s string) bool {
	if strings.HasPrefix(p.s[p.i:], s) {
		p.i += len(s)
		return true
	}
	return false
}
func isIdent(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}
func (p *pegReader) ident() string {
	j := p.i
	for p.i < len(p.s) && isIdent(p.s[p.i]) {
		p.i++
	}
	return p.s[j:p.i]
}

func (p *pegReader) alt() *expr {
	subs := []*expr{p.action()}
	for {
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '/' {
			p.i++
			subs = append(subs, p.action())
			continue
		}
		break
	}
	if len(subs) == 1 {
		return subs[0]
	}
	return &expr{k: xAlt, subs: subs}
}

func (p *pegReader) code() (string, []string) {
	d := 0
	j := p.i
	for ; p.i < len(p.s); p.i++ {
		c := p.s[p.i]
		if c == '"' {
			p.i++
			for p.s[p.i] != '"' {
				if p.s[p.i] == '\\' {
					p.i++
				}
				p.i++
			}
			continue
		}
		if c == '{' {
			d++
		}
		if c == '}' {
			d--
			if d == 0 {
				p.i++
				break
			}
		}
	}
	body := strings.TrimSpace(p.s[j+1 : p.i-1])
	body = strings.TrimSpace(strings.TrimPrefix(body, "return"))
	if !strings.HasPrefix(body, "c.") {
		k := strings.LastIndex(body, ", nil")
		return "=" + body[:k], nil
	}
	k := strings.IndexByte(body, '(')
	name := body[2:k]
	as := strings.TrimSpace(body[k+1 : strings.LastIndexByte(body, ')')])
	var args []string
	if strings.HasPrefix(as, "\"") {
		var u string
		fmt.Sscanf(as, "%q", &u)
		args = []string{u}
	} else if as != "" {
		for _, a := range strings.Split(as, ",") {
			args = append(args, strings.TrimSpace(a))
		}
	}
	return name, args
}

func (p *pegReader) action() *expr {
	e := p.seq()
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == '{' {
		n, a := p.code()
		return &expr{k: xAction, fn: n, args: a, subs: []*expr{e}}
	}
	return e
}

func (p *pegReader) seq() *expr {
	var subs []*expr
	for {
		p.ws()
		if p.i >= len(p.s) || strings.IndexByte("/{)", p.s[p.i]) >= 0 {
			break
		}
		// next rule?
		if isIdent(p.s[p.i]) {
			save := p.i
			p.ident()
			p.ws()
			if p.i < len(p.s) && p.s[p.i] == '=' {
				p.i = save
				break
			}
			p.i = save
		}
		subs = append(subs, p.labeled())
	}
	if len(subs) == 1 {
		return subs[0]
	}
	return &expr{k: xSeq, subs: subs}
}

func (p *pegReader) labeled() *expr {
	if isIdent(p.s[p.i]) {
		save := p.i
		n := p.ident()
		if p.i < len(p.s) && p.s[p.i] == ':' {
			p.i++
			return &expr{k: xLabel, s: n, subs: []*expr{p.prefixed()}}
		}
		p.i = save
	}
	return p.prefixed()
}

func (p *pegReader) prefixed() *expr {
	if p.eat("!") {
		p.ws()
		return &expr{k: xNot, subs: []*expr{p.suffixed()}}
	}
	if strings.HasPrefix(p.s[p.i:], "&{") {
		p.i++
		n, a := p.code()
		return &expr{k: xPred, fn: n, args: a}
	}
	if strings.HasPrefix(p.s[p.i:], "#{") {
		p.i++
		n, a := p.code()
		return &expr{k: xState, fn: n, args: a}
	}
	return p.suffixed()
}

func (p *pegReader) suffixed() *expr {
	e := p.primary()
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case '*':
			e = &expr{k: xStar, subs: []*expr{e}}
		case '+':
			e = &expr{k: xPlus, subs: []*expr{e}}
		case '?':
			e = &expr{k: xOpt, subs: []*expr{e}}
		default:
			return e
		}
		p.i++
	}
	return e
}

func (p *pegReader) primary() *expr {
	c := p.s[p.i]
	switch {
	case c == '"':
		j := p.i
		p.i++
		for p.s[p.i] != '"' {
			if p.s[p.i] == '\\' {
				p.i++
			}
			p.i++
		}
		p.i++
		var u string
		fmt.Sscanf(p.s[j:p.i], "%q", &u)
		return &expr{k: xLit, s: u}
	case c == '`':
		j := p.i + 1
		p.i++
		for p.s[p.i] != '`' {
			p.i++
		}
		p.i++
		return &expr{k: xLit, s: p.s[j : p.i-1]}
	case c == '.':
		p.i++
		return &expr{k: xAny}
	case c == '[':
		p.i++
		e := &expr{k: xClass}
		if p.eat("^") {
			e.inv = true
		}
		rd := func() rune {
			r, n := utf8.DecodeRuneInString(p.s[p.i:])
			p.i += n
			if r == '\\' {
				c := p.s[p.i]
				p.i++
				switch c {
				case 'n':
					return '\n'
				case 't':
					return '\t'
				case 'r':
					return '\r'
				}
				return rune(c)
			}
			return r
		}
		for p.s[p.i] != ']' {
			r := rd()
			if p.s[p.i] == '-' && p.s[p.i+1] != ']' {
				p.i++
				e.rng = append(e.rng, r, rd())
			} else {
				e.runes = append(e.runes, r)
			}
		}
		p.i++
		return e
	case c == '(':
		p.i++
		e := p.alt()
		p.ws()
		if !p.eat(")") {
			panic("grammar: expected )")
		}
		return &expr{k: xOpt + 100, subs: []*expr{e}} // grouping marker, removed below
	}
	n := p.ident()
	if n == "" {
		panic("grammar: unexpected " + p.s[p.i:min(len(p.s), p.i+20)])
	}
	return &expr{k: xRef, s: n}
}

func ungroup(e *expr) *expr {
	for e.k == xOpt+100 {
		e = e.subs[0]
	}
	for i := range e.subs {
		e.subs[i] = ungroup(e.subs[i])
	}
	return e
}

func (g *grammarRef) computeMin() {
	for n := range g.rules {
		g.rules[n] = ungroup(g.rules[n])
	}
	var all []*expr
	var walk func(e *expr)
	walk = func(e *expr) {
		all = append(all, e)
		e.minD = 1 << 20
		for _, s := range e.subs {
			walk(s)
		}
	}
	for _, n := range g.order {
		walk(g.rules[n])
	}
	for ch := true; ch; {
		ch = false
		for _, e := range all {
			d := 1 << 20
			switch e.k {
			case xLit, xClass, xAny, xPred, xState, xNot, xStar, xOpt:
				d = 0
			case xRef:
				d = g.rules[e.s].minD + 1
			case xSeq:
				d = 0
				for _, s := range e.subs {
					d = max(d, s.minD)
				}
			case xAlt:
				for _, s := range e.subs {
					d = min(d, s.minD)
				}
			default:
				d = e.subs[0].minD
			}
			if d < e.minD {
				e.minD = d
				ch = true
			}
		}
	}
}

// ---------------------------------------------------------------- matching

type rpos struct{ Line, Col, Off int }

type refFail struct {
	msg string
	pos int
}

type refResult struct {
	ok       bool
	reason   string
	tree     *Node
	warnings []rwarn
	fails    []refFail // farthest expectations
	steps    int
	aborted  bool
	giveup   bool
	stats    map[string]map[string]int // matches per rule and alternative
}

type rwarn struct{ pos rpos }

type refAbort struct{}
type refGiveup struct{}

type refParser struct {
	g        *grammarRef
	in       string
	line     []int32 // per byte offset
	col      []int32
	off      int
	cur      rpos
	curText  string
	fails    []refFail
	warns    []rwarn
	scopes   []map[string]any
	ignoreC  bool
	warnC    bool
	steps    int
	actErrs  []string
	noAct    int
	maxSteps int
	stats    map[string]map[string]int
	rstack   []string
}

func refParse(g *grammarRef, in string, ignoreC, warnC bool) (res refResult) {
	p := &refParser{g: g, in: in, ignoreC: ignoreC, warnC: warnC, maxSteps: 30000000, stats: map[string]map[string]int{}}
	p.line = make([]int32, len(in)+1)
	p.col = make([]int32, len(in)+1)
	l, c := int32(1), int32(0)
	for i := 0; i <= len(in); {
		r, n := utf8.DecodeRuneInString(in[i:])
		c++
		if i < len(in) && r == '\n' {
			l++
			c = 0
		}
		for k := 0; k < max(n, 1) && i+k <= len(in); k++ {
			p.line[i+k], p.col[i+k] = l, c
		}
		i += max(n, 1)
	}
	defer func() {
		res.fails = p.fails
		res.stats = p.stats
		res.steps = p.steps
		if e := recover(); e != nil {
			switch e.(type) {
			case refAbort:
				res.ok, res.aborted, res.reason = false, true, "fatal: "+p.fails[0].msg
			case refGiveup:
				res.giveup = true
			default:
				panic(e)
			}
		}
	}()
	v, ok := p.rule("init")
	if !ok {
		res.reason = "no match"
		return
	}
	if len(p.actErrs) > 0 {
		res.reason = p.actErrs[0]
		return
	}
	res.ok = true
	res.tree, _ = v.(*Node)
	res.warnings = p.warns
	return
}

func (p *refParser) at(off int) rpos { return rpos{int(p.line[off]), int(p.col[off]), off} }

func (p *refParser) push() { p.scopes = append(p.scopes, nil) }
func (p *refParser) pop()  { p.scopes = p.scopes[:len(p.scopes)-1] }

func (p *refParser) rule(n string) (any, bool) {
	p.push()
	p.rstack = append(p.rstack, n)
	v, ok := p.match(p.g.rules[n])
	p.rstack = p.rstack[:len(p.rstack)-1]
	p.pop()
	return v, ok
}

func (p *refParser) stat(alt string) {
	r := p.rstack[len(p.rstack)-1]
	if p.stats[r] == nil {
		p.stats[r] = map[string]int{}
	}
	p.stats[r][alt]++
}

func (p *refParser) match(e *expr) (any, bool) {
	p.steps++
	if p.steps > p.maxSteps {
		panic(refGiveup{})
	}
	switch e.k {
	case xLit:
		if strings.HasPrefix(p.in[p.off:], e.s) {
			p.off += len(e.s)
			return e.s, true
		}
		return nil, false
	case xAny:
		if p.off >= len(p.in) {
			return nil, false
		}
		_, n := utf8.DecodeRuneInString(p.in[p.off:])
		p.off += n
		return nil, true
	case xClass:
		if p.off >= len(p.in) {
			return nil, false
		}
		r, n := utf8.DecodeRuneInString(p.in[p.off:])
		in := false
		for _, c := range e.runes {
			in = in || c == r
		}
		for i := 0; i < len(e.rng); i += 2 {
			in = in || e.rng[i] <= r && r <= e.rng[i+1]
		}
		if in == e.inv {
			return nil, false
		}
		p.off += n
		return nil, true
	case xRef:
		return p.rule(e.s)
	case xSeq:
		start, w := p.off, len(p.warns)
		vals := make([]any, 0, len(e.subs))
		for _, s := range e.subs {
			v, ok := p.match(s)
			if !ok {
				p.off = start
				p.warns = p.warns[:w]
				return nil, false
			}
			vals = append(vals, v)
		}
		return vals, true
	case xAlt:
		start, w := p.off, len(p.warns)
		for i, s := range e.subs {
			p.push()
			v, ok := p.match(s)
			p.pop()
			if ok {
				p.stat(strconv.Itoa(i + 1))
				return v, true
			}
			p.off = start
			p.warns = p.warns[:w]
		}
		p.stat("none")
		return nil, false
	case xStar, xPlus:
		var vals []any
		for {
			p.push()
			v, ok := p.match(e.subs[0])
			p.pop()
			if !ok {
				if e.k == xPlus && len(vals) == 0 {
					return nil, false
				}
				return vals, true
			}
			vals = append(vals, v)
		}
	case xOpt:
		p.push()
		v, _ := p.match(e.subs[0])
		p.pop()
		return v, true
	case xNot:
		start, w := p.off, len(p.warns)
		p.push()
		_, ok := p.match(e.subs[0])
		p.pop()
		p.off = start
		p.warns = p.warns[:w]
		return nil, !ok
	case xLabel:
		p.push()
		v, ok := p.match(e.subs[0])
		p.pop()
		if ok {
			t := len(p.scopes) - 1
			if p.scopes[t] == nil {
				p.scopes[t] = map[string]any{}
			}
			p.scopes[t][e.s] = v
		}
		return v, ok
	case xAction:
		start := p.off
		_, ok := p.match(e.subs[0])
		if !ok {
			return nil, false
		}
		p.cur = p.at(start)
		p.curText = p.in[start:p.off]
		return p.act(e), true
	case xPred:
		pos := p.cur.Off + len(p.curText)
		switch e.fn {
		case "initParser":
			p.fails = nil
			return nil, true
		case "pushError":
			m := e.args[0]
			if len(p.fails) == 0 || pos > p.fails[0].pos {
				p.fails = []refFail{{m, pos}}
			} else if pos == p.fails[0].pos {
				for _, f := range p.fails {
					if f.msg == m {
						return nil, false
					}
				}
				p.fails = append(p.fails, refFail{m, pos})
			}
			return nil, false
		case "fatalError":
			p.fails = []refFail{{e.args[0], pos}}
			panic(refAbort{})
		}
		panic("reference: predicate " + e.fn)
	case xState:
		if e.fn == "warnComment" && p.warnC && strings.Contains(p.curText, "#") {
			p.warns = append(p.warns, rwarn{p.cur})
		}
		return nil, true
	}
	panic("reference: expression")
}
