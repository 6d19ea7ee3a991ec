package main

// Printing of trees built with the constructors: C07 and C08.

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

// tok is one expected piece of the printed text: a token, or a line break followed
// by the indentation of a level (any blank lines in between are free).
type tok struct {
	text string
	nl   bool
	lvl  int
	opt  bool // the line break may be missing (empty blocks)
	num  bool // any spelling of the number
}

type refPrinter struct {
	out []tok
	lvl int
}

func (p *refPrinter) t(s string) { p.out = append(p.out, tok{text: s}) }
func (p *refPrinter) nl()        { p.out = append(p.out, tok{nl: true, lvl: p.lvl}) }

func (p *refPrinter) comments(cb ast.CommentBlock) {
	for _, c := range ccom(cb) {
		p.t("# " + c.Text)
		p.nl()
	}
}

func (p *refPrinter) foot(cb ast.CommentBlock) {
	for _, c := range ccom(cb) {
		p.nl()
		p.t("# " + c.Text)
	}
}

func (p *refPrinter) config(c ast.Config) {
	sec := func(name string, ss []ast.PluginSection) {
		for _, s := range ss {
			p.comments(s.CommentBlock)
			p.t(name + " {")
			p.block(s.BranchOrPlugins, s.FooterComment)
			p.nl()
		}
	}
	sec("input", c.Input)
	sec("filter", c.Filter)
	sec("output", c.Output)
	p.comments(c.FooterComment)
}

// block prints the contents of a block and its closing bracket.
func (p *refPrinter) block(bs []ast.BranchOrPlugin, foot ast.CommentBlock) {
	p.lvl++
	n := len(p.out)
	for _, b := range bs {
		if b == nil {
			continue
		}
		p.nl()
		switch b := b.(type) {
		case ast.Plugin:
			p.plugin(b)
		case ast.Branch:
			p.branch(b)
		}
	}
	p.foot(foot)
	p.lvl--
	p.close(n, "}")
}

func (p *refPrinter) close(n int, s string) {
	p.out = append(p.out, tok{nl: true, lvl: p.lvl, opt: n == len(p.out)})
	p.t(s)
}

func (p *refPrinter) plugin(pl ast.Plugin) {
	p.comments(pl.Comment)
	p.t(pl.Name() + " {")
	p.lvl++
	n := len(p.out)
	for _, a := range pl.Attributes {
		if a == nil {
			continue
		}
		p.nl()
		p.comments(attrCom(a))
		p.t(a.Name() + " => ")
		p.value(a)
	}
	p.foot(pl.FooterComment)
	p.lvl--
	p.close(n, "}")
}

func attrCom(a ast.Attribute) ast.CommentBlock {
	switch a := a.(type) {
	case ast.PluginAttribute:
		return a.Comment
	case ast.StringAttribute:
		return a.Comment
	case ast.NumberAttribute:
		return a.Comment
	case ast.ArrayAttribute:
		return a.Comment
	case ast.HashAttribute:
		return a.Comment
	}
	return nil
}

func strTok(a ast.StringAttribute) string {
	q := map[ast.StringAttributeType]string{ast.DoubleQuoted: `"`, ast.SingleQuoted: "'"}[a.StringAttributeType()]
	return q + a.Value() + q
}

func (p *refPrinter) value(a ast.Attribute) {
	switch a := a.(type) {
	case ast.PluginAttribute:
		p.plugin(a.Value())
	case ast.StringAttribute:
		p.t(strTok(a))
	case ast.NumberAttribute:
		p.out = append(p.out, tok{text: strconv.FormatFloat(a.Value(), 'f', -1, 64), num: true})
	case ast.ArrayAttribute:
		p.t("[")
		p.lvl++
		n := len(p.out)
		first := true
		for _, e := range a.Value() {
			if e == nil {
				continue
			}
			if !first {
				p.t(",")
			}
			first = false
			p.nl()
			p.comments(attrCom(e))
			p.value(e)
		}
		p.foot(a.FooterComment)
		p.lvl--
		p.close(n, "]")
	case ast.HashAttribute:
		p.t("{")
		p.lvl++
		n := len(p.out)
		for _, e := range a.Value() {
			p.nl()
			p.comments(e.Comment)
			p.value(e.Key.(ast.Attribute))
			p.t(" => ")
			if e.Value != nil {
				p.value(e.Value)
			}
		}
		p.foot(a.FooterComment)
		p.lvl--
		p.close(n, "}")
	}
}

func (p *refPrinter) branch(b ast.Branch) {
	p.comments(b.IfBlock.Comment)
	p.t("if ")
	p.cond(b.IfBlock.Condition)
	p.t(" {")
	p.block(b.IfBlock.Block, b.IfBlock.FooterComment)
	alt := func(com ast.CommentBlock) {
		if len(com) > 0 {
			p.nl()
			p.comments(com)
		} else {
			p.t(" ")
		}
	}
	for _, e := range b.ElseIfBlock {
		alt(e.Comment)
		p.t("else if ")
		p.cond(e.Condition)
		p.t(" {")
		p.block(e.Block, e.FooterComment)
	}
	e := b.ElseBlock
	if e.Start != (ast.Pos{}) || len(e.Block)+len(e.Comment)+len(e.FooterComment) > 0 {
		alt(e.Comment)
		p.t("else {")
		p.block(e.Block, e.FooterComment)
	}
}

func (p *refPrinter) cond(c ast.Condition) {
	for _, e := range c.Expression {
		if e == nil {
			continue
		}
		if t := convBool(e.BoolOperator()).Text; t != "" {
			p.t(" " + t + " ")
		}
		switch e := e.(type) {
		case ast.ConditionExpression:
			p.t("(")
			p.cond(e.Condition)
			p.t(")")
		case ast.NegativeConditionExpression:
			p.t("!(")
			p.cond(e.Condition)
			p.t(")")
		case ast.NegativeSelectorExpression:
			p.t("!")
			p.rv(e.Selector)
		case ast.InExpression:
			p.rv(e.LValue)
			p.t(" in ")
			p.rv(e.RValue)
		case ast.NotInExpression:
			p.rv(e.LValue)
			p.t(" not in ")
			p.rv(e.RValue)
		case ast.RvalueExpression:
			p.rv(e.RValue)
		case ast.CompareExpression:
			p.rv(e.LValue)
			p.t(" " + []string{"", "==", "!=", "<=", ">=", "<", ">"}[cmpIdx(e.CompareOperator.Op)] + " ")
			p.rv(e.RValue)
		case ast.RegexpExpression:
			p.rv(e.LValue)
			p.t(map[int]string{ast.RegexpMatch: " =~ ", ast.RegexpNotMatch: " !~ "}[e.RegexpOperator.Op])
			p.rv(e.RValue)
		}
	}
}

func cmpIdx(op int) int {
	for i, o := range cmpOps {
		if o == op {
			return i + 1
		}
	}
	return 0
}

func (p *refPrinter) rv(v any) {
	switch v := v.(type) {
	case ast.Selector:
		for _, e := range convRv(v).Kids {
			p.t("[" + e.Text + "]")
		}
	case ast.Regexp:
		p.t("/" + v.Regexp + "/")
	case ast.Attribute:
		p.value(v)
	}
}

// matchToks checks a printed text against the expected pieces.
func matchToks(ts []tok, s string) (string, bool) {
	i := len(s) - len(strings.TrimLeft(s, "\n"))
	for k := 0; k < len(ts); k++ {
		t := ts[k]
		if t.num {
			m := numPre.FindString(s[i:])
			f, err := strconv.ParseFloat(m, 64)
			w, _ := strconv.ParseFloat(t.text, 64)
			if err != nil || f != w {
				return fmt.Sprintf("expected the number %s at offset %d", t.text, i), false
			}
			i += len(m)
			continue
		}
		if !t.nl {
			if !strings.HasPrefix(s[i:], t.text) {
				return fmt.Sprintf("expected %q at offset %d", t.text, i), false
			}
			i += len(t.text)
			continue
		}
		if t.opt && (i >= len(s) || s[i] != '\n') {
			continue
		}
		if i >= len(s) || s[i] != '\n' {
			return fmt.Sprintf("expected a line break at offset %d", i), false
		}
		if k == len(ts)-1 {
			if strings.Trim(s[i:], " \n") != "" {
				return fmt.Sprintf("expected the end at offset %d", i), false
			}
			i = len(s)
			continue
		}
		// skip blank lines
		for {
			j := i + 1
			for j < len(s) && s[j] == ' ' {
				j++
			}
			if j < len(s) && s[j] == '\n' {
				i = j
				continue
			}
			break
		}
		i++
		n := 0
		for i < len(s) && s[i] == ' ' && n < 2*t.lvl {
			i++
			n++
		}
		if n != 2*t.lvl || i < len(s) && s[i] == ' ' && !(k+1 < len(ts) && strings.HasPrefix(ts[k+1].text, " ")) {
			return fmt.Sprintf("expected a line indented by %d blanks at offset %d", 2*t.lvl, i), false
		}
	}
	if strings.Trim(s[i:], " \n") != "" {
		return fmt.Sprintf("expected the end at offset %d", i), false
	}
	return "", true
}

func showToks(ts []tok) string {
	var b strings.Builder
	for _, t := range ts {
		if t.nl {
			if !t.opt {
				b.WriteString("\n" + strings.Repeat("  ", t.lvl))
			}
			continue
		}
		b.WriteString(t.text)
	}
	return b.String()
}

// ------------------------------------------------------------ random trees

type tgen struct {
	*gen
	wild bool // bodies need not be valid tokens
	left int
}

func (t *tgen) com() ast.CommentBlock {
	r := t.r
	if !r.one(4) {
		return nil
	}
	var cb ast.CommentBlock
	for n := 1 + t.size(1); n > 0; n-- {
		s := strings.NewReplacer("\n", "", "\r", "").Replace(t.str(true))
		c := ast.NewComment(s, r.one(3))
		c.SpaceAfter = r.one(4)
		cb = append(cb, c)
	}
	return cb
}

func (t *tgen) pos() ast.Pos {
	if t.r.one(2) {
		return ast.Pos{}
	}
	return ast.Pos{Line: 1 + t.r.Intn(3), Column: t.r.Intn(9), Offset: t.r.Intn(99)}
}

func (t *tgen) name() string {
	r := t.r
	switch r.Intn(5) {
	case 0:
		return strTok(t.strAttr(""))
	case 1:
		if len(t.d.newStrs) > 0 {
			if s := onlyName(pick(r, t.d.newStrs)); s != "" {
				return s
			}
		}
	}
	return pick(r, words)
}

func (t *tgen) strAttr(name string) ast.StringAttribute {
	r := t.r
	s := t.str(true)
	switch r.Intn(3) {
	case 0:
		if !t.wild {
			s = quotedBody(s, '"')
		}
		return ast.NewStringAttribute(name, s, ast.DoubleQuoted)
	case 1:
		if !t.wild {
			s = quotedBody(s, '\'')
		}
		return ast.NewStringAttribute(name, s, ast.SingleQuoted)
	}
	if !t.wild {
		s = onlyName(s)
		s = strings.ReplaceAll(strings.TrimLeft(s, "0123456789-"), "-", "_")
		if len(s) < 2 {
			s = "bare"
		}
	}
	return ast.NewStringAttribute(name, s, ast.Bareword)
}

func (t *tgen) float() float64 {
	r := t.r
	switch r.Intn(4) {
	case 0:
		return float64(r.Intn(1000))
	case 1:
		f, _ := strconv.ParseFloat(t.number(), 64)
		if !math.IsInf(f, 0) {
			return f
		}
	case 2:
		return float64(r.Intn(10000)) / 100
	}
	return float64(len(t.str(true)))
}

func (t *tgen) n(def int) int {
	t.left--
	if t.left <= 0 {
		return 0
	}
	return t.size(def)
}

func (t *tgen) attr(name string, d int) ast.Attribute {
	r := t.r
	k := r.Intn(7)
	if d <= 0 && k > 3 {
		k = r.Intn(3)
	}
	switch k {
	case 3:
		if r.one(3) && d > 0 {
			a := ast.NewPluginAttribute(name, t.plugin(d-1, false))
			a.Comment = t.com()
			a.Start = t.pos()
			return a
		}
		fallthrough
	case 0:
		a := ast.NewNumberAttribute(name, t.float())
		a.Comment = t.com()
		return a
	case 4, 5:
		a := ast.NewArrayAttribute(name)
		for i := t.n(3); i > 0; i-- {
			if r.one(12) {
				a.Attributes = append(a.Attributes, nil)
			}
			a.Attributes = append(a.Attributes, t.attr("", d-1))
		}
		a.Comment = t.com()
		a.FooterComment = t.com()
		return a
	case 6:
		a := ast.NewHashAttribute(name)
		for i := t.n(3); i > 0; i-- {
			var key ast.HashEntryKey = t.strAttr("")
			if r.one(4) {
				key = ast.NewNumberAttribute("", t.float())
			}
			v := noCom(t.attr("", d-1))
			e := ast.NewHashEntry(key, v)
			if r.one(15) {
				e.Value = nil
			}
			e.Comment = t.com()
			a.Entries = append(a.Entries, e)
		}
		a.Comment = t.com()
		a.FooterComment = t.com()
		return a
	}
	a := t.strAttr(name)
	a.Comment = t.com()
	return a
}

// noCom removes the comment of a value at a place that has no room for it.
func noCom(a ast.Attribute) ast.Attribute {
	switch a := a.(type) {
	case ast.PluginAttribute:
		a.Comment = nil
		return a
	case ast.StringAttribute:
		a.Comment = nil
		return a
	case ast.NumberAttribute:
		a.Comment = nil
		return a
	case ast.ArrayAttribute:
		a.Comment = nil
		return a
	case ast.HashAttribute:
		a.Comment = nil
		return a
	}
	return a
}

func (t *tgen) plugin(d int, com bool) ast.Plugin {
	p := ast.NewPlugin(t.name())
	for i := t.n(3); i > 0; i-- {
		if t.r.one(12) {
			p.Attributes = append(p.Attributes, nil)
		}
		p.Attributes = append(p.Attributes, t.attr(t.name(), d))
	}
	if com {
		p.Comment = t.com()
	}
	p.FooterComment = t.com()
	p.Start = t.pos()
	return p
}

func (t *tgen) bops(d int) []ast.BranchOrPlugin {
	var bs []ast.BranchOrPlugin
	for i := t.n(3); i > 0; i-- {
		switch {
		case t.r.one(10):
			bs = append(bs, nil)
		case d > 0 && t.r.one(3):
			bs = append(bs, t.branch(d-1))
		default:
			bs = append(bs, t.plugin(2, true))
		}
	}
	return bs
}

func (t *tgen) branch(d int) ast.Branch {
	ib := ast.NewIfBlock(t.cond(d), t.bops(d)...)
	ib.Comment, ib.FooterComment = t.com(), t.com()
	ib.Start = t.pos()
	var ei []ast.ElseIfBlock
	for i := t.n(2); i > 0; i-- {
		e := ast.NewElseIfBlock(t.cond(d), t.bops(d)...)
		e.Comment, e.FooterComment = t.com(), t.com()
		ei = append(ei, e)
	}
	eb := ast.ElseBlock{}
	if t.r.one(2) {
		eb = ast.NewElseBlock(t.bops(d)...)
		eb.Comment, eb.FooterComment = t.com(), t.com()
		eb.Start = t.pos()
	}
	return ast.NewBranch(ib, eb, ei...)
}

var cmpOps = []int{ast.Equal, ast.NotEqual, ast.LessOrEqual, ast.GreaterOrEqual, ast.LessThan, ast.GreaterThan}
var boolOps = []int{ast.And, ast.Or, ast.Xor, ast.Nand}

func (t *tgen) selector() ast.Selector {
	var ns []string
	for i := 1 + t.size(1); i > 0; i-- {
		s := strings.NewReplacer("[", "", "]", "", ",", "").Replace(t.str(true))
		s = strings.TrimLeft(s, "\n")
		if s == "" {
			s = "f"
		}
		ns = append(ns, s)
	}
	return ast.NewSelectorFromNames(ns...)
}

func (t *tgen) regexp() ast.Regexp {
	s := t.str(true)
	if !t.wild {
		s = quotedBody(s, '/')
	}
	return ast.NewRegexp(s)
}

func (t *tgen) rvalue() ast.Rvalue {
	switch t.r.Intn(7) {
	case 0:
		return t.strAttr("")
	case 1:
		return ast.NewNumberAttribute("", t.float())
	case 2:
		a := ast.NewArrayAttribute("")
		for i := t.n(3); i > 0; i-- {
			a.Attributes = append(a.Attributes, t.attr("", 1))
		}
		return a
	case 3:
		return t.regexp()
	case 4:
		if t.r.one(6) {
			return nil
		}
	}
	return t.selector()
}

func (t *tgen) cond(d int) ast.Condition {
	c := ast.NewCondition()
	n := 1 + t.n(2)
	for i := 0; i < n; i++ {
		bo := ast.BooleanOperator{Op: ast.NoOperator}
		if i > 0 {
			bo.Op = pick(t.r, boolOps)
		}
		if t.r.one(15) {
			c.Expression = append(c.Expression, nil)
		}
		var e ast.Expression
		k := t.r.Intn(9)
		if d <= 0 && k < 2 {
			k += 2
		}
		switch k {
		case 0:
			e = ast.NewConditionExpression(bo, t.cond(d-1))
		case 1:
			e = ast.NewNegativeConditionExpression(bo, t.cond(d-1))
		case 2:
			e = ast.NewNegativeSelectorExpression(bo, t.selector())
		case 3:
			e = ast.NewInExpression(bo, t.rvalue(), t.rvalue())
		case 4:
			e = ast.NewNotInExpression(bo, t.rvalue(), t.rvalue())
		case 5:
			e = ast.NewRvalueExpression(bo, t.rvalue())
		case 6:
			var sr ast.StringOrRegexp = t.regexp()
			if t.r.one(3) {
				sr = t.strAttr("")
			}
			e = ast.NewRegexpExpression(bo, t.rvalue(), ast.RegexpOperator{Op: pick(t.r, []int{ast.RegexpMatch, ast.RegexpNotMatch})}, sr)
		default:
			e = ast.NewCompareExpression(bo, t.rvalue(), ast.CompareOperator{Op: pick(t.r, cmpOps)}, t.rvalue())
		}
		if i > 0 && t.r.one(2) {
			// chain it the way the parser does
			e.SetBoolOperator(ast.BooleanOperator{Op: bo.Op, Start: t.pos()})
		}
		c.Expression = append(c.Expression, e)
	}
	return c
}

func (t *tgen) config() ast.Config {
	sec := func(k ast.PluginType) []ast.PluginSection {
		var ss []ast.PluginSection
		for i := t.n(1); i > 0; i-- {
			s := ast.NewPluginSection(k, t.bops(3)...)
			s.CommentBlock, s.FooterComment = t.com(), t.com()
			s.Start = t.pos()
			ss = append(ss, s)
		}
		return ss
	}
	c := ast.NewConfig(sec(ast.Input), sec(ast.Filter), sec(ast.Output))
	if len(c.Input)+len(c.Filter)+len(c.Output) == 0 {
		c.Filter = []ast.PluginSection{ast.NewPluginSection(ast.Filter, t.bops(3)...)}
	}
	c.FooterComment = t.com()
	return c
}

func nonBlank(s string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\n' {
			return -1
		}
		return r
	}, s)
}

func protect(f func() string) (s string, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	return f(), ""
}

var numPre = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?`)

var numRe = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

func init() {
	props["C07"] = func(c *ctx) {
		t := &tgen{gen: c.g, left: 10 + c.g.r.Intn(60), wild: c.g.r.one(5)}
		var ts *refPrinter = &refPrinter{}
		var desc string
		var pr func() string
		if !t.wild && c.g.r.one(3) {
			// trees of parsed texts
			s, _, ok := c.accepted()
			if !ok {
				return
			}
			o := parse(s)
			if o.err != nil || knownC09(o.conf) || len(o.conf.Input)+len(o.conf.Filter)+len(o.conf.Output) == 0 {
				return
			}
			ts.config(o.conf)
			pr = o.conf.String
			desc = "tree of the text:\n" + s
		} else {
			conf := t.config()
			switch c.g.r.Intn(6) {
			case 0:
				p := t.plugin(3, true)
				ts.plugin(p)
				pr = p.String
				desc = "plugin:\n" + dump(convPlugin(p), dumpOpt{com: true})
			case 1:
				a := t.attr("name", 3)
				ts.t("name => ")
				ts.value(a)
				pr = a.String
				desc = "attribute:\n" + dump(convAttr(a), dumpOpt{com: true})
			case 2:
				k := t.cond(3)
				ts.cond(k)
				pr = k.String
				desc = "condition:\n" + dump(convCond(k), dumpOpt{com: true})
			case 3:
				b := t.branch(3)
				ts.branch(b)
				pr = b.String
				desc = "branch:\n" + dump(convBop(b), dumpOpt{com: true})
			default:
				ts.config(conf)
				pr = conf.String
				desc = dump(convConfig(conf), dumpOpt{com: true})
			}
		}
		got, pan := protect(pr)
		if pan != "" {
			c.fail("print", "printing a tree panics", desc, showToks(ts.out), "panic: "+pan)
		}
		c.nontrivial(got)
		if t.wild {
			if w, g := nonBlank(showToks(ts.out)), nonBlank(got); w != g && !hasNum(ts.out) {
				c.fail("print", "printing drops, adds or changes characters", desc, showToks(ts.out), got)
			}
			return
		}
		if m, ok := matchToks(ts.out, got); !ok {
			c.fail("print", "the printed text is not the tree: "+m, desc, showToks(ts.out), got)
		}
	}
	props["C08"] = func(c *ctx) {
		r := c.g.r
		var f float64
		switch r.Intn(8) {
		case 0:
			f = math.Float64frombits(r.Uint64())
		case 1:
			f = float64(r.Int63()) * pick(r, []float64{1, -1, 1e-3, 1e-10, 1e10, 1e-18})
		case 2:
			f = math.Float64frombits(uint64(r.Intn(1 << 12)))
		case 3:
			f, _ = strconv.ParseFloat(c.g.number(), 64)
		case 4:
			n := r.Intn(1000)
			if len(c.d.newInts) > 0 && r.one(2) {
				n = pick(r, c.d.newInts)
			}
			f = math.Ldexp(float64(2*r.Intn(2)-1)*float64(1+r.Intn(4)), n%1070-r.Intn(2)*1000)
		case 5:
			f = float64(r.Intn(2000000)-1000000) / math.Pow(10, float64(r.Intn(12)))
		case 6:
			f = math.Pow(10, float64(r.Intn(40)-20)) * float64(r.Intn(100))
		case 7:
			f = math.Nextafter(float64(int64(1)<<uint(r.Intn(63))), float64(r.Intn(3)-1)*math.MaxFloat64)
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return
		}
		got, pan := protect(ast.NewNumberAttribute("a", f).ValueString)
		in := fmt.Sprintf("%v (bits %016x)", f, math.Float64bits(f))
		c.nontrivial(in)
		if pan != "" {
			c.fail("number", "printing a number panics", in, "", pan)
		}
		if !numRe.MatchString(got) {
			c.fail("number", "the printed number is not a number of the grammar", in, "-?digits(.digits)?", got)
		}
		g, err := strconv.ParseFloat(got, 64)
		if err != nil || g != f {
			c.fail("number", "the printed number denotes another value", in, fmt.Sprint(f), got)
		}
		if f == math.Trunc(f) && strings.Contains(got, ".") {
			c.fail("number", "a whole number is printed with a decimal point", in, "no decimal point", got)
		}
		o := parse("input { a { b => " + got + " } }")
		if o.err != nil || len(o.conf.Input) != 1 {
			c.fail("number", "the printed number is not accepted", in, got, fmt.Sprint(o.err, o.pan))
		}
		p, _ := o.conf.Input[0].BranchOrPlugins[0].(ast.Plugin)
		na, ok := p.Attributes[0].(ast.NumberAttribute)
		if !ok || na.Value() != f {
			c.fail("number", "reading the printed number gives another value", in, fmt.Sprint(f), fmt.Sprint(na.Value()))
		}
	}
	_ = config.Parse
}

func hasNum(ts []tok) bool {
	for _, t := range ts {
		if t.num && (strings.Contains(t.text, ".") || len(t.text) > 14) {
			return true
		}
	}
	return false
}
