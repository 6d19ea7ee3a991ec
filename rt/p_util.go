package main

// ast/astutil and ast/errors: C10 to C15.

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	pkgerrors "github.com/pkg/errors"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

const escBytes = "\\\\\\\"'nrt/x\n\r\t\xc3\xa9a"

var escPairs = map[byte]byte{'r': '\r', 'n': '\n', 't': '\t', '\\': '\\', '"': '"', '\'': '\''}

func refUnescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			if u, ok := escPairs[s[i+1]]; ok {
				b.WriteByte(u)
				i++
				continue
			}
			// an unknown pair stays as it is, but its second character starts no other pair
			_, n := utf8.DecodeRuneInString(s[i+1:])
			if s[i+1] != '\n' {
				b.WriteString(s[i : i+1+n])
				i += n
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (c *ctx) bytesStr() string {
	r := c.g.r
	switch r.Intn(5) {
	case 0:
		n := c.g.size(6)
		b := make([]byte, n)
		for i := range b {
			b[i] = escBytes[r.Intn(len(escBytes))]
		}
		return string(b)
	case 1:
		n := c.g.size(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	case 2:
		var b strings.Builder
		for n := c.g.size(8); n > 0; n-- {
			b.WriteString(pick(r, []string{"\\", "\"", "'", "\\\"", "\\'", "\\\\", "a", "é", "\n", "_", "9", "Z", "\xff", "日"}))
		}
		return b.String()
	}
	return c.g.str(false)
}

func init() {
	props["C10"] = func(c *ctx) {
		s := c.bytesStr()
		ck := func(s string) (string, string, bool) {
			e, pan := protect(func() string { return astutil.Escape(s) })
			if pan != "" {
				return "Escape returns", "panic: " + pan, false
			}
			var want strings.Builder
			for i := 0; i < len(s); i++ {
				switch s[i] {
				case '"', '\'', '\\':
					want.WriteByte('\\')
					want.WriteByte(s[i])
				case '\n':
					want.WriteString("\\n")
				case '\r':
					want.WriteString("\\r")
				case '\t':
					want.WriteString("\\t")
				default:
					want.WriteByte(s[i])
				}
			}
			if e != want.String() {
				return fmt.Sprintf("Escape gives %q", want.String()), fmt.Sprintf("%q", e), false
			}
			u, pan := protect(func() string { return astutil.Unescape(e) })
			if pan != "" || u != s {
				return fmt.Sprintf("Unescape(Escape(s)) gives %q", s), fmt.Sprintf("%q %s", u, pan), false
			}
			g, pan := protect(func() string { return astutil.Unescape(s) })
			if w := refUnescape(s); pan != "" || g != w {
				return fmt.Sprintf("Unescape gives %q", w), fmt.Sprintf("%q %s", g, pan), false
			}
			return "", "", true
		}
		c.nontrivial(s)
		c.diffFail(s, "escape", "escaping or unescaping is not as documented", ck)
	}
	styles := []ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword}
	delim := map[ast.StringAttributeType]string{ast.DoubleQuoted: `"`, ast.SingleQuoted: "'", ast.Bareword: ""}
	props["C11"] = func(c *ctx) {
		s := c.bytesStr()
		st := pick(c.g.r, styles)
		ck := func(s string) (string, string, bool) {
			ok := validBody(s, st)
			var err error
			g, pan := protect(func() string {
				var g string
				g, err = astutil.Quote(s, st)
				return g
			})
			w := "an error"
			if ok {
				w = fmt.Sprintf("%q", delim[st]+s+delim[st])
			}
			got := fmt.Sprintf("%q", g)
			if pan != "" {
				got = "panic: " + pan
			} else if err != nil {
				got = "an error"
			}
			w, got = fmt.Sprintf("%s for style %d", w, st), fmt.Sprintf("%s for style %d", got, st)
			return w, got, w == got
		}
		c.nontrivial(s)
		c.diffFail(s, "quote", "quoting without escaping is not exact", ck)
	}
	props["C12"] = func(c *ctx) {
		s := c.bytesStr()
		st := pick(c.g.r, styles)
		ck := func(s string) (string, string, bool) {
			var w strings.Builder
			if st == ast.Bareword {
				if utf8.RuneCountInString(s) < 2 {
					return "", "", true
				}
				for i, r := range []rune(s) {
					switch {
					case r < 128 && isWord(byte(r)) && !(i == 0 && r >= '0' && r <= '9'):
						w.WriteRune(r)
					default:
						w.WriteByte('_')
					}
				}
			} else {
				if strings.HasSuffix(s, "\\") {
					return "", "", true
				}
				q := delim[st][0]
				w.WriteByte(q)
				for i := 0; i < len(s); i++ {
					if s[i] == q && (i == 0 || s[i-1] != '\\') {
						w.WriteByte('\\')
					}
					w.WriteByte(s[i])
				}
				w.WriteByte(q)
			}
			g, pan := protect(func() string { return astutil.QuoteWithEscape(s, st) })
			if pan != "" {
				g = "panic: " + pan
			}
			return fmt.Sprintf("%q for style %d", w.String(), st), fmt.Sprintf("%q for style %d", g, st), g == w.String()
		}
		c.nontrivial(s)
		c.diffFail(s, "quote", "quoting with escaping is not exact", ck)
	}
	props["C13"] = func(c *ctx) { checkApply(c) }
	props["C14"] = func(c *ctx) { checkApply(c) }
	props["C15"] = checkID
}

func isWord(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func validBody(s string, st ast.StringAttributeType) bool {
	if st == ast.Bareword {
		if len(s) < 2 || s[0] >= '0' && s[0] <= '9' {
			return false
		}
		for i := 0; i < len(s); i++ {
			if !isWord(s[i]) {
				return false
			}
		}
		return true
	}
	q := byte('"')
	if st == ast.SingleQuoted {
		q = '\''
	}
	for i := 0; i < len(s); i++ {
		if s[i] == q && (i == 0 || s[i-1] != '\\') {
			return false
		}
	}
	return !strings.HasSuffix(s, "\\")
}

// ------------------------------------------------------------ apply

type edit struct {
	op   int // 0 delete, 1 replace, 2 insert before, 3 insert after
	what ast.BranchOrPlugin
}

type applyCase struct {
	r      rng
	g      *gen
	next   int
	edits  map[string][]edit // by name of the visited plugin
	nilEd  [][]edit          // edits on nil entries, by their ordinal
	nilN   int
	shared []ast.BranchOrPlugin // storage all lists are cut from
	left   int
	inNew  bool
}

func (a *applyCase) fresh(pre string) ast.Plugin {
	a.next++
	p := ast.NewPlugin(fmt.Sprintf("%s%d", pre, a.next))
	if a.r.one(3) {
		p.Attributes = []ast.Attribute{ast.NewNumberAttribute("n", float64(a.next))}
	}
	if a.r.one(4) {
		p.Comment = ast.NewCommentBlock(ast.NewComment("c", false))
	}
	p.Start = ast.Pos{Line: a.next}
	return p
}

func (a *applyCase) list(d int, hist bool) []ast.BranchOrPlugin {
	var bs []ast.BranchOrPlugin
	a.left--
	n := 0
	if a.left > 0 {
		n = a.g.size(4)
	}
	for i := 0; i < n; i++ {
		switch {
		case a.r.one(12):
			bs = append(bs, nil)
		case d > 0 && a.r.one(3):
			bs = append(bs, a.branch(d-1, hist))
		default:
			p := a.fresh("p")
			if hist {
				p = a.fresh("new")
			}
			bs = append(bs, p)
		}
	}
	if n == 0 && a.r.one(2) {
		return nil
	}
	if a.shared != nil && !hist && a.r.one(2) {
		// cut the list out of common storage, the next list follows directly behind it
		k := len(a.shared)
		if k+len(bs) <= cap(a.shared) {
			a.shared = append(a.shared, bs...)
			return a.shared[k : k+len(bs)]
		}
	}
	if a.r.one(4) {
		return append(make([]ast.BranchOrPlugin, 0, len(bs)+3), bs...)
	}
	return bs
}

func (a *applyCase) branch(d int, hist bool) ast.Branch {
	mark := func() ast.Condition {
		return ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames(fmt.Sprint(a.next))))
	}
	ib := ast.NewIfBlock(mark(), a.list(d, hist)...)
	ib.Comment = ast.NewCommentBlock(ast.NewComment("if", false))
	ib.Start = ast.Pos{Line: a.next, Column: 1}
	var ei []ast.ElseIfBlock
	for i := a.g.size(2); i > 0; i-- {
		e := ast.NewElseIfBlock(mark(), a.list(d, hist)...)
		e.Start = ast.Pos{Line: a.next, Column: 2}
		if a.r.one(2) {
			e.FooterComment = ast.NewCommentBlock(ast.NewComment("f", true))
		}
		ei = append(ei, e)
	}
	eb := ast.NewElseBlock(a.list(d, hist)...)
	eb.Start = ast.Pos{Line: a.next, Column: 3}
	return ast.NewBranch(ib, eb, ei...)
}

func (a *applyCase) script() []edit {
	var es []edit
	if a.r.one(2) {
		return nil
	}
	for n := 1 + a.g.size(2); n > 0; n-- {
		op := a.r.Intn(4)
		e := edit{op: op}
		if op != 0 {
			switch {
			case a.r.one(5):
				e.what = a.branch(1, true)
			case a.r.one(12):
				e.what = nil
			default:
				e.what = a.fresh("new")
			}
		}
		es = append(es, e)
		if op == 0 {
			break
		}
	}
	return es
}

// model: the list after the visits, and the visits.
func (a *applyCase) model(bs []ast.BranchOrPlugin, log *[]string) []*Node {
	var out []*Node
	for _, b := range bs {
		switch x := b.(type) {
		case ast.Branch:
			n := convBop(ast.Branch{IfBlock: x.IfBlock, ElseIfBlock: x.ElseIfBlock, ElseBlock: x.ElseBlock})
			m := &Node{Kind: "branch", Pos: n.Pos}
			// if block: condition, then the list
			k := clone(n.Kids[0])
			k.Kids = append([]*Node{k.Kids[0]}, a.model(x.IfBlock.Block, log)...)
			m.Kids = append(m.Kids, k)
			for i := range x.ElseIfBlock {
				k := clone(n.Kids[1+i])
				k.Kids = append([]*Node{k.Kids[0]}, a.model(x.ElseIfBlock[i].Block, log)...)
				m.Kids = append(m.Kids, k)
			}
			k = clone(n.Kids[1+len(x.ElseIfBlock)])
			k.Kids = a.model(x.ElseBlock.Block, log)
			m.Kids = append(m.Kids, k)
			out = append(out, m)
		default:
			var es []edit
			if x == nil {
				*log = append(*log, "nil")
				es = a.nilEd[a.nilN]
				a.nilN++
			} else {
				*log = append(*log, x.(ast.Plugin).Name())
				es = a.edits[x.(ast.Plugin).Name()]
			}
			cur := []*Node{convBop(b)}
			var before, after []*Node
			for _, e := range es {
				switch e.op {
				case 0:
					cur = nil
				case 1:
					cur = []*Node{convBop(e.what)}
				case 2:
					before = append(before, convBop(e.what))
				case 3:
					after = append([]*Node{convBop(e.what)}, after...)
				}
			}
			out = append(out, before...)
			out = append(out, cur...)
			out = append(out, after...)
		}
	}
	return out
}

func (a *applyCase) scriptsFor(bs []ast.BranchOrPlugin) {
	for _, b := range bs {
		switch x := b.(type) {
		case nil:
			a.nilEd = append(a.nilEd, a.script())
		case ast.Plugin:
			a.edits[x.Name()] = a.script()
		case ast.Branch:
			a.scriptsFor(x.IfBlock.Block)
			for _, e := range x.ElseIfBlock {
				a.scriptsFor(e.Block)
			}
			a.scriptsFor(x.ElseBlock.Block)
		}
	}
}

func dumpList(ns []*Node) string {
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(dump(n, dumpOpt{pos: true, com: true, space: true}))
		b.WriteByte('\n')
	}
	return b.String()
}

func checkApply(c *ctx) {
	r := c.g.r
	a := &applyCase{r: r, g: c.g, edits: map[string][]edit{}, left: 3 + r.Intn(30)}
	if r.one(2) {
		a.shared = make([]ast.BranchOrPlugin, 0, 64)
	}
	root := a.list(3, false)
	a.scriptsFor(root)
	var wantLog []string
	want := dumpList(a.model(root, &wantLog))
	desc := "list:\n" + dumpList(convBops(root)) + "edits:\n"
	ops := []string{"delete", "replace", "insert before", "insert after"}
	show := func(name string, es []edit) {
		for _, e := range es {
			desc += fmt.Sprintf(" on %s: %s %s\n", name, ops[e.op], strings.ReplaceAll(dumpList([]*Node{convBop(e.what)}), "\n", " | "))
		}
	}
	for _, n := range wantLog {
		if n != "nil" {
			show(n, a.edits[n])
		}
	}
	for i, es := range a.nilEd {
		show(fmt.Sprintf("nil entry %d", i), es)
	}
	c.nontrivial(desc)
	var log []string
	bad := ""
	a.nilN = 0
	visit := func(cur *astutil.Cursor) {
		name := "nil"
		if p := cur.Plugin(); p != nil {
			name = p.Name()
		}
		log = append(log, name)
		var es []edit
		if name == "nil" {
			if a.nilN < len(a.nilEd) {
				es = a.nilEd[a.nilN]
			}
			a.nilN++
		} else {
			es = a.edits[name]
		}
		for i := 0; ; i++ {
			k := cur.Index()
			if k < 0 || k >= len(cur.Parent()) {
				bad = fmt.Sprintf("at %s after %d edits the index %d is outside the list of %d", name, i, k, len(cur.Parent()))
				return
			}
			now := dump(convBop(cur.Parent()[k]), dumpOpt{pos: true})
			var exp ast.BranchOrPlugin
			if name != "nil" {
				exp = findPlugin(root, name)
			}
			for _, e := range es[:i] {
				if e.op == 1 {
					exp = e.what
				}
			}
			if exp != nil || name == "nil" {
				if w := dump(convBop(exp), dumpOpt{pos: true}); w != now && bad == "" && (i == 0 || es[i-1].op != 0) && !(i > 0 && exp == nil) {
					bad = fmt.Sprintf("at %s after %d edits the cursor is at %s", name, i, now)
				}
			}
			if i >= len(es) {
				break
			}
			switch es[i].op {
			case 0:
				cur.Delete()
				return
			case 1:
				cur.Replace(es[i].what)
			case 2:
				cur.InsertBefore(es[i].what)
			case 3:
				cur.InsertAfter(es[i].what)
			}
		}
	}
	rec = map[string]ast.Plugin{}
	record(root)
	var res []ast.BranchOrPlugin
	_, pan := protect(func() string { res = astutil.ApplyPlugins(root, visit); return "" })
	if pan != "" {
		c.fail("apply", "applying a function panics", desc, "", pan)
	}
	if c.prop == "C13" {
		if !reflect.DeepEqual(log, wantLog) && len(log)+len(wantLog) > 0 {
			c.fail("visits", "not exactly the plugins of the list are visited, in order", desc, fmt.Sprint(wantLog), fmt.Sprint(log))
		}
		if bad != "" {
			c.fail("cursor", "the cursor does not report the current plugin", desc, "", bad)
		}
		return
	}
	if g := dumpList(convBops(res)); g != want {
		c.fail("edits", "the resulting list is not the original one with the edits", desc, want, g)
	}
	_ = errors.New
}

var rec map[string]ast.Plugin

// record remembers the plugins of the original list (the lists are changed in place).
func record(bs []ast.BranchOrPlugin) {
	for _, b := range bs {
		switch x := b.(type) {
		case ast.Plugin:
			rec[x.Name()] = x
		case ast.Branch:
			record(x.IfBlock.Block)
			for _, e := range x.ElseIfBlock {
				record(e.Block)
			}
			record(x.ElseBlock.Block)
		}
	}
}

func findPlugin(_ []ast.BranchOrPlugin, name string) ast.BranchOrPlugin {
	if p, ok := rec[name]; ok {
		return p
	}
	return nil
}

// ------------------------------------------------------------ ids and errors

type customNF struct{ msg string }

func (e customNF) Error() string { return e.msg }
func (e customNF) NotFound()     {}

type customWrap struct{ in error }

func (e customWrap) Error() string { return "custom: " + e.in.Error() }
func (e customWrap) Unwrap() error { return e.in }

func checkID(c *ctx) {
	r := c.g.r
	if r.one(2) {
		c.errorChain()
		return
	}
	t := &tgen{gen: c.g, left: 30}
	names := []string{"id", "id", "ID", "\"id\"", "id ", "i", "idx", "", "Id"}
	if len(c.d.newStrs) > 0 {
		names = append(names, pick(r, c.d.newStrs))
	}
	pn := c.g.str(true)
	p := ast.NewPlugin(pn)
	desc := fmt.Sprintf("plugin %q, attributes:", pn)
	kind, want := "absent", ""
	for n := c.g.size(4); n > 0; n-- {
		if r.one(6) {
			p.Attributes = append(p.Attributes, nil)
			desc += " nil"
			continue
		}
		name := pick(r, names)
		var a ast.Attribute
		if r.one(2) {
			a = ast.NewStringAttribute(name, c.g.str(true), pick(r, []ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword}))
		} else {
			a = t.attr(name, 2)
		}
		p.Attributes = append(p.Attributes, a)
		desc += fmt.Sprintf(" %q %T", name, a)
		if name == "id" && kind == "absent" {
			if s, ok := a.(ast.StringAttribute); ok {
				kind, want = "found", s.Value()
				desc += fmt.Sprintf(" %q", want)
			} else {
				kind = "misuse"
			}
		}
	}
	c.nontrivial(desc)
	var id string
	var err error
	_, pan := protect(func() string { id, err = p.ID(); return "" })
	got := "found"
	switch {
	case pan != "":
		got = "panic: " + pan
	case err != nil && ast.IsNotFoundError(err):
		got = "absent"
		if !strings.HasPrefix(err.Error(), "not found: ") {
			got = "absent, without the prefix: " + err.Error()
		}
	case err != nil:
		got = "misuse"
	}
	w := kind
	if kind == "found" {
		w = fmt.Sprintf("found %q", want)
	}
	if got == "found" {
		got = fmt.Sprintf("found %q", id)
	}
	if w != got {
		c.fail("id", "the id of a plugin is not its first id attribute", desc, w, got)
	}
}

func (c *ctx) errorChain() {
	r := c.g.r
	msg := c.g.str(true)
	var e error
	nf := false
	desc := ""
	switch r.Intn(4) {
	case 0:
		e = errors.New(msg)
		desc = "plain"
	case 1:
		e = ast.NewNotFoundError(errors.New(msg))
		nf = true
		desc = "NewNotFoundError"
		if e.Error() != "not found: "+msg {
			c.fail("error", "the text is not the wrapped text with the prefix", fmt.Sprintf("%q", msg), "not found: "+msg, e.Error())
		}
	case 2:
		e = customNF{msg}
		nf = true
		desc = "custom not-founder"
	case 3:
		e = ast.NotFoundErrorf("%s|%d", msg, 7)
		nf = true
		desc = "NotFoundErrorf"
		if w := "not found: " + fmt.Sprintf("%s|%d", msg, 7); e.Error() != w {
			c.fail("error", "the text is not the wrapped text with the prefix", fmt.Sprintf("%q", msg), w, e.Error())
		}
	}
	if r.one(20) {
		if ast.NewNotFoundError(nil) != nil {
			c.fail("error", "wrapping no error gives an error", "nil", "nil", "not nil")
		}
		if ast.IsNotFoundError(nil) {
			c.fail("error", "no error is classified as not found", "nil", "false", "true")
		}
	}
	for n := c.g.size(3); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			e = fmt.Errorf("w: %w", e)
			desc += " %w"
		case 1:
			e = pkgerrors.Wrap(e, "wrapped")
			desc += " pkg/errors.Wrap"
		case 2:
			e = pkgerrors.WithStack(e)
			desc += " pkg/errors.WithStack"
		case 3:
			e = customWrap{e}
			desc += " custom"
		case 4:
			w := "not found: " + e.Error()
			e = ast.NewNotFoundError(e)
			nf = true
			desc += " NewNotFoundError"
			if e.Error() != w {
				c.fail("error", "the text is not the wrapped text with the prefix", desc, w, e.Error())
			}
		case 5:
			e = fmt.Errorf("v: %v", e)
			nf = false
			desc += " %v"
		case 6:
			e = errors.Join(errors.New("other"), e)
			desc += " Join"
		case 7:
			w := "not found: " + fmt.Errorf("x %w", e).Error()
			e = ast.NotFoundErrorf("x %w", e)
			nf = true
			desc += " NotFoundErrorf"
			if e.Error() != w {
				c.fail("error", "the text is not the wrapped text with the prefix", desc, w, e.Error())
			}
		}
	}
	c.nontrivial(desc + msg)
	if g := ast.IsNotFoundError(e); g != nf {
		c.fail("error", "the classification of a wrapped error is wrong", desc, fmt.Sprint(nf), fmt.Sprint(g))
	}
	// printing with other verbs shows the same text
	if _, ok := e.(interface{ NotFound() }); ok && !strings.Contains(desc, "custom not-founder") {
		for _, v := range []string{"%v", "%s"} {
			if g := fmt.Sprintf(v, e); g != e.Error() {
				c.fail("error", "printing with "+v+" does not give the text of the error", desc, e.Error(), g)
			}
		}
		if g := fmt.Sprintf("%q", e); g != fmt.Sprintf("%q", e.Error()) {
			c.fail("error", "printing with %q does not give the quoted text of the error", desc, e.Error(), g)
		}
	}
}
