package main

// Reference tree construction: what a match of each rule means.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// A Node is the common form of reference trees and parsed trees.
type Node struct {
	Kind   string
	Text   string // name, value or operator
	Text2  string
	Pos    rpos
	NoPos  bool
	Com    []Com
	Foot   []Com
	Kids   []*Node
	Groups bool
}

type Com struct {
	Text   string
	Before bool
	After  bool
}

type comList []Com // value of the comment rule
type wsMark struct{}

func flat(v any) []any {
	switch v := v.(type) {
	case nil:
		return nil
	case []any:
		return v
	}
	return []any{v}
}

func (p *refParser) block(v any, before, after bool) []Com {
	var out []Com
	for _, x := range flat(v) {
		switch x := x.(type) {
		case comList:
			for i, c := range x {
				if i == 0 && before && len(out) == 0 {
					c.Before = true
				}
				out = append(out, c)
			}
		case wsMark:
			if after && len(out) > 0 {
				out[len(out)-1].After = true
			}
		}
	}
	return out
}

func kids(v any) []*Node {
	var out []*Node
	for _, x := range flat(v) {
		if n, ok := x.(*Node); ok {
			out = append(out, n)
		}
	}
	return out
}

func clone(n *Node) *Node { c := *n; return &c }

func (p *refParser) act(e *expr) any {
	sc := p.scopes[len(p.scopes)-1]
	arg := func(i int) any { return sc[e.args[i]] }
	node := func(kind string) *Node { return &Node{Kind: kind, Pos: p.cur} }
	txt := p.curText
	if strings.HasPrefix(e.fn, "=") {
		switch e.fn {
		case "=ast.Input":
			return "input"
		case "=ast.Filter":
			return "filter"
		case "=ast.Output":
			return "output"
		}
		return &Node{Kind: "config", Pos: rpos{1, 1, 0}}
	}
	switch e.fn {
	case "ret":
		return arg(0)
	case "retConfig":
		return arg(0)
	case "str", "enclosedValue":
		return txt
	case "whitespace":
		return wsMark{}
	case "comment":
		if p.ignoreC {
			return comList(nil)
		}
		return refComments(txt)
	case "configSection":
		n := clone(arg(0).(*Node))
		n.Com = p.block(arg(1), false, false)
		return n
	case "config":
		n := &Node{Kind: "config", Pos: rpos{1, 1, 0}}
		secs := append([]*Node{clone(arg(0).(*Node))}, kids(arg(1))...)
		secs[0].Com = p.block(arg(2), false, true)
		for _, k := range []string{"input", "filter", "output"} {
			for _, s := range secs {
				if s.Text == k {
					n.Kids = append(n.Kids, s)
				}
			}
		}
		n.Foot = p.block(arg(3), true, false)
		return n
	case "pluginSection":
		n := node("section")
		n.Text = arg(0).(string)
		n.Kids = kids(arg(1))
		n.Foot = p.block(arg(2), false, false)
		return n
	case "plugin":
		nm := arg(0).(*Node)
		n := node("plugin")
		n.Pos = nm.Pos
		n.Text = quoted(nm)
		n.Kids = kids(arg(1))
		n.Com = p.block(arg(2), false, false)
		n.Foot = p.block(arg(3), false, false)
		return n
	case "attributes":
		first := asAttr(arg(0).(*Node))
		first.Com = p.block(arg(2), false, false)
		return flatten(first, arg(1))
	case "attributeComment":
		n := asAttr(arg(0).(*Node))
		n.Com = p.block(arg(1), true, false)
		return n
	case "attribute":
		n := asAttr(arg(1).(*Node))
		n.Text2 = quoted(arg(0).(*Node))
		n.Pos = p.cur
		return n
	case "string":
		n := node("string")
		switch e.args[0] {
		case "ast.Bareword":
			n.Kind, n.Text = "bareword", txt
		case "ast.DoubleQuoted":
			n.Kind, n.Text = "dstring", txt[1:len(txt)-1]
		case "ast.SingleQuoted":
			n.Kind, n.Text = "sstring", txt[1:len(txt)-1]
		}
		return n
	case "regexp":
		n := node("regexp")
		n.Text = txt[1 : len(txt)-1]
		return n
	case "number":
		n := node("number")
		f, err := strconv.ParseFloat(txt, 64)
		if err != nil {
			p.actErrs = append(p.actErrs, "number out of range")
		}
		n.Text = numKey(f)
		return n
	case "array":
		n := node("array")
		n.Kids = kids(arg(0))
		n.Foot = p.block(arg(1), false, false)
		return n
	case "hash":
		n := node("hash")
		n.Kids = kids(arg(0))
		n.Foot = p.block(arg(1), false, false)
		return n
	case "hashentries":
		first := clone(arg(0).(*Node))
		if len(first.Com) > 0 {
			first.Com = append([]Com{}, first.Com...)
			first.Com[0].Before = false
		}
		return flatten(first, arg(1))
	case "hashentry":
		n := node("entry")
		k := arg(0).(*Node)
		n.Pos = k.Pos
		n.Kids = []*Node{k, asAttr(arg(1).(*Node))}
		n.Com = p.block(arg(2), true, false)
		return n
	case "elseIfComment", "elseComment":
		n := clone(arg(0).(*Node))
		n.Com = p.block(arg(1), false, false)
		return n
	case "branch":
		n := node("branch")
		ib := clone(arg(0).(*Node))
		ib.Com = p.block(arg(3), false, false)
		n.Pos = ib.Pos
		n.Kids = append(n.Kids, ib)
		n.Kids = append(n.Kids, kids(arg(1))...)
		if el, ok := arg(2).(*Node); ok {
			n.Kids = append(n.Kids, el)
		}
		return n
	case "branchOrPluginComment":
		n := clone(arg(0).(*Node))
		if n.Kind == "branch" {
			ks := append([]*Node{}, n.Kids...)
			ks[0] = clone(ks[0])
			ks[0].Com = p.block(arg(1), false, false)
			n.Kids = ks
		} else {
			n.Com = p.block(arg(1), false, false)
		}
		return n
	case "ifBlock", "elseIfBlock":
		n := node(map[string]string{"ifBlock": "if", "elseIfBlock": "elsif"}[e.fn])
		n.Kids = append([]*Node{arg(0).(*Node)}, kids(arg(1))...)
		n.Foot = p.block(arg(2), false, false)
		return n
	case "elseBlock":
		n := node("else")
		n.Kids = kids(arg(0))
		n.Foot = p.block(arg(1), false, false)
		return n
	case "condition":
		n := node("condition")
		n.Kids = append([]*Node{arg(0).(*Node)}, kids(arg(1))...)
		n.Pos = n.Kids[0].Pos
		return n
	case "expression":
		n := clone(arg(1).(*Node))
		bo := arg(0).(*Node)
		n.Kids = append([]*Node{bo}, n.Kids[1:]...)
		return n
	case "conditionExpression", "negativeExpression", "negativeSelector", "rvalue":
		n := node(map[string]string{"conditionExpression": "paren", "negativeExpression": "notparen", "negativeSelector": "notselector", "rvalue": "rvalue"}[e.fn])
		n.Kids = []*Node{noOp(), arg(0).(*Node)}
		return n
	case "inExpression", "notInExpression":
		n := node(map[string]string{"inExpression": "in", "notInExpression": "notin"}[e.fn])
		n.Kids = []*Node{noOp(), arg(0).(*Node), arg(1).(*Node)}
		return n
	case "compareExpression", "regexpExpression":
		n := node(map[string]string{"compareExpression": "compare", "regexpExpression": "match"}[e.fn])
		n.Kids = []*Node{noOp(), arg(0).(*Node), arg(1).(*Node), arg(2).(*Node)}
		return n
	case "compareOperator", "regexpOperator", "booleanOperator":
		n := node("op")
		n.Text = txt
		return n
	case "selector":
		n := node("selector")
		n.Kids = kids(arg(0))
		return n
	case "selectorElement":
		n := node("selelem")
		n.Text = txt[1 : len(txt)-1]
		return n
	}
	panic("reference: action " + e.fn)
}

func noOp() *Node { return &Node{Kind: "op", Text: "", NoPos: true} }

func flatten(first *Node, rest any) []any {
	out := []any{first}
	for _, k := range kids(rest) {
		out = append(out, k)
	}
	return out
}

// asAttr gives the form a value has in an attribute position; plugins are wrapped.
func asAttr(n *Node) *Node {
	if n.Kind == "plugin" {
		return &Node{Kind: "pluginattr", Pos: n.Pos, Kids: []*Node{n}}
	}
	return clone(n)
}

func quoted(n *Node) string {
	switch n.Kind {
	case "dstring":
		return `"` + n.Text + `"`
	case "sstring":
		return `'` + n.Text + `'`
	}
	return n.Text
}

func numKey(f float64) string { return fmt.Sprintf("%016x", math.Float64bits(f)) }

func refComments(txt string) comList {
	txt = strings.Trim(strings.ReplaceAll(txt, "\r", ""), "\n")
	var out comList
	space := false
	for i, l := range strings.Split(txt, "\n") {
		k := strings.IndexByte(l, '#')
		if k < 0 {
			if i > 0 {
				space = true
			}
			continue
		}
		out = append(out, Com{Text: strings.Trim(l[k+1:], " "), Before: space})
		space = false
	}
	return out
}

type dumpOpt struct {
	pos, com, space bool
	noTree          bool
}

func dump(n *Node, o dumpOpt) string {
	var b strings.Builder
	dumpTo(&b, n, o, 0)
	return b.String()
}

func dumpTo(b *strings.Builder, n *Node, o dumpOpt, d int) {
	ind := strings.Repeat(" ", d)
	com := func(tag string, cs []Com) {
		for _, c := range cs {
			fmt.Fprintf(b, "%s%s %q", ind, tag, c.Text)
			if o.space {
				fmt.Fprintf(b, " %v %v", c.Before, c.After)
			}
			b.WriteByte('\n')
		}
	}
	if n == nil {
		fmt.Fprintf(b, "%snil\n", ind)
		return
	}
	if o.com {
		com("#", n.Com)
	}
	b.WriteString(ind + n.Kind)
	if n.Text2 != "" {
		fmt.Fprintf(b, " %q =>", n.Text2)
	}
	if n.Text != "" {
		fmt.Fprintf(b, " %q", n.Text)
	}
	if o.pos && !n.NoPos {
		fmt.Fprintf(b, " @%d:%d[%d]", n.Pos.Line, n.Pos.Col, n.Pos.Off)
	}
	b.WriteByte('\n')
	for _, k := range n.Kids {
		dumpTo(b, k, o, d+1)
	}
	if o.com {
		com("#end", n.Foot)
	}
}
