package main

// Conversion of trees of the package under test into the common form.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/breml/logstash-config/ast"
)

func cpos(p ast.Pos) rpos { return rpos{p.Line, p.Column, p.Offset} }

func ccom(cb ast.CommentBlock) []Com {
	var out []Com
	for _, c := range cb {
		var text string
		if f := reflect.ValueOf(c).FieldByName("comment"); f.IsValid() && f.Kind() == reflect.String {
			text = f.String()
		} else {
			d := c
			d.SpaceBefore, d.SpaceAfter = false, false
			text = strings.TrimSuffix(strings.TrimPrefix(d.String(), "# "), "\n")
		}
		out = append(out, Com{text, c.SpaceBefore, c.SpaceAfter})
	}
	return out
}

func convConfig(c ast.Config) *Node {
	n := &Node{Kind: "config", Pos: cpos(c.Pos()), Foot: ccom(c.FooterComment)}
	add := func(kind string, ss []ast.PluginSection) {
		for _, s := range ss {
			k := "?"
			switch s.PluginType {
			case ast.Input:
				k = "input"
			case ast.Filter:
				k = "filter"
			case ast.Output:
				k = "output"
			}
			if k != kind {
				k = kind + " section of type " + k
			}
			n.Kids = append(n.Kids, &Node{Kind: "section", Text: k, Pos: cpos(s.Pos()), Com: ccom(s.CommentBlock), Foot: ccom(s.FooterComment), Kids: convBops(s.BranchOrPlugins)})
		}
	}
	add("input", c.Input)
	add("filter", c.Filter)
	add("output", c.Output)
	return n
}

func convBops(bs []ast.BranchOrPlugin) []*Node {
	var out []*Node
	for _, b := range bs {
		out = append(out, convBop(b))
	}
	return out
}

func convBop(b ast.BranchOrPlugin) *Node {
	switch b := b.(type) {
	case nil:
		return &Node{Kind: "nil", NoPos: true}
	case ast.Plugin:
		return convPlugin(b)
	case *ast.Plugin:
		return convPlugin(*b)
	case *ast.Branch:
		return convBop(*b)
	case ast.Branch:
		n := &Node{Kind: "branch", Pos: cpos(b.Pos())}
		ib := b.IfBlock
		n.Kids = append(n.Kids, &Node{Kind: "if", Pos: cpos(ib.Pos()), Com: ccom(ib.Comment), Foot: ccom(ib.FooterComment), Kids: append([]*Node{convCond(ib.Condition)}, convBops(ib.Block)...)})
		for _, eb := range b.ElseIfBlock {
			n.Kids = append(n.Kids, &Node{Kind: "elsif", Pos: cpos(eb.Pos()), Com: ccom(eb.Comment), Foot: ccom(eb.FooterComment), Kids: append([]*Node{convCond(eb.Condition)}, convBops(eb.Block)...)})
		}
		el := b.ElseBlock
		if el.Start != (ast.Pos{}) || len(el.Block)+len(el.Comment)+len(el.FooterComment) > 0 {
			n.Kids = append(n.Kids, &Node{Kind: "else", Pos: cpos(el.Pos()), Com: ccom(el.Comment), Foot: ccom(el.FooterComment), Kids: convBops(el.Block)})
		}
		return n
	}
	return &Node{Kind: fmt.Sprintf("?%T", b)}
}

func convPlugin(p ast.Plugin) *Node {
	n := &Node{Kind: "plugin", Text: p.Name(), Pos: cpos(p.Pos()), Com: ccom(p.Comment), Foot: ccom(p.FooterComment)}
	for _, a := range p.Attributes {
		n.Kids = append(n.Kids, convAttr(a))
	}
	return n
}

func convAttr(a ast.Attribute) *Node {
	switch a := a.(type) {
	case nil:
		return &Node{Kind: "nil", NoPos: true}
	case ast.PluginAttribute:
		return &Node{Kind: "pluginattr", Text2: a.Name(), Pos: cpos(a.Pos()), Com: ccom(a.Comment), Kids: []*Node{convPlugin(a.Value())}}
	case ast.StringAttribute:
		k := "?string"
		switch a.StringAttributeType() {
		case ast.DoubleQuoted:
			k = "dstring"
		case ast.SingleQuoted:
			k = "sstring"
		case ast.Bareword:
			k = "bareword"
		}
		return &Node{Kind: k, Text2: a.Name(), Text: a.Value(), Pos: cpos(a.Pos()), Com: ccom(a.Comment)}
	case ast.NumberAttribute:
		return &Node{Kind: "number", Text2: a.Name(), Text: numKey(a.Value()), Pos: cpos(a.Pos()), Com: ccom(a.Comment)}
	case ast.ArrayAttribute:
		n := &Node{Kind: "array", Text2: a.Name(), Pos: cpos(a.Pos()), Com: ccom(a.Comment), Foot: ccom(a.FooterComment)}
		for _, v := range a.Value() {
			n.Kids = append(n.Kids, convAttr(v))
		}
		return n
	case ast.HashAttribute:
		n := &Node{Kind: "hash", Text2: a.Name(), Pos: cpos(a.Pos()), Com: ccom(a.Comment), Foot: ccom(a.FooterComment)}
		for _, v := range a.Value() {
			var k *Node
			if ka, ok := v.Key.(ast.Attribute); ok {
				k = convAttr(ka)
			} else {
				k = &Node{Kind: fmt.Sprintf("?%T", v.Key)}
			}
			e := &Node{Kind: "entry", Com: ccom(v.Comment), Kids: []*Node{k, convAttr(v.Value)}}
			if v.Key != nil {
				e.Pos = cpos(v.Pos())
			}
			n.Kids = append(n.Kids, e)
		}
		return n
	}
	return &Node{Kind: fmt.Sprintf("?%T", a)}
}

func convCond(c ast.Condition) *Node {
	n := &Node{Kind: "condition"}
	if len(c.Expression) == 0 || c.Expression[0] != nil {
		n.Pos = cpos(c.Pos())
	}
	for _, e := range c.Expression {
		n.Kids = append(n.Kids, convExpr(e))
	}
	return n
}

func convRv(v any) *Node {
	switch v := v.(type) {
	case nil:
		return &Node{Kind: "nil", NoPos: true}
	case ast.Selector:
		n := &Node{Kind: "selector", Pos: cpos(v.Pos())}
		for _, e := range v.Elements {
			t := e.String()
			if f := reflect.ValueOf(e).FieldByName("name"); f.IsValid() && f.Kind() == reflect.String {
				t = f.String()
			} else {
				t = strings.TrimSuffix(strings.TrimPrefix(t, "["), "]")
			}
			n.Kids = append(n.Kids, &Node{Kind: "selelem", Text: t, Pos: cpos(e.Pos())})
		}
		return n
	case ast.Regexp:
		return &Node{Kind: "regexp", Text: v.Regexp, Pos: cpos(v.Pos())}
	case ast.Attribute:
		return convAttr(v)
	}
	return &Node{Kind: fmt.Sprintf("?%T", v)}
}

func convBool(b ast.BooleanOperator) *Node {
	m := map[int]string{ast.NoOperator: "", ast.And: "and", ast.Or: "or", ast.Xor: "xor", ast.Nand: "nand"}
	t, ok := m[b.Op]
	if !ok {
		t = fmt.Sprintf("?%d", b.Op)
	}
	n := &Node{Kind: "op", Text: t, Pos: cpos(b.Pos())}
	if b.Op == ast.NoOperator {
		n.NoPos = true
	}
	return n
}

func convExpr(e ast.Expression) *Node {
	if e == nil {
		return &Node{Kind: "nil", NoPos: true}
	}
	n := &Node{Pos: cpos(e.Pos()), Kids: []*Node{convBool(e.BoolOperator())}}
	add := func(kind string, ks ...*Node) *Node {
		n.Kind = kind
		n.Kids = append(n.Kids, ks...)
		return n
	}
	switch e := e.(type) {
	case ast.ConditionExpression:
		return add("paren", convCond(e.Condition))
	case ast.NegativeConditionExpression:
		return add("notparen", convCond(e.Condition))
	case ast.NegativeSelectorExpression:
		return add("notselector", convRv(e.Selector))
	case ast.InExpression:
		return add("in", convRv(e.LValue), convRv(e.RValue))
	case ast.NotInExpression:
		return add("notin", convRv(e.LValue), convRv(e.RValue))
	case ast.RvalueExpression:
		return add("rvalue", convRv(e.RValue))
	case ast.CompareExpression:
		m := map[int]string{ast.Equal: "==", ast.NotEqual: "!=", ast.LessOrEqual: "<=", ast.GreaterOrEqual: ">=", ast.LessThan: "<", ast.GreaterThan: ">"}
		return add("compare", convRv(e.LValue), &Node{Kind: "op", Text: m[e.CompareOperator.Op], Pos: cpos(e.CompareOperator.Pos())}, convRv(e.RValue))
	case ast.RegexpExpression:
		m := map[int]string{ast.RegexpMatch: "=~", ast.RegexpNotMatch: "!~"}
		return add("match", convRv(e.LValue), &Node{Kind: "op", Text: m[e.RegexpOperator.Op], Pos: cpos(e.RegexpOperator.Pos())}, convRv(e.RValue))
	}
	return add(fmt.Sprintf("?%T", e))
}
