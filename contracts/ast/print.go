package ast

import (
	"fmt"
	"regexp"
	"strings"

	"bytes"

	"github.com/breml/logstash-config/internal/vc"
)

// ---- what the nodes print: the text of a node is a function of the node, and
// each String or ValueString method is proved to render its parts, once, in
// order, between the tokens of its kind. By induction on the tree, the printed
// text is the rendering of the whole tree.

func vcuf_text(n any) string                            { return "" }
func vcuf_value(n any) string                           { return "" }
func vcuf_commentOf(a any) string                       { return "" }
func vcuf_comments(cb CommentBlock) string              { return "" }
func vcuf_condition(c Condition) string                 { return "" }
func vcuf_selector(s Selector) string                   { return "" }
func vcuf_entry(he HashEntry) string                    { return "" }
func vcuf_section(ps PluginSection) string              { return "" }
func vcuf_sections(t string, ps []PluginSection) string { return "" }
func vcuf_if(b IfBlock) string                          { return "" }
func vcuf_elseIf(b ElseIfBlock) string                  { return "" }
func vcuf_else(b ElseBlock) string                      { return "" }
func vcuf_number(v NumberAttribute) string              { return "" }
func vcuf_indented(s string, empty bool) string         { return "" }

//vc:body ast.Attribute.String
func vcbody_AttributeString(a Attribute) string {
	vc.Assert("the attribute is there", a != nil)
	return vcuf_text(a)
}

//vc:body ast.Attribute.ValueString
func vcbody_AttributeValueString(a Attribute) string {
	vc.Assert("the attribute is there", a != nil)
	return vcuf_value(a)
}

//vc:body ast.Attribute.CommentBlock
func vcbody_AttributeCommentBlock(a Attribute) string {
	vc.Assert("the attribute is there", a != nil)
	return vcuf_commentOf(a)
}

//vc:body ast.Rvalue.ValueString
func vcbody_RvalueValueString(a Rvalue) string {
	vc.Assert("the value is there", a != nil)
	return vcuf_value(a)
}

//vc:body ast.StringOrRegexp.ValueString
func vcbody_StringOrRegexpValueString(a StringOrRegexp) string {
	vc.Assert("the value is there", a != nil)
	return vcuf_value(a)
}

//vc:body ast.HashEntryKey.ValueString
func vcbody_HashEntryKeyValueString(a HashEntryKey) string {
	vc.Assert("the key is there", a != nil)
	return vcuf_value(a)
}

//vc:body ast.BranchOrPlugin.String
func vcbody_BranchOrPluginString(a BranchOrPlugin) string { return vcuf_text(a) }

//vc:body ast.Expression.String
func vcbody_ExpressionString(a Expression) string { return vcuf_text(a) }

//vc:body (ast.CommentBlock).String
func vcbody_CommentBlockString(cb CommentBlock) string { return vcuf_comments(cb) }

//vc:body (ast.Condition).String
func vcbody_ConditionString(c Condition) string { return vcuf_condition(c) }

//vc:body (ast.Selector).String
func vcbody_SelectorString(s Selector) string { return vcuf_selector(s) }

//vc:body (ast.HashEntry).String
func vcbody_HashEntryString(he HashEntry) string {
	return vcuf_entry(he)
}

//vc:body (ast.PluginSection).String
func vcbody_PluginSectionString(ps PluginSection) string { return vcuf_section(ps) }

//vc:body (ast.Plugin).String
func vcbody_PluginString(p Plugin) string { return vcuf_text(p) }

//vc:body (ast.IfBlock).String
func vcbody_IfBlockString(b IfBlock) string { return vcuf_if(b) }

//vc:body (ast.ElseIfBlock).String
func vcbody_ElseIfBlockString(b ElseIfBlock) string { return vcuf_elseIf(b) }

//vc:body (ast.ElseBlock).String
func vcbody_ElseBlockString(b ElseBlock) string { return vcuf_else(b) }

//vc:body ast.pluginSectionString
func vcbody_pluginSectionString(t string, ps []PluginSection) string { return vcuf_sections(t, ps) }

//vc:body (ast.NumberAttribute).ValueString
func vcbody_NumberAttributeValueString(v NumberAttribute) string { return vcuf_number(v) }

//vc:body (ast.ArrayAttribute).ValueString
func vcbody_ArrayAttributeValueString(a ArrayAttribute) string { return vcuf_value(a) }

//vc:body (ast.HashAttribute).ValueString
func vcbody_HashAttributeValueString(a HashAttribute) string { return vcuf_value(a) }

//vc:body ast.prefix
func vcbody_prefix(s string, empty bool) string { return vcuf_indented(s, empty) }

// ---- comments

// vcspec_comment is one comment line, with the blank lines its place asks for.
func vcspec_comment(c Comment) string {
	t := "# " + c.comment + "\n"
	if c.SpaceBefore {
		t = "\n" + t
	}
	if c.SpaceAfter {
		t = t + "\n"
	}
	return t
}

// vcspec_comments is the first n comments.
func vcspec_comments(cb CommentBlock, n int) string {
	if n <= 0 {
		return ""
	}
	return vcspec_comments(cb, n-1) + vcspec_comment(cb[n-1])
}

//vc:prop C07
//vc:target (ast.Comment).String
func vccheck_CommentString(c Comment) {
	r := c.String()
	vc.Ensures("one comment line", r == vcspec_comment(c))
}

func vchint_comments(s bytes.Buffer, cb CommentBlock, ri int) bool {
	return s.String() == vcspec_comments(cb, ri+1)
}

//vc:prop C07
//vc:target (ast.CommentBlock).String
//vc:hints vchint_comments
func vccheck_CommentBlockString(cb CommentBlock) {
	r := cb.String()
	vc.Ensures("every comment once, in order", r == vcspec_comments(cb, len(cb)))
}

// ---- tokens of one line

//vc:prop C07
//vc:target (ast.PluginType).String
func vccheck_PluginTypeString(pt PluginType) {
	r := pt.String()
	vc.Ensures("input", vc.Implies(pt == Input, r == "input"))
	vc.Ensures("filter", vc.Implies(pt == Filter, r == "filter"))
	vc.Ensures("output", vc.Implies(pt == Output, r == "output"))
}

//vc:prop C07
//vc:target (ast.StringAttributeType).String
func vccheck_StringAttributeTypeString(t StringAttributeType) {
	r := t.String()
	vc.Ensures("double quotes", vc.Implies(t == DoubleQuoted, r == "\""))
	vc.Ensures("single quotes", vc.Implies(t == SingleQuoted, r == "'"))
	vc.Ensures("no quotes", vc.Implies(t == Bareword, r == ""))
}

// vcspec_quote is the delimiter of a string of this type.
func vcspec_quote(t StringAttributeType) string {
	if t == DoubleQuoted {
		return "\""
	}
	if t == SingleQuoted {
		return "'"
	}
	return ""
}

//vc:prop C07
//vc:target (ast.CompareOperator).String
func vccheck_CompareOperatorString(o CompareOperator) {
	r := o.String()
	vc.Ensures("==", vc.Implies(o.Op == Equal, r == "=="))
	vc.Ensures("!=", vc.Implies(o.Op == NotEqual, r == "!="))
	vc.Ensures("<=", vc.Implies(o.Op == LessOrEqual, r == "<="))
	vc.Ensures(">=", vc.Implies(o.Op == GreaterOrEqual, r == ">="))
	vc.Ensures("<", vc.Implies(o.Op == LessThan, r == "<"))
	vc.Ensures(">", vc.Implies(o.Op == GreaterThan, r == ">"))
}

func vcspec_compare(o CompareOperator) string {
	switch o.Op {
	case Equal:
		return "=="
	case NotEqual:
		return "!="
	case LessOrEqual:
		return "<="
	case GreaterOrEqual:
		return ">="
	case LessThan:
		return "<"
	}
	return ">"
}

//vc:prop C07
//vc:target (ast.RegexpOperator).String
func vccheck_RegexpOperatorString(o RegexpOperator) {
	r := o.String()
	vc.Ensures("=~", vc.Implies(o.Op == RegexpMatch, r == "=~"))
	vc.Ensures("!~", vc.Implies(o.Op == RegexpNotMatch, r == "!~"))
}

// vcspec_bool is a boolean operator between two expressions.
func vcspec_bool(o BooleanOperator) string {
	switch o.Op {
	case And:
		return " and "
	case Or:
		return " or "
	case Xor:
		return " xor "
	case Nand:
		return " nand "
	}
	return ""
}

func vcspec_known(o BooleanOperator) bool { return o.Op >= NoOperator && o.Op <= Nand }

//vc:prop C07
//vc:target (ast.BooleanOperator).String
func vccheck_BooleanOperatorString(o BooleanOperator) {
	r := o.String()
	vc.Ensures("the operator's word", vc.Implies(vcspec_known(o), r == vcspec_bool(o)))
}

//vc:prop C07
//vc:target (ast.Regexp).String
func vccheck_RegexpString(r Regexp) {
	s := r.String()
	vc.Ensures("between slashes", s == "/"+r.Regexp+"/")
}

//vc:prop C07
//vc:target (ast.Regexp).ValueString
func vccheck_RegexpValueString(r Regexp) {
	s := r.ValueString()
	vc.Ensures("between slashes", s == "/"+r.Regexp+"/")
}

//vc:prop C07
//vc:target (ast.SelectorElement).String
func vccheck_SelectorElementString(e SelectorElement) {
	s := e.String()
	vc.Ensures("between brackets", s == "["+e.name+"]")
}

func vcspec_elements(es []SelectorElement, n int) string {
	if n <= 0 {
		return ""
	}
	return vcspec_elements(es, n-1) + "[" + es[n-1].name + "]"
}

func vchint_elements(bb bytes.Buffer, s Selector, ri int) bool {
	return bb.String() == vcspec_elements(s.Elements, ri+1)
}

//vc:prop C07
//vc:target (ast.Selector).String
//vc:hints vchint_elements
func vccheck_SelectorString(s Selector) {
	r := s.String()
	vc.Ensures("every element once, in order", r == vcspec_elements(s.Elements, len(s.Elements)))
}

//vc:prop C07
//vc:target (ast.Selector).ValueString
func vccheck_SelectorValueString(s Selector) {
	r := s.ValueString()
	vc.Ensures("the selector", r == s.String())
}

// ---- attributes

//vc:prop C07
//vc:target (ast.StringAttribute).ValueString
func vccheck_StringAttributeValueString(a StringAttribute) {
	vc.Requires(a.sat == DoubleQuoted || a.sat == SingleQuoted || a.sat == Bareword)
	r := a.ValueString()
	vc.Ensures("the value between its quotes", r == vcspec_quote(a.sat)+a.value+vcspec_quote(a.sat))
}

//vc:prop C07
//vc:target (ast.StringAttribute).String
func vccheck_StringAttributeString(a StringAttribute) {
	vc.Requires(a.sat == DoubleQuoted || a.sat == SingleQuoted || a.sat == Bareword)
	r := a.String()
	vc.Ensures("name and value", r == a.name+" => "+vcspec_quote(a.sat)+a.value+vcspec_quote(a.sat))
}

//vc:prop C07
//vc:target (ast.StringAttribute).CommentBlock
func vccheck_StringAttributeCommentBlock(a StringAttribute) {
	r := a.CommentBlock()
	vc.Ensures("its comment", r == a.Comment.String())
}

//vc:prop C07
//vc:target (ast.NumberAttribute).String
func vccheck_NumberAttributeString(a NumberAttribute) {
	r := a.String()
	vc.Ensures("name and value", r == a.name+" => "+a.ValueString())
}

//vc:prop C07
//vc:target (ast.NumberAttribute).CommentBlock
func vccheck_NumberAttributeCommentBlock(a NumberAttribute) {
	r := a.CommentBlock()
	vc.Ensures("its comment", r == a.Comment.String())
}

//vc:prop C07
//vc:target (ast.PluginAttribute).ValueString
func vccheck_PluginAttributeValueString(a PluginAttribute) {
	r := a.ValueString()
	vc.Ensures("the plugin", r == a.value.String())
}

//vc:prop C07
//vc:target (ast.PluginAttribute).String
func vccheck_PluginAttributeString(a PluginAttribute) {
	r := a.String()
	vc.Ensures("name and value", r == a.name+" => "+a.value.String())
}

//vc:prop C07
//vc:target (ast.PluginAttribute).CommentBlock
func vccheck_PluginAttributeCommentBlock(a PluginAttribute) {
	r := a.CommentBlock()
	vc.Ensures("its comment", r == a.Comment.String())
}

// vcspec_items: the first n array elements, nil ones left out.
func vcspec_items(as []Attribute, n int) string {
	if n <= 0 {
		return ""
	}
	a, t := as[n-1], vcspec_items(as, n-1)
	if a == nil {
		return t
	}
	if vcspec_some(as, n-1) {
		t += ",\n"
	}
	return t + a.CommentBlock() + a.ValueString()
}

// vcspec_some: one of the first n elements is not nil.
func vcspec_some(as []Attribute, n int) bool {
	if n <= 0 {
		return false
	}
	return as[n-1] != nil || vcspec_some(as, n-1)
}

func vchint_items(ss bytes.Buffer, aa ArrayAttribute, ri int) bool {
	return ss.String() == vcspec_items(aa.Attributes, ri+1)
}
func vchint_itemsStart(s bytes.Buffer) bool { return s.String() == "[" }
func vchint_itemsFirst(first bool, aa ArrayAttribute, ri int) bool {
	return first == !vcspec_some(aa.Attributes, ri+1)
}

func vcspec_gap(s, gap string) string {
	if s == "" {
		return ""
	}
	return s + gap
}

//vc:prop C07
//vc:target (ast.ArrayAttribute).ValueString
//vc:hints vchint_items vchint_itemsStart vchint_itemsFirst
func vccheck_ArrayAttributeValueString(a ArrayAttribute) {
	r := a.ValueString()
	vc.Ensures("the elements, separated, then the footer comment, in brackets",
		r == "["+prefix(vcspec_gap(vcspec_items(a.Attributes, len(a.Attributes)), "\n\n")+a.FooterComment.String(), false)+"]")
}

//vc:prop C07
//vc:target (ast.ArrayAttribute).String
func vccheck_ArrayAttributeString(a ArrayAttribute) {
	r := a.String()
	vc.Ensures("name and value", r == a.name+" => "+a.ValueString())
}

//vc:prop C07
//vc:target (ast.ArrayAttribute).CommentBlock
func vccheck_ArrayAttributeCommentBlock(a ArrayAttribute) {
	r := a.CommentBlock()
	vc.Ensures("its comment", r == a.Comment.String())
}

// ---- hashes

func vcspec_keys(es []HashEntry) bool {
	return vc.Forall(0, len(es), func(k int) bool { return es[k].Key != nil })
}

// vcspec_entries: the first n entries, one per line.
func vcspec_entries(es []HashEntry, n int) string {
	if n <= 0 {
		return ""
	}
	return vcspec_entries(es, n-1) + es[n-1].String() + "\n"
}

func vchint_entries(ss bytes.Buffer, ha HashAttribute, ri int) bool {
	return ss.String() == vcspec_entries(ha.Entries, ri+1)
}
func vchint_entriesStart(s bytes.Buffer) bool { return s.String() == "{" }

//vc:prop C07
//vc:target (ast.HashAttribute).ValueString
//vc:hints vchint_entries vchint_entriesStart
func vccheck_HashAttributeValueString(a HashAttribute) {
	r := a.ValueString()
	vc.Ensures("the entries, one per line, then the footer comment, in braces",
		r == "{"+prefix(vcspec_gap(vcspec_entries(a.Entries, len(a.Entries)), "\n")+a.FooterComment.String(), false)+"}")
}

//vc:prop C07
//vc:target (ast.HashAttribute).String
func vccheck_HashAttributeString(a HashAttribute) {
	r := a.String()
	vc.Ensures("name and value", r == a.name+" => "+a.ValueString())
}

//vc:prop C07
//vc:target (ast.HashAttribute).CommentBlock
func vccheck_HashAttributeCommentBlock(a HashAttribute) {
	r := a.CommentBlock()
	vc.Ensures("its comment", r == a.Comment.String())
}

//vc:prop C07
//vc:target (ast.HashEntry).String
func vccheck_HashEntryString(e HashEntry) {
	vc.Requires(e.Key != nil)
	r := e.String()
	v := ""
	if e.Value != nil {
		v = e.Value.ValueString()
	}
	vc.Ensures("comment, key and value", r == e.Comment.String()+e.Key.ValueString()+" => "+v)
}

// ---- plugins

// vcspec_attrs: the first n attributes, nil ones left out, one per line.
func vcspec_attrs(as []Attribute, n int) string {
	if n <= 0 {
		return ""
	}
	a, t := as[n-1], vcspec_attrs(as, n-1)
	if a == nil {
		return t
	}
	return t + a.CommentBlock() + a.String() + "\n"
}

func vchint_attrs(ss bytes.Buffer, p Plugin, ri int) bool {
	return ss.String() == vcspec_attrs(p.Attributes, ri+1)
}
func vchint_attrsStart(s bytes.Buffer, p Plugin) bool {
	return s.String() == p.Comment.String()+p.name+" {"
}

//vc:prop C07
//vc:target (ast.Plugin).String
//vc:hints vchint_attrs vchint_attrsStart
func vccheck_PluginString(p Plugin) {
	r := p.String()
	vc.Ensures("comment, name and attributes in braces",
		r == p.Comment.String()+p.name+" {"+prefix(vcspec_gap(vcspec_attrs(p.Attributes, len(p.Attributes)), "\n")+p.FooterComment.String(), false)+"}")
}

// vcspec_blocks: the first n branches and plugins, nil ones left out, a blank line between them.
func vcspec_blocks(bs []BranchOrPlugin, n int) string {
	if n <= 0 {
		return ""
	}
	b, t := bs[n-1], vcspec_blocks(bs, n-1)
	if b == nil {
		return t
	}
	return vcspec_gap(vcspec_gap(t, "\n")+fmt.Sprint(b), "\n")
}

func vchint_blocks(s bytes.Buffer, ps PluginSection, ri int) bool {
	return s.String() == vcspec_blocks(ps.BranchOrPlugins, ri+1)
}

//vc:prop C07
//vc:target (ast.PluginSection).String
//vc:hints vchint_blocks
func vccheck_PluginSectionString(ps PluginSection) {
	r := ps.String()
	vc.Ensures("every branch and plugin once, in order", r == vcspec_blocks(ps.BranchOrPlugins, len(ps.BranchOrPlugins)))
}

// vcspec_sections: the first n of m sections.
func vcspec_sections(t string, ps []PluginSection, n, m int) string {
	if n <= 0 {
		return ""
	}
	p := ps[n-1]
	r := vcspec_sections(t, ps, n-1, m) + p.CommentBlock.String() + t + " {" + prefix(p.String(), false) + prefix(p.FooterComment.String(), false) + "}\n"
	if n < m {
		r += "\n"
	}
	return r
}

func vchint_sections(s bytes.Buffer, pluginType string, ps []PluginSection, ri int) bool {
	return s.String() == vcspec_sections(pluginType, ps, ri+1, len(ps))
}

//vc:prop C07
//vc:target ast.pluginSectionString
//vc:hints vchint_sections
func vccheck_pluginSectionString(t string, ps []PluginSection) {
	r := pluginSectionString(t, ps)
	vc.Ensures("every section once, in order", r == vcspec_sections(t, ps, len(ps), len(ps)))
}

func vchint_footer(s bytes.Buffer, c Config, ri int) bool {
	return s.String() == pluginSectionString("input", c.Input)+pluginSectionString("filter", c.Filter)+pluginSectionString("output", c.Output)+vcspec_comments(c.FooterComment, ri+1)
}

//vc:prop C07
//vc:target (ast.Config).String
//vc:hints vchint_footer
func vccheck_ConfigString(c Config) {
	r := c.String()
	vc.Ensures("inputs, filters, outputs and the footer comment",
		r == pluginSectionString("input", c.Input)+pluginSectionString("filter", c.Filter)+pluginSectionString("output", c.Output)+vcspec_comments(c.FooterComment, len(c.FooterComment)))
}

// ---- branches

// vcspec_elseIfs: the first n else-if blocks.
func vcspec_elseIfs(bs []ElseIfBlock, n int) string {
	if n <= 0 {
		return ""
	}
	return vcspec_elseIfs(bs, n-1) + bs[n-1].String()
}

func vchint_elseIfs(s bytes.Buffer, b Branch, ri int) bool {
	return s.String() == b.IfBlock.String()+vcspec_elseIfs(b.ElseIfBlock, ri+1)
}

//vc:prop C07
//vc:target (ast.Branch).String
//vc:hints vchint_elseIfs
func vccheck_BranchString(b Branch) {
	r := b.String()
	vc.Ensures("if, every else-if, else", r == b.IfBlock.String()+vcspec_elseIfs(b.ElseIfBlock, len(b.ElseIfBlock))+b.ElseBlock.String())
}

// vcspec_block is the text between the braces.
func vcspec_block(bs []BranchOrPlugin, footer CommentBlock) string {
	return prefix(vcspec_gap(vcspec_blocks(bs, len(bs)), "\n")+footer.String(), true)
}

// vcspec_lead separates else from the block before it.
func vcspec_lead(cb CommentBlock) string {
	if len(cb) > 0 {
		return "\n" + cb.String()
	}
	return " "
}

func vchint_ifBlocks(ss bytes.Buffer, ib IfBlock, ri int) bool {
	return ss.String() == vcspec_blocks(ib.Block, ri+1)
}
func vchint_ifStart(s bytes.Buffer, ib IfBlock) bool {
	return s.String() == ib.Comment.String()+"if "+ib.Condition.String()+" {"
}

//vc:prop C07
//vc:target (ast.IfBlock).String
//vc:hints vchint_ifBlocks vchint_ifStart
func vccheck_IfBlockString(b IfBlock) {
	r := b.String()
	vc.Ensures("comment, condition and block", r == b.Comment.String()+"if "+b.Condition.String()+" {"+vcspec_block(b.Block, b.FooterComment)+"}")
}

func vchint_elseIfBlocks(ss bytes.Buffer, eib ElseIfBlock, ri int) bool {
	return ss.String() == vcspec_blocks(eib.Block, ri+1)
}
func vchint_elseIfStart(s bytes.Buffer, eib ElseIfBlock) bool {
	return s.String() == vcspec_lead(eib.Comment)+"else if "+eib.Condition.String()+" {"
}

//vc:prop C07
//vc:target (ast.ElseIfBlock).String
//vc:hints vchint_elseIfBlocks vchint_elseIfStart
func vccheck_ElseIfBlockString(b ElseIfBlock) {
	r := b.String()
	vc.Ensures("comment, condition and block", r == vcspec_lead(b.Comment)+"else if "+b.Condition.String()+" {"+vcspec_block(b.Block, b.FooterComment)+"}")
}

func vchint_elseBlocks(ss bytes.Buffer, eb ElseBlock, ri int) bool {
	return ss.String() == vcspec_blocks(eb.Block, ri+1)
}
func vchint_elseStart(s bytes.Buffer, eb ElseBlock) bool {
	return s.String() == vcspec_lead(eb.Comment)+"else {"
}

// vcspec_noElse: nothing was there, in the source or in the tree.
func vcspec_noElse(b ElseBlock) bool {
	return len(b.Block) == 0 && len(b.Comment) == 0 && len(b.FooterComment) == 0 && b.Start.Line == 0 && b.Start.Column == 0 && b.Start.Offset == 0
}

//vc:prop C07
//vc:target (ast.ElseBlock).String
//vc:hints vchint_elseBlocks vchint_elseStart
func vccheck_ElseBlockString(b ElseBlock) {
	r := b.String()
	vc.Ensures("nothing without an else", vc.Implies(vcspec_noElse(b), r == ""))
	vc.Ensures("comment and block", vc.Implies(!vcspec_noElse(b), r == vcspec_lead(b.Comment)+"else {"+vcspec_block(b.Block, b.FooterComment)+"}"))
}

// ---- conditions

func vcspec_expressions(es []Expression, n int) string {
	if n <= 0 {
		return ""
	}
	e, t := es[n-1], vcspec_expressions(es, n-1)
	if e == nil {
		return t
	}
	return t + fmt.Sprint(e)
}

func vchint_expressions(s bytes.Buffer, c Condition, ri int) bool {
	return s.String() == vcspec_expressions(c.Expression, ri+1)
}

//vc:prop C07
//vc:target (ast.Condition).String
//vc:hints vchint_expressions
func vccheck_ConditionString(c Condition) {
	r := c.String()
	vc.Ensures("every expression once, in order", r == vcspec_expressions(c.Expression, len(c.Expression)))
}

//vc:prop C07
//vc:target (ast.BoolExpression).String
func vccheck_BoolExpressionString(e BoolExpression) {
	vc.Requires(vcspec_known(e.boolOperator))
	r := e.String()
	vc.Ensures("its operator", r == vcspec_bool(e.boolOperator))
}

func vcspec_op(e *BoolExpression) bool { return e != nil && vcspec_known(e.boolOperator) }

// vcspec_rvalue is the text of an operand, nothing for nil.
func vcspec_rvalue(v Rvalue) string {
	if v == nil {
		return ""
	}
	return v.ValueString()
}

//vc:prop C07
//vc:target (ast.ConditionExpression).String
func vccheck_ConditionExpressionString(e ConditionExpression) {
	vc.Requires(vcspec_op(e.BoolExpression))
	r := e.String()
	vc.Ensures("operator and condition in parentheses", r == vcspec_bool(e.BoolExpression.boolOperator)+"("+e.Condition.String()+")")
}

//vc:prop C07
//vc:target (ast.NegativeConditionExpression).String
func vccheck_NegativeConditionExpressionString(e NegativeConditionExpression) {
	vc.Requires(vcspec_op(e.BoolExpression))
	r := e.String()
	vc.Ensures("operator and negated condition in parentheses", r == vcspec_bool(e.BoolExpression.boolOperator)+"!("+e.Condition.String()+")")
}

//vc:prop C07
//vc:target (ast.NegativeSelectorExpression).String
func vccheck_NegativeSelectorExpressionString(e NegativeSelectorExpression) {
	vc.Requires(vcspec_op(e.BoolExpression))
	r := e.String()
	vc.Ensures("operator and negated selector", r == vcspec_bool(e.BoolExpression.boolOperator)+"!"+e.Selector.String())
}

//vc:prop C07
//vc:target (ast.InExpression).String
func vccheck_InExpressionString(e InExpression) {
	vc.Requires(vcspec_op(e.BoolExpression))
	r := e.String()
	vc.Ensures("operator, value in value", r == vcspec_bool(e.BoolExpression.boolOperator)+vcspec_rvalue(e.LValue)+" in "+vcspec_rvalue(e.RValue))
}

//vc:prop C07
//vc:target (ast.NotInExpression).String
func vccheck_NotInExpressionString(e NotInExpression) {
	vc.Requires(vcspec_op(e.BoolExpression))
	r := e.String()
	vc.Ensures("operator, value not in value", r == vcspec_bool(e.BoolExpression.boolOperator)+vcspec_rvalue(e.LValue)+" not in "+vcspec_rvalue(e.RValue))
}

//vc:prop C07
//vc:target (ast.RvalueExpression).String
func vccheck_RvalueExpressionString(e RvalueExpression) {
	vc.Requires(vcspec_op(e.BoolExpression))
	r := e.String()
	vc.Ensures("operator and value", r == vcspec_bool(e.BoolExpression.boolOperator)+vcspec_rvalue(e.RValue))
}

//vc:prop C07
//vc:target (ast.CompareExpression).String
func vccheck_CompareExpressionString(e CompareExpression) {
	vc.Requires(vcspec_op(e.BoolExpression) && e.CompareOperator.Op >= Equal && e.CompareOperator.Op <= GreaterThan)
	r := e.String()
	vc.Ensures("operator and comparison", r == vcspec_bool(e.BoolExpression.boolOperator)+vcspec_rvalue(e.LValue)+" "+vcspec_compare(e.CompareOperator)+" "+vcspec_rvalue(e.RValue))
}

func vcspec_match(o RegexpOperator) string {
	if o.Op == RegexpMatch {
		return "=~"
	}
	return "!~"
}

func vcspec_pattern(v StringOrRegexp) string {
	if v == nil {
		return ""
	}
	return v.ValueString()
}

//vc:prop C07
//vc:target (ast.RegexpExpression).String
func vccheck_RegexpExpressionString(e RegexpExpression) {
	vc.Requires(vcspec_op(e.BoolExpression) && (e.RegexpOperator.Op == RegexpMatch || e.RegexpOperator.Op == RegexpNotMatch))
	r := e.String()
	vc.Ensures("operator and match", r == vcspec_bool(e.BoolExpression.boolOperator)+vcspec_rvalue(e.LValue)+" "+vcspec_match(e.RegexpOperator)+" "+vcspec_pattern(e.RValue))
}

// ---- indentation

func vcuf_chunks(s string) int          { return 0 }
func vcuf_chunk(s string, k int) string { return "" }

// vcspec_joined is the first n chunks of s, one after the other.
func vcspec_joined(s string, n int) string {
	if n <= 0 {
		return ""
	}
	return vcspec_joined(s, n-1) + vcuf_chunk(s, n-1)
}

// The pattern cuts a text that ends with a line break into chunks: blank lines
// and lines, where quoted strings, regular expressions and selectors are not cut.
// That it cuts, and cuts nothing away, is assumed here (and searched for by the
// bounded part of the check).
//
//vc:body (*regexp.Regexp).FindAllString
func vcbody_FindAllString(re *regexp.Regexp, s string, n int) []string {
	vc.Assert("all matches are asked for", n < 0)
	vc.Assert("the text ends with a line break", len(s) > 0 && s[len(s)-1] == '\n')
	vc.Assert("the pattern is the one that cuts a text into lines", re.String() == "(\\n|\\s*#[^\\n]*\\n|([^\"'/\\[\\n]|\"(\\\\\"|[^\"])*\"|'(\\\\'|[^'])*'|/(\\\\/|[^/])*/|\\[[^\\],\\n][^\\],]*\\]|[\"'/\\[])*\\n)")
	ls := vc.Any[[]string]("lines")
	vc.Assume(len(ls) == vcuf_chunks(s) && vcspec_joined(s, vcuf_chunks(s)) == s)
	vc.Assume(vc.Forall(0, len(ls), func(k int) bool { return ls[k] == vcuf_chunk(s, k) }))
	return ls
}

// vcspec_line indents one chunk, a blank one becomes an empty line.
func vcspec_line(l string) string {
	if strings.TrimLeft(l, " \n") == "" {
		return "\n"
	}
	return "  " + l
}

func vcspec_lines(s string, n int) string {
	if n <= 0 {
		return ""
	}
	return vcspec_lines(s, n-1) + vcspec_line(vcuf_chunk(s, n-1))
}

func vchint_lines(s bytes.Buffer, in string, ri int) bool {
	return s.String() == "\n"+vcspec_lines(strings.TrimRight(in, "\n")+"\n", ri+1)
}

//vc:prop C07
//vc:target ast.prefix
//vc:hints vchint_lines
func vccheck_prefix(in string, empty bool) {
	r := prefix(in, empty)
	t := strings.TrimRight(in, "\n") + "\n"
	vc.Ensures("nothing to indent", vc.Implies(in == "" && !empty, r == ""))
	vc.Ensures("an empty block", vc.Implies(in == "" && empty, r == "\n"))
	vc.Ensures("every chunk once, in order, indented", vc.Implies(in != "", r == "\n"+vcspec_lines(t, vcuf_chunks(t))))
	vc.Ensures("the chunks are the text", vc.Implies(in != "", vcspec_joined(t, vcuf_chunks(t)) == t))
}
