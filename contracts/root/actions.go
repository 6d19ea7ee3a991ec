package config

import (
	"strconv"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/vc"
)

// The functions called by the grammar's actions: each builds one node from
// the values of its labels, at the current position, and leaves all other
// memory alone. MayPanic lists exactly the label values they do not accept.

func vcspec_pos(c *current) ast.Pos {
	return ast.Pos{Line: c.pos.line, Column: c.pos.col, Offset: c.pos.offset}
}

// vcspec_n and vcspec_item: a label value as a list.
func vcspec_n(v interface{}) int {
	if v == nil {
		return 0
	}
	if s, ok := v.([]interface{}); ok {
		return len(s)
	}
	return 1
}
func vcspec_item(v interface{}, k int) interface{} {
	if s, ok := v.([]interface{}); ok {
		return s[k]
	}
	return v
}
func vcspec_one(v interface{}) bool {
	_, ok := v.([]interface{})
	return v != nil && !ok
}

func vcspec_isAttr(v interface{}) bool  { _, ok := v.(ast.Attribute); return ok }
func vcspec_isEntry(v interface{}) bool { _, ok := v.(ast.HashEntry); return ok }
func vcspec_isBop(v interface{}) bool   { _, ok := v.(ast.BranchOrPlugin); return ok }
func vcspec_isExpr(v interface{}) bool  { _, ok := v.(ast.Expression); return ok }
func vcspec_isEib(v interface{}) bool   { _, ok := v.(ast.ElseIfBlock); return ok }
func vcspec_isSE(v interface{}) bool    { _, ok := v.(ast.SelectorElement); return ok }
func vcspec_isStr(v interface{}) bool   { _, ok := v.(ast.StringAttribute); return ok }
func vcspec_isRv(v interface{}) bool    { _, ok := v.(ast.Rvalue); return ok }
func vcspec_isCond(v interface{}) bool  { _, ok := v.(ast.Condition); return ok }

//vc:prop C04 C05
//vc:target (*config.current).astPos
func vccheck_act_astPos(c *current) {
	vc.Requires(c != nil)
	r := c.astPos()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the current position", r == vcspec_pos(c))
}

//vc:prop C04
//vc:target (*config.current).ret
func vccheck_act_ret(c *current, el interface{}) {
	vc.Requires(c != nil)
	v, err := c.ret(el)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the value itself", v == el && err == nil)
}

//vc:prop C04
//vc:target (*config.current).str
func vccheck_act_str(c *current) {
	vc.Requires(c != nil)
	s, err := c.str()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the text", s == string(c.text) && err == nil)
}

//vc:prop C04
//vc:target (*config.current).enclosedValue
func vccheck_act_enclosedValue(c *current) {
	vc.Requires(c != nil)
	vc.MayPanic(len(c.text) < 2)
	s, err := c.enclosedValue()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the text without delimiters", err == nil && s == string(c.text)[1:len(c.text)-1])
}

//vc:prop C04 C06
//vc:target (*config.current).whitespace
func vccheck_act_whitespace(c *current) {
	vc.Requires(c != nil)
	_, err := c.whitespace()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("no error", err == nil)
}

//vc:prop C06
//vc:target (*config.current).comment
func vccheck_act_comment(c *current) {
	vc.Requires(c != nil)
	ign, ok := c.globalStore[ignoreComment].(bool)
	r, err := c.comment()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("no error", err == nil)
	vc.Ensures("ignored if asked", vc.Implies(ok && ign, len(r) == 0))
}

// vcspec_coms are the comments of one item, vcspec_ncom the number of those of
// the first k items.
func vcspec_coms(v interface{}) []ast.Comment { cs, _ := v.([]ast.Comment); return cs }
func vcspec_ncom(in []interface{}, k int) int {
	if k <= 0 {
		return 0
	}
	return vcspec_ncom(in, k-1) + len(vcspec_coms(in[k-1]))
}

// vcspec_sameText: the same comment up to the blank-line markers.
func vcspec_sameText(a, b ast.Comment) bool {
	a.SpaceBefore, a.SpaceAfter = b.SpaceBefore, b.SpaceAfter
	return a == b
}
func vcspec_sameTexts(out, in []ast.Comment, from int) bool {
	return from >= 0 && from+len(in) <= len(out) && vc.Forall(0, len(in), func(j int) bool { return vcspec_sameText(out[from+j], in[j]) })
}

// vcspec_carries: out has, in order, the comments of the first k items of in.
func vcspec_carries(out []ast.Comment, in []interface{}, k int) bool {
	return vc.Forall(0, k, func(i int) bool { return vcspec_sameTexts(out, vcspec_coms(in[i]), vcspec_ncom(in, i)) })
}

// vcspec_head: the first comments among the items from k on. Only their
// leading blank-line marker may be set.
func vcspec_head(in []interface{}, k int) int {
	if k < 0 || k >= len(in) || len(vcspec_coms(in[k])) > 0 {
		return k
	}
	return vcspec_head(in, k+1)
}
func vcspec_marked(v interface{}, spaceBefore bool) []ast.Comment {
	if !spaceBefore {
		return nil
	}
	if list, ok := v.([]interface{}); ok {
		if h := vcspec_head(list, 0); 0 <= h && h < len(list) {
			return vcspec_coms(list[h])
		}
		return nil
	}
	return vcspec_coms(v)
}

// vcspec_block: the comments of a label value, in order and once.
func vcspec_block(r ast.CommentBlock, v interface{}) bool {
	list, ok := v.([]interface{})
	return vc.Implies(v == nil, len(r) == 0) && vc.Implies(ok, len(r) == vcspec_ncom(list, len(list)) && vcspec_carries(r, list, len(list)))
}
func vchint_comments(comments []ast.Comment, comments1 []interface{}, ri int) bool {
	return len(comments) == vcspec_ncom(comments1, ri+1) && vcspec_carries(comments, comments1, ri+1) &&
		vc.Implies(len(comments) == 0, vcspec_head(comments1, 0) == vcspec_head(comments1, ri+1))
}

//vc:prop C06
//vc:target (*config.current).commentBlock
//vc:hints vchint_comments
func vccheck_act_commentBlock(c *current, comment1 interface{}, spaceBefore bool, spaceAfter bool) {
	vc.Requires(c != nil)
	marked := vcspec_marked(comment1, spaceBefore)
	vc.Frame(vc.Arr(marked))
	r := c.commentBlock(comment1, spaceBefore, spaceAfter)
	vc.Ensures("frame", vc.OnlyChanged(vc.Arr(marked)))
	vc.Ensures("every comment, in order and once", vcspec_block(r, comment1))
}

//vc:prop C04 C06
//vc:target (*config.current).configSection
//vc:use (*config.current).commentBlock
func vccheck_act_configSection(c *current, ps1, psComment1 interface{}) {
	vc.Requires(c != nil)
	in, ok := ps1.(ast.PluginSection)
	r, err := c.configSection(ps1, psComment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the section with its comments", vc.Implies(ok, err == nil && r.Start == in.Start && r.PluginType == in.PluginType &&
		vcspec_sameBops(r.BranchOrPlugins, in.BranchOrPlugins) && vcspec_sameComments(r.FooterComment, in.FooterComment)))
	vc.Ensures("nothing else is a section", vc.Implies(!ok, err != nil))
	vc.Ensures("comments", vc.Implies(ok, vcspec_block(r.CommentBlock, psComment1)))
}

func vcspec_sameBops(a, b []ast.BranchOrPlugin) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(k int) bool { return a[k] == b[k] })
}
func vcspec_sameComments(a, b ast.CommentBlock) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(k int) bool { return a[k] == b[k] })
}

func vcspec_kindOf(v interface{}) int {
	if ps, ok := v.(ast.PluginSection); ok {
		return int(ps.PluginType)
	}
	return -1
}

// vcspec_nkind counts the sections of a kind among the first k of a list.
func vcspec_nkind(in []interface{}, kind, k int) int {
	if k <= 0 {
		return 0
	}
	if vcspec_kindOf(in[k-1]) == kind {
		return vcspec_nkind(in, kind, k-1) + 1
	}
	return vcspec_nkind(in, kind, k-1)
}
func vcspec_isKind(v interface{}) bool {
	k := vcspec_kindOf(v)
	return k == int(ast.Input) || k == int(ast.Filter) || k == int(ast.Output)
}

// vcspec_sameBody: the same section, its leading comments aside.
func vcspec_sameBody(a, b ast.PluginSection) bool {
	return a.Start == b.Start && a.PluginType == b.PluginType && vc.Same(a.BranchOrPlugins, b.BranchOrPlugins) && vc.Same(a.FooterComment, b.FooterComment)
}
func vcspec_lead(ps1 interface{}, kind int) int {
	if vcspec_kindOf(ps1) == kind {
		return 1
	}
	return 0
}

// vcspec_sections: out has exactly the sections of the kind, in order, of the
// one ps1 and the first k of the list in.
func vcspec_sections(out []ast.PluginSection, ps1 interface{}, in []interface{}, kind, k int) bool {
	return len(out) == vcspec_lead(ps1, kind)+vcspec_nkind(in, kind, k) &&
		vc.Implies(vcspec_kindOf(ps1) == kind, vcspec_sameBody(out[0], ps1.(ast.PluginSection))) &&
		vc.Forall(0, k, func(i int) bool {
			at := vcspec_lead(ps1, kind) + vcspec_nkind(in, kind, i)
			return vc.Implies(vcspec_kindOf(in[i]) == kind, 0 <= at && at < len(out) && vc.Same(out[at], in[i].(ast.PluginSection)))
		})
}
func vcspec_upTo(out []ast.PluginSection, ps1, pss1 interface{}, kind, ri int) bool {
	list, ok := pss1.([]interface{})
	return vc.Implies(ok && vcspec_one(ps1), vc.Implies(ri >= 0, vcspec_sections(out, ps1, list, kind, ri) && vcspec_nkind(list, kind, ri) >= 0)) && vc.Implies(ri < 0, len(out) == 0)
}
func vchint_input(input []ast.PluginSection, ps1, pss1 interface{}, ri int) bool {
	return vcspec_upTo(input, ps1, pss1, int(ast.Input), ri)
}
func vchint_filter(filter []ast.PluginSection, ps1, pss1 interface{}, ri int) bool {
	return vcspec_upTo(filter, ps1, pss1, int(ast.Filter), ri)
}
func vchint_output(output []ast.PluginSection, ps1, pss1 interface{}, ri int) bool {
	return vcspec_upTo(output, ps1, pss1, int(ast.Output), ri)
}
func vchint_first(first bool, ri int) bool { return first == (ri < 0) }

//vc:prop C04 C06
//vc:target (*config.current).config
//vc:use (*config.current).commentBlock
//vc:hints vchint_input vchint_filter vchint_output vchint_first
func vccheck_act_config(c *current, ps1, pss1, psComment1, footerComment1 interface{}) {
	vc.Requires(c != nil)
	list, ok := pss1.([]interface{})
	n := len(list)
	ok = ok && vcspec_one(ps1) && vcspec_isKind(ps1) && vc.Forall(0, n, func(i int) bool { return vcspec_isKind(list[i]) })
	vc.Frame([]ast.Comment(nil), []interface{}(nil))
	r, err := c.config(ps1, pss1, psComment1, footerComment1)
	vc.Ensures("frame", vc.OnlyChanged([]ast.Comment(nil), []interface{}(nil)))
	if ok {
		vc.Ensures("no error", err == nil)
		vc.Ensures("the inputs", vcspec_sections(r.Input, ps1, list, int(ast.Input), n))
		vc.Ensures("the filters", vcspec_sections(r.Filter, ps1, list, int(ast.Filter), n))
		vc.Ensures("the outputs", vcspec_sections(r.Output, ps1, list, int(ast.Output), n))
		vc.Ensures("comments", vcspec_block(r.FooterComment, footerComment1))
	}
}

//vc:prop C04 C06
//vc:target (*config.current).retConfig
func vccheck_act_retConfig(c *current, el interface{}) {
	vc.Requires(c != nil)
	_, err := c.retConfig(el)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("no error", err == nil)
}

func vcspec_allBops(v interface{}, n int) bool {
	return vc.Forall(0, n, func(k int) bool { return vcspec_isBop(vcspec_item(v, k)) })
}
func vchint_bops(bops []ast.BranchOrPlugin, in []interface{}, i int) bool {
	return len(bops) == i+1 && vc.Forall(0, i+1, func(k int) bool { return vcspec_isBop(in[k]) && bops[k] == in[k].(ast.BranchOrPlugin) })
}

//vc:prop C04 C05 C06
//vc:target (*config.current).pluginSection
//vc:use (*config.current).commentBlock (*config.current).astPos
//vc:hints vchint_bops
func vccheck_act_pluginSection(c *current, pt1, bops1, footerComment1 interface{}) {
	vc.Requires(c != nil)
	pt, ok := pt1.(int)
	n := vcspec_n(bops1)
	vc.MayPanic(!ok || !vcspec_allBops(bops1, n))
	r, err := c.pluginSection(pt1, bops1, footerComment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("kind and place", err == nil && r.PluginType == ast.PluginType(pt) && r.Start == vcspec_pos(c))
	vc.Ensures("all entries, in order", len(r.BranchOrPlugins) == n && vc.Forall(0, n, func(k int) bool { return r.BranchOrPlugins[k] == vcspec_item(bops1, k).(ast.BranchOrPlugin) }))
	vc.Ensures("comments", vcspec_block(r.FooterComment, footerComment1) && len(r.CommentBlock) == 0)
}

//vc:prop C04 C05
//vc:target (*config.current).branchOrPlugins
//vc:hints vchint_bops
func vccheck_act_branchOrPlugins(c *current, bops1 interface{}) {
	vc.Requires(c != nil)
	n := vcspec_n(bops1)
	r := c.branchOrPlugins(bops1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("all entries, in order", vc.Implies(vcspec_allBops(bops1, n), len(r) == n && vc.Forall(0, n, func(k int) bool { return r[k] == vcspec_item(bops1, k).(ast.BranchOrPlugin) })))
}

func vcspec_isBlock(r []ast.BranchOrPlugin, bops interface{}) bool {
	n := vcspec_n(bops)
	return vc.Implies(vcspec_allBops(bops, n), len(r) == n && vc.Forall(0, n, func(k int) bool { return r[k] == vcspec_item(bops, k).(ast.BranchOrPlugin) }))
}
func vcspec_sameExprs(a, b []ast.Expression) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(k int) bool { return a[k] == b[k] })
}

//vc:prop C04 C05 C06
//vc:target (*config.current).ifBlock
//vc:use (*config.current).commentBlock (*config.current).astPos (*config.current).branchOrPlugins
func vccheck_act_ifBlock(c *current, cond, bops, comment1 interface{}) {
	vc.Requires(c != nil)
	in, ok := cond.(ast.Condition)
	vc.MayPanic(!ok)
	r, err := c.ifBlock(cond, bops, comment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("condition, block and place", err == nil && r.Start == vcspec_pos(c) && vcspec_isBlock(r.Block, bops) && vcspec_sameExprs(r.Condition.Expression, in.Expression) && len(r.Comment) == 0)
	vc.Ensures("comments", vcspec_block(r.FooterComment, comment1))
}

//vc:prop C04 C05 C06
//vc:target (*config.current).elseIfBlock
//vc:use (*config.current).commentBlock (*config.current).astPos (*config.current).branchOrPlugins
func vccheck_act_elseIfBlock(c *current, cond, bops, comment1 interface{}) {
	vc.Requires(c != nil)
	in, ok := cond.(ast.Condition)
	vc.MayPanic(!ok)
	r, err := c.elseIfBlock(cond, bops, comment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("condition, block and place", err == nil && r.Start == vcspec_pos(c) && vcspec_isBlock(r.Block, bops) && vcspec_sameExprs(r.Condition.Expression, in.Expression) && len(r.Comment) == 0)
	vc.Ensures("comments", vcspec_block(r.FooterComment, comment1))
}

//vc:prop C04 C05 C06
//vc:target (*config.current).elseBlock
//vc:use (*config.current).commentBlock (*config.current).astPos (*config.current).branchOrPlugins
func vccheck_act_elseBlock(c *current, bops, comment1 interface{}) {
	vc.Requires(c != nil)
	r, err := c.elseBlock(bops, comment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("block and place", err == nil && r.Start == vcspec_pos(c) && vcspec_isBlock(r.Block, bops) && len(r.Comment) == 0)
	vc.Ensures("comments", vcspec_block(r.FooterComment, comment1))
}

//vc:prop C04 C06
//vc:target (*config.current).elseIfComment
//vc:use (*config.current).commentBlock
func vccheck_act_elseIfComment(c *current, eib1, eibComment1 interface{}) {
	vc.Requires(c != nil)
	in, ok := eib1.(ast.ElseIfBlock)
	vc.MayPanic(!ok)
	r, err := c.elseIfComment(eib1, eibComment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the same block", err == nil && r.Start == in.Start && vcspec_sameBops(r.Block, in.Block) && vcspec_sameExprs(r.Condition.Expression, in.Condition.Expression))
	vc.Ensures("comments", vcspec_block(r.Comment, eibComment1) && vcspec_sameComments(r.FooterComment, in.FooterComment))
}

//vc:prop C04 C06
//vc:target (*config.current).elseComment
//vc:use (*config.current).commentBlock
func vccheck_act_elseComment(c *current, eb1, ebComment1 interface{}) {
	vc.Requires(c != nil)
	in, ok := eb1.(ast.ElseBlock)
	vc.MayPanic(!ok)
	r, err := c.elseComment(eb1, ebComment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the same block", err == nil && r.Start == in.Start && vcspec_sameBops(r.Block, in.Block))
	vc.Ensures("comments", vcspec_block(r.Comment, ebComment1) && vcspec_sameComments(r.FooterComment, in.FooterComment))
}

func vchint_eibs(out []ast.ElseIfBlock, in []interface{}, i int) bool {
	return len(out) == i+1 && vc.Forall(0, i+1, func(k int) bool { return vcspec_isEib(in[k]) && vc.Same(out[k], in[k].(ast.ElseIfBlock)) })
}

//vc:prop C04 C06
//vc:target (*config.current).branch
//vc:use (*config.current).commentBlock
//vc:hints vchint_eibs
func vccheck_act_branch(c *current, ifBlock1, elseIfBlocks1, elseBlock1, ifComment interface{}) {
	vc.Requires(c != nil)
	n := vcspec_n(elseIfBlocks1)
	ib, ok := ifBlock1.(ast.IfBlock)
	eb, okE := elseBlock1.(ast.ElseBlock)
	vc.MayPanic(!ok || elseBlock1 != nil && !okE)
	r, err := c.branch(ifBlock1, elseIfBlocks1, elseBlock1, ifComment)
	vc.Ensures("frame", vc.OnlyChanged())
	all := vc.Forall(0, n, func(k int) bool { return vcspec_isEib(vcspec_item(elseIfBlocks1, k)) })
	vc.Ensures("if and else block", vc.Implies(all, err == nil && r.IfBlock.Start == ib.Start && vcspec_sameBops(r.IfBlock.Block, ib.Block) && vcspec_sameExprs(r.IfBlock.Condition.Expression, ib.Condition.Expression) &&
		vc.Implies(elseBlock1 != nil, r.ElseBlock.Start == eb.Start && vcspec_sameBops(r.ElseBlock.Block, eb.Block)) && vc.Implies(elseBlock1 == nil, len(r.ElseBlock.Block) == 0 && len(r.ElseBlock.Comment) == 0)))
	if all {
		vc.Ensures("else-if blocks, in order", len(r.ElseIfBlock) == n && vc.Forall(0, n, func(k int) bool {
			return vc.Same(r.ElseIfBlock[k], vcspec_item(elseIfBlocks1, k).(ast.ElseIfBlock))
		}))
	}
	vc.Ensures("comments", vc.Implies(all, vcspec_block(r.IfBlock.Comment, ifComment) && vcspec_sameComments(r.IfBlock.FooterComment, ib.FooterComment) && vc.Implies(okE, vcspec_sameComments(r.ElseBlock.Comment, eb.Comment) && vcspec_sameComments(r.ElseBlock.FooterComment, eb.FooterComment))))
}

//vc:prop C04 C06
//vc:target (*config.current).branchOrPluginComment
//vc:use (*config.current).commentBlock
func vccheck_act_branchOrPluginComment(c *current, bop1, comment1 interface{}) {
	vc.Requires(c != nil)
	p, okP := bop1.(ast.Plugin)
	b, okB := bop1.(ast.Branch)
	r, err := c.branchOrPluginComment(bop1, comment1)
	vc.Ensures("frame", vc.OnlyChanged([]ast.Comment(nil)))
	rp, isP := r.(ast.Plugin)
	rb, isB := r.(ast.Branch)
	vc.Ensures("the same plugin", vc.Implies(okP, err == nil && isP && rp.Start == p.Start && rp.Name() == p.Name() && vcspec_sameAttrs(rp.Attributes, p.Attributes)))
	vc.Ensures("the same branch", vc.Implies(okB, err == nil && isB && rb.IfBlock.Start == b.IfBlock.Start && vcspec_sameBops(rb.IfBlock.Block, b.IfBlock.Block) && len(rb.ElseIfBlock) == len(b.ElseIfBlock) && vcspec_sameBops(rb.ElseBlock.Block, b.ElseBlock.Block)))
	vc.Ensures("nothing else", vc.Implies(!okP && !okB, err != nil))
}

func vcspec_sameAttrs(a, b []ast.Attribute) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(k int) bool { return a[k] == b[k] })
}

//vc:prop C04 C05 C06
//vc:target (*config.current).plugin
//vc:use (*config.current).commentBlock
func vccheck_act_plugin(c *current, name1, attributes1, comment1, footerComment1 interface{}) {
	vc.Requires(c != nil)
	name, ok := name1.(ast.StringAttribute)
	as, okA := attributes1.([]ast.Attribute)
	vc.MayPanic(!ok || attributes1 != nil && !okA)
	r, err := c.plugin(name1, attributes1, comment1, footerComment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("name and place", err == nil && r.Start == name.Start && r.Name() == name.ValueString())
	vc.Ensures("all attributes, in order", vc.Implies(attributes1 == nil, len(r.Attributes) == 0) && vc.Implies(okA, vcspec_sameAttrs(r.Attributes, as)))
	vc.Ensures("comments", vcspec_block(r.Comment, comment1) && vcspec_block(r.FooterComment, footerComment1))
}

func vchint_attrs(out []ast.Attribute, in []interface{}, ri int) bool {
	return len(out) == ri+1 && vc.Forall(0, ri+1, func(k int) bool { return vcspec_isAttr(in[k]) && out[k] == in[k].(ast.Attribute) })
}

//vc:prop C04
//vc:target (*config.current).attributes
//vc:slow
//vc:use (*config.current).attributeComment
//vc:hints vchint_attrs
func vccheck_act_attributes(c *current, attribute1, attributes1, comment1 interface{}) {
	vc.Requires(c != nil)
	n := vcspec_n(attributes1)
	okFirst := vcspec_isValue(attribute1)
	all := vc.Forall(0, n, func(k int) bool { return vcspec_isAttr(vcspec_item(attributes1, k)) })
	r, err := c.attributes(attribute1, attributes1, comment1)
	vc.Ensures("frame", vc.OnlyChanged())
	if okFirst && all {
		vc.Ensures("one for each", err == nil && len(r) == n+1)
		vc.Ensures("the first with its comment", vcspec_sameValue(attribute1, r[0]))
		vc.Ensures("the others as they are", vc.Forall(0, n, func(k int) bool { return r[k+1] == vcspec_item(attributes1, k).(ast.Attribute) }))
	}
}

// vcspec_isValue: the values an attribute can have.
func vcspec_isValue(v interface{}) bool {
	switch v.(type) {
	case ast.StringAttribute, ast.NumberAttribute, ast.ArrayAttribute, ast.HashAttribute, ast.PluginAttribute, ast.Plugin:
		return true
	}
	return false
}

// vcspec_sameValue: r is v, its comment aside; a plugin is wrapped.
func vcspec_sameValue(v interface{}, r ast.Attribute) bool {
	switch a := v.(type) {
	case ast.StringAttribute:
		b, ok := r.(ast.StringAttribute)
		return ok && a.Start == b.Start && a.Name() == b.Name() && a.Value() == b.Value() && a.StringAttributeType() == b.StringAttributeType()
	case ast.NumberAttribute:
		b, ok := r.(ast.NumberAttribute)
		return ok && a.Start == b.Start && a.Name() == b.Name() && vc.Same(a.Value(), b.Value())
	case ast.ArrayAttribute:
		b, ok := r.(ast.ArrayAttribute)
		return ok && a.Start == b.Start && a.Name() == b.Name() && vcspec_sameAttrs(a.Attributes, b.Attributes) && len(a.FooterComment) == len(b.FooterComment)
	case ast.HashAttribute:
		b, ok := r.(ast.HashAttribute)
		return ok && a.Start == b.Start && a.Name() == b.Name() && len(a.Entries) == len(b.Entries) && len(a.FooterComment) == len(b.FooterComment)
	case ast.PluginAttribute:
		b, ok := r.(ast.PluginAttribute)
		return ok && a.Start == b.Start && a.Name() == b.Name()
	case ast.Plugin:
		b, ok := r.(ast.PluginAttribute)
		return ok && a.Start == b.Start && b.Name() == "" && b.Value().Start == a.Start && b.Value().Name() == a.Name() && vcspec_sameAttrs(b.Value().Attributes, a.Attributes)
	}
	return false
}

// vcspec_commentOf are the comments before a value.
func vcspec_commentOf(v ast.Attribute) ast.CommentBlock {
	switch a := v.(type) {
	case ast.StringAttribute:
		return a.Comment
	case ast.NumberAttribute:
		return a.Comment
	case ast.ArrayAttribute:
		return a.Comment
	case ast.HashAttribute:
		return a.Comment
	case ast.PluginAttribute:
		return a.Comment
	}
	return nil
}

// vcspec_sameFooters: the comments inside a value are as they were.
func vcspec_sameFooters(v interface{}, r ast.Attribute) bool {
	switch a := v.(type) {
	case ast.ArrayAttribute:
		b, ok := r.(ast.ArrayAttribute)
		return ok && vcspec_sameComments(b.FooterComment, a.FooterComment)
	case ast.HashAttribute:
		b, ok := r.(ast.HashAttribute)
		return ok && vcspec_sameComments(b.FooterComment, a.FooterComment)
	case ast.Plugin:
		b, ok := r.(ast.PluginAttribute)
		return ok && vcspec_sameComments(b.Value().FooterComment, a.FooterComment) && vcspec_sameComments(b.Value().Comment, a.Comment)
	}
	return true
}

//vc:prop C04 C05 C06
//vc:target (*config.current).attributeComment
//vc:use (*config.current).commentBlock
func vccheck_act_attributeComment(c *current, attribute1, comment1 interface{}, spaceBefore bool) {
	vc.Requires(c != nil)
	marked := vcspec_marked(comment1, spaceBefore)
	r, err := c.attributeComment(attribute1, comment1, spaceBefore)
	vc.Ensures("frame", vc.OnlyChanged(vc.Arr(marked)))
	vc.Ensures("the same value", (err == nil) == vcspec_isValue(attribute1) && vc.Implies(err == nil, r != nil && vcspec_sameValue(attribute1, r)))
	vc.Ensures("nothing with an error", vc.Implies(err != nil, r == nil))
	vc.Ensures("comments", vc.Implies(err == nil, vcspec_block(vcspec_commentOf(r), comment1) && vcspec_sameFooters(attribute1, r)))
}

//vc:prop C04 C05
//vc:target (*config.current).attribute
//vc:use (*config.current).astPos
func vccheck_act_attribute(c *current, name, value interface{}) {
	vc.Requires(c != nil)
	sn, okS := name.(ast.StringAttribute)
	bn, okB := name.(string)
	r, err := c.attribute(name, value)
	vc.Ensures("frame", vc.OnlyChanged())
	key := sn.ValueString()
	if okB {
		key = ast.NewStringAttribute("", bn, ast.Bareword).ValueString()
	}
	if okS || okB {
		switch v := value.(type) {
		case ast.StringAttribute:
			a, ok := r.(ast.StringAttribute)
			vc.Ensures("string", err == nil && ok && a.Start == vcspec_pos(c) && a.Name() == key && a.Value() == v.Value() && a.StringAttributeType() == v.StringAttributeType())
		case ast.NumberAttribute:
			a, ok := r.(ast.NumberAttribute)
			vc.Ensures("number", err == nil && ok && a.Start == vcspec_pos(c) && a.Name() == key && vc.Same(a.Value(), v.Value()))
		case ast.ArrayAttribute:
			a, ok := r.(ast.ArrayAttribute)
			vc.Ensures("array", err == nil && ok && a.Start == vcspec_pos(c) && a.Name() == key && vcspec_sameAttrs(a.Attributes, v.Attributes) && vcspec_sameComments(a.FooterComment, v.FooterComment))
		case ast.HashAttribute:
			a, ok := r.(ast.HashAttribute)
			vc.Ensures("hash", err == nil && ok && a.Start == vcspec_pos(c) && a.Name() == key && len(a.Entries) == len(v.Entries) &&
				vc.Forall(0, len(v.Entries), func(k int) bool { return vcspec_sameEntry(a.Entries[k], v.Entries[k]) }) && vcspec_sameComments(a.FooterComment, v.FooterComment))
		case ast.Plugin:
			a, ok := r.(ast.PluginAttribute)
			vc.Ensures("plugin", err == nil && ok && a.Start == vcspec_pos(c) && a.Name() == key && a.Value().Name() == v.Name() && a.Value().Start == v.Start && vcspec_sameAttrs(a.Value().Attributes, v.Attributes))
		default:
			vc.Ensures("no other value", err != nil)
		}
	} else {
		vc.Ensures("no other name", err != nil)
	}
}

func vcspec_sameEntry(a, b ast.HashEntry) bool {
	return a.Start == b.Start && a.Key == b.Key && a.Value == b.Value && len(a.Comment) == len(b.Comment)
}

//vc:prop C04 C05
//vc:target (*config.current).string
//vc:use (*config.current).astPos (*config.current).enclosedValue
func vccheck_act_string(c *current, sat ast.StringAttributeType) {
	vc.Requires(c != nil)
	vc.MayPanic(sat != ast.Bareword && len(c.text) < 2)
	r, err := c.string(sat)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("style and place", err == nil && r.Start == vcspec_pos(c) && r.StringAttributeType() == sat && r.Name() == "" && len(r.Comment) == 0)
	if sat == ast.Bareword {
		vc.Ensures("body", r.Value() == string(c.text))
	} else {
		vc.Ensures("body without quotes", r.Value() == string(c.text)[1:len(c.text)-1])
	}
}

//vc:prop C04 C05
//vc:target (*config.current).regexp
//vc:use (*config.current).astPos (*config.current).enclosedValue
func vccheck_act_regexp(c *current) {
	vc.Requires(c != nil)
	vc.MayPanic(len(c.text) < 2)
	r, err := c.regexp()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("body and place", err == nil && r.Start == vcspec_pos(c) && r.Regexp == string(c.text)[1:len(c.text)-1])
}

//vc:prop C04 C05 C08
//vc:target (*config.current).number
//vc:use (*config.current).astPos
func vccheck_act_number(c *current) {
	vc.Requires(c != nil)
	f, e := strconv.ParseFloat(string(c.text), 64)
	r, err := c.number()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the number written, or the range error", (err == nil) == (e == nil) && vc.Implies(e == nil, r.Start == vcspec_pos(c) && vc.Same(r.Value(), f) && r.Name() == "" && len(r.Comment) == 0))
}

//vc:prop C04 C05 C06
//vc:target (*config.current).array
//vc:use (*config.current).commentBlock (*config.current).astPos
func vccheck_act_array(c *current, attributes1, footerComment1 interface{}) {
	vc.Requires(c != nil)
	as, ok := attributes1.([]ast.Attribute)
	vc.MayPanic(attributes1 != nil && !ok)
	r, err := c.array(attributes1, footerComment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("all elements, in order", err == nil && r.Start == vcspec_pos(c) && r.Name() == "" && vc.Implies(ok, vcspec_sameAttrs(r.Attributes, as)) && vc.Implies(!ok, len(r.Attributes) == 0))
	vc.Ensures("comments", vcspec_block(r.FooterComment, footerComment1) && len(r.Comment) == 0)
}

//vc:prop C04 C05 C06
//vc:target (*config.current).hash
//vc:use (*config.current).commentBlock (*config.current).astPos
func vccheck_act_hash(c *current, attributes1, footerComment1 interface{}) {
	vc.Requires(c != nil)
	as, ok := attributes1.([]ast.HashEntry)
	vc.MayPanic(attributes1 != nil && !ok)
	r, err := c.hash(attributes1, footerComment1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("all entries, in order", err == nil && r.Start == vcspec_pos(c) && r.Name() == "" && vc.Implies(ok, len(r.Entries) == len(as) &&
		vc.Forall(0, len(as), func(k int) bool { return vcspec_sameEntry(r.Entries[k], as[k]) })) && vc.Implies(!ok, len(r.Entries) == 0))
	vc.Ensures("comments", vcspec_block(r.FooterComment, footerComment1) && len(r.Comment) == 0)
}

func vchint_entries(out []ast.HashEntry, in []interface{}, i int) bool {
	return len(out) == i+1 && vc.Forall(0, i+1, func(k int) bool { return vcspec_isEntry(in[k]) && vc.Same(out[k], in[k].(ast.HashEntry)) })
}

//vc:prop C04
//vc:target (*config.current).hashentries
//vc:hints vchint_entries
func vccheck_act_hashentries(c *current, attribute, attributes1 interface{}) {
	vc.Requires(c != nil)
	n := vcspec_n(attributes1)
	first, ok := attribute.(ast.HashEntry)
	vc.MayPanic(!ok)
	all := vc.Forall(0, n, func(k int) bool { return vcspec_isEntry(vcspec_item(attributes1, k)) })
	r, err := c.hashentries(attribute, attributes1)
	vc.Ensures("frame", vc.OnlyChanged(vc.Arr(first.Comment)))
	if all {
		vc.Ensures("all entries", err == nil && len(r) == n+1)
		vc.Ensures("the first", vc.Same(r[0], first))
		vc.Ensures("in order", vc.Forall(0, n, func(k int) bool { return vc.Same(r[k+1], vcspec_item(attributes1, k).(ast.HashEntry)) }))
	}
}

//vc:prop C04 C05 C06
//vc:target (*config.current).hashentry
//vc:use (*config.current).commentBlock (*config.current).astPos (*config.current).attributeComment
func vccheck_act_hashentry(c *current, name, value, comment interface{}) {
	vc.Requires(c != nil)
	marked := vcspec_marked(comment, true)
	key, ok := name.(ast.HashEntryKey)
	vc.MayPanic(!ok)
	r, err := c.hashentry(name, value, comment)
	vc.Ensures("frame", vc.OnlyChanged(vc.Arr(marked)))
	vc.Ensures("key and value", (err == nil) == vcspec_isValue(value) && vc.Implies(err == nil, r.Start == vcspec_pos(c) && r.Key == key && vcspec_sameValue(value, r.Value)))
	vc.Ensures("comments", vc.Implies(err == nil, vcspec_block(r.Comment, comment) && len(vcspec_commentOf(r.Value)) == 0))
}

func vchint_exprs(out []ast.Expression, in []interface{}, i int) bool {
	return len(out) == i+1 && vc.Forall(0, i+1, func(k int) bool { return vcspec_isExpr(in[k]) && out[k] == in[k].(ast.Expression) })
}

//vc:prop C04
//vc:target (*config.current).condition
//vc:hints vchint_exprs
func vccheck_act_condition(c *current, expr, exprs interface{}) {
	vc.Requires(c != nil)
	n := vcspec_n(exprs)
	all := vcspec_one(expr) && vcspec_isExpr(expr) && vc.Forall(0, n, func(k int) bool { return vcspec_isExpr(vcspec_item(exprs, k)) })
	r, err := c.condition(expr, exprs)
	vc.Ensures("frame", vc.OnlyChanged([]interface{}(nil)))
	if all {
		vc.Ensures("all operands", err == nil && len(r.Expression) == n+1)
		vc.Ensures("the first", r.Expression[0] == expr.(ast.Expression))
		vc.Ensures("in order", vc.Forall(0, n, func(k int) bool { return r.Expression[k+1] == vcspec_item(exprs, k).(ast.Expression) }))
	}
}

//vc:prop C04
//vc:target (*config.current).expression
func vccheck_act_expression(c *current, bo, expr1 interface{}) {
	vc.Requires(c != nil)
	op, okO := bo.(ast.BooleanOperator)
	ex, okE := expr1.(ast.Expression)
	vc.MayPanic(!okO || !okE || vcspec_boolOf(ex) == nil)
	r, err := c.expression(bo, expr1)
	vc.Ensures("frame", vc.OnlyChanged((*ast.BoolExpression)(nil)))
	vc.Ensures("the operand with its operator", err == nil && r == ex && vcspec_boolOf(ex).BoolOperator() == op)
}

// vcspec_boolOf is the operator part of an operand.
func vcspec_boolOf(ex ast.Expression) *ast.BoolExpression {
	switch e := ex.(type) {
	case ast.ConditionExpression:
		return e.BoolExpression
	case ast.NegativeConditionExpression:
		return e.BoolExpression
	case ast.NegativeSelectorExpression:
		return e.BoolExpression
	case ast.InExpression:
		return e.BoolExpression
	case ast.NotInExpression:
		return e.BoolExpression
	case ast.RvalueExpression:
		return e.BoolExpression
	case ast.CompareExpression:
		return e.BoolExpression
	case ast.RegexpExpression:
		return e.BoolExpression
	}
	return nil
}

//vc:prop C04 C05
//vc:target (*config.current).conditionExpression
//vc:use (*config.current).astPos
func vccheck_act_conditionExpression(c *current, cond interface{}) {
	vc.Requires(c != nil)
	in, ok := cond.(ast.Condition)
	vc.MayPanic(!ok)
	r, err := c.conditionExpression(cond)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("condition and place", err == nil && r.Start == vcspec_pos(c) && r.BoolExpression != nil && r.BoolOperator().Op == ast.NoOperator && vcspec_sameExprs(r.Condition.Expression, in.Expression))
}

//vc:prop C04 C05
//vc:target (*config.current).negativeExpression
//vc:use (*config.current).astPos
func vccheck_act_negativeExpression(c *current, cond interface{}) {
	vc.Requires(c != nil)
	in, ok := cond.(ast.Condition)
	vc.MayPanic(!ok)
	r, err := c.negativeExpression(cond)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("condition and place", err == nil && r.Start == vcspec_pos(c) && r.BoolExpression != nil && r.BoolOperator().Op == ast.NoOperator && vcspec_sameExprs(r.Condition.Expression, in.Expression))
}

//vc:prop C04 C05
//vc:target (*config.current).negativeSelector
//vc:use (*config.current).astPos
func vccheck_act_negativeSelector(c *current, sel interface{}) {
	vc.Requires(c != nil)
	in, ok := sel.(ast.Selector)
	vc.MayPanic(!ok)
	r, err := c.negativeSelector(sel)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("selector and place", err == nil && r.Start == vcspec_pos(c) && r.BoolExpression != nil && r.BoolOperator().Op == ast.NoOperator && vcspec_sameSel(r.Selector, in))
}
func vcspec_sameSel(a, b ast.Selector) bool {
	return a.Start == b.Start && len(a.Elements) == len(b.Elements) && vc.Forall(0, len(a.Elements), func(k int) bool { return a.Elements[k] == b.Elements[k] })
}

//vc:prop C04 C05
//vc:target (*config.current).inExpression
//vc:use (*config.current).astPos
func vccheck_act_inExpression(c *current, lv, rv interface{}) {
	vc.Requires(c != nil)
	l, ok1 := lv.(ast.Rvalue)
	r, ok2 := rv.(ast.Rvalue)
	vc.MayPanic(!ok1 || !ok2)
	x, err := c.inExpression(lv, rv)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("both sides and place", err == nil && x.Start == vcspec_pos(c) && x.BoolExpression != nil && x.BoolOperator().Op == ast.NoOperator && x.LValue == l && x.RValue == r)
}

//vc:prop C04 C05
//vc:target (*config.current).notInExpression
//vc:use (*config.current).astPos
func vccheck_act_notInExpression(c *current, lv, rv interface{}) {
	vc.Requires(c != nil)
	l, ok1 := lv.(ast.Rvalue)
	r, ok2 := rv.(ast.Rvalue)
	vc.MayPanic(!ok1 || !ok2)
	x, err := c.notInExpression(lv, rv)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("both sides and place", err == nil && x.Start == vcspec_pos(c) && x.BoolExpression != nil && x.BoolOperator().Op == ast.NoOperator && x.LValue == l && x.RValue == r)
}

//vc:prop C04 C05
//vc:target (*config.current).compareExpression
//vc:use (*config.current).astPos
func vccheck_act_compareExpression(c *current, lv, co, rv interface{}) {
	vc.Requires(c != nil)
	l, ok1 := lv.(ast.Rvalue)
	r, ok2 := rv.(ast.Rvalue)
	op, ok3 := co.(ast.CompareOperator)
	vc.MayPanic(!ok1 || !ok2 || !ok3)
	x, err := c.compareExpression(lv, co, rv)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("both sides, operator and place", err == nil && x.Start == vcspec_pos(c) && x.BoolExpression != nil && x.BoolOperator().Op == ast.NoOperator && x.LValue == l && x.RValue == r && x.CompareOperator == op)
}

//vc:prop C04 C05
//vc:target (*config.current).regexpExpression
//vc:use (*config.current).astPos
func vccheck_act_regexpExpression(c *current, lv, ro, rv interface{}) {
	vc.Requires(c != nil)
	l, ok1 := lv.(ast.Rvalue)
	r, ok2 := rv.(ast.StringOrRegexp)
	op, ok3 := ro.(ast.RegexpOperator)
	vc.MayPanic(!ok1 || !ok2 || !ok3)
	x, err := c.regexpExpression(lv, ro, rv)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("both sides, operator and place", err == nil && x.Start == vcspec_pos(c) && x.BoolExpression != nil && x.BoolOperator().Op == ast.NoOperator && x.LValue == l && x.RValue == r && x.RegexpOperator == op)
}

//vc:prop C04 C05
//vc:target (*config.current).rvalue
//vc:use (*config.current).astPos
func vccheck_act_rvalue(c *current, rv interface{}) {
	vc.Requires(c != nil)
	r, ok := rv.(ast.Rvalue)
	vc.MayPanic(!ok)
	x, err := c.rvalue(rv)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("value and place", err == nil && x.Start == vcspec_pos(c) && x.BoolExpression != nil && x.BoolOperator().Op == ast.NoOperator && x.RValue == r)
}

//vc:prop C04 C05
//vc:target (*config.current).compareOperator
//vc:use (*config.current).astPos
func vccheck_act_compareOperator(c *current) {
	vc.Requires(c != nil)
	t := string(c.text)
	r, err := c.compareOperator()
	vc.Ensures("frame", vc.OnlyChanged())
	want := ast.Undefined
	switch t {
	case "==":
		want = ast.Equal
	case "!=":
		want = ast.NotEqual
	case "<=":
		want = ast.LessOrEqual
	case ">=":
		want = ast.GreaterOrEqual
	case "<":
		want = ast.LessThan
	case ">":
		want = ast.GreaterThan
	}
	vc.Ensures("the operator written", err == nil && r.Op == want && r.Start == vcspec_pos(c))
}

//vc:prop C04 C05
//vc:target (*config.current).regexpOperator
//vc:use (*config.current).astPos
func vccheck_act_regexpOperator(c *current) {
	vc.Requires(c != nil)
	t := string(c.text)
	r, err := c.regexpOperator()
	vc.Ensures("frame", vc.OnlyChanged())
	want := ast.Undefined
	switch t {
	case "=~":
		want = ast.RegexpMatch
	case "!~":
		want = ast.RegexpNotMatch
	}
	vc.Ensures("the operator written", err == nil && r.Op == want && r.Start == vcspec_pos(c))
}

//vc:prop C04 C05
//vc:target (*config.current).booleanOperator
//vc:use (*config.current).astPos
func vccheck_act_booleanOperator(c *current) {
	vc.Requires(c != nil)
	t := string(c.text)
	r, err := c.booleanOperator()
	vc.Ensures("frame", vc.OnlyChanged())
	want := ast.Undefined
	switch t {
	case "and":
		want = ast.And
	case "or":
		want = ast.Or
	case "xor":
		want = ast.Xor
	case "nand":
		want = ast.Nand
	}
	vc.Ensures("the operator written", err == nil && r.Op == want && r.Start == vcspec_pos(c))
}

func vchint_ses(out []ast.SelectorElement, in []interface{}, i int) bool {
	return len(out) == i+1 && vc.Forall(0, i+1, func(k int) bool { return vcspec_isSE(in[k]) && out[k] == in[k].(ast.SelectorElement) })
}

//vc:prop C04 C05
//vc:target (*config.current).selector
//vc:use (*config.current).astPos
//vc:hints vchint_ses
func vccheck_act_selector(c *current, ses1 interface{}) {
	vc.Requires(c != nil)
	n := vcspec_n(ses1)
	vc.MayPanic(!vc.Forall(0, n, func(k int) bool { return vcspec_isSE(vcspec_item(ses1, k)) }))
	r, err := c.selector(ses1)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("all elements, in order", err == nil && r.Start == vcspec_pos(c) && len(r.Elements) == n && vc.Forall(0, n, func(k int) bool { return r.Elements[k] == vcspec_item(ses1, k).(ast.SelectorElement) }))
}

//vc:prop C04 C05
//vc:target (*config.current).selectorElement
//vc:use (*config.current).astPos
func vccheck_act_selectorElement(c *current) {
	vc.Requires(c != nil)
	vc.MayPanic(len(c.text) < 2)
	t := string(c.text)
	r, err := c.selectorElement()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("name and place", err == nil && r == vcspec_se(t[1:len(t)-1], vcspec_pos(c)))
}
func vcspec_se(name string, p ast.Pos) ast.SelectorElement {
	e := ast.NewSelectorElement(name)
	e.Start = p
	return e
}
