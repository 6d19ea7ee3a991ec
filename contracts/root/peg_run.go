package config

import (
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/vc"
)

//vc:immutable config.actionExpr.expr config.actionExpr.run config.andCodeExpr.run config.andExpr.expr
//vc:immutable config.charClassMatcher.val config.charClassMatcher.chars config.charClassMatcher.ranges config.charClassMatcher.classes config.charClassMatcher.ignoreCase config.charClassMatcher.inverted
//vc:immutable config.choiceExpr.alternatives config.labeledExpr.label config.labeledExpr.expr
//vc:immutable config.litMatcher.val config.litMatcher.ignoreCase config.litMatcher.want config.notCodeExpr.run config.notExpr.expr
//vc:immutable config.oneOrMoreExpr.expr config.ruleRefExpr.name config.seqExpr.exprs config.stateCodeExpr.run config.zeroOrMoreExpr.expr config.zeroOrOneExpr.expr
//vc:immutable config.rule.name config.rule.displayName config.rule.expr config.grammar.rules

//vc:closed config.Cloner

// ---- the code of the grammar: what it may change

//vc:prop C02 C05
//vc:target field:config.actionExpr.run
//vc:use (*config.current).astPos (*config.current).ret (*config.current).str (*config.current).enclosedValue (*config.current).whitespace (*config.current).comment (*config.current).commentBlock (*config.current).configSection (*config.current).config (*config.current).retConfig (*config.current).pluginSection (*config.current).branchOrPlugins (*config.current).ifBlock (*config.current).elseIfBlock (*config.current).elseBlock (*config.current).elseIfComment (*config.current).elseComment (*config.current).branch (*config.current).branchOrPluginComment (*config.current).plugin (*config.current).attributes (*config.current).attributeComment (*config.current).attribute (*config.current).string (*config.current).regexp (*config.current).number (*config.current).array (*config.current).hash (*config.current).hashentries (*config.current).hashentry (*config.current).condition (*config.current).expression (*config.current).conditionExpression (*config.current).negativeExpression (*config.current).negativeSelector (*config.current).inExpression (*config.current).notInExpression (*config.current).compareExpression (*config.current).regexpExpression (*config.current).rvalue (*config.current).compareOperator (*config.current).regexpOperator (*config.current).booleanOperator (*config.current).selector (*config.current).selectorElement
//vc:maypanic runtime
func vccheck_runAction(f func(*parser) (interface{}, error), p *parser) {
	vc.Requires(f != nil && p != nil && len(p.vstack) > 0 && p.cur.state != nil)
	// the action sees the text its expression has matched, and where it starts
	start := p.cur.pos.offset
	vc.Requires(0 <= start && start <= p.pt.offset && p.pt.offset <= len(p.data) && vcspec_place(p, p.cur.pos))
	vc.Requires(vcspec_m(p.data, vcuf_body(f), start) == p.pt.offset)
	vc.Requires(len(p.cur.text) == p.pt.offset-start && vc.Forall(0, len(p.cur.text), func(k int) bool { return p.cur.text[k] == p.data[start+k] }))
	f(p)
	vc.Ensures("frame", vc.OnlyChanged([]interface{}(nil), []ast.Comment(nil), (*ast.BoolExpression)(nil)))
}

//vc:prop C02
//vc:target field:config.andCodeExpr.run
//vc:maypanic runtime
func vccheck_runAndCode(f func(*parser) (bool, error), p *parser) {
	vc.Requires(f != nil && p != nil && len(p.vstack) > 0 && p.cur.state != nil)
	ok, err := f(p)
	vc.Ensures("frame", vc.OnlyChanged(&farthestFailure, []errPos(nil)))
	vc.Ensures("no error", err == nil)
	vc.Defines("vccheck_predConst", ok == vcuf_pred(f))
}

// The verdict of a predicate does not depend on the state: vcuf_pred is it.
//
//vc:prop C02
//vc:aux
//vc:target field:config.andCodeExpr.run
//vc:maypanic runtime
func vccheck_predConst(f func(*parser) (bool, error), p, q *parser, ff []errPos) {
	vc.Requires(f != nil && p != nil && len(p.vstack) > 0 && q != nil && len(q.vstack) > 0)
	a, _ := f(p)
	farthestFailure = ff
	b, _ := f(q)
	vc.Ensures("the same verdict in any two states", a == b)
}

//vc:prop C02
//vc:target field:config.stateCodeExpr.run
//vc:maypanic runtime
func vccheck_runState(f func(*parser) error, p *parser) {
	vc.Requires(f != nil && p != nil && len(p.vstack) > 0 && p.cur.state != nil)
	err := f(p)
	vc.Ensures("frame", vc.OnlyChanged(p.cur.state, []string(nil)))
	vc.Ensures("no error", err == nil)
}

//vc:prop C02
//vc:target field:config.notCodeExpr.run
//vc:maypanic runtime
func vccheck_runNotCode(f func(*parser) (bool, error), p *parser) {
	vc.Requires(f != nil && p != nil && len(p.vstack) > 0 && p.cur.state != nil)
	ok, err := f(p)
	vc.Ensures("frame", vc.OnlyChanged(&farthestFailure, []errPos(nil)))
	vc.Ensures("no error", err == nil)
	vc.Defines("vccheck_predConst", ok == vcuf_pred(f))
}
