package config

import (
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/vc"
)

// The functions of the runtime, each against the meaning of its node.

// vcstart is what a step remembers of the state it started in.
type vcstart struct {
	off, nv, nr, depth, ne int
	inv                    bool
	cnt                    uint64
}

func vcspec_start(p *parser) vcstart {
	return vcstart{off: p.pt.offset, nv: len(p.vstack), nr: len(p.rstack), depth: p.depth, ne: len(*p.errs), inv: p.maxFailInvertExpected, cnt: p.ExprCnt}
}

// vcspec_kept: the parser is as well-formed as at the start.
func vcspec_kept(p *parser, g vcstart) bool {
	return vcspec_inv0(p) && len(p.vstack) == g.nv && len(p.rstack) == g.nr && p.depth == g.depth && len(*p.errs) >= g.ne && p.maxFailInvertExpected == g.inv && p.ExprCnt >= g.cnt
}

// vcspec_did: the outcome ok at the position now is the one the meaning m
// prescribes for a start at off.
func vcspec_did(m int, ok bool, off, now int) bool {
	return ok == (m >= 0) && vc.Implies(ok, now == m) && vc.Implies(!ok, now == off) && now >= off
}

// vcdo_frame: what a step of the parser may change.
func vcdo_frame(p *parser) bool {
	return vc.OnlyChanged(&p.pt, &p.cur, &p.vstack, &p.rstack, &p.depth, p.errs, &p.Stats.ExprCnt, &p.maxFailPos, &p.maxFailExpected, &p.maxFailInvertExpected, &farthestFailure,
		map[string]interface{}(nil), map[string]int(nil), p.ChoiceAltCnt, storeDict(nil), []map[string]interface{}(nil), []*rule(nil), []error(nil), []string(nil), []errPos(nil), []interface{}(nil), []ast.Comment(nil), (*ast.BoolExpression)(nil))
}
func vcdo_declare(p *parser) {
	vc.Frame(&p.pt, &p.cur, &p.vstack, &p.rstack, &p.depth, p.errs, &p.Stats.ExprCnt, &p.maxFailPos, &p.maxFailExpected, &p.maxFailInvertExpected, &farthestFailure,
		map[string]interface{}(nil), map[string]int(nil), p.ChoiceAltCnt, storeDict(nil), []map[string]interface{}(nil), []*rule(nil), []error(nil), []string(nil), []errPos(nil), []interface{}(nil), []ast.Comment(nil), (*ast.BoolExpression)(nil))
}

//vc:prop C02
//vc:target (*config.parser).parseZeroOrOneExpr
//vc:use (*config.parser).parseExpr (*config.parser).pushV (*config.parser).popV
//vc:maypanic
func vccheck_parseZeroOrOneExpr(p *parser, ex *zeroOrOneExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseZeroOrOneExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseAndExpr
//vc:use (*config.parser).parseExpr (*config.parser).pushV (*config.parser).popV (*config.parser).restore (*config.parser).cloneState (*config.parser).restoreState
//vc:maypanic
func vccheck_parseAndExpr(p *parser, ex *andExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseAndExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseNotExpr
//vc:use (*config.parser).parseExpr (*config.parser).pushV (*config.parser).popV (*config.parser).restore (*config.parser).cloneState (*config.parser).restoreState
//vc:maypanic
func vccheck_parseNotExpr(p *parser, ex *notExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseNotExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseAnyMatcher
//vc:use (*config.parser).failAt (*config.parser).read (*config.parser).sliceFrom
//vc:maypanic
func vccheck_parseAnyMatcher(p *parser, ex *anyMatcher) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseAnyMatcher(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseLabeledExpr
//vc:use (*config.parser).parseExpr (*config.parser).pushV (*config.parser).popV
//vc:maypanic
func vccheck_parseLabeledExpr(p *parser, ex *labeledExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseLabeledExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseStateCodeExpr
//vc:use (*config.parser).addErr field:config.stateCodeExpr.run
//vc:maypanic
func vccheck_parseStateCodeExpr(p *parser, ex *stateCodeExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseStateCodeExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02 C05
//vc:target (*config.parser).parseActionExpr
//vc:use (*config.parser).parseExpr (*config.parser).sliceFrom (*config.parser).addErrAt (*config.parser).cloneState (*config.parser).restoreState field:config.actionExpr.run
//vc:maypanic
func vccheck_parseActionExpr(p *parser, ex *actionExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseActionExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseAndCodeExpr
//vc:use (*config.parser).addErr (*config.parser).cloneState (*config.parser).restoreState field:config.andCodeExpr.run
//vc:maypanic
func vccheck_parseAndCodeExpr(p *parser, ex *andCodeExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseAndCodeExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseNotCodeExpr
//vc:use (*config.parser).addErr (*config.parser).cloneState (*config.parser).restoreState field:config.notCodeExpr.run
//vc:maypanic
func vccheck_parseNotCodeExpr(p *parser, ex *notCodeExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseNotCodeExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

// Between the tests of a class: no character, range or class so far.
func vchint_chars(chr *charClassMatcher, cur rune, ri int) bool {
	return !vcspec_inChars(chr, cur, ri+1)
}
func vchint_ranges(chr *charClassMatcher, cur rune, i int) bool {
	return i >= 0 && i%2 == 0 && !vcspec_inRanges(chr, cur, i)
}
func vchint_classes(chr *charClassMatcher, cur rune, ri int) bool {
	return !vcspec_inClasses(chr, cur, ri+1)
}

//vc:prop C02
//vc:target (*config.parser).parseCharClassMatcher
//vc:slow
//vc:use (*config.parser).failAt (*config.parser).read (*config.parser).sliceFrom
//vc:hints vchint_chars vchint_ranges vchint_classes
//vc:maypanic
func vccheck_parseCharClassMatcher(p *parser, ex *charClassMatcher) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	vcdo_declare(p)
	_, ok := p.parseCharClassMatcher(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

func vchint_lit(p *parser, lit *litMatcher, start savepoint, g vcstart, ri int) bool {
	return vcspec_kept(p, g) && start.offset == g.off && p.pt.offset >= g.off && ri >= 0 && vcspec_plain(lit.val, ri) &&
		vcspec_lit(p.data, lit.val, lit.ignoreCase, 0, g.off) == vcspec_lit(p.data, lit.val, lit.ignoreCase, ri, p.pt.offset)
}

//vc:prop C02
//vc:target (*config.parser).parseLitMatcher
//vc:use (*config.parser).failAt (*config.parser).read (*config.parser).sliceFrom (*config.parser).restore
//vc:hints vchint_lit
//vc:maypanic
func vccheck_parseLitMatcher(p *parser, ex *litMatcher) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	vcdo_declare(p)
	_, ok := p.parseLitMatcher(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

func vchint_choice(p *parser, ch *choiceExpr, g vcstart, ri int) bool {
	return vcspec_kept(p, g) && p.pt.offset == g.off &&
		vcspec_choice(p.data, ch.alternatives, 0, g.off) == vcspec_choice(p.data, ch.alternatives, ri+1, g.off)
}

//vc:prop C02
//vc:target (*config.parser).parseChoiceExpr
//vc:slow
//vc:use (*config.parser).parseExpr (*config.parser).pushV (*config.parser).popV (*config.parser).incChoiceAltCnt (*config.parser).cloneState (*config.parser).restoreState
//vc:hints vchint_choice
//vc:maypanic
func vccheck_parseChoiceExpr(p *parser, ex *choiceExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	vcdo_declare(p)
	_, ok := p.parseChoiceExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

func vchint_seq(p *parser, seq *seqExpr, pt savepoint, g vcstart, ri int) bool {
	return vcspec_kept(p, g) && p.pt.offset >= g.off && pt.offset == g.off &&
		vcspec_seq(p.data, seq.exprs, 0, g.off) == vcspec_seq(p.data, seq.exprs, ri+1, p.pt.offset)
}

//vc:prop C02
//vc:target (*config.parser).parseSeqExpr
//vc:slow
//vc:use (*config.parser).parseExpr (*config.parser).restore (*config.parser).cloneState (*config.parser).restoreState
//vc:hints vchint_seq
//vc:maypanic
func vccheck_parseSeqExpr(p *parser, ex *seqExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	vcdo_declare(p)
	_, ok := p.parseSeqExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

func vchint_plus(p *parser, expr *oneOrMoreExpr, vals []interface{}, g vcstart) bool {
	return vcspec_kept(p, g) && p.pt.offset >= g.off && vc.Implies(len(vals) == 0, p.pt.offset == g.off) &&
		vc.Implies(len(vals) > 0, vcspec_m(p.data, expr.expr, g.off) >= 0 &&
			vcspec_star(p.data, expr.expr, vcspec_m(p.data, expr.expr, g.off)) == vcspec_star(p.data, expr.expr, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseOneOrMoreExpr
//vc:slow
//vc:use (*config.parser).parseExpr (*config.parser).pushV (*config.parser).popV
//vc:hints vchint_plus
//vc:maypanic
func vccheck_parseOneOrMoreExpr(p *parser, ex *oneOrMoreExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	vcdo_declare(p)
	_, ok := p.parseOneOrMoreExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

func vchint_star(p *parser, expr *zeroOrMoreExpr, g vcstart) bool {
	return vcspec_kept(p, g) && p.pt.offset >= g.off &&
		vcspec_star(p.data, expr.expr, g.off) == vcspec_star(p.data, expr.expr, p.pt.offset)
}

//vc:prop C02
//vc:target (*config.parser).parseZeroOrMoreExpr
//vc:slow
//vc:use (*config.parser).parseExpr (*config.parser).pushV (*config.parser).popV
//vc:hints vchint_star
//vc:maypanic
func vccheck_parseZeroOrMoreExpr(p *parser, ex *zeroOrMoreExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	vcdo_declare(p)
	_, ok := p.parseZeroOrMoreExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseRuleRefExpr
//vc:use (*config.parser).parseRule
//vc:maypanic
func vccheck_parseRuleRefExpr(p *parser, ex *ruleRefExpr) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseRuleRefExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseRule
//vc:use (*config.parser).parseExpr (*config.parser).pushV (*config.parser).popV
//vc:maypanic
func vccheck_parseRule(p *parser, ex *rule) {
	vc.Requires(vcspec_inv0(p) && !p.memoize && !p.debug && ex != nil && vcspec_wf(ex.expr))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex.expr, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseRule(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).parseExpr
//vc:slow
//vc:use (*config.parser).parseZeroOrOneExpr (*config.parser).parseAndExpr (*config.parser).parseNotExpr (*config.parser).parseAnyMatcher (*config.parser).parseLabeledExpr (*config.parser).parseStateCodeExpr (*config.parser).parseActionExpr (*config.parser).parseAndCodeExpr (*config.parser).parseNotCodeExpr (*config.parser).parseCharClassMatcher (*config.parser).parseLitMatcher (*config.parser).parseChoiceExpr (*config.parser).parseSeqExpr (*config.parser).parseOneOrMoreExpr (*config.parser).parseZeroOrMoreExpr (*config.parser).parseRuleRefExpr
//vc:maypanic
func vccheck_parseExpr(p *parser, ex interface{}) {
	vc.Requires(vcspec_inv(p) && !p.memoize && !p.debug && vcspec_wf(ex))
	g := vcspec_start(p)
	m := vcspec_m(p.data, ex, g.off)
	vc.Ghost("g", g)
	errs := p.errs
	vc.Panics("a panic leaves what reporting it needs", func() bool { return p.errs == errs && vcspec_rules(p) && vcspec_errs(p) && !p.debug })
	_, ok := p.parseExpr(ex)
	vc.Ensures("frame", vcdo_frame(p))
	vc.Ensures("the parser is as well-formed as before", vcspec_kept(p, g))
	vc.Ensures("matches what the node means", vcspec_did(m, ok, g.off, p.pt.offset))
}

//vc:prop C02
//vc:target (*config.parser).incChoiceAltCnt
func vccheck_incChoiceAltCnt(p *parser, ch *choiceExpr, altI int) {
	vc.Requires(p != nil && ch != nil && p.Stats != nil && p.ChoiceAltCnt != nil && len(p.rstack) > 0 && vcspec_rules(p))
	p.incChoiceAltCnt(ch, altI)
	vc.Ensures("frame", vc.OnlyChanged(p.ChoiceAltCnt, map[string]int(nil)))
}

//vc:prop C02
//vc:target (*config.parser).pushV
func vccheck_pushV(p *parser) {
	vc.Requires(p != nil && vc.Forall(0, len(p.vstack), func(k int) bool { return p.vstack[k] != nil }))
	n := len(p.vstack)
	p.pushV()
	vc.Ensures("frame", vc.OnlyChanged(&p.vstack, []map[string]interface{}(nil)))
	vc.Ensures("one more", len(p.vstack) == n+1)
	vc.Ensures("all usable", vc.Forall(0, len(p.vstack), func(k int) bool { return p.vstack[k] != nil }))
	vc.Ensures("the new one is empty", len(p.vstack[n]) == 0)
}

//vc:prop C02
//vc:target (*config.parser).popV
func vccheck_popV(p *parser) {
	vc.Requires(p != nil && len(p.vstack) > 0 && vc.Forall(0, len(p.vstack), func(k int) bool { return p.vstack[k] != nil }))
	n := len(p.vstack)
	p.popV()
	vc.Ensures("frame", vc.OnlyChanged(&p.vstack, []map[string]interface{}(nil)))
	vc.Ensures("one less", len(p.vstack) == n-1)
	vc.Ensures("all usable", vc.Forall(0, len(p.vstack), func(k int) bool { return p.vstack[k] != nil }))
}

//vc:prop C02 C05
//vc:target (*config.parser).restore
func vccheck_restore(p *parser, pt savepoint) {
	vc.Requires(p != nil && !p.debug)
	old := p.pt
	p.restore(pt)
	vc.Ensures("frame", vc.OnlyChanged(&p.pt))
	vc.Ensures("the place asked for", vc.Implies(pt.offset != old.offset, p.pt == pt) && vc.Implies(pt.offset == old.offset, p.pt == old))
}

//vc:prop C02
//vc:target (*config.parser).cloneState
//vc:maypanic runtime
func vccheck_cloneState(p *parser) {
	vc.Requires(p != nil && !p.debug)
	s := p.cloneState()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("a map", s != nil)
}

//vc:prop C02
//vc:target (*config.parser).restoreState
func vccheck_restoreState(p *parser, state storeDict) {
	vc.Requires(p != nil && !p.debug && state != nil)
	p.restoreState(state)
	vc.Ensures("frame", vc.OnlyChanged(&p.cur, p.cur.state, storeDict(nil)))
	vc.Ensures("that state", vc.Same(p.cur.state, state))
}

//vc:prop C02 C05
//vc:target (*config.parser).sliceFrom
func vccheck_sliceFrom(p *parser, start savepoint) {
	vc.Requires(p != nil && start.offset >= 0 && start.offset <= p.pt.offset && p.pt.offset <= len(p.data))
	r := p.sliceFrom(start)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the text from there to here", len(r) == p.pt.offset-start.offset && vc.Forall(0, len(r), func(k int) bool { return r[k] == p.data[start.offset+k] }))
}
