package config

import (
	"github.com/breml/logstash-config/internal/vc"
)

// vcspec_grammar: the well-formed grammar whose rules vcuf_rule names.
func vcspec_grammar(g *grammar) bool {
	return g != nil && vc.Forall(0, len(g.rules), func(k int) bool {
		return g.rules[k] != nil && vcuf_rule(g.rules[k].name) == g.rules[k] && vcspec_wf(g.rules[k].expr)
	}) && vc.ForallStr(func(n string) bool {
		return vcuf_rule(n) == nil || vc.Exists(0, len(g.rules), func(k int) bool { return vcuf_rule(n) == g.rules[k] && g.rules[k].name == n })
	})
}

func vchint_rules(p *parser, g *grammar, ri int) bool {
	return p.rules != nil && vc.Forall(0, ri+1, func(k int) bool { return p.rules[g.rules[k].name] == g.rules[k] }) &&
		vc.ForallStr(func(n string) bool { return (p.rules[n] == nil || p.rules[n] == vcuf_rule(n)) && vcspec_entry(p, n) })
}

// vcspec_entry: no name is entered without a rule.
func vcspec_entry(p *parser, n string) bool { r, ok := p.rules[n]; return !ok || r != nil }

//vc:prop C02 C01
//vc:target (*config.parser).buildRulesTable
//vc:hints vchint_rules
func vccheck_buildRulesTable(p *parser, g *grammar) {
	vc.Requires(p != nil && vcspec_grammar(g))
	p.buildRulesTable(g)
	vc.Ensures("frame", vc.OnlyChanged(&p.rules))
	vc.Ensures("the rules of the grammar", vcspec_table(p))
	vc.Ensures("no name without a rule", vc.ForallStr(func(n string) bool { return vcspec_entry(p, n) }))
}

//vc:prop C02 C01
//vc:target (config.errList).err
func vccheck_err(e errList) {
	vc.Requires(vc.Forall(0, len(e), func(k int) bool { return e[k] != nil }))
	err := e.err()
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("an error if there is one in the list", (err != nil) == (len(e) > 0))
}

// The parse of a fresh parser.
//
//vc:prop C02 C01
//vc:target (*config.parser).parse
//vc:fuel 0
//vc:use (*config.parser).buildRulesTable (*config.parser).addErr (*config.parser).addErrAt (*config.parser).read (*config.parser).parseRule (config.errList).err
func vccheck_parse(p *parser, g *grammar) {
	vc.Requires(p != nil && p.Stats != nil && p.ChoiceAltCnt != nil && p.errs != nil && len(*p.errs) == 0 && p.cur.state != nil && p.depth == 0)
	vc.Requires(vcspec_fresh(p) && len(p.rstack) == 0 && len(p.vstack) == 0 && !p.memoize && !p.debug && p.recover)
	vc.Requires(vcspec_grammar(g) && len(g.rules) > 0)
	start := vcuf_rule(p.entrypoint)
	m := -1
	if start != nil {
		m = vcspec_m(p.data, start.expr, 0)
	}
	val, err := p.parse(g)
	vc.Ensures("a text that does not match the start rule is rejected, without a tree", vc.Implies(m < 0, err != nil && val == nil))
}
