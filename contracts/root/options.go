package config

import (
	"github.com/breml/logstash-config/internal/vc"
)

// ---- options: each sets its own setting, changes nothing else, and what it
// returns puts the previous setting back

//vc:prop C21
func vccheck_optMaxExpressions(p *parser, n uint64) {
	vc.Requires(p != nil)
	old := p.maxExprCnt
	vc.Mark()
	inv := MaxExpressions(n)(p)
	vc.Ensures("the limit is set", p.maxExprCnt == n)
	vc.Ensures("nothing else changes", vc.OnlyChanged(&p.maxExprCnt))
	vc.Ensures("there is an inverse", inv != nil)
	inv(p)
	vc.Ensures("the inverse restores", p.maxExprCnt == old)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(&p.maxExprCnt))
}

//vc:prop C21
func vccheck_optEntrypoint(p *parser, name string) {
	vc.Requires(p != nil)
	vc.Requires(p.entrypoint != "") // newParser sets it to the first rule
	vc.Requires(g != nil && len(g.rules) > 0 && g.rules[0] != nil)
	old := p.entrypoint
	vc.Mark()
	inv := Entrypoint(name)(p)
	vc.Ensures("the rule is set, the first one for the empty name", vc.Implies(name != "", p.entrypoint == name) && vc.Implies(name == "", p.entrypoint == g.rules[0].name))
	vc.Ensures("nothing else changes", vc.OnlyChanged(&p.entrypoint))
	inv(p)
	vc.Ensures("the inverse restores", p.entrypoint == old)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(&p.entrypoint))
}

//vc:prop C21
func vccheck_optStatistics(p *parser, stats *Stats, noMatch string) {
	vc.Requires(p != nil && stats != nil && p.Stats != nil)
	vc.Requires(p.Stats.ChoiceAltCnt != nil)
	old, oldNo, oldCnt, cnt := p.Stats, p.choiceNoMatch, p.Stats.ExprCnt, stats.ExprCnt
	vc.Mark()
	inv := Statistics(stats, noMatch)(p)
	vc.Ensures("the counters are the caller's", p.Stats == stats && p.choiceNoMatch == noMatch && stats.ChoiceAltCnt != nil)
	vc.Ensures("the counts are kept", stats.ExprCnt == cnt)
	vc.Ensures("nothing else changes", vc.OnlyChanged(&p.Stats, &p.choiceNoMatch, &stats.ChoiceAltCnt))
	inv(p)
	vc.Ensures("the inverse restores", p.Stats == old && p.choiceNoMatch == oldNo && p.Stats.ExprCnt == oldCnt)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(&p.Stats, &p.choiceNoMatch, &stats.ChoiceAltCnt))
}

//vc:prop C21
func vccheck_optDebug(p *parser, b bool) {
	vc.Requires(p != nil)
	old := p.debug
	vc.Mark()
	inv := Debug(b)(p)
	vc.Ensures("the flag is set", p.debug == b)
	vc.Ensures("nothing else changes", vc.OnlyChanged(&p.debug))
	inv(p)
	vc.Ensures("the inverse restores", p.debug == old)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(&p.debug))
}

//vc:prop C21
func vccheck_optMemoize(p *parser, b bool) {
	vc.Requires(p != nil)
	old := p.memoize
	vc.Mark()
	inv := Memoize(b)(p)
	vc.Ensures("the flag is set", p.memoize == b)
	vc.Ensures("nothing else changes", vc.OnlyChanged(&p.memoize))
	inv(p)
	vc.Ensures("the inverse restores", p.memoize == old)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(&p.memoize))
}

//vc:prop C21
func vccheck_optAllowInvalidUTF8(p *parser, b bool) {
	vc.Requires(p != nil)
	old := p.allowInvalidUTF8
	vc.Mark()
	inv := AllowInvalidUTF8(b)(p)
	vc.Ensures("the flag is set", p.allowInvalidUTF8 == b)
	vc.Ensures("nothing else changes", vc.OnlyChanged(&p.allowInvalidUTF8))
	inv(p)
	vc.Ensures("the inverse restores", p.allowInvalidUTF8 == old)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(&p.allowInvalidUTF8))
}

//vc:prop C21
func vccheck_optRecover(p *parser, b bool) {
	vc.Requires(p != nil)
	old := p.recover
	vc.Mark()
	inv := Recover(b)(p)
	vc.Ensures("the flag is set", p.recover == b)
	vc.Ensures("nothing else changes", vc.OnlyChanged(&p.recover))
	inv(p)
	vc.Ensures("the inverse restores", p.recover == old)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(&p.recover))
}

//vc:prop C21
func vccheck_optGlobalStore(p *parser, key string, value interface{}, other string) {
	vc.Requires(p != nil && p.cur.globalStore != nil)
	m := p.cur.globalStore
	old := m[key]
	oldOther, hadOther := m[other]
	vc.Mark()
	inv := GlobalStore(key, value)(p)
	now, has := m[key]
	vc.Ensures("the value is stored", has && now == value)
	now, has = m[other]
	vc.Ensures("other keys keep their values", other == key || now == oldOther && has == hadOther)
	vc.Ensures("nothing else changes", vc.OnlyChanged(m))
	inv(p)
	vc.Ensures("the inverse restores", m[key] == old)
	now, has = m[other]
	vc.Ensures("the inverse keeps other keys", other == key || now == oldOther && has == hadOther)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(m))
}

//vc:prop C21
func vccheck_optInitState(p *parser, key string, value interface{}, other string) {
	vc.Requires(p != nil && p.cur.state != nil)
	m := p.cur.state
	old := m[key]
	oldOther, hadOther := m[other]
	vc.Mark()
	inv := InitState(key, value)(p)
	now, has := m[key]
	vc.Ensures("the value is stored", has && now == value)
	now, has = m[other]
	vc.Ensures("other keys keep their values", other == key || now == oldOther && has == hadOther)
	vc.Ensures("nothing else changes", vc.OnlyChanged(m))
	inv(p)
	vc.Ensures("the inverse restores", m[key] == old)
	now, has = m[other]
	vc.Ensures("the inverse keeps other keys", other == key || now == oldOther && has == hadOther)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(m))
}

//vc:prop C21
func vccheck_optIgnoreComments(p *parser, b bool, other string) {
	vc.Requires(p != nil && p.cur.globalStore != nil)
	m := p.cur.globalStore
	old, _ := m["__ignoreComments"].(bool)
	oldOther, hadOther := m[other]
	vc.Mark()
	inv := IgnoreComments(b)(p)
	now, ok := m["__ignoreComments"].(bool)
	vc.Ensures("the flag is stored", ok && now == b)
	v, has := m[other]
	vc.Ensures("other keys keep their values", other == "__ignoreComments" || v == oldOther && has == hadOther)
	vc.Ensures("nothing else changes", vc.OnlyChanged(m))
	inv(p)
	now, _ = m["__ignoreComments"].(bool)
	vc.Ensures("the inverse restores", now == old)
	v, has = m[other]
	vc.Ensures("the inverse keeps other keys", other == "__ignoreComments" || v == oldOther && has == hadOther)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(m))
}

//vc:prop C21
func vccheck_optExceptionalCommentsWarning(p *parser, b bool, other string) {
	vc.Requires(p != nil && p.cur.globalStore != nil)
	m := p.cur.globalStore
	old, _ := m["__exceptionalCommentWarning"].(bool)
	oldOther, hadOther := m[other]
	vc.Mark()
	inv := ExceptionalCommentsWarning(b)(p)
	now, ok := m["__exceptionalCommentWarning"].(bool)
	vc.Ensures("the flag is stored", ok && now == b)
	v, has := m[other]
	vc.Ensures("other keys keep their values", other == "__exceptionalCommentWarning" || v == oldOther && has == hadOther)
	vc.Ensures("nothing else changes", vc.OnlyChanged(m))
	inv(p)
	now, _ = m["__exceptionalCommentWarning"].(bool)
	vc.Ensures("the inverse restores", now == old)
	v, has = m[other]
	vc.Ensures("the inverse keeps other keys", other == "__exceptionalCommentWarning" || v == oldOther && has == hadOther)
	vc.Ensures("the inverse changes nothing else", vc.OnlyChanged(m))
}
