package config

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/vc"
)

// ---- the farthest-failure report

// vcspec_report: the report is about one position, and names each expectation once.
func vcspec_onePlace(r []errPos) bool {
	return vc.Forall(0, len(r), func(k int) bool { return r[k].pos == r[0].pos })
}
func vcspec_distinct(r []errPos) bool {
	return vc.Forall(0, len(r), func(k int) bool { return vc.Forall(0, k, func(j int) bool { return r[j].msg != r[k].msg }) })
}
func vcspec_names(r []errPos, msg string, n int) bool {
	return vc.Exists(0, n, func(k int) bool { return r[k].msg == msg })
}
func vchint_notYet(errorMsg string, ri int) bool {
	return vc.Forall(0, ri+1, func(k int) bool { return farthestFailure[k].msg != errorMsg })
}

//vc:prop C20 C03
//vc:target (*config.current).pushError
//vc:hints vchint_notYet
func vccheck_pushError(c *current, errorMsg string) {
	vc.Requires(c != nil && vcspec_onePlace(farthestFailure) && vcspec_distinct(farthestFailure))
	at := c.pos.offset + len(c.text)
	n := len(farthestFailure)
	old := 0
	if n > 0 {
		old = farthestFailure[0].pos
	}
	known := vcspec_names(farthestFailure, errorMsg, n)
	before := vc.CopySlice(farthestFailure)
	vc.Frame(&farthestFailure)
	ok, err := c.pushError(errorMsg)
	vc.Ensures("a failed predicate, no error", !ok && err == nil)
	vc.Ensures("frame", vc.OnlyChanged(&farthestFailure, []errPos(nil)))
	now := farthestFailure
	vc.Ensures("the report is not empty", len(now) > 0)
	vc.Ensures("one place", vcspec_onePlace(now))
	vc.Ensures("each expectation once", vcspec_distinct(now))
	vc.Ensures("a farther failure replaces the report", vc.Implies(n == 0 || at > old,
		len(now) == 1 && now[0].pos == at && now[0].msg == errorMsg && vcspec_sameCurrent(now[0].c, c)))
	vc.Ensures("a nearer failure changes nothing", vc.Implies(n > 0 && at < old, len(now) == n && vc.Forall(0, n, func(k int) bool { return vc.Same(now[k], before[k]) })))
	vc.Ensures("an equally far failure is added once", vc.Implies(n > 0 && at == old,
		vc.Implies(known, len(now) == n) && vc.Implies(!known, len(now) == n+1 && now[n].msg == errorMsg && now[n].pos == at && vcspec_sameCurrent(now[n].c, c)) &&
			vc.Forall(0, n, func(k int) bool { return vc.Same(now[k], before[k]) })))
	vc.Ensures("the farthest place seen", vc.Implies(n > 0, now[0].pos >= old) && now[0].pos >= at)
}
func vcspec_sameCurrent(a current, c *current) bool {
	return a.pos == c.pos && vc.Same(a.text, c.text)
}

//vc:prop C20 C03
//vc:target (*config.current).fatalError
//vc:maypanic
func vccheck_fatalError(c *current, errorMsg string) {
	vc.Requires(c != nil)
	at := c.pos.offset + len(c.text)
	vc.Panics("the report is the fatal failure alone", func() bool {
		return len(farthestFailure) == 1 && farthestFailure[0].pos == at && farthestFailure[0].msg == errorMsg && vcspec_sameCurrent(farthestFailure[0].c, c)
	})
	c.fatalError(errorMsg)
	vc.Ensures("a fatal failure ends the parse", false)
}

//vc:prop C03 C20
//vc:target (*config.current).initParser
func vccheck_initParser(c *current) {
	vc.Requires(c != nil)
	ok, err := c.initParser()
	vc.Ensures("frame", vc.OnlyChanged(&farthestFailure))
	vc.Ensures("goes on", ok && err == nil)
	vc.Ensures("the report of earlier parses is gone", len(farthestFailure) == 0)
}

//vc:prop C20 C03
//vc:target config.GetFarthestFailure
//vc:hints vchint_text
func vccheck_GetFarthestFailure() {
	s, ok := GetFarthestFailure()
	vc.Ensures("looking at the report changes nothing", vc.OnlyChanged())
	vc.Ensures("a report exactly if there is a failure", ok == (len(farthestFailure) > 0))
	vc.Ensures("the place and every expectation, in order", vc.Implies(ok, s == vcspec_text(farthestFailure, len(farthestFailure))))
}

// vcspec_text: the report with its first n expectations.
func vcspec_text(r []errPos, n int) string {
	if n <= 0 {
		return fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", r[0].c.pos, r[0].pos, strings.ReplaceAll(string(r[0].c.text), "\n", "\\n"))
	}
	return vcspec_text(r, n-1) + fmt.Sprintf("-> %s\n", r[n-1].msg)
}
func vchint_text(bb bytes.Buffer, ri int) bool {
	return bb.String() == vcspec_text(farthestFailure, ri+1)
}

// ---- warnings

//vc:prop C06 C03
//vc:target (*config.current).warnComment
func vccheck_warnComment(c *current) {
	vc.Requires(c != nil && c.state != nil)
	on, _ := c.globalStore[exceptionalCommentWarning].(bool)
	due := on && bytes.Contains(c.text, []byte("#"))
	old, _ := c.state[exceptionalCommentWarning].(exceptionalCommentsWarnings)
	n := len(old)
	before := vc.CopySlice(old)
	err := c.warnComment()
	vc.Ensures("no error", err == nil)
	vc.Ensures("frame", vc.OnlyChanged(c.state, []string(nil)))
	now, _ := c.state[exceptionalCommentWarning].(exceptionalCommentsWarnings)
	if due {
		vc.Ensures("one more warning", len(now) == n+1 && now[n] == fmt.Sprintf("exceptional comment at %s", c.pos))
	} else {
		vc.Ensures("no more warnings", len(now) == n)
	}
	vc.Ensures("the earlier ones stay", vc.Forall(0, n, func(k int) bool { return now[k] == before[k] }))
}

//vc:prop C06
//vc:target (config.exceptionalCommentsWarnings).Clone
func vccheck_warningsClone(w exceptionalCommentsWarnings) {
	r := w.Clone()
	c, ok := r.(exceptionalCommentsWarnings)
	vc.Ensures("frame", vc.OnlyChanged())
	vc.Ensures("the same warnings", ok && len(c) == len(w) && vc.Forall(0, len(w), func(k int) bool { return c[k] == w[k] }))
}

//vc:prop C06 C03
//vc:target (*config.current).initState
func vccheck_initState(c *current) {
	vc.Requires(c != nil && c.state != nil)
	old, had := c.state[exceptionalCommentWarning].(exceptionalCommentsWarnings)
	_, any := c.state[exceptionalCommentWarning]
	err := c.initState()
	vc.Ensures("no error", err == nil)
	vc.Ensures("frame", vc.OnlyChanged(c.state))
	now, ok := c.state[exceptionalCommentWarning].(exceptionalCommentsWarnings)
	vc.Ensures("no warnings at the start", vc.Implies(!any, ok && len(now) == 0))
	vc.Ensures("what is there stays", vc.Implies(had, ok && vc.Same(now, old)))
}

//vc:prop C06
func vccheck_retConfigWarnings(c *current, el interface{}) {
	vc.Requires(c != nil)
	in, ok := el.(ast.Config)
	w, had := c.state[exceptionalCommentWarning].(exceptionalCommentsWarnings)
	r, err := c.retConfig(el)
	out, is := r.(ast.Config)
	vc.Ensures("a configuration", err == nil && is)
	vc.Ensures("all warnings of the parse", vc.Implies(had, len(out.Warnings) == len(w) && vc.Forall(0, len(w), func(k int) bool { return out.Warnings[k] == w[k] })))
	vc.Ensures("none without", vc.Implies(!had, len(out.Warnings) == 0))
	vc.Ensures("the rest of it", vc.Implies(ok, vc.Same(out.Input, in.Input) && vc.Same(out.Filter, in.Filter) && vc.Same(out.Output, in.Output) && vc.Same(out.FooterComment, in.FooterComment)))
}
