package config

import (
	"unicode"
	"unicode/utf8"

	"github.com/breml/logstash-config/internal/vc"
)

// The parsing-expression runtime. vcspec_m is the meaning of a grammar node:
// the offset behind the match of ex at off, or -1. It is the textbook
// definition of parsing expression grammars, applied to the nodes of the
// parser's own table.

// vcuf_pred is the verdict of a code predicate (a constant of its function,
// see vccheck_predConst).
func vcuf_pred(f func(*parser) (bool, error)) bool { panic("no value") }

// vcuf_body is the expression an action belongs to (every action of the table
// is the action of one expression: checked by evaluation).
func vcuf_body(f func(*parser) (interface{}, error)) interface{} { panic("no value") }

// vcuf_rule is the rule of a name in the grammar at hand (nil: none).
func vcuf_rule(name string) *rule { panic("no value") }

// vcuf_line and vcuf_col are the line and the column of the character at off,
// counted along the input: see the definition in vccheck_read.
func vcuf_line(data []byte, off int) int { panic("no value") }
func vcuf_col(data []byte, off int) int  { panic("no value") }

// vcuf_val is what the step of the parser numbered cnt returned, and vcuf_end
// the number of the step after it (a step increases the number first of all).
func vcuf_val(p *parser, cnt uint64) interface{} { panic("no value") }
func vcuf_end(p *parser, cnt uint64) uint64      { panic("no value") }

// vcspec_nth is the number of the k-th step after cnt.
func vcspec_nth(p *parser, cnt uint64, k int) uint64 {
	if k <= 0 {
		return cnt
	}
	return vcuf_end(p, vcspec_nth(p, cnt, k-1))
}

func vcspec_m(data []byte, ex interface{}, off int) int {
	switch e := ex.(type) {
	case *actionExpr:
		return vcspec_m(data, e.expr, off)
	case *andCodeExpr:
		if vcuf_pred(e.run) {
			return off
		}
		return -1
	case *andExpr:
		if vcspec_m(data, e.expr, off) >= 0 {
			return off
		}
		return -1
	case *anyMatcher:
		if off >= len(data) {
			return -1
		}
		return vcspec_next(data, off)
	case *charClassMatcher:
		if off >= len(data) || !vcspec_class(e, vcspec_rune(data, off)) {
			return -1
		}
		return vcspec_next(data, off)
	case *choiceExpr:
		return vcspec_choice(data, e.alternatives, 0, off)
	case *labeledExpr:
		return vcspec_m(data, e.expr, off)
	case *litMatcher:
		return vcspec_lit(data, e.val, e.ignoreCase, 0, off)
	case *notCodeExpr:
		if !vcuf_pred(e.run) {
			return off
		}
		return -1
	case *notExpr:
		if vcspec_m(data, e.expr, off) >= 0 {
			return -1
		}
		return off
	case *oneOrMoreExpr:
		n := vcspec_m(data, e.expr, off)
		if n < 0 {
			return -1
		}
		return vcspec_star(data, e.expr, n)
	case *ruleRefExpr:
		return vcspec_m(data, vcuf_rule(e.name).expr, off)
	case *seqExpr:
		return vcspec_seq(data, e.exprs, 0, off)
	case *stateCodeExpr:
		return off
	case *zeroOrMoreExpr:
		return vcspec_star(data, e.expr, off)
	case *zeroOrOneExpr:
		n := vcspec_m(data, e.expr, off)
		if n < 0 {
			return off
		}
		return n
	}
	return -1
}

// vcspec_star repeats ex from off on as often as it matches.
func vcspec_star(data []byte, ex interface{}, off int) int {
	n := vcspec_m(data, ex, off)
	if n < 0 {
		return off
	}
	return vcspec_star(data, ex, n)
}

// vcspec_seq matches the expressions from k on one after the other.
func vcspec_seq(data []byte, exs []interface{}, k, off int) int {
	if k >= len(exs) {
		return off
	}
	n := vcspec_m(data, exs[k], off)
	if n < 0 {
		return -1
	}
	return vcspec_seq(data, exs, k+1, n)
}

// vcspec_choice is the first match among the alternatives from k on.
func vcspec_choice(data []byte, exs []interface{}, k, off int) int {
	if k >= len(exs) {
		return -1
	}
	n := vcspec_m(data, exs[k], off)
	if n >= 0 {
		return n
	}
	return vcspec_choice(data, exs, k+1, off)
}

func vcspec_rune(data []byte, off int) rune { r, _ := utf8.DecodeRune(data[off:]); return r }
func vcspec_next(data []byte, off int) int  { _, w := utf8.DecodeRune(data[off:]); return off + w }
func vcspec_fold(ic bool, r rune) rune {
	if ic {
		return unicode.ToLower(r)
	}
	return r
}

// vcspec_lit matches the runes of s from byte i on.
func vcspec_lit(data []byte, s string, ic bool, i, off int) int {
	if i >= len(s) {
		return off
	}
	r, w := utf8.DecodeRuneInString(s[i:])
	if vcspec_fold(ic, vcspec_rune(data, off)) != r {
		return -1
	}
	return vcspec_lit(data, s, ic, i+w, vcspec_next(data, off))
}

func vcspec_inChars(c *charClassMatcher, cur rune, n int) bool {
	return vc.Exists(0, n, func(k int) bool { return c.chars[k] == cur })
}
func vcspec_inRanges(c *charClassMatcher, cur rune, n int) bool {
	return vc.Exists(0, n, func(k int) bool { return k%2 == 0 && c.ranges[k] <= cur && cur <= c.ranges[k+1] })
}
func vcspec_inClasses(c *charClassMatcher, cur rune, n int) bool {
	return vc.Exists(0, n, func(k int) bool { return unicode.Is(c.classes[k], cur) })
}
func vcspec_class(c *charClassMatcher, r rune) bool {
	cur := vcspec_fold(c.ignoreCase, r)
	return (vcspec_inChars(c, cur, len(c.chars)) || vcspec_inRanges(c, cur, len(c.ranges)) || vcspec_inClasses(c, cur, len(c.classes))) != c.inverted
}

// vcspec_wf: the shape the runtime relies on. The table of this repository
// has it (checked by evaluation), and nothing changes the table.
func vcspec_wf(ex interface{}) bool {
	switch e := ex.(type) {
	case *actionExpr:
		return e != nil && e.run != nil && vcuf_body(e.run) == e.expr && vcspec_wf(e.expr)
	case *andCodeExpr:
		return e != nil && e.run != nil
	case *andExpr:
		return e != nil && vcspec_wf(e.expr)
	case *anyMatcher:
		return e != nil
	case *charClassMatcher:
		return e != nil && len(e.ranges)%2 == 0
	case *choiceExpr:
		return e != nil && vc.Forall(0, len(e.alternatives), func(k int) bool { return vcspec_wf(e.alternatives[k]) })
	case *labeledExpr:
		return e != nil && vcspec_wf(e.expr)
	case *litMatcher:
		return e != nil && vcspec_plain(e.val, 0)
	case *notCodeExpr:
		return e != nil && e.run != nil
	case *notExpr:
		return e != nil && vcspec_wf(e.expr)
	case *oneOrMoreExpr:
		return e != nil && vcspec_wf(e.expr)
	case *ruleRefExpr:
		return e != nil && e.name != "" && vcuf_rule(e.name) != nil
	case *seqExpr:
		return e != nil && vc.Forall(0, len(e.exprs), func(k int) bool { return vcspec_wf(e.exprs[k]) })
	case *stateCodeExpr:
		return e != nil && e.run != nil
	case *zeroOrMoreExpr:
		return e != nil && vcspec_wf(e.expr)
	case *zeroOrOneExpr:
		return e != nil && vcspec_wf(e.expr)
	}
	return false
}

// vcspec_plain: no U+FFFD and no invalid byte from i on.
func vcspec_plain(s string, i int) bool {
	if i >= len(s) {
		return true
	}
	r, w := utf8.DecodeRuneInString(s[i:])
	return r != utf8.RuneError && vcspec_plain(s, i+w)
}

// vcspec_inv: the state of a parser between two steps; vcspec_inv0 the same
// before the first rule is entered.
func vcspec_inv(p *parser) bool { return vcspec_inv0(p) && len(p.rstack) > 0 && len(p.vstack) > 0 }
func vcspec_inv0(p *parser) bool {
	return p != nil && p.Stats != nil && p.ChoiceAltCnt != nil && p.cur.state != nil && p.depth >= 0 &&
		vcspec_at(p) && vcspec_rules(p) && vcspec_maps(p) && vcspec_table(p) && vcspec_errs(p)
}

// vcspec_errs: the errors so far.
func vcspec_errs(p *parser) bool {
	return p.errs != nil && vc.Forall(0, len(*p.errs), func(k int) bool { return (*p.errs)[k] != nil })
}

// vcspec_table: the parser has the rules of the grammar, and they are well-formed.
func vcspec_table(p *parser) bool {
	return vc.ForallStr(func(n string) bool {
		return p.rules[n] == vcuf_rule(n) && (p.rules[n] == nil || vcspec_wf(p.rules[n].expr))
	})
}

// vcspec_at: the position is inside the input and the current rune is the one there.
func vcspec_at(p *parser) bool { return vcspec_decoded(p) && vcspec_place(p, p.pt.position) }
func vcspec_decoded(p *parser) bool {
	if p.pt.offset < 0 || p.pt.offset > len(p.data) {
		return false
	}
	r, w := utf8.DecodeRune(p.data[p.pt.offset:])
	return p.pt.rn == r && p.pt.w == w
}

// vcspec_place: line and column belong to the offset.
func vcspec_place(p *parser, at position) bool {
	return at.line == vcuf_line(p.data, at.offset) && at.col == vcuf_col(p.data, at.offset)
}
func vcspec_maps(p *parser) bool {
	return vc.Forall(0, len(p.vstack), func(k int) bool { return p.vstack[k] != nil })
}
func vcspec_rules(p *parser) bool {
	return vc.Forall(0, len(p.rstack), func(k int) bool { return p.rstack[k] != nil })
}

// The lines and columns: the first character is at 1:1, the one after a
// character at line l and column c is at l:c+1, except that a newline is at
// column 0 of the next line. (Any input has such a numbering, because every
// offset before the end has one successor, and a greater one.)
//
//vc:prop C02 C05
//vc:target (*config.parser).read
//vc:use (*config.parser).addErr
func vccheck_read(p *parser) {
	vc.Requires(p != nil && vcspec_errs(p) && vcspec_rules(p))
	vc.Requires(vcspec_begun(p) || vcspec_fresh(p))
	off := p.pt.offset + p.pt.w
	line, col := p.pt.line, p.pt.col
	n := len(*p.errs)
	p.read()
	vc.Ensures("frame", vc.OnlyChanged(&p.pt, p.errs, []error(nil)))
	vc.Ensures("advances by one rune", p.pt.offset == off && vcspec_decoded(p))
	vc.Ensures("counts lines", vc.Implies(p.pt.rn == '\n', p.pt.line == line+1 && p.pt.col == 0) && vc.Implies(p.pt.rn != '\n', p.pt.line == line && p.pt.col == col+1))
	vc.Defines("the numbering of the characters of the input", vcspec_place(p, p.pt.position))
	vc.Ensures("errors are errors", vcspec_errs(p))
	vc.Ensures("an invalid byte is an error unless allowed", vc.Implies(p.allowInvalidUTF8 || p.pt.rn != utf8.RuneError || p.pt.w != 1, len(*p.errs) == n) &&
		vc.Implies(!p.allowInvalidUTF8 && p.pt.rn == utf8.RuneError && p.pt.w == 1, len(*p.errs) == n+1))
}

// vcspec_begun: there is a current character, at its place.
func vcspec_begun(p *parser) bool { return vcspec_at(p) && p.pt.w > 0 }

// vcspec_fresh: nothing has been read.
func vcspec_fresh(p *parser) bool {
	return p.pt.offset == 0 && p.pt.w == 0 && p.pt.line == 1 && p.pt.col == 0
}

//vc:prop C02
//vc:target (*config.parser).addErr
//vc:use (*config.parser).addErrAt
func vccheck_addErr(p *parser, err error) {
	vc.Requires(p != nil && vcspec_errs(p) && err != nil && vcspec_rules(p))
	n := len(*p.errs)
	p.addErr(err)
	vc.Ensures("frame", vc.OnlyChanged(p.errs, []error(nil)))
	vc.Ensures("one more error", len(*p.errs) == n+1 && vcspec_errs(p))
}

//vc:prop C02
//vc:target (*config.parser).addErrAt
func vccheck_addErrAt(p *parser, err error, pos position, expected []string) {
	vc.Requires(p != nil && vcspec_errs(p) && err != nil && vcspec_rules(p))
	n := len(*p.errs)
	p.addErrAt(err, pos, expected)
	vc.Ensures("frame", vc.OnlyChanged(p.errs, []error(nil)))
	vc.Ensures("one more error", len(*p.errs) == n+1 && vcspec_errs(p))
}

//vc:prop C02 C20
//vc:target (*config.parser).failAt
func vccheck_failAt(p *parser, fail bool, pos position, want string) {
	vc.Requires(p != nil)
	oldPos, oldN := p.maxFailPos, len(p.maxFailExpected)
	inv := p.maxFailInvertExpected
	old := vc.CopySlice(p.maxFailExpected)
	p.failAt(fail, pos, want)
	vc.Ensures("frame", vc.OnlyChanged(&p.maxFailPos, &p.maxFailExpected, p.maxFailExpected, []string(nil)))
	counts := fail == inv
	w := want
	if inv {
		w = "!" + want
	}
	vc.Ensures("nothing is recorded for a nearer position", vc.Implies(!counts || pos.offset < oldPos.offset, p.maxFailPos == oldPos && vc.SameSlice(p.maxFailExpected, old)))
	vc.Ensures("a farther position starts a new set", vc.Implies(counts && pos.offset > oldPos.offset, p.maxFailPos == pos && len(p.maxFailExpected) == 1 && p.maxFailExpected[0] == w))
	vc.Ensures("the same position extends the set", vc.Implies(counts && pos.offset == oldPos.offset, p.maxFailPos == oldPos && len(p.maxFailExpected) == oldN+1 &&
		p.maxFailExpected[oldN] == w && vc.Forall(0, oldN, func(k int) bool { return p.maxFailExpected[k] == old[k] })))
}
