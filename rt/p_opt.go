package main

// Options: C21 and C22.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"unicode/utf8"

	config "github.com/breml/logstash-config"
)

type namedOpt struct {
	name, kind string
	o          config.Option
}

var ruleNames = []string{"", "init", "config", "plugin", "attribute", "nosuchrule", "branch"}

func (c *ctx) option() namedOpt {
	r := c.g.r
	b := r.one(2)
	k := pick(r, []string{"a", "b", "user"})
	v := pick(r, []interface{}{1, "x", true, false, nil})
	switch r.Intn(12) {
	case 0:
		n := uint64(r.Intn(4)) * uint64(r.Intn(1000))
		return namedOpt{fmt.Sprintf("MaxExpressions(%d)", n), "MaxExpressions", config.MaxExpressions(n)}
	case 1:
		n := pick(r, ruleNames)
		return namedOpt{fmt.Sprintf("Entrypoint(%q)", n), "Entrypoint", config.Entrypoint(n)}
	case 2:
		n := pick(r, []string{"", "no match", "none"})
		return namedOpt{fmt.Sprintf("Statistics(new, %q)", n), "Statistics", config.Statistics(&config.Stats{}, n)}
	case 3:
		return namedOpt{fmt.Sprintf("Debug(%v)", b), "Debug", config.Debug(b)}
	case 4:
		return namedOpt{fmt.Sprintf("Memoize(%v)", b), "Memoize", config.Memoize(b)}
	case 5:
		return namedOpt{fmt.Sprintf("AllowInvalidUTF8(%v)", b), "AllowInvalidUTF8", config.AllowInvalidUTF8(b)}
	case 6:
		return namedOpt{fmt.Sprintf("Recover(%v)", b), "Recover", config.Recover(b)}
	case 7:
		return namedOpt{fmt.Sprintf("GlobalStore(%q,%v)", k, v), "GlobalStore", config.GlobalStore(k, v)}
	case 8:
		return namedOpt{fmt.Sprintf("InitState(%q,%v)", k, v), "InitState", config.InitState(k, v)}
	case 9, 10:
		return namedOpt{fmt.Sprintf("IgnoreComments(%v)", b), "IgnoreComments", config.IgnoreComments(b)}
	}
	return namedOpt{fmt.Sprintf("ExceptionalCommentsWarning(%v)", b), "ExceptionalCommentsWarning", config.ExceptionalCommentsWarning(b)}
}

func snapStr(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func init() {
	props["C21"] = func(c *ctx) {
		r := c.g.r
		if r.one(2) && config.VcrtOptions != nil {
			c.optionInverse()
			return
		}
		c.exprLimit()
	}
	props["C22"] = checkC22
}

// touched remembers which settings an option of each kind was seen to change.
var touched = map[string]map[string]bool{}

func (c *ctx) optionInverse() {
	r := c.g.r
	var first []config.Option
	var log []string
	for n := r.Intn(3); n > 0; n-- {
		o := c.option()
		first = append(first, o.o)
		log = append(log, o.name)
	}
	s := config.VcrtOptions(first...)
	log = append(log, "then:")
	type undo struct {
		o    config.Option
		snap map[string]string
		name string
	}
	var stack []undo
	for n := 1 + r.Intn(5); n > 0; n-- {
		o := c.option()
		log = append(log, o.name)
		before := s.Snapshot()
		inv := s.Apply(o.o)
		after := s.Snapshot()
		stack = append(stack, undo{inv, before, o.name})
		for k, v := range after {
			if before[k] != v {
				if touched[o.kind] == nil {
					touched[o.kind] = map[string]bool{}
				}
				touched[o.kind][k] = true
				for kind, m := range touched {
					store := map[string]bool{"GlobalStore": true, "IgnoreComments": true, "ExceptionalCommentsWarning": true}
					if kind != o.kind && m[k] && !(store[kind] && store[o.kind]) {
						c.fail("option-target", "two options change the same setting", strings.Join(log, " "), kind+" and "+o.kind+" change different settings", "both change "+k)
					}
				}
			}
		}
		if r.one(3) {
			// apply the inverse right away, and the inverse of the inverse
			inv2 := s.Apply(inv)
			if w, g := snapStr(before), snapStr(s.Snapshot()); w != g {
				c.fail("option-inverse", "an option followed by the one it returned changes a setting", strings.Join(log, " "), w, g)
			}
			s.Apply(inv2)
			if w, g := snapStr(after), snapStr(s.Snapshot()); w != g {
				c.fail("option-inverse", "the inverse of the inverse does not restore the option", strings.Join(log, " "), w, g)
			}
		}
	}
	for i := len(stack) - 1; i >= 0; i-- {
		s.Apply(stack[i].o)
		if w, g := snapStr(stack[i].snap), snapStr(s.Snapshot()); w != g {
			c.fail("option-inverse", "applying the options returned by the options does not restore the settings (undoing "+stack[i].name+")", strings.Join(log, " "), w, g)
		}
	}
	c.nontrivial(strings.Join(log, " "))
}

func (c *ctx) exprLimit() {
	r := c.g.r
	s := c.g.text()
	ign, warn := c.optPair()
	ck := func(s string) (string, string, bool) {
		st := &config.Stats{}
		base := parse(s, append(opts(ign, warn), config.Statistics(st, "none"))...)
		w := full(s, base)
		n := st.ExprCnt
		type tc struct {
			lim  uint64
			fail bool
		}
		for _, t := range []tc{{0, false}, {n, false}, {n + 1, false}, {n + 1000000, false}, {n - 1, true}, {n / 2, true}, {1, true}} {
			if t.fail && (t.lim == 0 || t.lim >= n) {
				continue
			}
			o := parse(s, append(opts(ign, warn), config.MaxExpressions(t.lim))...)
			if !t.fail {
				if g := full(s, o); g != w {
					return fmt.Sprintf("with a limit of %d (needs %d) the same as without:\n%s", t.lim, n, w), g, false
				}
				continue
			}
			if o.pan != nil || o.err == nil || !strings.Contains(o.err.Error(), "max number of expres") {
				return fmt.Sprintf("with a limit of %d (needs %d) the error for the maximal number of expressions", t.lim, n), fmt.Sprint(o.pan, o.err), false
			}
		}
		return "", "", true
	}
	_ = r
	c.nontrivial(s)
	c.diffFail(s, "limit", "the limit on the number of expressions is not obeyed", ck)
}

func checkC22(c *ctx) {
	r := c.g.r
	s := c.g.text()
	ign, warn := c.optPair()
	which := r.Intn(4)
	allowInv := r.one(4)
	mk := func(st *config.Stats) (string, []config.Option) {
		os := opts(ign, warn)
		if allowInv {
			os = append(os, config.AllowInvalidUTF8(true))
		}
		switch which {
		case 0:
			return "Memoize(true)", append(os, config.Memoize(true))
		case 1:
			return "Statistics", append(os, config.Statistics(st, "none"))
		case 2:
			return "Debug(true)", append(os, config.Debug(true))
		}
		return "Recover(false)", append(os, config.Recover(false))
	}
	if which == 2 && len(s) > 300 {
		s = s[:300]
	}
	ck := func(s string) (string, string, bool) {
		bo := opts(ign, warn)
		if allowInv {
			bo = append(bo, config.AllowInvalidUTF8(true))
		}
		base := parse(s, bo...)
		st := &config.Stats{}
		name, os_ := mk(st)
		stdout := os.Stdout
		if which == 2 {
			os.Stdout = devNull
		}
		o := parse(s, os_...)
		os.Stdout = stdout
		if which == 3 && o.pan != nil {
			// An abort arrives as a panic; with recovery its text is in the error.
			if base.err != nil && strings.Contains(base.err.Error(), fmt.Sprint(o.pan)) {
				return "", "", true
			}
		}
		if which == 0 {
			// the farthest-failure report is no part of the result
			base.far, o.far, base.hasF, o.hasF = "", "", false, false
			// known finding memoize-warnings: results taken from the cache do not repeat the
			// warnings recorded when they were computed, so warnings may be missing
			if isSubsequence(o.conf.Warnings, base.conf.Warnings) {
				base.conf.Warnings, o.conf.Warnings = nil, nil
			}
		}
		w, g := full(s, base), full(s, o)
		if w != g {
			return "without " + name + ":\n" + w, "with " + name + ":\n" + g, false
		}
		if which == 1 && utf8.ValidString(s) && !allowInv {
			ref := refParse(c.gr, s, ign, warn)
			if !ref.giveup && base.pan == nil && ref.ok == (base.err == nil) {
				return statsDiff(ref.stats, st.ChoiceAltCnt)
			}
		}
		return "", "", true
	}
	c.nontrivial(s)
	c.diffFail(s, "options", "an option that must not change the result of a parse does", ck)
}

var devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

// statsDiff compares how often choices matched and did not match
// (the generated parser has some rules and alternatives merged into others).
func statsDiff(ref map[string]map[string]int, got map[string]map[string]int) (string, string, bool) {
	str := func(m map[string]map[string]int) string {
		sum := map[string]int{}
		for _, a := range m {
			for k, n := range a {
				if k != "none" {
					k = "any"
				}
				sum[k] += n
			}
		}
		var ls []string
		for k, n := range sum {
			ls = append(ls, fmt.Sprintf("matches (%s): %d", k, n))
		}
		sort.Strings(ls)
		return strings.Join(ls, "\n")
	}
	w, g := str(ref), str(got)
	return "statistics:\n" + w, "statistics:\n" + g, w == g
}

func isSubsequence(a, b []string) bool {
	for _, x := range b {
		if len(a) > 0 && a[0] == x {
			a = a[1:]
		}
	}
	return len(a) == 0
}
