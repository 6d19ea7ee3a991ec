package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

type out struct {
	conf ast.Config
	val  interface{}
	err  error
	pan  interface{}
	far  string
	hasF bool
}

func parse(s string, opts ...config.Option) (o out) { return parseB([]byte(s), opts...) }

func parseB(b []byte, opts ...config.Option) (o out) {
	defer func() {
		if e := recover(); e != nil {
			o.pan = e
		}
	}()
	o.val, o.err = config.Parse("", b, opts...)
	o.far, o.hasF = config.GetFarthestFailure()
	o.conf, _ = o.val.(ast.Config)
	return
}

func opts(ign, warn bool) []config.Option {
	var os []config.Option
	if ign {
		os = append(os, config.IgnoreComments(true))
	}
	if warn {
		os = append(os, config.ExceptionalCommentsWarning(true))
	}
	return os
}

func (c *ctx) optPair() (bool, bool) {
	switch c.g.r.Intn(6) {
	case 0:
		return true, false
	case 1, 2:
		return false, true
	case 3:
		return true, true
	}
	return false, false
}

var internalRe = regexp.MustCompile(`runtime error|interface conversion|index out of range|slice bounds|nil pointer|nil map|unknown expression type|undefined rule|invalid rule|invalid entrypoint|grammar has no rule|not supported: |Value is not a|Argument is not a|Unsupported attribute|is not supported|invalid value for if block|max number of expres|reflect:|strconv\.|unsupported`)

func internalErr(err error) bool {
	// the text of the error may quote the input; look at the message lines only
	m := err.Error()
	if strings.Contains(m, "value out of range") {
		return false
	}
	m = regexp.MustCompile(`(?s)\(after: '.*?'\):`).ReplaceAllString(m, "")
	return internalRe.MatchString(m)
}

func init() {
	props["C01"] = func(c *ctx) {
		s := c.g.text()
		if c.g.r.one(3) {
			s = c.g.mutate(s)
		}
		if c.g.r.one(40) {
			s = strings.Repeat(pick(c.g.r, []string{"[", "(", "{", "a{b=>", "if [a] { ", "!(", "\"\\", "input{", "# x\n", "[[", "a => ", "1 and "}), 1+c.g.r.Intn(60))
			s = pick(c.g.r, []string{"", "input{", "filter { if ", "input{a{b=>"}) + s
		}
		ign, warn := c.optPair()
		o := parse(s, opts(ign, warn)...)
		c.nontrivial(s)
		ck := func(s string) string {
			o := parse(s, opts(ign, warn)...)
			switch {
			case o.pan != nil:
				return fmt.Sprintf("panic: %v", o.pan)
			case o.err == nil:
				if _, ok := o.val.(ast.Config); !ok {
					return fmt.Sprintf("no error and no configuration but %T", o.val)
				}
			case internalErr(o.err):
				return "internal failure reported as error: " + o.err.Error()
			}
			return ""
		}
		_ = o
		if m := ck(s); m != "" {
			s = shrink(s, func(t string) bool { return ck(t) != "" }, 3000)
			c.fail("crash", "parsing neither returned a tree nor an ordinary parse error", s, "a tree or a parse error", ck(s))
		}
	}
	props["C02"] = func(c *ctx) {
		s := c.g.text()
		if !utf8.ValidString(s) {
			s = strings.ToValidUTF8(s, "\ufffd")
		}
		ign, warn := c.optPair()
		ck := func(s string) (string, string, bool) {
			if !utf8.ValidString(s) {
				return "", "", true
			}
			ref := refParse(c.gr, s, ign, warn)
			o := parse(s, opts(ign, warn)...)
			if ref.giveup {
				return "", "", true
			}
			w, g := "accepted", "accepted"
			if !ref.ok {
				w = "rejected"
			}
			if o.pan != nil {
				g = fmt.Sprintf("panic: %v", o.pan)
			} else if o.err != nil {
				g = "rejected"
				if ref.ok {
					g += ": " + o.err.Error()
				}
			}
			return w, g, w == g
		}
		c.nontrivial(s)
		if _, _, ok := ck(s); !ok {
			s = shrink(s, func(t string) bool { _, _, ok := ck(t); return !ok }, 3000)
			w, g, _ := ck(s)
			c.fail("language", "the parser and the published grammar disagree on this text", s, w, g)
		}
	}
	props["C03"] = checkC03
	props["C04"] = func(c *ctx) {
		s, ign, warn := c.accepted()
		entry := c.g.r.Intn(8)
		ck := func(s string) (string, string, bool) {
			ref := refParse(c.gr, s, ign, warn)
			o := c.parseVia(entry, s, opts(ign, warn)...)
			if !utf8.ValidString(s) || !ref.ok || o.err != nil || o.pan != nil {
				return "", "", true
			}
			w := dump(ref.tree, dumpOpt{})
			g := dump(convConfig(o.conf), dumpOpt{})
			return w, g, w == g
		}
		c.diffFail(s, "tree", "the tree does not mirror the text", ck)
	}
	props["C05"] = func(c *ctx) {
		s, ign, warn := c.accepted()
		ck := func(s string) (string, string, bool) {
			ref := refParse(c.gr, s, ign, warn)
			o := parse(s, opts(ign, warn)...)
			if !utf8.ValidString(s) || !ref.ok || o.err != nil || o.pan != nil {
				return "", "", true
			}
			t := convConfig(o.conf)
			if dump(ref.tree, dumpOpt{}) != dump(t, dumpOpt{}) {
				return "", "", true // the tree itself differs: not a matter of positions
			}
			w := dump(ref.tree, dumpOpt{pos: true})
			g := dump(t, dumpOpt{pos: true})
			if p := (ast.Condition{}).Pos(); p != ast.InvalidPos {
				return w, "position of an empty condition: " + p.String(), false
			}
			return w, g, w == g
		}
		c.diffFail(s, "position", "a node does not have the position of its first character", ck)
	}
	props["C06"] = func(c *ctx) {
		s, ign, warn := c.accepted()
		ck := func(s string) (string, string, bool) {
			ref := refParse(c.gr, s, ign, warn)
			o := parse(s, opts(ign, warn)...)
			if !utf8.ValidString(s) || !ref.ok || len(ref.tree.Kids) == 0 || o.err != nil || o.pan != nil {
				return "", "", true
			}
			t := convConfig(o.conf)
			if dump(ref.tree, dumpOpt{}) != dump(t, dumpOpt{}) {
				return "", "", true
			}
			w := dump(ref.tree, dumpOpt{com: true}) + warnDump(s, ref.warnings)
			g := dump(t, dumpOpt{com: true}) + gotWarnings(s, o.conf.Warnings)
			return w, g, w == g
		}
		c.diffFail(s, "comment", "comments or warnings are lost, duplicated or misplaced", ck)
	}
	props["C09"] = func(c *ctx) {
		s, _, warn := c.accepted()
		ck := func(s string) (w, g string, ok bool) {
			defer func() {
				if e := recover(); e != nil {
					w, g, ok = "no panic", fmt.Sprint(e), false
				}
			}()
			o := parse(s, opts(false, warn)...)
			if !utf8.ValidString(s) || o.err != nil || o.pan != nil || len(o.conf.Input)+len(o.conf.Filter)+len(o.conf.Output) == 0 {
				return "", "", true
			}
			p1 := o.conf.String()
			if knownC09(o.conf) {
				return "", "", true
			}
			o2 := parse(p1)
			if o2.err != nil {
				return "the printed text is accepted:\n" + p1, o2.err.Error(), false
			}
			do := dumpOpt{com: true}
			w = dump(convConfig(o.conf), do)
			g = dump(convConfig(o2.conf), do)
			if w != g {
				return "printed:\n" + p1 + "\ntree:\n" + w, "tree after printing:\n" + g, false
			}
			p2 := o2.conf.String()
			return p1, p2, p1 == p2
		}
		c.diffFail(s, "roundtrip", "printing and parsing again changes the configuration", ck)
	}
	props["C20"] = func(c *ctx) {
		r := c.g.r
		for n := r.Intn(3); n > 0; n-- {
			parse(c.g.text())
		}
		s := strings.ToValidUTF8(c.g.text(), "\ufffd")
		if r.one(2) {
			s = strings.ToValidUTF8(c.g.mutate(s), "\ufffd")
		}
		ign, warn := c.optPair()
		ck := func(s string) (string, string, bool) {
			if !utf8.ValidString(s) {
				return "", "", true
			}
			ref := refParse(c.gr, s, ign, warn)
			o := parse(s, opts(ign, warn)...)
			if ref.giveup || o.pan != nil || ref.ok != (o.err == nil) {
				return "", "", true
			}
			w := farDump(ref.fails)
			g := farGot(o.far, o.hasF)
			return w, g, w == g
		}
		c.diffFail(s, "farthest", "the farthest-failure report is not that of the farthest position of this parse", ck)
	}
}

// knownC09 recognizes the inputs of the recorded findings about C09.
//
// selector-line-break: a selector name that starts with a line break is indented like an array.
//
// array-as-selector: an array used in a condition whose printed form has a closing bracket
// before any comma or opening bracket reads as a selector, because the grammar tries selectors first.
func knownC09(c ast.Config) bool {
	for _, ss := range [][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for _, s := range ss {
			if knownBops(s.BranchOrPlugins) {
				return true
			}
		}
	}
	return false
}

func knownBops(bs []ast.BranchOrPlugin) bool {
	for _, b := range bs {
		br, ok := b.(ast.Branch)
		if !ok {
			continue
		}
		if knownCond(br.IfBlock.Condition) || knownBops(br.IfBlock.Block) || knownBops(br.ElseBlock.Block) {
			return true
		}
		for _, e := range br.ElseIfBlock {
			if knownCond(e.Condition) || knownBops(e.Block) {
				return true
			}
		}
	}
	return false
}

func knownCond(c ast.Condition) bool {
	rv := func(v any) bool {
		switch v := v.(type) {
		case ast.Selector:
			for _, e := range v.Elements {
				if strings.HasPrefix(e.String(), "[\n") {
					return true
				}
			}
		case ast.ArrayAttribute:
			t := v.ValueString()
			if len(t) > 2 && t[0] == '[' {
				k := strings.IndexAny(t[1:], "[],")
				return k > 0 && t[1+k] == ']'
			}
		}
		return false
	}
	for _, e := range c.Expression {
		known := false
		switch e := e.(type) {
		case ast.ConditionExpression:
			known = knownCond(e.Condition)
		case ast.NegativeConditionExpression:
			known = knownCond(e.Condition)
		case ast.NegativeSelectorExpression:
			known = rv(e.Selector)
		case ast.InExpression:
			known = rv(e.LValue) || rv(e.RValue)
		case ast.NotInExpression:
			known = rv(e.LValue) || rv(e.RValue)
		case ast.RvalueExpression:
			known = rv(e.RValue)
		case ast.CompareExpression:
			known = rv(e.LValue) || rv(e.RValue)
		case ast.RegexpExpression:
			known = rv(e.LValue) || rv(e.RValue)
		}
		if known {
			return true
		}
	}
	return false
}

func farDump(fs []refFail) string {
	if len(fs) == 0 {
		return "no report"
	}
	var ms []string
	for _, f := range fs {
		ms = append(ms, f.msg)
	}
	sort.Strings(ms)
	return fmt.Sprintf("at %d: %q", fs[0].pos, ms)
}

var farRe = regexp.MustCompile(`^Parsing error at pos \d+:\d+ \[\d+\] and \[(\d+)\] \(after: `)

func farGot(s string, has bool) string {
	if !has {
		return "no report"
	}
	m := farRe.FindStringSubmatch(s)
	if m == nil {
		return "unreadable report: " + s
	}
	k := strings.LastIndex(s, "'):\n")
	if k < 0 {
		return "unreadable report: " + s
	}
	var ms []string
	for _, l := range strings.Split(strings.TrimSuffix(s[k+4:], "\n"), "\n") {
		ms = append(ms, strings.TrimPrefix(l, "-> "))
	}
	sort.Strings(ms)
	return fmt.Sprintf("at %s: %q", m[1], ms)
}

func warnDump(s string, ws []rwarn) string {
	var b strings.Builder
	for _, w := range ws {
		b.WriteString("warning " + posKey(s, w.pos.Line, w.pos.Col, w.pos.Off) + "\n")
	}
	return b.String()
}

// posKey names a place; the line and column of a line break itself are not compared.
func posKey(s string, l, c, off int) string {
	if off >= 0 && off < len(s) && s[off] == '\n' {
		return fmt.Sprintf("at byte %d", off)
	}
	return fmt.Sprintf("at byte %d (%d:%d)", off, l, c)
}

var posRe = regexp.MustCompile(`(\d+):(\d+) \[(\d+)\]`)

func gotWarnings(s string, ws []string) string {
	var b strings.Builder
	for _, w := range ws {
		m := posRe.FindStringSubmatch(w)
		if m == nil {
			b.WriteString("warning without position: " + w + "\n")
			continue
		}
		var l, c, o int
		fmt.Sscan(m[1], &l)
		fmt.Sscan(m[2], &c)
		fmt.Sscan(m[3], &o)
		b.WriteString("warning " + posKey(s, l, c, o) + "\n")
	}
	return b.String()
}

// accepted returns a text that the reference accepts.
func (c *ctx) accepted() (string, bool, bool) {
	ign, warn := c.optPair()
	for i := 0; i < 30; i++ {
		s := c.g.text()
		if !utf8.ValidString(s) {
			continue
		}
		if ref := refParse(c.gr, s, ign, warn); ref.ok {
			return s, ign, warn
		}
	}
	return "input { a { b => 1 } }", ign, warn
}

func (c *ctx) diffFail(s, key, what string, ck func(string) (string, string, bool)) {
	c.nontrivial(s)
	if _, _, ok := ck(s); !ok {
		s = shrink(s, func(t string) bool { _, _, ok := ck(t); return !ok }, 3000)
		w, g, _ := ck(s)
		c.fail(key, what, s, w, g)
	}
}

type slowReader struct {
	b []byte
	n int
}

func (r *slowReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	k := copy(p[:min(len(p), r.n)], r.b)
	r.b = r.b[k:]
	return k, nil
}

func (c *ctx) parseVia(entry int, s string, os_ ...config.Option) (o out) {
	defer func() {
		if e := recover(); e != nil {
			o.pan = e
		}
	}()
	switch entry {
	case 0:
		o.val, o.err = config.ParseReader("x.conf", &slowReader{[]byte(s), 1 + len(s)/3}, os_...)
	case 1:
		fn := filepath.Join(c.dir, "v.conf")
		os.WriteFile(fn, []byte(s), 0o600)
		o.val, o.err = config.ParseFile(fn, os_...)
	default:
		return parse(s, os_...)
	}
	o.conf, _ = o.val.(ast.Config)
	return
}

func full(s string, o out) string {
	var b strings.Builder
	if o.pan != nil {
		fmt.Fprintf(&b, "panic %v\n", o.pan)
	}
	if o.err != nil {
		fmt.Fprintf(&b, "error %s\n", o.err)
	}
	if o.val != nil {
		b.WriteString(dump(convConfig(o.conf), dumpOpt{pos: true, com: true, space: true}))
		fmt.Fprintf(&b, "%q\n", o.conf.Warnings)
	}
	fmt.Fprintf(&b, "%v %s", o.hasF, o.far)
	return b.String()
}

func checkC03(c *ctx) {
	r := c.g.r
	n := 2 + r.Intn(3)
	type job struct {
		s         string
		ign, warn bool
	}
	var jobs []job
	for i := 0; i < n; i++ {
		s := c.g.text()
		if r.one(3) {
			s = c.g.mutate(s)
		}
		ign, warn := c.optPair()
		jobs = append(jobs, job{s, ign, warn})
		if r.one(3) {
			jobs = append(jobs, job{s, !ign, !warn})
		}
	}
	first := make([]string, len(jobs))
	var hist strings.Builder
	type kept struct {
		o out
		s string
		f string
	}
	var held []kept
	for step := 0; step < 3*len(jobs); step++ {
		k := step
		if step >= len(jobs) {
			k = r.Intn(len(jobs))
		}
		j := jobs[k]
		if r.one(3) { // a parse with other options, which may be cut off or panic
			x := jobs[r.Intn(len(jobs))].s
			if r.one(2) {
				x = c.g.mutate(x)
			}
			os_ := opts(r.one(2), r.one(2))
			for n := r.Intn(3); n >= 0; n-- {
				switch r.Intn(7) {
				case 0:
					os_ = append(os_, config.MaxExpressions(uint64(1+r.Intn(400))))
				case 1:
					os_ = append(os_, config.Recover(false))
				case 2:
					os_ = append(os_, config.Memoize(true))
				case 3:
					os_ = append(os_, config.Statistics(&config.Stats{}, "no"))
				case 4:
					os_ = append(os_, config.AllowInvalidUTF8(true))
				case 5:
					os_ = append(os_, config.InitState("k", "v"))
				case 6:
					os_ = append(os_, config.GlobalStore("k", "v"))
				}
			}
			q := c.parseVia(r.Intn(3), x, os_...)
			fmt.Fprintf(&hist, "%d: with other options: %q\n", step, x)
			if q.err == nil && q.pan == nil && r.one(2) {
				scribble(&q.conf)
				fmt.Fprintf(&hist, "%d: its tree is changed by the caller\n", step)
			}
		}
		b := []byte(j.s)
		var o out
		if r.one(4) {
			o = c.parseVia(r.Intn(2), j.s, opts(j.ign, j.warn)...)
			if o.far, o.hasF = config.GetFarthestFailure(); false {
				continue
			}
			if o.err != nil {
				o.err = errors.New(strings.ReplaceAll(strings.ReplaceAll(o.err.Error(), filepath.Join(c.dir, "v.conf")+":", ""), "x.conf:", ""))
			}
		} else {
			o = parseB(b, opts(j.ign, j.warn)...)
		}
		fmt.Fprintf(&hist, "%d: ignore=%v warn=%v %q\n", step, j.ign, j.warn, j.s)
		if string(b) != j.s {
			c.fail("input-modified", "the caller's input was modified", hist.String(), j.s, string(b))
		}
		f := full(j.s, o)
		if o.err == nil && o.pan == nil && utf8.ValidString(j.s) {
			if ref := refParse(c.gr, j.s, j.ign, j.warn); ref.ok && len(ref.tree.Kids) > 0 {
				w, g := warnDump(j.s, ref.warnings), gotWarnings(j.s, o.conf.Warnings)
				if len(strings.Split(w, "\n")) < len(strings.Split(g, "\n")) {
					c.fail("trace-of-abandoned", "warnings contain traces of abandoned alternatives or earlier parses", hist.String(), w, g)
				}
			}
		}
		if r.one(2) && o.pan == nil {
			held = append(held, kept{o, j.s, f})
		}
		if first[k] == "" {
			first[k] = f
		} else if first[k] != f {
			c.fail("history", "the same text and options gave different results", hist.String(), first[k], f)
		}
	}
	for _, h := range held {
		if g := full(h.s, h.o); g != h.f {
			c.fail("later", "a result changed when other texts were parsed", hist.String(), h.f, g)
		}
	}
	c.nontrivial(hist.String())
}

// scribble changes a tree, as its owner may.
func scribble(c *ast.Config) {
	for i := range c.Warnings {
		c.Warnings[i] = "changed"
	}
	c.Warnings = append(c.Warnings, "added")
	for _, ps := range [][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for i := range ps {
			for k := range ps[i].CommentBlock {
				ps[i].CommentBlock[k] = ast.NewComment("changed", true)
			}
			for k := range ps[i].BranchOrPlugins {
				if p, ok := ps[i].BranchOrPlugins[k].(ast.Plugin); ok {
					for a := range p.Attributes {
						p.Attributes[a] = nil
					}
				}
				ps[i].BranchOrPlugins[k] = nil
			}
		}
	}
}

var _ = bytes.NewReader
