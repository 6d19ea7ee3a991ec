package main

// The commands: C16 to C19. Everything happens inside a scratch directory.

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/app/check"
	"github.com/breml/logstash-config/internal/app/format"
	"github.com/breml/logstash-config/internal/app/lint"
)

type cliFile struct {
	path    string
	kind    string // good, bad, dir, missing, socket, loop
	content string
}

type cliCase struct {
	c     *ctx
	dir   string
	files []cliFile
	desc  string
	asBin bool
}

func (cc *cliCase) add(content string, kind string) cliFile {
	r := cc.c.g.r
	base := pick(r, []string{"f", "a b", "conf.d", "x%s", "é"}) + fmt.Sprint(len(cc.files)) + pick(r, []string{".conf", "", ".txt"})
	p := filepath.Join(cc.dir, base)
	f := cliFile{p, kind, content}
	switch kind {
	case "good", "bad":
		os.WriteFile(p, []byte(content), 0o644)
	case "dir":
		os.Mkdir(p, 0o755)
		if r.one(2) {
			os.WriteFile(filepath.Join(p, "inner.conf"), []byte("input {"), 0o644)
		}
	case "missing":
		if r.one(3) {
			os.Symlink(filepath.Join(cc.dir, "nowhere"), p)
		}
		if r.one(4) && len(cc.files) > 0 {
			f.path = filepath.Join(cc.files[0].path, "below")
		}
	case "loop":
		os.Symlink(p, p)
	case "socket":
		// a socket exists but can not be opened
		if l, err := net.ListenUnix("unix", &net.UnixAddr{Name: base, Net: "unix"}); err == nil {
			l.SetUnlinkOnClose(false)
			l.Close()
			f.path = base // relative to the scratch directory, which is the working directory
			if r.one(2) {
				f.path = filepath.Join(cc.dir, base)
			}
		} else {
			f.kind = "missing"
		}
	}
	cc.files = append(cc.files, f)
	cc.desc += fmt.Sprintf("%s: %s\n", filepath.Base(f.path), kind)
	if kind == "good" || kind == "bad" {
		cc.desc += fmt.Sprintf("  %q\n", content)
	}
	return f
}

// cliText returns a text that is often accepted; for lint, with ids here and there.
func (c *ctx) cliText() string {
	r := c.g.r
	switch r.Intn(8) {
	case 0:
		return c.g.text()
	case 1:
		s, _, ok := c.accepted()
		if ok {
			return s
		}
	case 2:
		return pick(r, []string{"", "\n", "# only a comment\n", "input {", "input {}", "x"})
	}
	return c.lintText()
}

var idPool = []string{"a", "b", "stdin-1", "grok-2", "mutate-1", "mutate-2", "mutate-3", "", "x y"}

// lintText is a configuration of plugins with and without ids.
func (c *ctx) lintText() string {
	r := c.g.r
	var b strings.Builder
	depth := 0
	var block func()
	plugin := func() {
		name := pick(r, []string{"mutate", "grok", "stdin", "\"mutate\"", "'gr ok'", "m-1", "mutate-1", "'a\"b'", "\"it's\""})
		if len(c.d.newStrs) > 0 && r.one(4) {
			if s := onlyName(pick(r, c.d.newStrs)); s != "" {
				name = s
			}
		}
		b.WriteString(name + " {")
		if r.one(8) {
			b.WriteString(" # comment\n")
		}
		n := r.Intn(3)
		if r.one(12) {
			n = c.g.size(3)
		}
		for i := 0; i < n; i++ {
			b.WriteString(" " + pick(r, []string{"match => 1", "codec => json { id => \"inner\" }", "add_field => { id => \"k\" }", "ID => \"n\"", "x => [1,2]", "y => 'z'", "codec => json {}"}))
			if r.one(6) {
				b.WriteString(" # c\n")
			}
		}
		if r.one(2) {
			v := "\"" + pick(r, idPool) + fmt.Sprint(r.Intn(4)) + "\""
			switch r.Intn(9) {
			case 0:
				v = fmt.Sprint(r.Intn(3))
			case 1:
				v = "[ \"a\" ]"
			case 2:
				v = "'" + pick(r, idPool) + "'"
			case 3:
				v = "\"" + pick(r, idPool) + "\""
			case 4:
				v = "bareid"
			case 5:
				v = "\"" + pick(r, []string{"mutate", "grok", "stdin", "m-1", "mutate-1"}) + "-" + fmt.Sprint(r.Intn(8)) + "\""
			}
			b.WriteString(" id => " + v)
			if r.one(8) {
				b.WriteString(" id => \"second\"")
			}
		}
		b.WriteString(" }\n")
	}
	block = func() {
		depth++
		n := c.g.size(3)
		if depth > 4 {
			n = 1
		}
		for i := 0; i < n && b.Len() < 4000; i++ {
			if r.one(4) && depth < 5 {
				b.WriteString("if [f] {\n")
				block()
				b.WriteString("}")
				for r.one(3) {
					if r.one(6) {
						b.WriteString(" # branch comment\n")
					}
					b.WriteString(" else if [g] == 1 {\n")
					block()
					b.WriteString("}")
				}
				if r.one(2) {
					b.WriteString(" else {\n")
					block()
					b.WriteString("}")
				}
				b.WriteString("\n")
			} else {
				plugin()
			}
		}
		depth--
	}
	for n := 1 + c.g.size(2); n > 0; n-- {
		b.WriteString(pick(r, []string{"input", "filter", "output"}))
		if r.one(12) {
			b.WriteString(" # odd place\n")
		}
		b.WriteString(" {\n")
		block()
		b.WriteString("}\n")
	}
	s := b.String()
	if r.one(10) {
		s = c.g.mutate(s)
	}
	return s
}

func (c *ctx) cliCase(goodBias int) *cliCase {
	dir := filepath.Join(c.dir, "w")
	os.RemoveAll(dir)
	os.Mkdir(dir, 0o755)
	os.Chdir(dir)
	cc := &cliCase{c: c, dir: dir}
	n := c.g.size(3)
	if n > 8 {
		n = 8
	}
	if c.g.r.one(4) {
		n = 1
	}
	for i := 0; i < n; i++ {
		switch c.g.r.Intn(10 + goodBias) {
		case 0:
			cc.add("", "dir")
		case 1:
			cc.add("", "missing")
		case 2:
			if c.g.r.one(2) {
				cc.add("", "socket")
			} else {
				cc.add("", "loop")
			}
		case 3:
			if len(cc.files) > 0 {
				// the same path again
				f := pick(c.g.r, cc.files)
				cc.files = append(cc.files, f)
				cc.desc += filepath.Base(f.path) + " again\n"
			}
		case 4:
			cc.add(pick(c.g.r, []string{"input {", "filter { a { b => } }", "x"}), "bad")
		default:
			t := c.cliText()
			k := "good"
			if config_err(t) != nil {
				k = "bad"
			}
			cc.add(t, k)
		}
	}
	return cc
}

func config_err(s string, os ...config.Option) error {
	o := parse(s, os...)
	if o.pan != nil {
		return fmt.Errorf("panic %v", o.pan)
	}
	return o.err
}

func (cc *cliCase) args() []string {
	var as []string
	for _, f := range cc.files {
		as = append(as, f.path)
	}
	return as
}

// snapshot lists all files below the scratch directory with their contents.
func (cc *cliCase) snapshot() map[string]string {
	m := map[string]string{}
	filepath.Walk(cc.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(cc.dir, p)
		v := fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			v += "\n" + string(b)
			if st, ok := fi.Sys().(*syscall.Stat_t); ok {
				v += fmt.Sprintf("\n%d", st.Ino)
			}
		}
		m[rel] = v
		return nil
	})
	return m
}

func snapDiff(a, b map[string]string) string {
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("%s changed from %q to %q", k, v, b[k])
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k + " appeared"
		}
	}
	return ""
}

// entries splits the text of a report into its entries.
func entries(s string) ([]string, bool) {
	ls := strings.Split(strings.TrimRight(s, "\n"), "\n")
	var n int
	var w string
	if k, _ := fmt.Sscanf(ls[0], "%d %s occurred:", &n, &w); k != 2 {
		return nil, false
	}
	var es []string
	for _, l := range ls[1:] {
		switch {
		case strings.HasPrefix(l, "\t* "):
			es = append(es, l[3:])
		case strings.HasPrefix(l, "\t  ") && len(es) > 0:
			es[len(es)-1] += "\n" + l[3:]
		case l == "" && len(es) > 0:
		default:
			return nil, false
		}
	}
	if len(es) != n {
		return nil, false
	}
	return es, true
}

type cliRun struct {
	out, err string
	code     int
	viaBin   bool
	pan      string
}

func (cc *cliCase) bin(args ...string) (r cliRun) {
	cmd := exec.Command(cc.c.bin, args...)
	cmd.Dir = cc.dir
	cmd.Env = []string{"HOME=" + cc.c.dir, "XDG_CONFIG_HOME=" + cc.c.dir, "PATH=/usr/bin:/bin"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	t := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	r.viaBin = true
	r.out, r.err = o.String(), e.String()
	if ee, ok := err.(*exec.ExitError); ok {
		r.code = ee.ExitCode()
	} else if err != nil {
		r.code = -1
		r.err += err.Error()
	}
	if strings.Contains(r.err, "goroutine ") || r.code < 0 || r.code == 2 {
		r.pan = clip(r.err, 2000)
	}
	return
}

func (cc *cliCase) run(cmd string, flag bool) (r cliRun) {
	if cc.c.bin != "" && cc.c.g.r.one(12) {
		args := []string{cmd}
		if flag {
			args = append(args, map[string][]string{"format": {"-w", "--write-to-source"}, "lint": {"--auto-fix-id", "--auto-fix-id=true"}}[cmd][cc.c.g.r.Intn(2)])
		}
		if cc.c.g.r.one(3) {
			return cc.bin(append(append([]string{cmd}, append(cc.args(), args[1:]...)...))...)
		}
		return cc.bin(append(args, cc.args()...)...)
	}
	var o bytes.Buffer
	var err error
	so, se := os.Stdout, os.Stderr
	_, r.pan = protect(func() string {
		switch cmd {
		case "check":
			err = check.New().Run(cc.args())
		case "lint":
			err = lint.New(flag).Run(cc.args())
		case "format":
			err = format.New(&o, flag).Run(cc.args())
		}
		if err != nil {
			r.err = "error: " + err.Error()
			r.code = 1
		}
		return ""
	})
	os.Stdout, os.Stderr = so, se
	r.out = o.String()
	return
}

// wantErr is the error of reading or parsing a file, with the farthest failure, or nil.
func wantErr(f cliFile, os_ ...config.Option) (want []string, skip bool) {
	st, err := os.Stat(f.path)
	if err != nil {
		return []string{err.Error()}, false
	}
	if st.IsDir() {
		return nil, true
	}
	_, err = config.ParseFile(f.path, os_...)
	if err == nil {
		return nil, false
	}
	want = []string{err.Error()}
	if _, ok := err.(*os.PathError); !ok {
		if m, ok := config.GetFarthestFailure(); ok {
			want = append(want, strings.TrimRight(m, "\n"))
		}
	}
	return want, false
}

// norm makes texts comparable that went through the report.
func norm(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

func init() {
	props["C16"] = func(c *ctx) {
		cc := c.cliCase(0)
		before := cc.snapshot()
		var want [][]string
		var who []string
		for _, f := range cc.files {
			w, _ := wantErr(f, config.IgnoreComments(true))
			if w != nil {
				want = append(want, w)
				who = append(who, f.path)
			}
		}
		r := cc.run("check", false)
		c.nontrivial(cc.desc)
		cc.report(r, want, who)
		if d := snapDiff(before, cc.snapshot()); d != "" {
			c.fail("modified", "check modifies a file", cc.desc, "", d)
		}
	}
	props["C17"] = func(c *ctx) {
		cc := c.cliCase(8)
		before := cc.snapshot()
		var want [][]string
		var who []string
		for _, f := range cc.files {
			w, skip := wantErr(f, config.ExceptionalCommentsWarning(true))
			if w != nil {
				want = append(want, w)
				who = append(who, f.path)
				continue
			}
			if skip {
				continue
			}
			want, who = lintWant(f, want, who)
		}
		r := cc.run("lint", false)
		c.nontrivial(cc.desc)
		cc.report(r, want, who)
		if d := snapDiff(before, cc.snapshot()); d != "" {
			c.fail("modified", "lint without auto-fix modifies a file", cc.desc, "", d)
		}
	}
	props["C18"] = checkC18
	props["C19"] = checkC19
}

// lintWant appends the entries expected for a file that parses. The warnings
// are those of the reference parser.
func lintWant(f cliFile, want [][]string, who []string) ([][]string, []string) {
	b, _ := os.ReadFile(f.path)
	o := parseB(b, config.ExceptionalCommentsWarning(true))
	for _, w := range o.conf.Warnings {
		want = append(want, []string{w})
		who = append(who, "")
	}
	var no, dup []string
	seen := map[string]bool{}
	walkPlugins(o.conf, func(p ast.Plugin) {
		line := fmt.Sprintf("%s: %s", p.Pos(), p.Name())
		id, has, ok := firstID(p)
		switch {
		case !has || !ok:
			no = append(no, line)
		case seen[id]:
			dup = append(dup, line)
		}
		if has && ok {
			seen[id] = true
		}
	})
	if len(no) > 0 {
		want = append(want, append([]string{"no IDs"}, no...))
		who = append(who, f.path)
	}
	if len(dup) > 0 {
		want = append(want, append([]string{"duplicate IDs"}, dup...))
		who = append(who, f.path)
	}
	return want, who
}

func firstID(p ast.Plugin) (id string, has, ok bool) {
	for _, a := range p.Attributes {
		if a != nil && a.Name() == "id" {
			s, ok := a.(ast.StringAttribute)
			return s.Value(), true, ok
		}
	}
	return "", false, false
}

// walkPlugins visits the plugins in the order input, filter, output.
func walkPlugins(c ast.Config, f func(ast.Plugin)) {
	var list func(bs []ast.BranchOrPlugin)
	list = func(bs []ast.BranchOrPlugin) {
		for _, b := range bs {
			switch x := b.(type) {
			case ast.Plugin:
				f(x)
			case ast.Branch:
				list(x.IfBlock.Block)
				for _, e := range x.ElseIfBlock {
					list(e.Block)
				}
				list(x.ElseBlock.Block)
			}
		}
	}
	for _, ss := range [][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for _, s := range ss {
			list(s.BranchOrPlugins)
		}
	}
}

// failures are the farthest failures of the files, as texts.
func (cc *cliCase) failures() (ms []string) {
	for _, f := range cc.files {
		if f.kind != "good" && f.kind != "bad" {
			continue
		}
		config.ParseFile(f.path)
		if m, ok := config.GetFarthestFailure(); ok && norm(m) != "" {
			ms = append(ms, norm(m))
		}
	}
	return ms
}

// report checks the report of check or lint against the expected entries.
func (cc *cliCase) report(r cliRun, want [][]string, who []string) {
	c := cc.c
	if r.pan != "" {
		c.fail("crash", "the command crashes", cc.desc, "", r.pan)
	}
	show := ""
	for i, w := range want {
		show += fmt.Sprintf("entry for %s: %q\n", filepath.Base(who[i]), w)
	}
	if r.out != "" {
		c.fail("stdout", "the command writes to standard output", cc.desc, "", r.out)
	}
	if len(want) == 0 {
		if r.code != 0 || r.err != "" {
			c.fail("verdict", "the command fails although there is nothing to report", cc.desc, "success", fmt.Sprintf("exit status %d, %s", r.code, r.err))
		}
		return
	}
	if r.code != 1 {
		c.fail("verdict", "the command does not fail although there is something to report", cc.desc, show, fmt.Sprintf("exit status %d, %s", r.code, r.err))
	}
	es, ok := entries(strings.TrimPrefix(r.err, "error: "))
	if !ok || len(es) != len(want) {
		c.fail("entries", "the report does not have one entry for each problem", cc.desc, show, r.err)
	}
	failures := cc.failures()
	for i, w := range want {
		e := es[i]
		if strings.Contains(e, "%!") && !strings.Contains(who[i]+" "+strings.Join(w, " "), "%!") {
			c.fail("entries", "an entry is not formatted as it should be", cc.desc, show, r.err)
		}
		for _, m := range failures {
			if who[i] != "" && strings.Contains(norm(e), m) && !strings.Contains(norm(who[i]+" "+strings.Join(w, " ")), m) {
				c.fail("entries", "an entry states the failure of another file", cc.desc, show, r.err)
			}
		}
		if who[i] != "" && !strings.HasPrefix(e, who[i]+": ") {
			c.fail("entries", "an entry does not name its path", cc.desc, show, r.err)
		}
		for k, x := range w {
			if !strings.Contains(norm(e), norm(x)) {
				c.fail("entries", "an entry does not state the reason", cc.desc, show, r.err)
			}
			if k > 0 && (w[0] == "no IDs" || w[0] == "duplicate IDs") {
				ls := strings.Split(e, "\n")
				// names may contain line breaks
				if !strings.Contains(w[k], "\n") && !strings.Contains(strings.Join(w, ""), "\n") && (k >= len(ls) || ls[k] != w[k] || len(ls) != len(w)) {
					c.fail("entries", "the plugins listed are not those to report, in order", cc.desc, show, r.err)
				}
			}
		}
		if who[i] == "" && norm(e) != norm(w[0]) {
			c.fail("entries", "a warning is not reported as it is", cc.desc, show, r.err)
		}
	}
}

func checkC18(c *ctx) {
	cc := c.cliCase(12)
	before := cc.snapshot()
	type exp struct {
		f    cliFile
		conf ast.Config
		need bool
		ok   bool
	}
	var exps []exp
	seen := map[string]bool{}
	for _, f := range cc.files {
		if f.kind != "good" && f.kind != "bad" || seen[f.path] {
			continue
		}
		seen[f.path] = true
		b, _ := os.ReadFile(f.path)
		o := parseB(b)
		e := exp{f: f, conf: o.conf, ok: o.err == nil && o.pan == nil}
		if e.ok {
			walkPlugins(o.conf, func(p ast.Plugin) {
				if _, has, _ := firstID(p); !has {
					e.need = true
				}
			})
		}
		exps = append(exps, e)
	}
	r := cc.run("lint", true)
	c.nontrivial(cc.desc)
	if r.pan != "" {
		c.fail("crash", "lint crashes", cc.desc, "", r.pan)
	}
	after := cc.snapshot()
	for _, e := range exps {
		rel, _ := filepath.Rel(cc.dir, e.f.path)
		if !e.need {
			if before[rel] != after[rel] {
				c.fail("modified", "a file that needs no change, or does not parse, is changed", cc.desc, before[rel], after[rel])
			}
			continue
		}
		b, _ := os.ReadFile(e.f.path)
		if knownC09(e.conf) {
			continue
		}
		o := parseB(b)
		if o.err != nil || o.pan != nil {
			c.fail("fixed", "the rewritten file does not parse", cc.desc, fmt.Sprintf("%q", e.f.content), fmt.Sprintf("%s\n%v", b, o.err))
		}
		// ids: those of the original, and new ones
		var old, now []ast.Plugin
		walkPlugins(e.conf, func(p ast.Plugin) { old = append(old, p) })
		walkPlugins(o.conf, func(p ast.Plugin) { now = append(now, p) })
		if len(old) != len(now) {
			c.fail("fixed", "the rewritten file has other plugins", cc.desc, e.f.content, string(b))
		}
		cnt := map[string]int{}
		for _, p := range now {
			if id, _, ok := firstID(p); ok {
				cnt[id]++
			}
		}
		for i, p := range now {
			id, has, ok := firstID(p)
			oid, ohas, ook := firstID(old[i])
			n, on := 0, 0
			for _, a := range p.Attributes {
				if a.Name() == "id" {
					n++
				}
			}
			for _, a := range old[i].Attributes {
				if a.Name() == "id" {
					on++
				}
			}
			switch {
			case ohas:
				if !has || id != oid || ok != ook || n != on {
					c.fail("fixed", "an id that was there is not kept", cc.desc, e.f.content, string(b))
				}
			case !has || !ok || n != 1:
				c.fail("fixed", "a plugin has not exactly one id of type string", cc.desc, e.f.content, string(b))
			case cnt[id] != 1:
				c.fail("fixed", "a generated id is not unique", cc.desc, e.f.content, string(b))
			}
		}
		// apart from the ids the same tree
		do := dumpOpt{com: true}
		w := dump(withoutNewIDs(convConfig(e.conf), nil), do)
		g := dump(withoutNewIDs(convConfig(o.conf), convConfig(e.conf)), do)
		if w != g {
			c.fail("fixed", "the rewritten file differs in more than the added ids", cc.desc, w, g+"\n"+string(b))
		}
	}
	for k, v := range before {
		if after[k] != v {
			known := false
			for _, e := range exps {
				rel, _ := filepath.Rel(cc.dir, e.f.path)
				known = known || rel == k
			}
			if !known {
				c.fail("modified", "lint changes something else", cc.desc, k+" "+v, after[k])
			}
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok {
			c.fail("modified", "lint creates a file", cc.desc, "", k)
		}
	}
	// again: nothing changes
	for _, e := range exps {
		if knownC09(e.conf) {
			return
		}
	}
	r = cc.run("lint", true)
	if r.pan != "" {
		c.fail("crash", "lint crashes", cc.desc, "", r.pan)
	}
	if d := snapDiff(after, cc.snapshot()); d != "" {
		c.fail("modified", "running lint with auto-fix again changes a file", cc.desc, "", d)
	}
}

// withoutNewIDs removes the id attributes of those plugins of sections and blocks that
// have none in the original tree.
func withoutNewIDs(n, orig *Node) *Node {
	if orig == nil {
		return n
	}
	var walk func(n, o *Node) *Node
	walk = func(n, o *Node) *Node {
		c := clone(n)
		c.Kids = nil
		if n.Kind == "plugin" && o.Kind == "plugin" && n.Text == o.Text {
			had := false
			for _, k := range o.Kids {
				had = had || k.Text2 == "id"
			}
			for _, k := range n.Kids {
				if !had && k.Text2 == "id" {
					continue
				}
				c.Kids = append(c.Kids, k)
			}
			return c
		}
		for i, k := range n.Kids {
			if i < len(o.Kids) && k != nil && o.Kids[i] != nil {
				k = walk(k, o.Kids[i])
			}
			c.Kids = append(c.Kids, k)
		}
		return c
	}
	return walk(n, orig)
}

func checkC19(c *ctx) {
	cc := c.cliCase(12)
	w := c.g.r.one(2)
	before := cc.snapshot()
	wantOut := ""
	files := map[string]string{} // expected contents
	bad := -1
	var reason []string
	for i, f := range cc.files {
		cur, changed := files[f.path]
		var o out
		if changed {
			o = parse(cur)
			if o.err != nil {
				return // the printed form of a text with a known finding
			}
		} else {
			e, skip := wantErr(f)
			if skip {
				continue
			}
			if e != nil {
				bad, reason = i, e
				break
			}
			b, _ := os.ReadFile(f.path)
			o = parseB(b)
		}
		s, pan := protect(o.conf.String)
		if pan != "" {
			c.fail("crash", "printing crashes", cc.desc, "", pan)
		}
		if w {
			files[f.path] = s
		} else {
			wantOut += s
		}
	}
	r := cc.run("format", w)
	c.nontrivial(cc.desc)
	if r.pan != "" {
		c.fail("crash", "format crashes", cc.desc, "", r.pan)
	}
	if r.out != wantOut {
		c.fail("output", "format does not print exactly the printed trees", cc.desc, wantOut, r.out)
	}
	if bad < 0 {
		if r.code != 0 || r.err != "" {
			c.fail("verdict", "format fails although all files parse", cc.desc, "success", r.err)
		}
	} else {
		if r.code != 1 {
			c.fail("verdict", "format does not fail at a bad file", cc.desc, fmt.Sprint(reason), r.err)
		}
		if !strings.HasPrefix(r.err, "error: "+cc.files[bad].path+": ") {
			c.fail("verdict", "the error does not name the bad file", cc.desc, cc.files[bad].path, r.err)
		}
		for _, x := range reason {
			if utf8.ValidString(x) && !strings.Contains(norm(r.err), norm(x)) {
				c.fail("verdict", "the error does not state the reason", cc.desc, x, r.err)
			}
		}
		for _, m := range cc.failures() {
			if strings.Contains(norm(r.err), m) && !strings.Contains(norm(cc.files[bad].path+" "+strings.Join(reason, " ")), m) {
				c.fail("verdict", "the error states the failure of another file", cc.desc, fmt.Sprint(reason), r.err)
			}
		}
	}
	after := cc.snapshot()
	for k, v := range before {
		want := v
		if s, ok := files[filepath.Join(cc.dir, k)]; ok {
			// mode, contents, inode
			ls := strings.SplitN(v, "\n", 2)
			want = ls[0] + "\n" + s + v[strings.LastIndexByte(v, '\n'):]
			// replacing the file by another one with the same name is fine
			if a := after[k]; strings.HasPrefix(a, ls[0]+"\n"+s+"\n") {
				continue
			}
		}
		if after[k] != want {
			c.fail("files", "a file does not have the expected contents", cc.desc, k+": "+want, after[k])
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok {
			c.fail("files", "format creates a file", cc.desc, "", k)
		}
	}
}
