package main

// Input generation: random derivations of the reference grammar, mutations of them,
// and dictionaries taken from the source of the code under test.

import (
	"bufio"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"
)

type rng struct{ *rand.Rand }

func (r rng) one(n int) bool { return r.Intn(n) == 0 }
func pick[T any](r rng, xs []T) T { return xs[r.Intn(len(xs))] }

type dict struct {
	strs    []string // all string literals of the source
	newStrs []string // those not in the base list
	ints    []int
	newInts []int
}

func litKey(tok token.Token, lit string) string { return tok.String() + " " + lit }

func scanLits(repo string) map[string]int {
	out := map[string]int{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "testdata" || fi.Name() == "vcrt") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		var s scanner.Scanner
		fs := token.NewFileSet()
		s.Init(fs.AddFile("", -1, len(b)), b, nil, 0)
		// positions in the grammar table are numbers too; they are of no interest
		prev := ""
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			if tok == token.STRING || tok == token.CHAR || tok == token.INT || tok == token.FLOAT {
				if !(rel == "logstash_config.go" && tok == token.INT && (prev == ":")) {
					out[rel+" "+litKey(tok, lit)]++
				}
			}
			prev = tok.String()
		}
		return nil
	})
	return out
}

func loadDict(repo, base string) *dict {
	d := &dict{}
	known := map[string]int{}
	if f, err := os.Open(base); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			l := sc.Text()
			k := strings.IndexByte(l, ' ')
			n, _ := strconv.Atoi(l[:k])
			known[l[k+1:]] = n
		}
		f.Close()
	}
	for k, cnt := range scanLits(repo) {
		isNew := cnt > known[k]
		x := k[strings.IndexByte(k, ' ')+1:]
		t := x[:strings.IndexByte(x, ' ')]
		lit := x[strings.IndexByte(x, ' ')+1:]
		switch t {
		case "STRING", "CHAR":
			var s string
			if t == "CHAR" {
				r, _, _, err := strconv.UnquoteChar(lit[1:len(lit)-1], '\'')
				if err != nil {
					continue
				}
				s = string(r)
			} else {
				u, err := strconv.Unquote(lit)
				if err != nil {
					continue
				}
				s = u
			}
			if len(s) > 200 || s == "" {
				continue
			}
			d.strs = append(d.strs, s)
			if isNew {
				d.newStrs = append(d.newStrs, s)
			}
		case "INT":
			n, err := strconv.ParseInt(lit, 0, 64)
			if err != nil || n < 0 || n > 1<<40 {
				continue
			}
			d.ints = append(d.ints, int(n))
			if isNew {
				d.newInts = append(d.newInts, int(n))
			}
		}
	}
	sortStrings(d.strs)
	sortStrings(d.newStrs)
	sortInts(d.ints)
	sortInts(d.newInts)
	return d
}

// size returns a count, usually small, sometimes at a boundary named in the source.
func (g *gen) size(def int) int {
	if len(g.d.newInts) > 0 && g.r.one(6) {
		n := pick(g.r, g.d.newInts) + g.r.Intn(3) - 1
		if n >= 0 && n <= 40+def {
			return n
		}
		if n >= 0 && n <= 300 && g.r.one(20) {
			return n
		}
	}
	if def <= 0 {
		return 0
	}
	switch g.r.Intn(12) {
	case 0:
		return g.r.Intn(3*def + 1)
	case 1:
		return 0
	}
	return g.r.Intn(def + 1)
}

type gen struct {
	r      rng
	d      *dict
	g      *grammarRef
	budget int
	layout int // 0 sparse, 1 normal, 2 wild
	comp   int // one in comp layouts has a comment
	crlf   bool
	uni    bool
	wsFill bool
}

func newGen(seed int64, d *dict, g *grammarRef) *gen {
	return &gen{r: rng{rand.New(rand.NewSource(seed))}, d: d, g: g}
}

// ------------------------------------------------------------ strings

var words = []string{"id", "if", "else", "in", "not", "and", "or", "xor", "nand", "input", "filter", "output", "codec", "json", "grok", "mutate", "stdin", "stdout", "add_field", "ab", "x1", "_a", "A_9", "true", "0", "00", "-", "a-b", "9-", "__", "match", "value", "message"}

var pieces = []string{"a", "b", "é", "日本", "😀", " ", "  ", "\t", "\n", "\r\n", "\r", "\\", "\\\\", "\"", "'", "/", "\\\"", "\\'", "\\/", "\\n", "\\t", "#", "# x", "{", "}", "[", "]", "=>", ",", "(", ")", "!", "0", "_", "%{x}", "", "\x00", "\u2028", "\ufeff", "Z", "\n\n", "\n  ", "- ", "\\r", "$", "$1", "%s", "%d", "%!", "\u0130", "\ufffd"}

func (g *gen) str(valid bool) string {
	if len(g.d.newStrs) > 0 && g.r.one(4) {
		s := pick(g.r, g.d.newStrs)
		switch g.r.Intn(4) {
		case 0:
			return s
		case 1:
			return s + g.str0(valid)
		case 2:
			return g.str0(valid) + s
		}
		return g.str0(valid) + s + g.str0(valid)
	}
	return g.str0(valid)
}

func (g *gen) str0(valid bool) string {
	switch g.r.Intn(8) {
	case 0:
		return pick(g.r, words)
	case 1:
		if len(g.d.strs) > 0 {
			return pick(g.r, g.d.strs)
		}
	}
	n := g.size(4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch g.r.Intn(6) {
		case 0:
			b.WriteByte(byte(g.r.Intn(128)))
		case 1:
			if !valid {
				b.WriteByte(byte(g.r.Intn(256)))
			} else {
				b.WriteString(pick(g.r, words))
			}
		default:
			b.WriteString(pick(g.r, pieces))
		}
		if b.Len() > 2000 {
			break
		}
	}
	s := b.String()
	if valid && !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

// quotedBody returns a string that is the body of one token delimited by q.
func quotedBody(s string, q byte) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == q && (i == 0 || s[i-1] != '\\') {
			b.WriteByte('\\')
		}
		b.WriteByte(c)
	}
	t := b.String()
	if strings.HasSuffix(t, "\\") {
		t += "n"
	}
	return t
}

// ------------------------------------------------------------ derivations

func (g *gen) config() string {
	g.budget = 20 + g.r.Intn(150)
	if g.r.one(8) {
		g.budget = 600
	}
	g.layout = g.r.Intn(3)
	g.comp = []int{3, 8, 1000000}[g.r.Intn(3)]
	g.crlf = g.r.one(5)
	g.uni = g.r.one(3)
	var b strings.Builder
	g.derive(&b, "config", 0)
	s := b.String()
	if g.crlf {
		s = strings.ReplaceAll(s, "\r\n", "\n")
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func (g *gen) fragment(rule string) string {
	g.budget = 10 + g.r.Intn(60)
	g.layout = 1
	g.comp = 5
	var b strings.Builder
	g.derive(&b, rule, 0)
	return b.String()
}

func (g *gen) ws(b *strings.Builder, req bool) {
	g.budget--
	if req {
		if g.layout == 0 {
			b.WriteString(" ")
		} else {
			b.WriteString(pick(g.r, []string{" ", "\n", "\n  ", "  ", "\t", "\r\n", " \n", "\n\n"}))
		}
		return
	}
	switch {
	case g.layout == 0 && !g.r.one(6):
	case g.layout == 1 && !g.r.one(3):
		b.WriteString(" ")
	default:
		b.WriteString(pick(g.r, []string{"", " ", "\n", "\n  ", "  ", "\t", "\n\n"}))
	}
	if g.r.one(g.comp) {
		n := 1
		if g.r.one(3) {
			n = 1 + g.size(3)
		}
		for i := 0; i < n; i++ {
			t := strings.NewReplacer("\n", "", "\r", "").Replace(g.str(true))
			b.WriteString(pick(g.r, []string{"", " ", "\t", "\n"}) + "#" + pick(g.r, []string{"", " ", "  ", "#"}) + t + pick(g.r, []string{"", " ", "\r"}) + "\n")
			if g.r.one(4) {
				b.WriteString(pick(g.r, []string{"\n", "  ", "\n\n", "\t"}))
			}
		}
	}
}

func (g *gen) derive(b *strings.Builder, rule string, depth int) {
	r := g.r
	switch rule {
	case "_", "__":
		g.ws(b, false)
		return
	case "whitespace":
		g.ws(b, true)
		return
	case "EOF":
		return
	case "name":
		if r.one(5) {
			g.derive(b, "stringValue", depth)
			return
		}
		w := pick(r, words)
		if len(g.d.newStrs) > 0 && r.one(3) {
			if s := onlyName(pick(r, g.d.newStrs)); s != "" {
				w = s
			}
		} else if r.one(4) {
			w += pick(r, []string{"0", "_", "-", "x"})
		}
		if r.one(6) {
			w = strings.Repeat(pick(r, []string{"n", "A", "7", "_"}), 1+g.size(5))
		}
		b.WriteString(w)
		return
	case "bareword":
		w := pick(r, words)
		if len(g.d.newStrs) > 0 && r.one(3) {
			w = onlyName(pick(r, g.d.newStrs))
		}
		w = strings.ReplaceAll(w, "-", "_")
		w = strings.TrimLeft(w, "0123456789")
		for len(w) < 2 {
			w += "z"
		}
		b.WriteString(w)
		return
	case "doubleQuotedString":
		b.WriteString("\"" + quotedBody(g.str(true), '"') + "\"")
		return
	case "singleQuotedString":
		b.WriteString("'" + quotedBody(g.str(true), '\'') + "'")
		return
	case "regexp":
		b.WriteString("/" + quotedBody(g.str(true), '/') + "/")
		return
	case "number":
		b.WriteString(g.number())
		return
	case "selectorElement":
		s := strings.NewReplacer("[", "", "]", "", ",", "").Replace(g.str(true))
		if s == "" {
			s = "f"
		}
		b.WriteString("[" + s + "]")
		return
	}
	g.deriveX(b, g.g.rules[rule], depth+1)
}

func onlyName(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '_' || r == '-' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			return r
		}
		return -1
	}, s)
}

func (g *gen) number() string {
	r := g.r
	s := ""
	if r.one(4) {
		s = "-"
	}
	switch r.Intn(6) {
	case 0:
		if len(g.d.newInts) > 0 {
			return s + strconv.Itoa(pick(r, g.d.newInts))
		}
		return s + strconv.Itoa(r.Intn(100))
	case 1:
		return s + strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 10)
	case 2:
		return s + strconv.Itoa(r.Intn(1000)) + "." + strconv.Itoa(r.Intn(1000))
	case 3:
		return s + pick(r, []string{"0", "1.", "007", "0.0", "3.1415", "1.50", "0.1", "2000000.0000000005", "9007199254740993", "123456789012345678901234567890", "0.00000000000001"})
	case 4:
		return s + strconv.FormatFloat(float64(r.Int63())*1e-10, 'f', r.Intn(20), 64)
	}
	return s + strconv.Itoa(r.Intn(10))
}

func (g *gen) deriveX(b *strings.Builder, e *expr, depth int) {
	g.budget--
	r := g.r
	switch e.k {
	case xLit:
		b.WriteString(e.s)
	case xAny:
		b.WriteString(pick(r, []string{"a", "é", "\n", "\""}))
	case xClass:
		if len(e.rng) > 0 && !e.inv {
			k := r.Intn(len(e.rng)/2) * 2
			b.WriteRune(e.rng[k] + rune(r.Intn(int(e.rng[k+1]-e.rng[k])+1)))
		} else if len(e.runes) > 0 && !e.inv {
			b.WriteRune(pick(r, e.runes))
		} else {
			b.WriteString("q")
		}
	case xRef:
		g.derive(b, e.s, depth)
	case xSeq:
		for _, s := range e.subs {
			g.deriveX(b, s, depth)
		}
	case xAlt:
		var alts []*expr
		for _, s := range e.subs {
			if s.k == xPred {
				continue
			}
			alts = append(alts, s)
		}
		if g.budget <= 0 || depth > 120 {
			best := alts[0]
			for _, s := range alts {
				if s.minD < best.minD {
					best = s
				}
			}
			g.deriveX(b, best, depth)
			return
		}
		g.deriveX(b, pick(r, alts), depth)
	case xStar, xPlus, xOpt:
		n := 0
		if g.budget > 0 && depth < 120 {
			n = g.size(3)
			if e.k == xOpt {
				n = r.Intn(2)
			}
		}
		if e.k == xPlus && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			g.deriveX(b, e.subs[0], depth)
			if g.budget < -4000 {
				break
			}
		}
	case xLabel, xAction:
		g.deriveX(b, e.subs[0], depth)
	}
}

var tokens = []string{"input", "filter", "output", "if", "else", "else if", "in", "not in", "not ", "and", "or", "xor", "nand", "{", "}", "[", "]", "(", ")", "=>", ",", "==", "!=", "<=", ">=", "<", ">", "=~", "!~", "!", "\"", "'", "/", "#", "# c\n", "\n", "\r", "\t", " ", "\\", ".", "-", "1", "1.5", "ab", "a", "\"s\"", "'s'", "/r/", "[f]", "é", "_", "\xff", "\xc3", "\x00", "\ufffd", "input{", "ab{}", "id=>", "=", "&&", "\u00a0", "\v"}

// mutate changes a text in one or a few places.
func (g *gen) mutate(s string) string {
	r := g.r
	for n := 1 + r.Intn(2); n > 0; n-- {
		if s == "" {
			s = pick(r, tokens)
			continue
		}
		i := r.Intn(len(s) + 1)
		j := min(len(s), i+1+r.Intn(4))
		if r.one(6) {
			j = min(len(s), i+r.Intn(40))
		}
		switch r.Intn(7) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:i] + pick(r, tokens) + s[i:]
		case 2:
			s = s[:i] + pick(r, tokens) + s[j:]
		case 3:
			s = s[:i]
		case 4:
			s = s[:j] + s[i:]
		case 5:
			k := r.Intn(len(s))
			l := min(len(s), k+1+r.Intn(30))
			s = s[:i] + s[k:l] + s[i:]
		case 6:
			if len(g.d.newStrs) > 0 {
				s = s[:i] + pick(r, g.d.newStrs) + s[i:]
			} else if len(g.d.strs) > 0 && r.one(2) {
				s = s[:i] + pick(r, g.d.strs) + s[i:]
			} else {
				s = s[:i] + string(byte(r.Intn(256))) + s[i:]
			}
		}
		if len(s) > 20000 {
			s = s[:20000]
		}
	}
	return s
}

func (g *gen) soup() string {
	var b strings.Builder
	for n := g.r.Intn(25); n > 0; n-- {
		b.WriteString(pick(g.r, tokens))
		if g.r.one(2) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func (g *gen) text() string {
	switch g.r.Intn(10) {
	case 0:
		return g.soup()
	case 1, 2, 3:
		return g.mutate(g.config())
	case 4:
		return g.sandwich()
	}
	return g.config()
}

// sandwich puts a derivation of one rule into a minimal context, so that it is reached often.
func (g *gen) sandwich() string {
	ctx := []struct{ rule, pre, post string }{
		{"condition", "filter{if ", "{}}"},
		{"value", "input{a{b=>", "}}"},
		{"array", "input{a{b=>", "}}"},
		{"hash", "input{a{b=>", "}}"},
		{"branch", "output{", "}"},
		{"plugin", "output{", "}"},
		{"pluginSection", "", ""},
		{"expression", "filter{if ", "{}}"},
		{"_", "", "input{}"},
		{"_", "input{}", ""},
		{"_", "", ""},
		{"_", "input{", "}"},
		{"name", "input{", "{}}"},
		{"attribute", "input{x{", "}}"},
	}
	c := pick(g.r, ctx)
	t := c.pre + g.fragment(c.rule) + c.post
	if g.r.one(3) {
		t = g.mutate(t)
	}
	return t
}

// ddmin-like shrinking of a failing text.
func shrink(s string, bad func(string) bool, budget int) string {
	for n := max(1, len(s)/2); n >= 1; n /= 2 {
		for i := 0; i+n <= len(s) && budget > 0; {
			t := s[:i] + s[i+n:]
			budget--
			if bad(t) {
				s = t
			} else {
				i += n
			}
		}
	}
	return s
}
