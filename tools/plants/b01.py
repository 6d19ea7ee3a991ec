id="c10-escape-runes"; property="C10"; pkg="ast/astutil"
_o=open("/repo/ast/astutil/escape.go").read()
i=_o.index("var escapeRe"); j=_o.index("// Escape converts")
k=_o.index("	return escapeRe.Replace")
edits=[("ast/astutil/escape.go", _o[i:j], "var escapeReplacements = map[rune]string{\n\t'\"': `\\\"`, '\\'': `\\'`, '\\\\': `\\\\`, '\\n': `\\n`, '\\r': `\\r`, '\\t': `\\t`,\n}\n\n"),
 ("ast/astutil/escape.go", _o[k:], "\tvar b strings.Builder\n\tfor _, r := range value {\n\t\tif s, ok := escapeReplacements[r]; ok {\n\t\t\tb.WriteString(s)\n\t\t\tcontinue\n\t\t}\n\t\tb.WriteRune(r)\n\t}\n\treturn b.String()\n}\n"),
 ("ast/astutil/escape.go", '\t"regexp"\n', '\t"regexp"\n\t"strings"\n')]
demo='''package astutil
import "testing"
func TestVerifDemo(t *testing.T) { s := "a\\xff\\n\\xc3"; if g := Unescape(Escape(s)); g != s { t.Fatalf("%q -> %q", s, g) } }
'''
needs="a value that is not valid UTF-8"; breaks="invalid bytes are replaced by U+FFFD, so unescaping does not give the value back"
