id="c12-unicode-letters"; property="C12"; pkg="ast/astutil"
edits=[("ast/astutil/quote.go","""		case r >= 'A' && r <= 'Z':
			return r
		case r >= 'a' && r <= 'z':
			return r
""","""		case unicode.IsLetter(r):
			return r
"""),("ast/astutil/quote.go",'	"strings"\n','	"strings"\n	"unicode"\n')]
demo='''package astutil
import ("testing";"github.com/breml/logstash-config/ast")
func TestVerifDemo(t *testing.T) { if s := QuoteWithEscape("na\\u00efve", ast.Bareword); s != "na_ve" { t.Fatalf("%q", s) } }
'''
needs="a value with a letter outside of ASCII"; breaks="letters a bareword must not contain are kept"
