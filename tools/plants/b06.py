id="c11-bareword-multiline"; property="C11"; pkg="ast/astutil"
edits=[("ast/astutil/quote.go",'"(?s:^[A-Za-z_][A-Za-z0-9_]+$)"','"(?m:^[A-Za-z_][A-Za-z0-9_]+$)"')]
demo='''package astutil
import ("testing";"github.com/breml/logstash-config/ast")
func TestVerifDemo(t *testing.T) { if s, err := Quote("!\\nabc", ast.Bareword); err == nil { t.Fatalf("%q", s) } }
'''
needs="a value with a line break, one line of which is a bareword"; breaks="a value that is no bareword is returned as bareword without an error"
