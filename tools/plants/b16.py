id="c07-array-nil-first"; property="C07"; pkg="ast"
edits=[("ast/ast.go","""	first := true
	for _, a := range aa.Value() {
		if a == nil {
			continue
		}
		if first {
			first = false
		} else {
			ss.WriteString(",\\n")
		}
""","""	for i, a := range aa.Value() {
		if a == nil {
			continue
		}
		if i > 0 {
			ss.WriteString(",\\n")
		}
""")]
demo='''package ast
import "testing"
func TestVerifDemo(t *testing.T) {
	a := NewArrayAttribute("x", nil, NewNumberAttribute("", 1))
	if s := a.ValueString(); s != "[\\n  1\\n]" && s[0:3] != "[\\n " { t.Fatalf("%q", s) }
	for _, c := range a.ValueString() { if c == ',' { t.Fatalf("%q", a.ValueString()) } }
}
'''
needs="an array whose first element is nil"; breaks="a separator is printed before the first element"
