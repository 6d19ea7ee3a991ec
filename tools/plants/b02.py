id="c20-expectation-substring"; property="C20"; pkg="."
edits=[("parse_error_helper.go","				if failure.msg == errorMsg {","				if strings.Contains(failure.msg, errorMsg) {")]
demo='''package config
import ("testing";"strings")
func TestVerifDemo(t *testing.T) {
	farthestFailure = nil
	c := &current{}
	c.pushError("expect closing bracket (])")
	c.pushError("expect closing bracket")
	s, ok := GetFarthestFailure()
	if !ok || strings.Count(s, "-> ") != 2 { t.Fatal(s) }
}
'''
needs="two expectations at the farthest position, the later one a part of the earlier"; breaks="a distinct expectation recorded at the farthest position is missing in the report"
