id="c21-memoize-inverse"; property="C21"; pkg="."
edits=[("logstash_config.go","""		old := p.memoize
		p.memoize = b
		return Memoize(old)
""","""		p.memoize = b
		return Memoize(!b)
""")]
demo='''package config
import "testing"
func TestVerifDemo(t *testing.T) {
	p := newParser("", nil, Memoize(true))
	undo := Memoize(true)(p)
	undo(p)
	if !p.memoize { t.Fatal("setting not restored") }
}
'''
needs="applying the option with the value already in force and then the option it returned"; breaks="the returned option does not restore the setting"
