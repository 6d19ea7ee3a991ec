id="c16-dir-stops"; property="C16"; pkg="internal/app/check"
edits=[("internal/app/check/check.go","""		if stat.IsDir() {
			continue
		}
""","""		if stat.IsDir() {
			break
		}
""")]
demo='''package check
import ("testing";"os";"path/filepath")
func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	f := filepath.Join(d, "a.conf")
	os.WriteFile(f, []byte("input {"), 0o600)
	if err := New().Run([]string{d, f}); err == nil { t.Fatal("no error") }
}
'''
needs="a directory before a bad file in the arguments"; breaks="files after a directory are not checked"
