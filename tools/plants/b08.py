id="c19-no-truncate"; property="C19"; pkg="internal/app/format"
edits=[("internal/app/format/format.go","f, err := os.Create(filename)","f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0o666)")]
demo='''package format
import ("testing";"os";"io";"path/filepath")
func TestVerifDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "a.conf")
	os.WriteFile(f, []byte("input    {          }\\n\\n\\n\\n\\n"), 0o600)
	if err := New(io.Discard, true).Run([]string{f}); err != nil { t.Fatal(err) }
	if b, _ := os.ReadFile(f); string(b) != "input {}\\n" { t.Fatalf("%q", b) }
}
'''
needs="a file longer than its printed form"; breaks="the end of the old content stays behind the printed text"
