id="c17-filter-index"; property="C17"; pkg="internal/app/lint"
edits=[("internal/app/lint/lint.go","astutil.ApplyPlugins(conf.Filter[i].BranchOrPlugins, v.walk)","astutil.ApplyPlugins(conf.Filter[i-i].BranchOrPlugins, v.walk)")]
demo='''package lint
import ("testing";"os";"path/filepath")
func TestVerifDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "a.conf")
	os.WriteFile(f, []byte("filter { }\\nfilter { mutate { } }\\n"), 0o600)
	if err := New(false).Run([]string{f}); err == nil { t.Fatal("missing id not reported") }
}
'''
needs="more than one filter section in a file"; breaks="plugins of later filter sections are not examined"
