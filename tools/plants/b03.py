id="c06-comment-trim-hash"; property="C06"; pkg="."
edits=[("logstash_config_helper.go",'		c = strings.Trim(c, " ")','		c = strings.Trim(c, " #")')]
demo='''package config
import ("testing";"github.com/breml/logstash-config/ast")
func TestVerifDemo(t *testing.T) {
	c, err := Parse("", []byte("## head #\\ninput { }\\n"))
	if err != nil { t.Fatal(err) }
	if g := c.(ast.Config).Input[0].CommentBlock.String(); g != "# # head #\\n" { t.Fatalf("%q", g) }
}
'''
needs="a comment whose text starts or ends with a number sign"; breaks="the text of a comment loses its outer number signs"
