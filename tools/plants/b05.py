id="c15-id-later-attribute"; property="C15"; pkg="ast"
edits=[("ast/ast.go","""				return "", errors.New("attribut id is not of type string attribute")
			}
		}
	}
	return "", NotFound""","""				err = errors.New("attribut id is not of type string attribute")
			}
		}
	}
	if err != nil {
		return "", err
	}
	return "", NotFound"""),("ast/ast.go","func (p Plugin) ID() (string, error) {\n","func (p Plugin) ID() (string, error) {\n\tvar err error\n")]
demo='''package ast
import "testing"
func TestVerifDemo(t *testing.T) {
	p := NewPlugin("x", NewNumberAttribute("id", 1), NewStringAttribute("id", "a", DoubleQuoted))
	if id, err := p.ID(); err == nil { t.Fatal(id) }
}
'''
needs="two id attributes, the first of which is not a string"; breaks="the value of a later id attribute is returned, where an error is due for the first one"
