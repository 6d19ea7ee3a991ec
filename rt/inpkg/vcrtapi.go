package config

// VcrtSession is a parser under inspection.
type VcrtSession interface {
	Apply(Option) Option
	Snapshot() map[string]string
}

// VcrtOptions is nil if the helper does not fit the code.
var VcrtOptions func(...Option) VcrtSession

// VcrtNode is a node of the grammar table.
type VcrtNode struct {
	Kind, Name    string
	IC, Inv       bool
	Runes, Ranges []rune
	Classes       int
	Fn            string
	Subs          []*VcrtNode
}

// VcrtRule is a rule of the grammar table.
type VcrtRule struct {
	Name string
	Expr *VcrtNode
}

// VcrtTable is nil if the helper does not fit the code.
var VcrtTable func() ([]VcrtRule, []string)
