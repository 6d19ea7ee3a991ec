package astutil

import (
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/vc"
)

// ---- the cursor: every edit acts on the current place and keeps the rest

// vcspec_at: the cursor stands on an entry.
func vcspec_at(c *Cursor) bool {
	return c != nil && 0 <= c.iter.index && c.iter.index < len(c.parent)
}

// vcspec_keepsBefore: the first n entries of a are those of b.
func vcspec_keepsBefore(a, b []ast.BranchOrPlugin, n int) bool {
	return vc.Forall(0, n, func(k int) bool { return vc.Same(a[k], b[k]) })
}

// vcspec_keepsRest: what follows entry i of a is what follows entry j of b.
func vcspec_keepsRest(a []ast.BranchOrPlugin, i int, b []ast.BranchOrPlugin, j int) bool {
	return len(a)-i == len(b)-j && vc.Forall(0, len(b)-j, func(k int) bool { return vc.Same(a[i+k], b[j+k]) })
}

//vc:prop C14 C13
//vc:target (*ast/astutil.Cursor).Delete
func vccheck_Delete(c *Cursor) {
	vc.Requires(vcspec_at(c))
	i, s, old := c.iter.index, c.iter.step, vc.CopySlice(c.parent)
	arr := vc.Arr(c.parent)
	c.Delete()
	vc.Ensures("only the list is changed", vc.OnlyChanged(&c.parent, &c.iter, arr))
	vc.Ensures("one entry less", len(c.parent) == len(old)-1)
	vc.Ensures("what was before is kept", vcspec_keepsBefore(c.parent, old, i))
	vc.Ensures("what was after is kept", vcspec_keepsRest(c.parent, i, old, i+1))
	vc.Ensures("the walk goes on with the same rest", c.iter.index == i && c.iter.step == s-1 && c.iter.index+c.iter.step+len(old) == i+s+len(c.parent))
}

//vc:prop C14 C13
//vc:target (*ast/astutil.Cursor).Replace
func vccheck_Replace(c *Cursor, p ast.BranchOrPlugin) {
	vc.Requires(vcspec_at(c))
	i, s, old := c.iter.index, c.iter.step, vc.CopySlice(c.parent)
	arr := vc.Arr(c.parent)
	c.Replace(p)
	vc.Ensures("only the list is changed", vc.OnlyChanged(arr))
	vc.Ensures("as many entries", len(c.parent) == len(old))
	vc.Ensures("the current entry is replaced", vc.Same(c.parent[i], p))
	vc.Ensures("what was before is kept", vcspec_keepsBefore(c.parent, old, i))
	vc.Ensures("what was after is kept", vcspec_keepsRest(c.parent, i+1, old, i+1))
	vc.Ensures("the walk goes on with the same rest", c.iter.index == i && c.iter.step == s)
}

//vc:prop C14 C13
//vc:target (*ast/astutil.Cursor).InsertBefore
func vccheck_InsertBefore(c *Cursor, p ast.BranchOrPlugin) {
	vc.Requires(vcspec_at(c))
	i, s, old := c.iter.index, c.iter.step, vc.CopySlice(c.parent)
	c.InsertBefore(p)
	vc.Ensures("the old list is not written to", vc.OnlyChanged(&c.parent, &c.iter))
	vc.Ensures("one entry more", len(c.parent) == len(old)+1)
	vc.Ensures("the entry stands before the current one", vc.Same(c.parent[i], p))
	vc.Ensures("what was before is kept, before it", vcspec_keepsBefore(c.parent, old, i))
	vc.Ensures("the current entry and what was after are kept", vcspec_keepsRest(c.parent, i+1, old, i))
	vc.Ensures("the current entry stays current, the walk goes on with the same rest", c.iter.index == i+1 && c.iter.step == s)
}

//vc:prop C14 C13
//vc:target (*ast/astutil.Cursor).InsertAfter
func vccheck_InsertAfter(c *Cursor, p ast.BranchOrPlugin) {
	vc.Requires(vcspec_at(c))
	i, s, old := c.iter.index, c.iter.step, vc.CopySlice(c.parent)
	c.InsertAfter(p)
	vc.Ensures("the old list is not written to", vc.OnlyChanged(&c.parent, &c.iter))
	vc.Ensures("one entry more", len(c.parent) == len(old)+1)
	vc.Ensures("the entry stands after the current one", vc.Same(c.parent[i+1], p))
	vc.Ensures("the current entry and what was before are kept", vcspec_keepsBefore(c.parent, old, i+1))
	vc.Ensures("what was after is kept, after it", vcspec_keepsRest(c.parent, i+2, old, i+1))
	vc.Ensures("the current entry stays current, the walk goes on behind the new one", c.iter.index == i && c.iter.step == s+1)
}

//vc:prop C13
//vc:target (*ast/astutil.Cursor).Plugin
func vccheck_Plugin(c *Cursor) {
	vc.Requires(vcspec_at(c))
	was, ok := c.parent[c.iter.index].(ast.Plugin)
	p := c.Plugin()
	vc.Ensures("nothing is changed", vc.OnlyChanged())
	vc.Ensures("nil exactly if the entry is not a plugin", (p != nil) == ok)
	vc.Ensures("a copy of the plugin in the list", !ok || vc.Same(*p, was))
}

//vc:prop C13
//vc:target (*ast/astutil.Cursor).Parent
func vccheck_Parent(c *Cursor) {
	vc.Requires(vcspec_at(c))
	p := c.Parent()
	vc.Ensures("nothing is changed", vc.OnlyChanged())
	vc.Ensures("the list", vc.Same(p, c.parent))
}

//vc:prop C13
//vc:target (*ast/astutil.Cursor).Index
func vccheck_Index(c *Cursor) {
	vc.Requires(vcspec_at(c))
	i := c.Index()
	vc.Ensures("nothing is changed", vc.OnlyChanged())
	vc.Ensures("the index in the list", i == c.iter.index)
}

// Vcspec_at: the cursor stands on an entry (for the contracts of callbacks).
func Vcspec_at(c *Cursor) bool { return vcspec_at(c) }

// Vcspec_list and Vcspec_index: where it stands.
func Vcspec_list(c *Cursor) []ast.BranchOrPlugin { return c.parent }
func Vcspec_index(c *Cursor) int                 { return c.iter.index }
