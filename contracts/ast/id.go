package ast

import (
	"errors"

	"github.com/breml/logstash-config/internal/vc"
)

// ---- a plugin's id

// vcspec_isID: a non-nil attribute named id.
func vcspec_isID(a Attribute) bool { return a != nil && a.Name() == "id" }

// vcspec_firstID is the index of the first id attribute from i on, or the length.
func vcspec_noID(as []Attribute, lo, hi int) bool {
	return vc.Forall(lo, hi, func(k int) bool { return !vcspec_isID(as[k]) })
}

func vchint_noID(as []Attribute, i int) bool { return vcspec_noID(as, 0, i) }

//vc:prop C15
//vc:target (ast.Plugin).ID
//vc:hints vchint_noID
func vccheck_ID(p Plugin) {
	id, err := p.ID()
	n := len(p.Attributes)
	vc.Ensures("absence is a not-found error", vc.Implies(vcspec_noID(p.Attributes, 0, n), err != nil && IsNotFoundError(err) && id == ""))
	vc.Ensures("the first id attribute decides", vc.Forall(0, n, func(k int) bool {
		if !vcspec_noID(p.Attributes, 0, k) || !vcspec_isID(p.Attributes[k]) {
			return true
		}
		sa, ok := p.Attributes[k].(StringAttribute)
		if ok {
			return err == nil && id == sa.Value()
		}
		return err != nil && !IsNotFoundError(err) && id == ""
	}))
}

//vc:prop C15
//vc:target ast.IsNotFoundError
func vccheck_IsNotFoundError(e error) {
	r := IsNotFoundError(e)
	var nf NotFounder
	vc.Ensures("the error or one it wraps is a not-found error", r == errors.As(e, &nf))
}

//vc:prop C15
//vc:target ast.NewNotFoundError
func vccheck_NewNotFoundError(err error) {
	r := NewNotFoundError(err)
	vc.Ensures("nil stays nil", (r == nil) == (err == nil))
	vc.Ensures("it is a not-found error", err == nil || IsNotFoundError(r))
	vc.Ensures("its text is the wrapped text with the prefix", err == nil || r.Error() == "not found: "+err.Error())
}

// For the callers in lint, the two results are named; which they are is what
// the contract above says.
func vcuf_id(p Plugin) string   { return "" }
func vcuf_idErr(p Plugin) error { return nil }

//vc:body (ast.Plugin).ID
func vcbody_ID(p Plugin) (string, error) { return vcuf_id(p), vcuf_idErr(p) }

// Vcspec_added: b is a with one string attribute more, everything else is kept.
func Vcspec_added(b, a Plugin, attr Attribute) bool {
	n := len(a.Attributes)
	return vc.Same(b.Start, a.Start) && b.name == a.name && vc.Same(b.Comment, a.Comment) && vc.Same(b.FooterComment, a.FooterComment) &&
		len(b.Attributes) == n+1 && vc.Same(b.Attributes[n], attr)
}
