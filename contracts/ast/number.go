package ast

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/breml/logstash-config/internal/vc"
)

// ---- printed numbers

// vcuf_isNumber: an optional minus sign, digits, and at most one decimal point
// followed by digits.
func vcuf_isNumber(s string) bool { return false }

// vcuf_finite, vcuf_whole: the value is finite, is a whole number.
func vcuf_finite(v float64) bool { return false }
func vcuf_whole(v float64) bool  { return false }

// vcspec_reads: reading the text yields exactly this value.
func vcspec_reads(s string, v float64) bool {
	f, err := strconv.ParseFloat(s, 64)
	return err == nil && f == v
}

// vcspec_denotes: the text is a number of the grammar, its value is v, and a
// whole number has no decimal point.
func vcspec_denotes(s string, v float64) bool {
	return vcuf_isNumber(s) && vcspec_reads(s, v) && vc.Implies(vcuf_whole(v), !strings.Contains(s, "."))
}

// vcspec_strconv is what is assumed of the standard library for a finite v: the
// shortest form %g denotes v unless it has an exponent; an integer prints its
// digits; ten decimals without the zeros at their end are digits, a point and
// digits, or end with the point (always so for a whole number); the shortest
// form without exponent denotes v.
func vcspec_strconv(v float64) bool {
	g, d := fmt.Sprintf("%g", v), fmt.Sprintf("%d", int64(v))
	t := strings.TrimRight(fmt.Sprintf("%.10f", v), "0")
	return (strings.Contains(g, "e") || vcspec_denotes(g, v)) &&
		vc.Implies(float64(int64(v)) == v, vcspec_denotes(d, v)) &&
		(strings.HasSuffix(t, ".") || vcuf_isNumber(t)) &&
		vc.Implies(vcuf_whole(v), strings.HasSuffix(t, ".")) &&
		vcspec_denotes(strconv.FormatFloat(v, 'f', -1, 64), v)
}

//vc:prop C08
//vc:target (ast.NumberAttribute).ValueString
func vccheck_NumberAttributeValueString(a NumberAttribute) {
	vc.Requires(vcuf_finite(a.value))
	vc.Assume(vcspec_strconv(a.value))
	r := a.ValueString()
	vc.Ensures("a number of the grammar", vcuf_isNumber(r))
	vc.Ensures("reading it yields the value stored", vcspec_reads(r, a.value))
	vc.Ensures("a whole number has no decimal point", vc.Implies(vcuf_whole(a.value), !strings.Contains(r, ".")))
}

//vc:prop C08
//vc:target ast.NewNumberAttribute
func vccheck_NewNumberAttribute(name string, v float64) {
	r := NewNumberAttribute(name, v)
	vc.Ensures("the value is stored", r.value == v || v != v)
	vc.Ensures("the name is stored", r.name == name)
}
