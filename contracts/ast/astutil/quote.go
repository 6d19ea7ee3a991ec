package astutil

import (
	"unicode/utf8"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/vc"
)

// ---- specification: tokens of the grammar

// vcspec_isWord: letter or underscore, then at least one letter, digit or underscore.
func vcspec_wordByte(c byte) bool {
	return c == '_' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')
}

func vcspec_isWord(s string) bool {
	return len(s) >= 2 && !(s[0] >= '0' && s[0] <= '9') && vc.Forall(0, len(s), func(k int) bool { return vcspec_wordByte(s[k]) })
}

// vcspec_okAt: a delimiter at k is directly preceded by a backslash.
func vcspec_okAt(s string, k int, q byte) bool {
	return !(s[k] == q && (k == 0 || s[k-1] != '\\'))
}

func vcspec_okBody(s string, q byte) bool {
	return vc.Forall(0, len(s), func(k int) bool { return vcspec_okAt(s, k, q) }) && !(len(s) > 0 && s[len(s)-1] == '\\')
}

// vcspec_body is the grammar's string body: ( "\" q / !q . )*, its length in s.
func vcspec_body(s string, q byte) int {
	if len(s) == 0 {
		return 0
	}
	if len(s) >= 2 && s[0] == '\\' && s[1] == q {
		return 2 + vcspec_body(s[2:], q)
	}
	if s[0] == q {
		return 0
	}
	return 1 + vcspec_body(s[1:], q)
}

// The byte-level condition is the grammar's: the body of s followed by the
// delimiter ends exactly at the end of s.
//
//vc:prop C11 C12
func vclemma_bodyGrammar(s string, d string) {
	vc.Requires(d == "\"" || d == "'")
	vc.Decreases(len(s))
	q := d[0]
	if len(s) == 0 {
		vc.Assert("empty", vcspec_body(d, q) == 0)
	} else if s[0] == '\\' && len(s) >= 2 && s[1] == q {
		vclemma_bodyGrammar(s[2:], d)
		vc.Assert("pair text", s+d == s[:2]+(s[2:]+d))
		vc.Assert("pair rest", (s + d)[2:] == s[2:]+d)
		vc.Assert("pair", vcspec_body(s+d, q) == 2+vcspec_body(s[2:]+d, q))
		if vcspec_okBody(s[2:], q) {
			vc.Assert("pair body", vc.Forall(0, len(s), func(k int) bool { return vcspec_okAt(s, k, q) }))
		} else {
			vc.Assert("pair body shifted", !vcspec_okBody(s, q))
		}
	} else if s[0] == q {
		vc.Assert("ends", vcspec_body(s+d, q) == 0)
	} else if s[0] == '\\' && len(s) == 1 {
		vc.Assert("escaped end", vcspec_body(s+d, q) == 2)
	} else {
		vclemma_bodyGrammar(s[1:], d)
		vc.Assert("one rest", (s + d)[1:] == s[1:]+d)
		vc.Assert("one", vcspec_body(s+d, q) == 1+vcspec_body(s[1:]+d, q))
		if vcspec_okBody(s[1:], q) {
			vc.Assert("one body", vc.Forall(0, len(s), func(k int) bool { return vcspec_okAt(s, k, q) }))
		} else {
			vc.Assert("one body shifted", !vcspec_okBody(s, q))
		}
	}
	vc.Ensures("complete token iff delimiters are escaped", (vcspec_body(s+d, q) == len(s)) == vcspec_okBody(s, q))
}

func vcspec_delim(t ast.StringAttributeType) string {
	if t == ast.DoubleQuoted {
		return "\""
	}
	return "'"
}

func vchint_noQuote(value string, quote byte, i int) bool {
	return vc.Forall(0, i, func(k int) bool { return vcspec_okAt(value, k, quote) })
}

// Quote succeeds exactly on complete tokens and adds nothing but delimiters.
//
//vc:prop C11
//vc:target ast/astutil.Quote
//vc:hints vchint_noQuote
func vccheck_Quote_quoted(value string, double bool) {
	t := ast.StringAttributeType(ast.SingleQuoted)
	q := byte('\'')
	if double {
		t = ast.DoubleQuoted
		q = '"'
	}
	r, err := Quote(value, t)
	vc.Ensures("succeeds exactly if the body is complete", (err == nil) == vcspec_okBody(value, q))
	vc.Ensures("only delimiters are added", err != nil || r == vcspec_delim(t)+value+vcspec_delim(t))
	vc.Ensures("nothing is returned with an error", err == nil || r == "")
}

//vc:prop C11
//vc:target ast/astutil.Quote
func vccheck_Quote_bareword(value string) {
	r, err := Quote(value, ast.Bareword)
	vc.Ensures("succeeds exactly for barewords", (err == nil) == vcspec_isWord(value))
	vc.Ensures("the bareword itself", err != nil || r == value)
	vc.Ensures("nothing is returned with an error", err == nil || r == "")
}

// ---- quoting with escaping

// vcspec_escq adds a backslash before each delimiter without one.
func vcspec_escq(s string, q byte, prev bool) string {
	if len(s) == 0 {
		return ""
	}
	if s[0] == q && !prev {
		return "\\" + s[:1] + vcspec_escq(s[1:], q, false)
	}
	return s[:1] + vcspec_escq(s[1:], q, s[0] == '\\')
}

func vchint_escq(value string, quote byte, b []byte, i int) bool {
	s := string(b)
	return 0 <= i && i <= len(s) && s[:i]+vcspec_escq(s[i:], quote, i > 0 && s[i-1] == '\\') == vcspec_escq(value, quote, false)
}

//vc:prop C12
//vc:target ast/astutil.QuoteWithEscape
//vc:hints vchint_escq
func vccheck_QuoteWithEscape_quoted(value string, t ast.StringAttributeType) {
	vc.Requires(t == ast.DoubleQuoted || t == ast.SingleQuoted)
	d := vcspec_delim(t)
	r := QuoteWithEscape(value, t)
	vc.Ensures("delimiters, and a backslash only before a bare delimiter", r == d+vcspec_escq(value, d[0], false)+d)
}

// The escaped body is complete: every delimiter is preceded by a backslash and
// it does not end in one (if the value does not).
//
//vc:prop C12
func vclemma_escqOk(s string, q byte, prev bool) {
	vc.Requires(q == '"' || q == '\'')
	vc.Requires(!(len(s) > 0 && s[len(s)-1] == '\\'))
	vc.Decreases(len(s))
	if len(s) > 0 {
		r := vcspec_escq(s, q, prev)
		if s[0] == q && !prev {
			vclemma_escqOk(s[1:], q, false)
			t := vcspec_escq(s[1:], q, false)
			vc.Assert("added", r == "\\"+s[:1]+t)
			vc.Assert("added at 2", vc.Forall(2, len(r), func(k int) bool { return r[k] == t[k-2] }))
		} else {
			vclemma_escqOk(s[1:], q, s[0] == '\\')
			t := vcspec_escq(s[1:], q, s[0] == '\\')
			vc.Assert("kept", r == s[:1]+t)
			vc.Assert("kept at 1", vc.Forall(1, len(r), func(k int) bool { return r[k] == t[k-1] }))
		}
	}
	r := vcspec_escq(s, q, prev)
	vc.Ensures("every delimiter is escaped", vc.Forall(0, len(r), func(k int) bool { return !(r[k] == q && (k == 0 && !prev || k > 0 && r[k-1] != '\\')) }))
	vc.Ensures("no final backslash", !(len(r) > 0 && r[len(r)-1] == '\\'))
	vc.Ensures("not emptied", (len(r) == 0) == (len(s) == 0))
}

// The result of the real function is one complete token of the grammar.
//
//vc:prop C12
//vc:use ast/astutil.QuoteWithEscape
func vccheck_QuoteWithEscape_token(value string, t ast.StringAttributeType) {
	vc.Requires(t == ast.DoubleQuoted || t == ast.SingleQuoted)
	vc.Requires(!(len(value) > 0 && value[len(value)-1] == '\\'))
	d := vcspec_delim(t)
	q := d[0]
	r := QuoteWithEscape(value, t)
	b := vcspec_escq(value, q, false)
	vclemma_escqOk(value, q, false)
	vclemma_bodyGrammar(b, d)
	vc.Assert("ok", vcspec_okBody(b, q))
	vc.Ensures("delimiter, a complete body, delimiter", r == d+b+d && vcspec_body(b+d, q) == len(b))
}

// ---- barewords

// vcspec_bare replaces each character that may not stand in a bareword.
func vcspec_bareRest(s string) string {
	if len(s) == 0 {
		return ""
	}
	r, w := utf8.DecodeRuneInString(s)
	if r < 128 && vcspec_wordByte(s[0]) {
		return s[:1] + vcspec_bareRest(s[w:])
	}
	return "_" + vcspec_bareRest(s[w:])
}

func vcspec_bare(s string) string {
	if len(s) > 0 && s[0] >= '0' && s[0] <= '9' {
		return "_" + vcspec_bareRest(s[1:])
	}
	return vcspec_bareRest(s)
}

func vclemma_bareOk(s string) {
	vc.Decreases(len(s))
	r := vcspec_bareRest(s)
	if len(s) > 0 {
		_, w := utf8.DecodeRuneInString(s)
		vclemma_bareOk(s[w:])
		vc.Assert("head", r == r[:1]+vcspec_bareRest(s[w:]) && vcspec_wordByte(r[0]))
	}
	vc.Ensures("bareword characters only", vc.Forall(0, len(r), func(k int) bool { return vcspec_wordByte(r[k]) }))
	vc.Ensures("nothing is dropped", (len(r) == 0) == (len(s) == 0))
}

// vclemma_bare: on any text behind a letter, by induction over its characters.
func vclemma_bare(s string) {
	vc.Decreases(len(s))
	if len(s) > 0 {
		_, w := utf8.DecodeRuneInString(s)
		vclemma_bare(s[w:])
	}
	vc.Ensures("characters are replaced one by one", QuoteWithEscape("_"+s, ast.Bareword) == "_"+vcspec_bareRest(s))
}

//vc:prop C12
//vc:target ast/astutil.QuoteWithEscape
//vc:case
func vccheck_QuoteWithEscape_bareword(value string) {
	r := QuoteWithEscape(value, ast.Bareword)
	if len(value) > 0 {
		_, w := utf8.DecodeRuneInString(value)
		vclemma_bare(value[w:])
	}
	vc.Ensures("exactly the characters not allowed at their place are replaced", r == vcspec_bare(value))
	if len(value) > 0 {
		_, w := utf8.DecodeRuneInString(value)
		if w < len(value) {
			vclemma_bareOk(value[w:])
			vc.Assert("first and rest", r == r[:1]+vcspec_bareRest(value[w:]))
			vc.Assert("rest", vc.Forall(1, len(r), func(k int) bool { return vcspec_wordByte(r[k]) }))
			vc.Ensures("a bareword, for at least two characters", vcspec_isWord(r))
		}
	}
}
