package astutil

import (
	"unicode/utf8"

	"github.com/breml/logstash-config/internal/vc"
)

// ---- specification: the six documented escape sequences

func vcspec_escByte(c byte) string {
	switch c {
	case '"':
		return "\\\""
	case '\'':
		return "\\'"
	case '\\':
		return "\\\\"
	case '\n':
		return "\\n"
	case '\r':
		return "\\r"
	case '\t':
		return "\\t"
	}
	return string([]byte{c})
}

func vcspec_escape(s string) string {
	if len(s) == 0 {
		return ""
	}
	return vcspec_escByte(s[0]) + vcspec_escape(s[1:])
}

// vcspec_unescape scans left to right without overlap.
func vcspec_unescape(s string) string {
	if len(s) == 0 {
		return ""
	}
	if s[0] == '\\' && len(s) >= 2 {
		switch s[1] {
		case '"', '\'', '\\':
			return s[1:2] + vcspec_unescape(s[2:])
		case 'n':
			return "\n" + vcspec_unescape(s[2:])
		case 'r':
			return "\r" + vcspec_unescape(s[2:])
		case 't':
			return "\t" + vcspec_unescape(s[2:])
		}
	}
	return s[:1] + vcspec_unescape(s[1:])
}

// The escaped form is the byte-wise escape.
//
//vc:prop C10
//vc:target ast/astutil.Escape
func vccheck_Escape(value string) {
	r := Escape(value)
	vclemma_escape(value)
	vc.Ensures("Escape is the documented byte-wise escape", r == vcspec_escape(value))
}

// Bytes that need no escape are copied.
func vclemma_escPlain(s string, n int) {
	vc.Requires(0 <= n && n <= len(s))
	vc.Requires(vc.Forall(0, n, func(k int) bool { return s[k] >= 128 }))
	vc.Decreases(n)
	if n > 0 {
		vclemma_escPlain(s[1:], n-1)
	}
	vc.Ensures("plain", vcspec_escape(s) == s[:n]+vcspec_escape(s[n:]))
}

// By induction over the characters of value.
func vclemma_escape(value string) {
	vc.Decreases(len(value))
	if len(value) > 0 {
		_, w := utf8.DecodeRuneInString(value)
		vclemma_escape(value[w:])
		if value[0] >= 128 {
			vclemma_escPlain(value, w)
		}
	}
	vc.Ensures("Escape is the byte-wise escape", Escape(value) == vcspec_escape(value))
}

func vcspec_hasSpecial(c byte) bool { return c == '\n' || c == '\r' || c == '\t' }

// Unescaping the escaped form gives the original back.
func vclemma_roundtrip(s string) {
	vc.Decreases(len(s))
	if len(s) > 0 {
		vclemma_roundtrip(s[1:])
		rest := vcspec_escape(s[1:])
		switch s[0] {
		case '"', '\'', '\\':
			vc.Assert("escape pair", vcspec_escape(s) == "\\"+s[:1]+rest)
			vc.Assert("unescape pair", vcspec_unescape("\\"+s[:1]+rest) == s[:1]+vcspec_unescape(rest))
		case '\n':
			vc.Assert("escape pair", vcspec_escape(s) == "\\n"+rest)
			vc.Assert("unescape pair", vcspec_unescape("\\n"+rest) == "\n"+vcspec_unescape(rest))
		case '\r':
			vc.Assert("escape pair", vcspec_escape(s) == "\\r"+rest)
			vc.Assert("unescape pair", vcspec_unescape("\\r"+rest) == "\r"+vcspec_unescape(rest))
		case '\t':
			vc.Assert("escape pair", vcspec_escape(s) == "\\t"+rest)
			vc.Assert("unescape pair", vcspec_unescape("\\t"+rest) == "\t"+vcspec_unescape(rest))
		default:
			vc.Assert("single", vcspec_escape(s) == s[:1]+rest)
			vc.Assert("single back", vcspec_unescape(s[:1]+rest) == s[:1]+vcspec_unescape(rest))
		}
		vc.Assert("head", s == s[:1]+s[1:])
	}
	vc.Ensures("unescape(escape(s)) == s", vcspec_unescape(vcspec_escape(s)) == s)
}

// vcspec_escaped: no raw control characters or quotes, every backslash starts a pair.
func vcspec_escaped(s string) bool {
	if len(s) == 0 {
		return true
	}
	switch s[0] {
	case '\n', '\r', '\t', '"', '\'':
		return false
	case '\\':
		return len(s) >= 2 && (s[1] == '"' || s[1] == '\'' || s[1] == '\\' || s[1] == 'n' || s[1] == 'r' || s[1] == 't') && vcspec_escaped(s[2:])
	}
	return vcspec_escaped(s[1:])
}

func vclemma_escaped(s string) {
	vc.Decreases(len(s))
	if len(s) > 0 {
		vclemma_escaped(s[1:])
		switch s[0] {
		case '"', '\'', '\\', '\n', '\r', '\t':
			vc.Assert("pair", len(vcspec_escByte(s[0])) == 2)
		default:
			vc.Assert("single", vcspec_escape(s) == s[:1]+vcspec_escape(s[1:]))
		}
	}
	vc.Ensures("the escaped form is fully escaped", vcspec_escaped(vcspec_escape(s)))
}

// Bytes outside an escape pair are kept.
func vclemma_unescPlain(s string, n int) {
	vc.Requires(0 <= n && n <= len(s))
	vc.Requires(vc.Forall(0, n, func(k int) bool { return s[k] >= 128 }))
	vc.Decreases(n)
	if n > 0 {
		vclemma_unescPlain(s[1:], n-1)
	}
	vc.Ensures("plain", vcspec_unescape(s) == s[:n]+vcspec_unescape(s[n:]))
}

func vclemma_unescape(value string) {
	vc.Decreases(len(value))
	if len(value) > 0 {
		_, w := utf8.DecodeRuneInString(value)
		vclemma_unescape(value[w:])
		if value[0] >= 128 {
			vclemma_unescPlain(value, w)
		}
		if value[0] == '\\' && len(value) > 1 {
			_, w2 := utf8.DecodeRuneInString(value[1:])
			vclemma_unescape(value[1+w2:])
			if value[1] >= 128 {
				vclemma_unescPlain(value[1:], w2)
				vc.Assert("multibyte", vcspec_unescape(value) == value[:1]+vcspec_unescape(value[1:]))
			} else if value[1] == '\n' {
				vc.Assert("newline", vcspec_unescape(value) == value[:1]+vcspec_unescape(value[1:]))
			} else if value[1] == '"' || value[1] == '\'' || value[1] == '\\' {
				vc.Assert("same", vcspec_unescape(value) == value[1:2]+vcspec_unescape(value[2:]))
			} else if value[1] == 'n' || value[1] == 'r' || value[1] == 't' {
				vc.Assert("ctl", vcspec_unescape(value)[1:] == vcspec_unescape(value[2:]))
			} else {
				vc.Assert("other", vcspec_unescape(value) == value[:2]+vcspec_unescape(value[2:]))
			}
		}
	}
	vc.Ensures("Unescape is the documented left-to-right scan", Unescape(value) == vcspec_unescape(value))
}

// Unescape replaces exactly the six documented sequences.
//
//vc:prop C10
//vc:target ast/astutil.Unescape
func vccheck_Unescape(value string) {
	r := Unescape(value)
	vclemma_unescape(value)
	vc.Ensures("Unescape is the documented left-to-right scan", r == vcspec_unescape(value))
}

// The round trip of the real functions.
//
//vc:prop C10
//vc:use ast/astutil.Escape ast/astutil.Unescape
func vccheck_roundtrip(value string) {
	esc := Escape(value)
	back := Unescape(esc)
	vclemma_roundtrip(value)
	vclemma_escaped(value)
	vc.Ensures("unescaping undoes escaping", back == value)
	vc.Ensures("the escaped form is fully escaped", vcspec_escaped(esc))
}
