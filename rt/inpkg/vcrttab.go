package config

// Helper of the search program: hands out the grammar table of the package,
// for the checks made by evaluation. Overlaid, never committed.

import (
	"fmt"
	"reflect"
	"runtime"
	"unicode/utf8"
)

func init() { VcrtTable = vcrtTable }

func vcrtFn(f interface{}) (string, uintptr) {
	v := reflect.ValueOf(f)
	if v.IsNil() {
		return "", 0
	}
	return runtime.FuncForPC(v.Pointer()).Name(), v.Pointer()
}

// vcrtTable converts the table and lists what is wrong with its shape.
func vcrtTable() (rules []VcrtRule, bad []string) {
	complain := func(r, f string, a ...interface{}) { bad = append(bad, "rule "+r+": "+fmt.Sprintf(f, a...)) }
	names := map[string]bool{}
	for i, r := range g.rules {
		if r == nil {
			bad = append(bad, fmt.Sprintf("rule %d is nil", i))
			continue
		}
		if names[r.name] {
			complain(r.name, "two rules of this name")
		}
		names[r.name] = true
	}
	body := map[uintptr]interface{}{} // the expression of each action
	path := map[interface{}]bool{}
	var conv func(rn string, ex interface{}) *VcrtNode
	conv = func(rn string, ex interface{}) *VcrtNode {
		n := &VcrtNode{Kind: "bad"}
		if v := reflect.ValueOf(ex); !v.IsValid() || v.Kind() != reflect.Ptr || v.IsNil() {
			complain(rn, "expression %v is not a pointer to a node", ex)
			return n
		}
		if path[ex] {
			complain(rn, "an expression contains itself")
			return n
		}
		path[ex] = true
		defer delete(path, ex)
		subs := func(k string, es ...interface{}) {
			n.Kind = k
			for _, e := range es {
				n.Subs = append(n.Subs, conv(rn, e))
			}
		}
		fn := func(f interface{}) {
			var p uintptr
			n.Fn, p = vcrtFn(f)
			if p == 0 {
				complain(rn, "code expression without code")
			}
			if n.Kind == "action" {
				e := ex.(*actionExpr).expr
				if o, ok := body[p]; ok && o != e {
					complain(rn, "%s is the action of two expressions", n.Fn)
				}
				body[p] = e
			}
		}
		switch e := ex.(type) {
		case *actionExpr:
			subs("action", e.expr)
			fn(e.run)
		case *andCodeExpr:
			n.Kind = "pred"
			fn(e.run)
		case *notCodeExpr:
			n.Kind = "notpred"
			fn(e.run)
		case *stateCodeExpr:
			n.Kind = "state"
			fn(e.run)
		case *andExpr:
			subs("and", e.expr)
		case *notExpr:
			subs("not", e.expr)
		case *labeledExpr:
			subs("label", e.expr)
			n.Name = e.label
		case *oneOrMoreExpr:
			subs("plus", e.expr)
		case *zeroOrMoreExpr:
			subs("star", e.expr)
		case *zeroOrOneExpr:
			subs("opt", e.expr)
		case *choiceExpr:
			subs("alt", e.alternatives...)
		case *seqExpr:
			subs("seq", e.exprs...)
		case *anyMatcher:
			n.Kind = "any"
		case *litMatcher:
			n.Kind, n.Name, n.IC = "lit", e.val, e.ignoreCase
			for i, w := 0, 0; i < len(e.val); i += w {
				var r rune
				if r, w = utf8.DecodeRuneInString(e.val[i:]); r == utf8.RuneError {
					complain(rn, "literal %q holds U+FFFD or an invalid byte", e.val)
				}
			}
		case *charClassMatcher:
			n.Kind, n.IC, n.Inv = "class", e.ignoreCase, e.inverted
			n.Runes, n.Ranges, n.Classes = e.chars, e.ranges, len(e.classes)
			if len(e.ranges)%2 != 0 {
				complain(rn, "class %s with half a range", e.val)
			}
			for _, c := range e.classes {
				if c == nil {
					complain(rn, "class %s with a nil table", e.val)
				}
			}
		case *ruleRefExpr:
			n.Kind, n.Name = "ref", e.name
			if !names[e.name] {
				complain(rn, "reference to the unknown rule %q", e.name)
			}
		default:
			complain(rn, "unknown kind of expression %T", ex)
		}
		return n
	}
	for _, r := range g.rules {
		if r != nil {
			rules = append(rules, VcrtRule{Name: r.name, Expr: conv(r.name, r.expr)})
		}
	}
	if len(rules) == 0 {
		bad = append(bad, "no rules")
	}
	return
}
