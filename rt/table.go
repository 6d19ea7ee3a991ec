package main

// The checks made by evaluation: the grammar table of the code under test is a
// constant, and what the contracts of the parser runtime assume about it is
// computed here, from the table as the package initialises it.
//
//   - its shape (vcspec_wf, vcspec_grammar of the contracts),
//   - that no rule is left-recursive and nothing that can match without
//     consuming is repeated: then parsing terminates for every input,
//   - whether it is, node by node, the reference grammar, with the same action
//     of the same labelled values at each node. If it is not, nothing is said:
//     another table may accept the same language, and the search decides.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	config "github.com/breml/logstash-config"
)

type tableOut struct {
	Known     bool     `json:"known"` // the table could be read
	Rules     int      `json:"rules"`
	Nodes     int      `json:"nodes"`
	Shape     []string `json:"shape"`     // what is wrong with the shape
	Terminate []string `json:"terminate"` // why parsing may not terminate
	Same      bool     `json:"same"`      // it is the reference grammar
	Differ    []string `json:"differ"`
	SameCode  bool     `json:"same_code"` // the actions are wired as in the reference
	DiffCode  []string `json:"differ_code"`
	Wired     int      `json:"wired"`
}

func evalTable(ref, repo, out string) {
	var o tableOut
	if config.VcrtTable != nil {
		o.Known = true
		rules, bad := config.VcrtTable()
		o.Rules, o.Shape = len(rules), bad
		for _, r := range rules {
			o.Nodes += countNodes(r.Expr)
		}
		if len(bad) == 0 {
			o.Terminate = nonTerminating(rules, wiring(repo))
			compareTable(&o, rules, loadGrammar(ref), wiring(repo))
		}
	}
	b, _ := json.MarshalIndent(o, "", " ")
	os.WriteFile(out, b, 0o644)
}

func countNodes(n *config.VcrtNode) int {
	k := 1
	for _, s := range n.Subs {
		k += countNodes(s)
	}
	return k
}

// nonTerminating: the rules that can be entered again at the place they were
// entered, and the repetitions of something that can match the empty text.
// code says what each predicate calls: one that only reports never matches
// (see the contracts of pushError and fatalError).
func nonTerminating(rules []config.VcrtRule, code map[string]string) (why []string) {
	null := map[string]bool{}
	var nullable func(n *config.VcrtNode) bool
	nullable = func(n *config.VcrtNode) bool {
		switch n.Kind {
		case "lit":
			return n.Name == ""
		case "class", "any":
			return false
		case "ref":
			return null[n.Name]
		case "seq":
			for _, s := range n.Subs {
				if !nullable(s) {
					return false
				}
			}
			return true
		case "alt":
			for _, s := range n.Subs {
				if nullable(s) {
					return true
				}
			}
			return false
		case "plus", "action", "label":
			return nullable(n.Subs[0])
		case "pred":
			c := code[n.Fn[strings.LastIndexByte(n.Fn, '.')+1:]]
			return !strings.HasPrefix(c, "pushError(") && !strings.HasPrefix(c, "fatalError(")
		}
		return true // star, opt, and, not, code
	}
	for ch := true; ch; {
		ch = false
		for _, r := range rules {
			if !null[r.Name] && nullable(r.Expr) {
				null[r.Name], ch = true, true
			}
		}
	}
	first := map[string]map[string]bool{} // rules entered before anything is consumed
	for _, r := range rules {
		set := map[string]bool{}
		first[r.Name] = set
		var walk func(n *config.VcrtNode, here bool)
		walk = func(n *config.VcrtNode, here bool) {
			if n.Kind == "ref" && here {
				set[n.Name] = true
			}
			if (n.Kind == "star" || n.Kind == "plus") && nullable(n.Subs[0]) {
				why = append(why, "rule "+r.Name+": repeats what can match the empty text")
			}
			for _, s := range n.Subs {
				walk(s, here)
				if n.Kind == "seq" {
					here = here && nullable(s)
				}
			}
		}
		walk(r.Expr, true)
	}
	for ch := true; ch; {
		ch = false
		for _, set := range first {
			for a := range set {
				for b := range first[a] {
					if !set[b] {
						set[b], ch = true, true
					}
				}
			}
		}
	}
	for _, r := range rules {
		if first[r.Name][r.Name] {
			why = append(why, "rule "+r.Name+" is left-recursive")
		}
	}
	return
}

// ---- comparison with the reference

// cnode is a node of either grammar in a common form.
type cnode struct {
	kind string // lit class any ref seq alt star plus opt and not label code pred state
	text string
	code string // wiring of an action, predicate or state change
	subs []*cnode
	set  []rune // of a class that is not inverted
}

func mkClass(runes, rng []rune, inv bool) *cnode {
	c := &cnode{kind: "class", text: classText(runes, rng, inv)}
	if !inv && len(rng) == 0 {
		c.set = runes
	}
	return c
}

func classText(runes, rng []rune, inv bool) string {
	in := map[rune]bool{}
	for _, r := range runes {
		in[r] = true
	}
	for i := 0; i+1 < len(rng); i += 2 {
		for r := rng[i]; r <= rng[i+1] && r-rng[i] < 1<<12; r++ {
			in[r] = true
		}
	}
	var rs []int
	for r := range in {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	return fmt.Sprint(inv, rs)
}

// mkAlt: alternatives that are alternatives themselves are one list, and
// neighbouring single characters are one class.
func mkAlt(subs []*cnode) *cnode {
	var fl []*cnode
	for _, s := range subs {
		if s.kind == "alt" {
			fl = append(fl, s.subs...)
		} else {
			fl = append(fl, s)
		}
	}
	var out []*cnode
	for _, s := range fl {
		if k := len(out) - 1; k >= 0 && len(s.set) > 0 && len(out[k].set) > 0 {
			out[k] = mkClass(append(append([]rune{}, out[k].set...), s.set...), nil, false)
			continue
		}
		out = append(out, s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return &cnode{kind: "alt", subs: out}
}

func mkSeq(subs []*cnode) *cnode {
	if len(subs) == 1 {
		return subs[0]
	}
	return &cnode{kind: "seq", subs: subs}
}

func fromTable(n *config.VcrtNode, code map[string]string) *cnode {
	var subs []*cnode
	for _, s := range n.Subs {
		subs = append(subs, fromTable(s, code))
	}
	fn := n.Fn[strings.LastIndexByte(n.Fn, '.')+1:]
	switch n.Kind {
	case "lit":
		if utf8.RuneCountInString(n.Name) == 1 && !n.IC {
			return mkClass([]rune(n.Name), nil, false)
		}
		return &cnode{kind: "lit", text: fmt.Sprint(n.IC, n.Name)}
	case "class":
		if n.IC || n.Classes > 0 {
			return &cnode{kind: "opaque"}
		}
		return mkClass(n.Runes, n.Ranges, n.Inv)
	case "alt":
		return mkAlt(subs)
	case "seq":
		return mkSeq(subs)
	case "action", "pred", "state", "notpred":
		return &cnode{kind: n.Kind, code: code[fn], subs: subs}
	}
	return &cnode{kind: n.Kind, text: n.Name, subs: subs}
}

func fromRef(e *expr) *cnode {
	var subs []*cnode
	for _, s := range e.subs {
		subs = append(subs, fromRef(s))
	}
	call := e.fn + "(" + strings.Join(e.args, ",") + ")"
	if strings.HasPrefix(e.fn, "=") {
		call = strings.ReplaceAll(e.fn, " ", "")
	}
	switch e.k {
	case xLit:
		if utf8.RuneCountInString(e.s) == 1 {
			return mkClass([]rune(e.s), nil, false)
		}
		return &cnode{kind: "lit", text: fmt.Sprint(false, e.s)}
	case xClass:
		return mkClass(e.runes, e.rng, e.inv)
	case xAny:
		return &cnode{kind: "any"}
	case xRef:
		return &cnode{kind: "ref", text: e.s}
	case xSeq:
		return mkSeq(subs)
	case xAlt:
		return mkAlt(subs)
	case xStar:
		return &cnode{kind: "star", subs: subs}
	case xPlus:
		return &cnode{kind: "plus", subs: subs}
	case xOpt:
		return &cnode{kind: "opt", subs: subs}
	case xNot:
		return &cnode{kind: "not", subs: subs}
	case xLabel:
		return &cnode{kind: "label", text: e.s, subs: subs}
	case xAction:
		return &cnode{kind: "action", code: call, subs: subs}
	case xPred:
		return &cnode{kind: "pred", code: call}
	}
	return &cnode{kind: "state", code: call}
}

// openLabels: it sets a label in the scope it is matched in.
func openLabels(c *cnode) bool {
	switch c.kind {
	case "label":
		return true
	case "seq", "action", "ref":
		for _, s := range c.subs {
			if openLabels(s) {
				return true
			}
		}
	}
	return false
}

func compareTable(o *tableOut, rules []config.VcrtRule, g *grammarRef, code map[string]string) {
	tab, ref := map[string]*cnode{}, map[string]*cnode{}
	for _, r := range rules {
		tab[r.Name] = fromTable(r.Expr, code)
	}
	for n, e := range g.rules {
		ref[n] = fromRef(e)
	}
	codeDiff := map[string]bool{}
	var same func(t, r *cnode) bool
	var sames func(kind string, ts, rs []*cnode) bool
	same = func(t, r *cnode) bool {
		if t.kind == "ref" && r.kind == "ref" && t.text == r.text {
			return true // that rule is compared on its own
		}
		if r.kind == "ref" { // written out in the table
			return ref[r.text] != nil && same(t, ref[r.text])
		}
		if t.kind != r.kind || t.text != r.text {
			if os.Getenv("TABDEBUG") != "" {
				fmt.Fprintln(os.Stderr, t.kind, t.text, t.code, "<>", r.kind, r.text, r.code, len(t.subs), len(r.subs))
			}
			return false
		}
		if !sames(t.kind, t.subs, r.subs) {
			return false
		}
		if t.kind == "action" || t.kind == "pred" || t.kind == "state" {
			o.Wired++
			if t.code == "" || t.code != r.code {
				codeDiff[fmt.Sprintf("%q is %q in the reference", t.code, r.code)] = true
			}
		}
		return true
	}
	sames = func(kind string, ts, rs []*cnode) bool {
		// a rule of the reference may be written out in the list it stands in
		for len(ts) > 0 && len(rs) > 0 {
			r := rs[0]
			if ts[0].kind != "ref" && r.kind == "ref" && ref[r.text] != nil && ref[r.text].kind == kind {
				rs = append(append([]*cnode{}, ref[r.text].subs...), rs[1:]...)
				continue
			}
			if kind == "seq" || kind == "action" { // no scope of its own for the labels of a rule written out here
				if ts[0].kind != "ref" && r.kind == "ref" && ref[r.text] != nil && openLabels(ref[r.text]) {
					return false
				}
			}
			if !same(ts[0], r) {
				return false
			}
			ts, rs = ts[1:], rs[1:]
		}
		return len(ts) == 0 && len(rs) == 0
	}
	o.Same = true
	if rules[0].Name != g.order[0] {
		o.Differ = append(o.Differ, "the first rule is "+rules[0].Name)
	}
	for _, r := range rules {
		e := ref[r.Name]
		if e == nil {
			o.Differ = append(o.Differ, "rule "+r.Name+" is not in the reference")
		} else if !same(tab[r.Name], e) {
			o.Differ = append(o.Differ, "rule "+r.Name+" differs from the reference")
		}
	}
	o.Same = len(o.Differ) == 0
	for d := range codeDiff {
		o.DiffCode = append(o.DiffCode, d)
	}
	sort.Strings(o.DiffCode)
	o.SameCode = o.Same && len(codeDiff) == 0
}

// wiring reads, for each callonX of the generated parser, which method of
// current it calls with which labelled values: f(label,…) or =expression.
func wiring(repo string) map[string]string {
	out := map[string]string{}
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, repo, func(fi fs.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil {
		return out
	}
	on, calls := map[string]*ast.FuncDecl{}, map[string]*ast.FuncDecl{}
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || fd.Body == nil || len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) != 1 {
					continue
				}
				if strings.HasPrefix(fd.Name.Name, "callon") {
					calls[fd.Name.Name] = fd
				} else {
					on[fd.Name.Name] = fd
				}
			}
		}
	}
	for name, fd := range calls {
		// stack := p.vstack[len(p.vstack)-1]; _ = stack; return p.cur.onX(stack["a"], …)
		b := fd.Body.List
		if len(b) != 3 || src(b[0]) != "stack:=p.vstack[len(p.vstack)-1]" || src(b[1]) != "_=stack" {
			continue
		}
		call := retCall(b[2])
		if call == nil || !strings.HasPrefix(src(call.Fun), "p.cur.") {
			continue
		}
		m := on[strings.TrimPrefix(src(call.Fun), "p.cur.")]
		if m == nil || len(m.Body.List) != 1 {
			continue
		}
		label := map[string]string{}
		var params []string
		for _, f := range m.Type.Params.List {
			for _, n := range f.Names {
				params = append(params, n.Name)
			}
		}
		ok := len(params) == len(call.Args)
		for i, a := range call.Args {
			ix, isIx := a.(*ast.IndexExpr)
			if !ok || !isIx || src(ix.X) != "stack" {
				ok = false
				break
			}
			l, err := strconv.Unquote(src(ix.Index))
			ok = ok && err == nil
			label[params[i]] = l
		}
		ret, isRet := m.Body.List[0].(*ast.ReturnStmt)
		if !ok || !isRet {
			continue
		}
		recv := m.Recv.List[0].Names[0].Name
		if c, isCall := ret.Results[0].(*ast.CallExpr); isCall && len(ret.Results) == 1 && strings.HasPrefix(src(c.Fun), recv+".") {
			var args []string
			for _, a := range c.Args {
				switch x := a.(type) {
				case *ast.Ident:
					l, isP := label[x.Name]
					if x.Name == "true" || x.Name == "false" {
						l = x.Name
					} else if !isP {
						l = "?" + x.Name
					}
					args = append(args, l)
				case *ast.BasicLit:
					u, err := strconv.Unquote(x.Value)
					if err != nil {
						u = x.Value
					}
					args = append(args, u)
				default:
					args = append(args, src(x))
				}
			}
			out[name] = strings.TrimPrefix(src(c.Fun), recv+".") + "(" + strings.Join(args, ",") + ")"
		} else if len(ret.Results) == 2 && src(ret.Results[1]) == "nil" {
			out[name] = "=" + src(ret.Results[0])
		}
	}
	return out
}

func retCall(s ast.Stmt) *ast.CallExpr {
	r, ok := s.(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		return nil
	}
	c, _ := r.Results[0].(*ast.CallExpr)
	return c
}

// src prints the few kinds of nodes looked at here, without blanks.
func src(n ast.Node) string {
	switch x := n.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.BasicLit:
		return x.Value
	case *ast.SelectorExpr:
		return src(x.X) + "." + x.Sel.Name
	case *ast.IndexExpr:
		return src(x.X) + "[" + src(x.Index) + "]"
	case *ast.BinaryExpr:
		return src(x.X) + x.Op.String() + src(x.Y)
	case *ast.CallExpr:
		var as []string
		for _, a := range x.Args {
			as = append(as, src(a))
		}
		return src(x.Fun) + "(" + strings.Join(as, ",") + ")"
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			return src(x.Lhs[0]) + x.Tok.String() + src(x.Rhs[0])
		}
	}
	return "?"
}
