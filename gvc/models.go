package main

// Assumed contracts of the standard library and of dependencies.

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

type modelFn func(e *Eng, fr *Frame, st *State, args []Val, call *ssa.CallCommon) []arrival
type model struct {
	pure bool
	note string
	f    modelFn
	mods func(*modSet)
}

var models = map[string]*model{}
var inlineStd = map[string]bool{}

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func M(name string, pure bool, f modelFn) *model {
	m := &model{pure: pure, note: name, f: f}
	models[name] = m
	return m
}

// uf declares an uninterpreted function of its arguments.
func uf(name string, ret ...Sort) {
	M(name, true, func(e *Eng, fr *Frame, st *State, args []Val, call *ssa.CallCommon) []arrival {
		var ts []*Term
		for _, a := range args {
			if sl, ok := a.(SliceV); ok {
				ts = append(ts, e.row(st, sl), sl.Off, sl.Len)
				continue
			}
			ts = append(ts, e.toTerm(st, a))
		}
		var vs []Val
		for i, r := range ret {
			vs = append(vs, App(fmt.Sprintf("%s#%d", name, i), r, ts...))
		}
		return ret1(st, vs...)
	})
}

func (e *Eng) strOf(st *State, v Val) *Term { return e.toTerm(st, v) }

// fmtArg renders one operand for a verb.
func (e *Eng) fmtArg(st *State, verb string, v Val) *Term {
	if iv, ok := v.(IfaceV); ok {
		if (verb == "s" || verb == "v") && !hasMethod(iv.T, "Error") && hasMethod(iv.T, "String") {
			if fn := e.prog.LookupMethod(iv.T, nil, "String"); fn != nil && (e.isRepo(fn) || fn.Synthetic != "") {
				return e.toTerm(st, e.textOf(st, fn, iv.V))
			}
		}
		t := e.toTermOr(st, iv.V)
		_, basic := under(iv.T).(*types.Basic)
		if t != nil && basic {
			switch {
			case t.sort == SStr && (verb == "s" || verb == "v") && !hasMethod(iv.T, "String") && !hasMethod(iv.T, "Error"):
				return t
			case t.sort == SStr && verb == "q":
				return App("fmt%q", SStr, t)
			case t.sort == SInt && (verb == "d" || verb == "v" && !hasMethod(iv.T, "String") && !hasMethod(iv.T, "Error")):
				if t.op == OInt {
					return StrL(t.i.String())
				}
				return App("itoa", SStr, t)
			}
		}
		a := e.toTerm(st, iv)
		if hasMethod(iv.T, "Error") && (verb == "s" || verb == "v") {
			return App("errText", SStr, a)
		}
		return App("fmt%"+verb, SStr, a)
	}
	a := e.toTerm(st, v)
	if errTyped[a] && (verb == "v" || verb == "s" || verb == "w") {
		e.assumed["an error is printed by fmt as its Error text"] = true
		nilText := StrL("<nil>")
		if verb != "v" {
			nilText = StrL("%!" + verb + "(<nil>)")
		}
		switch st.decide(Eq(Tag(a), Int(0))) {
		case True:
			return nilText
		case False:
			return App("errText", SStr, a)
		}
		return Ite(Eq(Tag(a), Int(0)), nilText, App("errText", SStr, a))
	}
	if b := strTyped[a]; b != "" && (verb == "v" || verb == "s") {
		e.assumed["a value with a String method is printed by fmt as its String text"] = true
		text := e.toTerm(st, e.evalPure(st, e.bodies[b], []Val{a}, nil))
		nilText := StrL("<nil>")
		if verb != "v" {
			nilText = StrL("%!" + verb + "(<nil>)")
		}
		switch st.decide(Eq(Tag(a), Int(0))) {
		case True:
			return nilText
		case False:
			return text
		}
		return Ite(Eq(Tag(a), Int(0)), nilText, text)
	}
	return App("fmt%"+verb, SStr, a)
}

// textOf is the text a String method gives.
func (e *Eng) textOf(st *State, fn *ssa.Function, recv Val) Val {
	e.assumed["a value with a String method is printed by fmt as its String text"] = true
	if b := e.bodies[fullName(fn)]; b != nil {
		e.bodyNote(fullName(fn), b, true)
		fn = b
	}
	return e.evalPure(st, fn, []Val{recv}, nil)
}

// strTyped: terms that were values of an interface type whose values all have
// a String method, with the name of the body that stands for it.
var strTyped = map[*Term]string{}

// errTyped: terms that were values of the type error.
var errTyped = map[*Term]bool{}

func (e *Eng) toTermOr(st *State, v Val) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return e.toTerm(st, v)
}
func hasMethod(t types.Type, n string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == n {
			return true
		}
	}
	return false
}

func (e *Eng) sliceElems(st *State, v Val) ([]Val, bool) {
	s, ok := v.(SliceV)
	if !ok || s.Len.op != OInt {
		return nil, false
	}
	var r []Val
	for i := int64(0); i < s.Len.i.Int64(); i++ {
		r = append(r, e.load(st, e.elemPtr(st, s, Int(i))))
	}
	return r, true
}

// sprintf expands a constant format.
func (e *Eng) sprintf(st *State, f Val, va Val) *Term {
	ft := e.toTerm(st, f)
	elems, ok := e.sliceElems(st, va)
	if ft.op != OStrL || !ok {
		var row *Term
		sl, is := va.(SliceV)
		if !is {
			unsup("Sprintf operands")
		}
		row = e.row(st, sl)
		return App("sprintf", SStr, ft, row, sl.Off, sl.Len)
	}
	var parts []*Term
	s := ft.name
	k := 0
	for i := 0; i < len(s); {
		if s[i] != '%' {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				j = len(s) - i
			}
			parts = append(parts, StrL(s[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			parts = append(parts, StrL("%!(NOVERB)"))
			break
		}
		verb := s[i+1 : j+1]
		i = j + 1
		if verb == "%" {
			parts = append(parts, StrL("%"))
			continue
		}
		if strings.ContainsAny(verb, "*[]") {
			unsup("format verb %q", verb)
		}
		if k >= len(elems) {
			parts = append(parts, StrL("%!"+verb+"(MISSING)"))
			continue
		}
		parts = append(parts, e.fmtArg(st, verb, elems[k]))
		k++
	}
	r := Cat(parts...)
	if k < len(elems) {
		r = Cat(r, App("fmtExtra", SStr, ft))
	}
	return r
}

// bufferPtr gives access to a bytes.Buffer / strings.Builder receiver.
func (e *Eng) bufGet(st *State, v Val) (PtrV, *Term) {
	if iv, ok := v.(IfaceV); ok {
		v = iv.V
	}
	p, ok := v.(PtrV)
	if !ok {
		unsup("buffer receiver %T", v)
	}
	return p, e.toTerm(st, e.load(st, p))
}

func rxClass(re *syntax.Regexp) ([]rune, bool) {
	switch re.Op {
	case syntax.OpLiteral:
		if len(re.Rune) == 1 && re.Flags&syntax.FoldCase == 0 {
			return []rune{re.Rune[0], re.Rune[0]}, true
		}
	case syntax.OpCharClass:
		return re.Rune, true
	case syntax.OpAnyChar:
		return []rune{0, 0x10FFFF}, true
	case syntax.OpAnyCharNotNL:
		return []rune{0, '\n' - 1, '\n' + 1, 0x10FFFF}, true
	}
	return nil, false
}
func inClass(cls []rune, r *Term) *Term {
	var or []*Term
	for i := 0; i+1 < len(cls); i += 2 {
		if cls[i] == cls[i+1] {
			or = append(or, Eq(r, Int(int64(cls[i]))))
			continue
		}
		or = append(or, And(Le(Int(int64(cls[i])), r), Le(r, Int(int64(cls[i+1])))))
	}
	return Or(or...)
}

// rxSeq: a pattern that is a fixed sequence of single-character classes.
func rxSeq(pat string) ([][]rune, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, false
	}
	for re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	var subs []*syntax.Regexp
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	} else {
		subs = []*syntax.Regexp{re}
	}
	var r [][]rune
	for _, s := range subs {
		if s.Op == syntax.OpLiteral && s.Flags&syntax.FoldCase == 0 {
			for _, c := range s.Rune {
				r = append(r, []rune{c, c})
			}
			continue
		}
		c, ok := rxClass(s)
		if !ok {
			return nil, false
		}
		r = append(r, c)
	}
	return r, len(r) > 0
}

// rxMatch translates MatchString for ^class class* / class+ $ patterns over ASCII classes.
func (e *Eng) rxMatch(st *State, pat string, s *Term) *Term {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		unsup("regexp %q", pat)
	}
	for re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	if re.Op != syntax.OpConcat || len(re.Sub) < 2 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[len(re.Sub)-1].Op != syntax.OpEndText {
		unsup("regexp %q is outside the supported shape", pat)
	}
	items := re.Sub[1 : len(re.Sub)-1]
	pos := Int(0)
	var cs []*Term
	for i, it := range items {
		switch it.Op {
		case syntax.OpPlus, syntax.OpStar:
			cls, ok := rxClass(it.Sub[0])
			if !ok || i != len(items)-1 || !asciiOnly(cls) {
				unsup("regexp %q is outside the supported shape", pat)
			}
			if it.Op == syntax.OpPlus {
				cs = append(cs, Lt(pos, Len(s)))
			} else {
				cs = append(cs, Le(pos, Len(s)))
			}
			k := Bound("k", SInt)
			cs = append(cs, Forall([]*Term{k}, Imp(And(Le(pos, k), Lt(k, Len(s))), inClass(cls, At(s, k)))))
			return And(cs...)
		default:
			cls, ok := rxClass(it)
			if !ok || !asciiOnly(cls) {
				unsup("regexp %q is outside the supported shape", pat)
			}
			cs = append(cs, Lt(pos, Len(s)), inClass(cls, At(s, pos)))
			pos = Add(pos, Int(1))
		}
	}
	cs = append(cs, Eq(pos, Len(s)))
	return And(cs...)
}
func asciiOnly(cls []rune) bool {
	for _, r := range cls {
		if r > 127 {
			return false
		}
	}
	return true
}

// a function defined by the engine for one regexp and one closure:
// rep(s) = s="" -> "" ; match at 0 -> f(match)+rep(rest) ; first rune + rep(rest after it)
type rxRep struct {
	name string
	seq  [][]rune
	cl   ClosureV
}

var rxReps = map[string]*rxRep{}

func (e *Eng) unfoldRx(t *Term) []*Term {
	st := newState()
	e.initAlloc(st)
	s := t.args[0]
	if r, ok := rxReps[t.name]; ok {
		// positions of the runes of a match
		pos := Int(0)
		cond := True
		for _, cls := range r.seq {
			rest := SubStr(s, pos, Len(s))
			e.runeFacts(st, rest)
			cond = And(cond, Lt(pos, Len(s)), inClass(cls, runeOf(rest)))
			pos = Add(pos, runeWidth(rest))
		}
		m := SubStr(s, Int(0), pos)
		// the replacement, only meaningful when cond holds
		sub := st.clone()
		sub.assume(cond)
		fv := e.toTerm(st, e.evalPure(sub, r.cl.Fn, []Val{m}, r.cl.Binds))
		w := runeWidth(s)
		e.runeFacts(st, s)
		body := Ite(Eq(Len(s), Int(0)), StrL(""),
			Ite(cond, Cat(fv, App(t.name, SStr, SubStr(s, pos, Len(s)))),
				Cat(SubStr(s, Int(0), w), App(t.name, SStr, SubStr(s, w, Len(s))))))
		return append(append([]*Term{}, st.pc...), Eq(t, body))
	}
	if r, ok := mapReps[t.name]; ok {
		e.runeFacts(st, s)
		sub := st.clone()
		rv := e.toTerm(st, e.evalPure(sub, r.Fn, []Val{runeOf(s)}, r.Binds))
		w := runeWidth(s)
		enc := e.runeToStr(st, rv)
		body := Ite(Eq(Len(s), Int(0)), StrL(""),
			Cat(Ite(Lt(rv, Int(0)), StrL(""), enc), App(t.name, SStr, SubStr(s, w, Len(s)))))
		return append(append([]*Term{}, st.pc...), Eq(t, body))
	}
	return nil
}

var mapReps = map[string]ClosureV{}

func init() {
	// fmt
	M("fmt.Sprintf", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		return ret1(st, e.sprintf(st, a[0], a[1]))
	})
	M("fmt.Errorf", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		kind := "errors.errorString"
		if f := e.toTerm(st, a[0]); f.op != OStrL || strings.Contains(f.name, "%w") {
			kind = "fmt.wrapError"
		}
		return ret1(st, e.newErr(st, kind, e.sprintf(st, a[0], a[1])))
	})
	M("fmt.Sprint", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		es, ok := e.sliceElems(st, a[0])
		if !ok {
			unsup("Sprint operands")
		}
		if len(es) == 1 {
			return ret1(st, e.fmtArg(st, "v", es[0]))
		}
		var ps []*Term
		isStr := func(v Val) bool {
			iv, ok := v.(IfaceV)
			if !ok {
				unsup("Sprint of several operands of unknown types")
			}
			b, ok := under(iv.T).(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		}
		for i, x := range es {
			if i > 0 && !isStr(x) && !isStr(es[i-1]) {
				ps = append(ps, StrL(" "))
			}
			ps = append(ps, e.fmtArg(st, "v", x))
		}
		return ret1(st, Cat(ps...))
	})
	M("fmt.Sprintln", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		es, ok := e.sliceElems(st, a[0])
		if !ok {
			unsup("Sprintln operands")
		}
		var ps []*Term
		for i, x := range es {
			if i > 0 {
				ps = append(ps, StrL(" "))
			}
			ps = append(ps, e.fmtArg(st, "v", x))
		}
		return ret1(st, Cat(append(ps, StrL("\n"))...))
	})
	M("(*regexp.Regexp).String", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		re, ok := a[0].(RegexpV)
		if !ok {
			unsup("unknown regular expression")
		}
		return ret1(st, StrL(re.Pat))
	})
	out := func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		return ret1(st, Fresh("n", SInt), NilAny)
	}
	M("fmt.Println", false, out)
	M("fmt.Printf", false, out)
	M("fmt.Print", false, out)
	M("fmt.Fprintf", false, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		if p, ok := bufArg(a[0]); ok {
			cur := e.toTerm(st, e.load(st, p))
			e.store(st, p, Cat(cur, e.sprintf(st, a[1], a[2])))
		}
		return ret1(st, Fresh("n", SInt), NilAny)
	})
	// errors
	M("errors.New", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		return ret1(st, e.newErr(st, "errors.errorString", e.toTerm(st, a[0])))
	})
	M("github.com/pkg/errors.New", true, models["errors.New"].f)
	M("github.com/pkg/errors.Wrap", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		t := e.toTerm(st, a[0])
		r := e.newErr(st, "errors.withStack", Cat(e.toTerm(st, a[1]), StrL(": "), App("errText", SStr, t)))
		return ret1(st, Ite(Eq(Tag(t), Int(0)), NilAny, r))
	})
	M("github.com/pkg/errors.Errorf", true, models["fmt.Errorf"].f)
	M("invoke:error.Error", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		t := e.toTerm(st, a[0])
		if k := st.knownTag(t); k > 0 {
			if ty := typeByKey[tagNames[k]]; ty != nil {
				if fn := e.prog.LookupMethod(ty, nil, "Error"); fn != nil && e.isRepo(fn) {
					v := e.fromTerm(st, Unbox(k, sortOf(ty), t), ty)
					return e.callFn(fr, st, fn, []Val{v}, nil, c, nil)
				}
			}
		}
		e.check(st, "nil-method-call", Not(Eq(Tag(t), Int(0))), c.Pos())
		return ret1(st, App("errText", SStr, t))
	})
	M("errors.As", false, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		t := e.toTerm(st, a[0])
		iv, ok := a[1].(IfaceV)
		if !ok {
			unsup("errors.As with an unknown target")
		}
		p, ok := iv.V.(PtrV)
		it, ok2 := under(p.Elem).(*types.Interface)
		if !ok || !ok2 {
			unsup("errors.As with a target of this kind")
		}
		// it implements the target, or an error it wraps does
		direct := e.implCond(st, t, it)
		chain := And(Not(Eq(Tag(t), Int(0))), Not(Eq(Tag(t), Int(int64(TagOf("*errors.errorString"))))), App("wraps:"+typeName(p.Elem), SBool, t))
		var tags []*Term
		for _, tn := range e.openImpls(it) {
			tags = append(tags, Eq(Tag(t), Int(int64(tn))))
		}
		direct = Or(append(tags, direct)...)
		f := Fresh("as", SAny)
		cur := e.toTerm(st, e.load(st, p))
		e.store(st, p, e.fromTerm(st, Ite(direct, t, Ite(chain, f, cur)), p.Elem))
		return ret1(st, Or(direct, chain))
	})
	// strings
	M("strings.HasPrefix", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		s, p := e.toTerm(st, a[0]), e.toTerm(st, a[1])
		return ret1(st, hasPrefix(s, p))
	})
	M("strings.HasSuffix", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		s, p := e.toTerm(st, a[0]), e.toTerm(st, a[1])
		return ret1(st, And(Le(Len(p), Len(s)), Eq(SubStr(s, Sub(Len(s), Len(p)), Len(s)), p)))
	})
	M("strings.TrimPrefix", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		s, p := e.toTerm(st, a[0]), e.toTerm(st, a[1])
		return ret1(st, Ite(hasPrefix(s, p), SubStr(s, Len(p), Len(s)), s))
	})
	M("strings.TrimSuffix", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		s, p := e.toTerm(st, a[0]), e.toTerm(st, a[1])
		suf := And(Le(Len(p), Len(s)), Eq(SubStr(s, Sub(Len(s), Len(p)), Len(s)), p))
		return ret1(st, Ite(suf, SubStr(s, Int(0), Sub(Len(s), Len(p))), s))
	})
	uf("strings.TrimSpace", SStr)
	uf("strings.ToLower", SStr)
	uf("strings.ToUpper", SStr)
	uf("strings.ReplaceAll", SStr)
	uf("strings.Replace", SStr)
	uf("strings.TrimRight", SStr)
	uf("strings.TrimLeft", SStr)
	uf("strings.Trim", SStr)
	uf("strings.Join", SStr)
	uf("strings.Contains", SBool)
	uf("strings.Repeat", SStr)
	uf("strconv.Quote", SStr)
	M("strconv.Itoa", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		t := e.toTerm(st, a[0])
		if t.op == OInt {
			return ret1(st, StrL(t.i.String()))
		}
		return ret1(st, App("itoa", SStr, t))
	})
	M("strconv.FormatFloat", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		var ts []*Term
		for _, x := range a {
			ts = append(ts, e.toTerm(st, x))
		}
		return ret1(st, App("strconv.FormatFloat", SStr, ts...))
	})
	// buffers
	for _, b := range []string{"bytes.Buffer", "strings.Builder"} {
		ty := b
		mods := func(m *modSet) { m.put("P:"+ty, ArrSort(SStr)) }
		w := func(n string, f modelFn) { M("(*"+b+")."+n, false, f).mods = mods }
		w("WriteString", func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			p, cur := e.bufGet(st, a[0])
			t := e.toTerm(st, a[1])
			e.store(st, p, Cat(cur, t))
			return ret1(st, Len(t), NilAny)
		})
		w("WriteByte", func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			p, cur := e.bufGet(st, a[0])
			e.store(st, p, Cat(cur, Unit(e.toTerm(st, a[1]))))
			return ret1(st, NilAny)
		})
		w("WriteRune", func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			p, cur := e.bufGet(st, a[0])
			r := e.runeToStr(st, e.toTerm(st, a[1]))
			e.store(st, p, Cat(cur, r))
			return ret1(st, Len(r), NilAny)
		})
		w("Write", func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			p, cur := e.bufGet(st, a[0])
			sl := a[1].(SliceV)
			e.store(st, p, Cat(cur, e.bytesToStr(st, sl)))
			return ret1(st, sl.Len, NilAny)
		})
		w("Reset", func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			p, _ := e.bufGet(st, a[0])
			e.store(st, p, StrL(""))
			return ret1(st)
		})
		M("(*"+b+").String", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			_, cur := e.bufGet(st, a[0])
			return ret1(st, cur)
		})
		M("(*"+b+").Len", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			_, cur := e.bufGet(st, a[0])
			return ret1(st, Len(cur))
		})
		M("(*"+b+").Grow", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			return ret1(st)
		})
	}
	M("(*bytes.Buffer).Bytes", false, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		_, cur := e.bufGet(st, a[0])
		return ret1(st, e.newBytes(st, App("s2b", ArrSort(SInt), cur), Len(cur)))
	})
	M("bytes.NewBufferString", false, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		cl := e.newCell(st, e.toTerm(st, a[0]))
		pt := c.Signature().Results().At(0).Type().(*types.Pointer)
		e.cellType[cl] = pt.Elem()
		return ret1(st, PtrV{Elem: pt.Elem(), Cell: cl})
	})
	M("bytes.TrimSpace", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		s := a[0].(SliceV)
		t := e.bytesToStr(st, s)
		r := App("strings.TrimSpace#0", SStr, t)
		e.fact(st, Le(Len(r), Len(t)))
		if e.pure > 0 {
			return ret1(st, SliceV{Elem: s.Elem, Frozen: App("s2b", ArrSort(SInt), r), Ref: Int(-1), Off: Int(0), Len: Len(r), Cap: Len(r)})
		}
		return ret1(st, e.newBytes(st, App("s2b", ArrSort(SInt), r), Len(r)))
	})
	M("bytes.Equal", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		return ret1(st, Eq(e.bytesToStr(st, a[0].(SliceV)), e.bytesToStr(st, a[1].(SliceV))))
	})
	M("bytes.HasPrefix", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		return ret1(st, hasPrefix(e.bytesToStr(st, a[0].(SliceV)), e.bytesToStr(st, a[1].(SliceV))))
	})
	mapm := func(name string, bytes bool) {
		m := M(name, true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			cl, ok := a[0].(ClosureV)
			if !ok {
				unsup("Map with an unknown function")
			}
			fnm := "spec:map:" + fullName(cl.Fn)
			mapReps[fnm] = cl
			var s *Term
			if bytes {
				s = e.bytesToStr(st, a[1].(SliceV))
			} else {
				s = e.toTerm(st, a[1])
			}
			r := App(fnm, SStr, s)
			if !bytes {
				return ret1(st, r)
			}
			if e.pure > 0 {
				return ret1(st, SliceV{Elem: types.Typ[types.Byte], Frozen: App("s2b", ArrSort(SInt), r), Ref: Int(-1), Off: Int(0), Len: Len(r), Cap: Len(r)})
			}
			return ret1(st, e.newBytes(st, App("s2b", ArrSort(SInt), r), Len(r)))
		})
		m.mods = func(ms *modSet) {
			if bytes {
				ms.put("E:byte", ArrSort(ArrSort(SInt)))
			}
		}
	}
	mapm("bytes.Map", true)
	mapm("strings.Map", false)
	// utf8
	M("unicode/utf8.DecodeRune", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		t := e.bytesToStr(st, a[0].(SliceV))
		e.runeFacts(st, t)
		return ret1(st, runeOf(t), runeWidth(t))
	})
	M("unicode/utf8.DecodeRuneInString", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		t := e.toTerm(st, a[0])
		e.runeFacts(st, t)
		return ret1(st, runeOf(t), runeWidth(t))
	})
	// regexp
	M("(*regexp.Regexp).ReplaceAllStringFunc", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		re, ok := a[0].(RegexpV)
		if !ok {
			unsup("unknown regular expression")
		}
		seq, ok := rxSeq(re.Pat)
		if !ok {
			unsup("regexp %q is outside the supported shape", re.Pat)
		}
		cl, ok := a[2].(ClosureV)
		if !ok {
			unsup("ReplaceAllStringFunc with an unknown function")
		}
		name := fmt.Sprintf("spec:rx:%s:%s", re.Pat, fullName(cl.Fn))
		rxReps[name] = &rxRep{name, seq, cl}
		return ret1(st, App(name, SStr, e.toTerm(st, a[1])))
	})
	M("(*regexp.Regexp).MatchString", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		re, ok := a[0].(RegexpV)
		if !ok {
			unsup("unknown regular expression")
		}
		return ret1(st, e.rxMatch(st, re.Pat, e.toTerm(st, a[1])))
	})
}

func bufArg(v Val) (PtrV, bool) {
	if iv, ok := v.(IfaceV); ok {
		if p, ok := iv.V.(PtrV); ok && isBuffer(p.Elem) {
			return p, true
		}
	}
	return PtrV{}, false
}

func hasPrefix(s, p *Term) *Term {
	if p.op == OStrL {
		cs := []*Term{Le(Int(int64(len(p.name))), Len(s))}
		for i := 0; i < len(p.name); i++ {
			cs = append(cs, Eq(At(s, Int(int64(i))), Int(int64(p.name[i]))))
		}
		return And(cs...)
	}
	return And(Le(Len(p), Len(s)), Eq(SubStr(s, Int(0), Len(p)), p))
}

// newErr makes a new error value with the given text.
func (e *Eng) newErr(st *State, kind string, text *Term) *Term {
	r := Int(0)
	if e.pure == 0 {
		r = e.newRef(st)
	}
	tag := TagOf("*" + kind)
	v := Box(tag, r)
	// its text is kept in the heap-free map errText; a fact of this value
	e.fact(st, Eq(App("errText", SStr, v), text))
	return v
}
