package main

// Symbolic executor over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Eng struct {
	prog      *ssa.Program
	repoPkgs  map[*ssa.Package]bool
	vcPath    string
	epochBase int
	epochN    int
	closures  []ClosureV
	sealFacts bool
	cellCnt   int
	cellType  map[int]types.Type
	globals   map[*ssa.Global]int

	quiet      int // >0: obligations are not recorded
	collecting int
	pure       int // >0: evaluating a specification expression
	factLog    *[]*Term
	lastFacts  []*Term

	h        *Harness // being verified
	obls     []*Obl
	harness  map[string]*Harness // by function full name
	byTarget map[string]*Harness
	specs    map[*ssa.Function]*SpecFn
	specName map[string]*SpecFn

	depth         int
	steps         int
	loops         map[*ssa.Function]*loopInfo
	mods          map[*ssa.Function]*modSet
	assumed       map[string]bool // names of assumed models used
	covered       map[string]bool // real functions executed
	readKeys      []map[string]bool
	inUse         int
	havoced       cellSet
	panicIf       *Term
	panics        []panicCond
	frameDecl     *frameDecl
	candTries     map[*loopT]int
	candMemo      map[*loopT]map[string]bool
	debug         bool
	paths         int
	initVals      map[*ssa.Global]func(s *State) Val
	implMemo      map[string][]int
	covers        []*Obl
	recoverState  *panicState
	usedContracts map[string]bool
	immutChecked  bool
	addrTaken     map[*ssa.Function]bool
	bodies        map[string]*ssa.Function
	immutable     map[string]bool
	closed        map[string]bool
	ownerMap      map[string]map[string]Sort
	loopCount     map[string]int
	deadReq       bool
}

type Obl struct {
	H     *Harness
	Name  string
	Kind  string
	PC    []*Term
	Goal  *Term
	Pos   string
	Res   solverRes
	Query string
	Fuel  int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	spec   bool
	use    *useCtx
	loop   map[*ssa.BasicBlock]*loopCtx
	pstate *panicState
}
type panicState struct{ val Val }
type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}
type useCtx struct {
	h       *Harness
	result  []Val
	called  bool
	args    []Val
	panicIf *Term // nil: no condition stated
	panics  []panicCond
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.loop = make(map[*ssa.BasicBlock]*loopCtx, len(f.loop))
	for k, v := range f.loop {
		n.loop[k] = v
	}
	return &n
}

type akind int

const (
	aStop akind = iota
	aRet
	aPanic
)

type arrival struct {
	st    *State
	fr    *Frame
	kind  akind
	prev  *ssa.BasicBlock
	block *ssa.BasicBlock
	vals  []Val
	pv    Val
}
type stopFn func(prev, next *ssa.BasicBlock) bool

const maxSteps = 4000000

func (e *Eng) nextEpoch() int { e.epochN++; return e.epochN }

func (e *Eng) oblige(s *State, kind, name string, goal *Term, pos token.Pos) {
	if s.dead {
		return
	}
	if e.pure > 0 {
		return
	}
	d := s.decide(goal)
	if d == True {
		if e.quiet == 0 {
			e.obls = append(e.obls, &Obl{H: e.h, Name: name, Kind: kind, Goal: True, Pos: e.pos(pos), Res: solverRes{"unsat", "simplifier", 0}})
		}
		return
	}
	if e.quiet == 0 {
		e.obls = append(e.obls, &Obl{H: e.h, Name: name, Kind: kind, PC: append([]*Term{}, s.pc...), Goal: goal, Pos: e.pos(pos)})
	}
}

// check: obligation then assumption (runtime checks).
func (e *Eng) check(s *State, name string, goal *Term, pos token.Pos) {
	if e.pure > 0 {
		return
	}
	if e.panicIf != nil && e.inUse == 0 {
		e.oblige(s, "runtime", name, Or(e.panicIf, goal), pos)
	} else if e.h == nil || !e.h.RTPanic {
		e.oblige(s, "runtime", name, goal, pos)
	} else if goal != True && e.inUse == 0 && e.quiet == 0 {
		for _, c := range e.panics {
			for _, r := range e.callVal0(&Frame{fn: e.h.fn, spec: true}, s.clone(), c.f, nil, c.call, nil) {
				e.oblige(r.st, "panic", c.name, Or(goal, e.toTerm(r.st, r.vals[0])), pos)
			}
		}
	}
	s.assume(goal)
}
func (e *Eng) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
}

// ---- values

func (e *Eng) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrL(constant.StringVal(c.Value))
	case constant.Int:
		if sortOf(t) == SFloat {
			return fconst(c.Value)
		}
		b, ok := constant.Val(c.Value).(*big.Int)
		if !ok {
			i, _ := constant.Int64Val(c.Value)
			b = big.NewInt(i)
		}
		if sortOf(t) == SStr {
			return StrL(string(rune(b.Int64())))
		}
		return IntB(b)
	case constant.Float:
		return fconst(c.Value)
	}
	unsup("constant %s", c)
	return nil
}
func fconst(v constant.Value) *Term {
	if f, ok := constant.Float64Val(v); ok && f == 0 {
		return Var("f64zero", SFloat)
	}
	return Var("f64:"+v.ExactString(), SFloat)
}

func (e *Eng) get(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return ClosureV{Fn: x}
	case *ssa.Builtin:
		return ClosureV{Spec: "builtin:" + x.Name()}
	case *ssa.Global:
		return PtrV{Elem: x.Type().(*types.Pointer).Elem(), Cell: e.globalCell(st, x)}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}
func (e *Eng) term(fr *Frame, st *State, v ssa.Value) *Term {
	return e.toTerm(st, e.get(fr, st, v))
}

// ---- function execution

func fullName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/breml/logstash-config/", "")
	s = strings.ReplaceAll(s, "github.com/breml/logstash-config", "config")
	return s
}

func (e *Eng) isRepo(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil && f.Parent() != nil {
		return e.isRepo(f.Parent())
	}
	if p == nil { // synthetic wrappers
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), "github.com/breml/")
		}
		return false
	}
	return e.repoPkgs[p]
}

// execFunc runs a function body on all paths.
func (e *Eng) execFunc(st *State, fn *ssa.Function, args []Val, binds []Val, use *useCtx) []arrival {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 40 {
		unsup("call depth exceeded at %s (recursion without a contract?)", fullName(fn))
	}
	if e.isRepo(fn) && !strings.Contains(fn.Name(), "vc") {
		e.covered[fullName(fn)] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loop: map[*ssa.BasicBlock]*loopCtx{}, use: use}
	fr.spec = strings.HasPrefix(fn.Name(), "vc") || e.pure > 0
	if fn.Parent() != nil && strings.HasPrefix(fn.Parent().Name(), "vc") {
		fr.spec = true
	}
	if len(args) != len(fn.Params) {
		unsup("arity of %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = binds[i]
	}
	as := e.run(fr, st, fn.Blocks[0], nil, 0, nil)
	var out []arrival
	for _, a := range as {
		if a.kind == aPanic {
			out = append(out, e.unwind(a)...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

// unwind runs the deferred calls of a panicking frame.
func (e *Eng) unwind(a arrival) []arrival {
	fr := a.fr
	if len(fr.defers) == 0 {
		return []arrival{a}
	}
	fr.pstate = &panicState{a.pv}
	cur := []arrival{a}
	ds := fr.defers
	fr.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		var next []arrival
		for _, c := range cur {
			d := ds[i]
			f2 := c.fr.clone()
			ps := *c.fr.pstate
			f2.pstate = &ps
			for _, o := range e.callVal(f2, c.st, d.fn, d.args, d.call, f2.pstate) {
				g := f2.clone()
				p2 := *f2.pstate
				if v, ok := o.st.ghost["!recovered"]; ok && v == Val(True) {
					p2.val = nil
					o.st.ghost["!recovered"] = False
				}
				g.pstate = &p2
				if o.kind == aPanic {
					g.pstate.val = o.pv
				}
				next = append(next, arrival{st: o.st, fr: g, kind: aPanic, pv: g.pstate.val})
			}
		}
		cur = next
	}
	var out []arrival
	for _, c := range cur {
		if c.fr.pstate.val != nil {
			out = append(out, arrival{st: c.st, fr: c.fr, kind: aPanic, pv: c.fr.pstate.val})
			continue
		}
		// recovered: results come from the named result cells
		if c.fr.fn.Recover != nil {
			out = append(out, e.run(c.fr, c.st, c.fr.fn.Recover, nil, 0, nil)...)
		} else {
			out = append(out, arrival{st: c.st, fr: c.fr, kind: aRet})
		}
	}
	return out
}

// run executes from instruction idx of block b.
func (e *Eng) run(fr *Frame, st *State, b, prev *ssa.BasicBlock, idx int, stop stopFn) []arrival {
	for {
		if st.dead {
			return nil
		}
		e.steps++
		if e.steps > maxSteps {
			unsup("step limit")
		}
		if idx == 0 {
			// phis
			var vals []Val
			n := 0
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				n++
				for i, p := range b.Preds {
					if p == prev {
						vals = append(vals, e.get(fr, st, ph.Edges[i]))
						break
					}
				}
			}
			for i := 0; i < n; i++ {
				fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
			}
			idx = n
		}
		for ; idx < len(b.Instrs); idx++ {
			in := b.Instrs[idx]
			switch x := in.(type) {
			case *ssa.If:
				c := st.decide(e.term(fr, st, x.Cond))
				if c == True || c == False {
					k := 0
					if c == False {
						k = 1
					}
					return e.edge(fr, st, b, b.Succs[k], stop)
				}
				if fr.use != nil && fr.use.h.lemma {
					if j := e.proofRegion(fr.fn, b); j != nil {
						return e.edge(fr, st, b, j, stop)
					}
				}
				if as, ok := e.tryMerge(fr, st, b, stop); ok {
					return as
				}
				st2, fr2 := st.clone(), fr.clone()
				st.assume(c)
				r := e.edge(fr, st, b, b.Succs[0], stop)
				st2.assume(Not(c))
				return append(r, e.edge(fr2, st2, b, b.Succs[1], stop)...)
			case *ssa.Jump:
				return e.edge(fr, st, b, b.Succs[0], stop)
			case *ssa.Return:
				var vs []Val
				for _, r := range x.Results {
					vs = append(vs, e.get(fr, st, r))
				}
				e.paths++
				return []arrival{{st: st, fr: fr, kind: aRet, vals: vs}}
			case *ssa.Panic:
				pv := e.get(fr, st, x.X)
				if t, ok := pv.(*Term); ok && t.sort == SAny {
					if c := st.decide(Eq(Tag(t), Int(0))); c != False {
						nv := Fresh("panicnil", SAny)
						st.assume(Not(Eq(Tag(nv), Int(0))))
						pv = Ite(c, nv, t)
					}
				}
				return []arrival{{st: st, fr: fr, kind: aPanic, pv: pv}}
			case *ssa.RunDefers:
				if len(fr.defers) == 0 {
					continue
				}
				ds := fr.defers
				fr.defers = nil
				cur := []arrival{{st: st, fr: fr}}
				var pans []arrival
				for i := len(ds) - 1; i >= 0; i-- {
					var next []arrival
					for _, c := range cur {
						for _, o := range e.callVal(c.fr, c.st, ds[i].fn, ds[i].args, ds[i].call, nil) {
							f2 := c.fr.clone()
							if o.kind == aPanic {
								f2.defers = append([]deferred{}, ds[:i]...)
								pans = append(pans, arrival{st: o.st, fr: f2, kind: aPanic, pv: o.pv})
								continue
							}
							next = append(next, arrival{st: o.st, fr: f2})
						}
					}
					cur = next
				}
				var out []arrival
				out = append(out, pans...)
				for _, c := range cur {
					out = append(out, e.run(c.fr, c.st, b, prev, idx+1, stop)...)
				}
				return out
			case *ssa.Defer:
				d := deferred{call: &x.Call}
				d.fn, d.args = e.callee(fr, st, &x.Call)
				fr.defers = append(fr.defers, d)
			case *ssa.Call:
				fn, args := e.callee(fr, st, &x.Call)
				outs := e.callVal(fr, st, fn, args, &x.Call, nil)
				if len(outs) == 1 && outs[0].kind == aRet {
					st = outs[0].st
					e.setResult(fr, x, outs[0].vals)
					continue
				}
				var out []arrival
				for i, o := range outs {
					f2 := fr
					if i < len(outs)-1 {
						f2 = fr.clone()
					}
					if o.kind == aPanic {
						out = append(out, arrival{st: o.st, fr: f2, kind: aPanic, pv: o.pv})
						continue
					}
					e.setResult(f2, x, o.vals)
					out = append(out, e.run(f2, o.st, b, prev, idx+1, stop)...)
				}
				return out
			case *ssa.TypeAssert:
				if as, forked := e.typeAssert(fr, st, x, b, prev, idx, stop); forked {
					return as
				}
			default:
				if e.step(func() { e.instr(fr, st, in) }) {
					return nil
				}
			}
			if st.dead {
				return nil
			}
		}
		unsup("fell off block in %s", fr.fn)
	}
}

func (e *Eng) setResult(fr *Frame, x *ssa.Call, vals []Val) {
	if tt, ok := x.Type().(*types.Tuple); ok {
		if tt.Len() == 0 {
			return
		}
		fr.env[x] = TupleV(vals)
		return
	}
	if len(vals) == 1 {
		fr.env[x] = vals[0]
		return
	}
	if len(vals) == 0 {
		unsup("no result from %s", x)
	}
	fr.env[x] = TupleV(vals)
}

// edge transfers control to a block.
func (e *Eng) edge(fr *Frame, st *State, from, to *ssa.BasicBlock, stop stopFn) []arrival {
	if st.dead {
		return nil
	}
	if stop != nil && stop(from, to) {
		return []arrival{{st: st, fr: fr, kind: aStop, prev: from, block: to}}
	}
	li := e.loopInfoOf(fr.fn)
	if l, ok := li.byHead[to]; ok {
		if l.body[from] { // back edge
			if ctx := fr.loop[to]; ctx != nil {
				e.backEdge(fr, st, ctx, from)
				return nil
			}
			unsup("loop in specification code %s", fr.fn)
		}
		if e.pure > 0 {
			unsup("loop in specification code %s", fr.fn)
		}
		return e.enterLoop(fr, st, l, from, stop)
	}
	return e.run(fr, st, to, from, 0, stop)
}

// ---- merging of side-effect-free regions

func (e *Eng) tryMerge(fr *Frame, st *State, b *ssa.BasicBlock, stop stopFn) ([]arrival, bool) {
	if e.pure > 0 {
		return nil, false // pure mode merges at the end
	}
	j := e.ipdom(fr.fn, b)
	if j == nil || len(j.Instrs) == 0 {
		return nil, false
	}
	if _, ok := j.Instrs[0].(*ssa.Phi); !ok && !fr.spec {
		return nil, false
	}
	// region blocks
	region := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == j || region[x] {
			return true
		}
		if x == b {
			return false
		}
		region[x] = true
		if len(region) > 24 {
			return false
		}
		for _, in := range x.Instrs {
			if !e.pureInstr(in, fr.spec) {
				return false
			}
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	for _, s := range b.Succs {
		if !walk(s) {
			return nil, false
		}
	}
	if li := e.loopInfoOf(fr.fn); li.byHead[j] != nil {
		return nil, false
	}
	for x := range region {
		if li := e.loopInfoOf(fr.fn); li.byHead[x] != nil {
			return nil, false
		}
	}
	phis := phisOf(j)
	base := len(st.pc)
	mergedEnv, ok := func() (res []Val, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(Unsupported); is {
					res, ok = nil, false
					return
				}
				panic(r)
			}
		}()
		as := e.pureArrivals(fr, st, b, func(prev, next *ssa.BasicBlock) bool { return next == j })
		if len(as) == 0 {
			return nil, false
		}
		for _, ph := range phis {
			var v Val
			for i := len(as) - 1; i >= 0; i-- {
				a := as[i]
				if a.kind != aStop {
					return nil, false
				}
				var pv Val
				for k, p := range j.Preds {
					if p == a.prev {
						pv = e.get(a.fr, a.st, ph.Edges[k])
					}
				}
				if v == nil {
					v = pv
					continue
				}
				v, ok = e.mergeVal(st, And(dropFacts(a.st.pc[base:], e.lastFacts)...), pv, v)
				if !ok {
					return nil, false
				}
			}
			res = append(res, v)
		}
		return res, true
	}()
	if !ok {
		return nil, false
	}
	for i, ph := range phis {
		fr.env[ph] = mergedEnv[i]
	}
	if stop != nil && stop(b, j) {
		return nil, false
	}
	return e.run(fr, st, j, b, len(phis), stop), true
}

// proofRegion: the join of a branch that holds nothing but proof steps.
func (e *Eng) proofRegion(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	j := e.ipdom(fn, b)
	if j == nil || len(phisOf(j)) > 0 {
		return nil
	}
	seen := map[*ssa.BasicBlock]bool{j: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		for _, in := range x.Instrs {
			switch y := in.(type) {
			case *ssa.Store, *ssa.Return, *ssa.Panic, *ssa.MapUpdate:
				return false
			case *ssa.Call:
				if f := y.Call.StaticCallee(); f != nil && e.isVC(f) && (f.Name() == "Requires" || f.Name() == "Ensures" || f.Name() == "Decreases" || f.Name() == "Assume" || f.Name() == "Assert") {
					return false
				}
			}
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	for _, s := range b.Succs {
		if !walk(s) {
			return nil
		}
	}
	return j
}

// pureArrivals runs the two arms of b's If in pure mode.
func (e *Eng) pureArrivals(fr *Frame, st *State, b *ssa.BasicBlock, stop stopFn) []arrival {
	var facts []*Term
	save := e.factLog
	e.factLog = &facts
	e.pure++
	s2 := st.clone()
	s2.allowB = true
	f2 := fr.clone()
	as := e.run(f2, s2, b, nil, len(b.Instrs)-1, stop)
	e.pure--
	e.factLog = save
	e.lastFacts = facts
	for _, f := range facts {
		e.fact(st, f)
	}
	return as
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	return r
}

func (e *Eng) pureInstr(in ssa.Instruction, spec bool) bool {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.BinOp, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Extract, *ssa.DebugRef:
		if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.QUO || bo.Op == token.REM) && !spec {
			return false
		}
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return spec || isAllocOrGlobal(x.X)
		}
		return x.Op != token.ARROW
	case *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.Slice, *ssa.Lookup, *ssa.MakeInterface, *ssa.Convert, *ssa.MakeClosure:
		if mi, ok := in.(*ssa.MakeInterface); ok && !spec {
			_, isC := mi.X.(*ssa.Const)
			return isC
		}
		return spec
	case *ssa.TypeAssert:
		return spec
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
		if !spec {
			return false
		}
		if f := x.Call.StaticCallee(); f != nil {
			n := f.Name()
			if strings.HasPrefix(n, "vcspec") || strings.HasPrefix(n, "Vcspec_") || strings.HasPrefix(n, "Vcuf_") || strings.HasPrefix(n, "vcpred") || e.isVC(f) && (n == "Forall" || n == "Exists" || n == "Implies") {
				return true
			}
			if e.isVC(f) {
				switch f.Name() {
				case "Requires", "Ensures", "Assert", "Assume", "Ghost", "Unique", "Decreases", "Cover":
					return false
				}
				return true
			}
			if m, ok := models[fullName(f)]; ok && m.pure {
				return true
			}
		}
	}
	return false
}
func isAllocOrGlobal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return true
	}
	return false
}
func (e *Eng) isVC(f *ssa.Function) bool {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.Pkg != nil && f.Pkg.Pkg.Path() == e.vcPath
}

// evalPure evaluates a specification function or closure to one value.
func (e *Eng) evalPure(st *State, fn *ssa.Function, args, binds []Val) Val {
	var facts []*Term
	save := e.factLog
	e.factLog = &facts
	e.pure++
	s2 := st.clone()
	s2.allowB = true
	base := len(s2.pc)
	as := e.execFunc(s2, fn, args, binds, nil)
	e.pure--
	e.factLog = save
	for _, f := range facts {
		e.fact(st, f)
	}
	if len(as) == 0 {
		unsup("specification %s has no outcome", fn)
	}
	var v Val
	for i := len(as) - 1; i >= 0; i-- {
		a := as[i]
		if a.kind != aRet {
			continue
		}
		var r Val = TupleV(a.vals)
		if len(a.vals) == 1 {
			r = a.vals[0]
		}
		if v == nil {
			v = r
			continue
		}
		// only branch conditions matter; facts are true anyway
		var ok bool
		v, ok = e.mergeVal(st, And(dropFacts(a.st.pc[base:], facts)...), r, v)
		if !ok {
			unsup("cannot merge results of %s (%T, %T)", fn, r, v)
		}
	}
	if v == nil {
		unsup("specification %s never returns", fn)
	}
	return v
}
func dropFacts(pc, facts []*Term) []*Term {
	m := map[*Term]bool{}
	for _, f := range facts {
		m[f] = true
		if f.op == OAnd {
			for _, a := range f.args {
				m[a] = true
			}
		}
	}
	var r []*Term
	for _, t := range pc {
		if !m[t] {
			r = append(r, t)
		}
	}
	return r
}

// ---- instructions

func (e *Eng) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		ty := x.Type().(*types.Pointer).Elem()
		c := e.newCell(st, e.zero(ty))
		e.cellType[c] = ty
		fr.env[x] = PtrV{Elem: ty, Cell: c}
	case *ssa.BinOp:
		fr.env[x] = e.binop(fr, st, x)
	case *ssa.UnOp:
		fr.env[x] = e.unop(fr, st, x)
	case *ssa.ChangeInterface:
		fr.env[x] = e.get(fr, st, x.X)
		if t, ok := fr.env[x].(*Term); ok && hasMethod(x.X.Type(), "Error") {
			errTyped[t] = true
		} else if ok && e.bodies[ifaceKey(x.X.Type(), "String")] != nil {
			strTyped[t] = ifaceKey(x.X.Type(), "String")
		}
	case *ssa.ChangeType:
		v := e.get(fr, st, x.X)
		switch y := v.(type) {
		case StructV:
			y.T = x.Type()
			v = y
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = e.convert(st, e.get(fr, st, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MakeInterface:
		fr.env[x] = IfaceV{x.X.Type(), e.get(fr, st, x.X)}
	case *ssa.MakeClosure:
		c := ClosureV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.Binds = append(c.Binds, e.get(fr, st, b))
		}
		fr.env[x] = c
	case *ssa.MakeSlice:
		el := under(x.Type()).(*types.Slice).Elem()
		l, c := e.term(fr, st, x.Len), e.term(fr, st, x.Cap)
		e.check(st, "make-len", And(Le(Int(0), l), Le(l, c)), x.Pos())
		r := e.newRef(st)
		k := elemKey(el)
		z := e.toTerm(st, e.zero(el))
		h := e.H(st, k, elemSort(el))
		st.heap[k] = Store(h, r, ConstArr(ArrSort(z.sort), z))
		fr.env[x] = SliceV{Elem: el, Ref: r, Off: Int(0), Len: l, Cap: c}
	case *ssa.MakeMap:
		r := e.newRef(st)
		mt := under(x.Type()).(*types.Map)
		dk, vk, ks, vs := mapKeys(mt)
		st.heap[dk] = Store(e.H(st, dk, ArrSort(ArrSortK(ks, SBool))), r, ConstArr(ArrSortK(ks, SBool), False))
		_ = vk
		_ = vs
		fr.env[x] = r
	case *ssa.MapUpdate:
		mt := under(x.Map.Type()).(*types.Map)
		e.mapUpdate(st, mt, e.term(fr, st, x.Map), e.term(fr, st, x.Key), e.term(fr, st, x.Value), x.Pos())
	case *ssa.Lookup:
		if _, ok := under(x.X.Type()).(*types.Map); !ok {
			s, i := e.term(fr, st, x.X), e.term(fr, st, x.Index)
			e.check(st, "index", And(Le(Int(0), i), Lt(i, Len(s))), x.Pos())
			fr.env[x] = At(s, i)
			return
		}
		mt := under(x.X.Type()).(*types.Map)
		m, k := e.term(fr, st, x.X), e.term(fr, st, x.Index)
		dk, vk, ks, vs := mapKeys(mt)
		in := And(Not(Eq(m, Int(0))), Select(Select(e.H(st, dk, ArrSort(ArrSortK(ks, SBool))), m), k))
		val := Select(Select(e.H(st, vk, ArrSort(ArrSortK(ks, vs))), m), k)
		zt := e.toTerm(st, e.zero(mt.Elem()))
		v := e.fromTerm(st, Ite(in, val, zt), mt.Elem())
		if x.CommaOk {
			fr.env[x] = TupleV{v, in}
		} else {
			fr.env[x] = v
		}
	case *ssa.Field:
		v := e.get(fr, st, x.X)
		switch s := v.(type) {
		case StructV:
			fr.env[x] = s.F[x.Field]
		default:
			unsup("field of %T", v)
		}
	case *ssa.FieldAddr:
		p := e.ptr(fr, st, x.X, x.Pos())
		stt := under(x.X.Type()).(*types.Pointer).Elem()
		p = e.resolve(st, p)
		p.Path = append(append([]step{}, p.Path...), step{field: x.Field, T: stt})
		p.Elem = under(stt).(*types.Struct).Field(x.Field).Type()
		fr.env[x] = p
	case *ssa.Index:
		v := e.get(fr, st, x.X)
		i := e.term(fr, st, x.Index)
		if s, ok := v.(*Term); ok && s.sort == SStr {
			e.check(st, "index", And(Le(Int(0), i), Lt(i, Len(s))), x.Pos())
			fr.env[x] = At(s, i)
			return
		}
		at := under(x.X.Type()).(*types.Array)
		e.check(st, "index", And(Le(Int(0), i), Lt(i, Int(at.Len()))), x.Pos())
		fr.env[x] = e.getPath(st, v, []step{{idx: i, T: x.X.Type()}})
	case *ssa.IndexAddr:
		fr.env[x] = e.indexAddr(fr, st, x)
	case *ssa.Slice:
		fr.env[x] = e.slice(fr, st, x)
	case *ssa.Store:
		p := e.ptr(fr, st, x.Addr, x.Pos())
		e.store(st, p, e.get(fr, st, x.Val))
	case *ssa.Extract:
		t := e.get(fr, st, x.Tuple).(TupleV)
		fr.env[x] = t[x.Index]
	case *ssa.Range:
		it := IterV{}
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			it.MT = mt
			it.Map = e.term(fr, st, x.X)
		} else {
			it.Str = e.term(fr, st, x.X)
			it.Cell = e.newCell(st, Int(0))
			e.cellType[it.Cell] = types.Typ[types.Int]
		}
		fr.env[x] = it
	case *ssa.Next:
		it := e.get(fr, st, x.Iter).(IterV)
		if it.MT != nil {
			ok := Fresh("next.ok", SBool)
			k := e.freshVal(st, it.MT.Key(), "next.k")
			v := e.freshVal(st, it.MT.Elem(), "next.v")
			dk, vk, ks, vs := mapKeys(it.MT)
			kt := e.toTerm(st, k)
			st.assume(Imp(ok, And(Not(Eq(it.Map, Int(0))), Select(Select(e.H(st, dk, ArrSort(ArrSortK(ks, SBool))), it.Map), kt))))
			st.assume(Imp(ok, Eq(e.toTerm(st, v), Select(Select(e.H(st, vk, ArrSort(ArrSortK(ks, vs))), it.Map), kt))))
			fr.env[x] = TupleV{ok, k, v}
			return
		}
		pos := st.cells[it.Cell].(*Term)
		ok := Lt(pos, Len(it.Str))
		rest := SubStr(it.Str, pos, Len(it.Str))
		r, w := runeOf(rest), runeWidth(rest)
		e.runeFacts(st, rest)
		st.cells[it.Cell] = Ite(ok, Add(pos, w), pos)
		fr.env[x] = TupleV{ok, pos, r}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		unsup("concurrency in %s", fr.fn)
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
}

func mapKeys(mt *types.Map) (dk, vk string, ks, vs Sort) {
	ks, vs = sortOf(mt.Key()), sortOf(mt.Elem())
	n := typeName(mt)
	return "MD:" + n, "MV:" + n, ks, vs
}
func (e *Eng) mapUpdate(st *State, mt *types.Map, m, k, v *Term, pos token.Pos) {
	e.check(st, "nil-map", Not(Eq(m, Int(0))), pos)
	dk, vk, ks, vs := mapKeys(mt)
	d := e.H(st, dk, ArrSort(ArrSortK(ks, SBool)))
	e.setH(st, dk, m, Store(d, m, Store(Select(d, m), k, True)))
	h := e.H(st, vk, ArrSort(ArrSortK(ks, vs)))
	e.setH(st, vk, m, Store(h, m, Store(Select(h, m), k, v)))
}

// ptr evaluates a pointer operand with its nil check.
func (e *Eng) ptr(fr *Frame, st *State, v ssa.Value, pos token.Pos) PtrV {
	x := e.get(fr, st, v)
	p, ok := x.(PtrV)
	if !ok {
		unsup("pointer expected, got %T for %s", x, v)
	}
	if p.Nil {
		e.check(st, "nil-deref", False, pos)
		st.dead = true
		panic(deadPath{})
	}
	if p.Cell == 0 && !p.IsElem && len(p.Path) == 0 {
		e.check(st, "nil-deref", Not(Eq(p.Ref, Int(0))), pos)
	}
	return p
}

type deadPath struct{}

// step runs f, reporting whether the path died in it.
func (e *Eng) step(f func()) (dead bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadPath); ok {
				dead = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

func (e *Eng) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) Val {
	i := e.term(fr, st, x.Index)
	if pt, ok := under(x.X.Type()).(*types.Pointer); ok {
		at := under(pt.Elem()).(*types.Array)
		p := e.ptr(fr, st, x.X, x.Pos())
		e.check(st, "index", And(Le(Int(0), i), Lt(i, Int(at.Len()))), x.Pos())
		p.Path = append(append([]step{}, p.Path...), step{idx: i, T: pt.Elem()})
		p.Elem = at.Elem()
		return e.resolve(st, p)
	}
	s, ok := e.get(fr, st, x.X).(SliceV)
	if !ok {
		unsup("indexaddr of %T", e.get(fr, st, x.X))
	}
	e.check(st, "index", And(Le(Int(0), i), Lt(i, s.Len)), x.Pos())
	return e.elemPtr(st, s, i)
}
func (e *Eng) elemPtr(st *State, s SliceV, i *Term) PtrV {
	a := Add(s.Off, i)
	if s.Cell > 0 {
		if fw, ok := st.cells[s.Cell].(FwdV); ok {
			return PtrV{Elem: s.Elem, IsElem: true, Ref: fw.Ref, Idx: a, Base: s.Elem}
		}
		return PtrV{Elem: s.Elem, Cell: s.Cell, Path: []step{{idx: a, T: e.cellType[s.Cell]}}}
	}
	return PtrV{Elem: s.Elem, IsElem: true, Ref: s.Ref, Idx: a, Base: s.Elem, Frozen: s.Frozen}
}

func (e *Eng) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	v := e.get(fr, st, x.X)
	lo := Int(0)
	if x.Low != nil {
		lo = e.term(fr, st, x.Low)
	}
	if t, ok := v.(*Term); ok && t.sort == SStr {
		hi := Len(t)
		if x.High != nil {
			hi = e.term(fr, st, x.High)
		}
		e.check(st, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(t))), x.Pos())
		return SubStr(t, lo, hi)
	}
	if s, ok := v.(SliceV); ok {
		hi := s.Len
		if x.High != nil {
			hi = e.term(fr, st, x.High)
		}
		mx := s.Cap
		if x.Max != nil {
			mx = e.term(fr, st, x.Max)
		}
		e.check(st, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.Cap)), x.Pos())
		n := s
		n.Off = Add(s.Off, lo)
		n.Len = Sub(hi, lo)
		n.Cap = Sub(mx, lo)
		return n
	}
	p, ok := v.(PtrV)
	if !ok {
		unsup("slice of %T", v)
	}
	at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
	hi := Int(at.Len())
	if x.High != nil {
		hi = e.term(fr, st, x.High)
	}
	mx := Int(at.Len())
	if x.Max != nil {
		mx = e.term(fr, st, x.Max)
	}
	e.check(st, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, Int(at.Len()))), x.Pos())
	p = e.resolve(st, p)
	if p.Cell > 0 && len(p.Path) == 0 {
		return SliceV{Elem: at.Elem(), Cell: p.Cell, Ref: Int(-1), Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo)}
	}
	if p.Cell == 0 && !p.IsElem && len(p.Path) == 0 {
		return SliceV{Elem: at.Elem(), Ref: p.Ref, Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo)}
	}
	unsup("slice of an embedded array")
	return nil
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func wrap(t types.Type, v *Term) *Term {
	b, ok := under(t).(*types.Basic)
	if !ok || v.op == OInt && v.i.Sign() >= 0 && v.i.IsInt64() && v.i.Int64() < 128 {
		return v
	}
	switch b.Kind() {
	case types.Uint8:
		return Ite(Lt(v, Int(0)), Add(v, Int(256)), Ite(Gt(v, Int(255)), Sub(v, Int(256)), v))
	}
	return v
}

func (e *Eng) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := e.get(fr, st, x.X), e.get(fr, st, x.Y)
	return e.binopV(st, x.Op, a, b, x.X.Type(), x.Type(), x.Pos())
}
func (e *Eng) binopV(st *State, op token.Token, a, b Val, ty, rt types.Type, pos token.Pos) Val {
	if op == token.EQL || op == token.NEQ {
		t := e.equal(st, a, b, ty)
		if op == token.NEQ {
			t = Not(t)
		}
		return t
	}
	s, t := e.toTerm(st, a), e.toTerm(st, b)
	switch s.sort {
	case SStr:
		switch op {
		case token.ADD:
			return Cat(s, t)
		case token.LSS:
			return App("strlt", SBool, s, t)
		case token.GTR:
			return App("strlt", SBool, t, s)
		case token.LEQ:
			return Not(App("strlt", SBool, t, s))
		case token.GEQ:
			return Not(App("strlt", SBool, s, t))
		}
	case SInt:
		switch op {
		case token.ADD:
			return wrap(rt, Add(s, t))
		case token.SUB:
			return wrap(rt, Sub(s, t))
		case token.MUL:
			return wrap(rt, Mul(s, t))
		case token.LSS:
			return Lt(s, t)
		case token.LEQ:
			return Le(s, t)
		case token.GTR:
			return Gt(s, t)
		case token.GEQ:
			return Ge(s, t)
		}
		if s.op == OInt && t.op == OInt && s.i.IsInt64() && t.i.IsInt64() {
			p, q := s.i.Int64(), t.i.Int64()
			switch op {
			case token.AND:
				return Int(p & q)
			case token.OR:
				return Int(p | q)
			case token.XOR:
				return Int(p ^ q)
			case token.SHL:
				return Int(p << uint(q))
			case token.SHR:
				return Int(p >> uint(q))
			case token.AND_NOT:
				return Int(p &^ q)
			case token.QUO:
				if q != 0 {
					return Int(p / q)
				}
			case token.REM:
				if q != 0 {
					return Int(p % q)
				}
			}
		}
		if op == token.QUO || op == token.REM {
			e.check(st, "div-zero", Not(Eq(t, Int(0))), pos)
			if t.op == OInt && t.i.Sign() > 0 {
				return App(map[token.Token]string{token.QUO: "quo", token.REM: "rem"}[op], SInt, s, t)
			}
		}
		return App("int"+op.String(), SInt, s, t)
	case SBool:
		switch op {
		case token.AND:
			return And(s, t)
		case token.OR:
			return Or(s, t)
		}
	case SFloat:
		switch op {
		case token.LSS:
			return App("flt", SBool, s, t)
		case token.GTR:
			return App("flt", SBool, t, s)
		case token.LEQ:
			return App("fle", SBool, s, t)
		case token.GEQ:
			return App("fle", SBool, t, s)
		}
		return App("f"+op.String(), SFloat, s, t)
	}
	unsup("binop %s on %s", op, s.sort)
	return nil
}
func (e *Eng) equal(st *State, a, b Val, ty types.Type) *Term {
	// identity of cells
	if p, ok := a.(PtrV); ok {
		q, ok2 := b.(PtrV)
		if ok2 {
			if p.Nil && q.Nil {
				return True
			}
			if p.Nil || q.Nil {
				r := p
				if p.Nil {
					r = q
				}
				if r.Cell > 0 || r.IsElem || len(r.Path) > 0 {
					return False
				}
				return Eq(r.Ref, Int(0))
			}
			if p.Cell > 0 && q.Cell > 0 && len(p.Path) == 0 && len(q.Path) == 0 {
				return Bool(p.Cell == q.Cell)
			}
		}
	}
	if c, ok := a.(ClosureV); ok {
		if t, ok := b.(*Term); ok && t == Int(0) {
			return False
		}
		_ = c
	}
	if _, ok := b.(ClosureV); ok {
		if t, ok := a.(*Term); ok && t == Int(0) {
			return False
		}
	}
	if s, ok := a.(SliceV); ok { // comparison with nil
		if u, ok := b.(SliceV); ok {
			if u.Ref == Int(0) {
				return e.sliceNil(s)
			}
			if s.Ref == Int(0) {
				return e.sliceNil(u)
			}
		}
		unsup("slice comparison")
	}
	if x, ok := a.(IfaceV); ok {
		if y, ok := b.(IfaceV); ok {
			if !types.Identical(x.T, y.T) {
				return False
			}
			return e.equal(st, x.V, y.V, x.T)
		}
		if y, ok := b.(*Term); ok && y == NilAny {
			return False
		}
	}
	if y, ok := b.(IfaceV); ok {
		_ = y
		if x, ok := a.(*Term); ok && x == NilAny {
			return False
		}
	}
	if x, ok := a.(StructV); ok {
		if y, ok := b.(StructV); ok {
			var cs []*Term
			for i := range x.F {
				cs = append(cs, e.equal(st, x.F[i], y.F[i], under(x.T).(*types.Struct).Field(i).Type()))
			}
			return And(cs...)
		}
	}
	s, t := e.toTerm(st, a), e.toTerm(st, b)
	if s.sort == SFloat {
		return App("feq", SBool, s, t)
	}
	if s.sort == SAny && (s == NilAny || t == NilAny) {
		u := s
		if u == NilAny {
			u = t
		}
		return Eq(Tag(u), Int(0))
	}
	return Eq(s, t)
}
func (e *Eng) sliceNil(s SliceV) *Term {
	if s.Cell > 0 {
		return False
	}
	if s.Frozen != nil {
		unsup("nil test on snapshot")
	}
	return Eq(s.Ref, Int(0))
}

func (e *Eng) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		p := e.ptr(fr, st, x.X, x.Pos())
		return e.load(st, p)
	case token.NOT:
		return Not(e.term(fr, st, x.X))
	case token.SUB:
		t := e.term(fr, st, x.X)
		if t.sort == SFloat {
			return App("fneg", SFloat, t)
		}
		return wrap(x.Type(), Sub(Int(0), t))
	case token.XOR:
		t := e.term(fr, st, x.X)
		return App("intnot", SInt, t)
	}
	unsup("unop %s", x.Op)
	return nil
}

func isBytes(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRunes(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (e *Eng) row(st *State, s SliceV) *Term {
	if s.Frozen != nil {
		return s.Frozen
	}
	if s.Cell > 0 {
		if fw, ok := st.cells[s.Cell].(FwdV); ok {
			return Select(e.H(st, elemKey(s.Elem), elemSort(s.Elem)), fw.Ref)
		}
		return e.toTerm(st, st.cells[s.Cell])
	}
	return Select(e.H(st, elemKey(s.Elem), elemSort(s.Elem)), s.Ref)
}
func (e *Eng) bytesToStr(st *State, s SliceV) *Term {
	row := e.row(st, s)
	r := App("bytes2str", SStr, row, s.Off, s.Len)
	return r
}
func (e *Eng) newBytes(st *State, content, n *Term) SliceV {
	r := e.newRef(st)
	k := "E:byte"
	st.heap[k] = Store(e.H(st, k, ArrSort(ArrSort(SInt))), r, content)
	c := Fresh("cap", SInt)
	st.assume(Le(n, c))
	return SliceV{Elem: types.Typ[types.Byte], Ref: r, Off: Int(0), Len: n, Cap: c}
}

func (e *Eng) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SStr && ts == SStr:
		return v
	case isBytes(from) && ts == SStr:
		return e.bytesToStr(st, v.(SliceV))
	case fs == SStr && isBytes(to):
		s := e.toTerm(st, v)
		if e.pure > 0 {
			return SliceV{Elem: types.Typ[types.Byte], Frozen: App("s2b", ArrSort(SInt), s), Ref: Int(-1), Off: Int(0), Len: Len(s), Cap: Len(s)}
		}
		sl := e.newBytes(st, App("s2b", ArrSort(SInt), s), Len(s))
		return sl
	case fs == SInt && ts == SStr:
		t := e.toTerm(st, v)
		return e.runeToStr(st, t)
	case fs == SInt && ts == SInt:
		t := e.toTerm(st, v)
		bf, ok1 := under(from).(*types.Basic)
		bt, ok2 := under(to).(*types.Basic)
		if ok1 && ok2 {
			if t.op == OInt {
				return t
			}
			if sizeOf(bt) < sizeOf(bf) || (bt.Info()&types.IsUnsigned != 0) != (bf.Info()&types.IsUnsigned != 0) && bf.Info()&types.IsUnsigned == 0 {
				// narrowing or sign change: exact when in range
				lo, hi := rangeOf(bt)
				r := App("conv_"+bt.Name(), SInt, t)
				in := And(Le(lo, t), Le(t, hi))
				if st != nil && st.decide(in) == True {
					return t
				}
				e.fact(st, Imp(in, Eq(r, t)))
				e.fact(st, And(Le(lo, r), Le(r, hi)))
				return r
			}
		}
		return t
	case fs == SFloat && ts == SFloat:
		return v
	case fs == SInt && ts == SFloat:
		return App("int2f", SFloat, e.toTerm(st, v))
	case fs == SFloat && ts == SInt:
		return App("f2int", SInt, e.toTerm(st, v))
	case isRunes(to) && fs == SStr, isRunes(from) && ts == SStr:
		unsup("rune slice conversion")
	}
	return v
}
func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}
func rangeOf(b *types.Basic) (*Term, *Term) {
	n := uint(sizeOf(b) * 8)
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return Int(0), IntB(new(big.Int).Sub(new(big.Int).Lsh(one, n), one))
	}
	h := new(big.Int).Lsh(one, n-1)
	return IntB(new(big.Int).Neg(h)), IntB(new(big.Int).Sub(h, one))
}

// ---- runes

func runeWidth(s *Term) *Term {
	if s.op == OStrL && len(s.name) > 0 {
		_, w := decodeRune(s.name)
		return Int(int64(w))
	}
	if s.op == OCat && s.args[0].op == OStrL && s.args[0].name[0] < 0x80 {
		return Int(1)
	}
	return App("runeWidth", SInt, s)
}
func runeOf(s *Term) *Term {
	if s.op == OStrL && len(s.name) > 0 {
		r, _ := decodeRune(s.name)
		return Int(int64(r))
	}
	if s.op == OCat && s.args[0].op == OStrL && s.args[0].name[0] < 0x80 {
		return Int(int64(s.args[0].name[0]))
	}
	return App("runeOf", SInt, s)
}

// runeFacts: the contract assumed for UTF-8 decoding of the first rune.
func (e *Eng) runeFacts(st *State, s *Term) {
	r, w := runeOf(s), runeWidth(s)
	if r.op == OInt {
		return
	}
	e.assumed["utf8.DecodeRune"] = true
	ne := Gt(Len(s), Int(0))
	e.fact(st, Imp(Not(ne), And(Eq(r, Int(0xFFFD)), Eq(w, Int(0)))))
	e.fact(st, Imp(ne, And(Le(Int(1), w), Le(w, Int(4)), Le(w, Len(s)))))
	e.fact(st, Imp(And(ne, Lt(At(s, Int(0)), Int(128))), And(Eq(r, At(s, Int(0))), Eq(w, Int(1)))))
	e.fact(st, Imp(And(ne, Le(Int(128), At(s, Int(0)))), And(Le(Int(128), r), Le(r, Int(0x10FFFF)))))
	// every byte of a longer sequence is outside ASCII
	k := Bound("k", SInt)
	e.fact(st, Imp(And(ne, Le(Int(128), At(s, Int(0)))), Forall([]*Term{k}, Imp(And(Le(Int(0), k), Lt(k, w)), Le(Int(128), At(s, k))), []*Term{At(s, k)})))
	// a sequence with one replaced byte ... width 1 only for ASCII or invalid
	e.fact(st, Imp(And(ne, Le(Int(128), At(s, Int(0))), Eq(w, Int(1))), Eq(r, Int(0xFFFD))))
}
func (e *Eng) runeToStr(st *State, t *Term) *Term {
	if t.op == OInt {
		return StrL(string(rune(t.i.Int64())))
	}
	if st != nil && st.decide(And(Le(Int(0), t), Lt(t, Int(128)))) == True {
		return Unit(t)
	}
	r := App("runeStr", SStr, t)
	e.fact(st, Imp(And(Le(Int(0), t), Lt(t, Int(128))), Eq(r, Unit(t))))
	e.fact(st, And(Le(Int(1), Len(r)), Le(Len(r), Int(4))))
	return r
}

// ---- type assertions

func (e *Eng) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, b, prev *ssa.BasicBlock, idx int, stop stopFn) ([]arrival, bool) {
	v := e.get(fr, st, x.X)
	toI, isI := under(x.AssertedType).(*types.Interface)
	if iv, ok := v.(IfaceV); ok {
		var holds bool
		if isI {
			holds = types.Implements(iv.T, toI)
		} else {
			holds = types.Identical(iv.T, x.AssertedType)
		}
		if !x.CommaOk {
			if !holds {
				e.check(st, "type-assertion", False, x.Pos())
				return nil, true
			}
			if isI {
				fr.env[x] = iv
			} else {
				fr.env[x] = iv.V
			}
			return nil, false
		}
		if holds {
			var r Val = iv
			if !isI {
				r = iv.V
			}
			fr.env[x] = TupleV{r, True}
		} else {
			fr.env[x] = TupleV{e.zero(x.AssertedType), False}
		}
		return nil, false
	}
	t := e.toTerm(st, v)
	var cond *Term
	var val Val
	if isI {
		cond = e.implCond(st, t, toI)
		val = t
	} else {
		tag := TagOf(typeKey(x.AssertedType))
		cond = Eq(Tag(t), Int(int64(tag)))
		so := sortOf(x.AssertedType)
		val = e.fromTerm(st, Unbox(tag, so, t), x.AssertedType)
		if pv, ok := val.(PtrV); ok && e.pure == 0 && !pv.Nil {
			// pointers held in interfaces of the sealed node types are non-nil unless stated
			_ = pv
		}
	}
	if !x.CommaOk {
		e.check(st, "type-assertion", cond, x.Pos())
		fr.env[x] = val
		return nil, false
	}
	d := st.decide(cond)
	if d == True {
		fr.env[x] = TupleV{val, True}
		return nil, false
	}
	if d == False {
		fr.env[x] = TupleV{e.zero(x.AssertedType), False}
		return nil, false
	}
	if e.pure > 0 || fr.spec {
		z := e.zero(x.AssertedType)
		m, ok := e.mergeVal(st, cond, val, z)
		if !ok {
			m = val
		}
		fr.env[x] = TupleV{m, cond}
		return nil, false
	}
	// fork
	st2, fr2 := st.clone(), fr.clone()
	st.assume(cond)
	fr.env[x] = TupleV{val, True}
	r := e.run(fr, st, b, prev, idx+1, stop)
	st2.assume(Not(cond))
	fr2.env[x] = TupleV{e.zero(x.AssertedType), False}
	return append(r, e.run(fr2, st2, b, prev, idx+1, stop)...), true
}

func (e *Eng) implCond(st *State, t *Term, it *types.Interface) *Term {
	tags := e.implTags(it)
	if tags == nil {
		if it.NumMethods() == 0 {
			return Not(Eq(Tag(t), Int(0)))
		}
		c := And(Not(Eq(Tag(t), Int(0))), App("impl:"+it.String(), SBool, Tag(t)))
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() != "Error" {
				// the standard error types have no other method
				c = And(c, Not(Eq(Tag(t), Int(int64(TagOf("*errors.errorString"))))))
				break
			}
		}
		return c
	}
	var or []*Term
	for _, k := range tags {
		or = append(or, Eq(Tag(t), Int(int64(k))))
	}
	return Or(or...)
}

// implTags lists the types of the repository implementing a sealed interface
// (one declared in the repository with an unexported or node-specific method);
// nil means the interface is open.
func (e *Eng) implTags(it *types.Interface) []int {
	if it.NumMethods() == 0 {
		return nil
	}
	key := it.String()
	if r, ok := e.implMemo[key]; ok {
		return r
	}
	e.implMemo[key] = nil
	sealed := false
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if !m.Exported() {
			sealed = true
		}
	}
	for p := range e.repoPkgs {
		for _, n := range p.Pkg.Scope().Names() {
			if tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok && e.closed[typeName(tn.Type())] && types.Identical(under(tn.Type()), it) {
				sealed = true
				e.assumed["only types of the repository implement "+typeName(tn.Type())] = true
			}
		}
	}
	if !sealed {
		return nil
	}
	r := e.openImpls(it)
	if r == nil {
		r = []int{}
	}
	e.implMemo[key] = r
	return r
}

// openImpls lists the types of the repository implementing an interface.
func (e *Eng) openImpls(it *types.Interface) []int {
	var names []string
	tm := map[string]types.Type{}
	for p := range e.repoPkgs {
		if p.Pkg.Path() == e.vcPath {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := under(tn.Type()).(*types.Interface); isI {
				continue
			}
			if types.Implements(tn.Type(), it) {
				tm[typeName(tn.Type())] = tn.Type()
				names = append(names, typeName(tn.Type()))
			}
			pt := types.NewPointer(tn.Type())
			if types.Implements(pt, it) && e.ptrBoxed(pt) {
				tm[typeName(pt)] = pt
				names = append(names, typeName(pt))
			}
		}
	}
	sort.Strings(names)
	var r []int
	for _, n := range names {
		r = append(r, TagOf(typeKey(tm[n])))
	}
	return r
}

// ptrBoxed: is a pointer of this type ever put into an interface in the repository?
func (e *Eng) ptrBoxed(pt types.Type) bool {
	st, ok := under(pt.(*types.Pointer).Elem()).(*types.Struct)
	_ = st
	if !ok {
		return true
	}
	return ptrBoxedSet[typeName(pt)]
}

var ptrBoxedSet = map[string]bool{}

func collectBoxed(fns map[*ssa.Function]bool, repo func(*ssa.Function) bool) {
	for f := range fns {
		if !repo(f) || strings.HasPrefix(f.Name(), "vc") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if _, ok := mi.X.Type().(*types.Pointer); ok {
						ptrBoxedSet[typeName(mi.X.Type())] = true
					}
				}
			}
		}
	}
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("GVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
