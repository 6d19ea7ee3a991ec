package main

// Loops: cut at the header, modified sets by dry runs, invariants by Houdini.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopT struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}
type loopInfo struct {
	byHead map[*ssa.BasicBlock]*loopT
	ipdom  map[*ssa.BasicBlock]*ssa.BasicBlock
}

func (e *Eng) loopInfoOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHead: map[*ssa.BasicBlock]*loopT{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHead[s]
				if l == nil {
					l = &loopT{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHead[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// immediate post-dominators (iterative sets; functions are small)
	li.ipdom = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	n := len(fn.Blocks)
	if n <= 400 {
		pd := make([]map[int]bool, n)
		full := map[int]bool{}
		for i := 0; i < n; i++ {
			full[i] = true
		}
		for i, b := range fn.Blocks {
			if len(b.Succs) == 0 {
				pd[i] = map[int]bool{i: true}
			} else {
				pd[i] = full
			}
		}
		for ch := true; ch; {
			ch = false
			for i := n - 1; i >= 0; i-- {
				b := fn.Blocks[i]
				if len(b.Succs) == 0 {
					continue
				}
				nw := map[int]bool{}
				for k := range pd[b.Succs[0].Index] {
					ok := true
					for _, s := range b.Succs[1:] {
						if !pd[s.Index][k] {
							ok = false
						}
					}
					if ok {
						nw[k] = true
					}
				}
				nw[i] = true
				if len(nw) != len(pd[i]) {
					pd[i] = nw
					ch = true
				}
			}
		}
		for i, b := range fn.Blocks {
			// closest strict postdominator: the one postdominated by all the others
			best := -1
			for k := range pd[i] {
				if k == i {
					continue
				}
				if best < 0 || len(pd[k]) > len(pd[best]) {
					best = k
				}
			}
			if best >= 0 {
				li.ipdom[b] = fn.Blocks[best]
			}
		}
	}
	e.loops[fn] = li
	return li
}
func (e *Eng) ipdom(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	return e.loopInfoOf(fn).ipdom[b]
}

type candInv struct {
	name string
	f    func(fr *Frame, st *State) (*Term, bool)
	hint bool
}
type loopCtx struct {
	l     *loopT
	cands []candInv
	name  string
}

func assignPhis(e *Eng, fr *Frame, st *State, h, from *ssa.BasicBlock) {
	phis := phisOf(h)
	vals := make([]Val, len(phis))
	for i, ph := range phis {
		for k, p := range h.Preds {
			if p == from {
				vals[i] = e.get(fr, st, ph.Edges[k])
			}
		}
	}
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
}

func (e *Eng) backEdge(fr *Frame, st *State, ctx *loopCtx, from *ssa.BasicBlock) {
	if e.quiet > 0 {
		return
	}
	fr = fr.clone()
	assignPhis(e, fr, st, ctx.l.head, from)
	for _, c := range ctx.cands {
		t, ok := c.f(fr, st)
		if !ok {
			unsup("loop invariant cannot be evaluated at the back edge: %s", c.name)
		}
		if st.decide(t) == True {
			continue
		}
		e.obls = append(e.obls, &Obl{H: e.h, Name: ctx.name + ": invariant kept: " + c.name, Kind: "invariant", PC: append([]*Term{}, st.pc...), Goal: t})
	}
}

func (e *Eng) enterLoop(fr *Frame, st *State, l *loopT, from *ssa.BasicBlock, stop stopFn) []arrival {
	name := fmt.Sprintf("loop in %s at %s", fullName(fr.fn), e.pos(headPos(l)))
	assignPhis(e, fr, st, l.head, from)
	phis := phisOf(l.head)
	entry := st.clone()
	entryEnv := map[*ssa.Phi]Val{}
	for _, ph := range phis {
		entryEnv[ph] = fr.env[ph]
	}
	var frameInv []candInv
	type mods struct {
		phis  map[*ssa.Phi]bool
		cells map[int]bool
		heap  map[string]bool
		ghost map[string]bool
		alloc bool
	}
	fd := e.frameDecl
	if e.h == nil || e.h.pre == nil || e.inUse != 0 || e.pure != 0 {
		fd = nil
	}
	m := mods{map[*ssa.Phi]bool{}, map[int]bool{}, map[string]bool{}, map[string]bool{}, true}
	inLoop := func(prev, next *ssa.BasicBlock) bool {
		return next == l.head && l.body[prev] || l.body[prev] && !l.body[next]
	}
	havoc := func() (*Frame, *State) {
		s := entry.clone()
		f := fr.clone()
		e.bumpAlloc(s)
		var hk []string
		for k := range m.heap {
			hk = append(hk, k)
		}
		sort.Strings(hk)
		for _, k := range hk {
			e.H(s, k, heapSorts[k])
			v := Fresh("HL:"+k, heapSorts[k])
			termBound[v] = s.allocK
			if fd != nil {
				v = fd.apply(e, e.h.pre, k, v)
			}
			s.heap[k] = v
		}
		var cs []int
		for c := range m.cells {
			cs = append(cs, c)
		}
		sort.Ints(cs)
		for _, c := range cs {
			if _, fwd := entry.cells[c].(FwdV); fwd {
				continue
			}
			s.cells[c] = e.havocLike(s, entry.cells[c], e.cellType[c], fmt.Sprintf("c%d", c))
		}
		for g := range m.ghost {
			if strings.HasPrefix(g, "!") {
				continue
			}
			if v, ok := entry.ghost[g]; ok {
				s.ghost[g] = e.havocVal(s, v, g)
			}
		}
		for _, ph := range phis {
			if m.phis[ph] {
				f.env[ph] = e.havocLike(s, entryEnv[ph], ph.Type(), phiName(ph))
			}
		}
		s.epoch = e.nextEpoch()
		f.loop[l.head] = &loopCtx{l: l}
		return f, s
	}
	// 1. modified set
	e.quiet++
	e.collecting++
	if os.Getenv("GVC_TRACE") != "" {
		t0 := time.Now()
		fmt.Fprintln(os.Stderr, "LOOP+", e.quiet, e.collecting, name)
		defer func() { fmt.Fprintln(os.Stderr, "LOOP-", e.quiet, e.collecting, name, time.Since(t0)) }()
	}
	for round := 0; ; round++ {
		if round > 12 {
			e.quiet--
			unsup("modified set of %s does not stabilise", name)
		}
		f, s := havoc()
		hf, hs := f.clone(), s.clone()
		as := e.run(f, s, l.head, from, len(phis), stopOr(inLoop, nil))
		changed := false
		for _, a := range as {
			if a.kind != aStop || a.block != l.head {
				continue
			}
			for _, ph := range phis {
				if m.phis[ph] {
					continue
				}
				for k, p := range l.head.Preds {
					if p == a.prev {
						if !sameVal(e.get(a.fr, a.st, ph.Edges[k]), hf.env[ph]) {
							m.phis[ph] = true
							changed = true
						}
					}
				}
			}
			for c, v := range hs.cells {
				if !sameVal(v, a.st.cells[c]) && !m.cells[c] {
					if _, ok := a.st.cells[c].(FwdV); ok {
						// a cell escapes inside the loop: let it escape before
						if _, was := v.(FwdV); !was {
							if e.step(func() { e.escape(entry, c, e.cellType[c]) }) {
								unsup("escape")
							}
							changed = true
							continue
						}
					}
					m.cells[c] = true
					changed = true
				}
			}
			for k, v := range a.st.heap {
				hv, ok := hs.heap[k]
				if !ok {
					hv = Var("H0:"+k, heapSorts[k])
					if v == hv {
						continue
					}
				}
				if v != hv && !m.heap[k] {
					m.heap[k] = true
					e.H(entry, k, heapSorts[k])
					changed = true
				}
			}
			for g, v := range a.st.ghost {
				if _, box := v.(stateBox); box {
					continue
				}
				if hv, ok := hs.ghost[g]; ok && !sameVal(hv, v) && !m.ghost[g] {
					m.ghost[g] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	e.collecting--
	if e.collecting > 0 && e.h != nil && e.h.Nested {
		e.quiet--
		f, s := havoc()
		return e.run(f, s, l.head, from, len(phis), stop)
	}
	// 2. candidates
	efr := fr.clone()
	for _, ph := range phis {
		efr.env[ph] = entryEnv[ph]
	}
	ownHeap := m.heap
	if fd != nil {
		ownHeap = nil
	}
	cands := e.candidates(fr, entry, efr, l, phis, m.phis, ownHeap, m.cells)
	if fd != nil {
		// not a candidate: it is built into the havocked state, so it must hold
		for _, k := range sortedKeys(m.heap) {
			k := k
			if fd.listsAll(k) {
				continue
			}
			pre := e.h.pre
			frameInv = append(frameInv, candInv{name: "frame of " + k, f: func(f *Frame, s *State) (*Term, bool) { return fd.holds(e, pre, s, k), true }})
		}
	}
	// on a later entry into the same loop only what held there the last time
	// is tried: all else has cost its time already
	memo, again := e.candMemo[l] // tried: true where it held
	held := func() bool {
		for _, h := range memo {
			if h {
				return true
			}
		}
		return false
	}
	if again && !held() {
		e.candTries[l]++
		again = e.candTries[l] >= 3
	}
	full := cands
	search := func(cands []candInv) []candInv {
		// entry check
		cands = e.filterCands(cands, []*Frame{efr}, []*State{entry})
		// inductive check
		for round := 0; ; round++ {
			f, s := havoc()
			for _, c := range cands {
				t, ok := c.f(f, s)
				if ok {
					s.assume(t)
				}
			}
			if s.dead {
				break
			}
			as := e.run(f, s, l.head, from, len(phis), stopOr(inLoop, nil))
			var frs []*Frame
			var sts []*State
			for _, a := range as {
				if a.kind == aStop && a.block == l.head {
					g := a.fr.clone()
					assignPhis(e, g, a.st, l.head, a.prev)
					frs = append(frs, g)
					sts = append(sts, a.st)
				}
			}
			n := e.filterCands(cands, frs, sts)
			if len(n) == len(cands) {
				break
			}
			cands = n
			if round > 30 {
				unsup("invariant search does not stabilise in %s", name)
			}
		}
		return cands
	}
	if again {
		var n []candInv
		for _, c := range cands {
			if held, tried := memo[c.name]; !c.hint || held || !tried {
				n = append(n, c)
			}
		}
		cands = n
	}
	tried := cands
	cands = search(cands)
	if again && held() {
		hints := 0
		for _, c := range cands {
			if c.hint {
				hints++
			}
		}
		if hints == 0 {
			tried = full
			cands = search(full)
		}
	}
	e.quiet--
	if os.Getenv("GVC_INV") != "" && e.quiet == 0 {
		for _, c := range cands {
			fmt.Fprintln(os.Stderr, "INV", name, c.name)
		}
	}
	if !again {
		memo = map[string]bool{}
		if e.candMemo == nil {
			e.candMemo = map[*loopT]map[string]bool{}
			e.candTries = map[*loopT]int{}
		}
		e.candMemo[l] = memo
	}
	for _, c := range tried {
		if c.hint && !memo[c.name] {
			memo[c.name] = false
		}
	}
	for _, c := range cands {
		if c.hint {
			memo[c.name] = true
		}
	}
	// 3. final pass
	for _, c := range append(append([]candInv{}, cands...), frameInv...) {
		if t, ok := c.f(efr, entry); ok && e.quiet == 0 && entry.decide(t) != True {
			e.obls = append(e.obls, &Obl{H: e.h, Name: name + ": invariant on entry: " + c.name, Kind: "invariant", PC: append([]*Term{}, entry.pc...), Goal: t})
		}
	}
	f, s := havoc()
	for _, c := range cands {
		if t, ok := c.f(f, s); ok {
			s.assume(t)
		}
	}
	f.loop[l.head] = &loopCtx{l: l, cands: append(append([]candInv{}, cands...), frameInv...), name: name}
	e.loopCount[name] = len(cands)
	return e.run(f, s, l.head, from, len(phis), stop)
}

func headPos(l *loopT) (p tokenPos) {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return
}

func stopOr(a, b stopFn) stopFn {
	if b == nil {
		return a
	}
	return func(p, n *ssa.BasicBlock) bool { return a(p, n) || b(p, n) }
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

// havocLike keeps engine-level identity where a value cannot be a term.
func (e *Eng) havocLike(s *State, v Val, ty types.Type, name string) Val {
	switch x := v.(type) {
	case StructV:
		n := StructV{T: x.T}
		for i := range x.F {
			n.F = append(n.F, e.havocLike(s, x.F[i], under(x.T).(*types.Struct).Field(i).Type(), name+"."+under(x.T).(*types.Struct).Field(i).Name()))
		}
		return n
	case SliceV:
		if x.Frozen != nil {
			r, l := Fresh(name+".row", ArrSort(sortOf(x.Elem))), Fresh(name+".len", SInt)
			termBound[r] = s.allocK
			e.fact(s, Le(Int(0), l))
			return SliceV{Elem: x.Elem, Frozen: r, Ref: Int(-1), Off: Int(0), Len: l, Cap: l}
		}
	}
	if ty == nil {
		unsup("havoc of a value of unknown type (%T)", v)
	}
	return e.freshVal(s, ty, name)
}
func (e *Eng) havocVal(s *State, v Val, name string) Val {
	switch x := v.(type) {
	case *Term:
		return Fresh(name, x.sort)
	case IfaceV:
		return IfaceV{x.T, e.havocLike(s, x.V, x.T, name)}
	case StructV:
		return e.havocLike(s, x, x.T, name)
	case SliceV:
		return e.havocLike(s, x, types.NewSlice(x.Elem), name)
	}
	unsup("havoc of ghost %s", name)
	return nil
}

func conjuncts(t *Term) []*Term {
	if t.op != OAnd {
		return []*Term{t}
	}
	var r []*Term
	for _, a := range t.args {
		r = append(r, conjuncts(a)...)
	}
	return r
}
func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// filterCands keeps the candidates that hold in all the given states.
func (e *Eng) filterCands(cs []candInv, frs []*Frame, sts []*State) []candInv {
	type q struct {
		c    int
		pc   []*Term
		goal *Term
		text string
	}
	bad := make([]bool, len(cs))
	var qs []q
	for i, c := range cs {
		for j := range frs {
			t, ok := c.f(frs[j], sts[j])
			if !ok {
				bad[i] = true
				break
			}
			d := sts[j].decide(t)
			if d == True {
				continue
			}
			if d == False && len(sts[j].pc) == 0 {
				bad[i] = true
				break
			}
			gs := []*Term{t}
			if c.hint {
				gs = conjuncts(t)
			}
			for _, g := range gs {
				if sts[j].decide(g) != True {
					qs = append(qs, q{c: i, pc: sts[j].pc, goal: g})
				}
			}
		}
	}
	fuel := 1
	if e.h != nil && e.h.Fuel > 0 {
		fuel = e.h.Fuel
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 16)
	for _, x := range qs {
		mu.Lock()
		b := bad[x.c]
		mu.Unlock()
		if b {
			continue
		}
		as := e.expand(x.pc, x.goal, fuel)
		txts := prepQuick(as, x.goal)
		if txts == nil {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(c int, goal *Term) {
			defer wg.Done()
			defer func() { <-sem }()
			ms := 700
			if cs[c].hint {
				ms = 4000
			}
			tq := time.Now()
			if !cs[c].hint {
				txts = txts[:1]
			}
			ok := runQuick(txts, ms)
			if os.Getenv("GVC_DROP") != "" && cs[c].hint {
				fmt.Fprintln(os.Stderr, "TRY", cs[c].name, ok, time.Since(tq).Milliseconds())
			}
			if !ok {
				if d := os.Getenv("GVC_DROPDIR"); d != "" && cs[c].hint {
					os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, time.Now().UnixNano()), []byte("; "+cs[c].name+"\n; "+cut(goal.String(), 2000)+"\n"+txts[0]), 0o644)
					if len(txts) > 1 {
						os.WriteFile(fmt.Sprintf("%s/%d.shift.smt2", d, time.Now().UnixNano()), []byte("; "+cs[c].name+"\n; "+cut(goal.String(), 2000)+"\n"+txts[1]), 0o644)
					}
				}
				mu.Lock()
				bad[c] = true
				mu.Unlock()
			}
		}(x.c, x.goal)
	}
	wg.Wait()
	var r []candInv
	for i, c := range cs {
		if !bad[i] {
			r = append(r, c)
		} else if os.Getenv("GVC_DROP") != "" {
			fmt.Fprintln(os.Stderr, "DROP", c.name, "hint", c.hint)
		}
	}
	return r
}

type namedVal struct {
	name string
	ty   types.Type
	get  func(fr *Frame, st *State) (Val, bool)
	mod  bool
	blk  *ssa.BasicBlock
}

// visible lists the values a hint or a generic candidate may talk about.
func (e *Eng) visible(fr *Frame, entry *State, l *loopT, phis []*ssa.Phi, modPhi map[*ssa.Phi]bool, modCells map[int]bool) []namedVal {
	var r []namedVal
	for _, ph := range phis {
		ph := ph
		r = append(r, namedVal{phiName(ph), ph.Type(), func(f *Frame, s *State) (Val, bool) { v, ok := f.env[ph]; return v, ok }, modPhi[ph], l.head})
	}
	// the byte position of a range over a string
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok && nx.IsString {
			if it, ok := fr.env[nx.Iter].(IterV); ok && it.Cell > 0 {
				r = append(r, namedVal{"rangeindex.pos", types.Typ[types.Int], func(f *Frame, s *State) (Val, bool) { v, ok := s.cells[it.Cell]; return v, ok }, true, nil})
			}
		}
	}
	var vs []ssa.Value
	for v := range fr.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		v := v
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.head {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok {
			if in.Block() == nil || !in.Block().Dominates(l.head) || l.body[in.Block()] {
				continue
			}
		}
		if a, ok := v.(*ssa.Alloc); ok {
			pv, ok := fr.env[a].(PtrV)
			if !ok || pv.Cell == 0 {
				continue
			}
			ty := under(a.Type()).(*types.Pointer).Elem()
			r = append(r, namedVal{a.Comment, ty, func(f *Frame, s *State) (Val, bool) {
				if _, ok := s.cells[pv.Cell]; !ok {
					return nil, false
				}
				return e.load(s, pv), true
			}, modCells[pv.Cell], nil})
			continue
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			if pv, ok := fr.env[fv].(PtrV); ok && pv.Cell > 0 {
				r = append(r, namedVal{fv.Name(), under(fv.Type()).(*types.Pointer).Elem(), func(f *Frame, s *State) (Val, bool) {
					return e.load(s, pv), true
				}, modCells[pv.Cell], nil})
				continue
			}
		}
		nm := v.Name()
		var blk *ssa.BasicBlock
		if c, ok := v.(*ssa.Phi); ok && c.Comment != "" {
			nm, blk = c.Comment, c.Block()
		}
		r = append(r, namedVal{nm, v.Type(), func(f *Frame, s *State) (Val, bool) { x, ok := f.env[v]; return x, ok }, false, blk})
		if pv, ok := fr.env[v].(PtrV); ok && !pv.Nil {
			// the pointee, for parameters that are pointers
			if _, isP := v.(*ssa.Parameter); isP {
				r = append(r, namedVal{"*" + nm, pv.Elem, func(f *Frame, s *State) (x Val, ok bool) {
					defer func() {
						if rec := recover(); rec != nil {
							ok = false
						}
					}()
					return e.load(s, pv), true
				}, true, nil})
			}
		}
	}
	var gs []string
	for g := range entry.ghost {
		if strings.HasPrefix(g, "$") {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		g := g
		v := entry.ghost[g]
		ty := ghostType(v)
		r = append(r, namedVal{g[1:], ty, func(f *Frame, s *State) (Val, bool) {
			x, ok := s.ghost[g]
			if iv, is := x.(IfaceV); is {
				x = iv.V
			}
			return x, ok
		}, false, nil})
	}
	return r
}
func ghostType(v Val) types.Type {
	switch x := v.(type) {
	case IfaceV:
		return x.T
	case SliceV:
		return types.NewSlice(x.Elem)
	case StructV:
		return x.T
	case *Term:
		switch x.sort {
		case SInt:
			return types.Typ[types.Int]
		case SBool:
			return types.Typ[types.Bool]
		case SStr:
			return types.Typ[types.String]
		}
	}
	return nil
}

func (e *Eng) candidates(fr *Frame, entry *State, efr *Frame, l *loopT, phis []*ssa.Phi, modPhi map[*ssa.Phi]bool, modHeap map[string]bool, modCells map[int]bool) []candInv {
	var cs []candInv
	vis := e.visible(fr, entry, l, phis, modPhi, modCells)
	for i, ph := range phis {
		if ph.Comment == "" {
			// rename unnamed phis (rangeindex) for readability only
			_ = i
		}
	}
	type tv struct {
		name string
		f    func(fr *Frame, st *State) (*Term, bool)
		mod  bool
	}
	var ints, lens []tv
	slices := []namedVal{}
	addInt := func(n string, f func(fr *Frame, st *State) (*Term, bool), mod bool) {
		ints = append(ints, tv{n, f, mod})
	}
	for _, v := range vis {
		v := v
		if v.ty == nil {
			continue
		}
		if b, ok := under(v.ty).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if v.mod {
				addInt(v.name, func(f *Frame, s *State) (*Term, bool) {
					x, ok := v.get(f, s)
					if !ok {
						return nil, false
					}
					t, ok := x.(*Term)
					return t, ok
				}, true)
			} else {
				lens = append(lens, tv{v.name, func(f *Frame, s *State) (*Term, bool) {
					x, ok := v.get(f, s)
					if !ok {
						return nil, false
					}
					t, ok := x.(*Term)
					return t, ok
				}, false})
			}
		}
		switch under(v.ty).(type) {
		case *types.Slice:
			slices = append(slices, v)
			lens = append(lens, tv{"len(" + v.name + ")", func(f *Frame, s *State) (*Term, bool) {
				x, ok := v.get(f, s)
				if !ok {
					return nil, false
				}
				sl, ok := x.(SliceV)
				return sl.Len, ok
			}, v.mod})
		case *types.Basic:
			if sortOf(v.ty) == SStr {
				lens = append(lens, tv{"len(" + v.name + ")", func(f *Frame, s *State) (*Term, bool) {
					x, ok := v.get(f, s)
					if !ok {
						return nil, false
					}
					t, ok := x.(*Term)
					if !ok {
						return nil, false
					}
					return Len(t), true
				}, v.mod})
			}
		case *types.Struct:
			if isBuffer(v.ty) {
				continue
			}
		}
	}
	if len(lens) > 24 {
		lens = lens[:24]
	}
	for _, p := range ints {
		p := p
		e0, ok := p.f(efr, entry)
		if !ok {
			continue
		}
		cs = append(cs, candInv{name: p.name + " >= its entry value", f: func(f *Frame, s *State) (*Term, bool) {
			t, ok := p.f(f, s)
			if !ok {
				return nil, false
			}
			return Le(e0, t), true
		}})
		cs = append(cs, candInv{name: p.name + " <= its entry value", f: func(f *Frame, s *State) (*Term, bool) {
			t, ok := p.f(f, s)
			if !ok {
				return nil, false
			}
			return Le(t, e0), true
		}})
		for _, c := range []int64{-1, 0} {
			c := c
			cs = append(cs, candInv{name: fmt.Sprintf("%s >= %d", p.name, c), f: func(f *Frame, s *State) (*Term, bool) {
				t, ok := p.f(f, s)
				if !ok {
					return nil, false
				}
				return Le(Int(c), t), true
			}})
		}
		for _, b := range append(append([]tv{}, lens...), ints...) {
			b := b
			if b.name == p.name {
				continue
			}
			for _, d := range []int64{0, 1} {
				d := d
				cs = append(cs, candInv{name: fmt.Sprintf("%s + %d <= %s", p.name, d, b.name), f: func(f *Frame, s *State) (*Term, bool) {
					t, ok1 := p.f(f, s)
					u, ok2 := b.f(f, s)
					if !ok1 || !ok2 {
						return nil, false
					}
					return Le(Add(t, Int(d)), u), true
				}})
			}
		}
	}
	// slices that change: freshness, bounds
	for _, v := range slices {
		v := v
		if !v.mod {
			continue
		}
		x0, ok := v.get(efr, entry)
		if !ok {
			continue
		}
		s0, ok := x0.(SliceV)
		if !ok || s0.Frozen != nil {
			continue
		}
		get := func(f *Frame, s *State) (SliceV, bool) {
			x, ok := v.get(f, s)
			if !ok {
				return SliceV{}, false
			}
			sl, ok := x.(SliceV)
			if !ok || sl.Cell > 0 || sl.Frozen != nil {
				return SliceV{}, false
			}
			return sl, true
		}
		base := entry.alloc
		cs = append(cs, candInv{name: v.name + " fresh or its entry array", f: func(f *Frame, s *State) (*Term, bool) {
			sl, ok := get(f, s)
			if !ok {
				return nil, false
			}
			return Or(Le(base, sl.Ref), Eq(sl.Ref, s0.Ref)), true
		}})
		if e.h != nil && e.h.alloc0 != nil {
			a0 := e.h.alloc0
			cs = append(cs, candInv{name: v.name + " nil or allocated here", f: func(f *Frame, s *State) (*Term, bool) {
				sl, ok := get(f, s)
				if !ok {
					return nil, false
				}
				return Or(Le(a0, sl.Ref), Eq(sl.Cap, Int(0))), true
			}})
		}
		cs = append(cs, candInv{name: v.name + " same offset", f: func(f *Frame, s *State) (*Term, bool) {
			sl, ok := get(f, s)
			if !ok {
				return nil, false
			}
			return Eq(sl.Off, s0.Off), true
		}})
		for _, w := range slices {
			w := w
			if w.name == v.name || w.mod && w.name < v.name || !types.Identical(under(w.ty), under(v.ty)) {
				continue
			}
			cs = append(cs, candInv{name: v.name + " apart from " + w.name, f: func(f *Frame, s *State) (*Term, bool) {
				sl, ok := get(f, s)
				if !ok {
					return nil, false
				}
				y, ok := w.get(f, s)
				if !ok {
					return nil, false
				}
				sw, ok := y.(SliceV)
				if !ok || sw.Cell > 0 || sw.Frozen != nil {
					return nil, false
				}
				return Or(Not(Eq(sl.Ref, sw.Ref)), Eq(sl.Cap, Int(0)), Eq(sw.Cap, Int(0))), true
			}})
		}
	}
	// heap frames
	var hk []string
	for k := range modHeap {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		k := k
		h0 := e.H(entry, k, heapSorts[k])
		bases := []*Term{entry.alloc}
		names := []string{"loop entry"}
		if e.h != nil && e.h.alloc0 != nil && e.h.alloc0 != entry.alloc {
			bases = append(bases, e.h.alloc0)
			names = append(names, "function entry")
		}
		for bi, b := range bases {
			b := b
			cs = append(cs, candInv{name: "memory " + k + " older than " + names[bi] + " unchanged", f: func(f *Frame, s *State) (*Term, bool) {
				h := e.H(s, k, heapSorts[k])
				r := Bound("r", SInt)
				return Forall([]*Term{r}, Imp(Lt(r, b), Eq(Select(h, r), Select(h0, r))), []*Term{Select(h, r)}), true
			}})
		}
	}
	// hints
	if e.h != nil {
		for _, hn := range e.h.Hints {
			cs = append(cs, e.hintCands(hn, fr, entry, efr, vis)...)
		}
	}
	return cs
}

func (e *Eng) hintCands(hn *ssa.Function, fr *Frame, entry *State, efr *Frame, vis []namedVal) []candInv {
	type opt struct {
		v   namedVal
		inc int64
	}
	var opts [][]opt
	for _, p := range hn.Params {
		var o, exact []opt
		isInt := false
		if b, ok := under(p.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			isInt = true
		}
		for _, v := range vis {
			if v.ty == nil || !types.Identical(v.ty, p.Type()) {
				continue
			}
			if isInt && p.Name() == "ri" {
				// the index of the innermost range loop
				if v.mod && strings.HasPrefix(v.name, "rangeindex") {
					exact = append(exact, opt{v, 0})
				}
				continue
			}
			if isInt && p.Name() == "ro" {
				// the index of the outermost range loop
				if v.name == "rangeindex" && v.blk != nil && (len(exact) == 0 || v.blk.Dominates(exact[0].v.blk)) {
					exact = []opt{{v, 0}}
				}
				continue
			}
			if v.name == p.Name() {
				exact = append(exact, opt{v, 0})
			}
			o = append(o, opt{v, 0})
			if isInt && v.mod && (strings.HasPrefix(v.name, "rangeindex") || v.name == p.Name()) {
				o = append(o, opt{v, 1})
				if v.name == p.Name() {
					exact = append(exact, opt{v, 1})
				}
			}
		}
		if len(exact) > 0 {
			o = exact
		} else if isInt {
			// range index first
			sort.SliceStable(o, func(i, j int) bool { return score(o[i].v) > score(o[j].v) })
		} else {
			sort.SliceStable(o, func(i, j int) bool { return o[i].v.mod && !o[j].v.mod })
		}
		if len(o) == 0 {
			if os.Getenv("GVC_DROP") != "" {
				fmt.Fprintln(os.Stderr, "HINT", hn.Name(), "has nothing for", p.Name())
			}
			return nil
		}
		if len(o) > 8 {
			o = o[:8]
		}
		opts = append(opts, o)
	}
	var cs []candInv
	idx := make([]int, len(opts))
	for n := 0; n < 64; n++ {
		var sel []opt
		var nm []string
		for i, o := range opts {
			sel = append(sel, o[idx[i]])
			x := o[idx[i]].v.name
			if o[idx[i]].inc != 0 {
				x += "+1"
			}
			nm = append(nm, x)
		}
		cs = append(cs, candInv{name: hn.Name() + "(" + strings.Join(nm, ", ") + ")", hint: true, f: func(f *Frame, s *State) (t *Term, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if u, is := r.(Unsupported); is {
						if os.Getenv("GVC_DROP") != "" {
							fmt.Fprintln(os.Stderr, "HINT unsupported", hn.Name(), u.msg)
						}
						t, ok = nil, false
						return
					}
					panic(r)
				}
			}()
			var args []Val
			for _, o := range sel {
				v, ok := o.v.get(f, s)
				if !ok {
					return nil, false
				}
				if o.inc != 0 {
					v = Add(v.(*Term), Int(o.inc))
				}
				args = append(args, v)
			}
			r := e.evalPure(s, hn, args, nil)
			return e.toTerm(s, r), true
		}})
		k := len(idx) - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			break
		}
	}
	return cs
}
func score(v namedVal) int {
	n := 0
	if v.mod {
		n += 2
	}
	if strings.HasPrefix(v.name, "rangeindex") {
		n++
	}
	return n
}
