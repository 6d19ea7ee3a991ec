package main

// Frame conditions: what a call may have changed.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// framed(old, new, a) is the array that agrees with old below a and with new from a on.
func framed(old, nw, a *Term) *Term {
	if old == nw {
		return old
	}
	return App("framed", old.sort, old, nw, a)
}

// selFramed reads a framed array.
func selFramed(t, i *Term) *Term {
	old, nw, a := t.args[0], t.args[1], t.args[2]
	k := freshAt(a)
	if k >= 0 {
		if b := boundOf(i); b >= 0 && b <= k {
			return Select(old, i)
		}
		if i.op == OInt {
			return Select(old, i)
		}
		if j := freshAt(i); j > k || i == a {
			return Select(nw, i)
		}
	}
	return Ite(Lt(i, a), Select(old, i), Select(nw, i))
}
func hasFramed(t *Term) bool {
	for t.op == OStore {
		t = t.args[0]
	}
	if t.op == OIte {
		return hasFramed(t.args[1]) || hasFramed(t.args[2])
	}
	return t.op == OApp && t.name == "framed"
}

type frameLoc struct {
	key string
	ref *Term // nil: any
}

// frameLocs turns the arguments of OnlyChanged into heap locations and cells.
func (e *Eng) frameLocs(st *State, v Val) (locs []frameLoc, cells []int) {
	sl, ok := v.(SliceV)
	if !ok {
		unsup("OnlyChanged %T", v)
	}
	if sl.Len == Int(0) || sl.Len == nil {
		return
	}
	if sl.Cell == 0 {
		unsup("OnlyChanged with a computed list")
	}
	arr, ok := st.cells[sl.Cell].(ArrayV)
	if !ok {
		unsup("OnlyChanged with a computed list")
	}
	for _, x := range arr.E {
		iv, ok := x.(IfaceV)
		if !ok {
			unsup("OnlyChanged of %T", x)
		}
		switch u := under(iv.T).(type) {
		case *types.Map:
			dk, vk, _, _ := mapKeys(u)
			r := e.toTerm(st, iv.V)
			if r == Int(0) {
				r = nil
			}
			locs = append(locs, frameLoc{dk, r}, frameLoc{vk, r})
		case *types.Slice:
			s := iv.V.(SliceV)
			if s.Cell > 0 || s.Frozen != nil {
				continue
			}
			if s.Ref == Int(0) && !s.Exact {
				s.Ref = nil
			}
			locs = append(locs, frameLoc{elemKey(s.Elem), s.Ref})
		case *types.Pointer:
			p, ok := iv.V.(PtrV)
			if !ok {
				unsup("OnlyChanged of a pointer %T", iv.V)
			}
			p = e.resolve(st, p)
			if p.Nil {
				p = PtrV{Elem: p.Elem, Base: u.Elem()}
			}
			if p.Cell > 0 {
				cells = append(cells, p.Cell)
				continue
			}
			if p.IsElem {
				locs = append(locs, frameLoc{elemKey(p.Base), p.Ref})
				continue
			}
			if s, ok := under(p.Base).(*types.Struct); ok && !isBuffer(p.Base) {
				if len(p.Path) > 0 {
					locs = append(locs, frameLoc{fieldKey(p.Base, p.Path[0].field), p.Ref})
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					locs = append(locs, frameLoc{fieldKey(p.Base, i), p.Ref})
				}
				continue
			}
			if at, ok := under(p.Base).(*types.Array); ok {
				locs = append(locs, frameLoc{elemKey(at.Elem()), p.Ref})
				continue
			}
			locs = append(locs, frameLoc{"P:" + typeName(p.Base), p.Ref})
		default:
			unsup("OnlyChanged of a %s", iv.T)
		}
	}
	return
}

func (e *Eng) framePre(fr *Frame, st *State) *State {
	if b, ok := st.ghost["!mark"]; ok && fr.use == nil {
		return b.(stateBox).s
	}
	if b, ok := st.ghost["!pre"]; ok && fr.use != nil {
		return b.(stateBox).s
	}
	if e.h.pre == nil {
		unsup("OnlyChanged before the target call")
	}
	return e.h.pre
}

// frameDecl is a frame declared with vc.Frame: every loop below the target
// call keeps it (checked on entry and at every back edge).
type frameDecl struct{ locs []frameLoc }

// apply gives memory k the contents h outside the declared frame's memory.
func (d *frameDecl) apply(e *Eng, pre *State, k string, h *Term) *Term {
	old := e.H(pre, k, heapSorts[k])
	r := framed(old, h, pre.alloc)
	for _, l := range d.locs {
		if l.key == k {
			if l.ref == nil {
				return h
			}
			r = Store(r, l.ref, Select(h, l.ref))
		}
	}
	return r
}

func (d *frameDecl) listsAll(k string) bool {
	for _, l := range d.locs {
		if l.key == k && l.ref == nil {
			return true
		}
	}
	return false
}

// holds: memory k of st agrees with the one before the target call outside the frame.
func (d *frameDecl) holds(e *Eng, pre, st *State, k string) *Term {
	now := e.H(st, k, heapSorts[k])
	old := e.H(pre, k, heapSorts[k])
	if now == old {
		return True
	}
	r := Bound("r", SInt)
	hyp := []*Term{Lt(r, pre.alloc), Lt(Int(0), r)}
	for _, l := range d.locs {
		if l.key == k && l.ref == nil {
			return True
		} else if l.key == k {
			hyp = append(hyp, Not(Eq(r, l.ref)))
		}
	}
	a, b := Select(now, r), Select(old, r)
	if a == b {
		return True
	}
	return Forall([]*Term{r}, Imp(And(hyp...), Eq(a, b)))
}

func init() {
	vcExtra["Frame"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival {
		if fr.use == nil && e.inUse == 0 && e.h.pre == nil {
			locs, _ := e.frameLocs(st, args[0])
			e.frameDecl = &frameDecl{locs}
		}
		return []arrival{{st: st, kind: aRet}}
	}
	// MayPanic: the target may panic, but only if the condition held before.
	vcExtra["MayPanic"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival {
		c := e.toTerm(st, args[0])
		if fr.use != nil {
			fr.use.panicIf = c
		} else if e.inUse == 0 {
			e.panicIf = c
		}
		return []arrival{{st: st, kind: aRet}}
	}
	// Panics: what holds if the target panics.
	vcExtra["Panics"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival {
		c := panicCond{e.strArg(args[0]), args[1], call}
		if fr.use != nil {
			fr.use.panics = append(fr.use.panics, c)
		} else if e.inUse == 0 {
			e.panics = append(e.panics, c)
		}
		return []arrival{{st: st, kind: aRet}}
	}
	// New: nil, or made since the target call began.
	vcExtra["New"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival {
		pre := e.framePre(fr, st)
		v := args[0]
		if iv, ok := v.(IfaceV); ok {
			v = iv.V
		}
		var r *Term
		switch x := v.(type) {
		case SliceV:
			r = x.Ref
		case PtrV:
			if x.Nil || x.Ref == nil {
				return ret1(st, True)
			}
			r = x.Ref
		default:
			r = e.toTerm(st, v)
		}
		return ret1(st, Or(Eq(r, Int(0)), Le(pre.alloc, r)))
	}
	// Same: equal in every field, slices by their position in memory.
	vcExtra["Same"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival {
		a, b := args[0], args[1]
		if x, ok := a.(IfaceV); ok {
			if y, ok := b.(IfaceV); ok && types.Identical(x.T, y.T) {
				return ret1(st, Eq(e.toTerm(st, x.V), e.toTerm(st, y.V)))
			}
		}
		return ret1(st, Eq(e.toTerm(st, a), e.toTerm(st, b)))
	}
	vcExtra["Mark"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival {
		if fr.use == nil {
			st.ghost["!mark"] = stateBox{st.clone()}
		}
		return []arrival{{st: st, kind: aRet}}
	}
	// OnlyChanged: everything that existed before the call, apart from the
	// given fields, maps and slices, is as it was.
	vcExtra["OnlyChanged"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival {
		pre := e.framePre(fr, st)
		locs, lcells := e.frameLocs(st, args[0])
		if fr.use != nil {
			// assume it by construction
			for _, k := range sortedKeys(st.heap) {
				now := st.heap[k]
				old := e.H(pre, k, heapSorts[k])
				if now == old {
					continue
				}
				h := framed(old, now, pre.alloc)
				for _, l := range locs {
					if l.key == k {
						if l.ref == nil {
							h = now
							break
						}
						h = Store(h, l.ref, Select(now, l.ref))
					}
				}
				st.heap[k] = h
			}
			hv, _ := st.ghost["!havoced"].(cellSet)
			for c, ov := range pre.cells {
				keep := hv[c]
				for _, l := range lcells {
					if l == c {
						keep = false
					}
				}
				if _, fwd := st.cells[c].(FwdV); fwd {
					continue
				}
				if keep {
					st.cells[c] = ov
				}
			}
			st.epoch = e.nextEpoch()
			return ret1(st, True)
		}
		var cs []*Term
		for _, k := range sortedKeys(st.heap) {
			now := st.heap[k]
			old := e.H(pre, k, heapSorts[k])
			if now == old {
				continue
			}
			r := Bound("r", SInt)
			hyp := []*Term{Lt(r, pre.alloc), Lt(Int(0), r)}
			for _, l := range locs {
				if l.key == k && l.ref == nil {
					hyp = append(hyp, False)
				} else if l.key == k {
					hyp = append(hyp, Not(Eq(r, l.ref)))
				}
			}
			a, b := Select(now, r), Select(old, r)
			if a == b {
				continue
			}
			cs = append(cs, Forall([]*Term{r}, Imp(And(hyp...), Eq(a, b))))
		}
		for g, c := range e.globals {
			if _, ok := st.cells[c]; ok {
				e.globalCell(pre, g)
			}
		}
		for c, ov := range pre.cells {
			nv, ok := st.cells[c]
			if !ok || sameVal(ov, nv) {
				continue
			}
			in := false
			for _, l := range lcells {
				if l == c {
					in = true
				}
			}
			if _, fwd := nv.(FwdV); fwd || in {
				continue
			}
			isG := false
			for _, g := range e.globals {
				if g == c {
					isG = true
				}
			}
			if isG {
				a, ok1 := e.pureTerm(ov)
				b, ok2 := e.pureTerm(nv)
				if !ok1 || !ok2 {
					cs = append(cs, False)
					continue
				}
				cs = append(cs, Eq(a, b))
			}
		}
		return ret1(st, And(cs...))
	}
}
