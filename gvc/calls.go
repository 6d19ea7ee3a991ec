package main

// Calls: builtins, contracts in use mode, specification functions, dispatch.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ret1(st *State, vs ...Val) []arrival { return []arrival{{st: st, kind: aRet, vals: vs}} }

func (e *Eng) callee(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.get(fr, st, a))
	}
	if c.IsInvoke() {
		return ClosureV{Spec: "invoke", Binds: []Val{e.get(fr, st, c.Value)}}, args
	}
	return e.get(fr, st, c.Value), args
}

func ifaceKey(t types.Type, m string) string { return typeName(t) + "." + m }

func (e *Eng) callVal(fr *Frame, st *State, fv Val, args []Val, call *ssa.CallCommon, ps *panicState) []arrival {
	var out []arrival
	if e.step(func() { out = e.callVal0(fr, st, fv, args, call, ps) }) {
		return nil
	}
	return out
}
func (e *Eng) callVal0(fr *Frame, st *State, fv Val, args []Val, call *ssa.CallCommon, ps *panicState) []arrival {
	switch f := fv.(type) {
	case ClosureV:
		if strings.HasPrefix(f.Spec, "builtin:") {
			return e.builtin(fr, st, f.Spec[8:], args, call, ps)
		}
		if f.Spec == "invoke" {
			return e.invoke(fr, st, f.Binds[0], call, args)
		}
		if f.Spec != "" {
			return e.specClosure(fr, st, f, args, call)
		}
		if e.pure == 0 && e.h != nil && isFuncTarget(e.h.Target) && fr.fn == e.h.fn && fr.use == nil && e.h.cand == f.Fn {
			e.h.pre = st.clone()
		}
		return e.callFn(fr, st, f.Fn, args, f.Binds, call, ps)
	case *Term:
		if f.op == OInt && f.i.Sign() < 0 {
			n := int(-f.i.Int64()) - 2
			if n < len(e.closures) {
				c := e.closures[n]
				return e.callVal0(fr, st, c, args, call, ps)
			}
		}
		if f == Int(0) {
			e.check(st, "nil-func-call", False, call.Pos())
			return nil
		}
		// ite of known closures
		if f.op == OIte {
			st2 := st.clone()
			fr2 := fr.clone()
			st.assume(f.args[0])
			r := e.callVal0(fr, st, f.args[1], args, call, ps)
			st2.assume(Not(f.args[0]))
			return append(r, e.callVal0(fr2, st2, f.args[2], args, call, ps)...)
		}
		if fr.use != nil && !fr.use.called && isFuncTarget(fr.use.h.Target) && len(fr.use.args) > 0 && fr.use.args[0] == Val(f) {
			return e.havocFunc(fr, st, args, call)
		}
		if h := e.funcContract(call.Value); h != nil && e.h != nil && (e.h.Use[h.Target] || e.h == h) && e.pure == 0 {
			e.check(st, "nil-func-call", Not(Eq(f, Int(0))), call.Pos())
			return e.useContract(fr, st, h, append([]Val{f}, args...), call)
		}
		unsup("call of an unknown function value at %s", e.pos(call.Pos()))
	}
	unsup("call of %T", fv)
	return nil
}

// bodyNote records what stands for a function.
func (e *Eng) bodyNote(name string, b *ssa.Function, repo bool) {
	if repo {
		e.assumed["calls of "+name+" behave as written in "+b.Name()+" (repository code: its own contract, where it has one, is proved separately)"] = true
		return
	}
	e.assumed["external function "+name+" behaves as written in "+b.Name()] = true
}

func (e *Eng) callFn(fr *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, call *ssa.CallCommon, ps *panicState) []arrival {
	name := fullName(fn)
	if e.isVC(fn) {
		return e.vcCall(fr, st, fn, args, call)
	}
	if b := e.bodies[name]; b != nil && !(e.h != nil && e.h.Target == name && fr != nil && fr.fn == e.h.fn) {
		e.bodyNote(name, b, e.isRepo(fn))
		return e.callBody(fr, st, b, args, binds, call, ps)
	}
	if strings.HasPrefix(fn.Name(), "vcspec_") || strings.HasPrefix(fn.Name(), "Vcspec_") {
		return ret1(st, e.specCall(st, fn, args))
	}
	if strings.HasPrefix(fn.Name(), "vcuf_") || strings.HasPrefix(fn.Name(), "Vcuf_") {
		var ts []*Term
		for i, a := range args {
			ts = append(ts, e.specArg(st, a, fn.Params[i].Type())...)
		}
		rt := fn.Signature.Results().At(0).Type()
		return ret1(st, e.fromTerm(st, App("uf:"+fullName(fn), sortOf(rt), ts...), rt))
	}
	if strings.HasPrefix(fn.Name(), "vclemma_") {
		if fr.use != nil {
			return []arrival{{st: st, kind: aRet}} // proof steps of the callee's own contract
		}
		h := e.harness[name]
		if h == nil {
			unsup("lemma %s is not registered", name)
		}
		return e.useContract(fr, st, h, args, call)
	}
	if fr.use != nil && fr.use.h.Target == name && !fr.use.called {
		return e.havocCall(fr, st, fn, args)
	}
	if e.pure == 0 && e.h != nil && e.h.Target == name && fr.fn == e.h.fn && fr.use == nil {
		e.h.pre = st.clone()
		return e.callBody(fr, st, fn, args, binds, call, ps)
	}
	if m, ok := models[name]; ok {
		if m.note != "" {
			e.assumed[m.note] = true
		}
		return m.f(e, fr, st, args, call)
	}
	if fn.Origin() != nil {
		if m, ok := models[fullName(fn.Origin())]; ok {
			return m.f(e, fr, st, args, call)
		}
	}
	if e.pure == 0 && e.h != nil {
		if h := e.byTarget[name]; h != nil && (e.h.Use[name] || e.h.Target == name && !strings.HasPrefix(fr.fn.Name(), "vc")) {
			return e.useContract(fr, st, h, args, call)
		}
	}
	return e.callBody(fr, st, fn, args, binds, call, ps)
}
func (e *Eng) callBody(fr *Frame, st *State, fn *ssa.Function, args, binds []Val, call *ssa.CallCommon, ps *panicState) []arrival {
	name := fullName(fn)
	if !e.isRepo(fn) && !inlineStd[name] && fn.Synthetic == "" {
		unsup("no contract for external function %s", name)
	}
	if e.h != nil && e.h.NoInline[name] {
		unsup("no contract for %s", name)
	}
	if ps != nil {
		// a deferred closure may call recover
		old := e.recoverState
		e.recoverState = ps
		defer func() { e.recoverState = old }()
	}
	var use *useCtx
	if fr != nil && fr.use != nil && (strings.HasPrefix(fn.Name(), "vcdo_") || fn.Parent() == fr.use.h.fn) {
		use = fr.use // a part of the contract written as a function of its own
	}
	return e.execFunc(st, fn, args, binds, use)
}

// invoke: dynamic dispatch.
func (e *Eng) invoke(fr *Frame, st *State, recv Val, call *ssa.CallCommon, args []Val) []arrival {
	m := call.Method
	key := ifaceKey(call.Value.Type(), m.Name())
	if fr.use != nil && fr.use.h.Target == key && !fr.use.called {
		return e.havocInvoke(fr, st, key, recv, args, call)
	}
	if iv, ok := recv.(IfaceV); ok {
		fn := e.prog.LookupMethod(iv.T, m.Pkg(), m.Name())
		if fn == nil {
			unsup("no method %s on %s", m.Name(), iv.T)
		}
		return e.callFn(fr, st, fn, append([]Val{iv.V}, args...), nil, call, nil)
	}
	if b := e.bodies[key]; b != nil {
		e.bodyNote(key, b, true)
		return e.callBody(fr, st, b, append([]Val{recv}, args...), nil, call, nil)
	}
	t := e.toTerm(st, recv)
	if mm, ok := models["invoke:"+key]; ok {
		if mm.note != "" {
			e.assumed[mm.note] = true
		}
		return mm.f(e, fr, st, append([]Val{t}, args...), call)
	}
	top := e.h != nil && e.h.Target == key && fr.fn == e.h.fn && fr.use == nil && e.pure == 0
	if h := e.byTarget[key]; h != nil && !top && e.pure == 0 && (e.h.Use[key] || e.h.Target == key) {
		return e.useContract(fr, st, h, append([]Val{t}, args...), call)
	}
	it := under(call.Value.Type()).(*types.Interface)
	if top {
		e.h.pre = st.clone()
	}
	e.check(st, "nil-method-call", Not(Eq(Tag(t), Int(0))), call.Pos())
	if st.dead {
		return nil
	}
	tags := e.implTags(it)
	if tags == nil {
		if tg := st.decide(Eq(Tag(t), Int(0))); tg == True {
			return nil
		}
		tt := st.knownTag(t)
		if tt < 0 {
			unsup("dynamic call of %s on an open interface", key)
		}
		tags = []int{tt}
	}
	var out []arrival
	for _, k := range tags {
		c := st.decide(Eq(Tag(t), Int(int64(k))))
		if c == False {
			continue
		}
		st2 := st.clone()
		st2.assume(c)
		if st2.dead {
			continue
		}
		ty := typeByKey[tagNames[k]]
		v := e.fromTerm(st2, Unbox(k, sortOf(ty), t), ty)
		fn := e.prog.LookupMethod(ty, m.Pkg(), m.Name())
		out = append(out, e.callFn(fr.clone(), st2, fn, append([]Val{v}, args...), nil, call, nil)...)
		if c == True {
			break
		}
	}
	return out
}
func (s *State) knownTag(t *Term) int {
	tt := Tag(t)
	if tt.op == OInt {
		return int(tt.i.Int64())
	}
	if v, ok := s.eqc[tt]; ok && v.op == OInt {
		return int(v.i.Int64())
	}
	return -1
}

// ---- contracts in use mode

func (e *Eng) useContract(fr *Frame, st *State, h *Harness, args []Val, call *ssa.CallCommon) []arrival {
	if len(args) != len(h.fn.Params) {
		unsup("contract %s does not match the arity of its target", h.Name)
	}
	if h.lemma && h == e.h {
		// induction: the measure must decrease
		if h.decr == nil {
			unsup("recursive lemma %s without Decreases", h.Name)
		}
	}
	u := &useCtx{h: h, args: args}
	e.usedContracts[h.Name] = true
	e.inUse++
	as := e.execFunc(st, h.fn, args, nil, u)
	e.inUse--
	var out []arrival
	for _, a := range as {
		if a.kind == aPanic {
			out = append(out, arrival{st: a.st, kind: aPanic, pv: a.pv})
			continue
		}
		res := a.fr.use.result
		if v, ok := a.st.ghost["!result"]; ok {
			res = v.(TupleV)
			delete(a.st.ghost, "!result")
		}
		out = append(out, arrival{st: a.st, kind: aRet, vals: res})
	}
	return out
}

// havocCall stands for the target's effect inside its own contract.
func (e *Eng) havocCall(fr *Frame, st *State, fn *ssa.Function, args []Val) []arrival {
	pre := st.clone()
	st.ghost["!pre"] = stateBox{pre}
	e.havocMods(st, e.modsOf(fn), args)
	st.ghost["!havoced"] = e.havoced
	var out []arrival
	out = append(out, e.panicArrivals(fr, st)...)
	var vs []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, e.freshVal(st, rs.At(i).Type(), "res."+fn.Name()))
	}
	st.ghost["!result"] = TupleV(vs)
	return append(out, ret1(st, vs...)...)
}
func (e *Eng) havocInvoke(fr *Frame, st *State, key string, recv Val, args []Val, call *ssa.CallCommon) []arrival {
	pre := st.clone()
	st.ghost["!pre"] = stateBox{pre}
	ms := newModSet()
	it := under(call.Value.Type()).(*types.Interface)
	for _, k := range e.implTags(it) {
		fn := e.prog.LookupMethod(typeByKey[tagNames[k]], call.Method.Pkg(), call.Method.Name())
		ms.add(e.modsOf(fn))
	}
	e.havocMods(st, ms, append([]Val{recv}, args...))
	st.ghost["!havoced"] = e.havoced
	var vs []Val
	rs := call.Method.Type().(*types.Signature).Results()
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, e.freshVal(st, rs.At(i).Type(), "res."+call.Method.Name()))
	}
	st.ghost["!result"] = TupleV(vs)
	return ret1(st, vs...)
}

type stateBox struct{ s *State }
type cellSet map[int]bool

func (e *Eng) havocMods(st *State, ms *modSet, args []Val) {
	e.bumpAlloc(st)
	e.havoced = cellSet{} // the cells written by this havoc
	if ms.all {
		unsup("call with unknown effects (%s)", ms.why)
	}
	var ks []string
	for k := range ms.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	// cells handed in are changed through the keys of their type
	for _, a := range args {
		e.havocArgCells(st, ms, a, map[int]bool{})
	}
	for _, g := range ms.globals() {
		c := e.globalCell(st, g)
		st.cells[c] = e.freshVal(st, g.Type().(*types.Pointer).Elem(), "g."+g.Name())
		e.havoced[c] = true
	}
	for _, k := range ks {
		so, ok := heapSorts[k]
		if !ok {
			so = ms.sorts[k]
			if so == "" {
				continue
			}
		}
		e.H(st, k, so)
		v := Fresh("H:"+k, so)
		termBound[v] = st.allocK
		st.heap[k] = v
	}
	st.epoch = e.nextEpoch()
}
func (e *Eng) havocArgCells(st *State, ms *modSet, v Val, seen map[int]bool) {
	switch x := v.(type) {
	case PtrV:
		if x.Cell == 0 || seen[x.Cell] {
			return
		}
		seen[x.Cell] = true
		c := st.cells[x.Cell]
		if _, ok := c.(FwdV); ok {
			return
		}
		ty := e.cellType[x.Cell]
		if sv, ok := c.(StructV); ok {
			n := StructV{T: sv.T, F: append([]Val{}, sv.F...)}
			stt := under(sv.T).(*types.Struct)
			for i := range n.F {
				if ms.keys[fieldKey(sv.T, i)] || ms.keys["P:"+typeName(sv.T)] {
					n.F[i] = e.freshVal(st, stt.Field(i).Type(), stt.Field(i).Name())
				} else {
					e.havocArgCells(st, ms, n.F[i], seen)
				}
			}
			st.cells[x.Cell] = n
			e.havoced[x.Cell] = true
			return
		}
		if at, ok := c.(ArrayV); ok {
			if ms.keys[elemKey(at.Elem)] {
				st.cells[x.Cell] = e.freshVal(st, ty, "arr")
				e.havoced[x.Cell] = true
			}
			return
		}
		if ms.keys["P:"+typeName(ty)] {
			st.cells[x.Cell] = e.freshVal(st, ty, "cell")
			e.havoced[x.Cell] = true
		}
	case SliceV:
		if x.Cell > 0 && ms.keys[elemKey(x.Elem)] {
			e.escape(st, x.Cell, nil)
		}
	case IfaceV:
		e.havocArgCells(st, ms, x.V, seen)
	case StructV:
		for _, f := range x.F {
			e.havocArgCells(st, ms, f, seen)
		}
	case ClosureV:
		for _, b := range x.Binds {
			e.havocArgCells(st, ms, b, seen)
		}
	}
}

// ---- effect sets

type modSet struct {
	keys  map[string]bool
	sorts map[string]Sort
	gl    map[*ssa.Global]bool
	all   bool
	why   string
}

func newModSet() *modSet {
	return &modSet{keys: map[string]bool{}, sorts: map[string]Sort{}, gl: map[*ssa.Global]bool{}}
}
func (m *modSet) add(o *modSet) {
	for k := range o.keys {
		m.keys[k] = true
		m.sorts[k] = o.sorts[k]
	}
	for g := range o.gl {
		m.gl[g] = true
	}
	if o.all {
		m.all, m.why = true, o.why
	}
}
func (m *modSet) globals() []*ssa.Global {
	var r []*ssa.Global
	for g := range m.gl {
		r = append(r, g)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func (e *Eng) modsOf(fn *ssa.Function) *modSet {
	ms := newModSet()
	seen := map[*ssa.Function]bool{}
	e.modWalk(fn, ms, seen)
	return ms
}
func (m *modSet) put(k string, s Sort) { m.keys[k] = true; m.sorts[k] = s }
func (m *modSet) putType(t types.Type) {
	if isBuffer(t) {
		m.put("P:"+typeName(t), ArrSort(SStr))
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			m.put(fieldKey(t, i), ArrSort(sortOf(u.Field(i).Type())))
		}
	case *types.Array:
		m.put(elemKey(u.Elem()), elemSort(u.Elem()))
	default:
		m.put("P:"+typeName(t), ArrSort(sortOf(t)))
	}
}
func (m *modSet) putElem(t types.Type) { m.put(elemKey(t), elemSort(t)) }

func (m *modSet) putAddr(v ssa.Value, local map[ssa.Value]bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		switch y := x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			m.putAddr(y, local)
			return
		case *ssa.Alloc:
			if local[y] {
				return
			}
		case *ssa.Global:
			m.gl[y] = true
			return
		}
		st := under(x.X.Type()).(*types.Pointer).Elem()
		ft := under(st).(*types.Struct).Field(x.Field).Type()
		m.put(fieldKey(st, x.Field), ArrSort(sortOf(ft)))
		if theEng != nil {
			for k, so := range theEng.owners(st) {
				m.put(k, so)
			}
		}
	case *ssa.IndexAddr:
		if pt, ok := under(x.X.Type()).(*types.Pointer); ok {
			switch y := x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				m.putAddr(y, local)
				return
			case *ssa.Alloc:
				if local[y] {
					return
				}
			case *ssa.Global:
				m.gl[y] = true
				return
			}
			m.putElem(under(pt.Elem()).(*types.Array).Elem())
			return
		}
		m.putElem(under(x.X.Type()).(*types.Slice).Elem())
	case *ssa.Alloc:
		if local[x] {
			return
		}
		m.putType(under(x.Type()).(*types.Pointer).Elem())
	case *ssa.Global:
		m.gl[x] = true
	default:
		m.putType(under(v.Type()).(*types.Pointer).Elem())
	}
}

func (e *Eng) modWalk(fn *ssa.Function, ms *modSet, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	name := fullName(fn)
	if b := e.bodies[name]; b != nil {
		e.modWalk(b, ms, seen)
		return
	}
	if e.isVC(fn) {
		return
	}
	if md, ok := models[name]; ok {
		if md.mods != nil {
			md.mods(ms)
		}
		return
	}
	if fn.Blocks == nil || !e.isRepo(fn) && !inlineStd[name] && fn.Synthetic == "" {
		ms.all = true
		ms.why = name
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				ms.all = true
				ms.why = name + ": " + u.msg
				return
			}
			panic(r)
		}
	}()
	local := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if !x.Heap {
					local[x] = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if x.Heap {
					ms.putType(under(x.Type()).(*types.Pointer).Elem())
				}
			case *ssa.Store:
				ms.putAddr(x.Addr, local)
			case *ssa.MakeSlice:
				ms.putElem(under(x.Type()).(*types.Slice).Elem())
			case *ssa.MakeMap:
				mt := under(x.Type()).(*types.Map)
				dk, vk, ks, vs := mapKeys(mt)
				ms.put(dk, ArrSort(ArrSortK(ks, SBool)))
				ms.put(vk, ArrSort(ArrSortK(ks, vs)))
			case *ssa.MapUpdate:
				mt := under(x.Map.Type()).(*types.Map)
				dk, vk, ks, vs := mapKeys(mt)
				ms.put(dk, ArrSort(ArrSortK(ks, SBool)))
				ms.put(vk, ArrSort(ArrSortK(ks, vs)))
			case *ssa.Convert:
				if isBytes(x.Type()) {
					ms.put("E:byte", ArrSort(ArrSort(SInt)))
				}
			case *ssa.MakeClosure:
				e.modWalk(x.Fn.(*ssa.Function), ms, seen)
			}
			cc, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := cc.Common()
			for _, a := range c.Args {
				if f, ok := a.(*ssa.Function); ok {
					e.modWalk(f, ms, seen)
				}
			}
			if c.IsInvoke() {
				key := ifaceKey(c.Value.Type(), c.Method.Name())
				if b := e.bodies[key]; b != nil {
					e.modWalk(b, ms, seen)
					continue
				}
				if md, ok := models["invoke:"+key]; ok {
					if md.mods != nil {
						md.mods(ms)
					}
					continue
				}
				tags := e.implTags(under(c.Value.Type()).(*types.Interface))
				if tags == nil {
					ms.all = true
					ms.why = key
					continue
				}
				for _, k := range tags {
					e.modWalk(e.prog.LookupMethod(typeByKey[tagNames[k]], c.Method.Pkg(), c.Method.Name()), ms, seen)
				}
				continue
			}
			switch f := c.Value.(type) {
			case *ssa.Builtin:
				switch f.Name() {
				case "append", "copy":
					ms.putElem(under(c.Args[0].Type()).(*types.Slice).Elem())
				case "delete":
					mt := under(c.Args[0].Type()).(*types.Map)
					dk, _, ks, _ := mapKeys(mt)
					ms.put(dk, ArrSort(ArrSortK(ks, SBool)))
				}
			case *ssa.Function:
				e.modWalk(f, ms, seen)
			case *ssa.MakeClosure:
				e.modWalk(f.Fn.(*ssa.Function), ms, seen)
			default:
				if e.funcContract(c.Value) != nil {
					for _, g := range e.funcCands(under(c.Value.Type()).(*types.Signature)) {
						e.modWalk(g, ms, seen)
					}
				} else {
					ms.all = true
					ms.why = "call of a function value in " + name
				}
			}
		}
	}
}

// ---- builtins

func (e *Eng) builtin(fr *Frame, st *State, name string, args []Val, call *ssa.CallCommon, ps *panicState) []arrival {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			if x.sort == SStr {
				return ret1(st, Len(x))
			}
			if _, ok := under(call.Args[0].Type()).(*types.Map); ok {
				dk, _, ks, _ := mapKeys(under(call.Args[0].Type()).(*types.Map))
				return ret1(st, Ite(Eq(x, Int(0)), Int(0), App("mapcard", SInt, Select(e.H(st, dk, ArrSort(ArrSortK(ks, SBool))), x))))
			}
			if at, ok := under(call.Args[0].Type()).(*types.Array); ok {
				return ret1(st, Int(at.Len()))
			}
		case SliceV:
			return ret1(st, x.Len)
		case ArrayV:
			return ret1(st, Int(int64(len(x.E))))
		}
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			return ret1(st, x.Cap)
		}
	case "append":
		return ret1(st, e.append(st, args, call))
	case "copy":
		d := args[0].(SliceV)
		var srow, soff, slen *Term
		if s, ok := args[1].(SliceV); ok {
			srow, soff, slen = e.row(st, s), s.Off, s.Len
		} else {
			t := e.toTerm(st, args[1])
			srow, soff, slen = App("s2b", ArrSort(SInt), t), Int(0), Len(t)
		}
		n := Ite(st.decide(Le(d.Len, slen)), d.Len, slen)
		d = e.heapSlice(st, d)
		e.blit(st, d.Elem, d.Ref, d.Ref, d.Off, srow, soff, n)
		return ret1(st, n)
	case "delete":
		mt := under(call.Args[0].Type()).(*types.Map)
		dk, _, ks, _ := mapKeys(mt)
		m, k := e.toTerm(st, args[0]), e.toTerm(st, args[1])
		d := e.H(st, dk, ArrSort(ArrSortK(ks, SBool)))
		e.setH(st, dk, m, Store(d, m, Store(Select(d, m), k, False)))
		return ret1(st)
	case "recover":
		if e.recoverState != nil && e.recoverState.val != nil {
			v := e.recoverState.val
			st.ghost["!recovered"] = True
			return ret1(st, v)
		}
		return ret1(st, NilAny)
	case "print", "println":
		return ret1(st)
	case "ssa:wrapnilchk":
		return ret1(st, args[0])
	case "min", "max":
		v := e.toTerm(st, args[0])
		for _, a := range args[1:] {
			t := e.toTerm(st, a)
			if name == "min" {
				v = Ite(Le(v, t), v, t)
			} else {
				v = Ite(Le(t, v), v, t)
			}
		}
		return ret1(st, v)
	}
	unsup("builtin %s", name)
	return nil
}

func (e *Eng) append(st *State, args []Val, call *ssa.CallCommon) Val {
	s := args[0].(SliceV)
	el := s.Elem
	var n *Term
	var vals []*Term // known elements
	var trow, toff *Term
	switch t := args[1].(type) {
	case SliceV:
		if t.Ref == Int(0) && t.Len == Int(0) {
			return s
		}
		n = t.Len
		if n.op == OInt && n.i.Int64() <= 16 {
			for i := int64(0); i < n.i.Int64(); i++ {
				v := e.load(st, e.elemPtr(st, t, Int(i)))
				vals = append(vals, e.toTerm(st, v))
			}
		} else {
			trow, toff = e.row(st, t), t.Off
		}
	case *Term:
		n = Len(t)
		trow, toff = App("s2b", ArrSort(SInt), t), Int(0)
	default:
		unsup("append %T", args[1])
	}
	if n == Int(0) {
		return s
	}
	if s.Frozen != nil || e.pure > 0 {
		row := e.row(st, s)
		if vals != nil {
			for i, v := range vals {
				row = Store(row, Add(s.Off, s.Len, Int(int64(i))), v)
			}
			return SliceV{Elem: el, Frozen: row, Ref: Int(-1), Off: s.Off, Len: Add(s.Len, n), Cap: Add(s.Len, n)}
		}
		unsup("append of a slice in a specification")
	}
	s = e.heapSlice(st, s)
	fits := st.decide(Le(Add(s.Len, n), s.Cap))
	if s.Cap == Int(0) {
		fits = False
		if vals == nil {
			fits = st.decide(Le(n, Int(0)))
		}
	}
	fresh := e.newRef(st)
	ref := Ite(fits, s.Ref, fresh)
	nc := Fresh("cap", SInt)
	st.assume(Le(Add(s.Len, n), nc))
	k := elemKey(el)
	e.H(st, k, elemSort(el))
	if vals != nil {
		row := Select(st.heap[k], s.Ref)
		if s.Ref == Int(0) {
			row = ConstArr(ArrSort(sortOf(el)), e.toTerm(st, e.zero(el)))
		}
		for i, v := range vals {
			row = Store(row, Add(s.Off, s.Len, Int(int64(i))), v)
		}
		e.setH(st, k, ref, Store(st.heap[k], ref, row))
	} else {
		old := Select(e.H(st, k, elemSort(el)), s.Ref)
		e.blit(st, el, s.Ref, ref, Add(s.Off, s.Len), trow, toff, n)
		if sortOf(el) == SInt && elemKey(el) == "E:byte" {
			// consequence of the copy, as strings
			nr := Select(st.heap[k], ref)
			doff, end := Add(s.Off, s.Len), Add(s.Off, s.Len, n)
			o, m := Bound("o", SInt), Bound("m", SInt)
			nrs := App("bytes2str", SStr, nr, o, m)
			tr := []*Term{nrs}
			st.assume(Forall([]*Term{o, m}, Imp(And(Le(Int(0), m), Or(Le(Add(o, m), doff), Le(end, o))), Eq(nrs, App("bytes2str", SStr, old, o, m))), tr))
			st.assume(Forall([]*Term{o, m}, Imp(And(Le(Int(0), m), Le(doff, o), Le(Add(o, m), end)), Eq(nrs, App("bytes2str", SStr, trow, Add(toff, Sub(o, doff)), m))), tr))
			st.assume(Forall([]*Term{o, m}, Imp(And(Le(o, doff), Le(doff, Add(o, m)), Le(Add(o, m), end)), Eq(nrs, Cat(App("bytes2str", SStr, old, o, Sub(doff, o)), App("bytes2str", SStr, trow, toff, Sub(Add(o, m), doff))))), tr))
			st.assume(Eq(App("bytes2str", SStr, nr, s.Off, Add(s.Len, n)),
				Cat(App("bytes2str", SStr, old, s.Off, s.Len), App("bytes2str", SStr, trow, toff, n))))
		}
	}
	return SliceV{Elem: el, Ref: ref, Off: s.Off, Len: Add(s.Len, n), Cap: Ite(fits, s.Cap, nc)}
}

// blit writes n elements of srow from soff at doff of the row of from, into the row of to.
func (e *Eng) blit(st *State, el types.Type, from, to, doff, srow, soff, n *Term) {
	k := elemKey(el)
	h := e.H(st, k, elemSort(el))
	old := Select(h, from)
	nr := Fresh("row", ArrSort(sortOf(el)))
	b := boundOf(old)
	if c := boundOf(srow); c > b {
		b = c
	}
	if b < 0 {
		b = 0
	}
	if b < noBound {
		termBound[nr] = b
	}
	j := Bound("j", SInt)
	in := And(Le(doff, j), Lt(j, Add(doff, n)))
	st.assume(Forall([]*Term{j}, Eq(Select(nr, j), Ite(in, Select(srow, Add(soff, Sub(j, doff))), Select(old, j))), []*Term{Select(nr, j)}))
	e.setH(st, k, to, Store(h, to, nr))
}

// ---- specification functions

type SpecFn struct {
	fn   *ssa.Function
	rec  bool
	keys []string
	done bool
	name string
}

func (e *Eng) specOf(fn *ssa.Function) *SpecFn {
	if s, ok := e.specs[fn]; ok {
		return s
	}
	s := &SpecFn{fn: fn, name: "spec:" + fullName(fn)}
	e.specs[fn] = s
	e.specName[s.name] = s
	s.rec = reaches(fn, fn, map[*ssa.Function]bool{})
	return s
}
func reaches(from, to *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[from] {
		return false
	}
	seen[from] = true
	var fs []*ssa.Function
	for _, b := range from.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					fs = append(fs, f)
				}
			}
			if m, ok := in.(*ssa.MakeClosure); ok {
				fs = append(fs, m.Fn.(*ssa.Function))
			}
		}
	}
	for _, f := range fs {
		if f == to || (strings.HasPrefix(f.Name(), "vcspec_") || strings.HasPrefix(f.Name(), "Vcspec_")) && reaches(f, to, seen) || f.Parent() != nil && reaches(f, to, seen) {
			return true
		}
	}
	return false
}

func (e *Eng) specCall(st *State, fn *ssa.Function, args []Val) Val {
	s := e.specOf(fn)
	if !s.rec {
		return e.evalPure(st, fn, args, nil)
	}
	if !s.done {
		e.specKeys(s)
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.specArg(st, a, fn.Params[i].Type())...)
	}
	for _, k := range s.keys {
		ts = append(ts, e.H(st, k, heapSorts[k]))
	}
	rt := fn.Signature.Results()
	if rt.Len() != 1 {
		unsup("specification function %s must have one result", fn)
	}
	so := sortOf(rt.At(0).Type())
	return e.fromTerm(st, App(s.name, so, ts...), rt.At(0).Type())
}
func (e *Eng) specArg(st *State, v Val, ty types.Type) []*Term {
	if sl, ok := v.(SliceV); ok {
		return []*Term{e.row(st, sl), sl.Off, sl.Len}
	}
	t, ok := e.pureTerm(v)
	if !ok {
		t = e.toTerm(st, v)
	}
	return []*Term{t}
}

// specKeys finds the heap arrays a recursive specification reads.
func (e *Eng) specKeys(s *SpecFn) {
	s.done = true // recursive calls see the current approximation
	for round := 0; round < 8; round++ {
		rec := map[string]bool{}
		e.readKeys = append(e.readKeys, rec)
		st := newState()
		st.allowB = true
		e.initAlloc(st)
		var args []Val
		for _, p := range s.fn.Params {
			args = append(args, e.freshVal(st, p.Type(), p.Name()))
		}
		for i, a := range args {
			if sl, ok := a.(SliceV); ok {
				_ = i
				sl.Frozen = Fresh("row", ArrSort(sortOf(sl.Elem)))
				args[i] = sl
			}
		}
		e.evalPure(st, s.fn, args, nil)
		e.readKeys = e.readKeys[:len(e.readKeys)-1]
		var ks []string
		for k := range rec {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if fmt.Sprint(ks) == fmt.Sprint(s.keys) {
			return
		}
		s.keys = ks
		// others may depend on us
		for _, o := range e.specs {
			if o != s && o.rec {
				o.done = false
			}
		}
	}
}

func (e *Eng) initAlloc(st *State) {
	v, k := newAllocVar()
	st.alloc, st.allocK = v, k
	e.fact(st, Le(Int(1), v))
}

// unfold gives the defining equation of a ground application and its facts.
func (e *Eng) unfold(t *Term) []*Term {
	s := e.specName[t.name]
	if s == nil {
		return e.unfoldRx(t)
	}
	st := newState()
	e.initAlloc(st)
	i := 0
	var args []Val
	for _, p := range s.fn.Params {
		if sl, ok := under(p.Type()).(*types.Slice); ok {
			args = append(args, SliceV{Elem: sl.Elem(), Frozen: t.args[i], Ref: Int(-1), Off: t.args[i+1], Len: t.args[i+2], Cap: t.args[i+2]})
			i += 3
			continue
		}
		args = append(args, e.fromTerm(st, t.args[i], p.Type()))
		i++
	}
	for _, k := range s.keys {
		st.heap[k] = t.args[i]
		i++
	}
	v := e.evalPure(st, s.fn, args, nil)
	bt := e.toTerm(st, v)
	return append(append([]*Term{}, st.pc...), Eq(t, bt))
}

func collectSpec(ts []*Term, seen map[*Term]bool, out *[]*Term) {
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && strings.HasPrefix(t.name, "spec:") && !t.hasB {
			*out = append(*out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
}

// expand adds defining equations up to the given number of rounds.
func (e *Eng) expand(assume []*Term, goal *Term, rounds int) []*Term {
	all := append([]*Term{}, assume...)
	seen := map[*Term]bool{}
	var todo []*Term
	collectSpec(append(append([]*Term{}, assume...), goal), seen, &todo)
	n := 0
	for r := 0; r < rounds && len(todo) > 0; r++ {
		var eqs []*Term
		for _, t := range todo {
			n++
			if n > 300 {
				return all
			}
			eqs = append(eqs, e.unfold(t)...)
		}
		all = append(all, eqs...)
		todo = nil
		collectSpec(eqs, seen, &todo)
	}
	return all
}

// ---- the vc package

func (e *Eng) strArg(v Val) string {
	if t, ok := v.(*Term); ok && t.op == OStrL {
		return t.name
	}
	return "?"
}

func (e *Eng) vcCall(fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival {
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	none := []arrival{{st: st, kind: aRet}}
	switch name {
	case "Requires":
		c := e.toTerm(st, args[0])
		if fr.use != nil {
			if !fr.use.called {
				e.oblige(st, "requires", "precondition of "+fr.use.h.Name+" at call", c, call.Pos())
			}
			st.assume(c)
			return none
		}
		st.assume(c)
		if st.dead {
			e.deadReq = true
		}
		return none
	case "Assume":
		e.assumed["Assume in "+e.h.Name+" at "+e.pos(call.Pos())] = true
		c := e.toTerm(st, args[0])
		if os.Getenv("GVC_ASSUME") != "" {
			fmt.Println("ASSUME", e.pos(call.Pos()), c)
		}
		st.assume(c)
		return none
	case "Defines":
		if fr.use != nil {
			e.assumed["definition in "+fr.use.h.Name+", consistent by "+e.strArg(args[0])] = true
			st.assume(e.toTerm(st, args[1]))
		}
		return none
	case "Ensures", "Assert":
		c := e.toTerm(st, args[1])
		if fr.use != nil {
			if name == "Ensures" {
				st.assume(c)
			}
			return none
		}
		e.oblige(st, "ensures", e.strArg(args[0]), c, call.Pos())
		st.assume(c)
		return none
	case "Cover":
		if fr.use == nil && e.quiet == 0 && e.pure == 0 {
			e.covers = append(e.covers, &Obl{H: e.h, Name: e.strArg(args[0]), PC: append([]*Term{}, st.pc...), Goal: False})
		}
		return none
	case "Decreases":
		m := e.toTerm(st, args[0])
		if fr.use == nil {
			e.h.decr = m
			return none
		}
		if fr.use.h == e.h {
			e.oblige(st, "decreases", "measure of "+e.h.Name, And(Le(Int(0), e.h.decr), Lt(m, e.h.decr)), call.Pos())
		}
		return none
	case "Implies":
		return ret1(st, Imp(e.toTerm(st, args[0]), e.toTerm(st, args[1])))
	case "Forall", "Exists":
		lo, hi := e.toTerm(st, args[0]), e.toTerm(st, args[1])
		cl := args[2].(ClosureV)
		k := Bound("k", SInt)
		s2 := st
		body := e.evalPure(s2, cl.Fn, []Val{k}, cl.Binds)
		b := e.toTerm(st, body)
		rng := And(Le(lo, k), Lt(k, hi))
		if name == "Forall" {
			return ret1(st, Forall([]*Term{k}, Imp(rng, b)))
		}
		return ret1(st, Exists([]*Term{k}, And(rng, b)))
	case "ForallStr":
		cl := args[0].(ClosureV)
		k := Bound("s", SStr)
		body := e.toTerm(st, e.evalPure(st, cl.Fn, []Val{k}, cl.Binds))
		return ret1(st, Forall([]*Term{k}, body))
	case "Ghost":
		if fr.use != nil || e.inUse != 0 {
			return none
		}
		n := e.strArg(args[0])
		v := args[1]
		if iv, ok := v.(IfaceV); ok {
			st.ghost["$"+n] = iv
		} else {
			st.ghost["$"+n] = v
		}
		return none
	case "CopySlice":
		s := args[0].(SliceV)
		return ret1(st, SliceV{Elem: s.Elem, Frozen: e.row(st, s), Ref: Int(-1), Off: s.Off, Len: s.Len, Cap: s.Len})
	case "Arr":
		s := args[0].(SliceV)
		s.Exact = true
		return ret1(st, IfaceV{fn.Signature.Params().At(0).Type(), s})
	case "CopyMap":
		mt := under(fn.Signature.Results().At(0).Type()).(*types.Map)
		m := e.toTerm(st, args[0])
		r := e.newRef(st)
		dk, vk, ks, vs := mapKeys(mt)
		d := e.H(st, dk, ArrSort(ArrSortK(ks, SBool)))
		st.heap[dk] = Store(d, r, Ite(Eq(m, Int(0)), ConstArr(ArrSortK(ks, SBool), False), Select(d, m)))
		w := e.H(st, vk, ArrSort(ArrSortK(ks, vs)))
		st.heap[vk] = Store(w, r, Select(w, m))
		return ret1(st, r)
	case "Apart":
		ref := func(v Val) *Term {
			if iv, ok := v.(IfaceV); ok {
				v = iv.V
			}
			switch x := v.(type) {
			case SliceV:
				return x.Ref
			case PtrV:
				return e.toTerm(st, x)
			case *Term:
				return x
			}
			unsup("Apart of %T", v)
			return nil
		}
		a, b := ref(args[0]), ref(args[1])
		for _, r := range []*Term{a, b} {
			if k := boundOf(r); k >= 0 && k < len(allocVars) {
				e.fact(st, And(Le(Int(0), r), Lt(r, allocVars[k])))
			}
		}
		return ret1(st, Or(Eq(a, Int(0)), Not(Eq(a, b))))
	case "Any":
		ty := fn.Signature.Results().At(0).Type()
		return ret1(st, e.freshVal(st, ty, "any."+e.strArg(args[0])))
	case "Receiver", "Method":
		// the receiver of a bound method value, and which method it is
		v := args[0]
		if iv, ok := v.(IfaceV); ok {
			v = iv.V
		}
		cl, ok := v.(ClosureV)
		if !ok || cl.Fn == nil || len(cl.Binds) != 1 || !strings.HasSuffix(cl.Fn.Name(), "$bound") {
			unsup("not a bound method")
		}
		if name == "Method" {
			if cl.Fn.Name() == e.strArg(args[1])+"$bound" {
				return ret1(st, True)
			}
			return ret1(st, False)
		}
		return ret1(st, cl.Binds[0])
	case "SameArr":
		x, ok1 := args[0].(SliceV)
		y, ok2 := args[1].(SliceV)
		if !ok1 || !ok2 {
			unsup("SameArr of something else than slices")
		}
		return ret1(st, Eq(x.Ref, y.Ref))
	case "Pure":
		// all memory that existed before the target call is unchanged
		var pre *State
		if b, ok := st.ghost["!pre"]; ok && fr.use != nil {
			pre = b.(stateBox).s
		} else {
			pre = e.h.pre
		}
		if pre == nil {
			unsup("Pure before the target call")
		}
		var cs []*Term
		for _, k := range sortedKeys(st.heap) {
			now := st.heap[k]
			old := e.H(pre, k, heapSorts[k])
			if now == old {
				continue
			}
			r := Bound("r", SInt)
			cs = append(cs, Forall([]*Term{r}, Imp(Lt(r, pre.alloc), Eq(Select(now, r), Select(old, r))), []*Term{Select(now, r)}))
		}
		return ret1(st, And(cs...))
	case "SameSlice":
		a, b := args[0].(SliceV), args[1].(SliceV)
		j := Bound("j", SInt)
		ra, rb := e.row(st, a), e.row(st, b)
		g := And(Eq(a.Len, b.Len), Forall([]*Term{j}, Imp(And(Le(Int(0), j), Lt(j, a.Len)), Eq(Select(ra, Add(a.Off, j)), Select(rb, Add(b.Off, j))))))
		return ret1(st, g)
	case "Unreachable":
		e.oblige(st, "unreachable", "unreachable", False, call.Pos())
		st.dead = true
		return nil
	}
	if f, ok := vcExtra[name]; ok {
		return f(e, fr, st, fn, args, call)
	}
	unsup("vc.%s", name)
	return nil
}

var vcExtra = map[string]func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) []arrival{}

func (e *Eng) specClosure(fr *Frame, st *State, f ClosureV, args []Val, call *ssa.CallCommon) []arrival {
	unsup("special closure %s", f.Spec)
	return nil
}

var _ = token.NoPos

func calledLemma(in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok {
		if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "vclemma_") {
			return fullName(f)
		}
	}
	return ""
}

// param makes a harness parameter.
func (e *Eng) param(st *State, ty types.Type, name string) Val {
	return e.freshVal(st, ty, name)
}

// panicArrivals are the panics a call under contract may end in.
func (e *Eng) panicArrivals(fr *Frame, st *State) []arrival {
	if fr.use.panicIf == nil && !fr.use.h.MayPanic {
		return nil
	}
	s := st.clone()
	if fr.use.panicIf != nil {
		s.assume(fr.use.panicIf)
	}
	for _, c := range fr.use.panics {
		for _, r := range e.callVal0(fr, s, c.f, nil, c.call, nil) {
			if r.kind != aRet {
				unsup("vc.Panics panics")
			}
			s = r.st
			s.assume(e.toTerm(s, r.vals[0]))
		}
	}
	if s.dead {
		return nil
	}
	// recover never sees nil (since Go 1.21, panic(nil) raises an error of its own)
	pv := Fresh("panic", SAny)
	s.assume(Not(Eq(Tag(pv), Int(0))))
	return []arrival{{st: s, fr: fr, kind: aPanic, pv: pv}}
}

type panicCond struct {
	name string
	f    Val
	call *ssa.CallCommon
}
