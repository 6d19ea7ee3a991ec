package main

// Contracts of function values (by named function type or by the struct field
// they are read from), and immutable struct fields.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// funcKeys names the contracts a call of a function value can use.
func funcKeys(v ssa.Value) []string {
	var ks []string
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				t := under(fa.X.Type()).(*types.Pointer).Elem()
				ks = append(ks, "field:"+typeName(t)+"."+under(t).(*types.Struct).Field(fa.Field).Name())
			}
		}
	case *ssa.Field:
		t := x.X.Type()
		ks = append(ks, "field:"+typeName(t)+"."+under(t).(*types.Struct).Field(x.Field).Name())
	}
	return append(ks, "func:"+typeName(v.Type()))
}
func isFuncTarget(t string) bool {
	return strings.HasPrefix(t, "field:") || strings.HasPrefix(t, "func:")
}

// funcContract finds the contract of a called function value.
func (e *Eng) funcContract(v ssa.Value) *Harness {
	for _, k := range funcKeys(v) {
		if h := e.byTarget[k]; h != nil {
			return h
		}
	}
	return nil
}

// funcCands: every function of the repository whose value is taken and that has the signature.
func (e *Eng) funcCands(sig *types.Signature) []*ssa.Function {
	if e.addrTaken == nil {
		e.addrTaken = map[*ssa.Function]bool{}
		for f := range ssautil.AllFunctions(e.prog) {
			if !e.isRepo(f) || strings.HasPrefix(f.Name(), "vc") || f.Parent() != nil && strings.HasPrefix(f.Parent().Name(), "vc") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						callee = c.Common().Value
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						e.addrTaken[mc.Fn.(*ssa.Function)] = true
						continue
					}
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok {
							if *op == callee {
								n := 0
								for _, o2 := range in.Operands(nil) {
									if *o2 == *op {
										n++
									}
								}
								if n < 2 {
									continue
								}
							}
							e.addrTaken[g] = true
						}
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for f := range e.addrTaken {
		s := f.Signature
		if s.Recv() == nil && types.Identical(s, sig) || s.Recv() != nil && len(f.FreeVars) == 0 && sameAsMethodExpr(s, sig) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}
func sameAsMethodExpr(m, sig *types.Signature) bool {
	if sig.Params().Len() != m.Params().Len()+1 || !types.Identical(sig.Params().At(0).Type(), m.Recv().Type()) {
		return false
	}
	for i := 0; i < m.Params().Len(); i++ {
		if !types.Identical(m.Params().At(i).Type(), sig.Params().At(i+1).Type()) {
			return false
		}
	}
	return types.Identical(m.Results(), sig.Results())
}

func (e *Eng) funcMods(sig *types.Signature, seen map[*ssa.Function]bool) *modSet {
	ms := newModSet()
	for _, f := range e.funcCands(sig) {
		e.modWalk(f, ms, seen)
	}
	return ms
}

// havocFunc stands for a call of an unknown function inside its contract.
func (e *Eng) havocFunc(fr *Frame, st *State, args []Val, call *ssa.CallCommon) []arrival {
	sig := under(call.Value.Type()).(*types.Signature)
	pre := st.clone()
	st.ghost["!pre"] = stateBox{pre}
	e.havocMods(st, e.funcMods(sig, map[*ssa.Function]bool{}), args)
	st.ghost["!havoced"] = e.havoced
	var out []arrival
	out = append(out, e.panicArrivals(fr, st)...)
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, e.freshVal(st, sig.Results().At(i).Type(), "res"))
	}
	st.ghost["!result"] = TupleV(vs)
	return append(out, ret1(st, vs...)...)
}

// ---- immutable fields

// checkImmutable reports the first use of an immutable field that is not a read.
func (e *Eng) checkImmutable() []string {
	var bad []string
	rep := func(f *ssa.Function, p token.Pos, what string) {
		bad = append(bad, fmt.Sprintf("%s: %s in %s", e.pos(p), what, fullName(f)))
	}
	if len(e.immutable) == 0 {
		return nil
	}
	typ := map[string]bool{}
	for k := range e.immutable {
		typ[k[:strings.LastIndex(k, ".")]] = true
	}
	var readSlice func(f *ssa.Function, v ssa.Value)
	readSlice = func(f *ssa.Function, v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if g := x.Call.StaticCallee(); g != nil && strings.HasPrefix(g.Name(), "vc") {
					continue
				}
			case *ssa.IndexAddr:
				if x.X == v {
					ok := true
					for _, r2 := range *x.Referrers() {
						if u, is := r2.(*ssa.UnOp); !is || u.Op != token.MUL {
							if _, dbg := r2.(*ssa.DebugRef); !dbg {
								ok = false
							}
						}
					}
					if ok {
						continue
					}
				}
			case *ssa.DebugRef, *ssa.BinOp:
				continue
			}
			rep(f, r.Pos(), "an immutable slice is passed on")
		}
	}
	for f := range ssautil.AllFunctions(e.prog) {
		if !e.isRepo(f) || f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if pt, ok := under(x.Addr.Type()).(*types.Pointer); ok && typ[typeName(pt.Elem())] {
						rep(f, x.Pos(), "a value of an immutable type is overwritten")
					}
				case *ssa.Field:
					t := x.X.Type()
					if _, ok := under(t).(*types.Struct); ok && e.immutable[typeName(t)+"."+under(t).(*types.Struct).Field(x.Field).Name()] {
						if _, is := under(x.Type()).(*types.Slice); is {
							readSlice(f, x)
						}
					}
				case *ssa.FieldAddr:
					t := under(x.X.Type()).(*types.Pointer).Elem()
					if !e.immutable[typeName(t)+"."+under(t).(*types.Struct).Field(x.Field).Name()] {
						continue
					}
					for _, r := range *x.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp:
							if u.Op == token.MUL {
								if _, is := under(u.Type()).(*types.Slice); is {
									readSlice(f, u)
								}
								continue
							}
						case *ssa.IndexAddr:
							continue
						case *ssa.DebugRef:
							continue
						}
						rep(f, r.Pos(), "an immutable field is used as a location")
					}
				}
			}
		}
	}
	sort.Strings(bad)
	return bad
}

// frozenField makes a slice read from an immutable field independent of the heap.
func (e *Eng) frozenField(t types.Type, f int, v Val) Val {
	sl, ok := v.(SliceV)
	if !ok || len(e.immutable) == 0 || !e.immutable[typeName(t)+"."+under(t).(*types.Struct).Field(f).Name()] {
		return v
	}
	k, so := elemKey(sl.Elem), elemSort(sl.Elem)
	if heapSorts[k] == "" {
		heapSorts[k] = so
	}
	h := Var("H0:"+k, so)
	termBound[h] = 0
	sl.Frozen = Select(h, sl.Ref)
	return sl
}

// owners: the keys under which a struct of type t can also live, as part of another object.
func (e *Eng) owners(t types.Type) map[string]Sort {
	if e.ownerMap == nil {
		e.ownerMap = map[string]map[string]Sort{}
		put := func(s types.Type, k string, so Sort) {
			n := typeName(s)
			if e.ownerMap[n] == nil {
				e.ownerMap[n] = map[string]Sort{}
			}
			e.ownerMap[n][k] = so
		}
		isStruct := func(t types.Type) bool {
			_, ok := under(t).(*types.Struct)
			return ok && !isBuffer(t)
		}
		for p := range e.repoPkgs {
			for _, n := range p.Pkg.Scope().Names() {
				tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				nt, ok := tn.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				if isStruct(nt) {
					s := under(nt).(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						ft := s.Field(i).Type()
						if isStruct(ft) {
							func() {
								defer func() { recover() }()
								put(ft, fieldKey(nt, i), ArrSort(sortOf(ft)))
							}()
						}
					}
					func() {
						defer func() { recover() }()
						put(nt, elemKey(nt), elemSort(nt))
					}()
				}
			}
		}
	}
	r := map[string]Sort{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		for k, so := range e.ownerMap[typeName(t)] {
			if _, ok := r[k]; ok {
				continue
			}
			r[k] = so
			if strings.HasPrefix(k, "F:") {
				on := k[2:strings.LastIndex(k, ".")]
				for p := range e.repoPkgs {
					for _, n := range p.Pkg.Scope().Names() {
						if tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok && typeName(tn.Type()) == on {
							walk(tn.Type())
						}
					}
				}
			}
		}
	}
	walk(t)
	return r
}
