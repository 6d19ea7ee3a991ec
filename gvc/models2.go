package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ret1 helpers for fresh byte slices: the pieces of a string.
func (e *Eng) bytesOf(st *State, t *Term) Val {
	if e.pure > 0 {
		return SliceV{Elem: types.Typ[types.Byte], Frozen: App("s2b", ArrSort(SInt), t), Ref: Int(-1), Off: Int(0), Len: Len(t), Cap: Len(t)}
	}
	return e.newBytes(st, App("s2b", ArrSort(SInt), t), Len(t))
}

func init() {
	strArg := func(e *Eng, st *State, v Val) *Term {
		if s, ok := v.(SliceV); ok {
			return e.bytesToStr(st, s)
		}
		return e.toTerm(st, v)
	}
	// predicates and searches over strings or byte slices, as functions of the contents
	pred := func(name string, base string) {
		M(name, true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			return ret1(st, App(base, SBool, strArg(e, st, a[0]), strArg(e, st, a[1])))
		})
	}
	pred("bytes.Contains", "strings.Contains#0")
	idx := func(name, base string) {
		M(name, true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			s := strArg(e, st, a[0])
			r := App(base, SInt, s, strArg(e, st, a[1]))
			e.fact(st, And(Le(Int(-1), r), Le(r, Len(s))))
			if base == "strings.IndexByte#0" {
				e.fact(st, Lt(r, Len(s)))
			}
			return ret1(st, r)
		})
	}
	idx("strings.Index", "strings.Index#0")
	idx("bytes.Index", "strings.Index#0")
	idx("strings.IndexByte", "strings.IndexByte#0")
	idx("bytes.IndexByte", "strings.IndexByte#0")
	idx("strings.LastIndex", "strings.LastIndex#0")
	idx("bytes.LastIndex", "strings.LastIndex#0")
	split := func(name string) {
		m := M(name, true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
			s, p := strArg(e, st, a[0]), strArg(e, st, a[1])
			n := App("strings.Split#n", SInt, s, p)
			row := App("strings.Split#row", ArrSort(SStr), s, p)
			e.fact(st, Le(Int(0), n))
			if p.op == OStrL && p.name != "" {
				e.fact(st, Le(Int(1), n))
			}
			if e.pure > 0 {
				return ret1(st, SliceV{Elem: types.Typ[types.String], Frozen: row, Ref: Int(-1), Off: Int(0), Len: n, Cap: n})
			}
			r := e.newRef(st)
			k := elemKey(types.Typ[types.String])
			st.heap[k] = Store(e.H(st, k, elemSort(types.Typ[types.String])), r, row)
			return ret1(st, SliceV{Elem: types.Typ[types.String], Ref: r, Off: Int(0), Len: n, Cap: n})
		})
		m.mods = func(ms *modSet) { ms.put(elemKey(types.Typ[types.String]), elemSort(types.Typ[types.String])) }
	}
	split("strings.Split")
	M("strconv.ParseFloat", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		s, b := e.toTerm(st, a[0]), e.toTerm(st, a[1])
		return ret1(st, App("strconv.ParseFloat#0", SFloat, s, b), App("strconv.ParseFloat#1", SAny, s, b))
	})
	M("unicode.ToLower", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		r := e.toTerm(st, a[0])
		t := App("unicode.ToLower#0", SInt, r)
		e.fact(st, Imp(Eq(r, Int(0xFFFD)), Eq(t, Int(0xFFFD)))) // an evaluated fact
		return ret1(st, t)
	})
	uf("unicode.ToUpper", SInt)
	M("unicode.Is", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		return ret1(st, App("unicode.Is#0", SBool, e.toTerm(st, a[0]), e.toTerm(st, a[1])))
	})
	M("strings.Repeat", true, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		s, n := e.toTerm(st, a[0]), e.toTerm(st, a[1])
		if c != nil {
			e.check(st, "repeat-count", Le(Int(0), n), c.Pos())
		}
		r := App("strings.Repeat#0", SStr, s, n)
		e.fact(st, Eq(Len(r), Mul(Len(s), n)))
		return ret1(st, r)
	})
	// sync.Pool: Get returns a new empty object of the pool's type (nobody else
	// holds it), Put keeps no promise.
	M("(*sync.Pool).Put", false, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		return ret1(st)
	})
	M("sort.Strings", false, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		s, ok := a[0].(SliceV)
		if !ok || s.Cell > 0 || s.Frozen != nil {
			unsup("sort.Strings of this slice")
		}
		k := elemKey(types.Typ[types.String])
		h := e.H(st, k, elemSort(types.Typ[types.String]))
		st.heap[k] = Store(h, s.Ref, App("sorted", ArrSort(SStr), Select(h, s.Ref), s.Off, s.Len))
		return ret1(st)
	}).mods = func(ms *modSet) { ms.put(elemKey(types.Typ[types.String]), elemSort(types.Typ[types.String])) }
}

// poolType is the type of the objects of the repository's sync.Pool values:
// all their New functions make an empty map of this type.
func (e *Eng) poolType() (r types.Type) {
	for p := range e.repoPkgs {
		init := p.Func("init")
		if init == nil {
			continue
		}
		for _, f := range init.AnonFuncs {
			if f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || len(f.Blocks) != 1 {
				continue
			}
			var mm *ssa.MakeMap
			other := false
			for _, in := range f.Blocks[0].Instrs {
				switch x := in.(type) {
				case *ssa.MakeMap:
					mm = x
				case *ssa.MakeInterface, *ssa.Return, *ssa.DebugRef:
				default:
					other = true
				}
			}
			if mm == nil || other || r != nil && !types.Identical(r, mm.Type()) {
				unsup("the objects of a sync.Pool are not plain empty maps of one type")
			}
			r = mm.Type()
		}
	}
	if r == nil {
		unsup("sync.Pool without a New function")
	}
	return r
}

func init() {
	M("(*sync.Pool).Get", false, func(e *Eng, fr *Frame, st *State, a []Val, c *ssa.CallCommon) []arrival {
		t := e.poolType()
		r := e.newRef(st)
		dk, _, ks, _ := mapKeys(under(t).(*types.Map))
		st.heap[dk] = Store(e.H(st, dk, ArrSort(ArrSortK(ks, SBool))), r, ConstArr(ArrSortK(ks, SBool), False))
		return ret1(st, IfaceV{T: t, V: r})
	}).mods = func(ms *modSet) {
		dk, _, ks, _ := mapKeys(types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)))
		ms.put(dk, ArrSort(ArrSortK(ks, SBool)))
	}
}
