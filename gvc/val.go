package main

// Engine values, types to sorts, memory.

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct {
	Elem          types.Type
	Ref           *Term
	Off, Len, Cap *Term
	Cell          int   // >0: backed by an engine-level array cell
	Frozen        *Term // non-nil: immutable snapshot (spec only)
	Exact         bool  // vc.Arr: a frame location, nothing when nil
}
type StructV struct {
	T types.Type
	F []Val
}
type ArrayV struct {
	Elem types.Type
	E    []Val
}
type step struct {
	field int
	idx   *Term
	T     types.Type // container type before the step
}
type PtrV struct {
	Elem types.Type // type of the pointee after path
	Nil  bool
	Cell int
	Ref  *Term // base reference
	Base types.Type
	Path []step
	// element of a heap slice: Ref is the array ref, Idx the absolute index
	IsElem bool
	Idx    *Term
	Frozen *Term
}
type ClosureV struct {
	Fn    *ssa.Function
	Binds []Val
	Spec  string // special builtin closure
}
type IfaceV struct {
	T types.Type
	V Val
}
type TupleV []Val
type FwdV struct{ Ref *Term } // cell content after escaping
type RegexpV struct{ Pat string }
type IterV struct {
	Cell int // state cell
	Map  *Term
	MT   *types.Map
	Str  *Term
}

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func under(t types.Type) types.Type { return t.Underlying() }

// typeName names a type; identical types have the same name.
func typeName(t types.Type) string {
	typeNamesMu.Lock()
	defer typeNamesMu.Unlock()
	n, ok := typeNames[t]
	if !ok {
		n = types.TypeString(deepUnalias(t), func(p *types.Package) string { return shortPkg(p.Path()) })
		n = basicAlias.ReplaceAllStringFunc(n, func(x string) string {
			switch x {
			case "any":
				return "interface{}"
			case "byte":
				return "uint8"
			case "rune":
				return "int32"
			}
			return x
		})
		typeNames[t] = n
	}
	return n
}

var (
	typeNames   = map[types.Type]string{}
	typeNamesMu sync.Mutex
	basicAlias  = regexp.MustCompile(`[\w./-]+`)
)

func deepUnalias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Map:
		k, v := deepUnalias(u.Key()), deepUnalias(u.Elem())
		if k != u.Key() || v != u.Elem() {
			return types.NewMap(k, v)
		}
	}
	return t
}
func shortPkg(p string) string {
	p = strings.TrimPrefix(p, "github.com/breml/logstash-config/")
	if p == "github.com/breml/logstash-config" {
		return "config"
	}
	return p
}

func isBuffer(t types.Type) bool {
	n := typeName(t)
	return n == "bytes.Buffer" || n == "strings.Builder"
}

func init() {
	datatypes[SSlice] = &DT{"Slice", []Sort{SInt, SInt, SInt, SInt}}
}

func sortOf(t types.Type) Sort {
	if isBuffer(t) {
		return SStr
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SFloat
		case u.Kind() == types.UntypedNil:
			return SAny
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SAny
	case *types.Slice:
		return SSlice
	case *types.Array:
		return ArrSort(sortOf(u.Elem()))
	case *types.Struct:
		s := Sort(typeName(t))
		if _, ok := datatypes[s]; !ok {
			d := &DT{name: string(s)}
			datatypes[s] = d
			for i := 0; i < u.NumFields(); i++ {
				d.fields = append(d.fields, sortOf(u.Field(i).Type()))
			}
		}
		return s
	}
	unsup("sort of %s", t)
	return ""
}

// ---- reference ages

var termBound = map[*Term]int{} // var -> k : every ref in it is < alloc!k
var allocVars []*Term

func newAllocVar() (*Term, int) {
	k := len(allocVars)
	v := mk(OVar, SInt, fmt.Sprintf("alloc!%d", k), nil, nil, nil)
	allocVars = append(allocVars, v)
	return v, k
}
func allocIdx(t *Term) int {
	if t.op == OVar && strings.HasPrefix(t.name, "alloc!") {
		var k int
		fmt.Sscanf(t.name, "alloc!%d", &k)
		return k
	}
	return -1
}

// freshAt: t = alloc!k + c, c>=0
func freshAt(t *Term) int {
	if k := allocIdx(t); k >= 0 {
		return k
	}
	if t.op == OAdd && len(t.args) == 2 && t.args[1].op == OInt && t.args[1].i.Sign() > 0 {
		return allocIdx(t.args[0])
	}
	return -1
}

const noBound = 1 << 30

func boundOf(t *Term) int {
	switch t.op {
	case OInt:
		return -1
	case OVar:
		if k, ok := termBound[t]; ok {
			return k
		}
		return noBound
	case OSelect, OSel:
		return boundOf(t.args[0])
	case OStore:
		a, b := boundOf(t.args[0]), boundOf(t.args[2])
		if b > a {
			return b
		}
		return a
	case OIte:
		a, b := boundOf(t.args[1]), boundOf(t.args[2])
		if b > a {
			return b
		}
		return a
	case OMk:
		m := -1
		for _, a := range t.args {
			if a.sort == SBool || a.sort == SStr {
				continue
			}
			if b := boundOf(a); b > m {
				m = b
			}
		}
		return m
	case OApp:
		if t.name == "framed" {
			a, b := boundOf(t.args[0]), boundOf(t.args[1])
			if b > a {
				return b
			}
			return a
		}
		if strings.HasPrefix(t.name, "unbox") || strings.HasPrefix(t.name, "box") {
			return boundOf(t.args[0])
		}
	}
	return noBound
}

func init() {
	distinctHook = func(a, b *Term) bool {
		if k := freshAt(a); k >= 0 && boundOf(b) <= k {
			return true
		}
		if k := freshAt(b); k >= 0 && boundOf(a) <= k {
			return true
		}
		return false
	}
}

// ---- state

type State struct {
	pc     []*Term
	lits   map[*Term]bool
	eqc    map[*Term]*Term
	ub     map[*Term]int64 // linear part -> upper bound (small consts)
	heap   map[string]*Term
	cells  map[int]Val
	alloc  *Term
	allocK int
	ghost  map[string]Val
	epoch  int
	dead   bool
	allowB bool
}

func newState() *State {
	return &State{lits: map[*Term]bool{}, eqc: map[*Term]*Term{}, ub: map[*Term]int64{}, heap: map[string]*Term{}, cells: map[int]Val{}, ghost: map[string]Val{}}
}
func (s *State) clone() *State {
	n := &State{pc: append([]*Term{}, s.pc...), lits: make(map[*Term]bool, len(s.lits)), eqc: make(map[*Term]*Term, len(s.eqc)), ub: make(map[*Term]int64, len(s.ub)), heap: make(map[string]*Term, len(s.heap)), cells: make(map[int]Val, len(s.cells)), alloc: s.alloc, allocK: s.allocK, ghost: make(map[string]Val, len(s.ghost)), epoch: s.epoch, dead: s.dead, allowB: s.allowB}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	for k, v := range s.ub {
		n.ub[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func linKey(t *Term) (*Term, int64, bool) {
	l := toLin(t)
	if !l.c.IsInt64() {
		return nil, 0, false
	}
	c := l.c.Int64()
	l.c = Int(0).i
	return fromLin(l), c, true
}

// decide: syntactic evaluation of a condition under the path condition.
func (s *State) decide(c *Term) *Term {
	if c.op == OBoolL {
		return c
	}
	if s.lits[c] {
		return True
	}
	if s.lits[Not(c)] {
		return False
	}
	switch c.op {
	case OLe0:
		if k, cc, ok := linKey(c.args[0]); ok {
			if u, ok := s.ub[k]; ok && u+cc <= 0 {
				return True
			}
			nk, _, _ := linKey(Sub(Int(0), k))
			if u, ok := s.ub[nk]; ok { // -l <= u  => l >= -u
				if -u+cc > 0 {
					return False
				}
			}
		}
	case ONot:
		return Not(s.decide(c.args[0]))
	case OAnd:
		var as []*Term
		for _, a := range c.args {
			as = append(as, s.decide(a))
		}
		return And(as...)
	case OOr:
		var as []*Term
		for _, a := range c.args {
			as = append(as, s.decide(a))
		}
		return Or(as...)
	case OEq:
		if c.args[0].sort == SInt {
			a, b := c.args[0], c.args[1]
			if s.decide(Le(a, b)) == False || s.decide(Le(b, a)) == False {
				return False
			}
		}
	}
	if len(s.eqc) > 0 {
		hit := false
		var walk func(t *Term)
		seen := map[*Term]bool{}
		walk = func(t *Term) {
			if hit || seen[t] {
				return
			}
			seen[t] = true
			if _, ok := s.eqc[t]; ok {
				hit = true
				return
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(c)
		if hit {
			n := Subst(c, s.eqc)
			if n != c {
				return s.decide(n)
			}
		}
	}
	return c
}

func (s *State) assume(t *Term) {
	if s.dead {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t.hasB && !s.allowB {
		panic("assume with bound variable: " + t.String())
	}
	d := s.decide(t)
	if d == True {
		return
	}
	if d == False {
		s.dead = true
		s.pc = append(s.pc, False)
		return
	}
	s.pc = append(s.pc, t)
	s.lits[t] = true
	switch t.op {
	case OEq:
		a, b := t.args[0], t.args[1]
		if isLit(b) || b == NilAny {
			s.eqc[a] = b
		} else if isLit(a) || a == NilAny {
			s.eqc[b] = a
		}
	case OLe0:
		if k, c, ok := linKey(t.args[0]); ok {
			if u, ok := s.ub[k]; !ok || -c < u {
				s.ub[k] = -c
			}
		}
	case OOr:
		// unit propagation after decide
		if d != t && d.op != OOr {
			s.assume(d)
		}
	}
}

// heap access

func heapSort(key string) Sort { return heapSorts[key] }

var heapSorts = map[string]Sort{}

func (e *Eng) H(s *State, key string, sort Sort) *Term {
	for _, r := range e.readKeys {
		r[key] = true
	}
	if o, ok := heapSorts[key]; ok && o != sort {
		panic("heap sort clash " + key)
	}
	heapSorts[key] = sort
	if t, ok := s.heap[key]; ok {
		return t
	}
	v := Var("H0:"+key, sort)
	termBound[v] = 0
	s.heap[key] = v
	return v
}
func (e *Eng) setH(s *State, key string, ref *Term, v *Term) {
	s.heap[key] = v
	k := freshAt(ref)
	if !(k >= 0 && k >= e.epochBase) {
		s.epoch = e.nextEpoch()
	}
}
func fieldKey(t types.Type, f int) string {
	st := under(t).(*types.Struct)
	return "F:" + typeName(t) + "." + st.Field(f).Name()
}
func elemKey(t types.Type) string {
	if b, ok := under(t).(*types.Basic); ok {
		if _, named := t.(*types.Named); !named {
			if b.Kind() == types.Byte || b.Kind() == types.Uint8 {
				return "E:byte"
			}
		}
	}
	return "E:" + typeName(t)
}
func elemSort(t types.Type) Sort { return ArrSort(ArrSort(sortOf(t))) }

func (e *Eng) newRef(s *State) *Term {
	r := s.alloc
	s.alloc = Add(r, Int(1))
	return r
}

// zero value of a type
func (e *Eng) zero(t types.Type) Val {
	if isBuffer(t) {
		return StrL("")
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return False
		case SStr:
			return StrL("")
		case SInt:
			return Int(0)
		case SFloat:
			return Var("f64zero", SFloat)
		case SAny:
			return NilAny
		}
	case *types.Pointer:
		return PtrV{Elem: u.Elem(), Nil: true}
	case *types.Interface:
		return NilAny
	case *types.Map, *types.Chan, *types.Signature:
		return Int(0)
	case *types.Slice:
		return SliceV{Elem: u.Elem(), Ref: Int(0), Off: Int(0), Len: Int(0), Cap: Int(0)}
	case *types.Array:
		if u.Len() <= 64 {
			a := ArrayV{Elem: u.Elem()}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, e.zero(u.Elem()))
			}
			return a
		}
		return ConstArr(sortOf(t), e.toTerm(nil, e.zero(u.Elem())))
	case *types.Struct:
		v := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, e.zero(u.Field(i).Type()))
		}
		return v
	}
	unsup("zero of %s", t)
	return nil
}

// toTerm converts an engine value to a term (may escape cells).
func (e *Eng) toTerm(s *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case StructV:
		so := sortOf(x.T)
		var as []*Term
		for _, f := range x.F {
			as = append(as, e.toTerm(s, f))
		}
		return MkDT(so, as...)
	case SliceV:
		x = e.heapSlice(s, x)
		return MkDT(SSlice, x.Ref, x.Off, x.Len, x.Cap)
	case PtrV:
		if x.Nil {
			return Int(0)
		}
		if x.Cell > 0 && len(x.Path) == 0 {
			return e.escape(s, x.Cell, x.Elem)
		}
		if x.Cell > 0 {
			if fw, ok := s.cells[x.Cell].(FwdV); ok && len(x.Path) == 0 {
				return fw.Ref
			}
			unsup("interior pointer as a value (%s)", x.Elem)
		}
		if !x.IsElem && len(x.Path) == 0 {
			return x.Ref
		}
		unsup("interior pointer as a value (%s)", x.Elem)
	case IfaceV:
		return Box(TagOf(typeKey(x.T)), e.toTerm(s, x.V))
	case ClosureV:
		return Int(int64(e.closureID(x)))
	case ArrayV:
		es := sortOf(x.Elem)
		a := ConstArr(ArrSort(es), e.toTerm(s, e.zero(x.Elem)))
		for i, el := range x.E {
			a = Store(a, Int(int64(i)), e.toTerm(s, el))
		}
		return a
	case RegexpV:
		return Var("re:"+x.Pat, SInt)
	}
	unsup("toTerm %T", v)
	return nil
}
func typeKey(t types.Type) string {
	n := typeName(t)
	typeByKey[n] = t
	return n
}

var typeByKey = map[string]types.Type{}

func (e *Eng) closureID(c ClosureV) int {
	for i, d := range e.closures {
		if d.Fn == c.Fn && fmt.Sprint(d.Binds) == fmt.Sprint(c.Binds) {
			return -(i + 2)
		}
	}
	e.closures = append(e.closures, c)
	return -(len(e.closures) + 1)
}

// fromTerm converts a term of the sort of t into an engine value.
func (e *Eng) fromTerm(s *State, t *Term, ty types.Type) Val {
	if isBuffer(ty) {
		return t
	}
	switch u := under(ty).(type) {
	case *types.Pointer:
		if t == Int(0) {
			return PtrV{Elem: u.Elem(), Nil: true}
		}
		return PtrV{Elem: u.Elem(), Ref: t, Base: u.Elem()}
	case *types.Slice:
		v := SliceV{Elem: u.Elem(), Ref: SelDT(t, 0), Off: SelDT(t, 1), Len: SelDT(t, 2), Cap: SelDT(t, 3)}
		e.sliceFacts(s, v)
		return v
	case *types.Struct:
		v := StructV{T: ty}
		sortOf(ty)
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, e.fromTerm(s, SelDT(t, i), u.Field(i).Type()))
		}
		return v
	case *types.Interface:
		// the tag of a value of a sealed interface type is one of its implementations
		if !t.hasB && s != nil && e.sealFacts {
			e.sealFact(s, t, ty)
		}
		return t
	case *types.Basic:
		if s != nil {
			e.intFacts(s, t, u)
		}
	}
	return t
}
func (e *Eng) intFacts(s *State, t *Term, u *types.Basic) {
	if t.op == OInt {
		return
	}
	switch u.Kind() {
	case types.Uint8:
		e.fact(s, And(Le(Int(0), t), Le(t, Int(255))))
	case types.Uint, types.Uint64, types.Uint32, types.Uint16, types.Uintptr:
		e.fact(s, Le(Int(0), t))
	}
}

// fact: a property every value of its type has. Under a binder it becomes a
// hypothesis of the quantified body.
func (e *Eng) fact(s *State, t *Term) {
	if s == nil || t == True {
		return
	}
	if t.hasB {
		var bv []*Term
		for b := range t.fb {
			bv = append(bv, b)
		}
		sort.Slice(bv, func(i, j int) bool { return bv[i].id < bv[j].id })
		t = Forall(bv, t)
		if t.hasB {
			return
		}
	}
	if e.pure > 0 && e.factLog != nil {
		*e.factLog = append(*e.factLog, t)
	}
	s.assume(t)
}
func (e *Eng) sliceFacts(s *State, v SliceV) {
	if s == nil || v.Frozen != nil || v.Cell > 0 {
		return
	}
	if v.Len.op == OInt && v.Cap.op == OInt && v.Off.op == OInt {
		return
	}
	e.fact(s, And(Le(Int(0), v.Ref), Le(Int(0), v.Off), Le(Int(0), v.Len), Le(v.Len, v.Cap), Or(Gt(v.Ref, Int(0)), Eq(v.Cap, Int(0)))))
	if k := boundOf(v.Ref); k >= 0 && k < len(allocVars) {
		e.fact(s, Lt(v.Ref, allocVars[k]))
	}
}
func (e *Eng) sealFact(s *State, t *Term, ty types.Type) {
	it := under(ty).(*types.Interface)
	if t.op == OVar && t != NilAny || t.op == OSelect || t.op == OSel || t.op == OApp {
		tags := e.implTags(it)
		if tags == nil {
			return
		}
		var or []*Term
		or = append(or, Eq(Tag(t), Int(0)))
		for _, k := range tags {
			or = append(or, Eq(Tag(t), Int(int64(k))))
		}
		e.fact(s, Or(or...))
	}
}

// freshVal makes an unconstrained value of a type.
func (e *Eng) freshVal(s *State, ty types.Type, name string) Val {
	if tt, ok := ty.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, e.freshVal(s, tt.At(i).Type(), name))
		}
		return tv
	}
	if isBuffer(ty) {
		return Fresh(name, SStr)
	}
	bnd := s.allocK
	if s.alloc != allocVars[s.allocK] {
		// allocations since: introduce a new alloc mark
		e.bumpAlloc(s)
		bnd = s.allocK
	}
	switch u := under(ty).(type) {
	case *types.Struct:
		v := StructV{T: ty}
		sortOf(ty)
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, e.freshVal(s, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return v
	case *types.Slice:
		r, o, l, c := Fresh(name+".ref", SInt), Fresh(name+".off", SInt), Fresh(name+".len", SInt), Fresh(name+".cap", SInt)
		termBound[r] = bnd
		v := SliceV{Elem: u.Elem(), Ref: r, Off: o, Len: l, Cap: c}
		e.sliceFacts(s, v)
		return v
	case *types.Pointer:
		r := Fresh(name, SInt)
		termBound[r] = bnd
		e.fact(s, And(Le(Int(0), r), Lt(r, allocVars[bnd])))
		return PtrV{Elem: u.Elem(), Ref: r, Base: u.Elem()}
	case *types.Map:
		r := Fresh(name, SInt)
		termBound[r] = bnd
		e.fact(s, And(Le(Int(0), r), Lt(r, allocVars[bnd])))
		return r
	case *types.Interface:
		r := Fresh(name, SAny)
		termBound[r] = bnd
		e.sealFact(s, r, ty)
		return r
	case *types.Array:
		r := Fresh(name, sortOf(ty))
		termBound[r] = bnd
		return r
	case *types.Basic:
		r := Fresh(name, sortOf(ty))
		e.intFacts(s, r, u)
		return r
	}
	return Fresh(name, sortOf(ty))
}

// bumpAlloc replaces the allocation counter by a fresh mark at least as large.
func (e *Eng) bumpAlloc(s *State) {
	old := s.alloc
	v, k := newAllocVar()
	e.fact(s, Le(old, v))
	s.alloc, s.allocK = v, k
}

// ---- cells

func (e *Eng) newCell(s *State, v Val) int {
	e.cellCnt++
	s.cells[e.cellCnt] = v
	return e.cellCnt
}

// escape moves a cell to the heap.
func (e *Eng) escape(s *State, c int, ty types.Type) *Term {
	if s == nil {
		unsup("escape without state")
	}
	v, ok := s.cells[c]
	if !ok {
		unsup("escape of unknown cell")
	}
	if fw, ok := v.(FwdV); ok {
		return fw.Ref
	}
	r := e.newRef(s)
	s.cells[c] = FwdV{r}
	e.initHeap(s, r, ty, v)
	return r
}
func (e *Eng) initHeap(s *State, r *Term, ty types.Type, v Val) {
	if a, ok := v.(ArrayV); ok {
		k := elemKey(a.Elem)
		so := elemSort(a.Elem)
		inner := e.toTerm(s, a)
		s.heap[k] = Store(e.H(s, k, so), r, inner)
		return
	}
	if sv, ok := v.(StructV); ok && !isBuffer(ty) {
		st := under(ty).(*types.Struct)
		for i := range sv.F {
			k := fieldKey(ty, i)
			so := ArrSort(sortOf(st.Field(i).Type()))
			t := e.toTerm(s, sv.F[i])
			s.heap[k] = Store(e.H(s, k, so), r, t)
		}
		return
	}
	k := "P:" + typeName(ty)
	t := e.toTerm(s, v)
	s.heap[k] = Store(e.H(s, k, ArrSort(t.sort)), r, t)
}

func (e *Eng) heapSlice(s *State, v SliceV) SliceV {
	if v.Frozen != nil {
		// materialise as a fresh object
		r := e.newRef(s)
		k := elemKey(v.Elem)
		s.heap[k] = Store(e.H(s, k, elemSort(v.Elem)), r, v.Frozen)
		return SliceV{Elem: v.Elem, Ref: r, Off: v.Off, Len: v.Len, Cap: v.Len}
	}
	if v.Cell > 0 {
		r := e.escape(s, v.Cell, nil)
		return SliceV{Elem: v.Elem, Ref: r, Off: v.Off, Len: v.Len, Cap: v.Cap}
	}
	return v
}

// resolve a pointer whose cell was forwarded
func (e *Eng) resolve(s *State, p PtrV) PtrV {
	if p.Cell > 0 {
		if fw, ok := s.cells[p.Cell].(FwdV); ok {
			q := p
			q.Cell = 0
			q.Ref = fw.Ref
			if len(p.Path) > 0 {
				q.Base = p.Path[0].T
				if p.Path[0].idx != nil { // array object
					q.IsElem = true
					q.Idx = p.Path[0].idx
					q.Path = p.Path[1:]
					q.Base = under(p.Path[0].T).(*types.Array).Elem()
				}
			} else {
				q.Base = p.Elem
			}
			return q
		}
	}
	return p
}

func (e *Eng) getPath(s *State, v Val, path []step) Val {
	for _, st := range path {
		if st.idx != nil {
			switch a := v.(type) {
			case ArrayV:
				if st.idx.op == OInt {
					v = a.E[st.idx.i.Int64()]
				} else {
					v = e.fromTerm(s, Select(e.toTerm(s, a), st.idx), a.Elem)
				}
			case *Term:
				v = e.fromTerm(s, Select(a, st.idx), under(st.T).(*types.Array).Elem())
			default:
				unsup("index path on %T", v)
			}
			continue
		}
		sv, ok := v.(StructV)
		if !ok {
			unsup("field path on %T", v)
		}
		v = sv.F[st.field]
	}
	return v
}
func (e *Eng) setPath(s *State, v Val, path []step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	st := path[0]
	if st.idx != nil {
		switch a := v.(type) {
		case ArrayV:
			if st.idx.op == OInt {
				n := ArrayV{Elem: a.Elem, E: append([]Val{}, a.E...)}
				i := st.idx.i.Int64()
				n.E[i] = e.setPath(s, a.E[i], path[1:], nv)
				return n
			}
			t := e.toTerm(s, a)
			inner := e.setPath(s, e.fromTerm(s, Select(t, st.idx), a.Elem), path[1:], nv)
			return Store(t, st.idx, e.toTerm(s, inner))
		case *Term:
			el := under(st.T).(*types.Array).Elem()
			inner := e.setPath(s, e.fromTerm(s, Select(a, st.idx), el), path[1:], nv)
			return Store(a, st.idx, e.toTerm(s, inner))
		}
		unsup("index store on %T", v)
	}
	sv, ok := v.(StructV)
	if !ok {
		unsup("field store on %T", v)
	}
	n := StructV{T: sv.T, F: append([]Val{}, sv.F...)}
	n.F[st.field] = e.setPath(s, sv.F[st.field], path[1:], nv)
	return n
}

func (e *Eng) load(s *State, p PtrV) Val {
	p = e.resolve(s, p)
	if p.Nil {
		unsup("load through nil")
	}
	if p.Cell > 0 {
		v, ok := s.cells[p.Cell]
		if !ok {
			unsup("unknown cell")
		}
		return e.getPath(s, v, p.Path)
	}
	if p.IsElem {
		el := p.Base
		var t *Term
		if p.Frozen != nil {
			t = Select(p.Frozen, p.Idx)
		} else {
			t = Select(Select(e.H(s, elemKey(el), elemSort(el)), p.Ref), p.Idx)
		}
		return e.getPath(s, e.fromTerm(s, t, el), p.Path)
	}
	if st, ok := under(p.Base).(*types.Struct); ok && !isBuffer(p.Base) {
		if len(p.Path) == 0 {
			v := StructV{T: p.Base}
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				v.F = append(v.F, e.frozenField(p.Base, i, e.fromTerm(s, Select(e.H(s, fieldKey(p.Base, i), ArrSort(sortOf(ft))), p.Ref), ft)))
			}
			return v
		}
		f := p.Path[0].field
		ft := st.Field(f).Type()
		v := e.frozenField(p.Base, f, e.fromTerm(s, Select(e.H(s, fieldKey(p.Base, f), ArrSort(sortOf(ft))), p.Ref), ft))
		return e.getPath(s, v, p.Path[1:])
	}
	if at, ok := under(p.Base).(*types.Array); ok {
		t := Select(e.H(s, elemKey(at.Elem()), elemSort(at.Elem())), p.Ref)
		return e.getPath(s, t, p.Path)
	}
	k := "P:" + typeName(p.Base)
	return e.fromTerm(s, Select(e.H(s, k, ArrSort(sortOf(p.Base))), p.Ref), p.Base)
}

func (e *Eng) store(s *State, p PtrV, v Val) {
	p = e.resolve(s, p)
	if p.Nil {
		unsup("store through nil")
	}
	if p.Frozen != nil {
		unsup("store to a frozen snapshot")
	}
	if p.Cell > 0 {
		s.cells[p.Cell] = e.setPath(s, s.cells[p.Cell], p.Path, v)
		return
	}
	if p.IsElem {
		el := p.Base
		k := elemKey(el)
		h := e.H(s, k, elemSort(el))
		row := Select(h, p.Ref)
		nv := v
		if len(p.Path) > 0 {
			nv = e.setPath(s, e.fromTerm(s, Select(row, p.Idx), el), p.Path, v)
		}
		t := e.toTerm(s, nv)
		h = s.heap[k]
		e.setH(s, k, p.Ref, Store(h, p.Ref, Store(row, p.Idx, t)))
		return
	}
	if st, ok := under(p.Base).(*types.Struct); ok && !isBuffer(p.Base) {
		if len(p.Path) == 0 {
			sv := v.(StructV)
			for i := range sv.F {
				k := fieldKey(p.Base, i)
				t := e.toTerm(s, sv.F[i])
				e.setH(s, k, p.Ref, Store(e.H(s, k, ArrSort(t.sort)), p.Ref, t))
			}
			return
		}
		f := p.Path[0].field
		ft := st.Field(f).Type()
		k := fieldKey(p.Base, f)
		nv := v
		if len(p.Path) > 1 {
			cur := e.fromTerm(s, Select(e.H(s, k, ArrSort(sortOf(ft))), p.Ref), ft)
			nv = e.setPath(s, cur, p.Path[1:], v)
		}
		t := e.toTerm(s, nv)
		e.setH(s, k, p.Ref, Store(e.H(s, k, ArrSort(sortOf(ft))), p.Ref, t))
		return
	}
	if at, ok := under(p.Base).(*types.Array); ok {
		k := elemKey(at.Elem())
		h := e.H(s, k, elemSort(at.Elem()))
		nv := e.toTerm(s, e.setPath(s, Select(h, p.Ref), p.Path, v))
		e.setH(s, k, p.Ref, Store(s.heap[k], p.Ref, nv))
		return
	}
	k := "P:" + typeName(p.Base)
	t := e.toTerm(s, v)
	e.setH(s, k, p.Ref, Store(e.H(s, k, ArrSort(t.sort)), p.Ref, t))
}

// merging and comparing values

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.Ref == y.Ref && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && x.Cell == y.Cell && x.Frozen == y.Frozen
	case PtrV:
		y, ok := b.(PtrV)
		if !ok || x.Nil != y.Nil || x.Cell != y.Cell || x.Ref != y.Ref || x.IsElem != y.IsElem || x.Idx != y.Idx || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i].field != y.Path[i].field || x.Path[i].idx != y.Path[i].idx {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && types.Identical(x.T, y.T) && sameVal(x.V, y.V)
	case ClosureV:
		y, ok := b.(ClosureV)
		if !ok || x.Fn != y.Fn || len(x.Binds) != len(y.Binds) || x.Spec != y.Spec {
			return false
		}
		for i := range x.Binds {
			if !sameVal(x.Binds[i], y.Binds[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		y, ok := b.(ArrayV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case FwdV:
		y, ok := b.(FwdV)
		return ok && x.Ref == y.Ref
	case RegexpV:
		y, ok := b.(RegexpV)
		return ok && x == y
	case IterV:
		y, ok := b.(IterV)
		return ok && x.Cell == y.Cell
	case nil:
		return b == nil
	}
	return false
}

// mergeVal builds ite(c,a,b); ok=false when shapes do not allow it.
func (e *Eng) mergeVal(s *State, c *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.sort == y.sort {
				return Ite(c, x, y), true
			}
		case IfaceV:
			if t, ok := e.pureTerm(y); ok && x.sort == SAny {
				return Ite(c, x, t), true
			}
		}
	case IfaceV:
		if t, ok := e.pureTerm(x); ok {
			if y, ok := b.(*Term); ok && y.sort == SAny {
				return Ite(c, t, y), true
			}
			if u, ok := e.pureTerm(b); ok && u.sort == SAny {
				return Ite(c, t, u), true
			}
		}
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		n := StructV{T: x.T}
		for i := range x.F {
			f, ok := e.mergeVal(s, c, x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			n.F = append(n.F, f)
		}
		return n, true
	case SliceV:
		y, ok := b.(SliceV)
		if !ok || x.Cell > 0 || y.Cell > 0 {
			return nil, false
		}
		if x.Frozen != nil || y.Frozen != nil {
			if x.Frozen != nil && y.Frozen != nil {
				return SliceV{Elem: x.Elem, Frozen: Ite(c, x.Frozen, y.Frozen), Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Cap: Ite(c, x.Cap, y.Cap)}, true
			}
			return nil, false
		}
		return SliceV{Elem: x.Elem, Ref: Ite(c, x.Ref, y.Ref), Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Cap: Ite(c, x.Cap, y.Cap)}, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var n TupleV
		for i := range x {
			f, ok := e.mergeVal(s, c, x[i], y[i])
			if !ok {
				return nil, false
			}
			n = append(n, f)
		}
		return n, true
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			return nil, false
		}
		rt := func(p PtrV) *Term {
			if p.Nil {
				return Int(0)
			}
			if p.Cell == 0 && !p.IsElem && len(p.Path) == 0 {
				return p.Ref
			}
			return nil
		}
		if p, q := rt(x), rt(y); p != nil && q != nil {
			return PtrV{Elem: x.Elem, Ref: Ite(c, p, q), Base: x.Elem}, true
		}
	}
	return nil, false
}

// pureTerm converts without side effects.
func (e *Eng) pureTerm(v Val) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Unsupported); is {
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return e.toTerm(nil, v), true
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
