package main

// Symbolic values and memory layout.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}
type SliceV struct {
	Elem                types.Type
	Base, Off, Len, Cap *Term
}

// PtrV points at Path inside element Idx of the region Base of the heap of Root values.
// If ArrN >= 0 it points at a whole array whose elements are the region's elements from Idx on.
type PtrV struct {
	Root      types.Type
	Base, Idx *Term
	Path      []int
	ArrN      int64
}
type ArrayV struct {
	Elem types.Type
	N    int64
	L    []*Term // one SMT array per leaf of Elem, indices 0..N-1
}
type IfaceV struct { // interface value with known dynamic type (T == nil: nil interface)
	T types.Type
	V Val
}
type ClosV struct {
	Fn    *ssa.Function
	Binds []Val
}
type TupleV []Val

type Leaf struct {
	Path string
	S    *Sort
	T    types.Type
}

// Mode selects how machine types are represented in the unit being verified.
type Mode struct {
	U64Int bool // uint64/uint as Int with explicit wrap-around
	Real   bool // float64 as Real
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func (x *Exec) scalarSort(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			n := intBits(t)
			if u.Info()&types.IsUnsigned == 0 {
				return SInt
			}
			if n == 64 && x.mode.U64Int || n == 32 && x.mode.U64Int {
				return SInt
			}
			return BV(n)
		case u.Info()&types.IsFloat != 0:
			return F64Sort()
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Signature:
		return SFn
	case *types.Interface:
		return SIfc
	case *types.Map, *types.Chan:
		return SInt
	}
	return nil
}

func typeKey(t types.Type) string {
	switch u := t.(type) {
	case *types.Basic:
		return types.Typ[u.Kind()].Name()
	case *types.Alias:
		return typeKey(types.Unalias(t))
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	}
	s := types.TypeString(t, func(p *types.Package) string {
		i := strings.LastIndex(p.Path(), "/")
		return p.Path()[i+1:]
	})
	return s
}

func (x *Exec) leaves(t types.Type) []Leaf {
	if l, ok := x.leafCache[t]; ok {
		return l
	}
	l := x.leaves1(t)
	x.leafCache[t] = l
	return l
}

func (x *Exec) leaves1(t types.Type) []Leaf {
	if s := x.scalarSort(t); s != nil {
		return []Leaf{{"", s, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, ok := f.Type().Underlying().(*types.Array); ok {
				// embedded arrays live in their own region, see arrBase
				out = append(out, Leaf{Path: f.Name() + "[]", S: nil, T: f.Type()})
				continue
			}
			for _, l := range x.leaves(f.Type()) {
				p := f.Name()
				if l.Path != "" {
					p += "." + l.Path
				}
				out = append(out, Leaf{p, l.S, l.T})
			}
		}
		return out
	case *types.Slice:
		return []Leaf{{"base", SInt, nil}, {"off", SInt, nil}, {"len", SInt, nil}, {"cap", SInt, nil}}
	case *types.Pointer:
		return []Leaf{{"base", SInt, nil}, {"idx", SInt, nil}}
	case *types.Array:
		var out []Leaf
		for _, l := range x.leaves(u.Elem()) {
			out = append(out, Leaf{l.Path, ArrS(SInt, l.S), l.T})
		}
		return out
	}
	panic(unsupported(fmt.Sprintf("memory layout of %s", t)))
}

type unsup struct{ msg string }

func unsupported(m string) unsup { return unsup{m} }

func (x *Exec) flatten(t types.Type, v Val) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := v.(*StructV)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Array); ok {
				out = append(out, nil)
				continue
			}
			out = append(out, x.flatten(u.Field(i).Type(), sv.F[i])...)
		}
		return out
	case *types.Slice:
		s := v.(*SliceV)
		return []*Term{s.Base, s.Off, s.Len, s.Cap}
	case *types.Pointer:
		p, ok := v.(*PtrV)
		if !ok {
			panic(unsupported("flatten pointer"))
		}
		if len(p.Path) > 0 {
			panic(unsupported("storing an interior pointer"))
		}
		return []*Term{p.Base, p.Idx}
	case *types.Array:
		a := v.(*ArrayV)
		return a.L
	}
	return []*Term{x.scalarTerm(t, v)}
}

// scalarTerm turns a value of a scalar-like type into one term.
func (x *Exec) scalarTerm(t types.Type, v Val) *Term {
	switch w := v.(type) {
	case *Term:
		return w
	case *IfaceV:
		if w.T == nil {
			return nilIfc
		}
		var args []*Term
		for _, a := range x.flatten(w.T, w.V) {
			if a == nil {
				panic(unsupported("interface holding an array"))
			}
			args = append(args, a)
		}
		n := "mkifc!" + typeKey(w.T)
		if _, ok := x.ifcTypes[n]; !ok {
			x.ifcTypes[n] = w.T
		}
		return App(n, SIfc, args...)
	case *ClosV:
		if w.Fn == nil {
			return Var("nil!fn", SFn)
		}
		var args []*Term
		for i, b := range w.Binds {
			args = append(args, x.flatten(w.Fn.FreeVars[i].Type(), b)...)
		}
		n := "clo!" + w.Fn.String()
		x.closFns[n] = w.Fn
		return App(n, SFn, args...)
	}
	panic(unsupported(fmt.Sprintf("scalar term of %T for %s", v, t)))
}

var nilIfc = Var("nil!ifc", SIfc)

// unflatten rebuilds a value of type t from leaf terms, returning the rest.
func (x *Exec) unflatten(t types.Type, ls []*Term) (Val, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Array); ok {
				sv.F = append(sv.F, nil)
				ls = ls[1:]
				continue
			}
			var f Val
			f, ls = x.unflatten(u.Field(i).Type(), ls)
			sv.F = append(sv.F, f)
		}
		return sv, ls
	case *types.Slice:
		return &SliceV{u.Elem(), ls[0], ls[1], ls[2], ls[3]}, ls[4:]
	case *types.Pointer:
		return x.mkPtr(u.Elem(), ls[0], ls[1]), ls[2:]
	case *types.Array:
		n := len(x.leaves(u.Elem()))
		return &ArrayV{u.Elem(), u.Len(), append([]*Term{}, ls[:n]...)}, ls[n:]
	case *types.Interface:
		return x.ifcFromTerm(ls[0]), ls[1:]
	case *types.Signature:
		return x.fnFromTerm(ls[0]), ls[1:]
	}
	return ls[0], ls[1:]
}

func (x *Exec) mkPtr(elem types.Type, base, idx *Term) *PtrV {
	if a, ok := elem.Underlying().(*types.Array); ok {
		return &PtrV{Root: a.Elem(), Base: base, Idx: idx, ArrN: a.Len()}
	}
	return &PtrV{Root: elem, Base: base, Idx: idx, ArrN: -1}
}

func (x *Exec) ifcFromTerm(t *Term) Val {
	if t == nilIfc {
		return &IfaceV{}
	}
	if t.Op == "app" && strings.HasPrefix(t.Str, "mkifc!") {
		T := x.ifcTypes[t.Str]
		v, _ := x.unflatten(T, t.Args)
		return &IfaceV{T, v}
	}
	return t
}

func (x *Exec) fnFromTerm(t *Term) Val {
	if t.Op == "app" && strings.HasPrefix(t.Str, "clo!") {
		f := x.closFns[t.Str]
		c := &ClosV{Fn: f}
		ls := t.Args
		for _, fv := range f.FreeVars {
			var b Val
			b, ls = x.unflatten(fv.Type(), ls)
			c.Binds = append(c.Binds, b)
		}
		return c
	}
	return t
}

func (x *Exec) zeroTerm(s *Sort) *Term {
	switch {
	case s == SBool:
		return False
	case s == SInt:
		return IntC(0)
	case s.Kind == "BV":
		return BvU(0, s.Bits)
	case s == SStr:
		return strLit("")
	case s == SF64:
		return mk("f64c", SF64, new(big.Int), "")
	case s == SReal:
		return RealC("0.0")
	case s == SIfc:
		return nilIfc
	case s == SFn:
		return Var("nil!fn", SFn)
	case s.Kind == "Array":
		return ConstArr(s, x.zeroTerm(s.Elem))
	}
	panic(unsupported("zero of " + s.Name))
}

func (x *Exec) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		av := &ArrayV{Elem: u.Elem(), N: u.Len()}
		for _, l := range x.leaves(u.Elem()) {
			av.L = append(av.L, ConstArr(ArrS(SInt, l.S), x.zeroTerm(l.S)))
		}
		return av
	case *types.Slice:
		z := IntC(0)
		return &SliceV{u.Elem(), z, z, z, z}
	case *types.Pointer:
		return x.mkPtr(u.Elem(), IntC(0), IntC(0))
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &ClosV{}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(u.At(i).Type()))
		}
		return tv
	}
	return x.zeroTerm(x.scalarSort(t))
}

// ---- state ----

type envKey struct {
	frame int
	v     ssa.Value
}

type State struct {
	heap     map[string]*Term
	ghost    map[string]*Term
	pc       []*Term
	env      map[envKey]Val
	nextVar  *Term
	nextOff  int64
	active   []*activeLoop
	iters    map[string]int
	defers   map[int][]*ssa.Defer
	depth    int
	trail    []string
	epoch    int
	loopMark int // hypotheses from here on were made since the last loop was entered
	mark     int // hypotheses from here on are about shared memory as of the last interference
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)+4), ghost: make(map[string]*Term, len(s.ghost)+2), env: make(map[envKey]Val, len(s.env)+8),
		nextVar: s.nextVar, nextOff: s.nextOff, depth: s.depth, epoch: s.epoch, mark: s.mark, loopMark: s.loopMark}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.trail = s.trail[:len(s.trail):len(s.trail)]
	n.active = append([]*activeLoop{}, s.active...)
	n.iters = make(map[string]int, len(s.iters))
	for k, v := range s.iters {
		n.iters[k] = v
	}
	if len(s.defers) > 0 {
		n.defers = map[int][]*ssa.Defer{}
		for k, v := range s.defers {
			n.defers[k] = append([]*ssa.Defer{}, v...)
		}
	}
	return n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == True {
			continue
		}
		if t.Op == "and" {
			s.assume(t.Args...)
			continue
		}
		s.pc = append(s.pc, t)
	}
}

func (s *State) dead() bool {
	for _, t := range s.pc {
		if t == False {
			return true
		}
	}
	return false
}

// simple syntactic contradiction / entailment with the path condition
func (s *State) known(c *Term) *Term {
	if c.IsConst() {
		return c
	}
	n := Not(c)
	for i := len(s.pc) - 1; i >= 0; i-- {
		if s.pc[i] == c {
			return True
		}
		if s.pc[i] == n {
			return False
		}
	}
	return c
}

// ---- heap ----

func (x *Exec) heapSort(l Leaf) *Sort { return ArrS(SInt, ArrS(SInt, l.S)) }

func (x *Exec) heapGet(st *State, key string, l Leaf) *Term {
	h, ok := st.heap[key]
	if !ok {
		h = Var("H0!"+key, x.heapSort(l))
		st.heap[key] = h
		x.heapLeaf[key] = l
	}
	if _, ok := x.heapLeaf[key]; !ok {
		x.heapLeaf[key] = l
	}
	return h
}

func hkey(root types.Type, path string) string {
	k := typeKey(root)
	if path != "" {
		k += "." + path
	}
	return k
}

// subtype at a field path, with its leaf-path prefix
func (x *Exec) atPath(root types.Type, path []int) (types.Type, string) {
	t := root
	p := ""
	for _, i := range path {
		st := t.Underlying().(*types.Struct)
		f := st.Field(i)
		if p != "" {
			p += "."
		}
		p += f.Name()
		t = f.Type()
	}
	return t, p
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

// arrBase is the region holding the elements of an array embedded in a struct.
func (x *Exec) arrBase(root types.Type, path string, base, idx *Term) *Term {
	return App("arrbase!"+hkey(root, path), SInt, base, idx)
}

func (x *Exec) load(st *State, p *PtrV) Val {
	t, pre := x.atPath(p.Root, p.Path)
	if p.ArrN >= 0 && len(p.Path) == 0 {
		av := &ArrayV{Elem: p.Root, N: p.ArrN}
		for _, l := range x.leaves(p.Root) {
			if p.Idx.Op != "int" || p.Idx.N.Sign() != 0 {
				panic(unsupported("load of shifted array"))
			}
			av.L = append(av.L, Select(x.heapGet(st, hkey(p.Root, l.Path), l), p.Base))
		}
		return av
	}
	return x.loadAt(st, p.Root, t, pre, p.Base, p.Idx)
}

func (x *Exec) loadAt(st *State, root, t types.Type, pre string, base, idx *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.loadAt(st, root, u.Field(i).Type(), join(pre, u.Field(i).Name()), base, idx))
		}
		return sv
	case *types.Array:
		ab := x.arrBase(root, pre, base, idx)
		av := &ArrayV{Elem: u.Elem(), N: u.Len()}
		for _, l := range x.leaves(u.Elem()) {
			av.L = append(av.L, Select(x.heapGet(st, hkey(u.Elem(), l.Path), l), ab))
		}
		return av
	}
	var ls []*Term
	for _, l := range x.leaves(t) {
		h := x.heapGet(st, hkey(root, join(pre, l.Path)), l)
		ls = append(ls, Select(Select(h, base), idx))
	}
	v, _ := x.unflatten(t, ls)
	x.assumeWF(st, v)
	return v
}

// assumeWF records the invariants every Go value satisfies.
func (x *Exec) assumeWF(st *State, v Val) {
	switch w := v.(type) {
	case *SliceV:
		st.assume(sliceWF(w)...)
		st.assume(x.boundBase(st, w.Base)...)
	case *PtrV:
		if w.Base.Op != "int" {
			st.assume(Le(IntC(0), w.Base))
			st.assume(x.boundBase(st, w.Base)...)
			if len(w.Path) == 0 && w.Idx.Op != "int" {
				st.assume(Le(IntC(0), w.Idx))
			}
		}
	case *StructV:
		for _, f := range w.F {
			x.assumeWF(st, f)
		}
	case *Term:
		if w.S == SInt && !w.IsConst() {
			if lo, hi := rng(w); lo == nil || hi == nil {
				x.pendingRange = append(x.pendingRange, w)
			}
		}
	}
}

func (x *Exec) boundBase(st *State, b *Term) []*Term {
	if b.Op == "int" || extLike(b) {
		return nil
	}
	if a, _ := allocLike(b); a {
		return nil
	}
	if b.Op == "select" && b.Args[0].Op == "select" && b.Args[0].Args[0].Op == "var" && strings.HasPrefix(b.Args[0].Args[0].Str, "H0!") {
		return []*Term{mk("<", SBool, nil, "", b, Var("next!0", SInt))}
	}
	return []*Term{Lt(b, st.nextTerm())}
}

func (s *State) nextTerm() *Term { return Add(s.nextVar, IntC(s.nextOff)) }

func sliceWF(w *SliceV) []*Term {
	z := IntC(0)
	m := IntB(maxLen)
	var out []*Term
	add := func(t *Term) {
		if t != True {
			out = append(out, t)
		}
	}
	if w.Base.Op != "int" {
		add(Le(z, w.Base))
	}
	add(Le(z, w.Off))
	add(Le(z, w.Len))
	add(Le(w.Len, w.Cap))
	add(Le(Add(w.Off, w.Cap), m))
	if w.Base.Op != "int" && !extLike(w.Base) {
		if a, _ := allocLike(w.Base); !a {
			add(Imp(Eq(w.Base, z), And(Eq(w.Cap, z), Eq(w.Off, z))))
		}
	}
	return out
}

func (x *Exec) store(st *State, p *PtrV, v Val) {
	t, pre := x.atPath(p.Root, p.Path)
	if p.ArrN >= 0 && len(p.Path) == 0 {
		av := v.(*ArrayV)
		if p.Idx.Op != "int" || p.Idx.N.Sign() != 0 {
			panic(unsupported("store of shifted array"))
		}
		for i, l := range x.leaves(p.Root) {
			k := hkey(p.Root, l.Path)
			st.heap[k] = Store(x.heapGet(st, k, l), p.Base, av.L[i])
		}
		return
	}
	x.storeAt(st, p.Root, t, pre, p.Base, p.Idx, v)
}

func (x *Exec) storeAt(st *State, root, t types.Type, pre string, base, idx *Term, v Val) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			x.storeAt(st, root, u.Field(i).Type(), join(pre, u.Field(i).Name()), base, idx, sv.F[i])
		}
		return
	case *types.Array:
		ab := x.arrBase(root, pre, base, idx)
		av := v.(*ArrayV)
		for i, l := range x.leaves(u.Elem()) {
			k := hkey(u.Elem(), l.Path)
			st.heap[k] = Store(x.heapGet(st, k, l), ab, av.L[i])
		}
		return
	}
	fl := x.flatten(t, v)
	for i, l := range x.leaves(t) {
		k := hkey(root, join(pre, l.Path))
		h := x.heapGet(st, k, l)
		st.heap[k] = Store(h, base, Store(Select(h, base), idx, fl[i]))
	}
}

// alloc reserves a fresh region.
func (x *Exec) allocRegion(st *State) *Term {
	b := st.nextTerm()
	st.nextOff++
	for _, m := range x.rec {
		m.alloc = true
	}
	return b
}

// initRegion fills a fresh region of elem values with zeros.
func (x *Exec) initRegion(st *State, elem types.Type, base *Term) {
	for _, l := range x.leaves(elem) {
		if l.S == nil { // embedded array: zero its own region
			a := l.T.Underlying().(*types.Array)
			ab := x.arrBase(elem, strings.TrimSuffix(l.Path, "[]"), base, IntC(0))
			x.initRegion(st, a.Elem(), ab)
			continue
		}
		k := hkey(elem, l.Path)
		st.heap[k] = Store(x.heapGet(st, k, l), base, ConstArr(ArrS(SInt, l.S), x.zeroTerm(l.S)))
	}
}

func (x *Exec) fresh(name string, s *Sort) *Term {
	x.freshN++
	return freshVar(fmt.Sprintf("%s~%d", name, x.freshN), s)
}

// freshVal makes an arbitrary value of type t satisfying Go's type invariants.
func (x *Exec) freshVal(st *State, name string, t types.Type, param bool) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), param))
		}
		return sv
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.freshVal(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), param))
		}
		return tv
	case *types.Slice:
		s := &SliceV{Elem: u.Elem(), Base: x.freshBase(st, name, param), Off: x.freshLen(name + ".off"), Len: x.freshLen(name + ".len"), Cap: x.freshLen(name + ".cap")}
		st.assume(sliceWF(s)...)
		if !param {
			st.assume(x.boundBase(st, s.Base)...)
		} else {
			st.assume(Imp(Eq(s.Base, IntC(0)), And(Eq(s.Cap, IntC(0)), Eq(s.Off, IntC(0)))))
		}
		return s
	case *types.Pointer:
		b := x.freshBase(st, name, param)
		if !param {
			st.assume(Le(IntC(0), b))
			st.assume(x.boundBase(st, b)...)
		}
		return x.mkPtr(u.Elem(), b, IntC(0))
	case *types.Array:
		av := &ArrayV{Elem: u.Elem(), N: u.Len()}
		for _, l := range x.leaves(u.Elem()) {
			av.L = append(av.L, x.fresh(name, ArrS(SInt, l.S)))
		}
		return av
	}
	s := x.scalarSort(t)
	if s == nil {
		panic(unsupported("fresh value of " + t.String()))
	}
	if s == SInt {
		if _, ok := t.Underlying().(*types.Map); ok {
			b := x.freshBase(st, name, param)
			st.assume(Le(IntC(0), b))
			if !param {
				st.assume(x.boundBase(st, b)...)
			}
			return b
		}
		lo, hi := intRange(t)
		x.freshN++
		return rangedVar(fmt.Sprintf("%s~%d", name, x.freshN), lo, hi)
	}
	return x.fresh(name, s)
}

func intRange(t types.Type) (lo, hi *big.Int) {
	n := intBits(t)
	if n == 0 {
		n = 64
	}
	if isUnsigned(t) {
		return new(big.Int), bvMask(n)
	}
	hi = bvMask(n - 1)
	lo = new(big.Int).Sub(new(big.Int).Neg(hi), one)
	return
}

func (x *Exec) freshLen(name string) *Term {
	x.freshN++
	return rangedVar(fmt.Sprintf("%s~%d", name, x.freshN), new(big.Int), maxLen)
}

func (x *Exec) freshBase(st *State, name string, param bool) *Term {
	x.freshN++
	if param {
		v := Var(fmt.Sprintf("base!%s~%d", name, x.freshN), SInt)
		varRange[v] = [2]*big.Int{new(big.Int), nil}
		x.extBases = append(x.extBases, v)
		return v
	}
	return Var(fmt.Sprintf("rbase!%s~%d", name, x.freshN), SInt)
}
