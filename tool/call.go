package main

// Calls: builtins, contracts, inlining, models of the standard library.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var _ = big.NewInt

type cont func(st *State, res []Val)

func (x *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos, k cont) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, x.builtin(st, fr, b.Name(), c, args, pos))
		return
	}
	if c.IsInvoke() {
		x.invoke(st, fr, x.val(st, fr, c.Value), c.Value.Type(), c.Method, args, pos, k)
		return
	}
	if f := c.StaticCallee(); f != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = x.val(st, fr, mc).(*ClosV).Binds
		}
		x.callStatic(st, fr, f, binds, args, pos, k)
		return
	}
	x.callValue(st, fr, x.val(st, fr, c.Value), c.Value.Type(), args, pos, k)
}

func (x *Exec) callValue(st *State, fr *Frame, fv Val, t types.Type, args []Val, pos token.Pos, k cont) {
	switch f := fv.(type) {
	case *ClosV:
		if f.Fn == nil {
			x.check(st, "panic", "call of nil function", x.pos(pos), False)
			return
		}
		x.callStatic(st, fr, f.Fn, f.Binds, args, pos, k)
	case *Term:
		x.callUnknown(st, fr, f, t, args, pos, k)
	default:
		panic(unsupported("call of function value"))
	}
}

func fnKey(f *ssa.Function) string { return f.RelString(nil) }

// bound method wrappers and thunks created by the SSA builder are executed like ordinary code
func (x *Exec) callStatic(st *State, fr *Frame, f *ssa.Function, binds []Val, args []Val, pos token.Pos, k cont) {
	if x.conc != nil && x.conc.call(x, st, f, args, pos, k) {
		return
	}
	if isRepoFn(f) {
		if h := x.intrinsic(f); h != nil {
			h(st, fr, f, args, pos, k)
			return
		}
		if ct := x.spec.contractFor(f, x.mode, x.ctr); ct != nil && !(x.ctr != nil && x.ctr.Inline[ct.Name]) {
			x.applyContract(st, fr, ct, f, args, pos, k)
			return
		}
	}
	if !isRepoFn(f) {
		// a contract assumed of a function of the standard library
		if ct := x.spec.contractFor(f, x.mode, x.ctr); ct != nil && ct.Trusted != "" {
			x.applyContract(st, fr, ct, f, args, pos, k)
			return
		}
	}
	if m := models[fnKey(f)]; m != nil {
		x.trust("model of " + fnKey(f))
		m(x, st, fr, f, args, pos, k)
		return
	}
	if f.Blocks == nil || !isRepoFn(f) && !keepBody(f) {
		x.external(st, f, args, pos, k)
		return
	}
	if fr.stack[f] {
		panic(unsupported("recursive call of " + f.String()))
	}
	x.inlined[f.RelString(nil)] = true
	x.callFn(st, f, binds, args, fr, k)
}

func keepBody(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		return f.Synthetic != "" && f.Blocks != nil
	}
	return keepStdBodies[p.Pkg.Path()]
}

// external: a standard-library function without a model. Functions of pure packages are treated as
// unknown but deterministic functions of their arguments that leave memory alone.
func (x *Exec) external(st *State, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if !purePkgs[pkg] {
		panic(unsupported("call of " + f.String()))
	}
	x.trust("external function " + f.String() + " assumed deterministic and without side effects")
	k(st, x.ufCall(st, "ext!"+fnKey(f), f.Signature, args))
}

var purePkgs = map[string]bool{"math": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"fmt": true, "errors": true, "time": true, "mime": true, "bytes": true, "regexp": true, "math/bits": true, "net/url": true, "sort": false}

// ufCall: result leaves are uninterpreted functions of the argument leaves (byte slices by content).
func (x *Exec) ufCall(st *State, name string, sig *types.Signature, args []Val) []Val {
	var as []*Term
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i, a := range args {
		as = append(as, x.argTerms(st, a, ts[i])...)
	}
	res := sig.Results()
	var out []Val
	for i := 0; i < res.Len(); i++ {
		out = append(out, x.ufVal(st, fmt.Sprintf("%s!%d", name, i), res.At(i).Type(), as))
	}
	return out
}

func (x *Exec) argTerms(st *State, a Val, t types.Type) []*Term {
	if s, ok := a.(*SliceV); ok {
		if isByte(s.Elem) {
			return []*Term{x.sliceStr(st, s)}
		}
		var out []*Term
		for _, l := range x.leaves(s.Elem) {
			if l.S == nil {
				panic(unsupported("argument with embedded array"))
			}
			out = append(out, Select(x.heapGet(st, hkey(s.Elem, l.Path), l), s.Base))
		}
		return append(out, s.Off, s.Len)
	}
	return x.flatten(t, a)
}

func (x *Exec) ufVal(st *State, name string, t types.Type, as []*Term) Val {
	if sl, ok := t.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
		return x.strBytes(st, App(name, SStr, as...))
	}
	var ls []*Term
	for _, l := range x.leaves(t) {
		if l.S == nil {
			panic(unsupported("result with embedded array"))
		}
		n := name
		if l.Path != "" {
			n += "." + l.Path
		}
		ls = append(ls, App(n, l.S, as...))
	}
	v, _ := x.unflatten(t, ls)
	x.assumeWF(st, v)
	x.rangeOf(st, t, v)
	return v
}

func (x *Exec) lenOf(st *State, a Val, t types.Type, name string) Val {
	switch s := a.(type) {
	case *SliceV:
		if name == "cap" {
			return s.Cap
		}
		return s.Len
	case *ArrayV:
		return IntC(s.N)
	case *PtrV:
		return IntC(s.ArrN)
	case *Term:
		if s.S == SStr {
			return StrLen(s)
		}
		if m, ok := t.Underlying().(*types.Map); ok {
			_ = m
			r := App("maplen!"+typeKey(t), SInt, s)
			panic(unsupported("len of a map " + r.Str))
		}
	}
	panic(unsupported(name))
}

func (x *Exec) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []Val, pos token.Pos) []Val {
	switch name {
	case "len", "cap":
		return []Val{x.lenOf(st, args[0], c.Args[0].Type(), name)}
	case "copy":
		if x.conc != nil {
			if r, ok := x.conc.copySlice(x, st, args[0].(*SliceV), args[1], pos); ok {
				return []Val{r}
			}
		}
		return []Val{x.copySlice(st, args[0].(*SliceV), args[1])}
	case "append":
		return []Val{x.appendSlice(st, args[0].(*SliceV), args[1])}
	case "print", "println":
		return nil
	case "delete":
		t := c.Args[0].Type()
		b := args[0].(*Term)
		k, ks, _, _ := x.mapLeaves(t)
		key := x.scalarTerm(t.Underlying().(*types.Map).Key(), args[1])
		p := x.mapHeap(st, k+"?", ks, SBool)
		x.recordWrite(k+"?", b)
		st.heap[k+"?"] = Store(p, b, Store(Select(p, b), key, False))
		return nil
	case "min", "max":
		r := args[0].(*Term)
		if r.S != SInt && r.S.Kind != "BV" {
			break
		}
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if r.S == SInt {
				lt = Lt(r, t)
			} else {
				lt = BvCmp("bvult", r, t)
			}
			if name == "max" {
				lt = Not(lt)
			}
			r = Ite(lt, r, t)
		}
		return []Val{r}
	case "clear":
		if s, ok := args[0].(*SliceV); ok {
			for _, l := range x.leaves(s.Elem) {
				k := hkey(s.Elem, l.Path)
				h := x.heapGet(st, k, l)
				old := Select(h, s.Base)
				na := x.fresh("clr", old.S)
				v := BVar("i", SInt)
				in := And(Le(s.Off, v), Lt(v, Add(s.Off, s.Len)))
				st.assume(Forall([]*Term{v}, Eq(Select(na, v), Ite(in, x.zeroTerm(l.S), Select(old, v))), []*Term{Select(na, v)}))
				x.recordWrite(k, s.Base)
				st.heap[k] = Store(h, s.Base, na)
			}
			return nil
		}
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		x.nilCheck(st, p, pos)
		return []Val{p}
	}
	panic(unsupported("builtin " + name))
}

func minT(a, b *Term) *Term {
	if Le(a, b) == True {
		return a
	}
	if Le(b, a) == True {
		return b
	}
	return Ite(Le(a, b), a, b)
}

// splice is dst with dst[doff..doff+n) replaced by src[soff..soff+n).
func (x *Exec) splice(st *State, dst, doff, src, soff, n *Term) *Term {
	if n.Op == "int" && n.N.IsInt64() && n.N.Int64() <= 40 {
		r := dst
		for i := int64(0); i < n.N.Int64(); i++ {
			r = Store(r, Add(doff, IntC(i)), Select(src, Add(soff, IntC(i))))
		}
		return r
	}
	na := x.fresh("cpy", dst.S)
	v := BVar("i", SInt)
	in := And(Le(doff, v), Lt(v, Add(doff, n)))
	st.assume(Forall([]*Term{v}, Eq(Select(na, v), Ite(in, Select(src, Add(v, Sub(soff, doff))), Select(dst, v))), []*Term{Select(na, v)}))
	if dst.S == arr8 {
		// the same fact as byte sequences
		st.assume(Eq(MkStr(na, doff, n), MkStr(src, soff, n)))
	}
	return na
}

func (x *Exec) srcArr(st *State, v Val, i int, elem types.Type) (arr, off, n *Term) {
	switch s := v.(type) {
	case *SliceV:
		l := x.leaves(elem)[i]
		return Select(x.heapGet(st, hkey(elem, l.Path), l), s.Base), s.Off, s.Len
	case *Term:
		if s.Op == "app" && s.Str == "mkstr" {
			return s.Args[0], s.Args[1], s.Args[2]
		}
		if lt, ok := litText[s]; ok {
			arr := ConstArr(arr8, BvU(0, 8))
			for i := 0; i < len(lt); i++ {
				arr = Store(arr, IntC(int64(i)), BvU(uint64(lt[i]), 8))
			}
			return arr, IntC(0), IntC(int64(len(lt)))
		}
		return App("str2arr", arr8, s), IntC(0), StrLen(s)
	}
	panic(unsupported("copy source"))
}

func (x *Exec) copySlice(st *State, d *SliceV, src Val) Val {
	ls := x.leaves(d.Elem)
	var n *Term
	for i, l := range ls {
		if l.S == nil {
			panic(unsupported("copy of structs with arrays"))
		}
		arr, off, sn := x.srcArr(st, src, i, d.Elem)
		if n == nil {
			n = minT(d.Len, sn)
			for _, c := range st.pc {
				if c == Le(d.Len, sn) || c == Eq(d.Len, sn) || c == Eq(sn, d.Len) {
					n = d.Len
					break
				}
				if c == Le(sn, d.Len) {
					n = sn
					break
				}
			}
		}
		k := hkey(d.Elem, l.Path)
		h := x.heapGet(st, k, l)
		x.recordWrite(k, d.Base)
		if x.reads != nil {
			if s, ok := src.(*SliceV); ok {
				x.noteRead(st, &PtrV{Root: d.Elem, Base: s.Base, Idx: off})
			}
		}
		na := x.splice(st, Select(h, d.Base), d.Off, arr, off, n)
		st.heap[k] = Store(h, d.Base, na)
	}
	if n == nil {
		n = IntC(0)
	}
	return n
}

// appendSlice: the result reuses the array when the capacity allows it, otherwise it is a fresh copy.
func (x *Exec) appendSlice(st *State, d *SliceV, src Val) Val {
	ls := x.leaves(d.Elem)
	_, _, sn := x.srcLen(st, src, d.Elem)
	if sn.Op == "int" && sn.N.Sign() == 0 {
		return d
	}
	newLen := Add(d.Len, sn)
	x.trust("slices never grow beyond 2^56 elements")
	st.assume(Le(newLen, IntB(maxLen)))
	fits := Le(newLen, d.Cap)
	nb := x.allocRegion(st)
	ncap := x.freshLen("appcap")
	st.assume(Le(newLen, ncap))
	var base, off, cp *Term
	grow := d.Cap.Op == "int" && d.Len.Op == "int" && sn.Op == "int" && fits == False || st.known(fits) == False
	inplace := fits == True || st.known(fits) == True
	switch {
	case inplace:
		base, off, cp = d.Base, d.Off, d.Cap
	case grow:
		base, off, cp = nb, IntC(0), ncap
	default:
		base, off, cp = Ite(fits, d.Base, nb), Ite(fits, d.Off, IntC(0)), Ite(fits, d.Cap, ncap)
	}
	for i, l := range ls {
		if l.S == nil {
			panic(unsupported("append of structs with arrays"))
		}
		arr, soff, n := x.srcArr(st, src, i, d.Elem)
		k := hkey(d.Elem, l.Path)
		h := x.heapGet(st, k, l)
		old := Select(h, d.Base)
		if !grow {
			x.recordWrite(k, d.Base)
		}
		x.recordWrite(k, nb)
		// in place
		inA := x.splice(st, old, Add(d.Off, d.Len), arr, soff, n)
		if inplace {
			st.heap[k] = Store(h, d.Base, inA)
			continue
		}
		// fresh copy
		var frA *Term
		if d.Off.Op == "int" && d.Off.N.Sign() == 0 {
			frA = x.splice(st, old, d.Len, arr, soff, n)
		} else {
			frA = x.fresh("app", old.S)
			v := BVar("i", SInt)
			st.assume(Forall([]*Term{v}, Imp(And(Le(IntC(0), v), Lt(v, d.Len)), Eq(Select(frA, v), Select(old, Add(d.Off, v)))), []*Term{Select(frA, v)}))
			if d.Elem != nil && old.S == arr8 {
				st.assume(Eq(MkStr(frA, IntC(0), d.Len), MkStr(old, d.Off, d.Len)))
			}
			frA = x.splice(st, frA, d.Len, arr, soff, n)
		}
		if grow {
			st.heap[k] = Store(h, nb, frA)
			continue
		}
		h2 := Store(h, d.Base, Ite(fits, inA, old))
		st.heap[k] = Store(h2, nb, frA)
		// reading through the merged base
	}
	return &SliceV{d.Elem, base, off, newLen, cp}
}

func (x *Exec) srcLen(st *State, v Val, elem types.Type) (a, b, n *Term) {
	switch s := v.(type) {
	case *SliceV:
		return nil, nil, s.Len
	case *Term:
		return nil, nil, StrLen(s)
	}
	panic(unsupported("append source"))
}

// ---- type assertions ----

func tagId(t types.Type) *Term {
	k := typeKey(t)
	id, ok := tagIds[k]
	if !ok {
		id = int64(len(tagIds) + 1)
		tagIds[k] = id
		tagTypes[k] = t
	}
	return IntC(id)
}

var tagIds = map[string]int64{}
var tagTypes = map[string]types.Type{}

func tagOf(i *Term) *Term { return App("ifctag", SInt, i) }

func (x *Exec) implements(i *Term, it *types.Interface, name string) *Term {
	// closed world: the interface holds one of the module's own types, decided by its tag
	var cs []*Term
	for _, t := range x.prog.concreteTypes() {
		if types.Implements(t, it) {
			cs = append(cs, Eq(tagOf(i), tagId(t)))
		}
	}
	for _, t := range x.prog.concreteTypes() {
		tagId(t)
	}
	return Or(append(cs, And(App("implx!"+name, SBool, i), Lt(IntC(int64(len(tagIds)+1000)), tagOf(i))))...)
}

func (x *Exec) typeAssert(st *State, fr *Frame, v *ssa.TypeAssert, k func(*State, Val)) {
	a := x.val(st, fr, v.X)
	to := v.AssertedType
	it, isI := to.Underlying().(*types.Interface)
	fail := func(st *State) {
		if v.CommaOk {
			k(st, TupleV{x.zero(to), False})
			return
		}
		x.check(st, "panic", "type assertion to "+to.String(), x.pos(v.Pos()), False)
	}
	ok := func(st *State, r Val) {
		if v.CommaOk {
			k(st, TupleV{r, True})
			return
		}
		k(st, r)
	}
	if iv, isv := a.(*IfaceV); isv {
		if iv.T == nil {
			fail(st)
			return
		}
		if isI {
			if types.Implements(iv.T, it) {
				ok(st, iv)
			} else {
				fail(st)
			}
			return
		}
		if types.Identical(iv.T, to) {
			ok(st, iv.V)
		} else {
			fail(st)
		}
		return
	}
	t := a.(*Term)
	var c *Term
	if isI {
		c = And(Not(Eq(t, nilIfc)), x.implements(t, it, typeKey(to)))
	} else {
		c = Eq(tagOf(t), tagId(to))
	}
	c = st.known(c)
	if c != False {
		s2 := st.clone()
		s2.assume(c)
		if !x.infeasible(s2) && !x.tagConflict(s2) {
			if isI {
				ok(s2, t)
			} else {
				r := x.ifcPayload(s2, t, to)
				ok(s2, r)
			}
		}
	}
	if c != True {
		st.assume(Not(c))
		if !x.infeasible(st) && !x.tagConflict(st) {
			fail(st)
		}
	}
}

func (x *Exec) tagConflict(st *State) bool { return false }

// ifcPayload is the dynamic value of interface term t known to have type to.
func (x *Exec) ifcPayload(st *State, t *Term, to types.Type) Val {
	if _, ok := to.Underlying().(*types.Pointer); ok {
		v := x.ufVal(st, "payload!"+typeKey(to), to, []*Term{t})
		return v
	}
	n := "mkifc!" + typeKey(to)
	x.ifcTypes[n] = to
	var ls []*Term
	for k, l := range x.leaves(to) {
		if l.S == nil {
			panic(unsupported("interface holding an array"))
		}
		ls = append(ls, App(fmt.Sprintf("inv!%s!%d", n, k), l.S, t))
	}
	v, _ := x.unflatten(to, ls)
	is := Eq(tagOf(t), tagId(to))
	s2 := &State{heap: st.heap, ghost: st.ghost, env: map[envKey]Val{}, nextVar: st.nextVar, nextOff: st.nextOff}
	x.assumeWF(s2, v)
	x.rangeOf(s2, to, v)
	for _, f := range s2.pc {
		st.assume(Imp(is, f))
	}
	st.assume(Imp(is, Eq(t, App(n, SIfc, ls...))))
	return v
}

func (x *Exec) selectInstr(st *State, fr *Frame, v *ssa.Select, k func(*State)) {
	if len(v.States) != 1 || v.Blocking || v.States[0].Dir != types.RecvOnly {
		panic(unsupported("select statement"))
	}
	ch := x.val(st, fr, v.States[0].Chan).(*Term)
	// non-blocking receive: taken or default
	et := v.States[0].Chan.Type().Underlying().(*types.Chan).Elem()
	done := App("chanready", SBool, ch, x.ghostClock(st))
	s2 := st.clone()
	s2.assume(done)
	if ch.Op == "app" && ch.Str == "ctxdone" {
		st.assume(Not(App("cancelled", SBool, ch.Args[0])))
		x.setGhost(s2, "seenDone", True)
	}
	s2.env[envKey{fr.id, v}] = TupleV{IntC(0), True, x.freshVal(s2, "recv", et, false)}
	k(s2)
	st.assume(Not(done))
	st.env[envKey{fr.id, v}] = TupleV{IntC(-1), False, x.zero(et)}
	k(st)
}

// ghostClock makes successive polls of the same channel independent.
func (x *Exec) ghostClock(st *State) *Term {
	return x.fresh("poll", SInt)
}

// concreteTypes lists the module's named non-interface types (and pointers to them).
func (p *Program) concreteTypes() []types.Type {
	if p.conc != nil {
		return p.conc
	}
	for _, path := range p.pkgPaths() {
		sp := p.SSA[path]
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			p.conc = append(p.conc, tn.Type(), types.NewPointer(tn.Type()))
		}
	}
	return p.conc
}

func (x *Exec) invoke(st *State, fr *Frame, recv Val, it types.Type, m *types.Func, args []Val, pos token.Pos, k cont) {
	if iv, ok := recv.(*IfaceV); ok {
		if iv.T == nil {
			x.check(st, "panic", "method call on nil interface", x.pos(pos), False)
			return
		}
		// repository types are dispatched statically
		if h := ifcModels[typeKey(iv.T)+"."+m.Name()]; h != nil {
			x.trust("model of " + typeKey(iv.T) + "." + m.Name())
			h(x, st, fr, x.scalarTerm(it, iv), args, pos, k)
			return
		}
		ms := x.prog.Prog.MethodSets.MethodSet(iv.T)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel != nil {
			f := x.prog.Prog.MethodValue(sel)
			if f != nil && (f.Blocks != nil || models[fnKey(f)] != nil) {
				x.callStatic(st, fr, f, nil, append([]Val{iv.V}, args...), pos, k)
				return
			}
		}
	}
	t := x.scalarTerm(it, recv)
	if x.conc != nil && x.conc.invoke(x, st, t, m, args, pos, k) {
		return
	}
	key := typeKey(it) + "." + m.Name()
	h := ifcModels[key]
	if h == nil {
		h = ifcModels["*."+m.Name()]
	}
	if h == nil {
		if x.spec.ifcContract(key) != nil {
			x.applyIfc(st, fr, x.spec.ifcContract(key), t, m, args, pos, k)
			return
		}
		panic(unsupported("method call " + key))
	}
	if iv, ok := recv.(*IfaceV); !ok || iv.T != nil {
		x.check(st, "panic", "method call on nil interface", x.pos(pos), Not(Eq(t, nilIfc)))
	}
	x.trust("model of interface method " + key)
	h(x, st, fr, t, args, pos, k)
}

func (p *Program) pkgPaths() []string {
	var out []string
	for k := range p.SSA {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func isRepoGlobal(g *ssa.Global) bool { return strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) }

// stdGlobal: package-level variables of the standard library, treated as constants.
func (x *Exec) stdGlobal(g *ssa.Global) Val {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	x.trust("standard library variable " + name + " is never reassigned")
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return Var("err!"+name, SIfc)
	}
	st := &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, env: map[envKey]Val{}, nextVar: Var("next!0", SInt)}
	return x.ufVal(st, "std!"+name, t, nil)
}

// setGhost assigns a ghost variable the specifications declare.
func (x *Exec) setGhost(st *State, name string, v *Term) {
	if _, ok := x.spec.Ghosts[name]; ok {
		x.recordGhost(name)
		st.ghost[name] = v
	}
}
