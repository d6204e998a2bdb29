package main

// Evaluation of value-producing SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var _ = constant.MakeInt64

func (x *Exec) eval(st *State, fr *Frame, in ssa.Value) Val {
	switch v := in.(type) {
	case *ssa.Alloc:
		et := v.Type().Underlying().(*types.Pointer).Elem()
		return x.allocVal(st, et)
	case *ssa.BinOp:
		return x.binop(st, v.Op, x.val(st, fr, v.X), x.val(st, fr, v.Y), v.X.Type(), v.Y.Type(), v.Type(), v.Pos())
	case *ssa.UnOp:
		a := x.val(st, fr, v.X)
		switch v.Op {
		case token.MUL:
			p := a.(*PtrV)
			if g, ok := v.X.(*ssa.Global); ok && !isRepoGlobal(g) {
				return x.stdGlobal(g)
			}
			if x.conc != nil {
				if r, ok := x.conc.load(x, st, p, v.Pos()); ok {
					return r
				}
			}
			return x.loadChecked(st, p, v.Pos())
		case token.SUB:
			return x.neg(st, a.(*Term), v.X.Type(), v.Pos())
		case token.NOT:
			return Not(a.(*Term))
		case token.XOR:
			t := a.(*Term)
			if t.S.Kind == "BV" {
				return BvNot(t)
			}
			if isUnsigned(v.X.Type()) {
				return Sub(IntB(bvMask(intBits(v.X.Type()))), t)
			}
			return Sub(IntC(-1), t)
		}
		panic(unsupported("operator " + v.Op.String()))
	case *ssa.FieldAddr:
		p := x.val(st, fr, v.X).(*PtrV)
		x.nilCheck(st, p, v.Pos())
		return x.fieldPtr(p, v.Field)
	case *ssa.Field:
		sv, ok := x.val(st, fr, v.X).(*StructV)
		if !ok {
			panic(unsupported("field of opaque struct"))
		}
		return sv.F[v.Field]
	case *ssa.IndexAddr:
		i := x.toInt(x.val(st, fr, v.Index).(*Term), v.Index.Type())
		switch s := x.val(st, fr, v.X).(type) {
		case *SliceV:
			x.bounds(st, i, s.Len, v.Pos())
			return x.elemPtr(s, i)
		case *PtrV:
			x.nilCheck(st, s, v.Pos())
			x.bounds(st, i, IntC(s.ArrN), v.Pos())
			return x.mkPtr(s.Root, s.Base, Add(s.Idx, i))
		}
		panic(unsupported("IndexAddr"))
	case *ssa.Index:
		i := x.toInt(x.val(st, fr, v.Index).(*Term), v.Index.Type())
		switch s := x.val(st, fr, v.X).(type) {
		case *ArrayV:
			x.bounds(st, i, IntC(s.N), v.Pos())
			var ls []*Term
			for _, a := range s.L {
				ls = append(ls, Select(a, i))
			}
			r, _ := x.unflatten(s.Elem, ls)
			x.rangeOf(st, s.Elem, r)
			return r
		case *Term:
			x.bounds(st, i, StrLen(s), v.Pos())
			return StrAt(s, i)
		}
		panic(unsupported("Index"))
	case *ssa.Lookup:
		return x.lookup(st, fr, v)
	case *ssa.Slice:
		return x.sliceOp(st, fr, v)
	case *ssa.MakeSlice:
		n := x.toInt(x.val(st, fr, v.Len).(*Term), v.Len.Type())
		c := x.toInt(x.val(st, fr, v.Cap).(*Term), v.Cap.Type())
		x.check(st, "panic", "make: length not negative", x.pos(v.Pos()), Le(IntC(0), n))
		x.check(st, "panic", "make: length within capacity", x.pos(v.Pos()), Le(n, c))
		if Le(c, IntB(maxLen)) != True {
			x.trust("allocations larger than 2^56 elements do not occur")
			st.assume(Le(c, IntB(maxLen)))
		}
		el := v.Type().Underlying().(*types.Slice).Elem()
		b := x.allocRegion(st)
		x.initRegionRec(st, el, b)
		return &SliceV{el, b, IntC(0), n, c}
	case *ssa.MakeMap:
		return x.makeMap(st, v.Type())
	case *ssa.MakeClosure:
		c := &ClosV{Fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			c.Binds = append(c.Binds, x.val(st, fr, b))
		}
		return c
	case *ssa.MakeInterface:
		return &IfaceV{T: v.X.Type(), V: x.val(st, fr, v.X)}
	case *ssa.ChangeInterface:
		return x.val(st, fr, v.X)
	case *ssa.ChangeType:
		a := x.val(st, fr, v.X)
		if sv, ok := a.(*StructV); ok {
			return &StructV{T: v.Type(), F: sv.F}
		}
		return a
	case *ssa.Convert:
		return x.convert(st, x.val(st, fr, v.X), v.X.Type(), v.Type(), v.Pos())
	case *ssa.Extract:
		return x.val(st, fr, v.Tuple).(TupleV)[v.Index]
	case *ssa.Range:
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			panic(unsupported("iteration over a map: its order is not determined by the program"))
		}
		panic(unsupported("range over " + v.X.Type().String()))
	case *ssa.SliceToArrayPointer:
		s := x.val(st, fr, v.X).(*SliceV)
		a := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.check(st, "panic", "slice long enough for array", x.pos(v.Pos()), Le(IntC(a.Len()), s.Len))
		return &PtrV{Root: a.Elem(), Base: s.Base, Idx: s.Off, ArrN: a.Len()}
	}
	panic(unsupported(fmt.Sprintf("instruction %T", in)))
}

func (x *Exec) elemPtr(s *SliceV, i *Term) *PtrV {
	if _, ok := s.Elem.Underlying().(*types.Array); ok {
		panic(unsupported("slice of arrays"))
	}
	return &PtrV{Root: s.Elem, Base: s.Base, Idx: Add(s.Off, i), ArrN: -1}
}

func (x *Exec) allocVal(st *State, et types.Type) Val {
	b := x.allocRegion(st)
	if a, ok := et.Underlying().(*types.Array); ok {
		x.initRegionRec(st, a.Elem(), b)
		return &PtrV{Root: a.Elem(), Base: b, Idx: IntC(0), ArrN: a.Len()}
	}
	if typeKey(et) == "bytes.Buffer" {
		p := &PtrV{Root: et, Base: b, Idx: IntC(0), ArrN: -1}
		w := x.scalarTerm(types.NewInterfaceType(nil, nil), &IfaceV{T: types.NewPointer(et), V: p})
		x.ghostSet(st, "out.len", w, IntC(0))
		st.assume(App("nofail", SBool, w))
		return p
	}
	if opaqueStruct(et) {
		return &PtrV{Root: et, Base: b, Idx: IntC(0), ArrN: -1}
	}
	x.initRegionRec(st, et, b)
	return x.mkPtr(et, b, IntC(0))
}

// opaqueStruct: standard-library structs whose fields the repository never touches.
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "net/http", "bufio", "log", "bytes", "strings", "regexp", "sync":
		_, s := t.Underlying().(*types.Struct)
		return s
	}
	return false
}

func (x *Exec) initRegionRec(st *State, elem types.Type, b *Term) {
	if len(x.rec) > 0 {
		for _, l := range x.leaves(elem) {
			if l.S != nil {
				k := hkey(elem, l.Path)
				if _, ok := x.heapLeaf[k]; !ok {
					x.heapLeaf[k] = l
				}
				x.recordWrite(k, b)
			}
		}
	}
	x.initRegion(st, elem, b)
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	x.check(st, "panic", "index in range", x.pos(pos), And(Le(IntC(0), i), Lt(i, n)))
}

// toInt is the mathematical value of an integer term of type t.
func (x *Exec) toInt(v *Term, t types.Type) *Term {
	if v.S.Kind == "BV" {
		return Bv2Int(v)
	}
	return v
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(one, uint(n)) }

func (x *Exec) inRange(st *State, r *Term, t types.Type, what string, pos token.Pos) *Term {
	lo, hi := intRange(t)
	l, h := rng(r)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	if isUnsigned(t) {
		return x.wrapU(st, r, intBits(t))
	}
	if x.ctr != nil && x.ctr.Wrap {
		m := IntB(pow2(intBits(t)))
		half := IntB(pow2(intBits(t) - 1))
		return Ite(And(Le(IntB(lo), r), Le(r, IntB(hi))), r, Sub(Mod(Add(r, half), m), half))
	}
	x.check(st, "overflow", what+" does not overflow", x.pos(pos), And(Le(IntB(lo), r), Le(r, IntB(hi))))
	return r
}

// wrapU reduces a mathematical integer modulo 2^n.
func (x *Exec) wrapU(st *State, r *Term, n int) *Term {
	return Mod(r, IntB(pow2(n)))
}

func (x *Exec) neg(st *State, a *Term, t types.Type, pos token.Pos) Val {
	switch {
	case a.S == SF64:
		return fneg(a)
	case a.S == SReal:
		return mk("-", SReal, nil, "", RealC("0.0"), a)
	case a.S.Kind == "BV":
		return BvNeg(a)
	}
	return x.inRange(st, Sub(IntC(0), a), t, "negation", pos)
}

func fneg(a *Term) *Term {
	if a.Op == "f64c" {
		return mk("f64c", SF64, new(big.Int).Xor(a.N, pow2(63)), "")
	}
	return App("fneg", SF64, a)
}

var fops = map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}

func fop(op token.Token, a, b *Term) *Term {
	if a.S == SReal {
		switch op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			return mk("/", SReal, nil, "", a, b)
		}
	}
	n := fops[op]
	if a.Op == "f64c" && b.Op == "f64c" {
		x, y := math.Float64frombits(a.N.Uint64()), math.Float64frombits(b.N.Uint64())
		r := math.NaN()
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		}
		if r == r {
			return f64Const(r)
		}
	}
	if (n == "fadd" || n == "fmul") && a.Id > b.Id { // IEEE addition and multiplication commute (NaN payloads aside)
		a, b = b, a
	}
	return App(n, SF64, a, b)
}

func fcmp(op token.Token, a, b *Term) *Term {
	if a.S == SReal {
		switch op {
		case token.EQL:
			return Eq(a, b)
		case token.NEQ:
			return Not(Eq(a, b))
		case token.LSS:
			return mk("<", SBool, nil, "", a, b)
		case token.LEQ:
			return mk("<=", SBool, nil, "", a, b)
		case token.GTR:
			return mk("<", SBool, nil, "", b, a)
		case token.GEQ:
			return mk("<=", SBool, nil, "", b, a)
		}
	}
	switch op {
	case token.EQL:
		return mk("fpeq", SBool, nil, "", a, b)
	case token.NEQ:
		return Not(mk("fpeq", SBool, nil, "", a, b))
	case token.LSS:
		return mk("fplt", SBool, nil, "", a, b)
	case token.LEQ:
		return mk("fple", SBool, nil, "", a, b)
	case token.GTR:
		return mk("fplt", SBool, nil, "", b, a)
	case token.GEQ:
		return mk("fple", SBool, nil, "", b, a)
	}
	panic("fcmp")
}

func (x *Exec) binop(st *State, op token.Token, av, bv Val, at, bt, rt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.equal(st, av, bv, at)
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	a, aok := av.(*Term)
	b, bok := bv.(*Term)
	if !aok || !bok {
		panic(unsupported("operands of " + op.String()))
	}
	if a.S == SF64 || a.S == SReal {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return fcmp(op, a, b)
		}
		return fop(op, a, b)
	}
	if a.S == SStr {
		switch op {
		case token.ADD:
			return StrCat(a, b)
		case token.LSS:
			return App("strlt", SBool, a, b)
		case token.GTR:
			return App("strlt", SBool, b, a)
		case token.LEQ:
			return Not(App("strlt", SBool, b, a))
		case token.GEQ:
			return Not(App("strlt", SBool, a, b))
		}
	}
	if a.S == SBool {
		switch op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	// shifts
	if op == token.SHL || op == token.SHR {
		return x.shift(st, op, a, b, at, bt, pos)
	}
	if a.S.Kind == "BV" {
		if b.S != a.S {
			panic(unsupported("bit-vector operand sizes"))
		}
		switch op {
		case token.ADD:
			return Bv("bvadd", a, b)
		case token.SUB:
			return Bv("bvsub", a, b)
		case token.MUL:
			return bvMul(a, b)
		case token.AND:
			return Bv("bvand", a, b)
		case token.OR:
			return Bv("bvor", a, b)
		case token.XOR:
			return Bv("bvxor", a, b)
		case token.AND_NOT:
			return Bv("bvand", a, BvNot(b))
		case token.QUO:
			x.check(st, "panic", "no division by zero", x.pos(pos), Not(Eq(b, BvU(0, b.S.Bits))))
			return bvDivRem("bvudiv", a, b)
		case token.REM:
			x.check(st, "panic", "no division by zero", x.pos(pos), Not(Eq(b, BvU(0, b.S.Bits))))
			return bvDivRem("bvurem", a, b)
		case token.LSS:
			return BvCmp("bvult", a, b)
		case token.LEQ:
			return BvCmp("bvule", a, b)
		case token.GTR:
			return BvCmp("bvult", b, a)
		case token.GEQ:
			return BvCmp("bvule", b, a)
		}
		panic(unsupported("operator " + op.String()))
	}
	switch op {
	case token.ADD:
		return x.inRange(st, Add(a, b), rt, "addition", pos)
	case token.SUB:
		return x.inRange(st, Sub(a, b), rt, "subtraction", pos)
	case token.MUL:
		return x.inRange(st, Mul(a, b), rt, "multiplication", pos)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.QUO, token.REM:
		x.check(st, "panic", "no division by zero", x.pos(pos), Not(Eq(b, IntC(0))))
		return x.truncDiv(st, op, a, b, rt, pos)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.intBitop(op, a, b, rt)
	}
	panic(unsupported("operator " + op.String()))
}

// bvMul keeps wide multiplications by non-constants abstract.
func bvMul(a, b *Term) *Term {
	return Bv("bvmul", a, b)
}

func bvDivRem(op string, a, b *Term) *Term {
	if a.Op == "bv" && b.Op == "bv" || a.S.Bits <= 16 {
		return Bv(op, a, b)
	}
	if b.Op == "bv" {
		if op == "bvurem" && isMask(new(big.Int).Sub(b.N, one)) {
			return Bv("bvand", a, BvC(new(big.Int).Sub(b.N, one), a.S.Bits))
		}
		return Bv(op, a, b)
	}
	return App(op+"64", a.S, a, b) // with axioms, see solve.go
}

func nonneg(a *Term) bool {
	l, _ := rng(a)
	return l != nil && l.Sign() >= 0
}

func (x *Exec) truncDiv(st *State, op token.Token, a, b *Term, t types.Type, pos token.Pos) *Term {
	q := func(a, b *Term) *Term {
		if op == token.QUO {
			return Div(a, b)
		}
		return Mod(a, b)
	}
	if isUnsigned(t) {
		return q(a, b)
	}
	if st.known(Le(IntC(0), a)) == True && b.Op == "int" && b.N.Sign() > 0 {
		return q(a, b)
	}
	zero := IntC(0)
	sgn := func(t *Term) *Term { return Sub(zero, t) }
	if b.Op == "int" && b.N.Sign() > 0 {
		return Ite(Le(zero, a), q(a, b), sgn(q(sgn(a), b)))
	}
	// general case: |a| op |b| with the sign of the quotient (or of the dividend)
	var bpos, bneg *Term
	bpos = Ite(Le(zero, a), q(a, b), sgn(q(sgn(a), b)))
	if op == token.QUO {
		bneg = Ite(Le(zero, a), sgn(q(a, sgn(b))), q(sgn(a), sgn(b)))
		return x.inRange(st, Ite(Lt(zero, b), bpos, bneg), t, "division", pos)
	}
	bneg = Ite(Le(zero, a), q(a, sgn(b)), sgn(q(sgn(a), sgn(b))))
	return Ite(Lt(zero, b), bpos, bneg)
}

func (x *Exec) intBitop(op token.Token, a, b *Term, t types.Type) *Term {
	if a.Op == "int" {
		a, b = b, a
	}
	if op == token.AND && b.Op == "int" && b.N.Sign() >= 0 && isMask(b.N) {
		return Mod(a, IntB(new(big.Int).Add(b.N, one)))
	}
	n := intBits(t)
	x1, y1 := Int2Bv(a, n), Int2Bv(b, n)
	var r *Term
	switch op {
	case token.AND:
		r = Bv("bvand", x1, y1)
	case token.OR:
		r = Bv("bvor", x1, y1)
	case token.XOR:
		r = Bv("bvxor", x1, y1)
	default:
		r = Bv("bvand", x1, BvNot(y1))
	}
	if isUnsigned(t) {
		return Bv2Int(r)
	}
	u := Bv2Int(r)
	return Ite(Lt(u, IntB(pow2(n-1))), u, Sub(u, IntB(pow2(n))))
}

func (x *Exec) shift(st *State, op token.Token, a, b *Term, at, bt types.Type, pos token.Pos) Val {
	n := intBits(at)
	if !isUnsigned(bt) {
		x.check(st, "panic", "shift count not negative", x.pos(pos), Le(IntC(0), b))
	}
	if a.S.Kind == "BV" {
		var cnt *Term
		over := False
		if b.S.Kind == "BV" {
			if b.S.Bits > n {
				over = Not(BvCmp("bvult", b, BvU(uint64(n), b.S.Bits)))
				cnt = Extract(n-1, 0, b)
			} else {
				cnt = ZExt(b, n)
			}
		} else {
			l, h := rng(b)
			if l == nil || h == nil || l.Sign() < 0 || h.Cmp(big.NewInt(int64(n))) > 0 {
				over = Le(IntC(int64(n)), b)
			}
			cnt = Int2Bv(b, n)
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
		}
		// counts of n or more give 0 in SMT-LIB too
		return Ite(over, BvU(0, n), Bv(o, a, cnt))
	}
	cnt := x.toInt(b, bt)
	if cnt.Op == "int" {
		if cnt.N.IsInt64() && cnt.N.Int64() <= 256 {
			k := pow2(int(cnt.N.Int64()))
			if op == token.SHL {
				r := Mul(a, IntB(k))
				if isUnsigned(at) {
					return x.wrapU(st, r, n)
				}
				return x.inRange(st, r, at, "shift", pos)
			}
			return Div(a, IntB(k))
		}
	}
	p := pow2Term(cnt)
	if op == token.SHL {
		r := Mul(a, p)
		if isUnsigned(at) {
			return x.wrapU(st, r, n)
		}
		return x.inRange(st, r, at, "shift", pos)
	}
	return Div(a, p)
}

// pow2Term is 2^c for a count with a small known range.
func pow2Term(c *Term) *Term {
	lo, hi := rng(c)
	if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(big.NewInt(300)) > 0 {
		return App("pow2", SInt, c)
	}
	n := int(hi.Int64())
	r := IntB(pow2(n))
	for i := n - 1; i >= int(lo.Int64()); i-- {
		r = Ite(Eq(c, IntC(int64(i))), IntB(pow2(i)), r)
	}
	return r
}

func (x *Exec) equal(st *State, av, bv Val, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := av.(*SliceV), bv.(*SliceV)
		return Eq(a.Base, b.Base) // only comparison with nil is legal
	case *types.Pointer:
		a, b := av.(*PtrV), bv.(*PtrV)
		if fmt.Sprint(a.Path) != fmt.Sprint(b.Path) {
			if b.Base.Op == "int" && b.Base.N.Sign() == 0 || a.Base.Op == "int" && a.Base.N.Sign() == 0 {
				return Eq(a.Base, b.Base)
			}
			panic(unsupported("comparison of interior pointers"))
		}
		if b.Base.Op == "int" && b.Base.N.Sign() == 0 || a.Base.Op == "int" && a.Base.N.Sign() == 0 {
			return Eq(a.Base, b.Base)
		}
		return And(Eq(a.Base, b.Base), Eq(a.Idx, b.Idx))
	case *types.Struct:
		a, b := av.(*StructV), bv.(*StructV)
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.equal(st, a.F[i], b.F[i], u.Field(i).Type()))
		}
		return And(cs...)
	case *types.Array:
		a, b := av.(*ArrayV), bv.(*ArrayV)
		var cs []*Term
		v := BVar("i", SInt)
		for i := range a.L {
			cs = append(cs, Forall([]*Term{v}, Imp(And(Le(IntC(0), v), Lt(v, IntC(a.N))), Eq(Select(a.L[i], v), Select(b.L[i], v)))))
		}
		return And(cs...)
	case *types.Basic:
		a, b := av.(*Term), bv.(*Term)
		if a.S == SF64 || a.S == SReal {
			return fcmp(token.EQL, a, b)
		}
		return Eq(a, b)
	}
	ia, aok := av.(*IfaceV)
	ib, bok := bv.(*IfaceV)
	if aok && bok && ia.T != nil && ib.T != nil {
		if !types.Identical(ia.T, ib.T) {
			return False
		}
		return x.equal(st, ia.V, ib.V, ia.T)
	}
	return Eq(x.scalarTerm(t, av), x.scalarTerm(t, bv))
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		a := v.(*Term)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return x.convInt(st, a, from, to)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return x.i2f(a, from)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			s := x.scalarSort(to)
			r := App("f2i!"+typeKey(to), s, a)
			if s == SInt {
				lo, hi := intRange(to)
				st.assume(Le(IntB(lo), r), Le(r, IntB(hi)))
			}
			return r
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if fb.Kind() == tb.Kind() || fb.Kind() == types.UntypedFloat {
				return a
			}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return a
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return App("runestr", SStr, x.toInt(a, from))
		}
		panic(unsupported(fmt.Sprintf("conversion %s to %s", from, to)))
	}
	if sl, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 && isByte(sl.Elem()) {
		return x.sliceStr(st, v.(*SliceV))
	}
	if sl, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 && isByte(sl.Elem()) {
		return x.strBytes(st, v.(*Term))
	}
	if _, ok := tu.(*types.Slice); ok {
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", from, to)))
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var byteT = types.Typ[types.Uint8]
var byteKey = "uint8"

func (x *Exec) byteLeaf() Leaf { return Leaf{"", BV(8), byteT} }

// byteArr is the inner array of a byte region.
func (x *Exec) byteArr(st *State, base *Term) *Term {
	return Select(x.heapGet(st, byteKey, x.byteLeaf()), base)
}
func (x *Exec) setByteArr(st *State, base, arr *Term) {
	x.recordWrite(byteKey, base)
	st.heap[byteKey] = Store(x.heapGet(st, byteKey, x.byteLeaf()), base, arr)
}

func (x *Exec) sliceStr(st *State, s *SliceV) *Term {
	if x.conc != nil && specDepth == 0 {
		x.conc.touch(x, st, s.Base)
	}
	return MkStr(x.byteArr(st, s.Base), s.Off, s.Len)
}

// strBytes is []byte(str): a fresh region holding the string's bytes.
func (x *Exec) strBytes(st *State, t *Term) Val {
	b := x.allocRegion(st)
	var arr, off, n *Term
	if t.Op == "app" && t.Str == "mkstr" {
		arr, off, n = t.Args[0], t.Args[1], t.Args[2]
	} else {
		arr, off, n = App("str2arr", arr8, t), IntC(0), StrLen(t)
	}
	if s, ok := litText[t]; ok {
		arr = ConstArr(arr8, BvU(0, 8))
		for i := 0; i < len(s); i++ {
			arr = Store(arr, IntC(int64(i)), BvU(uint64(s[i]), 8))
		}
	}
	x.setByteArr(st, b, arr)
	return &SliceV{byteT, b, off, n, n}
}

func (x *Exec) i2f(a *Term, from types.Type) *Term {
	if floatReal {
		if a.S.Kind == "BV" {
			return toReal(Bv2Int(a))
		}
		return toReal(a)
	}
	if a.S.Kind == "BV" {
		if a.Op == "bv" && a.N.IsInt64() {
			f, _ := new(big.Float).SetInt(a.N).Float64()
			return f64Const(f)
		}
		return App("u2f", SF64, ZExt(a, 64))
	}
	if a.Op == "int" {
		f, _ := new(big.Float).SetInt(a.N).Float64()
		return f64Const(f)
	}
	return App("i2f", SF64, a)
}

func toReal(a *Term) *Term {
	if a.Op == "int" {
		return realTerm(a.N.String(), "1")
	}
	return mk("to_real", SReal, nil, "", a)
}

func (x *Exec) convInt(st *State, a *Term, from, to types.Type) *Term {
	fn, tn := intBits(from), intBits(to)
	fs, ts := x.scalarSort(from), x.scalarSort(to)
	_ = fs
	switch {
	case a.S.Kind == "BV" && ts.Kind == "BV":
		return ZExt(a, tn)
	case a.S.Kind == "BV": // to Int
		if isUnsigned(to) { // Int-mode unsigned
			if tn >= fn {
				return Bv2Int(a)
			}
			return Mod(Bv2Int(a), IntB(pow2(tn)))
		}
		if tn > fn {
			return Bv2Int(a)
		}
		u := Bv2Int(ZExt(a, tn))
		if bvBound(ZExt(a, tn)).Cmp(bvMask(tn-1)) <= 0 {
			return u
		}
		return Ite(BvCmp("bvult", ZExt(a, tn), BvC(pow2(tn-1), tn)), u, Sub(u, IntB(pow2(tn))))
	case ts.Kind == "BV": // Int to BV
		return Int2Bv(a, tn)
	}
	// Int to Int
	if isUnsigned(to) {
		lo, hi := rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(bvMask(tn)) <= 0 {
			return a
		}
		if isUnsigned(from) && fn <= tn || st.known(Le(IntC(0), a)) == True && fn <= tn {
			return a
		}
		return Mod(a, IntB(pow2(tn)))
	}
	if !isUnsigned(from) && tn >= fn || isUnsigned(from) && tn > fn {
		return a
	}
	lo, hi := rng(a)
	tl, th := intRange(to)
	if lo != nil && hi != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		return a
	}
	m := Mod(a, IntB(pow2(tn)))
	return Ite(And(Le(IntB(tl), a), Le(a, IntB(th))), a, Ite(Lt(m, IntB(pow2(tn-1))), m, Sub(m, IntB(pow2(tn)))))
}

func (x *Exec) sliceOp(st *State, fr *Frame, v *ssa.Slice) Val {
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.toInt(x.val(st, fr, e).(*Term), e.Type())
	}
	lo, hi, mx := get(v.Low), get(v.High), get(v.Max)
	if lo == nil {
		lo = IntC(0)
	}
	ck := func(c *Term) { x.check(st, "panic", "slice bounds in range", x.pos(v.Pos()), c) }
	switch s := x.val(st, fr, v.X).(type) {
	case *SliceV:
		return x.subslice(st, s, lo, hi, mx, ck)
	case *PtrV:
		x.nilCheck(st, s, v.Pos())
		n := IntC(s.ArrN)
		return x.subslice(st, &SliceV{s.Root, s.Base, s.Idx, n, n}, lo, hi, mx, ck)
	case *Term:
		if hi == nil {
			hi = StrLen(s)
		}
		ck(And(Le(IntC(0), lo), Le(lo, hi), Le(hi, StrLen(s))))
		return SubStr(s, lo, hi)
	}
	panic(unsupported("slice expression"))
}

func SubStr(s, lo, hi *Term) *Term {
	if lo.Op == "int" && lo.N.Sign() == 0 && hi == StrLen(s) {
		return s
	}
	if s.Op == "app" && s.Str == "mkstr" {
		return MkStr(s.Args[0], Add(s.Args[1], lo), Sub(hi, lo))
	}
	return MkStr(App("str2arr", arr8, s), lo, Sub(hi, lo))
}

func StrCat(a, b *Term) *Term {
	if l, ok := litText[a]; ok && l == "" {
		return b
	}
	if l, ok := litText[b]; ok && l == "" {
		return a
	}
	return App("strcat", SStr, a, b)
}

func (x *Exec) subslice(st *State, s *SliceV, lo, hi, mx *Term, ck func(*Term)) Val {
	if hi == nil {
		hi = s.Len
		if mx == nil {
			ck(And(Le(IntC(0), lo), Le(lo, hi)))
			return &SliceV{s.Elem, s.Base, Add(s.Off, lo), Sub(hi, lo), Sub(s.Cap, lo)}
		}
	}
	c := s.Cap
	if mx != nil {
		c = mx
		ck(Le(mx, s.Cap))
	}
	ck(And(Le(IntC(0), lo), Le(lo, hi), Le(hi, c)))
	return &SliceV{s.Elem, s.Base, Add(s.Off, lo), Sub(hi, lo), Sub(c, lo)}
}

// ---- maps ----

func (x *Exec) mapLeaves(t types.Type) (key string, ks *Sort, vt types.Type, ls []Leaf) {
	m := t.Underlying().(*types.Map)
	ks = x.scalarSort(m.Key())
	if ks == nil {
		panic(unsupported("map key type " + m.Key().String()))
	}
	return "map[" + typeKey(m.Key()) + "]" + typeKey(m.Elem()), ks, m.Elem(), x.leaves(m.Elem())
}

// mapHeap returns the heap array (region -> key -> leaf) for one leaf of a map's values.
func (x *Exec) mapHeap(st *State, key string, ks, s *Sort) *Term {
	h, ok := st.heap[key]
	if !ok {
		h = Var("H0!"+key, ArrS(SInt, ArrS(ks, s)))
		st.heap[key] = h
	}
	if _, ok := x.heapLeaf[key]; !ok {
		x.heapLeaf[key] = Leaf{key, s, nil}
	}
	return h
}

func (x *Exec) makeMap(st *State, t types.Type) Val {
	k, ks, _, ls := x.mapLeaves(t)
	b := x.allocRegion(st)
	x.recordWrite(k+"?", b)
	st.heap[k+"?"] = Store(x.mapHeap(st, k+"?", ks, SBool), b, ConstArr(ArrS(ks, SBool), False))
	for _, l := range ls {
		x.recordWrite(k+"."+l.Path, b)
		st.heap[k+"."+l.Path] = Store(x.mapHeap(st, k+"."+l.Path, ks, l.S), b, ConstArr(ArrS(ks, l.S), x.zeroTerm(l.S)))
	}
	return b
}

func (x *Exec) mapUpdate(st *State, fr *Frame, v *ssa.MapUpdate) {
	b := x.val(st, fr, v.Map).(*Term)
	t := v.Map.Type()
	x.check(st, "panic", "assignment to nil map", x.pos(v.Pos()), Not(Eq(b, IntC(0))))
	key := x.scalarTerm(t.Underlying().(*types.Map).Key(), x.val(st, fr, v.Key))
	x.mapStore(st, t, b, key, x.val(st, fr, v.Value))
}

func (x *Exec) mapStore(st *State, t types.Type, b, key *Term, val Val) {
	k, ks, vt, ls := x.mapLeaves(t)
	p := x.mapHeap(st, k+"?", ks, SBool)
	x.recordWrite(k+"?", b)
	st.heap[k+"?"] = Store(p, b, Store(Select(p, b), key, True))
	fl := x.flatten(vt, val)
	for i, l := range ls {
		hk := k + "." + l.Path
		h := x.mapHeap(st, hk, ks, l.S)
		x.recordWrite(hk, b)
		st.heap[hk] = Store(h, b, Store(Select(h, b), key, fl[i]))
	}
}

// mapGet reads m[key]: the value (zero if absent) and presence.
func (x *Exec) mapGet(st *State, t types.Type, b, key *Term) (Val, *Term) {
	k, ks, vt, ls := x.mapLeaves(t)
	pres := Select(Select(x.mapHeap(st, k+"?", ks, SBool), b), key)
	if b.Op == "int" && b.N.Sign() == 0 {
		pres = False
	} else if ok, _ := allocLike(b); !ok && b.Op != "int" {
		pres = And(Not(Eq(b, IntC(0))), pres)
	}
	var vals []*Term
	for _, l := range ls {
		h := x.mapHeap(st, k+"."+l.Path, ks, l.S)
		vals = append(vals, Ite(pres, Select(Select(h, b), key), x.zeroTerm(l.S)))
	}
	v, _ := x.unflatten(vt, vals)
	x.assumeWF(st, v)
	x.rangeOf(st, vt, v)
	return v, pres
}

func (x *Exec) lookup(st *State, fr *Frame, v *ssa.Lookup) Val {
	m := x.val(st, fr, v.X)
	if _, ok := v.X.Type().Underlying().(*types.Basic); ok {
		i := x.toInt(x.val(st, fr, v.Index).(*Term), v.Index.Type())
		s := m.(*Term)
		x.bounds(st, i, StrLen(s), v.Pos())
		return StrAt(s, i)
	}
	key := x.scalarTerm(v.X.Type().Underlying().(*types.Map).Key(), x.val(st, fr, v.Index))
	val, pres := x.mapGet(st, v.X.Type(), m.(*Term), key)
	if x.reads != nil {
		if bt := m.(*Term); !(bt.Op == "int" && bt.N.Sign() < 0) {
			x.reads["map"] = true
		}
	}
	if v.CommaOk {
		return TupleV{val, pres}
	}
	return val
}

// ---- ghost maps indexed by interface values (streams) ----

func (x *Exec) ghostGet(st *State, name string, elem *Sort) *Term {
	g, ok := st.ghost[name]
	if !ok {
		g = Var("G0!"+name, ArrS(SIfc, elem))
		st.ghost[name] = g
	}
	return g
}

func ghostElem(name string) *Sort {
	switch name {
	case "out.arr":
		return arr8
	}
	return SInt
}

func (x *Exec) ghostRead(st *State, name string, idx *Term) *Term {
	return Select(x.ghostGet(st, name, ghostElem(name)), idx)
}
func (x *Exec) ghostSet(st *State, name string, idx, v *Term) {
	x.recordGhostAt(name, idx)
	st.ghost[name] = Store(x.ghostGet(st, name, ghostElem(name)), idx, v)
}

// sliceMem is the region a slice of scalars lies in.
func (x *Exec) sliceMem(st *State, s *SliceV) *Term {
	ls := x.leaves(s.Elem)
	if len(ls) != 1 || ls[0].S == nil {
		panic(specErr{"arr of a slice of " + typeKey(s.Elem)})
	}
	return Select(x.heapGet(st, hkey(s.Elem, ls[0].Path), ls[0]), s.Base)
}
