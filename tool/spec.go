package main

// Evaluation of specification expressions and use of contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	V   Val
	T   types.Type
	Lit bool
}

type SEnv struct {
	x     *Exec
	st    *State // current state
	old   *State
	inOld bool
	names map[string]SV
	pkg   string
	sink  *State // receives well-formedness facts of loaded values (may be nil)
	entry map[*ssa.Phi]Val
	depth int
}

type specErr struct{ msg string }

func (e *SEnv) fail(n *Node, f string, a ...interface{}) {
	panic(specErr{n.Line + ": " + fmt.Sprintf(f, a...) + " in " + nodeText(n)})
}

func nodeText(n *Node) string {
	if n == nil {
		return ""
	}
	if n.Src != "" && n.Op != "meta" {
		return n.Src
	}
	var as []string
	for _, a := range n.Args {
		as = append(as, nodeText(a))
	}
	switch n.Op {
	case "ident", "int", "float":
		return n.Name
	case "meta":
		return "?" + n.Name
	case "str":
		return strconv.Quote(n.Name)
	case "sel":
		return as[0] + "." + n.Name
	case "call":
		return as[0] + "(" + strings.Join(as[1:], ", ") + ")"
	case "index":
		return as[0] + "[" + as[1] + "]"
	case "slice":
		return as[0] + "[" + as[1] + ":" + as[2] + "]"
	case "!", "neg", "compl", "deref":
		return n.Op + " " + as[0]
	case "forall", "exists":
		var vs []string
		for _, v := range n.Vars {
			vs = append(vs, v.Name+" "+v.Sort)
		}
		return n.Op + " " + strings.Join(vs, ", ") + " :: " + as[0]
	case "ite":
		return "if " + as[0] + " then " + as[1] + " else " + as[2]
	}
	if len(as) == 2 {
		return "(" + as[0] + " " + n.Op + " " + as[1] + ")"
	}
	return n.Op
}

func (e *SEnv) child() *SEnv {
	c := *e
	c.names = make(map[string]SV, len(e.names)+2)
	for k, v := range e.names {
		c.names[k] = v
	}
	return &c
}

func (e *SEnv) state() *State {
	if e.inOld {
		return e.old
	}
	return e.st
}

// load in the spec's current state without disturbing it
func (e *SEnv) load(f func(s *State) Val) Val {
	cur := e.state()
	if cur == nil {
		panic(specErr{"no state to read memory from"})
	}
	s := &State{heap: cur.heap, ghost: cur.ghost, env: map[envKey]Val{}, nextVar: cur.nextVar, nextOff: cur.nextOff}
	v := f(s)
	if e.sink != nil {
		for _, t := range s.pc {
			if len(t.fb) == 0 {
				e.sink.assume(t)
			}
		}
	}
	return v
}

func (x *Exec) sortOf(name string) *Sort {
	switch name {
	case "int", "int64":
		return SInt
	case "bool":
		return SBool
	case "u8", "byte", "uint8":
		return BV(8)
	case "u16", "uint16":
		return BV(16)
	case "u32", "uint32":
		if x.mode.U64Int {
			return SInt
		}
		return BV(32)
	case "u64", "uint64":
		if x.mode.U64Int {
			return SInt
		}
		return BV(64)
	case "bv64":
		return BV(64)
	case "f64", "float64":
		return F64Sort()
	case "real":
		return SReal
	case "str", "string":
		return SStr
	case "ifc", "error":
		return SIfc
	case "fn":
		return SFn
	}
	if strings.HasPrefix(name, "[") {
		j := strings.Index(name, "]")
		return ArrS(x.sortOf(name[1:j]), x.sortOf(name[j+1:]))
	}
	if x.spec.Sorts[name] {
		s := &Sort{Kind: "U", Name: name}
		if p, ok := userSorts[name]; ok {
			return p
		}
		userSorts[name] = s
		return s
	}
	return nil
}

var userSorts = map[string]*Sort{}

func (e *SEnv) term(n *Node) *Term {
	return e.asTerm(n, e.eval(n))
}

func (e *SEnv) asTerm(n *Node, v SV) *Term {
	switch w := v.V.(type) {
	case *Term:
		return w
	case *IfaceV, *ClosV:
		return e.x.scalarTerm(v.T, w)
	case *PtrV:
		if len(w.Path) == 0 {
			return w.Base
		}
	}
	e.fail(n, "not a scalar (%T)", v.V)
	return nil
}

func (e *SEnv) boolean(n *Node) *Term {
	t := e.term(n)
	if t.S != SBool {
		e.fail(n, "not a boolean (%s)", t.S.Name)
	}
	return t
}

// adapt converts literals and Int/BV mixtures to a common sort.
func (e *SEnv) adapt(n *Node, a, b *Term) (*Term, *Term) {
	if a.S == b.S {
		return a, b
	}
	conv := func(c *Term, s *Sort) *Term {
		if c.Op != "int" {
			return nil
		}
		switch {
		case s.Kind == "BV":
			return BvC(c.N, s.Bits)
		case s == SF64:
			f, _ := new(big.Float).SetInt(c.N).Float64()
			return f64Const(f)
		case s == SReal:
			return realTerm(c.N.String(), "1")
		}
		return nil
	}
	if r := conv(a, b.S); r != nil {
		return r, b
	}
	if r := conv(b, a.S); r != nil {
		return a, r
	}
	if a.S == SInt && b.S.Kind == "BV" {
		return a, Bv2Int(b)
	}
	if b.S == SInt && a.S.Kind == "BV" {
		return Bv2Int(a), b
	}
	if a.S == SReal && b.S == SInt {
		return a, toReal(b)
	}
	if b.S == SReal && a.S == SInt {
		return toReal(a), b
	}
	e.fail(n, "operand sorts %s and %s", a.S.Name, b.S.Name)
	return nil, nil
}

func (e *SEnv) toSort(n *Node, t *Term, s *Sort) *Term {
	if t.S == s {
		return t
	}
	if t.Op == "int" {
		a, _ := e.adapt(n, t, Var("dummy!"+s.Name, s))
		if a.S == s {
			return a
		}
	}
	if s == SInt && t.S.Kind == "BV" {
		return Bv2Int(t)
	}
	if s.Kind == "BV" && t.S == SInt {
		return Int2Bv(t, s.Bits)
	}
	e.fail(n, "sort %s where %s is needed", t.S.Name, s.Name)
	return nil
}

func (e *SEnv) eval(n *Node) SV {
	x := e.x
	switch n.Op {
	case "int":
		v, ok := new(big.Int).SetString(strings.ReplaceAll(n.Name, "_", ""), 0)
		if !ok {
			e.fail(n, "number")
		}
		return SV{V: IntB(v), Lit: true}
	case "float":
		c := constant.MakeFromLiteral(n.Name, token.FLOAT, 0)
		if floatReal {
			return SV{V: realConst(c)}
		}
		f, _ := constant.Float64Val(c)
		return SV{V: f64Const(f)}
	case "str":
		return SV{V: strLit(n.Name), T: types.Typ[types.String]}
	case "meta":
		v, ok := e.names["?"+n.Name]
		if !ok {
			e.fail(n, "unbound metavariable")
		}
		return v
	case "ident":
		return e.ident(n)
	case "deref":
		v := e.eval(n.Args[0])
		p, ok := v.V.(*PtrV)
		if !ok {
			e.fail(n, "dereference of non-pointer")
		}
		t, _ := x.atPath(p.Root, p.Path)
		return SV{V: e.load(func(s *State) Val { return x.load(s, p) }), T: t}
	case "sel":
		return e.sel(n)
	case "index":
		return e.index(n)
	case "slice":
		v := e.eval(n.Args[0])
		lo := IntC(0)
		if n.Args[1] != nil {
			lo = e.toSort(n, e.term(n.Args[1]), SInt)
		}
		switch s := v.V.(type) {
		case *SliceV:
			hi := s.Len
			if n.Args[2] != nil {
				hi = e.toSort(n, e.term(n.Args[2]), SInt)
			}
			return SV{V: &SliceV{s.Elem, s.Base, Add(s.Off, lo), Sub(hi, lo), Sub(s.Cap, lo)}, T: v.T}
		case *Term:
			if s.S == SStr {
				hi := StrLen(s)
				if n.Args[2] != nil {
					hi = e.toSort(n, e.term(n.Args[2]), SInt)
				}
				return SV{V: SubStr(s, lo, hi), T: v.T}
			}
		}
		e.fail(n, "slicing of %T", v.V)
	case "!":
		return SV{V: Not(e.boolean(n.Args[0]))}
	case "neg":
		t := e.term(n.Args[0])
		switch {
		case t.S == SInt:
			return SV{V: Sub(IntC(0), t), Lit: true}
		case t.S == SF64:
			return SV{V: fneg(t)}
		case t.S == SReal:
			return SV{V: Sub(RealC("0.0"), t)}
		}
		return SV{V: BvNeg(t)}
	case "compl":
		return SV{V: BvNot(e.term(n.Args[0]))}
	case "let":
		c := e.child()
		c.names[n.Name] = e.eval(n.Args[0])
		return c.eval(n.Args[1])
	case "ite":
		a, b := e.eval(n.Args[1]), e.eval(n.Args[2])
		ta, tb := e.asTerm(n, a), e.asTerm(n, b)
		ta, tb = e.adapt(n, ta, tb)
		return SV{V: Ite(e.boolean(n.Args[0]), ta, tb), T: a.T}
	case "forall", "exists":
		c := e.child()
		var vs []*Term
		var dom []*Term
		for _, v := range n.Vars {
			s := x.sortOf(v.Sort)
			if s == nil {
				e.fail(n, "sort %s", v.Sort)
			}
			bvarN++
			b := BVar(fmt.Sprintf("%s@%d", v.Name, bvarN), s) // distinct from the variables of enclosing quantifiers
			if s == SInt && (v.Sort == "u64" || v.Sort == "uint64") {
				dom = append(dom, Le(IntC(0), b), Lt(b, IntB(pow2(64))))
			}
			vs = append(vs, b)
			c.names[v.Name] = SV{V: b}
		}
		body := c.boolean(n.Args[0])
		var ps [][]*Term
		for _, p := range n.Pats {
			var q []*Term
			for _, a := range p {
				q = append(q, c.term(a))
			}
			ps = append(ps, q)
		}
		if n.Op == "forall" {
			return SV{V: Forall(vs, Imp(And(dom...), body), ps...)}
		}
		return SV{V: Exists(vs, And(append(dom, body)...), ps...)}
	case "&&":
		a := e.boolean(n.Args[0])
		if a == False {
			return SV{V: False}
		}
		return SV{V: And(a, e.boolean(n.Args[1]))}
	case "||":
		return SV{V: Or(e.boolean(n.Args[0]), e.boolean(n.Args[1]))}
	case "==>":
		a := e.boolean(n.Args[0])
		if a == False {
			return SV{V: True}
		}
		return SV{V: Imp(a, e.boolean(n.Args[1]))}
	case "<==>":
		return SV{V: Eq(e.boolean(n.Args[0]), e.boolean(n.Args[1]))}
	case "==", "!=":
		q := e.equal(n, e.eval(n.Args[0]), e.eval(n.Args[1]))
		if n.Op == "!=" {
			q = Not(q)
		}
		return SV{V: q}
	case "call":
		return e.call(n)
	}
	if len(n.Args) == 2 {
		return e.arith(n)
	}
	e.fail(n, "expression %s", n.Op)
	return SV{}
}

func (e *SEnv) equal(n *Node, a, b SV) *Term {
	if i, ok := a.V.(*IfaceV); ok && i.T == nil && a.T == nil { // nil literal
		a, b = b, a
	}
	if i, ok := b.V.(*IfaceV); ok && i.T == nil && b.T == nil {
		switch w := a.V.(type) {
		case *SliceV:
			return Eq(w.Base, IntC(0))
		case *PtrV:
			return Eq(w.Base, IntC(0))
		case *ClosV:
			return B(w.Fn == nil)
		case *IfaceV:
			return B(w.T == nil)
		case *Term:
			switch w.S {
			case SIfc:
				return Eq(w, nilIfc)
			case SFn:
				return Eq(w, Var("nil!fn", SFn))
			case SInt:
				return Eq(w, IntC(0))
			}
		}
		e.fail(n, "comparison with nil")
	}
	switch w := a.V.(type) {
	case *SliceV:
		v, ok := b.V.(*SliceV)
		if !ok {
			e.fail(n, "comparison of a slice")
		}
		return And(Eq(w.Base, v.Base), Eq(w.Off, v.Off), Eq(w.Len, v.Len))
	case *PtrV:
		v, ok := b.V.(*PtrV)
		if !ok {
			e.fail(n, "comparison of a pointer")
		}
		return And(Eq(w.Base, v.Base), Eq(w.Idx, v.Idx))
	case *StructV:
		v, ok := b.V.(*StructV)
		if !ok {
			e.fail(n, "comparison of a struct")
		}
		u := w.T.Underlying().(*types.Struct)
		var cs []*Term
		for i := range w.F {
			cs = append(cs, e.equal(n, SV{V: w.F[i], T: u.Field(i).Type()}, SV{V: v.F[i], T: u.Field(i).Type()}))
		}
		return And(cs...)
	case *ArrayV:
		v, ok := b.V.(*ArrayV)
		if !ok {
			e.fail(n, "comparison of an array")
		}
		var cs []*Term
		for i := range w.L {
			cs = append(cs, Eq(w.L[i], v.L[i]))
		}
		return And(cs...)
	}
	ta, tb := e.asTerm(n, a), e.asTerm(n, b)
	ta, tb = e.adapt(n, ta, tb)
	return Eq(ta, tb)
}

func (e *SEnv) ident(n *Node) SV {
	x := e.x
	if v, ok := e.names[n.Name]; ok {
		return v
	}
	switch n.Name {
	case "true":
		return SV{V: True}
	case "false":
		return SV{V: False}
	case "nil":
		return SV{V: &IfaceV{}}
	}
	if s, ok := x.spec.Ghosts[n.Name]; ok {
		return SV{V: e.ghost(n.Name, x.sortOf(s))}
	}
	if f := x.spec.Fns[n.Name]; f != nil && len(f.Params) == 0 {
		return e.applyFn(n, f, nil)
	}
	if p := x.prog.SSA[modPath+"/"+e.pkg]; p != nil {
		if o := p.Pkg.Scope().Lookup(n.Name); o != nil {
			return e.object(n, o)
		}
	} else if p := x.prog.SSA[modPath]; p != nil && e.pkg == "." {
		if o := p.Pkg.Scope().Lookup(n.Name); o != nil {
			return e.object(n, o)
		}
	}
	e.fail(n, "unknown name %s", n.Name)
	return SV{}
}

func (e *SEnv) ghost(name string, s *Sort) *Term {
	st := e.state()
	if g, ok := st.ghost[name]; ok {
		return g
	}
	g := Var("G0!"+name, s)
	st.ghost[name] = g
	return g
}

func (e *SEnv) object(n *Node, o types.Object) SV {
	switch c := o.(type) {
	case *types.Const:
		return SV{V: e.x.constVal(ssa.NewConst(c.Val(), c.Type())), T: c.Type(), Lit: true}
	case *types.Var:
		p := e.x.prog.SSA[c.Pkg().Path()]
		if p == nil {
			break
		}
		g, ok := p.Members[c.Name()].(*ssa.Global)
		if ok {
			pv := e.x.globalPtr(g).(*PtrV)
			return SV{V: e.load(func(s *State) Val { return e.x.load(s, pv) }), T: c.Type()}
		}
	case *types.TypeName:
		return SV{V: c, T: c.Type()}
	case *types.Func:
		if p := e.x.prog.SSA[c.Pkg().Path()]; p != nil {
			if f := p.Func(c.Name()); f != nil {
				return SV{V: &ClosV{Fn: f}, T: c.Type()}
			}
		}
	}
	e.fail(n, "name %s", o.Name())
	return SV{}
}

func (e *SEnv) sel(n *Node) SV {
	x := e.x
	// package-qualified: errors of other packages are err!pkg.Name constants
	if b := n.Args[0]; b.Op == "ident" {
		if _, ok := e.names[b.Name]; !ok {
			if r, ok := e.qualified(b.Name, n.Name, n); ok {
				return r
			}
		}
	}
	v := e.eval(n.Args[0])
	switch w := v.V.(type) {
	case *PtrV:
		t, _ := x.atPath(w.Root, w.Path)
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			e.fail(n, "field of pointer to %s", t)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n.Name {
				p := x.fieldPtr(w, i)
				ft := s.Field(i).Type()
				if p.ArrN >= 0 {
					return SV{V: p, T: types.NewPointer(ft)}
				}
				return SV{V: e.load(func(s *State) Val { r := x.load(s, p); x.rangeOf(s, ft, r); return r }), T: ft}
			}
		}
		for i := 0; i < s.NumFields(); i++ { // embedded
			if s.Field(i).Embedded() {
				if es, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
					for j := 0; j < es.NumFields(); j++ {
						if es.Field(j).Name() == n.Name {
							p := x.fieldPtr(x.fieldPtr(w, i), j)
							return SV{V: e.load(func(s *State) Val { return x.load(s, p) }), T: es.Field(j).Type()}
						}
					}
				}
			}
		}
	case *StructV:
		s := w.T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n.Name {
				return SV{V: w.F[i], T: s.Field(i).Type()}
			}
		}
	}
	e.fail(n, "no field %s", n.Name)
	return SV{}
}

func (e *SEnv) qualified(pkg, name string, n *Node) (SV, bool) {
	for path, p := range e.x.prog.SSA {
		if p.Pkg.Name() == pkg {
			_ = path
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return e.object(n, o), true
			}
		}
	}
	for _, p := range e.x.prog.Prog.AllPackages() {
		if p.Pkg.Path() == pkg || p.Pkg.Name() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				if v, ok := o.(*types.Var); ok {
					if types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
						return SV{V: Var("err!"+p.Pkg.Path()+"."+name, SIfc), T: v.Type()}, true
					}
				}
				if c, ok := o.(*types.Const); ok {
					return SV{V: e.x.constVal(ssa.NewConst(c.Val(), c.Type())), T: c.Type(), Lit: true}, true
				}
				if tn, ok := o.(*types.TypeName); ok {
					return SV{V: tn, T: tn.Type()}, true
				}
			}
		}
	}
	return SV{}, false
}

func (e *SEnv) index(n *Node) SV {
	x := e.x
	v := e.eval(n.Args[0])
	switch w := v.V.(type) {
	case *SliceV:
		i := e.toSort(n, e.term(n.Args[1]), SInt)
		p := x.elemPtr(w, i)
		return SV{V: e.load(func(s *State) Val { r := x.load(s, p); x.rangeOf(s, w.Elem, r); return r }), T: w.Elem}
	case *PtrV:
		if w.ArrN >= 0 {
			i := e.toSort(n, e.term(n.Args[1]), SInt)
			p := x.mkPtr(w.Root, w.Base, Add(w.Idx, i))
			return SV{V: e.load(func(s *State) Val { return x.load(s, p) }), T: w.Root}
		}
	case *ArrayV:
		i := e.toSort(n, e.term(n.Args[1]), SInt)
		var ls []*Term
		for _, a := range w.L {
			ls = append(ls, Select(a, i))
		}
		r, _ := x.unflatten(w.Elem, ls)
		return SV{V: r, T: w.Elem}
	case *Term:
		if w.S == SStr {
			return SV{V: StrAt(w, e.toSort(n, e.term(n.Args[1]), SInt))}
		}
		if w.S.Kind == "Array" {
			return SV{V: Select(w, e.toSort(n, e.term(n.Args[1]), w.S.Idx))}
		}
		if v.T != nil {
			if m, ok := v.T.Underlying().(*types.Map); ok {
				key := e.asTerm(n, e.eval(n.Args[1]))
				return SV{V: e.load(func(s *State) Val { r, _ := x.mapGet(s, v.T, w, key); return r }), T: m.Elem()}
			}
		}
	}
	e.fail(n, "indexing of %T", v.V)
	return SV{}
}

func (e *SEnv) arith(n *Node) SV {
	av, bv := e.eval(n.Args[0]), e.eval(n.Args[1])
	a, b := e.asTerm(n, av), e.asTerm(n, bv)
	if n.Op == "<<" || n.Op == ">>" {
		if a.S.Kind == "BV" {
			if b.S == SInt {
				b = Int2Bv(b, a.S.Bits)
			} else {
				b = ZExt(b, a.S.Bits)
			}
			if n.Op == "<<" {
				return SV{V: Bv("bvshl", a, b), T: av.T}
			}
			return SV{V: Bv("bvlshr", a, b), T: av.T}
		}
		p := pow2Term(e.toSort(n, b, SInt))
		if n.Op == "<<" {
			return SV{V: Mul(a, p)}
		}
		return SV{V: Div(a, p)}
	}
	a, b = e.adapt(n, a, b)
	s := a.S
	t := av.T
	if av.Lit {
		t = bv.T
	}
	switch n.Op {
	case "<", "<=", ">", ">=":
		if n.Op == ">" || n.Op == ">=" {
			a, b = b, a
		}
		strict := n.Op == "<" || n.Op == ">"
		switch {
		case s == SInt:
			if strict {
				return SV{V: Lt(a, b)}
			}
			return SV{V: Le(a, b)}
		case s.Kind == "BV":
			if strict {
				return SV{V: BvCmp("bvult", a, b)}
			}
			return SV{V: BvCmp("bvule", a, b)}
		case s == SF64 || s == SReal:
			if strict {
				return SV{V: fcmp(token.LSS, a, b)}
			}
			return SV{V: fcmp(token.LEQ, a, b)}
		case s == SStr:
			if strict {
				return SV{V: App("strlt", SBool, a, b)}
			}
			return SV{V: Not(App("strlt", SBool, b, a))}
		}
		e.fail(n, "comparison of %s", s.Name)
	}
	switch {
	case s == SInt:
		switch n.Op {
		case "+":
			return SV{V: Add(a, b), T: t, Lit: av.Lit && bv.Lit}
		case "-":
			return SV{V: Sub(a, b), T: t, Lit: av.Lit && bv.Lit}
		case "*":
			return SV{V: Mul(a, b), T: t, Lit: av.Lit && bv.Lit}
		case "/":
			return SV{V: Div(a, b), T: t}
		case "%":
			return SV{V: Mod(a, b), T: t}
		}
	case s.Kind == "BV":
		op := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul", "&": "bvand", "|": "bvor", "^": "bvxor"}[n.Op]
		if op != "" {
			return SV{V: Bv(op, a, b), T: t}
		}
		switch n.Op {
		case "&^":
			return SV{V: Bv("bvand", a, BvNot(b)), T: t}
		case "/":
			return SV{V: bvDivRem("bvudiv", a, b), T: t}
		case "%":
			return SV{V: bvDivRem("bvurem", a, b), T: t}
		}
	case s == SF64 || s == SReal:
		op := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO}[n.Op]
		return SV{V: fop(op, a, b), T: t}
	case s == SStr:
		if n.Op == "+" {
			return SV{V: StrCat(a, b)}
		}
	}
	e.fail(n, "operator %s on %s", n.Op, s.Name)
	return SV{}
}

func (e *SEnv) argT(n *Node, i int, s *Sort) *Term {
	if i+1 >= len(n.Args) {
		e.fail(n, "missing argument")
	}
	t := e.term(n.Args[i+1])
	if s != nil {
		t = e.toSort(n, t, s)
	}
	return t
}

func (e *SEnv) seq(n *Node, v SV) *Term {
	switch w := v.V.(type) {
	case *ArrayV:
		if isByte(w.Elem) {
			return MkStr(w.L[0], IntC(0), IntC(w.N))
		}
	case *SliceV:
		if !isByte(w.Elem) {
			e.fail(n, "seq of a non-byte slice")
		}
		return e.load(func(s *State) Val { specDepth++; defer func() { specDepth-- }(); return e.x.sliceStr(s, w) }).(*Term)
	case *PtrV:
		if w.ArrN >= 0 && isByte(w.Root) {
			return e.load(func(s *State) Val {
				return MkStr(e.x.byteArr(s, w.Base), w.Idx, IntC(w.ArrN))
			}).(*Term)
		}
	case *Term:
		if w.S == SStr {
			return w
		}
	}
	e.fail(n, "seq of %T", v.V)
	return nil
}

func (e *SEnv) call(n *Node) SV {
	x := e.x
	f := n.Args[0]
	if f.Op != "ident" {
		if f.Op == "sel" && f.Args[0].Op == "ident" { // qualified conversion pkg.T(x)
			if r, ok := e.qualified(f.Args[0].Name, f.Name, n); ok {
				if tn, ok := r.V.(*types.TypeName); ok {
					return e.convert(n, tn.Type(), e.eval(n.Args[1]))
				}
			}
		}
		e.fail(n, "call")
	}
	switch f.Name {
	case "old":
		c := *e
		if e.old != nil {
			c.inOld = true
		}
		return c.eval(n.Args[1])
	case "entry": // value of a loop variable when the loop was entered
		m := n.Args[1]
		if m.Op == "meta" {
			if v, ok := e.names["?"+m.Name+"@entry"]; ok {
				return v
			}
		}
		e.fail(n, "entry")
	case "len":
		v := e.eval(n.Args[1])
		switch w := v.V.(type) {
		case *SliceV:
			return SV{V: w.Len}
		case *ArrayV:
			return SV{V: IntC(w.N)}
		case *PtrV:
			return SV{V: IntC(w.ArrN)}
		case *Term:
			if w.S == SStr {
				return SV{V: StrLen(w)}
			}
		}
		e.fail(n, "len")
	case "cap":
		if w, ok := e.eval(n.Args[1]).V.(*SliceV); ok {
			return SV{V: w.Cap}
		}
	case "base":
		switch w := e.eval(n.Args[1]).V.(type) {
		case *SliceV:
			return SV{V: w.Base}
		case *PtrV:
			return SV{V: w.Base}
		case *Term:
			return SV{V: w}
		}
	case "off":
		if w, ok := e.eval(n.Args[1]).V.(*SliceV); ok {
			return SV{V: w.Off}
		}
	case "seq":
		return SV{V: e.seq(n, e.eval(n.Args[1]))}
	case "sub":
		s := e.seq(n, e.eval(n.Args[1]))
		return SV{V: SubStr(s, e.argT(n, 1, SInt), e.argT(n, 2, SInt))}
	case "put": // d with the bytes from lo on replaced by w
		d, w := e.seq(n, e.eval(n.Args[1])), e.seq(n, e.eval(n.Args[3]))
		return SV{V: App("strput", SStr, d, e.argT(n, 1, SInt), w)}
	case "zeros":
		return SV{V: MkStr(ConstArr(arr8, BvU(0, 8)), IntC(0), e.argT(n, 0, SInt))}
	case "slen":
		return SV{V: StrLen(e.seq(n, e.eval(n.Args[1])))}
	case "at":
		return SV{V: StrAt(e.seq(n, e.eval(n.Args[1])), e.argT(n, 1, SInt))}
	case "u8", "u16", "u32", "u64", "bv64":
		bits := map[string]int{"u8": 8, "u16": 16, "u32": 32, "u64": 64, "bv64": 64}[f.Name]
		t := e.argT(n, 0, nil)
		s := x.sortOf(f.Name)
		if s == SInt {
			if t.S == SInt {
				return SV{V: Mod(t, IntB(pow2(bits)))}
			}
			return SV{V: Bv2Int(t)}
		}
		if t.S == SInt {
			return SV{V: Int2Bv(t, bits)}
		}
		if t.S.Kind == "BV" {
			return SV{V: ZExt(t, bits)}
		}
	case "int":
		t := e.argT(n, 0, nil)
		if t.S.Kind == "BV" {
			return SV{V: Bv2Int(t)}
		}
		return SV{V: t}
	case "sint64": // two's complement value
		t := e.argT(n, 0, nil)
		if t.S.Kind == "BV" {
			t = Bv2Int(t)
		}
		return SV{V: Ite(Lt(t, IntB(pow2(63))), t, Sub(t, IntB(pow2(64))))}
	case "bits":
		return SV{V: x.u64Val(App("f2bits", BV(64), e.argT(n, 0, nil)))}
	case "frombits":
		return SV{V: bits2f(x.toBV64(e.argT(n, 0, nil)))}
	case "toreal":
		return SV{V: toReal(e.argT(n, 0, SInt))}
	case "i2f":
		return SV{V: x.i2f(e.argT(n, 0, nil), types.Typ[types.Int])}
	case "feq":
		return SV{V: fcmp(token.EQL, e.argT(n, 0, nil), e.argT(n, 1, nil))}
	case "isnan":
		a := e.argT(n, 0, nil)
		if floatReal {
			return SV{V: False}
		}
		return SV{V: Not(fcmp(token.EQL, a, a))}
	case "NaN":
		if floatReal {
			return SV{V: Var("nan!real", SReal)}
		}
		return SV{V: mk("f64c", SF64, bigHex("7ff8000000000001"), "")}
	case "le64", "le32", "le16", "be64", "be32", "be16": // integer stored in a byte sequence at an offset
		k := map[string]int{"64": 8, "32": 4, "16": 2}[f.Name[2:]]
		s := e.seq(n, e.eval(n.Args[1]))
		o := e.argT(n, 1, SInt)
		var r *Term
		for i := 0; i < k; i++ {
			b := StrAt(s, Add(o, IntC(int64(i))))
			if r == nil {
				r = b
			} else if f.Name[0] == 'b' {
				r = Concat(r, b)
			} else {
				r = Concat(b, r)
			}
		}
		return SV{V: x.u64Val(r)}
	case "lebytes64": // i-th byte of the little-endian form of v
		v := x.toBV64(e.argT(n, 0, nil))
		i := e.argT(n, 1, SInt)
		r := BvU(0, 8)
		for j := 7; j >= 0; j-- {
			r = Ite(Eq(i, IntC(int64(j))), Extract(j*8+7, j*8, v), r)
		}
		return SV{V: r}
	case "clz64":
		v := x.toBV64(e.argT(n, 0, nil))
		r := IntC(64)
		for j := 0; j < 64; j++ {
			r = Ite(Eq(Extract(j, j, v), BvU(1, 1)), IntC(int64(63-j)), r)
		}
		return SV{V: r}
	case "bit":
		v := e.argT(n, 0, nil)
		i := e.argT(n, 1, SInt)
		return SV{V: Eq(Extract(0, 0, Bv("bvlshr", v, Int2Bv(i, v.S.Bits))), BvU(1, 1))}
	case "arr": // the memory behind a slice of scalars: arr(s)[off(s)+k] is s[k]
		sl, ok := e.eval(n.Args[1]).V.(*SliceV)
		if !ok {
			e.fail(n, "arr of something that is not a slice")
		}
		return SV{V: e.load(func(s *State) Val { return x.sliceMem(s, sl) })}
	case "has":
		v := e.eval(n.Args[1])
		key := e.asTerm(n, e.eval(n.Args[2]))
		var pres *Term
		e.load(func(s *State) Val { _, p := x.mapGet(s, v.T, v.V.(*Term), key); pres = p; return nil })
		return SV{V: pres}
	case "out": // everything written to w so far
		w := e.ifcArg(n, 0)
		return SV{V: MkStr(e.ghostAt("out.arr", w), IntC(0), e.ghostAt("out.len", w))}
	case "outlen":
		return SV{V: e.ghostAt("out.len", e.ifcArg(n, 0))}
	case "outat":
		return SV{V: Select(e.ghostAt("out.arr", e.ifcArg(n, 0)), e.argT(n, 1, SInt))}
	case "outcalls":
		return SV{V: e.ghostAt("out.calls", e.ifcArg(n, 0))}
	case "outfails":
		return SV{V: e.ghostAt("out.fails", e.ifcArg(n, 0))}
	case "nofail":
		return SV{V: App("nofail", SBool, e.ifcArg(n, 0))}
	case "inpos":
		return SV{V: e.ghostAt("in.pos", e.ifcArg(n, 0))}
	case "inlen":
		return SV{V: inLen(e.ifcArg(n, 0))}
	case "inat":
		return SV{V: Select(inArr(e.ifcArg(n, 0)), e.argT(n, 1, SInt))}
	case "instr": // bytes of the reader's stream [a,b)
		a, b := e.argT(n, 1, SInt), e.argT(n, 2, SInt)
		return SV{V: MkStr(inArr(e.ifcArg(n, 0)), a, Sub(b, a))}
	case "inerr":
		return SV{V: inErr(e.ifcArg(n, 0))}
	case "fresh": // allocated by this function
		old := e.old
		if old == nil {
			e.fail(n, "fresh outside a postcondition")
		}
		var b *Term
		switch w := e.eval(n.Args[1]).V.(type) {
		case *SliceV:
			b = w.Base
		case *PtrV:
			b = w.Base
		case *Term:
			b = w
		}
		return SV{V: And(Le(old.nextTerm(), b), Lt(b, e.st.nextTerm()))}
	case "valid": // pointer or slice refers to existing memory
		switch w := e.eval(n.Args[1]).V.(type) {
		case *PtrV:
			return SV{V: Not(Eq(w.Base, IntC(0)))}
		}
	case "held": // the goroutine holding the lock of a slice element or structure, 0 for none
		var b, i *Term
		switch v := e.eval(n.Args[1]).V.(type) {
		case *SliceV:
			b, i = v.Base, Add(v.Off, e.argT(n, 1, SInt))
		case *PtrV:
			b, i = v.Base, v.Idx
		default:
			e.fail(n, "held of this value")
		}
		return SV{V: e.load(func(s *State) Val { return Select(Select(x.heapGet(s, heldKey, x.heldLeaf()), b), i) })}
	case "upd":
		a := e.term(n.Args[1])
		return SV{V: Store(a, e.argT(n, 1, a.S.Idx), e.argT(n, 2, a.S.Elem))}
	case "ref": // the identity of a map, pointer or slice
		switch v := e.eval(n.Args[1]).V.(type) {
		case *SliceV:
			return SV{V: v.Base}
		case *PtrV:
			return SV{V: v.Base}
		case *Term:
			return SV{V: v}
		}
		e.fail(n, "ref of this value")
	case "typeis": // dynamic type test: typeis(v, "pkg.T")
		v := e.eval(n.Args[1])
		nm := n.Args[2].Name
		if iv, ok := v.V.(*IfaceV); ok {
			return SV{V: B(iv.T != nil && typeKey(iv.T) == nm)}
		}
		for _, t := range append(x.prog.concreteTypes(), basicTypes...) {
			if typeKey(t) == nm {
				return SV{V: Eq(tagOf(v.V.(*Term)), tagId(t))}
			}
		}
		e.fail(n, "unknown type %s", nm)
	case "payload": // dynamic value: payload(v, "pkg.T")
		v := e.eval(n.Args[1])
		nm := n.Args[2].Name
		if iv, ok := v.V.(*IfaceV); ok {
			if iv.T != nil && typeKey(iv.T) == nm {
				return SV{V: iv.V, T: iv.T}
			}
			e.fail(n, "dynamic type")
		}
		for _, t := range append(x.prog.concreteTypes(), basicTypes...) {
			if typeKey(t) == nm {
				return SV{V: e.load(func(s *State) Val { return x.ifcPayload(s, v.V.(*Term), t) }), T: t}
			}
		}
		e.fail(n, "unknown type %s", nm)
	case "closure": // closure(f, "pkg.Fn$1"): f was made by that function literal
		if c, ok := e.eval(n.Args[1]).V.(*ClosV); ok {
			return SV{V: B(c.Fn != nil && specKey(c.Fn) == n.Args[2].Name)}
		}
		return SV{V: False}
	case "uf": // uf("name", "sort", args...): the verifier's own uninterpreted symbols
		var as []*Term
		for i := 3; i < len(n.Args); i++ {
			v := e.eval(n.Args[i])
			if sl, ok := v.V.(*SliceV); ok {
				as = append(as, e.seq(n, SV{V: sl}))
				continue
			}
			as = append(as, e.asTerm(n, v))
		}
		return SV{V: App(n.Args[1].Name, x.sortOf(n.Args[2].Name), as...)}
	case "nextref":
		return SV{V: e.state().nextTerm()}
	}
	if g := x.spec.Fns[f.Name]; g != nil {
		return e.applyFn(n, g, n.Args[1:])
	}
	if p := x.prog.SSA[modPath+"/"+e.pkg]; p != nil { // conversion to a named type
		if tn, ok := p.Pkg.Scope().Lookup(f.Name).(*types.TypeName); ok {
			return e.convert(n, tn.Type(), e.eval(n.Args[1]))
		}
	}
	for _, t := range basicTypes {
		if typeKey(t) == f.Name {
			return e.convert(n, t, e.eval(n.Args[1]))
		}
	}
	e.fail(n, "unknown function %s", f.Name)
	return SV{}
}

var basicTypes = []types.Type{types.Typ[types.Float64], types.Typ[types.Int], types.Typ[types.String], types.Typ[types.Bool],
	types.Typ[types.Uint64], types.Typ[types.Int64], types.NewSlice(types.Typ[types.Uint8])}

func (e *SEnv) convert(n *Node, t types.Type, v SV) SV {
	s := e.x.scalarSort(t)
	if s == nil {
		return SV{V: v.V, T: t}
	}
	return SV{V: e.toSort(n, e.asTerm(n, v), s), T: t}
}

func (e *SEnv) ifcArg(n *Node, i int) *Term {
	v := e.eval(n.Args[i+1])
	switch w := v.V.(type) {
	case *IfaceV:
		return e.x.scalarTerm(v.T, w)
	case *PtrV:
		return e.x.bufIfc(w)
	case *Term:
		return w
	}
	e.fail(n, "stream argument")
	return nil
}

func (e *SEnv) ghostAt(name string, idx *Term) *Term {
	return e.load(func(s *State) Val { return e.x.ghostRead(s, name, idx) }).(*Term)
}

// applyFn: macros and plain functions are expanded, opaque ones only where revealed, recursive ones become
// applications that the solver interface unfolds.
func (e *SEnv) applyFn(n *Node, f *SpecFn, args []*Node) SV {
	x := e.x
	if len(args) != len(f.Params) {
		e.fail(n, "argument count of %s", f.Name)
	}
	if f.Macro {
		e.depth++
		if e.depth > 60 {
			e.fail(n, "macro recursion")
		}
		c := &SEnv{x: x, st: e.st, old: e.old, inOld: e.inOld, names: map[string]SV{}, pkg: f.Pkg, sink: e.sink, depth: e.depth}
		for i, a := range args {
			c.names[f.Params[i].Name] = e.eval(a)
		}
		r := c.eval(f.Body)
		e.depth--
		return r
	}
	var ts []*Term
	for i, a := range args {
		s := x.sortOf(f.Params[i].Sort)
		if s == nil {
			e.fail(n, "sort %s", f.Params[i].Sort)
		}
		v := e.eval(a)
		if sl, ok := v.V.(*SliceV); ok && s == SStr {
			ts = append(ts, e.seq(n, SV{V: sl}))
			continue
		}
		ts = append(ts, e.toSort(n, e.asTerm(n, v), s))
	}
	return SV{V: x.fnTerm(f, ts)}
}

func (x *Exec) revealed(name string) bool {
	if x.ctr != nil && x.ctr.Reveal[name] {
		return true
	}
	return x.lemma != nil && x.lemma.Reveal[name]
}

func (x *Exec) fnTerm(f *SpecFn, ts []*Term) *Term {
	ret := x.sortOf(f.Ret)
	if ret == nil {
		panic(specErr{f.Line + ": sort " + f.Ret})
	}
	if f.Body != nil && !f.Rec && (!f.Opaque || x.revealed(f.Name)) {
		return x.fnBody(f, ts)
	}
	return App(f.Name, ret, ts...)
}

func (x *Exec) fnBody(f *SpecFn, ts []*Term) *Term {
	c := &SEnv{x: x, names: map[string]SV{}, pkg: f.Pkg}
	for i, p := range f.Params {
		c.names[p.Name] = SV{V: ts[i]}
	}
	r := c.term(f.Body)
	return c.toSort(f.Body, r, x.sortOf(f.Ret))
}

// fnDecided: the condition on which f's body branches is a constant.
func (x *Exec) fnDecided(f *SpecFn, ts []*Term) bool {
	if f.Body.Op != "ite" {
		return false
	}
	c := &SEnv{x: x, names: map[string]SV{}, pkg: f.Pkg}
	for i, p := range f.Params {
		c.names[p.Name] = SV{V: ts[i]}
	}
	b := c.boolean(f.Body.Args[0])
	return b == True || b == False
}

// ---- modifies locations ----

type loc struct {
	key    string
	kind   string // cell range region all ghost
	base   *Term
	lo, hi *Term
	idx    *Term // cell index, or stream of a ghost map
}

// lval is the location of an element of a slice or array or of a field of one.
func (e *SEnv) lval(n *Node) *PtrV {
	switch n.Op {
	case "index":
		i := e.toSort(n, e.term(n.Args[1]), SInt)
		switch w := e.eval(n.Args[0]).V.(type) {
		case *SliceV:
			return e.x.elemPtr(w, i)
		case *PtrV:
			if w.ArrN >= 0 {
				return e.x.mkPtr(w.Root, w.Base, Add(w.Idx, i))
			}
		}
	case "sel":
		if p := e.lval(n.Args[0]); p != nil {
			t, _ := e.x.atPath(p.Root, p.Path)
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n.Name {
						return e.x.fieldPtr(p, i)
					}
				}
			}
		}
	}
	return nil
}

func (e *SEnv) locs(n *Node) []loc {
	x := e.x
	var out []loc
	addPtr := func(p *PtrV) {
		t, pre := x.atPath(p.Root, p.Path)
		if p.ArrN >= 0 && len(p.Path) == 0 {
			for _, l := range x.leaves(p.Root) {
				out = append(out, loc{key: x.regLeaf(hkey(p.Root, l.Path), l), kind: "region", base: p.Base})
			}
			return
		}
		var rec func(t types.Type, pre string)
		rec = func(t types.Type, pre string) {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					rec(u.Field(i).Type(), join(pre, u.Field(i).Name()))
				}
			case *types.Array:
				ab := x.arrBase(p.Root, pre, p.Base, p.Idx)
				for _, l := range x.leaves(u.Elem()) {
					out = append(out, loc{key: x.regLeaf(hkey(u.Elem(), l.Path), l), kind: "region", base: ab})
				}
			default:
				for _, l := range x.leaves(t) {
					k := hkey(p.Root, join(pre, l.Path))
					out = append(out, loc{key: x.regLeaf(k, l), kind: "cell", base: p.Base, idx: p.Idx})
				}
			}
		}
		rec(t, pre)
	}
	switch n.Op {
	case "ident":
		if _, ok := x.spec.Ghosts[n.Name]; ok {
			return []loc{{key: n.Name, kind: "ghost"}}
		}
	case "deref":
		if p, ok := e.eval(n.Args[0]).V.(*PtrV); ok {
			addPtr(p)
			return out
		}
	case "index":
		if p := e.lval(n); p != nil {
			addPtr(p)
			return out
		}
	case "sel":
		if n.Args[0].Op == "index" {
			if p := e.lval(n); p != nil {
				addPtr(p)
				return out
			}
		}
		v := e.eval(n.Args[0])
		if p, ok := v.V.(*PtrV); ok {
			t, _ := x.atPath(p.Root, p.Path)
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n.Name {
						addPtr(x.fieldPtr(p, i))
						return out
					}
				}
			}
		}
	case "call":
		switch n.Args[0].Name {
		case "elems":
			switch s := e.eval(n.Args[1]).V.(type) {
			case *SliceV:
				for _, l := range x.leaves(s.Elem) {
					out = append(out, loc{key: x.regLeaf(hkey(s.Elem, l.Path), l), kind: "range", base: s.Base, lo: s.Off, hi: Add(s.Off, s.Len)})
				}
				return out
			case *PtrV:
				addPtr(s)
				return out
			}
		case "region":
			if s, ok := e.eval(n.Args[1]).V.(*SliceV); ok {
				for _, l := range x.leaves(s.Elem) {
					out = append(out, loc{key: x.regLeaf(hkey(s.Elem, l.Path), l), kind: "region", base: s.Base})
				}
				return out
			}
		case "row": // the whole region a location lies in
			for _, l := range e.locs(n.Args[1]) {
				out = append(out, loc{key: l.key, kind: "region", base: l.base})
			}
			return out
		case "locks":
			x.regLeaf(heldKey, x.heldLeaf())
			switch v := e.eval(n.Args[1]).V.(type) {
			case *SliceV:
				return []loc{{key: heldKey, kind: "region", base: v.Base}}
			case *PtrV:
				return []loc{{key: heldKey, kind: "region", base: v.Base}}
			}
		case "mapof":
			v := e.eval(n.Args[1])
			k, ks, _, ls := x.mapLeaves(v.T)
			e.load(func(s *State) Val { x.mapHeap(s, k+"?", ks, SBool); return nil })
			out = append(out, loc{key: k + "?", kind: "region", base: v.V.(*Term)})
			for _, l := range ls {
				e.load(func(s *State) Val { x.mapHeap(s, k+"."+l.Path, ks, l.S); return nil })
				out = append(out, loc{key: k + "." + l.Path, kind: "region", base: v.V.(*Term)})
			}
			return out
		case "all":
			return []loc{{key: n.Args[1].Name, kind: "all"}}
		case "out":
			w := e.ifcArg(n, 0)
			return []loc{{key: "out.arr", kind: "ghost", idx: w}, {key: "out.len", kind: "ghost", idx: w}, {key: "out.calls", kind: "ghost", idx: w}, {key: "out.fails", kind: "ghost", idx: w}}
		case "in":
			return []loc{{key: "in.pos", kind: "ghost", idx: e.ifcArg(n, 0)}}
		}
	}
	e.fail(n, "modifies location")
	return nil
}

func (x *Exec) regLeaf(k string, l Leaf) string {
	if _, ok := x.heapLeaf[k]; !ok {
		x.heapLeaf[k] = l
	}
	return k
}

// havocLoc forgets the contents of one location.
func (x *Exec) havocLoc(st *State, l loc) {
	if l.kind == "ghost" {
		x.recordGhostAt(l.key, l.idx)
		if l.idx != nil {
			g := x.ghostGet(st, l.key, ghostElem(l.key))
			st.ghost[l.key] = Store(g, l.idx, x.fresh("g!"+l.key, g.S.Elem))
			return
		}
		s := x.sortOf(x.spec.Ghosts[l.key])
		st.ghost[l.key] = x.fresh("ghost!"+l.key, s)
		return
	}
	h, ok := st.heap[l.key]
	if !ok {
		lf, ok := x.heapLeaf[l.key]
		if !ok {
			return
		}
		h = x.heapGet(st, l.key, lf)
	}
	switch l.kind {
	case "all":
		x.recordWrite(l.key, nil)
		st.heap[l.key] = x.fresh("H!"+l.key, h.S)
	case "region":
		x.recordWrite(l.key, l.base)
		st.heap[l.key] = Store(h, l.base, x.fresh("A!"+l.key, h.S.Elem))
	case "cell":
		x.recordWrite(l.key, l.base)
		st.heap[l.key] = Store(h, l.base, Store(Select(h, l.base), l.idx, x.fresh("c!"+l.key, h.S.Elem.Elem)))
	case "range":
		x.recordWrite(l.key, l.base)
		old := Select(h, l.base)
		if d := constDiff(l.hi, l.lo); d != nil && d.IsInt64() && d.Int64() <= 16 {
			na := old
			for i := int64(0); i < d.Int64(); i++ {
				na = Store(na, Add(l.lo, IntC(i)), x.fresh("c!"+l.key, h.S.Elem.Elem))
			}
			st.heap[l.key] = Store(h, l.base, na)
			return
		}
		na := x.fresh("A!"+l.key, h.S.Elem)
		v := BVar("i", SInt)
		st.assume(Forall([]*Term{v}, Imp(Or(Lt(v, l.lo), Le(l.hi, v)), Eq(Select(na, v), Select(old, v))), []*Term{Select(na, v)}))
		st.heap[l.key] = Store(h, l.base, na)
	}
}

// ---- contracts at call sites ----

func relPkg(path string) string {
	if path == modPath {
		return "."
	}
	return strings.TrimPrefix(path, modPath+"/")
}

// specKey names a function the way contract files do.
func specKey(f *ssa.Function) string {
	pk := ""
	if f.Pkg != nil {
		pk = relPkg(f.Pkg.Pkg.Path())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		if n, ok := t.(*types.Named); ok {
			if pk == "" && n.Obj().Pkg() != nil {
				pk = relPkg(n.Obj().Pkg().Path())
			}
			return pk + ".(" + star + n.Obj().Name() + ")." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func (db *SpecDB) contractFor(f *ssa.Function, m Mode, cur *Contract) *Contract {
	if f.Synthetic != "" && f.Signature.Recv() == nil && isRepoFn(f) {
		return nil
	}
	vs := db.Contracts[specKey(f)]
	var best *Contract
	if cur != nil {
		for _, c := range vs {
			for _, v := range cur.Views {
				if v == c.Variant && v != "" {
					return c
				}
			}
		}
	}
	for _, c := range vs {
		if c.Mode.Real != m.Real || c.IsApply {
			continue
		}
		if c.Variant != "" && c.Variant != "real" {
			continue
		}
		if c.Mode == m {
			return c
		}
		best = c
	}
	return best
}

func (db *SpecDB) ifcContract(key string) *Contract { return db.Ifc[key] }

func (x *Exec) intrinsic(f *ssa.Function) func(st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	return nil
}

func (x *Exec) applyContract(st *State, fr *Frame, ct *Contract, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	x.used[ct.Name] = true
	names := map[string]SV{}
	var ts []types.Type
	if r := f.Signature.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ts = append(ts, f.Signature.Params().At(i).Type())
	}
	if len(ct.Params) != len(ts) || len(args) != len(ts) {
		panic(unsupported("contract of " + ct.Name + " does not fit its parameters"))
	}
	for i, t := range ts {
		names[ct.Params[i]] = SV{V: args[i], T: t}
	}
	x.applyC(st, fr, ct, names, f.Signature.Results(), pos, k)
}

func (x *Exec) applyIfc(st *State, fr *Frame, ct *Contract, recv *Term, m *types.Func, args []Val, pos token.Pos, k cont) {
	x.trust("every implementation of " + ct.Name + " meets its contract")
	x.used[ct.Name] = true
	names := map[string]SV{}
	sig := m.Type().(*types.Signature)
	names[ct.Params[0]] = SV{V: recv}
	for i := 0; i < sig.Params().Len(); i++ {
		names[ct.Params[i+1]] = SV{V: args[i], T: sig.Params().At(i).Type()}
	}
	x.applyC(st, fr, ct, names, sig.Results(), pos, k)
}

// callUnknown: a function value of unknown identity obeys the contract of its named type.
func (x *Exec) callUnknown(st *State, fr *Frame, f *Term, t types.Type, args []Val, pos token.Pos, k cont) {
	ct := x.spec.Ifc[typeKey(t)]
	if ct == nil && x.ctr != nil && x.ctr.CallsAs != "" {
		ct = x.spec.Ifc[x.ctr.CallsAs]
	}
	if ct == nil {
		if f.Op == "select" || f.Op == "var" {
			panic(unsupported("call of an unknown function of type " + typeKey(t)))
		}
		panic(unsupported("call of a function value of type " + typeKey(t)))
	}
	x.check(st, "panic", "call of a non-nil function", x.pos(pos), Not(Eq(f, Var("nil!fn", SFn))))
	x.trust("every function of type " + ct.Name + " meets that type's contract")
	x.used[ct.Name] = true
	sig := t.Underlying().(*types.Signature)
	names := map[string]SV{ct.Params[0]: {V: f, T: t}}
	for i := 0; i < sig.Params().Len(); i++ {
		names[ct.Params[i+1]] = SV{V: args[i], T: sig.Params().At(i).Type()}
	}
	x.applyC(st, fr, ct, names, sig.Results(), pos, k)
}

func (x *Exec) applyC(st *State, fr *Frame, ct *Contract, names map[string]SV, res *types.Tuple, pos token.Pos, k cont) {
	env := &SEnv{x: x, st: st, names: names, pkg: ct.Pkg, sink: st}
	for _, l := range ct.Lets {
		env.names[l.Name] = env.eval(l.E)
	}
	for _, r := range ct.Requires {
		x.check(st, "pre", "precondition of "+ct.Name+": "+r.Src, x.pos(pos), env.boolean(r.E))
	}
	if st.dead() {
		return
	}
	old := st.clone()
	var ls []loc
	for _, m := range ct.Modifies {
		ls = append(ls, env.locs(m.E)...)
	}
	if !ct.Pure {
		x.newEpoch(st)
		for _, m := range x.rec {
			m.alloc = true
		}
	}
	var before *State
	if x.conc != nil && x.conc.anyShared(x, st, ls, pos) {
		x.conc.interfere(x, st)
		before = st.clone()
	}
	for _, l := range ls {
		x.havocLoc(st, l)
	}
	if before != nil {
		x.conc.wrote(x, st, before, ls, pos)
	}
	env.old = old
	if ct.Trusted != "" {
		x.trust(ct.Name + ": " + ct.Trusted)
	}
	if ct.Invoke == nil {
		x.applyResults(st, ct, env, res, k)
		return
	}
	// the callee either calls the function it was given once or not at all
	s2 := st.clone()
	e2 := env.with(s2)
	n := ct.Invoke
	fv := names[n.Args[0].Name]
	fsig := fv.T.Underlying().(*types.Signature)
	var as []Val
	for i := 0; i < fsig.Params().Len(); i++ {
		pt := fsig.Params().At(i).Type()
		next := s2.nextTerm()
		v := x.freshVal(s2, n.Args[i+1].Name, pt, false)
		if sl, ok := v.(*SliceV); ok { // memory of the callee's
			x.newEpoch(s2)
			s2.assume(Le(next, sl.Base))
			s2.assume(Lt(sl.Base, s2.nextTerm()))
		}
		as = append(as, v)
		e2.names[n.Args[i+1].Name] = SV{V: v, T: pt}
	}
	for _, b := range ct.Begins {
		s2.assume(e2.boolean(b.E))
	}
	x.callValue(s2, fr, fv.V, fv.T, as, pos, func(s3 *State, rs []Val) {
		e3 := e2.with(s3)
		e3.names["ran"] = SV{V: True}
		for i, r := range rs {
			if i < len(ct.InvRes) {
				e3.names[ct.InvRes[i]] = SV{V: r, T: fsig.Results().At(i).Type()}
			}
		}
		x.applyResults(s3, ct, e3, res, k)
	})
	env.names["ran"] = SV{V: False}
	for i := 0; i < fsig.Results().Len() && i < len(ct.InvRes); i++ {
		rt := fsig.Results().At(i).Type()
		env.names[ct.InvRes[i]] = SV{V: x.freshVal(st, ct.InvRes[i], rt, false), T: rt}
	}
	for i := 0; i < fsig.Params().Len(); i++ {
		pt := fsig.Params().At(i).Type()
		env.names[n.Args[i+1].Name] = SV{V: x.freshVal(st, n.Args[i+1].Name, pt, false), T: pt}
	}
	for _, b := range ct.Begins {
		st.assume(env.boolean(b.E))
	}
	x.applyResults(st, ct, env, res, k)
}

func (e *SEnv) with(st *State) *SEnv {
	n := &SEnv{x: e.x, st: st, old: e.old, names: map[string]SV{}, pkg: e.pkg, sink: st}
	for k, v := range e.names {
		n.names[k] = v
	}
	return n
}

func (x *Exec) applyResults(st *State, ct *Contract, env *SEnv, res *types.Tuple, k cont) {
	var out []Val
	for i := 0; i < res.Len(); i++ {
		v := x.freshVal(st, "ret_"+ct.Fn, res.At(i).Type(), false)
		out = append(out, v)
		if i < len(ct.Results) {
			env.names[ct.Results[i]] = SV{V: v, T: res.At(i).Type()}
		}
	}
	for i, d := range ct.Defines {
		if f := x.spec.Fns[d]; f != nil && i < len(out) {
			var ts []*Term
			for _, p := range ct.Params {
				ts = append(ts, env.asTerm(nil, env.names[p]))
			}
			out[i] = x.fnTerm(f, ts)
			if i < len(ct.Results) {
				env.names[ct.Results[i]] = SV{V: out[i], T: res.At(i).Type()}
			}
			x.rangeOf(st, res.At(i).Type(), out[i])
		}
	}
	for _, e := range ct.Ensures {
		st.assume(env.boolean(e.E))
	}
	if st.dead() || x.infeasible(st) {
		return
	}
	// results known to be a definite nil / definite constant are simplified
	for i := range out {
		out[i] = x.definite(st, out[i])
	}
	k(st, out)
}

// definite replaces a fresh result by the term the postcondition equates it with.
func (x *Exec) definite(st *State, v Val) Val {
	t, ok := v.(*Term)
	if !ok || t.Op != "var" {
		return v
	}
	for _, p := range st.pc {
		if p.Op == "=" && (p.Args[0] == t || p.Args[1] == t) {
			o := p.Args[0]
			if o == t {
				o = p.Args[1]
			}
			if o == nilIfc {
				return &IfaceV{}
			}
			if o.IsConst() || o.S == SFn && o.Op == "app" || o.S == SIfc && o.Op == "app" && strings.HasPrefix(o.Str, "mkifc!") {
				if o.S == SIfc {
					return x.ifcFromTerm(o)
				}
				if o.S == SFn {
					return x.fnFromTerm(o)
				}
				return o
			}
		}
		if p == t && t.S == SBool {
			return True
		}
		if p.Op == "not" && p.Args[0] == t {
			return False
		}
	}
	return v
}

func bigHex(s string) *big.Int {
	n, _ := new(big.Int).SetString(s, 16)
	return n
}

// ---- loop invariant candidates ----

func metas(n *Node, out map[string]string, ord *[]string) {
	if n == nil {
		return
	}
	if n.Op == "meta" {
		if _, ok := out[n.Name]; !ok {
			*ord = append(*ord, n.Name)
			out[n.Name] = ""
		}
		if n.Src != "" {
			out[n.Name] = n.Src
		}
	}
	for _, a := range n.Args {
		metas(a, out, ord)
	}
	for _, p := range n.Pats {
		for _, a := range p {
			metas(a, out, ord)
		}
	}
}

func (x *Exec) phiMatches(ph *ssa.Phi, srt string) bool {
	t := ph.Type()
	if srt == "" {
		srt = "int"
	}
	if srt == "num" {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	if srt == "slice" {
		_, ok := t.Underlying().(*types.Slice)
		return ok
	}
	if srt == "int" {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && (b.Info()&types.IsUnsigned == 0 || intBits(t) > 8)
	}
	if typeKey(t) == srt {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Name() == srt {
			return true
		}
	}
	s := x.scalarSort(t)
	return s != nil && s == x.sortOf(srt) && s != SInt
}

func valComment(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Phi:
		return v.Comment
	case *ssa.Alloc:
		return v.Comment
	}
	return ""
}

// structVals: values of the named struct type (or pointers to it) computed before the loop.
func (x *Exec) structVals(st *State, fr *Frame, header *ssa.BasicBlock, srt string) []ssa.Value {
	var out []ssa.Value
	if srt == "" {
		return nil
	}
	match := func(v ssa.Value) {
		t := v.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if b, ok := t.Underlying().(*types.Basic); ok && srt == "cell" && t != v.Type() && b.Info()&types.IsInteger != 0 {
			if _, ok := st.env[envKey{fr.id, v}]; ok { // a pointer to a number
				out = append(out, v)
			}
			return
		}
		if _, ok := t.Underlying().(*types.Array); ok && srt == "arr" {
			if _, ok := st.env[envKey{fr.id, v}]; ok {
				out = append(out, v)
			}
			return
		}
		if _, ok := t.Underlying().(*types.Map); ok && srt == "map" && t == v.Type() {
			if _, ok := st.env[envKey{fr.id, v}]; ok {
				out = append(out, v)
			}
			return
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Name() != srt {
			return
		}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return
		}
		if _, ok := v.(*ssa.Phi); ok {
			return
		}
		if _, ok := st.env[envKey{fr.id, v}]; ok {
			out = append(out, v)
		}
	}
	for _, p := range fr.fn.Params {
		match(p)
	}
	body := x.loopsOf(fr.fn).body[header]
	for _, b := range fr.fn.Blocks {
		if body[b] || !b.Dominates(header) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				match(v)
			}
		}
	}
	return out
}

func (x *Exec) makeCands(st *State, fr *Frame, b *ssa.BasicBlock, nphi int, key string) {
	if x.candSet[key] {
		return
	}
	x.candSet[key] = true
	var phis []*ssa.Phi
	for i := 0; i < nphi; i++ {
		phis = append(phis, b.Instrs[i].(*ssa.Phi))
	}
	own := len(phis)
	top := 0 // where the outermost loop's variables start
	for i := len(st.active) - 1; i >= 0; i-- {
		a := st.active[i]
		if a.frame != fr.id {
			continue
		}
		top = len(phis)
		for _, in := range a.header.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				phis = append(phis, ph)
			}
		}
	}
	add := func(c *Cand) {
		if x.isDropped(key + "|" + c.Src) {
			c.Dropped = true
		}
		x.cands[key] = append(x.cands[key], c)
	}
	for i := 0; i < own; i++ {
		ph := phis[i]
		bt, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		for _, kd := range []string{"lo0", "lom1", "geEntry", "leEntry"} {
			add(&Cand{Loop: key, Src: kd + " " + ph.Name() + "(" + ph.Comment + ")", Kind: kd, Phi: ph})
		}
	}
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			for i := 0; i < own; i++ {
				for _, y := range []ssa.Value{bo.X, bo.Y} {
					if _, isc := y.(*ssa.Phi); isc {
						continue
					}
					if types.Identical(phis[i].Type().Underlying(), y.Type().Underlying()) {
						for _, kd := range []string{"leB", "leB1", "geB"} {
							add(&Cand{Loop: key, Src: kd + " " + phis[i].Name() + " " + y.Name(), Kind: kd, Phi: phis[i], Bound: y})
						}
					}
				}
			}
		}
	}
	if x.ctr == nil {
		return
	}
	for i, l := range x.frameLocs() {
		if l.kind == "range" {
			add(&Cand{Loop: key, Src: fmt.Sprintf("frame %d %s", i, l.key), Kind: "frame", N: i})
		}
	}
	for _, t := range x.ctr.Invs {
		if t.Tag != "" && !x.loopIs(fr.fn, b, t.Tag) {
			continue
		}
		ms := map[string]string{}
		var ord []string
		metas(t.E, ms, &ord)
		var rec func(i int, bind map[string]ssa.Value, plus map[string]int64)
		rec = func(i int, bind map[string]ssa.Value, plus map[string]int64) {
			if len(x.cands[key]) > 600 {
				return
			}
			if i == len(ord) {
				nb := map[string]ssa.Value{}
				np := map[string]int64{}
				src := t.Src
				for _, k := range ord {
					v := bind[k]
					nb[k] = v
					np[k] = plus[k]
					src += fmt.Sprintf(" [?%s=%s%+d]", k, v.Name()+"("+valComment(v)+")", plus[k])
				}
				add(&Cand{Loop: key, Src: src, Expr: t.E, Bind: nb, Plus: np})
				return
			}
			m := ord[i]
			for _, v := range x.structVals(st, fr, b, ms[m]) {
				bind[m] = v
				plus[m] = 0
				rec(i+1, bind, plus)
				delete(bind, m)
			}
			for pi, ph := range phis {
				srt := ms[m]
				if srt == "own" || srt == "outer" { // an integer of this loop, or of one around it
					if (pi < own) != (srt == "own") {
						continue
					}
					srt = "int"
				}
				if srt == "top" { // an integer of the outermost loop
					if pi < top {
						continue
					}
					srt = "int"
				}
				if !x.phiMatches(ph, srt) {
					continue
				}
				dup := false
				for _, o := range bind {
					if o == ph {
						dup = true
					}
				}
				if dup {
					continue
				}
				bind[m] = ph
				pl := []int64{0}
				if (srt == "" || srt == "int" || srt == "num") && ph.Comment == "rangeindex" {
					pl = []int64{1}
				}
				for _, p := range pl {
					plus[m] = p
					rec(i+1, bind, plus)
				}
				delete(bind, m)
			}
		}
		rec(0, map[string]ssa.Value{}, map[string]int64{})
	}
}

// loopIs: is b the head of the innermost loop calling the named functions, if there is one?
func (x *Exec) loopIs(f *ssa.Function, b *ssa.BasicBlock, names string) bool {
	l := x.loopsOf(f)
	size := func(h *ssa.BasicBlock) int {
		for _, n := range strings.Fields(strings.ReplaceAll(names, ",", " ")) {
			found := false
			for q := range l.body[h] {
				for _, in := range q.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						cc := c.Common()
						cn := ""
						if cc.IsInvoke() {
							cn = cc.Method.Name()
						} else if sf := cc.StaticCallee(); sf != nil {
							cn = sf.Name()
						} else if nt, ok := cc.Value.Type().(*types.Named); ok {
							cn = nt.Obj().Name()
						}
						found = found || cn == n
					}
				}
			}
			if !found {
				return 0
			}
		}
		return len(l.body[h])
	}
	best := 0
	for h := range l.body {
		if n := size(h); n > 0 && (best == 0 || n < best) {
			best = n
		}
	}
	return best == 0 || size(b) == best
}

func (x *Exec) candTerm(st *State, fr *Frame, c *Cand) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				err = fmt.Errorf("%s", e.msg)
			case unsup:
				err = fmt.Errorf("%s", e.msg)
			default:
				panic(r)
			}
		}
	}()
	get := func(v ssa.Value) *Term {
		if cl, ok := v.(*ssa.Call); ok { // len(s) computed in the header
			if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if _, ok := st.env[envKey{fr.id, cl.Call.Args[0]}]; ok {
					return x.lenOf(st, x.val(st, fr, cl.Call.Args[0]), cl.Call.Args[0].Type(), "len").(*Term)
				}
			}
		}
		if _, ok := v.(*ssa.Const); !ok {
			if _, ok := st.env[envKey{fr.id, v}]; !ok {
				panic(specErr{"no value"})
			}
			if in, ok := v.(ssa.Instruction); ok && x.loopsOf(fr.fn).body[c.Phi.Block()][in.Block()] {
				panic(specErr{"bound changes in the loop"})
			}
		}
		t, ok := x.val(st, fr, v).(*Term)
		if !ok {
			panic(specErr{"not a term"})
		}
		return x.toInt(t, v.Type())
	}
	if c.Kind == "frame" { // bytes of a partly modifiable region outside the modifiable part are as at entry
		l := x.frameLocs()[c.N]
		h, ok := st.heap[l.key]
		if !ok {
			return True, nil
		}
		h0, ok := x.pre.heap[l.key]
		if !ok {
			h0 = Var("H0!"+l.key, h.S)
		}
		v := BVar("i", SInt)
		cur := Select(Select(h, l.base), v)
		return Forall([]*Term{v}, Imp(Or(Lt(v, l.lo), Le(l.hi, v)), Eq(cur, Select(Select(h0, l.base), v))), []*Term{cur}), nil
	}
	if c.Kind == "regions" {
		h, ok := st.heap[c.Key]
		if !ok {
			return True, nil
		}
		h0, ok := x.pre.heap[c.Key]
		if !ok {
			h0 = Var("H0!"+c.Key, h.S)
		}
		v := BVar("b", SInt)
		cond := []*Term{Lt(v, x.pre.nextTerm())}
		for _, l := range x.frameLocs() {
			if l.key == c.Key {
				cond = append(cond, Not(Eq(v, l.base)))
			}
		}
		cur := Select(h, v)
		return Forall([]*Term{v}, Imp(And(cond...), Eq(cur, Select(h0, v))), []*Term{cur}), nil
	}
	if c.Kind != "" {
		pv, ok := st.env[envKey{fr.id, c.Phi}]
		if !ok {
			return nil, fmt.Errorf("no value")
		}
		p := x.toInt(pv.(*Term), c.Phi.Type())
		switch c.Kind {
		case "lo0":
			return Le(IntC(0), p), nil
		case "lom1":
			return Le(IntC(-1), p), nil
		case "geEntry", "leEntry":
			en, ok := x.entryVal(st, fr, c.Phi)
			if !ok {
				return nil, fmt.Errorf("no entry value")
			}
			ev := x.toInt(en.(*Term), c.Phi.Type())
			if c.Kind == "geEntry" {
				return Le(ev, p), nil
			}
			return Le(p, ev), nil
		case "leB":
			return Le(p, get(c.Bound)), nil
		case "leB1":
			return Lt(p, get(c.Bound)), nil
		case "geB":
			return Le(get(c.Bound), p), nil
		}
	}
	env := &SEnv{x: x, st: st, old: x.pre, names: map[string]SV{}, pkg: x.ctr.Pkg, sink: st}
	for k, v := range x.argVals {
		env.names[k] = v
	}
	for m, ph := range c.Bind {
		v, ok := st.env[envKey{fr.id, ph}]
		if !ok {
			return nil, fmt.Errorf("no value for %s", m)
		}
		var ev Val
		eok := false
		if p, ok := ph.(*ssa.Phi); ok {
			ev, eok = x.entryVal(st, fr, p)
		}
		if d := c.Plus[m]; d != 0 {
			v = Add(v.(*Term), IntC(d))
			if eok {
				ev = Add(ev.(*Term), IntC(d))
			}
		}
		env.names["?"+m] = SV{V: v, T: ph.Type()}
		if eok {
			env.names["?"+m+"@entry"] = SV{V: ev, T: ph.Type()}
		}
	}
	return env.boolean(c.Expr), nil
}

// frameLocs: the contract's modifiable locations, evaluated at entry.
func (x *Exec) frameLocs() []loc {
	if x.locCache == nil && x.pre != nil {
		x.locCache = []loc{}
		pe := &SEnv{x: x, st: x.pre, names: map[string]SV{}, pkg: x.ctr.Pkg}
		for k, v := range x.argVals {
			pe.names[k] = v
		}
		for _, m := range x.ctr.Modifies {
			x.locCache = append(x.locCache, pe.locs(m.E)...)
		}
	}
	return x.locCache
}

func (x *Exec) entryVal(st *State, fr *Frame, ph *ssa.Phi) (Val, bool) {
	for i := len(st.active) - 1; i >= 0; i-- {
		a := st.active[i]
		if a.frame == fr.id && a.header == ph.Block() {
			v, ok := a.entryPhi[ph]
			return v, ok
		}
	}
	// not entered yet: the current value is the entry value
	v, ok := st.env[envKey{fr.id, ph}]
	return v, ok
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var bvarN int
