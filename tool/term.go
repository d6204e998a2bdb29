package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	Kind string // Bool Int Real BV Array U
	Bits int
	Idx  *Sort
	Elem *Sort
	Name string
}

var (
	SBool = &Sort{Kind: "Bool", Name: "Bool"}
	SInt  = &Sort{Kind: "Int", Name: "Int"}
	SReal = &Sort{Kind: "Real", Name: "Real"}
	SStr  = &Sort{Kind: "U", Name: "Str"} // finite byte sequences
	SF64  = &Sort{Kind: "U", Name: "F64"}
	SFn   = &Sort{Kind: "U", Name: "Fn"}
	SIfc  = &Sort{Kind: "U", Name: "Ifc"}
	SHeap = &Sort{Kind: "U", Name: "HeapTok"}
)

var bvSorts = map[int]*Sort{}
var arrSorts = map[string]*Sort{}

func BV(n int) *Sort {
	if s, ok := bvSorts[n]; ok {
		return s
	}
	s := &Sort{Kind: "BV", Bits: n, Name: fmt.Sprintf("(_ BitVec %d)", n)}
	bvSorts[n] = s
	return s
}

func ArrS(i, e *Sort) *Sort {
	k := i.Name + "|" + e.Name
	if s, ok := arrSorts[k]; ok {
		return s
	}
	s := &Sort{Kind: "Array", Idx: i, Elem: e, Name: "(Array " + i.Name + " " + e.Name + ")"}
	arrSorts[k] = s
	return s
}

type Term struct {
	Op   string
	Args []*Term
	S    *Sort
	N    *big.Int // constants; extract hi/lo packed
	Str  string   // var / function name
	Id   int
	Vars []*Term      // quantifier bound variables
	Pats [][]*Term    // quantifier patterns
	fb   map[int]bool // free bound variables
}

var termTab = map[string]*Term{}
var termSeq = 0

func mk(op string, s *Sort, n *big.Int, str string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s.Name)
	sb.WriteByte('|')
	if n != nil {
		sb.WriteString(n.String())
	}
	sb.WriteByte('|')
	sb.WriteString(str)
	for _, a := range args {
		if a == nil {
			panic("nil arg to " + op + " " + str)
		}
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.Id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Args: args, S: s, N: n, Str: str, Id: termSeq}
	if op == "bvar" {
		t.fb = map[int]bool{t.Id: true}
	} else {
		for _, a := range args {
			if len(a.fb) > 0 {
				if t.fb == nil {
					t.fb = map[int]bool{}
				}
				for x := range a.fb {
					t.fb[x] = true
				}
			}
		}
	}
	termTab[k] = t
	return t
}

var (
	True  = mk("true", SBool, nil, "")
	False = mk("false", SBool, nil, "")
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntC(n int64) *Term          { return mk("int", SInt, big.NewInt(n), "") }
func IntB(n *big.Int) *Term       { return mk("int", SInt, new(big.Int).Set(n), "") }
func RealC(s string) *Term        { return mk("realc", SReal, nil, s) }
func Var(n string, s *Sort) *Term { return mk("var", s, nil, n) }

var bvarSeq = 0

func BVar(n string, s *Sort) *Term {
	bvarSeq++
	return mk("bvar", s, nil, fmt.Sprintf("%s?%d", n, bvarSeq))
}

func bvMask(n int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	return m.Sub(m, big.NewInt(1))
}

func BvC(n *big.Int, bits int) *Term {
	v := new(big.Int).And(n, bvMask(bits)) // And on negative big.Int is two's complement
	return mk("bv", BV(bits), v, "")
}
func BvU(n uint64, bits int) *Term { return BvC(new(big.Int).SetUint64(n), bits) }

func (t *Term) IsConst() bool {
	switch t.Op {
	case "int", "bv", "true", "false", "f64c":
		return true
	}
	return false
}

func App(name string, s *Sort, args ...*Term) *Term {
	if r := simpApp(name, s, args); r != nil {
		return r
	}
	return mk("app", s, nil, name, args...)
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "<=":
		return Lt(a.Args[1], a.Args[0])
	case "<":
		return Le(a.Args[1], a.Args[0])
	}
	return mk("not", SBool, nil, "", a)
}

func nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op {
			for _, b := range a.Args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[a.Id] {
			return true
		}
		if a.Op == "not" && seen[a.Args[0].Id] {
			return false
		}
		seen[a.Id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0].Id] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, SBool, nil, "", out...)
}

func And(as ...*Term) *Term { return nary("and", True, False, as) }
func Or(as ...*Term) *Term  { return nary("or", False, True, as) }
func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", SBool, nil, "", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.S.Name, b.S.Name, a, b))
	}
	if a.S == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	return mk("ite", a.S, nil, "", c, a, b)
}

// distinctBases reports whether two Int region identifiers are known distinct.
func distinctBases(a, b *Term) bool {
	if d := constDiff(a, b); d != nil {
		return d.Sign() != 0
	}
	na, ea := allocLike(a)
	nb, eb := allocLike(b)
	if na && nb {
		return ea != eb // different epochs: the older one was allocated before the younger epoch began
	}
	if na && (extLike(b) || (b.Op == "int" && b.N.Sign() <= 0)) || nb && (extLike(a) || (a.Op == "int" && a.N.Sign() <= 0)) {
		return true
	}
	// parameter bases are >= 0, global bases < 0
	if extLike(a) && b.Op == "int" && b.N.Sign() < 0 || extLike(b) && a.Op == "int" && a.N.Sign() < 0 {
		return true
	}
	return false
}

func allocLike(t *Term) (bool, string) {
	if t.Op == "var" && strings.HasPrefix(t.Str, "next!") {
		return true, t.Str
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" && t.Args[1].N.Sign() >= 0 {
		return allocLike(t.Args[0])
	}
	return false, ""
}
func extLike(t *Term) bool { return t.Op == "var" && strings.HasPrefix(t.Str, "base!") }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s %s: %s == %s", a.S.Name, b.S.Name, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return False
	}
	if a.S == SInt {
		if d := constDiff(a, b); d != nil {
			return B(d.Sign() == 0)
		}
		if distinctBases(a, b) {
			return False
		}
	}
	if a.S == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if distinctApps(a, b) {
		return False
	}
	// push equality with a constant into ite of constants
	if a.Op == "ite" && b.IsConst() && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && a.IsConst() && (b.Args[1].IsConst() || b.Args[2].IsConst()) {
		return Eq(b, a)
	}
	if a.Id > b.Id {
		a, b = b, a
	}
	return mk("=", SBool, nil, "", a, b)
}

// distinctApps: values of the injective constructors used for interfaces, closures and string literals.
func distinctApps(a, b *Term) bool {
	k := func(t *Term) string {
		if t.Op == "var" && strings.HasPrefix(t.Str, "lit!") {
			return t.Str
		}
		if t.Op == "var" && strings.HasPrefix(t.Str, "err!") {
			return t.Str
		}
		if t.Op == "var" && t.Str == "nil!ifc" {
			return t.Str
		}
		if t.Op == "app" && strings.HasPrefix(t.Str, "mkifc!") {
			return t.Str
		}
		if t.Op == "app" && strings.HasPrefix(t.Str, "clo!") {
			return t.Str
		}
		return ""
	}
	x, y := k(a), k(b)
	return x != "" && y != "" && x != y
}

// ---- linear integer arithmetic normal form ----

type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func newLin() *lin { return &lin{m: map[*Term]*big.Int{}, c: new(big.Int)} }

func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.Op == "int":
		l.c.Add(l.c, new(big.Int).Mul(t.N, k))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && t.Args[0].Op == "int":
		l.add(t.Args[1], new(big.Int).Mul(t.Args[0].N, k))
	default:
		v, ok := l.m[t]
		if !ok {
			v = new(big.Int)
			l.m[t] = v
		}
		v.Add(v, k)
		if v.Sign() == 0 {
			delete(l.m, t)
		}
	}
}

func (l *lin) term() *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].Id < ts[j].Id })
	var out []*Term
	for _, t := range ts {
		k := l.m[t]
		if k.IsInt64() && k.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", SInt, nil, "", IntB(k), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, IntB(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", SInt, nil, "", out...)
}

var one = big.NewInt(1)
var mone = big.NewInt(-1)

func Add(as ...*Term) *Term {
	if len(as) > 0 && as[0].S == SReal {
		r := as[0]
		for _, a := range as[1:] {
			r = mk("+", SReal, nil, "", r, a)
		}
		return r
	}
	l := newLin()
	for _, a := range as {
		l.add(a, one)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a.S == SReal {
		return mk("-", SReal, nil, "", a, b)
	}
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	return l.term()
}
func constDiff(a, b *Term) *big.Int {
	if a.S != SInt {
		return nil
	}
	if a == b {
		return new(big.Int)
	}
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	if len(l.m) == 0 {
		return l.c
	}
	return nil
}
func Mul(a, b *Term) *Term {
	if a.S == SReal {
		return mk("*", SReal, nil, "", a, b)
	}
	if a.Op == "int" {
		l := newLin()
		l.add(b, a.N)
		return l.term()
	}
	if b.Op == "int" {
		return Mul(b, a)
	}
	// distribute over sums so that (x+1)*s normalises
	if a.Op == "+" {
		var ts []*Term
		for _, x := range a.Args {
			ts = append(ts, Mul(x, b))
		}
		return Add(ts...)
	}
	if b.Op == "+" {
		return Mul(b, a)
	}
	k := big.NewInt(1)
	var atoms []*Term
	var coll func(t *Term)
	coll = func(t *Term) {
		if t.Op == "*" {
			for _, x := range t.Args {
				coll(x)
			}
			return
		}
		if t.Op == "int" {
			k.Mul(k, t.N)
			return
		}
		atoms = append(atoms, t)
	}
	coll(a)
	coll(b)
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].Id < atoms[j].Id })
	p := mk("*", SInt, nil, "", atoms...)
	if k.Cmp(one) != 0 {
		l := newLin()
		l.add(p, k)
		return l.term()
	}
	return p
}

// Div and Mod are SMT-LIB (Euclidean) division.
func Div(a, b *Term) *Term {
	if b.Op == "int" && b.N.Cmp(one) == 0 {
		return a
	}
	if a.Op == "int" && b.Op == "int" && b.N.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.N, b.N, m)
		return IntB(q)
	}
	if b.Op == "int" && b.N.Sign() > 0 && a.Op != "int" {
		// split off multiples: (k*b*x + r) div b
		l := newLin()
		l.add(a, one)
		whole, rest := newLin(), newLin()
		for t, c := range l.m {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(c, b.N, m)
			if m.Sign() == 0 {
				whole.add(t, q)
			} else {
				rest.add(t, c)
			}
		}
		q, m := new(big.Int), new(big.Int)
		q.DivMod(l.c, b.N, m)
		whole.c = q
		rest.c = m
		if len(whole.m) > 0 || q.Sign() != 0 {
			rt := rest.term()
			return Add(whole.term(), Div(rt, b))
		}
		lo, hi := rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.N) < 0 {
			return IntC(0)
		}
	}
	return mk("div", SInt, nil, "", a, b)
}
func Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() > 0 {
		return IntB(new(big.Int).Mod(a.N, b.N))
	}
	if b.Op == "int" && b.N.Sign() > 0 {
		if b.N.Cmp(one) == 0 {
			return IntC(0)
		}
		l := newLin()
		l.add(a, one)
		ch := false
		for t, c := range l.m {
			m := new(big.Int).Mod(c, b.N)
			if m.Cmp(c) != 0 {
				ch = true
				if m.Sign() == 0 {
					delete(l.m, t)
				} else {
					l.m[t] = m
				}
			}
		}
		m := new(big.Int).Mod(l.c, b.N)
		if m.Cmp(l.c) != 0 {
			ch = true
			l.c = m
		}
		if ch {
			return Mod(l.term(), b)
		}
		lo, hi := rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.N) < 0 {
			return a
		}
	}
	return mk("mod", SInt, nil, "", a, b)
}

func Le(a, b *Term) *Term {
	if a.S == SInt {
		if d := constDiff(a, b); d != nil {
			return B(d.Sign() <= 0)
		}
		_, ah := rng(a)
		bl, bh := rng(b)
		al, _ := rng(a)
		if ah != nil && bl != nil && ah.Cmp(bl) <= 0 {
			return True
		}
		if al != nil && bh != nil && al.Cmp(bh) > 0 {
			return False
		}
	}
	return mk("<=", SBool, nil, "", a, b)
}
func Lt(a, b *Term) *Term {
	if a.S == SInt {
		if d := constDiff(a, b); d != nil {
			return B(d.Sign() < 0)
		}
		al, ah := rng(a)
		bl, bh := rng(b)
		if ah != nil && bl != nil && ah.Cmp(bl) < 0 {
			return True
		}
		if al != nil && bh != nil && al.Cmp(bh) >= 0 {
			return False
		}
	}
	return mk("<", SBool, nil, "", a, b)
}

// varRange holds ranges asserted for integer variables (asserted in every query that mentions them).
var varRange = map[*Term][2]*big.Int{}

var plainVar = map[*Term]bool{}

// rangedVar: a name keeps one range for the whole run, because simplification relies on it.
func rangedVar(name string, lo, hi *big.Int) *Term {
	for {
		v := Var(name, SInt)
		r, ok := varRange[v]
		if ok && r[0].Cmp(lo) == 0 && r[1].Cmp(hi) == 0 {
			return v
		}
		if !ok && !plainVar[v] {
			varRange[v] = [2]*big.Int{lo, hi}
			return v
		}
		name += "'"
	}
}

// freshVar is a variable without a range.
func freshVar(name string, s *Sort) *Term {
	for {
		v := Var(name, s)
		if s != SInt {
			return v
		}
		if _, ok := varRange[v]; !ok {
			plainVar[v] = true
			return v
		}
		name += "'"
	}
}

// serial is the creation number in the name of a fresh variable, or -1.
func serial(name string) int {
	i := strings.LastIndexByte(name, '~')
	if i < 0 {
		return -1
	}
	n := 0
	for _, c := range name[i+1:] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return n
}

type rngRes struct{ lo, hi *big.Int }

var rngCache = map[int]rngRes{}

func rng(t *Term) (lo, hi *big.Int) {
	if t.Op == "int" {
		return t.N, t.N
	}
	if t.Op == "var" {
		if r, ok := varRange[t]; ok {
			return r[0], r[1]
		}
		return nil, nil
	}
	if r, ok := rngCache[t.Id]; ok {
		return r.lo, r.hi
	}
	lo, hi = rng1(t)
	rngCache[t.Id] = rngRes{lo, hi}
	return
}

func rng1(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case "mod":
		if t.Args[1].Op == "int" && t.Args[1].N.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(t.Args[1].N, one)
		}
	case "div":
		if t.Args[1].Op == "int" && t.Args[1].N.Sign() > 0 {
			l, h := rng(t.Args[0])
			if l != nil {
				lo = new(big.Int).Div(l, t.Args[1].N)
			}
			if h != nil {
				hi = new(big.Int).Div(h, t.Args[1].N)
			}
			return
		}
	case "bv2int":
		n := bvBound(t.Args[0])
		return new(big.Int), n
	case "ite":
		l1, h1 := rng(t.Args[1])
		l2, h2 := rng(t.Args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.Args {
			l, h := rng(a)
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, l)
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, h)
			} else {
				hi = nil
			}
		}
		return
	case "*":
		if t.Args[0].Op == "int" && len(t.Args) == 2 {
			l, h := rng(t.Args[1])
			k := t.Args[0].N
			if k.Sign() < 0 {
				l, h = h, l
			}
			if l != nil {
				lo = new(big.Int).Mul(l, k)
			}
			if h != nil {
				hi = new(big.Int).Mul(h, k)
			}
			return
		}
	case "app":
		if t.Str == "strlen" {
			return new(big.Int), maxLen
		}
	}
	return nil, nil
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 56)

// bvBound is an upper bound for the unsigned value of a bit-vector term.
func bvBound(t *Term) *big.Int {
	switch t.Op {
	case "bv":
		return t.N
	case "zext":
		return bvBound(t.Args[0])
	case "bvand":
		a, b := bvBound(t.Args[0]), bvBound(t.Args[1])
		if a.Cmp(b) < 0 {
			return a
		}
		return b
	case "bvlshr":
		if t.Args[1].Op == "bv" && t.Args[1].N.IsInt64() && t.Args[1].N.Int64() < 1000 {
			return new(big.Int).Rsh(bvBound(t.Args[0]), uint(t.Args[1].N.Int64()))
		}
		return bvBound(t.Args[0])
	case "ite":
		a, b := bvBound(t.Args[1]), bvBound(t.Args[2])
		if a.Cmp(b) > 0 {
			return a
		}
		return b
	}
	return bvMask(t.S.Bits)
}

// ---- bit vectors ----

func signed(n *big.Int, bits int) *big.Int {
	if n.Bit(bits-1) == 1 {
		return new(big.Int).Sub(n, new(big.Int).Lsh(one, uint(bits)))
	}
	return n
}

func Bv(op string, a, b *Term) *Term {
	bits := a.S.Bits
	if b.S != a.S {
		panic(fmt.Sprintf("bv op %s sorts %s %s", op, a.S.Name, b.S.Name))
	}
	if a.Op == "bv" && b.Op == "bv" {
		r := new(big.Int)
		switch op {
		case "bvadd":
			return BvC(r.Add(a.N, b.N), bits)
		case "bvsub":
			return BvC(r.Sub(a.N, b.N), bits)
		case "bvmul":
			return BvC(r.Mul(a.N, b.N), bits)
		case "bvand":
			return BvC(r.And(a.N, b.N), bits)
		case "bvor":
			return BvC(r.Or(a.N, b.N), bits)
		case "bvxor":
			return BvC(r.Xor(a.N, b.N), bits)
		case "bvshl":
			if b.N.Cmp(big.NewInt(int64(bits))) >= 0 {
				return BvU(0, bits)
			}
			return BvC(r.Lsh(a.N, uint(b.N.Int64())), bits)
		case "bvlshr":
			if b.N.Cmp(big.NewInt(int64(bits))) >= 0 {
				return BvU(0, bits)
			}
			return BvC(r.Rsh(a.N, uint(b.N.Int64())), bits)
		case "bvudiv":
			if b.N.Sign() != 0 {
				return BvC(r.Div(a.N, b.N), bits)
			}
		case "bvurem":
			if b.N.Sign() != 0 {
				return BvC(r.Mod(a.N, b.N), bits)
			}
		}
	}
	zero := func(t *Term) bool { return t.Op == "bv" && t.N.Sign() == 0 }
	ones := func(t *Term) bool { return t.Op == "bv" && t.N.Cmp(bvMask(bits)) == 0 }
	switch op {
	case "bvadd", "bvor", "bvxor":
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if op == "bvor" && a == b {
			return a
		}
		// constant folding through nested adds
		if op == "bvadd" {
			if a.Op == "bv" {
				a, b = b, a
			}
			if b.Op == "bv" && a.Op == "bvadd" && a.Args[1].Op == "bv" {
				return Bv("bvadd", a.Args[0], Bv("bvadd", a.Args[1], b))
			}
		}
	case "bvsub":
		if zero(b) {
			return a
		}
		if a == b {
			return BvU(0, bits)
		}
		if b.Op == "bv" {
			return Bv("bvadd", a, BvC(new(big.Int).Neg(b.N), bits))
		}
	case "bvand":
		if zero(a) {
			return a
		}
		if zero(b) {
			return b
		}
		if ones(a) {
			return b
		}
		if ones(b) {
			return a
		}
		if a == b {
			return a
		}
		// x & (2^k-1) with x already bounded
		if b.Op == "bv" && isMask(b.N) && bvBound(a).Cmp(b.N) <= 0 {
			return a
		}
		if a.Op == "bv" && isMask(a.N) && bvBound(b).Cmp(a.N) <= 0 {
			return b
		}
	case "bvshl", "bvlshr":
		if zero(b) {
			return a
		}
		if zero(a) {
			return a
		}
		if b.Op == "bv" && b.N.Cmp(big.NewInt(int64(bits))) >= 0 {
			return BvU(0, bits)
		}
	case "bvmul":
		if zero(a) {
			return a
		}
		if zero(b) {
			return b
		}
		if a.Op == "bv" && a.N.Cmp(one) == 0 {
			return b
		}
		if b.Op == "bv" && b.N.Cmp(one) == 0 {
			return a
		}
	}
	switch op {
	case "bvmul", "bvand", "bvor", "bvxor":
		if (a.Op == "bv") != (b.Op == "bv") {
			if b.Op == "bv" {
				a, b = b, a
			}
		} else if a.Id > b.Id {
			a, b = b, a
		}
	case "bvadd":
		if b.Op != "bv" && a.Id > b.Id {
			a, b = b, a
		}
	}
	return mk(op, a.S, nil, "", a, b)
}

func isMask(n *big.Int) bool {
	m := new(big.Int).Add(n, one)
	return new(big.Int).And(m, n).Sign() == 0
}

func BvCmp(op string, a, b *Term) *Term { // bvult bvule bvslt bvsle
	if a.Op == "bv" && b.Op == "bv" {
		x, y := a.N, b.N
		if op == "bvslt" || op == "bvsle" {
			x, y = signed(x, a.S.Bits), signed(y, a.S.Bits)
		}
		c := x.Cmp(y)
		if op == "bvult" || op == "bvslt" {
			return B(c < 0)
		}
		return B(c <= 0)
	}
	if a == b {
		return B(op == "bvule" || op == "bvsle")
	}
	if op == "bvult" && b.Op == "bv" && b.N.Sign() == 0 {
		return False
	}
	if op == "bvule" && a.Op == "bv" && a.N.Sign() == 0 {
		return True
	}
	if (op == "bvule" && b.Op == "bv" && bvBound(a).Cmp(b.N) <= 0) || (op == "bvult" && b.Op == "bv" && bvBound(a).Cmp(b.N) < 0) {
		return True
	}
	return mk(op, SBool, nil, "", a, b)
}
func BvNot(a *Term) *Term {
	if a.Op == "bv" {
		return BvC(new(big.Int).Xor(a.N, bvMask(a.S.Bits)), a.S.Bits)
	}
	if a.Op == "bvnot" {
		return a.Args[0]
	}
	return mk("bvnot", a.S, nil, "", a)
}
func BvNeg(a *Term) *Term { return Bv("bvsub", BvU(0, a.S.Bits), a) }

func Extract(hi, lo int, a *Term) *Term {
	if lo == 0 && hi == a.S.Bits-1 {
		return a
	}
	if a.Op == "bv" {
		return BvC(new(big.Int).Rsh(a.N, uint(lo)), hi-lo+1)
	}
	switch a.Op {
	case "zext":
		w := a.Args[0].S.Bits
		if hi < w {
			return Extract(hi, lo, a.Args[0])
		}
		if lo >= w {
			return BvU(0, hi-lo+1)
		}
		return ZExt(Extract(w-1, lo, a.Args[0]), hi-lo+1)
	case "extract":
		l0 := int(a.N.Int64() & 0xffff)
		return Extract(hi+l0, lo+l0, a.Args[0])
	case "concat":
		w := a.Args[1].S.Bits
		if hi < w {
			return Extract(hi, lo, a.Args[1])
		}
		if lo >= w {
			return Extract(hi-w, lo-w, a.Args[0])
		}
		return Concat(Extract(hi-w, 0, a.Args[0]), Extract(w-1, lo, a.Args[1]))
	case "ite":
		if a.Args[1].IsConst() && a.Args[2].IsConst() {
			return Ite(a.Args[0], Extract(hi, lo, a.Args[1]), Extract(hi, lo, a.Args[2]))
		}
	case "bvlshr":
		if a.Args[1].Op == "bv" {
			s := int(a.Args[1].N.Int64())
			if hi+s < a.S.Bits {
				return Extract(hi+s, lo+s, a.Args[0])
			}
		}
	case "bvshl":
		if a.Args[1].Op == "bv" {
			s := int(a.Args[1].N.Int64())
			if lo >= s {
				return Extract(hi-s, lo-s, a.Args[0])
			}
			if hi < s {
				return BvU(0, hi-lo+1)
			}
		}
	case "bvand", "bvor", "bvxor":
		return Bv(a.Op, Extract(hi, lo, a.Args[0]), Extract(hi, lo, a.Args[1]))
	}
	return mk("extract", BV(hi-lo+1), big.NewInt(int64(hi)<<16|int64(lo)), "", a)
}

func Concat(a, b *Term) *Term { // a high, b low
	if a.Op == "bv" && b.Op == "bv" {
		r := new(big.Int).Lsh(a.N, uint(b.S.Bits))
		return BvC(r.Or(r, b.N), a.S.Bits+b.S.Bits)
	}
	if a.Op == "extract" && b.Op == "extract" && a.Args[0] == b.Args[0] {
		ahi, alo := int(a.N.Int64()>>16), int(a.N.Int64()&0xffff)
		bhi, blo := int(b.N.Int64()>>16), int(b.N.Int64()&0xffff)
		if alo == bhi+1 {
			return Extract(ahi, blo, a.Args[0])
		}
	}
	if a.Op == "bv" && a.N.Sign() == 0 {
		return ZExt(b, a.S.Bits+b.S.Bits)
	}
	// right-associate merging: concat(concat(x,y),z)
	if a.Op == "concat" {
		m := Concat(a.Args[1], b)
		if m.Op != "concat" {
			return Concat(a.Args[0], m)
		}
	}
	if b.Op == "concat" {
		m := Concat(a, b.Args[0])
		if m.Op != "concat" {
			return Concat(m, b.Args[1])
		}
	}
	return mk("concat", BV(a.S.Bits+b.S.Bits), nil, "", a, b)
}

func ZExt(a *Term, bits int) *Term {
	if a.S.Bits == bits {
		return a
	}
	if a.S.Bits > bits {
		return Extract(bits-1, 0, a)
	}
	if a.Op == "bv" {
		return BvC(a.N, bits)
	}
	if a.Op == "zext" {
		return ZExt(a.Args[0], bits)
	}
	return mk("zext", BV(bits), big.NewInt(int64(bits-a.S.Bits)), "", a)
}
func SExt(a *Term, bits int) *Term {
	if a.S.Bits == bits {
		return a
	}
	if a.S.Bits > bits {
		return Extract(bits-1, 0, a)
	}
	if a.Op == "bv" {
		return BvC(signed(a.N, a.S.Bits), bits)
	}
	return mk("sext", BV(bits), big.NewInt(int64(bits-a.S.Bits)), "", a)
}

// Bv2Int is the unsigned value.
func Bv2Int(a *Term) *Term {
	switch a.Op {
	case "bv":
		return IntB(a.N)
	case "zext":
		return Bv2Int(a.Args[0])
	case "ite":
		if a.Args[1].IsConst() || a.Args[2].IsConst() {
			return Ite(a.Args[0], Bv2Int(a.Args[1]), Bv2Int(a.Args[2]))
		}
	case "int2bv":
		x := a.Args[0]
		return Mod(x, IntB(new(big.Int).Lsh(one, uint(a.S.Bits))))
	case "bvadd":
		// x + c: one case distinction instead of a modulus
		if len(a.Args) == 2 && (a.Args[0].Op == "bv") != (a.Args[1].Op == "bv") {
			c, y := a.Args[0], a.Args[1]
			if y.Op == "bv" {
				c, y = y, c
			}
			m := new(big.Int).Lsh(one, uint(a.S.Bits))
			if y.Op == "int2bv" {
				return Mod(Add(y.Args[0], IntB(c.N)), IntB(m))
			}
			s := Add(Bv2Int(y), IntB(c.N))
			return Ite(Lt(s, IntB(m)), s, Sub(s, IntB(m)))
		}
	}
	return mk("bv2int", SInt, nil, "", a)
}

// Int2Bv is x mod 2^bits.
func Int2Bv(x *Term, bits int) *Term {
	if x.Op == "int" {
		return BvC(x.N, bits)
	}
	if x.Op == "bv2int" {
		return ZExt(x.Args[0], bits)
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], Int2Bv(x.Args[1], bits), Int2Bv(x.Args[2], bits))
	}
	lo, hi := rng(x)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(15)) <= 0 {
		n := int(hi.Int64())
		r := BvU(uint64(n), bits)
		for i := n - 1; i >= int(lo.Int64()); i-- {
			r = Ite(Eq(x, IntC(int64(i))), BvU(uint64(i), bits), r)
		}
		return r
	}
	if bits == 64 && (x.Op == "+" || x.Op == "-") {
		l := newLin()
		l.add(x, one)
		if l.c.Sign() != 0 && len(l.m) > 0 {
			c := new(big.Int).Mod(l.c, pow2(64))
			return Bv("bvadd", Int2Bv(Sub(x, IntB(l.c)), 64), BvC(c, 64))
		}
	}
	return mk("int2bv", BV(bits), big.NewInt(int64(bits)), "", x)
}

// ---- arrays ----

func Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case "store":
			e := Eq(a.Args[1], i)
			if e == True {
				return a.Args[2]
			}
			if e == False {
				a = a.Args[0]
				continue
			}
			if a.S.Elem.Kind != "Array" && i.S == SInt && selDepth < 0 {
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			// keep ite on arrays opaque unless cheap
			if a.Args[1].Op == "constarr" || a.Args[2].Op == "constarr" {
				return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
			}
		}
		break
	}
	return mk("select", a.S.Elem, nil, "", a, i)
}

var selDepth = 0

func Store(a, i, v *Term) *Term {
	if v.S != a.S.Elem {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.S.Name, a.S.Name))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.S, nil, "", a, i, v)
}
func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", s, nil, "", v) }

// ---- quantifiers ----

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", vars, body, pats)
}

func quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var used []*Term
	for _, v := range vars {
		if body.fb[v.Id] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	// alpha-rename to canonical bound variables so that syntactically equal quantifiers are shared
	sub := map[*Term]*Term{}
	var cv []*Term
	for k, v := range used {
		nm := fmt.Sprintf("q%d_%d", quantDepth(body), k)
		c := mk("bvar", v.S, nil, nm)
		sub[v] = c
		cv = append(cv, c)
	}
	body = Subst(body, sub)
	var np [][]*Term
	for _, p := range pats {
		var q []*Term
		for _, t := range p {
			q = append(q, Subst(t, sub))
		}
		np = append(np, q)
	}
	key := ""
	for _, p := range np {
		for _, t := range p {
			key += fmt.Sprintf(",%d", t.Id)
		}
		key += ";"
	}
	args := append([]*Term{}, cv...)
	args = append(args, body)
	t := mk(op, SBool, nil, key, args...)
	t.Vars = cv
	t.Pats = np
	t.fb = map[int]bool{}
	for x := range body.fb {
		t.fb[x] = true
	}
	for _, v := range cv {
		delete(t.fb, v.Id)
	}
	return t
}

var qdCache = map[int]int{}

func quantDepth(t *Term) int {
	if d, ok := qdCache[t.Id]; ok {
		return d
	}
	d := 0
	for _, a := range t.Args {
		if x := quantDepth(a); x > d {
			d = x
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		d++
	}
	qdCache[t.Id] = d
	return d
}

// Subst replaces terms (typically variables) and re-simplifies.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[int]*Term{}
	return subst(t, m, cache)
}

func subst(t *Term, m map[*Term]*Term, cache map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := cache[t.Id]; ok {
		return r
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, cache)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args, m, cache)
	}
	cache[t.Id] = r
	return r
}

func rebuild(t *Term, a []*Term, m map[*Term]*Term, cache map[int]*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		r := a[0]
		for _, x := range a[1:] {
			r = Mul(r, x)
		}
		return r
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "extract":
		return Extract(int(t.N.Int64()>>16), int(t.N.Int64()&0xffff), a[0])
	case "concat":
		return Concat(a[0], a[1])
	case "zext":
		return ZExt(a[0], t.S.Bits)
	case "sext":
		return SExt(a[0], t.S.Bits)
	case "bv2int":
		return Bv2Int(a[0])
	case "int2bv":
		return Int2Bv(a[0], t.S.Bits)
	case "bvnot":
		return BvNot(a[0])
	case "bvult", "bvule", "bvslt", "bvsle":
		return BvCmp(t.Op, a[0], a[1])
	case "app":
		return App(t.Str, t.S, a...)
	case "forall", "exists":
		n := len(t.Vars)
		var np [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, subst(x, m, cache))
			}
			np = append(np, q)
		}
		return quant(t.Op, a[:n], a[n], np)
	}
	if strings.HasPrefix(t.Op, "bv") && len(a) == 2 {
		return Bv(t.Op, a[0], a[1])
	}
	return mk(t.Op, t.S, t.N, t.Str, a...)
}

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	writeTerm(&sb, t, nil)
	s := sb.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func sym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$') {
			return "|" + strings.ReplaceAll(s, "|", "/") + "|"
		}
	}
	return s
}

// absConv: conversions between wide machine words and integers are written as uninterpreted functions.
var absConv bool

func writeTerm(sb *strings.Builder, t *Term, names map[int]string) {
	if names != nil {
		if n, ok := names[t.Id]; ok {
			sb.WriteString(n)
			return
		}
	}
	w := func(head string, args ...*Term) {
		sb.WriteByte('(')
		sb.WriteString(head)
		for _, a := range args {
			sb.WriteByte(' ')
			writeTerm(sb, a, names)
		}
		sb.WriteByte(')')
	}
	switch t.Op {
	case "true", "false":
		sb.WriteString(t.Op)
	case "int":
		if t.N.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.N).String() + ")")
		} else {
			sb.WriteString(t.N.String())
		}
	case "realc":
		sb.WriteString(t.Str)
	case "bv":
		fmt.Fprintf(sb, "(_ bv%s %d)", t.N.String(), t.S.Bits)
	case "f64c":
		fmt.Fprintf(sb, "(_ bv%s 64)", t.N.String())
	case "var", "bvar":
		sb.WriteString(sym(t.Str))
	case "app":
		if len(t.Args) == 0 {
			sb.WriteString(sym(t.Str))
			return
		}
		if (t.Str == "f2bits" || t.Str == "bits2f") && (t.S == SF64 || t.Args[0].S == SF64) {
			writeTerm(sb, t.Args[0], names)
			return
		}
		w(sym(t.Str), t.Args...)
	case "extract":
		w(fmt.Sprintf("(_ extract %d %d)", t.N.Int64()>>16, t.N.Int64()&0xffff), t.Args...)
	case "zext":
		w(fmt.Sprintf("(_ zero_extend %d)", t.N.Int64()), t.Args...)
	case "sext":
		w(fmt.Sprintf("(_ sign_extend %d)", t.N.Int64()), t.Args...)
	case "bv2int":
		if absConv && t.Args[0].S.Bits >= 32 {
			w(fmt.Sprintf("b2i%d", t.Args[0].S.Bits), t.Args...)
			return
		}
		w("bv2nat", t.Args...)
	case "int2bv":
		if absConv && t.S.Bits >= 32 {
			w(fmt.Sprintf("i2b%d", t.S.Bits), t.Args...)
			return
		}
		w(fmt.Sprintf("(_ int2bv %d)", t.N.Int64()), t.Args...)
	case "constarr":
		w(fmt.Sprintf("(as const %s)", t.S.Name), t.Args...)
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(sb, "(%s %s)", sym(v.Str), v.S.Name)
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.Args[len(t.Args)-1], names)
		for _, p := range t.Pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				writeTerm(sb, x, names)
			}
			sb.WriteString(")")
		}
		if len(t.Pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		w(t.Op, t.Args...)
	}
}

// walk visits every distinct subterm once.
func walk(seen map[int]bool, t *Term, f func(*Term)) {
	if seen[t.Id] {
		return
	}
	seen[t.Id] = true
	for _, a := range t.Args {
		walk(seen, a, f)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			walk(seen, x, f)
		}
	}
	f(t)
}
