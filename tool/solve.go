package main

// From obligations to SMT-LIB scripts, and the solver pool.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type script struct {
	text   string
	alt    string // weaker version: a refutation counts, a model does not
	inputs []NamedTerm
	vals   []string
}

func rawApp(name string, s *Sort, args ...*Term) *Term { return mk("app", s, nil, name, args...) }

// closure of the facts needed to interpret the symbols of a query
type query struct {
	x           *Exec
	terms       []*Term // assertions
	seen        map[int]bool
	inSet       map[*Term]bool
	byFn        map[string][]*Term
	depth       map[*Term]int
	eqStr       [][2]*Term
	b2i         map[*Term]bool
	bvCmp       []*Term
	i2bAdd, i2b []*Term
	vars        []*Term
	sorts       map[string]bool
	done        map[string]bool
	q           []*Term
	fuel        int
	opens       []*Term
}

func (q *query) assert(t *Term, depth int) {
	if t == True || t.Op == "forall" && t.Args[len(t.Args)-1] == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			q.assert(a, depth)
		}
		return
	}
	if q.inSet[t] {
		return
	}
	q.inSet[t] = true
	q.terms = append(q.terms, t)
	q.scan(t, depth)
	if t.Op == "forall" && len(t.Vars) == 1 && t.Vars[0].S == SInt {
		for _, v := range shifted(t) {
			q.assert(v, depth)
		}
	}
}

// shifted restates a quantified fact about a[v+k] as one about a[v], which solvers instantiate more readily.
func shifted(t *Term) []*Term {
	v := t.Vars[0]
	body := t.Args[1]
	var out []*Term
	seen := map[*Term]bool{}
	walk(map[int]bool{}, body, func(s *Term) {
		if s.Op != "select" || len(out) >= 4 || s.Args[0].fb[v.Id] || s.Args[1].S != SInt || len(s.Args[0].fb) > 0 {
			return
		}
		l := newLin()
		l.add(s.Args[1], one)
		c, ok := l.m[v]
		if !ok || c.Cmp(one) != 0 {
			return
		}
		delete(l.m, v)
		k := l.term()
		if k.Op == "int" && k.N.Sign() == 0 || k.fb[v.Id] || len(k.fb) > 0 || seen[k] {
			return
		}
		seen[k] = true
		w := BVar("s!i", SInt)
		nb := Subst(body, map[*Term]*Term{v: Sub(w, k)})
		out = append(out, Forall([]*Term{w}, nb, []*Term{Select(s.Args[0], w)}))
	})
	return out
}

func (q *query) scan(t *Term, depth int) {
	walk(q.seen, t, func(s *Term) {
		switch s.Op {
		case "var":
			q.vars = append(q.vars, s)
		case "app":
			q.byFn[s.Str] = append(q.byFn[s.Str], s)
			q.depth[s] = depth
			q.q = append(q.q, s)
		case "bv2int":
			if len(s.fb) == 0 {
				q.b2i[s.Args[0]] = true
			}
		case "bvadd":
			if len(s.fb) == 0 && s.S.Bits == 64 && len(s.Args) == 2 && (s.Args[0].Op == "int2bv" || s.Args[1].Op == "int2bv") {
				q.i2bAdd = append(q.i2bAdd, s)
			}
		case "int2bv":
			if len(s.fb) == 0 && s.S.Bits == 64 {
				q.i2b = append(q.i2b, s)
			}
		case "bvult", "bvule":
			if len(s.fb) == 0 {
				q.bvCmp = append(q.bvCmp, s)
			}
		case "=":
			if s.Args[0].S.Kind == "BV" && len(s.fb) == 0 {
				q.bvCmp = append(q.bvCmp, s)
			}
			if s.Args[0].S == SStr && len(s.fb) == 0 {
				q.eqStr = append(q.eqStr, [2]*Term{s.Args[0], s.Args[1]})
			}
		}
	})
}

func buildScript(x *Exec, hyps []*Term, goal *Term, inputs []NamedTerm, extra []*Term) *script {
	fuel := 2
	if x.ctr != nil && x.ctr.Fuel > 0 {
		fuel = x.ctr.Fuel
	}
	if x.lemma != nil && x.lemma.Fuel > 0 {
		fuel = x.lemma.Fuel
	}
	q := &query{x: x, seen: map[int]bool{}, inSet: map[*Term]bool{}, byFn: map[string][]*Term{}, depth: map[*Term]int{}, sorts: map[string]bool{}, done: map[string]bool{}, b2i: map[*Term]bool{}, fuel: fuel}
	for _, h := range hyps {
		q.assert(h, 0)
	}
	n := 0
	q.assert(Not(skolem(goal, &n)), 0)
	for _, e := range extra {
		q.scan(e, 0)
	}
	for _, l := range x.lemmaAxioms() {
		q.assert(l, 0)
	}
	q.saturate()
	sc := &script{text: q.emit(inputs), inputs: inputs}
	if strings.Contains(sc.text, "(bv2nat ") || strings.Contains(sc.text, "(_ int2bv 64)") {
		absConv = true
		sc.alt = q.emit(nil)
		absConv = false
		var ax strings.Builder
		for _, n := range []int{32, 64} {
			if !strings.Contains(sc.alt, fmt.Sprintf("(b2i%d ", n)) && !strings.Contains(sc.alt, fmt.Sprintf("(i2b%d ", n)) {
				continue
			}
			m := new(big.Int).Lsh(one, uint(n)).String()
			fmt.Fprintf(&ax, "(declare-fun b2i%[1]d ((_ BitVec %[1]d)) Int)\n(declare-fun i2b%[1]d (Int) (_ BitVec %[1]d))\n", n)
			fmt.Fprintf(&ax, "(assert (forall ((x (_ BitVec %[1]d))) (! (and (<= 0 (b2i%[1]d x)) (< (b2i%[1]d x) %[2]s) (= (i2b%[1]d (b2i%[1]d x)) x)) :pattern ((b2i%[1]d x)))))\n", n, m)
			fmt.Fprintf(&ax, "(assert (forall ((x Int)) (! (and (= (b2i%[1]d (i2b%[1]d x)) (mod x %[2]s)) (=> (and (<= 0 x) (< x %[2]s)) (= (b2i%[1]d (i2b%[1]d x)) x))) :pattern ((i2b%[1]d x)))))\n", n, m)
		}
		if ax.Len() == 0 {
			sc.alt = ""
		} else {
			i := strings.Index(sc.alt, "(define-sort F64")
			sc.alt = sc.alt[:i] + ax.String() + sc.alt[i:]
		}
	}
	return sc
}

// skolem replaces the universally quantified variables of a goal by constants, so that
// definitions unfold at them.
func skolem(t *Term, n *int) *Term {
	switch t.Op {
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range t.Vars {
			*n++
			m[v] = freshVar(fmt.Sprintf("sk!%d!%s%d", *n, v.S.Name, v.S.Bits), v.S)
		}
		return skolem(Subst(t.Args[len(t.Args)-1], m), n)
	case "and":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, skolem(a, n))
		}
		return And(as...)
	case "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, skolem(a, n))
		}
		return Or(as...)
	case "=>":
		return Imp(t.Args[0], skolem(t.Args[1], n))
	}
	return t
}

func (q *query) once(k string) bool {
	if q.done[k] {
		return false
	}
	q.done[k] = true
	return true
}

func (q *query) saturate() {
	for round := 0; round < 12; round++ {
		n := len(q.terms)
		for len(q.q) > 0 {
			t := q.q[0]
			q.q = q.q[1:]
			q.axioms(t)
		}
		q.pairAxioms()
		q.linkAxioms()
		if len(q.terms) == n && len(q.q) == 0 {
			break
		}
	}
}

func (q *query) axioms(t *Term) {
	x := q.x
	d := q.depth[t]
	if len(t.fb) > 0 {
		return
	}
	i := BVar("i", SInt)
	switch t.Str {
	case "strlen":
		q.assert(mk("<=", SBool, nil, "", IntC(0), t), d)
		q.assert(mk("<=", SBool, nil, "", t, IntB(maxLen)), d)
		return
	case "mkstr":
		q.assert(Imp(Le(IntC(0), t.Args[2]), mk("=", SBool, nil, "", rawApp("strlen", SInt, t), t.Args[2])), d)
		at := rawApp("strat", BV(8), t, i)
		body := Ite(And(Le(IntC(0), i), Lt(i, t.Args[2])), Select(t.Args[0], Add(t.Args[1], i)), BvU(0, 8))
		q.assert(Forall([]*Term{i}, Eq(at, body), []*Term{at}), d)
		return
	case "str2arr":
		s := t.Args[0]
		sel := Select(t, i)
		q.assert(Forall([]*Term{i}, Imp(And(Le(IntC(0), i), Lt(i, StrLen(s))), Eq(sel, StrAt(s, i))), []*Term{sel}), d)
		return
	case "strcat":
		a, b := t.Args[0], t.Args[1]
		q.assert(Eq(rawApp("strlen", SInt, t), Add(StrLen(a), StrLen(b))), d)
		at := rawApp("strat", BV(8), t, i)
		q.assert(Forall([]*Term{i}, Eq(at, Ite(Lt(i, StrLen(a)), StrAt(a, i), StrAt(b, Sub(i, StrLen(a))))), []*Term{at}), d)
		return
	case "bvurem64":
		z := BvU(0, t.S.Bits)
		q.assert(Imp(Not(Eq(t.Args[1], z)), BvCmp("bvult", t, t.Args[1])), d)
		q.assert(Imp(BvCmp("bvult", t.Args[0], t.Args[1]), Eq(t, t.Args[0])), d)
		b := bv2IntDeep(t.Args[1])
		q.assert(Imp(Lt(IntC(0), b), Lt(Bv2Int(t), b)), d)
		return
	case "i2f", "u2f":
		q.assert(mk("fpeq", SBool, nil, "", t, t), d)
		return
	case "pow2":
		q.assert(mk("<", SBool, nil, "", IntC(0), t), d)
		return
	case "f2bits":
		if t.Args[0].S == SReal {
			q.assert(Eq(rawApp("bits2f", SReal, t), t.Args[0]), d)
		}
		return
	case "bits2f":
		return
	case "in!len":
		q.assert(mk("<=", SBool, nil, "", IntC(0), t), d)
		q.assert(mk("<=", SBool, nil, "", t, IntB(maxLen)), d)
		return
	}
	switch {
	case strings.HasPrefix(t.Str, "mkifc!"):
		if T, ok := x.ifcTypes[t.Str]; ok {
			q.assert(Eq(rawApp("ifctag", SInt, t), tagId(T)), d)
		}
		for k, a := range t.Args {
			q.assert(Eq(rawApp(fmt.Sprintf("inv!%s!%d", t.Str, k), a.S, t), a), d)
		}
		return
	case strings.HasPrefix(t.Str, "clo!"):
		q.assert(Eq(rawApp("clotag", SInt, t), IntC(cloId(t.Str))), d)
		for k, a := range t.Args {
			q.assert(Eq(rawApp(fmt.Sprintf("inv!%s!%d", t.Str, k), a.S, t), a), d)
		}
		q.assert(Not(Eq(t, Var("nil!fn", SFn))), d)
		return
	case strings.HasPrefix(t.Str, "arrbase!"):
		q.assert(Lt(t, IntB(new(big.Int).Neg(pow2(80)))), d)
		q.assert(Eq(rawApp("arrtag", SInt, t), IntC(cloId(t.Str))), d)
		q.assert(Eq(rawApp("arrinv0", SInt, t), t.Args[0]), d)
		q.assert(Eq(rawApp("arrinv1", SInt, t), t.Args[1]), d)
		return
	}
	if f := x.spec.Fns[t.Str]; f != nil && f.Body != nil && f.Rec {
		if d >= q.fuel+20 {
			return
		}
		body := x.fnBody(f, t.Args)
		nd := d + 1
		if x.fnDecided(f, t.Args) {
			nd = d // the recursion was decided by constants
			if len(q.terms) > 4000 {
				return
			}
		} else if d >= q.fuel {
			return
		}
		q.assert(mkEq(t, body), nd)
	}
}

func bv2IntDeep(t *Term) *Term {
	if t.Op == "ite" {
		return Ite(t.Args[0], bv2IntDeep(t.Args[1]), bv2IntDeep(t.Args[2]))
	}
	return Bv2Int(t)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	return mk("=", SBool, nil, "", a, b)
}

var cloIds = map[string]int64{}

func cloId(s string) int64 {
	if v, ok := cloIds[s]; ok {
		return v
	}
	v := int64(len(cloIds) + 1)
	cloIds[s] = v
	return v
}

// linkAxioms: comparisons of machine words whose integer values matter, restated over those.
func (q *query) linkAxioms() {
	// int2bv(x) + c is int2bv(x+c): the form in which equal integers give equal words
	if len(q.i2b) > 1 {
		as := q.i2bAdd
		q.i2bAdd = nil
		for _, s := range as {
			a, c := s.Args[0], s.Args[1]
			if a.Op != "int2bv" {
				a, c = c, a
			}
			if c.Op != "bv" {
				continue
			}
			k := new(big.Int).Set(c.N)
			if k.Bit(63) == 1 {
				k.Sub(k, pow2(64))
			}
			q.assert(mk("=", SBool, nil, "", s, mk("int2bv", BV(64), big.NewInt(64), "", Add(a.Args[0], IntB(k)))), 0)
		}
	}
	has := func(t *Term) bool { return t.Op == "bv" || q.b2i[t] }
	for _, c := range q.bvCmp {
		a, b := c.Args[0], c.Args[1]
		if a.Op == "bv" && b.Op == "bv" || !has(a) || !has(b) || !q.once(fmt.Sprintf("link%d", c.Id)) {
			continue
		}
		ia, ib := Bv2Int(a), Bv2Int(b)
		switch c.Op {
		case "bvult":
			q.assert(mk("=", SBool, nil, "", c, Lt(ia, ib)), 0)
		case "bvule":
			q.assert(mk("=", SBool, nil, "", c, Le(ia, ib)), 0)
		case "=":
			q.assert(mk("=", SBool, nil, "", c, Eq(ia, ib)), 0)
		}
	}
}

// pairAxioms: extensionality of byte sequences, for pairs that matter.
func (q *query) pairAxioms() {
	if q.x != nil && q.x.ctr != nil && q.x.ctr.NoExt {
		return
	}
	type pr struct{ a, b *Term }
	var pairs []pr
	add := func(a, b *Term) {
		if a == b || len(a.fb) > 0 || len(b.fb) > 0 {
			return
		}
		if a.Id > b.Id {
			a, b = b, a
		}
		if q.once(fmt.Sprintf("ext%d,%d", a.Id, b.Id)) {
			pairs = append(pairs, pr{a, b})
		}
	}
	for _, e := range q.eqStr {
		add(e[0], e[1])
		// the bytes of a sequence that may equal a piece of memory
		m, o := e[0], e[1]
		if o.Op == "app" && o.Str == "mkstr" {
			m, o = o, m
		}
		if m.Op == "app" && m.Str == "mkstr" && o.Op == "app" && o.Str != "mkstr" && len(m.fb) == 0 && len(o.fb) == 0 && q.once(fmt.Sprintf("mem%d,%d", m.Id, o.Id)) {
			i := BVar("i", SInt)
			at := StrAt(o, i)
			if at.Op != "app" {
				sel := Select(m.Args[0], i)
				q.assert(Imp(mkEq(m, o), Forall([]*Term{i}, Imp(And(Le(m.Args[1], i), Lt(i, Add(m.Args[1], m.Args[2]))), Eq(sel, StrAt(o, Sub(i, m.Args[1])))), []*Term{sel})), 1)
			} else {
				q.assert(Imp(mkEq(m, o), Forall([]*Term{i}, Imp(And(Le(IntC(0), i), Lt(i, m.Args[2])), Eq(at, Select(m.Args[0], Add(m.Args[1], i)))), []*Term{at})), 1)
			}
		}
	}
	q.eqStr = nil
	var fns []string
	for f := range q.byFn {
		switch f {
		case "strlen", "strat", "mkstr", "str2arr", "strcat":
			continue
		}
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, f := range fns {
		as := q.byFn[f]
		if len(as) < 2 {
			continue
		}
		for k, a := range as[0].Args {
			if a.S != SStr {
				continue
			}
			set := map[*Term]bool{}
			var ord []*Term
			for _, t := range as {
				if len(t.Args[k].fb) == 0 && !set[t.Args[k]] {
					set[t.Args[k]] = true
					ord = append(ord, t.Args[k])
				}
			}
			if len(ord) > 7 {
				ord = ord[:7]
			}
			for i := range ord {
				for j := 0; j < i; j++ {
					add(ord[i], ord[j])
				}
			}
		}
	}
	for _, p := range pairs {
		if _, ok := litText[p.a]; ok {
			if _, ok := litText[p.b]; ok {
				continue
			}
		}
		d := Var(fmt.Sprintf("diff!%d!%d", p.a.Id, p.b.Id), SInt)
		eq := mk("=", SBool, nil, "", p.a, p.b)
		q.assert(Or(eq, Not(Eq(StrLen(p.a), StrLen(p.b))), And(Le(IntC(0), d), Lt(d, StrLen(p.a)), Not(Eq(StrAt(p.a, d), StrAt(p.b, d))))), 1)
	}
}

func (q *query) emit(inputs []NamedTerm) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	sb.WriteString("(define-sort F64 () (_ BitVec 64))\n(declare-sort Str 0)\n(declare-sort Fn 0)\n(declare-sort Ifc 0)\n(declare-sort HeapTok 0)\n")
	var us []string
	for n := range userSorts {
		us = append(us, n)
	}
	sort.Strings(us)
	for _, n := range us {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", n)
	}
	sb.WriteString("(define-fun fpof ((x F64)) (_ FloatingPoint 11 53) ((_ to_fp 11 53) x))\n")
	sb.WriteString("(define-fun fpeq ((x F64) (y F64)) Bool (fp.eq (fpof x) (fpof y)))\n")
	sb.WriteString("(define-fun fplt ((x F64) (y F64)) Bool (fp.lt (fpof x) (fpof y)))\n")
	sb.WriteString("(define-fun fple ((x F64) (y F64)) Bool (fp.leq (fpof x) (fpof y)))\n")
	// declarations
	seen := map[int]bool{}
	var vars []*Term
	fns := map[string]*Term{}
	var fnOrd []string
	refs := map[int]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t.Id]++
		if seen[t.Id] {
			return
		}
		seen[t.Id] = true
		for _, a := range t.Args {
			visit(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				visit(a)
			}
		}
		switch t.Op {
		case "var":
			vars = append(vars, t)
		case "app":
			if _, ok := fns[t.Str]; !ok {
				fns[t.Str] = t
				fnOrd = append(fnOrd, t.Str)
			}
		}
		order = append(order, t)
	}
	for _, t := range q.terms {
		visit(t)
	}
	var in []NamedTerm
	for _, n := range inputs {
		ok := true
		walk(map[int]bool{}, n.T, func(s *Term) {
			if s.Op == "var" && !seen[s.Id] || s.Op == "app" && fns[s.Str] == nil {
				ok = false
			}
		})
		if ok {
			in = append(in, n)
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].Str < vars[j].Str })
	var lits, errs []string
	for _, v := range vars {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", sym(v.Str), v.S.Name)
		if r, ok := varRange[v]; ok {
			if r[0] != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", intLit(r[0]), sym(v.Str))
			}
			if r[1] != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", sym(v.Str), intLit(r[1]))
			}
		}
		if _, ok := litText[v]; ok {
			lits = append(lits, v.Str)
		}
		if strings.HasPrefix(v.Str, "err!") || v.Str == "nil!ifc" {
			errs = append(errs, v.Str)
		}
	}
	sort.Strings(fnOrd)
	for _, f := range fnOrd {
		t := fns[f]
		switch f {
		case "f2bits", "bits2f":
			if t.S == SF64 || t.Args[0].S == SF64 {
				continue // floats are represented by their bits
			}
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, a.S.Name)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", sym(f), strings.Join(as, " "), t.S.Name)
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range lits {
			sb.WriteString(" " + sym(l))
		}
		sb.WriteString("))\n")
	}
	if len(errs) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range errs {
			sb.WriteString(" " + sym(l))
		}
		sb.WriteString("))\n")
	}
	if fns["ifctag"] != nil {
		for i, e := range errs {
			v := -int64(i) - 1
			if e == "nil!ifc" {
				v = 0
			}
			fmt.Fprintf(&sb, "(assert (= (ifctag %s) %s))\n", sym(e), intLit(big.NewInt(v)))
		}
	}
	for _, l := range lits {
		t := litTab[litText[Var(l, SStr)]]
		s := litText[t]
		if fns["strlen"] != nil {
			fmt.Fprintf(&sb, "(assert (= (strlen %s) %d))\n", sym(l), len(s))
		}
		if fns["strat"] != nil {
			for i := 0; i < len(s); i++ {
				fmt.Fprintf(&sb, "(assert (= (strat %s %d) (_ bv%d 8)))\n", sym(l), i, s[i])
			}
			fmt.Fprintf(&sb, "(assert (forall ((i Int)) (! (=> (or (< i 0) (<= %d i)) (= (strat %s i) (_ bv0 8))) :pattern ((strat %s i)))))\n", len(s), sym(l), sym(l))
		}
	}
	for _, n := range []string{"fadd", "fmul"} {
		if fns[n] != nil {
			fmt.Fprintf(&sb, "(assert (forall ((x F64) (y F64)) (! (= (%[1]s x y) (%[1]s y x)) :pattern ((%[1]s x y)))))\n", n)
		}
	}
	// shared subterms
	names := map[int]string{}
	for _, t := range order {
		if len(t.Args) == 0 || len(t.fb) > 0 || t.Op == "forall" || t.Op == "exists" {
			continue
		}
		if refs[t.Id] > 1 {
			n := "t!" + strconv.Itoa(t.Id)
			var b strings.Builder
			writeTerm(&b, t, names)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S.Name, b.String())
			names[t.Id] = n
		}
	}
	for _, t := range q.terms {
		sb.WriteString("(assert ")
		writeTerm(&sb, t, names)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(in) > 0 {
		sb.WriteString("(get-value (")
		for _, n := range in {
			writeTerm(&sb, n.T, nil)
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func intLit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

// ---- solver pool ----

type solveRes struct {
	status string // unsat sat unknown
	solver string
	ms     int64
	model  string
}

var procSem = make(chan struct{}, 8)
var jobFd [2]*os.File

// acquire a solver slot: from the parent's pipe when run by a check, else a local one.
func acquire() {
	if os.Getenv("GOV_JOBS") != "" {
		errMu.Lock()
		if jobFd[0] == nil {
			jobFd[0], jobFd[1] = os.NewFile(3, "jobs-r"), os.NewFile(4, "jobs-w")
		}
		errMu.Unlock()
		var b [1]byte
		jobFd[0].Read(b[:])
		return
	}
	procSem <- struct{}{}
}

func release() {
	if os.Getenv("GOV_JOBS") != "" {
		jobFd[1].Write([]byte{1})
		return
	}
	<-procSem
}

var resCache sync.Map

type cachedRes struct {
	solveRes
	quick, full int
}

var deadline = func() time.Time {
	if n, err := strconv.ParseInt(os.Getenv("GOV_DEADLINE"), 10, 64); err == nil {
		return time.Unix(n, 0)
	}
	return time.Now().Add(1000 * time.Hour)
}()

var hopeless atomic.Int32 // obligations of this unit that no solver could discharge in full time

// stopped: the time given to this worker is over, or enough has failed already.
func stopped() bool {
	if time.Now().After(deadline) || hopeless.Load() >= 6 {
		return true
	}
	if f := os.Getenv("GOV_STOP"); f != "" {
		if _, err := os.Stat(f); err == nil {
			return true
		}
	}
	return false
}

type solverCmd struct {
	name string
	args []string
}

func solverCmds(sec int) []solverCmd {
	return []solverCmd{
		{"z3 5.3.2", []string{"z3-new", "-in", "-T:" + strconv.Itoa(sec)}},
		{"cvc5 1.1.2", []string{"cvc5", "--lang=smt2", "--tlimit=" + strconv.Itoa(sec*1000), "--fp-exp"}},
		{"z3 4.8.12", []string{"z3", "-in", "-T:" + strconv.Itoa(sec)}},
	}
}

// inflight: solver runs not over yet. A worker waits for them before it ends, or their job tokens are lost.
var inflight sync.WaitGroup

func runSolver(ctx context.Context, c solverCmd, text string, sec int) solveRes {
	inflight.Add(1)
	defer inflight.Done()
	if ctx.Err() != nil {
		return solveRes{status: "unknown"}
	}
	acquire()
	defer release()
	if ctx.Err() != nil || stopped() {
		return solveRes{status: "unknown"}
	}
	limit := time.Duration(sec+2) * time.Second
	if d := time.Until(deadline); d < limit {
		limit = d
	}
	cx, cancel := context.WithTimeout(ctx, limit)
	defer cancel()
	cmd := exec.CommandContext(cx, c.args[0], c.args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	s := out.String()
	r := solveRes{status: "unknown", solver: c.name, ms: time.Since(t0).Milliseconds()}
	if os.Getenv("GOV_SLOW") != "" && r.ms > 700 {
		n := time.Now().UnixNano()
		fmt.Fprintln(os.Stderr, "slow", c.name, sec, r.ms, n, strings.Fields(s + " none")[0])
		os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", n), []byte(text), 0644)
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "(error") && !strings.Contains(l, "model is not available") && !strings.Contains(l, "cannot get value") && !strings.Contains(l, "Cannot get") {
			if os.Getenv("GOV_DEBUG") != "" || !seenErr[l] {
				errMu.Lock()
				if !seenErr[l] {
					seenErr[l] = true
					fmt.Fprintln(os.Stderr, "solver", c.name, l)
				}
				errMu.Unlock()
			}
			if !strings.HasPrefix(s, "unsat") {
				r.status = "unknown"
				r.model = l
				return r
			}
		}
		switch strings.TrimSpace(l) {
		case "unsat":
			r.status = "unsat"
			return r
		case "sat":
			r.status = "sat"
			r.model = strings.TrimSpace(s[strings.Index(s, "sat")+3:])
			return r
		case "unknown", "timeout":
			return r
		}
	}
	return r
}

var seenErr = map[string]bool{}
var errMu sync.Mutex

// abstractMul replaces 64-bit multiplication by an uninterpreted function. A refutation of the result is a
// refutation of the original; a model is not used.
func abstractMul(text string) string {
	if !strings.Contains(text, "(bvmul ") {
		return ""
	}
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "(define-fun t!") && strings.Contains(l, "(bvmul ") && !strings.Contains(l, "(_ BitVec 64)") {
			return ""
		}
	}
	decl := "(declare-fun mulu ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))\n"
	i := strings.Index(text, "(declare-")
	return text[:i] + decl + strings.ReplaceAll(text[i:], "(bvmul ", "(mulu ")
}

func solveText(text, alt string, quick, full int) solveRes {
	key := sha256.Sum256([]byte(text))
	if v, ok := resCache.Load(key); ok {
		if c := v.(cachedRes); c.status != "unknown" || c.quick >= quick && c.full >= full {
			return c.solveRes
		}
	}
	if stopped() {
		return solveRes{status: "unknown", solver: "no time left"}
	}
	cs := solverCmds(full)
	first := solverCmd{cs[0].name, []string{"z3-new", "-in", "-T:" + strconv.Itoa(quick)}}
	if am := abstractMul(text); am != "" {
		r := runSolver(context.Background(), first, am, quick)
		if r.status == "unsat" {
			resCache.Store(key, cachedRes{r, quick, full})
			return r
		}
	}
	// z3 alone for half a second, then cvc5 next to it
	race := func(sec int, cs []solverCmd, delay time.Duration) solveRes {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan solveRes, len(cs))
		done := make(chan struct{})
		defer close(done)
		for i, c := range cs {
			i, c := i, c
			go func() {
				if i > 0 && delay > 0 {
					select {
					case <-done:
						return
					case <-time.After(delay):
					}
				}
				if strings.HasSuffix(c.name, " abs") {
					r := runSolver(ctx, c, alt, sec)
					if r.status != "unsat" {
						r.status = "unknown"
					}
					ch <- r
					return
				}
				ch <- runSolver(ctx, c, text, sec)
			}()
		}
		r := solveRes{status: "unknown", solver: cs[0].name}
		for range cs {
			o := <-ch
			r.ms += o.ms
			if o.status != "unknown" {
				r = o
				break
			}
		}
		return r
	}
	qs := solverCmds(quick)[:2]
	if alt != "" {
		qs = []solverCmd{qs[0], {"z3 5.3.2 abs", qs[0].args}, qs[1]}
		cs = append(cs, solverCmd{"z3 5.3.2 abs", cs[0].args}, solverCmd{"cvc5 1.1.2 abs", cs[1].args})
	}
	r := race(quick, qs, 500*time.Millisecond)
	if r.status == "unknown" && full > 0 {
		r = race(full, cs, 0)
	}
	if !stopped() {
		resCache.Store(key, cachedRes{r, quick, full})
	}
	return r
}

// decide discharges obligations in parallel. Scripts are built sequentially.
func decide(x *Exec, obls []*Obl, quick, full int, again ...bool) {
	retry := len(again) > 0
	type job struct {
		os   []*Obl
		sc   *script
		alts []*script
	}
	byText := map[string]*job{}
	var jobs []*job
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		sc := buildScript(x, o.Hyps, o.Goal, o.Inputs, o.Extra)
		if j, ok := byText[sc.text]; ok {
			j.os = append(j.os, o)
			continue
		}
		j := &job{os: []*Obl{o}, sc: sc}
		if o.Fewer && !o.Reach {
			for _, hs := range fewer(o) {
				j.alts = append(j.alts, buildScript(x, hs, o.Goal, nil, o.Extra))
			}
		}
		byText[sc.text] = j
		jobs = append(jobs, j)
	}
	var wg sync.WaitGroup
	var lost sync.Map // candidates that will be dropped: the rest of their obligations need not be tried
	sem := make(chan bool, 16)
	for _, j := range jobs {
		j := j
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if len(j.os) == 1 && j.os[0].Cand != nil {
				c := j.os[0].Cand
				if _, ok := lost.Load(c.Loop + "|" + c.Src); ok {
					j.os[0].Status = "skipped"
					return
				}
			}
			f, q := full, quick
			if j.os[0].Reach {
				f, q = 0, 1
			}
			r := solveRes{}
			// with fewer hypotheses first: a second each, then everything, then both with more time
			try := func(n int) {
				for _, a := range j.alts {
					if r.status == "unsat" {
						return
					}
					r = solveText(a.text, a.alt, n, 0)
				}
			}
			try(1)
			if len(j.alts) > 0 && r.status != "unsat" && f > 0 {
				if r = solveText(j.sc.text, j.sc.alt, 2, 0); r.status != "unsat" {
					try(5)
				}
			}
			if r.status != "unsat" {
				r = solveText(j.sc.text, j.sc.alt, q, f)
			}
			if r.status != "unsat" && f > 0 && os.Getenv("GOV_JOBS") != "" {
				hopeless.Add(1)
			}
			for i, o := range j.os {
				o.Solver = r.solver
				if i == 0 {
					o.Ms = r.ms
				}
				switch r.status {
				case "unsat":
					o.Status = "proved"
				case "sat":
					o.Status = "failed"
					o.Model = r.model
				default:
					o.Status = "unknown"
				}
				if o.Status != "proved" {
					if d := os.Getenv("GOV_FAILDUMP"); d != "" && (o.Cand == nil || os.Getenv("GOV_DUMPCAND") != "" && strings.Contains(o.Desc, os.Getenv("GOV_DUMPCAND"))) {
						dumpN++
						os.WriteFile(fmt.Sprintf("%s/fail%d.smt2", d, dumpN), []byte("; "+o.Desc+"\n"+j.sc.text), 0644)
					}
					o.Script = j.sc.text
					if o.Cand != nil && (o.Status == "failed" || o.Cand.Kind != "" || retry) {
						lost.Store(o.Cand.Loop+"|"+o.Cand.Src, true)
					}
				}
			}
		}()
	}
	wg.Wait()
}
