package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rely-guarantee reasoning for functions called by any number of goroutines at once.
//
// A protocol names the memory that goroutines share and states
//   - what holds of it between any two atomic actions (holds),
//   - what one goroutine may observe of the actions of all others (rely, over old and new state),
//   - what each action of a goroutine does at most (guarantee).
// Before every access to shared memory the shared memory is forgotten except for what rely and holds say;
// after every access that writes, guarantee and holds are obligations. That the rely is reflexive and
// transitive and follows from the guarantee of any other goroutine is an obligation too. Memory accesses
// are sequentially consistent; sync/atomic operations and plain accesses of one word are atomic; copies of
// byte ranges are not: every byte is read or written at a time of its own.

type Protocol struct {
	Name    string
	Shared  []Clause
	Holds   []Clause
	Rely    []Clause
	Guar    []Clause
	Stable  []Clause // when a copy of shared bytes is as if made at once (same), with lo and n the range
	Pkg     string
	File    string
	Assumes []Clause
}

// ConcHook: ghost assignments made by the actions of a kind on a location.
type ConcHook struct {
	Kind  string // read, write, lock, unlock
	Loc   *Node
	Ghost string
	E     *Node
	If    *Node
	Src   string
}

type Conc struct {
	p     *Protocol
	ct    *Contract
	locs  []loc
	names map[string]SV
	me    *Term
	mute  bool
}

const heldKey = "mu!held"

func (x *Exec) heldLeaf() Leaf { return Leaf{"", SInt, nil} }

func newConc(x *Exec, kind string, st *State, env *SEnv) *Conc {
	f := strings.Fields(kind)
	p := x.spec.Protocols[f[0]]
	if p == nil {
		panic(specErr{"no protocol " + f[0]})
	}
	c := &Conc{p: p, ct: x.ctr, names: map[string]SV{}, me: Var("me", SInt)}
	for k, v := range env.names {
		c.names[k] = v
	}
	c.names["me"] = SV{V: c.me}
	e := c.env(x, st, nil)
	for _, s := range p.Shared {
		c.locs = append(c.locs, e.locs(s.E)...)
	}
	x.heapGet(st, heldKey, x.heldLeaf())
	for _, h := range p.Holds {
		st.assume(e.boolean(h.E))
	}
	x.pre = st.clone()
	if len(f) > 1 && f[1] == "check" {
		c.selfCheck(x, st)
	}
	return c
}

func (c *Conc) env(x *Exec, st, old *State) *SEnv {
	n := map[string]SV{}
	for k, v := range c.names {
		n[k] = v
	}
	return &SEnv{x: x, st: st, old: old, names: n, pkg: c.p.Pkg, sink: st}
}

// havoc forgets all shared memory.
func (c *Conc) havoc(x *Exec, st *State) {
	for _, l := range c.locs {
		x.havocLoc(st, l)
	}
}

// interfere: any number of actions of other goroutines.
func (c *Conc) interfere(x *Exec, st *State) {
	pre := st.clone()
	st.mark = len(st.pc)
	c.havoc(x, st)
	e := c.env(x, st, pre)
	for _, r := range c.p.Rely {
		st.assume(e.boolean(r.E))
	}
	for _, h := range c.p.Holds {
		st.assume(e.boolean(h.E))
	}
}

// acted: one action of this goroutine took pre to st.
func (c *Conc) acted(x *Exec, st, pre *State, pos token.Pos) {
	if x.mute > 0 {
		return
	}
	e := c.env(x, st, pre)
	for _, g := range c.p.Guar {
		x.oblige(st, "guar", "every action keeps to the protocol: "+g.Src, x.pos(pos), e.boolean(g.E))
	}
	// that the action keeps to the protocol, which is obliged above, may be used to show what it preserves
	st = st.clone()
	e = c.env(x, st, pre)
	for _, g := range c.p.Guar {
		st.assume(e.boolean(g.E))
	}
	for _, h := range c.p.Holds {
		x.oblige(st, "guar", "every action preserves: "+h.Src, x.pos(pos), e.boolean(h.E))
	}
}

func (c *Conc) hooks(x *Exec, st, pre *State, kind, key string, base, idx, off *Term) {
	e := c.env(x, st, pre)
	if idx != nil {
		e.names["at"] = SV{V: idx}
	}
	type asg struct {
		g string
		t *Term
	}
	var as []asg
	for _, h := range c.ct.On {
		if h.Kind != kind {
			continue
		}
		if h.Loc != nil {
			ok := false
			for _, l := range e.locs(h.Loc) {
				if l.key == key && l.base == base {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		srt := x.sortOf(x.spec.Ghosts[h.Ghost])
		if srt == nil {
			panic(specErr{"no ghost " + h.Ghost})
		}
		v := e.toSort(h.E, e.term(h.E), srt)
		if h.If != nil {
			v = Ite(e.boolean(h.If), v, e.ghost(h.Ghost, srt))
		}
		as = append(as, asg{h.Ghost, v})
	}
	for _, a := range as {
		x.setGhost(st, a.g, a.t)
	}
}

// shared: whether an access to a cell is to shared memory.
func (c *Conc) shared(x *Exec, st *State, key string, base, idx *Term, pos token.Pos) bool {
	diff := []*Term{}
	for _, l := range c.locs {
		if l.key != key || l.kind == "ghost" {
			continue
		}
		if l.kind == "all" || l.base == base {
			return true
		}
		if ok, _ := allocLike(base); ok {
			continue
		}
		if st.known(Eq(l.base, base)) == True {
			return true
		}
		diff = append(diff, Not(Eq(l.base, base)))
	}
	if len(diff) > 0 && x.mute == 0 {
		x.oblige(st, "guar", "memory accessed is not shared", x.pos(pos), And(diff...))
	}
	return false
}

func (c *Conc) ptrCell(x *Exec, p *PtrV) (string, bool) {
	if p.ArrN >= 0 && len(p.Path) == 0 {
		return "", false
	}
	t, pre := x.atPath(p.Root, p.Path)
	if x.scalarSort(t) == nil {
		return "", false
	}
	return hkey(p.Root, pre), true
}

func (c *Conc) sharedPtr(x *Exec, st *State, p *PtrV, pos token.Pos) (string, bool) {
	if p.Base == nil {
		return "", false
	}
	k, ok := c.ptrCell(x, p)
	if !ok {
		t, pre := x.atPath(p.Root, p.Path)
		if p.ArrN >= 0 && len(p.Path) == 0 {
			for _, l := range x.leaves(p.Root) {
				if c.shared(x, st, hkey(p.Root, l.Path), p.Base, p.Idx, pos) {
					panic(unsupported("access to a shared array as a whole"))
				}
			}
			return "", false
		}
		if a, isA := t.Underlying().(*types.Array); isA {
			for _, l := range x.leaves(a.Elem()) {
				if c.shared(x, st, hkey(a.Elem(), l.Path), x.arrBase(p.Root, pre, p.Base, p.Idx), IntC(0), pos) {
					panic(unsupported("access to a shared array as a whole"))
				}
			}
			return "", false
		}
		for _, l := range x.leaves(t) {
			if l.S != nil && c.shared(x, st, hkey(p.Root, join(pre, l.Path)), p.Base, p.Idx, pos) {
				panic(unsupported("access to a shared structure as a whole"))
			}
		}
		return "", false
	}
	return k, c.shared(x, st, k, p.Base, p.Idx, pos)
}

func (c *Conc) store(x *Exec, st *State, p *PtrV, v Val, pos token.Pos) bool {
	k, ok := c.sharedPtr(x, st, p, pos)
	if !ok {
		return false
	}
	c.interfere(x, st)
	pre := st.clone()
	x.storeRec(st, p, v)
	c.hooks(x, st, pre, "write", k, p.Base, p.Idx, nil)
	c.acted(x, st, pre, pos)
	return true
}

func (c *Conc) load(x *Exec, st *State, p *PtrV, pos token.Pos) (Val, bool) {
	k, ok := c.sharedPtr(x, st, p, pos)
	if !ok {
		return nil, false
	}
	x.nilCheck(st, p, pos)
	c.interfere(x, st)
	v := x.loadChecked(st, p, pos)
	pre := st.clone()
	c.hooks(x, st, pre, "read", k, p.Base, p.Idx, nil)
	return v, true
}

func (c *Conc) call(x *Exec, st *State, f *ssa.Function, args []Val, pos token.Pos, k cont) bool {
	name := fnKey(f)
	switch {
	case strings.HasPrefix(name, "sync/atomic."):
		p, isP := args[0].(*PtrV)
		m := models[name]
		if !isP || m == nil {
			return false
		}
		key, ok := c.sharedPtr(x, st, p, pos)
		if !ok {
			return false
		}
		x.trust("model of " + name + ": one atomic action, sequentially consistent")
		x.nilCheck(st, p, pos)
		c.interfere(x, st)
		pre := st.clone()
		m(x, st, nil, f, args, pos, func(st *State, r []Val) {
			write := !strings.Contains(name, ".Load")
			if strings.Contains(name, ".CompareAndSwap") {
				write = r[0].(*Term) == True
			}
			if write {
				c.hooks(x, st, pre, "write", key, p.Base, p.Idx, nil)
				c.acted(x, st, pre, pos)
			} else {
				c.hooks(x, st, pre, "read", key, p.Base, p.Idx, nil)
			}
			k(st, r)
		})
		return true
	case name == "(*sync.Mutex).Lock" || name == "(*sync.Mutex).Unlock":
		p := args[0].(*PtrV)
		x.nilCheck(st, p, pos)
		if _, pre := x.atPath(p.Root, p.Path); pre != "mu" {
			panic(unsupported("lock " + pre))
		}
		x.trust("a sync.Mutex is held by at most one goroutine; Lock returns when it is free")
		c.interfere(x, st)
		h := x.heapGet(st, heldKey, x.heldLeaf())
		cur := Select(Select(h, p.Base), p.Idx)
		kind, nv := "lock", c.me
		if strings.HasSuffix(name, "Unlock") {
			kind, nv = "unlock", IntC(0)
			x.check(st, "guar", "only a lock held is released", x.pos(pos), Eq(cur, c.me))
		} else {
			x.check(st, "guar", "a lock held is not taken again", x.pos(pos), Not(Eq(cur, c.me)))
			st.assume(Eq(cur, IntC(0)))
		}
		old := st.clone()
		x.recordWrite(heldKey, p.Base)
		st.heap[heldKey] = Store(h, p.Base, Store(Select(h, p.Base), p.Idx, nv))
		c.hooks(x, st, old, kind, "", p.Base, p.Idx, nil)
		c.acted(x, st, old, pos)
		k(st, nil)
		return true
	}
	return false
}

func (c *Conc) invoke(x *Exec, st *State, t *Term, m *types.Func, args []Val, pos token.Pos, k cont) bool {
	return false
}

// touch: memory accessed as a whole must not be shared.
func (c *Conc) touch(x *Exec, st *State, base *Term) {
	if x.mute > 0 {
		return
	}
	c.notShared(x, st, byteKey, base, token.NoPos)
}

func (c *Conc) notShared(x *Exec, st *State, key string, base *Term, pos token.Pos) {
	if c.shared(x, st, key, base, nil, pos) {
		panic(unsupported("operation on shared memory as a whole"))
	}
}

func (c *Conc) exit(x *Exec, st *State) {}

// copyBytes copies n bytes between slices at least one of which is shared: every byte at its own time.
func (c *Conc) copySlice(x *Exec, st *State, d *SliceV, src Val, pos token.Pos) (Val, bool) {
	s, isS := src.(*SliceV)
	ls := x.leaves(d.Elem)
	if len(ls) != 1 || ls[0].S == nil {
		return nil, false
	}
	key := hkey(d.Elem, ls[0].Path)
	dsh := c.shared(x, st, key, d.Base, d.Off, pos)
	ssh := isS && c.shared(x, st, key, s.Base, s.Off, pos)
	if !dsh && !ssh {
		return nil, false
	}
	if dsh && ssh {
		panic(unsupported("copy from shared to shared memory"))
	}
	lf := ls[0]
	if ssh {
		n := minT(d.Len, s.Len)
		c.interfere(x, st)
		a := st.clone()
		// the state each byte is read in
		x.freshN++
		v := BVar("racy!i", SInt)
		mid := a.clone()
		for _, l := range c.locs {
			if l.kind == "ghost" {
				srt := x.sortOf(x.spec.Ghosts[l.key])
				mid.ghost[l.key] = App(fmt.Sprintf("during!%d!%s", x.freshN, l.key), srt, v)
				continue
			}
			lf, ok := x.heapLeaf[l.key]
			if !ok {
				continue
			}
			h := x.heapGet(mid, l.key, lf)
			fr := App(fmt.Sprintf("during!%d!%s", x.freshN, l.key), h.S.Elem, v)
			if l.kind == "cell" {
				mid.heap[l.key] = Store(h, l.base, Store(Select(h, l.base), l.idx, Select(fr, l.idx)))
			} else {
				mid.heap[l.key] = Store(h, l.base, fr)
			}
		}
		b := st.clone()
		c.interfere(x, b)
		res := x.fresh("racy", ArrS(SInt, lf.S))
		var fs []*Term
		e1 := c.env(x, mid, a)
		e1.sink = nil
		e2 := c.env(x, b, mid)
		e2.sink = nil
		for _, r := range c.p.Rely {
			fs = append(fs, e1.boolean(r.E), e2.boolean(r.E))
		}
		for _, h := range c.p.Holds {
			fs = append(fs, e1.boolean(h.E))
		}
		fs = append(fs, Eq(Select(res, v), Select(Select(x.heapGet(mid, key, lf), s.Base), v)))
		*st = *b
		for _, f := range fs {
			f = instAt(f, v)
			st.assume(Forall([]*Term{v}, Imp(And(Le(s.Off, v), Lt(v, Add(s.Off, n))), f), []*Term{Select(res, v)}))
		}
		if isByte(d.Elem) {
			was := Select(x.heapGet(a, key, lf), s.Base)
			i := x.fresh("byte", SInt)
			e := c.env(x, st, a)
			e.names["lo"], e.names["n"] = SV{V: s.Off}, SV{V: n}
			in := And(Le(s.Off, i), Lt(i, Add(s.Off, n)))
			var whole []*Term
			for _, q := range c.p.Stable {
				if x.mute == 0 {
					e.names["same"] = SV{V: Eq(Select(res, i), Select(was, i))}
					x.oblige(st, "guar", "bytes copied are those of one moment: "+q.Src, x.pos(pos), Imp(in, e.boolean(q.E)))
				}
				e.names["same"] = SV{V: Eq(MkStr(res, s.Off, n), MkStr(was, s.Off, n))}
				whole = append(whole, e.boolean(q.E))
			}
			st.assume(whole...)
		}
		dst := Select(x.heapGet(st, key, lf), d.Base)
		na := x.splice(st, dst, d.Off, res, s.Off, n)
		x.recordWrite(key, d.Base)
		st.heap[key] = Store(x.heapGet(st, key, lf), d.Base, na)
		c.hooks(x, st, a, "read", key, s.Base, s.Off, nil)
		return n, true
	}
	arr, off, sn := x.srcArr(st, src, 0, d.Elem)
	n := minT(d.Len, sn)
	c.interfere(x, st)
	pre := st.clone()
	h := x.heapGet(st, key, lf)
	old := Select(h, d.Base)
	// any part of the bytes may be written before any other
	part := func(from *Term) *Term {
		na := x.fresh("part", old.S)
		v := BVar("i", SInt)
		in := And(Le(d.Off, v), Lt(v, Add(d.Off, n)))
		nw := Select(arr, Add(v, Sub(off, d.Off)))
		st.assume(Forall([]*Term{v}, And(Imp(Not(in), Eq(Select(na, v), Select(from, v))), Or(Eq(Select(na, v), Select(from, v)), Eq(Select(na, v), nw))), []*Term{Select(na, v)}))
		return na
	}
	p1 := part(old)
	p2 := part(p1)
	x.recordWrite(key, d.Base)
	m1 := st.clone()
	m1.heap[key] = Store(h, d.Base, p1)
	// by induction over the bytes written, the state before this one is as the protocol has it
	me := c.env(x, m1, pre)
	me.sink = st
	for _, h := range c.p.Holds {
		st.assume(me.boolean(h.E))
	}
	st.heap[key] = Store(h, d.Base, p2)
	c.acted(x, st, m1, pos)
	// nobody else writes there meanwhile
	if x.mute == 0 {
		o := st.clone()
		c.interfere(x, o)
		i := x.fresh("cell", SInt)
		x.oblige(o, "guar", "memory copied to is written by this goroutine alone", x.pos(pos),
			Imp(And(Le(d.Off, i), Lt(i, Add(d.Off, n))), Eq(Select(Select(o.heap[key], d.Base), i), Select(p2, i))))
	}
	fin := x.splice(st, old, d.Off, arr, off, n)
	st.heap[key] = Store(h, d.Base, fin)
	c.hooks(x, st, pre, "write", key, d.Base, d.Off, nil)
	c.acted(x, st, pre, pos)
	return n, true
}

// selfCheck: the rely is reflexive, transitive and implied by what others guarantee.
func (c *Conc) selfCheck(x *Exec, st *State) {
	a := st.clone()
	b := a.clone()
	c.havoc(x, b)
	sinkAll := func(s *State, cs []Clause, old *State, me *Term) []*Term {
		e := c.env(x, s, old)
		if me != nil {
			e.names["me"] = SV{V: me}
		}
		var out []*Term
		for _, k := range cs {
			out = append(out, e.boolean(k.E))
		}
		return out
	}
	for i, g := range sinkAll(b, nil, a, nil) {
		_ = i
		_ = g
	}
	// reflexive
	r := a.clone()
	for i, g := range sinkAll(r, c.p.Rely, r.clone(), nil) {
		x.oblige(r, "guar", "what is relied on holds of no action: "+c.p.Rely[i].Src, c.p.File, g)
	}
	// implied
	o := x.fresh("other", SInt)
	s := b.clone()
	s.assume(Not(Eq(o, c.me)), Not(Eq(o, IntC(0))))
	s.assume(sinkAll(s, c.p.Holds, a, nil)...)
	s.assume(sinkAll(s, c.p.Guar, a, o)...)
	for i, g := range sinkAll(s, c.p.Rely, a, nil) {
		x.oblige(s, "guar", "what is relied on follows from what others guarantee: "+c.p.Rely[i].Src, c.p.File, g)
	}
	// transitive
	t := b.clone()
	t.assume(sinkAll(t, c.p.Holds, a, nil)...)
	t.assume(sinkAll(t, c.p.Rely, a, nil)...)
	mid := t.clone()
	c.havoc(x, t)
	t.assume(sinkAll(t, c.p.Holds, mid, nil)...)
	t.assume(sinkAll(t, c.p.Rely, mid, nil)...)
	for i, g := range sinkAll(t, c.p.Rely, a, nil) {
		x.oblige(t, "guar", "what is relied on holds of any number of actions: "+c.p.Rely[i].Src, c.p.File, g)
	}
}

// instAt adds to every quantified fact over one integer its instance at v.
func instAt(t, v *Term) *Term {
	switch t.Op {
	case "forall":
		if len(t.Vars) == 1 && t.Vars[0].S == SInt {
			return And(t, Subst(t.Args[1], map[*Term]*Term{t.Vars[0]: v}))
		}
	case "and":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, instAt(a, v))
		}
		return And(as...)
	case "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, instAt(a, v))
		}
		return Or(as...)
	case "=>":
		return Imp(t.Args[0], instAt(t.Args[1], v))
	}
	return t
}

func (c *Conc) anyShared(x *Exec, st *State, ls []loc, pos token.Pos) bool {
	for _, l := range ls {
		if l.kind != "ghost" && l.base != nil && c.shared(x, st, l.key, l.base, nil, pos) {
			return true
		}
	}
	return false
}

// wrote: a callee wrote the locations, in any number of steps.
func (c *Conc) wrote(x *Exec, st, pre *State, ls []loc, pos token.Pos) {
	c.acted(x, st, pre, pos)
	if x.mute > 0 {
		return
	}
	o := st.clone()
	c.interfere(x, o)
	for _, l := range ls {
		if l.kind == "ghost" || l.base == nil || !c.shared(x, st, l.key, l.base, nil, pos) {
			continue
		}
		i := x.fresh("cell", SInt)
		in := True
		switch l.kind {
		case "range":
			in = And(Le(l.lo, i), Lt(i, l.hi))
		case "cell":
			in = Eq(i, l.idx)
		}
		x.oblige(o, "guar", "memory a callee writes is written by this goroutine alone", x.pos(pos),
			Imp(in, Eq(Select(Select(o.heap[l.key], l.base), i), Select(Select(st.heap[l.key], l.base), i))))
	}
}

// specDepth is positive while a specification, not the code, is evaluated.
var specDepth int

// frameShaped: a fact that part of an array is as it was.
func frameShaped(t *Term) bool {
	if t.Op != "forall" || quantDepth(t) != 1 {
		return false
	}
	b := t.Args[len(t.Args)-1]
	if b.Op == "=>" {
		b = b.Args[1]
	}
	return b.Op == "=" && b.Args[0].Op == "select" && (b.Args[1].Op == "select" || b.Args[1].Op == "ite")
}

// fewer gives subsets of the hypotheses to try first.
func fewer(o *Obl) (alts [][]*Term) {
	pick := func(keep func(i int, h *Term) bool) {
		var hs []*Term
		for i, h := range o.Hyps {
			if quantDepth(h) == 0 || keep(i, h) {
				hs = append(hs, h)
			}
		}
		if len(hs) < len(o.Hyps) {
			alts = append(alts, hs)
		}
	}
	if o.Kind == "frame" || o.Cand != nil && (o.Cand.Kind == "frame" || o.Cand.Kind == "regions") {
		pick(func(i int, h *Term) bool { return frameShaped(h) })
		return
	}
	pick(func(i int, h *Term) bool { return i >= o.st || frameShaped(h) })
	if 0 < o.lst && o.lst < o.st {
		pick(func(i int, h *Term) bool { return i >= o.lst || frameShaped(h) })
	}
	return
}
