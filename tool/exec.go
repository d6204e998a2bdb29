package main

// Path-wise symbolic execution of SSA functions, generating proof obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Unit  string
	Kind  string // post, pre, frame, panic, overflow, inv-init, inv-pres, unwind, assert, guarantee ...
	Desc  string
	Pos   string
	Hyps  []*Term
	Goal  *Term
	Trail []string
	Cand  *Cand // loop-invariant candidate this obligation decides
	Prop  string

	Status string // proved, failed, unknown
	Solver string
	Ms     int64
	Model  string
	Inputs []NamedTerm
	Reach  bool // satisfiability check: must NOT be provable
	Extra  []*Term
	Script string
	Fewer  bool // also try with fewer hypotheses
	st     int
	lst    int
}

type NamedTerm struct {
	Name string
	T    *Term
}

type Cand struct {
	Loop    string
	Src     string
	Dropped bool
	Expr    *Node
	Bind    map[string]ssa.Value
	Plus    map[string]int64
	Kind    string
	Phi     *ssa.Phi
	Bound   ssa.Value
	N       int
	Key     string
}

type Exec struct {
	noReach bool
	prog    *Program
	spec    *SpecDB
	mode    Mode
	unit    *Unit
	ctr     *Contract
	lemma   *Lemma
	topFn   *ssa.Function

	leafCache    map[types.Type][]Leaf
	ifcTypes     map[string]types.Type
	closFns      map[string]*ssa.Function
	heapLeaf     map[string]Leaf
	pendingRange []*Term
	freshN       int
	locCache     []loc
	extBases     []*Term

	obls       []*Obl
	mute       int
	frameN     int
	paths      int
	steps      int
	cands      map[string][]*Cand // per loop
	candSet    map[string]bool
	loopMod    map[string]*modset
	rec        []*modset // active recorders
	dedup      map[string]bool
	used       map[string]bool // contracts used at call sites
	trusted    map[string]bool // models and assumptions used
	inlined    map[string]bool
	pre        *State // state at function entry
	argVals    map[string]SV
	applyArgs  []Val
	inputs     []NamedTerm
	splitTag   string
	loopInfo   map[*ssa.Function]*loops
	preInvs    []*Node
	reads      map[string]bool // heap keys read (for purity)
	conc       *Conc
	deadline   int
	covered    map[string]bool
	pureHeap   bool
	curAct     []*actFrame
	droppedSet map[string]bool
	hints      map[string]bool
	lemAx      []*Term
}

type actFrame struct{}

type modset struct {
	keys  map[string]map[*Term]bool // heap key -> written bases (nil entry: unknown base)
	ghost map[string]map[*Term]bool // ghost -> written indices (nil entry: all)
	alloc bool
	cells map[string]bool
}

func newModset() *modset {
	return &modset{keys: map[string]map[*Term]bool{}, ghost: map[string]map[*Term]bool{}}
}

type activeLoop struct {
	key      string
	frame    int
	header   *ssa.BasicBlock
	mode     string // inv or unroll
	body     map[*ssa.BasicBlock]bool
	entry    *State
	ms       *modset
	dry      bool
	entryPhi map[*ssa.Phi]Val
}

type Frame struct {
	id     int
	fn     *ssa.Function
	binds  []Val
	path   string // call path, for naming loops
	ret    func(st *State, res []Val)
	dry    map[*ssa.BasicBlock]bool
	stack  map[*ssa.Function]bool
	defers int
}

type loops struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> natural loop
	ord  map[*ssa.BasicBlock]int
}

func (x *Exec) loopsOf(f *ssa.Function) *loops {
	if l, ok := x.loopInfo[f]; ok {
		return l
	}
	l := &loops{map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]int{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l.body[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l.body[s] = body
				}
				var add func(q *ssa.BasicBlock)
				add = func(q *ssa.BasicBlock) {
					if body[q] {
						return
					}
					body[q] = true
					for _, p := range q.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	n := 0
	for _, b := range f.Blocks {
		if l.body[b] != nil {
			l.ord[b] = n
			n++
		}
	}
	x.loopInfo[f] = l
	return l
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, repoDir+"/") + fmt.Sprintf(":%d", q.Line)
}

var debugObl = os.Getenv("GOV_DEBUG") != ""

func (x *Exec) oblige(st *State, kind, desc, pos string, goal *Term) *Obl {
	if x.mute > 0 {
		return nil
	}
	x.flushRanges(st)
	if goal == True {
		o := &Obl{Unit: x.unit.Name, Kind: kind, Desc: desc, Pos: pos, Goal: goal, Status: "proved", Solver: "simplifier"}
		x.obls = append(x.obls, o)
		return o
	}
	if goal.Op == "and" && kind != "inv-init" && kind != "inv-pres" {
		var last *Obl
		for _, g := range goal.Args {
			last = x.oblige(st, kind, desc, pos, g)
		}
		return last
	}
	if st.known(goal) == True {
		o := &Obl{Unit: x.unit.Name, Kind: kind, Desc: desc, Pos: pos, Goal: goal, Status: "proved", Solver: "simplifier"}
		x.obls = append(x.obls, o)
		return o
	}
	o := &Obl{Unit: x.unit.Name, Kind: kind, Desc: desc, Pos: pos, Goal: goal, Hyps: append([]*Term{}, st.pc...), Trail: append([]string{}, st.trail...), Inputs: x.inputs}
	if x.conc != nil {
		o.st, o.lst = st.mark, st.loopMark
		o.Fewer = true
	}
	x.obls = append(x.obls, o)
	return o
}

// check emits an obligation and then assumes it.
func (x *Exec) check(st *State, kind, desc, pos string, goal *Term) {
	if goal == True {
		return
	}
	x.oblige(st, kind, desc, pos, goal)
	st.assume(goal)
}

// flushRanges adds the machine ranges of integers loaded from memory.
func (x *Exec) flushRanges(st *State) {}

func (x *Exec) trust(s string) { x.trusted[s] = true }

// ---- running ----

func (x *Exec) callFn(st *State, fn *ssa.Function, binds []Val, args []Val, caller *Frame, k func(st *State, res []Val)) {
	x.frameN++
	fr := &Frame{id: x.frameN, fn: fn, binds: binds, ret: k}
	if caller != nil {
		fr.path = caller.path + ">" + fn.RelString(nil)
		fr.stack = map[*ssa.Function]bool{fn: true}
		for f := range caller.stack {
			fr.stack[f] = true
		}
	} else {
		fr.path = fn.RelString(nil)
		fr.stack = map[*ssa.Function]bool{fn: true}
	}
	if fn.Blocks == nil {
		panic(unsupported("function without a body: " + fn.String()))
	}
	if len(args) != len(fn.Params) {
		panic(unsupported("argument count of " + fn.String()))
	}
	for i, p := range fn.Params {
		st.env[envKey{fr.id, p}] = args[i]
	}
	for i, fv := range fn.FreeVars {
		st.env[envKey{fr.id, fv}] = binds[i]
	}
	x.runBlock(st, fr, fn.Blocks[0], nil)
}

const maxPaths = 60000

func (x *Exec) runBlock(st *State, fr *Frame, b *ssa.BasicBlock, prev *ssa.BasicBlock) {
	// leaving active loops of this frame
	for len(st.active) > 0 {
		top := st.active[len(st.active)-1]
		if top.frame == fr.id && !top.body[b] {
			if top.dry {
				return // loop exits are not followed in a dry run
			}
			st.active = st.active[:len(st.active)-1]
			continue
		}
		break
	}
	if len(st.trail) < 4000 {
		st.trail = append(st.trail, fmt.Sprintf("%s#%d", fr.fn.Name(), b.Index))
	}
	// phis
	n := 0
	var phiV []Val
	if prev != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
			}
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phiV = append(phiV, x.val(st, fr, ph.Edges[pi]))
			n++
		}
		for i := 0; i < n; i++ {
			st.env[envKey{fr.id, b.Instrs[i].(*ssa.Phi)}] = phiV[i]
		}
	}
	li := x.loopsOf(fr.fn)
	if body := li.body[b]; body != nil {
		if !x.loopHeader(st, fr, b, body, n) {
			return
		}
	}
	x.runInstrs(st, fr, b, n)
}

func (x *Exec) loopKey(fr *Frame, b *ssa.BasicBlock) string {
	return fmt.Sprintf("%s#loop%d%s", fr.path, x.loopsOf(fr.fn).ord[b], x.splitTag)
}

// loopHeader handles arrival at a loop header; it returns false when the path ends here.
func (x *Exec) loopHeader(st *State, fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, nphi int) bool {
	key := x.loopKey(fr, b)
	for i := len(st.active) - 1; i >= 0; i-- {
		a := st.active[i]
		if a.frame == fr.id && a.header == b {
			// back edge
			st.active = st.active[:i+1]
			if a.mode == "unroll" {
				ik := fmt.Sprintf("%s@%d", key, fr.id)
				st.iters[ik]++
				lim := 200
				if x.ctr != nil && x.ctr.Unroll > 0 && !x.headerConst(st, fr, b, nphi) {
					lim = x.ctr.Unroll
				}
				if st.iters[ik] > lim {
					x.oblige(st, "unwind", "loop finishes within "+fmt.Sprint(lim)+" iterations", x.pos(b.Instrs[0].Pos()), False)
					return false
				}
				return true
			}
			if a.dry {
				return false
			}
			for _, c := range x.cands[key] {
				if c.Dropped {
					continue
				}
				g, err := x.candTerm(st, fr, c)
				if err != nil {
					c.Dropped = true
					continue
				}
				if o := x.oblige(st, "inv-pres", "loop invariant "+c.Src+" preserved", x.loopPos(b), g); o != nil {
					o.Cand = c
				}
			}
			return false
		}
	}
	// entry
	mode := "inv"
	if x.headerConst(st, fr, b, nphi) || x.ctr != nil && x.ctr.Unroll > 0 {
		mode = "unroll"
	}
	al := &activeLoop{key: key, frame: fr.id, header: b, mode: mode, body: body}
	if mode == "unroll" {
		st.active = append(st.active, al)
		st.iters[fmt.Sprintf("%s@%d", key, fr.id)] = 0
		return true
	}
	x.makeCands(st, fr, b, nphi, key)
	al.entryPhi = map[*ssa.Phi]Val{}
	for i := 0; i < nphi; i++ {
		ph := b.Instrs[i].(*ssa.Phi)
		al.entryPhi[ph] = st.env[envKey{fr.id, ph}]
	}
	for _, c := range x.cands[key] {
		if c.Dropped {
			continue
		}
		g, err := x.candTerm(st, fr, c)
		if err != nil {
			if debugObl {
				fmt.Fprintln(os.Stderr, "cand", c.Src, err)
			}
			c.Dropped = true
			continue
		}
		if o := x.oblige(st, "inv-init", "loop invariant "+c.Src+" holds on entry", x.loopPos(b), g); o != nil {
			o.Cand = c
		}
	}
	ms := x.loopModset(st, fr, b, nphi, key, al)
	x.regionCands(st, fr, b, key, ms)
	entryNext := st.nextTerm()
	x.havocPhis(st, fr, b, nphi)
	x.havocMods(st, ms, entryNext)
	st.loopMark = len(st.pc)
	// a counter that starts at a constant and is only incremented stays above its start
	st.active = append(st.active, al)
	for _, c := range x.cands[key] {
		if c.Dropped {
			continue
		}
		g, err := x.candTerm(st, fr, c)
		if err == nil {
			st.assume(g)
		}
	}
	return true
}

// regionCands: where a loop writes regions that cannot be told apart, try the invariant that the regions
// the function was given are as at entry, but for those its contract lets it change.
func (x *Exec) regionCands(st *State, fr *Frame, b *ssa.BasicBlock, key string, ms *modset) {
	if x.ctr == nil || x.pre == nil {
		return
	}
	for _, k := range sortedModKeys(ms) {
		if !ms.keys[k][nil] {
			continue
		}
		src := "regions " + k
		have := false
		for _, c := range x.cands[key] {
			have = have || c.Src == src
		}
		for _, l := range x.frameLocs() {
			have = have || l.key == k && l.kind == "all"
		}
		if have {
			continue
		}
		c := &Cand{Loop: key, Src: src, Kind: "regions", Key: k}
		if x.isDropped(key + "|" + src) {
			c.Dropped = true
		}
		x.cands[key] = append(x.cands[key], c)
		if c.Dropped {
			continue
		}
		g, err := x.candTerm(st, fr, c)
		if err != nil {
			c.Dropped = true
			continue
		}
		if o := x.oblige(st, "inv-init", "loop invariant "+src+" holds on entry", x.loopPos(b), g); o != nil {
			o.Cand = c
		}
	}
}

func sortedModKeys(ms *modset) []string {
	var ks []string
	for k := range ms.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (x *Exec) loopPos(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return x.pos(in.Pos())
		}
	}
	return x.pos(b.Parent().Pos())
}

func (x *Exec) havocPhis(st *State, fr *Frame, b *ssa.BasicBlock, nphi int) {
	for i := 0; i < nphi; i++ {
		ph := b.Instrs[i].(*ssa.Phi)
		k := envKey{fr.id, ph}
		// loop-invariant phis (every back edge carries the phi itself) keep their value
		inv := true
		for j, e := range ph.Edges {
			if b.Dominates(b.Preds[j]) && e != ssa.Value(ph) {
				inv = false
			}
		}
		if inv {
			continue
		}
		st.env[k] = x.freshVal(st, "phi_"+ph.Comment, ph.Type(), false)
	}
}

func (x *Exec) havocMods(st *State, ms *modset, entryNext *Term) {
	if ms.alloc {
		x.newEpoch(st)
	}
	x.havocHeap(st, ms.keys, entryNext)
	for _, g := range sortedGhosts(ms.ghost) {
		is := ms.ghost[g]
		if _, scalar := x.spec.Ghosts[g]; !scalar && !is[nil] {
			var ids []*Term
			for i := range is {
				ids = append(ids, i)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i].Id < ids[j].Id })
			t := x.ghostGet(st, g, ghostElem(g))
			for _, i := range ids {
				t = Store(t, i, x.fresh("g!"+g, t.S.Elem))
			}
			st.ghost[g] = t
			continue
		}
		if t, ok := st.ghost[g]; ok {
			st.ghost[g] = x.fresh("ghost!"+g, t.S)
		} else if s, ok := x.spec.Ghosts[g]; ok {
			st.ghost[g] = x.fresh("ghost!"+g, x.sortOf(s))
		} else {
			st.ghost[g] = x.fresh("ghost!"+g, x.ghostGet(st, g, ghostElem(g)).S)
		}
	}
}

func sortedGhosts(m map[string]map[*Term]bool) []string {
	var out []string
	for g := range m {
		out = append(out, g)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) newEpoch(st *State) {
	old := st.nextTerm()
	x.freshN++
	nv := freshVar(fmt.Sprintf("next!~%d", x.freshN), SInt)
	st.nextVar, st.nextOff = nv, 0
	st.assume(Le(old, nv))
	st.epoch++
}

// havocHeap forgets the contents of the given regions. A nil base means any region; regions at or above
// entryNext (allocated since) may always have changed when a nil base is present.
func (x *Exec) havocHeap(st *State, keys map[string]map[*Term]bool, entryNext *Term) {
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h, ok := st.heap[k]
		if !ok {
			l, ok := x.heapLeaf[k]
			if !ok {
				continue
			}
			h = x.heapGet(st, k, l)
		}
		bases := keys[k]
		if bases[nil] {
			st.heap[k] = x.fresh("H!"+k, h.S)
			continue
		}
		var bs []*Term
		newer := false
		for b := range bases {
			if b == freshMark {
				newer = true
				continue
			}
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].Id < bs[j].Id })
		if newer {
			nh := x.fresh("H!"+k, h.S)
			v := BVar("b", SInt)
			cond := []*Term{Lt(v, entryNext)}
			for _, b := range bs {
				cond = append(cond, Not(Eq(v, b)))
			}
			st.assume(Forall([]*Term{v}, Imp(And(cond...), Eq(Select(nh, v), Select(h, v))), []*Term{Select(nh, v)}))
			st.heap[k] = nh
			continue
		}
		for _, b := range bs {
			h = Store(h, b, x.fresh("A!"+k, h.S.Elem))
		}
		st.heap[k] = h
	}
}

var freshMark = Var("fresh-region-mark", SInt)

// recordWrite notes a store for every loop being analysed.
func (x *Exec) recordWrite(key string, base *Term) {
	for _, m := range x.rec {
		if m.keys[key] == nil {
			m.keys[key] = map[*Term]bool{}
		}
		m.keys[key][base] = true
	}
}
func (x *Exec) isDropped(k string) bool {
	return x.droppedSet[k] || len(x.hints) > 0 && x.hints[hintKey(k)]
}

func (x *Exec) recordGhost(g string) { x.recordGhostAt(g, nil) }

func (x *Exec) recordGhostAt(g string, idx *Term) {
	for _, m := range x.rec {
		m.addGhost(g, idx)
	}
}

func (m *modset) addGhost(g string, idx *Term) bool {
	if m.ghost[g] == nil {
		m.ghost[g] = map[*Term]bool{}
	}
	if m.ghost[g][idx] {
		return false
	}
	m.ghost[g][idx] = true
	return true
}

// loopModset finds what one iteration can modify by executing it from an arbitrary state.
func (x *Exec) loopModset(st *State, fr *Frame, b *ssa.BasicBlock, nphi int, key string, al *activeLoop) *modset {
	if m, ok := x.loopMod[key]; ok {
		// previous analysis of the same loop; bases are recomputed because they depend on the path
		_ = m
	}
	total := newModset()
	mark0 := x.freshN
	for round := 0; round < 6; round++ {
		d := st.clone()
		a2 := *al
		a2.dry = true
		d.active = []*activeLoop{&a2}
		entryNext := st.nextTerm()
		x.havocPhis(d, fr, b, nphi)
		x.havocMods(d, total, entryNext)
		// invariants help to resolve which memory is written
		for _, c := range x.cands[key] {
			if !c.Dropped {
				if g, err := x.candTerm(d, fr, c); err == nil {
					d.assume(g)
				}
			}
		}
		x.newEpoch(d)
		ms := newModset()
		x.rec = append(x.rec, ms)
		x.mute++
		x.runInstrs(d, fr, b, nphi)
		x.mute--
		x.rec = x.rec[:len(x.rec)-1]
		grown := false
		for k, bs := range ms.keys {
			if total.keys[k] == nil {
				total.keys[k] = map[*Term]bool{}
				grown = true
			}
			for base := range bs {
				nb := x.stableBase(base, mark0)
				if !total.keys[k][nb] {
					total.keys[k][nb] = true
					grown = true
				}
			}
		}
		for g, is := range ms.ghost {
			for i := range is {
				if i != nil && !olderTerm(i, mark0) {
					i = nil
				}
				if total.addGhost(g, i) {
					grown = true
				}
			}
		}
		if ms.alloc && !total.alloc {
			total.alloc = true
			grown = true
		}
		if !grown {
			break
		}
		if round == 5 {
			for k := range total.keys {
				total.keys[k] = map[*Term]bool{nil: true}
			}
		}
	}
	// propagate to enclosing recorders
	for _, m := range x.rec {
		for k, bs := range total.keys {
			if m.keys[k] == nil {
				m.keys[k] = map[*Term]bool{}
			}
			for b := range bs {
				m.keys[k][b] = true
			}
		}
		for g, is := range total.ghost {
			for i := range is {
				m.addGhost(g, i)
			}
		}
		m.alloc = m.alloc || total.alloc
	}
	x.loopMod[key] = total
	return total
}

// stableBase maps a written region to one meaningful before the loop: the same term if it only mentions
// values that exist before the loop, freshMark if allocated inside, nil if unknown.
func (x *Exec) stableBase(b *Term, mark int) *Term {
	if b == nil || b == freshMark {
		return b
	}
	if ok, _ := allocLike(b); ok {
		if olderTerm(b, mark) {
			return b
		}
		return freshMark
	}
	if b.Op == "app" && strings.HasPrefix(b.Str, "arrbase!") {
		in := x.stableBase(b.Args[0], mark)
		if in == b.Args[0] && olderTerm(b.Args[1], mark) {
			return b
		}
		if in == freshMark {
			return freshMark
		}
		return nil
	}
	if olderTerm(b, mark) {
		return b
	}
	return nil
}

// olderTerm: t is built only from variables created before the mark.
func olderTerm(t *Term, mark int) bool {
	ok := true
	walk(map[int]bool{}, t, func(s *Term) {
		if s.Op == "var" && serial(s.Str) > mark {
			ok = false
		}
	})
	return ok
}

func (x *Exec) runInstrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 3000000 {
			panic(unsupported("too many steps"))
		}
		in := b.Instrs[i]
		switch v := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			x.runBlock(st, fr, b.Succs[0], b)
			return
		case *ssa.If:
			c := x.val(st, fr, v.Cond).(*Term)
			c = st.known(c)
			if c == True {
				x.runBlock(st, fr, b.Succs[0], b)
				return
			}
			if c == False {
				x.runBlock(st, fr, b.Succs[1], b)
				return
			}
			x.paths++
			if x.paths > maxPaths {
				panic(unsupported("too many paths"))
			}
			t := st.clone()
			t.assume(c)
			if !x.infeasible(t) {
				x.runBlock(t, fr, b.Succs[0], b)
			}
			st.assume(Not(c))
			if !x.infeasible(st) {
				x.runBlock(st, fr, b.Succs[1], b)
			}
			return
		case *ssa.Return:
			var res []Val
			for _, r := range v.Results {
				res = append(res, x.val(st, fr, r))
			}
			// leave loops of this frame
			if x.inDry(st, fr) {
				return
			}
			for len(st.active) > 0 && st.active[len(st.active)-1].frame == fr.id {
				st.active = st.active[:len(st.active)-1]
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			x.oblige(st, "panic", "no panic", x.pos(v.Pos()), False)
			return
		case *ssa.RunDefers:
			ds := st.defers[fr.id]
			if len(ds) > 0 {
				rest := i + 1
				x.runDefers(st, fr, ds, func(st *State) { x.runInstrs(st, fr, b, rest) })
				return
			}
		case *ssa.Defer:
			if st.defers == nil {
				st.defers = map[int][]*ssa.Defer{}
			}
			st.defers[fr.id] = append(st.defers[fr.id], v)
		case *ssa.Call:
			rest := i + 1
			x.call(st, fr, &v.Call, v.Pos(), func(st *State, res []Val) {
				switch t := v.Type().(type) {
				case *types.Tuple:
					if t.Len() > 0 {
						st.env[envKey{fr.id, v}] = TupleV(res)
					}
				default:
					if len(res) == 1 {
						st.env[envKey{fr.id, v}] = res[0]
					}
				}
				x.runInstrs(st, fr, b, rest)
			})
			return
		case *ssa.Select:
			rest := i + 1
			x.selectInstr(st, fr, v, func(st *State) { x.runInstrs(st, fr, b, rest) })
			return
		case *ssa.TypeAssert:
			rest := i + 1
			x.typeAssert(st, fr, v, func(st *State, r Val) {
				st.env[envKey{fr.id, v}] = r
				x.runInstrs(st, fr, b, rest)
			})
			return
		case *ssa.Store:
			p := x.val(st, fr, v.Addr).(*PtrV)
			x.nilCheck(st, p, v.Pos())
			if x.conc != nil && x.conc.store(x, st, p, x.val(st, fr, v.Val), v.Pos()) {
				continue
			}
			x.storeRec(st, p, x.val(st, fr, v.Val))
		case *ssa.MapUpdate:
			x.mapUpdate(st, fr, v)
		case *ssa.Go:
			panic(unsupported("go statement"))
		case *ssa.Send:
			panic(unsupported("channel send"))
		case ssa.Value:
			st.env[envKey{fr.id, v}] = x.eval(st, fr, v)
		default:
			panic(unsupported(fmt.Sprintf("instruction %T", in)))
		}
		if st.dead() {
			return
		}
	}
}

func (x *Exec) inDry(st *State, fr *Frame) bool {
	for _, a := range st.active {
		if a.dry && a.frame == fr.id {
			return true
		}
	}
	return false
}

func (x *Exec) runDefers(st *State, fr *Frame, ds []*ssa.Defer, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	x.call(st, fr, &d.Call, d.Pos(), func(st *State, _ []Val) { x.runDefers(st, fr, ds[:len(ds)-1], k) })
}

// infeasible is a cheap syntactic test, with an occasional solver query when paths multiply.
func (x *Exec) infeasible(st *State) bool {
	if st.dead() {
		return true
	}
	seen := map[int]bool{}
	for _, t := range st.pc {
		seen[t.Id] = true
	}
	for _, t := range st.pc {
		if seen[Not(t).Id] {
			return true
		}
	}
	return intConflict(st.pc)
}

// intConflict looks for contradictory constant bounds on one linear term.
func intConflict(pc []*Term) bool {
	type iv struct{ lo, hi *big.Int }
	m := map[*Term]*iv{}
	get := func(t *Term) *iv {
		r, ok := m[t]
		if !ok {
			lo, hi := rng(t)
			r = &iv{lo, hi}
			m[t] = r
		}
		return r
	}
	up := func(t *Term, hi *big.Int) {
		r := get(t)
		if r.hi == nil || hi.Cmp(r.hi) < 0 {
			r.hi = hi
		}
	}
	lowr := func(t *Term, lo *big.Int) {
		r := get(t)
		if r.lo == nil || lo.Cmp(r.lo) > 0 {
			r.lo = lo
		}
	}
	var neq [][2]*Term
	for _, t := range pc {
		switch t.Op {
		case "<=", "<":
			if t.Args[0].S != SInt {
				continue
			}
			l := newLin()
			l.add(t.Args[1], one)
			l.add(t.Args[0], mone)
			// l.m + c >= 0 (or > 0)
			c := new(big.Int).Set(l.c)
			if t.Op == "<" {
				c.Sub(c, one)
			}
			l.c = new(big.Int)
			if len(l.m) == 0 {
				continue
			}
			nt := newLin()
			for a, k := range l.m {
				nt.m[a] = new(big.Int).Neg(k)
			}
			lowr(l.term(), new(big.Int).Neg(c))
			up(nt.term(), c)
		case "=":
			if t.Args[0].S != SInt {
				continue
			}
			l := newLin()
			l.add(t.Args[1], one)
			l.add(t.Args[0], mone)
			c := new(big.Int).Set(l.c)
			l.c = new(big.Int)
			if len(l.m) == 0 {
				continue
			}
			nt := newLin()
			for a, k := range l.m {
				nt.m[a] = new(big.Int).Neg(k)
			}
			lt := l.term()
			lowr(lt, new(big.Int).Neg(c))
			up(lt, new(big.Int).Neg(c))
			n2 := nt.term()
			lowr(n2, c)
			up(n2, c)
		case "not":
			if e := t.Args[0]; e.Op == "=" && e.Args[0].S == SInt {
				neq = append(neq, [2]*Term{e.Args[0], e.Args[1]})
			}
		}
	}
	for _, r := range m {
		if r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) > 0 {
			return true
		}
	}
	for _, p := range neq {
		a, b := p[0], p[1]
		if a.Op == "int" {
			a, b = b, a
		}
		if b.Op == "int" {
			if r, ok := m[a]; ok && r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) == 0 && r.lo.Cmp(b.N) == 0 {
				return true
			}
		}
	}
	return false
}

// headerConst: the loop's header test evaluates to a constant with the current phi values.
func (x *Exec) headerConst(st *State, fr *Frame, b *ssa.BasicBlock, nphi int) bool {
	last := b.Instrs[len(b.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	body := x.loopsOf(fr.fn).body[b]
	if body[b.Succs[0]] && body[b.Succs[1]] {
		return false // not an exit test
	}
	// the header must be pure arithmetic up to the test
	for _, in := range b.Instrs[nphi : len(b.Instrs)-1] {
		switch in.(type) {
		case *ssa.BinOp, *ssa.Convert, *ssa.UnOp, *ssa.DebugRef, *ssa.ChangeType:
		case *ssa.Call:
			c := in.(*ssa.Call)
			if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	d := st.clone()
	x.mute++
	defer func() { x.mute-- }()
	rec := x.rec
	x.rec = nil
	defer func() { x.rec = rec }()
	for _, in := range b.Instrs[nphi : len(b.Instrs)-1] {
		switch v := in.(type) {
		case *ssa.Call:
			a := x.val(d, fr, v.Call.Args[0])
			d.env[envKey{fr.id, v}] = x.lenOf(d, a, v.Call.Args[0].Type(), v.Call.Value.(*ssa.Builtin).Name())
		case ssa.Value:
			d.env[envKey{fr.id, v}] = x.eval(d, fr, v)
		}
	}
	c, ok := x.val(d, fr, iff.Cond).(*Term)
	if !ok || !c.IsConst() {
		return false
	}
	// a constant first test of a loop whose other bound is symbolic (e.g. 0 < n known) is not enough: both
	// operands of the comparison must be constants
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	l, lok := x.val(d, fr, bo.X).(*Term)
	r, rok := x.val(d, fr, bo.Y).(*Term)
	return lok && rok && l.IsConst() && r.IsConst()
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return x.globalPtr(c)
	case *ssa.Function:
		return &ClosV{Fn: c}
	case *ssa.Builtin:
		panic(unsupported("builtin value"))
	}
	r, ok := st.env[envKey{fr.id, v}]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	s := x.scalarSort(t)
	switch {
	case s == SBool:
		return B(constant.BoolVal(c.Value))
	case s == SStr:
		return strLit(constant.StringVal(c.Value))
	case s == SInt:
		n, ok := constInt(c.Value)
		if !ok {
			panic(unsupported("integer constant"))
		}
		return IntB(n)
	case s != nil && s.Kind == "BV":
		n, ok := constInt(c.Value)
		if !ok {
			panic(unsupported("integer constant"))
		}
		return BvC(n, s.Bits)
	case s == SF64:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return f64Const(f)
	case s == SReal:
		return realConst(c.Value)
	}
	panic(unsupported("constant of type " + t.String()))
}

func realConst(v constant.Value) *Term {
	r := constant.ToFloat(v)
	num, den := constant.Num(r), constant.Denom(r)
	if num.Kind() != constant.Int || den.Kind() != constant.Int {
		panic(unsupported("real constant"))
	}
	return realTerm(num.ExactString(), den.ExactString())
}
func realTerm(num, den string) *Term {
	neg := strings.HasPrefix(num, "-")
	num = strings.TrimPrefix(num, "-")
	s := num + ".0"
	if den != "1" {
		s = "(/ " + num + ".0 " + den + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return RealC(s)
}

func f64Const(f float64) *Term {
	if floatReal {
		r := new(big.Rat).SetFloat64(f)
		return realTerm(r.Num().String(), r.Denom().String())
	}
	return mk("f64c", SF64, new(big.Int).SetUint64(math.Float64bits(f)), "")
}

func constInt(v constant.Value) (*big.Int, bool) {
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return nil, false
	}
	n, ok := new(big.Int).SetString(v.ExactString(), 10)
	return n, ok
}

var globalIdx = map[*ssa.Global]int64{}

func (x *Exec) globalPtr(g *ssa.Global) Val {
	id, ok := globalIdx[g]
	if !ok {
		id = -int64(len(globalIdx) + 1)
		globalIdx[g] = id
	}
	return x.mkPtr(g.Type().Underlying().(*types.Pointer).Elem(), IntC(id), IntC(0))
}

func (x *Exec) nilCheck(st *State, p *PtrV, pos token.Pos) {
	if p.Base.Op == "int" {
		if p.Base.N.Sign() == 0 {
			x.check(st, "panic", "nil dereference", x.pos(pos), False)
		}
		return
	}
	if ok, _ := allocLike(p.Base); ok {
		return
	}
	if p.Base.Op == "app" {
		return
	}
	x.check(st, "panic", "no nil dereference", x.pos(pos), Not(Eq(p.Base, IntC(0))))
}

func (x *Exec) storeRec(st *State, p *PtrV, v Val) {
	x.recordStore(st, p)
	x.store(st, p, v)
}

func (x *Exec) recordStore(st *State, p *PtrV) {
	if len(x.rec) == 0 {
		return
	}
	t, pre := x.atPath(p.Root, p.Path)
	if p.ArrN >= 0 && len(p.Path) == 0 {
		for _, l := range x.leaves(p.Root) {
			x.recordWrite(hkey(p.Root, l.Path), p.Base)
		}
		return
	}
	x.recordAt(p.Root, t, pre, p.Base, p.Idx)
}

func (x *Exec) recordAt(root, t types.Type, pre string, base, idx *Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.recordAt(root, u.Field(i).Type(), join(pre, u.Field(i).Name()), base, idx)
		}
	case *types.Array:
		ab := x.arrBase(root, pre, base, idx)
		for _, l := range x.leaves(u.Elem()) {
			x.recordWrite(hkey(u.Elem(), l.Path), ab)
		}
	default:
		for _, l := range x.leaves(t) {
			k := hkey(root, join(pre, l.Path))
			if _, ok := x.heapLeaf[k]; !ok {
				x.heapLeaf[k] = l
			}
			x.recordWrite(k, base)
		}
	}
}

// fieldPtr is &p.f.
func (x *Exec) fieldPtr(p *PtrV, i int) *PtrV {
	t, pre := x.atPath(p.Root, p.Path)
	f := t.Underlying().(*types.Struct).Field(i)
	if a, ok := f.Type().Underlying().(*types.Array); ok {
		return &PtrV{Root: a.Elem(), Base: x.arrBase(p.Root, join(pre, f.Name()), p.Base, p.Idx), Idx: IntC(0), ArrN: a.Len()}
	}
	np := append(append([]int{}, p.Path...), i)
	return &PtrV{Root: p.Root, Base: p.Base, Idx: p.Idx, Path: np, ArrN: -1}
}

func (x *Exec) loadChecked(st *State, p *PtrV, pos token.Pos) Val {
	x.nilCheck(st, p, pos)
	if x.reads != nil {
		x.noteRead(st, p)
	}
	v := x.load(st, p)
	x.rangeAssume(st, v, p)
	return v
}

func (x *Exec) noteRead(st *State, p *PtrV) {
	if ok, _ := allocLike(p.Base); ok {
		return
	}
	if p.Base.Op == "int" && p.Base.N.Sign() < 0 {
		return // package-level constant tables
	}
	x.reads[typeKey(p.Root)] = true
}

// rangeAssume asserts machine ranges of integers read from memory.
func (x *Exec) rangeAssume(st *State, v Val, p *PtrV) {
	t, _ := x.atPath(p.Root, p.Path)
	if p.ArrN >= 0 && len(p.Path) == 0 {
		return
	}
	x.rangeOf(st, t, v)
}

func (x *Exec) rangeOf(st *State, t types.Type, v Val) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			if sv.F[i] != nil {
				x.rangeOf(st, u.Field(i).Type(), sv.F[i])
			}
		}
	case *types.Basic:
		w, ok := v.(*Term)
		if !ok || w.S != SInt || w.IsConst() {
			return
		}
		lo, hi := intRange(t)
		st.assume(Le(IntB(lo), w), Le(w, IntB(hi)))
	}
}
