package main

// One verification unit: a function with its contract, or a lemma.

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Unit struct {
	Name    string
	Ctr     *Contract
	Lemma   *Lemma
	Fn      *ssa.Function
	Obls    []*Obl
	Used    map[string]bool
	Trusted map[string]bool
	Inlined map[string]bool
	Err     string
	Absent  bool
	live    bool // some return is known to be reachable
	Invs    []string
	Rounds  int
	Paths   int
	Wall    time.Duration
	Splits  int
	UsedLem map[string]bool
}

type Verifier struct {
	prog          *Program
	spec          *SpecDB
	full          int
	quick         int
	chunk, chunks int             // which share of the cases of a split to verify
	inits         map[bool]*State // per U64Int mode: state after package initialisation
	initX         map[bool]*Exec
	mutG          map[*ssa.Global]bool
}

func (v *Verifier) newExec(u *Unit) *Exec {
	x := &Exec{prog: v.prog, spec: v.spec, unit: u, ctr: u.Ctr, lemma: u.Lemma,
		leafCache: map[types.Type][]Leaf{}, ifcTypes: map[string]types.Type{}, closFns: map[string]*ssa.Function{}, heapLeaf: map[string]Leaf{},
		cands: map[string][]*Cand{}, candSet: map[string]bool{}, loopMod: map[string]*modset{}, dedup: map[string]bool{},
		used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, loopInfo: map[*ssa.Function]*loops{}, covered: map[string]bool{}}
	if u.Ctr != nil {
		x.mode = u.Ctr.Mode
	}
	if u.Lemma != nil {
		x.mode = u.Lemma.Mode
	}
	floatReal = x.mode.Real
	return x
}

func newState() *State {
	return &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, env: map[envKey]Val{}, nextVar: Var("next!0", SInt), iters: map[string]int{}}
}

// ---- package initialisation ----

// initState executes the init functions of all packages and returns the contents of package-level variables.
func (v *Verifier) initFor(x *Exec) *State {
	st := newState()
	st.nextVar = IntC(-10000000)
	var names []string
	for p := range v.prog.SSA {
		names = append(names, p)
	}
	sort.Strings(names)
	x.mute++
	done := map[string]bool{}
	var run func(path string)
	run = func(path string) {
		if done[path] {
			return
		}
		done[path] = true
		for ip := range v.prog.Pkgs[path].Imports {
			if _, ok := v.prog.SSA[ip]; ok {
				run(ip)
			}
		}
		x.initPkg(st, v.prog.SSA[path], v)
	}
	for _, p := range names {
		run(p)
	}
	x.mute--
	return st
}

// initPkg executes the straight-line variable initialisers of one package. An initialiser the engine cannot
// execute leaves its variable arbitrary.
func (x *Exec) initPkg(st *State, p *ssa.Package, v *Verifier) {
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	x.frameN++
	fr := &Frame{id: x.frameN, fn: f, path: "init", stack: map[*ssa.Function]bool{f: true}}
	for _, b := range f.Blocks {
		if len(b.Instrs) < 3 && b != f.Blocks[0] {
			continue
		}
		for _, in := range b.Instrs {
			x.initInstr(st, fr, in)
		}
	}
	st.env = map[envKey]Val{}
}

func (x *Exec) initInstr(st *State, fr *Frame, in ssa.Instruction) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsup); ok {
				return
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "no value") {
				return
			}
			panic(r)
		}
	}()
	switch i := in.(type) {
	case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.DebugRef, *ssa.Phi:
	case *ssa.Store:
		if g, ok := i.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
			return
		}
		x.store(st, x.val(st, fr, i.Addr).(*PtrV), x.val(st, fr, i.Val))
	case *ssa.MapUpdate:
		x.mapUpdate(st, fr, i)
	case *ssa.Call:
		f := i.Call.StaticCallee()
		if f != nil && f.Name() == "init" {
			return
		}
		got := false
		x.call(st, fr, &i.Call, i.Pos(), func(s2 *State, res []Val) {
			if got {
				return
			}
			got = true
			if len(res) == 1 {
				st.env[envKey{fr.id, i}] = res[0]
			}
			if s2 != st {
				st.heap, st.ghost, st.nextOff, st.nextVar = s2.heap, s2.ghost, s2.nextOff, s2.nextVar
			}
		})
	case ssa.Value:
		st.env[envKey{fr.id, i}] = x.eval(st, fr, i)
	}
}

// mutatedGlobals: package-level variables some function other than init may change.
func (p *Program) mutatedGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	var root func(v ssa.Value, d int) *ssa.Global
	root = func(v ssa.Value, d int) *ssa.Global {
		if d > 20 {
			return nil
		}
		switch a := v.(type) {
		case *ssa.Global:
			return a
		case *ssa.FieldAddr:
			return root(a.X, d+1)
		case *ssa.IndexAddr:
			return root(a.X, d+1)
		case *ssa.UnOp:
			return root(a.X, d+1)
		case *ssa.Slice:
			return root(a.X, d+1)
		}
		return nil
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if f == nil {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if g := root(i.Addr, 0); g != nil {
						out[g] = true
					}
				case *ssa.MapUpdate:
					if g := root(i.Map, 0); g != nil {
						out[g] = true
					}
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
						if g := root(i.Call.Args[0], 0); g != nil {
							out[g] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, sp := range p.SSA {
		for _, m := range sp.Members {
			switch o := m.(type) {
			case *ssa.Function:
				if o.Name() != "init" {
					scan(o)
				}
			case *ssa.Type:
				for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := p.Prog.MethodValue(ms.At(i)); f != nil && isRepoFn(f) {
							scan(f)
						}
					}
				}
			}
		}
	}
	return out
}

// withGlobals gives package-level variables that are never reassigned their initial values.
func (v *Verifier) withGlobals(x *Exec, st *State) {
	tr := x.trusted
	x.trusted = map[string]bool{}
	init := v.initFor(x)
	x.trusted = tr
	for _, c := range init.pc {
		if c.Op == "not" && c.Args[0].Op == "=" && (c.Args[0].Args[0] == nilIfc || c.Args[0].Args[1] == nilIfc) {
			st.assume(c)
		}
	}
	if v.mutG == nil {
		v.mutG = v.prog.mutatedGlobals()
	}
	mutBase := map[string]bool{}
	for g := range v.mutG {
		if id, ok := globalIdx[g]; ok {
			mutBase[fmt.Sprint(id)] = true
		}
	}
	for k, h := range init.heap {
		// collect the store chain from the bottom
		var chain []*Term
		for t := h; t.Op == "store"; t = t.Args[0] {
			chain = append(chain, t)
		}
		if len(chain) == 0 {
			continue
		}
		bot := h
		for bot.Op == "store" {
			bot = bot.Args[0]
		}
		for i := len(chain) - 1; i >= 0; i-- {
			b := chain[i].Args[1]
			if b.Op == "int" && mutBase[b.N.String()] {
				continue
			}
			bot = Store(bot, b, chain[i].Args[2])
		}
		st.heap[k] = bot
	}
	// contents of fresh regions written through inner arrays refer to init's own heap; keep as is
}

// ---- verifying a function against its contract ----

func (v *Verifier) findAnon(ct *Contract) *ssa.Function {
	name := ct.Fn
	parts := strings.Split(name, "$")
	path := modPath + "/" + ct.Pkg
	if ct.Pkg == "." {
		path = modPath
	}
	f := v.prog.findFunc(path, parts[0])
	for _, p := range parts[1:] {
		if f == nil {
			return nil
		}
		n, err := strconv.Atoi(p)
		if err != nil { // the one that calls the function named
			f = anonCalling(f, p)
			continue
		}
		if n < 1 || n > len(f.AnonFuncs) {
			return nil
		}
		f = f.AnonFuncs[n-1]
	}
	return f
}

// anonCalling is the only function literal in f that calls a function or method of that name.
func anonCalling(f *ssa.Function, name string) *ssa.Function {
	var found *ssa.Function
	for _, g := range f.AnonFuncs {
		calls := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if h := c.Call.StaticCallee(); h != nil && h.Name() == name {
						calls = true
					}
				}
			}
		}
		if !calls {
			continue
		}
		if found != nil {
			return nil
		}
		found = g
	}
	return found
}

func (v *Verifier) verify(ct *Contract) *Unit {
	t0 := time.Now()
	u := &Unit{Name: ct.Name, Ctr: ct, Used: map[string]bool{}, Trusted: map[string]bool{}, Inlined: map[string]bool{}}
	defer func() { u.Wall = time.Since(t0) }()
	u.Fn = v.findAnon(ct)
	if u.Fn == nil {
		u.Absent = true
		return u
	}
	combos := [][]int64{nil}
	for _, s := range ct.Splits {
		var n [][]int64
		for _, c := range combos {
			for _, val := range s.Vals {
				n = append(n, append(append([]int64{}, c...), val))
			}
		}
		combos = n
	}
	if len(ct.Splits) > 0 && v.chunk == 0 {
		v.splitCover(u)
	}
	u.Splits = len(combos)
	if v.chunks > 1 { // this worker's share of the cases
		u.Splits = (len(combos)*(v.chunk+1))/v.chunks - (len(combos)*v.chunk)/v.chunks
		combos = combos[(len(combos)*v.chunk)/v.chunks : (len(combos)*(v.chunk+1))/v.chunks]
	}
	// invariants that do not hold in one case are not tried again in the next, unless that case then fails
	var known map[string]bool
	for _, c := range combos {
		if u.Err != "" {
			break
		}
		if known != nil {
			u2 := &Unit{live: u.live, Name: u.Name, Ctr: u.Ctr, Fn: u.Fn, Used: u.Used, Trusted: u.Trusted, Inlined: u.Inlined}
			full, tried := v.full, hopeless.Load()
			v.full = 0 // no time is wasted on a case that needs the full search
			got := v.verifyCombo(u2, c, known, false)
			v.full = full
			hopeless.Store(tried)
			if u2.Err == "" && len(u2.failures()) == 0 {
				u.Obls = append(u.Obls, u2.Obls...)
				u.Invs = append(u.Invs, u2.Invs...)
				u.Paths += u2.Paths
				u.Rounds += u2.Rounds
				u.live = u.live || u2.anyLive()
				v.saveHint(u, c, got)
				continue
			}
		}
		if h := v.hint(u, c); h != nil {
			u2 := &Unit{live: u.live, Name: u.Name, Ctr: u.Ctr, Fn: u.Fn, Used: u.Used, Trusted: u.Trusted, Inlined: u.Inlined}
			full, tried := v.full, hopeless.Load()
			v.full = (full + 1) / 2
			got := v.verifyCombo(u2, c, h, true)
			v.full = full
			if u2.Err == "" && len(u2.failures()) == 0 {
				u.Obls = append(u.Obls, u2.Obls...)
				u.Invs = append(u.Invs, u2.Invs...)
				u.Paths += u2.Paths
				u.Rounds += u2.Rounds
				u.live = u.live || u2.anyLive()
				known = got
				continue
			}
			hopeless.Store(tried)
		}
		known = v.verifyCombo(u, c, nil, false)
		v.saveHint(u, c, known)
		u.live = u.live || u.anyLive()
	}
	return u
}

func (v *Verifier) guard(u *Unit, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsup:
				u.Err = "outside the verifier's reach: " + e.msg
			case specErr:
				u.Err = "contract does not fit the code: " + e.msg
			default:
				if os.Getenv("GOV_PANIC") != "" {
					panic(r)
				}
				u.Err = fmt.Sprintf("verifier error: %v", r)
			}
		}
	}()
	f()
}

// entry builds the arbitrary initial state satisfying the precondition.
func (v *Verifier) entry(x *Exec, u *Unit, combo []int64) (*State, []Val, []Val, *SEnv) {
	ct := u.Ctr
	st := newState()
	x.freshN = 0
	v.withGlobals(x, st)
	x.freshN = 0
	x.extBases = nil
	x.inputs = nil
	st.assume(Lt(IntC(0), st.nextVar))
	var args, binds []Val
	x.argVals = map[string]SV{}
	if len(ct.Params) != len(u.Fn.Params)+len(u.Fn.FreeVars) && len(ct.Params) != len(u.Fn.Params) {
		panic(specErr{ct.File + ": contract of " + ct.Name + " has the wrong number of parameters"})
	}
	for i, p := range u.Fn.Params {
		a := x.freshVal(st, ct.Params[i], p.Type(), true)
		args = append(args, a)
		x.argVals[ct.Params[i]] = SV{V: a, T: p.Type()}
	}
	for i, fv := range u.Fn.FreeVars {
		b := x.freshVal(st, "fv_"+fv.Name(), fv.Type(), true)
		binds = append(binds, b)
		if j := len(u.Fn.Params) + i; j < len(ct.Params) {
			x.argVals[ct.Params[j]] = SV{V: b, T: fv.Type()}
		}
		if p, ok := b.(*PtrV); ok {
			st.assume(Not(Eq(p.Base, IntC(0)))) // captured variables exist
		}
	}
	x.applyArgs = nil
	if ct.IsApply {
		sig := applySig(u)
		if sig == nil || sig.Params().Len() != len(ct.Apply) {
			panic(specErr{ct.File + ": " + ct.Name + " does not return a function of " + fmt.Sprint(len(ct.Apply)) + " parameters"})
		}
		for i, n := range ct.Apply {
			t := sig.Params().At(i).Type()
			a := x.freshVal(st, n, t, true)
			x.applyArgs = append(x.applyArgs, a)
			x.argVals[n] = SV{V: a, T: t}
		}
	}
	for _, b := range x.extBases {
		st.assume(mk("<", SBool, nil, "", b, st.nextVar))
	}
	if ct.Conc != "" {
		me := Var("me", SInt)
		x.argVals["me"] = SV{V: me}
		st.assume(Not(Eq(me, IntC(0))))
	}
	env := &SEnv{x: x, st: st, names: x.argVals, pkg: ct.Pkg, sink: st}
	for i, s := range ct.Splits {
		if i >= len(combo) {
			break
		}
		v.applySplit(x, st, env, s, combo[i], args, u)
	}
	for i, p := range u.Fn.Params {
		args[i] = x.argVals[ct.Params[i]].V
		_ = p
	}
	for _, r := range ct.Requires {
		st.assume(env.boolean(r.E))
	}
	for _, l := range ct.Lets {
		x.argVals[l.Name] = env.eval(l.E)
	}
	for _, n := range ct.UseInst {
		st.assume(x.lemmaInst(env, n))
	}
	x.pre = st.clone()
	x.noteInputs(env, u)
	return st, args, binds, env
}

func (v *Verifier) applySplit(x *Exec, st *State, env *SEnv, s Split, val int64, args []Val, u *Unit) {
	cur := env.eval(s.Expr)
	t := env.asTerm(s.Expr, cur)
	if s.Mod > 0 {
		q := x.fresh("quot", SInt)
		n := Add(Mul(IntC(s.Mod), q), IntC(val))
		st.assume(Eq(t, n))
		x.argVals[s.Expr.Name] = SV{V: n, T: cur.T}
		if isUnsigned(cur.T) {
			panic(specErr{"residue split of an unsigned parameter"})
		}
		return
	}
	if s.Else && val == elseVal {
		for _, v := range s.Vals {
			if v != elseVal {
				st.assume(Not(Eq(t, env.toSort(s.Expr, IntC(v), t.S))))
			}
		}
		return
	}
	c := env.toSort(s.Expr, IntC(val), t.S)
	switch s.Expr.Op {
	case "ident":
		if old, ok := x.argVals[s.Expr.Name]; ok {
			if _, ok := old.V.(*Term); ok {
				x.argVals[s.Expr.Name] = SV{V: c, T: old.T}
				return
			}
		}
	case "sel":
		b := env.eval(s.Expr.Args[0])
		if p, ok := b.V.(*PtrV); ok {
			ft, _ := x.atPath(p.Root, p.Path)
			if stt, ok := ft.Underlying().(*types.Struct); ok {
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == s.Expr.Name {
						x.store(st, x.fieldPtr(p, i), c)
						return
					}
				}
			}
		}
	}
	st.assume(Eq(t, c))
}

func (v *Verifier) splitCover(u *Unit) {
	v.guard(u, func() {
		x := v.newExec(u)
		st, _, _, env := v.entry(x, u, nil)
		for _, s := range u.Ctr.Splits {
			if s.Mod > 0 || s.Else {
				continue // residues are exhaustive
			}
			t := env.term(s.Expr)
			var cs []*Term
			for _, val := range s.Vals {
				cs = append(cs, Eq(t, env.toSort(s.Expr, IntC(val), t.S)))
			}
			x.oblige(st, "split", "case split on "+nodeText(s.Expr)+" is exhaustive", u.Ctr.File, Or(cs...))
		}
		decide(x, x.obls, v.quick, v.full)
		u.Obls = append(u.Obls, x.obls...)
	})
}

func (x *Exec) noteInputs(env *SEnv, u *Unit) {
	var names []string
	for n := range x.argVals {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sv := x.argVals[n]
		switch w := sv.V.(type) {
		case *Term:
			if w.S.Kind != "Array" && w.S.Kind != "U" && !w.IsConst() {
				x.inputs = append(x.inputs, NamedTerm{n, w})
			}
		case *SliceV:
			x.inputs = append(x.inputs, NamedTerm{"len(" + n + ")", w.Len})
			if isByte(w.Elem) {
				h := Select(Var("H0!"+byteKey, ArrS(SInt, arr8)), w.Base)
				for i := int64(0); i < 4; i++ {
					x.inputs = append(x.inputs, NamedTerm{fmt.Sprintf("%s[%d]", n, i), Select(h, Add(w.Off, IntC(i)))})
				}
			}
		case *PtrV:
			if s, ok := w.Root.Underlying().(*types.Struct); ok && len(w.Path) == 0 && w.ArrN < 0 {
				for i := 0; i < s.NumFields(); i++ {
					if ss := x.scalarSort(s.Field(i).Type()); ss != nil && ss.Kind != "U" {
						k := hkey(w.Root, s.Field(i).Name())
						h, ok := x.pre.heap[k]
						if !ok {
							h = Var("H0!"+k, ArrS(SInt, ArrS(SInt, ss)))
						}
						t := Select(Select(h, w.Base), w.Idx)
						if !t.IsConst() {
							x.inputs = append(x.inputs, NamedTerm{n + "." + s.Field(i).Name(), t})
						}
					}
				}
			}
		}
	}
}

// verifyCombo verifies the function in one case of its splits. known holds the loop invariant candidates not
// to try; it returns those that do not hold.
// Hints: which loop invariant candidates did not hold when this unit was last verified (contracts/hints). They
// save trying them again; whatever is left is proved as ever, and if that fails all candidates are tried.
func hintFile(u *Unit, combo []int64) string {
	h := fnv.New64a()
	fmt.Fprint(h, u.Name, combo)
	return fmt.Sprintf("%016x", h.Sum64())
}

func hintKey(k string) string {
	h := fnv.New64a()
	h.Write([]byte(k))
	return fmt.Sprintf("%012x", h.Sum64()&0xffffffffffff)
}

func (v *Verifier) hint(u *Unit, combo []int64) map[string]bool {
	if os.Getenv("GOV_HINTS") == "off" || os.Getenv("GOV_SAVEHINTS") != "" {
		return nil
	}
	b, err := os.ReadFile(verifDir + "/contracts/hints/" + hintFile(u, combo))
	if err != nil {
		return nil
	}
	m := map[string]bool{}
	for _, l := range strings.Fields(string(b)) {
		m[l] = true
	}
	return m
}

func (v *Verifier) saveHint(u *Unit, combo []int64, dropped map[string]bool) {
	d := os.Getenv("GOV_SAVEHINTS")
	if d == "" || u.Err != "" || len(dropped) == 0 || len(u.failures()) > 0 {
		return
	}
	var ks []string
	for k := range dropped {
		ks = append(ks, hintKey(k))
	}
	sort.Strings(ks)
	os.WriteFile(d+"/"+hintFile(u, combo), []byte(strings.Join(ks, "\n")+"\n"), 0644)
}

func (v *Verifier) verifyCombo(u *Unit, combo []int64, known map[string]bool, hinted bool) map[string]bool {
	ct := u.Ctr
	tag := ""
	for i, s := range ct.Splits {
		tag += fmt.Sprintf("[%s=%d]", nodeText(s.Expr), combo[i])
	}
	dropped := map[string]bool{}
	hints := map[string]bool{}
	if hinted {
		hints, known = known, nil
	}
	for k := range known {
		dropped[k] = true
	}
	full := v.full
	if ct.Timeout > 0 && known == nil {
		full = ct.Timeout
	}
	var final *Exec
	v.guard(u, func() {
		for round := 0; round < 25; round++ {
			x := v.newExec(u)
			x.splitTag = tag
			x.droppedSet, x.hints = dropped, hints
			x.noReach = known != nil && u.live
			st, args, binds, env := v.entry(x, u, combo)
			if round == 0 && known == nil {
				o := x.oblige(st, "reach", "precondition is satisfiable "+tag, ct.File, False)
				if o != nil {
					o.Reach = true
				}
			}
			if ct.Conc != "" {
				x.conc = newConc(x, ct.Conc, st, env)
			}
			x.runUnit(st, u, args, binds)
			u.Rounds++
			final = x
			var cs, rest []*Obl
			for _, o := range x.obls {
				if o.Cand != nil {
					cs = append(cs, o)
				} else {
					rest = append(rest, o)
				}
			}
			cq := v.quick
			if cq > 3 {
				cq = 3
			}
			decide(x, cs, cq, 0)
			// invariants taken from the contract get a second, longer attempt
			var again []*Obl
			for _, o := range cs {
				if o.Status == "unknown" && o.Cand.Kind == "" {
					o.Status = ""
					again = append(again, o)
				}
			}
			if len(again) > 0 {
				decide(x, again, v.quick+3, 0, true)
			}
			n := 0
			for _, o := range cs {
				k := o.Cand.Loop + "|" + o.Cand.Src
				if o.Status != "proved" && !dropped[k] {
					dropped[k] = true
					n++
					if debugObl {
						fmt.Fprintf(os.Stderr, "  drop %s %s: %s (%s)\n", o.Kind, o.Cand.Src, o.Status, o.Pos)
						if os.Getenv("GOV_DUMP") != "" && o.Cand.Kind == "" {
							dumpN++
							os.WriteFile(fmt.Sprintf("%s/cand%d.smt2", os.Getenv("GOV_DUMP"), dumpN), []byte("; "+o.Desc+"\n"+o.Script), 0644)
						}
					}
				}
			}
			if n > 0 {
				continue
			}
			decide(x, rest, v.quick, full)
			// invariants that held are obligations too
			for _, o := range x.obls {
				o.Desc += tagSuffix(tag)
			}
			u.Obls = append(u.Obls, x.obls...)
			for k, c := range x.cands {
				for _, q := range c {
					if !q.Dropped && !dropped[k+"|"+q.Src] {
						u.Invs = append(u.Invs, k+": "+q.Src)
					}
				}
			}
			break
		}
	})
	if final != nil {
		for k := range final.used {
			u.Used[k] = true
		}
		for k := range final.trusted {
			u.Trusted[k] = true
		}
		for k := range final.inlined {
			u.Inlined[k] = true
		}
		u.Paths += final.paths
	}
	return dropped
}

var dumpN = 0

func tagSuffix(t string) string {
	if t == "" {
		return ""
	}
	return " " + t
}

// runUnit executes the body and emits the obligations at every return.
func (x *Exec) runUnit(st *State, u *Unit, args, binds []Val) {
	ct := u.Ctr
	exits := 0
	rt := u.Fn.Signature.Results()
	run := func(k cont) { x.callFn(st, u.Fn, binds, args, nil, k) }
	if ct.IsApply {
		// the contract is that of the function value returned: call it, in the state it was returned in
		rt = applySig(u).Results()
		pre0 := x.pre
		run = func(k cont) {
			x.callFn(st, u.Fn, binds, args, nil, func(st *State, res []Val) {
				if x.mute == 0 {
					x.frameCheck(st, &SEnv{x: x, st: st, old: x.pre, names: x.argVals, pkg: ct.Pkg, sink: st}, &Contract{}, x.pos(u.Fn.Pos()))
				}
				x.pre = st.clone()
				fr := &Frame{id: -7, fn: u.Fn, path: "apply", stack: map[*ssa.Function]bool{}}
				x.callValue(st, fr, res[0], u.Fn.Signature.Results().At(0).Type(), x.applyArgs, token.NoPos, k)
				x.pre = pre0
			})
		}
	}
	run(func(st *State, res []Val) {
		if x.mute > 0 {
			return
		}
		exits++
		env := &SEnv{x: x, st: st, old: x.pre, names: map[string]SV{}, pkg: ct.Pkg, sink: st}
		for k, v := range x.argVals {
			env.names[k] = v
		}
		if len(ct.Results) > 0 && len(ct.Results) != rt.Len() {
			panic(specErr{ct.File + ": result count"})
		}
		for i, r := range ct.Results {
			env.names[r] = SV{V: res[i], T: rt.At(i).Type()}
		}
		var extra []*Term
		for _, h := range ct.Hints {
			extra = append(extra, env.term(h.E))
		}
		// evaluate all first: loads contribute facts
		var goals [][]*Term
		for _, e := range ct.Ensures {
			goals = append(goals, env.goals(e.E, ct))
		}
		pos := x.pos(u.Fn.Pos())
		n0 := len(x.obls)
		x.checkDefines(st, ct, res, env, pos)
		if x.conc != nil {
			x.conc.exit(x, st)
		}
		if exits <= 4 && !x.noReach {
			if o := x.oblige(st, "reach", "a return is reachable", pos, False); o != nil {
				o.Reach = true
			}
		}
		for i, e := range ct.Ensures {
			for _, g := range goals[i] {
				x.oblige(st, "post", "postcondition: "+e.Src, e.Line, g)
			}
		}
		x.frameCheck(st, env, ct, pos)
		for _, o := range x.obls[n0:] {
			o.Extra = append(o.Extra, extra...)
		}
	})
	if exits == 0 {
		x.oblige(st, "reach", "the function returns on some path", x.pos(u.Fn.Pos()), False)
	}
}

// applySig is the type of the function value the unit's function returns.
func applySig(u *Unit) *types.Signature {
	rs := u.Fn.Signature.Results()
	if rs.Len() != 1 {
		return nil
	}
	s, _ := rs.At(0).Type().Underlying().(*types.Signature)
	return s
}

// checkDefines: results and path conditions mention nothing but the arguments, so the results are functions
// of them.
func (x *Exec) checkDefines(st *State, ct *Contract, res []Val, env *SEnv, pos string) {
	if len(ct.Defines) == 0 {
		return
	}
	ok := map[*Term]bool{nilIfc: true}
	for _, p := range ct.Params {
		if t, isT := x.argVals[p].V.(*Term); isT {
			ok[t] = true
		}
	}
	bad := ""
	look := func(t *Term) {
		walk(map[int]bool{}, t, func(s *Term) {
			if s.Op == "var" && !ok[s] && !strings.HasPrefix(s.Str, "lit!") && !strings.HasPrefix(s.Str, "err!") {
				bad = s.Str
			}
		})
	}
	for i := range ct.Defines {
		if t, isT := res[i].(*Term); isT {
			look(t)
		} else {
			bad = "a composite result"
		}
	}
	n := len(x.pre.pc)
	for _, c := range st.pc[n:] {
		look(c)
	}
	g := True
	d := "the results are functions of the arguments alone"
	if bad != "" && scalarCode(x.unit.Fn, map[*ssa.Function]bool{}) {
		bad = ""
	}
	if bad != "" {
		g = False
		d += " (found " + bad + ")"
	}
	x.oblige(st, "post", d, pos, g)
}

// scalarCode: deterministic code over its scalar arguments that touches no memory.
func scalarCode(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "math" {
		return true
	}
	if f.Blocks == nil || len(f.FreeVars) > 0 {
		return false
	}
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.ChangeType, *ssa.DebugRef, *ssa.Extract:
			case *ssa.UnOp:
				if v.Op == token.MUL || v.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				g := v.Call.StaticCallee()
				if g == nil || !scalarCode(g, seen) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// goals evaluates a postcondition, splitting a quantifier into residue classes where the contract asks for it.
func (e *SEnv) goals(n *Node, ct *Contract) []*Term {
	if n.Op == "forall" && len(n.Vars) == 1 {
		for _, c := range ct.Cases {
			if n.Vars[0].Name != c.Var {
				continue
			}
			var out []*Term
			q := e.x.fresh("quot", SInt)
			for r := int64(0); r < c.Mod; r++ {
				b := e.child()
				b.names[c.Var] = SV{V: Add(Mul(IntC(c.Mod), q), IntC(r))}
				out = append(out, b.boolean(n.Args[0]))
			}
			return out
		}
	}
	return []*Term{e.boolean(n)}
}

// frameCheck: memory that existed at entry is unchanged outside the modifies clause.
func (x *Exec) frameCheck(st *State, env *SEnv, ct *Contract, pos string) {
	pe := env.child()
	pe.st, pe.old, pe.inOld = x.pre, x.pre, false
	var ls []loc
	for _, m := range ct.Modifies {
		ls = append(ls, pe.locs(m.E)...)
	}
	next := x.pre.nextTerm()
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h := st.heap[k]
		h0, ok := x.pre.heap[k]
		if !ok {
			h0 = Var("H0!"+k, h.S)
		}
		if h == h0 {
			continue
		}
		// drop stores to fresh regions
		cur := h
		all := false
		for _, l := range ls {
			if l.key == k && l.kind == "all" {
				all = true
			}
		}
		if all {
			continue
		}
		stripped := stripFresh(cur)
		if stripped == stripFresh(h0) {
			continue
		}
		x.freshN++
		b := Var(fmt.Sprintf("frame!b~%d", x.freshN), SInt)
		i := Var(fmt.Sprintf("frame!i~%d", x.freshN), h.S.Elem.Idx)
		hyp := []*Term{mk("<", SBool, nil, "", b, next)}
		var allowed []*Term
		for _, l := range ls {
			if l.key != k {
				continue
			}
			switch l.kind {
			case "region":
				hyp = append(hyp, Not(mkEq(b, l.base)))
			case "cell":
				allowed = append(allowed, And(mkEq(b, l.base), mkEq(i, l.idx)))
			case "range":
				allowed = append(allowed, And(mkEq(b, l.base), Le(l.lo, i), Lt(i, l.hi)))
			}
		}
		goal := Imp(And(append(hyp, Not(Or(allowed...)))...), Eq(Select(Select(stripped, b), i), Select(Select(h0, b), i)))
		x.oblige(st, "frame", "nothing else changes: "+k, pos, goal)
	}
	keys = nil
	for k := range st.ghost {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := st.ghost[k]
		g0, ok := x.pre.ghost[k]
		if !ok {
			g0 = Var("G0!"+k, g.S)
		}
		if g == g0 {
			continue
		}
		whole := false
		var hyp []*Term
		x.freshN++
		w := Var(fmt.Sprintf("frame!w~%d", x.freshN), SIfc)
		for _, l := range ls {
			if l.kind == "ghost" && l.key == k {
				if l.idx == nil {
					whole = true
				} else {
					hyp = append(hyp, Not(mkEq(w, l.idx)))
				}
			}
		}
		if whole {
			continue
		}
		if g.S.Kind != "Array" || g.S.Idx != SIfc {
			x.oblige(st, "frame", "ghost "+k+" unchanged", pos, Eq(g, g0))
			continue
		}
		for g.Op == "store" && freshIfc(g.Args[1]) {
			g = g.Args[0]
		}
		x.oblige(st, "frame", "streams other than those named are untouched: "+k, pos, Imp(And(hyp...), Eq(Select(g, w), Select(g0, w))))
	}
}

func freshIfc(t *Term) bool {
	if t.Op == "app" && strings.HasPrefix(t.Str, "mkifc!") && len(t.Args) > 0 {
		ok, _ := allocLike(t.Args[0])
		return ok
	}
	return false
}

func freshBaseT(b *Term) bool {
	if ok, _ := allocLike(b); ok {
		return true
	}
	return b.Op == "app" && strings.HasPrefix(b.Str, "arrbase!") && freshBaseT(b.Args[0])
}

func stripFresh(h *Term) *Term {
	if h.Op == "store" {
		r := stripFresh(h.Args[0])
		if freshBaseT(h.Args[1]) {
			return r
		}
		return Store(r, h.Args[1], h.Args[2])
	}
	return h
}

// ---- lemmas ----

func (x *Exec) lemmaEnv(l *Lemma, mkv func(p Param, s *Sort) *Term) (*SEnv, []*Term, []*Term) {
	env := &SEnv{x: x, st: newState(), names: map[string]SV{}, pkg: l.Pkg}
	var vs, dom []*Term
	for _, p := range l.Params {
		s := x.sortOf(p.Sort)
		if s == nil {
			panic(specErr{l.Line + ": sort " + p.Sort})
		}
		v := mkv(p, s)
		if s == SInt {
			switch p.Sort {
			case "u64":
				dom = append(dom, Le(IntC(0), v), Lt(v, IntB(pow2(64))))
			}
		}
		vs = append(vs, v)
		env.names[p.Name] = SV{V: v}
	}
	return env, vs, dom
}

func (x *Exec) lemmaAxioms() []*Term {
	if x.lemAx != nil {
		return x.lemAx
	}
	x.lemAx = []*Term{}
	var use []string
	if x.ctr != nil {
		use = x.ctr.Use
	}
	if x.lemma != nil {
		use = x.lemma.Use
	}
	for _, n := range use {
		l := x.spec.Lemmas[n]
		if l == nil {
			panic(specErr{"unknown lemma " + n})
		}
		x.lemAx = append(x.lemAx, x.lemmaAxiom(l))
	}
	return x.lemAx
}

// lemmaInst: a lemma at given arguments.
func (x *Exec) lemmaInst(env *SEnv, n *Node) *Term {
	if n.Op != "call" || n.Args[0].Op != "ident" {
		panic(specErr{"not a lemma instance: " + n.Src})
	}
	l, args := x.spec.Lemmas[n.Args[0].Name], n.Args[1:]
	if l == nil || len(args) != len(l.Params) {
		panic(specErr{"no such lemma: " + n.Src})
	}
	i := -1
	lenv, _, dom := x.lemmaEnv(l, func(p Param, s *Sort) *Term {
		i++
		return env.toSort(args[i], env.term(args[i]), s)
	})
	hyp := dom
	for _, r := range l.Requires {
		hyp = append(hyp, lenv.boolean(r.E))
	}
	var con []*Term
	for _, e := range l.Ensures {
		con = append(con, lenv.boolean(e.E))
	}
	return Imp(And(hyp...), And(con...))
}

func (x *Exec) lemmaAxiom(l *Lemma) *Term {
	env, vs, dom := x.lemmaEnv(l, func(p Param, s *Sort) *Term { return BVar(p.Name, s) })
	hyp := dom
	for _, r := range l.Requires {
		hyp = append(hyp, env.boolean(r.E))
	}
	var con []*Term
	for _, e := range l.Ensures {
		con = append(con, env.boolean(e.E))
	}
	var pats [][]*Term
	for _, p := range l.Pats {
		var q []*Term
		for _, n := range p {
			q = append(q, env.term(n))
		}
		pats = append(pats, q)
	}
	return Forall(vs, Imp(And(hyp...), And(con...)), pats...)
}

func (v *Verifier) verifyLemma(l *Lemma) *Unit {
	t0 := time.Now()
	u := &Unit{Name: "lemma " + l.Name, Lemma: l, Used: map[string]bool{}, Trusted: map[string]bool{}, Inlined: map[string]bool{}}
	defer func() { u.Wall = time.Since(t0) }()
	full := v.full
	if l.Timeout > 0 {
		full = l.Timeout
	}
	combos := [][]int64{nil}
	for _, s := range l.Splits {
		var n [][]int64
		for _, c := range combos {
			for _, val := range s.Vals {
				n = append(n, append(append([]int64{}, c...), val))
			}
		}
		combos = n
	}
	v.guard(u, func() {
		for _, combo := range combos {
			x := v.newExec(u)
			env, _, dom := x.lemmaEnv(l, func(p Param, s *Sort) *Term { return Var("lem!"+p.Name, s) })
			st := newState()
			for _, p := range l.Params {
				x.inputs = append(x.inputs, NamedTerm{p.Name, env.names[p.Name].V.(*Term)})
			}
			for i, s := range l.Splits {
				if i < len(combo) && s.Expr.Op == "ident" {
					old := env.names[s.Expr.Name]
					if s.Mod > 0 {
						q := x.fresh("q!"+s.Expr.Name, SInt)
						env.names[s.Expr.Name] = SV{V: Add(Mul(IntC(s.Mod), q), IntC(combo[i]))}
						continue
					}
					c := env.toSort(s.Expr, IntC(combo[i]), old.V.(*Term).S)
					env.names[s.Expr.Name] = SV{V: c}
				}
			}
			st.assume(dom...)
			for _, r := range l.Requires {
				st.assume(env.boolean(r.E))
			}
			if o := x.oblige(st, "reach", "hypotheses are satisfiable", l.Line, False); o != nil {
				o.Reach = true
			}
			for _, n := range l.UseInst {
				st.assume(x.lemmaInst(env, n))
			}
			if l.Induct != "" {
				n := env.names[l.Induct].V.(*Term)
				// induction hypothesis for n-1, all other parameters arbitrary
				bound := map[string]*Term{}
				henv, vs, hdom := x.lemmaEnv(l, func(p Param, s *Sort) *Term {
					if p.Name == l.Induct {
						return Sub(n, IntC(1))
					}
					b := BVar(p.Name, s)
					bound[p.Name] = b
					return b
				})
				var hyp, con []*Term
				hyp = append(hyp, hdom...)
				for _, r := range l.Requires {
					hyp = append(hyp, henv.boolean(r.E))
				}
				for _, e := range l.Ensures {
					con = append(con, henv.boolean(e.E))
				}
				var bv []*Term
				for _, b := range vs {
					if b.Op == "bvar" {
						bv = append(bv, b)
					}
				}
				ih := Forall(bv, Imp(And(hyp...), And(con...)))
				st.assume(Imp(Lt(IntC(0), n), ih))
				// instance with the same parameters
				m := map[*Term]*Term{n: Sub(n, IntC(1))}
				var hs, cs []*Term
				for _, r := range l.Requires {
					hs = append(hs, Subst(env.boolean(r.E), m))
				}
				for _, e := range l.Ensures {
					cs = append(cs, Subst(env.boolean(e.E), m))
				}
				st.assume(Imp(And(append(hs, Lt(IntC(0), n))...), And(cs...)))
			}
			var extra []*Term
			for _, h := range l.Hints {
				extra = append(extra, env.term(h.E))
			}
			n0 := len(x.obls)
			for _, e := range l.Ensures {
				x.oblige(st, "lemma", e.Src, e.Line, env.boolean(e.E))
			}
			for _, o := range x.obls[n0:] {
				o.Extra = extra
			}
			for i, s := range l.Splits {
				if len(combo) > 0 && combo[0] == s.Vals[0] && i == 0 {
					// exhaustiveness is the caller's requires clause
					_ = s
				}
			}
			decide(x, x.obls, v.quick, full)
			u.Obls = append(u.Obls, x.obls...)
		}
		if len(l.Splits) > 0 {
			x := v.newExec(u)
			env, _, dom := x.lemmaEnv(l, func(p Param, s *Sort) *Term { return Var("lem!"+p.Name, s) })
			st := newState()
			st.assume(dom...)
			for _, r := range l.Requires {
				st.assume(env.boolean(r.E))
			}
			for _, s := range l.Splits {
				if s.Mod > 0 {
					continue
				}
				t := env.term(s.Expr)
				var cs []*Term
				for _, val := range s.Vals {
					cs = append(cs, Eq(t, env.toSort(s.Expr, IntC(val), t.S)))
				}
				x.oblige(st, "split", "case split is exhaustive", l.Line, Or(cs...))
			}
			decide(x, x.obls, v.quick, full)
			u.Obls = append(u.Obls, x.obls...)
		}
	})
	return u
}

// exits counts the returns looked at and those that cannot be reached.
func (u *Unit) exits() (n, dead int) {
	for _, o := range u.Obls {
		if o.Reach && strings.HasPrefix(o.Desc, "a return") {
			n++
			if o.Status == "proved" {
				dead++
			}
		}
	}
	return
}

func (u *Unit) anyLive() bool {
	n, dead := u.exits()
	return n > dead
}

// failures lists what went wrong in a unit.
func (u *Unit) failures() []*Obl {
	var out []*Obl
	if u.Err != "" {
		pos := ""
		if u.Ctr != nil {
			pos = u.Ctr.File
		}
		out = append(out, &Obl{Unit: u.Name, Kind: "reach", Desc: u.Err, Pos: pos, Status: "unknown"})
	}
	for _, o := range u.Obls {
		if o.Reach {
			if !strings.HasPrefix(o.Desc, "a return") && o.Status == "proved" {
				out = append(out, &Obl{Unit: u.Name, Kind: "vacuous", Desc: o.Desc, Pos: o.Pos, Status: "failed"})
			}
			continue
		}
		if o.Status != "proved" && (o.Cand == nil) {
			out = append(out, o)
		}
	}
	return out
}
