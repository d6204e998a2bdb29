package main

// Models of the standard library: what the verifier assumes about functions outside /repo.

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

type model func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont)
type ifcModel func(x *Exec, st *State, fr *Frame, recv *Term, args []Val, pos token.Pos, k cont)

var models map[string]model
var ifcModels map[string]ifcModel

func one1(v ...Val) []Val { return v }

// bytesBE/LE access of n bytes at the start of slice s
func (x *Exec) leGet(st *State, s *SliceV, n int, big bool, pos token.Pos) *Term {
	x.bounds(st, IntC(int64(n-1)), s.Len, pos)
	if x.conc != nil {
		x.conc.touch(x, st, s.Base)
	}
	if x.reads != nil {
		x.noteRead(st, &PtrV{Root: byteT, Base: s.Base, Idx: s.Off, ArrN: -1})
	}
	arr := x.byteArr(st, s.Base)
	var r *Term
	for i := 0; i < n; i++ {
		b := Select(arr, Add(s.Off, IntC(int64(i))))
		if r == nil {
			r = b
		} else if big {
			r = Concat(r, b)
		} else {
			r = Concat(b, r)
		}
	}
	return r
}

func (x *Exec) lePut(st *State, s *SliceV, v *Term, n int, big bool, pos token.Pos) {
	x.bounds(st, IntC(int64(n-1)), s.Len, pos)
	if x.conc != nil {
		x.conc.touch(x, st, s.Base)
	}
	if v.S == SInt {
		v = Int2Bv(v, n*8)
	}
	arr := x.byteArr(st, s.Base)
	for i := 0; i < n; i++ {
		j := i
		if big {
			j = n - 1 - i
		}
		arr = Store(arr, Add(s.Off, IntC(int64(i))), Extract(j*8+7, j*8, v))
	}
	x.setByteArr(st, s.Base, arr)
}

func (x *Exec) u64Val(v *Term) *Term {
	if x.mode.U64Int && v.S.Bits >= 32 {
		return Bv2Int(v)
	}
	return v
}

// freshErr is some non-nil error.
func (x *Exec) freshErr(st *State, name string) *Term {
	e := x.fresh("error!"+name, SIfc)
	st.assume(Not(Eq(e, nilIfc)))
	return e
}

func errVar(name string) *Term { return Var("err!"+name, SIfc) }

// writeBytes appends p[:n] to the ghost output of writer w.
func (x *Exec) outAppend(st *State, w *Term, arr, off, n *Term) {
	ln := x.ghostRead(st, "out.len", w)
	st.assume(Le(IntC(0), ln))
	old := x.ghostRead(st, "out.arr", w)
	na := x.splice(st, old, ln, arr, off, n)
	x.ghostSet(st, "out.arr", w, na)
	x.ghostSet(st, "out.len", w, Add(ln, n))
}

func modelWrite(x *Exec, st *State, fr *Frame, w *Term, args []Val, pos token.Pos, k cont) {
	p := args[0].(*SliceV)
	arr, off, ln := x.srcArr(st, p, 0, p.Elem)
	nofail := App("nofail", SBool, w)
	x.ghostSet(st, "out.calls", w, Add(x.ghostRead(st, "out.calls", w), IntC(1)))
	// complete write without error
	s2 := st.clone()
	x.outAppend(s2, w, arr, off, ln)
	k(s2, one1(ln, &IfaceV{}))
	// error after n bytes
	st.assume(Not(nofail))
	n := x.freshLen("wn")
	st.assume(Le(n, ln))
	x.outAppend(st, w, arr, off, n)
	e := x.freshErr(st, "write")
	x.ghostSet(st, "out.fails", w, Add(x.ghostRead(st, "out.fails", w), IntC(1)))
	k(st, one1(n, e))
}

// Readers: in!arr(r) is everything the reader will ever deliver, in!len(r) bytes, then in!err(r).
func inArr(r *Term) *Term { return App("in!arr", arr8, r) }
func inLen(r *Term) *Term { return App("in!len", SInt, r) }
func inErr(r *Term) *Term { return App("in!err", SIfc, r) }

func (x *Exec) inPos(st *State, r *Term) *Term {
	p := x.ghostRead(st, "in.pos", r)
	st.assume(Le(IntC(0), p), Le(p, inLen(r)), Le(inLen(r), IntB(maxLen)), Not(Eq(inErr(r), nilIfc)))
	return p
}

// readInto delivers n bytes of reader r into s and leaves arbitrary bytes in the rest of s.
func (x *Exec) readInto(st *State, r *Term, s *SliceV, n *Term, scribble bool) {
	p := x.inPos(st, r)
	old := x.byteArr(st, s.Base)
	if n == s.Len || !scribble {
		x.setByteArr(st, s.Base, x.splice(st, old, s.Off, inArr(r), p, n))
	} else {
		na := x.fresh("rd", arr8)
		v := BVar("i", SInt)
		in := And(Le(s.Off, v), Lt(v, Add(s.Off, n)))
		sc := And(Le(s.Off, v), Lt(v, Add(s.Off, s.Len)))
		junk := x.fresh("junk", arr8)
		st.assume(Forall([]*Term{v}, Eq(Select(na, v), Ite(in, Select(inArr(r), Add(v, Sub(p, s.Off))), Ite(sc, Select(junk, v), Select(old, v)))), []*Term{Select(na, v)}))
		x.setByteArr(st, s.Base, na)
	}
	x.ghostSet(st, "in.pos", r, Add(p, n))
}

func modelReadFull(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	r := x.scalarTerm(f.Signature.Params().At(0).Type(), args[0])
	s := args[1].(*SliceV)
	p := x.inPos(st, r)
	avail := Sub(inLen(r), p)
	eof := errVar("io.EOF")
	enough := Le(s.Len, avail)
	if enough != False {
		s2 := st.clone()
		s2.assume(enough)
		x.readInto(s2, r, s, s.Len, true)
		k(s2, one1(s.Len, &IfaceV{}))
	}
	st.assume(Not(enough))
	n := avail
	x.readInto(st, r, s, n, true)
	e := Ite(Eq(inErr(r), eof), Ite(Eq(n, IntC(0)), eof, errVar("io.ErrUnexpectedEOF")), inErr(r))
	k(st, one1(n, e))
}

// modelReadAll: everything the reader still has, up to the limit of an io.LimitReader, in a fresh slice.
func modelReadAll(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	r := x.scalarTerm(f.Signature.Params().At(0).Type(), args[0])
	var lim *Term
	if r.Op == "app" && r.Str == "limrd" {
		r, lim = r.Args[0], r.Args[1]
		lim = Ite(Lt(lim, IntC(0)), IntC(0), lim)
	}
	p := x.inPos(st, r)
	avail := Sub(inLen(r), p)
	eof := errVar("io.EOF")
	deliver := func(st *State, n *Term, e Val) {
		b := x.allocRegion(st)
		x.setByteArr(st, b, x.splice(st, x.fresh("rall", arr8), IntC(0), inArr(r), p, n))
		x.ghostSet(st, "in.pos", r, Add(p, n))
		c := x.freshLen("rallcap")
		st.assume(Le(n, c), Lt(c, IntB(maxLen)))
		k(st, one1(&SliceV{byteT, b, IntC(0), n, c}, e))
	}
	if lim != nil {
		s2 := st.clone()
		s2.assume(Le(lim, avail))
		// a reader may report its error together with the last bytes
		e := x.fresh("rallerr", SIfc)
		s2.assume(Or(Eq(e, nilIfc), And(Eq(lim, avail), Eq(e, inErr(r)), Not(Eq(e, eof)))))
		deliver(s2, lim, e)
		st.assume(Lt(avail, lim))
	}
	deliver(st, avail, Ite(Eq(inErr(r), eof), nilIfc, inErr(r)))
}

func modelRead(x *Exec, st *State, fr *Frame, r *Term, args []Val, pos token.Pos, k cont) {
	s := args[0].(*SliceV)
	p := x.inPos(st, r)
	avail := Sub(inLen(r), p)
	n := x.freshLen("rn")
	st.assume(Le(n, s.Len), Le(n, avail))
	e := x.fresh("rerr", SIfc)
	st.assume(Imp(Eq(avail, IntC(0)), Or(Eq(e, inErr(r)), And(Eq(s.Len, IntC(0)), Eq(e, nilIfc)))))
	st.assume(Imp(Lt(n, avail), Eq(e, nilIfc)))
	st.assume(Or(Eq(e, nilIfc), Eq(e, inErr(r))))
	// a reader with data left and room to put it returns some of it (io.Reader discourages 0, nil)
	x.trust("readers do not return 0, nil for a non-empty buffer")
	st.assume(Imp(And(Lt(IntC(0), avail), Lt(IntC(0), s.Len)), Lt(IntC(0), n)))
	x.readInto(st, r, s, n, true)
	k(st, one1(n, e))
}

func bytesEqual(x *Exec, st *State, a, b *SliceV) *Term {
	return Eq(x.sliceStr(st, a), x.sliceStr(st, b))
}

func init() {
	le := func(n int, big bool) model {
		return func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, one1(x.u64Val(x.leGet(st, args[len(args)-1].(*SliceV), n, big, pos))))
		}
	}
	put := func(n int, big bool) model {
		return func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			x.lePut(st, args[len(args)-2].(*SliceV), args[len(args)-1].(*Term), n, big, pos)
			k(st, nil)
		}
	}
	uf := func(name string) model {
		return func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, x.ufCall(st, name, f.Signature, args))
		}
	}
	nop := func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
		k(st, x.freshResults(st, f.Signature))
	}
	mathUF := func(name string) model {
		return func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, a.(*Term))
			}
			k(st, one1(App("math!"+name, F64Sort(), ts...)))
		}
	}
	models = map[string]model{
		"(encoding/binary.littleEndian).Uint64":    le(8, false),
		"(encoding/binary.littleEndian).Uint32":    le(4, false),
		"(encoding/binary.littleEndian).Uint16":    le(2, false),
		"(encoding/binary.bigEndian).Uint64":       le(8, true),
		"(encoding/binary.bigEndian).Uint32":       le(4, true),
		"(encoding/binary.bigEndian).Uint16":       le(2, true),
		"(encoding/binary.littleEndian).PutUint64": put(8, false),
		"(encoding/binary.littleEndian).PutUint32": put(4, false),
		"(encoding/binary.littleEndian).PutUint16": put(2, false),
		"(encoding/binary.bigEndian).PutUint64":    put(8, true),
		"(encoding/binary.bigEndian).PutUint32":    put(4, true),
		"(encoding/binary.bigEndian).PutUint16":    put(2, true),
		"math.Float64frombits": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, one1(bits2f(x.toBV64(args[0].(*Term)))))
		},
		"math.Float64bits": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, one1(x.u64Val(App("f2bits", BV(64), args[0].(*Term)))))
		},
		"math.NaN": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			if floatReal {
				k(st, one1(Var("nan!real", SReal)))
				return
			}
			k(st, one1(mk("f64c", SF64, bigHex("7ff8000000000001"), "")))
		},
		"math.Inf": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			if floatReal {
				panic(unsupported("infinity over the reals"))
			}
			pinf, ninf := mk("f64c", SF64, bigHex("7ff0000000000000"), ""), mk("f64c", SF64, bigHex("fff0000000000000"), "")
			k(st, one1(Ite(Le(IntC(0), args[0].(*Term)), pinf, ninf)))
		},
		"math.IsNaN": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			a := args[0].(*Term)
			if floatReal {
				k(st, one1(False))
				return
			}
			k(st, one1(Not(fcmp(token.EQL, a, a))))
		},
		"math.Ceil": mathUF("ceil"), "math.Floor": mathUF("floor"), "math.Log": mathUF("log"), "math.Exp": mathUF("exp"),
		"math.Pow": mathUF("pow"), "math.Sqrt": mathUF("sqrt"), "math.Abs": mathUF("abs"), "math.Log2": mathUF("log2"), "math.Log1p": mathUF("log1p"),
		"io.ReadFull": modelReadFull,
		"io.LimitReader": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			r := x.scalarTerm(f.Signature.Params().At(0).Type(), args[0])
			k(st, one1(App("limrd", SIfc, r, args[1].(*Term))))
		},
		"io/ioutil.ReadAll": modelReadAll,
		"io.ReadAll":        modelReadAll,
		"errors.New": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, one1(x.freshErr(st, "new")))
		},
		"fmt.Errorf": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, one1(x.freshErr(st, "errorf")))
		},
		"fmt.Sprintf": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, x.ufCall(st, "sprintf", f.Signature, args))
		},
		"bytes.Equal": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, one1(bytesEqual(x, st, args[0].(*SliceV), args[1].(*SliceV))))
		},
		"bytes.Compare": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			a, b := x.sliceStr(st, args[0].(*SliceV)), x.sliceStr(st, args[1].(*SliceV))
			k(st, one1(Ite(Eq(a, b), IntC(0), Ite(App("strlt", SBool, a, b), IntC(-1), IntC(1)))))
		},
		"bytes.IndexByte": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			s, c := args[0].(*SliceV), args[1].(*Term)
			x.indexByte(st, x.byteArr(st, s.Base), s.Off, s.Len, c, k)
		},
		"strings.IndexByte": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			arr, off, n := x.srcArr(st, args[0], 0, byteT)
			x.indexByte(st, arr, off, n, args[1].(*Term), k)
		},
		"bytes.Repeat": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			s, n := args[0].(*SliceV), args[1].(*Term)
			one, ok := s.Len, n.Op == "int"
			if !ok || one.Op != "int" || one.N.Int64() != 1 {
				panic(unsupported("bytes.Repeat of this pattern"))
			}
			b := x.allocRegion(st)
			x.setByteArr(st, b, ConstArr(arr8, Select(x.byteArr(st, s.Base), s.Off)))
			k(st, one1(&SliceV{byteT, b, IntC(0), n, n}))
		},
		"(*bytes.Buffer).Bytes": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			w := x.bufIfc(args[0].(*PtrV))
			n := x.ghostRead(st, "out.len", w)
			st.assume(Le(IntC(0), n), Le(n, IntB(maxLen)))
			b := x.allocRegion(st)
			x.setByteArr(st, b, x.ghostRead(st, "out.arr", w))
			k(st, one1(&SliceV{byteT, b, IntC(0), n, n}))
		},
		"(*bytes.Buffer).Len": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			n := x.ghostRead(st, "out.len", x.bufIfc(args[0].(*PtrV)))
			st.assume(Le(IntC(0), n), Le(n, IntB(maxLen)))
			k(st, one1(n))
		},
		"(*bytes.Buffer).Write": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			p := args[1].(*SliceV)
			arr, off, ln := x.srcArr(st, p, 0, p.Elem)
			x.outAppend(st, x.bufIfc(args[0].(*PtrV)), arr, off, ln)
			k(st, one1(ln, &IfaceV{}))
		},
		"(*bytes.Buffer).Grow": nop,
		"strconv.ParseFloat":   modelParseFloat,
		"strconv.Atoi":         uf("atoi"),
		"strconv.ParseInt":     uf("parseint"),
		"strconv.ParseUint":    uf("parseuint"),
		"time.Now":             nop,
		"log.New":              nop,
		"(*log.Logger).Printf": nop,
		"regexp.MustCompile":   uf("regexp"),
		"sync/atomic.LoadUint64": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, one1(x.loadChecked(st, args[0].(*PtrV), pos)))
		},
		"sync/atomic.LoadUint32": func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
			k(st, one1(x.loadChecked(st, args[0].(*PtrV), pos)))
		},
		"sync/atomic.StoreUint64":          modelAtomicStore,
		"sync/atomic.StoreUint32":          modelAtomicStore,
		"sync/atomic.AddUint64":            modelAtomicAdd,
		"sync/atomic.AddUint32":            modelAtomicAdd,
		"sync/atomic.CompareAndSwapUint64": modelCAS,
		"sync/atomic.CompareAndSwapUint32": modelCAS,
		"(*sync.Mutex).Lock":               nop,
		"(*sync.Mutex).Unlock":             nop,
	}
	ifcModels = map[string]ifcModel{
		"io.Writer.Write": modelWrite,
		"io.Reader.Read":  modelRead,
		"*bytes.Buffer.Write": func(x *Exec, st *State, fr *Frame, r *Term, args []Val, pos token.Pos, k cont) {
			p := args[0].(*SliceV)
			arr, off, ln := x.srcArr(st, p, 0, p.Elem)
			x.outAppend(st, r, arr, off, ln)
			k(st, one1(ln, &IfaceV{}))
		},
		"error.Error": func(x *Exec, st *State, fr *Frame, r *Term, args []Val, pos token.Pos, k cont) {
			k(st, one1(App("errtext", SStr, r)))
		},
		"context.Context.Done": func(x *Exec, st *State, fr *Frame, r *Term, args []Val, pos token.Pos, k cont) {
			k(st, one1(App("ctxdone", SInt, r)))
		},
		"context.Context.Err": func(x *Exec, st *State, fr *Frame, r *Term, args []Val, pos token.Pos, k cont) {
			e := x.fresh("ctx", SIfc)
			st.assume(Imp(App("cancelled", SBool, r), Not(Eq(e, nilIfc))))
			if _, ok := x.spec.Ghosts["seenDone"]; ok {
				seen := (&SEnv{x: x, st: st, sink: st}).ghost("seenDone", SBool)
				st.assume(Imp(seen, Not(Eq(e, nilIfc))))
				x.setGhost(st, "seenDone", Or(seen, Not(Eq(e, nilIfc))))
			}
			k(st, one1(e))
		},
	}
}

// modelParseFloat: a deterministic function of the text; the result is arbitrary when it reports an error.
func modelParseFloat(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	s := args[0].(*Term)
	k(st, one1(App("parsefloat", F64Sort(), s), App("parsefloaterr", SIfc, s)))
}

func (x *Exec) toBV64(t *Term) *Term {
	if t.S == SInt {
		return Int2Bv(t, 64)
	}
	return t
}

func bits2f(b *Term) *Term { return App("bits2f", F64Sort(), b) }

func (x *Exec) bufIfc(p *PtrV) *Term {
	return x.scalarTerm(types.NewInterfaceType(nil, nil), &IfaceV{T: types.NewPointer(p.Root), V: p})
}

func (x *Exec) freshResults(st *State, sig *types.Signature) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, x.freshVal(st, "res", sig.Results().At(i).Type(), false))
	}
	return out
}

// indexByte: first position of c in arr[off..off+n), or -1.
func (x *Exec) indexByte(st *State, arr, off, n, c *Term, k cont) {
	r := App("indexbyte", SInt, MkStr(arr, off, n), c)
	v := BVar("i", SInt)
	at := func(i *Term) *Term { return Select(arr, Add(off, i)) }
	st.assume(Le(IntC(-1), r), Lt(r, n))
	st.assume(Imp(Le(IntC(0), r), Eq(at(r), c)))
	lim := Ite(Lt(r, IntC(0)), n, r)
	w := BVar("j", SInt)
	_ = v
	st.assume(Forall([]*Term{w}, Imp(And(Le(off, w), Lt(w, Add(off, lim))), Not(Eq(Select(arr, w), c))), []*Term{Select(arr, w)}))
	// absolute bound without ite
	k(st, one1(r))
}

func modelAtomicStore(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	p := args[0].(*PtrV)
	x.nilCheck(st, p, pos)
	x.storeRec(st, p, args[1])
	k(st, nil)
}

func modelAtomicAdd(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	p := args[0].(*PtrV)
	x.nilCheck(st, p, pos)
	t := f.Signature.Params().At(1).Type()
	old := x.loadChecked(st, p, pos)
	nv := x.binop(st, token.ADD, old, args[1], t, t, t, pos)
	x.storeRec(st, p, nv)
	k(st, one1(nv))
}

func modelCAS(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, pos token.Pos, k cont) {
	p := args[0].(*PtrV)
	x.nilCheck(st, p, pos)
	old := x.loadChecked(st, p, pos).(*Term)
	c := st.known(Eq(old, args[1].(*Term)))
	if c != False {
		s2 := st.clone()
		s2.assume(c)
		x.storeRec(s2, p, args[2])
		k(s2, one1(True))
	}
	if c != True {
		st.assume(Not(c))
		k(st, one1(False))
	}
}
