package main

// Uninterpreted functions with built-in meaning.
//
//  strlen(s) strat(s,i)      length and i-th byte of a finite byte sequence (0 outside the sequence)
//  mkstr(a,o,n)              the sequence a[o..o+n)
//  str2arr(s)                an array holding s at 0..
//  f2bits(f) bits2f(b)       IEEE-754 bits of a float64 and back (mutually inverse)

func StrLen(s *Term) *Term      { return App("strlen", SInt, s) }
func StrAt(s, i *Term) *Term    { return App("strat", BV(8), s, i) }
func MkStr(a, o, n *Term) *Term { return App("mkstr", SStr, a, o, n) }

var arr8 = ArrS(SInt, BV(8))

func simpApp(name string, s *Sort, a []*Term) *Term {
	switch name {
	case "strlen":
		if a[0].Op == "app" && a[0].Str == "mkstr" {
			return a[0].Args[2]
		}
		if a[0].Op == "var" {
			if l, ok := litText[a[0]]; ok {
				return IntC(int64(len(l)))
			}
		}
		if a[0].Op == "app" && a[0].Str == "strput" {
			return StrLen(a[0].Args[0])
		}
	case "strat":
		if a[0].Op == "app" && a[0].Str == "strput" {
			d, lo, w := a[0].Args[0], a[0].Args[1], a[0].Args[2]
			return Ite(And(Le(lo, a[1]), Lt(a[1], Add(lo, StrLen(w))), Lt(a[1], StrLen(d))), StrAt(w, Sub(a[1], lo)), StrAt(d, a[1]))
		}
		if a[0].Op == "app" && a[0].Str == "mkstr" {
			m := a[0].Args
			return Ite(And(Le(IntC(0), a[1]), Lt(a[1], m[2])), Select(m[0], Add(m[1], a[1])), BvU(0, 8))
		}
		if l, ok := litText[a[0]]; ok && a[1].Op == "int" {
			if a[1].N.IsInt64() && a[1].N.Int64() >= 0 && a[1].N.Int64() < int64(len(l)) {
				return BvU(uint64(l[a[1].N.Int64()]), 8)
			}
			return BvU(0, 8)
		}
	case "mkstr":
		if a[0].Op == "app" && a[0].Str == "str2arr" && a[1].Op == "int" && a[1].N.Sign() == 0 && a[2] == StrLen(a[0].Args[0]) {
			return a[0].Args[0]
		}
		if a[2].Op == "int" && a[2].N.Sign() == 0 {
			return strLit("")
		}
		// drop stores outside the extracted window
		if a[0].Op == "store" {
			i := a[0].Args[1]
			if Lt(i, a[1]) == True || Le(Add(a[1], a[2]), i) == True {
				return MkStr(a[0].Args[0], a[1], a[2])
			}
		}
	case "f2bits":
		if a[0].Op == "app" && a[0].Str == "bits2f" {
			return a[0].Args[0]
		}
		if a[0].Op == "f64c" {
			return BvC(a[0].N, 64)
		}
	case "bits2f":
		if a[0].Op == "app" && a[0].Str == "f2bits" {
			return a[0].Args[0]
		}
		if a[0].Op == "bv" && !floatReal {
			return mk("f64c", SF64, a[0].N, "")
		}
	}
	return nil
}

// floatReal: float64 values are mathematical reals in the function being verified.
var floatReal = false

func F64Sort() *Sort {
	if floatReal {
		return SReal
	}
	return SF64
}

var litTab = map[string]*Term{}
var litText = map[*Term]string{}

func strLit(s string) *Term {
	if t, ok := litTab[s]; ok {
		return t
	}
	t := Var("lit!"+quoteLit(s), SStr)
	litTab[s] = t
	litText[t] = s
	return t
}

func quoteLit(s string) string {
	out := ""
	for _, c := range []byte(s) {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			out += string(rune(c))
		} else {
			const hx = "0123456789abcdef"
			out += "$" + string(hx[c>>4]) + string(hx[c&15])
		}
	}
	return out
}
