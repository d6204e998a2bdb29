package c09

import (
	"encoding/binary"
	"math"
	"math/big"
	"testing"

	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// welford is the recurrence over a whole history.
func welford(h []float64) (n uint64, sum, mean, ss float64) {
	for _, v := range h {
		n++
		sum += v
		d := v - mean
		mean += d / float64(n)
		ss += d * (v - mean)
	}
	return
}

func variance(n uint64, ss float64) float64 {
	if n < 2 {
		return math.NaN()
	}
	return ss / float64(n-1)
}

func same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

var special = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e308, -1e308, 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 2, 1e16, 3}

func compare(t *testing.T, what string, s stat64.Summary, h []float64) {
	t.Helper()
	n, sum, mean, ss := welford(h)
	if s.Count() != n {
		hutil.Fail(t, "%s: history %s: count %d, %d observations were made", what, hutil.Trim(h), s.Count(), n)
	}
	if !same(s.Sum(), sum) {
		hutil.Fail(t, "%s: history %s: sum %v, left-to-right sum is %v", what, hutil.Trim(h), s.Sum(), sum)
	}
	if !same(s.Mean(), mean) {
		hutil.Fail(t, "%s: history %s: mean %v, the recurrence gives %v", what, hutil.Trim(h), s.Mean(), mean)
	}
	if v := variance(n, ss); !same(s.Variance(), v) {
		hutil.Fail(t, "%s: history %s: variance %v, the recurrence gives %v", what, hutil.Trim(h), s.Variance(), v)
	}
}

func TestHistories(t *testing.T) {
	r := hutil.Rng(t)
	ops := 0
	for round := 0; round < hutil.Scale(1500); round++ {
		mem := make([]byte, 64)
		r.Read(mem)
		orig := append([]byte(nil), mem...)
		at, n := r.Intn(17), 32
		if r.Intn(3) == 0 {
			n += r.Intn(64 - at - 32)
		}
		s := stat64.WithBytes(mem[at : at+n : at+n])
		guard := func(what string) {
			for i := range mem {
				if (i < at || i >= at+32) && mem[i] != orig[i] {
					hutil.Fail(t, "%s changes byte %d outside the summary's 32 bytes at %d", what, i-at, at)
				}
			}
		}
		var h []float64
		kind := r.Intn(5)
		val := func() float64 {
			switch kind {
			case 0:
				return float64(r.Intn(21) - 10)
			case 1:
				return r.NormFloat64() * 1e3
			case 2:
				return special[r.Intn(len(special)-3)] * 1e-3
			case 3:
				return 1e9 + r.Float64()
			}
			return special[r.Intn(len(special))]
		}
		reset := func() {
			var err error
			if r.Intn(2) == 0 {
				err = s.Reset()
			} else {
				err = stat64.Reset(mem[at : at+n])
			}
			if err != nil {
				hutil.Fail(t, "reset: %v", err)
			}
			h = nil
			guard("Reset")
		}
		hutil.NoPanic(t, func() string { return hutil.Trim(h) }, func() {
			reset()
			compare(t, "after reset", s, h)
			for i, m := 0, 1+r.Intn(40); i < m; i++ {
				ops++
				switch r.Intn(12) {
				case 0:
					if r.Intn(4) == 0 {
						reset()
						break
					}
					s.UpdateMulti(nil)
					guard("UpdateMulti")
				case 1, 2, 3:
					vs := make([]float64, r.Intn(9))
					for k := range vs {
						vs[k] = val()
					}
					keep := append([]float64(nil), vs...)
					s.UpdateMulti(vs)
					for k := range vs {
						if !same(vs[k], keep[k]) {
							hutil.Fail(t, "UpdateMulti(%v) changes its argument to %v", keep, vs)
						}
					}
					h = append(h, vs...)
					guard("UpdateMulti")
				default:
					v := val()
					s.Update(v)
					h = append(h, v)
					guard("Update")
				}
				before := append([]byte(nil), mem...)
				compare(t, "after an update", s, h)
				if string(before) != string(mem) {
					hutil.Fail(t, "reading count, sum, mean and variance changes the summary")
				}
			}
		})
	}
	s := stat64.New()
	compare(t, "New", s, nil)
	if s.Len() < 32 || len(s) != s.Len() || stat64.Len() != s.Len() {
		hutil.Fail(t, "New has %d bytes, Len() is %d, package Len() is %d", len(s), s.Len(), stat64.Len())
	}
	// distinct summaries share nothing
	a, b := stat64.New(), stat64.New()
	a.Update(3)
	compare(t, "New after updating another summary", b, nil)
	compare(t, "New", stat64.New(), nil)
	hutil.Covered(t, "%d operations on summaries embedded at random places of a guarded buffer, against the recurrence over the whole history", ops)
}

// A summary restored in the middle of a long history continues it. The state bytes are the
// ones the code itself uses, found by watching them.
func TestLongHistory(t *testing.T) {
	r := hutil.Rng(t)
	s := stat64.New()
	s.Update(1)
	s.Update(1)
	s.Update(4)
	if binary.LittleEndian.Uint64(s) != 3 || math.Float64frombits(binary.LittleEndian.Uint64(s[8:])) != 6 {
		t.Skip("another layout")
	}
	cases := 0
	for _, n := range []uint64{1, 2, 3, 254, 255, 256, 65535, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 3} {
		for k := 0; k < hutil.Scale(20); k++ {
			sum, mean, ss := r.NormFloat64()*1e6, r.NormFloat64(), r.Float64()*1e5
			st := stat64.New()
			binary.LittleEndian.PutUint64(st, n)
			binary.LittleEndian.PutUint64(st[8:], math.Float64bits(sum))
			binary.LittleEndian.PutUint64(st[16:], math.Float64bits(mean))
			binary.LittleEndian.PutUint64(st[24:], math.Float64bits(ss))
			m, c := n, append([]byte(nil), st...)
			if !same(st.Variance(), variance(m, ss)) {
				hutil.Fail(t, "after %d observations with squared differences %v the variance is %v, not %v", n, ss, st.Variance(), variance(m, ss))
			}
			vs := []float64{r.NormFloat64() * 10, r.NormFloat64()}
			for _, v := range vs {
				m++
				sum += v
				d := v - mean
				mean += d / float64(m)
				ss += d * (v - mean)
			}
			if k%2 == 0 {
				st.UpdateMulti(vs)
			} else {
				st.Update(vs[0])
				st.Update(vs[1])
			}
			if st.Count() != m || !same(st.Sum(), sum) || !same(st.Mean(), mean) || !same(st.Variance(), variance(m, ss)) {
				hutil.Fail(t, "state % x (%d observations) then %v: got count %d sum %v mean %v variance %v, want %d %v %v %v", c, n, vs, st.Count(), st.Sum(), st.Mean(), st.Variance(), m, sum, mean, variance(m, ss))
			}
			cases++
		}
	}
	hutil.Covered(t, "%d continuations of histories of up to 2^64-3 observations", cases)
}

// For integers small enough for exact arithmetic the statistics are the textbook ones.
func TestTextbook(t *testing.T) {
	r := hutil.Rng(t)
	for k := 0; k < hutil.Scale(300); k++ {
		n := 1 << uint(1+r.Intn(6))
		s := stat64.New()
		T, Q := new(big.Rat), new(big.Rat)
		for i := 0; i < n; i++ {
			v := int64(r.Intn(2001) - 1000)
			s.Update(float64(v))
			T.Add(T, big.NewRat(v, 1))
			Q.Add(Q, big.NewRat(v*v, 1))
		}
		mean := new(big.Rat).Quo(T, big.NewRat(int64(n), 1))
		va := new(big.Rat).Sub(Q, new(big.Rat).Mul(T, mean))
		va.Quo(va, big.NewRat(int64(n-1), 1))
		m, _ := mean.Float64()
		w, _ := va.Float64()
		if math.Abs(s.Mean()-m) > 1e-9*(1+math.Abs(m)) || math.Abs(s.Variance()-w) > 1e-9*(1+w) {
			hutil.Fail(t, "%d integers: mean %v variance %v, exactly %v %v", n, s.Mean(), s.Variance(), m, w)
		}
	}
	hutil.Covered(t, "%d series compared with rational arithmetic", hutil.Scale(300))
}
