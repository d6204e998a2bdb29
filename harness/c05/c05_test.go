package c05

import (
	"encoding/binary"
	"hash/fnv"
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// bits of the filter as written
func bits(t *testing.T, b *bloom.Bloom) (m int, d []byte, k int) {
	w := &hutil.Writer{Room: -1}
	if _, err := b.WriteTo(w); err != nil {
		t.Fatalf("FAILING INPUT: WriteTo: %v", err)
	}
	return int(binary.LittleEndian.Uint64(w.Got[4:])), w.Got[12:], int(w.Got[1])
}

func probes(v []byte, m, k int) map[int]bool {
	h1, h2 := fnv.New64(), fnv.New64a()
	h1.Write(v)
	h2.Write(v)
	a, b := h1.Sum64(), h2.Sum64()|1
	mm := uint64(m)
	if m%2 == 1 && m > 2 {
		mm--
	}
	out := map[int]bool{}
	for i := 0; i < k; i++ {
		out[int(a%mm)] = true
		a = (a + b) % mm
	}
	return out
}

func TestFilter(t *testing.T) {
	r := hutil.Rng(t)
	total := 0
	for it := 0; it < hutil.Scale(400); it++ {
		var b bloom.Bloom
		desc := ""
		m, k := 0, 0
		if it%3 == 0 {
			n, p := 1+r.Intn(50), []float64{0.5, 0.1, 0.01, 1e-9, 1e-30, 1e-90}[r.Intn(6)]
			b = bloom.New(n, p)
			desc = hutil.Trim([]float64{float64(n), p})
			m, _, k = bits(t, &b)
		} else {
			m = 1 + r.Intn(8)
			if it%3 == 1 {
				m = 1 + r.Intn(700)
			}
			k = r.Intn(12)
			if it%11 == 0 {
				k = 200 + r.Intn(56)
			}
			b = bloom.NewBits(m, uint8(k))
		}
		item := func() []byte {
			v := make([]byte, r.Intn(9))
			r.Read(v)
			if r.Intn(20) == 0 {
				v = make([]byte, r.Intn(3000))
			}
			return v
		}
		model := map[int]bool{}
		var added [][]byte
		absent := func(when string) {
			for i := 0; i < 20 && k > 0; i++ {
				if v := item(); b.Has(v) {
					hutil.Fail(t, "%s filter of %d bits, %d hashes reports % x", when, m, k, v)
				}
			}
		}
		hutil.NoPanic(t, func() string { return hutil.Trim([]interface{}{"m", m, "k", k, desc, "added", added}) }, func() {
			absent("empty")
			watch := [][]byte{item(), item(), item()}
			seen := make([]bool, len(watch))
			for i := 0; i < 30; i++ {
				v := item()
				if r.Intn(6) == 0 && len(added) > 0 {
					v = added[r.Intn(len(added))]
				}
				b.Add(v)
				total++
				added = append(added, v)
				for p := range probes(v, m, k) {
					model[p] = true
				}
				for _, a := range added {
					if !b.Has(a) {
						hutil.Fail(t, "filter of %d bits, %d hashes forgot % x after adding %d items, last % x", m, k, a, len(added), v)
					}
				}
				for j, w := range watch {
					h := b.Has(w)
					if seen[j] && !h {
						hutil.Fail(t, "filter of %d bits, %d hashes stopped reporting % x after adding % x", m, k, w, v)
					}
					seen[j] = h
				}
				_, d, _ := bits(t, &b)
				for p := 0; p < m; p++ {
					if g := d[p/8]>>(7-uint(p%8))&1 == 1; g != model[p] {
						hutil.Fail(t, "filter of %d bits, %d hashes after adding %s: bit %d set: %v, want %v", m, k, hutil.Trim(added), p, g, model[p])
					}
				}
				// what the bits say
				w := item()
				want := true
				for p := range probes(w, m, k) {
					want = want && model[p]
				}
				if g := b.Has(w); g != want {
					hutil.Fail(t, "filter of %d bits, %d hashes after adding %s: Has(% x) = %v, want %v", m, k, hutil.Trim(added), w, g, want)
				}
			}
			b.Reset()
			absent("reset")
			_, d, _ := bits(t, &b)
			for i, x := range d {
				if x != 0 {
					hutil.Fail(t, "reset filter of %d bits: byte %d is %#x", m, i, x)
				}
			}
		})
	}
	hutil.Covered(t, "%d additions", total)
}
