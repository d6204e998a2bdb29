package c08

import (
	"bytes"
	"encoding/binary"
	"math"
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

var thresholds = []float64{10, 20, 40, 80, 220, 400, 900, 1800, 3100, 6500, 11500, 20000, 50000, 120000, 350000}

func alpha(p int) float64 {
	switch {
	case p <= 4:
		return 0.673
	case p == 5:
		return 0.697
	case p == 6:
		return 0.709
	case p > 8:
		return 0.7213475
	}
	return 0.7213 / (1 + 1.079/float64(int(1)<<uint(p)))
}

func pack(p int, regs []int) []byte {
	b := make([]byte, 12+(6*len(regs)+7)/8)
	b[0], b[1], b[2], b[3] = 1, byte(p), 1, 6
	binary.LittleEndian.PutUint64(b[4:], uint64(len(regs)))
	for i, v := range regs {
		for k := 0; k < 6; k++ {
			if v>>uint(5-k)&1 == 1 {
				q := i*6 + k
				b[12+q/8] |= 0x80 >> uint(q%8)
			}
		}
	}
	return b
}

func sigma(x float64) float64 {
	if x == 1 {
		return math.Inf(1)
	}
	y, z := 1.0, x
	for {
		x *= x
		o := z
		z += x * y
		y *= 2
		if z == o {
			return z
		}
	}
}

func tau(x float64) float64 {
	y, z := 1.0, 0.0
	for {
		x = math.Sqrt(x)
		o := z
		y *= 0.5
		z += (1 - x) * x * y
		if z == o {
			return z
		}
	}
}

// close: got is the rounded up x, up to rounding when x is next to an integer
func ceiled(x float64, got int64) bool {
	if math.IsInf(x, 0) || math.IsNaN(x) || x > 1e18 {
		return true
	}
	if d := math.Abs(x - math.Round(x)); d < 1e-7*(1+math.Abs(x)) && d != 0 {
		return math.Abs(float64(got)-x) <= 1.0000001
	}
	if x > 1e9 {
		return math.Abs(float64(got)-x) <= 1+1e-7*x
	}
	return float64(got) == math.Ceil(x)
}

func TestEstimates(t *testing.T) {
	r := hutil.Rng(t)
	total := 0
	for it := 0; it < hutil.Scale(900); it++ {
		p := 4 + it%15
		m := 1 << uint(p)
		regs := make([]int, m)
		switch r.Intn(8) {
		case 0: // empty
		case 1, 2: // few
			for k := r.Intn(8); k >= 0; k-- {
				regs[r.Intn(m)] = 1 + r.Intn(10)
			}
		case 3, 4: // about where linear counting ends
			want := thresholds[p-4] * (0.8 + 0.4*r.Float64())
			zero := int(float64(m) * math.Exp(-want/float64(m)))
			for i := zero; i < m; i++ {
				regs[i] = 1 + r.Intn(5)
			}
			r.Shuffle(m, func(i, j int) { regs[i], regs[j] = regs[j], regs[i] })
		case 5: // full, about equal
			k := r.Intn(64 - p)
			for i := range regs {
				regs[i] = k + r.Intn(2)
			}
		case 6: // geometric
			s := r.Intn(10)
			for i := range regs {
				k := s
				for k < 64-p && r.Intn(2) == 0 {
					k++
				}
				regs[i] = k
			}
		case 7: // anything, top ranks included
			for i := range regs {
				regs[i] = r.Intn(66 - p)
			}
			regs[r.Intn(m)] = 65 - p
		}
		cn := make([]int, 64)
		harm := 0.0
		for _, v := range regs {
			cn[v]++
			if v == 0 {
				harm += 0.5
			} else {
				harm += 1 / math.Pow(2, float64(v))
			}
		}
		fm := float64(m)
		pois := fm * tau(1-float64(cn[65-p])/fm)
		for k := 64 - p; k >= 1; k-- {
			pois = 0.5 * (pois + float64(cn[k]))
		}
		pois += fm * sigma(float64(cn[0])/fm)
		norm := func(z float64) float64 { return alpha(p) * fm * fm / z }
		lin := fm * math.Log(fm/float64(cn[0]))
		want := norm(harm)
		how := "harmonic"
		lim := alpha(p) * fm / 7
		if harm >= lim {
			want = norm(pois)
			how = "poisson"
		}
		linear := cn[0] > 0 && math.Ceil(lin) <= thresholds[p-4]
		if linear {
			want = lin
			how = "linear"
		}
		buf := pack(p, regs)
		before := append([]byte(nil), buf...)
		c, err := hll.WithBytes(buf)
		if err != nil {
			t.Skip("counter cannot be opened over its bytes")
		}
		d, _ := hll.WithBytes(append([]byte(nil), before...))
		total++
		desc := func() string {
			hist := map[int]int{}
			for v, n := range cn {
				if n > 0 {
					hist[v] = n
				}
			}
			return hutil.Trim([]interface{}{"precision", p, "registers by rank", hist})
		}
		hutil.NoPanic(t, desc, func() {
			a := []int64{c.Count(), c.LinearCount(), c.HarmonicCount(), c.PoissonCount()}
			if !bytes.Equal(buf, before) {
				hutil.Fail(t, "%s: asking for the estimates changed the counter", desc())
			}
			b := []int64{c.Count(), c.LinearCount(), c.HarmonicCount(), c.PoissonCount()}
			// asked in another order of another counter with the same registers
			e := []int64{d.PoissonCount(), d.HarmonicCount(), d.LinearCount(), d.Count()}
			for i := range a {
				if a[i] != b[i] || a[i] != e[3-i] {
					hutil.Fail(t, "%s: estimate %d is %d, then %d, of a counter with the same registers %d", desc(), i, a[i], b[i], e[3-i])
				}
			}
			if cn[0] == m && a[0] != 0 {
				hutil.Fail(t, "%s: empty counter counts %d", desc(), a[0])
			}
			if math.Abs(harm-lim) > 1e-9*lim || linear {
				if !ceiled(want, a[0]) {
					hutil.Fail(t, "%s: Count() = %d, want %v (%s)", desc(), a[0], math.Ceil(want), how)
				}
			}
			if cn[0] > 0 && !ceiled(lin, a[1]) {
				hutil.Fail(t, "%s: LinearCount() = %d, want %v", desc(), a[1], math.Ceil(lin))
			}
			if !ceiled(norm(harm), a[2]) {
				hutil.Fail(t, "%s: HarmonicCount() = %d, want %v", desc(), a[2], math.Ceil(norm(harm)))
			}
			if !ceiled(norm(pois), a[3]) {
				hutil.Fail(t, "%s: PoissonCount() = %d, want %v", desc(), a[3], math.Ceil(norm(pois)))
			}
		})
	}
	hutil.Covered(t, "%d register arrays of precision 4 to 18", total)
}
