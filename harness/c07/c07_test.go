package c07

import (
	"encoding/hex"
	"hash/fnv"
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// items whose hashes end in long runs of zero bits
var special = []string{"fd339800001ec7ba", "87163c00007c3238", "fd339800001ec7bb", "fd339800001ec7b8", "fd339800001ec7be", "87163c00007c3228",
	"6234150000025c3a", "e786c000003eeb41", "6abbb601009a47d0", "70488a01009bc952", "70488a01009bc953", "040cee02002ad4df", "040cee02002ad4de", "6abbb601009a47d1"}

func reg(d []byte, i int) int {
	v := 0
	for k := i * 6; k < i*6+6; k++ {
		v = v<<1 | int(d[k/8]>>(7-uint(k%8))&1)
	}
	return v
}

func regs(t *testing.T, c *hll.Counter, p int) []int {
	w := &hutil.Writer{Room: -1}
	if _, err := c.WriteTo(w); err != nil || len(w.Got) != 12+(6<<uint(p)+7)/8 {
		t.Fatalf("FAILING INPUT: WriteTo of a counter of precision %d: %d bytes, %v", p, len(w.Got), err)
	}
	out := make([]int, 1<<uint(p))
	for i := range out {
		out[i] = reg(w.Got[12:], i)
	}
	return out
}

func place(v []byte, p int) (idx, rank int) {
	h := fnv.New64()
	h.Write(v)
	x := h.Sum64()
	idx = int(x >> uint(64-p))
	for rank = 1; rank <= 64-p; rank++ {
		if x>>uint(64-p-rank)&1 == 1 {
			return
		}
	}
	return
}

func TestRegisters(t *testing.T) {
	r := hutil.Rng(t)
	total := 0
	for it := 0; it < hutil.Scale(90); it++ {
		p := 4 + it%15
		n := 5 + r.Intn(300)
		if p > 12 {
			n = 20
		}
		hutil.NoPanic(t, func() string { return hutil.Trim([]int{p, n}) }, func() {
			c := hll.New(uint8(p))
			want := make([]int, 1<<uint(p))
			var items [][]byte
			cmp := func(c *hll.Counter, what string) {
				got := regs(t, c, p)
				for i := range want {
					if got[i] != want[i] {
						hutil.Fail(t, "counter of precision %d after %s: register %d holds %d, want %d; items %x", p, what, i, got[i], want[i], items)
					}
				}
			}
			cmp(&c, "New")
			for i := 0; i < n; i++ {
				v := make([]byte, r.Intn(10))
				r.Read(v)
				switch {
				case r.Intn(8) == 0 && len(items) > 0:
					v = items[r.Intn(len(items))]
				case r.Intn(8) == 0 || i == 3:
					v, _ = hex.DecodeString(special[r.Intn(len(special))])
				case r.Intn(60) == 0:
					v = make([]byte, r.Intn(2000))
				}
				items = append(items, v)
				c.Add(v)
				total++
				if i, k := place(v, p); k > want[i] {
					want[i] = k
				}
				if p <= 8 || i == n-1 {
					cmp(&c, "adding")
				}
			}
			cnt := c.Count()
			// another order with repetitions
			d := hll.New(uint8(p))
			for _, i := range r.Perm(len(items)) {
				d.Add(items[i])
				if r.Intn(3) == 0 {
					d.Add(items[r.Intn(len(items))])
				}
			}
			cmp(&d, "adding in another order")
			if g := d.Count(); g != cnt {
				hutil.Fail(t, "precision %d, same items in another order: count %d and %d; items %x", p, cnt, g, items)
			}
			c.Reset()
			items = nil
			for i := range want {
				want[i] = 0
			}
			cmp(&c, "Reset")
		})
	}
	hutil.Covered(t, "%d additions to counters of precision 4 to 18", total)
}
