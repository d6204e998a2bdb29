package c02

import (
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// boxed: an in-place array with bytes in front and behind that must not change.
func boxed(n int, w uint8) (*bitbucket.BitBucket, []byte, int) {
	size := (n*int(w) + 7) / 8
	buf := make([]byte, 7+10+size+9)
	for i := range buf {
		buf[i] = 0xa5
	}
	b := buf[7 : 7+10+size]
	for i := range b {
		b[i] = 0
	}
	b[0], b[1] = 1, w
	for i := 0; i < 8; i++ {
		b[2+i] = byte(uint64(n) >> uint(8*i))
	}
	bb, err := bitbucket.WithBytes(b)
	if err != nil {
		return nil, nil, 0
	}
	return &bb, buf, size
}

func TestCells(t *testing.T) {
	r := hutil.Rng(t)
	total := 0
	for w := uint8(1); w <= 8; w++ {
		for it := 0; it < hutil.Scale(60); it++ {
			n := 1 + r.Intn(20)
			if it%20 == 0 {
				n = 200 + r.Intn(300)
			}
			nb := bitbucket.New(n, w)
			b := &nb
			var box []byte
			size := 0
			if it%2 == 1 {
				if p, bx, sz := boxed(n, w); p != nil {
					b, box, size = p, bx, sz
				}
			}
			max := 1<<w - 1
			model := make([]int, n)
			if b.Count() != n || b.Width() != w || int(b.Max()) != max {
				hutil.Fail(t, "New(%d, %d): count %d width %d max %d", n, w, b.Count(), b.Width(), b.Max())
			}
			var ops []int
			for k := 0; k < 300; k++ {
				i, v := r.Intn(n), r.Intn(256)
				if r.Intn(2) == 0 {
					v = r.Intn(max + 2)
				}
				op := r.Intn(3)
				if op == 2 && r.Intn(30) > 0 {
					op = 1
				}
				if len(ops) < 60 {
					ops = append(ops, op, i, v)
				}
				hutil.NoPanic(t, func() string { return hutil.Trim(ops) }, func() {
					switch op {
					case 0:
						b.Set(i, uint8(v))
						model[i] = min(v&255, max)
					case 1:
						b.IncN(i, uint8(v))
						model[i] = min(model[i]+v&255, max)
					case 2:
						b.Reset()
						model = make([]int, n)
					}
					for j := range model {
						if g := int(b.Get(j)); g != model[j] {
							hutil.Fail(t, "n=%d w=%d after (op,i,v) %v: bucket %d is %d, want %d", n, w, ops, j, g, model[j])
						}
					}
					c := 0
					q := r.Intn(max + 2)
					for _, m := range model {
						if m == q {
							c++
						}
					}
					if q <= 255 {
						if g := b.CountN(uint8(q)); g != c {
							hutil.Fail(t, "n=%d w=%d buckets %v: CountN(%d) = %d, want %d", n, w, model, q, g, c)
						}
					}
				})
				total++
			}
			if box != nil {
				for i := range box {
					if (i < 7 || i >= 17+size) && box[i] != 0xa5 {
						hutil.Fail(t, "n=%d w=%d: byte %d outside the array changed", n, w, i-17)
					}
				}
			}
		}
	}
	hutil.Covered(t, "%d operations on arrays of width 1 to 8", total)
}
