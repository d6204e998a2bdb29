package c03

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

func serial(n int, w uint8, vals []uint8) []byte {
	b := make([]byte, 10+(n*int(w)+7)/8)
	b[0], b[1] = 1, w
	binary.LittleEndian.PutUint64(b[2:], uint64(n))
	for i, v := range vals {
		for k := 0; k < int(w); k++ {
			if v>>(uint(w)-1-uint(k))&1 == 1 {
				pos := i*int(w) + k
				b[10+pos/8] |= 0x80 >> uint(pos%8)
			}
		}
	}
	return b
}

func same(t *testing.T, what string, b *bitbucket.BitBucket, n int, w uint8, vals []uint8) {
	if b.Count() != n || b.Width() != w || b.Len() != 10+(n*int(w)+7)/8 {
		hutil.Fail(t, "%s of n=%d w=%d: count %d width %d length %d", what, n, w, b.Count(), b.Width(), b.Len())
	}
	for i, v := range vals {
		if g := b.Get(i); g != v {
			hutil.Fail(t, "%s of n=%d w=%d: bucket %d is %d, want %d", what, n, w, i, g, v)
		}
	}
}

func TestRoundTrip(t *testing.T) {
	r := hutil.Rng(t)
	total := 0
	for w := uint8(1); w <= 8; w++ {
		for it := 0; it < hutil.Scale(60); it++ {
			n := r.Intn(30)
			if it%10 == 0 {
				n = 200 + r.Intn(2000)
			}
			if it == 7 {
				n = 70000
			}
			total++
			hutil.NoPanic(t, func() string { return hutil.Trim([]int{n, int(w), it}) }, func() {
				vals := make([]uint8, n)
				b := bitbucket.New(n, w)
				for i := range vals {
					vals[i] = uint8(r.Intn(1 << w))
					b.Set(i, vals[i])
				}
				full := b.Len()
				if full != bitbucket.Len(n, w) || full != 10+(n*int(w)+7)/8 {
					hutil.Fail(t, "n=%d w=%d: Len() %d, Len(n, w) %d", n, w, full, bitbucket.Len(n, w))
				}
				out := &hutil.Writer{Room: -1}
				m, err := b.WriteTo(out)
				if err != nil || int(m) != full || len(out.Got) != full {
					hutil.Fail(t, "n=%d w=%d: WriteTo = %d, %v with %d bytes out, length %d", n, w, m, err, len(out.Got), full)
				}
				if !bytes.Equal(out.Got, serial(n, w, vals)) {
					// another layout is fine as long as it reads back; the checks below decide
					_ = vals
				}
				// a writer that fails
				for k := 0; k < 6; k++ {
					room := r.Intn(full)
					if k == 0 {
						room = full - 1
					}
					if k == 1 {
						room = 10
					}
					fw := &hutil.Writer{Room: room, Eof: k == 3}
					if k == 5 {
						// fails with the last byte
						fw.Room, fw.With = full, true
					} else if room >= full {
						continue
					}
					m, err := b.WriteTo(fw)
					if err == nil || int(m) != len(fw.Got) || fw.Bad != 1 {
						hutil.Fail(t, "n=%d w=%d writer fails after %d bytes: WriteTo = %d, %v; %d bytes accepted, %d failing calls", n, w, room, m, err, len(fw.Got), fw.Bad)
					}
				}
				// from streams
				for k := 0; k < 8; k++ {
					in := &hutil.Reader{Data: out.Got, Max: []int{0, 1, 3, 1000}[k%4], Early: k >= 4}
					if n > 3000 && in.Max == 1 {
						in.Max = 512
					}
					c := bitbucket.New(r.Intn(20), uint8(1+r.Intn(8)))
					m, err := c.ReadFrom(in)
					if err != nil || int(m) != full {
						hutil.Fail(t, "n=%d w=%d reader %+v: ReadFrom = %d, %v, length %d", n, w, k, m, err, full)
					}
					same(t, "array read back", &c, n, w, vals)
				}
				// damaged streams
				for k := 0; k < 12; k++ {
					in := &hutil.Reader{Data: append([]byte(nil), out.Got...), Max: []int{0, 1, 3, 1000}[k%4], Early: k%2 == 1}
					if n > 3000 && in.Max == 1 {
						in.Max = 512
					}
					what := ""
					switch k % 6 {
					case 0:
						in.Data = in.Data[:r.Intn(full)]
						what = "truncated"
					case 1:
						in.Data = in.Data[:full-1-r.Intn(3)]
						what = "truncated"
					case 2:
						in.Data = append(in.Data, make([]byte, 1+r.Intn(20))...)
						what = "over-long"
					case 3:
						in.Data[0] = byte(2 + r.Intn(254))
						what = "wrong-version"
					case 4:
						in.Data = in.Data[:r.Intn(full+1)]
						in.End = hutil.ErrBroken
						what = "failing"
					case 5:
						in.End = hutil.ErrBroken
						what = "failing at the end of the"
					}
					c := bitbucket.New(3, 2)
					m, err := c.ReadFrom(in)
					if err == nil || int(m) != in.Pos {
						hutil.Fail(t, "n=%d w=%d %s stream of %d bytes (want %d): ReadFrom = %d, %v after %d bytes", n, w, what, len(in.Data), full, m, err, in.Pos)
					}
				}
				// in place
				box, intact := hutil.Boxed(out.Got)
				c, err := bitbucket.WithBytes(box)
				if err != nil {
					hutil.Fail(t, "n=%d w=%d: WithBytes on the written bytes: %v", n, w, err)
				}
				same(t, "in-place array", &c, n, w, vals)
				for k := 0; k < 20 && n > 0; k++ {
					i, v := r.Intn(n), uint8(r.Intn(1<<w))
					if k%2 == 0 {
						c.Set(i, v)
					} else {
						// change the buffer, the array follows
						other, err := bitbucket.WithBytes(box)
						if err != nil {
							hutil.Fail(t, "n=%d w=%d: WithBytes after a change: %v", n, w, err)
						}
						other.Set(i, v)
					}
					vals[i] = v
					d, err := bitbucket.WithBytes(append([]byte(nil), box...))
					if err != nil {
						hutil.Fail(t, "n=%d w=%d: WithBytes after Set(%d, %d): %v", n, w, i, v, err)
					}
					if n < 3000 || k < 3 {
						same(t, "copy of the buffer of an in-place array", &d, n, w, vals)
						same(t, "in-place array", &c, n, w, vals)
					}
				}
				if !intact() {
					hutil.Fail(t, "n=%d w=%d: bytes outside the buffer changed", n, w)
				}
			})
		}
	}
	hutil.Covered(t, "%d arrays written, read back from whole, split and damaged streams and opened in place", total)
}
