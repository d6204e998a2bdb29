package c06

import (
	"bytes"
	"io"
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

type sketch interface {
	io.WriterTo
	io.ReaderFrom
	Add([]byte)
	Len() int
	Count() int64
}

func answers(s sketch, probes [][]byte) []interface{} {
	out := []interface{}{s.Count(), s.Len()}
	if b, ok := s.(*bloom.Bloom); ok {
		out = append(out, b.ErrorRate())
		for _, p := range probes {
			out = append(out, b.Has(p))
		}
	}
	if c, ok := s.(*hll.Counter); ok {
		out = append(out, c.LinearCount(), c.HarmonicCount(), c.PoissonCount())
	}
	return out
}

func dump(s sketch) []byte {
	w := &hutil.Writer{Room: -1}
	s.WriteTo(w)
	return w.Got
}

func TestRestore(t *testing.T) {
	r := hutil.Rng(t)
	total := 0
	for it := 0; it < hutil.Scale(250); it++ {
		var s, fresh sketch
		desc := ""
		want := 0
		open := func(b []byte) (sketch, error) { return nil, nil }
		if it%2 == 0 {
			m, k := 1+r.Intn(300), []int{0, 0, 1, 2, 255, r.Intn(256)}[r.Intn(6)]
			n, p := 0, 0.0
			b := bloom.NewBits(m, uint8(k))
			want = 12 + (m+7)/8
			if r.Intn(3) == 0 {
				n, p = 1+r.Intn(100), []float64{0.5, 0.1, 0.001, 1e-20}[r.Intn(4)]
				b = bloom.New(n, p)
				want = bloom.Len(n, p)
			}
			desc = hutil.Trim([]interface{}{"bloom", m, k, n, p})
			f := bloom.NewBits(1+r.Intn(40), uint8(r.Intn(9)))
			s, fresh = &b, &f
			open = func(b []byte) (sketch, error) { x, err := bloom.WithBytes(b); return &x, err }
		} else {
			p := uint8(4 + r.Intn(7))
			if it%30 == 1 {
				p = uint8(11 + r.Intn(8))
			}
			c := hll.New(p)
			want = hll.Len(p)
			desc = hutil.Trim([]interface{}{"hll", p})
			f := hll.New(uint8(4 + r.Intn(10)))
			s, fresh = &c, &f
			open = func(b []byte) (sketch, error) { x, err := hll.WithBytes(b); return &x, err }
		}
		total++
		hutil.NoPanic(t, func() string { return desc }, func() {
			var probes [][]byte
			for i := r.Intn(200); i >= 0; i-- {
				v := make([]byte, r.Intn(6))
				r.Read(v)
				s.Add(v)
				if i < 20 {
					probes = append(probes, v)
					w := make([]byte, r.Intn(6))
					r.Read(w)
					probes = append(probes, w)
				}
			}
			if s.Len() != want {
				hutil.Fail(t, "%s: Len() = %d, computed length %d", desc, s.Len(), want)
			}
			ref := hutil.Trim(answers(s, probes))
			out := &hutil.Writer{Room: -1}
			n, err := s.WriteTo(out)
			if err != nil || int(n) != want || len(out.Got) != want {
				hutil.Fail(t, "%s: WriteTo = %d, %v; %d bytes, length %d", desc, n, err, len(out.Got), want)
			}
			check := func(how string, c sketch) {
				if g := hutil.Trim(answers(c, probes)); g != ref {
					hutil.Fail(t, "%s %s answers %s, original %s", how, desc, g, ref)
				}
				if !bytes.Equal(dump(c), out.Got) {
					hutil.Fail(t, "%s %s has other contents", how, desc)
				}
				// and stays the same after further additions
				a, err := open(append([]byte(nil), out.Got...))
				if err != nil {
					hutil.Fail(t, "%s: opening the written bytes: %v", desc, err)
				}
				for _, p := range probes {
					p = append(p, 'x')
					a.Add(p)
					c.Add(p)
				}
				if !bytes.Equal(dump(c), dump(a)) {
					hutil.Fail(t, "%s %s diverges after more additions", how, desc)
				}
			}
			for k := 0; k < 4; k++ {
				in := &hutil.Reader{Data: out.Got, Max: []int{0, 1, 7, 1000}[r.Intn(4)], Early: k%2 == 1}
				if want > 3000 {
					in.Max = 500
				}
				n, err := fresh.ReadFrom(in)
				if err != nil || int(n) != want {
					hutil.Fail(t, "%s: ReadFrom = %d, %v, length %d", desc, n, err, want)
				}
				check("read back", fresh)
			}
			box, intact := hutil.Boxed(out.Got)
			c, err := open(box)
			if err != nil {
				hutil.Fail(t, "%s: WithBytes: %v", desc, err)
			}
			check("in-place", c)
			if !bytes.Equal(box, dump(c)) || !intact() {
				hutil.Fail(t, "%s: the buffer does not hold the in-place object", desc)
			}
			for k := 0; k < 8; k++ {
				room := r.Intn(want)
				if k < 4 {
					room = []int{0, 1, 2, 12}[k]
				}
				if k == 5 {
					room = want
				}
				fw := &hutil.Writer{Room: room, Eof: k%3 == 2, With: k%2 == 1}
				if n, err := s.WriteTo(fw); err == nil || int(n) != len(fw.Got) || fw.Bad != 1 {
					hutil.Fail(t, "%s: writer fails after %d bytes: WriteTo = %d, %v; %d accepted, %d failing calls", desc, room, n, err, len(fw.Got), fw.Bad)
				}
				in := &hutil.Reader{Data: append([]byte(nil), out.Got...), Max: r.Intn(5) * 9, Early: k%2 == 0}
				switch k % 4 {
				case 0:
					in.Data = in.Data[:r.Intn(want)]
				case 1:
					in.Data = in.Data[:r.Intn(want+1)]
					in.End = hutil.ErrBroken
				case 2:
					in.Data = append(in.Data, make([]byte, 1+r.Intn(9))...)
				case 3:
					in.Data[0] = 2
				}
				n, err := fresh.ReadFrom(in)
				if err == nil || int(n) != in.Pos || (k%4 == 1 && err != hutil.ErrBroken) {
					hutil.Fail(t, "%s: ReadFrom of a damaged stream (%d of %d bytes, case %d) = %d, %v after %d bytes", desc, len(in.Data), want, k%4, n, err, in.Pos)
				}
			}
		})
	}
	hutil.Covered(t, "%d filters and counters written, restored and compared", total)
}
