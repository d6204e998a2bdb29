package c01

import (
	"bytes"
	"encoding/binary"
	stdfnv "hash/fnv"
	"io"
	"testing"

	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

type hasher interface {
	io.Writer
	WriteByte(byte) error
	WriteString(string) (int, error)
	WriteUint64(uint64)
	Sum64() uint64
	Reset()
	Sum([]byte) []byte
}

func std(b []byte, a bool) uint64 {
	h := stdfnv.New64()
	if a {
		h = stdfnv.New64a()
	}
	h.Write(b)
	return h.Sum64()
}

func TestHashes(t *testing.T) {
	r := hutil.Rng(t)
	n := hutil.Scale(4000)
	for it := 0; it < n; it++ {
		ln := r.Intn(40)
		if it%50 == 0 {
			ln = r.Intn(5000)
		}
		b := make([]byte, ln)
		r.Read(b)
		if it%3 == 0 {
			for i := range b {
				b[i] |= 0x80
			}
		}
		in := append([]byte{}, b...)
		if g, w := fnv.Sum64(b), std(b, false); g != w {
			hutil.Fail(t, "Sum64(%x) = %x, want %x", b, g, w)
		}
		if g, w := fnv.String64(string(b)), std(b, false); g != w {
			hutil.Fail(t, "String64(%x) = %x, want %x", b, g, w)
		}
		if g, w := fnv.Sum64a(b), std(b, true); g != w {
			hutil.Fail(t, "Sum64a(%x) = %x, want %x", b, g, w)
		}
		if g, w := fnv.String64a(string(b)), std(b, true); g != w {
			hutil.Fail(t, "String64a(%x) = %x, want %x", b, g, w)
		}
		if !bytes.Equal(in, b) {
			hutil.Fail(t, "input %x changed to %x", in, b)
		}
		for k := 0; k < 2; k++ {
			a := k == 1
			var h hasher = fnv.New64()
			if a {
				h = fnv.New64a()
			}
			var all []byte
			ops := ""
			for j := r.Intn(7); j >= 0; j-- {
				switch r.Intn(5) {
				case 0:
					p := make([]byte, r.Intn(20))
					r.Read(p)
					m, err := h.Write(p)
					if m != len(p) || err != nil {
						hutil.Fail(t, "Write(%x) = %d, %v", p, m, err)
					}
					all = append(all, p...)
					ops += "W"
				case 1:
					p := make([]byte, r.Intn(20))
					r.Read(p)
					m, err := h.WriteString(string(p))
					if m != len(p) || err != nil {
						hutil.Fail(t, "WriteString(%x) = %d, %v", p, m, err)
					}
					all = append(all, p...)
					ops += "S"
				case 2:
					c := byte(r.Intn(256))
					if err := h.WriteByte(c); err != nil {
						hutil.Fail(t, "WriteByte(%x): %v", c, err)
					}
					all = append(all, c)
					ops += "B"
				case 3:
					v := r.Uint64() >> uint(r.Intn(64))
					h.WriteUint64(v)
					var p [8]byte
					binary.BigEndian.PutUint64(p[:], v)
					all = append(all, p[:]...)
					ops += "U"
				case 4:
					if r.Intn(6) == 0 {
						h.Reset()
						all = nil
						ops += "R"
					}
				}
				if g, w := h.Sum64(), std(all, a); g != w {
					hutil.Fail(t, "a=%v ops %s bytes %x: %x, want %x", a, ops, all, g, w)
				}
			}
			pre := make([]byte, r.Intn(12), 12+r.Intn(20))
			r.Read(pre)
			keep := append([]byte{}, pre...)
			want := binary.BigEndian.AppendUint64(append([]byte{}, pre...), std(all, a))
			got := h.Sum(pre)
			if !bytes.Equal(got, want) || !bytes.Equal(pre, keep) {
				hutil.Fail(t, "Sum(%x) of %x = %x, want %x", keep, all, got, want)
			}
			if h.Sum64() != std(all, a) {
				hutil.Fail(t, "Sum changed the state of %x", all)
			}
		}
	}
	hutil.Covered(t, "%d random byte strings one-shot and in random pieces", n)
}
