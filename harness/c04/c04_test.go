package c04

import (
	"encoding/binary"
	"math/big"
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// fits: the 10+ byte header at b describes an array of a supported width that fits b
func fits(b []byte) (n int, w uint8, ok bool) {
	if len(b) < 10 || b[0] != 1 || b[1] < 1 || b[1] > 8 {
		return
	}
	bits := new(big.Int).SetUint64(binary.LittleEndian.Uint64(b[2:]))
	bits.Mul(bits, big.NewInt(int64(b[1])))
	bits.Add(bits, big.NewInt(7)).Rsh(bits, 3).Add(bits, big.NewInt(10))
	if bits.Cmp(big.NewInt(int64(len(b)))) > 0 {
		return
	}
	return int(binary.LittleEndian.Uint64(b[2:])), b[1], true
}

func TestOpen(t *testing.T) {
	r := hutil.Rng(t)
	opened := [3]int{}
	tries := hutil.Scale(30000)
	for it := 0; it < tries; it++ {
		kind := r.Intn(3)
		n := r.Intn(40)
		w := uint8(1 + r.Intn(8))
		p := uint8(4 + r.Intn(4))
		hdr := []byte{}
		switch kind {
		case 1:
			w = 1
			hdr = []byte{1, byte(r.Intn(20))}
		case 2:
			w = 6
			n = 1 << p
			hdr = []byte{1, p}
		}
		b := make([]byte, 10+(n*int(w)+7)/8)
		r.Read(b)
		b[0], b[1] = 1, w
		binary.LittleEndian.PutUint64(b[2:], uint64(n))
		b = append(hdr, b...)
		at := len(hdr)
		// damage
		for k := r.Intn(4); k > 0; k-- {
			if len(b) == 0 {
				break
			}
			switch r.Intn(9) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
			case 1:
				b = append(b, make([]byte, r.Intn(5))...)
			case 2:
				b[r.Intn(len(b))] = byte(r.Intn(256))
			case 3:
				i := r.Intn(14)
				if i < len(b) {
					b[i] ^= 1 << uint(r.Intn(8))
				}
			case 4: // counts near the limits
				if len(b) >= at+10 {
					c := uint64(1) << uint(r.Intn(64))
					c += uint64(r.Intn(5)) - 2
					if r.Intn(2) == 0 {
						c = uint64(n + r.Intn(20) - 10)
					}
					binary.LittleEndian.PutUint64(b[at+2:], c)
				}
			case 5:
				if len(b) > at+1 {
					b[at+1] = []byte{0, 9, 64, 128, 255, 7, 8}[r.Intn(7)]
				}
			case 6:
				b = b[:len(b)-1]
			case 7:
				if at == 2 && len(b) > 2 {
					b[1] = []byte{0, 3, 4, 18, 19, 63, 64, 255}[r.Intn(8)]
				}
			case 8:
				if r.Intn(8) == 0 {
					b = make([]byte, r.Intn(200))
					r.Read(b)
				}
			}
		}
		if it < 30 { // short buffers, nil included
			if it < 3 {
				b = nil
			} else {
				b = make([]byte, it/2)
			}
			kind = it % 3
		}
		open(t, kind, b, &opened)
	}
	hutil.Covered(t, "%d buffers, of which %v opened as bucket array, filter, counter", tries, opened)
}

func open(t *testing.T, kind int, orig []byte, opened *[3]int) {
	box, intact := hutil.Boxed(orig)
	if orig == nil {
		box = nil
	}
	what := func() string { return hutil.Trim(map[string]interface{}{"kind": kind, "bytes": orig}) }
	hutil.NoPanic(t, what, func() {
		switch kind {
		case 0:
			_, _, ok := fits(orig)
			b, err := bitbucket.WithBytes(box)
			if err == nil && !ok {
				hutil.Fail(t, "bucket array opened over % x (%d bytes)", orig, len(orig))
			}
			if err == nil {
				opened[0]++
				for i := 0; i < b.Count(); i++ {
					b.Get(i)
					b.Set(i, uint8(i*37))
					b.IncN(i, uint8(i))
				}
				b.CountN(1)
				if b.Len() > len(orig) {
					hutil.Fail(t, "bucket array over % x reports %d bytes, buffer has %d", orig, b.Len(), len(orig))
				}
				if _, err := b.WriteTo(&hutil.Writer{Room: -1}); err != nil {
					hutil.Fail(t, "bucket array over % x: WriteTo %v", orig, err)
				}
				b.Reset()
			}
			if err == nil || small(orig, 0) {
				var c bitbucket.BitBucket
				c = bitbucket.New(4, 3)
				if _, err := c.ReadFrom(&hutil.Reader{Data: orig}); err == nil && !ok {
					hutil.Fail(t, "bucket array read from % x (%d bytes)", orig, len(orig))
				}
				for i := 0; i < c.Count(); i++ {
					c.Set(i, uint8(i*31))
					c.Get(i)
				}
			}
		case 1:
			ok := len(orig) >= 2 && orig[0] == 1
			if ok {
				n, w, f := fits(orig[2:])
				ok = f && w == 1 && n >= 1
			}
			b, err := bloom.WithBytes(box)
			if err == nil && !ok {
				hutil.Fail(t, "bloom filter opened over % x (%d bytes)", orig, len(orig))
			}
			if err == nil {
				opened[1]++
				for i := 0; i < 30; i++ {
					v := []byte{byte(i), 7}
					b.Has(v)
					b.Add(v)
				}
				b.Count()
				b.ErrorRate()
				b.Reset()
			}
			if err == nil || small(orig, 2) {
				c := bloom.NewBits(10, 2)
				if _, err := c.ReadFrom(&hutil.Reader{Data: orig}); err == nil && !ok {
					hutil.Fail(t, "bloom filter read from % x (%d bytes)", orig, len(orig))
				}
				for i := 0; i < 30; i++ {
					c.Add([]byte{byte(i), 7})
					c.Has([]byte{byte(i), 7})
				}
			}
		case 2:
			ok := len(orig) >= 2 && orig[0] == 1 && orig[1] >= 4 && orig[1] <= 18
			if ok {
				n, w, f := fits(orig[2:])
				ok = f && w == 6 && n == 1<<orig[1]
			}
			c, err := hll.WithBytes(box)
			if err == nil && !ok {
				hutil.Fail(t, "cardinality counter opened over %s (%d bytes)", hutil.Trim(orig), len(orig))
			}
			if err == nil {
				opened[2]++
				for i := 0; i < 60; i++ {
					c.Add([]byte{byte(i), 7, byte(i * 3)})
				}
				c.Count()
				c.LinearCount()
				c.HarmonicCount()
				c.PoissonCount()
				c.Reset()
			}
			if err == nil || small(orig, 2) {
				d := hll.New(4)
				if _, err := d.ReadFrom(&hutil.Reader{Data: orig}); err == nil && !ok {
					hutil.Fail(t, "cardinality counter read from %s (%d bytes)", hutil.Trim(orig), len(orig))
				}
				for i := 0; i < 60; i++ {
					d.Add([]byte{byte(i), 7, byte(i * 3)})
				}
				d.Count()
			}
		}
	})
	if !intact() {
		hutil.Fail(t, "kind %d over %s: bytes outside the buffer changed", kind, hutil.Trim(orig))
	}
}

// small: reading the stream cannot ask for a lot of memory
func small(b []byte, at int) bool {
	return len(b) < at+10 || binary.LittleEndian.Uint64(b[at+2:]) < 1<<20 || binary.LittleEndian.Uint64(b[at+2:]) > 1<<62
}
