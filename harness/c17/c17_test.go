package c17

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// model of the map: which key has each slot, and the buffers of the keys of which an update succeeded
type model struct {
	l     int
	slots map[int]uint64
	bufs  map[uint64][]byte
}

func (m *model) slot(k uint64) bool {
	for i := 0; i <= 10; i++ {
		x := int((k%uint64(m.l) + uint64(i)) % uint64(m.l))
		if o, ok := m.slots[x]; !ok || o == k {
			m.slots[x] = k
			return true
		}
	}
	return false
}

// keys with few homes among l slots
func pool(r *rand.Rand, l, n int) []uint64 {
	h := uint64(r.Intn(l))
	var ks []uint64
	for len(ks) < n {
		k := h + uint64(r.Intn(3)) + uint64(l)*uint64(r.Intn(40))
		switch r.Intn(6) {
		case 0:
			k = r.Uint64()
		case 1:
			k = ^uint64(0) - uint64(r.Intn(2*l))
		case 2:
			k = uint64(r.Intn(2 * l))
		}
		ks = append(ks, k)
	}
	return append(ks, 0, ^uint64(0))
}

func TestHistories(t *testing.T) {
	r := hutil.Rng(t)
	ops := 0
	for round := 0; round < hutil.Scale(250); round++ {
		l := 1 + r.Intn(24)
		if r.Intn(4) == 0 {
			l = 1 + r.Intn(3)
		}
		s := []int{0, 1, 2, 3, 7, 8, 9, 16, 24, 31, 64, 100}[r.Intn(12)]
		m := bufmap.New(l, s)
		md := &model{l, map[int]uint64{}, map[uint64][]byte{}}
		ks := pool(r, l, 3+r.Intn(40))
		hist := []string{fmt.Sprintf("New(%d,%d)", l, s)}
		do := func(f func()) {
			// a lock that is not released shows as a call that does not return
			hutil.Within(t, 20*time.Second, fmt.Sprint(hist), f)
		}
		for i := 0; i < 60; i++ {
			ops++
			k := ks[r.Intn(len(ks))]
			mode := r.Intn(8)
			fail := error(nil)
			if mode < 2 {
				fail = fmt.Errorf("error %d", i)
			}
			old, had := md.bufs[k]
			if !had {
				old = make([]byte, s)
			}
			var out []byte
			calls := 0
			fn := func(data []byte, init bool) error {
				calls++
				if init == had {
					hutil.Fail(t, "%v: the function is told init=%v, but an update of the key has succeeded before: %v", hist, init, had)
				}
				if len(data) != s || !bytes.Equal(data, old) {
					hutil.Fail(t, "%v: the function is given %x instead of %x", hist, data, old)
				}
				switch mode {
				case 0: // fails having changed nothing
				case 1, 2:
					r.Read(data)
				case 3:
					if s > 0 {
						data[r.Intn(s)] ^= byte(1 + r.Intn(255))
					}
				case 4:
					for j := range data {
						data[j] = 0
					}
				case 5:
					// what lies beyond the end of its buffer is no one else's
					full := data[:cap(data)]
					for j := range full {
						full[j] = 0xa5
					}
				case 6:
					r.Read(data)
					_ = append(data, 0xee, 0xee, 0xee)
				case 7: // nothing
				}
				out = append([]byte{}, data...)
				return fail
			}
			hist = append(hist, fmt.Sprintf("Update(%d, %s)", k, []string{"fails", "scribbles and fails", "random", "one byte", "zeros", "fill to capacity", "random and append", "no change"}[mode]))
			var err error
			do(func() { err = m.Update(k, fn) })
			switch {
			case k == 0:
				if calls != 0 || err != bufmap.ErrInvalidKey {
					hutil.Fail(t, "%v: %d calls of the function, error %v", hist, calls, err)
				}
			case !md.slot(k):
				if calls != 0 || err != bufmap.ErrOutOfSlots {
					hutil.Fail(t, "%v: no slot is left, but %d calls of the function, error %v", hist, calls, err)
				}
			default:
				if calls != 1 || err != fail {
					hutil.Fail(t, "%v: %d calls of the function, error %v instead of %v", hist, calls, err, fail)
				}
				if err == nil {
					md.bufs[k] = out
				}
			}
			for _, q := range []uint64{ks[r.Intn(len(ks))], k, r.Uint64(), 0} {
				n := s
				if r.Intn(4) == 0 {
					n = r.Intn(s + 1)
				}
				if r.Intn(4) == 0 {
					n = s + r.Intn(20)
				}
				buf, intact := hutil.Boxed(bytes.Repeat([]byte{0x77}, n))
				var ok bool
				do(func() { ok = m.Get(q, buf) })
				want, has := md.bufs[q]
				if ok != has {
					hutil.Fail(t, "%v then Get(%d): found %v, but an update of it succeeded: %v", hist, q, ok, has)
				}
				exp := bytes.Repeat([]byte{0x77}, n)
				if has {
					copy(exp, want)
				}
				if has && !bytes.Equal(buf, exp) {
					hutil.Fail(t, "%v then Get(%d) into %d bytes gives %x instead of %x", hist, q, n, buf, exp)
				}
				if !intact() {
					hutil.Fail(t, "%v then Get(%d) writes outside the %d bytes of its buffer", hist, q, n)
				}
			}
		}
		// every key still has its own
		for _, k := range ks {
			buf := make([]byte, s)
			ok := m.Get(k, buf)
			want, has := md.bufs[k]
			if ok != has || has && !bytes.Equal(buf, want) {
				hutil.Fail(t, "%v then Get(%d) gives %v %x instead of %v %x", hist, k, ok, buf, has, want)
			}
		}
	}
	hutil.Covered(t, "%d operations", ops)
}

// An update may use the map for other keys.
func TestNested(t *testing.T) {
	r := hutil.Rng(t)
	n := 0
	for round := 0; round < hutil.Scale(200); round++ {
		l := 2 + r.Intn(12)
		m := bufmap.New(l, 8)
		a := uint64(1 + r.Intn(1000))
		b := a + uint64(l)*uint64(1+r.Intn(3)) // the same home
		what := fmt.Sprintf("New(%d,8), Update(%d) which calls Update(%d) and Get of both", l, a, b)
		errNo := errors.New("no")
		fail := r.Intn(2) == 0
		hutil.Within(t, 20*time.Second, what, func() {
			err := m.Update(a, func(d []byte, init bool) error {
				copy(d, "aaaaaaaa")
				if err := m.Update(b, func(e []byte, init bool) error {
					if !init || !bytes.Equal(e, make([]byte, 8)) {
						hutil.Fail(t, "%s: the inner function is given %x init=%v", what, e, init)
					}
					copy(e, "bbbbbbbb")
					return nil
				}); err != nil {
					hutil.Fail(t, "%s: %v", what, err)
				}
				if string(d) != "aaaaaaaa" {
					hutil.Fail(t, "%s: the inner update changed the outer one's bytes to %q", what, d)
				}
				if fail {
					return errNo
				}
				return nil
			})
			if fail != (err == errNo) {
				hutil.Fail(t, "%s: %v", what, err)
			}
		})
		n++
		buf := make([]byte, 8)
		if ok := m.Get(b, buf); !ok || string(buf) != "bbbbbbbb" {
			hutil.Fail(t, "%s: then Get(%d) gives %v %q", what, b, ok, buf)
		}
		if ok := m.Get(a, buf); ok == fail || ok && string(buf) != "aaaaaaaa" {
			hutil.Fail(t, "%s (failing: %v): then Get(%d) gives %v %q", what, fail, a, ok, buf)
		}
	}
	hutil.Covered(t, "%d nested updates", n)
}
