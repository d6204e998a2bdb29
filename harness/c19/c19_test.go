package c19

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// model of the map: which keys have a slot and what was added to them
type model struct {
	l     int
	slots map[int]uint64
	sum   map[uint64]uint64
}

func (m *model) inc(k, d uint64) bool {
	if k == 0 {
		return false
	}
	for i := 0; i <= 10; i++ {
		x := int((k%uint64(m.l) + uint64(i)) % uint64(m.l))
		if o, ok := m.slots[x]; !ok || o == k {
			m.slots[x] = k
			m.sum[k] += d
			return true
		}
	}
	return false
}

// keys with few homes among l slots
func pool(r *rand.Rand, l, n int) []uint64 {
	h := uint64(r.Intn(l))
	var ks []uint64
	for len(ks) < n {
		k := h + uint64(r.Intn(3)) + uint64(l)*uint64(r.Intn(40))
		switch r.Intn(6) {
		case 0:
			k = r.Uint64()
		case 1:
			k = ^uint64(0) - uint64(r.Intn(2*l))
		case 2:
			k = uint64(r.Intn(2 * l))
		}
		ks = append(ks, k)
	}
	return append(ks, 0, ^uint64(0))
}

func TestHistories(t *testing.T) {
	r := hutil.Rng(t)
	ops := 0
	for round := 0; round < hutil.Scale(400); round++ {
		l := 1 + r.Intn(24)
		if r.Intn(4) == 0 {
			l = 1 + r.Intn(3)
		}
		m := incmap.New(l)
		md := &model{l, map[int]uint64{}, map[uint64]uint64{}}
		ks := pool(r, l, 3+r.Intn(40))
		var hist []string
		for i := 0; i < 80; i++ {
			ops++
			k := ks[r.Intn(len(ks))]
			if r.Intn(2) == 0 {
				d := uint64(r.Intn(10))
				if r.Intn(4) == 0 {
					d = r.Uint64()
				}
				hist = append(hist, fmt.Sprintf("Inc(%d,%d)", k, d))
				var ok bool
				hutil.NoPanic(t, func() string { return fmt.Sprintf("New(%d): %v", l, hist) }, func() { ok = m.Inc(k, d) })
				if want := md.inc(k, d); ok != want {
					hutil.Fail(t, "New(%d): %v: the last returned %v", l, hist, ok)
				}
			}
			for _, q := range []uint64{ks[r.Intn(len(ks))], k, r.Uint64()} {
				var v uint64
				var ok bool
				hutil.NoPanic(t, func() string { return fmt.Sprintf("New(%d): %v Get(%d)", l, hist, q) }, func() { v, ok = m.Get(q) })
				want, has := md.sum[q]
				if ok != has || has && v != want {
					hutil.Fail(t, "New(%d): %v then Get(%d) = %d, %v instead of %d, %v", l, hist, q, v, ok, want, has)
				}
			}
		}
	}
	hutil.Covered(t, "%d operations", ops)
}

func TestConcurrent(t *testing.T) {
	r := hutil.Rng(t)
	total := 0
	for round := 0; round < hutil.Scale(150); round++ {
		l := 1 + r.Intn(20)
		m := incmap.New(l)
		ks := pool(r, l, 2+r.Intn(12))
		sums := make([]uint64, len(ks))
		var wg, rd sync.WaitGroup
		var stop uint32
		start := make(chan bool)
		bad := make(chan string, 64)
		for g := 0; g < 6; g++ {
			wg.Add(1)
			seed := r.Int63()
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				<-start
				for i := 0; i < 120; i++ {
					j := r.Intn(len(ks))
					d := uint64(1 + r.Intn(3))
					if m.Inc(ks[j], d) {
						atomic.AddUint64(&sums[j], d)
						least := atomic.LoadUint64(&sums[j])
						if v, ok := m.Get(ks[j]); !ok || v < least {
							select {
							case bad <- fmt.Sprintf("Get(%d) = %d, %v after an increment of it succeeded", ks[j], v, ok):
							default:
							}
						}
					}
				}
			}()
		}
		rd.Add(1)
		go func() {
			defer rd.Done()
			last := map[uint64]uint64{}
			<-start
			for atomic.LoadUint32(&stop) == 0 {
				for _, k := range ks {
					v, ok := m.Get(k)
					if v < last[k] || !ok && last[k] > 0 {
						select {
						case bad <- fmt.Sprintf("Get(%d) = %d, %v after it was %d", k, v, ok, last[k]):
						default:
						}
					}
					last[k] = v
				}
			}
		}()
		close(start)
		hutil.Within(t, 20*time.Second, "concurrent increments", wg.Wait)
		atomic.StoreUint32(&stop, 1)
		rd.Wait()
		select {
		case b := <-bad:
			hutil.Fail(t, "New(%d), six goroutines incrementing %v: %s", l, ks, b)
		default:
		}
		want := map[uint64]uint64{}
		for j, k := range ks {
			want[k] += sums[j]
		}
		for _, k := range ks {
			v, ok := m.Get(k)
			if v != want[k] || ok != (want[k] > 0) {
				hutil.Fail(t, "New(%d), six goroutines incrementing %v: Get(%d) = %d, %v after successful increments of %d", l, ks, k, v, ok, want[k])
			}
		}
		total += 6 * 120
	}
	hutil.Covered(t, "%d concurrent increments", total)
}

// Many goroutines meet a key for the first time.
func TestFirstClaim(t *testing.T) {
	r := hutil.Rng(t)
	rounds := hutil.Scale(3000)
	for round := 0; round < rounds; round++ {
		l := 1 + r.Intn(4)
		m := incmap.New(l)
		k := 1 + uint64(r.Intn(9))
		var wg sync.WaitGroup
		var ready, oks int32
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < 4 {
				}
				if m.Inc(k+uint64(g%2), 1) && g%2 == 0 {
					atomic.AddInt32(&oks, 1)
				}
			}()
		}
		wg.Wait()
		if v, _ := m.Get(k); v != uint64(oks) {
			hutil.Fail(t, "New(%d), two goroutines incrementing %d and two %d: Get(%d) = %d after %d successful increments", l, k, k+1, k, v, oks)
		}
	}
	hutil.Covered(t, "%d first claims", rounds)
}
