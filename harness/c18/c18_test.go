package c18

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// the bytes of a record that was updated n times, in which each 8 bytes depend on n and the key
func fill(d []byte, k, n uint64) {
	for i := 0; i+8 <= len(d); i += 8 {
		binary.LittleEndian.PutUint64(d[i:], n*uint64(i+1)+n^k*uint64(i))
	}
}

func number(d []byte, k uint64) (uint64, bool) {
	n := binary.LittleEndian.Uint64(d) / 2
	w := make([]byte, len(d))
	fill(w, k, n)
	return n, string(w) == string(d)
}

var errNo = errors.New("no")

func TestConcurrent(t *testing.T) {
	r := hutil.Rng(t)
	var reads, updates int64
	for round := 0; round < hutil.Scale(60); round++ {
		l := 1 + r.Intn(14)
		s := []int{8, 16, 64, 1024, 4096}[r.Intn(5)]
		m := bufmap.New(l, s)
		// keys of which most have the same home
		h := uint64(r.Intn(l))
		var ks []uint64
		seen := map[uint64]bool{0: true}
		for n := 1 + r.Intn(l+3); len(ks) < n; {
			k := h + uint64(l)*uint64(r.Intn(60)) + uint64(r.Intn(2))
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
		what := fmt.Sprintf("New(%d,%d), keys %v", l, s, ks)
		counts := make([]uint64, len(ks))
		running := make([]int32, len(ks))
		bad := make(chan string, 100)
		report := func(f string, a ...interface{}) {
			select {
			case bad <- fmt.Sprintf(f, a...):
			default:
			}
		}
		var stop int32
		var wg, rd sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 5; g++ {
			rng := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 400; i++ {
					j := rng.Intn(len(ks))
					k := ks[j]
					fail := rng.Intn(4) == 0
					called := false
					done := atomic.LoadUint64(&counts[j])
					err := m.Update(k, func(d []byte, init bool) error {
						called = true
						if atomic.AddInt32(&running[j], 1) != 1 {
							report("two updates of key %d run at once", k)
						}
						defer atomic.AddInt32(&running[j], -1)
						n := uint64(0)
						if !init {
							var ok bool
							if n, ok = number(d, k); !ok || n == 0 {
								report("an update of key %d is given bytes no update left", k)
							}
						}
						if n < done {
							report("an update of key %d is given the result of update %d though update %d had succeeded", k, n, done)
						}
						if fail {
							for x := range d {
								d[x] ^= byte(x)
							}
							return errNo
						}
						fill(d, k, n+1)
						return nil
					})
					atomic.AddInt64(&updates, 1)
					if called && fail != (err == errNo) || !called && err != bufmap.ErrOutOfSlots || called && !fail && err != nil {
						report("Update of key %d returns %v", k, err)
					}
					if err == nil {
						atomic.AddUint64(&counts[j], 1)
					}
				}
			}()
		}
		for g := 0; g < 3; g++ {
			rng := rand.New(rand.NewSource(r.Int63()))
			rd.Add(1)
			go func() {
				defer rd.Done()
				last := make([]uint64, len(ks))
				buf := make([]byte, s)
				<-start
				for atomic.LoadInt32(&stop) == 0 {
					j := rng.Intn(len(ks))
					least := atomic.LoadUint64(&counts[j])
					if least < last[j] {
						least = last[j]
					}
					ok := m.Get(ks[j], buf)
					atomic.AddInt64(&reads, 1)
					if !ok {
						if least > 0 {
							report("Get of key %d finds nothing after %d updates of it succeeded", ks[j], least)
						}
						continue
					}
					n, whole := number(buf, ks[j])
					if !whole || n == 0 {
						report("Get of key %d returns bytes no update left", ks[j])
					}
					if whole && n < least {
						report("Get of key %d returns the result of update %d though update %d had succeeded", ks[j], n, least)
					}
					last[j] = n
				}
			}()
		}
		close(start)
		hutil.Within(t, 60*time.Second, what+": five goroutines updating", wg.Wait)
		atomic.StoreInt32(&stop, 1)
		hutil.Within(t, 60*time.Second, what+": three goroutines reading after the last update", rd.Wait)
		select {
		case b := <-bad:
			hutil.Fail(t, "%s: %s", what, b)
		default:
		}
		owners := 0
		for j, k := range ks {
			buf := make([]byte, s)
			ok := m.Get(k, buf)
			if ok != (counts[j] > 0) {
				hutil.Fail(t, "%s: %d updates of key %d succeeded, Get of it then finds it: %v", what, counts[j], k, ok)
			}
			if !ok {
				continue
			}
			owners++
			if n, whole := number(buf, k); !whole || n != counts[j] {
				hutil.Fail(t, "%s: %d updates of key %d succeeded, its record then shows %d (whole: %v)", what, counts[j], k, n, whole)
			}
		}
		if owners > l {
			hutil.Fail(t, "%s: %d keys have records", what, owners)
		}
	}
	hutil.Covered(t, "%d updates and %d reads running together", updates, reads)
}

// Many goroutines claim slots for the same new keys at once: each key gets one slot.
func TestClaims(t *testing.T) {
	r := hutil.Rng(t)
	claims := 0
	for round := 0; round < hutil.Scale(1500); round++ {
		l := 1 + r.Intn(6)
		m := bufmap.New(l, 8)
		h := uint64(1 + r.Intn(l))
		ks := make([]uint64, l)
		for i := range ks {
			ks[i] = h + uint64(l*i)
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		var failed int32
		const g = 4
		for i := 0; i < g; i++ {
			rot := r.Intn(l)
			if r.Intn(2) == 0 {
				rot = 0
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := range ks {
					if m.Update(ks[(j+rot)%l], func(d []byte, init bool) error {
						binary.LittleEndian.PutUint64(d, binary.LittleEndian.Uint64(d)+1)
						return nil
					}) != nil {
						atomic.AddInt32(&failed, 1)
					}
				}
			}()
		}
		close(start)
		what := fmt.Sprintf("New(%d,8), %d goroutines each updating keys %v once", l, g, ks)
		hutil.Within(t, 60*time.Second, what, wg.Wait)
		if failed != 0 {
			hutil.Fail(t, "%s: %d updates find no slot, so a key has two", what, failed)
		}
		for _, k := range ks {
			buf := make([]byte, 8)
			if ok := m.Get(k, buf); !ok || binary.LittleEndian.Uint64(buf) != g {
				hutil.Fail(t, "%s: Get(%d) then gives %v %d", what, k, ok, binary.LittleEndian.Uint64(buf))
			}
			claims++
		}
	}
	hutil.Covered(t, "%d keys claimed by several goroutines", claims)
}

// While an update function runs, no read of the key returns and no other update of it starts.
func TestExclusion(t *testing.T) {
	r := hutil.Rng(t)
	n := 0
	for round := 0; round < hutil.Scale(60); round++ {
		l := 1 + r.Intn(5)
		m := bufmap.New(l, 16)
		k := uint64(1 + r.Intn(50))
		runs := r.Intn(4)
		what := fmt.Sprintf("New(%d,16), %d updates of key %d", l, runs, k)
		for i := 0; i < runs; i++ {
			fail := r.Intn(3) == 0
			hutil.Within(t, 20*time.Second, what, func() {
				m.Update(k, func(d []byte, init bool) error {
					if fail {
						return errNo
					}
					fill(d, k, uint64(i+1))
					return nil
				})
			})
		}
		before := make([]byte, 16)
		had := m.Get(k, before)
		fail := r.Intn(2) == 0
		what += fmt.Sprintf(", then one (failing: %v) during which others read and update the key", fail)
		read, upd := make(chan string, 1), make(chan bool, 1)
		var over int32
		after := make([]byte, 16)
		fill(after, k, 1000)
		hutil.Within(t, 20*time.Second, what, func() {
			m.Update(k, func(d []byte, init bool) error {
				go func() {
					buf := make([]byte, 16)
					ok := m.Get(k, buf)
					x := ""
					if ok {
						if atomic.LoadInt32(&over) == 0 {
							x = "a read returned while the update ran"
						} else if string(buf) != string(after) && (fail == false || string(buf) != string(before)) {
							x = fmt.Sprintf("a read during the update returned %x", buf)
						}
					} else if had {
						x = "a read during the update found nothing"
					}
					read <- x
				}()
				go func() {
					m.Update(k, func(d []byte, init bool) error {
						upd <- atomic.LoadInt32(&over) == 1
						return errNo
					})
				}()
				for x := range d {
					d[x] = 0x99
				}
				time.Sleep(3 * time.Millisecond)
				copy(d, after)
				atomic.StoreInt32(&over, 1)
				if fail {
					return errNo
				}
				return nil
			})
		})
		hutil.Within(t, 20*time.Second, what, func() {
			if x := <-read; x != "" {
				hutil.Fail(t, "%s: %s", what, x)
			}
			if !<-upd {
				hutil.Fail(t, "%s: two updates ran at once", what)
			}
		})
		n++
	}
	hutil.Covered(t, "%d updates with a reader and an updater waiting", n)
}
