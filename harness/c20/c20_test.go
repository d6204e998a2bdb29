package c20

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// a value every 8 bytes of which depend on n
func value(n uint64) (v [1024]byte) {
	for i := 0; i < 1024; i += 8 {
		binary.LittleEndian.PutUint64(v[i:], n*uint64(i+1)+n)
	}
	return
}

func number(v []byte) (uint64, bool) {
	n := binary.LittleEndian.Uint64(v) / 2
	w := value(n)
	return n, string(w[:]) == string(v)
}

var errNo = errors.New("no")

func TestHistories(t *testing.T) {
	r := hutil.Rng(t)
	ops := 0
	for round := 0; round < hutil.Scale(200); round++ {
		s := seqlock.New()
		var cur [1024]byte
		var hist []string
		step := func(what string, f func()) {
			hist = append(hist, what)
			hutil.Within(t, 20*time.Second, fmt.Sprint(hist), f)
			ops++
			var got [1024]byte
			hutil.Within(t, 20*time.Second, fmt.Sprint(hist)+" then Get", func() { got = s.Get() })
			if got != cur {
				hutil.Fail(t, "%v: Get returns a value other than the last stored, first differing at byte %d", hist, differ(got, cur))
			}
		}
		step("Get", func() {})
		for i := 0; i < 12; i++ {
			switch r.Intn(3) {
			case 0:
				var v [1024]byte
				r.Read(v[:])
				if r.Intn(3) == 0 {
					v = cur
					v[r.Intn(1024)]++
				}
				old := cur
				cur = v
				step("Put", func() { s.Put(v) })
				_ = old
			case 1:
				seen, n := cur, 0
				at := r.Intn(1024)
				cur[at] += byte(1 + r.Intn(255))
				k := r.Intn(1024)
				cur[k]++
				want := cur
				before := seen
				step(fmt.Sprintf("Update of bytes %d and %d", at, k), func() {
					err := s.Update(func(d []byte) error {
						n++
						if len(d) != 1024 || string(d) != string(before[:]) {
							hutil.Fail(t, "%v: the update function is given another value than the last stored", hist)
						}
						copy(d, want[:])
						return nil
					})
					if err != nil || n != 1 {
						hutil.Fail(t, "%v: %d calls of the update function, error %v", hist, n, err)
					}
				})
			default:
				n := 0
				at, m := r.Intn(1024), r.Intn(30)
				fail := errNo
				if r.Intn(2) == 0 {
					fail = fmt.Errorf("number %d", i)
				}
				step(fmt.Sprintf("failing Update writing %d bytes at %d", m, at), func() {
					err := s.Update(func(d []byte) error {
						n++
						for j := at; j < 1024 && j < at+m; j++ {
							d[j] ^= 0x5a
						}
						return fail
					})
					if err != fail || n != 1 {
						hutil.Fail(t, "%v: %d calls of the update function, error %v instead of %v", hist, n, err, fail)
					}
				})
			}
		}
	}
	hutil.Covered(t, "%d operations", ops)
}

func differ(a, b [1024]byte) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

func TestConcurrent(t *testing.T) {
	r := hutil.Rng(t)
	var reads, writes int64
	for round := 0; round < hutil.Scale(12); round++ {
		s := seqlock.New()
		var stop int32
		var wg, rd sync.WaitGroup
		bad := make(chan string, 100)
		report := func(f string, a ...interface{}) {
			select {
			case bad <- fmt.Sprintf(f, a...):
			default:
			}
		}
		var count uint64 // updates that succeeded
		var running int32
		puts := round%2 == 1
		for g := 0; g < 3; g++ {
			rng := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 1500; i++ {
					atomic.AddInt64(&writes, 1)
					if puts && i%3 == 0 {
						s.Put(value(uint64(rng.Intn(1000))))
						continue
					}
					fail := rng.Intn(3) == 0
					err := s.Update(func(d []byte) error {
						if atomic.AddInt32(&running, 1) != 1 {
							report("two update functions run at once")
						}
						defer atomic.AddInt32(&running, -1)
						n, ok := number(d)
						if !ok {
							report("an update function is given a value nobody stored")
						}
						if fail {
							for j := rng.Intn(1024); j < 1024; j++ {
								d[j]++
							}
							return errNo
						}
						v := value(n + 1)
						copy(d, v[:])
						return nil
					})
					if fail != (err != nil) {
						report("error %v", err)
					}
					if err == nil {
						atomic.AddUint64(&count, 1)
					}
				}
			}()
		}
		for g := 0; g < 3; g++ {
			rd.Add(1)
			go func() {
				defer rd.Done()
				var last uint64
				for atomic.LoadInt32(&stop) == 0 {
					least := atomic.LoadUint64(&count)
					v := s.Get()
					n, ok := number(v[:])
					if !ok {
						report("Get returns a value nobody stored")
					}
					if !puts && (n < last || n < least) {
						report("Get returns the value of update %d after update %d succeeded", n, least)
					}
					last = n
					atomic.AddInt64(&reads, 1)
				}
			}()
		}
		hutil.Within(t, 60*time.Second, "three goroutines updating", wg.Wait)
		atomic.StoreInt32(&stop, 1)
		hutil.Within(t, 60*time.Second, "three goroutines reading after the last update", rd.Wait)
		select {
		case b := <-bad:
			hutil.Fail(t, "three goroutines writing and three reading: %s", b)
		default:
		}
		v := s.Get()
		n, ok := number(v[:])
		if !ok || !puts && n != count {
			hutil.Fail(t, "three goroutines made %d successful updates adding one each: the value is of %d (whole: %v)", count, n, ok)
		}
	}
	hutil.Covered(t, "%d reads and %d writes at once", reads, writes)
}
