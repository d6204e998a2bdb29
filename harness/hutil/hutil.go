// Package hutil is shared by the harnesses that look for failing inputs.
package hutil

import (
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"
)

// Seed is the seed of this run.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Rng returns a source that depends on the seed and the name of the test.
func Rng(t testing.TB) *rand.Rand {
	h := Seed()
	for _, c := range t.Name() {
		h = h*1000003 + int64(c)
	}
	return rand.New(rand.NewSource(h))
}

// Scale multiplies effort in thorough runs.
func Scale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

// Fail reports one failing input.
func Fail(t testing.TB, f string, a ...interface{}) {
	t.Helper()
	t.Fatalf("FAILING INPUT: %s", fmt.Sprintf(f, a...))
}

// Covered records what a test explored.
func Covered(t testing.TB, f string, a ...interface{}) {
	fmt.Printf("COVERED %s: %s\n", t.Name(), fmt.Sprintf(f, a...))
	caseMu.Lock()
	fmt.Printf("CASES %d %d\n", caseN, len(caseSeen))
	caseMu.Unlock()
}

var (
	caseMu   sync.Mutex
	caseN    int
	caseSeen = map[uint64]bool{}
	caseShow = map[string]int{}
)

// Case counts one case tried, written out as desc; rule says whether it is more than a trivial one.
func Case(t testing.TB, desc string, nontrivial bool) {
	caseMu.Lock()
	defer caseMu.Unlock()
	caseN++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	io.WriteString(h, t.Name())
	io.WriteString(h, desc)
	caseSeen[h.Sum64()] = true
	if caseShow[t.Name()] < 3 && caseN%7 == 1 {
		caseShow[t.Name()]++
		fmt.Printf("SAMPLE %s: %s\n", t.Name(), Trim(desc))
	}
}

// NoPanic runs f and reports a panic as a failing input.
func NoPanic(t testing.TB, what func() string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(interface{ RuntimeError() }); !ok {
				panic(r)
			}
			t.Helper()
			t.Fatalf("FAILING INPUT: panic %v: %s", r, what())
		}
	}()
	f()
}

// Within runs f and reports a failing input if it does not return in time.
func Within(t testing.TB, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	var once sync.Once
	var pv interface{}
	go func() {
		defer once.Do(func() { close(done) })
		defer func() { pv = recover() }()
		f()
	}()
	select {
	case <-done:
		if pv != nil {
			t.Fatalf("FAILING INPUT: %s: panic %v", what, pv)
		}
	case <-time.After(d):
		t.Fatalf("FAILING INPUT: %s: no return within %v", what, d)
	}
}

// Trim shortens a value for a report.
func Trim(v interface{}) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// ErrBroken is returned by the failing readers and writers.
var ErrBroken = fmt.Errorf("hutil: broken stream")

// Writer accepts Room bytes, then fails with the part that fitted (Room < 0: never fails).
type Writer struct {
	Got  []byte
	Room int
	Bad  int // calls made after the first failure, calls that failed
	Eof  bool
	With bool // fails with the last byte that fits rather than for want of room
}

func (w *Writer) Write(p []byte) (int, error) {
	if w.Room >= 0 && (len(w.Got)+len(p) > w.Room || w.With && len(w.Got)+len(p) == w.Room) {
		n := w.Room - len(w.Got)
		w.Got = append(w.Got, p[:n]...)
		w.Bad++
		if w.Eof {
			return n, io.EOF
		}
		return n, ErrBroken
	}
	w.Got = append(w.Got, p...)
	return len(p), nil
}

// Reader delivers Data in pieces of at most Max bytes and then fails with End (io.EOF if nil),
// together with the last piece when Late is false.
type Reader struct {
	Data  []byte
	Pos   int
	Max   int
	End   error
	Early bool
}

func (r *Reader) Read(p []byte) (int, error) {
	end := r.End
	if end == nil {
		end = io.EOF
	}
	n := len(p)
	if r.Max > 0 && n > r.Max {
		n = r.Max
	}
	if n > len(r.Data)-r.Pos {
		n = len(r.Data) - r.Pos
	}
	copy(p, r.Data[r.Pos:r.Pos+n])
	r.Pos += n
	if n == 0 && len(p) > 0 || r.Early && r.Pos == len(r.Data) {
		return n, end
	}
	return n, nil
}

// Boxed returns a copy of b inside guard bytes, and a function reporting whether the guards are intact.
func Boxed(b []byte) ([]byte, func() bool) {
	big := make([]byte, len(b)+64)
	for i := range big {
		big[i] = 0xa5 ^ byte(i)
	}
	in := big[32 : 32+len(b)]
	copy(in, b)
	return in, func() bool {
		for i := range big {
			if (i < 32 || i >= 32+len(b)) && big[i] != 0xa5^byte(i) {
				return false
			}
		}
		return true
	}
}
