package c16

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/cm"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// backend records the calls it gets. It hands out memory of its own.
type backend struct {
	recs   map[uint64][]byte
	size   int
	calls  []string
	refuse error // Update fails with it, not having called the function
	keep   []byte
	gotLen int
}

func (b *backend) Get(k uint64, buf []byte) bool {
	b.calls = append(b.calls, fmt.Sprintf("get %x", k))
	b.gotLen = len(buf)
	rec, ok := b.recs[k]
	if ok {
		copy(buf, rec)
	}
	return ok
}

func (b *backend) Update(k uint64, fn func(data []byte, init bool) error) error {
	b.calls = append(b.calls, fmt.Sprintf("update %x", k))
	if b.refuse != nil {
		return b.refuse
	}
	rec, ok := b.recs[k]
	d := make([]byte, b.size)
	if ok {
		copy(d, rec)
	} else {
		for i := range d {
			d[i] = 0xee // what a new record holds is for the collation to set
		}
	}
	if err := fn(d, !ok); err != nil {
		return err
	}
	b.recs[k] = d
	return nil
}

var texts = []string{"", "a", "b", "aa", "x", "\x00", "longer text of more than sixteen bytes"}

func row(r *rand.Rand, s *cm.Spec, bad bool) collation.Row {
	var row collation.Row
	used := map[string]bool{}
	add := func(f, v string) {
		if !used[f] {
			used[f] = true
			row.Data = append(row.Data, collation.FV{F: []byte(f), V: []byte(v)})
		}
	}
	val := func(f string) string {
		if s.HasNum(f) {
			if bad && r.Intn(3) == 0 {
				return cm.NotNumbers[r.Intn(len(cm.NotNumbers))]
			}
			return cm.Numbers[r.Intn(len(cm.Numbers))].T
		}
		return texts[r.Intn(len(texts))]
	}
	for _, k := range s.Schema.Keys {
		if r.Intn(12) > 0 {
			add(k.Field.Pattern, val(k.Field.Pattern))
		}
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		f := cm.FieldNames[r.Intn(len(cm.FieldNames))]
		add(f, val(f))
	}
	r.Shuffle(len(row.Data), func(i, j int) { row.Data[i], row.Data[j] = row.Data[j], row.Data[i] })
	return row
}

// address of what the key fields select
func address(keys [][]byte, fv collation.FVList) (uint64, bool) {
	h := uint64(0xcbf29ce484222325)
	for _, k := range keys {
		found := false
		for _, f := range fv {
			if bytes.Equal(f.F, k) {
				for _, c := range append(append([]byte{}, f.F...), f.V...) {
					h = h*0x100000001b3 ^ uint64(c)
				}
				found = true
				break
			}
		}
		if !found {
			return 0, false
		}
	}
	return h, true
}

func copyRecs(m map[uint64][]byte) map[uint64][]byte {
	c := map[uint64][]byte{}
	for k, v := range m {
		c[k] = append([]byte{}, v...)
	}
	return c
}

func ask(r *rand.Rand, s *cm.Spec) []collation.FM {
	var fm []collation.FM
	for i, n := 0, r.Intn(4); i < n; i++ {
		f := "*"
		if r.Intn(4) > 0 {
			f = cm.FieldNames[r.Intn(len(cm.FieldNames))]
		}
		x := collation.FM{F: []byte(f)}
		for j, k := 0, r.Intn(4); j < k; j++ {
			x.M = append(x.M, []byte([]string{"m0", "m1", "m2", "r0", "r1", "count", "sum", "max"}[r.Intn(8)]))
		}
		fm = append(fm, x)
	}
	return fm
}

var errRefused = errors.New("backend refuses")

func TestRouting(t *testing.T) {
	r := hutil.Rng(t)
	writes, reads, applied := 0, 0, 0
	for round := 0; round < hutil.Scale(1500); round++ {
		s := cm.New(r, true)
		c, err := s.Schema.Compile()
		if err != nil {
			hutil.Fail(t, "%s: %v", s, err)
		}
		b := &backend{recs: map[uint64][]byte{}, size: c.Size()}
		st := &storage.Store{Backend: b, Collator: c}
		for op, n := 0, 4+r.Intn(10); op < n; op++ {
			b.calls, b.refuse = nil, nil
			was := copyRecs(b.recs)
			if r.Intn(3) > 0 {
				writes++
				rw := row(r, s, r.Intn(4) == 0)
				what := fmt.Sprintf("%s: write of%s", s, cm.RowString(rw))
				k, found := address(c.Keys(), rw.Data)
				ctx, mode := context.Background(), r.Intn(8)
				switch mode {
				case 0:
					cx, cancel := context.WithCancel(ctx)
					cancel()
					ctx = cx
					what += ", cancelled"
				case 1:
					cx, cancel := context.WithDeadline(ctx, time.Unix(1, 0))
					defer cancel()
					ctx = cx
					what += ", past its deadline"
				case 2:
					cx, cancel := context.WithCancel(ctx)
					defer cancel()
					ctx = cx
				case 3:
					b.refuse = errRefused
				}
				// what the record should be afterwards
				want := make([]byte, c.Size())
				var werr error
				if found && mode > 1 && b.refuse == nil {
					if rec, ok := was[k]; ok {
						copy(want, rec)
						werr = c.Update(rw, want, false)
					} else {
						for i := range want {
							want[i] = 0xee
						}
						werr = c.Update(rw, want, true)
					}
				}
				var gerr error
				hutil.NoPanic(t, func() string { return what }, func() { gerr = st.Write(ctx, rw) })
				switch {
				case !found:
					if gerr != nil && mode > 1 || len(b.calls) > 0 {
						hutil.Fail(t, "%s lacking a key: error %v, backend calls %v", what, gerr, b.calls)
					}
				case mode <= 1:
					if gerr == nil || len(b.calls) > 0 || gerr != ctx.Err() {
						hutil.Fail(t, "%s: error %v, backend calls %v", what, gerr, b.calls)
					}
				default:
					if len(b.calls) != 1 || b.calls[0] != fmt.Sprintf("update %x", k) {
						hutil.Fail(t, "%s: backend calls %v, expected one update of %x", what, b.calls, k)
					}
					if b.refuse != nil {
						werr = errRefused
					}
					if (gerr == nil) != (werr == nil) || b.refuse != nil && gerr != errRefused {
						hutil.Fail(t, "%s: error %v, expected %v", what, gerr, werr)
					}
					if werr == nil {
						applied++
						was[k] = want
					}
				}
				if !reflect.DeepEqual(b.recs, was) {
					hutil.Fail(t, "%s: records are %x, expected %x", what, b.recs, was)
				}
				continue
			}
			reads++
			q := collation.Query{FieldMeasures: ask(r, s), Criteria: row(r, s, false).Data}
			what := fmt.Sprintf("%s: query %q where %q", s, q.FieldMeasures, q.Criteria)
			k, found := address(c.Keys(), q.Criteria)
			var want collation.Result
			var werr error
			rec, ok := was[k]
			if found && ok {
				want, werr = c.Read(q.FieldMeasures, append([]byte{}, rec...))
			}
			var got collation.Result
			var gerr error
			hutil.NoPanic(t, func() string { return what }, func() { got, gerr = st.Read(context.Background(), q) })
			if (gerr == nil) != (werr == nil) || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				hutil.Fail(t, "%s: %q, %v; expected %q, %v", what, got, gerr, want, werr)
			}
			if found && (len(b.calls) != 1 || b.calls[0] != fmt.Sprintf("get %x", k) || b.gotLen < c.Size()) || !found && len(b.calls) > 0 {
				hutil.Fail(t, "%s (key %x %v): backend calls %v with a buffer of %d of %d", what, k, found, b.calls, b.gotLen, c.Size())
			}
			if !reflect.DeepEqual(b.recs, was) {
				hutil.Fail(t, "%s: records were %x and are %x", what, was, b.recs)
			}
		}
	}
	hutil.Covered(t, "%d writes, of which %d were applied, and %d reads", writes, applied, reads)
}

// A context that is cancelled while the store looks at it: all or nothing.
type late struct {
	context.Context
	n, at int
	ch    chan struct{}
}

func (l *late) look() bool {
	l.n++
	if l.n == l.at {
		close(l.ch)
	}
	return l.n >= l.at
}
func (l *late) Done() <-chan struct{} { l.look(); return l.ch }
func (l *late) Err() error {
	if l.look() {
		return context.Canceled
	}
	return nil
}

func TestLateCancel(t *testing.T) {
	schema := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, err := schema.Compile()
	if err != nil {
		t.Fatal(err)
	}
	for at := 1; at < 8; at++ {
		b := &backend{recs: map[uint64][]byte{}, size: c.Size()}
		st := &storage.Store{Backend: b, Collator: c}
		err := st.Write(&late{Context: context.Background(), at: at, ch: make(chan struct{})}, collation.Row{Data: collation.FVList{{F: []byte("k"), V: []byte("v")}}})
		if (err == nil) != (len(b.recs) == 1) {
			hutil.Fail(t, "cancelled at the store's look %d at the request: error %v with %d records stored", at, err, len(b.recs))
		}
	}
	hutil.Covered(t, "cancellation at 7 points")
}

// Against the real record map, a model of the records by key text.
func TestStores(t *testing.T) {
	r := hutil.Rng(t)
	ops := 0
	for round := 0; round < hutil.Scale(300); round++ {
		s := cm.New(r, true)
		c, err := s.Schema.Compile()
		if err != nil {
			hutil.Fail(t, "%s: %v", s, err)
		}
		st := &storage.Store{Backend: bufmap.New(512, c.Size()), Collator: c}
		model := map[uint64][]byte{}
		for op := 0; op < 40; op++ {
			ops++
			rw := row(r, s, r.Intn(5) == 0)
			k, found := address(c.Keys(), rw.Data)
			err := st.Write(context.Background(), rw)
			if found && !errors.Is(err, bufmap.ErrOutOfSlots) {
				rec, ok := model[k]
				d := make([]byte, c.Size())
				copy(d, rec)
				werr := c.Update(rw, d, !ok)
				if (err == nil) != (werr == nil) {
					hutil.Fail(t, "%s: write of%s: %v, expected %v", s, cm.RowString(rw), err, werr)
				}
				if werr == nil {
					model[k] = d
				}
			}
			q := collation.Query{FieldMeasures: ask(r, s), Criteria: row(r, s, false).Data}
			k, found = address(c.Keys(), q.Criteria)
			var want collation.Result
			if rec, ok := model[k]; ok && found {
				want, _ = c.Read(q.FieldMeasures, append([]byte{}, rec...))
			}
			got, err := st.Read(context.Background(), q)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				hutil.Fail(t, "%s: query %q where %q: %q %v, expected %q", s, q.FieldMeasures, q.Criteria, got, err, want)
			}
		}
	}
	hutil.Covered(t, "%d writes and reads of stores on the record map", ops)
}
