package c25

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/cm"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

var texts = []string{"", "a", "b", "aa", "x", "\x00", "longer text of more than sixteen bytes"}

func row(r *rand.Rand, s *cm.Spec, bad bool) collation.Row {
	var row collation.Row
	used := map[string]bool{}
	add := func(f, v string) {
		if !used[f] {
			used[f] = true
			row.Data = append(row.Data, collation.FV{F: []byte(f), V: []byte(v)})
		}
	}
	val := func(f string) string {
		if s.HasNum(f) {
			if bad && r.Intn(3) == 0 {
				return cm.NotNumbers[r.Intn(len(cm.NotNumbers))]
			}
			return cm.Numbers[r.Intn(len(cm.Numbers))].T
		}
		return texts[r.Intn(len(texts))]
	}
	for _, k := range s.Schema.Keys {
		if r.Intn(12) > 0 {
			add(k.Field.Pattern, val(k.Field.Pattern))
		}
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		f := cm.FieldNames[r.Intn(len(cm.FieldNames))]
		add(f, val(f))
	}
	r.Shuffle(len(row.Data), func(i, j int) { row.Data[i], row.Data[j] = row.Data[j], row.Data[i] })
	return row
}

// address of what the key fields select
func address(keys [][]byte, fv collation.FVList) (uint64, bool) {
	h := uint64(0xcbf29ce484222325)
	for _, k := range keys {
		found := false
		for _, f := range fv {
			if bytes.Equal(f.F, k) {
				for _, c := range append(append([]byte{}, f.F...), f.V...) {
					h = h*0x100000001b3 ^ uint64(c)
				}
				found = true
				break
			}
		}
		if !found {
			return 0, false
		}
	}
	return h, true
}

func ask(r *rand.Rand, s *cm.Spec) []collation.FM {
	var fm []collation.FM
	for i, n := 0, r.Intn(4); i < n; i++ {
		f := "*"
		if r.Intn(4) > 0 {
			f = cm.FieldNames[r.Intn(len(cm.FieldNames))]
		}
		x := collation.FM{F: []byte(f)}
		for j, k := 0, r.Intn(4); j < k; j++ {
			x.M = append(x.M, []byte([]string{"m0", "m1", "m2", "r0", "r1", "count", "sum", "max"}[r.Intn(8)]))
		}
		fm = append(fm, x)
	}
	return fm
}


// Two stores of the same collation: one is given every row, the other only those the first accepted.
func TestRejected(t *testing.T) {
	r := hutil.Rng(t)
	rejected, accepted, first := 0, 0, 0
	for round := 0; round < hutil.Scale(500); round++ {
		s := cm.New(r, true)
		c, err := s.Schema.Compile()
		if err != nil {
			hutil.Fail(t, "%s: %v", s, err)
		}
		size := c.Size()
		ma, mb := bufmap.New(512, size), bufmap.New(512, size)
		a, b := &storage.Store{Backend: ma, Collator: c}, &storage.Store{Backend: mb, Collator: c}
		if len(s.Schema.Keys) > 2 {
			continue
		}
		var hist []string
		tried := map[uint64]bool{}
		for op := 0; op < 25; op++ {
			rw := row(r, s, r.Intn(2) == 0)
			k, found := address(c.Keys(), rw.Data)
			if !found {
				continue
			}
			s.L.FailID = -1
			mode := ""
			ctx := context.Background()
			if len(s.All) > 0 && r.Intn(3) == 0 {
				s.L.FailID = s.All[r.Intn(len(s.All))].ID
				s.L.FailAfter = r.Intn(2)
				mode = fmt.Sprintf(" with measure %d failing at call %d", s.L.FailID, s.L.FailAfter)
			}
			if r.Intn(12) == 0 {
				cx, cancel := context.WithCancel(ctx)
				cancel()
				ctx = cx
				mode += " cancelled"
			}
			was, has := make([]byte, size), false
			was2 := make([]byte, size)
			hutil.Within(t, 20*time.Second, fmt.Sprintf("%s: %s", s, hist), func() { has = ma.Get(k, was) })
			hist = append(hist, fmt.Sprintf("{%s%s}", cm.RowString(rw), mode))
			var werr error
			hutil.Within(t, 20*time.Second, fmt.Sprintf("%s: %s", s, hist), func() { werr = a.Write(ctx, rw) })
			s.L.FailID = -1
			got, ok := make([]byte, size), false
			hutil.Within(t, 20*time.Second, fmt.Sprintf("%s: %s", s, hist), func() { ok = ma.Get(k, got) })
			if werr != nil {
				rejected++
				if ok != has || has && !bytes.Equal(got, was) {
					hutil.Fail(t, "%s: rows%s: the last is rejected (%v), but its record, before found=%v %x, is then found=%v %x", s, hist, werr, has, was, ok, got)
				}
				tried[k] = true
				continue
			}
			accepted++
			if !has && tried[k] {
				first++
			}
			if err := b.Write(context.Background(), rw); err != nil {
				hutil.Fail(t, "%s: rows%s: the last is accepted, but not by a store that saw the accepted rows only: %v", s, hist, err)
			}
			want, okb := make([]byte, size), mb.Get(k, was2)
			copy(want, was2)
			if !ok || !okb || !bytes.Equal(got, want) {
				hutil.Fail(t, "%s: rows%s: the record is found=%v %x, and with the accepted rows only it is found=%v %x", s, hist, ok, got, okb, want)
			}
			q := collation.Query{FieldMeasures: ask(r, s), Criteria: rw.Data}
			ra, ea := a.Read(context.Background(), q)
			rb, eb := b.Read(context.Background(), q)
			if fmt.Sprintf("%q", ra) != fmt.Sprintf("%q", rb) || (ea == nil) != (eb == nil) {
				hutil.Fail(t, "%s: rows%s: query %q gives %q %v, and with the accepted rows only %q %v", s, hist, q.FieldMeasures, ra, ea, rb, eb)
			}
		}
	}
	hutil.Covered(t, "%d rejected and %d accepted rows, %d of these the first after rejected ones", rejected, accepted, first)
}

// A record whose update fails keeps what others read meanwhile.
func TestReaders(t *testing.T) {
	r := hutil.Rng(t)
	schema := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, Measures: []collation.MeasureSpec{
		{Field: collation.FieldSpec{Pattern: "v"}, Measures: []collation.Measure{collation.Count{}, collation.Sum{}, collation.Max{}, collation.Cardinality{Precision: 4}}}}}
	c, err := schema.Compile()
	if err != nil {
		t.Fatal(err)
	}
	fv := func(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }
	n := 0
	for round := 0; round < hutil.Scale(100); round++ {
		st := &storage.Store{Backend: bufmap.New(8, c.Size()), Collator: c}
		ok := r.Intn(3)
		for i := 0; i < ok; i++ {
			if err := st.Write(context.Background(), collation.Row{Data: collation.FVList{fv("k", "x"), fv("v", fmt.Sprint(i+1))}}); err != nil {
				hutil.Fail(t, "write %d: %v", i, err)
			}
		}
		q := collation.Query{FieldMeasures: []collation.FM{{F: []byte("v"), M: [][]byte{[]byte("count"), []byte("sum"), []byte("max")}}}, Criteria: collation.FVList{fv("k", "x")}}
		want, _ := st.Read(context.Background(), q)
		done := make(chan bool)
		go func() {
			defer close(done)
			for i := 0; i < 200; i++ {
				st.Write(context.Background(), collation.Row{Data: collation.FVList{fv("k", "x"), fv("v", "5"), fv("v", "7"), fv("v", "many")}})
			}
		}()
		hutil.Within(t, 60*time.Second, "reading while updates of the record fail", func() {
			for over := false; !over; n++ {
				select {
				case <-done:
					over = true
				default:
				}
				got, err := st.Read(context.Background(), q)
				if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					hutil.Fail(t, "after %d accepted rows, while rows v=5 v=7 v=many are rejected, the record reads %q %v instead of %q", ok, got, err, want)
				}
			}
		})
	}
	hutil.Covered(t, "%d reads while updates fail", n)
}
