package c13

import (
	"bytes"
	"math"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zzverif/cm"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

func TestRows(t *testing.T) {
	r := hutil.Rng(t)
	rows := 0
	for round := 0; round < hutil.Scale(4000); round++ {
		s := cm.New(r, false)
		c, err := s.Schema.Compile()
		if err != nil {
			hutil.Fail(t, "%s: %v", s, err)
		}
		// the record lies inside a larger piece of memory
		mem := make([]byte, c.Size()+20)
		r.Read(mem)
		rec := mem[10 : 10+c.Size() : 10+c.Size()]
		s.L.Rec = cap(rec)
		where := map[int][2]int{}
		for i, n := 0, 1+r.Intn(5); i < n; i++ {
			rows++
			var row collation.Row
			bad := false
			used := map[string]bool{}
			nums := map[string]float64{}
			for j, k := 0, r.Intn(5); j < k; j++ {
				f := cm.FieldNames[r.Intn(len(cm.FieldNames))]
				if used[f] {
					continue
				}
				used[f] = true
				var v string
				if r.Intn(25) == 0 || !s.HasNum(f) && r.Intn(3) == 0 {
					v = cm.NotNumbers[r.Intn(len(cm.NotNumbers))]
					bad = bad || s.HasNum(f)
				} else {
					x := cm.Numbers[r.Intn(len(cm.Numbers))]
					v, nums[f] = x.T, x.V
				}
				row.Data = append(row.Data, collation.FV{F: []byte(f), V: []byte(v)})
			}
			// what must be called: measure, value
			type call struct {
				op, text string
				num      float64
			}
			want := map[int]call{}
			for _, m := range s.Row {
				want[m.ID] = call{op: "row"}
			}
			fieldOf := map[int]int{}
			for j, fv := range row.Data {
				for _, f := range s.Fields[string(fv.F)] {
					fieldOf[f.ID] = j
					if f.Kind == "cont" {
						want[f.ID] = call{"cont", "", nums[string(fv.F)]}
					} else {
						want[f.ID] = call{"disc", string(fv.V), 0}
					}
				}
			}
			s.L.FailID = -1
			fails := false
			if !bad && len(s.All) > 0 && r.Intn(12) == 0 {
				s.L.FailID, s.L.FailAfter = s.All[r.Intn(len(s.All))].ID, 0
				_, fails = want[s.L.FailID]
			}
			before := append([]byte(nil), mem...)
			s.L.Calls = nil
			hutil.NoPanic(t, func() string { return s.String() + cm.RowString(row) }, func() { err = c.Update(row, rec, i == 0) })
			if (err != nil) != (bad || fails) {
				hutil.Fail(t, "%s: update with%s (not a number %v, failing measure %v) returns %v", s, cm.RowString(row), bad, fails, err)
			}
			got := map[int]int{}
			last := -1
			for _, k := range s.L.Calls {
				w, ok := want[k.ID]
				got[k.ID]++
				if !ok {
					hutil.Fail(t, "%s: update with%s runs measure %d, which it does not concern", s, cm.RowString(row), k.ID)
				}
				tx := ""
				if k.Op == "disc" {
					tx = k.Text
				}
				if k.Op != w.op || tx != w.text || math.Float64bits(k.Num) != math.Float64bits(w.num) {
					hutil.Fail(t, "%s: update with%s runs measure %d with %s %v %q instead of %s %v %q", s, cm.RowString(row), k.ID, k.Op, k.Num, tx, w.op, w.num, w.text)
				}
				if j, ok := fieldOf[k.ID]; ok {
					if j < last {
						hutil.Fail(t, "%s: update with%s handles field %d after field %d", s, cm.RowString(row), j, last)
					}
					last = j
				}
				if p, ok := where[k.ID]; ok && p != [2]int{k.Low, k.High} {
					hutil.Fail(t, "%s: measure %d is given bytes %d to %d after bytes %v", s, k.ID, k.Low, k.High, p)
				}
				where[k.ID] = [2]int{k.Low, k.High}
			}
			if !bytes.Equal(before[:10], mem[:10]) || !bytes.Equal(before[10+c.Size():], mem[10+c.Size():]) {
				hutil.Fail(t, "%s: update with%s changes memory outside the record", s, cm.RowString(row))
			}
			if err != nil {
				break
			}
			for id := range want {
				if got[id] != 1 {
					hutil.Fail(t, "%s: update with%s runs measure %d %d times", s, cm.RowString(row), id, got[id])
				}
			}
			// nothing but the parts of the measures that ran changes
			if i > 0 {
				for k := range rec {
					if rec[k] != before[10+k] {
						in := false
						for id := range want {
							in = in || where[id][0] <= k && k < where[id][1]
						}
						if !in {
							hutil.Fail(t, "%s: update with%s changes byte %d of the record, which no measure it runs owns", s, cm.RowString(row), k)
						}
					}
				}
			}
			// every measure's state is what its own history gives
			for _, m := range s.All {
				if i == 0 {
					m.State = make([]byte, m.Sz)
				}
				if w, ok := want[m.ID]; ok {
					tx := w.text
					if w.op == "cont" {
						tx = cm.NumText(w.num)
					}
					m.Apply(m.State, w.op, tx)
				}
				if p, ok := where[m.ID]; ok && p[1]-p[0] == m.Sz && !bytes.Equal(rec[p[0]:p[1]], m.State) {
					hutil.Fail(t, "%s: after update with%s measure %d holds %x, its observations give %x", s, cm.RowString(row), m.ID, rec[p[0]:p[1]], m.State)
				}
			}
		}
	}
	hutil.Covered(t, "%d rows applied to random collations of recording measures", rows)
}
