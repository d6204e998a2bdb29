package c14

import (
	"bytes"
	"math"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zzverif/cm"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

type want struct {
	f, m string
	id   int
	num  bool
	st   []byte
}

func TestReads(t *testing.T) {
	r := hutil.Rng(t)
	reads, values := 0, 0
	for round := 0; round < hutil.Scale(3000); round++ {
		s := cm.New(r, false)
		c, err := s.Schema.Compile()
		if err != nil {
			hutil.Fail(t, "%s: %v", s, err)
		}
		mem := make([]byte, c.Size()+16)
		rec := mem[8 : 8+c.Size() : 8+c.Size()]
		s.L.Rec = cap(rec)
		where := map[int][2]int{}
		for _, m := range s.All {
			m.State = make([]byte, m.Sz)
		}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			var row collation.Row
			used := map[string]bool{}
			for j, k := 0, r.Intn(5); j < k; j++ {
				f := cm.FieldNames[r.Intn(len(cm.FieldNames))]
				if used[f] {
					continue
				}
				used[f] = true
				x := cm.Numbers[r.Intn(len(cm.Numbers))]
				row.Data = append(row.Data, collation.FV{F: []byte(f), V: []byte(x.T)})
				for _, m := range s.Fields[f] {
					if m.Kind == "cont" {
						m.Apply(m.State, "cont", cm.NumText(x.V))
					} else {
						m.Apply(m.State, "disc", x.T)
					}
				}
			}
			for _, m := range s.Row {
				m.Apply(m.State, "row", "")
			}
			if err := c.Update(row, rec, i == 0); err != nil {
				hutil.Fail(t, "%s: update with%s fails: %v", s, cm.RowString(row), err)
			}
		}
		for _, k := range s.L.Calls {
			where[k.ID] = [2]int{k.Low, k.High}
		}
		for q := 0; q < 6; q++ {
			reads++
			var fml []collation.FM
			var ws []want
			known := append([]string{"*", "nosuch"}, cm.FieldNames...)
			for i, n := 0, r.Intn(5); i < n; i++ {
				f := known[r.Intn(len(known))]
				if r.Intn(3) == 0 {
					f = "*"
				}
				fm := collation.FM{F: []byte(f)}
				for j, k := 0, r.Intn(6); j < k; j++ {
					nm := []string{"m0", "m1", "m2", "m3", "m4", "m5", "r0", "r1", "r2", "sum", "", "M0"}[r.Intn(12)]
					fm.M = append(fm.M, []byte(nm))
					if f == "*" {
						for i, m := range s.Row {
							if m.Nm == nm && s.RowOut[i] != "" {
								ws = append(ws, want{f, nm, m.ID, s.RowOut[i] == "n", m.State})
							}
						}
					}
					for _, m := range s.Fields[f] {
						if m.Nm == nm && m.Out != "" {
							ws = append(ws, want{f, nm, m.ID, m.Out == "n", m.State})
						}
					}
				}
				fml = append(fml, fm)
			}
			s.L.FailID, s.L.FailRead = -1, false
			fails := false
			if len(ws) > 0 && r.Intn(6) == 0 {
				s.L.FailID, s.L.FailRead = ws[r.Intn(len(ws))].id, true
				fails = true
			}
			before := append([]byte(nil), mem...)
			s.L.Calls = nil
			var res collation.Result
			ask := func() string { return s.String() + " query " + hutil.Trim(show(fml)) }
			hutil.NoPanic(t, ask, func() { res, err = c.Read(fml, rec) })
			if !bytes.Equal(before, mem) {
				hutil.Fail(t, "%s changes the record", ask())
			}
			if fails {
				if err != cm.ErrMeasure {
					hutil.Fail(t, "%s returns error %v where a reader failed with %v", ask(), err, cm.ErrMeasure)
				}
				continue
			}
			if err != nil {
				hutil.Fail(t, "%s returns error %v", ask(), err)
			}
			got := res.FieldMeasureValues
			if len(got) != len(ws) {
				hutil.Fail(t, "%s returns %d values instead of %d: %v", ask(), len(got), len(ws), got)
			}
			for i, w := range ws {
				values++
				g := got[i]
				if string(g.F) != w.f || string(g.M) != w.m {
					hutil.Fail(t, "%s: value %d is %s of %q instead of %s of %q", ask(), i, g.M, g.F, w.m, w.f)
				}
				if w.num {
					v, ok := g.V.(float64)
					if !ok || math.Float64bits(v) != math.Float64bits(cm.Number(w.st)) {
						hutil.Fail(t, "%s: value %d is %v, the measure's own bytes give %v", ask(), i, g.V, cm.Number(w.st))
					}
				} else {
					v, ok := g.V.([]byte)
					if !ok || !bytes.Equal(v, w.st) {
						hutil.Fail(t, "%s: value %d is %v, the measure's own bytes give %v", ask(), i, g.V, w.st)
					}
				}
			}
			for _, k := range s.L.Calls {
				if p, ok := where[k.ID]; ok && p != [2]int{k.Low, k.High} {
					hutil.Fail(t, "%s: measure %d is read from bytes %d to %d and written to bytes %v", ask(), k.ID, k.Low, k.High, p)
				}
			}
		}
	}
	hutil.Covered(t, "%d random queries, %d values", reads, values)
}

func show(fml []collation.FM) string {
	o := ""
	for _, f := range fml {
		o += " "
		for _, m := range f.M {
			o += string(m) + ","
		}
		o += "(" + string(f.F) + ")"
	}
	return o
}
