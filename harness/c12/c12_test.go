package c12

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/cm"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

func compile(t *testing.T, s *collation.Schema, what string) collation.Collator {
	c, err := s.Compile()
	if err != nil {
		hutil.Fail(t, "%s does not compile: %v", what, err)
	}
	if c.Name() != s.Name {
		hutil.Fail(t, "%s: collation is called %q", what, c.Name())
	}
	ks := c.Keys()
	ok := len(ks) == len(s.Keys)
	for i := 0; ok && i < len(ks); i++ {
		ok = string(ks[i]) == s.Keys[i].Field.Pattern
	}
	if !ok {
		hutil.Fail(t, "%s: keys are %q", what, ks)
	}
	return c
}

// Every recording measure is given one part of the record of its own, the same for writing and reading.
func TestLayout(t *testing.T) {
	r := hutil.Rng(t)
	parts := 0
	for round := 0; round < hutil.Scale(4000); round++ {
		s := cm.New(r, r.Intn(2) == 0)
		hutil.Case(t, s.String(), len(s.All) > 1)
		hutil.NoPanic(t, s.String, func() {
			c := compile(t, &s.Schema, s.String())
			rec := make([]byte, c.Size(), c.Size())
			s.L.Rec = cap(rec)
			var row collation.Row
			for _, f := range cm.FieldNames {
				row.Data = append(row.Data, collation.FV{F: []byte(f), V: []byte("1")})
			}
			for i := 0; i < 2; i++ {
				if err := c.Update(row, rec, i == 0); err != nil {
					hutil.Fail(t, "%s: update fails: %v", s, err)
				}
			}
			q := []collation.FM{}
			add := func(f string, ns ...[]byte) { q = append(q, collation.FM{F: []byte(f), M: ns}) }
			for i := range s.Row {
				add(collation.RowPseudoField, []byte(s.Row[i].Nm))
			}
			for f, ms := range s.Fields {
				for _, m := range ms {
					add(f, []byte(m.Nm))
				}
			}
			if _, err := c.Read(q, rec); err != nil {
				hutil.Fail(t, "%s: read fails: %v", s, err)
			}
			where := map[int][2]int{}
			wrote := map[int]int{}
			for _, k := range s.L.Calls {
				var m *cm.M
				for _, x := range s.All {
					if x.ID == k.ID {
						m = x
					}
				}
				if k.Op != "creader" && k.Op != "dreader" {
					wrote[k.ID]++
				}
				if k.Low < 0 || k.High > c.Size() {
					hutil.Fail(t, "%s: measure %s is given bytes %d to %d of a record of %d", s, m.Nm, k.Low, k.High, c.Size())
				}
				if k.High-k.Low < m.Sz {
					hutil.Fail(t, "%s: measure %s of %d bytes is given bytes %d to %d", s, m.Nm, m.Sz, k.Low, k.High)
				}
				if w, ok := where[k.ID]; ok && w != [2]int{k.Low, k.High} {
					hutil.Fail(t, "%s: measure %s is given bytes %d to %d and bytes %d to %d", s, m.Nm, w[0], w[1], k.Low, k.High)
				}
				where[k.ID] = [2]int{k.Low, k.High}
			}
			for _, m := range s.All {
				if wrote[m.ID] != 2 {
					hutil.Fail(t, "%s: measure %s (number %d) was written %d times by 2 rows", s, m.Nm, m.ID, wrote[m.ID])
				}
				w := where[m.ID]
				parts++
				for id, v := range where {
					if id != m.ID && w[0] < v[1] && v[0] < w[1] {
						hutil.Fail(t, "%s: measure %d has bytes %d to %d and measure %d bytes %d to %d", s, m.ID, w[0], w[1], id, v[0], v[1])
					}
				}
			}
		})
	}
	hutil.Covered(t, "%d measures placed in random schemas", parts)
}

type fieldModel struct {
	vals []float64
	raw  [][]byte
}

// The built-in measures in random company each report what their own observations give.
func TestBuiltins(t *testing.T) {
	r := hutil.Rng(t)
	n := 0
	for round := 0; round < hutil.Scale(1500); round++ {
		s := builtin(r)
		c := compile(t, s, hutil.Trim(*s))
		hutil.Case(t, fmt.Sprintf("%+v", *s), len(s.Measures)+len(s.RecordMeasures) > 0)
		hutil.NoPanic(t, func() string { return hutil.Trim(*s) }, func() {
			rec := make([]byte, c.Size())
			model := map[string]*fieldModel{}
			rows := 1 + r.Intn(12)
			for i := 0; i < rows; i++ {
				var row collation.Row
				for _, ms := range s.Measures {
					f := ms.Field.Pattern
					if r.Intn(4) == 0 {
						continue
					}
					dup := false
					for _, fv := range row.Data {
						dup = dup || string(fv.F) == f
					}
					if dup {
						continue
					}
					v := float64(r.Intn(2000)-1000) / 8
					txt := []byte(strconv.FormatFloat(v, 'g', -1, 64))
					row.Data = append(row.Data, collation.FV{F: []byte(f), V: txt})
					if model[f] == nil {
						model[f] = &fieldModel{}
					}
					model[f].vals = append(model[f].vals, v)
					model[f].raw = append(model[f].raw, txt)
				}
				if err := c.Update(row, rec, i == 0); err != nil {
					hutil.Fail(t, "%s: update with%s fails: %v", hutil.Trim(*s), cm.RowString(row), err)
				}
			}
			for _, m := range s.RecordMeasures {
				_ = m
				check(t, c, rec, s, collation.RowPseudoField, "count", float64(rows), true)
			}
			for _, ms := range s.Measures {
				fm := model[ms.Field.Pattern]
				if fm == nil {
					fm = &fieldModel{}
				}
				for _, m := range ms.Measures {
					n++
					switch m := m.(type) {
					case collation.Count:
						check(t, c, rec, s, ms.Field.Pattern, "count", float64(len(fm.vals)), true)
					case collation.Sum, collation.Mean, collation.Variance:
						var k, sum, mean, ss float64
						for _, v := range fm.vals {
							k++
							sum += v
							d := v - mean
							mean += d / k
							ss += d * (v - mean)
						}
						switch m.Name() {
						case "sum":
							check(t, c, rec, s, ms.Field.Pattern, "sum", sum, true)
						case "mean":
							check(t, c, rec, s, ms.Field.Pattern, "mean", mean, k > 0)
						default:
							check(t, c, rec, s, ms.Field.Pattern, m.Name(), ss/(k-1), k > 1)
						}
					case collation.Max, collation.Min:
						if len(fm.vals) == 0 {
							continue
						}
						x := fm.vals[0]
						for _, v := range fm.vals {
							if m.Name() == "max" && v > x || m.Name() == "min" && v < x {
								x = v
							}
						}
						check(t, c, rec, s, ms.Field.Pattern, m.Name(), x, true)
					case collation.Cardinality:
						h := hll.New(uint8(m.Precision))
						for _, b := range fm.raw {
							h.Add(b)
						}
						check(t, c, rec, s, ms.Field.Pattern, m.Name(), float64(h.Count()), true)
					}
				}
			}
		})
	}
	hutil.Covered(t, "%d built-in measures in random schemas", n)
}

func check(t *testing.T, c collation.Collator, rec []byte, s *collation.Schema, f, m string, want float64, is bool) {
	t.Helper()
	before := append([]byte(nil), rec...)
	res, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, rec)
	if err != nil || len(res.FieldMeasureValues) != 1 {
		hutil.Fail(t, "%s: reading %s of %q gives %v, error %v", hutil.Trim(*s), m, f, res, err)
	}
	if !bytes.Equal(before, rec) {
		hutil.Fail(t, "%s: reading %s of %q changes the record", hutil.Trim(*s), m, f)
	}
	v, _ := res.FieldMeasureValues[0].V.(float64)
	if is && math.Float64bits(v) != math.Float64bits(want) && v != want {
		hutil.Fail(t, "%s: %s of field %q reads %v, its observations give %v", hutil.Trim(*s), m, f, v, want)
	}
}

func builtin(r *rand.Rand) *collation.Schema {
	s := &collation.Schema{Name: "b"}
	if r.Intn(2) == 0 {
		s.RecordMeasures = append(s.RecordMeasures, collation.Count{})
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		ms := collation.MeasureSpec{Field: collation.FieldSpec{Pattern: string('a' + rune(i))}}
		all := []collation.Measure{collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Max{}, collation.Min{}, collation.Cardinality{Precision: 4 + r.Intn(8)}}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		ms.Measures = all[:r.Intn(8)]
		s.Measures = append(s.Measures, ms)
	}
	return s
}

// The summary shared by count, sum, mean and variance is written once per observation and kept apart from the rest.
func TestSharedSummary(t *testing.T) {
	r := hutil.Rng(t)
	for round := 0; round < hutil.Scale(300); round++ {
		l := &cm.Log{FailID: -1}
		all := []collation.Measure{collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:1+r.Intn(4)]
		var ms []collation.Measure
		var spies []*cm.M
		for i := range all {
			if r.Intn(2) == 0 {
				m := &cm.M{L: l, ID: 1 + len(spies), Nm: "s" + strconv.Itoa(i), Sz: r.Intn(20)}
				spies = append(spies, m)
				ms = append(ms, cm.ContN{Cont: cm.Cont{M: m}})
			}
			ms = append(ms, all[i])
		}
		m := &cm.M{L: l, ID: 1 + len(spies), Nm: "last", Sz: 5}
		spies = append(spies, m)
		ms = append(ms, cm.ContN{Cont: cm.Cont{M: m}})
		s := &collation.Schema{Name: "x", Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "f"}, Measures: ms}}}
		c := compile(t, s, hutil.Trim(*s))
		rec := make([]byte, c.Size())
		l.Rec = cap(rec)
		sum := 0.0
		hutil.NoPanic(t, func() string { return hutil.Trim(*s) }, func() {
			for i := 0; i < 5; i++ {
				sum += float64(i + 2)
				if err := c.Update(collation.Row{Data: collation.FVList{{F: []byte("f"), V: []byte(strconv.Itoa(i + 2))}}}, rec, i == 0); err != nil {
					hutil.Fail(t, "%s: update fails: %v", hutil.Trim(*s), err)
				}
			}
			for _, b := range all {
				w := map[string]float64{"count": 5, "sum": sum, "mean": sum / 5, "var": 2.5}[b.Name()]
				check(t, c, rec, s, "f", b.Name(), w, true)
			}
		})
		for i := range rec {
			rec[i] = 0
		}
	}
	hutil.Covered(t, "shared summaries among recording measures")
}
