package c10

import (
	"bytes"
	"math"
	"strconv"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zzverif/cm"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

var values = []string{"0", "-0", "1", "-1", "2.5", "-2.5", "1e308", "-1e308", "Inf", "-Inf", "NaN", "5e-324", "-5e-324", "3", "-7"}

// what is observed, the extreme and whether v is past it
func extreme(t *testing.T, what string, max bool, seen []float64, v float64) {
	t.Helper()
	found, numbers := false, 0
	for _, o := range seen {
		if !math.IsNaN(o) {
			numbers++
		}
		found = found || o == v || math.IsNaN(o) && math.IsNaN(v)
		if max && o > v || !max && o < v {
			hutil.Fail(t, "%s: observations %v, reported %v", what, seen, v)
		}
	}
	if numbers > 0 && math.IsNaN(v) || len(seen) > 0 && !found {
		hutil.Fail(t, "%s: observations %v, reported %v", what, seen, v)
	}
}

func TestMeasures(t *testing.T) {
	r := hutil.Rng(t)
	n := 0
	for round := 0; round < hutil.Scale(4000); round++ {
		max := r.Intn(2) == 0
		var w collation.ContWriterFunc
		var rd collation.ContReaderFunc
		size := 0
		if max {
			w, rd, size = collation.Max{}.ContWriter(), collation.Max{}.ContReader(), collation.Max{}.Size()
		} else {
			w, rd, size = collation.Min{}.ContWriter(), collation.Min{}.ContReader(), collation.Min{}.Size()
		}
		if size != 8 {
			hutil.Fail(t, "the state of an extreme has %d bytes", size)
		}
		mem := make([]byte, 40)
		r.Read(mem)
		keep := append([]byte(nil), mem...)
		buf := mem[16 : 24+r.Intn(2)*8]
		var seen []float64
		for i, k := 0, 1+r.Intn(8); i < k; i++ {
			n++
			v, _ := strconv.ParseFloat(values[r.Intn(len(values))], 64)
			if r.Intn(3) == 0 {
				v = r.NormFloat64()
			}
			seen = append(seen, v)
			hutil.NoPanic(t, func() string { return hutil.Trim(seen) }, func() {
				if err := w(buf, i == 0, v); err != nil {
					hutil.Fail(t, "observations %v: %v", seen, err)
				}
			})
			if !bytes.Equal(mem[:16], keep[:16]) || !bytes.Equal(mem[24:], keep[24:]) {
				hutil.Fail(t, "observations %v change memory outside the 8 bytes of state", seen)
			}
			at := append([]byte(nil), mem...)
			got, err := rd(buf)
			if err != nil || !bytes.Equal(at, mem) {
				hutil.Fail(t, "observations %v: reading fails (%v) or changes the state", seen, err)
			}
			extreme(t, map[bool]string{true: "maximum", false: "minimum"}[max], max, seen, got)
		}
	}
	hutil.Covered(t, "%d observations", n)
}

// Extremes of several fields in one record, with rows that lack some of them.
func TestRecords(t *testing.T) {
	r := hutil.Rng(t)
	rows := 0
	for round := 0; round < hutil.Scale(3000); round++ {
		s := collation.Schema{Name: "x"}
		fs := []string{"a", "b", "c"}[:1+r.Intn(3)]
		kinds := map[string][]collation.Measure{}
		for _, f := range fs {
			all := []collation.Measure{collation.Max{}, collation.Min{}, collation.Sum{}, collation.Count{}, collation.Cardinality{Precision: 5}}
			r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			kinds[f] = append([]collation.Measure{collation.Max{}}, all[:r.Intn(5)]...)
			if r.Intn(2) == 0 {
				kinds[f][0] = collation.Min{}
			}
			s.Measures = append(s.Measures, collation.MeasureSpec{Field: collation.FieldSpec{Pattern: f}, Measures: kinds[f]})
		}
		c, err := s.Compile()
		if err != nil {
			hutil.Fail(t, "%v: %v", s, err)
		}
		rec := make([]byte, c.Size())
		if r.Intn(2) == 0 {
			r.Read(rec)
		}
		seen := map[string][]float64{}
		hist := ""
		for i, k := 0, 1+r.Intn(6); i < k; i++ {
			rows++
			var row collation.Row
			for _, f := range fs {
				// a field may be missing or, in a careless feed, be there twice
				for r.Intn(5) < 2 {
					tx := values[r.Intn(len(values))]
					v, _ := strconv.ParseFloat(tx, 64)
					seen[f] = append(seen[f], v)
					row.Data = append(row.Data, collation.FV{F: []byte(f), V: []byte(tx)})
				}
			}
			hist += " |" + cm.RowString(row)
			hutil.NoPanic(t, func() string { return hist }, func() { err = c.Update(row, rec, i == 0) })
			if err != nil {
				hutil.Fail(t, "rows%s: %v", hist, err)
			}
			for _, f := range fs {
				for _, m := range kinds[f] {
					if m.Name() != "max" && m.Name() != "min" || len(seen[f]) == 0 {
						continue
					}
					before := append([]byte(nil), rec...)
					res, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m.Name())}}}, rec)
					if err != nil || len(res.FieldMeasureValues) != 1 || !bytes.Equal(before, rec) {
						hutil.Fail(t, "rows%s: reading %s of %s: %v %v", hist, m.Name(), f, res, err)
					}
					v, _ := res.FieldMeasureValues[0].V.(float64)
					extreme(t, "rows"+hist+": "+m.Name()+" of "+f, m.Name() == "max", seen[f], v)
				}
			}
		}
	}
	hutil.Covered(t, "%d rows of up to three fields", rows)
}
