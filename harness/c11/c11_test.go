package c11

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

func state(t *testing.T, p int, vs [][]byte) ([]byte, float64) {
	h := hll.New(uint8(p))
	for _, v := range vs {
		h.Add(v)
	}
	var b bytes.Buffer
	if _, err := h.WriteTo(&b); err != nil {
		hutil.Fail(t, "writing a counter fails: %v", err)
	}
	return b.Bytes(), float64(h.Count())
}

func item(r interface{ Intn(int) int }, wide bool) []byte {
	if wide {
		return []byte(fmt.Sprintf("item-%d", r.Intn(100000)))
	}
	return []byte([]string{"", "a", "b", "1", "2", "\x00", "\xff\xfe", "alpha", "beta"}[r.Intn(9)])
}

func TestMeasure(t *testing.T) {
	r := hutil.Rng(t)
	n := 0
	for round := 0; round < hutil.Scale(600); round++ {
		p := 4 + r.Intn(8)
		if round%40 == 0 {
			p = 4 + r.Intn(15)
		}
		c := collation.Cardinality{Precision: p}
		want, _ := state(t, p, nil)
		if c.Size() != len(want) {
			hutil.Fail(t, "the size of a unique count of precision %d is %d, its counter has %d bytes", p, c.Size(), len(want))
		}
		mem := make([]byte, c.Size()+32)
		r.Read(mem)
		keep := append([]byte(nil), mem...)
		buf := mem[16 : 16+c.Size() : 16+c.Size()]
		w, rd := c.DiscWriter(), c.ContReader()
		var vs [][]byte
		for i, k := 0, 1+r.Intn(30); i < k; i++ {
			n++
			v := item(r, round%2 == 0)
			in := append([]byte(nil), v...)
			vs = append(vs, in)
			hutil.NoPanic(t, func() string { return fmt.Sprintf("precision %d items %q", p, vs) }, func() {
				if err := w(buf, i == 0, v); err != nil {
					hutil.Fail(t, "precision %d items %s: %v", p, hutil.Trim(vs), err)
				}
			})
			if !bytes.Equal(v, in) {
				hutil.Fail(t, "precision %d: adding %q changes the value given", p, in)
			}
			if !bytes.Equal(mem[:16], keep[:16]) || !bytes.Equal(mem[16+c.Size():], keep[16+c.Size():]) {
				hutil.Fail(t, "precision %d items %q change memory outside the measure's part", p, vs)
			}
			want, est := state(t, p, vs)
			if !bytes.Equal(want, buf) {
				hutil.Fail(t, "precision %d items %s: the state differs from that of a counter fed the same", p, hutil.Trim(vs))
			}
			got, err := rd(buf)
			if err != nil || got != est {
				hutil.Fail(t, "precision %d items %s: reported %v (%v), the counter estimates %v", p, hutil.Trim(vs), got, err, est)
			}
		}
	}
	hutil.Covered(t, "%d items added to unique counts", n)
}

func TestRecords(t *testing.T) {
	r := hutil.Rng(t)
	rows := 0
	for round := 0; round < hutil.Scale(800); round++ {
		s := collation.Schema{Name: "x"}
		fs := []string{"a", "b", "c"}[:1+r.Intn(3)]
		prec := map[string]int{}
		if r.Intn(2) == 0 {
			s.RecordMeasures = append(s.RecordMeasures, collation.Count{})
		}
		for _, f := range fs {
			prec[f] = 4 + r.Intn(6)
			ms := []collation.Measure{collation.Cardinality{Precision: prec[f]}}
			if r.Intn(3) == 0 {
				ms = append(ms, collation.Max{})
			}
			if r.Intn(3) == 0 {
				ms = append([]collation.Measure{collation.Mean{}}, ms...)
			}
			s.Measures = append(s.Measures, collation.MeasureSpec{Field: collation.FieldSpec{Pattern: f}, Measures: ms})
		}
		c, err := s.Compile()
		if err != nil {
			hutil.Fail(t, "%v: %v", s, err)
		}
		rec := make([]byte, c.Size())
		vals := map[string][][]byte{}
		hist := ""
		for i, k := 0, 1+r.Intn(8); i < k; i++ {
			rows++
			var row collation.Row
			for _, f := range fs {
				if r.Intn(5) < 3 {
					v := []byte(fmt.Sprint(r.Intn(12)))
					vals[f] = append(vals[f], v)
					row.Data = append(row.Data, collation.FV{F: []byte(f), V: v})
					hist += fmt.Sprintf(" %s=%s", f, v)
				}
			}
			hist += ";"
			hutil.NoPanic(t, func() string { return hist }, func() { err = c.Update(row, rec, i == 0) })
			if err != nil {
				hutil.Fail(t, "precisions %v rows%s %v", prec, hist, err)
			}
			for _, f := range fs {
				st, est := state(t, prec[f], vals[f])
				res, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(collation.Cardinality{}.Name())}}}, rec)
				if err != nil || len(res.FieldMeasureValues) != 1 || res.FieldMeasureValues[0].V != est {
					hutil.Fail(t, "precisions %v rows%s unique count of %s is %v (%v), a counter fed the same estimates %v", prec, hist, f, res.FieldMeasureValues, err, est)
				}
				if !bytes.Contains(rec, st) {
					hutil.Fail(t, "precisions %v rows%s the record does not hold the state of a counter fed the values of %s", prec, hist, f)
				}
			}
		}
	}
	hutil.Covered(t, "%d rows of up to three fields", rows)
}
