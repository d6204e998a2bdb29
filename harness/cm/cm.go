// Package cm provides measures that record how they are called, and schemas and rows to use them with.
package cm

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"strconv"

	"github.com/iand/starbow/internal/collation"
)

// Call is one call of a measure function.
type Call struct {
	ID    int    // the measure
	Op    string // row, cont, disc, creader, dreader
	Low   int    // part of the record the function was given
	High  int
	Init  bool
	Num   float64
	Text  string
	Field string
}

// Log collects calls. Rec is the capacity of the record in use, from which positions are found.
type Log struct {
	Rec   int
	Calls []Call
	// Fail makes the writer of measure FailID fail after FailAfter further calls, having scribbled on its part
	FailID    int
	FailAfter int
	FailRead  bool
	Next      int
}

var ErrMeasure = errors.New("cm: measure fails")

// M is a measure with its own model of its state.
type M struct {
	L     *Log
	ID    int
	Nm    string
	Sz    int
	State []byte // what its part of the record should hold
}

func (m *M) Size() int    { return m.Sz }
func (m *M) Name() string { return m.Nm }

func mix(b []byte, what string) {
	h := fnv.New64a()
	h.Write(b)
	h.Write([]byte(what))
	s := h.Sum64()
	for i := range b {
		s = s*6364136223846793005 + 1442695040888963407
		b[i] = byte(s >> 33)
	}
}

func (m *M) call(op string, buf []byte, init bool, num float64, text string) error {
	low := m.L.Rec - cap(buf)
	m.L.Calls = append(m.L.Calls, Call{ID: m.ID, Op: op, Low: low, High: low + len(buf), Init: init, Num: num, Text: text})
	if op == "creader" || op == "dreader" {
		if m.L.FailRead && m.L.FailID == m.ID {
			return ErrMeasure
		}
		return nil
	}
	if m.L.FailID == m.ID && !m.L.FailRead {
		if m.L.FailAfter == 0 {
			for i := range buf {
				buf[i] ^= 0xa5
			}
			return ErrMeasure
		}
		m.L.FailAfter--
	}
	mix(buf, op+text)
	return nil
}

// Apply does to b what the writer does to a record.
func (m *M) Apply(b []byte, op, text string) { mix(b, op+text) }

// Number is what the numeric reader reports for a state.
func Number(b []byte) float64 {
	h := fnv.New64a()
	h.Write(b)
	switch x := h.Sum64(); x % 32 {
	case 0:
		return negZero()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return math.NaN()
	case 4:
		return 0
	default:
		return float64(x >> 12)
	}
}

func NumText(v float64) string { return strconv.FormatUint(bits(v), 16) }

type Row struct{ *M }

func (m Row) RowWriter() collation.RowWriterFunc {
	return func(buf []byte, init bool) error { return m.call("row", buf, init, 0, "") }
}

type RowN struct{ Row }

func (m RowN) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) { return Number(buf), m.call("creader", buf, false, 0, "") }
}

type RowD struct{ Row }

func (m RowD) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		return append([]byte(nil), buf...), m.call("dreader", buf, false, 0, "")
	}
}

type Cont struct{ *M }

func (m Cont) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error { return m.call("cont", buf, init, v, NumText(v)) }
}

type ContN struct{ Cont }

func (m ContN) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) { return Number(buf), m.call("creader", buf, false, 0, "") }
}

type ContD struct{ Cont }

func (m ContD) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		return append([]byte(nil), buf...), m.call("dreader", buf, false, 0, "")
	}
}

type Disc struct{ *M }

func (m Disc) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error { return m.call("disc", buf, init, 0, string(v)) }
}

type DiscN struct{ Disc }

func (m DiscN) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) { return Number(buf), m.call("creader", buf, false, 0, "") }
}

type DiscD struct{ Disc }

func (m DiscD) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		return append([]byte(nil), buf...), m.call("dreader", buf, false, 0, "")
	}
}


// Spec is a schema with what is known of it.
type Spec struct {
	Schema collation.Schema
	L      *Log
	Row    []*M
	RowOut []string            // "", "n", "d"
	Fields map[string][]*Field // measures of each field, in order
	All    []*M
}

// Field is a recording measure of a field.
type Field struct {
	*M
	Kind string // cont, disc
	Out  string // "", n, d
}

var FieldNames = []string{"a", "b", "ab", "", "price", "a b", "\xff\x00", "sum", "*x"}

// New makes a random schema of recording measures; with builtin it adds the standard ones as well.
func New(r *rand.Rand, builtin bool) *Spec {
	s := &Spec{L: &Log{FailID: -1}, Fields: map[string][]*Field{}}
	mk := func(nm string) *M {
		s.L.Next++
		m := &M{L: s.L, ID: s.L.Next, Nm: nm, Sz: []int{0, 1, 2, 3, 7, 8, 9, 16, 33}[r.Intn(9)]}
		s.All = append(s.All, m)
		return m
	}
	s.Schema.Name = fmt.Sprintf("coll%d", r.Intn(100))
	for i, n := 0, r.Intn(4); i < n; i++ {
		s.Schema.Keys = append(s.Schema.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: []string{"z", "k", "a", "kk", ""}[r.Intn(5)]}})
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		m := mk(fmt.Sprintf("r%d", i))
		out := []string{"", "n", "d"}[r.Intn(3)]
		var rm collation.RowMeasure = Row{m}
		switch out {
		case "n":
			rm = RowN{Row{m}}
		case "d":
			rm = RowD{Row{m}}
		}
		if builtin && r.Intn(4) == 0 {
			s.Schema.RecordMeasures = append(s.Schema.RecordMeasures, collation.Count{})
		}
		s.Schema.RecordMeasures = append(s.Schema.RecordMeasures, rm)
		s.Row = append(s.Row, m)
		s.RowOut = append(s.RowOut, out)
	}
	names := append([]string(nil), FieldNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i, n := 0, r.Intn(5); i < n; i++ {
		ms := collation.MeasureSpec{Field: collation.FieldSpec{Pattern: names[i]}}
		for j, k := 0, r.Intn(6); j < k; j++ {
			if builtin && r.Intn(2) == 0 {
				ms.Measures = append(ms.Measures, []collation.Measure{collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{},
					collation.Max{}, collation.Min{}, collation.Cardinality{Precision: 4 + r.Intn(3)}}[r.Intn(7)])
				continue
			}
			m := mk(fmt.Sprintf("m%d", j))
			f := &Field{M: m, Kind: []string{"cont", "disc"}[r.Intn(2)], Out: []string{"", "n", "d"}[r.Intn(3)]}
			var x collation.Measure
			switch f.Kind + f.Out {
			case "cont":
				x = Cont{m}
			case "contn":
				x = ContN{Cont{m}}
			case "contd":
				x = ContD{Cont{m}}
			case "disc":
				x = Disc{m}
			case "discn":
				x = DiscN{Disc{m}}
			case "discd":
				x = DiscD{Disc{m}}
			}
			ms.Measures = append(ms.Measures, x)
			s.Fields[names[i]] = append(s.Fields[names[i]], f)
		}
		s.Schema.Measures = append(s.Schema.Measures, ms)
	}
	return s
}

// HasNum reports whether the field has numeric measures.
func (s *Spec) HasNum(f string) bool {
	for _, ms := range s.Schema.Measures {
		if ms.Field.Pattern != f {
			continue
		}
		for _, m := range ms.Measures {
			if _, ok := m.(collation.ContinuousInput); ok {
				return true
			}
		}
	}
	return false
}

// Numbers in the forms a row may carry, with what they denote.
var Numbers = []struct {
	T string
	V float64
}{{"0", 0}, {"-0", negZero()}, {"1", 1}, {"-3.25", -3.25}, {"1e3", 1000}, {"+7", 7}, {"0.1", 0.1}, {".5", 0.5}, {"9007199254740993", 9007199254740992},
	{"1e308", 1e308}, {"4.9e-324", 5e-324}, {"123456789.125", 123456789.125}, {"1E-2", 0.01}, {"18446744073709551615", 18446744073709551615}, {"00012", 12}}

var NotNumbers = []string{"", "x", "1,5", "--1", "1 ", " 1", "1e", "0x", "one", "12abc", "\x00", "1.2.3"}

func (s *Spec) String() string {
	o := fmt.Sprintf("schema %q keys %v record measures", s.Schema.Name, s.Schema.Keys)
	for _, m := range s.Schema.RecordMeasures {
		o += fmt.Sprintf(" %s[%d]", m.Name(), m.Size())
	}
	for _, ms := range s.Schema.Measures {
		o += fmt.Sprintf("; field %q", ms.Field.Pattern)
		for _, m := range ms.Measures {
			o += fmt.Sprintf(" %T:%s[%d]", m, m.Name(), m.Size())
		}
	}
	return o
}

// RowString shows a row.
func RowString(r collation.Row) string {
	o := ""
	for _, fv := range r.Data {
		o += fmt.Sprintf(" %q=%q", fv.F, fv.V)
	}
	return o
}
