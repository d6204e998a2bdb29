//verif:dir internal/server
package server

import (
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/cm"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

type backend24 struct {
	id   int
	log  *[]string
	recs map[uint64][]byte
}

func (b *backend24) Get(k uint64, buf []byte) bool {
	*b.log = append(*b.log, fmt.Sprintf("store %d read at %x", b.id, k))
	rec, ok := b.recs[k]
	copy(buf, rec)
	return ok
}

func (b *backend24) Update(k uint64, fn func(data []byte, init bool) error) error {
	*b.log = append(*b.log, fmt.Sprintf("store %d modified", b.id))
	return nil
}

func TestQueries(t *testing.T) {
	log.SetOutput(io.Discard)
	r := hutil.Rng(t)
	names := []string{"a", "b", "a b", "A", "aa", "é", "x.y", "a%", "collation", "obs", "+", "c?d"}
	answered, refused, values := 0, 0, 0
	for round := 0; round < hutil.Scale(6000); round++ {
		var got []string
		s := New()
		s.Logger = log.New(io.Discard, "", 0)
		var specs []*cm.Spec
		long := 1
		if r.Intn(25) == 0 {
			long = 8
		}
		for i, n := 0, r.Intn(4*long); i < n; i++ {
			sp := cm.New(r, true)
			sp.Schema.Name = names[r.Intn(len(names))]
			if r.Intn(2) == 0 {
				sp.Schema.Name = names[r.Intn(2)]
			}
			sp.Schema.Keys = nil
			for _, k := range []string{"k", "z"} {
				if r.Intn(2) == 0 {
					sp.Schema.Keys = append(sp.Schema.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: k}})
				}
			}
			c, err := sp.Schema.Compile()
			if err != nil {
				hutil.Fail(t, "%s: %v", sp, err)
			}
			specs = append(specs, sp)
			b := &backend24{id: i, log: &got, recs: map[uint64][]byte{}}
			s.Stores = append(s.Stores, storage.Store{Backend: b, Collator: c})
		}
		// the query
		type pair struct{ f, v string }
		var cr []pair
		for i, n := 0, 1+r.Intn(3*long); i < n; i++ {
			cr = append(cr, pair{[]string{"k", "z", "w"}[r.Intn(3)], []string{"1", "x y", "a=b", "é", "%41", "<&>"}[r.Intn(6)]})
		}
		text := "select "
		fields := []string{"a", "b", "ab", "price", "sum", "*x", "*"}
		for i, n := 0, 1+r.Intn(5*long); i < n; i++ {
			if i > 0 {
				text += ", "
			}
			if len(specs) > 0 && r.Intn(4) > 0 {
				// one that a store has
				sp := specs[r.Intn(len(specs))]
				if len(sp.Schema.Measures) > 0 {
					ms := sp.Schema.Measures[r.Intn(len(sp.Schema.Measures))]
					if f := ms.Field.Pattern; len(ms.Measures) > 0 && f != "" && !strings.ContainsAny(f, " \xff\x00") {
						text += ms.Measures[r.Intn(len(ms.Measures))].Name() + "(" + f + ")"
						continue
					}
				}
			}
			text += []string{"m0", "m1", "m2", "r0", "r1", "count", "sum", "mean", "max", "cardinality"}[r.Intn(10)] + "(" + fields[r.Intn(len(fields))] + ")"
		}
		text += " where "
		var crit collation.FVList
		for i, c := range cr {
			if i > 0 {
				text += " and "
			}
			text += c.f + "='" + c.v + "'"
			crit = append(crit, collation.FV{F: []byte(c.f), V: []byte(c.v)})
		}
		status := 0
		if r.Intn(8) == 0 {
			text = []string{"", "select", "select sum(a)", "where k='1'", "selectsum(a) where k='1'", "select sum(a) where", "choose sum(a) where k='1'"}[r.Intn(7)]
			status = 400
		}
		text400 := status == 400
		// records for what it asks
		for i, st := range s.Stores {
			if k, ok := crit.KeyValue(st.Collator.Keys()); ok && r.Intn(4) > 0 {
				rec := make([]byte, st.Collator.Size())
				r.Read(rec)
				if r.Intn(2) == 0 {
					// a record as rows leave it
					st.Collator.Update(collation.Row{}, rec, true)
				}
				st.Backend.(*backend24).recs[k] = rec
			}
			if len(specs[i].All) > 0 && r.Intn(4) == 0 {
				specs[i].L.FailRead, specs[i].L.FailID = true, specs[i].All[r.Intn(len(specs[i].All))].ID
			}
		}
		name := names[r.Intn(len(names))]
		if r.Intn(3) == 0 {
			name = names[r.Intn(2)]
		}
		if len(specs) > 0 && r.Intn(3) > 0 {
			name = specs[r.Intn(len(specs))].Schema.Name
		}
		first := -1
		for i := range specs {
			if specs[i].Schema.Name == name {
				first = i
				break
			}
		}
		form := url.Values{"q": {text}}.Encode()
		target := "/collation/" + url.PathEscape(name)
		method := "GET"
		var req *http.Request
		switch r.Intn(8) {
		case 0:
			method = []string{"PUT", "DELETE", "PATCH"}[r.Intn(3)]
			req = httptest.NewRequest(method, target+"?"+form, nil)
			status = 405
		case 1, 2, 3:
			method = "POST"
			req = httptest.NewRequest(method, target, strings.NewReader(form))
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		default:
			req = httptest.NewRequest(method, target+"?"+form, nil)
		}
		what := fmt.Sprintf("%s of collation %q, query %q, stores", method, name, text)
		for _, sp := range specs {
			what += fmt.Sprintf(" {%s}", sp)
		}
		var reads []string
		want := ""
		if status == 0 && first < 0 {
			status = 404
		}
		if status == 0 {
			status = 200
			st := s.Stores[first]
			q, err := query.RoughParse(text)
			if err != nil {
				hutil.Fail(t, "query %q: %v", text, err)
			}
			for _, c := range cr {
				want += c.f + "=" + c.v + "\n"
			}
			if k, ok := crit.KeyValue(st.Collator.Keys()); ok {
				reads = append(reads, fmt.Sprintf("store %d read at %x", first, k))
				if rec, ok := st.Backend.(*backend24).recs[k]; ok {
					res, err := st.Collator.Read(q.FieldMeasures, append([]byte{}, rec...))
					if err != nil {
						status = 500
					}
					for _, f := range res.FieldMeasureValues {
						want += fmt.Sprintf("%s(%s)=%v\n", f.M, f.F, f.V)
						values++
					}
				}
			}
		}
		w := httptest.NewRecorder()
		hutil.NoPanic(t, func() string { return what }, func() {
			if err := s.registerHandlers(); err != nil {
				panic(err)
			}
			s.ServeHTTP(w, req)
		})
		if text400 && first < 0 && w.Code == 404 && len(got) == 0 {
			continue // both are wrong
		}
		hutil.Case(t, what, len(specs) > 1 && len(cr) > 0)
		if w.Code != status && (status != 405 || w.Code < 400) {
			hutil.Fail(t, "%s: status %d instead of %d", what, w.Code, status)
		}
		if fmt.Sprint(got) != fmt.Sprint(reads) {
			hutil.Fail(t, "%s: stores used: %q instead of %q", what, got, reads)
		}
		if status == 200 {
			answered++
			if w.Body.String() != want {
				hutil.Fail(t, "%s: answer %q instead of %q", what, w.Body.String(), want)
			}
		} else {
			refused++
		}
	}
	hutil.Covered(t, "%d queries answered with %d values, %d refused", answered, values, refused)
}
