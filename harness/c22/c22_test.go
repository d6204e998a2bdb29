//verif:dir internal/server
package server

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// text22 is a measure that appends each value it is given to a log.
type text22 struct{ b *backend22 }

func (m text22) Size() int    { return 1 }
func (m text22) Name() string { return "log" }
func (m text22) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		m.b.got = append(m.b.got, string(v))
		return nil
	}
}

type backend22 struct {
	id     int
	log    *[]string
	got    []string
	refuse int // the write that is refused, counting down over all stores
	left   *int
	cancel func()
}

var errRefused22 = errors.New("refused")

func (b *backend22) Get(k uint64, buf []byte) bool { *b.log = append(*b.log, "get"); return false }
func (b *backend22) Update(k uint64, fn func(data []byte, init bool) error) error {
	*b.left--
	if *b.left == 0 {
		*b.log = append(*b.log, fmt.Sprintf("store %d refuses", b.id))
		return errRefused22
	}
	b.got = nil
	if err := fn(make([]byte, 1), true); err != nil {
		return err
	}
	*b.log = append(*b.log, fmt.Sprintf("store %d has %q", b.id, strings.Join(b.got, "|")))
	if b.cancel != nil {
		b.cancel()
	}
	return nil
}

func server22(n int, log *[]string, left *int) *Server {
	s := New()
	for i := 0; i < n; i++ {
		b := &backend22{id: i, log: log, left: left}
		f := collation.MeasureSpec{Field: collation.FieldSpec{Pattern: "v"}, Measures: []collation.Measure{text22{b}}}
		sc := collation.Schema{Name: fmt.Sprint("c", i), Measures: []collation.MeasureSpec{f}}
		c, err := sc.Compile()
		if err != nil {
			panic(err)
		}
		s.Stores = append(s.Stores, storage.Store{Backend: b, Collator: c})
	}
	return s
}

// body22 yields its text in pieces, then ends with err
type body22 struct {
	r    *rand.Rand
	text string
	err  error
	shut int
}

func (b *body22) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if b.text == "" {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := 1 + b.r.Intn(40)
	n = copy(p, b.text[:least22(n, len(b.text))])
	b.text = b.text[n:]
	return n, nil
}
func (b *body22) Close() error { b.shut++; return nil }

func least22(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func send22(t *testing.T, s *Server, req *http.Request, what string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	hutil.NoPanic(t, func() string { return what }, func() {
		if s.mux == nil {
			if err := s.registerHandlers(); err != nil {
				panic(err)
			}
		}
		s.ServeHTTP(w, req)
	})
	return w
}

func TestPosts(t *testing.T) {
	log.SetOutput(io.Discard)
	r := hutil.Rng(t)
	lines, oks, errs := 0, 0, 0
	for round := 0; round < hutil.Scale(6000); round++ {
		var got []string
		left := -1
		if r.Intn(3) == 0 {
			left = 1 + r.Intn(8)
		}
		stores, most := r.Intn(4), 6
		if r.Intn(25) == 0 {
			stores, most = r.Intn(12), 200
			if left > 0 {
				left = 1 + r.Intn(300)
			}
		}
		refuse := left
		s := server22(stores, &got, &left)
		// the lines, and what the stores should be given
		var text string
		var want []string
		fails := false
		count := refuse
		n := r.Intn(most)
		for i := 0; i < n; i++ {
			lines++
			line, vals, bad := fmt.Sprint(i+1), []string{}, false
			switch r.Intn(12) {
			case 0:
				line, bad = "", true
			case 1:
				line, bad = "\tv=x", true
			case 2:
				line, bad = "99999999999999999999\tv=x", true
			case 3:
			default:
				for j, k := 0, r.Intn(3); j < k; j++ {
					v := fmt.Sprintf("line%d.%d%s", i, j, []string{"", "=", " ", "\r.", strings.Repeat("x", r.Intn(5000))}[r.Intn(5)])
					line += "\tv=" + v
					vals = append(vals, v)
				}
				if r.Intn(3) == 0 {
					line += "\tw=other"
				}
			}
			end := "\n"
			if r.Intn(6) == 0 {
				end = "\r\n"
			}
			if i == n-1 && r.Intn(2) == 0 {
				end = ""
				if bad && line == "" {
					bad, line = false, "3" // nothing at the end is no line
				}
			}
			text += line + end
			if fails {
				continue
			}
			if bad {
				fails = true
				continue
			}
			for j := 0; j < stores && !fails; j++ {
				count--
				if count == 0 {
					want = append(want, fmt.Sprintf("store %d refuses", j))
					fails = true
				} else {
					want = append(want, fmt.Sprintf("store %d has %q", j, strings.Join(vals, "|")))
				}
			}
		}
		method, status := http.MethodPost, 200
		target := "/obs"
		ctype := []string{"", "text/plain", "application/octet-stream", "text/plain; charset=utf-8", "Text/Plain", "application/x-www-form-urlencoded"}[r.Intn(6)]
		form := ctype == "application/x-www-form-urlencoded"
		b := &body22{r: r, text: text}
		switch r.Intn(12) {
		case 0:
			method = []string{"GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "post"}[r.Intn(7)]
			status = 405
		case 1:
			ctype = []string{"application/json", "text/html", "text/plainer", "multipart/mixed; boundary=x", "x/y", "text/*"}[r.Intn(6)]
			form = false
			status = 415
		case 2:
			ctype = []string{"/", "text/plain; =", "a b", ";", "text/plain; charset=a; charset=b"}[r.Intn(5)]
			form = false
			status = 400
		case 3:
			form, ctype = true, "application/x-www-form-urlencoded"
			b.text = []string{"", "data=", "dat=1", "x=1&y=2", "=1\t"}[r.Intn(5)]
			text = ""
			status = 400
		case 4:
			if !form {
				b.err = errors.New("broken body")
			}
		}
		if form && status == 200 {
			if text == "" {
				status = 400
			}
			if q := (url.Values{"data": {text}, "other": {"1\tv=no"}}).Encode(); r.Intn(3) == 0 {
				target, b.text = "/obs?"+q, ""
			} else {
				b.text = q
			}
		}
		what := fmt.Sprintf("%s %.40s of type %q with text %s to %d stores, write %d being refused", method, target, ctype, hutil.Trim(fmt.Sprintf("%q", text)), stores, refuse)
		req := httptest.NewRequest("POST", target, b)
		req.Method = method
		if ctype != "" {
			req.Header.Set("Content-Type", ctype)
		}
		if b.err != nil {
			what += ", the body breaking off"
		}
		w := send22(t, s, req, what)
		hutil.Case(t, what, stores > 0 && n > 0)
		switch {
		case status != 200:
			if w.Code != status || len(got) > 0 {
				hutil.Fail(t, "%s: status %d instead of %d; stores: %v", what, w.Code, status, got)
			}
		case b.err != nil:
			if w.Code < 400 {
				hutil.Fail(t, "%s: status %d", what, w.Code)
			}
			if len(got) > len(want) && !strings.HasSuffix(text, "\n") {
				got = got[:len(want)] // what was read of the last line may count as a line
			}
			if strings.Join(got, "\n") != strings.Join(want[:least22(len(got), len(want))], "\n") {
				hutil.Fail(t, "%s: stores: %s; expected %s", what, hutil.Trim(got), hutil.Trim(want))
			}
		default:
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				hutil.Fail(t, "%s: stores: %s; expected %s", what, hutil.Trim(got), hutil.Trim(want))
			}
			if fails && w.Code < 400 {
				hutil.Fail(t, "%s: status %d though the request was not stored in full", what, w.Code)
			}
			if !fails && w.Code >= 300 {
				hutil.Fail(t, "%s: status %d though every line was stored", what, w.Code)
			}
		}
		if w.Code < 400 {
			oks++
		} else {
			errs++
		}
	}
	hutil.Covered(t, "%d lines in %d accepted and %d refused requests", lines, oks, errs)
}

// Lines as long as the reader of lines allows, and longer: stored in full, or the request is refused.
func TestLong(t *testing.T) {
	for _, n := range []int{4000, 65000, 65520, 65526, 65527, 65528, 65529, 65530, 65535, 65536, 65537, 70000, 200000} {
		var got []string
		left := -1
		s := server22(2, &got, &left)
		long := strings.Repeat("y", n)
		text := "1\tv=a\n2\tv=" + long + "\n3\tv=c\n"
		w := send22(t, s, httptest.NewRequest("POST", "/obs", strings.NewReader(text)), fmt.Sprintf("a line of %d bytes", n+4))
		full := []string{`store 0 has "a"`, `store 1 has "a"`, fmt.Sprintf("store 0 has %q", long), fmt.Sprintf("store 1 has %q", long), `store 0 has "c"`, `store 1 has "c"`}
		if w.Code < 400 && strings.Join(got, "\n") != strings.Join(full, "\n") {
			hutil.Fail(t, "three lines of which the second has %d bytes: status %d, and the stores have %s", n+4, w.Code, hutil.Trim(got))
		}
		if len(got) > 6 || strings.Join(got, "\n") != strings.Join(full[:len(got)], "\n") {
			hutil.Fail(t, "three lines of which the second has %d bytes: status %d, and the stores have %s", n+4, w.Code, hutil.Trim(got))
		}
	}
	hutil.Covered(t, "lines of up to 200000 bytes")
}

// A request cancelled on the way is not answered as accepted unless all was stored.
func TestCancelled(t *testing.T) {
	for at := 0; at < 6; at++ {
		var got []string
		left := -1
		s := server22(2, &got, &left)
		ctx, cancel := context.WithCancel(context.Background())
		if at == 0 {
			cancel()
		} else {
			n := 0
			for i := range s.Stores {
				s.Stores[i].Backend.(*backend22).cancel = func() {
					if n++; n == at {
						cancel()
					}
				}
			}
		}
		w := send22(t, s, httptest.NewRequest("POST", "/obs", bytes.NewReader([]byte("1\tv=a\n2\tv=b\n3\tv=c\n"))).WithContext(ctx), "cancelled request")
		full := []string{`store 0 has "a"`, `store 1 has "a"`, `store 0 has "b"`, `store 1 has "b"`, `store 0 has "c"`, `store 1 has "c"`}
		if len(got) > 6 || strings.Join(got, "\n") != strings.Join(full[:len(got)], "\n") || w.Code < 400 && len(got) < 6 {
			hutil.Fail(t, "three lines to two stores, cancelled after %d writes: status %d, stores %v", at, w.Code, got)
		}
		cancel()
	}
	hutil.Covered(t, "cancellation at 6 points")
}
