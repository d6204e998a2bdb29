package c23

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

func show(fm []collation.FM, cr collation.FVList) string {
	o := "select"
	for _, f := range fm {
		o += fmt.Sprintf(" %q:%q", f.F, f.M)
	}
	o += " where"
	for _, c := range cr {
		o += fmt.Sprintf(" %q=%q", c.F, c.V)
	}
	return o
}

type sel struct{ f, m string }

func group(ss []sel) (fm []collation.FM) {
next:
	for _, s := range ss {
		for i := range fm {
			if string(fm[i].F) == s.f {
				fm[i].M = append(fm[i].M, []byte(s.m))
				continue next
			}
		}
		fm = append(fm, collation.FM{F: []byte(s.f), M: [][]byte{[]byte(s.m)}})
	}
	return
}

func parse(t *testing.T, text string) (q collation.Query, err error) {
	hutil.NoPanic(t, func() string { return fmt.Sprintf("query %q", text) }, func() { q, err = query.RoughParse(text) })
	return
}

// Texts made from known parts.
func TestComposed(t *testing.T) {
	r := hutil.Rng(t)
	names := []string{"a", "b", "price", "p.q", "x-y", "ab", "a1", "é", "select", "whereabouts", "A", "*"}
	n := 0
	for ; n < hutil.Scale(15000); n++ {
		var ss []sel
		names := append(names, fmt.Sprintf("n%d", r.Intn(20)), fmt.Sprintf("%x", r.Int63()))
		sp := []string{" ", "  ", "\t"}[r.Intn(3)]
		text := []string{"", " ", "\t "}[r.Intn(3)] + []string{"select", "SELECT", "Select", "sElEcT"}[r.Intn(4)] + sp
		long := 1
		if r.Intn(20) == 0 {
			long = 12
		}
		for i, k := 0, 1+r.Intn(7*long); i < k; i++ {
			s := sel{names[r.Intn(len(names))], []string{"sum", "mean", "count", "max", "m2"}[r.Intn(5)]}
			if i > 0 {
				text += []string{", ", ",", " , ", " "}[r.Intn(4)]
			}
			text += s.m + "(" + s.f + ")"
			ss = append(ss, s)
		}
		text += sp + []string{"where", "WHERE", "whErE"}[r.Intn(3)] + sp
		var cr collation.FVList
		for i, k := 0, 1+r.Intn(4*long); i < k; i++ {
			fv := collation.FV{F: []byte(names[r.Intn(len(names))]), V: []byte([]string{"jim", "jim jones", "a=b", "x, y", "1", "and", "sum(a)", "é\x00"}[r.Intn(8)])}
			if i > 0 {
				text += []string{" and ", " ", " AND "}[r.Intn(3)]
			}
			text += string(fv.F) + "='" + string(fv.V) + "'"
			cr = append(cr, fv)
		}
		text += []string{"", " ", "\n"}[r.Intn(3)]
		want := show(group(ss), cr)
		hutil.Case(t, text, len(ss)+len(cr) > 2)
		for again := 0; again < 2; again++ {
			q, err := parse(t, text)
			if err != nil {
				hutil.Fail(t, "query %q: %v", text, err)
			}
			if got := show(q.FieldMeasures, q.Criteria); got != want {
				hutil.Fail(t, "query %q: parsed as %s instead of %s", text, got, want)
			}
		}
	}
	hutil.Covered(t, "%d composed queries, each parsed twice", n)
}

var (
	form  = regexp.MustCompile(`(?i)^\s*select\s+(.+)\s+where\s+(.+)\s*$`)
	item  = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
	match = regexp.MustCompile(`(\S+)='([^']+)'`)
)

// Arbitrary texts, against the grammar as regular expressions.
func TestTexts(t *testing.T) {
	r := hutil.Rng(t)
	pieces := []string{"select", "where", "SELECT ", " Where ", " ", "  ", "\n", "\t", ",", "(", ")", "sum(a)", "mean(a)", "sum(b)", "f(g(h))", "x='y'", "a='1'", "b='2 3'", "='z'", "a=''", "''", "'", "=", "and", "a", "select ", " where ", "é", "\x00", "\xff", "sum (a)", "sum( a)"}
	n, refused := 0, 0
	gen := func(r *rand.Rand) string {
		var b strings.Builder
		if r.Intn(3) > 0 {
			b.WriteString("select ")
		}
		for i, k := 0, r.Intn(10); i < k; i++ {
			b.WriteString(pieces[r.Intn(len(pieces))])
		}
		if r.Intn(3) > 0 {
			b.WriteString(" where ")
			for i, k := 0, r.Intn(8); i < k; i++ {
				b.WriteString(pieces[r.Intn(len(pieces))])
			}
		}
		return b.String()
	}
	for ; n < hutil.Scale(40000); n++ {
		text := gen(r)
		q, err := parse(t, text)
		p := form.FindStringSubmatch(text)
		if (err != nil) != (p == nil) {
			hutil.Fail(t, "query %q: error %v, but of the form select ... where ...: %v", text, err, p != nil)
		}
		hutil.Case(t, text, p != nil)
		if p == nil {
			refused++
			continue
		}
		var ss []sel
		for _, m := range item.FindAllStringSubmatch(p[1], -1) {
			ss = append(ss, sel{m[2], m[1]})
		}
		var cr collation.FVList
		for _, m := range match.FindAllStringSubmatch(p[2], -1) {
			cr = append(cr, collation.FV{F: []byte(m[1]), V: []byte(m[2])})
		}
		if got, want := show(q.FieldMeasures, q.Criteria), show(group(ss), cr); got != want {
			hutil.Fail(t, "query %q: parsed as %s instead of %s", text, got, want)
		}
	}
	hutil.Covered(t, "%d texts, of which %d are no queries", n, refused)
}
