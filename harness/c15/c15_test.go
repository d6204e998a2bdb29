package c15

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// address: the published FNV-1 hash of every key name followed by the value of the first field of that name.
func address(keys [][]byte, fv collation.FVList) (uint64, bool) {
	h := uint64(0xcbf29ce484222325)
	eat := func(p []byte) {
		for _, c := range p {
			h *= 0x100000001b3
			h ^= uint64(c)
		}
	}
	for _, k := range keys {
		at := -1
		for i := len(fv) - 1; i >= 0; i-- {
			if string(fv[i].F) == string(k) {
				at = i
			}
		}
		if at < 0 {
			return 0, false
		}
		eat(k)
		eat(fv[at].V)
	}
	return h, true
}

func text(r *rand.Rand) []byte {
	n := []int{0, 1, 1, 2, 3, 5, 8, 9, 16, 17, 31, 40, 64, 65, 130, 300, 1025}[r.Intn(17)]
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = "ab"[r.Intn(2)]
		}
	default:
		for i := range b {
			b[i] = "\x00\xff\x80=A"[r.Intn(5)]
		}
	}
	return b
}

func clone(fv collation.FVList) collation.FVList {
	var c collation.FVList
	for _, f := range fv {
		c = append(c, collation.FV{F: append([]byte{}, f.F...), V: append([]byte{}, f.V...)})
	}
	return c
}

func all(t *testing.T, keys [][]byte, fv collation.FVList) (k uint64, ok bool) {
	was, kwas := clone(fv), [][]byte{}
	for _, x := range keys {
		kwas = append(kwas, append([]byte{}, x...))
	}
	hutil.NoPanic(t, func() string { return fmt.Sprintf("KeyValue(%q) of %q", keys, fv) }, func() { k, ok = fv.KeyValue(keys) })
	row := collation.Row{Data: fv}
	if rk, rok := row.KeyValue(keys); rk != k || rok != ok {
		hutil.Fail(t, "keys %q: list %q gives %x %v, a row of it %x %v", keys, fv, k, ok, rk, rok)
	}
	q := collation.Query{Criteria: fv, FieldMeasures: []collation.FM{{F: []byte("f"), M: [][]byte{[]byte("count")}}}}
	if rk, rok := q.KeyValue(keys); rk != k || rok != ok {
		hutil.Fail(t, "keys %q: list %q gives %x %v, a query with those criteria %x %v", keys, fv, k, ok, rk, rok)
	}
	for i := range fv {
		if !bytes.Equal(fv[i].F, was[i].F) || !bytes.Equal(fv[i].V, was[i].V) {
			hutil.Fail(t, "keys %q: KeyValue changed the fields from %q to %q", kwas, was, fv)
		}
	}
	for i := range keys {
		if !bytes.Equal(keys[i], kwas[i]) {
			hutil.Fail(t, "KeyValue changed the keys from %q to %q", kwas, keys)
		}
	}
	return
}

func TestAddress(t *testing.T) {
	r := hutil.Rng(t)
	rows, found := 0, 0
	for round := 0; round < hutil.Scale(15000); round++ {
		// names that are alike: one the start of another, one byte apart, equal lengths
		stem := text(r)
		names := [][]byte{stem, append(append([]byte{}, stem...), 'x'), append(append([]byte{}, stem...), 'y'), text(r), text(r), []byte("a"), []byte("b"), {}}
		var keys [][]byte
		for i, n := 0, r.Intn(5); i < n; i++ {
			keys = append(keys, names[r.Intn(len(names))]) // sometimes the same name twice
		}
		var fv collation.FVList
		if r.Intn(4) > 0 {
			for _, k := range keys {
				if r.Intn(12) > 0 {
					fv = append(fv, collation.FV{F: append([]byte{}, k...), V: text(r)})
				}
			}
		}
		for i, n := 0, r.Intn(5); i < n; i++ {
			fv = append(fv, collation.FV{F: append([]byte{}, names[r.Intn(len(names))]...), V: text(r)})
		}
		r.Shuffle(len(fv), func(i, j int) { fv[i], fv[j] = fv[j], fv[i] })
		rows++
		want, wok := address(keys, fv)
		k, ok := all(t, keys, fv)
		if ok != wok || ok && k != want {
			hutil.Fail(t, "keys %q of %q: address %x %v, expected %x %v", keys, fv, k, ok, want, wok)
		}
		if !ok {
			continue
		}
		found++
		// the same key fields among others and in another order: the same record
		seen := map[string]bool{}
		var other collation.FVList
		for _, f := range fv {
			key := false
			for _, x := range keys {
				key = key || bytes.Equal(x, f.F)
			}
			if seen[string(f.F)] || !key {
				continue
			}
			seen[string(f.F)] = true
			other = append(other, f)
		}
		for i, n := 0, r.Intn(4); i < n; i++ {
			f := collation.FV{F: text(r), V: text(r)}
			if !seen[string(f.F)] {
				seen[string(f.F)] = true
				other = append(other, f)
			}
		}
		r.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
		if k2, ok2 := all(t, keys, clone(other)); !ok2 || k2 != k {
			hutil.Fail(t, "keys %q: %q addresses %x but %q, which has the same key fields, %x %v", keys, fv, k, other, k2, ok2)
		}
	}
	hutil.Covered(t, "%d rows and queries, %d of which had every key", rows, found)
}

// The address does not depend on what was addressed before or on where the bytes lie.
func TestReuse(t *testing.T) {
	r := hutil.Rng(t)
	var row collation.Row
	mem := make([]byte, 0, 4096)
	for round := 0; round < hutil.Scale(3000); round++ {
		mem = mem[:0]
		put := func(b []byte) []byte {
			mem = append(mem, b...)
			return mem[len(mem)-len(b):]
		}
		row.Reset()
		keys := [][]byte{[]byte("host"), []byte("path")}
		for _, n := range []string{"path", "z", "host"} {
			row.Data = append(row.Data, collation.FV{F: put([]byte(n)), V: put([]byte{byte('a' + r.Intn(3)), byte('a' + r.Intn(3))})})
		}
		if r.Intn(5) == 0 {
			row.Data = row.Data[:2]
		}
		want, wok := address(keys, row.Data)
		if k, ok := row.KeyValue(keys); ok != wok || ok && k != want {
			hutil.Fail(t, "keys %q of %q: address %x %v, expected %x %v", keys, row.Data, k, ok, want, wok)
		}
	}
	hutil.Covered(t, "rows in reused memory")
}
