//verif:dir internal/server
package server

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zzverif/hutil"
)

// reference reads a line character by character.
func reference21(line []byte) (ts uint64, fvs [][2]string, ok bool) {
	n := 0
	for n < len(line) && n < 20 && line[n] >= '0' && line[n] <= '9' {
		d := uint64(line[n] - '0')
		if ts > (1<<63-1-d)/10 {
			return 0, nil, false
		}
		ts = ts*10 + d
		n++
	}
	if n == 0 {
		return 0, nil, false
	}
	if n == len(line) {
		return ts, nil, true
	}
	delim := line[n]
	cur, eq := [2]string{}, 0
	for _, c := range line[n+1:] {
		switch {
		case c == delim:
			fvs = append(fvs, cur)
			cur, eq = [2]string{}, 0
		case c == '=' && eq == 0:
			eq = 1
		default:
			cur[eq] += string([]byte{c})
		}
	}
	return ts, append(fvs, cur), true
}

func line21(r *rand.Rand) []byte {
	var b []byte
	pick := func(s string) byte { return s[r.Intn(len(s))] }
	switch r.Intn(10) {
	case 0:
		b = append(b, []string{"", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "00000000000000000000", "000000000000000000000",
			"00000000000000000001", "99999999999999999999", "09223372036854775807", "+5", "-5", "1e5", "0x10", " 7", "1_000", "922337203685477580", "9223372036854775799"}[r.Intn(18)]...)
	default:
		for i, n := 0, r.Intn(23); i < n; i++ {
			b = append(b, pick("0123456789"))
		}
		if r.Intn(8) == 0 && len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	}
	delim := pick("\t\t\t ,|=;0\x00\xff:")
	if r.Intn(8) > 0 {
		b = append(b, delim)
		n := r.Intn(14)
		if r.Intn(50) == 0 {
			n = r.Intn(1000)
		}
		for i := 0; i < n; i++ {
			switch r.Intn(6) {
			case 0:
				b = append(b, delim)
			case 1:
				b = append(b, '=')
			case 2:
				b = append(b, byte(r.Intn(256)))
			default:
				b = append(b, pick("abc019=\t "))
			}
		}
	}
	return b
}

func check21(t *testing.T, line []byte) {
	ts, want, ok := reference21(line)
	hutil.Case(t, fmt.Sprintf("%q", line), ok && len(want) > 1)
	in, intact := hutil.Boxed(line)
	var row collation.Row
	var err error
	hutil.NoPanic(t, func() string { return fmt.Sprintf("line %q", line) }, func() { row, err = parseRow(in) })
	if (err == nil) != ok {
		hutil.Fail(t, "line %q: error %v, expected to be accepted: %v", line, err, ok)
	}
	if !intact() || !bytes.Equal(in, line) {
		hutil.Fail(t, "line %q: parsing it writes to it, or beyond it", line)
	}
	if !ok {
		return
	}
	if when := time.Unix(int64(ts/1000000), int64(ts%1000000)*1000); !row.DataTime.Equal(when) {
		hutil.Fail(t, "line %q: data time %v is not %d microseconds, %v", line, row.DataTime.UTC(), ts, when.UTC())
	}
	got := ""
	for _, fv := range row.Data {
		got += fmt.Sprintf("%q=%q ", fv.F, fv.V)
	}
	exp := ""
	for _, fv := range want {
		exp += fmt.Sprintf("%q=%q ", fv[0], fv[1])
	}
	if got != exp {
		hutil.Fail(t, "line %q: fields %sinstead of %s", line, got, exp)
	}
}

func TestLines(t *testing.T) {
	r := hutil.Rng(t)
	n := 0
	for ; n < hutil.Scale(60000); n++ {
		check21(t, line21(r))
	}
	hutil.Covered(t, "%d random lines", n)
}

// every line of up to 6 bytes over a small alphabet
func TestShort(t *testing.T) {
	alpha := []byte("07=\t,a")
	n := 0
	var walk func(line []byte)
	walk = func(line []byte) {
		check21(t, line)
		n++
		if len(line) < 6 {
			for _, c := range alpha {
				walk(append(line[:len(line):len(line)], c))
			}
		}
	}
	walk(nil)
	hutil.Covered(t, "all %d lines of at most 6 bytes over %q", n, alpha)
}

// every byte as delimiter, and as part of a field
func TestBytes(t *testing.T) {
	n := 0
	for c := 0; c < 256; c++ {
		for _, f := range []string{"1%ca=b%cc=d", "12345678901234567890%ca", "1\ta%cb=c", "1\ta=b%c\tc", "%c1\ta=b", "1%c", "1%c%c", "1%c="} {
			check21(t, bytes.ReplaceAll([]byte(f), []byte("%c"), []byte{byte(c)}))
			n++
		}
	}
	hutil.Covered(t, "every byte in 8 positions, %d lines", n)
}
