package xlsx

import (
	"fmt"
	"regexp"
	"strconv"
	"testing"
	"time"
)

func vColName(c int) string {
	s := ""
	for c++; c > 0; c = (c - 1) / 26 {
		s = string(rune('A'+(c-1)%26)) + s
	}
	return s
}

var vA1 = regexp.MustCompile(`^\$?([A-Z]{1,3})\$?([0-9]+)$`)
var vR1C1 = regexp.MustCompile(`^R[0-9]+C[0-9]+$`)

// every column of the format, and random well-formed and malformed references
func TestVerifC14(t *testing.T) {
	rng := vRand()
	n := 0
	one := func(ref string, wc, wr int, free bool) {
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("reference %q", ref) }, func() error {
			c, r := refToIndexes(ref)
			if free && c < 0 && r < 0 {
				return nil
			}
			if wc < 0 || wr < 0 {
				if c >= 0 && r >= 0 {
					return fmt.Errorf("malformed, mapped to column %d, row %d", c, r)
				}
				return nil
			}
			if c != wc || r != wr {
				return fmt.Errorf("mapped to column %d, row %d; it denotes column %d, row %d", c, r, wc, wr)
			}
			return nil
		})
	}
	for c := 0; c < 16384; c++ {
		row := rng.Intn(1048576)
		if c%5 == 0 {
			row = []int{0, 8, 9, 98, 99, 1048575}[rng.Intn(6)]
		}
		one(vColName(c)+strconv.Itoa(row+1), c, row, false)
		a := []string{"", "$"}
		one(a[rng.Intn(2)]+vColName(c)+a[rng.Intn(2)]+strconv.Itoa(row+1), c, row, false)
	}
	for _, s := range []string{"", "A", "1", "12", "A0", "$A$0", "A-1", "A+1", "1A", "a1", "A1A", "A1B2", "A 1", " A1", "A1 ", "A1:B2", "Á1", "A１", "@1", "[1", "A_1", "A1_0", "A1.5", "A1e3", "A0x1", "$1", "$$1", "$$A1", "A$$1", "A1$", "A$", "ZZZZZZZZZZZZZZ1", "ZZZZZZZZZZZZZZZZZZZZZZZZZZZ3", "A99999999999999999999", "A18446744073709551617", "A9223372036854775807", "A4294967297", "-1", "#REF!", "A1,", "\x00A1", "A\x001", "R1C-1", "R1C+1", "R-1C1", "RC", "R1C", "C1C1", "A1C1"} {
		one(s, -1, -1, false)
	}
	alpha := "ABCZ$RC019a -+:."
	for k := 0; k < vScale(200000); k++ {
		b := make([]byte, 1+rng.Intn(7))
		for i := range b {
			b[i] = alpha[rng.Intn(len(alpha))]
		}
		s := string(b)
		m := vA1.FindStringSubmatch(s)
		if m == nil {
			if !vR1C1.MatchString(s) {
				one(s, -1, -1, false)
			}
			continue
		}
		c := 0
		for _, l := range m[1] {
			c = c*26 + int(l-'A') + 1
		}
		r, _ := strconv.Atoi(m[2])
		if c > 16384 {
			r = 0
		}
		// leading zeros may be refused
		one(s, c-1, r-1, m[2][0] == '0')
	}
	fmt.Println("VERIF-EVALS", n)
}
