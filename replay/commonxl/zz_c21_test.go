package commonxl

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"
)

// digit grouping and brackets of random texts
func TestVerifC21(t *testing.T) {
	rng := vRand()
	n := 0
	group := func(s string) string {
		a := strings.IndexAny(s, "0123456789")
		if a < 0 {
			return s
		}
		b := a
		for b < len(s) && s[b] >= '0' && s[b] <= '9' {
			b++
		}
		out := ""
		for i := a; i < b; i++ {
			if i > a && (b-i)%3 == 0 {
				out += ","
			}
			out += string(s[i])
		}
		return s[:a] + out + s[b:]
	}
	for iter := 0; iter < vScale(60000); iter++ {
		s := ""
		switch rng.Intn(4) {
		case 0:
			for k := rng.Intn(25); k > 0; k-- {
				s += string("0123456789-.,eE+ ()$%x"[rng.Intn(22)])
			}
		default:
			s = []string{"", "-", "$", "-$", "(", "é", "+"}[rng.Intn(7)]
			for k := rng.Intn(20); k > 0; k-- {
				s += string("0123456789"[rng.Intn(10)])
			}
			s += []string{"", ".", ".1234567", "%", "E+12345", " 1234/5678", "e10"}[rng.Intn(7)]
		}
		ff := func(x *Formatter, v interface{}) string { return s }
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("text %q", s) }, func() error {
			if got := addCommas(ff)(&Formatter{}, 1.0); got != group(s) {
				return fmt.Errorf("grouped as %q, expected %q", got, group(s))
			}
			want := s
			if strings.HasPrefix(s, "-") {
				want = "(" + s[1:] + ")"
			}
			if got := addNegParens(ff)(&Formatter{}, 1.0); got != want {
				return fmt.Errorf("bracketed as %q, expected %q", got, want)
			}
			return nil
		})
	}
	for iter := 0; iter < vScale(20000); iter++ {
		v := rng.NormFloat64() * []float64{1, 1e3, 1e6, 1e9, 1e12, 1e15}[rng.Intn(6)]
		iv := int64(v)
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("number %v", v) }, func() error {
			x := &Formatter{}
			for _, id := range []uint16{3, 4, 37, 39} {
				got, _ := x.Apply(id, v)
				d := strings.Replace(strings.TrimSpace(got), ",", "", -1)
				if id >= 37 && v < 0 && strings.HasPrefix(d, "(") {
					d = "-" + d[1:len(d)-1]
				}
				f, err := strconv.ParseFloat(d, 64)
				if err != nil || math.Abs(f-v) > 1+math.Abs(v)*1e-15 {
					return fmt.Errorf("format %d gives %q", id, got)
				}
				w := group(d)
				if id >= 37 && strings.HasPrefix(d, "-") {
					w = "(" + w[1:] + ")"
				}
				if strings.TrimSpace(got) != w {
					return fmt.Errorf("format %d gives %q, expected %q", id, got, w)
				}
			}
			x.Add(170, "#,##0")
			if got, _ := x.Apply(170, iv); got != group(fmt.Sprintf("%d", iv)) {
				return fmt.Errorf("%d with custom format #,##0 gives %q", iv, got)
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
