package commonxl

import (
	"fmt"
	"math"
	"testing"
	"time"
)

// fractions of random numbers
func TestVerifC27(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(100000); iter++ {
		nn, nd := 1+rng.Intn(6), 1+rng.Intn(6)
		switch rng.Intn(10) {
		case 0:
			nn = rng.Intn(16)
		case 1:
			nd = rng.Intn(16)
		}
		if rng.Intn(2) == 0 {
			nd = nn
		}
		var v float64
		switch rng.Intn(6) {
		case 0:
			v = float64(rng.Intn(1000)) / float64(1+rng.Intn(1000))
		case 1:
			v = rng.Float64()
		case 2:
			v = 1 - rng.Float64()*math.Pow(10, -float64(rng.Intn(14)))
		case 3:
			v = rng.Float64() * math.Pow(10, -float64(rng.Intn(14)))
		case 4:
			v = float64(rng.Intn(1000)) + rng.Float64()*math.Pow(10, -float64(rng.Intn(14)))
		default:
			v = []float64{0, 0.5, 0.1, 0.95, 0.995, 0.9995, 1e-9, 1e-300, 1e15 + 0.5, 123456.789, 0.0909090909090909, 99.9999999, 1.0 / 3, 2.0 / 3, 0.99, 0.999, 0.4999999}[rng.Intn(17)]
		}
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("%v with %d and %d digits", v, nn, nd) }, func() error {
			w, a, b := DecimalToWholeFraction(v, nn, nd)
			ln, ld := nn, nd
			if ln == 0 {
				ln = 2
			}
			if ld == 0 {
				ld = 2
			}
			if float64(w) != math.Floor(v) {
				return fmt.Errorf("whole part %d", w)
			}
			if a < 0 || b < 1 || a > b || float64(a) >= math.Pow(10, float64(ln)) || float64(b) >= math.Pow(10, float64(ld)) {
				return fmt.Errorf("fraction %d/%d", a, b)
			}
			frac := v - math.Floor(v)
			lim := math.Pow(10, -float64(ld))
			if l := math.Pow(10, -float64(ln)); l > lim {
				lim = l
			}
			if math.Abs(float64(a)/float64(b)-frac) > lim+2e-9 {
				return fmt.Errorf("fraction %d/%d is off", a, b)
			}
			x := &Formatter{}
			for id, dig := range map[uint16]int{12: 1, 13: 2} {
				w, a, b := DecimalToWholeFraction(v, dig, dig)
				want := fmt.Sprintf("%d %d/%d", w, a, b)
				if a == 0 {
					want = fmt.Sprint(w)
				} else if w == 0 {
					want = fmt.Sprintf("%d/%d", a, b)
				}
				if got, _ := x.Apply(id, v); got != want {
					return fmt.Errorf("format %d gives %q, expected %q", id, got, want)
				}
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
