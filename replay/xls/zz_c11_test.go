package xls

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"
)

// vRK: the number a compressed number stands for, computed from the format's definition
func vRK(r uint32) (float64, bool, int) {
	var v float64
	isInt := r&2 != 0
	i := int(r >> 2)
	if i >= 1<<29 {
		i -= 1 << 30
	}
	if isInt {
		v = float64(i)
	} else {
		// the 30 most significant bits of an IEEE double, the rest zero
		sign, exp, man := r>>31, int(r>>20&0x7ff), float64(r>>2&0x3ffff)/(1<<18)
		switch {
		case exp == 0x7ff && man == 0:
			v = math.Inf(1)
		case exp == 0x7ff:
			v = math.NaN()
		case exp == 0:
			v = math.Ldexp(man, -1022)
		default:
			v = math.Ldexp(1+man, exp-1023)
		}
		if sign == 1 {
			v = -v
		}
	}
	if r&1 != 0 {
		return v / 100, false, 0
	}
	return v, isInt, i
}

func TestVerifC11(t *testing.T) {
	rng := vRand()
	n := 0
	special := []uint32{0, 1, 2, 3, 0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffffc, 0x80000000, 0x80000001, 0x80000002, 0x80000003, 0x7fffffff, 0x7ffffffe, 0x7ffffffd, 0x7ffffffc, 0x3ff00000, 0x3ff00001, 0x40590001, 0xbff00000, 0xbff00001, 0x7ff00000, 0x7ff80000, 0xfff00000, 6, 7, 400*4 + 3, 0xfffffff6, 0xfffffff7, 12345*4 + 3, 12345*4 + 2}
	one := func(r uint32) {
		n++
		desc := func() string { return fmt.Sprintf("compressed number %#08x", r) }
		want, isInt, i := vRK(r)
		x := RKNumber(r)
		fail := func(f string, a ...interface{}) {
			t.Fatalf("COUNTEREXAMPLE %s\n  %s", desc(), fmt.Sprintf(f, a...))
		}
		if got := x.IsInteger(); got != isInt {
			fail("IsInteger is %v", got)
		}
		if isInt && x.Int() != i {
			fail("Int is %d, the stored integer is %d", x.Int(), i)
		}
		if got := x.Float64(); got != want && !(got != got && want != want) {
			fail("Float64 is %v, the stored number is %v", got, want)
		}
		txt := fmt.Sprint(want)
		if isInt {
			txt = fmt.Sprint(i)
		}
		if got := x.String(); got != txt {
			fail("String is %q, want %q", got, txt)
		}
	}
	vGuard(t, 800*time.Second, func() string { return "compressed numbers" }, func() error {
		for _, r := range special {
			one(r)
		}
		for k := 0; k < vScale(400000); k++ {
			r := rng.Uint32()
			if k%4 == 0 {
				r = uint32(rand.New(rand.NewSource(int64(k))).Intn(4000)) - 2000
			}
			one(r)
		}
		return nil
	})
	fmt.Println("VERIF-EVALS", n)
}
