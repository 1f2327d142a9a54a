package commonxl

import (
	"fmt"
	"testing"
	"time"
)

// texts put with every number format
func TestVerifC17(t *testing.T) {
	rng := vRand()
	n := 0
	check := func(x *Formatter, id uint16, what, s string, v interface{}) {
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("text %q put with number format %s", s, what) }, func() error {
			sh := &Sheet{Formatter: x}
			sh.Put(0, 0, v, id)
			sh.Put(1, 0, 5.5, 0)
			sh.Set(1, 0, v)
			sh.Put(2, 0, 1, id)
			sh.Set(2, 0, v)
			for sh.Next() {
				if got := sh.Strings(); len(got) != 1 || got[0] != s {
					return fmt.Errorf("row %d came out as %q", sh.CurRow-1, got)
				}
				var dst string
				if err := sh.Scan(&dst); s != "" && (err != nil || dst != s) {
					return fmt.Errorf("row %d scanned as %q (%v)", sh.CurRow-1, dst, err)
				}
			}
			return nil
		})
	}
	for id := 0; id < 65536; id++ {
		if id > 180 && id%1009 != 0 && id != 65535 {
			continue
		}
		for _, s := range vTexts {
			check(&Formatter{}, uint16(id), fmt.Sprint(id), s, s)
		}
	}
	for _, code := range vCodes {
		x := &Formatter{}
		x.Add(170, code)
		for _, s := range vTexts {
			check(x, 170, fmt.Sprintf("%q", code), s, s)
		}
	}
	for iter := 0; iter < vScale(20000); iter++ {
		x, ids := vFormatter(rng)
		s := vTexts[rng.Intn(len(vTexts))]
		for k := rng.Intn(3); k > 0; k-- {
			s += vTexts[rng.Intn(len(vTexts))]
		}
		id := ids[rng.Intn(len(ids))]
		check(x, id, fmt.Sprint(id), s, s)
		if got, _ := x.Apply(id, s); got != s {
			t.Fatalf("COUNTEREXAMPLE format %d applied to text %q gave %q", id, s, got)
		}
	}
	fmt.Println("VERIF-EVALS", n)
}
