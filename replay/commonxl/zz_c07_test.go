package commonxl

import (
	"fmt"
	"testing"
	"time"
)

// random tables built and read through every public operation
func TestVerifC07(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(6000); iter++ {
		x, ids := vFormatter(rng)
		ops := vOps(rng, 1+rng.Intn(8), ids, true)
		n++
		vGuard(t, 10*time.Second, func() string { return fmt.Sprintf("table built by %v", ops) }, func() error {
			s := &Sheet{Formatter: x}
			for _, o := range ops {
				o.apply(s)
			}
			s.IsEmpty()
			s.Err()
			for s.Next() {
				s.Strings()
				s.Types()
				s.Formats()
				for _, c := range s.Raw() {
					c.Value()
					c.Type()
					c.FormatNo()
					c.URL()
					c.Clone()
					for _, d := range s.Raw() {
						c.Equal(d)
						c.Less(d)
					}
				}
				var b bool
				var i int64
				var f float64
				var st string
				var ti time.Time
				s.Scan()
				s.Scan(&b)
				s.Scan(&i, &f)
				s.Scan(&st, &ti)
				s.Scan(b, i, f, st)
				s.Scan(&i, &i, &i, &i, &i, &i, &i, &i, &i, &i, &i, &i)
			}
			return nil
		})
	}
	for _, code := range vCodes {
		for k := 0; k < 40; k++ {
			v := vValue(rng)
			n++
			vGuard(t, 10*time.Second, func() string { return fmt.Sprintf("format %q applied to %T %#v", code, v, v) }, func() error {
				x := &Formatter{}
				x.Add(170, code)
				x.Apply(170, v)
				x.Apply(170, nil)
				return nil
			})
		}
	}
	for id := 0; id < 65536; id++ {
		if id > 200 && id%97 != 0 && id != 65535 {
			continue
		}
		for k := 0; k < 25; k++ {
			v := vValue(rng)
			n++
			vGuard(t, 10*time.Second, func() string { return fmt.Sprintf("format %d applied to %T %#v", id, v, v) }, func() error {
				x := &Formatter{}
				x.Apply(uint16(id), v)
				NewCellWithType(v, CellType(id%6), x)
				return nil
			})
		}
	}
	fmt.Println("VERIF-EVALS", n)
}
