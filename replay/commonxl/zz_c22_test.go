package commonxl

import (
	"fmt"
	"math"
	"testing"
	"time"
)

// serial dates against plain day counting
func TestVerifC22(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(60000); iter++ {
		var day int64
		switch rng.Intn(4) {
		case 0:
			day = int64(rng.Intn(400))
		case 1:
			day = int64(rng.Intn(3000000))
		case 2:
			day = 36000 + int64(rng.Intn(10000))
		default:
			day = -int64(rng.Intn(60000))
		}
		ms := int64(rng.Intn(86400000))
		if rng.Intn(3) == 0 {
			ms = []int64{0, 1, 500, 43200000, 86399999, 86399000, 3600000}[rng.Intn(7)]
		}
		if day < 0 {
			ms = -ms
		}
		mode := rng.Intn(2) == 0
		val := float64(day) + float64(ms)/86400000
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("serial %v (day %d, %d ms), 1904 mode %v", val, day, ms, mode) }, func() error {
			x := &Formatter{}
			x.Mode1904(!mode)
			x.Mode1904(mode)
			epoch := int64(-25569)
			if mode {
				epoch = -24107
			}
			want := ((epoch+day)*86400000 + ms) * 1000000
			if math.Abs(float64(day)) > 90000 {
				// beyond the range of int64 nanoseconds
				want = 0
			}
			for _, got := range []time.Time{x.ConvertToDate(val), NewCellWithType(val, DateCell, x).Value().(time.Time)} {
				gotms := got.Unix()*1000 + int64(got.Nanosecond())/1000000
				if gotms != (epoch+day)*86400000+ms || want != 0 && got.UnixNano() != want {
					return fmt.Errorf("converted to %v", got)
				}
				if got.Location() != time.UTC {
					return fmt.Errorf("converted to %v", got)
				}
			}
			if ms == 0 {
				c := NewCellWithType(day, DateCell, x)
				if d, ok := c.Value().(time.Time); !ok || d.Unix() != (epoch+day)*86400 {
					return fmt.Errorf("the integer converted to %v", c)
				}
			}
			d := time.Unix((epoch+day)*86400, 0).UTC()
			if day >= 0 && day < 2900000 && ms == 0 {
				if got, _ := x.Apply(14, val); got != d.Format("01-02-06") {
					return fmt.Errorf("mm-dd-yy gives %q, expected %q", got, d.Format("01-02-06"))
				}
				x.Add(170, "yyyy\\-mm\\-dd")
				if got, _ := x.Apply(170, val); got != d.Format("2006-01-02") {
					return fmt.Errorf("yyyy-mm-dd gives %q, expected %q", got, d.Format("2006-01-02"))
				}
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
