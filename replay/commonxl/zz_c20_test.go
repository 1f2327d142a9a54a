package commonxl

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/pbnjay/grate"
)

// random rows scanned into random destinations
func TestVerifC20(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(40000); iter++ {
		x, ids := vFormatter(rng)
		ops := vOps(rng, 1+rng.Intn(6), ids, false)
		for c := 0; c < 4; c++ {
			ops = append(ops, vOp{Op: "Put", R: 0, C: c, V: vValue(rng), Fmt: ids[rng.Intn(len(ids))]})
		}
		args := rng.Intn(6)
		kinds := make([]int, args)
		for i := range kinds {
			kinds[i] = rng.Intn(8)
		}
		match := rng.Intn(2) == 0
		n++
		vGuard(t, 10*time.Second, func() string {
			return fmt.Sprintf("table built by %v, scanned into destinations of kinds %v (bool, int64, float64, string, Time, matching: %v)", ops, kinds, match)
		}, func() error {
			s := &Sheet{Formatter: x}
			for _, o := range ops {
				o.apply(s)
			}
			s.Next()
			row := s.Rows[0]
			mkt := time.Date(1999, 9, 9, 9, 9, 9, 0, time.UTC)
			dst := make([]interface{}, args)
			for i := range dst {
				k := kinds[i]
				if match && i < len(row) {
					switch row[i].Value().(type) {
					case bool:
						k = 0
					case int64:
						k = 1
					case float64:
						k = 2
					case string:
						k = 3
					case time.Time:
						k = 4
					}
				}
				switch k {
				case 0:
					dst[i] = new(bool)
				case 1:
					v := int64(-987654)
					dst[i] = &v
				case 2:
					v := float64(-98.75)
					dst[i] = &v
				case 3:
					v := "~before~"
					dst[i] = &v
				case 4:
					v := mkt
					dst[i] = &v
				case 5:
					dst[i] = []interface{}{true, int64(1), 1.5, "s", mkt}[rng.Intn(5)]
				case 6:
					dst[i] = []interface{}{new(int), new(float32), nil, new(interface{}), struct{}{}, []byte("x"), new(uint16)}[rng.Intn(7)]
				default:
					v := "~before~"
					dst[i] = &v
				}
			}
			err := s.Scan(dst...)
			wantErr := args > len(row)
			badDst := false
			for i := 0; i < args; i++ {
				if wantErr {
					break
				}
				val := row[i].Value()
				good := false
				switch dst[i].(type) {
				case *bool:
					_, good = val.(bool)
				case *int64:
					_, good = val.(int64)
				case *float64:
					_, good = val.(float64)
				case *string:
					_, good = val.(string)
				case *time.Time:
					_, good = val.(time.Time)
				default:
					badDst = true
				}
				if !good {
					wantErr = true
				}
			}
			if wantErr != (err != nil) {
				return fmt.Errorf("scanning row %v gave error %v", row, err)
			}
			if badDst && !errors.Is(err, grate.ErrInvalidScanType) {
				return fmt.Errorf("scanning row %v into an unsupported destination gave error %v", row, err)
			}
			for i := 0; i < args; i++ {
				var got interface{}
				switch d := dst[i].(type) {
				case *bool:
					got = *d
				case *int64:
					got = *d
				case *float64:
					got = *d
				case *string:
					got = *d
				case *time.Time:
					got = *d
				default:
					continue
				}
				if err == nil && !vSame(got, row[i].Value()) {
					return fmt.Errorf("column %d of row %v scanned as %v", i, row, got)
				}
				if err != nil {
					untouched := got == false || got == int64(-987654) || got == float64(-98.75) || got == "~before~"
					if tt, ok := got.(time.Time); ok {
						untouched = tt.Equal(mkt)
					}
					if !untouched && (i >= len(row) || !vSame(got, row[i].Value())) {
						return fmt.Errorf("destination %d was given %v from row %v", i, got, row)
					}
				}
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
