package commonxl

import (
	"fmt"
	"math"
	"testing"
	"time"
)

// all pairs of cells of a varied pool
func TestVerifC26(t *testing.T) {
	rng := vRand()
	var pool []Cell
	for i := 0; i < 900; i++ {
		v := vValue(rng)
		c := NewCell(v)
		if rng.Intn(3) == 0 {
			c = NewCellWithType(v, CellType(rng.Intn(6)), &Formatter{})
		}
		if rng.Intn(4) == 0 {
			c.SetFormatNumber(uint16(rng.Intn(50)))
		}
		if rng.Intn(8) == 0 {
			c.SetURL("http://example.com")
		}
		pool = append(pool, c)
	}
	for _, v := range []interface{}{math.NaN(), math.Inf(1), math.Inf(-1), int64(math.MaxInt64), int64(math.MinInt64), float64(1 << 53), int64(1<<53 + 1), int64(1<<53 - 1), "9007199254740993", "1x", "1.9", "-1.9", "2.0", int64(1), int64(2), 1.9, 2.0, true, false, "true", "false", "0", "yes", time.Unix(0, 0).UTC(), time.Unix(1, 0).UTC(), "1970-01-01 00:00:00 +0000 UTC", "2", "10"} {
		pool = append(pool, NewCell(v))
	}
	pool = append(pool, Cell{}, Cell{nil, BlankCell})
	n := 0
	nan := func(c Cell) bool {
		if len(c) == 0 {
			return false
		}
		switch x := c[0].(type) {
		case float64:
			return x != x
		case string:
			return true
		}
		return false
	}
	for i, a := range pool {
		for j, b := range pool {
			if j < i {
				continue
			}
			n++
			e1, e2 := a.Equal(b), b.Equal(a)
			if e1 != e2 {
				t.Fatalf("COUNTEREXAMPLE %v equal to %v: %v, the other way round: %v", a, b, e1, e2)
			}
			if a.Less(b) && b.Less(a) {
				t.Fatalf("COUNTEREXAMPLE %v and %v are each less than the other", a, b)
			}
			if i == j && !e1 && !nan(a) {
				t.Fatalf("COUNTEREXAMPLE %v is not equal to itself", a)
			}
			if i == j && a.Less(a) {
				t.Fatalf("COUNTEREXAMPLE %v is less than itself", a)
			}
		}
	}
	fmt.Println("VERIF-EVALS", n)
}
