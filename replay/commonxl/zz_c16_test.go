package commonxl

import (
	"fmt"
	"math"
	"strconv"
	"testing"
	"time"
)

// the cells made from values of every type for every cell type and number format
func TestVerifC16(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(60000); iter++ {
		v := vValue(rng)
		ct := CellType(rng.Intn(6))
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("NewCellWithType(%T %#v, %v)", v, v, ct) }, func() error {
			c := NewCellWithType(v, ct, &Formatter{})
			if err := vKind(c); err != nil {
				return err
			}
			pv, pt := vPlain(v)
			got := c.Value()
			if c.Type() == pt || c.Type() == StaticCell {
				if !vSame(got, pv) {
					return fmt.Errorf("the value became %#v", got)
				}
				// not converted: is there a conversion?
				if pt == StringCell && ct == IntegerCell {
					if _, err := strconv.ParseInt(pv.(string), 10, 64); err == nil {
						return fmt.Errorf("was not converted")
					}
				}
				return nil
			}
			if c.Type() != ct {
				return fmt.Errorf("gave a %v cell", c.Type())
			}
			// converted: the same number, truth or text
			switch x := got.(type) {
			case int64:
				switch p := pv.(type) {
				case bool:
					if (x == 1) != p || x != 0 && x != 1 {
						return fmt.Errorf("the value became %#v", got)
					}
				case float64:
					if math.Abs(p) < 1e15 && x != int64(p) {
						return fmt.Errorf("the value became %#v", got)
					}
				case string:
					if w, err := strconv.ParseInt(p, 10, 64); err != nil || w != x {
						return fmt.Errorf("the value became %#v", got)
					}
				}
			case float64:
				switch p := pv.(type) {
				case bool:
					if (x == 1) != p || x != 0 && x != 1 {
						return fmt.Errorf("the value became %#v", got)
					}
				case int64:
					if x != float64(p) {
						return fmt.Errorf("the value became %#v", got)
					}
				case string:
					if w, err := strconv.ParseFloat(p, 64); err != nil || !vSame(w, x) {
						return fmt.Errorf("the value became %#v", got)
					}
				}
			case bool:
				switch p := pv.(type) {
				case int64:
					if x != (p != 0) {
						return fmt.Errorf("the value became %#v", got)
					}
				case float64:
					if x != (p != 0) {
						return fmt.Errorf("the value became %#v", got)
					}
				}
			}
			return nil
		})
	}
	for iter := 0; iter < vScale(8000); iter++ {
		x, ids := vFormatter(rng)
		ops := vOps(rng, 1+rng.Intn(6), ids, true)
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("table built by %v", ops) }, func() error {
			s := &Sheet{Formatter: x}
			for _, o := range ops {
				o.apply(s)
			}
			for s.Next() {
				ty := s.Types()
				for i, c := range s.Raw() {
					if err := vKind(c); err != nil {
						return fmt.Errorf("row %d column %d: %v", s.CurRow-1, i, err)
					}
					if ty[i] != c.Type().String() {
						return fmt.Errorf("row %d column %d: type %q of a %v cell", s.CurRow-1, i, ty[i], c.Type())
					}
				}
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
