package commonxl

import (
	"fmt"
	"testing"
	"time"
)

type vCell struct {
	set  bool
	v    interface{}
	fmt  uint16
	link string
	url  bool
}

// tables built by random operations against a plain grid
func TestVerifC18(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(15000); iter++ {
		x, ids := vFormatter(rng)
		ops := vOps(rng, 1+rng.Intn(9), ids, true)
		n++
		vGuard(t, 10*time.Second, func() string { return fmt.Sprintf("table built by %v", ops) }, func() error {
			s := &Sheet{Formatter: x}
			rows, cols := 0, 0
			grid := map[[2]int]vCell{}
			resize := func(r, c int) {
				if r < 1 {
					r = 1
				}
				if c < 1 {
					c = 1
				}
				rows, cols = r, c
				for k := range grid {
					if k[0] >= r || k[1] >= c {
						delete(grid, k)
					}
				}
			}
			for _, o := range ops {
				o.apply(s)
				k := [2]int{o.R, o.C}
				in := o.R >= 0 && o.C >= 0
				switch o.Op {
				case "Resize":
					resize(o.R, o.C)
				case "Put":
					if !in {
						break
					}
					r, c := rows, cols
					if o.R >= r {
						r = o.R + 1
					}
					if o.C >= c {
						c = o.C + 1
					}
					if r != rows || c != cols {
						resize(r, c)
					}
					grid[k] = vCell{set: true, v: o.V, fmt: o.Fmt}
					if vIsMark(o.V) {
						grid[k] = vCell{set: true, v: o.V}
					}
				case "Set":
					if in && o.R < rows && o.C < cols {
						c := grid[k]
						c.set, c.v = true, o.V
						// the number format is kept, the value is not converted
						c.url = false
						grid[k] = c
						if cell := s.Rows[o.R][o.C]; cell.FormatNo() != c.fmt {
							return fmt.Errorf("%v changed the number format to %d", o, cell.FormatNo())
						}
						pv, pt := vPlain(o.V)
						if got := s.Rows[o.R][o.C]; !vSame(got.Value(), pv) || got.Type() != pt {
							return fmt.Errorf("%v stored %v", o, got)
						}
						grid[k] = vCell{set: true, v: nil, fmt: c.fmt}
					}
				case "SetURL":
					if in && o.R < rows && o.C < cols {
						c := grid[k]
						c.link, c.url = o.V.(string), true
						grid[k] = c
					}
				}
				if s.NumRows != rows || s.NumCols != cols || len(s.Rows) != rows {
					return fmt.Errorf("after %v the table is %d x %d with %d rows, expected %d x %d", o, s.NumRows, s.NumCols, len(s.Rows), rows, cols)
				}
				for i := range s.Rows {
					if len(s.Rows[i]) != cols {
						return fmt.Errorf("after %v row %d has %d cells", o, i, len(s.Rows[i]))
					}
					for j, cell := range s.Rows[i] {
						m, ok := grid[[2]int{i, j}]
						if !ok {
							if len(cell) != 0 {
								return fmt.Errorf("after %v cell %d,%d holds %v", o, i, j, cell)
							}
							continue
						}
						if m.url {
							u, ok := cell.URL()
							if !ok || u.String() != m.link {
								return fmt.Errorf("after %v cell %d,%d has no link: %v", o, i, j, cell)
							}
						}
						if m.v == nil {
							continue
						}
						pv, pt := vPlain(m.v)
						if vIsMark(m.v) {
							pt = StaticCell
						}
						if cell.FormatNo() != m.fmt {
							return fmt.Errorf("after %v cell %d,%d has number format %d", o, i, j, cell.FormatNo())
						}
						if m.url {
							pt = HyperlinkStringCell
						}
						_, isText := m.v.(string)
						ct, known := x.getCellType(m.fmt)
						if isText || m.fmt == 0 || !known {
							if !vSame(cell.Value(), pv) || cell.Type() != pt {
								return fmt.Errorf("after %v cell %d,%d holds %v, expected %v %v", o, i, j, cell, pv, pt)
							}
						} else {
							w := NewCellWithType(m.v, ct, x)
							if !vSame(cell.Value(), w.Value()) || !m.url && cell.Type() != w.Type() {
								return fmt.Errorf("after %v cell %d,%d holds %v, expected %v", o, i, j, cell, w)
							}
						}
					}
				}
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
