package commonxl

import (
	"fmt"
	"testing"
	"time"
)

// iteration of random tables with row queries in random order
func TestVerifC19(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(15000); iter++ {
		x, ids := vFormatter(rng)
		ops := vOps(rng, 1+rng.Intn(9), ids, false)
		queries := make([]int, 64)
		for i := range queries {
			queries[i] = rng.Intn(8)
		}
		n++
		vGuard(t, 10*time.Second, func() string { return fmt.Sprintf("table built by %v", ops) }, func() error {
			s := &Sheet{Formatter: x}
			for _, o := range ops {
				o.apply(s)
			}
			show := func() string { return fmt.Sprintf("%d %d %v", s.NumRows, s.NumCols, s.Rows) }
			want := show()
			seen := 0
			q := 0
			for k := 0; k < 3; k++ {
				for s.Next() {
					if k > 0 {
						return fmt.Errorf("delivers more rows after the end")
					}
					if seen >= len(s.Rows) {
						return fmt.Errorf("delivers more rows than there are")
					}
					row := s.Rows[seen]
					seen++
					for e := queries[q%len(queries)]; e > 0; e-- {
						q++
						pos := s.CurRow
						switch queries[q%len(queries)] % 4 {
						case 0:
							got := s.Strings()
							if len(got) != s.NumCols {
								return fmt.Errorf("row %d: %d strings for %d columns", seen-1, len(got), s.NumCols)
							}
							for i, c := range row {
								w := ""
								if c.Type() == StaticCell {
									w = c.Value().(string)
								} else if c.Type() != BlankCell && c.Value() != nil {
									var ok bool
									if w, ok = s.Formatter.Apply(c.FormatNo(), c.Value()); !ok {
										w = fmt.Sprint(c.Value())
									}
								}
								if got[i] != w {
									return fmt.Errorf("row %d column %d: string %q of cell %v, expected %q", seen-1, i, got[i], c, w)
								}
							}
						case 1:
							got := s.Types()
							if len(got) != s.NumCols {
								return fmt.Errorf("row %d: %d types for %d columns", seen-1, len(got), s.NumCols)
							}
							for i, c := range row {
								if got[i] != c.Type().String() {
									return fmt.Errorf("row %d column %d: type %q of cell %v", seen-1, i, got[i], c)
								}
							}
						case 2:
							got := s.Formats()
							if len(got) != s.NumCols {
								return fmt.Errorf("row %d: %d formats for %d columns", seen-1, len(got), s.NumCols)
							}
							for i, c := range row {
								w, ok := builtInFormats[c.FormatNo()]
								if !ok {
									w = fmt.Sprint(c.FormatNo())
								}
								if got[i] != w {
									return fmt.Errorf("row %d column %d: format %q of cell %v", seen-1, i, got[i], c)
								}
							}
						case 3:
							got := s.Raw()
							if len(got) != s.NumCols {
								return fmt.Errorf("row %d: %d cells for %d columns", seen-1, len(got), s.NumCols)
							}
							for i, c := range row {
								if fmt.Sprint(got[i]) != fmt.Sprint(c) {
									return fmt.Errorf("row %d column %d: raw %v of cell %v", seen-1, i, got[i], c)
								}
								// what is handed out is a copy
								for l := range got[i] {
									got[i][l] = nil
								}
							}
						}
						if s.CurRow != pos || show() != want {
							return fmt.Errorf("row %d: a row query changed the table or the position", seen-1)
						}
					}
				}
			}
			if seen != s.NumRows || seen != len(s.Rows) {
				return fmt.Errorf("%d of %d rows delivered", seen, s.NumRows)
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
