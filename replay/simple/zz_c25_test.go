package simple

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate"
)

var vTexts = []string{"", "a", "1", "-2.5", "true", " padded ", "quo\"te", "co,mma", "é ü 漢字", "semi;colon", "'", "x y z", "0", "#", "\\n", "007", "NULL", "=1+1"}

func vField(rng *rand.Rand, extra string) string {
	s := vTexts[rng.Intn(len(vTexts))]
	if rng.Intn(4) == 0 {
		s += vTexts[rng.Intn(len(vTexts))]
	}
	if extra != "" && rng.Intn(8) == 0 {
		s += extra[:1+rng.Intn(len(extra))]
	}
	if rng.Intn(300) == 0 {
		s += strings.Repeat("long text ", 10+rng.Intn(3000))
	}
	return s
}

func vTable(rng *rand.Rand, extra string) [][]string {
	n := []int{0, 1, 2, 5, 11, 12, 20, 26, 30, 60, 300}[rng.Intn(11)]
	w := 1 + rng.Intn(6)
	var rows [][]string
	for i := 0; i < n; i++ {
		k := w
		if rng.Intn(10) == 0 {
			k = 1 + rng.Intn(8)
		}
		r := make([]string, k)
		for j := range r {
			r[j] = vField(rng, extra)
		}
		if len(r) == 1 && r[0] == "" {
			r[0] = "x"
		}
		rows = append(rows, r)
	}
	return rows
}

func vQuote(rng *rand.Rand, s string) string {
	if strings.ContainsAny(s, "\",\n") || strings.HasPrefix(s, " ") || rng.Intn(4) == 0 {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

// the rows delivered by a source are those given, each once and in order
func vDeliver(src grate.Source, rows [][]string) error {
	names, err := src.List()
	if err != nil || len(names) != 1 {
		return fmt.Errorf("listing %v, %v", names, err)
	}
	c, err := src.Get(names[0])
	if err != nil {
		return err
	}
	if c.IsEmpty() != (len(rows) == 0) {
		return fmt.Errorf("IsEmpty is %v with %d rows", c.IsEmpty(), len(rows))
	}
	var got [][]string
	k := 0
	for c.Next() {
		if k >= len(rows) {
			return fmt.Errorf("more rows than the %d of the file", len(rows))
		}
		for rep := 0; rep < 2; rep++ {
			g := c.Strings()
			if len(g) != len(rows[k]) {
				return fmt.Errorf("row %d has %d fields instead of %d", k, len(g), len(rows[k]))
			}
			for i := range g {
				if g[i] != rows[k][i] {
					return fmt.Errorf("row %d field %d is %q instead of %q", k, i, g[i], rows[k][i])
				}
			}
			if rep == 0 {
				got = append(got, g)
			}
		}
		ts, fs := c.Types(), c.Formats()
		if len(ts) != len(rows[k]) || len(fs) != len(rows[k]) {
			return fmt.Errorf("row %d has %d types and %d formats for %d fields", k, len(ts), len(fs), len(rows[k]))
		}
		out := make([]string, len(rows[k]))
		args := make([]interface{}, len(out))
		for i := range out {
			args[i] = &out[i]
			if want := map[bool]string{true: "blank", false: "string"}[rows[k][i] == ""]; ts[i] != want {
				return fmt.Errorf("row %d field %d has type %q instead of %q", k, i, ts[i], want)
			}
		}
		if err := c.Scan(args...); err != nil {
			return err
		}
		for i := range out {
			if out[i] != rows[k][i] {
				return fmt.Errorf("row %d field %d scans as %q instead of %q", k, i, out[i], rows[k][i])
			}
		}
		k++
	}
	if k != len(rows) {
		return fmt.Errorf("%d rows instead of %d", k, len(rows))
	}
	for j := range got { // rows delivered earlier are not overwritten by later ones
		for i := range got[j] {
			if got[j][i] != rows[j][i] {
				return fmt.Errorf("row %d field %d became %q instead of %q", j, i, got[j][i], rows[j][i])
			}
		}
	}
	if err := c.Err(); err != nil {
		return err
	}
	return nil
}

func TestVerifC25(t *testing.T) {
	rng := vRand()
	dir := t.TempDir()
	n, acc := 0, 0
	for iter := 0; iter < vScale(2500); iter++ {
		csv := iter%2 == 1
		extra := ","
		if csv {
			extra = "\t,\n"
		}
		rows := vTable(rng, extra)
		eol := "\n"
		if rng.Intn(4) == 0 {
			eol = "\r\n"
		}
		var sb strings.Builder
		for i, r := range rows {
			fs := append([]string(nil), r...)
			sep := "\t"
			if csv {
				sep = ","
				for j := range fs {
					fs[j] = vQuote(rng, fs[j])
				}
			}
			sb.WriteString(strings.Join(fs, sep))
			last := fs[len(fs)-1]
			if i < len(rows)-1 || rng.Intn(2) == 0 || strings.HasSuffix(last, "\r") {
				sb.WriteString(eol)
			}
		}
		name := filepath.Join(dir, "t.txt")
		if err := os.WriteFile(name, []byte(sb.String()), 0600); err != nil {
			t.Fatal(err)
		}
		n++
		vGuard(t, 20*time.Second, func() string {
			s := sb.String()
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			return fmt.Sprintf("csv=%v file %q", csv, s)
		}, func() error {
			open := OpenTSV
			if csv {
				open = OpenCSV
			}
			src, err := open(name)
			if err != nil {
				return nil // not accepted
			}
			acc++
			return vDeliver(src, rows)
		})
	}
	if acc < n/3 {
		t.Fatalf("COUNTEREXAMPLE only %d of %d well-formed files are accepted", acc, n)
	}
	fmt.Println("VERIF-EVALS", n)
}
