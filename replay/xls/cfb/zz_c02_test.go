package cfb

import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"
)

// every stream of generated compound files is delivered with its stored bytes
func TestVerifC02(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(120); iter++ {
		shift := uint(9)
		if rng.Intn(3) == 0 {
			shift = 12
		}
		pad := 0
		if iter%40 == 7 {
			pad = 140 * 128 // needs DIFAT sectors
			shift = 9
		}
		ss := vStreams(rng)
		file := vBuildCFB(rng, shift, ss, pad)
		fn, done := vTemp(file)
		desc := func() string {
			s := fmt.Sprintf("compound file %d (seed %d), sector size %d, streams:", iter, vSeed(), 1<<shift)
			for _, x := range ss {
				s += fmt.Sprintf(" %q of %d bytes,", x.name, len(x.data))
			}
			return s
		}
		vGuard(t, 20*time.Second, desc, func() error {
			d, err := Open(fn)
			if err != nil {
				return fmt.Errorf("Open: %v", err)
			}
			names, err := d.List()
			if err != nil || len(names) != len(ss) {
				return fmt.Errorf("List gave %q, %v", names, err)
			}
			for i, s := range ss {
				if names[i] != s.name {
					return fmt.Errorf("List gave %q for %q", names[i], s.name)
				}
				r, err := d.Open(s.name)
				if err != nil {
					if len(s.data) == 0 {
						continue
					}
					return fmt.Errorf("stream %q: %v", s.name, err)
				}
				got, err := io.ReadAll(r)
				if err != nil || !bytes.Equal(got, s.data) {
					k := 0
					for k < len(got) && k < len(s.data) && got[k] == s.data[k] {
						k++
					}
					return fmt.Errorf("stream %q: %d bytes (%v), stored %d, first difference at %d", s.name, len(got), err, len(s.data), k)
				}
				n++
			}
			if _, err := d.Open("no such stream"); err == nil {
				return fmt.Errorf("a stream that does not exist was opened")
			}
			return nil
		})
		done()
		// a chain cut short: an error, never short data
		for _, x := range ss {
			if len(x.data) == 0 {
				continue
			}
			d := &Document{}
			if err := d.load(bytes.NewReader(file)); err != nil {
				t.Fatalf("COUNTEREXAMPLE %s\n  load: %v", desc(), err)
			}
			for _, e := range d.dir {
				if e.ObjectType != typeStream || e.String() != x.name {
					continue
				}
				sec := uint64(1) << shift
				if e.StreamSize < 4096 {
					sec = 64
				}
				e.StreamSize = (e.StreamSize+sec-1)/sec*sec + 1
				if (e.StreamSize < 4096) != (len(x.data) < 4096) {
					continue
				}
				vGuard(t, 20*time.Second, func() string {
					return desc() + fmt.Sprintf(" with the size of %q raised to %d", x.name, e.StreamSize)
				}, func() error {
					r, err := d.Open(x.name)
					if err == nil {
						b, rerr := io.ReadAll(r)
						return fmt.Errorf("chain shorter than the size: opened, %d bytes read (%v)", len(b), rerr)
					}
					return nil
				})
				n++
			}
		}
	}
	fmt.Println("VERIF-EVALS", n)
}
