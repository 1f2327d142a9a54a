package cfb

import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"
)

// the reader against bytes.Reader over the concatenation, for scripts of reads and seeks
func TestVerifC03(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(60000); iter++ {
		nb := rng.Intn(5)
		var blocks [][]byte
		var all []byte
		v := byte(1)
		for i := 0; i < nb; i++ {
			l := rng.Intn(4)
			if rng.Intn(8) == 0 {
				l = 64
			}
			b := make([]byte, l)
			for j := range b {
				b[j] = v
				v++
			}
			all = append(all, b...)
			blocks = append(blocks, b)
		}
		type op struct {
			read   bool
			n      int
			off    int64
			whence int
		}
		var ops []op
		for i := 0; i < 1+rng.Intn(7); i++ {
			if rng.Intn(2) == 0 {
				ops = append(ops, op{read: true, n: rng.Intn(len(all) + 2)})
			} else {
				w := rng.Intn(3)
				o := int64(rng.Intn(len(all)+3)) - 1
				if w != 0 {
					o -= int64(rng.Intn(len(all) + 2))
				}
				ops = append(ops, op{off: o, whence: w})
			}
		}
		n++
		desc := func() string {
			var l []int
			for _, b := range blocks {
				l = append(l, len(b))
			}
			return fmt.Sprintf("SliceReader over blocks of lengths %v (bytes 1,2,3,...), operations %+v", l, ops)
		}
		vGuard(t, 5*time.Second, desc, func() error {
			s := &SliceReader{Data: blocks}
			pos := 0
			for k, o := range ops {
				if o.read {
					buf := make([]byte, o.n)
					got, err := s.Read(buf)
					if err != nil {
						if err != io.EOF || pos != len(all) || got != 0 {
							return fmt.Errorf("operation %d: read at %d of %d returned %d, %v", k, pos, len(all), got, err)
						}
						continue
					}
					if o.n > 0 && got == 0 || got > o.n || pos+got > len(all) {
						return fmt.Errorf("operation %d: read at %d of %d returned %d without error", k, pos, len(all), got)
					}
					if !bytes.Equal(buf[:got], all[pos:pos+got]) {
						return fmt.Errorf("operation %d: read at %d gave % x, stored % x", k, pos, buf[:got], all[pos:pos+got])
					}
					for _, x := range buf[got:] {
						if x != 0 {
							return fmt.Errorf("operation %d: wrote behind the bytes it reported", k)
						}
					}
					pos += got
					continue
				}
				want := o.off
				switch o.whence {
				case 1:
					want += int64(pos)
				case 2:
					want += int64(len(all))
				}
				got, err := s.Seek(o.off, o.whence)
				if err != nil {
					if want >= 0 && want <= int64(len(all)) {
						return fmt.Errorf("operation %d: seek to %d of %d refused: %v", k, want, len(all), err)
					}
					continue
				}
				if want < 0 || want > int64(len(all)) || got != want {
					return fmt.Errorf("operation %d: seek to %d of %d reported %d", k, want, len(all), got)
				}
				pos = int(want)
			}
			rest, err := io.ReadAll(s)
			if err != nil || !bytes.Equal(rest, all[pos:]) {
				return fmt.Errorf("the rest read from %d is % x (%v), stored % x", pos, rest, err, all[pos:])
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
