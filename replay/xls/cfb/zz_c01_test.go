package cfb

import (
	"encoding/binary"
	"fmt"
	"io"
	"testing"
	"time"
)

// corrupt files: opening them and their streams ends with a result or an error
func TestVerifC01(t *testing.T) {
	rng := vRand()
	n := 0
	vals := []uint32{0, 1, 2, 3, 5, 8, 16, 64, 109, 110, 127, 128, 129, 0x7fffffff, 0x80000000, 0xfffffffa, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff, 0x7ffffffe, 0x00400000, 0x007fffff, 0x00800000}
	try := func(file []byte, desc string) {
		fn, done := vTemp(file)
		defer done()
		n++
		vGuard(t, 30*time.Second, func() string { return desc }, func() error {
			d, err := Open(fn)
			if err != nil {
				return nil
			}
			names, err := d.List()
			if err != nil {
				return nil
			}
			for _, s := range names {
				r, err := d.Open(s)
				if err == nil {
					io.Copy(io.Discard, r)
					r.Seek(0, io.SeekEnd)
					r.Seek(1, io.SeekStart)
				}
			}
			return nil
		})
	}
	// every word of the header, one at a time
	for _, shift := range []uint{9, 12} {
		base := vBuildCFB(rng, shift, vStreams(rng), 0)
		set := func(off int, v uint32, wide bool) {
			file := append([]byte(nil), base...)
			if wide {
				binary.LittleEndian.PutUint32(file[off:], v)
			} else {
				binary.LittleEndian.PutUint16(file[off:], uint16(v))
			}
			try(file, fmt.Sprintf("compound file with sector size %d (seed %d) with %#x at header offset %d (32 bit: %v)", 1<<shift, vSeed(), v, off, wide))
		}
		for off := 24; off < 80; off += 2 {
			for v := uint32(0); v < 70; v++ {
				set(off, v, false)
			}
			for _, v := range []uint32{0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x7fff, 0x8000, 0xfffe, 0xffff} {
				set(off, v, false)
			}
			if off%4 == 0 {
				for _, v := range vals {
					set(off, v, true)
				}
			}
		}
	}
	for iter := 0; iter < vScale(2500); iter++ {
		shift := uint(9)
		if rng.Intn(4) == 0 {
			shift = 12
		}
		ss := vStreams(rng)
		pad := 0
		if iter%500 == 3 {
			pad, shift = 140*128, 9
		}
		file := vBuildCFB(rng, shift, ss, pad)
		var muts []string
		for k := 0; k < 1+rng.Intn(4); k++ {
			switch rng.Intn(6) {
			case 0: // a header count or location
				off := []int{40, 44, 48, 56, 60, 64, 68, 72, 76, 80, 84, 76 + 4*rng.Intn(109)}[rng.Intn(12)]
				v := vals[rng.Intn(len(vals))]
				binary.LittleEndian.PutUint32(file[off:], v)
				muts = append(muts, fmt.Sprintf("uint32 at %d = %#x", off, v))
			case 1, 2: // any aligned word
				if len(file) < 516 {
					continue
				}
				off := 512 + 4*rng.Intn((len(file)-512)/4)
				v := vals[rng.Intn(len(vals))]
				if rng.Intn(2) == 0 {
					v = uint32(rng.Intn(len(file)>>shift + 2))
				}
				binary.LittleEndian.PutUint32(file[off:], v)
				muts = append(muts, fmt.Sprintf("uint32 at %d = %#x", off, v))
			case 3, 4: // a directory entry
				dirs := binary.LittleEndian.Uint32(file[48:])
				base := (int64(dirs) + 1) << shift
				if base+512 > int64(len(file)) {
					continue
				}
				e := int(base) + 128*rng.Intn(4)
				switch rng.Intn(4) {
				case 0:
					v := []uint16{0, 1, 2, 3, 64, 65, 66, 68, 128, 0x7ffe, 0x7fff, 0x8000, 0xfffe, 0xffff}[rng.Intn(14)]
					binary.LittleEndian.PutUint16(file[e+64:], v)
					muts = append(muts, fmt.Sprintf("entry name length at %d = %#x", e+64, v))
				case 1:
					v := vals[rng.Intn(len(vals))]
					binary.LittleEndian.PutUint32(file[e+116:], v)
					muts = append(muts, fmt.Sprintf("entry start at %d = %#x", e+116, v))
				case 2:
					v := uint64(vals[rng.Intn(len(vals))])
					if rng.Intn(3) == 0 {
						v |= uint64(vals[rng.Intn(len(vals))]) << 32
					}
					binary.LittleEndian.PutUint64(file[e+120:], v)
					muts = append(muts, fmt.Sprintf("entry size at %d = %#x", e+120, v))
				case 3:
					file[e+66] = byte(rng.Intn(7))
					muts = append(muts, fmt.Sprintf("entry type at %d = %d", e+66, file[e+66]))
				}
			case 5:
				l := rng.Intn(len(file) + 1)
				file = file[:l]
				muts = append(muts, fmt.Sprintf("cut to %d bytes", l))
			}
			if len(file) < 1024 {
				break
			}
		}
		try(file, fmt.Sprintf("compound file %d (seed %d), sector size %d, with %v", iter, vSeed(), 1<<shift, muts))
	}
	fmt.Println("VERIF-EVALS", n)
}
