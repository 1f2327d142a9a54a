package xls

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"testing"
	"time"
	"unicode/utf16"
)

type vStr struct {
	u     []uint16
	wide  bool
	runs  int // formatting runs, -1: no run count stored
	ext   int // phonetic bytes, -1: none stored
	extra string
}

func vText(u []uint16) string { return string(utf16.Decode(u)) }

func vUnits(rng *rand.Rand) ([]uint16, bool) {
	n := rng.Intn(12)
	if rng.Intn(10) == 0 {
		n = 200 + rng.Intn(60)
	}
	wide := rng.Intn(2) == 0
	u := make([]uint16, n)
	for i := range u {
		switch {
		case !wide:
			u[i] = uint16(rng.Intn(256))
		case rng.Intn(4) == 0 && i > 0 && u[i-1] != 0xd83d:
			u[i] = 0xd83d
		case i > 0 && u[i-1] == 0xd83d:
			u[i] = 0xde00 + uint16(rng.Intn(64))
		default:
			u[i] = uint16(rng.Intn(0xd7ff))
		}
	}
	return u, wide
}

func vPut(b []byte, u uint16, wide bool) []byte {
	if wide {
		return append(b, byte(u), byte(u>>8))
	}
	return append(b, byte(u))
}

// vSST writes the strings as a shared string table, with record breaks at random places the format allows
func vSST(rng *rand.Rand, strs []vStr, breaks int) ([]*rec, []string) {
	var recs []*rec
	var log []string
	cur := make([]byte, 8)
	binary.LittleEndian.PutUint32(cur, uint32(len(strs)))
	binary.LittleEndian.PutUint32(cur[4:], uint32(len(strs)))
	typ := RecTypeSST
	split := func(what string, i int) {
		recs = append(recs, &rec{RecType: typ, RecSize: uint16(len(cur)), Data: cur})
		typ = RecTypeContinue
		cur = nil
		log = append(log, fmt.Sprintf("break in %s of string %d", what, i))
	}
	for i, s := range strs {
		if i > 0 && breaks > 0 && rng.Intn(breaks) == 0 {
			split("the start", i)
		}
		flags := byte(0)
		if s.wide {
			flags |= 1
		}
		if s.ext >= 0 {
			flags |= 4
		}
		if s.runs >= 0 {
			flags |= 8
		}
		cur = append(cur, byte(len(s.u)), byte(len(s.u)>>8), flags)
		if s.runs >= 0 {
			cur = append(cur, byte(s.runs), byte(s.runs>>8))
		}
		if s.ext >= 0 {
			cur = append(cur, byte(s.ext), byte(s.ext>>8), 0, 0)
		}
		wide := s.wide
		for j, u := range s.u {
			if breaks > 0 && rng.Intn(breaks) == 0 {
				split(fmt.Sprintf("character %d", j), i)
				narrow := true
				for _, v := range s.u[j:] {
					narrow = narrow && v < 256
				}
				wide = !narrow || rng.Intn(2) == 0
				f := byte(0)
				if wide {
					f = 1
				}
				cur = append(cur, f)
			}
			cur = vPut(cur, u, wide)
		}
		rest := 0
		if s.runs > 0 {
			rest += 4 * s.runs
		}
		if s.ext > 0 {
			rest += s.ext
		}
		for j := 0; j < rest; j++ {
			if breaks > 0 && rng.Intn(3*breaks) == 0 && len(cur) > 0 {
				split(fmt.Sprintf("trailing byte %d", j), i)
			}
			cur = append(cur, byte(rng.Intn(256)))
		}
	}
	recs = append(recs, &rec{RecType: typ, RecSize: uint16(len(cur)), Data: cur})
	return recs, log
}

func TestVerifC10(t *testing.T) {
	rng := vRand()
	n := 0
	// strings read one by one from a stream, with formatting runs and phonetic data
	for iter := 0; iter < vScale(4000); iter++ {
		var b []byte
		var want []string
		for k := 1 + rng.Intn(4); k > 0; k-- {
			u, wide := vUnits(rng)
			f := byte(0)
			if wide {
				f = 1
			}
			runs, ext := rng.Intn(4)-1, rng.Intn(12)-3
			b = append(b, byte(len(u)), byte(len(u)>>8))
			if runs >= 0 {
				f |= 8
			}
			if ext >= 0 {
				f |= 4
			}
			b = append(b, f)
			if runs >= 0 {
				b = append(b, byte(runs), 0)
			}
			if ext >= 0 {
				b = append(b, byte(ext), 0, 0, 0)
			}
			for _, c := range u {
				b = vPut(b, c, wide)
			}
			for j := 0; j < 4*runs; j++ {
				b = append(b, byte(rng.Intn(256)))
			}
			for j := 0; j < ext; j++ {
				b = append(b, byte(rng.Intn(256)))
			}
			want = append(want, vText(u))
		}
		n++
		vGuard(t, 5*time.Second, func() string { return fmt.Sprintf("strings % x one after the other", b) }, func() error {
			r := bytes.NewReader(b)
			for k, w := range want {
				g, err := decodeXLUnicodeRichExtendedString(r)
				if err != nil || g != w {
					return fmt.Errorf("string %d is %q, %v instead of %q", k, g, err, w)
				}
			}
			if r.Len() != 0 {
				return fmt.Errorf("%d bytes are left after the last string", r.Len())
			}
			return nil
		})
	}
	for iter := 0; iter < vScale(30000); iter++ {
		u, wide := vUnits(rng)
		for _, long := range []bool{false, true} {
			if !long && len(u) > 255 {
				continue
			}
			b := []byte{byte(len(u))}
			if long {
				b = append(b, byte(len(u)>>8))
			}
			// reserved bits of the flag byte mean nothing here
			f := byte(rng.Intn(128)) * 2
			if wide {
				f |= 1
			}
			b = append(b, f)
			for _, c := range u {
				b = vPut(b, c, wide)
			}
			end := len(b)
			tail := rng.Intn(4)
			b = append(b, []byte{0x41, 0x42, 0x43, 0x44}[:tail]...)
			cutAt := -1
			if rng.Intn(3) == 0 {
				cutAt = rng.Intn(end)
				b = b[:cutAt]
			}
			n++
			desc := func() string {
				return fmt.Sprintf("string % x (long %v, cut %v, %d bytes follow)", b, long, cutAt >= 0, tail)
			}
			vGuard(t, 5*time.Second, desc, func() error {
				dec := decodeShortXLUnicodeString
				if long {
					dec = decodeXLUnicodeString
				}
				s, k, err := dec(b)
				if cutAt >= 0 {
					if err == nil {
						return fmt.Errorf("a truncated string is decoded to %q", s)
					}
					return nil
				}
				if err != nil {
					return err
				}
				if s != vText(u) {
					return fmt.Errorf("decoded to %q, stored was %q", s, vText(u))
				}
				if k != end {
					return fmt.Errorf("end reported at %d, it is at %d", k, end)
				}
				return nil
			})
		}
	}
	for iter := 0; iter < vScale(20000); iter++ {
		var strs []vStr
		for i := 0; i < 1+rng.Intn(6); i++ {
			s := vStr{runs: -1, ext: -1}
			s.u, s.wide = vUnits(rng)
			if rng.Intn(3) == 0 {
				s.runs = rng.Intn(4)
			}
			if rng.Intn(3) == 0 {
				s.ext = rng.Intn(12)
			}
			strs = append(strs, s)
		}
		breaks := []int{0, 3, 10, 40}[rng.Intn(4)]
		recs, log := vSST(rng, strs, breaks)
		n++
		desc := func() string {
			var l []string
			for _, s := range strs {
				l = append(l, fmt.Sprintf("{%q wide %v runs %d phonetic %d}", vText(s.u), s.wide, s.runs, s.ext))
			}
			var d []string
			for _, r := range recs {
				d = append(d, fmt.Sprintf("% x", r.Data))
			}
			return fmt.Sprintf("shared string table of %v, %v\n  records %v", l, log, d)
		}
		vGuard(t, 5*time.Second, desc, func() error {
			got, err := parseSST(recs)
			if err != nil {
				return err
			}
			if len(got) != len(strs) {
				return fmt.Errorf("%d strings decoded, %d are stored", len(got), len(strs))
			}
			for i, s := range strs {
				if got[i] != vText(s.u) {
					return fmt.Errorf("string %d decoded to %q, stored was %q", i, got[i], vText(s.u))
				}
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
