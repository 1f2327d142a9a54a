package xls

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
	"testing"
	"time"
)

func vKeystream(password string, salt []byte, n int) []byte {
	var p []byte
	for _, c := range []byte(password) {
		p = append(p, c, 0)
	}
	h := md5.Sum(p)
	var all []byte
	for i := 0; i < 16; i++ {
		all = append(append(all, h[:5]...), salt...)
	}
	d := md5.Sum(all)
	var out []byte
	for b := uint32(0); len(out) < n; b++ {
		k := append([]byte{}, d[:5]...)
		k = binary.LittleEndian.AppendUint32(k, b)
		m := md5.Sum(k)
		c, _ := rc4.NewCipher(m[:])
		blk := make([]byte, 1024)
		c.XORKeyStream(blk, blk)
		out = append(out, blk...)
	}
	return out[:n]
}

type v8rec struct {
	typ  uint16
	data []byte
}

// vClear: the types of records that are not encrypted
var vClear = map[uint16]bool{0x0809: true, 0x002F: true, 0x0194: true, 0x0195: true, 0x00E1: true, 0x0196: true, 0x0138: true}

// an encrypted workbook stream is the plain one: record headers and the records kept in the
// clear are taken as they are, the rest is decrypted by its position in the stream
func TestVerifC08(t *testing.T) {
	rng := vRand()
	n := 0
	types := []uint16{0x0809, 0x000A, 0x0085, 0x0085, 0x00E1, 0x0194, 0x0195, 0x0196, 0x0138, 0x0139, 0x1234, 0x0203, 0x00FD}
	for iter := 0; iter < vScale(1500); iter++ {
		salt := make([]byte, 16)
		verifier := make([]byte, 16)
		rng.Read(salt)
		rng.Read(verifier)
		ks32 := vKeystream("VelvetSweatshop", salt, 32)
		vh := md5.Sum(verifier)
		fp := append([]byte{1, 0, 1, 0, 1, 0}, salt...)
		enc := append(append([]byte{}, verifier...), vh[:]...)
		for i := range enc {
			enc[i] ^= ks32[i]
		}
		fp = append(fp, enc...)
		bof := []byte{0, 6, 5, 0, 1, 2, 0xcc, 7, 0, 0, 0, 0, 0, 0, 0, 0}
		rs := []v8rec{{0x0809, bof}, {0x002F, fp}}
		for i, k := 0, rng.Intn(25); i < k; i++ {
			ty := types[rng.Intn(len(types))]
			l := rng.Intn(60)
			switch rng.Intn(15) {
			case 0:
				l = rng.Intn(5)
			case 1:
				l = 900 + rng.Intn(4000)
			case 2:
				l = 65535 - rng.Intn(20)
			}
			d := make([]byte, l)
			rng.Read(d)
			if ty == 0x0809 {
				d = append([]byte{}, bof...)
			}
			rs = append(rs, v8rec{ty, d})
		}
		// the stream as it is stored
		var raw []byte
		for _, r := range rs {
			raw = binary.LittleEndian.AppendUint16(raw, r.typ)
			raw = binary.LittleEndian.AppendUint16(raw, uint16(len(r.data)))
			raw = append(raw, r.data...)
		}
		ks := vKeystream("VelvetSweatshop", salt, len(raw))
		pos := 0
		for _, r := range rs {
			pos += 4
			for i := range r.data {
				open := vClear[r.typ] || (r.typ == 0x0085 && i < 4)
				if !open {
					raw[pos+i] ^= ks[pos+i]
				}
			}
			pos += len(r.data)
		}
		n++
		vGuard(t, 20*time.Second, func() string {
			s := "encrypted records"
			for _, r := range rs {
				s += fmt.Sprintf(" %#x:%d", r.typ, len(r.data))
			}
			return s
		}, func() error {
			b := &WorkBook{pos2substream: map[int64]int{}}
			b.loadFromStream(raw) // errors concern the random contents of the records
			k := 0
			for _, sub := range b.substreams {
				for _, g := range sub {
					if k >= len(rs) || uint16(g.RecType) != rs[k].typ || !bytes.Equal(g.Data, rs[k].data) {
						return fmt.Errorf("record %d is not the plain one", k)
					}
					k++
				}
			}
			if k != len(rs) {
				return fmt.Errorf("%d records instead of %d", k, len(rs))
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
