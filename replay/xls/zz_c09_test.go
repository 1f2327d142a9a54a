package xls

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"testing"
	"time"
)

type vRec struct {
	typ  uint16
	data []byte
}

// record types that the workbook reader takes apart (SST, formats, sheets ...) and others
var vTypes = []uint16{0x0809, 0x0809, 0x000A, 0x000A, 0x00FC, 0x003C, 0x041E, 0x00E0, 0x0085, 0x0042, 0x0022, 0x0201, 0x027E, 0x0203, 0x0006, 0x00FD, 0x1234, 0xFFFF, 0x0000, 0x00E1, 0x0194}

func vRecords(rng *rand.Rand) []vRec {
	var rs []vRec
	n := 1 + rng.Intn(40)
	for i := 0; i < n; i++ {
		t := vTypes[rng.Intn(len(vTypes))]
		if i == 0 && rng.Intn(20) > 0 {
			t = 0x0809
		}
		l := rng.Intn(40)
		switch rng.Intn(25) {
		case 0:
			l = 0
		case 1:
			l = 1000 + rng.Intn(3000)
		case 2:
			l = 65535 - rng.Intn(6)
		}
		d := make([]byte, l)
		rng.Read(d)
		if t == 0x0809 && l >= 16 {
			copy(d, []byte{0, 6, 5, 0, 1, 2, 0xcc, 7})
		}
		rs = append(rs, vRec{t, d})
	}
	return rs
}

func vEncode(rs []vRec) []byte {
	var b bytes.Buffer
	for _, r := range rs {
		binary.Write(&b, binary.LittleEndian, r.typ)
		binary.Write(&b, binary.LittleEndian, uint16(len(r.data)))
		b.Write(r.data)
	}
	return b.Bytes()
}

// vSplit: the substreams of records and the positions at which they begin
func vSplit(rs []vRec) (subs [][]vRec, at map[int64]int, ok bool) {
	at = map[int64]int{}
	pos := int64(0)
	depth := 0
	for _, r := range rs {
		if r.typ == 0x0809 {
			if depth == 0 {
				at[pos] = len(subs)
				subs = append(subs, nil)
			}
			depth++
		}
		if len(subs) == 0 {
			return nil, nil, false
		}
		if r.typ == 0x000A && depth > 0 {
			depth--
		}
		subs[len(subs)-1] = append(subs[len(subs)-1], r)
		pos += 4 + int64(len(r.data))
	}
	return subs, at, true
}

func vCompare(b *WorkBook, subs [][]vRec, at map[int64]int) error {
	if len(b.substreams) != len(subs) {
		return fmt.Errorf("%d substreams instead of %d", len(b.substreams), len(subs))
	}
	for s := range subs {
		if len(b.substreams[s]) != len(subs[s]) {
			return fmt.Errorf("substream %d has %d records instead of %d", s, len(b.substreams[s]), len(subs[s]))
		}
		for k, w := range subs[s] {
			g := b.substreams[s][k]
			if uint16(g.RecType) != w.typ || int(g.RecSize) != len(w.data) || !bytes.Equal(g.Data, w.data) {
				return fmt.Errorf("record %d of substream %d: type %#x size %d instead of type %#x size %d, or other content", k, s, uint16(g.RecType), g.RecSize, w.typ, len(w.data))
			}
		}
	}
	if len(b.pos2substream) != len(at) {
		return fmt.Errorf("substream positions %v instead of %v", b.pos2substream, at)
	}
	for p, s := range at {
		if g, ok := b.pos2substream[p]; !ok || g != s {
			return fmt.Errorf("substream positions %v instead of %v", b.pos2substream, at)
		}
	}
	return nil
}

// a stream is divided into exactly its records, each in the substream that encloses it
func TestVerifC09(t *testing.T) {
	rng := vRand()
	n := 0
	b := &WorkBook{pos2substream: map[int64]int{}}
	for iter := 0; iter < vScale(4000); iter++ {
		rs := vRecords(rng)
		raw := vEncode(rs)
		keep := append([]byte(nil), raw...)
		subs, at, ok := vSplit(rs)
		cut := 0
		if rng.Intn(8) == 0 { // the last record is incomplete
			if l := len(rs[len(rs)-1].data); l > 0 {
				cut = 1 + rng.Intn(l)
			}
		}
		if rng.Intn(3) > 0 { // a workbook that is used again keeps nothing of earlier streams
			b = &WorkBook{pos2substream: map[int64]int{}}
		}
		n++
		vGuard(t, 20*time.Second, func() string {
			s := "records"
			for _, r := range rs {
				s += fmt.Sprintf(" %#x:%d", r.typ, len(r.data))
			}
			return fmt.Sprintf("%s, last %d bytes missing", s, cut)
		}, func() error {
			err := b.loadFromStream(raw[:len(raw)-cut])
			if !ok || cut > 0 {
				if err == nil {
					return fmt.Errorf("opened without an error")
				}
				return nil
			}
			if !bytes.Equal(raw, keep) {
				return fmt.Errorf("the stream was changed")
			}
			return vCompare(b, subs, at)
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
