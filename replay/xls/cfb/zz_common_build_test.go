package cfb

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"unicode/utf16"
)

type vStream struct {
	name string
	data []byte
}

// vBuildCFB lays out a compound file with the streams in shuffled sectors.
func vBuildCFB(rng *rand.Rand, shift uint, streams []vStream, pad int) []byte {
	sec := 1 << shift
	ents := sec / 4
	cut := 4096
	chunks := func(n, s int) int { return (n + s - 1) / s }
	// mini stream
	var mini []byte
	var minifat []uint32
	type loc struct {
		start uint32
		size  int
	}
	locs := make([]loc, len(streams))
	nm := 0
	for _, s := range streams {
		if len(s.data) < cut {
			nm += chunks(len(s.data), 64)
		}
	}
	nm += rng.Intn(3) // free mini sectors
	mini = make([]byte, nm*64)
	minifat = make([]uint32, nm)
	for i := range minifat {
		minifat[i] = secFree
	}
	mperm := rng.Perm(nm)
	if rng.Intn(3) == 0 {
		for i := range mperm {
			mperm[i] = i
		}
	}
	mi := 0
	for i, s := range streams {
		if len(s.data) >= cut {
			continue
		}
		locs[i] = loc{secEndOfChain, len(s.data)}
		n := chunks(len(s.data), 64)
		prev := -1
		for k := 0; k < n; k++ {
			m := mperm[mi]
			mi++
			copy(mini[m*64:m*64+64], s.data[k*64:])
			if prev < 0 {
				locs[i].start = uint32(m)
			} else {
				minifat[prev] = uint32(m)
			}
			prev = m
			minifat[m] = secEndOfChain
		}
	}
	// directory
	ndir := 1 + len(streams)
	dirSecs := chunks(ndir*128, sec)
	miniSecs := chunks(len(mini), sec)
	mfSecs := chunks(len(minifat)*4, sec)
	data := dirSecs + miniSecs + mfSecs
	for _, s := range streams {
		if len(s.data) >= cut {
			data += chunks(len(s.data), sec)
		}
	}
	data += rng.Intn(3) + pad // free sectors
	fatSecs, difSecs := 1, 0
	for {
		difSecs = 0
		if fatSecs > 109 {
			difSecs = chunks(fatSecs-109, ents-1)
		}
		if fatSecs*ents >= data+fatSecs+difSecs {
			break
		}
		fatSecs++
	}
	total := data + fatSecs + difSecs
	fat := make([]uint32, fatSecs*ents)
	for i := range fat {
		fat[i] = secFree
	}
	perm := rng.Perm(total)
	if rng.Intn(3) == 0 {
		for i := range perm {
			perm[i] = i
		}
	}
	next := 0
	take := func() int { next++; return perm[next-1] }
	out := make([]byte, (1+total)*sec)
	put := func(id int, b []byte) { copy(out[(1+id)*sec:(2+id)*sec], b) }
	chain := func(b []byte) uint32 {
		first, prev := secEndOfChain, -1
		for k := 0; k*sec < len(b); k++ {
			id := take()
			e := (k + 1) * sec
			if e > len(b) {
				e = len(b)
			}
			put(id, b[k*sec:e])
			if prev < 0 {
				first = uint32(id)
			} else {
				fat[prev] = uint32(id)
			}
			fat[id] = secEndOfChain
			prev = id
		}
		return first
	}
	for i, s := range streams {
		if len(s.data) >= cut {
			locs[i] = loc{chain(s.data), len(s.data)}
		}
	}
	miniStart := chain(mini)
	mf := new(bytes.Buffer)
	binary.Write(mf, binary.LittleEndian, minifat)
	for mf.Len()%sec != 0 {
		mf.Write([]byte{0xff, 0xff, 0xff, 0xff})
	}
	mfStart := chain(mf.Bytes())
	db := new(bytes.Buffer)
	ent := func(name string, t objectType, start uint32, size int) {
		d := directory{ObjectType: t, StartingSectorLocation: int32(start), StreamSize: uint64(size), LeftSiblingID: secFree, RightSiblingID: secFree, ChildID: secFree}
		u := utf16.Encode([]rune(name))
		copy(d.Name[:], u)
		d.NameByteLen = int16(2 * (len(u) + 1))
		if shift == 9 && rng.Intn(2) == 0 {
			d.StreamSize |= 0xABCD << 32 // must be ignored in version 3
		}
		binary.Write(db, binary.LittleEndian, d)
	}
	ent("Root Entry", typeRootStorage, miniStart, len(mini))
	for i, s := range streams {
		ent(s.name, typeStream, locs[i].start, locs[i].size)
	}
	for db.Len()%sec != 0 {
		db.Write(make([]byte, 128))
	}
	dirStart := chain(db.Bytes())
	next += 0
	var fatIDs []int
	for i := 0; i < fatSecs; i++ {
		id := take()
		fatIDs = append(fatIDs, id)
		fat[id] = secFAT
	}
	var difIDs []int
	for i := 0; i < difSecs; i++ {
		id := take()
		difIDs = append(difIDs, id)
		fat[id] = secDIFAT
	}
	for i, id := range fatIDs {
		b := new(bytes.Buffer)
		binary.Write(b, binary.LittleEndian, fat[i*ents:(i+1)*ents])
		put(id, b.Bytes())
	}
	h := header{Signature: 0xe11ab1a1e011cfd0, MinorVersion: 0x3e, MajorVersion: 3, ByteOrder: 0xfffe, SectorShift: uint16(shift), MiniSectorShift: 6,
		NumFATSectors: int32(fatSecs), FirstDirectorySectorLocation: dirStart, MiniStreamCutoffSize: 4096, FirstMiniFATSectorLocation: mfStart,
		NumMiniFATSectors: int32(mfSecs), FirstDIFATSectorLocation: secEndOfChain, NumDIFATSectors: int32(difSecs)}
	if shift == 12 {
		h.MajorVersion = 4
		h.NumDirectorySectors = int32(dirSecs)
	}
	for i := range h.DIFAT {
		h.DIFAT[i] = secFree
		if i < len(fatIDs) {
			h.DIFAT[i] = uint32(fatIDs[i])
		}
	}
	rest := fatIDs
	if len(rest) > 109 {
		rest = rest[109:]
	} else {
		rest = nil
	}
	for i, id := range difIDs {
		l := make([]uint32, ents)
		for j := range l {
			l[j] = secFree
		}
		for j := 0; j < ents-1 && len(rest) > 0; j++ {
			l[j] = uint32(rest[0])
			rest = rest[1:]
		}
		l[ents-1] = secEndOfChain
		if i == 0 {
			h.FirstDIFATSectorLocation = uint32(id)
		}
		if i+1 < len(difIDs) {
			l[ents-1] = uint32(difIDs[i+1])
		}
		b := new(bytes.Buffer)
		binary.Write(b, binary.LittleEndian, l)
		put(id, b.Bytes())
	}
	hb := new(bytes.Buffer)
	binary.Write(hb, binary.LittleEndian, h)
	copy(out, hb.Bytes())
	return out
}

func vTemp(b []byte) (string, func()) {
	dir, err := os.MkdirTemp("", "vcfb")
	if err != nil {
		panic(err)
	}
	fn := filepath.Join(dir, "x.bin")
	if err := os.WriteFile(fn, b, 0644); err != nil {
		panic(err)
	}
	return fn, func() { os.RemoveAll(dir) }
}

func vStreams(rng *rand.Rand) []vStream {
	var ss []vStream
	sizes := []int{0, 1, 63, 64, 65, 511, 512, 513, 4032, 4095, 4096, 4097, 4608, 8192, 9000, 20000}
	for i, n := 0, rng.Intn(7); i < n; i++ {
		b := make([]byte, sizes[rng.Intn(len(sizes))])
		if len(b) == 0 && rng.Intn(3) != 0 {
			b = make([]byte, 1+rng.Intn(5000))
		}
		rng.Read(b)
		nm := fmt.Sprintf("Stream %d", i)
		if i == 2 {
			nm = "名前…äé" + nm
		}
		if i == 3 {
			nm = "0123456789012345678901234567890"
		}
		ss = append(ss, vStream{nm, b})
	}
	return ss
}
