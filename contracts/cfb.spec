package xls/cfb

nonnil *xls/cfb.directory

// ---- SliceReader: a position in the concatenation of its blocks ----
// psum(D, o, k): total length of the first k blocks of the block list stored in array D from index o
ghostfunc psum(SliceArr, Int, Int) Int
// definition of psum, unfolded only where psumstep is mentioned
hintfunc psumstep(SliceArr, Int, Int) Bool
axiom psum0 (D SliceArr, o Int) {psum(D, o, 0)} psum(D, o, 0) == 0
axiom psumstep (D SliceArr, o Int, k Int) {psumstep(D, o, k)} psumstep(D, o, k) && imp(k >= 0, psum(D, o, k+1) == psum(D, o, k) + len(D[o+k]))
// cat(H, D, o, p): byte p of the concatenation; catdef unfolds it at byte i of block k
ghostfunc cat(ByteHeap, SliceArr, Int, Int) Int
hintfunc catdef(ByteHeap, SliceArr, Int, Int, Int) Bool
axiom catdef (H ByteHeap, D SliceArr, o Int, k Int, i Int) {catdef(H, D, o, k, i)}
      catdef(H, D, o, k, i) && imp(k >= 0 && i >= 0 && i < len(D[o+k]), cat(H, D, o, psum(D, o, k)+i) == H[refof(D[o+k])][off(D[o+k])+i])

define PS(s, k) = psum(arr(s.Data), off(s.Data), k)
define PSTEP(s, k) = psumstep(arr(s.Data), off(s.Data), k)
define pos(s) = PS(s, s.Index) + s.Offset
define total(s) = PS(s, len(s.Data))
// the reader's representation: inside a block (or at its end), or past the last block
define srwf(s) = s.Index <= len(s.Data) && imp(s.Index < len(s.Data), s.Offset <= len(s.Data[s.Index])) && imp(s.Index == len(s.Data), s.Offset == 0)
// the size cache is of another length (so rebuilt) or right
define csok(s) = imp(len(s.CSize) == len(s.Data), forall(k, 0, len(s.Data), s.CSize[k] == PS(s, k) && 0 <= s.CSize[k] && s.CSize[k] <= k * 1073741824))

func SliceReader.Read
requires srwf(s)
requires csok(s)
requires forall(k, 0, len(s.Data), disjoint(b, s.Data[k]))
modifies s.Index, s.Offset, b[*]
inv srwf(s) && PSTEP(s, s.Index)
inv pos(s) == old(pos(s)) && PSTEP(s, s.Index)
decreases len(s.Data) - s.Index
ensures [C03] srwf(s) && csok(s)
ensures [C03] imp(r1 == nil, PSTEP(s, s.Index-1) && PSTEP(s, s.Index) && 0 <= r0 && r0 <= len(b) && pos(s) == old(pos(s)) + r0)
ensures [C03] imp(r1 == nil, r0 > 0 || len(b) == 0)
ensures [C03] imp(r1 != nil, r0 == 0 && old(pos(s)) == total(s) && pos(s) == old(pos(s)))
ensures [C03] imp(r1 == nil, forall(i, 0, r0, catdef(old(bytes()), arr(s.Data), off(s.Data), s.Index, old(pos(s)) + i - PS(s, s.Index)) && catdef(old(bytes()), arr(s.Data), off(s.Data), s.Index-1, old(pos(s)) + i - PS(s, s.Index-1)) &&
      b[i] == cat(old(bytes()), arr(s.Data), off(s.Data), old(pos(s)) + i)))
ensures [C03] forall(i, r0, len(b), b[i] == old(b[i]))

define TARGET(s, offset, whence) = offset + ite(whence == 0, 0, ite(whence == 2, total(s), old(pos(s))))
func SliceReader.Seek
requires srwf(s)
requires csok(s)
modifies s.Index, s.Offset, s.CSize
inv PSTEP(s, done) && sz == PS(s, done) && 0 <= sz && sz <= done * 1073741824
inv forall(k, 0, done, s.CSize[k] == PS(s, k) && 0 <= s.CSize[k] && s.CSize[k] <= k * 1073741824)
inv srwf(s) && PSTEP(s, s.Index) && PSTEP(s, s.Index - 1)
inv trueOffset == pos(s)
inv s.Index < len(s.Data)
loop 2 decreases ite(trueOffset > wantOffset, len(s.Data) + s.Index + 1, len(s.Data) - s.Index)
ensures [C03] srwf(s) && csok(s)
ensures [C03] PSTEP(s, len(s.Data)-1) && imp(r1 == nil, pos(s) == TARGET(s, offset, whence) && r0 == pos(s))
ensures [C03] imp(r1 != nil, pos(s) == old(pos(s)))
ensures [C03] PSTEP(s, len(s.Data)-1) && imp(0 <= TARGET(s, offset, whence) && TARGET(s, offset, whence) <= total(s), r1 == nil)
ensures [C03] PSTEP(s, len(s.Data)-1) && imp(r1 == nil && (offset != 0 || whence != 1), 0 <= TARGET(s, offset, whence) && TARGET(s, offset, whence) <= total(s))

// ---- Document ----
// chain(F, o, s, k): k-th sector of the chain starting at sector s in the allocation table F (slice at offset o)
ghostfunc chain(IntArr, Int, Int, Int) Int
hintfunc chainstep(IntArr, Int, Int, Int) Bool
axiom chain0 (F IntArr, o Int, s Int) {chain(F, o, s, 0)} chain(F, o, s, 0) == s
axiom chainstep (F IntArr, o Int, s Int, k Int) {chainstep(F, o, s, k)}
      chainstep(F, o, s, k) && imp(k >= 0, chain(F, o, s, k+1) == F[o+chain(F, o, s, k)])

define hdrwf(h) = h != nil && (h.SectorShift == 9 || h.SectorShift == 12) && h.MiniSectorShift == 6 && h.MiniStreamCutoffSize == 4096
// a loaded document: directory entries exist only together with a valid header
define docwf(d) = imp(len(d.dir) > 0, hdrwf(d.header))
define SEC(d) = ite(d.header.SectorShift == 9, 512, 4096)
define FCH(d, s, k) = chain(arr(d.fat), off(d.fat), s, k)
define FCHSTEP(d, s, k) = chainstep(arr(d.fat), off(d.fat), s, k)
define MCH(d, s, k) = chain(arr(d.minifat), off(d.minifat), s, k)
define MCHSTEP(d, s, k) = chainstep(arr(d.minifat), off(d.minifat), s, k)
// block k of a regular stream of the given size starting at sector s
define BLK(d, b, s, k, size) = refof(b) == refof(d.data) && off(b) == off(d.data) + (1+FCH(d, s, k))*SEC(d) && len(b) == min(SEC(d), size - k*SEC(d))
define STREAM(d, D, s, size) = forall(k, 0, len(D), BLK(d, D[k], s, k, size)) && len(D)*SEC(d) >= size && (len(D)-1)*SEC(d) <= max(size-1, 0)

func Document.getStreamReader
requires hdrwf(d.header)
inv len(streamData)*SEC(d) + size == old(size)
inv FCHSTEP(d, old(sid), len(streamData)) && sid == FCH(d, old(sid), len(streamData))
inv forall(k, 0, len(streamData), BLK(d, streamData[k], old(sid), k, old(size)) && len(streamData[k]) == SEC(d))
inv fresh(streamData) && (size > 0 || len(streamData) == 0)
decreases size
ensures [C02] imp(r1 == nil, typeis(r0, *SliceReader))
ensures imp(r1 == nil, typeis(r0, *SliceReader) && fresh(r0) && as(r0, *SliceReader) != nil)
ensures [C02] imp(r1 == nil, STREAM(d, as(r0, *SliceReader).Data, old(sid), old(size)))
ensures [C02] imp(r1 == nil, as(r0, *SliceReader).Index == 0 && as(r0, *SliceReader).Offset == 0 && len(as(r0, *SliceReader).CSize) == 0)

// mini stream: block k of the mini chain lies at mini sector m = MCH(k) of the mini stream
define MBLK(d, b, s, k, size) = refof(b) == refof(d.data) && len(b) == min(64, size - k*64) &&
      off(b) == off(d.data) + (1+FCH(d, d.ministreamstart, MCH(d, s, k)*64/SEC(d)))*SEC(d) + (MCH(d, s, k)*64)%SEC(d)
define MINISTREAM(d, D, s, size) = forall(k, 0, len(D), MBLK(d, D[k], s, k, size)) && len(D)*64 >= size && (len(D)-1)*64 <= max(size-1, 0)

func Document.getMiniStreamReader
split d.header.SectorShift == 9
requires hdrwf(d.header)
inv len(streamData)*64 + size == old(size)
inv MCHSTEP(d, old(sid), len(streamData)) && sid == MCH(d, old(sid), len(streamData))
inv forall(k, 0, len(streamData), MBLK(d, streamData[k], old(sid), k, old(size)) && len(streamData[k]) == 64)
inv fresh(streamData) && (size > 0 || len(streamData) == 0)
decreases size
ensures imp(r1 == nil, typeis(r0, *SliceReader) && fresh(r0) && as(r0, *SliceReader) != nil)
ensures [C02] imp(r1 == nil, MINISTREAM(d, as(r0, *SliceReader).Data, old(sid), old(size)))
ensures [C02] imp(r1 == nil, as(r0, *SliceReader).Index == 0 && as(r0, *SliceReader).Offset == 0 && len(as(r0, *SliceReader).CSize) == 0)

func Document.readDirSector
requires d.header != nil && br != nil
modifies d.dir, d.ministreamstart, d.ministreamsize, elems(*directory), br.*

func Document.buildDirs
requires d.header != nil && (d.header.SectorShift == 9 || d.header.SectorShift == 12) && br != nil
modifies d.dir, d.ministreamstart, d.ministreamsize, elems(*directory), br.*

func Document.load
modifies d.*, elems(*directory), elems(uint32)
given len(d.dir) == 0
ensures imp(r0 == nil, hdrwf(d.header))
ensures docwf(d)

func Document.Open
requires docwf(d)
ensures [C02] imp(r1 == nil, exists(i, 0, len(d.dir), d.dir[i].ObjectType == typeStream && d.dir[i].String() == name &&
      ite(d.dir[i].StreamSize < 4096, MINISTREAM(d, as(r0, *SliceReader).Data, uint32(d.dir[i].StartingSectorLocation), d.dir[i].StreamSize), d.dir[i].StreamSize != 0 && STREAM(d, as(r0, *SliceReader).Data, uint32(d.dir[i].StartingSectorLocation), d.dir[i].StreamSize))))
ensures [C02] imp(r1 == nil, typeis(r0, *SliceReader) && as(r0, *SliceReader) != nil)
