package xls

// ---- C11: compressed numbers ----
define rkint(r) = ite(r/4 >= 536870912, r/4 - 1073741824, r/4)
func RKNumber.IsInteger
ensures [C11] iff(r0, r % 4 == 2)
func RKNumber.Int
ensures [C11] imp(r % 4 == 2, r0 == rkint(int(r)))
ensures [C11] -536870912 <= r0 && r0 <= 536870911
func RKNumber.Float64
ensures [C11] imp(r % 4 == 0, r0 == math.Float64frombits(uint64(r/4) * 17179869184))
ensures [C11] imp(r % 4 == 1, r0 == math.Float64frombits(uint64(r/4) * 17179869184) / 100.0)
ensures [C11] imp(r % 4 == 2, r0 == float64(rkint(int(r))))
ensures [C11] imp(r % 4 == 3, r0 == float64(rkint(int(r))) / 100.0)

// ---- C10: strings ----
// the text of n stored characters starting at byte o of b: 8-bit or 16-bit units
define wide(f) = f % 2 == 1
func decodeShortXLUnicodeString
ghost dec = ""
loop 1 inv forall(k, 0, done, int(content[k]) == int(old(raw)[2+k]))
loop 2 inv 0 <= i && refof(raw) == refof(old(raw)) && off(raw) == off(old(raw)) + 2 + 2*i && len(raw) == len(old(raw)) - 2 - 2*i
loop 2 inv forall(k, 0, i, int(content[k]) == le16(old(raw), 2+2*k))
at call utf16.Decode assert [C10] len(a0) == int(old(raw)[0]) && forall(k, 0, len(a0), int(a0[k]) == ite(wide(int(old(raw)[1])), le16(old(raw), 2+2*k), int(old(raw)[2+k])))
at call utf16.Decode set dec = app("runestr", Seq, app("u16dec", Seq, seq(a0)))
ensures [C10] imp(r2 == nil, r0 == dec && r1 == 2 + int(raw[0]) * ite(wide(int(raw[1])), 2, 1) && r1 <= len(raw))
ensures [C10] imp(r2 != nil, len(raw) < 2 || len(raw) < 2 + int(raw[0]) * ite(wide(int(raw[1])), 2, 1))

func decodeXLUnicodeString
ghost dec = ""
loop 1 inv forall(k, 0, done, int(content[k]) == int(old(raw)[3+k]))
loop 2 inv 0 <= i && refof(raw) == refof(old(raw)) && off(raw) == off(old(raw)) + 3 + 2*i && len(raw) == len(old(raw)) - 3 - 2*i
loop 2 inv forall(k, 0, i, int(content[k]) == le16(old(raw), 3+2*k))
at call utf16.Decode assert [C10] len(a0) == le16(old(raw)) && forall(k, 0, len(a0), int(a0[k]) == ite(wide(int(old(raw)[2])), le16(old(raw), 3+2*k), int(old(raw)[3+k])))
at call utf16.Decode set dec = app("runestr", Seq, app("u16dec", Seq, seq(a0)))
ensures [C10] imp(r2 == nil, r0 == dec && r1 == 3 + le16(raw) * ite(wide(int(raw[2])), 2, 1) && r1 <= len(raw))
ensures [C10] imp(r2 != nil, len(raw) < 3 || len(raw) < 3 + le16(raw) * ite(wide(int(raw[2])), 2, 1))

// the records of a stream: never nil, content within 16 bits of length
define recswf(a) = forall(k, 0, len(a), a[k] != nil && len(a[k].Data) <= 65535)

func parseSST
requires len(recs) >= 1
requires forall(k, 0, len(recs), recs[k] != nil)
inv 0 <= i && i <= len(recs) && fresh(all) && fresh(current)
loop 2 inv i < len(recs)
loop 3 inv 0 <= j && len(buf) <= cap(buf) && i < len(recs) && (i > entry(i) || len(buf) <= entry(len(buf)))
loop 4 inv i < len(recs) && (i > entry(i) || len(buf) <= entry(len(buf)))
loop 5 inv i < len(recs) && (i > entry(i) || len(buf) <= entry(len(buf)))
// one character per step, from the record it lies in; a break is followed by a flag byte giving the width
define W(f) = ite(int(f) % 2 == 1, 2, 1)
define UNIT(b, o, f) = ite(int(f) % 2 == 1, le16(b, o), int(byteat(b, o)))
define SAMEBUF(b, a, n) = refof(b) == refof(a) && off(b) == off(a) + n && len(b) == len(a) - n
loop 3 step [C10] j == head(j) + 1 && int(slen) == head(int(slen)) && forall(k, 0, int(slen), imp(k != head(j), current[k] == head(current[k])))
loop 3 step [C10] imp(head(len(buf)) > 0, i == head(i))
loop 3 step [C10] imp(head(len(buf)) > 0, int(flags)%2 == int(head(flags))%2)
loop 3 step [C10] imp(head(len(buf)) > 0, SAMEBUF(buf, head(buf), W(head(flags))))
loop 3 step [C10] imp(head(len(buf)) > 0 && int(head(flags)) % 2 == 0, int(current[head(j)]) == head(int(buf[0])))
loop 3 step [C10] imp(head(len(buf)) > 0 && int(head(flags)) % 2 == 1, int(current[head(j)]) == head(le16(buf)))
loop 3 step [C10] imp(head(len(buf)) == 0, i == head(i) + 1 && int(flags) % 2 == int(recs[i].Data[0]) % 2 && int(current[head(j)]) == UNIT(recs[i].Data, 1, recs[i].Data[0]) && SAMEBUF(buf, recs[i].Data, 1 + W(recs[i].Data[0])))
// formatting runs and phonetic data are skipped, no byte more or less
loop 4 step [C10] ite(head(len(buf)) >= head(cRunBytes), i == head(i) && cRunBytes == 0 && SAMEBUF(buf, head(buf), head(cRunBytes)), i == head(i) + 1 && cRunBytes == head(cRunBytes) - head(len(buf)) && SAMEBUF(buf, recs[i].Data, 0))
loop 5 step [C10] ite(head(len(buf)) >= int(head(cbExtRs)), i == head(i) && cbExtRs == 0 && SAMEBUF(buf, head(buf), int(head(cbExtRs))), i == head(i) + 1 && int(cbExtRs) == int(head(cbExtRs)) - head(len(buf)) && SAMEBUF(buf, recs[i].Data, 0))
at call utf16.Decode assert [C10] len(a0) == int(slen) && sameslice(a0, current)
loop 2 step [C10] len(all) == head(len(all)) + 1 && forall(k, 0, head(len(all)), all[k] == head(all[k]))
loop 2 step [C10] int(slen) == le16(head(buf))
loop 1 decreases len(recs) - i
loop 2 decreases len(recs) - i, len(buf)
loop 4 decreases len(recs) - i, cRunBytes
loop 5 decreases len(recs) - i, cbExtRs

func WorkBook.nextRecord
requires true
ensures [C09] imp(r2 == nil, r0 != nil && r1 == 4 + le16(raw, 2) && r1 <= len(raw) && int(r0.RecType) == le16(raw, 0) && int(r0.RecSize) == le16(raw, 2))
ensures [C09] imp(r2 == nil, len(r0.Data) == le16(raw, 2) && refof(r0.Data) == refof(raw) && off(r0.Data) == off(raw) + 4)
ensures [C09] imp(r2 != nil, len(raw) < 4 || len(raw) < 4 + le16(raw, 2))
ensures [C09] imp(r2 == nil, fresh(r0))
