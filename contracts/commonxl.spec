package commonxl

// every format function is called with a formatter
functype FmtFunc
requires p0 != nil

// ---- cells ----
define isnum(v) = typeis(v, int64) || typeis(v, float64)
// the values cells hold
define vtype(v) = v == nil || isnum(v) || typeis(v, bool) || typeis(v, string) || typeis(v, time.Time)
// the value carried matches the type announced
define kind(v, t) = t <= StaticCell && imp(t == BlankCell, v == nil) && imp(t == IntegerCell, typeis(v, int64)) && imp(t == FloatCell, typeis(v, float64)) &&
      imp(t == StringCell || t == StaticCell, typeis(v, string)) && imp(t == BooleanCell, typeis(v, bool)) && imp(t == DateCell, typeis(v, time.Time))
define cellwf(c) = len(c) == 0 || len(c) >= 2 && typeis(c[1], CellType) && vtype(c[0]) && kind(c[0], as(c[1], CellType)) && imp(len(c) >= 3, typeis(c[2], uint16)) && imp(len(c) >= 4, typeis(c[3], string))
// the values cells can be made of
define isint(v) = typeis(v, int) || typeis(v, int8) || typeis(v, int16) || typeis(v, int32) || typeis(v, int64) || typeis(v, uint) || typeis(v, uint8) || typeis(v, uint16) || typeis(v, uint32) || typeis(v, uint64)
define istext(v) = typeis(v, string) || typeis(v, []byte) || typeis(v, []uint16) || typeis(v, []rune)
define valok(v) = isint(v) || istext(v) || typeis(v, bool) || typeis(v, float32) || typeis(v, float64) || typeis(v, time.Time)

func NewCell
requires valok(value)
ensures [C16,C18,C17] len(r0) == 2 && fresh(r0) && cellwf(r0)
ensures [C07] len(r0) == 2 && fresh(r0) && cellwf(r0)
ensures imp(typeis(value, string) && len(as(value, string)) > 0, r0[0] == value && as(r0[1], CellType) == StringCell)
ensures imp(typeis(value, string) && len(as(value, string)) == 0, r0[0] == nil && as(r0[1], CellType) == BlankCell)
ensures imp(typeis(value, bool), r0[0] == value && as(r0[1], CellType) == BooleanCell)
ensures imp(typeis(value, int64), r0[0] == value && as(r0[1], CellType) == IntegerCell)
ensures imp(typeis(value, float64), r0[0] == value && as(r0[1], CellType) == FloatCell)
ensures imp(typeis(value, time.Time), typeis(r0[0], time.Time) && as(r0[0], time.Time) == as(value, time.Time) && as(r0[1], CellType) == DateCell)

// the text Go's fmt gives a value
func NewCellWithType
requires f != nil && valok(value) && t <= StaticCell
ensures [C16,C18,C17,C07] len(r0) == 2 && fresh(r0) && cellwf(r0)
ensures [C16,C18] imp(typeis(value, float64) && t == FloatCell || typeis(value, int64) && t == IntegerCell, r0[0] == value)
ensures [C16,C18] imp(typeis(value, bool), imp(t == BlankCell || t == BooleanCell || t == DateCell, r0[0] == value))
ensures [C16,C18] imp(t == IntegerCell && typeis(value, bool), as(r0[0], int64) == ite(as(value, bool), 1, 0))

func Cell.Value
inline
func Cell.Type
requires cellwf(c)
ensures r0 == ite(len(c) == 0, BlankCell, as(c[1], CellType))
func Cell.FormatNo
requires cellwf(c)
ensures r0 == ite(len(c) >= 3, as(c[2], uint16), 0)
func Cell.URL
requires cellwf(c)
ensures imp(r1, len(c) >= 4 && as(c[1], CellType) == HyperlinkStringCell)
func Cell.Clone
requires cellwf(c)
contract
inv forall(k, 0, done, c2[k] == c[k])
ensures fresh(r0) && len(r0) == len(c) && forall(i, 0, len(c), r0[i] == c[i])
func Cell.SetFormatNumber
requires cellwf(*c)
modifies *c, (*c)[*]
ensures cellwf(*c)
ensures fresh(*c) || refof(*c) == old(refof(*c)) && old(len(*c)) > 0
ensures [C16,C17,C18] len(*c) >= 2 && imp(old(len(*c)) >= 2, (*c)[0] == old((*c)[0]) && (*c)[1] == old((*c)[1]))
ensures [C18] imp(f != 0, len(*c) >= 3 && as((*c)[2], uint16) == f)
func Cell.SetURL
requires cellwf(*c)
modifies *c, (*c)[*]
ensures cellwf(*c)
ensures fresh(*c) || refof(*c) == old(refof(*c)) && old(len(*c)) > 0
ensures [C16] imp(old(len(*c)) >= 2, (*c)[0] == old((*c)[0]))
ensures [C16,C17,C18] imp(old(len(*c)) >= 3, (*c)[2] == old((*c)[2]))
ensures len(*c) >= 4 && as((*c)[1], CellType) == HyperlinkStringCell && as((*c)[3], string) == link

func Cell.Less
cases len(c) == 0, c[0] == nil, typeis(c[0], int64), typeis(c[0], float64), typeis(c[0], bool), typeis(c[0], string)
cases len(other) == 0, other[0] == nil, typeis(other[0], int64), typeis(other[0], float64), typeis(other[0], bool), typeis(other[0], string)
requires cellwf(c) && cellwf(other)
contract
purecall
ensures [C26] imp(r0, !other.Less(c))
define numeric(c) = len(c) > 0 && (as(c[1], CellType) == IntegerCell || as(c[1], CellType) == FloatCell)
func Cell.Equal
merge 500
retmerge 500
requires cellwf(c) && cellwf(other)
contract
ensures [C26] imp(numeric(c) || numeric(other), r0 == other.Equal(c))
// a form symmetric in the two cells
ensures [C26] imp(!numeric(c) && !numeric(other), r0 == (c.Less(other) == other.Less(c)))

// ---- format functions ----
define digit(c) = '0' <= c && c <= '9'
// s[a:b] is the first run of digits of s
define digitrun(s, a, b) = a < b && forall(k, 0, a, !digit(s[k])) && forall(k, a, b, digit(s[k])) && imp(b < len(s), !digit(s[b]))
// r is s with n commas: one before each group of three digits counted from the end of s[a:b], and nothing else changed
define grouped(r, s, a, b, n) = len(r) == len(s) + n && forall(k, 0, b - 3*n, r[k] == s[k]) && forall(k, b - 3*n, b + n, r[k] == ite((k - (b - 3*n)) % 4 == 0, ',', s[k - (k - (b - 3*n)) / 4 - 1])) && forall(k, b + n, len(r), r[k] == s[k - n])
func staticFmtFunc
contract
ensures r0 != nil
func surround
requires ff != nil
contract
ensures r0 != nil
func surround$1
captures ff != nil
contract
func addNegParens
requires ff != nil
contract
ensures r0 != nil
func addNegParens$1
captures ff != nil
contract
ensures [C21] imp(len(ff(x, v)) > 0 && ff(x, v)[0] == '-', len(r0) == len(ff(x, v)) + 1 && r0[0] == '(' && r0[len(r0)-1] == ')' && forall(k, 1, len(r0)-1, r0[k] == ff(x, v)[k]))
ensures [C21] imp(len(ff(x, v)) == 0 || ff(x, v)[0] != '-', r0 == ff(x, v))
func addCommas
requires ff != nil
contract
ensures r0 != nil
func addCommas$1
captures ff != nil
contract
loop 1 inv startIndex <= endIndex && endIndex <= len(s1) && forall(k, startIndex, endIndex, digit(s1[k]))
loop 2 inv startIndex <= endIndex && endIndex <= entry(endIndex) && entry(endIndex) <= len(ff(x, v)) && (entry(endIndex) - endIndex) % 3 == 0
loop 2 inv len(s1) == len(ff(x, v)) + (entry(endIndex) - endIndex) / 3 && imp(endIndex < entry(endIndex), startIndex < endIndex)
loop 2 inv forall(k, 0, endIndex, s1[k] == ff(x, v)[k])
loop 2 inv forall(k, endIndex, entry(endIndex) + (entry(endIndex) - endIndex) / 3, s1[k] == ite((k - endIndex) % 4 == 0, ',', ff(x, v)[k - (k - endIndex) / 4 - 1]))
loop 2 inv forall(k, entry(endIndex) + (entry(endIndex) - endIndex) / 3, len(s1), s1[k] == ff(x, v)[k - (entry(endIndex) - endIndex) / 3])
ensures [C21] imp(forall(k, 0, len(ff(x, v)), !digit(ff(x, v)[k])), r0 == ff(x, v))
ensures [C21] forall(a, 0, len(ff(x, v)), forall(b, a, len(ff(x, v)) + 1, imp(digitrun(ff(x, v), a, b), grouped(r0, ff(x, v), a, b, (b - a - 1) / 3))))
func sprintfFunc
contract
ensures r0 != nil
func zeroDashFunc
requires ff != nil
contract
ensures r0 != nil
func zeroDashFunc$1
captures ff != nil
contract
func fracFmtFunc
requires 1 <= n && n <= 15
contract
ensures r0 != nil
func switchFmtFunc
requires pos != nil && forall(i, 0, len(others), others[i] != nil)
contract
ensures r0 != nil
func switchFmtFunc$1
captures pos != nil && stringFF != nil && zeroFF != nil && negFF != nil
contract
func timeFmtFunc
contract
ensures r0 != nil
func cnTimeFmtFunc
contract
ensures r0 != nil

// ---- formatter ----
define fmtwf(x) = (x.customCodes == nil) == (x.customCodeTypes == nil) && forall(k, 0, 65536, imp(has(x.customCodes, k), x.customCodes[k] != nil)) && forall(k, 0, 65536, imp(has(x.customCodeTypes, k), x.customCodeTypes[k] <= DateCell))
func makeFormatter
inv forall(k, 0, done, rem[k] != nil)
ensures r0 != nil && r1 <= DateCell
func Formatter.Mode1904
modifies x.flags
ensures [C22] (x.flags & 1 != 0) == enabled
ensures fmtwf(x) == old(fmtwf(x))
func Formatter.Add
requires fmtwf(x)
modifies x.*, x.customCodes[*], x.customCodeTypes[*]
ensures fmtwf(x)
func Formatter.getCellType
requires fmtwf(x)
contract
ensures r0 <= DateCell
func Formatter.Get
requires fmtwf(x)
contract
ensures r0 != nil
func Formatter.Apply
requires fmtwf(x)
contract
ensures [C17,C19] imp(typeis(val, string), r0 == as(val, string))
func Formatter.ConvertToDate
contract
ensures [C22] imp(-1000000000 <= int(val) && int(val) <= 1000000000, instant(r0) == ite(x.flags & 1 != 0, -2082844800, -2209161600) * 1000000000 + int(val) * 86400000000000 + int64(time.Duration(float64(time.Hour*24) * (val - float64(int(val)))).Round(time.Millisecond)))

// ---- fractions: at most nn (nd) digits ----
define digits(n) = math.Pow(10.0, float64(n))
func DecimalToFraction
realfloat
split val < 0
requires 0 <= nn && nn <= 15 && 0 <= nd && nd <= 15
given -1000000000000 < val && val < 1000000000000
contract
inv denom == math.Floor(denom) && lastDenom == math.Floor(lastDenom) && numer == math.Floor(numer)
inv 1 <= denom && denom < maxd && 0 <= lastDenom && lastDenom <= denom && 0 <= numer && numer < maxn && val >= 0 && z >= 0
inv imp(val < 1, numer <= denom)
decreases 2*int(maxd) - int(denom) - int(lastDenom)
ensures [C27] imp(0 <= val && val < 1, 0 <= r0 && r0 <= r1 && 1 <= r1 && float64(r0) < digits(ite(nn == 0, 2, nn)) && float64(r1) < digits(ite(nd == 0, 2, nd)))
func DecimalToWholeFraction
realfloat
requires 0 <= nn && nn <= 15 && 0 <= nd && nd <= 15
contract
ensures [C27] 0 <= r1 && r1 <= r2 && 1 <= r2 && float64(r1) < digits(ite(nn == 0, 2, nn)) && float64(r2) < digits(ite(nd == 0, 2, nd))
func fracFmtFunc$1
captures 1 <= n && n <= 15
contract

// ---- sheets ----
define rowsapart(s) = forall(i, 0, len(s.Rows), forall(k, 0, len(s.Rows), imp(i != k, refof(s.Rows[i]) != refof(s.Rows[k]))))
define cellswf(s) = forall(i, 0, len(s.Rows), len(s.Rows[i]) >= 1 && forall(j, 0, len(s.Rows[i]), cellwf(s.Rows[i][j])))
define cellsapart(s) = forall(i, 0, len(s.Rows), forall(j, 0, len(s.Rows[i]), forall(k, 0, len(s.Rows), forall(l, 0, len(s.Rows[k]), imp((i != k || j != l) && len(s.Rows[i][j]) > 0, refof(s.Rows[i][j]) != refof(s.Rows[k][l]))))))
define gridwf(s) = rowsapart(s) && cellswf(s) && cellsapart(s)
define dims(s) = len(s.Rows) == s.NumRows && 0 <= s.NumCols && s.NumRows <= 1073741824 && s.NumCols <= 1073741824 && forall(i, 0, len(s.Rows), len(s.Rows[i]) == s.NumCols)
define sheetwf(s) = s.Formatter != nil && fmtwf(s.Formatter) && dims(s) && gridwf(s) && 0 <= s.CurRow && s.CurRow <= len(s.Rows)

// cell (i,j) is the one the sheet had before, blank when it had none
define kept(s, i, j) = imp(i < old(len(s.Rows)) && j < old(len(s.Rows[i])), sameslice(s.Rows[i][j], old(s.Rows[i][j])))
define blanked(s, i, j) = imp(i >= old(len(s.Rows)) || j >= old(len(s.Rows[i])), len(s.Rows[i][j]) == 0)

func Sheet.Resize
requires {rows} rowsapart(s)
requires {cells} cellswf(s)
requires {apart} cellsapart(s)
requires rows <= 1073741824 && cols <= 1073741824
modifies s.NumRows, s.NumCols, s.CurRow, s.Rows, elems([]Cell), elems(Cell)
loop 1 inv {rows: rows} rowsapart(s)
loop 1 inv {cells: rows cells} cellswf(s)
loop 1 inv {apart: rows apart} cellsapart(s)
loop 1 inv min(rows, old(len(s.Rows))) <= len(s.Rows) && len(s.Rows) <= rows
loop 1 inv {dim: rows cells dim} forall(i, 0, done, len(s.Rows[i]) == cols)
loop 1 inv {head: rows head} forall(i, done, len(s.Rows), sameslice(s.Rows[i], old(s.Rows[i])))
loop 1 inv {kept: rows head kept} forall(i, 0, len(s.Rows), forall(j, 0, len(s.Rows[i]), kept(s, i, j)))
loop 1 inv {blank: rows head blank} forall(i, 0, done, forall(j, 0, cols, blanked(s, i, j)))
loop 2 inv {rows: rows} rowsapart(s)
loop 2 inv {kept: rows dim kept} forall(i, 0, len(s.Rows), forall(j, 0, cols, kept(s, i, j)))
loop 2 inv {blank: rows dim blank} forall(i, 0, len(s.Rows), forall(j, 0, cols, blanked(s, i, j)))
loop 2 inv {cells: rows dim cells} cellswf(s)
loop 2 inv {apart: rows dim apart} cellsapart(s)
loop 2 inv min(rows, old(len(s.Rows))) <= len(s.Rows) && len(s.Rows) <= rows
loop 2 inv {dim: rows dim} forall(i, 0, len(s.Rows), len(s.Rows[i]) == cols)
loop 2 decreases rows - len(s.Rows)
ensures {rows: rows} rowsapart(s)
ensures {cells: cells} cellswf(s)
ensures {apart: apart} cellsapart(s)
ensures {dim: dim} dims(s) && s.CurRow == 0 && s.NumRows == max(rows, 1) && s.NumCols == max(cols, 1)
ensures [C18] {kept: kept dim} forall(i, 0, s.NumRows, forall(j, 0, s.NumCols, kept(s, i, j)))
ensures [C18] {blank: blank dim} forall(i, 0, s.NumRows, forall(j, 0, s.NumCols, blanked(s, i, j)))

// the marks of merged areas
define ismark(v) = typeis(v, string) && (as(v, string) == "→" || as(v, string) == "⇥" || as(v, string) == "↓" || as(v, string) == "⤓")
define cellis(s, i, j, v, t) = len(s.Rows[i][j]) >= 2 && s.Rows[i][j][0] == v && as(s.Rows[i][j][1], CellType) == t
define samecell(s, i, j) = sameslice(s.Rows[i][j], old(s.Rows[i][j])) && forall(k, 0, len(s.Rows[i][j]), s.Rows[i][j][k] == old(s.Rows[i][j][k]))
define inside(row, col) = row >= 0 && col >= 0

func Sheet.Put
merge 1
requires {fmt} s.Formatter != nil && fmtwf(s.Formatter)
requires {dim} dims(s)
requires 0 <= s.CurRow && s.CurRow <= len(s.Rows)
requires {rows} rowsapart(s)
requires {cells} cellswf(s)
requires {apart} cellsapart(s)
requires valok(value) && row < 1073741824 && col < 1073741824
modifies s.NumRows, s.NumCols, s.CurRow, s.Rows, elems([]Cell), elems(Cell), elems(interface{})
ensures {fmt: fmt} s.Formatter != nil && fmtwf(s.Formatter)
ensures {dim: dim} dims(s) && 0 <= s.CurRow && s.CurRow <= len(s.Rows)
ensures [C18] {dim: dim} s.NumRows == ite(row >= 0 && col >= 0, max(old(s.NumRows), row + 1), old(s.NumRows)) && s.NumCols == ite(row >= 0 && col >= 0, max(old(s.NumCols), col + 1), old(s.NumCols))
ensures {rows: rows dim} rowsapart(s)
ensures {cells: rows dim cells apart} cellswf(s)
ensures {apart: rows dim apart} cellsapart(s)
ensures [C18] {others: rows dim kept apart} forall(i, 0, old(s.NumRows), forall(j, 0, old(s.NumCols), imp(i != row || j != col, samecell(s, i, j))))
ensures [C13,C18] {mark: dim} imp(inside(row, col) && ismark(value), cellis(s, row, col, value, StaticCell))
ensures [C17,C18] {text: dim} imp(inside(row, col) && typeis(value, string) && len(as(value, string)) > 0 && !ismark(value), cellis(s, row, col, value, StringCell))
ensures [C18] {plain: dim} imp(inside(row, col) && fmtNum == 0 && typeis(value, int64), cellis(s, row, col, value, IntegerCell))
ensures [C18] {plain: dim} imp(inside(row, col) && fmtNum == 0 && typeis(value, float64), cellis(s, row, col, value, FloatCell))
ensures [C18] {plain: dim} imp(inside(row, col) && fmtNum == 0 && typeis(value, bool), cellis(s, row, col, value, BooleanCell))
ensures [C18] {fmtno: dim} imp(inside(row, col) && fmtNum != 0 && !ismark(value), len(s.Rows[row][col]) >= 3 && as(s.Rows[row][col][2], uint16) == fmtNum)

func Sheet.Set
requires {dim} dims(s)
requires 0 <= s.CurRow && s.CurRow <= len(s.Rows)
requires {rows} rowsapart(s)
requires {cells} cellswf(s)
requires {apart} cellsapart(s)
requires valok(value)
modifies elems(Cell)
ensures {dim: dim} dims(s) && 0 <= s.CurRow && s.CurRow <= len(s.Rows)
ensures {rows: rows dim} rowsapart(s)
ensures {cells: rows dim cells apart} cellswf(s)
ensures {apart: rows dim apart} cellsapart(s)
ensures [C18] {others: rows dim kept apart} forall(i, 0, old(s.NumRows), forall(j, 0, old(s.NumCols), imp(i != row || j != col, samecell(s, i, j))))
ensures [C12,C17,C18] {text: dim} imp(inside(row, col) && row < s.NumRows && col < s.NumCols && typeis(value, string) && len(as(value, string)) > 0, cellis(s, row, col, value, StringCell))

func Sheet.SetURL
requires {dim} dims(s)
requires 0 <= s.CurRow && s.CurRow <= len(s.Rows)
requires {rows} rowsapart(s)
requires {cells} cellswf(s)
requires {apart} cellsapart(s)
modifies elems(Cell), elems(interface{})
ensures {dim: dim} dims(s) && 0 <= s.CurRow && s.CurRow <= len(s.Rows)
ensures {rows: rows dim} rowsapart(s)
ensures {cells: rows dim cells apart} cellswf(s)
ensures {apart: rows dim apart} cellsapart(s)
ensures [C18] {others: rows dim kept apart} forall(i, 0, old(s.NumRows), forall(j, 0, old(s.NumCols), imp(i != row || j != col, samecell(s, i, j))))
ensures [C18] {text: dim} imp(inside(row, col) && row < s.NumRows && col < s.NumCols, len(s.Rows[row][col]) >= 4 && as(s.Rows[row][col][1], CellType) == HyperlinkStringCell && as(s.Rows[row][col][3], string) == link)

func Sheet.Next
requires sheetwf(s)
modifies s.CurRow
ensures [C19] r0 == (old(s.CurRow) < len(s.Rows)) && s.CurRow == old(s.CurRow) + ite(r0, 1, 0)
ensures [C07,C19] sheetwf(s) && imp(r0, s.CurRow >= 1)

define cur(s) = s.Rows[s.CurRow-1]
define blank(c) = len(c) == 0 || as(c[1], CellType) == BlankCell

func Sheet.Raw
requires {sheet} sheetwf(s)
requires s.CurRow >= 1
contract
inv forall(k, 0, len(cur(s)), cellwf(cur(s)[k]))
inv forall(k, 0, done, len(rr[k]) == len(cur(s)[k]))
inv forall(k, 0, done, forall(l, 0, len(rr[k]), rr[k][l] == cur(s)[k][l]))
inv forall(k, 0, done, len(rr[k]) == 0 || fresh(rr[k]))
ensures [C07,C19] len(r0) == s.NumCols
ensures [C19] forall(k, 0, len(r0), len(r0[k]) == 0 || fresh(r0[k]))
ensures [C19] forall(k, 0, len(r0), len(r0[k]) == len(cur(s)[k]) && forall(l, 0, len(r0[k]), r0[k][l] == cur(s)[k][l]))

func Sheet.Strings
requires sheetwf(s) && s.CurRow >= 1
contract
inv forall(k, 0, done, imp(blank(cur(s)[k]), len(res[k]) == 0))
inv forall(k, 0, done, imp(!blank(cur(s)[k]) && typeis(cur(s)[k][0], string), res[k] == as(cur(s)[k][0], string)))
ensures [C07,C19] len(r0) == s.NumCols
ensures [C17,C19] forall(k, 0, len(r0), imp(!blank(cur(s)[k]) && typeis(cur(s)[k][0], string), r0[k] == as(cur(s)[k][0], string)))
ensures [C19] forall(k, 0, len(r0), imp(blank(cur(s)[k]), len(r0[k]) == 0))

func Sheet.Types
requires sheetwf(s) && s.CurRow >= 1
contract
inv forall(k, 0, done, res[k] == cur(s)[k].Type().String())
ensures [C07,C19] len(r0) == s.NumCols
ensures [C16,C19] forall(k, 0, len(r0), r0[k] == cur(s)[k].Type().String())

func Sheet.Formats
requires sheetwf(s) && s.CurRow >= 1
contract
ensures [C07,C19] len(r0) == s.NumCols

func Sheet.IsEmpty
contract
ensures [C19] r0 == (s.NumCols <= 1 && s.NumRows <= 1)

// a destination and the value of its column go together
define scans(a, v) = imp(typeis(a, *bool), typeis(v, bool)) && imp(typeis(a, *int64), typeis(v, int64)) && imp(typeis(a, *float64), typeis(v, float64)) && imp(typeis(a, *string), typeis(v, string)) && imp(typeis(a, *time.Time), typeis(v, time.Time))
define dest(a) = typeis(a, *bool) || typeis(a, *int64) || typeis(a, *float64) || typeis(a, *string) || typeis(a, *time.Time)
define destok(a) = imp(typeis(a, *bool), as(a, *bool) != nil) && imp(typeis(a, *int64), as(a, *int64) != nil) && imp(typeis(a, *float64), as(a, *float64) != nil) && imp(typeis(a, *string), as(a, *string) != nil) && imp(typeis(a, *time.Time), as(a, *time.Time) != nil)
define stored(a, v) = imp(typeis(a, *bool), *as(a, *bool) == as(v, bool)) && imp(typeis(a, *int64), *as(a, *int64) == as(v, int64)) && imp(typeis(a, *float64), *as(a, *float64) == as(v, float64)) && imp(typeis(a, *string), *as(a, *string) == as(v, string)) && imp(typeis(a, *time.Time), *as(a, *time.Time) == as(v, time.Time))
define colval(s, i) = cur(s)[i].Value()
define destsapart(args) = forall(i, 0, len(args), forall(j, 0, len(args), imp(i != j && dest(args[i]) && dest(args[j]), refof(args[i]) != refof(args[j]))))

func Sheet.Scan
requires sheetwf(s) && s.CurRow >= 1
requires forall(i, 0, len(args), destok(args[i]))
modifies everything
ensures [C20] imp(r0 == nil, len(args) <= old(s.NumCols) && forall(i, 0, len(args), dest(args[i])))
inv forall(k, 0, done, dest(args[k]) && scans(args[k], old(colval(s, k))))
ensures [C20] imp(r0 == nil, forall(k, 0, len(args), scans(args[k], old(colval(s, k)))))
