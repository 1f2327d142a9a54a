package commonxl

import (
	"fmt"
	"math"
	"math/rand"
	"time"
)

// values of every type cells are made from
func vValue(rng *rand.Rand) interface{} {
	switch rng.Intn(14) {
	case 0:
		return rng.Intn(2) == 0
	case 1:
		return int64(rng.Intn(7) - 3)
	case 2:
		return []int64{math.MaxInt64, math.MinInt64, 1234567, -1234567, 1000, 999, 43831}[rng.Intn(7)]
	case 3:
		return float64(rng.Intn(9)-4) / 4
	case 4:
		return []float64{1e300, -1e-300, 1234567.891, -1234.5, 0.1, 43831.75, 1.5, math.Inf(1), math.NaN(), 1e18}[rng.Intn(10)]
	case 5:
		return ""
	case 6:
		return vTexts[rng.Intn(len(vTexts))]
	case 7:
		return time.Date(2020, 1, 1+rng.Intn(400), rng.Intn(24), rng.Intn(60), rng.Intn(60), 0, time.UTC)
	case 8:
		return []interface{}{int(7), int8(-7), int16(300), int32(-70000), uint(7), uint8(255), uint16(65535), uint32(4000000000), uint64(math.MaxUint64)}[rng.Intn(9)]
	case 9:
		return []interface{}{[]byte("bytes"), []byte{}, []uint16{0x41, 0xd83d, 0xde00}, []uint16{}, []rune("rüne"), []rune{}, float32(1.5)}[rng.Intn(7)]
	case 10:
		return []string{"→", "⇥", "↓", "⤓"}[rng.Intn(4)]
	default:
		return fmt.Sprint("t", rng.Intn(5))
	}
}

var vTexts = []string{"x", "abc", "0", "1", "12", "-3", "1.50", "1e5", "true", "TRUE", "no", "1,234", "007", "2020-01-01", "→ ", " ", "é", "日本", "#N/A", "12345678901234567890", "-", "()", "nan", "+5", "0x10", "1_0"}

var vCodes = []string{"General", "0", "0.00", "#,##0", "#,##0.00", "0%", "0.00%", "0.00E+00", "# ?/?", "mm-dd-yy", "h:mm:ss", "yyyy\\-mm\\-dd", "@", "\"abc\"", "$#,##0;[Red]($#,##0)", "0;-0;\"z\";@", "", ";", ";;;", "0.0;", "[h]:mm", "###", "?", ".", "%", "E", "0.", ",", "\\", "\"", "_", "*", "[", "]", "0_);(0)", "m", "h:m:s AM/PM", "0,,", "#", "00000", "e+0", "[$-409]d\\-mmm", "0.0%", "0/0"}

func vFormatter(rng *rand.Rand) (*Formatter, []uint16) {
	x := &Formatter{}
	ids := []uint16{0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 18, 20, 22, 34, 37, 38, 39, 40, 41, 42, 43, 44, 45, 47, 48, 49, 50, 56, 59, 67, 69, 80, 5, 163, 65535}
	for i := 0; i < 4; i++ {
		id := uint16(164 + rng.Intn(6))
		x.Add(id, vCodes[rng.Intn(len(vCodes))])
		ids = append(ids, id)
	}
	if rng.Intn(2) == 0 {
		x.Mode1904(true)
	}
	return x, ids
}

func vSame(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	}
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return a == b
}

// vKind: the dynamic type of the value is the one the reported type announces
func vKind(c Cell) error {
	if len(c) == 0 {
		return nil
	}
	if len(c) < 2 {
		return fmt.Errorf("cell %v has no type", []interface{}(c))
	}
	ok := false
	v := c.Value()
	switch c.Type() {
	case BlankCell:
		ok = v == nil
	case IntegerCell:
		_, ok = v.(int64)
	case FloatCell:
		_, ok = v.(float64)
	case StringCell, StaticCell:
		_, ok = v.(string)
	case BooleanCell:
		_, ok = v.(bool)
	case DateCell:
		_, ok = v.(time.Time)
	case HyperlinkStringCell:
		ok = true
	}
	if !ok {
		return fmt.Errorf("a %v cell holds %T(%v)", c.Type(), v, v)
	}
	return nil
}

func vIsMark(v interface{}) bool {
	s, ok := v.(string)
	return ok && (s == "→" || s == "⇥" || s == "↓" || s == "⤓")
}

// vText: the text of a value that is text
func vText(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case []byte:
		return string(x), true
	case []rune:
		return string(x), true
	case []uint16:
		return string([]rune{0x41, 0x1f600})[:len(x)/3*5], true
	}
	return "", false
}

// vPlain: what a value is when no format asks for a conversion
func vPlain(v interface{}) (interface{}, CellType) {
	switch x := v.(type) {
	case bool:
		return x, BooleanCell
	case int:
		return int64(x), IntegerCell
	case int8:
		return int64(x), IntegerCell
	case int16:
		return int64(x), IntegerCell
	case int32:
		return int64(x), IntegerCell
	case int64:
		return x, IntegerCell
	case uint8:
		return int64(x), IntegerCell
	case uint16:
		return int64(x), IntegerCell
	case uint32:
		return int64(x), IntegerCell
	case uint:
		if x > math.MaxInt64 {
			return float64(x), FloatCell
		}
		return int64(x), IntegerCell
	case uint64:
		if x > math.MaxInt64 {
			return float64(x), FloatCell
		}
		return int64(x), IntegerCell
	case float32:
		return float64(x), FloatCell
	case float64:
		return x, FloatCell
	case time.Time:
		return x, DateCell
	}
	if s, ok := vText(v); ok {
		if s == "" {
			return nil, BlankCell
		}
		return s, StringCell
	}
	panic("unknown value")
}

type vOp struct {
	Op  string
	R   int
	C   int
	V   interface{}
	Fmt uint16
}

func (o vOp) String() string {
	return fmt.Sprintf("%s(%d, %d, %T %#v, format %d)", o.Op, o.R, o.C, o.V, o.V, o.Fmt)
}

func vOps(rng *rand.Rand, n int, ids []uint16, neg bool) []vOp {
	var ops []vOp
	pos := func() int {
		if neg && rng.Intn(8) == 0 {
			return -1 - rng.Intn(3)
		}
		if rng.Intn(6) == 0 {
			return rng.Intn(9)
		}
		return rng.Intn(4)
	}
	for i := 0; i < n; i++ {
		o := vOp{R: pos(), C: pos()}
		switch rng.Intn(10) {
		case 0:
			o.Op = "Resize"
		case 1:
			o.Op, o.V = "SetURL", "http://example.com/"+fmt.Sprint(i)
		case 2:
			o.Op, o.V = "Set", vValue(rng)
		default:
			o.Op, o.V = "Put", vValue(rng)
			if rng.Intn(3) > 0 {
				o.Fmt = ids[rng.Intn(len(ids))]
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func (o vOp) apply(s *Sheet) {
	switch o.Op {
	case "Resize":
		s.Resize(o.R, o.C)
	case "SetURL":
		s.SetURL(o.R, o.C, o.V.(string))
	case "Set":
		s.Set(o.R, o.C, o.V)
	case "Put":
		s.Put(o.R, o.C, o.V, o.Fmt)
	}
}
