package spec

import (
	"fmt"
	"math"
	"strconv"
	"time"

	"github.com/Breeze0806/gobinlog/replication"
)

// cell drives the value decoder; typ, meta and unsigned are enumerated by the
// checker, b and pos are symbolic.
func cell(b []byte, pos int, typ byte, meta uint16, unsigned bool) ([]byte, int, error) {
	return replication.CellBytes(b, pos, typ, meta, unsigned)
}

func dec(v int64) []byte   { return []byte(strconv.FormatInt(v, 10)) }
func udec(v uint64) []byte { return []byte(strconv.FormatUint(v, 10)) }

// ---- C10

func I_C10_Tiny(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeTiny, 0, unsigned)
}
func S_C10_Tiny(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	if unsigned {
		return udec(uint64(b[pos])), 1, nil
	}
	return dec(int64(int8(b[pos]))), 1, nil
}
func I_C10_Short(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeShort, 0, unsigned)
}
func S_C10_Short(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	if unsigned {
		return udec(uint64(le16(b, pos))), 2, nil
	}
	return dec(int64(int16(le16(b, pos)))), 2, nil
}
func I_C10_Int24(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeInt24, 0, unsigned)
}
func S_C10_Int24(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	v := int64(le24(b, pos))
	if !unsigned && v >= 1<<23 {
		v -= 1 << 24
	}
	return dec(v), 3, nil
}
func I_C10_Long(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeLong, 0, unsigned)
}
func S_C10_Long(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	if unsigned {
		return udec(uint64(le32(b, pos))), 4, nil
	}
	return dec(int64(int32(le32(b, pos)))), 4, nil
}
func I_C10_LongLong(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeLongLong, 0, unsigned)
}
func S_C10_LongLong(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	if unsigned {
		return udec(le64(b, pos)), 8, nil
	}
	return dec(int64(le64(b, pos))), 8, nil
}

// The table-map metadata of FLOAT and DOUBLE is the cell size.
func I_C10_Float(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeFloat, 4, unsigned)
}
func S_C10_Float(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	f := math.Float32frombits(le32(b, pos))
	return []byte(strconv.FormatFloat(float64(f), 'f', -1, 32)), 4, nil
}
func I_C10_Double(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeDouble, 8, unsigned)
}
func S_C10_Double(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	f := math.Float64frombits(le64(b, pos))
	return []byte(strconv.FormatFloat(f, 'f', -1, 64)), 8, nil
}
func I_C10_Year(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeYear, 0, unsigned)
}
func S_C10_Year(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	if b[pos] == 0 {
		return []byte("0000"), 1, nil
	}
	return dec(1900 + int64(b[pos])), 1, nil
}

// BIT(n): metadata is (n/8)<<8 | n%8; the bytes are logged big-endian.
func I_C10_Bit(b []byte, pos int, meta uint16, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeBit, meta, unsigned)
}
func S_C10_Bit(b []byte, pos int, meta uint16, unsigned bool) ([]byte, int, error) {
	n := int(meta>>8)*8 + int(meta&0xff)
	l := (n + 7) / 8
	return b[pos : pos+l], l, nil
}

// ENUM and SET columns are logged as TypeString whose metadata is
// realtype<<8 | size.
func I_C10_Enum(b []byte, pos int, size int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeString, uint16(replication.TypeEnum)<<8|uint16(size), unsigned)
}
func S_C10_Enum(b []byte, pos int, size int, unsigned bool) ([]byte, int, error) {
	if size == 1 {
		return udec(uint64(b[pos])), 1, nil
	}
	return udec(uint64(le16(b, pos))), 2, nil
}
func I_C10_PlainEnum(b []byte, pos int, size int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeEnum, uint16(size), unsigned)
}
func S_C10_PlainEnum(b []byte, pos int, size int, unsigned bool) ([]byte, int, error) {
	return S_C10_Enum(b, pos, size, unsigned)
}
func I_C10_Set(b []byte, pos int, size int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeString, uint16(replication.TypeSet)<<8|uint16(size), unsigned)
}

// the member bitmask
func S_C10_Set(b []byte, pos int, size int, unsigned bool) ([]byte, int, error) {
	v := uint64(0)
	for i := 0; i < size; i++ {
		v |= uint64(b[pos+i]) << uint(8*i)
	}
	return udec(v), size, nil
}

// ---- C11

func digits(v uint32, n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%0*d", n, v)
}

var groupBytes = [10]int{0, 1, 1, 2, 2, 3, 3, 4, 4, 4}
var groupMax = [10]uint32{0, 9, 99, 999, 9999, 99999, 999999, 9999999, 99999999, 999999999}

func I_C11_Decimal(b []byte, pos int, precision int, scale int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeNewDecimal, uint16(precision)<<8|uint16(scale), unsigned)
}
func S_C11_Decimal(b []byte, pos int, precision int, scale int, unsigned bool) ([]byte, int, error) {
	negative := b[pos]&0x80 == 0
	at := 0
	// group reads an n-digit big-endian group.
	group := func(n int) uint32 {
		v := uint32(0)
		for i := 0; i < groupBytes[n]; i++ {
			x := b[pos+at]
			if at == 0 {
				x ^= 0x80
			}
			if negative {
				x = ^x
			}
			v = v<<8 | uint32(x)
			at++
		}
		need(v <= groupMax[n])
		return v
	}
	intg := precision - scale
	s := ""
	if n := intg % 9; n > 0 {
		if v := group(n); v > 0 {
			s = strconv.FormatUint(uint64(v), 10)
		}
	}
	for i := 0; i < intg/9; i++ {
		v := group(9)
		if s != "" {
			s += digits(v, 9)
		} else if v > 0 {
			s = strconv.FormatUint(uint64(v), 10)
		}
	}
	if s == "" {
		s = "0"
	}
	if scale > 0 {
		s += "."
	}
	for i := 0; i < scale/9; i++ {
		s += digits(group(9), 9)
	}
	if n := scale % 9; n > 0 {
		s += digits(group(n), n)
	}
	if negative {
		s = "-" + s
	}
	return []byte(s), at, nil
}

// ---- C12

func date(y, m, d uint64) string {
	need(y <= 9999 && m <= 12 && d <= 31)
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
}
func clock(h, m, s uint64) string {
	need(h <= 838 && m <= 59 && s <= 59)
	return fmt.Sprintf("%02d:%02d:%02d", h, m, s)
}

func I_C12_Date(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeDate, 0, unsigned)
}
func S_C12_Date(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	v := uint64(le24(b, pos))
	return []byte(date(v>>9, v>>5&15, v&31)), 3, nil
}
func I_C12_NewDate(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeNewDate, 0, unsigned)
}
func S_C12_NewDate(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return S_C12_Date(b, pos, unsigned)
}
func I_C12_Time(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeTime, 0, unsigned)
}
func S_C12_Time(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	v, sign := int64(le24(b, pos)), ""
	if v >= 1<<23 {
		v, sign = 1<<24-v, "-"
	}
	u := uint64(v)
	return []byte(sign + clock(u/10000, u/100%100, u%100)), 3, nil
}
func I_C12_DateTime(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeDateTime, 0, unsigned)
}
func S_C12_DateTime(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	v := le64(b, pos)
	need(v <= 99991231235959)
	d, t := v/1000000, v%1000000
	return []byte(date(d/10000, d/100%100, d%100) + " " + clock(t/10000, t/100%100, t%100)), 8, nil
}

const zeroTimestamp = "0000-00-00 00:00:00"

func timestamp(v uint32) string {
	if v == 0 {
		return zeroTimestamp
	}
	return time.Unix(int64(v), 0).Format("2006-01-02 15:04:05")
}
func I_C12_Timestamp(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeTimestamp, 0, unsigned)
}
func S_C12_Timestamp(b []byte, pos int, unsigned bool) ([]byte, int, error) {
	return []byte(timestamp(le32(b, pos))), 4, nil
}

// fraction text of fsp digits; the stored number has an even digit count.
func fraction(v uint32, fsp int) string {
	if fsp == 0 {
		return ""
	}
	n := fsp + fsp%2
	need(v <= groupMax[n])
	if n != fsp {
		v /= 10
	}
	return "." + digits(v, fsp)
}

func be(b []byte, pos, n int) uint64 {
	v := uint64(0)
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(b[pos+i])
	}
	return v
}

func I_C12_Timestamp2(b []byte, pos int, fsp int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeTimestamp2, uint16(fsp), unsigned)
}
func S_C12_Timestamp2(b []byte, pos int, fsp int, unsigned bool) ([]byte, int, error) {
	n := (fsp + 1) / 2
	return []byte(timestamp(uint32(be(b, pos, 4))) + fraction(uint32(be(b, pos+4, n)), fsp)), 4 + n, nil
}
func I_C12_DateTime2(b []byte, pos int, fsp int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeDateTime2, uint16(fsp), unsigned)
}
func S_C12_DateTime2(b []byte, pos int, fsp int, unsigned bool) ([]byte, int, error) {
	n := (fsp + 1) / 2
	v := be(b, pos, 5)
	need(v >= 1<<39)
	v -= 1 << 39
	ym, day := v>>22, v>>17&31
	return []byte(date(ym/13, ym%13, day) + " " + clock(v>>12&31, v>>6&63, v&63) + fraction(uint32(be(b, pos+5, n)), fsp)), 5 + n, nil
}
func I_C12_Time2(b []byte, pos int, fsp int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeTime2, uint16(fsp), unsigned)
}
func S_C12_Time2(b []byte, pos int, fsp int, unsigned bool) ([]byte, int, error) {
	// The packed value (hms and fraction together) is stored offset by 1<<23 in
	// the hms part: hms is the floor, and the fraction is always added to it.
	n := (fsp + 1) / 2
	hms := int64(be(b, pos, 3)) - 1<<23
	frac := int64(be(b, pos+3, n))
	sign := ""
	if hms < 0 {
		sign = "-"
		if frac != 0 {
			hms++
			frac = 1<<uint(8*n) - frac
		}
		hms = -hms
	}
	need(hms>>22 == 0)
	h := uint64(hms)
	return []byte(sign + clock(h>>12&1023, h>>6&63, h&63) + fraction(uint32(frac), fsp)), 3 + n, nil
}
