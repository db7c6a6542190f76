package spec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"

	"github.com/Breeze0806/gobinlog/replication"
)

// ---- C14: binary JSON documents
//
// A document is a type byte and a value. The text of a value nested in a container is
// a function of its type and of the bytes from its offset on; where the printer (or this
// reference) calls itself the call is such a function, unknown but the same in both.
// C14_Doc: a value at the top; C14_Nested: a value inside a container.

const (
	jSmallObject = iota
	jLargeObject
	jSmallArray
	jLargeArray
	jLiteral
	jInt16
	jUint16
	jInt32
	jUint32
	jInt64
	jUint64
	jDouble
	jString
	jOpaque = 15
)

func jsonDoc(b []byte) []byte {
	l := int(le32(b, 0))
	need(l >= 1 && len(b) >= 4+l)
	return b[4 : 4+l]
}

func I_C14_Empty(b []byte) ([]byte, int, error) {
	return cell(b, 0, replication.TypeJSON, 4, false)
}
func S_C14_Empty(b []byte) ([]byte, int, error) {
	need(le32(b, 0) == 0)
	return []byte("'null'"), 4, nil
}

func P_C14_Empty(b []byte) int {
	need(le32(b, 0) == 0)
	return 0
}

// The length prefix of the column, wherever the cell is.
func P_C14_Prefix(b []byte, pos int, size int) int {
	jsonPrefixed(b, pos, size)
	return 0
}
func jsonPrefixed(b []byte, pos int, size int) (int, []byte) {
	l := int(b[pos])
	for i := 1; i < size; i++ {
		l |= int(b[pos+i]) << (8 * i)
	}
	need(l > 1 && b[pos+size] == jLiteral && b[pos+size+1] <= 2)
	return l, b[pos+size : pos+size+l]
}
func I_C14_Prefix(b []byte, pos int, size int) ([]byte, int, error) {
	return cell(b, pos, replication.TypeJSON, uint16(size), false)
}
func S_C14_Prefix(b []byte, pos int, size int) ([]byte, int, error) {
	l, d := jsonPrefixed(b, pos, size)
	return []byte("'" + string(jsonLit(d[1])) + "'"), size + l, nil
}

func P_C14_Doc(b []byte, typ int, sub int) int {
	d := jsonDoc(b)
	need(d[0] == byte(typ))
	jsonSub(d[1:], typ, sub)
	return 0
}

func I_C14_Doc(b []byte, typ int, sub int) ([]byte, int, error) {
	return cell(b, 0, replication.TypeJSON, 4, false)
}
func S_C14_Doc(b []byte, typ int, sub int) ([]byte, int, error) {
	d := jsonDoc(b)
	need(d[0] == byte(typ))
	jsonSub(d[1:], typ, sub)
	out := &bytes.Buffer{}
	jsonValue(d[0], d[1:], true, out)
	return out.Bytes(), 4 + len(d), nil
}

// jsonSub: strings and opaque values with a length prefix of 1..5 bytes.
func jsonSub(d []byte, typ int, sub int) {
	if typ == jString {
		jsonPrefix(d, sub)
	}
	if typ == jOpaque {
		jsonPrefix(d[1:], sub&15)
		need(d[0] == byte(sub>>4))
	}
}

func jsonPrefix(d []byte, n int) {
	for i := 0; i < n-1; i++ {
		need(d[i] >= 128)
	}
	need(d[n-1] < 128)
}

// A value inside a container: one entry of an array.
func P_C14_Nested(b []byte, large int, typ int, sub int) int {
	jsonNested(jsonDoc(b), large, typ, sub)
	return 0
}

func jsonNested(d []byte, large int, typ int, sub int) {
	if large == 1 {
		need(d[0] == jLargeArray && le32(d, 1) == 1)
		need(d[9] == byte(typ))
		if typ != jLiteral && typ != jInt16 && typ != jUint16 && typ != jInt32 && typ != jUint32 {
			jsonSub(d[1+int(le32(d, 10)):], typ, sub)
		}
	} else {
		need(d[0] == jSmallArray && le16(d, 1) == 1)
		need(d[5] == byte(typ))
		if typ != jLiteral && typ != jInt16 && typ != jUint16 {
			jsonSub(d[1+int(le16(d, 6)):], typ, sub)
		}
	}
}

func I_C14_Nested(b []byte, large int, typ int, sub int) ([]byte, int, error) {
	return cell(b, 0, replication.TypeJSON, 4, false)
}
func S_C14_Nested(b []byte, large int, typ int, sub int) ([]byte, int, error) {
	d := jsonDoc(b)
	jsonNested(d, large, typ, sub)
	out := &bytes.Buffer{}
	jsonValue(d[0], d[1:], true, out)
	return out.Bytes(), 4 + len(d), nil
}

func jsonValue(typ byte, d []byte, top bool, out *bytes.Buffer) {
	switch typ {
	case jSmallObject:
		jsonObject(d, false, out)
	case jLargeObject:
		jsonObject(d, true, out)
	case jSmallArray:
		jsonArray(d, false, out)
	case jLargeArray:
		jsonArray(d, true, out)
	case jLiteral:
		jsonScalar(jsonLit(d[0]), top, out)
	case jInt16:
		jsonScalar(dec(int64(int16(le16(d, 0)))), top, out)
	case jUint16:
		jsonScalar(udec(uint64(le16(d, 0))), top, out)
	case jInt32:
		jsonScalar(dec(int64(int32(le32(d, 0)))), top, out)
	case jUint32:
		jsonScalar(udec(uint64(le32(d, 0))), top, out)
	case jInt64:
		jsonScalar(dec(int64(le64(d, 0))), top, out)
	case jUint64:
		jsonScalar(udec(le64(d, 0)), top, out)
	case jDouble:
		jsonScalar([]byte(strconv.FormatFloat(math.Float64frombits(le64(d, 0)), 'E', -1, 64)), top, out)
	case jString:
		n, p := jsonLen(d)
		q := "'"
		if top {
			q = "'\""
		}
		out.WriteString(q)
		out.Write(d[p : p+n])
		if top {
			out.WriteByte('"')
		}
		out.WriteByte('\'')
	case jOpaque:
		n, p := jsonLen(d[1:])
		jsonOpaque(d[0], d[1+p:1+p+n], top, out)
	default:
		need(false)
	}
}

func jsonScalar(s []byte, top bool, out *bytes.Buffer) {
	if top {
		out.WriteByte('\'')
	}
	out.Write(s)
	if top {
		out.WriteByte('\'')
	}
}

func jsonLit(b byte) []byte {
	need(b <= 2)
	switch b {
	case 0:
		return []byte("null")
	case 1:
		return []byte("true")
	}
	return []byte("false")
}

func jsonLen(d []byte) (int, int) {
	n := int(d[0] & 127)
	if d[0] < 128 {
		return n, 1
	}
	n |= int(d[1]&127) << 7
	if d[1] < 128 {
		return n, 2
	}
	n |= int(d[2]&127) << 14
	if d[2] < 128 {
		return n, 3
	}
	n |= int(d[3]&127) << 21
	if d[3] < 128 {
		return n, 4
	}
	n |= int(d[4]&127) << 28
	need(d[4] < 16)
	return n, 5
}

// size: a count, a size or an offset.
func jsonSize(d []byte, p int, large bool) int {
	if large {
		return int(le32(d, p))
	}
	return int(le16(d, p))
}

func jsonArray(d []byte, large bool, out *bytes.Buffer) {
	w := 2
	if large {
		w = 4
	}
	count := jsonSize(d, 0, large)
	need(jsonSize(d, w, large) <= len(d))
	out.WriteString("JSON_ARRAY(")
	p := 2 * w
	for i := 0; i < count; i++ {
		if i > 0 {
			out.WriteByte(',')
		}
		jsonEntry(d, p, large, out)
		p += 1 + w
	}
	out.WriteByte(')')
}

func jsonObject(d []byte, large bool, out *bytes.Buffer) {
	w := 2
	if large {
		w = 4
	}
	count := jsonSize(d, 0, large)
	need(jsonSize(d, w, large) <= len(d))
	keys := make([][]byte, count)
	p := 2 * w
	for i := 0; i < count; i++ {
		o := jsonSize(d, p, large)
		keys[i] = d[o : o+int(le16(d, p+w))]
		p += w + 2
	}
	out.WriteString("JSON_OBJECT(")
	for i := 0; i < count; i++ {
		if i > 0 {
			out.WriteByte(',')
		}
		out.WriteByte('\'')
		out.Write(keys[i])
		out.WriteString("',")
		jsonEntry(d, p, large, out)
		p += 1 + w
	}
	out.WriteByte(')')
}

func jsonEntry(d []byte, p int, large bool, out *bytes.Buffer) {
	typ := d[p]
	if typ == jLiteral {
		out.Write(jsonLit(d[p+1]))
	} else if typ == jInt16 {
		out.Write(dec(int64(int16(le16(d, p+1)))))
	} else if typ == jUint16 {
		out.Write(udec(uint64(le16(d, p+1))))
	} else if typ == jInt32 && large {
		out.Write(dec(int64(int32(le32(d, p+1)))))
	} else if typ == jUint32 && large {
		out.Write(udec(uint64(le32(d, p+1))))
	} else {
		jsonValue(typ, d[jsonSize(d, p+1, large):], false, out)
	}
}

func jsonOpaque(typ byte, d []byte, top bool, out *bytes.Buffer) {
	need(typ == replication.TypeDate || typ == replication.TypeTime || typ == replication.TypeDateTime || typ == replication.TypeNewDecimal)
	if top {
		out.WriteString("CAST(")
	}
	out.WriteString("CAST('")
	if typ == replication.TypeNewDecimal {
		s, _, _ := replication.CellBytes(d, 2, replication.TypeNewDecimal, uint16(d[0])<<8|uint16(d[1]), false)
		out.Write(s)
		fmt.Fprintf(out, "' AS DECIMAL(%d,%d))", d[0], d[1])
	} else {
		raw := binary.LittleEndian.Uint64(d)
		if typ == replication.TypeTime && raw>>63 == 1 {
			raw = -raw
			out.WriteByte('-')
		}
		sec, micro := raw>>24, raw&0xffffff
		date := sec >> 17
		if typ != replication.TypeTime {
			ym := date >> 5 & 0x1ffff
			fmt.Fprintf(out, "%04d-%02d-%02d", ym/13, ym%13, date&31)
		}
		if typ == replication.TypeDateTime {
			fmt.Fprintf(out, " %02d:%02d:%02d", sec>>12&31, sec>>6&63, sec&63)
		}
		if typ == replication.TypeTime {
			fmt.Fprintf(out, "%02d:%02d:%02d", sec>>12&1023, sec>>6&63, sec&63)
		}
		if typ != replication.TypeDate && micro != 0 {
			fmt.Fprintf(out, ".%06d", micro)
		}
		switch typ {
		case replication.TypeDate:
			out.WriteString("' AS DATE)")
		case replication.TypeTime:
			out.WriteString("' AS TIME(6))")
		default:
			out.WriteString("' AS DATETIME(6))")
		}
	}
	if top {
		out.WriteString(" AS JSON)")
	}
}
