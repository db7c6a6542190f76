package spec

import (
	"bytes"
	"errors"

	"github.com/Breeze0806/gobinlog/replication"
)

var errAny = errors.New("error")

// body is the event after its header.
func body(b []byte, f replication.BinlogFormat) []byte {
	need(f.HeaderLength == 19)
	return b[19:]
}

// ---- C16: format description

func I_C16_Format(b []byte) (replication.BinlogFormat, error) { return ev56(b).Format() }
func I_C16_FormatMariadb(b []byte) (replication.BinlogFormat, error) {
	return evMdb(b).Format()
}
func S_C16_FormatMariadb(b []byte) (replication.BinlogFormat, error) { return S_C16_Format(b) }
func S_C16_Format(b []byte) (replication.BinlogFormat, error) {
	need(len(b) >= 19+57+5)
	v := le16(b, 19)
	if v != 4 || b[19+56] < 19 {
		return replication.BinlogFormat{}, errAny
	}
	// the version is padded with zero bytes up to 50
	v50 := b[21 : 21+50]
	server := string(bytes.TrimRight(v50, "\x00"))
	e := len(b) - 5
	return replication.BinlogFormat{FormatVersion: v, ServerVersion: server,
		HeaderLength: b[19+56], ChecksumAlgorithm: b[e], HeaderSizes: b[19+57 : e]}, nil
}

func I_C16_HeaderSize(f replication.BinlogFormat, typ byte) byte { return f.HeaderSize(typ) }
func S_C16_HeaderSize(f replication.BinlogFormat, typ byte) byte {
	need(typ > 0)
	return f.HeaderSizes[int(typ)-1]
}

// ---- C16: rotate

func I_C16_Rotate(b []byte, f replication.BinlogFormat) (string, int64, error) {
	return ev56(b).Rotate(f)
}
func S_C16_Rotate(b []byte, f replication.BinlogFormat) (string, int64, error) {
	d := body(b, f)
	if len(d) < 8 {
		return "", 0, errAny
	}
	return string(d[8:]), int64(le64(d, 0)), nil
}
func I_C16_RotateMariadb(b []byte, f replication.BinlogFormat) (string, int64, error) {
	return evMdb(b).Rotate(f)
}
func S_C16_RotateMariadb(b []byte, f replication.BinlogFormat) (string, int64, error) {
	return S_C16_Rotate(b, f)
}

// ---- C16: query

func I_C16_Query(b []byte, f replication.BinlogFormat) (replication.Query, error) {
	return ev56(b).Query(f)
}
func I_C16_QueryMariadb(b []byte, f replication.BinlogFormat) (replication.Query, error) {
	return evMdb(b).Query(f)
}
func S_C16_QueryMariadb(b []byte, f replication.BinlogFormat) (replication.Query, error) {
	return S_C16_Query(b, f)
}
func S_C16_Query(b []byte, f replication.BinlogFormat) (replication.Query, error) {
	d := body(b, f)
	db, vn := int(d[8]), int(le16(d, 11))
	sql := 13 + vn + db + 1
	if sql > len(d) {
		return replication.Query{}, errAny
	}
	q := replication.Query{Database: string(d[13+vn : 13+vn+db]), SQL: string(d[sql:])}
	vars := d[13 : 13+vn]
	for p := 0; p < len(vars); {
		switch vars[p] {
		case 0, 3: // flags2, auto_increment
			p += 1 + 4
		case 1: // sql_mode
			p += 1 + 8
		case 2: // catalog with a terminating zero
			need(p+2 <= len(vars))
			p += 1 + 1 + int(vars[p+1]) + 1
		case 6: // catalog
			need(p+2 <= len(vars))
			p += 1 + 1 + int(vars[p+1])
		case 4: // charset
			need(p+7 <= len(vars))
			q.Charset = &replication.Charset{Client: int32(le16(vars, p+1)), Conn: int32(le16(vars, p+3)), Server: int32(le16(vars, p+5))}
			p += 1 + 6
		default: // written after the charset
			return q, nil
		}
	}
	return q, nil
}

// ---- C16: int-var, rand

func I_C16_IntVar(b []byte, f replication.BinlogFormat) (byte, uint64, error) {
	return ev56(b).IntVar(f)
}
func S_C16_IntVar(b []byte, f replication.BinlogFormat) (byte, uint64, error) {
	d := body(b, f)
	need(d[0] == 1 || d[0] == 2)
	return d[0], le64(d, 1), nil
}
func I_C16_Rand(b []byte, f replication.BinlogFormat) (uint64, uint64, error) { return ev56(b).Rand(f) }
func S_C16_Rand(b []byte, f replication.BinlogFormat) (uint64, uint64, error) {
	d := body(b, f)
	return le64(d, 0), le64(d, 8), nil
}
func I_C16_IntVarMariadb(b []byte, f replication.BinlogFormat) (byte, uint64, error) {
	return evMdb(b).IntVar(f)
}
func S_C16_IntVarMariadb(b []byte, f replication.BinlogFormat) (byte, uint64, error) {
	return S_C16_IntVar(b, f)
}
func I_C16_RandMariadb(b []byte, f replication.BinlogFormat) (uint64, uint64, error) {
	return evMdb(b).Rand(f)
}
func S_C16_RandMariadb(b []byte, f replication.BinlogFormat) (uint64, uint64, error) {
	return S_C16_Rand(b, f)
}

// ---- C16: checksums

func strip(e replication.BinlogEvent, f replication.BinlogFormat) ([]byte, bool, []byte, error) {
	s, sum, err := e.StripChecksum(f)
	if err != nil {
		return nil, false, nil, err
	}
	return s.Bytes(), s.IsGTID(), sum, nil
}
func I_C16_Strip(b []byte, f replication.BinlogFormat) ([]byte, bool, []byte, error) {
	return strip(ev56(b), f)
}
func S_C16_Strip(b []byte, f replication.BinlogFormat) ([]byte, bool, []byte, error) {
	need(len(b) >= 23)
	switch f.ChecksumAlgorithm {
	case 0, 255:
		return b, b[4] == 33, nil, nil
	case 1:
		return b[:len(b)-4], b[4] == 33, b[len(b)-4:], nil
	}
	return nil, false, nil, errAny
}
func I_C16_StripMariadb(b []byte, f replication.BinlogFormat) ([]byte, bool, []byte, error) {
	return strip(evMdb(b), f)
}
func S_C16_StripMariadb(b []byte, f replication.BinlogFormat) ([]byte, bool, []byte, error) {
	need(len(b) >= 23)
	switch f.ChecksumAlgorithm {
	case 0, 255:
		return b, b[4] == 162, nil, nil
	case 1:
		return b[:len(b)-4], b[4] == 162, b[len(b)-4:], nil
	}
	need(false)
	return nil, false, nil, nil
}

// ---- C15: table maps

// lenenc is a length-encoded integer; it returns the position after it.
func lenenc(b []byte, p int) (uint64, int) {
	switch b[p] {
	case 0xfc:
		return uint64(le16(b, p+1)), p + 3
	case 0xfd:
		return uint64(le24(b, p+1)), p + 4
	case 0xfe:
		return le64(b, p+1), p + 9
	}
	need(b[p] < 0xfb)
	return uint64(b[p]), p + 1
}

// bitsOf is the shape of a bitmap.
type bitsOf struct {
	data  []byte
	count int
}

func bitmap(b []byte, p, n int) bitsOf { return bitsOf{b[p : p+(n+7)/8], n} }

func (m bitsOf) bit(i int) bool { return m.data[i/8]>>uint(i%8)&1 == 1 }

type tableMap struct {
	Flags     uint16
	Database  string
	Name      string
	Types     []byte
	CanBeNull bitsOf
	Metadata  []uint16
}

func I_C15_TableID(b []byte, f replication.BinlogFormat) uint64 { return ev56(b).TableID(f) }
func S_C15_TableID(b []byte, f replication.BinlogFormat) uint64 {
	need(f.HeaderLength == 19 && b[4] > 0)
	if f.HeaderSizes[int(b[4])-1] == 6 {
		return uint64(le32(b, 19))
	}
	return le48(b, 19)
}
func I_C15_TableMap(b []byte, f replication.BinlogFormat) (*replication.TableMap, error) {
	return ev56(b).TableMap(f)
}
func S_C15_TableMap(b []byte, f replication.BinlogFormat) (*tableMap, error) {
	d := body(b, f)
	p := 6
	if f.HeaderSizes[19-1] == 6 {
		p = 4
	}
	t := &tableMap{Flags: le16(d, p)}
	p += 2
	n := int(d[p])
	t.Database = string(d[p+1 : p+1+n])
	p += n + 2
	n = int(d[p])
	t.Name = string(d[p+1 : p+1+n])
	p += n + 2
	cols, p := lenenc(d, p)
	need(cols < 1<<31)
	t.Types = d[p : p+int(cols)]
	p += int(cols)
	size, p := lenenc(d, p)
	need(size < 1<<31)
	end := p + int(size)
	t.Metadata = make([]uint16, int(cols))
	for c := 0; c < int(cols); c++ {
		m := uint16(0)
		switch metaKind(t.Types[c]) {
		case 1:
			m = uint16(d[p])
			p++
		case 2: // big endian
			m = uint16(d[p])<<8 | uint16(d[p+1])
			p += 2
		case 3: // little endian
			m = uint16(d[p]) | uint16(d[p+1])<<8
			p += 2
		case 4:
			return nil, errAny
		}
		t.Metadata[c] = m
	}
	need(p == end && p+(int(cols)+7)/8 <= len(d))
	t.CanBeNull = bitmap(d, p, int(cols))
	return t, nil
}

// metaKind: how many metadata bytes a column type has.
func metaKind(t byte) int {
	switch t {
	case 0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14: // decimal, ints, null, timestamp, date, time, datetime, year, newdate
		return 0
	case 4, 5, 17, 18, 19, 245, 249, 250, 251, 252, 255: // float, double, timestamp2, datetime2, time2, json, blobs, geometry
		return 1
	case 246, 247, 248, 254: // newdecimal, enum, set, string
		return 2
	case 15, 16, 253: // varchar, bit, var_string
		return 3
	}
	return 4
}

// ---- C13: strings and blobs

func I_C13_Varchar(b []byte, pos int, meta uint16, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeVarchar, meta, unsigned)
}
func S_C13_Varchar(b []byte, pos int, meta uint16, unsigned bool) ([]byte, int, error) {
	if meta > 255 {
		return prefixed(b, pos, 2)
	}
	return prefixed(b, pos, 1)
}
func I_C13_VarString(b []byte, pos int, meta uint16, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeVarString, meta, unsigned)
}
func S_C13_VarString(b []byte, pos int, meta uint16, unsigned bool) ([]byte, int, error) {
	return S_C13_Varchar(b, pos, meta, unsigned)
}

// prefixed: n length bytes, little endian, then the value.
func prefixed(b []byte, pos, n int) ([]byte, int, error) {
	l := 0
	for i := 0; i < n; i++ {
		l |= int(b[pos+i]) << uint(8*i)
	}
	return b[pos+n : pos+n+l], n + l, nil
}

// charMax is the declared length in bytes of a CHAR or BINARY column.
func charMax(meta uint16) int {
	// the two high bits of the length are stored inverted in bits 4 and 5 of
	// the type byte
	return int((meta>>4&0x300)^0x300) + int(meta&0xff)
}
func isChar(meta uint16) bool { return meta>>8|0x30 == 0xfe }

func I_C13_Char(b []byte, pos int, meta uint16, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, replication.TypeString, meta, unsigned)
}
func S_C13_Char(b []byte, pos int, meta uint16, unsigned bool) ([]byte, int, error) {
	need(isChar(meta))
	if charMax(meta) > 255 {
		return prefixed(b, pos, 2)
	}
	return prefixed(b, pos, 1)
}

var blobTypes = [5]byte{replication.TypeBlob, replication.TypeTinyBlob, replication.TypeMediumBlob, replication.TypeLongBlob, replication.TypeGeometry}

func I_C13_Blob(b []byte, pos int, kind int, size int, unsigned bool) ([]byte, int, error) {
	return cell(b, pos, blobTypes[kind], uint16(size), unsigned)
}
func S_C13_Blob(b []byte, pos int, kind int, size int, unsigned bool) ([]byte, int, error) {
	return prefixed(b, pos, size)
}

// lenKind classes a length-encoded integer by its first byte.
func lenKind(c byte) int {
	switch {
	case c < 0xfb:
		return 0
	case c == 0xfc:
		return 1
	case c == 0xfd:
		return 2
	case c == 0xfe:
		return 3
	}
	need(false) // NULL and error markers
	return 0
}

// P_C15_TableMap: the cases that are analysed one by one.
func P_C15_TableMap(b []byte, f replication.BinlogFormat) int {
	d := body(b, f)
	p, k := 6, 0
	if f.HeaderSizes[19-1] == 6 {
		p, k = 4, 1
	}
	p += 2
	p += int(d[p]) + 2
	p += int(d[p]) + 2
	k = k*4 + lenKind(d[p])
	cols, p := lenenc(d, p)
	return k*4 + lenKind(d[p+int(cols)])
}
