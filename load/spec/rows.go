package spec

import "github.com/Breeze0806/gobinlog/replication"

// cellSize is the documented size of a cell; ok is false for types that have
// no binary row format.
func cellSize(b []byte, pos int, typ byte, meta uint16) (int, bool) {
	switch typ {
	case replication.TypeNull:
		return 0, true
	case replication.TypeTiny, replication.TypeYear:
		return 1, true
	case replication.TypeShort:
		return 2, true
	case replication.TypeInt24, replication.TypeDate, replication.TypeNewDate, replication.TypeTime:
		return 3, true
	case replication.TypeLong, replication.TypeFloat, replication.TypeTimestamp:
		return 4, true
	case replication.TypeLongLong, replication.TypeDouble, replication.TypeDateTime:
		return 8, true
	case replication.TypeTimestamp2:
		need(meta <= 6)
		return 4 + (int(meta)+1)/2, true
	case replication.TypeDateTime2:
		need(meta <= 6)
		return 5 + (int(meta)+1)/2, true
	case replication.TypeTime2:
		need(meta <= 6)
		return 3 + (int(meta)+1)/2, true
	case replication.TypeBit:
		// bytes and remaining bits
		n := int(meta >> 8)
		if meta&0xff > 0 {
			n++
		}
		need(meta&0xff < 8 && n <= 8)
		return n, true
	case replication.TypeNewDecimal:
		p, s := int(meta>>8), int(meta&0xff)
		need(p >= 1 && p <= 65 && s <= 30 && s <= p)
		return (p-s)/9*4 + groupBytes[(p-s)%9] + s/9*4 + groupBytes[s%9], true
	case replication.TypeVarchar, replication.TypeVarString:
		if meta > 255 {
			return 2 + int(le16(b, pos)), true
		}
		return 1 + int(b[pos]), true
	case replication.TypeEnum, replication.TypeSet:
		return members(typ, meta), true
	case replication.TypeString:
		if t := byte(meta >> 8); t == replication.TypeEnum || t == replication.TypeSet {
			return members(t, meta), true
		}
		need(isChar(meta))
		if charMax(meta) > 255 {
			return 2 + int(le16(b, pos)), true
		}
		return 1 + int(b[pos]), true
	case replication.TypeJSON, replication.TypeTinyBlob, replication.TypeMediumBlob, replication.TypeLongBlob, replication.TypeBlob, replication.TypeGeometry:
		switch meta {
		case 1:
			return 1 + int(b[pos]), true
		case 2:
			return 2 + int(le16(b, pos)), true
		case 3:
			return 3 + int(le24(b, pos)), true
		case 4:
			return 4 + int(le32(b, pos)), true
		}
		need(false)
	}
	return 0, false
}

// members is the size of an ENUM or SET cell.
func members(typ byte, meta uint16) int {
	n := int(meta & 0xff)
	need(n >= 1 && (n <= 2 || n <= 8 && typ == replication.TypeSet))
	return n
}

// DECIMAL, with precision and scale enumerated.
func I_C09_CellSizeDecimal(b []byte, pos int, precision int, scale int, unsigned bool) (int, bool) {
	return I_C09_CellSize(b, pos, int(replication.TypeNewDecimal), uint16(precision)<<8|uint16(scale), unsigned)
}
func S_C09_CellSizeDecimal(b []byte, pos int, precision int, scale int, unsigned bool) (int, bool) {
	i, f := precision-scale, scale
	return i/9*4 + groupBytes[i%9] + f/9*4 + groupBytes[f%9], true
}

// repl_cellLength is the function of package replication that says how long a
// cell is; C09_CellLength compares it with cellSize.
func repl_cellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
	panic("replaced")
}

// The size used to split an image into cells, for every type and metadata.
func I_C09_CellLength(b []byte, pos int, typ int, meta uint16) (int, bool) {
	n, err := repl_cellLength(b, pos, byte(typ), meta)
	if err != nil {
		return 0, false
	}
	return n, true
}
func S_C09_CellLength(b []byte, pos int, typ int, meta uint16) (int, bool) {
	n, ok := cellSize(b, pos, byte(typ), meta)
	need(ok)
	return n, ok
}

// DECIMAL, with precision and scale enumerated.
func I_C09_CellLengthDecimal(b []byte, pos int, precision int, scale int) (int, bool) {
	return I_C09_CellLength(b, pos, int(replication.TypeNewDecimal), uint16(precision)<<8|uint16(scale))
}
func S_C09_CellLengthDecimal(b []byte, pos int, precision int, scale int) (int, bool) {
	return S_C09_CellSizeDecimal(b, pos, precision, scale, false)
}

// The size a cell decoder reports, for every type and metadata.
func I_C09_CellSize(b []byte, pos int, typ int, meta uint16, unsigned bool) (int, bool) {
	_, n, err := replication.CellBytes(b, pos, byte(typ), meta, unsigned)
	if err != nil {
		return 0, false
	}
	return n, true
}
func S_C09_CellSize(b []byte, pos int, typ int, meta uint16, unsigned bool) (int, bool) {
	n, ok := cellSize(b, pos, byte(typ), meta)
	need(ok)
	return n, ok
}

type srow struct {
	NullIdentifyColumns bitsOf
	NullColumns         bitsOf
	Identify            []byte
	Data                []byte
}
type srows struct {
	Flags           uint16
	IdentifyColumns bitsOf
	DataColumns     bitsOf
	Rows            []srow
}

func (m bitsOf) ones() int {
	n := 0
	for i := 0; i < m.count; i++ {
		if m.bit(i) {
			n++
		}
	}
	return n
}

// image reads one row image: the NULL bitmap over the present columns, then
// the cells of those present columns that are not NULL.
func image(d []byte, p int, present bitsOf, tm *replication.TableMap) (nulls bitsOf, img []byte, end int, ok bool) {
	n := present.ones()
	nulls = bitmap(d, p, n)
	p += (n + 7) / 8
	start, at := p, 0
	for c := 0; c < present.count; c++ {
		if present.bit(c) {
			if !nulls.bit(at) {
				l, err := repl_cellLength(d, p, tm.Types[c], tm.Metadata[c])
				if err != nil {
					return nulls, nil, p, false
				}
				p += l
			}
			at++
		}
	}
	return nulls, d[start:p], p, true
}

func I_C09_Rows(b []byte, f replication.BinlogFormat, tm *replication.TableMap, typ int) (replication.Rows, error) {
	need(b[4] == byte(typ))
	r, err := ev56(b).Rows(f, tm)
	if err != nil {
		return replication.Rows{}, err
	}
	return r, nil
}
func S_C09_Rows(b []byte, f replication.BinlogFormat, tm *replication.TableMap, typ int) (srows, error) {
	need(b[4] == byte(typ))
	update, del, write := typ == 24 || typ == 31, typ == 25 || typ == 32, typ == 23 || typ == 30
	d := body(b, f)
	p := 6
	if f.HeaderSizes[typ-1] == 6 {
		p = 4
	}
	r := srows{Flags: le16(d, p)}
	p += 2
	if typ >= 30 {
		p += int(le16(d, p))
	}
	n, p := lenenc(d, p)
	need(n < 1<<31)
	cols := int(n)
	need(p+(cols+7)/8*bitmaps(typ) <= len(d))
	if update || del {
		r.IdentifyColumns = bitmap(d, p, cols)
		p += (cols + 7) / 8
	}
	if update || write {
		r.DataColumns = bitmap(d, p, cols)
		p += (cols + 7) / 8
	}
	for p < len(d) {
		var w srow
		ok := true
		if update || del {
			w.NullIdentifyColumns, w.Identify, p, ok = image(d, p, r.IdentifyColumns, tm)
			if !ok {
				return srows{}, errAny
			}
		}
		if update || write {
			w.NullColumns, w.Data, p, ok = image(d, p, r.DataColumns, tm)
			if !ok {
				return srows{}, errAny
			}
		}
		r.Rows = append(r.Rows, w)
	}
	return r, nil
}

// bitmaps is the number of column bitmaps of a rows event.
func bitmaps(typ int) int {
	if typ == 24 || typ == 31 {
		return 2
	}
	return 1
}

// P_C09_Rows: the cases that are analysed one by one.
func P_C09_Rows(b []byte, f replication.BinlogFormat, tm *replication.TableMap, typ int) int {
	need(b[4] == byte(typ))
	d := body(b, f)
	p, k := 6, 0
	if f.HeaderSizes[typ-1] == 6 {
		p, k = 4, 1
	}
	p += 2
	if typ >= 30 {
		p += int(le16(d, p))
	}
	k = k*4 + lenKind(d[p])
	need(d[p] <= 0xfc) // a table has at most 4096 columns
	n, p := lenenc(d, p)
	need(n < 1<<31)
	need(p <= len(d) && p+(int(n)+7)/8*bitmaps(typ) <= len(d))
	return k
}
