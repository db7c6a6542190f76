package spec

import "github.com/Breeze0806/gobinlog/replication"

func le16(b []byte, i int) uint16 { return uint16(b[i]) | uint16(b[i+1])<<8 }
func le24(b []byte, i int) uint32 {
	return uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16
}
func le32(b []byte, i int) uint32 {
	return uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
}
func le48(b []byte, i int) uint64 { return uint64(le32(b, i)) | uint64(le16(b, i+4))<<32 }
func le64(b []byte, i int) uint64 { return uint64(le32(b, i)) | uint64(le32(b, i+4))<<32 }

// need marks inputs outside the domain.
func need(ok bool) {
	if !ok {
		panic("outside the domain")
	}
}

func ev56(b []byte) replication.BinlogEvent  { return replication.NewMysql56BinlogEvent(b) }
func evMdb(b []byte) replication.BinlogEvent { return replication.NewMariadbBinlogEvent(b) }

// ---- C17: the validity gate

func gate(b []byte) bool { return len(b) >= 19 && uint64(le32(b, 9)) == uint64(len(b)) }

func I_C17_IsValid(b []byte) bool        { return ev56(b).IsValid() }
func S_C17_IsValid(b []byte) bool        { return gate(b) }
func I_C17_IsValidMariadb(b []byte) bool { return evMdb(b).IsValid() }
func S_C17_IsValidMariadb(b []byte) bool { return gate(b) }

// ---- C16: header fields and event kinds

func valid(b []byte) { need(gate(b)) }

func I_C16_Timestamp(b []byte) uint32          { return ev56(b).Timestamp() }
func S_C16_Timestamp(b []byte) uint32          { valid(b); return le32(b, 0) }
func I_C16_NextPosition(b []byte) int64        { return ev56(b).NextPosition() }
func S_C16_NextPosition(b []byte) int64        { valid(b); return int64(le32(b, 13)) }
func I_C16_TimestampMariadb(b []byte) uint32   { return evMdb(b).Timestamp() }
func S_C16_TimestampMariadb(b []byte) uint32   { valid(b); return le32(b, 0) }
func I_C16_NextPositionMariadb(b []byte) int64 { return evMdb(b).NextPosition() }
func S_C16_NextPositionMariadb(b []byte) int64 { valid(b); return int64(le32(b, 13)) }

type hdr interface {
	Type() byte
	Flags() uint16
	ServerID() uint32
	Length() uint32
}

func I_C16_Type(b []byte) byte       { return ev56(b).(hdr).Type() }
func S_C16_Type(b []byte) byte       { valid(b); return b[4] }
func I_C16_Flags(b []byte) uint16    { return ev56(b).(hdr).Flags() }
func S_C16_Flags(b []byte) uint16    { valid(b); return le16(b, 17) }
func I_C16_ServerID(b []byte) uint32 { return ev56(b).(hdr).ServerID() }
func S_C16_ServerID(b []byte) uint32 { valid(b); return le32(b, 5) }
func I_C16_Length(b []byte) uint32   { return ev56(b).(hdr).Length() }
func S_C16_Length(b []byte) uint32   { valid(b); return le32(b, 9) }

// kinds: one flag per event class, from the type byte alone.
type kinds struct {
	FormatDescription, Query, XID, GTID, Rotate, IntVar, Rand, PreviousGTIDs, RowsQuery bool
	TableMap, WriteRows, UpdateRows, DeleteRows, Pseudo                                 bool
}

func kindsOf(e replication.BinlogEvent) kinds {
	return kinds{e.IsFormatDescription(), e.IsQuery(), e.IsXID(), e.IsGTID(), e.IsRotate(), e.IsIntVar(), e.IsRand(),
		e.IsPreviousGTIDs(), e.IsRowsQuery(), e.IsTableMap(), e.IsWriteRows(), e.IsUpdateRows(), e.IsDeleteRows(), e.IsPseudo()}
}

func kindOf(t byte, gtid byte) kinds {
	return kinds{FormatDescription: t == 15, Query: t == 2, XID: t == 16, GTID: t == gtid, Rotate: t == 4, IntVar: t == 5, Rand: t == 13,
		PreviousGTIDs: t == 35, RowsQuery: t == 29, TableMap: t == 19, WriteRows: t == 23 || t == 30, UpdateRows: t == 24 || t == 31,
		DeleteRows: t == 25 || t == 32}
}

func I_C16_Kinds(b []byte) kinds        { return kindsOf(ev56(b)) }
func S_C16_Kinds(b []byte) kinds        { valid(b); return kindOf(b[4], 33) }
func I_C16_KindsMariadb(b []byte) kinds { return kindsOf(evMdb(b)) }
func S_C16_KindsMariadb(b []byte) kinds { valid(b); return kindOf(b[4], 162) }
func I_C16_Bytes(b []byte) []byte       { return ev56(b).Bytes() }
func S_C16_Bytes(b []byte) []byte       { return b }
