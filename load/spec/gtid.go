package spec

import (
	"errors"

	"github.com/Breeze0806/gobinlog/replication"
)

// ---- C19: identifiers carried by events

type gtidOf struct {
	id    replication.GTID
	begin bool
}

func I_C19_EventGTID56(b []byte, f replication.BinlogFormat) (gtidOf, error) {
	g, begin, err := ev56(b).GTID(f)
	return gtidOf{g, begin}, err
}
func S_C19_EventGTID56(b []byte, f replication.BinlogFormat) (gtidOf, error) {
	p := body(b, f)
	need(len(p) >= 25)
	var sid replication.SID
	copy(sid[:], p[1:17])
	gno := uint64(le32(p, 17)) | uint64(le32(p, 21))<<32
	return gtidOf{replication.Mysql56GTID{Server: sid, Sequence: int64(gno)}, false}, nil
}

func I_C19_EventGTIDMariadb(b []byte, f replication.BinlogFormat) (gtidOf, error) {
	g, begin, err := evMdb(b).GTID(f)
	return gtidOf{g, begin}, err
}
func S_C19_EventGTIDMariadb(b []byte, f replication.BinlogFormat) (gtidOf, error) {
	p := body(b, f)
	need(len(p) >= 13)
	return gtidOf{replication.MariadbGTID{
		Sequence: uint64(le32(p, 0)) | uint64(le32(p, 4))<<32,
		Domain:   le32(p, 8),
		Server:   le32(b, 5),
	}, p[12]&1 == 0}, nil
}

// the body of a previous-GTIDs event is a SID block (the subject of
// C19_SIDBlockParse)
func I_C19_EventPrevious(b []byte, f replication.BinlogFormat) (replication.GTIDSet, error) {
	return ev56(b).PreviousGTIDs(f)
}
func S_C19_EventPrevious(b []byte, f replication.BinlogFormat) (replication.GTIDSet, error) {
	set, err := replication.NewMysql56GTIDSetFromSIDBlock(body(b, f))
	if err != nil {
		return nil, err
	}
	return set, nil
}

func I_C19_EventPreviousMariadb(b []byte, f replication.BinlogFormat) (replication.GTIDSet, error) {
	return evMdb(b).PreviousGTIDs(f)
}
func S_C19_EventPreviousMariadb(b []byte, f replication.BinlogFormat) (replication.GTIDSet, error) {
	return nil, errors.New("no such event")
}
