From 5083043c751a393973bb66ef2b55dad5d44a884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 01/15] fix: keep the resume position before a transaction the
 handler rejected

The commit closure advanced pos before calling the handler, so a failed
handler call made the next Stream start after the rejected transaction.
---
 streamer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 8aaecd0..37b155f 100755
--- a/streamer.go
+++ b/streamer.go
@@ -122,12 +122,14 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 
 	commit := func(ev replication.BinlogEvent) error {
 		now := pos
-		pos.Offset = ev.NextPosition()
 		next := pos
+		next.Offset = ev.NextPosition()
 		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
 		if err = s.sendTransaction(tran); err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
+		// Only move on once the handler has accepted the transaction.
+		pos = next
 		tranEvents = nil
 		autocommit = true
 		return nil
-- 
2.43.0


From 74ae6c100a7f0b1cdf23ec22189326066da26455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 02/15] fix: keep the resume position when a table's column
 count disagrees

Returning Position{} made the next Stream call start from an empty file name.
---
 streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 37b155f..d373a8c 100755
--- a/streamer.go
+++ b/streamer.go
@@ -280,7 +280,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 
 			if len(info.Columns()) != tm.CanBeNull.Count() {
-				return Position{},
+				return pos,
 					newError(fmt.Errorf("parseEvents the length of column in tableMap(%d) "+
 						"did not equal to the length of column in table info(%d)", tm.CanBeNull.Count(),
 						len(info.Columns())))
-- 
2.43.0


From a6215ed03d8a14f626c2dcdef7e24ccfffc61b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 03/15] fix: stop the reader goroutine when Stream returns

The reader stayed blocked on the hand-off channel forever when the parser
returned for any other reason than the caller's cancellation.
---
 streamer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index d373a8c..ff3a83d 100755
--- a/streamer.go
+++ b/streamer.go
@@ -68,10 +68,14 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 		return err.msgf("newMysqlConn fail.")
 	}
 	defer conn.close()
+	// Whatever ends the parsing, the reader must not stay parked on handing over
+	// its next event.
+	readCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	s.sendTransaction = sendTransaction
 	var events <-chan replication.BinlogEvent
 	var pos Position
-	events, err = conn.startDumpFromBinlogPosition(ctx, s.serverID, s.binlogPosition())
+	events, err = conn.startDumpFromBinlogPosition(readCtx, s.serverID, s.binlogPosition())
 	if err != nil {
 		return err.msgf("startDumpFromBinlogPosition fail in pos: %+v", s.nowPos)
 	}
-- 
2.43.0


From 221161ff8319a34e5513bf1257f2a51cf032d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 04/15] fix: Error() must not block when no reader was started

With a nil errChan (no Stream call yet, or an attempt that failed before the
dump started) the receive blocked forever; after an earlier attempt it looked
at that attempt's channel.
---
 streamer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streamer.go b/streamer.go
index ff3a83d..7ffd9a8 100755
--- a/streamer.go
+++ b/streamer.go
@@ -61,6 +61,7 @@ func (s *Streamer) binlogPosition() Position {
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
+	s.errChan = nil
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
 		return mysql.NewDumpConn(s.dsn, ctx)
 	})
@@ -90,6 +91,10 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 
 //Error 每次使用Stream后需要检测Error
 func (s *Streamer) Error() error {
+	if s.errChan == nil {
+		// No reader was started, so there is no reason to wait for.
+		return nil
+	}
 	select {
 	case err, ok := <-s.errChan:
 		if ok {
-- 
2.43.0


From 76f1e26b14c2e4fd435a7f77a468381f2bbfb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 05/15] fix: never hand out the shared zero timestamp

---
 replication/binlog_event_rbr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 4bc3da3..3af325e 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -314,7 +314,8 @@ func cellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
 // and return the Buffer.
 func printTimestamp(v uint32) *bytes.Buffer {
 	if v == 0 {
-		return bytes.NewBuffer(ZeroTimestamp)
+		// The buffer's bytes are handed out, so they must not be the shared constant.
+		return bytes.NewBuffer(append([]byte(nil), ZeroTimestamp...))
 	}
 
 	t := time.Unix(int64(v), 0).Local()
-- 
2.43.0


From 9d7e407d3a354012db332cef22252349df8dec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 06/15] fix: no padding before the leading digits of a DECIMAL

---
 replication/binlog_event_rbr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 3af325e..d043155 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -678,7 +678,7 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			if flag { //当txt有正整数写入
 				fmt.Fprintf(txt, "%09d", val)
 			} else if val > 0 { //当txt无正整数且val>0时 才能写入
-				fmt.Fprintf(txt, "%9d", val)
+				fmt.Fprintf(txt, "%d", val)
 				flag = true
 			}
 			pos += 4
-- 
2.43.0


From cde2460087f3380d3e8c6ad80ca3c56368768d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 07/15] fix: a zero DECIMAL without fraction digits is 0, not
 empty

---
 replication/binlog_event_rbr.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index d043155..bec76de 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -684,16 +684,16 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			pos += 4
 		}
 
+		//当txt无正整数，此时需要加上0，表示生成的数整数部分没有值。
+		if !flag {
+			txt.WriteByte('0')
+		}
+
 		// now see if we have a fraction
 		if scale == 0 {
 			return txt.Bytes(), l, nil
 		}
 
-		//当txt无正整数，此时需要在小数点前加上0，表示生成的数整数部分没有值。
-		if !flag {
-			txt.WriteByte('0')
-		}
-
 		txt.WriteByte('.')
 
 		// now the full fractional digits
-- 
2.43.0


From f73c4b5547e92501bf33101410d81b90e0600b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 08/15] fix: sign of old-format negative TIME values

---
 replication/binlog_event_rbr.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index bec76de..73c43cd 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -406,25 +406,19 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 		return []byte(fmt.Sprintf("%04d-%02d-%02d", year, month, day)), 3, nil
 
 	case TypeTime:
-		var hour, minute, second int32
+		sign := ""
+		val := int32(data[pos]) +
+			int32(data[pos+1])<<8 +
+			int32(data[pos+2])<<16
 		if data[pos+2]&128 > 0 {
 			// Negative number, have to extend the sign.
-			val := int32(uint32(data[pos]) +
-				uint32(data[pos+1])<<8 +
-				uint32(data[pos+2])<<16 +
-				uint32(255)<<24)
-			hour = val / 10000
-			minute = -((val % 10000) / 100)
-			second = -(val % 100)
-		} else {
-			val := int32(data[pos]) +
-				int32(data[pos+1])<<8 +
-				int32(data[pos+2])<<16
-			hour = val / 10000
-			minute = (val % 10000) / 100
-			second = val % 100
+			sign = "-"
+			val = 1<<24 - val
 		}
-		return []byte(fmt.Sprintf("%02d:%02d:%02d", hour, minute, second)), 3, nil
+		hour := val / 10000
+		minute := (val % 10000) / 100
+		second := val % 100
+		return []byte(fmt.Sprintf("%v%02d:%02d:%02d", sign, hour, minute, second)), 3, nil
 
 	case TypeDateTime:
 		val := binary.LittleEndian.Uint64(data[pos : pos+8])
-- 
2.43.0


From 465aabc1968f867e5a3bceef9a84d2e7df255440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 09/15] fix: negative opaque TIME inside JSON

---
 replication/binlog_event_json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 91d5ad4..6b7e8fd 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -381,6 +381,11 @@ func printJSONDate(data []byte, toplevel bool, result *bytes.Buffer) error {
 
 func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 	raw := binary.LittleEndian.Uint64(data[:8])
+	// A negative time is stored as the two's complement of its magnitude.
+	negative := raw&(1<<63) != 0
+	if negative {
+		raw = -raw
+	}
 	value := raw >> 24
 	hour := (value >> 12) & 0x03ff // 10 bits starting at 12th
 	minute := (value >> 6) & 0x3f  // 6 bits starting at 6th
@@ -391,7 +396,7 @@ func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 		result.WriteString("CAST(")
 	}
 	result.WriteString("CAST('")
-	if value&0x8000000000 != 0 {
+	if negative {
 		result.WriteByte('-')
 	}
 	fmt.Fprintf(result, "%02d:%02d:%02d", hour, minute, second)
-- 
2.43.0


From 986ad15c83c32c4e5d1f39d8f1b6c7dccc9bb32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 10/15] fix: adding to a MariaDB GTID set must not change the
 original

---
 replication/mariadb_gtid.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 892abcd..09d8d81 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -186,15 +186,18 @@ func (gtidSet MariadbGTIDSet) AddGTID(other GTID) GTIDSet {
 	if !ok || other == nil {
 		return gtidSet
 	}
-	for i, gtid := range gtidSet {
+	// Work on a copy, the receiver must not change.
+	newSet := make(MariadbGTIDSet, len(gtidSet), len(gtidSet)+1)
+	copy(newSet, gtidSet)
+	for i, gtid := range newSet {
 		if mdbOther.Domain == gtid.Domain {
 			if mdbOther.Sequence > gtid.Sequence {
-				gtidSet[i] = mdbOther
+				newSet[i] = mdbOther
 			}
-			return gtidSet
+			return newSet
 		}
 	}
-	return append(gtidSet, mdbOther)
+	return append(newSet, mdbOther)
 }
 
 func init() {
-- 
2.43.0


From d9fe735453099a2240456567c794584c66548c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 11/15] fix: a statement keyword may be followed by any white
 space

---
 mysql_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_types.go b/mysql_types.go
index 99be901..7c0c697 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -78,7 +78,7 @@ func (s StatementType) IsDDL() bool {
 
 //GetStatementCategory we can get statement type from a SQL
 func GetStatementCategory(sql string) StatementType {
-	if i := strings.IndexByte(sql, byte(' ')); i >= 0 {
+	if i := strings.IndexAny(sql, " \t\r\n"); i >= 0 {
 		sql = sql[:i]
 	}
 	if s, ok := statementPrefixes[strings.ToLower(sql)]; ok {
-- 
2.43.0


From 7caa6cdfaa9c5c2d39b63e200f5d49826f4d74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 12/15] fix: look a table up again when its id is reused for
 another table

---
 streamer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamer.go b/streamer.go
index 7ffd9a8..614abf8 100755
--- a/streamer.go
+++ b/streamer.go
@@ -272,8 +272,12 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Debugf("parseEvents pos: %+v binlog event is a table map event, tableID: %v table map: %+v",
 				pos, tableID, *tm)
 
-			if _, ok = tablesMaps[tableID]; ok {
-				tablesMaps[tableID].tableMap = tm
+			// The looked up table may only be kept while the id denotes the same table
+			// with as many columns, ids are reused once the master restarts.
+			if old, ok := tablesMaps[tableID]; ok &&
+				old.tableMap.Database == tm.Database && old.tableMap.Name == tm.Name &&
+				old.tableMap.CanBeNull.Count() == tm.CanBeNull.Count() {
+				old.tableMap = tm
 				continue
 			}
 
-- 
2.43.0


From 4baa4271121285cb2101e1f3617e0d31937ab68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 13/15] fix: every Error() call reports the reason the stream
 ended

---
 streamer.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/streamer.go b/streamer.go
index 614abf8..573820c 100755
--- a/streamer.go
+++ b/streamer.go
@@ -24,6 +24,7 @@ type Streamer struct {
 	sendTransaction SendTransactionFunc
 	errChan         <-chan *Error
 	ctx             context.Context
+	reason          atomic.Value // the reader's exit reason, once Error has received it
 }
 
 //SendTransactionFunc 处理事务信息函数，你可以将一个chan注册到这个函数中如
@@ -62,6 +63,7 @@ func (s *Streamer) binlogPosition() Position {
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
 	s.errChan = nil
+	s.reason.Store((*Error)(nil))
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
 		return mysql.NewDumpConn(s.dsn, ctx)
 	})
@@ -95,20 +97,21 @@ func (s *Streamer) Error() error {
 		// No reader was started, so there is no reason to wait for.
 		return nil
 	}
-	select {
-	case err, ok := <-s.errChan:
-		if ok {
-			switch {
-			case s.ctx.Err() == context.Canceled:
-				return nil
-			case err.Original() == context.Canceled,
-				err.Original() == errStreamEOF:
-				return nil
-			default:
-				return err
-			}
-		}
+	if err, ok := <-s.errChan; ok {
+		// The channel carries the reason only once, but every call has to report it.
+		s.reason.Store(err)
+	}
+	err, _ := s.reason.Load().(*Error)
+	switch {
+	case err == nil:
+		return nil
+	case s.ctx.Err() == context.Canceled:
+		return nil
+	case err.Original() == context.Canceled,
+		err.Original() == errStreamEOF:
 		return nil
+	default:
+		return err
 	}
 }
 
-- 
2.43.0


From 9345351d4d7a17118ce2e63372a529a3a87c70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 14/15] fix: a later cancellation must not hide why the stream
 ended

---
 error.go            | 2 ++
 slave_connection.go | 2 ++
 streamer.go         | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 41ced3e..0e013fd 100644
--- a/error.go
+++ b/error.go
@@ -15,6 +15,8 @@ var (
 type Error struct {
 	ori error
 	msg string
+
+	uncanceled bool //错误发生时流还没有被取消
 }
 
 func newError(ori error) *Error {
diff --git a/slave_connection.go b/slave_connection.go
index 4f5afb7..5b9ed0f 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -87,6 +87,8 @@ func (s *slaveConnection) startDumpFromBinlogPosition(ctx context.Context, serve
 			ev, err := s.readBinlogEvent()
 			if err != nil {
 				_log.Errorf("startDumpFromBinlogPosition readBinlogEvent fail. reason: %v", err)
+				// A cancellation that comes later must not hide this reason.
+				err.uncanceled = ctx.Err() == nil
 				s.errChan <- err
 				close(s.errChan)
 				return
diff --git a/streamer.go b/streamer.go
index 573820c..4543ba0 100755
--- a/streamer.go
+++ b/streamer.go
@@ -105,7 +105,7 @@ func (s *Streamer) Error() error {
 	switch {
 	case err == nil:
 		return nil
-	case s.ctx.Err() == context.Canceled:
+	case !err.uncanceled && s.ctx.Err() == context.Canceled:
 		return nil
 	case err.Original() == context.Canceled,
 		err.Original() == errStreamEOF:
-- 
2.43.0


From 1cbf8d1071485e79a8a8b2d1fb6c4236728e139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 15/15] fix: honour cancellation while the checksum statement
 is unanswered

---
 streamer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 4543ba0..c628e5c 100755
--- a/streamer.go
+++ b/streamer.go
@@ -59,13 +59,29 @@ func (s *Streamer) binlogPosition() Position {
 	return s.nowPos.Load().(Position)
 }
 
+// cancelableConn gives up waiting for the answer to a statement on cancellation.
+type cancelableConn struct {
+	*mysql.DumpConn
+	ctx context.Context
+}
+
+// Exec implements dumpConn.Exec().
+func (c *cancelableConn) Exec(query string) error {
+	_, err := c.DumpConn.ExecContext(c.ctx, query, nil)
+	return err
+}
+
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
 	s.errChan = nil
 	s.reason.Store((*Error)(nil))
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
-		return mysql.NewDumpConn(s.dsn, ctx)
+		dc, e := mysql.NewDumpConn(s.dsn, ctx)
+		if e != nil {
+			return nil, e
+		}
+		return &cancelableConn{DumpConn: dc, ctx: ctx}, nil
 	})
 	if err != nil {
 		return err.msgf("newMysqlConn fail.")
-- 
2.43.0

