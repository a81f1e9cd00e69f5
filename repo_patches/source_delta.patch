From a8f6d6ab763b47c9b04b2cc2a40a1b3badb76512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 01/17] fix: Close of an idle client must not dial a new
 connection

waitForError returned the closed flag read before waiting, so the reconnect
goroutine dialled (and dropped) one more connection for every pool slot.
---
 memcache/sender.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memcache/sender.go b/memcache/sender.go
index b6a4266..27891bd 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -291,6 +291,7 @@ func (s *sender) waitForError() (closed bool) {
 	for !s.closed && s.conn.getLastErrorInternal() == nil {
 		s.ncErrorCond.Wait()
 	}
+	result = s.closed // may have been closed while waiting
 	s.connMut.Unlock()
 	return result
 }
-- 
2.43.0


From 81befaa7e0213ebeb9ea40b78e043d1f48803605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 02/17] fix: complete every batch of a pipeline flushed after
 Close

---
 memcache/sender.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 27891bd..530bdf1 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -263,7 +263,10 @@ func (s *sender) sendToWriter() (closed bool) {
 func (s *sender) publish(cmd *commandListData) {
 	closed := s.sendBuf.push(cmd)
 	if closed {
-		cmd.setCompleted(ErrConnClosed)
+		// complete all batches of the pipeline session, not only the first one
+		for current := cmd; current != nil; current = current.sibling {
+			current.setCompleted(ErrConnClosed)
+		}
 	}
 }
 
-- 
2.43.0


From 1e709d487f99fd0a3786e4a35aee4430977a5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 03/17] fix: Close waits for the sender goroutine to end

---
 memcache/conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memcache/conn.go b/memcache/conn.go
index 8ddb26d..6af3fa8 100644
--- a/memcache/conn.go
+++ b/memcache/conn.go
@@ -96,5 +96,6 @@ func (c *clientConn) shutdown() {
 
 func (c *clientConn) waitCloseCompleted() {
 	c.wg.Wait()
+	c.core.sender.waitForClosingSendJob()
 	c.core.waitReceiverShutdown()
 }
-- 
2.43.0


From 82b720274eba29a7e402c7b7f27ce2decafccbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 04/17] fix: no redial loop while closing with failing dials

---
 memcache/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memcache/conn.go b/memcache/conn.go
index 6af3fa8..75d1ab7 100644
--- a/memcache/conn.go
+++ b/memcache/conn.go
@@ -67,7 +67,9 @@ func newConn(
 			if err != nil {
 				opts.dialErrorLogger(err)
 
-				sleepWithCloseChan(opts.retryDuration, c.closeChan)
+				if closed := sleepWithCloseChan(opts.retryDuration, c.closeChan); closed {
+					return
+				}
 				continue
 			}
 
-- 
2.43.0


From ac6291873431d4e73e74fcab0df3aee4c03ad358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 05/17] fix: do not hold connMut while waiting for the receive
 buffer

---
 memcache/sender.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 530bdf1..bc4a7f0 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -221,38 +221,49 @@ func clearCmdList(cmdList []*commandListData) []*commandListData {
 	return cmdList[:0]
 }
 
-func (s *sender) writeAndFlush() {
-	if s.conn.getLastErrorInternal() != nil {
+func (s *sender) writeAndFlush(conn *senderConnection) {
+	if conn.getLastErrorInternal() != nil {
 		return
 	}
 
 	for _, cmd := range s.tmpBuf {
-		if err := cmd.writeToWriter(s.conn.writer); err != nil {
-			_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		if err := cmd.writeToWriter(conn.writer); err != nil {
+			_ = conn.setLastErrorAndCloseUnsafe(err)
 			return
 		}
 	}
 
-	err := s.conn.writer.Flush()
+	err := conn.writer.Flush()
 	if err != nil {
-		_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		_ = conn.setLastErrorAndCloseUnsafe(err)
 		return
 	}
 }
 
+func (s *sender) getConn() *senderConnection {
+	s.connMut.Lock()
+	conn := s.conn
+	s.connMut.Unlock()
+	return conn
+}
+
 func (s *sender) sendToWriter() (closed bool) {
 	s.tmpBuf, closed = s.selector.readCommands(s.tmpBuf)
 
-	s.connMut.Lock()
+	conn := s.getConn()
 
 	for _, cmd := range s.tmpBuf {
-		cmd.conn = s.conn
+		cmd.conn = conn
 	}
 
+	// connMut must NOT be held here: push might wait for the receiver,
+	// and the receiver needs connMut when reading fails
 	s.recv.push(s.tmpBuf)
 
+	s.connMut.Lock()
+
 	// flush to tcp socket
-	s.writeAndFlush()
+	s.writeAndFlush(conn)
 
 	s.tmpBuf = clearCmdList(s.tmpBuf)
 	s.connMut.Unlock()
-- 
2.43.0


From 891c70e41c5f9e2392fd5227e8d64f8286d0255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 06/17] fix: reject value sizes no server can send

---
 memcache/reader.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/memcache/reader.go b/memcache/reader.go
index dbe3906..280fac8 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -47,6 +47,11 @@ var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
+var errValueTooBig = ErrBrokenPipe{reason: "value size after VA is too big"}
+
+// maxValueSize is the biggest item size memcached can be configured with
+const maxValueSize = 1 << 30
+
 func (r *responseReader) writeResponse(data []byte) {
 	r.currentCmd.responseData = append(r.currentCmd.responseData, data...)
 }
@@ -157,11 +162,13 @@ func (r *responseReader) handleGetNum(data []byte) []byte {
 
 		r.writeResponse(data[:index])
 
-		n := len(r.tmpData)
-		r.dataLen = uint64(r.tmpData[0] - '0')
-		for i := 1; i < n; i++ {
+		r.dataLen = 0
+		for _, digit := range r.tmpData {
 			r.dataLen *= 10
-			r.dataLen += uint64(r.tmpData[i] - '0')
+			r.dataLen += uint64(digit - '0')
+			if r.dataLen > maxValueSize {
+				return r.setErrorAndReturn(errValueTooBig)
+			}
 		}
 
 		r.currentBinary = getByteSlice(r.dataLen)
-- 
2.43.0


From ac5a0c034d9cd3a50402579db348789a7d388713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 07/17] fix: a value must be followed by CRLF

---
 memcache/reader.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/memcache/reader.go b/memcache/reader.go
index 280fac8..04ca275 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -47,6 +47,8 @@ var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
+var errNoCRLFAfterValue = ErrBrokenPipe{reason: "no CRLF after value"}
+
 var errValueTooBig = ErrBrokenPipe{reason: "value size after VA is too big"}
 
 // maxValueSize is the biggest item size memcached can be configured with
@@ -209,6 +211,20 @@ func (r *responseReader) handleFindLFForVA(data []byte) []byte {
 	return data[1:]
 }
 
+// isPartOfTrailer checks that the bytes of the CRLF after a value are CR and LF,
+// **data** is the last received data and **remaining** is the number of bytes still to be received
+func isPartOfTrailer(data []byte, remaining uint64) bool {
+	const reversedCRLF = "\n\r"
+
+	for i := len(data) - 1; i >= 0 && remaining < uint64(len(reversedCRLF)); i-- {
+		if data[i] != reversedCRLF[remaining] {
+			return false
+		}
+		remaining++
+	}
+	return true
+}
+
 func (r *responseReader) handleBinaryData(data []byte) []byte {
 	n := uint64(len(data))
 	if r.dataLen < n {
@@ -217,6 +233,10 @@ func (r *responseReader) handleBinaryData(data []byte) []byte {
 
 	r.dataLen -= n
 
+	if !isPartOfTrailer(data[:n], r.dataLen) {
+		return r.setErrorAndReturn(errNoCRLFAfterValue)
+	}
+
 	if r.currentIndex < len(r.currentBinary) {
 		copy(r.currentBinary[r.currentIndex:], data)
 		r.currentIndex += int(n)
-- 
2.43.0


From 22a5633f819825b09d315c690a768d5419eb74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 08/17] fix: drop received data of a failed connection

---
 memcache/core.go   | 7 +++++++
 memcache/reader.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/memcache/core.go b/memcache/core.go
index 07bc230..0ee5bdf 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -17,6 +17,8 @@ type coreConnection struct {
 	// job data
 	msgData []byte
 	cmdList *cmdListReader
+
+	readConn *senderConnection // connection of the last command
 }
 
 func newCoreConnection(nc netconn.NetConn, options *memcacheOptions) *coreConnection {
@@ -78,6 +80,11 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	}
 
 	current := c.cmdList.current()
+	if c.readConn != current.conn {
+		// never use data of the previous connection
+		c.readConn = current.conn
+		c.responseReader.reset()
+	}
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
diff --git a/memcache/reader.go b/memcache/reader.go
index 04ca275..a841fd1 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -329,4 +329,5 @@ func (r *responseReader) reset() {
 	r.tmpData = r.tmpData[:]
 	r.state = readerStateInit
 	r.lastErr = nil
+	r.remainingData = nil
 }
-- 
2.43.0


From af9d54abefc3387b798d7e2e43a556e57a523bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 09/17] fix: reject replies without the expected number instead
 of looping

---
 memcache/parser.go | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index f24cbe7..7b75daa 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -131,29 +131,14 @@ func isDigit(c byte) bool {
 	return c >= '0' && c <= '9'
 }
 
-func findNumber(data []byte, index int) (uint64, int) {
-	foundIndex := -1
-	var firstChar byte
-	for i := index; i < len(data); i++ {
-		if isDigit(data[i]) {
-			foundIndex = i
-			firstChar = data[i]
-			break
-		}
-	}
-
-	num := uint64(firstChar - '0')
-
-	var i int
-	for i = foundIndex + 1; i < len(data); i++ {
-		if !isDigit(data[i]) {
-			break
-		}
+// findNumber parses the number at data[index:], **ok** is false if there is no digit at **index**
+func findNumber(data []byte, index int) (num uint64, nextIndex int, ok bool) {
+	i := index
+	for ; i < len(data) && isDigit(data[i]); i++ {
 		num *= 10
 		num += uint64(data[i] - '0')
 	}
-
-	return num, i // next index right after number
+	return num, i, i > index // next index right after number
 }
 
 func (p *parser) returnIfCRLF(index int, resp MGetResponse) (MGetResponse, error) {
@@ -181,7 +166,10 @@ func (p *parser) parseMGetFlags(index int, resp *MGetResponse) (int, error) {
 			continue
 		}
 		if p.data[i] == 'c' {
-			cas, nextIndex := findNumber(p.data, i+1)
+			cas, nextIndex, ok := findNumber(p.data, i+1)
+			if !ok {
+				return 0, ErrInvalidMGet
+			}
 			resp.CAS = cas
 			i = nextIndex - 1
 			continue
@@ -213,7 +201,14 @@ func (p *parser) readMGetHD() (MGetResponse, error) {
 }
 
 func (p *parser) readMGetVA() (MGetResponse, error) {
-	_, index := findNumber(p.data, 3)
+	index := 2
+	for index < len(p.data) && p.data[index] == ' ' {
+		index++
+	}
+	_, index, ok := findNumber(p.data, index)
+	if !ok {
+		return MGetResponse{}, ErrInvalidMGet
+	}
 
 	resp := MGetResponse{
 		Type: MGetResponseTypeVA,
-- 
2.43.0


From d22cfad0d8ffcf34c970cfcca790685907db6fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 10/17] fix: error replies without message and short flush_all
 replies

---
 memcache/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index 7b75daa..31af88c 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -241,13 +241,15 @@ const (
 
 func (p *parser) readError(errType errorType) error {
 	index := len(serverErrorPrefix)
-	crlfIndex := p.findCRLF(index + 1)
+	crlfIndex := p.findCRLF(index)
 	if crlfIndex < 0 {
 		return ErrInvalidResponse
 	}
 
-	data := make([]byte, crlfIndex-2-index-1)
-	copy(data, p.data[index+1:])
+	data := p.data[index : crlfIndex-2]
+	if len(data) > 0 {
+		data = data[1:] // the space, missing when there is no message
+	}
 
 	p.skipData(crlfIndex)
 
@@ -420,6 +422,9 @@ func (p *parser) readFlushAllWithCRLF() error {
 }
 
 func (p *parser) readFlushAll() error {
+	if len(p.data) < 4 {
+		return ErrInvalidResponse
+	}
 	if p.prefixEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
-- 
2.43.0


From 37c4399380a4c0f7650a0a834877539217aa0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 11/17] fix: fail the commands after a malformed reply

---
 memcache/pipeline.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 3fc564e..af030c4 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -107,7 +107,7 @@ func parseCommandsForSingleCommandData(
 		return
 	}
 
-	for _, cmd := range pipelineCommands {
+	for i, cmd := range pipelineCommands {
 		switch cmd.cmdType {
 		case commandTypeMGet:
 			resp, err := ps.readMGet()
@@ -137,7 +137,15 @@ func parseCommandsForSingleCommandData(
 			if IsServerError(cmd.err) {
 				continue
 			}
+			_, malformed := cmd.err.(ErrBrokenPipe)
 			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+			if malformed {
+				// the boundaries of the remaining responses are unknown
+				for _, remaining := range pipelineCommands[i+1:] {
+					remaining.err = cmd.err
+				}
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 310a84b905b4d4183bc684ced615d9c89dfcf7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 12/17] fix: bound the authentication handshake by the connect
 timeout

---
 memcache/netconn/auth.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memcache/netconn/auth.go b/memcache/netconn/auth.go
index 657e15e..be25468 100644
--- a/memcache/netconn/auth.go
+++ b/memcache/netconn/auth.go
@@ -48,6 +48,14 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, err
 		}
 
+		// the handshake is part of the dial: it must not take longer than the connect timeout
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		n := len(a.username) + len(a.password) + 1
 		msg := fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", n, a.username, a.password)
 
@@ -68,6 +76,13 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, ErrInvalidUsernamePassword
 		}
 
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Time{}); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		return conn, nil
 	}
 }
-- 
2.43.0


From da10fd84d238e05c681c3031d76350dde7885ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 13/17] fix: a key dump cut short by the server is an error

---
 memcache/stats/stats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index d93c031..a458f98 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"bufio"
+	"io"
 	"log"
 	"net/url"
 	"strconv"
@@ -498,7 +499,11 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		}
 		scanFunc(key)
 	}
-	return c.scanner.Err()
+
+	if err := c.scanner.Err(); err != nil {
+		return err
+	}
+	return io.EOF // closed before END
 }
 
 type statItem struct {
-- 
2.43.0


From 0e397d4a9e63069fda382a62a9f975e43ce163a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 14/17] fix: a failed statistics call leaves nothing of its
 response to the next one

---
 memcache/stats/parser.go | 36 ++++++++++++++++++++++++++++++++++++
 memcache/stats/stats.go  | 23 +++++++++++++----------
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/memcache/stats/parser.go b/memcache/stats/parser.go
index 6afa584..fc32c82 100644
--- a/memcache/stats/parser.go
+++ b/memcache/stats/parser.go
@@ -79,6 +79,42 @@ func (p *statsParser) next() bool {
 	return true
 }
 
+func isStatsEnd(line string) bool {
+	fields := strings.Fields(line)
+	return len(fields) > 0 && fields[0] == "END"
+}
+
+// isErrorReply checks whether the line is a whole response on its own
+func isErrorReply(line string) bool {
+	fields := strings.Fields(line)
+	if len(fields) == 0 {
+		return false
+	}
+	switch fields[0] {
+	case "ERROR", "CLIENT_ERROR", "SERVER_ERROR", "BUSY", "BADCLASS", "NOTSTARTED":
+		return true
+	default:
+		return false
+	}
+}
+
+// skipResponse discards what is left of a response after a line that could not be processed,
+// otherwise the next command would read it as the beginning of its own response.
+func skipResponse(scanner *bufio.Scanner, isEnd func(line string) bool) {
+	line := scanner.Text()
+	for !isEnd(line) && !isErrorReply(line) && scanner.Scan() {
+		line = scanner.Text()
+	}
+}
+
+// failed is called with the error (if any) at which a call stops before the end of its response
+func (p *statsParser) failed(err error) error {
+	if err != nil {
+		skipResponse(p.scanner, isStatsEnd)
+	}
+	return err
+}
+
 func (p *statsParser) getError() error {
 	return p.lastErr
 }
diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index a458f98..dbfe097 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -99,14 +99,14 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "pid":
 			pid, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
-				return GeneralStats{}, err
+				return GeneralStats{}, c.parser.failed(err)
 			}
 			result.PID = pid
 
 		case "uptime":
 			uptime, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
-				return GeneralStats{}, err
+				return GeneralStats{}, c.parser.failed(err)
 			}
 			result.Uptime = uptime
 
@@ -114,7 +114,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		}
 	}
 
-	return result, c.parser.getError()
+	return result, c.parser.failed(c.parser.getError())
 }
 
 // SingleSlabStats ...
@@ -213,26 +213,26 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "active_slabs":
 			active, err := strconv.ParseUint(item.value, 10, 32)
 			if err != nil {
-				return SlabsStats{}, err
+				return SlabsStats{}, c.parser.failed(err)
 			}
 			result.ActiveSlabs = uint32(active)
 
 		case "total_malloced":
 			totalMalloced, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
-				return SlabsStats{}, err
+				return SlabsStats{}, c.parser.failed(err)
 			}
 			result.TotalMalloced = totalMalloced
 
 		default:
 			err := result.parseSlabStat(item)
 			if err != nil {
-				return SlabsStats{}, err
+				return SlabsStats{}, c.parser.failed(err)
 			}
 		}
 	}
 
-	return result, c.parser.getError()
+	return result, c.parser.failed(c.parser.getError())
 }
 
 // SlabItemsStats ...
@@ -395,11 +395,11 @@ func (c *Client) GetSlabItemsStats() (SlabItemsStats, error) {
 		item := c.parser.getItem()
 		err := result.parseSlabItemStat(item)
 		if err != nil {
-			return SlabItemsStats{}, err
+			return SlabItemsStats{}, c.parser.failed(err)
 		}
 	}
 
-	return result, c.parser.getError()
+	return result, c.parser.failed(c.parser.getError())
 }
 
 // MetaDumpKey ...
@@ -487,14 +487,17 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		return err
 	}
 
+	isEnd := func(line string) bool { return line == "END" }
+
 	for c.scanner.Scan() {
 		line := c.scanner.Text()
-		if line == "END" {
+		if isEnd(line) {
 			return nil
 		}
 
 		key, err := parseMetaDumpKey(line)
 		if err != nil {
+			skipResponse(c.scanner, isEnd)
 			return err
 		}
 		scanFunc(key)
-- 
2.43.0


From f196aa2f699f23de4f0d77efe4eddf57663d4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 15/17] fix: statistics client options given in several
 WithNetConnOptions add up

---
 memcache/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index dbfe097..84949c0 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -39,7 +39,7 @@ func WithErrorLogger(logger func(err error)) Option {
 // WithNetConnOptions ...
 func WithNetConnOptions(options ...netconn.Option) Option {
 	return func(conf *dialConfig) {
-		conf.connOptions = options
+		conf.connOptions = append(conf.connOptions, options...)
 	}
 }
 
-- 
2.43.0


From cb45cf708ebbb68d3f79b0437d8751813739866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 16/17] fix: a CAS number that does not fit in 64 bits is
 malformed

---
 memcache/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index 31af88c..2ce313e 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -2,6 +2,7 @@ package memcache
 
 import (
 	"bytes"
+	"math"
 	"strings"
 )
 
@@ -131,12 +132,16 @@ func isDigit(c byte) bool {
 	return c >= '0' && c <= '9'
 }
 
-// findNumber parses the number at data[index:], **ok** is false if there is no digit at **index**
+// findNumber parses the number at data[index:],
+// **ok** is false if there is no digit at **index** or the number does not fit in 64 bits
 func findNumber(data []byte, index int) (num uint64, nextIndex int, ok bool) {
 	i := index
 	for ; i < len(data) && isDigit(data[i]); i++ {
-		num *= 10
-		num += uint64(data[i] - '0')
+		digit := uint64(data[i] - '0')
+		if num > (math.MaxUint64-digit)/10 {
+			return 0, i, false
+		}
+		num = num*10 + digit
 	}
 	return num, i, i > index // next index right after number
 }
-- 
2.43.0


From 6d9c60c3974a77833b252c278ea5e841cc90cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 17/17] fix: a reply is recognised by its whole status word,
 not by a prefix

---
 memcache/parser.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index 2ce313e..4e05d8e 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -120,6 +120,16 @@ func (p *parser) prefixEqual(a, b byte) bool {
 	return p.data[0] == a && p.data[1] == b
 }
 
+// isEndOfWord checks that the first word of the response ends at **index**
+func (p *parser) isEndOfWord(index int) bool {
+	return index < len(p.data) && (p.data[index] == ' ' || p.data[index] == '\r')
+}
+
+// statusEqual checks that the first word of the response is **ab**
+func (p *parser) statusEqual(a, b byte) bool {
+	return p.prefixEqual(a, b) && p.isEndOfWord(2)
+}
+
 func (p *parser) pairEqual(i int, a, b byte) bool {
 	return p.data[i] == a && p.data[i+1] == b
 }
@@ -270,11 +280,11 @@ func isBytesEqual(data []byte, err []byte) bool {
 
 func (p *parser) isErrorPrefix() errorType {
 	if p.prefixEqual('S', 'E') {
-		if isBytesEqual(p.data, serverErrorPrefix) {
+		if isBytesEqual(p.data, serverErrorPrefix) && p.isEndOfWord(len(serverErrorPrefix)) {
 			return errorTypeServer
 		}
 	} else if p.prefixEqual('C', 'L') {
-		if isBytesEqual(p.data, clientErrorPrefix) {
+		if isBytesEqual(p.data, clientErrorPrefix) && p.isEndOfWord(len(clientErrorPrefix)) {
 			return errorTypeClient
 		}
 	}
@@ -286,17 +296,17 @@ func (p *parser) readMGet() (MGetResponse, error) {
 		return MGetResponse{}, ErrInvalidMGet
 	}
 
-	if p.prefixEqual('E', 'N') {
+	if p.statusEqual('E', 'N') {
 		return p.returnIfCRLF(2, MGetResponse{
 			Type: MGetResponseTypeEN,
 		})
 	}
 
-	if p.prefixEqual('H', 'D') {
+	if p.statusEqual('H', 'D') {
 		return p.readMGetHD()
 	}
 
-	if p.prefixEqual('V', 'A') {
+	if p.statusEqual('V', 'A') {
 		return p.readMGetVA()
 	}
 
@@ -325,16 +335,16 @@ func (p *parser) readMSet() (MSetResponse, error) {
 		return MSetResponse{}, ErrInvalidMSet
 	}
 
-	if p.prefixEqual('H', 'D') {
+	if p.statusEqual('H', 'D') {
 		return p.readMSetWithCRLF(MSetResponseTypeHD)
 	}
-	if p.prefixEqual('N', 'S') {
+	if p.statusEqual('N', 'S') {
 		return p.readMSetWithCRLF(MSetResponseTypeNS)
 	}
-	if p.prefixEqual('E', 'X') {
+	if p.statusEqual('E', 'X') {
 		return p.readMSetWithCRLF(MSetResponseTypeEX)
 	}
-	if p.prefixEqual('N', 'F') {
+	if p.statusEqual('N', 'F') {
 		return p.readMSetWithCRLF(MSetResponseTypeNF)
 	}
 
@@ -362,13 +372,13 @@ func (p *parser) readMDel() (MDelResponse, error) {
 	if len(p.data) < 4 {
 		return MDelResponse{}, ErrInvalidMDel
 	}
-	if p.prefixEqual('H', 'D') {
+	if p.statusEqual('H', 'D') {
 		return p.readMDelWithCRLF(MDelResponseTypeHD)
 	}
-	if p.prefixEqual('N', 'F') {
+	if p.statusEqual('N', 'F') {
 		return p.readMDelWithCRLF(MDelResponseTypeNF)
 	}
-	if p.prefixEqual('E', 'X') {
+	if p.statusEqual('E', 'X') {
 		return p.readMDelWithCRLF(MDelResponseTypeEX)
 	}
 
@@ -388,7 +398,7 @@ func (p *parser) readVersion() (VersionResponse, error) {
 	}
 
 	if p.prefixEqual('V', 'E') {
-		if !bytes.Equal(p.data[:len(versionString)], versionString) {
+		if !bytes.Equal(p.data[:len(versionString)], versionString) || !p.isEndOfWord(len(versionString)) {
 			return VersionResponse{}, ErrInvalidResponse
 		}
 
@@ -430,7 +440,7 @@ func (p *parser) readFlushAll() error {
 	if len(p.data) < 4 {
 		return ErrInvalidResponse
 	}
-	if p.prefixEqual('O', 'K') {
+	if p.statusEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
 	if errType := p.isErrorPrefix(); errType != errorTypeNone {
-- 
2.43.0

