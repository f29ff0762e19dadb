From ddb5db219b8bcd058ecbcf0efae05202776119e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 01/36] fix: End of a Sender that never connected must not
 crash

---
 connector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connector.go b/connector.go
index 478c0ce..c4bc5bb 100644
--- a/connector.go
+++ b/connector.go
@@ -112,7 +112,9 @@ func (c *Sender) runQueue() {
 		for len(*c.queue) > 0 {
 			c.flushQueue()
 		}
-		c.output.Close()
+		if c.output != nil {
+			c.output.Close()
+		}
 		close(c.endCompleted)
 		close(c.errChan)
 	}()
-- 
2.43.0


From 3f496016699dbb0e33e2e64e8893e44d957579ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 02/36] fix: close a failed connection before abandoning it

---
 connector.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connector.go b/connector.go
index c4bc5bb..10d4650 100644
--- a/connector.go
+++ b/connector.go
@@ -91,11 +91,13 @@ func (c *Sender) flushQueue() {
 				return
 			}
 			c.errChan <- err
+			c.output.Close()
 			c.output = nil
 			return
 
 		default:
 			c.errChan <- err
+			c.output.Close()
 			c.output = nil
 			return
 		}
-- 
2.43.0


From 3eaa17abe777119b115bf8dac09d0e25f077e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/36] fix: an unread error channel must not block the Sender

---
 connector.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/connector.go b/connector.go
index 10d4650..e77edee 100644
--- a/connector.go
+++ b/connector.go
@@ -68,11 +68,19 @@ func NewSender(output Connector, transport Transport, ticker <-chan time.Time) (
 	return s, s.errChan
 }
 
+// reportError publish an error without ever blocking: an error is dropped when the previous one is still unread
+func (c *Sender) reportError(err error) {
+	select {
+	case c.errChan <- err:
+	default:
+	}
+}
+
 func (c *Sender) flushQueue() {
 	if c.output == nil {
 		var err error
 		if c.output, err = c.connector.Connect(); err != nil {
-			c.errChan <- err
+			c.reportError(err)
 			return
 		}
 	}
@@ -90,13 +98,13 @@ func (c *Sender) flushQueue() {
 			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
 				return
 			}
-			c.errChan <- err
+			c.reportError(err)
 			c.output.Close()
 			c.output = nil
 			return
 
 		default:
-			c.errChan <- err
+			c.reportError(err)
 			c.output.Close()
 			c.output = nil
 			return
-- 
2.43.0


From ae6d71524855357488b92f7647eb73c736fb431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 04/36] fix: what a failed Connect returns must not be used as
 a connection

---
 connector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/connector.go b/connector.go
index e77edee..9fe222d 100644
--- a/connector.go
+++ b/connector.go
@@ -80,6 +80,7 @@ func (c *Sender) flushQueue() {
 	if c.output == nil {
 		var err error
 		if c.output, err = c.connector.Connect(); err != nil {
+			c.output = nil
 			c.reportError(err)
 			return
 		}
-- 
2.43.0


From 216184cd8dc0a77ebd51c81f1e0033dd6144441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 05/36] fix: send again the whole interrupted message on a new
 connection

---
 connector.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/connector.go b/connector.go
index 9fe222d..3c07420 100644
--- a/connector.go
+++ b/connector.go
@@ -35,6 +35,7 @@ type (
 		errChan      chan error
 		lock         *sync.Mutex
 		queue        *net.Buffers
+		head         []byte // whole frame of the head of the queue, when a part of it is already written
 	}
 
 	// Addr see net.Addr
@@ -76,6 +77,26 @@ func (c *Sender) reportError(err error) {
 	}
 }
 
+// keepHead remember the whole frame of the head of the queue after a write of frames
+func (c *Sender) keepHead(frames [][]byte) {
+	switch written := len(frames) - len(*c.queue); {
+	case written == len(frames):
+		c.head = nil
+	case written > 0 || c.head == nil:
+		c.head = frames[written]
+	}
+}
+
+// dropOutput abandon the connection. a frame partially written must be sent again from its begin
+func (c *Sender) dropOutput() {
+	c.output.Close()
+	c.output = nil
+	if len(*c.queue) > 0 && c.head != nil {
+		(*c.queue)[0] = c.head
+	}
+	c.head = nil
+}
+
 func (c *Sender) flushQueue() {
 	if c.output == nil {
 		var err error
@@ -91,7 +112,9 @@ func (c *Sender) flushQueue() {
 	defer c.lock.Unlock()
 
 	for len(*c.queue) > 0 {
+		frames := append([][]byte(nil), *c.queue...)
 		_, err := c.queue.WriteTo(c.output)
+		c.keepHead(frames)
 
 		switch typeErr := err.(type) {
 		case nil:
@@ -100,14 +123,12 @@ func (c *Sender) flushQueue() {
 				return
 			}
 			c.reportError(err)
-			c.output.Close()
-			c.output = nil
+			c.dropOutput()
 			return
 
 		default:
 			c.reportError(err)
-			c.output.Close()
-			c.output = nil
+			c.dropOutput()
 			return
 		}
 	}
-- 
2.43.0


From ce08ecde9a48b6b095395179b771e8e533cf161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 06/36] fix: negative and overflowing RFC 5425 lengths must not
 crash

---
 transport.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transport.go b/transport.go
index abeb88d..578ab9c 100644
--- a/transport.go
+++ b/transport.go
@@ -87,19 +87,19 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 	}
 
 	lenMsg, err := strconv.Atoi(string(buffer[0:sepPos]))
-	if err != nil {
+	if err != nil || lenMsg < 0 {
 		return nil, nil, ErrTransportInvHeader
 	}
 
 	start := sepPos + 1
-	lenBuff := start + lenMsg
-	if len(buffer) < lenBuff {
+	if len(buffer)-start < lenMsg {
 		if atEOF {
 			return buffer[start:], nil, ErrTransportIncomplete
 		}
 		return nil, nil, nil
 	}
 
+	lenBuff := start + lenMsg
 	return buffer[start:lenBuff], buffer[lenBuff:], nil
 }
 
-- 
2.43.0


From c2cb106d84e47c6ed016cc72e0ed44a238db7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 07/36] fix: RFC 5425 frames shorter than 20 bytes must be
 decoded

---
 transport.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/transport.go b/transport.go
index 578ab9c..4fad51f 100644
--- a/transport.go
+++ b/transport.go
@@ -77,11 +77,10 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, nil
 	}
 
-	if len(buffer) < 20 {
+	sepPos := bytes.IndexByte(buffer, ' ')
+	if sepPos < 0 && len(buffer) < 20 && !atEOF {
 		return nil, nil, nil
 	}
-
-	sepPos := bytes.IndexByte(buffer, ' ')
 	if sepPos <= 0 {
 		return nil, nil, ErrTransportNoHeader
 	}
-- 
2.43.0


From aa10a7949e8988cb5308e876125f7f3e925c0053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 08/36] fix: find the end of a frame before parsing its content

---
 message-immutable.go | 48 ++++++++++++--------------------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index 3cd99db..5cdc8b5 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -145,9 +145,17 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 	if transport != nil {
 		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
 		//log.Printf("P {%q} {%q} %v\n", data, rest, mainErr)
-		if data == nil && rest == nil && mainErr == nil {
+		if data == nil && rest == nil {
 			return
 		}
+
+		// the end of the frame must be known before looking at its content
+		if rest == nil && mainErr == nil {
+			data, rest, mainErr = transport.SuffixStrip(data, atEOF)
+			if rest == nil && !atEOF {
+				return
+			}
+		}
 	}
 
 	msg := MessageImmutable{
@@ -182,7 +190,7 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		}
 		msg.index = append(msg.index, begin+2)
 
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
+		returnMsg = msg
 		return
 	}
 
@@ -200,7 +208,7 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 
 		msg.index = append(msg.index, begin+1)
 		msg.text = begin + 2
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
+		returnMsg = msg
 		return
 	}
 
@@ -220,7 +228,7 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 				begin = t + end + 1
 				t = begin
 				if len(data) <= begin {
-					returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
+					returnMsg = msg
 					return
 				}
 				continue
@@ -232,7 +240,7 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		case ErrPosNotFound:
 			msg.text = begin + 1
 
-			returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
+			returnMsg = msg
 			return
 
 		default:
@@ -253,33 +261,3 @@ func dispatchError(mainErr, err error) (returnErr error) {
 	}
 	return
 }
-
-func parseReturn(msg MessageImmutable, transport Transport, atEOF bool, oData, oRest []byte) (returnMsg MessageImmutable, data, rest []byte, mainErr error) {
-	data = oData
-	rest = oRest
-
-	if transport == nil {
-		returnMsg = msg
-		return
-	}
-
-	if rest != nil {
-		returnMsg = msg
-		return
-	}
-
-	data, rest, mainErr = transport.SuffixStrip(data[msg.text:], atEOF)
-	//log.Printf("RET\t{%q} {%q} %v\n", data, rest, mainErr)
-	if data == nil && rest == nil && mainErr == nil {
-		return
-	}
-
-	end := msg.text + len(data)
-	if len(msg.buffer) > end {
-		msg.buffer = msg.buffer[:end]
-
-	}
-
-	returnMsg = msg
-	return
-}
-- 
2.43.0


From a3c96901b4fa50d0aad21723c7e0d20fbb67ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 09/36] fix: delimit structured data elements by their quotes,
 not by any ] of the text

---
 message-immutable.go | 79 +++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index 5cdc8b5..ca174f8 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -140,7 +140,6 @@ func (msg MessageImmutable) WriteTo(w io.Writer) (n int64, err error) {
 // Parse allow to parse a []byte and decode one ImmutableMessage
 func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmutable, rest []byte, mainErr error) {
 	sepSp := []byte{' '}
-	sepBrk := []byte{']'}
 
 	if transport != nil {
 		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
@@ -194,12 +193,7 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		return
 	}
 
-	end, err := searchNextSep(data[begin:], sepSp)
-	if err != nil {
-		mainErr = dispatchError(mainErr, err)
-		return
-	}
-
+	end, _ := searchNextSep(data[begin:], sepSp)
 	if end == 1 {
 		if data[begin] != '-' {
 			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty structured data expected"})
@@ -212,44 +206,53 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		return
 	}
 
-	t := begin
-	for len(data[t:]) > 0 {
-		end, err = searchNextSep(data[t:], sepBrk)
-
-		switch err {
-		case nil:
-			if data[t+end-1] == '\\' {
-				t = t + end + 1
-				continue
-			}
+	for begin < len(data) && data[begin] == '[' {
+		end = endOfElement(data[begin:])
+		if end < 0 {
+			mainErr = dispatchError(mainErr, ParseError{data, begin, "malformed structured data element"})
+			return
+		}
+		begin += end
+		msg.index = append(msg.index, begin)
+	}
 
-			if data[t+end-1] == '"' {
-				msg.index = append(msg.index, t+end+1)
-				begin = t + end + 1
-				t = begin
-				if len(data) <= begin {
-					returnMsg = msg
-					return
-				}
-				continue
-			}
+	switch {
+	case len(msg.index) == parts:
+		mainErr = dispatchError(mainErr, ParseError{data, begin, "structured data expected"})
 
-			mainErr = dispatchError(mainErr, ParseError{data, t + end - 1, `\\ or " expected`})
-			return
+	case begin == len(data):
+		returnMsg = msg
 
-		case ErrPosNotFound:
-			msg.text = begin + 1
+	case data[begin] == ' ':
+		msg.text = begin + 1
+		returnMsg = msg
 
-			returnMsg = msg
-			return
+	default:
+		mainErr = dispatchError(mainErr, ParseError{data, begin, "space expected after structured data"})
+	}
+	return
+}
 
-		default:
-			mainErr = dispatchError(mainErr, err)
-			return
+// endOfElement return the position after the ] that close the structured data element at the begin of data.
+// a quoted value may contain any escaped char but no unescaped ]
+func endOfElement(data []byte) int {
+	quoted := false
+	for i := 1; i < len(data); i++ {
+		switch {
+		case quoted && data[i] == '\\':
+			i++
+
+		case data[i] == '"':
+			quoted = !quoted
+
+		case data[i] == ']':
+			if quoted || i == 1 || (data[i-1] != '"' && bytes.ContainsAny(data[:i], ` ="`)) {
+				return -1
+			}
+			return i + 1
 		}
 	}
-	mainErr = dispatchError(mainErr, ErrImpossible)
-	return
+	return -1
 }
 
 func dispatchError(mainErr, err error) (returnErr error) {
-- 
2.43.0


From 1affe2d02033de3831421513210ad70a0a4d14c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 10/36] fix: a failed Accept must not crash the receiver

---
 listener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/listener.go b/listener.go
index 86d4b65..2e52922 100644
--- a/listener.go
+++ b/listener.go
@@ -90,6 +90,7 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 			conn, err := r.listener.Accept()
 			if err != nil {
 				chanErr <- err
+				continue
 			}
 
 			go r.tokenize(conn, chanErr)
-- 
2.43.0


From 713625bb069460923673dc404c0ce3c1fe7789ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 11/36] fix: a read error ends the connection instead of being
 read forever

---
 listener.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/listener.go b/listener.go
index 2e52922..78cb24b 100644
--- a/listener.go
+++ b/listener.go
@@ -120,7 +120,7 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		if err != nil {
 			chanErr <- err
 		}
-		if lenRead == 0 && eof {
+		if lenRead == 0 && (eof || err != nil) {
 			return
 		}
 		if lenRead == 0 {
@@ -155,7 +155,7 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 			copy(buffer[0:len(old)], old)
 		}
 
-		if eof == true {
+		if eof == true || err != nil {
 			return
 		}
 	}
-- 
2.43.0


From 87e9dc72a5cbceba920b2b77734b57686cd39315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 12/36] fix: an unread error channel must not block the
 receiver

---
 listener.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/listener.go b/listener.go
index 78cb24b..20924cf 100644
--- a/listener.go
+++ b/listener.go
@@ -89,7 +89,7 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 		default:
 			conn, err := r.listener.Accept()
 			if err != nil {
-				chanErr <- err
+				reportError(chanErr, err)
 				continue
 			}
 
@@ -99,6 +99,14 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 
 }
 
+// reportError publish an error without ever blocking: an error is dropped when too many are still unread
+func reportError(chanErr chan<- error, err error) {
+	select {
+	case chanErr <- err:
+	default:
+	}
+}
+
 func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 	defer conn.Close()
 
@@ -118,7 +126,7 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		//log.Printf("EOF\t%v %v %v %v", count, total, lenRead, err)
 
 		if err != nil {
-			chanErr <- err
+			reportError(chanErr, err)
 		}
 		if lenRead == 0 && (eof || err != nil) {
 			return
-- 
2.43.0


From 647fb6a83d0067c6500f0ad580b57e827021946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 13/36] fix: keep room to read the rest of a message longer
 than the buffer

---
 listener.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/listener.go b/listener.go
index 20924cf..4a09891 100644
--- a/listener.go
+++ b/listener.go
@@ -157,10 +157,10 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		done = len(data)
 		buffer = buffer[lenRead-done:]
 
-		if len(buffer) < 500 {
-			old := buffer
-			buffer = make([]byte, readBuffer)
-			copy(buffer[0:len(old)], old)
+		if len(buffer)-done < 500 {
+			old := buffer[:done]
+			buffer = make([]byte, done+readBuffer)
+			copy(buffer, old)
 		}
 
 		if eof == true || err != nil {
-- 
2.43.0


From eca8cebca73deb185b8d39ff4e0eab9ade8f255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 14/36] fix: deliver or report the last frame of a connection
 and unrecoverable frames

---
 listener.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/listener.go b/listener.go
index 4a09891..9007e99 100644
--- a/listener.go
+++ b/listener.go
@@ -119,28 +119,26 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 	for {
 		lenRead, err := conn.Read(buffer[done:])
 		total += lenRead
-		if err == io.EOF {
-			eof = true
-			err = nil
+		if err != nil && err != io.EOF {
+			reportError(chanErr, err)
 		}
+		// whatever the reason, nothing more can be read after an error
+		eof = err != nil
 		//log.Printf("EOF\t%v %v %v %v", count, total, lenRead, err)
 
-		if err != nil {
-			reportError(chanErr, err)
-		}
-		if lenRead == 0 && (eof || err != nil) {
-			return
-		}
-		if lenRead == 0 {
+		if lenRead == 0 && !eof {
 			continue
 		}
 
 		lenRead += done
+		if lenRead == 0 {
+			return
+		}
 		data := buffer[0:lenRead]
 		for {
 			msg, rest, parseErr := Parse(data, r.transport, eof)
 
-			if rest == nil {
+			if rest == nil && parseErr == nil && !eof {
 				//log.Printf("NIL\t{%q} {%q} %v %v %v", msg, data[0:10], len(rest), rest == nil, parseErr)
 				//log.Printf("NIL\t%v %v %v %v", count, total, lenRead, parseErr)
 				break
@@ -149,6 +147,10 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 
 			count++
 			r.pipeline <- messageErrorPair{msg, parseErr}
+			if rest == nil {
+				// end of the stream, or frames that can't be delimited anymore
+				return
+			}
 			if len(rest) == 0 {
 				break
 			}
@@ -163,7 +165,7 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 			copy(buffer, old)
 		}
 
-		if eof == true || err != nil {
+		if eof == true {
 			return
 		}
 	}
-- 
2.43.0


From 5be31f65f64f588e4722303cb17c6d7ca0523436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 15/36] fix: a connection still active after End must not crash
 the receiver

---
 listener.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/listener.go b/listener.go
index 9007e99..783c88c 100644
--- a/listener.go
+++ b/listener.go
@@ -3,6 +3,7 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"io"
 	"net"
+	"sync"
 	//	"log"
 )
 
@@ -78,8 +79,12 @@ func NewReceiver(listener Listener, lenQueue int, t Transport) (*Receiver, <-cha
 }
 
 func (r *Receiver) runQueue(chanErr chan<- error) {
-	defer r.listener.Close()
+	var conns sync.WaitGroup
+
+	// the pipeline is used until the end of every connection
 	defer close(r.pipeline)
+	defer conns.Wait()
+	defer r.listener.Close()
 
 	for {
 		select {
@@ -93,7 +98,11 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 				continue
 			}
 
-			go r.tokenize(conn, chanErr)
+			conns.Add(1)
+			go func() {
+				defer conns.Done()
+				r.tokenize(conn, chanErr)
+			}()
 		}
 	}
 
-- 
2.43.0


From 2f751a79e0fd114e179a66a469e3875e5897c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 16/36] fix: End must interrupt a pending Accept of a stream
 listener

---
 listener.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/listener.go b/listener.go
index 783c88c..e600558 100644
--- a/listener.go
+++ b/listener.go
@@ -35,6 +35,7 @@ type (
 		transport Transport
 		pipeline  chan messageErrorPair
 		end       chan struct{}
+		closeOnce sync.Once
 	}
 
 	messageErrorPair struct {
@@ -84,7 +85,7 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 	// the pipeline is used until the end of every connection
 	defer close(r.pipeline)
 	defer conns.Wait()
-	defer r.listener.Close()
+	defer r.closeListener()
 
 	for {
 		select {
@@ -94,6 +95,11 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 		default:
 			conn, err := r.listener.Accept()
 			if err != nil {
+				select {
+				case <-r.end:
+					return
+				default:
+				}
 				reportError(chanErr, err)
 				continue
 			}
@@ -190,4 +196,15 @@ func (r *Receiver) Receive() (MessageImmutable, error, bool) {
 // End terminate the log_collector goroutine
 func (r *Receiver) End() {
 	close(r.end)
+
+	// wake up the pending Accept(), except for unixgram: the listener is also the only connection
+	if _, ok := r.listener.(*unixgramReceiver); !ok {
+		r.closeListener()
+	}
+}
+
+func (r *Receiver) closeListener() {
+	r.closeOnce.Do(func() {
+		r.listener.Close()
+	})
 }
-- 
2.43.0


From 42a36ef18ec64b4bb39d045ef22dd038cb03e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 17/36] fix: a unixgram receiver must survive a datagram that
 can't be delimited

---
 listener-unixdgram.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 5a23987..28f291a 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -9,15 +9,15 @@ import (
 type (
 	unixgramReceiver struct {
 		listener *net.UnixConn
-		accepted bool
+		reader   chan struct{} // the right to be the only connection
 		end      chan struct{}
 	}
 
 	fakeConn struct {
-		end   chan struct{}
-		rbuff [1 << 16]byte
-		buff  []byte
-		conn  *net.UnixConn
+		reader chan struct{}
+		rbuff  [1 << 16]byte
+		buff   []byte
+		conn   *net.UnixConn
 	}
 )
 
@@ -27,6 +27,8 @@ func UnixgramListener(address string) (Listener, error) {
 
 	r := new(unixgramReceiver)
 	r.end = make(chan struct{})
+	r.reader = make(chan struct{}, 1)
+	r.reader <- struct{}{}
 
 	uAddr, err := net.ResolveUnixAddr("unixgram", address)
 	if err != nil {
@@ -67,16 +69,15 @@ func (r *unixgramReceiver) Close() error {
 
 // mimic an Accept
 func (r *unixgramReceiver) Accept() (DataReader, error) {
-	if r.accepted {
-		<-r.end
+	select {
+	case <-r.end:
 		return nil, errors.New("end")
+	case <-r.reader:
 	}
 
-	r.accepted = true
-
 	fc := &fakeConn{
-		end:  r.end,
-		conn: r.listener,
+		reader: r.reader,
+		conn:   r.listener,
 	}
 
 	return fc, nil
@@ -86,7 +87,9 @@ func (r *fakeConn) RemoteAddr() net.Addr {
 	return r.conn.RemoteAddr()
 }
 
+// Close let another connection read the next datagrams
 func (r *fakeConn) Close() error {
+	r.reader <- struct{}{}
 	return nil
 }
 
-- 
2.43.0


From 8e63396b644833ad04225348d9723104d336c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 18/36] fix: List.Add must not overwrite the elements of a list
 sharing its array

---
 sdata/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdata/list.go b/sdata/list.go
index 547dd7a..4a7ea6a 100644
--- a/sdata/list.go
+++ b/sdata/list.go
@@ -78,7 +78,8 @@ func RegisterGroup(sdids ...SDID) {
 // Add append data to a list of structured data
 func (listSD List) Add(data ...StructuredData) List {
 
-	return List(append([]StructuredData(listSD), data...))
+	// never share a backing array between lists
+	return List(append([]StructuredData(listSD[:len(listSD):len(listSD)]), data...))
 }
 
 // Marshal5424 encode a Structured Data to syslog 5424 format
-- 
2.43.0


From 56f5461168c5307632d2218c458d3229497ec4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 19/36] fix: validate the app-name of a SubSyslog

---
 syslog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/syslog.go b/syslog.go
index 1de5193..d047098 100644
--- a/syslog.go
+++ b/syslog.go
@@ -92,6 +92,7 @@ func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
 	default:
 		appname = syslog.appname + "/" + subAppName
 	}
+	appname = validApp(appname)
 
 	sub = &Syslog{
 		facility: syslog.facility,
-- 
2.43.0


From 8457e784b3be1dc99e9413e3440c183a30f25c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 20/36] fix: concurrent first uses of Channel must not get a
 /dev/null channel

---
 syslog.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/syslog.go b/syslog.go
index d047098..44513b8 100644
--- a/syslog.go
+++ b/syslog.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"os"
 	"strconv"
+	"sync"
 )
 
 var (
@@ -17,6 +18,7 @@ type Syslog struct {
 	pid      string
 	appname  string
 	channels []Channel
+	once     sync.Once // channels are created at first use
 	output   *Sender
 	minSev   int
 }
@@ -60,7 +62,11 @@ func (syslog *Syslog) TestMode() {
 
 // Channel expose a custom channel for a priority
 func (syslog *Syslog) Channel(sev Priority) Channel {
-	if syslog.channels == nil {
+	syslog.once.Do(func() {
+		if syslog.channels != nil {
+			return
+		}
+
 		syslog.channels = []Channel{
 			devNull, devNull, devNull, devNull,
 			devNull, devNull, devNull, devNull,
@@ -76,7 +82,7 @@ func (syslog *Syslog) Channel(sev Priority) Channel {
 				output:   syslog.output,
 			}}
 		}
-	}
+	})
 
 	return syslog.channels[sev.Severity()]
 }
-- 
2.43.0


From e6d5c9b8c609563d99b15a418f46cdfa5a600567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 21/36] fix: printing a priority with an unknown facility must
 not crash

---
 priority.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/priority.go b/priority.go
index 7682fab..407e6eb 100644
--- a/priority.go
+++ b/priority.go
@@ -130,7 +130,12 @@ func (p Priority) Severity() Priority {
 }
 
 func (p Priority) String() string {
-	return facilityString[p.Facility()>>3] + "." + severityString[p.Severity()]
+	fac := "-"
+	if f := int(p.Facility() >> 3); f < len(facilityString) {
+		fac = facilityString[f]
+	}
+
+	return fac + "." + severityString[p.Severity()]
 }
 
 // Marshal5424 encode the priority to Syslog5424 format
-- 
2.43.0


From 2a946f917bd348c9a9d2b91459e5cc67def55106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 22/36] fix: decoding a short structured data element must not
 crash

---
 sdata/sd-generic.go     | 4 ++--
 sdata/sd-unknown.go     | 2 +-
 sdata/timequality/tq.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 579cb9f..10e285b 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -45,13 +45,13 @@ func (sdid genericSDID) MarshalText() (text []byte, err error) {
 }
 
 func (sdid genericSDID) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
 	header := sdid.String()
-	if string(data[0:len(header)]) != header {
+	if len(data) < len(header) || string(data[0:len(header)]) != header {
 		return nil, false
 	}
 
diff --git a/sdata/sd-unknown.go b/sdata/sd-unknown.go
index 5eee3f0..1592140 100644
--- a/sdata/sd-unknown.go
+++ b/sdata/sd-unknown.go
@@ -43,7 +43,7 @@ func (d unknownDef) MarshalText() (text []byte, err error) {
 }
 
 func (d unknownDef) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 39343c8..b06dc41 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -58,12 +58,12 @@ func (d tqdef) MarshalText() (text []byte, err error) {
 }
 
 func (d tqdef) Found(data []byte) (sdata.StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
-	if string(data[0:11]) != "timeQuality" {
+	if len(data) < 11 || string(data[0:11]) != "timeQuality" {
 		return nil, false
 	}
 	data = data[11:]
-- 
2.43.0


From 5f1176460703f5d95a576e4fae7f821c35e401f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 23/36] fix: encoding a null or negative syncAccuracy must not
 crash

---
 sdata/timequality/tq.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index b06dc41..9f3be52 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -2,7 +2,6 @@ package timequality // import "github.com/nathanaelle/syslog5424/v2/sdata/timequ
 
 import (
 	"errors"
-	"math"
 	"strconv"
 
 	"github.com/nathanaelle/syslog5424/v2/sdata"
@@ -152,7 +151,7 @@ func (tq TimeQuality) Marshal5424() ([]byte, error) {
 	}
 
 	if tq.SyncAccuracy != nil {
-		length += 15 + int(math.Floor(math.Log(float64(*tq.SyncAccuracy))+1))
+		length += 16 + 20 // at most 20 chars for an int
 	}
 
 	ret := append(make([]byte, 0, length), []byte("[timeQuality")...)
-- 
2.43.0


From 7e58ee0d4b2d123e87572ee354d7f615150bbca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 24/36] fix: a structured data element without parameter must
 not be lost

---
 sdata/tokens.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdata/tokens.go b/sdata/tokens.go
index 78a6836..d5b3b36 100644
--- a/sdata/tokens.go
+++ b/sdata/tokens.go
@@ -6,7 +6,7 @@ import (
 
 // NextHeader try to decode a Structured Data header from a []byte
 func NextHeader(data []byte) (header string, ret []byte, err error) {
-	if data == nil || len(data) < 4 {
+	if data == nil || len(data) < 1 {
 		return "", nil, fmt.Errorf("invalid length for [%q]", string(data))
 	}
 
@@ -27,7 +27,8 @@ func NextHeader(data []byte) (header string, ret []byte, err error) {
 		ret = ret[1:]
 		length++
 	}
-	return "", nil, fmt.Errorf("unexpected EOF")
+	// an element without any parameter
+	return string(data), ret, nil
 }
 
 // NextNonSpace try to decode a Structured Data part from a []byte
-- 
2.43.0


From 6ba7a979fa4b4b9f8fd8aa31732bd835203135be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 25/36] fix: a channel derived from a channel with a msgid must
 not discard its messages

---
 channel.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channel.go b/channel.go
index 0762c4a..10d7115 100644
--- a/channel.go
+++ b/channel.go
@@ -47,7 +47,7 @@ type (
 	}
 )
 
-func (d *trueChannel) AppName(sup string) Channel {
+func (d *msgChannel) AppName(sup string) Channel {
 	var appname string
 
 	switch string(d.appname) {
@@ -67,7 +67,7 @@ func (d *trueChannel) AppName(sup string) Channel {
 	}}
 }
 
-func (d *trueChannel) Msgid(msgid string) Channel {
+func (d *msgChannel) Msgid(msgid string) Channel {
 	return &msgChannel{
 		priority: d.priority,
 		hostname: d.hostname,
-- 
2.43.0


From 142bc029c6eb94e1a57d33fe2503d48677b00716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 26/36] fix: listening on a path must not remove anything but a
 socket

---
 listener-unix.go      | 7 +++++--
 listener-unixdgram.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/listener-unix.go b/listener-unix.go
index d68f167..29be967 100644
--- a/listener-unix.go
+++ b/listener-unix.go
@@ -35,10 +35,13 @@ func UnixListener(address string) (Listener, error) {
 			return nil, err
 		}
 
-		if _, osErr := os.Stat(address); osErr != nil {
+		// only a socket can be replaced
+		if stat, osErr := os.Lstat(address); osErr != nil || stat.Mode()&os.ModeSocket == 0 {
+			return nil, err
+		}
+		if os.Remove(address) != nil {
 			return nil, err
 		}
-		os.Remove(address)
 
 		r.listener, err = net.ListenUnix("unix", uAddr)
 	}
diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 28f291a..511de35 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -47,10 +47,13 @@ func UnixgramListener(address string) (Listener, error) {
 			return nil, err
 		}
 
-		if _, osErr := os.Stat(address); osErr != nil {
+		// only a socket can be replaced
+		if stat, osErr := os.Lstat(address); osErr != nil || stat.Mode()&os.ModeSocket == 0 {
+			return nil, err
+		}
+		if os.Remove(address) != nil {
 			return nil, err
 		}
-		os.Remove(address)
 
 		r.listener, err = net.ListenUnixgram("unixgram", uAddr)
 	}
-- 
2.43.0


From a3faf5040ef29b5bfb6f1f0e108a1097e9d897d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 27/36] fix: connecting to an address without any usable IP
 must not crash

---
 connector-tcp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connector-tcp.go b/connector-tcp.go
index fd55ec9..d3dbed2 100644
--- a/connector-tcp.go
+++ b/connector-tcp.go
@@ -70,6 +70,10 @@ func (c *tcpConn) Connect() (conn WriteCloser, err error) {
 		ips = rawips
 	}
 
+	if len(ips) == 0 {
+		return nil, ErrNoConnection
+	}
+
 	var contcp *net.TCPConn
 	for _, ip := range ips {
 		addr := &net.TCPAddr{IP: ip.IP, Port: port, Zone: ip.Zone}
-- 
2.43.0


From 191b0a35efbfa456434f5142fe3c3f27a4b93910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 28/36] fix: encoding interfaces, arrays and structs with
 unexported fields must not crash

---
 sdata/structured-data-encoder.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 6bab7b5..8d0474c 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -134,7 +134,7 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 			return encodeurFlemmard
 
 		case reflect.Interface:
-			return newTypeEncoder(t.Elem(), false)
+			return interfaceEncoder
 
 		case reflect.Slice, reflect.Array:
 			return newListEncoder(t)
@@ -164,6 +164,14 @@ func encodeurFlemmard(e *encodeState, v reflect.Value, prefix []byte) {
 	e.PrefixedWrite(prefix, []byte(fmt.Sprintf("%v", v.Interface())))
 }
 
+// encoder for the value stored in an interface
+func interfaceEncoder(e *encodeState, v reflect.Value, prefix []byte) {
+	if v.IsNil() {
+		return
+	}
+	newTypeEncoder(v.Elem().Type(), false)(e, v.Elem(), prefix)
+}
+
 // encoder for pointer on type
 // this encoder act like a "?" pattern in a regexp
 func newMaybeEncoder(t reflect.Type) encoderFunc {
@@ -179,7 +187,7 @@ func newMaybeEncoder(t reflect.Type) encoderFunc {
 // this encoder acts like a "*" pattern in a regexp
 func newListEncoder(t reflect.Type) encoderFunc {
 	return func(e *encodeState, v reflect.Value, prefix []byte) {
-		if v.IsNil() {
+		if v.Kind() == reflect.Slice && v.IsNil() {
 			return
 		}
 		enc := newTypeEncoder(t.Elem(), false)
@@ -225,11 +233,14 @@ func newStructEncoder(t reflect.Type) encoderFunc {
 		for i := 0; i < n; i++ {
 			sf := fields[i]
 			f := v.Field(i)
+			if sf.PkgPath != "" {
+				// unexported
+				continue
+			}
 			name, mandatory := getName(sf)
 			if !f.IsValid() || isEmptyValue(f) || len(name) == 0 {
 				if mandatory {
-					// TODO this must be an error
-					panic("missing mandatory field")
+					e.error(fmt.Errorf("StructuredData: missing mandatory field %s of %v", name, t))
 				}
 				continue
 			}
-- 
2.43.0


From d901715e42f0ebcb28702004f8dc54ac845663bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 29/36] fix: an element with an id and no value must be encoded
 as [id]

---
 sdata/sd-generic.go              | 4 ++++
 sdata/structured-data-encoder.go | 4 ----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 10e285b..9e1663b 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -68,6 +68,10 @@ func (sd genericSD) SDID() SDID {
 }
 
 func (sd genericSD) Marshal5424() ([]byte, error) {
+	if sd.Interface == nil && sd.sdid.SDIDLight != nil {
+		return []byte("[" + sd.sdid.String() + "]"), nil
+	}
+
 	e := &encodeState{}
 	err := e.marshal(sd.Interface)
 	if err != nil {
diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 8d0474c..1cd3597 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -206,10 +206,6 @@ func newMapEncoder(t reflect.Type) encoderFunc {
 	enc := newTypeEncoder(t.Elem(), false)
 
 	return func(e *encodeState, v reflect.Value, _ []byte) {
-		if v.IsNil() {
-			return
-		}
-
 		e.HeaderWrite(t.Name(), v)
 
 		var sv stringValues = v.MapKeys()
-- 
2.43.0


From b723f9b023b78c51c8328f78e5d7619dd7e75369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 30/36] fix: the local host name must be a valid header field

---
 message.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 0b06c55..3197d8e 100644
--- a/message.go
+++ b/message.go
@@ -25,7 +25,12 @@ type Message struct {
 // RFC5424TimeStamp is the format of a RFC 5424 TimeStamp
 const RFC5424TimeStamp string = "2006-01-02T15:04:05.999999Z07:00"
 
-var hostname, _ = os.Hostname()
+var hostname = localHostname()
+
+func localHostname() string {
+	h, _ := os.Hostname()
+	return validHost(h)
+}
 
 // CreateMessage create a Message with the timestamp, hostname, appname, the priority and the message preset
 func CreateMessage(appname string, prio Priority, message string) Message {
-- 
2.43.0


From fb405b9f34c8a2641660849ea3e5cd46cb490a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 31/36] fix: a structured data element begins with its id

---
 message-immutable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/message-immutable.go b/message-immutable.go
index ca174f8..cd54e5f 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -246,7 +246,7 @@ func endOfElement(data []byte) int {
 			quoted = !quoted
 
 		case data[i] == ']':
-			if quoted || i == 1 || (data[i-1] != '"' && bytes.ContainsAny(data[:i], ` ="`)) {
+			if quoted || i == 1 || data[1] == ' ' || (data[i-1] != '"' && bytes.ContainsAny(data[:i], ` ="`)) {
 				return -1
 			}
 			return i + 1
-- 
2.43.0


From e823ca9211d0e64b666f7d54746d46a74a185572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 32/36] fix: unixgram receivers don't truncate datagrams larger
 than 64 KiB

---
 listener-unixdgram.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 511de35..e0bc51c 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -15,12 +15,16 @@ type (
 
 	fakeConn struct {
 		reader chan struct{}
-		rbuff  [1 << 16]byte
+		rbuff  [maxDatagram]byte
 		buff   []byte
 		conn   *net.UnixConn
 	}
 )
 
+// a datagram larger than the buffer is truncated and lose the end of its frame.
+// the common limit of UNIX datagrams is the send buffer: 212992 bytes with Linux
+const maxDatagram = 1 << 18
+
 // UnixgramListener create a Listener for UNIX datagram
 func UnixgramListener(address string) (Listener, error) {
 	var err error
-- 
2.43.0


From cb73345d6dff588d5622e1563e1ec96a7bcb7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:48 +0000
Subject: [PATCH 33/36] fix: a timestamp in a zone with seconds in its offset
 must keep its instant

---
 message.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 3197d8e..5be4850 100644
--- a/message.go
+++ b/message.go
@@ -144,6 +144,14 @@ func (msg Message) StructuredData(data ...sdata.StructuredData) Message {
 	return Message{msg.prio, msg.timestamp, msg.hostname, msg.appname, msg.procid, msg.msgid, msg.sd.Add(data...), msg.message}
 }
 
+// wholeMinuteZone keep the instant : a RFC 5424 TimeStamp has no room for the seconds of the offset of a zone
+func wholeMinuteZone(ts time.Time) time.Time {
+	if _, offset := ts.Zone(); offset%60 != 0 {
+		return ts.UTC()
+	}
+	return ts
+}
+
 // Marshal5424 encode a message to the syslog 5424 format
 func (msg Message) Marshal5424() ([]byte, error) {
 	var ret []byte
@@ -152,7 +160,7 @@ func (msg Message) Marshal5424() ([]byte, error) {
 		return nil, err
 	}
 
-	ts := []byte(msg.timestamp.Format(RFC5424TimeStamp))
+	ts := []byte(wholeMinuteZone(msg.timestamp).Format(RFC5424TimeStamp))
 	sd, err := msg.sd.Marshal5424()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 22831d226518dd472240bc35f3531856ec2cea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:50 +0000
Subject: [PATCH 34/36] fix: structured data held by an interface with nothing
 in it must not crash the encoder

---
 sdata/structured-data-encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 1cd3597..130999c 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -146,7 +146,11 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 
 // encoder that delegate to the SDMarshaler the encoding
 func marshalerEncoder(e *encodeState, v reflect.Value, prefix []byte) {
-	if v.Kind() == reflect.Ptr && v.IsNil() {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
+	// nothing in the interface, or a pointer to nothing
+	if !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
 		return
 	}
 
-- 
2.43.0


From 287377f0166a7d05c4571464a3c2673b10a17f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 35/36] fix: the zero InvalidConnector returns an error too

---
 connector-invalid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connector-invalid.go b/connector-invalid.go
index 942d0fb..9d54875 100644
--- a/connector-invalid.go
+++ b/connector-invalid.go
@@ -9,5 +9,8 @@ type (
 
 // Connect is part of implementation of (Connector interface)[#Connector]
 func (ic InvalidConnector) Connect() (conn WriteCloser, err error) {
+	if ic.err == nil {
+		return nil, ErrNoConnection
+	}
 	return nil, ic.err
 }
-- 
2.43.0


From a2fd184a1872cbce59568dcfc1da64b1b838a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:11 +0000
Subject: [PATCH 36/36] fix: closing a unixgram listener twice must not crash,
 as it does when its user closes it too

---
 listener-unixdgram.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index e0bc51c..17a69e5 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"net"
 	"os"
+	"sync"
 )
 
 type (
@@ -11,6 +12,7 @@ type (
 		listener *net.UnixConn
 		reader   chan struct{} // the right to be the only connection
 		end      chan struct{}
+		endOnce  sync.Once
 	}
 
 	fakeConn struct {
@@ -70,7 +72,7 @@ func UnixgramListener(address string) (Listener, error) {
 }
 
 func (r *unixgramReceiver) Close() error {
-	close(r.end)
+	r.endOnce.Do(func() { close(r.end) })
 	return r.listener.Close()
 }
 
-- 
2.43.0

