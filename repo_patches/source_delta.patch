From b8fca71d89a28b6281215138824dbc6a465957cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 01/29] fix: escape '&' in URI header names and values

---
 sip/uriheader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/uriheader.go b/sip/uriheader.go
index 7c26389..af1e8bc 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -50,9 +50,9 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteByte('?')
 	}
-	appendEscaped(b, []byte(p.Name), paramc)
+	appendEscaped(b, []byte(p.Name), headerc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendEscaped(b, []byte(p.Value), paramc)
+		appendEscaped(b, []byte(p.Value), headerc)
 	}
 }
-- 
2.43.0


From 718aedb51301b2b9ff9b45c0bc5dd19bea35f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 02/29] fix: quote parameter values containing spaces

---
 sip/param.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sip/param.go b/sip/param.go
index 6cf5465..7b1561e 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -49,6 +49,18 @@ func (p *Param) Append(b *bytes.Buffer) {
 	appendSanitized(b, []byte(p.Name), tokenc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendQuoted(b, []byte(p.Value))
+		appendParamValue(b, []byte(p.Value))
 	}
 }
+
+// Parameter values must be quoted if they contain anything but token chars,
+// since unlike display names, they can't have unquoted spaces.
+func appendParamValue(b *bytes.Buffer, s []byte) {
+	for i := 0; i < len(s); i++ {
+		if !tokenc(s[i]) {
+			appendQuoteQuoted(b, s)
+			return
+		}
+	}
+	b.Write(s)
+}
-- 
2.43.0


From 4acd08db348d2fb9daa9c08b597eff23dae4ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 03/29] fix: don't write bare line feeds inside quoted strings

---
 sip/quote.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/quote.go b/sip/quote.go
index e8f6dab..5a2a66b 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -53,6 +53,8 @@ func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 					!(s[i+2] == ' ' || s[i+2] == '\t') {
 					break
 				}
+			} else if s[i] == '\n' && (i == 0 || s[i-1] != '\r') {
+				break
 			}
 		} else {
 			if !qdtextesc(s[i]) {
-- 
2.43.0


From a1a53572e8a3e8451a0376dd6d40eef67977dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 04/29] fix: quote display names with leading or trailing
 spaces

---
 sip/quote.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/quote.go b/sip/quote.go
index 5a2a66b..eb3d1b8 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -33,7 +33,8 @@ func appendSanitized(b *bytes.Buffer, s []byte, p func(byte) bool) {
 // truncate on input error.
 func appendQuoted(b *bytes.Buffer, s []byte) {
 	for i := 0; i < len(s); i++ {
-		if !tokenc(s[i]) && s[i] != ' ' {
+		// Unquoted spaces are only preserved between tokens.
+		if !tokenc(s[i]) && (s[i] != ' ' || i == 0 || i == len(s)-1) {
 			appendQuoteQuoted(b, s)
 			return
 		}
-- 
2.43.0


From 8ba35f64d589e1cbc7dcfbe49cbc167008e834ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 05/29] fix: bracket IPv6 Via hosts and keep Via ports intact

---
 sip/via.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/via.go b/sip/via.go
index 231ef9b..9f8e980 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -53,8 +53,14 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(via.Transport)
 		b.WriteString(" ")
 	}
-	b.WriteString(via.Host)
-	if via.Port != 5060 {
+	if util.IsIPv6(via.Host) {
+		b.WriteString("[")
+		b.WriteString(via.Host)
+		b.WriteString("]")
+	} else {
+		b.WriteString(via.Host)
+	}
+	if via.Port != 0 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
 	}
-- 
2.43.0


From d9a3533e862e7cc18c1dc285c347bb3d9522c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 06/29] fix: spell Retry-After header name correctly

---
 sip/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/msg.go b/sip/msg.go
index 9ddac8f..f07e665 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -399,7 +399,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	}
 
 	if msg.RetryAfter != "" {
-		b.WriteString("RetryAfter: ")
+		b.WriteString("Retry-After: ")
 		b.WriteString(msg.RetryAfter)
 		b.WriteString("\r\n")
 	}
-- 
2.43.0


From 58bc6841b230347a46d56a20ea82518ee05a513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 07/29] fix: serialize Accept-Contact header

---
 sip/msg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/msg.go b/sip/msg.go
index f07e665..de346b9 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -223,6 +223,12 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString("\r\n")
 	}
 
+	if msg.AcceptContact != "" {
+		b.WriteString("Accept-Contact: ")
+		b.WriteString(msg.AcceptContact)
+		b.WriteString("\r\n")
+	}
+
 	if msg.AcceptEncoding != "" {
 		b.WriteString("Accept-Encoding: ")
 		b.WriteString(msg.AcceptEncoding)
-- 
2.43.0


From 5eba0c7ed31fc9fcd51f8fd2738b7f8057d710c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 08/29] fix: keep display name when copying addresses

---
 sip/addr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/addr.go b/sip/addr.go
index acb56c7..983ef41 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -93,6 +93,7 @@ func (addr *Addr) Copy() *Addr {
 	}
 	res := new(Addr)
 	res.Uri = addr.Uri.Copy()
+	res.Display = addr.Display
 	res.Param = addr.Param
 	res.Next = addr.Next.Copy()
 	return res
-- 
2.43.0


From 63d235f75eaac0f6cee0374d937293048bc56525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 09/29] fix: compact Content-Length header no longer sets
 Expires, Max-Forwards and Min-Expires

---
 sip/msg_parse.go | 30 ------------------------------
 sip/sip.rl       |  6 +++---
 2 files changed, 3 insertions(+), 33 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cd61c46..54a4f5a 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -13716,42 +13716,12 @@ clen=0
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-//line sip.rl:495
-msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
 	goto st508
 tr706:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
 	goto st508
 	st508:
 		if p++; p == pe {
diff --git a/sip/sip.rl b/sip/sip.rl
index 8e4a727..646ffa4 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -492,9 +492,9 @@ sname    = "Accept"i %{value=&msg.Accept}
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
          | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
-         | ("Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
-         | ("Max-Forwards"i | "l"i) $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
-         | ("Min-Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
+         | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
+         | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
+         | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
          ;
 
 # Header Parsing
-- 
2.43.0


From e8019a3ee49422d7ae7633a5feb4b210357c5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 10/29] fix: drop received messages without Via instead of
 crashing

---
 dialog/receiver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 19f575c..6c7212f 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -44,6 +44,10 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			log.Printf("Dropping SIP message: %s\r\n", err)
 			continue
 		}
+		if msg.Via == nil {
+			log.Printf("Dropping SIP message without Via\r\n")
+			continue
+		}
 		addReceived(msg, addr)
 		addTimestamp(msg, ts)
 		if msg.Route != nil && msg.Route.Uri.Host == lhost && or5060(msg.Route.Uri.Port) == lport {
-- 
2.43.0


From c29d92f54db5d9642da60a7dc524e3b72822917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 11/29] fix: don't let received messages alias the receive
 buffer

---
 dialog/receiver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 6c7212f..9a37828 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,8 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := buf[0:amt]
+		packet := make([]byte, amt) // The parsed message might alias this.
+		copy(packet, buf)
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From 1e7db970881cdd69764a349a622d3d6c5db83451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 12/29] fix: don't crash on SDP without audio

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e397d6..bf3647d 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -393,7 +393,7 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
-	if ms, ok := msg.Payload.(*sdp.SDP); ok {
+	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0


From 528f45cd76cb2ebc467b4a49c14fbd9ad9b6c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 13/29] fix: acknowledge final responses without Contact

---
 dialog/dialog.go   | 8 ++++++--
 dialog/messages.go | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index bf3647d..694a3b4 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,8 +303,8 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-		if msg.Contact == nil {
-			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
+		if msg.Contact == nil && msg.Status < sip.StatusMultipleChoices {
+			dls.errChan <- errors.New("Remote UA sent 2xx response w/o Contact")
 			return false
 		}
 		if !dls.send(NewAck(msg, dls.request)) {
@@ -341,6 +341,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
+		if msg.Contact == nil {
+			dls.errChan <- &sip.ResponseError{Msg: msg}
+			return false
+		}
 		dls.invite.Request = msg.Contact.Uri
 		dls.invite.Route = nil
 		return dls.sendRequest(dls.invite)
diff --git a/dialog/messages.go b/dialog/messages.go
index e625277..d4aad21 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,9 +58,13 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
+	request := invite.Request
+	if msg.Contact != nil {
+		request = msg.Contact.Uri
+	}
 	return &sip.Msg{
 		Method:             sip.MethodAck,
-		Request:            msg.Contact.Uri,
+		Request:            request,
 		From:               msg.From,
 		To:                 msg.To,
 		Via:                msg.Via.Detach(),
-- 
2.43.0


From 9b332f2d37723ca12fe70da1710b361370461939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 14/29] fix: try remaining servers when one is unavailable

---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 694a3b4..58ce11a 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,7 +311,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	dls.routes = nil
+	if msg.Status != sip.StatusServiceUnavailable {
+		dls.routes = nil
+	}
 	dls.requestTimer = nil
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
-- 
2.43.0


From fdf21159279c617caa263d9e5676f619d6399afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 15/29] fix: ignore late provisional responses when tracking
 dialog state

---
 dialog/dialog.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 58ce11a..1ea98bc 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -320,9 +320,13 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	}
 	switch msg.Status {
 	case sip.StatusTrying:
-		dls.transition(Proceeding)
+		if dls.state <= Proceeding {
+			dls.transition(Proceeding)
+		}
 	case sip.StatusRinging, sip.StatusSessionProgress:
-		dls.transition(Ringing)
+		if dls.state <= Ringing {
+			dls.transition(Ringing)
+		}
 	case sip.StatusOK:
 		switch msg.CSeqMethod {
 		case sip.MethodInvite:
-- 
2.43.0


From da4af3b797fbab16186827dcaf206efc2520f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 16/29] fix: only refresh the remote target upon re-INVITE

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1ea98bc..a53a5c7 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -390,7 +390,11 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	case sip.MethodOptions: // Probably a keep-alive ping.
 		return dls.send(NewResponse(msg, sip.StatusOK))
 	case sip.MethodInvite: // Re-INVITEs are used to change the RTP or signalling path.
-		dls.remote = msg
+		if dls.remote != nil && msg.Contact != nil {
+			remote := *dls.remote
+			remote.Contact = msg.Contact
+			dls.remote = &remote
+		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
 	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-- 
2.43.0


From 9885eb3cec2ba52aa457733bd911c73dbd6452fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 17/29] fix: don't crash when remote server refuses packets

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index a53a5c7..d57c694 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -112,7 +112,7 @@ func (dls *dialogState) run() {
 			dls.sock.Close()
 			dls.sock = nil
 			if util.IsRefused(err) {
-				log.Printf("ICMP refusal: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+				log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
 				if !dls.popRoute() {
 					return
 				}
-- 
2.43.0


From 8c58b00bb8063d126d61bab9ed79d77dc70a6bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 18/29] fix: don't deadlock when closing dialog sockets

---
 dialog/dialog.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index d57c694..b3f3899 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -516,8 +516,7 @@ func (dls *dialogState) cleanupSock() {
 	if dls.sock != nil {
 		dls.sock.Close()
 		dls.sock = nil
-		<-dls.sockMsgs
-		<-dls.sockErrs
+		drain(dls.sockMsgs, dls.sockErrs)
 	}
 }
 
@@ -525,7 +524,17 @@ func (dls *dialogState) cleanupCSock() {
 	if dls.csock != nil {
 		dls.csock.Close()
 		dls.csock = nil
-		<-dls.csockMsgs
-		<-dls.csockErrs
+		drain(dls.csockMsgs, dls.csockErrs)
+	}
+}
+
+// drain discards messages until the receiver of a closed socket has stopped.
+func drain(msgs <-chan *sip.Msg, errs <-chan error) {
+	for {
+		select {
+		case <-msgs:
+		case <-errs:
+			return
+		}
 	}
 }
-- 
2.43.0


From 6fb693b9a7a60b9d959771791134267a397f45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 19/29] fix: don't modify transport Via and Contact when
 populating requests

---
 dialog/route.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dialog/route.go b/dialog/route.go
index 3cdd88d..12dc02a 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -32,10 +32,10 @@ type AddressRoute struct {
 func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 	if !msg.IsResponse() {
 		if msg.Via == nil {
-			msg.Via = via
+			msg.Via = via.Copy()
 		}
 		if msg.Contact == nil {
-			msg.Contact = contact
+			msg.Contact = contact.Copy()
 		}
 		if msg.To == nil {
 			msg.To = &sip.Addr{Uri: msg.Request}
-- 
2.43.0


From b0c6c7fb1a42d3c9ae6acfd53bc9211b31453e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 20/29] fix: reject responses that can't be routed

---
 dialog/route.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 12dc02a..7941828 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -82,6 +82,9 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 			msg.Via = msg.Via.Next
 		}
 
+		if msg.Via == nil {
+			return "", 0, errors.New("Can't route response without Via")
+		}
 		host, port = msg.Via.Host, msg.Via.Port
 		if received := msg.Via.Param.Get("received"); received != nil {
 			host = received.Value
@@ -92,7 +95,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		// we should use rport as real port in request-line
 		if rport := msg.Via.Param.Get("rport"); rport != nil && len(rport.Value) > 0 {
 
-			i, err := strconv.Atoi(rport.Value)
+			i, err := strconv.ParseUint(rport.Value, 10, 16)
 			if err != nil {
 				return "", 0, err
 			}
-- 
2.43.0


From d7c66a13d3acdc61bd2e0be4cf09eb1362d7bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 21/29] fix: keep noise generators in range for huge seeds

---
 dsp/awgn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/awgn.go b/dsp/awgn.go
index e710204..e452f39 100644
--- a/dsp/awgn.go
+++ b/dsp/awgn.go
@@ -62,7 +62,8 @@ func NewAWGN_DBM0(idum int64, level float64) (s *AWGN) {
 
 func NewAWGN_DBOV(idum int64, level float64) (s *AWGN) {
 	s = new(AWGN)
-	if idum < 0.0 {
+	idum %= m1
+	if idum < 0 {
 		idum = -idum
 	}
 	s.rms = math.Pow(10.0, level/20.0) * 32768.0
-- 
2.43.0


From cf6ef90f7ba05201de241c5e7cc7dfb7f027dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 22/29] fix: mix frames that aren't 16-byte aligned

---
 dsp/dsp_amd64.s | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp_amd64.s b/dsp/dsp_amd64.s
index 468106a..1b8257c 100755
--- a/dsp/dsp_amd64.s
+++ b/dsp/dsp_amd64.s
@@ -20,9 +20,10 @@ TEXT    ·L16MixSat160(SB),4,$0-16
 	MOVQ	dst+0(FP), AX
 	MOVQ	src+8(FP), BX
 	MOVQ	$19, CX
-moar:	MOVO	0(BX), X0
-	PADDSW  0(AX), X0
-	MOVO	X0, 0(AX)
+moar:	MOVOU	0(BX), X0
+	MOVOU	0(AX), X1
+	PADDSW	X1, X0
+	MOVOU	X0, 0(AX)
 	ADDQ	$16, AX
 	ADDQ	$16, BX
 	DECQ	CX
-- 
2.43.0


From 3f8580a772f99ffdacc7a91bd2483ffd26b96fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 23/29] fix: keep headers whose name is the beginning of a
 standard name

---
 sip/msg_parse.go | 6 ++++++
 sip/sip.rl       | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 54a4f5a..439418b 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -9642,12 +9642,18 @@ tr394:
 		}
 	st_case_273:
 		switch data[p] {
+		case 9:
+			goto tr406
+		case 32:
+			goto tr406
 		case 33:
 			goto st274
 		case 37:
 			goto st274
 		case 39:
 			goto st274
+		case 58:
+			goto tr407
 		case 126:
 			goto st274
 		}
diff --git a/sip/sip.rl b/sip/sip.rl
index 646ffa4..a182789 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -529,7 +529,7 @@ cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
 # responsibility of the person using Msg.Headers to do case-insensitive
 # string comparisons.
 value   := hval <: CRLF @value @goto_header;
-xheader := token %name HCOLON <: any @{value=nil} @hold @goto_value;
+xheader := tokenc* %name HCOLON <: any @{value=nil} @hold @goto_value;
 sheader  = cheader <: CRLF @goto_header
          | aname $!gxh HCOLON <: any @{value=nil} @hold @goto_addr
          | sname $!gxh HCOLON <: any @hold @goto_value
-- 
2.43.0


From cde6fb9c6138664146ac2ee262eedd734671828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 24/29] fix: white space after an address without angle
 brackets

---
 sip/msg_parse.go | 704 +----------------------------------------------
 sip/sip.rl       |   3 +-
 2 files changed, 4 insertions(+), 703 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 439418b..a984cf7 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -592,38 +592,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_243
 	case 244:
 		goto st_case_244
-	case 245:
-		goto st_case_245
-	case 246:
-		goto st_case_246
-	case 772:
-		goto st_case_772
-	case 247:
-		goto st_case_247
-	case 248:
-		goto st_case_248
-	case 249:
-		goto st_case_249
-	case 773:
-		goto st_case_773
-	case 250:
-		goto st_case_250
-	case 251:
-		goto st_case_251
-	case 774:
-		goto st_case_774
-	case 252:
-		goto st_case_252
-	case 253:
-		goto st_case_253
-	case 254:
-		goto st_case_254
-	case 775:
-		goto st_case_775
-	case 776:
-		goto st_case_776
-	case 777:
-		goto st_case_777
 	case 255:
 		goto st_case_255
 	case 256:
@@ -8382,666 +8350,14 @@ tr337:
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st245
-	st245:
-		if p++; p == pe {
-			goto _test_eof245
-		}
-	st_case_245:
-//line msg_parse.go:8383
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr355
-		case 32:
-			goto tr355
-		case 33:
-			goto tr356
-		case 44:
-			goto tr337
-		case 59:
-			goto tr357
-		case 60:
-			goto tr345
-		case 62:
-			goto tr345
-		case 92:
-			goto tr345
-		case 94:
-			goto tr345
-		case 96:
-			goto tr345
-		case 126:
-			goto tr356
-		case 269:
-			goto tr358
-		case 525:
-			goto tr359
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr345
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr345
-				}
-			case _widec >= 36:
-				goto tr356
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr355:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st246
-	st246:
-		if p++; p == pe {
-			goto _test_eof246
-		}
-	st_case_246:
-//line msg_parse.go:8449
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st246
-		case 32:
-			goto st246
-		case 44:
-			goto st234
-		case 59:
-			goto tr361
-		case 269:
-			goto tr345
-		case 525:
-			goto st247
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr345
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr361:
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st772
-	st772:
-		if p++; p == pe {
-			goto _test_eof772
-		}
-	st_case_772:
-//line msg_parse.go:8500
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st238
-		case 32:
-			goto st238
-		case 269:
-			goto tr349
-		case 525:
-			goto st239
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr349
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr359:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st247
-	st247:
-		if p++; p == pe {
-			goto _test_eof247
-		}
-	st_case_247:
-//line msg_parse.go:8539
-		if data[p] == 10 {
-			goto st248
-		}
-		goto st0
-	st248:
-		if p++; p == pe {
-			goto _test_eof248
-		}
-	st_case_248:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		}
-		goto st0
-	st249:
-		if p++; p == pe {
-			goto _test_eof249
-		}
-	st_case_249:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		case 44:
-			goto st234
-		case 59:
-			goto tr361
-		}
-		goto tr345
-tr356:
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st773
-tr366:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st773
-	st773:
-		if p++; p == pe {
-			goto _test_eof773
-		}
-	st_case_773:
-//line msg_parse.go:8601
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr336
-		case 32:
-			goto tr336
-		case 33:
-			goto st232
-		case 44:
-			goto tr337
-		case 59:
-			goto tr338
-		case 61:
-			goto st232
-		case 93:
-			goto st232
-		case 95:
-			goto st232
-		case 126:
-			goto st232
-		case 269:
-			goto tr339
-		case 525:
-			goto tr340
-		}
-		switch {
-		case _widec < 63:
-			if 36 <= _widec && _widec <= 58 {
-				goto st232
-			}
-		case _widec > 91:
-			if 97 <= _widec && _widec <= 122 {
-				goto st232
-			}
-		default:
-			goto st232
-		}
-		goto st0
+	goto st234
 tr338:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st250
-	st250:
-		if p++; p == pe {
-			goto _test_eof250
-		}
-	st_case_250:
-//line msg_parse.go:8658
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr365
-		case 32:
-			goto tr365
-		case 33:
-			goto tr366
-		case 44:
-			goto tr367
-		case 59:
-			goto tr338
-		case 60:
-			goto tr349
-		case 62:
-			goto tr349
-		case 92:
-			goto tr349
-		case 94:
-			goto tr349
-		case 96:
-			goto tr349
-		case 126:
-			goto tr366
-		case 269:
-			goto tr368
-		case 525:
-			goto tr369
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr349
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr349
-				}
-			case _widec >= 36:
-				goto tr366
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr365:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st251
-	st251:
-		if p++; p == pe {
-			goto _test_eof251
-		}
-	st_case_251:
-//line msg_parse.go:8724
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st251
-		case 32:
-			goto st251
-		case 44:
-			goto tr371
-		case 59:
-			goto st238
-		case 269:
-			goto tr349
-		case 525:
-			goto st252
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr349
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr371:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st774
-	st774:
-		if p++; p == pe {
-			goto _test_eof774
-		}
-	st_case_774:
-//line msg_parse.go:8769
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st234
-		case 32:
-			goto st234
-		case 269:
-			goto tr345
-		case 525:
-			goto st235
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr345
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr369:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st252
-	st252:
-		if p++; p == pe {
-			goto _test_eof252
-		}
-	st_case_252:
-//line msg_parse.go:8808
-		if data[p] == 10 {
-			goto st253
-		}
-		goto st0
-	st253:
-		if p++; p == pe {
-			goto _test_eof253
-		}
-	st_case_253:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		}
-		goto st0
-	st254:
-		if p++; p == pe {
-			goto _test_eof254
-		}
-	st_case_254:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		case 44:
-			goto tr371
-		case 59:
-			goto st238
-		}
-		goto tr349
-tr367:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st775
-	st775:
-		if p++; p == pe {
-			goto _test_eof775
-		}
-	st_case_775:
-//line msg_parse.go:8860
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr355
-		case 32:
-			goto tr355
-		case 33:
-			goto tr356
-		case 44:
-			goto tr337
-		case 59:
-			goto tr357
-		case 60:
-			goto tr345
-		case 62:
-			goto tr345
-		case 92:
-			goto tr345
-		case 94:
-			goto tr345
-		case 96:
-			goto tr345
-		case 126:
-			goto tr356
-		case 269:
-			goto tr358
-		case 525:
-			goto tr359
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr345
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr345
-				}
-			case _widec >= 36:
-				goto tr356
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr357:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st776
-	st776:
-		if p++; p == pe {
-			goto _test_eof776
-		}
-	st_case_776:
-//line msg_parse.go:8939
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr365
-		case 32:
-			goto tr365
-		case 33:
-			goto tr366
-		case 44:
-			goto tr367
-		case 59:
-			goto tr338
-		case 60:
-			goto tr349
-		case 62:
-			goto tr349
-		case 92:
-			goto tr349
-		case 94:
-			goto tr349
-		case 96:
-			goto tr349
-		case 126:
-			goto tr366
-		case 269:
-			goto tr368
-		case 525:
-			goto tr369
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr349
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr349
-				}
-			case _widec >= 36:
-				goto tr366
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr358:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st777
-tr368:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st777
-	st777:
-		if p++; p == pe {
-			goto _test_eof777
-		}
-	st_case_777:
-//line msg_parse.go:9032
-		if data[p] == 10 {
-			goto tr375
-		}
-		goto st0
+	goto st238
 tr339:
 //line sip.rl:205
 
@@ -17280,22 +16596,6 @@ tr753:
 	_test_eof242: cs = 242; goto _test_eof
 	_test_eof243: cs = 243; goto _test_eof
 	_test_eof244: cs = 244; goto _test_eof
-	_test_eof245: cs = 245; goto _test_eof
-	_test_eof246: cs = 246; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
-	_test_eof247: cs = 247; goto _test_eof
-	_test_eof248: cs = 248; goto _test_eof
-	_test_eof249: cs = 249; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
-	_test_eof250: cs = 250; goto _test_eof
-	_test_eof251: cs = 251; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
-	_test_eof252: cs = 252; goto _test_eof
-	_test_eof253: cs = 253; goto _test_eof
-	_test_eof254: cs = 254; goto _test_eof
-	_test_eof775: cs = 775; goto _test_eof
-	_test_eof776: cs = 776; goto _test_eof
-	_test_eof777: cs = 777; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
diff --git a/sip/sip.rl b/sip/sip.rl
index a182789..c4892ec 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -332,6 +332,7 @@ schemec         = alnum | "+" | "-" | ".";
 scheme          = alpha schemec*;
 uric            = reserved | unreserved | "%" | "[" | "]";
 uri             = scheme ":" uric+;
+bare_uri        = scheme ":" ( uric - [;,] )+;
 
 # Quoted strings can have just about anything, including backslash escapes,
 # which aren't quite as fancy as the ones you'd see in programming.
@@ -425,7 +426,7 @@ addr_angled       := addr_display? addr_spec addr_angled_end;
 addr_uri_end       = CRLF @Addr @goto_header
                    | SEMI <: any @hold @goto_addr_param
                    | COMMA <: any @Addr @hold @goto_addr;
-addr_uri          := ( uri - ";" ) %AddrUri addr_uri_end;
+addr_uri          := bare_uri %AddrUri addr_uri_end;
 addr              := [<\"] @AddrNew @hold @goto_addr_angled
                    | unquoted_string >mark "<" @AddrNew @backtrack @goto_addr_angled
                    | scheme >mark ":" @AddrNew @backtrack @goto_addr_uri;
-- 
2.43.0


From 459603b325fe33c37bce60e85879daa911c7162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 25/29] fix: message bodies that start with white space

---
 sip/msg_parse.go | 29 +++++++++++------------------
 sip/sip.rl       |  2 +-
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index a984cf7..4cca15f 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -9155,14 +9155,9 @@ value=nil
 			goto _test_eof280
 		}
 	st_case_280:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
+		switch data[p] {
+		case 13:
+			goto st764
 		case 33:
 			goto tr414
 		case 37:
@@ -9171,26 +9166,24 @@ value=nil
 			goto tr414
 		case 126:
 			goto tr414
-		case 269:
-			goto st764
 		}
 		switch {
-		case _widec < 48:
+		case data[p] < 48:
 			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
 					goto tr414
 				}
-			case _widec >= 42:
+			case data[p] >= 42:
 				goto tr414
 			}
-		case _widec > 57:
+		case data[p] > 57:
 			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
+			case data[p] > 90:
+				if 95 <= data[p] && data[p] <= 122 {
 					goto tr414
 				}
-			case _widec >= 65:
+			case data[p] >= 65:
 				goto tr414
 			}
 		default:
diff --git a/sip/sip.rl b/sip/sip.rl
index c4892ec..99fd498 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -536,7 +536,7 @@ sheader  = cheader <: CRLF @goto_header
          | sname $!gxh HCOLON <: any @hold @goto_value
          | ("Via"i | "v"i) $!gxh HCOLON <: any @ViaNew @hold @goto_via
          | ("Content-Type"i | "c"i) $!gxh HCOLON <: any @hold @goto_ctype;
-header  := CRLF @break
+header  := CR LF @break
          | tokenc @mark @hold sheader;
 
 # Start Line Parsing
-- 
2.43.0


From 4a7d21fd49e18e771b21dfc14a994772d9ebf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 26/29] fix: recognise refused connections (Go wraps the error
 number in os.SyscallError)

---
 util/util.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/util/util.go b/util/util.go
index 7ffce9a..7a69062 100755
--- a/util/util.go
+++ b/util/util.go
@@ -17,9 +17,9 @@ package util
 import (
 	"crypto/rand"
 	"encoding/hex"
+	"errors"
 	"math"
 	"math/big"
-	"net"
 	"strconv"
 	"strings"
 	"syscall"
@@ -27,8 +27,7 @@ import (
 
 // Return true if error is ICMP connection refused.
 func IsRefused(err error) bool {
-	operr, ok := err.(*net.OpError)
-	return ok && operr.Err == syscall.ECONNREFUSED
+	return errors.Is(err, syscall.ECONNREFUSED)
 }
 
 // Return true if error was caused by reading from a closed socket.
-- 
2.43.0


From 84d991096f4de15b9ff51965228cae7c1cae0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 27/29] fix: standard reason phrase of 484 (Address Incomplete)

---
 sip/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/status.go b/sip/status.go
index d4ee56a..d5b47c3 100755
--- a/sip/status.go
+++ b/sip/status.go
@@ -165,7 +165,7 @@ var phrases = map[int]string{
 	StatusCallTransactionDoesNotExist:  "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                 "Loop Detected",
 	StatusTooManyHops:                  "Too Many Hops",
-	StatusAddressIncomplete:            "Address StatusIncomplete",
+	StatusAddressIncomplete:            "Address Incomplete",
 	StatusAmbiguous:                    "Ambiguous",
 	StatusBusyHere:                     "Busy Here",
 	StatusRequestTerminated:            "Request Terminated",
-- 
2.43.0


From d85076a589bd7015cc3a70260174d0c147ff1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 28/29] fix: receive messages of any size a datagram can have

---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 9a37828..64cc6e8 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -24,7 +24,7 @@ import (
 )
 
 func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
-	buf := make([]byte, 2048)
+	buf := make([]byte, 65536) // Holds any UDP datagram.
 	laddr := sock.LocalAddr().(*net.UDPAddr)
 	lhost := laddr.IP.String()
 	lport := uint16(laddr.Port)
-- 
2.43.0


From e94b95592b677126e3078dda186e5a0c61286ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 29/29] fix: an unacknowledged response ends the dialog even if
 other servers are left

---
 dialog/dialog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index b3f3899..740d4c6 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -475,6 +475,7 @@ func (dls *dialogState) resendResponse() bool {
 	} else {
 		// TODO(jart): If resending INVITE 200 OK, start sending BYE.
 		log.Printf("Timeout sending response: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+		dls.routes = nil // Other servers can't acknowledge it either.
 		if !dls.popRoute() {
 			return false
 		}
-- 
2.43.0

