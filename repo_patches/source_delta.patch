From 826214c00bc0c0cd957718f53b318944fb2f82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 01/79] fix: answer unparsable SIP requests with the response
 of the parse error

SipParseError.getResponse() takes the request, which is not available here,
so that a request with a bad body length raised TypeError instead of being
answered with 400. Record the answer in the retransmission cache, too.
---
 sippy/SipTransactionManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7f520b4..9a7a20c 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -331,12 +331,12 @@ class SipTransactionManager(object):
                 req = SipRequest(data)
                 tids = req.getTIds()
             except Exception as exception:
+                self.l1rcache[checksum] = SipTMRetransmitO()
                 if isinstance(exception, SipParseError):
-                    resp = exception.getResponse()
+                    resp = exception.sip_response
                     if resp is not None:
                         self.transmitMsg(server, resp, ra.address, checksum)
                 dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
-                self.l1rcache[checksum] = SipTMRetransmitO()
                 return
             call_id = tids[0][0]
             req.rtime = rtime
-- 
2.43.0


From 2599115e6d60a859c48b2878376bf47e297b08dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 02/79] fix: keep extra headers of a CANCEL deferred until a
 provisional response

---
 sippy/SipTransactionManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 9a7a20c..e4ff908 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -454,11 +454,11 @@ class SipTransactionManager(object):
     def cancelTransaction(self, t, extra_headers = None):
         # If we got at least one provisional reply then (state == RINGING)
         # then start CANCEL transaction, otherwise deffer it
+        if extra_headers is not None and t.cancel is not None:
+            t.cancel.appendHeaders(extra_headers)
         if t.state != RINGING:
             t.cancelPending = True
         else:
-            if extra_headers is not None:
-                t.cancel.appendHeaders(extra_headers)
             self.newTransaction(t.cancel, userv = t.userv)
 
     def incomingResponse(self, msg, t, checksum):
-- 
2.43.0


From 9766ad8215349809f60e405b98a733c0f750e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 03/79] fix: copy Route headers of the INVITE into the ACK of a
 non-2xx response

RFC 3261 17.1.1.3; for a 2xx the route set is replaced later on.
---
 sippy/SipRequest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 8657bc9..1fb1d50 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -137,6 +137,7 @@ class SipRequest(SipMsg):
                           fr0m = self.getHFBCopy('from'), to = to, \
                           via = self.getHFBCopy('via'), callid = self.getHFBCopy('call-id'), \
                           cseq = self.getHFBody('cseq').getCSeqNum(), maxforwards = maxforward, \
+                          routes = self.getHFBCopys('route'), target = self.getTarget(), \
                           user_agent = self.user_agent)
 
     def genCANCEL(self):
-- 
2.43.0


From 1842b8104af1c8821e6ece84ffccaebe5924d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 04/79] fix: stop call timers when the remote SDP of a call
 being set up is refused

---
 sippy/UacStateTrying.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 538b2b5..60cba96 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -198,6 +198,11 @@ class UacStateTrying(UaStateGeneric):
                   extra_headers = event.getExtraHeaders())
             elif code >= 200 and code < 300:
                 self.genBYE()
+            if self.ua.expire_timer != None:
+                self.ua.expire_timer.cancel()
+                self.ua.expire_timer = None
+            self.ua.cancelCreditTimer()
+            self.ua.connect_ts = None
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
             return (self.ua.UaStateFailed, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
-- 
2.43.0


From ba1755808faffc4d534d5565eed898f01647e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 05/79] fix: stop call timers of an incoming call that is
 cancelled by the caller

---
 sippy/UasStateProgressing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/UasStateProgressing.py b/sippy/UasStateProgressing.py
index bb87150..aba619d 100644
--- a/sippy/UasStateProgressing.py
+++ b/sippy/UasStateProgressing.py
@@ -79,6 +79,10 @@ class UasStateProgressing(UasStateGeneric):
                 event.reason_rfc3326 = req.getHFBody('reason')
             except:
                 pass
+        self._cancelExpireTimer()
+        if self.ua.no_progress_timer is not None:
+            self.ua.no_progress_timer.cancel()
+            self.ua.no_progress_timer = None
         self.ua.disconnect_ts = rtime
         self.ua.changeState((self.ua.UaStateDisconnected, self.ua.disc_cbs, rtime, self.ua.origin))
         self.ua.emitEvent(event)
-- 
2.43.0


From 910c21e7434a3b0d68a8e588e56b9a31b38bbae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 06/79] fix: take the target of a redirect from its contacts
 when it ends an established call

---
 sippy/UaStateConnected.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 30697fb..64d8d76 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -176,9 +176,9 @@ class UaStateConnected(UaStateGeneric):
 
     def _recvEventRedirect(self, event, eh):
         redirect = None
-        redirects = event.getData()
-        if redirects is not None:
-            redirect = redirects[0]
+        scode = event.getData()
+        if scode is not None and scode[3] is not None:
+            redirect = scode[3][0]
         return self._recvEventDisconnectFailRedirect(event, eh, redirect)
 
     def _recvEventUpdate(self, event, eh):
-- 
2.43.0


From 10e1b7e0a9744514a5892338a2019fb4b8c66800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 07/79] fix: send BYE only once REFER has got its final
 response

---
 sippy/UaStateConnected.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 64d8d76..cfaadbd 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -307,5 +307,7 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
 
     def rComplete(self, resp):
+        if resp.getSCode()[0] < 200:
+            return
         req = self.ua.genRequest('BYE')
         self.ua.newTransaction(req)
-- 
2.43.0


From 07a130ec64c5386553ba1abdabe8197f173180e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 08/79] fix: allow session update after the previous one has
 failed

---
 sippy/UaStateConnected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index cfaadbd..a6811ef 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -184,7 +184,7 @@ class UaStateConnected(UaStateGeneric):
     def _recvEventUpdate(self, event, eh):
         body = event.getData()
         fake_laddr = (('127.0.0.1', None), None)
-        if self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
+        if self.ua.lSDP is not None and self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
             if self.ua.rSDP is not None:
                 self.ua.equeue.append(CCEventConnect((200, 'OK', self.ua.rSDP.getCopy()), \
                     rtime = event.rtime, origin = event.origin))
-- 
2.43.0


From ed01efe3278a630163d1ee0e4c5e6377f911a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 09/79] fix: answer challenges to keep-alive re-INVITEs

---
 sippy/UaStateConnected.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index a6811ef..8aabaeb 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -269,14 +269,16 @@ class UaStateConnected(UaStateGeneric):
         if code == 401 and resp.countHFs('www-authenticate') != 0 and \
           self.ua.username != None and self.ua.password != None and not self.triedauth:
             challenge = resp.getHFBody('www-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
+            qop = challenge.supportedAlgorithm()[1]
+            req = self.ua.genRequest('INVITE', self.ua.lSDP, (challenge, qop))
             self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
             self.triedauth = True
             return
         if code == 407 and resp.countHFs('proxy-authenticate') != 0 and \
           self.ua.username != None and self.ua.password != None and not self.triedauth:
             challenge = resp.getHFBody('proxy-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
+            qop = challenge.supportedAlgorithm()[1]
+            req = self.ua.genRequest('INVITE', self.ua.lSDP, (challenge, qop))
             self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
             self.triedauth = True
             return
-- 
2.43.0


From 1360209bb14e03e125e1b189b96d84739a004537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 10/79] fix: provisional and redirect responses to a session
 update of the peer

---
 sippy/UasStateUpdating.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index c2af2bc..735c42f 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -67,6 +67,15 @@ class UasStateUpdating(UasStateGeneric):
           extra_headers = eh)
         return (self.ua.UaStateConnected,)
 
+    def _recvEventRing(self, event, eh):
+        super()._recvEventRing(event, eh)
+        return None
+
+    def _recvEventRedirect(self, event, eh):
+        self.ua.rSDP = None
+        super()._recvEventRedirect(event, eh)
+        return (self.ua.UaStateConnected,)
+
     def _recvEventFail(self, event, eh):
         self.ua.rSDP = None
         self._sendFailResponse(event, eh)
@@ -81,9 +90,9 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
     recv_event_handlers = {
-      CCEventRing: UasStateGeneric._recvEventRing,
+      CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-      CCEventRedirect: UasStateGeneric._recvEventRedirect,
+      CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
     }
-- 
2.43.0


From 7a5cae3fb89645fda6d675818dd27ce5685f90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 11/79] fix: pass all challenges of a 407 response on

---
 sippy/UacStateTrying.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 60cba96..80e5a03 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -128,7 +128,7 @@ class UacStateTrying(UaStateGeneric):
                 if code == 401 and resp.countHFs('www-authenticate') != 0:
                     event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
                 elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHF('proxy-authenticate')]
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From ab1e6a38007622f966949125a85666adc1f284e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 12/79] fix: re-INVITE without a body when there is no remote
 SDP

---
 sippy/UaStateConnected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 8aabaeb..bfeac4a 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -66,7 +66,7 @@ class UaStateConnected(UaStateGeneric):
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
-        if body is None:
+        if body is None and self.ua.rSDP is not None:
             # Some brain-damaged stacks use body-less re-INVITE as a means
             # for putting session on hold. Quick and dirty hack to make this
             # scenario working.
-- 
2.43.0


From c79f167611e77a470f11b62ca8bf0c617b9ba218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 13/79] fix: keep scheme of a copied URI and do not share its
 headers

---
 sippy/SipURL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 6c0ecfd..e26371d 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -291,9 +291,9 @@ class SipURL(object):
 
     def getCopy(self):
         return SipURL(username = self.username, password = self.password, host = self.host, port = self.port, \
-          headers = self.headers, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
+          headers = None if self.headers is None else self.headers.copy(), usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
           maddr = self.maddr, method = self.method, tag = self.tag, other = list(self.other), \
-          userparams = list(self.userparams), lr = self.lr)
+          userparams = list(self.userparams), lr = self.lr, scheme = self.scheme)
 
     def getHost(self):
         return self.host
-- 
2.43.0


From 415bcf7c07ed6131f15995ef635ec82d5ede143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 14/79] fix: copy of a Warning header that has not been parsed

---
 sippy/SipWarning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index c429c78..0a248b2 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -60,4 +60,6 @@ class SipWarning(SipGenericHF):
         return '%d %s "%s"' % (self.code, self.agent, self.text)
 
     def getCopy(self):
+        if not self.parsed:
+            return self.__class__(self.body)
         return self.__class__(cself = self)
-- 
2.43.0


From debd802032af756ec98b1bb2eee3037cfeaa3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 15/79] fix: whitespace around parameters of a Replaces header

---
 sippy/SipReplaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipReplaces.py b/sippy/SipReplaces.py
index e305574..a2d05ef 100644
--- a/sippy/SipReplaces.py
+++ b/sippy/SipReplaces.py
@@ -50,7 +50,7 @@ class SipReplaces(SipGenericHF):
 
     def parse(self):
         self.params = []
-        params = self.body.split(';')
+        params = [x.strip() for x in self.body.split(';')]
         self.call_id = params.pop(0)
         for param in params:
             if param.startswith('from-tag='):
-- 
2.43.0


From 54e5de76d5278d136fcb81d4f9616b3ade1ca6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 16/79] fix: keep content type of a body copied before it is
 parsed

---
 sippy/MsgBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MsgBody.py b/sippy/MsgBody.py
index 2f63b3a..90c9ca7 100644
--- a/sippy/MsgBody.py
+++ b/sippy/MsgBody.py
@@ -79,7 +79,7 @@ class MsgBody(object):
 
     def getCopy(self):
         if not self.parsed:
-            return MsgBody(self.content)
+            return MsgBody(self.content, self.mtype.getCopy())
         return MsgBody(cself = self)
 
 if 'MultipartMixBody' not in globals():
-- 
2.43.0


From 4aed5a22bd5928ceb9e2af014a756ca751d9af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 17/79] fix: whitespace around parameters of an address

---
 sippy/SipAddress.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 866f01d..848aecd 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -80,6 +80,8 @@ class SipAddress(object):
                     else:
                         k = k_v[0]
                         v = None
+                    k = k.strip()
+                    v = v.strip() if v is not None else None
                     self.params[k] = v
                     if self.params_order.count(k) > 0:
                         self.params_order.remove(k)
@@ -121,6 +123,8 @@ class SipAddress(object):
                 else:
                     k = k_v[0]
                     v = None
+                k = k.strip()
+                v = v.strip() if v is not None else None
                 self.params[k] = v
                 if self.params_order.count(k) > 0:
                     self.params_order.remove(k)
-- 
2.43.0


From b3b6960e98b4d283e97a2ce454375043e43aa636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 18/79] fix: addresses without brackets and with scheme other
 than sip:

---
 sippy/SipAddress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 848aecd..2d8f3fe 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -67,7 +67,7 @@ class SipAddress(object):
                 self.hadbrace = hadbrace
             return
         # simple 'sip:foo' case
-        if address.lower().startswith('sip:') and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:', 'tel:')) and address.find('<') == -1:
             parts = address.split(';', 1)
             self.url = SipURL(parts[0], relaxedparser = relaxedparser)
             if len(parts) == 2:
-- 
2.43.0


From f65811bbc4c9ce61e00839488dba83ca8c22f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 19/79] fix: only CR and LF end a line of a SIP message

---
 sippy/SipMsg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e7cfdb8..81c62a6 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -57,7 +57,7 @@ class SipMsg(object):
                     self.__mbody = None
                 break
         # Split message into lines and put aside start line
-        lines = buf.splitlines()
+        lines = buf.replace('\r\n', '\n').replace('\r', '\n').split('\n')
         self.setSL(lines[0])
         i = 2
         while i < len(lines):
-- 
2.43.0


From e967a1a7c3e228707f80c36edb1152e09153ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 20/79] fix: recognise compact form of the Supported header

---
 sippy/SipSupported.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipSupported.py b/sippy/SipSupported.py
index 829e95d..ad772b7 100644
--- a/sippy/SipSupported.py
+++ b/sippy/SipSupported.py
@@ -29,7 +29,7 @@ from sippy.SipGenericHF import SipGenericHF
 from functools import reduce
 
 class SipSupported(SipGenericHF):
-    hf_names = ('supported',)
+    hf_names = ('supported', 'k')
     caps = None
 
     def __init__(self, body = None, caps = None):
-- 
2.43.0


From 1f546802b7e7aa2b9c7c7d72abde0b2a7b97ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 21/79] fix: escaped quotes in text of a Reason header

---
 sippy/SipReason.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/SipReason.py b/sippy/SipReason.py
index cf338ad..3eb654e 100644
--- a/sippy/SipReason.py
+++ b/sippy/SipReason.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.SipGenericHF import SipGenericHF
+from sippy.SipAddress import findquotes
 
 class SipReason(SipGenericHF):
     '''
@@ -50,7 +51,8 @@ class SipReason(SipGenericHF):
             rp_name, reason_params = (p:=reason_params.split('=', 1))[0], p[1].lstrip() if len(p) > 1 else ''
             assert rp_name in ('cause', 'text')
             if rp_name == 'text' and reason_params.startswith('"'):
-                rp_value, reason_params = (p:=reason_params[1:].split('"', 1))[0], p[1] if len(p) > 1 else ''
+                qpos = (findquotes(reason_params) + [len(reason_params)])[0]
+                rp_value, reason_params = reason_params[1:qpos], reason_params[qpos + 1:]
                 reason_params = '' if len(p:=reason_params.split(';', 1)) == 1 else p[1]
             else:
                 rp_value, reason_params = (p:=reason_params.split(';', 1))[0], p[1] if len(p) > 1 else ''
-- 
2.43.0


From a0b4c3c10cadee8c4bb6f00679dc61cea2ea02ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 22/79] fix: Content-Length is in octets, not in characters

---
 sippy/SipMsg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 81c62a6..04ac208 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -107,7 +107,7 @@ class SipMsg(object):
             if self.__mbody == None:
                 mblen = 0
             else:
-                mblen = len(self.__mbody)
+                mblen = len(self.__mbody.encode())
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
@@ -141,7 +141,7 @@ class SipMsg(object):
                     # happens with request
                     raise SipParseError('Truncated SIP body, %d bytes expected, %d received' % (blen, mblen))
             elif blen < mblen:
-                self.__mbody = self.__mbody[:blen]
+                self.__mbody = self.__mbody.encode()[:blen].decode(errors = 'ignore')
                 mblen = blen
         if self.__mbody != None:
             if self.__content_type != None:
@@ -156,7 +156,7 @@ class SipMsg(object):
         if self.body is not None:
             mbody = str(self.body)
             s += 'Content-Type: %s\r\n' % self.body.mtype
-            s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+            s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             s += 'Content-Length: 0\r\n\r\n'
@@ -170,10 +170,10 @@ class SipMsg(object):
             mbody = self.body.localStr(local_addr)
             if compact:
                 s += 'c: %s\r\n' % self.body.mtype
-                s += 'l: %d\r\n\r\n' % len(mbody)
+                s += 'l: %d\r\n\r\n' % len(mbody.encode())
             else:
                 s += 'Content-Type: %s\r\n' % self.body.mtype
-                s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+                s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             if compact:
-- 
2.43.0


From ca89e28ee93e2434257371606ff66345e3c1b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 23/79] fix: do not share qop list with the copy of a challenge

---
 sippy/SipWWWAuthenticate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index d115dc5..2f7b143 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -115,7 +115,7 @@ class SipWWWAuthenticate(SipGenericHF):
             return self.__class__(self.body)
         cself = self.__class__(realm = self.realm, nonce = self.nonce)
         cself.algorithm = self.algorithm
-        cself.qop = self.qop
+        cself.qop = None if self.qop is None else self.qop[:]
         cself.opaque = self.opaque
         if len(self.otherparams) > 0:
             cself.otherparams = self.otherparams[:]
-- 
2.43.0


From f3b989a795ce9cd87aca9da5219cbf3fc1cbe1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 24/79] fix: whitespace before parameters of an address without
 brackets

---
 sippy/SipAddress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 2d8f3fe..f001045 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -69,7 +69,7 @@ class SipAddress(object):
         # simple 'sip:foo' case
         if address.lower().startswith(('sip:', 'sips:', 'tel:')) and address.find('<') == -1:
             parts = address.split(';', 1)
-            self.url = SipURL(parts[0], relaxedparser = relaxedparser)
+            self.url = SipURL(parts[0].rstrip(), relaxedparser = relaxedparser)
             if len(parts) == 2:
                 for l in parts[1].split(';'):
                     if not l:
-- 
2.43.0


From ea4feb0d76398f631ddfbdafc5351337f1be8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 25/79] fix: accept a nonce only in the form it has been issued

---
 sippy/Security/SipNonce.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/Security/SipNonce.py b/sippy/Security/SipNonce.py
index 75cdffe..614e89d 100644
--- a/sippy/Security/SipNonce.py
+++ b/sippy/Security/SipNonce.py
@@ -62,7 +62,10 @@ class AESCipher(object):
         return b64encode(eraw).rstrip(b'=')
 
     def decrypt(self, enc):
+        eenc = enc
         enc = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        if b64encode(enc).rstrip(b'=') != eenc:
+            raise ValueError
         data = enc[:-MAC_SIZE]
         tag = enc[-MAC_SIZE:]
         ctag = hmac_new(self.mac_key, data, 'sha256').digest()[:MAC_SIZE]
-- 
2.43.0


From 040992b9f6f7e59e5e73801136438560d5f4fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 26/79] fix: reject authorization with an unknown algorithm
 instead of raising

---
 sippy/SipAuthorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index cbfe997..6e2649f 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -130,6 +130,8 @@ class SipAuthorization(SipGenericHF):
     def verify(self, password, method, body = None):
         if not self.parsed:
             self.parse()
+        if self.algorithm not in _HASH_FUNC:
+            return False
         HA1 = DigestCalcHA1(self.algorithm, self.username, self.realm, password, self.nonce, self.cnonce)
         return self.verifyHA1(HA1, method, body)
 
-- 
2.43.0


From 20af1a96d56660654c07181f03d350f8529a9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 27/79] fix: commas inside of quoted parameters of an
 authorization

---
 sippy/SipAuthorization.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index 6e2649f..4523c57 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -79,7 +79,16 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        for name, value in [x.strip(', ').split('=', 1) for x in self.body.split(' ', 1)[1].split(',')]:
+        params = ['']
+        for i, part in enumerate(self.body.split(' ', 1)[1].split('"')):
+            if i % 2 != 0:
+                # inside of a quoted string, a comma does not end the parameter
+                params[-1] += '"%s"' % part
+                continue
+            parts = part.split(',')
+            params[-1] += parts[0]
+            params.extend(parts[1:])
+        for name, value in [x.strip(', ').split('=', 1) for x in params]:
             ci_name = name.lower()
             if ci_name == 'username':
                 self.username = value.strip('"')
-- 
2.43.0


From c9e6a7bae343237448b45f8b1bae2729a8bb31e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 28/79] fix: reject messages that have no Call-ID

---
 sippy/SipMsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 04ac208..d5399b8 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -100,6 +100,8 @@ class SipMsg(object):
             raise Exception('From HF is missed')
         if 'cseq' not in header_names:
             raise Exception('CSeq HF is missed')
+        if 'call-id' not in header_names:
+            raise Exception('Call-ID HF is missed')
 
     def init_body(self):
         if self.__content_length != None:
-- 
2.43.0


From 88ab29a858c2847a14f47c8396ff047b7eeb976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 29/79] fix: reject messages with a negative Content-Length

---
 sippy/SipMsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index d5399b8..1392af4 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -106,6 +106,8 @@ class SipMsg(object):
     def init_body(self):
         if self.__content_length != None:
             blen = self.__content_length.getBody().number
+            if blen < 0:
+                raise SipParseError('Invalid Content-Length: %d' % blen)
             if self.__mbody == None:
                 mblen = 0
             else:
-- 
2.43.0


From 9dff269c73b5bf000ff428070a24c2aa3932464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 30/79] fix: whitespace around comma separated addresses

---
 sippy/SipAddressHF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipAddressHF.py b/sippy/SipAddressHF.py
index fa17d9b..bc09bca 100644
--- a/sippy/SipAddressHF.py
+++ b/sippy/SipAddressHF.py
@@ -53,7 +53,7 @@ class SipAddressHF(SipGenericHF):
                     pidx = idx + 1
             if (len(csvs) > 0):
                 csvs.append(body)
-                raise ESipHeaderCSV(None, csvs)
+                raise ESipHeaderCSV(None, [x.strip() for x in csvs])
         else:
             self.parsed = True
             self.address = address
-- 
2.43.0


From 656c434f1a585bbb0418022592a204c4cc83f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:38 +0000
Subject: [PATCH 31/79] fix: only CR and LF end a line of a SDP body

---
 sippy/SdpBody.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 7c3dd32..f850056 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -71,7 +71,8 @@ class SdpBody(object):
         self.sections = []
         if body is None:
             return
-        avpairs = [x.split('=', 1) for x in body.strip().splitlines() if len(x.strip()) > 0]
+        lines = body.strip().replace('\r\n', '\n').replace('\r', '\n').split('\n')
+        avpairs = [x.split('=', 1) for x in lines if len(x.strip()) > 0]
         current_snum = 0
         c_header = None
         for name, v in avpairs:
-- 
2.43.0


From 01eabbef160dd9aeaaf6c0231dc970ae04d70a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 32/79] fix: apply default credit time to routes that have none
 of their own

---
 sippy/B2B/Route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index ab76deb..d77ccfb 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -214,7 +214,7 @@ class B2BRoute(object):
         if not self.cli_set:
             self._cli = default_cli
         if not self.crt_set:
-            self.crt_set = default_credit_time
+            self.credit_time = default_credit_time
         if 'gt' in self.params:
             timeout, skip = self.params['gt'].split(',', 1)
             self.params['group_timeout'] = (int(timeout), rnum + int(skip))
-- 
2.43.0


From 375406773b34c76cb407f536f3c867d77b892175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 33/79] fix: routing of calls back to a SIP user agent

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index e1380d8..617b3c2 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -295,7 +295,7 @@ class CallController(object):
         if oroute.hostport == DST_SIP_UA:
             host = self.source[0]
             nh_address, same_af = self.source, True
-        if oroute.hostport == DST_WSS_UA:
+        elif oroute.hostport == DST_WSS_UA:
             host = self.req_target.host
             (nh_address, nh_transport), same_af = self.req_target.getTAddr(), True
             UA_kwa['nh_transport'] = nh_transport
-- 
2.43.0


From 8ec86f23d0f80a7fb3b57eb399e82a8af776ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 34/79] fix: accept no RTP proxy command for a session already
 deleted

---
 sippy/Rtp_proxy/Cmd/sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Cmd/sequencer.py b/sippy/Rtp_proxy/Cmd/sequencer.py
index 44beae2..ee37bc1 100644
--- a/sippy/Rtp_proxy/Cmd/sequencer.py
+++ b/sippy/Rtp_proxy/Cmd/sequencer.py
@@ -37,7 +37,7 @@ class Rtp_proxy_cmd_sequencer(object):
         self.comqueue = []
 
     def send_command(self, command, result_callback = None, *callback_parameters):
-        if self.rtp_proxy_client == None:
+        if self.rtp_proxy_client == None or self.deleted:
             return
         if self.inflight != None:
             self.comqueue.append((command, result_callback, callback_parameters))
-- 
2.43.0


From 12f354ddcb5da4ca60d38a42523bd197c77e871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 35/79] fix: copying a side of a media session not created yet

---
 sippy/Rtp_proxy/Session/side.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 213dc55..a55dedc 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -249,7 +249,7 @@ class _rtpps_side(object):
     def _copy(self, rtpps, remote_ip, remote_port, result_callback = None, index = 0):
         if not self.session_exists:
             up = update_params()
-            up.rtpps = self
+            up.rtpps = rtpps
             up.index = index
             up.result_callback = partial(self.__copy, remote_ip, remote_port, result_callback, index)
             self.update(up)
-- 
2.43.0


From 76ce3704b167ab2f3cf8d76c9f41b572389e0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 36/79] fix: report malformed answers of the RTP proxy as
 errors

---
 sippy/Rtp_proxy/Session/update.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 078841d..0c2f6e8 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -47,6 +47,10 @@ class update_params():
         result = result.rstrip()
         t0 = result.split('&&', 1)
         t1 = t0[0].split()
+        if len(t1) == 0:
+            ex = RtpProxyError(f'RTPProxy errored: malformed answer: {result!r}')
+            self.result_callback(None, self.rtpps, ex=ex)
+            return
         if t1[0][0] == 'E':
             ex = RtpProxyError(f'RTPProxy errored: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
@@ -84,8 +88,11 @@ class update_params():
                 subc_ress = subc_ress[len(subc.commands):]
                 if len(subc_ress) == 0:
                     break
-        ur.rtpproxy_port = int(t1[0])
-        if ur.rtpproxy_port == 0:
+        try:
+            ur.rtpproxy_port = int(t1[0])
+        except ValueError:
+            ur.rtpproxy_port = 0
+        if ur.rtpproxy_port <= 0 or ur.rtpproxy_port > 65535:
             ex = RtpProxyError(f'RTPProxy errored: bad port: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
             return None
-- 
2.43.0


From 203d1be5ef0f71ccfdfa285a5fb45edc2d870ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 37/79] fix: report RTP proxy errors when playing, copying and
 recording

---
 sippy/Rtp_proxy/Session/side.py | 18 ++++++++++++++----
 sippy/Rtp_proxy/session.py      | 10 +++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index a55dedc..50fc8e2 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -118,14 +118,19 @@ class _rtpps_side(object):
         ur = up.process_rtpp_result(result)
         self.rinfo_hst.append(ur)
 
-    def __play(self, prompt_name, times, result_callback, index, result, rtpps):
+    def __play(self, prompt_name, times, result_callback, index, result, rtpps, ex=None):
+        if ex is not None:
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'P%d %s %s %s %s %s' % (times, '%s-%d' % (rtpps.call_id, index), prompt_name, self.codecs, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
 
     def _play(self, rtpps, prompt_name, times = 1, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
             return
         otherside = self.getother(rtpps)
         if not otherside.session_exists:
@@ -139,7 +144,8 @@ class _rtpps_side(object):
 
     def _stop_play(self, rtpps, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
             return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'S %s %s %s' % ('%s-%d' % (rtpps.call_id, index), from_tag, to_tag)
@@ -256,7 +262,11 @@ class _rtpps_side(object):
             return
         self.__copy(remote_ip, remote_port, result_callback, index, None, rtpps)
 
-    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps):
+    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps, ex=None):
+        if ex is not None:
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'C %s udp:%s:%d %s %s' % ('%s-%d' % (rtpps.call_id, index), remote_ip, remote_port, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 307b139..19b35eb 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -137,15 +137,15 @@ class Rtp_proxy_session(object):
             return
         first_stage(result='dummy', rtpps=None)
 
-    def _start_recording_a(self, make_command, next_stage, result, rtpps):
+    def _start_recording_a(self, make_command, next_stage, result, rtpps, ex=None):
         if result is None:
-            return next_stage(None)
+            return next_stage(None) if next_stage is not None else None
         command = make_command('a')
         return self.rtpp_seq.send_command(command, next_stage)
 
     def _start_recording_o(self, make_command, result_callback, result):
         if result is None:
-            return result_callback(None)
+            return result_callback(None) if result_callback is not None else None
         command = make_command('o')
         return self.rtpp_seq.send_command(command, result_callback)
 
@@ -176,9 +176,9 @@ class Rtp_proxy_session(object):
         self.rtp_proxy_client.send_command(command, self.stats_result, (result_callback, callback_parameters))
 
     def stats_result(self, result, args, ex=None):
-        t1 = result.split()
         result_callback, callback_parameters = args
-        if len(t1) == 1:
+        t1 = result.split() if result is not None else ()
+        if len(t1) <= 1:
             result_callback(None, *callback_parameters)
             return
         ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in t1]
-- 
2.43.0


From ee1e6c2dd6f979678d5536a730bb4271c9c12455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 38/79] fix: options of an RTP proxy command survive being
 parsed

---
 sippy/Rtp_proxy/cmd.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp_proxy/cmd.py b/sippy/Rtp_proxy/cmd.py
index f7b9375..bd7b1bc 100644
--- a/sippy/Rtp_proxy/cmd.py
+++ b/sippy/Rtp_proxy/cmd.py
@@ -26,6 +26,14 @@
 
 from __future__ import print_function
 
+ADDR_CHARS = ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.')
+
+def extract_address(s):
+    if s.startswith('[') and ']' in s:
+        i = s.index(']') + 1
+        return (s[:i], s[i:])
+    return extract_to_next_token(s, ADDR_CHARS)
+
 def extract_to_next_token(s, match, invert = False):
     i = 0
     while i < len(s):
@@ -59,12 +67,12 @@ class UpdateLookupOpts(object):
         self.otherparams = ''
         while len(s) > 0:
             if s[0] == 'R':
-                val, s = extract_to_next_token(s[1:], ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.'))
+                val, s = extract_address(s[1:])
                 val = val.strip()
                 if len(val) > 0:
                     self.destination_ip = val
             elif s[0] == 'L':
-                val, s = extract_to_next_token(s[1:], ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.'))
+                val, s = extract_address(s[1:])
                 val = val.strip()
                 if len(val) > 0:
                     self.local_ip = val
@@ -74,12 +82,14 @@ class UpdateLookupOpts(object):
                 if len(val) > 0:
                     self.codecs = [int(x) for x in val.split(',')]
             else:
-                val, s = extract_to_next_token(s, ('c', 'R'), True)
+                val, s = extract_to_next_token(s, ('c', 'R', 'L'), True)
                 if len(val) > 0:
                     self.otherparams += val
 
     def getstr(self, call_id, swaptags = False, skipnotify = False):
         s = ''
+        if self.otherparams != None and len(self.otherparams) > 0:
+            s += self.otherparams
         if self.destination_ip != None:
             s += 'R%s' % (self.destination_ip,)
         if self.local_ip != None:
@@ -89,8 +99,6 @@ class UpdateLookupOpts(object):
             for codec in self.codecs:
                 s += '%s,' % (codec,)
             s = s[:-1]
-        if self.otherparams != None and len(self.otherparams) > 0:
-            s += self.otherparams
         s = '%s %s' % (s, call_id)
         if self.remote_ip != None:
             s = '%s %s' % (s, self.remote_ip)
-- 
2.43.0


From c922e3660547d53274aee0814c8ba904be4e809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 39/79] fix: hand on bodies that have nothing to relay

---
 sippy/Rtp_proxy/Session/side.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 50fc8e2..a29d170 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -163,14 +163,16 @@ class _rtpps_side(object):
         sdp_bc = sdp_body.content
         if isinstance(sdp_bc, strtypes):
             sdp_body.needs_update = False
-            return sdp_body
+            ED2.callFromThread(result_callback, sdp_body)
+            return
         for i, sect in enumerate(sdp_bc.sections):
             if sect.m_header.transport.lower() not in rtpps.SUPPORTED_TRTYPES:
                 continue
             sects.append(sect)
         if len(sects) == 0:
             sdp_body.needs_update = False
-            return sdp_body
+            ED2.callFromThread(result_callback, sdp_body)
+            return
         formats = sects[0].m_header.formats
         self.codecs = ','.join([ str(x) for x in formats ])
         if self.repacketize is not None and not self.soft_repacketize:
-- 
2.43.0


From 97a04b0a88231e95d7862f62660e771844ca864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 40/79] fix: end RTP proxy commands with a new line on stream
 transports

---
 sippy/Rtp_proxy/Client/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Client/stream.py b/sippy/Rtp_proxy/Client/stream.py
index 1a7bc39..69b5d1f 100644
--- a/sippy/Rtp_proxy/Client/stream.py
+++ b/sippy/Rtp_proxy/Client/stream.py
@@ -68,7 +68,7 @@ class Rtp_proxy_client_stream(Rtp_proxy_client_net):
             self.rtpp_class._reconnect(self, self.address)
         if isinstance(command, Rtp_proxy_cmd):
             command = str(command)
-        elif not command.endswith('\n'):
+        if not command.endswith('\n'):
             command += '\n'
         self.wi.put((command, result_callback, callback_parameters))
 
-- 
2.43.0


From e84c7613583388239d0517919d0fac200d47e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 41/79] fix: answer a proxy's challenge to a registration with
 Proxy-Authorization

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 2b662ca..94b2f76 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -96,7 +96,7 @@ class SipRegistrationAgent(object):
             return
         if self.user != None and self.passw != None and self.atries < 3:
             for sc, chn, rhn in ((401, 'www-authenticate', 'authorization'),
-                                 (407, 'proxy-authenticate', 'authorization')):
+                                 (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
                 if resp.countHFs(chn) == 0:
-- 
2.43.0


From 9ff6e21b28fda5a6558a51728c957138e9d3d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 42/79] fix: go on registering after a reply that cannot be
 understood

---
 sippy/SipRegistrationAgent.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 94b2f76..d1f78d3 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -24,6 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from sippy.Core.Exceptions import dump_exception
 from sippy.Time.Timeout import Timeout
 from sippy.SipURL import SipURL
 from sippy.SipTo import SipTo
@@ -80,15 +81,16 @@ class SipRegistrationAgent(object):
         if resp.scode < 200:
             return
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
-            contact = None
-            if resp.countHFs('contact') > 0:
-                contact = resp.getHFBody('contact')
-            if contact != None and 'expires' in contact.address.params:
-                tout = int(contact.address.params['expires'])
-            elif resp.countHFs('expires') > 0:
-                tout = resp.getHFBody('expires').getNum()
-            else:
-                tout = self.exp
+            contact, tout = None, self.exp
+            try:
+                if resp.countHFs('contact') > 0:
+                    contact = resp.getHFBody('contact')
+                if contact != None and 'expires' in contact.address.params:
+                    tout = int(contact.address.params['expires'])
+                elif resp.countHFs('expires') > 0:
+                    tout = resp.getHFBody('expires').getNum()
+            except Exception:
+                dump_exception('SipRegistrationAgent: cannot make out the lifetime granted')
             timer = Timeout(self.doregister, tout)
             if self.rok_cb != None:
                 self.rok_cb(timer.etime.realt, contact, self.cb_arg)
@@ -101,12 +103,16 @@ class SipRegistrationAgent(object):
                     continue
                 if resp.countHFs(chn) == 0:
                     break
-                challenge = resp.getHFBody(chn)
-                supported, qop = challenge.supportedAlgorithm()
-                if not supported:
+                try:
+                    challenge = resp.getHFBody(chn)
+                    supported, qop = challenge.supportedAlgorithm()
+                    if not supported:
+                        break
+                    auth = challenge.genAuthHF(self.user, self.passw, 'REGISTER',
+                                               str(self.rmsg.ruri), qop=qop)
+                except Exception:
+                    dump_exception('SipRegistrationAgent: cannot make out the challenge')
                     break
-                auth = challenge.genAuthHF(self.user, self.passw, 'REGISTER',
-                                           str(self.rmsg.ruri), qop=qop)
                 for authorization in self.rmsg.getHFs(rhn):
                     self.rmsg.removeHeader(authorization)
                 self.rmsg.appendHeader(SipHeader(name = rhn, body = auth))
-- 
2.43.0


From c7f65e962077cf63b9d821b4f475a17e03b6c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:53 +0000
Subject: [PATCH 43/79] fix: send the lifetime asked for with a registration

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index d1f78d3..8e5be23 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -59,7 +59,7 @@ class SipRegistrationAgent(object):
         fr0m.genTag()
         to = SipTo(address = tfaddr)
         contact = SipContact(address = SipAddress(url = contact))
-        contact.address.params['expires'] = str(exp)
+        contact.address.setParam('expires', str(exp))
         self.exp = exp
         self.rmsg = SipRequest(method = 'REGISTER', ruri = ruri, fr0m = fr0m, contact = contact, to = to, target = target)
 
-- 
2.43.0


From 662a61770a47b1f1a80ce34afd307bbfd8c2f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:33 +0000
Subject: [PATCH 44/79] fix: hand on the bodies of failure responses

---
 sippy/SipResponse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sippy/SipResponse.py b/sippy/SipResponse.py
index 3ec8e25..8a077f4 100644
--- a/sippy/SipResponse.py
+++ b/sippy/SipResponse.py
@@ -39,6 +39,12 @@ class SipResponse(SipMsg):
         if buf != None:
             if self.scode > 100 and self.scode < 400:
                 SipMsg.init_body(self)
+            elif self.scode >= 400:
+                # Never lose a failure because of what is in its body
+                try:
+                    SipMsg.init_body(self)
+                except Exception:
+                    self.body = None
             return
         self.scode, self.reason, self.sipver = scode, reason, sipver
         if vias != None:
-- 
2.43.0


From 1632cd199b490db61088fababc3aba99d8dfd6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 45/79] fix: compute the times of interim accounting records
 from the right clock

---
 sippy/RadiusAccounting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index f146581..87903d6 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -27,6 +27,7 @@
 
 from time import time, strftime, gmtime
 from sippy.Time.Timeout import Timeout
+from sippy.Time.MonoTime import MonoTime
 
 sipErrToH323Err = {400:('7f', 'Interworking, unspecified'), 401:('39', 'Bearer capability not authorized'), \
   402:('15', 'Call rejected'), 403:('39', 'Bearer capability not authorized'), 404:('1', 'Unallocated number'), \
@@ -121,7 +122,7 @@ class RadiusAccounting(object):
         if not self.complete:
             return
         if rtime == None:
-            rtime = time()
+            rtime = MonoTime()
         if ua != None:
             duration, delay, connected = ua.getAcct()[:3]
         else:
-- 
2.43.0


From a62be4a96d167ae4e933eaf136aeffed6f6ab3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 46/79] fix: send no accounting start or interim records after
 the stop

---
 sippy/RadiusAccounting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index 87903d6..62bb6ae 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -82,7 +82,7 @@ class RadiusAccounting(object):
         self.complete = True
 
     def conn(self, ua, rtime, origin):
-        if self.crec:
+        if self.crec or self.drec:
             return
         self.crec = True
         self.iTime = ua.setup_ts
-- 
2.43.0


From 55330ae48c5e9e18c0ef7e6d3a26d6250084d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 47/79] fix: timeout of a group of routes

---
 sippy/b2bua.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 617b3c2..8c5c11d 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -403,17 +403,17 @@ class CallController(object):
             self.global_config['_cmap'].ccmap.remove(self)
 
     def group_expires(self, skipto):
-        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0][0] > skipto or \
+        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0].rnum > skipto or \
           (not isinstance(self.uaA.state, self.uaA.UasStateTrying) and not isinstance(self.uaA.state, self.uaA.UasStateRinging)):
             return
         # When the last group in the list has timeouted don't disconnect
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1][0] + 1:
+        if skipto > self.routes[-1].rnum:
             self.routes = []
             return
-        while self.routes[0][0] != skipto:
+        while self.routes[0].rnum < skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From d51d35896b2fed7a5c34af51df60584ffc381d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 48/79] fix: put the challenge into the 401 response to a call
 refused by RADIUS

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 8c5c11d..06da47a 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -224,7 +224,7 @@ class CallController(object):
             if isinstance(self.uaA.state, self.uaA.UasStateTrying):
                 if self.challenge != None:
                     event = CCEventFail((401, 'Unauthorized'))
-                    event.extra_header = self.challenge
+                    event.challenges = [self.challenge,]
                 else:
                     event = CCEventFail((403, 'Auth Failed'))
                 self.uaA.recvEvent(event)
-- 
2.43.0


From 16d34735f3414ea003f7175065c90c6305358b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 49/79] fix: forget calls that have run out of hops

---
 sippy/b2bua.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 06da47a..105e9ad 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -352,6 +352,8 @@ class CallController(object):
         if self.eTry.max_forwards != None:
             event.max_forwards = self.eTry.max_forwards - 1
             if event.max_forwards <= 0:
+                # Never used, hence it is not going to die
+                self.uaO = None
                 self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
                 self.state = CCStateDead
                 return
-- 
2.43.0


From 0c24c8b165a53adc422c4b70e44917959fa21e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 50/79] fix: answer calls for which RADIUS returns routes that
 cannot be used

---
 sippy/b2bua.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 105e9ad..ce58d3a 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -254,7 +254,12 @@ class CallController(object):
                 self.caller_name = None
         credit_time = [x for x in results[0] if x[0] == 'h323-credit-time']
         if len(credit_time) > 0:
-            credit_time = int(credit_time[0][1])
+            try:
+                credit_time = int(credit_time[0][1])
+            except ValueError:
+                self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (4)')))
+                self.state = CCStateDead
+                return
         else:
             credit_time = None
         if not '_static_routes' in self.global_config:
@@ -263,7 +268,7 @@ class CallController(object):
                 self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (2)')))
                 self.state = CCStateDead
                 return
-            routing = [B2BRoute(x[1][8:]) for x in routing]
+            routing = [x for x in (self.getRoute(x[1][8:]) for x in routing) if x is not None]
         elif self.req_source == SRC_PROXY and SRC_PROXY in self.global_config['_static_routes']:
             routing = [self.global_config['_static_routes'][SRC_PROXY].getCopy(),]
         else:
@@ -272,8 +277,12 @@ class CallController(object):
         for oroute in routing:
             rnum += 1
             max_credit_time = self.global_config.getdefault('max_credit_time', None)
-            oroute.customize(rnum, self.cld, self.cli, credit_time, self.pass_headers, \
-              max_credit_time)
+            try:
+                oroute.customize(rnum, self.cld, self.cli, credit_time, self.pass_headers, \
+                  max_credit_time)
+            except ValueError:
+                dump_exception('CallController: route skipped', extra = oroute.hostport)
+                continue
             if oroute.credit_time == 0 or oroute.expires == 0:
                 continue
             self.routes.append(oroute)
@@ -285,6 +294,13 @@ class CallController(object):
         self.state = CCStateARComplete
         self.placeOriginate(self.routes.pop(0))
 
+    def getRoute(self, sroute):
+        try:
+            return B2BRoute(sroute)
+        except Exception:
+            dump_exception('CallController: route skipped', extra = sroute)
+            return None
+
     def placeOriginate(self, oroute):
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
         cld = oroute.cld
-- 
2.43.0


From c59d02b5dbe92579187f55a418a005c5884439ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 51/79] fix: reading of configuration files with current
 versions of Python

---
 sippy/MyConfigParser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index df9dc61..51f6cd0 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -161,10 +161,13 @@ class MyConfigParser(RawConfigParser):
         return tuple([x + '=' for x in SUPPORTED_OPTIONS.keys()])
 
     def read(self, fname):
-        RawConfigParser.readfp(self, open(fname))
-        for key in tuple(self.options(self._default_section)):
-            self.check_and_set(key, RawConfigParser.get(self, \
-              self._default_section, key), False)
+        parser = RawConfigParser()
+        with open(fname) as f:
+            parser.read_file(f)
+        if not parser.has_section(self._default_section):
+            return
+        for key, value in parser.items(self._default_section):
+            self.check_and_set(key, value, False)
 
     def check_and_set(self, key, value, compat = True):
         value = value.strip()
-- 
2.43.0


From 7793a746ce3a7c808b26f971b72811a8cc9266c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 52/79] fix: padding of audio that is resampled before being
 sent

The padding was computed from the length before resampling, so that frames
which do not fill a packet after resampling tripped an assertion and nothing
was sent any more.
---
 sippy/Rtp/OutputWorker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp/OutputWorker.py b/sippy/Rtp/OutputWorker.py
index 502c36d..0f0dcc2 100644
--- a/sippy/Rtp/OutputWorker.py
+++ b/sippy/Rtp/OutputWorker.py
@@ -154,7 +154,7 @@ class RTPOutputWorker():
                 chunk.resample(self.samplerate_out)
             if self.data_log is not None:
                 self.data_log.extend(chunk.to_bytes())
-            chunk_ebytes = self.codec.d2e_frames(chunk_nframes)
+            chunk_ebytes = self.codec.d2e_frames(chunk.nframes)
             pad_nbytes = (-chunk_ebytes) % self._out_psize
             if pad_nbytes != 0:
                 pad_nframes = self.codec.e2d_frames(pad_nbytes)
-- 
2.43.0


From 268b886bdd6732d9145f9c2f78e618ea36533438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 53/79] fix: update of a media endpoint to a target of another
 address family

The local address was looked up for the old target in the new family, which
raised.
---
 sippy/Rtp/EPoint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/Rtp/EPoint.py b/sippy/Rtp/EPoint.py
index f8479f1..9d3c1e8 100644
--- a/sippy/Rtp/EPoint.py
+++ b/sippy/Rtp/EPoint.py
@@ -174,6 +174,9 @@ class RTPEPoint():
         with self.state_lock:
             target_changed = self.rtp_params.rtp_target != rtp_params.rtp_target
             proto_changed = self.rtp_params.rtp_proto != rtp_params.rtp_proto
+            if proto_changed:
+                # The old target is of no use in the other family
+                self.rtp_params.rtp_target = None
             self.rtp_params.rtp_proto = rtp_params.rtp_proto
             self.rtp_params.rtp_target = rtp_params.rtp_target
             ptime_changed = self.rtp_params.out_ptime != rtp_params.out_ptime
-- 
2.43.0


From 5991cee4356b7a5e6797adb62204bb93cf27251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:00 +0000
Subject: [PATCH 54/79] fix: release of the channel of a media endpoint that
 cannot be made

The shared server was released, and shut down, before the channel was closed:
closing it raised and hid the error, and the port stayed in use.
---
 sippy/Rtp/EPoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp/EPoint.py b/sippy/Rtp/EPoint.py
index 9d3c1e8..1494b7d 100644
--- a/sippy/Rtp/EPoint.py
+++ b/sippy/Rtp/EPoint.py
@@ -83,10 +83,10 @@ class RTPEPoint():
                 channel.set_target(target[0], target[1])
             return channel
         except Exception:
-            release_rtp_server(rtp_server)
-            self._rtp_server = None
             if channel is not None:
                 channel.close()
+            release_rtp_server(rtp_server)
+            self._rtp_server = None
             raise
 
     def _create_channel(self, rtp_server:RtpServer, bind_host:str, bind_port:int):
-- 
2.43.0


From b4192f8b16ff688a7c1effcc873669f14d91da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:16 +0000
Subject: [PATCH 55/79] fix: silence of the G.722 codec

encode() takes a chunk, not samples: a lost packet raised. The number of
samples has to be the one before resampling.
---
 sippy/Rtp/Codecs/G722.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp/Codecs/G722.py b/sippy/Rtp/Codecs/G722.py
index 63fe43f..1e3cc11 100644
--- a/sippy/Rtp/Codecs/G722.py
+++ b/sippy/Rtp/Codecs/G722.py
@@ -34,8 +34,8 @@ class G722Codec(GenCodec):
         return chunk
 
     def silence(self, nframes:int):
-        pcm16 = array('h', [0]) * self.e2d_frames(nframes)
-        return self.encode(pcm16)
+        pcm16 = array('h', [0]) * self.e2d_frames(nframes, self.srate)
+        return self.codec.encode(pcm16)
 
     def e2d_frames(self, enframes:int, out_srate:int=None):
         #assert out_srate % self.srate == 0
-- 
2.43.0


From 5840bfa29e7447d74519b2b26860fa7359d79e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:47 +0000
Subject: [PATCH 56/79] fix: queries to a helper process that has died

The query was lost, its callback never called, and the worker thread gone.
Report an empty answer and start the helper again.
---
 sippy/External_command.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 36d40f1..05547a2 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -50,9 +50,11 @@ class _Worker(Thread):
         need_close_fds = True
         if platform == 'win32':
             need_close_fds = False
-        pipe = Popen(self.command, shell = False, stdin = PIPE, \
-          stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+        pipe = None
         while True:
+            if pipe == None:
+                pipe = Popen(self.command, shell = False, stdin = PIPE, \
+                  stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
             self.master.work_available.acquire()
             while len(self.master.work) == 0:
                 self.master.work_available.wait()
@@ -71,12 +73,18 @@ class _Worker(Thread):
                 continue
             batch = [x.encode() + b'\n' for x in wi.data]
             batch.append(b'\n')
-            pipe.stdin.writelines(batch)
-            pipe.stdin.flush()
             result = []
-            while True:
+            died = False
+            try:
+                pipe.stdin.writelines(batch)
+                pipe.stdin.flush()
+            except IOError:
+                died = True
+            while not died:
                 try:
-                    line = pipe.stdout.readline().strip()
+                    line = pipe.stdout.readline()
+                    died = len(line) == 0
+                    line = line.strip()
                 except IOError as e:
                     # Catch EINTR
                     if e.args[0] != EINTR:
@@ -89,6 +97,11 @@ class _Worker(Thread):
             wi.data = None
             wi.result_callback = None
             wi.callback_parameters = None
+            if died:
+                # Get rid of what is left, the next query needs another one
+                pipe.kill()
+                pipe.communicate()
+                pipe = None
 
 class Work_item(object):
     cancelled = False
-- 
2.43.0


From 108ba443a9be30f249a805416dc65d1601bc2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:47 +0000
Subject: [PATCH 57/79] fix: answers of the RADIUS client that make no sense

An empty or malformed answer raised and was never told to who had asked: the
call hung.
---
 sippy/Radius_client.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 8c7b4d4..9b710b6 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -67,14 +67,19 @@ class Radius_client(External_command):
         if result_callback == None:
             return
         nav = []
-        for av in result[:-1]:
-            a, v = [x.strip() for x in av.decode().split(' = ', 1)]
-            v = v.strip('\'')
-            if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
-                t = v.split('=', 1)
-                if len(t) > 1:
-                    a, v = t
-            elif v.startswith(a + '='):
-                v = v[len(a) + 1:]
-            nav.append((a, v))
-        External_command.process_result(self, result_callback, (tuple(nav), int(result[-1])), *callback_parameters)
+        try:
+            for av in result[:-1]:
+                a, v = [x.strip() for x in av.decode().split(' = ', 1)]
+                v = v.strip('\'')
+                if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
+                    t = v.split('=', 1)
+                    if len(t) > 1:
+                        a, v = t
+                elif v.startswith(a + '='):
+                    v = v[len(a) + 1:]
+                nav.append((a, v))
+            rcode = int(result[-1])
+        except (ValueError, IndexError):
+            # The client has died or is talking nonsense
+            nav, rcode = [], -1
+        External_command.process_result(self, result_callback, (tuple(nav), rcode), *callback_parameters)
-- 
2.43.0


From 8b4d049b13179053ded494f2b2c571cf6be81316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:47 +0000
Subject: [PATCH 58/79] fix: line breaks in the attributes of RADIUS requests

A user name such as a%0aPassword=... in a SIP URI added attributes to the
request.
---
 sippy/Radius_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 9b710b6..6971114 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -54,7 +54,8 @@ class Radius_client(External_command):
                 a = 'Cisco-AVPair'
             elif a in self._cisco_vsa_names:
                 v = '%s=%s' % (str(a), str(v))
-            data.append('%s="%s"' % (str(a), str(v)))
+            v = str(v).replace('\r', ' ').replace('\n', ' ')
+            data.append('%s="%s"' % (str(a), v))
         return data
 
     def do_auth(self, attributes, result_callback, *callback_parameters):
-- 
2.43.0


From bdb6a399cb74e3babc37814ae50bf0f4db2f4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:04 +0000
Subject: [PATCH 59/79] fix: quotes in the attributes of RADIUS requests

There is no way to escape the quote in the input of the RADIUS client: it would
end the value and what follows, which comes from the caller, would be taken for
further attributes.
---
 sippy/Radius_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 6971114..91b7fe1 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -54,7 +54,7 @@ class Radius_client(External_command):
                 a = 'Cisco-AVPair'
             elif a in self._cisco_vsa_names:
                 v = '%s=%s' % (str(a), str(v))
-            v = str(v).replace('\r', ' ').replace('\n', ' ')
+            v = str(v).replace('\r', ' ').replace('\n', ' ').replace('"', "'")
             data.append('%s="%s"' % (str(a), v))
         return data
 
-- 
2.43.0


From f275b174ec924002a22029ae43959afbb479cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:44 +0000
Subject: [PATCH 60/79] fix: socket options of UDP servers

The server works on a copy of its options, which had the default flags and number
of workers instead of those asked for. Among others, the dry run that is to find
out that the SIP port is taken shared the port and found nothing.
---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 81a7bd9..72d7d84 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -144,7 +144,7 @@ class Udp_server_opts(Network_server_opts):
     def __init__(self, *args, family = None, o = None):
         super().__init__(*args, o=o)
         if o != None:
-            self.family = o.family
+            self.family, self.flags, self.nworkers = o.family, o.flags, o.nworkers
             return
         if family == None:
             if self.laddress != None and self.laddress[0].startswith('['):
-- 
2.43.0


From abf94b3aec1f0fe6dc283467d7d3bd5b00c19f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:44 +0000
Subject: [PATCH 61/79] fix: errors when receiving datagrams

Logging the error raised, and nothing was received any more.
---
 sippy/Udp_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 72d7d84..5e3422e 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -34,6 +34,7 @@ except NameError:
 from errno import ECONNRESET, ENOTCONN, ESHUTDOWN, EWOULDBLOCK, ENOBUFS, EAGAIN, \
   EINTR, EBADF, EADDRINUSE
 from datetime import datetime
+from os import getpid
 from time import sleep, time
 from threading import Thread
 from sysconfig import get_platform
@@ -116,10 +117,10 @@ class AsyncReceiver(Thread):
                     break
                 if why.errno in (EINTR,):
                     continue
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())
                 continue
             except Exception:
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())
                 sleep(1)
                 continue
             if self.userv.uopts.family == socket.AF_INET6:
-- 
2.43.0


From 7425b61dbf6442f146277450e9230cfd169a7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:46 +0000
Subject: [PATCH 62/79] fix: control commands that list and end calls

---
 sippy/B2B/SimpleAPI.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2f6c0c9..2e89d15 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -54,7 +54,7 @@ class B2BSimpleAPI(CLIConnectionManager):
         if cmd == 'l':
             res = 'In-memory calls:\n'
             total = 0
-            for (cid, sname), uaast, uaost in ccm.listActiveCalls():
+            for cid, sname, uaast, uaost in ccm.listActiveCalls():
                 res += f'{cid}: {sname} ('
                 if uaast is not None:
                     _s, _t, _h, _p, _cld, _cli = uaast
@@ -72,10 +72,10 @@ class B2BSimpleAPI(CLIConnectionManager):
             return False
         if cmd == 'lt':
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             clim.send(res)
             return False
@@ -86,13 +86,13 @@ class B2BSimpleAPI(CLIConnectionManager):
                 mindur = 0.0
             ctime = MonoTime()
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
                 res += '%s %s %s %s\n' % (tid, t.method, t.state, duration)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
@@ -104,7 +104,7 @@ class B2BSimpleAPI(CLIConnectionManager):
                 clim.send('ERROR: syntax error: d <call-id>\n')
                 return False
             if args[0] == '*':
-                self.discAll()
+                ccm.discAll()
                 clim.send('OK\n')
                 return False
             dlist = [x for x in ccm.ccmap if str(x.cId) == args[0]]
-- 
2.43.0


From bbdd296960025bd9d3aa67cd770506a4c40d8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:46 +0000
Subject: [PATCH 63/79] fix: address of the callee in the list of active calls

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index ce58d3a..c55dcdc 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -621,7 +621,7 @@ class CallMap(object):
             else:
                 r.append(None)
             if cc.uaO != None:
-                (_h, _p), _t = cc.uaA.getRAddr0()
+                (_h, _p), _t = cc.uaO.getRAddr0()
                 r.append((cc.uaO.state.sname, _t, _h, _p,
                          cc.uaO.getCLI(), cc.uaO.getCLD()))
             else:
-- 
2.43.0


From c340b6741ffb6e8a399b5abc8dfcb127f5075476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:46 +0000
Subject: [PATCH 64/79] fix: control connections reset by the peer

---
 sippy/CLIManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 1f9c47c..0e174bd 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -246,7 +246,8 @@ class _CLIManager_r(Thread):
             except socket.error as msg:
                 if msg.errno in (EBADF,):
                     break
-                raise
+                ED2.callFromThread(self.clim.shutdown)
+                break
             if len(data) == 0:
                 ED2.callFromThread(self.clim.shutdown)
                 break
-- 
2.43.0


From 6cd7a0ac40b60b8552dd55e17125bb1666064919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:06 +0000
Subject: [PATCH 65/79] fix: malformed answers to the heartbeat of the RTP
 proxy

---
 sippy/Rtp_proxy/client.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 59c79fd..78123cd 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -238,16 +238,19 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
             sessions_created = active_sessions = active_streams = preceived = ptransmitted = 0
             for line in stats.splitlines():
                 line_parts = line.split(':', 1)
-                if line_parts[0] == 'sessions created':
-                    sessions_created = int(line_parts[1])
-                elif line_parts[0] == 'active sessions':
-                    active_sessions = int(line_parts[1])
-                elif line_parts[0] == 'active streams':
-                    active_streams = int(line_parts[1])
-                elif line_parts[0] == 'packets received':
-                    preceived = int(line_parts[1])
-                elif line_parts[0] == 'packets transmitted':
-                    ptransmitted = int(line_parts[1])
+                try:
+                    if line_parts[0] == 'sessions created':
+                        sessions_created = int(line_parts[1])
+                    elif line_parts[0] == 'active sessions':
+                        active_sessions = int(line_parts[1])
+                    elif line_parts[0] == 'active streams':
+                        active_streams = int(line_parts[1])
+                    elif line_parts[0] == 'packets received':
+                        preceived = int(line_parts[1])
+                    elif line_parts[0] == 'packets transmitted':
+                        ptransmitted = int(line_parts[1])
+                except (IndexError, ValueError):
+                    continue
                 self.update_active(active_sessions, sessions_created, active_streams, preceived, ptransmitted)
         to = TimeoutInact(self.heartbeat, self.hrtb_ival)
         to.spread_runs(0.1)
-- 
2.43.0


From ecd598a900126e95010c3ef02041984b0793d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:29 +0000
Subject: [PATCH 66/79] fix: delayed sending over IPv6

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 5e3422e..9825902 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -225,7 +225,7 @@ class Udp_server(Network_server):
         if not isinstance(address, tuple):
             raise Exception('Invalid address, not a tuple: %s' % str(address))
         addr, port = address
-        if self.uopts.family == socket.AF_INET6:
+        if self.uopts.family == socket.AF_INET6 and not delayed:
             if not addr.startswith('['):
                 raise Exception('Invalid IPv6 address: %s' % addr)
             address = (addr[1:-1], port)
-- 
2.43.0


From 3db706da394377f7b74a28d6a80eb722fe6f3add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:31 +0000
Subject: [PATCH 67/79] fix: spaces around the parameters of Content-Type

---
 sippy/SipContentType.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipContentType.py b/sippy/SipContentType.py
index 9c7bb43..ee0795b 100644
--- a/sippy/SipContentType.py
+++ b/sippy/SipContentType.py
@@ -36,10 +36,10 @@ class SipContentType(SipGenericHF):
 
     def parse(self):
         parts = self.body.split(';')
-        self.name = parts.pop(0)
+        self.name = parts.pop(0).strip()
         params = []
         for part in parts:
-            param = part.split('=', 1)
+            param = [x.strip() for x in part.split('=', 1)]
             params.append(param)
         self.params = dict(params)
         self.parsed = True
-- 
2.43.0


From 4c8b05bbc2e9a025d4ce47d9f20a9281ac3dd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:31 +0000
Subject: [PATCH 68/79] fix: parsing of multipart bodies

---
 sippy/MultipartMixBody.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index eb9b0a6..e1bfd4d 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -28,6 +28,9 @@ from secrets import token_hex
 from sippy.SipHeader import SipHeader
 from sippy.SipContentType import SipContentType
 
+DEFAULT_PTYPE = SipContentType('text/plain')
+DEFAULT_PTYPE.parse()
+
 class MultipartMixBody():
     parts = None
     boundary = None
@@ -40,18 +43,21 @@ class MultipartMixBody():
         if body is None:
             self.setBoundary(token_hex(16))
             return
-        sep = f'--{ctype.params["boundary"]}'
-        bparts = body.split(sep)
+        boundary = ctype.params["boundary"].strip('"')
+        # The preamble, if any, precedes the first boundary, and the
+        # epilogue follows the last one.
+        bparts = f'\r\n{body}'.split(f'\r\n--{boundary}')
         assert len(bparts) > 2
-        assert len(bparts[0]) == 0
-        assert bparts[-1].strip() == '--'
-        parts = [p.lstrip() for p in bparts[1:-1]]
+        bparts = bparts[1:]
+        while not bparts[-1].startswith('--'):
+            bparts.pop()
+        parts = [p.split('\r\n', 1)[1] + '\r\n' for p in bparts[:-1]]
         for sect in parts:
             headers = []
-            ct = None
-            headersect, sect = sect.split('\r\n\r\n', 1)
+            ct = DEFAULT_PTYPE.getCopy()
+            headersect, _, sect = f'\r\n{sect}'.partition('\r\n\r\n')
             # parse sub headers
-            for hl in headersect.split('\r\n'):
+            for hl in [x for x in headersect.split('\r\n') if len(x) > 0]:
                 h = SipHeader(hl)
                 if h.name == "content-type":
                     ct = h.getBody()
@@ -62,6 +68,7 @@ class MultipartMixBody():
             self.parts.append(sect)
             self.part_headers.append(headers)
         self.setBoundary(ctype.params["boundary"])
+        self.boundary = boundary
 
     def setBoundary(self, bnd):
         self.boundary = bnd
-- 
2.43.0


From 8d588a888a29bf75bf2d1b64264c348490c19e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:53 +0000
Subject: [PATCH 69/79] fix: headers of the parts of a multipart body, and its
 type in copies

---
 sippy/MultipartMixBody.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index e1bfd4d..58500d6 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -76,17 +76,24 @@ class MultipartMixBody():
         mtype.params["boundary"] = bnd
         self.mtype = mtype
 
+    def partHeaders(self, i):
+        s = f'Content-Type: {self.parts[i].mtype}\r\n'
+        # parts may also be added by the application, without any headers
+        for h in self.part_headers[i:i + 1]:
+            s += ''.join(f'{x}\r\n' for x in h)
+        return s
+
     def __str__(self):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p}' for p in self.parts]
+        parts = [f'{bnd}{self.partHeaders(i)}\r\n{p}' for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
 
     def localStr(self, local_addr = None):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p.localStr(local_addr)}'
-                 for p in self.parts]
+        parts = [f'{bnd}{self.partHeaders(i)}\r\n{p.localStr(local_addr)}'
+                 for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
@@ -94,7 +101,9 @@ class MultipartMixBody():
     def getCopy(self):
         cself = MultipartMixBody()
         cself.parts = [p.getCopy() for p in self.parts]
+        cself.part_headers = [[h.getCopy() for h in ph] for ph in self.part_headers]
         cself.boundary = self.boundary
+        cself.mtype = self.mtype.getCopy()
         return cself
 
     def getContentType(self):
-- 
2.43.0


From 5e5e35ca2776961e1e4ed0b20e2d63c6b2681803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:53 +0000
Subject: [PATCH 70/79] fix: multipart bodies in calls that use the RTP proxy

---
 sippy/Rtp_proxy/Session/side.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index a29d170..c8ddaec 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -27,6 +27,7 @@
 from functools import partial
 
 from sippy.SdpOrigin import SdpOrigin
+from sippy.MultipartMixBody import MultipartMixBody
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
 from sippy.Exceptions.SdpParseError import SdpParseError
@@ -161,7 +162,7 @@ class _rtpps_side(object):
                 dump_exception('can\'t parse SDP body', extra = sdp_body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
         sdp_bc = sdp_body.content
-        if isinstance(sdp_bc, strtypes):
+        if isinstance(sdp_bc, strtypes) or isinstance(sdp_bc, MultipartMixBody):
             sdp_body.needs_update = False
             ED2.callFromThread(result_callback, sdp_body)
             return
-- 
2.43.0


From 7cab12de9cd6f2b4f37ff70a3265c7b77094901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:21 +0000
Subject: [PATCH 71/79] fix: re-INVITE without a body in calls whose body is
 not SDP

---
 sippy/UaStateConnected.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index bfeac4a..5156b84 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -72,8 +72,9 @@ class UaStateConnected(UaStateGeneric):
             # scenario working.
             body = self.ua.rSDP.getCopy()
             body.parse()
-            for sect in body.content.sections:
-                sect.c_header.addr = '0.0.0.0'
+            for sect in getattr(body.content, 'sections', ()):
+                if sect.c_header is not None:
+                    sect.c_header.addr = '0.0.0.0'
         elif str(self.ua.rSDP) == str(body):
             self.ua.sendUasResponse(200, 'OK', self.ua.lSDP, (self.ua.lContact,))
             return None
-- 
2.43.0


From 1c87a7965b9375b47aa2bee502e4387d62f52a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:21 +0000
Subject: [PATCH 72/79] fix: filtering of codecs in bodies that are not plain
 SDP

---
 sippy/b2bua.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index c55dcdc..c50f199 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -148,8 +148,20 @@ class CallController(object):
             if not is_spe:
                 dump_exception('can\'t parse SDP body', extra = body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
+        self.filter_content(body.content)
+        if prev_orc is not None:
+            return prev_orc(body, done_cb)
+        return body
+
+    def filter_content(self, content):
+        for part in getattr(content, 'parts', ()):
+            try:
+                part.parse()
+            except Exception as exception:
+                raise SdpParseError(f'{exception}') from exception
+            self.filter_content(part.content)
         allowed_pts = self.global_config['_allowed_pts']
-        for sect in body.content.sections:
+        for sect in getattr(content, 'sections', ()):
             mbody = sect.m_header
             if mbody.transport.lower() not in self.rtpps_cls.AV_TRTYPES:
                 continue
@@ -160,9 +172,6 @@ class CallController(object):
                 raise SdpParseError('offered media prohibited by the policy')
             if old_len > len(mbody.formats):
                 sect.optimize_a()
-        if prev_orc is not None:
-            return prev_orc(body, done_cb)
-        return body
 
     def recvEvent(self, event, ua):
         if ua == self.uaA:
-- 
2.43.0


From 89b7f3b3f4023e80ba4b67c49f6f902f269b9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 73/79] fix: codecs of text and other media sent over RTP

---
 sippy/SdpMediaDescription.py | 2 +-
 sippy/b2bua.py               | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index d47b4e4..bb88da1 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -126,7 +126,7 @@ class SdpMediaDescription(object):
                 pt = int(ah.value.split(' ', 1)[0])
             except ValueError:
                 continue
-            if pt in self.m_header.formats:
+            if pt in self.m_header.formats or str(pt) in self.m_header.formats:
                 continue
             self.a_headers.remove(ah)
 
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index c50f199..3f75726 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -167,7 +167,8 @@ class CallController(object):
                 continue
             old_len = len(mbody.formats)
             _allowed_pts = [x if isinstance(x, int) else sect.getPTbyName(x) for x in allowed_pts]
-            mbody.formats = [x for x in mbody.formats if x in _allowed_pts]
+            _allowed_pts = [str(x) for x in _allowed_pts]
+            mbody.formats = [x for x in mbody.formats if str(x) in _allowed_pts]
             if len(mbody.formats) == 0:
                 raise SdpParseError('offered media prohibited by the policy')
             if old_len > len(mbody.formats):
-- 
2.43.0


From 5238c70ea8dc41a5ec1979bf8fa0eb871bb1a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 74/79] fix: malformed rtpmap attributes when filtering codecs

---
 sippy/SdpMediaDescription.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index bb88da1..32c6f3d 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -115,8 +115,11 @@ class SdpMediaDescription(object):
 
     def getPTbyName(self, name):
         for ah in self.a_headers:
-            if ah.name == 'rtpmap' and ah.value.split(' ', 1)[1] == name:
-                return int(ah.value.split(' ', 1)[0])
+            if ah.name != 'rtpmap' or ah.value is None:
+                continue
+            pt, _, codec = ah.value.partition(' ')
+            if codec == name and pt.isdecimal():
+                return int(pt)
         return None
 
     def optimize_a(self):
-- 
2.43.0


From e29f61874510d19ea371949202d1e0a751ee1e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:47 +0000
Subject: [PATCH 75/79] fix: delimiters after parts of multipart bodies that do
 not end a line

---
 sippy/MultipartMixBody.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index 58500d6..3aaa847 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -83,17 +83,20 @@ class MultipartMixBody():
             s += ''.join(f'{x}\r\n' for x in h)
         return s
 
+    def joinPart(self, i, content):
+        eol = '' if content.endswith('\r\n') else '\r\n'
+        return f'--{self.boundary}\r\n{self.partHeaders(i)}\r\n{content}{eol}'
+
     def __str__(self):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}{self.partHeaders(i)}\r\n{p}' for i, p in enumerate(self.parts)]
+        parts = [self.joinPart(i, str(p)) for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
 
     def localStr(self, local_addr = None):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}{self.partHeaders(i)}\r\n{p.localStr(local_addr)}'
-                 for i, p in enumerate(self.parts)]
+        parts = [self.joinPart(i, p.localStr(local_addr)) for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
-- 
2.43.0


From eccabcb1d639c734601676d57a907af42ed9e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:44 +0000
Subject: [PATCH 76/79] fix: first message of a log written to a file

---
 sippy/SipLogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index f850ddb..caf0955 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -154,8 +154,8 @@ class SipLogger(object):
             self.wi_available = Condition()
             self.wi = []
             if bend != 'syslog':
-                self.logger = AsyncLogger(app, self)
                 self.logfile = os.environ.get('SIPLOG_LOGFILE_FILE', logfile)
+                self.logger = AsyncLogger(app, self)
                 self.signal_handler = LogSignal(self, SIGUSR1, self.reopen)
             else:
                 self.logger = AsyncLoggerSyslog(app, self)
-- 
2.43.0


From dff81b7aa784f77403debdbe746609f5530c9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:44 +0000
Subject: [PATCH 77/79] fix: reopening of the log when messages are discarded

---
 sippy/SipLogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index caf0955..5d9ba31 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -191,7 +191,7 @@ class SipLogger(object):
             # Discard some items, as the writer doesn't seems to be able
             # to keep up pace with incoming requests
             self.discarded += len(self.wi) - 1000
-            self.wi = self.wi[-1000:]
+            self.wi = [x for x in self.wi[:-1000] if x[0] != 'write'] + self.wi[-1000:]
             discarded = True
         self.wi.append(('write', args, kwargs))
         self.wi_available.notify()
-- 
2.43.0


From c561aabfcd7d02c69979101712da47d98d23c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:44 +0000
Subject: [PATCH 78/79] fix: logging to file systems without locks

---
 sippy/SipLogger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index 5d9ba31..ca75134 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -28,6 +28,7 @@ from sippy.Signal import LogSignal
 from time import time, localtime, strftime
 from fcntl import flock, LOCK_EX, LOCK_UN
 from signal import SIGUSR1
+from errno import ENOTSUP
 from threading import Thread, Condition
 
 import sys, os, syslog
@@ -76,8 +77,7 @@ class AsyncLogger(Thread):
         try:
             my_flock(self.log, LOCK_EX)
         except IOError as e:
-            # Catch ENOTSUP
-            if e.args[0] != 45:
+            if e.args[0] != ENOTSUP:
                 raise e
             my_flock = lambda x, y: None
         try:
-- 
2.43.0


From 49e50b531bc087f7666bab7c41858d11b0c74582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:06 +0000
Subject: [PATCH 79/79] fix: time of messages written to a log file

The time was taken when the writer thread got to the message, not when it
was logged.
---
 sippy/SipLogger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index ca75134..c081781 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -185,6 +185,8 @@ class SipLogger(object):
     def write_logfile(self, *args, **kwargs):
         if kwargs.get('level', SIPLOG_INFO) < self.level:
             return
+        if kwargs.get('ltime', None) == None:
+            kwargs['ltime'] = time()
         discarded = False
         self.wi_available.acquire()
         if len(self.wi) > 1000:
-- 
2.43.0

