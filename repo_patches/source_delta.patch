From d5c6d200e55fcae0461c91c627453dcb64e69684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 01/43] fix: mark oneway calls of the asyncio client as oneway
 on the wire

invoke_oneway sent an ordinary request, so the server answered it and the client
waited for that answer.
---
 anthunder/client/aio_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 3fef513..0519c56 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -73,7 +73,7 @@ class AioClient(_BaseClient):
 
     def invoke_oneway(self, interface, method, content, *, spanctx, **headers):
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=-1)
+        pkg = BoltRequest.new_request(header, content, ptype=PTYPE.ONEWAY, timeout_ms=-1)
         asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
 
     def invoke_sync(self, interface, method, content, *, spanctx, timeout_ms, **headers):
-- 
2.43.0


From 2881c30487792dbcecf58219c47139a2ff85b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 02/43] fix: give the caller of the asyncio client the error
 its response stands for

A response with an error status, an undecodable response and a heartbeat response
woke the waiting call without storing anything, which then died with KeyError, or
never woke it (undecodable response).
---
 anthunder/client/aio_client.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 0519c56..aee88e7 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -23,7 +23,6 @@ import functools
 import logging
 import threading
 import traceback
-from contextlib import suppress
 
 try:
     import uvloop
@@ -172,7 +171,12 @@ class AioClient(_BaseClient):
             logger.debug("no related event, should be a async/oneway call, return now")
             return
         await event.wait()
-        return self.response_mapping.pop(request.request_id)
+        result = self.response_mapping.pop(request.request_id)
+        if isinstance(result, Exception):
+            raise result
+        if (request.cmdcode == CMDCODE.HEARTBEAT) != (result.cmdcode == CMDCODE.HEARTBEAT):
+            raise ServerError("wrong cmdcode:[{}]".format(result.cmdcode))
+        return result
 
     async def _send_request(self, request: BoltRequest, *, address):
         """
@@ -224,27 +228,27 @@ class AioClient(_BaseClient):
         :return:
         """
         while True:
-            pkg = None
+            request_id = None
+            result = None  # the response package, or the error it stands for
             try:
                 fixed_header_bs = await reader.readexactly(BoltResponse.bolt_header_size())
                 header = BoltResponse.bolt_header_from_stream(fixed_header_bs)
+                request_id = header['request_id']
                 bs = await reader.readexactly(header['class_len'] + header['header_len'] + header['content_len'])
                 pkg = BoltResponse.bolt_content_from_stream(bs, header)
                 if pkg.class_name != BoltResponse.class_name:
                     raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
-                if pkg.cmdcode == CMDCODE.HEARTBEAT:
-                    continue
-                elif pkg.cmdcode == CMDCODE.REQUEST:
+                if pkg.cmdcode == CMDCODE.REQUEST:
                     # raise error, the connection will be dropped
                     raise ServerError("wrong cmdcode:[{}]".format(pkg.cmdcode))
-                if pkg.respstatus != RESPSTATUS.SUCCESS:
+                # the status of a heartbeat is judged by invoke_heartbeat
+                if pkg.cmdcode != CMDCODE.HEARTBEAT and pkg.respstatus != RESPSTATUS.SUCCESS:
                     raise ServerError.from_statuscode(pkg.respstatus)
-                if pkg.request_id not in self.request_mapping:
-                    continue
-                self.response_mapping[pkg.request_id] = pkg
+                result = pkg
 
             except PyboltError as e:
                 logger.error(e)
+                result = e
             except (asyncio.CancelledError, EOFError, ConnectionResetError) as e:
                 logger.error(e)
                 writer.close()
@@ -254,7 +258,8 @@ class AioClient(_BaseClient):
                 writer.close()
                 break
             finally:
-                with suppress(AttributeError, KeyError):
+                if result is not None and request_id in self.request_mapping:
+                    self.response_mapping[request_id] = result
                     # wake up the coro
-                    event = self.request_mapping.pop(pkg.request_id)
+                    event = self.request_mapping.pop(request_id)
                     event.set()
-- 
2.43.0


From 0008de3c22166c235ac551d52f9d249f625b933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 03/43] fix: raise when the asyncio client cannot send a
 request

A refused dial or a request that cannot be encoded made invoke return None, which
invoke_sync turned into an AttributeError and a future into a silent None; the
unencodable request also dropped the connection under all other calls.
---
 anthunder/client/aio_client.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index aee88e7..c0e5ea1 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -187,13 +187,15 @@ class AioClient(_BaseClient):
         """
         assert isinstance(request, BoltRequest)
 
+        stream = request.to_stream()  # a request that cannot be encoded must not cost anybody the connection
+
         async def _send(retry=3):
             if retry <= 0:
                 raise PyboltError("send request failed.")
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
-                writer.write(request.to_stream())
+                writer.write(stream)
                 await writer.drain()
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
@@ -208,12 +210,12 @@ class AioClient(_BaseClient):
             await _send()
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
-            self.request_mapping.pop(request.request_id)
-            return
-        except Exception:
+            self.request_mapping.pop(request.request_id, None)
+            raise
+        except Exception as e:
             logger.error(traceback.format_exc())
-            self.request_mapping.pop(request.request_id)
-            return
+            self.request_mapping.pop(request.request_id, None)
+            raise PyboltError("send request failed: {}".format(e)) from e
 
         if request.ptype == PTYPE.ONEWAY:
             self.request_mapping.pop(request.request_id)
-- 
2.43.0


From 625806bb11eb7b3da725b6534e63862e608d5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 04/43] fix: fail the pending calls of the asyncio client when
 their connection is lost

Calls waiting for a response on a lost connection waited forever, the dead
connection stayed in connection_mapping until a send failed on it, and several
calls failing at once popped each other's replacement (or died with KeyError).
---
 anthunder/client/aio_client.py | 43 ++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index c0e5ea1..16fdaf8 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -52,6 +52,7 @@ class AioClient(_BaseClient):
         self._loop = asyncio.new_event_loop()
         self.request_mapping = dict()  # request_id: event
         self.response_mapping = dict()  # request_id: response_pkg
+        self.inflight_mapping = dict()  # request_id: writer the request was sent on
         self.connection_mapping = dict()  # address: (reader_coro, writer)
         self.loop_thread = self._init()
         self._pending_dial = dict()  # address: (asyncio.Lock)
@@ -153,11 +154,28 @@ class AioClient(_BaseClient):
 
                 reader, writer = await asyncio.open_connection(*address)
                 task = asyncio.ensure_future(self._recv_response(reader, writer))
+                task.add_done_callback(lambda _: self._connection_lost(address, writer))
                 return self.connection_mapping.setdefault(address, (task, writer))
         except Exception as e:
             logger.error("Get connection of {} failed: {}".format(address, e))
             raise
 
+    def _connection_lost(self, address, writer):
+        """the connection will not deliver any response any more, fail the calls waiting for one"""
+        if address in self.connection_mapping and self.connection_mapping[address][1] is writer:
+            self.connection_mapping.pop(address)
+        for request_id in [k for k, w in self.inflight_mapping.items() if w is writer]:
+            self._finish_request(request_id, PyboltError("connection to {} lost.".format(address)))
+
+    def _finish_request(self, request_id, result):
+        """hand the response package, or the error it stands for, to the coro waiting for it"""
+        if request_id in self.request_mapping:
+            self.response_mapping[request_id] = result
+            self.inflight_mapping.pop(request_id, None)
+            # wake up the coro
+            event = self.request_mapping.pop(request_id)
+            event.set()
+
     async def invoke(self, request: BoltRequest, *, address=None):
         """
         A request response wrapper
@@ -195,17 +213,24 @@ class AioClient(_BaseClient):
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
+                if readtask.done():
+                    raise ConnectionResetError("connection lost")
+                self.inflight_mapping[request.request_id] = writer
                 writer.write(stream)
                 await writer.drain()
             except Exception as e:
+                self.inflight_mapping.pop(request.request_id, None)
+                if event.is_set():
+                    return  # the call is over already
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 readtask.cancel()
-                self.connection_mapping.pop(address)
-                self._pending_dial.pop(address)
+                # another call may have replaced the connection already
+                if address in self.connection_mapping and self.connection_mapping[address][1] is writer:
+                    self.connection_mapping.pop(address)
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-        self.request_mapping[request.request_id] = asyncio.Event()
+        self.request_mapping[request.request_id] = event = asyncio.Event()
         try:
             await _send()
         except PyboltError:
@@ -218,10 +243,11 @@ class AioClient(_BaseClient):
             raise PyboltError("send request failed: {}".format(e)) from e
 
         if request.ptype == PTYPE.ONEWAY:
-            self.request_mapping.pop(request.request_id)
+            self.request_mapping.pop(request.request_id, None)
+            self.inflight_mapping.pop(request.request_id, None)
             return
 
-        return self.request_mapping[request.request_id]
+        return event
 
     async def _recv_response(self, reader, writer):
         """
@@ -260,8 +286,5 @@ class AioClient(_BaseClient):
                 writer.close()
                 break
             finally:
-                if result is not None and request_id in self.request_mapping:
-                    self.response_mapping[request_id] = result
-                    # wake up the coro
-                    event = self.request_mapping.pop(request_id)
-                    event.set()
+                if result is not None:
+                    self._finish_request(request_id, result)
-- 
2.43.0


From ded96743822283885669b85c3e9c5bd5daf452bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 05/43] fix: forget a call of the asyncio client when its
 caller times out

invoke_sync left the coroutine of a timed out call waiting for ever and its entries
in the mappings, so every timeout leaked a task and a package.
---
 anthunder/client/aio_client.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 16fdaf8..92feb73 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -86,6 +86,7 @@ class AioClient(_BaseClient):
             ret = fut.result(timeout=timeout_ms / 1000)
         except (TimeoutError, CancelledError) as e:
             logger.error("call to [{}:{}] timeout/cancelled. {}".format(interface, method, e))
+            fut.cancel()
             raise
         return ret.content
 
@@ -184,12 +185,17 @@ class AioClient(_BaseClient):
         address = address or self._get_address(request.header['service'])
         logger.debug("invoke to address: {}".format(address))
 
-        event = await self._send_request(request, address=address)
-        if event is None:
-            logger.debug("no related event, should be a async/oneway call, return now")
-            return
-        await event.wait()
-        result = self.response_mapping.pop(request.request_id)
+        try:
+            event = await self._send_request(request, address=address)
+            if event is None:
+                logger.debug("no related event, should be a async/oneway call, return now")
+                return
+            await event.wait()
+            result = self.response_mapping[request.request_id]
+        finally:
+            # keep nothing of a call that is over, however it ended
+            for mapping in (self.request_mapping, self.inflight_mapping, self.response_mapping):
+                mapping.pop(request.request_id, None)
         if isinstance(result, Exception):
             raise result
         if (request.cmdcode == CMDCODE.HEARTBEAT) != (result.cmdcode == CMDCODE.HEARTBEAT):
-- 
2.43.0


From 857afe9c6446d8ecb1ae75c2f6e5ea0cc3290018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 06/43] fix: keep the heartbeats of the asyncio client flowing
 after a failed one

The timer awaited each heartbeat without a limit, so one unanswered heartbeat
stopped it and one failed heartbeat ended it.
---
 anthunder/client/aio_client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 92feb73..00b1994 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -123,7 +123,14 @@ class AioClient(_BaseClient):
         """Invoke heartbeat periodly"""
         while True:
             await asyncio.sleep(interval)
-            await self.invoke_heartbeat(address)
+            # a heartbeat that fails or is never answered must not stop the ones after it
+            asyncio.ensure_future(self._heartbeat(address, interval))
+
+    async def _heartbeat(self, address, timeout):
+        try:
+            await asyncio.wait_for(self.invoke_heartbeat(address), timeout)
+        except Exception as e:
+            logger.error("heartbeat to {} failed: {!r}".format(address, e))
 
     async def invoke_heartbeat(self, address):
         """
-- 
2.43.0


From 4ac07f43f15967f0e80c8a4d1c2c1c8e2e21515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 07/43] fix: accept float timeouts in requests

The clients take timeout_ms as int or float, but a float could not be packed into
the frame.
---
 anthunder/protocol/_request_pkg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_request_pkg.py b/anthunder/protocol/_request_pkg.py
index 91796b5..f991d06 100644
--- a/anthunder/protocol/_request_pkg.py
+++ b/anthunder/protocol/_request_pkg.py
@@ -21,6 +21,7 @@
    Change Activity:
         version0 : 2018/4/28 11:39 by jiaqi.hjq  init
 """
+import math
 import struct
 from anthunder.helpers.request_id import RequestId
 from .constants import PTYPE, CMDCODE
@@ -48,4 +49,4 @@ class BoltRequest(BoltPackage):
     @classmethod
     def new_request(cls, header, content, ptype=PTYPE.REQUEST, timeout_ms=None):
         return cls(header, content, ptype=ptype, cmdcode=CMDCODE.REQUEST,
-                   request_id=next(RequestId), timeout=timeout_ms or -1)
+                   request_id=next(RequestId), timeout=math.ceil(timeout_ms or -1))
-- 
2.43.0


From b4632731e7d6b5c0a2d3e1f69543c6fc53a9de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 08/43] fix: report header strings that are not UTF-8 as a
 decode error

---
 anthunder/protocol/_sofa_header.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index f253a76..9aea582 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -80,7 +80,10 @@ def _bytes_to_str(b, coding='utf-8'):
         if n > len(b):  # pragma: no cover
             # incomplete bytes
             raise DecodeError('decoding bytes to str failed, not enough length')
-        ret.append(b[4: n].decode(coding))
+        try:
+            ret.append(b[4: n].decode(coding))
+        except UnicodeDecodeError:
+            raise DecodeError('decoding bytes to str failed, not {}'.format(coding))
         b = b[n:]
 
     return ret
-- 
2.43.0


From 833f748216278604d7225dacc904e1575ff5d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 09/43] fix: answer requests whose result is empty or not bytes
 in the asyncio listener

---
 anthunder/listener/aio_listener.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 106a43e..dfd58ad 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -163,14 +163,17 @@ class AioListener(BaseListener):
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
 
-        if result:
-            header = dict()
-            tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
-            pkg = BoltResponse.response_to(result, request_id=request_id)
-            try:
-                await self._write_msg(writer, pkg.to_stream())
-            except Exception:
-                logger.error(traceback.format_exc())
+        header = dict()
+        tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
+        try:
+            msg = BoltResponse.response_to(result, request_id=request_id).to_stream()
+        except Exception:
+            logger.error(traceback.format_exc())
+            msg = FailResponse.response_to(request_id, RESPSTATUS.SERVER_SERIAL_EXCEPTION).to_stream()
+        try:
+            await self._write_msg(writer, msg)
+        except Exception:
+            logger.error(traceback.format_exc())
 
     async def _write_msg(self, writer, msg):
         await writer.drain()  # clean the buffer, avoid backpressure
-- 
2.43.0


From 3fa35fb612984890ad3dd498a43e5ed422f64928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 10/43] fix: answer requests with an unusable trace context in
 the asyncio listener

---
 anthunder/listener/aio_listener.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index dfd58ad..efbf140 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -135,9 +135,8 @@ class AioListener(BaseListener):
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
-        spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
-
         try:
+            spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
             await self._write_msg(writer,
-- 
2.43.0


From f5d41c2dc2bcd95608889c28a1269ad3fe4a40bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 11/43] fix: keep in step with the stream when a request has a
 bad header block

---
 anthunder/listener/aio_listener.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index efbf140..dd0fb87 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -209,10 +209,12 @@ class AioListener(BaseListener):
                 bs = await reader.readexactly(header['header_len'])
                 logger.debug("received sofa header({})".format(bs))
 
-                sofa_header = SofaHeader.from_bytes(bs)
                 body = await reader.readexactly(header['content_len'])
                 logger.debug("received sofa body({})".format(body))
 
+                # parse after reading the whole package, the next one starts right behind it
+                sofa_header = SofaHeader.from_bytes(bs)
+
                 if cmdcode == CMDCODE.HEARTBEAT:
                     logger.info("received heartbeat, request_id={}".format(header['request_id']))
                     asyncio.ensure_future(
-- 
2.43.0


From 2f26099eba45c37b212f2400c623e9ae4b38ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 12/43] fix: do not answer the previous request again when a
 connection ends

---
 anthunder/listener/aio_listener.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index dd0fb87..4154e87 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -187,6 +187,7 @@ class AioListener(BaseListener):
         logger.info("connection created.")
         first_req = True
         while True:
+            header = None  # of the request being received
             try:
                 try:
                     fixed_header_bs = await reader.readexactly(BoltRequest.bolt_header_size())
@@ -246,8 +247,9 @@ class AioListener(BaseListener):
                 logger.warning("Connection closed by remote: {}".format(e))
                 try:
                     await writer.drain()  # clean the buffer, avoid backpressure
-                    writer.write(FailResponse.response_to(header['request_id'],
-                                                          RESPSTATUS.CONNECTION_CLOSED).to_stream())
+                    if header:
+                        writer.write(FailResponse.response_to(header['request_id'],
+                                                              RESPSTATUS.CONNECTION_CLOSED).to_stream())
                 except:
                     pass
                 try:
@@ -263,7 +265,8 @@ class AioListener(BaseListener):
                 logger.error(traceback.format_exc())
                 try:
                     await writer.drain()  # clean the buffer, avoid backpressure
-                    writer.write(FailResponse.response_to(header['request_id'], RESPSTATUS.UNKNOWN).to_stream())
+                    if header:
+                        writer.write(FailResponse.response_to(header['request_id'], RESPSTATUS.UNKNOWN).to_stream())
                 except:
                     pass
                 try:
-- 
2.43.0


From 2b8fed33a7ff6b7b4ba3dd3f3e6949821eac163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 13/43] fix: never answer oneway requests in the asyncio
 listener

---
 anthunder/listener/aio_listener.py | 31 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 4154e87..9c7c7ad 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -124,14 +124,12 @@ class AioListener(BaseListener):
         """send request to handler"""
         service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
         if not service:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing service name in sofa header [{}]".format(sofa_header))
             return
         method = sofa_header.get('sofa_head_method_name')
         if not method:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
@@ -139,12 +137,10 @@ class AioListener(BaseListener):
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.NO_PROCESSOR).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.NO_PROCESSOR)
             return
         except Exception:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.SERVER_EXCEPTION).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.SERVER_EXCEPTION)
             return
         if PTYPE.ONEWAY == call_type:
             # Just return future
@@ -155,11 +151,11 @@ class AioListener(BaseListener):
             result = await asyncio.wait_for(afut, timeout_ms / 1000 if timeout_ms > 0 else None)
         except (asyncio.CancelledError, asyncio.TimeoutError) as e:
             logger.error("Task run cancelled/timeout in {}ms, service:[{}]: error:[{}]".format(timeout_ms, service, e))
-            await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.TIMEOUT).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.TIMEOUT)
             return
         except Exception:
             logger.error(traceback.format_exc())
-            await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.UNKNOWN)
             return
 
         header = dict()
@@ -179,6 +175,11 @@ class AioListener(BaseListener):
         writer.write(msg)
         await writer.drain()
 
+    async def _write_fail(self, writer, call_type, request_id, status):
+        """nobody waits for the response of a oneway request"""
+        if PTYPE.ONEWAY != call_type:
+            await self._write_msg(writer, FailResponse.response_to(request_id, status).to_stream())
+
     async def _handler_connection(self, reader, writer):
         """
         Full duplex model
@@ -233,21 +234,19 @@ class AioListener(BaseListener):
                                                      timeout_ms=header['timeout'], writer=writer))
             except ClientError as e:
                 logger.error(str(e) + " returning CLIENT_SEND_ERROR")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                await self._write_fail(writer, header['ptype'], header['request_id'], RESPSTATUS.CLIENT_SEND_ERROR)
                 continue
 
             except ProtocolError as e:
                 logger.error(str(e) + " returning CODEC_EXCEPTION")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CODEC_EXCEPTION).to_stream())
+                await self._write_fail(writer, header['ptype'], header['request_id'], RESPSTATUS.CODEC_EXCEPTION)
                 continue
 
             except EOFError as e:
                 logger.warning("Connection closed by remote: {}".format(e))
                 try:
                     await writer.drain()  # clean the buffer, avoid backpressure
-                    if header:
+                    if header and header['ptype'] != PTYPE.ONEWAY:
                         writer.write(FailResponse.response_to(header['request_id'],
                                                               RESPSTATUS.CONNECTION_CLOSED).to_stream())
                 except:
@@ -265,7 +264,7 @@ class AioListener(BaseListener):
                 logger.error(traceback.format_exc())
                 try:
                     await writer.drain()  # clean the buffer, avoid backpressure
-                    if header:
+                    if header and header['ptype'] != PTYPE.ONEWAY:
                         writer.write(FailResponse.response_to(header['request_id'], RESPSTATUS.UNKNOWN).to_stream())
                 except:
                     pass
-- 
2.43.0


From 808153516b657d7206f061f5ef721d6643fa48b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 14/43] fix: end the handler of the threaded listener when its
 peer closes the connection

---
 anthunder/listener/sock_listener.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 5942867..93ab99e 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -85,7 +85,10 @@ class SockBoltHandler(StreamRequestHandler):
     def _readexactly(self, bs_cnt):
         bs = b''
         while len(bs) < bs_cnt:
-            bs += self.rfile.read(bs_cnt - len(bs))
+            more = self.rfile.read(bs_cnt - len(bs))
+            if not more:
+                raise EOFError("Connection closed by remote")
+            bs += more
         return bs
 
     def handle(self):
-- 
2.43.0


From 7fbf4440efb3737e2bab7397286dbeec6f407cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 15/43] fix: give every threaded listener its own service
 handler

---
 anthunder/listener/sock_listener.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 93ab99e..f3a9817 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -148,9 +148,9 @@ class SockListener(BaseListener):
 
     def __init__(self, *args, **kwargs):
         super(SockListener, self).__init__(*args, **kwargs)
-        # inject service_handler
-        SockBoltHandler.service_handler = self.handler
-        self.server = ThreadingTCPServer(self.address, SockBoltHandler)
+        # inject service_handler, every listener has its own
+        handler_cls = type("SockBoltHandler", (SockBoltHandler,), {"service_handler": self.handler})
+        self.server = ThreadingTCPServer(self.address, handler_cls)
 
     def run_forever(self):
         self.server.serve_forever()
-- 
2.43.0


From 34af7fd59b73754b7c740007f2e8305911f33b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 16/43] fix: answer failing and malformed requests in the
 threaded listener

---
 anthunder/listener/sock_listener.py | 67 ++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index f3a9817..1b7e159 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -31,6 +31,7 @@ from anthunder.command.heartbeat import HeartbeatResponse
 from anthunder.exceptions import ClientError
 from anthunder.protocol import BoltRequest, SofaHeader
 from anthunder.protocol.constants import CMDCODE, RESPSTATUS
+from anthunder.protocol.exceptions import ProtocolError
 from anthunder.protocol import BoltResponse
 
 from .base_listener import BaseListener, BaseHandler, NoProcessorError
@@ -95,20 +96,35 @@ class SockBoltHandler(StreamRequestHandler):
         try:
             fixed_header_bs = self._readexactly(BoltRequest.bolt_header_size())
             header = BoltRequest.bolt_header_from_stream(fixed_header_bs)
-            call_type = header['ptype']
-            cmdcode = header['cmdcode']
-
             class_name = self._readexactly(header['class_len'])
             bs = self._readexactly(header['header_len'])
-            sofa_header = SofaHeader.from_bytes(bs)
             body = self._readexactly(header['content_len'])
 
-            request_id = header['request_id']
+            self.wfile.write(self._process(header, class_name, bs, body))
+            self.wfile.flush()
+
+        except EOFError as e:
+            logger.warning(e)
+
+        except OSError as e:
+            if e.errno != ECONNRESET:
+                raise
+
+        except Exception as e:
+            logger.error(traceback.format_exc())
+
+    def _process(self, header, class_name, bs, body):
+        """
+        process a complete request
+        :return: the response, as bytes
+        """
+        request_id = header['request_id']
+        cmdcode = header['cmdcode']
+        try:
+            sofa_header = SofaHeader.from_bytes(bs)
 
             if cmdcode == CMDCODE.HEARTBEAT:
-                self.wfile.write(HeartbeatResponse.response_to(request_id).to_stream())
-                self.wfile.flush()
-                return
+                return HeartbeatResponse.response_to(request_id).to_stream()
 
             if cmdcode == CMDCODE.RESPONSE:
                 raise ClientError("wrong cmdcode:[{}]".format(cmdcode))
@@ -118,29 +134,32 @@ class SockBoltHandler(StreamRequestHandler):
 
             service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
             if not service:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
-                logger.error("Missing service name in sofa header [{}]".format(sofa_header))
-                return
+                raise ClientError("Missing service name in sofa header [{}]".format(sofa_header))
             method = sofa_header.get('sofa_head_method_name')
             if not method:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
-                logger.error("Missing method name in sofa header [{}]".format(sofa_header))
-                return
+                raise ClientError("Missing method name in sofa header [{}]".format(sofa_header))
 
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             # call servicehandler
             ret = self.service_handler.handle_request(spanctx, service, method, body)
-            self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
-            self.wfile.flush()
-
-        except OSError as e:
-            if e.errno != ECONNRESET:
-                raise
-
-        except Exception as e:
+        except NoProcessorError:
+            status = RESPSTATUS.NO_PROCESSOR
+        except ClientError as e:
+            logger.error(e)
+            status = RESPSTATUS.CLIENT_SEND_ERROR
+        except ProtocolError as e:
+            logger.error(e)
+            status = RESPSTATUS.CODEC_EXCEPTION
+        except Exception:
             logger.error(traceback.format_exc())
+            status = RESPSTATUS.SERVER_EXCEPTION
+        else:
+            try:
+                return BoltResponse.response_to(ret, request_id=request_id).to_stream()
+            except Exception:
+                logger.error(traceback.format_exc())
+                status = RESPSTATUS.SERVER_SERIAL_EXCEPTION
+        return FailResponse.response_to(request_id, status).to_stream()
 
 
 class SockListener(BaseListener):
-- 
2.43.0


From 26c82431c47df86692ad9bfc88bf956745773384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 17/43] fix: never answer oneway requests in the threaded
 listener

---
 anthunder/listener/sock_listener.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 1b7e159..899946a 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -30,7 +30,7 @@ from anthunder.command.fail_response import FailResponse
 from anthunder.command.heartbeat import HeartbeatResponse
 from anthunder.exceptions import ClientError
 from anthunder.protocol import BoltRequest, SofaHeader
-from anthunder.protocol.constants import CMDCODE, RESPSTATUS
+from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
 from anthunder.protocol.exceptions import ProtocolError
 from anthunder.protocol import BoltResponse
 
@@ -100,8 +100,10 @@ class SockBoltHandler(StreamRequestHandler):
             bs = self._readexactly(header['header_len'])
             body = self._readexactly(header['content_len'])
 
-            self.wfile.write(self._process(header, class_name, bs, body))
-            self.wfile.flush()
+            response = self._process(header, class_name, bs, body)
+            if header['ptype'] != PTYPE.ONEWAY:
+                self.wfile.write(response)
+                self.wfile.flush()
 
         except EOFError as e:
             logger.warning(e)
-- 
2.43.0


From 5900e44be398aaf4daa3ff528eecdafa0b1b8416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 18/43] fix: give every handler its own interface registry

---
 anthunder/listener/aio_listener.py  | 1 +
 anthunder/listener/base_listener.py | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 9c7c7ad..3e8a3f5 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -52,6 +52,7 @@ class AioThreadpoolRequestHandler(BaseHandler):
     MAX_WORKER = 30
 
     def __init__(self):
+        super(AioThreadpoolRequestHandler, self).__init__()
         self.executor = ThreadPoolExecutor(max_workers=self.MAX_WORKER)
         self.local = threading.local()
         self.lock = RLock()
diff --git a/anthunder/listener/base_listener.py b/anthunder/listener/base_listener.py
index a5e0ac3..a6bc8bd 100644
--- a/anthunder/listener/base_listener.py
+++ b/anthunder/listener/base_listener.py
@@ -40,9 +40,12 @@ class BaseService(object):
 
 class BaseHandler(object):
     """Handle bolt request"""
-    # stores interface:
-    #   "interface": (function, protobuf_cls)
-    interface_mapping = dict()
+
+    def __init__(self):
+        # stores interface:
+        #   "interface": (function, protobuf_cls)
+        # every handler has its own
+        self.interface_mapping = dict()
 
     def register_interface(self, interface, service_cls, *service_cls_args, **service_cls_kwargs):
         raise NotImplementedError()
-- 
2.43.0


From f11d953ed3bf88485044fe07de7b4deb11b6e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 19/43] fix: raise when the peer closes the connection in the
 middle of an exact read

---
 mysockpool/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index a7bc2a9..52943cd 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -20,6 +20,7 @@
    ------------------------------------------------------
    File Name : connection.py
 """
+import errno
 import socket
 from collections import namedtuple
 from io import BytesIO
@@ -71,6 +72,8 @@ class SocketConnection(object):
         while read < size:
             wait_for_read(self.sock)
             bs = self.sock.recv(size - read)
+            if not bs:
+                raise socket.error(errno.ECONNRESET, "Connection closed after %d of %d bytes" % (read, size))
             buf.write(bs)
             read += len(bs)
         return buf.getvalue()
-- 
2.43.0


From fc7ccda722a4587a3e410b46395d88c264cce4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 20/43] fix: send everything when the socket of a connection
 takes only a part at once

---
 mysockpool/connection.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index 52943cd..962daa0 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -22,6 +22,7 @@
 """
 import errno
 import socket
+import time
 from collections import namedtuple
 from io import BytesIO
 
@@ -59,9 +60,24 @@ class SocketConnection(object):
         wait_for_write(self.sock)
         return self.sock.send(*args, **kw)
 
-    def sendall(self, *args, **kw):
-        wait_for_write(self.sock)
-        return self.sock.sendall(*args, **kw)
+    def sendall(self, data, flags=0, timeout=None):
+        """
+        Send all of data, whatever the socket accepts at once.
+
+        :param timeout: seconds after which to give up with socket.timeout, None to wait as long as it takes.
+        """
+        deadline = None if timeout is None else time.time() + timeout
+        data = memoryview(data)
+        sent = 0
+        while sent < len(data):
+            remaining = None if deadline is None else max(deadline - time.time(), 0)
+            if not wait_for_write(self.sock, remaining):
+                raise socket.timeout("timed out after sending %d of %d bytes" % (sent, len(data)))
+            try:
+                sent += self.sock.send(data[sent:], flags)
+            except socket.error as e:
+                if e.errno not in (errno.EAGAIN, errno.EWOULDBLOCK):
+                    raise
 
     def recv(self, *args, **kw):
         return self.sock.recv(*args, **kw)
-- 
2.43.0


From 3aa8d6e4d86e40deb25906aede2900ee25dbc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 21/43] fix: raise in the blocking client when the server
 closes the connection

---
 anthunder/client/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 46ab811..10d12ff 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -32,7 +32,7 @@ except ImportError:
 from mysockpool import PoolManager
 from mysockpool.exceptions import SocketValueError
 
-from anthunder.exceptions import ServerError
+from anthunder.exceptions import ClientError, ServerError
 from anthunder.helpers.singleton import Singleton
 from anthunder.protocol import BoltResponse, BoltRequest, SofaHeader
 from anthunder.protocol.constants import PTYPE, RESPSTATUS
@@ -126,7 +126,11 @@ class Client(_BaseClient):
                     c.close()
                     raise TimeoutError('Sync call timeout')
                 for key, event in ready:
-                    resp_bytes += key.fileobj.recv(total_size - len(resp_bytes))
+                    received = key.fileobj.recv(total_size - len(resp_bytes))
+                    if not received:
+                        c.close()
+                        raise ClientError('Connection closed by the server')
+                    resp_bytes += received
                 if not header and len(resp_bytes) >= total_size:
                     header = pkg.bolt_header_from_stream(resp_bytes)
                     body_size = header['class_len'] + header['header_len'] + header['content_len']
-- 
2.43.0


From a2eedf0942e484591587f6050ad963ab30dcf6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 22/43] fix: send whole requests in the blocking client and
 raise when they cannot be sent

---
 anthunder/client/client.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 10d12ff..192e496 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -53,7 +53,7 @@ class Client(_BaseClient):
     """
 
     def _raw_invoke(self, interface, method_name, content, spanctx=None, target_app="", uid="",
-                    timeout_ms=None, bolt_ptype=PTYPE.REQUEST, **sofa_headers_extra):
+                    timeout_ms=None, bolt_ptype=PTYPE.REQUEST, deadline=None, **sofa_headers_extra):
 
         """
         :param content:
@@ -71,19 +71,23 @@ class Client(_BaseClient):
         p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype)
         for i in range(3):
             # try three times, to avoid connection failure
+            conn = None
             try:
                 conn = self._get_pool(interface).get_conn()
-                conn.send(p.to_stream())
+                remaining = None if deadline is None else deadline - time.time()
+                conn.sendall(p.to_stream(), timeout=remaining)
+                break
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
-                continue
+                if i == 2:
+                    raise
             except Exception as e:
                 logger.error("Call to interface {} failed, requiest_id: {}, "
                              "retried: {}, reason: {}".format(interface, p.request_id, i, e))
-                break
-            else:
-                break
+                if conn:
+                    conn.close()
+                raise
         logger.debug("Called interface {}, request_id: {}".format(interface, p.request_id))
         return p.request_id, conn
 
@@ -112,7 +116,7 @@ class Client(_BaseClient):
         pkg = BoltResponse
         deadline = time.time() + timeout_ms / 1000 + 1
         req_id, c = self._raw_invoke(interface, method_name, content, target_app=target_app, uid=uid,
-                                     spanctx=spanctx, timeout_ms=timeout_ms)
+                                     spanctx=spanctx, timeout_ms=timeout_ms, deadline=deadline)
 
         with DefaultSelector() as sel:
             sel.register(c, EVENT_READ)
-- 
2.43.0


From b51476906f7bfa4ceadb717ad93a01419ecff3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 23/43] fix: do not lend the dropped connection a pool has just
 closed

---
 mysockpool/connection_pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 44ce63f..bbc734d 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -126,6 +126,7 @@ class ConnectionPool(object):
             conn.close()
             with self._lock:
                 self.num_connections -= 1
+            conn = None
 
         return conn or self._new_conn()
 
-- 
2.43.0


From ba594a53516775d99abee038790a607e10437fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 24/43] fix: let a connection pool be closed more than once

---
 mysockpool/connection_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index bbc734d..d3c1b22 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -168,6 +168,8 @@ class ConnectionPool(object):
         """
         # Disable access to the pool
         old_pool, self.pool = self.pool, None
+        if old_pool is None:
+            return  # Closed already.
 
         try:
             while True:
-- 
2.43.0


From 828cdf2a9928534e58c4f65ed6abc8f842e7bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 25/43] fix: count a new connection under the lock its limit
 was checked under

---
 mysockpool/connection_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index d3c1b22..e32b8c3 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -83,8 +83,8 @@ class ConnectionPool(object):
                 raise EmptyPoolError(self,
                                      "Pool reached maximum size and no more "
                                      "connections are allowed.")
+            self.num_connections += 1
 
-        self.num_connections += 1
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-- 
2.43.0


From b7336d352477c1efb679de8ea9a8aaeea3deec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 26/43] fix: do not count a connection that could not be
 created

---
 mysockpool/connection_pool.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index e32b8c3..bef76b6 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -88,8 +88,12 @@ class ConnectionPool(object):
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-        conn = self.ConnectionCls(self.pool_key)
-        return conn
+        try:
+            return self.ConnectionCls(self.pool_key)
+        except Exception:
+            with self._lock:
+                self.num_connections -= 1
+            raise
 
     def get_conn(self, timeout=None):
         """
-- 
2.43.0


From fbe2d94a2953b1a7dd6198224d24145c77157057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 27/43] fix: lend the free connection of a pool although a
 spare one cannot be created

---
 mysockpool/connection_pool.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index bef76b6..666fce5 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -112,7 +112,13 @@ class ConnectionPool(object):
             conn = self.pool.get(block=self.block, timeout=timeout)
 
             if self.pool.qsize() < self.min_free_connections:
-                self.put_conn(self._new_conn())
+                try:
+                    self.put_conn(self._new_conn())
+                except EmptyPoolError:
+                    raise
+                except Exception as e:
+                    # the connection to lend must not get lost because the spare one cannot be created
+                    log.warning("Cannot create a spare connection to %r: %r", self.pool_key, e)
 
         except AttributeError:  # self.pool is None
             raise ClosedPoolError(self, "Pool is closed.")
-- 
2.43.0


From 8cbcf3a84b27d23e3e9ee1c9ba7a9db9fb0cc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 28/43] fix: close a discarded connection before another one
 may take its place

---
 mysockpool/connection_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 666fce5..857b6ea 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -165,8 +165,12 @@ class ConnectionPool(object):
             log.warning(
                 "Connection pool is full, discarding connection: %s",
                 self.pool_key)
+            # close it before another one may take its place
+            if conn:
+                conn.close()
             with self._lock:
                 self.num_connections -= 1
+            return
 
         # Connection never got put back into the pool, close it.
         if conn:
-- 
2.43.0


From 4b01d6c73930ae939fa32b793e8b5171a20e0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 29/43] fix: never give an rpc id of a trace to two spans

---
 mytracer/_rpc_id.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index 07a7877..60140f3 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -21,6 +21,7 @@
    Change Activity:
         version0 : 2018/5/28 14:59 by jiaqi.hjq  init
 """
+import itertools
 
 
 class RpcId(object):
@@ -44,8 +45,9 @@ class RpcId(object):
             if not isinstance(self.rpcids[-1], int):
                 raise TypeError("Illigal span id, last segment must be int, not '{}'.".format(self.rpcids[-1]))
 
-        self._child_count = 0
-        self._parent = None
+        # last segments not given away yet, taken atomically from any thread
+        self._children = itertools.count(1)
+        self._siblings = itertools.count(self.rpcids[-1] + 1)
 
     def __str__(self):
         return ".".join(map(str, self.rpcids))
@@ -60,17 +62,14 @@ class RpcId(object):
         return cls(*new_ids)
 
     def _new_child_of(self):
-        self._child_count += 1
-        obj = self.extend_id(self.rpcids, self._child_count)
-        obj._parent = self  # attach a link to parent rpcId
+        obj = self.extend_id(self.rpcids, next(self._children))
+        obj._siblings = self._children
         return obj
 
     def _new_follows_from(self):
-        obj = self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
-        if self._parent:
-            # a follows up span is a sibling span, means it is a child span of parent
-            self._parent._child_count += 1
-            obj._parent = self._parent
+        # a follows up span is a sibling span, means it is a child span of parent
+        obj = self.extend_id(self.rpcids[:-1], next(self._siblings))
+        obj._siblings = self._siblings
         return obj
 
     def new_by_reference_type(self, ref_type):
-- 
2.43.0


From 57ecabd5445cf92bd3ac044f05450354bbc68a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 30/43] fix: start spans with tags

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 025a8c8..371f61a 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -96,7 +96,7 @@ class MyTracer(opentracing.Tracer):
         span.set_operation_name(operation_name)
 
         _tags = tags or dict()
-        for k, v in _tags:
+        for k, v in _tags.items():
             span.set_tag(k, v)
         if start_time:
             span.set_start_time(start_time)
-- 
2.43.0


From aa4ee2c680587c3a35439c127ac51b369148192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 31/43] fix: send trace contexts whose keys are attribute names

---
 anthunder/protocol/_rpc_trace_context.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anthunder/protocol/_rpc_trace_context.py b/anthunder/protocol/_rpc_trace_context.py
index 046514f..a8c991f 100644
--- a/anthunder/protocol/_rpc_trace_context.py
+++ b/anthunder/protocol/_rpc_trace_context.py
@@ -29,9 +29,10 @@ class RpcTraceContext(object):
     """
     prefix = "rpc_trace_context."
 
-    def __init__(self, **kwargs):
-        for k, v in kwargs.items():
-            setattr(self, k, v)
+    def __init__(*args, **kwargs):
+        # any key may occur in kwargs, "self" and the names of attributes included
+        self, = args
+        self._contexts = kwargs
 
     def expand(self):
-        return {self.prefix + k: str(v) for k, v in self.__dict__.items()}
+        return {self.prefix + k: str(v) for k, v in self._contexts.items()}
-- 
2.43.0


From 182fa4f5078351b57a1adadccccc61850d0bbf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 32/43] fix: accept baggage keys that are parameter names

---
 mytracer/span_context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mytracer/span_context.py b/mytracer/span_context.py
index b17dfe1..21a4e2c 100644
--- a/mytracer/span_context.py
+++ b/mytracer/span_context.py
@@ -41,11 +41,12 @@ class SpanContext(object):
 
     """
 
-    def __init__(self, reference=None, **kwargs):
+    def __init__(*args, **kwargs):
         """
         :param reference: contains a type and a context
-        :param kwargs:
+        :param kwargs: baggage; next to a positional reference its keys may be anything, "self" and "reference" included
         """
+        self, reference = args if len(args) > 1 else (args[0], kwargs.pop('reference', None))
         if reference:
             origin_span_baggage = reference.referenced_context.baggage.copy()
             kwargs['sofaRpcId'] = origin_span_baggage.pop('sofaRpcId').new_by_reference_type(reference.type)
-- 
2.43.0


From 1113d774055f57bfde4d00dd5639fa18be6c0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 33/43] fix: let only one of several threads assign a key of an
 immutable-value dict

---
 anthunder/helpers/immutable_dict.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/anthunder/helpers/immutable_dict.py b/anthunder/helpers/immutable_dict.py
index de68451..75c8dd6 100644
--- a/anthunder/helpers/immutable_dict.py
+++ b/anthunder/helpers/immutable_dict.py
@@ -18,12 +18,20 @@
    Author : jiaqi.hjq
 """
 import logging
+import threading
 
 logger = logging.getLogger(__name__)
 
 
 class ImmutableValueDict(dict):
+    _lock = threading.RLock()
+
     def __setitem__(self, key, value):
-        if key in self:
-            raise KeyError("Key {} exists, cannot be set to value {}".format(key, value))
-        super(ImmutableValueDict, self).__setitem__(key, value)
+        with self._lock:
+            if key in self:
+                raise KeyError("Key {} exists, cannot be set to value {}".format(key, value))
+            super(ImmutableValueDict, self).__setitem__(key, value)
+
+    def setdefault(self, key, default=None):
+        with self._lock:
+            return super(ImmutableValueDict, self).setdefault(key, default)
-- 
2.43.0


From 53e58bf1553b20be9fbfc4c4f24fc3cfad5d09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 34/43] fix: do not replace the values of an immutable-value
 dict through update

---
 anthunder/helpers/immutable_dict.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anthunder/helpers/immutable_dict.py b/anthunder/helpers/immutable_dict.py
index 75c8dd6..7fdf8ff 100644
--- a/anthunder/helpers/immutable_dict.py
+++ b/anthunder/helpers/immutable_dict.py
@@ -35,3 +35,11 @@ class ImmutableValueDict(dict):
     def setdefault(self, key, default=None):
         with self._lock:
             return super(ImmutableValueDict, self).setdefault(key, default)
+
+    def update(self, *args, **kwargs):
+        for key, value in dict(*args, **kwargs).items():
+            self[key] = value
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
-- 
2.43.0


From a7b72b5ac971f5d9d743e94e463ac12a63e079d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 35/43] fix: publish and unpublish while other threads register
 interfaces

---
 anthunder/listener/base_listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/listener/base_listener.py b/anthunder/listener/base_listener.py
index a6bc8bd..460bfde 100644
--- a/anthunder/listener/base_listener.py
+++ b/anthunder/listener/base_listener.py
@@ -88,7 +88,7 @@ class BaseListener(object):
         Publish all the interfaces in handler.interface_mapping to mosnd
         """
         if self._mesh_client:
-            for service_name in self.handler.interface_mapping:
+            for service_name in list(self.handler.interface_mapping):
                 self._mesh_client.publish(PublishServiceRequest(
                     port=str(self.address[1]),
                     serviceName=service_name,
@@ -102,7 +102,7 @@ class BaseListener(object):
         Revoke all the interfaces in handler.interface_mapping from mosnd.
         """
         if self._mesh_client:
-            for service_name in self.handler.interface_mapping:
+            for service_name in list(self.handler.interface_mapping):
                 self._mesh_client.unpublish(service_name)
 
     def run_forever(self):
-- 
2.43.0


From a80e53325e2b681ccde78adc464bea1f1cad992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 36/43] fix: do not keep every request id ever drawn in memory

---
 anthunder/helpers/request_id.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anthunder/helpers/request_id.py b/anthunder/helpers/request_id.py
index ae66650..da1637b 100644
--- a/anthunder/helpers/request_id.py
+++ b/anthunder/helpers/request_id.py
@@ -19,10 +19,11 @@
 """
 import logging
 from random import randint
-from itertools import cycle, chain
+from itertools import chain, repeat
 
 logger = logging.getLogger(__name__)
 
 _max = 0x7fffffff  # 4 bytes signed int
 _start = randint(0, _max)
-RequestId = cycle(chain(range(_start, _max + 1), range(0, _start)))
+# not a cycle(), which keeps every id it has ever returned in memory
+RequestId = chain(range(_start, _max + 1), chain.from_iterable(repeat(range(0, _max + 1))))
-- 
2.43.0


From 48e84d851046a7fda10390a874cb49e0f04e53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 37/43] fix: end the asyncio listener when it is shut down,
 also while it is starting

---
 anthunder/listener/aio_listener.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 3e8a3f5..dc4e650 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -102,6 +102,7 @@ class AioListener(BaseListener):
         super(AioListener, self).__init__(*args, **kwargs)
         self._loop = asyncio.new_event_loop()
         self._server = None
+        self._quit = self._loop.create_future()
 
     def initialize(self):
         pass
@@ -109,17 +110,20 @@ class AioListener(BaseListener):
     def run_forever(self):
         """loop thread"""
         asyncio.set_event_loop(self._loop)
-        coro = asyncio.start_server(self._handler_connection, *self.address, **self.server_kwargs)
-        self._server = self._loop.run_until_complete(coro)
+        self._loop.run_until_complete(self._serve())
+
+    async def _serve(self):
+        """serve until shutdown is called, then stop accepting and wait for the open connections to end"""
+        self._server = await asyncio.start_server(self._handler_connection, *self.address, **self.server_kwargs)
         logger.info("Aio Listener initialized, entering event loop")
-        self._loop.run_forever()
+        await self._quit
+        self._server.close()
+        await self._server.wait_closed()
 
     def shutdown(self):
         """quit the server loop"""
         logger.info("Aio Listener shutting down")
-        if self._loop and self._server:
-            self._server.close()
-            asyncio.run_coroutine_threadsafe(self._server.wait_closed(), self._loop)
+        self._loop.call_soon_threadsafe(lambda: self._quit.done() or self._quit.set_result(None))
 
     async def _dispatch(self, call_type, request_id, sofa_header, body, *, timeout_ms, writer):
         """send request to handler"""
-- 
2.43.0


From 5440caad242a35d2f461bee24a607b6218cbe7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 38/43] fix: refuse connections after the threaded listener has
 been shut down

---
 anthunder/listener/sock_listener.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 899946a..abbd238 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -178,3 +178,5 @@ class SockListener(BaseListener):
 
     def shutdown(self):
         self.server.shutdown()
+        # refuse new connections; server_close() would also wait for the open ones
+        self.server.socket.close()
-- 
2.43.0


From f44e4c24d520e96336ca3660fbb57fa2a9280a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 39/43] fix: the threaded listener's address stays taken by
 open and just ended connections after shutdown

---
 anthunder/listener/sock_listener.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index abbd238..a8183a1 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -164,6 +164,11 @@ class SockBoltHandler(StreamRequestHandler):
         return FailResponse.response_to(request_id, status).to_stream()
 
 
+class SockBoltServer(ThreadingTCPServer):
+    # the address must not stay taken by connections that are still open or just ended
+    allow_reuse_address = True
+
+
 class SockListener(BaseListener):
     handlerCls = SockServiceHandler
 
@@ -171,7 +176,7 @@ class SockListener(BaseListener):
         super(SockListener, self).__init__(*args, **kwargs)
         # inject service_handler, every listener has its own
         handler_cls = type("SockBoltHandler", (SockBoltHandler,), {"service_handler": self.handler})
-        self.server = ThreadingTCPServer(self.address, handler_cls)
+        self.server = SockBoltServer(self.address, handler_cls)
 
     def run_forever(self):
         self.server.serve_forever()
-- 
2.43.0


From 4a045a17f9ee5daea6c203034900f9df32195840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 40/43] fix: creating a pool with more initial than free
 connections blocked forever

---
 mysockpool/connection_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 857b6ea..fa8e6fd 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -64,7 +64,7 @@ class ConnectionPool(object):
 
         self.pool = self.QueueCls(max_free_connections)
         for i in range(initial_connections):
-            self.pool.put(self._new_conn())
+            self.put_conn(self._new_conn())
 
     def __str__(self):
         return '%s(%r)' % (type(self).__name__, self.pool_key)
-- 
2.43.0


From b93693f5204df81f972a8b5b7b120885c9d213bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 41/43] fix: the asyncio client took frames of another class
 for responses, it compared the expected class name with itself

---
 anthunder/client/aio_client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 00b1994..37872cd 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -277,14 +277,16 @@ class AioClient(_BaseClient):
                 request_id = header['request_id']
                 bs = await reader.readexactly(header['class_len'] + header['header_len'] + header['content_len'])
                 pkg = BoltResponse.bolt_content_from_stream(bs, header)
-                if pkg.class_name != BoltResponse.class_name:
-                    raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
                 if pkg.cmdcode == CMDCODE.REQUEST:
                     # raise error, the connection will be dropped
                     raise ServerError("wrong cmdcode:[{}]".format(pkg.cmdcode))
                 # the status of a heartbeat is judged by invoke_heartbeat
                 if pkg.cmdcode != CMDCODE.HEARTBEAT and pkg.respstatus != RESPSTATUS.SUCCESS:
                     raise ServerError.from_statuscode(pkg.respstatus)
+                # pkg.class_name is always the expected one, the name received is at the start of bs
+                class_name = bs[:header['class_len']]
+                if pkg.cmdcode != CMDCODE.HEARTBEAT and class_name != BoltResponse.class_name:
+                    raise ServerError("wrong class_name:[{}]".format(class_name))
                 result = pkg
 
             except PyboltError as e:
-- 
2.43.0


From dc06295950914e14a2e7e08195b685965812bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 42/43] fix: the blocking client took heartbeats, requests and
 frames of another class for its response

---
 anthunder/client/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 192e496..2ee2edc 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -35,7 +35,7 @@ from mysockpool.exceptions import SocketValueError
 from anthunder.exceptions import ClientError, ServerError
 from anthunder.helpers.singleton import Singleton
 from anthunder.protocol import BoltResponse, BoltRequest, SofaHeader
-from anthunder.protocol.constants import PTYPE, RESPSTATUS
+from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
 from .base import _BaseClient
 
 logger = logging.getLogger(__name__)
@@ -146,6 +146,10 @@ class Client(_BaseClient):
             raise ServerError("RequestId not match")
         if resp.respstatus != RESPSTATUS.SUCCESS:
             raise ServerError.from_statuscode(resp.respstatus)
+        # resp.class_name is always the expected one
+        class_name = resp_bytes[pkg.bolt_header_size():][:header['class_len']]
+        if resp.cmdcode != CMDCODE.RESPONSE or class_name != pkg.class_name:
+            raise ServerError("wrong cmdcode or class_name:[{}, {}]".format(resp.cmdcode, class_name))
         return resp.content
 
     def invoke_async(self, interface, method_name, content, spanctx=None, callback=None, **kw):
-- 
2.43.0


From 1d4d9ba2bf2890678e9d405ea991ba4ee1b1e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 43/43] fix: pop and setdefault of RecentlyUsedContainer were
 not atomic: a value inserted meanwhile was deleted or disposed while in use

---
 mysockpool/recently_used_container.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mysockpool/recently_used_container.py b/mysockpool/recently_used_container.py
index 5d3f69f..42e8bd8 100644
--- a/mysockpool/recently_used_container.py
+++ b/mysockpool/recently_used_container.py
@@ -77,6 +77,16 @@ class RecentlyUsedContainer(MutableMapping):
         if self.dispose_func:
             self.dispose_func(value)
 
+    def pop(self, key, *default):
+        # nobody may replace the value between looking it up and removing it
+        with self.lock:
+            return super(RecentlyUsedContainer, self).pop(key, *default)
+
+    def setdefault(self, key, default=None):
+        # nobody may insert the key between not finding it and inserting it
+        with self.lock:
+            return super(RecentlyUsedContainer, self).setdefault(key, default)
+
     def __len__(self):
         with self.lock:
             return len(self._container)
-- 
2.43.0

