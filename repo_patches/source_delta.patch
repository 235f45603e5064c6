From 179b75146cb3e0cb7f14510d968286fb5f370f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 01/31] fix: a first Time other than 0/1 must be BadPeer, not
 TypeError

report_first_time() concatenated a str and an int, so a peer sending any
other first time made the handshake die with TypeError.
---
 saltchannel/util/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index 76305f3..b370153 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -47,7 +47,7 @@ class NullTimeChecker(TimeChecker):
     """Reports first time. Should be 0 or 1."""
     def report_first_time(self, time):
         if time not in [0,1]:
-            raise BadPeer("bad first time, " + time)
+            raise BadPeer("bad first time, ", time)
 
     """Checks 'time' against this object's clock."""
     def check_time(self, time): pass
-- 
2.43.0


From 1fb0361d423e661c5914bf2d72509c153424468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 02/31] fix: EncryptedChannelV2 reports a bad key size as
 ValueError

The message concatenated str and int, so the caller got TypeError.
---
 saltchannel/v2/encrypted_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index fba49ba..a86d1eb 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -44,7 +44,7 @@ class EncryptedChannelV2(ByteChannel):
         self.saltlib = SaltLib().getLib()  # refactor to self.salt ?
 
         if len(key) != self.saltlib.crypto_box_SECRETKEYBYTES:
-            raise ValueError("bad key size, should be " + self.saltlib.crypto_box_SECRETKEYBYTES)
+            raise ValueError("bad key size, should be ", self.saltlib.crypto_box_SECRETKEYBYTES)
 
         self.key = key
         self.channel = channel
-- 
2.43.0


From 281ae787e21083c3e1c85f26bd69aa1156dbe4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 03/31] fix: reject truncated and empty packets with BadPeer

Packets shorter than their fixed part were accepted with the missing fields
read as zeros (A1/A2 raised ValueError), and an empty message was taken for
a valid default packet of whatever type was expected.
---
 saltchannel/a1a2/packets.py |  8 ++++----
 saltchannel/util/packets.py | 10 +++++++++-
 saltchannel/v2/packets.py   | 20 ++++++++++----------
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 3ec6e49..bc1e75e 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -35,11 +35,11 @@ class A1Packet(Packet):
         self.data.Header.PacketType = type(self).TYPE
         self.data.AddressType = type(self).ADDRESS_TYPE_ANY
         self.data.AddressSize = 0
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
-        self.data.from_bytes(src)
+        self._load_body(src)
         self.opt = self._opt_factory(body=src, address_field_len=len(src)-5)
         self.opt.from_bytes(src[self.data.size:])
         if validate:
@@ -132,11 +132,11 @@ class A2Packet(Packet):
             self.opt.Prot[0].P1 = util.cbytes(self.SC2_PROT_STRING)
             self.opt.Prot[0].P2 = util.cbytes(self.UNSPECIFIED_PROT_STRING)
             return
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
-        self.data.from_bytes(src)
+        self._load_body(src)
         self.opt = self._opt_factory(body=src, prot_count=(len(src)-3)//(A2Packet.P_SIZE*2))
         self.opt.from_bytes(src[self.data.size:])
         if validate:
diff --git a/saltchannel/util/packets.py b/saltchannel/util/packets.py
index 47795cb..0c2063e 100644
--- a/saltchannel/util/packets.py
+++ b/saltchannel/util/packets.py
@@ -68,9 +68,17 @@ class Packet(metaclass=ABCMeta):
         if self.data.Header.PacketType != type(self).TYPE:
             raise BadPeer("bad packet type: ", self.data.Header.PacketType)
 
-    def from_bytes(self, src, validate=True):
+    def _load_body(self, src):
+        """Fill the fixed field set from raw bytes. Raise BadPeer() if there are not enough of them"""
+        if len(src) < self.data.size:
+            raise BadPeer("packet is too short: ", len(src))
         self.data.from_bytes(src)
+
+    def from_bytes(self, src, validate=True):
+        self._load_body(src)
         self.opt = self._opt_factory(body=self.data)
+        if len(src) < self.size:
+            raise BadPeer("packet is too short: ", len(src))
         self.opt.from_bytes(src[self.data.size:])
         if validate:
             self.validate()
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a9b3a0a..f655f40 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -39,7 +39,7 @@ class M1Packet(Packet):
         self.data = M1Packet._M1PacketBody()
         self.data.Header.PacketType = type(self).TYPE
         self.opt = self._opt_factory()
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -93,7 +93,7 @@ class M2Packet(Packet):
         super().__init__()
         self.data = M2Packet._M2PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -127,7 +127,7 @@ class M3Packet(Packet):
         super().__init__()
         self.data = M3Packet._M3PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -152,7 +152,7 @@ class M4Packet(Packet):
         super().__init__()
         self.data = M4Packet._M4PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -187,11 +187,11 @@ class EncryptedPacket(Packet):
         super().__init__()
         self.data = EncryptedPacket._EncryptedPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
-        self.data.from_bytes(src)
+        self._load_body(src)
         self.opt = self._opt_factory(body=src, body_field_len=len(src)-2)
         self.opt.from_bytes(src[self.data.size:])
         if validate:
@@ -240,11 +240,11 @@ class AppPacket(Packet):
         super().__init__()
         self.data = AppPacket._AppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-        self.data.from_bytes(src)
+        self._load_body(src)
         self.opt = self._opt_factory(body=src, data_field_len=len(src)-6)
         self.opt.from_bytes(src[self.data.size:])
         if validate:
@@ -319,11 +319,11 @@ class MultiAppPacket(Packet):
         super().__init__()
         self.data = MultiAppPacket._MultiAppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-        self.data.from_bytes(src)
+        self._load_body(src)
         self.opt = self._opt_factory(body=src, msgs=None)
         self.opt.from_bytes(src[self.data.size:], count=self.data.Count)
         if validate:
-- 
2.43.0


From c22e8d1539d2879b774d37042d63f6af0fd36e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 04/31] fix: reject a MultiAppPacket whose messages are
 truncated

A message cut short was delivered as if it were complete, and a missing
length field raised ValueError.
---
 saltchannel/v2/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index f655f40..edeaa27 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -294,8 +294,12 @@ class MultiAppPacket(Packet):
                 # deserialize manually now
                 cnt = offset = 0
                 while cnt < count:
+                    if len(src) - offset < sizeof(c_uint16):
+                        raise BadPeer("'Message' array is truncated, Count: ", count)
                     length_field = c_uint16.from_buffer_copy(src, offset)
                     offset += sizeof(c_uint16)
+                    if len(src) - offset < length_field.value:
+                        raise BadPeer("'Message' is truncated, Length: ", length_field.value)
                     self.Message.append(src[offset:offset+length_field.value])
                     offset += length_field.value
                     cnt += 1
-- 
2.43.0


From dfc102229687d76212282c67a5b22d62f23efd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 05/31] fix: A2 protocol strings are limited to A-Z a-z 0-9 - .
 / _

They were decoded as UTF-8 (UnicodeDecodeError on other bytes), any Unicode
word character was accepted, and so was a trailing newline.
---
 saltchannel/a1a2/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index bc1e75e..f8c55e1 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -103,13 +103,13 @@ class A2Packet(Packet):
         class _A2Prot(SmartStructure):
             _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
                         ("P2", c_uint8 * A2Packet.P_SIZE)]
-            proto_re = re.compile(r'^[-./\w]+$')  # used for p-string validation
+            proto_re = re.compile(rb'[-./\w]+')  # used for p-string validation
 
             def validate(self):
                 if len(self.P1) != A2Packet.P_SIZE or len(self.P2) != A2Packet.P_SIZE:
                     return False
-                return True if (type(self).proto_re.match(bytes(self.P1).decode()) and
-                                type(self).proto_re.match(bytes(self.P2).decode())) else False
+                return True if (type(self).proto_re.fullmatch(bytes(self.P1)) and
+                                type(self).proto_re.fullmatch(bytes(self.P2))) else False
 
         class _A2PacketBodyOpt(SmartStructure):
             # A2Packet opt/variable fields
-- 
2.43.0


From 520918d41f1264fe64e23ac24d763a6647f9b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 06/31] fix: answer NoSuchServer to an A1 that asks for another
 public key

Packet attributes are returned as bytes, so AddressType was never equal to
ADDRESS_TYPE_PUBKEY and every server claimed every address. Example session 2
relied on that; give its server the address its client asks for.
---
 saltchannel/dev/example_session2.py   | 4 +++-
 saltchannel/dev/example_session2_a.py | 4 +++-
 saltchannel/v2/salt_server_session.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/saltchannel/dev/example_session2.py b/saltchannel/dev/example_session2.py
index f1b165c..8709b3c 100644
--- a/saltchannel/dev/example_session2.py
+++ b/saltchannel/dev/example_session2.py
@@ -13,6 +13,7 @@ from saltchannel.a1a2.a1_client_session import A1ClientSession
 
 from saltchannel.v2.salt_server_session import SaltServerSession
 from saltchannel.util.crypto_test_data import CryptoTestData
+from saltchannel.util.key_pair import KeyPair
 from saltchannel.dev.client_server import MpClientServerPair
 from .client_server import Session
 from saltchannel.exceptions  import ComException
@@ -29,7 +30,8 @@ SESSION_NUM = 1
 class ExampleSession(Session):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        # the address the client asks for in A1
+        self.server_sig_keypair = KeyPair(sec=CryptoTestData.bSig.sec, pub=b'\x08' * 32)
         self.server_enc_keypair = CryptoTestData.bEnc
 
     def server_session(self, channel):
diff --git a/saltchannel/dev/example_session2_a.py b/saltchannel/dev/example_session2_a.py
index 51c4c4f..7ddab72 100644
--- a/saltchannel/dev/example_session2_a.py
+++ b/saltchannel/dev/example_session2_a.py
@@ -15,6 +15,7 @@ from saltchannel.channel  import AsyncioChannel
 
 from saltchannel.v2.salt_server_session import SaltServerSession
 from saltchannel.util.crypto_test_data import CryptoTestData
+from saltchannel.util.key_pair import KeyPair
 from saltchannel.a1a2.a1_client_session import A1ClientSession
 
 # Log all to stdout
@@ -29,7 +30,8 @@ CLIENT_NUM = 1
 class ExampleSessionA(SessionA):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        # the address the client asks for in A1
+        self.server_sig_keypair = KeyPair(sec=CryptoTestData.bSig.sec, pub=b'\x08' * 32)
         self.server_enc_keypair = CryptoTestData.bEnc
 
     async def server_session(self, reader, writer):
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index f35532a..5d4753e 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -67,7 +67,7 @@ class SaltServerSession(metaclass=util.Syncizer):
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
-        if a1.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
+        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
             a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
         elif self.a2:
             a2 = self.a2  # use injected a2
-- 
2.43.0


From a3017b1c2a6458789774dbda79c0a1742bede355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 07/31] fix: an M3 of the wrong size is BadPeer, not
 AssertionError

---
 saltchannel/v2/salt_client_session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 5718722..62a3cfa 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -84,8 +84,9 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     async def do_m3(self):
         chunk = await self.enc_channel.read()
-        assert(len(chunk) == 2+4+32+64)
         self.m3 = packets.M3Packet(src_buf=chunk)
+        if len(chunk) != self.m3.size:
+            raise saltchannel.exceptions.BadPeer("bad M3 size: ", len(chunk))
         self.time_checker.check_time(self.m3.data.Time)
 
     async def do_m4(self):
-- 
2.43.0


From 0dd70900575c9638685a949273ae26f5e11e32da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 08/31] fix: honour wanted_server_sig_key in the client
 handshake

The attribute was ignored: M1 never carried the key, and the handshake was
completed with whatever server answered.
---
 saltchannel/v2/salt_client_session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 62a3cfa..fab1559 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -56,7 +56,10 @@ class SaltClientSession(metaclass=util.Syncizer):
     async def do_m1(self):
         """Creates and writes M1 message."""
         self.m1 = packets.M1Packet()
+        self.m1.data.Header.ServerSigKeyIncluded = int(bool(self.wanted_server_sig_key))
         self.m1.create_opt_fields()
+        if self.wanted_server_sig_key:
+            self.m1.ServerSigKey = self.wanted_server_sig_key
         self.m1.data.Time = self.time_keeper.get_first_time()
         self.m1.ClientEncKey = self.enc_keypair.pub
 
@@ -88,6 +91,8 @@ class SaltClientSession(metaclass=util.Syncizer):
         if len(chunk) != self.m3.size:
             raise saltchannel.exceptions.BadPeer("bad M3 size: ", len(chunk))
         self.time_checker.check_time(self.m3.data.Time)
+        if self.wanted_server_sig_key and self.m3.ServerSigKey != self.wanted_server_sig_key:
+            raise saltchannel.exceptions.BadPeer("not the wanted server: ", self.m3.ServerSigKey)
 
     async def do_m4(self):
         self.m4 = packets.M4Packet()
-- 
2.43.0


From fe3e2fd0bcf99a51706ed91540cd1083062f6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 09/31] fix: do not use one MultiAppPacket for more than 65535
 messages

Count is a 16-bit field: it wrapped, and the messages beyond it were lost.
---
 saltchannel/v2/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index edeaa27..0cbbad7 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -263,6 +263,7 @@ class AppPacket(Packet):
 class MultiAppPacket(Packet):
     TYPE = PacketType.TYPE_MULTIAPP_PACKET.value
     MAX_SIZE = 65535
+    MAX_COUNT = 65535
 
     class _MultiAppPacketBody(SmartStructure):
         class _MultiAppPacketHeader(SmartStructure):
@@ -342,7 +343,7 @@ class MultiAppPacket(Packet):
 
     @staticmethod
     def should_use(msgs):
-        return False if len(msgs) < 2 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
+        return False if not 2 <= len(msgs) <= MultiAppPacket.MAX_COUNT or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
 
 # leave here for now
 class TTPacket(Packet):
-- 
2.43.0


From 99dec3152c173da45f448636b33c4fb574930c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 10/31] fix: AsyncioChannel reports I/O errors as ComException

As SocketChannel does and EncryptedChannelV2 documents; end of stream raised
IncompleteReadError and a bad length prefix ValueError.
---
 saltchannel/channel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index c1e0431..89d22da 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -44,12 +44,18 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
         self.writer = writer
 
     async def read(self):
-        return await self.reader.read_msg()
+        try:
+            return await self.reader.read_msg()
+        except Exception as e:
+            raise ComException(e)
 
     async def write(self, msg, *args, is_last=False):
-        for m in (msg,) + args:
-            self.writer.write_msg(m)
-        await self.writer.drain()
+        try:
+            for m in (msg,) + args:
+                self.writer.write_msg(m)
+            await self.writer.drain()
+        except Exception as e:
+            raise ComException(e)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From 006cbf31c2b0b42c13b2ed697279f4f785bc2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 11/31] fix: client sessions can be created in any thread

Like SaltServerSession; asyncio.get_event_loop() raises RuntimeError in a
thread other than the main one.
---
 saltchannel/a1a2/a1_client_session.py | 4 ++--
 saltchannel/v2/salt_client_session.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/a1_client_session.py b/saltchannel/a1a2/a1_client_session.py
index 467c4c5..b81ca49 100644
--- a/saltchannel/a1a2/a1_client_session.py
+++ b/saltchannel/a1a2/a1_client_session.py
@@ -1,11 +1,11 @@
-import asyncio
+import saltchannel.util as util
 from . import packets
 
 
 class A1ClientSession:
     """"""
     def __init__(self, channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.channel = channel
         self.a1 = packets.A1Packet()
diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index fab1559..2b1172c 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -15,7 +15,7 @@ class SaltClientSession(metaclass=util.Syncizer):
     Asyncio-based implementation
     """
     def __init__(self, sig_keypair, clear_channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.saltlib = SaltLib()
         self.sig_keypair = sig_keypair
-- 
2.43.0


From 0f5dd948976635be593928fa0ef463fd156c9133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 12/31] fix: do not share one TimeKeeper/TimeChecker between
 all sessions

Only the stateless Null versions may be singletons. A keeper that counts
mixed up the times of all sessions (and of both peers) in a process.
---
 saltchannel/util/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index b370153..bc573b0 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -3,7 +3,7 @@ from . import SingletonABCMeta
 from ..exceptions import BadPeer
 
 
-class TimeKeeper(metaclass=SingletonABCMeta):
+class TimeKeeper(metaclass=ABCMeta):
     """Keeps time; relative time since first message sent. Measure in milliseconds."""
 
     """Call this first, must return 1 when timing is supported and 0 if not."""
@@ -15,7 +15,7 @@ class TimeKeeper(metaclass=SingletonABCMeta):
     def get_time(self): pass
 
 
-class TimeChecker(metaclass=SingletonABCMeta):
+class TimeChecker(metaclass=ABCMeta):
     """"""
 
     """Reports first time. Should be 0 or 1."""
@@ -27,7 +27,7 @@ class TimeChecker(metaclass=SingletonABCMeta):
     def check_time(self, time): pass
 
 
-class NullTimeKeeper(TimeKeeper):
+class NullTimeKeeper(TimeKeeper, metaclass=SingletonABCMeta):
     """A TimeKeeper implementation that does not keep time.
     get_first_time() and get_time() always returns 0.
     """
@@ -41,7 +41,7 @@ class NullTimeKeeper(TimeKeeper):
         return 0
 
 
-class NullTimeChecker(TimeChecker):
+class NullTimeChecker(TimeChecker, metaclass=SingletonABCMeta):
     """TimeChecker that accepts all time values."""
 
     """Reports first time. Should be 0 or 1."""
-- 
2.43.0


From 2533d6a5e4d44b30978e609141a653904ad872bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 13/31] fix: SaltLib.getLib() returns the requested library

For any type but LIB_TYPE_BEST it returned None, and LIB_TYPE_BEST gave up
after the first unavailable library.
---
 saltchannel/saltlib/saltlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 8f8d401..93bffdc 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -41,10 +41,11 @@ class SaltLib(metaclass=Singleton):
             for t, api in sorted(SaltLib.lib_map.items()):
                 if api.isAvailable():
                     return api
-                else:
-                    raise NoSuchLibException
-            else:
-                return SaltLib.lib_map[lib_type]
+        else:
+            api = SaltLib.lib_map[lib_type.value]
+            if api.isAvailable():
+                return api
+        raise NoSuchLibException
 
     @staticmethod
     def random_bytes(n):
-- 
2.43.0


From a5cea8b98e5f9631fec25b35463f772075b88ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 14/31] fix: SaltLibNative.randombytes() crashed the process

libsodium fills a buffer; the length was passed as its address.
---
 saltchannel/saltlib/saltlib_native.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index d4c17ee..de8759c 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -172,4 +172,6 @@ class SaltLibNative(SaltLibBase):
 
 
     def randombytes(self, n):
-        return sodium.randombytes(n)
\ No newline at end of file
+        buf = ctypes.create_string_buffer(n)
+        sodium.randombytes(buf, ctypes.c_ulonglong(n))
+        return buf.raw
-- 
2.43.0


From 0bf7dad5eec6b672066b5fbcdfc7c1528f7e8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 15/31] fix: SaltLibNative checks the sizes of keys and nonces

libsodium was handed the raw pointers, so a short key or nonce was read past
its end; the PyNaCl back end rejects them.
---
 saltchannel/saltlib/saltlib_native.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index de8759c..96c4b51 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -12,6 +12,10 @@ def wrap(code):
     if code != 0:
         raise ValueError("libsodium returned ", code)
 
+def check_len(name, value, size):
+    if len(value) != size:
+        raise ValueError("Invalid {} length: {}".format(name, len(value)))
+
 
 class SaltLibNative(SaltLibBase):
 
@@ -53,6 +57,7 @@ class SaltLibNative(SaltLibBase):
         Returns:
             bytes: signed message
         """
+        check_len("secret key", sk, self.crypto_sign_SECRETKEYBYTES)
         sm = ctypes.create_string_buffer(len(m) + self.crypto_sign_BYTES)
         smlen = ctypes.c_ulonglong()
         wrap(sodium.crypto_sign(sm, ctypes.byref(smlen), m, ctypes.c_ulonglong(len(m)), sk))
@@ -71,6 +76,7 @@ class SaltLibNative(SaltLibBase):
         Raises:
             BadSignatureException:
         """
+        check_len("public key", pk, self.crypto_sign_PUBLICKEYBYTES)
         m = ctypes.create_string_buffer(len(sm))
         mlen = ctypes.c_ulonglong()
         res = sodium.crypto_sign_open(m, ctypes.byref(mlen), sm, ctypes.c_ulonglong(len(sm)), pk)
@@ -108,6 +114,8 @@ class SaltLibNative(SaltLibBase):
             bytes: shared key
 
         """
+        check_len("public key", pk, self.crypto_box_PUBLICKEYBYTES)
+        check_len("secret key", sk, self.crypto_box_SECRETKEYBYTES)
         k = ctypes.create_string_buffer(self.crypto_box_SHAREDKEYBYTES)
         wrap(sodium.crypto_box_beforenm(k, pk, sk))
         return k.raw
@@ -126,6 +134,8 @@ class SaltLibNative(SaltLibBase):
         Returns:
             bytes: ciphertext (encrypted and signed message)
         """
+        check_len("nonce", n, self.crypto_box_NONCEBYTES)
+        check_len("shared key", k, self.crypto_box_SHAREDKEYBYTES)
         padded = (b"\x00"*self.crypto_box_ZEROBYTES) + m
         c = ctypes.create_string_buffer(len(padded))
         wrap(sodium.crypto_box_afternm(c, padded, ctypes.c_ulonglong(len(padded)), n, k))
@@ -147,6 +157,8 @@ class SaltLibNative(SaltLibBase):
         Raises:
             BadEncryptedDataException:
         """
+        check_len("nonce", n, self.crypto_box_NONCEBYTES)
+        check_len("shared key", k, self.crypto_box_SHAREDKEYBYTES)
         padded = (b"\x00"*self.crypto_box_BOXZEROBYTES) + c
         m = ctypes.create_string_buffer(len(padded))
         res = sodium.crypto_box_open_afternm(m, padded, ctypes.c_ulonglong(len(padded)), n, k)
-- 
2.43.0


From 60a0c3de5d1e02baa5afb1c2b3a66db2b6933aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 16/31] fix: saltlib can be imported without the tweetnacl
 extension

One missing back end made the whole package unusable, although it has other
back ends and isAvailable() to tell which of them can be used.
---
 saltchannel/saltlib/saltlib_tweetnaclext.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/saltchannel/saltlib/saltlib_tweetnaclext.py b/saltchannel/saltlib/saltlib_tweetnaclext.py
index d224307..4417eb0 100644
--- a/saltchannel/saltlib/saltlib_tweetnaclext.py
+++ b/saltchannel/saltlib/saltlib_tweetnaclext.py
@@ -1,6 +1,9 @@
 # -*- coding: utf-8 -*-
 
-import tweetnacl.raw as tweetnacl
+try:
+    import tweetnacl.raw as tweetnacl
+except ImportError:
+    tweetnacl = None  # optional back end, see isAvailable()
 
 from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
@@ -9,7 +12,7 @@ class SaltLibTweetNaClExt(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return True
+        return tweetnacl is not None
 
     # ret: pk, sk
     def crypto_sign_keypair_not_random(self, seed):
-- 
2.43.0


From 9dac8ba1b17ead11024c546bf8177304eeef0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 17/31] fix: an unusable encryption key from the peer is
 BadPeer

The crypto library refuses low-order points; the handshake died with
ValueError("libsodium returned ", -1) (RuntimeError with PyNaCl).
---
 saltchannel/saltlib/exceptions.py     | 3 +++
 saltchannel/saltlib/saltlib.py        | 7 +++++--
 saltchannel/v2/salt_client_session.py | 5 ++++-
 saltchannel/v2/salt_server_session.py | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/saltchannel/saltlib/exceptions.py b/saltchannel/saltlib/exceptions.py
index f6622db..dcbc4c6 100644
--- a/saltchannel/saltlib/exceptions.py
+++ b/saltchannel/saltlib/exceptions.py
@@ -10,6 +10,9 @@ class NoSuchLibException(SaltLibException):
 class BadSignatureException(SaltLibException):
     """Thrown to indicate that a signature was not valid."""
 
+class BadPublicKeyException(SaltLibException):
+    """Thrown to indicate that no shared key can be computed from a peer's public key."""
+
 class BadEncryptedDataException(SaltLibException):
     """Thrown to indicate that encrypted and authenticated data was not valid.
     The authentication tag (MAC) was invalid.
diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 93bffdc..8b3c5b8 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -6,7 +6,7 @@ from saltchannel.util import Singleton
 from .saltlib_native import SaltLibNative
 from .saltlib_pynacl import SaltLibPyNaCl
 from .saltlib_tweetnaclext import SaltLibTweetNaClExt
-from .exceptions import NoSuchLibException
+from .exceptions import NoSuchLibException, BadPublicKeyException
 
 from ..util.key_pair import KeyPair
 
@@ -79,7 +79,10 @@ class SaltLib(metaclass=Singleton):
             raise ValueError("bad length of my_priv: ", len(my_sk))
         if len(peer_pk) != self.api.crypto_box_PUBLICKEYBYTES:
             raise ValueError("bad length of peer_pub: ", len(peer_pk))
-        return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        try:
+            return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        except Exception as e:
+            raise BadPublicKeyException(e)
 
     def encrypt(self, key, nonce, msg):
         return self.api.crypto_box_afternm(msg, nonce, key)
diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 2b1172c..e749352 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -115,7 +115,10 @@ class SaltClientSession(metaclass=util.Syncizer):
             raise saltchannel.exceptions.BadPeer("invalid signature")
 
     def create_encrypted_channel(self):
-        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
+        try:
+            self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
+        except saltchannel.saltlib.exceptions.BadPublicKeyException:
+            raise saltchannel.exceptions.BadPeer("invalid ServerEncKey")
         self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.CLIENT)
         self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
 
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index 5d4753e..4ff4a53 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -136,7 +136,10 @@ class SaltServerSession(metaclass=util.Syncizer):
         self.client_sig_key = self.m4.ClientSigKey
 
     def create_encrypted_channel(self):
-        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
+        try:
+            self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
+        except saltchannel.saltlib.exceptions.BadPublicKeyException:
+            raise saltchannel.exceptions.BadPeer("invalid ClientEncKey")
         self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.SERVER)
         self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
 
-- 
2.43.0


From 013d8b2d244790074ba22a7bd71ba56b5990b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 18/31] fix: MitmChannel keeps log records while log_buffering
 is on

The else belonged to the wrong if: buffered records were dropped.
---
 saltchannel/dev/mitm_channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/saltchannel/dev/mitm_channel.py b/saltchannel/dev/mitm_channel.py
index 36ee713..ab6762b 100644
--- a/saltchannel/dev/mitm_channel.py
+++ b/saltchannel/dev/mitm_channel.py
@@ -45,8 +45,8 @@ class MitmChannel(ByteChannel):
                 self.log.info('{:0.6f} +{:0.6f}, {:s}, len(msg):{:d}, msg: b\'{:s}\''
                             .format(log_record.time, log_record.time-self.time0, log_record.type,
                                     len(log_record.data), log_record.data.hex()))
-            else:
-                self.queue.append(log_record)
+        else:
+            self.queue.append(log_record)
         self.time0 = log_record.time
 
     async def read(self):
-- 
2.43.0


From 8426b8652b91aab546ed128e023d7f5af7e603c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 19/31] fix: asyncio.wait() has no loop argument since Python
 3.10

---
 saltchannel/dev/client_server_a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 0a2dbe7..68724b5 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -97,7 +97,7 @@ class ClientServerPairA:
             loop.run_in_executor(ProcessPoolExecutor(max_workers=self.client_num+1), self._spawn_client_process))
             for x in range(self.client_num)]
         while futures:
-            done, futures = await asyncio.wait(futures, loop=loop, return_when=asyncio.ALL_COMPLETED)
+            done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
             for f in done:
                 await f
 
-- 
2.43.0


From 0a5f9c445d55f3af143009a679b11ba2de41fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 20/31] fix: SaltLibPure decrypts, and reports bad data as
 documented

Opening a box wiped the whole message, randombytes() was missing (so the
class could not be instantiated) and so were the exceptions it raises.
---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 2 +-
 saltchannel/saltlib/saltlib_pure.py          | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index d5ba020..6bef58d 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -332,7 +332,7 @@ def crypto_secretbox_xsalsa20poly1305_tweet_open(m, c, d, n, k):
     crypto_stream_xsalsa20_tweet(x, 32, n, k)
     if crypto_onetimeauth_poly1305_tweet_verify(c[16:], c[32:], d - 32, x) != 0: return -1
     crypto_stream_xsalsa20_tweet_xor(m, c, d, n, k)
-    m[:] = 32*[u8()]
+    m[:32] = 32*[u8()]
     return 0
 
 
diff --git a/saltchannel/saltlib/saltlib_pure.py b/saltchannel/saltlib/saltlib_pure.py
index 0297bf8..114563d 100644
--- a/saltchannel/saltlib/saltlib_pure.py
+++ b/saltchannel/saltlib/saltlib_pure.py
@@ -4,6 +4,7 @@ from .pure_pynacl import TypeEnum, integer, Int, IntArray
 from .pure_pynacl import tweetnacl
 from .pure_pynacl.tweetnacl import u8
 
+from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
 
 class SaltLibPure(SaltLibBase):
@@ -92,4 +93,9 @@ class SaltLibPure(SaltLibBase):
             raise ValueError("invalid parameter")
         h = IntArray(u8, size=64)
         tweetnacl.crypto_hash_sha512_tweet(h, list(m), len(m))
-        return bytes(h)
\ No newline at end of file
+        return bytes(h)
+
+    def randombytes(self, n):
+        c = bytearray(n)
+        tweetnacl.randombytes(c, n)
+        return bytes(c)
-- 
2.43.0


From a1057e2b3d68710b079e196dcbc5ddec78022f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 21/31] fix: Tunnel and TunnelMP implement ByteChannel

read()/write() were no coroutines, the _sync calls did nothing, and write()
added bytes to a tuple.
---
 saltchannel/dev/tunnel.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index 002e3a6..fd403f4 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -14,11 +14,17 @@ class Tunnel:
     @staticmethod
     def _channel_factory(in_queue, out_queue):
         class _Channel(ByteChannel):
-            def read(self):
+            async def read(self):
+                return self.read_sync()
+
+            async def write(self, msg, *args, is_last=False):
+                self.write_sync(msg, *args, is_last=is_last)
+
+            def read_sync(self):
                 return in_queue.popleft()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            def write_sync(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     out_queue.append(m)
         return _Channel()
 
@@ -32,10 +38,16 @@ class TunnelMP:
     @staticmethod
     def _channel_factory(endpoint):
         class _Channel(ByteChannel):
-            def read(self):
+            async def read(self):
+                return self.read_sync()  # blocking version inside!
+
+            async def write(self, msg, *args, is_last=False):
+                self.write_sync(msg, *args, is_last=is_last)  # blocking version inside!
+
+            def read_sync(self):
                 return endpoint.recv_bytes()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            def write_sync(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     endpoint.send_bytes(m)
         return _Channel()
\ No newline at end of file
-- 
2.43.0


From 2e9546e57834434dda767a8820e8d5ce65d920e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:19 +0000
Subject: [PATCH 22/31] fix: a refused first message does not lose a buffered
 M4

---
 saltchannel/v2/app_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/app_channel_v2.py b/saltchannel/v2/app_channel_v2.py
index 5a72230..f0f8963 100644
--- a/saltchannel/v2/app_channel_v2.py
+++ b/saltchannel/v2/app_channel_v2.py
@@ -46,7 +46,6 @@ class AppChannelV2(ByteChannel, metaclass=util.Syncizer):
         if self.buffered_m4:
             self.buffered_m4.data.Time = current_time
             rawmsg_list.append(bytes(self.buffered_m4))
-            self.buffered_m4 = None
 
         if MultiAppPacket.should_use(msgs):
             map = MultiAppPacket()
@@ -61,4 +60,5 @@ class AppChannelV2(ByteChannel, metaclass=util.Syncizer):
                 ap.Data = msg
                 rawmsg_list.append(bytes(ap))
 
+        self.buffered_m4 = None  # not before: a refused message must not lose it
         await self.channel.write(rawmsg_list[0], *(rawmsg_list[1:]), is_last=is_last)
-- 
2.43.0


From 5fc9839ade186168d1700f18ad92c2dff9587d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 23/31] fix: a cancelled read_msg() does not lose the stream's
 message boundary

---
 saltchannel/dev/client_server_a.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 68724b5..acee160 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -14,9 +14,14 @@ class SaltChannelStreamWriter(streams.StreamWriter):
         self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))
 
 class SaltChannelStreamReader(streams.StreamReader):
+    _msg_len = None  # size of a message whose size prefix is already consumed (read_msg() may be cancelled then)
+
     async def read_msg(self):
-        msg_len = struct.unpack('<i', await self.readexactly(4))
-        return b'' if not msg_len else await self.readexactly(msg_len[0])
+        if self._msg_len is None:
+            self._msg_len = struct.unpack('<i', await self.readexactly(4))
+        msg = await self.readexactly(self._msg_len[0])
+        self._msg_len = None
+        return msg
 
 
 class SaltChannelStreamReaderProtocol(streams.StreamReaderProtocol):
-- 
2.43.0


From f9c30d5ba447fd14d56884686a5d8ae8705e842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:57 +0000
Subject: [PATCH 24/31] fix: SaltLibPure rejects the malleable form of a
 signature

---
 saltchannel/saltlib/saltlib_pure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/saltchannel/saltlib/saltlib_pure.py b/saltchannel/saltlib/saltlib_pure.py
index 114563d..4f693c4 100644
--- a/saltchannel/saltlib/saltlib_pure.py
+++ b/saltchannel/saltlib/saltlib_pure.py
@@ -9,6 +9,8 @@ from .saltlib_base import SaltLibBase
 
 class SaltLibPure(SaltLibBase):
 
+    L = 2**252 + 27742317777372353535851937790883648493  # order of the Ed25519 base point
+
     @staticmethod
     def isAvailable():
         import importlib.util
@@ -43,6 +45,9 @@ class SaltLibPure(SaltLibBase):
     # TEST PASSED
     # ret: m
     def crypto_sign_open(self, sm, pk):
+        # TweetNaCl accepts S + k*L as well as S; libsodium (and so the other back ends) does not
+        if int.from_bytes(sm[32:self.crypto_sign_BYTES], 'little') >= self.L:
+            raise BadSignatureException()
         m = bytearray(len(sm))
         mlen = -1
         res = tweetnacl.crypto_sign_ed25519_tweet_open(m, mlen, sm, len(sm), pk)
-- 
2.43.0


From 733bae1fe587bb44be5fda9a29daa898b7c4c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:44 +0000
Subject: [PATCH 25/31] fix: packets can be created in several threads at once

---
 saltchannel/a1a2/packets.py  |  7 ++++---
 saltchannel/util/__init__.py | 13 ++++++++++---
 saltchannel/v2/packets.py    |  4 ++--
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index f8c55e1..b59e250 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -70,7 +70,7 @@ class A1Packet(Packet):
     @Address.setter
     def Address(self, value):
         self.opt = self._opt_factory(body=value, address_field_len=len(value))
-        self.opt.Address = util.cbytes(value)
+        self.opt.Address = util.cbytes(value, type(self.opt.Address))
 
 
 class A2Packet(Packet):
@@ -83,6 +83,7 @@ class A2Packet(Packet):
     P_SIZE = 10
     SC2_PROT_STRING = b'SCv2------'
     UNSPECIFIED_PROT_STRING = b'----------'
+    P_TYPE = c_uint8 * P_SIZE  # kept, so that ctypes does not create other types of this size
 
     class _A2PacketBody(SmartStructure):
         class _A2PacketHeader(SmartStructure):
@@ -101,8 +102,8 @@ class A2Packet(Packet):
             return Packet._EmptyBodyOpt()
 
         class _A2Prot(SmartStructure):
-            _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
-                        ("P2", c_uint8 * A2Packet.P_SIZE)]
+            _fields_ = [("P1", A2Packet.P_TYPE),
+                        ("P2", A2Packet.P_TYPE)]
             proto_re = re.compile(rb'[-./\w]+')  # used for p-string validation
 
             def validate(self):
diff --git a/saltchannel/util/__init__.py b/saltchannel/util/__init__.py
index fcd992f..27d36ab 100644
--- a/saltchannel/util/__init__.py
+++ b/saltchannel/util/__init__.py
@@ -4,10 +4,17 @@ import ctypes
 from abc import ABCMeta
 import asyncio
 
-def cbytes(src):
-    """Convert bytes-like array to ctypes array of c_uint8."""
+def cbytes(src, array_type=None):
+    """Convert bytes-like array to ctypes array of c_uint8.
+    To assign the result to a field of variable size, pass the array type of the field: when threads race,
+    ctypes can create several different types for the same size."""
     #return (ctypes.c_uint8 * len(bytes(src)))(*list((bytes(src))))
-    return (ctypes.c_uint8 * len(bytes(src))).from_buffer_copy(src)
+    size = len(bytes(src))
+    if array_type is None:
+        array_type = ctypes.c_uint8 * size
+    elif ctypes.sizeof(array_type) != size:
+        raise TypeError("wrong size: ", size)
+    return array_type.from_buffer_copy(src)
 
 def force_event_loop(loop=None):
     try:
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 0cbbad7..2a16fa6 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -209,7 +209,7 @@ class EncryptedPacket(Packet):
     @Body.setter
     def Body(self, value):
         self.opt = self._opt_factory(body=value, body_field_len=len(value))
-        self.opt.Body = util.cbytes(value)
+        self.opt.Body = util.cbytes(value, type(self.opt.Body))
 
 
 class AppPacket(Packet):
@@ -257,7 +257,7 @@ class AppPacket(Packet):
     @Data.setter
     def Data(self, value):
         self.opt = self._opt_factory(body=value, data_field_len=len(value))
-        self.opt.Data = util.cbytes(value)
+        self.opt.Data = util.cbytes(value, type(self.opt.Data))
 
 
 class MultiAppPacket(Packet):
-- 
2.43.0


From e6bf3f292cfc6e0985500fad60763ba093d2cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:08 +0000
Subject: [PATCH 26/31] fix: EncryptedChannelV2.read_sync()/write_sync() do
 what read()/write() do

---
 saltchannel/v2/encrypted_channel_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index a86d1eb..96191d3 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -1,5 +1,6 @@
 from enum import Enum
 
+import saltchannel.util as util
 from ..saltlib import SaltLib
 from ..saltlib import BadEncryptedDataException, BadSignatureException
 from ..channel import ByteChannel
@@ -32,7 +33,7 @@ class Nonce:
         return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])
 
 
-class EncryptedChannelV2(ByteChannel):
+class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
     """An implementation of an encrypted channel using a shared symmetric session key.
     The read/write methods throws ComException for low-level IO errors
     and BadPeer if the data format is not OK or if the data is not
-- 
2.43.0


From cb12780df136317b7ad8447d845f68db8b45ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:08 +0000
Subject: [PATCH 27/31] fix: A2Packet.Prot can be assigned

---
 saltchannel/a1a2/packets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index b59e250..bb13eda 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -170,5 +170,8 @@ class A2Packet(Packet):
 
     @Prot.setter
     def Prot(self, value):
-        self.opt = self._opt_factory(body=value, prot_count=len(value))
-        self.opt.Prot = value
+        opt = self._opt_factory(body=value, prot_count=len(value))
+        for dst, src in zip(opt.Prot, value):
+            dst.P1 = util.cbytes(src.P1)
+            dst.P2 = util.cbytes(src.P2)
+        self.opt = opt
-- 
2.43.0


From d1355a7aac082d4e5d3e2a04a54255038a5e100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:52 +0000
Subject: [PATCH 28/31] fix: MitmChannel logs the data as it was when it was
 read or written

---
 saltchannel/dev/mitm_channel.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/saltchannel/dev/mitm_channel.py b/saltchannel/dev/mitm_channel.py
index ab6762b..1cdaaba 100644
--- a/saltchannel/dev/mitm_channel.py
+++ b/saltchannel/dev/mitm_channel.py
@@ -53,7 +53,7 @@ class MitmChannel(ByteChannel):
         data = await self.orig.read()
         self.counter_read += len(data)
         if self.log:
-            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.READ, data=data))
+            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.READ, data=bytes(data)))
         return data
 
     async def write(self, msg, *args, is_last=False):
@@ -63,15 +63,15 @@ class MitmChannel(ByteChannel):
             self.counter_write += len(m)
 
         if self.log:
-            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=msg))
+            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=bytes(msg)))
             for m in args:
-                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=m))
+                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=bytes(m)))
 
     def read_sync(self):
         data = self.orig.read_sync()
         self.counter_read += len(data)
         if self.log:
-            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.READ, data=data))
+            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.READ, data=bytes(data)))
         return data
 
     def write_sync(self, msg, *args, is_last=False):
@@ -81,9 +81,9 @@ class MitmChannel(ByteChannel):
             self.counter_write += len(m)
 
         if self.log:
-            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=msg))
+            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=bytes(msg)))
             for m in args:
-                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=m))
+                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=bytes(m)))
 
 
     def close(self):
-- 
2.43.0


From 2c6897c6294b27074702d7e9eaa7cd1b1c52a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:08 +0000
Subject: [PATCH 29/31] fix: Tunnel delivers a message as it was when it was
 written

---
 saltchannel/dev/tunnel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index fd403f4..cb964cd 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -25,7 +25,7 @@ class Tunnel:
 
             def write_sync(self, msg, *args, is_last=False):
                 for m in (msg,) + args:
-                    out_queue.append(m)
+                    out_queue.append(bytes(m))
         return _Channel()
 
 
-- 
2.43.0


From 73229aaf1613377c74cc3872ed3dc630535ae945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:11 +0000
Subject: [PATCH 30/31] fix: the asyncio echo server does not buffer echoes
 without bound

---
 saltchannel/dev/simple_echo_session_a.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/saltchannel/dev/simple_echo_session_a.py b/saltchannel/dev/simple_echo_session_a.py
index 47d4410..5d8c353 100644
--- a/saltchannel/dev/simple_echo_session_a.py
+++ b/saltchannel/dev/simple_echo_session_a.py
@@ -21,6 +21,7 @@ class SimpleEchoSessionA(SessionA):
                 break
             logging.info("<-- SRV Received: '{:s}' from: {:s}".format(data.hex(), str(addr)))
             writer.write_msg(data)
+            await writer.drain()
             logging.info("--> SRV Send:     '{:s}'".format(data.hex()))
 
         await writer.drain()
-- 
2.43.0


From ddf3f6337dcd10bac78743ac5e2f2467cdde3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 31/31] fix: SaltLibPure encrypts and decrypts messages above
 16 KB

---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index 6bef58d..d1f0c37 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -199,7 +199,7 @@ def crypto_stream_salsa20_tweet_xor(c, m, b, n, k):
         u = u32(1)
         for i in range(8, 16):
             u += u32(z[i])
-            z[i] = u
+            z[i] = u8(u)
             u >>= 8
         b -= 64
         c_off += 64
-- 
2.43.0

