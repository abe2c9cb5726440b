From 1e862900745af09a151595908a2237610a86f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:05 +0000
Subject: [PATCH 01/18] fix: reject empty and truncated packets with BadPeer

An empty buffer was taken for 'no buffer', giving a default packet of the
expected type, and missing trailing bytes were silently read as zeros.
A1/A2 shorter than their fixed part raised ValueError.
---
 saltchannel/a1a2/packets.py |  4 ++--
 saltchannel/util/packets.py |  5 +++--
 saltchannel/v2/packets.py   | 14 +++++++-------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 3ec6e49..9b0bb3d 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -35,7 +35,7 @@ class A1Packet(Packet):
         self.data.Header.PacketType = type(self).TYPE
         self.data.AddressType = type(self).ADDRESS_TYPE_ANY
         self.data.AddressSize = 0
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -132,7 +132,7 @@ class A2Packet(Packet):
             self.opt.Prot[0].P1 = util.cbytes(self.SC2_PROT_STRING)
             self.opt.Prot[0].P2 = util.cbytes(self.UNSPECIFIED_PROT_STRING)
             return
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
diff --git a/saltchannel/util/packets.py b/saltchannel/util/packets.py
index 47795cb..78c4b29 100644
--- a/saltchannel/util/packets.py
+++ b/saltchannel/util/packets.py
@@ -33,8 +33,9 @@ class SmartStructure(LittleEndianStructure):
         super().__init__(**values)
 
     def from_bytes(self, src):
-        if src:
-            memmove(addressof(self), src, min(len(src), sizeof(self)))
+        if len(src) < sizeof(self):
+            raise BadPeer("packet too short: ", len(src), sizeof(self))
+        memmove(addressof(self), src, sizeof(self))
 
     @property
     def size(self):
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a9b3a0a..52f038a 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -39,7 +39,7 @@ class M1Packet(Packet):
         self.data = M1Packet._M1PacketBody()
         self.data.Header.PacketType = type(self).TYPE
         self.opt = self._opt_factory()
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -93,7 +93,7 @@ class M2Packet(Packet):
         super().__init__()
         self.data = M2Packet._M2PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -127,7 +127,7 @@ class M3Packet(Packet):
         super().__init__()
         self.data = M3Packet._M3PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -152,7 +152,7 @@ class M4Packet(Packet):
         super().__init__()
         self.data = M4Packet._M4PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -187,7 +187,7 @@ class EncryptedPacket(Packet):
         super().__init__()
         self.data = EncryptedPacket._EncryptedPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -240,7 +240,7 @@ class AppPacket(Packet):
         super().__init__()
         self.data = AppPacket._AppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
@@ -319,7 +319,7 @@ class MultiAppPacket(Packet):
         super().__init__()
         self.data = MultiAppPacket._MultiAppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-- 
2.43.0


From 06e325fdeba37b8f954cf73ce206766e838bbf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:07 +0000
Subject: [PATCH 02/18] fix: reject truncated MultiAppPacket messages with
 BadPeer

A missing length field raised ValueError and a short message was
silently delivered truncated.
---
 saltchannel/v2/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 52f038a..35cf9f0 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -294,8 +294,12 @@ class MultiAppPacket(Packet):
                 # deserialize manually now
                 cnt = offset = 0
                 while cnt < count:
+                    if len(src) < offset + sizeof(c_uint16):
+                        raise BadPeer("'Length' field is missing for message: ", cnt)
                     length_field = c_uint16.from_buffer_copy(src, offset)
                     offset += sizeof(c_uint16)
+                    if len(src) < offset + length_field.value:
+                        raise BadPeer("message is truncated: ", cnt)
                     self.Message.append(src[offset:offset+length_field.value])
                     offset += length_field.value
                     cnt += 1
-- 
2.43.0


From 256eb8b8a804cead349831fb92489f1e781e23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:09 +0000
Subject: [PATCH 03/18] fix: A2 protocol strings must be ASCII letters, digits
 and -./_ only

A non-UTF-8 string raised UnicodeDecodeError, and non-ASCII letters and a
trailing newline were accepted.
---
 saltchannel/a1a2/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 9b0bb3d..7803338 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -103,13 +103,13 @@ class A2Packet(Packet):
         class _A2Prot(SmartStructure):
             _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
                         ("P2", c_uint8 * A2Packet.P_SIZE)]
-            proto_re = re.compile(r'^[-./\w]+$')  # used for p-string validation
+            proto_re = re.compile(rb'[-./\w]+')  # used for p-string validation
 
             def validate(self):
                 if len(self.P1) != A2Packet.P_SIZE or len(self.P2) != A2Packet.P_SIZE:
                     return False
-                return True if (type(self).proto_re.match(bytes(self.P1).decode()) and
-                                type(self).proto_re.match(bytes(self.P2).decode())) else False
+                return True if (type(self).proto_re.fullmatch(bytes(self.P1)) and
+                                type(self).proto_re.fullmatch(bytes(self.P2))) else False
 
         class _A2PacketBodyOpt(SmartStructure):
             # A2Packet opt/variable fields
-- 
2.43.0


From 0fc4734bd38275e5bff1dc8a1ac1e9b4768effec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 04/18] fix: reject A2 packets with an incomplete protocol
 entry

---
 saltchannel/a1a2/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 7803338..b109c50 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -137,6 +137,8 @@ class A2Packet(Packet):
 
     def from_bytes(self, src, validate=True):
         self.data.from_bytes(src)
+        if (len(src)-3) % (A2Packet.P_SIZE*2):
+            raise BadPeer("bad A2 packet size: ", len(src))
         self.opt = self._opt_factory(body=src, prot_count=(len(src)-3)//(A2Packet.P_SIZE*2))
         self.opt.from_bytes(src[self.data.size:])
         if validate:
-- 
2.43.0


From 684b5c2fa1ace2121c1b36b05875aaec53eaa5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:13 +0000
Subject: [PATCH 05/18] fix: bad first time raises BadPeer instead of TypeError

---
 saltchannel/util/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index 76305f3..dede2b9 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -47,7 +47,7 @@ class NullTimeChecker(TimeChecker):
     """Reports first time. Should be 0 or 1."""
     def report_first_time(self, time):
         if time not in [0,1]:
-            raise BadPeer("bad first time, " + time)
+            raise BadPeer("bad first time, " + str(time))
 
     """Checks 'time' against this object's clock."""
     def check_time(self, time): pass
-- 
2.43.0


From dfdf46a2a3394d55a3672673f6dbba4637a14fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:15 +0000
Subject: [PATCH 06/18] fix: bad session key size raises ValueError instead of
 TypeError

---
 saltchannel/v2/encrypted_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index fba49ba..c454e41 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -44,7 +44,7 @@ class EncryptedChannelV2(ByteChannel):
         self.saltlib = SaltLib().getLib()  # refactor to self.salt ?
 
         if len(key) != self.saltlib.crypto_box_SECRETKEYBYTES:
-            raise ValueError("bad key size, should be " + self.saltlib.crypto_box_SECRETKEYBYTES)
+            raise ValueError("bad key size, should be " + str(self.saltlib.crypto_box_SECRETKEYBYTES))
 
         self.key = key
         self.channel = channel
-- 
2.43.0


From f9070f518d29404f46a676e66ab2da54ed84a11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:35 +0000
Subject: [PATCH 07/18] fix: SaltLib.getLib() returned None for a specific
 library type

and gave up on LIB_TYPE_BEST as soon as the first library was unavailable.
---
 saltchannel/saltlib/saltlib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 8f8d401..bd0e37d 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -41,10 +41,9 @@ class SaltLib(metaclass=Singleton):
             for t, api in sorted(SaltLib.lib_map.items()):
                 if api.isAvailable():
                     return api
-                else:
-                    raise NoSuchLibException
-            else:
-                return SaltLib.lib_map[lib_type]
+            raise NoSuchLibException
+        else:
+            return SaltLib.lib_map[lib_type.value]
 
     @staticmethod
     def random_bytes(n):
-- 
2.43.0


From 8a149a99c295feef8b59142609968d478e76f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:37 +0000
Subject: [PATCH 08/18] fix: SaltLibNative.randombytes() passed the length as
 buffer pointer (crash)

---
 saltchannel/saltlib/saltlib_native.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index d4c17ee..8c60cd3 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -172,4 +172,6 @@ class SaltLibNative(SaltLibBase):
 
 
     def randombytes(self, n):
-        return sodium.randombytes(n)
\ No newline at end of file
+        buf = ctypes.create_string_buffer(n)
+        sodium.randombytes(buf, ctypes.c_ulonglong(n))
+        return buf.raw
\ No newline at end of file
-- 
2.43.0


From 718edcf8888c0ee24f7b32566db5911f59b1eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:06 +0000
Subject: [PATCH 09/18] fix: server answers A1 for a foreign public key with
 NoSuchServer

AddressType was read through the attribute that returns bytes, so the
comparison with ADDRESS_TYPE_PUBKEY was never true and every address got
the protocol list. Example session 2 asked for a key the server does not
have and relied on this.
---
 saltchannel/dev/example_session2.py   | 4 ++--
 saltchannel/dev/example_session2_a.py | 4 ++--
 saltchannel/v2/salt_server_session.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/saltchannel/dev/example_session2.py b/saltchannel/dev/example_session2.py
index f1b165c..fd39e42 100644
--- a/saltchannel/dev/example_session2.py
+++ b/saltchannel/dev/example_session2.py
@@ -58,7 +58,7 @@ class ExampleSession(Session):
         cs = A1ClientSession(channel)
         cs.a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
         cs.a1.data.AddressSize = 32
-        cs.a1.Address = b'\x08' * 32  # pubkey is filled with 0x08
+        cs.a1.Address = self.server_sig_keypair.pub
 
         print("\n ----------------------- client <--> server --------------------------\n")
         cs.do_a1a2_sync()
@@ -69,7 +69,7 @@ class ExampleSession(Session):
         print("An A1-A2 session; one 'prot' with P1='{}' and P2='{}'."
               .format(bytes(cs.a2.Prot[0].P1), bytes(cs.a2.Prot[0].P2)))
         print("The *pubkey* type of address (AddressType 1) is used in A1.")
-        print("As a simple example, the public key consists of 32 bytes, all set to 0x08.")
+        print("The public key is the signature key of the server.")
 
         cnt_read = channel.counter_read  # it's possible with MitmChannel instances only!
         cnt_write = channel.counter_write  # it's possible with MitmChannel instances only!
diff --git a/saltchannel/dev/example_session2_a.py b/saltchannel/dev/example_session2_a.py
index 51c4c4f..ef068b2 100644
--- a/saltchannel/dev/example_session2_a.py
+++ b/saltchannel/dev/example_session2_a.py
@@ -60,7 +60,7 @@ class ExampleSessionA(SessionA):
         cs = A1ClientSession(channel)
         cs.a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
         cs.a1.data.AddressSize = 32
-        cs.a1.Address = b'\x08' * 32  # pubkey is filled with 0x08
+        cs.a1.Address = self.server_sig_keypair.pub
 
         print("\n ----------------------- client <--> server --------------------------\n")
         await cs.do_a1a2()
@@ -71,7 +71,7 @@ class ExampleSessionA(SessionA):
         print("An A1-A2 session; one 'prot' with P1='{}' and P2='{}'."
               .format(bytes(cs.a2.Prot[0].P1), bytes(cs.a2.Prot[0].P2)))
         print("The *pubkey* type of address (AddressType 1) is used in A1.")
-        print("As a simple example, the public key consists of 32 bytes, all set to 0x08.")
+        print("The public key is the signature key of the server.")
 
         cnt_read = channel.counter_read  # it's possible with MitmChannel instances only!
         cnt_write = channel.counter_write  # it's possible with MitmChannel instances only!
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index f35532a..5d4753e 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -67,7 +67,7 @@ class SaltServerSession(metaclass=util.Syncizer):
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
-        if a1.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
+        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
             a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
         elif self.a2:
             a2 = self.a2  # use injected a2
-- 
2.43.0


From 04a6c12922b6caf535a692aa13f8f5e6d6197d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:09 +0000
Subject: [PATCH 10/18] fix: client honours wanted_server_sig_key

It was stored but never used: M1 did not ask for the wanted server and a
handshake completed with any other one.
---
 saltchannel/v2/salt_client_session.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 5718722..b43a617 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -56,7 +56,11 @@ class SaltClientSession(metaclass=util.Syncizer):
     async def do_m1(self):
         """Creates and writes M1 message."""
         self.m1 = packets.M1Packet()
+        if self.wanted_server_sig_key:
+            self.m1.data.Header.ServerSigKeyIncluded = 1
         self.m1.create_opt_fields()
+        if self.wanted_server_sig_key:
+            self.m1.ServerSigKey = self.wanted_server_sig_key
         self.m1.data.Time = self.time_keeper.get_first_time()
         self.m1.ClientEncKey = self.enc_keypair.pub
 
@@ -102,6 +106,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     def validate_signature1(self):
         """Validates M3/Signature1."""
+        if self.wanted_server_sig_key and self.m3.ServerSigKey != self.wanted_server_sig_key:
+            raise saltchannel.exceptions.BadPeer("unexpected server signature key")
         try:
             self.saltlib.sign_open(b''.join([self.m3.Signature1, packets.M3Packet.SIG1_PREFIX,
                                             self.m1_hash, self.m2_hash]), self.m3.ServerSigKey)
-- 
2.43.0


From 9313ff38a5e31744c060be08d8aa5e29da53f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:11 +0000
Subject: [PATCH 11/18] fix: do not use one MultiAppPacket for more than 65535
 messages

The 16-bit Count field wrapped around and messages were lost.
---
 saltchannel/v2/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 35cf9f0..ed9c5fd 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -342,7 +342,7 @@ class MultiAppPacket(Packet):
 
     @staticmethod
     def should_use(msgs):
-        return False if len(msgs) < 2 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
+        return False if not 2 <= len(msgs) <= MultiAppPacket.MAX_SIZE or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
 
 # leave here for now
 class TTPacket(Packet):
-- 
2.43.0


From 672231b92fee2fc32ec6512f74768bc896d92f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 12/18] fix: M3 of wrong size raises BadPeer instead of
 AssertionError

(and is rejected under python -O too)
---
 saltchannel/v2/salt_client_session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index b43a617..d780991 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -88,7 +88,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     async def do_m3(self):
         chunk = await self.enc_channel.read()
-        assert(len(chunk) == 2+4+32+64)
+        if len(chunk) != 2+4+32+64:
+            raise saltchannel.exceptions.BadPeer("bad M3 packet size: ", len(chunk))
         self.m3 = packets.M3Packet(src_buf=chunk)
         self.time_checker.check_time(self.m3.data.Time)
 
-- 
2.43.0


From 329317f85ef1086d898fd7e286c51583470ae6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:16 +0000
Subject: [PATCH 13/18] fix: AsyncioChannel raises ComException on end of
 stream and transport errors

like SocketChannel; IncompleteReadError, ValueError (negative length),
struct.error and OSError leaked to the caller.
---
 saltchannel/channel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index c1e0431..89d22da 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -44,12 +44,18 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
         self.writer = writer
 
     async def read(self):
-        return await self.reader.read_msg()
+        try:
+            return await self.reader.read_msg()
+        except Exception as e:
+            raise ComException(e)
 
     async def write(self, msg, *args, is_last=False):
-        for m in (msg,) + args:
-            self.writer.write_msg(m)
-        await self.writer.drain()
+        try:
+            for m in (msg,) + args:
+                self.writer.write_msg(m)
+            await self.writer.drain()
+        except Exception as e:
+            raise ComException(e)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From 25489f3e73d7e91e9efca1936003759d03454fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:30 +0000
Subject: [PATCH 14/18] fix: a peer encryption key refused by the crypto
 library raises BadPeer

An all-zero (low order) key in M1 or M2 made the handshake end in
ValueError or nacl's RuntimeError.
---
 saltchannel/saltlib/saltlib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index bd0e37d..1c807ee 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -8,6 +8,7 @@ from .saltlib_pynacl import SaltLibPyNaCl
 from .saltlib_tweetnaclext import SaltLibTweetNaClExt
 from .exceptions import NoSuchLibException
 
+from ..exceptions import BadPeer
 from ..util.key_pair import KeyPair
 
 class LibType(Enum):
@@ -77,7 +78,10 @@ class SaltLib(metaclass=Singleton):
             raise ValueError("bad length of my_priv: ", len(my_sk))
         if len(peer_pk) != self.api.crypto_box_PUBLICKEYBYTES:
             raise ValueError("bad length of peer_pub: ", len(peer_pk))
-        return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        try:
+            return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        except Exception as e:  # e.g. a low order point
+            raise BadPeer("bad public key of peer", e)
 
     def encrypt(self, key, nonce, msg):
         return self.api.crypto_box_afternm(msg, nonce, key)
-- 
2.43.0


From 2d87c9335c5b97313955395c51438688e41253d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:15 +0000
Subject: [PATCH 15/18] fix: time keepers and checkers of an application are
 not shared between sessions

---
 saltchannel/util/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index dede2b9..d2f456f 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -3,7 +3,7 @@ from . import SingletonABCMeta
 from ..exceptions import BadPeer
 
 
-class TimeKeeper(metaclass=SingletonABCMeta):
+class TimeKeeper(metaclass=ABCMeta):
     """Keeps time; relative time since first message sent. Measure in milliseconds."""
 
     """Call this first, must return 1 when timing is supported and 0 if not."""
@@ -15,7 +15,7 @@ class TimeKeeper(metaclass=SingletonABCMeta):
     def get_time(self): pass
 
 
-class TimeChecker(metaclass=SingletonABCMeta):
+class TimeChecker(metaclass=ABCMeta):
     """"""
 
     """Reports first time. Should be 0 or 1."""
@@ -27,7 +27,7 @@ class TimeChecker(metaclass=SingletonABCMeta):
     def check_time(self, time): pass
 
 
-class NullTimeKeeper(TimeKeeper):
+class NullTimeKeeper(TimeKeeper, metaclass=SingletonABCMeta):
     """A TimeKeeper implementation that does not keep time.
     get_first_time() and get_time() always returns 0.
     """
@@ -41,7 +41,7 @@ class NullTimeKeeper(TimeKeeper):
         return 0
 
 
-class NullTimeChecker(TimeChecker):
+class NullTimeChecker(TimeChecker, metaclass=SingletonABCMeta):
     """TimeChecker that accepts all time values."""
 
     """Reports first time. Should be 0 or 1."""
-- 
2.43.0


From ab8715f434172ec912c71d3bdebf0837ef13007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:35 +0000
Subject: [PATCH 16/18] fix: tunnel channels: write failed for every message,
 read and write were not coroutines

---
 saltchannel/dev/tunnel.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index 002e3a6..ce1fd1a 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -14,11 +14,11 @@ class Tunnel:
     @staticmethod
     def _channel_factory(in_queue, out_queue):
         class _Channel(ByteChannel):
-            def read(self):
+            async def read(self):
                 return in_queue.popleft()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            async def write(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     out_queue.append(m)
         return _Channel()
 
@@ -32,10 +32,10 @@ class TunnelMP:
     @staticmethod
     def _channel_factory(endpoint):
         class _Channel(ByteChannel):
-            def read(self):
+            async def read(self):
                 return endpoint.recv_bytes()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            async def write(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     endpoint.send_bytes(m)
         return _Channel()
\ No newline at end of file
-- 
2.43.0


From f47e547ffa29571822c42c0de18047a428378b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:58 +0000
Subject: [PATCH 17/18] fix: ClientServerPairA.run_sessions failed on Python
 3.10 and later (asyncio.wait has no loop argument)

---
 saltchannel/dev/client_server_a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 0a2dbe7..68724b5 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -97,7 +97,7 @@ class ClientServerPairA:
             loop.run_in_executor(ProcessPoolExecutor(max_workers=self.client_num+1), self._spawn_client_process))
             for x in range(self.client_num)]
         while futures:
-            done, futures = await asyncio.wait(futures, loop=loop, return_when=asyncio.ALL_COMPLETED)
+            done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
             for f in done:
                 await f
 
-- 
2.43.0


From 8a2456ea2f871591825b0850181f292152ef3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:23 +0000
Subject: [PATCH 18/18] fix: A2Packet.Prot can be assigned

Every call of _opt_factory makes a new entry class, so ctypes refused the
entries of any other packet with TypeError. Copy the entries one by one.
---
 saltchannel/a1a2/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index b109c50..9cd07b3 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -172,4 +172,6 @@ class A2Packet(Packet):
     @Prot.setter
     def Prot(self, value):
         self.opt = self._opt_factory(body=value, prot_count=len(value))
-        self.opt.Prot = value
+        for dst, src in zip(self.opt.Prot, value):
+            dst.P1 = src.P1
+            dst.P2 = src.P2
-- 
2.43.0

