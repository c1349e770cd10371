From e203d3e720095cdf48625993a90f805e4e1c783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:25 +0000
Subject: [PATCH 01/27] fix: NullTimeChecker reports a bad first time as
 BadPeer, not TypeError

---
 saltchannel/util/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index 76305f3..dede2b9 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -47,7 +47,7 @@ class NullTimeChecker(TimeChecker):
     """Reports first time. Should be 0 or 1."""
     def report_first_time(self, time):
         if time not in [0,1]:
-            raise BadPeer("bad first time, " + time)
+            raise BadPeer("bad first time, " + str(time))
 
     """Checks 'time' against this object's clock."""
     def check_time(self, time): pass
-- 
2.43.0


From b1f513ce269fafbbf1c12b8870aae3f8cf73bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:48 +0000
Subject: [PATCH 02/27] fix: reject empty and truncated packets instead of
 zero-padding them

---
 saltchannel/a1a2/packets.py |  4 ++--
 saltchannel/util/packets.py |  5 +++--
 saltchannel/v2/packets.py   | 14 +++++++-------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 3ec6e49..9b0bb3d 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -35,7 +35,7 @@ class A1Packet(Packet):
         self.data.Header.PacketType = type(self).TYPE
         self.data.AddressType = type(self).ADDRESS_TYPE_ANY
         self.data.AddressSize = 0
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -132,7 +132,7 @@ class A2Packet(Packet):
             self.opt.Prot[0].P1 = util.cbytes(self.SC2_PROT_STRING)
             self.opt.Prot[0].P2 = util.cbytes(self.UNSPECIFIED_PROT_STRING)
             return
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
diff --git a/saltchannel/util/packets.py b/saltchannel/util/packets.py
index 47795cb..4b41bca 100644
--- a/saltchannel/util/packets.py
+++ b/saltchannel/util/packets.py
@@ -33,8 +33,9 @@ class SmartStructure(LittleEndianStructure):
         super().__init__(**values)
 
     def from_bytes(self, src):
-        if src:
-            memmove(addressof(self), src, min(len(src), sizeof(self)))
+        if len(src) < sizeof(self):
+            raise BadPeer("packet is too short: ", len(src))
+        memmove(addressof(self), src, sizeof(self))
 
     @property
     def size(self):
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a9b3a0a..52f038a 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -39,7 +39,7 @@ class M1Packet(Packet):
         self.data = M1Packet._M1PacketBody()
         self.data.Header.PacketType = type(self).TYPE
         self.opt = self._opt_factory()
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -93,7 +93,7 @@ class M2Packet(Packet):
         super().__init__()
         self.data = M2Packet._M2PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -127,7 +127,7 @@ class M3Packet(Packet):
         super().__init__()
         self.data = M3Packet._M3PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -152,7 +152,7 @@ class M4Packet(Packet):
         super().__init__()
         self.data = M4Packet._M4PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -187,7 +187,7 @@ class EncryptedPacket(Packet):
         super().__init__()
         self.data = EncryptedPacket._EncryptedPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -240,7 +240,7 @@ class AppPacket(Packet):
         super().__init__()
         self.data = AppPacket._AppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
@@ -319,7 +319,7 @@ class MultiAppPacket(Packet):
         super().__init__()
         self.data = MultiAppPacket._MultiAppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-- 
2.43.0


From 588b1dea3d350799171c7fa0cb50c4f271328f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:50 +0000
Subject: [PATCH 03/27] fix: reject a MultiAppPacket whose messages are cut
 short

---
 saltchannel/v2/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 52f038a..6c8fae9 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -294,8 +294,12 @@ class MultiAppPacket(Packet):
                 # deserialize manually now
                 cnt = offset = 0
                 while cnt < count:
+                    if len(src) - offset < sizeof(c_uint16):
+                        raise BadPeer("truncated MultiAppPacket: message length is missing")
                     length_field = c_uint16.from_buffer_copy(src, offset)
                     offset += sizeof(c_uint16)
+                    if len(src) - offset < length_field.value:
+                        raise BadPeer("truncated MultiAppPacket: message is too short")
                     self.Message.append(src[offset:offset+length_field.value])
                     offset += length_field.value
                     cnt += 1
-- 
2.43.0


From a6ea99cbeade9379549346dcd42927524a823603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:52 +0000
Subject: [PATCH 04/27] fix: client reports a wrongly sized M3 as BadPeer, not
 AssertionError

---
 saltchannel/v2/salt_client_session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 5718722..bcd8077 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -84,7 +84,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     async def do_m3(self):
         chunk = await self.enc_channel.read()
-        assert(len(chunk) == 2+4+32+64)
+        if len(chunk) != 2+4+32+64:
+            raise saltchannel.exceptions.BadPeer("bad M3 size: ", len(chunk))
         self.m3 = packets.M3Packet(src_buf=chunk)
         self.time_checker.check_time(self.m3.data.Time)
 
-- 
2.43.0


From d5f7839dec890e32c3ead559abe95f704abe81ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:55 +0000
Subject: [PATCH 05/27] fix: A2 protocol strings are matched as ASCII bytes, up
 to their last byte

---
 saltchannel/a1a2/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 9b0bb3d..7803338 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -103,13 +103,13 @@ class A2Packet(Packet):
         class _A2Prot(SmartStructure):
             _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
                         ("P2", c_uint8 * A2Packet.P_SIZE)]
-            proto_re = re.compile(r'^[-./\w]+$')  # used for p-string validation
+            proto_re = re.compile(rb'[-./\w]+')  # used for p-string validation
 
             def validate(self):
                 if len(self.P1) != A2Packet.P_SIZE or len(self.P2) != A2Packet.P_SIZE:
                     return False
-                return True if (type(self).proto_re.match(bytes(self.P1).decode()) and
-                                type(self).proto_re.match(bytes(self.P2).decode())) else False
+                return True if (type(self).proto_re.fullmatch(bytes(self.P1)) and
+                                type(self).proto_re.fullmatch(bytes(self.P2))) else False
 
         class _A2PacketBodyOpt(SmartStructure):
             # A2Packet opt/variable fields
-- 
2.43.0


From dfcec4d7d32c2d0acd4b83559ca58c9b32a89400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 06/27] fix: server answers an A1 for another public key with
 NoSuchServer

---
 saltchannel/dev/example_session2.py   | 4 +++-
 saltchannel/dev/example_session2_a.py | 4 +++-
 saltchannel/v2/salt_server_session.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/saltchannel/dev/example_session2.py b/saltchannel/dev/example_session2.py
index f1b165c..caed638 100644
--- a/saltchannel/dev/example_session2.py
+++ b/saltchannel/dev/example_session2.py
@@ -13,6 +13,7 @@ from saltchannel.a1a2.a1_client_session import A1ClientSession
 
 from saltchannel.v2.salt_server_session import SaltServerSession
 from saltchannel.util.crypto_test_data import CryptoTestData
+from saltchannel.util.key_pair import KeyPair
 from saltchannel.dev.client_server import MpClientServerPair
 from .client_server import Session
 from saltchannel.exceptions  import ComException
@@ -29,7 +30,8 @@ SESSION_NUM = 1
 class ExampleSession(Session):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        # the address the example client asks for
+        self.server_sig_keypair = KeyPair(sec=CryptoTestData.bSig.sec, pub=b'\x08' * 32)
         self.server_enc_keypair = CryptoTestData.bEnc
 
     def server_session(self, channel):
diff --git a/saltchannel/dev/example_session2_a.py b/saltchannel/dev/example_session2_a.py
index 51c4c4f..bf9462a 100644
--- a/saltchannel/dev/example_session2_a.py
+++ b/saltchannel/dev/example_session2_a.py
@@ -15,6 +15,7 @@ from saltchannel.channel  import AsyncioChannel
 
 from saltchannel.v2.salt_server_session import SaltServerSession
 from saltchannel.util.crypto_test_data import CryptoTestData
+from saltchannel.util.key_pair import KeyPair
 from saltchannel.a1a2.a1_client_session import A1ClientSession
 
 # Log all to stdout
@@ -29,7 +30,8 @@ CLIENT_NUM = 1
 class ExampleSessionA(SessionA):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        # the address the example client asks for
+        self.server_sig_keypair = KeyPair(sec=CryptoTestData.bSig.sec, pub=b'\x08' * 32)
         self.server_enc_keypair = CryptoTestData.bEnc
 
     async def server_session(self, reader, writer):
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index f35532a..5d4753e 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -67,7 +67,7 @@ class SaltServerSession(metaclass=util.Syncizer):
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
-        if a1.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
+        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
             a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
         elif self.a2:
             a2 = self.a2  # use injected a2
-- 
2.43.0


From 3c8e4ccee9f241abeb46ae6cc74a5e81286790cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:30 +0000
Subject: [PATCH 07/27] fix: client requests and requires wanted_server_sig_key
 when it is set

---
 saltchannel/v2/salt_client_session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index bcd8077..3ea8e71 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -56,7 +56,10 @@ class SaltClientSession(metaclass=util.Syncizer):
     async def do_m1(self):
         """Creates and writes M1 message."""
         self.m1 = packets.M1Packet()
+        self.m1.data.Header.ServerSigKeyIncluded = 1 if self.wanted_server_sig_key else 0
         self.m1.create_opt_fields()
+        if self.wanted_server_sig_key:
+            self.m1.ServerSigKey = self.wanted_server_sig_key
         self.m1.data.Time = self.time_keeper.get_first_time()
         self.m1.ClientEncKey = self.enc_keypair.pub
 
@@ -103,6 +106,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     def validate_signature1(self):
         """Validates M3/Signature1."""
+        if self.wanted_server_sig_key and self.m3.ServerSigKey != self.wanted_server_sig_key:
+            raise saltchannel.exceptions.BadPeer("unexpected server signature key")
         try:
             self.saltlib.sign_open(b''.join([self.m3.Signature1, packets.M3Packet.SIG1_PREFIX,
                                             self.m1_hash, self.m2_hash]), self.m3.ServerSigKey)
-- 
2.43.0


From 55397a685e9ade42a45da3da7e9b3083c76caacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:33 +0000
Subject: [PATCH 08/27] fix: do not use MultiAppPacket for more messages than
 Count can hold

---
 saltchannel/v2/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 6c8fae9..a947701 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -342,6 +342,8 @@ class MultiAppPacket(Packet):
 
     @staticmethod
     def should_use(msgs):
+        if len(msgs) > MultiAppPacket.MAX_SIZE:  # does not fit the Count field
+            return False
         return False if len(msgs) < 2 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
 
 # leave here for now
-- 
2.43.0


From 8164ec37018e0a95166c6a9b94516dd80cdeea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:36 +0000
Subject: [PATCH 09/27] fix: SaltLib.getLib honours the requested type and
 skips unavailable libraries

---
 saltchannel/saltlib/saltlib.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 8f8d401..0b56537 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -38,13 +38,13 @@ class SaltLib(metaclass=Singleton):
     def getLib(lib_type=LibType.LIB_TYPE_BEST):
         SaltLib.lib_type = lib_type
         if lib_type == LibType.LIB_TYPE_BEST:
-            for t, api in sorted(SaltLib.lib_map.items()):
-                if api.isAvailable():
-                    return api
-                else:
-                    raise NoSuchLibException
-            else:
-                return SaltLib.lib_map[lib_type]
+            candidates = [api for t, api in sorted(SaltLib.lib_map.items())]
+        else:
+            candidates = [SaltLib.lib_map[lib_type.value]]
+        for api in candidates:
+            if api.isAvailable():
+                return api
+        raise NoSuchLibException
 
     @staticmethod
     def random_bytes(n):
-- 
2.43.0


From 660abdd36a7a522a0df456db00585113cba2633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:38 +0000
Subject: [PATCH 10/27] fix: SaltLibNative.randombytes returns n random bytes
 instead of crashing

---
 saltchannel/saltlib/saltlib_native.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index d4c17ee..cd759ae 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -172,4 +172,6 @@ class SaltLibNative(SaltLibBase):
 
 
     def randombytes(self, n):
-        return sodium.randombytes(n)
\ No newline at end of file
+        buf = ctypes.create_string_buffer(n)
+        sodium.randombytes_buf(buf, ctypes.c_size_t(n))
+        return buf.raw
\ No newline at end of file
-- 
2.43.0


From 481cbb6d308bac40ed18ac44c12f5dba926d770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:04 +0000
Subject: [PATCH 11/27] fix: only the Null time keeper and checker are
 singletons

---
 saltchannel/util/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index dede2b9..d2f456f 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -3,7 +3,7 @@ from . import SingletonABCMeta
 from ..exceptions import BadPeer
 
 
-class TimeKeeper(metaclass=SingletonABCMeta):
+class TimeKeeper(metaclass=ABCMeta):
     """Keeps time; relative time since first message sent. Measure in milliseconds."""
 
     """Call this first, must return 1 when timing is supported and 0 if not."""
@@ -15,7 +15,7 @@ class TimeKeeper(metaclass=SingletonABCMeta):
     def get_time(self): pass
 
 
-class TimeChecker(metaclass=SingletonABCMeta):
+class TimeChecker(metaclass=ABCMeta):
     """"""
 
     """Reports first time. Should be 0 or 1."""
@@ -27,7 +27,7 @@ class TimeChecker(metaclass=SingletonABCMeta):
     def check_time(self, time): pass
 
 
-class NullTimeKeeper(TimeKeeper):
+class NullTimeKeeper(TimeKeeper, metaclass=SingletonABCMeta):
     """A TimeKeeper implementation that does not keep time.
     get_first_time() and get_time() always returns 0.
     """
@@ -41,7 +41,7 @@ class NullTimeKeeper(TimeKeeper):
         return 0
 
 
-class NullTimeChecker(TimeChecker):
+class NullTimeChecker(TimeChecker, metaclass=SingletonABCMeta):
     """TimeChecker that accepts all time values."""
 
     """Reports first time. Should be 0 or 1."""
-- 
2.43.0


From e47800b31a21b2308a0f2d4e2312d197c6abaa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:07 +0000
Subject: [PATCH 12/27] fix: server sets client_sig_key only after the client's
 signature is verified

---
 saltchannel/v2/salt_server_session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index 5d4753e..cd9ae98 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -64,6 +64,7 @@ class SaltServerSession(metaclass=util.Syncizer):
         await self.do_m3()
         await self.do_m4()
         self.validate_signature2()
+        self.client_sig_key = self.m4.ClientSigKey
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
@@ -133,7 +134,6 @@ class SaltServerSession(metaclass=util.Syncizer):
     async def do_m4(self):
         self.m4 = M4Packet(src_buf=await self.enc_channel.read())
         self.time_checker.check_time(self.m4.data.Time)
-        self.client_sig_key = self.m4.ClientSigKey
 
     def create_encrypted_channel(self):
         self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
-- 
2.43.0


From 7a84473de428e94b7747b82805047d375412a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 13/27] fix: an unusable peer encryption key is reported as
 BadPeer

---
 saltchannel/saltlib/saltlib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 0b56537..b369656 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -8,6 +8,7 @@ from .saltlib_pynacl import SaltLibPyNaCl
 from .saltlib_tweetnaclext import SaltLibTweetNaClExt
 from .exceptions import NoSuchLibException
 
+from ..exceptions import BadPeer
 from ..util.key_pair import KeyPair
 
 class LibType(Enum):
@@ -78,7 +79,10 @@ class SaltLib(metaclass=Singleton):
             raise ValueError("bad length of my_priv: ", len(my_sk))
         if len(peer_pk) != self.api.crypto_box_PUBLICKEYBYTES:
             raise ValueError("bad length of peer_pub: ", len(peer_pk))
-        return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        try:
+            return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        except Exception as e:
+            raise BadPeer("unusable peer public key", e)
 
     def encrypt(self, key, nonce, msg):
         return self.api.crypto_box_afternm(msg, nonce, key)
-- 
2.43.0


From 09d6796c4c75819e70e492978752dfb126050a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 14/27] fix: EncryptedChannelV2 read_sync and write_sync do the
 work instead of nothing

---
 saltchannel/v2/encrypted_channel_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index fba49ba..cf271ca 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -1,5 +1,6 @@
 from enum import Enum
 
+import saltchannel.util as util
 from ..saltlib import SaltLib
 from ..saltlib import BadEncryptedDataException, BadSignatureException
 from ..channel import ByteChannel
@@ -32,7 +33,7 @@ class Nonce:
         return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])
 
 
-class EncryptedChannelV2(ByteChannel):
+class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
     """An implementation of an encrypted channel using a shared symmetric session key.
     The read/write methods throws ComException for low-level IO errors
     and BadPeer if the data format is not OK or if the data is not
-- 
2.43.0


From e4235daf6a8635a9ad7003036b432dc733739d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:15 +0000
Subject: [PATCH 15/27] fix: EncryptedChannelV2 reports a bad key size as
 ValueError

---
 saltchannel/v2/encrypted_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index cf271ca..6a409a3 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -45,7 +45,7 @@ class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
         self.saltlib = SaltLib().getLib()  # refactor to self.salt ?
 
         if len(key) != self.saltlib.crypto_box_SECRETKEYBYTES:
-            raise ValueError("bad key size, should be " + self.saltlib.crypto_box_SECRETKEYBYTES)
+            raise ValueError("bad key size, should be " + str(self.saltlib.crypto_box_SECRETKEYBYTES))
 
         self.key = key
         self.channel = channel
-- 
2.43.0


From 577a6cd6260090ab377a30fae8eb80bf35aafe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:17 +0000
Subject: [PATCH 16/27] fix: client sessions can be created in any thread

---
 saltchannel/a1a2/a1_client_session.py | 4 ++--
 saltchannel/v2/salt_client_session.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/a1_client_session.py b/saltchannel/a1a2/a1_client_session.py
index 467c4c5..b81ca49 100644
--- a/saltchannel/a1a2/a1_client_session.py
+++ b/saltchannel/a1a2/a1_client_session.py
@@ -1,11 +1,11 @@
-import asyncio
+import saltchannel.util as util
 from . import packets
 
 
 class A1ClientSession:
     """"""
     def __init__(self, channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.channel = channel
         self.a1 = packets.A1Packet()
diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 3ea8e71..ce06e41 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -15,7 +15,7 @@ class SaltClientSession(metaclass=util.Syncizer):
     Asyncio-based implementation
     """
     def __init__(self, sig_keypair, clear_channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.saltlib = SaltLib()
         self.sig_keypair = sig_keypair
-- 
2.43.0


From 83e5517882968535697e29bf121c749a69458afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:37 +0000
Subject: [PATCH 17/27] fix: AsyncioChannel reports connection failures as
 ComException

---
 saltchannel/channel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index c1e0431..89d22da 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -44,12 +44,18 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
         self.writer = writer
 
     async def read(self):
-        return await self.reader.read_msg()
+        try:
+            return await self.reader.read_msg()
+        except Exception as e:
+            raise ComException(e)
 
     async def write(self, msg, *args, is_last=False):
-        for m in (msg,) + args:
-            self.writer.write_msg(m)
-        await self.writer.drain()
+        try:
+            for m in (msg,) + args:
+                self.writer.write_msg(m)
+            await self.writer.drain()
+        except Exception as e:
+            raise ComException(e)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From e4a035ac6f87b10ce1bdbd2911fc266244531a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 18/27] fix: MitmChannel log buffering keeps the records until
 they are flushed

---
 saltchannel/dev/mitm_channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/saltchannel/dev/mitm_channel.py b/saltchannel/dev/mitm_channel.py
index 36ee713..ab6762b 100644
--- a/saltchannel/dev/mitm_channel.py
+++ b/saltchannel/dev/mitm_channel.py
@@ -45,8 +45,8 @@ class MitmChannel(ByteChannel):
                 self.log.info('{:0.6f} +{:0.6f}, {:s}, len(msg):{:d}, msg: b\'{:s}\''
                             .format(log_record.time, log_record.time-self.time0, log_record.type,
                                     len(log_record.data), log_record.data.hex()))
-            else:
-                self.queue.append(log_record)
+        else:
+            self.queue.append(log_record)
         self.time0 = log_record.time
 
     async def read(self):
-- 
2.43.0


From 6940097f7cbdc470885b82215147c994197e5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 19/27] fix: Tunnel channels follow the ByteChannel interface
 and accept messages

---
 saltchannel/dev/tunnel.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index 002e3a6..e5fec41 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -14,11 +14,17 @@ class Tunnel:
     @staticmethod
     def _channel_factory(in_queue, out_queue):
         class _Channel(ByteChannel):
-            def read(self):
+            async def read(self):
+                return self.read_sync()
+
+            async def write(self, msg, *args, is_last=False):
+                self.write_sync(msg, *args, is_last=is_last)
+
+            def read_sync(self):
                 return in_queue.popleft()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            def write_sync(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     out_queue.append(m)
         return _Channel()
 
@@ -32,10 +38,16 @@ class TunnelMP:
     @staticmethod
     def _channel_factory(endpoint):
         class _Channel(ByteChannel):
-            def read(self):
+            async def read(self):
+                return self.read_sync()
+
+            async def write(self, msg, *args, is_last=False):
+                self.write_sync(msg, *args, is_last=is_last)
+
+            def read_sync(self):
                 return endpoint.recv_bytes()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            def write_sync(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     endpoint.send_bytes(m)
         return _Channel()
\ No newline at end of file
-- 
2.43.0


From ababe668244ab0950d1e22b7d2ced8f8380baffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 20/27] fix: a missing PyNaCl or tweetnacl package only makes
 that back end unavailable

---
 saltchannel/saltlib/saltlib_pynacl.py       | 13 ++++++++-----
 saltchannel/saltlib/saltlib_tweetnaclext.py |  7 +++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/saltchannel/saltlib/saltlib_pynacl.py b/saltchannel/saltlib/saltlib_pynacl.py
index 747f8b3..c4b8916 100644
--- a/saltchannel/saltlib/saltlib_pynacl.py
+++ b/saltchannel/saltlib/saltlib_pynacl.py
@@ -1,10 +1,13 @@
 # -*- coding: utf-8 -*-
 
-from nacl import bindings
+try:
+    from nacl import bindings
 
-from nacl import exceptions as exc
-from nacl._sodium import ffi, lib
-from nacl.exceptions import ensure
+    from nacl import exceptions as exc
+    from nacl._sodium import ffi, lib
+    from nacl.exceptions import ensure
+except ImportError:
+    bindings = None
 
 from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
@@ -13,7 +16,7 @@ class SaltLibPyNaCl(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return True
+        return bindings is not None
 
     # ret: pk, sk
     def crypto_sign_keypair_not_random(self, seed):
diff --git a/saltchannel/saltlib/saltlib_tweetnaclext.py b/saltchannel/saltlib/saltlib_tweetnaclext.py
index d224307..96d676a 100644
--- a/saltchannel/saltlib/saltlib_tweetnaclext.py
+++ b/saltchannel/saltlib/saltlib_tweetnaclext.py
@@ -1,6 +1,9 @@
 # -*- coding: utf-8 -*-
 
-import tweetnacl.raw as tweetnacl
+try:
+    import tweetnacl.raw as tweetnacl
+except ImportError:
+    tweetnacl = None
 
 from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
@@ -9,7 +12,7 @@ class SaltLibTweetNaClExt(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return True
+        return tweetnacl is not None
 
     # ret: pk, sk
     def crypto_sign_keypair_not_random(self, seed):
-- 
2.43.0


From aa215bcad1d154f2493f5211cbb94fb03806ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:29 +0000
Subject: [PATCH 21/27] fix: packets can be built in several threads at once

ctypes may hand two threads two different types for the same c_uint8 array size, and assigning
a value of one to a field of the other raises TypeError.
---
 saltchannel/a1a2/packets.py  |  6 +++---
 saltchannel/util/__init__.py | 18 +++++++++++++++++-
 saltchannel/v2/packets.py    |  6 +++---
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 7803338..6ecf37f 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -26,7 +26,7 @@ class A1Packet(Packet):
 
         class _A1PacketBodyOpt(SmartStructure):
             # A1Packet opt/variable fields
-            _fields_ = [('Address', c_uint8 * address_field_len)]
+            _fields_ = [('Address', util.byte_array_type(address_field_len))]
         return _A1PacketBodyOpt()
 
     def __init__(self, src_buf=None):
@@ -101,8 +101,8 @@ class A2Packet(Packet):
             return Packet._EmptyBodyOpt()
 
         class _A2Prot(SmartStructure):
-            _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
-                        ("P2", c_uint8 * A2Packet.P_SIZE)]
+            _fields_ = [("P1", util.byte_array_type(A2Packet.P_SIZE)),
+                        ("P2", util.byte_array_type(A2Packet.P_SIZE))]
             proto_re = re.compile(rb'[-./\w]+')  # used for p-string validation
 
             def validate(self):
diff --git a/saltchannel/util/__init__.py b/saltchannel/util/__init__.py
index fcd992f..82d3aa0 100644
--- a/saltchannel/util/__init__.py
+++ b/saltchannel/util/__init__.py
@@ -1,13 +1,29 @@
 # -*- coding: utf-8 -*-
 
 import ctypes
+import threading
+import weakref
 from abc import ABCMeta
 import asyncio
 
+_array_types = weakref.WeakValueDictionary()
+_array_types_lock = threading.Lock()
+
+def byte_array_type(size):
+    """The c_uint8 array type of this size, the same object in every thread.
+
+    ctypes may create the type twice if two threads ask for it at once, and the two are not assignable.
+    """
+    with _array_types_lock:
+        array_type = _array_types.get(size)
+        if array_type is None:
+            array_type = _array_types[size] = ctypes.c_uint8 * size
+        return array_type
+
 def cbytes(src):
     """Convert bytes-like array to ctypes array of c_uint8."""
     #return (ctypes.c_uint8 * len(bytes(src)))(*list((bytes(src))))
-    return (ctypes.c_uint8 * len(bytes(src))).from_buffer_copy(src)
+    return byte_array_type(len(bytes(src))).from_buffer_copy(src)
 
 def force_event_loop(loop=None):
     try:
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a947701..837fad6 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -32,7 +32,7 @@ class M1Packet(Packet):
 
         class _M1PacketBodyOpt(SmartStructure):
             # M1 body opt fields
-            _fields_ = [('ServerSigKey', c_uint8 * (32 * body.Header.ServerSigKeyIncluded))]
+            _fields_ = [('ServerSigKey', util.byte_array_type(32 * body.Header.ServerSigKeyIncluded))]
         return _M1PacketBodyOpt()
 
     def __init__(self, src_buf=None):
@@ -180,7 +180,7 @@ class EncryptedPacket(Packet):
 
         class _EncryptedPacketBodyOpt(SmartStructure):
             # EncryptedPacket opt/variable fields
-            _fields_ = [('Body', c_uint8 * body_field_len)]
+            _fields_ = [('Body', util.byte_array_type(body_field_len))]
         return _EncryptedPacketBodyOpt()
 
     def __init__(self, src_buf=None):
@@ -233,7 +233,7 @@ class AppPacket(Packet):
 
         class _AppPacketBodyOpt(SmartStructure):
             # AppPacket opt/variable fields
-            _fields_ = [('Data', c_uint8 * data_field_len)]
+            _fields_ = [('Data', util.byte_array_type(data_field_len))]
         return _AppPacketBodyOpt()
 
     def __init__(self, src_buf=None, validate=True):
-- 
2.43.0


From 6586dcd9f48982aa7100bd502280024bf2132e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:13 +0000
Subject: [PATCH 22/27] fix: SaltLibPure boxes can be opened

---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index d5ba020..6bef58d 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -332,7 +332,7 @@ def crypto_secretbox_xsalsa20poly1305_tweet_open(m, c, d, n, k):
     crypto_stream_xsalsa20_tweet(x, 32, n, k)
     if crypto_onetimeauth_poly1305_tweet_verify(c[16:], c[32:], d - 32, x) != 0: return -1
     crypto_stream_xsalsa20_tweet_xor(m, c, d, n, k)
-    m[:] = 32*[u8()]
+    m[:32] = 32*[u8()]
     return 0
 
 
-- 
2.43.0


From 84c9ca82c995c333022746231bf790a980c3b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:13 +0000
Subject: [PATCH 23/27] fix: SaltLibPure can be instantiated and reports bad
 input with the library's exceptions

---
 saltchannel/saltlib/saltlib_pure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_pure.py b/saltchannel/saltlib/saltlib_pure.py
index 0297bf8..aea7f61 100644
--- a/saltchannel/saltlib/saltlib_pure.py
+++ b/saltchannel/saltlib/saltlib_pure.py
@@ -1,10 +1,12 @@
 # -*- coding: utf-8 -*-
+import os
 
 from .pure_pynacl import TypeEnum, integer, Int, IntArray
 from .pure_pynacl import tweetnacl
 from .pure_pynacl.tweetnacl import u8
 
 from .saltlib_base import SaltLibBase
+from .exceptions import BadSignatureException, BadEncryptedDataException
 
 class SaltLibPure(SaltLibBase):
 
@@ -92,4 +94,7 @@ class SaltLibPure(SaltLibBase):
             raise ValueError("invalid parameter")
         h = IntArray(u8, size=64)
         tweetnacl.crypto_hash_sha512_tweet(h, list(m), len(m))
-        return bytes(h)
\ No newline at end of file
+        return bytes(h)
+
+    def randombytes(self, n):
+        return os.urandom(n)
-- 
2.43.0


From 8b676fb1ecfc1b95ec081011155045605a730f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:13 +0000
Subject: [PATCH 24/27] fix: the asyncio client/server pair runs on Python 3.10
 and later

---
 saltchannel/dev/client_server_a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 0a2dbe7..68724b5 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -97,7 +97,7 @@ class ClientServerPairA:
             loop.run_in_executor(ProcessPoolExecutor(max_workers=self.client_num+1), self._spawn_client_process))
             for x in range(self.client_num)]
         while futures:
-            done, futures = await asyncio.wait(futures, loop=loop, return_when=asyncio.ALL_COMPLETED)
+            done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
             for f in done:
                 await f
 
-- 
2.43.0


From 9a61c0b46fc383f7081a764edd5ae14bac32f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:13 +0000
Subject: [PATCH 25/27] fix: a tunnel delivers the message as it was when it
 was written

---
 saltchannel/dev/tunnel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index e5fec41..aac5a3c 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -25,7 +25,7 @@ class Tunnel:
 
             def write_sync(self, msg, *args, is_last=False):
                 for m in (msg,) + args:
-                    out_queue.append(m)
+                    out_queue.append(bytes(m))
         return _Channel()
 
 
-- 
2.43.0


From efce12b71d440368bdb825b2c1207586f284cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:54 +0000
Subject: [PATCH 26/27] fix: SaltLibPure seals and opens messages of more than
 16 kB as NaCl does

---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index 6bef58d..d1f0c37 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -199,7 +199,7 @@ def crypto_stream_salsa20_tweet_xor(c, m, b, n, k):
         u = u32(1)
         for i in range(8, 16):
             u += u32(z[i])
-            z[i] = u
+            z[i] = u8(u)
             u >>= 8
         b -= 64
         c_off += 64
-- 
2.43.0


From 5132fbdf8b7dbc4093caf93885a71b9fa1327eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:16 +0000
Subject: [PATCH 27/27] fix: refuse signatures whose S is not reduced
 (pure-Python back end)

---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index d1f0c37..8c31810 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -927,6 +927,9 @@ def crypto_sign_ed25519_tweet_open(m, mlen, sm, n, pk):
     mlen = -1
     if n < 64: return -1
 
+    # S has to be reduced, or every signature has 15 more forms
+    if int.from_bytes(bytes(sm[32:64]), 'little') >= int.from_bytes(bytes(L), 'little'): return -1
+
     if unpackneg(q, pk): return -1
 
     for i in range(n): m[i] = sm[i]
-- 
2.43.0

