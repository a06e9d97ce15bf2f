From 124eaa645db7bf6d84c36ffaf18547be72247e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 001/109] fix: read packets with partial body lengths from
 streams

Only the first partial length of a packet follows a tag octet; the stream
reader consumed one octet of body for each further chunk.
---
 pgp/packets/packets.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6fe02af..0c90730 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1622,30 +1622,21 @@ def packet_from_packet_stream(fh):
 
     packet_data = bytearray()
     incomplete = True
-    previous_tag = None
-    previous_header_type = None
+    first = ord(fh.read(1))
+    tag = first & 0x3f
+    header_type = (
+            constants.NEW_PACKET_HEADER_TYPE
+            if bool(first & 0x40)
+            else constants.OLD_PACKET_HEADER_TYPE
+        )
+    if header_type == constants.OLD_PACKET_HEADER_TYPE:
+        tag >>= 2
+    # Only the first of a series of partial lengths is preceded by a tag.
     while incomplete:
-        first = ord(fh.read(1))
-        tag = first & 0x3f
-        if previous_tag is not None:
-            if tag != previous_tag:
-                # TODO: complete message
-                raise ValueError()
-        previous_tag = tag
-        header_type = (
-                constants.NEW_PACKET_HEADER_TYPE
-                if bool(first & 0x40)
-                else constants.OLD_PACKET_HEADER_TYPE
-            )
-        if previous_header_type is not None:
-            if header_type != previous_header_type:
-                # TODO: complete message
-                raise ValueError()
         if header_type == constants.NEW_PACKET_HEADER_TYPE:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
         else:
-            tag >>= 2
             fh.seek(fh.tell() - 1)
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
-- 
2.43.0


From 4ec00eac3ff8b8e576a07424ee141b672b5df5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 002/109] fix: write the length of empty new-format packets

An empty body still has a length octet. Also encode the remaining rather
than the full length after a partial chunk.
---
 pgp/packets/packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0c90730..e50443e 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -129,17 +129,19 @@ class Packet(object):
             offset = 0
             tag += 0x40 + packet_type
             result = bytearray([tag])
-            while remaining:
+            while True:
                 # "An implementation MAY use Partial Body Lengths for data
                 #  packets, be they literal, compressed, or encrypted."
                 allow_partial = self.type in constants.DATA_TYPES
                 packet_length_bytes, remaining = \
                     utils.new_packet_length_to_bytes(
-                            data_length,
+                            remaining,
                             allow_partial)
                 result.extend(packet_length_bytes)
                 result.extend(data[offset:data_length - remaining])
                 offset = data_length - remaining
+                if not remaining:
+                    break
 
         else:
             tag += (packet_type << 2)
-- 
2.43.0


From 530a161a75e0d0932df707ee6bf45c9640bc60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 003/109] fix: write four-octet lengths for old-format packets
 of 16 MiB and more

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 8378b9e..86277d4 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -765,7 +765,7 @@ def old_packet_length_to_bytes(data_length):
         length_type = 1
         length_bytes = [data_length >> 8,
                         data_length & 0xff]
-    elif data_length < 16777216:
+    elif data_length <= MAX_PACKET_LENGTH:
         length_type = 2
         length_bytes = [data_length >> 24,
                         (data_length >> 16) & 0xff,
-- 
2.43.0


From ca7abfcb38f8e2920625fe69acdb82fef89a2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 004/109] fix: read packets of indeterminate length from
 streams

---
 pgp/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 86277d4..11ec10a 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -664,8 +664,9 @@ def old_packet_length_from_stream(fh):
     elif length_type == 2:
         length = long_to_int(bytearray(fh.read(4)), 0)
     else:
-        # with & 3 and the other cases, this has to be 3.
-        raise ValueError
+        # with & 3 and the other cases, this has to be 3: the body extends to
+        # the end of the stream.
+        length = -1
     return length
 
 
-- 
2.43.0


From d4e76bdfcf8998f880c4c8bc3717506d69a6fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 005/109] fix: refuse packets that claim more data than there
 is

---
 pgp/packets/packets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index e50443e..1c93f10 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1643,7 +1643,10 @@ def packet_from_packet_stream(fh):
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
 
-        packet_data.extend(fh.read(data_length))
+        chunk = fh.read(data_length)
+        if len(chunk) < data_length:
+            raise ValueError('Incomplete packet.')
+        packet_data.extend(chunk)
 
     cls = PACKET_TYPES.get(tag, Packet)
 
@@ -1680,6 +1683,8 @@ def packet_from_packet_data(data, offset=0):
             offset, data_length = utils.old_packet_length(data, offset)
             incomplete = False
 
+        if len(data) - offset < data_length:
+            raise ValueError('Incomplete packet.')
         packet_data.extend(data[offset:offset + data_length])
         offset += data_length
 
-- 
2.43.0


From 58a285a5719eaa4dd406bd5ae0849a232bbb72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 006/109] fix: refuse data that does not start with a packet
 tag

---
 pgp/packets/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 1c93f10..05e6061 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1625,6 +1625,8 @@ def packet_from_packet_stream(fh):
     packet_data = bytearray()
     incomplete = True
     first = ord(fh.read(1))
+    if not first & 0x80:
+        raise ValueError('Not a packet.')
     tag = first & 0x3f
     header_type = (
             constants.NEW_PACKET_HEADER_TYPE
@@ -1665,6 +1667,8 @@ def packet_from_packet_data(data, offset=0):
     tag = None
     while incomplete:
         if not tag:
+            if not data[offset] & 0x80:
+                raise ValueError('Not a packet.')
             tag = data[offset] & 0x3f
             header_type = (
                     constants.NEW_PACKET_HEADER_TYPE
-- 
2.43.0


From 0e808e61f504f0e772deedf37760f0c837a39116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 007/109] fix: count the bits of large integers exactly

Floating point logarithms round up just below powers of two, which made
multi-precision integers carry a wrong bit count and a spurious zero octet,
and fail for zero.
---
 pgp/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 11ec10a..64f8714 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -560,8 +560,8 @@ def mpi_to_int(bytes_, offset):
 
 
 def int_to_bytes(i):
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-    bytes_required = int(math.ceil(bits_required / 8.0))
+    bits_required = i.bit_length()
+    bytes_required = (bits_required + 7) // 8
     result = bytearray(
         [(i >> (j * 8)) & 0xff
          for j in range(bytes_required - 1, -1, -1)
@@ -644,8 +644,8 @@ def int_to_mpi(i):
         raise ValueError(i)
     elif i == 0:
         return bytearray([0, 0])
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-    bytes_required = int(math.ceil(bits_required / 8.0))
+    bits_required = i.bit_length()
+    bytes_required = (bits_required + 7) // 8
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
         result.append((i >> (b * 8)) & 0xff)
-- 
2.43.0


From 60699f33bb327c234eec14e763658eb3f6918174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 008/109] fix: recognise the wildcard key ID of encrypted
 session keys

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 05e6061..df6cf36 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -167,7 +167,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         #  card" or "speculative" Key ID.  In this case, the receiving
         #  implementation would try all available private keys, checking for a
         #  valid decrypted session key."
-        if key_id == b'0' * 16:
+        if key_id == '0' * 16:
             key_id = None
         offset += 8
         public_key_algorithm = int(data[offset])
-- 
2.43.0


From 7b00134ffeaf89cec5f9036ef2803008575c19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 009/109] fix: keep the whole key ID of version 3 signatures
 and write it as octets

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index df6cf36..9de79e2 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -331,7 +331,7 @@ class SignaturePacket(Packet):
             creation_time = utils.long_to_int(data, offset)
             offset += 4
 
-            key_id = utils.bytearray_to_hex(data, offset, 8)
+            key_id = utils.bytearray_to_hex(data, offset, 16)
             offset += 8
 
             public_key_algorithm = data[offset]
@@ -476,7 +476,7 @@ class SignaturePacket(Packet):
             data.append(0x05)
             data.append(self.signature_type)
             data.extend(utils.int_to_4byte(self.creation_time))
-            data.extend(self.key_id)
+            data.extend(utils.hex_to_bytes(self.key_id, 8))
             data.append(self.public_key_algorithm)
             data.append(self.hash_algorithm)
         else:
-- 
2.43.0


From 626c9619e3ca00d3461fbfe6aa9e0bc3a999b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 010/109] fix: keep the whole key ID of one-pass signatures

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9de79e2..af281e8 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -643,7 +643,7 @@ class OnePassSignaturePacket(Packet):
         offset += 1
         public_key_algorithm = int(data[offset])
         offset += 1
-        key_id = utils.bytearray_to_hex(data, offset, 8)
+        key_id = utils.bytearray_to_hex(data, offset, 16)
         offset += 8
         nested = data[offset]
         offset += 1
-- 
2.43.0


From f48e1aaedf09d16562186c6d470fc3483e6ccd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 011/109] fix: do not cut encrypted session keys to the key
 length of another cipher

---
 pgp/packets/packets.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index af281e8..1ef0f15 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -536,11 +536,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         s2k_specification, offset = s2k.parse_s2k_bytes(symmetric_algorithm,
                                                         data,
                                                         offset)
-        encrypted_session_key_length = \
-            utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
-        # + 1 for the symmetric algorithm
-        encrypted_session_key = \
-            data[offset:offset + encrypted_session_key_length + 1]
+        # The session key may be longer than a key of the algorithm that
+        # encrypts it.
+        encrypted_session_key = data[offset:]
         result = cls(header_format, version, symmetric_algorithm,
                      s2k_specification, encrypted_session_key)
         result._content = data
-- 
2.43.0


From 89c3ea6f8f55682645f23ffa694e7c9d443e2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 012/109] fix: read marker packets

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 1ef0f15..0e3ddd6 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1222,7 +1222,7 @@ class MarkerPacket(Packet):
     def __init__(self, header_format, content, old_literal=False):
         Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE)
         self.old_literal = old_literal
-        self.content = content
+        self._content = content
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From b2af78f6b5415a53aa31fde7c706dc0c74bec744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 013/109] fix: count octets, not characters, in the file name
 length of literal data

---
 pgp/packets/packets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0e3ddd6..c706cb1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1294,10 +1294,11 @@ class LiteralDataPacket(Packet):
         elif self.data_format not in (b'b', b't', b'u'):
             raise ValueError
         data = bytearray(self.data_format)
-        data.append(int(len(self.filename)))
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        data.extend(self.filename.encode('utf8', 'replace'))
+        filename = self.filename.encode('utf8', 'replace')
+        data.append(len(filename))
+        data.extend(filename)
         timestamp = int(time.mktime(self.time.timetuple()))
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
-- 
2.43.0


From cefca85dac0a3a148bc14c10bac0d1a220e3ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 014/109] fix: write literal data packets that were read from
 data

---
 pgp/packets/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index c706cb1..076d26c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1299,7 +1299,9 @@ class LiteralDataPacket(Packet):
         filename = self.filename.encode('utf8', 'replace')
         data.append(len(filename))
         data.extend(filename)
-        timestamp = int(time.mktime(self.time.timetuple()))
+        timestamp = self.time
+        if not isinstance(timestamp, int):
+            timestamp = int(time.mktime(timestamp.timetuple()))
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
-- 
2.43.0


From 6762d027d7c2c439935eb30c743acbbf0e5f0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 015/109] fix: keep user IDs and file names that are not UTF-8
 intact

---
 pgp/packets/packets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 076d26c..1667c5c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1244,7 +1244,7 @@ class LiteralDataPacket(Packet):
         filename = data[offset:offset + filename_length]
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = filename.decode('utf8', 'replace')
+        filename = filename.decode('utf8', 'surrogateescape')
         offset += filename_length
         time = utils.long_to_int(data, offset)
         offset += 4
@@ -1296,7 +1296,7 @@ class LiteralDataPacket(Packet):
         data = bytearray(self.data_format)
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = self.filename.encode('utf8', 'replace')
+        filename = self.filename.encode('utf8', 'surrogateescape')
         data.append(len(filename))
         data.extend(filename)
         timestamp = self.time
@@ -1364,7 +1364,7 @@ class UserIDPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        result = cls(header_format, data.decode('utf8', 'replace'))
+        result = cls(header_format, data.decode('utf8', 'surrogateescape'))
         result._content = data
         return result
 
@@ -1385,7 +1385,7 @@ class UserIDPacket(Packet):
 
     @property
     def content(self):
-        return self.user_id.encode('utf8', 'replace')
+        return self.user_id.encode('utf8', 'surrogateescape')
 
     def get_content_for_signature_hash(self, signature_version):
         result = bytearray()
-- 
2.43.0


From aace342849f654f1a220c80c0e5a6ed66e36f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 016/109] fix: keep all of a trust packet

---
 pgp/packets/packets.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 1667c5c..3933174 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1328,35 +1328,41 @@ class TrustPacket(Packet):
             if sig_cache & 0x80:
                 raise ValueError
 
-        result = cls(header_format, trust_value, sig_cache)
+        extra = data[1:] if sig_cache is None else bytearray()
+        result = cls(header_format, trust_value, sig_cache, extra)
         result._content = data
         return result
 
-    def __init__(self, header_format, trust_value, sig_cache=None):
+    def __init__(self, header_format, trust_value, sig_cache=None,
+                 extra=bytearray()):
         Packet.__init__(self, header_format, constants.TRUST_PACKET_TYPE)
         self.trust_value = trust_value
         self.sig_cache = sig_cache
+        # Anything GnuPG does not define
+        self.extra = extra
 
     def __eq__(self, other):
         return (
             super(TrustPacket, self).__eq__(other)
             and self.trust_value == other.trust_value
             and self.sig_cache == other.sig_cache
+            and self.extra == other.extra
             )
 
     @property
     def checked(self):
-        return bool(self.sig_cache & 1)
+        return bool((self.sig_cache or 0) & 1)
 
     @property
     def valid(self):
-        return bool(self.sig_cache & 2)
+        return bool((self.sig_cache or 0) & 2)
 
     @property
     def content(self):
         data = bytearray([self.trust_value])
         if self.sig_cache is not None:
             data.append(self.sig_cache)
+        data.extend(self.extra)
         return data
 
 
-- 
2.43.0


From b9efc4fcf815ffd1a80584c46374d5c931e90daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 017/109] fix: keep the contents of signature subpackets of
 unknown types

---
 pgp/packets/signature_subpackets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6c26b6c..a0d7a4c 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -25,11 +25,12 @@ class SignatureSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        return cls(type_, critical)
+        return cls(type_, critical, sub_data)
 
-    def __init__(self, type_, critical):
+    def __init__(self, type_, critical, data=None):
         self.type = type_
         self.critical = critical
+        self._data = data or bytearray()
 
     def __eq__(self, other):
         return (
@@ -42,7 +43,7 @@ class SignatureSubpacket(object):
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._data)
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From 223df5861076638a6954333b2ded3e2d24991629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 018/109] fix: end regular expression subpackets with a null
 octet

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index a0d7a4c..418f86c 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -142,7 +142,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace'))
+        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
-- 
2.43.0


From dc50aca1454e86d7cd2f31935e7d3ae51c50fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 019/109] fix: keep the whole fingerprint of additional
 recipient requests

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 418f86c..48a8a1b 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -188,7 +188,7 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, strong_request, public_key_algorithm,
                    fingerprint)
 
-- 
2.43.0


From e8122f79a09b30db961f84a009fe70d5a7f90dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 020/109] fix: read and write revocation key subpackets

---
 pgp/packets/signature_subpackets.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 48a8a1b..7a73c72 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -239,11 +239,11 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) == 22
-        tag = sub_data
+        tag = sub_data[0]
         assert tag & 0x80
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, fingerprint, public_key_algorithm,
                    sensitive=sensitive)
 
@@ -252,7 +252,7 @@ class RevocationKeySubpacket(SignatureSubpacket):
 
         if isinstance(fingerprint, (bytes, bytearray)):
             assert len(fingerprint) == 20
-            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 20)
+            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 40)
         else:
             assert len(fingerprint) == 40
         SignatureSubpacket.__init__(
@@ -264,10 +264,8 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @property
     def content(self):
         tag = 0x80 + (0x40 if self.sensitive else 0x00)
-        data = bytearray(
-                        [tag, int(self.public_key_algorithm)] +
-                        utils.bytearray_to_hex(self.fingerprint, 20)
-                    )
+        data = bytearray([tag, int(self.public_key_algorithm)])
+        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
 
 
-- 
2.43.0


From 82770a51fd660682b3895ed253131b56163269da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 021/109] fix: keep binary notation values binary

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 7a73c72..68d480d 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -300,7 +300,7 @@ class NotationSubpacket(SignatureSubpacket):
         offset += 4
         assert not any(flags[1:])
         assert not flags[0] & 0x7f
-        human_readable = 0x80
+        human_readable = bool(flags[0] & 0x80)
         name_length = utils.short_to_int(sub_data, offset)
         offset += 2
         value_length = utils.short_to_int(sub_data, offset)
-- 
2.43.0


From 11036c2411d36141dd8d9126d689851ee6aaf480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 022/109] fix: keep the separator of notation names with an
 empty namespace

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 68d480d..9513d50 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -330,7 +330,7 @@ class NotationSubpacket(SignatureSubpacket):
     @property
     def content(self):
         raw_name = self.name.encode('utf8', 'replace')
-        if self.namespace:
+        if self.namespace is not None:
             raw_name += b'@' + self.namespace.encode('utf8', 'replace')
         raw_value = self.value
         if self.human_readable:
-- 
2.43.0


From a838193a100a532ce0e1facba4a550778b4691e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 023/109] fix: keep text in signature subpackets that is not
 valid UTF-8

---
 pgp/packets/signature_subpackets.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 9513d50..3e2dee6 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -132,7 +132,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         assert sub_data[-1] == 0
-        pattern = sub_data[:-1].decode('ascii', 'replace')
+        pattern = sub_data[:-1].decode('ascii', 'surrogateescape')
         return cls(critical, pattern)
 
     def __init__(self, critical, pattern):
@@ -142,7 +142,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
+        return bytearray(self.pattern.encode('ascii', 'surrogateescape') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
@@ -311,11 +311,11 @@ class NotationSubpacket(SignatureSubpacket):
         offset += value_length
         assert offset == len(sub_data)
 
-        name_and_namespace = raw_name.decode('utf8', 'replace')
+        name_and_namespace = raw_name.decode('utf8', 'surrogateescape')
         name, namespace = (name_and_namespace.split('@', 1) + [None])[:2]
 
         if human_readable:
-            value = value.decode('utf8', 'replace')
+            value = value.decode('utf8', 'surrogateescape')
 
         return cls(critical, name, namespace, human_readable, value)
 
@@ -329,12 +329,12 @@ class NotationSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        raw_name = self.name.encode('utf8', 'replace')
+        raw_name = self.name.encode('utf8', 'surrogateescape')
         if self.namespace is not None:
-            raw_name += b'@' + self.namespace.encode('utf8', 'replace')
+            raw_name += b'@' + self.namespace.encode('utf8', 'surrogateescape')
         raw_value = self.value
         if self.human_readable:
-            raw_value = raw_value.encode('utf8', 'replace')
+            raw_value = raw_value.encode('utf8', 'surrogateescape')
         data = bytearray([0x80 if self.human_readable else 0, 0, 0, 0])
         data.extend(utils.int_to_2byte(len(raw_name)))
         data.extend(utils.int_to_2byte(len(raw_value)))
@@ -389,7 +389,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
-        uri = sub_data.decode('utf8', 'replace')
+        uri = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, uri)
 
     def __init__(self, critical, uri):
@@ -399,7 +399,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.uri.encode('utf8', 'replace'))
+        return bytearray(self.uri.encode('utf8', 'surrogateescape'))
 
 
 class PrimaryUserIDSubpacket(SignatureSubpacket):
@@ -478,7 +478,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        user_id = sub_data.decode('utf8')
+        user_id = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, user_id)
 
     def __init__(self, critical, user_id):
@@ -488,7 +488,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.user_id.encode('utf8', 'replace'))
+        return bytearray(self.user_id.encode('utf8', 'surrogateescape'))
 
 
 class RevocationReasonSubpacket(SignatureSubpacket):
@@ -496,7 +496,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         revocation_code = sub_data[0]
-        revocation_reason = sub_data[1:].decode('utf8', 'replace')
+        revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')
         return cls(critical, revocation_code, revocation_reason)
 
     def __init__(self, critical, revocation_code, revocation_reason):
@@ -510,7 +510,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     def content(self):
         data = bytearray([self.revocation_code])
         data += bytearray(
-                        self.revocation_reason.encode('utf8', 'replace')
+                        self.revocation_reason.encode('utf8', 'surrogateescape')
                     )
         return data
 
-- 
2.43.0


From 666b3eb1befc9d7b3849142eac130971b03ee3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 024/109] fix: read, write and open secret keys of every
 protection style (none, MD5, checksum, SHA-1, version 3)

---
 pgp/packets/packets.py    | 156 ++++++++++++++++++++------------------
 pgp/transferrable_keys.py |   9 +--
 2 files changed, 87 insertions(+), 78 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 3933174..9b3ac86 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -14,7 +14,6 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
-import math
 import os
 import time
 import warnings
@@ -860,8 +859,9 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             symmetric_algorithm = s2k_usage
 
-        # 101 is GnuPG's dummy & smartcard mode
-        if s2k_usage not in (0, 101):
+        # GnuPG's dummy & smartcard keys have no IV.
+        iv = bytearray()
+        if s2k_usage != 0 and not isinstance(s2k_specification, s2k.GnuPGS2K):
             block_length = utils.symmetric_cipher_block_lengths.get(
                                 symmetric_algorithm, None)
             if block_length is None:
@@ -870,14 +870,11 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
-        if s2k_usage in (0, 255):
-            checksum = True
-            hash_ = False
-        elif s2k_usage == 254:
+        if s2k_usage == 254:
             hash_ = True
             checksum = False
         else:
-            checksum = False
+            checksum = True
             hash_ = False
 
         values += (s2k_specification, symmetric_algorithm, iv,
@@ -893,7 +890,7 @@ class SecretKeyPacket(PublicKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if iv is None:
             raise ValueError
         Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
         self.version = version
@@ -931,10 +928,8 @@ class SecretKeyPacket(PublicKeyPacket):
             )
 
     def decrypt(self, passphrase):
-        if self.s2k_specification is not None:
-            key = self.s2k_specification.to_key(passphrase)
-        else:
-            key = passphrase
+        key = self.passphrase_to_key(self.s2k_specification,
+                                     self.symmetric_algorithm, passphrase)
         values = self.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
@@ -952,60 +947,67 @@ class SecretKeyPacket(PublicKeyPacket):
             raise ValueError
 
     @classmethod
-    def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
-                           iv, checksum=False, hash_=False):
+    def passphrase_to_key(cls, s2k_specification, symmetric_algorithm,
+                          passphrase):
+        if s2k_specification is not None:
+            return s2k_specification.to_key(passphrase)
+        elif symmetric_algorithm == 0:
+            return b''
+        # "Any other value is a symmetric-key encryption algorithm identifier"
+        # and the key is the MD5 hash of the passphrase.
+        return s2k.SimpleS2K(1, symmetric_algorithm).to_key(passphrase)
 
+    @classmethod
+    def _crypt(cls, encrypt, symmetric_algorithm, key, iv, data):
+        """Encrypt or decrypt data of any length."""
+        block_size = \
+            utils.symmetric_cipher_block_lengths[symmetric_algorithm]
+        if not block_size:
+            return bytearray(data)
         cipher = utils.get_symmetric_cipher(
-                    symmetric_algorithm, key, utils.OPENPGP, iv,
-                    syncable=True)
+                    symmetric_algorithm, key, utils.CFB, iv)
+        padding = -len(data) % block_size
+        method = cipher.encrypt if encrypt else cipher.decrypt
+        return bytearray(
+            method(bytes(data) + b'\x00' * padding))[:len(data)]
 
+    @classmethod
+    def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
+                           iv, checksum=False, hash_=False):
         unencrypted_data = bytearray()
         for value in values:
             unencrypted_data.extend(utils.int_to_mpi(value))
 
-        if version >= 4:
-            encrypted_data = cipher.encrypt(unencrypted_data)
-        elif version in (2, 3):
-            encrypted_data = bytearray()
-            for i in values:
-                bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-                bytes_required = int(math.ceil(bits_required / 8.0))
-                encrypted_data.extend(utils.int_to_2byte(bytes_required))
-                cipher.sync()
-                mpi_value_bytes = utils.int_to_bytes(i)
-                if len(mpi_value_bytes) < bytes_required:
-                    mpi_value_bytes = bytearray(
-                            [0] * (bytes_required - len(mpi_value_bytes))
-                        ) + mpi_value_bytes
-                encrypted_data.extend(cipher.encrypt(mpi_value_bytes))
-
+        trailer = bytearray()
         if checksum:
-            checksum = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
-            if version >= 4:
-                encrypted_data.extend(cipher.encrypt(checksum))
-            else:
-                encrypted_data.extend(checksum)
-
+            trailer = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
         if hash_:
-            hash_ = SHA.new(unencrypted_data).digest()
-            encrypted_data.extend(cipher.encrypt(hash_))
-        return encrypted_data
+            trailer = bytearray(SHA.new(bytes(unencrypted_data)).digest())
+
+        if version >= 4:
+            return cls._crypt(True, symmetric_algorithm, key, iv,
+                              unencrypted_data + trailer)
+
+        block_size = \
+            utils.symmetric_cipher_block_lengths[symmetric_algorithm]
+        encrypted_data = bytearray()
+        for value in values:
+            mpi = utils.int_to_mpi(value)
+            encrypted_mpi_content = cls._crypt(
+                True, symmetric_algorithm, key, iv, mpi[2:])
+            iv = (bytearray(iv) + encrypted_mpi_content)[-block_size:]
+            encrypted_data.extend(mpi[:2])
+            encrypted_data.extend(encrypted_mpi_content)
+        return encrypted_data + trailer
 
     @classmethod
     def decrypt_encrypted_key_portion(cls, version, key, symmetric_algorithm,
                                       iv, encrypted_data, checksum=False,
                                       hash_=False):
 
-        sym_block_size = utils.symmetric_cipher_block_lengths.get(
-            symmetric_algorithm, 8)
         if version >= 4:
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv)
-            padding = bytearray([0x00] * (
-                sym_block_size - (len(encrypted_data) % sym_block_size)))
-            decrypted_data = cipher.decrypt(
-                bytes(encrypted_data + padding)
-                )[:-len(padding)]
+            decrypted_data = cls._crypt(False, symmetric_algorithm, key, iv,
+                                        encrypted_data)
         elif version in (2, 3):
             # "With V3 keys, the MPI bit count prefix (i.e., the first two
             #  octets) is not encrypted.  Only the MPI non-prefix data is
@@ -1013,34 +1015,35 @@ class SecretKeyPacket(PublicKeyPacket):
             #  beginning of each new MPI value, so that the CFB block boundary
             #  is aligned with the start of the MPI data."
 
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv,
-                        syncable=True)
+            block_size = \
+                utils.symmetric_cipher_block_lengths[symmetric_algorithm]
+            mpi_end = len(encrypted_data) - (2 if checksum else 0)
             offset = 0
             decrypted_data = bytearray()
-            while offset < len(encrypted_data):
-                cipher.sync()
+            while offset < mpi_end:
                 decrypted_data.extend(
                         encrypted_data[offset:offset + 2])
                 mpi_length = utils.mpi_length(encrypted_data, offset)
                 offset += 2
                 encrypted_mpi_content = \
-                    encrypted_data[offset:offset + mpi_length]
+                    encrypted_data[offset:min(offset + mpi_length, mpi_end)]
                 offset += mpi_length
-                mpi_content = cipher.decrypt(encrypted_mpi_content)
-                decrypted_data.extend(mpi_content)
+                decrypted_data.extend(
+                    cls._crypt(False, symmetric_algorithm, key, iv,
+                               encrypted_mpi_content))
+                iv = (bytearray(iv) + encrypted_mpi_content)[-block_size:]
+            # The checksum is not encrypted either.
+            decrypted_data.extend(encrypted_data[mpi_end:])
         else:
             raise ValueError
 
         data_length = len(decrypted_data)
         if checksum:
             data_length -= 2
-            if version >= 4:
-                # With V4 keys, the checksum is encrypted like the
-                # algorithm-specific data.
-                expected_checksum = utils.short_to_int(
-                        cipher.decrypt(utils.int_to_2byte(decrypted_data[-2:]))
-                    )
+            # With V4 keys, the checksum is encrypted like the
+            # algorithm-specific data.
+            expected_checksum = utils.short_to_int(decrypted_data,
+                                                   data_length)
             actual_checksum = sum(decrypted_data[:-2]) & 0xffff
             if actual_checksum != expected_checksum:
                 raise ValueError
@@ -1048,7 +1051,7 @@ class SecretKeyPacket(PublicKeyPacket):
         if hash_:
             data_length -= 20
             expected_hash = decrypted_data[-20:]
-            actual_hash = SHA.new(decrypted_data[:-20]).digest()
+            actual_hash = SHA.new(bytes(decrypted_data[:-20])).digest()
             if bytes(expected_hash) != actual_hash:
                 raise ValueError
 
@@ -1069,6 +1072,8 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 s2k_usage = 254
             data.append(s2k_usage)
+        else:
+            s2k_usage = self.symmetric_algorithm
         data.append(self.symmetric_algorithm)
         if self.s2k_specification is not None:
             data.extend(bytes(self.s2k_specification))
@@ -1076,7 +1081,7 @@ class SecretKeyPacket(PublicKeyPacket):
             data.extend(self.iv)
         if self.encrypted_portion:
             data.extend(self.encrypted_portion)
-        else:
+        elif not isinstance(self.s2k_specification, s2k.GnuPGS2K):
             if self.public_key_algorithm in (1, 2, 3):
                 values = [
                     self.exponent_d,
@@ -1089,13 +1094,12 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 raise ValueError
 
-            if self.s2k_specification is not None:
-                key = self.s2k_specification.to_key(self.passphrase)
-            else:
-                key = self.passphrase
+            key = self.passphrase_to_key(self.s2k_specification,
+                                         self.symmetric_algorithm,
+                                         self.passphrase)
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
-                        self.iv, s2k_usage in (0, 255), s2k_usage == 254)
+                        self.iv, s2k_usage != 254, s2k_usage == 254)
             data.extend(encrypted_data)
 
         return data
@@ -1112,7 +1116,7 @@ class SecretSubkeyPacket(SecretKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if iv is None:
             raise ValueError
         Packet.__init__(self, header_type,
                         constants.SECRET_SUBKEY_PACKET_TYPE)
@@ -1132,6 +1136,12 @@ class SecretSubkeyPacket(SecretKeyPacket):
         self.encrypted_portion = encrypted_portion
         self.checksum = checksum
         self.hash = hash_
+        self.passphrase = passphrase
+        self.exponent_d = exponent_d
+        self.prime_p = prime_p
+        self.prime_q = prime_q
+        self.multiplicative_inverse_u = multiplicative_inverse_u
+        self.exponent_x = exponent_x
 
 
 class CompressedDataPacket(Packet):
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5d9b372..c5ac2ca 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -568,11 +568,10 @@ class BaseSecretKey(BasePublicKey):
         return sig
 
     def unlock(self, passphrase):
-        if self.s2k_specification is not None:
-            # TODO: Check encoding
-            key = self.s2k_specification.to_key(passphrase.encode('utf8'))
-        else:
-            key = passphrase
+        # TODO: Check encoding
+        key = packets.SecretKeyPacket.passphrase_to_key(
+                    self.s2k_specification, self.symmetric_algorithm,
+                    passphrase.encode('utf8'))
 
         values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
-- 
2.43.0


From 3a5318040bf6c92e101d2c47500e2ae6ebb1e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 025/109] fix: write GnuPG S2K specifiers

---
 pgp/s2k.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9624abd..9f68212 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -161,7 +161,8 @@ class GnuPGS2K(SimpleS2K):
                         "Unexpected serial number length: %d" %
                         serial_len)
 
-            serial_number = utils.bytearray_to_hex(data, offset, serial_len)
+            serial_number = utils.bytearray_to_hex(data, offset,
+                                                   2 * serial_len)
             offset += serial_len
         else:
             raise ValueError(
@@ -191,11 +192,9 @@ class GnuPGS2K(SimpleS2K):
         pass
 
     def __bytes__(self):
-        result = bytearray(
-                [self.hash_algorithm] +
-                b'GNU' +
-                [self.mode - 1000]
-                )
+        result = bytearray([101, self.hash_algorithm])
+        result.extend(b'GNU')
+        result.append(self.mode - 1000)
         if self.mode == 1002 and self.serial_number is not None:
             result.append(self.serial_number_length)
             result.extend(utils.hex_to_bytes(self.serial_number,
-- 
2.43.0


From 4b0abaf0e95b5e2b05d077dc888569d53ccc2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 026/109] fix: keep flags of key flags, features and key server
 preferences that are not known

---
 pgp/packets/signature_subpackets.py | 41 +++++++++++++++++++----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 3e2dee6..0a850b1 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -21,6 +21,11 @@ from pgp import utils
 from pgp.packets import constants
 
 
+def unknown_flags(data, known):
+    """Octets of flags without the ones that are known."""
+    return bytes([data[0] & ~known & 0xff]) + bytes(data[1:])
+
+
 class SignatureSubpacket(object):
 
     @classmethod
@@ -142,7 +147,8 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'surrogateescape') + b'\x00')
+        pattern = self.pattern.encode('ascii', 'surrogateescape')
+        return bytearray(pattern + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
@@ -372,16 +378,19 @@ class KeyServerPreferencesSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         no_modify = bool(sub_data[0] & 0x80)
-        return cls(critical, no_modify)
+        return cls(critical, no_modify, unknown_flags(sub_data, 0x80))
 
-    def __init__(self, critical, no_modify):
+    def __init__(self, critical, no_modify, other_flags=b'\x00'):
         SignatureSubpacket.__init__(self,
                 constants.KEY_SERVER_PREFERENCES_SUBPACKET_TYPE, critical)
         self.no_modify = no_modify
+        self.other_flags = other_flags
 
     @property
     def content(self):
-        return bytearray([0x80 if self.no_modify else 0x00])
+        data = bytearray(self.other_flags)
+        data[0] |= 0x80 if self.no_modify else 0x00
+        return data
 
 
 class PreferredKeyServerSubpacket(SignatureSubpacket):
@@ -444,12 +453,12 @@ class KeyFlagsSubpacket(SignatureSubpacket):
         return cls(critical, may_certify_others, may_sign_data,
                    may_encrypt_comms, may_encrypt_storage,
                    may_be_used_for_auth, may_have_been_split,
-                   may_have_multiple_owners)
+                   may_have_multiple_owners, unknown_flags(sub_data, 0xbf))
 
     def __init__(self, critical, may_certify_others=True, may_sign_data=True,
                  may_encrypt_comms=True, may_encrypt_storage=True,
                  may_be_used_for_auth=True, may_have_been_split=True,
-                 may_have_multiple_owners=True):
+                 may_have_multiple_owners=True, other_flags=b'\x00'):
         SignatureSubpacket.__init__(self, constants.KEY_FLAGS_SUBPACKET_TYPE,
                                     critical)
         self.may_certify_others = may_certify_others
@@ -459,10 +468,12 @@ class KeyFlagsSubpacket(SignatureSubpacket):
         self.may_be_used_for_auth = may_be_used_for_auth
         self.may_have_been_split = may_have_been_split
         self.may_have_multiple_owners = may_have_multiple_owners
+        self.other_flags = other_flags
 
     @property
     def content(self):
-        data = bytearray([
+        data = bytearray(self.other_flags)
+        data[0] |= (
             (0x01 if self.may_certify_others else 0x00) +
             (0x02 if self.may_sign_data else 0x00) +
             (0x04 if self.may_encrypt_comms else 0x00) +
@@ -470,7 +481,7 @@ class KeyFlagsSubpacket(SignatureSubpacket):
             (0x10 if self.may_have_been_split else 0x00) +
             (0x20 if self.may_be_used_for_auth else 0x00) +
             (0x80 if self.may_have_multiple_owners else 0x00)
-            ])
+            )
         return data
 
 
@@ -520,19 +531,21 @@ class FeaturesSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
-        supports_modification_detection = sub_data[0] & 0x01
-        return cls(critical, supports_modification_detection)
+        supports_modification_detection = bool(sub_data[0] & 0x01)
+        return cls(critical, supports_modification_detection,
+                   unknown_flags(sub_data, 0x01))
 
-    def __init__(self, critical, supports_modification_detection):
+    def __init__(self, critical, supports_modification_detection,
+                 other_flags=b'\x00'):
         SignatureSubpacket.__init__(
                 self, constants.FEATURES_SUBPACKET_TYPE, critical)
         self.supports_modification_detection = supports_modification_detection
+        self.other_flags = other_flags
 
     @property
     def content(self):
-        data = bytearray([
-                        0x01 if self.supports_modification_detection else 0x00
-                        ])
+        data = bytearray(self.other_flags)
+        data[0] |= 0x01 if self.supports_modification_detection else 0x00
         return data
 
 
-- 
2.43.0


From e51941819c2b50fe0e2dcf47a00f99cfb59d1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 027/109] fix: read and write signature target subpackets

---
 pgp/packets/signature_subpackets.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 0a850b1..d06f13f 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -561,7 +561,7 @@ class TargetSubpacket(SignatureSubpacket):
             hash_length = len(sub_data) - 2
         else:
             assert hash_length == len(sub_data) - 2
-        hash_ = utils.bytearray_to_hex(sub_data, 2, len(sub_data) - 2)
+        hash_ = utils.bytearray_to_hex(sub_data, 2)
         return cls(critical, public_key_algorithm, hash_algorithm, hash_,
                    hash_length=hash_length)
 
@@ -575,7 +575,7 @@ class TargetSubpacket(SignatureSubpacket):
             assert hash_length is not None
         self.public_key_algorithm = public_key_algorithm
         self.hash_algorithm = hash_algorithm
-        self.hash = hash_ or bytearray()
+        self.hash = hash_ or ''
         self.hash_length = hash_length
 
     @property
@@ -584,11 +584,12 @@ class TargetSubpacket(SignatureSubpacket):
         if hash_length is None:
             hash_length = self.hash_length
 
-        return bytearray([
-                            int(self.public_key_algorithm),
-                            int(self.hash_algorithm),
-                        ] + utils.hex_to_bytes(self.hash, hash_length)
-                    )
+        data = bytearray([
+                    int(self.public_key_algorithm),
+                    int(self.hash_algorithm),
+                ])
+        data.extend(utils.hex_to_bytes(self.hash, hash_length))
+        return data
 
 
 class EmbeddedSignatureSubpacket(SignatureSubpacket):
-- 
2.43.0


From c939fa2328d095925ba96fcf6247b06f2e1e6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 028/109] fix: read two-octet subpacket lengths of 8384 and
 more

---
 pgp/packets/signature_subpackets.py      |  4 +---
 pgp/packets/user_attribute_subpackets.py |  8 +-------
 pgp/utils.py                             | 20 ++++++++++++++++++++
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index d06f13f..b4e6f76 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -653,9 +653,7 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 
 def signature_subpacket_from_data(data, offset=0):
-    offset, length, partial = utils.new_packet_length(data, offset)
-    # TODO: smarter error
-    assert not partial
+    offset, length = utils.subpacket_length(data, offset)
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 8a9185a..56a9140 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -119,13 +119,7 @@ USER_ATTRIBUTE_SUBPACKET_TYPES = {
 
 def user_attribute_subpacket_from_data(data, offset=0):
     sub_data = bytearray()
-    offset, sub_len, sub_partial = utils.new_packet_length(data, offset)
-    if sub_partial:
-        # "An implementation MAY use Partial Body Lengths for data
-        #  packets, be they literal, compressed, or encrypted.  [...]
-        #  Partial Body Lengths MUST NOT be used for any other packet
-        #  types."
-        raise ValueError
+    offset, sub_len = utils.subpacket_length(data, offset)
     sub_type = int(data[offset])
     # + 1 for sub type
     sub_data_start = offset + 1
diff --git a/pgp/utils.py b/pgp/utils.py
index 64f8714..be6f2dd 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -721,6 +721,26 @@ def new_packet_length(data, offset):
     return offset, length, partial
 
 
+def subpacket_length(data, offset):
+    """Lengths of subpackets are never partial: the octets that would
+    start a partial length start a two-octet length.
+    """
+
+    length = int(data[offset])
+    offset += 1
+    if length < 192:
+        pass
+    elif length < 255:
+        length = ((length - 192) << 8) + data[offset] + 192
+        offset += 1
+    else:
+        length = long_to_int(data, offset)
+        offset += 4
+    if not length or length > len(data) - offset:
+        raise ValueError('Invalid subpacket length.')
+    return offset, length
+
+
 def new_packet_length_to_bytes(data_length, allow_partial):
     result = bytearray()
     remaining = 0
-- 
2.43.0


From 8f0e0d3e4097f28d73dca19bc9d7215c46256aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 029/109] fix: keep the contents of user attribute subpackets
 of unknown types

---
 pgp/packets/user_attribute_subpackets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 56a9140..594c54d 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -22,20 +22,22 @@ class UserAttributeSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
-        return cls(sub_type)
+        return cls(sub_type, sub_data)
 
-    def __init__(self, sub_type):
+    def __init__(self, sub_type, sub_data=b''):
         self.sub_type = sub_type
+        self._data = sub_data
 
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
             and self.sub_type == other.sub_type
+            and self._data == other._data
             )
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._data)
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From 7f561ccf38adbef3913a8cb448a2151a4c7276a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 030/109] fix: compare version 3 signature packets

---
 pgp/packets/packets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9b3ac86..a48cb4e 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -445,9 +445,14 @@ class SignaturePacket(Packet):
             and self.public_key_algorithm == other.public_key_algorithm
             and self.hash_algorithm == other.hash_algorithm
             and self.hash2 == other.hash2
-            and self.signature_values == other.signature_values
-            and set(self.hashed_subpackets) == set(other.hashed_subpackets)
-            and set(self.unhashed_subpackets) == set(other.unhashed_subpackets)
+            and list(self.signature_values) == list(other.signature_values)
+            and (
+                (self.creation_time == other.creation_time
+                 and self.key_id == other.key_id)
+                if self.version < 4 else
+                (set(self.hashed_subpackets) == set(other.hashed_subpackets)
+                 and set(self.unhashed_subpackets) ==
+                 set(other.unhashed_subpackets)))
             )
 
     @property
-- 
2.43.0


From acb31c8a2631bfc159c7f14cf11aac55f8d96b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 031/109] fix: keep the encoding of subpacket lengths that
 signatures were made over

---
 pgp/packets/signature_subpackets.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index b4e6f76..b5dceab 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -37,6 +37,10 @@ class SignatureSubpacket(object):
         self.critical = critical
         self._data = data or bytearray()
 
+    # Length as it was read: there are several ways to write a length, and
+    # signatures are made over the one that was chosen.
+    _read_length = (None, None)
+
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
@@ -56,6 +60,8 @@ class SignatureSubpacket(object):
         result = bytearray()
         packet_length_bytes, _ = \
                 utils.new_packet_length_to_bytes(data_len, False)
+        if self._read_length[0] == data_len:
+            packet_length_bytes = self._read_length[1]
         result.extend(packet_length_bytes)
         raw = self.type + (0x80 if self.critical else 0x00)
         result.append(raw)
@@ -653,7 +659,9 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 
 def signature_subpacket_from_data(data, offset=0):
+    length_offset = offset
     offset, length = utils.subpacket_length(data, offset)
+    read_length = (length, bytes(data[length_offset:offset]))
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
@@ -662,7 +670,6 @@ def signature_subpacket_from_data(data, offset=0):
     sub_data = data[offset:offset + length]
     offset += length
     cls = SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, SignatureSubpacket)
-    return (
-        cls.from_subpacket_content(subpacket_type, critical, sub_data),
-        offset
-        )
+    subpacket = cls.from_subpacket_content(subpacket_type, critical, sub_data)
+    subpacket._read_length = read_length
+    return subpacket, offset
-- 
2.43.0


From d05ec69b27a30a7900629f546ec476a35a86d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 032/109] fix: derive 256-bit keys for Twofish-256

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index be6f2dd..cd7c380 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -85,7 +85,7 @@ symmetric_cipher_key_lengths = {
     7: 16,  # AES-128
     8: 24,  # AES-192
     9: 32,  # AES-256
-    10: 16,  # Twofish-256
+    10: 32,  # Twofish-256
     11: 16,  # Camellia-128
     12: 24,  # Camellia-192
     13: 32,  # Camellia-256
-- 
2.43.0


From e366bca1eb80f621a8831399e95baccc8844ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 033/109] fix: hash the whole passphrase when the iteration
 count is shorter

---
 pgp/s2k.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9f68212..4b933fa 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -48,9 +48,10 @@ class SimpleS2K(object):
         result = bytearray()
         # Length of content hashed on each iteration
         len2 = len(passphrase) + 8
-        count = self.count
-        if count is None:
-            count = len2
+        # "if the octet count is less than the size of the salt plus
+        #  passphrase, the full salt plus passphrase will be hashed even
+        #  though that is greater than the octet count."
+        count = max(self.count or 0, len2)
 
         while (pass_ * hash_length) < required_length:
             # "If the hash size is less than the key size, multiple instances
-- 
2.43.0


From 19aa8fdb945e7f8092385e1a7e3a656c2e312493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 034/109] fix: give each block cipher mode the parameters it
 takes

---
 pgp/utils.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index cd7c380..5a1f24d 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -274,27 +274,22 @@ def get_symmetric_cipher(type_, key, mode, iv=None, segment_size=None,
         13: camellia,
         }.get(type_, None)
 
-    if segment_size is None and mode == blockalgo.MODE_CFB:
-        segment_size = cipher.block_size * 8
+    kwargs = {}
+    if iv is not None:
+        # PyCrypto names the parameter differently for this one mode.
+        iv_name = 'iv' if mode == blockalgo.MODE_OPENPGP else 'IV'
+        kwargs[iv_name] = bytes(iv)
+    if mode == blockalgo.MODE_CFB:
+        if segment_size is None:
+            segment_size = cipher.block_size * 8
+        kwargs['segment_size'] = segment_size
 
     if syncable and cipher not in (aidea, twofish, camellia):
         # We need to wrap the PyCrypto implementation so we can re-sync
         # for OpenPGP's weird CFB mode.
-        try:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               IV=bytes(iv),
-                                               segment_size=segment_size)
-        except TypeError:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               iv=bytes(iv),
-                                               segment_size=segment_size)
-
-    try:
-        return cipher.new(bytes(key), mode, IV=bytes(iv),
-                          segment_size=segment_size)
-    except TypeError:
-        return cipher.new(bytes(key), mode, iv=bytes(iv),
-                          segment_size=segment_size)
+        return syncable_cipher_wrapper.new(cipher, bytes(key), mode, **kwargs)
+
+    return cipher.new(bytes(key), mode, **kwargs)
 
 
 class NoopCompression(object):
-- 
2.43.0


From bcb54b8971dd673be098f19075f5dba181f8d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 035/109] fix: keep armor headers and refuse incomplete armor
 with a ValueError

---
 pgp/armor.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 3ae3616..2a01253 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -37,6 +37,9 @@ data_types = {
     }
 
 
+line_end_expr = re.compile('\r\n|\r|\n')
+
+
 DASHES = '-----'
 header_line_expr = re.compile(
     '^{dashes}BEGIN (?:'
@@ -72,7 +75,16 @@ class ASCIIArmor(object):
 
     @classmethod
     def from_ascii(cls, text):
-        lines = text.splitlines()
+        # Only carriage returns and line feeds end a line: header values may
+        # contain the other characters which str.splitlines would split at.
+        lines = line_end_expr.split(text)
+        try:
+            return cls._from_lines(lines)
+        except IndexError:
+            raise ValueError('Incomplete ASCII armor.')
+
+    @classmethod
+    def _from_lines(cls, lines):
         line_no = 0
 
         # Skip blank lines before header line
@@ -145,6 +157,8 @@ class ASCIIArmor(object):
 
         data = b64decode(''.join(data_lines))
         checksum_data = b64decode(lines[line_no][1:])
+        if len(checksum_data) != 3:
+            raise ValueError('Invalid checksum.')
         expected_checksum = (
             ((checksum_data[0] << 16)) +
             ((checksum_data[1] << 8)) +
@@ -168,7 +182,7 @@ class ASCIIArmor(object):
                 repr(header_line), repr(tail_line)))
 
         return cls(data_type, data, part, total_parts, version, comment,
-                   message_id, hash_algorithms, charset)
+                   message_id, hash_algorithms, charset, extra_headers)
 
     def __init__(self, data_type, data, part=None, total_parts=None,
                  version=None, comment=None, message_id=None,
@@ -232,7 +246,7 @@ class ASCIIArmor(object):
             result_lines.append(
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
-            for k, v in self.extra_headers:
+            for k, v in self.extra_headers.items():
                 result_lines.append('{0}: {1}'.format(k, v))
 
         result_lines.append('')
-- 
2.43.0


From 6dfa2d42ceadb119cc5c684ca702057b0b0a8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 036/109] fix: keep times of the repeated hour when clocks are
 set back

---
 pgp/packets/packets.py    |  2 +-
 pgp/signature.py          |  4 ++--
 pgp/transferrable_keys.py |  2 +-
 pgp/utils.py              | 11 +++++++++++
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a48cb4e..dacd530 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1316,7 +1316,7 @@ class LiteralDataPacket(Packet):
         data.extend(filename)
         timestamp = self.time
         if not isinstance(timestamp, int):
-            timestamp = int(time.mktime(timestamp.timetuple()))
+            timestamp = utils.datetime_to_timestamp(timestamp)
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
diff --git a/pgp/signature.py b/pgp/signature.py
index 827a31f..84bac4b 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -171,7 +171,7 @@ class BaseSignature(object):
                         hashed_subpackets=hashed_subpackets,
                         unhashed_subpackets=unhashed_subpackets)
         elif self.version in (2, 3):
-            creation_time = int(time.mktime(self.creation_time.timetuple()))
+            creation_time = utils.datetime_to_timestamp(self.creation_time)
             packet = packets.SignaturePacket(
                         header_format, self.version, self.signature_type,
                         self.public_key_algorithm, self.hash_algorithm,
@@ -186,7 +186,7 @@ class BaseSignature(object):
         result.append(self.signature_type)
         if self.version < 4:
             result.extend(utils.int_to_4byte(
-                time.mktime(self.creation_time.timetuple())
+                utils.datetime_to_timestamp(self.creation_time)
             ))
         else:
             result.append(self.public_key_algorithm)
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index c5ac2ca..c4658bb 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -221,7 +221,7 @@ class BasePublicKey(SignedMixin):
         return result
 
     def _to_packet_args(self, header_format=None):
-        creation_time = int(time.mktime(self.creation_time.timetuple()))
+        creation_time = utils.datetime_to_timestamp(self.creation_time)
         expiration_days = None
         if self.version < 4:
             expiration_time = self.expiration_time
diff --git a/pgp/utils.py b/pgp/utils.py
index 5a1f24d..6e279b2 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -16,6 +16,7 @@
 
 import bz2
 import math
+import time
 import zlib
 
 from Crypto.Cipher import blockalgo
@@ -927,3 +928,13 @@ def key_packet_fingerprint(packet):
         sha1.update(pubkey_data)
         fingerprint = sha1.hexdigest().upper()
     return fingerprint
+
+
+def datetime_to_timestamp(dt):
+    """Seconds since the epoch of a local time, exact also for the hour
+    that occurs twice when clocks are set back.
+    """
+
+    if hasattr(dt, 'timestamp'):
+        return int(dt.timestamp())
+    return int(time.mktime(dt.timetuple()))
-- 
2.43.0


From ca6dcbe59ae41b9f179239b27b24b6f0dae36366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 037/109] fix: compute fingerprints, key IDs and expiration of
 version 2 and 3 keys

---
 pgp/packets/packets.py    | 4 ++++
 pgp/transferrable_keys.py | 8 +++++---
 pgp/utils.py              | 8 ++++----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index dacd530..786a7b6 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -818,6 +818,10 @@ class PublicKeyPacket(Packet):
 
     @property
     def key_id(self):
+        if self.version < 4:
+            if self.public_key_algorithm in (1, 2, 3):
+                return utils.int_to_hex(self.modulus, 16)
+            return utils.int_to_hex(self.prime, 16)
         return self.fingerprint[-16:]
 
     @property
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index c4658bb..b846852 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -116,6 +116,7 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
+            result = default
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
                 result = getattr(most_recent_selfsig, name, default)
@@ -196,7 +197,7 @@ class BasePublicKey(SignedMixin):
         creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
-        if version < 4 or expiration_days in (None, 0):
+        if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
             expiration_time = \
@@ -224,9 +225,10 @@ class BasePublicKey(SignedMixin):
         creation_time = utils.datetime_to_timestamp(self.creation_time)
         expiration_days = None
         if self.version < 4:
+            expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - creation_time).days
+                expiration_days = (expiration_time - self.creation_time).days
 
         return (
             header_format, self.version, creation_time,
@@ -296,7 +298,7 @@ class BasePublicKey(SignedMixin):
         if self.version in (2, 3):
             self._expiration_time = value
         elif self.version >= 4:
-            super(BasePublicKey, self).expiration_time = value
+            SignedMixin.expiration_time.fset(self, value)
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
diff --git a/pgp/utils.py b/pgp/utils.py
index 6e279b2..5ce64ac 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -909,11 +909,11 @@ def key_packet_fingerprint(packet):
         md5 = MD5.new()
         # Key type must be RSA for v2 and v3 public keys
         if packet.public_key_algorithm in (1, 2, 3):
-            md5.update(int_to_bytes(packet.modulus_n))
-            md5.update(int_to_bytes(packet.exponent_e))
+            md5.update(int_to_bytes(packet.modulus))
+            md5.update(int_to_bytes(packet.exponent))
         elif packet.public_key_algorithm in (16, 20):
-            md5.update(int_to_bytes(packet.prime_p))
-            md5.update(int_to_bytes(packet.group_generator_g))
+            md5.update(int_to_bytes(packet.prime))
+            md5.update(int_to_bytes(packet.group_generator))
         fingerprint = md5.hexdigest().upper()
     elif packet.version >= 4:
         sha1 = SHA.new()
-- 
2.43.0


From c377685cecb5b2fa53af93bc7906f9144276e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 038/109] fix: exact bit length of keys

---
 pgp/transferrable_keys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b846852..e8e5fe7 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,6 @@
 
 import datetime
 import email.utils
-import math
 import time
 import weakref
 
@@ -325,7 +324,7 @@ class BasePublicKey(SignedMixin):
         elif self.public_key_algorithm in (16, 20):
             n = self.prime_p
 
-        return int(math.ceil(float(math.log(n, 2))))
+        return int(n).bit_length()
 
     @property
     def key_id(self):
-- 
2.43.0


From 9bad0fc06c819083477d9b76aea423e5d0446b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 039/109] fix: detach the public half of a secret key from the
 secret key

---
 pgp/signature.py          | 10 +++++++
 pgp/transferrable_keys.py | 55 ++++++++++++++++++++++++++-------------
 2 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 84bac4b..41c4bfd 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import datetime
 import re
 import time
@@ -241,6 +242,15 @@ class BaseSignature(object):
             current_time_fn = datetime.datetime.now
         self.get_current_time = current_time_fn
 
+    def copy_to(self, target):
+        """The same signature attached to a copy of its target."""
+
+        result = copy.copy(self)
+        result._target_ref = weakref.ref(target)
+        result.hashed_subpackets = self.hashed_subpackets[:]
+        result.unhashed_subpackets = self.unhashed_subpackets[:]
+        return result
+
     def __eq__(self, other):
         return bytes(self.to_packet()) == bytes(other.to_packet())
 
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index e8e5fe7..0415754 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import datetime
 import email.utils
 import time
@@ -243,7 +244,7 @@ class BasePublicKey(SignedMixin):
         return self._PacketClass(*args)
 
     def to_signable_data(self, signature_type, signature_version=3):
-        key_packet_data = self.to_packet().content
+        key_packet_data = self.to_packet().public_content
         key_length = len(key_packet_data)
         result = bytearray([0x99])
         result.extend(utils.int_to_2byte(key_length))
@@ -457,17 +458,21 @@ class BaseSecretKey(BasePublicKey):
         self.checksum = checksum
         self.hash = hash_
 
-    def to_signable_data(self, signature_type, signature_version=3):
-        return self.to_public_key().to_signable_data(signature_type,
-                                                     signature_version)
+    def _public_key_args(self):
+        prime_p = self.prime_p
+        if self.public_key_algorithm in (1, 2, 3):
+            # One of the secret factors of an unlocked RSA key.
+            prime_p = None
+        return (
+            self.version, self.public_key_algorithm, self.creation_time,
+            self._expiration_time, self.modulus_n, self.exponent_e,
+            prime_p, self.group_generator_g, self.group_order_q,
+            self.key_value_y)
 
     def to_public_key(self):
-        key = self._PublicClass(
-            self.version, self.public_key_algorithm, self.creation_time,
-            self.expiration_time, self.modulus_n, self.exponent_e,
-            self.prime_p, self.group_generator_g, self.group_order_q,
-            self.key_value_y, self.signatures)
+        key = self._PublicClass(*self._public_key_args())
         key.packet_header_type = self.packet_header_type
+        key.signatures = [s.copy_to(key) for s in self.signatures]
         return key
 
     def _to_packet_args(self, header_format=None):
@@ -652,13 +657,12 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         self._primary_public_key_ref = weakref.ref(primary_public_key)
         BaseSecretKey.__init__(self, *args, **kwargs)
 
-    def to_public_key(self):
-        key = self._PublicClass(
-            self.primary_public_key, self.version, self.public_key_algorithm,
-            self.creation_time, self.expiration_time, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_generator_g,
-            self.group_order_q, self.key_value_y, self.signatures)
+    def to_public_key(self, primary_public_key=None):
+        if primary_public_key is None:
+            primary_public_key = self.primary_public_key
+        key = self._PublicClass(primary_public_key, *self._public_key_args())
         key.packet_header_type = self.packet_header_type
+        key.signatures = [s.copy_to(key) for s in self.signatures]
         return key
 
 
@@ -706,6 +710,12 @@ class UserID(SignedMixin):
         return '<{0} {1}>'.format(self.__class__.__name__,
                                  repr(self.user_id))
 
+    def copy_to(self, primary_public_key):
+        result = copy.copy(self)
+        result._primary_public_key_ref = weakref.ref(primary_public_key)
+        result.signatures = [s.copy_to(result) for s in self.signatures]
+        return result
+
     @property
     def primary_public_key(self):
         return self._primary_public_key_ref()
@@ -827,6 +837,13 @@ class UserAttribute(SignedMixin):
         self.content_items = content_items
         self.signatures = signatures
 
+    def copy_to(self, primary_public_key):
+        result = copy.copy(self)
+        result._primary_public_key_ref = weakref.ref(primary_public_key)
+        result.content_items = list(self.content_items)
+        result.signatures = [s.copy_to(result) for s in self.signatures]
+        return result
+
     @property
     def primary_public_key(self):
         return self._primary_public_key_ref()
@@ -1089,9 +1106,11 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
 
     def to_public_key(self):
         key = super(TransferableSecretKey, self).to_public_key()
-        key.user_ids = self.user_ids
-        key.user_attributes = self.user_attributes
-        key.subkeys = list(map(lambda k: k.to_public_key(), self.subkeys))
+        # The components refer to the key they belong to, so the public key
+        # needs its own.
+        key.user_ids = [u.copy_to(key) for u in self.user_ids]
+        key.user_attributes = [u.copy_to(key) for u in self.user_attributes]
+        key.subkeys = [k.to_public_key(key) for k in self.subkeys]
         return key
 
     def unlock(self, passphrase):
-- 
2.43.0


From d19a7f137954839a8c7524c88bfcd01cf0d783c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 040/109] fix: encode digests and signature values for RSA, DSA
 and ElGamal as prescribed

---
 pgp/utils.py | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 5ce64ac..949ec7a 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -107,49 +107,54 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
                 k = random.StrongRandom().randint(1, secret_key.p - 1)
                 if GCD(k, secret_key.p - 1) == 1:
                     break
-            print(k)
         # TODO: Remove dependence on undocumented method
         sig_string = PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
-                            hash_, secret_key.size())
+                            hash_, (secret_key.size() + 8) // 8)
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
         if k is None:
-            k = random.StrongRandom().randint(1, q - 1)
+            k = random.StrongRandom().randint(2, q - 1)
 
-        digest = hash_.digest()[:qbytes]
-        return secret_key.sign(bytes_to_long(digest), k)
+        return secret_key.sign(dsa_digest_to_int(hash_.digest(), q), k)
     else:
         # TODO: complete
         raise ValueError
 
 
+def dsa_digest_to_int(digest, q):
+    """The leftmost bits of the digest, as many as q has."""
+
+    result = bytes_to_long(digest)
+    excess = len(digest) * 8 - int(q).bit_length()
+    if excess > 0:
+        result >>= excess
+    return result
+
+
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
-        s = long_to_bytes(values[0])
+        if len(values) != 1 or values[0] >= public_key.n:
+            return False
+        # The number lacks the leading zero octets of the signature string.
+        length = (int(public_key.n).bit_length() + 7) // 8
+        s = long_to_bytes(values[0], length)
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
     elif pub_algorithm_type == 20:
         # ELG
+        if len(values) != 2 or values[1] >= public_key.p - 1:
+            return False
         # TODO: Remove dependence on undocumented method
         sig_string = PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
-                            hash_, public_key.size())
+                            hash_, (public_key.size() + 8) // 8)
         return public_key.verify(sig_string, values)
     elif pub_algorithm_type == 17:
         # DSA
-        q = public_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
-
-        digest = hash_.digest()
-        # Discard empty leading bytes
-        start = 0
-        while digest[start] == b'\x00':
-            start += 1
-        digest = digest[start:start + qbytes]
-        return public_key.verify(bytes_to_long(digest), values)
+        if len(values) != 2:
+            return False
+        return public_key.verify(
+            dsa_digest_to_int(hash_.digest(), public_key.q), values)
     else:
         # TODO: complete this
         raise ValueError
-- 
2.43.0


From 6dc1664b54b4493c511a12dd1ad6a074044b5018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 041/109] fix: blind session keys encrypted with ElGamal

---
 pgp/packets/packets.py | 48 ++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 786a7b6..18233e1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -21,7 +21,9 @@ import warnings
 from Crypto import Random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
 from Crypto.Hash import SHA
+from Crypto.Random import random
 
+from pgp.exceptions import UnsupportedPublicKeyAlgorithm
 from pgp.packets import constants
 from pgp.packets.signature_subpackets import signature_subpacket_from_data
 from pgp.packets.signature_subpackets import EmbeddedSignatureSubpacket
@@ -61,7 +63,8 @@ class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
         # Step 2b
         em = b'\x00\x02' + ps + b'\x00' + message
         # Step 3a (OS2IP), step 3b (RSAEP), part of step 3c (I2OSP)
-        m = self._key.encrypt(em, 0)
+        blind = random.StrongRandom().randint(1, int(self._key.p) - 2)
+        m = self._key.encrypt(em, blind)
         # Skip step 3c (I2OSP)
         # ...
         return m
@@ -200,13 +203,17 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
                                  encrypted_session_key):
         if public_key_algorithm in (1, 2, 3):
             cipher = PKCS115_Cipher(secret_key_obj)
-        elif public_key_algorithm in (16,):
+            modulus = secret_key_obj.n
+            expected_values = 1
+        elif public_key_algorithm in (16, 20):
             cipher = PKCS115_ElGamal_Cipher(secret_key_obj)
+            modulus = secret_key_obj.p
+            expected_values = 2
         else:
-            cipher = secret_key_obj
+            raise ValueError(public_key_algorithm)
         sentinel = Random.new().read((secret_key_obj.size() + 1) // 8)
         encrypted_session_key_length = len(encrypted_session_key)
-        decrypted_values = []
+        key_length = (int(modulus).bit_length() + 7) // 8
         offset = 0
         ems = []
 
@@ -215,7 +222,11 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             offset += 2
             em = encrypted_session_key[offset:offset + mpilen]
             offset += mpilen
-            ems.append(bytes(em))
+            # MPIs lack the leading zero octets.
+            ems.append(b'\x00' * (key_length - len(em)) + bytes(em))
+
+        if len(ems) != expected_values:
+            raise ValueError('Wrong number of encrypted values.')
 
         if len(ems) == 1:
             # RSA takes a single argument.
@@ -225,20 +236,8 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             em = tuple(ems)
 
         m = cipher.decrypt(em, sentinel)
-        if m == sentinel:
+        if m == sentinel or len(m) < 3:
             raise ValueError()
-        decrypted_values.append(m)
-
-        if public_key_algorithm in (1, 2, 3, 16):
-            # RSA / ElGamal
-            m = decrypted_values[0]
-        elif public_key_algorithm in (17, 19):
-            # This was broken when adding ElGamal support. Did it work
-            # before we added ElGamal? Then we should fix this. I doubt
-            # it though, since the sentinel argument was only valid for
-            # the PKCS115_Cipher.
-            raise NotImplementedError()
-            m = decrypted_values[1]
 
         symmetric_algorithm = int(m[0])
         expected_checksum = (
@@ -256,10 +255,10 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
                            symmetric_algorithm, session_key):
         if public_key_algorithm in (1, 2, 3):
             cipher = PKCS115_Cipher(key_obj)
-        elif public_key_algorithm in (16,):
+        elif public_key_algorithm in (16, 20):
             cipher = PKCS115_ElGamal_Cipher(key_obj)
         else:
-            cipher = key_obj
+            raise UnsupportedPublicKeyAlgorithm(public_key_algorithm)
         encrypted_key = bytearray()
         session_key = bytearray(session_key)
         checksum = sum(session_key) % 65536
@@ -268,14 +267,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             checksum >> 8,
             checksum & 0xff
             ]))
-        if public_key_algorithm in (1, 2, 3, 16):
-            # RSA / ElGamal
-            values = cipher.encrypt(session_key)
-        else:
-            k = Random.random.randint(1, cipher.p - 2)
-            values = cipher.encrypt(utils.bytes_to_int(session_key, 0,
-                                                       len(session_key)), k)
-            values = map(utils.int_to_bytes, values)
+        values = cipher.encrypt(session_key)
         if isinstance(values, bytes):
             values = (values,)
         for v in values:
-- 
2.43.0


From 77083cbc0214a0a07815e3f88ebad3ad6892dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 042/109] fix: use encrypt-only RSA keys

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 0415754..e6cf9c3 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -377,7 +377,7 @@ class BasePublicKey(SignedMixin):
                                        long(self.group_generator_g),
                                        long(self.key_value_y)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e)
                                        ))
@@ -500,7 +500,7 @@ class BaseSecretKey(BasePublicKey):
                                        long(self.key_value_y),
                                        long(self.exponent_x)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e),
                                        long(self.exponent_d),
-- 
2.43.0


From 9b875ed770094940b714bff456ed1f418a0d0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 043/109] fix: compress and decompress with every algorithm,
 level and number of calls

---
 pgp/utils.py | 53 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 949ec7a..f844a55 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -316,7 +316,7 @@ class ZlibCompression(object):
         self._obj = None
         self._compress = None
         self._result = b''
-        self.level = level
+        self.level = zlib.Z_DEFAULT_COMPRESSION if level is None else level
 
     def compress(self, data):
         if self._result is None:
@@ -327,7 +327,7 @@ class ZlibCompression(object):
         if self._obj is None:
             self._compress = True
             self._obj = zlib.compressobj(self.level)
-            self._result += self._obj.compress(data)
+        self._result += self._obj.compress(data)
         return b''
 
     def decompress(self, data):
@@ -362,7 +362,7 @@ class DeflateCompression(object):
         self._obj = None
         self._compress = None
         self._result = b''
-        self.level = level
+        self.level = zlib.Z_DEFAULT_COMPRESSION if level is None else level
 
     def compress(self, data):
         if self._result is None:
@@ -403,6 +403,49 @@ class DeflateCompression(object):
         return result
 
 
+class Bzip2Compression(object):
+
+    def __init__(self, level):
+        self._obj = None
+        self._compress = None
+        self._result = b''
+        self.level = level or 9
+
+    def compress(self, data):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        if self._compress is False:
+            raise ValueError
+        if self._obj is None:
+            self._compress = True
+            self._obj = bz2.BZ2Compressor(self.level)
+        self._result += self._obj.compress(data)
+        return b''
+
+    def decompress(self, data):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        if self._compress is True:
+            raise ValueError
+        if self._obj is None:
+            self._compress = False
+            self._obj = bz2.BZ2Decompressor()
+        self._result += self._obj.decompress(data)
+        return b''
+
+    def flush(self):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        result = self._result
+        if self._compress:
+            result += self._obj.flush()
+        self._result = None
+        return result
+
+
 def get_compression_instance(type_, level=None):
 
     instance = None
@@ -415,7 +458,9 @@ def get_compression_instance(type_, level=None):
         # ZLIB - RFC 1950
         instance = ZlibCompression(level)
     elif type_ == 3:
-        instance = bz2.BZ2Compressor(level)
+        instance = Bzip2Compression(level)
+    else:
+        raise ValueError('Unknown compression algorithm.')
 
     return instance
 
-- 
2.43.0


From acae09991f1b68fa9c6d9699398da9dd23e7b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 044/109] fix: make text signatures over canonical text in the
 encoding of the message

---
 pgp/message.py         | 34 ++++++++++++++++++++++------------
 pgp/packets/packets.py | 27 +++++++++++----------------
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0ad1295..ad297f5 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -30,7 +30,7 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-INCOMPLETE_CRLF = re.compile(b'(\r[^\n]|[^\r]\n)', re.M)
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
 
 
 class MessageSignature(BaseSignature):
@@ -148,7 +148,9 @@ class LiteralMessage(BaseMessage):
         filename = packet.filename
         timestamp = datetime.datetime.fromtimestamp(packet.time)
         data = packet.data
-        return class_(data, filename, timestamp)
+        result = class_(data, filename, timestamp)
+        result.data_format = data_format
+        return result
 
     @abc.abstractmethod
     def __init__(self, data, filename, timestamp):
@@ -163,39 +165,47 @@ class LiteralMessage(BaseMessage):
     def to_packets(self, header_format=None):
         return [self.to_packet(header_format)]
 
+    def _get_signed_bytes(self):
+        return bytes(self.data)
+
     def to_signable_data(self, signature_type, signature_version=3):
-        return self.data
+        data = self._get_signed_bytes()
+        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+            return LINE_ENDING.sub(b'\r\n', data)
+        return data
 
 
 class TextMessage(LiteralMessage):
 
+    data_format = b'u'
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'u', self.filename, self.timestamp,
-                    self.data)
+                    header_format, self.data_format, self.filename,
+                    self.timestamp, self.data)
 
     def __init__(self, data, filename, timestamp):
         self.data = data
         self.filename = filename
         self.timestamp = timestamp
 
-    def to_signable_data(self, signature_type, signature_version=3):
-        data = self.data.encode('utf8')
-        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return INCOMPLETE_CRLF.sub(b'\r\n', data)
-        return data
+    def _get_signed_bytes(self):
+        return packets.LiteralDataPacket.encode_text(self.data_format,
+                                                     self.data)
 
 
 class BinaryMessage(LiteralMessage):
 
+    data_format = b'b'
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'b', self.filename, self.timestamp,
-                    self.data)
+                    header_format, self.data_format, self.filename,
+                    self.timestamp, self.data)
 
     def __init__(self, data, filename, timestamp):
         self.data = data
diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 18233e1..77548ec 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -14,7 +14,6 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
-import os
 import time
 import warnings
 
@@ -1260,22 +1259,17 @@ class LiteralDataPacket(Packet):
         time = utils.long_to_int(data, offset)
         offset += 4
         content = data[offset:]
-        encoding = None
         if b't' == data_format:
             # TODO: Unknown encoding
-            encoding = 'latin-1'
+            content = content.decode('latin-1')
         elif b'u' == data_format:
-            encoding = 'utf8'
+            content = content.decode('utf8', 'surrogateescape')
         elif b'b' == data_format:
             pass
         elif data_format in (b'l', b'1'):
             # RFC 1991 ncorrectly stated this local mode flag as '1'
             # (ASCII numeral one).
             pass
-        if encoding:
-            content = content.decode(encoding)
-        if data_format in (b't', b'u'):
-            content.replace('\r\n', os.linesep)
 
         result = cls(header_format, data_format, filename, time, content)
         result._content = data
@@ -1298,6 +1292,14 @@ class LiteralDataPacket(Packet):
             and self.data == other.data
             )
 
+    @staticmethod
+    def encode_text(data_format, text):
+        if data_format == b't':
+            return text.encode('latin-1', 'replace')
+        elif data_format == b'u':
+            return text.encode('utf8', 'surrogateescape')
+        return text
+
     @property
     def content(self):
         if self.data_format in (b'l', b'1'):
@@ -1314,14 +1316,7 @@ class LiteralDataPacket(Packet):
         if not isinstance(timestamp, int):
             timestamp = utils.datetime_to_timestamp(timestamp)
         data.extend(utils.int_to_4byte(timestamp))
-        content = self.data
-        if self.data_format in (b't', b'u'):
-            content.replace(os.linesep, '\r\n')
-        if self.data_format == b't':
-            content = content.encode('latin-1', 'replace')
-        elif self.data_format == b'u':
-            content = content.encode('utf8', 'replace')
-        data.extend(content)
+        data.extend(self.encode_text(self.data_format, self.data))
         return data
 
 
-- 
2.43.0


From cee2ab2573d70ddda91995c79c9d97a1e8a2300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 045/109] fix: encrypt to hidden recipients without naming
 their key

---
 pgp/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index ad297f5..ad7e088 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -67,6 +67,8 @@ class BaseMessage(object):
                 '`public_keys`.')
         elif public_key is not None:
             public_keys = [public_key]
+        if public_keys is None:
+            public_keys = []
         if hidden_public_keys is None:
             hidden_public_keys = []
         if session_key is None:
@@ -349,7 +351,8 @@ class PublicKeySessionKey(object):
         self.key_id = key_id
         if public_key:
             self.public_key_algorithm = public_key.public_key_algorithm
-            self.key_id = public_key.key_id
+            if not hide_key_id:
+                self.key_id = public_key.key_id
         if encrypted_key:
             self.encrypted_key = encrypted_key
         if session_key:
-- 
2.43.0


From 0ded6ff4601cfe62c40905d39eff1cc5c0dab3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 046/109] fix: name the cipher that encrypts a session key, not
 the one it is for

---
 pgp/message.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index ad7e088..fc9c495 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -273,7 +273,8 @@ class SymmetricSessionKey(object):
             passphrase = passphrase.encode('utf8')
 
         return PacketCls._get_key_and_cipher_algo(
-                    self.s2k_specification, self.symmetric_algorithm,
+                    self.s2k_specification,
+                    self.s2k_specification.symmetric_algorithm,
                     passphrase, self.encrypted_key)
 
     def set_session_key(self, passphrase, session_key=None):
@@ -305,7 +306,9 @@ class SymmetricSessionKey(object):
         return packets.SymmetricKeyEncryptedSessionKeyPacket(
             header_format,
             4,  # "The only currently defined version is 4."
-            self.symmetric_algorithm,
+            # The algorithm the session key is encrypted with. The one it is
+            # for, if different, is encrypted along with it.
+            self.s2k_specification.symmetric_algorithm,
             self.s2k_specification,
             self.encrypted_key
             )
-- 
2.43.0


From e3f8f5cf2e39be761a75871a51ca9f280d8c1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 047/109] fix: encrypt and decrypt data with and without
 integrity protection as prescribed

---
 pgp/message.py | 133 +++++++++++++++++++------------------------------
 1 file changed, 51 insertions(+), 82 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index fc9c495..bd55b93 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -417,8 +417,11 @@ class SymmetricallyEncryptedMessageData(object):
         version = None
         if integrity_protected:
             version = packet.version
+            encrypted_data = packet.encrypted_data
+        else:
+            encrypted_data = packet.data
         return cls(
-            encrypted_data=packet.encrypted_data,
+            encrypted_data=encrypted_data,
             integrity_protected=integrity_protected,
             version=version
             )
@@ -428,90 +431,76 @@ class SymmetricallyEncryptedMessageData(object):
         self.data = encrypted_data
         self.integrity_protected = integrity_protected
         self.version = version
-        if data:
+        if data is not None:
             self.encrypt(symmetric_algorithm, session_key, data)
 
     def encrypt(self, symmetric_algo, key, message):
         block_len = utils.symmetric_cipher_block_lengths[symmetric_algo]
         iv = Random.new().read(block_len)
-        data = bytearray()
-        cipher = utils.get_symmetric_cipher(
-            symmetric_algo,
-            key,
-            utils.CFB,
-            b'\x00' * block_len
-            )
-        padding = 0
         if not self.integrity_protected:
-            padding = block_len - len(message) % block_len
-            message = message + b'\x00' * padding
-            data.extend(cipher.encrypt(iv + iv[-2:]))
+            # The cipher writes the prefix itself and resynchronizes after it.
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
-                utils.CFB,
+                utils.OPENPGP,
                 iv
                 )
-            data.extend(cipher.encrypt(message))
+            self.data = bytearray(cipher.encrypt(bytes(message)))
         else:
-            padding = block_len - (len(message) + 2 + 22) % block_len
-            data.extend(cipher.encrypt(iv))
-            hash_ = SHA.new(iv)
-            hash_.update(iv[-2:])
-            message = message + b'\xd3\x14'
-            hash_.update(message)
-            mdc = hash_.digest()
-            message = message + mdc + (b'\x00' * padding)
-            data.extend(cipher.encrypt(iv[-2:] + message)[:-padding])
-
-        self.data = data
+            cipher = utils.get_symmetric_cipher(
+                symmetric_algo,
+                key,
+                utils.CFB,
+                b'\x00' * block_len
+                )
+            message = iv + iv[-2:] + bytes(message) + b'\xd3\x14'
+            message += SHA.new(message).digest()
+            padding = -len(message) % block_len
+            message += b'\x00' * padding
+            data = bytearray(cipher.encrypt(message))
+            self.data = data[:len(data) - padding]
 
     def decrypt(self, symmetric_algo, key):
         encrypted_data = bytes(self.data)
-        decrypted_data = bytearray()
-        offset = 0
-        padding = 0
-        block_len = utils.symmetric_cipher_block_lengths[symmetric_algo]
-        encrypted_iv = encrypted_data[:block_len + 2]
-        cipher = utils.get_symmetric_cipher(
-            symmetric_algo,
-            key,
-            utils.CFB,
-            b'\x00' * block_len)
-        decrypted_iv = cipher.decrypt(encrypted_data[:block_len])
+        block_len = utils.symmetric_cipher_block_lengths.get(symmetric_algo)
+        if not block_len:
+            raise ValueError('Unknown symmetric algorithm.')
+        if len(encrypted_data) < block_len + 2:
+            raise ValueError('Encrypted data is incomplete.')
         if self.integrity_protected:
             # "Unlike the Symmetrically Encrypted Data Packet, no special CFB
             #  resynchronization is done after encrypting this prefix data."
-            offset += block_len
-            first_block = cipher.decrypt(
-                encrypted_data[offset:offset + block_len])
-            offset += block_len
-            iv_check = first_block[:2]
-            if iv_check != decrypted_iv[-2:]:
-                raise ValueError()
-
-            decrypted_data.extend(first_block[2:])
-
-            # Pad the remaining data manually
-            padding = block_len - (len(encrypted_data) - offset) % block_len
-            encrypted_data += b'\x00' * padding
+            cipher = utils.get_symmetric_cipher(
+                symmetric_algo,
+                key,
+                utils.CFB,
+                b'\x00' * block_len)
+            # Pad the data manually
+            padding = -len(encrypted_data) % block_len
+            decrypted_data = cipher.decrypt(
+                encrypted_data + b'\x00' * padding)[:len(encrypted_data)]
+            if (decrypted_data[block_len - 2:block_len] !=
+                    decrypted_data[block_len:block_len + 2]):
+                raise ValueError('Wrong session key.')
+            # We run into trouble here with partial body lengths and the MDC.
+            # Let's make pretend.
+            if decrypted_data[-22:-20] != b'\xd3\x14':
+                raise ValueError(
+                    'Integrity protected message is missing modification '
+                    'detection code.')
+            if SHA.new(decrypted_data[:-20]).digest() != decrypted_data[-20:]:
+                raise ValueError(
+                    'Integrity protected message does not match modification '
+                    'detection code.')
+            main_data = decrypted_data[block_len + 2:-22]
         else:
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
                 utils.OPENPGP,
-                encrypted_iv)
-
-        decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
-        decrypted_data = decrypted_data[:-padding]
-        # We run into trouble here with partial body lengths and the MDC.
-        # Let's make pretend.
-        mdc_data = bytearray()
-        main_data = decrypted_data
-        if decrypted_data[-22:-20] == b'\xd3\x14':
-            # It's there. Hold it back.
-            mdc_data = decrypted_data[-22:]
-            main_data = decrypted_data[:-22]
+                encrypted_data[:block_len + 2])
+            main_data = cipher.decrypt(encrypted_data[block_len + 2:])
+
         data_len = len(main_data)
         offset = 0
         decrypted_packets = []
@@ -519,26 +508,6 @@ class SymmetricallyEncryptedMessageData(object):
             offset, packet = packets.packet_from_packet_data(main_data, offset)
             decrypted_packets.append(packet)
 
-        if mdc_data:
-            # One more for the MDC
-            offset, packet = packets.packet_from_packet_data(mdc_data, 0)
-            decrypted_packets.append(packet)
-
-        if self.integrity_protected:
-            if (decrypted_packets[-1].type !=
-                    C.MODIFICATION_DETECTION_CODE_PACKET_TYPE):
-                raise ValueError(
-                    'Integrity protected message is missing modification '
-                    'detection code.')
-            mdc = decrypted_packets.pop()
-            hash_ = SHA.new(decrypted_iv)
-            hash_.update(decrypted_iv[-2:])
-            hash_.update(decrypted_data[:-20])
-            if mdc.data != hash_.digest():
-                raise ValueError(
-                    'Integrity protected message does not match modification '
-                    'detection code.')
-
         return open_pgp_message_from_packets(decrypted_packets)
 
     def to_packet(self, header_format=None):
-- 
2.43.0


From 565918611d451f89defe6ee7fc4a51b998e19adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 048/109] fix: try every session key a secret may open

---
 pgp/message.py | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index bd55b93..8c58022 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -363,6 +363,12 @@ class PublicKeySessionKey(object):
                                                symmetric_algorithm,
                                                session_key)
 
+    def may_be_for(self, key):
+        if key is None or self.public_key_algorithm != key.public_key_algorithm:
+            return False
+        # Without a key ID, any key may be the one.
+        return self.key_id in (None, key.key_id)
+
     def get_algorithm_and_session_key(self, secret_key):
         if secret_key.is_locked():
             raise RuntimeError('Key must be unlocked.')
@@ -391,6 +397,8 @@ class DefaultSessionKey(object):
     key_hash_algorithm = 1  # MD5
 
     def get_algorithm_and_session_key(self, passphrase):
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
         hash_ = utils.get_hash_instance(self.key_hash_algorithm)
         hash_.update(passphrase)
         key = hash_.digest()
@@ -399,6 +407,9 @@ class DefaultSessionKey(object):
     def set_algorithm_and_session_key(self, *args, **kwargs):
         raise TypeError()
 
+    def to_packet(self, header_format=None):
+        return None
+
 
 EncryptedSessionKey.register(DefaultSessionKey)
 SymEncAndIPDPacket = \
@@ -574,31 +585,28 @@ class EncryptedMessageWrapper(BaseMessage):
         #  Symmetrically Encrypted Integrity Protected Data packet as well as
         #  decompressing a Compressed Data packet must yield a valid OpenPGP
         #  Message."
-        sym_algo = None
-        sess_key = None
+        is_passphrase = isinstance(secret_key_or_passphrase,
+                                   (str, bytes, bytearray))
+        # TODO: raise a better error
+        error = ValueError('Message is not encrypted to this secret.')
         for sess_key_obj in self.session_keys:
             if isinstance(sess_key_obj, PublicKeySessionKey):
-                try:
-                    sym_algo, sess_key = \
-                        sess_key_obj.get_algorithm_and_session_key(
-                            secret_key_or_passphrase)
-                except ValueError:
+                if is_passphrase or not sess_key_obj.may_be_for(
+                        secret_key_or_passphrase):
                     continue
-            elif isinstance(sess_key_obj, SymmetricSessionKey):
-                sym_algo, sess_key = \
-                    sess_key_obj.get_algorithm_and_session_key(
-                        secret_key_or_passphrase)
-            elif isinstance(sess_key_obj, DefaultSessionKey):
+            elif not is_passphrase:
+                continue
+            # Only the message itself shows which of several session keys
+            # the secret opens, so the next one is tried if this one fails.
+            try:
                 sym_algo, sess_key = \
                     sess_key_obj.get_algorithm_and_session_key(
                         secret_key_or_passphrase)
-            else:
-                # TODO: consider raising an error
-                continue
-            return self.message_data_obj.decrypt(sym_algo, sess_key)
+                return self.message_data_obj.decrypt(sym_algo, sess_key)
+            except ValueError as e:
+                error = e
 
-        # TODO: raise a better error
-        raise ValueError()
+        raise error
 
     def to_packets(self, header_format=None):
         packets = []
-- 
2.43.0


From 7f6159c705eff6a65056d3e625d990d5749ec2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 049/109] fix: read and write signed messages in the order
 prescribed and refuse incomplete ones

---
 pgp/message.py | 97 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 65 insertions(+), 32 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 8c58022..30421cf 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -568,13 +568,10 @@ class EncryptedMessageWrapper(BaseMessage):
                 break
             packet = packets.popleft()
 
-        if not session_keys:
-            raise ValueError
-
-        if packet.type in encrypted_message_packet_types:
+        if packet.type in encrypted_message_data_packet_types:
             return cls(session_keys, parse_encrypted_message_packet(packet))
 
-        raise TypeError
+        raise ValueError('Encrypted data is missing.')
 
     def __init__(self, session_keys, message_data_obj):
         self.session_keys = session_keys
@@ -631,23 +628,34 @@ class SignedMessageWrapper(BaseMessage):
 
     @classmethod
     def from_packets(cls, packets):
-        one_pass = False
-        signatures = []
-        message = None
-        for packet in packets:
-            if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
-                one_pass = True
-            elif packet.type == C.SIGNATURE_PACKET_TYPE:
-                if message:
-                    signature = parse_signature_from_packet(packet, message,
-                                                            one_pass=one_pass)
-                    signatures.append(signature)
-                else:
-                    raise TypeError()
-            elif message is None:
-                message = open_pgp_message_from_packets([packet])
-            else:
-                raise TypeError()
+        signature_packets = []
+        one_pass = packets[0].type == C.ONE_PASS_SIGNATURE_PACKET_TYPE
+        if one_pass:
+            count = 0
+            while packets and (packets[0].type ==
+                               C.ONE_PASS_SIGNATURE_PACKET_TYPE):
+                count += 1
+                # "A zero value indicates that the next packet is another
+                #  One-Pass Signature packet that describes another signature
+                #  to be applied to the same message data."
+                if packets.popleft().nested:
+                    break
+            message = parse_message_from_packets(packets)
+            while packets and len(signature_packets) < count:
+                packet = packets.popleft()
+                if packet.type != C.SIGNATURE_PACKET_TYPE:
+                    raise ValueError('Unexpected packet in signed message.')
+                # The first signature corresponds to the last one-pass packet.
+                signature_packets.insert(0, packet)
+            if len(signature_packets) != count:
+                raise ValueError('Signed message is missing a signature.')
+        else:
+            while packets and packets[0].type == C.SIGNATURE_PACKET_TYPE:
+                signature_packets.append(packets.popleft())
+            message = parse_message_from_packets(packets)
+        signatures = [
+            parse_signature_from_packet(packet, message, one_pass=one_pass)
+            for packet in signature_packets]
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
@@ -661,6 +669,7 @@ class SignedMessageWrapper(BaseMessage):
     def to_packets(self, header_format=None):
         pkts = []
         op_header_format = header_format
+        signatures = [sig.to_packet(header_format) for sig in self.signatures]
         if self.one_pass:
             i = 0
             for sig in self.signatures:
@@ -675,13 +684,20 @@ class SignedMessageWrapper(BaseMessage):
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
                         sig.issuer_key_ids[0],
-                        nested=(i != len(self.signatures))
+                        # Zero unless this is the last one for this message.
+                        nested=int(i == len(self.signatures))
                     ))
+        else:
+            pkts.extend(signatures)
         pkts.extend(self.message.to_packets(header_format))
-        for sig in self.signatures:
-            pkts.append(sig.to_packet(header_format))
+        if self.one_pass:
+            pkts.extend(reversed(signatures))
         return pkts
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        return self.message.to_signable_data(signature_type,
+                                             signature_version)
+
 
 class CompressedMessageWrapper(BaseMessage):
     # A compressed data packet
@@ -706,6 +722,10 @@ class CompressedMessageWrapper(BaseMessage):
             self.compression_algorithm, self.data)
         return open_pgp_message_from_packets(pkts)
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        return self.get_message().to_signable_data(signature_type,
+                                                   signature_version)
+
     def set_message(self, message):
         pkts = message.to_packets()
         self.data = packets.CompressedDataPacket.compress_packets(
@@ -721,24 +741,37 @@ class CompressedMessageWrapper(BaseMessage):
         return [self.to_packet(header_format)]
 
 
-def open_pgp_message_from_packets(pkts):
-    pkts = collections.deque(pkts)
-    packet = pkts.popleft()
+def parse_message_from_packets(pkts):
+    """Take the packets of one message off a deque of packets."""
+
+    if not pkts:
+        raise ValueError('Message is missing.')
+    packet = pkts[0]
     if packet.type in encrypted_message_packet_types:
-        pkts.appendleft(packet)
         result = EncryptedMessageWrapper.from_packets(pkts)
     elif packet.type in (C.ONE_PASS_SIGNATURE_PACKET_TYPE,
                          C.SIGNATURE_PACKET_TYPE):
-        pkts.appendleft(packet)
         result = SignedMessageWrapper.from_packets(pkts)
     elif packet.type == C.COMPRESSED_DATA_PACKET_TYPE:
-        result = CompressedMessageWrapper.from_packet(packet)
+        result = CompressedMessageWrapper.from_packet(pkts.popleft())
     elif packet.type == C.LITERAL_DATA_PACKET_TYPE:
-        result = LiteralMessage.from_packet(packet)
+        result = LiteralMessage.from_packet(pkts.popleft())
+    else:
+        raise ValueError('Unexpected packet in message.')
 
     return result
 
 
+def open_pgp_message_from_packets(pkts):
+    # "Such a packet MUST be ignored when received."
+    pkts = collections.deque(
+        p for p in pkts if p.type != C.MARKER_PACKET_TYPE)
+    result = parse_message_from_packets(pkts)
+    if pkts:
+        raise ValueError('Unexpected packet after message.')
+    return result
+
+
 # https://tools.ietf.org/html/rfc4880#section-11.4
 class DetachedSignature(object):
     # A single signature packet
-- 
2.43.0


From 325f057b762b7c5617ee23c0476731b22859048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 050/109] fix: read back signature properties as they were set
 and remove them when cleared

---
 pgp/signature.py | 292 ++++++++++++++++++++++++++---------------------
 1 file changed, 159 insertions(+), 133 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 41c4bfd..9f36388 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -17,7 +17,6 @@
 import copy
 import datetime
 import re
-import time
 import weakref
 
 from zope.interface import implementer
@@ -35,6 +34,20 @@ from pgp.user_id import parse_user_id
 _marker = object()
 
 
+# Values of the properties that share a subpacket with others while they are
+# not set.
+_shared_subpacket_values = {
+    C.TRUST_SUBPACKET_TYPE: {'depth': 0, 'amount': 0},
+    C.REVOCATION_REASON_SUBPACKET_TYPE: {
+        'revocation_code': 0, 'revocation_reason': ''},
+    C.KEY_FLAGS_SUBPACKET_TYPE: {
+        'may_certify_others': False, 'may_sign_data': False,
+        'may_encrypt_comms': False, 'may_encrypt_storage': False,
+        'may_be_used_for_auth': False, 'may_have_been_split': False,
+        'may_have_multiple_owners': False},
+    }
+
+
 @implementer(interfaces.INotation)
 class Notation(object):
 
@@ -108,6 +121,25 @@ class RevocationKeyInfo(object):
         return crc24(bytes(self.to_subpacket()))
 
 
+def _check_seconds(value):
+    if not 0 <= value <= 0xffffffff:
+        raise ValueError('Time is out of range.')
+    return value
+
+
+def _add_seconds(dt, seconds):
+    return datetime.datetime.fromtimestamp(
+        utils.datetime_to_timestamp(dt) + seconds)
+
+
+def _seconds_between(start, end):
+    seconds = (utils.datetime_to_timestamp(end) -
+               utils.datetime_to_timestamp(start))
+    if seconds <= 0:
+        raise ValueError('Expiration time is not after the creation time.')
+    return _check_seconds(seconds)
+
+
 @implementer(interfaces.ISignature)
 class BaseSignature(object):
 
@@ -228,16 +260,16 @@ class BaseSignature(object):
         self.hash_algorithm = hash_algorithm
         self.hash2 = hash2
         self.signature_values = signature_values
+        self.hashed_subpackets = hashed_subpackets or []
+        self.unhashed_subpackets = unhashed_subpackets or []
         if version in (2, 3):
             self._creation_time = creation_time
             self._issuer_key_id = issuer_key_id
         elif version >= 4:
             if creation_time is not None:
-                self._creation_time = creation_time
+                self.creation_time = creation_time
             if issuer_key_id is not None:
                 self.issuer_key_ids = [issuer_key_id]
-        self.hashed_subpackets = hashed_subpackets or []
-        self.unhashed_subpackets = unhashed_subpackets or []
         if current_time_fn is None:
             current_time_fn = datetime.datetime.now
         self.get_current_time = current_time_fn
@@ -270,11 +302,23 @@ class BaseSignature(object):
         else:
             self.unhashed_subpackets.append(sp)
 
-    def _remove_subpacket(self, sp):
-        while sp in self.hashed_subpackets:
-            self.hashed_subpackets.remove(sp)
-        while sp in self.unhashed_subpackets:
-            self.unhashed_subpackets.remove(sp)
+    def _set_subpackets(self, type_, subpackets):
+        """Put these in the place of all subpackets of the type."""
+
+        existing = self._get_subpackets(type_)
+        area = self.hashed_subpackets
+        if existing and not [sp for sp in area if sp.type == type_]:
+            area = self.unhashed_subpackets
+        index = len(area)
+        for i, sp in enumerate(area):
+            if sp.type == type_:
+                index = i
+                break
+        for subpacket_area in (self.hashed_subpackets,
+                               self.unhashed_subpackets):
+            subpacket_area[:] = [
+                sp for sp in subpacket_area if sp.type != type_]
+        area[index:index] = subpackets
 
     def _get_subpacket_values(self, type_, attr, as_list=False):
         subpackets = self._get_subpackets(type_)
@@ -289,24 +333,53 @@ class BaseSignature(object):
         return result
 
     def _update_subpacket_values(self, type_, attr, value):
-        subpackets = self._get_subpackets(type_)
-        if subpackets:
-            for s in subpackets:
-                setattr(s, attr, value)
+        if value is None:
+            self._clear_subpacket_values(type_, attr)
+        elif self._get_subpackets(type_):
+            self._replace_subpacket_values(type_, attr, value)
         else:
             self._add_subpacket_values(type_, attr, value)
 
+    def _replace_subpacket_values(self, type_, attr, value):
+        for area in (self.hashed_subpackets, self.unhashed_subpackets):
+            for i, sp in enumerate(area):
+                if sp.type == type_:
+                    # Other signatures may refer to the same subpacket.
+                    sp = copy.copy(sp)
+                    setattr(sp, attr, value)
+                    area[i] = sp
+
+    def _clear_subpacket_values(self, type_, attr):
+        cleared_values = _shared_subpacket_values.get(type_, {})
+        if attr in cleared_values:
+            # The subpacket holds other properties as well.
+            self._replace_subpacket_values(type_, attr, cleared_values[attr])
+            for sp in self._get_subpackets(type_):
+                for name, value in cleared_values.items():
+                    if getattr(sp, name) != value:
+                        return
+        self._set_subpackets(type_, [])
+
     def _add_subpacket_values(self, type_, attr, value, hashed=True,
                               critical=False):
+        kwargs = dict(_shared_subpacket_values.get(type_, {}))
+        kwargs[attr] = value
         sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](
-                **{attr: value, 'critical': critical})
-        self._add_subpacket(sub)
-
-    def _remove_subpacket_values(self, type_, attr, value):
-        subpackets = self._get_subpackets(type_)
-        for sp in subpackets:
-            if getattr(sp, attr) == value:
-                self._remove_subpacket(sp)
+                critical=critical, **kwargs)
+        self._add_subpacket(sub, hashed)
+
+    def _set_subpacket_list(self, type_, attr, values):
+        existing = self._get_subpackets(type_)
+        subpackets = []
+        for value in values:
+            for sp in existing:
+                if getattr(sp, attr) == value:
+                    break
+            else:
+                sp = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](
+                        **{attr: value, 'critical': False})
+            subpackets.append(sp)
+        self._set_subpackets(type_, subpackets)
 
     def _get_creation_time(self):
         if self.version in (2, 3):
@@ -315,51 +388,45 @@ class BaseSignature(object):
             value = self._get_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time')
-        return datetime.datetime.fromtimestamp(value)
+            if value is not None:
+                value = datetime.datetime.fromtimestamp(value)
+        return value
 
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
-        exp_time = self.signature__expiration_time
-        value = time.mktime(dt.timetuple())
+        exp_time = self.signature_expiration_time
+        value = _check_seconds(utils.datetime_to_timestamp(dt))
+        if (exp_time is not None
+                and utils.datetime_to_timestamp(exp_time) <= value):
+            raise ValueError('Signature expires before it is created.')
         if self.version in (2, 3):
-            self._creation_time = value
+            self._creation_time = datetime.datetime.fromtimestamp(value)
         elif self.version >= 4:
             self._update_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time', value)
-        self.signature__expiration_time = exp_time
+        if exp_time is not None:
+            self.signature_expiration_time = exp_time
 
     creation_time = property(_get_creation_time, _set_creation_time)
 
     def _get_issuer_key_ids(self):
         if self.version in (2, 3):
-            return [self._issuer_key_ids]
+            return [self._issuer_key_id]
         elif self.version >= 4:
             return self._get_subpacket_values(
                 C.ISSUER_KEY_ID_SUBPACKET_TYPE,
                 'key_id', as_list=True)
 
     def _set_issuer_key_ids(self, key_ids):
-        existing = self.issuer_key_ids
-        if self.version in (2, 3) and len(key_ids) != 1:
-            raise ValueError
-
-        for k in set(key_ids) | set(existing):
-            if k in existing and key_ids:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket_values(
-                    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-                    'key_id', k
-                    )
-            else:
-                # Add
-                self._add_subpacket_values(
-                    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-                    'key_id', k
-                    )
+        if self.version in (2, 3):
+            if len(key_ids) != 1:
+                raise ValueError
+            self._issuer_key_id = key_ids[0]
+        else:
+            self._set_subpacket_list(
+                C.ISSUER_KEY_ID_SUBPACKET_TYPE, 'key_id', key_ids)
 
     issuer_key_ids = property(_get_issuer_key_ids, _set_issuer_key_ids)
 
@@ -369,21 +436,18 @@ class BaseSignature(object):
             'time')
         # "If this is not present or has a value of zero, the key never
         #  expires."
-        if not seconds:
+        creation_time = self.creation_time
+        if not seconds or creation_time is None:
             return None
-        return self.creation_time + datetime.timedelta(seconds=seconds)
+        return _add_seconds(creation_time, seconds)
 
     def _set_signature_expiration_time(self, dt):
-        if dt is None:
-            value = 0
-        elif dt < self.creation_time:
-            raise ValueError
-        else:
-            td = dt - self.creation_time
-            value = td.seconds + td.days * 86400
-            self._update_subpacket_values(
-                C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
-                'time', value)
+        value = None
+        if dt is not None:
+            value = _seconds_between(self.creation_time, dt)
+        self._update_subpacket_values(
+            C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
+            'time', value)
 
     signature_expiration_time = property(
         _get_signature_expiration_time,
@@ -404,24 +468,24 @@ class BaseSignature(object):
     def _get_trust_amount(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount')
+            'amount')
 
     def _set_trust_amount(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            'amount', value)
 
     trust_amount = property(_get_trust_amount, _set_trust_amount)
 
     def _get_trust_depth(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth')
+            'depth')
 
     def _set_trust_depth(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth', value)
+            'depth', value)
 
     trust_depth = property(_get_trust_depth, _set_trust_depth)
 
@@ -433,24 +497,9 @@ class BaseSignature(object):
         return regexes
 
     def _set_regular_expressions(self, regexes):
-        existing = [regex.pattern for regex in self.regular_expressions]
-        regexes = [regex.pattern for regex in regexes]
-
-        for k in set(regexes) | set(existing):
-            if k in existing and regexes:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket_values(
-                    C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
-                    'pattern', k
-                    )
-            else:
-                # Add
-                self._add_subpacket_values(
-                    C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
-                    'pattern', k
-                    )
+        self._set_subpacket_list(
+            C.REGULAR_EXPRESSION_SUBPACKET_TYPE, 'pattern',
+            [regex.pattern for regex in regexes])
 
     regular_expressions = property(_get_regular_expressions,
                                    _set_regular_expressions)
@@ -465,7 +514,7 @@ class BaseSignature(object):
             C.REVOCABLE_SUBPACKET_TYPE,
             'revocable', value)
 
-    revocable = property(_get_exportable, _set_exportable)
+    revocable = property(_get_revocable, _set_revocable)
 
     def _get_notations(self):
         subpackets = self._get_subpackets(C.NOTATION_SUBPACKET_TYPE)
@@ -475,21 +524,8 @@ class BaseSignature(object):
         ]
 
     def _set_notations(self, notations):
-        existing = self.notations
-
-        for k in set(notations) | set(existing):
-            if k in existing and notations:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_subpacket()
-                    )
+        self._set_subpackets(C.NOTATION_SUBPACKET_TYPE,
+                             [n.to_subpacket() for n in notations])
 
     notations = property(_get_notations, _set_notations)
 
@@ -507,13 +543,13 @@ class BaseSignature(object):
 
     def _get_revocation_reason(self):
         return self._get_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
             'revocation_reason')
 
     def _set_revocation_reason(self, value):
         self._update_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
+            'revocation_reason', value)
 
     revocation_reason = property(_get_revocation_reason,
                                  _set_revocation_reason)
@@ -538,25 +574,23 @@ class BaseSignature(object):
         ]
 
     def _set_embedded_signatures(self, embedded_signatures):
-        existing = self.embedded_signatures
-
-        for k in set(embedded_signatures) | set(existing):
-            if k in existing and embedded_signatures:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
+        self._set_subpackets(
+            C.EMBEDDED_SIGNATURE_SUBPACKET_TYPE,
+            [s.to_packet().to_embedded_subpacket()
+             for s in embedded_signatures])
 
     embedded_signatures = property(_get_embedded_signatures,
                                    _set_embedded_signatures)
 
+    def _get_key_creation_time(self):
+        """When the key was created that this signature is about."""
+
+        key = self.parent
+        if not hasattr(key, 'public_key_algorithm'):
+            # A user ID or user attribute
+            key = key.primary_public_key
+        return key.creation_time
+
     def _get_key_expiration_time(self):
         seconds = self._get_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
@@ -564,12 +598,13 @@ class BaseSignature(object):
         # "If this is not present or has a value of zero, the key never
         #  expires."
         if not seconds:  # 0 or None
-            return seconds
-        return self.target.creation_time + datetime.timedelta(seconds=seconds)
+            return None
+        return _add_seconds(self._get_key_creation_time(), seconds)
 
     def _set_key_expiration_time(self, value):
-        delta = value - self.target.creation_time
-        seconds = delta.days * 86400 + delta.seconds
+        seconds = None
+        if value is not None:
+            seconds = _seconds_between(self._get_key_creation_time(), value)
         self._update_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
             'time', seconds)
@@ -627,21 +662,8 @@ class BaseSignature(object):
         ]
 
     def _set_revocation_keys(self, revocation_keys):
-        existing = self.revocation_keys
-
-        for k in set(revocation_keys) | set(existing):
-            if k in existing and revocation_keys:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_subpacket()
-                    )
+        self._set_subpackets(C.REVOCATION_KEY_SUBPACKET_TYPE,
+                             [k.to_subpacket() for k in revocation_keys])
 
     revocation_keys = property(_get_revocation_keys, _set_revocation_keys)
 
@@ -801,8 +823,12 @@ class BaseSignature(object):
     may_have_multiple_owners = property(
         _get_may_have_multiple_owners, _set_may_have_multiple_owners)
 
+    _target_ref = None
+
     @property
     def parent(self):
+        if self._target_ref is None:
+            return None
         return self._target_ref()
 
     @property
-- 
2.43.0


From 343c70e39676f3395aa77f1d60ec96b99729a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 051/109] fix: relate revocations to the signatures they revoke

---
 pgp/signature.py | 63 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 9f36388..d683059 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -848,30 +848,61 @@ class BaseSignature(object):
             hash_algorithm = sub.hash_algorithm
             pub_algorithm = sub.public_key_algorithm
             for sig in parent.signatures:
-                digest = utils.hash_packet_for_signature(
-                    sig.to_packet(), self.signature_type,
-                    self.signature_version,
-                    hash_algorithm,
-                    self.creation_time,
-                    pub_algorithm,
-                    )
-                if digest == expected_digest:
+                if sig.public_key_algorithm != pub_algorithm:
+                    continue
+                digest = utils.get_hash_instance(hash_algorithm)
+                digest.update(parent.to_signable_data(sig.signature_type,
+                                                      sig.version))
+                digest.update(sig.to_signable_data(sig.signature_type,
+                                                   sig.version))
+                if digest.digest() == bytes(expected_digest):
                     return sig
+        if subpackets:
+            return None
 
         # Fallback
         revocable = []
         for sig in parent.signatures:
-            if sig is self:
-                continue
-            if set(self.issuer_key_ids) & set(sig.issuer_key_ids):
+            if sig is not self and self._may_revoke(sig):
                 revocable.append(sig)
         if len(revocable) == 1:
             return revocable[0]
 
+    def _may_revoke(self, signature):
+        """Is this a revocation that applies to signatures like the given
+        one?
+        """
+
+        if not set(self.issuer_key_ids) & set(signature.issuer_key_ids):
+            return False
+        if self.signature_type == C.SUBKEY_REVOCATION_SIGNATURE:
+            return signature.signature_type == C.SUBKEY_BINDING_SIGNATURE
+        if self.signature_type == C.KEY_REVOCATION_SIGNATURE:
+            return (signature.signature_type ==
+                    C.SIGNATURE_DIRECTLY_ON_A_KEY)
+        if self.signature_type == C.CERTIFICATION_REVOCATION_SIGNATURE:
+            if signature.signature_type not in (
+                    C.SIGNATURE_DIRECTLY_ON_A_KEY,
+                    C.GENERIC_CERTIFICATION,
+                    C.CASUAL_CERTIFICATION,
+                    C.PERSONA_CERTIFICATION,
+                    C.POSITIVE_CERTIFICATION,
+                    ):
+                return False
+            # "The revocation certificate should have a later creation date
+            #  than the signature it revokes."
+            if None in (self.creation_time, signature.creation_time):
+                return False
+            return (utils.datetime_to_timestamp(signature.creation_time) <=
+                    utils.datetime_to_timestamp(self.creation_time))
+        return False
+
     @property
     def expired(self):
         if self.signature_expiration_time:
-            return self.get_current_time() > self.signature_expiration_time
+            return (
+                utils.datetime_to_timestamp(self.get_current_time()) >
+                utils.datetime_to_timestamp(self.signature_expiration_time))
         return False
 
     @property
@@ -887,8 +918,12 @@ class BaseSignature(object):
             if not self.parent:
                 return None
             for s in self.parent.signatures:
-                if s.revocation and s.target == self:
-                    return True
+                if not s.revocation or not s._may_revoke(self):
+                    continue
+                if (s._get_subpackets(C.TARGET_SUBPACKET_TYPE)
+                        and s.target is not self):
+                    continue
+                return True
         return False
 
     @property
-- 
2.43.0


From 174e6f3b53492e2b70ac1e708bb3ebb42a4e3383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 052/109] fix: report the properties of the most recent valid
 self-signature

---
 pgp/transferrable_keys.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index e6cf9c3..2923812 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -92,11 +92,17 @@ class SignedMixin(object):
         return bool(self.revocation_signatures)
 
     def get_most_recent_selfsig(self, revocation=False):
-        last_signature_created = datetime.datetime(1900, 1, 1)
+        last_signature_created = None
         most_recent_selfsig = None
         for signature in self.signatures:
             if not signature.is_self_signature():
                 continue
+            if (
+                    signature.validated is False
+                    or signature.expired
+                    or signature.revoked
+                    ):
+                continue
             if (
                     not revocation
                     and signature.signature_type not in self._self_sig_types
@@ -108,8 +114,15 @@ class SignedMixin(object):
                     self._revocation_sig_types
                     ):
                 continue
-            if last_signature_created < signature.creation_time:
+            if signature.creation_time is None:
+                continue
+            created = utils.datetime_to_timestamp(signature.creation_time)
+            if (
+                    last_signature_created is None
+                    or last_signature_created < created
+                    ):
                 most_recent_selfsig = signature
+                last_signature_created = created
 
         return most_recent_selfsig
 
@@ -154,13 +167,13 @@ class SignedMixin(object):
     may_certify_others = __selfsig_attribute('may_certify_others')
     may_sign_data = __selfsig_attribute('may_sign_data')
     may_encrypt_comms = __selfsig_attribute('may_encrypt_comms')
-    may_encrypt_storage = __selfsig_attribute('may_encrypt_comms')
-    may_be_used_for_auth = __selfsig_attribute('may_encrypt_comms')
+    may_encrypt_storage = __selfsig_attribute('may_encrypt_storage')
+    may_be_used_for_auth = __selfsig_attribute('may_be_used_for_auth')
     may_have_been_split = __selfsig_attribute('may_have_been_split')
     may_have_multiple_owners = \
         __selfsig_attribute('may_have_multiple_owners')
     supports_modification_detection = \
-        __selfsig_attribute('may_have_multiple_owners')
+        __selfsig_attribute('supports_modification_detection')
 
     del __selfsig_attribute
 
-- 
2.43.0


From e4286e79cfb79a7bda3d993cd2ad106007f2cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 053/109] fix: sign and verify documents given as text or
 bytes, with version 3 too, and leave the caller's subpackets alone

---
 pgp/message.py            |  6 +-----
 pgp/transferrable_keys.py | 30 ++++++++++++++++++------------
 pgp/utils.py              |  8 ++++++++
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 30421cf..49e46b2 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -17,7 +17,6 @@
 import abc
 import collections
 import datetime
-import re
 import six
 
 from Crypto import Random
@@ -30,9 +29,6 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-LINE_ENDING = re.compile(b'\r\n|\r|\n')
-
-
 class MessageSignature(BaseSignature):
 
     one_pass = None
@@ -173,7 +169,7 @@ class LiteralMessage(BaseMessage):
     def to_signable_data(self, signature_type, signature_version=3):
         data = self._get_signed_bytes()
         if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return LINE_ENDING.sub(b'\r\n', data)
+            return utils.canonicalize_line_endings(data)
         return data
 
 
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 2923812..ac6f008 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -400,6 +400,17 @@ class BasePublicKey(SignedMixin):
 
         return key_obj
 
+    @staticmethod
+    def _get_signable_data(item, signature_type, signature_version):
+        if hasattr(item, 'to_signable_data'):
+            return item.to_signable_data(signature_type, signature_version)
+        # A document
+        if not isinstance(item, (bytes, bytearray)):
+            item = item.encode('utf8')
+        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+            item = utils.canonicalize_line_endings(item)
+        return item
+
     def verify(self, signature, item):
         if self.key_id not in signature.issuer_key_ids:
             raise exceptions.SignatureVerificationFailed(
@@ -413,8 +424,8 @@ class BasePublicKey(SignedMixin):
 
         key_obj = self._get_key_obj()
         hash_ = utils.get_hash_instance(signature.hash_algorithm)
-        hash_.update(item.to_signable_data(signature.signature_type,
-                                           signature.version))
+        hash_.update(self._get_signable_data(item, signature.signature_type,
+                                             signature.version))
         hash_.update(signature.to_signable_data(signature.signature_type,
                                                 signature.version))
         if hash_.digest()[:2] != signature.hash2:
@@ -540,25 +551,19 @@ class BaseSecretKey(BasePublicKey):
         key_obj = self._get_key_obj()
 
         hash_ = utils.get_hash_instance(hash_algorithm)
-        if isinstance(item, str):
-            hash_.update(item.encode('utf8'))
-        elif isinstance(item, bytes):
-            hash_.update(item)
-
-        else:
-            hash_.update(item.to_signable_data(signature_type, version))
+        hash_.update(self._get_signable_data(item, signature_type, version))
         if isinstance(item, (BasePublicKey, UserID, UserAttribute)):
             SigClass = KeySignature
         else:
             SigClass = BaseSignature
         creation_time = int(time.time())
         issuer_key_id = self.key_id
-        hashed_subpackets = hashed_subpackets or []
+        hashed_subpackets = list(hashed_subpackets or [])
         unhashed_subpackets = []
         creation_time_arg = None
         issuer_key_id_arg = None
         if version in (2, 3):
-            creation_time_arg = creation_time
+            creation_time_arg = datetime.datetime.fromtimestamp(creation_time)
             issuer_key_id_arg = issuer_key_id
         elif version == 4:
             creation_time_subpacket = \
@@ -569,7 +574,8 @@ class BaseSecretKey(BasePublicKey):
             hashed_subpackets.insert(0, creation_time_subpacket)
             hashed_subpackets.insert(0, issuer_subpacket)
 
-        sig = SigClass(item, version, signature_type,
+        target = item if hasattr(item, 'to_signable_data') else None
+        sig = SigClass(target, version, signature_type,
                        self.public_key_algorithm, hash_algorithm, hash2=b'',
                        signature_values=(), creation_time=creation_time_arg,
                        issuer_key_id=issuer_key_id_arg,
diff --git a/pgp/utils.py b/pgp/utils.py
index f844a55..d7b97c4 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -16,6 +16,7 @@
 
 import bz2
 import math
+import re
 import time
 import zlib
 
@@ -572,6 +573,13 @@ def hash_packet_for_signature(packet_for_hash,
     return hash_
 
 
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
+
+
+def canonicalize_line_endings(data):
+    return LINE_ENDING.sub(b'\r\n', data)
+
+
 def bytes_to_int(bytes_, offset, length):
     result = 0
     for i in range(length):
-- 
2.43.0


From f737521f0dcf2ffa390694619c60196fe7390ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 054/109] fix: keep user attributes that were read and not
 changed as they are

---
 pgp/transferrable_keys.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index ac6f008..e6774e4 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -779,23 +779,37 @@ class UserAttributeContentItem(object):
     mime_type = None
     data = None
 
+    # The subpacket this was read from
+    _subpacket = None
+
     @classmethod
     def from_subpacket(cls, subpacket):
-        if subpacket.image_format == C.JPEG_IMAGE_FORMAT:
+        data = getattr(subpacket, 'data', None)
+        if data is None:
+            data = bytes(subpacket.content)
+        if (getattr(subpacket, 'image_format', None) ==
+                C.JPEG_IMAGE_FORMAT):
             mime_type = 'image/jpeg'
         else:
-            mime_type = magic.from_buffer(subpacket.data[:1024],
-                                          mime=True).decode('ascii')
-        return cls(mime_type, subpacket.data)
+            mime_type = magic.from_buffer(bytes(data[:1024]), mime=True)
+            if isinstance(mime_type, bytes):
+                mime_type = mime_type.decode('ascii')
+        result = cls(mime_type, data)
+        result._subpacket = subpacket
+        result._original = (mime_type, bytes(data))
+        return result
 
     def __init__(self, mime_type, data):
         self.mime_type = mime_type
         self.data = data
 
     def __repr__(self):
-        return '<{0} at 0x{2:x}>'.format(self.__class__.__name__, id(self))
+        return '<{0} at 0x{1:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
+        if (self._subpacket is not None
+                and self._original == (self.mime_type, bytes(self.data))):
+            return self._subpacket
         if self.mime_type.split('/', 1)[0] != 'image':
             return None
         header_version = 1
-- 
2.43.0


From 3125f28df9674acd44667c589d8174b53ff7fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 055/109] fix: accept and read exactly the transferable keys
 the standard allows; lock keys that only partly unlock

---
 pgp/transferrable_keys.py | 102 +++++++++++++++++++++++---------------
 1 file changed, 62 insertions(+), 40 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index e6774e4..b524afb 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -690,6 +690,8 @@ class UserID(SignedMixin):
 
     signatures = None
     packet_header_type = C.NEW_PACKET_HEADER_TYPE
+    # Where this belongs among the user IDs and user attributes of the key
+    position = (0, 0)
     _self_sig_types = (C.GENERIC_CERTIFICATION,
                        C.CASUAL_CERTIFICATION,
                        C.PERSONA_CERTIFICATION,
@@ -829,6 +831,8 @@ class UserAttribute(SignedMixin):
     content_items = None
     signatures = None
     packet_header_type = C.NEW_PACKET_HEADER_TYPE
+    # Where this belongs among the user IDs and user attributes of the key
+    position = (0, 1)
     _self_sig_types = (C.GENERIC_CERTIFICATION,
                        C.CASUAL_CERTIFICATION,
                        C.PERSONA_CERTIFICATION,
@@ -888,6 +892,10 @@ class UserAttribute(SignedMixin):
 def validate_transferrable_key(packets, secret=False):
     # http://tools.ietf.org/html/rfc4880#section-11.1
 
+    packets = list(packets)
+    if not packets:
+        raise exceptions.InvalidKeyPacketOrder(
+                "The first packet must be a Key Packet")
     type_order = list(map(lambda p: p.type, packets))
     previous = None
     if not secret:
@@ -922,7 +930,8 @@ def validate_transferrable_key(packets, secret=False):
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
-                                 C.SIGNATURE_PACKET_TYPE):
+                                 C.SIGNATURE_PACKET_TYPE,
+                                 C.TRUST_PACKET_TYPE):
                         raise exceptions.InvalidKeyPacketOrder(
                                     "Signature Directly On Key may only "
                                     "appear immediately after the Public Key "
@@ -954,14 +963,23 @@ def validate_transferrable_key(packets, secret=False):
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
                 if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type !=
-                        C.SUBKEY_REVOCATION_SIGNATURE):
+                        or packets[j].signature_type not in (
+                            C.SUBKEY_BINDING_SIGNATURE,
+                            C.SUBKEY_REVOCATION_SIGNATURE)):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
             elif sig_type in (C.GENERIC_CERTIFICATION, C.PERSONA_CERTIFICATION,
                               C.CASUAL_CERTIFICATION, C.POSITIVE_CERTIFICATION,
                               C.CERTIFICATION_REVOCATION_SIGNATURE):
+                if (
+                        sig_type == C.CERTIFICATION_REVOCATION_SIGNATURE
+                        and previous_non_sig == key_packet_type
+                        ):
+                    # "This signature revokes an earlier User ID
+                    #  certification signature [...] or direct-key
+                    #  signature (signature class 0x1F)."
+                    continue
                 if previous_non_sig not in (C.USER_ID_PACKET_TYPE,
                                             C.USER_ATTRIBUTE_PACKET_TYPE,
                                             C.TRUST_PACKET_TYPE):
@@ -975,11 +993,14 @@ def validate_transferrable_key(packets, secret=False):
                             "public key, 0x{0:02x}.".format(sig_type))
         elif this == C.USER_ID_PACKET_TYPE:
             for t in type_order[:i]:
+                # "User Attribute packets and User ID packets may be freely
+                #  intermixed in this section"
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
-                             C.USER_ID_PACKET_TYPE, C.TRUST_PACKET_TYPE):
+                             C.USER_ID_PACKET_TYPE,
+                             C.USER_ATTRIBUTE_PACKET_TYPE,
+                             C.TRUST_PACKET_TYPE):
                     raise exceptions.InvalidKeyPacketOrder(
-                                "User IDs must appear before all user "
-                                "attributes and subkeys")
+                                "User IDs must appear before all subkeys")
         elif this == C.USER_ATTRIBUTE_PACKET_TYPE:
             for t in type_order[:i]:
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
@@ -994,7 +1015,8 @@ def validate_transferrable_key(packets, secret=False):
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
+            if (i + 1 == len(packets)
+                    or type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
                     or packets[i + 1].signature_type !=
                         C.SUBKEY_BINDING_SIGNATURE):
 
@@ -1017,9 +1039,10 @@ class TransferablePublicKey(BasePublicKey):
 
     @classmethod
     def from_packets(cls, packets):
-        # TODO: HANDLE TRUST PACKETS
         packets = list(packets)
         validate_transferrable_key(packets, cls._secret)
+        # Trust packets are local to the key ring they were found in.
+        packets = [p for p in packets if p.type != C.TRUST_PACKET_TYPE]
         i = 0
         primary_public_key = cls.from_packet(packets[i])
         primary_public_key_signatures = []
@@ -1033,40 +1056,37 @@ class TransferablePublicKey(BasePublicKey):
             i += 1
 
         primary_public_key.signatures = primary_public_key_signatures
-        user_ids = primary_public_key.user_ids
-        while i < packet_count and packets[i].type == C.USER_ID_PACKET_TYPE:
-            user_id = UserID.from_packet(primary_public_key, packets[i])
-            user_ids.append(user_id)
-            i += 1
-            while (
-                i < packet_count
-                and packets[i].type == C.SIGNATURE_PACKET_TYPE
-                ):
-
-                user_id.signatures.append(
-                        KeySignature.from_packet(packets[i],
-                                                 user_id)
-                    )
-                i += 1
-
-        user_attributes = primary_public_key.user_attributes
+        # User IDs and user attributes may be intermixed.
+        position = (0, 0)
         while (
             i < packet_count
-            and packets[i].type == C.USER_ATTRIBUTE_PACKET_TYPE
+            and packets[i].type in (
+                C.USER_ID_PACKET_TYPE,
+                C.USER_ATTRIBUTE_PACKET_TYPE
+                )
             ):
 
-            user_attribute = UserAttribute.from_packet(primary_public_key,
-                                                       packets[i])
-            user_attributes.append(user_attribute)
+            if packets[i].type == C.USER_ID_PACKET_TYPE:
+                component = UserID.from_packet(primary_public_key,
+                                               packets[i])
+                primary_public_key.user_ids.append(component)
+                if position[1]:
+                    position = (position[0] + 1, 0)
+            else:
+                component = UserAttribute.from_packet(primary_public_key,
+                                                      packets[i])
+                primary_public_key.user_attributes.append(component)
+                position = (position[0], 1)
+            component.position = position
             i += 1
             while (
                 i < packet_count
                 and packets[i].type == C.SIGNATURE_PACKET_TYPE
                 ):
 
-                user_attribute.signatures.append(
+                component.signatures.append(
                         KeySignature.from_packet(packets[i],
-                                                 user_attribute)
+                                                 component)
                     )
                 i += 1
 
@@ -1101,13 +1121,10 @@ class TransferablePublicKey(BasePublicKey):
         packets.append(self.to_packet(header_format))
         for sig in self.signatures:
             packets.append(sig.to_packet(header_format))
-        for user_id in self.user_ids:
-            packets.append(user_id.to_packet(header_format))
-            for sig in user_id.signatures:
-                packets.append(sig.to_packet(header_format))
-        for user_attribute in self.user_attributes:
-            packets.append(user_attribute.to_packet(header_format))
-            for sig in user_attribute.signatures:
+        for component in sorted(self.user_ids + self.user_attributes,
+                                key=lambda c: c.position):
+            packets.append(component.to_packet(header_format))
+            for sig in component.signatures:
                 packets.append(sig.to_packet(header_format))
         for subkey in self.subkeys:
             packets.append(subkey.to_packet(header_format))
@@ -1148,8 +1165,13 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
 
     def unlock(self, passphrase):
         super(TransferableSecretKey, self).unlock(passphrase)
-        for sk in self.subkeys:
-            sk.unlock(passphrase)
+        try:
+            for sk in self.subkeys:
+                sk.unlock(passphrase)
+        except Exception:
+            # A key is either unlocked as a whole or not at all.
+            self.lock()
+            raise
 
     def lock(self):
         super(TransferableSecretKey, self).lock()
-- 
2.43.0


From b8a1905c7dd04521669ae2089a9ad77c5046cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 056/109] fix: armor secret keys as secret keys

---
 pgp/shortcuts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 5f968f2..038f624 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -74,10 +74,11 @@ def serialize_key(key, armored=False, header_format=None):
         header_format = constants.OLD_PACKET_HEADER_TYPE
     data = b''.join(map(bytes, key.to_packets(header_format)))
     if armored:
-        if isinstance(key, TransferablePublicKey):
-            data_type = armor.PGP_PUBLIC_KEY_BLOCK
-        elif isinstance(key, TransferableSecretKey):
+        # A secret key is a kind of public key
+        if isinstance(key, TransferableSecretKey):
             data_type = armor.PGP_PRIVATE_KEY_BLOCK
+        elif isinstance(key, TransferablePublicKey):
+            data_type = armor.PGP_PUBLIC_KEY_BLOCK
 
         data = str(armor.ASCIIArmor(
                 data_type, data,
-- 
2.43.0


From 93fcbb10a813dee0a6aa5a23ded245195459b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 057/109] fix: write packets with tags that need a new format
 header with one

---
 pgp/packets/packets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 77548ec..5c751c5 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -125,7 +125,10 @@ class Packet(object):
         packet_type = self.type
         tag = 0x80
         result = bytearray()
-        if self.header_format == constants.NEW_PACKET_HEADER_TYPE:
+        # "Old format packets [...] cannot represent packet tags greater than
+        #  15": such packets have no other format.
+        if (self.header_format == constants.NEW_PACKET_HEADER_TYPE
+                or packet_type > 15):
             remaining = data_length
             offset = 0
             tag += 0x40 + packet_type
-- 
2.43.0


From ca7326c2476d59fd63f435e06588c46620116af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 058/109] fix: Leave the creation time alone when the
 expiration time cannot follow

---
 pgp/signature.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index d683059..c0d4bd8 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -397,9 +397,8 @@ class BaseSignature(object):
         # sync with creation time.
         exp_time = self.signature_expiration_time
         value = _check_seconds(utils.datetime_to_timestamp(dt))
-        if (exp_time is not None
-                and utils.datetime_to_timestamp(exp_time) <= value):
-            raise ValueError('Signature expires before it is created.')
+        if exp_time is not None:
+            _seconds_between(dt, exp_time)
         if self.version in (2, 3):
             self._creation_time = datetime.datetime.fromtimestamp(value)
         elif self.version >= 4:
-- 
2.43.0


From 6e23aa36519865fd6a67d516ce40ce5d15e7392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 059/109] fix: Compare signature targets with the digest they
 name

---
 pgp/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index c0d4bd8..717dbc0 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -843,7 +843,7 @@ class BaseSignature(object):
         # get target subpacket
         subpackets = self._get_subpackets(C.TARGET_SUBPACKET_TYPE)
         for sub in subpackets:
-            expected_digest = sub.hash
+            expected_digest = utils.hex_to_bytes(sub.hash)
             hash_algorithm = sub.hash_algorithm
             pub_algorithm = sub.public_key_algorithm
             for sig in parent.signatures:
-- 
2.43.0


From 3c22a966f1d6148d1daa9dac15cf21f9f543cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 060/109] fix: Read nested comments of user IDs of any depth

---
 pgp/user_id.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index 8dc93a6..bca9c60 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -264,8 +264,30 @@ class AddrlistClass:
         return self.getdelimited('"', '"\r', False)
 
     def getcomment(self):
-        """Get a parenthesis-delimited fragment from self's field."""
-        return self.getdelimited('(', ')\r', True)
+        """Get a parenthesis-delimited fragment from self's field.
+
+        Comments may be nested.  Their delimiters are not part of the result.
+        """
+        slist = ['']
+        quoted = False
+        depth = 1
+        self.pos += 1
+        while depth and self.pos < len(self.field):
+            char = self.field[self.pos]
+            self.pos += 1
+            if quoted:
+                slist.append(char)
+                quoted = False
+            elif char in ')\r':
+                depth -= 1
+            elif char == '(':
+                depth += 1
+            elif char == '\\':
+                quoted = True
+            else:
+                slist.append(char)
+
+        return EMPTYSTRING.join(slist)
 
     def getdomainliteral(self):
         """Parse an RFC 2822 domain-literal."""
-- 
2.43.0


From d930247ebb0e96be75feeaf807fa3f28cf949b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 061/109] fix: Keep quoted local parts of addresses in user IDs

---
 pgp/user_id.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index bca9c60..aa0f765 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -12,16 +12,15 @@
 """User ID parsing code."""
 
 
-try:
-    from urllib.parse import quote
-except ImportError:
-    from urllib import quote
-
-
 EMPTYSTRING = ''
 SPACE = ' '
 
 
+def quote(text):
+    """Escape the contents of a quoted string."""
+    return text.replace('\\', '\\\\').replace('"', '\\"')
+
+
 class AddrlistClass:
     """Address parser class by Ben Escoto.
 
-- 
2.43.0


From 4cf5ac9bd377bb58efdbdc9e22badc3b211d6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 062/109] fix: Split user IDs with comments, without addresses
 and without text

---
 pgp/user_id.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index aa0f765..5ceec56 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -338,7 +338,17 @@ class AddrlistClass:
 
 def parse_user_id(user_id):
     a = AddrlistClass(user_id)
-    user_name, user_email = a.getaddress()[0]
-    user_comment = ' '.join(a.commentlist)
-    user_name = user_name.replace(user_comment, '').strip()
+    a.gotonext()
+    user_name = SPACE.join(a.getphraselist())
+    user_email = ''
+    a.gotonext()
+    if a.pos < len(user_id) and user_id[a.pos] in '.@':
+        # There is no name, just an address
+        a = AddrlistClass(user_id)
+        user_name = ''
+        user_email = a.getaddrspec()
+    elif a.pos < len(user_id) and user_id[a.pos] == '<':
+        user_email = a.getrouteaddr()
+    a.gotonext()
+    user_comment = SPACE.join(a.commentlist)
     return user_name, user_email, user_comment
-- 
2.43.0


From a72741d3551f96ce0e71891791bf943db7dd4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 063/109] fix: Build user IDs in the conventional form and
 character set

---
 pgp/transferrable_keys.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b524afb..5c92656 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,7 @@
 
 import copy
 import datetime
-import email.utils
+import re
 import time
 import weakref
 
@@ -742,10 +742,17 @@ class UserID(SignedMixin):
         return self._primary_public_key_ref()
 
     def _make_user_id(self, name, emailaddr, comment):
-        result = email.utils.formataddr((name, emailaddr), 'utf8')
+        parts = []
+        if name:
+            if re.search(r'[()<>@,:;"\[\]\t\r\n]|^ | $|  ', name):
+                name = u'"{0}"'.format(re.sub(r'(["\\])', r'\\\1', name))
+            parts.append(name)
         if comment:
-            result = u"{0} ({1})".format(result, comment)
-        return result
+            parts.append(u'({0})'.format(re.sub(r'([()\\])', r'\\\1',
+                                                comment)))
+        if emailaddr:
+            parts.append(u'<{0}>'.format(emailaddr) if parts else emailaddr)
+        return u' '.join(parts)
 
     def _get_user_name(self):
         return parse_user_id(self.user_id)[0]
-- 
2.43.0


From d5608c6653866170d991df08b60179a7dfd81555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 064/109] fix: Recognise the restricted regular expressions of
 the standard

---
 pgp/regex.py | 58 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/pgp/regex.py b/pgp/regex.py
index c748896..a20b543 100644
--- a/pgp/regex.py
+++ b/pgp/regex.py
@@ -22,19 +22,15 @@ specification provided by RFC 4880.
 http://tools.ietf.org/html/rfc4880#section-8
 """
 
-import re
-
 from pgp.exceptions import RegexValueError
 
 
-re_tokenizer = re.compile(r'(\\.|[\]|*?+()\[]|[^\\])')
-
-
 class Regex(object):
 
     complete = True
 
-    def __init__(self):
+    def __init__(self, group=None):
+        self.group = group
         self.branches = []
 
     def __str__(self):
@@ -97,6 +93,7 @@ class Range(Atom):
 
 def validate_partial_subpacket_regex(tokens):
     root = Regex()
+    regex = root
     current = Branch(root)
     root.branches.append(current)
     valid = True
@@ -114,12 +111,8 @@ def validate_partial_subpacket_regex(tokens):
                     continue
                 else:
                     piece = current.piece
-                    regex = current.piece.branch.regex
             elif isinstance(current, Piece):
                 piece = current
-                regex = current.branch.regex
-            elif isinstance(current, Branch):
-                regex = current.regex
             if piece:
                 piece.complete = True
             current = Branch(regex)
@@ -135,8 +128,6 @@ def validate_partial_subpacket_regex(tokens):
                 else:
                     piece = current.piece
             elif isinstance(current, Piece):
-                if piece.complete:
-                    valid = False
                 piece = current
             else:
                 valid = False
@@ -154,27 +145,30 @@ def validate_partial_subpacket_regex(tokens):
                     continue
                 current.piece.complete = True
                 branch = current.piece.branch
+            elif isinstance(current, Piece):
+                current.complete = True
+                branch = current.branch
             elif isinstance(current, Branch):
                 branch = current
             piece = Piece(branch)
             branch.pieces.append(piece)
-            current = Group(piece)
-            piece.atom = current
-            # We don't care about the validity of the sub expression, really,
-            # just so long as we've parsed as much terminated data as we can.
-            unterminated, _valid, sub_expr = validate_partial_subpacket_regex(
-                                        tokens
-                                    )
-            current.content = sub_expr
+            piece.atom = Group(piece)
+            # What follows, up to the closing bracket, is an expression of
+            # its own.
+            regex = Regex(piece.atom)
+            current = Branch(regex)
+            regex.branches.append(current)
         elif tok == ')':
             if isinstance(current, Range) and not current.complete:
                 current.content += tok
                 continue
-            if not isinstance(current, Group):
+            if regex.group is None:
                 valid = False
                 continue
-            current.complete = True
-            current = current.piece
+            regex.group.complete = True
+            regex.group.content = str(regex)
+            current = regex.group.piece
+            regex = current.branch.regex
         elif tok == '[':
             if isinstance(current, Range):
                 current.content += tok
@@ -185,6 +179,9 @@ def validate_partial_subpacket_regex(tokens):
                     continue
                 current.piece.complete = True
                 branch = current.piece.branch
+            elif isinstance(current, Piece):
+                current.complete = True
+                branch = current.branch
             elif isinstance(current, Branch):
                 branch = current
             piece = Piece(branch)
@@ -207,6 +204,11 @@ def validate_partial_subpacket_regex(tokens):
                 continue
         else:  # .^$ \\
             # anything
+            if tok == '\\' and not isinstance(current, Range):
+                if not tokens:
+                    valid = False
+                    continue
+                tok += tokens.pop(0)
             if isinstance(current, Branch):
                 branch = current
                 piece = Piece(branch)
@@ -235,19 +237,23 @@ def validate_partial_subpacket_regex(tokens):
 
     if (
             valid and
-            (isinstance(current, Range) or isinstance(current, Group))
-            and not current.complete
+            (isinstance(current, Range) or regex.group is not None)
         ):
 
         unterminated = True
 
+    # The groups left open are completed innermost first.
+    while regex.group is not None:
+        regex.group.content = str(regex)
+        regex = regex.group.piece.branch.regex
+
     if not valid:
         tokens.insert(0, tok)
     return unterminated, valid, str(root)
 
 
 def validate_subpacket_regex(re_str):
-    tokens = re_tokenizer.findall(re_str)
+    tokens = list(re_str)
     unterminated, valid, valid_portion = \
         validate_partial_subpacket_regex(tokens)
     if unterminated:
-- 
2.43.0


From 3afc213e875e08a7297ed0800f0cf37a8e8ba01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 065/109] fix: Read armored bytes whose header values are not
 ASCII

---
 pgp/shortcuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 038f624..5215738 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -17,7 +17,7 @@ def read_message(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
         if isinstance(data, bytes):
-            data = data.decode('us-ascii')
+            data = data.decode('utf-8', 'replace')
         armored = True
     if armored:
         fn = parse_ascii_packet_data
@@ -42,7 +42,7 @@ def read_key(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
         if isinstance(data, bytes):
-            data = data.decode('us-ascii')
+            data = data.decode('utf-8', 'replace')
         armored = True
     if armored:
         fn = parse_ascii_packet_data
-- 
2.43.0


From e39056878b0c59e7da28e1a675bee14168fd3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 066/109] fix: Contact key servers over the scheme and on the
 port of their URL

---
 pgp/keyserver/hkp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 23e3d87..76d7757 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -26,6 +26,9 @@ from pgp import armor
 from pgp.shortcuts import read_key
 
 
+HKP_PORT = 11371
+
+
 def _add_colons(line, number):
     # "Colons for empty fields on the end of each line may be left off, if
     #  desired."
@@ -112,9 +115,13 @@ class HKPKeyserverClient(object):
 
     def __init__(self, base_url):
         parts = urlparse(base_url)
+        scheme = parts.scheme.lower()
+        netloc = parts.netloc
+        if scheme == 'hkp' and parts.port is None:
+            netloc = '{0}:{1}'.format(netloc.rstrip(':'), HKP_PORT)
         base_url = urlunparse(
-            (('https' if parts.scheme.lower() == 'hkps' else 'http'),)
-            + parts[1:6])
+            ('https' if scheme in ('hkps', 'https') else 'http', netloc)
+            + parts[2:6])
         self.base_url = base_url
 
     @property
-- 
2.43.0


From 01c44fdb21042326da341d0267ff91650c842f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 067/109] fix: Ask for exact matches the way key servers
 understand

---
 pgp/keyserver/hkp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 76d7757..bfc3f1a 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -166,7 +166,7 @@ class HKPKeyserverClient(object):
             'op': 'get',
             'search': '0x{}'.format(key_id),
             'options': 'mr',
-            'exact': 'yes' if exact else 'no',
+            'exact': 'on' if exact else 'off',
             })
         response.raise_for_status()
         return read_key(response.content, True)
@@ -176,7 +176,7 @@ class HKPKeyserverClient(object):
             'op': 'index',
             'options': 'mr',
             'search': terms,
-            'exact': 'yes' if exact else 'no'
+            'exact': 'on' if exact else 'off'
             })
         response.raise_for_status()
         return self._read_mr(response.text)
-- 
2.43.0


From a8b7bec6e00e6714bf554469d34bfd2373a0448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 068/109] fix: Never submit secret key material to a key server

---
 pgp/keyserver/hkp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index bfc3f1a..9ef62d8 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -24,6 +24,7 @@ import requests
 
 from pgp import armor
 from pgp.shortcuts import read_key
+from pgp.transferrable_keys import TransferableSecretKey
 
 
 HKP_PORT = 11371
@@ -182,6 +183,9 @@ class HKPKeyserverClient(object):
         return self._read_mr(response.text)
 
     def submit(self, key, no_modify=False):
+        if isinstance(key, TransferableSecretKey):
+            # Only ever publish the public half.
+            key = key.to_public_key()
         key_data = b''.join(map(bytes, key.to_packets()))
         a = armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, key_data)
         response = requests.post(self.submit_url, data={
-- 
2.43.0


From 272f54d2c47b90a48d801acb1af7023d24db3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 069/109] fix: Read every form of key server index

---
 pgp/keyserver/hkp.py | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 9ef62d8..a32fbca 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -39,6 +39,17 @@ def _add_colons(line, number):
     return line
 
 
+def _number(field):
+    # Any field may be left empty.
+    return int(field) if field else None
+
+
+def _timestamp(field):
+    if not field:
+        return None
+    return datetime.datetime.fromtimestamp(int(field))
+
+
 class HKPUserIdResult(object):
 
     def __repr__(self):
@@ -57,11 +68,8 @@ class HKPUserIdResult(object):
         l = _add_colons(l, 4)
         _uid, uid, created, expires, flags = l.split(':')
         self.user_id = unquote(uid)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.created = _timestamp(created)
+        self.expires = _timestamp(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -91,13 +99,10 @@ class HKPResult(object):
         (_pub, key_id, public_key_algorithm, bit_length,
             created, expires, flags) = l.split(':')
         self.key_id = key_id
-        self.public_key_algorithm = int(public_key_algorithm)
-        self.bit_length = int(bit_length)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.public_key_algorithm = _number(public_key_algorithm)
+        self.bit_length = _number(bit_length)
+        self.created = _timestamp(created)
+        self.expires = _timestamp(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -134,26 +139,19 @@ class HKPKeyserverClient(object):
         return urljoin(self.base_url, 'pks/add')
 
     def _read_mr(self, data):
-        data = data.splitlines()
-        info_line = data[0]
-        if info_line.startswith('info:'):
-            _info, version, count = info_line.split(':')
-        else:
-            version = 1
-            count = None
-
-        del version, count  # unused
+        # User IDs may contain what else Python takes for the end of a line.
+        data = [line.rstrip('\r') for line in data.split('\n')]
 
         results = []
         pub_key = None
         user_ids = []
         for line in data:
-            if line.startswith('pub'):
+            if line.startswith('pub:'):
                 if pub_key:
                     results.append(HKPResult(self, pub_key, user_ids))
                 pub_key = line
                 user_ids = []
-            elif line.startswith('uid'):
+            elif line.startswith('uid:'):
                 user_ids.append(line)
             # Skip anything else
 
-- 
2.43.0


From deead2dcc98c2443435bebe4a0b3b87361574361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 070/109] fix: Notice when the agent closes the connection

---
 pgp/pinentry/gpg_agent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 7ba9639..13fac8d 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -49,6 +49,8 @@ class GPGAgentPinentry(object):
         lines = []
         while 1:
             byte = self._sock.recv(1)
+            if not byte:
+                raise ValueError('Connection closed by the agent')
             if byte == b'\n':
                 lines.append(buf)
                 if buf[:2] == b'OK':
-- 
2.43.0


From 5f7468848aaedf1b02f4349abb78dc38e61c23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 071/109] fix: Return the passphrase as the agent sent it

---
 pgp/pinentry/gpg_agent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 13fac8d..16b4f62 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -17,7 +17,7 @@
 import os
 import socket
 from urllib.parse import quote
-from urllib.parse import unquote
+from urllib.parse import unquote_to_bytes
 
 
 class GPGAgentPinentry(object):
@@ -94,7 +94,8 @@ class GPGAgentPinentry(object):
         self.send('GET_PASSPHRASE {0}'.format(params))
         response = self.get_response()
         self.disconnect()
-        return unquote(response[0][2:].decode('latin-1'))
+        data = b''.join(line[2:] for line in response if line[:2] == b'D ')
+        return unquote_to_bytes(data).decode('utf-8')
 
     def clear_passphrase(self, cache_id):
         self.connect()
-- 
2.43.0


From 17a935c8c1a12a2e3c81a7e3f1e275639d0da661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 072/109] fix: Keep texts sent to the agent from being read as
 options

---
 pgp/pinentry/gpg_agent.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 16b4f62..fef559d 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -20,6 +20,11 @@ from urllib.parse import quote
 from urllib.parse import unquote_to_bytes
 
 
+def _escape(text):
+    # Anything in the line that looks like an option is taken for one.
+    return quote(text).replace('-', '%2D')
+
+
 class GPGAgentPinentry(object):
 
     def __init__(self, name=None, socket_path=None):
@@ -75,20 +80,20 @@ class GPGAgentPinentry(object):
             params += ' --repeat'
         elif repeat > 1:
             params += ' --repeat={0}'.format(repeat)
-        if cache_id:
-            params += ' {0}'.format(quote(cache_id))
+        if cache_id and use_cache:
+            params += ' {0}'.format(_escape(cache_id))
         else:
             params += ' X'
         if error_message:
-            params += ' {0}'.format(quote(error_message))
+            params += ' {0}'.format(_escape(error_message))
         else:
             params += ' X'
         if prompt:
-            params += ' {0}'.format(quote(prompt))
+            params += ' {0}'.format(_escape(prompt))
         else:
             params += ' X'
         if description:
-            params += ' {0}'.format(quote(description))
+            params += ' {0}'.format(_escape(description))
         else:
             params += ' X'
         self.send('GET_PASSPHRASE {0}'.format(params))
@@ -99,5 +104,5 @@ class GPGAgentPinentry(object):
 
     def clear_passphrase(self, cache_id):
         self.connect()
-        self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
+        self.send('CLEAR_PASSPHRASE {0}'.format(_escape(cache_id)))
         self.disconnect()
-- 
2.43.0


From a1ce6e005b974721448c7d4a85bbce1b9f5311d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 073/109] fix: Wait for the agent to clear a passphrase and
 always hang up

---
 pgp/pinentry/gpg_agent.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index fef559d..271bd3c 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -47,7 +47,7 @@ class GPGAgentPinentry(object):
     def send(self, data):
         if isinstance(data, str):
             data = data.encode('latin-1')
-        self._sock.send(data + b'\n')
+        self._sock.sendall(data + b'\n')
 
     def get_response(self):
         buf = b''
@@ -67,10 +67,17 @@ class GPGAgentPinentry(object):
                 buf += byte
         return lines
 
+    def _command(self, line):
+        try:
+            self.connect()
+            self.send(line)
+            return self.get_response()
+        finally:
+            self.disconnect()
+
     def get_passphrase(self, prompt=None, error_message=None,
                        description=None, cache_id=None, use_cache=True,
                        no_ask=False, qualitybar=False, repeat=0):
-        self.connect()
         params = '--data'
         if no_ask:
             params += ' --no-ask'
@@ -96,13 +103,9 @@ class GPGAgentPinentry(object):
             params += ' {0}'.format(_escape(description))
         else:
             params += ' X'
-        self.send('GET_PASSPHRASE {0}'.format(params))
-        response = self.get_response()
-        self.disconnect()
+        response = self._command('GET_PASSPHRASE {0}'.format(params))
         data = b''.join(line[2:] for line in response if line[:2] == b'D ')
         return unquote_to_bytes(data).decode('utf-8')
 
     def clear_passphrase(self, cache_id):
-        self.connect()
-        self.send('CLEAR_PASSPHRASE {0}'.format(_escape(cache_id)))
-        self.disconnect()
+        self._command('CLEAR_PASSPHRASE {0}'.format(_escape(cache_id)))
-- 
2.43.0


From e38f4f89350d565ce097d776710008bea851be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 074/109] fix: Check the order of a key's packets in time
 proportional to their number

---
 pgp/transferrable_keys.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5c92656..51d05a0 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -905,6 +905,8 @@ def validate_transferrable_key(packets, secret=False):
                 "The first packet must be a Key Packet")
     type_order = list(map(lambda p: p.type, packets))
     previous = None
+    previous_non_sig = None
+    seen = set()
     if not secret:
         key_packet_type = C.PUBLIC_KEY_PACKET_TYPE
         subkey_packet_type = C.PUBLIC_SUBKEY_PACKET_TYPE
@@ -917,11 +919,13 @@ def validate_transferrable_key(packets, secret=False):
     pubkey_version = packets[0].version
     for i in range(len(type_order)):
         if i > 0:
-            j = i - 1
+            seen.add(type_order[i - 1])
             # Ignore trust packets
-            while type_order[j] == C.TRUST_PACKET_TYPE:
-                j -= 1
-            previous = type_order[j]
+            if type_order[i - 1] != C.TRUST_PACKET_TYPE:
+                j = i - 1
+                previous = type_order[j]
+                if previous != C.SIGNATURE_PACKET_TYPE:
+                    previous_non_sig = previous
         this = type_order[i]
         if this == key_packet_type:
             if i != 0:
@@ -929,13 +933,8 @@ def validate_transferrable_key(packets, secret=False):
                         "Public Key Packet must be first in the list")
         elif this == C.SIGNATURE_PACKET_TYPE:
             sig_type = packets[i].signature_type
-            previous_non_sig = [
-                x for x in type_order[j::-1]
-                if x not in (
-                    C.SIGNATURE_PACKET_TYPE, C.TRUST_PACKET_TYPE
-                )][0]
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
-                for t in type_order[:i]:
+                for t in seen:
                     if t not in (key_packet_type,
                                  C.SIGNATURE_PACKET_TYPE,
                                  C.TRUST_PACKET_TYPE):
@@ -959,7 +958,7 @@ def validate_transferrable_key(packets, secret=False):
                         "immediately after a Subkey Packet, not {0}"
                         ).format(previous))
             elif sig_type == C.KEY_REVOCATION_SIGNATURE:
-                for t in type_order[:i]:
+                for t in seen:
                     if t not in (key_packet_type,
                                  C.SIGNATURE_PACKET_TYPE,
                                  C.TRUST_PACKET_TYPE):
@@ -999,7 +998,7 @@ def validate_transferrable_key(packets, secret=False):
                             "Invalid signature type for transferrable "
                             "public key, 0x{0:02x}.".format(sig_type))
         elif this == C.USER_ID_PACKET_TYPE:
-            for t in type_order[:i]:
+            for t in seen:
                 # "User Attribute packets and User ID packets may be freely
                 #  intermixed in this section"
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
@@ -1009,7 +1008,7 @@ def validate_transferrable_key(packets, secret=False):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "User IDs must appear before all subkeys")
         elif this == C.USER_ATTRIBUTE_PACKET_TYPE:
-            for t in type_order[:i]:
+            for t in seen:
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
                              C.USER_ID_PACKET_TYPE,
                              C.USER_ATTRIBUTE_PACKET_TYPE,
-- 
2.43.0


From 32c10998845856ac472b5f7cc933bc5c136973c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 075/109] fix: Make the database lock exclude others and come
 free again

---
 pgp/db/gpg.py | 186 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 136 insertions(+), 50 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3c7bc67..4520fac 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -25,11 +25,16 @@ except ImportError:
         HAVE_GDBM = True
     except (ImportError, OSError):
         HAVE_GDBM = False
+try:
+    import fcntl
+except ImportError:
+    fcntl = None
 import os
 import platform
-import signal
+import tempfile
 import threading
 import time
+import weakref
 
 from pgp.packets import parse_binary_packet_data
 from pgp.packets import parse_binary_packet_stream
@@ -58,55 +63,51 @@ DEFAULT_RESOURCES = (
 )
 
 
-_locks = []
+_locks = weakref.WeakSet()
+# Which lock of this process holds which lock file.
+_held = {}
+_held_guard = threading.RLock()
 
 
 @atexit.register
 def _clean_up_locks():
-    for l in _locks:
-        l.release()
-        try:
-            os.unlink(l.name)
-        except:
-            pass
-        try:
-            os.unlink(l.lock_template_name)
-        except:
-            pass
+    for l in list(_locks):
+        l._give_up()
 
 
 class Lock(object):
+    """A lock on a file, shared with other threads, processes and GnuPG.
+
+    It may be acquired repeatedly by the thread that holds it and is released
+    when it was released as often.
+    """
 
     name = None
-    template_name = None
-    locked = False
 
     def __init__(self, filename):
-        node_name = platform.node()
-        dirpart = os.path.dirname(filename)
-        self.template_name = '{0}{1}.#lk{2:x}.'.format(
-            dirpart,
-            os.path.sep,
-            id(self)
-            )
-        with open(self.template_name, 'w') as lock_fh:
-            lock_fh.write('{0:010d}'.format(os.getpid()))
-            lock_fh.write(node_name)
-            lock_fh.write('\n')
+        dirpart, basename = os.path.split(os.path.abspath(filename))
         self.name = '{0}{1}lock'.format(
-            filename,
+            os.path.join(os.path.realpath(dirpart), basename),
             os.path.extsep)
         self._lock = threading.RLock()
-        _locks.append(self)
+        self._depth = 0
+        self._pid = None
+        self._owner = None
+        _locks.add(self)
 
     def __del__(self):
         try:
-            self.release()
-            os.unlink(self.lock_template_name)
-        except:
+            self._give_up()
+        except Exception:
             # TODO: log an error
             pass
 
+    @property
+    def locked(self):
+        # A lock which was held when this process was forked is still the
+        # parent's.
+        return self._depth > 0 and self._pid == os.getpid()
+
     def read(self):
         with open(self.name, 'r') as fh:
             pid = int(fh.read(10))
@@ -114,38 +115,123 @@ class Lock(object):
 
         return pid, node == platform.node()
 
-    def acquire(self, timeout=None):
-        start = time.time()
-        while not self.locked:
-            if timeout is not None and (time.time() - start) > timeout:
+    def _link(self):
+        if os.path.lexists(self.name):
+            return False
+        # The lock file has to have its content as soon as it exists.
+        fd, template_name = tempfile.mkstemp(
+            prefix='.#lk', dir=os.path.dirname(self.name))
+        try:
+            with os.fdopen(fd, 'w') as lock_fh:
+                lock_fh.write('{0:10d}\n'.format(os.getpid()))
+                lock_fh.write(platform.node())
+                lock_fh.write('\n')
+            try:
+                os.link(template_name, self.name)
+            except FileExistsError:
                 return False
-            self._lock.acquire()
-            os.link(self.template_name, self.name)
+            return True
+        finally:
+            os.unlink(template_name)
+
+    def _is_stale(self):
+        try:
             pid, same_node = self.read()
-            if pid == os.getpid() and same_node:
-                # OK
-                pass
-            elif same_node:
-                # attempt to kill the interloper
-                os.kill(pid, signal.SIG_DFL)
+        except (OSError, ValueError):
+            return False
+        if not same_node:
+            return False
+        if pid == os.getpid():
+            return self.name not in _held
+        try:
+            # Signal 0 only asks whether the process exists.
+            os.kill(pid, 0)
+        except ProcessLookupError:
+            return True
+        except OSError:
+            pass
+        return False
+
+    def _break_stale(self):
+        if not self._is_stale():
+            return
+        if fcntl is None:
+            os.unlink(self.name)
+            return
+        # Others may have found the same stale lock; only one at a time may
+        # look again and remove it, or it might be a new one by then.
+        fd = os.open(os.path.dirname(self.name), os.O_RDONLY)
+        try:
+            fcntl.flock(fd, fcntl.LOCK_EX)
+            if self._is_stale():
                 os.unlink(self.name)
-                continue
-            self.locked = True
+        finally:
+            os.close(fd)
 
+    def _try(self):
+        with _held_guard:
+            pid, holder = _held.get(self.name, (None, None))
+            if pid == os.getpid():
+                return False
+            if pid is not None:
+                # inherited from the parent process
+                del _held[self.name]
+            if not self._link():
+                self._break_stale()
+                if not self._link():
+                    return False
+            _held[self.name] = (os.getpid(), id(self))
+            return True
+
+    def acquire(self, timeout=None):
+        if self._depth and self._pid != os.getpid():
+            # still the parent's
+            self._lock = threading.RLock()
+            self._depth = 0
+        if timeout is None:
+            self._lock.acquire()
+        elif not self._lock.acquire(timeout=max(timeout, 0)):
+            return False
+        start = time.time()
+        try:
+            while not self._depth and not self._try():
+                if timeout is not None and (time.time() - start) >= timeout:
+                    self._lock.release()
+                    return False
+                time.sleep(0.01)
+        except BaseException:
+            self._lock.release()
+            raise
+        self._pid = os.getpid()
+        self._owner = threading.get_ident()
+        self._depth += 1
         return True
 
     def release(self):
         if not self.locked:
             return
+        if self._owner != threading.get_ident():
+            raise RuntimeError('The lock is held by another thread.')
 
-        pid, same_node = self.read()
-        if pid == os.getpid() and same_node:
-            os.unlink(self.name)
-            self.locked = False
-            self._lock.release()
+        if self._depth == 1:
+            self._give_up()
         else:
-            # TODO: error?
+            self._depth -= 1
+        self._lock.release()
+
+    def _give_up(self):
+        if not self.locked:
             return
+        self._depth = 0
+        with _held_guard:
+            if _held.get(self.name) == (os.getpid(), id(self)):
+                del _held[self.name]
+                try:
+                    pid, same_node = self.read()
+                    if pid == os.getpid() and same_node:
+                        os.unlink(self.name)
+                except (OSError, ValueError):
+                    pass
 
 
 class ResourceTypes:
-- 
2.43.0


From fe94012b5526e89d41346f2e7f091ef727332b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 076/109] fix: Keep the other keys of a key ring when one is
 added, updated or deleted

---
 pgp/db/gpg.py | 149 +++++++++++++++++++++++++++-----------------------
 1 file changed, 82 insertions(+), 67 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 4520fac..86a0d93 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -31,6 +31,7 @@ except ImportError:
     fcntl = None
 import os
 import platform
+import shutil
 import tempfile
 import threading
 import time
@@ -261,7 +262,7 @@ class BaseResource(object):
             yield self.get_transferrable_key(k)
 
     def __iter__(self):
-        return self.keys()
+        return iter(self.keys())
 
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
@@ -275,7 +276,7 @@ class BaseResource(object):
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
             if force:
-                self.create_db(self.filename)
+                self.create_db()
             else:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
@@ -384,8 +385,6 @@ class GDBM(BaseResource):
 
 class Keyring(BaseResource):
 
-    _offset_table = None
-
     def __init__(self, filename, force, secret, read_only, default):
         super(Keyring, self).__init__(filename, force, secret, read_only,
                                       default)
@@ -393,14 +392,20 @@ class Keyring(BaseResource):
         self._update_offset_table()
 
     def keys(self):
-        return self._offset_table.keys()
+        self._update_offset_table()
+        return list(self._offset_table)
 
     def _update_offset_table(self):
-        offset_table = {}
+        """Note which part of the file belongs to which key. Others may
+        change the file, so this is necessary before every use.
+        """
+
+        offset_table = OrderedDict()
         self.lock_db()
         try:
             with open(self.filename, 'rb') as fh:
                 packet_iter = parse_binary_packet_stream(fh)
+                fingerprint = None
                 last_offset = fh.tell()
                 for packet in packet_iter:
                     if self._preferred_header_format is None:
@@ -409,8 +414,13 @@ class Keyring(BaseResource):
                             constants.PUBLIC_KEY_PACKET_TYPE,
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
-                        offset_table[packet.key_id[-8:]] = last_offset
+                        fingerprint = packet.fingerprint
+                        start = last_offset
+                        key_id = packet.key_id
                     last_offset = fh.tell()
+                    if fingerprint is not None:
+                        offset_table[fingerprint] = (start, last_offset,
+                                                     key_id)
         finally:
             self.unlock_db()
 
@@ -448,6 +458,31 @@ class Keyring(BaseResource):
 
         return key
 
+    def _replace(self, new_data, start=None, end=None):
+        """Replace a part of the file, or append to it. Whatever happens,
+        the file has either its old or its new contents.
+        """
+
+        filename = os.path.realpath(self.filename)
+        with open(filename, 'rb') as fh:
+            data = fh.read()
+        if start is None:
+            start = end = len(data)
+        data = data[:start] + new_data + data[end:]
+        fd, temp_name = tempfile.mkstemp(
+            prefix='.#', dir=os.path.dirname(filename))
+        try:
+            with os.fdopen(fd, 'wb') as fh:
+                fh.write(data)
+                fh.flush()
+                os.fsync(fh.fileno())
+            shutil.copymode(filename, temp_name)
+            os.replace(temp_name, filename)
+        except BaseException:
+            os.unlink(temp_name)
+            raise
+        self._update_offset_table()
+
     def create_db(self):
         self.lock_db()
         try:
@@ -456,28 +491,50 @@ class Keyring(BaseResource):
         finally:
             self.unlock_db()
 
+    def find(self, identifier):
+        """All keys with a fingerprint or a long or short key ID."""
+
+        self.lock_db()
+        try:
+            self._update_offset_table()
+            return [
+                self._get_key(start)
+                for fingerprint, (start, _end, key_id)
+                in self._offset_table.items()
+                if fingerprint == identifier or (
+                    len(identifier) in (8, 16)
+                    and key_id.endswith(identifier))
+            ]
+        finally:
+            self.unlock_db()
+
+    def values(self):
+        self.lock_db()
+        try:
+            self._update_offset_table()
+            return [self._get_key(start)
+                    for start, _end, _key_id in self._offset_table.values()]
+        finally:
+            self.unlock_db()
+
     def get_transferrable_key(self, fingerprint):
-        offset = self._offset_table[fingerprint[-8:]]
-        return self._get_key(offset)
+        keys = self.find(fingerprint)
+        if not keys:
+            raise KeyError(fingerprint)
+        return keys[0]
 
     def add_transferrable_key(self, key):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint in self._offset_table:
-            raise KeyError
-
         self.lock_db()
         try:
-            data = b''
-            with open(self.filename, 'rb') as fh:
-                data = fh.read()
-
-            data += b''.join(map(bytes, key.to_packets(
-                self._preferred_header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
             self._update_offset_table()
+            if key.fingerprint in self._offset_table:
+                raise KeyError(key.fingerprint)
+
+            self._replace(b''.join(map(bytes, key.to_packets(
+                self._preferred_header_format))))
         finally:
             self.unlock_db()
 
@@ -487,33 +544,12 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
-            data = b''
-            with open(self.filename, 'rb') as fh:
-                data = fh.read(offset)
-                packets = []
-                packet_iter = parse_binary_packet_stream(fh)
-                header_format = None
-                for packet in packet_iter:
-                    if header_format is None:
-                        header_format = packet.header_format
-                    if packets and packet.type in (
-                            constants.PUBLIC_KEY_PACKET_TYPE,
-                            constants.SECRET_KEY_PACKET_TYPE,
-                            ):
-                        break
-                    last_offset = fh.tell()
-                fh.seek(last_offset)
-                data += fh.read()
-            data += b''.join(map(bytes, key.to_packets(header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
             self._update_offset_table()
+            start, end, _key_id = self._offset_table[key.fingerprint]
+            self._replace(b''.join(map(bytes, key.to_packets(
+                self._preferred_header_format))), start, end)
         finally:
             self.unlock_db()
 
@@ -521,32 +557,11 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
-            data = b''
-            with open(self.filename, 'rb') as fh:
-                data = fh.read(offset)
-                packets = []
-                packet_iter = parse_binary_packet_stream(fh)
-                header_format = None
-                for packet in packet_iter:
-                    if header_format is None:
-                        header_format = packet.header_format
-                    if packets and packet.type in (
-                            constants.PUBLIC_KEY_PACKET_TYPE,
-                            constants.SECRET_KEY_PACKET_TYPE,
-                            ):
-                        break
-                    last_offset = fh.tell()
-                fh.seek(last_offset)
-                data += fh.read()
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
             self._update_offset_table()
+            start, end, _key_id = self._offset_table[key.fingerprint]
+            self._replace(b'', start, end)
         finally:
             self.unlock_db()
 
-- 
2.43.0


From 993f89a2086212208282d51c87edccbed38a921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 077/109] fix: Tell the kinds of key database apart

---
 pgp/db/gpg.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 86a0d93..c6ad6b4 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -44,9 +44,14 @@ from pgp.transferrable_keys import TransferablePublicKey
 from pgp.transferrable_keys import TransferableSecretKey
 
 
+# in either byte order, with 32 or 64 bit offsets
 GDBM_MAGIC = (
-    b'\x13\x57\x9a\xce'
-    b'\xce\x9a\x57\x13'
+    b'\x13\x57\x9a\xce',
+    b'\xce\x9a\x57\x13',
+    b'\x13\x57\x9a\xcd',
+    b'\xcd\x9a\x57\x13',
+    b'\x13\x57\x9a\xcf',
+    b'\xcf\x9a\x57\x13',
 )
 
 
@@ -572,10 +577,10 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     type_ = ResourceTypes.NONE
     if filename.startswith('gnupg-keyring:'):
         type_ = ResourceTypes.KEYRING
-        filename = filename[12:]
+        filename = filename[len('gnupg-keyring:'):]
     elif filename.startswith('gnupg-kbx:'):
         type_ = ResourceTypes.KEYBOX
-        filename = filename[11:]
+        filename = filename[len('gnupg-kbx:'):]
     filename = os.path.abspath(filename)
 
     if type_ == ResourceTypes.NONE:
-- 
2.43.0


From 04c9db3d6dac9b4dd41b0e6ae11b9b13ac67fb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 078/109] fix: Find, add and change the keys of all resources
 of a database

---
 pgp/db/gpg.py | 78 ++++++++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index c6ad6b4..c6dcb55 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -631,47 +631,42 @@ class GPGDatabase(object):
         resource = self.register_resource(resource.filename, resource, primary)
         return resource
 
-    def add_key(self, key):
-        if isinstance(key, TransferablePublicKey):
-            for resource in self._resources.values():
-                if not resource.secret:
-                    resource.add_transferrable_key(key)
-                    break
-        elif isinstance(key, TransferableSecretKey):
-            for resource in self._resources.values():
-                if resource.secret:
-                    resource.add_transferrable_key(key)
-                    break
+    def _resources_for(self, key):
+        # A secret key is a kind of public key
+        if isinstance(key, TransferableSecretKey):
+            secret = True
+        elif isinstance(key, TransferablePublicKey):
+            secret = False
         else:
             raise TypeError
+        return [resource for resource in self._resources.values()
+                if bool(resource.secret) == secret]
 
-    def delete_key(self, key):
-        if isinstance(key, TransferablePublicKey):
-            for resource in self._resources.values():
-                if not resource.secret:
-                    resource.delete_transferrable_key(key)
-                    break
-        elif isinstance(key, TransferableSecretKey):
-            for resource in self._resources.values():
-                if resource.secret:
-                    resource.delete_transferrable_key(key)
-                    break
+    def _resource_with(self, key):
+        for resource in self._resources_for(key):
+            if key.fingerprint in resource:
+                return resource
+        raise KeyError(key.fingerprint)
+
+    def add_key(self, key):
+        resources = self._resources_for(key)
+        if not resources:
+            raise RuntimeError('No resource for keys of this kind.')
+        for resource in resources:
+            if key.fingerprint in resource:
+                raise KeyError(key.fingerprint)
+        for resource in resources:
+            if not resource.read_only:
+                resource.add_transferrable_key(key)
+                break
         else:
             raise TypeError
 
+    def delete_key(self, key):
+        self._resource_with(key).delete_transferrable_key(key)
+
     def update_key(self, key):
-        if isinstance(key, TransferablePublicKey):
-            for resource in self._resources.values():
-                if not resource.secret:
-                    resource.update_transferrable_key(key)
-                    break
-        elif isinstance(key, TransferableSecretKey):
-            for resource in self._resources.values():
-                if resource.secret:
-                    resource.update_transferrable_key(key)
-                    break
-        else:
-            raise TypeError
+        self._resource_with(key).update_transferrable_key(key)
 
     def register_resource(self, name, resource, primary):
         resource = self._resources.setdefault(name, resource)
@@ -698,15 +693,14 @@ class GPGDatabase(object):
             return results
         for resource in self._resources.values():
             if fingerprint or key_id:
-                try:
-                    key = resource.get_transferrable_key(fingerprint or key_id)
-                except KeyError:
-                    continue
-                if user_id is not None:
-                    if self._matches_user_id(key, user_id):
+                for key in resource.find(fingerprint or key_id):
+                    if key_id and not (
+                            len(key_id) in (8, 16)
+                            and key.key_id.endswith(key_id)):
+                        continue
+                    if user_id is None or \
+                            self._matches_user_id(key, user_id):
                         results.append(key)
-                else:
-                    results.append(key)
             else:
                 # User ID only. Be really dumb and iterate.
                 for key in resource.values():
-- 
2.43.0


From c3125e7cb35406403ad36d9505e86672d19c4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 079/109] fix: Make GDBM key databases usable

---
 pgp/db/gpg.py | 62 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index c6dcb55..56d12c2 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -291,23 +291,46 @@ class GDBM(BaseResource):
 
     def __init__(self, *args, **kwargs):
         super(GDBM, self).__init__(*args, **kwargs)
-        first_key = self.firstkey()
-        if first_key is not None:
-            packet = next(parse_binary_packet_data(self[first_key]))
+        self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
+        for fingerprint in self.keys():
+            packet = self.get_transferrable_key(fingerprint).to_packet()
             self._preferred_header_format = packet.header_format
-        else:
-            self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
+            break
 
     def keys(self):
+        keys = []
         self.lock_db()
         try:
             with gdbm.open(self.filename, 'r') as db:
                 key = db.firstkey()
                 while key is not None:
-                    yield key
+                    keys.append(key.decode('ascii'))
                     key = db.nextkey(key)
         finally:
             self.unlock_db()
+        return keys
+
+    def find(self, identifier):
+        """All keys with a fingerprint or a long or short key ID."""
+
+        self.lock_db()
+        try:
+            keys = self.values()
+        finally:
+            self.unlock_db()
+        return [
+            key for key in keys
+            if key.fingerprint == identifier or (
+                len(identifier) in (8, 16)
+                and key.key_id.endswith(identifier))
+        ]
+
+    def values(self):
+        self.lock_db()
+        try:
+            return [self._get_key(k) for k in self.keys()]
+        finally:
+            self.unlock_db()
 
     def create_db(self):
         self.lock_db()
@@ -318,29 +341,22 @@ class GDBM(BaseResource):
             self.unlock_db()
 
     def get_transferrable_key(self, fingerprint):
-        if len(fingerprint) != 40:
-            # Actually a key ID - find the fingerprint first.
-            fingerprint = ([
-                k for k in self.keys()
-                if k.endswith(fingerprint)
-                ] + [None]
-                )[0]
-
-        if fingerprint is None:
-            return None
+        keys = self.find(fingerprint)
+        if not keys:
+            raise KeyError(fingerprint)
+        return keys[0]
 
+    def _get_key(self, fingerprint):
         self.lock_db()
         try:
             with gdbm.open(self.filename, 'r') as db:
                 packet_data = db[fingerprint]
-            packets = list(parse_binary_packet_data(packet_data))
-            if packets:
-                if packets[0].type == constants.PUBLIC_KEY_PACKET_TYPE:
-                    return TransferablePublicKey.from_packets(packets)
-                elif packets[0].type == constants.SECRET_KEY_PACKET_TYPE:
-                    return TransferableSecretKey.from_packets(packets)
         finally:
             self.unlock_db()
+        packets = list(parse_binary_packet_data(packet_data))
+        if packets[0].type == constants.SECRET_KEY_PACKET_TYPE:
+            return TransferableSecretKey.from_packets(packets)
+        return TransferablePublicKey.from_packets(packets)
 
     def add_transferrable_key(self, key):
         if self.read_only:
@@ -382,8 +398,8 @@ class GDBM(BaseResource):
             with gdbm.open(self.filename, 'w') as db:
                 if key.fingerprint not in db:
                     raise KeyError(key.fingerprint)
-                gdbm.reorganize()
                 del db[key.fingerprint]
+                db.reorganize()
         finally:
             self.unlock_db()
 
-- 
2.43.0


From 2bdf34bf36729c2a2390b47dd9fd27637f805c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 080/109] fix: Look at and create a key database under one lock

---
 pgp/db/gpg.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 56d12c2..eb55c0a 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -259,12 +259,8 @@ class BaseResource(object):
         self._maybe_create(force)
 
     def items(self):
-        for k in self.keys():
-            yield k, self.get_transferrable_key(k)
-
-    def values(self):
-        for k in self.keys():
-            yield self.get_transferrable_key(k)
+        for key in self.values():
+            yield key.fingerprint, key
 
     def __iter__(self):
         return iter(self.keys())
@@ -280,11 +276,16 @@ class BaseResource(object):
 
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
-            if force:
-                self.create_db()
-            else:
+            if not force:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
+            self.lock_db()
+            try:
+                # Another process may have created it meanwhile.
+                if not os.path.exists(self.filename):
+                    self.create_db()
+            finally:
+                self.unlock_db()
 
 
 class GDBM(BaseResource):
@@ -292,9 +293,8 @@ class GDBM(BaseResource):
     def __init__(self, *args, **kwargs):
         super(GDBM, self).__init__(*args, **kwargs)
         self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
-        for fingerprint in self.keys():
-            packet = self.get_transferrable_key(fingerprint).to_packet()
-            self._preferred_header_format = packet.header_format
+        for key in self.values():
+            self._preferred_header_format = key.to_packet().header_format
             break
 
     def keys(self):
-- 
2.43.0


From f933ddce74dbe283f95ee48614e5f8b4e0911b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 081/109] fix: Compute the digest of a whole key as SKS does

---
 pgp/utils.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index d7b97c4..8566c28 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -885,37 +885,35 @@ def bytearray_to_hex(arr, offset=0, expected=None):
     return result
 
 
-def compare_packets(packet1, packet2):
-    c = (packet1.raw > packet2.raw) - (packet1.raw < packet2.raw)
-    if c:
-        return c
-    return (packet1.data > packet2.data) - (packet1.data < packet2.data)
+def _type_and_content(packet):
+    # pgpdump has other names for these
+    if hasattr(packet, 'raw'):
+        return packet.raw, bytes(packet.data)
+    return packet.type, bytes(packet.content)
 
 
 def sort_key(packets):
-    return sorted(packets, cmp=compare_packets)
+    return sorted(packets, key=_type_and_content)
 
 
 def concat_key(packets):
     buf = bytearray()
     for packet in packets:
-        packet_length = len(packet.data)
-        buf.append(packet.raw)
-        buf.extend([
-            (packet_length >> 24) & 0xff,
-            (packet_length >> 16) & 0xff,
-            (packet_length >> 8) & 0xff,
-            packet_length & 0xff
-            ])
-        buf.extend(packet.data)
+        type_, content = _type_and_content(packet)
+        buf.extend(int_to_4byte(type_))
+        buf.extend(int_to_4byte(len(content)))
+        buf.extend(content)
     return buf
 
 
 def hash_key_data(packets):
+    """The digest by which SKS key servers know a key."""
+
     canonical_key_data = concat_key(sort_key(packets))
     if not canonical_key_data:
-        return bytes('')
-    return bytearray(MD5.new(canonical_key_data).hexdigest())
+        return bytearray()
+    return bytearray(
+        MD5.new(bytes(canonical_key_data)).hexdigest().encode('ascii'))
 
 
 def get_signature_values(signature_packet_data):
-- 
2.43.0


From 96a6097790b964b2d20d9335cbc92c63fd36cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 082/109] fix: Merge the parts and signatures of two copies of
 a key

---
 pgp/merge.py              | 174 ++++++++++++++++++--------------------
 pgp/transferrable_keys.py |   6 ++
 2 files changed, 86 insertions(+), 94 deletions(-)

diff --git a/pgp/merge.py b/pgp/merge.py
index 935ab4b..28866e7 100644
--- a/pgp/merge.py
+++ b/pgp/merge.py
@@ -19,131 +19,117 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
-from collections import OrderedDict
-
 from pgp import utils
+from pgp.transferrable_keys import BaseSecretKey
 
 
 def keys_equivalent(key1, key2):
+    """Are these copies of the same public key, or of the same secret key?
+    """
+
     return (
-        key1.version == key2.version
-        and key1.public_key_algorithm == key2.public_key_algorithm
-        and key1.modulus_n == key2.modulus_n
-        and key1.exponent_e == key2.exponent_e
-        and key1.prime_p == key2.prime_p
-        and key1.group_generator_g == key2.group_generator_g
-        and key1.group_order_q == key2.group_order_q
-        and key1.key_value_y == key2.key_value_y
-        and key1.creation_time == key2.creation_time
+        isinstance(key1, BaseSecretKey) == isinstance(key2, BaseSecretKey)
+        and part_key(key1) == part_key(key2)
         )
 
 
-def merge_sigpairs(parts):
-    # "Since a self-signature contains important information about the key's
-    #  use, an implementation SHOULD allow the user to rewrite the self-
-    #  signature, and important information in it, such as preferences and
-    #  key expiration."
-    #
-    #  "[...]"
-    #
-    # "An implementation that encounters multiple self-signatures on the
-    #  same object may resolve the ambiguity in any way it sees fit, but it
-    #  is RECOMMENDED that priority be given to the most recent self-
-    #  signature."
-
-    m = OrderedDict()
-    for part in parts:
-        old_sigs = m.setdefault(part, [])
-        for sig in part.signatures:
-            sig_key = signature_key(sig)
-            for sig2 in old_sigs:
-                sig_key2 = signature_key(sig2)
-                if sig_key != sig_key2:
-                    old_sigs.append(sig)
-
-    for part, sigs in m.items():
-        part.signatures = []
-
-        # If there are multiple self-signatures, just add the newest one at
-        # the head of the list. All other signatures are appended in order.
-        # All self-signatures should already be validated by this point.
-        selfsig = None
-        for sig in sigs:
-            if sig.is_self_signature() and selfsig:
-                if sig.creation_time > selfsig.creation_time:
-                    selfsig = sig
-            else:
-                part.signatures.append(sig)
-        part.signatures.insert(0, selfsig)
-
-
-def merge_sigpair_lists(part1, part2):
-    return merge_sigpairs(part1 + part2)
-
-
-_marker = object()
+def part_key(part):
+    """What makes this a certain key, subkey, user ID or user attribute."""
+
+    packet = part.to_packet()
+    return packet.type, bytes(getattr(packet, 'public_content',
+                                      packet.content))
 
 
 def signature_key(sig):
+    # The unhashed subpackets are not a part of what was signed.
+    hashed_subpackets = ()
+    if sig.version >= 4:
+        hashed_subpackets = tuple(map(bytes, sig.hashed_subpackets))
     return (
         sig.version,
         sig.signature_type,
         sig.public_key_algorithm,
         sig.hash_algorithm,
         sig.creation_time,
-        set(sig.issuer_key_ids),
+        hashed_subpackets,
+        tuple(sig.signature_values),
         )
 
 
+def merge_signatures(part, candidate_part):
+    """Add the signatures of one copy of a key, subkey, user ID or user
+    attribute to the other.
+    """
+
+    signatures = []
+    seen = set()
+    for sig in part.signatures + candidate_part.signatures:
+        sig_key = signature_key(sig)
+        if sig_key in seen:
+            continue
+        seen.add(sig_key)
+        if sig.parent is not part:
+            sig = sig.copy_to(part)
+        signatures.append(sig)
+    part.signatures = signatures
+
+
+def merge_parts(key, parts, candidate_parts):
+    """Returns the subkeys, user IDs or user attributes of both copies of a
+    key.
+    """
+
+    result = []
+    known = {}
+    for part in parts + candidate_parts:
+        part_id = part_key(part)
+        if part_id in known:
+            merge_signatures(known[part_id], part)
+            continue
+        if part.primary_public_key is not key:
+            part = part.copy_to(key)
+        known[part_id] = part
+        merge_signatures(part, part)
+        result.append(part)
+    return result
+
+
 def merge(key, candidate_key):
+    """Adds what is in another copy of a key to it."""
+
     if not keys_equivalent(key, candidate_key):
         return key
 
-    signatures = candidate_key.signatures
-    old_sigs = OrderedDict()
-    for sig in signatures:
-        sig_key = signature_key(sig)
-        for sig2 in old_sigs:
-            sig_key2 = signature_key(sig2)
-            if sig_key == sig_key2:
-                break
-        else:
-            # Only called if we never break
-            old_sigs[sig_key] = sig
-
-    old_user_ids = candidate_key.user_ids
-    old_user_attributes = candidate_key.user_attributes
-    old_subkeys = candidate_key.subkeys
-
-    for sig in old_sigs.values():
-        # FIX
-        if sig not in key.signatures:
-            key.signatures.append(sig)
-
-    key.user_ids = merge_sigpair_lists(
-        key.user_ids,
-        old_user_ids
-        )
-    key.user_attributes = merge_sigpair_lists(
-        key.user_attributes,
-        old_user_attributes
-        )
-    key.subkeys = merge_sigpair_lists(
-        key.subkeys,
-        old_subkeys
-        )
+    merge_signatures(key, candidate_key)
+
+    last = max([part.position for part in
+                key.user_ids + key.user_attributes] or [(0, 0)])
+    user_ids = merge_parts(key, key.user_ids, candidate_key.user_ids)
+    user_attributes = merge_parts(key, key.user_attributes,
+                                  candidate_key.user_attributes)
+    # What is new comes after what was there.
+    for part in user_ids:
+        if part not in key.user_ids:
+            part.position = (last[0] + 1, part.position[1])
+    for part in user_attributes:
+        if part not in key.user_attributes:
+            part.position = (last[0] + 1, part.position[1])
+    key.user_ids = user_ids
+    key.user_attributes = user_attributes
+    key.subkeys = merge_parts(key, key.subkeys, candidate_key.subkeys)
 
     return key
 
 
 def merge_key(key, db):
-    key_id = key.key_id
+    """Merges a key with the copies of it in a database."""
+
     if hasattr(db, 'get_key_by_hash'):
-        if db.get_key_by_hash(utils.hash_entire_key(key)):
+        if db.get_key_by_hash(utils.hash_key_data(key.to_packets())):
             return key
 
-    potential_merges = list(db.search(key_id=key_id))
-    if potential_merges:
-        key = merge(key, potential_merges[0])
+    for candidate_key in db.search(key_id=key.key_id):
+        key = merge(key, candidate_key)
 
     return key
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 51d05a0..424a257 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -662,6 +662,12 @@ class PublicSubkey(BasePublicKey):
                                                        signature_version))
         return result
 
+    def copy_to(self, primary_public_key):
+        result = copy.copy(self)
+        result._primary_public_key_ref = weakref.ref(primary_public_key)
+        result.signatures = [s.copy_to(result) for s in self.signatures]
+        return result
+
     @property
     def primary_public_key(self):
         return self._primary_public_key_ref()
-- 
2.43.0


From 40f38d2f6d6c2ab143b6a3131677f1b0a686abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 083/109] fix: Put the binding signatures of a merged subkey
 before its revocations

---
 pgp/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/merge.py b/pgp/merge.py
index 28866e7..2e90a0c 100644
--- a/pgp/merge.py
+++ b/pgp/merge.py
@@ -20,6 +20,7 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 from pgp import utils
+from pgp.packets import constants
 from pgp.transferrable_keys import BaseSecretKey
 
 
@@ -72,6 +73,9 @@ def merge_signatures(part, candidate_part):
         if sig.parent is not part:
             sig = sig.copy_to(part)
         signatures.append(sig)
+    # The binding signatures of a subkey come before its revocations.
+    signatures.sort(key=lambda sig: sig.signature_type ==
+                    constants.SUBKEY_REVOCATION_SIGNATURE)
     part.signatures = signatures
 
 
-- 
2.43.0


From 67bb92d3eb69b14747ae67867a869e9715bea2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 084/109] fix: Raise the new exception in raise_with

---
 pgp/py3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/py3.py b/pgp/py3.py
index 1b8f554..b16eed7 100644
--- a/pgp/py3.py
+++ b/pgp/py3.py
@@ -16,4 +16,5 @@
 
 
 def raise_with(new, old):
-    eval('raise new with old')
+    setattr(new, '__cause__', old)
+    raise new
-- 
2.43.0


From f96512303b46b5e05ec4f460642899c4e9c342d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 085/109] fix: Validate the signatures of keys against the keys
 that made them

---
 pgp/signature_verification.py | 498 ++++++++++++++++++++--------------
 1 file changed, 291 insertions(+), 207 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 51764bf..efbcecf 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -32,65 +32,161 @@ from pgp.exceptions import InvalidBackSignature
 from pgp.exceptions import InvalidSignature
 from pgp.exceptions import InvalidSubkeyBindingSignature
 from pgp.exceptions import MissingBackSignature
+from pgp.exceptions import PublicKeyAlgorithmCannotSign
 from pgp.exceptions import SignatureCreatedInTheFuture
 from pgp.exceptions import SignatureCreatedBeforeContent
 from pgp.exceptions import SignatureDigestMismatch
+from pgp.exceptions import SignatureHasExpired
+from pgp.exceptions import SignatureTimeConflict
 from pgp.exceptions import SignatureVerificationFailed
+from pgp.exceptions import SignatureWarning
 from pgp.exceptions import SignedByRevokedKey
 from pgp.exceptions import SigningKeyCreatedInTheFuture
 from pgp.exceptions import SigningKeyHasBeenRevoked
 from pgp.exceptions import SigningKeyHasExpired
 from pgp.exceptions import UnexpectedSignatureType
 from pgp.packets import constants
-from pgp.transferrable_keys import TransferablePublicKey
-from pgp.transferrable_keys import TransferableSecretKey
 
-try:
-    long
-except NameError:
-    long = int
+
+CERTIFICATIONS = (
+    constants.GENERIC_CERTIFICATION,
+    constants.CASUAL_CERTIFICATION,
+    constants.POSITIVE_CERTIFICATION,
+    constants.PERSONA_CERTIFICATION,
+    )
+
+
+def _is_key(item):
+    return hasattr(item, 'public_key_algorithm')
+
+
+def _primary_key_of(item):
+    return getattr(item, 'primary_public_key', None) or item
+
+
+def _timestamp(time):
+    return utils.datetime_to_timestamp(time)
+
+
+def _verifies(key, signature, item):
+    """Was the signature of this item made by this key?"""
+
+    try:
+        return key_verify(item, signature, key)
+    except (InvalidSignature, CannotValidateSignature):
+        return False
 
 
 def get_revocation_keys(key):
-    """Returns a list of revocation key IDs for the given key. Does not
-    return revocation keys for subkeys.
+    """Returns a list of the fingerprints of the keys which may revoke
+    the given key. Does not return revocation keys for subkeys.
     """
 
+    result = []
     for s in key.signatures:
-        if s.signature_type == constants.KEY_REVOCATION_SIGNATURE:
-            revkeys = s.revocation_keys
-            for revkey_info in revkeys:
-                yield revkey_info.fingerprint[-16:]
+        if (
+                s.signature_type == constants.SIGNATURE_DIRECTLY_ON_A_KEY
+                and s.revocation_keys
+                and _verifies(key, s, key)
+                ):
+            result.extend(info.fingerprint for info in s.revocation_keys)
+    return result
+
+
+def get_revocations(key, db=None):
+    """Returns a list of the valid signatures revoking the given key, or
+    the key it is a subkey of.
+    """
 
+    primary = _primary_key_of(key)
+    signatures = [(primary, s) for s in primary.signatures
+                  if s.signature_type == constants.KEY_REVOCATION_SIGNATURE]
+    if key is not primary:
+        signatures += [
+            (key, s) for s in key.signatures
+            if s.signature_type == constants.SUBKEY_REVOCATION_SIGNATURE]
+    if not signatures:
+        return []
+
+    revokers = [primary]
+    if db is not None:
+        for fingerprint in get_revocation_keys(primary):
+            revokers.extend(
+                k for found in db.search(fingerprint=fingerprint)
+                for k in [found] + list(found.subkeys)
+                if k.fingerprint == fingerprint)
+    return [s for item, s in signatures
+            if any(_verifies(revoker, s, item) for revoker in revokers)]
+
+
+def _is_revoked(signature):
+    """Has whoever made this signature revoked it?"""
+
+    parent = signature.parent
+    primary = _primary_key_of(parent)
+    for s in parent.signatures:
+        if (
+                s.revocation
+                and s._may_revoke(signature)
+                and _verifies(primary, s, parent)
+                ):
+            return True
+    return False
+
+
+def get_key_expiration_time(key):
+    """When the key expires according to its most recent valid
+    self-signature.
+    """
 
-def check_back_signatures(key, subkey_binding_signature, strict=False,
+    if key.version < 4:
+        return key.expiration_time
+
+    primary = _primary_key_of(key)
+    if key is not primary:
+        areas = [[s for s in key.signatures if s.signature_type ==
+                  constants.SUBKEY_BINDING_SIGNATURE]]
+    else:
+        areas = [
+            [s for s in key.signatures if s.signature_type ==
+             constants.SIGNATURE_DIRECTLY_ON_A_KEY],
+            [s for part in key.user_ids + key.user_attributes
+             for s in part.signatures if s.signature_type in CERTIFICATIONS],
+            ]
+    for signatures in areas:
+        signatures = [
+            s for s in signatures
+            if s.creation_time is not None
+            and not s.expired
+            and _verifies(primary, s, s.parent)
+            and not _is_revoked(s)
+            ]
+        if signatures:
+            most_recent = max(signatures,
+                              key=lambda s: _timestamp(s.creation_time))
+            return most_recent.key_expiration_time
+    return None
+
+
+def check_back_signatures(key, subkey, subkey_binding_signature,
                           current_time=None):
     """Validates the backsignature of a subkey binding signature if one
     exists.
     """
 
+    error = None
     for sig in subkey_binding_signature.embedded_signatures:
         if sig.signature_type == constants.PRIMARY_KEY_BINDING_SIGNATURE:
-            hashed_subpacket_data = get_hashed_subpacket_data(
-                                        subkey_binding_signature
-                                        )
-            target = subkey_binding_signature.target()
-            if not target:
-                continue
-            hash_ = utils.hash_packet_for_signature(
-                        key.to_packet(),
-                        sig.signature_type,
-                        sig.version,
-                        sig.hash_algorithm,
-                        sig.creation_time,
-                        sig.public_key_algorithm,
-                        target.to_packet(),
-                        hashed_subpacket_data
-                        )
             try:
-                check_signature(key, sig, hash_, strict, current_time)
-            except InvalidSignature as e:
-                raise_with(InvalidBackSignature(target.key_id), e)
+                check_signature(subkey, sig, subkey,
+                                current_time=current_time)
+            except (InvalidSignature, CannotValidateSignature) as e:
+                error = e
+            else:
+                return
+
+    if error is not None:
+        raise_with(InvalidBackSignature(subkey.key_id), error)
 
     if subkey_binding_signature.may_sign_data:
         # "For subkeys that can issue signatures, the subkey binding
@@ -100,20 +196,20 @@ def check_back_signatures(key, subkey_binding_signature, strict=False,
         raise MissingBackSignature()
 
 
-def check_signature_values(key, signature, current_time=None, strict=False):
+def check_signature_values(key, signature, strict=False, current_time=None,
+                           db=None):
     """Do basic checks on the signature validity including chronology
     validation, expiration and revocation.
     """
 
-    if key.creation_time > signature.creation_time:
-        raise SignatureCreatedBeforeContent()
+    if signature.creation_time is None:
+        raise SignatureTimeConflict()
 
-    key_expired = False
-    key_revoked = False
     if current_time is None:
         current_time = datetime.datetime.now()
-    key_creation_time = key.creation_time
-    sig_creation_time = signature.creation_time
+    current_time = _timestamp(current_time)
+    key_creation_time = _timestamp(key.creation_time)
+    sig_creation_time = _timestamp(signature.creation_time)
 
     if key_creation_time > current_time:
         raise SigningKeyCreatedInTheFuture(key.key_id)
@@ -121,234 +217,222 @@ def check_signature_values(key, signature, current_time=None, strict=False):
     if sig_creation_time > current_time:
         raise SignatureCreatedInTheFuture()
 
-    key_expiration_time = key.expiration_time
-    if key_expiration_time is not None and key_expiration_time < current_time:
-        if strict:
-            raise SigningKeyHasExpired(key_expiration_time)
-        key_expired = True
+    if key_creation_time > sig_creation_time:
+        raise SignatureCreatedBeforeContent()
+
+    if signature.revocation:
+        # What has been revoked stays so, whatever becomes of the key.
+        return False, False
+
+    if strict and signature.signature_expiration_time is not None:
+        if _timestamp(signature.signature_expiration_time) < current_time:
+            raise SignatureHasExpired()
 
+    key_expired = False
+    for k in set([key, _primary_key_of(key)]):
+        key_expiration_time = get_key_expiration_time(k)
+        if (
+                key_expiration_time is not None
+                and _timestamp(key_expiration_time) < current_time
+                ):
+            if strict:
+                raise SigningKeyHasExpired(key_expiration_time)
+            key_expired = True
+
+    key_revoked = False
     if signature.revocable is not False:
         # "Signatures that are not revocable have any later revocation
         #  signatures ignored. They represent a commitment by the signer that
         #  he cannot revoke his signature for the life of his key. If this
         #  packet is not present, the signature is revocable."
-        revocation_key_parent = key.primary_public_key or key
-        revocation_keys = []
-        for sig in key.signatures:
-            # first look for separate revocation keys
-            if sig.signature_type in (constants.SUBKEY_BINDING_SIGNATURE,
-                                      constants.SIGNATURE_DIRECTLY_ON_A_KEY):
-                revocation_keys.extend([
-                    rev_key.fingerprint[-8:]
-                    for rev_key
-                    in sig.revocation_keys
-                    ])
-        for sig in key.signatures:
-            if sig.signature_type in (constants.SUBKEY_REVOCATION_SIGNATURE,
-                                      constants.KEY_REVOCATION_SIGNATURE):
-                revocation_time = sig.creation_time
-                if revocation_time < key.creation_time and strict:
+        revocations = get_revocations(key, db)
+        if revocations and strict:
+            for revocation in revocations:
+                if (
+                        revocation.creation_time is not None
+                        and _timestamp(revocation.creation_time) <=
+                        sig_creation_time
+                        ):
                     raise SignedByRevokedKey(key.key_id)
-                if revocation_key_parent.key_id in sig.issuer_key_ids:
-                    if strict:
-                        raise SigningKeyHasBeenRevoked(key.key_id)
-                    key_revoked = True
-                elif (revocation_keys and
-                      key.key_id[-8:] in revocation_keys):
-
-                    if strict:
-                        raise SigningKeyHasBeenRevoked(key.key_id)
-                    key_revoked = True
+            raise SigningKeyHasBeenRevoked(key.key_id)
+        key_revoked = bool(revocations)
 
     return key_expired, key_revoked
 
 
-def get_hashed_subpacket_data(signature):
-    """Get the hashed subpacket data from a signature packet's data."""
+def get_signature_hash(target, signature):
+    """Get the hash of the data being signed."""
 
-    sig_version = signature.version
-    if sig_version in (2, 3):
-        return bytearray()
-    elif sig_version >= 4:
-        return b''.join(map(bytes, signature.hashed_subpackets))
+    hash_ = utils.get_hash_instance(signature.hash_algorithm)
+    hash_.update(bytes(target.to_signable_data(signature.signature_type,
+                                               signature.version)))
+    hash_.update(bytes(signature.to_signable_data(signature.signature_type,
+                                                  signature.version)))
+    return hash_
 
 
-def key_verify(expected_hash, signature, key):
+def key_verify(target, signature, key):
     """Verify that the signature data matches the calculated digest of
     the data being signed using the key that made the signature.
     """
 
-    return key.verify(signature, expected_hash)
-
-
-def check_signature(key, signature, hash_, strict=False, current_time=None):
-    """Validate the signature created by this key matches the digest of
-    the data it claims to sign.
-    """
-
-    key_expired, key_revoked = \
-            check_signature_values(key, signature, strict,
-                                   current_time=current_time)
+    if key.public_key_algorithm in (2, 16):
+        raise PublicKeyAlgorithmCannotSign(key.public_key_algorithm)
 
     # Perform the quick check first before busting out the public key
     # algorithms
-    digest = hash_.digest()
-    if bytearray(digest[:2]) != signature.hash2:
+    digest = get_signature_hash(target, signature).digest()
+    if bytearray(digest[:2]) != bytearray(signature.hash2):
         raise SignatureDigestMismatch()
 
-    key_verify(key, hash_, signature)
-
-    return key_expired, key_revoked
+    try:
+        return key.verify(signature, target)
+    except (InvalidSignature, CannotValidateSignature):
+        raise
+    except ValueError as e:
+        # The numbers are no signature this key could have made.
+        raise_with(SignatureVerificationFailed(), e)
 
 
-def validate_key_signature(signature, hash_, key, strict=False,
-                           current_time=None):
-    """Validates whether the signature of a key is valid."""
+def check_signature(key, signature, target, strict=False, current_time=None,
+                    db=None):
+    """Validate the signature created by this key matches the digest of
+    the data it claims to sign.
+    """
 
-    key_expired, key_revoked = \
-            check_signature(key, signature, hash_, strict,
-                            current_time=current_time)
-    parent = key.public_key_parent
-    if parent:
-        check_back_signatures(key, signature, strict, current_time)
+    key_verify(target, signature, key)
+    if _is_key(target) and signature.creation_time is not None:
+        if _timestamp(target.creation_time) > \
+                _timestamp(signature.creation_time):
+            raise SignatureCreatedBeforeContent()
 
-    return key_expired, key_revoked
+    return check_signature_values(key, signature, strict, current_time, db)
 
 
-def check_revocation_keys(key, signature, hash_, signing_key,
-                          strict=False, current_time=None):
-    """Validates a revocation signature on a public key, where the key
-    being revoked has been signed by another key.
-    """
+def check_revoked_signature(target, signature, signing_key, public_key):
+    """Is there a signature which this key may revoke with this one?"""
 
-    for rk in get_revocation_keys(key):
-        if rk[-len(key.key_id):] == key.key_id:
-            return validate_key_signature(signature, hash_, signing_key,
-                                          strict, current_time)
+    revoked = signature.target
+    if revoked is not None:
+        revoked = [revoked]
+    else:
+        revoked = [s for s in target.signatures
+                   if s is not signature and signature._may_revoke(s)]
+    if not revoked:
+        raise CannotValidateSignature('The revoked signature is unknown')
+    for sig in revoked:
+        if (
+                signing_key.key_id not in sig.issuer_key_ids
+                and signing_key.fingerprint not in
+                get_revocation_keys(public_key)
+                ):
+            error = SignatureVerificationFailed(
+                'Signature cannot be revoked by this key')
+        elif sig.revocable is False:
+            error = SignatureVerificationFailed(
+                'Signature cannot be revoked')
+        elif _timestamp(sig.creation_time) > \
+                _timestamp(signature.creation_time):
+            error = SignatureCreatedBeforeContent()
+        else:
+            return
+    raise error
 
 
 def validate_signature(target, signature, signing_key, public_key=None,
-                       strict=False, current_time=None):
-    """Returns a tuple of three booleans, the first indicates whether
-    the signature has expired, the second indicates if the signing key
-    has expired, the third indicates if the signing key has been
-    revoked.
-
-    If the signing_key passed in is a subkey, it must have the 'parent'
-    item set to its public key data.
+                       strict=False, current_time=None, db=None):
+    """Returns a tuple of two booleans, the first indicates if the
+    signing key has expired, the second indicates if the signing key has
+    been revoked.
+
+    If the signature is not valid, or if strict and it or the signing
+    key has expired or been revoked, an exception is raised.
     """
 
-    hashed_subpacket_data = get_hashed_subpacket_data(
-                                signature
-                                )
+    if public_key is None:
+        public_key = _primary_key_of(target)
     sig_type = signature.signature_type
-    hash_ = utils.hash_packet_for_signature(
-                target.to_packet(),
-                signature.signature_type,
-                signature.version,
-                signature.hash_algorithm,
-                signature.creation_time,
-                signature.public_key_algorithm,
-                public_key.to_packet(),
-                hashed_subpacket_data
-                )
-    result = False, False
-    if sig_type == constants.KEY_REVOCATION_SIGNATURE:
-        # public key revocation
-        if public_key.key_id not in signature.issuer_key_ids:
-            result = check_revocation_keys(public_key, signature,
-                                           hash_, signing_key, strict,
-                                           current_time)
-        else:
-            result = check_signature(public_key, signature, hash_,
-                                     strict, current_time)
-    elif sig_type == constants.SUBKEY_REVOCATION_SIGNATURE:
-        # subkey revocation
-        result = check_signature(public_key, signature, hash_,
-                                 strict, current_time)
-    elif sig_type == constants.SUBKEY_BINDING_SIGNATURE:
-        # key binding
-        if public_key.key_id not in signature.issuer_key_ids:
-            raise InvalidSubkeyBindingSignature()
-        result = check_signature(public_key, signature, hash_,
-                                 strict, current_time)
-    elif sig_type == constants.SIGNATURE_DIRECTLY_ON_A_KEY:
-        # direct key signature
-        result = check_signature(public_key, signature, hash_,
-                                 strict, current_time)
-    elif sig_type in (constants.GENERIC_CERTIFICATION,
-                      constants.CASUAL_CERTIFICATION,
-                      constants.POSITIVE_CERTIFICATION,
-                      constants.PERSONA_CERTIFICATION):
-        result = check_signature(signing_key, signature, hash_,
-                                 strict, current_time)
-    elif sig_type == constants.PRIMARY_KEY_BINDING_SIGNATURE:
-        # Backsignature, we shouldn't have this here
-        raise UnexpectedSignatureType(constants.PRIMARY_KEY_BINDING_SIGNATURE)
+    is_subkey = _is_key(target) and target is not public_key
+    if sig_type in CERTIFICATIONS:
+        expected = not _is_key(target)
+    elif sig_type in (constants.SUBKEY_REVOCATION_SIGNATURE,
+                      constants.SUBKEY_BINDING_SIGNATURE):
+        expected = is_subkey
+    elif sig_type in (constants.KEY_REVOCATION_SIGNATURE,
+                      constants.SIGNATURE_DIRECTLY_ON_A_KEY):
+        expected = target is public_key
     elif sig_type == constants.CERTIFICATION_REVOCATION_SIGNATURE:
-        revocation_keys = [
-            rev_key.fingerprint[-16:]
-            for rev_key
-            in signature.parent.revocation_keys
-            ]
-        if not signature.target:
-            pass
-        elif (
-                signing_key.key_id not in signature.target.issuer_key_ids
-                and signing_key.key_id not in revocation_keys
-                ):
-            raise SignatureVerificationFailed(
-                'Signature cannot be revoked by this key')
-        elif signature.target.revocable is False:
-            raise SignatureVerificationFailed('Signature cannot be revoked')
-        elif signature.target.creation_time > signature.creation_time:
-            raise SignatureCreatedBeforeContent()
-        # TODO: FIX THIS
-        # result = check_signature(signing_key, signature, hash_,
-        #                          strict)
+        expected = not is_subkey
     else:
-        # 0x00, 0x01, 0x02, 0x30, 0x40 & 0x50 do not apply to public keys
+        # Backsignatures are only found embedded in others.
+        # 0x00, 0x01, 0x02, 0x40 & 0x50 do not apply to public keys
+        expected = False
+    if not expected:
         raise UnexpectedSignatureType(sig_type)
 
+    is_own = signing_key.fingerprint == public_key.fingerprint
+    if sig_type == constants.SUBKEY_BINDING_SIGNATURE and not is_own:
+        raise InvalidSubkeyBindingSignature()
+    if sig_type in (constants.KEY_REVOCATION_SIGNATURE,
+                    constants.SUBKEY_REVOCATION_SIGNATURE):
+        if (
+                not is_own
+                and signing_key.fingerprint not in
+                get_revocation_keys(public_key)
+                ):
+            raise SignatureVerificationFailed(
+                'Key cannot be revoked by this key')
+
+    result = check_signature(signing_key, signature, target, strict,
+                             current_time, db)
+    if sig_type == constants.SUBKEY_BINDING_SIGNATURE:
+        check_back_signatures(public_key, target, signature, current_time)
+    elif sig_type == constants.CERTIFICATION_REVOCATION_SIGNATURE:
+        check_revoked_signature(target, signature, signing_key, public_key)
+
     return result
 
 
-def get_target_type(item):
-    return item.to_packet().type
+def _get_signing_keys(key_id, public_key, db):
+    result = []
+    for key in [public_key] + list(db.search(key_id=key_id)):
+        for k in [key] + list(key.subkeys):
+            if k.key_id == key_id:
+                result.append(k)
+    return result
 
 
 def validate_signatures(target, db, strict=False):
-    pk = getattr(target, 'primary_public_key', None)
-    if pk is None:
-        pk = target
+    """Note for all signatures of a key, and of its subkeys, user IDs and
+    user attributes, whether they are valid, and whether the keys which
+    made them have expired or been revoked. Nothing is noted if the key
+    which made a signature is unknown.
+    """
+
+    pk = _primary_key_of(target)
 
     for sig in target.signatures:
         if sig.validated is not None:
             continue
         for signing_key_id in sig.issuer_key_ids:
-            if pk.key_id == signing_key_id:
-                # Shortcut for selfsig
-                signing_keys = [pk]
-            else:
-                signing_keys = list(db.search(key_id=signing_key_id))
-            if signing_keys:
-                signing_key = signing_keys[0]
+            for signing_key in _get_signing_keys(signing_key_id, pk, db):
                 try:
                     key_expired, key_revoked = \
                         validate_signature(target, sig, signing_key, pk,
-                                           strict)
-                except InvalidSignature:
+                                           strict, db=db)
+                except (InvalidSignature, SignatureWarning):
                     sig.validated = False
-                    break
                 except CannotValidateSignature:
-                    sig.validated = None
+                    pass
                 else:
                     sig.validated = True
+                    sig.issuer_key_expired = key_expired
+                    sig.issuer_key_revoked = key_revoked
                     break
-                sig.issuer_key_expired = key_expired
-                sig.issuer_key_revoked = key_revoked
+            if sig.validated:
+                break
 
-    if isinstance(target, (TransferablePublicKey, TransferableSecretKey)):
+    if _is_key(target) and target is pk:
         for uid in target.user_ids:
             validate_signatures(uid, db, strict=strict)
 
-- 
2.43.0


From 992ff8798aa668d3122f9b536a538a7c6461fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 086/109] fix: Ignore revocations and self-signatures found to
 be invalid

---
 pgp/signature.py          | 6 +++++-
 pgp/transferrable_keys.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 717dbc0..03f48ac 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -917,7 +917,11 @@ class BaseSignature(object):
             if not self.parent:
                 return None
             for s in self.parent.signatures:
-                if not s.revocation or not s._may_revoke(self):
+                if (
+                        not s.revocation
+                        or s.validated is False
+                        or not s._may_revoke(self)
+                        ):
                     continue
                 if (s._get_subpackets(C.TARGET_SUBPACKET_TYPE)
                         and s.target is not self):
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 424a257..8fd57c0 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -65,6 +65,7 @@ class SignedMixin(object):
         for s in self.self_signatures:
             if (
                     s.signature_type in self._self_sig_types
+                    and s.validated is not False
                     and not s.revoked
                     and not s.expired
                     and not s.issuer_key_expired
@@ -79,6 +80,7 @@ class SignedMixin(object):
         for s in self.self_signatures:
             if (
                     s.signature_type in self._revocation_sig_types
+                    and s.validated is not False
                     and not s.revoked
                     and not s.expired
                     and not s.issuer_key_expired
-- 
2.43.0


From 2199a241675ffcc00d488d7b1daae6f7f51da80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 087/109] fix: keep a version 3 key's lifetime exact across
 clock changes and never write a short one as unlimited

---
 pgp/transferrable_keys.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 8fd57c0..1e222f9 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -215,8 +215,8 @@ class BasePublicKey(SignedMixin):
         if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
-            expiration_time = \
-                creation_time + datetime.timedelta(days=expiration_days)
+            expiration_time = datetime.datetime.fromtimestamp(
+                packet.creation_time + expiration_days * 86400)
         modulus_n = packet.modulus
         exponent_e = packet.exponent
         prime_p = packet.prime
@@ -243,7 +243,10 @@ class BasePublicKey(SignedMixin):
             expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - self.creation_time).days
+                # Whole days; zero would mean that it never expires.
+                lifetime = (utils.datetime_to_timestamp(expiration_time) -
+                            creation_time)
+                expiration_days = max(1, int(round(lifetime / 86400.0)))
 
         return (
             header_format, self.version, creation_time,
-- 
2.43.0


From 3dd55b81b1ffb22e7ca5c360031d6deb7c4cf1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 088/109] fix: what a subkey signs is no self-signature of the
 key (an unbound subkey could revoke user IDs and end keys)

---
 pgp/transferrable_keys.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 1e222f9..cc3c6bb 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -48,14 +48,7 @@ class SignedMixin(object):
     def self_signatures(self):
         result = []
         for s in self.signatures:
-            pk = self.primary_public_key or self
-            key_ids = set([pk.key_id])
-            key_ids |= set([
-                subkey.key_id for subkey in
-                pk.subkeys
-                ])
-            if key_ids & set(s.issuer_key_ids):
-                # is selfsig
+            if s.is_self_signature():
                 result.append(s)
         return result
 
@@ -184,17 +177,13 @@ class KeySignature(BaseSignature):
 
     def is_self_signature(self):
         parent = self.parent
-        own_key_ids = []
         if isinstance(parent, (TransferablePublicKey, TransferableSecretKey)):
             primary_public_key = parent
         else:
             primary_public_key = parent.primary_public_key
 
-        own_key_ids.append(primary_public_key.key_id)
-        for subkey in primary_public_key.subkeys:
-            own_key_ids.append(subkey.key_id)
-
-        return bool(set(self.issuer_key_ids) & set(own_key_ids))
+        # What a subkey signs is no statement of the key itself.
+        return primary_public_key.key_id in self.issuer_key_ids
 
 
 @implementer(interfaces.IPublicKey)
-- 
2.43.0


From dbc65c217196921275bf35c1c9ed77074264191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:21 +0000
Subject: [PATCH 089/109] fix: ignore unhashed subpackets, which nobody signed,
 where they would change what a signature says (anybody could add designated
 revokers, key flags or expirations)

---
 pgp/signature.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 03f48ac..4d0f387 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -48,6 +48,16 @@ _shared_subpacket_values = {
     }
 
 
+# "The second set of subpackets is not cryptographically protected by the
+#  signature and should include only advisory information."
+# These prove themselves: the issuer's key verifies the signature or does not,
+# and an embedded signature is verified like any other.
+_unprotected_subpacket_types = (
+    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
+    C.EMBEDDED_SIGNATURE_SUBPACKET_TYPE,
+    )
+
+
 @implementer(interfaces.INotation)
 class Notation(object):
 
@@ -291,7 +301,10 @@ class BaseSignature(object):
 
     def _get_subpackets(self, type_):
         result = []
-        for s in self.hashed_subpackets + self.unhashed_subpackets:
+        subpackets = self.hashed_subpackets
+        if type_ in _unprotected_subpacket_types:
+            subpackets = subpackets + self.unhashed_subpackets
+        for s in subpackets:
             if s.type == type_:
                 result.append(s)
         return result
-- 
2.43.0


From e3dcb008a6d850c58d701cc9af8b93479cbe737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 090/109] fix: remember which key a signature was found to be
 made by (a claimed key ID let others' signatures pass as the key's own)

---
 pgp/signature.py              | 9 ++++++++-
 pgp/signature_verification.py | 4 ++++
 pgp/transferrable_keys.py     | 2 ++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 4d0f387..c382612 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -163,6 +163,9 @@ class BaseSignature(object):
     hash2 = None
     signature_values = None
     validated = None
+    # The fingerprint of the key that was found to have made this signature,
+    # an empty string if none was, None if that was not looked into.
+    issuer = None
     issuer_key_expired = None
     issuer_key_revoked = None
 
@@ -885,7 +888,11 @@ class BaseSignature(object):
         one?
         """
 
-        if not set(self.issuer_key_ids) & set(signature.issuer_key_ids):
+        if self.issuer is not None and signature.issuer is not None:
+            # Anybody may claim a key ID.
+            if not self.issuer or self.issuer != signature.issuer:
+                return False
+        elif not set(self.issuer_key_ids) & set(signature.issuer_key_ids):
             return False
         if self.signature_type == C.SUBKEY_REVOCATION_SIGNATURE:
             return signature.signature_type == C.SUBKEY_BINDING_SIGNATURE
diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index efbcecf..7b325d5 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -414,6 +414,7 @@ def validate_signatures(target, db, strict=False):
     for sig in target.signatures:
         if sig.validated is not None:
             continue
+        sig.issuer = None
         for signing_key_id in sig.issuer_key_ids:
             for signing_key in _get_signing_keys(signing_key_id, pk, db):
                 try:
@@ -426,11 +427,14 @@ def validate_signatures(target, db, strict=False):
                     pass
                 else:
                     sig.validated = True
+                    sig.issuer = signing_key.fingerprint
                     sig.issuer_key_expired = key_expired
                     sig.issuer_key_revoked = key_revoked
                     break
             if sig.validated:
                 break
+        else:
+            sig.issuer = ''
 
     if _is_key(target) and target is pk:
         for uid in target.user_ids:
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index cc3c6bb..744060b 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -182,6 +182,8 @@ class KeySignature(BaseSignature):
         else:
             primary_public_key = parent.primary_public_key
 
+        if self.issuer is not None:
+            return self.issuer == primary_public_key.fingerprint
         # What a subkey signs is no statement of the key itself.
         return primary_public_key.key_id in self.issuer_key_ids
 
-- 
2.43.0


From 718f67cfb58d023ae555ca4050096a69141f88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:18 +0000
Subject: [PATCH 091/109] fix: merging keys dropped a signature when the other
 copy of it had been altered in its digest check or issuer

---
 pgp/merge.py     | 11 ++++++++++-
 pgp/signature.py |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pgp/merge.py b/pgp/merge.py
index 2e90a0c..377fc7e 100644
--- a/pgp/merge.py
+++ b/pgp/merge.py
@@ -21,6 +21,7 @@
 
 from pgp import utils
 from pgp.packets import constants
+from pgp.signature import UNPROTECTED_SUBPACKET_TYPES
 from pgp.transferrable_keys import BaseSecretKey
 
 
@@ -43,17 +44,25 @@ def part_key(part):
 
 
 def signature_key(sig):
-    # The unhashed subpackets are not a part of what was signed.
+    # The unhashed subpackets are not a part of what was signed, but somebody
+    # may have changed those that count all the same.
     hashed_subpackets = ()
+    unhashed_subpackets = ()
     if sig.version >= 4:
         hashed_subpackets = tuple(map(bytes, sig.hashed_subpackets))
+        unhashed_subpackets = tuple(sorted(
+            bytes(sp) for sp in sig.unhashed_subpackets
+            if sp.type in UNPROTECTED_SUBPACKET_TYPES))
     return (
         sig.version,
         sig.signature_type,
         sig.public_key_algorithm,
         sig.hash_algorithm,
         sig.creation_time,
+        tuple(sorted(sig.issuer_key_ids)),
         hashed_subpackets,
+        unhashed_subpackets,
+        bytes(sig.hash2),
         tuple(sig.signature_values),
         )
 
diff --git a/pgp/signature.py b/pgp/signature.py
index c382612..3e33967 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -52,7 +52,7 @@ _shared_subpacket_values = {
 #  signature and should include only advisory information."
 # These prove themselves: the issuer's key verifies the signature or does not,
 # and an embedded signature is verified like any other.
-_unprotected_subpacket_types = (
+UNPROTECTED_SUBPACKET_TYPES = (
     C.ISSUER_KEY_ID_SUBPACKET_TYPE,
     C.EMBEDDED_SIGNATURE_SUBPACKET_TYPE,
     )
@@ -305,7 +305,7 @@ class BaseSignature(object):
     def _get_subpackets(self, type_):
         result = []
         subpackets = self.hashed_subpackets
-        if type_ in _unprotected_subpacket_types:
+        if type_ in UNPROTECTED_SUBPACKET_TYPES:
             subpackets = subpackets + self.unhashed_subpackets
         for s in subpackets:
             if s.type == type_:
-- 
2.43.0


From 103537e7a7d04d63680c053376b3b7a886c8afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 092/109] fix: a revoked subkey keeps its expiration

---
 pgp/signature_verification.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 7b325d5..ae737c4 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -126,7 +126,8 @@ def _is_revoked(signature):
     primary = _primary_key_of(parent)
     for s in parent.signatures:
         if (
-                s.revocation
+                s.signature_type ==
+                constants.CERTIFICATION_REVOCATION_SIGNATURE
                 and s._may_revoke(signature)
                 and _verifies(primary, s, parent)
                 ):
-- 
2.43.0


From a14846231b649ebb5134679ea7c7c0b21bd3d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 093/109] fix: keys that made signatures are kept while
 validating with their subkeys

---
 pgp/signature_verification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index ae737c4..ed7853d 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -395,11 +395,12 @@ def validate_signature(target, signature, signing_key, public_key=None,
 
 
 def _get_signing_keys(key_id, public_key, db):
+    # Subkeys do not keep the key they belong to alive; so both.
     result = []
     for key in [public_key] + list(db.search(key_id=key_id)):
         for k in [key] + list(key.subkeys):
             if k.key_id == key_id:
-                result.append(k)
+                result.append((key, k))
     return result
 
 
@@ -417,7 +418,7 @@ def validate_signatures(target, db, strict=False):
             continue
         sig.issuer = None
         for signing_key_id in sig.issuer_key_ids:
-            for signing_key in _get_signing_keys(signing_key_id, pk, db):
+            for _, signing_key in _get_signing_keys(signing_key_id, pk, db):
                 try:
                     key_expired, key_revoked = \
                         validate_signature(target, sig, signing_key, pk,
-- 
2.43.0


From cddccc9cda349a4d423000c6cf369e61578624ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 094/109] fix: the keygrip of a key is the one that agents use

---
 pgp/transferrable_keys.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 744060b..f73a424 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -354,22 +354,33 @@ class BasePublicKey(SignedMixin):
 
     @property
     def keygrip(self):
-        sexp = ''
+        # The numbers are hashed as libgcrypt writes them in the canonical
+        # S-expression: big-endian and with a clear sign bit.
+        def number(value):
+            data = bytes(utils.int_to_bytes(int(value)))
+            return b'\x00' + data if data[:1] >= b'\x80' else data
+
         if self.public_key_algorithm in (1, 2, 3):
-            sexp = '(public-key(rsa(n{n})(e{e})))'.format(
-                    n=self.modulus_n, e=self.exponent_e)
+            # Only the modulus counts and it is hashed as it is.
+            return SHA.new(number(self.modulus_n)).hexdigest().upper()
         elif self.public_key_algorithm == 17:
-            sexp = '(public-key(dsa(p{p})(q{q})(g{g})(y{y})))'.format(
-                    p=self.prime_p, q=self.group_order_q,
-                    g=self.group_generator_g, y=self.key_value_y)
+            parameters = ((b'p', self.prime_p), (b'q', self.group_order_q),
+                          (b'g', self.group_generator_g),
+                          (b'y', self.key_value_y))
         elif self.public_key_algorithm in (16, 20):
-            sexp = '(public-key(elg(p{p})(g{g})(y{y})))'.format(
-                    p=self.prime_p, g=self.group_generator_g,
-                    y=self.key_value_y)
+            parameters = ((b'p', self.prime_p),
+                          (b'g', self.group_generator_g),
+                          (b'y', self.key_value_y))
         else:
             raise ValueError
 
-        return SHA.new(sexp.encode('us-ascii')).hexdigest().upper()
+        result = SHA.new()
+        for name, value in parameters:
+            data = number(value)
+            result.update(b'(1:' + name)
+            result.update(str(len(data)).encode('us-ascii') + b':')
+            result.update(data + b')')
+        return result.hexdigest().upper()
 
     def _get_key_obj(self):
         key_constructor = utils.get_public_key_constructor(
-- 
2.43.0


From c08bd1571620fa2b3a0215f1f40a6ca99cbab921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:25 +0000
Subject: [PATCH 095/109] fix: searching for a part of a user ID missed it
 where lower case depends on the letters around (sigma)

---
 pgp/db/gpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index eb55c0a..38a465b 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -693,7 +693,7 @@ class GPGDatabase(object):
     def _matches_user_id(self, key, user_id):
         match = False
         for uid in key.user_ids:
-            if user_id.lower() in uid.user_id.lower():
+            if user_id.casefold() in uid.user_id.casefold():
                 match = True
                 break
         return match
-- 
2.43.0


From a5a55b515e3e9ee971e156dd27fa31f943c0e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:20 +0000
Subject: [PATCH 096/109] fix: one-pass signature packets of different versions
 compared equal

---
 pgp/packets/packets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 5c751c5..bf0d96a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -662,6 +662,7 @@ class OnePassSignaturePacket(Packet):
     def __eq__(self, other):
         return (
             super(OnePassSignaturePacket, self).__eq__(other)
+            and self.version == other.version
             and self.signature_type == other.signature_type
             and self.hash_algorithm == other.hash_algorithm
             and self.public_key_algorithm == other.public_key_algorithm
-- 
2.43.0


From 3eed70aa0cd5cd2d5ff9b8fa6274aea3e38bf988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:20 +0000
Subject: [PATCH 097/109] fix: packets of unknown types compared equal whatever
 they contained

---
 pgp/packets/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index bf0d96a..85a4a0a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -106,6 +106,10 @@ class Packet(object):
             self.__class__ == other.__class__
             and self.header_format == other.header_format
             and self.type == other.type
+            # Every kind of packet compares its own fields, except those
+            # that are not known by their fields.
+            and (self.__class__ is not Packet
+                 or self._content == other._content)
             )
 
     def __repr__(self):
-- 
2.43.0


From 6e740db457034617d02b59e6cfde1a8652370ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:20 +0000
Subject: [PATCH 098/109] fix: comparing a signature, notation or designated
 revoker with anything else raised AttributeError

---
 pgp/signature.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/signature.py b/pgp/signature.py
index 3e33967..a0ce94d 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -89,6 +89,8 @@ class Notation(object):
         self.human_readable = human_readable
 
     def __eq__(self, other):
+        if not isinstance(other, Notation):
+            return NotImplemented
         return bytes(self.to_subpacket()) == bytes(other.to_subpacket())
 
     def __hash__(self):
@@ -125,6 +127,8 @@ class RevocationKeyInfo(object):
         self.sensitive = sensitive
 
     def __eq__(self, other):
+        if not isinstance(other, RevocationKeyInfo):
+            return NotImplemented
         return bytes(self.to_subpacket()) == bytes(other.to_subpacket())
 
     def __hash__(self):
@@ -297,6 +301,8 @@ class BaseSignature(object):
         return result
 
     def __eq__(self, other):
+        if not isinstance(other, BaseSignature):
+            return NotImplemented
         return bytes(self.to_packet()) == bytes(other.to_packet())
 
     def __hash__(self):
-- 
2.43.0


From c48a9bbf3b3c11da70bfb86955d278982ad58626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:04 +0000
Subject: [PATCH 099/109] fix: show signatures that name no issuer

---
 pgp/signature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index a0ce94d..25932ec 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -257,10 +257,12 @@ class BaseSignature(object):
             validation = 'validated '
         elif self.validated is False:
             validation = 'invalid '
+        # No subpacket has to name the issuer.
+        issuer_key_ids = self.issuer_key_ids or ['unknown key']
         return '<{0} {1} by {2} {3}at 0x{4:x}>'.format(
             self.__class__.__name__,
             C.human_signature_types.get(self.signature_type, 'Unknown'),
-            self.issuer_key_ids[0],
+            issuer_key_ids[0],
             validation,
             id(self))
 
-- 
2.43.0


From da18574288463ebbe21f08bab76b82900f7404e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:16 +0000
Subject: [PATCH 100/109] fix: armor headers with line breaks were written as
 they are and read as something else

---
 pgp/armor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/armor.py b/pgp/armor.py
index 2a01253..1a6cba5 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -247,8 +247,14 @@ class ASCIIArmor(object):
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
             for k, v in self.extra_headers.items():
+                if ': ' in k:
+                    raise ValueError('Invalid armor header key.')
                 result_lines.append('{0}: {1}'.format(k, v))
 
+        # A header with a line break would be read as something else.
+        if any('\n' in line or '\r' in line for line in result_lines):
+            raise ValueError('Armor headers must not contain line breaks.')
+
         result_lines.append('')
 
         encoded_data = b64encode(self.data).decode('us-ascii')
-- 
2.43.0


From ce83057557471b73a5b93f1564d8a5c52658d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:07 +0000
Subject: [PATCH 101/109] fix: numbers and hexadecimal texts wider than their
 field were cut off

---
 pgp/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index 8566c28..cffe1fc 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -628,6 +628,8 @@ def int_to_2byte(i):
     representation, big-endian.
     """
 
+    if i < 0 or i >> 16:
+        raise ValueError(i)
     return bytearray([
             (i >> 8) & 0xff,
             i & 0xff
@@ -639,6 +641,8 @@ def int_to_4byte(i):
     representation, big-endian.
     """
 
+    if i < 0 or i >> 32:
+        raise ValueError(i)
     return bytearray([
             (i >> 24) & 0xff,
             (i >> 16) & 0xff,
@@ -652,6 +656,8 @@ def int_to_8byte(i):
     representation, big-endian.
     """
 
+    if i < 0 or i >> 64:
+        raise ValueError(i)
     return bytearray([
             (i >> 56) & 0xff,
             (i >> 48) & 0xff,
@@ -853,6 +859,11 @@ def old_packet_length_to_bytes(data_length):
 
 
 def hex_to_bytes(hex_val, expected_length=None):
+    if len(hex_val) % 2 or (
+            expected_length is not None
+            and len(hex_val) > 2 * expected_length):
+        raise ValueError(hex_val)
+
     result = bytearray()
     if expected_length is not None:
         result.extend([0] * expected_length)
-- 
2.43.0


From 4f2700b153fd8d4dc859ad674d4bbc2173fd3861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:33 +0000
Subject: [PATCH 102/109] fix: image attributes with a header cut short were
 read and written with another

---
 pgp/packets/user_attribute_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 594c54d..bd9e0bd 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -65,7 +65,7 @@ class ImageAttributeSubpacket(UserAttributeSubpacket):
         header_version = sub_data[2]
         image_format = None
         if header_version == 1:
-            if not header_length == 16:
+            if not header_length == 16 or len(sub_data) < 16:
                 raise ValueError
             image_format = sub_data[3]
             if any(sub_data[4:16]):
-- 
2.43.0


From 59170692d80e54d67c47c76bc65ce1183ae57f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:33 +0000
Subject: [PATCH 103/109] fix: salts of a length other than eight octets were
 written and read as something else

---
 pgp/s2k.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 4b933fa..a2cce71 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -98,6 +98,11 @@ class SaltedS2K(SimpleS2K):
         SimpleS2K.__init__(self, hash_algorithm, symmetric_algorithm)
         self.salt = salt
 
+    def __bytes__(self):
+        if len(self.salt) != 8:
+            raise ValueError('The salt is not of eight octets.')
+        return SimpleS2K.__bytes__(self)
+
 
 class IteratedAndSaltedS2K(SaltedS2K):
 
-- 
2.43.0


From 5cf31329104dbe70580d3bd69bcb4c9cc334794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:33 +0000
Subject: [PATCH 104/109] fix: the left sixteen bits of a digest were written
 with any number of octets

---
 pgp/packets/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 85a4a0a..60ce8c3 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -485,6 +485,8 @@ class SignaturePacket(Packet):
             # TODO: message
             raise ValueError
 
+        if len(self.hash2) != 2:
+            raise ValueError('Not two octets of the digest.')
         data.extend(self.hash2)
         for value in self.signature_values:
             if value is None:
-- 
2.43.0


From 552caaf1c2bd468e7dd180189b31ab2fb8454565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:33 +0000
Subject: [PATCH 105/109] fix: characters of a text that its format cannot hold
 were written as question marks

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 60ce8c3..a5a72e3 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1305,7 +1305,7 @@ class LiteralDataPacket(Packet):
     @staticmethod
     def encode_text(data_format, text):
         if data_format == b't':
-            return text.encode('latin-1', 'replace')
+            return text.encode('latin-1')
         elif data_format == b'u':
             return text.encode('utf8', 'surrogateescape')
         return text
-- 
2.43.0


From 9e8a92875f8a4df0d037cbd73aecd85d7d435715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:48 +0000
Subject: [PATCH 106/109] fix: expirations of version 3 keys before their
 creation were written as one day after it

---
 pgp/transferrable_keys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index f73a424..d694183 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -237,6 +237,9 @@ class BasePublicKey(SignedMixin):
                 # Whole days; zero would mean that it never expires.
                 lifetime = (utils.datetime_to_timestamp(expiration_time) -
                             creation_time)
+                if lifetime <= 0:
+                    raise ValueError(
+                        'Expiration time is not after the creation time.')
                 expiration_days = max(1, int(round(lifetime / 86400.0)))
 
         return (
-- 
2.43.0


From aa13c527c323268d3fab7db7ddc75f912e298523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:12 +0000
Subject: [PATCH 107/109] fix: close a database file that cannot be read when
 its type is determined

---
 pgp/db/gpg.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 38a465b..7f90c67 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -602,18 +602,17 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     if type_ == ResourceTypes.NONE:
         magic = None
         try:
-            fh = open(filename, 'rb')
-            magic = fh.read(4)
+            with open(filename, 'rb') as fh:
+                magic = fh.read(12)
         except OSError:
             type_ = ResourceTypes.KEYRING
         else:
-            if magic in GDBM_MAGIC:
+            if magic[:4] in GDBM_MAGIC:
                 type_ = ResourceTypes.GDBM
-            elif fh.read(4)[:1] == b'\x01' and fh.read(4) == b'KBXf':
+            elif magic[4:5] == b'\x01' and magic[8:] == b'KBXf':
                 type_ = ResourceTypes.KEYBOX
             else:
                 type_ = ResourceTypes.KEYRING
-            fh.close()
 
     if type_ == ResourceTypes.KEYBOX:
         raise ValueError('Unsupported resource type, Keybox')
-- 
2.43.0


From a93cac416936d62457ffd17ac9262b0b664e0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:00 +0000
Subject: [PATCH 108/109] fix: do not hand out the default lists of
 preferences, which all keys share

---
 pgp/transferrable_keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index d694183..f67e7cb 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -124,10 +124,11 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
-            result = default
+            # A list is the caller's to change.
+            result = copy.copy(default)
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
-                result = getattr(most_recent_selfsig, name, default)
+                result = getattr(most_recent_selfsig, name, result)
 
             return result
 
-- 
2.43.0


From 2b5109f2455f21d01133eae738792954301f2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:02 +0000
Subject: [PATCH 109/109] fix: read packets with the reserved tag in partial
 lengths from octets as from streams

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a5a72e3..253e3fd 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1689,7 +1689,7 @@ def packet_from_packet_data(data, offset=0):
     incomplete = True
     tag = None
     while incomplete:
-        if not tag:
+        if tag is None:
             if not data[offset] & 0x80:
                 raise ValueError('Not a packet.')
             tag = data[offset] & 0x3f
-- 
2.43.0

