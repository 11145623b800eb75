From 14a7ad72cec3213dfda1769b3394225705810fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 01/44] fix: negative UTC offsets are parsed and encoded with
 their true magnitude

---
 messaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index 1456d79..5d9e03c 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -30,7 +30,7 @@ class FixedOffset(tzinfo):
         if sign == 1:
             td = timedelta(minutes=minutes)
         elif sign == -1:
-            td = timedelta(days=-1, minutes=minutes)
+            td = timedelta(minutes=-minutes)
 
         return cls(td, name)
 
@@ -256,7 +256,7 @@ def datetime_to_absolute_validity(d, tzname='Unknown'):
     # compute offset
     offset = FixedOffset.from_timezone(n[-1], tzname).offset
     # one unit is 15 minutes
-    s = "%02d" % int(floor(offset.seconds / (60 * 15)))
+    s = "%02d" % int(floor(abs(offset).seconds / (60 * 15)))
 
     if offset.days < 0:
         # set MSB to 1
-- 
2.43.0


From 966d0039fd90b59041cf0b483debce5af74bc076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 02/44] fix: 8-bit user data carries its header and accepts
 unicode text of any length

---
 messaging/sms/submit.py | 4 ++++
 messaging/utils.py      | 9 ++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e426f13..beebe75 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -313,6 +313,10 @@ class SmsSubmit(SmsBase):
                 udh = (chr(udh_len) + chr(mid) + chr(data_len) +
                        chr(sms_ref) + chr(total_parts) + chr(i))
                 padding = " "
+            elif limit == consts.EIGHTBIT_SIZE:
+                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
+                       chr(sms_ref) + chr(total_parts) + chr(i))
+                padding = ""
             else:
                 udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
                        unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
diff --git a/messaging/utils.py b/messaging/utils.py
index 5d9e03c..e505c67 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -145,13 +145,12 @@ def pack_8bits_to_7bits(message, udh=None):
 
 
 def pack_8bits_to_8bit(message, udh=None):
-    text = message
+    data = encode_str(message)
     if udh is not None:
-        text = udh + text
+        data = encode_str(udh) + data
 
-    mlen = len(text)
-    message = chr(mlen) + message
-    return encode_str(message)
+    mlen = len(data) / 2
+    return encode_str(chr(mlen)) + data
 
 
 def pack_8bits_to_ucs2(message, udh=None):
-- 
2.43.0


From 951c1f18d39833288148489f00e6aa66bae89fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 03/44] fix: a number followed by a newline is not a valid
 number

---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index beebe75..a1004a3 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -14,7 +14,7 @@ from messaging.sms.base import SmsBase
 from messaging.sms.gsm0338 import is_gsm_text
 from messaging.sms.pdu import Pdu
 
-VALID_NUMBER = re.compile("^\+?\d{3,20}$")
+VALID_NUMBER = re.compile("^\+?\d{3,20}\Z")
 
 
 class SmsSubmit(SmsBase):
-- 
2.43.0


From ef58725f26e9e4567093ee19a4436bbb4347bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 04/44] fix: an automatically chosen alphabet does not stick to
 the message

---
 messaging/sms/submit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index a1004a3..67f37cd 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -80,7 +80,12 @@ class SmsSubmit(SmsBase):
         tpmessref_pdu = self._get_tpmessref_pdu()
         sms_phone_pdu = self._get_phone_pdu()
         tppid_pdu = self._get_tppid_pdu()
-        sms_msg_pdu = self._get_msg_pdu()
+        fmt = self.fmt
+        try:
+            sms_msg_pdu = self._get_msg_pdu()
+        finally:
+            # an alphabet chosen for this text must not apply to the next one
+            self.fmt = fmt
 
         if len(sms_msg_pdu) == 1:
             pdu = smsc_pdu
-- 
2.43.0


From 23ee381fb48b877c6e45699066bdc33f028e6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:57 +0000
Subject: [PATCH 05/44] fix: an alphanumeric sender does not gain a trailing @
 from its fill bits

---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a9ba6b..ef85f3b 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -99,6 +99,8 @@ class SmsDeliver(SmsBase):
             raise ValueError("Cannot decode a SmsSubmitReport message yet")
 
         sndlen = data.pop(0)
+        # complete septets in that many semi-octets
+        septets = sndlen * 4 // 7
         if sndlen % 2:
             sndlen += 1
         sndlen = int(sndlen / 2.0)
@@ -106,7 +108,7 @@ class SmsDeliver(SmsBase):
         sndtype = (data.pop(0) >> 4) & 0x07
         if sndtype == consts.ALPHANUMERIC:
             # coded according to 3GPP TS 23.038 [9] GSM 7-bit default alphabet
-            sender = unpack_msg2(data[:sndlen]).decode("gsm0338")
+            sender = unpack_msg2(data[:sndlen])[:septets].decode("gsm0338")
         else:
             # Extract phone number of sender
             sender = swap_number(encode_bytes(data[:sndlen]))
-- 
2.43.0


From ca08d31776fb003b0439206e904ca72bcea2d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 06/44] fix: assigning another PDU to a SmsDeliver leaves
 nothing of the previous one

---
 messaging/sms/deliver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index ef85f3b..09d6acf 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -67,6 +67,10 @@ class SmsDeliver(SmsBase):
 
         data = to_array(self._pdu)
 
+        # forget whatever a previous PDU left behind
+        super(SmsDeliver, self).__init__()
+        self.date = self.mtype = self.sr = None
+
         # Service centre address
         smscl = data.pop(0)
         if smscl > 0:
-- 
2.43.0


From a90480226a45fc401960b8d4174ac88b2a786236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 07/44] fix: 8-bit application ports are flagged as such

---
 messaging/sms/udh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index eecfa23..fb9f71a 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -68,7 +68,7 @@ class UserDataHeader(object):
             elif iei == 0x04:
                 # process App port addressing 8bit
                 dest_port, orig_port = ie_data
-                udh.ports = PortAddress(dest_port, orig_port, False)
+                udh.ports = PortAddress(dest_port, orig_port, True)
 
             elif iei == 0x05:
                 # process App port addressing 16bit
-- 
2.43.0


From fed3c80fa520aaed971891a5f7317baa94eda772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 08/44] fix: UserDataHeader.from_bytes leaves the caller's
 array alone

---
 messaging/sms/udh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index fb9f71a..fd3df38 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -46,6 +46,7 @@ class UserDataHeader(object):
     @classmethod
     def from_bytes(cls, data):
         udh = cls()
+        data = data[:]
         while len(data):
             iei = data.pop(0)
             ie_len = data.pop(0)
-- 
2.43.0


From c42ad51b5a375e73ec32c50bdeeb18dd876b4d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 09/44] fix: unpacking stops at 160 septets, not 161

---
 messaging/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index e505c67..e1d4538 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -176,15 +176,15 @@ def unpack_msg(pdu):
     result = []
 
     for i in range(0, len(pdu), 2):
+        if len(result) >= 0xa0:
+            break
+
         byte = int(pdu[i:i + 2], 16)
         mask = 0x7F >> count
         out = ((byte & mask) << count) + last
         last = byte >> (7 - count)
         result.append(out)
 
-        if len(result) >= 0xa0:
-            break
-
         if count == 6:
             result.append(last)
             last = 0
@@ -201,14 +201,14 @@ def unpack_msg2(pdu):
     result = []
 
     for byte in pdu:
+        if len(result) >= 0xa0:
+            break
+
         mask = 0x7F >> count
         out = ((byte & mask) << count) + last
         last = byte >> (7 - count)
         result.append(out)
 
-        if len(result) >= 0xa0:
-            break
-
         if count == 6:
             result.append(last)
             last = 0
-- 
2.43.0


From 6114f8e5cc8b6466071e2ca026be6c297b60639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 10/44] fix: uint8 decodes all eight bits

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7aa1eae..a4b1576 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -331,7 +331,7 @@ class Decoder:
         :rtype: int
         """
         # Make the byte unsigned
-        return byte_iter.next() & 0xf
+        return byte_iter.next() & 0xff
 
     @staticmethod
     def decode_uint_var(byte_iter):
-- 
2.43.0


From f387d8e2d337ba1bdec2abf8213afc03677bdb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 11/44] fix: long integers are encoded most significant octet
 first

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index a4b1576..52ee20f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1528,7 +1528,7 @@ class Encoder:
         # Encode the Multi-octect-integer
         while longInt > 0:
             byte = 0xff & longInt
-            encoded_long_int.append(byte)
+            encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
         # Now add the SHort-length value, and make sure it's ok
-- 
2.43.0


From 2008a34c7ddf9333dd55550181c336282e4b2151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 12/44] fix: a negative number is not a long integer

---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 52ee20f..5fdb703 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1523,6 +1523,10 @@ class Encoder:
         if not isinstance(integer, int):
             raise EncodeError('<integer> must be of type "int"')
 
+        if integer < 0:
+            raise EncodeError('Long-integer value may not be negative: %d' %
+                              integer)
+
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
-- 
2.43.0


From 73b71b4fbde59d5725e93110e852bf19a914cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 13/44] fix: version strings that the packed form cannot hold
 are encoded as text

---
 messaging/mms/wsp_pdu.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 5fdb703..aed2d3e 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1582,8 +1582,14 @@ class Encoder:
                 else:
                     minor_version = 15
 
+                if version not in ('%d' % major_version,
+                                   '%d.%d' % (major_version, minor_version)):
+                    raise ValueError('Version has other characters')
+
                 minor = minor_version
                 encoded_version_val = Encoder.encode_short_integer(major | minor)
+            else:
+                raise ValueError('Version must be "major" or "major.minor"')
         except:
             # The value couldn't be encoded as a short-integer; use
             # a text-string instead
-- 
2.43.0


From 5d11a390acd0c1c610c3436ff0a3f63f19b020df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 14/44] fix: a packed version without minor number decodes to
 its major number

---
 messaging/mms/wsp_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index aed2d3e..5810b1b 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1138,6 +1138,9 @@ class Decoder:
             byteValue = Decoder.decode_short_integer(byte_iter)
             major = (byteValue & 0x70) >> 4
             minor = byteValue & 0x0f
+            if minor == 0x0f:  # There is no minor version
+                return '%d' % major
+
             return '%d.%d' % (major, minor)
         except DecodeError:
             return Decoder.decode_text_string(byte_iter)
-- 
2.43.0


From 7895dbc0fa4fdfc1a7d21b49cbcf4b14d5efbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 15/44] fix: spelling of the multipart/byteranges content type

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 5810b1b..49b3313 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -103,7 +103,7 @@ well_known_content_types = [
     'text/x-vCard', 'text/vnd.wap.wml',
     'text/vnd.wap.wmlscript', 'text/vnd.wap.wta-event',
     'multipart/*', 'multipart/mixed', 'multipart/form-data',
-    'multipart/byterantes', 'multipart/alternative',
+    'multipart/byteranges', 'multipart/alternative',
     'application/*', 'application/java-vm',
     'application/x-www-form-urlencoded',
     'application/x-hdmlc', 'application/vnd.wap.wmlc',
-- 
2.43.0


From cfb7dd41d99f4f89ecb2f39b54587d284188b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 16/44] fix: the any-charset octet is 128

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 49b3313..6f524f0 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1288,7 +1288,7 @@ class Decoder:
         # Look for the Any-charset value
         byte = byte_iter.preview()
         byte_iter.reset_preview()
-        if byte == 127:
+        if byte == 128:
             byte_iter.next()
             decoded_charset = '*'
         else:
-- 
2.43.0


From 6acc25c6bf63aabaea54991155b0c94a9ea46572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 17/44] fix: the quote mark and the tab are token separators,
 so quoted text values are recognised

---
 messaging/mms/wsp_pdu.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 6f524f0..66c2d30 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -520,8 +520,8 @@ class Decoder:
         :return: The token string if successful, otherwise the read byte
         :rtype: str or int
         """
-        separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91,
-                      92, 93, 123, 125)
+        separators = (9, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
+                      91, 92, 93, 123, 125)
         token = ''
         byte = byte_iter.preview()
         if byte <= 31 or byte in separators:
@@ -1712,8 +1712,8 @@ class Encoder:
         :return: The encoded token string, as a list of byte values
         :rtype: list
         """
-        separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
-                      91, 92, 93, 123, 125)
+        separators = (9, 11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63,
+                      64, 91, 92, 93, 123, 125)
         # Sanity check
         for char in separators:
             if chr(char) in text:
-- 
2.43.0


From 9e06359d0a8e63d24c8d3f4edcc6b0075a4e9c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 18/44] fix: decoding a text value consumes the octet of a
 No-value

---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 66c2d30..2fe794d 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1174,6 +1174,10 @@ class Decoder:
                 return Decoder.decode_quoted_string(byte_iter)
             except DecodeError:
                 # Ok, so it's a "No-value"
+                if byte_iter.preview() == 0x00:
+                    byte_iter.next()
+
+                byte_iter.reset_preview()
                 return ''
 
     @staticmethod
-- 
2.43.0


From ec2b0cc82e40b56119a2c5b5ec5ae50fce9621d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 19/44] fix: a No-value decodes

---
 messaging/mms/wsp_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 2fe794d..475a3da 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1193,8 +1193,8 @@ class Decoder:
         :return: No-value, which is 0x00
         :rtype: int
         """
-        byte_iter, local_iter = byte_iter.next()
-        if local_iter.next() != 0x00:
+        if byte_iter.preview() != 0x00:
+            byte_iter.reset_preview()
             raise DecodeError('Expected No-value')
 
         byte_iter.next()
-- 
2.43.0


From 0eab43c35ec3d09f9dae70dc21d3d6e0281f4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 20/44] fix: content types with parameters are encoded flat,
 with their true length

---
 messaging/mms/wsp_pdu.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 475a3da..1be41ff 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1630,7 +1630,7 @@ class Encoder:
         else:
             val = Encoder.encode_text_string(content_type)
 
-        return [val]
+        return val
 
     @staticmethod
     def encode_parameter(parameter_name, parameter_value, version='1.2'):
@@ -1969,8 +1969,10 @@ class Encoder:
         # Encode the actual content type
         encoded_media_type = Encoder.encode_media_type(media_type)
         # Encode all parameters
-        encoded_parameters = [Encoder.encode_parameter(name, parameters[name])
-                                    for name in parameters]
+        encoded_parameters = []
+        for name in parameters:
+            encoded_parameters.extend(
+                    Encoder.encode_parameter(name, parameters[name]))
 
         value_length = len(encoded_media_type) + len(encoded_parameters)
         encoded_value_length = Encoder.encode_value_length(value_length)
-- 
2.43.0


From 32d56be10b4d049394f9afffb8188611bcba41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 21/44] fix: text values that are no token are encoded as
 quoted strings

---
 messaging/mms/wsp_pdu.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 1be41ff..e42b581 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1698,7 +1698,7 @@ class Encoder:
             try:
                 value = Encoder.encode_integer_value(parameter_value)
             except EncodeError:
-                value = Encoder.encode_text_string(parameter_value)
+                value = Encoder.encode_text_value(parameter_value)
 
             encoded_parameter.extend(value)
 
@@ -1756,8 +1756,20 @@ class Encoder:
 
     @staticmethod
     def encode_text_value(text):
-        """Stub for encoding Text-values; see :func:`encode_text_string`"""
-        return Encoder.encode_text_string(text)
+        """
+        Encodes a Text-value
+
+        From [5], section 8.4.2.3::
+
+            Text-value = No-value | Token-text | Quoted-string
+
+        :return: The encoded text value, as a list of byte values
+        :rtype: list
+        """
+        try:
+            return Encoder.encode_token_text(text)
+        except EncodeError:
+            return [34] + Encoder.encode_text_string(text)
 
     @staticmethod
     def encode_no_value(value=None):
-- 
2.43.0


From 2ca91c97b37ea04e136b843599a1b69a7c97c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 22/44] fix: a rejected MMS header name leaves the preview
 position where it was

---
 messaging/mms/mms_pdu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ed44c46..f12443b 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -266,6 +266,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         # Get the MMS-field-name
         mms_field_name = ''
         preview = byte_iter.preview()
+        byte_iter.reset_preview()
         byte = wsp_pdu.Decoder.decode_short_integer_from_byte(preview)
 
         if byte in mms_field_names:
-- 
2.43.0


From d3a99cc0954c225ec78dc41baee27c1e21b2ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 23/44] fix: an Accept value is decoded within its stated
 length

---
 messaging/mms/wsp_pdu.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index e42b581..90212f4 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1226,22 +1226,17 @@ class Decoder:
         except DecodeError:
             # ...now try Accept-general-form
             value_length = Decoder.decode_value_length(byte_iter)
+            value_bytes = []
+            for i in xrange(value_length):
+                value_bytes.append(byte_iter.next())
+
+            value_iter = PreviewIterator(value_bytes)
             try:
-                media = Decoder.decode_well_known_media(byte_iter)
+                media = Decoder.decode_well_known_media(value_iter)
             except DecodeError:
-                media = Decoder.decode_extension_media(byte_iter)
-
-            # Check for the Q-Token (to see if there are Accept-parameters)
-            if byte_iter.preview() == 128:
-                byte_iter.next()
-                q_value = Decoder.decode_q_value(byte_iter)
-                try:
-                    accept_extension = Decoder.decode_parameter(byte_iter)
-                except DecodeError:
-                    # Just set an empty iterable
-                    accept_extension = []
+                media = Decoder.decode_extension_media(value_iter)
 
-            byte_iter.reset_preview()
+            # The parameters, if any, are discarded
             accept_value = media
 
         return accept_value
-- 
2.43.0


From 434452c034f54614552115f52b0eca0721de36ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 24/44] fix: the Differences parameter, a header field name,
 has a codec

---
 messaging/mms/wsp_pdu.py | 41 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 90212f4..e8140a4 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -70,7 +70,7 @@ well_known_parameters = {
     0x03: ('Type', 'integer_value'),
     0x05: ('Name', 'text_string'),
     0x06: ('Filename', 'text_string'),
-    0x07: ('Differences', 'Field-name'),
+    0x07: ('Differences', 'field_name'),
     0x08: ('Padding', 'short_integer'),
     0x09: ('Type', 'constrained_encoding'),  # encoding version 1.2
     0x0a: ('Start', 'text_string'),
@@ -1063,6 +1063,29 @@ class Decoder:
 
         return compact_value
 
+    @staticmethod
+    def decode_field_name(byte_iter):
+        """
+        Decodes a header field name (see [5], section 8.4.2.6)::
+
+            Field-name = Token-text | Well-known-field-name
+            Well-known-field-name = Short-integer
+
+        :raise DecodeError: This is not the name of a header field
+        :return: The name of the header field
+        :rtype: str
+        """
+        try:
+            field_value = Decoder.decode_short_integer(byte_iter)
+        except DecodeError:
+            return Decoder.decode_token_text(byte_iter)
+
+        hdr_fields = get_header_field_names()
+        if field_value >= len(hdr_fields):
+            raise DecodeError('Invalid Header Field value: %d' % field_value)
+
+        return hdr_fields[field_value]
+
     @staticmethod
     def decode_date_value(byte_iter):
         """
@@ -1721,6 +1744,22 @@ class Encoder:
 
         return Encoder.encode_text_string(text)
 
+    @staticmethod
+    def encode_field_name(field_name):
+        """
+        Encodes a header field name; see :func:`Decoder.decode_field_name`
+
+        :raise EncodeError: <field_name> cannot be the name of a header field
+
+        :return: The encoded name, as a list of byte values
+        :rtype: list
+        """
+        hdr_fields = get_header_field_names()
+        if field_name in hdr_fields:
+            return Encoder.encode_short_integer(hdr_fields.index(field_name))
+
+        return Encoder.encode_token_text(field_name)
+
     @staticmethod
     def encode_integer_value(integer):
         """Encodes an integer value
-- 
2.43.0


From 286b32ad6aeddabf67903a1a64035282cd394468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 25/44] fix: q, charset, seconds, date, URI and pragma values
 can be encoded

---
 messaging/mms/wsp_pdu.py | 77 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index e8140a4..ff6ccb9 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -43,6 +43,7 @@ References used in the code and this document:
 """
 
 import array
+import calendar
 from datetime import datetime
 
 from messaging.utils import debug
@@ -1788,6 +1789,82 @@ class Encoder:
         except EncodeError:
             return Encoder.encode_long_integer(integer)
 
+    @staticmethod
+    def encode_date_value(date):
+        """Encodes a Date-value, the inverse of :func:`decode_date_value`"""
+        return Encoder.encode_long_integer(
+                    int(calendar.timegm(date.utctimetuple())))
+
+    @staticmethod
+    def encode_delta_seconds_value(seconds):
+        """Encodes a Delta-seconds-value; see :func:`encode_integer_value`"""
+        return Encoder.encode_integer_value(seconds)
+
+    @staticmethod
+    def encode_q_value(q_value):
+        """
+        Encodes a Q-value, the inverse of :func:`decode_q_value`
+
+        :raise EncodeError: The value is not in the range 0 to 0.999
+
+        :return: The encoded Q-value, as a list of byte values
+        :rtype: list
+        """
+        thousandths = int(round(q_value * 1000))
+        if thousandths < 0 or thousandths > 999:
+            raise EncodeError('Q-value must be in the range 0 to 0.999')
+
+        if thousandths % 10 == 0:
+            return Encoder.encode_uint_var(thousandths // 10 + 1)
+
+        return Encoder.encode_uint_var(thousandths + 100)
+
+    @staticmethod
+    def encode_well_known_charset(charset):
+        """
+        Encodes a character set, the inverse of
+        :func:`decode_well_known_charset`
+
+        :raise EncodeError: No number is known for this character set
+
+        :return: The encoded character set, as a list of byte values
+        :rtype: list
+        """
+        if charset == '*':
+            return [0x80]
+
+        for assigned_number in well_known_charsets:
+            if well_known_charsets[assigned_number] == charset:
+                return Encoder.encode_integer_value(assigned_number)
+
+        try:
+            return Encoder.encode_integer_value(int(charset))
+        except ValueError:
+            raise EncodeError('Unknown character set: %s' % charset)
+
+    @staticmethod
+    def encode_uri_value(uri):
+        """Encodes a Uri-value; see :func:`encode_text_string`"""
+        return Encoder.encode_text_string(uri)
+
+    @staticmethod
+    def encode_pragma_value(pragma):
+        """
+        Encodes a Pragma-value, the inverse of :func:`decode_pragma_value`
+
+        :param pragma: The name and the value of the parameter
+        :type pragma: tuple
+
+        :return: The encoded Pragma-value, as a list of byte values
+        :rtype: list
+        """
+        name, value = pragma
+        if (name, value) == ('Cache-control', 'No-cache'):
+            return [0x80]
+
+        parameter = Encoder.encode_parameter(name, value)
+        return Encoder.encode_value_length(len(parameter)) + parameter
+
     @staticmethod
     def encode_text_value(text):
         """
-- 
2.43.0


From 567eef81d5fe3090dbce36b606f0c6a65608da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 26/44] fix: every MMS header that can be decoded can be
 encoded

---
 messaging/mms/mms_pdu.py | 99 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 99 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index f12443b..24a183b 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -983,6 +983,105 @@ class MMSEncoder(wsp_pdu.Encoder):
 
         return [message_types.get(message_type, 0x80)]
 
+    @staticmethod
+    def encode_boolean_value(value):
+        """Encodes a boolean; see :func:`MMSDecoder.decode_boolean_value`"""
+        return [128 if value else 129]
+
+    @staticmethod
+    def encode_delivery_time_value(delivery_time):
+        """
+        Encodes the Delivery-Time value, in the format that is returned by
+        :func:`MMSDecoder.decode_delivery_time_value`
+
+        :raise EncodeError: The type is neither "absolute" nor "relative"
+        """
+        token_type, value = delivery_time
+        tokens = {'absolute': 128, 'relative': 129}
+        if token_type not in tokens:
+            raise wsp_pdu.EncodeError('Unknown Delivery-Time type: %s' %
+                                      token_type)
+
+        encoded_value = wsp_pdu.Encoder.encode_long_integer(value)
+        value_length = wsp_pdu.Encoder.encode_value_length(
+                                                len(encoded_value) + 1)
+        return value_length + [tokens[token_type]] + encoded_value
+
+    @staticmethod
+    def encode_expiry_value(expiry):
+        """
+        Encodes the Expiry value, a datetime (absolute) or a number of
+        seconds (relative)
+        """
+        if hasattr(expiry, 'utctimetuple'):
+            encoded_value = [0x80] + MMSEncoder.encode_date_value(expiry)
+        else:
+            encoded_value = [0x81] + \
+                            MMSEncoder.encode_delta_seconds_value(expiry)
+
+        return wsp_pdu.Encoder.encode_value_length(
+                                    len(encoded_value)) + encoded_value
+
+    @staticmethod
+    def encode_message_class_value(message_class):
+        """Encodes the class; see :func:`MMSDecoder.decode_message_class_value`
+
+        """
+        class_identifiers = {
+            'Personal': 128,
+            'Advertisement': 129,
+            'Informational': 130,
+            'Auto': 131,
+        }
+        if message_class in class_identifiers:
+            return [class_identifiers[message_class]]
+
+        return wsp_pdu.Encoder.encode_token_text(message_class)
+
+    @staticmethod
+    def encode_priority_value(priority):
+        """
+        Encodes the priority; see :func:`MMSDecoder.decode_priority_value`
+
+        :raise EncodeError: This is not the name of a priority
+        """
+        priorities = {'Low': 128, 'Normal': 129, 'High': 130}
+        if priority not in priorities:
+            raise wsp_pdu.EncodeError('Unknown priority: %s' % priority)
+
+        return [priorities[priority]]
+
+    @staticmethod
+    def encode_sender_visibility_value(visibility):
+        """
+        Encodes the visibility; see
+        :func:`MMSDecoder.decode_sender_visibility_value`
+
+        :raise EncodeError: This is neither "Hide" nor "Show"
+        """
+        visibilities = {'Hide': 128, 'Show': 129}
+        if visibility not in visibilities:
+            raise wsp_pdu.EncodeError('Unknown sender visibility: %s' %
+                                      visibility)
+
+        return [visibilities[visibility]]
+
+    @staticmethod
+    def encode_response_status_value(response_status):
+        response_status_values = {
+            'Ok': 0x80,
+            'Error-unspecified': 0x81,
+            'Error-service-denied': 0x82,
+            'Error-message-format-corrupt': 0x83,
+            'Error-sending-address-unresolved': 0x84,
+            'Error-message-not-found': 0x85,
+            'Error-network-problem': 0x86,
+            'Error-content-not-accepted': 0x87,
+            'Error-unsupported-message': 0x88,
+        }
+        # Return error unspecified if it is unknown
+        return [response_status_values.get(response_status, 0x81)]
+
     @staticmethod
     def encode_status_value(status_value):
         status_values = {
-- 
2.43.0


From 7fab65ea4e165a3b54f413470dae523b3b79ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 27/44] fix: unknown status codes decode and encode to the
 default of their own type

---
 messaging/mms/mms_pdu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 24a183b..70b9363 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -532,7 +532,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         byte = byte_iter.preview()
         byte_iter.next()
         # Return error unspecified if it couldn't be decoded
-        return response_status_values.get(byte, 0x81)
+        return response_status_values.get(byte, 'Error-unspecified')
 
     @staticmethod
     def decode_status_value(byte_iter):
@@ -558,7 +558,7 @@ class MMSDecoder(wsp_pdu.Decoder):
 
         byte = byte_iter.next()
         # Return an unrecognised state if it couldn't be decoded
-        return status_values.get(byte, 0x84)
+        return status_values.get(byte, 'Unrecognised')
 
     @staticmethod
     def decode_expiry_value(byte_iter):
@@ -1093,4 +1093,4 @@ class MMSEncoder(wsp_pdu.Encoder):
         }
 
         # Return an unrecognised state if it couldn't be decoded
-        return [status_values.get(status_value, 'Unrecognised')]
+        return [status_values.get(status_value, 0x84)]
-- 
2.43.0


From 9195d03ce0980b538dc1d2145f36744a7516c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 28/44] fix: a relative delivery time below 128 seconds is
 decoded

---
 messaging/mms/mms_pdu.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 70b9363..c8139bf 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -358,11 +358,12 @@ class MMSDecoder(wsp_pdu.Decoder):
     def decode_delivery_time_value(byte_iter):
         value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
         token = byte_iter.next()
-        value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         if token == 128:
             token_type = 'absolute'
+            value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         elif token == 129:
             token_type = 'relative'
+            value = wsp_pdu.Decoder.decode_integer_value(byte_iter)
         else:
             raise wsp_pdu.DecodeError('Delivery-Time type token value is undefined'
                 ' (%s), should be either 128 or 129' % token)
@@ -1002,7 +1003,11 @@ class MMSEncoder(wsp_pdu.Encoder):
             raise wsp_pdu.EncodeError('Unknown Delivery-Time type: %s' %
                                       token_type)
 
-        encoded_value = wsp_pdu.Encoder.encode_long_integer(value)
+        if token_type == 'absolute':
+            encoded_value = wsp_pdu.Encoder.encode_long_integer(value)
+        else:
+            encoded_value = wsp_pdu.Encoder.encode_integer_value(value)
+
         value_length = wsp_pdu.Encoder.encode_value_length(
                                                 len(encoded_value) + 1)
         return value_length + [tokens[token_type]] + encoded_value
-- 
2.43.0


From d24a3c611d77a9f98989d1986b4c160c4c3a18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 29/44] fix: an unknown message type is read over

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index c8139bf..15c8ecc 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -449,7 +449,7 @@ class MMSDecoder(wsp_pdu.Decoder):
             byte_iter.next()
             return message_types[byte]
 
-        byte_iter.reset_preview()
+        byte_iter.next()
         return '<unknown>'
 
     @staticmethod
-- 
2.43.0


From 8efb3b645b557705e5433ef0a738c95189790cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 30/44] fix: an empty string value is decoded as such

---
 messaging/mms/mms_pdu.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 15c8ecc..2ba97f0 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -311,6 +311,12 @@ class MMSDecoder(wsp_pdu.Decoder):
         :return: The decoded text string
         :rtype: str
         """
+        empty = byte_iter.preview() == 0x00
+        byte_iter.reset_preview()
+        if empty:
+            # An empty Text-string, not a Value-length
+            return wsp_pdu.Decoder.decode_text_string(byte_iter)
+
         try:
             # First try "Value-length Char-set Text-string"
             value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
-- 
2.43.0


From f4ce320a46a5495120a33d2887c8d9007281c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 31/44] fix: a blind copy address is a destination

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 2ba97f0..c2581ab 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -670,7 +670,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # what she is doing
         if headers_to_encode['Message-Type'] == 'm-send-req':
             found_dest_address = False
-            for address_type in ('To', 'Cc', 'Bc'):
+            for address_type in ('To', 'Cc', 'Bcc'):
                 if address_type in headers_to_encode:
                     found_dest_address = True
                     break
-- 
2.43.0


From bcd07b8d7a0b9bdf9ad573fb7ac2f1e40d7eb537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 32/44] fix: encoding a message leaves its headers alone

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index c2581ab..65365f1 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -635,7 +635,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # Create an array of 8-bit values
         message_header = array.array('B')
 
-        headers_to_encode = self._mms_message.headers
+        headers_to_encode = self._mms_message.headers.copy()
 
         # If the user added any of these to the message manually
         # (X- prefix) use those instead
-- 
2.43.0


From b120385f6d873a833c1d61564926267ea8936008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 33/44] fix: attached data parts are part of the encoded
 message

---
 messaging/mms/mms_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 65365f1..442a930 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -785,6 +785,8 @@ class MMSEncoder(wsp_pdu.Encoder):
                 if part_tuple is not None:
                     parts.append(part_tuple[0])
 
+        parts.extend(self._mms_message._data_parts)
+
         for part in parts:
             name, val_type = part.headers['Content-Type']
             part_content_type = self.encode_content_type_value(name, val_type)
-- 
2.43.0


From 7ea4b88ab29a2f5a57ee47f8c1ae21db4954299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 34/44] fix: the audio element of a page stands on its own in
 the SMIL text

---
 messaging/mms/message.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6cff8a0..f5a91aa 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -201,7 +201,6 @@ class MMSMessage:
                     audio_node.setAttribute('begin', str(begin))
                     audio_node.setAttribute('end', str(end))
 
-                par_node.appendChild(text_node)
                 par_node.appendChild(audio_node)
 
             body_node.appendChild(par_node)
-- 
2.43.0


From e1252b2d0b9122c3c62bba0086bbfeda225401fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 35/44] fix: a file is opened for writing only after the
 message was encoded

---
 messaging/mms/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index f5a91aa..ea7e59c 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -233,8 +233,9 @@ class MMSMessage:
         :rtype array.array('B')
         :return: The binary-encode MMS data, as an array of bytes
         """
+        data = self.encode()
         with open(filename, 'wb') as f:
-            self.encode().tofile(f)
+            data.tofile(f)
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From 1d695a0551fbfcce392a1239c7e59a3779a68fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 36/44] fix: data parts are read from their file in binary mode

---
 messaging/mms/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index ea7e59c..593d5d5 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -548,7 +548,7 @@ class DataPart(object):
             return self._data
 
         elif self._filename is not None:
-            with open(self._filename, 'r') as f:
+            with open(self._filename, 'rb') as f:
                 self._data = f.read()
             return self._data
 
-- 
2.43.0


From 5f087d84f5ffd4c5f849802622fc65b5f5eebea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 37/44] fix: the length of a data part is that of its data

---
 messaging/mms/message.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 593d5d5..480fd99 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -534,10 +534,7 @@ class DataPart(object):
 
     def __len__(self):
         """Provides the length of the data encapsulated by this object"""
-        if self._filename is not None:
-            return int(os.stat(self._filename)[6])
-        else:
-            return len(self.data)
+        return len(self.data)
 
     @property
     def data(self):
-- 
2.43.0


From c361c48a3e07e2560c6143bb1e237f3753e887c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:55 +0000
Subject: [PATCH 38/44] fix: messages and pages list their data parts

---
 messaging/mms/message.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 480fd99..c326068 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -97,9 +97,11 @@ class MMSMessage:
         including data parts that were added to slides in this message"""
         parts = []
         if len(self._pages):
-            parts.append(self.smil())
-            for slide in self._mms_message._pages:
-                parts.extend(slide.data_parts())
+            smil_part = DataPart()
+            smil_part.set_data(self.smil(), 'application/smil')
+            parts.append(smil_part)
+            for slide in self._pages:
+                parts.extend(slide.data_parts)
 
         parts.extend(self._data_parts)
         return parts
@@ -286,7 +288,7 @@ class MMSMessagePage:
     @property
     def data_parts(self):
         """Returns a list of the data parst in this slide"""
-        return [part for part in (self.image, self.audio, self.text)
+        return [part[0] for part in (self.image, self.audio, self.text)
                     if part is not None]
 
     def number_of_parts(self):
-- 
2.43.0


From daea7346c43b529c569cb06728b317a47cb42e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:55 +0000
Subject: [PATCH 39/44] fix: the header length of a WAP push is a variable
 length integer

---
 messaging/sms/wap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/messaging/sms/wap.py b/messaging/sms/wap.py
index 46611ab..cbd4f1d 100644
--- a/messaging/sms/wap.py
+++ b/messaging/sms/wap.py
@@ -2,6 +2,7 @@
 
 from array import array
 
+from messaging.mms.iterator import PreviewIterator
 from messaging.mms.mms_pdu import MMSDecoder
 
 
@@ -20,11 +21,13 @@ def is_a_wap_push_notification(s):
 def extract_push_notification(s):
     data = array("B", s)
 
-    wap_push, offset = data[1:3]
+    wap_push = data[1]
     assert wap_push == 0x06
 
-    offset += 3
-    data = data[offset:]
+    # the header length is an uintvar, usually of a single octet
+    data = PreviewIterator(data[2:])
+    headers_len = MMSDecoder.decode_uint_var(data)
+    data = array("B", data)[headers_len:]
 
     # XXX: Not all WAP pushes are MMS
     return MMSDecoder().decode_data(data)
-- 
2.43.0


From 0ea6f253b18d985463d0451c9dd86d1c90505b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:19 +0000
Subject: [PATCH 40/44] fix: the headers of a message part are WSP headers, not
 MMS headers

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 442a930..1033a6e 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -194,7 +194,7 @@ class MMSDecoder(wsp_pdu.Decoder):
             # have been read
             while True:
                 try:
-                    hdr, value = self.decode_header(ct_iter)
+                    hdr, value = wsp_pdu.Decoder.decode_header(ct_iter)
                     headers[hdr] = value
                 except StopIteration:
                     break
-- 
2.43.0


From 64556ceccde8e7c4c75696f49d17caca002d7067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 41/44] fix: decode the Content-ID header that captured
 messages give their parts

---
 messaging/mms/wsp_pdu.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index ff6ccb9..8fc0280 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1342,7 +1342,8 @@ class Decoder:
         :rtype: tuple
         """
         field_value = Decoder.decode_short_integer(byte_iter)
-        hdr_fields = get_header_field_names()
+        # the numbers of each version include those of the earlier ones
+        hdr_fields = get_header_field_names('1.4')
         # TODO: *technically* this can fail, but then we have already
         # read a byte... should fix?
         if field_value not in xrange(len(hdr_fields)):
@@ -1367,6 +1368,13 @@ class Decoder:
                       'decode header: %s' % field_name)
                 raise
 
+        elif field_name == 'Content-ID':
+            # Quoted-string, see table 39 in [5]; also seen as Text-string
+            try:
+                decoded_value = Decoder.decode_quoted_string(byte_iter)
+            except DecodeError:
+                decoded_value = Decoder.decode_text_string(byte_iter)
+
         else:
             decoded_value = Decoder.decode_text_string(byte_iter)
 
-- 
2.43.0


From 55291c92ff62be16b0010b1fc48cba266699f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:58 +0000
Subject: [PATCH 42/44] fix: encode_header encodes a Content-Type value

The value of a Content-Type header is a (media type, parameters) tuple,
as decode_header returns it; encode_content_type_value raised TypeError
when called with that single argument.
---
 messaging/mms/wsp_pdu.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 8fc0280..990cfca 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1959,7 +1959,7 @@ class Encoder:
         return encoded_header
 
     @staticmethod
-    def encode_content_type_value(media_type, parameters):
+    def encode_content_type_value(media_type, parameters=None):
         """
         Encodes a content type, and its parameters
 
@@ -1971,10 +1971,16 @@ class Encoder:
 
             Content-type-value = Constrained-media | Content-general-form
 
+        ``media_type`` may also be the value of a Content-Type header, that
+        is a tuple of the media type and its parameters.
+
         :return: The encoded Content-type-value (including parameters, if
                  any), as a sequence of bytes
         :rtype: list
         """
+        if parameters is None:
+            media_type, parameters = media_type
+
         # First try do encode it using Constrained-media encoding
         try:
             if len(parameters):
-- 
2.43.0


From 5909234ff0ee42bb3b6930e807a053cab7f5a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 43/44] fix: only GSM 7-bit parts are shortened at an escape
 character

8-bit and UCS-2 text with octet 0x1b at the end of a part was split one
octet short, which is not the escape of an extension character there.
---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 67f37cd..eccb5b4 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -295,7 +295,7 @@ class SmsSubmit(SmsBase):
         pi, pe = 0, len_without_udh
 
         while pi < total_len:
-            if text[pi:pe][-1] == '\x1b':
+            if self.fmt == 0x00 and text[pi:pe][-1] == '\x1b':
                 pe -= 1
 
             msgs.append(text[pi:pe])
-- 
2.43.0


From f94231c58e787593031df4f773d549f4c468eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 44/44] fix: integers of type long, dates after 2038 among
 them, can be encoded

---
 messaging/mms/wsp_pdu.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 990cfca..be7990f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1546,7 +1546,7 @@ class Encoder:
             Long-integer = Short-length Multi-octet-integer
             Short-length = <Any octet 0-30>
 
-        :raise EncodeError: <integer> is not of type "int"
+        :raise EncodeError: <integer> is not of type "int" or "long"
 
         :param integer: The integer value to encode
         :type integer: int
@@ -1554,7 +1554,7 @@ class Encoder:
         :return: The encoded Long-integer, as a sequence of byte values
         :rtype: list
         """
-        if not isinstance(integer, int):
+        if not isinstance(integer, (int, long)):
             raise EncodeError('<integer> must be of type "int"')
 
         if integer < 0:
@@ -1784,11 +1784,12 @@ class Encoder:
         :type integer: int
 
         :raise EncodeError: The <integer> parameter is not of type `int`
+                            or `long`
 
         :return: The encoded integer value, as a list of byte values
         :rtype: list
         """
-        if not isinstance(integer, int):
+        if not isinstance(integer, (int, long)):
             raise EncodeError('<integer> must be of type "int"')
 
         # First try and see if it's a short-integer
-- 
2.43.0

