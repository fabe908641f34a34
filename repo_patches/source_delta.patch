From dd8f5782d6c4db20a065b3fdd47aaabbfa94b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 01/67] fix: reason code 0x99 (Payload format invalid) is
 defined for CONNACK

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6bc45aa..f42a0bf 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -202,7 +202,7 @@ class ReasonCodes:
           PacketTypes.PUBREC, PacketTypes.SUBACK, PacketTypes.DISCONNECT], },
     152 : { "Administrative action" : [PacketTypes.DISCONNECT] },
     153 : { "Payload format invalid" :
-            [PacketTypes.PUBACK, PacketTypes.PUBREC, PacketTypes.DISCONNECT]},
+            [PacketTypes.CONNACK, PacketTypes.PUBACK, PacketTypes.PUBREC, PacketTypes.DISCONNECT]},
     154 : { "Retain not supported" :
             [PacketTypes.CONNACK, PacketTypes.DISCONNECT] },
     155 : { "QoS not supported" :
-- 
2.43.0


From 0ea50d04eb9901cb791a15be9dacdab20b3b3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 02/67] fix: MQTT 5 string length prefix counts bytes, not
 characters

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index f42a0bf..d401b6c 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -382,7 +382,9 @@ def readInt32(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  if type(data) != type(b""):
+    data = bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
-- 
2.43.0


From d0b119c7015e74041706694493c432df05151112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 03/67] fix: MQTT 5 strings and binary data running past the
 end of the packet are malformed

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index d401b6c..363d964 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -394,6 +394,8 @@ def readUTF(buffer, maxlen):
   maxlen -= 2
   if length > maxlen:
     raise MalformedPacket("Length delimited string too long")
+  if length > len(buffer) - 2:
+    raise MalformedPacket("Not enough data for length delimited string")
   buf = buffer[2:2+length].decode("utf-8")
   logger.info("[MQTT5-4.7.3-2] topic names and filters must not include null")
   zz = buf.find("\x00") # look for null in the UTF string
@@ -412,6 +414,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MalformedPacket("Not enough data for binary data")
   return buffer[2:2+length], length+2
 
 
-- 
2.43.0


From 8536f0b498a44b7d3f47d2f55f7108f1ee47eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 04/67] fix: MQTT 5 property unpacking reports the bytes the
 set occupied

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 363d964..a10ae59 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -651,9 +651,9 @@ class Properties(object):
     buffer = buffer[VBIlen:] # strip the bytes used by the VBI
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
-      identifier, VBIlen = VBIs.decode(buffer) # property identifier
-      buffer = buffer[VBIlen:] # strip the bytes used by the VBI
-      propslenleft -= VBIlen
+      identifier, identlen = VBIs.decode(buffer) # property identifier
+      buffer = buffer[identlen:] # strip the bytes used by the VBI
+      propslenleft -= identlen
       attr_type = self.properties[identifier][0]
       value, valuelen = self.readProperty(buffer, attr_type, propslenleft)
       buffer = buffer[valuelen:] # strip the bytes used by the value
-- 
2.43.0


From e7c202a9624a5142f7c99eb6b3b57e3594fe08f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 05/67] fix: an MQTT 5 property must lie within the property
 length

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index a10ae59..491dc31 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -658,6 +658,8 @@ class Properties(object):
       value, valuelen = self.readProperty(buffer, attr_type, propslenleft)
       buffer = buffer[valuelen:] # strip the bytes used by the value
       propslenleft -= valuelen
+      if propslenleft < 0:
+        raise MalformedPacket("Property runs past the property length")
       propname = self.getNameFromIdent(identifier)
       compressedName = propname.replace(' ', '')
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
-- 
2.43.0


From a70bc21aa0cb2814765caf78235736831836a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 06/67] fix: MQTT 5 CONNECT user name flag is bit 7 and
 password flag bit 6

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 491dc31..fabe686 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -706,7 +706,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanStart << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.passwordFlag << 6) | (self.usernameFlag << 7)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += self.properties.pack()
-- 
2.43.0


From c776a7556b511fc4001e5fcd28f3fe6d4bbf8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 07/67] fix: zero length user names and passwords are legal in
 MQTT 5 CONNECT

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index fabe686..074fd7d 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -786,7 +786,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-17] username must be in payload if user name flag is 1")
@@ -796,7 +796,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password, valuelen = readBytes(buffer[curlen:])
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-19] password must be in payload if password flag is 1")
-- 
2.43.0


From 3e6b8ba178744302f43710a9e4d94e3b24fb1433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 08/67] fix: MQTT 5 acknowledgements may carry properties,
 which must fill the packet

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 074fd7d..0958e94 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1113,7 +1113,7 @@ class Acks(Packets):
     assert len(buffer) >= 2
     assert PacketType(buffer) == self.ackType
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
-    assert self.fh.remainingLength in [2, 3, 4], \
+    assert self.fh.remainingLength >= 2, \
         "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     assert len(buffer) >= fhlen + self.fh.remainingLength
     self.packetIdentifier = readInt16(buffer[fhlen:])
@@ -1132,7 +1132,9 @@ class Acks(Packets):
       self.reasonCode.unpack(buffer[curlen:])
       curlen += 1
     if self.fh.remainingLength > 3:
-      self.properties.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == fhlen + self.fh.remainingLength, \
+        "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     return fhlen + self.fh.remainingLength
 
   def __str__(self):
-- 
2.43.0


From d627c3562617c64ceb264521862edc69527f6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 09/67] fix: SUBACK and UNSUBACK accept every reason code MQTT
 5 defines for them

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 0958e94..f83373a 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1345,7 +1345,6 @@ class UnsubSubacks(Packets):
       else:
         reasonCode = ReasonCodes(self.packetType, "Success")
       reasonCode.unpack(buffer[-leftlen:])
-      assert reasonCode.value in [0, 1, 2, 0x80], "[MQTT5-3.9.3-2] return code in QoS must be 0, 1, 2 or 0x80"
       leftlen -= 1
       self.reasonCodes.append(reasonCode)
     assert leftlen == 0
-- 
2.43.0


From cca4a69007516c24aa735e324b50e9e73b097cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 10/67] fix: reserved bits of the MQTT 5 subscription options
 must be 0

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index f83373a..ccf1d34 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1207,6 +1207,7 @@ class SubscribeOptions(object):
 
   def unpack(self, buffer):
     b0 = buffer[0]
+    assert b0 & 0xC0 == 0, "[MQTT5-3.8.3-5] reserved bits must be 0"
     self.retainHandling = ((b0 >> 4) & 0x03)
     self.retainAsPublished = True if ((b0 >> 3) & 0x01) == 1 else False
     self.noLocal = True if ((b0 >> 2) & 0x01) == 1 else False
-- 
2.43.0


From 46a1083fe13050705d66515fb4175e1578840995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 11/67] fix: MQTT 5 UNSUBSCRIBE must contain a topic filter

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index ccf1d34..830ae8a 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1421,6 +1421,7 @@ class Unsubscribes(Packets):
       topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= topiclen
       self.topicFilters.append(topic)
+    assert len(self.topicFilters) > 0, "[MQTT5-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 1, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From 1e89c5e380122b5401a2bc230f71fc54e2b18eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 12/67] fix: MQTT 5 CONNACK length must match its contents

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 830ae8a..de6fbea 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -902,11 +902,14 @@ class Connacks(Packets):
     assert len(buffer) >= 4
     assert PacketType(buffer) == PacketTypes.CONNACK
     curlen = self.fh.unpack(buffer, maximumPacketSize)
+    packlen = curlen + self.fh.remainingLength
+    assert len(buffer) >= packlen
     assert buffer[curlen] in [0, 1], "Connect Acknowledge Flags"
     self.sessionPresent = (buffer[curlen] == 0x01)
     curlen += 1
     curlen += self.reasonCode.unpack(buffer[curlen:])
     curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == packlen, "CONNACK packet is wrong length %d" % self.fh.remainingLength
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1]"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From b227edecc4ad99125adb6cbb3d0ecb2489ab35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 13/67] fix: MQTT 3.1.1 string lengths count bytes, not
 characters

---
 .../mqtt/formats/MQTTV311/MQTTV311.py         | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 57a518d..5cfc61a 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -170,7 +170,9 @@ def readInt16(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  if type(data) != type(b""):
+    data = bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
@@ -191,7 +193,7 @@ def readUTF(buffer, maxlen):
       raise MQTTException("[MQTT-1.5.3-1] D800-DFFF found in UTF data "+buf)
   if buf.find("\uFEFF") != -1:
     logger.info("[MQTT-1.5.3-3] U+FEFF in UTF string")
-  return buf
+  return buf, length+2
 
 def writeBytes(buffer):
   return writeInt16(len(buffer)) + buffer
@@ -270,8 +272,8 @@ class Connects(Packets):
       assert self.fh.QoS == 0, "[MQTT-2.1.2-1] QoS was not 0, was %d" % self.fh.QoS
       assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
 
-      self.ProtocolName = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ProtocolName) + 2
+      self.ProtocolName, valuelen = readUTF(buffer[curlen:], packlen - curlen)
+      curlen += valuelen
       assert self.ProtocolName == "MQTT", "Wrong protocol name %s" % self.ProtocolName
 
       self.ProtocolVersion = buffer[curlen]
@@ -297,12 +299,12 @@ class Connects(Packets):
       curlen += 2
       logger.info("[MQTT-3.1.3-3] Clientid must be present, and first field")
       logger.info("[MQTT-3.1.3-4] Clientid must be Unicode, and between 0 and 65535 bytes long")
-      self.ClientIdentifier = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ClientIdentifier) + 2
+      self.ClientIdentifier, valuelen = readUTF(buffer[curlen:], packlen - curlen)
+      curlen += valuelen
 
       if self.WillFlag:
-        self.WillTopic = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.WillTopic) + 2
+        self.WillTopic, valuelen = readUTF(buffer[curlen:], packlen - curlen)
+        curlen += valuelen
         self.WillMessage = readBytes(buffer[curlen:])
         curlen += len(self.WillMessage) + 2
         logger.info("[MQTT-3.1.2-9] will topic and will message fields must be present")
@@ -311,8 +313,8 @@ class Connects(Packets):
 
       if self.usernameFlag:
         assert len(buffer) > curlen+2, "Buffer too short to read username length"
-        self.username = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.username) + 2
+        self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
+        curlen += valuelen
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
       else:
         logger.info("[MQTT-3.1.2-18] username must not be in payload if user name flag is 0")
@@ -463,11 +465,11 @@ class Publishes(Packets):
     assert len(buffer) >= packlen
     curlen = fhlen
     try:
-      self.topicName = readUTF(buffer[fhlen:], packlen - curlen)
+      self.topicName, valuelen = readUTF(buffer[fhlen:], packlen - curlen)
     except UnicodeDecodeError:
       logger.info("[MQTT-3.3.2-1] topic name in publish must be utf-8")
       raise
-    curlen += len(self.topicName) + 2
+    curlen += valuelen
     if self.fh.QoS != 0:
       self.messageIdentifier = readInt16(buffer[curlen:])
       logger.info("[MQTT-2.3.1-1] packet indentifier must be in publish if QoS is 1 or 2")
@@ -678,8 +680,8 @@ class Subscribes(Packets):
     leftlen = self.fh.remainingLength - 2
     self.data = []
     while leftlen > 0:
-      topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
+      leftlen -= topiclen
       qos = buffer[-leftlen]
       assert qos in [0, 1, 2], "[MQTT-3-8.3-2] reserved bits must be zero"
       leftlen -= 1
@@ -783,8 +785,8 @@ class Unsubscribes(Packets):
     leftlen = self.fh.remainingLength - 2
     self.data = []
     while leftlen > 0:
-      topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
+      leftlen -= topiclen
       self.data.append(topic)
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
-- 
2.43.0


From 1ce64bf17851339d6f870aa5a9c2deb7f604ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 14/67] fix: MQTT 3.1.1 CONNECT user name flag is bit 7 and
 password flag bit 6

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 5cfc61a..90dbc1d 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -245,7 +245,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanSession << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.passwordFlag << 6) | (self.usernameFlag << 7)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += writeUTF(self.ClientIdentifier)
-- 
2.43.0


From ec6195d3bed79549ca36c6e5d37f81c70c235214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 15/67] fix: zero length user names and passwords are legal in
 MQTT 3.1.1 CONNECT

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 90dbc1d..8f136af 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -312,7 +312,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
         curlen += valuelen
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
@@ -321,7 +321,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password = readBytes(buffer[curlen:])
         curlen += len(self.password) + 2
         logger.info("[MQTT-3.1.2-21] password must be in payload if password flag is 0")
-- 
2.43.0


From 0bf4426293ea1dd624e9165eeef650a5b55322ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 16/67] fix: MQTT 3.1.1 packet constructors set the retain bit
 they are asked for

---
 .../mqtt/formats/MQTTV311/MQTTV311.py         | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 8f136af..d4c73df 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -378,7 +378,7 @@ class Connacks(Packets):
     self.fh = FixedHeaders(CONNACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     self.flags = 0
     self.returnCode = ReturnCode
     if buffer != None:
@@ -415,7 +415,7 @@ class Disconnects(Packets):
     self.fh = FixedHeaders(DISCONNECT)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
@@ -439,7 +439,7 @@ class Publishes(Packets):
     self.fh = FixedHeaders(PUBLISH)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.topicName = TopicName
     self.messageIdentifier = MsgId
@@ -505,7 +505,7 @@ class Pubacks(Packets):
     self.fh = FixedHeaders(PUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -542,7 +542,7 @@ class Pubrecs(Packets):
     self.fh = FixedHeaders(PUBREC)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -579,7 +579,7 @@ class Pubrels(Packets):
     self.fh = FixedHeaders(PUBREL)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -617,7 +617,7 @@ class Pubcomps(Packets):
     self.fh = FixedHeaders(PUBCOMP)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -654,7 +654,7 @@ class Subscribes(Packets):
     self.fh = FixedHeaders(SUBSCRIBE)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of topic, qos pairs
@@ -709,7 +709,7 @@ class Subacks(Packets):
     self.fh = FixedHeaders(SUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of qos
@@ -759,7 +759,7 @@ class Unsubscribes(Packets):
     self.fh = FixedHeaders(UNSUBSCRIBE)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of topics
@@ -811,7 +811,7 @@ class Unsubacks(Packets):
     self.fh = FixedHeaders(UNSUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -849,7 +849,7 @@ class Pingreqs(Packets):
     self.fh = FixedHeaders(PINGREQ)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
@@ -873,7 +873,7 @@ class Pingresps(Packets):
     self.fh = FixedHeaders(PINGRESP)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
-- 
2.43.0


From a4ac4464e4342834eb53aa6b2a8b0a2dbf69096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 17/67] fix: MQTT-SN CONNECT length counts the bytes of the
 client identifier

---
 interoperability/mqtt/formats/MQTTSN/MQTTSN.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index 7da783b..b4530d6 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -210,9 +210,10 @@ class Connects(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.ClientId)
+    clientId = writeData(self.ClientId)
+    msglen = 6 + len(clientId)
     buffer = bytes([msglen, MessageTypes.CONNECT]) + self.Flags.pack() +\
-      bytes([self.ProtocolId]) + writeInt16(self.Duration) + writeData(self.ClientId)
+      bytes([self.ProtocolId]) + writeInt16(self.Duration) + clientId
     return buffer
 
   def unpack(self, buffer):
-- 
2.43.0


From ed470c0e3baa5ccdbb8c57f176cc77963728b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 18/67] fix: MQTT-SN PUBLISH length is the length of the
 message

---
 interoperability/mqtt/formats/MQTTSN/MQTTSN.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index b4530d6..e6e7bc9 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -287,9 +287,10 @@ class Publishes(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.Data)
+    data = writeData(self.Data)
+    msglen = 7 + len(data)
     buffer = bytes([msglen, self.messageType]) + self.Flags.pack() +\
-      writeInt16(self.TopicId) + writeInt16(self.MsgId) + writeData(self.Data)
+      writeInt16(self.TopicId) + writeInt16(self.MsgId) + data
     return buffer
 
   def unpack(self, buffer):
-- 
2.43.0


From 1124eb8d93be50e84c7f507706430951cda4d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 19/67] fix: MQTT 3.1.1 binary data running past the end of the
 packet is malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index d4c73df..d88cf13 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -200,6 +200,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MQTTException("Not enough data for binary data")
   return buffer[2:2+length]
 
 
-- 
2.43.0


From c1ef970e7aa3492cd7aed0f7d811d1d839962801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 20/67] fix: MQTT 3.1.1 UNSUBACK has remaining length 2

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index d88cf13..4874c30 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -828,6 +828,7 @@ class Unsubacks(Packets):
     assert len(buffer) >= 2
     assert MessageType(buffer) == UNSUBACK
     fhlen = self.fh.unpack(buffer)
+    assert self.fh.remainingLength == 2, "Unsuback packet is wrong length %d" % self.fh.remainingLength
     assert len(buffer) >= fhlen + self.fh.remainingLength
     self.messageIdentifier = readInt16(buffer[fhlen:])
     assert self.messageIdentifier > 0, "[MQTT-2.3.1-1] packet indentifier must be > 0"
-- 
2.43.0


From 9c17aabb7f8702e61c8817557cec51724ce4b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 21/67] fix: a SUBSCRIBE carries at most one subscription
 identifier

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index de6fbea..ea17803 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -662,7 +662,8 @@ class Properties(object):
         raise MalformedPacket("Property runs past the property length")
       propname = self.getNameFromIdent(identifier)
       compressedName = propname.replace(' ', '')
-      if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
+      if hasattr(self, compressedName) and (not self.allowsMultiple(compressedName) or
+          (compressedName == "SubscriptionIdentifier" and self.packetType == PacketTypes.SUBSCRIBE)):
         raise MQTTException("Property '%s' must not exist more than once" % property)
       setattr(self, propname, value)
     return self, propslen + VBIlen
-- 
2.43.0


From 0f2dd0d116db728affcc69bda181adbaae51e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 22/67] fix: clients resend only the unsent rest of a packet
 after a partial send

---
 interoperability/mqtt/clients/V311/main.py | 2 +-
 interoperability/mqtt/clients/V5/main.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index e691dd5..67a55a6 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -39,7 +39,7 @@ def sendtosocket(mysocket, data):
   sent = 0
   length = len(data)
   while sent < length:
-    sent += mysocket.send(data)
+    sent += mysocket.send(data[sent:])
 
 class Callback:
 
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 36e33aa..e5cb57c 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -40,7 +40,7 @@ def sendtosocket(mysocket, data):
   length = len(data)
   try:
     while sent < length:
-      sent += mysocket.send(data)
+      sent += mysocket.send(data[sent:])
   except:
     pass # could be socket error
   return sent
-- 
2.43.0


From 636d60e02419b6f1cdfac515c409fa8cd213034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 23/67] fix: websocket mask and payload are read completely,
 and an end of stream inside a frame ends the connection

---
 .../mqtt/brokers/listeners/TCPListeners.py       | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 35a9d83..3b48985 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -39,6 +39,16 @@ class BufferedSockets:
   def rebuffer(self, data):
     self.buffer = data + self.buffer
 
+  def readall(self, count):
+    "read exactly count bytes from the socket, which may deliver them in pieces"
+    data = bytearray()
+    while len(data) < count:
+      received = self.socket.recv(count - len(data))
+      if len(received) == 0:
+        raise ConnectionError("connection closed inside a websocket frame")
+      data += received
+    return data
+
   def wsrecv(self):
     header1 = ord(self.socket.recv(1))
     header2 = ord(self.socket.recv(1))
@@ -56,10 +66,8 @@ class BufferedSockets:
         length += ord(self.socket.recv(1)) * 2**((7 - i)*8)
     assert maskbit == True
     if maskbit:
-      mask = self.socket.recv(4)
-    mpayload = bytearray()
-    while len(mpayload) < length:
-      mpayload += self.socket.recv(length - len(mpayload))
+      mask = self.readall(4)
+    mpayload = self.readall(length)
     buffer = bytearray()
     if maskbit:
       mi = 0
-- 
2.43.0


From 193ff49be82724b5405175101f0d936495b74da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 24/67] fix: MQTT packets left over from a websocket frame are
 handled without waiting for more data

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 3b48985..9b79476 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -163,7 +163,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
       try:
         if not keptalive:
           logger.debug("Waiting for request")
-        (i, o, e) = select.select([sock], [], [], 1)
+        if len(sock.buffer) > 0: # already received, select would not report it
+          (i, o, e) = ([sock], [], [])
+        else:
+          (i, o, e) = select.select([sock], [], [], 1)
         if i == [sock]:
           if first:
             char = sock.recv(1)
-- 
2.43.0


From fe9f84d520c9f5b36ba502411639b0558d2ed12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 25/67] fix: an end of stream inside the first bytes of a
 connection ends it

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 9b79476..bae04bd 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -182,7 +182,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
               connbuf = sock.recv(1)
               if connbuf == b'\x10': # connect packet
                 while connbuf[-4:] != b"MQTT" and len(connbuf) < 10:
-                  connbuf += sock.recv(1)
+                  char = sock.recv(1)
+                  if len(char) == 0: # end of stream
+                    break
+                  connbuf += char
                 connbuf += sock.recv(1)
                 version = connbuf[-1]
                 if version == 4:
-- 
2.43.0


From 5e9a3245388ccbbe95039e1893232f0d0349af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:43 +0000
Subject: [PATCH 26/67] fix: MQTT 3.1.1 UNSUBSCRIBE processes every topic
 filter, not only up to the first match

---
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index e6939f8..3829153 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -79,8 +79,8 @@ class SubscriptionEngines:
        if len(aTopic) > 1:
          logger.info("[MQTT-3.10.4-6] each topic must be processed in sequence")
        for t in aTopic:
-         if not matched:
-           matched = self.__unsubscribe(aClientid, t)
+         if self.__unsubscribe(aClientid, t):
+           matched = True
      else:
        matched = self.__unsubscribe(aClientid, aTopic)
      if not matched:
-- 
2.43.0


From 12bacaeef6666e64bcfce872a0dcfa5cc33ab0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:44 +0000
Subject: [PATCH 27/67] fix: unsubscribing from a single topic filter does not
 raise NameError

---
 interoperability/mqtt/brokers/V5/SubscriptionEngines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index a4a1db1..1a051fa 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -92,7 +92,8 @@ class SubscriptionEngines:
            matchedAny = matched
      else:
        matchedAny = self.__unsubscribe(aClientid, aTopic)
-       rc.append(ReasonCodes(UNSUBACK, "Success") if matched else ReasonCodes(UNSUBACK, "No subscription found"))
+       rc.append(MQTTV5.ReasonCodes(MQTTV5.PacketTypes.UNSUBACK, "Success") if matchedAny else
+                 MQTTV5.ReasonCodes(MQTTV5.PacketTypes.UNSUBACK, "No subscription found"))
      if not matchedAny:
        logger.info("[MQTT-3.10.4-5] Unsuback must be sent even if no topics are matched")
      return rc
-- 
2.43.0


From 522a0548713efd6ce8a7833299040669087a504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:14 +0000
Subject: [PATCH 28/67] fix: topic filters with wildcards match topic names
 that contain or end with a newline correctly

---
 interoperability/mqtt/brokers/V311/Topics.py | 2 +-
 interoperability/mqtt/brokers/V5/Topics.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Topics.py b/interoperability/mqtt/brokers/V311/Topics.py
index 396c51f..c9637bd 100644
--- a/interoperability/mqtt/brokers/V311/Topics.py
+++ b/interoperability/mqtt/brokers/V311/Topics.py
@@ -86,7 +86,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
     wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    if re.compile(wild+r'\Z', re.DOTALL).match(nonwild) != None:
       rc = True
   return rc
 
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 3ca6b9d..3e77248 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -91,7 +91,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
     wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    if re.compile(wild+r'\Z', re.DOTALL).match(nonwild) != None:
       rc = True
   return rc
 
-- 
2.43.0


From 2aba3b5ffc70599ccc84b85ae02b3d5bb4530064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:14 +0000
Subject: [PATCH 29/67] fix: a filter that only starts like a shared one does
 not make every publish fail

---
 interoperability/mqtt/brokers/V5/Topics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 3e77248..ef22d28 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -65,9 +65,10 @@ def topicMatches(wild, nonwild, wildCheck=True):
     assert nonwild.find('+') == nonwild.find('#') == -1
   assert isValidTopicName(wild) and isValidTopicName(nonwild)
 
-  if wild.startswith('$share'):
+  if wild.startswith('$share/'):
     # strip shared prefix $share/sharename/
-    assert wild.count('/') >= 2
+    if wild.count('/') < 2:
+      return False # there is no filter part
     wild = wild.split('/', 2)[2]
 
   rc = False
-- 
2.43.0


From 14274640eb7a82a89a0fdaf1dbf4d08f02c0b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 30/67] fix: a shared subscription and the ordinary
 subscriptions of its holder are delivered independently

---
 interoperability/mqtt/brokers/V5/Brokers.py        | 14 +++++++-------
 .../mqtt/brokers/V5/SubscriptionEngines.py         |  6 ++++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 831c6a8..f7ef0a3 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -158,23 +158,23 @@ class Brokers:
     # For shared subscriptions, there is only one recipient
     nonshared = [s for s in list(subscriptions) if not s.getTopic().startswith('$share/')]
     shared = [s for s in list(subscriptions) if s.getTopic().startswith('$share/')]
-    subscriptions = []
+    deliveries = [] # (client id, the subscriptions the delivery is due to)
     clientids = set()
     for n in nonshared:
       if n.getClientid() not in clientids:
         clientids.add(n.getClientid())
-        subscriptions.append(n)
+        deliveries.append((n.getClientid(), [s for s in nonshared if s.getClientid() == n.getClientid()]))
     sharenames = set()  # set of shared topic names
     for s in shared:
       sharenames.add(s.getTopic())
     for sname in list(sharenames):
-      subscriptions.append(random.choice([s for s in shared if s.getTopic() == sname]))
+      chosen = random.choice([s for s in shared if s.getTopic() == sname])
+      deliveries.append((chosen.getClientid(), [chosen]))
     
-    subscribed_clients = [s.getClientid() for s in subscriptions]
-    for subscriber in subscribed_clients:  # all subscribed clients
+    subscribed_clients = [subscriber for (subscriber, subscriptions) in deliveries]
+    for (subscriber, subscriptions) in deliveries:  # all subscribed clients
       # qos is lower of publication and subscription
       overlapping = False
-      subscriptions = self.se.getSubscriptions(topic, subscriber)
       if len(subscriptions) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
         overlapping = True
@@ -182,7 +182,7 @@ class Brokers:
         logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
       if self.overlapping_single:
         if subscriber in self.__clients.keys():
-          options, subsprops = self.se.optionsOf(subscriber, topic)
+          options, subsprops = self.se.optionsOf(subscriber, topic, subscriptions)
           # any other subscription ids?
           subsids = []
           nolocalfilter = []
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 1a051fa..0896de9 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -129,10 +129,12 @@ class SubscriptionEngines:
          rc = [sub for sub in subscriptions if sub.getClientid() == aClientid and Topics.topicMatches(sub.getTopic(), aTopic)]
      return rc
 
-   def optionsOf(self, clientid, topic):
+   def optionsOf(self, clientid, topic, subscriptions=None):
      # if there are overlapping subscriptions, choose maximum QoS
      chosen = None
-     for sub in self.getSubscriptions(topic, clientid):
+     if subscriptions == None:
+       subscriptions = self.getSubscriptions(topic, clientid)
+     for sub in subscriptions:
        if chosen == None:
          if hasattr(sub, "getOptions"):
            chosen = sub.getOptions()
-- 
2.43.0


From 4f90e10c2607426d364fab45051e282744fa5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 31/67] fix: a no-local subscription does not determine the
 options of a message it does not deliver

---
 interoperability/mqtt/brokers/V5/Brokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index f7ef0a3..63c139a 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -191,6 +191,8 @@ class Brokers:
               subopts, subprops = subscription.getOptions()
               if not subopts.noLocal or subscriber != aClientid: # noLocal
                 nolocalfilter.append(subscription)
+                if len(nolocalfilter) == 1 or subopts.QoS > options.QoS:
+                  options, subsprops = subopts, subprops
                 if hasattr(subprops, "SubscriptionIdentifier"):
                   subsids += subprops.SubscriptionIdentifier
           else:
-- 
2.43.0


From 385d805bcfadb811d0be504d5c54d99d39e94614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 32/67] fix: every delivery has its own copy of the message
 properties, with the subscription identifiers of that subscriber only

---
 interoperability/mqtt/brokers/V5/Brokers.py | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 63c139a..dee820d 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -16,11 +16,11 @@
 *******************************************************************
 """
 
-import types, time, logging, random
+import types, time, logging, random, copy
 
 from . import Topics
 from .SubscriptionEngines import SubscriptionEngines
-from mqtt.formats.MQTTV5 import ProtocolError
+from mqtt.formats.MQTTV5 import ProtocolError, Properties, PacketTypes
 
 logger = logging.getLogger('MQTT broker')
 
@@ -116,23 +116,32 @@ class Brokers:
       raise ProtocolError("Topic alias invalid", topicAlias)
     return mytopic
 
+  def subscriberProperties(self, properties):
+    "the properties of a message for one subscriber: its own copy, without subscription identifiers of the publisher"
+    if properties == None:
+      return Properties(PacketTypes.PUBLISH)
+    outprops = copy.deepcopy(properties)
+    outprops.packetType = PacketTypes.PUBLISH # will properties become publish properties
+    if hasattr(outprops, "SubscriptionIdentifier"):
+      delattr(outprops, "SubscriptionIdentifier")
+    return outprops
+
   def publish(self, aClientid, topic, message, qos, retained, properties, receivedTime):
     """publish to all subscribed connected clients
        also to any disconnected non-cleanstart clients with qos in [1,2]
     """
 
     def publishAction(options, subsprops, subsids=None):
-      if hasattr(properties, "SubscriptionIdentifier"):
-        delattr(properties, "SubscriptionIdentifier")
+      outprops = self.subscriberProperties(properties)
       if subsids or hasattr(subsprops, "SubscriptionIdentifier"):
         if subsids:
           for subsid in subsids:
-            properties.SubscriptionIdentifier = subsid
+            outprops.SubscriptionIdentifier = subsid
         else:
-          properties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
+          outprops.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
       out_qos = min(options.QoS, qos)
       outretain = retained if options.retainAsPublished else False
-      self.__clients[subscriber].publishArrived(topic, message, out_qos, properties, receivedTime, outretain)
+      self.__clients[subscriber].publishArrived(topic, message, out_qos, outprops, receivedTime, outretain)
 
     # topic alias
     if hasattr(properties, "TopicAlias"):
@@ -216,7 +225,7 @@ class Brokers:
             self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
     return subscribed_clients if len(subscribed_clients) > 0 else None
 
-  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds):
+  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds, subsprops=[]):
     # topic can be single, or a list
     if type(topic) != type([]):
       topic = [topic]
@@ -239,13 +248,17 @@ class Brokers:
           else:
             (ret_msg, ret_qos, receivedTime, properties) = retained_message
           thisqos = min(ret_qos, subsoptions[i].QoS)
+          properties = self.subscriberProperties(properties)
+          if i < len(subsprops) and hasattr(subsprops[i], "SubscriptionIdentifier"):
+            properties.SubscriptionIdentifier = subsprops[i].SubscriptionIdentifier[0]
           self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, properties, receivedTime, True)
       i += 1
 
   def subscribe(self, aClientid, topic, optionsprops):
     rc = self.se.subscribe(aClientid, topic, optionsprops)
     resubscribeds = [resubscribed for (x, resubscribed) in rc]
-    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds)
+    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds,
+        [props for (options, props) in optionsprops])
     return rc
 
   def unsubscribe(self, aClientid, topic):
-- 
2.43.0


From e1d4719554085d9f4abf4be5db870401ae9c8daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 33/67] fix: a queued message is recorded as outstanding once
 when it is sent

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a75c9a0..12a3924 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -163,8 +163,7 @@ class MQTTClients:
 
   def sendQueued(self):
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
-      self.outbound.append(self.queued.pop(0))
-      self.sendFirst(self.outbound[-1])
+      self.sendFirst(self.queued.pop(0))
 
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
     pub = MQTTV5.Publishes()
-- 
2.43.0


From a7de900c0d43afae9709c73d604a319383f7beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 34/67] fix: MQTT 5 packet identifiers of unacknowledged
 messages are not reused after the identifiers wrap around

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 12a3924..7164db1 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -148,6 +148,8 @@ class MQTTClients:
 
   def sendFirst(self, pub):
     if pub.fh.QoS in [1, 2]:
+      while self.msgid in self.outmsgs.keys(): # still in use by an unacknowledged message
+        self.msgid = 1 if self.msgid == MQTTV5.MAX_PACKETID else self.msgid + 1
       pub.packetIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
       if self.msgid == MQTTV5.MAX_PACKETID:
-- 
2.43.0


From 15f6b44be1bb637ac04255e0684cd7c63b4bdb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 35/67] fix: MQTT 3.1.1 message ids of unacknowledged messages
 are not reused after the ids wrap around

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 4375afa..946c8c4 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -99,6 +99,11 @@ class MQTTClients:
     if qos == 2:
       pub.qos2state = "PUBREC"
     if qos in [1, 2]:
+      if len(self.outmsgs) >= 65535:
+        logger.error("%s: no free message id, message discarded", self.id)
+        return
+      while self.msgid in self.outmsgs.keys(): # still in use by an unacknowledged message
+        self.msgid = 1 if self.msgid == 65535 else self.msgid + 1
       pub.messageIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
       if self.msgid == 65535:
-- 
2.43.0


From 43e6ce3a97d34a41111ee2cdbdb15412f2768b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 36/67] fix: QoS 0 messages to a connected client do not wait
 for acknowledgements of others

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 7164db1..b7035c1 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -195,7 +195,7 @@ class MQTTClients:
       logger.info("[MQTT-2.1.2-9] Set retained flag on retained messages")
     if qos == 2:
       pub.qos2state = "PUBREC"
-    if len(self.outbound) >= self.receiveMaximum or not self.connected:
+    if not self.connected or (qos > 0 and len(self.outbound) >= self.receiveMaximum):
       if qos > 0 or not self.broker.options["dropQoS0"]:
         self.queued.append(pub) # this should never be infinite in reality
       if qos > 0 and not self.connected:
-- 
2.43.0


From c399bc30faf1ea29850879591388c58f6ae019f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 37/67] fix: a client that breaks the protocol is disconnected
 with a defined reason code instead of staying connected

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index b7035c1..97ae7e3 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -522,7 +522,8 @@ class MQTTBrokers:
     # Session expiry
     if packet and hasattr(packet.properties, "SessionExpiryInterval"):
       if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
-        raise MQTTV5.ProtocolError("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
+        logger.error("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
+        raise MQTTV5.ProtocolError("Protocol error")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
     if reasonCode:
@@ -597,14 +598,16 @@ class MQTTBrokers:
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
-      raise MQTTV5.AcksProtocolError("Topic name invalid %s" % packet.topicName)
+      logger.error("Topic name invalid %s", packet.topicName)
+      raise MQTTV5.AcksProtocolError("Topic name invalid")
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
     else:
         if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
-          self.disconnect(sock, reasonCode="Receive maximum of %d exceeded: %d" % 
-             (self.options["receiveMaximum"], len(self.clients[sock].inbound)+1), sendWillMessage=True)
+          logger.error("Receive maximum of %d exceeded: %d",
+             self.options["receiveMaximum"], len(self.clients[sock].inbound)+1)
+          self.disconnect(sock, reasonCode="Receive maximum exceeded", sendWillMessage=True)
           return
         if hasattr(packet.properties, "UserProperty") and len(packet.properties.UserProperty) > 1:
           logger.info("[MQTT-3.1.3-10] Must maintain order of user properties")
-- 
2.43.0


From 6797db9caba6b5e8a65cf4d5eb13c02873bdcffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 38/67] fix: repeating a QoS 2 message that is not yet released
 does not exceed the receive maximum

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 97ae7e3..0c43937 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -604,7 +604,8 @@ class MQTTBrokers:
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
     else:
-        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
+        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"] and \
+            not (packet.fh.QoS == 2 and packet.packetIdentifier in self.clients[sock].inbound):
           logger.error("Receive maximum of %d exceeded: %d",
              self.options["receiveMaximum"], len(self.clients[sock].inbound)+1)
           self.disconnect(sock, reasonCode="Receive maximum exceeded", sendWillMessage=True)
-- 
2.43.0


From b6880ddc27abd4118e2a4355d848e150cc8f42be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 39/67] fix: a connection that is refused before its CONNECT
 was accepted is closed

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 0c43937..db518a3 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -517,6 +517,9 @@ class MQTTBrokers:
 
   def disconnect(self, sock, packet=None, sendWillMessage=False, reasonCode=None, properties=None):
     logger.info("[MQTT-3.14.4-2] Client must not send any more packets after disconnect")
+    if sock not in self.clients.keys(): # no session was started on this connection
+      self.closeSocket(sock)
+      return
     me = self.clients[sock]
     me.clearTopicAliases()
     # Session expiry
@@ -535,6 +538,9 @@ class MQTTBrokers:
       self.broker.disconnect(me.id, willMessage=sendWillMessage,
           sessionExpiryInterval=me.sessionExpiryInterval)
       del self.clients[sock]
+    self.closeSocket(sock)
+
+  def closeSocket(self, sock):
     try:
       sock.shutdown(socket.SHUT_RDWR) # must call shutdown to close socket immediately
     except:
-- 
2.43.0


From e0d24771a2d35bd239c358ee2010e563766e939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 40/67] fix: a connection that ends because of a malformed
 packet or an error ends the session connection and publishes the will

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 4 ++++
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 946c8c4..64b36e4 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -241,6 +241,10 @@ class MQTTBrokers:
           terminate = self.handlePacket(packet, sock)
         else:
           raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+    except:
+      # the listener closes the connection
+      self.disconnect(sock, None, terminate=True)
+      raise
     finally:
       self.lock.release()
     return terminate
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index db518a3..af35473 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -378,6 +378,11 @@ class MQTTBrokers:
           self.disconnect(sock, reasonCode=error.args[0], properties=disconnect_properties,
                           sendWillMessage=True)
           terminate = True
+        except:
+          # the listener closes the connection
+          if sock in self.clients.keys():
+            self.disconnect(sock, None, sendWillMessage=True)
+          raise
     finally:
       self.lock.release()
     return terminate
-- 
2.43.0


From 41e67aa45dc4f6a3cce3fbf25a127543aa9e0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 41/67] fix: a second CONNECT ends the connection abnormally,
 so the will is published

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 8 ++++----
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 64b36e4..6a38687 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -268,7 +268,7 @@ class MQTTBrokers:
 
   def connect(self, sock, packet):
     if packet.ProtocolName != "MQTT":
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, terminate=True)
       raise MQTTV3.MQTTException("[MQTT-3.1.2-1] Wrong protocol name %s" % packet.ProtocolName)
     if packet.ProtocolVersion != 4:
       logger.error("[MQTT-3.1.2-2] Wrong protocol version %d", packet.ProtocolVersion)
@@ -276,11 +276,11 @@ class MQTTBrokers:
       resp.returnCode = 1
       respond(sock, resp)
       logger.info("[MQTT-3.2.2-5] must close connection after non-zero connack")
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, terminate=True)
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       return
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, terminate=True)
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
@@ -292,7 +292,7 @@ class MQTTBrokers:
         resp.returnCode = 2
         respond(sock, resp)
         logger.info("[MQTT-3.2.2-5] must close connection after non-zero connack")
-        self.disconnect(sock, None)
+        self.disconnect(sock, None, terminate=True)
         logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
         return
       else:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index af35473..788611e 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -412,7 +412,7 @@ class MQTTBrokers:
   def connect(self, sock, packet):
     resp = MQTTV5.Connacks()
     if packet.ProtocolName != "MQTT":
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, sendWillMessage=True)
       raise MQTTV5.MQTTException("[MQTT5-3.1.2-1-error] Wrong protocol name %s" % packet.ProtocolName)
     logger.info("[MQTT5-3.1.2-1] Protocol name must be MQTT")
     if packet.ProtocolVersion != 5:
@@ -421,12 +421,12 @@ class MQTTBrokers:
       respond(sock, resp)
       logger.info("[MQTT5-3.2.2-6] must set session present to 0 with non-zero connack")
       logger.info("[MQTT5-3.2.2-7] must close connection after connack reason >= 0x80")
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, sendWillMessage=True)
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
       return
     logger.info("[MQTT5-3.1.2-2] Protocol version must be 5")
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, sendWillMessage=True)
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
       raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
-- 
2.43.0


From a7a9c4163c55360b156fc0a62340cb56312f0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 42/67] fix: the will is published when the DISCONNECT reason
 code is not normal disconnection

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 788611e..a6fb9c7 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -527,6 +527,8 @@ class MQTTBrokers:
       return
     me = self.clients[sock]
     me.clearTopicAliases()
+    if packet and packet.fh.PacketType == MQTTV5.PacketTypes.DISCONNECT and packet.reasonCode.value != 0:
+      sendWillMessage = True # only a normal disconnection discards the will
     # Session expiry
     if packet and hasattr(packet.properties, "SessionExpiryInterval"):
       if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
-- 
2.43.0


From 75698c1581fcfee635ffafed8fa31850afb0641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 43/67] fix: the will delay never exceeds the session expiry
 interval given in DISCONNECT

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a6fb9c7..1e368cf 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -536,6 +536,7 @@ class MQTTBrokers:
         raise MQTTV5.ProtocolError("Protocol error")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
+        me.willDelayInterval = min(me.willDelayInterval, me.sessionExpiryInterval)
     if reasonCode:
       resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
       if properties:
-- 
2.43.0


From b13df94488510a4698b9bd2e3462be496abe3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 44/67] fix: delayed wills are published under the lock of the
 broker

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1e368cf..6216859 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -309,7 +309,7 @@ class MQTTBrokers:
     else:
       self.lock = threading.RLock()
 
-    self.cleanupThread = cleanupThreads(self.broker)
+    self.cleanupThread = cleanupThreads(self.broker, self.lock)
 
     logger.info("MQTT 5.0 Paho Test Broker")
     logger.info("Options %s", self.options)
-- 
2.43.0


From dd369914485d45fffafbc4f14859a109c6d093d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 45/67] fix: acknowledgements are limited by the maximum packet
 size of the client, not by 500 bytes

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 6216859..796302a 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -27,7 +27,9 @@ logger = logging.getLogger('MQTT broker')
 
 mybroker = None
 
-def respond(sock, packet, maximumPacketSize=500):
+def respond(sock, packet, maximumPacketSize=None):
+  if maximumPacketSize == None:
+    maximumPacketSize = mybroker.clients[sock].maximumPacketSize if sock in mybroker.clients.keys() else MQTTV5.MAX_PACKET_SIZE
   # deal with expiry
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
     if hasattr(packet.properties, "MessageExpiryInterval"):
@@ -43,6 +45,11 @@ def respond(sock, packet, maximumPacketSize=500):
           traceback.print_exc()
   packed = packet.pack()
   # deal with packet size
+  if len(packed) > maximumPacketSize and packet.fh.PacketType != MQTTV5.PacketTypes.PUBLISH and hasattr(packet, "properties"):
+    for name in ["ReasonString", "UserProperty"]: # must not be sent if they make the packet too big
+      if hasattr(packet.properties, name):
+        delattr(packet.properties, name)
+    packed = packet.pack()
   packlen = len(packed)
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
-- 
2.43.0


From 691fe7ccd6f525699b7f0b59e19f2635abfaeb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 46/67] fix: the message expiry interval is reduced only in the
 packet that is sent, not in the stored message

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 796302a..22a421e 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -40,6 +40,7 @@ def respond(sock, packet, maximumPacketSize=None):
       else:
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
+          packet = copy.deepcopy(packet) # the message itself is kept for another transmission
           packet.properties.MessageExpiryInterval -= timespent
         except:
           traceback.print_exc()
-- 
2.43.0


From 1fbb4d180e2b7c0b20ec88c397e6535b4bc336e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 47/67] fix: outgoing topic aliases are assigned when a message
 is sent, on the connection it is sent on

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 42 +++++++++++--------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 22a421e..1f1cfff 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -36,7 +36,7 @@ def respond(sock, packet, maximumPacketSize=None):
       timespent = int(time.monotonic() - packet.receivedTime)
       if timespent >= packet.properties.MessageExpiryInterval:
         logger.info("[MQTT-3.3.2-5] Delete expired message")
-        return
+        return False
       else:
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
@@ -55,7 +55,7 @@ def respond(sock, packet, maximumPacketSize=None):
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
     logger.info("[MQTT5-3.1.2-25] message must be discarded and behave as if it had been sent")
-    return
+    return False
   if hasattr(sock, "fileno"):
     packet_string = str(packet)
     if len(packet_string) > 256:
@@ -85,6 +85,7 @@ def respond(sock, packet, maximumPacketSize=None):
         assert bytes_sent == len(packed)
     except:
       traceback.print_exc()
+  return True
 
 class MQTTClients:
 
@@ -122,23 +123,40 @@ class MQTTClients:
     self.topicAliasMaximum = 0 # for server topic aliases
     self.outgoingTopicNamesToAliases = []
 
+  def sendPub(self, pub):
+    "send a publish, with a topic alias of this connection if there is one or one is left"
+    topic = pub.topicName
+    if self.topicAliasMaximum == 0:
+      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent")
+    known = topic in self.outgoingTopicNamesToAliases
+    if known or len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum:
+      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max")
+      pub = copy.deepcopy(pub) # the alias belongs to this transmission only
+      if known:
+        pub.topicName = ""
+        pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
+      else: # include topic name as well as alias first time
+        pub.properties.TopicAlias = len(self.outgoingTopicNamesToAliases) + 1
+    if respond(self.socket, pub, self.maximumPacketSize) and hasattr(pub.properties, "TopicAlias") and not known:
+      self.outgoingTopicNamesToAliases.append(topic)       # add alias
+
   def resendPub(self, pub):
     logger.debug("resending %s", str(pub))
     logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
     if pub.fh.QoS == 0:
-      respond(self.socket, pub, self.maximumPacketSize)
+      self.sendPub(pub)
     elif pub.fh.QoS == 1:
       logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.packetIdentifier)
       logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
       logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-      respond(self.socket, pub, self.maximumPacketSize)
+      self.sendPub(pub)
       pub.fh.DUP = 1
     elif pub.fh.QoS == 2:
       if pub.qos2state == "PUBREC":
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.packetIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-        respond(self.socket, pub, self.maximumPacketSize)
+        self.sendPub(pub)
         pub.fh.DUP = 1
       else:
         resp = MQTTV5.Pubrels()
@@ -167,7 +185,7 @@ class MQTTClients:
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    respond(self.socket, pub, self.maximumPacketSize)
+    self.sendPub(pub)
     if pub.fh.QoS > 0:
       pub.fh.DUP = 1
 
@@ -182,17 +200,7 @@ class MQTTClients:
         del properties.TopicAlias
       pub.properties = properties
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
-    # Topic alias
-    if self.topicAliasMaximum == 0:
-      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent") 
-    if len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum and not topic in self.outgoingTopicNamesToAliases:
-      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max") 
-      self.outgoingTopicNamesToAliases.append(topic)       # add alias
-      pub.topicName = topic # include topic name as well as alias first time
-    if topic in self.outgoingTopicNamesToAliases:
-      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
-    else:
-      pub.topicName = topic
+    pub.topicName = topic
     pub.data = msg
     pub.fh.QoS = qos
     pub.fh.RETAIN = retained
-- 
2.43.0


From b55662b0fb333158379814707aebcfeb405dd09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 48/67] fix: a message that is discarded instead of sent does
 not stay outstanding

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1f1cfff..cc93336 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -137,8 +137,10 @@ class MQTTClients:
         pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
       else: # include topic name as well as alias first time
         pub.properties.TopicAlias = len(self.outgoingTopicNamesToAliases) + 1
-    if respond(self.socket, pub, self.maximumPacketSize) and hasattr(pub.properties, "TopicAlias") and not known:
+    sent = respond(self.socket, pub, self.maximumPacketSize)
+    if sent and hasattr(pub.properties, "TopicAlias") and not known:
       self.outgoingTopicNamesToAliases.append(topic)       # add alias
+    return sent
 
   def resendPub(self, pub):
     logger.debug("resending %s", str(pub))
@@ -185,8 +187,11 @@ class MQTTClients:
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    self.sendPub(pub)
+    sent = self.sendPub(pub)
     if pub.fh.QoS > 0:
+      if not sent: # expired or too big: there will be no acknowledgement
+        self.outbound.remove(pub)
+        del self.outmsgs[pub.packetIdentifier]
       pub.fh.DUP = 1
 
   def sendQueued(self):
-- 
2.43.0


From 2c628cb84ebcd6eb0052f42469047f4ca176dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:39 +0000
Subject: [PATCH 49/67] fix: resent messages respect the receive maximum of the
 new connection

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index cc93336..7ce7cf0 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -170,6 +170,9 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
+    # the receive maximum may be smaller than on the connection they were sent on
+    self.queued = self.outbound[self.receiveMaximum:] + self.queued
+    self.outbound = self.outbound[:self.receiveMaximum]
     for pub in self.outbound:
       self.resendPub(pub)
     self.sendQueued()
@@ -196,7 +199,15 @@ class MQTTClients:
 
   def sendQueued(self):
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
-      self.sendFirst(self.queued.pop(0))
+      pub = self.queued.pop(0)
+      if self.outmsgs.get(pub.packetIdentifier) is pub: # already sent on an earlier connection
+        self.outbound.append(pub)
+        self.resendPub(pub)
+      else:
+        self.sendFirst(pub)
+
+  def isOutstanding(self, msgid):
+    return msgid in self.outmsgs.keys() and self.outmsgs[msgid] in self.outbound
 
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
     pub = MQTTV5.Publishes()
@@ -225,7 +236,7 @@ class MQTTClients:
       self.sendFirst(pub)
 
   def puback(self, msgid):
-    if msgid in self.outmsgs.keys():
+    if self.isOutstanding(msgid):
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 1:
         self.outbound.remove(pub)
@@ -238,7 +249,7 @@ class MQTTClients:
 
   def pubrec(self, msgid):
     rc = False
-    if msgid in self.outmsgs.keys():
+    if self.isOutstanding(msgid):
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
         if pub.qos2state == "PUBREC":
@@ -253,7 +264,7 @@ class MQTTClients:
     return rc
 
   def pubcomp(self, msgid):
-    if msgid in self.outmsgs.keys():
+    if self.isOutstanding(msgid):
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
         if pub.qos2state == "PUBCOMP":
-- 
2.43.0


From 2bb808546cd2fe1b89b2ef065e02c3a2c9a25eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:39 +0000
Subject: [PATCH 50/67] fix: an incoming topic alias takes effect when the
 PUBLISH arrives, not when a stored message is released

---
 interoperability/mqtt/brokers/V5/Brokers.py   | 26 ++++++++++---------
 .../mqtt/brokers/V5/MQTTBrokers.py            | 10 ++++---
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index dee820d..ec00195 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -116,6 +116,20 @@ class Brokers:
       raise ProtocolError("Topic alias invalid", topicAlias)
     return mytopic
 
+  def resolveTopicAlias(self, aClientid, topic, topicAlias):
+    "the topic name of a publish with a topic alias; a topic name sets the alias"
+    if topicAlias == 0:
+      raise ProtocolError("Topic alias invalid", topicAlias)
+    if len(topic) == 0:
+      topic = self.getAliasTopic(aClientid, topicAlias)
+    else: # set incoming topic alias
+      if topicAlias in self.__clients[aClientid].topicAliasToNames.keys() or \
+          topicAlias <= self.topicAliasMaximum:
+        self.__clients[aClientid].topicAliasToNames[topicAlias] = topic
+      else:
+        raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
+    return topic
+
   def subscriberProperties(self, properties):
     "the properties of a message for one subscriber: its own copy, without subscription identifiers of the publisher"
     if properties == None:
@@ -143,18 +157,6 @@ class Brokers:
       outretain = retained if options.retainAsPublished else False
       self.__clients[subscriber].publishArrived(topic, message, out_qos, outprops, receivedTime, outretain)
 
-    # topic alias
-    if hasattr(properties, "TopicAlias"):
-      if properties.TopicAlias == 0:
-        raise ProtocolError("Topic alias invalid", properties.TopicAlias)
-      if len(topic) == 0:
-        topic = self.getAliasTopic(aClientid, properties.TopicAlias)
-      else: # set incoming topic alias
-        if properties.TopicAlias in self.__clients[aClientid].topicAliasToNames.keys() or \
-            properties.TopicAlias <= self.topicAliasMaximum:
-          self.__clients[aClientid].topicAliasToNames[properties.TopicAlias] = topic
-        else:
-          raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
     assert len(topic) > 0
 
     if retained:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 7ce7cf0..3185e74 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -643,6 +643,12 @@ class MQTTBrokers:
 
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
+    if hasattr(packet.properties, "TopicAlias"):
+      packet.topicName = self.broker.resolveTopicAlias(self.clients[sock].id, packet.topicName, packet.properties.TopicAlias)
+      del packet.properties.TopicAlias # it has no meaning outside this connection
+    elif len(packet.topicName) == 0:
+      logger.error("Neither topic name nor topic alias in publish")
+      raise MQTTV5.ProtocolError("Protocol error")
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
       logger.error("Topic name invalid %s", packet.topicName)
       raise MQTTV5.AcksProtocolError("Topic name invalid")
@@ -690,8 +696,6 @@ class MQTTBrokers:
                 logger.info("[MQTT-3.3.1-2] DUP flag is 1 on redelivery")
             else:
               myclient.inbound[packet.packetIdentifier] = packet
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.se.getSubscriptions(packet.topicName)
           else:
             if packet.packetIdentifier in myclient.inbound:
@@ -702,8 +706,6 @@ class MQTTBrokers:
             else:
               myclient.inbound.append(packet.packetIdentifier)
               logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.publish(self.clients[sock].id, packet.topicName,
                    packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
                    packet.receivedTime)
-- 
2.43.0


From b3f38be654e6db16e03b04e814cb37a3e14d4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:39 +0000
Subject: [PATCH 51/67] fix: MQTT 3.1.1 subscriptions to the QoS limited test
 topics are granted

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 6a38687..2a0bb3c 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -361,9 +361,9 @@ class MQTTBrokers:
         respqoss.append(0x80)
       else:
         if p[0] == "test/QoS 1 only":
-          respqoss.append(min(1), p[1])
+          respqoss.append(min(1, p[1]))
         elif p[0] == "test/QoS 0 only":
-          respqoss.append(min(0), p[1])
+          respqoss.append(min(0, p[1]))
         else:
           respqoss.append(p[1])
         topics.append(p[0])
-- 
2.43.0


From fe1bc8138d3b8067708cb72af6d2d7faeec1fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:39 +0000
Subject: [PATCH 52/67] fix: MQTT 3.1.1 QoS 2 publish names its client by
 identifier

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 2a0bb3c..80422fd 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -426,7 +426,7 @@ class MQTTBrokers:
         else:
           myclient.inbound.append(packet.messageIdentifier)
           logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-          self.broker.publish(myclient, packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN,
+          self.broker.publish(myclient.id, packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN,
                       packet.receivedTime)
       resp = MQTTV3.Pubrecs()
       logger.info("[MQTT-2.3.1-6] pubrec messge id same as publish")
-- 
2.43.0


From 8b0559e94385203a9a9143b531c4c671217596f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:39 +0000
Subject: [PATCH 53/67] fix: an assigned MQTT 3.1.1 client identifier is a
 string

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 80422fd..c71cc96 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -297,7 +297,7 @@ class MQTTBrokers:
         return
       else:
         logger.info("[MQTT-3.1.3-7] 0-length clientid must have cleansession true")
-        packet.ClientIdentifier = uuid.uuid4() # give the client a unique clientid
+        packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
         logger.info("[MQTT-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
     logger.info("[MQTT-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
     if packet.ClientIdentifier in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
-- 
2.43.0


From d1c8a680d990d924f10a651f462d87907361530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:40 +0000
Subject: [PATCH 54/67] fix: the server_keep_alive setting takes effect

---
 interoperability/mqtt/brokers/start.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 8b3ea62..f950234 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -86,7 +86,7 @@ def process_config(config, options):
             result = int(words[1])
           except:
             pass
-        options[words[0]] = result
+        options["serverKeepAlive" if words[0] == "server_keep_alive" else words[0]] = result
       elif words[0] == "listener":
         ca_certs = certfile = keyfile = None
         cert_reqs=ssl.CERT_REQUIRED
@@ -157,7 +157,6 @@ def run(config=None):
     "retain_available":True,
     "subscription_identifier_available":True,
     "shared_subscription_available":True,
-    "server_keep_alive":None,
   }
 
   if config != None:
-- 
2.43.0


From 4be7216f653871124b1ceae3bd7080ef1ab36e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 55/67] fix: a will is not sent on the connection it is the
 will of

---
 interoperability/mqtt/brokers/V311/Brokers.py | 1 +
 interoperability/mqtt/brokers/V5/Brokers.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 143fb78..e5791f8 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -64,6 +64,7 @@ class Brokers:
   def terminate(self, aClientid):
     "Abrupt disconnect which also causes a will msg to be sent out"
     if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      self.__clients[aClientid].connected = False # nothing more is sent on this connection, not even the will
       if self.__clients[aClientid].will != None:
         logger.info("[MQTT-3.1.2-8] sending will message for client %s", aClientid)
         willtopic, willQoS, willmsg, willRetain = self.__clients[aClientid].will
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index ec00195..42d3f54 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -83,6 +83,7 @@ class Brokers:
   def setupWillMessage(self, aClientid):
     "Sends the will message, if any, for a client"
     if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      self.__clients[aClientid].connected = False # nothing more is sent on this connection, not even the will
       if self.__clients[aClientid].will != None:
         if self.__clients[aClientid].willDelayInterval > 0:
           self.__clients[aClientid].delayedWillTime = time.monotonic() + self.__clients[aClientid].willDelayInterval
-- 
2.43.0


From 378a2bf3f112b7e6c2c93fdd8f0fdc514da5a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 56/67] fix: a QoS 0 message kept for an MQTT 3.1.1 client is
 sent once

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index c71cc96..f7a4066 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -61,10 +61,11 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
+    for pub in self.outbound[:]:
       logger.debug("resending "+str(pub))
       logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
       if pub.fh.QoS == 0:
+        self.outbound.remove(pub) # there is no acknowledgement
         respond(self.socket, pub)
       elif pub.fh.QoS == 1:
         pub.fh.DUP = 1
-- 
2.43.0


From a502991a413e12a39ff1adce30e5c9f7773d7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:35 +0000
Subject: [PATCH 57/67] fix: a message that can not be sent again does not stay
 outstanding

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 3185e74..1afe804 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -151,21 +151,25 @@ class MQTTClients:
       logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.packetIdentifier)
       logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
       logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-      self.sendPub(pub)
-      pub.fh.DUP = 1
+      self.resendOrDiscard(pub)
     elif pub.fh.QoS == 2:
       if pub.qos2state == "PUBREC":
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.packetIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-        self.sendPub(pub)
-        pub.fh.DUP = 1
+        self.resendOrDiscard(pub)
       else:
         resp = MQTTV5.Pubrels()
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         resp.packetIdentifier = pub.packetIdentifier
         respond(self.socket, resp, self.maximumPacketSize)
 
+  def resendOrDiscard(self, pub):
+    pub.fh.DUP = 1
+    if not self.sendPub(pub): # expired or too big for this connection: there will be no acknowledgement
+      self.outbound.remove(pub)
+      del self.outmsgs[pub.packetIdentifier]
+
   def resend(self):
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
@@ -173,7 +177,7 @@ class MQTTClients:
     # the receive maximum may be smaller than on the connection they were sent on
     self.queued = self.outbound[self.receiveMaximum:] + self.queued
     self.outbound = self.outbound[:self.receiveMaximum]
-    for pub in self.outbound:
+    for pub in self.outbound[:]:
       self.resendPub(pub)
     self.sendQueued()
 
-- 
2.43.0


From e5d0a3243fff9f042b5ece8c48cefde7a77e39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 58/67] fix: the test clients use packet identifier 65535, so
 the search for a free one ends

---
 interoperability/mqtt/clients/V311/main.py | 4 ++--
 interoperability/mqtt/clients/V5/main.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 67a55a6..eb87170 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -74,12 +74,12 @@ class Client:
   def __nextMsgid(self):
     def getWrappedMsgid():
       id = self.msgid + 1
-      if id == 65535:
+      if id > 65535:
         id = 1
       return id
 
     if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+      raise Exception("No slots left!!")
     else:
       self.msgid = getWrappedMsgid()
       while self.msgid in self.__receiver.outMsgs.keys():
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index e5cb57c..6ee1c1b 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -85,12 +85,12 @@ class Client:
   def __nextMsgid(self):
     def getWrappedMsgid():
       id = self.msgid + 1
-      if id == 65535:
+      if id > 65535:
         id = 1
       return id
 
     if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+      raise Exception("No slots left!!")
     else:
       self.msgid = getWrappedMsgid()
       while self.msgid in self.__receiver.outMsgs.keys():
-- 
2.43.0


From d05de59a5b272971d0af30a3ee61faa337ba7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 59/67] fix: the test clients answer every PUBREL with a
 PUBCOMP

---
 interoperability/mqtt/clients/V311/internal.py | 5 ++++-
 interoperability/mqtt/clients/V5/internal.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 6aab0b4..c70178b 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -84,7 +84,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.messageIdentifier
       if packet.messageIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # released before: the PUBCOMP was lost
+        self.pubcomp.messageIdentifier = msgid
+        logging.debug("out: %s", str(self.pubcomp))
+        self.socket.send(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.messageIdentifier]
         if callback == None or \
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 92c7989..6f53493 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -91,7 +91,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.packetIdentifier
       if packet.packetIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # released before: the PUBCOMP was lost
+        self.pubcomp.packetIdentifier = msgid
+        logger.debug("out: %s", str(self.pubcomp))
+        self.socket.send(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.packetIdentifier]
         if callback == None or \
-- 
2.43.0


From df7a8f32a52ca1c8397e7f9c15cbb8240f4eb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 60/67] fix: the MQTT 5 test client does not release a message
 that was refused by PUBREC

---
 interoperability/mqtt/clients/V5/internal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 6f53493..063b53e 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -78,7 +78,12 @@ class Receivers:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
-      if packet.packetIdentifier in self.outMsgs.keys():
+      if packet.packetIdentifier in self.outMsgs.keys() and packet.reasonCode.value >= 0x80:
+        # the message was refused: there is no PUBREL
+        del self.outMsgs[packet.packetIdentifier]
+        if hasattr(callback, "published"):
+          callback.published(packet.packetIdentifier)
+      elif packet.packetIdentifier in self.outMsgs.keys():
         #self.outMsgs[packet.packetIdentifier].pubrec_received = True
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
-- 
2.43.0


From 702e68ae0a57ba929d9084f0ec0c3b4a260b77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 61/67] fix: the default callbacks of the test clients take the
 arguments they are called with

---
 interoperability/mqtt/clients/V311/main.py | 2 +-
 interoperability/mqtt/clients/V5/main.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index eb87170..b7dd927 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -53,7 +53,7 @@ class Callback:
   def published(self, msgid):
     logger.debug("default published %d", msgid)
 
-  def subscribed(self, msgid):
+  def subscribed(self, msgid, data=None):
     logger.debug("default subscribed %d", msgid)
 
   def unsubscribed(self, msgid):
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 6ee1c1b..8156982 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -50,14 +50,14 @@ class Callback:
   def connectionLost(self, cause):
     logger.debug("default connectionLost %s", str(cause))
 
-  def publishArrived(self, topicName, payload, qos, retained, msgid):
+  def publishArrived(self, topicName, payload, qos, retained, msgid, properties=None):
     logger.debug("default publishArrived %s %s %d %d %d", topicName, payload, qos, retained, msgid)
     return True
 
   def published(self, msgid):
     logger.debug("default published %d", msgid)
 
-  def subscribed(self, msgid):
+  def subscribed(self, msgid, reasonCodes=None):
     logger.debug("default subscribed %d", msgid)
 
   def unsubscribed(self, msgid):
-- 
2.43.0


From 23d213671cc8ff7ab34266451f0262350ca6de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 62/67] fix: the test clients send acknowledgements whole when
 a send accepts only part of them

---
 interoperability/mqtt/clients/V311/internal.py | 12 ++++++------
 interoperability/mqtt/clients/V5/internal.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index c70178b..e892589 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -75,7 +75,7 @@ class Receivers:
         self.outMsgs[packet.messageIdentifier].pubrec_received == True
         self.pubrel.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        self.socket.sendall(self.pubrel.pack())
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.messageIdentifier))
@@ -87,7 +87,7 @@ class Receivers:
         # released before: the PUBCOMP was lost
         self.pubcomp.messageIdentifier = msgid
         logging.debug("out: %s", str(self.pubcomp))
-        self.socket.send(self.pubcomp.pack())
+        self.socket.sendall(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.messageIdentifier]
         if callback == None or \
@@ -96,7 +96,7 @@ class Receivers:
           del self.inMsgs[packet.messageIdentifier]
           self.pubcomp.messageIdentifier = packet.messageIdentifier
           logging.debug("out: %s", str(self.pubcomp))
-          self.socket.send(self.pubcomp.pack())
+          self.socket.sendall(self.pubcomp.pack())
         if callback == None:
           return (pub.topicName, pub.data, 2,
                            pub.fh.RETAIN, pub.messageIdentifier)
@@ -130,12 +130,12 @@ class Receivers:
                            packet.fh.RETAIN, packet.messageIdentifier):
             self.puback.messageIdentifier = packet.messageIdentifier
             logging.debug("out: %s", str(self.puback))
-            self.socket.send(self.puback.pack())
+            self.socket.sendall(self.puback.pack())
       elif packet.fh.QoS == 2:
         self.inMsgs[packet.messageIdentifier] = packet
         self.pubrec.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrec))
-        self.socket.send(self.pubrec.pack())
+        self.socket.sendall(self.pubrec.pack())
 
     else:
       raise Exception("Unexpected packet"+str(packet))
@@ -149,7 +149,7 @@ class Receivers:
       else:
         packet.fh.DUP = True
       logging.debug("out: %s", str(packet))
-      rc = self.socket.send(packet.pack())
+      rc = self.socket.sendall(packet.pack())
 
   def __call__(self, callback):
     self.running = True
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 063b53e..b569375 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -87,7 +87,7 @@ class Receivers:
         #self.outMsgs[packet.packetIdentifier].pubrec_received = True
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        self.socket.sendall(self.pubrel.pack())
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.packetIdentifier))
@@ -99,7 +99,7 @@ class Receivers:
         # released before: the PUBCOMP was lost
         self.pubcomp.packetIdentifier = msgid
         logger.debug("out: %s", str(self.pubcomp))
-        self.socket.send(self.pubcomp.pack())
+        self.socket.sendall(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.packetIdentifier]
         if callback == None or \
@@ -108,7 +108,7 @@ class Receivers:
           del self.inMsgs[packet.packetIdentifier]
           self.pubcomp.packetIdentifier = packet.packetIdentifier
           logger.debug("out: %s", str(self.pubcomp))
-          self.socket.send(self.pubcomp.pack())
+          self.socket.sendall(self.pubcomp.pack())
         if callback == None:
           return (pub.topicName, pub.data, 2,
                            pub.fh.RETAIN, pub.packetIdentifier)
@@ -142,12 +142,12 @@ class Receivers:
                            packet.fh.RETAIN, packet.packetIdentifier, packet.properties):
             self.puback.packetIdentifier = packet.packetIdentifier
             logger.debug("out: %s", str(self.puback))
-            self.socket.send(self.puback.pack())
+            self.socket.sendall(self.puback.pack())
       elif packet.fh.QoS == 2:
         self.inMsgs[packet.packetIdentifier] = packet
         self.pubrec.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrec))
-        self.socket.send(self.pubrec.pack())
+        self.socket.sendall(self.pubrec.pack())
 
     else:
       raise Exception("Unexpected packet"+str(packet))
@@ -161,7 +161,7 @@ class Receivers:
       else:
         packet.fh.DUP = True
       logger.debug("out: %s", str(packet))
-      rc = self.socket.send(packet.pack())
+      rc = self.socket.sendall(packet.pack())
 
   def __call__(self, callback):
     self.running = True
-- 
2.43.0


From 14e73bd498b3ea46b2c9e8106f076190140cc3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 63/67] fix: settings after a listener in the configuration
 file take effect

---
 interoperability/mqtt/brokers/start.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index f950234..e947196 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -54,15 +54,7 @@ def setup_persistence(persistence_filename):
   sharedData = root.mqtt["sharedData"]
   return connection, sharedData
 
-def process_config(config, options):
-    servers_to_create = []
-    lineno = 0
-    while lineno < len(config):
-      curline = config[lineno].strip()
-      lineno += 1
-      if curline.startswith('#') or len(curline) == 0:
-        continue
-      words = curline.split()
+def process_setting(words, options):
       if words[0] == "loglevel":
         if len(words) > 1:
           if words[1].upper() == "DEBUG":
@@ -87,7 +79,19 @@ def process_config(config, options):
           except:
             pass
         options["serverKeepAlive" if words[0] == "server_keep_alive" else words[0]] = result
-      elif words[0] == "listener":
+
+def process_config(config, options):
+    servers_to_create = []
+    lineno = 0
+    while lineno < len(config):
+      curline = config[lineno].strip()
+      lineno += 1
+      if curline.startswith('#') or len(curline) == 0:
+        continue
+      words = curline.split()
+      if words[0] != "listener":
+        process_setting(words, options)
+      else:
         ca_certs = certfile = keyfile = None
         cert_reqs=ssl.CERT_REQUIRED
         bind_address = ""
@@ -118,6 +122,8 @@ def process_config(config, options):
           elif words[0] == "allow_non_sni_connections":
             if words[1] == "false":
               allow_non_sni_connections = False
+          else: # not about the listener
+            process_setting(words, options)
         if protocol == "mqtt":
           servers_to_create.append((TCPListeners, {"host":bind_address, "port":port, "TLS":TLS, "cert_reqs":cert_reqs,
                       "ca_certs":ca_certs, "certfile":certfile, "keyfile":keyfile, 
-- 
2.43.0


From d7d09baa38b159628f39ac73ce4e13d03ab58856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 64/67] fix: a configuration file without a listener starts the
 default listener

---
 interoperability/mqtt/brokers/start.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index e947196..49e9985 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -133,6 +133,8 @@ def process_config(config, options):
         elif protocol == "http":
           servers_to_create.append((HTTPListeners, {"host":bind_address, "port":port, "TLS":TLS, "cert_reqs":cert_reqs,
               "ca_certs":ca_certs, "certfile":certfile, "keyfile":keyfile}))
+    if len(servers_to_create) == 0:
+      servers_to_create.append((TCPListeners, {"port":1883}))
     servers_to_create[-1][1]["serve_forever"] = True
     return servers_to_create, options
 
-- 
2.43.0


From a8aaf8aa00965d258b723a9d87f3032d47572f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:00 +0000
Subject: [PATCH 65/67] fix: a message published to a topic starting with
 $share/ is not delivered to wildcard filters

---
 .../mqtt/brokers/V5/SubscriptionEngines.py           | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 0896de9..85dbe23 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -26,7 +26,11 @@ from .Subscriptions import *
 logger = logging.getLogger('MQTT broker')
 
 def isDollarTopic(name):
-  return name[0] == '$' and not name.startswith('$share/')
+  return name[0] == '$'
+
+def isDollarFilter(name):
+  "shared subscriptions are kept with the ordinary ones"
+  return isDollarTopic(name) and not name.startswith('$share/')
 
 class SubscriptionEngines:
 
@@ -68,7 +72,7 @@ class SubscriptionEngines:
      rc = None
      resubscribed = False
      if Topics.isValidTopicName(aTopic):
-       subscriptions = self.__subscriptions if not isDollarTopic(aTopic) else self.__dollar_subscriptions
+       subscriptions = self.__subscriptions if not isDollarFilter(aTopic) else self.__dollar_subscriptions
        for s in subscriptions:
          if s.getClientid() == aClientid and s.getTopic() == aTopic:
            s.resubscribe(options)
@@ -102,7 +106,7 @@ class SubscriptionEngines:
      "unsubscribe to one topic"
      matched = False
      if Topics.isValidTopicName(aTopic):
-       subscriptions = self.__subscriptions if not isDollarTopic(aTopic) else self.__dollar_subscriptions
+       subscriptions = self.__subscriptions if not isDollarFilter(aTopic) else self.__dollar_subscriptions
        for s in subscriptions:
          if s.getClientid() == aClientid and s.getTopic() == aTopic:
            logger.info("[MQTT-3.10.4-1] topic filters must be compared byte for byte")
@@ -185,7 +189,7 @@ class SubscriptionEngines:
    def getRetainedTopics(self, aTopic):
      "returns a list of topics for which retained publications exist"
      if Topics.isValidTopicName(aTopic):
-       retained = self.__retained if not isDollarTopic(aTopic) else self.__dollar_retained
+       retained = self.__retained if not isDollarFilter(aTopic) else self.__dollar_retained
        return retained.keys()
      else:
        return None
-- 
2.43.0


From 44968b68d50dfda40fb598c0aadec25f8767b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 66/67] fix: a http listener with TLS can be started

---
 .../mqtt/brokers/listeners/HTTPListeners.py            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 7c3da8c..f0ae709 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -254,9 +254,13 @@ def create(port, host="", TLS=False, serve_forever=False,
     bind_address = host
   httpd = http.server.HTTPServer((bind_address, port), requestHandler)
   if TLS:
-    httpd.socket = ssl.wrap_socket(httpd.socket,
-      ca_certs=ca_certs, certfile=certfile, keyfile=keyfile,
-      cert_reqs=cert_reqs, server_side=True)
+    context = ssl.SSLContext(protocol=ssl.PROTOCOL_TLS_SERVER) # ssl.wrap_socket does not exist any more
+    if certfile:
+      context.load_cert_chain(certfile, keyfile)
+    if ca_certs:
+      context.load_verify_locations(ca_certs)
+    context.verify_mode = cert_reqs
+    httpd.socket = context.wrap_socket(httpd.socket, server_side=True)
   if serve_forever:
     httpd.serve_forever()
   else:
-- 
2.43.0


From 56755d3bb03d5aa7ddba6e325251df2424523015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:05 +0000
Subject: [PATCH 67/67] fix: an interval in DISCONNECT that is longer than that
 of CONNECT does not shorten the will delay

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1afe804..a2c9bda 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -523,8 +523,6 @@ class MQTTBrokers:
     if hasattr(packet.WillProperties, "WillDelayInterval"):
       willDelayInterval = packet.WillProperties.WillDelayInterval
       delattr(packet.WillProperties, "WillDelayInterval") # must not be sent with will message
-    if willDelayInterval > sessionExpiryInterval:
-      willDelayInterval = sessionExpiryInterval
     if me == None:
       me = MQTTClients(packet.ClientIdentifier, packet.CleanStart, sessionExpiryInterval, willDelayInterval, keepalive, sock, self)
     else:
@@ -572,7 +570,8 @@ class MQTTBrokers:
         raise MQTTV5.ProtocolError("Protocol error")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
-        me.willDelayInterval = min(me.willDelayInterval, me.sessionExpiryInterval)
+    # the will is sent when the session ends, if that is before the end of the delay
+    me.willDelayInterval = min(me.willDelayInterval, me.sessionExpiryInterval)
     if reasonCode:
       resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
       if properties:
-- 
2.43.0

