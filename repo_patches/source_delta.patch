From 92b3d04f7f2339a18cccae3bd2f691337ce455c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 01/15] fix: matches() panics when the topic starts with a
 multi-byte character

---
 src/topic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topic.rs b/src/topic.rs
index ea76373..e740f7f 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -53,7 +53,7 @@ pub fn valid_filter(filter: &str) -> bool {
 /// **NOTE**: make sure a topic is validated during a publish and filter is validated
 /// during a subscribe
 pub fn matches(topic: &str, filter: &str) -> bool {
-    if !topic.is_empty() && topic[..1].contains('$') {
+    if topic.starts_with('$') {
         return false;
     }
 
-- 
2.43.0


From 147791a305970f456181c92434c8c34920345c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 02/15] fix: Connect::write patches its flags byte relative to
 the start of the packet

---
 src/v4/connect.rs | 3 ++-
 src/v5/connect.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index e92d700..345d768 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -102,6 +102,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, "MQTT");
@@ -111,7 +112,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_session {
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index c0f4397..5b28064 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -124,6 +124,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, "MQTT");
@@ -133,7 +134,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_session {
-- 
2.43.0


From c90003546ef65fb4230df2b9d0993c8f48e951fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 03/15] fix: Connect::write returns the number of bytes it
 appended

---
 src/v4/connect.rs | 2 +-
 src/v5/connect.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index 345d768..725d0d5 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -133,7 +133,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 5b28064..5a45875 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -163,7 +163,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
-- 
2.43.0


From 8926dbb3e28394a3dd5d7e9073fbc7fd1ba62ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 04/15] fix: v5 read accepts a Disconnect without payload, as
 the writer emits it

---
 src/v5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 28dcfbb..1177657 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -127,6 +127,10 @@ pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
         return match packet_type {
             PacketType::PingReq => Ok(Packet::PingReq),
             PacketType::PingResp => Ok(Packet::PingResp),
+            PacketType::Disconnect => Ok(Packet::Disconnect(Disconnect::read(
+                fixed_header,
+                packet.freeze(),
+            )?)),
             _ => Err(Error::PayloadRequired),
         };
     }
-- 
2.43.0


From a211e7ce22b95b8d3a9c8847d84fd5a39ea88c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 05/15] fix: v5 Disconnect::read accepts a packet with only a
 reason code

---
 src/v5/disconnect.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 4e12360..bce4e5e 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -307,7 +307,11 @@ impl Disconnect {
 
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
-            properties: DisconnectProperties::extract(&mut bytes)?,
+            // the property length can be left out if there are no properties
+            properties: match fixed_header.remaining_len {
+                1 => None,
+                _ => DisconnectProperties::extract(&mut bytes)?,
+            },
         };
 
         Ok(disconnect)
-- 
2.43.0


From f9fd3c85ad3278753cb470e39bebad6690d9f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 06/15] fix: v5 Disconnect::write drops the reason code when
 the remaining length is 2

---
 src/v5/disconnect.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index bce4e5e..e125c04 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -260,12 +260,6 @@ impl Disconnect {
     }
 
     fn len(&self) -> usize {
-        if self.reason_code == DisconnectReasonCode::NormalDisconnection
-            && self.properties.is_none()
-        {
-            return 2; // Packet type + 0x00
-        }
-
         let mut length = 0;
 
         match &self.properties {
@@ -322,10 +316,10 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        if length == 0 {
             buffer.put_u8(0x00);
 
-            return Ok(length);
+            return Ok(2); // Packet type + 0x00
         }
 
         let len_len = write_remaining_length(buffer, length)?;
-- 
2.43.0


From 10305d1feea788b1e6ee4c9012717b7168bc206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 07/15] fix: v5 ConnAck without properties is written with its
 mandatory property length

---
 src/v5/connack.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 36391f4..fdc48e1 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -52,10 +52,16 @@ impl ConnAck {
         let mut len = 1  // session present
                         + 1; // code
 
-        if let Some(properties) = &self.properties {
-            let properties_len = properties.len();
-            let properties_len_len = len_len(properties_len);
-            len += properties_len_len + properties_len;
+        match &self.properties {
+            Some(properties) => {
+                let properties_len = properties.len();
+                let properties_len_len = len_len(properties_len);
+                len += properties_len_len + properties_len;
+            }
+            None => {
+                // just 1 byte representing 0 len
+                len += 1;
+            }
         }
 
         len
@@ -87,8 +93,11 @@ impl ConnAck {
         buffer.put_u8(self.session_present as u8);
         buffer.put_u8(self.code as u8);
 
-        if let Some(properties) = &self.properties {
-            properties.write(buffer)?;
+        match &self.properties {
+            Some(properties) => properties.write(buffer)?,
+            None => {
+                write_remaining_length(buffer, 0)?;
+            }
         }
 
         Ok(1 + count + len)
-- 
2.43.0


From 2383a2668febe91475802ef29c01072c45665fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 08/15] fix: v5 subscription identifiers are counted once
 against the property length

---
 src/v5/publish.rs   | 2 +-
 src/v5/subscribe.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 166eb32..4d916f6 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -233,7 +233,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 83f0664..94bf7c8 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -191,8 +191,7 @@ impl SubscribeProperties {
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
-                    // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id)
                 }
-- 
2.43.0


From c9f36bc9dc2ce4afc94459dbf486655702e0b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 09/15] fix: v5 Unsubscribe::read no longer prints to stderr

---
 src/v5/unsubscribe.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 201b79a..e2e5b2c 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -42,7 +42,6 @@ impl Unsubscribe {
         bytes.advance(variable_header_index);
 
         let pkid = read_u16(&mut bytes)?;
-        dbg!(pkid);
         let properties = UnsubscribeProperties::extract(&mut bytes)?;
 
         let mut filters = Vec::with_capacity(1);
-- 
2.43.0


From 06b830d07e75cc67312cecc8a4f5c7ceb57b85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 10/15] fix: v5 reports a truncated length inside of a complete
 packet as malformed

---
 src/v5/disconnect.rs |  2 +-
 src/v5/mod.rs        | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index e125c04..dadade2 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -4,7 +4,7 @@ use bytes::{BufMut, BytesMut};
 
 use crate::*;
 
-use super::{property, PropertyType};
+use super::{length, property, PropertyType};
 
 #[derive(Debug, Clone, Copy, PartialEq)]
 #[repr(u8)]
diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 1177657..644e25d 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -1,4 +1,5 @@
 use crate::*;
+use core::slice::Iter;
 
 mod connack;
 mod connect;
@@ -114,6 +115,15 @@ fn property(num: u8) -> Result<PropertyType, Error> {
     Ok(property)
 }
 
+/// Parses a variable byte integer inside of a complete packet. Running out of bytes
+/// there means that the packet is malformed, not that more bytes are needed
+fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+    match crate::length(stream) {
+        Err(Error::InsufficientBytes(_)) => Err(Error::MalformedPacket),
+        result => result,
+    }
+}
+
 /// Reads a stream of bytes and extracts next MQTT packet out of it
 pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
     let fixed_header = check(stream.iter(), max_size)?;
-- 
2.43.0


From ceb4a513368477d9edce62d2a03e0eb735fbff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 11/15] fix: v5 rejects properties that run past the declared
 property length

---
 src/v5/connack.rs     | 4 ++++
 src/v5/connect.rs     | 8 ++++++++
 src/v5/disconnect.rs  | 4 ++++
 src/v5/puback.rs      | 4 ++++
 src/v5/pubcomp.rs     | 4 ++++
 src/v5/publish.rs     | 4 ++++
 src/v5/pubrec.rs      | 4 ++++
 src/v5/pubrel.rs      | 4 ++++
 src/v5/suback.rs      | 4 ++++
 src/v5/subscribe.rs   | 4 ++++
 src/v5/unsuback.rs    | 4 ++++
 src/v5/unsubscribe.rs | 4 ++++
 12 files changed, 52 insertions(+)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index fdc48e1..1ab3b07 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -334,6 +334,10 @@ impl ConnAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 5a45875..6e101aa 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -364,6 +364,10 @@ impl WillProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(WillProperties {
             delay_interval,
             payload_format_indicator,
@@ -583,6 +587,10 @@ impl ConnectProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index dadade2..b4eaa03 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -212,6 +212,10 @@ impl DisconnectProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 5113194..ae123b2 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -160,6 +160,10 @@ impl PubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 73c019a..2faf2e4 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -148,6 +148,10 @@ impl PubCompProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 4d916f6..0310a78 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -246,6 +246,10 @@ impl PublishProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index a9b0ba0..cbb7ff9 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -156,6 +156,10 @@ impl PubRecProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index e18b465..6b243a7 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -147,6 +147,10 @@ impl PubRelProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 1c8d541..ab1114d 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -137,6 +137,10 @@ impl SubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 94bf7c8..5fa7ef5 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -205,6 +205,10 @@ impl SubscribeProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 83e7f0d..3bbb16f 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -148,6 +148,10 @@ impl UnsubAckProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index e2e5b2c..a55bfde 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -127,6 +127,10 @@ impl UnsubscribeProperties {
             }
         }
 
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From fb98b9a5fe01c0b14eb261364a675bb1725b7f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 12/15] fix: Subscribe and Unsubscribe without topic filters
 are rejected

---
 src/v4/unsubscribe.rs | 4 ++++
 src/v5/subscribe.rs   | 4 ++++
 src/v5/unsubscribe.rs | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 9c32cc5..c577db6 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -32,6 +32,10 @@ impl Unsubscribe {
             topics.push(topic_filter);
         }
 
+        if topics.is_empty() {
+            return Err(Error::EmptySubscription);
+        }
+
         let unsubscribe = Unsubscribe { pkid, topics };
         Ok(unsubscribe)
     }
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 5fa7ef5..c941021 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -114,6 +114,10 @@ impl Subscribe {
             });
         }
 
+        if filters.is_empty() {
+            return Err(Error::EmptySubscription);
+        }
+
         let subscribe = Subscribe {
             pkid,
             filters,
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index a55bfde..a985e3c 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -50,6 +50,10 @@ impl Unsubscribe {
             filters.push(filter);
         }
 
+        if filters.is_empty() {
+            return Err(Error::EmptySubscription);
+        }
+
         let unsubscribe = Unsubscribe {
             pkid,
             filters,
-- 
2.43.0


From b3832c8c0de2a375627a56381690cc088586fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 13/15] fix: Publish::write rejects a zero packet id before it
 appends anything

---
 src/v4/publish.rs | 11 +++++------
 src/v5/publish.rs | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 0f49531..44ad9a4 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -80,6 +80,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        if self.qos != QoS::AtMostOnce && self.pkid == 0 {
+            return Err(Error::PacketIdZero);
+        }
+
         let len = self.len();
 
         let dup = self.dup as u8;
@@ -91,12 +95,7 @@ impl Publish {
         write_mqtt_string(buffer, self.topic.as_str());
 
         if self.qos != QoS::AtMostOnce {
-            let pkid = self.pkid;
-            if pkid == 0 {
-                return Err(Error::PacketIdZero);
-            }
-
-            buffer.put_u16(pkid);
+            buffer.put_u16(self.pkid);
         }
 
         buffer.extend_from_slice(&self.payload);
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 0310a78..1023993 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -96,6 +96,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        if self.qos != QoS::AtMostOnce && self.pkid == 0 {
+            return Err(Error::PacketIdZero);
+        }
+
         let len = self.len();
 
         let dup = self.dup as u8;
@@ -107,12 +111,7 @@ impl Publish {
         write_mqtt_string(buffer, self.topic.as_str());
 
         if self.qos != QoS::AtMostOnce {
-            let pkid = self.pkid;
-            if pkid == 0 {
-                return Err(Error::PacketIdZero);
-            }
-
-            buffer.put_u16(pkid);
+            buffer.put_u16(self.pkid);
         }
 
         match &self.properties {
-- 
2.43.0


From c1cc6083e7f227f9be441e3496d85f0109a17241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 14/15] fix: valid_filter rejects '+' that doesn't occupy an
 entire level

---
 src/topic.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/topic.rs b/src/topic.rs
index e740f7f..6813c69 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -35,11 +35,17 @@ pub fn valid_filter(filter: &str) -> bool {
             if entry.contains('#') {
                 return false;
             }
+
+            // + has to occupy an entire level
+            // invalid: sport+/player
+            if entry.len() != 1 && entry.contains('+') {
+                return false;
+            }
         }
 
-        // only single '#" is allowed in last entry
+        // only single '#" or single '+' is allowed in last entry
         // invalid: sport/tennis#
-        if last.len() != 1 && last.contains('#') {
+        if last.len() != 1 && has_wildcards(last) {
             return false;
         }
     }
-- 
2.43.0


From a0ab6f6715d9a5db63041dc471f5d9edda717f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 15/15] fix: v5 Connect with protocol level 4 carries no
 property blocks

---
 src/v5/connect.rs | 51 +++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 6e101aa..f1318cf 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -51,13 +51,15 @@ impl Connect {
                               + 1            // connect flags
                               + 2; // keep alive
 
-        match &self.properties {
-            Some(properties) => {
+        match (&self.properties, self.protocol) {
+            // no properties before version 5
+            (_, Protocol::V4) => {}
+            (Some(properties), Protocol::V5) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
                 len += properties_len_len + properties_len;
             }
-            None => {
+            (None, Protocol::V5) => {
                 // just 1 byte representing 0 len
                 len += 1;
             }
@@ -67,7 +69,7 @@ impl Connect {
 
         // last will len
         if let Some(last_will) = &self.last_will {
-            len += last_will.len();
+            len += last_will.len(self.protocol);
         }
 
         // username and password len
@@ -106,7 +108,7 @@ impl Connect {
         };
 
         let client_id = read_mqtt_string(&mut bytes)?;
-        let last_will = LastWill::read(connect_flags, &mut bytes)?;
+        let last_will = LastWill::read(connect_flags, protocol, &mut bytes)?;
         let login = Login::read(connect_flags, &mut bytes)?;
 
         let connect = Connect {
@@ -144,9 +146,10 @@ impl Connect {
         buffer.put_u8(connect_flags);
         buffer.put_u16(self.keep_alive);
 
-        match &self.properties {
-            Some(properties) => properties.write(buffer)?,
-            None => {
+        match (&self.properties, self.protocol) {
+            (_, Protocol::V4) => {}
+            (Some(properties), Protocol::V5) => properties.write(buffer)?,
+            (None, Protocol::V5) => {
                 write_remaining_length(buffer, 0)?;
             }
         };
@@ -154,7 +157,7 @@ impl Connect {
         write_mqtt_string(buffer, &self.client_id);
 
         if let Some(last_will) = &self.last_will {
-            connect_flags |= last_will.write(buffer)?;
+            connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
@@ -193,16 +196,18 @@ impl LastWill {
         }
     }
 
-    fn len(&self) -> usize {
+    fn len(&self, protocol: Protocol) -> usize {
         let mut len = 0;
 
-        match &self.properties {
-            Some(properties) => {
+        match (&self.properties, protocol) {
+            // no properties before version 5
+            (_, Protocol::V4) => {}
+            (Some(properties), Protocol::V5) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
                 len += properties_len_len + properties_len;
             }
-            None => {
+            (None, Protocol::V5) => {
                 // just 1 byte representing 0 len
                 len += 1;
             }
@@ -212,7 +217,11 @@ impl LastWill {
         len
     }
 
-    fn read(connect_flags: u8, mut bytes: &mut Bytes) -> Result<Option<LastWill>, Error> {
+    fn read(
+        connect_flags: u8,
+        protocol: Protocol,
+        mut bytes: &mut Bytes,
+    ) -> Result<Option<LastWill>, Error> {
         let last_will = match connect_flags & 0b100 {
             0 if (connect_flags & 0b0011_1000) != 0 => {
                 return Err(Error::IncorrectPacketFormat);
@@ -220,7 +229,10 @@ impl LastWill {
             0 => None,
             _ => {
                 // Properties in variable header
-                let properties = WillProperties::read(&mut bytes)?;
+                let properties = match protocol {
+                    Protocol::V5 => WillProperties::read(&mut bytes)?,
+                    Protocol::V4 => None,
+                };
 
                 let will_topic = read_mqtt_string(&mut bytes)?;
                 let will_message = read_mqtt_bytes(&mut bytes)?;
@@ -238,7 +250,7 @@ impl LastWill {
         Ok(last_will)
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
+    fn write(&self, protocol: Protocol, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
 
         connect_flags |= 0x04 | (self.qos as u8) << 3;
@@ -246,9 +258,10 @@ impl LastWill {
             connect_flags |= 0x20;
         }
 
-        match &self.properties {
-            Some(properties) => properties.write(buffer)?,
-            None => {
+        match (&self.properties, protocol) {
+            (_, Protocol::V4) => {}
+            (Some(properties), Protocol::V5) => properties.write(buffer)?,
+            (None, Protocol::V5) => {
                 write_remaining_length(buffer, 0)?;
             }
         };
-- 
2.43.0

