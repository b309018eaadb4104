From 366c4e5032d838ea31f2d4d62972d87116ca849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 01/16] fix: matches panics on topics that start with a
 multi-byte character

`topic[..1]` is not a character boundary in such a topic.
---
 src/topic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topic.rs b/src/topic.rs
index ea76373..e740f7f 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -53,7 +53,7 @@ pub fn valid_filter(filter: &str) -> bool {
 /// **NOTE**: make sure a topic is validated during a publish and filter is validated
 /// during a subscribe
 pub fn matches(topic: &str, filter: &str) -> bool {
-    if !topic.is_empty() && topic[..1].contains('$') {
+    if topic.starts_with('$') {
         return false;
     }
 
-- 
2.43.0


From 9b30d722d9e6c1c86720302dd6eb2f4a30669521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 02/16] fix: valid_filter accepts + as a part of a level

+ has to occupy an entire level of the filter ([MQTT-4.7.1-3]).
---
 src/topic.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/topic.rs b/src/topic.rs
index e740f7f..3927db7 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -35,11 +35,18 @@ pub fn valid_filter(filter: &str) -> bool {
             if entry.contains('#') {
                 return false;
             }
+
+            // + has to occupy an entire level
+            // invalid: sport+/player
+            if entry.len() != 1 && entry.contains('+') {
+                return false;
+            }
         }
 
         // only single '#" is allowed in last entry
         // invalid: sport/tennis#
-        if last.len() != 1 && last.contains('#') {
+        // invalid: sport/tennis+
+        if last.len() != 1 && (last.contains('#') || last.contains('+')) {
             return false;
         }
     }
-- 
2.43.0


From 014e83c5c3f0b0148552454e85fdd31a547d326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 03/16] fix: writing connect puts its flags into an earlier
 packet

The position of the flags was counted from the start of the buffer, not
from the start of the packet.
---
 src/v4/connect.rs | 2 +-
 src/v5/connect.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index e92d700..f93f0e4 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -111,7 +111,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = buffer.len();
 
         let mut connect_flags = 0;
         if self.clean_session {
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index c0f4397..7ae329a 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -133,7 +133,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = buffer.len();
 
         let mut connect_flags = 0;
         if self.clean_session {
-- 
2.43.0


From af3eb10a8dd5435940422a9d761b81da16990f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 04/16] fix: write of connect does not count its fixed header

All other packets return the number of bytes written.
---
 src/v4/connect.rs | 2 +-
 src/v5/connect.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index f93f0e4..a82d6bf 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -132,7 +132,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 7ae329a..75e97ba 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -162,7 +162,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
-- 
2.43.0


From 4b519e283fe19bf22d60fd0b8c8110d3eb126ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 05/16] fix: a publish with packet identifier 0 is written in
 part

The error was returned after the fixed header and the topic were put into
the buffer.
---
 src/v4/publish.rs | 11 +++++------
 src/v5/publish.rs | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 0f49531..44ad9a4 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -80,6 +80,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        if self.qos != QoS::AtMostOnce && self.pkid == 0 {
+            return Err(Error::PacketIdZero);
+        }
+
         let len = self.len();
 
         let dup = self.dup as u8;
@@ -91,12 +95,7 @@ impl Publish {
         write_mqtt_string(buffer, self.topic.as_str());
 
         if self.qos != QoS::AtMostOnce {
-            let pkid = self.pkid;
-            if pkid == 0 {
-                return Err(Error::PacketIdZero);
-            }
-
-            buffer.put_u16(pkid);
+            buffer.put_u16(self.pkid);
         }
 
         buffer.extend_from_slice(&self.payload);
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 166eb32..99217da 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -96,6 +96,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        if self.qos != QoS::AtMostOnce && self.pkid == 0 {
+            return Err(Error::PacketIdZero);
+        }
+
         let len = self.len();
 
         let dup = self.dup as u8;
@@ -107,12 +111,7 @@ impl Publish {
         write_mqtt_string(buffer, self.topic.as_str());
 
         if self.qos != QoS::AtMostOnce {
-            let pkid = self.pkid;
-            if pkid == 0 {
-                return Err(Error::PacketIdZero);
-            }
-
-            buffer.put_u16(pkid);
+            buffer.put_u16(self.pkid);
         }
 
         match &self.properties {
-- 
2.43.0


From d9c54141e42318e056efbcdbd1b16252c37070d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 06/16] fix: v5 connack without properties lacks its property
 length

The property length is mandatory; the packet could not be read back.
---
 src/v5/connack.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 36391f4..758cffc 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -52,10 +52,16 @@ impl ConnAck {
         let mut len = 1  // session present
                         + 1; // code
 
-        if let Some(properties) = &self.properties {
-            let properties_len = properties.len();
-            let properties_len_len = len_len(properties_len);
-            len += properties_len_len + properties_len;
+        match &self.properties {
+            Some(properties) => {
+                let properties_len = properties.len();
+                let properties_len_len = len_len(properties_len);
+                len += properties_len_len + properties_len;
+            }
+            None => {
+                // just 1 byte representing 0 len
+                len += 1;
+            }
         }
 
         len
@@ -87,9 +93,12 @@ impl ConnAck {
         buffer.put_u8(self.session_present as u8);
         buffer.put_u8(self.code as u8);
 
-        if let Some(properties) = &self.properties {
-            properties.write(buffer)?;
-        }
+        match &self.properties {
+            Some(properties) => properties.write(buffer)?,
+            None => {
+                write_remaining_length(buffer, 0)?;
+            }
+        };
 
         Ok(1 + count + len)
     }
-- 
2.43.0


From a2828d24b12b9766cf6920c7e8cb1dad9b1bf2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 07/16] fix: v5 read refuses a disconnect without reason code

Reason code and properties may be left out of a normal disconnection
(3.14.2.1), and this is how this crate writes it.
---
 src/v5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 28dcfbb..1177657 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -127,6 +127,10 @@ pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
         return match packet_type {
             PacketType::PingReq => Ok(Packet::PingReq),
             PacketType::PingResp => Ok(Packet::PingResp),
+            PacketType::Disconnect => Ok(Packet::Disconnect(Disconnect::read(
+                fixed_header,
+                packet.freeze(),
+            )?)),
             _ => Err(Error::PayloadRequired),
         };
     }
-- 
2.43.0


From b30bfc9ab7e30603a1bb22a1841d1f8616e0e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 08/16] fix: v5 disconnect with only a reason code can't be
 read

The property length may be left out (3.14.2.2.1), and this is how this
crate writes it.
---
 src/v5/disconnect.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 4e12360..0250c79 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -305,8 +305,18 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        let reason_code = reason_code.try_into()?;
+
+        // No property length if remaining len is 1 (reason code)
+        if fixed_header.remaining_len == 1 {
+            return Ok(Self {
+                reason_code,
+                properties: None,
+            });
+        }
+
         let disconnect = Self {
-            reason_code: reason_code.try_into()?,
+            reason_code,
             properties: DisconnectProperties::extract(&mut bytes)?,
         };
 
-- 
2.43.0


From 95ec7e8273cd636bc0aae8e849a00875d8063520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 09/16] fix: v5 disconnect with empty properties loses its
 reason code

Its length of 2 (reason code and property length) was taken for the size
of the short form.
---
 src/v5/disconnect.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 0250c79..647c6b3 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -263,7 +263,7 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // No reason code
         }
 
         let mut length = 0;
@@ -328,10 +328,10 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        if length == 0 {
             buffer.put_u8(0x00);
 
-            return Ok(length);
+            return Ok(2); // Packet type + 0x00
         }
 
         let len_len = write_remaining_length(buffer, length)?;
-- 
2.43.0


From 23bcd9c89933bde6783d32d670baeae1b8204c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 10/16] fix: v5 properties after a subscription identifier are
 lost

The identifier's length was counted one byte too long, so that the end of
the property section was reached early and the rest taken for payload.
---
 src/v5/publish.rs   | 2 +-
 src/v5/subscribe.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 99217da..ddb3cbb 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -232,7 +232,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 83f0664..62d1709 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -192,7 +192,7 @@ impl SubscribeProperties {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
                     // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id)
                 }
-- 
2.43.0


From e677967adad0a96e2661c4faf5de3b619b73d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 11/16] fix: v5 unsubscribe prints to stderr when it is read

---
 src/v5/unsubscribe.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 201b79a..e2e5b2c 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -42,7 +42,6 @@ impl Unsubscribe {
         bytes.advance(variable_header_index);
 
         let pkid = read_u16(&mut bytes)?;
-        dbg!(pkid);
         let properties = UnsubscribeProperties::extract(&mut bytes)?;
 
         let mut filters = Vec::with_capacity(1);
-- 
2.43.0


From 3e45efe8e18d641321efc0e7ab4d524232591276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 12/16] fix: v5 read asks for more bytes when a complete packet
 is malformed

A property length or subscription identifier without an end was reported as
InsufficientBytes. The packet is removed from the stream by then, so the
caller would wait and go on with the next packet.
---
 src/lib.rs            | 9 +++++++++
 src/v5/connack.rs     | 2 +-
 src/v5/connect.rs     | 4 ++--
 src/v5/disconnect.rs  | 2 +-
 src/v5/puback.rs      | 2 +-
 src/v5/pubcomp.rs     | 2 +-
 src/v5/publish.rs     | 4 ++--
 src/v5/pubrec.rs      | 2 +-
 src/v5/pubrel.rs      | 2 +-
 src/v5/suback.rs      | 2 +-
 src/v5/subscribe.rs   | 4 ++--
 src/v5/unsuback.rs    | 2 +-
 src/v5/unsubscribe.rs | 2 +-
 13 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2c046a3..c621668 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -224,6 +224,15 @@ fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
     Ok((len_len, len))
 }
 
+/// Parses variable byte integer inside a packet. All the bytes of the packet are
+/// there already, so an integer without an end is not a request for more bytes
+fn framed_length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+    match length(stream) {
+        Err(Error::InsufficientBytes(_)) => Err(Error::MalformedPacket),
+        v => v,
+    }
+}
+
 /// Reads a series of bytes with a length from a byte stream
 fn read_mqtt_bytes(stream: &mut Bytes) -> Result<Bytes, Error> {
     let len = read_u16(stream)? as usize;
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 758cffc..7917b1d 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -241,7 +241,7 @@ impl ConnAckProperties {
         let mut authentication_method = None;
         let mut authentication_data = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 75e97ba..27c82ad 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -313,7 +313,7 @@ impl WillProperties {
         let mut correlation_data = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
@@ -526,7 +526,7 @@ impl ConnectProperties {
         let mut authentication_method = None;
         let mut authentication_data = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 647c6b3..1111f25 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -167,7 +167,7 @@ impl DisconnectProperties {
     }
 
     pub fn extract(mut bytes: &mut Bytes) -> Result<Option<Self>, Error> {
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
 
         bytes.advance(properties_len_len);
 
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 5113194..8564771 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -132,7 +132,7 @@ impl PubAckProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 73c019a..5b7ab44 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -120,7 +120,7 @@ impl PubCompProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index ddb3cbb..fc910b5 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -189,7 +189,7 @@ impl PublishProperties {
         let mut subscription_identifiers = Vec::new();
         let mut content_type = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
@@ -231,7 +231,7 @@ impl PublishProperties {
                     user_properties.push((key, value));
                 }
                 PropertyType::SubscriptionIdentifier => {
-                    let (id_len, id) = length(bytes.iter())?;
+                    let (id_len, id) = framed_length(bytes.iter())?;
                     cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index a9b0ba0..ad60fa1 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -128,7 +128,7 @@ impl PubRecProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index e18b465..f9b7522 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -119,7 +119,7 @@ impl PubRelProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 1c8d541..bd51c83 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -109,7 +109,7 @@ impl SubAckProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 62d1709..2dd5d1d 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -175,7 +175,7 @@ impl SubscribeProperties {
         let mut id = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
 
         if properties_len == 0 {
@@ -190,7 +190,7 @@ impl SubscribeProperties {
 
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
-                    let (id_len, sub_id) = length(bytes.iter())?;
+                    let (id_len, sub_id) = framed_length(bytes.iter())?;
                     // TODO: Validate 1 +. Tests are working either way
                     cursor += id_len;
                     bytes.advance(id_len);
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 83e7f0d..8252490 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -120,7 +120,7 @@ impl UnsubAckProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index e2e5b2c..35a1e13 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -103,7 +103,7 @@ impl UnsubscribeProperties {
     fn extract(mut bytes: &mut Bytes) -> Result<Option<UnsubscribeProperties>, Error> {
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = framed_length(bytes.iter())?;
         bytes.advance(properties_len_len);
 
         if properties_len == 0 {
-- 
2.43.0


From edd40ff3a54e009a455a4cfa31999f52bb2175b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 13/16] fix: v5 properties that cross the end of their section
 are accepted

The fields that follow were then read from the wrong place.
---
 src/v5/connack.rs     |  5 +++++
 src/v5/connect.rs     | 10 ++++++++++
 src/v5/disconnect.rs  |  5 +++++
 src/v5/puback.rs      |  5 +++++
 src/v5/pubcomp.rs     |  5 +++++
 src/v5/publish.rs     |  5 +++++
 src/v5/pubrec.rs      |  5 +++++
 src/v5/pubrel.rs      |  5 +++++
 src/v5/suback.rs      |  5 +++++
 src/v5/subscribe.rs   |  5 +++++
 src/v5/unsuback.rs    |  5 +++++
 src/v5/unsubscribe.rs |  5 +++++
 12 files changed, 65 insertions(+)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 7917b1d..ac0b99e 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -334,6 +334,11 @@ impl ConnAckProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 27c82ad..c835c7d 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -363,6 +363,11 @@ impl WillProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(WillProperties {
             delay_interval,
             payload_format_indicator,
@@ -582,6 +587,11 @@ impl ConnectProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 1111f25..13dc529 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -212,6 +212,11 @@ impl DisconnectProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 8564771..16d7f89 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -160,6 +160,11 @@ impl PubAckProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 5b7ab44..970e37a 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -148,6 +148,11 @@ impl PubCompProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index fc910b5..7350794 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -245,6 +245,11 @@ impl PublishProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index ad60fa1..dd97cb8 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -156,6 +156,11 @@ impl PubRecProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index f9b7522..ae085db 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -147,6 +147,11 @@ impl PubRelProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index bd51c83..37d5380 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -137,6 +137,11 @@ impl SubAckProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 2dd5d1d..db7ee5a 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -206,6 +206,11 @@ impl SubscribeProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 8252490..b5fc2ee 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -148,6 +148,11 @@ impl UnsubAckProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 35a1e13..8619126 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -127,6 +127,11 @@ impl UnsubscribeProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From 59751b58458eac4ce9368a8186a26fd2c3636cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 14/16] fix: v5 connect with protocol level 4 is written with
 properties

Its reader expects properties for level 5 alone, except those of the will,
and so does any other. What is read with level 4 could not be written again.
---
 src/v5/connect.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index c835c7d..8ecd5d6 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -52,6 +52,8 @@ impl Connect {
                               + 2; // keep alive
 
         match &self.properties {
+            // no properties in v4
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -67,7 +69,7 @@ impl Connect {
 
         // last will len
         if let Some(last_will) = &self.last_will {
-            len += last_will.len();
+            len += last_will.len(self.protocol);
         }
 
         // username and password len
@@ -106,7 +108,7 @@ impl Connect {
         };
 
         let client_id = read_mqtt_string(&mut bytes)?;
-        let last_will = LastWill::read(connect_flags, &mut bytes)?;
+        let last_will = LastWill::read(protocol, connect_flags, &mut bytes)?;
         let login = Login::read(connect_flags, &mut bytes)?;
 
         let connect = Connect {
@@ -144,6 +146,8 @@ impl Connect {
         buffer.put_u16(self.keep_alive);
 
         match &self.properties {
+            // no properties in v4
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
@@ -153,7 +157,7 @@ impl Connect {
         write_mqtt_string(buffer, &self.client_id);
 
         if let Some(last_will) = &self.last_will {
-            connect_flags |= last_will.write(buffer)?;
+            connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
@@ -192,10 +196,12 @@ impl LastWill {
         }
     }
 
-    fn len(&self) -> usize {
+    fn len(&self, protocol: Protocol) -> usize {
         let mut len = 0;
 
         match &self.properties {
+            // no properties in v4
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -211,7 +217,11 @@ impl LastWill {
         len
     }
 
-    fn read(connect_flags: u8, mut bytes: &mut Bytes) -> Result<Option<LastWill>, Error> {
+    fn read(
+        protocol: Protocol,
+        connect_flags: u8,
+        mut bytes: &mut Bytes,
+    ) -> Result<Option<LastWill>, Error> {
         let last_will = match connect_flags & 0b100 {
             0 if (connect_flags & 0b0011_1000) != 0 => {
                 return Err(Error::IncorrectPacketFormat);
@@ -219,7 +229,10 @@ impl LastWill {
             0 => None,
             _ => {
                 // Properties in variable header
-                let properties = WillProperties::read(&mut bytes)?;
+                let properties = match protocol {
+                    Protocol::V5 => WillProperties::read(&mut bytes)?,
+                    Protocol::V4 => None,
+                };
 
                 let will_topic = read_mqtt_string(&mut bytes)?;
                 let will_message = read_mqtt_bytes(&mut bytes)?;
@@ -237,7 +250,7 @@ impl LastWill {
         Ok(last_will)
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
+    fn write(&self, protocol: Protocol, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
 
         connect_flags |= 0x04 | (self.qos as u8) << 3;
@@ -246,6 +259,8 @@ impl LastWill {
         }
 
         match &self.properties {
+            // no properties in v4
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
-- 
2.43.0


From b6f826e328c6c5060a95e8fa3fc7373ee7c5b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 15/16] fix: a packet that is too long to be sent leaves its
 first byte

write returned PayloadTooLong after the packet type was put into the buffer.
---
 src/lib.rs            | 11 +++++++++++
 src/v4/connect.rs     |  3 +--
 src/v4/publish.rs     |  4 +---
 src/v4/suback.rs      |  3 +--
 src/v4/subscribe.rs   |  7 ++-----
 src/v4/unsubscribe.rs |  3 +--
 src/v5/connack.rs     |  4 +---
 src/v5/connect.rs     |  3 +--
 src/v5/disconnect.rs  |  5 ++---
 src/v5/puback.rs      |  4 +---
 src/v5/pubcomp.rs     |  3 +--
 src/v5/publish.rs     |  4 +---
 src/v5/pubrec.rs      |  3 +--
 src/v5/pubrel.rs      |  3 +--
 src/v5/suback.rs      |  3 +--
 src/v5/subscribe.rs   |  7 ++-----
 src/v5/unsuback.rs    |  3 +--
 src/v5/unsubscribe.rs |  6 ++----
 18 files changed, 32 insertions(+), 47 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c621668..b6afc78 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -293,6 +293,17 @@ fn write_remaining_length(stream: &mut BytesMut, len: usize) -> Result<usize, Er
     Ok(count)
 }
 
+/// Writes packet type and remaining length to stream and returns number of bytes for
+/// remaining length. Writes nothing if the packet is too long to be sent
+fn write_fixed_header(stream: &mut BytesMut, byte1: u8, len: usize) -> Result<usize, Error> {
+    if len > 268_435_455 {
+        return Err(Error::PayloadTooLong);
+    }
+
+    stream.put_u8(byte1);
+    write_remaining_length(stream, len)
+}
+
 /// Return number of remaining length bytes required for encoding length
 fn len_len(len: usize) -> usize {
     if len >= 2_097_152 {
diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index a82d6bf..1553c4d 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -102,8 +102,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
-        buffer.put_u8(0b0001_0000);
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0b0001_0000, len)?;
         write_mqtt_string(buffer, "MQTT");
 
         match self.protocol {
diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 44ad9a4..4dd9b45 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -89,9 +89,7 @@ impl Publish {
         let dup = self.dup as u8;
         let qos = self.qos as u8;
         let retain = self.retain as u8;
-        buffer.put_u8(0b0011_0000 | retain | qos << 1 | dup << 3);
-
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0b0011_0000 | retain | qos << 1 | dup << 3, len)?;
         write_mqtt_string(buffer, self.topic.as_str());
 
         if self.qos != QoS::AtMostOnce {
diff --git a/src/v4/suback.rs b/src/v4/suback.rs
index 198d6a9..c9c54b8 100644
--- a/src/v4/suback.rs
+++ b/src/v4/suback.rs
@@ -40,9 +40,8 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
-        buffer.put_u8(0x90);
         let remaining_len = self.len();
-        let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
+        let remaining_len_bytes = write_fixed_header(buffer, 0x90, remaining_len)?;
 
         buffer.put_u16(self.pkid);
         let p: Vec<u8> = self
diff --git a/src/v4/subscribe.rs b/src/v4/subscribe.rs
index 3bb386d..2bd698b 100644
--- a/src/v4/subscribe.rs
+++ b/src/v4/subscribe.rs
@@ -75,12 +75,9 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
-        // write packet type
-        buffer.put_u8(0x82);
-
-        // write remaining length
+        // write packet type and remaining length
         let remaining_len = self.len();
-        let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
+        let remaining_len_bytes = write_fixed_header(buffer, 0x82, remaining_len)?;
 
         // write packet id
         buffer.put_u16(self.pkid);
diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 9c32cc5..2ba7e51 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -42,8 +42,7 @@ impl Unsubscribe {
             .iter()
             .fold(0, |s, ref topic| s + topic.len() + 2);
 
-        payload.put_u8(0xA2);
-        let remaining_len_bytes = write_remaining_length(payload, remaining_len)?;
+        let remaining_len_bytes = write_fixed_header(payload, 0xA2, remaining_len)?;
         payload.put_u16(self.pkid);
 
         for topic in self.topics.iter() {
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index ac0b99e..09df46b 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -87,9 +87,7 @@ impl ConnAck {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
-        buffer.put_u8(0x20);
-
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0x20, len)?;
         buffer.put_u8(self.session_present as u8);
         buffer.put_u8(self.code as u8);
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 8ecd5d6..51867ad 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -126,8 +126,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
-        buffer.put_u8(0b0001_0000);
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0b0001_0000, len)?;
         write_mqtt_string(buffer, "MQTT");
 
         match self.protocol {
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 13dc529..110e05d 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -329,17 +329,16 @@ impl Disconnect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
-        buffer.put_u8(0xE0);
-
         let length = self.len();
 
         if length == 0 {
+            buffer.put_u8(0xE0);
             buffer.put_u8(0x00);
 
             return Ok(2); // Packet type + 0x00
         }
 
-        let len_len = write_remaining_length(buffer, length)?;
+        let len_len = write_fixed_header(buffer, 0xE0, length)?;
 
         buffer.put_u8(self.reason_code as u8);
 
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 16d7f89..2b63f95 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -88,9 +88,7 @@ impl PubAck {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
-        buffer.put_u8(0x40);
-
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0x40, len)?;
         buffer.put_u16(self.pkid);
 
         // Reason code is optional with success if there are no properties
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 970e37a..4dbb13a 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -76,8 +76,7 @@ impl PubComp {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
-        buffer.put_u8(0x70);
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0x70, len)?;
         buffer.put_u16(self.pkid);
 
         // If there are no properties during success, sending reason code is optional
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 7350794..7a4b5e5 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -105,9 +105,7 @@ impl Publish {
         let dup = self.dup as u8;
         let qos = self.qos as u8;
         let retain = self.retain as u8;
-        buffer.put_u8(0b0011_0000 | retain | qos << 1 | dup << 3);
-
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0b0011_0000 | retain | qos << 1 | dup << 3, len)?;
         write_mqtt_string(buffer, self.topic.as_str());
 
         if self.qos != QoS::AtMostOnce {
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index dd97cb8..411bc5a 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -84,8 +84,7 @@ impl PubRec {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
-        buffer.put_u8(0x50);
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0x50, len)?;
         buffer.put_u16(self.pkid);
 
         // If there are no properties during success, sending reason code is optional
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index ae085db..5944cd7 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -75,8 +75,7 @@ impl PubRel {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
-        buffer.put_u8(0x62);
-        let count = write_remaining_length(buffer, len)?;
+        let count = write_fixed_header(buffer, 0x62, len)?;
         buffer.put_u16(self.pkid);
 
         // If there are no properties during success, sending reason code is optional
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 37d5380..4668ddd 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -65,9 +65,8 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
-        buffer.put_u8(0x90);
         let remaining_len = self.len();
-        let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
+        let remaining_len_bytes = write_fixed_header(buffer, 0x90, remaining_len)?;
 
         buffer.put_u16(self.pkid);
 
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index db7ee5a..f2e9c66 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -124,12 +124,9 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
-        // write packet type
-        buffer.put_u8(0x82);
-
-        // write remaining length
+        // write packet type and remaining length
         let remaining_len = self.len();
-        let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
+        let remaining_len_bytes = write_fixed_header(buffer, 0x82, remaining_len)?;
 
         // write packet id
         buffer.put_u16(self.pkid);
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index b5fc2ee..fb4381f 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -76,9 +76,8 @@ impl UnsubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
-        buffer.put_u8(0xB0);
         let remaining_len = self.len();
-        let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
+        let remaining_len_bytes = write_fixed_header(buffer, 0xB0, remaining_len)?;
 
         buffer.put_u16(self.pkid);
 
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 8619126..fd2cb4d 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -59,11 +59,9 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
-        buffer.put_u8(0xA2);
-
-        // write remaining length
+        // write packet type and remaining length
         let remaining_len = self.len();
-        let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
+        let remaining_len_bytes = write_fixed_header(buffer, 0xA2, remaining_len)?;
 
         // write packet id
         buffer.put_u16(self.pkid);
-- 
2.43.0


From e9c7f7bea4c650a80da3006e282d00b70334bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 16/16] fix: a subscription identifier that is too large is
 written in part

write returned PayloadTooLong after the packet's first fields were put into
the buffer.
---
 src/v5/publish.rs   | 7 +++++++
 src/v5/subscribe.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 7a4b5e5..fa0a6e5 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -100,6 +100,13 @@ impl Publish {
             return Err(Error::PacketIdZero);
         }
 
+        if let Some(properties) = &self.properties {
+            let mut ids = properties.subscription_identifiers.iter();
+            if ids.any(|id| *id > 268_435_455) {
+                return Err(Error::PayloadTooLong);
+            }
+        }
+
         let len = self.len();
 
         let dup = self.dup as u8;
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index f2e9c66..87f569d 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -124,6 +124,11 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        let id = self.properties.as_ref().and_then(|properties| properties.id);
+        if id.map_or(false, |id| id > 268_435_455) {
+            return Err(Error::PayloadTooLong);
+        }
+
         // write packet type and remaining length
         let remaining_len = self.len();
         let remaining_len_bytes = write_fixed_header(buffer, 0x82, remaining_len)?;
-- 
2.43.0

