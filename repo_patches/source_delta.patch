From ec6988b8daf91021224c33d7fc18dc2aa6e76d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 01/28] fix: reject variable byte integers that are not
 minimally encoded

A property length (or Subscription Identifier) with superfluous bytes was
accepted, and the size of the resulting packet was computed from the bytes
consumed, so it disagreed with its own serialisation.
---
 src/mqtt/packet/variable_byte_integer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt/packet/variable_byte_integer.rs b/src/mqtt/packet/variable_byte_integer.rs
index 5f29816..7007bb3 100644
--- a/src/mqtt/packet/variable_byte_integer.rs
+++ b/src/mqtt/packet/variable_byte_integer.rs
@@ -111,6 +111,10 @@ impl VariableByteInteger {
             read.push(b);
 
             if (b & 0x80) == 0 {
+                // MQTT-1.5.5-1: the encoded value must use the minimum number of bytes
+                if i > 0 && b == 0 {
+                    return DecodeResult::Err("Malformed VariableByteInteger: not minimal");
+                }
                 // complete
                 return match Self::from_u32(value) {
                     Some(vbi) => DecodeResult::Ok(vbi, i + 1),
-- 
2.43.0


From 29fccdaa1e61a9512673bb692ceb522dd1ca32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 02/28] fix: PUBLISH parsers apply the topic name and packet
 identifier rules of the builders

Packet identifier 0 (QoS > 0), topic names containing wildcard characters and
empty topic names without a Topic Alias were accepted from the wire; the
identifier 0 later made the automatic response panic.
---
 src/mqtt/packet/v3_1_1/publish.rs |  6 ++++++
 src/mqtt/packet/v5_0/publish.rs   | 23 +++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index e8075aa..236d8bd 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -628,6 +628,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().is_empty() || topic_name.as_str().contains(['#', '+']) {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
@@ -645,6 +648,9 @@ where
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
             cursor += buffer_size;
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             Some(buf)
         } else {
             None
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 6d38a21..e7772ec 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -967,6 +967,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().contains(['#', '+']) {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
@@ -984,20 +987,32 @@ where
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
             cursor += buffer_size;
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             Some(buf)
         } else {
             None
         };
 
-        let (property_length, props) = if cursor < data_arc.len() {
+        let (property_length, props, property_validation) = if cursor < data_arc.len() {
             let (props, consumed) = Properties::parse(&data_arc[cursor..])?;
             cursor += consumed;
-            validate_publish_properties(&props)?;
+            let property_validation = validate_publish_properties(&props)?;
             let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
-            (prop_len, props)
+            (prop_len, props, property_validation)
         } else {
-            (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
+            (
+                VariableByteInteger::from_u32(0).unwrap(),
+                Properties::new(),
+                PropertyValidation::ValidWithoutTopicAlias,
+            )
         };
+        if topic_name.as_str().is_empty()
+            && property_validation != PropertyValidation::ValidWithTopicAlias
+        {
+            return Err(MqttError::TopicAliasInvalid);
+        }
 
         let payload_len = data_arc.len() - cursor;
         let payload = if payload_len > 0 {
-- 
2.43.0


From 7718656b0bee2b92972ceb45ea070ddf7c2f56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 03/28] fix: reject packet identifier 0 when parsing SUBSCRIBE,
 SUBACK, UNSUBSCRIBE and UNSUBACK

---
 src/mqtt/packet/v3_1_1/suback.rs      | 3 +++
 src/mqtt/packet/v3_1_1/subscribe.rs   | 3 +++
 src/mqtt/packet/v3_1_1/unsuback.rs    | 3 +++
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 3 +++
 src/mqtt/packet/v5_0/suback.rs        | 3 +++
 src/mqtt/packet/v5_0/subscribe.rs     | 3 +++
 src/mqtt/packet/v5_0/unsuback.rs      | 3 +++
 src/mqtt/packet/v5_0/unsubscribe.rs   | 3 +++
 8 files changed, 24 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index 2ce652b..bb81490 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -322,6 +322,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index f9049ff..a440d7f 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -316,6 +316,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 70ca4b3..67efb51 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -349,6 +349,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index 1898c15..ee52a45 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -331,6 +331,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 1367aa0..528e3d2 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -366,6 +366,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index ae98c80..99d71cc 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -336,6 +336,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c63e7ee..c4ac22b 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -361,6 +361,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 178f354..20b1f5e 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -347,6 +347,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
-- 
2.43.0


From 264295913e6ebc375a973c67310e6aef59a2dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 04/28] fix: v3.1.1 UNSUBACK builder writes the Remaining
 Length of the identifier width

The builder wrote Remaining Length 2 for 32-bit packet identifiers as well.
---
 src/mqtt/packet/v3_1_1/unsuback.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 67efb51..ee1ac7b 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -470,7 +470,8 @@ where
         self.validate()?;
 
         let packet_id_buf = self.packet_id_buf.unwrap();
-        let remaining_length = VariableByteInteger::from_u32(2).unwrap(); // packet_id(2)
+        let remaining_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback.as_u8()],
-- 
2.43.0


From c6d5ec8f85da9310a0730ce27ed011632e52cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 05/28] fix: SUBSCRIBE may carry at most one Subscription
 Identifier (MQTT-3.8.2.1.2)

---
 src/mqtt/packet/v5_0/subscribe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 99d71cc..1baddd7 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -870,12 +870,16 @@ where
 /// // This would be valid for SUBSCRIBE packets
 /// ```
 fn validate_subscribe_properties(props: &Properties) -> Result<(), MqttError> {
+    let mut count_subscription_identifier = 0;
     for prop in props {
         match prop {
-            Property::SubscriptionIdentifier(_) => {}
+            Property::SubscriptionIdentifier(_) => count_subscription_identifier += 1,
             Property::UserProperty(_) => {}
             _ => return Err(MqttError::ProtocolError),
         }
     }
+    if count_subscription_identifier > 1 {
+        return Err(MqttError::ProtocolError);
+    }
     Ok(())
 }
-- 
2.43.0


From 77ba4e4c54234cf89ec460d5380fb870de848ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 06/28] fix: reject reserved CONNECT and CONNACK flag bits and
 inconsistent will flags when parsing

---
 src/mqtt/packet/v3_1_1/connack.rs |  4 ++++
 src/mqtt/packet/v3_1_1/connect.rs | 11 +++++++++++
 src/mqtt/packet/v5_0/connack.rs   |  4 ++++
 src/mqtt/packet/v5_0/connect.rs   | 11 +++++++++++
 4 files changed, 30 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connack.rs b/src/mqtt/packet/v3_1_1/connack.rs
index e8ec6ec..7181271 100644
--- a/src/mqtt/packet/v3_1_1/connack.rs
+++ b/src/mqtt/packet/v3_1_1/connack.rs
@@ -388,6 +388,10 @@ impl Connack {
         }
 
         let flags = data[0];
+        // Bits 7-1 are reserved and must be 0 (MQTT-3.2.2-1)
+        if (flags & 0b1111_1110) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
         let session_present = (flags & 0x01) != 0;
 
         let code = data[1];
diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 3bb1dc2..bc7bfa9 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -559,6 +559,17 @@ impl Connect {
         let connect_flags = data[cursor];
         let connect_flags_buf = [connect_flags];
         cursor += 1;
+        // Reserved bit must be 0 (MQTT-3.1.2-3)
+        if (connect_flags & 0b0000_0001) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
+        // Will QoS must not be 3, and Will QoS / Will Retain require the Will Flag
+        let will_bits = connect_flags & 0b0011_1000;
+        if (will_bits & 0b0001_1000) == 0b0001_1000
+            || ((connect_flags & 0b0000_0100) == 0 && will_bits != 0)
+        {
+            return Err(MqttError::MalformedPacket);
+        }
 
         // Keep Alive
         if data.len() < cursor + 2 {
diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 63fe40b..737c009 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -410,6 +410,10 @@ impl Connack {
         }
         let flags = data[cursor];
         cursor += 1;
+        // Bits 7-1 are reserved and must be 0 (MQTT-3.2.2-1)
+        if (flags & 0b1111_1110) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
         let _session = (flags & 0x01) != 0;
         let code = data[cursor];
         cursor += 1;
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 7a27792..62fa6ca 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -589,6 +589,17 @@ impl Connect {
         let connect_flags = data[cursor];
         let connect_flags_buf = [connect_flags];
         cursor += 1;
+        // Reserved bit must be 0 (MQTT-3.1.2-3)
+        if (connect_flags & 0b0000_0001) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
+        // Will QoS must not be 3, and Will QoS / Will Retain require the Will Flag
+        let will_bits = connect_flags & 0b0011_1000;
+        if (will_bits & 0b0001_1000) == 0b0001_1000
+            || ((connect_flags & 0b0000_0100) == 0 && will_bits != 0)
+        {
+            return Err(MqttError::MalformedPacket);
+        }
 
         // Keep Alive
         if data.len() < cursor + 2 {
-- 
2.43.0


From 9f8f34d062705b9580dcd5dffda5977d57c522b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 07/28] fix: CONNECT builder: a repeated will_message replaces
 the will flags, will properties need a will

Calling will_message twice OR-ed the QoS bits (up to the invalid QoS 3), and
will properties without a will message were kept in the packet but never
serialised.
---
 src/mqtt/packet/v3_1_1/connect.rs | 1 +
 src/mqtt/packet/v5_0/connect.rs   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index bc7bfa9..b4c9860 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -799,6 +799,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Replace QoS and retain of an earlier call
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 62fa6ca..6ce199e 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -847,6 +847,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Replace QoS and retain of an earlier call
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
@@ -1012,6 +1013,10 @@ impl ConnectBuilder {
         }
 
         if let Some(ref will_props) = self.will_props {
+            // Will properties are only part of the packet together with a will message
+            if !will_flag && !will_props.is_empty() {
+                return Err(MqttError::ProtocolError);
+            }
             validate_will_properties(will_props)?;
         }
 
-- 
2.43.0


From ee21aacf30388bd51e70247bea53ae08821779eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 08/28] fix: PUBLISH too large for the Remaining Length is an
 error instead of a panic

---
 src/mqtt/packet/v3_1_1/publish.rs |  5 ++++-
 src/mqtt/packet/v5_0/publish.rs   | 23 ++++++++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 236d8bd..e0617f2 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -1070,7 +1070,10 @@ where
             remaining += mem::size_of::<PacketIdType>();
         }
         remaining += payload.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = u32::try_from(remaining)
+            .ok()
+            .and_then(VariableByteInteger::from_u32)
+            .ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericPublish {
             fixed_header,
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index e7772ec..984b912 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -543,7 +543,7 @@ where
             .retain(|prop| !matches!(prop, crate::mqtt::packet::Property::TopicAlias(_)));
 
         // Recalculate property_length and remaining_length
-        self.recalculate_lengths();
+        self.try_recalculate_lengths()?;
 
         Ok(self)
     }
@@ -643,7 +643,7 @@ where
         self.topic_name_extracted = true;
 
         // Recalculate remaining_length (property_length stays the same)
-        self.recalculate_lengths();
+        self.try_recalculate_lengths()?;
 
         Ok(self)
     }
@@ -753,9 +753,15 @@ where
     /// - Property length based on the current properties
     /// - Remaining length including topic name, packet ID (if QoS > 0), properties, and payload
     fn recalculate_lengths(&mut self) {
+        self.try_recalculate_lengths().unwrap();
+    }
+
+    /// Recalculates the lengths, failing if the packet became too large to be encoded
+    fn try_recalculate_lengths(&mut self) -> Result<(), MqttError> {
         // Calculate property length
         let props_size: usize = self.props.size();
-        self.property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        self.property_length =
+            VariableByteInteger::from_u32(props_size as u32).ok_or(MqttError::PacketTooLarge)?;
 
         // Calculate remaining length
         let mut remaining_size = self.topic_name_buf.size();
@@ -775,7 +781,11 @@ where
         // Add payload size
         remaining_size += self.payload_buf.len();
 
-        self.remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        self.remaining_length = u32::try_from(remaining_size)
+            .ok()
+            .and_then(VariableByteInteger::from_u32)
+            .ok_or(MqttError::PacketTooLarge)?;
+        Ok(())
     }
 
     /// Returns the total size of the PUBLISH packet in bytes
@@ -1405,7 +1415,10 @@ where
         }
         remaining += property_length.size() + props_size;
         remaining += payload.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = u32::try_from(remaining)
+            .ok()
+            .and_then(VariableByteInteger::from_u32)
+            .ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericPublish {
             fixed_header,
-- 
2.43.0


From d9115aeb11011ec0290fa5cadd8704a1aaa7daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 09/28] fix: ValueAllocator: out-of-range values are not used,
 releasing a free value is a no-op

is_used answered true for values that can never be handed out (so
release_packet_id(0) reached an assertion), and releasing a free value corrupted
the interval set or overflowed at the type's maximum.
---
 src/mqtt/common/value_allocator.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 7c22238..39ce148 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -118,6 +118,12 @@ where
     pub fn deallocate(&mut self, value: T) {
         assert!(self.lowest <= value && value <= self.highest);
 
+        // Releasing a value that is already free changes nothing
+        // (an interval containing the value compares equal to it)
+        if self.pool.contains(&ValueInterval::new_single(value)) {
+            return;
+        }
+
         let right = self
             .pool
             .range(ValueInterval::new_single(value)..)
@@ -167,7 +173,9 @@ where
     }
 
     pub fn is_used(&self, value: T) -> bool {
-        !self.pool.iter().any(|iv| iv.contains(value))
+        self.lowest <= value
+            && value <= self.highest
+            && !self.pool.iter().any(|iv| iv.contains(value))
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 83ee66d441b3316e221da98bd3769f884a092d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 10/28] fix: notify_closed forgets everything negotiated or
 half-received on the closed connection

---
 src/mqtt/connection/core.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 75f227e..bbbb8a4 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -735,6 +735,16 @@ where
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
 
+        // Forget everything negotiated or left half-done on the closed connection
+        self.publish_send_max = None;
+        self.publish_recv_max = None;
+        self.publish_send_count = 0;
+        self.publish_recv.clear();
+        self.pingreq_keep_alive_ms = 0;
+        self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
+        self.packet_builder.reset();
+
         // Release packet IDs for SUBACK
         for packet_id in self.pid_suback.drain() {
             if self.pid_man.is_used_id(packet_id) {
@@ -1226,6 +1236,7 @@ where
         self.is_client = is_client;
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
     }
 
     fn clear_store_related(&mut self) {
-- 
2.43.0


From eec9c332d960a02b0d612436307ad8a2b0463de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 11/28] fix: a new session forgets the handled QoS 2 packet
 identifiers

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index bbbb8a4..8c2e1ce 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1245,6 +1245,7 @@ where
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
         self.store.clear();
+        self.qos2_publish_handled.clear();
     }
 
     /// Send all stored packets for retransmission
-- 
2.43.0


From 3b5a623fae686b16fff348f531973a08b23f8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 12/28] fix: offline publishing keeps the store across
 connections, CONNACK with expiry 0 still resends, no accepted PUBLISH is
 dropped

---
 src/mqtt/connection/core.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 8c2e1ce..b5545df 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1230,7 +1230,7 @@ where
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
         self.publish_recv.clear();
-        self.need_store = false;
+        self.need_store = self.offline_publish;
         self.pid_suback.clear();
         self.pid_unsuback.clear();
         self.is_client = is_client;
@@ -1544,9 +1544,7 @@ where
                 ));
                 return events;
             }
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.need_store || self.status != ConnectionStatus::Connected {
                 let store_packet = packet.clone().set_dup(true);
                 self.store.add(store_packet.try_into().unwrap()).unwrap();
             } else {
@@ -1607,9 +1605,7 @@ where
                 return events;
             }
 
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.need_store || self.status != ConnectionStatus::Connected {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
                     // Topic name is empty, must validate topic alias
@@ -2708,6 +2704,8 @@ where
                 if packet.reason_code() == ConnectReasonCode::Success {
                     self.status = ConnectionStatus::Connected;
 
+                    let mut session_ends_on_close = false;
+
                     // Process properties
                     for prop in packet.props() {
                         match prop {
@@ -2746,12 +2744,8 @@ where
                                 }
                             }
                             Property::SessionExpiryInterval(val) => {
-                                if val.val() == 0 {
-                                    self.need_store = false;
-                                    self.clear_store_related();
-                                } else {
-                                    self.need_store = true;
-                                }
+                                self.need_store = val.val() != 0 || self.offline_publish;
+                                session_ends_on_close = !self.need_store;
                             }
                             _ => {
                                 // Ignore other properties
@@ -2761,6 +2755,10 @@ where
 
                     if packet.session_present() {
                         events.extend(self.send_stored());
+                        if session_ends_on_close {
+                            // Sent on this connection, and not to be kept beyond it
+                            self.store.clear();
+                        }
                     } else {
                         self.clear_store_related();
                     }
-- 
2.43.0


From bf7e7b5bb79b22cd6ba2c8ebf5fc1e3fe75bfa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 13/28] fix: a received CONNECT with Topic Alias Maximum 0 does
 not panic, a closed non-persistent session leaves no stored packet

---
 src/mqtt/connection/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index b5545df..aba90fa 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -764,6 +764,7 @@ where
         // If not storing session state, clear QoS2 states and release publish-related packet IDs
         if !self.need_store {
             self.qos2_publish_handled.clear();
+            self.store.clear();
 
             // Release packet IDs for PUBACK
             for packet_id in self.pid_puback.drain() {
@@ -2623,7 +2624,7 @@ where
                     self.clear_store_related();
                 }
                 packet.props().iter().for_each(|prop| match prop {
-                    Property::TopicAliasMaximum(p) => {
+                    Property::TopicAliasMaximum(p) if p.val() != 0 => {
                         self.topic_alias_send = Some(TopicAliasSend::new(p.val()));
                     }
                     Property::ReceiveMaximum(p) => {
-- 
2.43.0


From 08bd478d413274d7a7017767ec059e712d9c6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 14/28] fix: PUBREL queued while not connected is acknowledged
 later, identifiers awaiting PUBREL are released on close, no panic on a
 second PUBREL

---
 src/mqtt/connection/core.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index aba90fa..5f84b3c 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -151,6 +151,8 @@ where
     pid_puback: HashSet<PacketIdType>,
     pid_pubrec: HashSet<PacketIdType>,
     pid_pubcomp: HashSet<PacketIdType>,
+    // PUBREC has been received, PUBREL has not been sent nor stored yet
+    pid_pubrel: HashSet<PacketIdType>,
 
     need_store: bool,
     // Store for retransmission packets
@@ -261,6 +263,7 @@ where
             pid_puback: HashSet::default(),
             pid_pubrec: HashSet::default(),
             pid_pubcomp: HashSet::default(),
+            pid_pubrel: HashSet::default(),
             need_store: false,
             store: GenericStore::new(),
             offline_publish: false,
@@ -789,6 +792,14 @@ where
                     events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                 }
             }
+
+            // Release packet IDs whose PUBREL was not sent
+            for packet_id in self.pid_pubrel.drain() {
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
+            }
         }
 
         // Cancel all timers
@@ -1245,6 +1256,7 @@ where
         self.pid_puback.clear();
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
+        self.pid_pubrel.clear();
         self.store.clear();
         self.qos2_publish_handled.clear();
     }
@@ -1853,17 +1865,21 @@ where
             return events;
         }
         if self.need_store {
-            self.store.add(packet.clone().try_into().unwrap()).unwrap();
+            if let Err(e) = self.store.add(packet.clone().try_into().unwrap()) {
+                events.push(GenericEvent::NotifyError(e));
+                return events;
+            }
         }
+        self.pid_pubrel.remove(&packet_id);
+        self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
@@ -1889,17 +1905,21 @@ where
             return events;
         }
         if self.need_store {
-            self.store.add(packet.clone().try_into().unwrap()).unwrap();
+            if let Err(e) = self.store.add(packet.clone().try_into().unwrap()) {
+                events.push(GenericEvent::NotifyError(e));
+                return events;
+            }
         }
+        self.pid_pubrel.remove(&packet_id);
+        self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
@@ -3081,6 +3101,7 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
+                    self.pid_pubrel.insert(packet_id);
                     if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                         let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
                             .packet_id(packet_id)
@@ -3115,6 +3136,7 @@ where
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
                     if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                        self.pid_pubrel.insert(packet_id);
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
-- 
2.43.0


From 08225662c1726b55d2115468df7562774a6815a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 15/28] fix: retransmitted packets count for the Receive
 Maximum and refresh the PINGREQ timer, oversize ones leave nothing in flight

---
 src/mqtt/connection/core.rs | 63 +++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 5f84b3c..f203d48 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -176,7 +176,7 @@ where
     publish_recv_max: Option<u16>,
     // Maximum number of concurrent PUBLISH packets for sending
     // Current count of PUBLISH packets being sent
-    publish_send_count: u16,
+    publish_send_count: u32,
 
     // Set of received PUBLISH packets (for flow control)
     publish_recv: HashSet<PacketIdType>,
@@ -863,7 +863,7 @@ where
     pub fn get_receive_maximum_vacancy_for_send(&self) -> Option<u16> {
         // If publish_recv_max is set, return the remaining capacity
         self.publish_send_max
-            .map(|max| max.saturating_sub(self.publish_send_count))
+            .map(|max| (max as u32).saturating_sub(self.publish_send_count) as u16)
     }
 
     /// Enable or disable offline publishing
@@ -1166,10 +1166,8 @@ where
             self.pid_puback.remove(&packet_id);
             self.pid_pubrec.remove(&packet_id);
 
-            // For V5.0, decrement publish send count if flow control is enabled
-            if self.publish_send_max.is_some() && self.publish_send_count > 0 {
-                self.publish_send_count -= 1;
-            }
+            // The exchange does not count for flow control any more
+            self.publish_send_count = self.publish_send_count.saturating_sub(1);
 
             // Release the packet ID if it's managed
             if self.pid_man.is_used_id(packet_id) {
@@ -1264,23 +1262,44 @@ where
     /// Send all stored packets for retransmission
     fn send_stored(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        // All exchanges of the session that are not completed are exchanges of this connection
+        let mut count = self.pid_pubrel.len() as u32;
         self.store.for_each(|packet| {
+            let packet_id = packet.packet_id();
             if packet.size() > self.maximum_packet_size_send as usize {
-                let packet_id = packet.packet_id();
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                self.pid_puback.remove(&packet_id);
+                self.pid_pubrec.remove(&packet_id);
+                self.pid_pubcomp.remove(&packet_id);
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
                 return false; // Remove from store
             }
+            count += 1;
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.clone().into(),
                 release_packet_id_if_send_error: None,
             });
             true // Keep in store
         });
+        self.publish_send_count = count;
 
         events
     }
 
+    /// Send all stored packets, and refresh the PINGREQ timer if anything has been sent
+    fn resend_stored(&mut self, events: &mut Vec<GenericEvent<PacketIdType>>) {
+        let resent = self.send_stored();
+        let sent = resent
+            .iter()
+            .any(|e| matches!(e, GenericEvent::RequestSendPacket { .. }));
+        events.extend(resent);
+        if sent {
+            self.send_post_process(events);
+        }
+    }
+
     /// Validate topic alias and return the associated topic name
     ///
     /// Checks if the topic alias is valid and retrieves the corresponding topic name
@@ -1731,7 +1750,7 @@ where
         // Check receive_maximum for sending (QoS 1 and 2 packets)
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             if let Some(max) = self.publish_send_max {
-                if self.publish_send_count == max {
+                if self.publish_send_count >= max as u32 {
                     events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
                     if let Some(packet_id) = packet_id_opt {
                         if self.pid_man.is_used_id(packet_id) {
@@ -1744,6 +1763,8 @@ where
                     }
                     return events;
                 }
+            }
+            if self.status == ConnectionStatus::Connected {
                 self.publish_send_count += 1;
             }
         }
@@ -1910,10 +1931,12 @@ where
                 return events;
             }
         }
-        self.pid_pubrel.remove(&packet_id);
-        self.pid_pubcomp.insert(packet_id);
+        let known = self.pid_pubrel.remove(&packet_id) | !self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
+            if !known {
+                self.publish_send_count += 1;
+            }
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
@@ -2697,7 +2720,7 @@ where
                 if packet.return_code() == ConnectReturnCode::Accepted {
                     self.status = ConnectionStatus::Connected;
                     if packet.session_present() {
-                        events.extend(self.send_stored());
+                        self.resend_stored(&mut events);
                     } else {
                         self.clear_store_related();
                     }
@@ -2775,7 +2798,7 @@ where
                     }
 
                     if packet.session_present() {
-                        events.extend(self.send_stored());
+                        self.resend_stored(&mut events);
                         if session_ends_on_close {
                             // Sent on this connection, and not to be kept beyond it
                             self.store.clear();
@@ -3073,9 +3096,7 @@ where
                         self.pid_man.release_id(packet_id);
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
-                    if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
-                    }
+                    self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
@@ -3149,9 +3170,7 @@ where
                             self.pid_man.release_id(packet_id);
                             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                         }
-                        if self.publish_send_max.is_some() {
-                            self.publish_send_count -= 1;
-                        }
+                        self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
@@ -3279,9 +3298,7 @@ where
                         self.pid_man.release_id(packet_id);
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
-                    if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
-                    }
+                    self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
-- 
2.43.0


From ffbbc32e3674373f1bc8bed508c59f66f15edf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 16/28] fix: CONNACK on an established connection is a protocol
 error that leaves the session untouched

---
 src/mqtt/connection/core.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f203d48..a00a723 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -746,6 +746,7 @@ where
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
         self.pingreq_recv_timeout_ms = 0;
+        self.is_client = false;
         self.packet_builder.reset();
 
         // Release packet IDs for SUBACK
@@ -2709,11 +2710,25 @@ where
         events
     }
 
+    /// CONNACK is a protocol error on an established connection, while accepting a connection
+    /// as a server, and after the connection opened by this client has been disconnected.
+    fn can_accept_connack(&self) -> bool {
+        match self.status {
+            ConnectionStatus::Connecting => self.is_client,
+            ConnectionStatus::Connected => false,
+            ConnectionStatus::Disconnected => !self.is_client,
+        }
+    }
+
     fn process_recv_v3_1_1_connack(
         &mut self,
         raw_packet: RawPacket,
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        if !self.can_accept_connack() {
+            Self::handle_v3_1_1_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
 
         match v3_1_1::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
@@ -2742,6 +2757,10 @@ where
         raw_packet: RawPacket,
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        if !self.can_accept_connack() {
+            self.handle_v5_0_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
 
         match v5_0::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
-- 
2.43.0


From 008ba4007c3d2a66b21c7f0a2205e1c88e5d137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 17/28] fix: v5.0 PUBLISH is checked completely before any
 state changes, automatic topic aliases respect the Maximum Packet Size

---
 src/mqtt/connection/core.rs  | 255 +++++++++++++++++------------------
 src/mqtt/connection/store.rs |   5 +
 2 files changed, 128 insertions(+), 132 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index a00a723..b265e6d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1608,28 +1608,19 @@ where
         &mut self,
         mut packet: v5_0::GenericPublish<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
-        if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
-        }
-
         let mut events = Vec::new();
+        let packet_id_opt = packet.packet_id();
         let mut release_packet_id_if_send_error: Option<PacketIdType> = None;
-        let mut topic_alias_validated = false;
-        if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
-            let packet_id = packet.packet_id().unwrap();
-            if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
-            {
-                events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-                if self.pid_man.is_used_id(packet_id) {
-                    self.pid_man.release_id(packet_id);
-                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                }
-                return events;
-            }
+        let connected = self.status == ConnectionStatus::Connected;
 
-            // Extract topic_name from TopicAlias and remove TopicAlias property, then store it
+        // Check everything first. A refused packet leaves nothing behind.
+        if !self.validate_maximum_packet_size_send(packet.size()) {
+            return self.refuse_send(packet_id_opt, MqttError::PacketTooLarge);
+        }
+        if !connected && (packet_id_opt.is_none() || !(self.need_store || self.offline_publish)) {
+            return self.refuse_send(packet_id_opt, MqttError::PacketNotAllowedToSend);
+        }
+        if let Some(packet_id) = packet_id_opt {
             if !self.pid_man.is_used_id(packet_id) {
                 error!("packet_id {packet_id} must be acquired or registered");
                 events.push(GenericEvent::NotifyError(
@@ -1637,31 +1628,49 @@ where
                 ));
                 return events;
             }
-
-            if self.need_store || self.status != ConnectionStatus::Connected {
-                let ta_opt = Self::get_topic_alias_from_props(packet.props());
-                if packet.topic_name().is_empty() {
-                    // Topic name is empty, must validate topic alias
-                    let topic_opt = self.validate_topic_alias(ta_opt);
-                    if topic_opt.is_none() {
-                        events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                        return events;
-                    }
-                    topic_alias_validated = true;
-                    let store_packet = packet
-                        .clone()
-                        .remove_topic_alias_add_topic(topic_opt.unwrap())
-                        .unwrap()
-                        .set_dup(true);
-                    self.store.add(store_packet.try_into().unwrap()).unwrap();
+            // Check receive_maximum for sending (QoS 1 and 2 packets)
+            if let Some(max) = self.publish_send_max {
+                let count = if connected {
+                    self.publish_send_count as usize
                 } else {
-                    // Topic name is not empty, remove topic alias if present
-                    let store_packet = packet.clone().remove_topic_alias().set_dup(true);
-                    self.store.add(store_packet.try_into().unwrap()).unwrap();
+                    // Everything stored is going to be sent on this connection
+                    self.store.len() + self.pid_pubrel.len()
+                };
+                if count >= max as usize {
+                    return self.refuse_send(packet_id_opt, MqttError::ReceiveMaximumExceeded);
+                }
+            }
+        }
+
+        // Check manually provided TopicAlias
+        let ta_opt = Self::get_topic_alias_from_props(packet.props());
+        let mut topic_opt: Option<String> = None;
+        if packet.topic_name().is_empty() {
+            topic_opt = self.validate_topic_alias(ta_opt);
+            if topic_opt.is_none() {
+                return self.refuse_send(packet_id_opt, MqttError::PacketNotAllowedToSend);
+            }
+        } else if let Some(ta) = ta_opt {
+            if !self.validate_topic_alias_range(ta) {
+                return self.refuse_send(packet_id_opt, MqttError::PacketNotAllowedToSend);
+            }
+        }
+
+        if let Some(packet_id) = packet_id_opt {
+            if self.need_store || !connected {
+                // Store with the full topic name and without TopicAlias
+                let store_packet = match topic_opt {
+                    Some(topic) => packet.clone().remove_topic_alias_add_topic(topic),
+                    None => Ok(packet.clone().remove_topic_alias()),
+                };
+                let store_packet = match store_packet {
+                    Ok(p) => p.set_dup(true),
+                    Err(e) => return self.refuse_send(packet_id_opt, e),
+                };
+                if let Err(e) = self.store.add(store_packet.try_into().unwrap()) {
+                    // The identifier belongs to the packet that is already stored
+                    events.push(GenericEvent::NotifyError(e));
+                    return events;
                 }
             } else {
                 release_packet_id_if_send_error = Some(packet_id);
@@ -1671,31 +1680,14 @@ where
             } else {
                 self.pid_puback.insert(packet_id);
             }
-        } else if self.status != ConnectionStatus::Connected {
-            events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
+        }
+        if !connected {
             return events;
         }
 
-        let packet_id_opt = packet.packet_id();
-        let ta_opt = Self::get_topic_alias_from_props(packet.props());
-        if packet.topic_name().is_empty() {
-            // process manually provided TopicAlias
-            if !topic_alias_validated && self.validate_topic_alias(ta_opt).is_none() {
-                events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-                if let Some(packet_id) = packet_id_opt {
-                    if self.pid_man.is_used_id(packet_id) {
-                        self.pid_man.release_id(packet_id);
-                        self.store.erase_publish(packet_id);
-                        self.pid_puback.remove(&packet_id);
-                        self.pid_pubrec.remove(&packet_id);
-                        events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                    }
-                }
-                return events;
-            }
-        } else if let Some(ta) = ta_opt {
-            // Topic alias is provided
-            if self.validate_topic_alias_range(ta) {
+        if !packet.topic_name().is_empty() {
+            if let Some(ta) = ta_opt {
+                // Topic alias is provided
                 trace!(
                     "topic alias: {} - {} is registered.",
                     packet.topic_name(),
@@ -1705,80 +1697,79 @@ where
                     topic_alias_send.insert_or_update(packet.topic_name(), ta);
                 }
             } else {
-                events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-                if let Some(packet_id) = packet_id_opt {
-                    if self.pid_man.is_used_id(packet_id) {
-                        self.pid_man.release_id(packet_id);
-                        self.store.erase_publish(packet_id);
-                        self.pid_puback.remove(&packet_id);
-                        self.pid_pubrec.remove(&packet_id);
-                        events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                    }
-                }
-                return events;
-            }
-        } else if self.status == ConnectionStatus::Connected {
-            // process auto applying TopicAlias if the option is enabled
-            if self.auto_map_topic_alias_send {
-                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
-                    if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
-                        trace!(
-                            "topic alias: {} - {} is found.",
-                            packet.topic_name(),
-                            found_ta
-                        );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
-                    } else {
-                        let lru_ta = topic_alias_send.get_lru_alias();
-                        topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
-                        packet = packet.add_topic_alias(lru_ta);
-                    }
-                }
-            } else if self.auto_replace_topic_alias_send {
-                if let Some(ref topic_alias_send) = self.topic_alias_send {
-                    if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
-                        trace!(
-                            "topic alias: {} - {} is found.",
-                            packet.topic_name(),
-                            found_ta
-                        );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
-                    }
-                }
+                // process auto applying TopicAlias if the option is enabled
+                packet = self.auto_apply_topic_alias(packet);
             }
         }
+        if packet_id_opt.is_some() {
+            self.publish_send_count += 1;
+        }
 
-        // Check receive_maximum for sending (QoS 1 and 2 packets)
-        if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
-            if let Some(max) = self.publish_send_max {
-                if self.publish_send_count >= max as u32 {
-                    events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
-                    if let Some(packet_id) = packet_id_opt {
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            self.store.erase_publish(packet_id);
-                            self.pid_puback.remove(&packet_id);
-                            self.pid_pubrec.remove(&packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                    }
-                    return events;
-                }
-            }
-            if self.status == ConnectionStatus::Connected {
-                self.publish_send_count += 1;
+        events.push(GenericEvent::RequestSendPacket {
+            packet: packet.into(),
+            release_packet_id_if_send_error,
+        });
+        self.send_post_process(&mut events);
+
+        events
+    }
+
+    /// Refuse to send a packet: report the error and release the packet identifier it carries
+    fn refuse_send(
+        &mut self,
+        packet_id_opt: Option<PacketIdType>,
+        e: MqttError,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        let mut events = vec![GenericEvent::NotifyError(e)];
+        if let Some(packet_id) = packet_id_opt {
+            if self.pid_man.is_used_id(packet_id) {
+                self.pid_man.release_id(packet_id);
+                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
             }
         }
+        events
+    }
 
-        if self.status == ConnectionStatus::Connected {
-            events.push(GenericEvent::RequestSendPacket {
-                packet: packet.into(),
-                release_packet_id_if_send_error,
-            });
-            self.send_post_process(&mut events);
+    /// Apply TopicAlias to a PUBLISH packet that has the topic name and no TopicAlias
+    ///
+    /// The packet is returned as it is if the rewritten packet is too large to be sent.
+    fn auto_apply_topic_alias(
+        &mut self,
+        packet: v5_0::GenericPublish<PacketIdType>,
+    ) -> v5_0::GenericPublish<PacketIdType> {
+        // TopicAlias property (3), and one more byte for each of the two length fields
+        const MAX_GROWTH: usize = 5;
+        let max_size = self.maximum_packet_size_send as usize;
+        if packet.size() + MAX_GROWTH >= MQTT_PACKET_SIZE_NO_LIMIT as usize {
+            return packet;
+        }
+        let Some(ref mut topic_alias_send) = self.topic_alias_send else {
+            return packet;
+        };
+        if self.auto_map_topic_alias_send || self.auto_replace_topic_alias_send {
+            if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
+                trace!(
+                    "topic alias: {} - {} is found.",
+                    packet.topic_name(),
+                    found_ta
+                );
+                let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                return if aliased.size() <= max_size {
+                    aliased
+                } else {
+                    packet
+                };
+            }
         }
-
-        events
+        if self.auto_map_topic_alias_send {
+            let lru_ta = topic_alias_send.get_lru_alias();
+            let aliased = packet.clone().add_topic_alias(lru_ta);
+            if aliased.size() <= max_size {
+                topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
+                return aliased;
+            }
+        }
+        packet
     }
 
     pub(crate) fn process_send_v3_1_1_puback(
diff --git a/src/mqtt/connection/store.rs b/src/mqtt/connection/store.rs
index afb0106..7feb793 100644
--- a/src/mqtt/connection/store.rs
+++ b/src/mqtt/connection/store.rs
@@ -83,6 +83,11 @@ impl<PacketIdType: IsPacketId> GenericStore<PacketIdType> {
         false
     }
 
+    /// Number of packets in the store
+    pub fn len(&self) -> usize {
+        self.map.len()
+    }
+
     /// Clear all stored packets.
     pub fn clear(&mut self) {
         self.map.clear();
-- 
2.43.0


From 4e3a5be853cc97addf63527ed1b285d150cc52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 18/28] fix: a refused PUBLISH, SUBSCRIBE or UNSUBSCRIBE always
 releases its packet identifier

---
 src/mqtt/connection/core.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index b265e6d..00cf63b 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -399,7 +399,7 @@ where
 
         // Return error if versions don't match
         if self.protocol_version != packet_version {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            return self.refuse_send(Self::get_own_packet_id(&packet), MqttError::VersionMismatch);
         }
 
         match packet {
@@ -450,28 +450,28 @@ where
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(Some(p.packet_id()), MqttError::PacketNotAllowedToSend)
                 }
             }
             GenericPacket::V5_0Subscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(Some(p.packet_id()), MqttError::PacketNotAllowedToSend)
                 }
             }
             GenericPacket::V3_1_1Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(Some(p.packet_id()), MqttError::PacketNotAllowedToSend)
                 }
             }
             GenericPacket::V5_0Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(Some(p.packet_id()), MqttError::PacketNotAllowedToSend)
                 }
             }
             // SUBACK/UNSUBACK - Server/Any can send
@@ -1579,7 +1579,11 @@ where
             }
             if self.need_store || self.status != ConnectionStatus::Connected {
                 let store_packet = packet.clone().set_dup(true);
-                self.store.add(store_packet.try_into().unwrap()).unwrap();
+                if let Err(e) = self.store.add(store_packet.try_into().unwrap()) {
+                    // The identifier belongs to the packet that is already stored
+                    events.push(GenericEvent::NotifyError(e));
+                    return events;
+                }
             } else {
                 release_packet_id_if_send_error = Some(packet_id);
             }
@@ -1714,6 +1718,19 @@ where
         events
     }
 
+    /// Get the packet identifier that the sender of the packet has acquired for it
+    fn get_own_packet_id(packet: &GenericPacket<PacketIdType>) -> Option<PacketIdType> {
+        match packet {
+            GenericPacket::V3_1_1Publish(p) => p.packet_id(),
+            GenericPacket::V5_0Publish(p) => p.packet_id(),
+            GenericPacket::V3_1_1Subscribe(p) => Some(p.packet_id()),
+            GenericPacket::V5_0Subscribe(p) => Some(p.packet_id()),
+            GenericPacket::V3_1_1Unsubscribe(p) => Some(p.packet_id()),
+            GenericPacket::V5_0Unsubscribe(p) => Some(p.packet_id()),
+            _ => None,
+        }
+    }
+
     /// Refuse to send a packet: report the error and release the packet identifier it carries
     fn refuse_send(
         &mut self,
@@ -2017,7 +2034,7 @@ where
         packet: v5_0::GenericSubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(Some(packet.packet_id()), MqttError::PacketTooLarge);
         }
 
         let mut events = Vec::new();
@@ -2123,7 +2140,7 @@ where
         packet: v5_0::GenericUnsubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(Some(packet.packet_id()), MqttError::PacketTooLarge);
         }
 
         let mut events = Vec::new();
-- 
2.43.0


From 6b1ab22fa3dacd9fbcd0e4608e8fa221c54e12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 19/28] fix: checked_send releases the packet identifier of a
 packet refused for its version

---
 src/mqtt/connection/core.rs            |  2 +-
 src/mqtt/connection/sendable.rs        |  7 +++-
 src/mqtt/connection/sendable_helper.rs | 46 ++++++++++++++++++--------
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 00cf63b..796b3fa 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1732,7 +1732,7 @@ where
     }
 
     /// Refuse to send a packet: report the error and release the packet identifier it carries
-    fn refuse_send(
+    pub(crate) fn refuse_send(
         &mut self,
         packet_id_opt: Option<PacketIdType>,
         e: MqttError,
diff --git a/src/mqtt/connection/sendable.rs b/src/mqtt/connection/sendable.rs
index 921c635..040a284 100644
--- a/src/mqtt/connection/sendable.rs
+++ b/src/mqtt/connection/sendable.rs
@@ -267,6 +267,11 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         unreachable!("send_auth_v5_0 not implemented for this type")
     }
+
+    /// Get the packet identifier that the sender of the packet has acquired for it
+    fn own_packet_id(&self) -> Option<PacketIdType> {
+        None
+    }
 }
 
 // Generic implementation for specific packet types with compile-time dispatch
@@ -287,7 +292,7 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         // Version check first
         if !T::check(&connection.get_protocol_version()) {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            return connection.refuse_send(self.own_packet_id(), MqttError::VersionMismatch);
         }
 
         trace!("Static dispatch sent: {}", self);
diff --git a/src/mqtt/connection/sendable_helper.rs b/src/mqtt/connection/sendable_helper.rs
index 8b12e83..3771500 100644
--- a/src/mqtt/connection/sendable_helper.rs
+++ b/src/mqtt/connection/sendable_helper.rs
@@ -42,6 +42,24 @@ macro_rules! impl_sendable_helper {
             }
         }
     };
+    // Packets that carry a packet identifier acquired by the sender
+    ($role:ty, $packet_type:ty, $method:ident, $process_method:ident, own_packet_id) => {
+        impl<PacketIdType> SendableHelper<$role, PacketIdType> for $packet_type
+        where
+            PacketIdType: IsPacketId,
+        {
+            fn $method(
+                self,
+                connection: &mut GenericConnection<$role, PacketIdType>,
+            ) -> Vec<GenericEvent<PacketIdType>> {
+                connection.$process_method(self)
+            }
+
+            fn own_packet_id(&self) -> Option<PacketIdType> {
+                self.packet_id().into()
+            }
+        }
+    };
 }
 
 #[rustfmt::skip]
@@ -50,8 +68,8 @@ mod unformatted {
     // Client
     impl_sendable_helper!(role::Client, v3_1_1::Connect,                           send_connect_v3_1_1,         process_send_v3_1_1_connect);
     impl_sendable_helper!(role::Client, v5_0::Connect,                             send_connect_v5_0,           process_send_v5_0_connect);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Client, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, own_packet_id);
+    impl_sendable_helper!(role::Client, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, own_packet_id);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Client, v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -60,10 +78,10 @@ mod unformatted {
     impl_sendable_helper!(role::Client, v5_0::GenericPubrel<PacketIdType>,         send_pubrel_v5_0,            process_send_v5_0_pubrel);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPubcomp<PacketIdType>,      send_pubcomp_v3_1_1,         process_send_v3_1_1_pubcomp);
     impl_sendable_helper!(role::Client, v5_0::GenericPubcomp<PacketIdType>,        send_pubcomp_v5_0,           process_send_v5_0_pubcomp);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe);
-    impl_sendable_helper!(role::Client, v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe);
-    impl_sendable_helper!(role::Client, v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe, own_packet_id);
+    impl_sendable_helper!(role::Client, v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe, own_packet_id);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe, own_packet_id);
+    impl_sendable_helper!(role::Client, v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe, own_packet_id);
     impl_sendable_helper!(role::Client, v3_1_1::Pingreq,                           send_pingreq_v3_1_1,         process_send_v3_1_1_pingreq);
     impl_sendable_helper!(role::Client, v5_0::Pingreq,                             send_pingreq_v5_0,           process_send_v5_0_pingreq);
     impl_sendable_helper!(role::Client, v3_1_1::Disconnect,                        send_disconnect_v3_1_1,      process_send_v3_1_1_disconnect);
@@ -73,8 +91,8 @@ mod unformatted {
     // Server
     impl_sendable_helper!(role::Server, v3_1_1::Connack,                           send_connack_v3_1_1,         process_send_v3_1_1_connack);
     impl_sendable_helper!(role::Server, v5_0::Connack,                             send_connack_v5_0,           process_send_v5_0_connack);
-    impl_sendable_helper!(role::Server, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Server, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Server, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, own_packet_id);
+    impl_sendable_helper!(role::Server, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, own_packet_id);
     impl_sendable_helper!(role::Server, v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Server, v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Server, v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -98,8 +116,8 @@ mod unformatted {
     impl_sendable_helper!(role::Any,    v5_0::Connect,                             send_connect_v5_0,           process_send_v5_0_connect);
     impl_sendable_helper!(role::Any,    v3_1_1::Connack,                           send_connack_v3_1_1,         process_send_v3_1_1_connack);
     impl_sendable_helper!(role::Any,    v5_0::Connack,                             send_connack_v5_0,           process_send_v5_0_connack);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Any,    v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, own_packet_id);
+    impl_sendable_helper!(role::Any,    v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, own_packet_id);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Any,    v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -108,12 +126,12 @@ mod unformatted {
     impl_sendable_helper!(role::Any,    v5_0::GenericPubrel<PacketIdType>,         send_pubrel_v5_0,            process_send_v5_0_pubrel);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPubcomp<PacketIdType>,      send_pubcomp_v3_1_1,         process_send_v3_1_1_pubcomp);
     impl_sendable_helper!(role::Any,    v5_0::GenericPubcomp<PacketIdType>,        send_pubcomp_v5_0,           process_send_v5_0_pubcomp);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe);
-    impl_sendable_helper!(role::Any,    v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe, own_packet_id);
+    impl_sendable_helper!(role::Any,    v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe, own_packet_id);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericSuback<PacketIdType>,       send_suback_v3_1_1,          process_send_v3_1_1_suback);
     impl_sendable_helper!(role::Any,    v5_0::GenericSuback<PacketIdType>,         send_suback_v5_0,            process_send_v5_0_suback);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe);
-    impl_sendable_helper!(role::Any,    v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe, own_packet_id);
+    impl_sendable_helper!(role::Any,    v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe, own_packet_id);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsuback<PacketIdType>,     send_unsuback_v3_1_1,        process_send_v3_1_1_unsuback);
     impl_sendable_helper!(role::Any,    v5_0::GenericUnsuback<PacketIdType>,       send_unsuback_v5_0,          process_send_v5_0_unsuback);
     impl_sendable_helper!(role::Any,    v3_1_1::Pingreq,                           send_pingreq_v3_1_1,         process_send_v3_1_1_pingreq);
-- 
2.43.0


From 7f7baa6cbfd44ce852d7faa539a7776c513a11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 20/28] fix: a rejected v5.0 PUBLISH is not recorded as
 received, a retransmission does not count twice for the Receive Maximum

---
 src/mqtt/connection/core.rs | 78 ++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 49 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 796b3fa..369e8e0 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2925,55 +2925,19 @@ where
             PacketData::Publish(arc) => {
                 match v5_0::GenericPublish::parse(flags, arc.clone()) {
                     Ok((mut packet, _consumed)) => {
-                        let mut already_handled = false;
-                        let mut puback_send = false;
-                        let mut pubrec_send = false;
-
-                        let mut check_receive_maximum =
-                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
-                                if let Some(max) = self.publish_recv_max {
-                                    if self.publish_recv.len() >= max as usize {
-                                        self.handle_v5_0_error(
-                                            MqttError::ReceiveMaximumExceeded,
-                                            events,
-                                        );
-                                        return false;
-                                    }
-                                }
-                                true
-                            };
-
-                        match packet.qos() {
-                            Qos::AtLeastOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
-                                self.publish_recv.insert(packet_id);
-                                if self.auto_pub_response
-                                    && self.status == ConnectionStatus::Connected
-                                {
-                                    puback_send = true;
-                                }
-                            }
-                            Qos::ExactlyOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
-                                self.publish_recv.insert(packet_id);
-
-                                if !self.qos2_publish_handled.insert(packet_id) {
-                                    already_handled = true;
-                                }
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
-                                {
-                                    pubrec_send = true;
-                                }
-                            }
-                            Qos::AtMostOnce => {
-                                // No packet ID handling for QoS 0
+                        // Check receive_maximum. PUBLISH that is already waiting for its
+                        // response does not count twice.
+                        if let (Some(max), Some(packet_id)) =
+                            (self.publish_recv_max, packet.packet_id())
+                        {
+                            if self.publish_recv.len() >= max as usize
+                                && !self.publish_recv.contains(&packet_id)
+                            {
+                                self.handle_v5_0_error(
+                                    MqttError::ReceiveMaximumExceeded,
+                                    &mut events,
+                                );
+                                return events;
                             }
                         }
 
@@ -3038,6 +3002,22 @@ where
                             }
                         }
 
+                        // The packet is valid
+                        let mut already_handled = false;
+                        let mut puback_send = false;
+                        let mut pubrec_send = false;
+                        let connected = self.status == ConnectionStatus::Connected;
+                        if let Some(packet_id) = packet.packet_id() {
+                            self.publish_recv.insert(packet_id);
+                            if packet.qos() == Qos::ExactlyOnce {
+                                already_handled = !self.qos2_publish_handled.insert(packet_id);
+                                pubrec_send =
+                                    connected && (self.auto_pub_response || already_handled);
+                            } else {
+                                puback_send = connected && self.auto_pub_response;
+                            }
+                        }
+
                         // Send response packets
                         if puback_send {
                             let puback = v5_0::GenericPuback::builder()
-- 
2.43.0


From 4c9aa7dd613588f4bc85d51fa51d00020a632af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 21/28] fix: restore_packets tracks only the packets it
 restores, and the restored session is persistent

---
 src/mqtt/connection/core.rs | 105 +++++++++++-------------------------
 1 file changed, 31 insertions(+), 74 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 369e8e0..f4a90eb 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1031,84 +1031,41 @@ where
     /// * `packets` - Vector of packets to restore
     pub fn restore_packets(&mut self, packets: Vec<GenericStorePacket<PacketIdType>>) {
         for packet in packets {
-            match &packet {
-                GenericStorePacket::V3_1_1Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
-                    }
-                    // Register packet ID and add to store
-                    let packet_id = p.packet_id().unwrap();
-                    if self.pid_man.register_id(packet_id).is_ok() {
-                        if let Err(_e) = self.store.add(packet) {
-                            error!("Failed to add packet to store: {:?}", _e);
-                        }
-                    } else {
-                        error!("Packet ID {} has already been used. Skip it", packet_id);
-                    }
-                }
-                GenericStorePacket::V5_0Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
-                    }
-                    // Register packet ID and add to store
-                    let packet_id = p.packet_id().unwrap();
-                    if self.pid_man.register_id(packet_id).is_ok() {
-                        if let Err(_e) = self.store.add(packet) {
-                            error!("Failed to add packet to store: {:?}", _e);
-                        }
-                    } else {
-                        error!("Packet ID {} has already been used. Skip it", packet_id);
-                    }
+            // QoS 0 shouldn't be in store, but handle gracefully
+            let qos0 = match &packet {
+                GenericStorePacket::V3_1_1Publish(p) => p.qos() == Qos::AtMostOnce,
+                GenericStorePacket::V5_0Publish(p) => p.qos() == Qos::AtMostOnce,
+                _ => false,
+            };
+            if qos0 {
+                warn!("QoS 0 packet found in store, skipping");
+                continue;
+            }
+            let packet_id = packet.packet_id();
+            let response = packet.response_packet();
+            // Register packet ID and add to store
+            if self.pid_man.register_id(packet_id).is_err() {
+                error!("Packet ID {packet_id} has already been used. Skip it");
+                continue;
+            }
+            if let Err(_e) = self.store.add(packet) {
+                error!("Failed to add packet to store: {:?}", _e);
+                continue;
+            }
+            // Add to the tracking set of the response that is expected
+            match response {
+                ResponsePacket::V3_1_1Puback | ResponsePacket::V5_0Puback => {
+                    self.pid_puback.insert(packet_id);
                 }
-                GenericStorePacket::V3_1_1Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
-                    // Register packet ID and add to store
-                    let packet_id = p.packet_id();
-                    if self.pid_man.register_id(packet_id).is_ok() {
-                        if let Err(_e) = self.store.add(packet) {
-                            error!("Failed to add packet to store: {:?}", _e);
-                        }
-                    } else {
-                        error!("Packet ID {} has already been used. Skip it", packet_id);
-                    }
+                ResponsePacket::V3_1_1Pubrec | ResponsePacket::V5_0Pubrec => {
+                    self.pid_pubrec.insert(packet_id);
                 }
-                GenericStorePacket::V5_0Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
-                    // Register packet ID and add to store
-                    let packet_id = p.packet_id();
-                    if self.pid_man.register_id(packet_id).is_ok() {
-                        if let Err(_e) = self.store.add(packet) {
-                            error!("Failed to add packet to store: {:?}", _e);
-                        }
-                    } else {
-                        error!("Packet ID {} has already been used. Skip it", packet_id);
-                    }
+                ResponsePacket::V3_1_1Pubcomp | ResponsePacket::V5_0Pubcomp => {
+                    self.pid_pubcomp.insert(packet_id);
                 }
             }
+            // The session continues, it is not to be discarded
+            self.need_store = true;
         }
     }
 
-- 
2.43.0


From dc55c49d8b97a63fb5941ca6b8211ee359f0483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 22/28] fix: no timer is armed while disconnected, and no
 PINGREQ timer by a server

---
 src/mqtt/connection/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f4a90eb..282afa6 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -842,7 +842,7 @@ where
                     self.pingreq_send_set = false;
                     events.push(GenericEvent::RequestTimerCancel(TimerKind::PingreqSend));
                 }
-            } else if self.status == ConnectionStatus::Connected {
+            } else if self.status == ConnectionStatus::Connected && self.is_client {
                 self.pingreq_send_set = true;
                 events.push(GenericEvent::RequestTimerReset {
                     kind: TimerKind::PingreqSend,
@@ -3633,7 +3633,7 @@ where
 
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
-        if self.pingreq_recv_timeout_ms != 0 {
+        if self.pingreq_recv_timeout_ms != 0 && self.status != ConnectionStatus::Disconnected {
             self.pingreq_recv_set = true;
             events.push(GenericEvent::RequestTimerReset {
                 kind: TimerKind::PingreqRecv,
-- 
2.43.0


From 6f75803f08e96b68e67d0860097552c5eb045518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 23/28] fix: a fatal error closes the connection even if the
 DISCONNECT is too large for the peer

---
 src/mqtt/connection/core.rs | 52 +++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 282afa6..276a45e 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -669,12 +669,10 @@ where
                     Version::V5_0 => {
                         // V5.0: Send DISCONNECT with keep_alive_timeout if connected
                         if self.status == ConnectionStatus::Connected {
-                            if let Ok(disconnect) = v5_0::Disconnect::builder()
-                                .reason_code(DisconnectReasonCode::KeepAliveTimeout)
-                                .build()
-                            {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
-                            }
+                            self.disconnect_v5_0(
+                                DisconnectReasonCode::KeepAliveTimeout,
+                                &mut events,
+                            );
                         }
                     }
                     Version::Undetermined => {
@@ -694,12 +692,10 @@ where
                     Version::V5_0 => {
                         // V5.0: Send DISCONNECT with keep_alive_timeout if connected
                         if self.status == ConnectionStatus::Connected {
-                            if let Ok(disconnect) = v5_0::Disconnect::builder()
-                                .reason_code(DisconnectReasonCode::KeepAliveTimeout)
-                                .build()
-                            {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
-                            }
+                            self.disconnect_v5_0(
+                                DisconnectReasonCode::KeepAliveTimeout,
+                                &mut events,
+                            );
                         }
                     }
                     Version::Undetermined => {
@@ -2381,12 +2377,7 @@ where
             // If the packet size is over 268434555, feed() return an error.
             // maximum_packet_size_recv is set by sending CONNECT or CONNACK packet.
             // So DISCONNECT packet is the right choice to notify the error.
-            let disconnect_packet = v5_0::Disconnect::builder()
-                .reason_code(DisconnectReasonCode::PacketTooLarge)
-                .build()
-                .unwrap();
-            // Send disconnect packet directly without generic constraints
-            events.extend(self.process_send_v5_0_disconnect(disconnect_packet));
+            self.disconnect_v5_0(DisconnectReasonCode::PacketTooLarge, &mut events);
             events.push(GenericEvent::NotifyError(MqttError::PacketTooLarge));
             return events;
         }
@@ -3623,14 +3614,29 @@ where
     }
 
     fn handle_v5_0_error(&mut self, e: MqttError, events: &mut Vec<GenericEvent<PacketIdType>>) {
-        let disconnect = v5_0::Disconnect::builder()
-            .reason_code(e.into())
-            .build()
-            .unwrap();
-        events.extend(self.process_send_v5_0_disconnect(disconnect));
+        self.disconnect_v5_0(e.into(), events);
         events.push(GenericEvent::NotifyError(e));
     }
 
+    /// Send DISCONNECT and request to close. If the DISCONNECT packet is larger than what the
+    /// peer accepts, request to close without it.
+    fn disconnect_v5_0(
+        &mut self,
+        rc: DisconnectReasonCode,
+        events: &mut Vec<GenericEvent<PacketIdType>>,
+    ) {
+        let disconnect = v5_0::Disconnect::builder().reason_code(rc).build().unwrap();
+        if self.status == ConnectionStatus::Connected
+            && !self.validate_maximum_packet_size_send(disconnect.size())
+        {
+            self.status = ConnectionStatus::Disconnected;
+            self.cancel_timers(events);
+            events.push(GenericEvent::RequestClose);
+            return;
+        }
+        events.extend(self.process_send_v5_0_disconnect(disconnect));
+    }
+
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
         if self.pingreq_recv_timeout_ms != 0 && self.status != ConnectionStatus::Disconnected {
-- 
2.43.0


From aa92ae7110570a92d38426a1cfa4baff29a5422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:00 +0000
Subject: [PATCH 24/28] fix: release_packet_id forgets the exchange that used
 the released identifier

---
 src/mqtt/connection/core.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 276a45e..3dff1ff 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -987,6 +987,16 @@ where
 
         if self.pid_man.is_used_id(packet_id) {
             self.pid_man.release_id(packet_id);
+            // Nothing is in flight with the released packet identifier
+            self.pid_suback.remove(&packet_id);
+            self.pid_unsuback.remove(&packet_id);
+            if self.pid_puback.remove(&packet_id)
+                | self.pid_pubrec.remove(&packet_id)
+                | self.pid_pubrel.remove(&packet_id)
+                | self.pid_pubcomp.remove(&packet_id)
+            {
+                self.publish_send_count = self.publish_send_count.saturating_sub(1);
+            }
             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
         }
 
-- 
2.43.0


From 3a18d01fdc70e43ca04d91826c523b525698666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:43 +0000
Subject: [PATCH 25/28] fix: a server CONNACK without session present starts a
 new session, its Session Expiry Interval overrides the CONNECT one

---
 src/mqtt/connection/core.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 3dff1ff..f62314b 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1419,6 +1419,7 @@ where
         }
         let mut events = Vec::new();
         let rc = packet.return_code();
+        let session_present = packet.session_present();
         events.push(GenericEvent::RequestSendPacket {
             packet: packet.into(),
             release_packet_id_if_send_error: None,
@@ -1431,7 +1432,11 @@ where
         }
 
         self.status = ConnectionStatus::Connected;
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
@@ -1451,6 +1456,7 @@ where
 
         let mut events = Vec::new();
         let rc = packet.reason_code();
+        let session_present = packet.session_present();
         if rc == ConnectReasonCode::Success {
             // Process properties
             for prop in packet.props() {
@@ -1486,6 +1492,10 @@ where
                             });
                         }
                     }
+                    Property::SessionExpiryInterval(val) => {
+                        // The server overrides the value in CONNECT
+                        self.need_store = val.val() != 0 || self.offline_publish;
+                    }
                     _ => {
                         // Ignore other properties
                     }
@@ -1506,7 +1516,11 @@ where
 
         self.status = ConnectionStatus::Connected;
 
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
-- 
2.43.0


From 9bec46eab47b6560275f79ff659c1a38b17ae203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 26/28] fix: PUBREC received after DISCONNECT was sent stores
 the automatic PUBREL for the session resume

---
 src/mqtt/connection/core.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f62314b..e689cd1 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -3102,7 +3102,10 @@ where
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
                     self.pid_pubrel.insert(packet_id);
-                    if self.auto_pub_response && self.status == ConnectionStatus::Connected {
+                    if self.auto_pub_response
+                        && (self.status == ConnectionStatus::Connected || self.need_store)
+                    {
+                        // Not connected: stored, and sent when the session is resumed
                         let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
                             .packet_id(packet_id)
                             .build()
@@ -3137,7 +3140,10 @@ where
                     let reason_code = packet.reason_code();
                     if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
                         self.pid_pubrel.insert(packet_id);
-                        if self.auto_pub_response && self.status == ConnectionStatus::Connected {
+                        if self.auto_pub_response
+                            && (self.status == ConnectionStatus::Connected || self.need_store)
+                        {
+                            // Not connected: stored, and sent when the session is resumed
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
                                 .build()
-- 
2.43.0


From 793dd25239ab042972cdae2000f5dc4a18776266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 27/28] fix: PUBREC with a success reason code other than 0x00
 continues the exchange

---
 src/mqtt/connection/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index e689cd1..9a68ef3 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -61,7 +61,7 @@ use crate::mqtt::packet::ResponsePacket;
 use crate::mqtt::packet::{Property, TopicAliasRecv, TopicAliasSend};
 use crate::mqtt::prelude::GenericPacketTrait;
 use crate::mqtt::result_code::{
-    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError, PubrecReasonCode,
+    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError,
 };
 
 /// MQTT protocol maximum packet size limit
@@ -3137,8 +3137,8 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
-                    let reason_code = packet.reason_code();
-                    if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                    // Only the codes 0x80 and above end the exchange
+                    if packet.reason_code().map_or(true, |rc| rc.is_success()) {
                         self.pid_pubrel.insert(packet_id);
                         if self.auto_pub_response
                             && (self.status == ConnectionStatus::Connected || self.need_store)
-- 
2.43.0


From 26e506c4eff0a488ff13567cd4a575b42c396cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 28/28] fix: a session restored from handled QoS 2 identifiers
 only is persistent

---
 src/mqtt/connection/core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9a68ef3..4921878 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1024,6 +1024,10 @@ where
     ///
     /// * `pids` - A `HashSet` containing packet IDs of previously handled QoS 2 PUBLISH packets
     pub fn restore_qos2_publish_handled(&mut self, pids: HashSet<PacketIdType>) {
+        if !pids.is_empty() {
+            // The session continues, it is not to be discarded
+            self.need_store = true;
+        }
         self.qos2_publish_handled = pids;
     }
 
-- 
2.43.0

