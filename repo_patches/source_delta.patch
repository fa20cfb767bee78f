From 9b30b5a3531cdeae068aa5e0ceb6fc8ad27b61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 01/49] fix: drop packet id and DUP when a Publish is set to
 QoS 0

A QoS 0 PUBLISH that kept its packet identifier was encoded with two extra
bytes that every receiver reads as the start of the properties/payload.
---
 vaux-mqtt/src/publish.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index bbd2b09..49afea9 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -196,8 +196,14 @@ impl Publish {
         self.fixed_header.qos()
     }
 
+    /// Sets the QoS level. A QoS 0 publish has neither a packet identifier nor a DUP flag,
+    /// both are cleared when the level is set to `AtMostOnce`.
     pub fn set_qos(&mut self, qos: QoSLevel) {
         self.fixed_header.set_qos(qos);
+        if qos == QoSLevel::AtMostOnce {
+            self.fixed_header.set_dup(false);
+            self.packet_id = None;
+        }
     }
 
     pub fn with_qos(mut self, qos: QoSLevel) -> Self {
-- 
2.43.0


From 1860981758638a27e6c12abe34eb0bec1bc6a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 02/49] fix: count user property bytes once when decoding

decode_string already includes the two byte length prefix, so every user
property ended the property loop four bytes early and over-reported the
packet length.
---
 vaux-mqtt/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index e697cd3..06ef371 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -181,7 +181,7 @@ impl codec::Decode for UserProperty {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
         let (key_value, key_len) = codec::decode_string(src)?;
         let (value, len) = codec::decode_string(src)?;
-        let bytes_read = 2 + key_len + 2 + len;
+        let bytes_read = key_len + len;
         self.0.entry(key_value).or_default().push(value);
         Ok(bytes_read)
     }
-- 
2.43.0


From 4ec42205483951ad010449418ffeb07eeaee47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 03/49] fix: count binary properties as property bytes in
 derived decoders

Authentication Data (CONNACK) and Correlation Data (will) were added to the
packet byte count only, so the property loop kept reading past the end of
the property section.
---
 vaux-macro/src/decode.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 500599f..264c782 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -430,8 +430,13 @@ fn decode_for_vec(
     field_name: &syn::Ident,
     type_path: &syn::TypePath,
     optional_field: bool,
-    _property_type: &Option<syn::Path>,
+    property_type: &Option<syn::Path>,
 ) -> proc_macro2::TokenStream {
+    let read = if property_type.is_some() {
+        quote! { property_bytes_read }
+    } else {
+        quote! { bytes_read }
+    };
     let decode_stmt = match &type_path.path.segments.last().unwrap().arguments {
         syn::PathArguments::AngleBracketed(args) => match args.args.first().unwrap() {
             syn::GenericArgument::Type(syn::Type::Path(vec_inner_type_path)) => {
@@ -449,14 +454,14 @@ fn decode_for_vec(
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;  
+                                #read += var_bytes_read;
                                 self.#field_name = Some(value);
                             }
                         } else {
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;
+                                #read += var_bytes_read;
                                 self.#field_name = value;
                             }
                         }
@@ -471,7 +476,7 @@ fn decode_for_vec(
                                 let mut value = Vec::new();
                                 while src.has_remaining() {
                                     let mut item = String::new();
-                                    bytes_read += item.decode(src)?;
+                                    #read += item.decode(src)?;
                                     value.push(item);
                                 }
                                 self.#field_name = Some(value);
@@ -481,7 +486,7 @@ fn decode_for_vec(
                                 let mut value = Vec::new();
                                 while src.has_remaining() {
                                     let mut item = String::new();
-                                    bytes_read += item.decode(src)?;
+                                    #read += item.decode(src)?;
                                     value.push(item);
                                 }
                                 self.#field_name = value;
@@ -493,7 +498,7 @@ fn decode_for_vec(
                         let mut value = Vec::new();
                         while src.has_remaining() {
                             let mut item = #vec_inner_type_path::default();
-                            bytes_read += item.decode(src)?;
+                            #read += item.decode(src)?;
                             value.push(item);
                         }
                         self.#field_name = value;
-- 
2.43.0


From a50b477979cbfea034444d8a355ef5e05c63496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 04/49] fix: report truncated fields as malformed instead of
 panicking

The decoders read fixed size fields without checking that the bytes are
there, so a peer could panic the connection task with a short packet.
---
 vaux-macro/src/decode.rs   | 20 ++++++++++++++++++--
 vaux-mqtt/src/codec/mod.rs | 15 +++++++++++++++
 vaux-mqtt/src/connect.rs   |  7 +++++++
 vaux-mqtt/src/publish.rs   |  4 ++++
 4 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 264c782..3b2e0bc 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -83,6 +83,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
             while property_bytes_read < property_length {
+                codec::ensure_remaining(src, 1)?;
                 let property_type = src.get_u8().try_into()?;
                 property_bytes_read += 1;
                 match property_type {
@@ -282,12 +283,17 @@ pub(crate) fn decode_field(field: &syn::Field) -> proc_macro2::TokenStream {
                     }
                     type_name => {
                         if is_primitive_type(type_name) {
-                            decode_for_primitive(
+                            let check_remaining = check_remaining_for_primitive(type_name);
+                            let decode = decode_for_primitive(
                                 field_name,
                                 &inner_field_type,
                                 optional_field,
                                 &property_type,
-                            )
+                            );
+                            quote! {
+                                #check_remaining
+                                #decode
+                            }
                         } else {
                             decode_for_type(
                                 field_name,
@@ -393,6 +399,16 @@ fn decode_for_primitive(
     assignment
 }
 
+/// Generate the bounds check that precedes the read of a fixed size primitive field.
+fn check_remaining_for_primitive(type_name: &str) -> proc_macro2::TokenStream {
+    let size = match type_name {
+        "u16" | "i16" => 2_usize,
+        "u32" | "i32" => 4_usize,
+        _ => 1_usize,
+    };
+    quote! { codec::ensure_remaining(src, #size)?; }
+}
+
 fn decode_for_type(
     field_name: &syn::Ident,
     field_type: &syn::Type,
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 68c55fa..1b14b90 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -223,6 +223,7 @@ impl Encode for Reason {
 
 impl Decode for Reason {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        ensure_remaining(src, 1)?;
         let val = src.get_u8();
         *self = val.try_into()?;
         Ok(1)
@@ -286,6 +287,7 @@ impl Encode for QoSLevel {
 
 impl Decode for QoSLevel {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        ensure_remaining(src, 1)?;
         let val = src.get_u8();
         *self = val.try_into()?;
         Ok(1)
@@ -431,6 +433,15 @@ impl MqttCodecError {
     }
 }
 
+/// Returns a malformed packet error unless at least `len` bytes are left in `src`. Field
+/// decoders check with this before they read a fixed size value.
+pub fn ensure_remaining(src: &BytesMut, len: usize) -> Result<(), MqttCodecError> {
+    if src.remaining() < len {
+        return Err(MqttCodecError::new("malformed packet: truncated field"));
+    }
+    Ok(())
+}
+
 pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecError> {
     let mut fixed_header = FixedHeader::default();
     let mut decode_len = fixed_header.decode(src)?;
@@ -608,6 +619,7 @@ impl Decode for Vec<u8> {
 
 impl Decode for bool {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        ensure_remaining(src, 1)?;
         *self = match src.get_u8() {
             0 => Ok(false),
             1 => Ok(true),
@@ -622,6 +634,7 @@ impl Decode for bool {
 
 impl Decode for u8 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        ensure_remaining(src, 1)?;
         *self = src.get_u8();
         Ok(1)
     }
@@ -629,6 +642,7 @@ impl Decode for u8 {
 
 impl Decode for u16 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        ensure_remaining(src, 2)?;
         *self = src.get_u16();
         Ok(2)
     }
@@ -636,6 +650,7 @@ impl Decode for u16 {
 
 impl Decode for u32 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        ensure_remaining(src, 4)?;
         *self = src.get_u32();
         Ok(4)
     }
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 6ac087d..107dc0e 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -195,6 +195,8 @@ impl codec::Decode for Connect {
 
         // header fields
         bytes_read += self.protocol_name.decode(src)?;
+        // protocol version, connect flags and keep alive
+        codec::ensure_remaining(src, 4)?;
         self.protocol_version = src.get_u8();
         bytes_read += 1;
         self.connect_flags = src.get_u8();
@@ -208,6 +210,7 @@ impl codec::Decode for Connect {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
+            codec::ensure_remaining(src, 1)?;
             let property_type: PropertyType = src.get_u8().try_into()?;
             property_bytes_read += 1;
             match property_type {
@@ -217,6 +220,7 @@ impl codec::Decode for Connect {
                     self.session_expiry_interval = Some(value);
                 }
                 PropertyType::RecvMax => {
+                    codec::ensure_remaining(src, 2)?;
                     self.receive_maximum = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
@@ -226,14 +230,17 @@ impl codec::Decode for Connect {
                     self.max_packet_size = Some(value);
                 }
                 PropertyType::TopicAliasMax => {
+                    codec::ensure_remaining(src, 2)?;
                     self.topic_alias_maximum = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
+                    codec::ensure_remaining(src, 1)?;
                     self.request_response_info = Some(src.get_u8() != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::ReqProblemInfo => {
+                    codec::ensure_remaining(src, 1)?;
                     self.request_problem_info = Some(src.get_u8() != 0);
                     property_bytes_read += 1;
                 }
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 49afea9..2dd3b05 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -35,6 +35,7 @@ impl codec::Encode for PayloadFormat {
 
 impl codec::Decode for PayloadFormat {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        codec::ensure_remaining(src, 1)?;
         *self = PayloadFormat::try_from(src.get_u8())?;
         Ok(1)
     }
@@ -290,6 +291,7 @@ impl codec::Decode for Publish {
         bytes_read += self.topic_name.decode(src)?;
 
         if self.fixed_header.qos() != QoSLevel::AtMostOnce {
+            codec::ensure_remaining(src, 2)?;
             self.packet_id = Some(src.get_u16());
             bytes_read += 2;
         }
@@ -299,6 +301,7 @@ impl codec::Decode for Publish {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
+            codec::ensure_remaining(src, 1)?;
             let property_type: PropertyType = src.get_u8().try_into()?;
             property_bytes_read += 1;
             match property_type {
@@ -313,6 +316,7 @@ impl codec::Decode for Publish {
                     self.payload_format = Some(value);
                 }
                 PropertyType::TopicAlias => {
+                    codec::ensure_remaining(src, 2)?;
                     self.topic_alias = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
-- 
2.43.0


From 28dcc6f5c872281b322d5b97927c65d8d58c0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 05/49] fix: reject a PUBLISH fixed header with QoS 3

The flags were stored unchecked and the first call to qos() panicked.
---
 vaux-mqtt/src/codec/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/codec/fixed.rs b/vaux-mqtt/src/codec/fixed.rs
index c967acc..932067c 100644
--- a/vaux-mqtt/src/codec/fixed.rs
+++ b/vaux-mqtt/src/codec/fixed.rs
@@ -132,7 +132,7 @@ impl Decode for FixedHeader {
             }
             _ => {}
         }
-        self.flags = flags;
+        self.set_flags(flags)?;
         Ok(1)
     }
 }
-- 
2.43.0


From b7c19b98d8926b36c5d68e06c3fa028853b85b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 06/49] fix: accept four byte variable byte integers and refuse
 larger ones

Decoding rejected every value above 2,097,151 and encoding wrote five bytes
for values above 268,435,455.
---
 vaux-mqtt/src/codec/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 1b14b90..4b5a1c8 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -733,6 +733,11 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
         if next_byte & 0x80 == 0 {
             decode = false;
         } else {
+            if shift > 21 {
+                return Err(MqttCodecError::new(
+                    "malformed packet: variable byte integer",
+                ));
+            }
             if !src.has_remaining() {
                 return Err(MqttCodecError::new_with_kind(
                     "Insufficient data for variable byte integer",
@@ -741,16 +746,16 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
             }
             next_byte = src.get_u8();
         }
-        if shift > 21 {
-            return Err(MqttCodecError::new(
-                "malformed packet: variable byte integer",
-            ));
-        }
     }
     Ok((result, shift / 7))
 }
 
 pub fn encode_variable_byte_int(val: u32, dest: &mut BytesMut) -> Result<(), MqttCodecError> {
+    if val > MAX_VARIABLE_BYTE_INT {
+        return Err(MqttCodecError::new(
+            "variable byte integer exceeds max value",
+        ));
+    }
     let mut encode = true;
     let mut input_val = val;
     while encode {
-- 
2.43.0


From e56dc878c80ea01f9930d702ecbf49447c1b83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 07/49] fix: decode a packet from exactly its frame

A field running past the frame was reported as insufficient data, so the
stream waited forever for bytes that belong to the next packet, and bytes
left over after the last field were parsed as the next packet. Both are
malformed. A DISCONNECT or PUBACK/PUBREC/PUBREL/PUBCOMP that ends after the
reason code is complete: the property length may be omitted.
---
 vaux-macro/src/decode.rs   |  6 ++++++
 vaux-mqtt/src/codec/mod.rs | 19 +++++++++++++++++++
 vaux-mqtt/src/connect.rs   |  5 +++++
 vaux-mqtt/src/publish.rs   |  5 +++++
 4 files changed, 35 insertions(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 3b2e0bc..5da86ca 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -96,6 +96,11 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                     }
                 }
             }
+            if property_bytes_read > property_length {
+                return Err(codec::MqttCodecError::new(
+                    "malformed packet: property exceeds the property length"
+                ));
+            }
             bytes_read += property_bytes_read;
         }
     } else {
@@ -206,6 +211,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                 #(#header_field_decoded)*
                 #abbreviated_check
                 #(#non_abbreviated_header_decoded)*
+                #abbreviated_check
                 #min_size_check
                 #decode_properties
                 #(#decode_field_payload)*
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 4b5a1c8..a92308e 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -481,6 +481,25 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
         }
         _ => {}
     }
+    // the frame is complete: fields that run past its end or bytes left over after the
+    // last field are malformed, reading more data from the stream can not help
+    match decode_frame(fixed_header, decode_len, src) {
+        Ok(_) if src.has_remaining() => Err(MqttCodecError::new(
+            "malformed packet: data after the end of the packet",
+        )),
+        Err(e) if matches!(e.kind, ErrorKind::InsufficientData(_, _)) => {
+            Err(MqttCodecError::new(&e.reason))
+        }
+        result => result,
+    }
+}
+
+/// Decode the variable header and payload of a packet from the complete frame in `src`.
+fn decode_frame(
+    fixed_header: FixedHeader,
+    mut decode_len: usize,
+    src: &mut BytesMut,
+) -> Result<Option<(Packet, usize)>, MqttCodecError> {
     match fixed_header.packet_type {
         PacketType::PingReq => Ok(Some((Packet::PingRequest(crate::PingReq::default()), decode_len))),
         PacketType::PingResp => Ok(Some((
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 107dc0e..56e3774 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -269,6 +269,11 @@ impl codec::Decode for Connect {
                 }
             }
         }
+        if property_bytes_read > property_length {
+            return Err(MqttCodecError::new(
+                "malformed packet: property exceeds the property length",
+            ));
+        }
         bytes_read += property_bytes_read;
 
         // payload: client_id (always present)
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 2dd3b05..6260eda 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -355,6 +355,11 @@ impl codec::Decode for Publish {
                 }
             }
         }
+        if property_bytes_read > property_length {
+            return Err(MqttCodecError::new(
+                "malformed packet: property exceeds the property length",
+            ));
+        }
         bytes_read += property_bytes_read;
 
         let (value, decode_bytes_read) = codec::decode_opt_vec_u8_raw(src)?;
-- 
2.43.0


From 134dee52320fddde750827011469b6fadaf156d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 08/49] fix: encode the CONNECT payload as its flags announce
 it

The will payload was written before the will topic (both sides agreed, no
other implementation would), and an empty will payload, user name or
password was left out although the flags announce it, which the decoder
then rejects.
---
 vaux-mqtt/src/codec/mod.rs | 17 +++++++++++++
 vaux-mqtt/src/connect.rs   | 50 +++++++++++++++++++++++---------------
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index a92308e..6a6abcb 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -707,6 +707,23 @@ pub fn decode_array_field(src: &mut BytesMut) -> Result<(Vec<u8>, usize), MqttCo
     Ok((data, bytes_read))
 }
 
+pub fn codec_size_opt_array_field_ref(src: &Option<Vec<u8>>) -> u32 {
+    match src {
+        Some(data) => 2 + data.len() as u32,
+        None => 0,
+    }
+}
+
+pub fn encode_opt_array_field_ref(
+    src: &Option<Vec<u8>>,
+    dest: &mut BytesMut,
+) -> Result<(), MqttCodecError> {
+    if let Some(data) = src {
+        encode_array_field(data, dest)?;
+    }
+    Ok(())
+}
+
 /// Returns the length of an encoded MQTT variable length unsigned int
 pub fn variable_byte_int_size(value: u32) -> u32 {
     match value {
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 56e3774..d597a26 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -49,14 +49,22 @@ pub struct Connect {
     pub client_id: String,
     #[codec(payload_type = "field")]
     pub(crate) will_properties: Option<WillHeader>,
-    #[codec(payload_type = "field", skip_if = "Vec::is_empty")]
-    pub(crate) will_payload: Vec<u8>,
     #[codec(payload_type = "field")]
     pub(crate) will_topic: Option<String>,
-    #[codec(skip_if = "String::is_empty", payload_type = "field")]
-    username: String,
-    #[codec(skip_if = "Vec::is_empty", payload_type = "field")]
-    password: Vec<u8>,
+    #[codec(
+        payload_type = "field",
+        size_with = "codec::codec_size_opt_array_field_ref",
+        encode_with = "codec::encode_opt_array_field_ref"
+    )]
+    pub(crate) will_payload: Option<Vec<u8>>,
+    #[codec(payload_type = "field")]
+    username: Option<String>,
+    #[codec(
+        payload_type = "field",
+        size_with = "codec::codec_size_opt_array_field_ref",
+        encode_with = "codec::encode_opt_array_field_ref"
+    )]
+    password: Option<Vec<u8>>,
 }
 
 impl Default for Connect {
@@ -89,10 +97,10 @@ impl Connect {
             user_properties: property::UserProperty::new(),
             client_id: uuid::Uuid::new_v4().to_string(),
             will_properties: None,
-            will_payload: Vec::new(),
             will_topic: None,
-            username: String::new(),
-            password: Vec::new(),
+            will_payload: None,
+            username: None,
+            password: None,
         }
     }
 
@@ -140,7 +148,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_USERNAME) | 1_u8 << 7;
         }
-        self.username = username.unwrap_or_default();
+        self.username = username;
     }
 
     pub fn password(&self) -> bool {
@@ -153,7 +161,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_PASSWORD) | 1_u8 << 6;
         }
-        self.password = password.unwrap_or_default();
+        self.password = password;
     }
 
     pub fn set_session_expiry_interval(&mut self, interval: u32) {
@@ -168,7 +176,7 @@ impl Connect {
         if self.will() {
             Some(WillMessage {
                 topic: self.will_topic.clone().unwrap_or_default(),
-                payload: bytes::Bytes::from(self.will_payload.clone()),
+                payload: bytes::Bytes::from(self.will_payload.clone().unwrap_or_default()),
                 qos: self.will_qos().unwrap_or(QoSLevel::AtMostOnce),
                 retain: self.will_retain(),
                 header: self.will_properties.clone().unwrap_or_default(),
@@ -180,7 +188,7 @@ impl Connect {
 
     pub fn set_will_message(&mut self, will: WillMessage) {
         self.will_topic = Some(will.topic);
-        self.will_payload = will.payload.to_vec();
+        self.will_payload = Some(will.payload.to_vec());
         self.will_properties = Some(will.header);
         self.set_will(true);
         self.set_will_qos(will.qos);
@@ -285,19 +293,21 @@ impl codec::Decode for Connect {
             bytes_read += will_header.decode(src)?;
             self.will_properties = Some(will_header);
 
-            let mut value = Vec::new();
-            let var_bytes_read = value.decode(src)?;
-            bytes_read += var_bytes_read;
-            self.will_payload = value;
-
             let mut value = String::default();
             bytes_read += value.decode(src)?;
             self.will_topic = Some(value);
+
+            let mut value = Vec::new();
+            let var_bytes_read = value.decode(src)?;
+            bytes_read += var_bytes_read;
+            self.will_payload = Some(value);
         }
 
         // payload: username (only if USERNAME flag set)
         if self.username() {
-            bytes_read += self.username.decode(src)?;
+            let mut value = String::default();
+            bytes_read += value.decode(src)?;
+            self.username = Some(value);
         }
 
         // payload: password (only if PASSWORD flag set)
@@ -305,7 +315,7 @@ impl codec::Decode for Connect {
             let mut value = Vec::new();
             let var_bytes_read = value.decode(src)?;
             bytes_read += var_bytes_read;
-            self.password = value;
+            self.password = Some(value);
         }
 
         Ok(bytes_read)
-- 
2.43.0


From df4ac5af20d6885efff4af4a59bf88d3fb164fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 09/49] fix: keep the packet type when decoding publish
 responses

A decoded PUBACK, PUBREC, PUBREL or PUBCOMP carried a CONNECT fixed header:
it did not equal the packet that was sent, refused every reason code and
was written out as a CONNECT.
---
 vaux-mqtt/src/codec/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 6a6abcb..cf78820 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -517,22 +517,22 @@ fn decode_frame(
             Ok(Some((Packet::Publish(publish), decode_len)))
         }
         PacketType::PubAck => {
-            let mut puback = PubAck::default();
+            let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
             decode_len += puback.decode(src)?;
             Ok(Some((Packet::PubAck(puback), decode_len)))
         }
         PacketType::PubComp => {
-            let mut pubcomp = PubComp::default();
+            let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
             decode_len += pubcomp.decode(src)?;
             Ok(Some((Packet::PubComp(pubcomp), decode_len)))
         }
         PacketType::PubRec => {
-            let mut pubrec = PubRec::default();
+            let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
             decode_len += pubrec.decode(src)?;
             Ok(Some((Packet::PubRec(pubrec), decode_len)))
         }
         PacketType::PubRel => {
-            let mut pubrel = PubRel::default();
+            let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
             decode_len += pubrel.decode(src)?;
             Ok(Some((Packet::PubRel(pubrel), decode_len)))
         }
-- 
2.43.0


From 991eaa436c8dcc7d3cd618b2b93e61ae6585d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 10/49] fix: fail the read when the stream ends inside a packet

The end of the stream was only recognised with an empty buffer; with part of
a packet buffered the read spun forever without yielding.
---
 vaux-async/src/stream/packet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index a4a2924..b75502b 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -143,6 +143,10 @@ impl PacketStream {
                     if len == 0 && bytes_read == 0 {
                         return Ok(None);
                     }
+                    if len == 0 {
+                        // the peer closed the stream in the middle of a packet
+                        return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+                    }
                     bytes_read += len;
                     self.read_offset = bytes_read;
                     if self.read_offset >= self.read_buffer.len() {
-- 
2.43.0


From def10225f09d8c85301abaef32bc972fdab4fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 11/49] fix: honour a maximum buffer size below the initial one

Filling the initial buffer shrank it below the read offset and panicked.
---
 vaux-async/src/stream/packet.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index b75502b..32ad153 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -41,11 +41,15 @@ impl PacketStream {
         initial_buffer_size: Option<usize>,
         max_buffer_size: Option<usize>,
     ) -> Self {
+        let max_buffer_size = max_buffer_size.unwrap_or(MAX_BUFFER_SIZE);
+        // the buffer never shrinks, it must not start out larger than its limit
+        let initial_buffer_size =
+            usize::min(initial_buffer_size.unwrap_or(READ_BUFFER_SIZE), max_buffer_size);
         Self {
-            read_buffer: vec![0; initial_buffer_size.unwrap_or(READ_BUFFER_SIZE)],
+            read_buffer: vec![0; initial_buffer_size],
             read_offset: 0,
-            initial_buffer_size: initial_buffer_size.unwrap_or(READ_BUFFER_SIZE),
-            max_buffer_size: max_buffer_size.unwrap_or(MAX_BUFFER_SIZE),
+            initial_buffer_size,
+            max_buffer_size,
             stream,
         }
     }
-- 
2.43.0


From 81b624ac31223284d457e22a9412d72fec3c67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 12/49] fix: make read_raw return the packet bytes and advance
 the stream

It split the already consumed decode buffer, which panicked, and never
removed the packet from the read buffer.
---
 vaux-async/src/stream/packet.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 32ad153..c35c02a 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -30,7 +30,6 @@ impl Display for Error {
 pub struct PacketStream {
     read_buffer: Vec<u8>,
     read_offset: usize,
-    initial_buffer_size: usize,
     max_buffer_size: usize,
     stream: AsyncMqttStream,
 }
@@ -48,7 +47,6 @@ impl PacketStream {
         Self {
             read_buffer: vec![0; initial_buffer_size],
             read_offset: 0,
-            initial_buffer_size,
             max_buffer_size,
             stream,
         }
@@ -102,24 +100,16 @@ impl PacketStream {
                 match decode(bytes_mut) {
                     Ok(data_read) => {
                         if let Some((packet, decode_len)) = data_read {
-                            if with_bytes {
-                                // split the buffer into packet and remaining bytes
-                                let packet_bytes = bytes_mut.split_to(decode_len);
-                                // resize the buffer if less than requested initial size
-                                if self.read_buffer.len() < self.initial_buffer_size {
-                                    self.read_buffer.resize(self.initial_buffer_size, 0);
-                                }
-                                return Ok(Some((packet, Some(packet_bytes.freeze()))));
+                            let packet_bytes = with_bytes
+                                .then(|| Bytes::copy_from_slice(&self.read_buffer[0..decode_len]));
+                            if decode_len < bytes_read {
+                                self.read_buffer.copy_within(decode_len..bytes_read, 0);
+                                // adjust offset to end of decoded bytes
+                                self.read_offset = bytes_read - decode_len;
                             } else {
-                                if decode_len < bytes_read {
-                                    self.read_buffer.copy_within(decode_len..bytes_read, 0);
-                                    // adjust offset to end of decoded bytes
-                                    self.read_offset = bytes_read - decode_len;
-                                } else {
-                                    self.read_offset = 0;
-                                }
-                                return Ok(Some((packet, None)));
+                                self.read_offset = 0;
                             }
+                            return Ok(Some((packet, packet_bytes)));
                         } else {
                             return Ok(None);
                         }
-- 
2.43.0


From 2f0fde45695f84fc4c7cf10c8bdca11fd6a5a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 13/49] fix: answer an UNSUBSCRIBE of an unknown filter with
 0x11

0x10 (No matching subscribers) is not an UNSUBACK reason code.
---
 vaux-broker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e5d7343..68dac02 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -418,7 +418,7 @@ impl Broker {
             let reason = if tree.unsubscribe(topic, session_id) {
                 Reason::Success
             } else {
-                Reason::NoSubscribers
+                Reason::NoSubscriptionExisted
             };
             unsuback.reason_code.push(reason);
         }
-- 
2.43.0


From d8759150eb0510b3424c2ae76401b3c1615ebe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 14/49] fix: keep leading wildcards from matching $ topics

---
 vaux-broker/src/topic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index f9d4fac..8760ba4 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -127,12 +127,18 @@ impl TopicTree {
         }
 
         let segment = segments[depth];
+        // a leading wildcard does not match topics beginning with '$' (MQTT v5 4.7.2)
+        let match_wildcards = depth > 0 || !segment.starts_with('$');
 
         // exact match on this segment
         if let Some(&child_idx) = node.children.get(segment) {
             self.collect_matches(child_idx, segments, depth + 1, results);
         }
 
+        if !match_wildcards {
+            return;
+        }
+
         // '+' wildcard matches any single level
         if let Some(&plus_idx) = node.children.get("+") {
             self.collect_matches(plus_idx, segments, depth + 1, results);
-- 
2.43.0


From ea4c72e81b307699f8566d1d9a1c6e1cfcdea185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 15/49] fix: publish a will message with its user properties

---
 vaux-broker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 68dac02..00e9fd0 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -649,6 +649,7 @@ impl Broker {
         publish.content_type = will.header.content_type.clone();
         publish.response_topic = will.header.response_topic.clone();
         publish.correlation_data = will.header.correlation_data.clone();
+        publish.user_properties = will.header.user_properties.clone();
         if let Some(format) = will.header.payload_format {
             publish.set_payload_format(format);
         }
-- 
2.43.0


From d473ea30b1715074b234a6b8862b5b6fbc7b16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 16/49] fix: forward a PUBLISH with the subscriber's flags

The publisher's DUP and topic alias, and RETAIN whatever the subscription's
Retain As Published option says, were copied to every subscriber.
---
 vaux-broker/src/lib.rs   | 13 ++++++++++++-
 vaux-broker/src/topic.rs | 16 ++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 00e9fd0..577371d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -395,7 +395,13 @@ impl Broker {
         let mut tree = state.topic_tree.write().await;
         for filter in &subscribe.filter {
             let granted_qos = filter.qos();
-            tree.subscribe(&filter.filter, session_id, granted_qos, filter.no_local());
+            tree.subscribe_with_retain(
+                &filter.filter,
+                session_id,
+                granted_qos,
+                filter.no_local(),
+                filter.retain_as_published(),
+            );
             let reason = match granted_qos {
                 vaux_mqtt::QoSLevel::AtMostOnce => Reason::Success,
                 vaux_mqtt::QoSLevel::AtLeastOnce => Reason::GrantedQoS1,
@@ -671,6 +677,11 @@ impl Broker {
 
             if let Some(target_session) = session_pool.get_active(&sub.session_id) {
                 let mut out = publish.clone();
+                // DUP, topic alias and, unless the subscriber asked for it, RETAIN belong to
+                // the publisher's connection only
+                let _ = out.set_dup(false);
+                out.topic_alias = None;
+                out.set_retain(publish.retain() && sub.retain_as_published);
                 out.set_qos(qos);
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index 8760ba4..477a568 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -8,6 +8,7 @@ pub struct Subscriber {
     pub session_id: Box<str>,
     pub qos: QoSLevel,
     pub no_local: bool,
+    pub retain_as_published: bool,
 }
 
 #[derive(Debug, Default)]
@@ -46,6 +47,19 @@ impl TopicTree {
         session_id: &str,
         qos: QoSLevel,
         no_local: bool,
+    ) {
+        self.subscribe_with_retain(filter, session_id, qos, no_local, false);
+    }
+
+    /// Subscribe a session to a topic filter and set whether messages keep the RETAIN flag
+    /// they were published with.
+    pub fn subscribe_with_retain(
+        &mut self,
+        filter: &str,
+        session_id: &str,
+        qos: QoSLevel,
+        no_local: bool,
+        retain_as_published: bool,
     ) {
         let segments: Vec<&str> = filter.split('/').collect();
         let node_idx = self.ensure_path(&segments);
@@ -54,6 +68,7 @@ impl TopicTree {
             session_id: session_id.into(),
             qos,
             no_local,
+            retain_as_published,
         };
 
         let last_segment = *segments.last().unwrap();
@@ -66,6 +81,7 @@ impl TopicTree {
         if let Some(existing) = list.iter_mut().find(|s| *s.session_id == *session_id) {
             existing.qos = qos;
             existing.no_local = no_local;
+            existing.retain_as_published = retain_as_published;
         } else {
             list.push(subscriber);
         }
-- 
2.43.0


From 133ee7b0515269ec915ab920488f6dccc59d3813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 17/49] fix: refuse malformed topic filters and topic names

A filter such as a/#/b was granted but can never match as written, and a
PUBLISH to a topic with wildcards was delivered to literal wildcard
subscriptions, in part twice.
---
 vaux-broker/src/lib.rs   | 11 ++++++++++-
 vaux-broker/src/topic.rs | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 577371d..2a8913d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -16,7 +16,7 @@ use tokio::{
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
     task::{yield_now, JoinHandle},
 };
-use topic::TopicTree;
+use topic::{valid_topic_filter, valid_topic_name, TopicTree};
 use uuid::Uuid;
 use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
 use vaux_mqtt::subscribe::SubAck;
@@ -336,6 +336,11 @@ impl Broker {
                 Ok(())
             }
             Packet::Publish(publish) => {
+                if !valid_topic_name(&publish.topic_name) {
+                    let disconnect = Disconnect::new(Reason::InvalidTopicName);
+                    stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                    return Err(MqttCodecError::new("invalid PUBLISH topic name").into());
+                }
                 let session_id = {
                     let session = session.read().await;
                     session.id().to_string()
@@ -394,6 +399,10 @@ impl Broker {
         let mut suback = SubAck::new_with_packet_id(subscribe.packet_id).unwrap_or_default();
         let mut tree = state.topic_tree.write().await;
         for filter in &subscribe.filter {
+            if !valid_topic_filter(&filter.filter) {
+                suback.reason_codes.push(Reason::InvalidTopicFilter);
+                continue;
+            }
             let granted_qos = filter.qos();
             tree.subscribe_with_retain(
                 &filter.filter,
diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index 477a568..4f7f129 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -3,6 +3,26 @@ use vaux_mqtt::QoSLevel;
 
 const ROOT_NODE: u32 = 0;
 
+/// A topic filter is at least one character, uses '+' for a whole level only and '#' for the
+/// whole last level only (MQTT v5 4.7.1).
+pub fn valid_topic_filter(filter: &str) -> bool {
+    let mut segments = filter.split('/').peekable();
+    while let Some(segment) = segments.next() {
+        let last = segments.peek().is_none();
+        if segment.contains('#') && !(segment == "#" && last)
+            || segment.contains('+') && segment != "+"
+        {
+            return false;
+        }
+    }
+    !filter.is_empty() && !filter.contains('\0')
+}
+
+/// A topic name is at least one character and has no wildcards (MQTT v5 4.7.3).
+pub fn valid_topic_name(topic: &str) -> bool {
+    !topic.is_empty() && !topic.contains(['+', '#', '\0'])
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Subscriber {
     pub session_id: Box<str>,
-- 
2.43.0


From 0b2998b7421de05acaa3c0473e288f315ed2e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 18/49] fix: discard the subscriptions of a session on clean
 start

---
 vaux-broker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 2a8913d..b4e6f2e 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -555,6 +555,8 @@ impl Broker {
                     let _ = Broker::handle_takeover(Arc::clone(&existing_session)).await;
                 }
             }
+            // subscriptions are part of the session that ends here
+            state.topic_tree.write().await.unsubscribe_all(&session_id);
             let mut new_session =
                 Session::new(session_id.clone(), connect.will_message(), keep_alive, channel_size);
             new_session.set_connected(true);
-- 
2.43.0


From ac0ae6b3e3e2d23b6aa79c0d0d6361353eb0341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 19/49] fix: use the keep alive of the new connection on
 session resume

The resumed session kept timing out on the interval of its first connection,
whatever the CONNACK had agreed to.
---
 vaux-broker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index b4e6f2e..5c985d0 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -570,6 +570,7 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                 }
                 session
@@ -580,6 +581,7 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                     session.set_last_active();
                 }
-- 
2.43.0


From 64d6a74fb2b2c9206ea4a0f0b2708dacfc7dacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 20/49] fix: redeliver unacknowledged publishes in order and
 keep all of them

They were drained from a hash map, so a resumed session got them in random
order, and those not yet written when the new connection failed were lost.
---
 vaux-broker/src/lib.rs     |  6 +-----
 vaux-broker/src/session.rs | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 5c985d0..f04c36b 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -261,15 +261,11 @@ impl Broker {
                                         let mut session = session.write().await;
                                         keep_alive = session.keep_alive();
                                         session_control = session.take_control_receiver();
-                                        session.drain_pending()
+                                        session.unacknowledged()
                                     };
                                     for (packet_id, mut publish) in pending {
                                         publish.set_dup(true).ok();
                                         let _ = publish.set_packet_id(Some(packet_id));
-                                        {
-                                            let mut s = session.write().await;
-                                            s.track_qos_publish(packet_id, publish.clone());
-                                        }
                                         stream.write(&mut Packet::Publish(publish)).await?;
                                     }
                                     client_session = Some(Arc::clone(&session));
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 91e8f18..4095bff 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -190,7 +190,8 @@ pub struct Session {
     will_message: Option<WillMessage>,
     pending_will: Option<CancellationToken>,
     next_packet_id: u16,
-    pending_ack: HashMap<u16, Publish>,
+    pending_ack: HashMap<u16, (u64, Publish)>,
+    next_pending_seq: u64,
     control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
 }
 
@@ -213,6 +214,7 @@ impl Session {
             pending_will: None,
             next_packet_id: 1,
             pending_ack: HashMap::new(),
+            next_pending_seq: 0,
             control: (sender, Some(receiver)),
         }
     }
@@ -284,7 +286,9 @@ impl Session {
     }
 
     pub fn track_qos_publish(&mut self, packet_id: u16, publish: Publish) {
-        self.pending_ack.insert(packet_id, publish);
+        self.pending_ack
+            .insert(packet_id, (self.next_pending_seq, publish));
+        self.next_pending_seq += 1;
     }
 
     pub fn acknowledge(&mut self, packet_id: u16) -> bool {
@@ -295,8 +299,15 @@ impl Session {
         self.pending_ack.len()
     }
 
-    pub fn drain_pending(&mut self) -> Vec<(u16, Publish)> {
-        self.pending_ack.drain().collect()
+    /// Returns the publishes that have not been acknowledged in the order they were sent in.
+    /// They remain pending until they are acknowledged.
+    pub fn unacknowledged(&self) -> Vec<(u16, Publish)> {
+        let mut pending: Vec<_> = self.pending_ack.iter().collect();
+        pending.sort_by_key(|(_, (seq, _))| *seq);
+        pending
+            .into_iter()
+            .map(|(packet_id, (_, publish))| (*packet_id, publish.clone()))
+            .collect()
     }
 
     pub fn id(&self) -> &str {
-- 
2.43.0


From 1bf1d5a283c8942092c92abf50bb534c4f9d77fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 21/49] fix: never give a new publish the packet id of one in
 flight

---
 vaux-broker/src/lib.rs     |  9 ++++++++-
 vaux-broker/src/session.rs | 20 ++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index f04c36b..2ff1dec 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -694,7 +694,14 @@ impl Broker {
                 out.set_qos(qos);
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
-                    let packet_id = target.next_packet_id();
+                    let Some(packet_id) = target.next_packet_id() else {
+                        tracing::warn!(
+                            session_id = %sub.session_id,
+                            topic = %publish.topic_name,
+                            "no packet identifier available"
+                        );
+                        continue;
+                    };
                     let _ = out.set_packet_id(Some(packet_id));
                     target.track_qos_publish(packet_id, out.clone());
                     if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 4095bff..1cfa5af 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -276,13 +276,21 @@ impl Session {
         }
     }
 
-    pub fn next_packet_id(&mut self) -> u16 {
-        let id = self.next_packet_id;
-        self.next_packet_id = self.next_packet_id.wrapping_add(1);
-        if self.next_packet_id == 0 {
-            self.next_packet_id = 1;
+    /// Returns the next packet identifier that is not in use, or `None` when all of them are.
+    pub fn next_packet_id(&mut self) -> Option<u16> {
+        if self.pending_ack.len() >= u16::MAX as usize {
+            return None;
+        }
+        loop {
+            let id = self.next_packet_id;
+            self.next_packet_id = self.next_packet_id.wrapping_add(1);
+            if self.next_packet_id == 0 {
+                self.next_packet_id = 1;
+            }
+            if !self.pending_ack.contains_key(&id) {
+                return Some(id);
+            }
         }
-        id
     }
 
     pub fn track_qos_publish(&mut self, packet_id: u16, publish: Publish) {
-- 
2.43.0


From 38b93a0dc7fc56d0c03455ecb0ce94075f2f2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 22/49] fix: let only sent packets defer the client's keep
 alive ping

---
 vaux-client/src/client.rs  | 12 +++++++++---
 vaux-client/src/session.rs | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index efaf3c2..171c412 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -11,6 +11,7 @@ use tokio::{
         Receiver, Sender,
     },
     task::JoinHandle,
+    time::Instant,
 };
 use vaux_mqtt::{Packet, PacketType, QoSLevel, Subscribe, SubscriptionFilter};
 
@@ -363,7 +364,7 @@ impl MqttClient {
             let mut pending_forward: Option<Packet> = None;
             loop {
                 select! {
-                    _ = MqttClient::keep_alive_timer(keep_alive), if keep_alive_enabled => {
+                    _ = MqttClient::keep_alive_timer(session.last_sent(), keep_alive), if keep_alive_enabled => {
                         match session.handle_keep_alive().await {
                             Ok(_) => {
                                 // do nothing
@@ -478,8 +479,13 @@ impl MqttClient {
         Ok(())
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
+    /// Completes when nothing has been sent for the keep alive interval. Packets received do
+    /// not count, and an interval of zero turns the keep alive off.
+    async fn keep_alive_timer(last_sent: Instant, keep_alive: Duration) {
+        if keep_alive.is_zero() {
+            return std::future::pending().await;
+        }
+        tokio::time::sleep_until(last_sent + keep_alive).await;
     }
 
     /// Retries delivery of a previously-undeliverable packet to its filtered
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 98ebad4..a8a56b7 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -2,6 +2,7 @@ use crate::{ErrorKind, MqttClient, MqttError};
 use std::mem;
 use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::sync::{Mutex, RwLock};
+use tokio::time::Instant;
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
 use vaux_mqtt::pubresp::PubResp;
@@ -120,7 +121,7 @@ impl SessionState {
 pub(crate) struct ClientSession {
     connected: Arc<RwLock<bool>>,
     packet_stream: vaux_async::stream::PacketStream,
-    last_active: std::time::Instant,
+    last_sent: Instant,
     state: SessionState,
     usable: bool,
 }
@@ -146,7 +147,7 @@ impl ClientSession {
                 None,
                 Some(state.max_packet_size),
             ),
-            last_active: std::time::Instant::now(),
+            last_sent: Instant::now(),
             state,
             usable: true,
         })
@@ -172,6 +173,11 @@ impl ClientSession {
         *self.state.session_expiry.read().await
     }
 
+    /// The time the last packet was sent to the broker.
+    pub(crate) fn last_sent(&self) -> Instant {
+        self.last_sent
+    }
+
     pub(crate) fn auto_ack(&self) -> bool {
         self.state.auto_ack
     }
@@ -217,6 +223,7 @@ impl ClientSession {
             boxed_connect.encode(&mut dest).unwrap();
         }
 
+        self.last_sent = Instant::now();
         match self.packet_stream.write(&mut connect_packet).await {
             Ok(_) => {
                 let start = std::time::Instant::now();
@@ -705,13 +712,11 @@ impl ClientSession {
     pub(crate) async fn handle_keep_alive(&mut self) -> Result<(), MqttError> {
         let ping = Packet::PingRequest(Default::default());
         self.send_packet(ping).await?;
-        // packet sent, update last active time
-        self.last_active = std::time::Instant::now();
-        // }
         Ok(())
     }
 
     async fn send_packet(&mut self, mut packet: Packet) -> Result<(), MqttError> {
+        self.last_sent = Instant::now();
         self.packet_stream
             .write(&mut packet)
             .await
-- 
2.43.0


From e6baeeaf051a1d1377c8aa8b91b5e6e42b7fbbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 23/49] fix: measure the keep alive from the last packet of the
 client

---
 vaux-broker/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 2ff1dec..3bd629b 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -15,6 +15,7 @@ use tokio::{
     select,
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
     task::{yield_now, JoinHandle},
+    time::Instant,
 };
 use topic::{valid_topic_filter, valid_topic_name, TopicTree};
 use uuid::Uuid;
@@ -209,6 +210,8 @@ impl Broker {
         let mut client_session: Option<Arc<RwLock<Session>>> = None;
         let mut session_control: Option<Receiver<SessionControl>> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
+        // only packets from the client extend the keep alive, not what is sent to it
+        let mut last_received = Instant::now();
         loop {
             select! {
                 ctrl = Broker::handle_control(&mut session_control) => {
@@ -241,7 +244,7 @@ impl Broker {
                         }
                     }
                 }
-                _ = Broker::keep_alive_timer(keep_alive) => {
+                _ = Broker::keep_alive_timer(last_received, keep_alive) => {
                     if let Some(session) = &client_session {
                         let session_id = session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
@@ -253,6 +256,7 @@ impl Broker {
                     }
                 }
                 packet_result = stream.read() => {
+                    last_received = Instant::now();
                     match packet_result {
                         Ok(Some(packet)) => {
                             if !connected {
@@ -497,12 +501,12 @@ impl Broker {
         // handle keep alive request
         let keep_alive = if connect.keep_alive < default_keep_alive_secs {
             ack.set_server_keep_alive(default_keep_alive_secs);
-            Duration::from_secs((default_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(default_keep_alive_secs as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else if connect.keep_alive > max_keep_alive_secs {
             ack.set_server_keep_alive(max_keep_alive_secs);
-            Duration::from_secs((max_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(max_keep_alive_secs as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else {
-            Duration::from_secs((connect.keep_alive as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(connect.keep_alive as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         };
         // handle the session expiry request
         let session_expiry = if let Some(requested_expiry) = connect.session_expiry_interval {
@@ -607,8 +611,13 @@ impl Broker {
         Ok(Some(Arc::clone(&session)))
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
+    /// Completes when the client has not sent anything for the keep alive time. A time of zero
+    /// turns the keep alive off.
+    async fn keep_alive_timer(last_received: Instant, keep_alive: Duration) {
+        if keep_alive.is_zero() {
+            return std::future::pending().await;
+        }
+        tokio::time::sleep_until(last_received + keep_alive).await;
     }
 
     async fn handle_takeover(session: Arc<RwLock<Session>>) -> Result<(), BrokerError> {
-- 
2.43.0


From 09169760d055ddbfd13fc92ac823e53f86d1f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 24/49] fix: let a connection end only the session it still
 owns

A connection that ended after its session was taken over published the will of
the new connection and deactivated its session; a closed or timed out connection
stayed open and could end its session twice.
---
 vaux-broker/src/lib.rs     | 285 +++++++++++++++++++++----------------
 vaux-broker/src/session.rs |  21 +++
 2 files changed, 181 insertions(+), 125 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 3bd629b..dc70152 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -14,9 +14,10 @@ use tokio::{
     net::TcpListener,
     select,
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
-    task::{yield_now, JoinHandle},
+    task::JoinHandle,
     time::Instant,
 };
+use tokio_util::sync::CancellationToken;
 use topic::{valid_topic_filter, valid_topic_name, TopicTree};
 use uuid::Uuid;
 use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
@@ -96,6 +97,14 @@ impl BrokerState {
     }
 }
 
+/// The session of a connected client and the number of the connection the session had when
+/// the client connected.
+#[derive(Debug)]
+struct Connection {
+    session: Arc<RwLock<Session>>,
+    epoch: u64,
+}
+
 #[derive(Debug)]
 pub struct Broker {
     state: BrokerState,
@@ -206,8 +215,27 @@ impl Broker {
         stream: &mut PacketStream,
         state: BrokerState,
     ) -> Result<(), BrokerError> {
-        let mut connected = false;
-        let mut client_session: Option<Arc<RwLock<Session>>> = None;
+        let kick = CancellationToken::new();
+        let mut connection: Option<Connection> = None;
+        let result = select! {
+            result = Broker::serve(stream, &state, &kick, &mut connection) => result,
+            _ = kick.cancelled() => Ok(()),
+        };
+        if let Some(connection) = connection {
+            Broker::end_connection(&connection, &state).await;
+        }
+        let _ = stream.shutdown().await;
+        result
+    }
+
+    /// Serves a client until the connection ends. Once the client is connected `connection`
+    /// refers to its session.
+    async fn serve(
+        stream: &mut PacketStream,
+        state: &BrokerState,
+        kick: &CancellationToken,
+        connection: &mut Option<Connection>,
+    ) -> Result<(), BrokerError> {
         let mut session_control: Option<Receiver<SessionControl>> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
         // only packets from the client extend the keep alive, not what is sent to it
@@ -215,87 +243,63 @@ impl Broker {
         loop {
             select! {
                 ctrl = Broker::handle_control(&mut session_control) => {
-                    if let Some(control) = ctrl {
-                        match control {
-                            SessionControl::Disconnect(reason) => {
-                                if let Some(session) = &client_session {
-                                    let session_id = {
-                                        let session = session.read().await;
-                                        (*session).id().to_string()
-                                    };
-                                    match reason {
-                                        Reason::SessionTakeOver => {
-                                            // the session will already be deactivated and taken over
-                                            // by another client, just send the disconnect packet
-                                        }
-                                        _ => {
-                                            state.session_pool.write().await.deactivate(&session_id).await;
-                                        }
-                                    }
-                                    stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
-                                } else {
-                                    stream.shutdown().await?;
-                                    return Ok(());
-                                }
-                            }
-                            SessionControl::Deliver(publish) => {
-                                stream.write(&mut Packet::Publish(*publish)).await?;
-                            }
+                    match ctrl {
+                        Some(SessionControl::Disconnect(reason)) => {
+                            stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
+                            return Ok(());
                         }
+                        Some(SessionControl::Deliver(publish)) => {
+                            stream.write(&mut Packet::Publish(*publish)).await?;
+                        }
+                        None => return Ok(()),
                     }
                 }
                 _ = Broker::keep_alive_timer(last_received, keep_alive) => {
-                    if let Some(session) = &client_session {
-                        let session_id = session.read().await.id().to_string();
+                    if let Some(connection) = connection {
+                        let session_id = connection.session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
-                        Broker::initiate_will(session, &state).await;
-                        state.session_pool.write().await.deactivate(&session_id).await;
-                    } else {
-                        stream.shutdown().await?;
-                        return Ok(());
                     }
+                    return Ok(());
                 }
                 packet_result = stream.read() => {
                     last_received = Instant::now();
                     match packet_result {
                         Ok(Some(packet)) => {
-                            if !connected {
-                                if let Some(session) = Broker::handle_pre_connect(packet, stream, &state).await? {
-                                    let pending = {
-                                        let mut session = session.write().await;
-                                        keep_alive = session.keep_alive();
-                                        session_control = session.take_control_receiver();
-                                        session.unacknowledged()
-                                    };
-                                    for (packet_id, mut publish) in pending {
-                                        publish.set_dup(true).ok();
-                                        let _ = publish.set_packet_id(Some(packet_id));
-                                        stream.write(&mut Packet::Publish(publish)).await?;
-                                    }
-                                    client_session = Some(Arc::clone(&session));
-                                } else {
-                                    continue;
+                            if let Some(connection) = connection {
+                                if !Broker::handle_packet(packet, stream, connection, state).await? {
+                                    return Ok(());
                                 }
-                                connected = true;
-                            } else if let Some(session) = &client_session {
-                                Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
+                                continue;
+                            }
+                            let keep_open = matches!(packet, Packet::PingRequest(_));
+                            let pending =
+                                Broker::handle_pre_connect(packet, stream, state, kick, connection).await?;
+                            if let Some(connection) = connection {
+                                {
+                                    let mut session = connection.session.write().await;
+                                    keep_alive = session.keep_alive();
+                                    session_control = session.take_control_receiver();
+                                }
+                                for (packet_id, mut publish) in pending {
+                                    publish.set_dup(true).ok();
+                                    let _ = publish.set_packet_id(Some(packet_id));
+                                    stream.write(&mut Packet::Publish(publish)).await?;
+                                }
+                            } else if !keep_open {
+                                return Ok(());
                             }
                         }
                         Ok(None) => {
-                            if let Some(session) = &client_session {
-                                let session_id = session.read().await.id().to_string();
+                            if let Some(connection) = connection {
+                                let session_id = connection.session.read().await.id().to_string();
                                 tracing::info!(session_id = %session_id, "connection closed");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
                             }
                             return Ok(());
                         }
                         Err(e) => {
-                            if let Some(session) = &client_session {
-                                let session_id = session.read().await.id().to_string();
+                            if let Some(connection) = connection {
+                                let session_id = connection.session.read().await.id().to_string();
                                 tracing::warn!(session_id = %session_id, error = %e, "connection error");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
                             }
                             return Err(e.into());
                         }
@@ -305,17 +309,40 @@ impl Broker {
         }
     }
 
+    /// Publishes the will of a connection that ended and deactivates its session, unless
+    /// another connection has taken the session over.
+    async fn end_connection(connection: &Connection, state: &BrokerState) {
+        Broker::initiate_will(connection, state).await;
+        let mut session_pool = state.session_pool.write().await;
+        let session_id = {
+            let session = connection.session.read().await;
+            if session.connection() != connection.epoch {
+                return;
+            }
+            session.id().to_string()
+        };
+        match session_pool.get_active(&session_id) {
+            Some(session) if Arc::ptr_eq(&session, &connection.session) => {
+                session_pool.deactivate(&session_id).await;
+            }
+            _ => {}
+        }
+    }
+
+    /// Handles a packet of a connected client. Returns `false` when the packet ends the
+    /// connection.
     async fn handle_packet(
         packet: Packet,
         stream: &mut PacketStream,
-        session: Arc<RwLock<Session>>,
+        connection: &Connection,
         state: &BrokerState,
-    ) -> Result<(), BrokerError> {
+    ) -> Result<bool, BrokerError> {
+        let session = &connection.session;
         match packet {
             Packet::PingRequest(_p) => {
                 let mut packet = PingResponse(PingResp::default());
                 stream.write(&mut packet).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Subscribe(subscribe) => {
                 let session_id = {
@@ -324,7 +351,7 @@ impl Broker {
                 };
                 let suback = Broker::handle_subscribe(&subscribe, &session_id, state).await;
                 stream.write(&mut Packet::SubAck(suback)).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Unsubscribe(unsubscribe) => {
                 let session_id = {
@@ -333,7 +360,7 @@ impl Broker {
                 };
                 let unsuback = Broker::handle_unsubscribe(&unsubscribe, &session_id, state).await;
                 stream.write(&mut Packet::UnsubAck(unsuback)).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Publish(publish) => {
                 if !valid_topic_name(&publish.topic_name) {
@@ -361,33 +388,23 @@ impl Broker {
                     }
                 }
                 Broker::route_publish(&publish, &session_id, state).await;
-                Ok(())
+                Ok(true)
             }
             Packet::PubAck(puback) => {
                 let mut session = session.write().await;
                 session.acknowledge(puback.packet_id);
-                Ok(())
+                Ok(true)
             }
             Packet::Disconnect(packet) => {
                 if let Reason::Success = packet.reason {
                     let mut session = session.write().await;
-                    session.clear_will();
-                } else {
-                    Broker::initiate_will(&session, state).await;
+                    if session.connection() == connection.epoch {
+                        session.clear_will();
+                    }
                 }
-                let session_id = {
-                    let session = session.read().await;
-                    (*session).id().to_string()
-                };
-                state
-                    .session_pool
-                    .write()
-                    .await
-                    .deactivate(&session_id)
-                    .await;
-                Ok(())
+                Ok(false)
             }
-            _ => Ok(()),
+            _ => Ok(true),
         }
     }
 
@@ -443,21 +460,21 @@ impl Broker {
     async fn handle_control(
         control_channel: &mut Option<Receiver<SessionControl>>,
     ) -> Option<SessionControl> {
-        loop {
-            if let Some(rx) = control_channel {
-                if let Some(control) = rx.recv().await {
-                    return Some(control);
-                }
-            }
-            yield_now().await;
+        match control_channel {
+            Some(rx) => rx.recv().await,
+            None => std::future::pending().await,
         }
     }
 
+    /// Handles a packet of a client that is not connected. When it connects the client,
+    /// `connection` is set and the publishes to redeliver are returned.
     async fn handle_pre_connect(
         packet: Packet,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
+        kick: &CancellationToken,
+        connection: &mut Option<Connection>,
+    ) -> Result<Vec<(u16, Publish)>, BrokerError> {
         match packet {
             Packet::Connect(packet) => {
                 if !state.accepting_connections() {
@@ -465,21 +482,20 @@ impl Broker {
                     let mut ack = ConnAck::default();
                     ack.reason = Reason::ServerBusy;
                     stream.write(&mut Packet::ConnAck(ack)).await?;
-                    stream.shutdown().await?;
-                    return Ok(None);
+                    return Ok(Vec::new());
                 }
-                Broker::handle_connect(*packet, stream, state).await
+                Broker::handle_connect(*packet, stream, state, kick, connection).await
             }
             Packet::PingRequest(_packet) => {
                 let mut packet = PingResponse(PingResp::default());
                 stream.write(&mut packet).await?;
-                Ok(None)
+                Ok(Vec::new())
             }
             _ => {
                 let header = Disconnect::new(Reason::ProtocolErr);
                 let mut packet = Packet::Disconnect(header);
                 stream.write(&mut packet).await?;
-                Ok(None)
+                Ok(Vec::new())
             }
         }
     }
@@ -488,7 +504,9 @@ impl Broker {
         connect: Connect,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
+        kick: &CancellationToken,
+        connection: &mut Option<Connection>,
+    ) -> Result<Vec<(u16, Publish)>, BrokerError> {
         let session_id: String;
         let mut ack = ConnAck::default();
         let (default_keep_alive_secs, max_keep_alive_secs) = {
@@ -544,10 +562,10 @@ impl Broker {
             tracing::info!(session_id = %session_id, "connection rejected: max active sessions reached");
             ack.reason = Reason::QuotaExceeded;
             stream.write(&mut Packet::ConnAck(ack)).await?;
-            stream.shutdown().await?;
-            return Ok(None);
+            return Ok(Vec::new());
         }
 
+        let mut displaced_will = None;
         let session: Arc<RwLock<Session>> = if connect.clean_start() {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
                 let connected = { existing_session.read().await.connected() };
@@ -580,6 +598,11 @@ impl Broker {
                     let mut session = session.write().await;
                     ack.set_session_present(true);
                     session.cancel_pending_will();
+                    // the displaced connection may not have ended yet: its will is due now, or
+                    // not at all when it has a delay
+                    displaced_will = session
+                        .take_will()
+                        .filter(|will| will.header.will_delay.unwrap_or(0) == 0);
                     session.set_will(connect.will_message());
                     session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
@@ -599,20 +622,27 @@ impl Broker {
                 new_session
             }
         };
-        drop(session_pool);
-        {
-            let mut session = session.write().await;
+        let pending = {
+            let mut attached = session.write().await;
             if let Some(expiry) = session_expiry {
-                session.set_session_expiry(expiry);
+                attached.set_session_expiry(expiry);
             }
+            attached.set_kick(kick.clone());
+            *connection = Some(Connection {
+                session: Arc::clone(&session),
+                epoch: attached.connection(),
+            });
+            attached.unacknowledged()
+        };
+        drop(session_pool);
+        if let Some(will) = displaced_will {
+            Broker::publish_will(&will, state).await;
         }
         tracing::info!(session_id = %session_id, "client connected");
         stream.write(&mut Packet::ConnAck(ack)).await?;
-        Ok(Some(Arc::clone(&session)))
+        Ok(pending)
     }
 
-    /// Completes when the client has not sent anything for the keep alive time. A time of zero
-    /// turns the keep alive off.
     async fn keep_alive_timer(last_received: Instant, keep_alive: Duration) {
         if keep_alive.is_zero() {
             return std::future::pending().await;
@@ -621,41 +651,46 @@ impl Broker {
     }
 
     async fn handle_takeover(session: Arc<RwLock<Session>>) -> Result<(), BrokerError> {
-        session
+        let _ = session
             .read()
             .await
-            .disconnect(Reason::SessionTakeOver)
-            .await;
+            .try_send_control(SessionControl::Disconnect(Reason::SessionTakeOver));
         // TODO wait for disconnect to complete from session state
         tokio::time::sleep(Duration::from_millis(500)).await;
+        session.read().await.kick();
         Ok(())
     }
 
-    async fn initiate_will(session: &Arc<RwLock<Session>>, state: &BrokerState) {
-        let will = {
-            let mut session = session.write().await;
-            session.take_will()
+    async fn initiate_will(connection: &Connection, state: &BrokerState) {
+        let due = {
+            let mut session = connection.session.write().await;
+            if session.connection() != connection.epoch {
+                return;
+            }
+            session.take_will().map(|will| {
+                let delay_secs = will.header.will_delay.unwrap_or(0);
+                let token = (delay_secs > 0).then(CancellationToken::new);
+                if let Some(token) = &token {
+                    session.set_pending_will(token.clone());
+                }
+                (will, delay_secs, token)
+            })
         };
 
-        if let Some(will) = will {
+        if let Some((will, delay_secs, token)) = due {
             tracing::debug!(topic = %will.topic, "publishing will message");
-            let delay_secs = will.header.will_delay.unwrap_or(0);
-            if delay_secs == 0 {
-                Broker::publish_will(&will, state).await;
-            } else {
-                let token = tokio_util::sync::CancellationToken::new();
-                let child_token = token.child_token();
+            if let Some(token) = token {
                 let state = state.clone();
                 tokio::spawn(async move {
                     tokio::select! {
                         _ = tokio::time::sleep(Duration::from_secs(delay_secs as u64)) => {
                             Broker::publish_will(&will, &state).await;
                         }
-                        _ = child_token.cancelled() => {}
+                        _ = token.cancelled() => {}
                     }
                 });
-                let mut session = session.write().await;
-                session.set_pending_will(token);
+            } else {
+                Broker::publish_will(&will, state).await;
             }
         }
     }
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 1cfa5af..f7172a1 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -193,6 +193,8 @@ pub struct Session {
     pending_ack: HashMap<u16, (u64, Publish)>,
     next_pending_seq: u64,
     control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
+    connection: u64,
+    kick: CancellationToken,
 }
 
 impl Session {
@@ -216,12 +218,31 @@ impl Session {
             pending_ack: HashMap::new(),
             next_pending_seq: 0,
             control: (sender, Some(receiver)),
+            connection: 0,
+            kick: CancellationToken::new(),
         }
     }
 
+    /// Starts a new connection of the session with its own control channel.
     pub fn reset_control(&mut self, channel_size: usize) {
         let (sender, receiver) = mpsc::channel(channel_size);
         self.control = (sender, Some(receiver));
+        self.connection += 1;
+    }
+
+    /// Returns the number of the current connection of the session.
+    pub fn connection(&self) -> u64 {
+        self.connection
+    }
+
+    /// Sets the token that ends the current connection of the session.
+    pub fn set_kick(&mut self, kick: CancellationToken) {
+        self.kick = kick;
+    }
+
+    /// Ends the current connection of the session, even when it is blocked.
+    pub fn kick(&self) {
+        self.kick.cancel();
     }
 
     pub fn control_sender(&self) -> Sender<SessionControl> {
-- 
2.43.0


From e836cd2844ef7fbd9c51e90ce90a6e21cd553231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 25/49] fix: disconnect a subscriber whose queue overflows

The DISCONNECT went to the queue that was full and was lost.
---
 vaux-broker/src/lib.rs     |  9 ++++-----
 vaux-broker/src/session.rs | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index dc70152..121676d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -742,29 +742,28 @@ impl Broker {
                         tracing::warn!(
                             session_id = %sub.session_id,
                             topic = %publish.topic_name,
-                            "no packet identifier available"
+                            "no packet identifier available, disconnecting"
                         );
+                        target.kick();
                         continue;
                     };
                     let _ = out.set_packet_id(Some(packet_id));
                     target.track_qos_publish(packet_id, out.clone());
-                    if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
+                    if !target.deliver(out) {
                         tracing::warn!(
                             session_id = %sub.session_id,
                             topic = %publish.topic_name,
                             "slow subscriber: channel full, disconnecting"
                         );
-                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
                     }
                 } else {
                     let target = target_session.read().await;
-                    if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
+                    if !target.deliver(out) {
                         tracing::warn!(
                             session_id = %sub.session_id,
                             topic = %publish.topic_name,
                             "slow subscriber: channel full, disconnecting"
                         );
-                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
                     }
                 }
             }
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index f7172a1..3a7a72f 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -271,6 +271,21 @@ impl Session {
         self.control.0.try_send(msg)
     }
 
+    /// Queues a publish for the current connection. When the queue is full the connection ends,
+    /// and nothing is queued for it from then on so that the order is kept.
+    pub fn deliver(&self, publish: Publish) -> bool {
+        if self.kick.is_cancelled() {
+            return false;
+        }
+        let queued = self
+            .try_send_control(SessionControl::Deliver(Box::new(publish)))
+            .is_ok();
+        if !queued {
+            self.kick();
+        }
+        queued
+    }
+
     /// Clears the will message from the session. This is typically done on a successful
     /// disconnect `0x00` `Success`. See MQTT 5.0 specification,
     /// (3.14.4 DICONNECT Actions)[https://docs.oasis-open.org/mqtt/mqtt/v5.0/os/mqtt-v5.0-os.html#_Toc3901216]
-- 
2.43.0


From c82b1d591a232fed5ecdb4ade31d18cae194efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 26/49] fix: acknowledge a publish only after it has been
 routed

---
 vaux-broker/src/lib.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 121676d..906b94e 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -372,22 +372,19 @@ impl Broker {
                     let session = session.read().await;
                     session.id().to_string()
                 };
-                if publish.qos() == QoSLevel::AtLeastOnce {
-                    match publish.packet_id() {
-                        Some(packet_id) => {
-                            let puback = vaux_mqtt::PubAck::new_puback_with_packet_id(packet_id);
-                            stream.write(&mut Packet::PubAck(puback)).await?;
-                        }
-                        None => {
-                            let disconnect = Disconnect::new(Reason::MalformedPacket);
-                            stream.write(&mut Packet::Disconnect(disconnect)).await?;
-                            return Err(MqttCodecError::new(
-                                "QoS-1 PUBLISH missing packet ID",
-                            ).into());
-                        }
-                    }
+                if publish.qos() == QoSLevel::AtLeastOnce && publish.packet_id().is_none() {
+                    let disconnect = Disconnect::new(Reason::MalformedPacket);
+                    stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                    return Err(MqttCodecError::new(
+                        "QoS-1 PUBLISH missing packet ID",
+                    ).into());
                 }
                 Broker::route_publish(&publish, &session_id, state).await;
+                if publish.qos() == QoSLevel::AtLeastOnce && let Some(packet_id) = publish.packet_id() {
+                    // only a publish that has been routed is acknowledged
+                    let puback = vaux_mqtt::PubAck::new_puback_with_packet_id(packet_id);
+                    stream.write(&mut Packet::PubAck(puback)).await?;
+                }
                 Ok(true)
             }
             Packet::PubAck(puback) => {
-- 
2.43.0


From cf5631b36963c083ecdc1c75e41062c364e7216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 27/49] fix: end the connection on a packet a connected client
 must not send

---
 vaux-broker/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 906b94e..cd2e510 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -401,6 +401,15 @@ impl Broker {
                 }
                 Ok(false)
             }
+            Packet::Connect(_)
+            | Packet::ConnAck(_)
+            | Packet::SubAck(_)
+            | Packet::UnsubAck(_)
+            | Packet::PingResponse(_) => {
+                let disconnect = Disconnect::new(Reason::ProtocolErr);
+                stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                Ok(false)
+            }
             _ => Ok(true),
         }
     }
-- 
2.43.0


From e680b5c30bb4b79e9bf2942e5feec612f2c16bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 28/49] fix: store the client id the broker assigned

The lock on the client id was held while taking it again, so that a client without
an id never finished connecting; an empty id was never replaced.
---
 vaux-client/src/session.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index a8a56b7..56edb8c 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -561,8 +561,13 @@ impl ClientSession {
     }
 
     async fn handle_connack(&mut self, connack: ConnAck) -> crate::Result<ConnAck> {
-        let set_id = self.state.client_id.lock().await;
-        let client_id_set = set_id.is_some();
+        let client_id_set = self
+            .state
+            .client_id
+            .lock()
+            .await
+            .as_ref()
+            .is_some_and(|client_id| !client_id.is_empty());
         if connack.reason != Reason::Success {
             // TODO return the connack reason as MQTT error with reason code
             let mut connected = self.connected.write().await;
-- 
2.43.0


From dc4a4ee70b7f65d294a06bee8c6d665bffaeeba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 29/49] fix: stop waiting for the CONNACK after the maximum
 connect wait

---
 vaux-client/src/client.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 171c412..e8e0ad1 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -334,10 +334,19 @@ impl MqttClient {
         let _keep_alive = self.keep_alive.clone();
         let _session_expiry = self.session_expiry.clone();
         Ok(tokio::spawn(async move {
-            match session
-                .connect(max_connect_wait, credentials, clean_start, will_message)
-                .await
+            let connect_result = match tokio::time::timeout(
+                max_connect_wait,
+                session.connect(max_connect_wait, credentials, clean_start, will_message),
+            )
+            .await
             {
+                Ok(result) => result,
+                Err(_) => Err(MqttError::new(
+                    "unable to connect to broker",
+                    ErrorKind::Timeout,
+                )),
+            };
+            match connect_result {
                 Ok(_) => *connected.write().await = true,
                 Err(e) => {
                     *connected.write().await = false;
-- 
2.43.0


From 742b2fa496b03459a801e04d5fba5ac0277bd7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 30/49] fix: never send a publish with packet id 0

---
 vaux-client/src/session.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 56edb8c..6581bf9 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -302,6 +302,12 @@ impl ClientSession {
                     }
                     // verify client set packet ID is not already in use
                     if let Some(packet_id) = p.packet_id() {
+                        if packet_id == 0 {
+                            return Err(MqttError::new(
+                                "packet ID must not be 0",
+                                ErrorKind::Protocol(Reason::MalformedPacket),
+                            ));
+                        }
                         if self.state.pending_qos_send.contains_key(&packet_id) {
                             return Err(MqttError::new(
                                 "packet ID already in use",
@@ -313,10 +319,11 @@ impl ClientSession {
                         self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         // verify the packet ID is not already in use
                         // TODO improve in-use packet ID managment
-                        while self
-                            .state
-                            .pending_qos_send
-                            .contains_key(&self.state.last_packet_id)
+                        while self.state.last_packet_id == 0
+                            || self
+                                .state
+                                .pending_qos_send
+                                .contains_key(&self.state.last_packet_id)
                         {
                             self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         }
-- 
2.43.0


From 5ad16badb229962c64d3e94e401913113f0b66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 31/49] fix: pass a QoS 2 publish on once and account for the
 receive maximum

A publish sent again was passed on again and used up the receive quota, which could
underflow; the receive maximum was not announced in CONNECT; a PUBREL sent again
after its PUBCOMP was lost ended the client.
---
 vaux-client/src/builder.rs |   3 +-
 vaux-client/src/session.rs | 187 ++++++++++++++++---------------------
 vaux-mqtt/src/pubresp.rs   |   5 +-
 3 files changed, 89 insertions(+), 106 deletions(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index 1ec76e6..f4feea8 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -85,7 +85,8 @@ impl ClientBuilder {
     }
 
     pub fn with_receive_max(mut self, receive_max: u16) -> Self {
-        self.state.qos_recv_remaining = receive_max as usize;
+        // a receive maximum of 0 is a protocol error
+        self.state.receive_max = receive_max.max(1);
         self
     }
 
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 6581bf9..780341c 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -76,7 +76,7 @@ pub struct SessionState {
 
     pub(crate) qos_send_remaining: usize,
     pending_qos_send: HashMap<u16, QoSPacketState>,
-    pub(crate) qos_recv_remaining: usize,
+    pub(crate) receive_max: u16,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
 
     pub(crate) max_packet_size: usize,
@@ -105,7 +105,7 @@ impl SessionState {
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
             qos_send_remaining: u16::MAX as usize,
             pending_qos_send: HashMap::new(),
-            qos_recv_remaining: u16::MAX as usize,
+            receive_max: u16::MAX,
             pending_qos_recv: HashMap::new(),
 
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
@@ -208,6 +208,9 @@ impl ClientSession {
                 connect.client_id = set_id.as_ref().unwrap().clone();
             }
         }
+        if self.state.receive_max != u16::MAX {
+            connect.receive_maximum = Some(self.state.receive_max);
+        }
         connect
             .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs() as u32);
         if let Some((username, password)) = credentials {
@@ -388,7 +391,7 @@ impl ClientSession {
                 ));
             }
             Packet::Publish(publish) => {
-                self.handle_recv_publish(publish.clone()).await?;
+                packet_to_consumer = self.handle_recv_publish(publish.clone()).await?;
             }
             Packet::PubAck(puback) => {
                 if let Some(p) = self.state.pending_qos_send.get(&puback.packet_id) {
@@ -499,7 +502,6 @@ impl ClientSession {
                                     Ok(_) => {
                                         // remove from pending qos
                                         self.state.pending_qos_recv.remove(&packet_id);
-                                        self.state.qos_recv_remaining += 1;
                                     }
                                     Err(_) => {
                                         // re-insert into pending qos without change
@@ -522,13 +524,11 @@ impl ClientSession {
                             ));
                         }
                     }
-                } else {
-                    // protocol error, unexpected packet
-                    // TODO disconnect
-                    return Err(MqttError::new(
-                        "unexpected packet",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
+                } else if self.state.auto_ack {
+                    // the PUBCOMP of an exchange that is over was lost
+                    let mut pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
+                    let _ = pubcomp.set_reason(Reason::PacketIdNotFound);
+                    self.send_packet(Packet::PubComp(pubcomp)).await?;
                 }
             }
             Packet::PubComp(pubcomp) => {
@@ -620,105 +620,84 @@ impl ClientSession {
         Ok(connack)
     }
 
-    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<()> {
-        match publish.qos() {
-            vaux_mqtt::QoSLevel::AtMostOnce => Ok(()),
-
-            vaux_mqtt::QoSLevel::AtLeastOnce => {
-                if self.state.qos_recv_remaining == 0 {
-                    // protocol error, no more QoS packets allowed
+    /// Returns whether the publish has to be passed on to the client application, which is not
+    /// the case for a QoS-2 publish that has already been passed on.
+    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<bool> {
+        if publish.qos() == QoSLevel::AtMostOnce {
+            return Ok(true);
+        }
+        let Some(packet_id) = publish.packet_id() else {
+            // TODO send disconnect with reason cod
+            let _ = self.packet_stream.shutdown().await;
+            return Err(MqttError::new(
+                "protocol error, packet ID required with QoS > 0",
+                ErrorKind::Protocol(Reason::MalformedPacket),
+            ));
+        };
+        let pending = self.state.pending_qos_recv.get(&packet_id).map(|p| p.next);
+        if pending.is_none()
+            && self.state.pending_qos_recv.len() >= self.state.receive_max as usize
+        {
+            // protocol error, no more QoS packets allowed
+            return Err(MqttError::new(
+                "no more QoS packets allowed",
+                ErrorKind::Protocol(Reason::ProtocolErr),
+            ));
+        }
+        if publish.qos() == QoSLevel::AtLeastOnce {
+            // not auto ack, pending until client app sends response
+            self.state.pending_qos_recv.insert(
+                packet_id,
+                QoSPacketState::new_qos1(Packet::Publish(publish)),
+            );
+            if self.state.auto_ack {
+                let puback = PubResp::new_puback_with_packet_id(packet_id);
+                if self.send_packet(Packet::PubAck(puback)).await.is_err() {
+                    // TODO handle the pub ack next time through
+                    // push a message to the last error channel
                     return Err(MqttError::new(
-                        "no more QoS packets allowed",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
+                        "unable to send pub ack",
+                        ErrorKind::Transport,
                     ));
                 }
-                // insert into pending receive QoS
-                self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
-                    QoSPacketState::new_qos1(Packet::Publish(publish.clone())),
-                );
-                if self.state.auto_ack {
-                    let puback = if let Some(packet_id) = publish.packet_id() {
-                        PubResp::new_puback_with_packet_id(packet_id)
-                    } else {
-                        // TODO send disconnect with reason cod
-                        let _ = self.packet_stream.shutdown().await;
-                        return Err(MqttError::new(
-                            "protocol error, packet ID required with QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    };
-                    self.state.qos_recv_remaining -= 1;
-                    match self.send_packet(Packet::PubAck(puback)).await {
-                        Ok(_) => {
-                            self.state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap());
-                            self.state.qos_recv_remaining += 1;
-                            Ok(())
-                        }
-                        Err(_) => {
-                            // TODO handle the pub ack next time through
-                            // push a message to the last error channel
-                            Err(MqttError::new(
-                                "unable to send pub ack",
-                                ErrorKind::Transport,
-                            ))
-                        }
-                    }
-                } else {
-                    // not auto ack, remaining - 1 until client app sends response
-                    self.state.qos_recv_remaining -= 1;
-                    Ok(())
-                }
+                self.state.pending_qos_recv.remove(&packet_id);
             }
-            vaux_mqtt::QoSLevel::ExactlyOnce => {
-                self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
-                    QoSPacketState::new_qos2(Packet::Publish(publish.clone())),
-                );
-                // decrement the remaining QoS packets until ack  sent
-                self.state.qos_recv_remaining -= 1;
-                if self.state.auto_ack {
-                    let pubrec = if let Some(packet_id) = publish.packet_id() {
-                        PubResp::new_pubrec_with_packet_id(packet_id)
-                    } else {
-                        // protocol error, packet ID required with QoS > 0
-                        let _ = self.packet_stream.shutdown().await;
-                        return Err(MqttError::new(
-                            "protocol error, packet ID required with QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    };
-                    match self.send_packet(Packet::PubRec(pubrec)).await {
-                        Ok(_) => {
-                            // move to next state and re-insert into pending qos
-                            let next = self
-                                .state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap())
-                                .map(|p| p.next().unwrap())
-                                .ok_or(MqttError::new(
-                                    "invalid session state",
-                                    ErrorKind::Session,
-                                ))?;
-                            self.state
-                                .pending_qos_recv
-                                .insert(publish.packet_id().unwrap(), next);
-                        }
-                        Err(_) => {
-                            // TODO handle the pub rec next time through
-                            // push a message to the last error channel
-                            return Err(MqttError::new(
-                                "unable to send pub rec",
-                                ErrorKind::Transport,
-                            ));
-                        }
-                    }
-                }
-                Ok(())
+            return Ok(true);
+        }
+        let is_new = match pending {
+            Some(QoSPacket::PubRel) | Some(QoSPacket::PubComp) => false,
+            // the PUBREC is left to the client application, or could not be sent
+            Some(QoSPacket::PubRec) => self.state.auto_ack,
+            Some(QoSPacket::PubAck) | None => true,
+        };
+        if is_new {
+            self.state.pending_qos_recv.insert(
+                packet_id,
+                QoSPacketState::new_qos2(Packet::Publish(publish)),
+            );
+        }
+        if self.state.auto_ack || pending == Some(QoSPacket::PubRel) {
+            let pubrec = PubResp::new_pubrec_with_packet_id(packet_id);
+            if self.send_packet(Packet::PubRec(pubrec)).await.is_err() {
+                // TODO handle the pub rec next time through
+                // push a message to the last error channel
+                return Err(MqttError::new(
+                    "unable to send pub rec",
+                    ErrorKind::Transport,
+                ));
+            }
+            if is_new {
+                // move to next state and re-insert into pending qos
+                let next = self
+                    .state
+                    .pending_qos_recv
+                    .remove(&packet_id)
+                    .map(|p| p.next().unwrap())
+                    .ok_or(MqttError::new("invalid session state", ErrorKind::Session))?;
+                self.state.pending_qos_recv.insert(packet_id, next);
             }
         }
+        Ok(is_new)
     }
 
     pub(crate) async fn handle_keep_alive(&mut self) -> Result<(), MqttError> {
diff --git a/vaux-mqtt/src/pubresp.rs b/vaux-mqtt/src/pubresp.rs
index e165b81..baba10e 100644
--- a/vaux-mqtt/src/pubresp.rs
+++ b/vaux-mqtt/src/pubresp.rs
@@ -115,7 +115,10 @@ impl PubResp {
                     | Reason::PayloadFormatErr
             ),
             PacketType::PubComp | PacketType::PubRel => {
-                matches!(reason, Reason::Success | Reason::PacketIdInUse)
+                matches!(
+                    reason,
+                    Reason::Success | Reason::PacketIdInUse | Reason::PacketIdNotFound
+                )
             }
             _ => false,
         }
-- 
2.43.0


From 59d4a4584f59dac9431d3f50b6349bd63e13682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 32/49] fix: follow the acknowledgements a client application
 sends itself

With automatic acknowledgement off, the responses of the application did not advance
the exchanges, which ran out of receive quota and failed on the PUBCOMP. A refused
PUBREC was answered with a PUBREL.
---
 vaux-client/src/session.rs | 68 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 780341c..5d4c061 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -68,6 +68,11 @@ impl QoSPacketState {
     }
 }
 
+/// A PUBREC with a reason of 0x80 or more refuses the publish and ends the exchange.
+fn refused(pubrec: &PubResp) -> bool {
+    pubrec.reason().is_some_and(|reason| reason as u8 >= 0x80)
+}
+
 #[derive(Debug)]
 pub struct SessionState {
     pub(crate) client_id: Arc<Mutex<Option<String>>>,
@@ -369,10 +374,55 @@ impl ClientSession {
                 *self.connected.write().await = false;
                 Ok(())
             }
+            Packet::PubAck(_) | Packet::PubRec(_) | Packet::PubRel(_) | Packet::PubComp(_) => {
+                self.send_packet(packet.clone()).await?;
+                self.response_sent(&packet);
+                Ok(())
+            }
             _ => self.send_packet(packet).await,
         }
     }
 
+    /// Advances the exchange a response of the client application belongs to.
+    fn response_sent(&mut self, response: &Packet) {
+        let (pending, packet_id, expected, last) = match response {
+            Packet::PubAck(p) => (
+                &mut self.state.pending_qos_recv,
+                p.packet_id,
+                QoSPacket::PubAck,
+                true,
+            ),
+            Packet::PubRec(p) => (
+                &mut self.state.pending_qos_recv,
+                p.packet_id,
+                QoSPacket::PubRec,
+                refused(p),
+            ),
+            Packet::PubComp(p) => (
+                &mut self.state.pending_qos_recv,
+                p.packet_id,
+                QoSPacket::PubComp,
+                true,
+            ),
+            Packet::PubRel(p) => (
+                &mut self.state.pending_qos_send,
+                p.packet_id,
+                QoSPacket::PubRel,
+                false,
+            ),
+            _ => return,
+        };
+        if pending
+            .get(&packet_id)
+            .is_some_and(|state| state.next == expected)
+            && let Some(state) = pending.remove(&packet_id)
+            && !last
+            && let Some(next) = state.next()
+        {
+            pending.insert(packet_id, next);
+        }
+    }
+
     pub(crate) async fn handle_packet(
         &mut self,
         packet: Packet,
@@ -420,8 +470,17 @@ impl ClientSession {
                 let packet_id = pubrec.packet_id;
                 if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
                     match p.next {
+                        // the exchange ends here when the publish was refused
+                        QoSPacket::PubRec if refused(pubrec) => {}
                         QoSPacket::PubRec => {
-                            if self.state.auto_ack {
+                            if !self.state.auto_ack {
+                                // the client application sends the PUBREL
+                                let pubrec_state = p.next().ok_or(MqttError::new(
+                                    "invalid session state",
+                                    ErrorKind::Session,
+                                ))?;
+                                self.state.pending_qos_send.insert(packet_id, pubrec_state);
+                            } else {
                                 // insert PUBREL into pending qos
                                 let pubrec_state = p.next().ok_or(MqttError::new(
                                     "invalid session state",
@@ -512,8 +571,15 @@ impl ClientSession {
                                         ));
                                     }
                                 }
+                            } else if let Some(next) = p.next() {
+                                // pending until the client application sends the PUBCOMP
+                                self.state.pending_qos_recv.insert(packet_id, next);
                             }
                         }
+                        QoSPacket::PubComp if !self.state.auto_ack => {
+                            // sent again before the client application has sent the PUBCOMP
+                            self.state.pending_qos_recv.insert(packet_id, p);
+                        }
                         _ => {
                             // protocol error, unexpected packet
                             // re-insert into pending qos without change
-- 
2.43.0


From 7cb0e375f079aa69cb88fb6c9b7ed04c23027df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 33/49] fix: keep to the receive maximum of the broker

The send quota was never used up, and a publish beyond it would have ended the client
instead of waiting to be sent.
---
 vaux-client/src/session.rs | 181 +++++++++++++++++++++----------------
 1 file changed, 105 insertions(+), 76 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 5d4c061..c3fc54e 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -1,6 +1,10 @@
 use crate::{ErrorKind, MqttClient, MqttError};
 use std::mem;
-use std::{collections::HashMap, sync::Arc, time::Duration};
+use std::{
+    collections::{HashMap, VecDeque},
+    sync::Arc,
+    time::Duration,
+};
 use tokio::sync::{Mutex, RwLock};
 use tokio::time::Instant;
 use vaux_mqtt::WillMessage;
@@ -15,6 +19,8 @@ const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
 const DEFAULT_CLIENT_ID_PREFIX: &str = "vaux-client";
 const DEFAULT_CLIENT_KEEP_ALIVE: Duration = Duration::from_secs(60);
 const DEFAULT_SESSION_EXPIRY: Duration = Duration::from_secs(600);
+/// The number of publishes that may wait for acknowledgements of the broker.
+const MAX_QUEUED: usize = u16::MAX as usize;
 
 #[allow(clippy::enum_variant_names)]
 #[derive(Debug, Copy, Clone, Hash, Eq, PartialEq)]
@@ -79,7 +85,8 @@ pub struct SessionState {
     pub(crate) keep_alive: Arc<RwLock<Duration>>,
     pub(crate) session_expiry: Arc<RwLock<Duration>>,
 
-    pub(crate) qos_send_remaining: usize,
+    pub(crate) send_max: u16,
+    queued: VecDeque<Publish>,
     pending_qos_send: HashMap<u16, QoSPacketState>,
     pub(crate) receive_max: u16,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
@@ -108,7 +115,8 @@ impl SessionState {
             )))),
             keep_alive: Arc::new(RwLock::new(DEFAULT_CLIENT_KEEP_ALIVE)),
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
-            qos_send_remaining: u16::MAX as usize,
+            send_max: u16::MAX,
+            queued: VecDeque::new(),
             pending_qos_send: HashMap::new(),
             receive_max: u16::MAX,
             pending_qos_recv: HashMap::new(),
@@ -297,75 +305,15 @@ impl ClientSession {
 
     pub(crate) async fn write_next(&mut self, packet: Packet) -> Result<(), MqttError> {
         match packet {
-            Packet::Publish(mut p) => {
-                if p.qos() == QoSLevel::AtLeastOnce || p.qos() == QoSLevel::ExactlyOnce {
-                    // check the pending qos for available space
-                    if self.state.pending_qos_send.len() >= u16::MAX as usize
-                        || self.state.qos_send_remaining == 0
-                    {
-                        return Err(MqttError::new(
-                            "pending QoS packets full",
-                            ErrorKind::Protocol(Reason::ProtocolErr),
-                        ));
-                    }
-                    // verify client set packet ID is not already in use
-                    if let Some(packet_id) = p.packet_id() {
-                        if packet_id == 0 {
-                            return Err(MqttError::new(
-                                "packet ID must not be 0",
-                                ErrorKind::Protocol(Reason::MalformedPacket),
-                            ));
-                        }
-                        if self.state.pending_qos_send.contains_key(&packet_id) {
-                            return Err(MqttError::new(
-                                "packet ID already in use",
-                                ErrorKind::Protocol(Reason::MalformedPacket),
-                            ));
-                        }
-                    } else if self.state.auto_packet_id {
-                        // if auto packet ID is enabled, generate a packet ID
-                        self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        // verify the packet ID is not already in use
-                        // TODO improve in-use packet ID managment
-                        while self.state.last_packet_id == 0
-                            || self
-                                .state
-                                .pending_qos_send
-                                .contains_key(&self.state.last_packet_id)
-                        {
-                            self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        }
-                        p.set_packet_id(Some(self.state.last_packet_id))
-                            .map_err(|e| {
-                                MqttError::new(
-                                    &format!("{e}"),
-                                    ErrorKind::Protocol(Reason::MalformedPacket),
-                                )
-                            })?;
-                    } else {
-                        // if no packet ID is set and auto packet ID is disabled, return an error
-                        return Err(MqttError::new(
-                            "no packet ID for QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    }
-                    match p.qos() {
-                        QoSLevel::AtLeastOnce => {
-                            self.state.pending_qos_send.insert(
-                                p.packet_id().unwrap(),
-                                QoSPacketState::new_qos1(Packet::Publish(p.clone())),
-                            );
-                        }
-                        QoSLevel::ExactlyOnce => {
-                            self.state.pending_qos_send.insert(
-                                p.packet_id().unwrap(),
-                                QoSPacketState::new_qos2(Packet::Publish(p.clone())),
-                            );
-                        }
-                        _ => {}
-                    }
+            Packet::Publish(p) => {
+                if self.state.queued.len() >= MAX_QUEUED {
+                    return Err(MqttError::new(
+                        "pending QoS packets full",
+                        ErrorKind::Protocol(Reason::ProtocolErr),
+                    ));
                 }
-                self.send_packet(Packet::Publish(p)).await
+                self.state.queued.push_back(p);
+                self.send_queued().await
             }
             Packet::Disconnect(d) => {
                 self.send_packet(Packet::Disconnect(d)).await?;
@@ -383,6 +331,84 @@ impl ClientSession {
         }
     }
 
+    /// Sends the queued publishes in order, up to the first one that has to wait until the
+    /// broker has acknowledged others.
+    pub(crate) async fn send_queued(&mut self) -> Result<(), MqttError> {
+        while let Some(publish) = self.state.queued.front() {
+            if publish.qos() != QoSLevel::AtMostOnce
+                && self.state.pending_qos_send.len() >= self.state.send_max as usize
+            {
+                break;
+            }
+            if let Some(publish) = self.state.queued.pop_front() {
+                self.send_publish(publish).await?;
+            }
+        }
+        Ok(())
+    }
+
+    async fn send_publish(&mut self, mut p: Publish) -> Result<(), MqttError> {
+        if p.qos() == QoSLevel::AtLeastOnce || p.qos() == QoSLevel::ExactlyOnce {
+            // verify client set packet ID is not already in use
+            if let Some(packet_id) = p.packet_id() {
+                if packet_id == 0 {
+                    return Err(MqttError::new(
+                        "packet ID must not be 0",
+                        ErrorKind::Protocol(Reason::MalformedPacket),
+                    ));
+                }
+                if self.state.pending_qos_send.contains_key(&packet_id) {
+                    return Err(MqttError::new(
+                        "packet ID already in use",
+                        ErrorKind::Protocol(Reason::MalformedPacket),
+                    ));
+                }
+            } else if self.state.auto_packet_id {
+                // if auto packet ID is enabled, generate a packet ID
+                self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
+                // verify the packet ID is not already in use
+                // TODO improve in-use packet ID managment
+                while self.state.last_packet_id == 0
+                    || self
+                        .state
+                        .pending_qos_send
+                        .contains_key(&self.state.last_packet_id)
+                {
+                    self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
+                }
+                p.set_packet_id(Some(self.state.last_packet_id))
+                    .map_err(|e| {
+                        MqttError::new(
+                            &format!("{e}"),
+                            ErrorKind::Protocol(Reason::MalformedPacket),
+                        )
+                    })?;
+            } else {
+                // if no packet ID is set and auto packet ID is disabled, return an error
+                return Err(MqttError::new(
+                    "no packet ID for QoS > 0",
+                    ErrorKind::Protocol(Reason::MalformedPacket),
+                ));
+            }
+            match p.qos() {
+                QoSLevel::AtLeastOnce => {
+                    self.state.pending_qos_send.insert(
+                        p.packet_id().unwrap(),
+                        QoSPacketState::new_qos1(Packet::Publish(p.clone())),
+                    );
+                }
+                QoSLevel::ExactlyOnce => {
+                    self.state.pending_qos_send.insert(
+                        p.packet_id().unwrap(),
+                        QoSPacketState::new_qos2(Packet::Publish(p.clone())),
+                    );
+                }
+                _ => {}
+            }
+        }
+        self.send_packet(Packet::Publish(p)).await
+    }
+
     /// Advances the exchange a response of the client application belongs to.
     fn response_sent(&mut self, response: &Packet) {
         let (pending, packet_id, expected, last) = match response {
@@ -448,7 +474,6 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubAck => {
                             self.state.pending_qos_send.remove(&puback.packet_id);
-                            self.state.qos_send_remaining += 1;
                         }
                         _ => {
                             // protocol error, unexpected packet - disconnect
@@ -603,7 +628,6 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubComp => {
                             //  do nothing - removed from pending qos
-                            self.state.qos_send_remaining += 1;
                         }
                         _ => {
                             // protocol error, unexpected packet
@@ -626,6 +650,13 @@ impl ClientSession {
             }
             _ => {}
         }
+        if matches!(
+            packet,
+            Packet::PubAck(_) | Packet::PubRec(_) | Packet::PubComp(_)
+        ) {
+            // the acknowledgement may let queued publishes go
+            self.send_queued().await?;
+        }
         if packet_to_consumer {
             Ok(Some(packet))
         } else {
@@ -680,9 +711,7 @@ impl ClientSession {
             *session_expiry = Duration::from_secs(u64::from(server_session_expiry));
         }
         // set the server assigned receive maximum
-        if let Some(receive_max) = connack.receive_maximum {
-            self.state.qos_send_remaining = receive_max as usize;
-        }
+        self.state.send_max = connack.receive_maximum.unwrap_or(u16::MAX);
         Ok(connack)
     }
 
-- 
2.43.0


From 262050cb12f41d578cf4b7a1e58dbe890a661d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 34/49] fix: resend unacknowledged QoS packets when a session
 is resumed

---
 vaux-client/src/session.rs | 78 ++++++++++++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index c3fc54e..132e42d 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -33,24 +33,23 @@ enum QoSPacket {
 
 #[derive(Debug)]
 struct QoSPacketState {
-    packet_id: u16,
-    #[allow(dead_code)]
+    seq: u64,
     packet: Option<Packet>,
     next: QoSPacket,
 }
 
 impl QoSPacketState {
-    pub fn new_qos1(packet: Packet) -> Self {
+    pub fn new_qos1(seq: u64, packet: Packet) -> Self {
         Self {
-            packet_id: 0,
+            seq,
             packet: Some(packet),
             next: QoSPacket::PubAck,
         }
     }
 
-    pub fn new_qos2(packet: Packet) -> Self {
+    pub fn new_qos2(seq: u64, packet: Packet) -> Self {
         Self {
-            packet_id: 0,
+            seq,
             packet: Some(packet),
             next: QoSPacket::PubRec,
         }
@@ -60,12 +59,12 @@ impl QoSPacketState {
         match self.next {
             QoSPacket::PubAck => None,
             QoSPacket::PubRec => Some(Self {
-                packet_id: self.packet_id,
+                seq: self.seq,
                 packet: None,
                 next: QoSPacket::PubRel,
             }),
             QoSPacket::PubRel => Some(Self {
-                packet_id: self.packet_id,
+                seq: self.seq,
                 packet: None,
                 next: QoSPacket::PubComp,
             }),
@@ -87,6 +86,7 @@ pub struct SessionState {
 
     pub(crate) send_max: u16,
     queued: VecDeque<Publish>,
+    sent: u64,
     pending_qos_send: HashMap<u16, QoSPacketState>,
     pub(crate) receive_max: u16,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
@@ -117,6 +117,7 @@ impl SessionState {
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
             send_max: u16::MAX,
             queued: VecDeque::new(),
+            sent: 0,
             pending_qos_send: HashMap::new(),
             receive_max: u16::MAX,
             pending_qos_recv: HashMap::new(),
@@ -390,17 +391,18 @@ impl ClientSession {
                     ErrorKind::Protocol(Reason::MalformedPacket),
                 ));
             }
+            self.state.sent += 1;
             match p.qos() {
                 QoSLevel::AtLeastOnce => {
                     self.state.pending_qos_send.insert(
                         p.packet_id().unwrap(),
-                        QoSPacketState::new_qos1(Packet::Publish(p.clone())),
+                        QoSPacketState::new_qos1(self.state.sent, Packet::Publish(p.clone())),
                     );
                 }
                 QoSLevel::ExactlyOnce => {
                     self.state.pending_qos_send.insert(
                         p.packet_id().unwrap(),
-                        QoSPacketState::new_qos2(Packet::Publish(p.clone())),
+                        QoSPacketState::new_qos2(self.state.sent, Packet::Publish(p.clone())),
                     );
                 }
                 _ => {}
@@ -712,9 +714,61 @@ impl ClientSession {
         }
         // set the server assigned receive maximum
         self.state.send_max = connack.receive_maximum.unwrap_or(u16::MAX);
+        self.resume(connack.session_present()).await?;
         Ok(connack)
     }
 
+    /// Continues the exchanges of an earlier connection when the broker still has the session,
+    /// and sends the publishes that are queued.
+    async fn resume(&mut self, session_present: bool) -> crate::Result<()> {
+        if !session_present {
+            self.state.pending_qos_send.clear();
+            self.state.pending_qos_recv.clear();
+        }
+        let mut pending: Vec<(u64, u16)> = self
+            .state
+            .pending_qos_send
+            .iter()
+            .map(|(packet_id, state)| (state.seq, *packet_id))
+            .collect();
+        pending.sort_unstable();
+        let mut in_flight = 0;
+        let mut resend = Vec::new();
+        let mut excess = VecDeque::new();
+        for (_, packet_id) in pending {
+            let Some(state) = self.state.pending_qos_send.get_mut(&packet_id) else {
+                continue;
+            };
+            let packet = match &mut state.packet {
+                Some(Packet::Publish(publish)) => {
+                    let _ = publish.set_dup(true);
+                    if in_flight >= self.state.send_max {
+                        // the receive maximum is lower than it was, send it again later
+                        excess.push_back(publish.clone());
+                        self.state.pending_qos_send.remove(&packet_id);
+                        continue;
+                    }
+                    Some(Packet::Publish(publish.clone()))
+                }
+                _ if state.next == QoSPacket::PubComp || self.state.auto_ack => {
+                    state.next = QoSPacket::PubComp;
+                    let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
+                    Some(Packet::PubRel(pubrel))
+                }
+                // the client application sends the PUBREL
+                _ => None,
+            };
+            in_flight += 1;
+            resend.extend(packet);
+        }
+        excess.append(&mut self.state.queued);
+        self.state.queued = excess;
+        for packet in resend {
+            self.send_packet(packet).await?;
+        }
+        self.send_queued().await
+    }
+
     /// Returns whether the publish has to be passed on to the client application, which is not
     /// the case for a QoS-2 publish that has already been passed on.
     async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<bool> {
@@ -743,7 +797,7 @@ impl ClientSession {
             // not auto ack, pending until client app sends response
             self.state.pending_qos_recv.insert(
                 packet_id,
-                QoSPacketState::new_qos1(Packet::Publish(publish)),
+                QoSPacketState::new_qos1(0, Packet::Publish(publish)),
             );
             if self.state.auto_ack {
                 let puback = PubResp::new_puback_with_packet_id(packet_id);
@@ -768,7 +822,7 @@ impl ClientSession {
         if is_new {
             self.state.pending_qos_recv.insert(
                 packet_id,
-                QoSPacketState::new_qos2(Packet::Publish(publish)),
+                QoSPacketState::new_qos2(0, Packet::Publish(publish)),
             );
         }
         if self.state.auto_ack || pending == Some(QoSPacket::PubRel) {
-- 
2.43.0


From 7dec55a91f521a64eb64c0056fe1286b2c38239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 35/49] fix: keep a received packet the consumer has not taken
 yet

It was acknowledged already and lost when the connection ended.
---
 vaux-client/src/client.rs  | 17 +++++++++--------
 vaux-client/src/session.rs | 11 +++++++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index e8e0ad1..0e1af93 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -362,15 +362,15 @@ impl MqttClient {
                 *_session_expiry.write().await = session_expiry;
             }
             let keep_alive_enabled = session.keep_alive_enabled();
-            // Holds a packet that has been read off the wire (and already acked,
+            // The session holds a packet that has been read off the wire (and already acked,
             // for auto-acked QoS 1/2) but could not be handed to the consumer
             // because its channel was full. While this is set, reads from the
             // socket are paused so we never decode further packets the consumer
             // has no room for; keep-alive and outbound app commands keep flowing.
             // This avoids the consumer's channel back-pressure deadlocking the
             // whole client (no further reads => no further PubAcks => the broker
-            // eventually drops the connection for missed keep-alives).
-            let mut pending_forward: Option<Packet> = None;
+            // eventually drops the connection for missed keep-alives). It stays in the
+            // session state when the connection ends before the consumer caught up.
             loop {
                 select! {
                     _ = MqttClient::keep_alive_timer(session.last_sent(), keep_alive), if keep_alive_enabled => {
@@ -384,10 +384,10 @@ impl MqttClient {
                             }
                         }
                     }
-                    forward_result = MqttClient::forward_pending(&filter_channel, &packet_out, pending_forward.clone()), if pending_forward.is_some() => {
+                    forward_result = MqttClient::forward_pending(&filter_channel, &packet_out, session.pending_forward().cloned()), if session.pending_forward().is_some() => {
                         match forward_result {
                             Some(Ok(_)) => {
-                                pending_forward = None;
+                                session.set_pending_forward(None);
                             }
                             Some(Err(e)) => {
                                 *connected.write().await = false;
@@ -401,7 +401,7 @@ impl MqttClient {
                             }
                         }
                     }
-                    packet_result = session.read_next(), if pending_forward.is_none() => {
+                    packet_result = session.read_next(), if session.pending_forward().is_none() => {
                         match packet_result {
                             Ok(Some(packet)) => {
                                 match session.handle_packet(packet).await {
@@ -416,9 +416,10 @@ impl MqttClient {
                                             Ok(_) => {}
                                             Err(TrySendError::Full(packet)) => {
                                                 // consumer is behind; pause reads until it catches up
-                                                pending_forward = Some(packet);
+                                                session.set_pending_forward(Some(packet));
                                             }
-                                            Err(TrySendError::Closed(_)) => {
+                                            Err(TrySendError::Closed(packet)) => {
+                                                session.set_pending_forward(Some(packet));
                                                 *connected.write().await = false;
                                                 return Err(ClientError::new(
                                                     MqttError::new("unable to send packet: channel closed", ErrorKind::Channel),
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 132e42d..fd8585a 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -90,6 +90,8 @@ pub struct SessionState {
     pending_qos_send: HashMap<u16, QoSPacketState>,
     pub(crate) receive_max: u16,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
+    /// a packet that was received, and acknowledged, but not handed to the consumer yet
+    pub(crate) pending_forward: Option<Packet>,
 
     pub(crate) max_packet_size: usize,
     pub(crate) auto_packet_id: bool,
@@ -121,6 +123,7 @@ impl SessionState {
             pending_qos_send: HashMap::new(),
             receive_max: u16::MAX,
             pending_qos_recv: HashMap::new(),
+            pending_forward: None,
 
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
             auto_packet_id: true,
@@ -192,6 +195,14 @@ impl ClientSession {
         self.last_sent
     }
 
+    pub(crate) fn pending_forward(&self) -> Option<&Packet> {
+        self.state.pending_forward.as_ref()
+    }
+
+    pub(crate) fn set_pending_forward(&mut self, packet: Option<Packet>) {
+        self.state.pending_forward = packet;
+    }
+
     pub(crate) fn auto_ack(&self) -> bool {
         self.state.auto_ack
     }
-- 
2.43.0


From 7eae251700ff5b5171cf76cf937ab1c58becf54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 36/49] fix: route a publish by the subscriptions of the
 sessions it goes to

---
 vaux-broker/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index cd2e510..2c1fe68 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -722,11 +722,13 @@ impl Broker {
     }
 
     async fn route_publish(publish: &Publish, sender_session_id: &str, state: &BrokerState) {
+        // the pool comes first: a clean start between the two would leave the new session with
+        // what the subscriptions of the old one match
+        let session_pool = state.session_pool.read().await;
         let subscribers = {
             let tree = state.topic_tree.read().await;
             tree.matching_subscribers(&publish.topic_name)
         };
-        let session_pool = state.session_pool.read().await;
         for sub in &subscribers {
             if sub.no_local && *sub.session_id == *sender_session_id {
                 continue;
-- 
2.43.0


From 596feeb910d9f54232954af50a3fc059de20ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:27 +0000
Subject: [PATCH 37/49] fix: a session with a short server keep alive can be
 resumed

---
 vaux-client/src/builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index f4feea8..61960a1 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -26,6 +26,7 @@ impl Display for BuilderError {
 pub struct ClientBuilder {
     connection: MqttConnection,
     state: SessionState,
+    keep_alive_set: bool,
     max_connect_wait: Duration,
     channel_size: Option<u16>,
     filtered_consumer: Option<HashMap<PacketType, Sender<vaux_mqtt::Packet>>>,
@@ -38,6 +39,7 @@ impl Default for ClientBuilder {
         Self {
             connection: MqttConnection::new(),
             state: SessionState::default(),
+            keep_alive_set: false,
             max_connect_wait: MAX_CONNECT_WAIT,
             channel_size: None,
             filtered_consumer: None,
@@ -58,6 +60,7 @@ impl ClientBuilder {
     pub fn with_state(mut self, connection: MqttConnection, state: SessionState) -> Self {
         self.connection = connection;
         self.state = state;
+        self.keep_alive_set = false;
         self
     }
 
@@ -115,6 +118,7 @@ impl ClientBuilder {
     /// broker may assume that the client is no longer connected close the connection.
     pub fn with_keep_alive(mut self, keep_alive: Duration) -> Self {
         self.state.keep_alive = Arc::new(RwLock::new(keep_alive));
+        self.keep_alive_set = true;
         self
     }
 
@@ -186,11 +190,10 @@ impl ClientBuilder {
     }
 
     pub async fn build(self) -> Result<crate::MqttClient, BuilderError> {
-        let keep_alive = self.state.keep_alive.read().await;
-        if *keep_alive < MIN_KEEP_ALIVE {
+        // the state of an earlier connection may have a shorter keep alive set by the broker
+        if self.keep_alive_set && *self.state.keep_alive.read().await < MIN_KEEP_ALIVE {
             return Err(BuilderError::MinKeepAlive);
         }
-        drop(keep_alive);
         let mut client =
             crate::MqttClient::new_with_connection(self.connection, self.state, self.channel_size);
         client.set_max_connect_wait(self.max_connect_wait);
-- 
2.43.0


From 7808f4b45f1225e25cf8129579c2754eb4f55baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:27 +0000
Subject: [PATCH 38/49] fix: publishes to be sent again are dropped when the
 broker does not have the session

---
 vaux-client/src/session.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index fd8585a..6e591ce 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -86,6 +86,8 @@ pub struct SessionState {
 
     pub(crate) send_max: u16,
     queued: VecDeque<Publish>,
+    /// publishes of an earlier connection that have to wait for the receive maximum
+    resend: VecDeque<Publish>,
     sent: u64,
     pending_qos_send: HashMap<u16, QoSPacketState>,
     pub(crate) receive_max: u16,
@@ -119,6 +121,7 @@ impl SessionState {
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
             send_max: u16::MAX,
             queued: VecDeque::new(),
+            resend: VecDeque::new(),
             sent: 0,
             pending_qos_send: HashMap::new(),
             receive_max: u16::MAX,
@@ -346,13 +349,14 @@ impl ClientSession {
     /// Sends the queued publishes in order, up to the first one that has to wait until the
     /// broker has acknowledged others.
     pub(crate) async fn send_queued(&mut self) -> Result<(), MqttError> {
-        while let Some(publish) = self.state.queued.front() {
+        while let Some(publish) = self.state.resend.front().or(self.state.queued.front()) {
             if publish.qos() != QoSLevel::AtMostOnce
                 && self.state.pending_qos_send.len() >= self.state.send_max as usize
             {
                 break;
             }
-            if let Some(publish) = self.state.queued.pop_front() {
+            let next = self.state.resend.pop_front();
+            if let Some(publish) = next.or_else(|| self.state.queued.pop_front()) {
                 self.send_publish(publish).await?;
             }
         }
@@ -735,6 +739,7 @@ impl ClientSession {
         if !session_present {
             self.state.pending_qos_send.clear();
             self.state.pending_qos_recv.clear();
+            self.state.resend.clear();
         }
         let mut pending: Vec<(u64, u16)> = self
             .state
@@ -772,8 +777,8 @@ impl ClientSession {
             in_flight += 1;
             resend.extend(packet);
         }
-        excess.append(&mut self.state.queued);
-        self.state.queued = excess;
+        excess.append(&mut self.state.resend);
+        self.state.resend = excess;
         for packet in resend {
             self.send_packet(packet).await?;
         }
-- 
2.43.0


From be7e13aee68fa5131b4f96e31fd7cb82f18ed37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:27 +0000
Subject: [PATCH 39/49] fix: the client can be started again when the broker
 could not be reached

---
 vaux-client/src/client.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 0e1af93..0c61c16 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -303,10 +303,12 @@ impl MqttClient {
         }
         let max_connect_wait = self.max_connect_wait;
         let will_message = self.will_message.clone();
-        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
-            "packet_in channel closed",
-            ErrorKind::Transport,
-        ))?;
+        if self.packet_in.1.is_none() {
+            return Err(MqttError::new(
+                "packet_in channel closed",
+                ErrorKind::Transport,
+            ));
+        }
         let packet_out = self.packet_out.0.clone();
         let credentials = self.connection.as_ref().unwrap().credentials().clone();
         let connected = self.connected.clone();
@@ -322,6 +324,10 @@ impl MqttClient {
                 }
             };
         }
+        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
+            "packet_in channel closed",
+            ErrorKind::Transport,
+        ))?;
         let mut session = match ClientSession::new_from_client(self).await {
             Ok(s) => s,
             Err(e) => {
-- 
2.43.0


From 5f0a34b639e4efa27bf5121c5e0842dd39144fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:27 +0000
Subject: [PATCH 40/49] fix: long keep alive and session expiry intervals are
 not truncated

---
 vaux-client/src/session.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 6e591ce..37c79d7 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -228,7 +228,12 @@ impl ClientSession {
             ));
         }
         let mut connect = Connect::default();
-        connect.keep_alive = self.state.keep_alive.read().await.as_secs() as u16;
+        {
+            // the interval in effect is the one that is announced
+            let mut keep_alive = self.state.keep_alive.write().await;
+            connect.keep_alive = u16::try_from(keep_alive.as_secs()).unwrap_or(u16::MAX);
+            *keep_alive = Duration::from_secs(u64::from(connect.keep_alive));
+        }
         connect.set_clean_start(clean_start);
         {
             let set_id = self.state.client_id.lock().await;
@@ -239,8 +244,8 @@ impl ClientSession {
         if self.state.receive_max != u16::MAX {
             connect.receive_maximum = Some(self.state.receive_max);
         }
-        connect
-            .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs() as u32);
+        let session_expiry = self.state.session_expiry.read().await.as_secs();
+        connect.set_session_expiry_interval(u32::try_from(session_expiry).unwrap_or(u32::MAX));
         if let Some((username, password)) = credentials {
             connect.set_username(Some(username));
             connect.set_password(Some(password.into_bytes()));
-- 
2.43.0


From 330faf76daf7b44d056caf9b065479e3d6397b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 41/49] fix: a client that is told that it could not be started
 does not connect later

---
 vaux-client/src/client.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 0c61c16..f6ebc59 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -260,15 +260,20 @@ impl MqttClient {
             }
             Err(start_err) => {
                 // if the client is connected then stop the client
-                if self.connected().await
-                    && let Err(stop_err) = self.stop().await
-                {
-                    return Err(MqttError::new(
-                        &format!(
-                            "error starting: {start_err} unable to stop client: {stop_err} "
-                        ),
-                        ErrorKind::Transport,
-                    ));
+                if self.connected().await {
+                    if let Err(stop_err) = self.stop().await {
+                        return Err(MqttError::new(
+                            &format!(
+                                "error starting: {start_err} unable to stop client: {stop_err} "
+                            ),
+                            ErrorKind::Transport,
+                        ));
+                    }
+                } else if let Ok(handle) = handle {
+                    // it must not connect after the caller has been told that it did not
+                    handle.abort();
+                    let _ = handle.await;
+                    *self.connected.write().await = false;
                 }
                 Err(MqttError::new(
                     &format!("unable to connect to broker: {start_err}"),
-- 
2.43.0


From d726ae8d96291ae988bdaa97d74fb362b82b8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:40 +0000
Subject: [PATCH 42/49] fix: a subscription filter with QoS 3 or reserved
 options is refused

---
 vaux-mqtt/src/subscribe.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/vaux-mqtt/src/subscribe.rs b/vaux-mqtt/src/subscribe.rs
index 4ab9c96..072e62d 100644
--- a/vaux-mqtt/src/subscribe.rs
+++ b/vaux-mqtt/src/subscribe.rs
@@ -1,7 +1,7 @@
 use crate::codec::{ErrorKind, MAX_VARIABLE_BYTE_INT, MIN_VARIABLE_BYTE_INT};
 use crate::{codec, MqttCodecError, PropertyType, Reason};
 use crate::{property::UserProperty, MqttError, MqttVersion, QoSLevel};
-use vaux_macro::{packet, CodecSize, Decode, Encode};
+use vaux_macro::{packet, CodecSize, Encode};
 
 /// MQTT v5 3.8.3.1 Subscription Options
 /// bits 4 and 5 of the subscription options hold the retain handling flag.
@@ -76,12 +76,28 @@ impl SubAck {
 
 /// Subscription represents an MQTT v5 3.8.3 SUBSCRIBE Payload. The Mqtt v5
 /// 3.8.3.1 options are represented as individual fields in the struct.
-#[derive(Debug, Default, Clone, PartialEq, Eq, Encode, Decode, CodecSize)]
+#[derive(Debug, Default, Clone, PartialEq, Eq, Encode, CodecSize)]
 pub struct SubscriptionFilter {
     pub filter: String,
     options: u8,
 }
 
+impl codec::Decode for SubscriptionFilter {
+    fn decode(&mut self, src: &mut bytes::BytesMut) -> Result<usize, MqttCodecError> {
+        let mut bytes_read = self.filter.decode(src)?;
+        bytes_read += self.options.decode(src)?;
+        // MQTT v5 3.8.3.1: QoS 3, retain handling 3 and reserved bits are protocol errors
+        QoSLevel::try_from(self.options & 0b0000_0011)?;
+        RetainHandling::try_from((self.options & 0b0011_0000) >> 4)?;
+        if self.options & 0b1100_0000 != 0 {
+            return Err(MqttCodecError::new(
+                "MQTT v5 3.8.3.1 reserved bits of the subscription options must be 0",
+            ));
+        }
+        Ok(bytes_read)
+    }
+}
+
 impl SubscriptionFilter {
     /// Create a new Subscription with the given filter and QoSLevel.
     /// The remaining fields are set to their default values.
-- 
2.43.0


From 31592a17f7191c813e4c10a8bcde0791dfa8d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:40 +0000
Subject: [PATCH 43/49] fix: a CONNECT with will QoS 3 or reserved flags is
 refused

---
 vaux-mqtt/src/connect.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index d597a26..7c4ca9b 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -12,6 +12,7 @@ pub(crate) const CONNECT_FLAG_WILL_RETAIN: u8 = 0b_0010_0000;
 pub(crate) const CONNECT_FLAG_WILL_QOS: u8 = 0b_0001_1000;
 pub(crate) const CONNECT_FLAG_WILL: u8 = 0b_0000_0100;
 pub(crate) const CONNECT_FLAG_CLEAN_START: u8 = 0b_0000_0010;
+pub(crate) const CONNECT_FLAG_RESERVED: u8 = 0b_0000_0001;
 
 const MQTT_PROTOCOL_NAME: &str = "MQTT";
 const MQTT_PROTOCOL_VERSION: u8 = 0x05;
@@ -209,6 +210,20 @@ impl codec::Decode for Connect {
         bytes_read += 1;
         self.connect_flags = src.get_u8();
         bytes_read += 1;
+        // MQTT v5 3.1.2.3 and 3.1.2.6: the reserved flag must be 0, a will QoS of 3 is malformed
+        if self.connect_flags & CONNECT_FLAG_RESERVED != 0 {
+            return Err(MqttCodecError::new(
+                "MQTT v5 3.1.2.3 reserved connect flag must be 0",
+            ));
+        }
+        QoSLevel::try_from((self.connect_flags & CONNECT_FLAG_WILL_QOS) >> 3)?;
+        if self.connect_flags & CONNECT_FLAG_WILL == 0
+            && self.connect_flags & (CONNECT_FLAG_WILL_QOS | CONNECT_FLAG_WILL_RETAIN) != 0
+        {
+            return Err(MqttCodecError::new(
+                "MQTT v5 3.1.2.6 will QoS and will retain must be 0 without a will",
+            ));
+        }
         self.keep_alive = src.get_u16();
         bytes_read += 2;
 
-- 
2.43.0


From c1ecc736bb46b1bc4faf771dc1330ba151053d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:40 +0000
Subject: [PATCH 44/49] fix: a packet stream with an empty initial buffer reads
 packets

---
 vaux-async/src/stream/packet.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index c35c02a..a215a7d 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -43,7 +43,9 @@ impl PacketStream {
         let max_buffer_size = max_buffer_size.unwrap_or(MAX_BUFFER_SIZE);
         // the buffer never shrinks, it must not start out larger than its limit
         let initial_buffer_size =
-            usize::min(initial_buffer_size.unwrap_or(READ_BUFFER_SIZE), max_buffer_size);
+            usize::min(initial_buffer_size.unwrap_or(READ_BUFFER_SIZE), max_buffer_size)
+                // an empty buffer could not be read into, nor be doubled
+                .max(1);
         Self {
             read_buffer: vec![0; initial_buffer_size],
             read_offset: 0,
-- 
2.43.0


From 0227ce0c0f9d9b892fcf8345564dd3bdab6f121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:49 +0000
Subject: [PATCH 45/49] fix: a packet stream flushes what it wrote, TLS streams
 may hold some of it back

---
 vaux-async/src/stream/packet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index a215a7d..4472939 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -174,6 +174,10 @@ impl PacketStream {
         if let Err(e) = self.stream.write_all(&dest).await {
             return Err(Error::Io(e));
         }
+        // a TLS stream may still hold some of the bytes
+        if let Err(e) = self.stream.flush().await {
+            return Err(Error::Io(e));
+        }
         Ok(())
     }
 
-- 
2.43.0


From c3a25be56cb7551f50646d212e5dce64593da872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:49 +0000
Subject: [PATCH 46/49] fix: the time limit of connecting includes the TLS
 handshake

---
 vaux-client/src/connection.rs | 41 +++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/vaux-client/src/connection.rs b/vaux-client/src/connection.rs
index c88341c..9676391 100644
--- a/vaux-client/src/connection.rs
+++ b/vaux-client/src/connection.rs
@@ -115,22 +115,12 @@ impl MqttConnection {
         }
         let socket_addr = socket_addr.unwrap().next().unwrap();
 
-        match tokio::time::timeout(timeout, TcpStream::connect(&socket_addr)).await {
-            Ok(result) => match result {
-                Ok(stream) => {
-                    if self.tls {
-                        self.stream = Some(self.connect_tls(stream).await?);
-                        Ok(())
-                    } else {
-                        self.stream = Some(AsyncMqttStream(MqttStream::TcpStream(stream)));
-                        Ok(())
-                    }
-                }
-                Err(e) => Err(MqttError::new(
-                    &format!("unable to connect: {e}"),
-                    ErrorKind::Connection,
-                )),
-            },
+        // the time limit includes the TLS handshake, which the peer may never answer
+        match tokio::time::timeout(timeout, self.connect_stream(socket_addr)).await {
+            Ok(result) => {
+                self.stream = Some(result?);
+                Ok(())
+            }
             Err(_e) => Err(MqttError {
                 message: "timeout".to_string(),
                 kind: ErrorKind::Timeout,
@@ -138,6 +128,25 @@ impl MqttConnection {
         }
     }
 
+    async fn connect_stream(
+        &mut self,
+        socket_addr: std::net::SocketAddr,
+    ) -> crate::Result<AsyncMqttStream> {
+        match TcpStream::connect(&socket_addr).await {
+            Ok(stream) => {
+                if self.tls {
+                    self.connect_tls(stream).await
+                } else {
+                    Ok(AsyncMqttStream(MqttStream::TcpStream(stream)))
+                }
+            }
+            Err(e) => Err(MqttError::new(
+                &format!("unable to connect: {e}"),
+                ErrorKind::Connection,
+            )),
+        }
+    }
+
     async fn connect_tls(&mut self, stream: TcpStream) -> crate::Result<AsyncMqttStream> {
         let server_name = ServerName::try_from(self.host.clone()).map_err(|e| {
             MqttError::new(
-- 
2.43.0


From 2e504897cce18253de8fa6095b02e1175062a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:09 +0000
Subject: [PATCH 47/49] fix: a topic of thousands of levels does not overflow
 the stack of the broker

Matching descended recursively, one call per topic level, so that a client
with a long enough subscription and a publish to it took the process down.
---
 vaux-broker/src/topic.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index 4f7f129..8677201 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -136,15 +136,21 @@ impl TopicTree {
     pub fn matching_subscribers(&self, topic: &str) -> Vec<Subscriber> {
         let segments: Vec<&str> = topic.split('/').collect();
         let mut results = Vec::new();
-        self.collect_matches(ROOT_NODE, &segments, 0, &mut results);
+        // not recursive, a topic can have as many levels as characters
+        let mut open = vec![(ROOT_NODE, 0)];
+        while let Some((node_idx, depth)) = open.pop() {
+            self.collect_matches(node_idx, &segments, depth, &mut open, &mut results);
+        }
         results
     }
 
+    /// Add the subscribers found at a node and the children to continue with.
     fn collect_matches(
         &self,
         node_idx: u32,
         segments: &[&str],
         depth: usize,
+        open: &mut Vec<(u32, usize)>,
         results: &mut Vec<Subscriber>,
     ) {
         let node = &self.nodes[node_idx as usize];
@@ -168,7 +174,7 @@ impl TopicTree {
 
         // exact match on this segment
         if let Some(&child_idx) = node.children.get(segment) {
-            self.collect_matches(child_idx, segments, depth + 1, results);
+            open.push((child_idx, depth + 1));
         }
 
         if !match_wildcards {
@@ -177,7 +183,7 @@ impl TopicTree {
 
         // '+' wildcard matches any single level
         if let Some(&plus_idx) = node.children.get("+") {
-            self.collect_matches(plus_idx, segments, depth + 1, results);
+            open.push((plus_idx, depth + 1));
         }
 
         // '#' child matches this level and everything below
-- 
2.43.0


From 190404d344f90b8e4a30949bef2ab47baa90767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:39 +0000
Subject: [PATCH 48/49] fix: a configured keep alive above 65535 s is not cut
 to its low 16 bits

---
 vaux-broker/src/session.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 3a7a72f..47547f9 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -10,6 +10,11 @@ use tokio::sync::{
 use tokio_util::sync::CancellationToken;
 use vaux_mqtt::{Publish, Reason, WillMessage};
 
+/// Keep alive in seconds, the longest that a CONNACK can carry when it is longer.
+fn keep_alive_secs(keep_alive: Duration) -> u16 {
+    u16::try_from(keep_alive.as_secs()).unwrap_or(u16::MAX)
+}
+
 #[derive(Debug, Default)]
 pub struct SessionPool {
     session_expiry: Duration,
@@ -39,11 +44,11 @@ impl SessionPool {
     }
 
     pub fn default_keep_alive_secs(&self) -> u16 {
-        self.default_keep_alive.as_secs() as u16
+        keep_alive_secs(self.default_keep_alive)
     }
 
     pub fn max_keep_alive_secs(&self) -> u16 {
-        self.max_keep_alive.as_secs() as u16
+        keep_alive_secs(self.max_keep_alive)
     }
 
     pub fn session_expiry(&self) -> Duration {
-- 
2.43.0


From e3cce6e42761e4a5b16542958b949db39bea1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:39 +0000
Subject: [PATCH 49/49] fix: a configured session expiry above 4294967295 s is
 not cut to its low 32 bits

---
 vaux-broker/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 2c1fe68..8032429 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -537,7 +537,8 @@ impl Broker {
             if requested_expiry > 0 {
                 let max_expiry: u32;
                 {
-                    max_expiry = state.session_pool.read().await.session_expiry().as_secs() as u32;
+                    let expiry = state.session_pool.read().await.session_expiry();
+                    max_expiry = u32::try_from(expiry.as_secs()).unwrap_or(u32::MAX);
                 }
                 if requested_expiry > max_expiry {
                     ack.set_session_expiry(max_expiry);
-- 
2.43.0

