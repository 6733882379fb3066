From 595413452d982a7e49014bd2618dfb3dffafbef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 01/22] fix: generated Rust decodes optional enum fields by
 their full type (other groups, arrays)

---
 cli/src/protocol/render/rust/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 54554e5..a857b9b 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -97,7 +97,12 @@ impl RustRender {
         for field in &strct.fields {
             if field.optional {
                 if let Some(id) = field.ref_type_id {
-                    if let Some(enums) = store.get_enum(id) {
+                    if store.get_enum(id).is_some() {
+                        let item_type = if field.repeated {
+                            format!("Vec::<{}>", self.get_type_ref(field))
+                        } else {
+                            self.get_type_ref(field)
+                        };
                         body = format!(
                             "{}{}if let Some(buf) = storage.get({}) {{\n",
                             body,
@@ -112,7 +117,7 @@ impl RustRender {
                             field.name
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, enums.name, field.id);
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, item_type, field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
-- 
2.43.0


From 72027e99db01885384a4e136273d6f6bc1a1a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 02/22] fix: generated Rust decodes enum variants with an empty
 payload

---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index a857b9b..1bd079a 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -309,7 +309,7 @@ impl RustRender {
             enums.name
         );
         body = format!(
-            "{}{}if buf.len() <= sizes::U16_LEN {{\n",
+            "{}{}if buf.len() < sizes::U16_LEN {{\n",
             body,
             self.spaces(level + 2)
         );
-- 
2.43.0


From a4833f65539437b0bf107af1ab0574f663721aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 03/22] fix: generated Rust rejects truncated message bodies
 instead of panicking

---
 .../render/rust/static/protocol.storage.rs    | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 20fb0fe..7dfb5f6 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -49,6 +49,9 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U16_LEN {
+            return Err("Not enough data to extract property id".to_string());
+        }
         let id = cursor.get_u16_le();
         Ok((id, pos + sizes::U16_LEN))
     }
@@ -60,12 +63,18 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U8_LEN {
+            return Err("Not enough data to extract rank of property length".to_string());
+        }
         let prop_body_len_rank = cursor.get_u8();
         let prop_body_len_usize: usize;
         let prop_rank_len: usize = 1;
         let prop_size_len: usize;
         match prop_body_len_rank {
             8 => {
+                if cursor.remaining() < sizes::U8_LEN {
+                    return Err("Not enough data to extract length of property".to_string());
+                }
                 if let Ok(val) = usize::try_from(cursor.get_u8()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U8_LEN;
@@ -74,6 +83,9 @@ impl Storage {
                 }
             }
             16 => {
+                if cursor.remaining() < sizes::U16_LEN {
+                    return Err("Not enough data to extract length of property".to_string());
+                }
                 if let Ok(val) = usize::try_from(cursor.get_u16_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U16_LEN;
@@ -82,6 +94,9 @@ impl Storage {
                 }
             }
             32 => {
+                if cursor.remaining() < sizes::U32_LEN {
+                    return Err("Not enough data to extract length of property".to_string());
+                }
                 if let Ok(val) = usize::try_from(cursor.get_u32_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U32_LEN;
@@ -90,6 +105,9 @@ impl Storage {
                 }
             }
             64 => {
+                if cursor.remaining() < sizes::U64_LEN {
+                    return Err("Not enough data to extract length of property".to_string());
+                }
                 if let Ok(val) = usize::try_from(cursor.get_u64_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U64_LEN;
@@ -101,6 +119,13 @@ impl Storage {
                 return Err(format!("Unknown rank has been gotten: {}", v));
             }
         };
+        if cursor.remaining() < prop_body_len_usize {
+            return Err(format!(
+                "Not enough data to extract body of property: expecting {} bytes, but available {} bytes",
+                prop_body_len_usize,
+                cursor.remaining()
+            ));
+        }
         let mut prop_body_buf = vec![0; prop_body_len_usize];
         prop_body_buf.copy_from_slice(
             &buf[(pos + prop_rank_len + prop_size_len)
-- 
2.43.0


From f06532e72de4a5aef3e89226c82128a572cd8cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 04/22] fix: generated Rust rejects oversized array item
 lengths instead of overflowing

---
 cli/src/protocol/render/rust/static/protocol.decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 3d2ad78..0306a0c 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -92,7 +92,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -606,7 +606,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
-- 
2.43.0


From c94cd7a2b5b1d2fe8c834d67777c60d1a95bb0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 05/22] fix: generated Rust handles packets announcing a body
 length near the integer limit

---
 cli/src/protocol/render/rust/static/protocol.packing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index f29a44e..9e58533 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -98,7 +98,7 @@ pub fn get_header_from_buffer(buf: &[u8]) -> Result<PackageHeader, String> {
 }
 
 pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
-    buf.len() >= header.len_usize + MSG_HEADER_LEN
+    buf.len() >= MSG_HEADER_LEN && buf.len() - MSG_HEADER_LEN >= header.len_usize
 }
 
 pub fn get_body_from_buffer(
@@ -106,8 +106,8 @@ pub fn get_body_from_buffer(
     header: &PackageHeader,
     uuid: Option<String>,
 ) -> Result<(Vec<u8>, Vec<u8>), String> {
-    if buf.len() < header.len_usize + MSG_HEADER_LEN {
-        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len() - MSG_HEADER_LEN));
+    if !has_buffer_body(buf, header) {
+        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len()));
     }
     // Get body
     let mut body = vec![0; header.len_usize];
-- 
2.43.0


From b2ac558ce8f64bf736150ef89a451c8b82fa1d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 06/22] fix: generated Rust processes a chunk with many packets
 without recursing per packet

---
 .../render/rust/static/protocol.buffer.rs     | 51 +++++++++----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.buffer.rs b/cli/src/protocol/render/rust/static/protocol.buffer.rs
index 8e81a28..ad82922 100644
--- a/cli/src/protocol/render/rust/static/protocol.buffer.rs
+++ b/cli/src/protocol/render/rust/static/protocol.buffer.rs
@@ -61,36 +61,35 @@ where
     pub fn chunk(&mut self, buf: &Vec<u8>, uuid: Option<String>) -> Result<(), ReadError> {
         // Add data into buffer
         self.buffer.append(&mut buf.clone());
-        if !has_buffer_header(&self.buffer) {
-            return Ok(());
-        }
-        // Get header
-        let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Header(e));
+        loop {
+            if !has_buffer_header(&self.buffer) {
+                return Ok(());
             }
-        };
-        if !has_buffer_body(&self.buffer, &header) {
-            return Ok(());
-        }
-        let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Parsing(e));
+            // Get header
+            let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
+                Ok(v) => v,
+                Err(e) => {
+                    return Err(ReadError::Header(e));
+                }
+            };
+            if !has_buffer_body(&self.buffer, &header) {
+                return Ok(());
             }
-        };
-        self.buffer = rest;
-        match Self::get_message(self, &header, &body) {
-            Ok(msg) => {
-                self.queue.push(IncomeMessage { header, msg });
-                if !self.buffer.is_empty() {
-                    self.chunk(&vec![], uuid)
-                } else {
-                    Ok(())
+            let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
+                Ok(v) => v,
+                Err(e) => {
+                    return Err(ReadError::Parsing(e));
+                }
+            };
+            self.buffer = rest;
+            match Self::get_message(self, &header, &body) {
+                Ok(msg) => {
+                    self.queue.push(IncomeMessage { header, msg });
+                }
+                Err(e) => {
+                    return Err(e);
                 }
             }
-            Err(e) => Err(e),
         }
     }
 
-- 
2.43.0


From 54c52ad3ff03a6906038aafb3a62fb1c2ce3ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 07/22] fix: a word at the very end of a file is consumed
 completely (workflow parser looped forever)

---
 cli/src/protocol/parser.rs | 2 +-
 cli/src/workflow/parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 3aba545..c9087ec 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -389,7 +389,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index f668bf4..5ce475a 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -281,7 +281,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
-- 
2.43.0


From be6d3907195c953db8c6a4298985433f9a9ca76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 08/22] fix: workflow parser counts bytes, so non-ASCII text in
 comments is skipped correctly

---
 cli/src/workflow/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index 5ce475a..a0e80f6 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -209,7 +209,7 @@ impl Parser {
         let mut limited: bool = false;
         let mut comment: bool = false;
         for char in content.chars() {
-            pass += 1;
+            pass += char.len_utf8();
             if comment && char == chars::CARET {
                 comment = false;
             } else if comment {
-- 
2.43.0


From 08ac82002d1c751ef852e9fecc0660c134ba9f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 09/22] fix: workflow parser rejects unsupported characters
 after a leading @ or &

---
 cli/src/workflow/parser.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index a0e80f6..303bbef 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -265,12 +265,9 @@ impl Parser {
                 }
             }
             let allowed: bool = allowed_chars.iter().any(|&c| c == char);
-            limited = if limited {
-                true
-            } else {
-                limited_chars.iter().any(|&c| c == char)
-            };
-            if !char.is_ascii_alphanumeric() && !allowed && !limited {
+            let marker: bool = limited_chars.iter().any(|&c| c == char);
+            limited = limited || marker;
+            if !char.is_ascii_alphanumeric() && !allowed && !marker {
                 return Err(ENextErr::NotSupported(format!(
                     "found not supportable char: {}",
                     char
-- 
2.43.0


From e1a4cbbbe1f727229be606b2c16e830404e35127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 10/22] fix: truncated protocol and workflow files are rejected
 instead of losing the open definition

---
 cli/src/protocol/parser.rs | 3 +++
 cli/src/protocol/store.rs  | 7 +++++++
 cli/src/workflow/parser.rs | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index c9087ec..492649c 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,6 +282,9 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
+                            if store.is_opened() {
+                                errs.push("Unexpected end of file".to_owned());
+                            }
                             break;
                         }
                     };
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b1815e..22a3e47 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -371,6 +371,13 @@ impl Store {
         self.c_field.is_some()
     }
 
+    pub fn is_opened(&self) -> bool {
+        self.c_group.is_some()
+            || self.c_struct.is_some()
+            || self.c_enum.is_some()
+            || self.c_field.is_some()
+    }
+
     pub fn open(&mut self) {
         if self.c_group.is_none() && self.c_struct.is_none() && self.c_enum.is_none() {
             stop!("No created struct or enum");
diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index 303bbef..3378a7b 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -109,6 +109,9 @@ impl Parser {
                             }
                         }
                         ENext::End() => {
+                            if opened.is_some() {
+                                return Err(self.err("Unexpected end of file"));
+                            }
                             break;
                         }
                         _ => 0,
-- 
2.43.0


From e2094d06eb2b3bca1d4ebfded5456db7018e94ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 11/22] fix: protocol parser rejects unmatched square brackets

---
 cli/src/protocol/parser.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 492649c..e9f060c 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -316,6 +316,7 @@ impl Parser {
     fn next(&mut self, content: String) -> Result<ENext, ENextErr> {
         let mut str: String = String::new();
         let mut pass: usize = 0;
+        let mut bracket: bool = false;
         let break_chars: Vec<char> = vec![
             chars::SEMICOLON,
             chars::OPEN,
@@ -339,6 +340,13 @@ impl Parser {
             if char.is_ascii_whitespace() && str.is_empty() {
                 continue;
             }
+            if bracket && char != chars::CLOSE_SQ_BRACKET {
+                return Err(ENextErr::NotSupported(format!(
+                    "found not supportable char: {}; expected: {}",
+                    char,
+                    chars::CLOSE_SQ_BRACKET
+                )));
+            }
             let mut breakable: Option<char> = None;
             if break_chars.iter().any(|&c| c == char) {
                 breakable = Some(char);
@@ -360,17 +368,16 @@ impl Parser {
                         if !str.is_empty() {
                             breakable = Some(char);
                         } else {
+                            bracket = true;
                             continue;
                         }
                     }
                     chars::CLOSE_SQ_BRACKET => {
-                        if let Some(c) = str.chars().next() {
-                            if c != '[' {
-                                return Err(ENextErr::NotSupported(format!(
-                                    "found not supportable char: {}",
-                                    char
-                                )));
-                            }
+                        if !bracket {
+                            return Err(ENextErr::NotSupported(format!(
+                                "found not supportable char: {}",
+                                char
+                            )));
                         }
                         return Ok(ENext::Repeated(pass));
                     }
@@ -389,7 +396,12 @@ impl Parser {
             }
             str.push(char);
         }
-        if str.is_empty() {
+        if bracket {
+            Err(ENextErr::NotSupported(format!(
+                "expected: {}",
+                chars::CLOSE_SQ_BRACKET
+            )))
+        } else if str.is_empty() {
             Ok(ENext::End())
         } else {
             Ok(ENext::Word((str, pass, None)))
-- 
2.43.0


From 66f5a3c1ec3b5fa2638dfefbe54c06dfcde1001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 12/22] fix: a protocol file ending right after a keyword is
 rejected

---
 cli/src/protocol/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index e9f060c..bc3c5ed 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,7 +282,9 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
-                            if store.is_opened() {
+                            if store.is_opened()
+                                || !is_in(&expectation, &EExpectation::StructDef)
+                            {
                                 errs.push("Unexpected end of file".to_owned());
                             }
                             break;
-- 
2.43.0


From 924f975b58dabb9319cecce089a627e6c73f7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 13/22] fix: an unfinished item of the workflow configuration
 is rejected instead of being dropped

---
 cli/src/workflow/config.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index ef76d9c..b3505f7 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -443,7 +443,12 @@ impl EntityParser for Config {
                 }
             }
             ENext::Close(offset) => {
-                if let Err(e) = self.close(protocol) {
+                if !matches!(self.pending, Pending::Nothing) {
+                    Err(format!(
+                        "Symbol CLOSE isn't expected. Expectation: {:?}",
+                        self.expectation
+                    ))
+                } else if let Err(e) = self.close(protocol) {
                     Err(e)
                 } else {
                     Ok(offset)
-- 
2.43.0


From 85566cb8966df4d408b90e1eb961b820b1187d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 14/22] fix: workflow parser rejects words and dots where a
 reference cannot have them

---
 cli/src/workflow/beacon.rs  | 6 ++++--
 cli/src/workflow/event.rs   | 6 ++++--
 cli/src/workflow/request.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/beacon.rs b/cli/src/workflow/beacon.rs
index b16be9a..53c87a4 100644
--- a/cli/src/workflow/beacon.rs
+++ b/cli/src/workflow/beacon.rs
@@ -127,6 +127,9 @@ impl EntityParser for Beacons {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!("Unexpected word {}", word));
+                }
                 match self.pending.clone() {
                     Pending::Broadcast(path_to_struct) => {
                         /* USECASES:
@@ -227,8 +230,7 @@ impl EntityParser for Beacons {
                             }
                             */
                             self.pending = Pending::Broadcast(String::new());
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         _ => Err(format!(
diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index a9bd4be..616cf73 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -148,6 +148,9 @@ impl EntityParser for Event {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!("Unexpected word {}", word));
+                }
                 match self.pending.clone() {
                     Pending::Reference(path_to_struct) => {
                         /* USECASES:
@@ -315,8 +318,7 @@ impl EntityParser for Event {
                             }
                             */
                             self.pending = Pending::Broadcast(Broadcast::new(String::new(), false));
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         _ => Err(format!(
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index e3ab5c7..32a57e5 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -303,6 +303,9 @@ impl EntityParser for Request {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!("Unexpected word {}", word));
+                }
                 match self.pending.clone() {
                     Pending::Nothing => {}
                     Pending::Request(path_to_struct) => {
@@ -673,8 +676,7 @@ impl EntityParser for Request {
                             }
                             */
                             self.pending = Pending::Broadcast(String::new());
-                            self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                            self.expectation = vec![EExpectation::Word];
                             Ok(offset)
                         }
                         Pending::Action(mut action) => {
-- 
2.43.0


From be7ee469ccf3dcaea695a00dcd1fe387ffb384df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 15/22] fix: workflow requests may be named by a single word
 and by names with underscores

---
 cli/src/workflow/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 32a57e5..5904835 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -132,7 +132,9 @@ impl Request {
             expectation: vec![
                 EExpectation::Word,
                 EExpectation::PathDelimiter,
+                EExpectation::Semicolon,
                 EExpectation::Exclamation,
+                EExpectation::Open,
             ],
             pending: Pending::Request(request),
             closed: false,
@@ -244,7 +246,7 @@ impl Request {
 
 impl EntityParser for Request {
     fn open(word: String) -> Option<Self> {
-        if word.chars().all(char::is_alphanumeric) {
+        if word.chars().all(|c| c.is_alphanumeric() || c == '_') {
             Some(Self::new(word))
         } else {
             None
-- 
2.43.0


From 979648a3854559624a6a4ce8982b9cb156d92efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:28 +0000
Subject: [PATCH 16/22] fix: producer checks key, assignment and discredit of a
 consumer for each message, not once per chunk

---
 .../workflow/render/producer/rust/render_mod.rs    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 44ba0c6..122b0c4 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -388,7 +388,7 @@ pub mod producer {
             "new chunk of data from {} has been gotten",
             uuid,
         );
-        let (messages, assigned, has_key) = if let Some(consumer) = consumers.get_mut(&uuid) {
+        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -417,11 +417,7 @@ pub mod producer {
                 .await?;
                 return Ok(());
             } else {
-                (
-                    consumer.get_messages(),
-                    consumer.get_identification().assigned(),
-                    consumer.get_identification().has_key(),
-                )
+                consumer.get_messages()
             }
         } else {
             responsing_err(
@@ -444,6 +440,12 @@ pub mod producer {
             } else {
                 return Ok(());
             };
+            if consumer.get_identification().is_discredited() {
+                // Consumer has been discredited because of one of the previous messages
+                return Ok(());
+            }
+            let assigned = consumer.get_identification().assigned();
+            let has_key = consumer.get_identification().has_key();
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
-- 
2.43.0


From 3fd2fffff1afc071f26e7fe38feeb42cc6d444b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:28 +0000
Subject: [PATCH 17/22] fix: consumer does not send its key with sequence 0,
 which belongs to broadcasts

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 715f3bf..64bf78e 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -637,8 +637,8 @@ where
     let mut key = options.key.clone();
     let response = api
         .request(
-            0,
-            &key.pack(0, None)
+            1,
+            &key.pack(1, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
@@ -675,9 +675,9 @@ where
     };
     let response = api
         .request(
-            1,
+            2,
             &hash
-                .pack(1, None)
+                .pack(2, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
-- 
2.43.0


From e646148737e41996b5ae36ecfeecc12fcf3b0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:28 +0000
Subject: [PATCH 18/22] fix: a response that comes after the timeout of its
 request does not shut the consumer down

---
 .../render/consumer/rust/render_consumer.rs         | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 64bf78e..8317d38 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -444,12 +444,13 @@ where
             }
             Channel::AcceptIncome((sequence, msg, tx_response)) => {
                 let accepted = if let Some(response) = pending.remove(&sequence) {
-                    response.send(msg).map_err(|_| {
-                        ConsumerError::APIChannel(format!(
-                            "Fail to use pending channel; sequence: {}",
-                            sequence
-                        ))
-                    })?;
+                    if response.send(msg).is_err() {
+                        // Requester doesn't wait for the response anymore (timeout)
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "response has come too late; sequence: {}", sequence
+                        );
+                    }
                     true
                 } else {
                     false
-- 
2.43.0


From 57d1fc0029a2e89589c18bfb0db578af91784def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 19/22] fix: generated producer doesn't drop the broadcasts of
 a request with a single conclusion

---
 .../workflow/render/producer/rust/render_request_handler.rs   | 4 +++-
 .../workflow/render/producer/rust/render_request_response.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_handler.rs b/cli/src/workflow/render/producer/rust/render_request_handler.rs
index 8ecde49..b2bef6d 100644
--- a/cli/src/workflow/render/producer/rust/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_handler.rs
@@ -100,7 +100,9 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1
+            || request.actions.iter().any(|a| !a.broadcast.is_empty())
+        {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
             output = output.replace("[[conclusions]]", &self.get_conclusions(request)?);
diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 2239344..dfe4cd5 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -58,7 +58,9 @@ impl Render {
             return Ok(());
         }
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1
+            || request.actions.iter().any(|a| !a.broadcast.is_empty())
+        {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[broadcast_types]]", &self.get_broadcast_types(request)?);
             output = output.replace(
-- 
2.43.0


From de0037201c05705097e94676faa264121e117b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 20/22] fix: generated response module declares the type of a
 repeated broadcast once

---
 .../producer/rust/render_request_response.rs  | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index dfe4cd5..bdaf4e9 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -130,33 +130,37 @@ impl Render {
     }
 
     fn get_broadcast_types(&self, request: &Request) -> Result<String, String> {
-        let mut output = String::new();
+        let mut types: Vec<String> = vec![];
         for action in request.actions.iter() {
-            if !action.broadcast.is_empty() {
-                for broadcast in action.broadcast.iter() {
-                    if broadcast.optional {
-                        output = format!(
-                            "{}type {} = Option<(Vec<Uuid>, protocol::{})>;\n",
-                            output,
-                            self.get_broadcast_type_name(broadcast),
-                            tools::into_rust_path(&broadcast.reference),
-                        );
-                    } else {
-                        output = format!(
-                            "{}type {} = (Vec<Uuid>, protocol::{});\n",
-                            output,
-                            self.get_broadcast_type_name(broadcast),
-                            tools::into_rust_path(&broadcast.reference),
-                        );
-                    }
+            for broadcast in action.broadcast.iter() {
+                let broadcast_type = if broadcast.optional {
+                    format!(
+                        "type {} = Option<(Vec<Uuid>, protocol::{})>;\n",
+                        self.get_broadcast_type_name(broadcast),
+                        tools::into_rust_path(&broadcast.reference),
+                    )
+                } else {
+                    format!(
+                        "type {} = (Vec<Uuid>, protocol::{});\n",
+                        self.get_broadcast_type_name(broadcast),
+                        tools::into_rust_path(&broadcast.reference),
+                    )
+                };
+                // The same broadcast can belong to several conclusions of the request
+                if !types.contains(&broadcast_type) {
+                    types.push(broadcast_type);
                 }
             }
         }
-        Ok(output)
+        Ok(types.concat())
     }
 
     fn get_broadcast_type_name(&self, broadcast: &Broadcast) -> String {
-        format!("Broadcast{}", broadcast.reference.replace(".", ""))
+        format!(
+            "{}Broadcast{}",
+            if broadcast.optional { "Optional" } else { "" },
+            broadcast.reference.replace(".", "")
+        )
     }
 
     fn get_dest_file(&self, base: &Path, request: &Request) -> Result<PathBuf, String> {
-- 
2.43.0


From 4945161581671126033302c8a90f111f016665df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 21/22] fix: a producer ends whole even if who asked for the
 shutdown is gone

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 122b0c4..59b124b 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -914,9 +914,13 @@ pub mod producer {
                 "shutdown has been requested"
             );
             if let Some(tx_response) = tx_response {
-                tx_response.send(()).map_err(|_| {
-                    ProducerError::ChannelError(String::from("Fail to send shutdown response"))
-                })?;
+                if tx_response.send(()).is_err() {
+                    // Requester does not wait for it anymore
+                    warn!(
+                        target: logs::targets::PRODUCER,
+                        "fail to send shutdown response; guess nobody waits for it anymore"
+                    );
+                }
             }
             drop(server);
             debug!(
-- 
2.43.0


From 2fa3ef1c705e5a45b7e18854fc5c8992c4b58aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 22/22] fix: a call given up before it has its sequence does
 not end the consumer

---
 .../render/consumer/rust/render_consumer.rs   | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 8317d38..249753a 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -473,11 +473,13 @@ where
                 if sequence >= u32::MAX - 1 {
                     sequence = 10;
                 }
-                tx_response.send(sequence).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Sequence",
-                    ))
-                })?;
+                if tx_response.send(sequence).is_err() {
+                    // Requester does not wait for it anymore
+                    warn!(
+                        target: logs::targets::CONSUMER,
+                        "fail to send sequence; guess nobody waits for it anymore"
+                    );
+                }
             }
             Channel::Shutdown(tx_response) => {
                 tx_shutdown.send(tx_response).await.map_err(|_| {
@@ -617,9 +619,13 @@ where
                     }
                 },
                 Auth::GetUuid(tx_response) => {
-                    tx_response.send(uuid).map_err(|_| {
-                        ConsumerError::APIChannel(String::from("Fail to response on uuid request"))
-                    })?;
+                    if tx_response.send(uuid).is_err() {
+                        // Requester does not wait for it anymore
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "fail to send uuid; guess nobody waits for it anymore"
+                        );
+                    }
                 }
             },
         }
-- 
2.43.0

