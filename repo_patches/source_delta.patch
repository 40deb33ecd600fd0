From 9bae03a26e68325e2013dcbd4503c50b4dd7747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 01/25] fix: locate AppHdr and Document with an XML reader
 instead of text search

Text search paniced on some truncated payloads, was confused by comments and
CDATA, and accepted torn, retried and concatenated payloads as one message.
---
 src/mx_envelope.rs     | 216 ++++++++++++++++++++++++++++++++---------
 src/plugin/common.rs   |  47 ++++-----
 src/plugin/parse.rs    |   2 +-
 src/plugin/validate.rs |   2 +-
 src/xml.rs             |  28 +-----
 5 files changed, 197 insertions(+), 98 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index e83f091..ad27fc5 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -391,9 +391,7 @@ impl MxMessage {
     /// Deserialize from XML string using quick-xml with custom enum handling
     pub fn from_xml(xml: &str) -> Result<Self, MxError> {
         // Check if XML contains full envelope or just Document
-        let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
-
-        if has_envelope {
+        if has_envelope(xml) {
             Self::from_xml_with_envelope(xml)
         } else {
             Self::from_xml_document_only(xml)
@@ -402,8 +400,11 @@ impl MxMessage {
 
     /// Deserialize XML with full envelope (AppHdr + Document)
     fn from_xml_with_envelope(xml: &str) -> Result<Self, MxError> {
-        // Extract AppHdr section
-        let app_hdr_xml = Self::extract_section(xml, "AppHdr")
+        // Locate the AppHdr and Document sections
+        let sections = split_sections(xml)?;
+
+        let app_hdr_xml = sections
+            .app_hdr
             .ok_or_else(|| MxError::XmlDeserialization("AppHdr not found in XML".to_string()))?;
 
         // Deserialize AppHdr using quick-xml
@@ -412,15 +413,18 @@ impl MxMessage {
                 MxError::XmlDeserialization(format!("Failed to parse AppHdr: {}", e))
             })?;
 
-        // Extract Document section
-        let doc_xml = Self::extract_section(xml, "Document")
+        let doc_xml = sections
+            .document
             .ok_or_else(|| MxError::XmlDeserialization("Document not found in XML".to_string()))?;
 
         // Determine document type from the first element inside Document
-        let doc_type = Self::detect_document_type(&doc_xml)?;
+        let doc_element = sections.document_element.ok_or_else(|| {
+            MxError::XmlDeserialization("Could not find document element".to_string())
+        })?;
+        let doc_type = Self::detect_document_type(&doc_element)?;
 
         // Deserialize the document based on its type
-        let document = Self::deserialize_document(&doc_xml, &doc_type)?;
+        let document = Self::deserialize_document(doc_xml, &doc_type)?;
 
         // Extract namespace attributes if present
         let xmlns = Self::extract_attribute(xml, "xmlns");
@@ -443,22 +447,6 @@ impl MxMessage {
         ))
     }
 
-    /// Extract content between XML tags
-    fn extract_section(xml: &str, tag: &str) -> Option<String> {
-        let start_tag = format!("<{}", tag);
-        let end_tag = format!("</{}>", tag);
-
-        let start_idx = xml.find(&start_tag)?;
-        let content_start = xml[start_idx..].find('>')? + start_idx + 1;
-        let end_idx = xml.find(&end_tag)?;
-
-        if content_start < end_idx {
-            Some(xml[content_start..end_idx].to_string())
-        } else {
-            None
-        }
-    }
-
     /// Extract XML attribute value
     fn extract_attribute(xml: &str, attr: &str) -> Option<String> {
         let pattern = format!("{}=\"", attr);
@@ -467,25 +455,8 @@ impl MxMessage {
         Some(xml[start_idx..end_idx].to_string())
     }
 
-    /// Detect document type from XML content
-    fn detect_document_type(doc_xml: &str) -> Result<String, MxError> {
-        // Find the first element tag after any whitespace
-        let trimmed = doc_xml.trim();
-        if !trimmed.starts_with('<') {
-            return Err(MxError::XmlDeserialization(
-                "Invalid document XML structure".to_string(),
-            ));
-        }
-
-        let end_idx = trimmed[1..]
-            .find(|c: char| c.is_whitespace() || c == '>')
-            .map(|i| i + 1)
-            .ok_or_else(|| {
-                MxError::XmlDeserialization("Could not find document element".to_string())
-            })?;
-
-        let element_name = &trimmed[1..end_idx];
-
+    /// Detect document type from the name of the first element inside Document
+    fn detect_document_type(element_name: &str) -> Result<String, MxError> {
         // Map element name to message type using message registry
         let message_type =
             message_registry::element_to_message_type(element_name).ok_or_else(|| {
@@ -664,6 +635,163 @@ impl MxMessage {
     }
 }
 
+/// The parts of an MX payload, located in its text
+#[derive(Debug, Default)]
+pub(crate) struct Sections<'a> {
+    /// Content of the AppHdr element
+    pub(crate) app_hdr: Option<&'a str>,
+    /// Content of the Document element
+    pub(crate) document: Option<&'a str>,
+    /// Name of the element inside Document
+    pub(crate) document_element: Option<String>,
+}
+
+/// Locate the AppHdr and Document elements of an MX payload.
+///
+/// The payload has to be one complete message: well-formed XML with a single root (or AppHdr
+/// and Document side by side), at most one AppHdr, at most one Document and exactly one element
+/// inside Document. Anything else (a truncated payload, several messages run together) is refused.
+pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
+    use quick_xml::Reader;
+    use quick_xml::events::Event;
+
+    fn malformed(reason: impl std::fmt::Display) -> MxError {
+        MxError::XmlDeserialization(format!("Malformed XML: {}", reason))
+    }
+
+    let xml = xml.strip_prefix('\u{feff}').unwrap_or(xml).trim();
+    let mut reader = Reader::from_str(xml);
+    let mut sections = Sections::default();
+    let mut roots: Vec<String> = Vec::new();
+    // Ordinals of the open elements, and how many elements were opened so far
+    let mut open: Vec<usize> = Vec::new();
+    let mut opened = 0;
+    // The section being read: is it Document, its depth and where its content starts
+    let mut current: Option<(bool, usize, usize)> = None;
+    let mut parents: Vec<usize> = Vec::new();
+
+    loop {
+        let start = reader.buffer_position() as usize;
+        let event = reader.read_event().map_err(malformed)?;
+        let end = reader.buffer_position() as usize;
+
+        match event {
+            Event::Start(ref element) | Event::Empty(ref element) => {
+                let is_empty = matches!(event, Event::Empty(_));
+                if element.contains(&b'<') {
+                    return Err(malformed("'<' inside a tag"));
+                }
+                for attribute in element.attributes() {
+                    let attribute = attribute.map_err(malformed)?;
+                    attribute.unescape_value().map_err(malformed)?;
+                }
+
+                let name = String::from_utf8_lossy(element.name().as_ref()).into_owned();
+                let parent = open.last().copied().unwrap_or(0);
+                if open.is_empty() {
+                    roots.push(name.clone());
+                }
+
+                match current {
+                    // The message itself, directly inside Document
+                    Some((true, depth, _)) if open.len() == depth + 1 => {
+                        if sections.document_element.replace(name).is_some() {
+                            return Err(malformed("more than one element inside Document"));
+                        }
+                    }
+                    Some(_) => {}
+                    None if name == "AppHdr" || name == "Document" => {
+                        let is_document = name == "Document";
+                        let section = if is_document {
+                            &mut sections.document
+                        } else {
+                            &mut sections.app_hdr
+                        };
+                        if section.replace("").is_some() {
+                            return Err(malformed(format!("more than one {}", name)));
+                        }
+                        parents.push(parent);
+                        if !is_empty {
+                            current = Some((is_document, open.len(), end));
+                        }
+                    }
+                    None => {}
+                }
+
+                opened += 1;
+                if !is_empty {
+                    open.push(opened);
+                }
+            }
+            Event::End(_) => {
+                open.pop();
+                if let Some((is_document, depth, content_start)) = current
+                    && open.len() == depth
+                {
+                    let content = Some(&xml[content_start..start]);
+                    if is_document {
+                        sections.document = content;
+                    } else {
+                        sections.app_hdr = content;
+                    }
+                    current = None;
+                }
+            }
+            Event::Text(_) | Event::CData(_) => {
+                let text = match event {
+                    Event::Text(text) => text.unescape().map_err(malformed)?.into_owned(),
+                    _ => xml[start..end].to_string(),
+                };
+                let in_document =
+                    matches!(current, Some((true, depth, _)) if open.len() == depth + 1);
+                if (open.is_empty() || in_document) && !text.trim().is_empty() {
+                    return Err(malformed("text outside of the message"));
+                }
+            }
+            Event::Decl(_) if start > 0 => {
+                return Err(malformed("XML declaration inside the payload"));
+            }
+            Event::DocType(_) if !roots.is_empty() => {
+                return Err(malformed("DOCTYPE inside the payload"));
+            }
+            Event::Eof => break,
+            _ => {}
+        }
+    }
+
+    if !open.is_empty() || roots.is_empty() {
+        return Err(malformed("unexpected end of the payload"));
+    }
+    let side_by_side = roots.len() == 2 && parents == [0, 0];
+    if roots.len() > 1 && !side_by_side {
+        return Err(malformed("more than one root element"));
+    }
+    if parents.windows(2).any(|pair| pair[0] != pair[1]) {
+        return Err(malformed("AppHdr and Document are not side by side"));
+    }
+
+    Ok(sections)
+}
+
+/// Check if XML contains a full envelope (AppHdr + Document) or just a Document
+pub(crate) fn has_envelope(xml: &str) -> bool {
+    use quick_xml::Reader;
+    use quick_xml::events::Event;
+
+    let mut reader = Reader::from_str(xml);
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(element)) | Ok(Event::Empty(element)) => {
+                if matches!(element.name().as_ref(), b"AppHdr" | b"Envelope") {
+                    return true;
+                }
+            }
+            Ok(Event::Eof) | Err(_) => return false,
+            Ok(_) => {}
+        }
+    }
+}
+
 /// Extract message type from XML without full deserialization
 pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
     // Simple regex-based extraction for MsgDefIdr
diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 9a05c5c..28ff646 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -5,6 +5,8 @@
 
 use crate::message_registry;
 use dataflow_rs::engine::error::{DataflowError, Result};
+use quick_xml::Reader;
+use quick_xml::events::Event;
 use serde_json::Value;
 
 /// Map ISO20022 document element names to message types
@@ -83,35 +85,24 @@ pub fn extract_message_type(data: &Value) -> Result<String> {
 /// * Ok(message_type) - The extracted message type
 /// * Err(error) - If message type cannot be determined
 pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
-    let xml_str = xml_str.trim();
-
-    // Find the Document opening tag
-    if let Some(doc_start) = xml_str.find("<Document") {
-        // Find the end of the opening Document tag
-        if let Some(doc_end) = xml_str[doc_start..].find('>') {
-            let after_doc = &xml_str[doc_start + doc_end + 1..];
-
-            // Find the first element after Document
-            if let Some(elem_start) = after_doc.find('<')
-                && after_doc.as_bytes()[elem_start + 1] != b'/'
-            {
-                let elem_name_start = elem_start + 1;
-                // Find the end of the element name (space or >)
-                let elem_name_end = after_doc[elem_name_start..]
-                    .find([' ', '>', '/'])
-                    .map(|i| elem_name_start + i)
-                    .unwrap_or(after_doc.len());
-
-                let element_name = &after_doc[elem_name_start..elem_name_end];
-                // Remove namespace prefix if present
-                let element_name = if let Some(colon_pos) = element_name.rfind(':') {
-                    &element_name[colon_pos + 1..]
-                } else {
-                    element_name
-                };
-
-                return map_document_element_to_message_type(element_name);
+    let mut reader = Reader::from_str(xml_str);
+    let mut in_document = false;
+
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(element)) | Ok(Event::Empty(element)) => {
+                if in_document {
+                    // The first element inside Document, without namespace prefix
+                    let local_name = element.local_name();
+                    return map_document_element_to_message_type(&String::from_utf8_lossy(
+                        local_name.as_ref(),
+                    ));
+                }
+                in_document = element.name().as_ref() == b"Document";
             }
+            Ok(Event::End(_)) if in_document => break,
+            Ok(Event::Eof) | Err(_) => break,
+            Ok(_) => {}
         }
     }
 
diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c6dfa3a..2721db3 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -71,7 +71,7 @@ impl Parse {
         debug!("Parsing XML to JSON using MxMessage API");
 
         // Check if XML has full envelope or just Document
-        let has_envelope = xml_str.contains("<AppHdr") || xml_str.contains("<Envelope");
+        let has_envelope = crate::mx_envelope::has_envelope(xml_str);
 
         let parsed_data = if has_envelope {
             debug!("XML has full envelope with AppHdr");
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a124c8e..d6b89e9 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -96,7 +96,7 @@ impl Validate {
         let warnings: Vec<String> = Vec::new();
 
         // Check if XML has full envelope or just Document
-        let has_envelope = xml_content.contains("<AppHdr") || xml_content.contains("<Envelope");
+        let has_envelope = crate::mx_envelope::has_envelope(xml_content);
 
         if has_envelope {
             debug!("Validating XML with full envelope using MxMessage");
diff --git a/src/xml.rs b/src/xml.rs
index a6d2eda..3b1c4d1 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -16,7 +16,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     use crate::mx_envelope::MxMessage;
 
     // Check if XML contains AppHdr (full envelope) or just Document
-    let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
+    let has_envelope = crate::mx_envelope::has_envelope(xml);
 
     if !has_envelope {
         // No envelope, validate using MxMessage which handles Document-only
@@ -64,29 +64,9 @@ pub fn xml_to_json_via_document(
     use crate::document::*;
     use serde_json::json;
 
-    // Extract inner XML (strip Document wrapper and XML declaration)
-    let inner_xml = xml
-        .trim()
-        .trim_start_matches("<?xml version=\"1.0\" encoding=\"UTF-8\"?>")
-        .trim();
-
-    // Find the Document wrapper and extract inner content
-    let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
-        if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
-            let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>") {
-                &inner_xml[content_start..end_idx]
-            } else {
-                inner_xml
-            }
-        } else {
-            inner_xml
-        }
-    } else {
-        inner_xml
-    };
-
-    let inner_xml = inner_xml.trim();
+    // Extract inner XML (strip Document wrapper)
+    let sections = crate::mx_envelope::split_sections(xml)?;
+    let inner_xml = sections.document.unwrap_or(xml).trim();
 
     // Deserialize XML to typed struct, then serialize to JSON
     let json_value = match message_type {
-- 
2.43.0


From f03a2e007a15407eca0239e873bf5dcace9ccc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 02/25] fix: parse_mx replaced a literal backslash-n inside
 text by a line break

A JSON string payload is already unescaped when it is read; unescaping it a
second time changed the content. Only the JSON text of a non-string payload
still needs it.
---
 src/plugin/common.rs | 7 +++++--
 src/plugin/parse.rs  | 3 +--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 28ff646..fd224b8 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -136,8 +136,11 @@ pub fn extract_mx_content(
         if let Some(s) = message_payload.as_str() {
             Ok(s.to_string())
         } else {
-            // If it's not a string directly, try to convert
-            Ok(message_payload.to_string().trim_matches('"').to_string())
+            // If it's not a string directly, try to convert its JSON text
+            Ok(message_payload
+                .to_string()
+                .trim_matches('"')
+                .replace("\\n", "\n"))
         }
     } else {
         // Check if the field contains an object with mx_message (from generate_mx output)
diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index 2721db3..c90a35f 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -43,8 +43,7 @@ impl AsyncFunctionHandler for Parse {
             DataflowError::Validation("'target' parameter is required".to_string())
         })?;
 
-        let xml_payload = extract_mx_content(message.data(), source_field, &message.payload)?
-            .replace("\\n", "\n");
+        let xml_payload = extract_mx_content(message.data(), source_field, &message.payload)?;
 
         debug!(
             source_field = %source_field,
-- 
2.43.0


From b85e475a61b701db84e262a37d8b94a1b6316f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 03/25] fix: parse_mx and validate_mx recorded no previous
 value when overwriting a field

---
 src/plugin/parse.rs    | 8 +++++++-
 src/plugin/validate.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c90a35f..0dc3a10 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -110,6 +110,12 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -137,7 +143,7 @@ impl Parse {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(parsed_data),
             }],
         ))
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index d6b89e9..3faae5e 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -56,6 +56,12 @@ impl AsyncFunctionHandler for Validate {
         let validation_result = self.validate_xml(&xml_content)?;
 
         // Store validation result
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -77,7 +83,7 @@ impl AsyncFunctionHandler for Validate {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(validation_result),
             }],
         ))
-- 
2.43.0


From 9c8ab1173f22c683acffe29089dae40881e3ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 04/25] fix: parse_mx and validate_mx paniced on a message
 whose data or metadata is not an object

---
 src/plugin/common.rs   | 23 +++++++++++++++++++++++
 src/plugin/parse.rs    |  4 +++-
 src/plugin/validate.rs |  4 +++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index fd224b8..6879e1b 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -5,6 +5,7 @@
 
 use crate::message_registry;
 use dataflow_rs::engine::error::{DataflowError, Result};
+use dataflow_rs::engine::message::Message;
 use quick_xml::Reader;
 use quick_xml::events::Event;
 use serde_json::Value;
@@ -166,6 +167,28 @@ pub fn extract_mx_content(
     }
 }
 
+/// Check that the message can store results, before anything is written to it
+///
+/// # Arguments
+/// * `message` - The message a step is about to update
+///
+/// # Returns
+/// * Ok(()) - If both data and metadata are objects
+/// * Err(error) - If a result could not be stored completely
+pub fn ensure_writable(message: &Message) -> Result<()> {
+    if !message.data().is_object() {
+        return Err(DataflowError::Validation(
+            "Message data must be an object".to_string(),
+        ));
+    }
+    if !message.metadata().is_object() {
+        return Err(DataflowError::Validation(
+            "Message metadata must be an object".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index 0dc3a10..5a86c09 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -10,7 +10,7 @@ use serde_json::{Value, json};
 use std::sync::Arc;
 use tracing::{debug, error, instrument};
 
-use super::common::{extract_message_type, extract_mx_content};
+use super::common::{ensure_writable, extract_message_type, extract_mx_content};
 
 pub struct Parse;
 
@@ -110,6 +110,8 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
+        ensure_writable(message)?;
+
         let old_value = message
             .data()
             .get(target_field)
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 3faae5e..ceb0194 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -10,7 +10,7 @@ use serde_json::{Value, json};
 use std::sync::Arc;
 use tracing::{debug, instrument};
 
-use super::common::extract_mx_content;
+use super::common::{ensure_writable, extract_mx_content};
 
 pub struct Validate;
 
@@ -56,6 +56,8 @@ impl AsyncFunctionHandler for Validate {
         let validation_result = self.validate_xml(&xml_content)?;
 
         // Store validation result
+        ensure_writable(message)?;
+
         let old_value = message
             .data()
             .get(target_field)
-- 
2.43.0


From a64295681865e83beeff6baa02869226698984c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 05/25] fix: Document-only XML was never valid, and five
 message types could not be read without envelope

---
 src/xml.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 3b1c4d1..3ba9574 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -19,8 +19,8 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     let has_envelope = crate::mx_envelope::has_envelope(xml);
 
     if !has_envelope {
-        // No envelope, validate using MxMessage which handles Document-only
-        MxMessage::from_xml(xml).map_err(|e| {
+        // No envelope, validate the Document against its typed structure
+        xml_to_json_via_document(xml, message_type).map_err(|e| {
             MxError::XmlDeserialization(format!(
                 "Failed to validate Document (message_type={}): {}",
                 message_type, e
@@ -31,7 +31,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
 
     // Parse as full envelope with AppHdr - validate by attempting deserialization
     // All message types use the same BusinessApplicationHeaderV02
-    xml_from_str::<MxMessage>(xml).map_err(|e| {
+    MxMessage::from_xml(xml).map_err(|e| {
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
@@ -101,6 +101,11 @@ pub fn xml_to_json_via_document(
             pain_001_001_09::CustomerCreditTransferInitiationV09,
             "pain.001"
         ),
+        "pain.002" => xml_to_json_doc!(
+            inner_xml,
+            pain_002_001_10::CustomerPaymentStatusReportV10,
+            "pain.002"
+        ),
         "pain.008" => xml_to_json_doc!(
             inner_xml,
             pain_008_001_08::CustomerDirectDebitInitiationV08,
@@ -127,6 +132,11 @@ pub fn xml_to_json_via_document(
             camt_054_001_08::BankToCustomerDebitCreditNotificationV08,
             "camt.054"
         ),
+        "camt.055" => xml_to_json_doc!(
+            inner_xml,
+            camt_055_001_08::CustomerPaymentCancellationRequestV08,
+            "camt.055"
+        ),
         "camt.056" => xml_to_json_doc!(
             inner_xml,
             camt_056_001_08::FIToFIPaymentCancellationRequestV08,
@@ -137,11 +147,26 @@ pub fn xml_to_json_via_document(
             camt_057_001_06::NotificationToReceiveV06,
             "camt.057"
         ),
+        "camt.058" => xml_to_json_doc!(
+            inner_xml,
+            camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
+            "camt.058"
+        ),
         "camt.060" => xml_to_json_doc!(
             inner_xml,
             camt_060_001_05::AccountReportingRequestV05,
             "camt.060"
         ),
+        "camt.105" => xml_to_json_doc!(
+            inner_xml,
+            camt_105_001_02::ChargesPaymentNotificationV02,
+            "camt.105"
+        ),
+        "camt.106" => xml_to_json_doc!(
+            inner_xml,
+            camt_106_001_02::ChargesPaymentRequestV02,
+            "camt.106"
+        ),
         "camt.107" => xml_to_json_doc!(
             inner_xml,
             camt_107_001_01::ChequePresentmentNotificationV01,
-- 
2.43.0


From e3cb977ecc4c2c9ea112bc3671818230efa5475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 06/25] fix: from_mx_xml_to_json overflowed the stack on deeply
 nested XML

---
 src/xml.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 3ba9574..75ea9d4 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -4,7 +4,9 @@
 
 use crate::error::MxError;
 use crate::message_registry;
+use quick_xml::Reader;
 use quick_xml::de::from_str as xml_from_str;
+use quick_xml::events::Event;
 
 // Re-export MxError as XmlError for backward compatibility
 pub type XmlError = MxError;
@@ -204,6 +206,37 @@ pub fn xml_to_json_via_document(
     }))
 }
 
+/// Deepest element nesting accepted when XML of unknown structure is converted to JSON,
+/// the same limit serde_json applies to JSON text
+const MAX_NESTING_DEPTH: usize = 128;
+
+/// Refuse XML nested so deeply that converting it recursively would exhaust the stack
+fn check_nesting_depth(xml: &str) -> Result<(), XmlError> {
+    let mut reader = Reader::from_str(xml);
+    let mut depth = 0;
+
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(_)) => depth += 1,
+            Ok(Event::End(_)) => depth -= 1,
+            Ok(Event::Eof) => return Ok(()),
+            Ok(_) => {}
+            Err(e) => {
+                return Err(MxError::XmlDeserialization(format!(
+                    "XML parsing error: {}",
+                    e
+                )));
+            }
+        }
+        if depth > MAX_NESTING_DEPTH {
+            return Err(MxError::XmlDeserialization(format!(
+                "XML parsing error: more than {} nested elements",
+                MAX_NESTING_DEPTH
+            )));
+        }
+    }
+}
+
 /// Helper function to parse XML to JSON Value (for dataflow plugins)
 /// This function parses XML and converts it to a JSON structure
 ///
@@ -212,6 +245,8 @@ pub fn xml_to_json_via_document(
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
+    check_nesting_depth(xml)?;
+
     // Use quick_xml to deserialize directly to a serde_json::Value
     // This is simpler than manual parsing and handles the XML-to-JSON conversion
     let value: serde_json::Value = quick_xml::de::from_str(xml)
-- 
2.43.0


From c6f64b087f788a811b6ff55d0b15e7ee9729dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 07/25] fix: peek_message_type_from_xml missed MsgDefIdr
 elements with white space, comments or CDATA

---
 src/mx_envelope.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index ad27fc5..2d32c65 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -794,16 +794,27 @@ pub(crate) fn has_envelope(xml: &str) -> bool {
 
 /// Extract message type from XML without full deserialization
 pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
-    // Simple regex-based extraction for MsgDefIdr
-    use regex::Regex;
-
-    let re = Regex::new(r"<MsgDefIdr>([^<]+)</MsgDefIdr>")
-        .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
+    // Find the first MsgDefIdr element and decode just that element
+    use quick_xml::Reader;
+    use quick_xml::events::Event;
 
-    if let Some(captures) = re.captures(xml)
-        && let Some(msg_def_idr) = captures.get(1)
-    {
-        return Ok(normalize_message_type(msg_def_idr.as_str()));
+    let mut reader = Reader::from_str(xml);
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(element)) if element.name().as_ref() == b"MsgDefIdr" => {
+                let content = reader.read_text(element.name()).map_err(|e| {
+                    MxError::XmlDeserialization(format!("Invalid MsgDefIdr: {}", e))
+                })?;
+                let msg_def_idr = quick_xml::de::from_str::<String>(&format!(
+                    "<MsgDefIdr>{}</MsgDefIdr>",
+                    content
+                ))
+                .map_err(|e| MxError::XmlDeserialization(format!("Invalid MsgDefIdr: {}", e)))?;
+                return Ok(normalize_message_type(&msg_def_idr));
+            }
+            Ok(Event::Eof) | Err(_) => break,
+            Ok(_) => {}
+        }
     }
 
     Err(MxError::XmlDeserialization(
-- 
2.43.0


From eb64327705334024444ba7f3eef061747daf8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 08/25] fix: lists of codes (card capabilities in camt.052,
 camt.053, camt.054) could not be read from XML

---
 src/document/camt_052_001_08.rs |  9 ++++++++-
 src/document/camt_053_001_08.rs |  9 ++++++++-
 src/document/camt_054_001_08.rs |  9 ++++++++-
 src/xml.rs                      | 19 +++++++++++++++++++
 4 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/document/camt_052_001_08.rs b/src/document/camt_052_001_08.rs
index 245aa78..c940d6e 100644
--- a/src/document/camt_052_001_08.rs
+++ b/src/document/camt_052_001_08.rs
@@ -6959,10 +6959,17 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        default,
+        deserialize_with = "crate::xml::deserialize_codes",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
+        default,
+        deserialize_with = "crate::xml::deserialize_codes",
         skip_serializing_if = "Option::is_none"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
diff --git a/src/document/camt_053_001_08.rs b/src/document/camt_053_001_08.rs
index beb1d60..f10ddd1 100644
--- a/src/document/camt_053_001_08.rs
+++ b/src/document/camt_053_001_08.rs
@@ -6328,10 +6328,17 @@ impl Validate for PointOfInteraction12 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        default,
+        deserialize_with = "crate::xml::deserialize_codes",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
+        default,
+        deserialize_with = "crate::xml::deserialize_codes",
         skip_serializing_if = "Option::is_none"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
diff --git a/src/document/camt_054_001_08.rs b/src/document/camt_054_001_08.rs
index ee462c0..688431d 100644
--- a/src/document/camt_054_001_08.rs
+++ b/src/document/camt_054_001_08.rs
@@ -7859,10 +7859,17 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        default,
+        deserialize_with = "crate::xml::deserialize_codes",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
+        default,
+        deserialize_with = "crate::xml::deserialize_codes",
         skip_serializing_if = "Option::is_none"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
diff --git a/src/xml.rs b/src/xml.rs
index 75ea9d4..ef53c89 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -7,6 +7,7 @@ use crate::message_registry;
 use quick_xml::Reader;
 use quick_xml::de::from_str as xml_from_str;
 use quick_xml::events::Event;
+use serde::de::{Deserialize, Deserializer, IntoDeserializer};
 
 // Re-export MxError as XmlError for backward compatibility
 pub type XmlError = MxError;
@@ -40,6 +41,24 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     Ok(())
 }
 
+/// Deserialize a repeated element that holds a code.
+/// quick-xml takes the element name for the enum variant when it reads a list of enums, so the
+/// codes are read as text first.
+pub(crate) fn deserialize_codes<'de, D, T>(deserializer: D) -> Result<Option<Vec<T>>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: Deserialize<'de>,
+{
+    Option::<Vec<String>>::deserialize(deserializer)?
+        .map(|codes| {
+            codes
+                .into_iter()
+                .map(|code| T::deserialize(code.into_deserializer()))
+                .collect()
+        })
+        .transpose()
+}
+
 /// Helper function to get the Document element name for a message type
 /// Used internally by xml_to_json_via_document
 fn get_document_element_name(message_type: &str) -> &'static str {
-- 
2.43.0


From 4569776323ef3ed182034ef7f8c4af3c1c3993c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 09/25] fix: refuse a message inside another message

A whole message inside a header was skipped as an unknown element, but peeking
took its message type from there.
---
 src/mx_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 2d32c65..1c3d400 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -693,6 +693,9 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
                 }
 
                 match current {
+                    Some(_) if name == "AppHdr" || name == "Document" => {
+                        return Err(malformed(format!("{} inside the message", name)));
+                    }
                     // The message itself, directly inside Document
                     Some((true, depth, _)) if open.len() == depth + 1 => {
                         if sections.document_element.replace(name).is_some() {
-- 
2.43.0


From 02bb2701d8d1f33163a9c5672c08a226bd3bd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:55 +0000
Subject: [PATCH 10/25] fix: text beside a repeated element was read as one
 more of them

---
 src/mx_envelope.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 1c3d400..3c4e463 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -665,6 +665,8 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
     let mut roots: Vec<String> = Vec::new();
     // Ordinals of the open elements, and how many elements were opened so far
     let mut open: Vec<usize> = Vec::new();
+    // For each open element: does it hold elements, does it hold text
+    let mut holds: Vec<(bool, bool)> = Vec::new();
     let mut opened = 0;
     // The section being read: is it Document, its depth and where its content starts
     let mut current: Option<(bool, usize, usize)> = None;
@@ -688,8 +690,10 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
 
                 let name = String::from_utf8_lossy(element.name().as_ref()).into_owned();
                 let parent = open.last().copied().unwrap_or(0);
-                if open.is_empty() {
-                    roots.push(name.clone());
+                match holds.last_mut() {
+                    Some((_, true)) => return Err(malformed("text beside elements")),
+                    Some((elements, _)) => *elements = true,
+                    None => roots.push(name.clone()),
                 }
 
                 match current {
@@ -724,10 +728,12 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
                 opened += 1;
                 if !is_empty {
                     open.push(opened);
+                    holds.push((false, false));
                 }
             }
             Event::End(_) => {
                 open.pop();
+                holds.pop();
                 if let Some((is_document, depth, content_start)) = current
                     && open.len() == depth
                 {
@@ -741,14 +747,17 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
                 }
             }
             Event::Text(_) | Event::CData(_) => {
-                let text = match event {
-                    Event::Text(text) => text.unescape().map_err(malformed)?.into_owned(),
-                    _ => xml[start..end].to_string(),
-                };
+                if let Event::Text(text) = event {
+                    text.unescape().map_err(malformed)?;
+                }
                 let in_document =
                     matches!(current, Some((true, depth, _)) if open.len() == depth + 1);
-                if (open.is_empty() || in_document) && !text.trim().is_empty() {
-                    return Err(malformed("text outside of the message"));
+                if !xml[start..end].trim_ascii().is_empty() {
+                    match holds.last_mut() {
+                        Some((true, _)) => return Err(malformed("text beside elements")),
+                        Some((_, text)) if !in_document => *text = true,
+                        _ => return Err(malformed("text outside of the message")),
+                    }
                 }
             }
             Event::Decl(_) if start > 0 => {
-- 
2.43.0


From a5c6fface3fa16129a8f91a87aac069b1578f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 11/25] fix: json_semi_beautifier wrote broken JSON for keys
 with quotes, backslashes or control characters

---
 test_scenarios/json_semi_beautifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test_scenarios/json_semi_beautifier.py b/test_scenarios/json_semi_beautifier.py
index a313d34..51c5e74 100755
--- a/test_scenarios/json_semi_beautifier.py
+++ b/test_scenarios/json_semi_beautifier.py
@@ -108,7 +108,7 @@ class SemiBeautifier:
             items = []
             for k, v in obj.items():
                 formatted_value = self.format_value(v, depth + 1)
-                items.append(f'{next_indent}"{k}": {formatted_value}')
+                items.append(f'{next_indent}{json.dumps(k, ensure_ascii=False)}: {formatted_value}')
             
             return '{\n' + ',\n'.join(items) + '\n' + indent + '}'
             
-- 
2.43.0


From 14f41637212822689e2c27a665ad6f4819242829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 12/25] fix: apply-box-wrapping.py left a torn file behind when
 interrupted

---
 apply-box-wrapping.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/apply-box-wrapping.py b/apply-box-wrapping.py
index c3f5ea1..7565c68 100644
--- a/apply-box-wrapping.py
+++ b/apply-box-wrapping.py
@@ -7,12 +7,31 @@ This script analyzes struct definitions and applies Box wrapping based on config
 import os
 import re
 import json
+import shutil
 import argparse
+import contextlib
 from pathlib import Path
 from typing import Dict, Set, List, Tuple, Optional
 from dataclasses import dataclass, field
 from collections import defaultdict
 
+def write_atomically(file_path: str, content: str):
+    """Replace the content of a file completely or, if anything goes wrong on the way, not at all"""
+    target = os.path.realpath(file_path)
+    temporary = target + '.tmp'
+    try:
+        with open(temporary, 'w') as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(target):
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temporary)
+        raise
+
 @dataclass
 class BoxConfig:
     """Configuration for Box wrapping decisions"""
@@ -68,8 +87,7 @@ class BoxConfig:
             'use_pattern_matching': self.use_pattern_matching,
             'use_nesting_analysis': self.use_nesting_analysis,
         }
-        with open(json_path, 'w') as f:
-            json.dump(data, f, indent=2)
+        write_atomically(json_path, json.dumps(data, indent=2))
 
 class StructAnalyzer:
     """Analyzes Rust struct definitions to determine Box wrapping needs"""
@@ -261,8 +279,7 @@ class StructAnalyzer:
             content = self._update_validation_code(content, changes)
         
         if not dry_run and content != original_content:
-            with open(file_path, 'w') as f:
-                f.write(content)
+            write_atomically(file_path, content)
         
         return len(changes), changes
 
-- 
2.43.0


From 7bba175eec67c477931e1055b53813c572fe0de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 13/25] fix: json_semi_beautifier.py left a torn file behind
 when interrupted

---
 test_scenarios/json_semi_beautifier.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/test_scenarios/json_semi_beautifier.py b/test_scenarios/json_semi_beautifier.py
index 51c5e74..ae79c6f 100755
--- a/test_scenarios/json_semi_beautifier.py
+++ b/test_scenarios/json_semi_beautifier.py
@@ -6,13 +6,34 @@ A smart JSON formatter that keeps simple structures compact while breaking down
 complex ones for readability. Specifically designed for JSONLogic workflows.
 """
 
+import contextlib
 import json
+import os
+import shutil
 import sys
 import argparse
 from pathlib import Path
 from typing import Any, Union
 
 
+def write_atomically(path: str, content: str):
+    """Replace the content of a file completely or, if anything goes wrong on the way, not at all"""
+    target = os.path.realpath(path)
+    temporary = target + '.tmp'
+    try:
+        with open(temporary, 'w') as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(target):
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temporary)
+        raise
+
+
 class SemiBeautifier:
     def __init__(self, max_inline_length=80, max_inline_items=3, indent=4):
         self.max_inline_length = max_inline_length
@@ -172,9 +193,7 @@ def main():
             formatted = beautifier.beautify(data)
             
             if args.in_place:
-                with open(path, 'w') as f:
-                    f.write(formatted)
-                    f.write('\n')  # Add final newline
+                write_atomically(path, formatted + '\n')  # Add final newline
                 print(f"Formatted: {file_path}")
             else:
                 print(f"# {file_path}")
-- 
2.43.0


From b971df67528d003f43b3a830691ba7c8adb64f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 14/25] fix: apply-box-wrapping.py gave another result when an
 interrupted run was repeated

The nesting depth of a type was kept from file to file, although it depends on the file, and
was looked up for fields not boxed yet only.
---
 apply-box-wrapping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apply-box-wrapping.py b/apply-box-wrapping.py
index 7565c68..7c9b122 100644
--- a/apply-box-wrapping.py
+++ b/apply-box-wrapping.py
@@ -239,6 +239,8 @@ class StructAnalyzer:
         
         # First pass: analyze all structs
         self.structs = self.parse_file(file_path)
+        # Depths known from another file do not hold for this one
+        self.nesting_depth = {}
         
         # Second pass: apply boxing
         for struct_name, fields in self.structs.items():
-- 
2.43.0


From 4e910181df73a40a887f5dda902e094f3d2769df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 15/25] fix: field patterns matched any part of the value

The patterns come from XML Schema facets, which describe the whole value. Without anchors a BIC,
UETR or LEI with anything before or after it passed validation.
---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86fd23e..6b056ab 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -96,7 +96,8 @@ pub mod helpers {
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-        let regex = match Regex::new(pattern) {
+        // The patterns are XML Schema facets: they describe the whole value
+        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
                 collector.add_critical_error(
-- 
2.43.0


From a580ecc8686ce11f1f60c433bd7f5429d2cc7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 16/25] fix: fail-fast validation went on after the first error

The errors of sibling and nested fields were still collected, so the report depended on how the
message is structured instead of holding just the first error.
---
 src/validation.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 6b056ab..6ce26bf 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -41,6 +41,10 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         let mut valid = true;
 
         if let Some(min_len) = min
@@ -93,6 +97,10 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-- 
2.43.0


From 1c74247325ba25d2c34d42886d2f6ec4543cd608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 17/25] Revert the changes to
 test_scenarios/json_semi_beautifier.py

The folder belongs to the tests; the defects are recorded as known findings.
---
 test_scenarios/json_semi_beautifier.py | 27 ++++----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/test_scenarios/json_semi_beautifier.py b/test_scenarios/json_semi_beautifier.py
index ae79c6f..a313d34 100755
--- a/test_scenarios/json_semi_beautifier.py
+++ b/test_scenarios/json_semi_beautifier.py
@@ -6,34 +6,13 @@ A smart JSON formatter that keeps simple structures compact while breaking down
 complex ones for readability. Specifically designed for JSONLogic workflows.
 """
 
-import contextlib
 import json
-import os
-import shutil
 import sys
 import argparse
 from pathlib import Path
 from typing import Any, Union
 
 
-def write_atomically(path: str, content: str):
-    """Replace the content of a file completely or, if anything goes wrong on the way, not at all"""
-    target = os.path.realpath(path)
-    temporary = target + '.tmp'
-    try:
-        with open(temporary, 'w') as f:
-            f.write(content)
-            f.flush()
-            os.fsync(f.fileno())
-        if os.path.exists(target):
-            shutil.copymode(target, temporary)
-        os.replace(temporary, target)
-    except BaseException:
-        with contextlib.suppress(OSError):
-            os.unlink(temporary)
-        raise
-
-
 class SemiBeautifier:
     def __init__(self, max_inline_length=80, max_inline_items=3, indent=4):
         self.max_inline_length = max_inline_length
@@ -129,7 +108,7 @@ class SemiBeautifier:
             items = []
             for k, v in obj.items():
                 formatted_value = self.format_value(v, depth + 1)
-                items.append(f'{next_indent}{json.dumps(k, ensure_ascii=False)}: {formatted_value}')
+                items.append(f'{next_indent}"{k}": {formatted_value}')
             
             return '{\n' + ',\n'.join(items) + '\n' + indent + '}'
             
@@ -193,7 +172,9 @@ def main():
             formatted = beautifier.beautify(data)
             
             if args.in_place:
-                write_atomically(path, formatted + '\n')  # Add final newline
+                with open(path, 'w') as f:
+                    f.write(formatted)
+                    f.write('\n')  # Add final newline
                 print(f"Formatted: {file_path}")
             else:
                 print(f"# {file_path}")
-- 
2.43.0


From b07ab6a473ee9ce82d4d376d0dd2cdcfedc86c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 18/25] fix: an element with very many attributes took
 quadratic time

---
 src/mx_envelope.rs |  9 ++++++++-
 src/xml.rs         | 36 +++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 3c4e463..51f385d 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -646,6 +646,10 @@ pub(crate) struct Sections<'a> {
     pub(crate) document_element: Option<String>,
 }
 
+/// Most attributes accepted on one element. Reading them takes quadratic time, because each name
+/// is compared with all names before it.
+pub(crate) const MAX_ATTRIBUTES: usize = 128;
+
 /// Locate the AppHdr and Document elements of an MX payload.
 ///
 /// The payload has to be one complete message: well-formed XML with a single root (or AppHdr
@@ -683,7 +687,10 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
                 if element.contains(&b'<') {
                     return Err(malformed("'<' inside a tag"));
                 }
-                for attribute in element.attributes() {
+                for (count, attribute) in element.attributes().enumerate() {
+                    if count == MAX_ATTRIBUTES {
+                        return Err(malformed("too many attributes"));
+                    }
                     let attribute = attribute.map_err(malformed)?;
                     attribute.unescape_value().map_err(malformed)?;
                 }
diff --git a/src/xml.rs b/src/xml.rs
index ef53c89..84278bc 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -229,23 +229,33 @@ pub fn xml_to_json_via_document(
 /// the same limit serde_json applies to JSON text
 const MAX_NESTING_DEPTH: usize = 128;
 
-/// Refuse XML nested so deeply that converting it recursively would exhaust the stack
-fn check_nesting_depth(xml: &str) -> Result<(), XmlError> {
+/// Refuse XML nested so deeply that converting it recursively would exhaust the stack, or with so
+/// many attributes on one element that reading them would take forever
+fn check_limits(xml: &str) -> Result<(), XmlError> {
+    use crate::mx_envelope::MAX_ATTRIBUTES;
+
     let mut reader = Reader::from_str(xml);
     let mut depth = 0;
 
     loop {
-        match reader.read_event() {
-            Ok(Event::Start(_)) => depth += 1,
-            Ok(Event::End(_)) => depth -= 1,
-            Ok(Event::Eof) => return Ok(()),
-            Ok(_) => {}
-            Err(e) => {
-                return Err(MxError::XmlDeserialization(format!(
-                    "XML parsing error: {}",
-                    e
-                )));
+        let event = reader
+            .read_event()
+            .map_err(|e| MxError::XmlDeserialization(format!("XML parsing error: {}", e)))?;
+        match event {
+            Event::Start(ref element) | Event::Empty(ref element) => {
+                if element.attributes().with_checks(false).count() > MAX_ATTRIBUTES {
+                    return Err(MxError::XmlDeserialization(format!(
+                        "XML parsing error: more than {} attributes",
+                        MAX_ATTRIBUTES
+                    )));
+                }
+                if matches!(event, Event::Start(_)) {
+                    depth += 1;
+                }
             }
+            Event::End(_) => depth -= 1,
+            Event::Eof => return Ok(()),
+            _ => {}
         }
         if depth > MAX_NESTING_DEPTH {
             return Err(MxError::XmlDeserialization(format!(
@@ -264,7 +274,7 @@ fn check_nesting_depth(xml: &str) -> Result<(), XmlError> {
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
-    check_nesting_depth(xml)?;
+    check_limits(xml)?;
 
     // Use quick_xml to deserialize directly to a serde_json::Value
     // This is simpler than manual parsing and handles the XML-to-JSON conversion
-- 
2.43.0


From 2898b5226ff9c5d0e460030fa81f1180a64e5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 19/25] fix: names that are no XML names were accepted

---
 src/mx_envelope.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 51f385d..5f6df4a 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -687,11 +687,17 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
                 if element.contains(&b'<') {
                     return Err(malformed("'<' inside a tag"));
                 }
+                if !is_name(element.name().as_ref()) {
+                    return Err(malformed("invalid element name"));
+                }
                 for (count, attribute) in element.attributes().enumerate() {
                     if count == MAX_ATTRIBUTES {
                         return Err(malformed("too many attributes"));
                     }
                     let attribute = attribute.map_err(malformed)?;
+                    if !is_name(attribute.key.as_ref()) {
+                        return Err(malformed("invalid attribute name"));
+                    }
                     attribute.unescape_value().map_err(malformed)?;
                 }
 
@@ -792,6 +798,14 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
     Ok(sections)
 }
 
+/// Check if this can be the name of an element or attribute (the reader takes any text for a name)
+fn is_name(name: &[u8]) -> bool {
+    let is_start = |c: &u8| c.is_ascii_alphabetic() || matches!(c, b'_' | b':') || !c.is_ascii();
+    let is_part = |c: &u8| is_start(c) || c.is_ascii_digit() || matches!(c, b'-' | b'.');
+
+    name.first().is_some_and(is_start) && name.iter().all(is_part)
+}
+
 /// Check if XML contains a full envelope (AppHdr + Document) or just a Document
 pub(crate) fn has_envelope(xml: &str) -> bool {
     use quick_xml::Reader;
-- 
2.43.0


From c46e1fdad6a27fbf1b53395e429ad42430b36a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 20/25] fix: peek_message_type_from_xml took the type of the
 related message when it came first

---
 src/mx_envelope.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 5f6df4a..5ffa63f 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -827,11 +827,15 @@ pub(crate) fn has_envelope(xml: &str) -> bool {
 
 /// Extract message type from XML without full deserialization
 pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
-    // Find the first MsgDefIdr element and decode just that element
+    // Find the MsgDefIdr of the header (not the one of a related message inside the header) and
+    // decode just that element
     use quick_xml::Reader;
     use quick_xml::events::Event;
 
     let mut reader = Reader::from_str(xml);
+    // For each open element: is it AppHdr
+    let mut open: Vec<bool> = Vec::new();
+    let mut elsewhere = None;
     loop {
         match reader.read_event() {
             Ok(Event::Start(element)) if element.name().as_ref() == b"MsgDefIdr" => {
@@ -843,16 +847,23 @@ pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
                     content
                 ))
                 .map_err(|e| MxError::XmlDeserialization(format!("Invalid MsgDefIdr: {}", e)))?;
-                return Ok(normalize_message_type(&msg_def_idr));
+                if open.last() == Some(&true) {
+                    return Ok(normalize_message_type(&msg_def_idr));
+                }
+                elsewhere.get_or_insert(msg_def_idr);
+            }
+            Ok(Event::Start(element)) => open.push(element.name().as_ref() == b"AppHdr"),
+            Ok(Event::End(_)) => {
+                open.pop();
             }
             Ok(Event::Eof) | Err(_) => break,
             Ok(_) => {}
         }
     }
 
-    Err(MxError::XmlDeserialization(
-        "Could not find MsgDefIdr in XML".to_string(),
-    ))
+    elsewhere
+        .map(|msg_def_idr| normalize_message_type(&msg_def_idr))
+        .ok_or_else(|| MxError::XmlDeserialization("Could not find MsgDefIdr in XML".to_string()))
 }
 
 /// Extract message type from JSON without full deserialization
-- 
2.43.0


From 022e80294796376027beb621a0642a84cab5a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 21/25] fix: characters that XML forbids were accepted in
 payloads

---
 src/mx_envelope.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 5ffa63f..992f7ec 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -664,6 +664,10 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
     }
 
     let xml = xml.strip_prefix('\u{feff}').unwrap_or(xml).trim();
+    // References are checked where they are resolved
+    if !xml.chars().all(is_xml_char) {
+        return Err(malformed("character not allowed in XML"));
+    }
     let mut reader = Reader::from_str(xml);
     let mut sections = Sections::default();
     let mut roots: Vec<String> = Vec::new();
@@ -698,7 +702,10 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
                     if !is_name(attribute.key.as_ref()) {
                         return Err(malformed("invalid attribute name"));
                     }
-                    attribute.unescape_value().map_err(malformed)?;
+                    let value = attribute.unescape_value().map_err(malformed)?;
+                    if !value.chars().all(is_xml_char) {
+                        return Err(malformed("character not allowed in XML"));
+                    }
                 }
 
                 let name = String::from_utf8_lossy(element.name().as_ref()).into_owned();
@@ -761,7 +768,10 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
             }
             Event::Text(_) | Event::CData(_) => {
                 if let Event::Text(text) = event {
-                    text.unescape().map_err(malformed)?;
+                    let text = text.unescape().map_err(malformed)?;
+                    if !text.chars().all(is_xml_char) {
+                        return Err(malformed("character not allowed in XML"));
+                    }
                 }
                 let in_document =
                     matches!(current, Some((true, depth, _)) if open.len() == depth + 1);
@@ -798,6 +808,11 @@ pub(crate) fn split_sections(xml: &str) -> Result<Sections<'_>, MxError> {
     Ok(sections)
 }
 
+/// Check if XML can hold this character at all
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{fffd}' | '\u{10000}'..)
+}
+
 /// Check if this can be the name of an element or attribute (the reader takes any text for a name)
 fn is_name(name: &[u8]) -> bool {
     let is_start = |c: &u8| c.is_ascii_alphabetic() || matches!(c, b'_' | b':') || !c.is_ascii();
-- 
2.43.0


From 5ed45cc73cd77ce8ec37a054f182eee169383308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 22/25] fix: messages with control characters were published as
 ill-formed XML

---
 src/mx_envelope.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 992f7ec..d0e6b55 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -243,7 +243,15 @@ impl MxMessage {
         xml.push_str("</Document>");
         xml.push_str("</Envelope>");
 
-        Ok(xml)
+        if let Some(c) = xml.chars().find(|c| !is_xml_char(*c)) {
+            return Err(MxError::XmlSerialization(format!(
+                "XML cannot hold the character U+{:04X}",
+                c as u32
+            )));
+        }
+
+        // Unless it is written as a reference, readers take a carriage return for a line feed
+        Ok(xml.replace('\r', "&#13;"))
     }
 
     /// Serialize document based on its variant
-- 
2.43.0


From e7c5e881477576f81f2b292a1a91fe3d51322ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 23/25] fix: write tabs and line feeds in attributes as
 references

The currency of an amount that came as JSON can hold a tab or a line feed.
Written bare in the attribute, every XML reader takes them for spaces, so the
content was not what was sent. Refused or escaped is the choice XML gives;
they are escaped, like carriage returns are.
---
 src/mx_envelope.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index d0e6b55..7940653 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -250,8 +250,24 @@ impl MxMessage {
             )));
         }
 
-        // Unless it is written as a reference, readers take a carriage return for a line feed
-        Ok(xml.replace('\r', "&#13;"))
+        // Unless it is written as a reference, readers take a carriage return for a line feed,
+        // and in an attribute a tab or a line feed for a space
+        let mut in_tag = false;
+        let mut escaped = String::with_capacity(xml.len());
+        for c in xml.chars() {
+            match c {
+                '<' => in_tag = true,
+                '>' => in_tag = false,
+                _ => {}
+            }
+            match c {
+                '\r' => escaped.push_str("&#13;"),
+                '\t' if in_tag => escaped.push_str("&#9;"),
+                '\n' if in_tag => escaped.push_str("&#10;"),
+                c => escaped.push(c),
+            }
+        }
+        Ok(escaped)
     }
 
     /// Serialize document based on its variant
-- 
2.43.0


From 13375ee95e7f7b6fdd1bc9be6a9aa1c0b65a0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 24/25] fix: generate-common.py replaces every file completely
 or not at all

Interrupted, out of space or after a power loss it left empty or half-written
source files, and the type definitions it was moving were lost.
---
 generate-common.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/generate-common.py b/generate-common.py
index 10d4ded..e538e64 100644
--- a/generate-common.py
+++ b/generate-common.py
@@ -1,10 +1,29 @@
+import contextlib
 import os
 import re
+import shutil
 from pathlib import Path
 from collections import defaultdict
 from dataclasses import dataclass
 import argparse
 
+def write_atomically(file_path, content: str):
+    """Replace the content of a file completely or, if anything goes wrong on the way, not at all"""
+    target = os.path.realpath(file_path)
+    temporary = target + '.tmp'
+    try:
+        with open(temporary, 'w', encoding='utf-8') as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(target):
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temporary)
+        raise
+
 @dataclass
 class StructMatch:
     filename: str
@@ -160,8 +179,7 @@ use serde::{Deserialize, Serialize};
     
     new_content.append('\n')
     # Write all content at once
-    with open(output_file, 'w', encoding='utf-8') as f:
-        f.write('\n'.join(new_content))
+    write_atomically(output_file, '\n'.join(new_content))
 
 def remove_duplicates_from_files(duplicate_types: dict, file_contents: dict, dir_path: Path):
     """Remove duplicate type definitions from original files."""
@@ -192,8 +210,7 @@ def remove_duplicates_from_files(duplicate_types: dict, file_contents: dict, dir
     for filename, content in file_contents.items():
         if filename != 'mod.rs':  # Don't overwrite mod.rs
             file_path = dir_path / filename
-            with open(file_path, 'w', encoding='utf-8') as f:
-                f.write(content)
+            write_atomically(file_path, content)
 
 def print_summary(type_locations: defaultdict, lowercase_matches: list, typecount: int):
     """Print summary of type usage and lowercase types to be removed."""
-- 
2.43.0


From b53562a98be0476f41f0c4a61bc843c0fb14cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 25/25] fix: generate-common.py gives the same result after an
 interruption

Run again after it had been killed, it did not remove the definitions it had
moved to mod.rs from the remaining files, or defined them twice, and it took
the definition from whichever file the directory listed first.
---
 generate-common.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/generate-common.py b/generate-common.py
index e538e64..f9f0f72 100644
--- a/generate-common.py
+++ b/generate-common.py
@@ -75,8 +75,8 @@ def scan_rust_files(directory: str) -> tuple[defaultdict, dict, list]:
         return type_locations, file_contents, lowercase_matches
     
     # Get all .rs files except mod.rs
-    rust_files = [f for f in os.listdir(dir_path) 
-                  if f.endswith('.rs') and f != 'mod.rs']
+    rust_files = sorted(f for f in os.listdir(dir_path) 
+                        if f.endswith('.rs') and f != 'mod.rs')
     
     print(f"Found {len(rust_files)} .rs files: {', '.join(rust_files)}")
     
@@ -212,7 +212,7 @@ def remove_duplicates_from_files(duplicate_types: dict, file_contents: dict, dir
             file_path = dir_path / filename
             write_atomically(file_path, content)
 
-def print_summary(type_locations: defaultdict, lowercase_matches: list, typecount: int):
+def print_summary(type_locations: defaultdict, lowercase_matches: list, typecount: int, moved_types: set):
     """Print summary of type usage and lowercase types to be removed."""
     # Print lowercase types that will be removed
     if lowercase_matches:
@@ -258,7 +258,8 @@ def print_summary(type_locations: defaultdict, lowercase_matches: list, typecoun
     frequent_types = {
         name: matches 
         for name, matches in type_locations.items() 
-        if name not in root_structs and len(matches) > 1  # Only move types that appear in multiple files
+        if (name not in root_structs and len(matches) > 1)  # Only move types that appear in multiple files
+        or name in moved_types  # What an interrupted run has moved to mod.rs is still to be removed
     }
     
     if not frequent_types:
@@ -293,7 +294,7 @@ def read_existing_mod(output_file: str) -> tuple[set, str]:
             content = f.read()
         
         # Compile pattern once
-        existing_structs = set(re.findall(r'// (\w+) \.\.\.\n', content))
+        existing_structs = set(re.findall(r'// (\w+)(?: \.\.\.\n|: [^\n]*\n(?://[^\n]*\n)*#\[derive)', content))
         return existing_structs, content
     except FileNotFoundError:
         return set(), ""
@@ -319,7 +320,8 @@ def main():
         type_locations, file_contents, lowercase_matches = scan_rust_files(args.directory)
         
         # Print summary and get frequent types
-        frequent_types = print_summary(type_locations, lowercase_matches, int(args.typecount))
+        moved_types, _ = read_existing_mod(Path(args.directory) / 'mod.rs')
+        frequent_types = print_summary(type_locations, lowercase_matches, int(args.typecount), moved_types)
         
         if frequent_types or lowercase_matches:
             output_path = Path(args.directory) / 'mod.rs'
-- 
2.43.0

