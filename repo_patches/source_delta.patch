From f9d948199c0f30cb67fd69b820ce246cd9711f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 01/32] fix: keep white space, CDATA and split text when
 parsing XML, unescape attribute values, accept an empty root and reject
 truncated documents

---
 rs/src/files/xml/xml_deserialize.rs | 12 +++-
 rs/src/files/xml/xml_serialize.rs   | 85 ++++++++++++++++++++++++-----
 2 files changed, 81 insertions(+), 16 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 3b6c24a..f5fcb96 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -51,7 +51,7 @@ impl XmlDeSerializer {
                 master_string.push_str(Self::generate_xml_element(xml_root, true, true).as_str());
             } else {
                 master_string.push_str(Self::generate_xml_element(xml_root, false, true).as_str());
-                if let Some(value) = xml_root.get_value() {
+                if let Some(value) = Self::get_text(xml_root) {
                     master_string.push_str(&Self::generate_xml_value_close(value, xml_root));
                 } else {
                     let mut parent_id = 0;
@@ -75,7 +75,7 @@ impl XmlDeSerializer {
                                             Self::generate_xml_element(element, false, false)
                                                 .as_str(),
                                         );
-                                        if let Some(value) = element.get_value() {
+                                        if let Some(value) = Self::get_text(element) {
                                             master_string.push_str(
                                                 &Self::generate_xml_value_close(value, element),
                                             );
@@ -112,6 +112,14 @@ impl XmlDeSerializer {
         Ok(())
     }
 
+    /// White space between child elements is formatting and not a value
+    fn get_text(xml_element: &XmlElement) -> Option<&String> {
+        xml_element
+            .get_value()
+            .as_ref()
+            .filter(|value| xml_element.get_child_count() == 0 || !value.trim().is_empty())
+    }
+
     fn generate_xml_element(xml_element: &XmlElement, close: bool, root_element: bool) -> String {
         let mut element_tag = format!("<{}", xml_element.get_tag());
         if root_element {
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index d3c8ede..5286f0c 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -1,6 +1,7 @@
 use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
+use quick_xml::escape::unescape;
 use quick_xml::events::BytesStart;
 use quick_xml::{
     events::{
@@ -20,7 +21,6 @@ impl XmlSerializer {
     ) -> AnyResult<XmlDocument, AnyError> {
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
-        reader.config_mut().trim_text(true);
         log_elapsed!(
             || {
                 Self::xml_element_parser(&mut reader, &mut xml_document)
@@ -37,6 +37,7 @@ impl XmlSerializer {
     ) -> AnyResult<(), AnyError> {
         let mut temp_buffer: Vec<u8> = Vec::new();
         let mut root_loaded = false;
+        let mut root_closed = false;
         let mut active_xml_element_id: usize = 0;
         loop {
             match reader.read_event_into(&mut temp_buffer) {
@@ -46,6 +47,9 @@ impl XmlSerializer {
                 Result::Ok(Event::Decl(_)) => {}
                 // Read start tag and attributes
                 Result::Ok(Event::Start(element)) => {
+                    if root_closed {
+                        break Err(anyhow!("Element found after the root element."));
+                    }
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
@@ -75,21 +79,44 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
-                    xml_document
-                        .append_child_mut(&tag, Some(&active_xml_element_id))
-                        .context("Insert XML Child Failed.")?
-                        .set_attribute_mut(attributes)
-                        .context("Parser Attribute Validation Failed")?;
+                    if root_closed {
+                        break Err(anyhow!("Element found after the root element."));
+                    }
+                    if root_loaded {
+                        xml_document
+                            .append_child_mut(&tag, Some(&active_xml_element_id))
+                            .context("Insert XML Child Failed.")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                    } else {
+                        xml_document
+                            .create_root_mut(&tag)
+                            .context("Create XML Root Element Failed")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                        root_loaded = true;
+                        root_closed = true;
+                    }
                 }
 
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
-                    let text = byte_text.unescape().context("XML Text parsing error")?;
-                    xml_document
-                        .get_element_mut(&active_xml_element_id)
-                        .ok_or(anyhow!("Converting Option to Result Failed"))
-                        .context("Getting Target Element Failed")?
-                        .set_value_mut(text.to_string());
+                    let raw = Self::normalize_line_end(&byte_text)?;
+                    let text = unescape(&raw).context("XML Text parsing error")?;
+                    if root_loaded && !root_closed {
+                        Self::append_text(xml_document, &active_xml_element_id, &text)?;
+                    } else if !text.trim().is_empty() {
+                        break Err(anyhow!("Text found outside the root element."));
+                    }
+                }
+
+                // Read CDATA content
+                Result::Ok(Event::CData(byte_text)) => {
+                    if !root_loaded || root_closed {
+                        break Err(anyhow!("Text found outside the root element."));
+                    }
+                    let text = Self::normalize_line_end(&byte_text)?;
+                    Self::append_text(xml_document, &active_xml_element_id, &text)?;
                 }
 
                 // Handle end tag
@@ -102,6 +129,7 @@ impl XmlSerializer {
                         .ok_or(anyhow!("Converting Option to Result Failed"))
                         .context("Getting Target Element Failed")?;
                     if element.get_tag() == tag {
+                        root_closed = active_xml_element_id == 0;
                         active_xml_element_id = element.get_parent_id()
                     } else {
                         break Err(anyhow!("Invalid XML Tree Parsing Failed."));
@@ -109,7 +137,12 @@ impl XmlSerializer {
                 }
 
                 // End of file
-                Result::Ok(Event::Eof) => break Ok(()),
+                Result::Ok(Event::Eof) => {
+                    if root_closed {
+                        break Ok(());
+                    }
+                    break Err(anyhow!("XML content ended before the root element closed."));
+                }
 
                 // Default case for other events
                 _ => {}
@@ -125,9 +158,33 @@ impl XmlSerializer {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
                 let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = String::from_utf8_lossy(&attribute.value).to_string();
+                let raw = Self::normalize_line_end(&attribute.value)?.replace(['\t', '\n'], " ");
+                let value: String = unescape(&raw)
+                    .context("XML Attribute parsing error")?
+                    .to_string();
                 Ok((key, value))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
     }
+
+    fn append_text(
+        xml_document: &mut XmlDocument,
+        element_id: &usize,
+        text: &str,
+    ) -> AnyResult<(), AnyError> {
+        let element = xml_document
+            .get_element_mut(element_id)
+            .ok_or(anyhow!("Converting Option to Result Failed"))
+            .context("Getting Target Element Failed")?;
+        let mut value = element.get_value().clone().unwrap_or_default();
+        value.push_str(text);
+        element.set_value_mut(value);
+        Ok(())
+    }
+
+    /// Line ends reach the application as a single new line character
+    fn normalize_line_end(raw: &[u8]) -> AnyResult<String, AnyError> {
+        let text = std::str::from_utf8(raw).context("XML content is not valid UTF-8")?;
+        Ok(text.replace("\r\n", "\n").replace('\r', "\n"))
+    }
 }
-- 
2.43.0


From b5deb8065c6e0d77130dd69dd3ee1fa1a7557a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 02/32] fix: escape namespace names and white space in
 attribute values when writing XML

---
 rs/src/files/xml/xml_deserialize.rs | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index f5fcb96..537f4cd 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -139,9 +139,13 @@ impl XmlDeSerializer {
                             .iter()
                             .map(|(key, value)| {
                                 if key == "<Default>" {
-                                    format!("xmlns=\"{}\"", value)
+                                    format!("xmlns=\"{}\"", Self::escape_attribute(value))
                                 } else {
-                                    format!("xmlns:{}=\"{}\"", key, value)
+                                    format!(
+                                        "xmlns:{}=\"{}\"",
+                                        key,
+                                        Self::escape_attribute(value)
+                                    )
                                 }
                             })
                             .collect::<Vec<String>>()
@@ -158,7 +162,13 @@ impl XmlDeSerializer {
                 format!(
                     " {}",
                     keys.iter()
-                        .map(|key| format!("{}=\"{}\"", key, escape(attributes.get(key).unwrap())))
+                        .map(|key| {
+                            format!(
+                                "{}=\"{}\"",
+                                key,
+                                Self::escape_attribute(attributes.get(key).unwrap())
+                            )
+                        })
                         .collect::<Vec<String>>()
                         .join(" ")
                 )
@@ -174,6 +184,18 @@ impl XmlDeSerializer {
     }
 
     fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
-        format!("{}</{}>", escape(value), xml_element.get_tag())
+        format!(
+            "{}</{}>",
+            escape(value).replace('\r', "&#13;"),
+            xml_element.get_tag()
+        )
+    }
+
+    /// White space other than a blank survives attribute parsing only as character reference
+    fn escape_attribute(value: &str) -> String {
+        escape(value)
+            .replace('\t', "&#9;")
+            .replace('\n', "&#10;")
+            .replace('\r', "&#13;")
     }
 }
-- 
2.43.0


From 603328b1c6cc2ccd9cb0bd832d062a929f85c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 03/32] fix: keep namespace declarations of inner XML elements
 on their element

---
 rs/src/files/xml/xml_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c23d203..3852417 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -495,7 +495,8 @@ impl XmlElement {
         let ns_keys = keys
             .iter()
             .map(|item| item.to_string())
-            .filter(|item| item.starts_with("xmlns"))
+            // Declarations of inner elements stay with their element to keep the scope
+            .filter(|item| self.id == 0 && (item == "xmlns" || item.starts_with("xmlns:")))
             .clone()
             .collect::<Vec<String>>();
         if !ns_keys.is_empty() {
-- 
2.43.0


From 2f0628870da6bedd0a3943578e120c4cba45312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 04/32] fix: deleting a document also drops its open XML tree
 so it does not return on save

---
 rs/src/files/office_document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 85c2dbb..c3a6d0e 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -53,6 +53,7 @@ impl OfficeDocument {
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
+        self.xml_document_collection.remove(file_name);
         self.archive_collection.remove(file_name);
     }
 
-- 
2.43.0


From 9b2f52f32adfa100435b136c3797a06424a0cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 05/32] fix: keep the stored content of a part while its XML
 tree is open

---
 rs/src/files/office_document.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index c3a6d0e..b9654b1 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -90,12 +90,15 @@ impl OfficeDocument {
                 "Please close the Existing object before creating new handle"
             ));
         }
+        // The stored content stays until the open object is closed, it is lost otherwise on failure
         if let Some((file_extension, extension_type, content_type, _, _, _, file_content)) =
-            self.archive_collection.remove(file_path)
+            self.archive_collection.get(file_path)
         {
-            let content = file_content.ok_or(anyhow!("Failed To Get content vec"))?;
+            let content = file_content
+                .as_ref()
+                .ok_or(anyhow!("Failed To Get content vec"))?;
             let decompressed_data =
-                decompress_content(&content).context("Raw Content Decompression Failed")?;
+                decompress_content(content).context("Raw Content Decompression Failed")?;
             let xml_tree: XmlDocument =
                 XmlSerializer::vec_to_xml_doc_tree(decompressed_data, file_path)
                     .context("Xml Serializer Failed")?;
-- 
2.43.0


From 4b7ba954a6c648ecbbb8edf5aeb2152a0952cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 06/32] fix: a failed or interrupted save no longer destroys
 the existing target file

---
 rs/src/files/office_document.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index b9654b1..bc85069 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,10 +7,11 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::{HashMap, HashSet},
-    fs::{metadata, remove_file, File},
+    fs::{remove_file, rename, File, OpenOptions},
     io::{Cursor, Read, Write},
     rc::{Rc, Weak},
 };
+use uuid::Uuid;
 use zip::{write::SimpleFileOptions, ZipArchive, ZipWriter};
 
 #[derive(Debug)]
@@ -168,12 +169,28 @@ impl OfficeDocument {
         let file_content: Vec<u8> = self
             .save_database_into_archive()
             .context("Save Archive Data into Database")?;
-        if metadata(file_path).is_ok() {
-            remove_file(file_path).map_err(|e| anyhow!("Remove Save File Target Failed. {}", e))?;
+        Self::replace_file(file_path, &file_content)
+    }
+
+    /// Put the content in a new file next to the target and replace the target in a single step
+    fn replace_file(file_path: &str, file_content: &[u8]) -> AnyResult<(), AnyError> {
+        let temp_path = format!("{}.{}.tmp", file_path, Uuid::new_v4());
+        let mut file = OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_path)
+            .context("Create Save File Failed")?;
+        let result = file
+            .write_all(file_content)
+            .and_then(|_| file.sync_all())
+            .context("Save File Write Failed");
+        drop(file);
+        let result = result
+            .and_then(|_| rename(&temp_path, file_path).context("Replace Save File Target Failed"));
+        if result.is_err() {
+            let _ = remove_file(&temp_path);
         }
-        let mut file = File::create(file_path).context("Create Save File Failed")?;
-        file.write_all(&file_content)
-            .context("Save File Write Failed")
+        result
     }
 
     /// Save the database content into file archive
-- 
2.43.0


From 3ec5103d6bb6436923b5f3f9e09512f275be7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 07/32] fix: write one content type default per extension, none
 for parts without extension, and refuse an override without type

---
 rs/src/files/office_document.rs               | 32 ++++++++++++-------
 .../global/global_2007/parts/content_types.rs |  5 ++-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index bc85069..6fb71a0 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -6,7 +6,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     fs::{remove_file, rename, File, OpenOptions},
     io::{Cursor, Read, Write},
     rc::{Rc, Weak},
@@ -195,27 +195,37 @@ impl OfficeDocument {
 
     /// Save the database content into file archive
     fn save_database_into_archive(&self) -> AnyResult<Vec<u8>, AnyError> {
-        let mut extensions: Vec<(String, String)> = Vec::new();
+        let mut extensions: HashMap<String, String> = HashMap::new();
         let mut overrides: Vec<(String, String)> = Vec::new();
         let mut buffer = Cursor::new(Vec::new());
         let mut zip_writer: ZipWriter<&mut Cursor<Vec<u8>>> = ZipWriter::new(&mut buffer);
         let zip_option = SimpleFileOptions::default().compression_level(Some(4));
         // Load Files into Archive and add Override for content types
         {
+            let mut archive_files = self.archive_collection.to_owned().into_iter().collect::<Vec<_>>();
+            archive_files.sort_by(|left, right| left.0.cmp(&right.0));
             for (
                 file_name,
                 (
                     file_extension,
                     extension_type,
-                    content_type,
+                    mut content_type,
                     compress_size,
                     uncompress_size,
                     compression_level,
                     file_content,
                 ),
-            ) in self.archive_collection.to_owned()
+            ) in archive_files
             {
-                extensions.push((file_extension, extension_type));
+                // One default per extension, a part with another type gets an override
+                if !extension_type.is_empty() {
+                    let default_type = extensions
+                        .entry(file_extension.to_lowercase())
+                        .or_insert_with(|| extension_type.clone());
+                    if content_type.is_none() && *default_type != extension_type {
+                        content_type = Some(extension_type);
+                    }
+                }
                 if let Some(content_type) = content_type {
                     overrides.push((format!("/{}", file_name), content_type));
                 }
@@ -236,11 +246,7 @@ impl OfficeDocument {
             .start_file("[Content_Types].xml", zip_option)
             .context("Zip File Write Start Fail")?;
         let content_type_file = ContentTypesPart::create_xml_file(
-            extensions
-                .into_iter()
-                .collect::<HashSet<_>>()
-                .into_iter()
-                .collect::<Vec<_>>(),
+            extensions.into_iter().collect::<Vec<_>>(),
             overrides,
         )
         .context("Creating Content Type XML Failed")?;
@@ -281,7 +287,7 @@ impl OfficeDocument {
             .context("Failed to uncompress [Content_Types].xml")?;
         let file_names = zip_read
             .file_names()
-            .filter(|name| "[Content_Types].xml" != *name)
+            .filter(|name| "[Content_Types].xml" != *name && !name.ends_with('/'))
             .map(|item| item.to_string())
             .collect::<Vec<_>>();
         let mut content_types_part =
@@ -297,7 +303,9 @@ impl OfficeDocument {
             let f_extension = file_name.rsplit(".").next();
             if let Some(f_extension) = f_extension {
                 if let Some(extensions) = extension_collection.clone() {
-                    let item = extensions.iter().find(|item| item.0 == f_extension);
+                    let item = extensions
+                        .iter()
+                        .find(|item| item.0.eq_ignore_ascii_case(f_extension));
                     if let Some(extension) = item {
                         file_extension = extension.0.to_string();
                         extension_type = extension.1.to_string();
diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 707cb4a..3d4af61 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -55,7 +55,10 @@ impl ContentTypesPart {
             if let Some(id) = find_ids.pop() {
                 if let Some(element) = self.xml_document.pop_element_mut(&id) {
                     if let Some(attributes) = element.get_attribute() {
-                        let res = attributes.get("ContentType").unwrap().to_string();
+                        let res = attributes
+                            .get("ContentType")
+                            .ok_or(anyhow!("content type override attribute missing"))?
+                            .to_string();
                         return Ok(Some(res));
                     }
                 }
-- 
2.43.0


From 34c61458a36d89f5c7004f5a7daa0dbf78e56ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 08/32] fix: resolve relationship targets the same way
 everywhere, so that relative targets are found and deleted

---
 rs/src/global/global_2007/parts/relations.rs | 68 ++++++++++++--------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index dfc4258..8673da9 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -129,7 +129,7 @@ impl RelationsPart {
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .find("_rels")
+            .rfind("_rels")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
@@ -138,6 +138,31 @@ impl RelationsPart {
         }
     }
 
+    /// Part name a target leads to
+    fn resolve_target(&self, target: &str) -> AnyResult<String, AnyError> {
+        let path = if target.starts_with("/") {
+            target.to_string()
+        } else {
+            format!(
+                "{}{}",
+                self.get_relative_path()
+                    .context("Get Relative Path for Part File")?,
+                target
+            )
+        };
+        let mut segments: Vec<&str> = Vec::new();
+        for segment in path.split('/') {
+            match segment {
+                "" | "." => {}
+                ".." => {
+                    segments.pop();
+                }
+                _ => segments.push(segment),
+            }
+        }
+        Ok(segments.join("/"))
+    }
+
     pub(crate) fn get_target_by_id(
         &self,
         relationship_id: &str,
@@ -147,15 +172,7 @@ impl RelationsPart {
             .iter()
             .find(|item| item.0 == relationship_id)
         {
-            let file_path = record.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(Some(file_path.strip_prefix("/").unwrap().to_string()))
-            } else {
-                Ok(Some(format!("{}{}", relative_path, file_path)))
-            }
+            Ok(Some(self.resolve_target(&record.1)?))
         } else {
             Ok(None)
         }
@@ -175,15 +192,7 @@ impl RelationsPart {
             .iter()
             .find(|item| item.2 == content_type)
         {
-            let file_path = relationship.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(file_path.strip_prefix("/").unwrap().to_string())
-            } else {
-                Ok(format!("{}{}", relative_path, file_path))
-            }
+            self.resolve_target(&relationship.1)
         } else {
             self.set_new_relationship_mut(content, file_path.clone(), file_name.clone())
                 .context("Setting New Theme Relationship Failed.")?;
@@ -272,13 +281,18 @@ impl RelationsPart {
 
     /// Delete the target file path
     pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) {
-        self.relationships.retain(|item| {
-            item.1
-                != if file_path.starts_with("/") {
-                    file_path.to_string()
-                } else {
-                    format!("/{}", file_path)
-                }
-        })
+        let file_path = file_path.strip_prefix("/").unwrap_or(file_path);
+        let keep = self
+            .relationships
+            .iter()
+            .map(|item| {
+                item.3.as_deref() == Some("External")
+                    || self
+                        .resolve_target(&item.1)
+                        .map_or(true, |target| target != file_path)
+            })
+            .collect::<Vec<bool>>();
+        let mut keep = keep.into_iter();
+        self.relationships.retain(|_| keep.next().unwrap_or(true));
     }
 }
-- 
2.43.0


From ffcd22e83bad6b6f040f80cea269413cd81d517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 09/32] fix: a part that is open counts as existing when a new
 part name is chosen

---
 rs/src/files/office_document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 6fb71a0..722c450 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -51,6 +51,7 @@ impl OfficeDocument {
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
         self.archive_collection.contains_key(&file_path)
+            || self.xml_document_collection.contains_key(&file_path)
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
-- 
2.43.0


From ee7daca3fd5cdea21c6c15861a7e0c5ace1307b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 10/32] fix: refuse to save while a worksheet handle is out
 instead of losing the sheet content

---
 rs/src/files/office_document.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 722c450..31c08ff 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -157,15 +157,12 @@ impl OfficeDocument {
 
     /// Save Current Document to final result
     pub(crate) fn save_as(&mut self, file_path: &str) -> AnyResult<(), AnyError> {
-        // Save the live content update object to database
-        let keys = self
-            .xml_document_collection
-            .keys()
-            .cloned()
-            .collect::<Vec<String>>();
-        for key_file_path in keys {
-            self.close_xml_document(&key_file_path)
-                .context(" Saving open object content failed")?;
+        // The content of an open part is with its handle, saving now would lose it
+        if let Some(file_path) = self.xml_document_collection.keys().min() {
+            return Err(anyhow!(
+                "Please close the open object before saving : {}",
+                file_path
+            ));
         }
         let file_content: Vec<u8> = self
             .save_database_into_archive()
-- 
2.43.0


From f5c8a0101b50195dd7078078be3230b9283c46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 11/32] fix: a worksheet that fails to open no longer replaces
 the stored part by the half read one

---
 rs/src/files/office_document.rs                        | 5 +++++
 rs/src/global/global_2007/parts/relations.rs           | 5 +++--
 rs/src/global/global_2007/traits/xml_parts.rs          | 8 ++++++++
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 4 +++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 31c08ff..e6bad82 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -115,6 +115,11 @@ impl OfficeDocument {
         }
     }
 
+    /// Drop the open XML tree, the stored content stays as it is
+    pub(crate) fn discard_xml_document(&mut self, file_path: &str) {
+        self.xml_document_collection.remove(file_path);
+    }
+
     /// Update the XML tree data to database and close the refCell
     pub(crate) fn close_xml_document(&mut self, file_path: &str) -> AnyResult<(), AnyError> {
         if let Some((xml_document, content_type, file_extension, extension_type)) =
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 8673da9..86e8c55 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -77,8 +77,9 @@ impl RelationsPart {
         file_name: &str,
     ) -> AnyResult<Self, AnyError> {
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let relationships =
-            Self::load_relations(&mut xml_document).context("Failed to decode Relations")?;
+        let relationships = Self::load_relations(&mut xml_document)
+            .inspect_err(|_| Self::discard_xml_document(&office_document, file_name))
+            .context("Failed to decode Relations")?;
         Ok(Self {
             office_document,
             xml_document,
diff --git a/rs/src/global/global_2007/traits/xml_parts.rs b/rs/src/global/global_2007/traits/xml_parts.rs
index 5441f37..9cb3cdc 100644
--- a/rs/src/global/global_2007/traits/xml_parts.rs
+++ b/rs/src/global/global_2007/traits/xml_parts.rs
@@ -49,6 +49,14 @@ pub(crate) trait XmlDocumentPartCommon {
                 xml_document,
             )
     }
+    /// Forget the open xml after a failure, what is stored stays untouched
+    fn discard_xml_document(office_document: &Weak<RefCell<OfficeDocument>>, file_name: &str) {
+        if let Some(office_document) = office_document.upgrade() {
+            if let Ok(mut office_doc_mut) = office_document.try_borrow_mut() {
+                office_doc_mut.discard_xml_document(file_name);
+            }
+        }
+    }
     /// Initialize the content if not already exist . // File Content , Content Type, File Extension, Extension Type
     fn initialize_content_xml() -> AnyResult<(XmlDocument, Option<String>, String, String), AnyError>;
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0836483..7ca5e1c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -236,12 +236,14 @@ impl WorkSheet {
                     file_path.rsplit("/").next().unwrap()
                 ),
             )
+            .inspect_err(|_| Self::discard_xml_document(&office_document, &file_path))
             .context("Creating Relation ship part for workbook failed.")?,
         ));
         let (column_collection, sheet_data, sheet_views, dimension) = log_elapsed!(
             || { Self::initialize_worksheet(&xml_document).context("Failed to open Worksheet") },
             "Worksheet Initialize Time"
-        )?;
+        )
+        .inspect_err(|_| Self::discard_xml_document(&office_document, &file_path))?;
         Ok(Self {
             office_document,
             xml_document,
-- 
2.43.0


From f5997125a4ae49ebdb3c56bbf9e0db8f7823d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 12/32] fix: keep the style records of an opened file as they
 are, append new ones, and give number formats and fills that resolve to what
 was requested

---
 rs/src/files/xml/xml_tree.rs                  |   14 +
 rs/src/global/references/order_dictionary.rs  |    5 +
 .../spreadsheet_2007/models/style.rs          |   26 +-
 .../spreadsheet_2007/services/style.rs        | 1470 ++++++-----------
 4 files changed, 553 insertions(+), 962 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 3852417..bc1aa8b 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -85,6 +85,20 @@ impl XmlDocument {
         None
     }
 
+    /// Child element ID's in their order
+    pub(crate) fn get_child_ids(&self, element_id: &usize) -> Vec<usize> {
+        if let Some(element) = self.xml_element_collection.get(element_id) {
+            element
+                .children
+                .borrow()
+                .iter()
+                .map(|item| item.id)
+                .collect::<Vec<usize>>()
+        } else {
+            Vec::new()
+        }
+    }
+
     pub(crate) fn get_element(&self, element_id: &usize) -> Option<&XmlElement> {
         self.xml_element_collection.get(element_id)
     }
diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 366d6b6..0187d1e 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -23,4 +23,9 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
         "oleObjects","controls","webPublishItems",
         "tableParts","extLst",
     ],
+    "styleSheet"=>&[
+        "numFmts", "fonts", "fills", "borders", "cellStyleXfs",
+        "cellXfs", "cellStyles", "dxfs", "tableStyles", "colors",
+        "extLst",
+    ],
 };
diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index b566931..e6a529d 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -367,22 +367,6 @@ impl Enum<VerticalAlignmentValues> for VerticalAlignmentValues {
     }
 }
 
-#[derive(Debug, Hash)]
-pub(crate) struct NumberFormat {
-    pub(crate) format_id: usize,
-    pub(crate) format_type: NumberFormatValues,
-    pub(crate) format_code: String,
-}
-
-impl Default for NumberFormat {
-    fn default() -> Self {
-        Self {
-            format_id: 0,
-            format_type: NumberFormatValues::General,
-            format_code: NumberFormatValues::get_string(NumberFormatValues::General),
-        }
-    }
-}
 #[derive(Debug, Clone, Hash, Deserialize, Serialize)]
 pub(crate) struct FontStyle {
     pub(crate) name: String,
@@ -416,11 +400,11 @@ impl Default for FontStyle {
 }
 #[derive(Debug, Clone, Hash, Deserialize, Serialize)]
 pub(crate) struct CellXfs {
-    pub(crate) format_id: u16,
-    pub(crate) number_format_id: u16,
-    pub(crate) font_id: u16,
-    pub(crate) fill_id: u16,
-    pub(crate) border_id: u16,
+    pub(crate) format_id: usize,
+    pub(crate) number_format_id: usize,
+    pub(crate) font_id: usize,
+    pub(crate) fill_id: usize,
+    pub(crate) border_id: usize,
     pub(crate) apply_font: u8,
     pub(crate) apply_alignment: u8,
     pub(crate) apply_fill: u8,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index c6c63ae..38bd5b2 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1,22 +1,23 @@
 use crate::{
-    converters::ConverterUtil,
     element_dictionary::EXCEL_TYPE_COLLECTION,
-    files::{OfficeDocument, XmlDocument, XmlElement, XmlSerializer},
+    files::{OfficeDocument, XmlDocument, XmlSerializer},
     global_2007::{
         parts::RelationsPart,
         traits::{Enum, XmlDocumentPart, XmlDocumentPartCommon},
     },
     log_elapsed,
+    order_dictionary::EXCEL_ORDER_COLLECTION,
     spreadsheet_2007::models::{
         BorderSetting, BorderStyle, BorderStyleValues, CellXfs, ColorSetting,
         ColorSettingTypeValues, FillStyle, FontSchemeValues, FontStyle, HorizontalAlignmentValues,
-        NumberFormat, NumberFormatValues, PatternTypeValues, StyleId, StyleSetting,
+        NumberFormatValues, PatternTypeValues, StyleId, StyleSetting,
         VerticalAlignmentValues,
     },
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
+    cmp::max,
     collections::{HashMap, VecDeque},
     hash::{DefaultHasher, Hash, Hasher},
     rc::Weak,
@@ -30,12 +31,14 @@ pub struct StylePart {
     cache_id: HashMap<u64, u32>,
     cache_order: VecDeque<u64>,
     cache_capacity: u8,
-    number_format_collection: Vec<(u64, NumberFormat)>,
-    font_collection: Vec<(u64, FontStyle)>,
-    fill_collection: Vec<(u64, FillStyle)>,
-    border_collection: Vec<(u64, BorderStyle)>,
-    cell_style_xfs_collection: Vec<(u64, CellXfs)>,
-    cell_xfs_collection: Vec<(u64, CellXfs)>,
+    /// Number format ID and format code, new formats are not yet part of the XML tree
+    number_format_collection: Vec<(usize, String, bool)>,
+    /// XML content of each record, along with the setting if it is not yet part of the XML tree
+    font_collection: Vec<(String, Option<FontStyle>)>,
+    fill_collection: Vec<(String, Option<FillStyle>)>,
+    border_collection: Vec<(String, Option<BorderStyle>)>,
+    cell_style_xfs_collection: Vec<(String, Option<CellXfs>)>,
+    cell_xfs_collection: Vec<(String, Option<CellXfs>)>,
 }
 
 impl Drop for StylePart {
@@ -101,29 +104,25 @@ impl XmlDocumentPart for StylePart {
         let file_name = Self::get_style_file_name(&parent_relationship_part)
             .context("Failed to pull style file name")?
             .to_string();
-        let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let (
-            number_format_collection,
-            font_collection,
-            fill_collection,
-            border_collection,
-            cell_style_collection,
-            cell_collection,
-        ) = Self::load_content(&mut xml_document).context("Load Share String To DB Failed")?;
-        Ok(Self {
+        let xml_document = Self::get_xml_document(&office_document, &file_name)?;
+        let mut style_part = Self {
             office_document,
             xml_document,
             file_path: file_name,
             cache_id: HashMap::new(),
             cache_order: VecDeque::new(),
             cache_capacity: 25,
-            number_format_collection,
-            font_collection,
-            fill_collection,
-            border_collection,
-            cell_style_xfs_collection: cell_style_collection,
-            cell_xfs_collection: cell_collection,
-        })
+            number_format_collection: Vec::new(),
+            font_collection: Vec::new(),
+            fill_collection: Vec::new(),
+            border_collection: Vec::new(),
+            cell_style_xfs_collection: Vec::new(),
+            cell_xfs_collection: Vec::new(),
+        };
+        style_part
+            .load_content()
+            .context("Load Style To DB Failed")?;
+        Ok(style_part)
     }
 }
 
@@ -149,401 +148,158 @@ impl StylePart {
         }
     }
 
-    /// Load existing file style to database
-    fn load_content(
-        xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<
-        (
-            Vec<(u64, NumberFormat)>,
-            Vec<(u64, FontStyle)>,
-            Vec<(u64, FillStyle)>,
-            Vec<(u64, BorderStyle)>,
-            Vec<(u64, CellXfs)>,
-            Vec<(u64, CellXfs)>,
-        ),
-        AnyError,
-    > {
-        let mut num_format_records = Vec::new();
-        let mut font_records = Vec::new();
-        let mut fill_records = Vec::new();
-        let mut border_records = Vec::new();
-        let mut style_collection = Vec::new();
-        let mut xfs_collection = Vec::new();
-        if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
+    /// Load existing file style to database, the records itself stay in the XML tree
+    fn load_content(&mut self) -> AnyResult<(), AnyError> {
+        if let Some(xml_document) = self.xml_document.upgrade() {
+            let xml_doc = xml_document
+                .try_borrow()
                 .context("xml doc borrow failed")?;
-            // Load Number Format Region
-            if let Some(mut number_formats_vec) =
-                xml_doc_mut.pop_elements_by_tag_mut("numFmts", None)
-            {
-                if let Some(number_formats) = number_formats_vec.pop() {
-                    // Load Number Format from File if exist
-                    loop {
-                        if let Some((element_id, _)) = number_formats.pop_child_mut() {
-                            let num_fmt = xml_doc_mut
-                                .pop_element_mut(&element_id)
-                                .ok_or(anyhow!("Element not Found Error"))?;
-                            if let Some(attributes) = num_fmt.get_attribute() {
-                                let mut number_format = NumberFormat::default();
-                                number_format.format_id = attributes
-                                    .get("numFmtId")
-                                    .ok_or(anyhow!("numFmtId Attribute Not Found!"))?
-                                    .parse()
-                                    .context("Number format ID parsing Failed")?;
-                                number_format.format_code = attributes
-                                    .get("formatCode")
-                                    .ok_or(anyhow!("formatCode Attribute Not Found!"))?
-                                    .to_string();
-                                let mut hasher = DefaultHasher::new();
-                                number_format.hash(&mut hasher);
-                                num_format_records.push((hasher.finish(), number_format));
-                            }
-                        } else {
-                            break;
-                        }
-                    }
-                }
-            }
-            if let Some(mut fonts_vec) = xml_doc_mut.pop_elements_by_tag_mut("fonts", None) {
-                if let Some(fonts) = fonts_vec.pop() {
-                    // fonts
-                    loop {
-                        // Loop every font element
-                        if let Some((font_id, _)) = fonts.pop_child_mut() {
-                            // font
-                            let font = xml_doc_mut
-                                .pop_element_mut(&font_id)
-                                .ok_or(anyhow!("Element not Found Error"))?;
-                            let mut font_style = FontStyle::default();
-                            loop {
-                                if let Some((item_id, _)) = font.pop_child_mut() {
-                                    let current_element = xml_doc_mut
-                                        .pop_element_mut(&item_id)
-                                        .ok_or(anyhow!("Failed to pull child element"))?;
-                                    match current_element.get_tag() {
-                                        "b" => font_style.is_bold = true,
-                                        "u" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(double) = attributes.get("val") {
-                                                    if double == "double" {
-                                                        font_style.is_double_underline = true;
-                                                    }
-                                                }
-                                            }
-                                            font_style.is_underline = false;
-                                        }
-                                        "i" => font_style.is_italic = false,
-                                        "sz" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.size = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
-                                                }
-                                            }
-                                        }
-                                        "color" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(theme) = attributes.get("theme") {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Theme;
-                                                    font_style.color.value = theme
-                                                        .parse()
-                                                        .context("Font color theme parse failed")?
-                                                } else if let Some(rgb) = attributes.get("rgb") {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Rgb;
-                                                    let rgb_string = rgb.to_string();
-                                                    font_style.color.value = rgb_string;
-                                                } else if let Some(indexed) =
-                                                    attributes.get("indexed")
-                                                {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Indexed;
-                                                    let indexed_string = indexed.to_string();
-                                                    font_style.color.value = indexed_string;
-                                                }
-                                            }
-                                        }
-                                        "name" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.name = val.to_string()
-                                                }
-                                            }
-                                        }
-                                        "family" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.family = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
-                                                }
-                                            }
-                                        }
-                                        "scheme" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.font_scheme =
-                                                        FontSchemeValues::get_enum(val)
-                                                }
-                                            }
-                                        }
-                                        _ => {
-                                            return Err(anyhow!("Unknown Font Style Found!"));
-                                        }
-                                    }
-                                } else {
-                                    break;
-                                }
-                            }
-                            let mut hasher = DefaultHasher::new();
-                            font_style.hash(&mut hasher);
-                            font_records.push((hasher.finish(), font_style));
-                        } else {
-                            break;
-                        }
-                    }
-                }
+            for num_fmt_id in Self::get_record_ids(&xml_doc, "numFmts")? {
+                let attributes = xml_doc
+                    .get_element(&num_fmt_id)
+                    .and_then(|element| element.get_attribute())
+                    .ok_or(anyhow!("Number format attributes Not Found!"))?;
+                self.number_format_collection.push((
+                    attributes
+                        .get("numFmtId")
+                        .ok_or(anyhow!("numFmtId Attribute Not Found!"))?
+                        .parse()
+                        .context("Number format ID parsing Failed")?,
+                    attributes
+                        .get("formatCode")
+                        .ok_or(anyhow!("formatCode Attribute Not Found!"))?
+                        .to_string(),
+                    false,
+                ));
             }
-            if let Some(mut fills_vec) = xml_doc_mut.pop_elements_by_tag_mut("fills", None) {
-                if let Some(fills) = fills_vec.pop() {
-                    loop {
-                        if let Some((fill_id, _)) = fills.pop_child_mut() {
-                            let current_element = xml_doc_mut
-                                .pop_element_mut(&fill_id)
-                                .ok_or(anyhow!("Failed to pull child element"))?;
-                            let mut fill_style = FillStyle::default();
-                            if let Some((pattern_fill_id, _)) = current_element.pop_child_mut() {
-                                if let Some(pattern_fill) =
-                                    xml_doc_mut.pop_element_mut(&pattern_fill_id)
-                                {
-                                    if let Some(pattern_attributes) = pattern_fill.get_attribute() {
-                                        if let Some(pattern_type) =
-                                            pattern_attributes.get("patternType")
-                                        {
-                                            fill_style.pattern_type =
-                                                PatternTypeValues::get_enum(pattern_type);
-                                            loop {
-                                                if let Some((child_id, _)) =
-                                                    pattern_fill.pop_child_mut()
-                                                {
-                                                    if let Some(pop_child) =
-                                                        xml_doc_mut.pop_element_mut(&child_id)
-                                                    {
-                                                        if let Some(attributes) =
-                                                            pop_child.get_attribute()
-                                                        {
-                                                            match pop_child.get_tag() {
-                                                                "fgColor" => {
-                                                                    if let Some(theme) =
-                                                                        attributes.get("theme")
-                                                                    {
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Theme,
-                                                                            value:theme
-                                                                            .parse()
-                                                                            .context("color theme parse failed")?
-                                                                        });
-                                                                    } else if let Some(rgb) =
-                                                                        attributes.get("rgb")
-                                                                    {
-                                                                        let rgb_string =
-                                                                            rgb.to_string();
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Rgb,
-                                                                            value:rgb_string
-                                                                        });
-                                                                    } else if let Some(indexed) =
-                                                                        attributes.get("indexed")
-                                                                    {
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Indexed,
-                                                                            value:indexed
-                                                                            .parse()
-                                                                            .context("color color index parse failed")?
-                                                                        });
-                                                                    }
-                                                                }
-                                                                "bgColor" => {
-                                                                    if let Some(theme) =
-                                                                        attributes.get("theme")
-                                                                    {
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Theme,
-                                                                            value:theme
-                                                                            .parse()
-                                                                            .context("color theme parse failed")?
-                                                                        });
-                                                                    } else if let Some(rgb) =
-                                                                        attributes.get("rgb")
-                                                                    {
-                                                                        let rgb_string =
-                                                                            rgb.to_string();
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Rgb,
-                                                                            value:rgb_string
-                                                                        });
-                                                                    } else if let Some(indexed) =
-                                                                        attributes.get("indexed")
-                                                                    {
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Indexed,
-                                                                            value:indexed
-                                                                            .parse()
-                                                                            .context("color color index parse failed")?
-                                                                        });
-                                                                    }
-                                                                }
-                                                                _ => {
-                                                                    return Err(anyhow!(
-                                                                    "Unknown Color patter found"
-                                                                ));
-                                                                }
-                                                            }
-                                                        }
-                                                    }
-                                                } else {
-                                                    break;
-                                                }
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                            let mut hasher = DefaultHasher::new();
-                            fill_style.hash(&mut hasher);
-                            fill_records.push((hasher.finish(), fill_style));
-                        } else {
-                            break;
-                        }
-                    }
-                }
+            self.font_collection = Self::load_records(&xml_doc, "fonts")?;
+            self.fill_collection = Self::load_records(&xml_doc, "fills")?;
+            self.border_collection = Self::load_records(&xml_doc, "borders")?;
+            self.cell_style_xfs_collection = Self::load_records(&xml_doc, "cellStyleXfs")?;
+            self.cell_xfs_collection = Self::load_records(&xml_doc, "cellXfs")?;
+        }
+        Ok(())
+    }
+
+    fn get_record_ids(xml_doc: &XmlDocument, parent_tag: &str) -> AnyResult<Vec<usize>, AnyError> {
+        Ok(
+            if let Some(parent_id) = xml_doc.get_first_element_id(vec![parent_tag], None)? {
+                xml_doc.get_child_ids(&parent_id)
+            } else {
+                Vec::new()
+            },
+        )
+    }
+
+    fn load_records<T>(
+        xml_doc: &XmlDocument,
+        parent_tag: &str,
+    ) -> AnyResult<Vec<(String, Option<T>)>, AnyError> {
+        Ok(Self::get_record_ids(xml_doc, parent_tag)?
+            .iter()
+            .map(|record_id| (Self::get_record_content(xml_doc, record_id), None))
+            .collect::<Vec<(String, Option<T>)>>())
+    }
+
+    /// Content of the element with its child's, same for elements that mean the same
+    fn get_record_content(xml_doc: &XmlDocument, element_id: &usize) -> String {
+        let mut content = String::new();
+        if let Some(element) = xml_doc.get_element(element_id) {
+            let mut attributes = element
+                .get_attribute()
+                .map(|attributes| attributes.iter().collect::<Vec<(&String, &String)>>())
+                .unwrap_or_default();
+            attributes.sort();
+            content = format!("{}{:?}", element.get_tag(), attributes);
+            let child_ids = xml_doc.get_child_ids(element_id);
+            if child_ids.is_empty() {
+                content.push_str(&format!("{:?}", element.get_value()));
             }
-            if let Some(mut borders_vec) = xml_doc_mut.pop_elements_by_tag_mut("borders", None) {
-                if let Some(borders) = borders_vec.pop() {
-                    // Loop Each Border Style
-                    loop {
-                        if let Some((border_id, _)) = borders.pop_child_mut() {
-                            if let Some(border) = xml_doc_mut.pop_element_mut(&border_id) {
-                                let mut border_style = BorderStyle::default();
-                                // Loop Details of current border
-                                loop {
-                                    if let Some((border_child_id, _)) = border.pop_child_mut() {
-                                        if let Some(current_element) =
-                                            xml_doc_mut.pop_element_mut(&border_child_id)
-                                        {
-                                            match current_element.get_tag() {
-                                                "left" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.left,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "right" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.right,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "top" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.top,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "bottom" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.bottom,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "diagonal" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.diagonal,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                _ => {
-                                                    return Err(anyhow!(
-                                                        "Unknown border style found"
-                                                    ));
-                                                }
-                                            }
-                                        }
-                                    } else {
-                                        break;
-                                    }
-                                }
-                                let mut hasher = DefaultHasher::new();
-                                border_style.hash(&mut hasher);
-                                border_records.push((hasher.finish(), border_style));
-                            }
-                        } else {
-                            break;
-                        }
-                    }
-                }
+            for child_id in child_ids {
+                content.push_str(&format!(
+                    "({})",
+                    Self::get_record_content(xml_doc, &child_id)
+                ));
             }
-            if let Some(mut cell_style_xfs_vec) =
-                xml_doc_mut.pop_elements_by_tag_mut("cellStyleXfs", None)
-            {
-                if let Some(cell_style_xfs) = cell_style_xfs_vec.pop() {
-                    style_collection =
-                        StylePart::deserialize_cell_style(cell_style_xfs, &mut xml_doc_mut)
-                            .context("Deserializing Cell Style Xfs Failed")?;
-                }
+        }
+        content
+    }
+
+    /// Position of the record in the collection, new record is added if it is not there already
+    fn get_record_position<T: Clone>(
+        collection: &mut Vec<(String, Option<T>)>,
+        record: T,
+        add_record: fn(&mut XmlDocument, &usize, &T) -> AnyResult<(), AnyError>,
+    ) -> AnyResult<usize, AnyError> {
+        let mut xml_doc = XmlDocument::new();
+        xml_doc
+            .create_root_mut("record")
+            .context("Create Record Root Failed")?;
+        add_record(&mut xml_doc, &0, &record).context("Create Record Failed")?;
+        let content = xml_doc
+            .get_child_ids(&0)
+            .first()
+            .map(|record_id| Self::get_record_content(&xml_doc, record_id))
+            .ok_or(anyhow!("Create Record Failed"))?;
+        Ok(
+            if let Some(position) = collection.iter().position(|(item, _)| *item == content) {
+                position
+            } else {
+                collection.push((content, Some(record)));
+                collection.len() - 1
+            },
+        )
+    }
+
+    /// Add the records that are not yet part of the XML tree, existing records stay as they are
+    fn save_records<T>(
+        xml_doc_mut: &mut XmlDocument,
+        parent_tag: &str,
+        collection: &[(String, Option<T>)],
+        add_record: fn(&mut XmlDocument, &usize, &T) -> AnyResult<(), AnyError>,
+    ) -> AnyResult<(), AnyError> {
+        if collection.iter().any(|(_, record)| record.is_some()) {
+            let parent_id = Self::get_record_parent(xml_doc_mut, parent_tag, collection.len())?;
+            for record in collection.iter().filter_map(|(_, record)| record.as_ref()) {
+                add_record(xml_doc_mut, &parent_id, record)?;
             }
-            if let Some(mut cell_xfs_vec) = xml_doc_mut.pop_elements_by_tag_mut("cellXfs", None) {
-                if let Some(cell_xfs) = cell_xfs_vec.pop() {
-                    xfs_collection = StylePart::deserialize_cell_style(cell_xfs, &mut xml_doc_mut)
-                        .context("Deserializing Cell Xfs Failed")?;
+        }
+        Ok(())
+    }
+
+    /// Get the parent element of the records, create it at its position if it is missing
+    fn get_record_parent(
+        xml_doc_mut: &mut XmlDocument,
+        parent_tag: &str,
+        count: usize,
+    ) -> AnyResult<usize, AnyError> {
+        let parent_id = match xml_doc_mut.get_first_element_id(vec![parent_tag], None)? {
+            Some(parent_id) => parent_id,
+            None => {
+                let parent_id = xml_doc_mut
+                    .append_child_mut(parent_tag, None)
+                    .context("Create Style Parent Failed.")?
+                    .get_id();
+                if let Some(root_element) = xml_doc_mut.get_root_mut() {
+                    root_element
+                        .order_child_mut(
+                            EXCEL_ORDER_COLLECTION
+                                .get("styleSheet")
+                                .ok_or(anyhow!("Failed to get style default order"))?,
+                        )
+                        .context("Failed Reorder the element child's")?;
                 }
+                parent_id
             }
+        };
+        if let Some(parent) = xml_doc_mut.get_element_mut(&parent_id) {
+            let mut attributes = parent.get_attribute().cloned().unwrap_or_default();
+            attributes.insert("count".to_string(), count.to_string());
+            parent
+                .set_attribute_mut(attributes)
+                .context("Updating Style Parent Attributes Failed")?;
         }
-        Ok((
-            num_format_records,
-            font_records,
-            fill_records,
-            border_records,
-            style_collection,
-            xfs_collection,
-        ))
+        Ok(parent_id)
     }
 
     /// Save Database record back to XML File
@@ -553,379 +309,261 @@ impl StylePart {
                 .try_borrow_mut()
                 .context("xml doc borrow failed")?;
             // Create Number Formats Elements
-            {
-                let num_formats = xml_doc_mut
-                    .insert_child_at_mut("numFmts", &0, None)
-                    .context("Create Number Formats Parent Failed.")?;
-                let num_formats_id = num_formats.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.number_format_collection.len().to_string(),
-                );
-                num_formats
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, num_format) in self.number_format_collection.as_slice() {
+            if self.number_format_collection.iter().any(|item| item.2) {
+                let num_formats_id = Self::get_record_parent(
+                    &mut xml_doc_mut,
+                    "numFmts",
+                    self.number_format_collection.len(),
+                )?;
+                for (format_id, format_code, _) in
+                    self.number_format_collection.iter().filter(|item| item.2)
+                {
                     let num_format_element = xml_doc_mut
                         .append_child_mut("numFmt", Some(&num_formats_id))
                         .context("Create Number Format Element Failed")?;
                     let mut attributes = HashMap::new();
-                    attributes.insert("numFmtId".to_string(), num_format.format_id.to_string());
-                    attributes.insert("formatCode".to_string(), num_format.format_code.clone());
+                    attributes.insert("numFmtId".to_string(), format_id.to_string());
+                    attributes.insert("formatCode".to_string(), format_code.clone());
                     num_format_element
                         .set_attribute_mut(attributes)
                         .context("Updating Number Format Element Attributes Failed")?;
                 }
             }
-            // Create Fonts Elements
-            {
-                let fonts = xml_doc_mut
-                    .insert_children_after_tag_mut("fonts", "numFmts", None)
-                    .context("Create Fonts Parent Failed.")?;
-                let fonts_id = fonts.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.font_collection.len().to_string());
-                fonts
-                    .set_attribute_mut(attributes)
-                    .context("Set attribute failed for fonts style")?;
-                for (_, font_style) in self.font_collection.as_slice() {
-                    let font_id = xml_doc_mut
-                        .append_child_mut("font", Some(&fonts_id))
-                        .context("Adding Font to Fonts Failed")?
-                        .get_id();
-                    if font_style.is_bold {
-                        xml_doc_mut
-                            .append_child_mut("b", Some(&font_id))
-                            .context("Create Size Failed")?;
-                    }
-                    if font_style.is_italic {
-                        xml_doc_mut
-                            .append_child_mut("i", Some(&font_id))
-                            .context("Create Size Failed")?;
-                    }
-                    if font_style.is_underline {
-                        xml_doc_mut
-                            .append_child_mut("u", Some(&font_id))
-                            .context("Create Size Failed")?;
-                    }
-                    if font_style.is_double_underline {
-                        let double_underline = xml_doc_mut
-                            .append_child_mut("u", Some(&font_id))
-                            .context("Create Size Failed")?;
-                        let mut double_underline_attributes: HashMap<String, String> =
-                            HashMap::new();
-                        double_underline_attributes.insert("val".to_string(), "double".to_string());
-                        double_underline
-                            .set_attribute_mut(double_underline_attributes)
-                            .context("Setting Size Attribute Failing")?;
-                    }
-                    let size = xml_doc_mut
-                        .append_child_mut("sz", Some(&font_id))
-                        .context("Create Size Failed")?;
-                    let mut size_attributes: HashMap<String, String> = HashMap::new();
-                    size_attributes.insert("val".to_string(), font_style.size.to_string());
-                    size.set_attribute_mut(size_attributes)
-                        .context("Setting Size Attribute Failing")?;
-                    StylePart::add_color_element(
-                        Some(font_style.color.clone()),
-                        &mut xml_doc_mut,
-                        font_id,
-                    )?;
-                    let name = xml_doc_mut
-                        .append_child_mut("name", Some(&font_id))
-                        .context("Create Name Failed")?;
-                    let mut name_attributes: HashMap<String, String> = HashMap::new();
-                    name_attributes.insert("val".to_string(), font_style.name.clone());
-                    name.set_attribute_mut(name_attributes)
-                        .context("Setting name Attribute Failing")?;
-                    let family = xml_doc_mut
-                        .append_child_mut("family", Some(&font_id))
-                        .context("Create Name Failed")?;
-                    let mut family_attributes: HashMap<String, String> = HashMap::new();
-                    family_attributes.insert("val".to_string(), font_style.family.to_string());
-                    family
-                        .set_attribute_mut(family_attributes)
-                        .context("Setting family attribute failing")?;
-                    let scheme = xml_doc_mut
-                        .append_child_mut("scheme", Some(&font_id))
-                        .context("Create scheme Failed")?;
-                    let mut scheme_attributes: HashMap<String, String> = HashMap::new();
-                    scheme_attributes.insert(
-                        "val".to_string(),
-                        FontSchemeValues::get_string(font_style.font_scheme.clone()),
-                    );
-                    scheme
-                        .set_attribute_mut(scheme_attributes)
-                        .context("Setting scheme attribute failing")?;
-                }
-            }
-            // Create Fills Elements
-            {
-                let fills = xml_doc_mut
-                    .insert_children_after_tag_mut("fills", "fonts", None)
-                    .context("Create Fills parents Failed.")?;
-                let fills_id = fills.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.fill_collection.len().to_string());
-                fills
-                    .set_attribute_mut(attributes)
-                    .context("Set Fill Attribute Failed")?;
-                for (_, fill_data) in self.fill_collection.as_slice() {
-                    let fill_id = xml_doc_mut
-                        .append_child_mut("fill", Some(&fills_id))
-                        .context("Adding Fill Element Failed")?
-                        .get_id();
-                    let pattern_fill_element = xml_doc_mut
-                        .append_child_mut("patternFill", Some(&fill_id))
-                        .context("Pattern Fill Element Failed")?;
-                    let mut pattern_attribute: HashMap<String, String> = HashMap::new();
-                    pattern_attribute.insert(
-                        "patternType".to_string(),
-                        PatternTypeValues::get_string(fill_data.pattern_type.clone()),
-                    );
-                    pattern_fill_element
-                        .set_attribute_mut(pattern_attribute)
-                        .context("Set Pattern Fill Attribute Failed")?;
-                    let pattern_fill_id = pattern_fill_element.get_id();
-                    if let Some(fg_setting) = fill_data.foreground_color.clone() {
-                        let fg_element = xml_doc_mut
-                            .append_child_mut("fgColor", Some(&pattern_fill_id))
-                            .context("Pattern Fill Foreground Element Failed")?;
-                        let mut fg_attributes: HashMap<String, String> = HashMap::new();
-                        fg_attributes.insert(
-                            ColorSettingTypeValues::get_string(fg_setting.color_setting_type),
-                            fg_setting.value,
-                        );
-                        fg_element
-                            .set_attribute_mut(fg_attributes)
-                            .context("Set Foreground attribute Failed")?;
-                    }
-                    if let Some(bg_setting) = fill_data.background_color.clone() {
-                        let bg_element = xml_doc_mut
-                            .append_child_mut("bgColor", Some(&pattern_fill_id))
-                            .context("Pattern Fill Background Element Failed")?;
-                        let mut bg_attributes: HashMap<String, String> = HashMap::new();
-                        bg_attributes.insert(
-                            ColorSettingTypeValues::get_string(bg_setting.color_setting_type),
-                            bg_setting.value,
-                        );
-                        bg_element
-                            .set_attribute_mut(bg_attributes)
-                            .context("Set Background attribute Failed")?;
-                    }
-                }
-            }
-            // Create Border Elements
-            {
-                let borders = xml_doc_mut
-                    .insert_children_after_tag_mut("borders", "fills", None)
-                    .context("Create borders parents Failed.")?;
-                let borders_id = borders.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.border_collection.len().to_string(),
-                );
-                borders
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, border_data) in self.border_collection.as_slice() {
-                    let border_id = xml_doc_mut
-                        .append_child_mut("border", Some(&borders_id))
-                        .context("Create Border Failed")?
-                        .get_id();
-                    // Left Border Setting
-                    StylePart::add_border_element(
-                        "left",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.left.clone(),
-                    )?;
-                    //Right Border Setting
-                    StylePart::add_border_element(
-                        "right",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.right.clone(),
-                    )?;
-                    // Top Border Setting
-                    StylePart::add_border_element(
-                        "top",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.top.clone(),
-                    )?;
-                    // Bottom Border Setting
-                    StylePart::add_border_element(
-                        "bottom",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.bottom.clone(),
-                    )?;
-                    // Diagonal Border Setting
-                    StylePart::add_border_element(
-                        "diagonal",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.diagonal.clone(),
-                    )?;
-                }
-            }
-            // Create Cell Style Elements
-            {
-                StylePart::add_cell_style(&mut xml_doc_mut, &mut self.cell_xfs_collection, true)?;
-            }
-            // Create Defined Cell Style Elements
-            {
-                StylePart::add_cell_style(
-                    &mut xml_doc_mut,
-                    &mut self.cell_style_xfs_collection,
-                    false,
-                )?;
-            }
+            Self::save_records(
+                &mut xml_doc_mut,
+                "fonts",
+                &self.font_collection,
+                Self::add_font_element,
+            )
+            .context("Save Fonts Failed")?;
+            Self::save_records(
+                &mut xml_doc_mut,
+                "fills",
+                &self.fill_collection,
+                Self::add_fill_element,
+            )
+            .context("Save Fills Failed")?;
+            Self::save_records(
+                &mut xml_doc_mut,
+                "borders",
+                &self.border_collection,
+                Self::add_border_record,
+            )
+            .context("Save Borders Failed")?;
+            Self::save_records(
+                &mut xml_doc_mut,
+                "cellStyleXfs",
+                &self.cell_style_xfs_collection,
+                Self::add_cell_style_element,
+            )
+            .context("Save Cell Style Xfs Failed")?;
+            Self::save_records(
+                &mut xml_doc_mut,
+                "cellXfs",
+                &self.cell_xfs_collection,
+                Self::add_cell_element,
+            )
+            .context("Save Cell Xfs Failed")?;
         }
         Ok(())
     }
 
-    pub(crate) fn deserialize_cell_style(
-        style_xfs: XmlElement,
+    /// Add Font Element Node to XML
+    fn add_font_element(
         xml_doc_mut: &mut XmlDocument,
-    ) -> AnyResult<Vec<(u64, CellXfs)>, AnyError> {
-        let mut style_records = Vec::new();
-        loop {
-            if let Some((xf_id, _)) = style_xfs.pop_child_mut() {
-                let mut cell_xf = CellXfs::default();
-                if let Some(current_element) = xml_doc_mut.pop_element_mut(&xf_id) {
-                    if let Some(attributes) = current_element.get_attribute() {
-                        if let Some(number_format_id) = attributes.get("numFmtId") {
-                            cell_xf.number_format_id = number_format_id
-                                .parse()
-                                .context("Number Number Format Id Parse Failed")?;
-                        }
-                        if let Some(font_id) = attributes.get("fontId") {
-                            cell_xf.font_id =
-                                font_id.parse().context("Number Font Id Parse Failed")?;
-                        }
-                        if let Some(fill_id) = attributes.get("fillId") {
-                            cell_xf.fill_id =
-                                fill_id.parse().context("Number Fill Id Parse Failed")?;
-                        }
-                        if let Some(border_id) = attributes.get("borderId") {
-                            cell_xf.border_id =
-                                border_id.parse().context("Number Border Id Parse Failed")?;
-                        }
-                        if let Some(format_id) = attributes.get("xfId") {
-                            cell_xf.format_id =
-                                format_id.parse().context("Number Format Id Parse Failed")?;
-                        }
-                        if let Some(apply_protection) = attributes.get("applyProtection") {
-                            cell_xf.apply_protection =
-                                ConverterUtil::normalize_bool_property_u8(apply_protection);
-                        }
-                        if let Some(apply_alignment) = attributes.get("applyAlignment") {
-                            cell_xf.apply_alignment =
-                                ConverterUtil::normalize_bool_property_u8(apply_alignment);
-                        }
-                        if let Some(apply_border) = attributes.get("applyBorder") {
-                            cell_xf.apply_border =
-                                ConverterUtil::normalize_bool_property_u8(apply_border);
-                        }
-                        if let Some(apply_fill) = attributes.get("applyFill") {
-                            cell_xf.apply_fill = ConverterUtil::normalize_bool_property_u8(apply_fill);
-                        }
-                        if let Some(apply_font) = attributes.get("applyFont") {
-                            cell_xf.apply_font = ConverterUtil::normalize_bool_property_u8(apply_font);
-                        }
-                        if let Some(apply_number_format) = attributes.get("applyNumberFormat") {
-                            cell_xf.apply_number_format =
-                                ConverterUtil::normalize_bool_property_u8(apply_number_format);
-                        }
-                        // Load Alignment Values if exist
-                        if let Some((alignment_id, _)) = current_element.pop_child_mut() {
-                            if let Some(alignment_element) =
-                                xml_doc_mut.pop_element_mut(&alignment_id)
-                            {
-                                if let Some(alignment_attributes) =
-                                    alignment_element.get_attribute()
-                                {
-                                    if let Some(is_wrap_text) = alignment_attributes.get("wrapText")
-                                    {
-                                        cell_xf.is_wrap_text =
-                                            ConverterUtil::normalize_bool_property_u8(is_wrap_text);
-                                    }
-                                    if let Some(vertical_alignment) =
-                                        alignment_attributes.get("vertical")
-                                    {
-                                        cell_xf.vertical_alignment =
-                                            VerticalAlignmentValues::get_enum(vertical_alignment);
-                                    }
-                                    if let Some(horizontal_alignment) =
-                                        alignment_attributes.get("horizontal")
-                                    {
-                                        cell_xf.horizontal_alignment =
-                                            HorizontalAlignmentValues::get_enum(
-                                                horizontal_alignment,
-                                            );
-                                    }
-                                }
-                            }
-                        }
-                    }
-                    let mut hasher = DefaultHasher::new();
-                    cell_xf.hash(&mut hasher);
-                    style_records.push((hasher.finish(), cell_xf));
-                }
-            } else {
-                break;
-            }
+        fonts_id: &usize,
+        font_style: &FontStyle,
+    ) -> AnyResult<(), AnyError> {
+        let font_id = xml_doc_mut
+            .append_child_mut("font", Some(fonts_id))
+            .context("Adding Font to Fonts Failed")?
+            .get_id();
+        if font_style.is_bold {
+            xml_doc_mut
+                .append_child_mut("b", Some(&font_id))
+                .context("Create Size Failed")?;
+        }
+        if font_style.is_italic {
+            xml_doc_mut
+                .append_child_mut("i", Some(&font_id))
+                .context("Create Size Failed")?;
+        }
+        if font_style.is_underline && !font_style.is_double_underline {
+            xml_doc_mut
+                .append_child_mut("u", Some(&font_id))
+                .context("Create Size Failed")?;
         }
-        Ok(style_records)
+        if font_style.is_double_underline {
+            let double_underline = xml_doc_mut
+                .append_child_mut("u", Some(&font_id))
+                .context("Create Size Failed")?;
+            let mut double_underline_attributes: HashMap<String, String> =
+                HashMap::new();
+            double_underline_attributes.insert("val".to_string(), "double".to_string());
+            double_underline
+                .set_attribute_mut(double_underline_attributes)
+                .context("Setting Size Attribute Failing")?;
+        }
+        let size = xml_doc_mut
+            .append_child_mut("sz", Some(&font_id))
+            .context("Create Size Failed")?;
+        let mut size_attributes: HashMap<String, String> = HashMap::new();
+        size_attributes.insert("val".to_string(), font_style.size.to_string());
+        size.set_attribute_mut(size_attributes)
+            .context("Setting Size Attribute Failing")?;
+        StylePart::add_color_element(
+            Some(font_style.color.clone()),
+            xml_doc_mut,
+            font_id,
+        )?;
+        let name = xml_doc_mut
+            .append_child_mut("name", Some(&font_id))
+            .context("Create Name Failed")?;
+        let mut name_attributes: HashMap<String, String> = HashMap::new();
+        name_attributes.insert("val".to_string(), font_style.name.clone());
+        name.set_attribute_mut(name_attributes)
+            .context("Setting name Attribute Failing")?;
+        let family = xml_doc_mut
+            .append_child_mut("family", Some(&font_id))
+            .context("Create Name Failed")?;
+        let mut family_attributes: HashMap<String, String> = HashMap::new();
+        family_attributes.insert("val".to_string(), font_style.family.to_string());
+        family
+            .set_attribute_mut(family_attributes)
+            .context("Setting family attribute failing")?;
+        let scheme = xml_doc_mut
+            .append_child_mut("scheme", Some(&font_id))
+            .context("Create scheme Failed")?;
+        let mut scheme_attributes: HashMap<String, String> = HashMap::new();
+        scheme_attributes.insert(
+            "val".to_string(),
+            FontSchemeValues::get_string(font_style.font_scheme.clone()),
+        );
+        scheme
+            .set_attribute_mut(scheme_attributes)
+            .context("Setting scheme attribute failing")?;
+        Ok(())
     }
 
-    pub(crate) fn deserialize_border_setting(
-        current_element: &XmlElement,
-        border: &mut BorderSetting,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
-    ) -> Result<(), AnyError> {
-        Ok(if let Some(attributes) = current_element.get_attribute() {
-            if let Some(style) = attributes.get("style") {
-                border.style = BorderStyleValues::get_enum(&style);
-                if border.style != BorderStyleValues::None {
-                    if let Some((color_id, _)) = current_element.pop_child_mut() {
-                        if let Some(color_element) = xml_doc_mut.pop_element_mut(&color_id) {
-                            if let Some(attributes) = color_element.get_attribute() {
-                                if let Some(theme) = attributes.get("theme") {
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Theme,
-                                        value: theme.parse().context("color theme parse failed")?,
-                                    });
-                                } else if let Some(rgb) = attributes.get("rgb") {
-                                    let rgb_string = rgb.to_string();
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Rgb,
-                                        value: rgb_string,
-                                    });
-                                } else if let Some(indexed) = attributes.get("indexed") {
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Indexed,
-                                        value: indexed
-                                            .parse()
-                                            .context("color color index parse failed")?,
-                                    });
-                                }
-                            }
-                        }
-                    }
-                }
-            }
-        })
+    /// Add Fill Element Node to XML
+    fn add_fill_element(
+        xml_doc_mut: &mut XmlDocument,
+        fills_id: &usize,
+        fill_data: &FillStyle,
+    ) -> AnyResult<(), AnyError> {
+        let fill_id = xml_doc_mut
+            .append_child_mut("fill", Some(fills_id))
+            .context("Adding Fill Element Failed")?
+            .get_id();
+        let pattern_fill_element = xml_doc_mut
+            .append_child_mut("patternFill", Some(&fill_id))
+            .context("Pattern Fill Element Failed")?;
+        let mut pattern_attribute: HashMap<String, String> = HashMap::new();
+        pattern_attribute.insert(
+            "patternType".to_string(),
+            PatternTypeValues::get_string(fill_data.pattern_type.clone()),
+        );
+        pattern_fill_element
+            .set_attribute_mut(pattern_attribute)
+            .context("Set Pattern Fill Attribute Failed")?;
+        let pattern_fill_id = pattern_fill_element.get_id();
+        if let Some(fg_setting) = fill_data.foreground_color.clone() {
+            let fg_element = xml_doc_mut
+                .append_child_mut("fgColor", Some(&pattern_fill_id))
+                .context("Pattern Fill Foreground Element Failed")?;
+            let mut fg_attributes: HashMap<String, String> = HashMap::new();
+            fg_attributes.insert(
+                ColorSettingTypeValues::get_string(fg_setting.color_setting_type),
+                fg_setting.value,
+            );
+            fg_element
+                .set_attribute_mut(fg_attributes)
+                .context("Set Foreground attribute Failed")?;
+        }
+        if let Some(bg_setting) = fill_data.background_color.clone() {
+            let bg_element = xml_doc_mut
+                .append_child_mut("bgColor", Some(&pattern_fill_id))
+                .context("Pattern Fill Background Element Failed")?;
+            let mut bg_attributes: HashMap<String, String> = HashMap::new();
+            bg_attributes.insert(
+                ColorSettingTypeValues::get_string(bg_setting.color_setting_type),
+                bg_setting.value,
+            );
+            bg_element
+                .set_attribute_mut(bg_attributes)
+                .context("Set Background attribute Failed")?;
+        }
+        Ok(())
+    }
+
+    /// Add Border Element Node with all sides to XML
+    fn add_border_record(
+        xml_doc_mut: &mut XmlDocument,
+        borders_id: &usize,
+        border_data: &BorderStyle,
+    ) -> AnyResult<(), AnyError> {
+        let border_id = xml_doc_mut
+            .append_child_mut("border", Some(borders_id))
+            .context("Create Border Failed")?
+            .get_id();
+        // Left Border Setting
+        StylePart::add_border_element(
+            "left",
+            xml_doc_mut,
+            &border_id,
+            border_data.left.clone(),
+        )?;
+        //Right Border Setting
+        StylePart::add_border_element(
+            "right",
+            xml_doc_mut,
+            &border_id,
+            border_data.right.clone(),
+        )?;
+        // Top Border Setting
+        StylePart::add_border_element(
+            "top",
+            xml_doc_mut,
+            &border_id,
+            border_data.top.clone(),
+        )?;
+        // Bottom Border Setting
+        StylePart::add_border_element(
+            "bottom",
+            xml_doc_mut,
+            &border_id,
+            border_data.bottom.clone(),
+        )?;
+        // Diagonal Border Setting
+        StylePart::add_border_element(
+            "diagonal",
+            xml_doc_mut,
+            &border_id,
+            border_data.diagonal.clone(),
+        )?;
+        Ok(())
+    }
+
+    fn add_cell_style_element(
+        xml_doc_mut: &mut XmlDocument,
+        parent_id: &usize,
+        xfs: &CellXfs,
+    ) -> AnyResult<(), AnyError> {
+        Self::add_cell_style(xml_doc_mut, parent_id, xfs, false)
+    }
+
+    fn add_cell_element(
+        xml_doc_mut: &mut XmlDocument,
+        parent_id: &usize,
+        xfs: &CellXfs,
+    ) -> AnyResult<(), AnyError> {
+        Self::add_cell_style(xml_doc_mut, parent_id, xfs, true)
     }
 
     /// Add Color Element Node To XML
     fn add_color_element(
         color_setting: Option<ColorSetting>,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
         parent_id: usize,
     ) -> Result<(), AnyError> {
         Ok(if let Some(border_color_setting) = color_setting {
@@ -946,7 +584,7 @@ impl StylePart {
     /// Add Border Element Node to XML
     fn add_border_element(
         border_side: &str,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
         border_id: &usize,
         border_data: BorderSetting,
     ) -> Result<(), AnyError> {
@@ -970,96 +608,78 @@ impl StylePart {
 
     fn add_cell_style(
         xml_doc_mut: &mut XmlDocument,
-        xfs_data: &mut Vec<(u64, CellXfs)>,
+        cell_style_xfs_id: &usize,
+        xfs: &CellXfs,
         enable_format_id: bool,
-    ) -> Result<(), AnyError> {
-        let cell_style_xfs = xml_doc_mut
-            .insert_children_after_tag_mut(
-                if enable_format_id {
-                    "cellXfs"
-                } else {
-                    "cellStyleXfs"
-                },
-                "borders",
-                None,
-            )
-            .context("Create Cell Style parents Failed.")?;
-        let cell_style_xfs_id = cell_style_xfs.get_id();
-        let mut attributes = HashMap::new();
-        attributes.insert("count".to_string(), xfs_data.len().to_string());
-        cell_style_xfs
-            .set_attribute_mut(attributes)
-            .context("Updating Number Formats Element Attributes Failed")?;
-        for (_, xfs) in xfs_data {
-            let xf = xml_doc_mut
-                .append_child_mut("xf", Some(&cell_style_xfs_id))
-                .context("Create Cell Style Config Failed")?;
-            let xf_id = xf.get_id();
-            let mut attributes: HashMap<String, String> = HashMap::new();
-            attributes.insert("numFmtId".to_string(), xfs.number_format_id.to_string());
-            attributes.insert("fontId".to_string(), xfs.font_id.to_string());
-            attributes.insert("fillId".to_string(), xfs.fill_id.to_string());
-            attributes.insert("borderId".to_string(), xfs.border_id.to_string());
-            if enable_format_id {
-                attributes.insert("xfId".to_string(), xfs.format_id.to_string());
-            }
-            if xfs.apply_font > 0 {
-                attributes.insert("applyFont".to_string(), xfs.apply_font.to_string());
-            }
-            if xfs.apply_alignment > 0 {
-                attributes.insert(
-                    "applyAlignment".to_string(),
-                    xfs.apply_alignment.to_string(),
-                );
-            }
-            if xfs.apply_fill > 0 {
-                attributes.insert("applyFill".to_string(), xfs.apply_fill.to_string());
-            }
-            if xfs.apply_border > 0 {
-                attributes.insert("applyBorder".to_string(), xfs.apply_border.to_string());
+    ) -> AnyResult<(), AnyError> {
+        let xf = xml_doc_mut
+            .append_child_mut("xf", Some(cell_style_xfs_id))
+            .context("Create Cell Style Config Failed")?;
+        let xf_id = xf.get_id();
+        let mut attributes: HashMap<String, String> = HashMap::new();
+        attributes.insert("numFmtId".to_string(), xfs.number_format_id.to_string());
+        attributes.insert("fontId".to_string(), xfs.font_id.to_string());
+        attributes.insert("fillId".to_string(), xfs.fill_id.to_string());
+        attributes.insert("borderId".to_string(), xfs.border_id.to_string());
+        if enable_format_id {
+            attributes.insert("xfId".to_string(), xfs.format_id.to_string());
+        }
+        if xfs.apply_font > 0 {
+            attributes.insert("applyFont".to_string(), xfs.apply_font.to_string());
+        }
+        if xfs.apply_alignment > 0 {
+            attributes.insert(
+                "applyAlignment".to_string(),
+                xfs.apply_alignment.to_string(),
+            );
+        }
+        if xfs.apply_fill > 0 {
+            attributes.insert("applyFill".to_string(), xfs.apply_fill.to_string());
+        }
+        if xfs.apply_border > 0 {
+            attributes.insert("applyBorder".to_string(), xfs.apply_border.to_string());
+        }
+        if xfs.apply_number_format > 0 {
+            attributes.insert(
+                "applyNumberFormat".to_string(),
+                xfs.apply_number_format.to_string(),
+            );
+        }
+        if xfs.apply_protection > 0 {
+            attributes.insert(
+                "applyProtection".to_string(),
+                xfs.apply_protection.to_string(),
+            );
+        }
+        xf.set_attribute_mut(attributes)
+            .context("Setting Attributes Failed")?;
+        if xfs.is_wrap_text > 0
+            || xfs.vertical_alignment != VerticalAlignmentValues::None
+            || xfs.horizontal_alignment != HorizontalAlignmentValues::None
+        {
+            let alignment = xml_doc_mut
+                .append_child_mut("alignment", Some(&xf_id))
+                .context("Create Cell Alignment Style Config Failed")?;
+            let mut alignment_attributes: HashMap<String, String> = HashMap::new();
+            if xfs.is_wrap_text > 0 {
+                alignment_attributes
+                    .insert("wrapText".to_string(), xfs.is_wrap_text.to_string());
             }
-            if xfs.apply_number_format > 0 {
-                attributes.insert(
-                    "applyNumberFormat".to_string(),
-                    xfs.apply_number_format.to_string(),
+            if xfs.vertical_alignment != VerticalAlignmentValues::None {
+                alignment_attributes.insert(
+                    "vertical".to_string(),
+                    VerticalAlignmentValues::get_string(xfs.vertical_alignment.clone()),
                 );
             }
-            if xfs.apply_protection > 0 {
-                attributes.insert(
-                    "applyProtection".to_string(),
-                    xfs.apply_protection.to_string(),
+            if xfs.horizontal_alignment != HorizontalAlignmentValues::None {
+                alignment_attributes.insert(
+                    "horizontal".to_string(),
+                    HorizontalAlignmentValues::get_string(xfs.horizontal_alignment.clone()),
                 );
             }
-            xf.set_attribute_mut(attributes)
-                .context("Setting Attributes Failed")?;
-            if xfs.is_wrap_text > 0
-                || xfs.vertical_alignment != VerticalAlignmentValues::None
-                || xfs.horizontal_alignment != HorizontalAlignmentValues::None
-            {
-                let alignment = xml_doc_mut
-                    .append_child_mut("alignment", Some(&xf_id))
-                    .context("Create Cell Alignment Style Config Failed")?;
-                let mut alignment_attributes: HashMap<String, String> = HashMap::new();
-                if xfs.is_wrap_text > 0 {
-                    alignment_attributes
-                        .insert("wrapText".to_string(), xfs.is_wrap_text.to_string());
-                }
-                if xfs.vertical_alignment != VerticalAlignmentValues::None {
-                    alignment_attributes.insert(
-                        "vertical".to_string(),
-                        VerticalAlignmentValues::get_string(xfs.vertical_alignment.clone()),
-                    );
-                }
-                if xfs.horizontal_alignment != HorizontalAlignmentValues::None {
-                    alignment_attributes.insert(
-                        "horizontal".to_string(),
-                        HorizontalAlignmentValues::get_string(xfs.horizontal_alignment.clone()),
-                    );
-                }
-                alignment
-                    .set_attribute_mut(alignment_attributes)
-                    .context("Setting Alignment Attribute Failed")?;
-            }
+            alignment
+                .set_attribute_mut(alignment_attributes)
+                .context("Setting Alignment Attribute Failed")?;
         }
         Ok(())
     }
@@ -1086,35 +706,38 @@ impl StylePart {
                 cell_style.apply_number_format = 1;
                 // Get Number Format ID
                 if let Some(custom_format) = style_setting.custom_number_format {
-                    let mut hasher = DefaultHasher::new();
-                    let number_format = NumberFormat {
-                        format_code: custom_format,
-                        format_type: NumberFormatValues::Custom,
-                        ..Default::default()
-                    };
-                    number_format.hash(&mut hasher);
-                    let current_hash = hasher.finish();
-                    if let Some(position) = self
+                    cell_style.number_format_id = if let Some((format_id, _, _)) = self
                         .number_format_collection
                         .iter()
-                        .position(|(hash, _)| *hash == current_hash)
+                        .find(|(_, format_code, _)| *format_code == custom_format)
                     {
-                        cell_style.number_format_id = position as u16 + 163;
+                        *format_id
                     } else {
+                        // ID's below are reserved for built-in formats
+                        let format_id = self
+                            .number_format_collection
+                            .iter()
+                            .map(|item| item.0)
+                            .fold(163, max)
+                            + 1;
                         self.number_format_collection
-                            .push((current_hash, number_format));
-                        cell_style.number_format_id =
-                            (self.number_format_collection.len() - 1) as u16;
-                    }
+                            .push((format_id, custom_format, true));
+                        format_id
+                    };
                 } else {
                     return Err(anyhow!(
                         "Custom Format Type is used without providing custom number format."
                     ));
                 }
+            } else if style_setting.number_format != NumberFormatValues::General {
+                cell_style.apply_number_format = 1;
+                cell_style.number_format_id =
+                    NumberFormatValues::get_string(style_setting.number_format)
+                        .parse()
+                        .context("Number format ID parsing Failed")?;
             }
             // Get Font Style ID
             {
-                let mut hasher = DefaultHasher::new();
                 let font_style = FontStyle {
                     name: style_setting.font_family,
                     is_bold: style_setting.is_bold,
@@ -1125,27 +748,29 @@ impl StylePart {
                     size: style_setting.font_size,
                     ..Default::default()
                 };
-                font_style.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .font_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    cell_style.font_id = position as u16;
-                    if position > 0 {
-                        cell_style.apply_font = 1;
-                    }
-                } else {
-                    self.font_collection.push((current_hash, font_style));
-                    cell_style.font_id = (self.font_collection.len() - 1) as u16;
+                let position = Self::get_record_position(
+                    &mut self.font_collection,
+                    font_style,
+                    Self::add_font_element,
+                )?;
+                cell_style.font_id = position;
+                if position > 0 {
                     cell_style.apply_font = 1;
                 }
             }
             // Get Fill Style ID
             {
-                let mut hasher = DefaultHasher::new();
                 let fill_style = FillStyle {
+                    // A colour is visible only with a pattern
+                    pattern_type: match style_setting.pattern_type {
+                        PatternTypeValues::None
+                            if style_setting.background_color.is_some()
+                                || style_setting.foreground_color.is_some() =>
+                        {
+                            PatternTypeValues::Solid
+                        }
+                        pattern_type => pattern_type,
+                    },
                     background_color: if let Some(background_color) = style_setting.background_color
                     {
                         Some(ColorSetting {
@@ -1164,29 +789,20 @@ impl StylePart {
                     } else {
                         None
                     },
-                    pattern_type: style_setting.pattern_type,
                     ..Default::default()
                 };
-                fill_style.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .fill_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    cell_style.fill_id = position as u16;
-                    if position > 0 {
-                        cell_style.apply_fill = 1;
-                    }
-                } else {
-                    self.fill_collection.push((current_hash, fill_style));
-                    cell_style.fill_id = (self.fill_collection.len() - 1) as u16;
+                let position = Self::get_record_position(
+                    &mut self.fill_collection,
+                    fill_style,
+                    Self::add_fill_element,
+                )?;
+                cell_style.fill_id = position;
+                if position > 0 {
                     cell_style.apply_fill = 1;
                 }
             }
             // Get Border Style ID
             {
-                let mut hasher = DefaultHasher::new();
                 let border_style = BorderStyle {
                     left: style_setting.border_left,
                     top: style_setting.border_top,
@@ -1195,26 +811,18 @@ impl StylePart {
                     diagonal: style_setting.border_diagonal,
                     ..Default::default()
                 };
-                border_style.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .border_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    cell_style.border_id = position as u16;
-                    if position > 0 {
-                        cell_style.apply_border = 1;
-                    }
-                } else {
-                    self.border_collection.push((current_hash, border_style));
-                    cell_style.border_id = (self.border_collection.len() - 1) as u16;
+                let position = Self::get_record_position(
+                    &mut self.border_collection,
+                    border_style,
+                    Self::add_border_record,
+                )?;
+                cell_style.border_id = position;
+                if position > 0 {
                     cell_style.apply_border = 1;
                 }
             }
             // Get Cell Style xfs to find xfId
             {
-                let mut hasher = DefaultHasher::new();
                 if style_setting.vertical_alignment != VerticalAlignmentValues::None
                     || style_setting.horizontal_alignment != HorizontalAlignmentValues::None
                     || style_setting.is_wrap_text
@@ -1226,38 +834,18 @@ impl StylePart {
                 if style_setting.is_wrap_text {
                     cell_style.is_wrap_text = 1;
                 }
-                let cell_style_xfs = cell_style.clone();
-                cell_style_xfs.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .cell_style_xfs_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    cell_style.format_id = position as u16;
-                } else {
-                    self.cell_style_xfs_collection
-                        .push((current_hash, cell_style_xfs));
-                    cell_style.format_id = (self.cell_style_xfs_collection.len() - 1) as u16;
-                }
+                cell_style.format_id = Self::get_record_position(
+                    &mut self.cell_style_xfs_collection,
+                    cell_style.clone(),
+                    Self::add_cell_style_element,
+                )?;
             }
             // Get Cell xfs
-            {
-                let mut hasher = DefaultHasher::new();
-                let font_style = cell_style;
-                font_style.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .cell_xfs_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    Ok(StyleId::new(position as u32))
-                } else {
-                    self.cell_xfs_collection.push((current_hash, font_style));
-                    Ok(StyleId::new((self.cell_xfs_collection.len() - 1) as u32))
-                }
-            }
+            Ok(StyleId::new(Self::get_record_position(
+                &mut self.cell_xfs_collection,
+                cell_style,
+                Self::add_cell_element,
+            )? as u32))
         }
     }
 }
-- 
2.43.0


From 8869703492073013362f30d5c0763612434d4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 13/32] fix: keep the entries of an opened shared string table
 as they are and append new strings only

---
 .../spreadsheet_2007/services/share_string.rs | 111 ++++++++++++------
 1 file changed, 73 insertions(+), 38 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 2438b36..4a17c17 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -7,18 +7,17 @@ use crate::{
     global_2007::traits::XmlDocumentPart,
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
-use std::{
-    cell::RefCell,
-    collections::{HashMap, HashSet},
-    rc::Weak,
-};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
 
 #[derive(Debug)]
 pub struct ShareStringPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
     xml_document: Weak<RefCell<XmlDocument>>,
-    share_string_collection: Vec<String>,
+    /// Text of each entry, None for entries that are not plain text
+    share_string_collection: Vec<Option<String>>,
+    /// Entries that are already part of the XML tree
+    stored_count: usize,
     file_path: String,
 }
 
@@ -41,33 +40,51 @@ impl XmlDocumentPartCommon for ShareStringPart {
                             let mut xml_doc_mut = xml_document
                                 .try_borrow_mut()
                                 .context("Failed to Pull Doc Reference")?;
-                            // Update count & uniqueCount in root
-                            if let Some(root) = xml_doc_mut.get_root_mut() {
-                                if let Some(attributes) = root.get_attribute_mut() {
+                            // Entries of the file stay as they are, only new are added
+                            let new_strings =
+                                self.share_string_collection[self.stored_count..].to_owned();
+                            if new_strings.len() > 0 {
+                                // Update count & uniqueCount in root
+                                if let Some(root) = xml_doc_mut.get_root_mut() {
+                                    let mut attributes =
+                                        root.get_attribute().cloned().unwrap_or_default();
+                                    let count = attributes
+                                        .get("count")
+                                        .and_then(|count| count.parse::<usize>().ok())
+                                        .unwrap_or(self.stored_count);
                                     attributes.insert(
                                         "count".to_string(),
-                                        self.share_string_collection.len().to_string(),
+                                        count.saturating_add(new_strings.len()).to_string(),
                                     );
                                     attributes.insert(
                                         "uniqueCount".to_string(),
-                                        self.share_string_collection
-                                            .iter()
-                                            .map(|s| s.to_string())
-                                            .collect::<HashSet<String>>()
-                                            .len()
-                                            .to_string(),
+                                        (self.stored_count + new_strings.len()).to_string(),
                                     );
+                                    root.set_attribute_mut(attributes)
+                                        .context("Set Share String Count Failed")?;
+                                }
+                                for string in new_strings.into_iter().flatten() {
+                                    let parent_id = xml_doc_mut
+                                        .append_child_mut("si", None)
+                                        .context("Failed to Add Child")?
+                                        .get_id();
+                                    let text_element = xml_doc_mut
+                                        .append_child_mut("t", Some(&parent_id))
+                                        .context("Creating Share String Child Failed")?;
+                                    if string != string.trim() {
+                                        let mut attributes = HashMap::new();
+                                        attributes
+                                            .insert("xml:space".to_string(), "preserve".to_string());
+                                        text_element
+                                            .set_attribute_mut(attributes)
+                                            .context("Set Share String Space Failed")?;
+                                    }
+                                    text_element.set_value_mut(string);
+                                }
+                                if let Some(root) = xml_doc_mut.get_root_mut() {
+                                    root.order_child_mut(&["si", "extLst"])
+                                        .context("Failed Reorder the element child's")?;
                                 }
-                            }
-                            for string in self.share_string_collection.to_owned() {
-                                let parent_id = xml_doc_mut
-                                    .append_child_mut("si", None)
-                                    .context("Failed to Add Child")?
-                                    .get_id();
-                                xml_doc_mut
-                                    .append_child_mut("t", Some(&parent_id))
-                                    .context("Creating Share String Child Failed")?
-                                    .set_value_mut(string);
                             }
                         }
                         office_doc_ref
@@ -138,6 +155,7 @@ impl XmlDocumentPart for ShareStringPart {
             office_document,
             parent_relationship_part,
             xml_document,
+            stored_count: share_string_collection.len(),
             share_string_collection,
             file_path: file_name,
         })
@@ -167,25 +185,42 @@ impl ShareStringPart {
 
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<String>, AnyError> {
+    ) -> AnyResult<Vec<Option<String>>, AnyError> {
         let mut share_string_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
+            let xml_doc = xml_document
+                .try_borrow()
                 .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
-                for element in elements {
-                    if let Some((child_id, _)) = element.pop_child_mut() {
-                        if let Some(text_element) = xml_doc_mut.pop_element_mut(&child_id) {
-                            let value = text_element.get_value().clone().unwrap_or("".to_string());
-                            share_string_collection.push(value);
-                        }
+            for element_id in xml_doc.get_child_ids(&0) {
+                if let Some(element) = xml_doc.get_element(&element_id) {
+                    if element.get_tag() == "si" {
+                        share_string_collection.push(Self::get_plain_text(&xml_doc, &element_id));
                     }
                 }
             }
         }
         Ok(share_string_collection)
     }
+
+    /// Text of an entry that has nothing but the text
+    fn get_plain_text(xml_doc: &XmlDocument, element_id: &usize) -> Option<String> {
+        if let [text_id] = xml_doc.get_child_ids(element_id).as_slice() {
+            if let Some(text_element) = xml_doc.get_element(text_id) {
+                if text_element.get_tag() == "t" {
+                    let text = text_element.get_value().clone().unwrap_or_default();
+                    let is_preserved = text_element
+                        .get_attribute()
+                        .and_then(|attributes| attributes.get("xml:space"))
+                        .is_some_and(|space| space == "preserve");
+                    // Outer white space counts only if it is marked so
+                    if is_preserved || text == text.trim() {
+                        return Some(text);
+                    }
+                }
+            }
+        }
+        None
+    }
 }
 
 impl ShareStringPart {
@@ -194,11 +229,11 @@ impl ShareStringPart {
             if let Some(position) = self
                 .share_string_collection
                 .iter()
-                .position(|predicate| predicate == &value)
+                .position(|predicate| predicate.as_ref() == Some(&value))
             {
                 position.to_string()
             } else {
-                self.share_string_collection.push(value);
+                self.share_string_collection.push(Some(value));
                 (self.share_string_collection.len() - 1).to_string()
             },
         )
-- 
2.43.0


From c76bc82732c3309d016307d9cea25e8897967741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 14/32] fix: keep further elements of workbook and worksheet at
 their place when ordering

---
 rs/src/files/xml/xml_tree.rs                 | 32 ++++++++++++++++----
 rs/src/global/references/order_dictionary.rs |  6 ++--
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index bc1aa8b..bea04c3 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -152,6 +152,17 @@ impl XmlDocument {
     pub(crate) fn pop_element_mut(&mut self, element_id: &usize) -> Option<XmlElement> {
         self.xml_element_collection.remove(element_id)
     }
+    /// Remove the child reference from parent along with the element
+    pub(crate) fn delete_child_mut(&mut self, element_id: &usize, parent_id: Option<&usize>) {
+        if let Some(parent_element) = self.xml_element_collection.get(parent_id.unwrap_or(&0)) {
+            parent_element
+                .children
+                .borrow_mut()
+                .retain(|item| item.id != *element_id);
+        }
+        self.xml_element_collection.remove(element_id);
+    }
+
     /// Insert Children Before specific Tag
     pub(crate) fn insert_children_before_tag_mut(
         &mut self,
@@ -480,12 +491,21 @@ impl XmlElement {
                 .enumerate()
                 .map(|(index, &tag)| (tag, index))
                 .collect();
-            self.children.borrow_mut().sort_by_key(|item| {
-                order_map
-                    .get(item.tag.as_str())
-                    .cloned()
-                    .unwrap_or(usize::MAX)
-            });
+            // Element that is not part of the skeleton stays behind the element it follows
+            let mut children = self.children.borrow_mut();
+            let mut current_order = 0;
+            let mut ordered_children = children
+                .drain(..)
+                .map(|item| {
+                    current_order = order_map
+                        .get(item.tag.as_str())
+                        .cloned()
+                        .unwrap_or(current_order);
+                    (current_order, item)
+                })
+                .collect::<Vec<(usize, XmlElementChild)>>();
+            ordered_children.sort_by_key(|(order, _)| *order);
+            children.extend(ordered_children.into_iter().map(|(_, item)| item));
         }
         Ok(())
     }
diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 0187d1e..206832b 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -3,7 +3,7 @@ use phf::{phf_map, Map};
 pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static str]> = phf_map! {
     "workbook" => &[
         "fileVersion", "fileSharing", "workbookPr",
-        "mc:AlternateContent", "xr:revisionPtr", "workbookProtection",
+        "workbookProtection",
         "bookViews", "sheets", "functionGroups", "externalReferences",
         "definedNames", "calcPr", "oleSize", "customWorkbookViews",
         "pivotCaches", "smartTagPr", "smartTagTypes", "webPublishing",
@@ -11,7 +11,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
     ],
     "worksheet"=>&["sheetPr","dimension","sheetViews",
         "sheetFormatPr","cols","sheetData",
-        "sheetCalcPr","protectedRanges","scenarios",
+        "sheetCalcPr","sheetProtection","protectedRanges","scenarios",
         "autoFilter","sortState","dataConsolidate",
         "customSheetViews","mergeCells","phoneticPr",
         "conditionalFormatting",
@@ -19,7 +19,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
         "pageMargins","pageSetup","headerFooter",
         "rowBreaks","colBreaks","customProperties",
         "cellWatches","ignoredErrors","smartTags",
-        "drawing","drawingHF","picture",
+        "drawing","legacyDrawing","legacyDrawingHF","drawingHF","picture",
         "oleObjects","controls","webPublishItems",
         "tableParts","extLst",
     ],
-- 
2.43.0


From 25bbd13e0cfd1fff11d3988c837d3d666e1ab140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 15/32] fix: find the relations of a workbook whatever its part
 name is, no panic for a part in the package root

---
 rs/src/global/global_2007/parts/relations.rs           | 8 ++++++++
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs  | 5 +----
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 6 +-----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 86e8c55..0d2d935 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -139,6 +139,14 @@ impl RelationsPart {
         }
     }
 
+    /// File path of the relation part that belongs to the given part
+    pub(crate) fn get_relation_file_path(file_path: &str) -> String {
+        match file_path.rsplit_once('/') {
+            Some((directory, file_name)) => format!("{}/_rels/{}.rels", directory, file_name),
+            None => format!("_rels/{}.rels", file_path),
+        }
+    }
+
     /// Part name a target leads to
     fn resolve_target(&self, target: &str) -> AnyResult<String, AnyError> {
         let path = if target.starts_with("/") {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 186df49..1aef51b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -249,10 +249,7 @@ impl XmlDocumentPart for WorkbookPart {
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
-                        &format!(
-                            "{}/_rels/workbook.xml.rels",
-                            &file_name[..file_name.rfind("/").unwrap()]
-                        ),
+                        &RelationsPart::get_relation_file_path(&file_name),
                     )
                     .context("Creating Relation ship part for workbook failed.")?,
                 ));
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 7ca5e1c..936ee63 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -230,11 +230,7 @@ impl WorkSheet {
         let sheet_relationship_part = Rc::new(RefCell::new(
             RelationsPart::new(
                 office_document.clone(),
-                &format!(
-                    "{}/_rels/{}.rels",
-                    &file_path[..file_path.rfind("/").unwrap()],
-                    file_path.rsplit("/").next().unwrap()
-                ),
+                &RelationsPart::get_relation_file_path(&file_path),
             )
             .inspect_err(|_| Self::discard_xml_document(&office_document, &file_path))
             .context("Creating Relation ship part for workbook failed.")?,
-- 
2.43.0


From 785dd68bf37a165351bfd86c9359a3be539284d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 16/32] fix: keep sheet ids, sheet states, local names and
 workbook views of an opened file, a view setting changes nothing but itself

---
 .../spreadsheet_2007/parts/workbook.rs        | 628 ++++++++----------
 .../spreadsheet_2007/parts/worksheet.rs       |  17 +-
 2 files changed, 306 insertions(+), 339 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 1aef51b..f21f1c2 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -21,6 +21,9 @@ use std::{
     rc::{Rc, Weak},
 };
 
+/// Sheet name, relationId, active sheet, hide sheet, all attributes
+pub(crate) type SheetRecord = (String, String, bool, bool, HashMap<String, String>);
+
 #[derive(Debug)]
 pub struct WorkbookPart {
     office_document: Weak<RefCell<OfficeDocument>>,
@@ -29,38 +32,21 @@ pub struct WorkbookPart {
     common_service: Rc<RefCell<CommonServices>>,
     workbook_relationship_part: Rc<RefCell<RelationsPart>>,
     theme_part: ThemePart,
-    /// This contain the sheet name, relationId, active sheet, hide sheet
-    sheet_collection: Rc<RefCell<Vec<(String, String, bool, bool)>>>,
-    workbook_view: Option<WorkbookView>,
+    /// This contain the sheet name, relationId, active sheet, hide sheet, all attributes
+    sheet_collection: Rc<RefCell<Vec<SheetRecord>>>,
+    /// RelationId of the sheets in the order of the opened file
+    loaded_sheets: Vec<String>,
+    workbook_view: WorkbookView,
 }
 
-#[derive(Debug)]
+/// Settings requested for the workbook view, what is not requested stays as it is in the file
+#[derive(Debug, Default)]
 pub(crate) struct WorkbookView {
-    active_tab: Option<String>,
-    first_sheet: Option<String>,
-    visibility: Option<String>,
-    minimize: bool,
-    hide_horizontal_scroll: bool,
-    hide_vertical_scroll: bool,
-    hide_sheet_tab: bool,
-    sheet_tab_ratio: Option<i16>,
-    auto_filter_date_grouping: Option<bool>,
-}
-
-impl Default for WorkbookView {
-    fn default() -> Self {
-        WorkbookView {
-            active_tab: None,
-            first_sheet: None,
-            minimize: false,
-            auto_filter_date_grouping: None,
-            hide_sheet_tab: false,
-            hide_vertical_scroll: false,
-            hide_horizontal_scroll: false,
-            sheet_tab_ratio: None,
-            visibility: None,
-        }
-    }
+    visibility: Option<bool>,
+    minimize: Option<bool>,
+    hide_horizontal_scroll: Option<bool>,
+    hide_vertical_scroll: Option<bool>,
+    hide_sheet_tab: Option<bool>,
 }
 
 impl Drop for WorkbookPart {
@@ -113,103 +99,9 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     let mut xml_doc_mut = xml_document_mut
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
-                    let mut sheet_count = 1;
-                    if let Some(workbook_view) = &self.workbook_view {
-                        // Create and Set BookViews
-                        let book_views_id = xml_doc_mut
-                            .insert_children_after_tag_mut("bookViews", "fileVersion", None)
-                            .context("Create book viewsD Node Failed")?
-                            .get_id();
-                        let workbook_view_element = xml_doc_mut
-                            .append_child_mut("workbookView", Some(&book_views_id))
-                            .context("Failed to create workbook view")?;
-                        let mut attributes: HashMap<String, String> = HashMap::new();
-                        if let Some(active_tab) = &workbook_view.active_tab {
-                            attributes.insert("activeTab".to_string(), active_tab.clone());
-                        }
-                        if let Some(first_sheet) = &workbook_view.first_sheet {
-                            attributes.insert("firstSheet".to_string(), first_sheet.clone());
-                        }
-                        if let Some(tab_ratio) = &workbook_view.sheet_tab_ratio {
-                            attributes.insert("tabRatio".to_string(), tab_ratio.to_string());
-                        }
-                        if let Some(auto_filter_date_grouping) =
-                            &workbook_view.auto_filter_date_grouping
-                        {
-                            attributes.insert(
-                                "tabRatio".to_string(),
-                                if auto_filter_date_grouping.to_owned() {
-                                    "1".to_string()
-                                } else {
-                                    "0".to_string()
-                                },
-                            );
-                        }
-                        attributes.insert(
-                            "minimized".to_string(),
-                            if workbook_view.minimize {
-                                "1".to_string()
-                            } else {
-                                "0".to_string()
-                            },
-                        );
-                        if let Some(visibility) = &workbook_view.visibility {
-                            attributes.insert("visibility".to_string(), visibility.clone());
-                        }
-                        attributes.insert(
-                            "showSheetTabs".to_string(),
-                            if workbook_view.hide_sheet_tab {
-                                "0".to_string()
-                            } else {
-                                "1".to_string()
-                            },
-                        );
-                        attributes.insert(
-                            "showVerticalScroll".to_string(),
-                            if workbook_view.hide_vertical_scroll {
-                                "0".to_string()
-                            } else {
-                                "1".to_string()
-                            },
-                        );
-                        attributes.insert(
-                            "showHorizontalScroll".to_string(),
-                            if workbook_view.hide_horizontal_scroll {
-                                "0".to_string()
-                            } else {
-                                "1".to_string()
-                            },
-                        );
-                        workbook_view_element
-                            .set_attribute_mut(attributes)
-                            .context("Failed to set workbook view attributes")?;
-                    }
-                    // Create and set Sheets
-                    let sheets_id = xml_doc_mut
-                        .insert_children_after_tag_mut("sheets", "bookViews", None)
-                        .context("Create Sheets Node Failed")?
-                        .get_id();
-                    for (sheet_display_name, relationship_id, _, hide) in &self
-                        .sheet_collection
-                        .try_borrow_mut()
-                        .context("Failed to pull Sheet Name Collection")?
-                        .clone()
-                    {
-                        let sheet = xml_doc_mut
-                            .append_child_mut("sheet", Some(&sheets_id))
-                            .context("Create Sheet Node Failed")?;
-                        let mut attributes = HashMap::new();
-                        attributes.insert("name".to_string(), sheet_display_name.to_string());
-                        attributes.insert("sheetId".to_string(), sheet_count.to_string());
-                        attributes.insert("r:id".to_string(), relationship_id.to_string());
-                        if *hide {
-                            attributes.insert("state".to_string(), "hidden".to_string());
-                        }
-                        sheet
-                            .set_attribute_mut(attributes)
-                            .context("Sheet Attributes Failed")?;
-                        sheet_count += 1;
-                    }
+                    self.serialize_book_views(&mut xml_doc_mut)?;
+                    self.serialize_defined_names(&mut xml_doc_mut)?;
+                    self.serialize_sheets(&mut xml_doc_mut)?;
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
                             .order_child_mut(
@@ -282,7 +174,7 @@ impl XmlDocumentPart for WorkbookPart {
                     share_string,
                     style,
                 )));
-                let (sheet_collection, workbook_view) =
+                let sheet_collection =
                     Self::load_sheet_names(&mut file_tree).context("Loading Sheet Names Failed")?;
                 Ok(Self {
                     office_document,
@@ -291,8 +183,12 @@ impl XmlDocumentPart for WorkbookPart {
                     common_service,
                     workbook_relationship_part,
                     theme_part,
+                    loaded_sheets: sheet_collection
+                        .iter()
+                        .map(|(_, relationship_id, ..)| relationship_id.clone())
+                        .collect(),
                     sheet_collection: Rc::new(RefCell::new(sheet_collection)),
-                    workbook_view,
+                    workbook_view: WorkbookView::default(),
                 })
             },
             "Create New Workbook"
@@ -305,161 +201,275 @@ impl XmlDocumentPart for WorkbookPart {
 impl WorkbookPart {
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<(Vec<(String, String, bool, bool)>, Option<WorkbookView>), AnyError> {
+    ) -> AnyResult<Vec<SheetRecord>, AnyError> {
         log_elapsed!(
             || {
                 let mut sheet_collection = Vec::new();
-                let mut workbook_view = None;
                 if let Some(xml_document) = xml_document.upgrade() {
                     let mut xml_doc_mut = xml_document
                         .try_borrow_mut()
                         .context("xml doc borrow failed")?;
-                    // Deconstruct Book View for sheet collection data
-                    if let Some(mut book_views_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("bookViews", None)
-                    {
-                        if let Some(book_views) = book_views_vec.pop() {
-                            loop {
-                                if let Some((workbook_view_id, _)) = book_views.pop_child_mut() {
-                                    if let Some(workbook_view_element) =
-                                        xml_doc_mut.pop_element_mut(&workbook_view_id)
-                                    {
-                                        if let Some(attributes) =
-                                            workbook_view_element.get_attribute()
-                                        {
-                                            workbook_view = Some(WorkbookView {
-                                                auto_filter_date_grouping: if let Some(
-                                                    auto_filter_data_group,
-                                                ) =
-                                                    attributes.get("autoFilterDateGrouping")
-                                                {
-                                                    Some(
-                                                        ConverterUtil::normalize_bool_property_u8(
-                                                            auto_filter_data_group,
-                                                        ) == 1,
-                                                    )
-                                                } else {
-                                                    None
-                                                },
-                                                sheet_tab_ratio: if let Some(tab_ratio) =
-                                                    attributes.get("tabRatio")
-                                                {
-                                                    Some(tab_ratio.parse().context(
-                                                        "Failed to Parse Tab Ratio Numeric",
-                                                    )?)
-                                                } else {
-                                                    None
-                                                },
-                                                active_tab: if let Some(active_tab) =
-                                                    attributes.get("activeTab")
-                                                {
-                                                    Some(active_tab.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                first_sheet: if let Some(first_sheet) =
-                                                    attributes.get("firstSheet")
-                                                {
-                                                    Some(first_sheet.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                hide_sheet_tab: if let Some(hide_sheet_tab) =
-                                                    attributes.get("showSheetTabs")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_sheet_tab,
-                                                    ) == 1
-                                                } else {
-                                                    false
-                                                },
-                                                visibility: if let Some(visibility) =
-                                                    attributes.get("visibility")
-                                                {
-                                                    Some(visibility.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                minimize: if let Some(minimize) =
-                                                    attributes.get("minimized")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(minimize)
-                                                        == 1
-                                                } else {
-                                                    false
-                                                },
-                                                hide_horizontal_scroll: if let Some(
-                                                    hide_horizontal_scroll,
-                                                ) =
-                                                    attributes.get("showHorizontalScroll")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_horizontal_scroll,
-                                                    ) == 0
-                                                } else {
-                                                    false
-                                                },
-                                                hide_vertical_scroll: if let Some(
-                                                    hide_vertical_scroll,
-                                                ) =
-                                                    attributes.get("showVerticalScroll")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_vertical_scroll,
-                                                    ) == 0
-                                                } else {
-                                                    false
-                                                },
-                                            })
-                                        }
-                                    }
-                                } else {
-                                    break;
-                                }
-                            }
-                        }
-                    }
-                    // Deconstruct Sheets into collection
-                    if let Some(mut sheets_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("sheets", None)
+                    // The first view tells the active sheet, the views stay in the document
+                    let active_tab: Option<usize> = xml_doc_mut
+                        .get_first_element_mut(vec!["bookViews", "workbookView"], None)?
+                        .and_then(|element| element.get_attribute())
+                        .and_then(|attributes| attributes.get("activeTab"))
+                        .map_or(Some(0), |active_tab| active_tab.trim().parse().ok());
+                    // Deconstruct Sheets into collection, sheets element stays at its place
+                    if let Some(sheets_id) =
+                        xml_doc_mut.get_first_element_id(vec!["sheets"], None)?
                     {
-                        if let Some(sheets) = sheets_vec.pop() {
-                            // Load Sheet from File if exist
-                            loop {
-                                if let Some((sheet_id, _)) = sheets.pop_child_mut() {
-                                    if let Some(sheet) = xml_doc_mut.pop_element_mut(&sheet_id) {
-                                        if let Some(attributes) = sheet.get_attribute() {
-                                            let name = attributes.get("name").ok_or(anyhow!(
-                                                "Error When Trying to read Sheet Details."
-                                            ))?;
-                                            let r_id = attributes.get("r:id").ok_or(anyhow!(
-                                                "Error When Trying to read Sheet Details."
-                                            ))?;
-                                            let state = attributes.get("state");
-                                            sheet_collection.push((
-                                                name.to_string(),
-                                                r_id.to_string(),
-                                                false,
-                                                if let Some(state) = state {
-                                                    state == "hidden"
-                                                } else {
-                                                    false
-                                                },
-                                            ));
-                                        }
-                                    }
-                                } else {
-                                    break;
-                                }
+                        // Load Sheet from File if exist
+                        for sheet_id in xml_doc_mut.get_child_ids(&sheets_id) {
+                            if let Some(sheet) = xml_doc_mut
+                                .get_element(&sheet_id)
+                                .filter(|sheet| sheet.get_tag() == "sheet")
+                            {
+                                let attributes =
+                                    sheet.get_attribute().cloned().unwrap_or_default();
+                                let name = attributes.get("name").cloned().ok_or(anyhow!(
+                                    "Error When Trying to read Sheet Details."
+                                ))?;
+                                let relationship_id = attributes
+                                    .get("r:id")
+                                    .or(attributes
+                                        .iter()
+                                        .find(|(key, _)| key.ends_with(":id"))
+                                        .map(|(_, value)| value))
+                                    .cloned()
+                                    .ok_or(anyhow!("Error When Trying to read Sheet Details."))?;
+                                let hide = attributes
+                                    .get("state")
+                                    .is_some_and(|state| state == "hidden");
+                                let active = active_tab == Some(sheet_collection.len());
+                                sheet_collection.push((
+                                    name,
+                                    relationship_id,
+                                    active,
+                                    hide,
+                                    attributes,
+                                ));
+                                xml_doc_mut.delete_child_mut(&sheet_id, Some(&sheets_id));
                             }
                         }
                     }
                 }
-                Ok((sheet_collection, workbook_view))
+                Ok(sheet_collection)
             },
             "Load Existing Workbook"
         )
     }
+
+    /// Position of every sheet of the opened file in the current collection
+    fn get_sheet_positions(&self) -> AnyResult<Vec<Option<usize>>, AnyError> {
+        let sheet_collection = self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Name Collection")?;
+        Ok(self
+            .loaded_sheets
+            .iter()
+            .map(|relationship_id| {
+                sheet_collection
+                    .iter()
+                    .position(|item| item.1 == *relationship_id)
+            })
+            .collect())
+    }
+
+    /// Update the views with the requested settings and the current sheet positions
+    fn serialize_book_views(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        let positions = self.get_sheet_positions()?;
+        let active_tab = self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Name Collection")?
+            .iter()
+            .position(|(_, _, active, ..)| *active);
+        let flag = |value: Option<bool>, name: &str| {
+            value.map(|value| (name.to_string(), ConverterUtil::bool_xml_flag(&value)))
+        };
+        let mut settings = vec![
+            flag(self.workbook_view.minimize, "minimized"),
+            flag(
+                self.workbook_view.hide_sheet_tab.map(|hide| !hide),
+                "showSheetTabs",
+            ),
+            flag(
+                self.workbook_view.hide_vertical_scroll.map(|hide| !hide),
+                "showVerticalScroll",
+            ),
+            flag(
+                self.workbook_view.hide_horizontal_scroll.map(|hide| !hide),
+                "showHorizontalScroll",
+            ),
+        ];
+        if let Some(visible) = self.workbook_view.visibility {
+            let visibility = if visible { "visible" } else { "hidden" };
+            settings.push(Some(("visibility".to_string(), visibility.to_string())));
+        }
+        let settings = settings
+            .into_iter()
+            .flatten()
+            .collect::<Vec<(String, String)>>();
+        let mut view_id =
+            xml_doc_mut.get_first_element_id(vec!["bookViews", "workbookView"], None)?;
+        if view_id.is_none() && (!settings.is_empty() || active_tab.unwrap_or(0) > 0) {
+            let book_views_id = match xml_doc_mut.get_first_element_id(vec!["bookViews"], None)? {
+                Some(book_views_id) => book_views_id,
+                None => xml_doc_mut
+                    .insert_children_after_tag_mut("bookViews", "fileVersion", None)
+                    .context("Create book views Node Failed")?
+                    .get_id(),
+            };
+            view_id = Some(
+                xml_doc_mut
+                    .append_child_mut("workbookView", Some(&book_views_id))
+                    .context("Failed to create workbook view")?
+                    .get_id(),
+            );
+        }
+        if let Some(first_view_id) = view_id {
+            let book_views_id = xml_doc_mut
+                .get_element(&first_view_id)
+                .ok_or(anyhow!("Failed to find workbook view"))?
+                .get_parent_id();
+            for element_id in xml_doc_mut.get_child_ids(&book_views_id) {
+                if let Some(element) = xml_doc_mut
+                    .get_element_mut(&element_id)
+                    .filter(|element| element.get_tag() == "workbookView")
+                {
+                    let mut attributes = element.get_attribute().cloned().unwrap_or_default();
+                    // The view refers to sheets by position
+                    for name in ["firstSheet", "activeTab"] {
+                        let position = attributes
+                            .get(name)
+                            .and_then(|position| position.trim().parse::<usize>().ok());
+                        match position.and_then(|position| positions.get(position)) {
+                            Some(Some(new)) if position != Some(*new) => {
+                                attributes.insert(name.to_string(), new.to_string());
+                            }
+                            Some(None) => {
+                                attributes.remove(name);
+                            }
+                            _ => {}
+                        }
+                    }
+                    if element_id == first_view_id {
+                        if let Some(active_tab) = active_tab {
+                            let current = attributes
+                                .get("activeTab")
+                                .map_or(Some(0), |position| position.trim().parse().ok());
+                            if current != Some(active_tab) {
+                                attributes.insert("activeTab".to_string(), active_tab.to_string());
+                            }
+                        }
+                        attributes.extend(settings.clone());
+                    }
+                    element
+                        .set_attribute_mut(attributes)
+                        .context("Failed to set workbook view attributes")?;
+                }
+            }
+        }
+        Ok(())
+    }
+
+    /// Local names refer to their sheet by position, they leave along with their sheet
+    fn serialize_defined_names(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        let positions = self.get_sheet_positions()?;
+        if let Some(defined_names_id) =
+            xml_doc_mut.get_first_element_id(vec!["definedNames"], None)?
+        {
+            let element_ids = xml_doc_mut.get_child_ids(&defined_names_id);
+            for element_id in element_ids.iter() {
+                if let Some(element) = xml_doc_mut.get_element_mut(element_id) {
+                    let mut attributes = element.get_attribute().cloned().unwrap_or_default();
+                    let position = attributes
+                        .get("localSheetId")
+                        .and_then(|position| position.trim().parse::<usize>().ok());
+                    match position.and_then(|position| positions.get(position)) {
+                        Some(Some(new)) if position != Some(*new) => {
+                            attributes.insert("localSheetId".to_string(), new.to_string());
+                            element.set_attribute_mut(attributes)?;
+                        }
+                        Some(None) => {
+                            xml_doc_mut.delete_child_mut(element_id, Some(&defined_names_id));
+                        }
+                        _ => {}
+                    }
+                }
+            }
+            if !element_ids.is_empty() && xml_doc_mut.get_child_ids(&defined_names_id).is_empty() {
+                xml_doc_mut.delete_child_mut(&defined_names_id, None);
+            }
+        }
+        Ok(())
+    }
+
+    /// Write Sheet Records to Workbook
+    fn serialize_sheets(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        const RELATIONSHIP_NAMESPACE: [&str; 2] = [
+            "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
+            "http://purl.oclc.org/ooxml/officeDocument/relationships",
+        ];
+        let sheets_id = match xml_doc_mut.get_first_element_id(vec!["sheets"], None)? {
+            Some(sheets_id) => sheets_id,
+            None => xml_doc_mut
+                .insert_children_after_tag_mut("sheets", "bookViews", None)
+                .context("Create Sheets Node Failed")?
+                .get_id(),
+        };
+        let relationship_prefix = xml_doc_mut
+            .get_root()
+            .and_then(|root| root.get_namespace())
+            .unwrap_or_default()
+            .into_iter()
+            .filter(|(prefix, uri)| {
+                prefix != "<Default>" && RELATIONSHIP_NAMESPACE.contains(&uri.as_str())
+            })
+            .map(|(prefix, _)| prefix)
+            .min();
+        let sheet_collection = self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Name Collection")?;
+        // The ID of a sheet stays with the sheet
+        let mut max_sheet_id: u32 = sheet_collection
+            .iter()
+            .filter_map(|(.., attributes)| attributes.get("sheetId")?.trim().parse().ok())
+            .max()
+            .unwrap_or(0);
+        for (sheet_display_name, relationship_id, _, hide, attributes) in sheet_collection.iter() {
+            let mut attributes = attributes.clone();
+            if !attributes.contains_key("sheetId") {
+                max_sheet_id += 1;
+                attributes.insert("sheetId".to_string(), max_sheet_id.to_string());
+            }
+            if !attributes.keys().any(|key| key.ends_with(":id")) {
+                if relationship_prefix.is_none() {
+                    attributes.insert(
+                        "xmlns:r".to_string(),
+                        RELATIONSHIP_NAMESPACE[0].to_string(),
+                    );
+                }
+                attributes.insert(
+                    format!("{}:id", relationship_prefix.as_deref().unwrap_or("r")),
+                    relationship_id.to_string(),
+                );
+            }
+            attributes.insert("name".to_string(), sheet_display_name.to_string());
+            if *hide && attributes.get("state").is_none_or(|state| state == "visible") {
+                attributes.insert("state".to_string(), "hidden".to_string());
+            }
+            xml_doc_mut
+                .append_child_mut("sheet", Some(&sheets_id))
+                .context("Create Sheet Node Failed")?
+                .set_attribute_mut(attributes)
+                .context("Sheet Attributes Failed")?;
+        }
+        Ok(())
+    }
 }
 
 // ############################# Feature Function ######################################
@@ -492,7 +502,7 @@ impl WorkbookPart {
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .map(|(sheet_name, _, _, _)| sheet_name.to_string())
+            .map(|(sheet_name, ..)| sheet_name.to_string())
             .collect::<Vec<String>>())
     }
 }
@@ -531,65 +541,34 @@ impl WorkbookPart {
 
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, active_sheet, _) in self
+        let mut sheet_collection = self
             .sheet_collection
             .try_borrow_mut()
-            .context("Failed to pull Sheet Collection Handle")?
-            .iter_mut()
-        {
-            if current_sheet_name == sheet_name {
-                *active_sheet = true
-            } else {
-                *active_sheet = false
-            }
+            .context("Failed to pull Sheet Collection Handle")?;
+        if !sheet_collection.iter().any(|item| item.0 == sheet_name) {
+            return Err(anyhow!("Sheet Name not found in the stack"));
+        }
+        for (current_sheet_name, _, active_sheet, ..) in sheet_collection.iter_mut() {
+            *active_sheet = current_sheet_name == sheet_name;
         }
         Ok(())
     }
 
     /// Set workbook visibility
     pub(crate) fn set_visibility_mut(&mut self, is_visible: bool) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.visibility = if is_visible {
-                Some("visible".to_string())
-            } else {
-                Some("hidden".to_string())
-            }
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                visibility: if is_visible {
-                    Some("visible".to_string())
-                } else {
-                    Some("hidden".to_string())
-                },
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view.visibility = Some(is_visible);
         Ok(())
     }
 
     /// Set workbook minimized
     pub(crate) fn minimize_workbook_mut(&mut self, is_minimized: bool) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.minimize = is_minimized;
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                minimize: is_minimized,
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view.minimize = Some(is_minimized);
         Ok(())
     }
 
     /// Set visibility of sheet tabs in workbook
     pub(crate) fn hide_sheet_tabs_mut(&mut self, hide_sheet_tab: bool) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.hide_sheet_tab = hide_sheet_tab;
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                hide_sheet_tab,
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view.hide_sheet_tab = Some(hide_sheet_tab);
         Ok(())
     }
 
@@ -598,14 +577,7 @@ impl WorkbookPart {
         &mut self,
         hide_vertical_scroll: bool,
     ) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.hide_vertical_scroll = hide_vertical_scroll;
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                hide_vertical_scroll,
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view.hide_vertical_scroll = Some(hide_vertical_scroll);
         Ok(())
     }
 
@@ -614,31 +586,19 @@ impl WorkbookPart {
         &mut self,
         hide_horizontal_scroll: bool,
     ) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.hide_horizontal_scroll = hide_horizontal_scroll;
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                hide_horizontal_scroll,
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view.hide_horizontal_scroll = Some(hide_horizontal_scroll);
         Ok(())
     }
 
     /// Hide sheet on opening the excel
     pub(crate) fn hide_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, _, hide_sheet) in self
-            .sheet_collection
+        self.sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
             .iter_mut()
-        {
-            if current_sheet_name == sheet_name {
-                *hide_sheet = true
-            } else {
-                *hide_sheet = false
-            }
-        }
+            .find(|item| item.0 == sheet_name)
+            .ok_or(anyhow!("Sheet Name not found in the stack"))?
+            .3 = true;
         Ok(())
     }
 
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 936ee63..50ab895 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -10,6 +10,7 @@ use crate::{
     order_dictionary::EXCEL_ORDER_COLLECTION,
     spreadsheet_2007::{
         models::{CellDataType, CellProperties, ColumnProperties, RowProperties, StyleId},
+        parts::SheetRecord,
         services::CommonServices,
     },
 };
@@ -118,7 +119,7 @@ pub struct WorkSheet {
     xml_document: Weak<RefCell<XmlDocument>>,
     common_service: Weak<RefCell<CommonServices>>,
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
-    sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+    sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
     dimension: Dimension,
     // sheet_property: Option<_>,
@@ -214,7 +215,7 @@ impl WorkSheet {
     /// Create New object for the group
     pub(crate) fn new(
         office_document: Weak<RefCell<OfficeDocument>>,
-        sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: Weak<RefCell<RelationsPart>>,
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
@@ -1031,7 +1032,7 @@ impl WorkSheet {
     fn get_sheet_file_name(
         sheet_name: Option<String>,
         office_document: &Weak<RefCell<OfficeDocument>>,
-        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: &Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<(String, String), AnyError> {
         let worksheet_content = EXCEL_TYPE_COLLECTION.get("worksheet").unwrap();
@@ -1039,7 +1040,7 @@ impl WorkSheet {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
                 if let Some(sheet_name) = sheet_name.clone() {
                     // If the Sheet name already exist get the path of sheet name
-                    if let Some((_, rel_id, _, _)) = sheet_collection
+                    if let Some((_, rel_id, ..)) = sheet_collection
                         .try_borrow()
                         .context("Failed to Get Sheet Collection")?
                         .iter()
@@ -1108,7 +1109,13 @@ impl WorkSheet {
                 sheet_collection
                     .try_borrow_mut()
                     .context("Failed To pull Sheet Collection Handle")?
-                    .push((sheet_name.clone(), relationship_id, false, false));
+                    .push((
+                        sheet_name.clone(),
+                        relationship_id,
+                        false,
+                        false,
+                        HashMap::new(),
+                    ));
                 return Ok((
                     format!(
                         "{}/{}{}.{}",
-- 
2.43.0


From 69ed30dd1b404138294193744a1fd01708636274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 17/32] fix: part names that differ in case only are the same
 part name

---
 rs/src/files/office_document.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index e6bad82..5b98ad8 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -50,8 +50,11 @@ impl OfficeDocument {
     }
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
-        self.archive_collection.contains_key(&file_path)
-            || self.xml_document_collection.contains_key(&file_path)
+        // Part names that differ in case only are the same name
+        self.archive_collection
+            .keys()
+            .chain(self.xml_document_collection.keys())
+            .any(|key| key.eq_ignore_ascii_case(&file_path))
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
-- 
2.43.0


From cc6ebc9d7fdd3346468cc0104d3b999aae92cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 18/32] fix: refuse bad cell addresses and values, keep
 untouched rows, cells, columns and views of a sheet in place, delete a sheet
 along with its relations and calculation chain entries

---
 rs/src/files/xml/xml_tree.rs                  |   32 +
 .../spreadsheet_2007/parts/workbook.rs        |    1 +
 .../spreadsheet_2007/parts/worksheet.rs       | 1483 ++++++-----------
 .../services/calculation_chain.rs             |   84 +-
 .../services/common_service.rs                |   11 +
 rs/src/utils/converters.rs                    |   79 +-
 6 files changed, 719 insertions(+), 971 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index bea04c3..d20f775 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -163,6 +163,38 @@ impl XmlDocument {
         self.xml_element_collection.remove(element_id);
     }
 
+    /// Remove all the child reference from parent, the elements stay in collection
+    pub(crate) fn detach_children_mut(&mut self, parent_id: &usize) -> Vec<(usize, String)> {
+        if let Some(parent_element) = self.xml_element_collection.get(parent_id) {
+            parent_element
+                .children
+                .borrow_mut()
+                .drain(..)
+                .map(|item| (item.id, item.tag))
+                .collect()
+        } else {
+            Vec::new()
+        }
+    }
+
+    /// Add element of the collection as last child of the parent
+    pub(crate) fn attach_child_mut(
+        &mut self,
+        element_id: &usize,
+        parent_id: &usize,
+    ) -> AnyResult<(), AnyError> {
+        let element = self
+            .xml_element_collection
+            .get_mut(element_id)
+            .ok_or(anyhow!("Element Not Found"))?;
+        element.set_parent_id_mut(*parent_id);
+        let tag = element.get_tag().to_string();
+        self.xml_element_collection
+            .get_mut(parent_id)
+            .ok_or(anyhow!("Parent Element Not Found"))?
+            .append_children_mut(*element_id, &tag)
+    }
+
     /// Insert Children Before specific Tag
     pub(crate) fn insert_children_before_tag_mut(
         &mut self,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index f21f1c2..cf5abb7 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -607,6 +607,7 @@ impl WorkbookPart {
         old_sheet_name: &str,
         new_sheet_name: &str,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::validate_xml_text(new_sheet_name)?;
         // Check if sheet with same name exist
         if self
             .sheet_collection
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 50ab895..7c88b89 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -18,99 +18,34 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     cmp::{max, min},
-    collections::{BTreeMap, HashMap, VecDeque},
+    collections::{BTreeMap, HashMap},
     rc::{Rc, Weak},
 };
 
-#[derive(Debug)]
+#[derive(Debug, Default)]
 pub(crate) struct RowData {
-    row_record: RowProperties,
-    cell_records: Option<BTreeMap<u16, CellProperties>>,
-}
-
-#[derive(Debug)]
-pub(crate) struct Dimension {
-    start_col: u16,
-    end_col: u16,
-}
-
-impl Default for Dimension {
-    fn default() -> Self {
-        Self {
-            start_col: 16384,
-            end_col: 1,
-        }
-    }
-}
-
-#[derive(Debug)]
-pub(crate) struct WorkSheetViewSelection {
-    pane: Option<String>,
-    active_cell: Option<String>,
-    active_cell_id: Option<String>,
-    sq_ref: Option<String>,
+    /// Element of the opened file, it stays in the document
+    element_id: Option<usize>,
+    /// Child elements of the row that are not cells
+    further_elements: Vec<usize>,
+    /// Properties set since the file is opened
+    row_record: Option<RowProperties>,
+    cell_records: BTreeMap<u16, CellData>,
 }
 
 #[derive(Debug)]
-pub(crate) struct WorkSheetView {
-    selection_collection: Option<Vec<WorkSheetViewSelection>>,
-    workbook_view_id: String,
-    default_grid_color: Option<bool>,
-    view_right_to_left: Option<bool>,
-    show_formula_bar: Option<bool>,
-    show_grid_line: Option<bool>,
-    show_outline_symbol: Option<bool>,
-    show_row_col_header: Option<bool>,
-    show_ruler: Option<bool>,
-    show_white_space: Option<bool>,
-    show_zero: Option<bool>,
-    tab_selected: Option<bool>,
-    top_left_cell: Option<String>,
-    view: Option<String>,
-    window_protection: Option<bool>,
-    zoom_scale: Option<i16>,
-    zoom_scale_normal: Option<i16>,
-    zoom_scale_page_layout: Option<i16>,
-    zoom_scale_sheet_layout: Option<i16>,
-}
-
-impl Default for WorkSheetView {
-    fn default() -> Self {
-        Self {
-            workbook_view_id: "0".to_string(),
-            selection_collection: None,
-            default_grid_color: None,
-            view_right_to_left: None,
-            show_formula_bar: None,
-            show_grid_line: None,
-            show_outline_symbol: None,
-            show_row_col_header: None,
-            show_ruler: None,
-            show_white_space: None,
-            show_zero: None,
-            tab_selected: None,
-            top_left_cell: None,
-            view: None,
-            window_protection: None,
-            zoom_scale: None,
-            zoom_scale_normal: None,
-            zoom_scale_page_layout: None,
-            zoom_scale_sheet_layout: None,
-        }
-    }
+pub(crate) enum CellData {
+    /// Element of the opened file, it stays in the document till the cell is written
+    Loaded(usize),
+    Written(CellProperties),
 }
 
 #[derive(Debug)]
-pub(crate) struct WorkSheetViews {
-    view_collection: Vec<WorkSheetView>,
-}
-
-impl Default for WorkSheetViews {
-    fn default() -> Self {
-        Self {
-            view_collection: vec![WorkSheetView::default()],
-        }
-    }
+pub(crate) struct ColumnRecord {
+    min: u16,
+    max: u16,
+    /// Attributes other than the range
+    attributes: HashMap<String, String>,
 }
 
 #[derive(Debug)]
@@ -121,12 +56,10 @@ pub struct WorkSheet {
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
     sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
-    dimension: Dimension,
     // sheet_property: Option<_>,
-    sheet_views: WorkSheetViews,
     // sheet_format_property: Option<_>,
-    column_collection: Option<VecDeque<ColumnProperties>>,
-    sheet_data: Option<BTreeMap<u32, RowData>>,
+    column_collection: Vec<ColumnRecord>,
+    sheet_data: BTreeMap<u32, RowData>,
     // sheet_calculation_property:Option<_>
     // protected_range:Option<_>
     // merge_cells:Option<_>
@@ -236,7 +169,7 @@ impl WorkSheet {
             .inspect_err(|_| Self::discard_xml_document(&office_document, &file_path))
             .context("Creating Relation ship part for workbook failed.")?,
         ));
-        let (column_collection, sheet_data, sheet_views, dimension) = log_elapsed!(
+        let (column_collection, sheet_data) = log_elapsed!(
             || { Self::initialize_worksheet(&xml_document).context("Failed to open Worksheet") },
             "Worksheet Initialize Time"
         )
@@ -247,8 +180,6 @@ impl WorkSheet {
             common_service,
             workbook_relationship_part,
             sheet_relationship_part,
-            dimension,
-            sheet_views,
             sheet_collection,
             column_collection,
             sheet_data,
@@ -259,773 +190,446 @@ impl WorkSheet {
 
     fn initialize_worksheet(
         xml_document: &Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<
-        (
-            Option<VecDeque<ColumnProperties>>,
-            Option<BTreeMap<u32, RowData>>,
-            WorkSheetViews,
-            Dimension,
-        ),
-        AnyError,
-    > {
+    ) -> AnyResult<(Vec<ColumnRecord>, BTreeMap<u32, RowData>), AnyError> {
         if let Some(xml_document) = xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("Failed to get XML doc handle")?;
-            // unwrap dimension
-            xml_doc_mut.pop_elements_by_tag_mut("dimension", None);
+            // Chart sheet and dialog sheet are not supported
+            if xml_doc_mut
+                .get_root()
+                .is_none_or(|root| root.get_tag() != "worksheet")
+            {
+                return Err(anyhow!("The sheet is not a worksheet"));
+            }
             // unwrap columns to local collection
             let column_collection = log_elapsed!(
                 || { deserialize_cols(&mut xml_doc_mut).context("Failed To Deserialize Cols") },
                 "Column deserialize"
             )?;
             // unwrap sheet data into database
-            let (sheet_data, dimension) = log_elapsed!(
+            let sheet_data = log_elapsed!(
                 || {
                     deserialize_sheet_data(&mut xml_doc_mut)
                         .context("Failed To Deserialize Sheet Data")
                 },
                 "Sheet Data Deserialize"
             )?;
-            let worksheet_views = log_elapsed!(
-                || {
-                    deserialize_worksheet_views(&mut xml_doc_mut)
-                        .context("Failed to deserialize Worksheet View")
-                },
-                "Worksheet View Deserialization"
-            )?;
-            Ok((column_collection, sheet_data, worksheet_views, dimension))
+            Ok((column_collection, sheet_data))
         } else {
-            Ok((None, None, WorkSheetViews::default(), Dimension::default()))
+            Err(anyhow!("Failed to get XML doc handle"))
         }
     }
 
-    fn serialize_dimension(&mut self, xml_doc_mut: &mut XmlDocument) -> Result<(), AnyError> {
-        fn set_default(xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-            let mut dimension_attribute = HashMap::new();
-            dimension_attribute.insert("ref".to_string(), "A1".to_string());
-            xml_doc_mut
+    /// Range that covers the cells
+    fn serialize_dimension(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        let mut range: Option<(u32, u32, u16, u16)> = None;
+        for (row_index, row) in self.sheet_data.iter() {
+            if let (Some((first_col, _)), Some((last_col, _))) = (
+                row.cell_records.first_key_value(),
+                row.cell_records.last_key_value(),
+            ) {
+                range = Some(match range {
+                    Some((start_row, _, start_col, end_col)) => (
+                        start_row,
+                        *row_index,
+                        min(start_col, *first_col),
+                        max(end_col, *last_col),
+                    ),
+                    None => (*row_index, *row_index, *first_col, *last_col),
+                });
+            }
+        }
+        let reference = match range {
+            Some((start_row, end_row, start_col, end_col)) => {
+                let start = format!("{}{}", ConverterUtil::get_column_ref(start_col)?, start_row);
+                let end = format!("{}{}", ConverterUtil::get_column_ref(end_col)?, end_row);
+                if start == end {
+                    start
+                } else {
+                    format!("{}:{}", start, end)
+                }
+            }
+            None => "A1".to_string(),
+        };
+        let dimension_id = match xml_doc_mut.get_first_element_id(vec!["dimension"], None)? {
+            Some(dimension_id) => dimension_id,
+            None => xml_doc_mut
                 .append_child_mut("dimension", None)
                 .context("Failed to Add Dimension node to worksheet")?
-                .set_attribute_mut(dimension_attribute)
+                .get_id(),
+        };
+        if let Some(element) = xml_doc_mut.get_element_mut(&dimension_id) {
+            let mut attributes = element.get_attribute().cloned().unwrap_or_default();
+            attributes.insert("ref".to_string(), reference);
+            element
+                .set_attribute_mut(attributes)
                 .context("Failed to set attribute value to dimension")?;
-            Ok(())
-        }
-        if let Some(sheet_data) = self.sheet_data.as_ref() {
-            if let Some(first_item) = sheet_data.first_key_value() {
-                let mut dimension_attribute = HashMap::new();
-                dimension_attribute.insert(
-                    "ref".to_string(),
-                    format!(
-                        "{}{}:{}{}",
-                        ConverterUtil::get_column_ref(self.dimension.start_col)
-                            .context("Failed to convert dim col start")?,
-                        first_item.0,
-                        ConverterUtil::get_column_ref(self.dimension.end_col)
-                            .context("Failed to convert dim col end")?,
-                        if let Some(row_end) = sheet_data.last_key_value() {
-                            row_end.0
-                        } else {
-                            first_item.0
-                        }
-                    ),
-                );
-                xml_doc_mut
-                    .append_child_mut("dimension", None)
-                    .context("Failed to Add Dimension node to worksheet")?
-                    .set_attribute_mut(dimension_attribute)
-                    .context("Failed to set attribute value to dimension")?;
-            } else {
-                set_default(xml_doc_mut)?;
-            }
-        } else {
-            set_default(xml_doc_mut)?;
         }
         Ok(())
     }
 
     fn serialize_cols(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        if let Some(mut column_collection) = self.column_collection.take() {
-            if column_collection.len() > 0 {
-                let cols_id = xml_doc_mut
-                    .insert_children_after_tag_mut("cols", "sheetFormatPr", None)
-                    .context("Failed to Insert Cols Element")?
-                    .get_id();
-                loop {
-                    if let Some(item) = column_collection.pop_front() {
-                        let mut attribute = HashMap::new();
-                        attribute.insert("min".to_string(), item.min.to_string());
-                        attribute.insert("max".to_string(), item.max.to_string());
-                        if let Some(width) = item.width {
-                            attribute.insert("customWidth".to_string(), "1".to_string());
-                            attribute.insert("width".to_string(), width.to_string());
-                        }
-                        if let Some(style_id) = item.style_id {
-                            attribute.insert("style".to_string(), style_id.id.to_string());
-                        }
-                        if let Some(_) = item.hidden {
-                            attribute.insert("hidden".to_string(), "1".to_string());
-                        }
-                        if let Some(_) = item.best_fit {
-                            attribute.insert("bestFit".to_string(), "1".to_string());
-                        }
-                        xml_doc_mut
-                            .append_child_mut("col", Some(&cols_id))
-                            .context("Failed to insert col record")?
-                            .set_attribute_mut(attribute)
-                            .context("Failed to Add Attribute to col element")?;
-                    } else {
-                        break;
-                    }
+        let cols_id = xml_doc_mut.get_first_element_id(vec!["cols"], None)?;
+        if self.column_collection.is_empty() {
+            // Element without column is not valid
+            if let Some(cols_id) = cols_id {
+                if xml_doc_mut.get_child_ids(&cols_id).is_empty() {
+                    xml_doc_mut.delete_child_mut(&cols_id, None);
                 }
             }
+            return Ok(());
+        }
+        let cols_id = match cols_id {
+            Some(cols_id) => cols_id,
+            None => xml_doc_mut
+                .insert_children_after_tag_mut("cols", "sheetFormatPr", None)
+                .context("Failed to Insert Cols Element")?
+                .get_id(),
+        };
+        self.column_collection.sort_by_key(|column| column.min);
+        for column in self.column_collection.drain(..) {
+            let mut attributes = column.attributes;
+            attributes.insert("min".to_string(), column.min.to_string());
+            attributes.insert("max".to_string(), column.max.to_string());
+            xml_doc_mut
+                .append_child_mut("col", Some(&cols_id))
+                .context("Failed to insert col record")?
+                .set_attribute_mut(attributes)
+                .context("Failed to Add Attribute to col element")?;
         }
         Ok(())
     }
 
-    fn serialize_sheet_views(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        let sheet_views_id = xml_doc_mut
-            .insert_children_after_tag_mut("sheetViews", "dimension", None)
-            .context("Failed to Insert Sheet Views Element")?
-            .get_id();
-        loop {
-            if let Some(sheet_view) = self.sheet_views.view_collection.pop() {
-                let mut attribute: HashMap<String, String> = HashMap::new();
-                attribute.insert("workbookViewId".to_string(), sheet_view.workbook_view_id);
-                if let Some(window_protection) = sheet_view.window_protection {
-                    attribute.insert(
-                        "windowProtection".to_string(),
-                        ConverterUtil::bool_xml_flag(&window_protection),
-                    );
-                }
-                if let Some(show_formula_bar) = sheet_view.show_formula_bar {
-                    attribute.insert(
-                        "showFormulas".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_formula_bar),
-                    );
-                }
-                if let Some(show_grid_line) = sheet_view.show_grid_line {
-                    attribute.insert(
-                        "showGridLines".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_grid_line),
-                    );
-                }
-                if let Some(show_row_col_header) = sheet_view.show_row_col_header {
-                    attribute.insert(
-                        "showRowColHeaders".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_row_col_header),
-                    );
-                }
-                if let Some(show_zero) = sheet_view.show_zero {
-                    attribute.insert(
-                        "showZeros".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_zero),
-                    );
-                }
-                if let Some(view_right_to_left) = sheet_view.view_right_to_left {
-                    attribute.insert(
-                        "rightToLeft".to_string(),
-                        ConverterUtil::bool_xml_flag(&view_right_to_left),
-                    );
-                }
-                if let Some(tab_selected) = sheet_view.tab_selected {
-                    attribute.insert(
-                        "tabSelected".to_string(),
-                        ConverterUtil::bool_xml_flag(&tab_selected),
-                    );
-                }
-                if let Some(show_ruler) = sheet_view.show_ruler {
-                    attribute.insert(
-                        "showRuler".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_ruler),
-                    );
-                }
-                if let Some(show_white_space) = sheet_view.show_white_space {
-                    attribute.insert(
-                        "showWhiteSpace".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_white_space),
-                    );
-                }
-                if let Some(show_outline_symbol) = sheet_view.show_outline_symbol {
-                    attribute.insert(
-                        "showOutlineSymbols".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_outline_symbol),
-                    );
-                }
-                if let Some(default_grid_color) = sheet_view.default_grid_color {
-                    attribute.insert(
-                        "defaultGridColor".to_string(),
-                        ConverterUtil::bool_xml_flag(&default_grid_color),
-                    );
-                }
-                if let Some(top_left_cell) = sheet_view.top_left_cell {
-                    attribute.insert("topLeftCell".to_string(), top_left_cell);
-                }
-                if let Some(view) = sheet_view.view {
-                    attribute.insert("view".to_string(), view);
-                }
-                if let Some(zoom_scale) = sheet_view.zoom_scale {
-                    attribute.insert("zoomScale".to_string(), zoom_scale.to_string());
-                }
-                if let Some(zoom_scale_normal) = sheet_view.zoom_scale_normal {
-                    attribute.insert("zoomScaleNormal".to_string(), zoom_scale_normal.to_string());
-                }
-                if let Some(zoom_scale_sheet_layout) = sheet_view.zoom_scale_sheet_layout {
-                    attribute.insert(
-                        "zoomScaleSheetLayoutView".to_string(),
-                        zoom_scale_sheet_layout.to_string(),
-                    );
-                }
-                if let Some(zoom_scale_page_layout) = sheet_view.zoom_scale_page_layout {
-                    attribute.insert(
-                        "zoomScalePageLayoutView".to_string(),
-                        zoom_scale_page_layout.to_string(),
-                    );
-                }
-                xml_doc_mut
-                    .append_child_mut("sheetView", Some(&sheet_views_id))
-                    .context("Failed to insert sheetView record")?
-                    .set_attribute_mut(attribute)
-                    .context("Failed to Add Attribute to sheetView element")?;
-            } else {
-                break;
-            }
+    /// Views of the opened file stay in the document, a sheet has one view at least
+    fn serialize_sheet_views(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        if xml_doc_mut
+            .get_first_element_id(vec!["sheetViews"], None)?
+            .is_none()
+        {
+            let sheet_views_id = xml_doc_mut
+                .insert_children_after_tag_mut("sheetViews", "dimension", None)
+                .context("Failed to Insert Sheet Views Element")?
+                .get_id();
+            xml_doc_mut
+                .append_child_mut("sheetView", Some(&sheet_views_id))
+                .context("Failed to insert sheetView record")?
+                .set_attribute_mut(HashMap::from([(
+                    "workbookViewId".to_string(),
+                    "0".to_string(),
+                )]))
+                .context("Failed to Add Attribute to sheetView element")?;
         }
         Ok(())
     }
 
     fn serialize_sheet_data(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        if let Some(sheet_data) = self.sheet_data.take() {
-            let sheet_data_id = xml_doc_mut
+        let sheet_data_id = match xml_doc_mut.get_first_element_id(vec!["sheetData"], None)? {
+            Some(sheet_data_id) => sheet_data_id,
+            None => xml_doc_mut
                 .insert_children_after_tag_mut("sheetData", "cols", None)
-                .context("Failed to Insert Cols Element")?
-                .get_id();
-            for (row_index, db_row) in sheet_data {
-                let row_element = xml_doc_mut
+                .context("Failed to Insert Sheet Data Element")?
+                .get_id(),
+        };
+        for (row_index, row) in std::mem::take(&mut self.sheet_data) {
+            let row_id = match row.element_id {
+                Some(row_id) => {
+                    xml_doc_mut.attach_child_mut(&row_id, &sheet_data_id)?;
+                    row_id
+                }
+                None => xml_doc_mut
                     .append_child_mut("row", Some(&sheet_data_id))
-                    .context("Failed to insert row element")?;
-                let row_element_id = row_element.get_id();
-                let mut row_attribute = HashMap::new();
-                row_attribute.insert("r".to_string(), row_index.to_string());
-                if let Some(row_span) = db_row.row_record.span {
-                    row_attribute.insert("spans".to_string(), row_span);
-                }
-                if let Some(row_style_id) = db_row.row_record.style_id {
-                    row_attribute.insert("customFormat".to_string(), "1".to_string());
-                    row_attribute.insert("s".to_string(), row_style_id.id.to_string());
-                }
-                if let Some(row_height) = db_row.row_record.height {
-                    row_attribute.insert("customHeight".to_string(), "1".to_string());
-                    row_attribute.insert("ht".to_string(), row_height.to_string());
-                }
-                if let Some(_) = db_row.row_record.hidden {
-                    row_attribute.insert("hidden".to_string(), "1".to_string());
-                }
-                if let Some(row_group_level) = db_row.row_record.group_level {
-                    row_attribute.insert("outlineLevel".to_string(), row_group_level.to_string());
-                }
-                if let Some(_) = db_row.row_record.collapsed {
-                    row_attribute.insert("collapsed".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.thick_top {
-                    row_attribute.insert("thickTop".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.thick_bottom {
-                    row_attribute.insert("thickBot".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.place_holder {
-                    row_attribute.insert("ph".to_string(), "1".to_string());
-                }
-                row_element
-                    .set_attribute_mut(row_attribute)
-                    .context("Failed to set attribute for row")?;
-                if let Some(cols) = db_row.cell_records {
-                    for (col_index, cell_record) in cols {
-                        // Create cell element
+                    .context("Failed to insert row element")?
+                    .get_id(),
+            };
+            let row_element = xml_doc_mut
+                .get_element_mut(&row_id)
+                .ok_or(anyhow!("Failed to get row element"))?;
+            let mut row_attribute = row_element.get_attribute().cloned().unwrap_or_default();
+            row_attribute.insert("r".to_string(), row_index.to_string());
+            if row
+                .cell_records
+                .values()
+                .any(|cell| matches!(cell, CellData::Written(_)))
+            {
+                // The cells may have left the span, it is optional
+                row_attribute.remove("spans");
+            }
+            if let Some(row_record) = row.row_record {
+                set_row_attributes(&mut row_attribute, row_record);
+            }
+            row_element
+                .set_attribute_mut(row_attribute)
+                .context("Failed to set attribute for row")?;
+            for (col_index, cell) in row.cell_records {
+                let cell_ref = format!(
+                    "{}{}",
+                    ConverterUtil::get_column_ref(col_index)
+                        .context("Failed to get Char Id from Int")?,
+                    row_index
+                );
+                match cell {
+                    CellData::Loaded(cell_id) => {
+                        xml_doc_mut.attach_child_mut(&cell_id, &row_id)?;
                         let cell_element = xml_doc_mut
-                            .append_child_mut("c", Some(&row_element_id))
-                            .context("Failed to insert row element")?;
-                        let cell_id = cell_element.get_id();
-                        let mut cell_attribute = HashMap::new();
-                        cell_attribute.insert(
-                            "r".to_string(),
-                            format!(
-                                "{}{}",
-                                ConverterUtil::get_column_ref(col_index)
-                                    .context("Failed to get Char Id from Int")?,
-                                row_index
-                            ),
-                        );
-                        if let Some(cell_style_id) = cell_record.style_id {
-                            cell_attribute.insert("s".to_string(), cell_style_id.id.to_string());
-                        }
-                        if cell_record.data_type != CellDataType::Number {
-                            cell_attribute.insert(
-                                "t".to_string(),
-                                CellDataType::get_string(cell_record.data_type),
-                            );
-                        }
-                        if let Some(cell_comment_id) = cell_record.comment_id {
-                            cell_attribute.insert("cm".to_string(), cell_comment_id.to_string());
-                        }
-                        if let Some(cell_metadata) = cell_record.metadata {
-                            cell_attribute.insert("vm".to_string(), cell_metadata.to_string());
-                        }
-                        if let Some(_) = cell_record.place_holder {
-                            cell_attribute.insert("ph".to_string(), "1".to_string());
-                        }
+                            .get_element_mut(&cell_id)
+                            .ok_or(anyhow!("Failed to get cell element"))?;
+                        let mut attributes =
+                            cell_element.get_attribute().cloned().unwrap_or_default();
+                        attributes.insert("r".to_string(), cell_ref);
                         cell_element
-                            .set_attribute_mut(cell_attribute)
+                            .set_attribute_mut(attributes)
                             .context("Failed to Set Attribute for cell")?;
-                        // Create cell's child element
-                        match cell_record.data_type {
-                            CellDataType::InlineString => {
-                                let inline_string_id = xml_doc_mut
-                                    .append_child_mut("is", Some(&cell_id))
-                                    .context("Failed to insert Inline string element")?
-                                    .get_id();
-                                let text_element = xml_doc_mut
-                                    .append_child_mut("t", Some(&inline_string_id))
-                                    .context("Failed To insert Text Value to inline string")?;
-                                text_element.set_value_mut(
-                                    if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    },
-                                );
-                            }
-                            _ => {
-                                if let Some(formula) = cell_record.formula {
-                                    let formula_element = xml_doc_mut
-                                        .append_child_mut("f", Some(&cell_id))
-                                        .context("Failed to insert Inline string element")?;
-                                    formula_element.set_value_mut(formula);
-                                }
-                                xml_doc_mut
-                                    .append_child_mut("v", Some(&cell_id))
-                                    .context("Failed to insert Inline string element")?
-                                    .set_value_mut(if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    });
-                            }
-                        }
+                    }
+                    CellData::Written(cell_record) => {
+                        serialize_cell(xml_doc_mut, &row_id, cell_ref, cell_record)?
                     }
                 }
             }
+            for element_id in row.further_elements {
+                xml_doc_mut.attach_child_mut(&element_id, &row_id)?;
+            }
         }
         Ok(())
     }
 }
 
-fn deserialize_cols(
+/// Attributes without a property stay as they are
+fn set_row_attributes(row_attribute: &mut HashMap<String, String>, row_record: RowProperties) {
+    for name in [
+        "s",
+        "customFormat",
+        "ht",
+        "customHeight",
+        "hidden",
+        "thickTop",
+        "thickBot",
+    ] {
+        row_attribute.remove(name);
+    }
+    if let Some(row_style_id) = row_record.style_id {
+        row_attribute.insert("customFormat".to_string(), "1".to_string());
+        row_attribute.insert("s".to_string(), row_style_id.id.to_string());
+    }
+    if let Some(row_height) = row_record.height {
+        row_attribute.insert("customHeight".to_string(), "1".to_string());
+        row_attribute.insert("ht".to_string(), row_height.to_string());
+    }
+    if row_record.hidden == Some(true) {
+        row_attribute.insert("hidden".to_string(), "1".to_string());
+    }
+    if row_record.thick_top == Some(true) {
+        row_attribute.insert("thickTop".to_string(), "1".to_string());
+    }
+    if row_record.thick_bottom == Some(true) {
+        row_attribute.insert("thickBot".to_string(), "1".to_string());
+    }
+}
+
+fn serialize_cell(
     xml_doc_mut: &mut XmlDocument,
-) -> AnyResult<Option<VecDeque<ColumnProperties>>, AnyError> {
-    if let Some(mut cols_element) = xml_doc_mut.pop_elements_by_tag_mut("cols", None) {
-        // Process the columns record if parent node exist
-        if let Some(cols) = cols_element.pop() {
-            let mut column_collection = VecDeque::with_capacity(cols.get_child_count());
-            loop {
-                if let Some((col_elements, _)) = cols.pop_child_mut() {
-                    if let Some(col) = xml_doc_mut.pop_element_mut(&col_elements) {
-                        let mut column_properties = ColumnProperties::default();
-                        let attributes = col
-                            .get_attribute()
-                            .ok_or(anyhow!("Error Getting col attribute"))?;
-                        if let Some(min) = attributes.get("min") {
-                            column_properties.min =
-                                min.parse().context("Failed to parse min value")?;
-                        }
-                        if let Some(max) = attributes.get("max") {
-                            column_properties.max =
-                                max.parse().context("Failed to parse min value")?;
-                        }
-                        if let Some(best_fit) = attributes.get("bestFit") {
-                            column_properties.best_fit =
-                                if best_fit == "1" { Some(true) } else { None }
-                        }
-                        if let Some(hidden) = attributes.get("hidden") {
-                            column_properties.hidden = if hidden == "1" { Some(true) } else { None }
-                        }
-                        if let Some(style) = attributes.get("style") {
-                            column_properties.style_id = Some(StyleId::new(
-                                style.parse().context("Failed to parse style ID")?,
-                            ));
-                        }
-                        if let Some(outline_level) = attributes.get("outlineLevel") {
-                            column_properties.group_level =
-                                outline_level.parse().context("Failed to parse style ID")?;
-                        }
-                        if let Some(custom_width) = attributes.get("customWidth") {
-                            if custom_width == "1" {
-                                column_properties.width = Some(
-                                    attributes
-                                        .get("width")
-                                        .ok_or(anyhow!("Failed to get custom width"))?
-                                        .parse()
-                                        .context("Failed to parse custom width")?,
-                                );
-                            }
-                        }
-                        if let Some(collapsed) = attributes.get("collapsed") {
-                            column_properties.collapsed =
-                                if collapsed == "1" { Some(true) } else { None }
-                        }
-                        column_collection.push_back(column_properties);
-                    }
-                } else {
-                    break;
-                }
+    row_id: &usize,
+    cell_ref: String,
+    cell_record: CellProperties,
+) -> AnyResult<(), AnyError> {
+    // Create cell element
+    let cell_element = xml_doc_mut
+        .append_child_mut("c", Some(row_id))
+        .context("Failed to insert cell element")?;
+    let cell_id = cell_element.get_id();
+    let mut cell_attribute = HashMap::new();
+    cell_attribute.insert("r".to_string(), cell_ref);
+    if let Some(cell_style_id) = cell_record.style_id {
+        cell_attribute.insert("s".to_string(), cell_style_id.id.to_string());
+    }
+    if cell_record.data_type != CellDataType::Number {
+        cell_attribute.insert(
+            "t".to_string(),
+            CellDataType::get_string(cell_record.data_type),
+        );
+    }
+    if let Some(cell_comment_id) = cell_record.comment_id {
+        cell_attribute.insert("cm".to_string(), cell_comment_id.to_string());
+    }
+    if let Some(cell_metadata) = cell_record.metadata {
+        cell_attribute.insert("vm".to_string(), cell_metadata.to_string());
+    }
+    if let Some(_) = cell_record.place_holder {
+        cell_attribute.insert("ph".to_string(), "1".to_string());
+    }
+    cell_element
+        .set_attribute_mut(cell_attribute)
+        .context("Failed to Set Attribute for cell")?;
+    // Create cell's child element
+    if let Some(formula) = cell_record.formula {
+        xml_doc_mut
+            .append_child_mut("f", Some(&cell_id))
+            .context("Failed to insert formula element")?
+            .set_value_mut(formula);
+    }
+    match cell_record.data_type {
+        CellDataType::InlineString => {
+            let inline_string_id = xml_doc_mut
+                .append_child_mut("is", Some(&cell_id))
+                .context("Failed to insert Inline string element")?
+                .get_id();
+            let value = cell_record.value.unwrap_or_default();
+            let text_element = xml_doc_mut
+                .append_child_mut("t", Some(&inline_string_id))
+                .context("Failed To insert Text Value to inline string")?;
+            if value.trim() != value {
+                text_element.set_attribute_mut(HashMap::from([(
+                    "xml:space".to_string(),
+                    "preserve".to_string(),
+                )]))?;
+            }
+            text_element.set_value_mut(value);
+        }
+        _ => {
+            if let Some(value) = cell_record.value {
+                xml_doc_mut
+                    .append_child_mut("v", Some(&cell_id))
+                    .context("Failed to insert value element")?
+                    .set_value_mut(value);
             }
-            return Ok(Some(column_collection));
         }
     }
-    Ok(None)
+    Ok(())
 }
 
-/// DeSerializing Worksheet View
-fn deserialize_worksheet_views(
-    xml_doc_mut: &mut XmlDocument,
-) -> AnyResult<WorkSheetViews, AnyError> {
-    let mut worksheet_views = WorkSheetViews::default();
-    if let Some(mut sheet_views_elements) = xml_doc_mut.pop_elements_by_tag_mut("sheetViews", None)
-    {
-        if let Some(sheet_views_element) = sheet_views_elements.pop() {
-            loop {
-                if let Some((element_id, element_tag)) = sheet_views_element.pop_child_mut() {
-                    // Validate element that are not accounted
-                    if element_tag != "sheetView" {
-                        return Err(anyhow!("Failed to Process Sheet Views child"));
-                    } else {
-                        let sheet_view_element = xml_doc_mut
-                            .pop_element_mut(&element_id)
-                            .context("Failed to get Sheet View Element")?;
-                        let mut worksheet_view = WorkSheetView::default();
-                        let attributes = sheet_view_element
-                            .get_attribute()
-                            .context("Failed to Get Attributes of Sheet View")?;
-                        worksheet_view.workbook_view_id = attributes
-                            .get("workbookViewId")
-                            .context(
-                                "Mandatory attribute \"workbookViewId\" is missing from sheetView",
-                            )?
-                            .clone();
-                        // Windows protection
-                        if let Some(window_protection) = attributes.get("windowProtection") {
-                            worksheet_view.window_protection = Some(
-                                ConverterUtil::normalize_bool_property_bool(&window_protection),
-                            );
-                        }
-                        // Show formula
-                        if let Some(show_formula_bar) = attributes.get("showFormulas") {
-                            worksheet_view.show_formula_bar = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_formula_bar),
-                            );
-                        }
-                        // Show Grid Line
-                        if let Some(show_grid_line) = attributes.get("showGridLines") {
-                            worksheet_view.show_grid_line =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_grid_line));
-                        }
-                        // Show row column header
-                        if let Some(show_row_col_header) = attributes.get("showRowColHeaders") {
-                            worksheet_view.show_row_col_header = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_row_col_header),
-                            );
-                        }
-                        // Show Zero
-                        if let Some(show_zero) = attributes.get("showZeros") {
-                            worksheet_view.show_zero =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_zero));
-                        }
-                        // Right to Left
-                        if let Some(view_right_to_left) = attributes.get("rightToLeft") {
-                            worksheet_view.view_right_to_left = Some(
-                                ConverterUtil::normalize_bool_property_bool(&view_right_to_left),
-                            );
-                        }
-                        // Tab Selected
-                        if let Some(tab_selected) = attributes.get("tabSelected") {
-                            worksheet_view.tab_selected =
-                                Some(ConverterUtil::normalize_bool_property_bool(&tab_selected));
-                        }
-                        // show ruler
-                        if let Some(show_ruler) = attributes.get("showRuler") {
-                            worksheet_view.show_ruler =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_ruler));
-                        }
-                        // show white space
-                        if let Some(show_white_space) = attributes.get("showWhiteSpace") {
-                            worksheet_view.show_white_space =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_white_space));
-                        }
-                        // Show outlined Symbols
-                        if let Some(show_outline_symbol) = attributes.get("showOutlineSymbols") {
-                            worksheet_view.show_outline_symbol = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_outline_symbol),
-                            );
-                        }
-                        // Default Grid Color
-                        if let Some(default_grid_color) = attributes.get("defaultGridColor") {
-                            worksheet_view.default_grid_color = Some(
-                                ConverterUtil::normalize_bool_property_bool(&default_grid_color),
-                            );
-                        }
-                        // Top Left Cell
-                        if let Some(top_left_cell) = attributes.get("topLeftCell") {
-                            worksheet_view.top_left_cell = Some(top_left_cell.clone());
-                        }
-                        // View Setting
-                        if let Some(view) = attributes.get("view") {
-                            worksheet_view.view = Some(view.clone());
-                        }
-                        // Zoom Scale
-                        if let Some(zoom_scale) = attributes.get("zoomScale") {
-                            worksheet_view.zoom_scale = Some(
-                                zoom_scale
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Normal
-                        if let Some(zoom_scale_normal) = attributes.get("zoomScaleNormal") {
-                            worksheet_view.zoom_scale_normal = Some(
-                                zoom_scale_normal
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Sheet Layout View
-                        if let Some(zoom_scale_sheet_layout) =
-                            attributes.get("zoomScaleSheetLayoutView")
-                        {
-                            worksheet_view.zoom_scale_sheet_layout = Some(
-                                zoom_scale_sheet_layout
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Page Layout View
-                        if let Some(zoom_scale_page_layout) =
-                            attributes.get("zoomScalePageLayoutView")
-                        {
-                            worksheet_view.zoom_scale_page_layout = Some(
-                                zoom_scale_page_layout
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        worksheet_views.view_collection.push(worksheet_view);
-                    }
-                } else {
-                    break;
-                }
+/// Take the range out of the records
+fn release_columns(column_collection: &mut Vec<ColumnRecord>, start: u16, end: u16) {
+    let mut remaining = Vec::new();
+    for mut column in column_collection.drain(..) {
+        if column.max < start || column.min > end {
+            remaining.push(column);
+            continue;
+        }
+        if column.max > end {
+            remaining.push(ColumnRecord {
+                min: end + 1,
+                max: column.max,
+                attributes: column.attributes.clone(),
+            });
+        }
+        if column.min < start {
+            column.max = start - 1;
+            remaining.push(column);
+        }
+    }
+    *column_collection = remaining;
+}
+
+fn deserialize_cols(xml_doc_mut: &mut XmlDocument) -> AnyResult<Vec<ColumnRecord>, AnyError> {
+    let mut column_collection = Vec::new();
+    if let Some(cols_id) = xml_doc_mut.get_first_element_id(vec!["cols"], None)? {
+        // Process the columns record if parent node exist
+        for col in xml_doc_mut
+            .pop_elements_by_tag_mut("col", Some(&cols_id))
+            .unwrap_or_default()
+        {
+            let mut attributes = col.get_attribute().cloned().unwrap_or_default();
+            let mut column_index = |name: &str| -> AnyResult<u16, AnyError> {
+                attributes
+                    .remove(name)
+                    .ok_or(anyhow!("Error Getting col attribute"))?
+                    .trim()
+                    .parse()
+                    .context("Failed to parse column range")
+            };
+            let (start, end) = (column_index("min")?, column_index("max")?);
+            if start == 0 || start > end || end > ConverterUtil::MAX_COLUMN {
+                return Err(anyhow!("Column range is not part of the sheet"));
             }
+            // A later record replaces what it overlaps
+            release_columns(&mut column_collection, start, end);
+            column_collection.push(ColumnRecord {
+                min: start,
+                max: end,
+                attributes,
+            });
         }
     }
-    Ok(worksheet_views)
+    Ok(column_collection)
 }
 
-/// Deserialize Sheet Data
+/// Deserialize Sheet Data, the elements of rows and cells are put back in place on close
 fn deserialize_sheet_data(
     xml_doc_mut: &mut XmlDocument,
-) -> AnyResult<(Option<BTreeMap<u32, RowData>>, Dimension), AnyError> {
-    let mut dimension = Dimension::default();
-    if let Some(mut sheet_data_element) = xml_doc_mut.pop_elements_by_tag_mut("sheetData", None) {
-        if let Some(sheet_data) = sheet_data_element.pop() {
-            let mut sheet_data_collection: BTreeMap<u32, RowData> = BTreeMap::new();
-            // Loop All rows of sheet data
-            loop {
-                if let Some((row_element_id, _)) = sheet_data.pop_child_mut() {
-                    if let Some(row_element) = xml_doc_mut.pop_element_mut(&row_element_id) {
-                        let mut row_record = RowProperties::default();
-                        let row_attribute = row_element
-                            .get_attribute()
-                            .ok_or(anyhow!("Failed to pull Row Attribute."))?;
-                        // Get Row Id
-                        let row_index = row_attribute
-                            .get("r")
-                            .ok_or(anyhow!("Missing mandatory row id attribute"))?
-                            .parse()
-                            .context("Failed to parse row id")?;
-                        if let Some(row_span) = row_attribute.get("spans") {
-                            row_record.span = Some(row_span.to_string());
-                        }
-                        if let Some(style_id) = row_attribute.get("s") {
-                            if let Some(custom_formant) = row_attribute.get("customFormat") {
-                                row_record.style_id = if custom_formant == "1" {
-                                    Some(StyleId::new(
-                                        style_id
-                                            .parse()
-                                            .context("Failed to parse the row style id")?,
-                                    ))
-                                } else {
-                                    None
-                                };
-                            }
-                        }
-                        if let Some(hidden) = row_attribute.get("hidden") {
-                            row_record.hidden = if hidden == "1" { Some(true) } else { None };
-                        }
-                        if let Some(height) = row_attribute.get("ht") {
-                            if let Some(custom_height) = row_attribute.get("customHeight") {
-                                row_record.height = if custom_height == "1" {
-                                    Some(height.parse().context("Failed to parse the row height")?)
-                                } else {
-                                    None
-                                };
-                            }
-                        }
-                        if let Some(row_group_level) = row_attribute.get("outlineLevel") {
-                            let outline_level = row_group_level
-                                .parse()
-                                .context("Failed to parse the row group level")?;
-                            row_record.group_level = if outline_level > 0 {
-                                Some(outline_level)
-                            } else {
-                                None
-                            };
-                        }
-                        if let Some(collapsed) = row_attribute.get("collapsed") {
-                            row_record.collapsed = if collapsed == "1" { Some(true) } else { None };
-                        }
-                        if let Some(thick_top) = row_attribute.get("thickTop") {
-                            row_record.thick_top = if thick_top == "1" { Some(true) } else { None };
-                        }
-                        if let Some(thick_bottom) = row_attribute.get("thickBot") {
-                            row_record.thick_bottom = if thick_bottom == "1" {
-                                Some(true)
-                            } else {
-                                None
-                            };
-                        }
-                        if let Some(place_holder) = row_attribute.get("ph") {
-                            row_record.place_holder = if place_holder == "1" {
-                                Some(true)
-                            } else {
-                                None
-                            };
-                        }
-                        let mut cell_records: BTreeMap<u16, CellProperties> = BTreeMap::new();
-                        // Loop All Columns of row
-                        loop {
-                            let mut cell_record = CellProperties::default();
-                            if let Some((col_element_id, _)) = row_element.pop_child_mut() {
-                                if let Some(col_element) =
-                                    xml_doc_mut.pop_element_mut(&col_element_id)
-                                {
-                                    let cell_attribute = col_element
-                                        .get_attribute()
-                                        .ok_or(anyhow!("Failed to pull attribute for Column"))?;
-                                    // Get Col Id
-                                    let col_index = ConverterUtil::get_column_index(
-                                        cell_attribute
-                                            .get("r")
-                                            .ok_or(anyhow!("Missing mandatory col id attribute"))?,
-                                    )
-                                    .context("Failed to Convert col worksheet initialize")?;
-                                    if let Some(style_id) = cell_attribute.get("s") {
-                                        cell_record.style_id = Some(StyleId::new(
-                                            style_id
-                                                .parse()
-                                                .context("Failed to parse the col style id")?,
-                                        ));
-                                    }
-                                    if let Some(cell_type) = cell_attribute.get("t") {
-                                        cell_record.data_type = CellDataType::get_enum(&cell_type);
-                                    } else {
-                                        cell_record.data_type = CellDataType::Number;
-                                    }
-                                    if let Some(comment_id) = cell_attribute.get("cm") {
-                                        cell_record.comment_id = Some(
-                                            comment_id
-                                                .parse()
-                                                .context("Failed to parse the col comment id")?,
-                                        );
-                                    };
-                                    if let Some(value_meta_id) = cell_attribute.get("vm") {
-                                        cell_record.metadata =
-                                            Some(value_meta_id.parse().context(
-                                                "Failed to parse the col value meta id",
-                                            )?);
-                                    };
-                                    if let Some(place_holder) = cell_attribute.get("ph") {
-                                        cell_record.place_holder = if place_holder == "1" {
-                                            Some(true)
-                                        } else {
-                                            None
-                                        };
-                                    };
-                                    loop {
-                                        if let Some((cell_child_id, _)) =
-                                            col_element.pop_child_mut()
-                                        {
-                                            if let Some(element) =
-                                                xml_doc_mut.pop_element_mut(&cell_child_id)
-                                            {
-                                                match element.get_tag() {
-                                                    "v" => {
-                                                        cell_record.value =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "f" => {
-                                                        cell_record.formula =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "is" => {
-                                                        if let Some((text_id, _)) =
-                                                            element.pop_child_mut()
-                                                        {
-                                                            if let Some(text_element) = xml_doc_mut
-                                                                .pop_element_mut(&text_id)
-                                                            {
-                                                                cell_record.value = text_element
-                                                                    .get_value()
-                                                                    .clone();
-                                                            }
-                                                        }
-                                                    }
-                                                    _ => {
-                                                        return Err(anyhow!(
-                                                            "Found un-know element cell child"
-                                                        ));
-                                                    }
-                                                }
-                                            }
-                                        } else {
-                                            break;
-                                        }
-                                    }
-                                    dimension.start_col = min(dimension.start_col, col_index);
-                                    dimension.end_col = max(dimension.end_col, col_index);
-                                    cell_records.insert(col_index, cell_record);
-                                }
-                            } else {
-                                break;
-                            }
-                        }
-                        sheet_data_collection.insert(
-                            row_index,
-                            RowData {
-                                row_record,
-                                cell_records: if cell_records.len() > 0 {
-                                    Some(cell_records)
-                                } else {
-                                    None
-                                },
-                            },
-                        );
+) -> AnyResult<BTreeMap<u32, RowData>, AnyError> {
+    let mut sheet_data: BTreeMap<u32, RowData> = BTreeMap::new();
+    if let Some(sheet_data_id) = xml_doc_mut.get_first_element_id(vec!["sheetData"], None)? {
+        let mut row_index: u32 = 0;
+        // Loop All rows of sheet data
+        for (row_id, row_tag) in xml_doc_mut.detach_children_mut(&sheet_data_id) {
+            if row_tag != "row" {
+                return Err(anyhow!("Found un-know element in sheet data"));
+            }
+            // Row without reference follows the one before
+            row_index = match get_reference(xml_doc_mut, &row_id) {
+                Some(reference) => reference
+                    .trim()
+                    .parse()
+                    .context("Failed to parse row id")?,
+                None => row_index + 1,
+            };
+            ConverterUtil::validate_row_index(row_index)?;
+            let mut row = RowData {
+                element_id: Some(row_id),
+                ..RowData::default()
+            };
+            let mut col_index: u16 = 0;
+            // Loop All Columns of row
+            for (cell_id, cell_tag) in xml_doc_mut.detach_children_mut(&row_id) {
+                if cell_tag != "c" {
+                    row.further_elements.push(cell_id);
+                    continue;
+                }
+                // Cell without reference follows the one before
+                col_index = match get_reference(xml_doc_mut, &cell_id) {
+                    Some(reference) => {
+                        let (cell_row, cell_col) = ConverterUtil::get_cell_index(&reference)
+                            .context("Failed to Convert col worksheet initialize")?;
+                        if cell_row != row_index {
+                            return Err(anyhow!("Cell reference is not part of the row"));
+                        }
+                        cell_col
                     }
-                } else {
-                    break;
+                    None => col_index + 1,
+                };
+                ConverterUtil::validate_column_index(col_index)?;
+                if row
+                    .cell_records
+                    .insert(col_index, CellData::Loaded(cell_id))
+                    .is_some()
+                {
+                    return Err(anyhow!("Found more than one cell with the same reference"));
                 }
             }
-            return Ok((Some(sheet_data_collection), dimension));
+            if sheet_data.insert(row_index, row).is_some() {
+                return Err(anyhow!("Found more than one row with the same reference"));
+            }
         }
     }
-    Ok((None, dimension))
+    Ok(sheet_data)
+}
+
+/// Reference attribute of row or cell
+fn get_reference(xml_doc: &XmlDocument, element_id: &usize) -> Option<String> {
+    xml_doc
+        .get_element(element_id)?
+        .get_attribute()?
+        .get("r")
+        .cloned()
+}
+
+/// Type a value is stored with when it is left to the package
+fn detect_data_type(value: &str) -> CellDataType {
+    match value {
+        "true" | "false" => CellDataType::Boolean,
+        _ if ConverterUtil::is_number(value) => CellDataType::Number,
+        _ => CellDataType::ShareString,
+    }
 }
 
 impl WorkSheet {
@@ -1039,6 +643,7 @@ impl WorkSheet {
         if let Some(sheet_collection) = sheet_collection.upgrade() {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
                 if let Some(sheet_name) = sheet_name.clone() {
+                    ConverterUtil::validate_xml_text(&sheet_name)?;
                     // If the Sheet name already exist get the path of sheet name
                     if let Some((_, rel_id, ..)) = sheet_collection
                         .try_borrow()
@@ -1071,15 +676,25 @@ impl WorkSheet {
                     let document = office_doc
                         .try_borrow()
                         .context("Failed to Borrow Document")?;
+                    let sheet_collection = sheet_collection
+                        .try_borrow()
+                        .context("Failed to pull Sheet Name Collection")?;
                     loop {
-                        if document.check_file_exist(format!(
-                            "{}{}/{}{}.{}",
-                            relative_path,
-                            worksheet_content.default_path,
-                            worksheet_content.default_name,
-                            sheet_count,
-                            worksheet_content.extension
-                        )) {
+                        let default_name =
+                            format!("{}{}", worksheet_content.default_name, sheet_count);
+                        let is_name_used = sheet_name.is_none()
+                            && sheet_collection
+                                .iter()
+                                .any(|item| item.0.eq_ignore_ascii_case(&default_name));
+                        if is_name_used
+                            || document.check_file_exist(format!(
+                                "{}{}/{}.{}",
+                                relative_path,
+                                worksheet_content.default_path,
+                                default_name,
+                                worksheet_content.extension
+                            ))
+                        {
                             sheet_count += 1;
                         } else {
                             break;
@@ -1154,41 +769,42 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
-        if let Some(column_collection) = self.column_collection.as_mut() {
-            let mut new_ranges = VecDeque::new();
-            // Delete Old Record
-            column_collection.retain_mut(|range| {
-                if range.min == *col_index && range.max == *col_index {
-                    // Fully matched range, remove it
-                    return false;
-                } else if range.min <= *col_index && *col_index <= range.max {
-                    // Value lies within the range
-                    if range.min == *col_index {
-                        // Trim the start
-                        range.min = col_index + 1;
-                    } else if range.max == *col_index {
-                        // Trim the end
-                        range.max = col_index - 1;
-                    } else {
-                        // Split the range
-                        new_ranges.push_back(ColumnProperties {
-                            min: col_index + 1,
-                            max: range.max,
-                            ..ColumnProperties::default()
-                        });
-                        range.max = col_index - 1;
-                    }
+        ConverterUtil::validate_column_index(*col_index)?;
+        // Attributes without a property stay as they are
+        let mut attributes = self
+            .column_collection
+            .iter()
+            .find(|column| column.min <= *col_index && *col_index <= column.max)
+            .map(|column| column.attributes.clone())
+            .unwrap_or_default();
+        for name in ["width", "customWidth", "hidden", "style", "bestFit"] {
+            attributes.remove(name);
+        }
+        if let Some(column_properties) = column_properties {
+            if let Some(width) = column_properties.width {
+                if !width.is_finite() {
+                    return Err(anyhow!("Column width is not a number"));
                 }
-                true
-            });
-            if let Some(column_properties) = column_properties {
-                column_collection.push_back(ColumnProperties {
-                    max: *col_index,
-                    min: *col_index,
-                    ..column_properties
-                });
+                attributes.insert("customWidth".to_string(), "1".to_string());
+                attributes.insert("width".to_string(), width.to_string());
+            }
+            if let Some(style_id) = column_properties.style_id {
+                attributes.insert("style".to_string(), style_id.id.to_string());
+            }
+            if column_properties.hidden == Some(true) {
+                attributes.insert("hidden".to_string(), "1".to_string());
             }
-            column_collection.append(&mut new_ranges);
+            if column_properties.best_fit == Some(true) {
+                attributes.insert("bestFit".to_string(), "1".to_string());
+            }
+            release_columns(&mut self.column_collection, *col_index, *col_index);
+            self.column_collection.push(ColumnRecord {
+                min: *col_index,
+                max: *col_index,
+                attributes,
+            });
+        } else {
+            release_columns(&mut self.column_collection, *col_index, *col_index);
         }
         Ok(())
     }
@@ -1199,29 +815,11 @@ impl WorkSheet {
         row_index: &u32,
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
-        if let Some(sheet_data) = self.sheet_data.as_mut() {
-            if let Some(row) = sheet_data.get_mut(row_index) {
-                row.row_record = row_properties;
-            } else {
-                sheet_data.insert(
-                    *row_index,
-                    RowData {
-                        row_record: row_properties,
-                        cell_records: None,
-                    },
-                );
-            }
-        } else {
-            let mut map = BTreeMap::new();
-            map.insert(
-                *row_index,
-                RowData {
-                    row_record: row_properties,
-                    cell_records: None,
-                },
-            );
-            self.sheet_data = Some(map);
+        ConverterUtil::validate_row_index(*row_index)?;
+        if row_properties.height.is_some_and(|height| !height.is_finite()) {
+            return Err(anyhow!("Row height is not a number"));
         }
+        self.sheet_data.entry(*row_index).or_default().row_record = Some(row_properties);
         Ok(())
     }
 
@@ -1240,32 +838,30 @@ impl WorkSheet {
     pub fn set_row_value_index_mut(
         &mut self,
         row_index: u32,
-        mut col_index: u16,
+        col_index: u16,
         mut column_cell: Vec<CellProperties>,
     ) -> AnyResult<(), AnyError> {
-        // Map Start Normalization
-        col_index -= 1;
+        ConverterUtil::validate_row_index(row_index)?;
+        ConverterUtil::validate_column_index(col_index)?;
+        if column_cell.len() > (ConverterUtil::MAX_COLUMN - col_index) as usize + 1 {
+            return Err(anyhow!("Cells leave the last column of the sheet"));
+        }
+        // Nothing is changed unless all the cells can be stored
         for cell_data in column_cell.iter_mut() {
+            if let Some(formula) = cell_data.formula.as_ref() {
+                ConverterUtil::validate_xml_text(formula)?;
+            }
             if let Some(cell_value) = cell_data.value.as_ref() {
+                ConverterUtil::validate_xml_text(cell_value)?;
+                if cell_data.data_type == CellDataType::Auto {
+                    cell_data.data_type = detect_data_type(cell_value);
+                }
                 match cell_data.data_type {
-                    CellDataType::Auto => {
-                        if cell_value.parse::<f64>().is_ok() {
-                            cell_data.data_type = CellDataType::Number;
-                        } else if cell_value.parse::<bool>().is_ok() {
-                            cell_data.data_type = CellDataType::Boolean;
-                            if cell_value.parse::<bool>().context("Parse Fail")? {
-                                cell_data.value = Some("1".to_string());
-                            } else {
-                                cell_data.value = Some("0".to_string());
-                            }
-                        } else {
-                            cell_data.data_type = CellDataType::ShareString;
-                            cell_data.value = Some(self.update_share_string(cell_value)?);
+                    CellDataType::Number => {
+                        if !ConverterUtil::is_number(cell_value) {
+                            return Err(anyhow!("Cell value is not a number"));
                         }
                     }
-                    CellDataType::ShareString => {
-                        cell_data.value = Some(self.update_share_string(cell_value)?);
-                    }
                     CellDataType::Boolean => {
                         cell_data.value = match cell_value.to_lowercase().as_str() {
                             "false" | "0" | "" => Some("0".to_string()),
@@ -1278,64 +874,24 @@ impl WorkSheet {
                 cell_data.data_type = CellDataType::Number;
             }
         }
-        // Load If Sheet Data Exist
-        if let Some(sheet_data) = self.sheet_data.as_mut() {
-            // Load If Row Exits
-            if let Some(row) = sheet_data.get_mut(&row_index) {
-                // Check if the row already has cell data
-                if let Some(cell_records) = row.cell_records.as_mut() {
-                    cell_records.extend(column_cell.iter_mut().map(|item| {
-                        col_index += 1;
-                        self.dimension.start_col = min(self.dimension.start_col, col_index);
-                        self.dimension.end_col = max(self.dimension.end_col, col_index);
-                        (col_index, item.clone())
-                    }));
-                } else {
-                    //Create cells If new
-                    let mut cell_records = BTreeMap::new();
-                    cell_records.extend(column_cell.iter_mut().map(|item| {
-                        col_index += 1;
-                        self.dimension.start_col = min(self.dimension.start_col, col_index);
-                        self.dimension.end_col = max(self.dimension.end_col, col_index);
-                        (col_index, item.clone())
-                    }));
-                    row.cell_records = Some(cell_records);
+        for cell_data in column_cell.iter_mut() {
+            if cell_data.data_type == CellDataType::ShareString {
+                if let Some(cell_value) = cell_data.value.as_ref() {
+                    cell_data.value = Some(self.update_share_string(cell_value)?);
                 }
-            } else {
-                // Create If new Row
-                let mut cell_records = BTreeMap::new();
-                cell_records.extend(column_cell.iter_mut().map(|item| {
-                    col_index += 1;
-                    self.dimension.start_col = min(self.dimension.start_col, col_index);
-                    self.dimension.end_col = max(self.dimension.end_col, col_index);
-                    (col_index, item.clone())
-                }));
-                sheet_data.insert(
-                    row_index,
-                    RowData {
-                        row_record: RowProperties::default(),
-                        cell_records: Some(cell_records),
-                    },
-                );
             }
-        } else {
-            // Create Sheet Data
-            let mut sheet_data = BTreeMap::new();
-            let mut cell_records = BTreeMap::new();
-            cell_records.extend(column_cell.iter_mut().map(|item| {
-                col_index += 1;
-                self.dimension.start_col = min(self.dimension.start_col, col_index);
-                self.dimension.end_col = max(self.dimension.end_col, col_index);
-                (col_index, item.clone())
-            }));
-            sheet_data.insert(
-                row_index,
-                RowData {
-                    row_record: RowProperties::default(),
-                    cell_records: Some(cell_records),
-                },
-            );
-            self.sheet_data = Some(sheet_data);
+        }
+        for (cell_index, cell_data) in (col_index..).zip(column_cell) {
+            let is_formula = cell_data.formula.is_some();
+            let replaced = self
+                .sheet_data
+                .entry(row_index)
+                .or_default()
+                .cell_records
+                .insert(cell_index, CellData::Written(cell_data));
+            if replaced.is_some() && !is_formula {
+                self.delete_calculation_entry(row_index, cell_index)?;
+            }
         }
         Ok(())
     }
@@ -1363,11 +919,22 @@ impl WorkSheet {
 
     /// Delete Current sheet and all its components
     pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
-        if let Some(sheet_collection) = self.sheet_collection.upgrade() {
-            sheet_collection
-                .try_borrow_mut()
-                .context("Failed to pull Sheets Collection")?
-                .retain(|item| item.0 != self.sheet_name);
+        // The name may be changed since the handle is created, the target stays
+        if let Some((relationship_id, sheet_id)) = self.get_sheet_ids()? {
+            if let Some(sheet_collection) = self.sheet_collection.upgrade() {
+                sheet_collection
+                    .try_borrow_mut()
+                    .context("Failed to pull Sheets Collection")?
+                    .retain(|item| item.1 != relationship_id);
+            }
+            if let (Some(sheet_id), Some(common_service)) =
+                (sheet_id, self.common_service.upgrade())
+            {
+                common_service
+                    .try_borrow_mut()
+                    .context("Failed to Get Calculation Chain Handle")?
+                    .delete_calculation_entry_mut(&sheet_id, None)?;
+            }
         }
         if let Some(workbook_relationship_part) = self.workbook_relationship_part.upgrade() {
             workbook_relationship_part
@@ -1376,12 +943,62 @@ impl WorkSheet {
                 .delete_relationship_mut(&self.file_path);
         }
         if let Some(xml_tree) = self.office_document.upgrade() {
-            xml_tree
+            let mut office_doc_mut = xml_tree
                 .try_borrow_mut()
-                .context("Failed to Pull XML Handle")?
-                .delete_document_mut(&self.file_path);
+                .context("Failed to Pull XML Handle")?;
+            office_doc_mut.delete_document_mut(&self.file_path);
+            office_doc_mut
+                .delete_document_mut(&RelationsPart::get_relation_file_path(&self.file_path));
         }
         self.flush().context("Failed to flush the worksheet")?;
         Ok(())
     }
+
+    /// Relationship ID and sheet ID of the current sheet
+    fn get_sheet_ids(&self) -> AnyResult<Option<(String, Option<String>)>, AnyError> {
+        if let (Some(sheet_collection), Some(workbook_relationship_part)) = (
+            self.sheet_collection.upgrade(),
+            self.workbook_relationship_part.upgrade(),
+        ) {
+            let workbook_relationship_part = workbook_relationship_part
+                .try_borrow()
+                .context("Failed to Get Workbook relationship")?;
+            for (_, relationship_id, _, _, attributes) in sheet_collection
+                .try_borrow()
+                .context("Failed to pull Sheets Collection")?
+                .iter()
+            {
+                if workbook_relationship_part
+                    .get_target_by_id(relationship_id)?
+                    .is_some_and(|target| target == self.file_path)
+                {
+                    return Ok(Some((
+                        relationship_id.clone(),
+                        attributes.get("sheetId").cloned(),
+                    )));
+                }
+            }
+        }
+        Ok(None)
+    }
+
+    /// A cell that lost its formula is no more part of the calculation chain
+    fn delete_calculation_entry(&self, row_index: u32, cell_index: u16) -> AnyResult<(), AnyError> {
+        if let (Some((_, Some(sheet_id))), Some(common_service)) =
+            (self.get_sheet_ids()?, self.common_service.upgrade())
+        {
+            common_service
+                .try_borrow_mut()
+                .context("Failed to Get Calculation Chain Handle")?
+                .delete_calculation_entry_mut(
+                    &sheet_id,
+                    Some(&format!(
+                        "{}{}",
+                        ConverterUtil::get_column_ref(cell_index)?,
+                        row_index
+                    )),
+                )?;
+        }
+        Ok(())
+    }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index c8aeb8f..f6a4799 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -13,7 +13,8 @@ use std::{cell::RefCell, collections::HashMap, rc::Weak};
 pub struct CalculationChainPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
-    calculation_collection: Vec<(String, String, Option<String>)>,
+    /// Cell reference, sheet ID and ID of the element, that stays in the XML tree
+    calculation_collection: Vec<(String, String, usize)>,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
 }
@@ -33,20 +34,6 @@ impl XmlDocumentPartCommon for CalculationChainPart {
             || {
                 if let Some(office_doc_ref) = self.office_document.upgrade() {
                     if self.calculation_collection.len() > 0 {
-                        if let Some(xml_document) = self.xml_document.upgrade() {
-                            let mut xml_doc_mut = xml_document
-                                .try_borrow_mut()
-                                .context("Failed to pull document handle")?;
-                            for (cell_key, sheet_id, _l) in self.calculation_collection.to_owned() {
-                                let mut attributes = HashMap::new();
-                                attributes.insert("r".to_string(), cell_key);
-                                attributes.insert("i".to_string(), sheet_id);
-                                xml_doc_mut
-                                    .append_child_mut("c", None)
-                                    .context("Failed To Add Child Item")?
-                                    .set_attribute_mut(attributes)?;
-                            }
-                        }
                         office_doc_ref
                             .try_borrow_mut()
                             .context("Failed to Borrow Share Tree")?
@@ -140,19 +127,30 @@ impl CalculationChainPart {
     }
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<(String, String, Option<String>)>, AnyError> {
+    ) -> AnyResult<Vec<(String, String, usize)>, AnyError> {
         let mut calculation_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
+            let xml_doc = xml_document
+                .try_borrow()
                 .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("c", None) {
-                for element in elements {
-                    if let Some(attributes) = element.get_attribute() {
+            // An entry without sheet ID belongs to the sheet of the entry before
+            let mut sheet_id = "0".to_string();
+            for element_id in xml_doc.get_child_ids(&0) {
+                if let Some(element) = xml_doc.get_element(&element_id) {
+                    if element.get_tag() == "c" {
+                        let attributes = element
+                            .get_attribute()
+                            .ok_or(anyhow!("Calculation chain attributes missing"))?;
+                        if let Some(current_id) = attributes.get("i") {
+                            sheet_id = current_id.clone();
+                        }
                         calculation_collection.push((
-                            attributes["r"].clone(),
-                            attributes["i"].clone(),
-                            attributes.get("l").cloned(),
+                            attributes
+                                .get("r")
+                                .ok_or(anyhow!("Calculation chain cell reference missing"))?
+                                .clone(),
+                            sheet_id.clone(),
+                            element_id,
                         ));
                     }
                 }
@@ -161,3 +159,41 @@ impl CalculationChainPart {
         Ok(calculation_collection)
     }
 }
+
+impl CalculationChainPart {
+    /// Remove the entry of the cell, all entries of the sheet if no cell is given
+    pub(crate) fn delete_entry_mut(
+        &mut self,
+        sheet_id: &str,
+        cell_ref: Option<&str>,
+    ) -> AnyResult<(), AnyError> {
+        let is_entry = |item: &(String, String, usize)| {
+            item.1 == sheet_id && cell_ref.is_none_or(|cell_ref| item.0 == cell_ref)
+        };
+        if !self.calculation_collection.iter().any(is_entry) {
+            return Ok(());
+        }
+        if let Some(xml_document) = self.xml_document.upgrade() {
+            let mut xml_doc_mut = xml_document
+                .try_borrow_mut()
+                .context("Failed to pull document handle")?;
+            let mut is_deleted = false;
+            for item in self.calculation_collection.iter() {
+                if is_entry(item) {
+                    xml_doc_mut.delete_child_mut(&item.2, None);
+                    is_deleted = true;
+                } else if is_deleted {
+                    // The sheet ID may have been inherited from the deleted entry
+                    if let Some(element) = xml_doc_mut.get_element_mut(&item.2) {
+                        let mut attributes = element.get_attribute().cloned().unwrap_or_default();
+                        attributes.insert("i".to_string(), item.1.clone());
+                        element.set_attribute_mut(attributes)?;
+                    }
+                    is_deleted = false;
+                }
+            }
+        }
+        self.calculation_collection.retain(|item| !is_entry(item));
+        Ok(())
+    }
+}
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
index 38bb913..d13b381 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
@@ -36,6 +36,17 @@ impl CommonServices {
     }
 }
 
+// ########################### Calculation Chain ########################
+impl CommonServices {
+    pub(crate) fn delete_calculation_entry_mut(
+        &mut self,
+        sheet_id: &str,
+        cell_ref: Option<&str>,
+    ) -> AnyResult<(), AnyError> {
+        self.calculation_chain.delete_entry_mut(sheet_id, cell_ref)
+    }
+}
+
 // ########################### Share String ########################
 impl CommonServices {
     pub(crate) fn get_string_id_mut(&mut self, value: String) -> AnyResult<String, AnyError> {
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 57a2509..6289bfb 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -3,17 +3,25 @@ use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
 pub struct ConverterUtil;
 
 impl ConverterUtil {
+    /// Last column of a sheet
+    pub(crate) const MAX_COLUMN: u16 = 16384;
+    /// Last row of a sheet
+    pub(crate) const MAX_ROW: u32 = 1048576;
+
     /// Return int Id of the column
     pub fn get_column_index(cell_ref: &str) -> AnyResult<u16, AnyError> {
-        let column_part: String = cell_ref.chars().take_while(|c| c.is_alphabetic()).collect();
-        if column_part.is_empty() {
+        let (column_part, row_part) = Self::split_cell_ref(cell_ref);
+        if !row_part.is_empty() {
+            Self::get_row_index(row_part)?;
+        }
+        if column_part.is_empty() || column_part.len() > 3 {
             return Err(anyhow!("Failed to Convert to Column Key Id"));
         }
-        let mut index = 0;
-        for (i, c) in column_part.chars().rev().enumerate() {
-            let char_value = c.to_ascii_uppercase() as u16 - 'A' as u16 + 1;
-            index += char_value * 26_usize.pow(i as u32) as u16;
+        let mut index: u16 = 0;
+        for c in column_part.bytes() {
+            index = index * 26 + (c.to_ascii_uppercase() - b'A' + 1) as u16;
         }
+        Self::validate_column_index(index)?;
         Ok(index)
     }
     /// Return String ref of the column
@@ -37,7 +45,8 @@ impl ConverterUtil {
     /// Return
     pub fn get_cell_index(cell_ref: &str) -> AnyResult<(u32, u16), AnyError> {
         Ok((
-            Self::extract_digits(cell_ref).context("Failed to extract int key")?,
+            Self::get_row_index(Self::split_cell_ref(cell_ref).1)
+                .context("Failed to extract int key")?,
             Self::get_column_index(cell_ref).context("Failed to Convert to int key")?,
         ))
     }
@@ -65,12 +74,54 @@ impl ConverterUtil {
         }
     }
 
-    fn extract_digits(input: &str) -> AnyResult<u32> {
-        input
-            .chars()
-            .filter(|c| c.is_digit(10))
-            .collect::<String>()
-            .parse()
-            .context("Failed to Extract Digits")
+    /// Split into letters of the column and the rest
+    fn split_cell_ref(cell_ref: &str) -> (&str, &str) {
+        cell_ref.split_at(
+            cell_ref
+                .find(|c: char| !c.is_ascii_alphabetic())
+                .unwrap_or(cell_ref.len()),
+        )
+    }
+
+    fn get_row_index(row_part: &str) -> AnyResult<u32, AnyError> {
+        if !row_part.bytes().all(|c| c.is_ascii_digit()) {
+            return Err(anyhow!("Row is not a number"));
+        }
+        let index = row_part.parse().context("Failed to Extract Digits")?;
+        Self::validate_row_index(index)?;
+        Ok(index)
+    }
+
+    pub(crate) fn validate_row_index(row_index: u32) -> AnyResult<(), AnyError> {
+        if row_index == 0 || row_index > Self::MAX_ROW {
+            return Err(anyhow!("Row {} is not part of a sheet", row_index));
+        }
+        Ok(())
+    }
+
+    pub(crate) fn validate_column_index(col_index: u16) -> AnyResult<(), AnyError> {
+        if col_index == 0 || col_index > Self::MAX_COLUMN {
+            return Err(anyhow!("Column {} is not part of a sheet", col_index));
+        }
+        Ok(())
+    }
+
+    /// Text that stands for a number a sheet is able to store
+    pub(crate) fn is_number(value: &str) -> bool {
+        value.bytes().any(|c| c.is_ascii_digit())
+            && value
+                .bytes()
+                .all(|c| c.is_ascii_digit() || b"+-.eE".contains(&c))
+            && value.parse::<f64>().is_ok_and(|number| number.is_finite())
+    }
+
+    /// XML has no representation for some of the control characters
+    pub(crate) fn validate_xml_text(value: &str) -> AnyResult<(), AnyError> {
+        if value.chars().any(|c| {
+            (c < ' ' && !['\t', '\n', '\r'].contains(&c)) || c == '\u{FFFE}' || c == '\u{FFFF}'
+        }) {
+            return Err(anyhow!("Text contains a character that is not valid in XML"));
+        }
+        Ok(())
     }
 }
-- 
2.43.0


From 8f26a5f47b63565a780a163180c2c7083bafe181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 19/32] fix: refuse parts whose root element is not the one of
 their kind instead of adding elements to them

---
 rs/src/global/global_2007/parts/content_types.rs      |  6 ++++++
 rs/src/global/global_2007/parts/relations.rs          |  2 ++
 rs/src/global/global_2007/traits/xml_parts.rs         | 11 +++++++++++
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs |  2 ++
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs   |  9 ++-------
 .../spreadsheet_2007/services/calculation_chain.rs    |  2 ++
 .../spreadsheet_2007/services/share_string.rs         |  2 ++
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs |  2 ++
 8 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 3d4af61..72352de 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -16,6 +16,12 @@ impl ContentTypesPart {
         let xml_document =
             XmlSerializer::vec_to_xml_doc_tree(xml_file_content, "Default Content Type")
                 .context("Decoding Content Type Failed")?;
+        if xml_document
+            .get_root()
+            .is_none_or(|root| root.get_tag() != "Types")
+        {
+            return Err(anyhow!("Root element of content types is not Types"));
+        }
         Ok(Self { xml_document })
     }
     pub(crate) fn get_extensions(&mut self) -> AnyResult<Option<Vec<(String, String)>>, AnyError> {
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 0d2d935..5519503 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -22,6 +22,8 @@ impl Drop for RelationsPart {
 }
 
 impl XmlDocumentPartCommon for RelationsPart {
+    const ROOT_TAG: Option<&'static str> = Some("Relationships");
+
     /// Close the Current Relation Document
     fn close_document(&mut self) -> AnyResult<(), AnyError>
     where
diff --git a/rs/src/global/global_2007/traits/xml_parts.rs b/rs/src/global/global_2007/traits/xml_parts.rs
index 9cb3cdc..a2bb6cd 100644
--- a/rs/src/global/global_2007/traits/xml_parts.rs
+++ b/rs/src/global/global_2007/traits/xml_parts.rs
@@ -4,6 +4,8 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{cell::RefCell, rc::Weak};
 
 pub(crate) trait XmlDocumentPartCommon {
+    /// Root element the part is required to have
+    const ROOT_TAG: Option<&'static str> = None;
     /// Save the current file state
     fn flush(mut self) -> AnyResult<(), AnyError>
     where
@@ -31,6 +33,15 @@ pub(crate) trait XmlDocumentPartCommon {
                     .get_xml_tree_mut(file_name)
                     .context(format!("XML Tree Parsing Failed for File : {}", file_name))?
             {
+                // A part with another root or with a prefix can't be interpreted
+                if let Some(root_tag) = Self::ROOT_TAG {
+                    if xml_document
+                        .get_root()
+                        .is_none_or(|root| root.get_tag() != root_tag)
+                    {
+                        return Err(anyhow!("Root element of {} is not {}", file_name, root_tag));
+                    }
+                }
                 (xml_document, content_type, file_extension, extension_type)
             } else {
                 Self::initialize_content_xml().context("Initial XML element parsing failed")?
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index cf5abb7..4b60590 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -56,6 +56,8 @@ impl Drop for WorkbookPart {
 }
 
 impl XmlDocumentPartCommon for WorkbookPart {
+    const ROOT_TAG: Option<&'static str> = Some("workbook");
+
     /// Initialize xml content for this part from base template
     fn initialize_content_xml() -> AnyResult<(XmlDocument, Option<String>, String, String), AnyError>
     {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 7c88b89..0a8cc49 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -75,6 +75,8 @@ impl Drop for WorkSheet {
 }
 
 impl XmlDocumentPartCommon for WorkSheet {
+    const ROOT_TAG: Option<&'static str> = Some("worksheet");
+
     /// Initialize xml content for this part from base template
     fn initialize_content_xml() -> AnyResult<(XmlDocument, Option<String>, String, String), AnyError>
     {
@@ -195,13 +197,6 @@ impl WorkSheet {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("Failed to get XML doc handle")?;
-            // Chart sheet and dialog sheet are not supported
-            if xml_doc_mut
-                .get_root()
-                .is_none_or(|root| root.get_tag() != "worksheet")
-            {
-                return Err(anyhow!("The sheet is not a worksheet"));
-            }
             // unwrap columns to local collection
             let column_collection = log_elapsed!(
                 || { deserialize_cols(&mut xml_doc_mut).context("Failed To Deserialize Cols") },
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index f6a4799..3519977 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -26,6 +26,8 @@ impl Drop for CalculationChainPart {
 }
 
 impl XmlDocumentPartCommon for CalculationChainPart {
+    const ROOT_TAG: Option<&'static str> = Some("calcChain");
+
     fn close_document(&mut self) -> AnyResult<(), AnyError>
     where
         Self: Sized,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 4a17c17..4e699e8 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -28,6 +28,8 @@ impl Drop for ShareStringPart {
 }
 
 impl XmlDocumentPartCommon for ShareStringPart {
+    const ROOT_TAG: Option<&'static str> = Some("sst");
+
     fn close_document(&mut self) -> AnyResult<(), AnyError>
     where
         Self: Sized,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 38bd5b2..a5b1572 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -48,6 +48,8 @@ impl Drop for StylePart {
 }
 
 impl XmlDocumentPartCommon for StylePart {
+    const ROOT_TAG: Option<&'static str> = Some("styleSheet");
+
     fn close_document(&mut self) -> AnyResult<(), AnyError>
     where
         Self: Sized,
-- 
2.43.0


From d4aee830a85ff8f4ab789d67c0f41a64818af980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 20/32] fix: record the modification time also in core
 properties that lack it or use another prefix

---
 .../global_2007/parts/core_properties.rs      | 74 +++++++++++++------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/rs/src/global/global_2007/parts/core_properties.rs b/rs/src/global/global_2007/parts/core_properties.rs
index 1c391e2..2e3611d 100644
--- a/rs/src/global/global_2007/parts/core_properties.rs
+++ b/rs/src/global/global_2007/parts/core_properties.rs
@@ -8,7 +8,7 @@ use crate::{
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use chrono::Utc;
-use std::{cell::RefCell, rc::Weak};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
 
 #[derive(Debug)]
 pub struct CorePropertiesPart {
@@ -49,31 +49,20 @@ impl XmlDocumentPartCommon for CorePropertiesPart {
             let mut xml_document = xml_document_ref
                 .try_borrow_mut()
                 .context("Failed to Pull Office document")?;
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:modified"], None)
-            {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        element.set_value_mut(
-                            Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                        );
-                    }
+            let now = Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true);
+            if let Some(element_id) = Self::find_term(&xml_document, "modified") {
+                if let Some(element) = xml_document.get_element_mut(&element_id) {
+                    element.set_value_mut(now.clone());
                 }
-                Err(_) => (),
+            } else {
+                Self::append_modified(&mut xml_document, &now)?;
             }
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:created"], None)
-            {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        if !element.has_value() {
-                            element.set_value_mut(
-                                Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                            );
-                        }
+            if let Some(element_id) = Self::find_term(&xml_document, "created") {
+                if let Some(element) = xml_document.get_element_mut(&element_id) {
+                    if !element.has_value() {
+                        element.set_value_mut(now);
                     }
                 }
-                Err(_) => (),
             }
         }
         // Update the current state to DB before dropping the object
@@ -106,6 +95,47 @@ impl XmlDocumentPart for CorePropertiesPart {
 }
 
 impl CorePropertiesPart {
+    const TERMS_NAMESPACE: &'static str = "http://purl.org/dc/terms/";
+
+    /// Element of the terms namespace, whatever prefix the document has chosen for it
+    fn find_term(xml_document: &XmlDocument, name: &str) -> Option<usize> {
+        let namespaces = xml_document.get_root()?.get_namespace()?;
+        xml_document.get_child_ids(&0).into_iter().find(|id| {
+            xml_document.get_element(id).is_some_and(|element| {
+                let (prefix, local_name) = match element.get_tag().split_once(':') {
+                    Some((prefix, local_name)) => (Some(prefix), local_name),
+                    None => (None, element.get_tag()),
+                };
+                let declaration = prefix.map_or("xmlns".to_string(), |prefix| {
+                    format!("xmlns:{}", prefix)
+                });
+                local_name == name
+                    && element
+                        .get_attribute()
+                        .and_then(|attributes| attributes.get(&declaration))
+                        .or(namespaces.get(prefix.unwrap_or("<Default>")))
+                        .is_some_and(|namespace| namespace == Self::TERMS_NAMESPACE)
+            })
+        })
+    }
+
+    fn append_modified(xml_document: &mut XmlDocument, value: &str) -> AnyResult<(), AnyError> {
+        xml_document
+            .append_child_mut("dcterms:modified", None)
+            .context("Failed to add modified element")?
+            .set_attribute_mut(HashMap::from([
+                ("xmlns:dcterms".to_string(), Self::TERMS_NAMESPACE.to_string()),
+                (
+                    "xmlns:xsi".to_string(),
+                    "http://www.w3.org/2001/XMLSchema-instance".to_string(),
+                ),
+                ("xsi:type".to_string(), "dcterms:W3CDTF".to_string()),
+            ]))
+            .context("Failed to set attributes of modified element")?
+            .set_value_mut(value.to_string());
+        Ok(())
+    }
+
     fn get_core_properties_file_name(
         relations_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<String, AnyError> {
-- 
2.43.0


From 03e610d12fc74de02aa8bc1b3c70788955bac6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 21/32] fix: refuse text that XML has no representation for
 instead of writing an unreadable part

---
 rs/src/files/xml/xml_deserialize.rs           |  2 ++
 .../spreadsheet_2007/services/style.rs        | 23 +++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 537f4cd..27870d8 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -1,4 +1,5 @@
 use crate::{
+    converters::ConverterUtil,
     files::{XmlDocument, XmlElement},
     log_elapsed,
 };
@@ -37,6 +38,7 @@ impl XmlDeSerializer {
             },
             format!("Deserialize File : {}", file_name)
         )?;
+        ConverterUtil::validate_xml_text(&xml_content)?;
         Ok(xml_content.as_bytes().to_vec())
     }
 
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index a5b1572..fa03f7b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1,4 +1,5 @@
 use crate::{
+    converters::ConverterUtil,
     element_dictionary::EXCEL_TYPE_COLLECTION,
     files::{OfficeDocument, XmlDocument, XmlSerializer},
     global_2007::{
@@ -699,6 +700,28 @@ impl StylePart {
         &mut self,
         style_setting: StyleSetting,
     ) -> AnyResult<StyleId, AnyError> {
+        for text in [
+            Some(&style_setting.font_family),
+            style_setting.custom_number_format.as_ref(),
+            style_setting.background_color.as_ref(),
+            style_setting.foreground_color.as_ref(),
+            Some(&style_setting.text_color.value),
+        ]
+        .into_iter()
+        .chain(
+            [
+                &style_setting.border_left,
+                &style_setting.border_top,
+                &style_setting.border_right,
+                &style_setting.border_bottom,
+                &style_setting.border_diagonal,
+            ]
+            .map(|border| border.border_color.as_ref().map(|color| &color.value)),
+        )
+        .flatten()
+        {
+            ConverterUtil::validate_xml_text(text)?;
+        }
         let style_hash = self.generate_setting_hash(&style_setting);
         if let Some((_, id)) = self.cache_id.get_key_value(&style_hash) {
             Ok(StyleId::new(*id))
-- 
2.43.0


From 4c2f03b22d79fb1f244491723124ecd9546bc535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 22/32] fix: the file written before it replaces the save
 target has a short name, so that any target name can be saved

---
 rs/src/files/office_document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 5b98ad8..d826be8 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -9,6 +9,7 @@ use std::{
     collections::HashMap,
     fs::{remove_file, rename, File, OpenOptions},
     io::{Cursor, Read, Write},
+    path::Path,
     rc::{Rc, Weak},
 };
 use uuid::Uuid;
@@ -180,7 +181,7 @@ impl OfficeDocument {
 
     /// Put the content in a new file next to the target and replace the target in a single step
     fn replace_file(file_path: &str, file_content: &[u8]) -> AnyResult<(), AnyError> {
-        let temp_path = format!("{}.{}.tmp", file_path, Uuid::new_v4());
+        let temp_path = Path::new(file_path).with_file_name(format!(".{}.tmp", Uuid::new_v4()));
         let mut file = OpenOptions::new()
             .write(true)
             .create_new(true)
-- 
2.43.0


From edd29af024be56f982e3e944715551e0f16ba77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 23/32] fix: text beside child elements no longer makes the
 child elements disappear

---
 rs/src/files/xml/xml_deserialize.rs | 44 ++++++++++++-----------------
 rs/src/files/xml/xml_serialize.rs   | 12 ++++++++
 rs/src/files/xml/xml_tree.rs        | 15 ++++++++++
 3 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 27870d8..864b10e 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -53,9 +53,8 @@ impl XmlDeSerializer {
                 master_string.push_str(Self::generate_xml_element(xml_root, true, true).as_str());
             } else {
                 master_string.push_str(Self::generate_xml_element(xml_root, false, true).as_str());
-                if let Some(value) = Self::get_text(xml_root) {
-                    master_string.push_str(&Self::generate_xml_value_close(value, xml_root));
-                } else {
+                master_string.push_str(&Self::generate_text(xml_root.get_value()));
+                if xml_root.get_child_count() > 0 {
                     let mut parent_id = 0;
                     loop {
                         current_count += 1;
@@ -72,18 +71,16 @@ impl XmlDeSerializer {
                                             Self::generate_xml_element(element, true, false)
                                                 .as_str(),
                                         );
+                                        master_string
+                                            .push_str(&Self::generate_text(element.get_tail()));
                                     } else {
                                         master_string.push_str(
                                             Self::generate_xml_element(element, false, false)
                                                 .as_str(),
                                         );
-                                        if let Some(value) = Self::get_text(element) {
-                                            master_string.push_str(
-                                                &Self::generate_xml_value_close(value, element),
-                                            );
-                                        } else {
-                                            parent_id = current_id
-                                        }
+                                        master_string
+                                            .push_str(&Self::generate_text(element.get_value()));
+                                        parent_id = current_id
                                     }
                                 } else {
                                     return Err(anyhow!(
@@ -97,8 +94,9 @@ impl XmlDeSerializer {
                                 } else {
                                     // Travel Up as there is no active child to continue
                                     if let Some(element) = xml_document.get_element(&parent_id) {
+                                        master_string.push_str(&Self::generate_close_tag(element));
                                         master_string
-                                            .push_str(&Self::generate_xml_value_close("", element));
+                                            .push_str(&Self::generate_text(element.get_tail()));
                                         parent_id = element.get_parent_id()
                                     }
                                 }
@@ -107,21 +105,13 @@ impl XmlDeSerializer {
                             return Err(anyhow!("Un know Element pull failed"));
                         }
                     }
-                    master_string.push_str(&Self::generate_xml_value_close("", xml_root));
                 }
+                master_string.push_str(&Self::generate_close_tag(xml_root));
             }
         }
         Ok(())
     }
 
-    /// White space between child elements is formatting and not a value
-    fn get_text(xml_element: &XmlElement) -> Option<&String> {
-        xml_element
-            .get_value()
-            .as_ref()
-            .filter(|value| xml_element.get_child_count() == 0 || !value.trim().is_empty())
-    }
-
     fn generate_xml_element(xml_element: &XmlElement, close: bool, root_element: bool) -> String {
         let mut element_tag = format!("<{}", xml_element.get_tag());
         if root_element {
@@ -185,12 +175,14 @@ impl XmlDeSerializer {
         element_tag
     }
 
-    fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
-        format!(
-            "{}</{}>",
-            escape(value).replace('\r', "&#13;"),
-            xml_element.get_tag()
-        )
+    fn generate_close_tag(xml_element: &XmlElement) -> String {
+        format!("</{}>", xml_element.get_tag())
+    }
+
+    fn generate_text(text: &Option<String>) -> String {
+        text.as_ref()
+            .map(|text| escape(text.as_str()).replace('\r', "&#13;"))
+            .unwrap_or_default()
     }
 
     /// White space other than a blank survives attribute parsing only as character reference
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 5286f0c..8904a1f 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -172,6 +172,18 @@ impl XmlSerializer {
         element_id: &usize,
         text: &str,
     ) -> AnyResult<(), AnyError> {
+        // Text that follows a child element is kept with that child to stay at its place
+        if let Some(last_child_id) = xml_document
+            .get_element(element_id)
+            .and_then(|element| element.get_last_child_id())
+        {
+            xml_document
+                .get_element_mut(&last_child_id)
+                .ok_or(anyhow!("Converting Option to Result Failed"))
+                .context("Getting Last Child Element Failed")?
+                .append_tail_mut(text);
+            return Ok(());
+        }
         let element = xml_document
             .get_element_mut(element_id)
             .ok_or(anyhow!("Converting Option to Result Failed"))
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index d20f775..608bda2 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -391,6 +391,8 @@ pub(crate) struct XmlElement {
     attributes: Option<HashMap<String, String>>,
     /// Internal Value of the
     value: Option<String>,
+    /// Text between the end of the element and its next sibling
+    tail: Option<String>,
     /// Child Element Names to pull up nodes quickly
     children: Rc<RefCell<Vec<XmlElementChild>>>,
     // ######################## Document Parts ##########################
@@ -411,6 +413,7 @@ impl XmlElement {
                 tag: tag.to_string(),
                 attributes: None,
                 value: None,
+                tail: None,
                 children: Rc::new(RefCell::new(Vec::new())),
                 namespace_collection_ref: namespace_collection,
             })
@@ -483,6 +486,10 @@ impl XmlElement {
         &self.value
     }
 
+    pub(crate) fn get_tail(&self) -> &Option<String> {
+        &self.tail
+    }
+
     pub(crate) fn get_id(&self) -> usize {
         self.id
     }
@@ -495,6 +502,10 @@ impl XmlElement {
         }
     }
 
+    pub(crate) fn get_last_child_id(&self) -> Option<usize> {
+        self.children.borrow().last().map(|item| item.id)
+    }
+
     pub(crate) fn get_parent_id(&self) -> usize {
         self.parent_id
     }
@@ -600,6 +611,10 @@ impl XmlElement {
         self
     }
 
+    pub(crate) fn append_tail_mut(&mut self, text: &str) {
+        self.tail.get_or_insert_with(String::new).push_str(text);
+    }
+
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
         self.children
             .try_borrow_mut()
-- 
2.43.0


From a96155943cc8ce910a19a4764c1621e1d56ef6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 24/32] fix: a sheet added beside one with the highest possible
 id gets a free id

---
 .../spreadsheet_2007/parts/workbook.rs           | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 4b60590..77abef0 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -437,16 +437,22 @@ impl WorkbookPart {
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?;
         // The ID of a sheet stays with the sheet
-        let mut max_sheet_id: u32 = sheet_collection
+        let mut sheet_ids: Vec<u32> = sheet_collection
             .iter()
             .filter_map(|(.., attributes)| attributes.get("sheetId")?.trim().parse().ok())
-            .max()
-            .unwrap_or(0);
+            .collect();
         for (sheet_display_name, relationship_id, _, hide, attributes) in sheet_collection.iter() {
             let mut attributes = attributes.clone();
             if !attributes.contains_key("sheetId") {
-                max_sheet_id += 1;
-                attributes.insert("sheetId".to_string(), max_sheet_id.to_string());
+                // The first free ID, once the highest possible is in use
+                let sheet_id = sheet_ids
+                    .iter()
+                    .max()
+                    .map_or(Some(1), |max_sheet_id| max_sheet_id.checked_add(1))
+                    .or_else(|| (1..u32::MAX).find(|sheet_id| !sheet_ids.contains(sheet_id)))
+                    .ok_or(anyhow!("No free sheet id is left"))?;
+                sheet_ids.push(sheet_id);
+                attributes.insert("sheetId".to_string(), sheet_id.to_string());
             }
             if !attributes.keys().any(|key| key.ends_with(":id")) {
                 if relationship_prefix.is_none() {
-- 
2.43.0


From 7276318bf404a3490908011088f1a74e89cd2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 25/32] fix: the namespace prefix dvmo of an opened file keeps
 its meaning

---
 rs/src/files/xml/xml_deserialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 864b10e..8092979 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -119,10 +119,10 @@ impl XmlDeSerializer {
             if let Some(mut namespace) = xml_element.get_namespace() {
                 #[cfg(not(debug_assertions))]
                 {
-                    namespace.insert(
-                        "dvmo".to_string(),
-                        "http://schemas.draviavemal.com/openxml-office".to_string(),
-                    );
+                    // The prefix of an opened file keeps its meaning
+                    namespace
+                        .entry("dvmo".to_string())
+                        .or_insert("http://schemas.draviavemal.com/openxml-office".to_string());
                 }
                 element_tag.push_str(
                     format!(
-- 
2.43.0


From 5a402066cc91d9f7925cbf97989de3bd7fb26078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 26/32] fix: a number format added beside one with the highest
 possible id gets a free id

---
 .../spreadsheet/spreadsheet_2007/services/style.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index fa03f7b..2b2f128 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -739,12 +739,20 @@ impl StylePart {
                         *format_id
                     } else {
                         // ID's below are reserved for built-in formats
-                        let format_id = self
+                        let format_ids = self
                             .number_format_collection
                             .iter()
                             .map(|item| item.0)
-                            .fold(163, max)
-                            + 1;
+                            .collect::<Vec<usize>>();
+                        let max_format_id = format_ids.iter().cloned().fold(163, max);
+                        let format_id = if max_format_id < u32::MAX as usize {
+                            max_format_id + 1
+                        } else {
+                            // The first free ID, once the highest possible is in use
+                            (164..u32::MAX as usize)
+                                .find(|format_id| !format_ids.contains(format_id))
+                                .ok_or(anyhow!("No free number format id is left"))?
+                        };
                         self.number_format_collection
                             .push((format_id, custom_format, true));
                         format_id
-- 
2.43.0


From b0210164524cbff87bac96d439ea5fbec9806f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 27/32] fix: accept every name XML allows for elements and
 attributes

---
 rs/src/files/xml/xml_tree.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 608bda2..f85d53d 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -423,11 +423,20 @@ impl XmlElement {
     }
 
     fn is_valid_xml_name(name: &str) -> bool {
+        // Characters as listed by the XML specification (NameStartChar and NameChar)
         fn is_name_start_char(c: char) -> bool {
-            c.is_ascii_alphabetic() || c == '_' || c.is_alphabetic()
+            matches!(c, 'A'..='Z' | 'a'..='z' | '_'
+                | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
+                | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}'
+                | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
+                | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
+                | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
+                | '\u{10000}'..='\u{EFFFF}')
         }
         fn is_name_char(c: char) -> bool {
-            is_name_start_char(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == ':'
+            is_name_start_char(c)
+                || matches!(c, '0'..='9' | '-' | '.' | ':' | '\u{B7}'
+                    | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
         }
         if name.is_empty() {
             return false;
-- 
2.43.0


From d4a98ae1ead0b08624d4115e8b955985e2275fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 28/32] fix: take the relationship id of a sheet from its
 namespace, other attributes may end the same way

---
 .../spreadsheet_2007/parts/workbook.rs        | 44 ++++++++++++++-----
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 77abef0..ffbbefb 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -21,6 +21,12 @@ use std::{
     rc::{Rc, Weak},
 };
 
+/// Namespaces of the relationship ID
+const RELATIONSHIP_NAMESPACE: [&str; 2] = [
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
+    "http://purl.oclc.org/ooxml/officeDocument/relationships",
+];
+
 /// Sheet name, relationId, active sheet, hide sheet, all attributes
 pub(crate) type SheetRecord = (String, String, bool, bool, HashMap<String, String>);
 
@@ -221,6 +227,15 @@ impl WorkbookPart {
                     if let Some(sheets_id) =
                         xml_doc_mut.get_first_element_id(vec!["sheets"], None)?
                     {
+                        let namespaces = xml_doc_mut
+                            .get_root()
+                            .and_then(|root| root.get_namespace())
+                            .unwrap_or_default();
+                        let sheets_attributes = xml_doc_mut
+                            .get_element(&sheets_id)
+                            .and_then(|sheets| sheets.get_attribute())
+                            .cloned()
+                            .unwrap_or_default();
                         // Load Sheet from File if exist
                         for sheet_id in xml_doc_mut.get_child_ids(&sheets_id) {
                             if let Some(sheet) = xml_doc_mut
@@ -232,13 +247,26 @@ impl WorkbookPart {
                                 let name = attributes.get("name").cloned().ok_or(anyhow!(
                                     "Error When Trying to read Sheet Details."
                                 ))?;
+                                // Other names may end the same way, the namespace tells them apart
+                                let namespace_of = |prefix: &str| {
+                                    let declaration = format!("xmlns:{}", prefix);
+                                    attributes
+                                        .get(&declaration)
+                                        .or(sheets_attributes.get(&declaration))
+                                        .or(namespaces.get(prefix))
+                                };
                                 let relationship_id = attributes
-                                    .get("r:id")
-                                    .or(attributes
-                                        .iter()
-                                        .find(|(key, _)| key.ends_with(":id"))
-                                        .map(|(_, value)| value))
-                                    .cloned()
+                                    .iter()
+                                    .filter_map(|(key, value)| {
+                                        let prefix = key.strip_suffix(":id")?;
+                                        let is_relationship = namespace_of(prefix)
+                                            .is_some_and(|namespace| {
+                                                RELATIONSHIP_NAMESPACE.contains(&namespace.as_str())
+                                            });
+                                        Some((!is_relationship, prefix != "r", key, value))
+                                    })
+                                    .min()
+                                    .map(|(.., value)| value.clone())
                                     .ok_or(anyhow!("Error When Trying to read Sheet Details."))?;
                                 let hide = attributes
                                     .get("state")
@@ -411,10 +439,6 @@ impl WorkbookPart {
 
     /// Write Sheet Records to Workbook
     fn serialize_sheets(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        const RELATIONSHIP_NAMESPACE: [&str; 2] = [
-            "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
-            "http://purl.oclc.org/ooxml/officeDocument/relationships",
-        ];
         let sheets_id = match xml_doc_mut.get_first_element_id(vec!["sheets"], None)? {
             Some(sheets_id) => sheets_id,
             None => xml_doc_mut
-- 
2.43.0


From b14a54ab9f2c9574b2fabefa527dd7122d72c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 29/32] fix: a name that is not UTF-8 is an error, not a name
 with a replacement character

---
 rs/src/files/xml/xml_serialize.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 8904a1f..7f9495b 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -50,8 +50,7 @@ impl XmlSerializer {
                     if root_closed {
                         break Err(anyhow!("Element found after the root element."));
                     }
-                    let tag: String =
-                        String::from_utf8_lossy(element.name().into_inner()).to_string();
+                    let tag: String = Self::get_name(element.name().into_inner())?;
                     let attributes = Self::get_attributes_string(element)?;
                     // Update tree structure
                     if root_loaded {
@@ -76,8 +75,7 @@ impl XmlSerializer {
 
                 // Handle empty elements (self-closing tags)
                 Result::Ok(Event::Empty(element)) => {
-                    let tag: String =
-                        String::from_utf8_lossy(element.name().into_inner()).to_string();
+                    let tag: String = Self::get_name(element.name().into_inner())?;
                     let attributes = Self::get_attributes_string(element)?;
                     if root_closed {
                         break Err(anyhow!("Element found after the root element."));
@@ -122,8 +120,7 @@ impl XmlSerializer {
                 // Handle end tag
                 Result::Ok(Event::End(element)) => {
                     // Pop the active element back to the parent
-                    let tag: String =
-                        String::from_utf8_lossy(element.name().into_inner()).to_string();
+                    let tag: String = Self::get_name(element.name().into_inner())?;
                     let element = xml_document
                         .get_element_mut(&active_xml_element_id)
                         .ok_or(anyhow!("Converting Option to Result Failed"))
@@ -157,7 +154,7 @@ impl XmlSerializer {
             .map(|attribute_result: Result<Attribute<'_>, AttrError>| {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
-                let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
+                let key: String = Self::get_name(attribute.key.into_inner())?;
                 let raw = Self::normalize_line_end(&attribute.value)?.replace(['\t', '\n'], " ");
                 let value: String = unescape(&raw)
                     .context("XML Attribute parsing error")?
@@ -194,6 +191,12 @@ impl XmlSerializer {
         Ok(())
     }
 
+    fn get_name(raw: &[u8]) -> AnyResult<String, AnyError> {
+        Ok(std::str::from_utf8(raw)
+            .context("XML name is not valid UTF-8")?
+            .to_string())
+    }
+
     /// Line ends reach the application as a single new line character
     fn normalize_line_end(raw: &[u8]) -> AnyResult<String, AnyError> {
         let text = std::str::from_utf8(raw).context("XML content is not valid UTF-8")?;
-- 
2.43.0


From 2c6ceb42e55051764115b9e3b001d97c12700862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:25 +0000
Subject: [PATCH 30/32] fix: a workbook of the strict conformance class got a
 second main relationship and transitional parts

---
 rs/src/files/office_document.rs               | 28 +++++++++++++++++--
 rs/src/files/xml/xml_tree.rs                  |  8 ++++++
 rs/src/global/global_2007/parts/relations.rs  | 18 ++++++++++--
 rs/src/global/global_2007/traits/xml_parts.rs | 15 +++++++++-
 .../global/references/element_dictionary.rs   | 27 ++++++++++++++++++
 5 files changed, 90 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index d826be8..1e71d61 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -15,6 +15,9 @@ use std::{
 use uuid::Uuid;
 use zip::{write::SimpleFileOptions, ZipArchive, ZipWriter};
 
+const STRICT_MAIN_RELATIONSHIP: &str =
+    "http://purl.oclc.org/ooxml/officeDocument/relationships/officeDocument";
+
 #[derive(Debug)]
 pub(crate) struct OfficeDocument {
     /// Key : File_Name -> Value : (File Handle, Content Type, File Extension, Extension Type)
@@ -33,6 +36,8 @@ pub(crate) struct OfficeDocument {
             Option<Vec<u8>>,
         ),
     >,
+    /// Is the existing document of the strict conformance class
+    is_strict: bool,
 }
 
 impl OfficeDocument {
@@ -44,10 +49,29 @@ impl OfficeDocument {
             archive_collection = Self::load_archive_into_database(&file_path)
                 .context("Load OpenXML Archive Into Database Failed")?;
         }
-        Ok(Self {
+        let mut office_document = Self {
             xml_document_collection: HashMap::new(),
             archive_collection,
-        })
+            is_strict: false,
+        };
+        office_document.is_strict = office_document.has_strict_relationship();
+        Ok(office_document)
+    }
+
+    pub(crate) fn is_strict(&self) -> bool {
+        self.is_strict
+    }
+
+    /// Check if the main part is reached by a relationship of the strict conformance class
+    fn has_strict_relationship(&mut self) -> bool {
+        let Ok(Some((xml_document, ..))) = self.get_xml_tree_mut("_rels/.rels") else {
+            return false;
+        };
+        xml_document
+            .get_child_ids(&0)
+            .iter()
+            .filter_map(|id| xml_document.get_element(id)?.get_attribute()?.get("Type"))
+            .any(|relation_type| relation_type == STRICT_MAIN_RELATIONSHIP)
     }
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index f85d53d..1ef60cf 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -1,3 +1,4 @@
+use crate::element_dictionary::get_strict_name;
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
@@ -24,6 +25,13 @@ impl XmlDocument {
         }
     }
 
+    /// Replace the declared namespaces by those of the strict conformance class
+    pub(crate) fn set_strict_namespace_mut(&mut self) {
+        for namespace in self.namespace_collection.borrow_mut().values_mut() {
+            *namespace = get_strict_name(namespace);
+        }
+    }
+
     pub(crate) fn get_element_count(&self) -> usize {
         self.xml_element_collection.len()
     }
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 5519503..325db92 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -1,5 +1,5 @@
 use crate::{
-    element_dictionary::{Content, COMMON_TYPE_COLLECTION},
+    element_dictionary::{get_strict_name, Content, COMMON_TYPE_COLLECTION},
     files::{OfficeDocument, XmlDocument},
     global_2007::traits::XmlDocumentPartCommon,
 };
@@ -198,10 +198,11 @@ impl RelationsPart {
         file_path: Option<String>,
         file_name: Option<String>,
     ) -> AnyResult<String, AnyError> {
+        let strict_type = get_strict_name(content_type);
         if let Some(relationship) = self
             .relationships
             .iter()
-            .find(|item| item.2 == content_type)
+            .find(|item| item.2 == content_type || item.2 == strict_type)
         {
             self.resolve_target(&relationship.1)
         } else {
@@ -276,6 +277,13 @@ impl RelationsPart {
         file_name: Option<String>,
     ) -> AnyResult<String, AnyError> {
         let next_id = self.get_next_relationship_id();
+        let is_strict = self
+            .office_document
+            .upgrade()
+            .ok_or(anyhow!("Document Upgrade Handled Failed"))?
+            .try_borrow()
+            .context("Failed to borrow handle")?
+            .is_strict();
         self.relationships.push((
             next_id.clone(),
             format!(
@@ -284,7 +292,11 @@ impl RelationsPart {
                 file_name.unwrap_or(content.default_name.to_string()),
                 content.extension
             ),
-            content.schemas_type.to_string(),
+            if is_strict {
+                get_strict_name(content.schemas_type)
+            } else {
+                content.schemas_type.to_string()
+            },
             None,
         ));
         Ok(next_id)
diff --git a/rs/src/global/global_2007/traits/xml_parts.rs b/rs/src/global/global_2007/traits/xml_parts.rs
index a2bb6cd..48c8947 100644
--- a/rs/src/global/global_2007/traits/xml_parts.rs
+++ b/rs/src/global/global_2007/traits/xml_parts.rs
@@ -22,6 +22,13 @@ pub(crate) trait XmlDocumentPartCommon {
         office_document: &Weak<RefCell<OfficeDocument>>,
         file_name: &str,
     ) -> AnyResult<Weak<RefCell<XmlDocument>>, AnyError> {
+        let is_strict = office_document
+            .upgrade()
+            .ok_or(anyhow!("Document Upgrade Handled Failed"))
+            .context("XML Document Read Failed")?
+            .try_borrow()
+            .context("Failed to borrow handle")?
+            .is_strict();
         let (xml_document, content_type, file_extension, extension_type) =
             if let Some((xml_document, content_type, file_extension, extension_type)) =
                 office_document
@@ -44,7 +51,13 @@ pub(crate) trait XmlDocumentPartCommon {
                 }
                 (xml_document, content_type, file_extension, extension_type)
             } else {
-                Self::initialize_content_xml().context("Initial XML element parsing failed")?
+                let mut content = Self::initialize_content_xml()
+                    .context("Initial XML element parsing failed")?;
+                // A new part is of the same conformance class as the document
+                if is_strict {
+                    content.0.set_strict_namespace_mut();
+                }
+                content
             };
         office_document
             .upgrade()
diff --git a/rs/src/global/references/element_dictionary.rs b/rs/src/global/references/element_dictionary.rs
index 715cf7c..e33e55a 100644
--- a/rs/src/global/references/element_dictionary.rs
+++ b/rs/src/global/references/element_dictionary.rs
@@ -10,6 +10,33 @@ pub(crate) struct Content {
     pub(crate) default_path: &'static str,
     pub(crate) default_name: &'static str,
 }
+/// Transitional names and the names the strict conformance class has for them
+const STRICT_NAMES: [(&str, &str); 3] = [
+    (
+        "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
+        "http://purl.oclc.org/ooxml/officeDocument/relationships",
+    ),
+    (
+        "http://schemas.openxmlformats.org/spreadsheetml/2006/main",
+        "http://purl.oclc.org/ooxml/spreadsheetml/main",
+    ),
+    (
+        "http://schemas.openxmlformats.org/drawingml/2006/main",
+        "http://purl.oclc.org/ooxml/drawingml/main",
+    ),
+];
+
+/// Namespace or relationship type in the strict conformance class
+pub(crate) fn get_strict_name(name: &str) -> String {
+    STRICT_NAMES
+        .iter()
+        .find_map(|(transitional, strict)| {
+            name.strip_prefix(transitional)
+                .map(|rest| format!("{}{}", strict, rest))
+        })
+        .unwrap_or(name.to_string())
+}
+
 /// Common Content
 pub(crate) static COMMON_TYPE_COLLECTION: Map<&'static str, &'static Content> = phf_map! {
     "content_type"=>&Content{
-- 
2.43.0


From 5665f856d04cc7e7647de4ff2d1a1d5e87b3e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 31/32] fix: ids and counts are read in every lexical form of a
 number

---
 .../spreadsheet_2007/services/calculation_chain.rs          | 6 +++++-
 .../spreadsheet/spreadsheet_2007/services/share_string.rs   | 2 +-
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs       | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index 3519977..f3a549a 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -169,8 +169,12 @@ impl CalculationChainPart {
         sheet_id: &str,
         cell_ref: Option<&str>,
     ) -> AnyResult<(), AnyError> {
+        // The same ID may be spelled in different ways
+        let sheet_number = |sheet_id: &str| sheet_id.trim().parse::<u32>().ok();
         let is_entry = |item: &(String, String, usize)| {
-            item.1 == sheet_id && cell_ref.is_none_or(|cell_ref| item.0 == cell_ref)
+            (item.1 == sheet_id
+                || sheet_number(sheet_id).is_some_and(|id| sheet_number(&item.1) == Some(id)))
+                && cell_ref.is_none_or(|cell_ref| item.0 == cell_ref)
         };
         if !self.calculation_collection.iter().any(is_entry) {
             return Ok(());
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 4e699e8..30a3296 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -52,7 +52,7 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                         root.get_attribute().cloned().unwrap_or_default();
                                     let count = attributes
                                         .get("count")
-                                        .and_then(|count| count.parse::<usize>().ok())
+                                        .and_then(|count| count.trim().parse::<usize>().ok())
                                         .unwrap_or(self.stored_count);
                                     attributes.insert(
                                         "count".to_string(),
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 2b2f128..1af9873 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -166,6 +166,7 @@ impl StylePart {
                     attributes
                         .get("numFmtId")
                         .ok_or(anyhow!("numFmtId Attribute Not Found!"))?
+                        .trim()
                         .parse()
                         .context("Number format ID parsing Failed")?,
                     attributes
-- 
2.43.0


From ed4e2f5e1c37f2e8222c3ae848e7c4e85e5ecdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:15 +0000
Subject: [PATCH 32/32] fix: elements that are no records shifted the ids of a
 style table

---
 .../spreadsheet/spreadsheet_2007/services/style.rs  | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 1af9873..a1b3623 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -185,10 +185,21 @@ impl StylePart {
         Ok(())
     }
 
+    /// Elements of another kind are no records and have no index
     fn get_record_ids(xml_doc: &XmlDocument, parent_tag: &str) -> AnyResult<Vec<usize>, AnyError> {
+        let record_tag = match parent_tag {
+            "cellStyleXfs" | "cellXfs" => "xf",
+            _ => parent_tag.trim_end_matches('s'),
+        };
         Ok(
             if let Some(parent_id) = xml_doc.get_first_element_id(vec![parent_tag], None)? {
-                xml_doc.get_child_ids(&parent_id)
+                let mut record_ids = xml_doc.get_child_ids(&parent_id);
+                record_ids.retain(|record_id| {
+                    xml_doc
+                        .get_element(record_id)
+                        .is_some_and(|element| element.get_tag() == record_tag)
+                });
+                record_ids
             } else {
                 Vec::new()
             },
-- 
2.43.0

