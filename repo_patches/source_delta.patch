From 85ccf80b3aae95852513854fb0b429533148441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 01/44] fix: drop the open tree of a deleted part so that it is
 not written back on save

---
 rs/src/files/office_document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 85c2dbb..ac61198 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -54,6 +54,8 @@ impl OfficeDocument {
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
         self.archive_collection.remove(file_name);
+        // Drop the open handle too, else it is written back on save
+        self.xml_document_collection.remove(file_name);
     }
 
     pub(crate) fn get_xml_document_ref(
-- 
2.43.0


From b2d219c5273a8d616800fbabd247b70c06551fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 02/44] fix: accept an XML part that is a single empty root
 element

---
 rs/src/files/xml/xml_serialize.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index d3c8ede..e158b41 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -75,11 +75,21 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
-                    xml_document
-                        .append_child_mut(&tag, Some(&active_xml_element_id))
-                        .context("Insert XML Child Failed.")?
-                        .set_attribute_mut(attributes)
-                        .context("Parser Attribute Validation Failed")?;
+                    if root_loaded {
+                        xml_document
+                            .append_child_mut(&tag, Some(&active_xml_element_id))
+                            .context("Insert XML Child Failed.")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                    } else {
+                        // The document is a single empty root element
+                        xml_document
+                            .create_root_mut(&tag)
+                            .context("Create XML Root Element Failed")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                        root_loaded = true
+                    }
                 }
 
                 // Read text content
-- 
2.43.0


From c9fbb0d752ca3f7bcbe2658c42cc1ad5135fea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 03/44] fix: keep white space, CDATA and split text of XML leaf
 elements

---
 rs/src/files/xml/xml_serialize.rs | 57 ++++++++++++++++++++++++++-----
 rs/src/files/xml/xml_tree.rs      |  5 +++
 2 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index e158b41..3c79b8e 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -1,6 +1,7 @@
 use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
+use quick_xml::escape::unescape;
 use quick_xml::events::BytesStart;
 use quick_xml::{
     events::{
@@ -20,7 +21,8 @@ impl XmlSerializer {
     ) -> AnyResult<XmlDocument, AnyError> {
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
-        reader.config_mut().trim_text(true);
+        // White space is content: " a " in a cell is not "a"
+        reader.config_mut().trim_text(false);
         log_elapsed!(
             || {
                 Self::xml_element_parser(&mut reader, &mut xml_document)
@@ -38,6 +40,7 @@ impl XmlSerializer {
         let mut temp_buffer: Vec<u8> = Vec::new();
         let mut root_loaded = false;
         let mut active_xml_element_id: usize = 0;
+        let mut open_elements: usize = 0;
         loop {
             match reader.read_event_into(&mut temp_buffer) {
                 // Handle errors
@@ -49,6 +52,7 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
+                    open_elements += 1;
                     // Update tree structure
                     if root_loaded {
                         // Add child to parent
@@ -92,14 +96,24 @@ impl XmlSerializer {
                     }
                 }
 
-                // Read text content
+                // Read text content. A comment or CDATA section can split it into several events
                 Result::Ok(Event::Text(byte_text)) => {
-                    let text = byte_text.unescape().context("XML Text parsing error")?;
-                    xml_document
-                        .get_element_mut(&active_xml_element_id)
-                        .ok_or(anyhow!("Converting Option to Result Failed"))
-                        .context("Getting Target Element Failed")?
-                        .set_value_mut(text.to_string());
+                    let raw_text = reader
+                        .decoder()
+                        .decode(&byte_text)
+                        .context("XML Text decoding error")?;
+                    let raw_text = raw_text.replace("\r\n", "\n").replace('\r', "\n");
+                    let text = unescape(&raw_text).context("XML Text parsing error")?;
+                    Self::append_text(xml_document, open_elements, active_xml_element_id, &text)?;
+                }
+
+                Result::Ok(Event::CData(byte_text)) => {
+                    let text = reader
+                        .decoder()
+                        .decode(&byte_text)
+                        .context("XML CDATA decoding error")?;
+                    let text = text.replace("\r\n", "\n").replace('\r', "\n");
+                    Self::append_text(xml_document, open_elements, active_xml_element_id, &text)?;
                 }
 
                 // Handle end tag
@@ -112,7 +126,8 @@ impl XmlSerializer {
                         .ok_or(anyhow!("Converting Option to Result Failed"))
                         .context("Getting Target Element Failed")?;
                     if element.get_tag() == tag {
-                        active_xml_element_id = element.get_parent_id()
+                        active_xml_element_id = element.get_parent_id();
+                        open_elements -= 1;
                     } else {
                         break Err(anyhow!("Invalid XML Tree Parsing Failed."));
                     }
@@ -128,6 +143,30 @@ impl XmlSerializer {
         }
     }
 
+    /// Add text to the current element. White space between child elements is layout only
+    fn append_text(
+        xml_document: &mut XmlDocument,
+        open_elements: usize,
+        element_id: usize,
+        text: &str,
+    ) -> AnyResult<(), AnyError> {
+        if open_elements == 0 {
+            if text.trim().is_empty() {
+                return Ok(());
+            }
+            return Err(anyhow!("Text found outside of the root element"));
+        }
+        let element = xml_document
+            .get_element_mut(&element_id)
+            .ok_or(anyhow!("Converting Option to Result Failed"))
+            .context("Getting Target Element Failed")?;
+        if element.get_child_count() == 0 && !text.is_empty() {
+            let value = format!("{}{}", element.get_value().as_deref().unwrap_or(""), text);
+            element.set_value_mut(value);
+        }
+        Ok(())
+    }
+
     fn get_attributes_string(element: BytesStart) -> AnyResult<HashMap<String, String>, AnyError> {
         element
             .attributes()
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c23d203..1f86526 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -534,6 +534,8 @@ impl XmlElement {
     }
 
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
+        // Text before the first child element is layout white space
+        self.value = None;
         self.children
             .try_borrow_mut()
             .context("Failed to Pull children handle")?
@@ -545,6 +547,7 @@ impl XmlElement {
     }
 
     fn insert_children_before_tag_mut(&mut self, child_id: usize, tag: &str, find_tag: &str) {
+        self.value = None;
         let mut children = self.children.borrow_mut();
         if let Some(index) = children.iter().position(|item| item.tag == find_tag) {
             children.insert(
@@ -566,6 +569,7 @@ impl XmlElement {
     }
 
     fn insert_children_after_tag_mut(&mut self, child_id: usize, tag: &str, find_tag: &str) {
+        self.value = None;
         let mut children = self.children.borrow_mut();
         if let Some(index) = children.iter().rposition(|item| item.tag == find_tag) {
             children.insert(
@@ -584,6 +588,7 @@ impl XmlElement {
     }
 
     fn insert_children_at_mut(&mut self, child_id: usize, position: usize, tag: &str) {
+        self.value = None;
         self.children.borrow_mut().insert(
             position,
             XmlElementChild {
-- 
2.43.0


From 1a475cc1998a63aeaf9e261d75b551c18d54ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 04/44] fix: decode attribute values on load and encode line
 breaks and tabs on save

---
 rs/src/files/xml/xml_deserialize.rs | 21 +++++++++++++++++----
 rs/src/files/xml/xml_serialize.rs   |  8 +++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 3b6c24a..58dd136 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -131,9 +131,9 @@ impl XmlDeSerializer {
                             .iter()
                             .map(|(key, value)| {
                                 if key == "<Default>" {
-                                    format!("xmlns=\"{}\"", value)
+                                    format!("xmlns=\"{}\"", Self::escape_attribute(value))
                                 } else {
-                                    format!("xmlns:{}=\"{}\"", key, value)
+                                    format!("xmlns:{}=\"{}\"", key, Self::escape_attribute(value))
                                 }
                             })
                             .collect::<Vec<String>>()
@@ -150,7 +150,11 @@ impl XmlDeSerializer {
                 format!(
                     " {}",
                     keys.iter()
-                        .map(|key| format!("{}=\"{}\"", key, escape(attributes.get(key).unwrap())))
+                        .map(|key| format!(
+                            "{}=\"{}\"",
+                            key,
+                            Self::escape_attribute(attributes.get(key).unwrap())
+                        ))
                         .collect::<Vec<String>>()
                         .join(" ")
                 )
@@ -166,6 +170,15 @@ impl XmlDeSerializer {
     }
 
     fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
-        format!("{}</{}>", escape(value), xml_element.get_tag())
+        // A literal carriage return would be read back as a line feed
+        let value = escape(value).replace('\r', "&#13;");
+        format!("{}</{}>", value, xml_element.get_tag())
+    }
+
+    fn escape_attribute(value: &str) -> String {
+        escape(value)
+            .replace('\t', "&#9;")
+            .replace('\n', "&#10;")
+            .replace('\r', "&#13;")
     }
 }
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 3c79b8e..7e91a6a 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -174,7 +174,13 @@ impl XmlSerializer {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
                 let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = String::from_utf8_lossy(&attribute.value).to_string();
+                // Literal line breaks and tabs count as a space, references stand for themselves
+                let value: String = String::from_utf8_lossy(&attribute.value)
+                    .replace("\r\n", " ")
+                    .replace(['\r', '\n', '\t'], " ");
+                let value: String = unescape(&value)
+                    .context("Failed to parse attribute value")?
+                    .to_string();
                 Ok((key, value))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
-- 
2.43.0


From d7576965705f342eb12b9dd5ea88f95fcb3f473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 05/44] fix: keep namespace declarations of inner elements on
 their element

---
 rs/src/files/xml/xml_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 1f86526..36e8ae8 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -492,10 +492,11 @@ impl XmlElement {
         {
             return Err(anyhow!("Not All the attribute satisfy naming standards"));
         }
+        // Declarations of the root element are kept by the document, inner ones stay in place
         let ns_keys = keys
             .iter()
             .map(|item| item.to_string())
-            .filter(|item| item.starts_with("xmlns"))
+            .filter(|item| self.id == 0 && (item == "xmlns" || item.starts_with("xmlns:")))
             .clone()
             .collect::<Vec<String>>();
         if !ns_keys.is_empty() {
-- 
2.43.0


From bc4043fe036afa5562eafa9153cbaeb2e0a3c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 06/44] fix: leave elements unknown to the schema order behind
 the sibling they follow

---
 rs/src/files/xml/xml_tree.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 36e8ae8..a10d1d9 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -466,12 +466,21 @@ impl XmlElement {
                 .enumerate()
                 .map(|(index, &tag)| (tag, index))
                 .collect();
-            self.children.borrow_mut().sort_by_key(|item| {
-                order_map
-                    .get(item.tag.as_str())
-                    .cloned()
-                    .unwrap_or(usize::MAX)
-            });
+            // An element unknown to the skeleton stays behind the sibling it follows
+            let mut children = self.children.borrow_mut();
+            let mut last_position = 0;
+            let mut ordered: Vec<(usize, XmlElementChild)> = children
+                .drain(..)
+                .map(|item| {
+                    last_position = order_map
+                        .get(item.tag.as_str())
+                        .cloned()
+                        .unwrap_or(last_position);
+                    (last_position, item)
+                })
+                .collect();
+            ordered.sort_by_key(|(position, _)| *position);
+            children.extend(ordered.into_iter().map(|(_, item)| item));
         }
         Ok(())
     }
-- 
2.43.0


From 8fb08575d3113a7711712b5d29371f642595c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 07/44] fix: order sheetProtection and legacyDrawing as the
 worksheet schema requires

---
 rs/src/global/references/order_dictionary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 366d6b6..1eb8c4c 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -11,7 +11,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
     ],
     "worksheet"=>&["sheetPr","dimension","sheetViews",
         "sheetFormatPr","cols","sheetData",
-        "sheetCalcPr","protectedRanges","scenarios",
+        "sheetCalcPr","sheetProtection","protectedRanges","scenarios",
         "autoFilter","sortState","dataConsolidate",
         "customSheetViews","mergeCells","phoneticPr",
         "conditionalFormatting",
@@ -19,7 +19,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
         "pageMargins","pageSetup","headerFooter",
         "rowBreaks","colBreaks","customProperties",
         "cellWatches","ignoredErrors","smartTags",
-        "drawing","drawingHF","picture",
+        "drawing","legacyDrawing","legacyDrawingHF","drawingHF","picture",
         "oleObjects","controls","webPublishItems",
         "tableParts","extLst",
     ],
-- 
2.43.0


From 3ac03cf71dcfd897d08a39146fa54bae06005089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 08/44] fix: count open parts as existing when a part name is
 chosen

---
 rs/src/files/office_document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index ac61198..e552dd4 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -49,7 +49,9 @@ impl OfficeDocument {
     }
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
+        // A part added in this session is only open until it is closed the first time
         self.archive_collection.contains_key(&file_path)
+            || self.xml_document_collection.contains_key(&file_path)
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
-- 
2.43.0


From cc0590e48054e1f37f9034ba038b00dc58c62cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 09/44] fix: refuse to save while a worksheet handle is open
 instead of dropping its content

---
 rs/src/files/office_document.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index e552dd4..999bc0a 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -155,15 +155,12 @@ impl OfficeDocument {
 
     /// Save Current Document to final result
     pub(crate) fn save_as(&mut self, file_path: &str) -> AnyResult<(), AnyError> {
-        // Save the live content update object to database
-        let keys = self
-            .xml_document_collection
-            .keys()
-            .cloned()
-            .collect::<Vec<String>>();
-        for key_file_path in keys {
-            self.close_xml_document(&key_file_path)
-                .context(" Saving open object content failed")?;
+        // The content of an open part is held by its handle, writing its tree would lose it
+        if let Some(open_part) = self.xml_document_collection.keys().next() {
+            return Err(anyhow!(
+                "Close all open handles before save. Part still open : {}",
+                open_part
+            ));
         }
         let file_content: Vec<u8> = self
             .save_database_into_archive()
-- 
2.43.0


From b69eb95dab5798f201857e2b8274342fbdf151aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 10/44] fix: replace the target file of a save in one step,
 keep it when the save fails

---
 rs/src/files/office_document.rs | 56 +++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 999bc0a..51e4deb 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,8 +7,9 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::{HashMap, HashSet},
-    fs::{metadata, remove_file, File},
-    io::{Cursor, Read, Write},
+    fs::{canonicalize, metadata, remove_file, rename, File, OpenOptions},
+    io::{Cursor, ErrorKind, Read, Write},
+    path::PathBuf,
     rc::{Rc, Weak},
 };
 use zip::{write::SimpleFileOptions, ZipArchive, ZipWriter};
@@ -165,12 +166,55 @@ impl OfficeDocument {
         let file_content: Vec<u8> = self
             .save_database_into_archive()
             .context("Save Archive Data into Database")?;
-        if metadata(file_path).is_ok() {
-            remove_file(file_path).map_err(|e| anyhow!("Remove Save File Target Failed. {}", e))?;
+        Self::replace_file(file_path, &file_content)
+    }
+
+    /// Write the new content next to the target and move it over the target in one step
+    fn replace_file(file_path: &str, file_content: &[u8]) -> AnyResult<(), AnyError> {
+        // Write through a link to the file it stands for
+        let target = canonicalize(file_path).unwrap_or(PathBuf::from(file_path));
+        let directory = match target.parent() {
+            Some(parent) if !parent.as_os_str().is_empty() => parent.to_path_buf(),
+            _ => PathBuf::from("."),
+        };
+        let existing = metadata(&target).ok();
+        if existing.as_ref().is_some_and(|item| !item.is_file()) {
+            return Err(anyhow!("Save File Target is not a file"));
         }
-        let mut file = File::create(file_path).context("Create Save File Failed")?;
-        file.write_all(&file_content)
+        let mut attempt = 0;
+        let (mut file, temp_path) = loop {
+            let temp_path = directory.join(format!(
+                ".openxml-office-{}-{}.tmp",
+                std::process::id(),
+                attempt
+            ));
+            match OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(&temp_path)
+            {
+                Ok(file) => break (file, temp_path),
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => attempt += 1,
+                Err(e) => return Err(e).context("Create Save File Failed"),
+            }
+        };
+        let result = file
+            .write_all(file_content)
             .context("Save File Write Failed")
+            .and_then(|_| match existing {
+                Some(existing) => file
+                    .set_permissions(existing.permissions())
+                    .context("Save File Permission Failed"),
+                None => Ok(()),
+            })
+            .and_then(|_| {
+                drop(file);
+                rename(&temp_path, &target).context("Replace Save File Target Failed")
+            });
+        if result.is_err() {
+            let _ = remove_file(&temp_path);
+        }
+        result
     }
 
     /// Save the database content into file archive
-- 
2.43.0


From 7a3e6e9fa8d0111350f5651755ec6e0c12ec7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 11/44] fix: leave a worksheet that can not be read as it was

---
 rs/src/files/office_document.rs               | 13 +++-
 .../spreadsheet_2007/parts/worksheet.rs       | 61 ++++++++++++++-----
 2 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 51e4deb..1da4bec 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -95,11 +95,13 @@ impl OfficeDocument {
             ));
         }
         if let Some((file_extension, extension_type, content_type, _, _, _, file_content)) =
-            self.archive_collection.remove(file_path)
+            self.archive_collection.get(file_path)
         {
-            let content = file_content.ok_or(anyhow!("Failed To Get content vec"))?;
+            let content = file_content
+                .as_ref()
+                .ok_or(anyhow!("Failed To Get content vec"))?;
             let decompressed_data =
-                decompress_content(&content).context("Raw Content Decompression Failed")?;
+                decompress_content(content).context("Raw Content Decompression Failed")?;
             let xml_tree: XmlDocument =
                 XmlSerializer::vec_to_xml_doc_tree(decompressed_data, file_path)
                     .context("Xml Serializer Failed")?;
@@ -114,6 +116,11 @@ impl OfficeDocument {
         }
     }
 
+    /// Give up an open XML tree, the part keeps the content it had before it was opened
+    pub(crate) fn discard_xml_document(&mut self, file_path: &str) {
+        self.xml_document_collection.remove(file_path);
+    }
+
     /// Update the XML tree data to database and close the refCell
     pub(crate) fn close_xml_document(&mut self, file_path: &str) -> AnyResult<(), AnyError> {
         if let Some((xml_document, content_type, file_extension, extension_type)) =
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0836483..9339213 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -227,21 +227,18 @@ impl WorkSheet {
         )
         .context("Failed to pull calc chain file name")?;
         let xml_document = Self::get_xml_document(&office_document, &file_path)?;
-        let sheet_relationship_part = Rc::new(RefCell::new(
-            RelationsPart::new(
-                office_document.clone(),
-                &format!(
-                    "{}/_rels/{}.rels",
-                    &file_path[..file_path.rfind("/").unwrap()],
-                    file_path.rsplit("/").next().unwrap()
-                ),
-            )
-            .context("Creating Relation ship part for workbook failed.")?,
-        ));
-        let (column_collection, sheet_data, sheet_views, dimension) = log_elapsed!(
-            || { Self::initialize_worksheet(&xml_document).context("Failed to open Worksheet") },
-            "Worksheet Initialize Time"
-        )?;
+        let opened = Self::open_worksheet_content(&office_document, &xml_document, &file_path);
+        if opened.is_err() {
+            // Nothing of a sheet that can not be read may change
+            if let Some(office_document) = office_document.upgrade() {
+                office_document
+                    .try_borrow_mut()
+                    .context("Failed to pull office document")?
+                    .discard_xml_document(&file_path);
+            }
+        }
+        let (sheet_relationship_part, (column_collection, sheet_data, sheet_views, dimension)) =
+            opened?;
         Ok(Self {
             office_document,
             xml_document,
@@ -258,6 +255,40 @@ impl WorkSheet {
         })
     }
 
+    fn open_worksheet_content(
+        office_document: &Weak<RefCell<OfficeDocument>>,
+        xml_document: &Weak<RefCell<XmlDocument>>,
+        file_path: &str,
+    ) -> AnyResult<
+        (
+            Rc<RefCell<RelationsPart>>,
+            (
+                Option<VecDeque<ColumnProperties>>,
+                Option<BTreeMap<u32, RowData>>,
+                WorkSheetViews,
+                Dimension,
+            ),
+        ),
+        AnyError,
+    > {
+        let content = log_elapsed!(
+            || { Self::initialize_worksheet(xml_document).context("Failed to open Worksheet") },
+            "Worksheet Initialize Time"
+        )?;
+        let sheet_relationship_part = Rc::new(RefCell::new(
+            RelationsPart::new(
+                office_document.clone(),
+                &format!(
+                    "{}/_rels/{}.rels",
+                    &file_path[..file_path.rfind("/").unwrap()],
+                    file_path.rsplit("/").next().unwrap()
+                ),
+            )
+            .context("Creating Relation ship part for workbook failed.")?,
+        ));
+        Ok((sheet_relationship_part, content))
+    }
+
     fn initialize_worksheet(
         xml_document: &Weak<RefCell<XmlDocument>>,
     ) -> AnyResult<
-- 
2.43.0


From eec9e97138e0d2c71a7143a1bcda596053cd75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 12/44] fix: leave a relationship part that can not be read as
 it was

---
 rs/src/global/global_2007/parts/relations.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index dfc4258..4ab142e 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -77,8 +77,16 @@ impl RelationsPart {
         file_name: &str,
     ) -> AnyResult<Self, AnyError> {
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let relationships =
-            Self::load_relations(&mut xml_document).context("Failed to decode Relations")?;
+        let relationships = Self::load_relations(&mut xml_document);
+        if relationships.is_err() {
+            if let Some(office_document) = office_document.upgrade() {
+                office_document
+                    .try_borrow_mut()
+                    .context("Failed to Pull Open XML Handle")?
+                    .discard_xml_document(file_name);
+            }
+        }
+        let relationships = relationships.context("Failed to decode Relations")?;
         Ok(Self {
             office_document,
             xml_document,
-- 
2.43.0


From 3b588e83849dbc22fe9d49f34fe67f14f5fb0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 13/44] fix: write one default content type per extension and
 none for parts without one

---
 rs/src/files/office_document.rs | 39 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 1da4bec..c4001b8 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -6,7 +6,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap},
     fs::{canonicalize, metadata, remove_file, rename, File, OpenOptions},
     io::{Cursor, ErrorKind, Read, Write},
     path::PathBuf,
@@ -226,7 +226,8 @@ impl OfficeDocument {
 
     /// Save the database content into file archive
     fn save_database_into_archive(&self) -> AnyResult<Vec<u8>, AnyError> {
-        let mut extensions: Vec<(String, String)> = Vec::new();
+        let mut extensions: BTreeMap<String, String> = BTreeMap::new();
+        let mut unused_extensions: Vec<(String, String)> = Vec::new();
         let mut overrides: Vec<(String, String)> = Vec::new();
         let mut buffer = Cursor::new(Vec::new());
         let mut zip_writer: ZipWriter<&mut Cursor<Vec<u8>>> = ZipWriter::new(&mut buffer);
@@ -246,9 +247,19 @@ impl OfficeDocument {
                 ),
             ) in self.archive_collection.to_owned()
             {
-                extensions.push((file_extension, extension_type));
                 if let Some(content_type) = content_type {
                     overrides.push((format!("/{}", file_name), content_type));
+                    if !file_extension.is_empty() {
+                        unused_extensions.push((file_extension.to_lowercase(), extension_type));
+                    }
+                } else if !file_extension.is_empty() {
+                    // An extension stands for one type only, a part of another type names its own
+                    let default_type = extensions
+                        .entry(file_extension.to_lowercase())
+                        .or_insert(extension_type.clone());
+                    if *default_type != extension_type {
+                        overrides.push((format!("/{}", file_name), extension_type));
+                    }
                 }
                 zip_writer
                     .start_file(file_name, zip_option)
@@ -262,16 +273,15 @@ impl OfficeDocument {
                 }
             }
         }
+        for (file_extension, extension_type) in unused_extensions {
+            extensions.entry(file_extension).or_insert(extension_type);
+        }
         // Insert Content Type Details into Archive
         zip_writer
             .start_file("[Content_Types].xml", zip_option)
             .context("Zip File Write Start Fail")?;
         let content_type_file = ContentTypesPart::create_xml_file(
-            extensions
-                .into_iter()
-                .collect::<HashSet<_>>()
-                .into_iter()
-                .collect::<Vec<_>>(),
+            extensions.into_iter().collect::<Vec<_>>(),
             overrides,
         )
         .context("Creating Content Type XML Failed")?;
@@ -312,7 +322,7 @@ impl OfficeDocument {
             .context("Failed to uncompress [Content_Types].xml")?;
         let file_names = zip_read
             .file_names()
-            .filter(|name| "[Content_Types].xml" != *name)
+            .filter(|name| "[Content_Types].xml" != *name && !name.ends_with("/"))
             .map(|item| item.to_string())
             .collect::<Vec<_>>();
         let mut content_types_part =
@@ -325,10 +335,13 @@ impl OfficeDocument {
             let mut file_extension = String::new();
             let mut extension_type = String::new();
             let mut uncompressed_data = Vec::new();
-            let f_extension = file_name.rsplit(".").next();
-            if let Some(f_extension) = f_extension {
-                if let Some(extensions) = extension_collection.clone() {
-                    let item = extensions.iter().find(|item| item.0 == f_extension);
+            let part_name = file_name.rsplit("/").next().unwrap_or(&file_name);
+            if let Some((_, f_extension)) = part_name.rsplit_once(".") {
+                if let Some(extensions) = extension_collection.as_ref() {
+                    // Extensions are compared without case
+                    let item = extensions
+                        .iter()
+                        .find(|item| item.0.eq_ignore_ascii_case(f_extension));
                     if let Some(extension) = item {
                         file_extension = extension.0.to_string();
                         extension_type = extension.1.to_string();
-- 
2.43.0


From 9b23c3851977e31cb7a47e57729be8466cfad410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 14/44] fix: report a content type override without type as an
 error

---
 rs/src/global/global_2007/parts/content_types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 707cb4a..3d4af61 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -55,7 +55,10 @@ impl ContentTypesPart {
             if let Some(id) = find_ids.pop() {
                 if let Some(element) = self.xml_document.pop_element_mut(&id) {
                     if let Some(attributes) = element.get_attribute() {
-                        let res = attributes.get("ContentType").unwrap().to_string();
+                        let res = attributes
+                            .get("ContentType")
+                            .ok_or(anyhow!("content type override attribute missing"))?
+                            .to_string();
                         return Ok(Some(res));
                     }
                 }
-- 
2.43.0


From c3f40d6a47d8bed5d5aedbd45a31f71fcf75e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 15/44] fix: resolve relative relationship targets with dot
 segments

---
 rs/src/global/global_2007/parts/relations.rs | 46 ++++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 4ab142e..22ed005 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -137,7 +137,7 @@ impl RelationsPart {
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .find("_rels")
+            .rfind("_rels")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
@@ -146,6 +146,26 @@ impl RelationsPart {
         }
     }
 
+    /// Part name a relationship target stands for, without the leading slash
+    fn resolve_target(&self, target: &str) -> AnyResult<String, AnyError> {
+        let full_path = if target.starts_with("/") {
+            target.to_string()
+        } else {
+            format!("{}{}", self.get_relative_path()?, target)
+        };
+        let mut segments: Vec<&str> = Vec::new();
+        for segment in full_path.split("/") {
+            match segment {
+                "" | "." => {}
+                ".." => {
+                    segments.pop();
+                }
+                _ => segments.push(segment),
+            }
+        }
+        Ok(segments.join("/"))
+    }
+
     pub(crate) fn get_target_by_id(
         &self,
         relationship_id: &str,
@@ -155,15 +175,10 @@ impl RelationsPart {
             .iter()
             .find(|item| item.0 == relationship_id)
         {
-            let file_path = record.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(Some(file_path.strip_prefix("/").unwrap().to_string()))
-            } else {
-                Ok(Some(format!("{}{}", relative_path, file_path)))
-            }
+            Ok(Some(
+                self.resolve_target(&record.1)
+                    .context("Get Relative Path for Part File")?,
+            ))
         } else {
             Ok(None)
         }
@@ -183,15 +198,8 @@ impl RelationsPart {
             .iter()
             .find(|item| item.2 == content_type)
         {
-            let file_path = relationship.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(file_path.strip_prefix("/").unwrap().to_string())
-            } else {
-                Ok(format!("{}{}", relative_path, file_path))
-            }
+            self.resolve_target(&relationship.1)
+                .context("Get Relative Path for Part File")
         } else {
             self.set_new_relationship_mut(content, file_path.clone(), file_name.clone())
                 .context("Setting New Theme Relationship Failed.")?;
-- 
2.43.0


From 0b3bb9f9b8951c59d71aa589d35354a9bb89fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 16/44] fix: remove the relationship of a deleted part whatever
 form its target has

---
 rs/src/global/global_2007/parts/relations.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 22ed005..362cd69 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -288,13 +288,14 @@ impl RelationsPart {
 
     /// Delete the target file path
     pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) {
-        self.relationships.retain(|item| {
-            item.1
-                != if file_path.starts_with("/") {
-                    file_path.to_string()
-                } else {
-                    format!("/{}", file_path)
-                }
-        })
+        let file_path = file_path.strip_prefix("/").unwrap_or(file_path);
+        let mut relationships = std::mem::take(&mut self.relationships);
+        relationships.retain(|item| {
+            item.3.as_deref() == Some("External")
+                || self
+                    .resolve_target(&item.1)
+                    .map_or(true, |target| target != file_path)
+        });
+        self.relationships = relationships;
     }
 }
-- 
2.43.0


From af5518a57d6c3f7a0064208160be4a558f7a05df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 17/44] fix: find the relationships of parts at the package
 root or with another name

---
 rs/src/global/global_2007/parts/relations.rs           | 10 +++++++++-
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs  |  5 +----
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs |  6 +-----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 362cd69..2570cf0 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -134,10 +134,18 @@ impl RelationsPart {
         Ok(relationships)
     }
 
+    /// Name of the relationship part that belongs to a part
+    pub(crate) fn get_relation_file_name(part_path: &str) -> String {
+        match part_path.rsplit_once("/") {
+            Some((directory, name)) => format!("{}/_rels/{}.rels", directory, name),
+            None => format!("_rels/{}.rels", part_path),
+        }
+    }
+
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .rfind("_rels")
+            .rfind("_rels/")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 186df49..71051ff 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -249,10 +249,7 @@ impl XmlDocumentPart for WorkbookPart {
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
-                        &format!(
-                            "{}/_rels/workbook.xml.rels",
-                            &file_name[..file_name.rfind("/").unwrap()]
-                        ),
+                        &RelationsPart::get_relation_file_name(&file_name),
                     )
                     .context("Creating Relation ship part for workbook failed.")?,
                 ));
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 9339213..998fcb7 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -278,11 +278,7 @@ impl WorkSheet {
         let sheet_relationship_part = Rc::new(RefCell::new(
             RelationsPart::new(
                 office_document.clone(),
-                &format!(
-                    "{}/_rels/{}.rels",
-                    &file_path[..file_path.rfind("/").unwrap()],
-                    file_path.rsplit("/").next().unwrap()
-                ),
+                &RelationsPart::get_relation_file_name(file_path),
             )
             .context("Creating Relation ship part for workbook failed.")?,
         ));
-- 
2.43.0


From 9bec267b6cf1106bf9a64ba52a30f15bf848a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 18/44] fix: set the modified and created time whatever prefix
 the core properties use

---
 rs/src/files/xml/xml_tree.rs                  | 11 ++++
 .../global_2007/parts/core_properties.rs      | 64 +++++++++++--------
 2 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index a10d1d9..31305a6 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -85,6 +85,17 @@ impl XmlDocument {
         None
     }
 
+    /// Find a child of the root element whatever prefix its name has
+    pub(crate) fn get_root_child_id_by_local_name(&self, local_name: &str) -> Option<usize> {
+        self.get_root().and_then(|root| {
+            root.children
+                .borrow()
+                .iter()
+                .find(|item| item.tag.rsplit(":").next() == Some(local_name))
+                .map(|item| item.id)
+        })
+    }
+
     pub(crate) fn get_element(&self, element_id: &usize) -> Option<&XmlElement> {
         self.xml_element_collection.get(element_id)
     }
diff --git a/rs/src/global/global_2007/parts/core_properties.rs b/rs/src/global/global_2007/parts/core_properties.rs
index 1c391e2..d91401f 100644
--- a/rs/src/global/global_2007/parts/core_properties.rs
+++ b/rs/src/global/global_2007/parts/core_properties.rs
@@ -1,6 +1,6 @@
 use crate::{
     element_dictionary::COMMON_TYPE_COLLECTION,
-    files::{OfficeDocument, XmlDocument, XmlSerializer},
+    files::{OfficeDocument, XmlDocument, XmlElement, XmlSerializer},
     global_2007::{
         parts::RelationsPart,
         traits::{XmlDocumentPart, XmlDocumentPartCommon},
@@ -8,7 +8,7 @@ use crate::{
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use chrono::Utc;
-use std::{cell::RefCell, rc::Weak};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
 
 #[derive(Debug)]
 pub struct CorePropertiesPart {
@@ -49,31 +49,14 @@ impl XmlDocumentPartCommon for CorePropertiesPart {
             let mut xml_document = xml_document_ref
                 .try_borrow_mut()
                 .context("Failed to Pull Office document")?;
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:modified"], None)
-            {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        element.set_value_mut(
-                            Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                        );
-                    }
-                }
-                Err(_) => (),
-            }
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:created"], None)
-            {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        if !element.has_value() {
-                            element.set_value_mut(
-                                Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                            );
-                        }
-                    }
-                }
-                Err(_) => (),
+            let time_now = Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true);
+            Self::get_time_element_mut(&mut xml_document, "modified")
+                .context("Failed to get modified time element")?
+                .set_value_mut(time_now.clone());
+            let created_element = Self::get_time_element_mut(&mut xml_document, "created")
+                .context("Failed to get created time element")?;
+            if !created_element.has_value() {
+                created_element.set_value_mut(time_now);
             }
         }
         // Update the current state to DB before dropping the object
@@ -106,6 +89,33 @@ impl XmlDocumentPart for CorePropertiesPart {
 }
 
 impl CorePropertiesPart {
+    /// Get the element of a time property, a document can come without it
+    fn get_time_element_mut<'a>(
+        xml_document: &'a mut XmlDocument,
+        name: &str,
+    ) -> AnyResult<&'a mut XmlElement, AnyError> {
+        if let Some(element_id) = xml_document.get_root_child_id_by_local_name(name) {
+            return xml_document
+                .get_element_mut(&element_id)
+                .ok_or(anyhow!("Core Property Element not Found"));
+        }
+        let mut attributes = HashMap::new();
+        attributes.insert(
+            "xmlns:dcterms".to_string(),
+            "http://purl.org/dc/terms/".to_string(),
+        );
+        attributes.insert(
+            "xmlns:xsi".to_string(),
+            "http://www.w3.org/2001/XMLSchema-instance".to_string(),
+        );
+        attributes.insert("xsi:type".to_string(), "dcterms:W3CDTF".to_string());
+        xml_document
+            .append_child_mut(&format!("dcterms:{}", name), None)
+            .context("Add Core Property Element Failed")?
+            .set_attribute_mut(attributes)
+            .context("Set Core Property Attribute Failed")
+    }
+
     fn get_core_properties_file_name(
         relations_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<String, AnyError> {
-- 
2.43.0


From 0a8396bd5ee426fbf27719d5442bbf87566e3636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 19/44] fix: keep sheet records, book views and sheet positions
 of the workbook over a save

---
 rs/src/files/xml/xml_tree.rs                  |  41 +++
 .../spreadsheet_2007/parts/workbook.rs        | 304 ++++++++++++++++--
 2 files changed, 311 insertions(+), 34 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 31305a6..f2bdb0e 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -96,6 +96,12 @@ impl XmlDocument {
         })
     }
 
+    /// Ids of all children with the tag
+    pub(crate) fn get_child_ids(&self, parent_id: &usize, filter_tag: &str) -> Vec<usize> {
+        self.get_element_ids_by_tag(filter_tag, Some(parent_id))
+            .unwrap_or_default()
+    }
+
     pub(crate) fn get_element(&self, element_id: &usize) -> Option<&XmlElement> {
         self.xml_element_collection.get(element_id)
     }
@@ -146,6 +152,32 @@ impl XmlDocument {
         }
     }
 
+    /// Remove one child from the parent element
+    pub(crate) fn remove_child_mut(&mut self, parent_id: &usize, child_id: &usize) {
+        if let Some(parent_element) = self.xml_element_collection.get(parent_id) {
+            parent_element
+                .children
+                .borrow_mut()
+                .retain(|item| item.id != *child_id);
+        }
+        self.xml_element_collection.remove(child_id);
+    }
+
+    /// Take all children out of an element that itself stays in its place
+    pub(crate) fn take_children_mut(&mut self, element_id: &usize) -> Option<XmlElement> {
+        let element = self.xml_element_collection.get_mut(element_id)?;
+        let children = element.children.borrow_mut().drain(..).collect();
+        Some(XmlElement {
+            id: element.id,
+            parent_id: element.parent_id,
+            tag: element.tag.clone(),
+            attributes: element.attributes.clone(),
+            value: element.value.clone(),
+            children: Rc::new(RefCell::new(children)),
+            namespace_collection_ref: element.namespace_collection_ref.clone(),
+        })
+    }
+
     pub(crate) fn pop_element_mut(&mut self, element_id: &usize) -> Option<XmlElement> {
         self.xml_element_collection.remove(element_id)
     }
@@ -409,6 +441,15 @@ impl XmlElement {
         self.children.borrow().len()
     }
 
+    /// Id and tag of all children
+    pub(crate) fn get_children(&self) -> Vec<(usize, String)> {
+        self.children
+            .borrow()
+            .iter()
+            .map(|item| (item.id, item.tag.clone()))
+            .collect()
+    }
+
     pub(crate) fn get_tag(&self) -> &str {
         &self.tag
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 71051ff..007a2b3 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -32,6 +32,64 @@ pub struct WorkbookPart {
     /// This contain the sheet name, relationId, active sheet, hide sheet
     sheet_collection: Rc<RefCell<Vec<(String, String, bool, bool)>>>,
     workbook_view: Option<WorkbookView>,
+    loaded_sheets: LoadedSheets,
+}
+
+/// The sheet records of the opened file, used to keep what the session does not change
+#[derive(Debug, Default)]
+pub(crate) struct LoadedSheets {
+    /// Relationship ids in file order, None once the sheet is deleted
+    relationship_ids: Vec<Option<String>>,
+    /// Key : Relationship Id -> Value : attributes of the sheet record
+    attributes: HashMap<String, HashMap<String, String>>,
+    max_sheet_id: usize,
+}
+
+impl LoadedSheets {
+    /// Forget deleted sheets, so that a new sheet reusing the relationship id does not inherit from it
+    fn forget_deleted_mut(&mut self, sheet_collection: &[(String, String, bool, bool)]) {
+        for item in self.relationship_ids.iter_mut() {
+            if let Some(relationship_id) = item.clone() {
+                if !sheet_collection.iter().any(|(_, id, _, _)| *id == relationship_id) {
+                    self.attributes.remove(&relationship_id);
+                    *item = None;
+                }
+            }
+        }
+    }
+
+    /// Current position of the sheet that had the position in the opened file
+    fn get_current_position(
+        &self,
+        loaded_position: usize,
+        sheet_collection: &[(String, String, bool, bool)],
+    ) -> Option<usize> {
+        let relationship_id = self.relationship_ids.get(loaded_position)?.as_ref()?;
+        sheet_collection
+            .iter()
+            .position(|(_, id, _, _)| id == relationship_id)
+    }
+
+    /// Same as get_current_position, with the closest sheet for one that is not there any more
+    fn get_closest_position(
+        &self,
+        loaded_position: usize,
+        sheet_collection: &[(String, String, bool, bool)],
+    ) -> Option<usize> {
+        self.get_current_position(loaded_position, sheet_collection)
+            .or_else(|| {
+                let position = self
+                    .relationship_ids
+                    .iter()
+                    .take(loaded_position)
+                    .filter(|item| item.is_some())
+                    .count();
+                sheet_collection
+                    .len()
+                    .checked_sub(1)
+                    .map(|last| position.min(last))
+            })
+    }
 }
 
 #[derive(Debug)]
@@ -113,17 +171,49 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     let mut xml_doc_mut = xml_document_mut
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
-                    let mut sheet_count = 1;
+                    let sheet_collection = self
+                        .sheet_collection
+                        .try_borrow_mut()
+                        .context("Failed to pull Sheet Name Collection")?
+                        .clone();
+                    self.loaded_sheets.forget_deleted_mut(&sheet_collection);
+                    let active_position = sheet_collection
+                        .iter()
+                        .position(|(_, _, active_sheet, _)| *active_sheet);
+                    if self.workbook_view.is_none() && active_position.unwrap_or(0) > 0 {
+                        self.workbook_view = Some(WorkbookView::default());
+                    }
                     if let Some(workbook_view) = &self.workbook_view {
-                        // Create and Set BookViews
-                        let book_views_id = xml_doc_mut
+                        // Find or Create BookViews
+                        let book_views_id = if let Some(book_views_id) = xml_doc_mut
+                            .get_first_element_id(vec!["bookViews"], None)
+                            .context("Failed to find book views")?
+                        {
+                            book_views_id
+                        } else {
+                            xml_doc_mut
                             .insert_children_after_tag_mut("bookViews", "fileVersion", None)
                             .context("Create book viewsD Node Failed")?
-                            .get_id();
-                        let workbook_view_element = xml_doc_mut
+                            .get_id()
+                        };
+                        let workbook_view_id = if let Some(workbook_view_id) = xml_doc_mut
+                            .get_first_element_id(vec!["workbookView"], Some(&book_views_id))
+                            .context("Failed to find workbook view")?
+                        {
+                            workbook_view_id
+                        } else {
+                            xml_doc_mut
                             .append_child_mut("workbookView", Some(&book_views_id))
-                            .context("Failed to create workbook view")?;
-                        let mut attributes: HashMap<String, String> = HashMap::new();
+                            .context("Failed to create workbook view")?
+                            .get_id()
+                        };
+                        let workbook_view_element = xml_doc_mut
+                            .get_element_mut(&workbook_view_id)
+                            .ok_or(anyhow!("Failed to get workbook view"))?;
+                        let mut attributes: HashMap<String, String> = workbook_view_element
+                            .get_attribute()
+                            .cloned()
+                            .unwrap_or_default();
                         if let Some(active_tab) = &workbook_view.active_tab {
                             attributes.insert("activeTab".to_string(), active_tab.clone());
                         }
@@ -137,7 +227,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             &workbook_view.auto_filter_date_grouping
                         {
                             attributes.insert(
-                                "tabRatio".to_string(),
+                                "autoFilterDateGrouping".to_string(),
                                 if auto_filter_date_grouping.to_owned() {
                                     "1".to_string()
                                 } else {
@@ -184,31 +274,46 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             .set_attribute_mut(attributes)
                             .context("Failed to set workbook view attributes")?;
                     }
+                    self.loaded_sheets
+                        .serialize_positions(
+                            &mut xml_doc_mut,
+                            active_position,
+                            &sheet_collection,
+                        )
+                        .context("Failed to update sheet positions")?;
                     // Create and set Sheets
-                    let sheets_id = xml_doc_mut
+                    let sheets_id = if let Some(sheets_id) = xml_doc_mut
+                        .get_first_element_id(vec!["sheets"], None)
+                        .context("Failed to find Sheets")?
+                    {
+                        sheets_id
+                    } else {
+                        xml_doc_mut
                         .insert_children_after_tag_mut("sheets", "bookViews", None)
                         .context("Create Sheets Node Failed")?
-                        .get_id();
-                    for (sheet_display_name, relationship_id, _, hide) in &self
-                        .sheet_collection
-                        .try_borrow_mut()
-                        .context("Failed to pull Sheet Name Collection")?
-                        .clone()
+                        .get_id()
+                    };
+                    let mut sheet_count = self.loaded_sheets.max_sheet_id + 1;
+                    for (sheet_display_name, relationship_id, _, hide) in &sheet_collection
                     {
                         let sheet = xml_doc_mut
                             .append_child_mut("sheet", Some(&sheets_id))
                             .context("Create Sheet Node Failed")?;
                         let mut attributes = HashMap::new();
-                        attributes.insert("name".to_string(), sheet_display_name.to_string());
+                        if let Some(loaded) = self.loaded_sheets.attributes.get(relationship_id) {
+                            attributes = loaded.clone();
+                        } else {
                         attributes.insert("sheetId".to_string(), sheet_count.to_string());
                         attributes.insert("r:id".to_string(), relationship_id.to_string());
+                        sheet_count += 1;
+                        }
+                        attributes.insert("name".to_string(), sheet_display_name.to_string());
                         if *hide {
                             attributes.insert("state".to_string(), "hidden".to_string());
                         }
                         sheet
                             .set_attribute_mut(attributes)
                             .context("Sheet Attributes Failed")?;
-                        sheet_count += 1;
                     }
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
@@ -282,7 +387,7 @@ impl XmlDocumentPart for WorkbookPart {
                     share_string,
                     style,
                 )));
-                let (sheet_collection, workbook_view) =
+                let (sheet_collection, workbook_view, loaded_sheets) =
                     Self::load_sheet_names(&mut file_tree).context("Loading Sheet Names Failed")?;
                 Ok(Self {
                     office_document,
@@ -293,6 +398,7 @@ impl XmlDocumentPart for WorkbookPart {
                     theme_part,
                     sheet_collection: Rc::new(RefCell::new(sheet_collection)),
                     workbook_view,
+                    loaded_sheets,
                 })
             },
             "Create New Workbook"
@@ -300,29 +406,112 @@ impl XmlDocumentPart for WorkbookPart {
     }
 }
 
+impl LoadedSheets {
+    /// Positions of sheets recorded elsewhere in the workbook follow their sheet
+    fn serialize_positions(
+        &self,
+        xml_doc_mut: &mut XmlDocument,
+        active_position: Option<usize>,
+        sheet_collection: &[(String, String, bool, bool)],
+    ) -> AnyResult<(), AnyError> {
+        if let Some(book_views_id) = xml_doc_mut
+            .get_first_element_id(vec!["bookViews"], None)
+            .context("Failed to find book views")?
+        {
+            let mut active_position = active_position;
+            for view_id in xml_doc_mut.get_child_ids(&book_views_id, "workbookView") {
+                if let Some(view) = xml_doc_mut.get_element_mut(&view_id) {
+                    let mut attributes = view.get_attribute().cloned().unwrap_or_default();
+                    for key in ["activeTab", "firstSheet"] {
+                        if let Some(value) = attributes.get(key).cloned() {
+                            match self.get_closest_position(
+                                value.parse().unwrap_or(usize::MAX),
+                                sheet_collection,
+                            ) {
+                                Some(position) => {
+                                    attributes.insert(key.to_string(), position.to_string())
+                                }
+                                None => attributes.remove(key),
+                            };
+                        }
+                    }
+                    // The session sets the active sheet of the first window
+                    if let Some(position) = active_position.take() {
+                        if position > 0 || attributes.contains_key("activeTab") {
+                            attributes.insert("activeTab".to_string(), position.to_string());
+                        }
+                    }
+                    view.set_attribute_mut(attributes)
+                        .context("Failed to set workbook view attributes")?;
+                }
+            }
+        }
+        if let Some(defined_names_id) = xml_doc_mut
+            .get_first_element_id(vec!["definedNames"], None)
+            .context("Failed to find defined names")?
+        {
+            for name_id in xml_doc_mut.get_child_ids(&defined_names_id, "definedName") {
+                if let Some(name) = xml_doc_mut.get_element_mut(&name_id) {
+                    let mut attributes = name.get_attribute().cloned().unwrap_or_default();
+                    if let Some(position) = attributes
+                        .get("localSheetId")
+                        .and_then(|position| position.parse().ok())
+                    {
+                        if let Some(position) =
+                            self.get_current_position(position, sheet_collection)
+                        {
+                            attributes.insert("localSheetId".to_string(), position.to_string());
+                            name.set_attribute_mut(attributes)
+                                .context("Failed to set defined name attributes")?;
+                        } else if position < self.relationship_ids.len() {
+                            xml_doc_mut.remove_child_mut(&defined_names_id, &name_id);
+                        }
+                    }
+                }
+            }
+            if xml_doc_mut
+                .get_element(&defined_names_id)
+                .map_or(false, |item| item.get_child_count() == 0)
+            {
+                xml_doc_mut.remove_child_mut(&0, &defined_names_id);
+            }
+        }
+        Ok(())
+    }
+}
+
 // ############################# Internal Function ######################################
 // ############################# mut Function ######################################
 impl WorkbookPart {
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<(Vec<(String, String, bool, bool)>, Option<WorkbookView>), AnyError> {
+    ) -> AnyResult<
+        (
+            Vec<(String, String, bool, bool)>,
+            Option<WorkbookView>,
+            LoadedSheets,
+        ),
+        AnyError,
+    > {
         log_elapsed!(
             || {
                 let mut sheet_collection = Vec::new();
                 let mut workbook_view = None;
+                let mut loaded_sheets = LoadedSheets::default();
                 if let Some(xml_document) = xml_document.upgrade() {
                     let mut xml_doc_mut = xml_document
                         .try_borrow_mut()
                         .context("xml doc borrow failed")?;
-                    // Deconstruct Book View for sheet collection data
-                    if let Some(mut book_views_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("bookViews", None)
+                    // Read the first Book View, the element stays in the document with all it holds
+                    if let Some(book_views_id) = xml_doc_mut
+                        .get_first_element_id(vec!["bookViews"], None)
+                        .context("Failed to find book views")?
                     {
-                        if let Some(book_views) = book_views_vec.pop() {
-                            loop {
-                                if let Some((workbook_view_id, _)) = book_views.pop_child_mut() {
+                        if let Some(book_views) = xml_doc_mut.get_element(&book_views_id) {
+                            for (workbook_view_id, workbook_view_tag) in book_views.get_children() {
+                                if workbook_view_tag == "workbookView" {
                                     if let Some(workbook_view_element) =
-                                        xml_doc_mut.pop_element_mut(&workbook_view_id)
+                                        xml_doc_mut.get_element(&workbook_view_id)
                                     {
                                         if let Some(attributes) =
                                             workbook_view_element.get_attribute()
@@ -369,7 +558,7 @@ impl WorkbookPart {
                                                 {
                                                     ConverterUtil::normalize_bool_property_u8(
                                                         hide_sheet_tab,
-                                                    ) == 1
+                                                    ) == 0
                                                 } else {
                                                     false
                                                 },
@@ -413,17 +602,17 @@ impl WorkbookPart {
                                             })
                                         }
                                     }
-                                } else {
                                     break;
                                 }
                             }
                         }
                     }
                     // Deconstruct Sheets into collection
-                    if let Some(mut sheets_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("sheets", None)
+                    if let Some(sheets_element_id) = xml_doc_mut
+                        .get_first_element_id(vec!["sheets"], None)
+                        .context("Failed to find sheets")?
                     {
-                        if let Some(sheets) = sheets_vec.pop() {
+                        if let Some(sheets) = xml_doc_mut.take_children_mut(&sheets_element_id) {
                             // Load Sheet from File if exist
                             loop {
                                 if let Some((sheet_id, _)) = sheets.pop_child_mut() {
@@ -436,6 +625,19 @@ impl WorkbookPart {
                                                 "Error When Trying to read Sheet Details."
                                             ))?;
                                             let state = attributes.get("state");
+                                            if let Some(sheet_id) = attributes
+                                                .get("sheetId")
+                                                .and_then(|sheet_id| sheet_id.parse().ok())
+                                            {
+                                                loaded_sheets.max_sheet_id =
+                                                    loaded_sheets.max_sheet_id.max(sheet_id);
+                                            }
+                                            loaded_sheets
+                                                .relationship_ids
+                                                .push(Some(r_id.to_string()));
+                                            loaded_sheets
+                                                .attributes
+                                                .insert(r_id.to_string(), attributes.clone());
                                             sheet_collection.push((
                                                 name.to_string(),
                                                 r_id.to_string(),
@@ -455,7 +657,16 @@ impl WorkbookPart {
                         }
                     }
                 }
-                Ok((sheet_collection, workbook_view))
+                // The active tab follows its sheet
+                if let Some(active_sheet) = workbook_view
+                    .as_ref()
+                    .and_then(|item| item.active_tab.as_ref())
+                    .and_then(|item| item.parse::<usize>().ok())
+                    .and_then(|position| sheet_collection.get_mut(position))
+                {
+                    active_sheet.2 = true;
+                }
+                Ok((sheet_collection, workbook_view, loaded_sheets))
             },
             "Load Existing Workbook"
         )
@@ -503,6 +714,7 @@ impl WorkbookPart {
         &mut self,
         sheet_name: Option<String>,
     ) -> AnyResult<WorkSheet, AnyError> {
+        self.forget_deleted_sheets_mut()?;
         Ok(WorkSheet::new(
             self.office_document.clone(),
             Rc::downgrade(&self.sheet_collection),
@@ -514,6 +726,7 @@ impl WorkbookPart {
     }
 
     pub(crate) fn get_worksheet_mut(&mut self, sheet_name: &str) -> AnyResult<WorkSheet, AnyError> {
+        self.forget_deleted_sheets_mut()?;
         log_elapsed!(
             || {
                 WorkSheet::new(
@@ -529,8 +742,32 @@ impl WorkbookPart {
         )
     }
 
+    fn forget_deleted_sheets_mut(&mut self) -> AnyResult<(), AnyError> {
+        let sheet_collection = self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Collection Handle")?;
+        self.loaded_sheets.forget_deleted_mut(&sheet_collection);
+        Ok(())
+    }
+
+    fn check_sheet_exist(&self, sheet_name: &str) -> AnyResult<(), AnyError> {
+        if self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Name Collection")?
+            .iter()
+            .any(|item| sheet_name == item.0)
+        {
+            Ok(())
+        } else {
+            Err(anyhow!("Sheet Name not found in the stack"))
+        }
+    }
+
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
+        self.check_sheet_exist(sheet_name)?;
         for (current_sheet_name, _, active_sheet, _) in self
             .sheet_collection
             .try_borrow_mut()
@@ -627,6 +864,7 @@ impl WorkbookPart {
 
     /// Hide sheet on opening the excel
     pub(crate) fn hide_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
+        self.check_sheet_exist(sheet_name)?;
         for (current_sheet_name, _, _, hide_sheet) in self
             .sheet_collection
             .try_borrow_mut()
@@ -635,8 +873,6 @@ impl WorkbookPart {
         {
             if current_sheet_name == sheet_name {
                 *hide_sheet = true
-            } else {
-                *hide_sheet = false
             }
         }
         Ok(())
-- 
2.43.0


From 981de04acc3fb8c884af5af08d5611f16bd319cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 20/44] fix: delete the sheet of the handle with its
 relationship part, also after a rename

---
 .../spreadsheet_2007/parts/worksheet.rs       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 998fcb7..6151cc3 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1385,11 +1385,22 @@ impl WorkSheet {
 
     /// Delete Current sheet and all its components
     pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
-        if let Some(sheet_collection) = self.sheet_collection.upgrade() {
+        // The sheet may have been renamed since the handle was opened, its part identifies it
+        if let (Some(sheet_collection), Some(workbook_relationship_part)) = (
+            self.sheet_collection.upgrade(),
+            self.workbook_relationship_part.upgrade(),
+        ) {
+            let workbook_relationship_part = workbook_relationship_part
+                .try_borrow()
+                .context("Failed to pull workbook relationship handle")?;
             sheet_collection
                 .try_borrow_mut()
                 .context("Failed to pull Sheets Collection")?
-                .retain(|item| item.0 != self.sheet_name);
+                .retain(|item| {
+                    workbook_relationship_part
+                        .get_target_by_id(&item.1)
+                        .map_or(true, |target| target.as_ref() != Some(&self.file_path))
+                });
         }
         if let Some(workbook_relationship_part) = self.workbook_relationship_part.upgrade() {
             workbook_relationship_part
@@ -1402,6 +1413,10 @@ impl WorkSheet {
                 .try_borrow_mut()
                 .context("Failed to Pull XML Handle")?
                 .delete_document_mut(&self.file_path);
+            xml_tree
+                .try_borrow_mut()
+                .context("Failed to Pull XML Handle")?
+                .delete_document_mut(&RelationsPart::get_relation_file_name(&self.file_path));
         }
         self.flush().context("Failed to flush the worksheet")?;
         Ok(())
-- 
2.43.0


From a22603561b8dca18b73bc9419689235a370d3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 21/44] fix: do not give a new sheet the name of an existing
 one

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 6151cc3..d26aed3 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1099,8 +1099,16 @@ impl WorkSheet {
                     let document = office_doc
                         .try_borrow()
                         .context("Failed to Borrow Document")?;
+                    let sheet_names = sheet_collection
+                        .try_borrow()
+                        .context("Failed to pull Sheet Name Collection")?;
                     loop {
-                        if document.check_file_exist(format!(
+                        // A name given by the library must be free as well
+                        let name_in_use = sheet_name.is_none()
+                            && sheet_names.iter().any(|item| {
+                                item.0 == format!("{}{}", worksheet_content.default_name, sheet_count)
+                            });
+                        if name_in_use || document.check_file_exist(format!(
                             "{}{}/{}{}.{}",
                             relative_path,
                             worksheet_content.default_path,
-- 
2.43.0


From ff060f8e0d8cf1607c33fa3fe8b1cf2713fec6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 22/44] fix: keep every column with the settings it has when
 columns are set, split and saved

---
 .../spreadsheet_2007/models/worksheet.rs      |  6 ++-
 .../spreadsheet_2007/parts/worksheet.rs       | 42 +++++++++++++------
 rs/src/utils/converters.rs                    | 16 +++++++
 3 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index c6a521f..2fbc480 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -1,5 +1,6 @@
 use crate::global_2007::{models::HyperlinkProperties, traits::Enum};
 use crate::spreadsheet_2007::models::StyleId;
+use std::collections::HashMap;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum CellDataType {
@@ -55,7 +56,7 @@ pub struct RowProperties {
     pub(crate) span: Option<String>,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ColumnProperties {
     // Start Column index
     pub(crate) min: u16,
@@ -73,6 +74,8 @@ pub struct ColumnProperties {
     pub(crate) group_level: usize,
     // Collapse the current column
     pub(crate) collapsed: Option<bool>,
+    // Attributes of a loaded record without a property of their own
+    pub(crate) other_attributes: HashMap<String, String>,
 }
 
 impl Default for ColumnProperties {
@@ -83,6 +86,7 @@ impl Default for ColumnProperties {
             best_fit: None,
             collapsed: None,
             group_level: 0,
+            other_attributes: HashMap::new(),
             hidden: None,
             style_id: None,
             width: None,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index d26aed3..985c739 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -375,13 +375,16 @@ impl WorkSheet {
     fn serialize_cols(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
         if let Some(mut column_collection) = self.column_collection.take() {
             if column_collection.len() > 0 {
+                column_collection
+                    .make_contiguous()
+                    .sort_by_key(|item| item.min);
                 let cols_id = xml_doc_mut
                     .insert_children_after_tag_mut("cols", "sheetFormatPr", None)
                     .context("Failed to Insert Cols Element")?
                     .get_id();
                 loop {
                     if let Some(item) = column_collection.pop_front() {
-                        let mut attribute = HashMap::new();
+                        let mut attribute = item.other_attributes;
                         attribute.insert("min".to_string(), item.min.to_string());
                         attribute.insert("max".to_string(), item.max.to_string());
                         if let Some(width) = item.width {
@@ -391,12 +394,19 @@ impl WorkSheet {
                         if let Some(style_id) = item.style_id {
                             attribute.insert("style".to_string(), style_id.id.to_string());
                         }
-                        if let Some(_) = item.hidden {
+                        if let Some(true) = item.hidden {
                             attribute.insert("hidden".to_string(), "1".to_string());
                         }
-                        if let Some(_) = item.best_fit {
+                        if let Some(true) = item.best_fit {
                             attribute.insert("bestFit".to_string(), "1".to_string());
                         }
+                        if item.group_level > 0 {
+                            attribute
+                                .insert("outlineLevel".to_string(), item.group_level.to_string());
+                        }
+                        if let Some(true) = item.collapsed {
+                            attribute.insert("collapsed".to_string(), "1".to_string());
+                        }
                         xml_doc_mut
                             .append_child_mut("col", Some(&cols_id))
                             .context("Failed to insert col record")?
@@ -653,8 +663,8 @@ fn deserialize_cols(
 ) -> AnyResult<Option<VecDeque<ColumnProperties>>, AnyError> {
     if let Some(mut cols_element) = xml_doc_mut.pop_elements_by_tag_mut("cols", None) {
         // Process the columns record if parent node exist
-        if let Some(cols) = cols_element.pop() {
-            let mut column_collection = VecDeque::with_capacity(cols.get_child_count());
+        let mut column_collection = VecDeque::new();
+        for cols in cols_element.drain(..) {
             loop {
                 if let Some((col_elements, _)) = cols.pop_child_mut() {
                     if let Some(col) = xml_doc_mut.pop_element_mut(&col_elements) {
@@ -662,6 +672,10 @@ fn deserialize_cols(
                         let attributes = col
                             .get_attribute()
                             .ok_or(anyhow!("Error Getting col attribute"))?;
+                        column_properties.other_attributes = attributes.clone();
+                        for key in ["min", "max", "bestFit", "hidden", "style", "outlineLevel", "collapsed"] {
+                            column_properties.other_attributes.remove(key);
+                        }
                         if let Some(min) = attributes.get("min") {
                             column_properties.min =
                                 min.parse().context("Failed to parse min value")?;
@@ -672,10 +686,10 @@ fn deserialize_cols(
                         }
                         if let Some(best_fit) = attributes.get("bestFit") {
                             column_properties.best_fit =
-                                if best_fit == "1" { Some(true) } else { None }
+                                if ConverterUtil::normalize_bool_property_bool(best_fit) { Some(true) } else { None }
                         }
                         if let Some(hidden) = attributes.get("hidden") {
-                            column_properties.hidden = if hidden == "1" { Some(true) } else { None }
+                            column_properties.hidden = if ConverterUtil::normalize_bool_property_bool(hidden) { Some(true) } else { None }
                         }
                         if let Some(style) = attributes.get("style") {
                             column_properties.style_id = Some(StyleId::new(
@@ -687,7 +701,9 @@ fn deserialize_cols(
                                 outline_level.parse().context("Failed to parse style ID")?;
                         }
                         if let Some(custom_width) = attributes.get("customWidth") {
-                            if custom_width == "1" {
+                            if ConverterUtil::normalize_bool_property_bool(custom_width) {
+                                column_properties.other_attributes.remove("customWidth");
+                                column_properties.other_attributes.remove("width");
                                 column_properties.width = Some(
                                     attributes
                                         .get("width")
@@ -699,7 +715,7 @@ fn deserialize_cols(
                         }
                         if let Some(collapsed) = attributes.get("collapsed") {
                             column_properties.collapsed =
-                                if collapsed == "1" { Some(true) } else { None }
+                                if ConverterUtil::normalize_bool_property_bool(collapsed) { Some(true) } else { None }
                         }
                         column_collection.push_back(column_properties);
                     }
@@ -707,8 +723,8 @@ fn deserialize_cols(
                     break;
                 }
             }
-            return Ok(Some(column_collection));
         }
+        return Ok(Some(column_collection));
     }
     Ok(None)
 }
@@ -1184,7 +1200,9 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
-        if let Some(column_collection) = self.column_collection.as_mut() {
+        ConverterUtil::check_column_index(*col_index)?;
+        let column_collection = self.column_collection.get_or_insert_with(VecDeque::new);
+        {
             let mut new_ranges = VecDeque::new();
             // Delete Old Record
             column_collection.retain_mut(|range| {
@@ -1204,7 +1222,7 @@ impl WorkSheet {
                         new_ranges.push_back(ColumnProperties {
                             min: col_index + 1,
                             max: range.max,
-                            ..ColumnProperties::default()
+                            ..range.clone()
                         });
                         range.max = col_index - 1;
                     }
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 57a2509..24286df 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -34,6 +34,22 @@ impl ConverterUtil {
         Ok(column_name)
     }
 
+    /// Columns of the grid are A (1) to XFD (16384)
+    pub(crate) fn check_column_index(col_index: u16) -> AnyResult<(), AnyError> {
+        if col_index < 1 || col_index > 16384 {
+            return Err(anyhow!("Column {} is outside of the sheet", col_index));
+        }
+        Ok(())
+    }
+
+    /// Rows of the grid are 1 to 1048576
+    pub(crate) fn check_row_index(row_index: u32) -> AnyResult<(), AnyError> {
+        if row_index < 1 || row_index > 1048576 {
+            return Err(anyhow!("Row {} is outside of the sheet", row_index));
+        }
+        Ok(())
+    }
+
     /// Return
     pub fn get_cell_index(cell_ref: &str) -> AnyResult<(u32, u16), AnyError> {
         Ok((
-- 
2.43.0


From a9b51332de5c03cb0b8dfe7d0df83993a1c219f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 23/44] fix: keep row attributes over open and save and write
 row flags only when they are set

---
 .../spreadsheet_2007/models/worksheet.rs      |  2 ++
 .../spreadsheet_2007/parts/worksheet.rs       | 35 ++++++++++++-------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index 2fbc480..c56aabd 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -54,6 +54,8 @@ pub struct RowProperties {
     pub(crate) collapsed: Option<bool>,
     pub(crate) place_holder: Option<bool>,
     pub(crate) span: Option<String>,
+    // Attributes of a loaded record without a property of their own
+    pub(crate) other_attributes: HashMap<String, String>,
 }
 
 #[derive(Debug, Clone)]
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 985c739..276d59a 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -543,7 +543,7 @@ impl WorkSheet {
                     .append_child_mut("row", Some(&sheet_data_id))
                     .context("Failed to insert row element")?;
                 let row_element_id = row_element.get_id();
-                let mut row_attribute = HashMap::new();
+                let mut row_attribute = db_row.row_record.other_attributes;
                 row_attribute.insert("r".to_string(), row_index.to_string());
                 if let Some(row_span) = db_row.row_record.span {
                     row_attribute.insert("spans".to_string(), row_span);
@@ -556,22 +556,22 @@ impl WorkSheet {
                     row_attribute.insert("customHeight".to_string(), "1".to_string());
                     row_attribute.insert("ht".to_string(), row_height.to_string());
                 }
-                if let Some(_) = db_row.row_record.hidden {
+                if let Some(true) = db_row.row_record.hidden {
                     row_attribute.insert("hidden".to_string(), "1".to_string());
                 }
                 if let Some(row_group_level) = db_row.row_record.group_level {
                     row_attribute.insert("outlineLevel".to_string(), row_group_level.to_string());
                 }
-                if let Some(_) = db_row.row_record.collapsed {
+                if let Some(true) = db_row.row_record.collapsed {
                     row_attribute.insert("collapsed".to_string(), "1".to_string());
                 }
-                if let Some(_) = db_row.row_record.thick_top {
+                if let Some(true) = db_row.row_record.thick_top {
                     row_attribute.insert("thickTop".to_string(), "1".to_string());
                 }
-                if let Some(_) = db_row.row_record.thick_bottom {
+                if let Some(true) = db_row.row_record.thick_bottom {
                     row_attribute.insert("thickBot".to_string(), "1".to_string());
                 }
-                if let Some(_) = db_row.row_record.place_holder {
+                if let Some(true) = db_row.row_record.place_holder {
                     row_attribute.insert("ph".to_string(), "1".to_string());
                 }
                 row_element
@@ -894,12 +894,18 @@ fn deserialize_sheet_data(
                             .ok_or(anyhow!("Missing mandatory row id attribute"))?
                             .parse()
                             .context("Failed to parse row id")?;
+                        row_record.other_attributes = row_attribute.clone();
+                        for key in ["r", "spans", "hidden", "outlineLevel", "collapsed", "thickTop", "thickBot", "ph"] {
+                            row_record.other_attributes.remove(key);
+                        }
                         if let Some(row_span) = row_attribute.get("spans") {
                             row_record.span = Some(row_span.to_string());
                         }
                         if let Some(style_id) = row_attribute.get("s") {
                             if let Some(custom_formant) = row_attribute.get("customFormat") {
-                                row_record.style_id = if custom_formant == "1" {
+                                row_record.style_id = if ConverterUtil::normalize_bool_property_bool(custom_formant) {
+                                    row_record.other_attributes.remove("customFormat");
+                                    row_record.other_attributes.remove("s");
                                     Some(StyleId::new(
                                         style_id
                                             .parse()
@@ -911,11 +917,13 @@ fn deserialize_sheet_data(
                             }
                         }
                         if let Some(hidden) = row_attribute.get("hidden") {
-                            row_record.hidden = if hidden == "1" { Some(true) } else { None };
+                            row_record.hidden = if ConverterUtil::normalize_bool_property_bool(hidden) { Some(true) } else { None };
                         }
                         if let Some(height) = row_attribute.get("ht") {
                             if let Some(custom_height) = row_attribute.get("customHeight") {
-                                row_record.height = if custom_height == "1" {
+                                row_record.height = if ConverterUtil::normalize_bool_property_bool(custom_height) {
+                                    row_record.other_attributes.remove("customHeight");
+                                    row_record.other_attributes.remove("ht");
                                     Some(height.parse().context("Failed to parse the row height")?)
                                 } else {
                                     None
@@ -933,20 +941,20 @@ fn deserialize_sheet_data(
                             };
                         }
                         if let Some(collapsed) = row_attribute.get("collapsed") {
-                            row_record.collapsed = if collapsed == "1" { Some(true) } else { None };
+                            row_record.collapsed = if ConverterUtil::normalize_bool_property_bool(collapsed) { Some(true) } else { None };
                         }
                         if let Some(thick_top) = row_attribute.get("thickTop") {
-                            row_record.thick_top = if thick_top == "1" { Some(true) } else { None };
+                            row_record.thick_top = if ConverterUtil::normalize_bool_property_bool(thick_top) { Some(true) } else { None };
                         }
                         if let Some(thick_bottom) = row_attribute.get("thickBot") {
-                            row_record.thick_bottom = if thick_bottom == "1" {
+                            row_record.thick_bottom = if ConverterUtil::normalize_bool_property_bool(thick_bottom) {
                                 Some(true)
                             } else {
                                 None
                             };
                         }
                         if let Some(place_holder) = row_attribute.get("ph") {
-                            row_record.place_holder = if place_holder == "1" {
+                            row_record.place_holder = if ConverterUtil::normalize_bool_property_bool(place_holder) {
                                 Some(true)
                             } else {
                                 None
@@ -1247,6 +1255,7 @@ impl WorkSheet {
         row_index: &u32,
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::check_row_index(*row_index)?;
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             if let Some(row) = sheet_data.get_mut(row_index) {
                 row.row_record = row_properties;
-- 
2.43.0


From cdb7731dab2c03b5e44962c001bbdf1509b06f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 24/44] fix: write a valid dimension for sheets whose rows hold
 properties only

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 276d59a..5555c66 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -340,7 +340,10 @@ impl WorkSheet {
             Ok(())
         }
         if let Some(sheet_data) = self.sheet_data.as_ref() {
-            if let Some(first_item) = sheet_data.first_key_value() {
+            if self.dimension.start_col > self.dimension.end_col {
+                // Rows that hold properties only have no cell to cover
+                set_default(xml_doc_mut)?;
+            } else if let Some(first_item) = sheet_data.first_key_value() {
                 let mut dimension_attribute = HashMap::new();
                 dimension_attribute.insert(
                     "ref".to_string(),
-- 
2.43.0


From 4f977d77ef56c64c3c73d011c2b1c860f62b83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 25/44] fix: refuse references and indexes outside of the sheet
 instead of wrapping around or panicking

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs |  5 +++++
 rs/src/utils/converters.rs                             | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 5555c66..a2f074b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1303,6 +1303,11 @@ impl WorkSheet {
         mut col_index: u16,
         mut column_cell: Vec<CellProperties>,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::check_row_index(row_index)?;
+        ConverterUtil::check_column_index(col_index)?;
+        if column_cell.len() > 16385 - col_index as usize {
+            return Err(anyhow!("Cells end outside of the sheet"));
+        }
         // Map Start Normalization
         col_index -= 1;
         for cell_data in column_cell.iter_mut() {
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 24286df..f76b4ff 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -5,8 +5,13 @@ pub struct ConverterUtil;
 impl ConverterUtil {
     /// Return int Id of the column
     pub fn get_column_index(cell_ref: &str) -> AnyResult<u16, AnyError> {
-        let column_part: String = cell_ref.chars().take_while(|c| c.is_alphabetic()).collect();
-        if column_part.is_empty() {
+        let column_part: String = cell_ref.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
+        if column_part.is_empty()
+            || column_part.len() > 3
+            || !cell_ref[column_part.len()..]
+                .chars()
+                .all(|c| c.is_ascii_digit())
+        {
             return Err(anyhow!("Failed to Convert to Column Key Id"));
         }
         let mut index = 0;
@@ -14,6 +19,7 @@ impl ConverterUtil {
             let char_value = c.to_ascii_uppercase() as u16 - 'A' as u16 + 1;
             index += char_value * 26_usize.pow(i as u32) as u16;
         }
+        Self::check_column_index(index)?;
         Ok(index)
     }
     /// Return String ref of the column
-- 
2.43.0


From 9e9639446c8f67791856b898fc09ffd86843e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 26/44] fix: store nan, infinity and overflowing literals as
 text when the type is detected

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index a2f074b..802a216 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1314,7 +1314,7 @@ impl WorkSheet {
             if let Some(cell_value) = cell_data.value.as_ref() {
                 match cell_data.data_type {
                     CellDataType::Auto => {
-                        if cell_value.parse::<f64>().is_ok() {
+                        if cell_value.parse::<f64>().map_or(false, |value| value.is_finite()) {
                             cell_data.data_type = CellDataType::Number;
                         } else if cell_value.parse::<bool>().is_ok() {
                             cell_data.data_type = CellDataType::Boolean;
-- 
2.43.0


From 8ee6cd1e2fbb780954269ffd64035ebfce877767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 27/44] fix: keep formula attributes, inline strings and
 unknown content of loaded cells

---
 rs/src/files/xml/xml_tree.rs                  |  28 ++++
 .../spreadsheet_2007/models/worksheet.rs      |   8 +
 .../spreadsheet_2007/parts/worksheet.rs       | 142 +++++++++++-------
 3 files changed, 124 insertions(+), 54 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index f2bdb0e..cbba3dd 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -279,6 +279,24 @@ impl XmlDocument {
         }
     }
 
+    /// Attach an element that was taken out of its parent before
+    pub(crate) fn attach_child_mut(&mut self, parent_id: &usize, child_id: &usize) {
+        let tag = match self.xml_element_collection.get_mut(child_id) {
+            Some(child) => {
+                child.set_parent_id_mut(*parent_id);
+                child.tag.clone()
+            }
+            None => return,
+        };
+        if let Some(parent_element) = self.xml_element_collection.get_mut(parent_id) {
+            parent_element.value = None;
+            parent_element
+                .children
+                .borrow_mut()
+                .push(XmlElementChild { id: *child_id, tag });
+        }
+    }
+
     pub(crate) fn get_first_element_id(
         &self,
         mut element_tree: Vec<&str>,
@@ -595,6 +613,16 @@ impl XmlElement {
         self
     }
 
+    /// Set a text whose white space at both ends belongs to the content
+    pub(crate) fn set_text_mut(&mut self, text: String) -> &mut Self {
+        if text.trim() != text {
+            self.attributes
+                .get_or_insert_with(HashMap::new)
+                .insert("xml:space".to_string(), "preserve".to_string());
+        }
+        self.set_value_mut(text)
+    }
+
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
         // Text before the first child element is layout white space
         self.value = None;
diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index c56aabd..f92e7ec 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -107,6 +107,11 @@ pub struct CellProperties {
     pub(crate) metadata: Option<String>,
     pub(crate) comment_id: Option<usize>,
     pub(crate) place_holder: Option<bool>,
+    // Attributes of a loaded cell without a property of their own
+    pub(crate) other_attributes: HashMap<String, String>,
+    pub(crate) formula_attributes: Option<HashMap<String, String>>,
+    // Child elements of a loaded cell that are kept as they are
+    pub(crate) other_children: Vec<usize>,
 }
 
 impl Default for CellProperties {
@@ -120,6 +125,9 @@ impl Default for CellProperties {
             metadata: None,
             comment_id: None,
             place_holder: None,
+            other_attributes: HashMap::new(),
+            formula_attributes: None,
+            other_children: Vec::new(),
         }
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 802a216..a86ef6b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -25,6 +25,8 @@ use std::{
 pub(crate) struct RowData {
     row_record: RowProperties,
     cell_records: Option<BTreeMap<u16, CellProperties>>,
+    /// Child elements of the row that are not cells
+    other_children: Vec<usize>,
 }
 
 #[derive(Debug)]
@@ -536,7 +538,7 @@ impl WorkSheet {
     }
 
     fn serialize_sheet_data(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        if let Some(sheet_data) = self.sheet_data.take() {
+        if let Some(sheet_data) = self.sheet_data.take().or_else(|| Some(BTreeMap::new())) {
             let sheet_data_id = xml_doc_mut
                 .insert_children_after_tag_mut("sheetData", "cols", None)
                 .context("Failed to Insert Cols Element")?
@@ -587,7 +589,7 @@ impl WorkSheet {
                             .append_child_mut("c", Some(&row_element_id))
                             .context("Failed to insert row element")?;
                         let cell_id = cell_element.get_id();
-                        let mut cell_attribute = HashMap::new();
+                        let mut cell_attribute = cell_record.other_attributes;
                         cell_attribute.insert(
                             "r".to_string(),
                             format!(
@@ -612,15 +614,27 @@ impl WorkSheet {
                         if let Some(cell_metadata) = cell_record.metadata {
                             cell_attribute.insert("vm".to_string(), cell_metadata.to_string());
                         }
-                        if let Some(_) = cell_record.place_holder {
+                        if let Some(true) = cell_record.place_holder {
                             cell_attribute.insert("ph".to_string(), "1".to_string());
                         }
                         cell_element
                             .set_attribute_mut(cell_attribute)
                             .context("Failed to Set Attribute for cell")?;
                         // Create cell's child element
+                        if let Some(formula) = cell_record.formula {
+                            let formula_element = xml_doc_mut
+                                .append_child_mut("f", Some(&cell_id))
+                                .context("Failed to insert Inline string element")?;
+                            if let Some(formula_attributes) = cell_record.formula_attributes {
+                                formula_element
+                                    .set_attribute_mut(formula_attributes)
+                                    .context("Failed to set formula attributes")?;
+                            }
+                            formula_element.set_text_mut(formula);
+                        }
                         match cell_record.data_type {
-                            CellDataType::InlineString => {
+                            // A loaded inline string is one of the kept children
+                            CellDataType::InlineString if cell_record.value.is_some() => {
                                 let inline_string_id = xml_doc_mut
                                     .append_child_mut("is", Some(&cell_id))
                                     .context("Failed to insert Inline string element")?
@@ -628,7 +642,7 @@ impl WorkSheet {
                                 let text_element = xml_doc_mut
                                     .append_child_mut("t", Some(&inline_string_id))
                                     .context("Failed To insert Text Value to inline string")?;
-                                text_element.set_value_mut(
+                                text_element.set_text_mut(
                                     if let Some(value) = cell_record.value {
                                         value
                                     } else {
@@ -636,25 +650,26 @@ impl WorkSheet {
                                     },
                                 );
                             }
-                            _ => {
-                                if let Some(formula) = cell_record.formula {
-                                    let formula_element = xml_doc_mut
-                                        .append_child_mut("f", Some(&cell_id))
-                                        .context("Failed to insert Inline string element")?;
-                                    formula_element.set_value_mut(formula);
-                                }
+                            _ if cell_record.value.is_some() => {
                                 xml_doc_mut
                                     .append_child_mut("v", Some(&cell_id))
                                     .context("Failed to insert Inline string element")?
-                                    .set_value_mut(if let Some(value) = cell_record.value {
+                                    .set_text_mut(if let Some(value) = cell_record.value {
                                         value
                                     } else {
                                         "".to_string()
                                     });
                             }
+                            _ => {}
+                        }
+                        for child_id in &cell_record.other_children {
+                            xml_doc_mut.attach_child_mut(&cell_id, child_id);
                         }
                     }
                 }
+                for child_id in &db_row.other_children {
+                    xml_doc_mut.attach_child_mut(&row_element_id, child_id);
+                }
             }
         }
         Ok(())
@@ -883,20 +898,22 @@ fn deserialize_sheet_data(
     if let Some(mut sheet_data_element) = xml_doc_mut.pop_elements_by_tag_mut("sheetData", None) {
         if let Some(sheet_data) = sheet_data_element.pop() {
             let mut sheet_data_collection: BTreeMap<u32, RowData> = BTreeMap::new();
+            let mut last_row_index: u32 = 0;
             // Loop All rows of sheet data
             loop {
                 if let Some((row_element_id, _)) = sheet_data.pop_child_mut() {
                     if let Some(row_element) = xml_doc_mut.pop_element_mut(&row_element_id) {
                         let mut row_record = RowProperties::default();
-                        let row_attribute = row_element
-                            .get_attribute()
-                            .ok_or(anyhow!("Failed to pull Row Attribute."))?;
-                        // Get Row Id
-                        let row_index = row_attribute
-                            .get("r")
-                            .ok_or(anyhow!("Missing mandatory row id attribute"))?
+                        let row_attribute = row_element.get_attribute().cloned().unwrap_or_default();
+                        // Get Row Id, a row without follows the one before
+                        let row_index = match row_attribute.get("r") {
+                            Some(row_index) => row_index
                             .parse()
-                            .context("Failed to parse row id")?;
+                            .context("Failed to parse row id")?,
+                            None => last_row_index.saturating_add(1),
+                        };
+                        ConverterUtil::check_row_index(row_index)?;
+                        last_row_index = row_index;
                         row_record.other_attributes = row_attribute.clone();
                         for key in ["r", "spans", "hidden", "outlineLevel", "collapsed", "thickTop", "thickBot", "ph"] {
                             row_record.other_attributes.remove(key);
@@ -964,23 +981,33 @@ fn deserialize_sheet_data(
                             };
                         }
                         let mut cell_records: BTreeMap<u16, CellProperties> = BTreeMap::new();
+                        let mut other_children = Vec::new();
+                        let mut last_col_index: u16 = 0;
                         // Loop All Columns of row
                         loop {
                             let mut cell_record = CellProperties::default();
-                            if let Some((col_element_id, _)) = row_element.pop_child_mut() {
+                            if let Some((col_element_id, col_element_tag)) = row_element.pop_child_mut() {
+                                if col_element_tag != "c" {
+                                    other_children.push(col_element_id);
+                                    continue;
+                                }
                                 if let Some(col_element) =
                                     xml_doc_mut.pop_element_mut(&col_element_id)
                                 {
-                                    let cell_attribute = col_element
-                                        .get_attribute()
-                                        .ok_or(anyhow!("Failed to pull attribute for Column"))?;
-                                    // Get Col Id
-                                    let col_index = ConverterUtil::get_column_index(
-                                        cell_attribute
-                                            .get("r")
-                                            .ok_or(anyhow!("Missing mandatory col id attribute"))?,
-                                    )
-                                    .context("Failed to Convert col worksheet initialize")?;
+                                    let cell_attribute =
+                                        col_element.get_attribute().cloned().unwrap_or_default();
+                                    // Get Col Id, a cell without follows the one before
+                                    let col_index = match cell_attribute.get("r") {
+                                        Some(cell_ref) => ConverterUtil::get_column_index(cell_ref)
+                                    .context("Failed to Convert col worksheet initialize")?,
+                                        None => last_col_index + 1,
+                                    };
+                                    ConverterUtil::check_column_index(col_index)?;
+                                    last_col_index = col_index;
+                                    cell_record.other_attributes = cell_attribute.clone();
+                                    for key in ["r", "s", "cm", "vm", "ph"] {
+                                        cell_record.other_attributes.remove(key);
+                                    }
                                     if let Some(style_id) = cell_attribute.get("s") {
                                         cell_record.style_id = Some(StyleId::new(
                                             style_id
@@ -990,6 +1017,12 @@ fn deserialize_sheet_data(
                                     }
                                     if let Some(cell_type) = cell_attribute.get("t") {
                                         cell_record.data_type = CellDataType::get_enum(&cell_type);
+                                        // A type without an enum value is kept as attribute
+                                        if CellDataType::get_string(cell_record.data_type)
+                                            == *cell_type
+                                        {
+                                            cell_record.other_attributes.remove("t");
+                                        }
                                     } else {
                                         cell_record.data_type = CellDataType::Number;
                                     }
@@ -1007,16 +1040,20 @@ fn deserialize_sheet_data(
                                             )?);
                                     };
                                     if let Some(place_holder) = cell_attribute.get("ph") {
-                                        cell_record.place_holder = if place_holder == "1" {
+                                        cell_record.place_holder = if ConverterUtil::normalize_bool_property_bool(place_holder) {
                                             Some(true)
                                         } else {
                                             None
                                         };
                                     };
                                     loop {
-                                        if let Some((cell_child_id, _)) =
+                                        if let Some((cell_child_id, cell_child_tag)) =
                                             col_element.pop_child_mut()
                                         {
+                                            if cell_child_tag != "v" && cell_child_tag != "f" {
+                                                cell_record.other_children.push(cell_child_id);
+                                                continue;
+                                            }
                                             if let Some(element) =
                                                 xml_doc_mut.pop_element_mut(&cell_child_id)
                                             {
@@ -1026,27 +1063,17 @@ fn deserialize_sheet_data(
                                                             element.get_value().clone();
                                                     }
                                                     "f" => {
-                                                        cell_record.formula =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "is" => {
-                                                        if let Some((text_id, _)) =
-                                                            element.pop_child_mut()
-                                                        {
-                                                            if let Some(text_element) = xml_doc_mut
-                                                                .pop_element_mut(&text_id)
-                                                            {
-                                                                cell_record.value = text_element
-                                                                    .get_value()
-                                                                    .clone();
-                                                            }
-                                                        }
-                                                    }
-                                                    _ => {
-                                                        return Err(anyhow!(
-                                                            "Found un-know element cell child"
-                                                        ));
+                                                        // The dependants of a shared formula have no text
+                                                        cell_record.formula = Some(
+                                                            element
+                                                                .get_value()
+                                                                .clone()
+                                                                .unwrap_or_default(),
+                                                        );
+                                                        cell_record.formula_attributes =
+                                                            element.get_attribute().cloned();
                                                     }
+                                                    _ => {}
                                                 }
                                             }
                                         } else {
@@ -1070,6 +1097,7 @@ fn deserialize_sheet_data(
                                 } else {
                                     None
                                 },
+                                other_children,
                             },
                         );
                     }
@@ -1268,6 +1296,7 @@ impl WorkSheet {
                     RowData {
                         row_record: row_properties,
                         cell_records: None,
+                        other_children: Vec::new(),
                     },
                 );
             }
@@ -1278,6 +1307,7 @@ impl WorkSheet {
                 RowData {
                     row_record: row_properties,
                     cell_records: None,
+                    other_children: Vec::new(),
                 },
             );
             self.sheet_data = Some(map);
@@ -1347,6 +1377,8 @@ impl WorkSheet {
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             // Load If Row Exits
             if let Some(row) = sheet_data.get_mut(&row_index) {
+                // The loaded span may not cover the new cells
+                row.row_record.span = None;
                 // Check if the row already has cell data
                 if let Some(cell_records) = row.cell_records.as_mut() {
                     cell_records.extend(column_cell.iter_mut().map(|item| {
@@ -1380,6 +1412,7 @@ impl WorkSheet {
                     RowData {
                         row_record: RowProperties::default(),
                         cell_records: Some(cell_records),
+                        other_children: Vec::new(),
                     },
                 );
             }
@@ -1398,6 +1431,7 @@ impl WorkSheet {
                 RowData {
                     row_record: RowProperties::default(),
                     cell_records: Some(cell_records),
+                    other_children: Vec::new(),
                 },
             );
             self.sheet_data = Some(sheet_data);
-- 
2.43.0


From 925e321d18bbf5f60e042bf164a50382f6698b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 28/44] fix: keep the sheet views of a loaded sheet with panes
 and selections

---
 .../spreadsheet_2007/parts/worksheet.rs       | 55 ++++++++++++++-----
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index a86ef6b..80cf523 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -54,6 +54,8 @@ pub(crate) struct WorkSheetViewSelection {
 
 #[derive(Debug)]
 pub(crate) struct WorkSheetView {
+    /// Element of a loaded view, it keeps everything the view has no property for
+    element_id: Option<usize>,
     selection_collection: Option<Vec<WorkSheetViewSelection>>,
     workbook_view_id: String,
     default_grid_color: Option<bool>,
@@ -78,6 +80,7 @@ pub(crate) struct WorkSheetView {
 impl Default for WorkSheetView {
     fn default() -> Self {
         Self {
+            element_id: None,
             workbook_view_id: "0".to_string(),
             selection_collection: None,
             default_grid_color: None,
@@ -427,13 +430,25 @@ impl WorkSheet {
     }
 
     fn serialize_sheet_views(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        let sheet_views_id = xml_doc_mut
+        let sheet_views_id = if let Some(sheet_views_id) = xml_doc_mut
+            .get_first_element_id(vec!["sheetViews"], None)
+            .context("Failed to find Sheet Views")?
+        {
+            sheet_views_id
+        } else {
+            xml_doc_mut
             .insert_children_after_tag_mut("sheetViews", "dimension", None)
             .context("Failed to Insert Sheet Views Element")?
-            .get_id();
+            .get_id()
+        };
+        self.sheet_views.view_collection.reverse();
         loop {
             if let Some(sheet_view) = self.sheet_views.view_collection.pop() {
-                let mut attribute: HashMap<String, String> = HashMap::new();
+                let mut attribute: HashMap<String, String> = sheet_view
+                    .element_id
+                    .and_then(|element_id| xml_doc_mut.get_element(&element_id))
+                    .and_then(|element| element.get_attribute().cloned())
+                    .unwrap_or_default();
                 attribute.insert("workbookViewId".to_string(), sheet_view.workbook_view_id);
                 if let Some(window_protection) = sheet_view.window_protection {
                     attribute.insert(
@@ -525,9 +540,16 @@ impl WorkSheet {
                         zoom_scale_page_layout.to_string(),
                     );
                 }
-                xml_doc_mut
+                let sheet_view_id = match sheet_view.element_id {
+                    Some(element_id) => element_id,
+                    None => xml_doc_mut
                     .append_child_mut("sheetView", Some(&sheet_views_id))
                     .context("Failed to insert sheetView record")?
+                    .get_id(),
+                };
+                xml_doc_mut
+                    .get_element_mut(&sheet_view_id)
+                    .context("Failed to get sheetView record")?
                     .set_attribute_mut(attribute)
                     .context("Failed to Add Attribute to sheetView element")?;
             } else {
@@ -752,19 +774,23 @@ fn deserialize_worksheet_views(
     xml_doc_mut: &mut XmlDocument,
 ) -> AnyResult<WorkSheetViews, AnyError> {
     let mut worksheet_views = WorkSheetViews::default();
-    if let Some(mut sheet_views_elements) = xml_doc_mut.pop_elements_by_tag_mut("sheetViews", None)
+    if let Some(sheet_views_id) = xml_doc_mut
+        .get_first_element_id(vec!["sheetViews"], None)
+        .context("Failed to find Sheet Views")?
     {
-        if let Some(sheet_views_element) = sheet_views_elements.pop() {
-            loop {
-                if let Some((element_id, element_tag)) = sheet_views_element.pop_child_mut() {
-                    // Validate element that are not accounted
+        if let Some(sheet_views_element) = xml_doc_mut.get_element(&sheet_views_id) {
+            let mut loaded_views = Vec::new();
+            for (element_id, element_tag) in sheet_views_element.get_children() {
+                {
+                    // Element that are not accounted stay as they are
                     if element_tag != "sheetView" {
-                        return Err(anyhow!("Failed to Process Sheet Views child"));
+                        continue;
                     } else {
                         let sheet_view_element = xml_doc_mut
-                            .pop_element_mut(&element_id)
+                            .get_element(&element_id)
                             .context("Failed to get Sheet View Element")?;
                         let mut worksheet_view = WorkSheetView::default();
+                        worksheet_view.element_id = Some(element_id);
                         let attributes = sheet_view_element
                             .get_attribute()
                             .context("Failed to Get Attributes of Sheet View")?;
@@ -879,12 +905,13 @@ fn deserialize_worksheet_views(
                                     .context("Failed to Convert Zoom Normal to i16")?,
                             );
                         }
-                        worksheet_views.view_collection.push(worksheet_view);
+                        loaded_views.push(worksheet_view);
                     }
-                } else {
-                    break;
                 }
             }
+            if !loaded_views.is_empty() {
+                worksheet_views.view_collection = loaded_views;
+            }
         }
     }
     Ok(worksheet_views)
-- 
2.43.0


From 87d754db40884687f5538cfc6b5620d84a2879e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 29/44] fix: keep loaded shared strings as they are and add
 only new ones

---
 .../spreadsheet_2007/services/share_string.rs | 72 +++++++++++++------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 2438b36..d9fd5b8 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -9,7 +9,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     rc::Weak,
 };
 
@@ -18,7 +18,10 @@ pub struct ShareStringPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
     xml_document: Weak<RefCell<XmlDocument>>,
-    share_string_collection: Vec<String>,
+    /// Text of each entry, None for entries with content other than plain text
+    share_string_collection: Vec<Option<String>>,
+    /// Number of entries that are already part of the document
+    loaded_count: usize,
     file_path: String,
 }
 
@@ -44,22 +47,32 @@ impl XmlDocumentPartCommon for ShareStringPart {
                             // Update count & uniqueCount in root
                             if let Some(root) = xml_doc_mut.get_root_mut() {
                                 if let Some(attributes) = root.get_attribute_mut() {
+                                    // More cells than entries may use the table
+                                    let reference_count = attributes
+                                        .get("count")
+                                        .and_then(|count| count.parse::<usize>().ok())
+                                        .unwrap_or(0);
                                     attributes.insert(
                                         "count".to_string(),
-                                        self.share_string_collection.len().to_string(),
-                                    );
-                                    attributes.insert(
-                                        "uniqueCount".to_string(),
                                         self.share_string_collection
-                                            .iter()
-                                            .map(|s| s.to_string())
-                                            .collect::<HashSet<String>>()
                                             .len()
+                                            .max(reference_count)
                                             .to_string(),
                                     );
+                                    attributes.insert(
+                                        "uniqueCount".to_string(),
+                                        self.share_string_collection.len().to_string(),
+                                    );
                                 }
                             }
-                            for string in self.share_string_collection.to_owned() {
+                            // Loaded entries are still in place, only the new ones are added
+                            for string in self
+                                .share_string_collection
+                                .iter()
+                                .skip(self.loaded_count)
+                                .flatten()
+                                .cloned()
+                            {
                                 let parent_id = xml_doc_mut
                                     .append_child_mut("si", None)
                                     .context("Failed to Add Child")?
@@ -67,7 +80,12 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                 xml_doc_mut
                                     .append_child_mut("t", Some(&parent_id))
                                     .context("Creating Share String Child Failed")?
-                                    .set_value_mut(string);
+                                    .set_text_mut(string);
+                            }
+                            self.loaded_count = self.share_string_collection.len();
+                            if let Some(root) = xml_doc_mut.get_root_mut() {
+                                root.order_child_mut(&["si", "extLst"])
+                                    .context("Failed Reorder the element child's")?;
                             }
                         }
                         office_doc_ref
@@ -138,6 +156,7 @@ impl XmlDocumentPart for ShareStringPart {
             office_document,
             parent_relationship_part,
             xml_document,
+            loaded_count: share_string_collection.len(),
             share_string_collection,
             file_path: file_name,
         })
@@ -167,20 +186,31 @@ impl ShareStringPart {
 
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<String>, AnyError> {
+    ) -> AnyResult<Vec<Option<String>>, AnyError> {
         let mut share_string_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
+            let xml_doc = xml_document
+                .try_borrow()
                 .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
-                for element in elements {
-                    if let Some((child_id, _)) = element.pop_child_mut() {
-                        if let Some(text_element) = xml_doc_mut.pop_element_mut(&child_id) {
+            for element_id in xml_doc.get_child_ids(&0, "si") {
+                if let Some(element) = xml_doc.get_element(&element_id) {
+                    let mut text = None;
+                    if let [(child_id, child_tag)] = element.get_children().as_slice() {
+                        if let (Some(text_element), "t") =
+                            (xml_doc.get_element(child_id), child_tag.as_str())
+                        {
                             let value = text_element.get_value().clone().unwrap_or("".to_string());
-                            share_string_collection.push(value);
+                            // White space at the ends counts only when it is marked so
+                            let is_preserved = text_element
+                                .get_attribute()
+                                .and_then(|attributes| attributes.get("xml:space"))
+                                .map_or(false, |space| space == "preserve");
+                            if is_preserved || value.trim() == value {
+                                text = Some(value);
+                            }
                         }
                     }
+                    share_string_collection.push(text);
                 }
             }
         }
@@ -194,11 +224,11 @@ impl ShareStringPart {
             if let Some(position) = self
                 .share_string_collection
                 .iter()
-                .position(|predicate| predicate == &value)
+                .position(|predicate| predicate.as_ref() == Some(&value))
             {
                 position.to_string()
             } else {
-                self.share_string_collection.push(value);
+                self.share_string_collection.push(Some(value));
                 (self.share_string_collection.len() - 1).to_string()
             },
         )
-- 
2.43.0


From 0304374b63807f07f55d4d35328ba08dea3eddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 30/44] fix: keep the calculation chain records that still name
 a formula cell and only these

---
 .../spreadsheet_2007/parts/workbook.rs        | 23 +++++++
 .../spreadsheet_2007/parts/worksheet.rs       | 27 +++++++-
 .../services/calculation_chain.rs             | 62 ++++++++++++++++---
 .../services/common_service.rs                | 19 ++++++
 4 files changed, 120 insertions(+), 11 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 007a2b3..e4d14d2 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -156,6 +156,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
         log_elapsed!(
             || {
                 self.theme_part.close_document()?;
+                self.update_calculation_chain()?;
                 self.common_service
                     .try_borrow_mut()
                     .context("Failed to pull common Service Handle")?
@@ -742,6 +743,28 @@ impl WorkbookPart {
         )
     }
 
+    /// Records of deleted sheets must not stay in the calculation chain
+    fn update_calculation_chain(&mut self) -> AnyResult<(), AnyError> {
+        self.forget_deleted_sheets_mut()?;
+        let mut worksheet_paths = HashMap::new();
+        for (relationship_id, attributes) in &self.loaded_sheets.attributes {
+            if let (Some(sheet_id), Some(worksheet_path)) = (
+                attributes.get("sheetId"),
+                self.workbook_relationship_part
+                    .try_borrow()
+                    .context("Failed to pull relationship handle")?
+                    .get_target_by_id(relationship_id)?,
+            ) {
+                worksheet_paths.insert(sheet_id.clone(), worksheet_path);
+            }
+        }
+        self.common_service
+            .try_borrow_mut()
+            .context("Failed to pull common Service Handle")?
+            .retain_formula_cells_mut(&worksheet_paths);
+        Ok(())
+    }
+
     fn forget_deleted_sheets_mut(&mut self) -> AnyResult<(), AnyError> {
         let sheet_collection = self
             .sheet_collection
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 80cf523..3e4e753 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -17,7 +17,7 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     cmp::{max, min},
-    collections::{BTreeMap, HashMap, VecDeque},
+    collections::{BTreeMap, HashMap, HashSet, VecDeque},
     rc::{Rc, Weak},
 };
 
@@ -186,6 +186,7 @@ impl XmlDocumentPartCommon for WorkSheet {
                         log_elapsed!(self.serialize_cols(&mut xml_doc_mut))?;
                         // Add Sheet Views to Document
                         log_elapsed!(self.serialize_sheet_views(&mut xml_doc_mut))?;
+                        log_elapsed!(self.update_calculation_chain())?;
                         // Add Sheet Data to Document
                         log_elapsed!(self.serialize_sheet_data(&mut xml_doc_mut))?;
                         if let Some(root_element) = xml_doc_mut.get_root_mut() {
@@ -559,6 +560,30 @@ impl WorkSheet {
         Ok(())
     }
 
+    /// Cells that lost their formula must not stay in the calculation chain
+    fn update_calculation_chain(&self) -> AnyResult<(), AnyError> {
+        let mut formula_cells = HashSet::new();
+        for (row_index, row) in self.sheet_data.iter().flatten() {
+            for (col_index, cell) in row.cell_records.iter().flatten() {
+                if cell.formula.is_some() {
+                    formula_cells.insert(format!(
+                        "{}{}",
+                        ConverterUtil::get_column_ref(*col_index)
+                            .context("Failed to get Char Id from Int")?,
+                        row_index
+                    ));
+                }
+            }
+        }
+        if let Some(common_service) = self.common_service.upgrade() {
+            common_service
+                .try_borrow_mut()
+                .context("Failed to Get Calculation Chain Handle")?
+                .set_formula_cells_mut(&self.file_path, formula_cells);
+        }
+        Ok(())
+    }
+
     fn serialize_sheet_data(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
         if let Some(sheet_data) = self.sheet_data.take().or_else(|| Some(BTreeMap::new())) {
             let sheet_data_id = xml_doc_mut
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index c8aeb8f..13abd81 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -7,13 +7,20 @@ use crate::{
     global_2007::traits::XmlDocumentPart,
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
-use std::{cell::RefCell, collections::HashMap, rc::Weak};
+use std::{
+    cell::RefCell,
+    collections::{HashMap, HashSet},
+    rc::Weak,
+};
 
 #[derive(Debug)]
 pub struct CalculationChainPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
-    calculation_collection: Vec<(String, String, Option<String>)>,
+    /// Cell key, sheet id, all attributes of the record
+    calculation_collection: Vec<(String, String, HashMap<String, String>)>,
+    /// Key : worksheet part -> Value : Cells with formula, for the sheets changed in this session
+    formula_cells: HashMap<String, HashSet<String>>,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
 }
@@ -37,8 +44,9 @@ impl XmlDocumentPartCommon for CalculationChainPart {
                             let mut xml_doc_mut = xml_document
                                 .try_borrow_mut()
                                 .context("Failed to pull document handle")?;
-                            for (cell_key, sheet_id, _l) in self.calculation_collection.to_owned() {
-                                let mut attributes = HashMap::new();
+                            for (cell_key, sheet_id, mut attributes) in
+                                self.calculation_collection.to_owned()
+                            {
                                 attributes.insert("r".to_string(), cell_key);
                                 attributes.insert("i".to_string(), sheet_id);
                                 xml_doc_mut
@@ -46,6 +54,10 @@ impl XmlDocumentPartCommon for CalculationChainPart {
                                     .context("Failed To Add Child Item")?
                                     .set_attribute_mut(attributes)?;
                             }
+                            if let Some(root) = xml_doc_mut.get_root_mut() {
+                                root.order_child_mut(&["c", "extLst"])
+                                    .context("Failed Reorder the element child's")?;
+                            }
                         }
                         office_doc_ref
                             .try_borrow_mut()
@@ -112,6 +124,7 @@ impl XmlDocumentPart for CalculationChainPart {
             office_document,
             parent_relationship_part,
             calculation_collection,
+            formula_cells: HashMap::new(),
             xml_document,
             file_path: file_name,
         })
@@ -138,10 +151,33 @@ impl CalculationChainPart {
             Err(anyhow!("Failed to upgrade relation part"))
         }
     }
+    /// Take note of the formula cells a worksheet has when it is closed
+    pub(crate) fn set_formula_cells_mut(
+        &mut self,
+        worksheet_path: &str,
+        formula_cells: HashSet<String>,
+    ) {
+        self.formula_cells
+            .insert(worksheet_path.to_string(), formula_cells);
+    }
+
+    /// Remove the records of deleted sheets and of cells that have no formula any more
+    pub(crate) fn retain_formula_cells_mut(&mut self, worksheet_paths: &HashMap<String, String>) {
+        let formula_cells = &self.formula_cells;
+        self.calculation_collection
+            .retain(|(cell_key, sheet_id, _)| match worksheet_paths.get(sheet_id) {
+                Some(worksheet_path) => formula_cells
+                    .get(worksheet_path)
+                    .map_or(true, |cells| cells.contains(cell_key)),
+                None => false,
+            });
+    }
+
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<(String, String, Option<String>)>, AnyError> {
+    ) -> AnyResult<Vec<(String, String, HashMap<String, String>)>, AnyError> {
         let mut calculation_collection = Vec::new();
+        let mut last_sheet_id = "0".to_string();
         if let Some(xml_document) = xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
@@ -149,11 +185,17 @@ impl CalculationChainPart {
             if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("c", None) {
                 for element in elements {
                     if let Some(attributes) = element.get_attribute() {
-                        calculation_collection.push((
-                            attributes["r"].clone(),
-                            attributes["i"].clone(),
-                            attributes.get("l").cloned(),
-                        ));
+                        // A record without sheet id belongs to the sheet of the one before
+                        if let Some(sheet_id) = attributes.get("i") {
+                            last_sheet_id = sheet_id.clone();
+                        }
+                        if let Some(cell_key) = attributes.get("r") {
+                            calculation_collection.push((
+                                cell_key.clone(),
+                                last_sheet_id.clone(),
+                                attributes.clone(),
+                            ));
+                        }
                     }
                 }
             }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
index 38bb913..6abbe9a 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
@@ -2,6 +2,7 @@ use crate::global_2007::traits::XmlDocumentPartCommon;
 use crate::spreadsheet_2007::models::{StyleId, StyleSetting};
 use crate::spreadsheet_2007::services::{CalculationChainPart, ShareStringPart, StylePart};
 use anyhow::{Context, Error as AnyError, Result as AnyResult};
+use std::collections::{HashMap, HashSet};
 
 #[derive(Debug)]
 pub(crate) struct CommonServices {
@@ -36,6 +37,24 @@ impl CommonServices {
     }
 }
 
+// ########################### Calculation Chain ########################
+impl CommonServices {
+    pub(crate) fn set_formula_cells_mut(
+        &mut self,
+        worksheet_path: &str,
+        formula_cells: HashSet<String>,
+    ) {
+        self.calculation_chain
+            .set_formula_cells_mut(worksheet_path, formula_cells)
+    }
+
+    /// Key : Sheet Id -> Value : worksheet part
+    pub(crate) fn retain_formula_cells_mut(&mut self, worksheet_paths: &HashMap<String, String>) {
+        self.calculation_chain
+            .retain_formula_cells_mut(worksheet_paths)
+    }
+}
+
 // ########################### Share String ########################
 impl CommonServices {
     pub(crate) fn get_string_id_mut(&mut self, value: String) -> AnyResult<String, AnyError> {
-- 
2.43.0


From 6f3d1e4e0dc73c9a2277f2dbb70a3b20da2705da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 31/44] fix: refuse text that XML can not represent

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs |  1 +
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs   |  6 ++++++
 rs/src/utils/converters.rs                            | 11 +++++++++++
 3 files changed, 18 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index e4d14d2..ac7c7d4 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -906,6 +906,7 @@ impl WorkbookPart {
         old_sheet_name: &str,
         new_sheet_name: &str,
     ) -> AnyResult<(), AnyError> {
+        ConverterUtil::check_xml_text(new_sheet_name)?;
         // Check if sheet with same name exist
         if self
             .sheet_collection
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 3e4e753..d6a13a6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1171,6 +1171,7 @@ impl WorkSheet {
         workbook_relationship_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<(String, String), AnyError> {
         let worksheet_content = EXCEL_TYPE_COLLECTION.get("worksheet").unwrap();
+        ConverterUtil::check_xml_text(sheet_name.as_deref().unwrap_or_default())?;
         if let Some(sheet_collection) = sheet_collection.upgrade() {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
                 if let Some(sheet_name) = sheet_name.clone() {
@@ -1390,6 +1391,11 @@ impl WorkSheet {
         if column_cell.len() > 16385 - col_index as usize {
             return Err(anyhow!("Cells end outside of the sheet"));
         }
+        for cell_data in column_cell.iter() {
+            for text in cell_data.value.iter().chain(cell_data.formula.iter()) {
+                ConverterUtil::check_xml_text(text)?;
+            }
+        }
         // Map Start Normalization
         col_index -= 1;
         for cell_data in column_cell.iter_mut() {
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index f76b4ff..a0b6fe8 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -40,6 +40,17 @@ impl ConverterUtil {
         Ok(column_name)
     }
 
+    /// Text with characters that XML can not represent would make the whole part unreadable
+    pub(crate) fn check_xml_text(text: &str) -> AnyResult<(), AnyError> {
+        if text.chars().all(|c| {
+            matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
+        }) {
+            Ok(())
+        } else {
+            Err(anyhow!("Text contains a character that is not allowed in XML"))
+        }
+    }
+
     /// Columns of the grid are A (1) to XFD (16384)
     pub(crate) fn check_column_index(col_index: u16) -> AnyResult<(), AnyError> {
         if col_index < 1 || col_index > 16384 {
-- 
2.43.0


From 158fb57bce2eae9bd32f0dbf36ed93a78e8b5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 32/44] fix: keep loaded style records as they are and resolve
 number formats

---
 rs/src/files/xml/xml_tree.rs                  |  60 +++
 .../spreadsheet_2007/services/style.rs        | 381 ++++++++++++------
 2 files changed, 320 insertions(+), 121 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index cbba3dd..da57879 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -96,6 +96,66 @@ impl XmlDocument {
         })
     }
 
+    /// Independent copy of the document
+    pub(crate) fn duplicate(&self) -> XmlDocument {
+        let namespaces = self.namespace_collection.borrow().clone();
+        let namespace_collection = Rc::new(RefCell::new(namespaces));
+        let mut xml_element_collection = HashMap::new();
+        for (id, element) in self.xml_element_collection.iter() {
+            let children = element
+                .get_children()
+                .into_iter()
+                .map(|(id, tag)| XmlElementChild { id, tag })
+                .collect();
+            xml_element_collection.insert(
+                *id,
+                XmlElement {
+                    id: element.id,
+                    parent_id: element.parent_id,
+                    tag: element.tag.clone(),
+                    attributes: element.attributes.clone(),
+                    value: element.value.clone(),
+                    children: Rc::new(RefCell::new(children)),
+                    namespace_collection_ref: Rc::downgrade(&namespace_collection),
+                },
+            );
+        }
+        XmlDocument {
+            running_id: self.running_id,
+            namespace_collection,
+            xml_element_collection,
+        }
+    }
+
+    /// Does the element have the same tag, attributes and content as an element of another document
+    pub(crate) fn is_same_element(
+        &self,
+        element_id: &usize,
+        other_document: &XmlDocument,
+        other_id: &usize,
+    ) -> bool {
+        if let (Some(element), Some(other)) = (
+            self.get_element(element_id),
+            other_document.get_element(other_id),
+        ) {
+            let children = element.get_children();
+            let other_children = other.get_children();
+            return element.tag == other.tag
+                && element.attributes.clone().unwrap_or_default()
+                    == other.attributes.clone().unwrap_or_default()
+                && element.value.clone().unwrap_or_default().trim()
+                    == other.value.clone().unwrap_or_default().trim()
+                && children.len() == other_children.len()
+                && children
+                    .iter()
+                    .zip(other_children.iter())
+                    .all(|((id, _), (other_id, _))| {
+                        self.is_same_element(id, other_document, other_id)
+                    });
+        }
+        false
+    }
+
     /// Ids of all children with the tag
     pub(crate) fn get_child_ids(&self, parent_id: &usize, filter_tag: &str) -> Vec<usize> {
         self.get_element_ids_by_tag(filter_tag, Some(parent_id))
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index c6c63ae..06897d9 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -19,9 +19,21 @@ use std::{
     cell::RefCell,
     collections::{HashMap, VecDeque},
     hash::{DefaultHasher, Hash, Hasher},
-    rc::Weak,
+    rc::{Rc, Weak},
 };
 
+/// Elements that hold the style records in schema order
+const RECORD_TAGS: [&str; 6] = [
+    "numFmts",
+    "fonts",
+    "fills",
+    "borders",
+    "cellStyleXfs",
+    "cellXfs",
+];
+/// Hash of the loaded records that have content this library does not write
+const UNKNOWN_RECORD: u64 = u64::MAX;
+
 #[derive(Debug)]
 pub struct StylePart {
     office_document: Weak<RefCell<OfficeDocument>>,
@@ -110,7 +122,7 @@ impl XmlDocumentPart for StylePart {
             cell_style_collection,
             cell_collection,
         ) = Self::load_content(&mut xml_document).context("Load Share String To DB Failed")?;
-        Ok(Self {
+        let mut style_part = Self {
             office_document,
             xml_document,
             file_path: file_name,
@@ -123,7 +135,11 @@ impl XmlDocumentPart for StylePart {
             border_collection,
             cell_style_xfs_collection: cell_style_collection,
             cell_xfs_collection: cell_collection,
-        })
+        };
+        style_part
+            .set_apart_unknown_records_mut()
+            .context("Comparing Loaded Style Records Failed")?;
+        Ok(style_part)
     }
 }
 
@@ -170,9 +186,11 @@ impl StylePart {
         let mut style_collection = Vec::new();
         let mut xfs_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
+            // The records are read from a copy, the loaded elements stay in the document
             let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
+                .try_borrow()
+                .context("xml doc borrow failed")?
+                .duplicate();
             // Load Number Format Region
             if let Some(mut number_formats_vec) =
                 xml_doc_mut.pop_elements_by_tag_mut("numFmts", None)
@@ -184,21 +202,21 @@ impl StylePart {
                             let num_fmt = xml_doc_mut
                                 .pop_element_mut(&element_id)
                                 .ok_or(anyhow!("Element not Found Error"))?;
+                            let mut number_format = NumberFormat::default();
                             if let Some(attributes) = num_fmt.get_attribute() {
-                                let mut number_format = NumberFormat::default();
                                 number_format.format_id = attributes
                                     .get("numFmtId")
-                                    .ok_or(anyhow!("numFmtId Attribute Not Found!"))?
-                                    .parse()
-                                    .context("Number format ID parsing Failed")?;
+                                    .and_then(|id| id.parse().ok())
+                                    .unwrap_or_default();
                                 number_format.format_code = attributes
                                     .get("formatCode")
-                                    .ok_or(anyhow!("formatCode Attribute Not Found!"))?
+                                    .cloned()
+                                    .unwrap_or_default()
                                     .to_string();
-                                let mut hasher = DefaultHasher::new();
-                                number_format.hash(&mut hasher);
-                                num_format_records.push((hasher.finish(), number_format));
                             }
+                            let mut hasher = DefaultHasher::new();
+                            number_format.hash(&mut hasher);
+                            num_format_records.push((hasher.finish(), number_format));
                         } else {
                             break;
                         }
@@ -233,17 +251,17 @@ impl StylePart {
                                                     }
                                                 }
                                             }
-                                            font_style.is_underline = false;
+                                            font_style.is_underline =
+                                                !font_style.is_double_underline;
                                         }
-                                        "i" => font_style.is_italic = false,
+                                        "i" => font_style.is_italic = true,
                                         "sz" => {
                                             if let Some(attributes) =
                                                 current_element.get_attribute()
                                             {
                                                 if let Some(val) = attributes.get("val") {
-                                                    font_style.size = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
+                                                    font_style.size =
+                                                        val.parse().unwrap_or_default()
                                                 }
                                             }
                                         }
@@ -286,9 +304,8 @@ impl StylePart {
                                                 current_element.get_attribute()
                                             {
                                                 if let Some(val) = attributes.get("val") {
-                                                    font_style.family = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
+                                                    font_style.family =
+                                                        val.parse().unwrap_or_default()
                                                 }
                                             }
                                         }
@@ -302,9 +319,7 @@ impl StylePart {
                                                 }
                                             }
                                         }
-                                        _ => {
-                                            return Err(anyhow!("Unknown Font Style Found!"));
-                                        }
+                                        _ => {}
                                     }
                                 } else {
                                     break;
@@ -420,11 +435,7 @@ impl StylePart {
                                                                         });
                                                                     }
                                                                 }
-                                                                _ => {
-                                                                    return Err(anyhow!(
-                                                                    "Unknown Color patter found"
-                                                                ));
-                                                                }
+                                                                _ => {}
                                                             }
                                                         }
                                                     }
@@ -499,11 +510,7 @@ impl StylePart {
                                                     )
                                                     .context("Left Border Decode Failed")?;
                                                 }
-                                                _ => {
-                                                    return Err(anyhow!(
-                                                        "Unknown border style found"
-                                                    ));
-                                                }
+                                                _ => {}
                                             }
                                         }
                                     } else {
@@ -554,19 +561,13 @@ impl StylePart {
                 .context("xml doc borrow failed")?;
             // Create Number Formats Elements
             {
-                let num_formats = xml_doc_mut
-                    .insert_child_at_mut("numFmts", &0, None)
-                    .context("Create Number Formats Parent Failed.")?;
-                let num_formats_id = num_formats.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.number_format_collection.len().to_string(),
-                );
-                num_formats
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, num_format) in self.number_format_collection.as_slice() {
+                let (num_formats_id, kept) = StylePart::get_record_parent_mut(
+                    &mut xml_doc_mut,
+                    "numFmts",
+                    self.number_format_collection.len(),
+                )
+                .context("Create Number Formats Parent Failed.")?;
+                for (_, num_format) in self.number_format_collection.iter().skip(kept) {
                     let num_format_element = xml_doc_mut
                         .append_child_mut("numFmt", Some(&num_formats_id))
                         .context("Create Number Format Element Failed")?;
@@ -580,16 +581,13 @@ impl StylePart {
             }
             // Create Fonts Elements
             {
-                let fonts = xml_doc_mut
-                    .insert_children_after_tag_mut("fonts", "numFmts", None)
-                    .context("Create Fonts Parent Failed.")?;
-                let fonts_id = fonts.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.font_collection.len().to_string());
-                fonts
-                    .set_attribute_mut(attributes)
-                    .context("Set attribute failed for fonts style")?;
-                for (_, font_style) in self.font_collection.as_slice() {
+                let (fonts_id, kept) = StylePart::get_record_parent_mut(
+                    &mut xml_doc_mut,
+                    "fonts",
+                    self.font_collection.len(),
+                )
+                .context("Create Fonts Parent Failed.")?;
+                for (_, font_style) in self.font_collection.iter().skip(kept) {
                     let font_id = xml_doc_mut
                         .append_child_mut("font", Some(&fonts_id))
                         .context("Adding Font to Fonts Failed")?
@@ -604,7 +602,7 @@ impl StylePart {
                             .append_child_mut("i", Some(&font_id))
                             .context("Create Size Failed")?;
                     }
-                    if font_style.is_underline {
+                    if font_style.is_underline && !font_style.is_double_underline {
                         xml_doc_mut
                             .append_child_mut("u", Some(&font_id))
                             .context("Create Size Failed")?;
@@ -662,16 +660,13 @@ impl StylePart {
             }
             // Create Fills Elements
             {
-                let fills = xml_doc_mut
-                    .insert_children_after_tag_mut("fills", "fonts", None)
-                    .context("Create Fills parents Failed.")?;
-                let fills_id = fills.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.fill_collection.len().to_string());
-                fills
-                    .set_attribute_mut(attributes)
-                    .context("Set Fill Attribute Failed")?;
-                for (_, fill_data) in self.fill_collection.as_slice() {
+                let (fills_id, kept) = StylePart::get_record_parent_mut(
+                    &mut xml_doc_mut,
+                    "fills",
+                    self.fill_collection.len(),
+                )
+                .context("Create Fills parents Failed.")?;
+                for (_, fill_data) in self.fill_collection.iter().skip(kept) {
                     let fill_id = xml_doc_mut
                         .append_child_mut("fill", Some(&fills_id))
                         .context("Adding Fill Element Failed")?
@@ -718,19 +713,13 @@ impl StylePart {
             }
             // Create Border Elements
             {
-                let borders = xml_doc_mut
-                    .insert_children_after_tag_mut("borders", "fills", None)
-                    .context("Create borders parents Failed.")?;
-                let borders_id = borders.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.border_collection.len().to_string(),
-                );
-                borders
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, border_data) in self.border_collection.as_slice() {
+                let (borders_id, kept) = StylePart::get_record_parent_mut(
+                    &mut xml_doc_mut,
+                    "borders",
+                    self.border_collection.len(),
+                )
+                .context("Create borders parents Failed.")?;
+                for (_, border_data) in self.border_collection.iter().skip(kept) {
                     let border_id = xml_doc_mut
                         .append_child_mut("border", Some(&borders_id))
                         .context("Create Border Failed")?
@@ -772,10 +761,6 @@ impl StylePart {
                     )?;
                 }
             }
-            // Create Cell Style Elements
-            {
-                StylePart::add_cell_style(&mut xml_doc_mut, &mut self.cell_xfs_collection, true)?;
-            }
             // Create Defined Cell Style Elements
             {
                 StylePart::add_cell_style(
@@ -784,6 +769,10 @@ impl StylePart {
                     false,
                 )?;
             }
+            // Create Cell Style Elements
+            {
+                StylePart::add_cell_style(&mut xml_doc_mut, &mut self.cell_xfs_collection, true)?;
+            }
         }
         Ok(())
     }
@@ -801,23 +790,23 @@ impl StylePart {
                         if let Some(number_format_id) = attributes.get("numFmtId") {
                             cell_xf.number_format_id = number_format_id
                                 .parse()
-                                .context("Number Number Format Id Parse Failed")?;
+                                .unwrap_or_default();
                         }
                         if let Some(font_id) = attributes.get("fontId") {
                             cell_xf.font_id =
-                                font_id.parse().context("Number Font Id Parse Failed")?;
+                                font_id.parse().unwrap_or_default();
                         }
                         if let Some(fill_id) = attributes.get("fillId") {
                             cell_xf.fill_id =
-                                fill_id.parse().context("Number Fill Id Parse Failed")?;
+                                fill_id.parse().unwrap_or_default();
                         }
                         if let Some(border_id) = attributes.get("borderId") {
                             cell_xf.border_id =
-                                border_id.parse().context("Number Border Id Parse Failed")?;
+                                border_id.parse().unwrap_or_default();
                         }
                         if let Some(format_id) = attributes.get("xfId") {
                             cell_xf.format_id =
-                                format_id.parse().context("Number Format Id Parse Failed")?;
+                                format_id.parse().unwrap_or_default();
                         }
                         if let Some(apply_protection) = attributes.get("applyProtection") {
                             cell_xf.apply_protection =
@@ -886,7 +875,7 @@ impl StylePart {
     pub(crate) fn deserialize_border_setting(
         current_element: &XmlElement,
         border: &mut BorderSetting,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
     ) -> Result<(), AnyError> {
         Ok(if let Some(attributes) = current_element.get_attribute() {
             if let Some(style) = attributes.get("style") {
@@ -968,29 +957,108 @@ impl StylePart {
         Ok(())
     }
 
+    /// Get the element the records belong to and the number of records it has already
+    fn get_record_parent_mut(
+        xml_doc_mut: &mut XmlDocument,
+        tag: &str,
+        record_count: usize,
+    ) -> AnyResult<(usize, usize), AnyError> {
+        let existing_id = xml_doc_mut.get_child_ids(&0, tag).pop();
+        let kept = existing_id
+            .and_then(|id| xml_doc_mut.get_element(&id))
+            .map(|element| element.get_child_count())
+            .unwrap_or_default();
+        if kept >= record_count {
+            return Ok((existing_id.unwrap_or_default(), kept));
+        }
+        let parent = if let Some(id) = existing_id {
+            xml_doc_mut
+                .get_element_mut(&id)
+                .ok_or(anyhow!("Style Record Parent Not Found"))?
+        } else {
+            let previous_tag = RECORD_TAGS
+                .iter()
+                .take_while(|item| **item != tag)
+                .filter(|item| !xml_doc_mut.get_child_ids(&0, item).is_empty())
+                .last();
+            if let Some(previous_tag) = previous_tag {
+                xml_doc_mut.insert_children_after_tag_mut(tag, previous_tag, None)?
+            } else {
+                xml_doc_mut.insert_child_at_mut(tag, &0, None)?
+            }
+        };
+        let mut attributes = parent.get_attribute().cloned().unwrap_or_default();
+        attributes.insert("count".to_string(), record_count.to_string());
+        parent
+            .set_attribute_mut(attributes)
+            .context("Updating Style Record Count Failed")?;
+        Ok((parent.get_id(), kept))
+    }
+
+    /// A loaded record with content that is not kept in its fields never equals a requested one
+    fn set_apart_unknown_records_mut(&mut self) -> AnyResult<(), AnyError> {
+        if let Some(loaded_document) = self.xml_document.upgrade() {
+            let mut document = XmlDocument::new();
+            document.create_root_mut("styleSheet")?;
+            let written_document = Rc::new(RefCell::new(document));
+            self.xml_document = Rc::downgrade(&written_document);
+            let result = self.save_content_to_tree_mut();
+            self.xml_document = Rc::downgrade(&loaded_document);
+            result?;
+            let loaded = loaded_document
+                .try_borrow()
+                .context("xml doc borrow failed")?;
+            let written = written_document
+                .try_borrow()
+                .context("xml doc borrow failed")?;
+            for tag in RECORD_TAGS {
+                let get_records = |document: &XmlDocument| {
+                    document
+                        .get_child_ids(&0, tag)
+                        .pop()
+                        .and_then(|id| document.get_element(&id))
+                        .map(|element| element.get_children())
+                        .unwrap_or_default()
+                };
+                let records = get_records(&loaded)
+                    .into_iter()
+                    .zip(get_records(&written).into_iter());
+                for (position, ((loaded_id, _), (written_id, _))) in records.enumerate() {
+                    if loaded.is_same_element(&loaded_id, &written, &written_id) {
+                        continue;
+                    }
+                    match tag {
+                        "numFmts" => self.number_format_collection[position].0 = UNKNOWN_RECORD,
+                        "fonts" => self.font_collection[position].0 = UNKNOWN_RECORD,
+                        "fills" => self.fill_collection[position].0 = UNKNOWN_RECORD,
+                        "borders" => self.border_collection[position].0 = UNKNOWN_RECORD,
+                        "cellStyleXfs" => {
+                            self.cell_style_xfs_collection[position].0 = UNKNOWN_RECORD
+                        }
+                        _ => self.cell_xfs_collection[position].0 = UNKNOWN_RECORD,
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn add_cell_style(
         xml_doc_mut: &mut XmlDocument,
         xfs_data: &mut Vec<(u64, CellXfs)>,
         enable_format_id: bool,
     ) -> Result<(), AnyError> {
-        let cell_style_xfs = xml_doc_mut
-            .insert_children_after_tag_mut(
-                if enable_format_id {
-                    "cellXfs"
-                } else {
-                    "cellStyleXfs"
-                },
-                "borders",
-                None,
-            )
-            .context("Create Cell Style parents Failed.")?;
-        let cell_style_xfs_id = cell_style_xfs.get_id();
-        let mut attributes = HashMap::new();
-        attributes.insert("count".to_string(), xfs_data.len().to_string());
-        cell_style_xfs
-            .set_attribute_mut(attributes)
-            .context("Updating Number Formats Element Attributes Failed")?;
-        for (_, xfs) in xfs_data {
+        let (cell_style_xfs_id, kept) = StylePart::get_record_parent_mut(
+            xml_doc_mut,
+            if enable_format_id {
+                "cellXfs"
+            } else {
+                "cellStyleXfs"
+            },
+            xfs_data.len(),
+        )
+        .context("Create Cell Style parents Failed.")?;
+        for (_, xfs) in xfs_data.iter().skip(kept) {
             let xf = xml_doc_mut
                 .append_child_mut("xf", Some(&cell_style_xfs_id))
                 .context("Create Cell Style Config Failed")?;
@@ -1073,6 +1141,59 @@ impl StylePart {
         hasher.finish()
     }
 
+    /// Every text of the setting ends up in an attribute of the style sheet
+    fn validate_setting(style_setting: &StyleSetting) -> AnyResult<(), AnyError> {
+        let borders = [
+            &style_setting.border_left,
+            &style_setting.border_right,
+            &style_setting.border_top,
+            &style_setting.border_bottom,
+            &style_setting.border_diagonal,
+        ];
+        let mut texts = vec![&style_setting.font_family, &style_setting.text_color.value];
+        texts.extend(style_setting.custom_number_format.iter());
+        texts.extend(style_setting.background_color.iter());
+        texts.extend(style_setting.foreground_color.iter());
+        for border in borders {
+            texts.extend(border.border_color.iter().map(|color| &color.value));
+        }
+        for text in texts {
+            ConverterUtil::check_xml_text(text)?;
+        }
+        Ok(())
+    }
+
+    /// Index 0 of every record kind belongs to the cells without style
+    fn add_default_records_mut(&mut self) {
+        fn get_record<T: Hash>(item: T) -> (u64, T) {
+            let mut hasher = DefaultHasher::new();
+            item.hash(&mut hasher);
+            (hasher.finish(), item)
+        }
+        if self.font_collection.is_empty() {
+            self.font_collection.push(get_record(FontStyle::default()));
+        }
+        if self.fill_collection.is_empty() {
+            self.fill_collection.push(get_record(FillStyle::default()));
+            self.fill_collection.push(get_record(FillStyle {
+                pattern_type: PatternTypeValues::Gray125,
+                ..Default::default()
+            }));
+        }
+        if self.border_collection.is_empty() {
+            self.border_collection
+                .push(get_record(BorderStyle::default()));
+        }
+        if self.cell_style_xfs_collection.is_empty() {
+            self.cell_style_xfs_collection
+                .push(get_record(CellXfs::default()));
+        }
+        if self.cell_xfs_collection.is_empty() {
+            self.cell_xfs_collection
+                .push(get_record(CellXfs::default()));
+        }
+    }
+
     pub(crate) fn get_style_id_mut(
         &mut self,
         style_setting: StyleSetting,
@@ -1081,36 +1202,54 @@ impl StylePart {
         if let Some((_, id)) = self.cache_id.get_key_value(&style_hash) {
             Ok(StyleId::new(*id))
         } else {
+            StylePart::validate_setting(&style_setting)?;
+            self.add_default_records_mut();
             let mut cell_style = CellXfs::default();
             if style_setting.number_format == NumberFormatValues::Custom {
                 cell_style.apply_number_format = 1;
                 // Get Number Format ID
                 if let Some(custom_format) = style_setting.custom_number_format {
                     let mut hasher = DefaultHasher::new();
-                    let number_format = NumberFormat {
+                    let mut number_format = NumberFormat {
                         format_code: custom_format,
                         format_type: NumberFormatValues::Custom,
                         ..Default::default()
                     };
-                    number_format.hash(&mut hasher);
-                    let current_hash = hasher.finish();
-                    if let Some(position) = self
-                        .number_format_collection
-                        .iter()
-                        .position(|(hash, _)| *hash == current_hash)
-                    {
-                        cell_style.number_format_id = position as u16 + 163;
+                    if let Some(position) = self.number_format_collection.iter().position(
+                        |(hash, item)| {
+                            *hash != UNKNOWN_RECORD
+                                && item.format_code == number_format.format_code
+                                && item.format_id <= u16::MAX as usize
+                        },
+                    ) {
+                        cell_style.number_format_id =
+                            self.number_format_collection[position].1.format_id as u16;
                     } else {
+                        // Ids from 164 are free for custom formats
+                        let is_used = |id: &usize| {
+                            self.number_format_collection
+                                .iter()
+                                .any(|(_, item)| item.format_id == *id)
+                        };
+                        number_format.format_id = (164..u16::MAX as usize)
+                            .find(|id| !is_used(id))
+                            .ok_or(anyhow!("Too many custom number formats."))?;
+                        number_format.hash(&mut hasher);
+                        cell_style.number_format_id = number_format.format_id as u16;
                         self.number_format_collection
-                            .push((current_hash, number_format));
-                        cell_style.number_format_id =
-                            (self.number_format_collection.len() - 1) as u16;
+                            .push((hasher.finish(), number_format));
                     }
                 } else {
                     return Err(anyhow!(
                         "Custom Format Type is used without providing custom number format."
                     ));
                 }
+            } else if style_setting.number_format != NumberFormatValues::General {
+                cell_style.apply_number_format = 1;
+                cell_style.number_format_id =
+                    NumberFormatValues::get_string(style_setting.number_format)
+                        .parse()
+                        .context("Number Format Id Parse Failed")?;
             }
             // Get Font Style ID
             {
-- 
2.43.0


From 9a672138ce407cac8f428c21875260b02ef0c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 33/44] fix: equal formatting requests resolve to one loaded
 style

---
 .../spreadsheet_2007/services/style.rs          | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 06897d9..0d6c655 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1196,13 +1196,25 @@ impl StylePart {
 
     pub(crate) fn get_style_id_mut(
         &mut self,
-        style_setting: StyleSetting,
+        mut style_setting: StyleSetting,
     ) -> AnyResult<StyleId, AnyError> {
         let style_hash = self.generate_setting_hash(&style_setting);
         if let Some((_, id)) = self.cache_id.get_key_value(&style_hash) {
             Ok(StyleId::new(*id))
         } else {
             StylePart::validate_setting(&style_setting)?;
+            for border in [
+                &mut style_setting.border_left,
+                &mut style_setting.border_right,
+                &mut style_setting.border_top,
+                &mut style_setting.border_bottom,
+                &mut style_setting.border_diagonal,
+            ] {
+                // There is no line the color could belong to
+                if border.style == BorderStyleValues::None {
+                    border.border_color = None;
+                }
+            }
             self.add_default_records_mut();
             let mut cell_style = CellXfs::default();
             if style_setting.number_format == NumberFormatValues::Custom {
@@ -1258,7 +1270,8 @@ impl StylePart {
                     name: style_setting.font_family,
                     is_bold: style_setting.is_bold,
                     is_italic: style_setting.is_italic,
-                    is_underline: style_setting.is_underline,
+                    is_underline: style_setting.is_underline
+                        && !style_setting.is_double_underline,
                     is_double_underline: style_setting.is_double_underline,
                     color: style_setting.text_color,
                     size: style_setting.font_size,
-- 
2.43.0


From 30faf8b87edc03e679a6941364fa60d6c7d99b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 34/44] fix: report incomplete XML documents as an error

---
 rs/src/files/xml/xml_serialize.rs | 13 ++++++++++++-
 rs/src/files/xml/xml_tree.rs      |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 7e91a6a..b418cf5 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -54,6 +54,9 @@ impl XmlSerializer {
                     let attributes = Self::get_attributes_string(element)?;
                     open_elements += 1;
                     // Update tree structure
+                    if root_loaded && open_elements == 1 {
+                        break Err(anyhow!("XML document has more than one root element"));
+                    }
                     if root_loaded {
                         // Add child to parent
                         active_xml_element_id = xml_document
@@ -79,6 +82,9 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
+                    if root_loaded && open_elements == 0 {
+                        break Err(anyhow!("XML document has more than one root element"));
+                    }
                     if root_loaded {
                         xml_document
                             .append_child_mut(&tag, Some(&active_xml_element_id))
@@ -134,7 +140,12 @@ impl XmlSerializer {
                 }
 
                 // End of file
-                Result::Ok(Event::Eof) => break Ok(()),
+                Result::Ok(Event::Eof) => {
+                    if !root_loaded || open_elements > 0 {
+                        break Err(anyhow!("XML document ends before its root element"));
+                    }
+                    break Ok(());
+                }
 
                 // Default case for other events
                 _ => {}
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index da57879..b6fd4cc 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -367,7 +367,10 @@ impl XmlDocument {
         let mut is_found = false;
         loop {
             if let Some(find_tag) = element_tree.pop() {
-                let element = self.xml_element_collection.get(&current_id).unwrap();
+                let element = self
+                    .xml_element_collection
+                    .get(&current_id)
+                    .ok_or(anyhow!("Element Not Found"))?;
                 if element.get_tag() == find_tag && current_id == 0 {
                     // Skip the root element
                     if element_tree.len() == 0 {
-- 
2.43.0


From 29ee43611f29c370ff62304bbbc6b76e1a9b83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 35/44] fix: read workbooks with prefixed names and refuse
 sheets that are no worksheet

---
 rs/src/files/xml/xml_serialize.rs             |  8 ++++
 rs/src/files/xml/xml_tree.rs                  | 45 +++++++++++++++++++
 .../spreadsheet_2007/parts/worksheet.rs       |  3 ++
 3 files changed, 56 insertions(+)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index b418cf5..3ef1d4f 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -12,6 +12,13 @@ use quick_xml::{
 };
 use std::{collections::HashMap, io::Cursor};
 
+/// Namespaces of the documents this library reads by unprefixed names
+const PREFIX_FREE_NAMESPACES: [&str; 3] = [
+    "http://schemas.openxmlformats.org/spreadsheetml/2006/main",
+    "http://schemas.openxmlformats.org/package/2006/relationships",
+    "http://schemas.openxmlformats.org/package/2006/content-types",
+];
+
 pub struct XmlSerializer {}
 
 impl XmlSerializer {
@@ -30,6 +37,7 @@ impl XmlSerializer {
             },
             format!("Serializing : {}", file_name)
         )?;
+        xml_document.set_default_namespace_mut(&PREFIX_FREE_NAMESPACES);
         Ok(xml_document)
     }
 
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index b6fd4cc..790134a 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -180,6 +180,51 @@ impl XmlDocument {
         Ok(self.xml_element_collection.get_mut(&0).unwrap())
     }
 
+    /// Drop the prefix of the root element if it stands for one of the namespaces
+    pub(crate) fn set_default_namespace_mut(&mut self, namespaces: &[&str]) {
+        const DEFAULT: &str = "<Default>";
+        let prefix = match self.get_root().and_then(|root| root.tag.split_once(':')) {
+            Some((prefix, _)) => format!("{}:", prefix),
+            None => return,
+        };
+        let namespace = {
+            let collection = self.namespace_collection.borrow();
+            match collection.get(prefix.trim_end_matches(':')) {
+                Some(namespace)
+                    if namespaces.contains(&namespace.as_str())
+                        && !collection.contains_key(DEFAULT) =>
+                {
+                    namespace.to_string()
+                }
+                _ => return,
+            }
+        };
+        let prefix_declaration = format!("xmlns:{}", prefix.trim_end_matches(':'));
+        let is_bound_once = self.xml_element_collection.values().all(|element| {
+            element.tag.contains(':')
+                && element.attributes.as_ref().is_none_or(|attributes| {
+                    !attributes.contains_key("xmlns")
+                        && !attributes.contains_key(&prefix_declaration)
+                })
+        });
+        if !is_bound_once {
+            return;
+        }
+        for element in self.xml_element_collection.values_mut() {
+            if let Some(name) = element.tag.strip_prefix(&prefix) {
+                element.tag = name.to_string();
+            }
+            for child in element.children.borrow_mut().iter_mut() {
+                if let Some(name) = child.tag.strip_prefix(&prefix) {
+                    child.tag = name.to_string();
+                }
+            }
+        }
+        self.namespace_collection
+            .borrow_mut()
+            .insert(DEFAULT.to_string(), namespace);
+    }
+
     /// Removes the child reference from parent and remove the master element itself from collection
     pub(crate) fn pop_elements_by_tag_mut(
         &mut self,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index d6a13a6..6a7e165 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -306,6 +306,9 @@ impl WorkSheet {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("Failed to get XML doc handle")?;
+            if xml_doc_mut.get_root().map(|root| root.get_tag()) != Some("worksheet") {
+                return Err(anyhow!("The sheet is not a worksheet"));
+            }
             // unwrap dimension
             xml_doc_mut.pop_elements_by_tag_mut("dimension", None);
             // unwrap columns to local collection
-- 
2.43.0


From 0daf374f79d22c17aedd8e175e0b0b070938faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 36/44] fix: escape cell text that reads like a character
 escape

---
 .../spreadsheet_2007/parts/worksheet.rs         |  5 ++++-
 rs/src/utils/converters.rs                      | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 6a7e165..0c57c70 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1428,6 +1428,9 @@ impl WorkSheet {
                             _ => Some("1".to_string()),
                         }
                     }
+                    CellDataType::String | CellDataType::InlineString => {
+                        cell_data.value = Some(ConverterUtil::escape_cell_text(cell_value));
+                    }
                     _ => {}
                 }
             } else {
@@ -1505,7 +1508,7 @@ impl WorkSheet {
             common_service
                 .try_borrow_mut()
                 .context("Failed to Get Share String Handle")?
-                .get_string_id_mut(cell_value.to_owned())
+                .get_string_id_mut(ConverterUtil::escape_cell_text(cell_value))
                 .context("Failed to get share string id")
         } else {
             Err(anyhow!("Failed to update Share String Record"))
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index a0b6fe8..37485b9 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -40,6 +40,23 @@ impl ConverterUtil {
         Ok(column_name)
     }
 
+    /// `_xHHHH_` stands for a character in the text of a cell, the literal text needs an escape
+    pub(crate) fn escape_cell_text(text: &str) -> String {
+        let mut result = String::with_capacity(text.len());
+        for (position, character) in text.char_indices() {
+            let following = &text.as_bytes()[position..];
+            if following.len() > 6
+                && following[..2] == *b"_x"
+                && following[2..6].iter().all(u8::is_ascii_hexdigit)
+                && following[6] == b'_'
+            {
+                result.push_str("_x005F");
+            }
+            result.push(character);
+        }
+        result
+    }
+
     /// Text with characters that XML can not represent would make the whole part unreadable
     pub(crate) fn check_xml_text(text: &str) -> AnyResult<(), AnyError> {
         if text.chars().all(|c| {
-- 
2.43.0


From 25d6fc7a1dda822d20a5e20c753623a2a5b9129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 37/44] fix: refuse parts whose root element is of another kind

---
 rs/src/files/xml/xml_tree.rs                              | 8 ++++++++
 rs/src/global/global_2007/parts/content_types.rs          | 1 +
 rs/src/global/global_2007/parts/relations.rs              | 1 +
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs     | 1 +
 .../spreadsheet_2007/services/calculation_chain.rs        | 1 +
 .../spreadsheet/spreadsheet_2007/services/share_string.rs | 1 +
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs     | 1 +
 7 files changed, 14 insertions(+)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 790134a..cda6226 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -28,6 +28,14 @@ impl XmlDocument {
         self.xml_element_collection.len()
     }
 
+    /// A part of another kind can not be read or written as this one
+    pub(crate) fn check_root_tag(&self, tag: &str) -> AnyResult<(), AnyError> {
+        match self.get_root() {
+            Some(root) if root.get_tag() == tag => Ok(()),
+            _ => Err(anyhow!("The root of the document is not {}", tag)),
+        }
+    }
+
     pub(crate) fn get_root(&self) -> Option<&XmlElement> {
         self.xml_element_collection.get(&0)
     }
diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 3d4af61..2bb6b31 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -16,6 +16,7 @@ impl ContentTypesPart {
         let xml_document =
             XmlSerializer::vec_to_xml_doc_tree(xml_file_content, "Default Content Type")
                 .context("Decoding Content Type Failed")?;
+        xml_document.check_root_tag("Types")?;
         Ok(Self { xml_document })
     }
     pub(crate) fn get_extensions(&mut self) -> AnyResult<Option<Vec<(String, String)>>, AnyError> {
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 2570cf0..fc72cd4 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -106,6 +106,7 @@ impl RelationsPart {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("Failed for get XML Handle")?;
+            xml_doc_mut.check_root_tag("Relationships")?;
             if let Some(relationship_elements) =
                 xml_doc_mut.pop_elements_by_tag_mut("Relationship", None)
             {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index ac7c7d4..28cdcbe 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -503,6 +503,7 @@ impl WorkbookPart {
                     let mut xml_doc_mut = xml_document
                         .try_borrow_mut()
                         .context("xml doc borrow failed")?;
+                    xml_doc_mut.check_root_tag("workbook")?;
                     // Read the first Book View, the element stays in the document with all it holds
                     if let Some(book_views_id) = xml_doc_mut
                         .get_first_element_id(vec!["bookViews"], None)
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index 13abd81..f856f0b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -182,6 +182,7 @@ impl CalculationChainPart {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("xml doc borrow failed")?;
+            xml_doc_mut.check_root_tag("calcChain")?;
             if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("c", None) {
                 for element in elements {
                     if let Some(attributes) = element.get_attribute() {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index d9fd5b8..ef1b612 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -192,6 +192,7 @@ impl ShareStringPart {
             let xml_doc = xml_document
                 .try_borrow()
                 .context("xml doc borrow failed")?;
+            xml_doc.check_root_tag("sst")?;
             for element_id in xml_doc.get_child_ids(&0, "si") {
                 if let Some(element) = xml_doc.get_element(&element_id) {
                     let mut text = None;
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 0d6c655..b31b7ab 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -191,6 +191,7 @@ impl StylePart {
                 .try_borrow()
                 .context("xml doc borrow failed")?
                 .duplicate();
+            xml_doc_mut.check_root_tag("styleSheet")?;
             // Load Number Format Region
             if let Some(mut number_formats_vec) =
                 xml_doc_mut.pop_elements_by_tag_mut("numFmts", None)
-- 
2.43.0


From 62add925be6ab8a7c930e23479183290c9cda56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 38/44] fix: refuse documents with characters that XML does not
 allow

---
 rs/src/files/xml/xml_serialize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 3ef1d4f..3b97f8a 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -1,3 +1,4 @@
+use crate::converters::ConverterUtil;
 use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
@@ -175,6 +176,7 @@ impl XmlSerializer {
             }
             return Err(anyhow!("Text found outside of the root element"));
         }
+        ConverterUtil::check_xml_text(text)?;
         let element = xml_document
             .get_element_mut(&element_id)
             .ok_or(anyhow!("Converting Option to Result Failed"))
@@ -200,6 +202,7 @@ impl XmlSerializer {
                 let value: String = unescape(&value)
                     .context("Failed to parse attribute value")?
                     .to_string();
+                ConverterUtil::check_xml_text(&value)?;
                 Ok((key, value))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
-- 
2.43.0


From 4a60a0d8bde0bd26899838fbd823b80cac38e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 39/44] fix: sheet ids at the end of the number range do not
 overflow

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 28cdcbe..7c2fb09 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -630,6 +630,7 @@ impl WorkbookPart {
                                             if let Some(sheet_id) = attributes
                                                 .get("sheetId")
                                                 .and_then(|sheet_id| sheet_id.parse().ok())
+                                                .filter(|sheet_id| *sheet_id < u32::MAX as usize)
                                             {
                                                 loaded_sheets.max_sheet_id =
                                                     loaded_sheets.max_sheet_id.max(sheet_id);
-- 
2.43.0


From b5f46eeaa761ea70056ec62fca2a5631838e2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 40/44] fix: relationship id of a sheet record is found by
 namespace

---
 .../spreadsheet_2007/parts/workbook.rs        | 60 ++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 7c2fb09..1c3b7c6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -45,7 +45,32 @@ pub(crate) struct LoadedSheets {
     max_sheet_id: usize,
 }
 
+/// Namespaces of the relationship id of a sheet record
+const RELATIONSHIP_NAMESPACES: [&str; 2] = [
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
+    "http://purl.oclc.org/ooxml/officeDocument/relationships",
+];
+
 impl LoadedSheets {
+    /// The attribute is found by its namespace, the prefix is up to the producer of the file
+    fn get_relationship_id<'a>(
+        attributes: &'a HashMap<String, String>,
+        namespaces: &HashMap<String, String>,
+    ) -> Option<&'a String> {
+        attributes
+            .iter()
+            .find(|(key, _)| match key.split_once(':') {
+                Some((prefix, "id")) => attributes
+                    .get(&format!("xmlns:{}", prefix))
+                    .or(namespaces.get(prefix))
+                    .map_or(prefix == "r", |namespace| {
+                        RELATIONSHIP_NAMESPACES.contains(&namespace.as_str())
+                    }),
+                _ => false,
+            })
+            .map(|(_, value)| value)
+    }
+
     /// Forget deleted sheets, so that a new sheet reusing the relationship id does not inherit from it
     fn forget_deleted_mut(&mut self, sheet_collection: &[(String, String, bool, bool)]) {
         for item in self.relationship_ids.iter_mut() {
@@ -294,6 +319,11 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .context("Create Sheets Node Failed")?
                         .get_id()
                     };
+                    let is_prefix_bound = Self::get_sheets_namespaces(&xml_doc_mut, &sheets_id)
+                        .get("r")
+                        .map_or(false, |namespace| {
+                            RELATIONSHIP_NAMESPACES.contains(&namespace.as_str())
+                        });
                     let mut sheet_count = self.loaded_sheets.max_sheet_id + 1;
                     for (sheet_display_name, relationship_id, _, hide) in &sheet_collection
                     {
@@ -306,6 +336,12 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         } else {
                         attributes.insert("sheetId".to_string(), sheet_count.to_string());
                         attributes.insert("r:id".to_string(), relationship_id.to_string());
+                        if !is_prefix_bound {
+                            attributes.insert(
+                                "xmlns:r".to_string(),
+                                RELATIONSHIP_NAMESPACES[0].to_string(),
+                            );
+                        }
                         sheet_count += 1;
                         }
                         attributes.insert("name".to_string(), sheet_display_name.to_string());
@@ -484,6 +520,23 @@ impl LoadedSheets {
 // ############################# Internal Function ######################################
 // ############################# mut Function ######################################
 impl WorkbookPart {
+    /// Namespace declarations in force for the sheet records
+    fn get_sheets_namespaces(
+        xml_document: &XmlDocument,
+        sheets_id: &usize,
+    ) -> HashMap<String, String> {
+        let mut namespaces = HashMap::new();
+        if let Some(sheets) = xml_document.get_element(sheets_id) {
+            namespaces = sheets.get_namespace().unwrap_or_default();
+            for (key, value) in sheets.get_attribute().into_iter().flatten() {
+                if let Some(prefix) = key.strip_prefix("xmlns:") {
+                    namespaces.insert(prefix.to_string(), value.to_string());
+                }
+            }
+        }
+        namespaces
+    }
+
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
     ) -> AnyResult<
@@ -614,6 +667,7 @@ impl WorkbookPart {
                         .get_first_element_id(vec!["sheets"], None)
                         .context("Failed to find sheets")?
                     {
+                        let namespaces = Self::get_sheets_namespaces(&xml_doc_mut, &sheets_element_id);
                         if let Some(sheets) = xml_doc_mut.take_children_mut(&sheets_element_id) {
                             // Load Sheet from File if exist
                             loop {
@@ -623,7 +677,11 @@ impl WorkbookPart {
                                             let name = attributes.get("name").ok_or(anyhow!(
                                                 "Error When Trying to read Sheet Details."
                                             ))?;
-                                            let r_id = attributes.get("r:id").ok_or(anyhow!(
+                                            let r_id = LoadedSheets::get_relationship_id(
+                                                attributes,
+                                                &namespaces,
+                                            )
+                                            .ok_or(anyhow!(
                                                 "Error When Trying to read Sheet Details."
                                             ))?;
                                             let state = attributes.get("state");
-- 
2.43.0


From 8576a6e42558fcf0ae759ac967fe0f5c77101e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 41/44] fix: refuse row heights and column widths that are not
 finite numbers

---
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0c57c70..c1e91b7 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1296,6 +1296,11 @@ impl WorkSheet {
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
         ConverterUtil::check_column_index(*col_index)?;
+        if let Some(width) = column_properties.as_ref().and_then(|item| item.width) {
+            if !width.is_finite() {
+                return Err(anyhow!("Column Width {} is not a finite number", width));
+            }
+        }
         let column_collection = self.column_collection.get_or_insert_with(VecDeque::new);
         {
             let mut new_ranges = VecDeque::new();
@@ -1343,6 +1348,11 @@ impl WorkSheet {
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
         ConverterUtil::check_row_index(*row_index)?;
+        if let Some(height) = row_properties.height {
+            if !height.is_finite() {
+                return Err(anyhow!("Row Height {} is not a finite number", height));
+            }
+        }
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             if let Some(row) = sheet_data.get_mut(row_index) {
                 row.row_record = row_properties;
-- 
2.43.0


From 09c35d30e6b01aceca71cb6c8a1fdf51baf81dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 42/44] fix: read parts encoded in UTF-16

---
 rs/src/files/xml/xml_serialize.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 3b97f8a..01e20c7 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -27,6 +27,7 @@ impl XmlSerializer {
         xml_str: Vec<u8>,
         file_name: &str,
     ) -> AnyResult<XmlDocument, AnyError> {
+        let xml_str = Self::decode_utf16(xml_str).context("Decode UTF-16 Content Failed")?;
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
         // White space is content: " a " in a cell is not "a"
@@ -42,6 +43,23 @@ impl XmlSerializer {
         Ok(xml_document)
     }
 
+    /// A part may be encoded in UTF-16, which it then marks with a byte order mark
+    fn decode_utf16(content: Vec<u8>) -> AnyResult<Vec<u8>, AnyError> {
+        let to_unit: fn([u8; 2]) -> u16 = match content.get(..2) {
+            Some([0xFF, 0xFE]) => u16::from_le_bytes,
+            Some([0xFE, 0xFF]) => u16::from_be_bytes,
+            _ => return Ok(content),
+        };
+        if content.len() % 2 != 0 {
+            return Err(anyhow!("UTF-16 content ends within a code unit"));
+        }
+        let units: Vec<u16> = content[2..]
+            .chunks_exact(2)
+            .map(|pair| to_unit([pair[0], pair[1]]))
+            .collect();
+        Ok(String::from_utf16(&units)?.into_bytes())
+    }
+
     fn xml_element_parser(
         reader: &mut NsReader<Cursor<Vec<u8>>>,
         xml_document: &mut XmlDocument,
-- 
2.43.0


From d69da3a77a043a90ba7a3276664760a305fc835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 43/44] fix: accept every name XML allows

---
 rs/src/files/xml/xml_tree.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index cda6226..6dc0327 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -541,10 +541,18 @@ impl XmlElement {
 
     fn is_valid_xml_name(name: &str) -> bool {
         fn is_name_start_char(c: char) -> bool {
-            c.is_ascii_alphabetic() || c == '_' || c.is_alphabetic()
+            matches!(c,
+                'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
+                | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}'
+                | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}'
+                | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
+                | '\u{10000}'..='\u{EFFFF}')
         }
         fn is_name_char(c: char) -> bool {
-            is_name_start_char(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == ':'
+            is_name_start_char(c)
+                || matches!(c,
+                    '0'..='9' | '-' | '.' | ':' | '\u{B7}' | '\u{300}'..='\u{36F}'
+                    | '\u{203F}'..='\u{2040}')
         }
         if name.is_empty() {
             return false;
-- 
2.43.0


From 24d15451560ed802c80c86f04924634ebd369fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:27 +0000
Subject: [PATCH 44/44] fix: keep to the names of strict documents

---
 rs/src/files/office_document.rs               | 11 ++++++++
 rs/src/files/xml/xml_serialize.rs             |  3 ++-
 rs/src/files/xml/xml_tree.rs                  | 10 +++++++
 rs/src/global/global_2007/parts/relations.rs  | 27 +++++++++++++++++--
 rs/src/global/global_2007/traits/xml_parts.rs | 13 ++++++++-
 .../spreadsheet_2007/parts/workbook.rs        |  9 ++++++-
 rs/src/utils/converters.rs                    | 14 ++++++++++
 7 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index c4001b8..ad13cc4 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -32,6 +32,8 @@ pub(crate) struct OfficeDocument {
             Option<Vec<u8>>,
         ),
     >,
+    /// The document names namespaces and relationship types the strict way
+    is_strict: bool,
 }
 
 impl OfficeDocument {
@@ -46,9 +48,18 @@ impl OfficeDocument {
         Ok(Self {
             xml_document_collection: HashMap::new(),
             archive_collection,
+            is_strict: false,
         })
     }
 
+    pub(crate) fn is_strict(&self) -> bool {
+        self.is_strict
+    }
+
+    pub(crate) fn set_strict_mut(&mut self) {
+        self.is_strict = true;
+    }
+
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
         // A part added in this session is only open until it is closed the first time
         self.archive_collection.contains_key(&file_path)
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 01e20c7..f062f16 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -14,8 +14,9 @@ use quick_xml::{
 use std::{collections::HashMap, io::Cursor};
 
 /// Namespaces of the documents this library reads by unprefixed names
-const PREFIX_FREE_NAMESPACES: [&str; 3] = [
+const PREFIX_FREE_NAMESPACES: [&str; 4] = [
     "http://schemas.openxmlformats.org/spreadsheetml/2006/main",
+    "http://purl.oclc.org/ooxml/spreadsheetml/main",
     "http://schemas.openxmlformats.org/package/2006/relationships",
     "http://schemas.openxmlformats.org/package/2006/content-types",
 ];
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 6dc0327..b0ea773 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -1,3 +1,4 @@
+use crate::converters::ConverterUtil;
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
@@ -188,6 +189,15 @@ impl XmlDocument {
         Ok(self.xml_element_collection.get_mut(&0).unwrap())
     }
 
+    /// Name the namespaces the way strict documents do
+    pub(crate) fn set_strict_namespaces_mut(&mut self) {
+        for namespace in self.namespace_collection.borrow_mut().values_mut() {
+            if let Some(strict_name) = ConverterUtil::get_strict_name(namespace) {
+                *namespace = strict_name;
+            }
+        }
+    }
+
     /// Drop the prefix of the root element if it stands for one of the namespaces
     pub(crate) fn set_default_namespace_mut(&mut self, namespaces: &[&str]) {
         const DEFAULT: &str = "<Default>";
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index fc72cd4..a87fcdf 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -1,4 +1,5 @@
 use crate::{
+    converters::ConverterUtil,
     element_dictionary::{Content, COMMON_TYPE_COLLECTION},
     files::{OfficeDocument, XmlDocument},
     global_2007::traits::XmlDocumentPartCommon,
@@ -87,6 +88,17 @@ impl RelationsPart {
             }
         }
         let relationships = relationships.context("Failed to decode Relations")?;
+        if relationships
+            .iter()
+            .any(|item| item.2.starts_with(ConverterUtil::STRICT_NAMESPACE))
+        {
+            if let Some(office_document) = office_document.upgrade() {
+                office_document
+                    .try_borrow_mut()
+                    .context("Failed to Pull Open XML Handle")?
+                    .set_strict_mut();
+            }
+        }
         Ok(Self {
             office_document,
             xml_document,
@@ -202,10 +214,11 @@ impl RelationsPart {
         file_path: Option<String>,
         file_name: Option<String>,
     ) -> AnyResult<String, AnyError> {
+        let strict_type = ConverterUtil::get_strict_name(content_type);
         if let Some(relationship) = self
             .relationships
             .iter()
-            .find(|item| item.2 == content_type)
+            .find(|item| item.2 == content_type || Some(&item.2) == strict_type.as_ref())
         {
             self.resolve_target(&relationship.1)
                 .context("Get Relative Path for Part File")
@@ -281,6 +294,16 @@ impl RelationsPart {
         file_name: Option<String>,
     ) -> AnyResult<String, AnyError> {
         let next_id = self.get_next_relationship_id();
+        let is_strict = match self.office_document.upgrade() {
+            Some(office_document) => office_document
+                .try_borrow()
+                .context("Failed to Pull Open XML Handle")?
+                .is_strict(),
+            None => false,
+        };
+        let relationship_type = ConverterUtil::get_strict_name(content.schemas_type)
+            .filter(|_| is_strict)
+            .unwrap_or(content.schemas_type.to_string());
         self.relationships.push((
             next_id.clone(),
             format!(
@@ -289,7 +312,7 @@ impl RelationsPart {
                 file_name.unwrap_or(content.default_name.to_string()),
                 content.extension
             ),
-            content.schemas_type.to_string(),
+            relationship_type,
             None,
         ));
         Ok(next_id)
diff --git a/rs/src/global/global_2007/traits/xml_parts.rs b/rs/src/global/global_2007/traits/xml_parts.rs
index 5441f37..f0b7c26 100644
--- a/rs/src/global/global_2007/traits/xml_parts.rs
+++ b/rs/src/global/global_2007/traits/xml_parts.rs
@@ -20,6 +20,12 @@ pub(crate) trait XmlDocumentPartCommon {
         office_document: &Weak<RefCell<OfficeDocument>>,
         file_name: &str,
     ) -> AnyResult<Weak<RefCell<XmlDocument>>, AnyError> {
+        let is_strict = office_document
+            .upgrade()
+            .ok_or(anyhow!("Document Upgrade Handled Failed"))?
+            .try_borrow()
+            .context("Failed to borrow handle")?
+            .is_strict();
         let (xml_document, content_type, file_extension, extension_type) =
             if let Some((xml_document, content_type, file_extension, extension_type)) =
                 office_document
@@ -33,7 +39,12 @@ pub(crate) trait XmlDocumentPartCommon {
             {
                 (xml_document, content_type, file_extension, extension_type)
             } else {
-                Self::initialize_content_xml().context("Initial XML element parsing failed")?
+                let mut initial =
+                    Self::initialize_content_xml().context("Initial XML element parsing failed")?;
+                if is_strict {
+                    initial.0.set_strict_namespaces_mut();
+                }
+                initial
             };
         office_document
             .upgrade()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 1c3b7c6..583e8fc 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -324,6 +324,13 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .map_or(false, |namespace| {
                             RELATIONSHIP_NAMESPACES.contains(&namespace.as_str())
                         });
+                    let is_strict = match self.office_document.upgrade() {
+                        Some(office_document) => office_document
+                            .try_borrow()
+                            .context("Failed To Pull XML Handle")?
+                            .is_strict(),
+                        None => false,
+                    };
                     let mut sheet_count = self.loaded_sheets.max_sheet_id + 1;
                     for (sheet_display_name, relationship_id, _, hide) in &sheet_collection
                     {
@@ -339,7 +346,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         if !is_prefix_bound {
                             attributes.insert(
                                 "xmlns:r".to_string(),
-                                RELATIONSHIP_NAMESPACES[0].to_string(),
+                                RELATIONSHIP_NAMESPACES[usize::from(is_strict)].to_string(),
                             );
                         }
                         sheet_count += 1;
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 37485b9..35441af 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -3,6 +3,20 @@ use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
 pub struct ConverterUtil;
 
 impl ConverterUtil {
+    /// Start of the names strict documents have for namespaces and relationship types
+    pub(crate) const STRICT_NAMESPACE: &'static str = "http://purl.oclc.org/ooxml/";
+
+    /// Name a strict document has for a namespace or relationship type
+    pub(crate) fn get_strict_name(name: &str) -> Option<String> {
+        let (subject, item) = name
+            .strip_prefix("http://schemas.openxmlformats.org/")?
+            .split_once("/2006/")?;
+        if subject == "package" {
+            return None;
+        }
+        Some(format!("{}{}/{}", Self::STRICT_NAMESPACE, subject, item))
+    }
+
     /// Return int Id of the column
     pub fn get_column_index(cell_ref: &str) -> AnyResult<u16, AnyError> {
         let column_part: String = cell_ref.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
-- 
2.43.0

