From 4eba2dc9bfec4acd7dc2353b4fcb38e30be0b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 01/31] fix: write a saved file beside its target and rename it
 into place

A failed or interrupted save deleted or half overwrote the existing file.
---
 rs/src/files/office_document.rs | 47 ++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 85c2dbb..c3a7813 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,8 +7,11 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::{HashMap, HashSet},
-    fs::{metadata, remove_file, File},
-    io::{Cursor, Read, Write},
+    ffi::OsString,
+    fs::{remove_file, rename, File},
+    io::{Cursor, ErrorKind, Read, Write},
+    path::Path,
+    process,
     rc::{Rc, Weak},
 };
 use zip::{write::SimpleFileOptions, ZipArchive, ZipWriter};
@@ -164,12 +167,42 @@ impl OfficeDocument {
         let file_content: Vec<u8> = self
             .save_database_into_archive()
             .context("Save Archive Data into Database")?;
-        if metadata(file_path).is_ok() {
-            remove_file(file_path).map_err(|e| anyhow!("Remove Save File Target Failed. {}", e))?;
+        Self::write_file_atomic(Path::new(file_path), &file_content)
+    }
+
+    /// Write the content beside the target and move it over the target only once it is complete,
+    /// a failed or interrupted save leaves the previous file in place
+    fn write_file_atomic(target: &Path, content: &[u8]) -> AnyResult<(), AnyError> {
+        let target_name = target
+            .file_name()
+            .ok_or(anyhow!("Save File Target Is Not A File Path"))?;
+        let mut attempt = 0;
+        let (temp_path, mut file) = loop {
+            let mut temp_name = OsString::from(".");
+            temp_name.push(target_name);
+            temp_name.push(format!(".{}.{}.tmp", process::id(), attempt));
+            let temp_path = target.with_file_name(temp_name);
+            match File::options()
+                .write(true)
+                .create_new(true)
+                .open(&temp_path)
+            {
+                Ok(file) => break (temp_path, file),
+                Err(e) if e.kind() == ErrorKind::AlreadyExists && attempt < 1000 => attempt += 1,
+                Err(e) => return Err(e).context("Create Save File Failed"),
+            }
+        };
+        let result = file
+            .write_all(content)
+            .and_then(|_| file.sync_all())
+            .context("Save File Write Failed");
+        drop(file);
+        let result = result
+            .and_then(|_| rename(&temp_path, target).context("Replace Save File Target Failed"));
+        if result.is_err() {
+            let _ = remove_file(&temp_path);
         }
-        let mut file = File::create(file_path).context("Create Save File Failed")?;
-        file.write_all(&file_content)
-            .context("Save File Write Failed")
+        result
     }
 
     /// Save the database content into file archive
-- 
2.43.0


From 58a08a7197a35eca5d38b857c16b7d7ed402d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 02/31] fix: keep whitespace, CDATA, split text, attribute
 values and nested namespaces of XML parts

Reading trimmed and overwrote text, left attribute values escaped, moved nested
namespace declarations to the root and failed on a self closing root element.
---
 rs/src/files/xml/xml_deserialize.rs | 24 ++++++++--
 rs/src/files/xml/xml_serialize.rs   | 68 +++++++++++++++++++++++------
 rs/src/files/xml/xml_tree.rs        | 18 +++++++-
 3 files changed, 91 insertions(+), 19 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 3b6c24a..b9a5658 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -131,9 +131,9 @@ impl XmlDeSerializer {
                             .iter()
                             .map(|(key, value)| {
                                 if key == "<Default>" {
-                                    format!("xmlns=\"{}\"", value)
+                                    format!("xmlns=\"{}\"", Self::escape_attribute(value))
                                 } else {
-                                    format!("xmlns:{}=\"{}\"", key, value)
+                                    format!("xmlns:{}=\"{}\"", key, Self::escape_attribute(value))
                                 }
                             })
                             .collect::<Vec<String>>()
@@ -150,7 +150,11 @@ impl XmlDeSerializer {
                 format!(
                     " {}",
                     keys.iter()
-                        .map(|key| format!("{}=\"{}\"", key, escape(attributes.get(key).unwrap())))
+                        .map(|key| format!(
+                            "{}=\"{}\"",
+                            key,
+                            Self::escape_attribute(attributes.get(key).unwrap())
+                        ))
                         .collect::<Vec<String>>()
                         .join(" ")
                 )
@@ -166,6 +170,18 @@ impl XmlDeSerializer {
     }
 
     fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
-        format!("{}</{}>", escape(value), xml_element.get_tag())
+        format!(
+            "{}</{}>",
+            escape(value).replace('\r', "&#13;"),
+            xml_element.get_tag()
+        )
+    }
+
+    /// Line breaks and tabs in attributes are read back as spaces unless they are escaped
+    fn escape_attribute(value: &str) -> String {
+        escape(value)
+            .replace('\r', "&#13;")
+            .replace('\n', "&#10;")
+            .replace('\t', "&#9;")
     }
 }
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index d3c8ede..f8cb29c 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -20,7 +20,6 @@ impl XmlSerializer {
     ) -> AnyResult<XmlDocument, AnyError> {
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
-        reader.config_mut().trim_text(true);
         log_elapsed!(
             || {
                 Self::xml_element_parser(&mut reader, &mut xml_document)
@@ -37,6 +36,7 @@ impl XmlSerializer {
     ) -> AnyResult<(), AnyError> {
         let mut temp_buffer: Vec<u8> = Vec::new();
         let mut root_loaded = false;
+        let mut open_element_count: usize = 0;
         let mut active_xml_element_id: usize = 0;
         loop {
             match reader.read_event_into(&mut temp_buffer) {
@@ -68,6 +68,7 @@ impl XmlSerializer {
                             .get_id();
                         root_loaded = true
                     }
+                    open_element_count += 1;
                 }
 
                 // Handle empty elements (self-closing tags)
@@ -75,21 +76,35 @@ impl XmlSerializer {
                     let tag: String =
                         String::from_utf8_lossy(element.name().into_inner()).to_string();
                     let attributes = Self::get_attributes_string(element)?;
-                    xml_document
-                        .append_child_mut(&tag, Some(&active_xml_element_id))
-                        .context("Insert XML Child Failed.")?
-                        .set_attribute_mut(attributes)
-                        .context("Parser Attribute Validation Failed")?;
+                    if root_loaded {
+                        xml_document
+                            .append_child_mut(&tag, Some(&active_xml_element_id))
+                            .context("Insert XML Child Failed.")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                    } else {
+                        xml_document
+                            .create_root_mut(&tag)
+                            .context("Create XML Root Element Failed")?
+                            .set_attribute_mut(attributes)
+                            .context("Parser Attribute Validation Failed")?;
+                        root_loaded = true
+                    }
                 }
 
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
                     let text = byte_text.unescape().context("XML Text parsing error")?;
-                    xml_document
-                        .get_element_mut(&active_xml_element_id)
-                        .ok_or(anyhow!("Converting Option to Result Failed"))
-                        .context("Getting Target Element Failed")?
-                        .set_value_mut(text.to_string());
+                    // Text outside the root element is formatting only
+                    if open_element_count > 0 {
+                        Self::append_text(xml_document, &active_xml_element_id, &text)?;
+                    }
+                }
+
+                // Read unescaped text content
+                Result::Ok(Event::CData(byte_text)) => {
+                    let text = std::str::from_utf8(&byte_text).context("XML CData parsing error")?;
+                    Self::append_text(xml_document, &active_xml_element_id, text)?;
                 }
 
                 // Handle end tag
@@ -102,14 +117,21 @@ impl XmlSerializer {
                         .ok_or(anyhow!("Converting Option to Result Failed"))
                         .context("Getting Target Element Failed")?;
                     if element.get_tag() == tag {
-                        active_xml_element_id = element.get_parent_id()
+                        element.remove_formatting_value_mut();
+                        active_xml_element_id = element.get_parent_id();
+                        open_element_count -= 1;
                     } else {
                         break Err(anyhow!("Invalid XML Tree Parsing Failed."));
                     }
                 }
 
                 // End of file
-                Result::Ok(Event::Eof) => break Ok(()),
+                Result::Ok(Event::Eof) => {
+                    if !root_loaded || open_element_count > 0 {
+                        break Err(anyhow!("XML Document Ended Before Its Root Element"));
+                    }
+                    break Ok(());
+                }
 
                 // Default case for other events
                 _ => {}
@@ -118,6 +140,21 @@ impl XmlSerializer {
         }
     }
 
+    /// Add to the text of the element, comments split the text of one element in many events
+    fn append_text(
+        xml_document: &mut XmlDocument,
+        element_id: &usize,
+        text: &str,
+    ) -> AnyResult<(), AnyError> {
+        let element = xml_document
+            .get_element_mut(element_id)
+            .ok_or(anyhow!("Converting Option to Result Failed"))
+            .context("Getting Target Element Failed")?;
+        let value = format!("{}{}", element.get_value().as_deref().unwrap_or(""), text);
+        element.set_value_mut(value);
+        Ok(())
+    }
+
     fn get_attributes_string(element: BytesStart) -> AnyResult<HashMap<String, String>, AnyError> {
         element
             .attributes()
@@ -125,7 +162,10 @@ impl XmlSerializer {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
                 let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = String::from_utf8_lossy(&attribute.value).to_string();
+                let value: String = attribute
+                    .unescape_value()
+                    .context("Failed to unescape attribute")?
+                    .to_string();
                 Ok((key, value))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c23d203..544ec20 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -492,10 +492,11 @@ impl XmlElement {
         {
             return Err(anyhow!("Not All the attribute satisfy naming standards"));
         }
+        // Only the declarations of the root element apply to the whole document
         let ns_keys = keys
             .iter()
             .map(|item| item.to_string())
-            .filter(|item| item.starts_with("xmlns"))
+            .filter(|item| self.id == 0 && (item == "xmlns" || item.starts_with("xmlns:")))
             .clone()
             .collect::<Vec<String>>();
         if !ns_keys.is_empty() {
@@ -533,6 +534,21 @@ impl XmlElement {
         self
     }
 
+    /// Drop the text which is only formatting around child elements or inside an empty element
+    pub(crate) fn remove_formatting_value_mut(&mut self) {
+        if let Some(value) = &self.value {
+            let is_preserve = self.attributes.as_ref().map_or(false, |attributes| {
+                attributes.get("xml:space").map(String::as_str) == Some("preserve")
+            });
+            if self.children.borrow().len() > 0
+                || value.is_empty()
+                || (value.trim().is_empty() && !is_preserve)
+            {
+                self.value = None;
+            }
+        }
+    }
+
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
         self.children
             .try_borrow_mut()
-- 
2.43.0


From 7f772b37a00737ad6a6e526322aedf32487d2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 03/31] fix: keep workbook view settings the session did not
 change

showSheetTabs was read inverted, autoFilterDateGrouping was written as tabRatio, and
further views and unknown view attributes were dropped.
---
 .../spreadsheet_2007/parts/workbook.rs        | 63 ++++++++++---------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 186df49..98192a6 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -115,15 +115,31 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .context("Borrow XML Document Failed")?;
                     let mut sheet_count = 1;
                     if let Some(workbook_view) = &self.workbook_view {
-                        // Create and Set BookViews
-                        let book_views_id = xml_doc_mut
-                            .insert_children_after_tag_mut("bookViews", "fileVersion", None)
-                            .context("Create book viewsD Node Failed")?
-                            .get_id();
+                        // Update the first view, what is not handled here stays as it was
+                        let workbook_view_id = match xml_doc_mut
+                            .get_first_element_id(vec!["workbook", "bookViews", "workbookView"], None)
+                            .context("Failed to find workbook view")?
+                        {
+                            Some(workbook_view_id) => workbook_view_id,
+                            None => {
+                                xml_doc_mut.pop_elements_by_tag_mut("bookViews", None);
+                                let book_views_id = xml_doc_mut
+                                    .insert_children_after_tag_mut("bookViews", "fileVersion", None)
+                                    .context("Create book viewsD Node Failed")?
+                                    .get_id();
+                                xml_doc_mut
+                                    .append_child_mut("workbookView", Some(&book_views_id))
+                                    .context("Failed to create workbook view")?
+                                    .get_id()
+                            }
+                        };
                         let workbook_view_element = xml_doc_mut
-                            .append_child_mut("workbookView", Some(&book_views_id))
-                            .context("Failed to create workbook view")?;
-                        let mut attributes: HashMap<String, String> = HashMap::new();
+                            .get_element_mut(&workbook_view_id)
+                            .ok_or(anyhow!("Failed to get workbook view"))?;
+                        let mut attributes: HashMap<String, String> = workbook_view_element
+                            .get_attribute()
+                            .cloned()
+                            .unwrap_or_default();
                         if let Some(active_tab) = &workbook_view.active_tab {
                             attributes.insert("activeTab".to_string(), active_tab.clone());
                         }
@@ -137,7 +153,7 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             &workbook_view.auto_filter_date_grouping
                         {
                             attributes.insert(
-                                "tabRatio".to_string(),
+                                "autoFilterDateGrouping".to_string(),
                                 if auto_filter_date_grouping.to_owned() {
                                     "1".to_string()
                                 } else {
@@ -317,20 +333,13 @@ impl WorkbookPart {
                     let mut xml_doc_mut = xml_document
                         .try_borrow_mut()
                         .context("xml doc borrow failed")?;
-                    // Deconstruct Book View for sheet collection data
-                    if let Some(mut book_views_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("bookViews", None)
+                    // Read Book View for sheet collection data
+                    if let Some(workbook_view_element) = xml_doc_mut
+                        .get_first_element_mut(vec!["workbook", "bookViews", "workbookView"], None)
+                        .context("Failed to find workbook view")?
                     {
-                        if let Some(book_views) = book_views_vec.pop() {
-                            loop {
-                                if let Some((workbook_view_id, _)) = book_views.pop_child_mut() {
-                                    if let Some(workbook_view_element) =
-                                        xml_doc_mut.pop_element_mut(&workbook_view_id)
-                                    {
-                                        if let Some(attributes) =
-                                            workbook_view_element.get_attribute()
-                                        {
-                                            workbook_view = Some(WorkbookView {
+                        if let Some(attributes) = workbook_view_element.get_attribute() {
+                            workbook_view = Some(WorkbookView {
                                                 auto_filter_date_grouping: if let Some(
                                                     auto_filter_data_group,
                                                 ) =
@@ -372,7 +381,7 @@ impl WorkbookPart {
                                                 {
                                                     ConverterUtil::normalize_bool_property_u8(
                                                         hide_sheet_tab,
-                                                    ) == 1
+                                                    ) == 0
                                                 } else {
                                                     false
                                                 },
@@ -413,13 +422,7 @@ impl WorkbookPart {
                                                 } else {
                                                     false
                                                 },
-                                            })
-                                        }
-                                    }
-                                } else {
-                                    break;
-                                }
-                            }
+                                            });
                         }
                     }
                     // Deconstruct Sheets into collection
-- 
2.43.0


From dcb36d688714936bae3f0a092e1309c8dc1dbfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 04/31] fix: keep sheet ids, very hidden sheets and the active
 sheet

Sheet ids were renumbered, very hidden sheets became visible, hiding one sheet showed
all others, and the active sheet was never saved.
---
 .../spreadsheet_2007/parts/workbook.rs        | 98 +++++++++++++++----
 .../spreadsheet_2007/parts/worksheet.rs       | 17 +++-
 2 files changed, 89 insertions(+), 26 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 98192a6..fb63590 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -21,6 +21,9 @@ use std::{
     rc::{Rc, Weak},
 };
 
+/// Sheet name, relationId, active sheet, hide sheet, attributes of the sheet in the source file
+pub(crate) type SheetRecord = (String, String, bool, bool, HashMap<String, String>);
+
 #[derive(Debug)]
 pub struct WorkbookPart {
     office_document: Weak<RefCell<OfficeDocument>>,
@@ -29,8 +32,7 @@ pub struct WorkbookPart {
     common_service: Rc<RefCell<CommonServices>>,
     workbook_relationship_part: Rc<RefCell<RelationsPart>>,
     theme_part: ThemePart,
-    /// This contain the sheet name, relationId, active sheet, hide sheet
-    sheet_collection: Rc<RefCell<Vec<(String, String, bool, bool)>>>,
+    sheet_collection: Rc<RefCell<Vec<SheetRecord>>>,
     workbook_view: Option<WorkbookView>,
 }
 
@@ -113,7 +115,29 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     let mut xml_doc_mut = xml_document_mut
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
-                    let mut sheet_count = 1;
+                    let sheet_records = self
+                        .sheet_collection
+                        .try_borrow()
+                        .context("Failed to pull Sheet Name Collection")?
+                        .clone();
+                    let active_tab = sheet_records.iter().position(|item| item.2).or_else(|| {
+                        // The active sheet was deleted
+                        sheet_records.iter().position(|item| !item.3)
+                    });
+                    if let Some(workbook_view) = &mut self.workbook_view {
+                        workbook_view.active_tab = active_tab.map(|item| item.to_string());
+                        if workbook_view.first_sheet.as_ref().map_or(false, |item| {
+                            item.parse::<usize>()
+                                .map_or(true, |item| item >= sheet_records.len())
+                        }) {
+                            workbook_view.first_sheet = Some("0".to_string());
+                        }
+                    } else if active_tab.map_or(false, |item| item > 0) {
+                        self.workbook_view = Some(WorkbookView {
+                            active_tab: active_tab.map(|item| item.to_string()),
+                            ..WorkbookView::default()
+                        });
+                    }
                     if let Some(workbook_view) = &self.workbook_view {
                         // Update the first view, what is not handled here stays as it was
                         let workbook_view_id = match xml_doc_mut
@@ -142,6 +166,8 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             .unwrap_or_default();
                         if let Some(active_tab) = &workbook_view.active_tab {
                             attributes.insert("activeTab".to_string(), active_tab.clone());
+                        } else {
+                            attributes.remove("activeTab");
                         }
                         if let Some(first_sheet) = &workbook_view.first_sheet {
                             attributes.insert("firstSheet".to_string(), first_sheet.clone());
@@ -205,26 +231,32 @@ impl XmlDocumentPartCommon for WorkbookPart {
                         .insert_children_after_tag_mut("sheets", "bookViews", None)
                         .context("Create Sheets Node Failed")?
                         .get_id();
-                    for (sheet_display_name, relationship_id, _, hide) in &self
-                        .sheet_collection
-                        .try_borrow_mut()
-                        .context("Failed to pull Sheet Name Collection")?
-                        .clone()
+                    let mut next_sheet_id = sheet_records
+                        .iter()
+                        .filter_map(|item| item.4.get("sheetId"))
+                        .filter_map(|item| item.parse::<u32>().ok())
+                        .max()
+                        .unwrap_or(0)
+                        + 1;
+                    for (sheet_display_name, relationship_id, _, hide, source_attributes) in
+                        &sheet_records
                     {
                         let sheet = xml_doc_mut
                             .append_child_mut("sheet", Some(&sheets_id))
                             .context("Create Sheet Node Failed")?;
-                        let mut attributes = HashMap::new();
+                        let mut attributes = source_attributes.clone();
                         attributes.insert("name".to_string(), sheet_display_name.to_string());
-                        attributes.insert("sheetId".to_string(), sheet_count.to_string());
+                        if !attributes.contains_key("sheetId") {
+                            attributes.insert("sheetId".to_string(), next_sheet_id.to_string());
+                            next_sheet_id += 1;
+                        }
                         attributes.insert("r:id".to_string(), relationship_id.to_string());
-                        if *hide {
+                        if *hide && attributes.get("state").map_or(true, |item| item == "visible") {
                             attributes.insert("state".to_string(), "hidden".to_string());
                         }
                         sheet
                             .set_attribute_mut(attributes)
                             .context("Sheet Attributes Failed")?;
-                        sheet_count += 1;
                     }
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
@@ -324,11 +356,11 @@ impl XmlDocumentPart for WorkbookPart {
 impl WorkbookPart {
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<(Vec<(String, String, bool, bool)>, Option<WorkbookView>), AnyError> {
+    ) -> AnyResult<(Vec<SheetRecord>, Option<WorkbookView>), AnyError> {
         log_elapsed!(
             || {
-                let mut sheet_collection = Vec::new();
-                let mut workbook_view = None;
+                let mut sheet_collection: Vec<SheetRecord> = Vec::new();
+                let mut workbook_view: Option<WorkbookView> = None;
                 if let Some(xml_document) = xml_document.upgrade() {
                     let mut xml_doc_mut = xml_document
                         .try_borrow_mut()
@@ -447,10 +479,11 @@ impl WorkbookPart {
                                                 r_id.to_string(),
                                                 false,
                                                 if let Some(state) = state {
-                                                    state == "hidden"
+                                                    state == "hidden" || state == "veryHidden"
                                                 } else {
                                                     false
                                                 },
+                                                attributes.clone(),
                                             ));
                                         }
                                     }
@@ -461,6 +494,15 @@ impl WorkbookPart {
                         }
                     }
                 }
+                // Find the active sheet
+                let active_tab = workbook_view
+                    .as_ref()
+                    .and_then(|item| item.active_tab.as_ref())
+                    .and_then(|item| item.parse::<usize>().ok())
+                    .unwrap_or(0);
+                if let Some(sheet_record) = sheet_collection.get_mut(active_tab) {
+                    sheet_record.2 = true;
+                }
                 Ok((sheet_collection, workbook_view))
             },
             "Load Existing Workbook"
@@ -492,13 +534,27 @@ impl WorkbookPart {
         }
     }
 
+    fn check_sheet_exist(&self, sheet_name: &str) -> AnyResult<(), AnyError> {
+        if self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Name Collection")?
+            .iter()
+            .any(|item| item.0 == sheet_name)
+        {
+            Ok(())
+        } else {
+            Err(anyhow!("Sheet Name not found in the stack"))
+        }
+    }
+
     pub(crate) fn list_sheet_names(&self) -> AnyResult<Vec<String>, AnyError> {
         Ok(self
             .sheet_collection
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .map(|(sheet_name, _, _, _)| sheet_name.to_string())
+            .map(|(sheet_name, _, _, _, _)| sheet_name.to_string())
             .collect::<Vec<String>>())
     }
 }
@@ -537,7 +593,8 @@ impl WorkbookPart {
 
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, active_sheet, _) in self
+        self.check_sheet_exist(sheet_name)?;
+        for (current_sheet_name, _, active_sheet, _, _) in self
             .sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
@@ -633,7 +690,8 @@ impl WorkbookPart {
 
     /// Hide sheet on opening the excel
     pub(crate) fn hide_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, _, hide_sheet) in self
+        self.check_sheet_exist(sheet_name)?;
+        for (current_sheet_name, _, _, hide_sheet, _) in self
             .sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
@@ -641,8 +699,6 @@ impl WorkbookPart {
         {
             if current_sheet_name == sheet_name {
                 *hide_sheet = true
-            } else {
-                *hide_sheet = false
             }
         }
         Ok(())
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0836483..0e23e22 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -10,6 +10,7 @@ use crate::{
     order_dictionary::EXCEL_ORDER_COLLECTION,
     spreadsheet_2007::{
         models::{CellDataType, CellProperties, ColumnProperties, RowProperties, StyleId},
+        parts::SheetRecord,
         services::CommonServices,
     },
 };
@@ -118,7 +119,7 @@ pub struct WorkSheet {
     xml_document: Weak<RefCell<XmlDocument>>,
     common_service: Weak<RefCell<CommonServices>>,
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
-    sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+    sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
     dimension: Dimension,
     // sheet_property: Option<_>,
@@ -214,7 +215,7 @@ impl WorkSheet {
     /// Create New object for the group
     pub(crate) fn new(
         office_document: Weak<RefCell<OfficeDocument>>,
-        sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: Weak<RefCell<RelationsPart>>,
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
@@ -1033,7 +1034,7 @@ impl WorkSheet {
     fn get_sheet_file_name(
         sheet_name: Option<String>,
         office_document: &Weak<RefCell<OfficeDocument>>,
-        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: &Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<(String, String), AnyError> {
         let worksheet_content = EXCEL_TYPE_COLLECTION.get("worksheet").unwrap();
@@ -1041,7 +1042,7 @@ impl WorkSheet {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
                 if let Some(sheet_name) = sheet_name.clone() {
                     // If the Sheet name already exist get the path of sheet name
-                    if let Some((_, rel_id, _, _)) = sheet_collection
+                    if let Some((_, rel_id, _, _, _)) = sheet_collection
                         .try_borrow()
                         .context("Failed to Get Sheet Collection")?
                         .iter()
@@ -1110,7 +1111,13 @@ impl WorkSheet {
                 sheet_collection
                     .try_borrow_mut()
                     .context("Failed To pull Sheet Collection Handle")?
-                    .push((sheet_name.clone(), relationship_id, false, false));
+                    .push((
+                        sheet_name.clone(),
+                        relationship_id,
+                        false,
+                        false,
+                        HashMap::new(),
+                    ));
                 return Ok((
                     format!(
                         "{}/{}{}.{}",
-- 
2.43.0


From c2bad1ed44b9f2cf071d95e3b7501f3f77165372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 05/31] fix: resolve relationship targets, report missing parts
 and keep parts of a failed open

---
 rs/src/files/office_document.rs               |  20 +++-
 rs/src/global/global_2007/parts/relations.rs  | 106 +++++++++++++-----
 .../spreadsheet_2007/parts/workbook.rs        |  23 +++-
 .../spreadsheet_2007/parts/worksheet.rs       |  94 ++++++++++------
 4 files changed, 175 insertions(+), 68 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index c3a7813..c6cf242 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -53,12 +53,24 @@ impl OfficeDocument {
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
         self.archive_collection.contains_key(&file_path)
+            || self.xml_document_collection.contains_key(&file_path)
+    }
+
+    /// Document was opened from an existing file
+    pub(crate) fn is_existing_document(&self) -> bool {
+        !self.archive_collection.is_empty()
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
+        self.xml_document_collection.remove(file_name);
         self.archive_collection.remove(file_name);
     }
 
+    /// Forget the open document, the content it was opened from stays as it is
+    pub(crate) fn discard_xml_document_mut(&mut self, file_name: &str) {
+        self.xml_document_collection.remove(file_name);
+    }
+
     pub(crate) fn get_xml_document_ref(
         &mut self,
         file_name: &str,
@@ -93,11 +105,13 @@ impl OfficeDocument {
             ));
         }
         if let Some((file_extension, extension_type, content_type, _, _, _, file_content)) =
-            self.archive_collection.remove(file_path)
+            self.archive_collection.get(file_path)
         {
-            let content = file_content.ok_or(anyhow!("Failed To Get content vec"))?;
+            let content = file_content
+                .as_ref()
+                .ok_or(anyhow!("Failed To Get content vec"))?;
             let decompressed_data =
-                decompress_content(&content).context("Raw Content Decompression Failed")?;
+                decompress_content(content).context("Raw Content Decompression Failed")?;
             let xml_tree: XmlDocument =
                 XmlSerializer::vec_to_xml_doc_tree(decompressed_data, file_path)
                     .context("Xml Serializer Failed")?;
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index dfc4258..9afe213 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -77,8 +77,18 @@ impl RelationsPart {
         file_name: &str,
     ) -> AnyResult<Self, AnyError> {
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let relationships =
-            Self::load_relations(&mut xml_document).context("Failed to decode Relations")?;
+        let relationships = match Self::load_relations(&mut xml_document) {
+            Ok(relationships) => relationships,
+            Err(error) => {
+                if let Some(office_document) = office_document.upgrade() {
+                    office_document
+                        .try_borrow_mut()
+                        .context("Failed to Pull Open XML Handle")?
+                        .discard_xml_document_mut(file_name);
+                }
+                return Err(error).context("Failed to decode Relations");
+            }
+        };
         Ok(Self {
             office_document,
             xml_document,
@@ -126,10 +136,47 @@ impl RelationsPart {
         Ok(relationships)
     }
 
+    /// Path of the relationship part that belongs to the part
+    pub(crate) fn get_relationship_path(part_path: &str) -> String {
+        match part_path.rfind("/") {
+            Some(position) => format!(
+                "{}/_rels/{}.rels",
+                &part_path[..position],
+                &part_path[position + 1..]
+            ),
+            None => format!("_rels/{}.rels", part_path),
+        }
+    }
+
+    /// Path of the part in the package for the target of a relationship
+    fn get_target_path(&self, target: &str) -> AnyResult<String, AnyError> {
+        let full_path = if target.starts_with("/") {
+            target.to_string()
+        } else {
+            format!(
+                "{}{}",
+                self.get_relative_path()
+                    .context("Get Relative Path for Part File")?,
+                target
+            )
+        };
+        let mut segments: Vec<&str> = Vec::new();
+        for segment in full_path.split("/") {
+            match segment {
+                "" | "." => {}
+                ".." => {
+                    segments.pop();
+                }
+                _ => segments.push(segment),
+            }
+        }
+        Ok(segments.join("/"))
+    }
+
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .find("_rels")
+            .rfind("_rels/")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
@@ -147,20 +194,16 @@ impl RelationsPart {
             .iter()
             .find(|item| item.0 == relationship_id)
         {
-            let file_path = record.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(Some(file_path.strip_prefix("/").unwrap().to_string()))
-            } else {
-                Ok(Some(format!("{}{}", relative_path, file_path)))
-            }
+            Ok(Some(self.get_target_path(&record.1)?))
         } else {
             Ok(None)
         }
     }
 
+    pub(crate) fn has_relationship_type(&self, content_type: &str) -> bool {
+        self.relationships.iter().any(|item| item.2 == content_type)
+    }
+
     /// Get Relation Target based on Type
     /// Note: This will get the first element match the criteria
     pub(crate) fn get_relationship_target_by_type_mut(
@@ -175,15 +218,17 @@ impl RelationsPart {
             .iter()
             .find(|item| item.2 == content_type)
         {
-            let file_path = relationship.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(file_path.strip_prefix("/").unwrap().to_string())
-            } else {
-                Ok(format!("{}{}", relative_path, file_path))
+            let target_path = self.get_target_path(&relationship.1)?;
+            if let Some(office_document) = self.office_document.upgrade() {
+                if !office_document
+                    .try_borrow()
+                    .context("Failed to Borrow Document")?
+                    .check_file_exist(target_path.clone())
+                {
+                    return Err(anyhow!("Related part \"{}\" is missing", target_path));
+                }
             }
+            Ok(target_path)
         } else {
             self.set_new_relationship_mut(content, file_path.clone(), file_name.clone())
                 .context("Setting New Theme Relationship Failed.")?;
@@ -272,13 +317,18 @@ impl RelationsPart {
 
     /// Delete the target file path
     pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) {
-        self.relationships.retain(|item| {
-            item.1
-                != if file_path.starts_with("/") {
-                    file_path.to_string()
-                } else {
-                    format!("/{}", file_path)
-                }
-        })
+        let file_path = file_path.trim_start_matches("/");
+        let remaining = self
+            .relationships
+            .iter()
+            .filter(|item| {
+                item.3.as_deref() == Some("External")
+                    || self
+                        .get_target_path(&item.1)
+                        .map_or(true, |target| target != file_path)
+            })
+            .cloned()
+            .collect();
+        self.relationships = remaining;
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index fb63590..cff396b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -290,17 +290,15 @@ impl XmlDocumentPart for WorkbookPart {
     ) -> AnyResult<Self, AnyError> {
         log_elapsed!(
             || {
-                let file_name = Self::get_workbook_file_name(&parent_relationship_part)
+                let file_name =
+                    Self::get_workbook_file_name(&office_document, &parent_relationship_part)
                     .context("Failed to pull workbook file name")?
                     .to_string();
                 let mut file_tree = Self::get_xml_document(&office_document, &file_name)?;
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
-                        &format!(
-                            "{}/_rels/workbook.xml.rels",
-                            &file_name[..file_name.rfind("/").unwrap()]
-                        ),
+                        &RelationsPart::get_relationship_path(&file_name),
                     )
                     .context("Creating Relation ship part for workbook failed.")?,
                 ));
@@ -515,10 +513,25 @@ impl WorkbookPart {
 // ############################# im-mut Function ######################################
 impl WorkbookPart {
     fn get_workbook_file_name(
+        office_document: &Weak<RefCell<OfficeDocument>>,
         relations_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<String, AnyError> {
         let relationship_content = EXCEL_TYPE_COLLECTION.get("workbook").unwrap();
         if let Some(relations_part) = relations_part.upgrade() {
+            if let Some(office_document) = office_document.upgrade() {
+                // An existing file without the workbook is not a spreadsheet
+                if office_document
+                    .try_borrow()
+                    .context("Failed to Borrow Document")?
+                    .is_existing_document()
+                    && !relations_part
+                        .try_borrow()
+                        .context("Failed to pull relationship connection")?
+                        .has_relationship_type(&relationship_content.schemas_type)
+                {
+                    return Err(anyhow!("Workbook part is missing in the file"));
+                }
+            }
             Ok(relations_part
                 .try_borrow_mut()
                 .context("Failed to pull relationship connection")?
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0e23e22..a828919 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -132,7 +132,7 @@ pub struct WorkSheet {
     // merge_cells:Option<_>
     // hyperlinks:Option<_>
     file_path: String,
-    sheet_name: String,
+    relationship_id: String,
 }
 
 impl Drop for WorkSheet {
@@ -220,7 +220,7 @@ impl WorkSheet {
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
     ) -> AnyResult<Self, AnyError> {
-        let (file_path, sheet_name) = Self::get_sheet_file_name(
+        let (file_path, relationship_id) = Self::get_sheet_file_name(
             sheet_name,
             &office_document,
             &sheet_collection,
@@ -231,18 +231,26 @@ impl WorkSheet {
         let sheet_relationship_part = Rc::new(RefCell::new(
             RelationsPart::new(
                 office_document.clone(),
-                &format!(
-                    "{}/_rels/{}.rels",
-                    &file_path[..file_path.rfind("/").unwrap()],
-                    file_path.rsplit("/").next().unwrap()
-                ),
+                &RelationsPart::get_relationship_path(&file_path),
             )
             .context("Creating Relation ship part for workbook failed.")?,
         ));
-        let (column_collection, sheet_data, sheet_views, dimension) = log_elapsed!(
+        let (column_collection, sheet_data, sheet_views, dimension) = match log_elapsed!(
             || { Self::initialize_worksheet(&xml_document).context("Failed to open Worksheet") },
             "Worksheet Initialize Time"
-        )?;
+        ) {
+            Ok(worksheet) => worksheet,
+            Err(error) => {
+                // Leave the sheet as it was in the source file
+                if let Some(office_document) = office_document.upgrade() {
+                    office_document
+                        .try_borrow_mut()
+                        .context("Failed to pull office document")?
+                        .discard_xml_document_mut(&file_path);
+                }
+                return Err(error);
+            }
+        };
         Ok(Self {
             office_document,
             xml_document,
@@ -255,7 +263,7 @@ impl WorkSheet {
             column_collection,
             sheet_data,
             file_path: file_path.to_string(),
-            sheet_name,
+            relationship_id,
         })
     }
 
@@ -1048,15 +1056,22 @@ impl WorkSheet {
                         .iter()
                         .find(|item| item.0 == sheet_name)
                     {
-                        return Ok((
-                            workbook_relationship_part
+                        let file_path = workbook_relationship_part
+                            .try_borrow()
+                            .context("Failed to Get Workbook relationship")?
+                            .get_target_by_id(&rel_id)
+                            .context("Failed to Get Target Path")?
+                            .ok_or(anyhow!("Failed to Get Relationship path"))?;
+                        if let Some(office_document) = office_document.upgrade() {
+                            if !office_document
                                 .try_borrow()
-                                .context("Failed to Get Workbook relationship")?
-                                .get_target_by_id(&rel_id)
-                                .context("Failed to Get Target Path")?
-                                .ok_or(anyhow!("Failed to Get Relationship path"))?,
-                            sheet_name,
-                        ));
+                                .context("Failed to Borrow Document")?
+                                .check_file_exist(file_path.clone())
+                            {
+                                return Err(anyhow!("Sheet part \"{}\" is missing", file_path));
+                            }
+                        }
+                        return Ok((file_path, rel_id.to_string()));
                     }
                 }
                 let mut sheet_count = sheet_collection
@@ -1089,13 +1104,27 @@ impl WorkSheet {
                     }
                 }
                 let file_path = format!("{}{}", relative_path, worksheet_content.default_path);
-                let sheet_name = format!(
-                    "{}",
-                    sheet_name.clone().unwrap_or(format!(
-                        "{}{}",
-                        worksheet_content.default_name, &sheet_count
-                    ))
-                );
+                let sheet_name = match sheet_name {
+                    Some(sheet_name) => sheet_name,
+                    None => {
+                        // Sheet names are unique irrespective of the case
+                        let sheet_collection = sheet_collection
+                            .try_borrow()
+                            .context("Failed to pull Sheet Name Collection")?;
+                        let mut name_count = sheet_count;
+                        loop {
+                            let name = format!("{}{}", worksheet_content.default_name, name_count);
+                            if sheet_collection
+                                .iter()
+                                .any(|item| item.0.to_lowercase() == name.to_lowercase())
+                            {
+                                name_count += 1;
+                            } else {
+                                break name;
+                            }
+                        }
+                    }
+                };
                 let relationship_id = workbook_relationship_part
                     .try_borrow_mut()
                     .context("Failed to Get Relationship Handle")?
@@ -1112,8 +1141,8 @@ impl WorkSheet {
                     .try_borrow_mut()
                     .context("Failed To pull Sheet Collection Handle")?
                     .push((
-                        sheet_name.clone(),
-                        relationship_id,
+                        sheet_name,
+                        relationship_id.clone(),
                         false,
                         false,
                         HashMap::new(),
@@ -1126,7 +1155,7 @@ impl WorkSheet {
                         &sheet_count,
                         worksheet_content.extension
                     ),
-                    sheet_name,
+                    relationship_id,
                 ));
             }
         }
@@ -1369,7 +1398,7 @@ impl WorkSheet {
             sheet_collection
                 .try_borrow_mut()
                 .context("Failed to pull Sheets Collection")?
-                .retain(|item| item.0 != self.sheet_name);
+                .retain(|item| item.1 != self.relationship_id);
         }
         if let Some(workbook_relationship_part) = self.workbook_relationship_part.upgrade() {
             workbook_relationship_part
@@ -1378,10 +1407,11 @@ impl WorkSheet {
                 .delete_relationship_mut(&self.file_path);
         }
         if let Some(xml_tree) = self.office_document.upgrade() {
-            xml_tree
+            let mut document = xml_tree
                 .try_borrow_mut()
-                .context("Failed to Pull XML Handle")?
-                .delete_document_mut(&self.file_path);
+                .context("Failed to Pull XML Handle")?;
+            document.delete_document_mut(&self.file_path);
+            document.delete_document_mut(&RelationsPart::get_relationship_path(&self.file_path));
         }
         self.flush().context("Failed to flush the worksheet")?;
         Ok(())
-- 
2.43.0


From 5871aaee060980bdbeb8716603987877a20ac7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 06/31] fix: keep rows, cells, columns, views, strings and
 calculation chain entries the session did not change and refuse cell input
 that can not be stored

---
 rs/src/files/xml/xml_tree.rs                  |  21 +-
 .../spreadsheet_2007/models/worksheet.rs      |   6 +-
 .../spreadsheet_2007/parts/worksheet.rs       | 664 +++++++-----------
 .../services/calculation_chain.rs             |  38 +-
 .../services/common_service.rs                |  11 +
 .../spreadsheet_2007/services/share_string.rs |  77 +-
 rs/src/utils/converters.rs                    |  46 +-
 7 files changed, 431 insertions(+), 432 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 544ec20..139ab16 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -64,7 +64,7 @@ impl XmlDocument {
         element_ids
     }
 
-    fn get_element_ids_by_tag(
+    pub(crate) fn get_element_ids_by_tag(
         &self,
         filter_tag: &str,
         parent_id: Option<&usize>,
@@ -236,6 +236,25 @@ impl XmlDocument {
         }
     }
 
+    /// Add an element which was taken out of its parent to another parent
+    pub(crate) fn append_element_mut(
+        &mut self,
+        element_id: &usize,
+        parent_id: &usize,
+    ) -> AnyResult<(), AnyError> {
+        let element = self
+            .xml_element_collection
+            .get_mut(element_id)
+            .ok_or(anyhow!("Element Not Found"))?;
+        element.set_parent_id_mut(*parent_id);
+        let tag = element.get_tag().to_string();
+        self.xml_element_collection
+            .get_mut(parent_id)
+            .ok_or(anyhow!("Parent Element Not Found"))?
+            .append_children_mut(*element_id, &tag)
+            .context("Failed to add Child Relation")
+    }
+
     pub(crate) fn get_first_element_id(
         &self,
         mut element_tree: Vec<&str>,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
index c6a521f..10dd91c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/worksheet.rs
@@ -1,5 +1,6 @@
 use crate::global_2007::{models::HyperlinkProperties, traits::Enum};
 use crate::spreadsheet_2007::models::StyleId;
+use std::collections::HashMap;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum CellDataType {
@@ -55,7 +56,7 @@ pub struct RowProperties {
     pub(crate) span: Option<String>,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ColumnProperties {
     // Start Column index
     pub(crate) min: u16,
@@ -73,6 +74,8 @@ pub struct ColumnProperties {
     pub(crate) group_level: usize,
     // Collapse the current column
     pub(crate) collapsed: Option<bool>,
+    // Attributes of the column in the source file
+    pub(crate) source_attributes: Option<HashMap<String, String>>,
 }
 
 impl Default for ColumnProperties {
@@ -86,6 +89,7 @@ impl Default for ColumnProperties {
             hidden: None,
             style_id: None,
             width: None,
+            source_attributes: None,
         }
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index a828919..540ca62 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -22,10 +22,31 @@ use std::{
     rc::{Rc, Weak},
 };
 
+/// Last row of a worksheet
+const MAX_ROW: u32 = 1048576;
+/// Last column of a worksheet
+const MAX_COLUMN: u16 = 16384;
+
+#[derive(Debug)]
+pub(crate) enum RowRecord {
+    /// Attributes of the row in the source file
+    Source(HashMap<String, String>),
+    Properties(RowProperties),
+}
+
+#[derive(Debug)]
+pub(crate) enum CellRecord {
+    /// Element of the cell in the source file
+    Source(usize),
+    Properties(CellProperties),
+}
+
 #[derive(Debug)]
 pub(crate) struct RowData {
-    row_record: RowProperties,
-    cell_records: Option<BTreeMap<u16, CellProperties>>,
+    row_record: RowRecord,
+    cell_records: Option<BTreeMap<u16, CellRecord>>,
+    /// Row children of the source file which are not a cell
+    other_elements: Vec<usize>,
 }
 
 #[derive(Debug)]
@@ -299,7 +320,7 @@ impl WorkSheet {
             )?;
             let worksheet_views = log_elapsed!(
                 || {
-                    deserialize_worksheet_views(&mut xml_doc_mut)
+                    get_worksheet_views(&xml_doc_mut)
                         .context("Failed to deserialize Worksheet View")
                 },
                 "Worksheet View Deserialization"
@@ -322,7 +343,11 @@ impl WorkSheet {
             Ok(())
         }
         if let Some(sheet_data) = self.sheet_data.as_ref() {
-            if let Some(first_item) = sheet_data.first_key_value() {
+            // Only the rows with cells are part of the dimension
+            let mut cell_rows = sheet_data
+                .iter()
+                .filter(|(_, row)| row.cell_records.as_ref().map_or(false, |item| item.len() > 0));
+            if let Some(first_item) = cell_rows.next() {
                 let mut dimension_attribute = HashMap::new();
                 dimension_attribute.insert(
                     "ref".to_string(),
@@ -333,7 +358,7 @@ impl WorkSheet {
                         first_item.0,
                         ConverterUtil::get_column_ref(self.dimension.end_col)
                             .context("Failed to convert dim col end")?,
-                        if let Some(row_end) = sheet_data.last_key_value() {
+                        if let Some(row_end) = cell_rows.last() {
                             row_end.0
                         } else {
                             first_item.0
@@ -363,7 +388,7 @@ impl WorkSheet {
                     .get_id();
                 loop {
                     if let Some(item) = column_collection.pop_front() {
-                        let mut attribute = HashMap::new();
+                        let mut attribute = item.source_attributes.unwrap_or_default();
                         attribute.insert("min".to_string(), item.min.to_string());
                         attribute.insert("max".to_string(), item.max.to_string());
                         if let Some(width) = item.width {
@@ -373,10 +398,10 @@ impl WorkSheet {
                         if let Some(style_id) = item.style_id {
                             attribute.insert("style".to_string(), style_id.id.to_string());
                         }
-                        if let Some(_) = item.hidden {
+                        if item.hidden == Some(true) {
                             attribute.insert("hidden".to_string(), "1".to_string());
                         }
-                        if let Some(_) = item.best_fit {
+                        if item.best_fit == Some(true) {
                             attribute.insert("bestFit".to_string(), "1".to_string());
                         }
                         xml_doc_mut
@@ -394,6 +419,9 @@ impl WorkSheet {
     }
 
     fn serialize_sheet_views(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        if self.sheet_views.view_collection.is_empty() {
+            return Ok(());
+        }
         let sheet_views_id = xml_doc_mut
             .insert_children_after_tag_mut("sheetViews", "dimension", None)
             .context("Failed to Insert Sheet Views Element")?
@@ -516,41 +544,56 @@ impl WorkSheet {
                     .context("Failed to insert row element")?;
                 let row_element_id = row_element.get_id();
                 let mut row_attribute = HashMap::new();
-                row_attribute.insert("r".to_string(), row_index.to_string());
-                if let Some(row_span) = db_row.row_record.span {
-                    row_attribute.insert("spans".to_string(), row_span);
-                }
-                if let Some(row_style_id) = db_row.row_record.style_id {
-                    row_attribute.insert("customFormat".to_string(), "1".to_string());
-                    row_attribute.insert("s".to_string(), row_style_id.id.to_string());
-                }
-                if let Some(row_height) = db_row.row_record.height {
-                    row_attribute.insert("customHeight".to_string(), "1".to_string());
-                    row_attribute.insert("ht".to_string(), row_height.to_string());
-                }
-                if let Some(_) = db_row.row_record.hidden {
-                    row_attribute.insert("hidden".to_string(), "1".to_string());
-                }
-                if let Some(row_group_level) = db_row.row_record.group_level {
-                    row_attribute.insert("outlineLevel".to_string(), row_group_level.to_string());
-                }
-                if let Some(_) = db_row.row_record.collapsed {
-                    row_attribute.insert("collapsed".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.thick_top {
-                    row_attribute.insert("thickTop".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.thick_bottom {
-                    row_attribute.insert("thickBot".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.place_holder {
-                    row_attribute.insert("ph".to_string(), "1".to_string());
+                match db_row.row_record {
+                    RowRecord::Source(source_attribute) => row_attribute = source_attribute,
+                    RowRecord::Properties(row_record) => {
+                        row_attribute.insert("r".to_string(), row_index.to_string());
+                        if let Some(row_span) = row_record.span {
+                            row_attribute.insert("spans".to_string(), row_span);
+                        }
+                        if let Some(row_style_id) = row_record.style_id {
+                            row_attribute.insert("customFormat".to_string(), "1".to_string());
+                            row_attribute.insert("s".to_string(), row_style_id.id.to_string());
+                        }
+                        if let Some(row_height) = row_record.height {
+                            row_attribute.insert("customHeight".to_string(), "1".to_string());
+                            row_attribute.insert("ht".to_string(), row_height.to_string());
+                        }
+                        if row_record.hidden == Some(true) {
+                            row_attribute.insert("hidden".to_string(), "1".to_string());
+                        }
+                        if let Some(row_group_level) = row_record.group_level {
+                            row_attribute
+                                .insert("outlineLevel".to_string(), row_group_level.to_string());
+                        }
+                        if row_record.collapsed == Some(true) {
+                            row_attribute.insert("collapsed".to_string(), "1".to_string());
+                        }
+                        if row_record.thick_top == Some(true) {
+                            row_attribute.insert("thickTop".to_string(), "1".to_string());
+                        }
+                        if row_record.thick_bottom == Some(true) {
+                            row_attribute.insert("thickBot".to_string(), "1".to_string());
+                        }
+                        if row_record.place_holder == Some(true) {
+                            row_attribute.insert("ph".to_string(), "1".to_string());
+                        }
+                    }
                 }
                 row_element
                     .set_attribute_mut(row_attribute)
                     .context("Failed to set attribute for row")?;
                 if let Some(cols) = db_row.cell_records {
                     for (col_index, cell_record) in cols {
+                        let cell_record = match cell_record {
+                            CellRecord::Source(cell_element_id) => {
+                                xml_doc_mut
+                                    .append_element_mut(&cell_element_id, &row_element_id)
+                                    .context("Failed to insert cell of the source file")?;
+                                continue;
+                            }
+                            CellRecord::Properties(cell_record) => cell_record,
+                        };
                         // Create cell element
                         let cell_element = xml_doc_mut
                             .append_child_mut("c", Some(&row_element_id))
@@ -588,6 +631,12 @@ impl WorkSheet {
                             .set_attribute_mut(cell_attribute)
                             .context("Failed to Set Attribute for cell")?;
                         // Create cell's child element
+                        if let Some(formula) = cell_record.formula {
+                            let formula_element = xml_doc_mut
+                                .append_child_mut("f", Some(&cell_id))
+                                .context("Failed to insert Inline string element")?;
+                            formula_element.set_value_mut(formula);
+                        }
                         match cell_record.data_type {
                             CellDataType::InlineString => {
                                 let inline_string_id = xml_doc_mut
@@ -597,33 +646,31 @@ impl WorkSheet {
                                 let text_element = xml_doc_mut
                                     .append_child_mut("t", Some(&inline_string_id))
                                     .context("Failed To insert Text Value to inline string")?;
-                                text_element.set_value_mut(
-                                    if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    },
-                                );
+                                let value = cell_record.value.unwrap_or_default();
+                                if value.trim() != value {
+                                    text_element.set_attribute_mut(HashMap::from([(
+                                        "xml:space".to_string(),
+                                        "preserve".to_string(),
+                                    )]))?;
+                                }
+                                text_element.set_value_mut(value);
                             }
                             _ => {
-                                if let Some(formula) = cell_record.formula {
-                                    let formula_element = xml_doc_mut
-                                        .append_child_mut("f", Some(&cell_id))
-                                        .context("Failed to insert Inline string element")?;
-                                    formula_element.set_value_mut(formula);
+                                if let Some(value) = cell_record.value {
+                                    xml_doc_mut
+                                        .append_child_mut("v", Some(&cell_id))
+                                        .context("Failed to insert Inline string element")?
+                                        .set_value_mut(value);
                                 }
-                                xml_doc_mut
-                                    .append_child_mut("v", Some(&cell_id))
-                                    .context("Failed to insert Inline string element")?
-                                    .set_value_mut(if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    });
                             }
                         }
                     }
                 }
+                for other_element_id in db_row.other_elements {
+                    xml_doc_mut
+                        .append_element_mut(&other_element_id, &row_element_id)
+                        .context("Failed to insert row content of the source file")?;
+                }
             }
         }
         Ok(())
@@ -652,37 +699,7 @@ fn deserialize_cols(
                             column_properties.max =
                                 max.parse().context("Failed to parse min value")?;
                         }
-                        if let Some(best_fit) = attributes.get("bestFit") {
-                            column_properties.best_fit =
-                                if best_fit == "1" { Some(true) } else { None }
-                        }
-                        if let Some(hidden) = attributes.get("hidden") {
-                            column_properties.hidden = if hidden == "1" { Some(true) } else { None }
-                        }
-                        if let Some(style) = attributes.get("style") {
-                            column_properties.style_id = Some(StyleId::new(
-                                style.parse().context("Failed to parse style ID")?,
-                            ));
-                        }
-                        if let Some(outline_level) = attributes.get("outlineLevel") {
-                            column_properties.group_level =
-                                outline_level.parse().context("Failed to parse style ID")?;
-                        }
-                        if let Some(custom_width) = attributes.get("customWidth") {
-                            if custom_width == "1" {
-                                column_properties.width = Some(
-                                    attributes
-                                        .get("width")
-                                        .ok_or(anyhow!("Failed to get custom width"))?
-                                        .parse()
-                                        .context("Failed to parse custom width")?,
-                                );
-                            }
-                        }
-                        if let Some(collapsed) = attributes.get("collapsed") {
-                            column_properties.collapsed =
-                                if collapsed == "1" { Some(true) } else { None }
-                        }
+                        column_properties.source_attributes = Some(attributes.clone());
                         column_collection.push_back(column_properties);
                     }
                 } else {
@@ -695,147 +712,21 @@ fn deserialize_cols(
     Ok(None)
 }
 
-/// DeSerializing Worksheet View
-fn deserialize_worksheet_views(
-    xml_doc_mut: &mut XmlDocument,
-) -> AnyResult<WorkSheetViews, AnyError> {
-    let mut worksheet_views = WorkSheetViews::default();
-    if let Some(mut sheet_views_elements) = xml_doc_mut.pop_elements_by_tag_mut("sheetViews", None)
-    {
-        if let Some(sheet_views_element) = sheet_views_elements.pop() {
-            loop {
-                if let Some((element_id, element_tag)) = sheet_views_element.pop_child_mut() {
-                    // Validate element that are not accounted
-                    if element_tag != "sheetView" {
-                        return Err(anyhow!("Failed to Process Sheet Views child"));
-                    } else {
-                        let sheet_view_element = xml_doc_mut
-                            .pop_element_mut(&element_id)
-                            .context("Failed to get Sheet View Element")?;
-                        let mut worksheet_view = WorkSheetView::default();
-                        let attributes = sheet_view_element
-                            .get_attribute()
-                            .context("Failed to Get Attributes of Sheet View")?;
-                        worksheet_view.workbook_view_id = attributes
-                            .get("workbookViewId")
-                            .context(
-                                "Mandatory attribute \"workbookViewId\" is missing from sheetView",
-                            )?
-                            .clone();
-                        // Windows protection
-                        if let Some(window_protection) = attributes.get("windowProtection") {
-                            worksheet_view.window_protection = Some(
-                                ConverterUtil::normalize_bool_property_bool(&window_protection),
-                            );
-                        }
-                        // Show formula
-                        if let Some(show_formula_bar) = attributes.get("showFormulas") {
-                            worksheet_view.show_formula_bar = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_formula_bar),
-                            );
-                        }
-                        // Show Grid Line
-                        if let Some(show_grid_line) = attributes.get("showGridLines") {
-                            worksheet_view.show_grid_line =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_grid_line));
-                        }
-                        // Show row column header
-                        if let Some(show_row_col_header) = attributes.get("showRowColHeaders") {
-                            worksheet_view.show_row_col_header = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_row_col_header),
-                            );
-                        }
-                        // Show Zero
-                        if let Some(show_zero) = attributes.get("showZeros") {
-                            worksheet_view.show_zero =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_zero));
-                        }
-                        // Right to Left
-                        if let Some(view_right_to_left) = attributes.get("rightToLeft") {
-                            worksheet_view.view_right_to_left = Some(
-                                ConverterUtil::normalize_bool_property_bool(&view_right_to_left),
-                            );
-                        }
-                        // Tab Selected
-                        if let Some(tab_selected) = attributes.get("tabSelected") {
-                            worksheet_view.tab_selected =
-                                Some(ConverterUtil::normalize_bool_property_bool(&tab_selected));
-                        }
-                        // show ruler
-                        if let Some(show_ruler) = attributes.get("showRuler") {
-                            worksheet_view.show_ruler =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_ruler));
-                        }
-                        // show white space
-                        if let Some(show_white_space) = attributes.get("showWhiteSpace") {
-                            worksheet_view.show_white_space =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_white_space));
-                        }
-                        // Show outlined Symbols
-                        if let Some(show_outline_symbol) = attributes.get("showOutlineSymbols") {
-                            worksheet_view.show_outline_symbol = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_outline_symbol),
-                            );
-                        }
-                        // Default Grid Color
-                        if let Some(default_grid_color) = attributes.get("defaultGridColor") {
-                            worksheet_view.default_grid_color = Some(
-                                ConverterUtil::normalize_bool_property_bool(&default_grid_color),
-                            );
-                        }
-                        // Top Left Cell
-                        if let Some(top_left_cell) = attributes.get("topLeftCell") {
-                            worksheet_view.top_left_cell = Some(top_left_cell.clone());
-                        }
-                        // View Setting
-                        if let Some(view) = attributes.get("view") {
-                            worksheet_view.view = Some(view.clone());
-                        }
-                        // Zoom Scale
-                        if let Some(zoom_scale) = attributes.get("zoomScale") {
-                            worksheet_view.zoom_scale = Some(
-                                zoom_scale
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Normal
-                        if let Some(zoom_scale_normal) = attributes.get("zoomScaleNormal") {
-                            worksheet_view.zoom_scale_normal = Some(
-                                zoom_scale_normal
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Sheet Layout View
-                        if let Some(zoom_scale_sheet_layout) =
-                            attributes.get("zoomScaleSheetLayoutView")
-                        {
-                            worksheet_view.zoom_scale_sheet_layout = Some(
-                                zoom_scale_sheet_layout
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Page Layout View
-                        if let Some(zoom_scale_page_layout) =
-                            attributes.get("zoomScalePageLayoutView")
-                        {
-                            worksheet_view.zoom_scale_page_layout = Some(
-                                zoom_scale_page_layout
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        worksheet_views.view_collection.push(worksheet_view);
-                    }
-                } else {
-                    break;
-                }
+/// Worksheet views to be added, the views of the source file stay in the document as they are
+fn get_worksheet_views(xml_doc_mut: &XmlDocument) -> AnyResult<WorkSheetViews, AnyError> {
+    Ok(
+        if xml_doc_mut
+            .get_first_element_id(vec!["worksheet", "sheetViews"], None)
+            .context("Failed to find Sheet Views")?
+            .is_some()
+        {
+            WorkSheetViews {
+                view_collection: Vec::new(),
             }
-        }
-    }
-    Ok(worksheet_views)
+        } else {
+            WorkSheetViews::default()
+        },
+    )
 }
 
 /// Deserialize Sheet Data
@@ -846,171 +737,59 @@ fn deserialize_sheet_data(
     if let Some(mut sheet_data_element) = xml_doc_mut.pop_elements_by_tag_mut("sheetData", None) {
         if let Some(sheet_data) = sheet_data_element.pop() {
             let mut sheet_data_collection: BTreeMap<u32, RowData> = BTreeMap::new();
+            let mut last_row_index = 0;
             // Loop All rows of sheet data
             loop {
                 if let Some((row_element_id, _)) = sheet_data.pop_child_mut() {
                     if let Some(row_element) = xml_doc_mut.pop_element_mut(&row_element_id) {
-                        let mut row_record = RowProperties::default();
-                        let row_attribute = row_element
-                            .get_attribute()
-                            .ok_or(anyhow!("Failed to pull Row Attribute."))?;
-                        // Get Row Id
-                        let row_index = row_attribute
-                            .get("r")
-                            .ok_or(anyhow!("Missing mandatory row id attribute"))?
-                            .parse()
-                            .context("Failed to parse row id")?;
-                        if let Some(row_span) = row_attribute.get("spans") {
-                            row_record.span = Some(row_span.to_string());
-                        }
-                        if let Some(style_id) = row_attribute.get("s") {
-                            if let Some(custom_formant) = row_attribute.get("customFormat") {
-                                row_record.style_id = if custom_formant == "1" {
-                                    Some(StyleId::new(
-                                        style_id
-                                            .parse()
-                                            .context("Failed to parse the row style id")?,
-                                    ))
-                                } else {
-                                    None
-                                };
-                            }
-                        }
-                        if let Some(hidden) = row_attribute.get("hidden") {
-                            row_record.hidden = if hidden == "1" { Some(true) } else { None };
-                        }
-                        if let Some(height) = row_attribute.get("ht") {
-                            if let Some(custom_height) = row_attribute.get("customHeight") {
-                                row_record.height = if custom_height == "1" {
-                                    Some(height.parse().context("Failed to parse the row height")?)
-                                } else {
-                                    None
-                                };
-                            }
-                        }
-                        if let Some(row_group_level) = row_attribute.get("outlineLevel") {
-                            let outline_level = row_group_level
-                                .parse()
-                                .context("Failed to parse the row group level")?;
-                            row_record.group_level = if outline_level > 0 {
-                                Some(outline_level)
-                            } else {
-                                None
-                            };
-                        }
-                        if let Some(collapsed) = row_attribute.get("collapsed") {
-                            row_record.collapsed = if collapsed == "1" { Some(true) } else { None };
-                        }
-                        if let Some(thick_top) = row_attribute.get("thickTop") {
-                            row_record.thick_top = if thick_top == "1" { Some(true) } else { None };
-                        }
-                        if let Some(thick_bottom) = row_attribute.get("thickBot") {
-                            row_record.thick_bottom = if thick_bottom == "1" {
-                                Some(true)
-                            } else {
-                                None
-                            };
-                        }
-                        if let Some(place_holder) = row_attribute.get("ph") {
-                            row_record.place_holder = if place_holder == "1" {
-                                Some(true)
-                            } else {
-                                None
-                            };
-                        }
-                        let mut cell_records: BTreeMap<u16, CellProperties> = BTreeMap::new();
+                        let mut row_attribute =
+                            row_element.get_attribute().cloned().unwrap_or_default();
+                        // Get Row Id, a row without id follows the previous row
+                        let row_index: u32 = if let Some(row_id) = row_attribute.get("r") {
+                            row_id.parse().context("Failed to parse row id")?
+                        } else {
+                            last_row_index + 1
+                        };
+                        last_row_index = row_index;
+                        row_attribute.insert("r".to_string(), row_index.to_string());
+                        let mut cell_records: BTreeMap<u16, CellRecord> = BTreeMap::new();
+                        let mut other_elements = Vec::new();
+                        let mut last_col_index = 0;
                         // Loop All Columns of row
                         loop {
-                            let mut cell_record = CellProperties::default();
-                            if let Some((col_element_id, _)) = row_element.pop_child_mut() {
-                                if let Some(col_element) =
-                                    xml_doc_mut.pop_element_mut(&col_element_id)
+                            if let Some((cell_element_id, cell_tag)) = row_element.pop_child_mut() {
+                                if cell_tag != "c" {
+                                    other_elements.push(cell_element_id);
+                                    continue;
+                                }
+                                if let Some(cell_element) =
+                                    xml_doc_mut.get_element_mut(&cell_element_id)
                                 {
-                                    let cell_attribute = col_element
-                                        .get_attribute()
-                                        .ok_or(anyhow!("Failed to pull attribute for Column"))?;
-                                    // Get Col Id
-                                    let col_index = ConverterUtil::get_column_index(
-                                        cell_attribute
-                                            .get("r")
-                                            .ok_or(anyhow!("Missing mandatory col id attribute"))?,
-                                    )
-                                    .context("Failed to Convert col worksheet initialize")?;
-                                    if let Some(style_id) = cell_attribute.get("s") {
-                                        cell_record.style_id = Some(StyleId::new(
-                                            style_id
-                                                .parse()
-                                                .context("Failed to parse the col style id")?,
-                                        ));
-                                    }
-                                    if let Some(cell_type) = cell_attribute.get("t") {
-                                        cell_record.data_type = CellDataType::get_enum(&cell_type);
+                                    // Get Col Id, a cell without reference follows the previous cell
+                                    let mut cell_attribute =
+                                        cell_element.get_attribute().cloned().unwrap_or_default();
+                                    let col_index = if let Some(cell_ref) = cell_attribute.get("r")
+                                    {
+                                        ConverterUtil::get_column_index(cell_ref)
+                                            .context("Failed to Convert col worksheet initialize")?
                                     } else {
-                                        cell_record.data_type = CellDataType::Number;
-                                    }
-                                    if let Some(comment_id) = cell_attribute.get("cm") {
-                                        cell_record.comment_id = Some(
-                                            comment_id
-                                                .parse()
-                                                .context("Failed to parse the col comment id")?,
+                                        let col_index = last_col_index + 1;
+                                        cell_attribute.insert(
+                                            "r".to_string(),
+                                            format!(
+                                                "{}{}",
+                                                ConverterUtil::get_column_ref(col_index)?,
+                                                row_index
+                                            ),
                                         );
+                                        cell_element.set_attribute_mut(cell_attribute)?;
+                                        col_index
                                     };
-                                    if let Some(value_meta_id) = cell_attribute.get("vm") {
-                                        cell_record.metadata =
-                                            Some(value_meta_id.parse().context(
-                                                "Failed to parse the col value meta id",
-                                            )?);
-                                    };
-                                    if let Some(place_holder) = cell_attribute.get("ph") {
-                                        cell_record.place_holder = if place_holder == "1" {
-                                            Some(true)
-                                        } else {
-                                            None
-                                        };
-                                    };
-                                    loop {
-                                        if let Some((cell_child_id, _)) =
-                                            col_element.pop_child_mut()
-                                        {
-                                            if let Some(element) =
-                                                xml_doc_mut.pop_element_mut(&cell_child_id)
-                                            {
-                                                match element.get_tag() {
-                                                    "v" => {
-                                                        cell_record.value =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "f" => {
-                                                        cell_record.formula =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "is" => {
-                                                        if let Some((text_id, _)) =
-                                                            element.pop_child_mut()
-                                                        {
-                                                            if let Some(text_element) = xml_doc_mut
-                                                                .pop_element_mut(&text_id)
-                                                            {
-                                                                cell_record.value = text_element
-                                                                    .get_value()
-                                                                    .clone();
-                                                            }
-                                                        }
-                                                    }
-                                                    _ => {
-                                                        return Err(anyhow!(
-                                                            "Found un-know element cell child"
-                                                        ));
-                                                    }
-                                                }
-                                            }
-                                        } else {
-                                            break;
-                                        }
-                                    }
+                                    last_col_index = col_index;
                                     dimension.start_col = min(dimension.start_col, col_index);
                                     dimension.end_col = max(dimension.end_col, col_index);
-                                    cell_records.insert(col_index, cell_record);
+                                    cell_records
+                                        .insert(col_index, CellRecord::Source(cell_element_id));
                                 }
                             } else {
                                 break;
@@ -1019,7 +798,8 @@ fn deserialize_sheet_data(
                         sheet_data_collection.insert(
                             row_index,
                             RowData {
-                                row_record,
+                                row_record: RowRecord::Source(row_attribute),
+                                other_elements,
                                 cell_records: if cell_records.len() > 0 {
                                     Some(cell_records)
                                 } else {
@@ -1185,6 +965,12 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
+        if *col_index == 0 || *col_index > MAX_COLUMN {
+            return Err(anyhow!("Column index {} is out of range", col_index));
+        }
+        if self.column_collection.is_none() {
+            self.column_collection = Some(VecDeque::new());
+        }
         if let Some(column_collection) = self.column_collection.as_mut() {
             let mut new_ranges = VecDeque::new();
             // Delete Old Record
@@ -1204,8 +990,7 @@ impl WorkSheet {
                         // Split the range
                         new_ranges.push_back(ColumnProperties {
                             min: col_index + 1,
-                            max: range.max,
-                            ..ColumnProperties::default()
+                            ..range.clone()
                         });
                         range.max = col_index - 1;
                     }
@@ -1220,6 +1005,10 @@ impl WorkSheet {
                 });
             }
             column_collection.append(&mut new_ranges);
+            // Column ranges are listed in order
+            column_collection
+                .make_contiguous()
+                .sort_by_key(|range| range.min);
         }
         Ok(())
     }
@@ -1230,15 +1019,19 @@ impl WorkSheet {
         row_index: &u32,
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
+        if *row_index == 0 || *row_index > MAX_ROW {
+            return Err(anyhow!("Row index {} is out of range", row_index));
+        }
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             if let Some(row) = sheet_data.get_mut(row_index) {
-                row.row_record = row_properties;
+                row.row_record = RowRecord::Properties(row_properties);
             } else {
                 sheet_data.insert(
                     *row_index,
                     RowData {
-                        row_record: row_properties,
+                        row_record: RowRecord::Properties(row_properties),
                         cell_records: None,
+                        other_elements: Vec::new(),
                     },
                 );
             }
@@ -1247,8 +1040,9 @@ impl WorkSheet {
             map.insert(
                 *row_index,
                 RowData {
-                    row_record: row_properties,
+                    row_record: RowRecord::Properties(row_properties),
                     cell_records: None,
+                    other_elements: Vec::new(),
                 },
             );
             self.sheet_data = Some(map);
@@ -1274,13 +1068,35 @@ impl WorkSheet {
         mut col_index: u16,
         mut column_cell: Vec<CellProperties>,
     ) -> AnyResult<(), AnyError> {
+        if row_index == 0 || row_index > MAX_ROW {
+            return Err(anyhow!("Row index {} is out of range", row_index));
+        }
+        if col_index == 0 || usize::from(col_index) - 1 + column_cell.len() > MAX_COLUMN.into() {
+            return Err(anyhow!("Column index {} is out of range", col_index));
+        }
         // Map Start Normalization
         col_index -= 1;
+        // Refuse what can't be stored before any change is made
+        for cell_data in column_cell.iter() {
+            for text in cell_data.value.iter().chain(cell_data.formula.iter()) {
+                if !ConverterUtil::is_valid_xml_text(text) {
+                    return Err(anyhow!("Cell content has characters which can't be stored"));
+                }
+            }
+            if let (CellDataType::Number, Some(value)) = (cell_data.data_type, &cell_data.value) {
+                if !ConverterUtil::is_number(value) {
+                    return Err(anyhow!("Cell value \"{}\" is not a number", value));
+                }
+            }
+        }
         for cell_data in column_cell.iter_mut() {
+            if cell_data.formula.as_ref().map_or(false, |item| item.is_empty()) {
+                cell_data.formula = None;
+            }
             if let Some(cell_value) = cell_data.value.as_ref() {
                 match cell_data.data_type {
                     CellDataType::Auto => {
-                        if cell_value.parse::<f64>().is_ok() {
+                        if ConverterUtil::is_number(cell_value) {
                             cell_data.data_type = CellDataType::Number;
                         } else if cell_value.parse::<bool>().is_ok() {
                             cell_data.data_type = CellDataType::Boolean;
@@ -1303,23 +1119,57 @@ impl WorkSheet {
                             _ => Some("1".to_string()),
                         }
                     }
+                    CellDataType::String | CellDataType::InlineString => {
+                        cell_data.value = Some(ConverterUtil::escape_text(cell_value));
+                    }
                     _ => {}
                 }
             } else {
                 cell_data.data_type = CellDataType::Number;
             }
         }
+        // Cells which had a formula so far are no longer calculated
+        if let (Some(sheet_id), Some(common_service)) =
+            (self.get_sheet_id()?, self.common_service.upgrade())
+        {
+            let mut common_service = common_service
+                .try_borrow_mut()
+                .context("Failed to Get Calculation Chain Handle")?;
+            let cell_records = self
+                .sheet_data
+                .as_ref()
+                .and_then(|sheet_data| sheet_data.get(&row_index))
+                .and_then(|row| row.cell_records.as_ref());
+            for (index, cell_data) in column_cell.iter().enumerate() {
+                let is_replaced = cell_records.map_or(false, |cell_records| {
+                    cell_records.contains_key(&(col_index + 1 + index as u16))
+                });
+                if is_replaced && cell_data.formula.is_none() {
+                    common_service.delete_calculation_cell_mut(
+                        &sheet_id,
+                        &format!(
+                            "{}{}",
+                            ConverterUtil::get_column_ref(col_index + 1 + index as u16)?,
+                            row_index
+                        ),
+                    );
+                }
+            }
+        }
         // Load If Sheet Data Exist
         if let Some(sheet_data) = self.sheet_data.as_mut() {
             // Load If Row Exits
             if let Some(row) = sheet_data.get_mut(&row_index) {
+                if let RowRecord::Source(source_attributes) = &mut row.row_record {
+                    source_attributes.remove("spans");
+                }
                 // Check if the row already has cell data
                 if let Some(cell_records) = row.cell_records.as_mut() {
                     cell_records.extend(column_cell.iter_mut().map(|item| {
                         col_index += 1;
                         self.dimension.start_col = min(self.dimension.start_col, col_index);
                         self.dimension.end_col = max(self.dimension.end_col, col_index);
-                        (col_index, item.clone())
+                        (col_index, CellRecord::Properties(item.clone()))
                     }));
                 } else {
                     //Create cells If new
@@ -1328,7 +1178,7 @@ impl WorkSheet {
                         col_index += 1;
                         self.dimension.start_col = min(self.dimension.start_col, col_index);
                         self.dimension.end_col = max(self.dimension.end_col, col_index);
-                        (col_index, item.clone())
+                        (col_index, CellRecord::Properties(item.clone()))
                     }));
                     row.cell_records = Some(cell_records);
                 }
@@ -1339,13 +1189,14 @@ impl WorkSheet {
                     col_index += 1;
                     self.dimension.start_col = min(self.dimension.start_col, col_index);
                     self.dimension.end_col = max(self.dimension.end_col, col_index);
-                    (col_index, item.clone())
+                    (col_index, CellRecord::Properties(item.clone()))
                 }));
                 sheet_data.insert(
                     row_index,
                     RowData {
-                        row_record: RowProperties::default(),
+                        row_record: RowRecord::Properties(RowProperties::default()),
                         cell_records: Some(cell_records),
+                        other_elements: Vec::new(),
                     },
                 );
             }
@@ -1357,13 +1208,14 @@ impl WorkSheet {
                 col_index += 1;
                 self.dimension.start_col = min(self.dimension.start_col, col_index);
                 self.dimension.end_col = max(self.dimension.end_col, col_index);
-                (col_index, item.clone())
+                (col_index, CellRecord::Properties(item.clone()))
             }));
             sheet_data.insert(
                 row_index,
                 RowData {
-                    row_record: RowProperties::default(),
+                    row_record: RowRecord::Properties(RowProperties::default()),
                     cell_records: Some(cell_records),
+                    other_elements: Vec::new(),
                 },
             );
             self.sheet_data = Some(sheet_data);
@@ -1371,12 +1223,26 @@ impl WorkSheet {
         Ok(())
     }
 
+    /// Sheet id of the sheet, if it was part of the source file
+    fn get_sheet_id(&self) -> AnyResult<Option<String>, AnyError> {
+        Ok(if let Some(sheet_collection) = self.sheet_collection.upgrade() {
+            sheet_collection
+                .try_borrow()
+                .context("Failed to pull Sheets Collection")?
+                .iter()
+                .find(|item| item.1 == self.relationship_id)
+                .and_then(|item| item.4.get("sheetId").cloned())
+        } else {
+            None
+        })
+    }
+
     fn update_share_string(&mut self, cell_value: &String) -> AnyResult<String, AnyError> {
         if let Some(common_service) = self.common_service.upgrade() {
             common_service
                 .try_borrow_mut()
                 .context("Failed to Get Share String Handle")?
-                .get_string_id_mut(cell_value.to_owned())
+                .get_string_id_mut(ConverterUtil::escape_text(cell_value))
                 .context("Failed to get share string id")
         } else {
             Err(anyhow!("Failed to update Share String Record"))
@@ -1394,6 +1260,14 @@ impl WorkSheet {
 
     /// Delete Current sheet and all its components
     pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
+        if let (Some(sheet_id), Some(common_service)) =
+            (self.get_sheet_id()?, self.common_service.upgrade())
+        {
+            common_service
+                .try_borrow_mut()
+                .context("Failed to Get Calculation Chain Handle")?
+                .delete_calculation_sheet_mut(&sheet_id);
+        }
         if let Some(sheet_collection) = self.sheet_collection.upgrade() {
             sheet_collection
                 .try_borrow_mut()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index c8aeb8f..ce0474e 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -13,7 +13,8 @@ use std::{cell::RefCell, collections::HashMap, rc::Weak};
 pub struct CalculationChainPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
-    calculation_collection: Vec<(String, String, Option<String>)>,
+    /// Cell reference, sheet id, attributes of the entry
+    calculation_collection: Vec<(String, String, HashMap<String, String>)>,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
 }
@@ -37,8 +38,9 @@ impl XmlDocumentPartCommon for CalculationChainPart {
                             let mut xml_doc_mut = xml_document
                                 .try_borrow_mut()
                                 .context("Failed to pull document handle")?;
-                            for (cell_key, sheet_id, _l) in self.calculation_collection.to_owned() {
-                                let mut attributes = HashMap::new();
+                            for (cell_key, sheet_id, mut attributes) in
+                                self.calculation_collection.to_owned()
+                            {
                                 attributes.insert("r".to_string(), cell_key);
                                 attributes.insert("i".to_string(), sheet_id);
                                 xml_doc_mut
@@ -140,8 +142,9 @@ impl CalculationChainPart {
     }
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<(String, String, Option<String>)>, AnyError> {
+    ) -> AnyResult<Vec<(String, String, HashMap<String, String>)>, AnyError> {
         let mut calculation_collection = Vec::new();
+        let mut sheet_id = String::new();
         if let Some(xml_document) = xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
@@ -149,10 +152,17 @@ impl CalculationChainPart {
             if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("c", None) {
                 for element in elements {
                     if let Some(attributes) = element.get_attribute() {
+                        // An entry without sheet id is of the same sheet as the previous entry
+                        if let Some(entry_sheet_id) = attributes.get("i") {
+                            sheet_id = entry_sheet_id.clone();
+                        }
                         calculation_collection.push((
-                            attributes["r"].clone(),
-                            attributes["i"].clone(),
-                            attributes.get("l").cloned(),
+                            attributes
+                                .get("r")
+                                .ok_or(anyhow!("Calculation Chain cell reference is missing"))?
+                                .clone(),
+                            sheet_id.clone(),
+                            attributes.clone(),
                         ));
                     }
                 }
@@ -161,3 +171,17 @@ impl CalculationChainPart {
         Ok(calculation_collection)
     }
 }
+
+impl CalculationChainPart {
+    /// The cell has no formula any more
+    pub(crate) fn delete_cell_mut(&mut self, sheet_id: &str, cell_ref: &str) {
+        self.calculation_collection
+            .retain(|item| item.1 != sheet_id || item.0 != cell_ref);
+    }
+
+    /// The sheet is not part of the workbook any more
+    pub(crate) fn delete_sheet_mut(&mut self, sheet_id: &str) {
+        self.calculation_collection
+            .retain(|item| item.1 != sheet_id);
+    }
+}
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
index 38bb913..1d3b531 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
@@ -36,6 +36,17 @@ impl CommonServices {
     }
 }
 
+// ########################### Calculation Chain ########################
+impl CommonServices {
+    pub(crate) fn delete_calculation_cell_mut(&mut self, sheet_id: &str, cell_ref: &str) {
+        self.calculation_chain.delete_cell_mut(sheet_id, cell_ref);
+    }
+
+    pub(crate) fn delete_calculation_sheet_mut(&mut self, sheet_id: &str) {
+        self.calculation_chain.delete_sheet_mut(sheet_id);
+    }
+}
+
 // ########################### Share String ########################
 impl CommonServices {
     pub(crate) fn get_string_id_mut(&mut self, value: String) -> AnyResult<String, AnyError> {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 2438b36..824f8b1 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -9,7 +9,8 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    cmp::max,
+    collections::HashMap,
     rc::Weak,
 };
 
@@ -18,7 +19,10 @@ pub struct ShareStringPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
     xml_document: Weak<RefCell<XmlDocument>>,
-    share_string_collection: Vec<String>,
+    /// Text of each string item, None if the item is not plain text
+    share_string_collection: Vec<Option<String>>,
+    /// Number of string items that are already in the document
+    source_count: usize,
     file_path: String,
 }
 
@@ -44,30 +48,44 @@ impl XmlDocumentPartCommon for ShareStringPart {
                             // Update count & uniqueCount in root
                             if let Some(root) = xml_doc_mut.get_root_mut() {
                                 if let Some(attributes) = root.get_attribute_mut() {
+                                    let count = attributes
+                                        .get("count")
+                                        .and_then(|item| item.parse::<usize>().ok())
+                                        .unwrap_or(0);
                                     attributes.insert(
                                         "count".to_string(),
-                                        self.share_string_collection.len().to_string(),
+                                        max(count, self.share_string_collection.len()).to_string(),
                                     );
                                     attributes.insert(
                                         "uniqueCount".to_string(),
-                                        self.share_string_collection
-                                            .iter()
-                                            .map(|s| s.to_string())
-                                            .collect::<HashSet<String>>()
-                                            .len()
-                                            .to_string(),
+                                        self.share_string_collection.len().to_string(),
                                     );
                                 }
                             }
-                            for string in self.share_string_collection.to_owned() {
+                            for string in self
+                                .share_string_collection
+                                .iter()
+                                .skip(self.source_count)
+                                .flatten()
+                            {
                                 let parent_id = xml_doc_mut
                                     .append_child_mut("si", None)
                                     .context("Failed to Add Child")?
                                     .get_id();
-                                xml_doc_mut
+                                let text_element = xml_doc_mut
                                     .append_child_mut("t", Some(&parent_id))
-                                    .context("Creating Share String Child Failed")?
-                                    .set_value_mut(string);
+                                    .context("Creating Share String Child Failed")?;
+                                if string.trim() != string {
+                                    text_element.set_attribute_mut(HashMap::from([(
+                                        "xml:space".to_string(),
+                                        "preserve".to_string(),
+                                    )]))?;
+                                }
+                                text_element.set_value_mut(string.to_string());
+                            }
+                            self.source_count = self.share_string_collection.len();
+                            if let Some(root) = xml_doc_mut.get_root_mut() {
+                                root.order_child_mut(&["si", "extLst"])?;
                             }
                         }
                         office_doc_ref
@@ -138,6 +156,7 @@ impl XmlDocumentPart for ShareStringPart {
             office_document,
             parent_relationship_part,
             xml_document,
+            source_count: share_string_collection.len(),
             share_string_collection,
             file_path: file_name,
         })
@@ -167,20 +186,26 @@ impl ShareStringPart {
 
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<String>, AnyError> {
+    ) -> AnyResult<Vec<Option<String>>, AnyError> {
         let mut share_string_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
+            let xml_doc = xml_document
+                .try_borrow()
                 .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
-                for element in elements {
-                    if let Some((child_id, _)) = element.pop_child_mut() {
-                        if let Some(text_element) = xml_doc_mut.pop_element_mut(&child_id) {
-                            let value = text_element.get_value().clone().unwrap_or("".to_string());
-                            share_string_collection.push(value);
-                        }
-                    }
+            // The items stay in the document as they are, new items are added after them
+            if let Some(element_ids) = xml_doc.get_element_ids_by_tag("si", None) {
+                for element_id in element_ids {
+                    share_string_collection.push(
+                        xml_doc
+                            .get_element(&element_id)
+                            .filter(|element| element.get_child_count() == 1)
+                            .and_then(|element| element.get_first_child_id())
+                            .and_then(|child_id| xml_doc.get_element(&child_id))
+                            .filter(|text_element| text_element.get_tag() == "t")
+                            .map(|text_element| {
+                                text_element.get_value().clone().unwrap_or("".to_string())
+                            }),
+                    );
                 }
             }
         }
@@ -194,11 +219,11 @@ impl ShareStringPart {
             if let Some(position) = self
                 .share_string_collection
                 .iter()
-                .position(|predicate| predicate == &value)
+                .position(|predicate| predicate.as_ref() == Some(&value))
             {
                 position.to_string()
             } else {
-                self.share_string_collection.push(value);
+                self.share_string_collection.push(Some(value));
                 (self.share_string_collection.len() - 1).to_string()
             },
         )
diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 57a2509..f79a56f 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -5,8 +5,16 @@ pub struct ConverterUtil;
 impl ConverterUtil {
     /// Return int Id of the column
     pub fn get_column_index(cell_ref: &str) -> AnyResult<u16, AnyError> {
-        let column_part: String = cell_ref.chars().take_while(|c| c.is_alphabetic()).collect();
-        if column_part.is_empty() {
+        let column_part: String = cell_ref
+            .chars()
+            .take_while(|c| c.is_ascii_alphabetic())
+            .collect();
+        if column_part.is_empty()
+            || column_part.len() > 3
+            || !cell_ref[column_part.len()..]
+                .chars()
+                .all(|c| c.is_ascii_digit())
+        {
             return Err(anyhow!("Failed to Convert to Column Key Id"));
         }
         let mut index = 0;
@@ -14,6 +22,9 @@ impl ConverterUtil {
             let char_value = c.to_ascii_uppercase() as u16 - 'A' as u16 + 1;
             index += char_value * 26_usize.pow(i as u32) as u16;
         }
+        if index > 16384 {
+            return Err(anyhow!("Column \"{}\" is out of range", column_part));
+        }
         Ok(index)
     }
     /// Return String ref of the column
@@ -65,6 +76,37 @@ impl ConverterUtil {
         }
     }
 
+    /// Text can be stored in xml
+    pub(crate) fn is_valid_xml_text(value: &str) -> bool {
+        value.chars().all(|c| {
+            matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{FFFE}' && c != '\u{FFFF}')
+        })
+    }
+
+    /// Text is a number that can be stored in a cell
+    pub(crate) fn is_number(value: &str) -> bool {
+        value.parse::<f64>().map_or(false, |item| item.is_finite())
+    }
+
+    /// open-xml text reads _xHHHH_ as the character of that code, escape text which looks like it
+    pub(crate) fn escape_text(value: &str) -> String {
+        let mut result = String::with_capacity(value.len());
+        for (index, character) in value.char_indices() {
+            let code = &value.as_bytes()[index..];
+            if code.len() >= 7
+                && code[0] == b'_'
+                && code[1] == b'x'
+                && code[2..6].iter().all(|item| item.is_ascii_hexdigit())
+                && code[6] == b'_'
+            {
+                result.push_str("_x005F_");
+            } else {
+                result.push(character);
+            }
+        }
+        result
+    }
+
     fn extract_digits(input: &str) -> AnyResult<u32> {
         input
             .chars()
-- 
2.43.0


From 5d8d6b256652ea7975e7167e77d42ae531f3a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 07/31] fix: save the worksheets whose handle is still open, do
 not open other kinds of sheets as worksheet

---
 rs/src/global/global_2007/parts/relations.rs  |   4 +
 .../spreadsheet_2007/parts/workbook.rs        |  32 ++++-
 .../spreadsheet_2007/parts/worksheet.rs       | 131 +++++++++++++++++-
 3 files changed, 155 insertions(+), 12 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 9afe213..5ddfe3a 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -27,6 +27,10 @@ impl XmlDocumentPartCommon for RelationsPart {
     where
         Self: Sized,
     {
+        if self.xml_document.upgrade().is_none() {
+            // Already closed
+            return Ok(());
+        }
         if let Some(xml_document) = self.office_document.upgrade() {
             if self
                 .save_relationship_to_doc()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index cff396b..63e469a 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -10,7 +10,7 @@ use crate::{
     order_dictionary::EXCEL_ORDER_COLLECTION,
     spreadsheet_2007::{
         models::{StyleId, StyleSetting},
-        parts::WorkSheet,
+        parts::{WorkSheet, WorkSheetPart},
         services::{CalculationChainPart, CommonServices, ShareStringPart, StylePart},
     },
 };
@@ -34,6 +34,8 @@ pub struct WorkbookPart {
     theme_part: ThemePart,
     sheet_collection: Rc<RefCell<Vec<SheetRecord>>>,
     workbook_view: Option<WorkbookView>,
+    /// Worksheets that may still be open
+    worksheet_parts: Vec<Weak<RefCell<WorkSheetPart>>>,
 }
 
 #[derive(Debug)]
@@ -99,6 +101,16 @@ impl XmlDocumentPartCommon for WorkbookPart {
     {
         log_elapsed!(
             || {
+                // Save the worksheets that are still open
+                for worksheet_part in self.worksheet_parts.drain(..) {
+                    if let Some(worksheet_part) = worksheet_part.upgrade() {
+                        worksheet_part
+                            .try_borrow_mut()
+                            .context("Failed to pull worksheet Handle")?
+                            .close_document()
+                            .context("Failed to Close open worksheet")?;
+                    }
+                }
                 self.theme_part.close_document()?;
                 self.common_service
                     .try_borrow_mut()
@@ -342,6 +354,7 @@ impl XmlDocumentPart for WorkbookPart {
                     theme_part,
                     sheet_collection: Rc::new(RefCell::new(sheet_collection)),
                     workbook_view,
+                    worksheet_parts: Vec::new(),
                 })
             },
             "Create New Workbook"
@@ -578,32 +591,41 @@ impl WorkbookPart {
         &mut self,
         sheet_name: Option<String>,
     ) -> AnyResult<WorkSheet, AnyError> {
-        Ok(WorkSheet::new(
+        let worksheet_part = WorkSheetPart::new(
             self.office_document.clone(),
             Rc::downgrade(&self.sheet_collection),
             Rc::downgrade(&self.workbook_relationship_part),
             Rc::downgrade(&self.common_service),
             sheet_name,
         )
-        .context("Worksheet Creation Failed")?)
+        .context("Worksheet Creation Failed")?;
+        Ok(self.get_worksheet_handle_mut(worksheet_part))
     }
 
     pub(crate) fn get_worksheet_mut(&mut self, sheet_name: &str) -> AnyResult<WorkSheet, AnyError> {
         log_elapsed!(
             || {
-                WorkSheet::new(
+                let worksheet_part = WorkSheetPart::new(
                     self.office_document.clone(),
                     Rc::downgrade(&self.sheet_collection),
                     Rc::downgrade(&self.workbook_relationship_part),
                     Rc::downgrade(&self.common_service),
                     Some(sheet_name.to_string()),
                 )
-                .context("Worksheet Creation Failed")
+                .context("Worksheet Creation Failed")?;
+                Ok::<_, AnyError>(self.get_worksheet_handle_mut(worksheet_part))
             },
             "Get Exiting Workbook"
         )
     }
 
+    fn get_worksheet_handle_mut(&mut self, worksheet_part: WorkSheetPart) -> WorkSheet {
+        let worksheet_part = Rc::new(RefCell::new(worksheet_part));
+        self.worksheet_parts.retain(|item| item.strong_count() > 0);
+        self.worksheet_parts.push(Rc::downgrade(&worksheet_part));
+        WorkSheet::new(worksheet_part)
+    }
+
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
         self.check_sheet_exist(sheet_name)?;
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 540ca62..c373520 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -16,7 +16,7 @@ use crate::{
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
-    cell::RefCell,
+    cell::{RefCell, RefMut},
     cmp::{max, min},
     collections::{BTreeMap, HashMap, VecDeque},
     rc::{Rc, Weak},
@@ -134,8 +134,14 @@ impl Default for WorkSheetViews {
     }
 }
 
+/// Handle of a worksheet
 #[derive(Debug)]
 pub struct WorkSheet {
+    worksheet_part: Rc<RefCell<WorkSheetPart>>,
+}
+
+#[derive(Debug)]
+pub(crate) struct WorkSheetPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     xml_document: Weak<RefCell<XmlDocument>>,
     common_service: Weak<RefCell<CommonServices>>,
@@ -156,13 +162,13 @@ pub struct WorkSheet {
     relationship_id: String,
 }
 
-impl Drop for WorkSheet {
+impl Drop for WorkSheetPart {
     fn drop(&mut self) {
         let _ = self.close_document();
     }
 }
 
-impl XmlDocumentPartCommon for WorkSheet {
+impl XmlDocumentPartCommon for WorkSheetPart {
     /// Initialize xml content for this part from base template
     fn initialize_content_xml() -> AnyResult<(XmlDocument, Option<String>, String, String), AnyError>
     {
@@ -189,6 +195,11 @@ impl XmlDocumentPartCommon for WorkSheet {
     {
         log_elapsed!(
             || {
+                self.sheet_relationship_part
+                    .try_borrow_mut()
+                    .context("Failed to pull worksheet relationship handle")?
+                    .close_document()
+                    .context("Failed to close worksheet relationship")?;
                 if let Some(office_document) = self.office_document.upgrade() {
                     let mut office_doc_mut = office_document
                         .try_borrow_mut()
@@ -232,7 +243,7 @@ impl XmlDocumentPartCommon for WorkSheet {
 }
 
 // ############################# Internal Function ######################################
-impl WorkSheet {
+impl WorkSheetPart {
     /// Create New object for the group
     pub(crate) fn new(
         office_document: Weak<RefCell<OfficeDocument>>,
@@ -303,6 +314,9 @@ impl WorkSheet {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("Failed to get XML doc handle")?;
+            if xml_doc_mut.get_root().map(|root| root.get_tag()) != Some("worksheet") {
+                return Err(anyhow!("The sheet is not a worksheet"));
+            }
             // unwrap dimension
             xml_doc_mut.pop_elements_by_tag_mut("dimension", None);
             // unwrap columns to local collection
@@ -818,7 +832,7 @@ fn deserialize_sheet_data(
     Ok((None, dimension))
 }
 
-impl WorkSheet {
+impl WorkSheetPart {
     fn get_sheet_file_name(
         sheet_name: Option<String>,
         office_document: &Weak<RefCell<OfficeDocument>>,
@@ -945,6 +959,108 @@ impl WorkSheet {
 
 // ##################################### Feature Function ################################
 impl WorkSheet {
+    pub(crate) fn new(worksheet_part: Rc<RefCell<WorkSheetPart>>) -> Self {
+        Self { worksheet_part }
+    }
+
+    /// Save the current state of the sheet
+    pub(crate) fn flush(self) -> AnyResult<(), AnyError> {
+        self.get_part_mut()?.close_document()
+    }
+
+    fn get_part_mut(&self) -> AnyResult<RefMut<'_, WorkSheetPart>, AnyError> {
+        self.worksheet_part
+            .try_borrow_mut()
+            .context("Failed to pull worksheet handle")
+    }
+
+    /// Set Active cell of the current sheet
+    pub fn set_active_cell_mut(&mut self, cell_ref: &str, selected_range: Vec<&str>) {
+        if let Ok(mut worksheet_part) = self.get_part_mut() {
+            worksheet_part.set_active_cell_mut(cell_ref, selected_range)
+        }
+    }
+
+    /// Set Column property
+    pub fn set_column_ref_properties_mut(
+        &mut self,
+        cell_ref: &str,
+        column_properties: Option<ColumnProperties>,
+    ) -> AnyResult<(), AnyError> {
+        self.get_part_mut()?
+            .set_column_ref_properties_mut(cell_ref, column_properties)
+    }
+
+    /// Set Column property
+    pub fn set_column_index_properties_mut(
+        &mut self,
+        col_index: &u16,
+        column_properties: Option<ColumnProperties>,
+    ) -> AnyResult<(), AnyError> {
+        self.get_part_mut()?
+            .set_column_index_properties_mut(col_index, column_properties)
+    }
+
+    /// Set/Reset Row property
+    pub fn set_row_index_properties_mut(
+        &mut self,
+        row_index: &u32,
+        row_properties: RowProperties,
+    ) -> AnyResult<(), AnyError> {
+        self.get_part_mut()?
+            .set_row_index_properties_mut(row_index, row_properties)
+    }
+
+    /// Set data for same row multiple columns along with row property
+    pub fn set_row_value_ref_mut(
+        &mut self,
+        cell_ref: &str,
+        column_cell: Vec<CellProperties>,
+    ) -> AnyResult<(), AnyError> {
+        self.get_part_mut()?
+            .set_row_value_ref_mut(cell_ref, column_cell)
+    }
+
+    /// Set data for same row multiple columns along with row property
+    pub fn set_row_value_index_mut(
+        &mut self,
+        row_index: u32,
+        col_index: u16,
+        column_cell: Vec<CellProperties>,
+    ) -> AnyResult<(), AnyError> {
+        self.get_part_mut()?
+            .set_row_value_index_mut(row_index, col_index, column_cell)
+    }
+
+    /// Set Cell Range to merge
+    pub fn set_merge_cell_mut(&mut self) {
+        if let Ok(mut worksheet_part) = self.get_part_mut() {
+            worksheet_part.set_merge_cell_mut()
+        }
+    }
+
+    /// List all Cell Range merged
+    pub fn list_merge_cell_(&mut self) {
+        if let Ok(mut worksheet_part) = self.get_part_mut() {
+            worksheet_part.list_merge_cell_()
+        }
+    }
+
+    /// Remove merged cell range
+    pub fn remove_merge_cell_mut(&mut self) {
+        if let Ok(mut worksheet_part) = self.get_part_mut() {
+            worksheet_part.remove_merge_cell_mut()
+        }
+    }
+
+    /// Delete Current sheet and all its components
+    pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
+        self.get_part_mut()?.delete_sheet_mut()
+    }
+}
+
+// ##################################### Feature Function ################################
+impl WorkSheetPart {
     /// Set Active cell of the current sheet
     pub fn set_active_cell_mut(&mut self, cell_ref: &str, selected_range: Vec<&str>) {}
 
@@ -1259,7 +1375,7 @@ impl WorkSheet {
     pub fn remove_merge_cell_mut(&mut self) {}
 
     /// Delete Current sheet and all its components
-    pub fn delete_sheet_mut(self) -> AnyResult<(), AnyError> {
+    pub fn delete_sheet_mut(&mut self) -> AnyResult<(), AnyError> {
         if let (Some(sheet_id), Some(common_service)) =
             (self.get_sheet_id()?, self.common_service.upgrade())
         {
@@ -1287,7 +1403,8 @@ impl WorkSheet {
             document.delete_document_mut(&self.file_path);
             document.delete_document_mut(&RelationsPart::get_relationship_path(&self.file_path));
         }
-        self.flush().context("Failed to flush the worksheet")?;
+        self.close_document()
+            .context("Failed to flush the worksheet")?;
         Ok(())
     }
 }
-- 
2.43.0


From dbd25d1c50229bb8cce1852d36622a26116ddd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 08/31] fix: read parts whose main namespace has a prefix and
 leave an existing theme as it is

---
 rs/src/files/xml/xml_serialize.rs        | 14 ++++++++
 rs/src/files/xml/xml_tree.rs             | 45 ++++++++++++++++++++++++
 rs/src/global/global_2007/parts/theme.rs | 13 ++++++-
 3 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index f8cb29c..a441fef 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -1,3 +1,4 @@
+use crate::element_dictionary::{COMMON_TYPE_COLLECTION, EXCEL_TYPE_COLLECTION};
 use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
@@ -27,6 +28,19 @@ impl XmlSerializer {
             },
             format!("Serializing : {}", file_name)
         )?;
+        xml_document
+            .use_default_namespace_mut(&[
+                COMMON_TYPE_COLLECTION
+                    .get("content_type")
+                    .unwrap()
+                    .schemas_namespace,
+                COMMON_TYPE_COLLECTION.get("rels").unwrap().schemas_namespace,
+                EXCEL_TYPE_COLLECTION
+                    .get("workbook")
+                    .unwrap()
+                    .schemas_namespace,
+            ])
+            .context("Normalizing Namespace Failed")?;
         Ok(xml_document)
     }
 
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 139ab16..10801ae 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -333,6 +333,51 @@ impl XmlDocument {
     pub(crate) fn get_element_mut(&mut self, element_id: &usize) -> Option<&mut XmlElement> {
         self.xml_element_collection.get_mut(element_id)
     }
+
+    /// Elements of the given namespaces are found by their name without prefix, make that namespace
+    /// the default one if the document uses a prefix for it
+    pub(crate) fn use_default_namespace_mut(
+        &mut self,
+        namespaces: &[&str],
+    ) -> AnyResult<(), AnyError> {
+        let Some((prefix, _)) = self.get_root().and_then(|root| root.get_tag().split_once(':'))
+        else {
+            return Ok(());
+        };
+        let prefix = prefix.to_string();
+        let mut namespace_collection = self
+            .namespace_collection
+            .try_borrow_mut()
+            .context("Namespace Collection Borrow Failed")?;
+        let Some(namespace) = namespace_collection.get(&prefix).cloned() else {
+            return Ok(());
+        };
+        let is_default_in_use = namespace_collection
+            .get("<Default>")
+            .map_or(false, |item| *item != namespace)
+            || self.xml_element_collection.values().any(|element| {
+                element.attributes.as_ref().map_or(false, |attributes| {
+                    attributes.contains_key("xmlns")
+                        || attributes.contains_key(&format!("xmlns:{}", prefix))
+                })
+            });
+        if !namespaces.contains(&namespace.as_str()) || is_default_in_use {
+            return Ok(());
+        }
+        namespace_collection.insert("<Default>".to_string(), namespace);
+        let prefix = format!("{}:", prefix);
+        for element in self.xml_element_collection.values_mut() {
+            if let Some(name) = element.tag.strip_prefix(&prefix) {
+                element.tag = name.to_string();
+            }
+            for child in element.children.borrow_mut().iter_mut() {
+                if let Some(name) = child.tag.strip_prefix(&prefix) {
+                    child.tag = name.to_string();
+                }
+            }
+        }
+        Ok(())
+    }
 }
 
 #[derive(Debug)]
diff --git a/rs/src/global/global_2007/parts/theme.rs b/rs/src/global/global_2007/parts/theme.rs
index 3794f9e..2d513ff 100644
--- a/rs/src/global/global_2007/parts/theme.rs
+++ b/rs/src/global/global_2007/parts/theme.rs
@@ -61,7 +61,18 @@ impl XmlDocumentPart for ThemePart {
         let file_name = Self::get_theme_file_name(&parent_relationship_part)
             .context("Failed to pull theme file name")?
             .to_string();
-        let xml_document = Self::get_xml_document(&office_document, &file_name)?;
+        let is_existing = office_document
+            .upgrade()
+            .ok_or(anyhow!("Document Upgrade Handled Failed"))?
+            .try_borrow()
+            .context("Failed to borrow handle")?
+            .check_file_exist(file_name.clone());
+        // An existing theme stays as it is
+        let xml_document = if is_existing {
+            Weak::new()
+        } else {
+            Self::get_xml_document(&office_document, &file_name)?
+        };
         Ok(Self {
             office_document,
             _xml_document: xml_document,
-- 
2.43.0


From e624c1658e67e64c9fa78e3e006bb4e5483b3931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 09/31] fix: keep existing styles as they are, add new ones
 after them with the number format asked for

---
 rs/src/files/xml/xml_tree.rs                  |  60 ++-
 rs/src/global/references/order_dictionary.rs  |   8 +-
 .../spreadsheet_2007/services/style.rs        | 378 ++++++++++++------
 3 files changed, 320 insertions(+), 126 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 10801ae..34bc4d6 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -24,6 +24,23 @@ impl XmlDocument {
         }
     }
 
+    /// Get a document of its own with the same content
+    pub(crate) fn duplicate(&self) -> Self {
+        let namespace_collection =
+            Rc::new(RefCell::new(self.namespace_collection.borrow().clone()));
+        Self {
+            running_id: self.running_id,
+            xml_element_collection: self
+                .xml_element_collection
+                .iter()
+                .map(|(id, element)| {
+                    (*id, element.duplicate(Rc::downgrade(&namespace_collection)))
+                })
+                .collect(),
+            namespace_collection,
+        }
+    }
+
     pub(crate) fn get_element_count(&self) -> usize {
         self.xml_element_collection.len()
     }
@@ -88,6 +105,27 @@ impl XmlDocument {
     pub(crate) fn get_element(&self, element_id: &usize) -> Option<&XmlElement> {
         self.xml_element_collection.get(element_id)
     }
+
+    /// The element and everything inside it uses nothing else than the given tags and their attributes
+    pub(crate) fn is_limited_to(&self, element_id: &usize, known: &[(&str, &[&str])]) -> bool {
+        self.xml_element_collection
+            .get(element_id)
+            .map_or(false, |element| {
+                known
+                    .iter()
+                    .find(|(tag, _)| *tag == element.get_tag())
+                    .map_or(false, |(_, names)| {
+                        element.get_attribute().map_or(true, |attributes| {
+                            attributes.keys().all(|key| names.contains(&key.as_str()))
+                        })
+                    })
+                    && element
+                        .children
+                        .borrow()
+                        .iter()
+                        .all(|item| self.is_limited_to(&item.id, known))
+            })
+    }
 }
 
 /// ####################### Mut Access Functions ####################
@@ -380,7 +418,7 @@ impl XmlDocument {
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub(crate) struct XmlElementChild {
     id: usize,
     tag: String,
@@ -426,6 +464,18 @@ impl XmlElement {
         }
     }
 
+    fn duplicate(&self, namespace_collection: Weak<RefCell<HashMap<String, String>>>) -> Self {
+        Self {
+            id: self.id,
+            parent_id: self.parent_id,
+            tag: self.tag.clone(),
+            attributes: self.attributes.clone(),
+            value: self.value.clone(),
+            children: Rc::new(RefCell::new(self.children.borrow().clone())),
+            namespace_collection_ref: namespace_collection,
+        }
+    }
+
     fn is_valid_xml_name(name: &str) -> bool {
         fn is_name_start_char(c: char) -> bool {
             c.is_ascii_alphabetic() || c == '_' || c.is_alphabetic()
@@ -601,13 +651,7 @@ impl XmlElement {
     /// Drop the text which is only formatting around child elements or inside an empty element
     pub(crate) fn remove_formatting_value_mut(&mut self) {
         if let Some(value) = &self.value {
-            let is_preserve = self.attributes.as_ref().map_or(false, |attributes| {
-                attributes.get("xml:space").map(String::as_str) == Some("preserve")
-            });
-            if self.children.borrow().len() > 0
-                || value.is_empty()
-                || (value.trim().is_empty() && !is_preserve)
-            {
+            if self.children.borrow().len() > 0 || value.is_empty() {
                 self.value = None;
             }
         }
diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 366d6b6..a60eb2e 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -11,7 +11,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
     ],
     "worksheet"=>&["sheetPr","dimension","sheetViews",
         "sheetFormatPr","cols","sheetData",
-        "sheetCalcPr","protectedRanges","scenarios",
+        "sheetCalcPr","sheetProtection","protectedRanges","scenarios",
         "autoFilter","sortState","dataConsolidate",
         "customSheetViews","mergeCells","phoneticPr",
         "conditionalFormatting",
@@ -19,8 +19,12 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
         "pageMargins","pageSetup","headerFooter",
         "rowBreaks","colBreaks","customProperties",
         "cellWatches","ignoredErrors","smartTags",
-        "drawing","drawingHF","picture",
+        "drawing","legacyDrawing","legacyDrawingHF","drawingHF","picture",
         "oleObjects","controls","webPublishItems",
         "tableParts","extLst",
     ],
+    "styleSheet"=>&["numFmts","fonts","fills","borders",
+        "cellStyleXfs","cellXfs","cellStyles","dxfs",
+        "tableStyles","colors","extLst",
+    ],
 };
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index c6c63ae..a8ebd60 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -7,6 +7,7 @@ use crate::{
         traits::{Enum, XmlDocumentPart, XmlDocumentPartCommon},
     },
     log_elapsed,
+    order_dictionary::EXCEL_ORDER_COLLECTION,
     spreadsheet_2007::models::{
         BorderSetting, BorderStyle, BorderStyleValues, CellXfs, ColorSetting,
         ColorSettingTypeValues, FillStyle, FontSchemeValues, FontStyle, HorizontalAlignmentValues,
@@ -22,6 +23,57 @@ use std::{
     rc::Weak,
 };
 
+/// Hash of an item which uses more than a style setting can ask for
+const UNMATCHED: u64 = 0;
+
+// Elements and attributes a style setting can ask for
+const COLOR_VALUES: &[&str] = &["theme", "rgb", "indexed"];
+const FONT_ITEMS: &[(&str, &[&str])] = &[
+    ("font", &[]),
+    ("b", &["val"]),
+    ("i", &["val"]),
+    ("u", &["val"]),
+    ("sz", &["val"]),
+    ("color", COLOR_VALUES),
+    ("name", &["val"]),
+    ("family", &["val"]),
+    ("scheme", &["val"]),
+];
+const FILL_ITEMS: &[(&str, &[&str])] = &[
+    ("fill", &[]),
+    ("patternFill", &["patternType"]),
+    ("fgColor", COLOR_VALUES),
+    ("bgColor", COLOR_VALUES),
+];
+const BORDER_ITEMS: &[(&str, &[&str])] = &[
+    ("border", &[]),
+    ("left", &["style"]),
+    ("right", &["style"]),
+    ("top", &["style"]),
+    ("bottom", &["style"]),
+    ("diagonal", &["style"]),
+    ("color", COLOR_VALUES),
+];
+const XF_ITEMS: &[(&str, &[&str])] = &[
+    (
+        "xf",
+        &[
+            "numFmtId",
+            "fontId",
+            "fillId",
+            "borderId",
+            "xfId",
+            "applyFont",
+            "applyAlignment",
+            "applyFill",
+            "applyBorder",
+            "applyNumberFormat",
+            "applyProtection",
+        ],
+    ),
+    ("alignment", &["wrapText", "vertical", "horizontal"]),
+];
+
 #[derive(Debug)]
 pub struct StylePart {
     office_document: Weak<RefCell<OfficeDocument>>,
@@ -36,6 +88,8 @@ pub struct StylePart {
     border_collection: Vec<(u64, BorderStyle)>,
     cell_style_xfs_collection: Vec<(u64, CellXfs)>,
     cell_xfs_collection: Vec<(u64, CellXfs)>,
+    /// Items of each collection already part of the document
+    source_count: HashMap<&'static str, usize>,
 }
 
 impl Drop for StylePart {
@@ -110,6 +164,14 @@ impl XmlDocumentPart for StylePart {
             cell_style_collection,
             cell_collection,
         ) = Self::load_content(&mut xml_document).context("Load Share String To DB Failed")?;
+        let source_count = HashMap::from([
+            ("numFmts", number_format_collection.len()),
+            ("fonts", font_collection.len()),
+            ("fills", fill_collection.len()),
+            ("borders", border_collection.len()),
+            ("cellStyleXfs", cell_style_collection.len()),
+            ("cellXfs", cell_collection.len()),
+        ]);
         Ok(Self {
             office_document,
             xml_document,
@@ -123,6 +185,7 @@ impl XmlDocumentPart for StylePart {
             border_collection,
             cell_style_xfs_collection: cell_style_collection,
             cell_xfs_collection: cell_collection,
+            source_count,
         })
     }
 }
@@ -170,9 +233,11 @@ impl StylePart {
         let mut style_collection = Vec::new();
         let mut xfs_collection = Vec::new();
         if let Some(xml_document) = xml_document.upgrade() {
+            // The items stay in the document as they are, new items are added after them
             let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
+                .try_borrow()
+                .context("xml doc borrow failed")?
+                .duplicate();
             // Load Number Format Region
             if let Some(mut number_formats_vec) =
                 xml_doc_mut.pop_elements_by_tag_mut("numFmts", None)
@@ -195,9 +260,10 @@ impl StylePart {
                                     .get("formatCode")
                                     .ok_or(anyhow!("formatCode Attribute Not Found!"))?
                                     .to_string();
-                                let mut hasher = DefaultHasher::new();
-                                number_format.hash(&mut hasher);
-                                num_format_records.push((hasher.finish(), number_format));
+                                num_format_records.push((
+                                    Self::get_number_format_hash(&number_format.format_code),
+                                    number_format,
+                                ));
                             }
                         } else {
                             break;
@@ -212,6 +278,8 @@ impl StylePart {
                         // Loop every font element
                         if let Some((font_id, _)) = fonts.pop_child_mut() {
                             // font
+                            let mut is_exact = xml_doc_mut.is_limited_to(&font_id, FONT_ITEMS);
+                            let mut found_tags: Vec<String> = Vec::new();
                             let font = xml_doc_mut
                                 .pop_element_mut(&font_id)
                                 .ok_or(anyhow!("Element not Found Error"))?;
@@ -221,29 +289,31 @@ impl StylePart {
                                     let current_element = xml_doc_mut
                                         .pop_element_mut(&item_id)
                                         .ok_or(anyhow!("Failed to pull child element"))?;
+                                    found_tags.push(current_element.get_tag().to_string());
+                                    let flag = current_element
+                                        .get_attribute()
+                                        .and_then(|attributes| attributes.get("val"));
                                     match current_element.get_tag() {
-                                        "b" => font_style.is_bold = true,
-                                        "u" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(double) = attributes.get("val") {
-                                                    if double == "double" {
-                                                        font_style.is_double_underline = true;
-                                                    }
-                                                }
+                                        "b" => font_style.is_bold = Self::is_flag_set(flag),
+                                        "u" => match flag.map(String::as_str) {
+                                            Some("double") => {
+                                                font_style.is_double_underline = true
                                             }
-                                            font_style.is_underline = false;
-                                        }
-                                        "i" => font_style.is_italic = false,
+                                            None | Some("single") => font_style.is_underline = true,
+                                            Some("none") => (),
+                                            _ => is_exact = false,
+                                        },
+                                        "i" => font_style.is_italic = Self::is_flag_set(flag),
                                         "sz" => {
                                             if let Some(attributes) =
                                                 current_element.get_attribute()
                                             {
                                                 if let Some(val) = attributes.get("val") {
-                                                    font_style.size = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
+                                                    if let Ok(size) = val.parse() {
+                                                        font_style.size = size
+                                                    } else {
+                                                        is_exact = false
+                                                    }
                                                 }
                                             }
                                         }
@@ -286,9 +356,11 @@ impl StylePart {
                                                 current_element.get_attribute()
                                             {
                                                 if let Some(val) = attributes.get("val") {
-                                                    font_style.family = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
+                                                    if let Ok(family) = val.parse() {
+                                                        font_style.family = family
+                                                    } else {
+                                                        is_exact = false
+                                                    }
                                                 }
                                             }
                                         }
@@ -302,9 +374,7 @@ impl StylePart {
                                                 }
                                             }
                                         }
-                                        _ => {
-                                            return Err(anyhow!("Unknown Font Style Found!"));
-                                        }
+                                        _ => is_exact = false,
                                     }
                                 } else {
                                     break;
@@ -312,7 +382,14 @@ impl StylePart {
                             }
                             let mut hasher = DefaultHasher::new();
                             font_style.hash(&mut hasher);
-                            font_records.push((hasher.finish(), font_style));
+                            is_exact = is_exact
+                                && ["sz", "color", "name"]
+                                    .iter()
+                                    .all(|tag| found_tags.iter().any(|item| item == tag));
+                            font_records.push((
+                                if is_exact { hasher.finish() } else { UNMATCHED },
+                                font_style,
+                            ));
                         } else {
                             break;
                         }
@@ -323,6 +400,7 @@ impl StylePart {
                 if let Some(fills) = fills_vec.pop() {
                     loop {
                         if let Some((fill_id, _)) = fills.pop_child_mut() {
+                            let mut is_exact = xml_doc_mut.is_limited_to(&fill_id, FILL_ITEMS);
                             let current_element = xml_doc_mut
                                 .pop_element_mut(&fill_id)
                                 .ok_or(anyhow!("Failed to pull child element"))?;
@@ -337,6 +415,10 @@ impl StylePart {
                                         {
                                             fill_style.pattern_type =
                                                 PatternTypeValues::get_enum(pattern_type);
+                                            is_exact = is_exact
+                                                && PatternTypeValues::get_string(
+                                                    fill_style.pattern_type.clone(),
+                                                ) == *pattern_type;
                                             loop {
                                                 if let Some((child_id, _)) =
                                                     pattern_fill.pop_child_mut()
@@ -420,11 +502,7 @@ impl StylePart {
                                                                         });
                                                                     }
                                                                 }
-                                                                _ => {
-                                                                    return Err(anyhow!(
-                                                                    "Unknown Color patter found"
-                                                                ));
-                                                                }
+                                                                _ => is_exact = false,
                                                             }
                                                         }
                                                     }
@@ -438,7 +516,10 @@ impl StylePart {
                             }
                             let mut hasher = DefaultHasher::new();
                             fill_style.hash(&mut hasher);
-                            fill_records.push((hasher.finish(), fill_style));
+                            fill_records.push((
+                                if is_exact { hasher.finish() } else { UNMATCHED },
+                                fill_style,
+                            ));
                         } else {
                             break;
                         }
@@ -450,6 +531,7 @@ impl StylePart {
                     // Loop Each Border Style
                     loop {
                         if let Some((border_id, _)) = borders.pop_child_mut() {
+                            let mut is_exact = xml_doc_mut.is_limited_to(&border_id, BORDER_ITEMS);
                             if let Some(border) = xml_doc_mut.pop_element_mut(&border_id) {
                                 let mut border_style = BorderStyle::default();
                                 // Loop Details of current border
@@ -499,11 +581,7 @@ impl StylePart {
                                                     )
                                                     .context("Left Border Decode Failed")?;
                                                 }
-                                                _ => {
-                                                    return Err(anyhow!(
-                                                        "Unknown border style found"
-                                                    ));
-                                                }
+                                                _ => is_exact = false,
                                             }
                                         }
                                     } else {
@@ -512,7 +590,10 @@ impl StylePart {
                                 }
                                 let mut hasher = DefaultHasher::new();
                                 border_style.hash(&mut hasher);
-                                border_records.push((hasher.finish(), border_style));
+                                border_records.push((
+                                    if is_exact { hasher.finish() } else { UNMATCHED },
+                                    border_style,
+                                ));
                             }
                         } else {
                             break;
@@ -554,19 +635,15 @@ impl StylePart {
                 .context("xml doc borrow failed")?;
             // Create Number Formats Elements
             {
-                let num_formats = xml_doc_mut
-                    .insert_child_at_mut("numFmts", &0, None)
-                    .context("Create Number Formats Parent Failed.")?;
-                let num_formats_id = num_formats.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.number_format_collection.len().to_string(),
-                );
-                num_formats
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, num_format) in self.number_format_collection.as_slice() {
+                let source_count = self.source_count["numFmts"];
+                let num_formats_id = Self::get_collection_id_mut(
+                    &mut xml_doc_mut,
+                    "numFmts",
+                    source_count,
+                    self.number_format_collection.len(),
+                )
+                .context("Create Number Formats Parent Failed.")?;
+                for (_, num_format) in &self.number_format_collection[source_count..] {
                     let num_format_element = xml_doc_mut
                         .append_child_mut("numFmt", Some(&num_formats_id))
                         .context("Create Number Format Element Failed")?;
@@ -580,16 +657,15 @@ impl StylePart {
             }
             // Create Fonts Elements
             {
-                let fonts = xml_doc_mut
-                    .insert_children_after_tag_mut("fonts", "numFmts", None)
-                    .context("Create Fonts Parent Failed.")?;
-                let fonts_id = fonts.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.font_collection.len().to_string());
-                fonts
-                    .set_attribute_mut(attributes)
-                    .context("Set attribute failed for fonts style")?;
-                for (_, font_style) in self.font_collection.as_slice() {
+                let source_count = self.source_count["fonts"];
+                let fonts_id = Self::get_collection_id_mut(
+                    &mut xml_doc_mut,
+                    "fonts",
+                    source_count,
+                    self.font_collection.len(),
+                )
+                .context("Create Fonts Parent Failed.")?;
+                for (_, font_style) in &self.font_collection[source_count..] {
                     let font_id = xml_doc_mut
                         .append_child_mut("font", Some(&fonts_id))
                         .context("Adding Font to Fonts Failed")?
@@ -604,7 +680,7 @@ impl StylePart {
                             .append_child_mut("i", Some(&font_id))
                             .context("Create Size Failed")?;
                     }
-                    if font_style.is_underline {
+                    if font_style.is_underline && !font_style.is_double_underline {
                         xml_doc_mut
                             .append_child_mut("u", Some(&font_id))
                             .context("Create Size Failed")?;
@@ -662,16 +738,15 @@ impl StylePart {
             }
             // Create Fills Elements
             {
-                let fills = xml_doc_mut
-                    .insert_children_after_tag_mut("fills", "fonts", None)
-                    .context("Create Fills parents Failed.")?;
-                let fills_id = fills.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.fill_collection.len().to_string());
-                fills
-                    .set_attribute_mut(attributes)
-                    .context("Set Fill Attribute Failed")?;
-                for (_, fill_data) in self.fill_collection.as_slice() {
+                let source_count = self.source_count["fills"];
+                let fills_id = Self::get_collection_id_mut(
+                    &mut xml_doc_mut,
+                    "fills",
+                    source_count,
+                    self.fill_collection.len(),
+                )
+                .context("Create Fills parents Failed.")?;
+                for (_, fill_data) in &self.fill_collection[source_count..] {
                     let fill_id = xml_doc_mut
                         .append_child_mut("fill", Some(&fills_id))
                         .context("Adding Fill Element Failed")?
@@ -718,19 +793,15 @@ impl StylePart {
             }
             // Create Border Elements
             {
-                let borders = xml_doc_mut
-                    .insert_children_after_tag_mut("borders", "fills", None)
-                    .context("Create borders parents Failed.")?;
-                let borders_id = borders.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.border_collection.len().to_string(),
-                );
-                borders
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, border_data) in self.border_collection.as_slice() {
+                let source_count = self.source_count["borders"];
+                let borders_id = Self::get_collection_id_mut(
+                    &mut xml_doc_mut,
+                    "borders",
+                    source_count,
+                    self.border_collection.len(),
+                )
+                .context("Create borders parents Failed.")?;
+                for (_, border_data) in &self.border_collection[source_count..] {
                     let border_id = xml_doc_mut
                         .append_child_mut("border", Some(&borders_id))
                         .context("Create Border Failed")?
@@ -774,16 +845,29 @@ impl StylePart {
             }
             // Create Cell Style Elements
             {
-                StylePart::add_cell_style(&mut xml_doc_mut, &mut self.cell_xfs_collection, true)?;
+                StylePart::add_cell_style(
+                    &mut xml_doc_mut,
+                    &mut self.cell_xfs_collection,
+                    self.source_count["cellXfs"],
+                    true,
+                )?;
             }
             // Create Defined Cell Style Elements
             {
                 StylePart::add_cell_style(
                     &mut xml_doc_mut,
                     &mut self.cell_style_xfs_collection,
+                    self.source_count["cellStyleXfs"],
                     false,
                 )?;
             }
+            // Collections the document did not have are added at the end
+            if let Some(root) = xml_doc_mut.get_root_mut() {
+                if let Some(order) = EXCEL_ORDER_COLLECTION.get("styleSheet") {
+                    root.order_child_mut(order)
+                        .context("Ordering Style Child Elements Failed")?;
+                }
+            }
         }
         Ok(())
     }
@@ -796,6 +880,7 @@ impl StylePart {
         loop {
             if let Some((xf_id, _)) = style_xfs.pop_child_mut() {
                 let mut cell_xf = CellXfs::default();
+                let mut is_exact = xml_doc_mut.is_limited_to(&xf_id, XF_ITEMS);
                 if let Some(current_element) = xml_doc_mut.pop_element_mut(&xf_id) {
                     if let Some(attributes) = current_element.get_attribute() {
                         if let Some(number_format_id) = attributes.get("numFmtId") {
@@ -859,6 +944,10 @@ impl StylePart {
                                     {
                                         cell_xf.vertical_alignment =
                                             VerticalAlignmentValues::get_enum(vertical_alignment);
+                                        is_exact = is_exact
+                                            && VerticalAlignmentValues::get_string(
+                                                cell_xf.vertical_alignment.clone(),
+                                            ) == *vertical_alignment;
                                     }
                                     if let Some(horizontal_alignment) =
                                         alignment_attributes.get("horizontal")
@@ -867,6 +956,10 @@ impl StylePart {
                                             HorizontalAlignmentValues::get_enum(
                                                 horizontal_alignment,
                                             );
+                                        is_exact = is_exact
+                                            && HorizontalAlignmentValues::get_string(
+                                                cell_xf.horizontal_alignment.clone(),
+                                            ) == *horizontal_alignment;
                                     }
                                 }
                             }
@@ -874,7 +967,10 @@ impl StylePart {
                     }
                     let mut hasher = DefaultHasher::new();
                     cell_xf.hash(&mut hasher);
-                    style_records.push((hasher.finish(), cell_xf));
+                    style_records.push((
+                        if is_exact { hasher.finish() } else { UNMATCHED },
+                        cell_xf,
+                    ));
                 }
             } else {
                 break;
@@ -886,7 +982,7 @@ impl StylePart {
     pub(crate) fn deserialize_border_setting(
         current_element: &XmlElement,
         border: &mut BorderSetting,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
+        xml_doc_mut: &mut XmlDocument,
     ) -> Result<(), AnyError> {
         Ok(if let Some(attributes) = current_element.get_attribute() {
             if let Some(style) = attributes.get("style") {
@@ -968,29 +1064,53 @@ impl StylePart {
         Ok(())
     }
 
+    /// Get the parent element of a style collection, prepared for the items to be added to it
+    fn get_collection_id_mut(
+        xml_doc_mut: &mut XmlDocument,
+        tag: &str,
+        source_count: usize,
+        count: usize,
+    ) -> AnyResult<usize, AnyError> {
+        if count == source_count {
+            return Ok(0);
+        }
+        let collection_id = if let Some(ids) = xml_doc_mut.get_element_ids_by_tag(tag, None) {
+            ids[ids.len() - 1]
+        } else {
+            xml_doc_mut
+                .append_child_mut(tag, None)
+                .context("Create Style Collection Failed")?
+                .get_id()
+        };
+        let collection = xml_doc_mut
+            .get_element_mut(&collection_id)
+            .ok_or(anyhow!("Style Collection Not Found"))?;
+        let mut attributes = collection.get_attribute().cloned().unwrap_or_default();
+        attributes.insert("count".to_string(), count.to_string());
+        collection
+            .set_attribute_mut(attributes)
+            .context("Updating Style Collection Attributes Failed")?;
+        Ok(collection_id)
+    }
+
     fn add_cell_style(
         xml_doc_mut: &mut XmlDocument,
         xfs_data: &mut Vec<(u64, CellXfs)>,
+        source_count: usize,
         enable_format_id: bool,
     ) -> Result<(), AnyError> {
-        let cell_style_xfs = xml_doc_mut
-            .insert_children_after_tag_mut(
-                if enable_format_id {
-                    "cellXfs"
-                } else {
-                    "cellStyleXfs"
-                },
-                "borders",
-                None,
-            )
-            .context("Create Cell Style parents Failed.")?;
-        let cell_style_xfs_id = cell_style_xfs.get_id();
-        let mut attributes = HashMap::new();
-        attributes.insert("count".to_string(), xfs_data.len().to_string());
-        cell_style_xfs
-            .set_attribute_mut(attributes)
-            .context("Updating Number Formats Element Attributes Failed")?;
-        for (_, xfs) in xfs_data {
+        let cell_style_xfs_id = Self::get_collection_id_mut(
+            xml_doc_mut,
+            if enable_format_id {
+                "cellXfs"
+            } else {
+                "cellStyleXfs"
+            },
+            source_count,
+            xfs_data.len(),
+        )
+        .context("Create Cell Style parents Failed.")?;
+        for (_, xfs) in &xfs_data[source_count..] {
             let xf = xml_doc_mut
                 .append_child_mut("xf", Some(&cell_style_xfs_id))
                 .context("Create Cell Style Config Failed")?;
@@ -1067,6 +1187,19 @@ impl StylePart {
 
 // ################################## mut feature ########################
 impl StylePart {
+    fn get_number_format_hash(format_code: &str) -> u64 {
+        let mut hasher = DefaultHasher::new();
+        format_code.hash(&mut hasher);
+        hasher.finish()
+    }
+
+    /// Flag element without value is set
+    fn is_flag_set(value: Option<&String>) -> bool {
+        value.map_or(true, |item| {
+            ConverterUtil::normalize_bool_property_bool(item)
+        })
+    }
+
     fn generate_setting_hash<T: Hash>(&mut self, item: &T) -> u64 {
         let mut hasher = DefaultHasher::new();
         item.hash(&mut hasher);
@@ -1082,29 +1215,42 @@ impl StylePart {
             Ok(StyleId::new(*id))
         } else {
             let mut cell_style = CellXfs::default();
-            if style_setting.number_format == NumberFormatValues::Custom {
+            if style_setting.number_format != NumberFormatValues::Custom {
+                cell_style.number_format_id =
+                    NumberFormatValues::get_string(style_setting.number_format.clone())
+                        .parse()
+                        .context("Number Format Id Parse Failed")?;
+                if cell_style.number_format_id > 0 {
+                    cell_style.apply_number_format = 1;
+                }
+            } else {
                 cell_style.apply_number_format = 1;
                 // Get Number Format ID
                 if let Some(custom_format) = style_setting.custom_number_format {
-                    let mut hasher = DefaultHasher::new();
-                    let number_format = NumberFormat {
+                    let mut number_format = NumberFormat {
                         format_code: custom_format,
                         format_type: NumberFormatValues::Custom,
                         ..Default::default()
                     };
-                    number_format.hash(&mut hasher);
-                    let current_hash = hasher.finish();
+                    let current_hash = Self::get_number_format_hash(&number_format.format_code);
                     if let Some(position) = self
                         .number_format_collection
                         .iter()
                         .position(|(hash, _)| *hash == current_hash)
                     {
-                        cell_style.number_format_id = position as u16 + 163;
+                        cell_style.number_format_id =
+                            self.number_format_collection[position].1.format_id as u16;
                     } else {
+                        // Ids up to 163 are reserved for the built in formats
+                        number_format.format_id = self
+                            .number_format_collection
+                            .iter()
+                            .map(|(_, item)| item.format_id)
+                            .max()
+                            .map_or(164, |item| item.max(163) + 1);
+                        cell_style.number_format_id = number_format.format_id as u16;
                         self.number_format_collection
                             .push((current_hash, number_format));
-                        cell_style.number_format_id =
-                            (self.number_format_collection.len() - 1) as u16;
                     }
                 } else {
                     return Err(anyhow!(
-- 
2.43.0


From e1785b38c118a3d681abdccd48f1cf33fb0e166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 10/31] fix: keep whitespace only text and an empty string
 table, refuse an empty sheet name

---
 rs/src/files/xml/xml_deserialize.rs                |  6 +++++-
 .../spreadsheet/spreadsheet_2007/parts/workbook.rs |  4 +++-
 .../spreadsheet_2007/services/share_string.rs      | 14 ++++++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index b9a5658..c26db60 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -75,7 +75,11 @@ impl XmlDeSerializer {
                                             Self::generate_xml_element(element, false, false)
                                                 .as_str(),
                                         );
-                                        if let Some(value) = element.get_value() {
+                                        if let Some(value) = element
+                                            .get_value()
+                                            .as_ref()
+                                            .filter(|_| element.get_child_count() == 0)
+                                        {
                                             master_string.push_str(
                                                 &Self::generate_xml_value_close(value, element),
                                             );
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 63e469a..4618b8b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -745,7 +745,9 @@ impl WorkbookPart {
         new_sheet_name: &str,
     ) -> AnyResult<(), AnyError> {
         // Check if sheet with same name exist
-        if self
+        if new_sheet_name.is_empty() {
+            Err(anyhow!("New Sheet Name can not be empty"))
+        } else if self
             .sheet_collection
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 824f8b1..43624d5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -23,6 +23,8 @@ pub struct ShareStringPart {
     share_string_collection: Vec<Option<String>>,
     /// Number of string items that are already in the document
     source_count: usize,
+    /// The opened file already has the part
+    is_existing: bool,
     file_path: String,
 }
 
@@ -40,13 +42,14 @@ impl XmlDocumentPartCommon for ShareStringPart {
         log_elapsed!(
             || {
                 if let Some(office_doc_ref) = self.office_document.upgrade() {
-                    if self.share_string_collection.len() > 0 {
+                    if self.share_string_collection.len() > 0 || self.is_existing {
                         if let Some(xml_document) = self.xml_document.upgrade() {
                             let mut xml_doc_mut = xml_document
                                 .try_borrow_mut()
                                 .context("Failed to Pull Doc Reference")?;
                             // Update count & uniqueCount in root
-                            if let Some(root) = xml_doc_mut.get_root_mut() {
+                            let is_changed = self.share_string_collection.len() > self.source_count;
+                            if let Some(root) = xml_doc_mut.get_root_mut().filter(|_| is_changed) {
                                 if let Some(attributes) = root.get_attribute_mut() {
                                     let count = attributes
                                         .get("count")
@@ -149,6 +152,12 @@ impl XmlDocumentPart for ShareStringPart {
         let file_name = Self::get_share_string_file_name(&parent_relationship_part)
             .context("Failed to pull share string file name")?
             .to_string();
+        let is_existing = office_document
+            .upgrade()
+            .ok_or(anyhow!("Document Upgrade Handled Failed"))?
+            .try_borrow()
+            .context("Failed To pull XML Handle")?
+            .check_file_exist(file_name.clone());
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
         let share_string_collection = Self::load_content_to_database(&mut xml_document)
             .context("Load Share String To DB Failed")?;
@@ -158,6 +167,7 @@ impl XmlDocumentPart for ShareStringPart {
             xml_document,
             source_count: share_string_collection.len(),
             share_string_collection,
+            is_existing,
             file_path: file_name,
         })
     }
-- 
2.43.0


From 4b439b8ab03846767caf2e98d39f9ca85fb17d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 11/31] fix: a double underlined font is the same font after a
 reload

---
 rs/src/spreadsheet/spreadsheet_2007/services/style.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index a8ebd60..7e6a26c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1265,7 +1265,9 @@ impl StylePart {
                     name: style_setting.font_family,
                     is_bold: style_setting.is_bold,
                     is_italic: style_setting.is_italic,
-                    is_underline: style_setting.is_underline,
+                    // A font has one underline, the double one replaces the single one
+                    is_underline: style_setting.is_underline
+                        && !style_setting.is_double_underline,
                     is_double_underline: style_setting.is_double_underline,
                     color: style_setting.text_color,
                     size: style_setting.font_size,
-- 
2.43.0


From b19f6b476e739488008a8f2d7532263c11a1534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 12/31] fix: refuse sheet names which differ only by case from
 another sheet

---
 .../spreadsheet/spreadsheet_2007/parts/workbook.rs |  7 ++++++-
 .../spreadsheet_2007/parts/worksheet.rs            | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 4618b8b..872e099 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -752,7 +752,12 @@ impl WorkbookPart {
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .any(|item| new_sheet_name == item.0)
+            .any(|item| {
+                // Sheet names are unique irrespective of the case
+                new_sheet_name == item.0
+                    || (old_sheet_name != item.0
+                        && new_sheet_name.to_lowercase() == item.0.to_lowercase())
+            })
         {
             Err(anyhow!("New Sheet Name Already exist in the stack"))
         } else {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index c373520..175f72d 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -867,6 +867,19 @@ impl WorkSheetPart {
                         }
                         return Ok((file_path, rel_id.to_string()));
                     }
+                    // Sheet names are unique irrespective of the case
+                    if let Some((existing_name, ..)) = sheet_collection
+                        .try_borrow()
+                        .context("Failed to Get Sheet Collection")?
+                        .iter()
+                        .find(|item| item.0.to_lowercase() == sheet_name.to_lowercase())
+                    {
+                        return Err(anyhow!(
+                            "Sheet Name \"{}\" differs only by case from \"{}\"",
+                            sheet_name,
+                            existing_name
+                        ));
+                    }
                 }
                 let mut sheet_count = sheet_collection
                     .try_borrow()
@@ -901,7 +914,6 @@ impl WorkSheetPart {
                 let sheet_name = match sheet_name {
                     Some(sheet_name) => sheet_name,
                     None => {
-                        // Sheet names are unique irrespective of the case
                         let sheet_collection = sheet_collection
                             .try_borrow()
                             .context("Failed to pull Sheet Name Collection")?;
-- 
2.43.0


From 51bd8cdf440e8911633e02770eab09b653bceb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 13/31] fix: keep content types of parts matched in any letter
 case, write no empty or second default

Extensions and part names are compared without case in content types. A part
whose extension has no default produced a Default with an empty extension, and
a package with another default for xml got two of them.
---
 rs/src/files/office_document.rs               | 38 ++++++++++++------
 .../global/global_2007/parts/content_types.rs | 39 +++++++++++--------
 2 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index c6cf242..c866af7 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -6,7 +6,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap},
     ffi::OsString,
     fs::{remove_file, rename, File},
     io::{Cursor, ErrorKind, Read, Write},
@@ -239,11 +239,24 @@ impl OfficeDocument {
                     compression_level,
                     file_content,
                 ),
-            ) in self.archive_collection.to_owned()
+            ) in self
+                .archive_collection
+                .to_owned()
+                .into_iter()
+                .collect::<BTreeMap<_, _>>()
             {
-                extensions.push((file_extension, extension_type));
+                // An extension has one default only, what differs is listed on its own
+                let default_type = extensions
+                    .iter()
+                    .find(|item| item.0.eq_ignore_ascii_case(&file_extension))
+                    .map(|item| item.1.to_string());
                 if let Some(content_type) = content_type {
                     overrides.push((format!("/{}", file_name), content_type));
+                } else if default_type.as_ref().map_or(false, |item| *item != extension_type) {
+                    overrides.push((format!("/{}", file_name), extension_type.to_string()));
+                }
+                if default_type.is_none() && !file_extension.is_empty() {
+                    extensions.push((file_extension, extension_type));
                 }
                 zip_writer
                     .start_file(file_name, zip_option)
@@ -262,11 +275,7 @@ impl OfficeDocument {
             .start_file("[Content_Types].xml", zip_option)
             .context("Zip File Write Start Fail")?;
         let content_type_file = ContentTypesPart::create_xml_file(
-            extensions
-                .into_iter()
-                .collect::<HashSet<_>>()
-                .into_iter()
-                .collect::<Vec<_>>(),
+            extensions,
             overrides,
         )
         .context("Creating Content Type XML Failed")?;
@@ -315,6 +324,9 @@ impl OfficeDocument {
         let extension_collection = content_types_part
             .get_extensions()
             .context("Failed to pull extensions list")?;
+        let overrides = content_types_part
+            .get_overrides()
+            .context("Failed to pull overrides list")?;
         // Load File Content To DB
         for file_name in file_names {
             let mut file_extension = String::new();
@@ -323,7 +335,7 @@ impl OfficeDocument {
             let f_extension = file_name.rsplit(".").next();
             if let Some(f_extension) = f_extension {
                 if let Some(extensions) = extension_collection.clone() {
-                    let item = extensions.iter().find(|item| item.0 == f_extension);
+                    let item = extensions.iter().find(|item| item.0.eq_ignore_ascii_case(f_extension));
                     if let Some(extension) = item {
                         file_extension = extension.0.to_string();
                         extension_type = extension.1.to_string();
@@ -335,9 +347,11 @@ impl OfficeDocument {
                 .context("Zip file extract failed")?
                 .read_to_end(&mut uncompressed_data)
                 .context("File Uncompressed failed")?;
-            let content_type = content_types_part
-                .get_override_content_type(&file_name)
-                .context("Failed to extract Content Type")?;
+            let part_name = format!("/{}", file_name);
+            let content_type = overrides
+                .iter()
+                .find(|item| item.0.eq_ignore_ascii_case(&part_name))
+                .map(|item| item.1.to_string());
             let compression_level = 4;
             let compressed = compress_content(&uncompressed_data, compression_level)
                 .context("Recompressing in GZip Failed")?;
diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 707cb4a..3588a2d 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -43,25 +43,30 @@ impl ContentTypesPart {
         Ok(None)
     }
 
-    pub(crate) fn get_override_content_type(
-        &mut self,
-        file_name: &str,
-    ) -> AnyResult<Option<String>, AnyError> {
-        if let Some(mut find_ids) = self.xml_document.get_element_ids_by_attribute(
-            "PartName",
-            &format!("/{}", file_name),
-            None,
-        ) {
-            if let Some(id) = find_ids.pop() {
-                if let Some(element) = self.xml_document.pop_element_mut(&id) {
-                    if let Some(attributes) = element.get_attribute() {
-                        let res = attributes.get("ContentType").unwrap().to_string();
-                        return Ok(Some(res));
-                    }
-                }
+    /// Part name and content type of every part listed on its own
+    pub(crate) fn get_overrides(&mut self) -> AnyResult<Vec<(String, String)>, AnyError> {
+        let mut elements: Vec<(String, String)> = Vec::new();
+        if let Some(override_elements) = self
+            .xml_document
+            .pop_elements_by_tag_mut("Override", None)
+        {
+            for override_element in override_elements {
+                let attributes = override_element
+                    .get_attribute()
+                    .ok_or(anyhow!("Element Attribute not Found"))?;
+                elements.push((
+                    attributes
+                        .get("PartName")
+                        .ok_or(anyhow!("content type override attribute missing"))?
+                        .to_string(),
+                    attributes
+                        .get("ContentType")
+                        .ok_or(anyhow!("content type override attribute missing"))?
+                        .to_string(),
+                ));
             }
         }
-        Ok(None)
+        Ok(elements)
     }
 
     pub(crate) fn create_xml_file(
-- 
2.43.0


From 0f33d82b9aa2989f38bd8cbc73c7f9c42031ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 14/31] fix: set the modification time of core properties with
 any prefix or without the element

---
 rs/src/files/xml/xml_tree.rs                  | 15 ++++++
 .../global_2007/parts/core_properties.rs      | 50 ++++++++++---------
 2 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 34bc4d6..623be0b 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -368,6 +368,21 @@ impl XmlDocument {
         }
     }
 
+    /// First child of the root element with the name, whatever prefix its namespace has
+    pub(crate) fn get_root_child_by_local_name_mut(
+        &mut self,
+        local_name: &str,
+    ) -> Option<&mut XmlElement> {
+        let element_id = self
+            .get_root()?
+            .children
+            .borrow()
+            .iter()
+            .find(|item| item.tag.rsplit(':').next() == Some(local_name))
+            .map(|item| item.id)?;
+        self.xml_element_collection.get_mut(&element_id)
+    }
+
     pub(crate) fn get_element_mut(&mut self, element_id: &usize) -> Option<&mut XmlElement> {
         self.xml_element_collection.get_mut(element_id)
     }
diff --git a/rs/src/global/global_2007/parts/core_properties.rs b/rs/src/global/global_2007/parts/core_properties.rs
index 1c391e2..ccb4fd0 100644
--- a/rs/src/global/global_2007/parts/core_properties.rs
+++ b/rs/src/global/global_2007/parts/core_properties.rs
@@ -8,7 +8,7 @@ use crate::{
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use chrono::Utc;
-use std::{cell::RefCell, rc::Weak};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
 
 #[derive(Debug)]
 pub struct CorePropertiesPart {
@@ -49,31 +49,33 @@ impl XmlDocumentPartCommon for CorePropertiesPart {
             let mut xml_document = xml_document_ref
                 .try_borrow_mut()
                 .context("Failed to Pull Office document")?;
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:modified"], None)
-            {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        element.set_value_mut(
-                            Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                        );
-                    }
-                }
-                Err(_) => (),
+            if let Some(element) = xml_document.get_root_child_by_local_name_mut("modified") {
+                element
+                    .set_value_mut(Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true));
+            } else {
+                let mut attributes = HashMap::new();
+                attributes.insert(
+                    "xmlns:dcterms".to_string(),
+                    "http://purl.org/dc/terms/".to_string(),
+                );
+                attributes.insert(
+                    "xmlns:xsi".to_string(),
+                    "http://www.w3.org/2001/XMLSchema-instance".to_string(),
+                );
+                attributes.insert("xsi:type".to_string(), "dcterms:W3CDTF".to_string());
+                xml_document
+                    .append_child_mut("dcterms:modified", None)
+                    .context("Failed to add last modified")?
+                    .set_value_mut(Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true))
+                    .set_attribute_mut(attributes)
+                    .context("Failed to set last modified attributes")?;
             }
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:created"], None)
-            {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        if !element.has_value() {
-                            element.set_value_mut(
-                                Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                            );
-                        }
-                    }
+            if let Some(element) = xml_document.get_root_child_by_local_name_mut("created") {
+                if !element.has_value() {
+                    element.set_value_mut(
+                        Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
+                    );
                 }
-                Err(_) => (),
             }
         }
         // Update the current state to DB before dropping the object
-- 
2.43.0


From 4b30d4bc90ce3547909b23621af5feb80707f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 15/31] fix: names of one sheet follow the sheet when sheets
 are deleted

---
 rs/src/files/xml/xml_tree.rs                  | 18 +++++++
 .../spreadsheet_2007/parts/workbook.rs        | 48 +++++++++++++++++++
 2 files changed, 66 insertions(+)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 623be0b..5a7f815 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -176,6 +176,24 @@ impl XmlDocument {
     pub(crate) fn pop_element_mut(&mut self, element_id: &usize) -> Option<XmlElement> {
         self.xml_element_collection.remove(element_id)
     }
+
+    /// Removes one child of the parent
+    pub(crate) fn remove_child_mut(
+        &mut self,
+        element_id: &usize,
+        parent_id: &usize,
+    ) -> AnyResult<(), AnyError> {
+        self.xml_element_collection
+            .get(parent_id)
+            .ok_or(anyhow!("Parent Element Not Found"))?
+            .children
+            .try_borrow_mut()
+            .context("Failed to Pull children handle")?
+            .retain(|item| item.id != *element_id);
+        self.xml_element_collection.remove(element_id);
+        Ok(())
+    }
+
     /// Insert Children Before specific Tag
     pub(crate) fn insert_children_before_tag_mut(
         &mut self,
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 872e099..f86392f 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -34,6 +34,8 @@ pub struct WorkbookPart {
     theme_part: ThemePart,
     sheet_collection: Rc<RefCell<Vec<SheetRecord>>>,
     workbook_view: Option<WorkbookView>,
+    /// Sheet ids in the source file
+    source_sheet_collection: Vec<Option<String>>,
     /// Worksheets that may still be open
     worksheet_parts: Vec<Weak<RefCell<WorkSheetPart>>>,
 }
@@ -238,6 +240,47 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             .set_attribute_mut(attributes)
                             .context("Failed to set workbook view attributes")?;
                     }
+                    // Names of one sheet follow the sheet and go away with it
+                    if let Some(defined_names_id) = xml_doc_mut
+                        .get_first_element_id(vec!["workbook", "definedNames"], None)
+                        .context("Failed to find defined names")?
+                    {
+                        for defined_name_id in xml_doc_mut
+                            .get_element_ids_by_tag("definedName", Some(&defined_names_id))
+                            .unwrap_or_default()
+                        {
+                            let Some(attributes) = xml_doc_mut
+                                .get_element_mut(&defined_name_id)
+                                .and_then(|item| item.get_attribute_mut())
+                            else {
+                                continue;
+                            };
+                            let Some(Some(sheet_id)) = attributes
+                                .get("localSheetId")
+                                .and_then(|item| item.parse::<usize>().ok())
+                                .and_then(|item| self.source_sheet_collection.get(item))
+                            else {
+                                continue;
+                            };
+                            if let Some(sheet_index) = sheet_records
+                                .iter()
+                                .position(|item| item.4.get("sheetId") == Some(sheet_id))
+                            {
+                                attributes
+                                    .insert("localSheetId".to_string(), sheet_index.to_string());
+                            } else {
+                                xml_doc_mut
+                                    .remove_child_mut(&defined_name_id, &defined_names_id)
+                                    .context("Failed to remove defined name")?;
+                            }
+                        }
+                        if xml_doc_mut
+                            .get_element_mut(&defined_names_id)
+                            .map_or(false, |item| item.get_child_count() == 0)
+                        {
+                            xml_doc_mut.pop_elements_by_tag_mut("definedNames", None);
+                        }
+                    }
                     // Create and set Sheets
                     let sheets_id = xml_doc_mut
                         .insert_children_after_tag_mut("sheets", "bookViews", None)
@@ -345,6 +388,10 @@ impl XmlDocumentPart for WorkbookPart {
                 )));
                 let (sheet_collection, workbook_view) =
                     Self::load_sheet_names(&mut file_tree).context("Loading Sheet Names Failed")?;
+                let source_sheet_collection = sheet_collection
+                    .iter()
+                    .map(|item| item.4.get("sheetId").cloned())
+                    .collect();
                 Ok(Self {
                     office_document,
                     xml_document: file_tree,
@@ -352,6 +399,7 @@ impl XmlDocumentPart for WorkbookPart {
                     common_service,
                     workbook_relationship_part,
                     theme_part,
+                    source_sheet_collection,
                     sheet_collection: Rc::new(RefCell::new(sheet_collection)),
                     workbook_view,
                     worksheet_parts: Vec::new(),
-- 
2.43.0


From 870e0fb7a70967756dad3b70b9d5dcbef736c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 16/31] fix: read sheets whose relationship attribute has
 another prefix

---
 .../spreadsheet_2007/parts/workbook.rs        | 38 +++++++++++++++++--
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index f86392f..9100ae2 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -21,6 +21,9 @@ use std::{
     rc::{Rc, Weak},
 };
 
+const RELATIONSHIP_NAMESPACE: &str =
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+
 /// Sheet name, relationId, active sheet, hide sheet, attributes of the sheet in the source file
 pub(crate) type SheetRecord = (String, String, bool, bool, HashMap<String, String>);
 
@@ -281,6 +284,10 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             xml_doc_mut.pop_elements_by_tag_mut("definedNames", None);
                         }
                     }
+                    let is_relationship_declared = xml_doc_mut
+                        .get_root()
+                        .and_then(|item| item.get_namespace())
+                        .map_or(false, |item| item.contains_key("r"));
                     // Create and set Sheets
                     let sheets_id = xml_doc_mut
                         .insert_children_after_tag_mut("sheets", "bookViews", None)
@@ -305,7 +312,17 @@ impl XmlDocumentPartCommon for WorkbookPart {
                             attributes.insert("sheetId".to_string(), next_sheet_id.to_string());
                             next_sheet_id += 1;
                         }
-                        attributes.insert("r:id".to_string(), relationship_id.to_string());
+                        let relationship_attribute = Self::get_relationship_attribute(&attributes);
+                        if relationship_attribute.is_none() && !is_relationship_declared {
+                            attributes.insert(
+                                "xmlns:r".to_string(),
+                                RELATIONSHIP_NAMESPACE.to_string(),
+                            );
+                        }
+                        attributes.insert(
+                            relationship_attribute.unwrap_or("r:id".to_string()),
+                            relationship_id.to_string(),
+                        );
                         if *hide && attributes.get("state").map_or(true, |item| item == "visible") {
                             attributes.insert("state".to_string(), "hidden".to_string());
                         }
@@ -529,9 +546,11 @@ impl WorkbookPart {
                                             let name = attributes.get("name").ok_or(anyhow!(
                                                 "Error When Trying to read Sheet Details."
                                             ))?;
-                                            let r_id = attributes.get("r:id").ok_or(anyhow!(
-                                                "Error When Trying to read Sheet Details."
-                                            ))?;
+                                            let r_id = Self::get_relationship_attribute(attributes)
+                                                .and_then(|item| attributes.get(&item))
+                                                .ok_or(anyhow!(
+                                                    "Error When Trying to read Sheet Details."
+                                                ))?;
                                             let state = attributes.get("state");
                                             sheet_collection.push((
                                                 name.to_string(),
@@ -608,6 +627,17 @@ impl WorkbookPart {
         }
     }
 
+    /// Name of the attribute with the relationship id, whatever prefix its namespace has
+    fn get_relationship_attribute(attributes: &HashMap<String, String>) -> Option<String> {
+        attributes
+            .keys()
+            .find(|item| {
+                item.split_once(':')
+                    .map_or(false, |(prefix, name)| prefix != "xmlns" && name == "id")
+            })
+            .cloned()
+    }
+
     fn check_sheet_exist(&self, sheet_name: &str) -> AnyResult<(), AnyError> {
         if self
             .sheet_collection
-- 
2.43.0


From a609a34aceb1684177b4316034c8f034f5de2181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 17/31] fix: find the target of a relationship whatever its
 letter case

---
 rs/src/files/office_document.rs              | 12 ++++++++++++
 rs/src/global/global_2007/parts/relations.rs |  8 +++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index c866af7..b56c40b 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -56,6 +56,18 @@ impl OfficeDocument {
             || self.xml_document_collection.contains_key(&file_path)
     }
 
+    /// Name of the file in the archive, letter case makes no difference between part names
+    pub(crate) fn find_file_name(&self, file_path: &str) -> Option<String> {
+        if self.check_file_exist(file_path.to_string()) {
+            return Some(file_path.to_string());
+        }
+        self.archive_collection
+            .keys()
+            .chain(self.xml_document_collection.keys())
+            .find(|item| item.eq_ignore_ascii_case(file_path))
+            .cloned()
+    }
+
     /// Document was opened from an existing file
     pub(crate) fn is_existing_document(&self) -> bool {
         !self.archive_collection.is_empty()
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 5ddfe3a..ba5831c 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -174,7 +174,13 @@ impl RelationsPart {
                 _ => segments.push(segment),
             }
         }
-        Ok(segments.join("/"))
+        let target_path = segments.join("/");
+        let file_name = self.office_document.upgrade().and_then(|item| {
+            item.try_borrow()
+                .ok()
+                .and_then(|item| item.find_file_name(&target_path))
+        });
+        Ok(file_name.unwrap_or(target_path))
     }
 
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
-- 
2.43.0


From e106ade28277df976a8b9e0b3b138cc8454fc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 18/31] fix: refuse to open a file as workbook whose main part
 is none

---
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 9100ae2..ca7151b 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -367,6 +367,16 @@ impl XmlDocumentPart for WorkbookPart {
                     .context("Failed to pull workbook file name")?
                     .to_string();
                 let mut file_tree = Self::get_xml_document(&office_document, &file_name)?;
+                if let Some(xml_document) = file_tree.upgrade() {
+                    let is_workbook = xml_document
+                        .try_borrow()
+                        .context("xml doc borrow failed")?
+                        .get_root()
+                        .map_or(false, |item| item.get_tag() == "workbook");
+                    if !is_workbook {
+                        return Err(anyhow!("Main part of the file is not a workbook"));
+                    }
+                }
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
-- 
2.43.0


From 2dcb90e6fff6b4ccf5ab769b59f44d04ae704124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 19/31] fix: read parts with a prefixed main namespace when an
 element inside has a default one of its own

---
 rs/src/files/xml/xml_tree.rs | 48 +++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 5a7f815..1cedf1e 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -1,7 +1,7 @@
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     rc::{Rc, Weak},
 };
 
@@ -423,27 +423,45 @@ impl XmlDocument {
         let Some(namespace) = namespace_collection.get(&prefix).cloned() else {
             return Ok(());
         };
-        let is_default_in_use = namespace_collection
-            .get("<Default>")
-            .map_or(false, |item| *item != namespace)
-            || self.xml_element_collection.values().any(|element| {
-                element.attributes.as_ref().map_or(false, |attributes| {
-                    attributes.contains_key("xmlns")
-                        || attributes.contains_key(&format!("xmlns:{}", prefix))
-                })
-            });
-        if !namespaces.contains(&namespace.as_str()) || is_default_in_use {
+        let default_namespace = namespace_collection.get("<Default>").cloned();
+        if !namespaces.contains(&namespace.as_str())
+            || default_namespace.as_ref().map_or(false, |item| *item != namespace)
+        {
             return Ok(());
         }
+        // Elements inside a part of the document with own declarations keep their prefix
+        let mut element_ids = HashSet::new();
+        let mut pending = vec![0];
+        while let Some(element_id) = pending.pop() {
+            let Some(element) = self.xml_element_collection.get(&element_id) else {
+                continue;
+            };
+            let is_redeclared = element.attributes.as_ref().map_or(false, |attributes| {
+                attributes.contains_key("xmlns")
+                    || attributes.contains_key(&format!("xmlns:{}", prefix))
+            });
+            if is_redeclared && element_id != 0 {
+                continue;
+            }
+            if default_namespace.is_none() && !element.tag.contains(':') {
+                return Ok(());
+            }
+            element_ids.insert(element_id);
+            pending.extend(element.children.borrow().iter().map(|item| item.id));
+        }
         namespace_collection.insert("<Default>".to_string(), namespace);
         let prefix = format!("{}:", prefix);
         for element in self.xml_element_collection.values_mut() {
-            if let Some(name) = element.tag.strip_prefix(&prefix) {
-                element.tag = name.to_string();
+            if element_ids.contains(&element.id) {
+                if let Some(name) = element.tag.strip_prefix(&prefix) {
+                    element.tag = name.to_string();
+                }
             }
             for child in element.children.borrow_mut().iter_mut() {
-                if let Some(name) = child.tag.strip_prefix(&prefix) {
-                    child.tag = name.to_string();
+                if element_ids.contains(&child.id) {
+                    if let Some(name) = child.tag.strip_prefix(&prefix) {
+                        child.tag = name.to_string();
+                    }
                 }
             }
         }
-- 
2.43.0


From 6c5aef8fa05fcc892987c94c5f5c6d7968a08781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 20/31] fix: save to names as long as the file system allows

---
 rs/src/files/office_document.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index b56c40b..d4c800a 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,7 +7,6 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::{BTreeMap, HashMap},
-    ffi::OsString,
     fs::{remove_file, rename, File},
     io::{Cursor, ErrorKind, Read, Write},
     path::Path,
@@ -199,15 +198,13 @@ impl OfficeDocument {
     /// Write the content beside the target and move it over the target only once it is complete,
     /// a failed or interrupted save leaves the previous file in place
     fn write_file_atomic(target: &Path, content: &[u8]) -> AnyResult<(), AnyError> {
-        let target_name = target
-            .file_name()
-            .ok_or(anyhow!("Save File Target Is Not A File Path"))?;
+        if target.file_name().is_none() {
+            return Err(anyhow!("Save File Target Is Not A File Path"));
+        }
         let mut attempt = 0;
         let (temp_path, mut file) = loop {
-            let mut temp_name = OsString::from(".");
-            temp_name.push(target_name);
-            temp_name.push(format!(".{}.{}.tmp", process::id(), attempt));
-            let temp_path = target.with_file_name(temp_name);
+            // The name does not depend on the target, which may be as long as a name can be
+            let temp_path = target.with_file_name(format!(".{}.{}.tmp", process::id(), attempt));
             match File::options()
                 .write(true)
                 .create_new(true)
-- 
2.43.0


From 9a5dd8738bc8a46b37903d89aa9eaeca0dc9a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 21/31] fix: find the relationships of a part whatever their
 letter case

---
 rs/src/global/global_2007/parts/relations.rs         | 12 +++++++++++-
 .../spreadsheet/spreadsheet_2007/parts/worksheet.rs  |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index ba5831c..5ad3fc3 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -80,7 +80,16 @@ impl RelationsPart {
         office_document: Weak<RefCell<OfficeDocument>>,
         file_name: &str,
     ) -> AnyResult<Self, AnyError> {
-        let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
+        // Letter case makes no difference between part names
+        let file_name = &office_document
+            .upgrade()
+            .and_then(|item| {
+                item.try_borrow()
+                    .ok()
+                    .and_then(|item| item.find_file_name(file_name))
+            })
+            .unwrap_or(file_name.to_string());
+        let mut xml_document = Self::get_xml_document(&office_document, file_name)?;
         let relationships = match Self::load_relations(&mut xml_document) {
             Ok(relationships) => relationships,
             Err(error) => {
@@ -186,6 +195,7 @@ impl RelationsPart {
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
+            .to_ascii_lowercase()
             .rfind("_rels/")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 175f72d..91f49f3 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1413,7 +1413,10 @@ impl WorkSheetPart {
                 .try_borrow_mut()
                 .context("Failed to Pull XML Handle")?;
             document.delete_document_mut(&self.file_path);
-            document.delete_document_mut(&RelationsPart::get_relationship_path(&self.file_path));
+            let relationship_path = RelationsPart::get_relationship_path(&self.file_path);
+            if let Some(relationship_path) = document.find_file_name(&relationship_path) {
+                document.delete_document_mut(&relationship_path);
+            }
         }
         self.close_document()
             .context("Failed to flush the worksheet")?;
-- 
2.43.0


From f6a8e8bcb7fa5ca6c37d0c051440eb23c32beb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 22/31] fix: give a new sheet a part name that differs by more
 than letter case

---
 .../spreadsheet_2007/parts/worksheet.rs       | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 91f49f3..ef77163 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -896,14 +896,18 @@ impl WorkSheetPart {
                         .try_borrow()
                         .context("Failed to Borrow Document")?;
                     loop {
-                        if document.check_file_exist(format!(
-                            "{}{}/{}{}.{}",
-                            relative_path,
-                            worksheet_content.default_path,
-                            worksheet_content.default_name,
-                            sheet_count,
-                            worksheet_content.extension
-                        )) {
+                        // Part names are unique irrespective of the case
+                        if document
+                            .find_file_name(&format!(
+                                "{}{}/{}{}.{}",
+                                relative_path,
+                                worksheet_content.default_path,
+                                worksheet_content.default_name,
+                                sheet_count,
+                                worksheet_content.extension
+                            ))
+                            .is_some()
+                        {
                             sheet_count += 1;
                         } else {
                             break;
-- 
2.43.0


From 0bb6d6bf8bf440a93c98712b86af21f0d8ea8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 23/31] fix: find the content types of a package whatever their
 letter case

---
 rs/src/files/office_document.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index d4c800a..faa33f2 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -318,14 +318,20 @@ impl OfficeDocument {
         let mut zip_read: ZipArchive<File> =
             ZipArchive::new(file).context("Archive read Failed")?;
         let mut uncompressed_file = Vec::new();
+        // Letter case makes no difference between part names
+        let content_types_name = zip_read
+            .file_names()
+            .find(|name| name.eq_ignore_ascii_case("[Content_Types].xml"))
+            .unwrap_or("[Content_Types].xml")
+            .to_string();
         zip_read
-            .by_name("[Content_Types].xml")
+            .by_name(&content_types_name)
             .context("Read [Content_Types].xml Failed")?
             .read_to_end(&mut uncompressed_file)
             .context("Failed to uncompress [Content_Types].xml")?;
         let file_names = zip_read
             .file_names()
-            .filter(|name| "[Content_Types].xml" != *name)
+            .filter(|name| content_types_name != *name)
             .map(|item| item.to_string())
             .collect::<Vec<_>>();
         let mut content_types_part =
-- 
2.43.0


From f066722addc8c0b6cc9086b955ded38e48fae922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:16 +0000
Subject: [PATCH 24/31] fix: refuse names and style settings which xml can not
 hold

---
 .../spreadsheet_2007/parts/workbook.rs        |  2 ++
 .../spreadsheet_2007/parts/worksheet.rs       |  3 +++
 .../spreadsheet_2007/services/style.rs        | 23 +++++++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index ca7151b..8c6d7d2 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -835,6 +835,8 @@ impl WorkbookPart {
         // Check if sheet with same name exist
         if new_sheet_name.is_empty() {
             Err(anyhow!("New Sheet Name can not be empty"))
+        } else if !ConverterUtil::is_valid_xml_text(new_sheet_name) {
+            Err(anyhow!("New Sheet Name has characters which can't be stored"))
         } else if self
             .sheet_collection
             .try_borrow()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index ef77163..7d93f34 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -867,6 +867,9 @@ impl WorkSheetPart {
                         }
                         return Ok((file_path, rel_id.to_string()));
                     }
+                    if !ConverterUtil::is_valid_xml_text(&sheet_name) {
+                        return Err(anyhow!("Sheet Name has characters which can't be stored"));
+                    }
                     // Sheet names are unique irrespective of the case
                     if let Some((existing_name, ..)) = sheet_collection
                         .try_borrow()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index 7e6a26c..b678545 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1214,6 +1214,29 @@ impl StylePart {
         if let Some((_, id)) = self.cache_id.get_key_value(&style_hash) {
             Ok(StyleId::new(*id))
         } else {
+            let texts = [
+                Some(&style_setting.font_family),
+                Some(&style_setting.text_color.value),
+                style_setting.custom_number_format.as_ref(),
+                style_setting.background_color.as_ref(),
+                style_setting.foreground_color.as_ref(),
+            ];
+            let border_colors = [
+                &style_setting.border_left,
+                &style_setting.border_right,
+                &style_setting.border_top,
+                &style_setting.border_bottom,
+                &style_setting.border_diagonal,
+            ]
+            .map(|item| item.border_color.as_ref().map(|color| &color.value));
+            if !texts
+                .into_iter()
+                .chain(border_colors)
+                .flatten()
+                .all(|item| ConverterUtil::is_valid_xml_text(item))
+            {
+                return Err(anyhow!("Style has characters which can't be stored"));
+            }
             let mut cell_style = CellXfs::default();
             if style_setting.number_format != NumberFormatValues::Custom {
                 cell_style.number_format_id =
-- 
2.43.0


From 32dacec7f3de615514249de569ba0e4033b30444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:58 +0000
Subject: [PATCH 25/31] fix: report failed renames and saves to foreign callers

---
 rs_ffi/src/document/word.rs            | 2 +-
 rs_ffi/src/presentation/power_point.rs | 2 +-
 rs_ffi/src/spreadsheet/excel.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs_ffi/src/document/word.rs b/rs_ffi/src/document/word.rs
index be1f0a2..bee025f 100644
--- a/rs_ffi/src/document/word.rs
+++ b/rs_ffi/src/document/word.rs
@@ -83,7 +83,7 @@ pub extern "C" fn word_save_as(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
diff --git a/rs_ffi/src/presentation/power_point.rs b/rs_ffi/src/presentation/power_point.rs
index 507b69a..cd2d2a1 100644
--- a/rs_ffi/src/presentation/power_point.rs
+++ b/rs_ffi/src/presentation/power_point.rs
@@ -83,7 +83,7 @@ pub extern "C" fn power_point_save_as(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
diff --git a/rs_ffi/src/spreadsheet/excel.rs b/rs_ffi/src/spreadsheet/excel.rs
index 639f229..a8cffc2 100644
--- a/rs_ffi/src/spreadsheet/excel.rs
+++ b/rs_ffi/src/spreadsheet/excel.rs
@@ -153,7 +153,7 @@ pub extern "C" fn excel_rename_sheet(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
-- 
2.43.0


From 082dbefba20dbd0f1512a0f50818c4037e9725f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:58 +0000
Subject: [PATCH 26/31] fix: read every font setting of a foreign caller's
 style from its own field

---
 rs_ffi/src/spreadsheet/excel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs_ffi/src/spreadsheet/excel.rs b/rs_ffi/src/spreadsheet/excel.rs
index a8cffc2..5291d5f 100644
--- a/rs_ffi/src/spreadsheet/excel.rs
+++ b/rs_ffi/src/spreadsheet/excel.rs
@@ -285,9 +285,9 @@ pub extern "C" fn get_style_id_mut(
                 // style_setting.text_color = text_color;
             }
             style_setting.is_bold = fbs_style_setting.is_bold();
-            style_setting.is_italic = fbs_style_setting.is_bold();
-            style_setting.is_underline = fbs_style_setting.is_bold();
-            style_setting.is_double_underline = fbs_style_setting.is_bold();
+            style_setting.is_italic = fbs_style_setting.is_italic();
+            style_setting.is_underline = fbs_style_setting.is_underline();
+            style_setting.is_double_underline = fbs_style_setting.is_double_underline();
             // fill
             // xfs
             style_setting.background_color =
-- 
2.43.0


From 68430205f6556180d4e0b62a72987d5319b6fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 27/31] fix: keep text which stands beside elements in parts of
 other producers

---
 rs/src/files/xml/xml_deserialize.rs | 26 +++++++++++---
 rs/src/files/xml/xml_serialize.rs   |  5 +--
 rs/src/files/xml/xml_tree.rs        | 53 ++++++++++++++++++++++++-----
 3 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index c26db60..baddea0 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -51,7 +51,11 @@ impl XmlDeSerializer {
                 master_string.push_str(Self::generate_xml_element(xml_root, true, true).as_str());
             } else {
                 master_string.push_str(Self::generate_xml_element(xml_root, false, true).as_str());
-                if let Some(value) = xml_root.get_value() {
+                if let Some(value) = xml_root
+                    .get_value()
+                    .as_ref()
+                    .filter(|_| xml_root.get_child_count() == 0)
+                {
                     master_string.push_str(&Self::generate_xml_value_close(value, xml_root));
                 } else {
                     let mut parent_id = 0;
@@ -65,6 +69,9 @@ impl XmlDeSerializer {
                             {
                                 // Pop Next Valid Child From the tree
                                 if let Some(element) = xml_document.get_element(&current_id) {
+                                    if let Some(value) = element.get_leading_value() {
+                                        master_string.push_str(&Self::escape_value(value));
+                                    }
                                     if element.is_empty_tag() {
                                         master_string.push_str(
                                             Self::generate_xml_element(element, true, false)
@@ -99,8 +106,10 @@ impl XmlDeSerializer {
                                 } else {
                                     // Travel Up as there is no active child to continue
                                     if let Some(element) = xml_document.get_element(&parent_id) {
-                                        master_string
-                                            .push_str(&Self::generate_xml_value_close("", element));
+                                        master_string.push_str(&Self::generate_xml_value_close(
+                                            element.get_value().as_deref().unwrap_or(""),
+                                            element,
+                                        ));
                                         parent_id = element.get_parent_id()
                                     }
                                 }
@@ -109,7 +118,10 @@ impl XmlDeSerializer {
                             return Err(anyhow!("Un know Element pull failed"));
                         }
                     }
-                    master_string.push_str(&Self::generate_xml_value_close("", xml_root));
+                    master_string.push_str(&Self::generate_xml_value_close(
+                        xml_root.get_value().as_deref().unwrap_or(""),
+                        xml_root,
+                    ));
                 }
             }
         }
@@ -176,11 +188,15 @@ impl XmlDeSerializer {
     fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
         format!(
             "{}</{}>",
-            escape(value).replace('\r', "&#13;"),
+            Self::escape_value(value),
             xml_element.get_tag()
         )
     }
 
+    fn escape_value(value: &str) -> String {
+        escape(value).replace('\r', "&#13;")
+    }
+
     /// Line breaks and tabs in attributes are read back as spaces unless they are escaped
     fn escape_attribute(value: &str) -> String {
         escape(value)
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index a441fef..3754180 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -131,8 +131,9 @@ impl XmlSerializer {
                         .ok_or(anyhow!("Converting Option to Result Failed"))
                         .context("Getting Target Element Failed")?;
                     if element.get_tag() == tag {
-                        element.remove_formatting_value_mut();
-                        active_xml_element_id = element.get_parent_id();
+                        let parent_id = element.get_parent_id();
+                        xml_document.remove_formatting_value_mut(&active_xml_element_id);
+                        active_xml_element_id = parent_id;
                         open_element_count -= 1;
                     } else {
                         break Err(anyhow!("Invalid XML Tree Parsing Failed."));
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 1cedf1e..c653cbe 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -279,6 +279,8 @@ impl XmlDocument {
             element.set_parent_id_mut(id.to_owned());
             self.running_id += 1;
             element.set_id_mut(self.running_id);
+            // The text so far comes before the new child
+            element.leading_value = parent_element.value.take();
             parent_element
                 .append_children_mut(self.running_id, tag)
                 .context("Failed to add Child Relation")?;
@@ -292,6 +294,40 @@ impl XmlDocument {
         }
     }
 
+    /// Drop the text which is only formatting around child elements or inside an empty element
+    pub(crate) fn remove_formatting_value_mut(&mut self, element_id: &usize) {
+        fn is_formatting(value: &Option<String>) -> bool {
+            value.as_ref().map_or(true, |item| item.trim().is_empty())
+        }
+        let Some(element) = self.xml_element_collection.get_mut(element_id) else {
+            return;
+        };
+        let child_ids: Vec<usize> = element.children.borrow().iter().map(|item| item.id).collect();
+        if child_ids.is_empty() {
+            if element.value.as_ref().map_or(false, |item| item.is_empty()) {
+                element.value = None;
+            }
+            return;
+        }
+        let is_mixed = !is_formatting(&element.value)
+            || child_ids.iter().any(|child_id| {
+                self.xml_element_collection
+                    .get(child_id)
+                    .map_or(false, |child| !is_formatting(&child.leading_value))
+            });
+        if is_mixed {
+            return;
+        }
+        for id in child_ids.iter() {
+            if let Some(child) = self.xml_element_collection.get_mut(id) {
+                child.leading_value = None;
+            }
+        }
+        if let Some(element) = self.xml_element_collection.get_mut(element_id) {
+            element.value = None;
+        }
+    }
+
     /// Add an element which was taken out of its parent to another parent
     pub(crate) fn append_element_mut(
         &mut self,
@@ -487,6 +523,8 @@ pub(crate) struct XmlElement {
     attributes: Option<HashMap<String, String>>,
     /// Internal Value of the
     value: Option<String>,
+    /// Text between the previous element of the same parent and this element
+    leading_value: Option<String>,
     /// Child Element Names to pull up nodes quickly
     children: Rc<RefCell<Vec<XmlElementChild>>>,
     // ######################## Document Parts ##########################
@@ -507,6 +545,7 @@ impl XmlElement {
                 tag: tag.to_string(),
                 attributes: None,
                 value: None,
+                leading_value: None,
                 children: Rc::new(RefCell::new(Vec::new())),
                 namespace_collection_ref: namespace_collection,
             })
@@ -522,6 +561,7 @@ impl XmlElement {
             tag: self.tag.clone(),
             attributes: self.attributes.clone(),
             value: self.value.clone(),
+            leading_value: self.leading_value.clone(),
             children: Rc::new(RefCell::new(self.children.borrow().clone())),
             namespace_collection_ref: namespace_collection,
         }
@@ -591,6 +631,10 @@ impl XmlElement {
         &self.value
     }
 
+    pub(crate) fn get_leading_value(&self) -> &Option<String> {
+        &self.leading_value
+    }
+
     pub(crate) fn get_id(&self) -> usize {
         self.id
     }
@@ -699,15 +743,6 @@ impl XmlElement {
         self
     }
 
-    /// Drop the text which is only formatting around child elements or inside an empty element
-    pub(crate) fn remove_formatting_value_mut(&mut self) {
-        if let Some(value) = &self.value {
-            if self.children.borrow().len() > 0 || value.is_empty() {
-                self.value = None;
-            }
-        }
-    }
-
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
         self.children
             .try_borrow_mut()
-- 
2.43.0


From dbf75edf69fbe3a599aa7fec37706d74f1359961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:24 +0000
Subject: [PATCH 28/31] fix: read parts which other producers stored as utf-16

---
 rs/src/files/xml/xml_serialize.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 3754180..0058d7f 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -19,6 +19,7 @@ impl XmlSerializer {
         xml_str: Vec<u8>,
         file_name: &str,
     ) -> AnyResult<XmlDocument, AnyError> {
+        let xml_str = Self::get_utf8(xml_str).context("Decoding Xml Content Failed")?;
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
         log_elapsed!(
@@ -44,6 +45,29 @@ impl XmlSerializer {
         Ok(xml_document)
     }
 
+    /// Parts of other producers can be stored as UTF-16
+    fn get_utf8(xml_str: Vec<u8>) -> AnyResult<Vec<u8>, AnyError> {
+        let is_big_endian = match xml_str.get(..2) {
+            Some([0xFE, 0xFF]) => true,
+            Some([0xFF, 0xFE]) => false,
+            _ => return Ok(xml_str),
+        };
+        if xml_str.len() % 2 != 0 {
+            return Err(anyhow!("UTF-16 content ended inside a character"));
+        }
+        let units = xml_str[2..].chunks_exact(2).map(|unit| {
+            if is_big_endian {
+                u16::from_be_bytes([unit[0], unit[1]])
+            } else {
+                u16::from_le_bytes([unit[0], unit[1]])
+            }
+        });
+        Ok(char::decode_utf16(units)
+            .collect::<Result<String, _>>()
+            .context("Content is not valid UTF-16")?
+            .into_bytes())
+    }
+
     fn xml_element_parser(
         reader: &mut NsReader<Cursor<Vec<u8>>>,
         xml_document: &mut XmlDocument,
-- 
2.43.0


From 767bcb1b74fc70f9f564c47cda3e2270038147eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:19 +0000
Subject: [PATCH 29/31] fix: read line breaks and tabs of other producers as
 xml defines them

---
 rs/src/files/xml/xml_serialize.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 0058d7f..652e953 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -2,6 +2,7 @@ use crate::element_dictionary::{COMMON_TYPE_COLLECTION, EXCEL_TYPE_COLLECTION};
 use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
+use quick_xml::escape::unescape;
 use quick_xml::events::BytesStart;
 use quick_xml::{
     events::{
@@ -132,7 +133,9 @@ impl XmlSerializer {
 
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
-                    let text = byte_text.unescape().context("XML Text parsing error")?;
+                    let text = std::str::from_utf8(&byte_text).context("XML Text parsing error")?;
+                    let text = Self::normalize_line_breaks(text);
+                    let text = unescape(&text).context("XML Text parsing error")?;
                     // Text outside the root element is formatting only
                     if open_element_count > 0 {
                         Self::append_text(xml_document, &active_xml_element_id, &text)?;
@@ -142,7 +145,8 @@ impl XmlSerializer {
                 // Read unescaped text content
                 Result::Ok(Event::CData(byte_text)) => {
                     let text = std::str::from_utf8(&byte_text).context("XML CData parsing error")?;
-                    Self::append_text(xml_document, &active_xml_element_id, text)?;
+                    let text = Self::normalize_line_breaks(text);
+                    Self::append_text(xml_document, &active_xml_element_id, &text)?;
                 }
 
                 // Handle end tag
@@ -179,6 +183,11 @@ impl XmlSerializer {
         }
     }
 
+    /// Line breaks which are not escaped are the same whatever their form
+    fn normalize_line_breaks(text: &str) -> String {
+        text.replace("\r\n", "\n").replace('\r', "\n")
+    }
+
     /// Add to the text of the element, comments split the text of one element in many events
     fn append_text(
         xml_document: &mut XmlDocument,
@@ -201,8 +210,11 @@ impl XmlSerializer {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
                 let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = attribute
-                    .unescape_value()
+                // Line breaks and tabs which are not escaped stand for spaces
+                let value = std::str::from_utf8(&attribute.value)
+                    .context("Failed to decode attribute")?;
+                let value = Self::normalize_line_breaks(value).replace(['\n', '\t'], " ");
+                let value: String = unescape(&value)
                     .context("Failed to unescape attribute")?
                     .to_string();
                 Ok((key, value))
-- 
2.43.0


From 4a0e5681b96b48a6772f500fcac99c8a120243c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 30/31] fix: keep elements the order does not list where they
 stand

---
 rs/src/files/xml/xml_tree.rs                  | 31 ++++++++++++++++---
 rs/src/global/references/order_dictionary.rs  |  2 +-
 .../spreadsheet_2007/parts/workbook.rs        |  7 +++++
 .../spreadsheet_2007/parts/worksheet.rs       |  7 +++++
 .../spreadsheet_2007/services/style.rs        |  5 +++
 5 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c653cbe..8b375a6 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -509,6 +509,8 @@ impl XmlDocument {
 pub(crate) struct XmlElementChild {
     id: usize,
     tag: String,
+    /// Place among the ordered elements, if the tag itself does not tell
+    order: Option<usize>,
 }
 /// Normalized XML representation
 #[derive(Debug)]
@@ -668,18 +670,31 @@ impl XmlElement {
         self.attributes.as_mut()
     }
 
+    /// Elements the order does not list stay where they are now between the listed ones
+    pub(crate) fn keep_child_order_mut(&mut self, order_skeleton: &[&str]) {
+        let mut place = 0;
+        for child in self.children.borrow_mut().iter_mut() {
+            if let Some(index) = order_skeleton.iter().position(|item| *item == child.tag) {
+                place = index + 1;
+            } else {
+                child.order = Some(place);
+            }
+        }
+    }
+
     pub(crate) fn order_child_mut(&mut self, order_skeleton: &[&str]) -> AnyResult<(), AnyError> {
         if self.children.borrow_mut().len() > 0 && order_skeleton.len() > 0 {
             let order_map: std::collections::HashMap<&str, usize> = order_skeleton
                 .iter()
                 .enumerate()
-                .map(|(index, &tag)| (tag, index))
+                .map(|(index, &tag)| (tag, index + 1))
                 .collect();
             self.children.borrow_mut().sort_by_key(|item| {
-                order_map
-                    .get(item.tag.as_str())
-                    .cloned()
-                    .unwrap_or(usize::MAX)
+                match (order_map.get(item.tag.as_str()), item.order) {
+                    (Some(place), _) => (*place, false),
+                    (None, Some(place)) => (place, true),
+                    (None, None) => (usize::MAX, true),
+                }
             });
         }
         Ok(())
@@ -750,6 +765,7 @@ impl XmlElement {
             .push(XmlElementChild {
                 id: child_id,
                 tag: tag.to_string(),
+                order: None,
             });
         Ok(())
     }
@@ -762,6 +778,7 @@ impl XmlElement {
                 XmlElementChild {
                     id: child_id,
                     tag: tag.to_string(),
+                    order: None,
                 },
             );
         } else {
@@ -770,6 +787,7 @@ impl XmlElement {
                 XmlElementChild {
                     id: child_id,
                     tag: tag.to_string(),
+                    order: None,
                 },
             );
         }
@@ -783,12 +801,14 @@ impl XmlElement {
                 XmlElementChild {
                     id: child_id,
                     tag: tag.to_string(),
+                    order: None,
                 },
             );
         } else {
             children.push(XmlElementChild {
                 id: child_id,
                 tag: tag.to_string(),
+                order: None,
             });
         }
     }
@@ -799,6 +819,7 @@ impl XmlElement {
             XmlElementChild {
                 id: child_id,
                 tag: tag.to_string(),
+                order: None,
             },
         );
     }
diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index a60eb2e..84c1ca9 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -3,7 +3,7 @@ use phf::{phf_map, Map};
 pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static str]> = phf_map! {
     "workbook" => &[
         "fileVersion", "fileSharing", "workbookPr",
-        "mc:AlternateContent", "xr:revisionPtr", "workbookProtection",
+        "xr:revisionPtr", "workbookProtection",
         "bookViews", "sheets", "functionGroups", "externalReferences",
         "definedNames", "calcPr", "oleSize", "customWorkbookViews",
         "pivotCaches", "smartTagPr", "smartTagTypes", "webPublishing",
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 8c6d7d2..b4b6439 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -451,6 +451,13 @@ impl WorkbookPart {
                     let mut xml_doc_mut = xml_document
                         .try_borrow_mut()
                         .context("xml doc borrow failed")?;
+                    if let Some(root) = xml_doc_mut.get_root_mut() {
+                        root.keep_child_order_mut(
+                            EXCEL_ORDER_COLLECTION
+                                .get("workbook")
+                                .ok_or(anyhow!("Failed to get workbook default order"))?,
+                        );
+                    }
                     // Read Book View for sheet collection data
                     if let Some(workbook_view_element) = xml_doc_mut
                         .get_first_element_mut(vec!["workbook", "bookViews", "workbookView"], None)
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 7d93f34..ed0f98c 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -317,6 +317,13 @@ impl WorkSheetPart {
             if xml_doc_mut.get_root().map(|root| root.get_tag()) != Some("worksheet") {
                 return Err(anyhow!("The sheet is not a worksheet"));
             }
+            if let Some(root) = xml_doc_mut.get_root_mut() {
+                root.keep_child_order_mut(
+                    EXCEL_ORDER_COLLECTION
+                        .get("worksheet")
+                        .ok_or(anyhow!("Failed to get worksheet default order"))?,
+                );
+            }
             // unwrap dimension
             xml_doc_mut.pop_elements_by_tag_mut("dimension", None);
             // unwrap columns to local collection
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index b678545..c82befe 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -633,6 +633,11 @@ impl StylePart {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("xml doc borrow failed")?;
+            if let Some(root) = xml_doc_mut.get_root_mut() {
+                if let Some(order) = EXCEL_ORDER_COLLECTION.get("styleSheet") {
+                    root.keep_child_order_mut(order);
+                }
+            }
             // Create Number Formats Elements
             {
                 let source_count = self.source_count["numFmts"];
-- 
2.43.0


From 38b60642d10bf6735dda68ffb2c9ff3df2fe8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 31/31] fix: accept every name XML allows for elements and
 attributes

---
 rs/src/files/xml/xml_tree.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 8b375a6..136d10f 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -571,10 +571,20 @@ impl XmlElement {
 
     fn is_valid_xml_name(name: &str) -> bool {
         fn is_name_start_char(c: char) -> bool {
-            c.is_ascii_alphabetic() || c == '_' || c.is_alphabetic()
+            c.is_ascii_alphabetic()
+                || c == '_'
+                || matches!(c, '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
+                    | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
+                    | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
+                    | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
         }
         fn is_name_char(c: char) -> bool {
-            is_name_start_char(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == ':'
+            is_name_start_char(c)
+                || c.is_ascii_digit()
+                || c == '-'
+                || c == '.'
+                || c == ':'
+                || matches!(c, '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
         }
         if name.is_empty() {
             return false;
-- 
2.43.0

