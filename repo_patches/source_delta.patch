From 4ae4c5c1b86b56a498085a5f61ce46ac61956d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 01/19] fix: encode every element kind present in a data block,
 not only the first one

---
 src/osm/pbf/osm_data.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index fd3deba..6660a59 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -356,20 +356,23 @@ impl OsmData {
                 Element::Sentinel => {}
             }
         }
-        let mut primitivegroup = PrimitiveGroup::default();
-        if dense_group_builder.is_some() {
-            primitivegroup = dense_group_builder.unwrap().build();
-        } else if ways_group_builder.is_some() {
-            primitivegroup = ways_group_builder.unwrap().build();
-        } else if relations_group_builder.is_some() {
-            primitivegroup = relations_group_builder.unwrap().build();
+        // a primitive group holds elements of a single type - emit one group for each type present
+        let mut primitivegroup = Vec::<PrimitiveGroup>::new();
+        if let Some(mut builder) = dense_group_builder {
+            primitivegroup.push(builder.build());
+        }
+        if let Some(mut builder) = ways_group_builder {
+            primitivegroup.push(builder.build());
+        }
+        if let Some(mut builder) = relations_group_builder {
+            primitivegroup.push(builder.build());
         }
 
         let stringtable = string_table_builder.build();
 
         let primitive_block = PrimitiveBlock {
             stringtable,
-            primitivegroup: vec![primitivegroup],
+            primitivegroup,
             granularity: Some(granularity),
             lat_offset: Some(lat_offset),
             lon_offset: Some(lon_offset),
-- 
2.43.0


From 5d6b32ec3bf357bd55b13c1b1b7b5c9c689f2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 02/19] fix: order Element::Sentinel after every other element

---
 src/osm/model/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm/model/element.rs b/src/osm/model/element.rs
index 2d227a9..80a6ca0 100644
--- a/src/osm/model/element.rs
+++ b/src/osm/model/element.rs
@@ -300,13 +300,13 @@ impl Ord for Element {
             Element::Sentinel => {
                 match other {
                     Element::Node { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Way { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Relation { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Sentinel => {
                         Ordering::Equal
-- 
2.43.0


From df220da4818d7fc0d0b6cc694dd0b827d4467751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 03/19] fix: round header bounding box to nanodegrees instead
 of truncating it

---
 src/osm/pbf/osm_header.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/osm_header.rs b/src/osm/pbf/osm_header.rs
index fac0fab..cf80fe6 100644
--- a/src/osm/pbf/osm_header.rs
+++ b/src/osm/pbf/osm_header.rs
@@ -62,10 +62,10 @@ impl OsmHeader {
 
     fn header_bbox(&self) -> Option<osmpbf::HeaderBBox> {
         self.info.bounding_box().as_ref().map(|bounding_box| osmpbf::HeaderBBox {
-            left: (bounding_box.left() * NANODEG) as i64,
-            right: (bounding_box.right() * NANODEG) as i64,
-            top: (bounding_box.top() * NANODEG) as i64,
-            bottom: (bounding_box.bottom() * NANODEG) as i64,
+            left: (bounding_box.left() * NANODEG).round() as i64,
+            right: (bounding_box.right() * NANODEG).round() as i64,
+            top: (bounding_box.top() * NANODEG).round() as i64,
+            bottom: (bounding_box.bottom() * NANODEG).round() as i64,
         })
     }
 
-- 
2.43.0


From e0c812650d127a193545966613fb46697be09788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 04/19] fix: reject elements that belong inside an already
 flushed block of ParallelWriter

---
 src/osm/pbf/parallel_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a53e951..5bc693b 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -39,7 +39,7 @@ fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         let elements = split_file_block(element_ordering_buffer);
-        set_current_min_element(elements.first());
+        set_current_min_element(elements.last());
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -54,7 +54,7 @@ fn flush_all_sorted() {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         while !element_ordering_buffer.borrow().is_empty() {
             let elements = split_file_block(element_ordering_buffer);
-            set_current_min_element(elements.first());
+            set_current_min_element(elements.last());
             NEXT_THREAD_POOL.with(|thread_pool| {
                 let thread_pool = thread_pool.borrow();
                 let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
-- 
2.43.0


From 087813b383896ffb77b7a8e2d279d367f2289e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 05/19] fix: keep the order of relation members when sorting an
 apidb dump

---
 src/osm/apidb_dump/read/table_pkey.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osm/apidb_dump/read/table_pkey.rs b/src/osm/apidb_dump/read/table_pkey.rs
index 121b3c9..5ab9649 100644
--- a/src/osm/apidb_dump/read/table_pkey.rs
+++ b/src/osm/apidb_dump/read/table_pkey.rs
@@ -50,10 +50,11 @@ impl TablePkey {
                 // ADD CONSTRAINT relation_members_pkey PRIMARY KEY (relation_id, version, member_type, member_id, member_role, sequence_id);
                 key.push(Field::new(Self::index("relation_id", &fields)?, FieldType::Integer).with_str_name("relation_id"));
                 key.push(Field::new(Self::index("version", &fields)?, FieldType::Integer).with_str_name("version"));
+                // sequence_id goes first to preserve the order of members
+                key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
                 key.push(Field::new(Self::index("member_type", &fields)?, FieldType::String).with_str_name("member_type"));
                 key.push(Field::new(Self::index("member_id", &fields)?, FieldType::Integer).with_str_name("member_id"));
                 key.push(Field::new(Self::index("member_role", &fields)?, FieldType::String).with_str_name("member_role"));
-                key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
             }
             "public.relation_tags" => {
                 // ADD CONSTRAINT relation_tags_pkey PRIMARY KEY (relation_id, version, k);
-- 
2.43.0


From 6ca738433b5d379ba7025503e89fee770ab0151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 06/19] fix: escape and unescape apidb dump text columns the
 way Postgresql COPY does

---
 src/osm/apidb_dump/read/table_reader.rs | 21 ++++++-------
 src/osm/apidb_dump/sql.rs               | 41 +++++++++++++++++++++++++
 src/osm/apidb_dump/write/writer.rs      | 18 +++++------
 3 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ee4abbc..29c5b1b 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -4,7 +4,6 @@ use std::io::prelude::*;
 use std::str::FromStr;
 
 use anyhow::anyhow;
-use unescape::unescape;
 
 use crate::osm::apidb_dump::read::changeset_record::ChangesetRecord;
 use crate::osm::apidb_dump::read::node_record::NodeRecord;
@@ -19,7 +18,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape_copy_text};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
@@ -182,8 +181,8 @@ impl TableReader {
                         node_tag_record: NodeTagRecord::new(
                             i64::from_str(columns[*node_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_copy_text(columns[*k]),
+                            unescape_copy_text(columns[*v]),
                         )
                     }
                 )
@@ -261,8 +260,8 @@ impl TableReader {
                         way_tag_record: WayTagRecord::new(
                             i64::from_str(columns[*way_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_copy_text(columns[*k]),
+                            unescape_copy_text(columns[*v]),
                         )
                     }
                 )
@@ -318,7 +317,7 @@ impl TableReader {
                             i64::from_str(columns[*relation_id]).unwrap(),
                             RelationMemberType::try_from(columns[*member_type]).unwrap(),
                             i64::from_str(columns[*member_id]).unwrap(),
-                            unescape(columns[*member_role]).unwrap_or(columns[*member_role].to_string()),
+                            unescape_copy_text(columns[*member_role]),
                             i64::from_str(columns[*version]).unwrap(),
                             i64::from_str(columns[*sequence_id]).unwrap(),
                         )
@@ -344,8 +343,8 @@ impl TableReader {
                         relation_tag_record: RelationTagRecord::new(
                             i64::from_str(columns[*relation_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_copy_text(columns[*k]),
+                            unescape_copy_text(columns[*v]),
                         )
                     }
                 )
@@ -431,9 +430,9 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             columns[*pass_crypt].to_string(),
                             parse_sql_time(columns[*creation_time]).unwrap(),
-                            columns[*display_name].to_string(),
+                            unescape_copy_text(columns[*display_name]),
                             parse_sql_bool(columns[*data_public]).unwrap(),
-                            columns[*description].to_string(),
+                            unescape_copy_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
                             i16::from_str(columns[*home_zoom]).unwrap(),
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index f3cd056..64d4d56 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -35,6 +35,47 @@ pub(crate) fn parse_sql_null_string(s: &str) -> Option<String> {
     }
 }
 
+/// Escape a value of a text column according to Postgresql COPY text format
+pub(crate) fn escape_copy_text(s: &str) -> String {
+    let mut result = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => { result.push_str("\\\\") }
+            '\u{0008}' => { result.push_str("\\b") }
+            '\u{000C}' => { result.push_str("\\f") }
+            '\n' => { result.push_str("\\n") }
+            '\r' => { result.push_str("\\r") }
+            '\t' => { result.push_str("\\t") }
+            '\u{000B}' => { result.push_str("\\v") }
+            _ => { result.push(c) }
+        }
+    }
+    result
+}
+
+/// Restore a value of a text column from Postgresql COPY text format
+pub(crate) fn unescape_copy_text(s: &str) -> String {
+    let mut result = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            result.push(c);
+            continue;
+        }
+        match chars.next() {
+            None => { result.push(c) }
+            Some('b') => { result.push('\u{0008}') }
+            Some('f') => { result.push('\u{000C}') }
+            Some('n') => { result.push('\n') }
+            Some('r') => { result.push('\r') }
+            Some('t') => { result.push('\t') }
+            Some('v') => { result.push('\u{000B}') }
+            Some(e) => { result.push(e) }
+        }
+    }
+    result
+}
+
 pub(crate) fn to_sql_time_millis(t: i64) -> String {
     let datetime = DateTime::from_timestamp_millis(t).unwrap();
     let sql_time: String = datetime.to_rfc3339_opts(SecondsFormat::Secs, true);
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 626a4ff..d06eec5 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -3,9 +3,8 @@ use std::io::Write;
 use std::path::PathBuf;
 
 use anyhow::{Context, Error};
-use escape_string::escape;
 
-use crate::osm::apidb_dump::sql::{calculate_tile, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
+use crate::osm::apidb_dump::sql::{calculate_tile, escape_copy_text, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
 use crate::osm::apidb_dump::write::table_data_writers::TableDataWriters;
 use crate::osm::apidb_dump::write::toc::{load_template_mapping, write_toc};
@@ -121,8 +120,8 @@ impl Writer {
         for tag in tags {
             // public.node_tags (node_id, version, k, v)
             // template context: 4259.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_copy_text(tag.k());
+            let escaped_tag = escape_copy_text(tag.v());
             let node_tag_line = format!("{}\t{}\t{}\t{}\n",
                                         node.id(),
                                         node.version(),
@@ -196,8 +195,8 @@ impl Writer {
         for tag in way.take_tags() {
             // public.current_way_tags (way_id, k, v)
             // template context: 4235.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_copy_text(tag.k());
+            let escaped_tag = escape_copy_text(tag.v());
             let current_way_tag_line = format!("{}\t{}\t{}\n",
                                                way.id(),
                                                escaped_key,
@@ -277,7 +276,7 @@ impl Writer {
 
             // public.current_relation_members (relation_id, member_type, member_id, member_role, sequence_id)
             // template context: 4230.dat
-            let escaped_role = escape(member_role);
+            let escaped_role = escape_copy_text(member_role);
             let current_relation_member_line = format!("{}\t{}\t{}\t{}\t{}\n",
                                                        relation.id(),
                                                        member_type,
@@ -314,8 +313,8 @@ impl Writer {
         for tag in relation.take_tags() {
             // public.current_relation_tags (relation_id, k, v)
             // template context: 4231.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_copy_text(tag.k());
+            let escaped_tag = escape_copy_text(tag.v());
             let current_relation_tag_line = format!("{}\t{}\t{}\n",
                                                     relation.id(),
                                                     escaped_key,
@@ -422,6 +421,7 @@ impl Writer {
         // template context: 4290.dat
         for element in self.writers.user_index.range(..)? {
             let (user_id, user_name) = element?;
+            let user_name = escape_copy_text(&user_name);
 
             let t = chrono::offset::Utc::now();
             let osm_admin_user = format!("osm-admin-user-{}@example.com", user_id);
-- 
2.43.0


From 6d7aba006585884f69381d9a0c8c00e9f270b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 07/19] fix: include every node in bounding boxes and report a
 missing bounding box as an error

---
 src/osm/pbf/bounding_box_calculator.rs   | 4 +++-
 src/osm/pbf/calc_bounding_box_command.rs | 4 +---
 src/osm/pbf/osm_data.rs                  | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d9806f6..fd0b477 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -1,6 +1,7 @@
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 
+use anyhow::anyhow;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
@@ -47,6 +48,7 @@ impl BoundingBoxCalculator {
         tp.shutdown();
         tp.join()?;
         let mut result_guard = result.lock().unwrap();
-        Ok(result_guard.take().unwrap())
+        result_guard.take()
+            .ok_or_else(|| anyhow!("No nodes to calculate the bounding box from in {}", self.path.display()))
     }
 }
diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index 4244201..b66c254 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -39,9 +39,7 @@ impl Command for CalcBoundingBoxCommand {
                             bounding_box.as_mut().unwrap().merge_point(node.coordinate());
                         }
                     }
-                    _ => {
-                        break;
-                    }
+                    _ => {}
                 }
             }
             if bounding_box.is_some() {
diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index 6660a59..70c050f 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -77,9 +77,9 @@ impl OsmData {
                         result.as_mut().unwrap().merge_point(node.coordinate());
                     }
                 }
-                Element::Way { .. } => { break; }
-                Element::Relation { .. } => { break; }
-                Element::Sentinel => { break; }
+                Element::Way { .. } => {}
+                Element::Relation { .. } => {}
+                Element::Sentinel => {}
             }
         }
         result
-- 
2.43.0


From 98e6c07fa1740de183b4ebea143a180f4167bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 08/19] fix: accept relations directly after nodes in Writer

---
 src/osm/pbf/element_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/element_accumulator.rs b/src/osm/pbf/element_accumulator.rs
index 70eaa6b..33bc49e 100644
--- a/src/osm/pbf/element_accumulator.rs
+++ b/src/osm/pbf/element_accumulator.rs
@@ -43,7 +43,10 @@ impl ElementAccumulator {
                         self.add(element);
                     }
                     Element::Relation { .. } => {
-                        panic!("expected Element::Node or Element::Way but got Element::Relation");
+                        self.state = State::Relations;
+                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                        self.index += 1;
+                        self.add(element);
                     }
                     Element::Sentinel => {}
                 }
-- 
2.43.0


From e7c009fac91c929332d8f83879167de98ff1a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 09/19] fix: continue iteration over elements past a header
 block inside of the file

---
 src/osm/pbf/element_iterator.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 256dd25..81125b8 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -23,15 +23,13 @@ impl ElementIterator {
 
     #[allow(clippy::collapsible_match)]
     fn create_element_iterator(file_block_iterator: &mut FileBlockIterator) -> Option<IntoIter<Element>> {
-        if let Some(current_block) = file_block_iterator.next() {
+        // skip blocks that do not contain data, such as headers inside of concatenated files
+        for current_block in file_block_iterator.by_ref() {
             if let FileBlock::Data { metadata: _, mut data } = current_block {
-                Some(data.take_elements().into_iter())
-            } else {
-                None
+                return Some(data.take_elements().into_iter());
             }
-        } else {
-            None
         }
+        None
     }
 }
 
-- 
2.43.0


From 083c1396bb9cbf79f3c1bf8ace6dafcb2564cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 10/19] fix: read null bounds of changesets and null home zoom
 of users from apidb dumps

---
 src/osm/apidb_dump/read/changeset_record.rs | 24 ++++++++++-----------
 src/osm/apidb_dump/read/table_reader.rs     | 10 ++++-----
 src/osm/apidb_dump/read/user_record.rs      |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/changeset_record.rs b/src/osm/apidb_dump/read/changeset_record.rs
index 928bacc..086d489 100644
--- a/src/osm/apidb_dump/read/changeset_record.rs
+++ b/src/osm/apidb_dump/read/changeset_record.rs
@@ -5,10 +5,10 @@ pub(crate) struct ChangesetRecord {
     id: i64,
     user_id: i64,
     created_at: NaiveDateTime,
-    min_lat: i32,
-    max_lat: i32,
-    min_lon: i32,
-    max_lon: i32,
+    min_lat: Option<i32>,
+    max_lat: Option<i32>,
+    min_lon: Option<i32>,
+    max_lon: Option<i32>,
     closed_at: NaiveDateTime,
     num_changes: i32,
 }
@@ -19,10 +19,10 @@ impl ChangesetRecord {
         id: i64,
         user_id: i64,
         created_at: NaiveDateTime,
-        min_lat: i32,
-        max_lat: i32,
-        min_lon: i32,
-        max_lon: i32,
+        min_lat: Option<i32>,
+        max_lat: Option<i32>,
+        min_lon: Option<i32>,
+        max_lon: Option<i32>,
         closed_at: NaiveDateTime,
         num_changes: i32,
     ) -> ChangesetRecord {
@@ -53,22 +53,22 @@ impl ChangesetRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lat(&self) -> i32 {
+    pub(crate) fn min_lat(&self) -> Option<i32> {
         self.min_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lat(&self) -> i32 {
+    pub(crate) fn max_lat(&self) -> Option<i32> {
         self.max_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lon(&self) -> i32 {
+    pub(crate) fn min_lon(&self) -> Option<i32> {
         self.min_lon
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lon(&self) -> i32 {
+    pub(crate) fn max_lon(&self) -> Option<i32> {
         self.max_lon
     }
 
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 29c5b1b..bd3074b 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -374,10 +374,10 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             i64::from_str(columns[*user_id]).unwrap(),
                             parse_sql_time(columns[*created_at]).unwrap(),
-                            i32::from_str(columns[*min_lat]).unwrap(),
-                            i32::from_str(columns[*max_lat]).unwrap(),
-                            i32::from_str(columns[*min_lon]).unwrap(),
-                            i32::from_str(columns[*max_lon]).unwrap(),
+                            i32::from_str(columns[*min_lat]).ok(),
+                            i32::from_str(columns[*max_lat]).ok(),
+                            i32::from_str(columns[*min_lon]).ok(),
+                            i32::from_str(columns[*max_lon]).ok(),
                             parse_sql_time(columns[*closed_at]).unwrap(),
                             i32::from_str(columns[*num_changes]).unwrap(),
                         )
@@ -435,7 +435,7 @@ impl TableReader {
                             unescape_copy_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
-                            i16::from_str(columns[*home_zoom]).unwrap(),
+                            i16::from_str(columns[*home_zoom]).ok(),
                             parse_sql_null_string(columns[*pass_salt]),
                             parse_sql_bool(columns[*email_valid]).unwrap(),
                             parse_sql_null_string(columns[*new_email]),
diff --git a/src/osm/apidb_dump/read/user_record.rs b/src/osm/apidb_dump/read/user_record.rs
index d0d9670..df15ff7 100644
--- a/src/osm/apidb_dump/read/user_record.rs
+++ b/src/osm/apidb_dump/read/user_record.rs
@@ -76,7 +76,7 @@ pub(crate) struct UserRecord {
     description: String,
     home_lat: Option<f64>,
     home_lon: Option<f64>,
-    home_zoom: i16,
+    home_zoom: Option<i16>,
     pass_salt: Option<String>,
     email_valid: bool,
     new_email: Option<String>,
@@ -110,7 +110,7 @@ impl UserRecord {
         description: String,
         home_lat: Option<f64>,
         home_lon: Option<f64>,
-        home_zoom: i16,
+        home_zoom: Option<i16>,
         pass_salt: Option<String>,
         email_valid: bool,
         new_email: Option<String>,
@@ -208,7 +208,7 @@ impl UserRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn home_zoom(&self) -> i16 {
+    pub(crate) fn home_zoom(&self) -> Option<i16> {
         self.home_zoom
     }
 
-- 
2.43.0


From b699dfa4cd6d400646d955e7ddf40c13a21267ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 11/19] fix: return the errors of worker threads instead of
 panicking when joining them

---
 src/osm/pbf/bounding_box_calculator.rs | 2 ++
 src/osm/pbf/parallel_writer.rs         | 2 ++
 src/osm/pbf/reader.rs                  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index fd0b477..dbdae56 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -26,6 +26,8 @@ impl BoundingBoxCalculator {
             .with_tasks(num_cpus::get())
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
+            // the default handler panics in the joining thread, join() reports the error
+            .with_join_error_handler(|name, message| log::error!("Thread {name} ended with an error {message}"))
             .build()?;
 
         let result = Arc::new(
diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 5bc693b..87f07ea 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -411,6 +411,8 @@ impl ParallelWriter {
                         .with_tasks(tasks)
                         .with_queue_size(queue_size)
                         .with_shutdown_mode(ShutdownMode::CompletePending)
+                        // the default handler panics in the joining thread, join() reports the error
+                        .with_join_error_handler(|name, message| log::error!("Thread {name} ended with an error {message}"))
                         .build()?
                 )
             )
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 57db0df..dbae7ce 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -186,6 +186,8 @@ impl Reader {
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
+            // the default handler panics in the joining thread, join() reports the error
+            .with_join_error_handler(|name, message| log::error!("Thread {name} ended with an error {message}"))
             .build()?;
 
         let f_wrapper = Arc::new(f);
-- 
2.43.0


From 96af95c5e5886047f9e1df6c7cc39a7745659058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 12/19] fix: report a file that cannot be read to its end
 instead of processing its beginning as the whole file

---
 src/osm/pbf/blob_iterator.rs           | 48 +++++++++++++++++++-------
 src/osm/pbf/bounding_box_calculator.rs |  4 ++-
 src/osm/pbf/reader.rs                  |  5 +--
 3 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index a3ff881..96cbe7c 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -14,6 +14,7 @@ pub struct BlobIterator {
     file: File,
     jump: u64,
     index: usize,
+    error: Option<anyhow::Error>,
 }
 
 impl BlobIterator {
@@ -26,29 +27,52 @@ impl BlobIterator {
                 file,
                 jump: 0,
                 index: 0,
+                error: None,
             }
         )
     }
-}
 
-impl Iterator for BlobIterator {
-    type Item = osm::pbf::blob_desc::BlobDesc;
+    /// The error that ended the iteration before the end of the file, if any
+    pub(crate) fn into_result(self) -> Result<(), anyhow::Error> {
+        match self.error {
+            None => Ok(()),
+            Some(e) => Err(e),
+        }
+    }
 
-    fn next(&mut self) -> Option<Self::Item> {
-        self.file.seek(SeekFrom::Current(self.jump as i64)).ok()?;
+    fn read_blob_desc(&mut self) -> Result<Option<osm::pbf::blob_desc::BlobDesc>, anyhow::Error> {
+        let position = self.file.seek(SeekFrom::Current(self.jump as i64))?;
+        self.jump = 0;
+        if position == self.file.metadata()?.len() {
+            return Ok(None);
+        }
         let mut header_len_buffer = [0_u8; 4];
-        self.file.read_exact(&mut header_len_buffer).ok()?;
+        self.file.read_exact(&mut header_len_buffer)?;
         let blob_header_len = i32::from_be_bytes(header_len_buffer);
         let mut blob_header_buffer = vec![0; blob_header_len as usize];
-        self.file.read_exact(&mut blob_header_buffer).ok()?;
-        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer)).ok()?;
-        let current_offset = self.file.stream_position().ok()?;
+        self.file.read_exact(&mut blob_header_buffer)?;
+        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))?;
+        let current_offset = self.file.stream_position()?;
         let length = blob_header.datasize as u64;
         self.jump = length;
         let index = self.index;
         self.index.add_assign(1);
-        Some(
-            osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+        Ok(
+            Some(
+                osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+            )
         )
     }
-}
\ No newline at end of file
+}
+
+impl Iterator for BlobIterator {
+    type Item = osm::pbf::blob_desc::BlobDesc;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.read_blob_desc()
+            .unwrap_or_else(|e| {
+                self.error = Some(e.context(format!("Failed to read blob {} from {:?}", self.index, self.path)));
+                None
+            })
+    }
+}
diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index dbdae56..e148a63 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -36,7 +36,8 @@ impl BoundingBoxCalculator {
             )
         );
         let reader = Reader::new(&self.path)?;
-        for blob in reader.blobs()? {
+        let mut blobs = reader.blobs()?;
+        for blob in blobs.by_ref() {
             tp.submit(
                 Box::new(
                     CalcBoundingBoxCommand::new(
@@ -49,6 +50,7 @@ impl BoundingBoxCalculator {
 
         tp.shutdown();
         tp.join()?;
+        blobs.into_result()?;
         let mut result_guard = result.lock().unwrap();
         result_guard.take()
             .ok_or_else(|| anyhow!("No nodes to calculate the bounding box from in {}", self.path.display()))
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index dbae7ce..01c5be5 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -191,7 +191,8 @@ impl Reader {
             .build()?;
 
         let f_wrapper = Arc::new(f);
-        for blob_desc in self.blobs()? {
+        let mut blobs = self.blobs()?;
+        for blob_desc in blobs.by_ref() {
             let f_wrapper_clone = f_wrapper.clone();
             iteration_pool.submit(
                 Box::new(
@@ -202,7 +203,7 @@ impl Reader {
 
         iteration_pool.shutdown();
         iteration_pool.join()?;
-        Ok(())
+        blobs.into_result()
     }
 
     fn find_missing_features(supported_features: &[String], required_features: &[String]) -> Vec<String> {
-- 
2.43.0


From c7c25c4eef2e98e520a1ce0e0d3435861b7d3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 13/19] fix: return an error instead of panicking when the
 first block of a file cannot be decoded

---
 src/osm/pbf/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 01c5be5..bd31e6a 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -10,6 +10,7 @@ use command_executor::thread_pool_builder::ThreadPoolBuilder;
 use crate::osm::model::element::Element;
 use crate::osm::pbf::blob_iterator::BlobIterator;
 use crate::osm::pbf::element_iterator::ElementIterator;
+use crate::osm::pbf::file_block::FileBlock;
 use crate::osm::pbf::file_block_iterator::FileBlockIterator;
 use crate::osm::pbf::file_info::FileInfo;
 use crate::osm::pbf::parallel_element_iteration_command::ParallelElementIterationCommand;
@@ -49,10 +50,10 @@ impl Reader {
             path: path.to_path_buf(),
             info: Default::default(),
         };
-        let mut block_iterator = reader.clone().blocks()?;
-        let file_block = block_iterator.next().ok_or(
+        let blob_desc = reader.blobs()?.next().ok_or(
             anyhow!("Failed to parse file header, path: {}", path.display())
         )?;
+        let file_block = FileBlock::from_blob_desc(&blob_desc)?;
         let osm_header = file_block.as_osm_header()?;
         reader.info = osm_header.info().clone();
 
-- 
2.43.0


From b20ef643b10ad55cf650789f4a34b9c0e6dd09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 14/19] fix: do not end the iteration over blocks when the rest
 of the file cannot be read

---
 src/osm/pbf/blob_iterator.rs           | 4 ++--
 src/osm/pbf/bounding_box_calculator.rs | 2 +-
 src/osm/pbf/file_block_iterator.rs     | 6 +++++-
 src/osm/pbf/reader.rs                  | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index 96cbe7c..90e639d 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -33,8 +33,8 @@ impl BlobIterator {
     }
 
     /// The error that ended the iteration before the end of the file, if any
-    pub(crate) fn into_result(self) -> Result<(), anyhow::Error> {
-        match self.error {
+    pub(crate) fn result(&mut self) -> Result<(), anyhow::Error> {
+        match self.error.take() {
             None => Ok(()),
             Some(e) => Err(e),
         }
diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index e148a63..c36f62a 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -50,7 +50,7 @@ impl BoundingBoxCalculator {
 
         tp.shutdown();
         tp.join()?;
-        blobs.into_result()?;
+        blobs.result()?;
         let mut result_guard = result.lock().unwrap();
         result_guard.take()
             .ok_or_else(|| anyhow!("No nodes to calculate the bounding box from in {}", self.path.display()))
diff --git a/src/osm/pbf/file_block_iterator.rs b/src/osm/pbf/file_block_iterator.rs
index a42d5df..045141c 100644
--- a/src/osm/pbf/file_block_iterator.rs
+++ b/src/osm/pbf/file_block_iterator.rs
@@ -18,7 +18,11 @@ impl Iterator for FileBlockIterator {
     type Item = FileBlock;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let blob_desc = self.blob_iterator.next()?;
+        let blob_desc = self.blob_iterator.next();
+        if let Err(e) = self.blob_iterator.result() {
+            panic!("{e:?}");
+        }
+        let blob_desc = blob_desc?;
         Some(
             FileBlock::from_blob_desc(&blob_desc)
                 .unwrap_or_else(|_| panic!("Failed to create a file block from blob {} from {:?}",
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index bd31e6a..078dc97 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -204,7 +204,7 @@ impl Reader {
 
         iteration_pool.shutdown();
         iteration_pool.join()?;
-        blobs.into_result()
+        blobs.result()
     }
 
     fn find_missing_features(supported_features: &[String], required_features: &[String]) -> Vec<String> {
-- 
2.43.0


From 9a9b602a8a72d5c4a095c4b1ace776625cae2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 15/19] fix: do not take a row that cannot be read for the end
 of a table of an apidb dump

---
 src/osm/apidb_dump/read/table_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index bd3074b..d448050 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -518,8 +518,8 @@ impl Iterator for TableIterator {
                     }
                 }
             }
-            Err(_) => {
-                None
+            Err(e) => {
+                panic!("Failed to read line {}: {e}", self.line_number);
             }
         }
     }
-- 
2.43.0


From 10977f3fb599efae3ed6558d69d42379f19a6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 16/19] fix: report failures in the threads of the parallel
 writer instead of ending the threads and hanging

---
 src/osm/pbf/parallel_writer.rs | 53 ++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 87f07ea..657971b 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -106,17 +106,17 @@ fn compression_type() -> CompressionType {
     COMPRESSION_TYPE.with(|compression_type| compression_type.borrow().as_ref().unwrap().clone())
 }
 
-fn assert_order(element: &Element) {
-    if !element.is_sentinel() {
-        assert!(
-            compare_to_current_min_element(element).is_ge(),
+fn assert_order(element: &Element) -> Result<(), Error> {
+    if !element.is_sentinel() && compare_to_current_min_element(element).is_lt() {
+        return Err(anyhow!(
             "Element order, required by OSM PBF definition is lost. \
                     Possible cause is that the length of the ordering buffer ({}) is too short \
                     to for compensate for the loss of order caused by concurrent processing. \
                     Recommended: reader_tasks * 8000 * n",
             element_ordering_buffer_size()
-        );
+        ));
     }
+    Ok(())
 }
 
 fn compare_to_current_min_element(element: &Element) -> Ordering {
@@ -159,13 +159,13 @@ impl Command for AddElementCommand {
     fn execute(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
-            assert_order(element_guard.as_ref().unwrap());
+            assert_order(element_guard.as_ref().unwrap())?;
             element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -186,14 +186,14 @@ impl Command for AddElementsCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
-                assert_order(&element);
+                assert_order(&element)?;
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -272,19 +272,19 @@ impl Command for WriteBlobCommand {
                                 break;
                             }
                             Some((header, body)) => {
+                                *next.borrow_mut() = i + 1;
                                 PBF_WRITER.with(
                                     |writer| {
-                                        writer.borrow_mut().as_mut().unwrap().write_blob(header, body).expect("Failed to write a blob");
+                                        writer.borrow_mut().as_mut().ok_or_else(|| anyhow!("The header was not written"))?.write_blob(header, body)
                                     }
-                                );
+                                )?;
                             }
                         }
                     }
-                });
+                    Ok(())
+                })
             }
-        );
-
-        Ok(())
+        )
     }
 }
 
@@ -349,22 +349,31 @@ impl ParallelWriter {
         let path = self.path.clone();
         let file_info = self.file_info.clone();
         let compression_type = self.compression_type.clone();
+        let result = Arc::new(Mutex::new(Ok(())));
+        let thread_result = result.clone();
         writing_pool_guard.in_all_threads(
             Arc::new(move || {
                 PBF_WRITER.with(|writer| {
                     if writer.borrow().is_none() {
-                        let mut w = Writer::from_file_info(
+                        let w = Writer::from_file_info(
                             path.clone(),
                             file_info.clone(),
                             compression_type.clone(),
-                        ).unwrap();
-                        w.write_header().unwrap();
-                        writer.replace(Some(w));
+                        ).and_then(|mut w| w.write_header().map(|_| w));
+                        match w {
+                            Ok(w) => {
+                                writer.replace(Some(w));
+                            }
+                            Err(e) => {
+                                *thread_result.lock().unwrap() = Err(e);
+                            }
+                        }
                     }
                 })
             })
         );
-        Ok(())
+        let mut result = result.lock().map_err(|e| anyhow!("{}", e))?;
+        std::mem::replace(result.deref_mut(), Ok(()))
     }
 
     /// Write an [Element]
-- 
2.43.0


From 6f47a1668f2a28a6d9a783cf90cbb1e3a779f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:43 +0000
Subject: [PATCH 17/19] fix: a negative blob size made iterating over a file
 endless

---
 src/osm/pbf/blob_iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index 90e639d..887f953 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -53,7 +53,8 @@ impl BlobIterator {
         self.file.read_exact(&mut blob_header_buffer)?;
         let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))?;
         let current_offset = self.file.stream_position()?;
-        let length = blob_header.datasize as u64;
+        let length = u64::try_from(blob_header.datasize)
+            .with_context(|| anyhow!("Invalid blob size {}", blob_header.datasize))?;
         self.jump = length;
         let index = self.index;
         self.index.add_assign(1);
-- 
2.43.0


From 09eb86d4473509d09d714d7f963ae79c358d4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:36 +0000
Subject: [PATCH 18/19] fix: a file block size of 0 made the parallel writer
 loop forever

---
 src/osm/pbf/parallel_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 657971b..6327bba 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -318,6 +318,9 @@ impl ParallelWriter {
         file_info: FileInfo,
         compression_type: CompressionType,
     ) -> Result<ParallelWriter, Error> {
+        if file_block_size == 0 {
+            return Err(anyhow!("Invalid file block size {}", file_block_size));
+        }
         let element_ordering_pool = Self::create_thread_pool("element-ordering", 1, 256)?;
         let encoding_pool = Self::create_thread_pool("encoding", 4, 256)?;
         let writing_pool = Self::create_thread_pool("writing", 1, 256)?;
-- 
2.43.0


From 51f81f12512980c35ba980ca8a51d5f080840f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:54 +0000
Subject: [PATCH 19/19] fix: many empty blocks in a row exhausted the stack
 while iterating

---
 src/osm/pbf/element_iterator.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 81125b8..f56b6ca 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -37,22 +37,12 @@ impl Iterator for ElementIterator {
     type Item = Element;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.element_iterator {
-            None => {
-                None
-            }
-            Some(element_iterator) => {
-                let element = element_iterator.next();
-                match &element {
-                    None => {
-                        self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
-                        self.next()
-                    }
-                    Some(_) => {
-                        element
-                    }
-                }
+        loop {
+            let element = self.element_iterator.as_mut()?.next();
+            if element.is_some() {
+                return element;
             }
+            self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
         }
     }
 }
-- 
2.43.0

