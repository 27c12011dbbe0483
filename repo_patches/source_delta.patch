From 9bdbf4e0cc03ce654059c3fc88ac4f5ba0081db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 01/32] fix: keep the source map URL when a consumer is built
 from parsed JSON

Lookups resolve the queried source against the URL, so a consumer made by
create_consumer with a URL could not find any of its own sources.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7d52e1b..d86fddf 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -152,7 +152,7 @@ impl BasicConsumer {
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-            source_map_url: None,
+            source_map_url: source_map_url.map(|it| it.to_string()),
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
-- 
2.43.0


From 74f389e0eb9cfc6e3bf87828fe45d96a5ac9069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 02/32] fix: compare generated lines in the same base in
 original_position_for

The parsed mapping is 0-based and the query 1-based, so every lookup
returned None.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index d86fddf..ca6fafe 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -318,7 +318,7 @@ impl BasicConsumer {
 
         match mapping {
             Some(mapping) => {
-                if mapping.generated_line as i32 == generated_line {
+                if mapping.generated_line as i32 == generated_line - 1 {
                     mapping.original.clone().map(|original| Mapping {
                         name: original
                             .name
-- 
2.43.0


From 51842bcbd5adba86fe4355189d4621105eb69f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 03/32] fix: report 1-based original lines and the mapping's
 own name

generated_position_for returned a 0-based original line and looked the name
up with the source index (wrong name, or a panic when there are fewer names
than sources).
---
 src/consumer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index ca6fafe..db10b92 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -425,7 +425,7 @@ impl BasicConsumer {
                             column: mapping.generated_column as i32,
                         },
                         original: mapping.original.as_ref().map(|it| Position {
-                            line: it.original_line as i32,
+                            line: (it.original_line + 1) as i32,
                             column: it.original_column as i32,
                         }),
                         source: mapping
@@ -433,8 +433,8 @@ impl BasicConsumer {
                             .as_ref()
                             .map(|it| self.absolute_sources.at(it.source as i32))
                             .flatten(),
-                        name: mapping.original.as_ref().map(|it| {
-                            self.source_map.names.as_ref().unwrap()[it.source as usize].clone()
+                        name: mapping.original.as_ref().and_then(|it| it.name).map(|it| {
+                            self.source_map.names.as_ref().unwrap()[it as usize].clone()
                         }),
                         last_generated_column: last_column,
                     })
-- 
2.43.0


From e1a9d960e5afd03b38068ca4eda553f477250545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 04/32] fix: query the right original line, and any column when
 none is given

all_generated_position_for passed its 1-based line to a 0-based API and
turned a missing column into column 0.
---
 src/consumer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index db10b92..5a8cbbb 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -239,7 +239,6 @@ impl BasicConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let original_column = if let Some(r) = original_column { r } else { 0 };
         let source = self.find_source_index(source);
         if source.is_none() {
             return vec![];
@@ -255,7 +254,7 @@ impl BasicConsumer {
             panic!("Line numbers must be >= 1");
         }
 
-        if original_column < 0 {
+        if original_column.unwrap_or(0) < 0 {
             panic!("Column numbers must be >= 0");
         }
 
@@ -268,8 +267,8 @@ impl BasicConsumer {
         mappings
             .all_generated_locations_for(
                 source as u32,
-                original_line as u32,
-                Some(original_column as u32),
+                (original_line - 1) as u32,
+                original_column.map(|it| it as u32),
             )
             .cloned()
             .collect()
-- 
2.43.0


From dfc41eefe3ade95190753ed7551f79ff4c1edc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 05/32] fix: check section order in document order

The ordering check compared each section with whichever one another worker
thread had visited last, so a valid indexed map was rejected depending on
scheduling.
---
 src/consumer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 5a8cbbb..6170c89 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -3,7 +3,6 @@ use crate::generator::SourceMapGenerator;
 use crate::mapping::Mapping;
 use crate::source_map::{Position, SourceMapJson};
 use crate::{binary_search, util};
-use rayon::prelude::*;
 use source_map_mappings::Bias;
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -531,7 +530,7 @@ impl IndexedConsumer {
                 source_map
                     .sections
                     .unwrap()
-                    .par_iter()
+                    .iter()
                     .map({
                         let last_offset = last_offset;
                         move |section| {
-- 
2.43.0


From 874d011d251646259156ac2fe956772a8c67164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 06/32] fix: look up the section that lists a source without a
 borrow conflict

The loop head kept the sections borrowed while the body borrowed them
mutably, so every lookup panicked, and the index of the source inside its
section was returned where the callers need the index of the section.
---
 src/consumer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 6170c89..444c5da 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -680,10 +680,10 @@ impl IndexedConsumer {
     }
 
     fn find_source_index(&mut self, source: &str) -> Option<i32> {
-        for i in 0..(*self.sections).borrow().len() {
-            let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
-            if let Some(index) = consumer.find_source_index(source) {
-                return Some(index);
+        for (i, section) in (*self.sections).borrow_mut().iter_mut().enumerate() {
+            let consumer = &mut section.consumer;
+            if consumer.find_source_index(source).is_some() {
+                return Some(i as i32);
             }
         }
 
-- 
2.43.0


From d9925df912161ac0075b49f21a585900151128e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 07/32] fix: shift an indexed map's generated position by its
 section offset

The shift was computed from the position itself, a result was only returned
when a next section and a last column existed, and looking at the next
section while the current one was borrowed mutably panicked.
---
 src/consumer.rs | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 444c5da..87e1a6b 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -712,8 +712,8 @@ impl IndexedConsumer {
                     bias,
                 );
                 if let Some(ref mut generated_position) = generated_position {
-                    let line_shift = generated_position.generated.line - 1;
-                    let column_shift = generated_position.generated.column - 1;
+                    let line_shift = section.generated_offset.line - 1;
+                    let column_shift = section.generated_offset.column - 1;
 
                     if generated_position.generated.line == 1 {
                         generated_position.generated.column += column_shift;
@@ -722,25 +722,12 @@ impl IndexedConsumer {
                         }
                     }
 
-                    if let (Some(last_column), Some(next_section)) = (
-                        generated_position.last_generated_column,
-                        (*self.sections).borrow().get(index as usize + 1),
-                    ) {
-                        if last_column == -1
-                            && generated_position.generated.line
-                                == next_section.generated_offset.line
-                        {
-                            generated_position
-                                .last_generated_column
-                                .replace(next_section.generated_offset.column - 2);
-                        }
-                        generated_position.generated.line += line_shift;
+                    generated_position.generated.line += line_shift;
 
-                        return Some(Position {
-                            line: generated_position.generated.line,
-                            column: generated_position.generated.column,
-                        });
-                    }
+                    return Some(Position {
+                        line: generated_position.generated.line,
+                        column: generated_position.generated.column,
+                    });
                 }
             }
         }
-- 
2.43.0


From a69e39db4dade6e36c3f9857adc6b088c85901e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 08/32] fix: shift all generated positions of an indexed map by
 the section offset

As for the single lookup: the shift came from the position itself, only
mappings with a last column were moved, and reading the next section while
the current one was borrowed mutably panicked.
---
 src/consumer.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 87e1a6b..7d4d039 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -743,39 +743,38 @@ impl IndexedConsumer {
     ) -> Vec<source_map_mappings::Mapping> {
         let index = self.find_source_index(source);
         if let Some(index) = index {
+            let next_offset = (*self.sections)
+                .borrow()
+                .get(index as usize + 1)
+                .map(|it| it.generated_offset.clone());
             if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
+                let line_shift = (section.generated_offset.line - 1) as u32;
+                let column_shift = (section.generated_offset.column - 1) as u32;
+                let computed_column_spans = section.consumer.computed_column_spans;
                 section
                     .consumer
                     .all_generated_position_for(source, original_line, original_column)
                     .iter()
                     .map(|mapping| {
                         let mut mapping = mapping.clone();
-                        let line_shift = mapping.generated_line - 1;
-                        let column_shift = mapping.generated_column - 1;
 
-                        if mapping.generated_line == 1 {
+                        if mapping.generated_line == 0 {
                             mapping.generated_column += column_shift;
                             if let Some(g) = &mut mapping.last_generated_column {
                                 *g += column_shift;
                             } else {
                             }
                         }
+                        mapping.generated_line += line_shift;
 
-                        if mapping.last_generated_column.is_some() {
-                            // TODO(CGQAQ): is it OK to be u8?
-                            // if last_column == -1
-                            let sections_ref = (*self.sections).borrow();
-                            let next_section = sections_ref.get(index as usize + 1);
-                            if let Some(next_section) = next_section {
-                                if mapping.generated_line
-                                    == next_section.generated_offset.line as u32
-                                {
+                        if computed_column_spans && mapping.last_generated_column.is_none() {
+                            if let Some(next_offset) = &next_offset {
+                                if mapping.generated_line == (next_offset.line - 1) as u32 {
                                     mapping
                                         .last_generated_column
-                                        .replace((next_section.generated_offset.column - 2) as u32);
+                                        .replace((next_offset.column - 1) as u32);
                                 }
                             }
-                            mapping.generated_line += line_shift;
                         }
 
                         mapping
-- 
2.43.0


From 85de163502325d5c7b09722f9fb7db7a39c9b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 09/32] fix: iterate the mappings of an indexed map

each_mapping borrowed the sections while iterating over them mutably, so it
always panicked; it also shifted the second line of a section instead of its
first, and closed spans that were not open.
---
 src/consumer.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7d4d039..5f66039 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -802,12 +802,17 @@ impl ConsumerTrait for IndexedConsumer {
     }
 
     fn each_mapping(&mut self, f: impl Fn(&source_map_mappings::Mapping), ord: IterOrd) {
+        let offsets = (*self.sections)
+            .borrow()
+            .iter()
+            .map(|it| it.generated_offset.clone())
+            .collect::<Vec<_>>();
         (*self.sections)
             .borrow_mut()
             .iter_mut()
             .enumerate()
             .for_each({
-                let sections = &self.sections;
+                let offsets = &offsets;
                 let f = &f;
 
                 move |(index, section)| {
@@ -821,30 +826,31 @@ impl ConsumerTrait for IndexedConsumer {
                     let generated_offset = &mut section.generated_offset;
                     let line_shift = generated_offset.line - 1;
                     let column_shift = generated_offset.column - 1;
+                    let computed_column_spans = section.consumer.computed_column_spans;
                     section.consumer.each_mapping(
                         {
-                            let sections_ref = (**sections).borrow();
                             move |mapping| {
-                                let next_section = sections_ref.get(index + 1);
+                                let next_offset = offsets.get(index + 1);
 
                                 let mut mapping = mapping.clone();
-                                if mapping.generated_line == 1 {
+                                if mapping.generated_line == 0 {
                                     mapping.generated_column += column_shift as u32;
                                     if let Some(it) = &mut mapping.last_generated_column {
                                         *it += column_shift as u32;
                                     }
                                 }
 
-                                if let Some(next_section) = next_section {
-                                    if mapping.generated_line
-                                        == next_section.generated_offset.line as u32
+                                mapping.generated_line += line_shift as u32;
+                                if let Some(next_offset) = next_offset {
+                                    if computed_column_spans
+                                        && mapping.last_generated_column.is_none()
+                                        && mapping.generated_line == (next_offset.line - 1) as u32
                                     {
-                                        mapping.last_generated_column.replace(
-                                            next_section.generated_offset.column as u32 - 2,
-                                        );
+                                        mapping
+                                            .last_generated_column
+                                            .replace((next_offset.column - 1) as u32);
                                     }
                                 }
-                                mapping.generated_line += line_shift as u32;
                                 f(&mapping);
                             }
                         },
-- 
2.43.0


From ba3a6bac2a0479f9412d5ba563f86a47d1415c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 10/32] fix: route original lookups of an indexed map to the
 right section

The section search compared a 0-based column with a 1-based one, so the
first column of a section was looked up in the previous one, and the result's
generated position was left relative to the section.
---
 src/consumer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 5f66039..d71f532 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -612,7 +612,8 @@ impl IndexedConsumer {
                 if a.line - b.generated_offset.line != 0 {
                     a.line - b.generated_offset.line
                 } else {
-                    a.column - b.generated_offset.column
+                    // The needle's column is 0-based, the stored offset is 1-based.
+                    a.column - (b.generated_offset.column - 1)
                 }
             },
             |a, b| {
@@ -641,6 +642,13 @@ impl IndexedConsumer {
                     },
                     bias,
                 )
+                .map(|mut mapping| {
+                    if mapping.generated.line == 1 {
+                        mapping.generated.column += it.generated_offset.column - 1;
+                    }
+                    mapping.generated.line += it.generated_offset.line - 1;
+                    mapping
+                })
             })
             .flatten()
     }
-- 
2.43.0


From 11a9ebde2fe8ad814effa87a896dd081af0beb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 11/32] fix: consult every section before reporting a missing
 source

The panic_on_missing flag was forwarded to each section, so the first section
without the source panicked.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index d71f532..7a16ed6 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -673,7 +673,7 @@ impl IndexedConsumer {
         for section in (*self.sections).borrow_mut().iter_mut() {
             if let Some(it) = section
                 .consumer
-                .source_content_for(source, panic_on_missing)
+                .source_content_for(source, Some(false))
             {
                 return Some(it);
             }
-- 
2.43.0


From c42811057f7e3931c91d8ce3c33921f4ff4c0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 12/32] fix: list an indexed map's sources resolved against
 their source root

As the basic consumer does (and as the ported test in consumer_test.rs says).
---
 src/consumer.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7a16ed6..3b2b719 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -575,24 +575,7 @@ impl IndexedConsumer {
         let mut sources: Vec<String> = vec![];
 
         for i in 0..(*self.sections).borrow().len() {
-            for j in 0..(*self.sections).borrow()[i]
-                .consumer
-                .source_map
-                .sources
-                .as_ref()
-                .unwrap()
-                .len()
-            {
-                sources.push(
-                    (*self.sections).borrow()[i]
-                        .consumer
-                        .source_map
-                        .sources
-                        .as_ref()
-                        .unwrap()[j]
-                        .clone(),
-                );
-            }
+            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
         }
 
         sources
-- 
2.43.0


From e59cea2ca986925569d05865b34bfc85e3053b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 13/32] fix: answer lookups whose name or content index is out
 of range

A mapping can name an index the names table does not have, and
sourcesContent may be shorter than sources; both panicked on indexing.
---
 src/consumer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 3b2b719..2768be5 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -320,7 +320,7 @@ impl BasicConsumer {
                     mapping.original.clone().map(|original| Mapping {
                         name: original
                             .name
-                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),
+                            .and_then(|it| self.source_map.names.as_ref()?.get(it as usize).cloned()),
                         source: self.absolute_sources.at(original.source as i32),
                         original: Some(Position {
                             line: (original.original_line + 1) as i32,
@@ -359,7 +359,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => Some(sources_content[i as usize].clone()),
+            Some(i) => sources_content.get(i as usize).cloned(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
@@ -431,8 +431,8 @@ impl BasicConsumer {
                             .as_ref()
                             .map(|it| self.absolute_sources.at(it.source as i32))
                             .flatten(),
-                        name: mapping.original.as_ref().and_then(|it| it.name).map(|it| {
-                            self.source_map.names.as_ref().unwrap()[it as usize].clone()
+                        name: mapping.original.as_ref().and_then(|it| it.name).and_then(|it| {
+                            self.source_map.names.as_ref()?.get(it as usize).cloned()
                         }),
                         last_generated_column: last_column,
                     })
-- 
2.43.0


From 5571bd342e0349b8b86a9b875de1c5efdb3ea190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 14/32] fix: load a document without sources or mappings as an
 empty one

The members are optional in the parsed document, but their absence panicked.
---
 src/consumer.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 2768be5..3db8c80 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -129,9 +129,8 @@ impl BasicConsumer {
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
-                    .as_ref()
-                    .unwrap()
                     .iter()
+                    .flatten()
                     .map(|it| {
                         util::compute_source_url(
                             source_map.source_root.as_deref(),
@@ -155,9 +154,8 @@ impl BasicConsumer {
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
-                    .as_ref()
-                    .unwrap()
                     .iter()
+                    .flatten()
                     .map(|it| {
                         util::compute_source_url(
                             source_map.source_root.as_deref(),
@@ -228,7 +226,7 @@ impl BasicConsumer {
 
     fn parse_mappings(&self) -> Result<source_map_mappings::Mappings, source_map_mappings::Error> {
         source_map_mappings::parse_mappings::<()>(
-            self.source_map.mappings.as_ref().unwrap().as_bytes(),
+            self.source_map.mappings.as_deref().unwrap_or("").as_bytes(),
         )
     }
 
@@ -342,7 +340,7 @@ impl BasicConsumer {
 
     pub fn has_contents_of_all_sources(&self) -> bool {
         match self.source_map.sources_content {
-            Some(ref s) => s.len() >= self.source_map.sources.as_ref().unwrap().len(),
+            Some(ref s) => s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len()),
             None => false,
         }
     }
-- 
2.43.0


From be067d9c2ca889fba72c0b4fce6cc2f36791a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 15/32] fix: answer "no mapping" when the mappings cannot be
 parsed

each_mapping already treats unparsable mappings as empty; the lookups
panicked on them.
---
 src/consumer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 3db8c80..e0b8e30 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -259,7 +259,10 @@ impl BasicConsumer {
             self.mappings = self.parse_mappings().ok();
         }
 
-        let mappings = self.mappings.as_mut().unwrap();
+        let mappings = match self.mappings.as_mut() {
+            Some(mappings) => mappings,
+            None => return vec![],
+        };
 
         mappings
             .all_generated_locations_for(
@@ -280,7 +283,10 @@ impl BasicConsumer {
             self.mappings = self.parse_mappings().ok();
         }
 
-        let mappings = self.mappings.as_mut().unwrap();
+        let mappings = match self.mappings.as_mut() {
+            Some(mappings) => mappings,
+            None => return,
+        };
         mappings.compute_column_spans();
         self.computed_column_spans = true;
     }
@@ -306,7 +312,7 @@ impl BasicConsumer {
             self.mappings = self.parse_mappings().ok();
         }
 
-        let mappings = self.mappings.as_mut().unwrap();
+        let mappings = self.mappings.as_mut()?;
 
         let mapping = mappings
             .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
@@ -394,7 +400,7 @@ impl BasicConsumer {
             self.mappings = self.parse_mappings().ok();
         }
 
-        let mappings = self.mappings.as_mut().unwrap();
+        let mappings = self.mappings.as_mut()?;
 
         let mapping = mappings
             .generated_location_for(
-- 
2.43.0


From f616e9e33a1b66c1a20dfb723ea00c2362f2f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 16/32] fix: classify URLs shorter than two characters

A source named "a" or an empty source root panicked.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 81fa754..29f777d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -78,10 +78,10 @@ enum UrlType {
 
 fn get_url_type(input: &str) -> UrlType {
     let mut iter = input.chars();
-    let first = iter.next().unwrap();
-    let second = iter.next().unwrap();
-    if first == '/' {
-        if second == '/' {
+    let first = iter.next();
+    let second = iter.next();
+    if first == Some('/') {
+        if second == Some('/') {
             return SchemeRelative;
         }
         return PathAbsolute;
-- 
2.43.0


From 6030f0c1699c121734492dbb54dfa93ae924d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 17/32] fix: treat an empty source root or source map URL as
 absent

As mozilla/source-map does: with an empty root the source was joined to "/"
and lost its leading slash.
---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 29f777d..8ad914e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -333,6 +333,8 @@ pub fn compute_source_url(
     // is present in order to make the sources entries behave as if they are relative to the
     // "sourceRoot", as they would have if the two strings were simply concated.
 
+    let source_root = source_root.filter(|it| !it.is_empty());
+    let source_map_url = source_map_url.filter(|it| !it.is_empty());
     let mut source_url = source_url;
     let after = source_url.replacen("/", "", 1);
 
-- 
2.43.0


From b39ed546b2682a51cdb57fc5d14508e83835612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 18/32] fix: keep the ? and # of relative URLs

compute_relative_url glued the query and the fragment to the path.
---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 8ad914e..3d25f74 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -157,10 +157,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .join("/");
 
     if let Some(query) = target_url.query() {
+        relative_path.push('?');
         relative_path.push_str(query);
     }
 
     if let Some(frag) = target_url.fragment() {
+        relative_path.push('#');
         relative_path.push_str(frag);
     }
     relative_path
-- 
2.43.0


From 498ee501ba60ef72424e49b1106f195bb9370e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 19/32] fix: keep the directories when trimming the file name
 of a source map URL

The path segments were joined without separators, so the sources of
http://host/a/b/c.map resolved against http://host/ab.
---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 3d25f74..79a7dce 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -205,9 +205,10 @@ lazy_static! {
 
         if !path.last().unwrap().is_empty() {
             path.pop();
+            path.push("");
         }
 
-        url.set_path(&path.join(""));
+        url.set_path(&path.join("/"));
     }));
 
     static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));
-- 
2.43.0


From f5019d4d515b2cb412c0bbb84db7684b64a8ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 20/32] fix: relativise the resolved URLs, not the raw
 arguments

relative() parsed its raw arguments as absolute URLs, so a source root that
is a path made set_source_content panic.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 79a7dce..08a28e8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -239,7 +239,7 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
         return None;
     }
 
-    Some(compute_relative_url(root, target))
+    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
 }
 
 pub fn relative(root: String, target: String) -> String {
-- 
2.43.0


From c8b2064aaac6548fc41e625642e4616e5723e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 21/32] fix: leave URLs that cannot be parsed as they are

One malformed entry in sources (http://[/a.js) made loading the whole map
panic.
---
 src/util.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 08a28e8..96b82be 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -131,8 +131,10 @@ fn build_safe_base(input: &str) -> String {
 }
 
 fn compute_relative_url(root_url: &str, target_url: &str) -> String {
-    let root_url = Url::parse(root_url).unwrap();
-    let target_url = Url::parse(target_url).unwrap();
+    let (root_url, target_url) = match (Url::parse(root_url), Url::parse(target_url)) {
+        (Ok(root_url), Ok(target_url)) => (root_url, target_url),
+        _ => return target_url.to_string(),
+    };
 
     let mut target_parts = target_url.path().split('/').collect::<LinkedList<_>>();
     let mut root_parts = root_url.path().split('/').collect::<LinkedList<_>>();
@@ -173,7 +175,10 @@ fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -
         let t = get_url_type(input.as_str());
         let base = build_safe_base(input.as_str());
         let urlx = Url::parse(base.as_str()).unwrap();
-        let mut urlx = urlx.join(input.as_str()).unwrap();
+        let mut urlx = match urlx.join(input.as_str()) {
+            Ok(urlx) => urlx,
+            Err(_) => return input,
+        };
 
         cb(&mut urlx);
 
@@ -222,9 +227,9 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
 
     let base = build_safe_base(&format!("{}{}", root, target));
     let root_url = Url::parse(&base).unwrap();
-    let root_url = root_url.join(root).unwrap();
+    let root_url = root_url.join(root).ok()?;
     let target_url = Url::parse(&base).unwrap();
-    let target_url = target_url.join(target).unwrap();
+    let target_url = target_url.join(target).ok()?;
     match target_url.join("") {
         Ok(_) => {}
         Err(_) => return None,
@@ -252,11 +257,8 @@ pub fn relative(root: String, target: String) -> String {
 fn with_base(url: &str, base: Option<&str>) -> String {
     match base {
         Some(base) => Url::parse(base)
-            .unwrap()
-            .join(url)
-            .unwrap()
-            .as_str()
-            .to_string(),
+            .and_then(|base| base.join(url))
+            .map_or_else(|_| url.to_string(), |it| it.as_str().to_string()),
         None => url.to_string(),
     }
 }
-- 
2.43.0


From 1833ed33064cae3c526aeaf8b30f2b3551dc06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 22/32] fix: encode values of 31 bits and more

Shifting in 32 bits dropped the top bit of values from 2^30 on, and i32::MIN
panicked.
---
 src/base64_vlq.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base64_vlq.rs b/src/base64_vlq.rs
index e49ec52..f56b780 100644
--- a/src/base64_vlq.rs
+++ b/src/base64_vlq.rs
@@ -23,7 +23,8 @@ const VLQ_BASE_MASK: usize = VLQ_BASE - 1;
 // binary: 100000
 const VLQ_CONTINUATION_BIT: usize = VLQ_BASE;
 
-fn to_vlq_signed(value: i32) -> i32 {
+fn to_vlq_signed(value: i32) -> i64 {
+    let value = i64::from(value);
     if value < 0 {
         (-value << 1) + 1
     } else {
@@ -39,7 +40,7 @@ pub fn base64vlq_encode(value: i32) -> String {
 
     loop {
         digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
-        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i32;
+        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;
 
         if vlq > 0 {
             // There are still more digits in this value, so we must make sure the
-- 
2.43.0


From dcd3b0f3f9a618ba35947c2a9ac6d95b3f53f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 23/32] fix: compare positions without subtracting them

The differences overflow for positions far apart, which flips the order (or
panics in debug builds).
---
 src/util.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 96b82be..16148a1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,12 +28,12 @@ pub fn strcmp(a: Option<String>, b: Option<String>) -> i32 {
 }
 
 pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
-    let mut cmp = a.generated.line - b.generated.line;
+    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;
     if cmp != 0 {
         return cmp;
     }
 
-    cmp = a.generated.column - b.generated.column;
+    cmp = a.generated.column.cmp(&b.generated.column) as i32;
     if cmp != 0 {
         return cmp;
     }
@@ -43,12 +43,22 @@ pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
         return cmp;
     }
     if a.original.is_some() && b.original.is_some() {
-        cmp = a.original.as_ref().unwrap().line - b.original.as_ref().unwrap().line;
+        cmp = a
+            .original
+            .as_ref()
+            .unwrap()
+            .line
+            .cmp(&b.original.as_ref().unwrap().line) as i32;
         if cmp != 0 {
             return cmp;
         }
 
-        cmp = a.original.as_ref().unwrap().column - b.original.as_ref().unwrap().column;
+        cmp = a
+            .original
+            .as_ref()
+            .unwrap()
+            .column
+            .cmp(&b.original.as_ref().unwrap().column) as i32;
         if cmp != 0 {
             return cmp;
         }
-- 
2.43.0


From b532ffc72d2f29e8cae7bd6c33484e54c1e61c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 24/32] fix: keep sourcesContent aligned with sources

Sources without content were left out of the array, so the contents that
followed were attributed to the wrong sources; and a document with the null
entries the format prescribes could not be loaded.
---
 src/consumer.rs   | 7 +++++--
 src/generator.rs  | 7 ++-----
 src/source_map.rs | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index e0b8e30..595517d 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -346,7 +346,10 @@ impl BasicConsumer {
 
     pub fn has_contents_of_all_sources(&self) -> bool {
         match self.source_map.sources_content {
-            Some(ref s) => s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len()),
+            Some(ref s) => {
+                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
+                    && s.iter().all(|it| it.is_some())
+            }
             None => false,
         }
     }
@@ -363,7 +366,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => sources_content.get(i as usize).cloned(),
+            Some(i) => sources_content.get(i as usize).cloned().flatten(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
diff --git a/src/generator.rs b/src/generator.rs
index fded665..2ccb07a 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -183,13 +183,10 @@ impl SourceMapGenerator {
 
     pub(crate) fn as_json(&mut self) -> SourceMapJson {
         let sources_vec = self.sources.to_vec();
-        let mut sources_content: Option<Vec<String>> = None;
+        let mut sources_content: Option<Vec<Option<String>>> = None;
         if !self.source_contents.is_empty() {
             sources_content = Some(
-                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone())
-                    .into_iter()
-                    .flatten()
-                    .collect(),
+                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
             );
         }
         SourceMapJson {
diff --git a/src/source_map.rs b/src/source_map.rs
index aff20ab..f38d0e7 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -15,7 +15,7 @@ pub struct SourceMapJson {
     pub source_root: Option<String>,
     #[serde(rename = "sourcesContent")]
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub sources_content: Option<Vec<String>>,
+    pub sources_content: Option<Vec<Option<String>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub sections: Option<Vec<Section>>,
 }
-- 
2.43.0


From ce1f9a103f4b22e50cf5de075ec99cddffb8dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 25/32] fix: reject invalid mappings unless validation is
 skipped

The flag was ignored and validate_mapping never called: a mapping on line 0
made the serialisation run away, and a source without an original position
panicked there.
---
 src/generator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator.rs b/src/generator.rs
index 2ccb07a..2e540a1 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -38,9 +38,10 @@ impl SourceMapGenerator {
     }
 
     pub fn add_mapping(&mut self, mapping: Mapping) {
-        // if (!this._skipValidation) {
-        // 	this._validateMapping(generated, original, source, name);
-        // }
+        if !self.skip_validation && Self::validate_mapping(&mapping).is_err() {
+            panic!("Invalid mapping: {:?}", mapping);
+        }
+
         let source: Option<String> = mapping.source.clone();
         let name: Option<String> = mapping.name.clone();
 
-- 
2.43.0


From af199e2abed33bb1ed21a7c71b2d50250c5bbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 26/32] fix: reject unsupported versions in the basic consumer
 too

Only the indexed consumer checked the version.
---
 src/consumer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/consumer.rs b/src/consumer.rs
index 595517d..8c79211 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -122,6 +122,10 @@ pub struct BasicConsumer {
 impl BasicConsumer {
     pub fn new(source_map_raw: &str, source_map_url: Option<&str>) -> Self {
         let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
+        if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
+            panic!("Unsupported version: {}", source_map.version);
+        }
+
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
@@ -147,6 +151,10 @@ impl BasicConsumer {
     }
 
     pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
+        if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
+            panic!("Unsupported version: {}", source_map.version);
+        }
+
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-- 
2.43.0


From f8019f99af948ba3dc2e722a9eb541b2afb9fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 27/32] fix: leave out the file member when there is none

It was serialised as null, unlike every other optional member.
---
 src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source_map.rs b/src/source_map.rs
index f38d0e7..ddc5609 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -9,6 +9,7 @@ pub struct SourceMapJson {
     pub names: Option<Vec<String>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub mappings: Option<String>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub file: Option<String>,
     #[serde(rename = "sourceRoot")]
     #[serde(skip_serializing_if = "Option::is_none")]
-- 
2.43.0


From 2e9d566fcb05a0d1e1cb6ceac0e45dbeaaed06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 28/32] fix: shift the span end of an indexed original lookup
 too

On the first line of a section with a column offset the answer's column was
moved but the end of its span was not, so spans ended before they began.
---
 src/consumer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/consumer.rs b/src/consumer.rs
index 8c79211..e25270c 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -643,6 +643,9 @@ impl IndexedConsumer {
                 .map(|mut mapping| {
                     if mapping.generated.line == 1 {
                         mapping.generated.column += it.generated_offset.column - 1;
+                        if let Some(last) = &mut mapping.last_generated_column {
+                            *last += it.generated_offset.column - 1;
+                        }
                     }
                     mapping.generated.line += it.generated_offset.line - 1;
                     mapping
-- 
2.43.0


From 378ab60a260a8df6ea0cd16afe0ceba5aa10c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:24 +0000
Subject: [PATCH 29/32] fix: normalise an absolute URL joined to a root

join() returned an absolute path argument as it was given, where every other
result of the function is a parsed and serialised URL.
---
 src/util.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 16148a1..cba323c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -266,11 +266,10 @@ pub fn relative(root: String, target: String) -> String {
 
 fn with_base(url: &str, base: Option<&str>) -> String {
     match base {
-        Some(base) => Url::parse(base)
-            .and_then(|base| base.join(url))
-            .map_or_else(|_| url.to_string(), |it| it.as_str().to_string()),
-        None => url.to_string(),
+        Some(base) => Url::parse(base).and_then(|base| base.join(url)),
+        None => Url::parse(url),
     }
+    .map_or_else(|_| url.to_string(), |it| it.as_str().to_string())
 }
 
 pub fn join(root: &str, path: &str) -> String {
-- 
2.43.0


From dd8383de99abac1d08f7489c368da9eda36633a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 30/32] fix: do not cut the path when a root without a scheme
 does not resolve

join() removed the length of the placeholder host also from a path that was
handed back unresolved: join("//[bad", "abcdef") was "f".
---
 src/util.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index cba323c..a22c956 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -272,6 +272,16 @@ fn with_base(url: &str, base: Option<&str>) -> String {
     .map_or_else(|_| url.to_string(), |it| it.as_str().to_string())
 }
 
+// Resolves `path` against a root without a scheme, and removes the part of the
+// placeholder host that the root does not have.
+fn join_on_host(root: &str, path: &str, placeholder: &str) -> String {
+    let base = with_base(root, Some(PROTOCOL_AND_HOST.as_str()));
+    match Url::parse(base.as_str()).and_then(|base| base.join(path)) {
+        Ok(url) => url.as_str().chars().skip(placeholder.len()).collect(),
+        Err(_) => path.to_string(),
+    }
+}
+
 pub fn join(root: &str, path: &str) -> String {
     let path_t = get_url_type(path);
     let root_t = get_url_type(root);
@@ -291,13 +301,7 @@ pub fn join(root: &str, path: &str) -> String {
     }
 
     if root_t == SchemeRelative {
-        return with_base(
-            path,
-            Some(with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str())).as_str()),
-        )
-        .chars()
-        .skip(PROTOCOL.len())
-        .collect();
+        return join_on_host(root.as_str(), path, PROTOCOL);
     }
 
     if path_t == PathAbsolute {
@@ -305,13 +309,7 @@ pub fn join(root: &str, path: &str) -> String {
     }
 
     if root_t == PathAbsolute {
-        return with_base(
-            path,
-            Some(with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str())).as_str()),
-        )
-        .chars()
-        .skip(PROTOCOL_AND_HOST.len())
-        .collect();
+        return join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str());
     }
 
     let base = build_safe_base(format!("{}{}", path, root).as_str());
-- 
2.43.0


From 17f92d5ef84f1482eab66577224fe482ed62b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:47 +0000
Subject: [PATCH 31/32] fix: order absent originals so that sorting mappings
 cannot fail

---
 src/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index a22c956..ee6b1fb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -42,6 +42,12 @@ pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
     if cmp != 0 {
         return cmp;
     }
+
+    // Without an order between absent and present this is not a total order.
+    cmp = a.original.is_none().cmp(&b.original.is_none()) as i32;
+    if cmp != 0 {
+        return cmp;
+    }
     if a.original.is_some() && b.original.is_some() {
         cmp = a
             .original
-- 
2.43.0


From 949f691361f92b0899ba21356484734b437d8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:17 +0000
Subject: [PATCH 32/32] fix: serialise mappings below the first line without
 looping

---
 src/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator.rs b/src/generator.rs
index 2e540a1..0b469a6 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -117,9 +117,9 @@ impl SourceMapGenerator {
             let mapping = mappings[i].clone();
             let mut next = "".to_string();
 
-            if mapping.generated.line != previous_generated_line {
+            if mapping.generated.line > previous_generated_line {
                 previous_generated_column = 0;
-                while mapping.generated.line != previous_generated_line {
+                while mapping.generated.line > previous_generated_line {
                     next += ";";
                     previous_generated_line += 1;
                 }
-- 
2.43.0

