From c8cddab4a0dc3306fab01396364e890c7a7806bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:11 +0000
Subject: [PATCH 01/87] fix: register hyperlinks and comments found in any
 document container

Hyperlink relationships and comments were only collected from paragraphs
placed directly in the body, in tables or in a table of contents. Links and
comments inside sections, structured data tags and tracked changes were
written without their relationship or comment entry. Comments with several
paragraphs were written once per paragraph. Both collectors now use the
shared document tree traversal.
---
 docx-core/src/documents/document_tree.rs |  44 +-
 docx-core/src/documents/mod.rs           | 643 +++--------------------
 2 files changed, 96 insertions(+), 591 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e1ac0c5..d5114b4 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,10 +5,11 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
-    HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
-    Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
-    StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
+    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
+    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
+    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
+    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
+    TableOfContents, TableRowChild,
 };
 
 /// Receives package-relevant nodes while the document tree is traversed.
@@ -29,6 +30,12 @@ pub(crate) trait DocumentTreeVisitor {
 
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
+
+    /// Visits a hyperlink before its children are traversed.
+    fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
+
+    /// Visits the start of a comment range together with its comment.
+    fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
 }
 
 /// Traverses the main document body without crossing into header/footer parts.
@@ -70,9 +77,9 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
+        DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
         DocumentChild::BookmarkStart(_)
         | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentStart(_)
         | DocumentChild::CommentEnd(_) => {}
     }
 }
@@ -84,9 +91,9 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::Table(table) => visit_table(table, visitor),
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
+            SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
             SectionChild::BookmarkStart(_)
             | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentStart(_)
             | SectionChild::CommentEnd(_) => {}
         }
     }
@@ -131,9 +138,9 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
             StructuredDataTagChild::StructuredDataTag(tag) => {
                 visit_structured_data_tag(tag, visitor)
             }
+            StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
             StructuredDataTagChild::BookmarkStart(_)
             | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentStart(_)
             | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
@@ -157,9 +164,9 @@ fn visit_paragraph_children(
             ParagraphChild::MoveTo(moved) => visit_move_to(moved, visitor),
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
+            ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
             ParagraphChild::BookmarkStart(_)
             | ParagraphChild::BookmarkEnd(_)
-            | ParagraphChild::CommentStart(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
@@ -168,6 +175,7 @@ fn visit_paragraph_children(
 }
 
 fn visit_hyperlink(link: &mut Hyperlink, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_hyperlink(link);
     visit_paragraph_children(&mut link.children, visitor);
 }
 
@@ -176,23 +184,28 @@ fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             InsertChild::Run(run) => visit_run(run, visitor),
             InsertChild::Delete(delete) => visit_delete(delete, visitor),
-            InsertChild::CommentStart(_) | InsertChild::CommentEnd(_) => {}
+            InsertChild::CommentStart(start) => visitor.visit_comment_start(start),
+            InsertChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut delete.children {
-        if let DeleteChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            DeleteChild::Run(run) => visit_run(run, visitor),
+            DeleteChild::CommentStart(start) => visitor.visit_comment_start(start),
+            DeleteChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut moved.children {
-        if let MoveFromChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            MoveFromChild::Run(run) => visit_run(run, visitor),
+            MoveFromChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveFromChild::CommentEnd(_) => {}
         }
     }
 }
@@ -202,7 +215,8 @@ fn visit_move_to(moved: &mut MoveTo, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             MoveToChild::Run(run) => visit_run(run, visitor),
             MoveToChild::Delete(delete) => visit_delete(delete, visitor),
-            MoveToChild::CommentStart(_) | MoveToChild::CommentEnd(_) => {}
+            MoveToChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveToChild::CommentEnd(_) => {}
         }
     }
 }
@@ -217,6 +231,7 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
                 }
             }
             RunChild::FootnoteReference(reference) => visitor.visit_footnote_reference(reference),
+            RunChild::CommentStart(start) => visitor.visit_comment_start(start),
             RunChild::Text(_)
             | RunChild::Sym(_)
             | RunChild::DeleteText(_)
@@ -225,7 +240,6 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
             | RunChild::Break(_)
             | RunChild::CarriageReturn(_)
             | RunChild::Shape(_)
-            | RunChild::CommentStart(_)
             | RunChild::CommentEnd(_)
             | RunChild::FieldChar(_)
             | RunChild::InstrText(_)
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index cdae806..5a085d7 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,6 +85,7 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
+use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     MediaRegistry,
@@ -917,297 +918,48 @@ impl Docx {
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
     }
 
-    fn insert_comment_to_map(
-        &self,
-        comment_map: &mut HashMap<usize, String>,
-        c: &CommentRangeStart,
-    ) {
-        let comment = c.get_comment_ref();
-        let comment_id = comment.id();
-        for child in &comment.children {
-            if let CommentChild::Paragraph(child) = child {
-                let para_id = child.id.clone();
-                comment_map.insert(comment_id, para_id);
-            }
-            // TODO: Support table in comment
-        }
-    }
-
-    // Traverse and clone comments from document and add to comments node.
+    /// Collects comments and hyperlinks from the document and adds them to
+    /// the comment parts and the document relationships.
     fn update_dependencies(&mut self) {
-        let mut comments: Vec<Comment> = vec![];
-        let mut comments_extended: Vec<CommentExtended> = vec![];
-        let mut comment_map: HashMap<usize, String> = HashMap::new();
-
-        let mut hyperlink_map: HashMap<String, String> = HashMap::new();
-
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            self.insert_comment_to_map(&mut comment_map, c);
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            }
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    self.insert_comment_to_map(&mut comment_map, c);
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_comment_map_in_table(table, &mut comment_map, &mut hyperlink_map);
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
-        }
+        let mut dependencies = DependencyCollector::default();
+        visit_document(&mut self.document, &mut dependencies);
+        let comments_extended = dependencies.comments_extended();
 
-        if comment_map.is_empty() {
-            for (id, path) in hyperlink_map {
+        let registered: HashSet<String> = self
+            .document_rels
+            .hyperlinks
+            .iter()
+            .map(|(id, _, _)| id.clone())
+            .collect();
+        for (id, path) in dependencies.hyperlinks {
+            if !registered.contains(&id) {
                 self.document_rels
                     .hyperlinks
-                    .push((id, path, "External".to_owned()));
+                    .push((id, path, "External".to_string())); // Now support external only
             }
-            return;
         }
 
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            push_comment_and_comment_extended(
-                                &mut comments,
-                                &mut comments_extended,
-                                &comment_map,
-                                c,
-                            );
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            };
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_dependencies_in_table(
-                        table,
-                        &mut comments,
-                        &mut comments_extended,
-                        &mut comment_map,
-                        &mut hyperlink_map,
-                    );
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    // TODO:refine later
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
+        if dependencies.comments.is_empty() {
+            return;
         }
+
         // If this document has comments, set comments.xml to document_rels.
         // This is because comments.xml without comment cause an error on word online.
-        if !comments.is_empty() {
-            self.document_rels.has_comments = true;
-        }
+        self.document_rels.has_comments = true;
 
         self.comments_extended
             .add_comments_extended(comments_extended);
-
-        self.comments.add_comments(comments);
-
-        for (id, d) in hyperlink_map {
-            self.document_rels
-                .hyperlinks
-                .push((id, d, "External".to_string())); // Now support external only
-        }
+        self.comments.add_comments(dependencies.comments);
     }
 
-    // Traverse and clone comments from document and add to comments node.
+    // Traverse document and attach the comments to their ranges.
     // reader only
     pub(crate) fn store_comments(&mut self, comments: &[Comment]) {
         let comments_by_id: HashMap<usize, &Comment> = comments
             .iter()
             .map(|comment| (comment.id(), comment))
             .collect();
-        for child in &mut self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &mut paragraph.children {
-                        if let ParagraphChild::CommentStart(ref mut c) = child {
-                            let comment_id = c.get_id();
-                            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                                let comment = Comment::clone(comment);
-                                c.as_mut().comment(comment);
-                            }
-                        }
-                        if let ParagraphChild::Insert(ref mut insert) = child {
-                            for child in &mut insert.children {
-                                if let InsertChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                } else if let InsertChild::Delete(ref mut d) = child {
-                                    for child in &mut d.children {
-                                        if let DeleteChild::CommentStart(ref mut c) = child {
-                                            let comment_id = c.get_id();
-                                            if let Some(comment) =
-                                                comments_by_id.get(&comment_id).copied()
-                                            {
-                                                let comment = Comment::clone(comment);
-                                                c.as_mut().comment(comment);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let ParagraphChild::Delete(ref mut delete) = child {
-                            for child in &mut delete.children {
-                                if let DeleteChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => store_comments_in_table(table, &comments_by_id),
-                _ => {}
-            }
-        }
+        visit_document(&mut self.document, &mut CommentAttacher { comments_by_id });
 
         if !comments.is_empty() {
             self.document_rels.has_comments = true;
@@ -1265,302 +1017,66 @@ impl Docx {
     }
 }
 
-fn collect_dependencies_in_paragraph(
-    paragraph: &Paragraph,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            };
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-                }
-            }
-        }
-    }
+/// Collects the comments and external hyperlinks used by the main document.
+#[derive(Default)]
+struct DependencyCollector {
+    comments: Vec<Comment>,
+    hyperlinks: Vec<(String, String)>,
+    hyperlink_ids: HashSet<String>,
 }
 
-fn collect_comment_map_in_paragraph(
-    paragraph: &Paragraph,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            let comment = c.get_comment_ref();
-            let comment_id = comment.id();
-            for child in &comment.children {
-                if let CommentChild::Paragraph(child) = child {
-                    comment_map.insert(comment_id, child.id.clone());
-                }
-            }
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            }
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    let comment = c.get_comment_ref();
-                    let comment_id = comment.id();
-                    for child in &comment.children {
-                        if let CommentChild::Paragraph(child) = child {
-                            comment_map.insert(comment_id, child.id.clone());
-                        }
-                    }
+impl DependencyCollector {
+    /// Links every comment to its thread through the id of its last paragraph.
+    fn comments_extended(&self) -> Vec<CommentExtended> {
+        let para_id = |comment: &Comment| {
+            comment.children.iter().rev().find_map(|child| match child {
+                CommentChild::Paragraph(paragraph) => Some(paragraph.id.clone()),
+                // TODO: Support table in comment
+                _ => None,
+            })
+        };
+        let para_ids: HashMap<usize, String> = self
+            .comments
+            .iter()
+            .filter_map(|comment| Some((comment.id(), para_id(comment)?)))
+            .collect();
+
+        self.comments
+            .iter()
+            .filter_map(|comment| {
+                let extended = CommentExtended::new(para_id(comment)?);
+                match comment.parent_comment_id {
+                    Some(parent) => Some(extended.parent_paragraph_id(para_ids.get(&parent)?)),
+                    None => Some(extended),
                 }
-            }
-        }
+            })
+            .collect()
     }
 }
 
-fn collect_comment_map_in_table(
-    table: &Table,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_comment_map_in_paragraph(paragraph, comment_map, hyperlink_map);
-                    }
-                    TableCellContent::Table(table) => {
-                        collect_comment_map_in_table(table, comment_map, hyperlink_map)
-                    }
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                }
+impl DocumentTreeVisitor for DependencyCollector {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &link.link {
+            if self.hyperlink_ids.insert(rid.clone()) {
+                self.hyperlinks.push((rid.clone(), path.clone()));
             }
         }
     }
-}
 
-fn collect_dependencies_in_table(
-    table: &Table,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_dependencies_in_paragraph(
-                            paragraph,
-                            comments,
-                            comments_extended,
-                            comment_map,
-                            hyperlink_map,
-                        );
-                    }
-                    TableCellContent::Table(table) => collect_dependencies_in_table(
-                        table,
-                        comments,
-                        comments_extended,
-                        comment_map,
-                        hyperlink_map,
-                    ),
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                }
-            }
-        }
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        self.comments.push(start.get_comment_ref().clone());
     }
 }
 
-fn store_comments_in_paragraph(
-    paragraph: &mut Paragraph,
-    comments_by_id: &HashMap<usize, &Comment>,
-) {
-    for child in &mut paragraph.children {
-        if let ParagraphChild::CommentStart(ref mut c) = child {
-            let comment_id = c.get_id();
-            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                let comment = Comment::clone(comment);
-                c.as_mut().comment(comment);
-            }
-        }
-        if let ParagraphChild::Insert(ref mut insert) = child {
-            for child in &mut insert.children {
-                if let InsertChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-        if let ParagraphChild::Delete(ref mut delete) = child {
-            for child in &mut delete.children {
-                if let DeleteChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-    }
+/// Attaches the comments read from the comments part to their ranges.
+struct CommentAttacher<'a> {
+    comments_by_id: HashMap<usize, &'a Comment>,
 }
 
-fn store_comments_in_table(table: &mut Table, comments_by_id: &HashMap<usize, &Comment>) {
-    for TableChild::TableRow(row) in &mut table.rows {
-        for TableRowChild::TableCell(cell) in &mut row.cells {
-            for content in &mut cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        store_comments_in_paragraph(paragraph, comments_by_id)
-                    }
-                    TableCellContent::Table(ref mut table) => {
-                        store_comments_in_table(table, comments_by_id);
-                    }
-                    TableCellContent::StructuredDataTag(ref mut tag) => {
-                        for child in &mut tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(ref mut t) => {
-                        for child in &mut t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-
-                        for child in &mut t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                }
-            }
+impl DocumentTreeVisitor for CommentAttacher<'_> {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        if let Some(comment) = self.comments_by_id.get(&start.get_id()).copied() {
+            start.comment(comment.clone());
         }
     }
 }
@@ -2264,31 +1780,6 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
-fn push_comment_and_comment_extended(
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &HashMap<usize, String>,
-    c: &CommentRangeStart,
-) {
-    let comment = c.get_comment_ref();
-    for child in &comment.children {
-        if let CommentChild::Paragraph(child) = child {
-            let para_id = child.id.clone();
-            comments.push(comment.clone());
-            let comment_extended = CommentExtended::new(para_id);
-            if let Some(parent_comment_id) = comment.parent_comment_id {
-                if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
-                    comments_extended
-                        .push(comment_extended.parent_paragraph_id(parent_para_id.clone()));
-                }
-            } else {
-                comments_extended.push(comment_extended);
-            }
-        }
-        // TODO: Support table in comment
-    }
-}
-
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
-- 
2.43.0


From 7f5453172c609f2b33e79617b126f21142040192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:09 +0000
Subject: [PATCH 02/87] fix: declare hyperlink relationships of headers and
 footers

External hyperlinks placed in a header or footer referred to a relationship
that was never written, because header and footer relationship parts only
listed images.
---
 docx-core/src/documents/footer_rels.rs     | 13 +++++
 docx-core/src/documents/header_rels.rs     | 13 +++++
 docx-core/src/documents/image_collector.rs | 18 ++++++-
 docx-core/src/documents/mod.rs             | 56 +++++++++-------------
 4 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/docx-core/src/documents/footer_rels.rs b/docx-core/src/documents/footer_rels.rs
index 27a0b51..4072f5f 100644
--- a/docx-core/src/documents/footer_rels.rs
+++ b/docx-core/src/documents/footer_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct FooterRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String)>,
 }
 
 impl FooterRels {
@@ -22,6 +23,10 @@ impl FooterRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for FooterRels {
@@ -39,6 +44,14 @@ impl BuildXML for FooterRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/header_rels.rs b/docx-core/src/documents/header_rels.rs
index f718643..905befa 100644
--- a/docx-core/src/documents/header_rels.rs
+++ b/docx-core/src/documents/header_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct HeaderRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String)>,
 }
 
 impl HeaderRels {
@@ -22,6 +23,10 @@ impl HeaderRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for HeaderRels {
@@ -39,6 +44,14 @@ impl BuildXML for HeaderRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a57ca5e..f15dfea 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -8,7 +8,8 @@ use std::collections::{HashMap, HashSet};
 
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, ImageIdAndBuf, ImageIdAndPath, Pic,
+    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
+    ImageIdAndPath, Pic,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -105,6 +106,8 @@ impl MediaRegistry {
 /// Data collected from one relationship scope during a tree walk.
 pub(crate) struct CollectedPart {
     pub(crate) relationships: Vec<ImageIdAndPath>,
+    /// External hyperlink targets keyed by relationship ID.
+    pub(crate) hyperlinks: Vec<(String, String)>,
     pub(crate) footnotes: Vec<Footnote>,
 }
 
@@ -122,6 +125,8 @@ struct PackagePartCollector<'a> {
     next_relationship_suffix_by_id: HashMap<String, usize>,
     /// Maps media to the owning relationship entry, avoiding another owned ID.
     relationships_by_media: HashMap<usize, usize>,
+    hyperlinks: Vec<(String, String)>,
+    hyperlink_ids: HashSet<String>,
     footnotes: Vec<Footnote>,
 }
 
@@ -134,6 +139,8 @@ impl<'a> PackagePartCollector<'a> {
             relationship_ids: HashSet::new(),
             next_relationship_suffix_by_id: HashMap::new(),
             relationships_by_media: HashMap::new(),
+            hyperlinks: Vec::new(),
+            hyperlink_ids: HashSet::new(),
             footnotes: Vec::new(),
         }
     }
@@ -141,6 +148,7 @@ impl<'a> PackagePartCollector<'a> {
     fn finish(self) -> CollectedPart {
         CollectedPart {
             relationships: self.relationships,
+            hyperlinks: self.hyperlinks,
             footnotes: self.footnotes,
         }
     }
@@ -206,6 +214,14 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
         self.relationships.push((relationship_id, target));
     }
 
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &link.link {
+            if self.hyperlink_ids.insert(rid.clone()) {
+                self.hyperlinks.push((rid.clone(), path.clone()));
+            }
+        }
+    }
+
     fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
         self.footnotes.push(reference.into());
     }
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 5a085d7..3295611 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -848,28 +848,10 @@ impl Docx {
 
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
-        let header_images = self.collect_header_images(&mut media);
-        let footer_images = self.collect_footer_images(&mut media);
+        let header_rels = self.collect_header_rels(&mut media);
+        let footer_rels = self.collect_footer_rels(&mut media);
         self.document_rels.images = document_part.relationships;
 
-        let header_rels = header_images
-            .into_iter()
-            .map(|(index, images)| {
-                let mut rels = HeaderRels::new();
-                rels.set_images(images);
-                (index, rels)
-            })
-            .collect();
-
-        let footer_rels = footer_images
-            .into_iter()
-            .map(|(index, images)| {
-                let mut rels = FooterRels::new();
-                rels.set_images(images);
-                (index, rels)
-            })
-            .collect();
-
         if !document_part.footnotes.is_empty() {
             self.footnotes.add(document_part.footnotes);
             self.content_type = std::mem::take(&mut self.content_type).add_footnotes();
@@ -966,40 +948,46 @@ impl Docx {
         }
     }
 
-    /// Collects image relationships for every header in package order.
+    /// Collects the relationships of every header in package order.
     ///
     /// Each entry deliberately uses a separate relationship scope while all
     /// entries share the package-wide media registry. Relationship creation
     /// order matches the order used to render and write header parts.
-    fn collect_header_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_header_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, HeaderRels)> {
         self.document
             .headers_mut()
             .enumerate()
             .filter_map(|(index, (_, header))| {
-                let relationships = collect_header_part(header, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_header_part(header, media);
+                if part.relationships.is_empty() && part.hyperlinks.is_empty() {
+                    return None;
+                }
+                let mut rels = HeaderRels::new();
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
+                Some((index, rels))
             })
             .collect()
     }
 
-    /// Collects image relationships for every footer in package order.
+    /// Collects the relationships of every footer in package order.
     ///
     /// Relationship creation order matches the package writer. A shared
     /// registry prevents repeated footer and body images from being emitted as
     /// separate physical media files.
-    fn collect_footer_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_footer_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, FooterRels)> {
         self.document
             .footers_mut()
             .enumerate()
             .filter_map(|(index, (_, footer))| {
-                let relationships = collect_footer_part(footer, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_footer_part(footer, media);
+                if part.relationships.is_empty() && part.hyperlinks.is_empty() {
+                    return None;
+                }
+                let mut rels = FooterRels::new();
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
+                Some((index, rels))
             })
             .collect()
     }
-- 
2.43.0


From af99295c8d9efc6ba2c3656d3607eb24e0d32e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:17 +0000
Subject: [PATCH 03/87] fix: relate the numbering part when any container uses
 numbering

Numbered paragraphs inside nested structured data tags, table of contents
contents, comments and footnotes did not cause the numbering relationship to
be written, so their numbering was ignored.
---
 docx-core/src/documents/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 3295611..5ef87ba 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -907,6 +907,12 @@ impl Docx {
         visit_document(&mut self.document, &mut dependencies);
         let comments_extended = dependencies.comments_extended();
 
+        // If this document has numbering, set numberings.xml to document_rels.
+        // This is because numberings.xml without numbering cause an error on word online.
+        if dependencies.has_numbering {
+            self.document_rels.has_numberings = true;
+        }
+
         let registered: HashSet<String> = self
             .document_rels
             .hyperlinks
@@ -1005,12 +1011,14 @@ impl Docx {
     }
 }
 
-/// Collects the comments and external hyperlinks used by the main document.
+/// Collects the comments, external hyperlinks and numbering used by the main
+/// document.
 #[derive(Default)]
 struct DependencyCollector {
     comments: Vec<Comment>,
     hyperlinks: Vec<(String, String)>,
     hyperlink_ids: HashSet<String>,
+    has_numbering: bool,
 }
 
 impl DependencyCollector {
@@ -1043,6 +1051,17 @@ impl DependencyCollector {
 }
 
 impl DocumentTreeVisitor for DependencyCollector {
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        self.has_numbering |= paragraph.property.numbering_property.is_some();
+    }
+
+    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
+        self.has_numbering |= reference
+            .content
+            .iter()
+            .any(|paragraph| paragraph.property.numbering_property.is_some());
+    }
+
     fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
         if let HyperlinkData::External { rid, path } = &link.link {
             if self.hyperlink_ids.insert(rid.clone()) {
@@ -1052,7 +1071,12 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 
     fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
-        self.comments.push(start.get_comment_ref().clone());
+        let comment = start.get_comment_ref();
+        self.has_numbering |= comment.children.iter().any(|child| match child {
+            CommentChild::Paragraph(paragraph) => paragraph.has_numbering,
+            CommentChild::Table(table) => table.has_numbering,
+        });
+        self.comments.push(comment.clone());
     }
 }
 
-- 
2.43.0


From a2f18377461c187d46e6865ffa36892a0b4d7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:35:44 +0000
Subject: [PATCH 04/87] fix: number header and footer relationships in the
 order parts are written

Relationship ids were assigned in call order while the parts are written in
document order, so references could point at a different header or footer,
and replacing a header left a relationship and a content type without part.
---
 docx-core/src/documents/content_types.rs      | 20 +++++++++++
 .../documents/elements/section_property.rs    | 34 ++++++++++++++++++-
 docx-core/src/documents/mod.rs                | 20 +++++++++++
 3 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 8bbd8bf..f1db023 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -130,6 +130,26 @@ impl ContentTypes {
         );
         self
     }
+
+    /// Declares exactly the header and footer parts that will be written.
+    pub(crate) fn set_header_and_footer_count(mut self, headers: usize, footers: usize) -> Self {
+        for n in headers + 1..=self.header_count {
+            self.types.remove(&format!("/word/header{n}.xml"));
+        }
+        for n in footers + 1..=self.footer_count {
+            self.types.remove(&format!("/word/footer{n}.xml"));
+        }
+        self.header_count = self.header_count.min(headers);
+        self.footer_count = self.footer_count.min(footers);
+        while self.header_count < headers {
+            self = self.add_header();
+        }
+        while self.footer_count < footers {
+            self = self.add_footer();
+        }
+        self
+    }
+
     pub fn add_footnotes(mut self) -> Self {
         self.types.insert(
             "/word/footnotes.xml".to_owned(),
diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index 74b8f9b..f825eec 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -2,7 +2,7 @@ use super::*;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{Footer, Header};
+use crate::{create_footer_rid, create_header_rid, Footer, Header};
 use std::io::Write;
 
 use serde::Serialize;
@@ -181,6 +181,38 @@ impl SectionProperty {
         .filter_map(Option::as_mut)
     }
 
+    /// Reassigns header and footer relationship IDs in package order.
+    ///
+    /// The counters are shared by all sections of a document.
+    pub(crate) fn renumber_parts(&mut self, headers: &mut usize, footers: &mut usize) {
+        for (part, reference) in [
+            (&mut self.header, &mut self.header_reference),
+            (&mut self.first_header, &mut self.first_header_reference),
+            (&mut self.even_header, &mut self.even_header_reference),
+        ] {
+            if let Some((rid, _)) = part {
+                *headers += 1;
+                *rid = create_header_rid(*headers);
+                if let Some(reference) = reference {
+                    reference.id.clone_from(rid);
+                }
+            }
+        }
+        for (part, reference) in [
+            (&mut self.footer, &mut self.footer_reference),
+            (&mut self.first_footer, &mut self.first_footer_reference),
+            (&mut self.even_footer, &mut self.even_footer_reference),
+        ] {
+            if let Some((rid, _)) = part {
+                *footers += 1;
+                *rid = create_footer_rid(*footers);
+                if let Some(reference) = reference {
+                    reference.id.clone_from(rid);
+                }
+            }
+        }
+    }
+
     pub fn page_num_type(mut self, h: PageNumType) -> Self {
         self.page_num_type = Some(h);
         self
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 5ef87ba..519a7da 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -846,6 +846,8 @@ impl Docx {
     fn prepare_package(&mut self) -> PackageMetadata {
         let has_toc = self.prepare_for_build();
 
+        self.renumber_headers_and_footers();
+
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
         let header_rels = self.collect_header_rels(&mut media);
@@ -879,6 +881,24 @@ impl Docx {
         }
     }
 
+    /// Makes header and footer references follow the order in which their
+    /// parts are written, independent of the order they were attached in.
+    fn renumber_headers_and_footers(&mut self) {
+        let (mut headers, mut footers) = (0, 0);
+        self.document
+            .section_property
+            .renumber_parts(&mut headers, &mut footers);
+        for child in &mut self.document.children {
+            if let DocumentChild::Section(section) = child {
+                section.property.renumber_parts(&mut headers, &mut footers);
+            }
+        }
+        self.document_rels.header_count = headers;
+        self.document_rels.footer_count = footers;
+        self.content_type = std::mem::take(&mut self.content_type)
+            .set_header_and_footer_count(headers, footers);
+    }
+
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
-- 
2.43.0


From 9770d337e5031edd3b32f302c908ce6ce3b786e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:55 +0000
Subject: [PATCH 05/87] fix: give every custom XML item its own relationships
 and content type

The first custom item shared relationship id rId8 with the footnotes part,
every item pointed at the properties of the first item, and the content type
of the properties parts was numbered by the web extension counter.
---
 docx-core/src/documents/content_types.rs    |  2 +-
 docx-core/src/documents/custom_item_rels.rs | 13 ++++++++++---
 docx-core/src/documents/document_rels.rs    |  2 +-
 docx-core/src/documents/mod.rs              |  2 +-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index f1db023..fa9df05 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -106,7 +106,7 @@ impl ContentTypes {
 
     pub fn add_custom_xml(mut self) -> Self {
         self.types.insert(
-            format!("/customXml/itemProps{}.xml", self.web_extension_count),
+            format!("/customXml/itemProps{}.xml", self.custom_xml_count),
             "application/vnd.openxmlformats-officedocument.customXmlProperties+xml".to_owned(),
         );
         self.custom_xml_count += 1;
diff --git a/docx-core/src/documents/custom_item_rels.rs b/docx-core/src/documents/custom_item_rels.rs
index 2cb0c74..90ea479 100644
--- a/docx-core/src/documents/custom_item_rels.rs
+++ b/docx-core/src/documents/custom_item_rels.rs
@@ -15,6 +15,13 @@ impl CustomItemRels {
         Default::default()
     }
 
+    /// Relates the custom item with this number to its own properties part.
+    pub(crate) fn for_item(number: usize) -> Self {
+        CustomItemRels {
+            custom_item_count: number,
+        }
+    }
+
     pub fn add_item(mut self) -> Self {
         self.custom_item_count += 1;
         self
@@ -29,11 +36,11 @@ impl BuildXML for CustomItemRels {
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_relationships("http://schemas.openxmlformats.org/package/2006/relationships")?
-            .apply_each(0..self.custom_item_count, |id, b| {
+            .apply_if(self.custom_item_count > 0, |b| {
                 b.relationship(
-          &format!("rId{}", id + 1),
+          "rId1",
           "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXmlProps",
-          &format!("itemProps{}.xml", id + 1),
+          &format!("itemProps{}.xml", self.custom_item_count),
         )
             })?
             .close()?
diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 2edfb2f..a7a6d93 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -110,7 +110,7 @@ impl BuildXML for DocumentRels {
             })?
             .apply_each(0..self.custom_xml_count, |i, b| {
                 b.relationship(
-                    &format!("rId{}", i + 8),
+                    &format!("rId{}", i + 9),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXml",
                     &format!("../customXml/item{}.xml", i + 1),
                 )
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 519a7da..5a38bcf 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -685,7 +685,7 @@ impl Docx {
     pub fn add_custom_item(mut self, id: &str, xml: &str) -> Self {
         let x = CustomItem::from_str(xml).expect("should parse xml string");
         self.content_type = self.content_type.add_custom_xml();
-        let rel = CustomItemRels::new().add_item();
+        let rel = CustomItemRels::for_item(self.custom_items.len() + 1);
         self.custom_item_props.push(CustomItemProperty::new(id));
         self.document_rels = self.document_rels.add_custom_item();
         self.custom_item_rels.push(rel);
-- 
2.43.0


From 6fc069d81f866fa2818c9fab1a435f0407457a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:03 +0000
Subject: [PATCH 06/87] fix: write task panes and web extensions only together

Calling taskpanes twice duplicated the package relationship, a task pane
without web extension referred to a missing relationship, and a web extension
without task panes left a content type without part.
---
 docx-core/src/documents/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 5a38bcf..4c2d032 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -670,15 +670,12 @@ impl Docx {
 
     pub fn taskpanes(mut self) -> Self {
         self.taskpanes = Some(Taskpanes::new());
-        self.rels = self.rels.add_taskpanes_rel();
-        self.content_type = self.content_type.add_taskpanes();
         self
     }
 
     pub fn web_extension(mut self, ext: WebExtension) -> Self {
         self.web_extensions.push(ext);
         self.taskpanes_rels = self.taskpanes_rels.add_rel();
-        self.content_type = self.content_type.add_web_extensions();
         self
     }
 
@@ -847,6 +844,7 @@ impl Docx {
         let has_toc = self.prepare_for_build();
 
         self.renumber_headers_and_footers();
+        self.register_taskpanes();
 
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
@@ -881,6 +879,24 @@ impl Docx {
         }
     }
 
+    /// Declares the task panes part and the web extensions it shows.
+    ///
+    /// Task panes refer to web extensions and web extensions are only reachable
+    /// through task panes, so neither is written without the other.
+    fn register_taskpanes(&mut self) {
+        if self.web_extensions.is_empty() {
+            self.taskpanes = None;
+        }
+        if self.taskpanes.is_none() {
+            return;
+        }
+        self.rels = std::mem::take(&mut self.rels).add_taskpanes_rel();
+        self.content_type = std::mem::take(&mut self.content_type).add_taskpanes();
+        for _ in &self.web_extensions {
+            self.content_type = std::mem::take(&mut self.content_type).add_web_extensions();
+        }
+    }
+
     /// Makes header and footer references follow the order in which their
     /// parts are written, independent of the order they were attached in.
     fn renumber_headers_and_footers(&mut self) {
-- 
2.43.0


From 810734a69d1ba880adad0165699e619dc6e969ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:20 +0000
Subject: [PATCH 07/87] fix: keep hyperlink and picture relationship ids apart
 from the document's own

---
 docx-core/src/documents/document_rels.rs   | 12 ++++++
 docx-core/src/documents/image_collector.rs | 45 +++++++++++++++++++---
 docx-core/src/documents/mod.rs             | 39 +++++++++----------
 3 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index a7a6d93..2b66475 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -1,4 +1,5 @@
 use serde::Serialize;
+use std::collections::HashSet;
 use std::io::Write;
 
 use super::*;
@@ -23,6 +24,17 @@ impl DocumentRels {
         Default::default()
     }
 
+    /// Relationship IDs that are taken before pictures are collected.
+    pub(crate) fn declared_ids(&self) -> HashSet<String> {
+        (1..=8)
+            .chain((0..self.custom_xml_count).map(|i| i + 9))
+            .map(|i| format!("rId{i}"))
+            .chain((1..=self.header_count).map(create_header_rid))
+            .chain((1..=self.footer_count).map(create_footer_rid))
+            .chain(self.hyperlinks.iter().map(|(id, _, _)| id.clone()))
+            .collect()
+    }
+
     pub fn add_custom_item(mut self) -> Self {
         self.custom_xml_count += 1;
         self
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index f15dfea..1adc4ae 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -24,9 +24,20 @@ pub(crate) struct MediaRegistry {
     media_by_id: HashMap<String, usize>,
     by_fingerprint: HashMap<(usize, u32), Vec<usize>>,
     next_suffix_by_id: HashMap<String, usize>,
+    /// Relationship IDs the main document declares apart from its pictures.
+    document_relationship_ids: HashSet<String>,
 }
 
 impl MediaRegistry {
+    /// Creates a registry for a main document that declares the given
+    /// relationship IDs itself, so its pictures must not use them.
+    pub(crate) fn with_document_relationship_ids(ids: HashSet<String>) -> Self {
+        Self {
+            document_relationship_ids: ids,
+            ..Default::default()
+        }
+    }
+
     /// Registers physical bytes and returns their stable registry index.
     ///
     /// Part collectors use the numeric index as their deduplication key. This
@@ -126,7 +137,6 @@ struct PackagePartCollector<'a> {
     /// Maps media to the owning relationship entry, avoiding another owned ID.
     relationships_by_media: HashMap<usize, usize>,
     hyperlinks: Vec<(String, String)>,
-    hyperlink_ids: HashSet<String>,
     footnotes: Vec<Footnote>,
 }
 
@@ -140,7 +150,6 @@ impl<'a> PackagePartCollector<'a> {
             next_relationship_suffix_by_id: HashMap::new(),
             relationships_by_media: HashMap::new(),
             hyperlinks: Vec::new(),
-            hyperlink_ids: HashSet::new(),
             footnotes: Vec::new(),
         }
     }
@@ -215,10 +224,9 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
     }
 
     fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
-        if let HyperlinkData::External { rid, path } = &link.link {
-            if self.hyperlink_ids.insert(rid.clone()) {
-                self.hyperlinks.push((rid.clone(), path.clone()));
-            }
+        // The main document registers its hyperlinks with its other dependencies.
+        if self.relationship_prefix.is_some() {
+            register_hyperlink(link, &mut self.hyperlinks, &mut self.relationship_ids);
         }
     }
 
@@ -227,12 +235,37 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
     }
 }
 
+/// Adds the relationship of an external hyperlink to its part.
+///
+/// A hyperlink whose ID already belongs to another relationship gets a new one.
+pub(crate) fn register_hyperlink(
+    link: &mut Hyperlink,
+    hyperlinks: &mut Vec<(String, String)>,
+    relationship_ids: &mut HashSet<String>,
+) {
+    let HyperlinkData::External { rid, path } = &mut link.link else {
+        return;
+    };
+    let preferred_id = rid.clone();
+    let mut suffix = 1;
+    while !relationship_ids.insert(rid.clone()) {
+        if hyperlinks.iter().any(|(id, p)| id == rid && p == path) {
+            return;
+        }
+        suffix += 1;
+        *rid = format!("{preferred_id}_{suffix}");
+    }
+    hyperlinks.push((rid.clone(), path.clone()));
+}
+
 /// Collects package data from the complete main document tree in one pass.
 pub(crate) fn collect_document_part(
     document: &mut Document,
     registry: &mut MediaRegistry,
 ) -> CollectedPart {
+    let reserved_ids = std::mem::take(&mut registry.document_relationship_ids);
     let mut collector = PackagePartCollector::new(registry, None);
+    collector.relationship_ids = reserved_ids;
     visit_document(document, &mut collector);
     collector.finish()
 }
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 4c2d032..a6913f7 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -88,7 +88,7 @@ use serde::{ser, Serialize};
 use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
-    MediaRegistry,
+    register_hyperlink, MediaRegistry,
 };
 
 #[derive(Debug, Clone)]
@@ -846,7 +846,8 @@ impl Docx {
         self.renumber_headers_and_footers();
         self.register_taskpanes();
 
-        let mut media = MediaRegistry::default();
+        let mut media =
+            MediaRegistry::with_document_relationship_ids(self.document_rels.declared_ids());
         let document_part = collect_document_part(&mut self.document, &mut media);
         let header_rels = self.collect_header_rels(&mut media);
         let footer_rels = self.collect_footer_rels(&mut media);
@@ -939,7 +940,14 @@ impl Docx {
     /// Collects comments and hyperlinks from the document and adds them to
     /// the comment parts and the document relationships.
     fn update_dependencies(&mut self) {
-        let mut dependencies = DependencyCollector::default();
+        let registered = self.document_rels.hyperlinks.iter();
+        let mut dependencies = DependencyCollector {
+            relationship_ids: self.document_rels.declared_ids(),
+            hyperlinks: registered
+                .map(|(id, path, _)| (id.clone(), path.clone()))
+                .collect(),
+            ..Default::default()
+        };
         visit_document(&mut self.document, &mut dependencies);
         let comments_extended = dependencies.comments_extended();
 
@@ -949,18 +957,11 @@ impl Docx {
             self.document_rels.has_numberings = true;
         }
 
-        let registered: HashSet<String> = self
-            .document_rels
-            .hyperlinks
-            .iter()
-            .map(|(id, _, _)| id.clone())
-            .collect();
-        for (id, path) in dependencies.hyperlinks {
-            if !registered.contains(&id) {
-                self.document_rels
-                    .hyperlinks
-                    .push((id, path, "External".to_string())); // Now support external only
-            }
+        let registered = self.document_rels.hyperlinks.len();
+        for (id, path) in dependencies.hyperlinks.into_iter().skip(registered) {
+            self.document_rels
+                .hyperlinks
+                .push((id, path, "External".to_string())); // Now support external only
         }
 
         if dependencies.comments.is_empty() {
@@ -1053,7 +1054,7 @@ impl Docx {
 struct DependencyCollector {
     comments: Vec<Comment>,
     hyperlinks: Vec<(String, String)>,
-    hyperlink_ids: HashSet<String>,
+    relationship_ids: HashSet<String>,
     has_numbering: bool,
 }
 
@@ -1099,11 +1100,7 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 
     fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
-        if let HyperlinkData::External { rid, path } = &link.link {
-            if self.hyperlink_ids.insert(rid.clone()) {
-                self.hyperlinks.push((rid.clone(), path.clone()));
-            }
-        }
+        register_hyperlink(link, &mut self.hyperlinks, &mut self.relationship_ids);
     }
 
     fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
-- 
2.43.0


From e181c4372f8ca083f83454768b5a79ec9f6e2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:03:02 +0000
Subject: [PATCH 08/87] fix: keep pictures and link targets when a document
 that was read is written

---
 docx-core/src/documents/mod.rs    |  67 ++++++++-
 docx-core/src/reader/read_docx.rs | 237 ++++++++++++++++--------------
 2 files changed, 192 insertions(+), 112 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index a6913f7..2a71488 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -14,7 +14,7 @@ mod custom_item_rels;
 mod doc_props;
 mod document;
 mod document_rels;
-mod document_tree;
+pub(crate) mod document_tree;
 mod elements;
 mod font_table;
 mod footer;
@@ -85,7 +85,7 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
-use self::document_tree::{visit_document, DocumentTreeVisitor};
+use self::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     register_hyperlink, MediaRegistry,
@@ -829,9 +829,28 @@ impl Docx {
         has_toc
     }
 
+    /// Restores the picture bytes and link targets that a document read from
+    /// a package keeps apart from its tree.
+    fn restore_read_relationships(&mut self) {
+        if self.images.is_empty() && self.hyperlinks.is_empty() {
+            return;
+        }
+        let mut document = RelationshipRestorer::new(&self.images, &self.hyperlinks);
+        visit_document(&mut self.document, &mut document);
+        // The hyperlinks of headers and footers are relationships of their own.
+        let mut part = RelationshipRestorer::new(&self.images, &[]);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut part);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut part);
+        }
+    }
+
     /// Prepares the complete document tree for package-part rendering.
     fn prepare_for_build(&mut self) -> bool {
         self.reset();
+        self.restore_read_relationships();
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
@@ -1113,6 +1132,50 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 }
 
+/// Fills in picture bytes and link targets known by their relationship IDs.
+pub(crate) struct RelationshipRestorer<'a> {
+    images: HashMap<&'a str, &'a [u8]>,
+    hyperlinks: HashMap<&'a str, &'a str>,
+}
+
+impl<'a> RelationshipRestorer<'a> {
+    pub(crate) fn new(
+        images: &'a [(String, String, Image, Png)],
+        hyperlinks: &'a [(String, String, String)],
+    ) -> Self {
+        Self {
+            images: images
+                .iter()
+                .map(|(id, _, image, _)| (id.as_str(), image.0.as_slice()))
+                .collect(),
+            hyperlinks: hyperlinks
+                .iter()
+                .map(|(id, path, _)| (id.as_str(), path.as_str()))
+                .collect(),
+        }
+    }
+}
+
+impl DocumentTreeVisitor for RelationshipRestorer<'_> {
+    fn visit_picture(&mut self, picture: &mut Pic) {
+        if picture.image.is_empty() {
+            if let Some(image) = self.images.get(picture.id.as_str()) {
+                picture.image = image.to_vec();
+            }
+        }
+    }
+
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &mut link.link {
+            if path.is_empty() {
+                if let Some(target) = self.hyperlinks.get(rid.as_str()) {
+                    *path = target.to_string();
+                }
+            }
+        }
+    }
+}
+
 /// Attaches the comments read from the comments part to their ranges.
 struct CommentAttacher<'a> {
     comments_by_id: HashMap<usize, &'a Comment>,
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 24ef048..eed4993 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -1,6 +1,10 @@
 use super::header_or_footer_rels::{read_header_or_footer_rels, ReadHeaderOrFooterRels};
 use super::namespace::*;
 use super::*;
+use crate::documents::document_tree::{
+    visit_document, visit_footer, visit_header, DocumentTreeVisitor,
+};
+use crate::documents::RelationshipRestorer;
 
 use zip::ZipArchive;
 
@@ -15,8 +19,10 @@ fn read_headers(
         .filter_map(|(rid, path, ..)| {
             let data = read_zip(archive, path.to_str().expect("should have header path."));
             if let Ok(d) = data {
-                if let Ok(h) = Header::from_xml(&d[..]) {
+                if let Ok(mut h) = Header::from_xml(&d[..]) {
                     let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
+                    let links = read_hyperlinks(rels.target_paths(HYPERLINK_TYPE));
+                    visit_header(&mut h, &mut RelationshipRestorer::new(&[], &links));
                     return Some((rid.clone(), (h, rels)));
                 }
             }
@@ -37,8 +43,10 @@ fn read_footers(
         .filter_map(|(rid, path, ..)| {
             let data = read_zip(archive, path.to_str().expect("should have footer path."));
             if let Ok(d) = data {
-                if let Ok(h) = Footer::from_xml(&d[..]) {
+                if let Ok(mut h) = Footer::from_xml(&d[..]) {
                     let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
+                    let links = read_hyperlinks(rels.target_paths(HYPERLINK_TYPE));
+                    visit_footer(&mut h, &mut RelationshipRestorer::new(&[], &links));
                     return Some((rid.clone(), (h, rels)));
                 }
             }
@@ -229,94 +237,12 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     };
     docx = docx.document(document);
 
-    // assign headers
-    if let Some(h) = docx.document.section_property.header_reference.clone() {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx.document.header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
-    if let Some(ref h) = docx
-        .document
-        .section_property
-        .first_header_reference
-        .clone()
-    {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx
-                .document
-                .first_header_without_title_pg(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
-    if let Some(ref h) = docx.document.section_property.even_header_reference.clone() {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx.document.even_header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
-
-    // assign footers
-    if let Some(f) = docx.document.section_property.footer_reference.clone() {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx.document.footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
-
-    if let Some(ref f) = docx
-        .document
-        .section_property
-        .first_footer_reference
-        .clone()
-    {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx
-                .document
-                .first_footer_without_title_pg(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
-    if let Some(ref f) = docx.document.section_property.even_footer_reference.clone() {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx.document.even_footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
+    // assign headers and footers
+    let section = std::mem::take(&mut docx.document.section_property);
+    let section = assign_headers_and_footers(&mut docx, section, &headers, &footers, |docx, rels| {
+        add_images(docx, rels, &mut archive, options.generate_image_previews)
+    });
+    docx.document.section_property = section;
 
     // store comments to paragraphs.
     if !comments.inner().is_empty() {
@@ -381,45 +307,136 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     }
     // Read media
     let media = rels.target_paths(IMAGE_TYPE);
-    docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+    let renamed = add_images(
+        &mut docx,
+        media,
+        &mut archive,
+        options.generate_image_previews,
+    );
+    visit_document(&mut docx.document, &mut PictureRenamer(renamed));
 
     // Read hyperlinks
-    let links = rels.target_paths(HYPERLINK_TYPE);
-    if let Some(paths) = links {
-        for (id, target, mode) in paths {
-            if let Some(mode) = mode {
-                docx = docx.add_hyperlink(
-                    id.clone(),
-                    target.to_str().expect("should convert to str"),
-                    mode.clone(),
-                );
-            }
-        }
+    for (id, target, mode) in read_hyperlinks(rels.target_paths(HYPERLINK_TYPE)) {
+        docx = docx.add_hyperlink(id, target, mode);
     }
 
     Ok(docx)
 }
 
+type Targets<'a> = Option<&'a std::collections::BTreeSet<(RId, PathBuf, Option<String>)>>;
+
+/// Collects the hyperlink relationships of one part as ID, target and mode.
+fn read_hyperlinks(links: Targets) -> Vec<(String, String, String)> {
+    links
+        .into_iter()
+        .flatten()
+        .filter_map(|(id, target, mode)| {
+            let target = target.to_str().expect("should convert to str");
+            Some((id.clone(), target.to_owned(), mode.clone()?))
+        })
+        .collect()
+}
+
+/// Attaches the headers and footers a section refers to, reading their media.
+fn assign_headers_and_footers(
+    docx: &mut Docx,
+    mut section: SectionProperty,
+    headers: &HashMap<RId, (Header, ReadHeaderOrFooterRels)>,
+    footers: &HashMap<RId, (Footer, ReadHeaderOrFooterRels)>,
+    mut add_images: impl FnMut(&mut Docx, Targets) -> HashMap<String, String>,
+) -> SectionProperty {
+    let mut find_header = |docx: &mut Docx, reference: &Option<HeaderReference>| {
+        let reference = reference.as_ref()?;
+        let (header, rels) = headers.get(&reference.id)?;
+        let mut header = header.clone();
+        docx.document_rels.header_count += 1;
+        docx.content_type = std::mem::take(&mut docx.content_type).add_header();
+        let renamed = add_images(docx, rels.target_paths(IMAGE_TYPE));
+        visit_header(&mut header, &mut PictureRenamer(renamed));
+        Some((header, reference.id.clone()))
+    };
+    if let Some((header, id)) = find_header(docx, &section.header_reference) {
+        section = section.header(header, &id);
+    }
+    if let Some((header, id)) = find_header(docx, &section.first_header_reference) {
+        section = section.first_header_without_title_pg(header, &id);
+    }
+    if let Some((header, id)) = find_header(docx, &section.even_header_reference) {
+        section = section.even_header(header, &id);
+    }
+
+    let mut find_footer = |docx: &mut Docx, reference: &Option<FooterReference>| {
+        let reference = reference.as_ref()?;
+        let (footer, rels) = footers.get(&reference.id)?;
+        let mut footer = footer.clone();
+        docx.document_rels.footer_count += 1;
+        docx.content_type = std::mem::take(&mut docx.content_type).add_footer();
+        let renamed = add_images(docx, rels.target_paths(IMAGE_TYPE));
+        visit_footer(&mut footer, &mut PictureRenamer(renamed));
+        Some((footer, reference.id.clone()))
+    };
+    if let Some((footer, id)) = find_footer(docx, &section.footer_reference) {
+        section = section.footer(footer, &id);
+    }
+    if let Some((footer, id)) = find_footer(docx, &section.first_footer_reference) {
+        section = section.first_footer_without_title_pg(footer, &id);
+    }
+    if let Some((footer, id)) = find_footer(docx, &section.even_footer_reference) {
+        section = section.even_footer(footer, &id);
+    }
+    section
+}
+
+/// Adds the images of one part.
+///
+/// Relationship IDs are only unique within a part, so an ID that already
+/// stands for another part's image is replaced. Returns the replaced IDs.
 fn add_images(
-    mut docx: Docx,
-    media: Option<&std::collections::BTreeSet<(RId, PathBuf, Option<String>)>>,
+    docx: &mut Docx,
+    media: Targets,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
     generate_previews: bool,
-) -> Docx {
+) -> HashMap<String, String> {
+    let mut renamed = HashMap::new();
     // Read media
     if let Some(paths) = media {
         for (id, media, ..) in paths {
-            if let Ok(data) = read_zip(archive, media.to_str().expect("should have media")) {
-                docx = docx.add_image_with_options(
-                    id.clone(),
-                    media.to_str().unwrap().to_string(),
+            let path = media.to_str().expect("should have media");
+            if let Ok(data) = read_zip(archive, path) {
+                let mut image_id = id.clone();
+                let mut suffix = 1;
+                while docx
+                    .images
+                    .iter()
+                    .any(|(other_id, other_path, ..)| *other_id == image_id && other_path != path)
+                {
+                    suffix += 1;
+                    image_id = format!("{id}_{suffix}");
+                }
+                if image_id != *id {
+                    renamed.insert(id.clone(), image_id.clone());
+                }
+                *docx = std::mem::take(docx).add_image_with_options(
+                    image_id,
+                    path.to_string(),
                     data,
                     generate_previews,
                 );
             }
         }
     }
-    docx
+    renamed
+}
+
+/// Replaces picture IDs by the IDs their images are stored under.
+struct PictureRenamer(HashMap<String, String>);
+
+impl DocumentTreeVisitor for PictureRenamer {
+    fn visit_picture(&mut self, picture: &mut Pic) {
+        if let Some(id) = self.0.get(&picture.id) {
+            picture.id.clone_from(id);
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From e6be8de61510b4ca38cab56ff4f3af9c4bd5033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:04:14 +0000
Subject: [PATCH 09/87] fix: read and write the headers and footers of every
 section

---
 docx-core/src/documents/document.rs           | 30 +++++++++++++------
 .../documents/elements/section_property.rs    |  4 +++
 docx-core/src/documents/mod.rs                | 12 ++++++--
 docx-core/src/reader/read_docx.rs             | 19 +++++++++---
 4 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index 3e66aa4..5b86395 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -255,17 +255,20 @@ impl Document {
     /// Iterates headers in relationship creation order.
     ///
     /// Relationship IDs are assigned to the document property first and then
-    /// to section children in insertion order. Preserving that order avoids a
+    /// to sections, built or read, in document order. Preserving that order avoids a
     /// sort and keeps double-digit IDs aligned with numbered package parts.
     pub(crate) fn headers(&self) -> impl Iterator<Item = &(String, Header)> {
         self.section_property.headers().chain(
             self.children
                 .iter()
                 .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
+                    DocumentChild::Section(section) => Some(&section.property),
+                    DocumentChild::Paragraph(paragraph) => {
+                        paragraph.property.section_property.as_ref()
+                    }
                     _ => None,
                 })
-                .flat_map(|section| section.property.headers()),
+                .flat_map(|property| property.headers()),
         )
     }
 
@@ -275,10 +278,13 @@ impl Document {
             self.children
                 .iter_mut()
                 .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
+                    DocumentChild::Section(section) => Some(&mut section.property),
+                    DocumentChild::Paragraph(paragraph) => {
+                        paragraph.property.section_property.as_mut()
+                    }
                     _ => None,
                 })
-                .flat_map(|section| section.property.headers_mut()),
+                .flat_map(|property| property.headers_mut()),
         )
     }
 
@@ -288,10 +294,13 @@ impl Document {
             self.children
                 .iter()
                 .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
+                    DocumentChild::Section(section) => Some(&section.property),
+                    DocumentChild::Paragraph(paragraph) => {
+                        paragraph.property.section_property.as_ref()
+                    }
                     _ => None,
                 })
-                .flat_map(|section| section.property.footers()),
+                .flat_map(|property| property.footers()),
         )
     }
 
@@ -301,10 +310,13 @@ impl Document {
             self.children
                 .iter_mut()
                 .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
+                    DocumentChild::Section(section) => Some(&mut section.property),
+                    DocumentChild::Paragraph(paragraph) => {
+                        paragraph.property.section_property.as_mut()
+                    }
                     _ => None,
                 })
-                .flat_map(|section| section.property.footers_mut()),
+                .flat_map(|property| property.footers_mut()),
         )
     }
 }
diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index f825eec..99014a6 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -196,6 +196,8 @@ impl SectionProperty {
                 if let Some(reference) = reference {
                     reference.id.clone_from(rid);
                 }
+            } else {
+                *reference = None;
             }
         }
         for (part, reference) in [
@@ -209,6 +211,8 @@ impl SectionProperty {
                 if let Some(reference) = reference {
                     reference.id.clone_from(rid);
                 }
+            } else {
+                *reference = None;
             }
         }
     }
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 2a71488..06a6bbb 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -925,8 +925,16 @@ impl Docx {
             .section_property
             .renumber_parts(&mut headers, &mut footers);
         for child in &mut self.document.children {
-            if let DocumentChild::Section(section) = child {
-                section.property.renumber_parts(&mut headers, &mut footers);
+            match child {
+                DocumentChild::Section(section) => {
+                    section.property.renumber_parts(&mut headers, &mut footers);
+                }
+                DocumentChild::Paragraph(paragraph) => {
+                    if let Some(property) = &mut paragraph.property.section_property {
+                        property.renumber_parts(&mut headers, &mut footers);
+                    }
+                }
+                _ => {}
             }
         }
         self.document_rels.header_count = headers;
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index eed4993..a26aea7 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -238,11 +238,22 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     docx = docx.document(document);
 
     // assign headers and footers
+    let mut assign = |docx: &mut Docx, section| {
+        assign_headers_and_footers(docx, section, &headers, &footers, |docx, rels| {
+            add_images(docx, rels, &mut archive, options.generate_image_previews)
+        })
+    };
     let section = std::mem::take(&mut docx.document.section_property);
-    let section = assign_headers_and_footers(&mut docx, section, &headers, &footers, |docx, rels| {
-        add_images(docx, rels, &mut archive, options.generate_image_previews)
-    });
-    docx.document.section_property = section;
+    docx.document.section_property = assign(&mut docx, section);
+    let mut children = std::mem::take(&mut docx.document.children);
+    for child in &mut children {
+        if let DocumentChild::Paragraph(paragraph) = child {
+            if let Some(section) = paragraph.property.section_property.take() {
+                paragraph.property.section_property = Some(assign(&mut docx, section));
+            }
+        }
+    }
+    docx.document.children = children;
 
     // store comments to paragraphs.
     if !comments.inner().is_empty() {
-- 
2.43.0


From f8a822c317fb89bf7fedbf8753b7884149d16865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:05:42 +0000
Subject: [PATCH 10/87] fix: read tables inside comments as tables

---
 docx-core/src/reader/comment.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index e42ef42..552588a 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -25,9 +25,16 @@ impl ElementReader for Comment {
                 }) => {
                     let e = XMLElement::from_str(&name.local_name)
                         .expect("should convert to XMLElement");
-                    if let XMLElement::Paragraph = e {
-                        let p = Paragraph::read(r, &attributes)?;
-                        comment = comment.add_paragraph(p);
+                    match e {
+                        XMLElement::Paragraph => {
+                            let p = Paragraph::read(r, &attributes)?;
+                            comment = comment.add_paragraph(p);
+                        }
+                        XMLElement::Table => {
+                            let t = Table::read(r, &attributes)?;
+                            comment = comment.add_table(t);
+                        }
+                        _ => {}
                     }
                 }
                 Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From e6f9c2d4f410f8fc654cb5c77ef6da9dc7001d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:10:25 +0000
Subject: [PATCH 11/87] fix: keep images that cannot be decoded when previews
 are generated

---
 docx-core/src/documents/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 06a6bbb..9bda13f 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -344,7 +344,11 @@ impl Docx {
 
             self.images
                 .push((id.into(), path, Image(buf), Png(png.into_inner())));
+            return self;
         }
+
+        self.images
+            .push((id.into(), path, Image(buf), Png(Vec::new())));
         self
     }
 
-- 
2.43.0


From 61eb30d193b5ea989be3f44d420e782cff7e89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:10:43 +0000
Subject: [PATCH 12/87] fix: turn on even and odd headers for sections that use
 them

---
 docx-core/src/documents/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 9bda13f..297ad8f 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -452,6 +452,7 @@ impl Docx {
         }
 
         if let Some(header) = new_section.temp_even_header.take() {
+            self.settings = self.settings.even_and_odd_headers();
             self.attach_section_header(&mut new_section, header, SectionProperty::even_header);
         }
 
@@ -464,6 +465,7 @@ impl Docx {
         }
 
         if let Some(footer) = new_section.temp_even_footer.take() {
+            self.settings = self.settings.even_and_odd_headers();
             self.attach_section_footer(&mut new_section, footer, SectionProperty::even_footer);
         }
 
-- 
2.43.0


From 86260c0e5a7c4da9830b475dd9e1cfb04dc5e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:02 +0000
Subject: [PATCH 13/87] fix: list a footnote once however often it is collected

---
 docx-core/src/documents/footnotes.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/footnotes.rs b/docx-core/src/documents/footnotes.rs
index 5769a27..ad8fd14 100644
--- a/docx-core/src/documents/footnotes.rs
+++ b/docx-core/src/documents/footnotes.rs
@@ -17,7 +17,13 @@ impl Footnotes {
     }
 
     pub(crate) fn add(&mut self, footnotes: Vec<Footnote>) {
-        self.footnotes.extend(footnotes)
+        for footnote in footnotes {
+            // The same note is found again when it is collected twice or its reference was cloned.
+            match self.footnotes.iter_mut().find(|f| f.id == footnote.id) {
+                Some(known) => *known = footnote,
+                None => self.footnotes.push(footnote),
+            }
+        }
     }
 }
 
-- 
2.43.0


From a69ba667705c2a4ee70efed48bb3f0199591609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:39 +0000
Subject: [PATCH 14/87] fix: include tabs and breaks of moved text in a
 paragraph's raw text

---
 docx-core/src/documents/elements/paragraph.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index b45637e..7310ece 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -451,8 +451,23 @@ impl Paragraph {
                     for c in mt.children.iter() {
                         if let MoveToChild::Run(r) = c {
                             for c in r.children.iter() {
-                                if let RunChild::Text(t) = c {
-                                    s.push_str(&t.text);
+                                match c {
+                                    RunChild::Text(t) => {
+                                        s.push_str(&t.text);
+                                    }
+                                    RunChild::Tab(_t) => {
+                                        s.push('\t');
+                                    }
+                                    RunChild::PTab(_t) => {
+                                        s.push('\t');
+                                    }
+                                    RunChild::Break(_b) => {
+                                        s.push('\n');
+                                    }
+                                    RunChild::CarriageReturn(_cr) => {
+                                        s.push('\n');
+                                    }
+                                    _ => {}
                                 }
                             }
                         }
-- 
2.43.0


From dc170bf3d416bf04ff6f02baf06c2b4a176e2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:59 +0000
Subject: [PATCH 15/87] fix: number paragraph property changes together with
 the other tracked changes

---
 docx-core/src/documents/history_id.rs             | 15 ++++++++++-----
 .../src/documents/paragraph_property_change_id.rs | 11 +++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/documents/history_id.rs b/docx-core/src/documents/history_id.rs
index 77f1be4..48364e7 100644
--- a/docx-core/src/documents/history_id.rs
+++ b/docx-core/src/documents/history_id.rs
@@ -3,14 +3,19 @@ use std::sync::atomic::AtomicUsize;
 #[cfg(not(test))]
 static HISTORY_ID: AtomicUsize = AtomicUsize::new(0);
 
+#[cfg(not(test))]
+pub(crate) fn generate_history_id() -> usize {
+    use std::sync::atomic::Ordering;
+
+    let id = HISTORY_ID.load(Ordering::Relaxed);
+    HISTORY_ID.store(id + 1, Ordering::Relaxed);
+    id
+}
+
 #[cfg(not(test))]
 pub trait HistoryId {
     fn generate(&self) -> String {
-        use std::sync::atomic::Ordering;
-
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
-        format!("{id}")
+        format!("{}", generate_history_id())
     }
 }
 
diff --git a/docx-core/src/documents/paragraph_property_change_id.rs b/docx-core/src/documents/paragraph_property_change_id.rs
index bb35284..b24f040 100644
--- a/docx-core/src/documents/paragraph_property_change_id.rs
+++ b/docx-core/src/documents/paragraph_property_change_id.rs
@@ -1,16 +1,11 @@
 #[cfg(not(test))]
-use std::sync::atomic::AtomicUsize;
-#[cfg(not(test))]
-static HISTORY_ID: AtomicUsize = AtomicUsize::new(0);
+use super::history_id::generate_history_id;
 
 #[cfg(not(test))]
 pub trait ParagraphPropertyChangeId {
+    // Property changes are numbered together with the other tracked changes.
     fn generate(&self) -> String {
-        use std::sync::atomic::Ordering;
-
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
-        format!("{id}")
+        format!("{}", generate_history_id())
     }
 }
 
-- 
2.43.0


From 70bdaac68d2bf0c17da749d9e414f52be52c2b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:33:04 +0000
Subject: [PATCH 16/87] fix: draw automatic ids atomically

---
 docx-core/src/documents/bookmark_id.rs  | 4 +---
 docx-core/src/documents/footnote_id.rs  | 4 +---
 docx-core/src/documents/history_id.rs   | 4 +---
 docx-core/src/documents/hyperlink_id.rs | 4 +---
 docx-core/src/documents/pic_id.rs       | 4 +---
 docx-core/src/documents/toc_key.rs      | 3 +--
 6 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/docx-core/src/documents/bookmark_id.rs b/docx-core/src/documents/bookmark_id.rs
index d418935..900eb06 100644
--- a/docx-core/src/documents/bookmark_id.rs
+++ b/docx-core/src/documents/bookmark_id.rs
@@ -7,9 +7,7 @@ static BOOKMARK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_bookmark_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = BOOKMARK_ID.load(Ordering::Relaxed);
-    BOOKMARK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    BOOKMARK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(not(test))]
diff --git a/docx-core/src/documents/footnote_id.rs b/docx-core/src/documents/footnote_id.rs
index f947529..f9ae56a 100644
--- a/docx-core/src/documents/footnote_id.rs
+++ b/docx-core/src/documents/footnote_id.rs
@@ -7,9 +7,7 @@ static FOOTNOTE_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_footnote_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = FOOTNOTE_ID.load(Ordering::Relaxed);
-    FOOTNOTE_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    FOOTNOTE_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/history_id.rs b/docx-core/src/documents/history_id.rs
index 48364e7..b8a246a 100644
--- a/docx-core/src/documents/history_id.rs
+++ b/docx-core/src/documents/history_id.rs
@@ -7,9 +7,7 @@ static HISTORY_ID: AtomicUsize = AtomicUsize::new(0);
 pub(crate) fn generate_history_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = HISTORY_ID.load(Ordering::Relaxed);
-    HISTORY_ID.store(id + 1, Ordering::Relaxed);
-    id
+    HISTORY_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(not(test))]
diff --git a/docx-core/src/documents/hyperlink_id.rs b/docx-core/src/documents/hyperlink_id.rs
index d972142..4a7184a 100644
--- a/docx-core/src/documents/hyperlink_id.rs
+++ b/docx-core/src/documents/hyperlink_id.rs
@@ -7,9 +7,7 @@ static HYPERLINK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_hyperlink_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = HYPERLINK_ID.load(Ordering::Relaxed);
-    HYPERLINK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    HYPERLINK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/pic_id.rs b/docx-core/src/documents/pic_id.rs
index b9939aa..3fd5f91 100644
--- a/docx-core/src/documents/pic_id.rs
+++ b/docx-core/src/documents/pic_id.rs
@@ -7,9 +7,7 @@ static PIC_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_pic_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = PIC_ID.load(Ordering::Relaxed);
-    PIC_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    PIC_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/toc_key.rs b/docx-core/src/documents/toc_key.rs
index 6de125f..27d62a5 100644
--- a/docx-core/src/documents/toc_key.rs
+++ b/docx-core/src/documents/toc_key.rs
@@ -8,8 +8,7 @@ pub trait TocKeyGenerator {
     fn generate() -> String {
         use std::sync::atomic::Ordering;
 
-        let id = TOC_KEY.load(Ordering::Relaxed);
-        TOC_KEY.store(id + 1, Ordering::Relaxed);
+        let id = TOC_KEY.fetch_add(1, Ordering::Relaxed);
         format!("_Toc{id:08}")
     }
 }
-- 
2.43.0


From 41f44af58f2ffed5bb46361d1cbe65674731439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:18:24 +0000
Subject: [PATCH 17/87] fix: stop writing an archive once its destination has
 failed

---
 docx-core/src/zipper/mod.rs | 56 +++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/zipper/mod.rs b/docx-core/src/zipper/mod.rs
index c1b9b3c..f1f1f90 100644
--- a/docx-core/src/zipper/mod.rs
+++ b/docx-core/src/zipper/mod.rs
@@ -5,6 +5,58 @@ use std::io::prelude::*;
 use std::io::Seek;
 use zip::write::SimpleFileOptions;
 
+/// A destination that retries interrupted calls and keeps failing once it has failed.
+///
+/// The ZIP writer tries to finish the archive when it is dropped after an
+/// error, and must not go on from an inconsistent position.
+struct FailFast<W> {
+    inner: W,
+    failed: bool,
+}
+
+impl<W> FailFast<W> {
+    fn new(inner: W) -> Self {
+        Self {
+            inner,
+            failed: false,
+        }
+    }
+
+    fn call<T>(&mut self, f: impl Fn(&mut W) -> std::io::Result<T>) -> std::io::Result<T> {
+        if self.failed {
+            return Err(std::io::Error::other("the destination failed before"));
+        }
+        loop {
+            match f(&mut self.inner) {
+                Err(error) if error.kind() == std::io::ErrorKind::Interrupted => {}
+                result => {
+                    self.failed = result.is_err();
+                    return result;
+                }
+            }
+        }
+    }
+}
+
+impl<W: Write> Write for FailFast<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.call(|w| match w.write(buf)? {
+            0 if !buf.is_empty() => Err(std::io::ErrorKind::WriteZero.into()),
+            n => Ok(n),
+        })
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.call(|w| w.flush())
+    }
+}
+
+impl<W: Seek> Seek for FailFast<W> {
+    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
+        self.call(|w| w.seek(pos))
+    }
+}
+
 /// Renders one XML part into a reusable buffer and writes it to the ZIP entry.
 ///
 /// Buffering one part avoids the many tiny writes that are costly in
@@ -42,7 +94,7 @@ pub fn zip<W>(w: W, xml: XMLDocx) -> zip::result::ZipResult<()>
 where
     W: Write + Seek,
 {
-    let mut zip = zip::ZipWriter::new(w);
+    let mut zip = zip::ZipWriter::new(FailFast::new(w));
 
     let directory_options = SimpleFileOptions::default();
 
@@ -160,7 +212,7 @@ pub(crate) fn zip_docx<W>(
 where
     W: Write + Seek,
 {
-    let mut zip = zip::ZipWriter::new(writer);
+    let mut zip = zip::ZipWriter::new(FailFast::new(writer));
     let directory_options = SimpleFileOptions::default();
 
     zip.add_directory("word/", directory_options)?;
-- 
2.43.0


From f83b43e17db90f998822a304683715b1c5d9108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:23:30 +0000
Subject: [PATCH 18/87] fix: keep the paragraph ids of footnotes and inner
 section headers unique

---
 docx-core/src/documents/mod.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 297ad8f..b447921 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1340,6 +1340,9 @@ fn collect_para_ids_in_paragraph<'a>(
     counts: &mut HashMap<&'a str, usize>,
 ) {
     *counts.entry(paragraph.id.as_str()).or_insert(0) += 1;
+    if let Some(property) = paragraph.property.section_property.as_ref() {
+        collect_para_ids_in_section_property(property, counts);
+    }
 
     for child in &paragraph.children {
         match child {
@@ -1427,8 +1430,14 @@ fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<&'a s
 
 fn collect_para_ids_in_run<'a>(run: &'a Run, counts: &mut HashMap<&'a str, usize>) {
     for child in &run.children {
-        if let RunChild::CommentStart(c) = child {
-            collect_para_ids_in_comment(&c.comment, counts);
+        match child {
+            RunChild::CommentStart(c) => collect_para_ids_in_comment(&c.comment, counts),
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &reference.content {
+                    collect_para_ids_in_paragraph(paragraph, counts);
+                }
+            }
+            _ => {}
         }
     }
 }
@@ -1666,6 +1675,9 @@ fn refresh_para_ids_in_paragraph(
     seen: &mut HashSet<String>,
 ) {
     ensure_unique_paragraph_id(paragraph, duplicates, used, seen);
+    if let Some(property) = paragraph.property.section_property.as_mut() {
+        refresh_para_ids_in_section_property(property, duplicates, used, seen);
+    }
 
     for child in &mut paragraph.children {
         match child {
@@ -1812,8 +1824,16 @@ fn refresh_para_ids_in_run(
     seen: &mut HashSet<String>,
 ) {
     for child in &mut run.children {
-        if let RunChild::CommentStart(c) = child {
-            refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen);
+        match child {
+            RunChild::CommentStart(c) => {
+                refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen)
+            }
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &mut reference.content {
+                    refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
+                }
+            }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From 42897ba00cca6345f3730212cbca366505235c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:24:35 +0000
Subject: [PATCH 19/87] fix: compare paragraph ids without regard to letter
 case

---
 docx-core/src/documents/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index b447921..6895e45 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -951,20 +951,26 @@ impl Docx {
 
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
-        let mut counts: HashMap<&str, usize> = HashMap::new();
-        collect_para_ids_in_docx(self, &mut counts);
+        let mut exact_counts: HashMap<&str, usize> = HashMap::new();
+        collect_para_ids_in_docx(self, &mut exact_counts);
+
+        // Ids are hexadecimal numbers, the case of their letters means nothing.
+        let mut counts: HashMap<String, usize> = HashMap::new();
+        for (id, count) in exact_counts {
+            *counts.entry(id.to_ascii_lowercase()).or_insert(0) += count;
+        }
 
         let duplicates: HashSet<String> = counts
             .iter()
             .filter(|(_, count)| **count > 1)
-            .map(|(id, _)| (*id).to_owned())
+            .map(|(id, _)| id.to_owned())
             .collect();
         let has_empty_id = counts.contains_key("");
         if duplicates.is_empty() && !has_empty_id {
             return;
         }
 
-        let mut used: HashSet<String> = counts.into_keys().map(str::to_owned).collect();
+        let mut used: HashSet<String> = counts.into_keys().collect();
         let mut seen: HashSet<String> = HashSet::new();
 
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
@@ -1888,10 +1894,11 @@ fn ensure_unique_paragraph_id(
     used: &mut HashSet<String>,
     seen: &mut HashSet<String>,
 ) {
-    if !paragraph.id.is_empty() && !duplicates.contains(&paragraph.id) {
+    let id = paragraph.id.to_ascii_lowercase();
+    if !id.is_empty() && !duplicates.contains(&id) {
         return;
     }
-    if !paragraph.id.is_empty() && seen.insert(paragraph.id.clone()) {
+    if !id.is_empty() && seen.insert(id) {
         return;
     }
 
-- 
2.43.0


From 8f7c362633a4989ee151d0d02964419731286b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:25:59 +0000
Subject: [PATCH 20/87] fix: keep the ids of paragraphs added while writing
 apart from the document's

---
 docx-core/src/documents/mod.rs          | 12 ++++++------
 docx-core/src/documents/paragraph_id.rs | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 6895e45..01884a4 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -966,14 +966,14 @@ impl Docx {
             .map(|(id, _)| id.to_owned())
             .collect();
         let has_empty_id = counts.contains_key("");
-        if duplicates.is_empty() && !has_empty_id {
-            return;
-        }
-
         let mut used: HashSet<String> = counts.into_keys().collect();
-        let mut seen: HashSet<String> = HashSet::new();
+        if !duplicates.is_empty() || has_empty_id {
+            let mut seen: HashSet<String> = HashSet::new();
+            refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
+        }
 
-        refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
+        // Paragraphs added while the parts are written draw their ids last.
+        crate::skip_used_para_ids(used.iter().map(String::as_str));
     }
 
     /// Collects comments and hyperlinks from the document and adds them to
diff --git a/docx-core/src/documents/paragraph_id.rs b/docx-core/src/documents/paragraph_id.rs
index 051e311..7b326f5 100644
--- a/docx-core/src/documents/paragraph_id.rs
+++ b/docx-core/src/documents/paragraph_id.rs
@@ -23,6 +23,22 @@ pub fn reset_para_id() {
     PARA_ID.set(1);
 }
 
+/// Continues with the widest range of ids that contains none of the given ones.
+#[cfg(not(test))]
+pub(crate) fn skip_used_para_ids<'a>(used: impl Iterator<Item = &'a str>) {
+    const END: u32 = 0x8000_0000;
+    let mut ids: Vec<u32> = used
+        .filter_map(|id| u32::from_str_radix(id, 16).ok())
+        .filter(|id| *id < END)
+        .chain([0, END])
+        .collect();
+    ids.sort_unstable();
+    let widest = ids.windows(2).max_by_key(|pair| pair[1] - pair[0]);
+    if let Some(pair) = widest {
+        PARA_ID.set(pair[0] + 1);
+    }
+}
+
 #[cfg(test)]
 pub fn generate_para_id() -> String {
     "12345678".to_owned()
@@ -32,3 +48,8 @@ pub fn generate_para_id() -> String {
 pub fn reset_para_id() {
     // NOP
 }
+
+#[cfg(test)]
+pub(crate) fn skip_used_para_ids<'a>(_used: impl Iterator<Item = &'a str>) {
+    // NOP
+}
-- 
2.43.0


From 16dbe6fc40c1d9251286e50832968da48db5200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:47 +0000
Subject: [PATCH 21/87] fix: write custom properties in a fixed order

---
 docx-core/src/documents/doc_props/custom.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index 41cb22f..4b248a3 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -1,4 +1,5 @@
-use serde::Serialize;
+use serde::{Serialize, Serializer};
+use std::collections::{BTreeMap, HashMap};
 use std::io::Write;
 
 use crate::documents::BuildXML;
@@ -7,7 +8,19 @@ use crate::xml_builder::*;
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
 pub struct CustomProps {
-    pub properties: std::collections::HashMap<String, String>,
+    #[serde(serialize_with = "serialize_sorted")]
+    pub properties: HashMap<String, String>,
+}
+
+/// Keeps the export independent of the map's iteration order.
+fn serialize_sorted<S: Serializer>(
+    properties: &HashMap<String, String>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    properties
+        .iter()
+        .collect::<BTreeMap<_, _>>()
+        .serialize(serializer)
 }
 
 impl CustomProps {
@@ -26,13 +39,14 @@ impl BuildXML for CustomProps {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        let properties: BTreeMap<_, _> = self.properties.iter().collect();
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_custom_properties(
                 "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties",
                 "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes",
             )?
-            .apply_each(self.properties.iter().enumerate(), |(i, (key, item)), b| {
+            .apply_each(properties.into_iter().enumerate(), |(i, (key, item)), b| {
                 b.open_property(
                     "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}",
                     // I can not find spec about this id.
-- 
2.43.0


From ed5d8f0a49c14760336d8aadd12847eb53aa736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:55 +0000
Subject: [PATCH 22/87] fix: stop reading at the end of unfinished XML

A part that ends before its elements are closed made most readers loop
forever. The event reader now reports the end once, only when every
element was closed, and an error on every later call.
---
 docx-core/src/reader/custom_properties.rs |  1 +
 docx-core/src/reader/ignore.rs            | 13 +++++----
 docx-core/src/reader/numberings.rs        |  2 ++
 docx-core/src/reader/xml_parser.rs        | 35 +++++++++++++++++++++++
 4 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index dfc71f2..d3f1928 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -37,6 +37,7 @@ impl FromXML for CustomProps {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/ignore.rs b/docx-core/src/reader/ignore.rs
index 727addf..12ec11a 100644
--- a/docx-core/src/reader/ignore.rs
+++ b/docx-core/src/reader/ignore.rs
@@ -6,12 +6,15 @@ use super::*;
 pub(crate) fn ignore_element<R: Read>(el: XMLElement, ignore: XMLElement, r: &mut EventReader<R>) {
     if ignore == el {
         loop {
-            let e = r.next_event();
-            if let Ok(XmlEvent::EndElement { name, .. }) = e {
-                let e = XMLElement::from_str(&name.local_name).unwrap();
-                if e == ignore {
-                    break;
+            match r.next_event() {
+                Ok(XmlEvent::EndElement { name, .. }) => {
+                    let e = XMLElement::from_str(&name.local_name).unwrap();
+                    if e == ignore {
+                        break;
+                    }
                 }
+                Err(_) => break,
+                _ => {}
             }
         }
     }
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 5034add..cb9e5bd 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -54,6 +54,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
@@ -100,6 +101,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 8ef0eda..22ff007 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -2,6 +2,7 @@ use std::collections::VecDeque;
 use std::io::{BufReader, Read};
 
 use quick_xml::encoding::Decoder;
+use quick_xml::errors::{Error, IllFormedError};
 use quick_xml::escape::unescape;
 use quick_xml::events::{BytesEnd, BytesRef, BytesStart, BytesText, Event};
 use quick_xml::Reader;
@@ -62,6 +63,8 @@ pub struct EventReader<R: Read> {
     buf: Vec<u8>,
     pending: VecDeque<XmlEvent>,
     finished: bool,
+    depth: usize,
+    exhausted: bool,
 }
 
 impl<R: Read> EventReader<R> {
@@ -78,6 +81,8 @@ impl<R: Read> EventReader<R> {
             buf: Vec::new(),
             pending: VecDeque::new(),
             finished: false,
+            depth: 0,
+            exhausted: false,
         }
     }
 
@@ -85,7 +90,33 @@ impl<R: Read> EventReader<R> {
         self.read_next()
     }
 
+    /// Returns the next event. The end of the document is reported once and only when every element
+    /// was closed; after it, or after an error, every further call is an error.
     fn read_next(&mut self) -> Result<XmlEvent, quick_xml::Error> {
+        if self.exhausted {
+            return Err(unclosed());
+        }
+        let event = self.read_raw();
+        match &event {
+            Ok(XmlEvent::StartElement { .. }) => {
+                self.depth += 1;
+            }
+            Ok(XmlEvent::EndElement { .. }) => {
+                self.depth = self.depth.saturating_sub(1);
+            }
+            Ok(XmlEvent::EndDocument) => {
+                self.exhausted = true;
+                if self.depth > 0 {
+                    return Err(unclosed());
+                }
+            }
+            Ok(_) => {}
+            Err(_) => self.exhausted = true,
+        }
+        event
+    }
+
+    fn read_raw(&mut self) -> Result<XmlEvent, quick_xml::Error> {
         if let Some(event) = self.pending.pop_front() {
             return Ok(event);
         }
@@ -230,6 +261,10 @@ impl<R: Read> Iterator for EventReader<R> {
     }
 }
 
+fn unclosed() -> quick_xml::Error {
+    Error::IllFormed(IllFormedError::MissingEndTag(String::new()))
+}
+
 fn build_name_from_start(element: &BytesStart<'_>) -> Result<OwnedName, quick_xml::Error> {
     let name = element.name();
     Ok(split_qname(name.as_ref()))
-- 
2.43.0


From f6e27916670326601041ceb7fc4be67d490de22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:55 +0000
Subject: [PATCH 23/87] fix: read value attributes by name

Many readers took the first attribute of an element as its value. They
panicked when it was missing and took the wrong one when another
attribute came first.
---
 docx-core/src/reader/level.rs              | 25 +++++++++++++++-------
 docx-core/src/reader/level_override.rs     |  6 ++++--
 docx-core/src/reader/numbering_property.rs |  8 +++++--
 docx-core/src/reader/numberings.rs         | 13 +++++++----
 docx-core/src/reader/paragraph_property.rs | 12 ++++++++---
 docx-core/src/reader/run_property.rs       | 20 +++++++++++++----
 docx-core/src/reader/style.rs              |  4 +++-
 docx-core/src/reader/table.rs              |  4 +++-
 docx-core/src/reader/table_property.rs     |  4 +++-
 9 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 4e2fd38..88042a2 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -36,8 +36,7 @@ impl ElementReader for Level {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::ParagraphStyle => {
-                            let id = attributes[0].value.clone();
-                            style_id = Some(id);
+                            style_id = read_val(&attributes);
                         }
                         XMLElement::ParagraphProperty => {
                             if let Ok(pr) = ParagraphProperty::read(r, attrs) {
@@ -52,27 +51,37 @@ impl ElementReader for Level {
                             continue;
                         }
                         XMLElement::Start => {
-                            start = Start::new(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                start = Start::new(usize::from_str(&v)?);
+                            }
                         }
                         XMLElement::NumberFormat => {
-                            num_fmt = NumberFormat::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                num_fmt = NumberFormat::new(v);
+                            }
                         }
                         XMLElement::Suffix => {
-                            suffix = LevelSuffixType::from_str(&attributes[0].value)?;
+                            if let Some(v) = read_val(&attributes) {
+                                suffix = LevelSuffixType::from_str(&v)?;
+                            }
                         }
                         XMLElement::IsLgl => {
                             is_lgl = Some(IsLgl::new());
                         }
                         XMLElement::LevelText => {
-                            level_text = LevelText::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                level_text = LevelText::new(v);
+                            }
                         }
                         XMLElement::LevelRestart => {
-                            if let Ok(v) = u32::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) = read_val(&attributes).map(|v| u32::from_str(&v)) {
                                 level_restart = Some(LevelRestart::new(v));
                             }
                         }
                         XMLElement::LevelJustification => {
-                            jc = LevelJc::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                jc = LevelJc::new(v);
+                            }
                         }
                         XMLElement::Indent => {
                             let i = read_indent(&attributes)?;
diff --git a/docx-core/src/reader/level_override.rs b/docx-core/src/reader/level_override.rs
index 4cfc5eb..c29a902 100644
--- a/docx-core/src/reader/level_override.rs
+++ b/docx-core/src/reader/level_override.rs
@@ -8,7 +8,7 @@ impl ElementReader for LevelOverride {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        if let Ok(level) = usize::from_str(&attrs[0].value) {
+        if let Some(Ok(level)) = read(attrs, "ilvl").map(|v| usize::from_str(&v)) {
             let mut o = LevelOverride::new(level);
             loop {
                 let e = r.next_event();
@@ -19,7 +19,9 @@ impl ElementReader for LevelOverride {
                         let e = XMLElement::from_str(&name.local_name).unwrap();
                         match e {
                             XMLElement::StartOverride => {
-                                if let Ok(val) = usize::from_str(&attributes[0].value) {
+                                if let Some(Ok(val)) =
+                                    read_val(&attributes).map(|v| usize::from_str(&v))
+                                {
                                     o = o.start(val);
                                 }
                                 continue;
diff --git a/docx-core/src/reader/numbering_property.rs b/docx-core/src/reader/numbering_property.rs
index f1678bf..cc28d08 100644
--- a/docx-core/src/reader/numbering_property.rs
+++ b/docx-core/src/reader/numbering_property.rs
@@ -19,11 +19,15 @@ impl ElementReader for NumberingProperty {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::IndentLevel => {
-                            level = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                level = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         XMLElement::NumberingId => {
-                            id = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                id = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         _ => {}
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index cb9e5bd..7bdcd33 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -38,11 +38,14 @@ impl FromXML for Numberings {
                                                 abs_num = abs_num.add_level(l);
                                             }
                                             XMLElement::StyleLink => {
-                                                abs_num = abs_num.style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.style_link(v)
+                                                }
                                             }
                                             XMLElement::NumStyleLink => {
-                                                abs_num =
-                                                    abs_num.num_style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.num_style_link(v)
+                                                }
                                             }
                                             _ => {}
                                         }
@@ -80,7 +83,9 @@ impl FromXML for Numberings {
                                         let e = XMLElement::from_str(&name.local_name).unwrap();
                                         match e {
                                             XMLElement::AbstractNumberingId => {
-                                                abs_num_id = usize::from_str(&attributes[0].value)?
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num_id = usize::from_str(&v)?
+                                                }
                                             }
                                             XMLElement::LvlOverride => {
                                                 if let Ok(o) =
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 361450c..3b14025 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -42,13 +42,17 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = AlignmentType::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) =
+                                read_val(&attributes).map(|v| AlignmentType::from_str(&v))
+                            {
                                 p = p.align(v);
                             }
                             continue;
                         }
                         XMLElement::TextAlignment => {
-                            if let Ok(v) = TextAlignmentType::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) =
+                                read_val(&attributes).map(|v| TextAlignmentType::from_str(&v))
+                            {
                                 p = p.text_alignment(v);
                             }
                             continue;
@@ -62,7 +66,9 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::ParagraphStyle => {
-                            p = p.style(&attributes[0].value);
+                            if let Some(v) = read_val(&attributes) {
+                                p = p.style(&v);
+                            }
                             continue;
                         }
                         XMLElement::RunProperty => {
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 187f50d..17d4235 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -107,7 +107,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.ptab(v)
                             }
                         }
-                        XMLElement::Highlight => rp = rp.highlight(attributes[0].value.clone()),
+                        XMLElement::Highlight => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.highlight(v)
+                            }
+                        }
                         XMLElement::Strike => {
                             if !read_bool(&attributes) {
                                 rp.strike = Some(Strike::new().disable());
@@ -123,13 +127,17 @@ impl ElementReader for RunProperty {
                             rp = rp.dstrike();
                         }
                         XMLElement::VertAlign => {
-                            if let Ok(v) = VertAlignType::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) =
+                                read_val(&attributes).map(|v| VertAlignType::from_str(&v))
+                            {
                                 rp = rp.vert_align(v)
                             }
                         }
                         XMLElement::Color => rp = read_color(rp, &attributes),
                         XMLElement::Size => {
-                            rp = rp.size(f64::from_str(&attributes[0].value)? as usize)
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.size(f64::from_str(&v)? as usize)
+                            }
                         }
                         XMLElement::Spacing => {
                             if let Some(v) = read_val(&attributes) {
@@ -152,7 +160,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.fonts(f);
                             }
                         }
-                        XMLElement::Underline => rp = rp.underline(attributes[0].value.clone()),
+                        XMLElement::Underline => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.underline(v)
+                            }
+                        }
                         XMLElement::Italic => {
                             if !read_bool(&attributes) {
                                 rp = rp.disable_italic();
diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index 9d611ab..bb9557a 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -30,7 +30,9 @@ impl ElementReader for Style {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::Name => {
-                            style = style.name(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                style = style.name(v);
+                            }
                             continue;
                         }
                         XMLElement::BasedOn => {
diff --git a/docx-core/src/reader/table.rs b/docx-core/src/reader/table.rs
index 5c0e511..82d4211 100644
--- a/docx-core/src/reader/table.rs
+++ b/docx-core/src/reader/table.rs
@@ -35,7 +35,9 @@ impl ElementReader for Table {
                             }
                         }
                         XMLElement::Justification => {
-                            t = t.align(TableAlignmentType::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                t = t.align(TableAlignmentType::from_str(&v)?);
+                            }
                         }
                         XMLElement::TableIndent => {
                             let (w, _) = read_width(&attributes)?;
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index aeca707..810a6c6 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -37,7 +37,9 @@ impl ElementReader for TableProperty {
                             }
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = TableAlignmentType::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) =
+                                read_val(&attributes).map(|v| TableAlignmentType::from_str(&v))
+                            {
                                 tp = tp.align(v);
                             }
                         }
-- 
2.43.0


From bfdc03c7f00e084a3f34f937dfce8ce0f639faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:55 +0000
Subject: [PATCH 24/87] fix: refuse XML nested deeper than 256 elements

The readers recurse per element, so deep input overflowed the stack.
---
 docx-core/src/reader/xml_parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 22ff007..4c796a4 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -58,6 +58,9 @@ pub enum XmlEvent {
     EndDocument,
 }
 
+/// Deepest element nesting accepted. Readers recurse per element, so input must not control the stack.
+const MAX_DEPTH: usize = 256;
+
 pub struct EventReader<R: Read> {
     reader: Reader<BufReader<R>>,
     buf: Vec<u8>,
@@ -100,6 +103,10 @@ impl<R: Read> EventReader<R> {
         match &event {
             Ok(XmlEvent::StartElement { .. }) => {
                 self.depth += 1;
+                if self.depth > MAX_DEPTH {
+                    self.exhausted = true;
+                    return Err(unclosed());
+                }
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 self.depth = self.depth.saturating_sub(1);
-- 
2.43.0


From 151be02cb49543904a413aa6352943fd7811028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:38 +0000
Subject: [PATCH 25/87] fix: return an error for missing or malformed
 attributes

Comments without an id, widths that are no numbers and short content
type entries made the reader panic.
---
 docx-core/src/documents/content_types.rs | 10 ++++++----
 docx-core/src/reader/attributes/val.rs   |  2 +-
 docx-core/src/reader/attributes/width.rs |  2 +-
 docx-core/src/reader/comment.rs          |  2 +-
 docx-core/src/reader/comment_extended.rs |  2 +-
 5 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index fa9df05..8aaa1cd 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -1,4 +1,4 @@
-use crate::reader::{EventReader, XmlEvent};
+use crate::reader::{read, EventReader, XmlEvent};
 use serde::{Deserialize, Serialize};
 use std::collections::BTreeMap;
 use std::io::{Read, Write};
@@ -205,9 +205,11 @@ impl FromXML for ContentTypes {
             match e {
                 Ok(XmlEvent::StartElement { attributes, .. }) => {
                     if depth == 1 {
-                        let namespace = attributes[0].value.clone();
-                        let path = attributes[1].value.clone();
-                        s = s.add_content(path, namespace);
+                        let path = read(&attributes, "PartName");
+                        let namespace = read(&attributes, "ContentType");
+                        if let (Some(path), Some(namespace)) = (path, namespace) {
+                            s = s.add_content(path, namespace);
+                        }
                     }
                     depth += 1;
                 }
diff --git a/docx-core/src/reader/attributes/val.rs b/docx-core/src/reader/attributes/val.rs
index 0f8dc21..16ce58c 100644
--- a/docx-core/src/reader/attributes/val.rs
+++ b/docx-core/src/reader/attributes/val.rs
@@ -17,7 +17,7 @@ pub fn read_val(attrs: &[OwnedAttribute]) -> Option<String> {
 pub fn value_to_dax(v: &str) -> Result<i32, ReaderError> {
     if v.ends_with("pt") {
         let v = f64::from_str(&v.replace("pt", ""))? as i32;
-        Ok(v * 20)
+        Ok(v.saturating_mul(20))
     } else {
         Ok(f64::from_str(v)? as i32)
     }
diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index 2a01be5..b33f87f 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -15,7 +15,7 @@ pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), Reader
             width_type = WidthType::from_str(&a.value)?;
         } else if local_name == "w" {
             let v = a.value.replace('%', "");
-            w = f64::from_str(&v).expect("should read width.") as isize;
+            w = f64::from_str(&v)? as isize;
         }
     }
     Ok((w, width_type))
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index 552588a..192acea 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -9,7 +9,7 @@ impl ElementReader for Comment {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
+        let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
             comment = comment.author(escape::escape(author.as_str()));
diff --git a/docx-core/src/reader/comment_extended.rs b/docx-core/src/reader/comment_extended.rs
index 02a2ceb..6c81721 100644
--- a/docx-core/src/reader/comment_extended.rs
+++ b/docx-core/src/reader/comment_extended.rs
@@ -7,7 +7,7 @@ impl ElementReader for CommentExtended {
         _r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let para_id = read(attrs, "paraId").expect("should comment id exists.");
+        let para_id = read(attrs, "paraId").ok_or(ReaderError::XMLReadError)?;
         let mut comment_extended = CommentExtended::new(para_id);
         if let Some(done) = read(attrs, "done") {
             if !is_false(&done) {
-- 
2.43.0


From cf1b8b759cfc0b87dbf6a332d10370f96f27b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:38 +0000
Subject: [PATCH 26/87] fix: report archive entries that cannot be read

A wrong checksum or broken compressed data made the reader panic, and the
declared size of an entry was allocated unchecked.
---
 docx-core/src/reader/read_zip.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index df37556..df51690 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -15,9 +15,11 @@ pub fn read_zip(
         name.trim_start_matches('/')
     };
     let mut xml = archive.by_name(path)?;
-    let capacity = usize::try_from(xml.size()).unwrap_or(0);
+    // The declared size is not trusted, so it only hints at the capacity.
+    let capacity = usize::try_from(xml.size()).unwrap_or(0).min(1 << 20);
     let mut data = Vec::with_capacity(capacity);
-    xml.read_to_end(&mut data).unwrap();
+    xml.read_to_end(&mut data)
+        .map_err(zip::result::ZipError::Io)?;
     // Remove BOM
     if data.starts_with(&[0xef, 0xbb, 0xbf]) {
         data.copy_within(3.., 0);
-- 
2.43.0


From e559e2b9d9e4e2bc8f1ede4c683da18d885e2e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:44:05 +0000
Subject: [PATCH 27/87] fix: parse custom XML without recursing per event

Every sibling added a stack frame, so long items overflowed the stack, and
text that is not XML panicked instead of returning an error.
---
 docx-core/src/xml_json/mod.rs | 147 +++++++++++-----------------------
 1 file changed, 46 insertions(+), 101 deletions(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index c7558e8..1961ce6 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -13,7 +13,7 @@ use std::io::prelude::*;
 use std::io::Cursor;
 use std::str::FromStr;
 
-use crate::reader::{EventReader, Namespace, OwnedAttribute, OwnedName, XmlEvent};
+use crate::reader::{EventReader, OwnedAttribute, OwnedName, XmlEvent};
 
 /// An XML Document
 #[derive(Debug, Clone)]
@@ -99,110 +99,59 @@ fn map_owned_attributes(attrs: Vec<OwnedAttribute>) -> Vec<(String, String)> {
         .collect()
 }
 
-fn parse(
-    mut data: Vec<XmlEvent>,
-    current: Option<XmlData>,
-    mut current_vec: Vec<XmlData>,
-    trim: bool,
-    current_namespace: Namespace,
-) -> Result<(Vec<XmlData>, Vec<XmlEvent>), String> {
-    if let Some(elmt) = data.pop() {
-        match elmt {
+fn qualified_name(name: OwnedName) -> String {
+    match name.prefix {
+        Some(prefix) if !name.local_name.is_empty() => format!("{}:{}", prefix, name.local_name),
+        Some(prefix) => prefix,
+        None => name.local_name,
+    }
+}
+
+/// Builds the tree with an explicit stack of open elements, so that its size is not limited by the
+/// call stack.
+fn parse<R: Read>(source: R, trim: bool) -> Result<Vec<XmlData>, String> {
+    let mut roots = vec![];
+    let mut open: Vec<XmlData> = vec![];
+    for event in EventReader::new(source) {
+        match event.map_err(|e| e.to_string())? {
             XmlEvent::StartElement {
-                name,
-                attributes,
-                namespace,
-            } => {
-                let fmt_name = match name.prefix {
-                    Some(prefix) if !name.local_name.is_empty() => {
-                        format!("{}:{}", prefix, name.local_name)
-                    }
-                    Some(prefix) => prefix,
-                    None => name.local_name,
-                };
-
-                let attributes = if namespace == current_namespace {
-                    attributes
-                } else {
-                    let mut attributes = attributes;
-                    let n = namespace.clone();
-                    let ns = n
-                        .into_iter()
-                        .filter(|(_k, v)| {
-                            (!v.is_empty())
-                                && (v != "http://www.w3.org/2000/xmlns/")
-                                && (v != "http://www.w3.org/XML/1998/namespace")
-                        })
-                        .map(|(k, v)| OwnedAttribute {
-                            name: OwnedName {
-                                local_name: k.to_string(),
-                                namespace: if v.is_empty() {
-                                    None
-                                } else {
-                                    Some(v.to_string())
-                                },
-                                prefix: Some("xmlns".to_string()),
-                            },
-                            value: v.to_string(),
-                        });
-                    attributes.extend(ns);
-                    attributes
-                };
-
-                let inner = XmlData {
-                    name: fmt_name,
-                    attributes: map_owned_attributes(attributes),
-                    data: None,
-                    children: Vec::new(),
-                };
-
-                let (inner, rest) = parse(data, Some(inner), Vec::new(), trim, namespace.clone())?;
-
-                if let Some(mut crnt) = current {
-                    crnt.children.extend(inner);
-                    parse(rest, Some(crnt), current_vec, trim, namespace)
-                } else {
-                    current_vec.extend(inner);
-                    parse(rest, None, current_vec, trim, namespace)
-                }
-            }
+                name, attributes, ..
+            } => open.push(XmlData {
+                name: qualified_name(name),
+                attributes: map_owned_attributes(attributes),
+                data: None,
+                children: Vec::new(),
+            }),
             XmlEvent::Characters(chr) => {
                 let chr = if trim { chr.trim().to_string() } else { chr };
-                if let Some(mut crnt) = current {
-                    crnt.data = Some(chr);
-                    parse(data, Some(crnt), current_vec, trim, current_namespace)
-                } else {
-                    Err("Invalid form of XML doc".to_string())
+                match open.last_mut() {
+                    Some(current) => current.data = Some(chr),
+                    None => return Err("Invalid form of XML doc".to_string()),
                 }
             }
             XmlEvent::EndElement { name } => {
-                let fmt_name = match &name.prefix {
-                    Some(prefix) if !name.local_name.is_empty() => {
-                        format!("{}:{}", prefix, name.local_name)
-                    }
-                    Some(prefix) => prefix.clone(),
-                    None => name.local_name.clone(),
-                };
-                if let Some(crnt) = current {
-                    if crnt.name == fmt_name {
-                        current_vec.push(crnt);
-                        Ok((current_vec, data))
-                    } else {
-                        Err(format!(
-                            "Invalid end tag: expected {}, got {}",
-                            crnt.name, name.local_name
-                        ))
-                    }
-                } else {
-                    Err(format!("Invalid end tag: {}", name.local_name))
+                let name = qualified_name(name);
+                let current = open
+                    .pop()
+                    .ok_or_else(|| format!("Invalid end tag: {name}"))?;
+                if current.name != name {
+                    return Err(format!(
+                        "Invalid end tag: expected {}, got {name}",
+                        current.name
+                    ));
+                }
+                match open.last_mut() {
+                    Some(parent) => parent.children.push(current),
+                    None => roots.push(current),
                 }
             }
-            _ => parse(data, current, current_vec, trim, current_namespace),
+            _ => {}
         }
-    } else if let Some(_current) = current {
-        Err("Invalid end tag".to_string())
+    }
+    if open.is_empty() {
+        Ok(roots)
     } else {
-        Ok((current_vec, Vec::new()))
+        Err("Invalid end tag".to_string())
     }
 }
 
@@ -211,12 +160,8 @@ impl XmlDocument {
     where
         R: Read,
     {
-        let parser = EventReader::new(source);
-        let mut events: Vec<XmlEvent> = parser.into_iter().map(|x| x.unwrap()).collect();
-        events.reverse();
-
-        parse(events, None, Vec::new(), trim, Namespace::empty())
-            .map(|(data, _)| XmlDocument { data })
+        parse(source, trim)
+            .map(|data| XmlDocument { data })
             .map_err(ParseXmlError)
     }
 }
-- 
2.43.0


From 03b10b69c0ceba7f452e5cdfdc59b54f41617451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:47:42 +0000
Subject: [PATCH 28/87] fix: read pictures that have no PNG form

A picture that decodes but cannot be encoded as PNG, such as a floating
point TIFF, made reading panic. It is kept without a preview.
---
 docx-core/src/documents/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 01884a4..ca2c78a 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -339,12 +339,11 @@ impl Docx {
         if let Ok(dimg) = image::load_from_memory(&buf) {
             let mut png = std::io::Cursor::new(vec![]);
             // For now only png supported
-            dimg.write_to(&mut png, image::ImageFormat::Png)
-                .expect("Unable to write dynamic image");
-
-            self.images
-                .push((id.into(), path, Image(buf), Png(png.into_inner())));
-            return self;
+            if dimg.write_to(&mut png, image::ImageFormat::Png).is_ok() {
+                self.images
+                    .push((id.into(), path, Image(buf), Png(png.into_inner())));
+                return self;
+            }
         }
 
         self.images
-- 
2.43.0


From 1360e627e34fb5517da8d166aadf066fd7e644cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:26 +0000
Subject: [PATCH 29/87] fix: report parts that hold no XML element

An empty or blank main document, comments, numbering or settings part was
read as if it had no content.
---
 docx-core/src/reader/xml_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 4c796a4..6be6045 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -67,6 +67,7 @@ pub struct EventReader<R: Read> {
     pending: VecDeque<XmlEvent>,
     finished: bool,
     depth: usize,
+    has_root: bool,
     exhausted: bool,
 }
 
@@ -85,6 +86,7 @@ impl<R: Read> EventReader<R> {
             pending: VecDeque::new(),
             finished: false,
             depth: 0,
+            has_root: false,
             exhausted: false,
         }
     }
@@ -94,7 +96,7 @@ impl<R: Read> EventReader<R> {
     }
 
     /// Returns the next event. The end of the document is reported once and only when every element
-    /// was closed; after it, or after an error, every further call is an error.
+    /// was closed and there was one; after it, or after an error, every further call is an error.
     fn read_next(&mut self) -> Result<XmlEvent, quick_xml::Error> {
         if self.exhausted {
             return Err(unclosed());
@@ -103,6 +105,7 @@ impl<R: Read> EventReader<R> {
         match &event {
             Ok(XmlEvent::StartElement { .. }) => {
                 self.depth += 1;
+                self.has_root = true;
                 if self.depth > MAX_DEPTH {
                     self.exhausted = true;
                     return Err(unclosed());
@@ -113,7 +116,7 @@ impl<R: Read> EventReader<R> {
             }
             Ok(XmlEvent::EndDocument) => {
                 self.exhausted = true;
-                if self.depth > 0 {
+                if self.depth > 0 || !self.has_root {
                     return Err(unclosed());
                 }
             }
-- 
2.43.0


From 2c78ecfbe0b99b0be9f8647ad5a2b3492e6c3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:51:41 +0000
Subject: [PATCH 30/87] fix: report comments that cannot be read from the
 archive

A comments part with a wrong checksum was treated as absent, so every
comment disappeared without an error.
---
 docx-core/src/reader/read_docx.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index a26aea7..5d4325d 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -8,6 +8,15 @@ use crate::documents::RelationshipRestorer;
 
 use zip::ZipArchive;
 
+/// A part that the archive does not contain is tolerated, one that cannot be read is not.
+fn unless_absent(data: Result<Vec<u8>, ReaderError>) -> Result<Option<Vec<u8>>, ReaderError> {
+    match data {
+        Ok(data) => Ok(Some(data)),
+        Err(ReaderError::ZipError(zip::result::ZipError::FileNotFound)) => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
 fn read_headers(
     rels: &ReadDocumentRels,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
@@ -160,7 +169,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
                     .to_str()
                     .expect("should have comments extended."),
             );
-            if let Ok(data) = data {
+            if let Some(data) = unless_absent(data)? {
                 CommentsExtended::from_xml(&data[..])?
             } else {
                 CommentsExtended::default()
@@ -180,7 +189,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
                 &mut archive,
                 comments_path.to_str().expect("should have comments."),
             );
-            if let Ok(data) = data {
+            if let Some(data) = unless_absent(data)? {
                 let mut comments = Comments::from_xml(&data[..])?.into_inner();
                 if !comments.is_empty() && !comments_extended.children.is_empty() {
                     let mut comment_id_by_paragraph: HashMap<String, usize> = HashMap::new();
-- 
2.43.0


From cd0901e6de3348ee0e2ef5bcdb0c0af89502ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:08:24 +0000
Subject: [PATCH 31/87] fix: write hyperlink fields instead of panicking

Packing a document with a HYPERLINK field instruction ran into todo!().
The field is now written with its target and its anchor switch.
---
 .../documents/elements/delete_instr_text.rs   |  2 +-
 .../src/documents/elements/instr_hyperlink.rs | 21 ++++++++++++++-----
 .../src/documents/elements/instr_text.rs      |  2 +-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index 33e20da..873b20f 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -25,7 +25,7 @@ impl BuildXML for DeleteInstrText {
                 DeleteInstrText::TOC(toc) => b.add_child(toc),
                 DeleteInstrText::TC(tc) => b.add_child(tc),
                 DeleteInstrText::PAGEREF(page_ref) => b.add_child(page_ref),
-                DeleteInstrText::HYPERLINK(_link) => todo!(),
+                DeleteInstrText::HYPERLINK(link) => b.add_child(link),
                 DeleteInstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index 9faf170..a47e46d 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -1,4 +1,8 @@
 use serde::Serialize;
+use std::io::Write;
+
+use crate::documents::*;
+use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_HYPERLINKHYPERLINK_topic_ID0EFYG1.html
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -20,11 +24,18 @@ impl InstrHyperlink {
     }
 }
 
-// impl BuildXML for instrHyperlink {
-//     fn build(&self) -> Vec<u8> {
-// TODO:
-//     }
-// }
+impl BuildXML for InstrHyperlink {
+    fn build_to<W: Write>(
+        &self,
+        stream: crate::xml::writer::EventWriter<W>,
+    ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        XMLBuilder::from(stream)
+            .plain_text("HYPERLINK ")?
+            .apply_if(self.anchor, |b| b.plain_text("\\l "))?
+            .plain_text(&format!("\"{}\"", self.target))?
+            .into_inner()
+    }
+}
 
 impl std::str::FromStr for InstrHyperlink {
     type Err = ();
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index e063933..84ac94c 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -29,7 +29,7 @@ impl BuildXML for Box<InstrText> {
                 InstrText::PAGEREF(page_ref) => b.add_child(page_ref),
                 InstrText::PAGE(page) => b.add_child(page),
                 InstrText::NUMPAGES(page) => b.add_child(page),
-                InstrText::HYPERLINK(_link) => todo!(),
+                InstrText::HYPERLINK(link) => b.add_child(link),
                 InstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
-- 
2.43.0


From 1f5cfea3a1a728a078b6730a8474eb56e2a1af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:08:38 +0000
Subject: [PATCH 32/87] fix: do not decode entities in run text twice

The XML reader already resolves references, so a text such as '&amp;lt;'
was read as '<' instead of '&lt;'.
---
 docx-core/src/reader/run.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 0ff2425..9bd555e 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -5,7 +5,6 @@ use std::str::FromStr;
 
 use super::Run;
 
-use crate::escape::replace_escaped;
 use crate::types::BreakType;
 use crate::{reader::*, FieldCharType};
 
@@ -156,19 +155,19 @@ impl ElementReader for Run {
                 }
                 Ok(XmlEvent::Characters(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text_without_escape(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text_without_escape(c);
                     }
                     _ => {}
                 },
                 Ok(XmlEvent::Whitespace(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text_without_escape(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text_without_escape(c);
                     }
                     _ => {}
                 },
-- 
2.43.0


From 4508393d9a2e7db836e22355af365f79c9ef9f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:08:38 +0000
Subject: [PATCH 33/87] fix: escape every attribute value and text when it is
 written

Escaping was left to each setter. Many setters did not escape, so quotes,
ampersands and angle brackets in dates, colors, bookmark names, variables,
properties, web extensions and others broke the package. Some values were
escaped twice, and text that had been read was written back unescaped.
Attribute values and texts are now escaped where they are written, and
setters keep the caller's text. Control characters that XML cannot hold are
left out, and tabs in attributes survive attribute normalisation.
---
 docx-core/src/documents/document_rels.rs      |  4 +--
 docx-core/src/documents/elements/based_on.rs  |  3 +-
 docx-core/src/documents/elements/delete.rs    |  4 +--
 .../src/documents/elements/delete_text.rs     |  3 +-
 docx-core/src/documents/elements/hyperlink.rs |  3 +-
 docx-core/src/documents/elements/insert.rs    |  4 +--
 docx-core/src/documents/elements/instr_tc.rs  |  8 +++---
 docx-core/src/documents/elements/instr_toc.rs | 17 +++++------
 docx-core/src/documents/elements/link.rs      |  3 +-
 docx-core/src/documents/elements/move_from.rs |  4 +--
 docx-core/src/documents/elements/move_to.rs   |  4 +--
 docx-core/src/documents/elements/name.rs      |  4 +--
 .../elements/paragraph_property_change.rs     |  3 +-
 .../src/documents/elements/paragraph_style.rs |  3 +-
 docx-core/src/documents/elements/run.rs       |  2 +-
 docx-core/src/documents/elements/run_fonts.rs | 19 ++++++-------
 docx-core/src/documents/elements/run_style.rs |  3 +-
 docx-core/src/documents/elements/style.rs     |  3 +-
 .../documents/elements/table_of_contents.rs   |  4 +--
 docx-core/src/documents/elements/text.rs      |  3 +-
 docx-core/src/documents/webextension.rs       |  3 +-
 docx-core/src/escape/mod.rs                   | 28 ++++++++++++++-----
 docx-core/src/reader/comment.rs               |  3 +-
 docx-core/src/xml/writer.rs                   | 12 ++++----
 docx-core/src/xml_builder/elements.rs         |  4 +--
 docx-core/src/xml_builder/macros.rs           |  8 +++---
 docx-core/src/xml_builder/mod.rs              |  4 +--
 docx-core/src/xml_json/mod.rs                 |  5 ++--
 28 files changed, 86 insertions(+), 82 deletions(-)

diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 2b66475..68a280e 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -4,7 +4,7 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::{escape::*, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
@@ -52,7 +52,7 @@ impl DocumentRels {
         r#type: impl Into<String>,
     ) -> Self {
         self.hyperlinks
-            .push((id.into(), escape_owned(path.into()), r#type.into()));
+            .push((id.into(), path.into(), r#type.into()));
         self
     }
 }
diff --git a/docx-core/src/documents/elements/based_on.rs b/docx-core/src/documents/elements/based_on.rs
index 74e3513..708aaa3 100644
--- a/docx-core/src/documents/elements/based_on.rs
+++ b/docx-core/src/documents/elements/based_on.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -13,7 +12,7 @@ pub struct BasedOn {
 impl BasedOn {
     pub fn new(val: impl Into<String>) -> BasedOn {
         BasedOn {
-            val: escape_owned(val.into()),
+            val: val.into(),
         }
     }
 }
diff --git a/docx-core/src/documents/elements/delete.rs b/docx-core/src/documents/elements/delete.rs
index afea7c3..d0ad028 100644
--- a/docx-core/src/documents/elements/delete.rs
+++ b/docx-core/src/documents/elements/delete.rs
@@ -3,7 +3,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
+use crate::documents::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
 pub struct Delete {
@@ -85,7 +85,7 @@ impl Delete {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Delete {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/delete_text.rs b/docx-core/src/documents/elements/delete_text.rs
index befcafe..2479b15 100644
--- a/docx-core/src/documents/elements/delete_text.rs
+++ b/docx-core/src/documents/elements/delete_text.rs
@@ -2,7 +2,6 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, Serialize, PartialEq)]
@@ -15,7 +14,7 @@ pub struct DeleteText {
 impl DeleteText {
     pub fn new(text: impl Into<String>) -> DeleteText {
         DeleteText {
-            text: escape_owned(text.into()),
+            text: text.into(),
             preserve_space: true,
         }
     }
diff --git a/docx-core/src/documents/elements/hyperlink.rs b/docx-core/src/documents/elements/hyperlink.rs
index 2bd9483..d5722d9 100644
--- a/docx-core/src/documents/elements/hyperlink.rs
+++ b/docx-core/src/documents/elements/hyperlink.rs
@@ -3,7 +3,6 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::types::*;
 use crate::{create_hyperlink_rid, generate_hyperlink_id, xml_builder::*};
 
@@ -37,7 +36,7 @@ impl Hyperlink {
             match t {
                 HyperlinkType::External => HyperlinkData::External {
                     rid: create_hyperlink_rid(generate_hyperlink_id()),
-                    path: escape_owned(value.into()),
+                    path: value.into(),
                 },
                 HyperlinkType::Anchor => HyperlinkData::Anchor {
                     anchor: value.into(),
diff --git a/docx-core/src/documents/elements/insert.rs b/docx-core/src/documents/elements/insert.rs
index fe43151..a9a007d 100644
--- a/docx-core/src/documents/elements/insert.rs
+++ b/docx-core/src/documents/elements/insert.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 use super::*;
 
 use crate::documents::{BuildXML, HistoryId, Run};
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum InsertChild {
@@ -131,7 +131,7 @@ impl Insert {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Insert {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index d0465e0..a7373ce 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -2,7 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape::escape_owned;
+use crate::escape::escape_cow;
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_TCTC_topic_ID0EU2N1.html
@@ -20,7 +20,7 @@ pub struct InstrTC {
 impl InstrTC {
     pub fn new(text: impl Into<String>) -> Self {
         Self {
-            text: escape_owned(text.into()),
+            text: text.into(),
             ..Default::default()
         }
     }
@@ -49,10 +49,10 @@ impl BuildXML for InstrTC {
         let mut b = XMLBuilder::from(stream);
         let raw = b.inner_mut()?;
 
-        write!(raw, "TC \"{}\"", self.text)?;
+        write!(raw, "TC \"{}\"", escape_cow(&self.text))?;
 
         if let Some(ref t) = self.item_type_identifier {
-            write!(raw, " \\f {t}")?;
+            write!(raw, " \\f {}", escape_cow(t))?;
         }
 
         if let Some(level) = self.level {
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index a73951f..e756773 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape_cow;
 use crate::xml_builder::XMLBuilder;
 
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -172,28 +173,28 @@ impl BuildXML for InstrToC {
 
         // \a
         if let Some(ref t) = self.caption_label {
-            write!(raw, " \\a &quot;{t}&quot;")?;
+            write!(raw, " \\a &quot;{}&quot;", escape_cow(t))?;
         }
 
         // \b
         if let Some(ref t) = self.entry_bookmark_name {
-            write!(raw, " \\b &quot;{t}&quot;")?;
+            write!(raw, " \\b &quot;{}&quot;", escape_cow(t))?;
         }
 
         // \c
         if let Some(ref t) = self.caption_label_including_numbers {
-            write!(raw, " \\c &quot;{t}&quot;")?;
+            write!(raw, " \\c &quot;{}&quot;", escape_cow(t))?;
         }
 
         // \d
         if let Some(ref t) = self.sequence_and_page_numbers_separator {
-            write!(raw, " \\d &quot;{t}&quot;")?;
+            write!(raw, " \\d &quot;{}&quot;", escape_cow(t))?;
         }
 
         // \f
         if let Some(ref t) = self.tc_field_identifier {
             if let Some(ref t) = t {
-                write!(raw, " \\f &quot;{t}&quot;")?;
+                write!(raw, " \\f &quot;{}&quot;", escape_cow(t))?;
             } else {
                 write!(raw, " \\f")?;
             }
@@ -216,12 +217,12 @@ impl BuildXML for InstrToC {
 
         // \p
         if let Some(ref t) = self.entry_and_page_number_separator {
-            write!(raw, " \\p &quot;{t}&quot;")?;
+            write!(raw, " \\p &quot;{}&quot;", escape_cow(t))?;
         }
 
         // \s
         if let Some(ref t) = self.seq_field_identifier_for_prefix {
-            write!(raw, " \\s &quot;{t}&quot;")?;
+            write!(raw, " \\s &quot;{}&quot;", escape_cow(t))?;
         }
 
         // \t
@@ -232,7 +233,7 @@ impl BuildXML for InstrToC {
                 .map(|s| format!("{},{}", (s.0).0, (s.0).1))
                 .collect::<Vec<String>>()
                 .join(",");
-            write!(raw, " \\t &quot;{s}&quot;")?;
+            write!(raw, " \\t &quot;{}&quot;", escape_cow(&s))?;
         }
 
         // \h
diff --git a/docx-core/src/documents/elements/link.rs b/docx-core/src/documents/elements/link.rs
index f2e53d2..a976022 100644
--- a/docx-core/src/documents/elements/link.rs
+++ b/docx-core/src/documents/elements/link.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -13,7 +12,7 @@ pub struct Link {
 impl Link {
     pub fn new(val: impl Into<String>) -> Link {
         Link {
-            val: escape_owned(val.into()),
+            val: val.into(),
         }
     }
 }
diff --git a/docx-core/src/documents/elements/move_from.rs b/docx-core/src/documents/elements/move_from.rs
index d68e09c..bdf37df 100644
--- a/docx-core/src/documents/elements/move_from.rs
+++ b/docx-core/src/documents/elements/move_from.rs
@@ -3,7 +3,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
+use crate::documents::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
 pub struct MoveFrom {
@@ -84,7 +84,7 @@ impl MoveFrom {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> MoveFrom {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/move_to.rs b/docx-core/src/documents/elements/move_to.rs
index 7bfb344..96d8a0b 100644
--- a/docx-core/src/documents/elements/move_to.rs
+++ b/docx-core/src/documents/elements/move_to.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 use super::*;
 
 use crate::documents::{BuildXML, HistoryId, Run};
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum MoveToChild {
@@ -124,7 +124,7 @@ impl MoveTo {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> MoveTo {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/name.rs b/docx-core/src/documents/elements/name.rs
index 5f5f988..79130a0 100644
--- a/docx-core/src/documents/elements/name.rs
+++ b/docx-core/src/documents/elements/name.rs
@@ -4,7 +4,7 @@ use std::io::Write;
 use std::str::FromStr;
 
 use crate::documents::BuildXML;
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Name {
@@ -14,7 +14,7 @@ pub struct Name {
 impl Name {
     pub fn new(name: impl Into<String>) -> Name {
         Name {
-            name: escape::escape_owned(name.into()),
+            name: name.into(),
         }
     }
 
diff --git a/docx-core/src/documents/elements/paragraph_property_change.rs b/docx-core/src/documents/elements/paragraph_property_change.rs
index 1b480b4..06de4e9 100644
--- a/docx-core/src/documents/elements/paragraph_property_change.rs
+++ b/docx-core/src/documents/elements/paragraph_property_change.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
@@ -36,7 +35,7 @@ impl ParagraphPropertyChange {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> ParagraphPropertyChange {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/paragraph_style.rs b/docx-core/src/documents/elements/paragraph_style.rs
index b95eaf7..7f328cb 100644
--- a/docx-core/src/documents/elements/paragraph_style.rs
+++ b/docx-core/src/documents/elements/paragraph_style.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -28,7 +27,7 @@ impl ParagraphStyle {
     pub fn new(val: Option<impl Into<String>>) -> ParagraphStyle {
         if let Some(v) = val {
             ParagraphStyle {
-                val: escape_owned(v.into()),
+                val: v.into(),
             }
         } else {
             Default::default()
diff --git a/docx-core/src/documents/elements/run.rs b/docx-core/src/documents/elements/run.rs
index cebf03a..18e7daf 100644
--- a/docx-core/src/documents/elements/run.rs
+++ b/docx-core/src/documents/elements/run.rs
@@ -400,7 +400,7 @@ impl BuildXML for RunChild {
             RunChild::DeleteInstrText(c) => c.build_to(stream),
             RunChild::InstrTextString(instruction) => XMLBuilder::from(stream)
                 .write(XmlEvent::start_element("w:instrText").attr("xml:space", "preserve"))?
-                .plain_text(&crate::escape::escape(instruction))?
+                .plain_text(instruction)?
                 .close()?
                 .into_inner(),
             RunChild::FootnoteReference(c) => c.build_to(stream),
diff --git a/docx-core/src/documents/elements/run_fonts.rs b/docx-core/src/documents/elements/run_fonts.rs
index ddd28ad..2ff1203 100644
--- a/docx-core/src/documents/elements/run_fonts.rs
+++ b/docx-core/src/documents/elements/run_fonts.rs
@@ -2,7 +2,6 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 /*
@@ -42,47 +41,47 @@ impl RunFonts {
     }
 
     pub fn ascii(mut self, f: impl Into<String>) -> Self {
-        self.ascii = Some(escape_owned(f.into()));
+        self.ascii = Some(f.into());
         self
     }
 
     pub fn hi_ansi(mut self, f: impl Into<String>) -> Self {
-        self.hi_ansi = Some(escape_owned(f.into()));
+        self.hi_ansi = Some(f.into());
         self
     }
 
     pub fn east_asia(mut self, f: impl Into<String>) -> Self {
-        self.east_asia = Some(escape_owned(f.into()));
+        self.east_asia = Some(f.into());
         self
     }
 
     pub fn cs(mut self, f: impl Into<String>) -> Self {
-        self.cs = Some(escape_owned(f.into()));
+        self.cs = Some(f.into());
         self
     }
 
     pub fn ascii_theme(mut self, f: impl Into<String>) -> Self {
-        self.ascii_theme = Some(escape_owned(f.into()));
+        self.ascii_theme = Some(f.into());
         self
     }
 
     pub fn hi_ansi_theme(mut self, f: impl Into<String>) -> Self {
-        self.hi_ansi_theme = Some(escape_owned(f.into()));
+        self.hi_ansi_theme = Some(f.into());
         self
     }
 
     pub fn east_asia_theme(mut self, f: impl Into<String>) -> Self {
-        self.east_asia_theme = Some(escape_owned(f.into()));
+        self.east_asia_theme = Some(f.into());
         self
     }
 
     pub fn cs_theme(mut self, f: impl Into<String>) -> Self {
-        self.cs_theme = Some(escape_owned(f.into()));
+        self.cs_theme = Some(f.into());
         self
     }
 
     pub fn hint(mut self, f: impl Into<String>) -> Self {
-        self.hint = Some(escape_owned(f.into()));
+        self.hint = Some(f.into());
         self
     }
 }
diff --git a/docx-core/src/documents/elements/run_style.rs b/docx-core/src/documents/elements/run_style.rs
index 4dc6133..9b1fbed 100644
--- a/docx-core/src/documents/elements/run_style.rs
+++ b/docx-core/src/documents/elements/run_style.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -21,7 +20,7 @@ impl Default for RunStyle {
 impl RunStyle {
     pub fn new(val: impl Into<String>) -> RunStyle {
         RunStyle {
-            val: escape_owned(val.into()),
+            val: val.into(),
         }
     }
 }
diff --git a/docx-core/src/documents/elements/style.rs b/docx-core/src/documents/elements/style.rs
index 7cf4d00..271a9ba 100644
--- a/docx-core/src/documents/elements/style.rs
+++ b/docx-core/src/documents/elements/style.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::types::*;
 use crate::xml_builder::*;
 use crate::StyleType;
@@ -69,7 +68,7 @@ impl Style {
     pub fn new(style_id: impl Into<String>, style_type: StyleType) -> Self {
         let default = Default::default();
         Style {
-            style_id: escape_owned(style_id.into()),
+            style_id: style_id.into(),
             style_type,
             ..default
         }
diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index b821801..7d615eb 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -4,7 +4,7 @@ use std::io::Write;
 
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
+use crate::documents::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum TocContent {
@@ -105,7 +105,7 @@ impl TableOfContents {
 
     pub fn delete(mut self, author: impl Into<String>, date: impl Into<String>) -> Self {
         self.delete = Some(TableOfContentsReviewData {
-            author: escape::escape_owned(author.into()),
+            author: author.into(),
             date: date.into(),
         });
         self
diff --git a/docx-core/src/documents/elements/text.rs b/docx-core/src/documents/elements/text.rs
index 1d5b5dd..a735424 100644
--- a/docx-core/src/documents/elements/text.rs
+++ b/docx-core/src/documents/elements/text.rs
@@ -3,7 +3,6 @@ use serde::Deserialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, PartialEq)]
@@ -16,7 +15,7 @@ pub struct Text {
 impl Text {
     pub fn new(text: impl Into<String>) -> Text {
         Text {
-            text: escape_owned(text.into()),
+            text: text.into(),
             preserve_space: true,
         }
     }
diff --git a/docx-core/src/documents/webextension.rs b/docx-core/src/documents/webextension.rs
index a9739dd..dd56cb4 100644
--- a/docx-core/src/documents/webextension.rs
+++ b/docx-core/src/documents/webextension.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, PartialEq, Clone)]
@@ -50,7 +49,7 @@ impl WebExtension {
 
     pub fn property(mut self, name: impl Into<String>, value: impl Into<String>) -> Self {
         let v = value.into();
-        let v = format!("&quot;{}&quot;", escape(&v).replace("&quot;", "\\&quot;"));
+        let v = format!("\"{}\"", v.replace('"', "\\\""));
         self.properties.push(WebExtensionProperty::new(name, v));
         self
     }
diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index abe5431..8b88bcc 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -1,3 +1,5 @@
+use std::borrow::Cow;
+
 pub(crate) fn escape(text: &str) -> String {
     let mut escaped = String::with_capacity(text.len());
     for ch in text.chars() {
@@ -8,27 +10,39 @@ pub(crate) fn escape(text: &str) -> String {
             '"' => escaped.push_str("&quot;"),
             '\'' => escaped.push_str("&apos;"),
             '\n' => escaped.push_str("&#xA;"),
+            '\t' => escaped.push_str("&#x9;"),
             // Escaping carriage returns causes errors in LibreOffice.
             '\r' => {}
+            // XML has no way to write these characters.
+            '\0'..='\u{1f}' | '\u{fffe}' | '\u{ffff}' => {}
             _ => escaped.push(ch),
         }
     }
     escaped
 }
 
-/// Escapes an owned XML value without reallocating plain text.
+/// Escapes an XML value without reallocating plain text.
 ///
-/// The original `String` is returned unchanged when it contains no character
-/// that needs escaping or removal.
-pub(crate) fn escape_owned(text: String) -> String {
+/// The text is borrowed unchanged when it contains no character that needs
+/// escaping or removal.
+pub(crate) fn escape_cow(text: &str) -> Cow<'_, str> {
     if text
         .as_bytes()
         .iter()
-        .any(|byte| matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\'' | b'\n' | b'\r'))
+        .any(|byte| matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\'' | 0..=0x1f | 0xef))
     {
-        escape(&text)
+        Cow::Owned(escape(text))
     } else {
-        text
+        Cow::Borrowed(text)
+    }
+}
+
+/// [`escape_cow`] for an owned value.
+#[allow(dead_code)]
+pub(crate) fn escape_owned(text: String) -> String {
+    match escape_cow(&text) {
+        Cow::Owned(escaped) => escaped,
+        Cow::Borrowed(_) => text,
     }
 }
 
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index 192acea..be344d2 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -2,7 +2,6 @@ use std::io::Read;
 use std::str::FromStr;
 
 use super::*;
-use crate::escape;
 
 impl ElementReader for Comment {
     fn read<R: Read>(
@@ -12,7 +11,7 @@ impl ElementReader for Comment {
         let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
-            comment = comment.author(escape::escape(author.as_str()));
+            comment = comment.author(author);
         };
         if let Some(date) = read(attrs, "date") {
             comment = comment.date(date);
diff --git a/docx-core/src/xml/writer.rs b/docx-core/src/xml/writer.rs
index 1575b27..45ca172 100644
--- a/docx-core/src/xml/writer.rs
+++ b/docx-core/src/xml/writer.rs
@@ -8,6 +8,7 @@ use quick_xml::Writer as QuickWriter;
 use smallvec::SmallVec;
 
 use super::common::XmlVersion;
+use crate::escape::escape_cow;
 
 pub type Result<T> = std::result::Result<T, Error>;
 
@@ -231,14 +232,13 @@ impl From<String> for XmlEvent<'static> {
 }
 
 impl<'a> StartElement<'a> {
-    /// Appends an attribute with an already escaped string value.
-    ///
-    /// The value is copied directly into the start tag and is not XML-escaped.
+    /// Appends an attribute, escaping its value.
     pub fn attr(mut self, name: &str, value: &str) -> Self {
         self.encoded.push(b' ');
         self.encoded.extend_from_slice(name.as_bytes());
         self.encoded.extend_from_slice(b"=\"");
-        self.encoded.extend_from_slice(value.as_bytes());
+        self.encoded
+            .extend_from_slice(escape_cow(value).as_bytes());
         self.encoded.push(b'"');
         self
     }
@@ -246,7 +246,7 @@ impl<'a> StartElement<'a> {
     /// Appends an attribute by formatting its value directly into the start tag.
     ///
     /// This avoids allocating an intermediate `String`. The formatted value is
-    /// not XML-escaped.
+    /// escaped.
     pub fn attr_display(mut self, name: &str, value: impl fmt::Display) -> Self {
         self.encoded.push(b' ');
         self.encoded.extend_from_slice(name.as_bytes());
@@ -265,7 +265,7 @@ struct AttributeValueWriter<'a>(&'a mut SmallVec<[u8; 128]>);
 
 impl fmt::Write for AttributeValueWriter<'_> {
     fn write_str(&mut self, value: &str) -> fmt::Result {
-        self.0.extend_from_slice(value.as_bytes());
+        self.0.extend_from_slice(escape_cow(value).as_bytes());
         Ok(())
     }
 }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f1aed6d..e520a02 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -20,7 +20,7 @@ impl<W: Write> XMLBuilder<W> {
             "default"
         };
         self.write(XmlEvent::start_element("w:t").attr("xml:space", space))?
-            .write(text)?
+            .write(&*crate::escape::escape_cow(text))?
             .close()
     }
 
@@ -81,7 +81,7 @@ impl<W: Write> XMLBuilder<W> {
             "default"
         };
         self.write(XmlEvent::start_element("w:delText").attr("xml:space", space))?
-            .write(text)?
+            .write(&*crate::escape::escape_cow(text))?
             .close()
     }
 
diff --git a/docx-core/src/xml_builder/macros.rs b/docx-core/src/xml_builder/macros.rs
index d87ef92..edb4b4d 100644
--- a/docx-core/src/xml_builder/macros.rs
+++ b/docx-core/src/xml_builder/macros.rs
@@ -234,14 +234,14 @@ macro_rules! closed_with_child {
         #[allow(dead_code)]
         pub(crate) fn $name(self, child: &str) -> crate::xml::writer::Result<Self> {
             self.write(XmlEvent::start_element($el_name))?
-                .write(child)?
+                .write(&*crate::escape::escape_cow(child))?
                 .close()
         }
     };
     ($name: ident, $el_name: expr, $attr0: expr) => {
         pub(crate) fn $name(self, arg0: &str, child: &str) -> crate::xml::writer::Result<Self> {
             self.write(XmlEvent::start_element($el_name).attr($attr0, arg0))?
-                .write(child)?
+                .write(&*crate::escape::escape_cow(child))?
                 .close()
         }
     };
@@ -257,7 +257,7 @@ macro_rules! closed_with_child {
                     .attr($attr0, arg0)
                     .attr($attr1, arg1),
             )?
-            .write(child)?
+            .write(&*crate::escape::escape_cow(child))?
             .close()
         }
     };
@@ -275,7 +275,7 @@ macro_rules! closed_with_child {
                     .attr($attr1, arg1)
                     .attr($attr2, arg2),
             )?
-            .write(child)?
+            .write(&*crate::escape::escape_cow(child))?
             .close()
         }
     };
diff --git a/docx-core/src/xml_builder/mod.rs b/docx-core/src/xml_builder/mod.rs
index d9dee22..0fd64ac 100644
--- a/docx-core/src/xml_builder/mod.rs
+++ b/docx-core/src/xml_builder/mod.rs
@@ -139,11 +139,11 @@ impl<W: Write> XMLBuilder<W> {
         self.write(XmlEvent::end_element())
     }
 
-    /// Write a plain text.
+    /// Write a plain text, escaping it.
     ///
     /// Finishes opened tags if there are any.
     pub(crate) fn plain_text(self, t: &str) -> Result<Self> {
-        self.write(t)
+        self.write(&*crate::escape::escape_cow(t))
     }
 
     /// Prepare the internal raw stream for direct access.
diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index 1961ce6..e4b6d57 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -13,6 +13,7 @@ use std::io::prelude::*;
 use std::io::Cursor;
 use std::str::FromStr;
 
+use crate::escape::escape_cow;
 use crate::reader::{EventReader, OwnedAttribute, OwnedName, XmlEvent};
 
 /// An XML Document
@@ -59,13 +60,13 @@ impl XmlData {
         write!(f, "<{}", self.name)?;
 
         for (key, val) in self.attributes.iter() {
-            write!(f, r#" {key}="{val}""#)?;
+            write!(f, r#" {key}="{}""#, escape_cow(val))?;
         }
 
         f.write_char('>')?;
 
         if let Some(ref data) = self.data {
-            write!(f, "{data}")?
+            write!(f, "{}", escape_cow(data))?
         }
 
         for child in self.children.iter() {
-- 
2.43.0


From cfe71a1be6f1a6dc9ce54b897233299a91b69984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:18 +0000
Subject: [PATCH 34/87] fix: write disabled complex script bold and italic as
 disabled

---
 docx-core/src/documents/elements/bold_cs.rs   |  6 +++++-
 docx-core/src/documents/elements/italic_cs.rs |  6 +++++-
 docx-core/src/xml_builder/elements.rs         | 10 ++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/bold_cs.rs b/docx-core/src/documents/elements/bold_cs.rs
index 5e20da8..6a1e505 100644
--- a/docx-core/src/documents/elements/bold_cs.rs
+++ b/docx-core/src/documents/elements/bold_cs.rs
@@ -39,6 +39,10 @@ impl BuildXML for BoldCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).b_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).b_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_bold_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/documents/elements/italic_cs.rs b/docx-core/src/documents/elements/italic_cs.rs
index 6e8c804..fb98422 100644
--- a/docx-core/src/documents/elements/italic_cs.rs
+++ b/docx-core/src/documents/elements/italic_cs.rs
@@ -40,6 +40,10 @@ impl BuildXML for ItalicCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).i_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).i_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_italic_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index e520a02..f6d6f0d 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -183,6 +183,11 @@ impl<W: Write> XMLBuilder<W> {
     closed!(b, "w:b");
     closed!(b_cs, "w:bCs");
 
+    pub(crate) fn disable_bold_cs(self) -> Result<Self> {
+        self.write(XmlEvent::start_element("w:bCs").attr("w:val", "false"))?
+            .close()
+    }
+
     pub(crate) fn disable_bold(self) -> Result<Self> {
         let f = "false";
         self.write(XmlEvent::start_element("w:b").attr("w:val", f))?
@@ -194,6 +199,11 @@ impl<W: Write> XMLBuilder<W> {
     closed!(i, "w:i");
     closed!(i_cs, "w:iCs");
 
+    pub(crate) fn disable_italic_cs(self) -> Result<Self> {
+        self.write(XmlEvent::start_element("w:iCs").attr("w:val", "false"))?
+            .close()
+    }
+
     pub(crate) fn disable_italic(self) -> Result<Self> {
         let f = "false";
         self.write(XmlEvent::start_element("w:i").attr("w:val", f))?
-- 
2.43.0


From 430a6210980e398ad4664037714dda06cbf62da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:18 +0000
Subject: [PATCH 35/87] fix: keep paragraph settings that are switched off, and
 read bidi

---
 .../documents/elements/paragraph_property.rs    |  8 ++++----
 docx-core/src/reader/paragraph_property.rs      | 17 ++++++++---------
 docx-core/src/reader/xml_element.rs             |  2 ++
 docx-core/src/xml_builder/elements.rs           |  8 ++++----
 docx-core/src/xml_builder/macros.rs             | 14 ++++++++++++++
 5 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph_property.rs b/docx-core/src/documents/elements/paragraph_property.rs
index 29dfdca..fc892bf 100644
--- a/docx-core/src/documents/elements/paragraph_property.rs
+++ b/docx-core/src/documents/elements/paragraph_property.rs
@@ -240,10 +240,10 @@ impl BuildXML for ParagraphProperty {
             .add_optional_child(&self.text_alignment)?
             .add_optional_child(&self.adjust_right_ind)?
             .apply_opt(self.snap_to_grid, |v, b| b.snap_to_grid(v))?
-            .apply_if(self.keep_next, |b| b.keep_next())?
-            .apply_if(self.keep_lines, |b| b.keep_lines())?
-            .apply_if(self.page_break_before, |b| b.page_break_before())?
-            .apply_if(self.bidi, |b| b.bidi())?
+            .apply_opt(self.keep_next, |v, b| b.keep_next(v))?
+            .apply_opt(self.keep_lines, |v, b| b.keep_lines(v))?
+            .apply_opt(self.page_break_before, |v, b| b.page_break_before(v))?
+            .apply_opt(self.bidi, |v, b| b.bidi(v))?
             .apply_opt(self.widow_control, |flag, b| {
                 b.widow_control(if flag { "1" } else { "0" })
             })?
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 3b14025..a7ae000 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -102,25 +102,24 @@ impl ElementReader for ParagraphProperty {
                             p.snap_to_grid = Some(v);
                         }
                         XMLElement::KeepNext => {
-                            if read_bool(&attributes) {
-                                p.keep_next = Some(true);
-                            }
+                            p.keep_next = Some(read_bool(&attributes));
                         }
                         XMLElement::KeepLines => {
-                            if read_bool(&attributes) {
-                                p.keep_lines = Some(true);
-                            }
+                            p.keep_lines = Some(read_bool(&attributes));
                         }
                         XMLElement::PageBreakBefore => {
-                            if read_bool(&attributes) {
-                                p.page_break_before = Some(true);
-                            }
+                            p.page_break_before = Some(read_bool(&attributes));
                         }
                         XMLElement::WidowControl => {
                             if read_bool(&attributes) {
                                 p.widow_control = Some(true);
                             }
                         }
+                        XMLElement::Bidi => {
+                            if read_bool(&attributes) {
+                                p.bidi = Some(true);
+                            }
+                        }
                         XMLElement::ParagraphPropertyChange => {
                             if let Ok(ppr_change) = ParagraphPropertyChange::read(r, &attributes) {
                                 p.paragraph_property_change = Some(ppr_change);
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 2f7c335..84bf134 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -176,6 +176,7 @@ pub enum XMLElement {
     H,
     HAnchor,
     HSpace,
+    Bidi,
     VAnchor,
     VSpace,
     W,
@@ -435,6 +436,7 @@ impl FromStr for XMLElement {
             "h" => Ok(XMLElement::H),
             "hAnchor" => Ok(XMLElement::HAnchor),
             "hSpace" => Ok(XMLElement::HSpace),
+            "bidi" => Ok(XMLElement::Bidi),
             "vAnchor" => Ok(XMLElement::VAnchor),
             "vSpace" => Ok(XMLElement::VSpace),
             "w" => Ok(XMLElement::W),
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f6d6f0d..de2eeb1 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -532,11 +532,11 @@ impl<W: Write> XMLBuilder<W> {
         "w:val"
     );
 
-    closed!(keep_next, "w:keepNext");
-    closed!(keep_lines, "w:keepLines");
-    closed!(page_break_before, "w:pageBreakBefore");
+    closed_toggle!(keep_next, "w:keepNext");
+    closed_toggle!(keep_lines, "w:keepLines");
+    closed_toggle!(page_break_before, "w:pageBreakBefore");
     closed!(widow_control, "w:widowControl", "w:val");
-    closed!(bidi, "w:bidi");
+    closed_toggle!(bidi, "w:bidi");
     /*
     <w:lvlOverride w:ilvl="0">
       <w:startOverride w:val="1"/>
diff --git a/docx-core/src/xml_builder/macros.rs b/docx-core/src/xml_builder/macros.rs
index edb4b4d..a38bd61 100644
--- a/docx-core/src/xml_builder/macros.rs
+++ b/docx-core/src/xml_builder/macros.rs
@@ -477,6 +477,20 @@ macro_rules! closed_with_str {
     };
 }
 
+/// An on/off element: on is written without a value, off with an explicit one.
+macro_rules! closed_toggle {
+    ($name: ident, $el_name: expr) => {
+        pub(crate) fn $name(self, on: bool) -> crate::xml::writer::Result<Self> {
+            if on {
+                self.write(XmlEvent::start_element($el_name))?.close()
+            } else {
+                self.write(XmlEvent::start_element($el_name).attr("w:val", "false"))?
+                    .close()
+            }
+        }
+    };
+}
+
 macro_rules! closed_with_usize {
     ($name: ident, $el_name: expr) => {
         pub(crate) fn $name(self, val: usize) -> crate::xml::writer::Result<Self> {
-- 
2.43.0


From 34429a23c89cf99940a4ea99df10631f051b4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:18 +0000
Subject: [PATCH 36/87] fix: write the frame spacing attributes under their
 standard names

---
 docx-core/src/xml_builder/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index de2eeb1..4c5a314 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -657,10 +657,10 @@ impl<W: Write> XMLBuilder<W> {
             w = w.attr_display("w:y", y);
         }
         if let Some(h_space) = prop.h_space {
-            w = w.attr_display("w:h_space", h_space);
+            w = w.attr_display("w:hSpace", h_space);
         }
         if let Some(v_space) = prop.v_space {
-            w = w.attr_display("w:v_space", v_space);
+            w = w.attr_display("w:vSpace", v_space);
         }
         if let Some(width) = prop.w {
             w = w.attr_display("w:w", width);
-- 
2.43.0


From 48f6b27c2569ffa0dc98bb286b05d73323cfe20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:18 +0000
Subject: [PATCH 37/87] fix: write hanging and first line indents given in
 characters

---
 docx-core/src/documents/elements/indent.rs         |  2 ++
 .../src/documents/elements/paragraph_property.rs   | 14 ++++++++------
 docx-core/src/xml_builder/elements.rs              | 10 ++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/elements/indent.rs b/docx-core/src/documents/elements/indent.rs
index 6cf53c7..f25a278 100644
--- a/docx-core/src/documents/elements/indent.rs
+++ b/docx-core/src/documents/elements/indent.rs
@@ -62,6 +62,8 @@ impl BuildXML for Indent {
                 self.special_indent,
                 self.end.unwrap_or_default(),
                 self.start_chars,
+                self.hanging_chars,
+                self.first_line_chars,
             )?
             .into_inner()
     }
diff --git a/docx-core/src/documents/elements/paragraph_property.rs b/docx-core/src/documents/elements/paragraph_property.rs
index fc892bf..79febc7 100644
--- a/docx-core/src/documents/elements/paragraph_property.rs
+++ b/docx-core/src/documents/elements/paragraph_property.rs
@@ -185,16 +185,18 @@ impl ParagraphProperty {
     }
 
     pub(crate) fn hanging_chars(mut self, chars: i32) -> Self {
-        if let Some(indent) = self.indent {
-            self.indent = Some(indent.hanging_chars(chars));
-        }
+        let indent = self
+            .indent
+            .unwrap_or_else(|| Indent::new(None, None, None, None));
+        self.indent = Some(indent.hanging_chars(chars));
         self
     }
 
     pub(crate) fn first_line_chars(mut self, chars: i32) -> Self {
-        if let Some(indent) = self.indent {
-            self.indent = Some(indent.first_line_chars(chars));
-        }
+        let indent = self
+            .indent
+            .unwrap_or_else(|| Indent::new(None, None, None, None));
+        self.indent = Some(indent.first_line_chars(chars));
         self
     }
 
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 4c5a314..e641900 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -284,6 +284,8 @@ impl<W: Write> XMLBuilder<W> {
         special_indent: Option<SpecialIndentType>,
         end: i32,
         start_chars: Option<i32>,
+        hanging_chars: Option<i32>,
+        first_line_chars: Option<i32>,
     ) -> Result<Self> {
         let mut base = XmlEvent::start_element("w:ind")
             .attr_display("w:left", start.unwrap_or(0))
@@ -293,6 +295,14 @@ impl<W: Write> XMLBuilder<W> {
             base = base.attr_display("w:leftChars", start_chars);
         }
 
+        if let Some(hanging_chars) = hanging_chars {
+            base = base.attr_display("w:hangingChars", hanging_chars);
+        }
+
+        if let Some(first_line_chars) = first_line_chars {
+            base = base.attr_display("w:firstLineChars", first_line_chars);
+        }
+
         match special_indent {
             Some(SpecialIndentType::FirstLine(v)) => {
                 self.write(base.attr_display("w:firstLine", v))
-- 
2.43.0


From 57a25cf745f3186fa1912ba5ca5cda10251c40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:18 +0000
Subject: [PATCH 38/87] fix: read character scaling, text border spacing and
 switched off strikes and hiding

---
 docx-core/src/reader/run_property.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 17d4235..d48d886 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -117,14 +117,14 @@ impl ElementReader for RunProperty {
                                 rp.strike = Some(Strike::new().disable());
                                 continue;
                             }
-                            rp = rp.strike();
+                            rp.strike = Some(Strike::new());
                         }
                         XMLElement::Dstrike => {
                             if !read_bool(&attributes) {
                                 rp.dstrike = Some(Dstrike::new().disable());
                                 continue;
                             }
-                            rp = rp.dstrike();
+                            rp.dstrike = Some(Dstrike::new());
                         }
                         XMLElement::VertAlign => {
                             if let Some(Ok(v)) =
@@ -146,6 +146,14 @@ impl ElementReader for RunProperty {
                                 }
                             }
                         }
+                        XMLElement::W => {
+                            if let Some(v) = read_val(&attributes) {
+                                match f64::from_str(&v) {
+                                    Ok(s) if s as i32 != 100 => rp = rp.stretch(s as i32),
+                                    _ => {}
+                                }
+                            }
+                        }
                         XMLElement::FitText => {
                             if let Some(v) = read_val(&attributes) {
                                 if let Ok(val) = usize::from_str(&v) {
@@ -177,8 +185,10 @@ impl ElementReader for RunProperty {
                                 rp = rp.shading(shd);
                             }
                         }
-                        XMLElement::Vanish => rp = rp.vanish(),
-                        XMLElement::SpecVanish => rp = rp.spec_vanish(),
+                        XMLElement::Vanish if read_bool(&attributes) => rp = rp.vanish(),
+                        XMLElement::SpecVanish if read_bool(&attributes) => {
+                            rp = rp.spec_vanish()
+                        }
                         XMLElement::TextBorder => {
                             if let Ok(attr) = read_border(&attributes) {
                                 let mut border = TextBorder::new()
@@ -187,6 +197,9 @@ impl ElementReader for RunProperty {
                                 if let Some(size) = attr.size {
                                     border = border.size(size as usize);
                                 };
+                                if let Some(space) = attr.space {
+                                    border = border.space(space as usize);
+                                }
                                 rp = rp.text_border(border);
                                 continue;
                             }
-- 
2.43.0


From 3ad56292b3f7ad00ad0481a0371ecefd7fba53cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:39:46 +0000
Subject: [PATCH 39/87] fix: write the grid columns skipped before and after a
 table row

---
 docx-core/src/documents/elements/table_row_property.rs | 10 +++++++++-
 docx-core/src/xml_builder/elements.rs                  |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/table_row_property.rs b/docx-core/src/documents/elements/table_row_property.rs
index ee68ed8..dfb365e 100644
--- a/docx-core/src/documents/elements/table_row_property.rs
+++ b/docx-core/src/documents/elements/table_row_property.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::xml_builder::*;
-use crate::{documents::BuildXML, HeightRule};
+use crate::{documents::BuildXML, HeightRule, WidthType};
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
@@ -84,6 +84,14 @@ impl BuildXML for TableRowProperty {
             .open_table_row_property()?
             .add_optional_child(&self.del)?
             .add_optional_child(&self.ins)?
+            .apply_opt(self.grid_before, |v, b| b.grid_before(v as usize))?
+            .apply_opt(self.grid_after, |v, b| b.grid_after(v as usize))?
+            .apply_opt(self.width_before, |w, b| {
+                b.width_before(&format!("{w}"), &WidthType::Dxa.to_string())
+            })?
+            .apply_opt(self.width_after, |w, b| {
+                b.width_after(&format!("{w}"), &WidthType::Dxa.to_string())
+            })?
             .add_optional_child(&self.cant_split)?
             .apply_opt(self.row_height, |h, b| {
                 b.table_row_height(
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index e641900..8b9d727 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -399,6 +399,10 @@ impl<W: Write> XMLBuilder<W> {
     closed_w_with_type_el!(table_cell_width, "w:tcW");
 
     closed!(table_row_height, "w:trHeight", "w:val", "w:hRule");
+    closed_with_usize!(grid_before, "w:gridBefore");
+    closed_with_usize!(grid_after, "w:gridAfter");
+    closed!(width_before, "w:wBefore", "w:w", "w:type");
+    closed!(width_after, "w:wAfter", "w:w", "w:type");
 
     closed_with_usize!(grid_span, "w:gridSpan");
     closed_with_str!(vertical_merge, "w:vMerge");
-- 
2.43.0


From adff6f44af2e5673e2a0d4eee36301bfee063538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:39:46 +0000
Subject: [PATCH 40/87] fix: read the table layout and rows that must not break
 across pages

---
 docx-core/src/reader/table_property.rs | 10 ++++++++--
 docx-core/src/reader/table_row.rs      |  8 ++++++++
 docx-core/src/reader/xml_element.rs    |  4 ++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index 810a6c6..7ee5fc4 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -1,11 +1,10 @@
 use std::io::Read;
 use std::str::FromStr;
 
-use crate::TableAlignmentType;
+use crate::{TableAlignmentType, TableLayoutType};
 
 use super::*;
 
-// TODO: layout: Option<TableLayout>,
 impl ElementReader for TableProperty {
     fn read<R: Read>(
         r: &mut EventReader<R>,
@@ -50,6 +49,13 @@ impl ElementReader for TableProperty {
                                 }
                             }
                         }
+                        XMLElement::TableLayout => {
+                            if let Some(Ok(v)) =
+                                read(&attributes, "type").map(|v| TableLayoutType::from_str(&v))
+                            {
+                                tp = tp.layout(v);
+                            }
+                        }
                         XMLElement::TableStyle => {
                             if let Some(s) = read_val(&attributes) {
                                 tp = tp.style(s);
diff --git a/docx-core/src/reader/table_row.rs b/docx-core/src/reader/table_row.rs
index ff49f12..e3a3d33 100644
--- a/docx-core/src/reader/table_row.rs
+++ b/docx-core/src/reader/table_row.rs
@@ -17,6 +17,7 @@ impl ElementReader for TableRow {
         let mut del = None;
         let mut ins = None;
         let mut height_rule = None;
+        let mut cant_split = false;
         loop {
             let e = r.next_event();
             match e {
@@ -67,6 +68,9 @@ impl ElementReader for TableRow {
                                 }
                             }
                         }
+                        XMLElement::CantSplit => {
+                            cant_split = read_bool(&attributes);
+                        }
                         XMLElement::Delete => {
                             if let Ok(d) = Delete::read(r, &attributes) {
                                 del = Some(d);
@@ -108,6 +112,10 @@ impl ElementReader for TableRow {
                             row = row.height_rule(height_rule);
                         }
 
+                        if cant_split {
+                            row = row.cant_split();
+                        }
+
                         if let Some(del) = del {
                             row = row.delete(del);
                         }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 84bf134..672b4bc 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -98,6 +98,7 @@ pub enum XMLElement {
     TableGridSpan,
     TableWidth,
     TableIndent,
+    TableLayout,
     TableBorders,
     TableCellMargin,
     TablePositionProperty,
@@ -125,6 +126,7 @@ pub enum XMLElement {
     GridAfter,
     WidthAfter,
     GridBefore,
+    CantSplit,
     WidthBefore,
     Style,
     Next,
@@ -335,10 +337,12 @@ impl FromStr for XMLElement {
             "gridSpan" => Ok(XMLElement::TableGridSpan),
             "gridAfter" => Ok(XMLElement::GridAfter),
             "wAfter" => Ok(XMLElement::WidthAfter),
+            "cantSplit" => Ok(XMLElement::CantSplit),
             "gridBefore" => Ok(XMLElement::GridBefore),
             "wBefore" => Ok(XMLElement::WidthBefore),
             "textDirection" => Ok(XMLElement::TextDirection),
             "tblW" => Ok(XMLElement::TableWidth),
+            "tblLayout" => Ok(XMLElement::TableLayout),
             "tblInd" => Ok(XMLElement::TableIndent),
             "tblBorders" => Ok(XMLElement::TableBorders),
             "tblCellMar" => Ok(XMLElement::TableCellMargin),
-- 
2.43.0


From 774ca6bea4a0c1636a2676d8f69e8d0ff7e2806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:39:46 +0000
Subject: [PATCH 41/87] fix: read the page orientation, columns and text
 direction of a section

---
 docx-core/src/reader/section_property.rs | 17 +++++++++++++++--
 docx-core/src/reader/xml_element.rs      |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index fc53e8f..8808a1d 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -1,7 +1,7 @@
 use std::io::Read;
 use std::str::FromStr;
 
-use crate::SectionType;
+use crate::{PageOrientationType, SectionType};
 
 use super::*;
 
@@ -16,6 +16,9 @@ fn read_page_size(attributes: &[OwnedAttribute]) -> Result<PageSize, ReaderError
             "h" => {
                 size = size.height(value_to_dax(&a.value)? as u32);
             }
+            "orient" if a.value == "landscape" => {
+                size = size.orient(PageOrientationType::Landscape);
+            }
             _ => {}
         }
     }
@@ -98,6 +101,16 @@ impl ElementReader for SectionProperty {
                             let size = read_page_size(&attributes)?;
                             sp = sp.page_size(size);
                         }
+                        XMLElement::Columns => {
+                            if let Some(Ok(n)) = read(&attributes, "num").map(|v| v.parse()) {
+                                sp.columns = n;
+                            }
+                        }
+                        XMLElement::TextDirection => {
+                            if let Some(v) = read_val(&attributes) {
+                                sp = sp.text_direction(v);
+                            }
+                        }
                         XMLElement::DocGrid => {
                             if let Ok(doc_grid) = DocGrid::read(r, &attributes) {
                                 sp = sp.doc_grid(doc_grid);
@@ -157,7 +170,7 @@ impl ElementReader for SectionProperty {
                                 }
                             }
                         }
-                        XMLElement::TitlePg => sp = sp.title_pg(),
+                        XMLElement::TitlePg => sp.title_pg = read_bool(&attributes),
                         _ => {}
                     }
                 }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 672b4bc..1395273 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -163,6 +163,7 @@ pub enum XMLElement {
     CharacterSpacingControl,
     SectionProperty,
     PageSize,
+    Columns,
     PageMargin,
     WebSettings,
     HeaderReference,
@@ -405,6 +406,7 @@ impl FromStr for XMLElement {
             "docVar" => Ok(XMLElement::DocVar),
             "docVars" => Ok(XMLElement::DocVars),
             "sectPr" => Ok(XMLElement::SectionProperty),
+            "cols" => Ok(XMLElement::Columns),
             "pgSz" => Ok(XMLElement::PageSize),
             "rFonts" => Ok(XMLElement::RunFonts),
             "pgMar" => Ok(XMLElement::PageMargin),
-- 
2.43.0


From 49f8d7d46e039b50cb1202b98427f96884791bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:39:46 +0000
Subject: [PATCH 42/87] fix: keep the page orientation when the page size is
 set

---
 docx-core/src/documents/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index ca2c78a..513bef7 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -639,7 +639,8 @@ impl Docx {
     }
 
     pub fn page_size(mut self, w: u32, h: u32) -> Self {
-        self.document = self.document.page_size(PageSize::new().size(w, h));
+        let size = self.document.section_property.page_size.clone();
+        self.document = self.document.page_size(size.size(w, h));
         self
     }
 
-- 
2.43.0


From 8f727e925ec9ad8ca3e4f50aa792b8e543842b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:54:20 +0000
Subject: [PATCH 43/87] fix: write the default numbering only when its id is
 free

---
 docx-core/src/documents/numberings.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/numberings.rs b/docx-core/src/documents/numberings.rs
index 0b42420..93c4670 100644
--- a/docx-core/src/documents/numberings.rs
+++ b/docx-core/src/documents/numberings.rs
@@ -29,17 +29,25 @@ impl Numberings {
     }
 }
 
+const DEFAULT_ID: usize = 1;
+
 impl BuildXML for Numberings {
     fn build_to<W: Write>(
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // The default numbering uses the id 1 unless it is taken.
+        let default_abstract_num = (!self.abstract_nums.iter().any(|n| n.id == DEFAULT_ID))
+            .then(create_default_numbering);
+        let default_num = (!self.numberings.iter().any(|n| n.id == DEFAULT_ID))
+            .then(|| Numbering::new(DEFAULT_ID, DEFAULT_ID));
+
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_numbering()?
-            .add_child(&create_default_numbering())?
+            .add_optional_child(&default_abstract_num)?
             .add_children(&self.abstract_nums)?
-            .add_child(&Numbering::new(1, 1))?
+            .add_optional_child(&default_num)?
             .add_children(&self.numberings)?
             .close()?
             .into_inner()
@@ -47,7 +55,7 @@ impl BuildXML for Numberings {
 }
 
 fn create_default_numbering() -> AbstractNumbering {
-    AbstractNumbering::new(1)
+    AbstractNumbering::new(DEFAULT_ID)
         .add_level(
             Level::new(
                 0,
-- 
2.43.0


From b54f5fcb793cfd59bb295a1ae8acb7a1c26d17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:54:20 +0000
Subject: [PATCH 44/87] fix: write the style links of abstract numberings

---
 docx-core/src/documents/elements/abstract_numbering.rs | 6 ++++++
 docx-core/src/xml_builder/elements.rs                  | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/docx-core/src/documents/elements/abstract_numbering.rs b/docx-core/src/documents/elements/abstract_numbering.rs
index 9794f9c..11f952f 100644
--- a/docx-core/src/documents/elements/abstract_numbering.rs
+++ b/docx-core/src/documents/elements/abstract_numbering.rs
@@ -53,6 +53,12 @@ impl BuildXML for AbstractNumbering {
         if let Some(ref multi_level_type) = self.multi_level_type {
             builder = builder.multi_level_type(multi_level_type)?;
         }
+        if let Some(ref style_link) = self.style_link {
+            builder = builder.style_link(style_link)?;
+        }
+        if let Some(ref num_style_link) = self.num_style_link {
+            builder = builder.num_style_link(num_style_link)?;
+        }
 
         builder.add_children(&self.levels)?.close()?.into_inner()
     }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 8b9d727..2d8c3f8 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -493,6 +493,8 @@ impl<W: Write> XMLBuilder<W> {
     );
 
     closed_with_str!(multi_level_type, "w:multiLevelType");
+    closed_with_str!(style_link, "w:styleLink");
+    closed_with_str!(num_style_link, "w:numStyleLink");
 
     open!(open_abstract_num, "w:abstractNum", "w:abstractNumId");
     open!(open_level, "w:lvl", "w:ilvl");
-- 
2.43.0


From 31cd23fcbdf3c6dc850d0ca0851ca53b610c62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:54:20 +0000
Subject: [PATCH 45/87] fix: relate the numbering part when only styles,
 headers or added rows use numbering

---
 docx-core/src/documents/elements/table.rs |  1 +
 docx-core/src/documents/mod.rs            | 22 +++++++++++++++++++++-
 docx-core/src/documents/styles.rs         |  6 ++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/table.rs b/docx-core/src/documents/elements/table.rs
index 30e9223..3ae5d2a 100644
--- a/docx-core/src/documents/elements/table.rs
+++ b/docx-core/src/documents/elements/table.rs
@@ -60,6 +60,7 @@ impl Table {
     }
 
     pub fn add_row(mut self, row: TableRow) -> Table {
+        self.has_numbering |= row.has_numbering;
         self.rows.push(TableChild::TableRow(row));
         self
     }
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 513bef7..f992498 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -988,11 +988,20 @@ impl Docx {
             ..Default::default()
         };
         visit_document(&mut self.document, &mut dependencies);
+        let mut numbering = NumberingFinder {
+            found: self.styles.has_numbering(),
+        };
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut numbering);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut numbering);
+        }
         let comments_extended = dependencies.comments_extended();
 
         // If this document has numbering, set numberings.xml to document_rels.
         // This is because numberings.xml without numbering cause an error on word online.
-        if dependencies.has_numbering {
+        if dependencies.has_numbering || numbering.found {
             self.document_rels.has_numberings = true;
         }
 
@@ -1152,6 +1161,17 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 }
 
+/// Looks for numbered paragraphs in the headers and footers.
+struct NumberingFinder {
+    found: bool,
+}
+
+impl DocumentTreeVisitor for NumberingFinder {
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        self.found |= paragraph.property.numbering_property.is_some();
+    }
+}
+
 /// Fills in picture bytes and link targets known by their relationship IDs.
 pub(crate) struct RelationshipRestorer<'a> {
     images: HashMap<&'a str, &'a [u8]>,
diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 2eaa748..c32e2c8 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -48,6 +48,12 @@ impl Styles {
         self
     }
 
+    pub(crate) fn has_numbering(&self) -> bool {
+        self.styles
+            .iter()
+            .any(|s| s.paragraph_property.numbering_property.is_some())
+    }
+
     pub fn find_style_by_id(&self, id: &str) -> Option<&Style> {
         self.styles.iter().find(|s| s.style_id == id)
     }
-- 
2.43.0


From 7da0676a877bbf1050f9366c2769bace9d94f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:02:08 +0000
Subject: [PATCH 46/87] fix: write the default style only when its id is free

---
 docx-core/src/documents/styles.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index c32e2c8..5b9a65e 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -87,11 +87,15 @@ impl BuildXML for Styles {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        let normal = Style::new("Normal", StyleType::Paragraph).name("Normal");
+        // The default style uses the id "Normal" unless it is taken.
+        let normal = self
+            .find_style_by_id("Normal")
+            .is_none()
+            .then(|| Style::new("Normal", StyleType::Paragraph).name("Normal"));
         XMLBuilder::from(stream)
             .open_styles()?
             .add_child(&self.doc_defaults)?
-            .add_child(&normal)?
+            .add_optional_child(&normal)?
             .add_children(&self.styles)?
             .close()?
             .into_inner()
-- 
2.43.0


From 80c3dc4a40afbb4b4295e61ea214f772f785afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:07:37 +0000
Subject: [PATCH 47/87] fix: read empty and blank custom property values

---
 docx-core/src/reader/custom_properties.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index d3f1928..d4ad28a 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -24,9 +24,15 @@ impl FromXML for CustomProps {
                                         if let Ok(VtXMLElement::Lpwstr) =
                                             VtXMLElement::from_str(&name.local_name)
                                         {
-                                            let e = r.next_event();
-                                            if let Ok(XmlEvent::Characters(c)) = e {
-                                                props = props.add_custom_property(&key, c)
+                                            match r.next_event() {
+                                                Ok(XmlEvent::Characters(c))
+                                                | Ok(XmlEvent::Whitespace(c)) => {
+                                                    props = props.add_custom_property(&key, c)
+                                                }
+                                                Ok(XmlEvent::EndElement { .. }) => {
+                                                    props = props.add_custom_property(&key, "")
+                                                }
+                                                _ => {}
                                             }
                                         }
                                     }
-- 
2.43.0


From 5840e2ccdb631eb46dba5c9b8feadeda425b5f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:16:01 +0000
Subject: [PATCH 48/87] fix: include link text in the text of a paragraph

---
 docx-core/src/documents/elements/paragraph.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index 7310ece..0e16cf3 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -394,10 +394,14 @@ impl Paragraph {
     }
 
     pub fn raw_text(&self) -> String {
+        Self::raw_text_of(&self.children)
+    }
+
+    fn raw_text_of(children: &[ParagraphChild]) -> String {
         let mut s = "".to_string();
-        // For now support only run, ins, and moveTo.
+        // For now support only run, ins, moveTo and hyperlink.
         // MoveFrom is skipped — it contains ghost text from the original location.
-        for c in self.children.iter() {
+        for c in children.iter() {
             match c {
                 ParagraphChild::Insert(i) => {
                     for c in i.children.iter() {
@@ -473,6 +477,9 @@ impl Paragraph {
                         }
                     }
                 }
+                ParagraphChild::Hyperlink(link) => {
+                    s.push_str(&Self::raw_text_of(&link.children));
+                }
                 ParagraphChild::MoveFrom(_) => {
                     // Skip — ghost text from original location
                 }
-- 
2.43.0


From ec14d92443b7753741f8477f4d8d2fa63cc4d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:16:01 +0000
Subject: [PATCH 49/87] fix: list a heading that is also in the style list once

---
 docx-core/src/documents/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index f992498..92df282 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -2000,6 +2000,7 @@ fn update_document_by_toc(
                                 .level(heading_level),
                         );
                         paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+                        continue;
                     }
 
                     if let Some((_min, _max)) = toc.instr.tc_field_level_range {
-- 
2.43.0


From c3852745a755710ace97296c8cb1ac0d17ea33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:17:49 +0000
Subject: [PATCH 50/87] fix: list the headings of sections in a table of
 contents

---
 docx-core/src/documents/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 92df282..6f8fa6e 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1949,6 +1949,22 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
+/// Returns the paragraphs directly in a body child that a TOC can list.
+fn toc_paragraphs(child: &mut DocumentChild) -> Vec<&mut Paragraph> {
+    match child {
+        DocumentChild::Paragraph(paragraph) => vec![&mut **paragraph],
+        DocumentChild::Section(section) => section
+            .children
+            .iter_mut()
+            .filter_map(|child| match child {
+                SectionChild::Paragraph(paragraph) => Some(&mut **paragraph),
+                _ => None,
+            })
+            .collect(),
+        _ => vec![],
+    }
+}
+
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
@@ -1983,7 +1999,7 @@ fn update_document_by_toc(
             .collect();
 
         for child in &mut document_children {
-            if let DocumentChild::Paragraph(paragraph) = child {
+            for paragraph in toc_paragraphs(child) {
                 let heading_level = paragraph
                     .property
                     .style
-- 
2.43.0


From cf8815a70cc99ba08ea1091d3aa3a56fc0b58b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:17:49 +0000
Subject: [PATCH 51/87] fix: end the field of an empty table of contents before
 a table

---
 docx-core/src/documents/elements/table_of_contents.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index 7d615eb..f01b285 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -244,9 +244,7 @@ impl BuildXML for TableOfContents {
                             // insert empty line for table
                             // because it causes docx error if table is added after TOC
                             if i == 0 {
-                                b = b.add_child(
-                                    &Paragraph::new().add_run(Run::new().add_text("")),
-                                )?;
+                                b = b.add_child(&p2)?;
                             }
                             b = b.add_child(&t)?;
                         }
-- 
2.43.0


From 390ed31c878618c44b88bc7524665056e8b35097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:17:49 +0000
Subject: [PATCH 52/87] fix: keep blanks in quoted arguments of a field code

---
 docx-core/src/documents/elements/instr_toc.rs | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index e756773..c459bfe 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -280,11 +280,28 @@ fn parse_level_range(i: &str) -> Option<(usize, usize)> {
     None
 }
 
+/// Splits a field code at blanks outside of quotes.
+fn split_field_code(instr: &str) -> Vec<&str> {
+    let mut in_quotes = false;
+    let mut tokens = vec![];
+    let mut start = 0;
+    for (index, c) in instr.char_indices() {
+        if c == '"' || instr[index..].starts_with("&quot;") {
+            in_quotes = !in_quotes;
+        } else if c == ' ' && !in_quotes {
+            tokens.push(&instr[start..index]);
+            start = index + 1;
+        }
+    }
+    tokens.push(&instr[start..]);
+    tokens
+}
+
 impl std::str::FromStr for InstrToC {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ').peekable();
+        let mut s = split_field_code(instr).into_iter().peekable();
         let mut toc = InstrToC::new();
         loop {
             if let Some(i) = s.next() {
@@ -327,6 +344,8 @@ impl std::str::FromStr for InstrToC {
                             } else {
                                 toc = toc.tc_field_identifier(None);
                             }
+                        } else {
+                            toc = toc.tc_field_identifier(None);
                         }
                     }
                     "\\h" => toc = toc.hyperlink(),
-- 
2.43.0


From 88afc09ea4db96b3a1e34ba5b74088e2278b77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:25:09 +0000
Subject: [PATCH 53/87] fix: write the simple position and overlap flags of a
 picture

---
 docx-core/src/documents/elements/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index c207d77..aca62a7 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -80,8 +80,8 @@ impl BuildXML for Drawing {
                             &format!("{}", p.dist_b),
                             &format!("{}", p.dist_l),
                             &format!("{}", p.dist_r),
-                            "0",
                             if p.simple_pos { "1" } else { "0" },
+                            if p.allow_overlap { "1" } else { "0" },
                             "0",
                             "0",
                             if p.layout_in_cell { "1" } else { "0" },
-- 
2.43.0


From dd846dc53c9cec8690163d1af693264b2b2cdf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:25:09 +0000
Subject: [PATCH 54/87] fix: write negative picture offsets

---
 docx-core/src/documents/elements/drawing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index aca62a7..580037b 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -95,7 +95,7 @@ impl BuildXML for Drawing {
 
                     match p.position_h {
                         DrawingPosition::Offset(x) => {
-                            let x = format!("{}", x as u32);
+                            let x = format!("{}", x);
                             b = b.pos_offset(&x)?.close()?;
                         }
                         DrawingPosition::Align(x) => {
@@ -107,7 +107,7 @@ impl BuildXML for Drawing {
 
                     match p.position_v {
                         DrawingPosition::Offset(y) => {
-                            let y = format!("{}", y as u32);
+                            let y = format!("{}", y);
                             b = b.pos_offset(&y)?.close()?;
                         }
                         DrawingPosition::Align(a) => {
-- 
2.43.0


From a79d25968bac591c5be91cdd05d1c9a920b652c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:25:09 +0000
Subject: [PATCH 55/87] fix: write documents that hold a drawing without data

---
 docx-core/src/documents/elements/drawing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index 580037b..1f47566 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -62,6 +62,10 @@ impl BuildXML for Drawing {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let b = XMLBuilder::from(stream);
+        // A drawing of a kind that was not read has nothing to write.
+        if self.data.is_none() {
+            return b.into_inner();
+        }
         let mut b = b.open_drawing()?;
 
         match &self.data {
-- 
2.43.0


From 5d5e79ce3bc5f2a885842215e7a49c6ffe70e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:25:22 +0000
Subject: [PATCH 56/87] fix: read the alignment of floating pictures

---
 docx-core/src/reader/drawing.rs         | 36 ++++++++++++++-----------
 docx-core/src/types/drawing_position.rs | 15 +++++++++++
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/docx-core/src/reader/drawing.rs b/docx-core/src/reader/drawing.rs
index 86beca6..b7967d2 100644
--- a/docx-core/src/reader/drawing.rs
+++ b/docx-core/src/reader/drawing.rs
@@ -11,8 +11,8 @@ use super::*;
 fn read_position_h<R: Read>(
     r: &mut EventReader<R>,
     attrs: &[OwnedAttribute],
-) -> Result<(RelativeFromHType, i32), ReaderError> {
-    let mut offset: i32 = 0;
+) -> Result<(RelativeFromHType, DrawingPosition), ReaderError> {
+    let mut position = DrawingPosition::Offset(0);
     let mut relative_from_h = RelativeFromHType::default();
 
     loop {
@@ -25,13 +25,15 @@ fn read_position_h<R: Read>(
         match e {
             Ok(XmlEvent::Characters(c)) => {
                 if let Ok(p) = f64::from_str(&c) {
-                    offset = p as i32;
+                    position = DrawingPosition::Offset(p as i32);
+                } else if let Ok(align) = PicAlign::from_str(&c) {
+                    position = DrawingPosition::Align(align);
                 }
             }
             Ok(XmlEvent::EndElement { name, .. }) => {
                 let e = WpXMLElement::from_str(&name.local_name).unwrap();
                 if e == WpXMLElement::PositionH {
-                    return Ok((relative_from_h, offset));
+                    return Ok((relative_from_h, position));
                 }
             }
             Err(_) => return Err(ReaderError::XMLReadError),
@@ -43,8 +45,8 @@ fn read_position_h<R: Read>(
 fn read_position_v<R: Read>(
     r: &mut EventReader<R>,
     attrs: &[OwnedAttribute],
-) -> Result<(RelativeFromVType, i32), ReaderError> {
-    let mut offset: i32 = 0;
+) -> Result<(RelativeFromVType, DrawingPosition), ReaderError> {
+    let mut position = DrawingPosition::Offset(0);
     let mut relative_from_v = RelativeFromVType::default();
     loop {
         if let Some(v) = read(attrs, "relativeFrom") {
@@ -57,13 +59,15 @@ fn read_position_v<R: Read>(
         match e {
             Ok(XmlEvent::Characters(c)) => {
                 if let Ok(p) = f64::from_str(&c) {
-                    offset = p as i32;
+                    position = DrawingPosition::Offset(p as i32);
+                } else if let Ok(align) = PicAlign::from_str(&c) {
+                    position = DrawingPosition::Align(align);
                 }
             }
             Ok(XmlEvent::EndElement { name, .. }) => {
                 let e = WpXMLElement::from_str(&name.local_name).unwrap();
                 if e == WpXMLElement::PositionV {
-                    return Ok((relative_from_v, offset));
+                    return Ok((relative_from_v, position));
                 }
             }
             Err(_) => return Err(ReaderError::XMLReadError),
@@ -123,8 +127,8 @@ impl ElementReader for Drawing {
         let mut simple_pos_y = 0;
         let mut layout_in_cell = true;
         let mut relative_height = 0;
-        let mut position_h = 0;
-        let mut position_v = 0;
+        let mut position_h = DrawingPosition::Offset(0);
+        let mut position_v = DrawingPosition::Offset(0);
         let mut relative_from_h = RelativeFromHType::default();
         let mut relative_from_v = RelativeFromVType::default();
         let mut allow_overlap = true;
@@ -203,8 +207,8 @@ impl ElementReader for Drawing {
                                     }
                                 }
                                 if let Some(d) = read(&attributes, "distR") {
-                                    if let Ok(d) = i32::from_str(&d) {
-                                        dist_r = d;
+                                    if let Ok(d) = f64::from_str(&d) {
+                                        dist_r = d as i32;
                                     }
                                 }
                             }
@@ -252,8 +256,8 @@ impl ElementReader for Drawing {
                             pic.dist_r = dist_r;
                             pic.relative_from_h = relative_from_h;
                             pic.relative_from_v = relative_from_v;
-                            pic.position_v = DrawingPosition::Offset(position_v);
-                            pic.position_h = DrawingPosition::Offset(position_h);
+                            pic.position_v = position_v;
+                            pic.position_h = position_h;
                             drawing = drawing.pic(pic);
                         }
                     }
@@ -276,8 +280,8 @@ impl ElementReader for Drawing {
                             text_box.dist_r = dist_r;
                             text_box.relative_from_h = relative_from_h;
                             text_box.relative_from_v = relative_from_v;
-                            text_box.position_v = DrawingPosition::Offset(position_v);
-                            text_box.position_h = DrawingPosition::Offset(position_h);
+                            text_box.position_v = position_v;
+                            text_box.position_h = position_h;
                             text_box.children = children;
                             drawing = drawing.text_box(text_box);
                         }
diff --git a/docx-core/src/types/drawing_position.rs b/docx-core/src/types/drawing_position.rs
index 1eda236..f862c6e 100644
--- a/docx-core/src/types/drawing_position.rs
+++ b/docx-core/src/types/drawing_position.rs
@@ -1,5 +1,6 @@
 use serde::Serialize;
 use std::fmt;
+use std::str::FromStr;
 
 #[cfg(feature = "wasm")]
 use wasm_bindgen::prelude::*;
@@ -39,6 +40,20 @@ impl fmt::Display for PicAlign {
     }
 }
 
+impl FromStr for PicAlign {
+    type Err = ();
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        match s {
+            "left" => Ok(PicAlign::Left),
+            "right" => Ok(PicAlign::Right),
+            "center" => Ok(PicAlign::Center),
+            "bottom" => Ok(PicAlign::Bottom),
+            "top" => Ok(PicAlign::Top),
+            _ => Err(()),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Copy, Serialize, PartialEq)]
 #[cfg_attr(feature = "wasm", derive(ts_rs::TS))]
 #[cfg_attr(feature = "wasm", ts(export))]
-- 
2.43.0


From 0838e12b9342251a07ea7be8705dc9b47e5c2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:25:22 +0000
Subject: [PATCH 57/87] fix: write no left indent when none is given

---
 docx-core/src/xml_builder/elements.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 2d8c3f8..2a798fd 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -287,9 +287,12 @@ impl<W: Write> XMLBuilder<W> {
         hanging_chars: Option<i32>,
         first_line_chars: Option<i32>,
     ) -> Result<Self> {
-        let mut base = XmlEvent::start_element("w:ind")
-            .attr_display("w:left", start.unwrap_or(0))
-            .attr_display("w:right", end);
+        let mut base = XmlEvent::start_element("w:ind");
+        // Stating a distance that was not given would override the style.
+        if let Some(start) = start {
+            base = base.attr_display("w:left", start);
+        }
+        base = base.attr_display("w:right", end);
 
         if let Some(start_chars) = start_chars {
             base = base.attr_display("w:leftChars", start_chars);
-- 
2.43.0


From e5076020e5efda1044361c5ebb4f296847f51869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:27:23 +0000
Subject: [PATCH 58/87] fix: write no runs without content so that comment
 references do not pile up

---
 docx-core/src/documents/elements/delete.rs            |  1 +
 docx-core/src/documents/elements/insert.rs            |  5 ++++-
 docx-core/src/documents/elements/move_from.rs         |  1 +
 docx-core/src/documents/elements/move_to.rs           |  5 ++++-
 docx-core/src/documents/elements/paragraph.rs         |  3 +++
 docx-core/src/documents/elements/run.rs               | 11 +++++++++++
 .../src/documents/elements/structured_data_tag.rs     |  1 +
 7 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/delete.rs b/docx-core/src/documents/elements/delete.rs
index d0ad028..9e992b8 100644
--- a/docx-core/src/documents/elements/delete.rs
+++ b/docx-core/src/documents/elements/delete.rs
@@ -106,6 +106,7 @@ impl BuildXML for Delete {
         XMLBuilder::from(stream)
             .open_delete(id.as_ref(), &self.author, &self.date)?
             .apply_each(&self.children, |ch, b| match ch {
+                DeleteChild::Run(t) if t.is_blank() && self.children.len() > 1 => Ok(b),
                 DeleteChild::Run(t) => b.add_child(&**t),
                 DeleteChild::CommentStart(c) => b.add_child(&c),
                 DeleteChild::CommentEnd(c) => b.add_child(c),
diff --git a/docx-core/src/documents/elements/insert.rs b/docx-core/src/documents/elements/insert.rs
index a9a007d..c0eaa42 100644
--- a/docx-core/src/documents/elements/insert.rs
+++ b/docx-core/src/documents/elements/insert.rs
@@ -151,7 +151,10 @@ impl BuildXML for Insert {
         let id = self.generate();
         XMLBuilder::from(stream)
             .open_insert(id.as_ref(), &self.author, &self.date)?
-            .add_children(&self.children)?
+            .apply_each(&self.children, |ch, b| match ch {
+                InsertChild::Run(r) if r.is_blank() && self.children.len() > 1 => Ok(b),
+                ch => b.add_child(ch),
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/elements/move_from.rs b/docx-core/src/documents/elements/move_from.rs
index bdf37df..3396689 100644
--- a/docx-core/src/documents/elements/move_from.rs
+++ b/docx-core/src/documents/elements/move_from.rs
@@ -105,6 +105,7 @@ impl BuildXML for MoveFrom {
         XMLBuilder::from(stream)
             .open_move_from(id.as_ref(), &self.author, &self.date)?
             .apply_each(&self.children, |ch, b| match ch {
+                MoveFromChild::Run(t) if t.is_blank() && self.children.len() > 1 => Ok(b),
                 MoveFromChild::Run(t) => b.add_child(&**t),
                 MoveFromChild::CommentStart(c) => b.add_child(&**c),
                 MoveFromChild::CommentEnd(c) => b.add_child(c),
diff --git a/docx-core/src/documents/elements/move_to.rs b/docx-core/src/documents/elements/move_to.rs
index 96d8a0b..c3b9e5e 100644
--- a/docx-core/src/documents/elements/move_to.rs
+++ b/docx-core/src/documents/elements/move_to.rs
@@ -144,7 +144,10 @@ impl BuildXML for MoveTo {
         let id = self.generate();
         XMLBuilder::from(stream)
             .open_move_to(id.as_ref(), &self.author, &self.date)?
-            .add_children(&self.children)?
+            .apply_each(&self.children, |ch, b| match ch {
+                MoveToChild::Run(r) if r.is_blank() && self.children.len() > 1 => Ok(b),
+                ch => b.add_child(ch),
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index 0e16cf3..a5f39b2 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -50,6 +50,9 @@ impl BuildXML for ParagraphChild {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         match self {
+            // Runs left over from comment references would grow in number
+            // with every reading.
+            ParagraphChild::Run(v) if v.is_blank() => Ok(stream),
             ParagraphChild::Run(v) => v.build_to(stream),
             ParagraphChild::Insert(v) => v.build_to(stream),
             ParagraphChild::Delete(v) => v.build_to(stream),
diff --git a/docx-core/src/documents/elements/run.rs b/docx-core/src/documents/elements/run.rs
index 18e7daf..b1d8e73 100644
--- a/docx-core/src/documents/elements/run.rs
+++ b/docx-core/src/documents/elements/run.rs
@@ -376,6 +376,17 @@ impl Run {
     }
 }
 
+impl Run {
+    /// Whether the run holds neither content nor formatting.
+    pub(crate) fn is_blank(&self) -> bool {
+        let no_content = self
+            .children
+            .iter()
+            .all(|child| matches!(child, RunChild::Drawing(d) if d.data.is_none()));
+        no_content && self.run_property == RunProperty::default()
+    }
+}
+
 impl BuildXML for RunChild {
     fn build_to<W: Write>(
         &self,
diff --git a/docx-core/src/documents/elements/structured_data_tag.rs b/docx-core/src/documents/elements/structured_data_tag.rs
index dd7034d..5657bdb 100644
--- a/docx-core/src/documents/elements/structured_data_tag.rs
+++ b/docx-core/src/documents/elements/structured_data_tag.rs
@@ -43,6 +43,7 @@ impl BuildXML for StructuredDataTagChild {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         match self {
+            StructuredDataTagChild::Run(v) if v.is_blank() => Ok(stream),
             StructuredDataTagChild::Run(v) => v.build_to(stream),
             StructuredDataTagChild::Paragraph(v) => v.build_to(stream),
             StructuredDataTagChild::Table(v) => v.build_to(stream),
-- 
2.43.0


From 56001a32bf3b59694bec5177a6302fc903eef9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:36:32 +0000
Subject: [PATCH 59/87] fix: relate the numbering part when only a tracked
 change uses numbering

---
 docx-core/src/documents/elements/paragraph_property.rs | 9 +++++++++
 docx-core/src/documents/mod.rs                         | 6 +++---
 docx-core/src/documents/styles.rs                      | 2 +-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph_property.rs b/docx-core/src/documents/elements/paragraph_property.rs
index 79febc7..a974491 100644
--- a/docx-core/src/documents/elements/paragraph_property.rs
+++ b/docx-core/src/documents/elements/paragraph_property.rs
@@ -159,6 +159,15 @@ impl ParagraphProperty {
         self
     }
 
+    /// Whether the properties, or those before a tracked change, use numbering.
+    pub(crate) fn uses_numbering(&self) -> bool {
+        self.numbering_property.is_some()
+            || self
+                .paragraph_property_change
+                .as_ref()
+                .is_some_and(|change| change.property.uses_numbering())
+    }
+
     pub fn paragraph_property_change(mut self, p: ParagraphPropertyChange) -> Self {
         self.paragraph_property_change = Some(p);
         self
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 6f8fa6e..6ab696a 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1137,14 +1137,14 @@ impl DependencyCollector {
 
 impl DocumentTreeVisitor for DependencyCollector {
     fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
-        self.has_numbering |= paragraph.property.numbering_property.is_some();
+        self.has_numbering |= paragraph.property.uses_numbering();
     }
 
     fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
         self.has_numbering |= reference
             .content
             .iter()
-            .any(|paragraph| paragraph.property.numbering_property.is_some());
+            .any(|paragraph| paragraph.property.uses_numbering());
     }
 
     fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
@@ -1168,7 +1168,7 @@ struct NumberingFinder {
 
 impl DocumentTreeVisitor for NumberingFinder {
     fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
-        self.found |= paragraph.property.numbering_property.is_some();
+        self.found |= paragraph.property.uses_numbering();
     }
 }
 
diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 5b9a65e..7a7f87c 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -51,7 +51,7 @@ impl Styles {
     pub(crate) fn has_numbering(&self) -> bool {
         self.styles
             .iter()
-            .any(|s| s.paragraph_property.numbering_property.is_some())
+            .any(|s| s.paragraph_property.uses_numbering())
     }
 
     pub fn find_style_by_id(&self, id: &str) -> Option<&Style> {
-- 
2.43.0


From 012eafdc3ff79b4e1e3c055a310bc13f52b227e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:56:23 +0000
Subject: [PATCH 60/87] fix: look up attributes by name when reading breaks and
 cells

---
 docx-core/src/reader/run.rs                 |  4 ++--
 docx-core/src/reader/table_cell_property.rs | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 9bd555e..aa4899c 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -87,8 +87,8 @@ impl ElementReader for Run {
                                 XMLElement::Text => text_state = TextState::Text,
                                 XMLElement::DeleteText => text_state = TextState::Delete,
                                 XMLElement::Break => {
-                                    if let Some(a) = attributes.first() {
-                                        run = run.add_break(BreakType::from_str(&a.value)?)
+                                    if let Some(v) = attributes::read(&attributes, "type") {
+                                        run = run.add_break(BreakType::from_str(&v)?)
                                     } else {
                                         run = run.add_break(BreakType::TextWrapping)
                                     }
diff --git a/docx-core/src/reader/table_cell_property.rs b/docx-core/src/reader/table_cell_property.rs
index 8aa7218..8d522ca 100644
--- a/docx-core/src/reader/table_cell_property.rs
+++ b/docx-core/src/reader/table_cell_property.rs
@@ -31,21 +31,21 @@ impl ElementReader for TableCellProperty {
                             property = property.width(w, width_type);
                         }
                         XMLElement::TableGridSpan => {
-                            if let Some(a) = attributes.first() {
-                                property = property.grid_span(usize::from_str(&a.value)?)
+                            if let Some(v) = attributes::read_val(&attributes) {
+                                property = property.grid_span(usize::from_str(&v)?)
                             }
                         }
                         XMLElement::TableVMerge => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_merge(VMergeType::from_str(&a.value)?);
+                            if let Some(v) = attributes::read_val(&attributes) {
+                                property = property.vertical_merge(VMergeType::from_str(&v)?);
                             } else {
                                 // Treat as a continue without attribute
                                 property = property.vertical_merge(VMergeType::Continue)
                             }
                         }
                         XMLElement::VAlign => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_align(VAlignType::from_str(&a.value)?);
+                            if let Some(v) = attributes::read_val(&attributes) {
+                                property = property.vertical_align(VAlignType::from_str(&v)?);
                             }
                         }
                         XMLElement::Shading => {
@@ -54,8 +54,8 @@ impl ElementReader for TableCellProperty {
                             }
                         }
                         XMLElement::TextDirection => {
-                            if let Some(a) = attributes.first() {
-                                if let Ok(v) = TextDirectionType::from_str(&a.value) {
+                            if let Some(v) = attributes::read_val(&attributes) {
+                                if let Ok(v) = TextDirectionType::from_str(&v) {
                                     property = property.text_direction(v);
                                 }
                             }
-- 
2.43.0


From 46820f96548d62d5cc1dcd2a8d1befbaecd18d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:56:24 +0000
Subject: [PATCH 61/87] fix: keep fractions of points when reading lengths

---
 docx-core/src/reader/attributes/val.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/attributes/val.rs b/docx-core/src/reader/attributes/val.rs
index 16ce58c..83c35da 100644
--- a/docx-core/src/reader/attributes/val.rs
+++ b/docx-core/src/reader/attributes/val.rs
@@ -16,8 +16,8 @@ pub fn read_val(attrs: &[OwnedAttribute]) -> Option<String> {
 
 pub fn value_to_dax(v: &str) -> Result<i32, ReaderError> {
     if v.ends_with("pt") {
-        let v = f64::from_str(&v.replace("pt", ""))? as i32;
-        Ok(v.saturating_mul(20))
+        let points = f64::from_str(&v.replace("pt", ""))?;
+        Ok((points * 20.0).round() as i32)
     } else {
         Ok(f64::from_str(v)? as i32)
     }
-- 
2.43.0


From 97cd8c6dd680acf2037082058b47e9216a32e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:56:43 +0000
Subject: [PATCH 62/87] fix: read every spelling of the right indent adjustment

---
 docx-core/src/reader/paragraph_property.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index a7ae000..edb7b63 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -58,10 +58,13 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::AdjustRightInd => {
-                            if let Some(val) = read_val(&attributes) {
-                                if let Ok(v) = isize::from_str(&val) {
-                                    p = p.adjust_right_ind(v);
-                                }
+                            let v = match read_val(&attributes).as_deref() {
+                                None | Some("true" | "on") => Some(1),
+                                Some("false" | "off") => Some(0),
+                                Some(val) => isize::from_str(val).ok(),
+                            };
+                            if let Some(v) = v {
+                                p = p.adjust_right_ind(v);
                             }
                             continue;
                         }
-- 
2.43.0


From 6ec0ac22e58839a38fa963c0f156846d75373710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:56:43 +0000
Subject: [PATCH 63/87] fix: join text around comments and character data
 sections

---
 docx-core/src/reader/xml_parser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 6be6045..cbf9007 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -162,7 +162,7 @@ impl<R: Read> EventReader<R> {
                 }
                 Event::CData(text) => {
                     let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    return Ok(XmlEvent::Characters(decoded));
+                    return self.read_text_event(decoded);
                 }
                 Event::Eof => {
                     self.finished = true;
@@ -210,17 +210,15 @@ impl<R: Read> EventReader<R> {
                     self.pending.push_back(XmlEvent::EndElement { name });
                     break;
                 }
-                Event::CData(text) => {
-                    let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    self.pending.push_back(XmlEvent::Characters(decoded));
-                    break;
+                Event::CData(cdata) => {
+                    text.push_str(&self.reader.decoder().decode(cdata.as_ref())?);
                 }
                 Event::Eof => {
                     self.pending.push_back(XmlEvent::EndDocument);
                     break;
                 }
                 Event::Decl(_) | Event::PI(_) | Event::Comment(_) | Event::DocType(_) => {
-                    break;
+                    // Text continues after non-structural events
                 }
             }
         }
-- 
2.43.0


From c63d7c2a3de0572bf3816114daa52102c907cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:59:24 +0000
Subject: [PATCH 64/87] fix: resolve relative relationship targets and find
 relationships of any part name

---
 docx-core/src/reader/read_zip.rs | 27 ++++++++++++++++++---------
 docx-core/src/reader/rels.rs     | 13 ++++++-------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index df51690..57a44f9 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -2,19 +2,28 @@ use std::io::{Cursor, Read};
 
 use super::ReaderError;
 
+/// Entry name for a part name, which may be absolute or hold `.` and `..`.
+fn entry_name(name: &str) -> String {
+    // Archives zipped on Windows keep '\' in paths, replace them to avoid zip error.
+    let name = name.replace('\\', "/");
+    let mut segments = Vec::new();
+    for segment in name.split('/') {
+        match segment {
+            "" | "." => {}
+            ".." => {
+                segments.pop();
+            }
+            segment => segments.push(segment),
+        }
+    }
+    segments.join("/")
+}
+
 pub fn read_zip(
     archive: &mut zip::read::ZipArchive<Cursor<&[u8]>>,
     name: &str,
 ) -> Result<Vec<u8>, ReaderError> {
-    // Archives zipped on Windows keep '\' in paths, replace them to avoid zip error.
-    let normalized;
-    let path = if name.contains('\\') {
-        normalized = name.replace('\\', "/");
-        normalized.trim_start_matches('/')
-    } else {
-        name.trim_start_matches('/')
-    };
-    let mut xml = archive.by_name(path)?;
+    let mut xml = archive.by_name(&entry_name(name))?;
     // The declared size is not trusted, so it only hints at the capacity.
     let capacity = usize::try_from(xml.size()).unwrap_or(0).min(1 << 20);
     let mut data = Vec::with_capacity(capacity);
diff --git a/docx-core/src/reader/rels.rs b/docx-core/src/reader/rels.rs
index 630d839..c67159c 100644
--- a/docx-core/src/reader/rels.rs
+++ b/docx-core/src/reader/rels.rs
@@ -51,13 +51,12 @@ pub fn find_rels_filename(main_path: impl AsRef<Path>) -> Result<PathBuf, Reader
     let dir = path
         .parent()
         .ok_or(ReaderError::DocumentRelsNotFoundError)?;
-    let base = path
-        .file_stem()
-        .ok_or(ReaderError::DocumentRelsNotFoundError)?;
-    Ok(Path::new(dir)
-        .join("_rels")
-        .join(base)
-        .with_extension("xml.rels"))
+    let mut file = path
+        .file_name()
+        .ok_or(ReaderError::DocumentRelsNotFoundError)?
+        .to_owned();
+    file.push(".rels");
+    Ok(Path::new(dir).join("_rels").join(file))
 }
 
 pub fn read_rels_xml<R: Read>(reader: R, dir: impl AsRef<Path>) -> Result<ReadRels, ReaderError> {
-- 
2.43.0


From 6e694508867f42d72dba2cc83a4ea376fd898483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:04:41 +0000
Subject: [PATCH 65/87] fix: recognise namespaces bound to other prefixes

---
 docx-core/src/reader/font_scheme.rs |  2 +-
 docx-core/src/reader/run.rs         |  2 +-
 docx-core/src/reader/settings.rs    |  2 +-
 docx-core/src/reader/xml_parser.rs  | 86 +++++++++++++++++++++++++++--
 4 files changed, 85 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/reader/font_scheme.rs b/docx-core/src/reader/font_scheme.rs
index 47ab3b8..0afb177 100644
--- a/docx-core/src/reader/font_scheme.rs
+++ b/docx-core/src/reader/font_scheme.rs
@@ -17,7 +17,7 @@ impl ElementReader for FontScheme {
                 Ok(XmlEvent::StartElement {
                     attributes, name, ..
                 }) => {
-                    match name.prefix.as_deref() {
+                    match name.usual_prefix() {
                         Some("a") => {
                             let e = AXMLElement::from_str(&name.local_name).unwrap();
                             match e {
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index aa4899c..363b482 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -57,7 +57,7 @@ impl ElementReader for Run {
                 Ok(XmlEvent::StartElement {
                     attributes, name, ..
                 }) => {
-                    match name.prefix.as_deref() {
+                    match name.usual_prefix() {
                         Some("w") => {
                             let e = XMLElement::from_str(&name.local_name).unwrap();
 
diff --git a/docx-core/src/reader/settings.rs b/docx-core/src/reader/settings.rs
index 0606d1d..2bb21d4 100644
--- a/docx-core/src/reader/settings.rs
+++ b/docx-core/src/reader/settings.rs
@@ -19,7 +19,7 @@ impl FromXML for Settings {
                     match e {
                         XMLElement::DocId => {
                             for a in attributes {
-                                if let Some(prefix) = a.name.prefix {
+                                if let Some(prefix) = a.name.usual_prefix() {
                                     let local_name = &a.name.local_name;
                                     // Ignore w14:val
                                     if local_name == "val" && prefix == "w15" {
diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index cbf9007..fb47014 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashMap, VecDeque};
 use std::io::{BufReader, Read};
 
 use quick_xml::encoding::Decoder;
@@ -15,6 +15,37 @@ pub struct OwnedName {
     pub prefix: Option<String>,
 }
 
+/// Namespaces told apart by the readers, with their usual prefixes.
+const NAMESPACES: &[(&str, &str)] = &[
+    (
+        "http://schemas.openxmlformats.org/wordprocessingml/2006/main",
+        "w",
+    ),
+    ("http://purl.oclc.org/ooxml/wordprocessingml/main", "w"),
+    ("http://schemas.openxmlformats.org/drawingml/2006/main", "a"),
+    ("http://purl.oclc.org/ooxml/drawingml/main", "a"),
+    (
+        "http://schemas.microsoft.com/office/word/2012/wordml",
+        "w15",
+    ),
+    (
+        "http://schemas.openxmlformats.org/markup-compatibility/2006",
+        "mc",
+    ),
+    ("urn:schemas-microsoft-com:vml", "v"),
+];
+
+impl OwnedName {
+    /// The prefix this name has where every namespace is bound to its usual prefix.
+    pub(crate) fn usual_prefix(&self) -> Option<&str> {
+        let namespace = self.namespace.as_deref();
+        match NAMESPACES.iter().find(|n| Some(n.0) == namespace) {
+            Some(n) => Some(n.1),
+            None => self.prefix.as_deref(),
+        }
+    }
+}
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct OwnedAttribute {
     pub name: OwnedName,
@@ -67,6 +98,10 @@ pub struct EventReader<R: Read> {
     pending: VecDeque<XmlEvent>,
     finished: bool,
     depth: usize,
+    /// Prefixes bound to one of the known namespaces.
+    scope: HashMap<String, &'static str>,
+    /// What the bindings made by open elements replaced, with the depth of the element.
+    replaced: Vec<(usize, String, Option<&'static str>)>,
     has_root: bool,
     exhausted: bool,
 }
@@ -86,6 +121,8 @@ impl<R: Read> EventReader<R> {
             pending: VecDeque::new(),
             finished: false,
             depth: 0,
+            scope: HashMap::new(),
+            replaced: Vec::new(),
             has_root: false,
             exhausted: false,
         }
@@ -101,10 +138,19 @@ impl<R: Read> EventReader<R> {
         if self.exhausted {
             return Err(unclosed());
         }
-        let event = self.read_raw();
-        match &event {
-            Ok(XmlEvent::StartElement { .. }) => {
+        let mut event = self.read_raw();
+        match &mut event {
+            Ok(XmlEvent::StartElement {
+                name, attributes, ..
+            }) => {
                 self.depth += 1;
+                self.bind(attributes);
+                name.namespace = self.namespace(name.prefix.as_deref().unwrap_or_default());
+                for a in attributes.iter_mut() {
+                    if let Some(prefix) = a.name.prefix.as_deref() {
+                        a.name.namespace = self.namespace(prefix);
+                    }
+                }
                 self.has_root = true;
                 if self.depth > MAX_DEPTH {
                     self.exhausted = true;
@@ -112,6 +158,7 @@ impl<R: Read> EventReader<R> {
                 }
             }
             Ok(XmlEvent::EndElement { .. }) => {
+                self.unbind();
                 self.depth = self.depth.saturating_sub(1);
             }
             Ok(XmlEvent::EndDocument) => {
@@ -126,6 +173,37 @@ impl<R: Read> EventReader<R> {
         event
     }
 
+    fn bind(&mut self, attributes: &[OwnedAttribute]) {
+        for a in attributes {
+            let prefix = match (a.name.prefix.as_deref(), a.name.local_name.as_str()) {
+                (Some("xmlns"), prefix) => prefix.to_owned(),
+                (None, "xmlns") => String::new(),
+                _ => continue,
+            };
+            let old = match NAMESPACES.iter().find(|n| n.0 == a.value) {
+                Some(n) => self.scope.insert(prefix.clone(), n.0),
+                None => self.scope.remove(&prefix),
+            };
+            self.replaced.push((self.depth, prefix, old));
+        }
+    }
+
+    fn unbind(&mut self) {
+        while self.replaced.last().is_some_and(|r| r.0 >= self.depth) {
+            let Some((_, prefix, old)) = self.replaced.pop() else {
+                break;
+            };
+            match old {
+                Some(namespace) => self.scope.insert(prefix, namespace),
+                None => self.scope.remove(&prefix),
+            };
+        }
+    }
+
+    fn namespace(&self, prefix: &str) -> Option<String> {
+        self.scope.get(prefix).map(|n| n.to_string())
+    }
+
     fn read_raw(&mut self) -> Result<XmlEvent, quick_xml::Error> {
         if let Some(event) = self.pending.pop_front() {
             return Ok(event);
-- 
2.43.0


From 564b129adf9948267d740a5d7b37d038df3fb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:05:34 +0000
Subject: [PATCH 66/87] fix: do not take namespace declarations for attributes

---
 docx-core/src/reader/xml_parser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index fb47014..b1868c2 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -175,9 +175,9 @@ impl<R: Read> EventReader<R> {
 
     fn bind(&mut self, attributes: &[OwnedAttribute]) {
         for a in attributes {
-            let prefix = match (a.name.prefix.as_deref(), a.name.local_name.as_str()) {
-                (Some("xmlns"), prefix) => prefix.to_owned(),
-                (None, "xmlns") => String::new(),
+            let prefix = match a.name.local_name.strip_prefix("xmlns") {
+                Some("") if a.name.prefix.is_none() => String::new(),
+                Some(bound) if bound.starts_with(':') => bound[1..].to_owned(),
                 _ => continue,
             };
             let old = match NAMESPACES.iter().find(|n| n.0 == a.value) {
@@ -412,7 +412,17 @@ fn build_attributes(
         let value = attr
             .decoded_and_normalized_value(XmlVersion::Implicit1_0, decoder)?
             .into_owned();
-        let name = split_qname(attr.key.as_ref());
+        let key = attr.key.as_ref();
+        let name = if key.starts_with(b"xmlns:") {
+            // Not an attribute named like the prefix
+            OwnedName {
+                local_name: String::from_utf8_lossy(key).into_owned(),
+                namespace: None,
+                prefix: None,
+            }
+        } else {
+            split_qname(key)
+        };
         attributes.push(OwnedAttribute { name, value });
     }
     Ok(attributes)
-- 
2.43.0


From 69a6d72e9816bd76d0e58a5ae960f3ca19f421c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:09:15 +0000
Subject: [PATCH 67/87] fix: stop reading an empty field instruction at its end

---
 docx-core/src/reader/run.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 363b482..ee877da 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -116,6 +116,7 @@ impl ElementReader for Run {
                                         Ok(XmlEvent::EndElement { name, .. }) => {
                                             let e = XMLElement::from_str(&name.local_name).unwrap();
                                             match e {
+                                                XMLElement::InstrText => break,
                                                 XMLElement::Run => {
                                                     return Ok(run);
                                                 }
-- 
2.43.0


From c6a71929c318e623da939e64354471cc23ccbdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:28:35 +0000
Subject: [PATCH 68/87] fix: export the content of footnotes

---
 docx-core/src/documents/elements/footnote_reference.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/docx-core/src/documents/elements/footnote_reference.rs b/docx-core/src/documents/elements/footnote_reference.rs
index 5a8fb2f..c46b604 100644
--- a/docx-core/src/documents/elements/footnote_reference.rs
+++ b/docx-core/src/documents/elements/footnote_reference.rs
@@ -53,6 +53,9 @@ impl Serialize for FootnoteReference {
     {
         let mut t = serializer.serialize_struct("FootnoteReference", 2)?;
         t.serialize_field("id", &self.id)?;
+        if !self.content.is_empty() {
+            t.serialize_field("content", &self.content)?;
+        }
         t.end()
     }
 }
-- 
2.43.0


From 8566cac004ff22d75d99ac976ca009cdc3332e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:28:35 +0000
Subject: [PATCH 69/87] fix: spell the outside margin of floating pictures as
 the standard does

---
 docx-core/src/types/relative_from_type.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/types/relative_from_type.rs b/docx-core/src/types/relative_from_type.rs
index e877993..7b3e8fc 100644
--- a/docx-core/src/types/relative_from_type.rs
+++ b/docx-core/src/types/relative_from_type.rs
@@ -53,7 +53,7 @@ impl fmt::Display for RelativeFromHType {
             RelativeFromHType::InsideMargin => write!(f, "insideMargin"),
             RelativeFromHType::LeftMargin => write!(f, "leftMargin"),
             RelativeFromHType::Margin => write!(f, "margin"),
-            RelativeFromHType::OutsizeMargin => write!(f, "outsizeMargin"),
+            RelativeFromHType::OutsizeMargin => write!(f, "outsideMargin"),
             RelativeFromHType::Page => write!(f, "page"),
             RelativeFromHType::RightMargin => write!(f, "rightMargin"),
         }
@@ -69,7 +69,7 @@ impl FromStr for RelativeFromHType {
             "insideMargin" => Ok(RelativeFromHType::InsideMargin),
             "leftMargin" => Ok(RelativeFromHType::LeftMargin),
             "margin" => Ok(RelativeFromHType::Margin),
-            "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
             "page" => Ok(RelativeFromHType::Page),
             "rightMargin" => Ok(RelativeFromHType::RightMargin),
             _ => Ok(RelativeFromHType::Margin),
@@ -117,7 +117,7 @@ impl FromStr for RelativeFromVType {
             "insideMargin" => Ok(RelativeFromVType::InsideMargin),
             "line" => Ok(RelativeFromVType::Line),
             "margin" => Ok(RelativeFromVType::Margin),
-            "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
             "page" => Ok(RelativeFromVType::Page),
             "paragraph" => Ok(RelativeFromVType::Paragraph),
             "topMargin" => Ok(RelativeFromVType::TopMargin),
-- 
2.43.0


From b1dd1d1a1ca4980ced2f13ac0c70a99bd5c22d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:28:35 +0000
Subject: [PATCH 70/87] fix: read the rotation of pictures

---
 docx-core/src/reader/pic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/docx-core/src/reader/pic.rs b/docx-core/src/reader/pic.rs
index 0cbfba8..400e467 100644
--- a/docx-core/src/reader/pic.rs
+++ b/docx-core/src/reader/pic.rs
@@ -24,6 +24,18 @@ impl ElementReader for Pic {
                                     pic = pic.id(id)
                                 }
                             }
+                            AXMLElement::Xfrm => {
+                                if let Some(rot) = read(&attributes, "rot") {
+                                    if let Ok(rot) = f64::from_str(&rot) {
+                                        // 60,000ths of a degree
+                                        let mut deg = (rot / 60000.0).round();
+                                        if deg < 0.0 {
+                                            deg = deg.rem_euclid(360.0);
+                                        }
+                                        pic = pic.rotate(deg as u16);
+                                    }
+                                }
+                            }
                             AXMLElement::Off => {
                                 let mut offset_x: i32 = 0;
                                 let mut offset_y: i32 = 0;
-- 
2.43.0


From 127b7cab96bf458dffb56eb78808fedf1983fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:28:35 +0000
Subject: [PATCH 71/87] fix: do not make inline pictures overlap others on
 reading

---
 docx-core/src/reader/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/drawing.rs b/docx-core/src/reader/drawing.rs
index b7967d2..c51a580 100644
--- a/docx-core/src/reader/drawing.rs
+++ b/docx-core/src/reader/drawing.rs
@@ -131,7 +131,7 @@ impl ElementReader for Drawing {
         let mut position_v = DrawingPosition::Offset(0);
         let mut relative_from_h = RelativeFromHType::default();
         let mut relative_from_v = RelativeFromVType::default();
-        let mut allow_overlap = true;
+        let mut allow_overlap = false;
         let mut dist_t = 0;
         let mut dist_b = 0;
         let mut dist_l = 0;
@@ -148,6 +148,8 @@ impl ElementReader for Drawing {
                         match wpe {
                             WpXMLElement::Anchor => {
                                 drawing_position_type = DrawingPositionType::Anchor;
+                                // Only floating drawings can overlap others.
+                                allow_overlap = true;
                                 if let Some(v) = read(&attributes, "simplePos") {
                                     if !is_false(&v) {
                                         simple_pos = true;
-- 
2.43.0


From a63fcf3ece304656136cde481d1b714ff9b2d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:21 +0000
Subject: [PATCH 72/87] fix: read what a positional tab is relative to from its
 own attribute

---
 docx-core/src/reader/positional_tab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/positional_tab.rs b/docx-core/src/reader/positional_tab.rs
index 9f9cf1e..a66831e 100644
--- a/docx-core/src/reader/positional_tab.rs
+++ b/docx-core/src/reader/positional_tab.rs
@@ -36,7 +36,7 @@ fn read_alignment(
 fn read_relative_to(attributes: &[OwnedAttribute]) -> Result<PositionalTabRelativeTo, ReaderError> {
     for a in attributes {
         let local_name = &a.name.local_name;
-        if local_name == "alignment" {
+        if local_name == "relativeTo" {
             let v = a.value.to_owned();
             if let Ok(t) = PositionalTabRelativeTo::from_str(&v) {
                 return Ok(t);
-- 
2.43.0


From 85a84ba41a86f4898d0a13ebdf60bbe269755b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:32 +0000
Subject: [PATCH 73/87] fix: read switched-off line height adjustment and legal
 numbering as off

---
 docx-core/src/reader/level.rs    | 4 +++-
 docx-core/src/reader/settings.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 88042a2..8a70d65 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -66,7 +66,9 @@ impl ElementReader for Level {
                             }
                         }
                         XMLElement::IsLgl => {
-                            is_lgl = Some(IsLgl::new());
+                            if read_bool(&attributes) {
+                                is_lgl = Some(IsLgl::new());
+                            }
                         }
                         XMLElement::LevelText => {
                             if let Some(v) = read_val(&attributes) {
diff --git a/docx-core/src/reader/settings.rs b/docx-core/src/reader/settings.rs
index 2bb21d4..118281f 100644
--- a/docx-core/src/reader/settings.rs
+++ b/docx-core/src/reader/settings.rs
@@ -53,7 +53,9 @@ impl FromXML for Settings {
                             }
                         }
                         XMLElement::AdjustLineHeightInTable => {
-                            settings = settings.adjust_line_height_in_table();
+                            if attributes::read_bool(&attributes) {
+                                settings = settings.adjust_line_height_in_table();
+                            }
                         }
                         XMLElement::CharacterSpacingControl => {
                             let val = read_val(&attributes);
-- 
2.43.0


From a95672a7aec2c3109829778f95ec30068162cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:23 +0000
Subject: [PATCH 74/87] fix: keep resolved comment threads resolved when
 packing

---
 docx-core/src/documents/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 6ab696a..df8a926 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -997,7 +997,18 @@ impl Docx {
         for (_, footer) in self.document.footers_mut() {
             visit_footer(footer, &mut numbering);
         }
-        let comments_extended = dependencies.comments_extended();
+        let mut comments_extended = dependencies.comments_extended();
+        // Threads that were resolved stay resolved.
+        let resolved: HashSet<&String> = self
+            .comments_extended
+            .children
+            .iter()
+            .filter(|extended| extended.done)
+            .map(|extended| &extended.paragraph_id)
+            .collect();
+        for extended in &mut comments_extended {
+            extended.done = resolved.contains(&extended.paragraph_id);
+        }
 
         // If this document has numbering, set numberings.xml to document_rels.
         // This is because numberings.xml without numbering cause an error on word online.
-- 
2.43.0


From 426ca0128a44b60be29c20f0b91ff39eb8b38221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:01 +0000
Subject: [PATCH 75/87] fix: read table of contents switches without a value
 and extra blanks in the field code

---
 docx-core/src/documents/elements/instr_toc.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index c459bfe..b06b8f9 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -294,6 +294,7 @@ fn split_field_code(instr: &str) -> Vec<&str> {
         }
     }
     tokens.push(&instr[start..]);
+    tokens.retain(|t| !t.is_empty());
     tokens
 }
 
@@ -350,24 +351,30 @@ impl std::str::FromStr for InstrToC {
                     }
                     "\\h" => toc = toc.hyperlink(),
                     "\\l" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|r| !r.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.tc_field_level_range(s, e);
                             }
                         }
                     }
                     "\\n" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|r| !r.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.omit_page_numbers_level_range(s, e);
                             }
+                        } else {
+                            // without a range the switch is about all levels
+                            toc = toc.omit_page_numbers_level_range(1, 9);
                         }
                     }
                     "\\o" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|r| !r.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.heading_styles_range(s, e);
                             }
+                        } else {
+                            // without a range the switch is about all levels
+                            toc = toc.heading_styles_range(1, 9);
                         }
                     }
                     "\\p" => {
-- 
2.43.0


From c2693568e629a930eb57fdf6724feffb9151a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:18 +0000
Subject: [PATCH 76/87] fix: find headers, footers, comments, settings and
 properties of flat XML documents

---
 docx-core/src/reader/read_xml.rs | 43 +++++++++++++++-----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 8bb9871..d59d85b 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -2,6 +2,19 @@ use super::header_or_footer_rels::ReadHeaderOrFooterRels;
 use super::namespace::*;
 use super::*;
 
+/// Finds a part by its target relative to the main document; part names start with a slash.
+fn find_part<'a>(
+    part_map: &'a HashMap<String, String>,
+    document_path: &str,
+    target: &str,
+) -> Option<&'a String> {
+    let path = format!("{}{}", document_path.replace("document.xml", ""), target);
+    let path = path.trim_start_matches('/');
+    part_map
+        .get(path)
+        .or_else(|| part_map.get(&format!("/{path}")))
+}
+
 fn read_headers_from_xml(
     rels: &Rels,
     part_map: &HashMap<String, String>,
@@ -12,9 +25,7 @@ fn read_headers_from_xml(
     // Find all header relationships by looking for header types in rels
     for (rel_type, id, target) in &rels.rels {
         if rel_type == HEADER_TYPE {
-            let header_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-
-            if let Some(header_data) = part_map.get(&header_path) {
+            if let Some(header_data) = find_part(part_map, document_path, target) {
                 if let Ok(header) = Header::from_xml(header_data.as_bytes()) {
                     // For simplicity, use default ReadHeaderOrFooterRels
                     // In a full implementation, we would read the header's _rels file
@@ -38,9 +49,7 @@ fn read_footers_from_xml(
     // Find all footer relationships by looking for footer types in rels
     for (rel_type, id, target) in &rels.rels {
         if rel_type == FOOTER_TYPE {
-            let footer_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-
-            if let Some(footer_data) = part_map.get(&footer_path) {
+            if let Some(footer_data) = find_part(part_map, document_path, target) {
                 if let Ok(footer) = Footer::from_xml(footer_data.as_bytes()) {
                     // For simplicity, use default ReadHeaderOrFooterRels
                     // In a full implementation, we would read the footer's _rels file
@@ -61,8 +70,7 @@ fn read_comments_from_xml(
 ) -> (Comments, CommentsExtended) {
     // Simplified implementation for XML packages - try to read comments if available
     let comments_extended = if let Some((_, _, target)) = rels.find_target(COMMENTS_EXTENDED_TYPE) {
-        let ext_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-        if let Some(comments_ext_data) = part_map.get(&ext_path) {
+        if let Some(comments_ext_data) = find_part(part_map, document_path, target) {
             CommentsExtended::from_xml(comments_ext_data.as_bytes()).unwrap_or_default()
         } else {
             CommentsExtended::default()
@@ -73,8 +81,7 @@ fn read_comments_from_xml(
 
     // Read comments
     let comments = if let Some((_, _, target)) = rels.find_target(COMMENTS_TYPE) {
-        let comm_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-        if let Some(comments_data) = part_map.get(&comm_path) {
+        if let Some(comments_data) = find_part(part_map, document_path, target) {
             if let Ok(comments) = Comments::from_xml(comments_data.as_bytes()) {
                 // Process extended comments relationships
                 let mut comments_inner = comments.into_inner();
@@ -365,7 +372,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read custom properties if available
     if let Some(custom_props) = rels.find_target(CUSTOM_PROPERTIES_TYPE) {
-        if let Some(data) = part_map.get(&custom_props.2) {
+        if let Some(data) = find_part(&part_map, "", &custom_props.2) {
             if let Ok(custom) = CustomProps::from_xml(data.as_bytes()) {
                 docx.doc_props.custom = custom;
             }
@@ -500,12 +507,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read settings if available (basic implementation)
     if let Some(settings_rel) = document_rels.find_target(SETTINGS_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let settings_path_str = format!("{}/{}", base_path, settings_rel.2);
-        if let Some(settings_data) = part_map.get(&settings_path_str) {
+        if let Some(settings_data) = find_part(&part_map, &document_path, &settings_rel.2) {
             if let Ok(settings) = Settings::from_xml(settings_data.as_bytes()) {
                 docx.settings = settings;
             }
@@ -514,12 +516,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read web settings if available (basic implementation)
     if let Some(web_settings_rel) = document_rels.find_target(WEB_SETTINGS_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let web_settings_path_str = format!("{}/{}", base_path, web_settings_rel.2);
-        if let Some(web_settings_data) = part_map.get(&web_settings_path_str) {
+        if let Some(web_settings_data) = find_part(&part_map, &document_path, &web_settings_rel.2) {
             if let Ok(web_settings) = WebSettings::from_xml(web_settings_data.as_bytes()) {
                 docx.web_settings = web_settings;
             }
-- 
2.43.0


From 9e84e95749096f618adbe316fe1a214eeb26e201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:49 +0000
Subject: [PATCH 77/87] fix: read every link of flat XML documents under its
 own id

---
 docx-core/src/reader/read_xml.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index d59d85b..180bc90 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -627,9 +627,11 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
     }
 
     // Read and add hyperlinks - simplified for XML packages
-    if let Some((id, _, target)) = document_rels.find_target(HYPERLINK_TYPE) {
+    for (rel_type, id, target) in &document_rels.rels {
         // For XML packages, we'll add the hyperlink with a default mode
-        docx = docx.add_hyperlink(id, target, "External".to_string());
+        if rel_type == HYPERLINK_TYPE {
+            docx = docx.add_hyperlink(id, target, "External".to_string());
+        }
     }
 
     Ok(docx)
-- 
2.43.0


From 55a60016e442f421ad251cbc1c47f7bcb71a223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:37 +0000
Subject: [PATCH 78/87] fix: attach headers and footers of sections, their
 pictures and links when reading flat XML

---
 docx-core/src/documents/mod.rs    |   2 +-
 docx-core/src/reader/read_docx.rs |  61 +++++----
 docx-core/src/reader/read_xml.rs  | 203 ++++++++----------------------
 3 files changed, 92 insertions(+), 174 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index df8a926..013ab54 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -297,7 +297,7 @@ impl Docx {
         self
     }
 
-    // reader only
+    #[cfg(test)]
     pub(crate) fn add_image(
         self,
         id: impl Into<String>,
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 5d4325d..7d8a851 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -247,22 +247,14 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     docx = docx.document(document);
 
     // assign headers and footers
-    let mut assign = |docx: &mut Docx, section| {
-        assign_headers_and_footers(docx, section, &headers, &footers, |docx, rels| {
-            add_images(docx, rels, &mut archive, options.generate_image_previews)
-        })
-    };
-    let section = std::mem::take(&mut docx.document.section_property);
-    docx.document.section_property = assign(&mut docx, section);
-    let mut children = std::mem::take(&mut docx.document.children);
-    for child in &mut children {
-        if let DocumentChild::Paragraph(paragraph) = child {
-            if let Some(section) = paragraph.property.section_property.take() {
-                paragraph.property.section_property = Some(assign(&mut docx, section));
-            }
-        }
-    }
-    docx.document.children = children;
+    assign_all_headers_and_footers(&mut docx, &headers, &footers, |docx, rels| {
+        add_images(
+            docx,
+            rels,
+            |path| read_zip(&mut archive, path).ok(),
+            options.generate_image_previews,
+        )
+    });
 
     // store comments to paragraphs.
     if !comments.inner().is_empty() {
@@ -330,7 +322,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     let renamed = add_images(
         &mut docx,
         media,
-        &mut archive,
+        |path| read_zip(&mut archive, path).ok(),
         options.generate_image_previews,
     );
     visit_document(&mut docx.document, &mut PictureRenamer(renamed));
@@ -343,10 +335,10 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     Ok(docx)
 }
 
-type Targets<'a> = Option<&'a std::collections::BTreeSet<(RId, PathBuf, Option<String>)>>;
+pub(super) type Targets<'a> = Option<&'a std::collections::BTreeSet<(RId, PathBuf, Option<String>)>>;
 
 /// Collects the hyperlink relationships of one part as ID, target and mode.
-fn read_hyperlinks(links: Targets) -> Vec<(String, String, String)> {
+pub(super) fn read_hyperlinks(links: Targets) -> Vec<(String, String, String)> {
     links
         .into_iter()
         .flatten()
@@ -357,6 +349,29 @@ fn read_hyperlinks(links: Targets) -> Vec<(String, String, String)> {
         .collect()
 }
 
+/// Attaches the headers and footers of every section.
+pub(super) fn assign_all_headers_and_footers(
+    docx: &mut Docx,
+    headers: &HashMap<RId, (Header, ReadHeaderOrFooterRels)>,
+    footers: &HashMap<RId, (Footer, ReadHeaderOrFooterRels)>,
+    mut add_images: impl FnMut(&mut Docx, Targets) -> HashMap<String, String>,
+) {
+    let mut assign = |docx: &mut Docx, section| {
+        assign_headers_and_footers(docx, section, headers, footers, &mut add_images)
+    };
+    let section = std::mem::take(&mut docx.document.section_property);
+    docx.document.section_property = assign(docx, section);
+    let mut children = std::mem::take(&mut docx.document.children);
+    for child in &mut children {
+        if let DocumentChild::Paragraph(paragraph) = child {
+            if let Some(section) = paragraph.property.section_property.take() {
+                paragraph.property.section_property = Some(assign(docx, section));
+            }
+        }
+    }
+    docx.document.children = children;
+}
+
 /// Attaches the headers and footers a section refers to, reading their media.
 fn assign_headers_and_footers(
     docx: &mut Docx,
@@ -411,10 +426,10 @@ fn assign_headers_and_footers(
 ///
 /// Relationship IDs are only unique within a part, so an ID that already
 /// stands for another part's image is replaced. Returns the replaced IDs.
-fn add_images(
+pub(super) fn add_images(
     docx: &mut Docx,
     media: Targets,
-    archive: &mut ZipArchive<Cursor<&[u8]>>,
+    mut read: impl FnMut(&str) -> Option<Vec<u8>>,
     generate_previews: bool,
 ) -> HashMap<String, String> {
     let mut renamed = HashMap::new();
@@ -422,7 +437,7 @@ fn add_images(
     if let Some(paths) = media {
         for (id, media, ..) in paths {
             let path = media.to_str().expect("should have media");
-            if let Ok(data) = read_zip(archive, path) {
+            if let Some(data) = read(path) {
                 let mut image_id = id.clone();
                 let mut suffix = 1;
                 while docx
@@ -449,7 +464,7 @@ fn add_images(
 }
 
 /// Replaces picture IDs by the IDs their images are stored under.
-struct PictureRenamer(HashMap<String, String>);
+pub(super) struct PictureRenamer(pub HashMap<String, String>);
 
 impl DocumentTreeVisitor for PictureRenamer {
     fn visit_picture(&mut self, picture: &mut Pic) {
diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 180bc90..670e22d 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -1,6 +1,12 @@
 use super::header_or_footer_rels::ReadHeaderOrFooterRels;
 use super::namespace::*;
+use super::read_docx::{
+    add_images, assign_all_headers_and_footers, read_hyperlinks, PictureRenamer,
+};
+use super::rels::{find_rels_filename, read_rels_xml};
 use super::*;
+use crate::documents::document_tree::{visit_document, visit_footer, visit_header};
+use crate::documents::RelationshipRestorer;
 
 /// Finds a part by its target relative to the main document; part names start with a slash.
 fn find_part<'a>(
@@ -26,10 +32,10 @@ fn read_headers_from_xml(
     for (rel_type, id, target) in &rels.rels {
         if rel_type == HEADER_TYPE {
             if let Some(header_data) = find_part(part_map, document_path, target) {
-                if let Ok(header) = Header::from_xml(header_data.as_bytes()) {
-                    // For simplicity, use default ReadHeaderOrFooterRels
-                    // In a full implementation, we would read the header's _rels file
-                    let header_rels = ReadHeaderOrFooterRels::default();
+                if let Ok(mut header) = Header::from_xml(header_data.as_bytes()) {
+                    let header_rels = read_rels_from_xml(part_map, document_path, target);
+                    let links = read_hyperlinks(header_rels.target_paths(HYPERLINK_TYPE));
+                    visit_header(&mut header, &mut RelationshipRestorer::new(&[], &links));
                     headers.insert(id.clone(), (header, header_rels));
                 }
             }
@@ -50,10 +56,10 @@ fn read_footers_from_xml(
     for (rel_type, id, target) in &rels.rels {
         if rel_type == FOOTER_TYPE {
             if let Some(footer_data) = find_part(part_map, document_path, target) {
-                if let Ok(footer) = Footer::from_xml(footer_data.as_bytes()) {
-                    // For simplicity, use default ReadHeaderOrFooterRels
-                    // In a full implementation, we would read the footer's _rels file
-                    let footer_rels = ReadHeaderOrFooterRels::default();
+                if let Ok(mut footer) = Footer::from_xml(footer_data.as_bytes()) {
+                    let footer_rels = read_rels_from_xml(part_map, document_path, target);
+                    let links = read_hyperlinks(footer_rels.target_paths(HYPERLINK_TYPE));
+                    visit_footer(&mut footer, &mut RelationshipRestorer::new(&[], &links));
                     footers.insert(id.clone(), (footer, footer_rels));
                 }
             }
@@ -132,64 +138,37 @@ fn read_comments_from_xml(
     (comments, comments_extended)
 }
 
-fn add_images_from_xml(
-    mut docx: Docx,
-    media: Option<Vec<(RId, PathBuf, Option<String>)>>,
+/// Reads the relationships of a header or footer, with targets relative to the main document.
+fn read_rels_from_xml(
     part_map: &HashMap<String, String>,
     document_path: &str,
-) -> Docx {
-    // Read media from XML package
-    if let Some(paths) = media {
-        for (id, media_path, ..) in paths {
-            let base_path = document_path
-                .replace("document.xml", "")
-                .trim_end_matches('/')
-                .to_string();
-            let image_path = format!("{}/{}", base_path, media_path.to_str().unwrap_or(""));
-
-            // Try multiple possible paths for the image
-            let paths_to_try = vec![
-                image_path.clone(),
-                format!("/{}", image_path.trim_start_matches('/')),
-                image_path.trim_start_matches('/').to_string(),
-            ];
-
-            for path in paths_to_try {
-                if let Some(image_data) = part_map.get(&path) {
-                    // For XML packages with binaryData, the data is base64 encoded
-                    // Remove all whitespace and newlines from base64 data
-                    let clean_base64 = image_data
-                        .chars()
-                        .filter(|c| !c.is_whitespace())
-                        .collect::<String>();
-                    let bytes = if let Ok(decoded) =
-                        base64::engine::general_purpose::STANDARD.decode(&clean_base64)
-                    {
-                        decoded
-                    } else {
-                        // If base64 decode fails, try as raw bytes (shouldn't happen for binaryData)
-                        image_data.as_bytes().to_vec()
-                    };
-                    docx =
-                        docx.add_image(id.clone(), media_path.to_str().unwrap().to_string(), bytes);
-                    break;
-                }
-            }
-        }
-    }
-    docx
+    target: &str,
+) -> ReadHeaderOrFooterRels {
+    find_rels_filename(target)
+        .ok()
+        .and_then(|path| find_part(part_map, document_path, path.to_str()?))
+        .and_then(|data| read_rels_xml(data.as_bytes(), "").ok())
+        .map(|rels| ReadHeaderOrFooterRels { rels })
+        .unwrap_or_default()
 }
 
-fn add_header_footer_images(
-    docx: Docx,
-    _header_footer_rels: &ReadHeaderOrFooterRels,
-    _part_map: &HashMap<String, String>,
-    _document_path: &str,
-) -> Docx {
-    // For XML packages, header/footer image handling is simplified
-    // In a full implementation, we would process header/footer relationships for images
-    // For now, we'll use the default ReadHeaderOrFooterRels which doesn't have images
-    docx
+fn read_image(
+    part_map: &HashMap<String, String>,
+    document_path: &str,
+    target: &str,
+) -> Option<Vec<u8>> {
+    let image_data = find_part(part_map, document_path, target)?;
+    // For XML packages with binaryData, the data is base64 encoded
+    // Remove all whitespace and newlines from base64 data
+    let clean_base64 = image_data
+        .chars()
+        .filter(|c| !c.is_whitespace())
+        .collect::<String>();
+    let bytes = base64::engine::general_purpose::STANDARD
+        .decode(&clean_base64)
+        // If base64 decode fails, try as raw bytes (shouldn't happen for binaryData)
+        .unwrap_or_else(|_| image_data.as_bytes().to_vec());
+    Some(bytes)
 }
 
 /// A struct to hold information about a part in an XML package
@@ -523,89 +502,10 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
         }
     }
 
-    // Assign headers
-    if let Some(h) = docx.document.section_property.header_reference.clone() {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx.document.header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref h) = docx
-        .document
-        .section_property
-        .first_header_reference
-        .clone()
-    {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx
-                .document
-                .first_header_without_title_pg(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref h) = docx.document.section_property.even_header_reference.clone() {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx.document.even_header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
-        }
-    }
-
-    // Assign footers
-    if let Some(f) = docx.document.section_property.footer_reference.clone() {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx.document.footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref f) = docx
-        .document
-        .section_property
-        .first_footer_reference
-        .clone()
-    {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx
-                .document
-                .first_footer_without_title_pg(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref f) = docx.document.section_property.even_footer_reference.clone() {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx.document.even_footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
-        }
-    }
+    // Assign headers and footers
+    assign_all_headers_and_footers(&mut docx, &headers, &footers, |docx, media| {
+        add_images(docx, media, |path| read_image(&part_map, &document_path, path), true)
+    });
 
     // Store comments to paragraphs
     if !comments.inner().is_empty() {
@@ -620,11 +520,14 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
         .iter()
         .filter(|(rel_type, ..)| *rel_type == IMAGE_TYPE)
         .map(|(_, id, target)| (id.clone(), PathBuf::from(target), None))
-        .collect::<Vec<_>>();
-
-    if !media.is_empty() {
-        docx = add_images_from_xml(docx, Some(media), &part_map, &document_path);
-    }
+        .collect();
+    let renamed = add_images(
+        &mut docx,
+        Some(&media),
+        |path| read_image(&part_map, &document_path, path),
+        true,
+    );
+    visit_document(&mut docx.document, &mut PictureRenamer(renamed));
 
     // Read and add hyperlinks - simplified for XML packages
     for (rel_type, id, target) in &document_rels.rels {
-- 
2.43.0


From 6833a81cc400f32d0e46584e264a8ca7d029d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:51 +0000
Subject: [PATCH 79/87] fix: read flat XML documents whose main part has
 another name

---
 docx-core/src/reader/read_xml.rs | 68 ++++++--------------------------
 1 file changed, 12 insertions(+), 56 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 670e22d..dee5719 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -14,7 +14,11 @@ fn find_part<'a>(
     document_path: &str,
     target: &str,
 ) -> Option<&'a String> {
-    let path = format!("{}{}", document_path.replace("document.xml", ""), target);
+    let dir = match document_path.rsplit_once('/') {
+        Some((dir, _)) if !target.starts_with('/') => dir,
+        _ => "",
+    };
+    let path = format!("{dir}/{target}");
     let path = path.trim_start_matches('/');
     part_map
         .get(path)
@@ -359,10 +363,10 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
     }
 
     // Read document relationships - use Rels directly for XML packages
-    let document_rels_path = document_path.replace("document.xml", "_rels/document.xml.rels");
-    let document_rels = if let Some(rels_data) = part_map.get(&document_rels_path) {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else if let Some(rels_data) = part_map.get(&format!("/{document_rels_path}")) {
+    let document_rels = find_rels_filename(&document_path)
+        .ok()
+        .and_then(|path| find_part(&part_map, "", path.to_str()?));
+    let document_rels = if let Some(rels_data) = document_rels {
         Rels::from_xml(rels_data.as_bytes())?
     } else {
         Rels::default()
@@ -370,23 +374,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read themes (improved implementation with debug)
     if let Some(theme_rel) = document_rels.find_target(THEME_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let theme_path_str = format!("{}/{}", base_path, theme_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_theme_path = if theme_path_str.starts_with("/") {
-            theme_path_str.clone()
-        } else {
-            format!("/{theme_path_str}")
-        };
-
-        if let Some(theme_data) = part_map
-            .get(&theme_path_str)
-            .or_else(|| part_map.get(&direct_theme_path))
-        {
+        if let Some(theme_data) = find_part(&part_map, &document_path, &theme_rel.2) {
             match Theme::from_xml(theme_data.as_bytes()) {
                 Ok(theme) => {
                     docx.themes.push(theme);
@@ -425,23 +413,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read styles if available (improved implementation with debug)
     if let Some(styles_rel) = document_rels.find_target(STYLE_RELATIONSHIP_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let styles_path_str = format!("{}/{}", base_path, styles_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_styles_path = if styles_path_str.starts_with("/") {
-            styles_path_str.clone()
-        } else {
-            format!("/{styles_path_str}")
-        };
-
-        if let Some(styles_data) = part_map
-            .get(&styles_path_str)
-            .or_else(|| part_map.get(&direct_styles_path))
-        {
+        if let Some(styles_data) = find_part(&part_map, &document_path, &styles_rel.2) {
             if let Ok(styles) = Styles::from_xml(styles_data.as_bytes()) {
                 docx.styles = styles;
             }
@@ -450,23 +422,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read numbering if available (improved implementation with debug)
     if let Some(numbering_rel) = document_rels.find_target(NUMBERING_RELATIONSHIP_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let numbering_path_str = format!("{}/{}", base_path, numbering_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_numbering_path = if numbering_path_str.starts_with("/") {
-            numbering_path_str.clone()
-        } else {
-            format!("/{numbering_path_str}")
-        };
-
-        if let Some(numbering_data) = part_map
-            .get(&numbering_path_str)
-            .or_else(|| part_map.get(&direct_numbering_path))
-        {
+        if let Some(numbering_data) = find_part(&part_map, &document_path, &numbering_rel.2) {
             if let Ok(numberings) = Numberings::from_xml(numbering_data.as_bytes()) {
                 docx.numberings = numberings;
             }
-- 
2.43.0


From 91812e9f1127ea11238b22c8a4f23193ec6c3ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:51 +0000
Subject: [PATCH 80/87] fix: take the name of a flat XML part from its start
 tag only

---
 docx-core/src/reader/read_xml.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index dee5719..1de8044 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -215,8 +215,11 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             let part_end = part_start + part_end + 11; // 11 = "</pkg:part>".len()
             let part_xml = &xml_content[part_start..part_end];
 
+            // The attributes are those of the start tag, not of the contents
+            let part_tag = &part_xml[..part_xml.find('>').unwrap_or(part_xml.len())];
+
             // Extract name attribute (handle both standard and double-quoted patterns)
-            let name = if let Some(name_start) = part_xml.find("pkg:name=\"\"") {
+            let name = if let Some(name_start) = part_tag.find("pkg:name=\"\"") {
                 // Handle double-quoted pattern: pkg:name=""value""
                 let name_start = name_start + 12; // 12 = "pkg:name=\"\"".len()
                 if let Some(name_end) = part_xml[name_start..].find("\"\"") {
@@ -226,7 +229,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
                     start_idx = part_end;
                     continue;
                 }
-            } else if let Some(name_start) = part_xml.find("pkg:name=\"") {
+            } else if let Some(name_start) = part_tag.find("pkg:name=\"") {
                 // Handle standard pattern: pkg:name="value"
                 let name_start = name_start + 10; // 10 = "pkg:name=\"".len()
                 if let Some(name_end) = part_xml[name_start..].find("\"") {
@@ -243,7 +246,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             };
 
             // Extract contentType attribute (handle both standard and double-quoted patterns)
-            let content_type = if let Some(type_start) = part_xml.find("pkg:contentType=\"\"") {
+            let content_type = if let Some(type_start) = part_tag.find("pkg:contentType=\"\"") {
                 // Handle double-quoted pattern: pkg:contentType=""value""
                 let type_start = type_start + 19; // 19 = "pkg:contentType=\"\"".len()
                 if let Some(type_end) = part_xml[type_start..].find("\"\"") {
@@ -253,7 +256,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
                     start_idx = part_end;
                     continue;
                 }
-            } else if let Some(type_start) = part_xml.find("pkg:contentType=\"") {
+            } else if let Some(type_start) = part_tag.find("pkg:contentType=\"") {
                 // Handle standard pattern: pkg:contentType="value"
                 let type_start = type_start + 17; // 17 = "pkg:contentType=\"".len()
                 if let Some(type_end) = part_xml[type_start..].find("\"") {
-- 
2.43.0


From 2005323817b9113f7451aa541c9425a86a8a2fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:04 +0000
Subject: [PATCH 81/87] fix: read flat XML parts whose data element has
 attributes

---
 docx-core/src/reader/read_xml.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 1de8044..934e727 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -201,6 +201,12 @@ fn decode_html_entities(text: &str) -> String {
         .replace("&#62;", ">")
 }
 
+/// Finds where the contents of an element start, whatever attributes it has
+fn content_start(xml: &str, tag: &str) -> Option<usize> {
+    let tag_start = xml.find(tag)?;
+    Some(tag_start + xml[tag_start..].find('>')? + 1)
+}
+
 /// Extract parts from a Microsoft Word XML package using simple string parsing
 pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart>, ReaderError> {
     let mut parts = Vec::new();
@@ -273,8 +279,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             };
 
             // Extract xmlData or binaryData content
-            let data = if let Some(data_start) = part_xml.find("<pkg:xmlData>") {
-                let data_start = data_start + 13; // 13 = "<pkg:xmlData>".len()
+            let data = if let Some(data_start) = content_start(part_xml, "<pkg:xmlData") {
                 if let Some(data_end) = part_xml[data_start..].find("</pkg:xmlData>") {
                     part_xml[data_start..data_start + data_end].to_string()
                 } else {
@@ -282,8 +287,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
                     start_idx = part_end;
                     continue;
                 }
-            } else if let Some(data_start) = part_xml.find("<pkg:binaryData>") {
-                let data_start = data_start + 16; // 16 = "<pkg:binaryData>".len()
+            } else if let Some(data_start) = content_start(part_xml, "<pkg:binaryData") {
                 if let Some(data_end) = part_xml[data_start..].find("</pkg:binaryData>") {
                     // Binary data in XML packages is base64 encoded
                     part_xml[data_start..data_start + data_end]
-- 
2.43.0


From 2ee9f3a126219fc63b1ad793cf7f4c5a54a1c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:14 +0000
Subject: [PATCH 82/87] fix: keep all text of a custom XML element when it
 comes in pieces

---
 docx-core/src/xml_json/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index e4b6d57..e1921a3 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -123,18 +123,19 @@ fn parse<R: Read>(source: R, trim: bool) -> Result<Vec<XmlData>, String> {
                 data: None,
                 children: Vec::new(),
             }),
-            XmlEvent::Characters(chr) => {
-                let chr = if trim { chr.trim().to_string() } else { chr };
-                match open.last_mut() {
-                    Some(current) => current.data = Some(chr),
-                    None => return Err("Invalid form of XML doc".to_string()),
-                }
-            }
+            XmlEvent::Characters(chr) => match open.last_mut() {
+                // text may come in pieces, around comments or child elements
+                Some(current) => current.data.get_or_insert_with(String::new).push_str(&chr),
+                None => return Err("Invalid form of XML doc".to_string()),
+            },
             XmlEvent::EndElement { name } => {
                 let name = qualified_name(name);
-                let current = open
+                let mut current = open
                     .pop()
                     .ok_or_else(|| format!("Invalid end tag: {name}"))?;
+                if trim {
+                    current.data = current.data.map(|data| data.trim().to_string());
+                }
                 if current.name != name {
                     return Err(format!(
                         "Invalid end tag: expected {}, got {name}",
-- 
2.43.0


From d46e57f1172fc7eece944c4ca010a1c299597f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:11 +0000
Subject: [PATCH 83/87] fix: parse quoted arguments, blanks and the field name
 in field codes

Parsing an entry, page reference or link code split at every blank, so a
quoted text of several words lost all but its first word and kept a
quotation mark.
---
 .../src/documents/elements/instr_hyperlink.rs |  2 +-
 .../src/documents/elements/instr_pageref.rs   |  4 ++--
 docx-core/src/documents/elements/instr_tc.rs  |  4 ++--
 docx-core/src/documents/elements/instr_toc.rs | 21 ++++++++++++++++---
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index a47e46d..d2785f3 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -41,7 +41,7 @@ impl std::str::FromStr for InstrHyperlink {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ');
+        let mut s = split_field_code(instr).into_iter();
         let mut target = "".to_string();
         let mut anchor = false;
         loop {
diff --git a/docx-core/src/documents/elements/instr_pageref.rs b/docx-core/src/documents/elements/instr_pageref.rs
index f1829cc..64d6505 100644
--- a/docx-core/src/documents/elements/instr_pageref.rs
+++ b/docx-core/src/documents/elements/instr_pageref.rs
@@ -50,9 +50,9 @@ impl std::str::FromStr for InstrPAGEREF {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ');
+        let mut s = field_arguments(instr, "PAGEREF").into_iter();
         let text = s.next();
-        let mut page_ref = InstrPAGEREF::new(text.unwrap_or_default());
+        let mut page_ref = InstrPAGEREF::new(unquote_field_argument(text.unwrap_or_default()));
         loop {
             if let Some(i) = s.next() {
                 match i {
diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index a7373ce..94b5116 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -79,9 +79,9 @@ impl std::str::FromStr for InstrTC {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ');
+        let mut s = field_arguments(instr, "TC").into_iter();
         let text = s.next();
-        let mut tc = InstrTC::new(text.unwrap_or_default());
+        let mut tc = InstrTC::new(unquote_field_argument(text.unwrap_or_default()));
         loop {
             if let Some(i) = s.next() {
                 match i {
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index b06b8f9..9d61f67 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -281,16 +281,16 @@ fn parse_level_range(i: &str) -> Option<(usize, usize)> {
 }
 
 /// Splits a field code at blanks outside of quotes.
-fn split_field_code(instr: &str) -> Vec<&str> {
+pub(crate) fn split_field_code(instr: &str) -> Vec<&str> {
     let mut in_quotes = false;
     let mut tokens = vec![];
     let mut start = 0;
     for (index, c) in instr.char_indices() {
         if c == '"' || instr[index..].starts_with("&quot;") {
             in_quotes = !in_quotes;
-        } else if c == ' ' && !in_quotes {
+        } else if c.is_whitespace() && !in_quotes {
             tokens.push(&instr[start..index]);
-            start = index + 1;
+            start = index + c.len_utf8();
         }
     }
     tokens.push(&instr[start..]);
@@ -298,6 +298,21 @@ fn split_field_code(instr: &str) -> Vec<&str> {
     tokens
 }
 
+/// The arguments and switches of a field code, without the name of the field if the code has it.
+pub(crate) fn field_arguments<'a>(instr: &'a str, name: &str) -> Vec<&'a str> {
+    let mut tokens = split_field_code(instr);
+    let has_argument = tokens.get(1).is_some_and(|t| !t.starts_with('\\'));
+    if has_argument && tokens[0].eq_ignore_ascii_case(name) {
+        tokens.remove(0);
+    }
+    tokens
+}
+
+/// The text of a field argument, which may be quoted.
+pub(crate) fn unquote_field_argument(argument: &str) -> String {
+    argument.replace("&quot;", "").replace('\"', "")
+}
+
 impl std::str::FromStr for InstrToC {
     type Err = ();
 
-- 
2.43.0


From 5f9bd8e6604411d9cd0a4593e2809d9ab15cb15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:10 +0000
Subject: [PATCH 84/87] fix: include tagged runs in the plain text of a
 paragraph

---
 docx-core/src/documents/elements/paragraph.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index a5f39b2..c73ba70 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -483,6 +483,9 @@ impl Paragraph {
                 ParagraphChild::Hyperlink(link) => {
                     s.push_str(&Self::raw_text_of(&link.children));
                 }
+                ParagraphChild::StructuredDataTag(tag) => {
+                    s.push_str(&Self::raw_text_of_tag(tag));
+                }
                 ParagraphChild::MoveFrom(_) => {
                     // Skip — ghost text from original location
                 }
@@ -492,6 +495,19 @@ impl Paragraph {
         s
     }
 
+    fn raw_text_of_tag(tag: &StructuredDataTag) -> String {
+        tag.children
+            .iter()
+            .map(|c| match c {
+                StructuredDataTagChild::Run(r) => {
+                    Self::raw_text_of(&[ParagraphChild::Run(r.clone())])
+                }
+                StructuredDataTagChild::StructuredDataTag(t) => Self::raw_text_of_tag(t),
+                _ => String::new(),
+            })
+            .collect()
+    }
+
     pub fn add_page_num(mut self, p: PageNum) -> Self {
         self.children.push(ParagraphChild::PageNum(Box::new(p)));
         self
-- 
2.43.0


From ba2afdc9c04dd33d458f09cadbd636839b22bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:21 +0000
Subject: [PATCH 85/87] fix: do not take recorded former or conditional
 formatting for the current one

Reading a table, section or style that records its former settings or
conditional formatting let those values replace the current ones.
---
 docx-core/src/reader/section_property.rs | 2 ++
 docx-core/src/reader/style.rs            | 2 ++
 docx-core/src/reader/table_property.rs   | 2 ++
 docx-core/src/reader/xml_element.rs      | 4 ++++
 4 files changed, 10 insertions(+)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index 8808a1d..b4ae70d 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -92,6 +92,8 @@ impl ElementReader for SectionProperty {
                     attributes, name, ..
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
+                    ignore::ignore_element(e.clone(), XMLElement::SectionPropertyChange, r);
+
                     match e {
                         XMLElement::PageMargin => {
                             let margin = read_page_margin(&attributes)?;
diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index bb9557a..53367d2 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -28,6 +28,8 @@ impl ElementReader for Style {
                     attributes, name, ..
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
+                    ignore::ignore_element(e.clone(), XMLElement::TableStyleProperty, r);
+
                     match e {
                         XMLElement::Name => {
                             if let Some(v) = read_val(&attributes) {
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index 7ee5fc4..857bc4b 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -19,6 +19,8 @@ impl ElementReader for TableProperty {
                     attributes, name, ..
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
+                    ignore::ignore_element(e.clone(), XMLElement::TablePropertyChange, r);
+
                     match e {
                         XMLElement::TableBorders => {
                             if let Ok(borders) = TableBorders::read(r, &attributes) {
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 1395273..ac27317 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -108,6 +108,8 @@ pub enum XMLElement {
     TablePropertyChange,
     TableRowPropertyChange,
     TableCellPropertyChange,
+    TableStyleProperty,
+    SectionPropertyChange,
     CellMargins,
     Top,
     Right,
@@ -366,6 +368,8 @@ impl FromStr for XMLElement {
             "trPrChange" => Ok(XMLElement::TableRowPropertyChange),
             "tcPrChange" => Ok(XMLElement::TableCellPropertyChange),
             "tcMar" => Ok(XMLElement::CellMargins),
+            "tblStylePr" => Ok(XMLElement::TableStyleProperty),
+            "sectPrChange" => Ok(XMLElement::SectionPropertyChange),
             "tblGridChange" => Ok(XMLElement::TableGridChange),
             "gridCol" => Ok(XMLElement::GridCol),
             "style" => Ok(XMLElement::Style),
-- 
2.43.0


From 18d10c4bdd799b46dd62fcbaa48a62c7949d43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:04 +0000
Subject: [PATCH 86/87] fix: read the settings of a content control and
 controls inside it

The name, data binding and formatting of a content control were dropped,
and a control inside another one ended the outer one early.
---
 docx-core/src/reader/structured_data_tag.rs | 27 +++++++++++++++++++++
 docx-core/src/reader/xml_element.rs         |  6 +++++
 2 files changed, 33 insertions(+)

diff --git a/docx-core/src/reader/structured_data_tag.rs b/docx-core/src/reader/structured_data_tag.rs
index b97e008..5c74e9b 100644
--- a/docx-core/src/reader/structured_data_tag.rs
+++ b/docx-core/src/reader/structured_data_tag.rs
@@ -19,7 +19,34 @@ impl ElementReader for StructuredDataTag {
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
 
+                    ignore::ignore_element(e.clone(), XMLElement::StructuredDataTagEndProperty, r);
+
                     match e {
+                        XMLElement::RunProperty => {
+                            if let Ok(p) = RunProperty::read(r, &attributes) {
+                                sdt.property.run_property = p;
+                            }
+                            continue;
+                        }
+                        XMLElement::Alias => {
+                            sdt.property.alias = read_val(&attributes);
+                            continue;
+                        }
+                        XMLElement::DataBinding => {
+                            sdt.property.data_binding = Some(DataBinding {
+                                xpath: read(&attributes, "xpath"),
+                                prefix_mappings: read(&attributes, "prefixMappings"),
+                                store_item_id: read(&attributes, "storeItemID"),
+                            });
+                            continue;
+                        }
+                        XMLElement::StructuredDataTag => {
+                            if let Ok(tag) = StructuredDataTag::read(r, &attributes) {
+                                sdt.children
+                                    .push(StructuredDataTagChild::StructuredDataTag(Box::new(tag)));
+                            }
+                            continue;
+                        }
                         XMLElement::Paragraph => {
                             if let Ok(p) = Paragraph::read(r, &attributes) {
                                 sdt.children
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index ac27317..5761cf2 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -173,6 +173,9 @@ pub enum XMLElement {
     TitlePg,
     EvenAndOddHeaders,
     StructuredDataTag,
+    StructuredDataTagEndProperty,
+    Alias,
+    DataBinding,
     Type,
     PageNumType,
     FrameProperty,
@@ -439,6 +442,9 @@ impl FromStr for XMLElement {
             "titlePg" => Ok(XMLElement::TitlePg),
             "evenAndOddHeaders" => Ok(XMLElement::EvenAndOddHeaders),
             "sdt" => Ok(XMLElement::StructuredDataTag),
+            "sdtEndPr" => Ok(XMLElement::StructuredDataTagEndProperty),
+            "alias" => Ok(XMLElement::Alias),
+            "dataBinding" => Ok(XMLElement::DataBinding),
             "pgNumType" => Ok(XMLElement::PageNumType),
             "framePr" => Ok(XMLElement::FrameProperty),
             "textAlignment" => Ok(XMLElement::TextAlignment),
-- 
2.43.0


From 7cf60fe7aec5eabcd75d9ff2e6a81df7351e2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:29 +0000
Subject: [PATCH 87/87] fix: read on after a fallback or shape that holds
 another one

---
 docx-core/src/reader/mc_fallback.rs | 11 ++++++++++-
 docx-core/src/reader/shape.rs       | 15 +++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/reader/mc_fallback.rs b/docx-core/src/reader/mc_fallback.rs
index a60fb39..15448a8 100644
--- a/docx-core/src/reader/mc_fallback.rs
+++ b/docx-core/src/reader/mc_fallback.rs
@@ -12,15 +12,24 @@ impl ElementReader for McFallback {
         r: &mut EventReader<R>,
         _attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
+        let mut depth = 1;
         loop {
             let fallback = McFallback::new();
             let e = r.next_event();
             match e {
+                Ok(XmlEvent::StartElement { name, .. }) => {
+                    if let Ok(McXMLElement::Fallback) = McXMLElement::from_str(&name.local_name) {
+                        depth += 1;
+                    }
+                }
                 Ok(XmlEvent::EndElement { name, .. }) => {
                     let e = McXMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         McXMLElement::Fallback => {
-                            return Ok(fallback);
+                            depth -= 1;
+                            if depth == 0 {
+                                return Ok(fallback);
+                            }
                         }
                         _ => {}
                     }
diff --git a/docx-core/src/reader/shape.rs b/docx-core/src/reader/shape.rs
index 0274128..fd53931 100644
--- a/docx-core/src/reader/shape.rs
+++ b/docx-core/src/reader/shape.rs
@@ -15,22 +15,29 @@ impl ElementReader for Shape {
             shape = shape.style(style);
         }
 
+        // The text of a shape can hold shapes of its own.
+        let mut depth = 1;
         loop {
             let e = r.next_event();
             match e {
                 Ok(XmlEvent::StartElement {
                     name, attributes, ..
-                }) => {
-                    if let Ok(VXMLElement::ImageData) = VXMLElement::from_str(&name.local_name) {
+                }) => match VXMLElement::from_str(&name.local_name) {
+                    Ok(VXMLElement::Shape) => depth += 1,
+                    Ok(VXMLElement::ImageData) if depth == 1 => {
                         if let Some(id) = read(&attributes, "id") {
                             shape = shape.image_data(id);
                         }
                     }
-                }
+                    _ => {}
+                },
                 Ok(XmlEvent::EndElement { name, .. }) => {
                     let e = VXMLElement::from_str(&name.local_name).unwrap();
                     if e == VXMLElement::Shape {
-                        return Ok(shape);
+                        depth -= 1;
+                        if depth == 0 {
+                            return Ok(shape);
+                        }
                     }
                 }
                 Err(_) => return Err(ReaderError::XMLReadError),
-- 
2.43.0

