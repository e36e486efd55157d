From 1250dc5cea356c1eeb699f5d5747326a9d1aa770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:55 +0000
Subject: [PATCH 01/46] fix: write w:val="false" for disabled bCs and iCs

---
 docx-core/src/documents/elements/bold_cs.rs   |  6 +++++-
 docx-core/src/documents/elements/italic_cs.rs |  6 +++++-
 docx-core/src/xml_builder/elements.rs         | 12 ++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/bold_cs.rs b/docx-core/src/documents/elements/bold_cs.rs
index 5e20da8..6a1e505 100644
--- a/docx-core/src/documents/elements/bold_cs.rs
+++ b/docx-core/src/documents/elements/bold_cs.rs
@@ -39,6 +39,10 @@ impl BuildXML for BoldCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).b_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).b_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_bold_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/documents/elements/italic_cs.rs b/docx-core/src/documents/elements/italic_cs.rs
index 6e8c804..fb98422 100644
--- a/docx-core/src/documents/elements/italic_cs.rs
+++ b/docx-core/src/documents/elements/italic_cs.rs
@@ -40,6 +40,10 @@ impl BuildXML for ItalicCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).i_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).i_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_italic_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f1aed6d..96eac4b 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -189,6 +189,12 @@ impl<W: Write> XMLBuilder<W> {
             .close()
     }
 
+    pub(crate) fn disable_bold_cs(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:bCs").attr("w:val", f))?
+            .close()
+    }
+
     closed_with_str!(caps, "w:caps");
 
     closed!(i, "w:i");
@@ -200,6 +206,12 @@ impl<W: Write> XMLBuilder<W> {
             .close()
     }
 
+    pub(crate) fn disable_italic_cs(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:iCs").attr("w:val", f))?
+            .close()
+    }
+
     closed!(strike, "w:strike");
 
     pub(crate) fn disable_strike(self) -> Result<Self> {
-- 
2.43.0


From 6d1b7b988abd2a930e08218cf06a8e0fd34be026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:30:10 +0000
Subject: [PATCH 02/46] fix: write hSpace and vSpace of framePr under their
 schema names

---
 docx-core/src/xml_builder/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 96eac4b..356bcee 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -659,10 +659,10 @@ impl<W: Write> XMLBuilder<W> {
             w = w.attr_display("w:y", y);
         }
         if let Some(h_space) = prop.h_space {
-            w = w.attr_display("w:h_space", h_space);
+            w = w.attr_display("w:hSpace", h_space);
         }
         if let Some(v_space) = prop.v_space {
-            w = w.attr_display("w:v_space", v_space);
+            w = w.attr_display("w:vSpace", v_space);
         }
         if let Some(width) = prop.w {
             w = w.attr_display("w:w", width);
-- 
2.43.0


From f6393b34b92a7f900bf66880a5b0b0ce6d98b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:34:35 +0000
Subject: [PATCH 03/46] fix: read element values by attribute name instead of
 position

Elements without attributes made the reader panic, and elements whose
first attribute was not w:val were read with the wrong value.
---
 docx-core/src/documents/content_types.rs   | 15 ++++++++---
 docx-core/src/reader/level.rs              | 29 +++++++++++++++-------
 docx-core/src/reader/level_override.rs     |  9 ++++---
 docx-core/src/reader/numbering_property.rs |  8 ++++--
 docx-core/src/reader/numberings.rs         | 13 +++++++---
 docx-core/src/reader/paragraph_property.rs | 16 ++++++++----
 docx-core/src/reader/run_property.rs       | 22 ++++++++++++----
 docx-core/src/reader/style.rs              |  4 ++-
 docx-core/src/reader/table.rs              |  4 ++-
 docx-core/src/reader/table_property.rs     |  6 +++--
 10 files changed, 91 insertions(+), 35 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 8bbd8bf..7845b6f 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -185,9 +185,18 @@ impl FromXML for ContentTypes {
             match e {
                 Ok(XmlEvent::StartElement { attributes, .. }) => {
                     if depth == 1 {
-                        let namespace = attributes[0].value.clone();
-                        let path = attributes[1].value.clone();
-                        s = s.add_content(path, namespace);
+                        let mut namespace = None;
+                        let mut path = None;
+                        for a in attributes {
+                            match a.name.local_name.as_str() {
+                                "ContentType" => namespace = Some(a.value),
+                                "PartName" | "Extension" => path = Some(a.value),
+                                _ => {}
+                            }
+                        }
+                        if let (Some(path), Some(namespace)) = (path, namespace) {
+                            s = s.add_content(path, namespace);
+                        }
                     }
                     depth += 1;
                 }
diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 4e2fd38..e670c9f 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -36,8 +36,7 @@ impl ElementReader for Level {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::ParagraphStyle => {
-                            let id = attributes[0].value.clone();
-                            style_id = Some(id);
+                            style_id = read_val(&attributes);
                         }
                         XMLElement::ParagraphProperty => {
                             if let Ok(pr) = ParagraphProperty::read(r, attrs) {
@@ -52,27 +51,39 @@ impl ElementReader for Level {
                             continue;
                         }
                         XMLElement::Start => {
-                            start = Start::new(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                start = Start::new(usize::from_str(&v)?);
+                            }
                         }
                         XMLElement::NumberFormat => {
-                            num_fmt = NumberFormat::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                num_fmt = NumberFormat::new(v);
+                            }
                         }
                         XMLElement::Suffix => {
-                            suffix = LevelSuffixType::from_str(&attributes[0].value)?;
+                            if let Some(v) = read_val(&attributes) {
+                                suffix = LevelSuffixType::from_str(&v)?;
+                            }
                         }
                         XMLElement::IsLgl => {
                             is_lgl = Some(IsLgl::new());
                         }
                         XMLElement::LevelText => {
-                            level_text = LevelText::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                level_text = LevelText::new(v);
+                            }
                         }
                         XMLElement::LevelRestart => {
-                            if let Ok(v) = u32::from_str(&attributes[0].value) {
-                                level_restart = Some(LevelRestart::new(v));
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = u32::from_str(&v) {
+                                    level_restart = Some(LevelRestart::new(v));
+                                }
                             }
                         }
                         XMLElement::LevelJustification => {
-                            jc = LevelJc::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                jc = LevelJc::new(v);
+                            }
                         }
                         XMLElement::Indent => {
                             let i = read_indent(&attributes)?;
diff --git a/docx-core/src/reader/level_override.rs b/docx-core/src/reader/level_override.rs
index 4cfc5eb..c0dedc9 100644
--- a/docx-core/src/reader/level_override.rs
+++ b/docx-core/src/reader/level_override.rs
@@ -8,7 +8,8 @@ impl ElementReader for LevelOverride {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        if let Ok(level) = usize::from_str(&attrs[0].value) {
+        let level = read(attrs, "ilvl").and_then(|v| usize::from_str(&v).ok());
+        if let Some(level) = level {
             let mut o = LevelOverride::new(level);
             loop {
                 let e = r.next_event();
@@ -19,8 +20,10 @@ impl ElementReader for LevelOverride {
                         let e = XMLElement::from_str(&name.local_name).unwrap();
                         match e {
                             XMLElement::StartOverride => {
-                                if let Ok(val) = usize::from_str(&attributes[0].value) {
-                                    o = o.start(val);
+                                if let Some(val) = read_val(&attributes) {
+                                    if let Ok(val) = usize::from_str(&val) {
+                                        o = o.start(val);
+                                    }
                                 }
                                 continue;
                             }
diff --git a/docx-core/src/reader/numbering_property.rs b/docx-core/src/reader/numbering_property.rs
index f1678bf..cc28d08 100644
--- a/docx-core/src/reader/numbering_property.rs
+++ b/docx-core/src/reader/numbering_property.rs
@@ -19,11 +19,15 @@ impl ElementReader for NumberingProperty {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::IndentLevel => {
-                            level = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                level = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         XMLElement::NumberingId => {
-                            id = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                id = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         _ => {}
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 5034add..03eeeaa 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -38,11 +38,14 @@ impl FromXML for Numberings {
                                                 abs_num = abs_num.add_level(l);
                                             }
                                             XMLElement::StyleLink => {
-                                                abs_num = abs_num.style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.style_link(v)
+                                                }
                                             }
                                             XMLElement::NumStyleLink => {
-                                                abs_num =
-                                                    abs_num.num_style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.num_style_link(v)
+                                                }
                                             }
                                             _ => {}
                                         }
@@ -79,7 +82,9 @@ impl FromXML for Numberings {
                                         let e = XMLElement::from_str(&name.local_name).unwrap();
                                         match e {
                                             XMLElement::AbstractNumberingId => {
-                                                abs_num_id = usize::from_str(&attributes[0].value)?
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num_id = usize::from_str(&v)?
+                                                }
                                             }
                                             XMLElement::LvlOverride => {
                                                 if let Ok(o) =
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 361450c..458a0c7 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -42,14 +42,18 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = AlignmentType::from_str(&attributes[0].value) {
-                                p = p.align(v);
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = AlignmentType::from_str(&v) {
+                                    p = p.align(v);
+                                }
                             }
                             continue;
                         }
                         XMLElement::TextAlignment => {
-                            if let Ok(v) = TextAlignmentType::from_str(&attributes[0].value) {
-                                p = p.text_alignment(v);
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TextAlignmentType::from_str(&v) {
+                                    p = p.text_alignment(v);
+                                }
                             }
                             continue;
                         }
@@ -62,7 +66,9 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::ParagraphStyle => {
-                            p = p.style(&attributes[0].value);
+                            if let Some(v) = read_val(&attributes) {
+                                p = p.style(&v);
+                            }
                             continue;
                         }
                         XMLElement::RunProperty => {
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 187f50d..d49883f 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -107,7 +107,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.ptab(v)
                             }
                         }
-                        XMLElement::Highlight => rp = rp.highlight(attributes[0].value.clone()),
+                        XMLElement::Highlight => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.highlight(v)
+                            }
+                        }
                         XMLElement::Strike => {
                             if !read_bool(&attributes) {
                                 rp.strike = Some(Strike::new().disable());
@@ -123,13 +127,17 @@ impl ElementReader for RunProperty {
                             rp = rp.dstrike();
                         }
                         XMLElement::VertAlign => {
-                            if let Ok(v) = VertAlignType::from_str(&attributes[0].value) {
-                                rp = rp.vert_align(v)
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = VertAlignType::from_str(&v) {
+                                    rp = rp.vert_align(v)
+                                }
                             }
                         }
                         XMLElement::Color => rp = read_color(rp, &attributes),
                         XMLElement::Size => {
-                            rp = rp.size(f64::from_str(&attributes[0].value)? as usize)
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.size(f64::from_str(&v)? as usize)
+                            }
                         }
                         XMLElement::Spacing => {
                             if let Some(v) = read_val(&attributes) {
@@ -152,7 +160,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.fonts(f);
                             }
                         }
-                        XMLElement::Underline => rp = rp.underline(attributes[0].value.clone()),
+                        XMLElement::Underline => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.underline(v)
+                            }
+                        }
                         XMLElement::Italic => {
                             if !read_bool(&attributes) {
                                 rp = rp.disable_italic();
diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index 9d611ab..bb9557a 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -30,7 +30,9 @@ impl ElementReader for Style {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::Name => {
-                            style = style.name(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                style = style.name(v);
+                            }
                             continue;
                         }
                         XMLElement::BasedOn => {
diff --git a/docx-core/src/reader/table.rs b/docx-core/src/reader/table.rs
index 5c0e511..82d4211 100644
--- a/docx-core/src/reader/table.rs
+++ b/docx-core/src/reader/table.rs
@@ -35,7 +35,9 @@ impl ElementReader for Table {
                             }
                         }
                         XMLElement::Justification => {
-                            t = t.align(TableAlignmentType::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                t = t.align(TableAlignmentType::from_str(&v)?);
+                            }
                         }
                         XMLElement::TableIndent => {
                             let (w, _) = read_width(&attributes)?;
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index aeca707..2449f90 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -37,8 +37,10 @@ impl ElementReader for TableProperty {
                             }
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = TableAlignmentType::from_str(&attributes[0].value) {
-                                tp = tp.align(v);
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TableAlignmentType::from_str(&v) {
+                                    tp = tp.align(v);
+                                }
                             }
                         }
                         XMLElement::TableIndent => {
-- 
2.43.0


From c5c1d5e53647cc45f2253e2436a105eddf517bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:35:09 +0000
Subject: [PATCH 04/46] fix: end element readers at the end of a truncated part

Parts that end inside an element kept several readers waiting for an end
tag forever.
---
 docx-core/src/reader/custom_properties.rs |  1 +
 docx-core/src/reader/ignore.rs            | 13 ++++++++-----
 docx-core/src/reader/numberings.rs        |  2 ++
 docx-core/src/reader/xml_parser.rs        | 10 +++++++++-
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index dfc71f2..d3f1928 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -37,6 +37,7 @@ impl FromXML for CustomProps {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/ignore.rs b/docx-core/src/reader/ignore.rs
index 727addf..12ec11a 100644
--- a/docx-core/src/reader/ignore.rs
+++ b/docx-core/src/reader/ignore.rs
@@ -6,12 +6,15 @@ use super::*;
 pub(crate) fn ignore_element<R: Read>(el: XMLElement, ignore: XMLElement, r: &mut EventReader<R>) {
     if ignore == el {
         loop {
-            let e = r.next_event();
-            if let Ok(XmlEvent::EndElement { name, .. }) = e {
-                let e = XMLElement::from_str(&name.local_name).unwrap();
-                if e == ignore {
-                    break;
+            match r.next_event() {
+                Ok(XmlEvent::EndElement { name, .. }) => {
+                    let e = XMLElement::from_str(&name.local_name).unwrap();
+                    if e == ignore {
+                        break;
+                    }
                 }
+                Err(_) => break,
+                _ => {}
             }
         }
     }
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 03eeeaa..7bdcd33 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -57,6 +57,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
@@ -105,6 +106,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 8ef0eda..db3c9fb 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -2,6 +2,7 @@ use std::collections::VecDeque;
 use std::io::{BufReader, Read};
 
 use quick_xml::encoding::Decoder;
+use quick_xml::errors::SyntaxError;
 use quick_xml::escape::unescape;
 use quick_xml::events::{BytesEnd, BytesRef, BytesStart, BytesText, Event};
 use quick_xml::Reader;
@@ -90,6 +91,12 @@ impl<R: Read> EventReader<R> {
             return Ok(event);
         }
 
+        // Reading past the end is an error so that truncated documents end the
+        // element readers instead of feeding them end events forever.
+        if self.finished {
+            return Err(quick_xml::Error::Syntax(SyntaxError::UnclosedTag));
+        }
+
         loop {
             self.buf.clear();
             match self.reader.read_event_into(&mut self.buf)? {
@@ -175,6 +182,7 @@ impl<R: Read> EventReader<R> {
                     break;
                 }
                 Event::Eof => {
+                    self.finished = true;
                     self.pending.push_back(XmlEvent::EndDocument);
                     break;
                 }
@@ -213,7 +221,7 @@ impl<R: Read> Iterator for EventReader<R> {
     type Item = Result<XmlEvent, quick_xml::Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.finished {
+        if self.finished && self.pending.is_empty() {
             return None;
         }
         match self.read_next() {
-- 
2.43.0


From c8638fd3596e6527f7e157dd06c026fa3045fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:36:11 +0000
Subject: [PATCH 05/46] fix: report malformed values as errors instead of
 panicking

Covers non numeric widths, comments without ids, damaged archive entries
and measures in points, which also lost their fraction.
---
 docx-core/src/reader/attributes/val.rs   | 4 ++--
 docx-core/src/reader/attributes/width.rs | 2 +-
 docx-core/src/reader/comment.rs          | 2 +-
 docx-core/src/reader/comment_extended.rs | 2 +-
 docx-core/src/reader/read_zip.rs         | 6 ++++--
 5 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/reader/attributes/val.rs b/docx-core/src/reader/attributes/val.rs
index 0f8dc21..8753661 100644
--- a/docx-core/src/reader/attributes/val.rs
+++ b/docx-core/src/reader/attributes/val.rs
@@ -16,8 +16,8 @@ pub fn read_val(attrs: &[OwnedAttribute]) -> Option<String> {
 
 pub fn value_to_dax(v: &str) -> Result<i32, ReaderError> {
     if v.ends_with("pt") {
-        let v = f64::from_str(&v.replace("pt", ""))? as i32;
-        Ok(v * 20)
+        let v = f64::from_str(&v.replace("pt", ""))?;
+        Ok((v * 20.0) as i32)
     } else {
         Ok(f64::from_str(v)? as i32)
     }
diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index 2a01be5..b33f87f 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -15,7 +15,7 @@ pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), Reader
             width_type = WidthType::from_str(&a.value)?;
         } else if local_name == "w" {
             let v = a.value.replace('%', "");
-            w = f64::from_str(&v).expect("should read width.") as isize;
+            w = f64::from_str(&v)? as isize;
         }
     }
     Ok((w, width_type))
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index e42ef42..df47f15 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -9,7 +9,7 @@ impl ElementReader for Comment {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
+        let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
             comment = comment.author(escape::escape(author.as_str()));
diff --git a/docx-core/src/reader/comment_extended.rs b/docx-core/src/reader/comment_extended.rs
index 02a2ceb..6c81721 100644
--- a/docx-core/src/reader/comment_extended.rs
+++ b/docx-core/src/reader/comment_extended.rs
@@ -7,7 +7,7 @@ impl ElementReader for CommentExtended {
         _r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let para_id = read(attrs, "paraId").expect("should comment id exists.");
+        let para_id = read(attrs, "paraId").ok_or(ReaderError::XMLReadError)?;
         let mut comment_extended = CommentExtended::new(para_id);
         if let Some(done) = read(attrs, "done") {
             if !is_false(&done) {
diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index df37556..7432ed0 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -15,9 +15,11 @@ pub fn read_zip(
         name.trim_start_matches('/')
     };
     let mut xml = archive.by_name(path)?;
-    let capacity = usize::try_from(xml.size()).unwrap_or(0);
+    // The size comes from the archive, so it must not decide the allocation alone.
+    let capacity = usize::try_from(xml.size()).unwrap_or(0).min(1 << 24);
     let mut data = Vec::with_capacity(capacity);
-    xml.read_to_end(&mut data).unwrap();
+    xml.read_to_end(&mut data)
+        .map_err(zip::result::ZipError::Io)?;
     // Remove BOM
     if data.starts_with(&[0xef, 0xbb, 0xbf]) {
         data.copy_within(3.., 0);
-- 
2.43.0


From 1cdf5f8d87360a3db88a21bb1c064ea2824dae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:45 +0000
Subject: [PATCH 06/46] fix: keep run text unescaped in memory and escape it
 when writing

---
 docx-core/src/documents/elements/delete_text.rs | 6 +++---
 docx-core/src/documents/elements/text.rs        | 6 +++---
 docx-core/src/escape/mod.rs                     | 1 +
 docx-core/src/reader/run.rs                     | 9 ++++-----
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_text.rs b/docx-core/src/documents/elements/delete_text.rs
index befcafe..a5f91a4 100644
--- a/docx-core/src/documents/elements/delete_text.rs
+++ b/docx-core/src/documents/elements/delete_text.rs
@@ -2,7 +2,7 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, Serialize, PartialEq)]
@@ -15,7 +15,7 @@ pub struct DeleteText {
 impl DeleteText {
     pub fn new(text: impl Into<String>) -> DeleteText {
         DeleteText {
-            text: escape_owned(text.into()),
+            text: text.into(),
             preserve_space: true,
         }
     }
@@ -34,7 +34,7 @@ impl BuildXML for DeleteText {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .delete_text(&self.text, true)?
+            .delete_text(&escape(&self.text), true)?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/text.rs b/docx-core/src/documents/elements/text.rs
index 1d5b5dd..ca68673 100644
--- a/docx-core/src/documents/elements/text.rs
+++ b/docx-core/src/documents/elements/text.rs
@@ -3,7 +3,7 @@ use serde::Deserialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, PartialEq)]
@@ -16,7 +16,7 @@ pub struct Text {
 impl Text {
     pub fn new(text: impl Into<String>) -> Text {
         Text {
-            text: escape_owned(text.into()),
+            text: text.into(),
             preserve_space: true,
         }
     }
@@ -35,7 +35,7 @@ impl BuildXML for Text {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .text(&self.text, true)?
+            .text(&escape(&self.text), true)?
             .into_inner()
     }
 }
diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index abe5431..e29efc4 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -32,6 +32,7 @@ pub(crate) fn escape_owned(text: String) -> String {
     }
 }
 
+#[cfg(test)]
 pub(crate) fn replace_escaped(text: &str) -> String {
     let mut decoded = String::with_capacity(text.len());
     let mut rest = text;
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 0ff2425..9bd555e 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -5,7 +5,6 @@ use std::str::FromStr;
 
 use super::Run;
 
-use crate::escape::replace_escaped;
 use crate::types::BreakType;
 use crate::{reader::*, FieldCharType};
 
@@ -156,19 +155,19 @@ impl ElementReader for Run {
                 }
                 Ok(XmlEvent::Characters(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text_without_escape(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text_without_escape(c);
                     }
                     _ => {}
                 },
                 Ok(XmlEvent::Whitespace(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text_without_escape(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text_without_escape(c);
                     }
                     _ => {}
                 },
-- 
2.43.0


From 0273735bec93790f2da8b81e0ec130d87cd460c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:45 +0000
Subject: [PATCH 07/46] fix: escape user strings when writing attributes and
 fields

---
 docx-core/src/documents/doc_props/core.rs     | 37 ++++++++++++-------
 docx-core/src/documents/doc_props/custom.rs   |  5 ++-
 .../documents/elements/abstract_numbering.rs  |  3 +-
 .../src/documents/elements/bookmark_start.rs  |  3 +-
 docx-core/src/documents/elements/color.rs     |  9 +++--
 docx-core/src/documents/elements/comment.rs   |  8 +++-
 .../documents/elements/comment_extended.rs    |  7 +++-
 .../src/documents/elements/data_binding.rs    |  7 ++--
 docx-core/src/documents/elements/delete.rs    |  2 +-
 .../documents/elements/delete_instr_text.rs   |  3 +-
 docx-core/src/documents/elements/doc_id.rs    |  3 +-
 docx-core/src/documents/elements/doc_var.rs   |  3 +-
 docx-core/src/documents/elements/highlight.rs |  3 +-
 docx-core/src/documents/elements/hyperlink.rs |  4 +-
 docx-core/src/documents/elements/insert.rs    |  2 +-
 .../src/documents/elements/instr_pageref.rs   |  3 +-
 docx-core/src/documents/elements/instr_tc.rs  |  4 +-
 .../src/documents/elements/instr_text.rs      |  3 +-
 docx-core/src/documents/elements/instr_toc.rs | 17 +++++----
 .../src/documents/elements/justification.rs   |  3 +-
 docx-core/src/documents/elements/level_jc.rs  |  3 +-
 .../src/documents/elements/level_text.rs      |  3 +-
 docx-core/src/documents/elements/move_from.rs |  2 +-
 docx-core/src/documents/elements/move_to.rs   |  2 +-
 docx-core/src/documents/elements/next.rs      |  3 +-
 .../src/documents/elements/number_format.rs   |  3 +-
 .../src/documents/elements/page_num_type.rs   |  3 +-
 .../documents/elements/paragraph_borders.rs   |  3 +-
 .../elements/paragraph_property_change.rs     |  2 +-
 docx-core/src/documents/elements/shading.rs   |  7 +++-
 .../elements/structured_data_tag_property.rs  |  3 +-
 docx-core/src/documents/elements/sym.rs       |  3 +-
 .../src/documents/elements/table_borders.rs   | 11 +++++-
 .../documents/elements/table_cell_borders.rs  | 11 +++++-
 .../src/documents/elements/table_style.rs     |  3 +-
 .../src/documents/elements/text_border.rs     |  3 +-
 docx-core/src/documents/elements/underline.rs |  3 +-
 docx-core/src/documents/webextension.rs       | 12 +++---
 docx-core/src/reader/comment.rs               |  3 +-
 docx-core/src/xml_builder/elements.rs         | 21 ++++++-----
 40 files changed, 150 insertions(+), 83 deletions(-)

diff --git a/docx-core/src/documents/doc_props/core.rs b/docx-core/src/documents/doc_props/core.rs
index ab81dbe..1389833 100644
--- a/docx-core/src/documents/doc_props/core.rs
+++ b/docx-core/src/documents/doc_props/core.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -72,25 +73,33 @@ impl BuildXML for CoreProps {
             )?
             .dcterms_created(
                 "dcterms:W3CDTF",
-                self.config
-                    .created
-                    .as_deref()
-                    .unwrap_or("1970-01-01T00:00:00Z"),
+                &escape(
+                    self.config
+                        .created
+                        .as_deref()
+                        .unwrap_or("1970-01-01T00:00:00Z"),
+                ),
             )?
-            .dc_creator(self.config.creator.as_deref().unwrap_or("unknown"))?
-            .cp_last_modified_by(self.config.last_modified_by.as_deref().unwrap_or("unknown"))?
+            .dc_creator(&escape(
+                self.config.creator.as_deref().unwrap_or("unknown"),
+            ))?
+            .cp_last_modified_by(&escape(
+                self.config.last_modified_by.as_deref().unwrap_or("unknown"),
+            ))?
             .dcterms_modified(
                 "dcterms:W3CDTF",
-                self.config
-                    .modified
-                    .as_deref()
-                    .unwrap_or("1970-01-01T00:00:00Z"),
+                &escape(
+                    self.config
+                        .modified
+                        .as_deref()
+                        .unwrap_or("1970-01-01T00:00:00Z"),
+                ),
             )?
             .cp_revision(&self.config.revision.unwrap_or(1).to_string())?
-            .apply_opt(self.config.description.as_ref(), |v, b| b.dc_description(v))?
-            .apply_opt(self.config.language.as_ref(), |v, b| b.dc_language(v))?
-            .apply_opt(self.config.subject.as_ref(), |v, b| b.dc_subject(v))?
-            .apply_opt(self.config.title.as_ref(), |v, b| b.dc_title(v))?
+            .apply_opt(self.config.description.as_ref(), |v, b| b.dc_description(&escape(v)))?
+            .apply_opt(self.config.language.as_ref(), |v, b| b.dc_language(&escape(v)))?
+            .apply_opt(self.config.subject.as_ref(), |v, b| b.dc_subject(&escape(v)))?
+            .apply_opt(self.config.title.as_ref(), |v, b| b.dc_title(&escape(v)))?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index 41cb22f..c136148 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -38,9 +39,9 @@ impl BuildXML for CustomProps {
                     // I can not find spec about this id.
                     // It is invalid if pid starts from 1...
                     &format!("{}", i + 2),
-                    key,
+                    &escape(key),
                 )?
-                .lpwstr(item)?
+                .lpwstr(&escape(item))?
                 .close()
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/abstract_numbering.rs b/docx-core/src/documents/elements/abstract_numbering.rs
index 9794f9c..a911715 100644
--- a/docx-core/src/documents/elements/abstract_numbering.rs
+++ b/docx-core/src/documents/elements/abstract_numbering.rs
@@ -1,3 +1,4 @@
+use crate::escape::escape;
 use crate::documents::{BuildXML, Level};
 use crate::xml_builder::*;
 use std::io::Write;
@@ -51,7 +52,7 @@ impl BuildXML for AbstractNumbering {
 
         // 添加 multiLevelType 元素（如果存在）
         if let Some(ref multi_level_type) = self.multi_level_type {
-            builder = builder.multi_level_type(multi_level_type)?;
+            builder = builder.multi_level_type(&escape(multi_level_type))?;
         }
 
         builder.add_children(&self.levels)?.close()?.into_inner()
diff --git a/docx-core/src/documents/elements/bookmark_start.rs b/docx-core/src/documents/elements/bookmark_start.rs
index 5c2af18..572735a 100644
--- a/docx-core/src/documents/elements/bookmark_start.rs
+++ b/docx-core/src/documents/elements/bookmark_start.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -25,7 +26,7 @@ impl BuildXML for BookmarkStart {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .bookmark_start(&self.id.to_string(), &self.name)?
+            .bookmark_start(&self.id.to_string(), &escape(&self.name))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/color.rs b/docx-core/src/documents/elements/color.rs
index 5eb5397..1d422e9 100644
--- a/docx-core/src/documents/elements/color.rs
+++ b/docx-core/src/documents/elements/color.rs
@@ -1,6 +1,7 @@
 use serde::{Deserialize, Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::types::ThemeColor;
 use crate::xml_builder::*;
@@ -75,10 +76,10 @@ impl BuildXML for Color {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
             .color_with_theme(
-                &self.val,
-                self.theme_color.as_deref(),
-                self.theme_shade.as_deref(),
-                self.theme_tint.as_deref(),
+                &escape(&self.val),
+                self.theme_color.as_deref().map(escape).as_deref(),
+                self.theme_shade.as_deref().map(escape).as_deref(),
+                self.theme_tint.as_deref().map(escape).as_deref(),
             )?
             .into_inner()
     }
diff --git a/docx-core/src/documents/elements/comment.rs b/docx-core/src/documents/elements/comment.rs
index addbcde..b952f24 100644
--- a/docx-core/src/documents/elements/comment.rs
+++ b/docx-core/src/documents/elements/comment.rs
@@ -2,6 +2,7 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::*;
 use crate::xml_builder::*;
 
@@ -111,7 +112,12 @@ impl BuildXML for Comment {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .open_comment(&self.id.to_string(), &self.author, &self.date, "")?
+            .open_comment(
+                &self.id.to_string(),
+                &escape(&self.author),
+                &escape(&self.date),
+                "",
+            )?
             .add_children(&self.children)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/comment_extended.rs b/docx-core/src/documents/elements/comment_extended.rs
index 6de604f..13cf0c7 100644
--- a/docx-core/src/documents/elements/comment_extended.rs
+++ b/docx-core/src/documents/elements/comment_extended.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -38,7 +39,11 @@ impl BuildXML for CommentExtended {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .comment_extended(&self.paragraph_id, self.done, &self.parent_paragraph_id)?
+            .comment_extended(
+                &escape(&self.paragraph_id),
+                self.done,
+                &self.parent_paragraph_id.as_deref().map(escape),
+            )?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/data_binding.rs b/docx-core/src/documents/elements/data_binding.rs
index e7e7e58..ff6dc07 100644
--- a/docx-core/src/documents/elements/data_binding.rs
+++ b/docx-core/src/documents/elements/data_binding.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::*;
 use crate::xml_builder::*;
 
@@ -39,9 +40,9 @@ impl BuildXML for DataBinding {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
             .data_binding(
-                self.xpath.as_ref(),
-                self.prefix_mappings.as_ref(),
-                self.store_item_id.as_ref(),
+                self.xpath.as_deref().map(escape).as_ref(),
+                self.prefix_mappings.as_deref().map(escape).as_ref(),
+                self.store_item_id.as_deref().map(escape).as_ref(),
             )?
             .into_inner()
     }
diff --git a/docx-core/src/documents/elements/delete.rs b/docx-core/src/documents/elements/delete.rs
index afea7c3..7af45c5 100644
--- a/docx-core/src/documents/elements/delete.rs
+++ b/docx-core/src/documents/elements/delete.rs
@@ -104,7 +104,7 @@ impl BuildXML for Delete {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_delete(id.as_ref(), &self.author, &self.date)?
+            .open_delete(id.as_ref(), &self.author, &escape::escape(&self.date))?
             .apply_each(&self.children, |ch, b| match ch {
                 DeleteChild::Run(t) => b.add_child(&**t),
                 DeleteChild::CommentStart(c) => b.add_child(&c),
diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index 33e20da..f0de643 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -3,6 +3,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -26,7 +27,7 @@ impl BuildXML for DeleteInstrText {
                 DeleteInstrText::TC(tc) => b.add_child(tc),
                 DeleteInstrText::PAGEREF(page_ref) => b.add_child(page_ref),
                 DeleteInstrText::HYPERLINK(_link) => todo!(),
-                DeleteInstrText::Unsupported(s) => b.plain_text(s),
+                DeleteInstrText::Unsupported(s) => b.plain_text(&escape(s)),
             })?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/doc_id.rs b/docx-core/src/documents/elements/doc_id.rs
index 6699df1..343f10b 100644
--- a/docx-core/src/documents/elements/doc_id.rs
+++ b/docx-core/src/documents/elements/doc_id.rs
@@ -1,6 +1,7 @@
 use serde::{Deserialize, Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -29,7 +30,7 @@ impl BuildXML for DocId {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        let id = format!("{{{}}}", self.id);
+        let id = escape(&format!("{{{}}}", self.id));
         XMLBuilder::from(stream).doc_id(&id)?.into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/doc_var.rs b/docx-core/src/documents/elements/doc_var.rs
index 1dd24d4..f5281d1 100644
--- a/docx-core/src/documents/elements/doc_var.rs
+++ b/docx-core/src/documents/elements/doc_var.rs
@@ -1,6 +1,7 @@
 use serde::{Deserialize, Serialize};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -25,7 +26,7 @@ impl BuildXML for DocVar {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .doc_var(&self.name, &self.val)?
+            .doc_var(&escape(&self.name), &escape(&self.val))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/highlight.rs b/docx-core/src/documents/elements/highlight.rs
index 60dc2cf..8e082d7 100644
--- a/docx-core/src/documents/elements/highlight.rs
+++ b/docx-core/src/documents/elements/highlight.rs
@@ -1,6 +1,7 @@
 use serde::{Deserialize, Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -20,7 +21,7 @@ impl BuildXML for Highlight {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).highlight(&self.val)?.into_inner()
+        XMLBuilder::from(stream).highlight(&escape(&self.val))?.into_inner()
     }
 }
 
diff --git a/docx-core/src/documents/elements/hyperlink.rs b/docx-core/src/documents/elements/hyperlink.rs
index 2bd9483..86ce9ee 100644
--- a/docx-core/src/documents/elements/hyperlink.rs
+++ b/docx-core/src/documents/elements/hyperlink.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
+use crate::escape::{escape, escape_owned};
 use crate::types::*;
 use crate::{create_hyperlink_rid, generate_hyperlink_id, xml_builder::*};
 
@@ -107,7 +107,7 @@ impl BuildXML for Hyperlink {
             .apply(|b| match self.link {
                 HyperlinkData::Anchor { ref anchor } => b.open_hyperlink(
                     None,
-                    Some(anchor.clone()).as_ref(),
+                    Some(escape(anchor)).as_ref(),
                     Some(self.history.unwrap_or(1)),
                 ),
                 HyperlinkData::External { ref rid, .. } => b.open_hyperlink(
diff --git a/docx-core/src/documents/elements/insert.rs b/docx-core/src/documents/elements/insert.rs
index fe43151..feb0306 100644
--- a/docx-core/src/documents/elements/insert.rs
+++ b/docx-core/src/documents/elements/insert.rs
@@ -150,7 +150,7 @@ impl BuildXML for Insert {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_insert(id.as_ref(), &self.author, &self.date)?
+            .open_insert(id.as_ref(), &self.author, &escape::escape(&self.date))?
             .add_children(&self.children)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/instr_pageref.rs b/docx-core/src/documents/elements/instr_pageref.rs
index f1829cc..7c96d2e 100644
--- a/docx-core/src/documents/elements/instr_pageref.rs
+++ b/docx-core/src/documents/elements/instr_pageref.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::*;
 use crate::xml_builder::XMLBuilder;
 
@@ -39,7 +40,7 @@ impl BuildXML for InstrPAGEREF {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
             .plain_text("PAGEREF ")?
-            .plain_text(&self.page_ref)?
+            .plain_text(&escape(&self.page_ref))?
             .apply_if(self.relative_position, |b| b.plain_text(" \\p"))?
             .apply_if(self.hyperlink, |b| b.plain_text(" \\h"))?
             .into_inner()
diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index d0465e0..2c423b5 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -2,7 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape::escape_owned;
+use crate::escape::{escape, escape_owned};
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_TCTC_topic_ID0EU2N1.html
@@ -52,7 +52,7 @@ impl BuildXML for InstrTC {
         write!(raw, "TC \"{}\"", self.text)?;
 
         if let Some(ref t) = self.item_type_identifier {
-            write!(raw, " \\f {t}")?;
+            write!(raw, " \\f {}", escape(t))?;
         }
 
         if let Some(level) = self.level {
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index e063933..1b61ad6 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -2,6 +2,7 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::*;
 use crate::xml_builder::*;
 
@@ -30,7 +31,7 @@ impl BuildXML for Box<InstrText> {
                 InstrText::PAGE(page) => b.add_child(page),
                 InstrText::NUMPAGES(page) => b.add_child(page),
                 InstrText::HYPERLINK(_link) => todo!(),
-                InstrText::Unsupported(s) => b.plain_text(s),
+                InstrText::Unsupported(s) => b.plain_text(&escape(s)),
             })?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index a73951f..93655ec 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::XMLBuilder;
 
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -172,28 +173,28 @@ impl BuildXML for InstrToC {
 
         // \a
         if let Some(ref t) = self.caption_label {
-            write!(raw, " \\a &quot;{t}&quot;")?;
+            write!(raw, " \\a &quot;{}&quot;", escape(t))?;
         }
 
         // \b
         if let Some(ref t) = self.entry_bookmark_name {
-            write!(raw, " \\b &quot;{t}&quot;")?;
+            write!(raw, " \\b &quot;{}&quot;", escape(t))?;
         }
 
         // \c
         if let Some(ref t) = self.caption_label_including_numbers {
-            write!(raw, " \\c &quot;{t}&quot;")?;
+            write!(raw, " \\c &quot;{}&quot;", escape(t))?;
         }
 
         // \d
         if let Some(ref t) = self.sequence_and_page_numbers_separator {
-            write!(raw, " \\d &quot;{t}&quot;")?;
+            write!(raw, " \\d &quot;{}&quot;", escape(t))?;
         }
 
         // \f
         if let Some(ref t) = self.tc_field_identifier {
             if let Some(ref t) = t {
-                write!(raw, " \\f &quot;{t}&quot;")?;
+                write!(raw, " \\f &quot;{}&quot;", escape(t))?;
             } else {
                 write!(raw, " \\f")?;
             }
@@ -216,12 +217,12 @@ impl BuildXML for InstrToC {
 
         // \p
         if let Some(ref t) = self.entry_and_page_number_separator {
-            write!(raw, " \\p &quot;{t}&quot;")?;
+            write!(raw, " \\p &quot;{}&quot;", escape(t))?;
         }
 
         // \s
         if let Some(ref t) = self.seq_field_identifier_for_prefix {
-            write!(raw, " \\s &quot;{t}&quot;")?;
+            write!(raw, " \\s &quot;{}&quot;", escape(t))?;
         }
 
         // \t
@@ -229,7 +230,7 @@ impl BuildXML for InstrToC {
             let s = self
                 .styles_with_levels
                 .iter()
-                .map(|s| format!("{},{}", (s.0).0, (s.0).1))
+                .map(|s| format!("{},{}", escape(&(s.0).0), (s.0).1))
                 .collect::<Vec<String>>()
                 .join(",");
             write!(raw, " \\t &quot;{s}&quot;")?;
diff --git a/docx-core/src/documents/elements/justification.rs b/docx-core/src/documents/elements/justification.rs
index 6dfb88b..c04899a 100644
--- a/docx-core/src/documents/elements/justification.rs
+++ b/docx-core/src/documents/elements/justification.rs
@@ -1,6 +1,7 @@
 use serde::{Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -29,7 +30,7 @@ impl BuildXML for Justification {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .justification(&self.val)?
+            .justification(&escape(&self.val))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/level_jc.rs b/docx-core/src/documents/elements/level_jc.rs
index 5b8308c..93e5b33 100644
--- a/docx-core/src/documents/elements/level_jc.rs
+++ b/docx-core/src/documents/elements/level_jc.rs
@@ -1,6 +1,7 @@
 use serde::{Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -21,7 +22,7 @@ impl BuildXML for LevelJc {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .level_justification(&self.val)?
+            .level_justification(&escape(&self.val))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/level_text.rs b/docx-core/src/documents/elements/level_text.rs
index 43a91ff..44875dd 100644
--- a/docx-core/src/documents/elements/level_text.rs
+++ b/docx-core/src/documents/elements/level_text.rs
@@ -1,6 +1,7 @@
 use serde::{Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -20,7 +21,7 @@ impl BuildXML for LevelText {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).level_text(&self.val)?.into_inner()
+        XMLBuilder::from(stream).level_text(&escape(&self.val))?.into_inner()
     }
 }
 
diff --git a/docx-core/src/documents/elements/move_from.rs b/docx-core/src/documents/elements/move_from.rs
index d68e09c..665c2c9 100644
--- a/docx-core/src/documents/elements/move_from.rs
+++ b/docx-core/src/documents/elements/move_from.rs
@@ -103,7 +103,7 @@ impl BuildXML for MoveFrom {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_move_from(id.as_ref(), &self.author, &self.date)?
+            .open_move_from(id.as_ref(), &self.author, &escape::escape(&self.date))?
             .apply_each(&self.children, |ch, b| match ch {
                 MoveFromChild::Run(t) => b.add_child(&**t),
                 MoveFromChild::CommentStart(c) => b.add_child(&**c),
diff --git a/docx-core/src/documents/elements/move_to.rs b/docx-core/src/documents/elements/move_to.rs
index 7bfb344..e09a02d 100644
--- a/docx-core/src/documents/elements/move_to.rs
+++ b/docx-core/src/documents/elements/move_to.rs
@@ -143,7 +143,7 @@ impl BuildXML for MoveTo {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_move_to(id.as_ref(), &self.author, &self.date)?
+            .open_move_to(id.as_ref(), &self.author, &escape::escape(&self.date))?
             .add_children(&self.children)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/next.rs b/docx-core/src/documents/elements/next.rs
index 55c475e..03576be 100644
--- a/docx-core/src/documents/elements/next.rs
+++ b/docx-core/src/documents/elements/next.rs
@@ -1,6 +1,7 @@
 use serde::{Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -29,7 +30,7 @@ impl BuildXML for Next {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).next(&self.val)?.into_inner()
+        XMLBuilder::from(stream).next(&escape(&self.val))?.into_inner()
     }
 }
 
diff --git a/docx-core/src/documents/elements/number_format.rs b/docx-core/src/documents/elements/number_format.rs
index f067f8a..b100163 100644
--- a/docx-core/src/documents/elements/number_format.rs
+++ b/docx-core/src/documents/elements/number_format.rs
@@ -1,6 +1,7 @@
 use serde::{Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -21,7 +22,7 @@ impl BuildXML for NumberFormat {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .number_format(&self.val)?
+            .number_format(&escape(&self.val))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/page_num_type.rs b/docx-core/src/documents/elements/page_num_type.rs
index 9e098be..c5131b2 100644
--- a/docx-core/src/documents/elements/page_num_type.rs
+++ b/docx-core/src/documents/elements/page_num_type.rs
@@ -1,3 +1,4 @@
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 use serde::Serialize;
@@ -40,7 +41,7 @@ impl BuildXML for PageNumType {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .page_num_type(self.start, self.chap_style.clone())?
+            .page_num_type(self.start, self.chap_style.as_deref().map(escape))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/paragraph_borders.rs b/docx-core/src/documents/elements/paragraph_borders.rs
index d3eb2bf..0d460c8 100644
--- a/docx-core/src/documents/elements/paragraph_borders.rs
+++ b/docx-core/src/documents/elements/paragraph_borders.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
@@ -98,7 +99,7 @@ impl BuildXML for ParagraphBorder {
             ParagraphBorderPosition::Bar => XMLBuilder::paragraph_border_bar,
         };
         XMLBuilder::from(stream)
-            .apply(|b| func(b, &val, &space, &size, &self.color))?
+            .apply(|b| func(b, &val, &space, &size, &escape(&self.color)))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/paragraph_property_change.rs b/docx-core/src/documents/elements/paragraph_property_change.rs
index 1b480b4..660d332 100644
--- a/docx-core/src/documents/elements/paragraph_property_change.rs
+++ b/docx-core/src/documents/elements/paragraph_property_change.rs
@@ -55,7 +55,7 @@ impl BuildXML for ParagraphPropertyChange {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_paragraph_property_change(id.as_ref(), &self.author, &self.date)?
+            .open_paragraph_property_change(id.as_ref(), &self.author, &escape::escape(&self.date))?
             .add_child(&self.property)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/shading.rs b/docx-core/src/documents/elements/shading.rs
index 474aa45..0a662ea 100644
--- a/docx-core/src/documents/elements/shading.rs
+++ b/docx-core/src/documents/elements/shading.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
@@ -51,7 +52,11 @@ impl BuildXML for Shading {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .shd(&self.shd_type.to_string(), &self.color, &self.fill)?
+            .shd(
+                &self.shd_type.to_string(),
+                &escape(&self.color),
+                &escape(&self.fill),
+            )?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/structured_data_tag_property.rs b/docx-core/src/documents/elements/structured_data_tag_property.rs
index eb5c8dc..85a23b8 100644
--- a/docx-core/src/documents/elements/structured_data_tag_property.rs
+++ b/docx-core/src/documents/elements/structured_data_tag_property.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use super::*;
+use crate::escape::escape;
 use crate::documents::BuildXML;
 // use crate::types::*;
 use crate::xml_builder::*;
@@ -49,7 +50,7 @@ impl BuildXML for StructuredDataTagProperty {
             .open_structured_tag_property()?
             .add_child(&self.run_property)?
             .add_optional_child(&self.data_binding)?
-            .apply_opt(self.alias.as_ref(), |alias, b| b.alias(alias))?
+            .apply_opt(self.alias.as_ref(), |alias, b| b.alias(&escape(alias)))?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/elements/sym.rs b/docx-core/src/documents/elements/sym.rs
index 8e95908..f28f563 100644
--- a/docx-core/src/documents/elements/sym.rs
+++ b/docx-core/src/documents/elements/sym.rs
@@ -2,6 +2,7 @@ use serde::ser::{Serialize, SerializeStruct, Serializer};
 use serde::Deserialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -26,7 +27,7 @@ impl BuildXML for Sym {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .sym(&self.font, &self.char)?
+            .sym(&escape(&self.font), &escape(&self.char))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/table_borders.rs b/docx-core/src/documents/elements/table_borders.rs
index 99912b8..32b5174 100644
--- a/docx-core/src/documents/elements/table_borders.rs
+++ b/docx-core/src/documents/elements/table_borders.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
@@ -69,7 +70,15 @@ impl BuildXML for TableBorder {
         };
 
         XMLBuilder::from(stream)
-            .apply(|b| func(b, self.border_type, self.size, self.space, &self.color))?
+            .apply(|b| {
+                func(
+                    b,
+                    self.border_type,
+                    self.size,
+                    self.space,
+                    &escape(&self.color),
+                )
+            })?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/table_cell_borders.rs b/docx-core/src/documents/elements/table_cell_borders.rs
index fafdb93..a899fea 100644
--- a/docx-core/src/documents/elements/table_cell_borders.rs
+++ b/docx-core/src/documents/elements/table_cell_borders.rs
@@ -1,6 +1,7 @@
 use serde::Serialize;
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
@@ -84,7 +85,15 @@ impl BuildXML for TableCellBorder {
             TableCellBorderPosition::Tl2br => XMLBuilder::border_tl2br,
         };
         XMLBuilder::from(stream)
-            .apply(|b| func(b, self.border_type, self.size, self.space, &self.color))?
+            .apply(|b| {
+                func(
+                    b,
+                    self.border_type,
+                    self.size,
+                    self.space,
+                    &escape(&self.color),
+                )
+            })?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/table_style.rs b/docx-core/src/documents/elements/table_style.rs
index b4477b1..58b2e47 100644
--- a/docx-core/src/documents/elements/table_style.rs
+++ b/docx-core/src/documents/elements/table_style.rs
@@ -1,6 +1,7 @@
 use serde::{Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -21,7 +22,7 @@ impl BuildXML for TableStyle {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .table_style(&self.val)?
+            .table_style(&escape(&self.val))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/text_border.rs b/docx-core/src/documents/elements/text_border.rs
index 7b5ad27..247bfa0 100644
--- a/docx-core/src/documents/elements/text_border.rs
+++ b/docx-core/src/documents/elements/text_border.rs
@@ -1,6 +1,7 @@
 use serde::{Deserialize, Serialize};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
@@ -57,7 +58,7 @@ impl BuildXML for TextBorder {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .text_border(self.border_type, self.size, self.space, &self.color)?
+            .text_border(self.border_type, self.size, self.space, &escape(&self.color))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/underline.rs b/docx-core/src/documents/elements/underline.rs
index 52d4caa..a5f86e1 100644
--- a/docx-core/src/documents/elements/underline.rs
+++ b/docx-core/src/documents/elements/underline.rs
@@ -1,6 +1,7 @@
 use serde::{Deserialize, Serialize, Serializer};
 use std::io::Write;
 
+use crate::escape::escape;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
 
@@ -20,7 +21,7 @@ impl BuildXML for Underline {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).underline(&self.val)?.into_inner()
+        XMLBuilder::from(stream).underline(&escape(&self.val))?.into_inner()
     }
 }
 
diff --git a/docx-core/src/documents/webextension.rs b/docx-core/src/documents/webextension.rs
index a9739dd..7bb7bf2 100644
--- a/docx-core/src/documents/webextension.rs
+++ b/docx-core/src/documents/webextension.rs
@@ -65,18 +65,18 @@ impl BuildXML for WebExtension {
             .declaration(Some(true))?
             .open_webextension(
                 "http://schemas.microsoft.com/office/webextensions/webextension/2010/11",
-                &format!("{{{}}}", self.id),
+                &format!("{{{}}}", escape(&self.id)),
             )?
             .webextension_reference(
-                &self.reference_id,
-                &self.version,
-                &self.store,
-                &self.store_type,
+                &escape(&self.reference_id),
+                &escape(&self.version),
+                &escape(&self.store),
+                &escape(&self.store_type),
             )?
             .webextension_alternate_references()?
             .open_webextension_properties()?
             .apply_each(&self.properties, |p, b| {
-                b.webextension_property(&p.name, &p.value)
+                b.webextension_property(&escape(&p.name), &p.value)
             })?
             .close()?
             .webextension_bindings()?
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index df47f15..6fa085f 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -2,7 +2,6 @@ use std::io::Read;
 use std::str::FromStr;
 
 use super::*;
-use crate::escape;
 
 impl ElementReader for Comment {
     fn read<R: Read>(
@@ -12,7 +11,7 @@ impl ElementReader for Comment {
         let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
-            comment = comment.author(escape::escape(author.as_str()));
+            comment = comment.author(author);
         };
         if let Some(date) = read(attrs, "date") {
             comment = comment.date(date);
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 356bcee..f9cef78 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -1,5 +1,6 @@
 use super::XMLBuilder;
 use super::XmlEvent;
+use crate::escape::escape;
 use crate::types::*;
 use crate::FrameProperty;
 use crate::TablePositionProperty;
@@ -628,27 +629,27 @@ impl<W: Write> XMLBuilder<W> {
 
     pub(crate) fn frame_property(self, prop: &FrameProperty) -> Result<Self> {
         let mut w = XmlEvent::start_element("w:framePr");
-        let wrap: String = prop.wrap.iter().cloned().collect();
+        let wrap: String = prop.wrap.as_deref().map(escape).unwrap_or_default();
         if prop.wrap.is_some() {
             w = w.attr("w:wrap", &wrap);
         }
-        let h_rule: String = prop.h_rule.iter().cloned().collect();
+        let h_rule: String = prop.h_rule.as_deref().map(escape).unwrap_or_default();
         if prop.h_rule.is_some() {
             w = w.attr("w:hRule", &h_rule);
         }
-        let h_anchor: String = prop.h_anchor.iter().cloned().collect();
+        let h_anchor: String = prop.h_anchor.as_deref().map(escape).unwrap_or_default();
         if prop.h_anchor.is_some() {
             w = w.attr("w:hAnchor", &h_anchor);
         }
-        let v_anchor: String = prop.v_anchor.iter().cloned().collect();
+        let v_anchor: String = prop.v_anchor.as_deref().map(escape).unwrap_or_default();
         if prop.v_anchor.is_some() {
             w = w.attr("w:vAnchor", &v_anchor);
         }
-        let x_align: String = prop.x_align.iter().cloned().collect();
+        let x_align: String = prop.x_align.as_deref().map(escape).unwrap_or_default();
         if prop.x_align.is_some() {
             w = w.attr("w:xAlign", &x_align);
         }
-        let y_align: String = prop.y_align.iter().cloned().collect();
+        let y_align: String = prop.y_align.as_deref().map(escape).unwrap_or_default();
         if prop.y_align.is_some() {
             w = w.attr("w:yAlign", &y_align);
         }
@@ -684,22 +685,22 @@ impl<W: Write> XMLBuilder<W> {
             w = w.attr_display("w:rightFromText", right_from_text);
         }
 
-        let v: String = prop.vertical_anchor.iter().cloned().collect();
+        let v: String = prop.vertical_anchor.as_deref().map(escape).unwrap_or_default();
         if prop.vertical_anchor.is_some() {
             w = w.attr("w:vertAnchor", &v);
         }
 
-        let v: String = prop.horizontal_anchor.iter().cloned().collect();
+        let v: String = prop.horizontal_anchor.as_deref().map(escape).unwrap_or_default();
         if prop.horizontal_anchor.is_some() {
             w = w.attr("w:horzAnchor", &v);
         }
 
-        let v: String = prop.position_x_alignment.iter().cloned().collect();
+        let v: String = prop.position_x_alignment.as_deref().map(escape).unwrap_or_default();
         if prop.position_x_alignment.is_some() {
             w = w.attr("w:tblpXSpec", &v);
         }
 
-        let v: String = prop.position_y_alignment.iter().cloned().collect();
+        let v: String = prop.position_y_alignment.as_deref().map(escape).unwrap_or_default();
         if prop.position_y_alignment.is_some() {
             w = w.attr("w:tblpYSpec", &v);
         }
-- 
2.43.0


From 11a365d51c51ceed37840beeac1e776a470bb287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:57:29 +0000
Subject: [PATCH 08/46] fix: write gridBefore, gridAfter and their widths of
 table rows

---
 docx-core/src/documents/elements/table_row_property.rs | 10 +++++++++-
 docx-core/src/xml_builder/elements.rs                  |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/table_row_property.rs b/docx-core/src/documents/elements/table_row_property.rs
index ee68ed8..b390cc8 100644
--- a/docx-core/src/documents/elements/table_row_property.rs
+++ b/docx-core/src/documents/elements/table_row_property.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::xml_builder::*;
-use crate::{documents::BuildXML, HeightRule};
+use crate::{documents::BuildXML, HeightRule, WidthType};
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
@@ -84,6 +84,14 @@ impl BuildXML for TableRowProperty {
             .open_table_row_property()?
             .add_optional_child(&self.del)?
             .add_optional_child(&self.ins)?
+            .apply_opt(self.grid_before, |v, b| b.grid_before(v as usize))?
+            .apply_opt(self.grid_after, |v, b| b.grid_after(v as usize))?
+            .apply_opt(self.width_before, |w, b| {
+                b.width_before(w as i32, WidthType::Dxa)
+            })?
+            .apply_opt(self.width_after, |w, b| {
+                b.width_after(w as i32, WidthType::Dxa)
+            })?
             .add_optional_child(&self.cant_split)?
             .apply_opt(self.row_height, |h, b| {
                 b.table_row_height(
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f9cef78..c4dca7c 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -394,6 +394,10 @@ impl<W: Write> XMLBuilder<W> {
     closed!(table_row_height, "w:trHeight", "w:val", "w:hRule");
 
     closed_with_usize!(grid_span, "w:gridSpan");
+    closed_with_usize!(grid_before, "w:gridBefore");
+    closed_with_usize!(grid_after, "w:gridAfter");
+    closed_w_with_type_el!(width_before, "w:wBefore");
+    closed_w_with_type_el!(width_after, "w:wAfter");
     closed_with_str!(vertical_merge, "w:vMerge");
     closed_with_str!(vertical_align, "w:vAlign");
 
-- 
2.43.0


From 9343a973d14512abee4e12fb43b9ce1a218a1842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:42 +0000
Subject: [PATCH 09/46] fix: keep ids of paragraphs created while writing
 distinct from the document's own

---
 docx-core/src/documents/mod.rs          |  8 ++++++
 docx-core/src/documents/paragraph_id.rs | 35 ++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index cdae806..c1be0aa 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -836,6 +836,7 @@ impl Docx {
         self.reset();
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
+        self.reserve_para_ids();
         self.update_dependencies();
         has_toc
     }
@@ -917,6 +918,13 @@ impl Docx {
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
     }
 
+    /// Keeps paragraphs created while writing from reusing the IDs of this document.
+    fn reserve_para_ids(&self) {
+        let mut counts: HashMap<&str, usize> = HashMap::new();
+        collect_para_ids_in_docx(self, &mut counts);
+        paragraph_id::reserve_para_ids(counts.into_keys().map(str::to_owned).collect());
+    }
+
     fn insert_comment_to_map(
         &self,
         comment_map: &mut HashMap<usize, String>,
diff --git a/docx-core/src/documents/paragraph_id.rs b/docx-core/src/documents/paragraph_id.rs
index 051e311..12a6539 100644
--- a/docx-core/src/documents/paragraph_id.rs
+++ b/docx-core/src/documents/paragraph_id.rs
@@ -1,26 +1,42 @@
 #[cfg(not(test))]
-use std::cell::Cell;
+use std::cell::{Cell, RefCell};
+use std::collections::HashSet;
 #[cfg(not(test))]
 thread_local! {
     // Resetting a process-global counter lets one document reuse IDs while
     // another thread is still creating paragraphs. Keep reset scope local;
     // build-time normalization handles IDs from paragraphs merged across threads.
     static PARA_ID: Cell<u32> = const { Cell::new(1) };
+    // IDs of the document being written, skipped by paragraphs which are only
+    // created while writing (empty cells, section ends, tables of contents).
+    static RESERVED: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
 }
 
 #[cfg(not(test))]
 pub fn generate_para_id() -> String {
-    let id = PARA_ID.with(|next| {
-        let id = next.get();
-        next.set(id.checked_add(1).expect("paragraph ID space exhausted"));
-        id
-    });
-    format!("{id:08x}")
+    loop {
+        let id = PARA_ID.with(|next| {
+            let id = next.get();
+            next.set(id.checked_add(1).expect("paragraph ID space exhausted"));
+            id
+        });
+        let id = format!("{id:08x}");
+        if !RESERVED.with(|reserved| reserved.borrow().contains(&id)) {
+            return id;
+        }
+    }
 }
 
 #[cfg(not(test))]
 pub fn reset_para_id() {
     PARA_ID.set(1);
+    RESERVED.with(|reserved| reserved.borrow_mut().clear());
+}
+
+/// Keeps the given IDs from being generated until the next reset.
+#[cfg(not(test))]
+pub(crate) fn reserve_para_ids(ids: HashSet<String>) {
+    RESERVED.with(|reserved| *reserved.borrow_mut() = ids);
 }
 
 #[cfg(test)]
@@ -32,3 +48,8 @@ pub fn generate_para_id() -> String {
 pub fn reset_para_id() {
     // NOP
 }
+
+#[cfg(test)]
+pub(crate) fn reserve_para_ids(_ids: HashSet<String>) {
+    // NOP
+}
-- 
2.43.0


From fe95f1d356db025e8a2063a7b22bc2bd41eaffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:46 +0000
Subject: [PATCH 10/46] fix: write relationships of all hyperlinks of the body,
 with the targets read and without reusing ids

---
 .../src/documents/custom_item_property.rs     |  3 +-
 docx-core/src/documents/document_rels.rs      |  2 +-
 docx-core/src/documents/document_tree.rs      |  4 ++
 docx-core/src/documents/image_collector.rs    | 62 ++++++++++++++++++-
 docx-core/src/documents/mod.rs                | 12 +++-
 5 files changed, 78 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/custom_item_property.rs b/docx-core/src/documents/custom_item_property.rs
index 9c627fd..a53e67e 100644
--- a/docx-core/src/documents/custom_item_property.rs
+++ b/docx-core/src/documents/custom_item_property.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Serialize)]
@@ -24,7 +25,7 @@ impl BuildXML for CustomItemProperty {
             .declaration(Some(false))?
             .open_data_store_item(
                 "http://schemas.openxmlformats.org/officeDocument/2006/customXml",
-                &format!("{{{}}}", self.id),
+                &format!("{{{}}}", escape(&self.id)),
             )?
             .open_data_store_schema_refs()?
             .close()?
diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 2edfb2f..b8ea39a 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -110,7 +110,7 @@ impl BuildXML for DocumentRels {
             })?
             .apply_each(0..self.custom_xml_count, |i, b| {
                 b.relationship(
-                    &format!("rId{}", i + 8),
+                    &format!("rIdCustomXml{}", i + 1),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXml",
                     &format!("../customXml/item{}.xml", i + 1),
                 )
diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e1ac0c5..e1ea55a 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -27,6 +27,9 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits an embedded DrawingML picture.
     fn visit_picture(&mut self, _picture: &mut Pic) {}
 
+    /// Visits a hyperlink before its children are traversed.
+    fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
+
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
 }
@@ -168,6 +171,7 @@ fn visit_paragraph_children(
 }
 
 fn visit_hyperlink(link: &mut Hyperlink, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_hyperlink(link);
     visit_paragraph_children(&mut link.children, visitor);
 }
 
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a57ca5e..826b793 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -7,8 +7,10 @@
 use std::collections::{HashMap, HashSet};
 
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
+use crate::escape::escape;
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, ImageIdAndBuf, ImageIdAndPath, Pic,
+    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
+    ImageIdAndPath, Pic,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -217,6 +219,10 @@ pub(crate) fn collect_document_part(
     registry: &mut MediaRegistry,
 ) -> CollectedPart {
     let mut collector = PackagePartCollector::new(registry, None);
+    // Pictures which were read may carry IDs the fixed parts use here.
+    collector
+        .relationship_ids
+        .extend((1..=8).map(|number| format!("rId{number}")));
     visit_document(document, &mut collector);
     collector.finish()
 }
@@ -244,6 +250,60 @@ pub(crate) fn collect_document_footnotes(document: &mut Document) -> Vec<Footnot
     collector.footnotes
 }
 
+/// Collects the external hyperlinks of the complete main document tree.
+///
+/// Links which were read only know their relationship ID. Their targets are
+/// looked up in `targets`. IDs of other packages may be taken by other
+/// relationships here, and IDs of links with other targets must not be shared,
+/// so such links get new IDs.
+pub(crate) fn collect_document_hyperlinks(
+    document: &mut Document,
+    targets: &[(String, String, String)],
+) -> Vec<(String, String)> {
+    struct HyperlinkCollector<'a> {
+        targets: HashMap<&'a str, &'a str>,
+        links: Vec<(String, String)>,
+        paths: HashMap<String, String>,
+        next: usize,
+    }
+
+    impl DocumentTreeVisitor for HyperlinkCollector<'_> {
+        fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+            let HyperlinkData::External { rid, path } = &mut link.link else {
+                return;
+            };
+            if path.is_empty() {
+                if let Some(target) = self.targets.get(rid.as_str()) {
+                    *path = escape(target);
+                }
+            }
+            let shared = self.paths.get(rid).is_some_and(|other| other != path);
+            if shared || !rid.starts_with("rIdHyperlink") {
+                while {
+                    self.next += 1;
+                    *rid = crate::create_hyperlink_rid(self.next);
+                    self.paths.contains_key(rid) || self.targets.contains_key(rid.as_str())
+                } {}
+            }
+            if self.paths.insert(rid.clone(), path.clone()).is_none() {
+                self.links.push((rid.clone(), path.clone()));
+            }
+        }
+    }
+
+    let mut collector = HyperlinkCollector {
+        targets: targets
+            .iter()
+            .map(|(id, target, _)| (id.as_str(), target.as_str()))
+            .collect(),
+        links: Vec::new(),
+        paths: HashMap::new(),
+        next: 0,
+    };
+    visit_document(document, &mut collector);
+    collector.links
+}
+
 /// Collects package data from one header relationship scope.
 pub(crate) fn collect_header_part(
     header: &mut Header,
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index c1be0aa..563b6e0 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -86,8 +86,8 @@ use base64::Engine;
 use serde::{ser, Serialize};
 
 use self::image_collector::{
-    collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
-    MediaRegistry,
+    collect_document_footnotes, collect_document_hyperlinks, collect_document_part,
+    collect_footer_part, collect_header_part, MediaRegistry,
 };
 
 #[derive(Debug, Clone)]
@@ -837,7 +837,15 @@ impl Docx {
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
         self.reserve_para_ids();
+        let links = collect_document_hyperlinks(&mut self.document, &self.hyperlinks);
+        let mut rels = std::mem::take(&mut self.document_rels.hyperlinks);
         self.update_dependencies();
+        rels.extend(
+            links
+                .into_iter()
+                .map(|(id, path)| (id, path, "External".to_owned())), // Now support external only
+        );
+        self.document_rels.hyperlinks = rels;
         has_toc
     }
 
-- 
2.43.0


From 7a560911f3b3f649f8d1511e35739077a78c998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:15 +0000
Subject: [PATCH 11/46] fix: read empty and blank field instructions without
 swallowing the following text

---
 docx-core/src/reader/run.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 9bd555e..0c6409c 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -106,26 +106,27 @@ impl ElementReader for Run {
                                         run.children.push(RunChild::FieldChar(f));
                                     }
                                 }
-                                XMLElement::InstrText => loop {
-                                    let e = r.next_event();
-                                    match e {
-                                        Ok(XmlEvent::Characters(c)) => {
-                                            run.children.push(RunChild::InstrTextString(c));
-                                            break;
-                                        }
-                                        Ok(XmlEvent::EndElement { name, .. }) => {
-                                            let e = XMLElement::from_str(&name.local_name).unwrap();
-                                            match e {
-                                                XMLElement::Run => {
-                                                    return Ok(run);
+                                XMLElement::InstrText => {
+                                    let mut text = String::new();
+                                    loop {
+                                        match r.next_event() {
+                                            Ok(XmlEvent::Characters(c))
+                                            | Ok(XmlEvent::Whitespace(c)) => text.push_str(&c),
+                                            Ok(XmlEvent::EndElement { name, .. }) => {
+                                                let e =
+                                                    XMLElement::from_str(&name.local_name).unwrap();
+                                                if let XMLElement::InstrText = e {
+                                                    break;
                                                 }
-                                                _ => {}
                                             }
+                                            Err(_) => return Err(ReaderError::XMLReadError),
+                                            _ => {}
                                         }
-                                        Err(_) => return Err(ReaderError::XMLReadError),
-                                        _ => {}
                                     }
-                                },
+                                    if !text.is_empty() {
+                                        run.children.push(RunChild::InstrTextString(text));
+                                    }
+                                }
                                 _ => {}
                             }
                         }
-- 
2.43.0


From d9cfec3b165008dd8da805b6890f0ad180861d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:23 +0000
Subject: [PATCH 12/46] fix: keep custom properties with empty or blank values
 when reading

---
 docx-core/src/reader/custom_properties.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index d3f1928..cce4a93 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -24,10 +24,21 @@ impl FromXML for CustomProps {
                                         if let Ok(VtXMLElement::Lpwstr) =
                                             VtXMLElement::from_str(&name.local_name)
                                         {
-                                            let e = r.next_event();
-                                            if let Ok(XmlEvent::Characters(c)) = e {
-                                                props = props.add_custom_property(&key, c)
+                                            let mut value = String::new();
+                                            loop {
+                                                match r.next_event() {
+                                                    Ok(XmlEvent::Characters(c))
+                                                    | Ok(XmlEvent::Whitespace(c)) => {
+                                                        value.push_str(&c)
+                                                    }
+                                                    Ok(XmlEvent::EndElement { .. }) => break,
+                                                    Err(_) => {
+                                                        return Err(ReaderError::XMLReadError)
+                                                    }
+                                                    _ => {}
+                                                }
                                             }
+                                            props = props.add_custom_property(&key, value)
                                         }
                                     }
                                     Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From c33c17fe70feedd8e5bb019a0165ec67e99bdaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:55:24 +0000
Subject: [PATCH 13/46] fix: write every comment of the body once, and keep
 comments in all places when reading

---
 docx-core/src/documents/document_tree.rs   | 33 ++++++----
 docx-core/src/documents/image_collector.rs | 39 +++++++++++-
 docx-core/src/documents/mod.rs             | 72 ++++++++++++++++------
 docx-core/src/reader/comment.rs            |  2 +
 4 files changed, 114 insertions(+), 32 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e1ea55a..3c9a3c3 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,7 +5,7 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
+    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
     HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
     Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
     StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
@@ -30,6 +30,9 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits a hyperlink before its children are traversed.
     fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
 
+    /// Visits the start of a commented range.
+    fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
+
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
 }
@@ -73,9 +76,9 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
+        DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
         DocumentChild::BookmarkStart(_)
         | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentStart(_)
         | DocumentChild::CommentEnd(_) => {}
     }
 }
@@ -87,9 +90,9 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::Table(table) => visit_table(table, visitor),
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
+            SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
             SectionChild::BookmarkStart(_)
             | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentStart(_)
             | SectionChild::CommentEnd(_) => {}
         }
     }
@@ -134,9 +137,9 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
             StructuredDataTagChild::StructuredDataTag(tag) => {
                 visit_structured_data_tag(tag, visitor)
             }
+            StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
             StructuredDataTagChild::BookmarkStart(_)
             | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentStart(_)
             | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
@@ -160,9 +163,9 @@ fn visit_paragraph_children(
             ParagraphChild::MoveTo(moved) => visit_move_to(moved, visitor),
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
+            ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
             ParagraphChild::BookmarkStart(_)
             | ParagraphChild::BookmarkEnd(_)
-            | ParagraphChild::CommentStart(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
@@ -180,23 +183,28 @@ fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             InsertChild::Run(run) => visit_run(run, visitor),
             InsertChild::Delete(delete) => visit_delete(delete, visitor),
-            InsertChild::CommentStart(_) | InsertChild::CommentEnd(_) => {}
+            InsertChild::CommentStart(start) => visitor.visit_comment_start(start),
+            InsertChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut delete.children {
-        if let DeleteChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            DeleteChild::Run(run) => visit_run(run, visitor),
+            DeleteChild::CommentStart(start) => visitor.visit_comment_start(start),
+            DeleteChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut moved.children {
-        if let MoveFromChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            MoveFromChild::Run(run) => visit_run(run, visitor),
+            MoveFromChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveFromChild::CommentEnd(_) => {}
         }
     }
 }
@@ -206,7 +214,8 @@ fn visit_move_to(moved: &mut MoveTo, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             MoveToChild::Run(run) => visit_run(run, visitor),
             MoveToChild::Delete(delete) => visit_delete(delete, visitor),
-            MoveToChild::CommentStart(_) | MoveToChild::CommentEnd(_) => {}
+            MoveToChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveToChild::CommentEnd(_) => {}
         }
     }
 }
@@ -220,6 +229,7 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
                     visitor.visit_picture(picture);
                 }
             }
+            RunChild::CommentStart(start) => visitor.visit_comment_start(start),
             RunChild::FootnoteReference(reference) => visitor.visit_footnote_reference(reference),
             RunChild::Text(_)
             | RunChild::Sym(_)
@@ -229,7 +239,6 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
             | RunChild::Break(_)
             | RunChild::CarriageReturn(_)
             | RunChild::Shape(_)
-            | RunChild::CommentStart(_)
             | RunChild::CommentEnd(_)
             | RunChild::FieldChar(_)
             | RunChild::InstrText(_)
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 826b793..bbce400 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -9,7 +9,7 @@ use std::collections::{HashMap, HashSet};
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::escape::escape;
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
+    Comment, CommentRangeStart, Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
     ImageIdAndPath, Pic,
 };
 
@@ -250,6 +250,43 @@ pub(crate) fn collect_document_footnotes(document: &mut Document) -> Vec<Footnot
     collector.footnotes
 }
 
+/// Collects the comments of the complete main document tree.
+pub(crate) fn collect_document_comments(document: &mut Document) -> Vec<Comment> {
+    #[derive(Default)]
+    struct CommentCollector {
+        comments: Vec<Comment>,
+    }
+
+    impl DocumentTreeVisitor for CommentCollector {
+        fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+            self.comments.push(start.comment.clone());
+        }
+    }
+
+    let mut collector = CommentCollector::default();
+    visit_document(document, &mut collector);
+    collector.comments
+}
+
+/// Attaches read comments to the starts of their ranges in the complete main
+/// document tree.
+pub(crate) fn store_document_comments(
+    document: &mut Document,
+    comments_by_id: &HashMap<usize, &Comment>,
+) {
+    struct CommentStorer<'a>(&'a HashMap<usize, &'a Comment>);
+
+    impl DocumentTreeVisitor for CommentStorer<'_> {
+        fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+            if let Some(comment) = self.0.get(&start.get_id()) {
+                start.comment(Comment::clone(comment));
+            }
+        }
+    }
+
+    visit_document(document, &mut CommentStorer(comments_by_id));
+}
+
 /// Collects the external hyperlinks of the complete main document tree.
 ///
 /// Links which were read only know their relationship ID. Their targets are
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 563b6e0..d160b1d 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -86,8 +86,8 @@ use base64::Engine;
 use serde::{ser, Serialize};
 
 use self::image_collector::{
-    collect_document_footnotes, collect_document_hyperlinks, collect_document_part,
-    collect_footer_part, collect_header_part, MediaRegistry,
+    collect_document_comments, collect_document_footnotes, collect_document_hyperlinks, collect_document_part,
+    collect_footer_part, collect_header_part, store_document_comments, MediaRegistry,
 };
 
 #[derive(Debug, Clone)]
@@ -957,6 +957,13 @@ impl Docx {
 
         let mut hyperlink_map: HashMap<String, String> = HashMap::new();
 
+        let document_comments = collect_document_comments(&mut self.document);
+        for comment in &document_comments {
+            if let Some(para_id) = comment_para_id(comment) {
+                comment_map.insert(comment.id(), para_id.to_owned());
+            }
+        }
+
         for child in &self.document.children {
             match child {
                 DocumentChild::Paragraph(paragraph) => {
@@ -1017,7 +1024,7 @@ impl Docx {
             }
         }
 
-        if comment_map.is_empty() {
+        if document_comments.is_empty() {
             for (id, path) in hyperlink_map {
                 self.document_rels
                     .hyperlinks
@@ -1146,6 +1153,11 @@ impl Docx {
                 _ => {}
             }
         }
+        // Comments in the other places of the document tree.
+        for comment in &document_comments {
+            push_comment_once(&mut comments, &mut comments_extended, &comment_map, comment);
+        }
+
         // If this document has comments, set comments.xml to document_rels.
         // This is because comments.xml without comment cause an error on word online.
         if !comments.is_empty() {
@@ -1224,6 +1236,8 @@ impl Docx {
                 _ => {}
             }
         }
+        // The other places of the document tree.
+        store_document_comments(&mut self.document, &comments_by_id);
 
         if !comments.is_empty() {
             self.document_rels.has_comments = true;
@@ -2286,22 +2300,42 @@ fn push_comment_and_comment_extended(
     comment_map: &HashMap<usize, String>,
     c: &CommentRangeStart,
 ) {
-    let comment = c.get_comment_ref();
-    for child in &comment.children {
-        if let CommentChild::Paragraph(child) = child {
-            let para_id = child.id.clone();
-            comments.push(comment.clone());
-            let comment_extended = CommentExtended::new(para_id);
-            if let Some(parent_comment_id) = comment.parent_comment_id {
-                if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
-                    comments_extended
-                        .push(comment_extended.parent_paragraph_id(parent_para_id.clone()));
-                }
-            } else {
-                comments_extended.push(comment_extended);
-            }
-        }
-        // TODO: Support table in comment
+    push_comment_once(
+        comments,
+        comments_extended,
+        comment_map,
+        c.get_comment_ref(),
+    );
+}
+
+/// Returns the ID of the last paragraph, which stands for the whole comment in threads.
+fn comment_para_id(comment: &Comment) -> Option<&str> {
+    comment.children.iter().rev().find_map(|child| match child {
+        CommentChild::Paragraph(paragraph) => Some(paragraph.id.as_str()),
+        CommentChild::Table(_) => None, // TODO: Support table in comment
+    })
+}
+
+fn push_comment_once(
+    comments: &mut Vec<Comment>,
+    comments_extended: &mut Vec<CommentExtended>,
+    comment_map: &HashMap<usize, String>,
+    comment: &Comment,
+) {
+    if comments.iter().any(|other| other.id() == comment.id()) {
+        return;
+    }
+    comments.push(comment.clone());
+    let Some(para_id) = comment_para_id(comment) else {
+        return;
+    };
+    let comment_extended = CommentExtended::new(para_id);
+    if let Some(parent_comment_id) = comment.parent_comment_id {
+        if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
+            comments_extended.push(comment_extended.parent_paragraph_id(parent_para_id.clone()));
+        }
+    } else {
+        comments_extended.push(comment_extended);
     }
 }
 
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index 6fa085f..f2151dd 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -27,6 +27,8 @@ impl ElementReader for Comment {
                     if let XMLElement::Paragraph = e {
                         let p = Paragraph::read(r, &attributes)?;
                         comment = comment.add_paragraph(p);
+                    } else if let XMLElement::Table = e {
+                        comment = comment.add_table(Table::read(r, &attributes)?);
                     }
                 }
                 Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From ff6624fa9dfe7365f1a1e4b59dd24f364dc488de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:59:25 +0000
Subject: [PATCH 14/46] fix: keep header and footer references, links in them,
 custom XML items, numbering and footnote paragraph ids consistent in the
 package

---
 docx-core/src/documents/content_types.rs      | 23 ++++-
 docx-core/src/documents/custom_item_rels.rs   | 10 +-
 .../documents/elements/section_property.rs    | 41 ++++++++
 docx-core/src/documents/footer_rels.rs        | 13 +++
 docx-core/src/documents/header_rels.rs        | 13 +++
 docx-core/src/documents/image_collector.rs    | 94 +++++++++++--------
 docx-core/src/documents/mod.rs                | 92 +++++++++++++-----
 7 files changed, 221 insertions(+), 65 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 7845b6f..dd14b33 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -106,7 +106,7 @@ impl ContentTypes {
 
     pub fn add_custom_xml(mut self) -> Self {
         self.types.insert(
-            format!("/customXml/itemProps{}.xml", self.web_extension_count),
+            format!("/customXml/itemProps{}.xml", self.custom_xml_count),
             "application/vnd.openxmlformats-officedocument.customXmlProperties+xml".to_owned(),
         );
         self.custom_xml_count += 1;
@@ -130,6 +130,27 @@ impl ContentTypes {
         );
         self
     }
+
+    /// Lists exactly the given numbers of headers and footers.
+    pub(crate) fn set_header_and_footer_count(&mut self, headers: usize, footers: usize) {
+        for n in 1..=self.header_count {
+            self.types.remove(&format!("/word/header{n}.xml"));
+        }
+        for n in 1..=self.footer_count {
+            self.types.remove(&format!("/word/footer{n}.xml"));
+        }
+        self.header_count = 0;
+        self.footer_count = 0;
+        let mut types = std::mem::take(self);
+        for _ in 0..headers {
+            types = types.add_header();
+        }
+        for _ in 0..footers {
+            types = types.add_footer();
+        }
+        *self = types;
+    }
+
     pub fn add_footnotes(mut self) -> Self {
         self.types.insert(
             "/word/footnotes.xml".to_owned(),
diff --git a/docx-core/src/documents/custom_item_rels.rs b/docx-core/src/documents/custom_item_rels.rs
index 2cb0c74..981115b 100644
--- a/docx-core/src/documents/custom_item_rels.rs
+++ b/docx-core/src/documents/custom_item_rels.rs
@@ -8,6 +8,9 @@ use crate::xml_builder::*;
 #[serde(rename_all = "camelCase")]
 pub struct CustomItemRels {
     custom_item_count: usize,
+    /// Number of properties parts belonging to the items before.
+    #[serde(skip)]
+    offset: usize,
 }
 
 impl CustomItemRels {
@@ -15,6 +18,11 @@ impl CustomItemRels {
         Default::default()
     }
 
+    pub(crate) fn offset(mut self, offset: usize) -> Self {
+        self.offset = offset;
+        self
+    }
+
     pub fn add_item(mut self) -> Self {
         self.custom_item_count += 1;
         self
@@ -33,7 +41,7 @@ impl BuildXML for CustomItemRels {
                 b.relationship(
           &format!("rId{}", id + 1),
           "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXmlProps",
-          &format!("itemProps{}.xml", id + 1),
+          &format!("itemProps{}.xml", self.offset + id + 1),
         )
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index 74b8f9b..300f75b 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -133,6 +133,47 @@ impl SectionProperty {
         self
     }
 
+    /// Numbers the headers and footers which are present, continuing the given counts.
+    ///
+    /// References which were read from another package and have no part here
+    /// are dropped.
+    pub(crate) fn number_headers_and_footers(
+        &mut self,
+        headers: &mut usize,
+        footers: &mut usize,
+    ) {
+        for (header, reference) in [
+            (&mut self.header, &mut self.header_reference),
+            (&mut self.first_header, &mut self.first_header_reference),
+            (&mut self.even_header, &mut self.even_header_reference),
+        ] {
+            let Some((rid, _)) = header else {
+                *reference = None;
+                continue;
+            };
+            *headers += 1;
+            *rid = crate::create_header_rid(*headers);
+            if let Some(reference) = reference {
+                reference.id.clone_from(rid);
+            }
+        }
+        for (footer, reference) in [
+            (&mut self.footer, &mut self.footer_reference),
+            (&mut self.first_footer, &mut self.first_footer_reference),
+            (&mut self.even_footer, &mut self.even_footer_reference),
+        ] {
+            let Some((rid, _)) = footer else {
+                *reference = None;
+                continue;
+            };
+            *footers += 1;
+            *rid = crate::create_footer_rid(*footers);
+            if let Some(reference) = reference {
+                reference.id.clone_from(rid);
+            }
+        }
+    }
+
     /// Returns the default, first, and even headers that are present.
     pub fn get_headers(&self) -> Vec<&(String, Header)> {
         self.headers().collect()
diff --git a/docx-core/src/documents/footer_rels.rs b/docx-core/src/documents/footer_rels.rs
index 27a0b51..be638f4 100644
--- a/docx-core/src/documents/footer_rels.rs
+++ b/docx-core/src/documents/footer_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct FooterRels {
     pub images: Vec<(String, String)>,
+    pub(crate) hyperlinks: Vec<(String, String)>,
 }
 
 impl FooterRels {
@@ -22,6 +23,10 @@ impl FooterRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for FooterRels {
@@ -39,6 +44,14 @@ impl BuildXML for FooterRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/header_rels.rs b/docx-core/src/documents/header_rels.rs
index f718643..dfe98dc 100644
--- a/docx-core/src/documents/header_rels.rs
+++ b/docx-core/src/documents/header_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct HeaderRels {
     pub images: Vec<(String, String)>,
+    pub(crate) hyperlinks: Vec<(String, String)>,
 }
 
 impl HeaderRels {
@@ -22,6 +23,10 @@ impl HeaderRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for HeaderRels {
@@ -39,6 +44,14 @@ impl BuildXML for HeaderRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index bbce400..c6b35c0 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -106,6 +106,7 @@ impl MediaRegistry {
 
 /// Data collected from one relationship scope during a tree walk.
 pub(crate) struct CollectedPart {
+    pub(crate) hyperlinks: Vec<(String, String)>,
     pub(crate) relationships: Vec<ImageIdAndPath>,
     pub(crate) footnotes: Vec<Footnote>,
 }
@@ -142,6 +143,7 @@ impl<'a> PackagePartCollector<'a> {
 
     fn finish(self) -> CollectedPart {
         CollectedPart {
+            hyperlinks: Vec::new(),
             relationships: self.relationships,
             footnotes: self.footnotes,
         }
@@ -297,48 +299,54 @@ pub(crate) fn collect_document_hyperlinks(
     document: &mut Document,
     targets: &[(String, String, String)],
 ) -> Vec<(String, String)> {
-    struct HyperlinkCollector<'a> {
-        targets: HashMap<&'a str, &'a str>,
-        links: Vec<(String, String)>,
-        paths: HashMap<String, String>,
-        next: usize,
-    }
+    let mut collector = HyperlinkCollector::new(targets);
+    visit_document(document, &mut collector);
+    collector.links
+}
 
-    impl DocumentTreeVisitor for HyperlinkCollector<'_> {
-        fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
-            let HyperlinkData::External { rid, path } = &mut link.link else {
-                return;
-            };
-            if path.is_empty() {
-                if let Some(target) = self.targets.get(rid.as_str()) {
-                    *path = escape(target);
-                }
-            }
-            let shared = self.paths.get(rid).is_some_and(|other| other != path);
-            if shared || !rid.starts_with("rIdHyperlink") {
-                while {
-                    self.next += 1;
-                    *rid = crate::create_hyperlink_rid(self.next);
-                    self.paths.contains_key(rid) || self.targets.contains_key(rid.as_str())
-                } {}
-            }
-            if self.paths.insert(rid.clone(), path.clone()).is_none() {
-                self.links.push((rid.clone(), path.clone()));
+struct HyperlinkCollector<'a> {
+    targets: HashMap<&'a str, &'a str>,
+    links: Vec<(String, String)>,
+    paths: HashMap<String, String>,
+    next: usize,
+}
+
+impl DocumentTreeVisitor for HyperlinkCollector<'_> {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        let HyperlinkData::External { rid, path } = &mut link.link else {
+            return;
+        };
+        if path.is_empty() {
+            if let Some(target) = self.targets.get(rid.as_str()) {
+                *path = escape(target);
             }
         }
+        let shared = self.paths.get(rid).is_some_and(|other| other != path);
+        if shared || !rid.starts_with("rIdHyperlink") {
+            while {
+                self.next += 1;
+                *rid = crate::create_hyperlink_rid(self.next);
+                self.paths.contains_key(rid) || self.targets.contains_key(rid.as_str())
+            } {}
+        }
+        if self.paths.insert(rid.clone(), path.clone()).is_none() {
+            self.links.push((rid.clone(), path.clone()));
+        }
     }
+}
 
-    let mut collector = HyperlinkCollector {
-        targets: targets
-            .iter()
-            .map(|(id, target, _)| (id.as_str(), target.as_str()))
-            .collect(),
-        links: Vec::new(),
-        paths: HashMap::new(),
-        next: 0,
-    };
-    visit_document(document, &mut collector);
-    collector.links
+impl<'a> HyperlinkCollector<'a> {
+    fn new(targets: &'a [(String, String, String)]) -> Self {
+        Self {
+            targets: targets
+                .iter()
+                .map(|(id, target, _)| (id.as_str(), target.as_str()))
+                .collect(),
+            links: Vec::new(),
+            paths: HashMap::new(),
+            next: 0,
+        }
+    }
 }
 
 /// Collects package data from one header relationship scope.
@@ -348,7 +356,11 @@ pub(crate) fn collect_header_part(
 ) -> CollectedPart {
     let mut collector = PackagePartCollector::new(registry, Some("header"));
     visit_header(header, &mut collector);
-    collector.finish()
+    let mut part = collector.finish();
+    let mut links = HyperlinkCollector::new(&[]);
+    visit_header(header, &mut links);
+    part.hyperlinks = links.links;
+    part
 }
 
 /// Collects package data from one footer relationship scope.
@@ -358,7 +370,11 @@ pub(crate) fn collect_footer_part(
 ) -> CollectedPart {
     let mut collector = PackagePartCollector::new(registry, Some("footer"));
     visit_footer(footer, &mut collector);
-    collector.finish()
+    let mut part = collector.finish();
+    let mut links = HyperlinkCollector::new(&[]);
+    visit_footer(footer, &mut links);
+    part.hyperlinks = links.links;
+    part
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index d160b1d..3a20ca1 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -87,7 +87,8 @@ use serde::{ser, Serialize};
 
 use self::image_collector::{
     collect_document_comments, collect_document_footnotes, collect_document_hyperlinks, collect_document_part,
-    collect_footer_part, collect_header_part, store_document_comments, MediaRegistry,
+    collect_footer_part, collect_header_part, store_document_comments, CollectedPart,
+    MediaRegistry,
 };
 
 #[derive(Debug, Clone)]
@@ -684,7 +685,7 @@ impl Docx {
     pub fn add_custom_item(mut self, id: &str, xml: &str) -> Self {
         let x = CustomItem::from_str(xml).expect("should parse xml string");
         self.content_type = self.content_type.add_custom_xml();
-        let rel = CustomItemRels::new().add_item();
+        let rel = CustomItemRels::new().offset(self.custom_items.len()).add_item();
         self.custom_item_props.push(CustomItemProperty::new(id));
         self.document_rels = self.document_rels.add_custom_item();
         self.custom_item_rels.push(rel);
@@ -854,30 +855,38 @@ impl Docx {
     fn prepare_package(&mut self) -> PackageMetadata {
         let has_toc = self.prepare_for_build();
 
+        self.number_headers_and_footers();
+
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
-        let header_images = self.collect_header_images(&mut media);
-        let footer_images = self.collect_footer_images(&mut media);
+        let header_parts = self.collect_header_parts(&mut media);
+        let footer_parts = self.collect_footer_parts(&mut media);
         self.document_rels.images = document_part.relationships;
 
-        let header_rels = header_images
+        let header_rels = header_parts
             .into_iter()
-            .map(|(index, images)| {
+            .map(|(index, part)| {
                 let mut rels = HeaderRels::new();
-                rels.set_images(images);
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
                 (index, rels)
             })
             .collect();
 
-        let footer_rels = footer_images
+        let footer_rels = footer_parts
             .into_iter()
-            .map(|(index, images)| {
+            .map(|(index, part)| {
                 let mut rels = FooterRels::new();
-                rels.set_images(images);
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
                 (index, rels)
             })
             .collect();
 
+        if !self.numberings.numberings.is_empty() {
+            self.document_rels.has_numberings = true;
+        }
+
         if !document_part.footnotes.is_empty() {
             self.footnotes.add(document_part.footnotes);
             self.content_type = std::mem::take(&mut self.content_type).add_footnotes();
@@ -905,6 +914,25 @@ impl Docx {
         }
     }
 
+    /// Numbers headers and footers in the order in which their parts are written.
+    fn number_headers_and_footers(&mut self) {
+        let (mut headers, mut footers) = (0, 0);
+        let document = &mut self.document;
+        document
+            .section_property
+            .number_headers_and_footers(&mut headers, &mut footers);
+        for child in &mut document.children {
+            if let DocumentChild::Section(section) = child {
+                section
+                    .property
+                    .number_headers_and_footers(&mut headers, &mut footers);
+            }
+        }
+        self.document_rels.header_count = headers;
+        self.document_rels.footer_count = footers;
+        self.content_type.set_header_and_footer_count(headers, footers);
+    }
+
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
@@ -1244,40 +1272,42 @@ impl Docx {
         }
     }
 
-    /// Collects image relationships for every header in package order.
+    /// Collects image and hyperlink relationships for every header in package order.
     ///
     /// Each entry deliberately uses a separate relationship scope while all
     /// entries share the package-wide media registry. Relationship creation
     /// order matches the order used to render and write header parts.
-    fn collect_header_images(
+    fn collect_header_parts(
         &mut self,
         media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    ) -> Vec<(usize, CollectedPart)> {
         self.document
             .headers_mut()
             .enumerate()
             .filter_map(|(index, (_, header))| {
-                let relationships = collect_header_part(header, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_header_part(header, media);
+                (!part.relationships.is_empty() || !part.hyperlinks.is_empty())
+                    .then_some((index, part))
             })
             .collect()
     }
 
-    /// Collects image relationships for every footer in package order.
+    /// Collects image and hyperlink relationships for every footer in package order.
     ///
     /// Relationship creation order matches the package writer. A shared
     /// registry prevents repeated footer and body images from being emitted as
     /// separate physical media files.
-    fn collect_footer_images(
+    fn collect_footer_parts(
         &mut self,
         media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    ) -> Vec<(usize, CollectedPart)> {
         self.document
             .footers_mut()
             .enumerate()
             .filter_map(|(index, (_, footer))| {
-                let relationships = collect_footer_part(footer, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_footer_part(footer, media);
+                (!part.relationships.is_empty() || !part.hyperlinks.is_empty())
+                    .then_some((index, part))
             })
             .collect()
     }
@@ -1819,8 +1849,14 @@ fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<&'a s
 
 fn collect_para_ids_in_run<'a>(run: &'a Run, counts: &mut HashMap<&'a str, usize>) {
     for child in &run.children {
-        if let RunChild::CommentStart(c) = child {
-            collect_para_ids_in_comment(&c.comment, counts);
+        match child {
+            RunChild::CommentStart(c) => collect_para_ids_in_comment(&c.comment, counts),
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &reference.content {
+                    collect_para_ids_in_paragraph(paragraph, counts);
+                }
+            }
+            _ => {}
         }
     }
 }
@@ -2204,8 +2240,16 @@ fn refresh_para_ids_in_run(
     seen: &mut HashSet<String>,
 ) {
     for child in &mut run.children {
-        if let RunChild::CommentStart(c) = child {
-            refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen);
+        match child {
+            RunChild::CommentStart(c) => {
+                refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen)
+            }
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &mut reference.content {
+                    refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
+                }
+            }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From cc581ef9388740375ecffc5783304ce9b25fef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:22:30 +0000
Subject: [PATCH 15/46] fix: do not write the built-in style and numbering
 twice when the document defines them

---
 docx-core/src/documents/numberings.rs | 15 +++++++++++++--
 docx-core/src/documents/styles.rs     |  8 ++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/numberings.rs b/docx-core/src/documents/numberings.rs
index 0b42420..941bbff 100644
--- a/docx-core/src/documents/numberings.rs
+++ b/docx-core/src/documents/numberings.rs
@@ -34,12 +34,23 @@ impl BuildXML for Numberings {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // A document which uses the ids itself must not get them twice.
+        let default_abstract_num = if self.abstract_nums.iter().any(|n| n.id == 1) {
+            None
+        } else {
+            Some(create_default_numbering())
+        };
+        let default_num = if self.numberings.iter().any(|n| n.id == 1) {
+            None
+        } else {
+            Some(Numbering::new(1, 1))
+        };
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_numbering()?
-            .add_child(&create_default_numbering())?
+            .add_optional_child(&default_abstract_num)?
             .add_children(&self.abstract_nums)?
-            .add_child(&Numbering::new(1, 1))?
+            .add_optional_child(&default_num)?
             .add_children(&self.numberings)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 2eaa748..d47c8e1 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -81,11 +81,15 @@ impl BuildXML for Styles {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        let normal = Style::new("Normal", StyleType::Paragraph).name("Normal");
+        // A document which defines the style itself must not get it twice.
+        let normal = match self.find_style_by_id("Normal") {
+            Some(_) => None,
+            None => Some(Style::new("Normal", StyleType::Paragraph).name("Normal")),
+        };
         XMLBuilder::from(stream)
             .open_styles()?
             .add_child(&self.doc_defaults)?
-            .add_child(&normal)?
+            .add_optional_child(&normal)?
             .add_children(&self.styles)?
             .close()?
             .into_inner()
-- 
2.43.0


From 339c969a336d99fa497762ea786338a3b15414e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:22:30 +0000
Subject: [PATCH 16/46] fix: write picture offsets, simplePos and allowOverlap
 as given; inline pictures do not overlap

---
 docx-core/src/documents/elements/drawing.rs | 6 +++---
 docx-core/src/reader/drawing.rs             | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index c207d77..580037b 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -80,8 +80,8 @@ impl BuildXML for Drawing {
                             &format!("{}", p.dist_b),
                             &format!("{}", p.dist_l),
                             &format!("{}", p.dist_r),
-                            "0",
                             if p.simple_pos { "1" } else { "0" },
+                            if p.allow_overlap { "1" } else { "0" },
                             "0",
                             "0",
                             if p.layout_in_cell { "1" } else { "0" },
@@ -95,7 +95,7 @@ impl BuildXML for Drawing {
 
                     match p.position_h {
                         DrawingPosition::Offset(x) => {
-                            let x = format!("{}", x as u32);
+                            let x = format!("{}", x);
                             b = b.pos_offset(&x)?.close()?;
                         }
                         DrawingPosition::Align(x) => {
@@ -107,7 +107,7 @@ impl BuildXML for Drawing {
 
                     match p.position_v {
                         DrawingPosition::Offset(y) => {
-                            let y = format!("{}", y as u32);
+                            let y = format!("{}", y);
                             b = b.pos_offset(&y)?.close()?;
                         }
                         DrawingPosition::Align(a) => {
diff --git a/docx-core/src/reader/drawing.rs b/docx-core/src/reader/drawing.rs
index 86beca6..19e880d 100644
--- a/docx-core/src/reader/drawing.rs
+++ b/docx-core/src/reader/drawing.rs
@@ -187,6 +187,7 @@ impl ElementReader for Drawing {
                             }
                             WpXMLElement::Inline => {
                                 drawing_position_type = DrawingPositionType::Inline;
+                                allow_overlap = false;
                                 if let Some(d) = read(&attributes, "distT") {
                                     if let Ok(d) = f64::from_str(&d) {
                                         dist_t = d as i32;
-- 
2.43.0


From e14f945a574e2ab5426ee989c8760cd81179292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:35:57 +0000
Subject: [PATCH 17/46] fix: read a content control nested in another one as
 such

---
 docx-core/src/reader/structured_data_tag.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/docx-core/src/reader/structured_data_tag.rs b/docx-core/src/reader/structured_data_tag.rs
index b97e008..90233c5 100644
--- a/docx-core/src/reader/structured_data_tag.rs
+++ b/docx-core/src/reader/structured_data_tag.rs
@@ -67,6 +67,15 @@ impl ElementReader for StructuredDataTag {
                             }
                             continue;
                         }
+                        XMLElement::StructuredDataTag => {
+                            if let Ok(tag) = StructuredDataTag::read(r, &attributes) {
+                                sdt.children
+                                    .push(StructuredDataTagChild::StructuredDataTag(Box::new(
+                                        tag,
+                                    )));
+                            }
+                            continue;
+                        }
                         XMLElement::Run => {
                             if let Ok(run) = Run::read(r, attrs) {
                                 sdt.children
-- 
2.43.0


From 7cf81748d2b6d85e514e7609cd481ab618e02cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:58:42 +0000
Subject: [PATCH 18/46] fix: end table cells with a paragraph when their last
 block is a table

---
 docx-core/src/documents/elements/table_cell.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/elements/table_cell.rs b/docx-core/src/documents/elements/table_cell.rs
index 7890749..c08ee58 100644
--- a/docx-core/src/documents/elements/table_cell.rs
+++ b/docx-core/src/documents/elements/table_cell.rs
@@ -164,17 +164,16 @@ impl BuildXML for TableCell {
             .apply_each(&self.children, |ch, b| {
                 match ch {
                     TableCellContent::Paragraph(p) => b.add_child(&**p),
-                    TableCellContent::Table(t) => {
-                        b.add_child(&**t)?
-                            // INFO: We need to add empty paragraph when parent cell includes only cell.
-                            .apply_if(self.children.len() == 1, |b| b.add_child(&Paragraph::new()))
-                    }
+                    TableCellContent::Table(t) => b.add_child(&**t),
                     TableCellContent::StructuredDataTag(t) => b.add_child(&t),
                     TableCellContent::TableOfContents(t) => b.add_child(&t),
                 }
             })?
-            // INFO: We need to add empty paragraph when parent cell includes only cell.
-            .apply_if(self.children.is_empty(), |b| b.add_child(&Paragraph::new()))?
+            // INFO: A cell must end with a paragraph, so add an empty one when it has no content or ends with a table.
+            .apply_if(
+                matches!(self.children.last(), None | Some(TableCellContent::Table(_))),
+                |b| b.add_child(&Paragraph::new()),
+            )?
             .close()?
             .into_inner()
     }
-- 
2.43.0


From 830a0dfe734e0625a443ee34c7c97f204bd3f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:01:58 +0000
Subject: [PATCH 19/46] fix: write documents that contain text boxes, shapes or
 empty drawings

---
 docx-core/src/documents/elements/drawing.rs | 10 ++++++----
 docx-core/src/documents/elements/run.rs     |  5 ++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index 580037b..87f1049 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -61,6 +61,11 @@ impl BuildXML for Drawing {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // INFO: Text boxes are only supported by the reader, and a drawing must not be empty.
+        if !matches!(self.data, Some(DrawingData::Pic(_))) {
+            return Ok(stream);
+        }
+
         let b = XMLBuilder::from(stream);
         let mut b = b.open_drawing()?;
 
@@ -144,10 +149,7 @@ impl BuildXML for Drawing {
                     .close()?
                     .close()?;
             }
-            Some(DrawingData::TextBox(_t)) => unimplemented!("TODO: Support textBox writer"),
-            None => {
-                unimplemented!()
-            }
+            Some(DrawingData::TextBox(_)) | None => {}
         }
         b.close()?.close()?.into_inner()
     }
diff --git a/docx-core/src/documents/elements/run.rs b/docx-core/src/documents/elements/run.rs
index cebf03a..a7aa5f4 100644
--- a/docx-core/src/documents/elements/run.rs
+++ b/docx-core/src/documents/elements/run.rs
@@ -390,9 +390,8 @@ impl BuildXML for RunChild {
             RunChild::Break(t) => t.build_to(stream),
             RunChild::CarriageReturn(t) => t.build_to(stream),
             RunChild::Drawing(t) => t.build_to(stream),
-            RunChild::Shape(_t) => {
-                todo!("Support shape writer.")
-            }
+            // INFO: Shapes are only supported by the reader.
+            RunChild::Shape(_) => Ok(stream),
             RunChild::CommentStart(c) => c.build_to(stream),
             RunChild::CommentEnd(c) => c.build_to(stream),
             RunChild::FieldChar(c) => c.build_to(stream),
-- 
2.43.0


From a4ca555f96f47f959e149d7a7e35b5224cfb9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:01:58 +0000
Subject: [PATCH 20/46] fix: write HYPERLINK field instructions

---
 .../documents/elements/delete_instr_text.rs   |  2 +-
 .../src/documents/elements/instr_hyperlink.rs | 25 +++++++++++++++----
 .../src/documents/elements/instr_text.rs      |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index f0de643..12ae81c 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -26,7 +26,7 @@ impl BuildXML for DeleteInstrText {
                 DeleteInstrText::TOC(toc) => b.add_child(toc),
                 DeleteInstrText::TC(tc) => b.add_child(tc),
                 DeleteInstrText::PAGEREF(page_ref) => b.add_child(page_ref),
-                DeleteInstrText::HYPERLINK(_link) => todo!(),
+                DeleteInstrText::HYPERLINK(link) => b.add_child(link),
                 DeleteInstrText::Unsupported(s) => b.plain_text(&escape(s)),
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index 9faf170..e0e6b10 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -1,4 +1,9 @@
 use serde::Serialize;
+use std::io::Write;
+
+use crate::documents::*;
+use crate::escape::escape;
+use crate::xml_builder::*;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_HYPERLINKHYPERLINK_topic_ID0EFYG1.html
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -20,11 +25,21 @@ impl InstrHyperlink {
     }
 }
 
-// impl BuildXML for instrHyperlink {
-//     fn build(&self) -> Vec<u8> {
-// TODO:
-//     }
-// }
+impl BuildXML for InstrHyperlink {
+    fn build_to<W: Write>(
+        &self,
+        stream: crate::xml::writer::EventWriter<W>,
+    ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        let instr = if self.anchor {
+            format!("HYPERLINK \\l \"{}\"", self.target)
+        } else {
+            format!("HYPERLINK \"{}\"", self.target)
+        };
+        XMLBuilder::from(stream)
+            .plain_text(&escape(&instr))?
+            .into_inner()
+    }
+}
 
 impl std::str::FromStr for InstrHyperlink {
     type Err = ();
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index 1b61ad6..c70f869 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -30,7 +30,7 @@ impl BuildXML for Box<InstrText> {
                 InstrText::PAGEREF(page_ref) => b.add_child(page_ref),
                 InstrText::PAGE(page) => b.add_child(page),
                 InstrText::NUMPAGES(page) => b.add_child(page),
-                InstrText::HYPERLINK(_link) => todo!(),
+                InstrText::HYPERLINK(link) => b.add_child(link),
                 InstrText::Unsupported(s) => b.plain_text(&escape(s)),
             })?
             .close()?
-- 
2.43.0


From d94742474545ee0731aaae66b344d46af95efd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:01:58 +0000
Subject: [PATCH 21/46] fix: escape paragraph, header, footer and relationship
 identifiers

---
 docx-core/src/documents/document_rels.rs             | 6 +++---
 docx-core/src/documents/elements/footer_reference.rs | 3 ++-
 docx-core/src/documents/elements/header_reference.rs | 3 ++-
 docx-core/src/documents/elements/paragraph.rs        | 2 +-
 docx-core/src/documents/elements/pic.rs              | 2 +-
 docx-core/src/documents/footer_rels.rs               | 7 ++++---
 docx-core/src/documents/header_rels.rs               | 7 ++++---
 7 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index b8ea39a..0e57ff6 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -117,14 +117,14 @@ impl BuildXML for DocumentRels {
             })?
             .apply_each(self.images.iter(), |(id, path), b| {
                 b.relationship(
-                    id,
+                    &escape(id),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image",
-                    path,
+                    &escape(path),
                 )
             })?
             .apply_each(self.hyperlinks.iter(), |(id, path, r#type), b| {
                 b.relationship_with_mode(
-                    id,
+                    &escape(id),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
                     path,
                     r#type,
diff --git a/docx-core/src/documents/elements/footer_reference.rs b/docx-core/src/documents/elements/footer_reference.rs
index e544ec9..0ba4808 100644
--- a/docx-core/src/documents/elements/footer_reference.rs
+++ b/docx-core/src/documents/elements/footer_reference.rs
@@ -1,4 +1,5 @@
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 use std::io::Write;
 
@@ -26,7 +27,7 @@ impl BuildXML for FooterReference {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .footer_reference(&self.footer_type, &self.id)?
+            .footer_reference(&escape(&self.footer_type), &escape(&self.id))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/header_reference.rs b/docx-core/src/documents/elements/header_reference.rs
index e98a7d2..5862705 100644
--- a/docx-core/src/documents/elements/header_reference.rs
+++ b/docx-core/src/documents/elements/header_reference.rs
@@ -1,4 +1,5 @@
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 use std::io::Write;
 
@@ -35,7 +36,7 @@ impl BuildXML for HeaderReference {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .header_reference(&self.header_type, &self.id)?
+            .header_reference(&escape(&self.header_type), &escape(&self.id))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index b45637e..2787038 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -581,7 +581,7 @@ impl BuildXML for Paragraph {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .open_paragraph(&self.id)?
+            .open_paragraph(&crate::escape::escape(&self.id))?
             .add_child(&self.property)?
             .add_children(&self.children)?
             .close()?
diff --git a/docx-core/src/documents/elements/pic.rs b/docx-core/src/documents/elements/pic.rs
index d9e7280..9d92d0c 100644
--- a/docx-core/src/documents/elements/pic.rs
+++ b/docx-core/src/documents/elements/pic.rs
@@ -227,7 +227,7 @@ impl BuildXML for Pic {
             .close()?
             .close()?
             .open_blip_fill()?
-            .a_blip(&self.id)?
+            .a_blip(&crate::escape::escape(&self.id))?
             .a_src_rect()?
             .open_a_stretch()?
             .a_fill_rect()?
diff --git a/docx-core/src/documents/footer_rels.rs b/docx-core/src/documents/footer_rels.rs
index be638f4..d380ac2 100644
--- a/docx-core/src/documents/footer_rels.rs
+++ b/docx-core/src/documents/footer_rels.rs
@@ -1,4 +1,5 @@
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::{xml_builder::*, ImageIdAndPath};
 use serde::Serialize;
 use std::io::Write;
@@ -39,14 +40,14 @@ impl BuildXML for FooterRels {
             .open_relationships("http://schemas.openxmlformats.org/package/2006/relationships")?
             .apply_each(&self.images, |(id, path), b| {
                 b.relationship(
-                    id,
+                    &escape(id),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image",
-                    path,
+                    &escape(path),
                 )
             })?
             .apply_each(&self.hyperlinks, |(id, path), b| {
                 b.relationship_with_mode(
-                    id,
+                    &escape(id),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
                     path,
                     "External",
diff --git a/docx-core/src/documents/header_rels.rs b/docx-core/src/documents/header_rels.rs
index dfe98dc..2b8b059 100644
--- a/docx-core/src/documents/header_rels.rs
+++ b/docx-core/src/documents/header_rels.rs
@@ -1,4 +1,5 @@
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::{xml_builder::*, ImageIdAndPath};
 use serde::Serialize;
 use std::io::Write;
@@ -39,14 +40,14 @@ impl BuildXML for HeaderRels {
             .open_relationships("http://schemas.openxmlformats.org/package/2006/relationships")?
             .apply_each(&self.images, |(id, path), b| {
                 b.relationship(
-                    id,
+                    &escape(id),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image",
-                    path,
+                    &escape(path),
                 )
             })?
             .apply_each(&self.hyperlinks, |(id, path), b| {
                 b.relationship_with_mode(
-                    id,
+                    &escape(id),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
                     path,
                     "External",
-- 
2.43.0


From 669b9a4e3d1e05619ef642459f7b33d57075a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:01:58 +0000
Subject: [PATCH 22/46] fix: write the style links of abstract numberings

---
 docx-core/src/documents/elements/abstract_numbering.rs | 6 ++++++
 docx-core/src/xml_builder/elements.rs                  | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/docx-core/src/documents/elements/abstract_numbering.rs b/docx-core/src/documents/elements/abstract_numbering.rs
index a911715..9a02529 100644
--- a/docx-core/src/documents/elements/abstract_numbering.rs
+++ b/docx-core/src/documents/elements/abstract_numbering.rs
@@ -54,6 +54,12 @@ impl BuildXML for AbstractNumbering {
         if let Some(ref multi_level_type) = self.multi_level_type {
             builder = builder.multi_level_type(&escape(multi_level_type))?;
         }
+        if let Some(ref link) = self.style_link {
+            builder = builder.style_link(&escape(link))?;
+        }
+        if let Some(ref link) = self.num_style_link {
+            builder = builder.num_style_link(&escape(link))?;
+        }
 
         builder.add_children(&self.levels)?.close()?.into_inner()
     }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index c4dca7c..0252d2d 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -486,6 +486,8 @@ impl<W: Write> XMLBuilder<W> {
     );
 
     closed_with_str!(multi_level_type, "w:multiLevelType");
+    closed_with_str!(style_link, "w:styleLink");
+    closed_with_str!(num_style_link, "w:numStyleLink");
 
     open!(open_abstract_num, "w:abstractNum", "w:abstractNumId");
     open!(open_level, "w:lvl", "w:ilvl");
-- 
2.43.0


From 6373eaf9194dd9802506e474e23427d89dd7f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 23/46] fix: read orientation, text direction, columns and
 switched off title pages of sections

---
 docx-core/src/reader/section_property.rs | 31 ++++++++++++++++++++++--
 docx-core/src/reader/xml_element.rs      |  2 ++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index fc53e8f..cbae73b 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -1,7 +1,7 @@
 use std::io::Read;
 use std::str::FromStr;
 
-use crate::SectionType;
+use crate::{PageOrientationType, SectionType};
 
 use super::*;
 
@@ -16,6 +16,12 @@ fn read_page_size(attributes: &[OwnedAttribute]) -> Result<PageSize, ReaderError
             "h" => {
                 size = size.height(value_to_dax(&a.value)? as u32);
             }
+            "orient" => {
+                // portrait is what a page without this attribute has, too
+                if a.value == "landscape" {
+                    size = size.orient(PageOrientationType::Landscape);
+                }
+            }
             _ => {}
         }
     }
@@ -56,6 +62,13 @@ fn read_page_margin(
     Ok(margin)
 }
 
+/// Returns the number of columns and the space between them.
+fn read_columns(attributes: &[OwnedAttribute]) -> Option<(usize, Option<usize>)> {
+    let num = usize::from_str(&read(attributes, "num")?).ok()?;
+    let space = read(attributes, "space").and_then(|v| value_to_dax(&v).ok());
+    Some((num, space.and_then(|v| usize::try_from(v).ok())))
+}
+
 fn read_header_or_footer_reference(
     attributes: &[OwnedAttribute],
 ) -> Result<(String, String), ReaderError> {
@@ -98,6 +111,15 @@ impl ElementReader for SectionProperty {
                             let size = read_page_size(&attributes)?;
                             sp = sp.page_size(size);
                         }
+                        XMLElement::Columns => {
+                            // a single column has no space beside it
+                            if let Some((num, space)) = read_columns(&attributes) {
+                                if num > 1 {
+                                    sp.columns = num;
+                                    sp.space = space.unwrap_or(720);
+                                }
+                            }
+                        }
                         XMLElement::DocGrid => {
                             if let Ok(doc_grid) = DocGrid::read(r, &attributes) {
                                 sp = sp.doc_grid(doc_grid);
@@ -157,7 +179,12 @@ impl ElementReader for SectionProperty {
                                 }
                             }
                         }
-                        XMLElement::TitlePg => sp = sp.title_pg(),
+                        XMLElement::TextDirection => {
+                            if let Some(val) = read_val(&attributes) {
+                                sp = sp.text_direction(val);
+                            }
+                        }
+                        XMLElement::TitlePg => sp.title_pg = read_bool(&attributes),
                         _ => {}
                     }
                 }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 2f7c335..6b0f830 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -166,6 +166,7 @@ pub enum XMLElement {
     HeaderReference,
     FooterReference,
     TitlePg,
+    Columns,
     EvenAndOddHeaders,
     StructuredDataTag,
     Type,
@@ -426,6 +427,7 @@ impl FromStr for XMLElement {
             "headerReference" => Ok(XMLElement::HeaderReference),
             "footerReference" => Ok(XMLElement::FooterReference),
             "titlePg" => Ok(XMLElement::TitlePg),
+            "cols" => Ok(XMLElement::Columns),
             "evenAndOddHeaders" => Ok(XMLElement::EvenAndOddHeaders),
             "sdt" => Ok(XMLElement::StructuredDataTag),
             "pgNumType" => Ok(XMLElement::PageNumType),
-- 
2.43.0


From ef3ff8f81fb443bd8df8576187b51077b790b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 24/46] fix: keep the orientation when the page size is set

---
 docx-core/src/documents/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 3a20ca1..0423845 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -634,7 +634,8 @@ impl Docx {
     }
 
     pub fn page_size(mut self, w: u32, h: u32) -> Self {
-        self.document = self.document.page_size(PageSize::new().size(w, h));
+        let size = self.document.section_property.page_size.clone().size(w, h);
+        self.document = self.document.page_size(size);
         self
     }
 
-- 
2.43.0


From e61aa22cb7da7dba7369c665d459de089f91a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 25/46] fix: switch on even and odd headers for those of inner
 sections

---
 docx-core/src/documents/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 0423845..3f39b19 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -449,6 +449,7 @@ impl Docx {
 
         if let Some(header) = new_section.temp_even_header.take() {
             self.attach_section_header(&mut new_section, header, SectionProperty::even_header);
+            self.settings = self.settings.even_and_odd_headers();
         }
 
         if let Some(footer) = new_section.temp_footer.take() {
@@ -461,6 +462,7 @@ impl Docx {
 
         if let Some(footer) = new_section.temp_even_footer.take() {
             self.attach_section_footer(&mut new_section, footer, SectionProperty::even_footer);
+            self.settings = self.settings.even_and_odd_headers();
         }
 
         self.document = self.document.add_section(new_section);
-- 
2.43.0


From e4424055efa30b2b69e4cace2cdde67795ed690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 26/46] fix: escape attribute values and text of custom XML
 items

---
 docx-core/src/xml_json/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index c7558e8..3487f3f 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -13,6 +13,7 @@ use std::io::prelude::*;
 use std::io::Cursor;
 use std::str::FromStr;
 
+use crate::escape::escape;
 use crate::reader::{EventReader, Namespace, OwnedAttribute, OwnedName, XmlEvent};
 
 /// An XML Document
@@ -59,13 +60,13 @@ impl XmlData {
         write!(f, "<{}", self.name)?;
 
         for (key, val) in self.attributes.iter() {
-            write!(f, r#" {key}="{val}""#)?;
+            write!(f, r#" {key}="{}""#, escape(val))?;
         }
 
         f.write_char('>')?;
 
         if let Some(ref data) = self.data {
-            write!(f, "{data}")?
+            write!(f, "{}", escape(data))?
         }
 
         for child in self.children.iter() {
-- 
2.43.0


From 57ee0e584d5cac56d5aea80b36e9b6add8e043bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 27/46] fix: write web extension properties as JSON strings

---
 docx-core/src/documents/webextension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/webextension.rs b/docx-core/src/documents/webextension.rs
index 7bb7bf2..7a9710a 100644
--- a/docx-core/src/documents/webextension.rs
+++ b/docx-core/src/documents/webextension.rs
@@ -50,7 +50,7 @@ impl WebExtension {
 
     pub fn property(mut self, name: impl Into<String>, value: impl Into<String>) -> Self {
         let v = value.into();
-        let v = format!("&quot;{}&quot;", escape(&v).replace("&quot;", "\\&quot;"));
+        let v = escape(&serde_json::Value::String(v).to_string());
         self.properties.push(WebExtensionProperty::new(name, v));
         self
     }
-- 
2.43.0


From d38f55d65c12829580a7f9f90f4dc96ba5c0f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 28/46] fix: write custom properties in a fixed order

---
 docx-core/src/documents/doc_props/custom.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index c136148..3bcaee9 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -27,13 +27,15 @@ impl BuildXML for CustomProps {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        let mut properties: Vec<_> = self.properties.iter().collect();
+        properties.sort();
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_custom_properties(
                 "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties",
                 "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes",
             )?
-            .apply_each(self.properties.iter().enumerate(), |(i, (key, item)), b| {
+            .apply_each(properties.into_iter().enumerate(), |(i, (key, item)), b| {
                 b.open_property(
                     "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}",
                     // I can not find spec about this id.
-- 
2.43.0


From 3fd22f3693bae1f3120840f445a8885752314eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 29/46] fix: keep resolved comments resolved when the document
 is written

---
 docx-core/src/documents/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 3f39b19..10e5691 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1195,6 +1195,14 @@ impl Docx {
             self.document_rels.has_comments = true;
         }
 
+        // the threads are those of the document; resolved ones stay resolved
+        for extended in &mut comments_extended {
+            extended.done = self
+                .comments_extended
+                .children
+                .iter()
+                .any(|other| other.done && other.paragraph_id == extended.paragraph_id);
+        }
         self.comments_extended
             .add_comments_extended(comments_extended);
 
-- 
2.43.0


From 631a5ee8cf12aef91e1b28a8ad935df57de5e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 30/46] fix: escape the authors of changes only when they are
 written

---
 docx-core/src/documents/elements/delete.rs                    | 4 ++--
 docx-core/src/documents/elements/insert.rs                    | 4 ++--
 docx-core/src/documents/elements/move_from.rs                 | 4 ++--
 docx-core/src/documents/elements/move_to.rs                   | 4 ++--
 docx-core/src/documents/elements/paragraph_property_change.rs | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/docx-core/src/documents/elements/delete.rs b/docx-core/src/documents/elements/delete.rs
index 7af45c5..e51a353 100644
--- a/docx-core/src/documents/elements/delete.rs
+++ b/docx-core/src/documents/elements/delete.rs
@@ -85,7 +85,7 @@ impl Delete {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Delete {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
@@ -104,7 +104,7 @@ impl BuildXML for Delete {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_delete(id.as_ref(), &self.author, &escape::escape(&self.date))?
+            .open_delete(id.as_ref(), &escape::escape(&self.author), &escape::escape(&self.date))?
             .apply_each(&self.children, |ch, b| match ch {
                 DeleteChild::Run(t) => b.add_child(&**t),
                 DeleteChild::CommentStart(c) => b.add_child(&c),
diff --git a/docx-core/src/documents/elements/insert.rs b/docx-core/src/documents/elements/insert.rs
index feb0306..c3e7372 100644
--- a/docx-core/src/documents/elements/insert.rs
+++ b/docx-core/src/documents/elements/insert.rs
@@ -131,7 +131,7 @@ impl Insert {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Insert {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
@@ -150,7 +150,7 @@ impl BuildXML for Insert {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_insert(id.as_ref(), &self.author, &escape::escape(&self.date))?
+            .open_insert(id.as_ref(), &escape::escape(&self.author), &escape::escape(&self.date))?
             .add_children(&self.children)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/move_from.rs b/docx-core/src/documents/elements/move_from.rs
index 665c2c9..b21977a 100644
--- a/docx-core/src/documents/elements/move_from.rs
+++ b/docx-core/src/documents/elements/move_from.rs
@@ -84,7 +84,7 @@ impl MoveFrom {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> MoveFrom {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
@@ -103,7 +103,7 @@ impl BuildXML for MoveFrom {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_move_from(id.as_ref(), &self.author, &escape::escape(&self.date))?
+            .open_move_from(id.as_ref(), &escape::escape(&self.author), &escape::escape(&self.date))?
             .apply_each(&self.children, |ch, b| match ch {
                 MoveFromChild::Run(t) => b.add_child(&**t),
                 MoveFromChild::CommentStart(c) => b.add_child(&**c),
diff --git a/docx-core/src/documents/elements/move_to.rs b/docx-core/src/documents/elements/move_to.rs
index e09a02d..6550c6b 100644
--- a/docx-core/src/documents/elements/move_to.rs
+++ b/docx-core/src/documents/elements/move_to.rs
@@ -124,7 +124,7 @@ impl MoveTo {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> MoveTo {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
@@ -143,7 +143,7 @@ impl BuildXML for MoveTo {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_move_to(id.as_ref(), &self.author, &escape::escape(&self.date))?
+            .open_move_to(id.as_ref(), &escape::escape(&self.author), &escape::escape(&self.date))?
             .add_children(&self.children)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/paragraph_property_change.rs b/docx-core/src/documents/elements/paragraph_property_change.rs
index 660d332..f740329 100644
--- a/docx-core/src/documents/elements/paragraph_property_change.rs
+++ b/docx-core/src/documents/elements/paragraph_property_change.rs
@@ -36,7 +36,7 @@ impl ParagraphPropertyChange {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> ParagraphPropertyChange {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
@@ -55,7 +55,7 @@ impl BuildXML for ParagraphPropertyChange {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let id = self.generate();
         XMLBuilder::from(stream)
-            .open_paragraph_property_change(id.as_ref(), &self.author, &escape::escape(&self.date))?
+            .open_paragraph_property_change(id.as_ref(), &escape::escape(&self.author), &escape::escape(&self.date))?
             .add_child(&self.property)?
             .close()?
             .into_inner()
-- 
2.43.0


From 3f8ae44b561ac24ac66f21dcdfe01b5ce1943b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 31/46] fix: end the field of a table of contents that is
 followed by a table

---
 docx-core/src/documents/elements/table_of_contents.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index b821801..f01b285 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -4,7 +4,7 @@ use std::io::Write;
 
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
+use crate::documents::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum TocContent {
@@ -105,7 +105,7 @@ impl TableOfContents {
 
     pub fn delete(mut self, author: impl Into<String>, date: impl Into<String>) -> Self {
         self.delete = Some(TableOfContentsReviewData {
-            author: escape::escape_owned(author.into()),
+            author: author.into(),
             date: date.into(),
         });
         self
@@ -244,9 +244,7 @@ impl BuildXML for TableOfContents {
                             // insert empty line for table
                             // because it causes docx error if table is added after TOC
                             if i == 0 {
-                                b = b.add_child(
-                                    &Paragraph::new().add_run(Run::new().add_text("")),
-                                )?;
+                                b = b.add_child(&p2)?;
                             }
                             b = b.add_child(&t)?;
                         }
-- 
2.43.0


From de5d2f7e277364a3b7c0f45c04fb5bfdb5f23f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 32/46] fix: show tabs and breaks of moved text in the raw text

---
 docx-core/src/documents/elements/paragraph.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index 2787038..08d32e8 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -451,8 +451,17 @@ impl Paragraph {
                     for c in mt.children.iter() {
                         if let MoveToChild::Run(r) = c {
                             for c in r.children.iter() {
-                                if let RunChild::Text(t) = c {
-                                    s.push_str(&t.text);
+                                match c {
+                                    RunChild::Text(t) => {
+                                        s.push_str(&t.text);
+                                    }
+                                    RunChild::Tab(_) | RunChild::PTab(_) => {
+                                        s.push('\t');
+                                    }
+                                    RunChild::Break(_) | RunChild::CarriageReturn(_) => {
+                                        s.push('\n');
+                                    }
+                                    _ => {}
                                 }
                             }
                         }
-- 
2.43.0


From 6ae9a015e4967602c8475f68657eb39de2a67cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 33/46] fix: read quoted and missing arguments of the table of
 contents switches

---
 docx-core/src/documents/elements/instr_toc.rs | 64 +++++++++++--------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index 93655ec..8141580 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -280,91 +280,105 @@ fn parse_level_range(i: &str) -> Option<(usize, usize)> {
     None
 }
 
+/// Splits an instruction into its switches and arguments. An argument in quotes may contain spaces.
+fn split_instr(instr: &str) -> Vec<String> {
+    let mut tokens = vec![];
+    let mut token = String::new();
+    let mut quoted = false;
+    for c in instr.replace("&quot;", "\"").chars() {
+        if c == ' ' && !quoted {
+            tokens.push(std::mem::take(&mut token));
+            continue;
+        }
+        quoted ^= c == '"';
+        token.push(c);
+    }
+    tokens.push(token);
+    tokens.retain(|t| !t.is_empty());
+    tokens
+}
+
+fn is_argument(token: &&str) -> bool {
+    !token.starts_with('\\')
+}
+
 impl std::str::FromStr for InstrToC {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ').peekable();
+        let instr = split_instr(instr);
+        let mut s = instr.iter().map(|i| i.as_str()).peekable();
         let mut toc = InstrToC::new();
         loop {
             if let Some(i) = s.next() {
                 match i {
                     "\\a" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.caption_label(r);
                         }
                     }
                     "\\b" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.entry_bookmark_name(r);
                         }
                     }
                     "\\c" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.caption_label_including_numbers(r);
                         }
                     }
                     "\\d" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.sequence_and_page_numbers_separator(r);
                         }
                     }
                     "\\f" => {
-                        if let Some(n) = s.peek() {
-                            if !n.starts_with("\\") {
-                                if let Some(r) = s.next() {
-                                    let r = r.replace("&quot;", "").replace('\"', "");
-                                    if r.is_empty() {
-                                        toc = toc.tc_field_identifier(None);
-                                    } else {
-                                        toc = toc.tc_field_identifier(Some(r));
-                                    }
-                                }
-                            } else {
-                                toc = toc.tc_field_identifier(None);
-                            }
-                        }
+                        let r = s
+                            .next_if(is_argument)
+                            .map(|r| r.replace('\"', ""))
+                            .filter(|r| !r.is_empty());
+                        toc = toc.tc_field_identifier(r);
                     }
                     "\\h" => toc = toc.hyperlink(),
                     "\\l" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.tc_field_level_range(s, e);
                             }
                         }
                     }
                     "\\n" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.omit_page_numbers_level_range(s, e);
                             }
                         }
                     }
                     "\\o" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.heading_styles_range(s, e);
                             }
                         }
                     }
                     "\\p" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.entry_and_page_number_separator(r);
                         }
                     }
                     "\\s" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.seq_field_identifier_for_prefix(r);
                         }
                     }
                     "\\t" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(is_argument) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             let mut r = r.split(',');
                             loop {
-- 
2.43.0


From 0813acb88271825313da2b1fc711c3eea4f27e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 34/46] fix: use bookmark ids and names once when a table of
 contents is generated

---
 docx-core/src/documents/mod.rs | 118 +++++++++++++++++++++++++++++++--
 1 file changed, 114 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 10e5691..9ebdf4c 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -2394,6 +2394,105 @@ fn push_comment_once(
     }
 }
 
+/// Generates a value which the document does not use yet.
+fn unused<T: Eq + std::hash::Hash>(generate: impl Fn() -> T, used: &HashSet<T>) -> T {
+    loop {
+        let value = generate();
+        // generated values are constant in unit tests
+        if cfg!(test) || !used.contains(&value) {
+            return value;
+        }
+    }
+}
+
+fn collect_bookmarks_in_document_child<'a>(
+    child: &'a DocumentChild,
+    bookmarks: &mut Vec<&'a BookmarkStart>,
+) {
+    match child {
+        DocumentChild::Paragraph(paragraph) => {
+            collect_bookmarks_in_paragraph(&paragraph.children, bookmarks)
+        }
+        DocumentChild::Table(table) => collect_bookmarks_in_table(table, bookmarks),
+        DocumentChild::BookmarkStart(b) => bookmarks.push(b),
+        DocumentChild::StructuredDataTag(tag) => {
+            collect_bookmarks_in_structured_data_tag(tag, bookmarks)
+        }
+        DocumentChild::Section(section) => {
+            for child in &section.children {
+                match child {
+                    SectionChild::Paragraph(paragraph) => {
+                        collect_bookmarks_in_paragraph(&paragraph.children, bookmarks)
+                    }
+                    SectionChild::Table(table) => collect_bookmarks_in_table(table, bookmarks),
+                    SectionChild::BookmarkStart(b) => bookmarks.push(b),
+                    SectionChild::StructuredDataTag(tag) => {
+                        collect_bookmarks_in_structured_data_tag(tag, bookmarks)
+                    }
+                    _ => {}
+                }
+            }
+        }
+        _ => {}
+    }
+}
+
+fn collect_bookmarks_in_table<'a>(table: &'a Table, bookmarks: &mut Vec<&'a BookmarkStart>) {
+    for TableChild::TableRow(row) in &table.rows {
+        for TableRowChild::TableCell(cell) in &row.cells {
+            for content in &cell.children {
+                match content {
+                    TableCellContent::Paragraph(paragraph) => {
+                        collect_bookmarks_in_paragraph(&paragraph.children, bookmarks)
+                    }
+                    TableCellContent::Table(table) => collect_bookmarks_in_table(table, bookmarks),
+                    TableCellContent::StructuredDataTag(tag) => {
+                        collect_bookmarks_in_structured_data_tag(tag, bookmarks)
+                    }
+                    _ => {}
+                }
+            }
+        }
+    }
+}
+
+fn collect_bookmarks_in_structured_data_tag<'a>(
+    tag: &'a StructuredDataTag,
+    bookmarks: &mut Vec<&'a BookmarkStart>,
+) {
+    for child in &tag.children {
+        match child {
+            StructuredDataTagChild::Paragraph(paragraph) => {
+                collect_bookmarks_in_paragraph(&paragraph.children, bookmarks)
+            }
+            StructuredDataTagChild::Table(table) => collect_bookmarks_in_table(table, bookmarks),
+            StructuredDataTagChild::BookmarkStart(b) => bookmarks.push(b),
+            StructuredDataTagChild::StructuredDataTag(tag) => {
+                collect_bookmarks_in_structured_data_tag(tag, bookmarks)
+            }
+            _ => {}
+        }
+    }
+}
+
+fn collect_bookmarks_in_paragraph<'a>(
+    children: &'a [ParagraphChild],
+    bookmarks: &mut Vec<&'a BookmarkStart>,
+) {
+    for child in children {
+        match child {
+            ParagraphChild::BookmarkStart(b) => bookmarks.push(b),
+            ParagraphChild::Hyperlink(link) => {
+                collect_bookmarks_in_paragraph(&link.children, bookmarks)
+            }
+            ParagraphChild::StructuredDataTag(tag) => {
+                collect_bookmarks_in_structured_data_tag(tag, bookmarks)
+            }
+            _ => {}
+        }
+    }
+}
+
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
@@ -2416,6 +2515,15 @@ fn update_document_by_toc(
 
     let (min, max) = toc.instr.heading_styles_range.unwrap_or((0, 9));
 
+    let mut bookmarks = vec![];
+    for child in &document_children {
+        collect_bookmarks_in_document_child(child, &mut bookmarks);
+    }
+    let (ids, names): (HashSet<usize>, HashSet<String>) = bookmarks
+        .into_iter()
+        .map(|b| (b.id, b.name.clone()))
+        .unzip();
+
     {
         let style_map: std::collections::HashMap<&str, usize> = toc
             .instr
@@ -2437,14 +2545,15 @@ fn update_document_by_toc(
                     .copied();
                 if let Some(heading_level) = heading_level {
                     if min <= heading_level && max >= heading_level {
-                        let toc_key = TocKey::generate();
+                        let toc_key = unused(TocKey::generate, &names);
                         items.push(
                             TableOfContentsItem::new()
                                 .text(paragraph.raw_text())
                                 .toc_key(&toc_key)
                                 .level(heading_level),
                         );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+                        paragraph
+                            .wrap_by_bookmark(unused(generate_bookmark_id, &ids), &toc_key);
                     }
 
                     if let Some((_min, _max)) = toc.instr.tc_field_level_range {
@@ -2461,14 +2570,15 @@ fn update_document_by_toc(
                     .copied();
                 if let Some(level) = custom_level {
                     if min <= level && max >= level {
-                        let toc_key = TocKey::generate();
+                        let toc_key = unused(TocKey::generate, &names);
                         items.push(
                             TableOfContentsItem::new()
                                 .text(paragraph.raw_text())
                                 .toc_key(&toc_key)
                                 .level(level),
                         );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+                        paragraph
+                            .wrap_by_bookmark(unused(generate_bookmark_id, &ids), &toc_key);
                     }
                 }
             }
-- 
2.43.0


From 59f879a9bb33ff67cedf8121e61d84554f4b8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:54 +0000
Subject: [PATCH 35/46] fix: read alignment, rotation and margins of pictures
 as they are written

---
 docx-core/src/reader/drawing.rs           | 36 +++++++++++++----------
 docx-core/src/reader/pic.rs               | 10 +++++++
 docx-core/src/types/drawing_position.rs   | 17 +++++++++++
 docx-core/src/types/relative_from_type.rs |  6 ++--
 4 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/docx-core/src/reader/drawing.rs b/docx-core/src/reader/drawing.rs
index 19e880d..3e3419e 100644
--- a/docx-core/src/reader/drawing.rs
+++ b/docx-core/src/reader/drawing.rs
@@ -11,8 +11,8 @@ use super::*;
 fn read_position_h<R: Read>(
     r: &mut EventReader<R>,
     attrs: &[OwnedAttribute],
-) -> Result<(RelativeFromHType, i32), ReaderError> {
-    let mut offset: i32 = 0;
+) -> Result<(RelativeFromHType, DrawingPosition), ReaderError> {
+    let mut position = DrawingPosition::Offset(0);
     let mut relative_from_h = RelativeFromHType::default();
 
     loop {
@@ -25,13 +25,15 @@ fn read_position_h<R: Read>(
         match e {
             Ok(XmlEvent::Characters(c)) => {
                 if let Ok(p) = f64::from_str(&c) {
-                    offset = p as i32;
+                    position = DrawingPosition::Offset(p as i32);
+                } else if let Ok(a) = PicAlign::from_str(c.trim()) {
+                    position = DrawingPosition::Align(a);
                 }
             }
             Ok(XmlEvent::EndElement { name, .. }) => {
                 let e = WpXMLElement::from_str(&name.local_name).unwrap();
                 if e == WpXMLElement::PositionH {
-                    return Ok((relative_from_h, offset));
+                    return Ok((relative_from_h, position));
                 }
             }
             Err(_) => return Err(ReaderError::XMLReadError),
@@ -43,8 +45,8 @@ fn read_position_h<R: Read>(
 fn read_position_v<R: Read>(
     r: &mut EventReader<R>,
     attrs: &[OwnedAttribute],
-) -> Result<(RelativeFromVType, i32), ReaderError> {
-    let mut offset: i32 = 0;
+) -> Result<(RelativeFromVType, DrawingPosition), ReaderError> {
+    let mut position = DrawingPosition::Offset(0);
     let mut relative_from_v = RelativeFromVType::default();
     loop {
         if let Some(v) = read(attrs, "relativeFrom") {
@@ -57,13 +59,15 @@ fn read_position_v<R: Read>(
         match e {
             Ok(XmlEvent::Characters(c)) => {
                 if let Ok(p) = f64::from_str(&c) {
-                    offset = p as i32;
+                    position = DrawingPosition::Offset(p as i32);
+                } else if let Ok(a) = PicAlign::from_str(c.trim()) {
+                    position = DrawingPosition::Align(a);
                 }
             }
             Ok(XmlEvent::EndElement { name, .. }) => {
                 let e = WpXMLElement::from_str(&name.local_name).unwrap();
                 if e == WpXMLElement::PositionV {
-                    return Ok((relative_from_v, offset));
+                    return Ok((relative_from_v, position));
                 }
             }
             Err(_) => return Err(ReaderError::XMLReadError),
@@ -123,8 +127,8 @@ impl ElementReader for Drawing {
         let mut simple_pos_y = 0;
         let mut layout_in_cell = true;
         let mut relative_height = 0;
-        let mut position_h = 0;
-        let mut position_v = 0;
+        let mut position_h = DrawingPosition::Offset(0);
+        let mut position_v = DrawingPosition::Offset(0);
         let mut relative_from_h = RelativeFromHType::default();
         let mut relative_from_v = RelativeFromVType::default();
         let mut allow_overlap = true;
@@ -204,8 +208,8 @@ impl ElementReader for Drawing {
                                     }
                                 }
                                 if let Some(d) = read(&attributes, "distR") {
-                                    if let Ok(d) = i32::from_str(&d) {
-                                        dist_r = d;
+                                    if let Ok(d) = f64::from_str(&d) {
+                                        dist_r = d as i32;
                                     }
                                 }
                             }
@@ -253,8 +257,8 @@ impl ElementReader for Drawing {
                             pic.dist_r = dist_r;
                             pic.relative_from_h = relative_from_h;
                             pic.relative_from_v = relative_from_v;
-                            pic.position_v = DrawingPosition::Offset(position_v);
-                            pic.position_h = DrawingPosition::Offset(position_h);
+                            pic.position_v = position_v;
+                            pic.position_h = position_h;
                             drawing = drawing.pic(pic);
                         }
                     }
@@ -277,8 +281,8 @@ impl ElementReader for Drawing {
                             text_box.dist_r = dist_r;
                             text_box.relative_from_h = relative_from_h;
                             text_box.relative_from_v = relative_from_v;
-                            text_box.position_v = DrawingPosition::Offset(position_v);
-                            text_box.position_h = DrawingPosition::Offset(position_h);
+                            text_box.position_v = position_v;
+                            text_box.position_h = position_h;
                             text_box.children = children;
                             drawing = drawing.text_box(text_box);
                         }
diff --git a/docx-core/src/reader/pic.rs b/docx-core/src/reader/pic.rs
index 0cbfba8..3b12f02 100644
--- a/docx-core/src/reader/pic.rs
+++ b/docx-core/src/reader/pic.rs
@@ -24,6 +24,16 @@ impl ElementReader for Pic {
                                     pic = pic.id(id)
                                 }
                             }
+                            AXMLElement::Xfrm => {
+                                if let Some(rot) = read(&attributes, "rot") {
+                                    // unit is 1/60000 deg
+                                    if let Ok(rot) = i32::from_str(&rot) {
+                                        let deg = rot / 60000;
+                                        let deg = if deg < 0 { deg % 360 + 360 } else { deg };
+                                        pic = pic.rotate((deg % (u16::MAX as i32 + 1)) as u16);
+                                    }
+                                }
+                            }
                             AXMLElement::Off => {
                                 let mut offset_x: i32 = 0;
                                 let mut offset_y: i32 = 0;
diff --git a/docx-core/src/types/drawing_position.rs b/docx-core/src/types/drawing_position.rs
index 1eda236..b7ea6f7 100644
--- a/docx-core/src/types/drawing_position.rs
+++ b/docx-core/src/types/drawing_position.rs
@@ -1,5 +1,8 @@
 use serde::Serialize;
 use std::fmt;
+use std::str::FromStr;
+
+use super::errors;
 
 #[cfg(feature = "wasm")]
 use wasm_bindgen::prelude::*;
@@ -39,6 +42,20 @@ impl fmt::Display for PicAlign {
     }
 }
 
+impl FromStr for PicAlign {
+    type Err = errors::TypeError;
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        match s {
+            "left" => Ok(PicAlign::Left),
+            "right" => Ok(PicAlign::Right),
+            "center" => Ok(PicAlign::Center),
+            "bottom" => Ok(PicAlign::Bottom),
+            "top" => Ok(PicAlign::Top),
+            _ => Err(errors::TypeError::Unsupported(s.to_string())),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Copy, Serialize, PartialEq)]
 #[cfg_attr(feature = "wasm", derive(ts_rs::TS))]
 #[cfg_attr(feature = "wasm", ts(export))]
diff --git a/docx-core/src/types/relative_from_type.rs b/docx-core/src/types/relative_from_type.rs
index e877993..7b3e8fc 100644
--- a/docx-core/src/types/relative_from_type.rs
+++ b/docx-core/src/types/relative_from_type.rs
@@ -53,7 +53,7 @@ impl fmt::Display for RelativeFromHType {
             RelativeFromHType::InsideMargin => write!(f, "insideMargin"),
             RelativeFromHType::LeftMargin => write!(f, "leftMargin"),
             RelativeFromHType::Margin => write!(f, "margin"),
-            RelativeFromHType::OutsizeMargin => write!(f, "outsizeMargin"),
+            RelativeFromHType::OutsizeMargin => write!(f, "outsideMargin"),
             RelativeFromHType::Page => write!(f, "page"),
             RelativeFromHType::RightMargin => write!(f, "rightMargin"),
         }
@@ -69,7 +69,7 @@ impl FromStr for RelativeFromHType {
             "insideMargin" => Ok(RelativeFromHType::InsideMargin),
             "leftMargin" => Ok(RelativeFromHType::LeftMargin),
             "margin" => Ok(RelativeFromHType::Margin),
-            "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
             "page" => Ok(RelativeFromHType::Page),
             "rightMargin" => Ok(RelativeFromHType::RightMargin),
             _ => Ok(RelativeFromHType::Margin),
@@ -117,7 +117,7 @@ impl FromStr for RelativeFromVType {
             "insideMargin" => Ok(RelativeFromVType::InsideMargin),
             "line" => Ok(RelativeFromVType::Line),
             "margin" => Ok(RelativeFromVType::Margin),
-            "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
             "page" => Ok(RelativeFromVType::Page),
             "paragraph" => Ok(RelativeFromVType::Paragraph),
             "topMargin" => Ok(RelativeFromVType::TopMargin),
-- 
2.43.0


From 35ef60e4ba2c8da6085eeefbef0849b102a85ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:29 +0000
Subject: [PATCH 36/46] fix: escape the text direction of sections when written

---
 docx-core/src/documents/elements/section_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index 300f75b..0ddb940 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -277,7 +277,7 @@ impl BuildXML for SectionProperty {
             .add_optional_child(&self.even_footer_reference)?
             .add_optional_child(&self.page_num_type)?
             .apply_if(self.text_direction != "lrTb", |b| {
-                b.text_direction(&self.text_direction)
+                b.text_direction(&crate::escape::escape(&self.text_direction))
             })?
             .apply_opt(self.section_type, |t, b| b.type_tag(&t.to_string()))?
             .apply_if(self.title_pg, |b| b.title_pg())?
-- 
2.43.0


From 99b6273d90020e430ce74dc4b40a49fab5c29519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:34 +0000
Subject: [PATCH 37/46] fix: read text with CDATA, comments and instructions
 inside as one piece

---
 docx-core/src/reader/xml_parser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index db3c9fb..91b0eec 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -128,7 +128,7 @@ impl<R: Read> EventReader<R> {
                 }
                 Event::CData(text) => {
                     let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    return Ok(XmlEvent::Characters(decoded));
+                    return self.read_text_event(decoded);
                 }
                 Event::Eof => {
                     self.finished = true;
@@ -176,10 +176,8 @@ impl<R: Read> EventReader<R> {
                     self.pending.push_back(XmlEvent::EndElement { name });
                     break;
                 }
-                Event::CData(text) => {
-                    let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    self.pending.push_back(XmlEvent::Characters(decoded));
-                    break;
+                Event::CData(next_text) => {
+                    text.push_str(&self.reader.decoder().decode(next_text.as_ref())?);
                 }
                 Event::Eof => {
                     self.finished = true;
@@ -187,7 +185,7 @@ impl<R: Read> EventReader<R> {
                     break;
                 }
                 Event::Decl(_) | Event::PI(_) | Event::Comment(_) | Event::DocType(_) => {
-                    break;
+                    // The text goes on behind non-structural events
                 }
             }
         }
-- 
2.43.0


From 743812c16418a3538be5d0444a397fa215521ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:34 +0000
Subject: [PATCH 38/46] fix: do not take declared prefixes for attributes

---
 docx-core/src/reader/xml_parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 91b0eec..c624bd6 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -297,7 +297,17 @@ fn build_attributes(
         let value = attr
             .decoded_and_normalized_value(XmlVersion::Implicit1_0, decoder)?
             .into_owned();
-        let name = split_qname(attr.key.as_ref());
+        let key = attr.key.as_ref();
+        // A declared prefix must not be taken for an attribute of that name.
+        let name = if key.starts_with(b"xmlns:") {
+            OwnedName {
+                local_name: String::from_utf8_lossy(key).into_owned(),
+                namespace: None,
+                prefix: None,
+            }
+        } else {
+            split_qname(key)
+        };
         attributes.push(OwnedAttribute { name, value });
     }
     Ok(attributes)
-- 
2.43.0


From ada4fee1bf75ea4b0d6ec9d30fc31c7024a66425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:34 +0000
Subject: [PATCH 39/46] fix: honour switches that are present but off when
 reading

---
 docx-core/src/reader/level.rs        |  4 +++-
 docx-core/src/reader/run_property.rs | 12 ++++++++++--
 docx-core/src/reader/settings.rs     |  4 +++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index e670c9f..3ec28cb 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -66,7 +66,9 @@ impl ElementReader for Level {
                             }
                         }
                         XMLElement::IsLgl => {
-                            is_lgl = Some(IsLgl::new());
+                            if read_bool(&attributes) {
+                                is_lgl = Some(IsLgl::new());
+                            }
                         }
                         XMLElement::LevelText => {
                             if let Some(v) = read_val(&attributes) {
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index d49883f..aefdde8 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -177,8 +177,16 @@ impl ElementReader for RunProperty {
                                 rp = rp.shading(shd);
                             }
                         }
-                        XMLElement::Vanish => rp = rp.vanish(),
-                        XMLElement::SpecVanish => rp = rp.spec_vanish(),
+                        XMLElement::Vanish => {
+                            if read_bool(&attributes) {
+                                rp = rp.vanish();
+                            }
+                        }
+                        XMLElement::SpecVanish => {
+                            if read_bool(&attributes) {
+                                rp = rp.spec_vanish();
+                            }
+                        }
                         XMLElement::TextBorder => {
                             if let Ok(attr) = read_border(&attributes) {
                                 let mut border = TextBorder::new()
diff --git a/docx-core/src/reader/settings.rs b/docx-core/src/reader/settings.rs
index 0606d1d..a00b733 100644
--- a/docx-core/src/reader/settings.rs
+++ b/docx-core/src/reader/settings.rs
@@ -53,7 +53,9 @@ impl FromXML for Settings {
                             }
                         }
                         XMLElement::AdjustLineHeightInTable => {
-                            settings = settings.adjust_line_height_in_table();
+                            if attributes::read_bool(&attributes) {
+                                settings = settings.adjust_line_height_in_table();
+                            }
                         }
                         XMLElement::CharacterSpacingControl => {
                             let val = read_val(&attributes);
-- 
2.43.0


From 2f5baae8ccaed04c47793c3fe283864f356325e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:45 +0000
Subject: [PATCH 40/46] fix: read percentages as such and decimal cell widths

---
 docx-core/src/reader/attributes/width.rs    |  7 +++++--
 docx-core/src/reader/table_cell_property.rs | 13 ++-----------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index b33f87f..890b052 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -14,8 +14,11 @@ pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), Reader
         if local_name == "type" {
             width_type = WidthType::from_str(&a.value)?;
         } else if local_name == "w" {
-            let v = a.value.replace('%', "");
-            w = f64::from_str(&v)? as isize;
+            w = match a.value.strip_suffix('%') {
+                // fiftieths of a percent
+                Some(v) => (f64::from_str(v)? * 50.0) as isize,
+                None => f64::from_str(&a.value)? as isize,
+            };
         }
     }
     Ok((w, width_type))
diff --git a/docx-core/src/reader/table_cell_property.rs b/docx-core/src/reader/table_cell_property.rs
index 8aa7218..9284faa 100644
--- a/docx-core/src/reader/table_cell_property.rs
+++ b/docx-core/src/reader/table_cell_property.rs
@@ -18,17 +18,8 @@ impl ElementReader for TableCellProperty {
 
                     match e {
                         XMLElement::TableCellWidth => {
-                            let mut w = 0;
-                            let mut width_type = WidthType::Auto;
-                            for a in attributes {
-                                let local_name = &a.name.local_name;
-                                if local_name == "type" {
-                                    width_type = WidthType::from_str(&a.value)?;
-                                } else if local_name == "w" {
-                                    w = usize::from_str(&a.value)?;
-                                }
-                            }
-                            property = property.width(w, width_type);
+                            let (w, width_type) = read_width(&attributes)?;
+                            property = property.width(w.max(0) as usize, width_type);
                         }
                         XMLElement::TableGridSpan => {
                             if let Some(a) = attributes.first() {
-- 
2.43.0


From 665892897b42504f7c9c7a029cfe5d2f5ed67f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:45 +0000
Subject: [PATCH 41/46] fix: read values from their own attribute, not from the
 first one

---
 docx-core/src/reader/attributes/bool_value.rs |  6 +-----
 docx-core/src/reader/run.rs                   |  4 ++--
 docx-core/src/reader/table_cell_property.rs   | 16 ++++++++--------
 3 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/docx-core/src/reader/attributes/bool_value.rs b/docx-core/src/reader/attributes/bool_value.rs
index d095441..184a94e 100644
--- a/docx-core/src/reader/attributes/bool_value.rs
+++ b/docx-core/src/reader/attributes/bool_value.rs
@@ -5,11 +5,7 @@ pub fn is_false(v: &str) -> bool {
 }
 
 pub fn read_bool(attrs: &[OwnedAttribute]) -> bool {
-    if let Some(v) = attrs
-        .iter()
-        .find(|attr| attr.name.local_name == "val")
-        .or_else(|| attrs.first())
-    {
+    if let Some(v) = attrs.iter().find(|attr| attr.name.local_name == "val") {
         return !is_false(&v.value);
     }
     true
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 0c6409c..ddd3d87 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -87,8 +87,8 @@ impl ElementReader for Run {
                                 XMLElement::Text => text_state = TextState::Text,
                                 XMLElement::DeleteText => text_state = TextState::Delete,
                                 XMLElement::Break => {
-                                    if let Some(a) = attributes.first() {
-                                        run = run.add_break(BreakType::from_str(&a.value)?)
+                                    if let Some(v) = read(&attributes, "type") {
+                                        run = run.add_break(BreakType::from_str(&v)?)
                                     } else {
                                         run = run.add_break(BreakType::TextWrapping)
                                     }
diff --git a/docx-core/src/reader/table_cell_property.rs b/docx-core/src/reader/table_cell_property.rs
index 9284faa..bf89fd0 100644
--- a/docx-core/src/reader/table_cell_property.rs
+++ b/docx-core/src/reader/table_cell_property.rs
@@ -22,21 +22,21 @@ impl ElementReader for TableCellProperty {
                             property = property.width(w.max(0) as usize, width_type);
                         }
                         XMLElement::TableGridSpan => {
-                            if let Some(a) = attributes.first() {
-                                property = property.grid_span(usize::from_str(&a.value)?)
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.grid_span(usize::from_str(&v)?)
                             }
                         }
                         XMLElement::TableVMerge => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_merge(VMergeType::from_str(&a.value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.vertical_merge(VMergeType::from_str(&v)?);
                             } else {
                                 // Treat as a continue without attribute
                                 property = property.vertical_merge(VMergeType::Continue)
                             }
                         }
                         XMLElement::VAlign => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_align(VAlignType::from_str(&a.value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.vertical_align(VAlignType::from_str(&v)?);
                             }
                         }
                         XMLElement::Shading => {
@@ -45,8 +45,8 @@ impl ElementReader for TableCellProperty {
                             }
                         }
                         XMLElement::TextDirection => {
-                            if let Some(a) = attributes.first() {
-                                if let Ok(v) = TextDirectionType::from_str(&a.value) {
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TextDirectionType::from_str(&v) {
                                     property = property.text_direction(v);
                                 }
                             }
-- 
2.43.0


From ca7a99d2330eaa3666e0e03760b35a1fdf4b6b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:55 +0000
Subject: [PATCH 42/46] fix: find headers, footers, comments, settings and
 custom properties of flat packages

---
 docx-core/src/reader/read_xml.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 8bb9871..3f91c7c 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -12,7 +12,7 @@ fn read_headers_from_xml(
     // Find all header relationships by looking for header types in rels
     for (rel_type, id, target) in &rels.rels {
         if rel_type == HEADER_TYPE {
-            let header_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
+            let header_path = format!("{}{}", document_path.replace("document.xml", ""), target);
 
             if let Some(header_data) = part_map.get(&header_path) {
                 if let Ok(header) = Header::from_xml(header_data.as_bytes()) {
@@ -38,7 +38,7 @@ fn read_footers_from_xml(
     // Find all footer relationships by looking for footer types in rels
     for (rel_type, id, target) in &rels.rels {
         if rel_type == FOOTER_TYPE {
-            let footer_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
+            let footer_path = format!("{}{}", document_path.replace("document.xml", ""), target);
 
             if let Some(footer_data) = part_map.get(&footer_path) {
                 if let Ok(footer) = Footer::from_xml(footer_data.as_bytes()) {
@@ -61,7 +61,7 @@ fn read_comments_from_xml(
 ) -> (Comments, CommentsExtended) {
     // Simplified implementation for XML packages - try to read comments if available
     let comments_extended = if let Some((_, _, target)) = rels.find_target(COMMENTS_EXTENDED_TYPE) {
-        let ext_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
+        let ext_path = format!("{}{}", document_path.replace("document.xml", ""), target);
         if let Some(comments_ext_data) = part_map.get(&ext_path) {
             CommentsExtended::from_xml(comments_ext_data.as_bytes()).unwrap_or_default()
         } else {
@@ -73,7 +73,7 @@ fn read_comments_from_xml(
 
     // Read comments
     let comments = if let Some((_, _, target)) = rels.find_target(COMMENTS_TYPE) {
-        let comm_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
+        let comm_path = format!("{}{}", document_path.replace("document.xml", ""), target);
         if let Some(comments_data) = part_map.get(&comm_path) {
             if let Ok(comments) = Comments::from_xml(comments_data.as_bytes()) {
                 // Process extended comments relationships
@@ -333,7 +333,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
     // Create a HashMap for easy lookup of parts by name
     let mut part_map: HashMap<String, String> = HashMap::new();
     for part in parts {
-        part_map.insert(part.name, part.data);
+        part_map.insert(part.name.trim_start_matches('/').to_owned(), part.data);
     }
 
     // Read content types (not strictly necessary for XML format, but helps with compatibility)
@@ -358,7 +358,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
         .ok_or(ReaderError::DocumentNotFoundError);
 
     let document_path = if let Ok(rel) = main_rel {
-        rel.2.clone()
+        rel.2.trim_start_matches('/').to_owned()
     } else {
         "word/document.xml".to_owned()
     };
-- 
2.43.0


From 6bac213f5c3157be02da983c9ddf8a4bf8903d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:55 +0000
Subject: [PATCH 43/46] fix: read all links of flat packages, under their own
 ids

---
 docx-core/src/reader/read_xml.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 3f91c7c..d5a0dc4 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -630,9 +630,11 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
     }
 
     // Read and add hyperlinks - simplified for XML packages
-    if let Some((id, _, target)) = document_rels.find_target(HYPERLINK_TYPE) {
+    for (rel_type, id, target) in &document_rels.rels {
         // For XML packages, we'll add the hyperlink with a default mode
-        docx = docx.add_hyperlink(id, target, "External".to_string());
+        if rel_type == HYPERLINK_TYPE {
+            docx = docx.add_hyperlink(id, target, "External".to_string());
+        }
     }
 
     Ok(docx)
-- 
2.43.0


From 4f2f50665a96179830adaba55bae74ab319bb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:55 +0000
Subject: [PATCH 44/46] fix: keep the first character of doubly quoted part
 names in flat packages

---
 docx-core/src/reader/read_xml.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index d5a0dc4..7e6f272 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -228,7 +228,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             // Extract name attribute (handle both standard and double-quoted patterns)
             let name = if let Some(name_start) = part_xml.find("pkg:name=\"\"") {
                 // Handle double-quoted pattern: pkg:name=""value""
-                let name_start = name_start + 12; // 12 = "pkg:name=\"\"".len()
+                let name_start = name_start + 11; // 11 = "pkg:name=\"\"".len()
                 if let Some(name_end) = part_xml[name_start..].find("\"\"") {
                     decode_html_entities(&part_xml[name_start..name_start + name_end])
                 } else {
@@ -255,7 +255,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             // Extract contentType attribute (handle both standard and double-quoted patterns)
             let content_type = if let Some(type_start) = part_xml.find("pkg:contentType=\"\"") {
                 // Handle double-quoted pattern: pkg:contentType=""value""
-                let type_start = type_start + 19; // 19 = "pkg:contentType=\"\"".len()
+                let type_start = type_start + 18; // 18 = "pkg:contentType=\"\"".len()
                 if let Some(type_end) = part_xml[type_start..].find("\"\"") {
                     decode_html_entities(&part_xml[type_start..type_start + type_end])
                 } else {
-- 
2.43.0


From d167c220c81a16db3e3b24cd8daf7e248bdbd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:33 +0000
Subject: [PATCH 45/46] fix: read pictures in headers and footers of flat
 packages

---
 docx-core/src/reader/read_xml.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 7e6f272..0e0a42b 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -2,6 +2,15 @@ use super::header_or_footer_rels::ReadHeaderOrFooterRels;
 use super::namespace::*;
 use super::*;
 
+fn read_part_rels(part_map: &HashMap<String, String>, path: &str) -> ReadHeaderOrFooterRels {
+    rels::find_rels_filename(path)
+        .ok()
+        .and_then(|p| part_map.get(p.to_str()?))
+        .and_then(|data| rels::read_rels_xml(data.as_bytes(), "").ok())
+        .map(|rels| ReadHeaderOrFooterRels { rels })
+        .unwrap_or_default()
+}
+
 fn read_headers_from_xml(
     rels: &Rels,
     part_map: &HashMap<String, String>,
@@ -16,9 +25,7 @@ fn read_headers_from_xml(
 
             if let Some(header_data) = part_map.get(&header_path) {
                 if let Ok(header) = Header::from_xml(header_data.as_bytes()) {
-                    // For simplicity, use default ReadHeaderOrFooterRels
-                    // In a full implementation, we would read the header's _rels file
-                    let header_rels = ReadHeaderOrFooterRels::default();
+                    let header_rels = read_part_rels(part_map, &header_path);
                     headers.insert(id.clone(), (header, header_rels));
                 }
             }
@@ -42,9 +49,7 @@ fn read_footers_from_xml(
 
             if let Some(footer_data) = part_map.get(&footer_path) {
                 if let Ok(footer) = Footer::from_xml(footer_data.as_bytes()) {
-                    // For simplicity, use default ReadHeaderOrFooterRels
-                    // In a full implementation, we would read the footer's _rels file
-                    let footer_rels = ReadHeaderOrFooterRels::default();
+                    let footer_rels = read_part_rels(part_map, &footer_path);
                     footers.insert(id.clone(), (footer, footer_rels));
                 }
             }
@@ -175,14 +180,14 @@ fn add_images_from_xml(
 
 fn add_header_footer_images(
     docx: Docx,
-    _header_footer_rels: &ReadHeaderOrFooterRels,
-    _part_map: &HashMap<String, String>,
-    _document_path: &str,
+    header_footer_rels: &ReadHeaderOrFooterRels,
+    part_map: &HashMap<String, String>,
+    document_path: &str,
 ) -> Docx {
-    // For XML packages, header/footer image handling is simplified
-    // In a full implementation, we would process header/footer relationships for images
-    // For now, we'll use the default ReadHeaderOrFooterRels which doesn't have images
-    docx
+    let media = header_footer_rels
+        .target_paths(IMAGE_TYPE)
+        .map(|paths| paths.iter().cloned().collect());
+    add_images_from_xml(docx, media, part_map, document_path)
 }
 
 /// A struct to hold information about a part in an XML package
-- 
2.43.0


From 6142170f8b721033f85546d51e5cbcaaa9dc3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:11 +0000
Subject: [PATCH 46/46] fix: write indents given in characters

---
 docx-core/src/documents/elements/indent.rs | 16 +++++++++++-----
 docx-core/src/xml_builder/elements.rs      | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/elements/indent.rs b/docx-core/src/documents/elements/indent.rs
index 6cf53c7..c8ea421 100644
--- a/docx-core/src/documents/elements/indent.rs
+++ b/docx-core/src/documents/elements/indent.rs
@@ -56,14 +56,20 @@ impl BuildXML for Indent {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream)
-            .indent(
+        let b = XMLBuilder::from(stream);
+        let end = self.end.unwrap_or_default();
+        match (self.hanging_chars, self.first_line_chars) {
+            (None, None) => b.indent(self.start, self.special_indent, end, self.start_chars),
+            (hanging, first_line) => b.indent_with_chars(
                 self.start,
                 self.special_indent,
-                self.end.unwrap_or_default(),
+                end,
                 self.start_chars,
-            )?
-            .into_inner()
+                hanging,
+                first_line,
+            ),
+        }?
+        .into_inner()
     }
 }
 
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 0252d2d..00c358d 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -287,6 +287,18 @@ impl<W: Write> XMLBuilder<W> {
         special_indent: Option<SpecialIndentType>,
         end: i32,
         start_chars: Option<i32>,
+    ) -> Result<Self> {
+        self.indent_with_chars(start, special_indent, end, start_chars, None, None)
+    }
+
+    pub(crate) fn indent_with_chars(
+        self,
+        start: Option<i32>,
+        special_indent: Option<SpecialIndentType>,
+        end: i32,
+        start_chars: Option<i32>,
+        hanging_chars: Option<i32>,
+        first_line_chars: Option<i32>,
     ) -> Result<Self> {
         let mut base = XmlEvent::start_element("w:ind")
             .attr_display("w:left", start.unwrap_or(0))
@@ -295,6 +307,12 @@ impl<W: Write> XMLBuilder<W> {
         if let Some(start_chars) = start_chars {
             base = base.attr_display("w:leftChars", start_chars);
         }
+        if let Some(hanging_chars) = hanging_chars {
+            base = base.attr_display("w:hangingChars", hanging_chars);
+        }
+        if let Some(first_line_chars) = first_line_chars {
+            base = base.attr_display("w:firstLineChars", first_line_chars);
+        }
 
         match special_indent {
             Some(SpecialIndentType::FirstLine(v)) => {
-- 
2.43.0

