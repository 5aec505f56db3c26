From c29422c3dbecc0f285ed4c2e19aa65fdeac5f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:40 +0000
Subject: [PATCH 01/10] fix: Reference::is_parent_of called a reference on
 another branch a child
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A reference with a default paragraph and a point (1. § a)) was reported as the
parent of, and so as containing, every point of every numbered paragraph
(1. § (2) b)), because only the first differing part was looked at.
---
 src/reference/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reference/mod.rs b/src/reference/mod.rs
index 312c0f7..2f75541 100644
--- a/src/reference/mod.rs
+++ b/src/reference/mod.rs
@@ -248,14 +248,19 @@ impl Reference {
     }
 
     pub fn is_parent_of(&self, other: &Reference) -> bool {
+        // At the first difference, self must end: a part that is present below the missing one
+        // (e.g. the point of a default paragraph) means that self is on another branch.
         if self.act != other.act {
             false
         } else if self.article != other.article {
             self.article.is_none()
+                && self.paragraph.is_none()
+                && self.point.is_none()
+                && self.subpoint.is_none()
         } else if self.paragraph != other.paragraph {
-            self.paragraph.is_none()
+            self.paragraph.is_none() && self.point.is_none() && self.subpoint.is_none()
         } else if self.point != other.point {
-            self.point.is_none()
+            self.point.is_none() && self.subpoint.is_none()
         } else if self.subpoint != other.subpoint {
             self.subpoint.is_none()
         } else {
-- 
2.43.0


From 265081e2e8ac1f5d9b3fce4764b7fd0c9cdc7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:46 +0000
Subject: [PATCH 02/10] fix: keep the saved fixups when a later save fails or
 is interrupted

---
 src/fixups.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index ace4bfe..821bc25 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -15,7 +15,7 @@
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
 use std::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     path::PathBuf,
 };
 
@@ -76,7 +76,10 @@ impl Fixups {
                 .parent()
                 .ok_or_else(|| anyhow!("No parent for fixup_path"))?,
         )?;
-        singleton_yaml::to_writer(&mut File::create(&self.fixup_path)?, &self.fixups)?;
+        // Never write over the existing file: a failed or interrupted save would lose what was saved before.
+        let temp_path = self.fixup_path.with_extension("yml.tmp");
+        singleton_yaml::to_writer(&mut File::create(&temp_path)?, &self.fixups)?;
+        rename(&temp_path, &self.fixup_path)?;
         Ok(())
     }
 
-- 
2.43.0


From c634bc1c6ce27ddd3d2c1fd35c5f6f94d8f34270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 03/10] fix: never leave a partial download in the cache

---
 src/mk_downloader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mk_downloader.rs b/src/mk_downloader.rs
index b43ae89..37d8807 100644
--- a/src/mk_downloader.rs
+++ b/src/mk_downloader.rs
@@ -77,6 +77,9 @@ pub fn download_mk_issue(issue: &MkIssue, cache_dir: &Path) -> Result<Vec<u8>> {
     if let Some(file_dir) = file_path.parent() {
         fs::create_dir_all(file_dir)?;
     }
-    fs::write(file_path, &http_body)?;
+    // A partially written file would be taken for the whole issue the next time.
+    let temp_path = file_path.with_extension("pdf.part");
+    fs::write(&temp_path, &http_body)?;
+    fs::rename(&temp_path, &file_path)?;
     Ok(http_body)
 }
-- 
2.43.0


From 49cbe90976a47a3ed4a178961322f3a4fdb1c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:12 +0000
Subject: [PATCH 04/10] fix: an article with only a title panicked instead of
 being parsed

---
 src/parser/structure/article.rs | 2 +-
 src/parser/structure/sae.rs     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/structure/article.rs b/src/parser/structure/article.rs
index facfa47..b02914e 100644
--- a/src/parser/structure/article.rs
+++ b/src/parser/structure/article.rs
@@ -102,7 +102,7 @@ impl ArticleParser {
         // amendment in 2013. évi CCLII. törvény 185. § (18)
         // There can only be at most 1 consecutive EMPTY_LINE because of previous
         // preprocessing in the PDF extractor.
-        if self.lines[0].is_empty() {
+        if self.lines.first().map_or(false, IndentedLine::is_empty) {
             self.lines.remove(0);
         }
         let extracted = ParagraphParser.extract_multiple(
diff --git a/src/parser/structure/sae.rs b/src/parser/structure/sae.rs
index a17d1ec..4610558 100644
--- a/src/parser/structure/sae.rs
+++ b/src/parser/structure/sae.rs
@@ -172,6 +172,7 @@ pub trait SAEParser: Debug {
     where
         T: From<Vec<SubArticleElement<Self::IdentifierType, Self::ChildrenType>>>,
     {
+        ensure!(!lines.is_empty(), "No lines to parse for {self:?}");
         let (mut identifier, first_line_rest) = self
             .parse_header(&lines[0])
             .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", lines[0].content()))?;
-- 
2.43.0


From eb9f4856a75e056564de05a31b6100fca7429ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:12 +0000
Subject: [PATCH 05/10] fix: a header with nothing after it panicked in
 slice_bytes

---
 src/util/indentedline.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 6263f72..3d756b3 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -125,11 +125,14 @@ impl IndentedLine {
     }
 
     pub fn slice_bytes(&self, from: usize, to: Option<usize>) -> IndentedLine {
-        let chars_from = self
-            .content()
-            .char_indices()
-            .position(|(cp, _)| cp == from)
-            .unwrap() as i64;
+        let chars_from = if from >= self.content().as_bytes().len() {
+            self.content().chars().count() as i64
+        } else {
+            self.content()
+                .char_indices()
+                .position(|(cp, _)| cp == from)
+                .unwrap() as i64
+        };
         let chars_to = to.map(|to_inner| {
             if to_inner >= self.content().as_bytes().len() {
                 self.content().chars().count() as i64
-- 
2.43.0


From 51b0f5c189f036b47b2968edb853ed6c19f4a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:12 +0000
Subject: [PATCH 06/10] fix: a structural amendment with an empty quoted block
 panicked

---
 src/parser/structure/block_amendment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 38d2aa7..67ba64f 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -112,6 +112,8 @@ fn convert_structural_block_amendment(
     position: &StructuralReference,
     lines: &[IndentedLine],
 ) -> Result<Vec<ActChild>> {
+    ensure!(!lines.is_empty());
+
     if let StructuralReferenceElement::Article(article_id) = position.structural_element {
         convert_articles(article_id.first_in_range(), lines)
     } else if position.title_only {
-- 
2.43.0


From 36c4524c91ad49cb42731d21c7201a660c7dd6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:40 +0000
Subject: [PATCH 07/10] fix: a failed block amendment conversion lost the intro
 of the quoted block

---
 src/parser/structure/block_amendment.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 67ba64f..b26f60f 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -75,27 +75,28 @@ impl Paragraph {
             }
             let quoted_block = &mut qbs[0];
             if let Some(special_phrase) = &self.semantic_info.special_phrase {
+                // The conversion comes first, so that the block is left intact if it fails.
                 match special_phrase {
                     SpecialPhrase::BlockAmendment(ba) => {
                         *children = BlockAmendment {
-                            intro: std::mem::take(&mut quoted_block.intro),
                             children: convert_simple_block_amendment(
                                 &ba.position,
                                 &quoted_block.lines,
                             )
                             .with_context(|| "Could not parse simple block amendment")?,
+                            intro: std::mem::take(&mut quoted_block.intro),
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
                     }
                     SpecialPhrase::StructuralBlockAmendment(sba) => {
                         *children = StructuralBlockAmendment {
-                            intro: std::mem::take(&mut quoted_block.intro),
                             children: convert_structural_block_amendment(
                                 &sba.position,
                                 &quoted_block.lines,
                             )
                             .with_context(|| "Could not parse structural block amendment")?,
+                            intro: std::mem::take(&mut quoted_block.intro),
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
-- 
2.43.0


From 2902de6f302ea16036eec556b02e80a7aceaa219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:44 +0000
Subject: [PATCH 08/10] fix: the font cache gave a font the mapping of a
 dropped font at the same address

---
 src/parser/pdf/font.rs | 15 ++++++++-------
 src/parser/pdf/page.rs |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 1d0fc34..c264961 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -23,7 +23,7 @@ use anyhow::{anyhow, bail, Result};
 use pdf::{
     encoding::{BaseEncoding, Encoding as PdfEncoding},
     font::{Font, FontData, ToUnicodeMap, Widths},
-    object::Resolve,
+    object::{MaybeRef, Resolve},
 };
 use pdf_encoding::glyphname_to_unicode;
 
@@ -155,17 +155,18 @@ impl FastFont {
 
 #[derive(Debug, Default)]
 pub struct FontCache {
-    cache: HashMap<usize, Rc<FastFont>>,
+    // The keys are the addresses of the fonts, so the fonts have to be kept alive.
+    cache: HashMap<usize, (MaybeRef<Font>, Rc<FastFont>)>,
 }
 
 impl FontCache {
-    pub fn get(&mut self, font: &Font, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
-        let entry = self.cache.entry(font as *const Font as usize);
+    pub fn get(&mut self, font: MaybeRef<Font>, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
+        let entry = self.cache.entry(&*font as *const Font as usize);
         Ok(match entry {
-            hash_map::Entry::Occupied(e) => e.get().clone(),
+            hash_map::Entry::Occupied(e) => e.get().1.clone(),
             hash_map::Entry::Vacant(e) => {
-                let fast_font = Rc::new(FastFont::convert(font, resolve)?);
-                e.insert(fast_font).clone()
+                let fast_font = Rc::new(FastFont::convert(&font, resolve)?);
+                e.insert((font, fast_font)).1.clone()
             }
         })
     }
diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 71b0b6e..7301c82 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -130,7 +130,7 @@ where
         Ok(())
     }
 
-    fn set_font(&mut self, font: &Font, size: f32) -> Result<()> {
+    fn set_font(&mut self, font: MaybeRef<Font>, size: f32) -> Result<()> {
         let fast_font = self.font_cache.get(font, self.pdf_file)?;
         self.collector.font_changed(&fast_font)?;
         self.state.font = Some(fast_font);
@@ -216,7 +216,7 @@ where
                     .ok_or_else(|| anyhow!("Did not find graphics state resource"))?
                     .font
                 {
-                    self.set_font(&*self.pdf_file.get(font_ref)?, size)?;
+                    self.set_font(MaybeRef::Indirect(self.pdf_file.get(font_ref)?), size)?;
                 }
             }
             Op::TextFont { name, size } => {
@@ -225,7 +225,7 @@ where
                     .fonts
                     .get(&name)
                     .ok_or_else(|| anyhow!("Did not find font resource"))?;
-                self.set_font(font, size)?;
+                self.set_font(font.clone(), size)?;
             }
 
             // --- Positioning ---
-- 
2.43.0


From 1230c366e1c12f333d86dbb47620b4cd37286b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:50 +0000
Subject: [PATCH 09/10] fix: restoring the graphics state kept the boldness and
 space width of the last font

---
 src/parser/pdf/page.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 7301c82..9fe699d 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -138,6 +138,15 @@ where
         Ok(())
     }
 
+    fn restore_state(&mut self, message: &'static str) -> Result<()> {
+        self.state = self.state_stack.pop().ok_or_else(|| anyhow!(message))?;
+        // The collector has to use the restored font as well
+        if let Some(font) = &self.state.font {
+            self.collector.font_changed(font)?;
+        }
+        Ok(())
+    }
+
     fn handle_xobject(&mut self, name: Name) -> Result<()> {
         let resources = self.resources()?;
         let xobject_ref = resources
@@ -165,10 +174,7 @@ where
         }
 
         // Load back the stuff
-        self.state = self
-            .state_stack
-            .pop()
-            .ok_or_else(|| anyhow!("State stack empty after Form rendering"))?;
+        self.restore_state("State stack empty after Form rendering")?;
         self.resources = saved_resources;
         Ok(())
     }
@@ -201,10 +207,7 @@ where
             // --- State stack ---
             Op::Save => self.state_stack.push(self.state.clone()),
             Op::Restore => {
-                self.state = self
-                    .state_stack
-                    .pop()
-                    .ok_or_else(|| anyhow!("State stack empty"))?
+                self.restore_state("State stack empty")?;
             }
 
             // --- Font stuff ---
-- 
2.43.0


From f653b3b3ac628e772f805dbe337fde69c08ab56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 10/10] fix: character code 255 of simple fonts was never
 mapped

---
 src/parser/pdf/font.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index c264961..5855459 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -80,7 +80,7 @@ impl FastFont {
             BaseEncoding::MacRomanEncoding => self.process_base_encoding(&pdf_encoding::MACROMAN),
             BaseEncoding::WinAnsiEncoding => {
                 let mut tmp = [0u8; 4];
-                for cid in 0..255 {
+                for cid in 0..=255 {
                     if let Some(c) = pdf_encoding::WINANSI.get(cid) {
                         self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
                     } else if cid > 30 {
@@ -110,7 +110,7 @@ impl FastFont {
 
     fn process_base_encoding(&mut self, map: &pdf_encoding::ForwardMap) {
         let mut tmp = [0u8; 4];
-        for cid in 0..255 {
+        for cid in 0..=255 {
             if let Some(c) = map.get(cid) {
                 self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
             }
-- 
2.43.0

