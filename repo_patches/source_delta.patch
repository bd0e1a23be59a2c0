From 60cf24d61c6545d1a918e71e3293306ed3b6b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 01/18] fix: don't write the float 2147483648 as 2147483647

---
 src/buf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buf.rs b/src/buf.rs
index f6f69f0..f94f422 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -50,8 +50,9 @@ impl Buf {
     #[inline]
     pub(crate) fn push_float(&mut self, value: f32) {
         // Don't write the decimal point if we don't need it.
-        // Also, integer formatting is way faster.
-        if value as i32 as f32 == value {
+        // Also, integer formatting is way faster. The cast saturates, so 2^31
+        // must be excluded explicitly.
+        if value as i32 as f32 == value && value < i32::MAX as f32 {
             self.push_int(value as i32);
         } else {
             self.push_decimal(value);
-- 
2.43.0


From de85c5862c9c142a2f96ccdee75904cd7c22c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 02/18] fix: don't overflow when tracking the limit for
 i32::MIN

---
 src/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index f94f422..06701e9 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -193,7 +193,7 @@ impl Limits {
     }
 
     pub(crate) fn register_int(&mut self, val: i32) {
-        self.int = self.int.max(val.abs());
+        self.int = self.int.max(val.saturating_abs());
     }
 
     pub(crate) fn register_real(&mut self, val: f32) {
-- 
2.43.0


From 2de369be6c7f8bf5675526d4a37d6856c95e912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 03/18] fix: separate the empty name from the next token in
 compact mode

---
 src/object.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a16146f..7539935 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -379,9 +379,12 @@ fn is_regular_character(byte: u8) -> bool {
     )
 }
 
+/// Whether a regular character may directly follow this byte without becoming
+/// part of the preceding token. This does not hold for a trailing slash, which
+/// is the empty name.
 #[inline]
 pub(crate) fn is_delimiter_character(byte: u8) -> bool {
-    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%')
+    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']')
 }
 
 /// The null object.
-- 
2.43.0


From 4facc4023987a9d14b9d36a584c808584e84d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 04/18] fix: don't truncate free object ids in cross-reference
 streams

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffa495e..13f6efc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -379,7 +379,10 @@ impl Pdf {
         // Include the reference of the xref stream in the offsets as well!
         let xref_offset = buf.len();
         offsets.push((xref_id, xref_offset));
-        let field_width = determine_field_width(xref_offset);
+
+        // The field holds offsets for used objects, but ids for free ones.
+        let max_id = offsets.iter().map(|p| p.0.get()).max().unwrap_or_default();
+        let field_width = determine_field_width(xref_offset.max(max_id as usize));
 
         let mut writer = XRefStreamWriter::new(field_width);
         let xref_len = write_offsets(offsets, &mut writer);
-- 
2.43.0


From 11da8d886d5a4b50f52c5b811bed9f59b4595b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 05/18] fix: track the encoded length of Unicode text strings
 and dates in limits

---
 src/object.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 7539935..41352ca 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -167,12 +167,13 @@ impl Sealed for TextStr<'_> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.limits.register_str_len(self.0.len());
-
         // ASCII and PDFDocEncoding match for 32 up to 126.
         if self.0.bytes().all(|b| matches!(b, 32..=126)) {
             Str(self.0.as_bytes()).write(buf);
         } else {
+            // The byte order mark plus two bytes per code unit.
+            let len = 2 + 2 * self.0.encode_utf16().count();
+            buf.limits.register_str_len(len);
             buf.reserve(6 + 4 * self.0.len());
             write_utf16be_text_str_header(buf);
             for value in self.0.encode_utf16() {
@@ -256,13 +257,15 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        let mut len = 0;
+        // The string starts with a byte order mark.
+        let mut len = 2;
         let mut buf_len = 6;
 
         for (lang, text) in self.0 {
             // Each language tag is enclosed in two escape characters, plus the
             // two-letter language code and optional two-letter region code.
-            len += text.len() + lang.len() + 2;
+            // Everything is written as two-byte code units.
+            len += 2 * (text.encode_utf16().count() + lang.len() + 2);
             // Each hexadecimal character is four bytes long, plus four bytes
             // for the escape sequence. The language tag is encoded in
             // hexadecimal, so each byte becomes two hexadecimal characters.
@@ -607,7 +610,9 @@ impl Sealed for Date {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.extend(b"(D:");
+        buf.push(b'(');
+        let start = buf.len();
+        buf.extend(b"D:");
 
         (|| {
             write!(buf.inner, "{:04}", self.year).unwrap();
@@ -630,6 +635,7 @@ impl Sealed for Date {
             Some(())
         })();
 
+        buf.limits.register_str_len(buf.inner.len() - start);
         buf.push(b')');
     }
 }
-- 
2.43.0


From 658f98169a0a92d6cc27261588c2bd89cfa4f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 06/18] fix: keep line breaks in the header fields from ending
 CMap comments

---
 src/font.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/font.rs b/src/font.rs
index 4adc32f..07e2ec8 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -879,14 +879,14 @@ where
 
         // Dynamic header.
         buf.extend(b"%%BeginResource: CMap ");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b'\n');
         buf.extend(b"%%Title: (");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b' ');
-        buf.extend(info.registry.0);
+        push_comment(&mut buf, info.registry.0);
         buf.push(b' ');
-        buf.extend(info.ordering.0);
+        push_comment(&mut buf, info.ordering.0);
         buf.push(b' ');
         buf.push_int(info.supplement);
         buf.extend(b")\n");
@@ -993,6 +993,14 @@ where
     }
 }
 
+/// Write bytes into a PostScript comment, which a newline or form feed would end.
+fn push_comment(buf: &mut Buf, bytes: &[u8]) {
+    buf.extend(bytes.iter().map(|&b| match b {
+        b'\n' | b'\r' | b'\x0c' => b' ',
+        _ => b,
+    }));
+}
+
 /// Type3 fonts require (in Acrobat at least) IDs in CMaps to be encoded with
 /// one byte only, whereas other font types use two bytes.
 ///
-- 
2.43.0


From 778e30ffbb9997de471a09cb33ecd1f0e73927b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 07/18] fix: write the page close action of an annotation under
 /PC

---
 src/actions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.rs b/src/actions.rs
index 470e26e..769be02 100644
--- a/src/actions.rs
+++ b/src/actions.rs
@@ -339,7 +339,7 @@ impl AdditionalActions<'_> {
     /// shall be performed when the page containing the annotation is closed.
     /// Only permissible for annotations. PDF 1.5+.
     pub fn annot_page_close(&mut self) -> Action<'_> {
-        self.insert(Name(b"PV")).start()
+        self.insert(Name(b"PC")).start()
     }
 
     /// Start writing the `/PV` dictionary. This sets the action action that
-- 
2.43.0


From 4102dd82d04245130cfb298f13e8ce8903d946fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 08/18] fix: write the appearance filter of a seed value under
 /AppearanceFilter

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index 6726fc7..e3357a4 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -726,7 +726,7 @@ impl SignatureSeedValue<'_> {
     /// the appearance must be available and used to sign the document.
     /// PDF 2.0+.
     pub fn appearance_filter(&mut self, signature_appearance: TextStr<'_>) -> &mut Self {
-        self.pair(Name(b"LockDocument"), signature_appearance);
+        self.pair(Name(b"AppearanceFilter"), signature_appearance);
         self
     }
 }
-- 
2.43.0


From b97e342a86074aa8fb6ebc7535964126f4d36470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 09/18] fix: write the commitment types of a seed value under
 their own key

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index e3357a4..64b876a 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -998,7 +998,7 @@ impl CertificateSeedValue<'_> {
         &mut self,
         commitment_types: impl IntoIterator<Item = Str<'b>>,
     ) -> &mut Self {
-        self.insert(Name(b"SignaturePolicyHashAlgorithm"))
+        self.insert(Name(b"SignaturePolicyCommitmentType"))
             .array()
             .items(commitment_types);
         self
-- 
2.43.0


From 4a1490aefc76d7ddfddfafc05cb7671f708afa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 10/18] fix: write the opacity of a fly transition as the
 boolean /B

---
 src/transitions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transitions.rs b/src/transitions.rs
index 83d3b65..e27ebf0 100644
--- a/src/transitions.rs
+++ b/src/transitions.rs
@@ -56,8 +56,8 @@ impl Transition<'_> {
     }
 
     /// Write the `/B` attribute for the `Fly` transition. PDF 1.5+.
-    pub fn opaque(&mut self, opaque: f32) -> &mut Self {
-        self.pair(Name(b"F"), opaque);
+    pub fn opaque(&mut self, opaque: bool) -> &mut Self {
+        self.pair(Name(b"B"), opaque);
         self
     }
 }
-- 
2.43.0


From 1d5dd01ab876bd2348935cc55d5d15351f547648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 11/18] fix: write CMYK components of a widget's colors in the
 order of the color space

---
 src/annotations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/annotations.rs b/src/annotations.rs
index cfc1d0a..d50f1b1 100644
--- a/src/annotations.rs
+++ b/src/annotations.rs
@@ -431,7 +431,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BC` attribute using an RGB color. This sets the widget
     /// annotation's border color.
     pub fn border_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BC")).array().items([c, y, m, k]);
+        self.insert(Name(b"BC")).array().items([c, m, y, k]);
         self
     }
 
@@ -459,7 +459,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BG` attribute using an RGB color. This sets the widget
     /// annotation's backround color.
     pub fn background_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BG")).array().items([c, y, m, k]);
+        self.insert(Name(b"BG")).array().items([c, m, y, k]);
         self
     }
 
-- 
2.43.0


From 01ec05d0198b6c4b18fb845115ef8bbf6f440d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 12/18] fix: use the standard names of the structure namespaces

---
 src/structure.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 535eb44..cb84281 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -764,7 +764,7 @@ deref!('a, ClassMap<'a> => Dict<'a>, dict);
 /// Role the structure element fulfills in the document for PDF 1.7 and below.
 ///
 /// These are the predefined standard roles in PDF 1.7 and below, matching the
-/// `https://www.iso.org/pdf/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf/ssn` namespace. The writer may write their own
 /// roles and then provide a mapping with [`StructTreeRoot::role_map`], or, if
 /// writing PDF 2.0, with [`Namespace::role_map_ns`]. PDF 1.4+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
@@ -1089,7 +1089,7 @@ impl TryFrom<StructRole> for StructRole2 {
 /// PDF 2.0 roles the structure element fulfills in the document.
 ///
 /// These are the predefined standard roles in PDF 2.0, matching the
-/// `https://www.iso.org/pdf2/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf2/ssn` namespace. The writer may write their own
 /// types and then provide a mapping using [`Namespace::role_map_ns`]. PDF 2.0+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
 pub enum StructRole2 {
@@ -1546,18 +1546,18 @@ impl Namespace<'_> {
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 2.0_.
     pub fn pdf_2_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf2/ssn"));
+        self.ns(TextStr("http://iso.org/pdf2/ssn"));
     }
 
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 1.7_.
     pub fn pdf_1_7_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf/ssn"));
+        self.ns(TextStr("http://iso.org/pdf/ssn"));
     }
 
     /// Write the namespace dictionary for MathML 3.0.
     pub fn mathml_3_0_ns(mut self) {
-        self.ns(TextStr("https://www.w3.org/1998/Math/MathML"));
+        self.ns(TextStr("http://www.w3.org/1998/Math/MathML"));
     }
 }
 
-- 
2.43.0


From 826fa75e6044c80a0ac124456251246f6cc72eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 13/18] fix: convert the ruby punctuation role to itself in PDF
 2.0

---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index cb84281..00d2394 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -973,7 +973,7 @@ impl StructRole {
             Self::Warichu => Some(StructRole2::Warichu),
             Self::RB => Some(StructRole2::RB),
             Self::RT => Some(StructRole2::RT),
-            Self::RP => Some(StructRole2::WP),
+            Self::RP => Some(StructRole2::RP),
             Self::WT => Some(StructRole2::WT),
             Self::WP => Some(StructRole2::WP),
             Self::Figure => Some(StructRole2::Figure),
-- 
2.43.0


From 1377342db78aeb5a30a09c7be6d52b9b01add8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 14/18] fix: write the limits of a name tree node as strings

---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 41352ca..d6cf0e3 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1476,7 +1476,11 @@ impl<T> NameTree<'_, T> {
     /// Write the `/Limits` array to set the range of names in this node. This
     /// is required for every node except the root node.
     pub fn limits(&mut self, min: Name, max: Name) -> &mut Self {
-        self.dict.insert(Name(b"Limits")).array().typed().items([min, max]);
+        self.dict
+            .insert(Name(b"Limits"))
+            .array()
+            .typed()
+            .items([Str(min.0), Str(max.0)]);
         self
     }
 }
-- 
2.43.0


From 8d0ee2cdd7f5bcb2d9406493b90ade081638fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 15/18] fix: refer to the font of a graphics state parameter
 dictionary by reference

---
 src/content.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/content.rs b/src/content.rs
index 36224fc..cea3803 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -1446,7 +1446,7 @@ impl ExtGraphicsState<'_> {
     }
 
     /// Write the `Font` attribute to set the font. PDF 1.3+.
-    pub fn font(&mut self, font: Name, size: f32) -> &mut Self {
+    pub fn font(&mut self, font: Ref, size: f32) -> &mut Self {
         let mut array = self.insert(Name(b"Font")).array();
         array.item(font);
         array.item(size);
-- 
2.43.0


From 2463eeb62f2f6854d4178e8e71a1d0ea23e3a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 16/18] fix: export the type of the device color space of
 separations and DeviceN spaces

alternate_device takes a value of it, which could not be named.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 13f6efc..5d3787e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -166,7 +166,8 @@ pub mod types {
         TextDecorationType, WritingMode,
     };
     pub use color::{
-        DeviceNSubtype, FunctionShadingType, OutputIntentSubtype, PaintType, TilingType,
+        DeviceColorSpace, DeviceNSubtype, FunctionShadingType, OutputIntentSubtype,
+        PaintType, TilingType,
     };
     pub use content::{
         ArtifactAttachment, ArtifactSubtype, ArtifactType, BlendMode, ColorSpaceOperand,
-- 
2.43.0


From fa3f92366cd455bcd771f77e2aaa8884f5161a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 17/18] fix: give the Display P3 preset the gamma of Display P3

The preset had 2.6, the gamma of DCI-P3. Display P3 has the transfer function
of sRGB, which is approximated by 2.2 here (as the documentation of d65_gray
says, too).
---
 src/color.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color.rs b/src/color.rs
index b6e98f6..6db5b61 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -266,7 +266,7 @@ impl ColorSpace<'_> {
         self.cal_rgb(
             CIE_D65,
             None,
-            Some([2.6, 2.6, 2.6]),
+            Some([2.2, 2.2, 2.2]),
             Some([
                 0.48657, 0.2297, 0.0, 0.26567, 0.69174, 0.04511, 0.19822, 0.07929,
                 1.04394,
-- 
2.43.0


From bc23805a3d5e8619f45f1cd664de7c1a0723a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 18/18] fix: let the values of the DeviceN Colorants dictionary
 be colour spaces

They are Separation colour space arrays, as the documentation says, but only dictionaries could be written.
---
 src/color.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color.rs b/src/color.rs
index 6db5b61..c90927a 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -655,7 +655,7 @@ impl DeviceNAttrs<'_> {
     ///
     /// Required if the `/Subtype` attribute is `NChannel`. Required for spot
     /// colors in PDF/A-2, PDF/A-3, and PDF/A-4.
-    pub fn colorants(&mut self) -> TypedDict<'_, Dict<'_>> {
+    pub fn colorants(&mut self) -> TypedDict<'_, ColorSpace<'_>> {
         self.dict.insert(Name(b"Colorants")).dict().typed()
     }
 
-- 
2.43.0

