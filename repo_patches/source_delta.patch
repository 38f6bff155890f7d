From 93b641905b78c8113481409feab6eb503f7e08b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 1/7] fix: modulo-10 checksum overflows u8 on long ITF data

The weighted sum of an odd-length ITF string exceeds 255 from about 19 digits,
which panicked in debug builds and gave a wrong check digit in release builds.
---
 src/sym/helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sym/helpers.rs b/src/sym/helpers.rs
index 677ef57..a678e8a 100644
--- a/src/sym/helpers.rs
+++ b/src/sym/helpers.rs
@@ -23,13 +23,13 @@ where
 
 /// Calculates the checksum digit using a modulo-10 weighting algorithm.
 pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
-    let mut odds = 0;
-    let mut evens = 0;
+    let mut odds: u32 = 0;
+    let mut evens: u32 = 0;
 
     for (i, d) in data.iter().enumerate() {
         match i % 2 {
-            1 => odds += *d,
-            _ => evens += *d,
+            1 => odds += u32::from(*d),
+            _ => evens += u32::from(*d),
         }
     }
 
@@ -43,6 +43,6 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
 
     match 10 - ((odds + evens) % 10) {
         10 => 0,
-        n => n,
+        n => n as u8,
     }
 }
-- 
2.43.0


From 09114d6e0217865f54facd3fa9a2cd0a9884b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 2/7] fix: Code128 accepts a function character inside a set-C
 digit pair

The function character was emitted before the pair it interrupted, so the
barcode read back in a different order than the data.
---
 src/sym/code128.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index a1b0081..ef8939a 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -330,6 +330,7 @@ impl Code128 {
                         carry = None;
                     }
                 },
+                _ if carry.is_some() => return Err(Error::Character),
                 _ => {
                     let u = char_set.lookup(&ch.to_string())?;
                     units.push(u);
-- 
2.43.0


From 2912db7bc1414a3617d16a3ee5b0d88796639869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 3/7] fix: Code128 checksum overflows i32 on long data

The weighted sum of several thousand symbols exceeds i32, which panicked.
---
 src/sym/code128.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index ef8939a..05584ca 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -346,13 +346,13 @@ impl Code128 {
 
     /// Calculates the checksum index using a modulo-103 algorithm.
     fn checksum_value(&self) -> u8 {
-        let sum: i32 = self
+        let sum = self
             .0
             .iter()
-            .zip(0..self.0.len() as i32)
-            .fold(0, |t, (u, i)| t + (u.index() as i32 * cmp::max(1, i)));
+            .enumerate()
+            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i) % 103)) % 103);
 
-        (sum % 103) as u8
+        sum as u8
     }
 
     fn checksum_encoding(&self) -> Encoding {
-- 
2.43.0


From e3b7510399f9ad5519f0c12ad0078ea8d86a3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 4/7] fix: length check truncates lengths of 4 GiB and more

A string whose byte length modulo 2^32 is in range passed the length check.
---
 src/sym.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sym.rs b/src/sym.rs
index f1d3efa..f759a6a 100644
--- a/src/sym.rs
+++ b/src/sym.rs
@@ -38,9 +38,9 @@ trait Parse {
     fn parse(data: &str) -> Result<&str, Error> {
         let valid_chars = Self::valid_chars();
         let valid_len = Self::valid_len();
-        let data_len = data.len() as u32;
+        let data_len = data.len();
 
-        if data_len < valid_len.start || data_len > valid_len.end {
+        if data_len < valid_len.start as usize || data_len > valid_len.end as usize {
             return Err(Error::Length);
         }
 
-- 
2.43.0


From a1b8dcfbb363ac838b5d0d8b7dfe66769630fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 5/7] fix: SVG width and offsets overflow u32 with a large
 x-dimension

The products panicked in debug builds and wrapped in release builds.
---
 src/generators/svg.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generators/svg.rs b/src/generators/svg.rs
index 344f2e0..e435631 100644
--- a/src/generators/svg.rs
+++ b/src/generators/svg.rs
@@ -144,7 +144,7 @@ impl SVG {
         self
     }
 
-    fn rect(&self, style: u8, offset: u32, width: u32) -> String {
+    fn rect(&self, style: u8, offset: u64, width: u64) -> String {
         let fill = match style {
             1 => self.foreground,
             _ => self.background,
@@ -169,12 +169,13 @@ impl SVG {
     /// error message.
     pub fn generate<T: AsRef<[u8]>>(&self, barcode: T) -> Result<String> {
         let barcode = barcode.as_ref();
-        let width = (barcode.len() as u32) * self.xdim;
+        let xdim = u64::from(self.xdim);
+        let width = (barcode.len() as u64) * xdim;
         let rects: String = barcode
             .iter()
             .enumerate()
             .filter(|&(_, &n)| n == 1)
-            .map(|(i, &n)| self.rect(n, i as u32 * self.xdim, self.xdim))
+            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
             .collect();
 
         let xmlns = match &self.xmlns {
-- 
2.43.0


From 3843ad43f203ea6159978e8c1dc355a19289d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:57 +0000
Subject: [PATCH 6/7] fix: image width overflows u32 with a large x-dimension

len * xdim overflowed (panicking in debug, wrapping and then panicking in
release) for widths of 2^32 pixels and more. Such a picture cannot exist,
so generation returns Error::Generate.
---
 src/generators/image.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index b4e95d5..8ea1b2d 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -163,7 +163,7 @@ impl Image {
         };
 
         let mut bytes: Vec<u8> = vec![];
-        let img = self.place_pixels(&barcode);
+        let img = self.place_pixels(&barcode)?;
 
         match img.write_to(&mut Cursor::new(&mut bytes), format) {
             Ok(_) => Ok(bytes),
@@ -177,19 +177,22 @@ impl Image {
         self,
         barcode: T,
     ) -> Result<ImageBuffer<Rgba<u8>, Vec<u8>>> {
-        let img = self.place_pixels(&barcode);
+        let img = self.place_pixels(&barcode)?;
 
         Ok(img.to_rgba8())
     }
 
-    fn place_pixels<T: AsRef<[u8]>>(&self, barcode: T) -> DynamicImage {
+    fn place_pixels<T: AsRef<[u8]>>(&self, barcode: T) -> Result<DynamicImage> {
         let barcode = barcode.as_ref();
         let (xdim, height, rotation, bg, fg) = expand_image_variants!(
             *self,
             {height: h, xdim: x, rotation: r, background: b, foreground: f} => (x, h, r, b.to_rgba(), f.to_rgba()),
             GIF, PNG, WEBP, ImageBuffer
         );
-        let width = (barcode.len() as u32) * xdim;
+        let width = u32::try_from(barcode.len())
+            .ok()
+            .and_then(|modules| modules.checked_mul(xdim))
+            .ok_or(Error::Generate)?;
         let mut buffer = ImageBuffer::new(width, height);
 
         for y in 0..height {
@@ -204,12 +207,12 @@ impl Image {
 
         let img = ImageRgba8(buffer);
 
-        match rotation {
+        Ok(match rotation {
             Rotation::Ninety => img.rotate90(),
             Rotation::OneEighty => img.rotate180(),
             Rotation::TwoSeventy => img.rotate270(),
             _ => img,
-        }
+        })
     }
 }
 
-- 
2.43.0


From eb841a47c5e93ea9f968652b4c10594a62d76893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:52 +0000
Subject: [PATCH 7/7] fix: GIF of a picture without pixels is a file no decoder
 reads

---
 src/generators/image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index 8ea1b2d..165753f 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -165,6 +165,11 @@ impl Image {
         let mut bytes: Vec<u8> = vec![];
         let img = self.place_pixels(&barcode)?;
 
+        // Not every encoder refuses a picture without pixels.
+        if img.width() == 0 || img.height() == 0 {
+            return Err(Error::Generate);
+        }
+
         match img.write_to(&mut Cursor::new(&mut bytes), format) {
             Ok(_) => Ok(bytes),
             _ => Err(Error::Generate),
-- 
2.43.0

