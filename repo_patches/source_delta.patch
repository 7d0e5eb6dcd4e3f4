From f48ebd7b6caee212dd33cab0d185758fa14915a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 01/20] fix: read the backward size of a connection matrix as
 unsigned

A matrix with more than 32767 backward ids was written with its size
wrapped to a negative i16 and read back as a huge u32, so that every
lookup panicked or indexed the wrong row.
---
 lindera-core/src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-core/src/connection.rs b/lindera-core/src/connection.rs
index 707f503..3145887 100644
--- a/lindera-core/src/connection.rs
+++ b/lindera-core/src/connection.rs
@@ -11,7 +11,7 @@ pub struct ConnectionCostMatrix {
 
 impl ConnectionCostMatrix {
     pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Borrowed(&conn_data[4..]),
             backward_size: backward_size as u32,
@@ -19,7 +19,7 @@ impl ConnectionCostMatrix {
     }
 
     pub fn load(conn_data: &[u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Owned(conn_data[4..].to_vec()),
             backward_size: backward_size as u32,
-- 
2.43.0


From c4da6da2b1e5bdb44332c1638d7212c7fa290374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 02/20] fix: keep category definitions aligned with their ids

Category ids are allocated on first mention, but definitions were stored
in the order of the definition lines, so that a range preceding the
definition of its category gave categories the flags of other ones.
---
 lindera-core/src/character_definition.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index c3fb3dd..19a8d02 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -222,8 +222,12 @@ impl CharacterDefinitionsBuilder {
             length,
         };
         // force a category_id allocation
-        self.category_id(fields[0]);
-        self.category_definition.push(category_data);
+        let CategoryId(index) = self.category_id(fields[0]);
+        // The id may have been allocated before, by a range mentioning the category.
+        if self.category_definition.len() <= index {
+            self.category_definition.resize(index + 1, category_data);
+        }
+        self.category_definition[index] = category_data;
 
         Ok(())
     }
-- 
2.43.0


From fe6fd474b9c186331d947710e99050843b5211c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 03/20] fix: do not match words across NUL characters

The double array has no transition for NUL, but following one may end on
the root again, so that the word 'b' was also found at the start of
'\0b'. Exact lookups of a text with a NUL panicked.
---
 lindera-core/src/prefix_dict.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index d077164..d446f7b 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -36,6 +36,8 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
         self.da
             .common_prefix_search(s)
+            // NUL is no label in the double array: a match that spans one is spurious.
+            .take_while(move |&(_, prefix_len)| !s.as_bytes()[..prefix_len].contains(&0u8))
             .flat_map(move |(offset_len, prefix_len)| {
                 let len = offset_len & ((1u32 << 5) - 1u32);
                 let offset = offset_len >> 5u32;
@@ -55,6 +57,10 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
 
     /// Find `WordEntry`s with surface
     pub fn find_surface(&self, surface: &str) -> Vec<WordEntry> {
+        // NUL is no label in the double array, and no key contains it.
+        if surface.as_bytes().contains(&0u8) {
+            return vec![];
+        }
         match self.da.exact_match_search(surface) {
             Some(offset_len) => {
                 let offset = offset_len >> 5u32;
-- 
2.43.0


From 1d997626c2499e79c7720f3696ffdc1ac76e78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 04/20] fix: do not panic on unassigned characters in the
 katakana stem filter

---
 lindera-filter/src/token_filter/japanese_katakana_stem.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_katakana_stem.rs b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
index 63e44f0..3684b6c 100644
--- a/lindera-filter/src/token_filter/japanese_katakana_stem.rs
+++ b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
@@ -91,9 +91,10 @@ impl TokenFilter for JapaneseKatakanaStemTokenFilter {
 
 fn is_katakana(text: &str) -> bool {
     for ch in text.chars() {
-        let block = unicode_blocks::find_unicode_block(ch).unwrap();
-        if block != unicode_blocks::KATAKANA {
-            return false;
+        // Unassigned characters belong to no block.
+        match unicode_blocks::find_unicode_block(ch) {
+            Some(block) if block == unicode_blocks::KATAKANA => {}
+            _ => return false,
         }
     }
 
-- 
2.43.0


From 948314ea269b41b3a116c05f6533b00834ce4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 05/20] fix: mapping filters accept an empty mapping and do not
 match across NUL

---
 lindera-filter/src/character_filter/mapping.rs | 10 ++++++++++
 lindera-filter/src/token_filter/mapping.rs     | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index d76f063..d06c4f0 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -50,8 +50,17 @@ impl MappingCharacterFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            // The double array uses NUL as the end of a key.
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("mapping key contains NUL: {:?}", key)));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
+        if keyset.is_empty() {
+            // The double array needs a key. The empty key never matches.
+            keyset.push((b"", 0));
+        }
 
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
@@ -85,6 +94,7 @@ impl CharacterFilter for MappingCharacterFilter {
             match self
                 .trie
                 .common_prefix_search(suffix.as_bytes())
+                .take_while(|(_, prefix_len)| !suffix.as_bytes()[..*prefix_len].contains(&0))
                 .last()
                 .map(|(_offset_len, prefix_len)| prefix_len)
             {
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index 8de2470..417151c 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -47,8 +47,17 @@ impl MappingTokenFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            // The double array uses NUL as the end of a key.
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("mapping key contains NUL: {:?}", key)));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
+        if keyset.is_empty() {
+            // The double array needs a key. The empty key never matches.
+            keyset.push((b"", 0));
+        }
 
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
@@ -80,6 +89,7 @@ impl TokenFilter for MappingTokenFilter {
                 match self
                     .trie
                     .common_prefix_search(suffix.as_bytes())
+                    .take_while(|(_, prefix_len)| !suffix.as_bytes()[..*prefix_len].contains(&0))
                     .last()
                     .map(|(_offset_len, prefix_len)| prefix_len)
                 {
-- 
2.43.0


From ce7a6018ad955e14c114cd2fd7a6391a5ccc970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 06/20] fix: regex filter offsets follow expanded replacements
 and empty matches

---
 lindera-filter/src/character_filter/regex.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/character_filter/regex.rs b/lindera-filter/src/character_filter/regex.rs
index ba4f66e..8f7ba49 100644
--- a/lindera-filter/src/character_filter/regex.rs
+++ b/lindera-filter/src/character_filter/regex.rs
@@ -64,11 +64,14 @@ impl CharacterFilter for RegexCharacterFilter {
         let mut offsets: Vec<usize> = Vec::new();
         let mut diffs: Vec<i64> = Vec::new();
 
-        self.regex.find_iter(text).for_each(|mat| {
+        self.regex.captures_iter(text).for_each(|caps| {
+            let mat = caps.get(0).unwrap();
             let input_start = mat.start();
             let input_text = mat.as_str();
             let input_len = input_text.len();
-            let replacement_text = self.config.replacement.as_str();
+            // The replacement may refer to capture groups.
+            let mut replacement_text = String::new();
+            caps.expand(&self.config.replacement, &mut replacement_text);
             let replacement_len = replacement_text.len();
             let diff_len = input_len as i64 - replacement_len as i64;
             let input_offset = input_start + input_len;
@@ -84,6 +87,8 @@ impl CharacterFilter for RegexCharacterFilter {
                 } else {
                     // Replacement is longer than matched surface.
                     let output_start = (input_offset as i64 + -prev_diff) as usize;
+                    // Text inserted at an empty match does not belong to the preceding character.
+                    let output_start = output_start + usize::from(input_len == 0);
                     for extra_idx in 0..diff_len.unsigned_abs() as usize {
                         let offset = output_start + extra_idx;
                         let diff = prev_diff - extra_idx as i64 - 1;
-- 
2.43.0


From ccac0136e623ec918206d27e192b79229371d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 07/20] fix: tags with more than four parts do not crash the
 filters

---
 lindera-filter/src/token_filter/japanese_compound_word.rs | 4 ++--
 lindera-filter/src/token_filter/japanese_keep_tags.rs     | 2 +-
 lindera-filter/src/token_filter/japanese_number.rs        | 2 +-
 lindera-filter/src/token_filter/japanese_stop_tags.rs     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 3403c13..84493b4 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -30,7 +30,7 @@ impl JapaneseCompoundWordTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
+            for (i, j) in tag_array.iter().enumerate().take(4) {
                 formatted_tag[i] = j;
             }
 
@@ -41,7 +41,7 @@ impl JapaneseCompoundWordTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = new_tag_str.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
+            for (i, j) in tag_array.iter().enumerate().take(4) {
                 formatted_tag[i] = j;
             }
 
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 16a5f63..be548f1 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -23,7 +23,7 @@ impl JapaneseKeepTagsTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
+            for (i, j) in tag_array.iter().enumerate().take(4) {
                 formatted_tag[i] = j;
             }
 
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index f25007d..1574a2b 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -25,7 +25,7 @@ impl JapaneseNumberTokenFilterConfig {
                     let mut formatted_tag = ["*", "*", "*", "*"];
 
                     let tag_array: Vec<&str> = tag.split(',').collect();
-                    for (i, j) in tag_array.iter().enumerate() {
+                    for (i, j) in tag_array.iter().enumerate().take(4) {
                         formatted_tag[i] = j;
                     }
 
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 9e657e1..76f1215 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -23,7 +23,7 @@ impl JapaneseStopTagsTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
+            for (i, j) in tag_array.iter().enumerate().take(4) {
                 formatted_tag[i] = j;
             }
 
-- 
2.43.0


From 7d14988592ed7df50784e748a36b3b4428646d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 08/20] fix: form filters leave tokens without the detail field
 unchanged

---
 .../src/token_filter/japanese_base_form.rs           | 12 +++++++++---
 .../src/token_filter/japanese_reading_form.rs        | 12 +++++++++---
 .../src/token_filter/korean_reading_form.rs          |  4 +++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index baf713f..7bdd750 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -65,15 +65,21 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[10].to_string();
+                    if let Some(detail) = token.details.get(10) {
+                        token.text = detail.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index 03fab89..d6626a7 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -64,15 +64,21 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[7].to_string();
+                    if let Some(detail) = token.details.get(7) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[7].to_string();
+                    if let Some(detail) = token.details.get(7) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/korean_reading_form.rs b/lindera-filter/src/token_filter/korean_reading_form.rs
index fb8df2a..9bb9967 100644
--- a/lindera-filter/src/token_filter/korean_reading_form.rs
+++ b/lindera-filter/src/token_filter/korean_reading_form.rs
@@ -30,7 +30,9 @@ impl TokenFilter for KoreanReadingFormTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
             if token.details[0] != "UNK" {
-                token.text = token.details[3].to_string();
+                if let Some(detail) = token.details.get(3) {
+                    token.text = detail.to_string();
+                }
             }
         }
 
-- 
2.43.0


From 8cac2e6b6a0c4ea891f5718c48f6844746d484d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 09/20] fix: number filter does not crash on numerals followed
 by other text

---
 lindera-filter/src/token_filter/japanese_number.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 1574a2b..97c0f61 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -129,7 +129,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
 
 fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
     let zero_str = format!("{}{}", base, digit);
-    let zero_len = zero_str.len() - num.len();
+    let zero_len = zero_str.len().saturating_sub(num.len());
     let zeros = &zero_str[0..zero_len];
 
     let mut num_str = num.to_owned();
@@ -140,6 +140,8 @@ fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
 fn to_arabic_numerals(from_str: &str) -> String {
     let mut num_buf = String::new();
     let mut digit = String::new();
+    // Converted text following the numeral at hand.
+    let mut tail = String::new();
 
     let from_chars = from_str.chars().rev().collect::<Vec<char>>();
 
@@ -276,12 +278,15 @@ fn to_arabic_numerals(from_str: &str) -> String {
                 }
             }
             _ => {
-                num_buf.insert(0, *c);
+                tail.insert_str(0, &num_buf);
+                tail.insert(0, *c);
+                num_buf.clear();
                 digit.clear();
             }
         }
     }
 
+    num_buf.push_str(&tail);
     num_buf
 }
 
-- 
2.43.0


From d399fd2f2ba5bd93a52936c53865b8f196b03d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 10/20] fix: iteration mark filter reports offsets when lengths
 change

---
 .../japanese_iteration_mark.rs                | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/character_filter/japanese_iteration_mark.rs b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
index 6bb46e5..26ef359 100644
--- a/lindera-filter/src/character_filter/japanese_iteration_mark.rs
+++ b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
@@ -6,7 +6,7 @@ use serde_json::Value;
 use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
-use crate::character_filter::CharacterFilter;
+use crate::character_filter::{add_offset_diff, CharacterFilter};
 
 pub const JAPANESE_ITERATION_MARK_CHARACTER_FILTER_NAME: &str = "japanese_iteration_mark";
 
@@ -186,7 +186,30 @@ impl CharacterFilter for JapaneseIterationMarkCharacterFilter {
             filterd_text.push_str(&self.normalize(&iter_marks, &text_chars));
         }
 
-        Ok((filterd_text, Vec::new(), Vec::new()))
+        // A mark may repeat a character that is not encoded in as many bytes as the mark.
+        let mut offsets: Vec<usize> = Vec::new();
+        let mut diffs: Vec<i64> = Vec::new();
+        let mut input_offset = 0_usize;
+        for (input_char, output_char) in text_chars.iter().zip(filterd_text.chars()) {
+            let diff_len = input_char.len_utf8() as i64 - output_char.len_utf8() as i64;
+            input_offset += input_char.len_utf8();
+
+            let prev_diff = *diffs.last().unwrap_or(&0);
+            if diff_len > 0 {
+                // Replacement is shorter than the mark.
+                let offset = (input_offset as i64 - diff_len - prev_diff) as usize;
+                add_offset_diff(&mut offsets, &mut diffs, offset, prev_diff + diff_len);
+            } else {
+                // Replacement is longer than the mark.
+                let output_offset = (input_offset as i64 - prev_diff) as usize;
+                for extra_idx in 0..diff_len.unsigned_abs() as usize {
+                    let diff = prev_diff - extra_idx as i64 - 1;
+                    add_offset_diff(&mut offsets, &mut diffs, output_offset + extra_idx, diff);
+                }
+            }
+        }
+
+        Ok((filterd_text, offsets, diffs))
     }
 }
 
-- 
2.43.0


From d101968c78affc1985f722e74199993ac3598a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 11/20] fix: user dictionary rows with too few fields are
 reported as an error

---
 lindera-dictionary-builder/src/user_dict.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index d4a1f4d..b4a916d 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -58,6 +58,15 @@ impl UserDictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
+            if row.len() != self.simple_userdic_fields_num
+                && row.len() < self.detailed_userdic_fields_num
+            {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "user dictionary should be a CSV with {} or {}+ fields",
+                    self.simple_userdic_fields_num,
+                    self.detailed_userdic_fields_num
+                )));
+            }
             let surface = row[0].to_string();
             let word_cost = if row.len() == self.simple_userdic_fields_num {
                 self.simple_word_cost
@@ -101,18 +110,12 @@ impl UserDictBuilder {
                         .map(|s| s.to_string())
                         .collect::<Vec<String>>()
                 }
-            } else if row.len() >= self.detailed_userdic_fields_num {
+            } else {
                 let mut tmp_word_detail = Vec::new();
                 for item in row.iter().skip(4) {
                     tmp_word_detail.push(item.to_string());
                 }
                 tmp_word_detail
-            } else {
-                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
-                    "user dictionary should be a CSV with {} or {}+ fields",
-                    self.simple_userdic_fields_num,
-                    self.detailed_userdic_fields_num
-                )));
             };
 
             let offset = words_data.len();
-- 
2.43.0


From 7bdc8894c1b51093b41077066319fa2f0bb48380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 12/20] fix: read an explicit null user dictionary as none

---
 lindera-tokenizer/src/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lindera-tokenizer/src/tokenizer.rs b/lindera-tokenizer/src/tokenizer.rs
index 88c2952..ecf6654 100644
--- a/lindera-tokenizer/src/tokenizer.rs
+++ b/lindera-tokenizer/src/tokenizer.rs
@@ -138,6 +138,8 @@ impl<'de> Deserialize<'de> for TokenizerConfig {
                 }
                 let dictionary =
                     dictionary.ok_or_else(|| de::Error::missing_field("dictionary"))?;
+                // A missing user dictionary and an explicit null both mean none.
+                let user_dictionary = user_dictionary.unwrap_or(None);
                 let mode = mode.unwrap_or(Mode::Normal);
                 Ok(TokenizerConfig {
                     dictionary,
-- 
2.43.0


From 615026e6d5bdc76cf0eace85932e83c58825bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 13/20] fix: report missing and out-of-range numbers in
 matrix.def

---
 lindera-dictionary-builder/src/cost_matrix.rs | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 53367a1..ed23d7c 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -43,16 +43,16 @@ impl CostMatrixBuilder {
         let header = lines_it.next().ok_or_else(|| {
             LinderaErrorKind::Content.with_error(anyhow::anyhow!("unknown error"))
         })?;
-        let forward_size = header[0] as u32;
-        let backward_size = header[1] as u32;
+        let forward_size = number(&header, 0, 0, u16::MAX as i32)? as u32;
+        let backward_size = number(&header, 1, 0, u16::MAX as i32)? as u32;
         let len = 2 + (forward_size * backward_size) as usize;
         let mut costs = vec![i16::MAX; len];
         costs[0] = forward_size as i16;
         costs[1] = backward_size as i16;
         for fields in lines_it {
-            let forward_id = fields[0] as u32;
-            let backward_id = fields[1] as u32;
-            let cost = fields[2] as u16;
+            let forward_id = number(&fields, 0, 0, forward_size as i32 - 1)? as u32;
+            let backward_id = number(&fields, 1, 0, backward_size as i32 - 1)? as u32;
+            let cost = number(&fields, 2, i16::MIN as i32, i16::MAX as i32)? as u16;
             costs[2 + (backward_id + forward_id * backward_size) as usize] = cost as i16;
         }
 
@@ -81,3 +81,14 @@ impl CostMatrixBuilder {
         Ok(())
     }
 }
+
+/// The number at `index`, or an error if it is missing or out of range.
+fn number(fields: &[i32], index: usize, min: i32, max: i32) -> LinderaResult<i32> {
+    match fields.get(index) {
+        Some(n) if min <= *n && *n <= max => Ok(*n),
+        _ => Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+            "missing or invalid number in the matrix definition: {:?}",
+            fields
+        ))),
+    }
+}
-- 
2.43.0


From 9e867fdfc04a1f80e8c9a0c423ba6ebadee0056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 14/20] fix: report short rows, empty dictionaries and NUL in
 words

---
 lindera-dictionary-builder/src/dict.rs      | 15 +++++++++++++++
 lindera-dictionary-builder/src/user_dict.rs |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index c0d8f17..7258183 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -120,6 +120,15 @@ impl DictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
+            if row.len() < 4 {
+                if self.skip_invalid_cost_or_id {
+                    warn!("too few fields: {:?}", row);
+                    continue;
+                } else {
+                    return Err(LinderaErrorKind::Content
+                        .with_error(anyhow::anyhow!("too few fields: {:?}", row)));
+                }
+            }
             let word_cost = match i16::from_str(row[3].trim()) {
                 Ok(wc) => wc,
                 Err(_err) => {
@@ -231,6 +240,12 @@ impl DictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
+        // A double array is not empty and its keys contain no NUL.
+        if keyset.is_empty() || keyset.iter().any(|(key, _)| key.contains(&0)) {
+            return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                "no words, or a word containing a NUL character"
+            )));
+        }
 
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index b4a916d..3e9c74e 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -136,6 +136,12 @@ impl UserDictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
+        // A double array is not empty and its keys contain no NUL.
+        if keyset.is_empty() || keyset.iter().any(|(key, _)| key.contains(&0)) {
+            return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                "no words, or a word containing a NUL character"
+            )));
+        }
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
-- 
2.43.0


From da86dda9462ebe82fe69c9fbd7b07251ad155bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 15/20] fix: report ids and costs beyond 16 bits in unk.def

---
 lindera-core/src/unknown_dictionary.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lindera-core/src/unknown_dictionary.rs b/lindera-core/src/unknown_dictionary.rs
index 996f64c..5d41e7b 100644
--- a/lindera-core/src/unknown_dictionary.rs
+++ b/lindera-core/src/unknown_dictionary.rs
@@ -51,18 +51,19 @@ fn parse_dictionary_entry(
         )));
     }
     let surface = fields[0];
-    let left_id = u32::from_str(fields[1])
+    // Ids and costs are stored with 16 bits.
+    let left_id = u16::from_str(fields[1])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let right_id = u32::from_str(fields[2])
+    let right_id = u16::from_str(fields[2])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let word_cost = i32::from_str(fields[3])
+    let word_cost = i16::from_str(fields[3])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
 
     Ok(UnknownDictionaryEntry {
         surface: surface.to_string(),
-        left_id,
-        right_id,
-        word_cost,
+        left_id: left_id as u32,
+        right_id: right_id as u32,
+        word_cost: word_cost as i32,
     })
 }
 
-- 
2.43.0


From b442b3f2681fe7960fb910803ba4598b7c4952b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 16/20] fix: return build errors of ko-dic and cc-cedict

---
 lindera-cc-cedict-builder/src/cc_cedict_builder.rs | 8 ++++----
 lindera-ko-dic-builder/src/ko_dic_builder.rs       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
index d1845eb..bb92ff6 100644
--- a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
+++ b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for CcCedictBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
diff --git a/lindera-ko-dic-builder/src/ko_dic_builder.rs b/lindera-ko-dic-builder/src/ko_dic_builder.rs
index 67d0142..123e5f1 100644
--- a/lindera-ko-dic-builder/src/ko_dic_builder.rs
+++ b/lindera-ko-dic-builder/src/ko_dic_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for KoDicBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
-- 
2.43.0


From 291df997c6ed1b61e6ad96a676b404fc2d38416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 17/20] fix: report categories that are used but not defined in
 char.def

---
 lindera-core/src/character_definition.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index 19a8d02..353e7b3 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -101,7 +101,7 @@ impl CharacterDefinitions {
 
 #[derive(Default)]
 pub struct CharacterDefinitionsBuilder {
-    category_definition: Vec<CategoryData>,
+    category_definition: Vec<Option<CategoryData>>,
     category_index: HashMap<String, CategoryId>,
     char_ranges: Vec<(u32, u32, Vec<CategoryId>)>,
 }
@@ -161,6 +161,13 @@ impl CharacterDefinitionsBuilder {
                 self.parse_category(line_str)?;
             }
         }
+        // Every category that is mentioned has to be defined.
+        if self.category_definition.len() < self.category_index.len()
+            || self.category_definition.iter().any(|d| d.is_none())
+        {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("a category is used but not defined")));
+        }
         Ok(())
     }
 
@@ -225,9 +232,9 @@ impl CharacterDefinitionsBuilder {
         let CategoryId(index) = self.category_id(fields[0]);
         // The id may have been allocated before, by a range mentioning the category.
         if self.category_definition.len() <= index {
-            self.category_definition.resize(index + 1, category_data);
+            self.category_definition.resize(index + 1, None);
         }
-        self.category_definition[index] = category_data;
+        self.category_definition[index] = Some(category_data);
 
         Ok(())
     }
@@ -241,7 +248,7 @@ impl CharacterDefinitionsBuilder {
         }
         let mapping = self.build_lookup_table();
         CharacterDefinitions {
-            category_definitions: self.category_definition,
+            category_definitions: self.category_definition.into_iter().flatten().collect(),
             category_names,
             mapping,
         }
-- 
2.43.0


From a65801a705f3d43263d791d42187241614d28563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 18/20] fix: find the lexicon's CSV files whatever the
 directory's name

---
 lindera-dictionary-builder/src/dict.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 7258183..b21f08c 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -12,7 +12,7 @@ use csv::StringRecord;
 use derive_builder::Builder;
 use encoding_rs::{Encoding, UTF_8};
 use encoding_rs_io::DecodeReaderBytesBuilder;
-use glob::glob;
+use glob::{glob, Pattern};
 use log::{debug, warn};
 use yada::builder::DoubleArrayBuilder;
 
@@ -43,7 +43,7 @@ pub struct DictBuilder {
 impl DictBuilder {
     pub fn build(&self, input_dir: &Path, output_dir: &Path) -> LinderaResult<()> {
         let pattern = if let Some(path) = input_dir.to_str() {
-            format!("{}/*.csv", path)
+            format!("{}/*.csv", Pattern::escape(path))
         } else {
             return Err(
                 LinderaErrorKind::Io.with_error(anyhow::anyhow!("Failed to convert path to &str."))
-- 
2.43.0


From d6c6986dd0db4b790772e49638d71a7bbbfc6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 19/20] fix: report errors of writing the last part of dict.da

---
 lindera-dictionary-builder/src/dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index b21f08c..a3307db 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -253,6 +253,10 @@ impl DictBuilder {
 
         compress_write(&da_bytes, self.compress_algorithm, &mut wtr_da)?;
 
+        wtr_da
+            .flush()
+            .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
+
         let mut vals_buffer = Vec::new();
         for word_entries in word_entry_map.values() {
             for word_entry in word_entries {
-- 
2.43.0


From 97c755eba278e0b25c5273fcd52bf0124e0e703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:55 +0000
Subject: [PATCH 20/20] fix: token filters do not crash on tokens without
 details

---
 lindera-filter/src/token_filter/japanese_base_form.rs     | 2 +-
 lindera-filter/src/token_filter/japanese_compound_word.rs | 6 +++++-
 lindera-filter/src/token_filter/japanese_keep_tags.rs     | 6 +++++-
 lindera-filter/src/token_filter/japanese_number.rs        | 6 +++++-
 lindera-filter/src/token_filter/japanese_reading_form.rs  | 2 +-
 lindera-filter/src/token_filter/japanese_stop_tags.rs     | 6 +++++-
 lindera-filter/src/token_filter/korean_keep_tags.rs       | 4 +++-
 lindera-filter/src/token_filter/korean_reading_form.rs    | 2 +-
 lindera-filter/src/token_filter/korean_stop_tags.rs       | 4 +++-
 9 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index 7bdd750..ebe8383 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -58,7 +58,7 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.is_empty() || token.details[0] == "UNK" {
                 // NOOP
                 continue;
             }
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 84493b4..00d1573 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -133,7 +133,11 @@ impl TokenFilter for JapaneseCompoundWordTokenFilter {
         let mut compound_token_opt = None;
         for token in tokens.iter_mut() {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = match token.details.len() {
+                0 => 0,
+                1..=3 => 1,
+                _ => 4,
+            };
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index be548f1..b100c30 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -88,7 +88,11 @@ impl TokenFilter for JapaneseKeepTagsTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = match token.details.len() {
+                0 => 0,
+                1..=3 => 1,
+                _ => 4,
+            };
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 97c0f61..3782bd0 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -104,7 +104,11 @@ impl TokenFilter for JapaneseNumberTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
             let mut tag_vec = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = match token.details.len() {
+                0 => 0,
+                1..=3 => 1,
+                _ => 4,
+            };
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 tag_vec[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index d6626a7..17a204c 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -57,7 +57,7 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.is_empty() || token.details[0] == "UNK" {
                 // NOOP
                 continue;
             }
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 76f1215..62ca64b 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -88,7 +88,11 @@ impl TokenFilter for JapaneseStopTagsTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = match token.details.len() {
+                0 => 0,
+                1..=3 => 1,
+                _ => 4,
+            };
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/korean_keep_tags.rs b/lindera-filter/src/token_filter/korean_keep_tags.rs
index 2262289..9ac93d5 100644
--- a/lindera-filter/src/token_filter/korean_keep_tags.rs
+++ b/lindera-filter/src/token_filter/korean_keep_tags.rs
@@ -56,7 +56,9 @@ impl TokenFilter for KoreanKeepTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| {
+            !token.details.is_empty() && self.config.tags.contains(&token.details[0])
+        });
 
         Ok(())
     }
diff --git a/lindera-filter/src/token_filter/korean_reading_form.rs b/lindera-filter/src/token_filter/korean_reading_form.rs
index 9bb9967..a1f20b6 100644
--- a/lindera-filter/src/token_filter/korean_reading_form.rs
+++ b/lindera-filter/src/token_filter/korean_reading_form.rs
@@ -29,7 +29,7 @@ impl TokenFilter for KoreanReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] != "UNK" {
+            if !token.details.is_empty() && token.details[0] != "UNK" {
                 if let Some(detail) = token.details.get(3) {
                     token.text = detail.to_string();
                 }
diff --git a/lindera-filter/src/token_filter/korean_stop_tags.rs b/lindera-filter/src/token_filter/korean_stop_tags.rs
index 1170a5a..c89da7d 100644
--- a/lindera-filter/src/token_filter/korean_stop_tags.rs
+++ b/lindera-filter/src/token_filter/korean_stop_tags.rs
@@ -56,7 +56,9 @@ impl TokenFilter for KoreanStopTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| !self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| {
+            token.details.is_empty() || !self.config.tags.contains(&token.details[0])
+        });
 
         Ok(())
     }
-- 
2.43.0

