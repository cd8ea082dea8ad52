From fce92032ff8667b7603430c827320f12334ed679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 01/17] fix: decode integers of exactly nine bytes (2^56 to
 2^63)

The decoder took a tenth byte whenever nine bytes had been read, also when
the ninth byte said that nothing follows.
---
 src/serialize/primitives.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 55a6816..74ab9a8 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -72,12 +72,13 @@ impl Deserializable for u64 {
     fn deserialize(mut input: &[u8]) -> Option<(&[u8], Self)> {
         let mut out = 0;
         let mut eaten = 0;
+        let mut more_bytes = true;
 
         // We eat all the bytes that start with 1
         while input.is_empty() == false && eaten < 9 {
             // We shift the 7 data bits forwards, so they're all in front
             let byte = input[0];
-            let more_bytes = byte & 0b1000_0000 == 0b1000_0000;
+            more_bytes = byte & 0b1000_0000 == 0b1000_0000;
             let byte = byte << 1;
             out >>= 7;
             // We make the byte u64, and shift the data aaaaall the way to the front
@@ -97,7 +98,7 @@ impl Deserializable for u64 {
         }
 
         // This means there is one last byte with 1 bit of real data
-        if eaten == 9 {
+        if eaten == 9 && more_bytes {
             out >>= 1;
             if *input.get(0)? == 1 {
                 out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
-- 
2.43.0


From 96649a6756cb022fb78e87376c5ebee69b4891ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 02/17] fix: refuse an integer whose last byte is missing

When the input ended after a byte that announced another one the decoder
returned the bits read so far instead of nothing.
---
 src/serialize/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 74ab9a8..656e379 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -105,7 +105,8 @@ impl Deserializable for u64 {
             }
             input = &input[1..];
             Some((input, out))
-        } else if eaten == 0 {
+        } else if more_bytes {
+            // The input ended in the middle of the number
             None
         } else {
             // We need to remove the extra padding from the beginning
-- 
2.43.0


From 68604f4bbd690497b3224ae4199542e4f094d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 03/17] fix: refuse a string that is longer than the remaining
 input

Slicing past the end of a truncated image panicked.
---
 src/serialize/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 593cbf9..746cda0 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -121,7 +121,7 @@ fn test() {
 impl Deserializable for String {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (input, len) = usize::deserialize(input)?;
-        let bytes = &input[..len];
+        let bytes = input.get(..len)?;
         let string = String::from_utf8(bytes.to_vec()).ok()?;
         Some((&input[len..], string))
     }
-- 
2.43.0


From 6d6fc2a63064ae9b74780a3059b1e31600fb2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 04/17] fix: refuse an array of another length instead of
 panicking

An image made for another gram length, or a damaged one, made the loader
panic.
---
 src/serialize/collections.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 746cda0..b5e92aa 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -187,7 +187,9 @@ impl<T: Serializable, const N: usize> Serializable for [T; N] {
 impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
@@ -201,7 +203,9 @@ impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollectio
 impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
-- 
2.43.0


From 850df0a25ba37b8c56832c241eae79513a984137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 05/17] fix: do not reserve memory for more elements than the
 image can hold

A damaged length made the loader reserve that many elements up front, which
panics with a capacity overflow or aborts the process. Every element takes at
least one byte.
---
 src/classic_indexes/categorical.rs | 4 ++--
 src/classic_indexes/tag.rs         | 2 +-
 src/data/vendor.rs                 | 4 ++--
 src/serialize/collections.rs       | 8 ++++----
 src/serialize/nodes.rs             | 2 +-
 src/serialize/sequential_array.rs  | 2 +-
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 2800703..7a77bb2 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -51,7 +51,7 @@ impl<'a> Category<'a> {
         let (input, name) = String::deserialize(input)?;
         let (mut input, options_len) = usize::deserialize(input)?;
 
-        let mut options = Vec::with_capacity(options_len);
+        let mut options = Vec::with_capacity(options_len.min(input.len()));
         for _ in 0..options_len {
             let (input_after_name, name) = String::deserialize(input)?;
 
@@ -162,7 +162,7 @@ impl<'a> CategoryIndex<'a> {
         products: &'a [Product<'a>],
     ) -> Option<(&'i [u8], CategoryIndex<'a>)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut cats = Vec::with_capacity(len);
+        let mut cats = Vec::with_capacity(len.min(input.len()));
         let mut next_option_serialization_id = 0;
         for _ in 0..len {
             let (new_input, cat) =
diff --git a/src/classic_indexes/tag.rs b/src/classic_indexes/tag.rs
index b1b5b14..24024bc 100644
--- a/src/classic_indexes/tag.rs
+++ b/src/classic_indexes/tag.rs
@@ -60,7 +60,7 @@ impl<'a> TagIndex<'a> {
     ) -> Option<(&'i [u8], TagIndex<'a>)> {
         let (input, tag_len) = usize::deserialize(input)?;
         let mut input = input;
-        let mut tags = Vec::with_capacity(tag_len);
+        let mut tags = Vec::with_capacity(tag_len.min(input.len()));
         for id in 0..tag_len {
             let (new_input, name) = String::deserialize(input)?;
 
diff --git a/src/data/vendor.rs b/src/data/vendor.rs
index f53ce78..84dcb87 100644
--- a/src/data/vendor.rs
+++ b/src/data/vendor.rs
@@ -97,8 +97,8 @@ impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'ar
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut tags = AHashMap::with_capacity(len);
-        let mut by_id = Vec::with_capacity(len);
+        let mut tags = AHashMap::with_capacity(len.min(input.len()));
+        let mut by_id = Vec::with_capacity(len.min(input.len()));
         for id in 0..len {
             let (new_input, name) = String::deserialize(input)?;
             input = new_input;
diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index b5e92aa..73e9383 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -38,7 +38,7 @@ impl Serializable for Vec<usize> {
 impl<T: Deserializable> Deserializable for Vec<T> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize(input)?;
             input = new_input;
@@ -59,7 +59,7 @@ impl<'arena, T: ArenaDeserializable<'arena, T>> ArenaDeserializableCollection<'a
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize_arena(input, arena)?;
             input = new_input;
@@ -150,7 +150,7 @@ where
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize_arena(new_input, arena)?;
@@ -164,7 +164,7 @@ where
 impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize(new_input)?;
diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index adb7c99..77cb8f7 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -82,7 +82,7 @@ impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>,
         let (input, roots) = AHashMap::deserialize_arena(input, node_arena)?;
 
         let (mut input, data_len) = usize::deserialize(input)?;
-        let mut data = AHashMap::with_capacity(data_len);
+        let mut data = AHashMap::with_capacity(data_len.min(input.len()));
         for _ in 0..data_len {
             let (next_input, gram) = <[G; N]>::deserialize(input)?;
             let (next_input, products, _) =
diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 22643b3..3ca368a 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -28,7 +28,7 @@ where
 {
     let (mut input, len) = usize::deserialize(input)?;
 
-    let mut output = Vec::with_capacity(len);
+    let mut output = Vec::with_capacity(len.min(input.len()));
     let mut previous = None;
     for _ in 0..len {
         let (new_input, parsed) = T::deserialize(input)?;
-- 
2.43.0


From 1432ccd37af6ca282530d9d9d033c5c18b715dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 06/17] fix: number category options the same way before and
 after loading

Options were numbered in order of first use while indexing but category by
category when loading, so a loaded index was not equal to the saved one as
soon as two categories were used alternately.
---
 src/classic_indexes/categorical.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 7a77bb2..112ec17 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -154,6 +154,12 @@ impl<'a> CategoryIndex<'a> {
             }
         }
 
+        // Options are numbered category by category, the same way they are when deserialized
+        let all_options = categories.iter_mut().flat_map(|c| c.options.iter_mut());
+        for (id, option) in all_options.enumerate() {
+            option.serialization_id = id;
+        }
+
         CategoryIndex(categories)
     }
 
-- 
2.43.0


From c94b77a0ca3666eabfc48247063c637d80953397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 07/17] fix: keep image urls aligned with their products

Features are looked up by product position, but products without media were
skipped when the image urls were collected, so every later product reported
the image of another one.
---
 src/data/raw_parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index f9a4f26..38dc487 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -67,15 +67,15 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
             vendor,
             id,
             options,
-            mut media,
+            media,
             price,
         } = raw;
 
         let mut other_string = AHashMap::with_capacity(1);
 
-        if !media.is_empty() {
-            other_string.insert("image_url", media.swap_remove(0).url);
-        }
+        // Features are stored by product position, so every product needs an entry
+        let image_url = media.first().map_or("", |item| item.url);
+        other_string.insert("image_url", image_url);
 
         let mut other_numeric = AHashMap::with_capacity(1);
 
-- 
2.43.0


From ffb69e639fff0b41729780b5b2b259fd6285deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 08/17] fix: count products, not occurrences, against the 80
 percent cutoff

A gram repeated often inside a few products was dropped as if most products
contained it, and a gram in exactly 80 percent of them was dropped too.
---
 src/ngram/indexer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ngram/indexer.rs b/src/ngram/indexer.rs
index bcb4c09..795e6df 100644
--- a/src/ngram/indexer.rs
+++ b/src/ngram/indexer.rs
@@ -149,12 +149,14 @@ impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex<'a, G, Data, N> {
         let maximum_product_amount = (products_amount as f32) * DATA_CUTOFF_PERCENTAGE;
         #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
         let maximum_product_amount = maximum_product_amount as usize;
-        data_map.retain(|_, data| data.len() < maximum_product_amount);
-
-        // We also sort the data for easier access later
-        for (_, data) in data_map.iter_mut() {
+        data_map.retain(|_, data| {
+            // We sort the data for easier access later
             data.sort();
-        }
+            // A product is listed once for every occurance, but only counts once
+            let mut products = data.clone();
+            products.dedup();
+            products.len() <= maximum_product_amount
+        });
 
         GramIndex {
             roots,
-- 
2.43.0


From 36eba734a0470fb13984528f7b54c5fd224b7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 09/17] fix: apply exact feature filters

Reflect::get answers undefined for a missing key, so every filter was taken
for a range filter without bounds and exact filters accepted everything.
---
 src/js_interactable/feature_filter.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/js_interactable/feature_filter.rs b/src/js_interactable/feature_filter.rs
index 707aa02..43acdc2 100644
--- a/src/js_interactable/feature_filter.rs
+++ b/src/js_interactable/feature_filter.rs
@@ -39,20 +39,16 @@ impl FeatureFilter {
             let feature = entry.get(0).as_string()?;
             let values = entry.get(1);
 
-            if let Some(from) = get_value(&values, "from") {
-                if let Some(to) = get_value(&values, "to") {
-                    out.push(FeatureFilter {
-                        data: FilterData::Range { from, to },
-                        feature,
-                    });
-                    continue;
-                }
-            }
+            // A missing key is returned as undefined
+            let from = get_value(&values, "from")?;
+            let to = get_value(&values, "to")?;
             let exact = get_value(&values, "exact")?;
-            out.push(FeatureFilter {
-                feature,
-                data: FilterData::Exact(exact),
-            });
+            let data = if from.is_undefined() && to.is_undefined() && !exact.is_undefined() {
+                FilterData::Exact(exact)
+            } else {
+                FilterData::Range { from, to }
+            };
+            out.push(FeatureFilter { feature, data });
         }
         Some(out)
     }
-- 
2.43.0


From c0d51c78269ecc465e56bd5e6961814d9eeb70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 10/17] fix: measure tag similarity in characters

Matching characters were divided by the length in bytes, so a tag with
non-ASCII letters was never suggested, not even for its exact name.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a08707..edd1359 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,7 +149,7 @@ impl TagSuggestionResult {
 #[wasm_bindgen]
 pub fn tag_suggestion(query: &str) -> Option<TagSuggestionResult> {
     fn overlap(original: &str, other: &str, min_len: usize) -> f32 {
-        let min_len_found = original.len().min(other.len());
+        let min_len_found = original.chars().count().min(other.chars().count());
         if min_len_found < min_len {
             return 0.0;
         }
-- 
2.43.0


From 9c860845d49b767aaa5dbddd0e83a07a89440588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 11/17] fix: keep shortened strings within the limit and
 non-empty

Without a space to cut at the result ended after the character crossing the
limit, a string whose last character crosses it was not shortened, and a
leading space as only candidate left nothing.
---
 src/serialize/collections.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 73e9383..2def342 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -85,20 +85,23 @@ impl Serializable for String {
 }
 
 fn limit_string_len(input: &str, max_len: usize) -> &str {
+    if input.len() <= max_len {
+        return input;
+    }
     let mut last_candidate = None;
+    let mut last_offset = 0;
     for (offset, char) in input.char_indices() {
         if offset > max_len {
-            // Then we return either the last viable candidate, or now
-            return match last_candidate {
-                Some(viable) => &input[0..viable],
-                None => &input[0..offset],
-            };
+            break;
         }
-        if char == ' ' {
+        last_offset = offset;
+        // Cutting at a leading space would leave nothing
+        if char == ' ' && offset > 0 {
             last_candidate = Some(offset);
         }
     }
-    input
+    // We return either up to the last viable candidate, or as much as fits
+    &input[..last_candidate.unwrap_or(last_offset)]
 }
 
 pub fn serialize_string_with_limit<Out: FnMut(u8)>(input: &str, max_len: usize, output: &mut Out) {
-- 
2.43.0


From 28e449d511720b08838b70b671029324933169fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 12/17] fix: replace both halves of the index at once

The gram index and the category, tag and order indexes were replaced one
after the other, so a search running in between sorted products of one image
by the ranks of another (and panicked when it had fewer products), and two
concurrent loads could leave halves of different images in place.
---
 src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index edd1359..2974218 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -51,11 +51,12 @@ pub fn initialize(input: &[u8]) -> bool {
 
     let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
 
-    SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
-    SHARED_CLASSIC_INDEX
-        .lock()
-        .unwrap()
-        .replace(Arc::new(classic));
+    // Both are replaced while both are locked, so nobody sees one without the other.
+    // The locks are taken in the same order as in search.
+    let mut shared_index = SHARED_INDEX.lock().unwrap();
+    let mut shared_classic_index = SHARED_CLASSIC_INDEX.lock().unwrap();
+    shared_index.replace(Arc::new(index));
+    shared_classic_index.replace(Arc::new(classic));
 
     true
 }
-- 
2.43.0


From b8af650a3522671fc34cdff2028445e4ba26632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 13/17] fix: accept catalogue strings that contain JSON escapes

The string fields borrowed from the document, which is impossible for a
string with an escape, so a catalogue with a quote or a line break in any
title, tag, option, id or url was refused as a whole.
---
 src/data/raw_parser.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index 38dc487..b309736 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -1,5 +1,5 @@
 use serde::Deserialize;
-use std::sync::Arc;
+use std::{borrow::Cow, sync::Arc};
 
 use ahash::AHashMap;
 
@@ -26,16 +26,20 @@ pub struct ProductPrice {
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct MediaItem<'a> {
-    pub url: &'a str,
+    #[serde(borrow)]
+    pub url: Cow<'a, str>,
 }
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct RawProduct<'a> {
     pub description: String,
-    pub tags: Vec<&'a str>,
-    pub title: &'a str,
-    pub vendor: &'a str,
-    pub id: &'a str,
+    pub tags: Vec<Cow<'a, str>>,
+    #[serde(borrow)]
+    pub title: Cow<'a, str>,
+    #[serde(borrow)]
+    pub vendor: Cow<'a, str>,
+    #[serde(borrow)]
+    pub id: Cow<'a, str>,
     pub options: Vec<RawProductOption<'a>>,
     pub price: ProductPrice,
     pub media: Vec<MediaItem<'a>>,
@@ -43,18 +47,19 @@ pub struct RawProduct<'a> {
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct RawProductOption<'a> {
-    pub name: &'a str,
-    pub values: Vec<&'a str>,
+    #[serde(borrow)]
+    pub name: Cow<'a, str>,
+    pub values: Vec<Cow<'a, str>>,
 }
 
 pub struct IntermediateRawProduct<'a> {
-    pub title: &'a str,
+    pub title: Cow<'a, str>,
     pub description: String,
-    pub tags: Vec<&'a str>,
-    pub vendor: &'a str,
-    pub id: &'a str,
+    pub tags: Vec<Cow<'a, str>>,
+    pub vendor: Cow<'a, str>,
+    pub id: Cow<'a, str>,
     pub options: Vec<RawProductOption<'a>>,
-    pub other_string: AHashMap<&'a str, &'a str>,
+    pub other_string: AHashMap<&'a str, Cow<'a, str>>,
     pub other_numeric: AHashMap<&'a str, f32>,
 }
 
@@ -74,7 +79,7 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
         let mut other_string = AHashMap::with_capacity(1);
 
         // Features are stored by product position, so every product needs an entry
-        let image_url = media.first().map_or("", |item| item.url);
+        let image_url = media.into_iter().next().map_or(Cow::Borrowed(""), |m| m.url);
         other_string.insert("image_url", image_url);
 
         let mut other_numeric = AHashMap::with_capacity(1);
@@ -102,7 +107,7 @@ pub fn optimize(
 
     // We insert all the tags/vendors
     for product in &input {
-        vendors.insert(product.vendor);
+        vendors.insert(&product.vendor);
     }
 
     let vendors: Arc<VendorManager<'static>> = Arc::new(vendors);
@@ -157,7 +162,11 @@ pub fn optimize(
     // We make the products read only
     let out = &*out;
 
-    let tag_index = TagIndex::index(tags_for_product, out);
+    let tag_names = tags_for_product
+        .iter()
+        .map(|tags| tags.iter().map(AsRef::as_ref).collect())
+        .collect();
+    let tag_index = TagIndex::index(tag_names, out);
 
     let mut order = OrderIndex::new();
     // Alphabetical
-- 
2.43.0


From 6286bfe6841bb3bffb52b1a6fee88b6573480a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 14/17] Add lock instrumentation behind --cfg verif_sched

With the flag off nothing changes. With it the two shared indexes use a mutex
that reports acquisitions and releases to a hook.
---
 src/lib.rs         | 10 ++++++-
 src/verif_sched.rs | 69 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 78 insertions(+), 1 deletion(-)
 create mode 100644 src/verif_sched.rs

diff --git a/src/lib.rs b/src/lib.rs
index 2974218..77782b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,8 +5,11 @@
 #![allow(clippy::missing_panics_doc)]
 #![allow(clippy::missing_errors_doc)]
 #![allow(clippy::module_name_repetitions)]
+#![allow(unexpected_cfgs)]
 
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(verif_sched))]
+use std::sync::Mutex;
 
 use classic_indexes::ClassicIndexes;
 use colosseum::sync::Arena;
@@ -22,6 +25,11 @@ pub mod ngram;
 pub mod preprocessor;
 mod serde_array;
 pub mod serialize;
+#[cfg(verif_sched)]
+pub mod verif_sched;
+
+#[cfg(verif_sched)]
+use verif_sched::Mutex;
 
 const NGRAM_INDEX_SIZE: usize = 5;
 type Index = GramIndex<'static, char, Product<'static>, NGRAM_INDEX_SIZE>;
diff --git a/src/verif_sched.rs b/src/verif_sched.rs
new file mode 100644
index 0000000..a5c2c1c
--- /dev/null
+++ b/src/verif_sched.rs
@@ -0,0 +1,69 @@
+//! Lock instrumentation for schedule exploration, only compiled with `--cfg verif_sched`.
+//! Behaves like `std::sync::Mutex` and reports every acquisition and release to `HOOK` if one is set.
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, OnceLock, PoisonError};
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Event {
+    /// Reported before the lock is taken
+    Acquire,
+    /// Reported after the lock was released
+    Release,
+}
+
+pub static HOOK: OnceLock<fn(Event, usize)> = OnceLock::new();
+
+fn report(event: Event, lock: usize) {
+    if let Some(hook) = HOOK.get() {
+        hook(event, lock);
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+#[derive(Debug)]
+pub struct MutexGuard<'a, T> {
+    guard: Option<std::sync::MutexGuard<'a, T>>,
+    lock: usize,
+}
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Mutex(std::sync::Mutex::new(value))
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        let lock = self as *const Self as usize;
+        report(Event::Acquire, lock);
+        let wrap = |guard| MutexGuard {
+            guard: Some(guard),
+            lock,
+        };
+        match self.0.lock() {
+            Ok(guard) => Ok(wrap(guard)),
+            Err(e) => Err(PoisonError::new(wrap(e.into_inner()))),
+        }
+    }
+}
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        self.guard.take();
+        report(Event::Release, self.lock);
+    }
+}
-- 
2.43.0


From 7ae10eca23adead697a0098f24f9184c91d39cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 15/17] Remove the lock instrumentation again

The checks compile the crate against a stand-in for std instead.
---
 src/lib.rs         | 10 +------
 src/verif_sched.rs | 69 ----------------------------------------------
 2 files changed, 1 insertion(+), 78 deletions(-)
 delete mode 100644 src/verif_sched.rs

diff --git a/src/lib.rs b/src/lib.rs
index 77782b7..2974218 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,11 +5,8 @@
 #![allow(clippy::missing_panics_doc)]
 #![allow(clippy::missing_errors_doc)]
 #![allow(clippy::module_name_repetitions)]
-#![allow(unexpected_cfgs)]
 
-use std::sync::Arc;
-#[cfg(not(verif_sched))]
-use std::sync::Mutex;
+use std::sync::{Arc, Mutex};
 
 use classic_indexes::ClassicIndexes;
 use colosseum::sync::Arena;
@@ -25,11 +22,6 @@ pub mod ngram;
 pub mod preprocessor;
 mod serde_array;
 pub mod serialize;
-#[cfg(verif_sched)]
-pub mod verif_sched;
-
-#[cfg(verif_sched)]
-use verif_sched::Mutex;
 
 const NGRAM_INDEX_SIZE: usize = 5;
 type Index = GramIndex<'static, char, Product<'static>, NGRAM_INDEX_SIZE>;
diff --git a/src/verif_sched.rs b/src/verif_sched.rs
deleted file mode 100644
index a5c2c1c..0000000
--- a/src/verif_sched.rs
+++ /dev/null
@@ -1,69 +0,0 @@
-//! Lock instrumentation for schedule exploration, only compiled with `--cfg verif_sched`.
-//! Behaves like `std::sync::Mutex` and reports every acquisition and release to `HOOK` if one is set.
-use std::ops::{Deref, DerefMut};
-use std::sync::{LockResult, OnceLock, PoisonError};
-
-#[derive(Clone, Copy, Debug, PartialEq, Eq)]
-pub enum Event {
-    /// Reported before the lock is taken
-    Acquire,
-    /// Reported after the lock was released
-    Release,
-}
-
-pub static HOOK: OnceLock<fn(Event, usize)> = OnceLock::new();
-
-fn report(event: Event, lock: usize) {
-    if let Some(hook) = HOOK.get() {
-        hook(event, lock);
-    }
-}
-
-#[derive(Debug, Default)]
-pub struct Mutex<T>(std::sync::Mutex<T>);
-
-#[derive(Debug)]
-pub struct MutexGuard<'a, T> {
-    guard: Option<std::sync::MutexGuard<'a, T>>,
-    lock: usize,
-}
-
-impl<T> Mutex<T> {
-    pub const fn new(value: T) -> Self {
-        Mutex(std::sync::Mutex::new(value))
-    }
-
-    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
-        let lock = self as *const Self as usize;
-        report(Event::Acquire, lock);
-        let wrap = |guard| MutexGuard {
-            guard: Some(guard),
-            lock,
-        };
-        match self.0.lock() {
-            Ok(guard) => Ok(wrap(guard)),
-            Err(e) => Err(PoisonError::new(wrap(e.into_inner()))),
-        }
-    }
-}
-
-impl<T> Deref for MutexGuard<'_, T> {
-    type Target = T;
-
-    fn deref(&self) -> &T {
-        self.guard.as_ref().unwrap()
-    }
-}
-
-impl<T> DerefMut for MutexGuard<'_, T> {
-    fn deref_mut(&mut self) -> &mut T {
-        self.guard.as_mut().unwrap()
-    }
-}
-
-impl<T> Drop for MutexGuard<'_, T> {
-    fn drop(&mut self) {
-        self.guard.take();
-        report(Event::Release, self.lock);
-    }
-}
-- 
2.43.0


From 5d93ea672472d795667511c25df4c4ca28a5152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:47 +0000
Subject: [PATCH 16/17] fix: a damaged id list makes the loader of a debug
 build panic

The sum of the differences need not fit the type of the ids; a list in which
it does not is refused now, in every kind of build.
---
 src/serialize/sequential_array.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 3ca368a..fb6ad94 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -1,5 +1,22 @@
 use super::{Deserializable, Serializable};
 
+/// The types `deserialize` can add up without overflowing
+pub trait CheckedAdd: Sized {
+    fn checked_add(self, other: Self) -> Option<Self>;
+}
+
+macro_rules! impl_checked_add {
+    ($($number:ty),+) => {
+        $(impl CheckedAdd for $number {
+            fn checked_add(self, other: Self) -> Option<Self> {
+                <$number>::checked_add(self, other)
+            }
+        })+
+    };
+}
+
+impl_checked_add!(u8, u32, u64, usize);
+
 pub fn serialize<T, I, Out: FnMut(u8)>(input: I, output: &mut Out)
 where
     T: std::ops::Sub<Output = T> + Ord + Serializable + Copy,
@@ -24,7 +41,7 @@ where
 
 pub fn deserialize<T>(input: &[u8]) -> Option<(&[u8], Vec<T>)>
 where
-    T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,
+    T: CheckedAdd + Ord + Serializable + Deserializable + Copy,
 {
     let (mut input, len) = usize::deserialize(input)?;
 
@@ -35,7 +52,8 @@ where
         input = new_input;
 
         let item = match previous {
-            Some(previous) => parsed + previous,
+            // The sum does not fit in a damaged input
+            Some(previous) => parsed.checked_add(previous)?,
             None => parsed,
         };
 
-- 
2.43.0


From c194d2bff6bbb3edef5362f39df7ed17a360a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:47 +0000
Subject: [PATCH 17/17] fix: the number of a product with more than 19 digits
 panics in a debug build

The place value of the digit behind the last one that fits a u64 was computed
too, so that ids of 20 digits panicked even if their number fits.
---
 src/data/product.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/data/product.rs b/src/data/product.rs
index 382dee3..aa09535 100644
--- a/src/data/product.rs
+++ b/src/data/product.rs
@@ -18,15 +18,16 @@ pub struct Product<'a> {
 
 impl Product<'_> {
     pub fn get_id(&self) -> u64 {
-        let mut out = 0;
-        let mut multiplier = 1;
+        let mut out = 0u64;
+        let mut multiplier = 1u64;
         for char in self.id.chars().rev() {
             let n = match char.to_digit(10) {
                 Some(v) => u64::from(v),
                 None => break,
             };
-            out += n * multiplier;
-            multiplier *= 10;
+            // An id can end in more digits than a u64 has
+            out = out.wrapping_add(n.wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(10);
         }
         out
     }
-- 
2.43.0

