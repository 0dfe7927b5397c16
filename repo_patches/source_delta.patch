From 80042737ade036cbd2d2b5d29a4603f662a85267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 01/14] fix: reject a string whose length exceeds the remaining
 input

---
 src/serialize/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 593cbf9..746cda0 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -121,7 +121,7 @@ fn test() {
 impl Deserializable for String {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (input, len) = usize::deserialize(input)?;
-        let bytes = &input[..len];
+        let bytes = input.get(..len)?;
         let string = String::from_utf8(bytes.to_vec()).ok()?;
         Some((&input[len..], string))
     }
-- 
2.43.0


From b2956dac2ad19aca26db5240042af349ee8db13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 02/14] fix: read 9 byte integers and reject truncated ones

---
 src/serialize/primitives.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 55a6816..ebd76b6 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -72,12 +72,13 @@ impl Deserializable for u64 {
     fn deserialize(mut input: &[u8]) -> Option<(&[u8], Self)> {
         let mut out = 0;
         let mut eaten = 0;
+        let mut more_bytes = true;
 
         // We eat all the bytes that start with 1
         while input.is_empty() == false && eaten < 9 {
             // We shift the 7 data bits forwards, so they're all in front
             let byte = input[0];
-            let more_bytes = byte & 0b1000_0000 == 0b1000_0000;
+            more_bytes = byte & 0b1000_0000 == 0b1000_0000;
             let byte = byte << 1;
             out >>= 7;
             // We make the byte u64, and shift the data aaaaall the way to the front
@@ -97,14 +98,15 @@ impl Deserializable for u64 {
         }
 
         // This means there is one last byte with 1 bit of real data
-        if eaten == 9 {
+        if eaten == 9 && more_bytes {
             out >>= 1;
             if *input.get(0)? == 1 {
                 out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
             }
             input = &input[1..];
             Some((input, out))
-        } else if eaten == 0 {
+        } else if more_bytes {
+            // The input ended before the last byte of the number
             None
         } else {
             // We need to remove the extra padding from the beginning
-- 
2.43.0


From 44f0b572c645a1fca9b99fbd376ab4cf93019e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 03/14] fix: reject arrays of the wrong length instead of
 panicking

---
 src/serialize/collections.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 746cda0..b5e92aa 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -187,7 +187,9 @@ impl<T: Serializable, const N: usize> Serializable for [T; N] {
 impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
@@ -201,7 +203,9 @@ impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollectio
 impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
-- 
2.43.0


From 84b60d034c07f0f88a8ab7ed2ddc1b3d85d69f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 04/14] fix: reject id lists whose differences overflow

---
 src/serialize/sequential_array.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 22643b3..0615afd 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -22,20 +22,17 @@ where
     }
 }
 
-pub fn deserialize<T>(input: &[u8]) -> Option<(&[u8], Vec<T>)>
-where
-    T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,
-{
+pub fn deserialize(input: &[u8]) -> Option<(&[u8], Vec<usize>)> {
     let (mut input, len) = usize::deserialize(input)?;
 
     let mut output = Vec::with_capacity(len);
-    let mut previous = None;
+    let mut previous: Option<usize> = None;
     for _ in 0..len {
-        let (new_input, parsed) = T::deserialize(input)?;
+        let (new_input, parsed) = usize::deserialize(input)?;
         input = new_input;
 
         let item = match previous {
-            Some(previous) => parsed + previous,
+            Some(previous) => parsed.checked_add(previous)?,
             None => parsed,
         };
 
-- 
2.43.0


From 6c2c3eb684872a0b83f542fafc3427ca487d401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 05/14] fix: do not reserve memory for lengths the input cannot
 hold

---
 src/classic_indexes/categorical.rs | 4 ++--
 src/classic_indexes/tag.rs         | 2 +-
 src/data/vendor.rs                 | 4 ++--
 src/serialize/collections.rs       | 8 ++++----
 src/serialize/nodes.rs             | 2 +-
 src/serialize/sequential_array.rs  | 2 +-
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 2800703..7a77bb2 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -51,7 +51,7 @@ impl<'a> Category<'a> {
         let (input, name) = String::deserialize(input)?;
         let (mut input, options_len) = usize::deserialize(input)?;
 
-        let mut options = Vec::with_capacity(options_len);
+        let mut options = Vec::with_capacity(options_len.min(input.len()));
         for _ in 0..options_len {
             let (input_after_name, name) = String::deserialize(input)?;
 
@@ -162,7 +162,7 @@ impl<'a> CategoryIndex<'a> {
         products: &'a [Product<'a>],
     ) -> Option<(&'i [u8], CategoryIndex<'a>)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut cats = Vec::with_capacity(len);
+        let mut cats = Vec::with_capacity(len.min(input.len()));
         let mut next_option_serialization_id = 0;
         for _ in 0..len {
             let (new_input, cat) =
diff --git a/src/classic_indexes/tag.rs b/src/classic_indexes/tag.rs
index b1b5b14..24024bc 100644
--- a/src/classic_indexes/tag.rs
+++ b/src/classic_indexes/tag.rs
@@ -60,7 +60,7 @@ impl<'a> TagIndex<'a> {
     ) -> Option<(&'i [u8], TagIndex<'a>)> {
         let (input, tag_len) = usize::deserialize(input)?;
         let mut input = input;
-        let mut tags = Vec::with_capacity(tag_len);
+        let mut tags = Vec::with_capacity(tag_len.min(input.len()));
         for id in 0..tag_len {
             let (new_input, name) = String::deserialize(input)?;
 
diff --git a/src/data/vendor.rs b/src/data/vendor.rs
index f53ce78..84dcb87 100644
--- a/src/data/vendor.rs
+++ b/src/data/vendor.rs
@@ -97,8 +97,8 @@ impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'ar
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut tags = AHashMap::with_capacity(len);
-        let mut by_id = Vec::with_capacity(len);
+        let mut tags = AHashMap::with_capacity(len.min(input.len()));
+        let mut by_id = Vec::with_capacity(len.min(input.len()));
         for id in 0..len {
             let (new_input, name) = String::deserialize(input)?;
             input = new_input;
diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index b5e92aa..73e9383 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -38,7 +38,7 @@ impl Serializable for Vec<usize> {
 impl<T: Deserializable> Deserializable for Vec<T> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize(input)?;
             input = new_input;
@@ -59,7 +59,7 @@ impl<'arena, T: ArenaDeserializable<'arena, T>> ArenaDeserializableCollection<'a
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize_arena(input, arena)?;
             input = new_input;
@@ -150,7 +150,7 @@ where
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize_arena(new_input, arena)?;
@@ -164,7 +164,7 @@ where
 impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize(new_input)?;
diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index adb7c99..77cb8f7 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -82,7 +82,7 @@ impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>,
         let (input, roots) = AHashMap::deserialize_arena(input, node_arena)?;
 
         let (mut input, data_len) = usize::deserialize(input)?;
-        let mut data = AHashMap::with_capacity(data_len);
+        let mut data = AHashMap::with_capacity(data_len.min(input.len()));
         for _ in 0..data_len {
             let (next_input, gram) = <[G; N]>::deserialize(input)?;
             let (next_input, products, _) =
diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 0615afd..8283887 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -25,7 +25,7 @@ where
 pub fn deserialize(input: &[u8]) -> Option<(&[u8], Vec<usize>)> {
     let (mut input, len) = usize::deserialize(input)?;
 
-    let mut output = Vec::with_capacity(len);
+    let mut output = Vec::with_capacity(len.min(input.len()));
     let mut previous: Option<usize> = None;
     for _ in 0..len {
         let (new_input, parsed) = usize::deserialize(input)?;
-- 
2.43.0


From c47f6593c81e5541a6be28d0d838dbfbf7b42bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 06/14] fix: initialize reports malformed input and publishes
 both indexes together

---
 src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a08707..6dfd7d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,13 +49,16 @@ pub fn init_panic_hook() {
 pub fn initialize(input: &[u8]) -> bool {
     init_panic_hook();
 
-    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
-
-    SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
-    SHARED_CLASSIC_INDEX
-        .lock()
-        .unwrap()
-        .replace(Arc::new(classic));
+    let (index, classic) = match deserialize_all(input, &NODE_ARENA, &SUPER_ARENA) {
+        Some(v) => v,
+        None => return false,
+    };
+
+    // Both are replaced under both locks, so no reader sees one without the other
+    let mut shared_index = SHARED_INDEX.lock().unwrap();
+    let mut shared_classic = SHARED_CLASSIC_INDEX.lock().unwrap();
+    shared_index.replace(Arc::new(index));
+    shared_classic.replace(Arc::new(classic));
 
     true
 }
-- 
2.43.0


From 64685f552096741ea78c7a2b261241ee1d5206ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 07/14] fix: ordering results by a short order list does not
 panic

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6dfd7d6..8826950 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,7 +96,7 @@ pub fn search(
         let lock = SHARED_CLASSIC_INDEX.lock().ok()?;
         let classic = lock.as_ref()?;
         let order = classic.order.get_orders(&order)?;
-        results.sort_by_cached_key(|v| order[*v]);
+        results.sort_by_cached_key(|v| order.get(*v).copied());
     }
 
     Some(ProductProducer::new(index.product_container, results))
-- 
2.43.0


From fdd95f4e6adc1ff3351c35da52b1e064107d614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 08/14] fix: tag suggestion compares lengths in characters

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8826950..2f29b8a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -152,7 +152,7 @@ impl TagSuggestionResult {
 #[wasm_bindgen]
 pub fn tag_suggestion(query: &str) -> Option<TagSuggestionResult> {
     fn overlap(original: &str, other: &str, min_len: usize) -> f32 {
-        let min_len_found = original.len().min(other.len());
+        let min_len_found = original.chars().count().min(other.chars().count());
         if min_len_found < min_len {
             return 0.0;
         }
-- 
2.43.0


From 235d155b77261f09ac8ed5747bae4748cb66973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 09/14] fix: products without media keep the image column
 aligned

---
 src/data/raw_parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index f9a4f26..7c656df 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -67,15 +67,14 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
             vendor,
             id,
             options,
-            mut media,
+            media,
             price,
         } = raw;
 
         let mut other_string = AHashMap::with_capacity(1);
 
-        if !media.is_empty() {
-            other_string.insert("image_url", media.swap_remove(0).url);
-        }
+        // Every product needs a value, since columns are read by product position
+        other_string.insert("image_url", media.first().map_or("", |item| item.url));
 
         let mut other_numeric = AHashMap::with_capacity(1);
 
-- 
2.43.0


From 37acdc4b903ce1523cc4ba5899a0f9796912ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 10/14] fix: number category options by position, as the reader
 does

---
 src/classic_indexes/categorical.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 7a77bb2..d12d8dc 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -122,7 +122,6 @@ impl<'a> CategoryIndex<'a> {
         container: &'a ProductContainer<'a>,
     ) -> CategoryIndex<'a> {
         let mut categories: Vec<Category> = Vec::new();
-        let mut next_serialization_id = 0;
         // Then we register the categories for the options now they're read only
         for (i, options) in options_list.into_iter().enumerate() {
             for raw_option in options {
@@ -140,9 +139,7 @@ impl<'a> CategoryIndex<'a> {
                     let option = match category.options.iter_mut().find(|o| o.name == raw_value) {
                         Some(v) => v,
                         None => {
-                            let new =
-                                CategoryOption::new(raw_value.to_string(), next_serialization_id);
-                            next_serialization_id += 1;
+                            let new = CategoryOption::new(raw_value.to_string(), 0);
                             category.options.push(new);
                             let just_inserted = category.options.len() - 1;
                             category.options.get_mut(just_inserted).unwrap()
@@ -154,6 +151,12 @@ impl<'a> CategoryIndex<'a> {
             }
         }
 
+        // Options are numbered by position, as they are when read back
+        let options = categories.iter_mut().flat_map(|c| c.options.iter_mut());
+        for (id, option) in options.enumerate() {
+            option.serialization_id = id;
+        }
+
         CategoryIndex(categories)
     }
 
-- 
2.43.0


From de1c5d42a4236bef6741cf7a4ca8c301d12b9574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 11/14] fix: exact feature filters are recognised

---
 src/js_interactable/feature_filter.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/js_interactable/feature_filter.rs b/src/js_interactable/feature_filter.rs
index 707aa02..ec1d080 100644
--- a/src/js_interactable/feature_filter.rs
+++ b/src/js_interactable/feature_filter.rs
@@ -39,16 +39,19 @@ impl FeatureFilter {
             let feature = entry.get(0).as_string()?;
             let values = entry.get(1);
 
-            if let Some(from) = get_value(&values, "from") {
-                if let Some(to) = get_value(&values, "to") {
-                    out.push(FeatureFilter {
-                        data: FilterData::Range { from, to },
-                        feature,
-                    });
-                    continue;
+            // A missing key reads as undefined
+            let exact = get_value(&values, "exact")?;
+            if exact.is_undefined() {
+                if let Some(from) = get_value(&values, "from") {
+                    if let Some(to) = get_value(&values, "to") {
+                        out.push(FeatureFilter {
+                            data: FilterData::Range { from, to },
+                            feature,
+                        });
+                        continue;
+                    }
                 }
             }
-            let exact = get_value(&values, "exact")?;
             out.push(FeatureFilter {
                 feature,
                 data: FilterData::Exact(exact),
-- 
2.43.0


From 66aac0d399f305e1c59bb48ebc6c066690917b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 12/14] fix: sort prices and confidences by a total order

---
 src/data/raw_parser.rs     | 9 +++------
 src/ngram/result_ranker.rs | 6 +-----
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index 7c656df..c743fca 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -162,12 +162,13 @@ pub fn optimize(
     // Alphabetical
     order.add(out, &|product, _| &product.title, "Alphabetical".to_owned());
     // Price
-    order.add(
+    order.add_custom_cmp(
         out,
         &|product, extra| match extra.get(product, "price") {
             Some(FeatureValue::Float(v)) => v,
             _ => panic!("Only expected price as float"),
         },
+        &|a: &f32, b: &f32| a.total_cmp(b),
         "Price low to high".to_owned(),
     );
     order.add_custom_cmp(
@@ -176,11 +177,7 @@ pub fn optimize(
             Some(FeatureValue::Float(v)) => v,
             _ => panic!("Only expected price as float"),
         },
-        &|a, b| {
-            a.partial_cmp(b)
-                .unwrap_or(std::cmp::Ordering::Equal)
-                .reverse()
-        },
+        &|a: &f32, b: &f32| b.total_cmp(a),
         "Price high to low".to_owned(),
     );
 
diff --git a/src/ngram/result_ranker.rs b/src/ngram/result_ranker.rs
index 2eafed9..7631d70 100644
--- a/src/ngram/result_ranker.rs
+++ b/src/ngram/result_ranker.rs
@@ -44,11 +44,7 @@ impl<'a, H: Hash + Eq, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Dat
 
     pub fn export_data_by_confidence(mut self) -> Vec<(&'a Data, f32)> {
         let mut all_data: Vec<_> = self.confidence_for_data.drain().map(|(_, v)| v).collect();
-        all_data.sort_by(|(_, a), (_, b)| {
-            a.partial_cmp(b)
-                .unwrap_or(std::cmp::Ordering::Equal)
-                .reverse()
-        });
+        all_data.sort_by(|(_, a), (_, b)| b.total_cmp(a));
         all_data
     }
 
-- 
2.43.0


From 6991daef1b5840e23dd79aed3d5083d9344ae1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 13/14] fix: a long description starting with a space is not
 cut to nothing

---
 src/serialize/collections.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 73e9383..3e3babe 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -94,7 +94,8 @@ fn limit_string_len(input: &str, max_len: usize) -> &str {
                 None => &input[0..offset],
             };
         }
-        if char == ' ' {
+        // A space at the start would leave nothing
+        if char == ' ' && offset > 0 {
             last_candidate = Some(offset);
         }
     }
-- 
2.43.0


From e122d70e2980ef2c9f6abb2cafeaabbd4921ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 14/14] fix: reject word trees nested deeper than any index

---
 src/serialize/nodes.rs | 48 ++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index 77cb8f7..86ca38e 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -35,22 +35,42 @@ impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena,
     where
         'arena: 'input,
     {
-        let (input, item) = <G as Deserializable>::deserialize(input)?;
-        let (input, weight) = f32::deserialize(input)?;
-        let (input, by_occurances) = Vec::deserialize_arena(input, arena)?;
-        let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
-            map.insert(item.item, *item);
-            map
-        });
+        deserialize_node(input, arena, 0)
+    }
+}
+
+// Nodes are nested no deeper than a gram is long, deeper input would only exhaust the stack
+const MAX_NODE_DEPTH: usize = 128;
 
-        let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
-            item,
-            weight,
-            by_occurances,
-            items,
-        });
-        Some((input, node))
+fn deserialize_node<'input, 'arena: 'input, G: GramAtom>(
+    input: &'input [u8],
+    arena: &'arena Arena<GramNode<'arena, G>>,
+    depth: usize,
+) -> Option<(&'input [u8], &'arena GramNode<'arena, G>)> {
+    if depth >= MAX_NODE_DEPTH {
+        return None;
     }
+    let (input, item) = <G as Deserializable>::deserialize(input)?;
+    let (input, weight) = f32::deserialize(input)?;
+    let (mut input, len) = usize::deserialize(input)?;
+    let mut by_occurances = Vec::with_capacity(len.min(input.len()));
+    for _ in 0..len {
+        let (new_input, child) = deserialize_node(input, arena, depth + 1)?;
+        input = new_input;
+        by_occurances.push(child);
+    }
+    let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
+        map.insert(item.item, *item);
+        map
+    });
+
+    let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
+        item,
+        weight,
+        by_occurances,
+        items,
+    });
+    Some((input, node))
 }
 
 impl<G: GramAtom, const N: usize> Serializable for GramIndex<'_, G, Product<'_>, N> {
-- 
2.43.0

