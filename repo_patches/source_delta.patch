From afb95a2e531dad89c46efa0bb4ad2b1e7e66e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 01/31] fix: attribute range and exact searches miss keys at
 S-tree leaf boundaries

A range search whose upper bound equals a separator stopped one leaf node short, and an
exact search for the largest key value went past the last leaf node when its separator is
the sentinel.
---
 .../fcb_core/src/static_btree/query/http.rs   |   2 +-
 .../fcb_core/src/static_btree/query/memory.rs |  18 ++-
 src/rust/fcb_core/src/static_btree/stree.rs   | 110 +++++++++++++++++-
 3 files changed, 118 insertions(+), 12 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 83fcb2f..eddb466 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -82,7 +82,7 @@ impl<K: Key> HttpIndex<K> {
             }
         };
 
-        let items: Vec<HttpSearchResultItem> = Stree::http_stream_find_range(
+        let items: Vec<HttpSearchResultItem> = Stree::http_stream_find_range_inclusive(
             client,
             self.index_begin,
             self.feature_begin,
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0f6759d..22bfe4d 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -60,6 +60,12 @@ impl<K: Key> MemoryIndex<K> {
     pub fn payload_size(&self) -> usize {
         self.stree.payload_size()
     }
+
+    /// Offsets of all items in [lower..upper], both ends included
+    fn find_range_inclusive(&self, lower: K, upper: K) -> Result<Vec<u64>> {
+        let results = self.stree.find_range_inclusive(lower, upper)?;
+        Ok(results.into_iter().map(|item| item.offset as u64).collect())
+    }
 }
 
 impl<K: Key> SearchIndex<K> for MemoryIndex<K> {
@@ -120,7 +126,7 @@ macro_rules! impl_typed_search_index {
                     Operator::Ne => {
                         let min = <$key_type>::min_value();
                         let max = <$key_type>::max_value();
-                        let all_items = self.find_range(Some(min), Some(max))?;
+                        let all_items = self.find_range_inclusive(min, max)?;
                         let matching_items = self.find_exact(key)?;
                         Ok(all_items
                             .into_iter()
@@ -128,19 +134,21 @@ macro_rules! impl_typed_search_index {
                             .collect())
                     }
                     Operator::Gt => {
-                        let mut results = self.find_range(Some(key.clone()), None)?;
+                        let mut results =
+                            self.find_range_inclusive(key.clone(), <$key_type>::max_value())?;
                         let exact_matches = self.find_exact(key)?;
                         results.retain(|item| !exact_matches.contains(item));
                         Ok(results)
                     }
                     Operator::Lt => {
-                        let mut results = self.find_range(None, Some(key.clone()))?;
+                        let mut results =
+                            self.find_range_inclusive(<$key_type>::min_value(), key.clone())?;
                         let exact_matches = self.find_exact(key)?;
                         results.retain(|item| !exact_matches.contains(item));
                         Ok(results)
                     }
-                    Operator::Ge => self.find_range(Some(key), None),
-                    Operator::Le => self.find_range(None, Some(key)),
+                    Operator::Ge => self.find_range_inclusive(key, <$key_type>::max_value()),
+                    Operator::Le => self.find_range_inclusive(<$key_type>::min_value(), key),
                 }
             }
         }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 239a5de..f6362f7 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -58,6 +58,18 @@ fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read)
     Ok(())
 }
 
+/// Child of an internal node to follow for a key equal to the one of `item`: such a key lives right
+/// of its separator. The last separator of a level holds the maximum key without having a right
+/// sibling, there the child it points to is the only candidate.
+fn right_child_index<K: Key>(item: &NodeItem<K>, node_size: usize, children_end: usize) -> usize {
+    let left_child = item.offset as usize;
+    if left_child + node_size < children_end {
+        left_child + node_size
+    } else {
+        left_child
+    }
+}
+
 /// Read partial item vec from data stream
 fn read_node_items<K: Key, R: Read + Seek + ?Sized>(
     data: &mut R,
@@ -763,7 +775,12 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let child = right_child_index(
+                            &node_items[index],
+                            node_size,
+                            self.level_bounds[level - 1].end,
+                        );
+                        queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -860,7 +877,12 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let child = right_child_index(
+                            &node_items[index],
+                            node_size,
+                            level_bounds[level - 1].end,
+                        );
+                        queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -919,6 +941,23 @@ impl<K: Key> Stree<K> {
     /// - If lower > upper, returns an empty result (invalid range)
     /// - If lower == upper, delegates to find_exact for consistent behavior
     pub fn find_range(&self, lower: K, upper: K) -> Result<Vec<SearchResultItem>> {
+        self.find_range_in_nodes(lower, upper, 1)
+    }
+
+    /// Same as [`Stree::find_range`], but never misses the upper bound itself: a key equal to a
+    /// separator is the first one of the leaf node after the partition point.
+    pub(crate) fn find_range_inclusive(&self, lower: K, upper: K) -> Result<Vec<SearchResultItem>> {
+        self.find_range_in_nodes(lower, upper, 2)
+    }
+
+    /// Scans the leaf nodes from the partition point of `lower` up to and including `upper_nodes`
+    /// leaf nodes from the partition point of `upper`.
+    fn find_range_in_nodes(
+        &self,
+        lower: K,
+        upper: K,
+        upper_nodes: usize,
+    ) -> Result<Vec<SearchResultItem>> {
         let leaf_nodes_offset = self
             .level_bounds
             .first()
@@ -949,7 +988,7 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        let end_idx = min(upper_idx + upper_nodes * node_size, leaf_end);
 
         // Process all leaf nodes from lower to upper bound
         let mut current_idx = start_idx;
@@ -1033,7 +1072,8 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        // (an upper bound equal to a separator is the first key of the next leaf node)
+        let end_idx = min(upper_idx + 2 * node_size, leaf_end);
 
         let index_base: u64 = data.stream_position()?;
 
@@ -1279,7 +1319,11 @@ impl<K: Key> Stree<K> {
                 let mut _offset = 0;
                 match result {
                     Ok(idx) => {
-                        _offset = node_items[idx].offset as usize + node_size;
+                        _offset = right_child_index(
+                            &node_items[idx],
+                            node_size,
+                            level_bounds[node_range.level - 1].end,
+                        );
                     }
                     Err(idx) => {
                         if idx == 0 {
@@ -1542,6 +1586,60 @@ impl<K: Key> Stree<K> {
         lower: K,
         upper: K,
         combine_request_threshold: usize,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Self::http_stream_find_range_in_nodes(
+            client,
+            index_begin,
+            feature_begin,
+            num_items,
+            branching_factor,
+            lower,
+            upper,
+            combine_request_threshold,
+            1,
+        )
+        .await
+    }
+
+    /// Same as [`Stree::http_stream_find_range`], but never misses the upper bound itself.
+    #[cfg(feature = "http")]
+    #[allow(clippy::too_many_arguments)]
+    pub(crate) async fn http_stream_find_range_inclusive<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        feature_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+        combine_request_threshold: usize,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Self::http_stream_find_range_in_nodes(
+            client,
+            index_begin,
+            feature_begin,
+            num_items,
+            branching_factor,
+            lower,
+            upper,
+            combine_request_threshold,
+            2,
+        )
+        .await
+    }
+
+    #[cfg(feature = "http")]
+    #[allow(clippy::too_many_arguments)]
+    async fn http_stream_find_range_in_nodes<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        feature_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+        combine_request_threshold: usize,
+        upper_nodes: usize,
     ) -> Result<Vec<HttpSearchResultItem>> {
         debug!("http_stream_find_range starts: index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, lower: {lower:?}, upper: {upper:?}");
 
@@ -1620,7 +1718,7 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        let end_idx = min(upper_idx + upper_nodes * node_size, leaf_end);
 
         // Collect payload references instead of immediately resolving them
         let mut payload_refs = Vec::new();
-- 
2.43.0


From fe7fd63d8c991975a522c68daff8c34c7dd02bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 02/31] fix: attribute queries on features with several city
 objects

A feature with several matching objects was selected more than once (shifting or truncating
the features read), and Gt/Lt/Ne lost features having the excluded value next to another one.
---
 src/rust/fcb_core/src/http_reader/mod.rs      |  5 +++-
 src/rust/fcb_core/src/reader/attr_query.rs    |  4 +++
 .../fcb_core/src/static_btree/query/http.rs   | 26 ++++++++-----------
 .../fcb_core/src/static_btree/query/memory.rs | 17 +++++-------
 .../fcb_core/src/static_btree/query/stream.rs | 17 +++++-------
 .../fcb_core/src/static_btree/query/types.rs  | 20 ++++++++++++++
 6 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a9deae9..5fc45e5 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -276,9 +276,12 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             current_index_begin += attr_info.length() as usize;
         }
 
-        let result = http_multi_index
+        let mut result = http_multi_index
             .query(&mut self.client, &query.conditions)
             .await?;
+        // a feature is selected once, however many of its objects match
+        result.sort_by_key(|item| item.range.start());
+        result.dedup_by_key(|item| item.range.start());
 
         let count = result.len();
 
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ebf8bd4..a96ec93 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -389,6 +389,8 @@ impl<R: Read + Seek> FcbReader<R> {
         // Sort the results
         let mut result_vec: Vec<u64> = result.into_iter().collect();
         result_vec.sort();
+        // a feature is selected once, however many of its objects match
+        result_vec.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
@@ -470,6 +472,8 @@ impl<R: Read> FcbReader<R> {
         let query_obj = build_query(&query);
         let mut result = multi_index.query(&query_obj.conditions)?;
         result.sort();
+        // a feature is selected once, however many of its objects match
+        result.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index eddb466..591f3aa 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{subtract, Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
 use async_trait::async_trait;
@@ -161,19 +161,17 @@ macro_rules! impl_typed_http_search_index {
                             )
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        subtract(all, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
+                        let v = self.find_range(client, Some(key.clone()), None).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        subtract(v, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        let v = self.find_range(client, None, Some(key.clone())).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        subtract(v, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
                     Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
@@ -214,19 +212,17 @@ macro_rules! impl_typed_http_search_index {
                             )
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        subtract(all, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
+                        let v = self.find_range(client, Some(key.clone()), None).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        subtract(v, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        let v = self.find_range(client, None, Some(key.clone())).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        subtract(v, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
                     Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 22bfe4d..759a0af 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -9,7 +9,7 @@ use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
 use crate::static_btree::query::types::{Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
-use super::types::QueryCondition;
+use super::types::{subtract, QueryCondition};
 use super::MultiIndex;
 
 /// In-memory index implementation that wraps the Stree structure
@@ -128,24 +128,19 @@ macro_rules! impl_typed_search_index {
                         let max = <$key_type>::max_value();
                         let all_items = self.find_range_inclusive(min, max)?;
                         let matching_items = self.find_exact(key)?;
-                        Ok(all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect())
+                        Ok(subtract(all_items, &matching_items, |item| *item))
                     }
                     Operator::Gt => {
-                        let mut results =
+                        let results =
                             self.find_range_inclusive(key.clone(), <$key_type>::max_value())?;
                         let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
+                        Ok(subtract(results, &exact_matches, |item| *item))
                     }
                     Operator::Lt => {
-                        let mut results =
+                        let results =
                             self.find_range_inclusive(<$key_type>::min_value(), key.clone())?;
                         let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
+                        Ok(subtract(results, &exact_matches, |item| *item))
                     }
                     Operator::Ge => self.find_range_inclusive(key, <$key_type>::max_value()),
                     Operator::Le => self.find_range_inclusive(<$key_type>::min_value(), key),
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0628140..65da662 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{subtract, Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
 /// Stream-based index for file access
@@ -167,24 +167,19 @@ macro_rules! impl_typed_stream_search_index {
                             Some(<$key_type>::max_value()),
                         )?;
                         let matching_items = self.find_exact_with_reader(reader, key.clone())?;
-                        all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect()
+                        subtract(all_items, &matching_items, |item| *item)
                     }
                     Operator::Gt => {
-                        let mut results =
+                        let results =
                             self.find_range_with_reader(reader, Some(key.clone()), None)?;
                         let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
+                        subtract(results, &exact_matches, |item| *item)
                     }
                     Operator::Lt => {
-                        let mut results =
+                        let results =
                             self.find_range_with_reader(reader, None, Some(key.clone()))?;
                         let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
+                        subtract(results, &exact_matches, |item| *item)
                     }
                     Operator::Ge => self.find_range_with_reader(reader, Some(key), None)?,
                     Operator::Le => self.find_range_with_reader(reader, None, Some(key))?,
diff --git a/src/rust/fcb_core/src/static_btree/query/types.rs b/src/rust/fcb_core/src/static_btree/query/types.rs
index 51921c1..76f583e 100644
--- a/src/rust/fcb_core/src/static_btree/query/types.rs
+++ b/src/rust/fcb_core/src/static_btree/query/types.rs
@@ -1,6 +1,7 @@
 use crate::static_btree::error::Result;
 use crate::static_btree::key::Key;
 use crate::static_btree::key::KeyType;
+use std::collections::HashMap;
 
 /// Comparison operators for queries
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -79,3 +80,22 @@ pub trait MultiIndex {
     /// Execute a query and return matching offsets
     fn query(&self, query: &[QueryCondition]) -> Result<Vec<u64>>;
 }
+
+/// Removes one item per match. An offset may occur once per indexed value, so an item must stay
+/// when the same offset is there for another value as well.
+pub(super) fn subtract<T>(items: Vec<T>, matches: &[T], offset: impl Fn(&T) -> u64) -> Vec<T> {
+    let mut to_remove = HashMap::<u64, usize>::new();
+    for item in matches {
+        *to_remove.entry(offset(item)).or_default() += 1;
+    }
+    items
+        .into_iter()
+        .filter(|item| match to_remove.get_mut(&offset(item)) {
+            Some(left) if *left > 0 => {
+                *left -= 1;
+                false
+            }
+            _ => true,
+        })
+        .collect()
+}
-- 
2.43.0


From 1bb7ffded001b11bde7514b87a33f6bf4635d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:33 +0000
Subject: [PATCH 03/31] fix: attribute indexes on Long columns cannot be
 queried

The writer builds them, and one of them failed every attribute query of the file.
---
 src/rust/fcb_core/src/http_reader/mod.rs   | 10 ++++++++++
 src/rust/fcb_core/src/reader/attr_query.rs | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 5fc45e5..60e1acf 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -413,6 +413,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = HttpIndex::<i64>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 ColumnType::ULong => {
                     let index = HttpIndex::<u64>::new(
                         attr_info.num_unique_items() as usize,
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index a96ec93..8232964 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -106,6 +106,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_u32_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = MemoryIndex::<i64>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_i64_index(col.name().to_string(), index);
+                }
                 ColumnType::ULong => {
                     let index = MemoryIndex::<u64>::from_buf(
                         &mut buf,
@@ -243,6 +251,15 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_u32_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Long => {
+                let index = StreamIndex::<i64>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_i64_index(col.name().to_string(), index, attr_info.length() as u64);
+            }
             ColumnType::ULong => {
                 let index = StreamIndex::<u64>::new(
                     attr_info.num_unique_items() as usize,
-- 
2.43.0


From b6b722ce05c42163f3ae91375c512017a910b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 04/31] fix: range queries on date-time columns miss dates
 before 1970

---
 src/rust/fcb_core/src/static_btree/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b1c20a..5864ec3 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -241,7 +241,7 @@ impl Min for bool {
 
 impl Min for DateTime<Utc> {
     fn min_value() -> Self {
-        Utc.timestamp_opt(0, 0).single().unwrap()
+        DateTime::<Utc>::MIN_UTC
     }
 }
 
-- 
2.43.0


From f06ee67ba535f02cc5613b574585d39ddd4dbce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 05/31] fix: HTTP attribute queries request payload beyond the
 end of the file and drop large entries

---
 src/rust/fcb_core/src/static_btree/stree.rs | 67 ++++++++-------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index f6362f7..c8c960e 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -111,20 +111,19 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
     Ok(node_items)
 }
 
+/// Fetch the payload entry at the given offset, however large it is
 #[cfg(feature = "http")]
 async fn read_http_payload_data<T: AsyncHttpRangeClient>(
     client: &mut AsyncBufferedHttpRangeClient<T>,
     offset: usize,
 ) -> Result<PayloadEntry> {
-    let temp_buffered_count_bytes_size = DEFAULT_MIN_REQ_SIZE; //This is hueristic, we don't know the size of the payload. TODO: find a better way
-
     debug!("sending request to fetch payload, offset {offset:?}");
 
-    let payload_data = client
-        .get_range(offset, temp_buffered_count_bytes_size)
-        .await?;
-    let mut buf = Cursor::new(payload_data);
+    let mut count_bytes = [0u8; 4];
+    Cursor::new(client.get_range(offset, 4).await?).read_exact(&mut count_bytes)?;
+    let count = u32::from_le_bytes(count_bytes) as usize;
 
+    let mut buf = Cursor::new(client.get_range(offset, 4 + count * 8).await?);
     let (payload_entry, _) = PayloadEntry::deserialize(&mut buf)?;
     Ok(payload_entry)
 }
@@ -198,6 +197,11 @@ pub async fn prefetch_payload<T: AsyncHttpRangeClient>(
 
     let mut cache = PayloadCache::new();
 
+    // An index without duplicate keys has no payload section
+    if chunk_size == 0 {
+        return Ok(cache);
+    }
+
     // Fetch the chunk of payload data
     let payload_data = client.get_range(payload_section_start, chunk_size).await?;
 
@@ -207,24 +211,6 @@ pub async fn prefetch_payload<T: AsyncHttpRangeClient>(
     Ok(cache)
 }
 
-/// Read a payload entry from the payload cache if available, otherwise fetch it from HTTP
-#[cfg(feature = "http")]
-async fn read_payload_entry<T: AsyncHttpRangeClient>(
-    client: &mut AsyncBufferedHttpRangeClient<T>,
-    offset: usize,
-    cache: Option<&PayloadCache>,
-) -> Result<PayloadEntry> {
-    // Check if the offset is in the cache
-    if let Some(cache) = cache {
-        if cache.contains(offset) {
-            return cache.get_entry(offset);
-        }
-    }
-
-    // Fallback to HTTP request if not in cache or no cache provided
-    read_http_payload_data(client, offset).await
-}
-
 /// Intermediate search result containing either a direct feature offset or a reference to a payload
 #[derive(Debug)]
 enum PayloadRef {
@@ -341,30 +327,25 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
     for (start, end) in offset_ranges {
         // Calculate fetch size to include the complete payload entries
         // Add a margin to account for variable-sized payload entries
-        let fetch_size = (end - start) + DEFAULT_MIN_REQ_SIZE;
+        // without going beyond the end of the index
+        let fetch_size = ((end - start) + DEFAULT_MIN_REQ_SIZE)
+            .min(feature_begin.saturating_sub(start))
+            .max(4);
 
-        let payload_data = client.get_range(start, fetch_size).await?;
+        let payload_data = client.get_range(start, fetch_size).await?.to_vec();
 
         // Process each requested offset within this range
         for &offset in payload_offsets_to_fetch
             .iter()
             .filter(|&&o| o >= start && o <= end)
         {
-            let relative_offset = offset - start;
-
-            // Make sure we have enough data
-            if relative_offset < payload_data.len() {
-                let mut buf = Cursor::new(&payload_data[relative_offset..]);
-                match PayloadEntry::deserialize(&mut buf) {
-                    Ok((entry, _)) => {
-                        fetched_payloads.insert(offset, entry);
-                    }
-                    Err(e) => {
-                        debug!("error deserializing payload at offset {}: {:?}", offset, e);
-                        // Continue with other offsets on error
-                    }
-                }
-            }
+            let fetched = payload_data.get(offset - start..).unwrap_or_default();
+            let entry = match PayloadEntry::deserialize(&mut Cursor::new(fetched)) {
+                Ok((entry, _)) => entry,
+                // The entry extends beyond the fetched range
+                Err(_) => read_http_payload_data(client, offset).await?,
+            };
+            fetched_payloads.insert(offset, entry);
         }
     }
 
@@ -1284,6 +1265,8 @@ impl<K: Key> Stree<K> {
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
+        let prefetch_size =
+            prefetch_size.min(feature_begin.saturating_sub(payload_data_start));
         let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
 
         while let Some(node_range) = queue.pop_front() {
@@ -1679,6 +1662,8 @@ impl<K: Key> Stree<K> {
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
+        let prefetch_size =
+            prefetch_size.min(feature_begin.saturating_sub(payload_data_start));
         let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
 
         debug!("http_stream_find_range - index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, level_bounds: {level_bounds:?}, lower: {lower:?}, upper: {upper:?}");
-- 
2.43.0


From e47e2b1794d08735f44be57f39e1aea3f37b614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 06/31] fix: spatial queries over HTTP panic in builds with
 debug assertions

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index afdbf5c..18066c7 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -980,7 +980,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1089,7 +1092,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1205,7 +1211,13 @@ impl PackedRTree {
                     );
                     let node_items = read_http_node_items(client, index_begin, &next.nodes).await?;
 
-                    for (node_pos, node_item) in node_items.iter().enumerate() {
+                    // The extra leaf node (see below) belongs to another parent: it only tells
+                    // where the last feature of this one ends
+                    for (node_pos, node_item) in node_items
+                        .iter()
+                        .take(branching_factor as usize)
+                        .enumerate()
+                    {
                         let dist = node_item.min_distance_squared(x, y);
 
                         // If we have a nearest item, only consider this node if it's closer
@@ -1228,7 +1240,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 }
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    next.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 }
@@ -1248,6 +1263,7 @@ impl PackedRTree {
                                 ..(node_item.offset + branching_factor as u64) as usize;
 
                             if children_level == 0 {
+                                // One more leaf node, for the size of the last feature
                                 children_nodes.end += 1;
                             }
 
-- 
2.43.0


From df54a80d4ce512ce2fd16d07d7624a71c40c4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 07/31] fix: header feature count differs from the number of
 written features

---
 src/rust/fcb_core/src/writer/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5d0ea56..e7a410e 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -260,6 +260,9 @@ impl<'a> FcbWriter<'a> {
             }
         }
 
+        // the count in the header must be that of the features that were added
+        self.header_writer.header_options.feature_count = self.feat_offsets.len() as u64;
+
         // write header with attribute indices metadata
         self.header_writer.attribute_indices_info = Some(attr_index_info);
         let header_buf = self.header_writer.finish_to_header()?;
-- 
2.43.0


From a6182df7c695b83ec4c131b5a841ee1ebde3902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 08/31] fix: indexing an attribute panics without values,
 indexes nulls as zero and skips small integers

---
 src/rust/fcb_core/src/writer/attr_index.rs |  8 ++++-
 src/rust/fcb_core/src/writer/attribute.rs  | 36 ++++++++++++++++++++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f8b70ca..d1edc80 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -36,6 +36,12 @@ where
         }
     }
 
+    if entries.is_empty() {
+        return Err(Error::IndexCreationError(format!(
+            "no feature has a value for column {schema_index}"
+        )));
+    }
+
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
@@ -237,7 +243,7 @@ pub(super) fn build_attribute_index_for_attr(
             },
             branching_factor,
         ),
-        ColumnType::Byte => build_index_generic::<u8, _>(
+        ColumnType::Byte => build_index_generic::<i8, _>(
             *schema_index,
             attribute_entries,
             |entry| {
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 119b1c0..1068eb3 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -206,7 +206,7 @@ pub enum AttributeIndexEntry {
     DateTime { index: u16, val: DateTime<Utc> },
     Short { index: u16, val: i16 },
     UShort { index: u16, val: u16 },
-    Byte { index: u16, val: u8 },
+    Byte { index: u16, val: i8 },
     UByte { index: u16, val: u8 },
     Json { index: u16, val: String },
     Binary { index: u16, val: String },
@@ -250,6 +250,11 @@ pub fn attribute_to_index_entries(
             }
         };
 
+        // a null is stored as an absent attribute
+        if val.is_null() {
+            continue;
+        }
+
         let index_coltype = schema.get(attr);
         if let Some((index, coltype)) = index_coltype {
             match *coltype {
@@ -324,8 +329,35 @@ pub fn attribute_to_index_entries(
                         val: dt,
                     });
                 }
+                ColumnType::Short => {
+                    let i = val.as_i64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::Short {
+                        index: *index,
+                        val: i as i16,
+                    });
+                }
+                ColumnType::UShort => {
+                    let i = val.as_u64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::UShort {
+                        index: *index,
+                        val: i as u16,
+                    });
+                }
+                ColumnType::Byte => {
+                    let i = val.as_i64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::Byte {
+                        index: *index,
+                        val: i as i8,
+                    });
+                }
+                ColumnType::UByte => {
+                    let i = val.as_u64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::UByte {
+                        index: *index,
+                        val: i as u8,
+                    });
+                }
                 _ => {
-                    //Byte, Ubyte,
                     println!("Attribute {} is not supported for indexing", attr);
                 }
             }
-- 
2.43.0


From 9cc70f8d6c0b62577120eca4ac49ecd94ece0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 09/31] fix: decoding Byte, UByte and Binary attributes panics

---
 src/rust/fcb_core/src/reader/deserializer.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c447cb8..1f9fa34 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -260,9 +260,6 @@ pub fn decode_attributes(
     while offset < bytes.len() {
         let col_index = LittleEndian::read_u16(&bytes[offset..offset + size_of::<u16>()]) as u16;
         offset += size_of::<u16>();
-        if col_index >= columns.len() as u16 {
-            panic!("column index out of range"); //TODO: handle this as an error
-        }
         let column = columns.iter().find(|c| c.index() == col_index);
         if column.is_none() {
             panic!("column not found"); //TODO: handle this as an error
@@ -294,6 +291,20 @@ pub fn decode_attributes(
                 );
                 offset += size_of::<u8>();
             }
+            ColumnType::Byte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
+                );
+                offset += size_of::<i8>();
+            }
+            ColumnType::UByte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
+                );
+                offset += size_of::<u8>();
+            }
             ColumnType::Short => {
                 map.insert(
                     column.name().to_string(),
@@ -344,7 +355,7 @@ pub fn decode_attributes(
                 }
                 offset += size_of::<f64>();
             }
-            ColumnType::String => {
+            ColumnType::String | ColumnType::Binary => {
                 let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
                 offset += size_of::<u32>();
                 let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-- 
2.43.0


From e7fa9ed2e5a0650db64b22e9b3c6d26bf2015fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 10/31] fix: sequential attribute queries take the schema index
 for a position

---
 src/rust/fcb_core/src/reader/attr_query.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 8232964..70b64d1 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -464,7 +464,12 @@ impl<R: Read> FcbReader<R> {
 
         for attr_info in attr_index_entries.iter() {
             let column_idx = attr_info.index();
-            let field_name = columns[column_idx as usize].name().to_string();
+            let field_name = columns
+                .iter()
+                .find(|c| c.index() == column_idx)
+                .ok_or(Error::AttributeIndexNotFound)?
+                .name()
+                .to_string();
 
             // Only process this attribute if it's used in the query
             if query_fields.contains(&field_name) {
-- 
2.43.0


From 46d4613ff0c756a13f87b8e8fe24de806492c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 11/31] fix: short HTTP responses panic

---
 src/rust/fcb_core/src/http_reader/mod.rs    | 34 +++++++++++++++------
 src/rust/fcb_core/src/packed_rtree/mod.rs   |  4 ++-
 src/rust/fcb_core/src/static_btree/stree.rs |  4 ++-
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 60e1acf..8e5e590 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -41,6 +41,22 @@ mod mock_http_range_client;
 // If a single huge feature requires, we'll necessarily exceed this limit.
 const DEFAULT_HTTP_FETCH_SIZE: usize = 1_048_576; // 1MB
 
+/// Fetch exactly `length` bytes, and not less
+async fn get_exact<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    begin: usize,
+    length: usize,
+) -> Result<&[u8]> {
+    let bytes = client.get_range(begin, length).await?;
+    if bytes.len() != length {
+        return Err(Error::IoError(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            format!("got {} of {length} bytes at {begin}", bytes.len()),
+        )));
+    }
+    Ok(bytes)
+}
+
 /// FlatCityBuf dataset HTTP reader
 pub struct HttpFcbReader<T: AsyncHttpRangeClient + Send + Sync> {
     client: AsyncBufferedHttpRangeClient<T>,
@@ -99,13 +115,13 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         client.set_min_req_size(min_req_size);
         debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
         let mut read_bytes = 0;
-        let bytes = client.get_range(read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
+        let bytes = get_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
         if !check_magic_bytes(bytes) {
             return Err(Error::MissingMagicBytes);
         }
 
         read_bytes += MAGIC_BYTES_SIZE;
-        let mut bytes = BytesMut::from(client.get_range(read_bytes, HEADER_SIZE_SIZE).await?);
+        let mut bytes = BytesMut::from(get_exact(&mut client, read_bytes, HEADER_SIZE_SIZE).await?);
         read_bytes += HEADER_SIZE_SIZE;
 
         let header_size = LittleEndian::read_u32(&bytes) as usize;
@@ -114,7 +130,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        bytes.put(client.get_range(read_bytes, header_size).await?);
+        bytes.put(get_exact(&mut client, read_bytes, header_size).await?);
         read_bytes += header_size;
 
         let header_buf = bytes.to_vec();
@@ -542,10 +558,10 @@ impl SelectAll {
         }
         self.features_left -= 1;
 
-        let mut feature_buffer = BytesMut::from(client.get_range(self.pos, 4).await?);
+        let mut feature_buffer = BytesMut::from(get_exact(client, self.pos, 4).await?);
         self.pos += 4;
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(self.pos, feature_size).await?);
+        feature_buffer.put(get_exact(client, self.pos, feature_size).await?);
         self.pos += feature_size;
 
         Ok(Some(feature_buffer.freeze()))
@@ -673,10 +689,10 @@ impl FeatureBatch {
         };
 
         let mut pos = feature_range.start();
-        let mut feature_buffer = BytesMut::from(client.get_range(pos, 4).await?);
+        let mut feature_buffer = BytesMut::from(get_exact(client, pos, 4).await?);
         pos += 4;
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(pos, feature_size).await?);
+        feature_buffer.put(get_exact(client, pos, feature_size).await?);
 
         Ok(Some(feature_buffer.freeze()))
     }
@@ -697,10 +713,10 @@ impl SelectAttr {
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
-        let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
+        let mut feature_buffer = BytesMut::from(get_exact(client, range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
         println!("feature_size: {:?}", feature_size);
-        feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
+        feature_buffer.put(get_exact(client, range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
     }
diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 18066c7..6a56201 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -219,7 +219,9 @@ async fn read_http_node_items<T: AsyncHttpRangeClient>(
         .await?;
 
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     for node_item_bytes in bytes.chunks(size_of::<NodeItem>()) {
         node_items.push(NodeItem::from_bytes(node_item_bytes)?);
     }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index c8c960e..f1a9d18 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -103,7 +103,9 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
         .await?;
 
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     for node_item_bytes in bytes.chunks(NodeItem::<K>::SERIALIZED_SIZE) {
         let node_item = NodeItem::from_reader(&mut Cursor::new(node_item_bytes))?;
         node_items.push(node_item);
-- 
2.43.0


From aa6f2cfae7b69cebd688ce500adad34e6b3c7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 12/31] fix: reader ignores the outcome of the header
 verification

---
 src/rust/fcb_core/src/reader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 522fefc..06234e3 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -108,7 +108,7 @@ impl<R: Read> FcbReader<R> {
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf);
+            let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
         Ok(FcbReader {
-- 
2.43.0


From 94c1aa9ec1c166b7800998105796067e75520dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 13/31] fix: truncated files and read faults look like the end
 of the dataset

---
 src/rust/fcb_core/src/reader/attr_query.rs |  8 +--
 src/rust/fcb_core/src/reader/mod.rs        | 64 ++++++++++++----------
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 70b64d1..2a2c1dd 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -423,7 +423,7 @@ impl<R: Read + Seek> FcbReader<R> {
         self.reader
             .seek(SeekFrom::Start(attr_index_start_pos + attr_index_size))?;
 
-        Ok(FeatureIter::<R, Seekable>::new(
+        FeatureIter::<R, Seekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -431,7 +431,7 @@ impl<R: Read + Seek> FcbReader<R> {
             Some(result_vec),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -508,7 +508,7 @@ impl<R: Read> FcbReader<R> {
         let total_feat_count = result.len() as u64;
 
         // Create and return the FeatureIter
-        Ok(FeatureIter::<R, NotSeekable>::new(
+        FeatureIter::<R, NotSeekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -516,6 +516,6 @@ impl<R: Read> FcbReader<R> {
             Some(result),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 06234e3..1da6fea 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -132,7 +132,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -140,7 +140,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query_seq(mut self, query: Query) -> Result<FeatureIter<R, NotSeekable>, Error> {
@@ -169,7 +169,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -177,7 +177,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -193,7 +193,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         self.reader.seek(SeekFrom::Current(index_size as i64))?;
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -201,7 +201,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query(mut self, query: Query) -> Result<FeatureIter<R, Seekable>, Error> {
@@ -230,7 +230,7 @@ impl<R: Read + Seek> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -238,7 +238,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -452,7 +452,7 @@ impl<R: Read, S> FeatureIter<R, S> {
         item_attr_filter: Option<Vec<Offset>>,
         feature_offset: FeatureOffset,
         total_feat_count: u64,
-    ) -> FeatureIter<R, S> {
+    ) -> Result<FeatureIter<R, S>, Error> {
         let mut iter = FeatureIter {
             reader,
             verify,
@@ -468,27 +468,23 @@ impl<R: Read, S> FeatureIter<R, S> {
             total_feat_count,
         };
 
-        if iter.read_feature_size() {
+        iter.count = match (&iter.item_filter, &iter.item_attr_filter) {
+            (Some(list), _) => Some(list.len()),
+            (None, Some(list)) => Some(list.len()),
+            (None, None) => match iter.buffer.header().features_count() as usize {
+                0 => None,
+                feat_count => Some(feat_count),
+            },
+        };
+
+        if iter.read_feature_size()? {
             iter.state = State::Finished;
+            iter.count = iter.count.or(Some(0));
         } else {
             iter.state = State::ReadFirstFeatureSize
         }
 
-        iter.count = match &iter.item_filter {
-            Some(list) => Some(list.len()),
-            None => {
-                let feat_count = iter.buffer.header().features_count() as usize;
-                if feat_count > 0 {
-                    Some(feat_count)
-                } else if iter.state == State::Finished {
-                    Some(0)
-                } else {
-                    None
-                }
-            }
-        };
-
-        iter
+        Ok(iter)
     }
 
     pub fn header(&self) -> Header {
@@ -525,12 +521,20 @@ impl<R: Read, S> FeatureIter<R, S> {
     }
 
     /// Read feature size and return true if end of dataset reached
-    fn read_feature_size(&mut self) -> bool {
+    fn read_feature_size(&mut self) -> Result<bool, Error> {
         self.buffer.features_buf.resize(4, 0);
         self.cur_pos += 4;
-        self.reader
-            .read_exact(&mut self.buffer.features_buf)
-            .is_err()
+        match self.reader.read_exact(&mut self.buffer.features_buf) {
+            Ok(()) => Ok(false),
+            // the dataset must not end before the last of its features
+            Err(e)
+                if e.kind() == io::ErrorKind::UnexpectedEof
+                    && self.count.map_or(true, |count| self.feat_no >= count) =>
+            {
+                Ok(true)
+            }
+            Err(e) => Err(e.into()),
+        }
     }
 
     fn read_feature(&mut self) -> Result<(), Error> {
@@ -539,7 +543,7 @@ impl<R: Read, S> FeatureIter<R, S> {
                 self.state = State::Reading;
             }
             State::Reading => {
-                if self.read_feature_size() {
+                if self.read_feature_size()? {
                     self.state = State::Finished;
                     return Ok(());
                 }
-- 
2.43.0


From 146f827876f9781b25e9d49ca2da35d2fe771477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 14/31] fix: debug output of the library corrupts files written
 to standard output

---
 src/rust/cli/src/main.rs                           | 2 --
 src/rust/fcb_core/src/http_reader/mod.rs           | 4 ----
 src/rust/fcb_core/src/reader/attr_query.rs         | 2 --
 src/rust/fcb_core/src/static_btree/query/stream.rs | 3 ---
 src/rust/fcb_core/src/static_btree/stree.rs        | 3 ---
 src/rust/fcb_core/src/writer/attr_index.rs         | 1 -
 src/rust/fcb_core/src/writer/attribute.rs          | 5 +++--
 src/rust/fcb_core/src/writer/serializer.rs         | 4 ++--
 8 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index a8e25e7..4c3115b 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -253,8 +253,6 @@ fn serialize(
         geographical_extent: geo_extent,
     };
 
-    println!("header_options in cli: {:?}", header_options);
-
     let mut fcb = FcbWriter::new(cj, Some(header_options), attr_schema, semantic_attr_schema)?;
 
     for feature in filtered_features.iter() {
diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 8e5e590..851014d 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -316,7 +316,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             count
         );
 
-        println!("http_ranges: {:?}", http_ranges);
         Ok(AsyncFeatureIter {
             client: self.client,
             fbs: self.fbs,
@@ -471,7 +470,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                 }
 
                 _ => {
-                    println!("Unsupported column type: {:?}", col.type_());
                     return Err(Error::UnsupportedColumnType(col.name().to_string()));
                 }
             }
@@ -709,13 +707,11 @@ impl SelectAttr {
         &mut self,
         client: &mut AsyncBufferedHttpRangeClient<T>,
     ) -> Result<Option<Bytes>> {
-        println!("self.range_pos: {:?}", self.range_pos);
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
         let mut feature_buffer = BytesMut::from(get_exact(client, range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        println!("feature_size: {:?}", feature_size);
         feature_buffer.put(get_exact(client, range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 2a2c1dd..50f9e59 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -140,8 +140,6 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                 }
                 _ => return Err(Error::UnsupportedColumnType(col.name().to_string())),
             }
-        } else {
-            println!("  - Skipping index for field: {}", col.name());
         }
     }
     Ok(())
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 65da662..fe92f6b 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -405,9 +405,6 @@ impl StreamMultiIndex {
             let index_start = start_position + index_range.start as u64;
             // set cursor to the start of the index
             reader.seek(SeekFrom::Start(index_start))?;
-            println!("index_start: {}", index_start);
-            println!("start_position: {}", start_position);
-            println!("query condition: {:?}", cond);
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
             if result_set.is_empty() {
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index f1a9d18..6412735 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -1729,11 +1729,8 @@ impl<K: Key> Stree<K> {
                 if item.key >= lower && item.key <= upper {
                     let off = item.offset;
 
-                    println!("off: {:?}", off);
-
                     if (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        println!("rel: {:?}", rel);
                         // Add as indirect reference to be resolved in batch
                         payload_refs.push(PayloadRef::Indirect(rel));
                     } else {
diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index d1edc80..7a59fe7 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -308,7 +308,6 @@ pub(super) fn build_attribute_index_for_attr(
             branching_factor,
         ),
         _ => {
-            println!("Unsupported column type for indexing: {:?}", coltype);
             Err(Error::UnsupportedColumnType(format!("{:?}", coltype)))
         }
     }
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 1068eb3..050e972 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -2,6 +2,7 @@ use crate::fb::ColumnType;
 use byteorder::{ByteOrder, LittleEndian};
 use chrono::{DateTime, Utc};
 use cjseq::CityJSONFeature;
+use log::debug;
 use serde_json::Value;
 use std::collections::HashMap;
 
@@ -245,7 +246,7 @@ pub fn attribute_to_index_entries(
         let val: &Value = match map.get(attr) {
             Some(val) => val,
             None => {
-                println!("Attribute {} not found in schema", attr);
+                debug!("attribute {attr} has no value");
                 continue;
             }
         };
@@ -358,7 +359,7 @@ pub fn attribute_to_index_entries(
                     });
                 }
                 _ => {
-                    println!("Attribute {} is not supported for indexing", attr);
+                    debug!("attribute {attr} is not supported for indexing");
                 }
             }
         }
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 81800dd..a30f76c 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -271,11 +271,11 @@ pub(super) fn to_reference_system<'a>(
     let authority = Some(fbb.create_string(&ref_system.authority));
 
     let version = ref_system.version.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse version: {}", e);
+        log::warn!("failed to parse version: {}", e);
         0
     });
     let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse code: {}", e);
+        log::warn!("failed to parse code: {}", e);
         0
     });
 
-- 
2.43.0


From 7940bdbec5c2bb537869d76fe8830ac63d63d1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 15/31] fix: errors at the end of the output or of the input
 are not reported

---
 src/rust/cli/src/main.rs            | 3 ++-
 src/rust/fcb_core/src/writer/mod.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 4c3115b..f9c5b7d 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -389,7 +389,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
     // Write features
     let feat_count = header.features_count();
     let mut feat_num = 0;
-    while let Ok(Some(feat_buf)) = fcb_reader.next() {
+    while let Some(feat_buf) = fcb_reader.next()? {
         let feature = feat_buf.cur_cj_feature()?;
         writeln!(writer, "{}", serde_json::to_string(&feature)?)?;
 
@@ -398,6 +398,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
             break;
         }
     }
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("Successfully decoded to CityJSON");
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index e7a410e..86dc1a6 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -272,6 +272,7 @@ impl<'a> FcbWriter<'a> {
         out.write_all(&rtree_buf)?;
         out.write_all(&attr_index_buf)?;
         out.write_all(&sorted_feature_buf)?;
+        out.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From a27ce33cee2a156c0350a95f566569984f1c4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 16/31] fix: attributes are lost when a later value does not
 fit the guessed column type

---
 src/rust/fcb_core/src/writer/attribute.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 050e972..3d63a56 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -22,10 +22,11 @@ impl AttributeSchemaMethods for AttributeSchema {
 
         let map = attrs.as_object().unwrap();
         for (key, val) in map.iter() {
-            if !self.contains_key(key) && !val.is_null() {
-                if let Some(coltype) = guess_type(val) {
-                    self.insert(key.clone(), (self.len() as u16, coltype));
-                }
+            if let Some(coltype) = guess_type(val) {
+                let next_index = self.len() as u16;
+                self.entry(key.clone())
+                    .and_modify(|(_, known)| *known = common_type(*known, coltype))
+                    .or_insert((next_index, coltype));
             }
         }
     }
@@ -60,6 +61,20 @@ fn guess_type(value: &Value) -> Option<ColumnType> {
     }
 }
 
+/// The column type that can hold the values of both types
+fn common_type(a: ColumnType, b: ColumnType) -> ColumnType {
+    use ColumnType as C;
+    match (a, b) {
+        _ if a == b => a,
+        (C::Long, C::ULong) | (C::ULong, C::Long) => C::Long,
+        (C::Double, C::Long | C::ULong) | (C::Long | C::ULong, C::Double) => C::Double,
+        (C::String, C::DateTime) | (C::DateTime, C::String) => C::String,
+        (C::Bool | C::Long | C::ULong | C::Double | C::String | C::DateTime, _) => C::Json,
+        // not a guessed type
+        _ => a,
+    }
+}
+
 pub(crate) fn attr_size(coltype: &ColumnType, colval: &Value) -> usize {
     match *coltype {
         ColumnType::Byte => size_of::<i8>(),
-- 
2.43.0


From b8d52f8e792bdea663115ec543af04d34be770d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 17/31] fix: fcb ser drops attributes that first occur after
 1000 features

---
 src/rust/cli/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index f9c5b7d..82932db 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -171,8 +171,7 @@ fn serialize(
 
     let attr_schema = {
         let mut schema = AttributeSchema::new();
-        // Limit to max 1000 features for schema building to have faster build time
-        for feature in filtered_features.iter().take(1000) {
+        for feature in filtered_features.iter() {
             for (_, co) in feature.city_objects.iter() {
                 if let Some(attributes) = &co.attributes {
                     schema.add_attributes(attributes);
-- 
2.43.0


From c5ab67a19d462ea5341ad5c975826c7027bffb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 18/31] fix: header templates and appearance are lost when the
 metadata is absent

---
 src/rust/fcb_core/src/writer/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index a30f76c..ecce32f 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -217,6 +217,9 @@ pub(super) fn to_fcb_header<'a>(
                 geographical_extent: geographical_extent_from_options.as_ref(),
                 version,
                 attribute_index,
+                appearance,
+                templates,
+                templates_vertices,
                 extensions,
                 ..Default::default()
             },
-- 
2.43.0


From 304a26b16a01ab29404235e06658ecabf0f7e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 19/31] fix: header appearance is never decoded

---
 src/rust/fcb_core/src/reader/deserializer.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 1f9fa34..7c061e5 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -89,6 +89,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         title: header.title().map(|t| t.to_string()),
     });
 
+    cj.appearance = to_cj_appearance(header.appearance());
+
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
         (header.templates(), header.templates_vertices())
@@ -474,8 +476,13 @@ pub fn to_cj_feature(
         .vertices()
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
-    // Decode appearance if present
-    if let Some(appearance) = feature.appearance() {
+    cj.appearance = to_cj_appearance(feature.appearance());
+
+    Ok(cj) // Return Result
+}
+
+fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
+    appearance.map(|appearance| {
         let mut cj_appearance = CjAppearance {
             materials: None,
             textures: None,
@@ -571,10 +578,8 @@ pub fn to_cj_feature(
             cj_appearance.default_theme_material = Some(default_theme_material.to_string());
         }
 
-        cj.appearance = Some(cj_appearance);
-    }
-
-    Ok(cj) // Return Result
+        cj_appearance
+    })
 }
 
 pub(crate) fn decode_geometry(
-- 
2.43.0


From 3dd9dbc580b4c17894f3928f5ce515cee3a8c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 20/31] fix: a missing geographical extent is read as zeros

---
 src/rust/fcb_core/src/reader/deserializer.rs | 25 +++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 7c061e5..9cc8e94 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -61,19 +61,16 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     cj.version = header.version().to_string();
     cj.thetype = String::from("CityJSON");
 
-    let geographical_extent = header
-        .geographical_extent()
-        .map(|extent| {
-            [
-                extent.min().x(),
-                extent.min().y(),
-                extent.min().z(),
-                extent.max().x(),
-                extent.max().y(),
-                extent.max().z(),
-            ]
-        })
-        .unwrap_or_default();
+    let geographical_extent = header.geographical_extent().map(|extent| {
+        [
+            extent.min().x(),
+            extent.min().y(),
+            extent.min().z(),
+            extent.max().x(),
+            extent.max().y(),
+            extent.max().z(),
+        ]
+    });
 
     let point_of_contact = match header.poc_contact_name() {
         Some(_) => Some(to_cj_point_of_contact(header)?),
@@ -81,7 +78,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     };
 
     cj.metadata = Some(CjMetadata {
-        geographical_extent: Some(geographical_extent),
+        geographical_extent,
         identifier: header.identifier().map(|i| i.to_string()),
         point_of_contact,
         reference_date: header.reference_date().map(|r| r.to_string()),
-- 
2.43.0


From 06c96200f3cefd02363958de91815c64d3af28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 21/31] fix: meta of files with Byte or UByte columns panics

---
 src/rust/fcb_core/src/reader/deserializer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 9cc8e94..83ea0ff 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -120,6 +120,8 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                     index: i,
                     name: c.name().to_string(),
                     _type: match c.type_() {
+                        ColumnType::Byte => MetaColumnType::Byte,
+                        ColumnType::UByte => MetaColumnType::UByte,
                         ColumnType::Int => MetaColumnType::Int,
                         ColumnType::UInt => MetaColumnType::UInt,
                         ColumnType::Bool => MetaColumnType::Bool,
-- 
2.43.0


From 6c345ed91b68e57386ae6b648d76f01ce6d9030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 22/31] fix: geometries with a single solid or a single shell
 change their nesting

---
 src/rust/fcb_core/src/reader/deserializer.rs | 45 +++++++++++++++++---
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 83ea0ff..04f916a 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -11,9 +11,10 @@ use cjseq::{
     CityJSONFeature, CityObject as CjCityObject, Extension as CjExtension,
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
-    MaterialObject as CjMaterial, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
-    ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
-    TextType as CjTextType, TextureObject as CjTexture, Transform as CjTransform,
+    MaterialObject as CjMaterial, MaterialValues as CjMaterialValues, Metadata as CjMetadata,
+    PointOfContact as CjPointOfContact, ReferenceSystem as CjReferenceSystem,
+    Semantics as CjSemantics, TextFormat as CjTextFormat, TextType as CjTextType,
+    TextureObject as CjTexture, TextureValues as CjTextureValues, Transform as CjTransform,
     WrapMode as CjWrapMode,
 };
 
@@ -605,7 +606,16 @@ pub(crate) fn decode_geometry(
         .boundaries()
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
-    let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    // The flattened arrays do not tell a Solid from a MultiSolid or CompositeSolid
+    // with a single solid, only the geometry type does
+    let has_solids = matches!(
+        g.type_(),
+        GeometryType::MultiSolid | GeometryType::CompositeSolid
+    );
+    let mut boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    if has_solids && solids.len() == 1 {
+        boundaries = CjBoundaries::Nested(vec![boundaries]);
+    }
     let semantics: Option<CjSemantics> = if let (Some(semantics_objects), Some(semantics)) =
         (g.semantics_objects(), g.semantics())
     {
@@ -624,18 +634,41 @@ pub(crate) fn decode_geometry(
     };
 
     // Decode material mappings if present
-    let material = if let Some(material_mappings) = g.material() {
+    let mut material = if let Some(material_mappings) = g.material() {
         decode_materials(&material_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
+    for values in material
+        .iter_mut()
+        .flat_map(|m| m.values_mut())
+        .filter_map(|r| r.values.as_mut())
+    {
+        if let CjMaterialValues::Nested(nested) = values {
+            let per_solid = nested
+                .iter()
+                .any(|v| matches!(v, CjMaterialValues::Nested(_)));
+            if has_solids && !per_solid {
+                *values = CjMaterialValues::Nested(vec![CjMaterialValues::Nested(std::mem::take(
+                    nested,
+                ))]);
+            } else if g.type_() == GeometryType::Solid && per_solid && nested.len() == 1 {
+                *values = nested.remove(0);
+            }
+        }
+    }
 
     // Decode texture mappings if present
-    let texture = if let Some(texture_mappings) = g.texture() {
+    let mut texture = if let Some(texture_mappings) = g.texture() {
         decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
+    if has_solids && solids.len() == 1 {
+        for reference in texture.iter_mut().flat_map(|t| t.values_mut()) {
+            reference.values = CjTextureValues::Nested(vec![reference.values.clone()]);
+        }
+    }
 
     Ok(CjGeometry {
         thetype: g.type_().to_cj(),
-- 
2.43.0


From 6223c1b9d6c53352640c1ae6538637b3f9e357ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 23/31] fix: null semantics of a shell, a solid or a geometry
 make the reader panic

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 60 +++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index abdf070..3d55ba0 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -88,7 +88,14 @@ pub(crate) fn encode(
     let _ = encode_boundaries(cj_boundaries, &mut boundaries);
 
     // Encode semantics if provided
-    let semantics = semantics.map(encode_semantics);
+    let semantics = semantics.map(|s| GMSemantics {
+        values: encode_semantics(&CjSemantics {
+            surfaces: vec![],
+            values: expand_null_semantics(&s.values, cj_boundaries),
+        })
+        .values,
+        surfaces: s.surfaces.to_vec(),
+    });
 
     // Encode appearance if provided
     let textures = textures.map(encode_texture);
@@ -346,6 +353,57 @@ fn encode_boundaries(boundaries: &CjBoundaries, wip_boundaries: &mut GMBoundarie
     }
 }
 
+/// Number of array levels of the boundaries, e.g. 3 for a MultiSurface and 4 for a Solid.
+fn boundaries_depth(boundaries: &CjBoundaries) -> usize {
+    match boundaries {
+        CjBoundaries::Indices(_) => 1,
+        CjBoundaries::Nested(nested) => 1 + nested.iter().map(boundaries_depth).max().unwrap_or(0),
+    }
+}
+
+/// In CityJSON a null may stand for all the semantic values of a shell, of a solid or of the
+/// whole geometry. The decoder expects one value per surface.
+fn expand_null_semantics(
+    values: &CjSemanticsValues,
+    boundaries: &CjBoundaries,
+) -> CjSemanticsValues {
+    match (values, boundaries) {
+        (CjSemanticsValues::Nested(values), CjBoundaries::Nested(parts))
+            if values.len() == parts.len() =>
+        {
+            CjSemanticsValues::Nested(
+                values
+                    .iter()
+                    .zip(parts)
+                    .map(|(v, part)| expand_null_semantics(v, part))
+                    .collect(),
+            )
+        }
+        (CjSemanticsValues::Indices(indices), CjBoundaries::Nested(parts))
+            if boundaries_depth(boundaries) > 3 && indices.iter().all(|i| i.is_none()) =>
+        {
+            let null = CjSemanticsValues::Indices(vec![]);
+            CjSemanticsValues::Nested(
+                parts
+                    .iter()
+                    .map(|part| expand_null_semantics(&null, part))
+                    .collect(),
+            )
+        }
+        (CjSemanticsValues::Indices(indices), CjBoundaries::Nested(parts))
+            if indices.is_empty() =>
+        {
+            CjSemanticsValues::Indices(vec![None; parts.len()])
+        }
+        (CjSemanticsValues::Indices(indices), CjBoundaries::Indices(points))
+            if indices.is_empty() =>
+        {
+            CjSemanticsValues::Indices(vec![None; points.len()])
+        }
+        _ => values.clone(),
+    }
+}
+
 /// Encodes the semantic values into the encoder.
 ///
 /// # Arguments
-- 
2.43.0


From ed1c0eedf40e45f2d1990b6447ea5cfbe9c3b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 24/31] fix: geometries with an empty surface, shell or solid
 make the reader panic

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 73 +++++++-------------
 1 file changed, 25 insertions(+), 48 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index 3d55ba0..a948a51 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -85,7 +85,8 @@ pub(crate) fn encode(
         indices: vec![],
     };
     // Encode the geometric boundaries
-    let _ = encode_boundaries(cj_boundaries, &mut boundaries);
+    let depth = boundaries_depth(cj_boundaries);
+    encode_boundaries(cj_boundaries, depth, &mut boundaries);
 
     // Encode semantics if provided
     let semantics = semantics.map(|s| GMSemantics {
@@ -289,67 +290,43 @@ fn encode_texture_values(values: &CjTextureValues, mapping: &mut TextureMapping)
 /// # Arguments
 ///
 /// * `boundaries` - Reference to the CityJSON boundaries to encode.
-///
-/// # Returns
-///
-/// The maximum depth encountered during encoding.
-///
-/// # Panics
-///
-/// Panics if the `max_depth` is not 1, 2, or 3, indicating an invalid geometry nesting depth.
-fn encode_boundaries(boundaries: &CjBoundaries, wip_boundaries: &mut GMBoundaries) -> usize {
-    match boundaries {
+/// * `depth` - Number of array levels: 1 for a ring, 2 for a surface, 3 for a shell, 4 for a solid.
+fn encode_boundaries(boundaries: &CjBoundaries, depth: usize, wip_boundaries: &mut GMBoundaries) {
+    // Number of elements at the current level
+    let length = match boundaries {
+        // An empty array is always a leaf, whatever its level
+        CjBoundaries::Indices(indices) if indices.is_empty() => 0,
         // ------------------
         // (1) Leaf (indices)
         // ------------------
         CjBoundaries::Indices(indices) => {
             // Extend the flat list of indices with the current ring's indices
             wip_boundaries.indices.extend_from_slice(indices);
-
-            // Record the number of indices in the current ring
-            wip_boundaries.strings.push(indices.len() as u32);
-
-            // Return the current depth level (1 for rings)
-            1 // ring-level
+            indices.len()
         }
         // ------------------
         // (2) Nested
         // ------------------
         CjBoundaries::Nested(sub_boundaries) => {
-            let mut max_depth = 0;
-
-            // Recursively encode each sub-boundary and track the maximum depth
+            // Recursively encode each sub-boundary
             for sub in sub_boundaries {
-                let d = encode_boundaries(sub, wip_boundaries);
-                max_depth = max_depth.max(d);
-            }
-
-            // Number of sub-boundaries at the current level
-            let length = sub_boundaries.len();
-
-            // Interpret the `max_depth` to determine the current geometry type
-            match max_depth {
-                // max_depth = 1 indicates the children are rings, so this level represents surfaces
-                1 => {
-                    wip_boundaries.surfaces.push(length as u32);
-                }
-                // max_depth = 2 indicates the children are surfaces, so this level represents shells
-                2 => {
-                    // Push the number of surfaces in this shell
-                    wip_boundaries.shells.push(length as u32);
-                }
-                // max_depth = 3 indicates the children are shells, so this level represents solids
-                3 => {
-                    // Push the number of shells in this solid
-                    wip_boundaries.solids.push(length as u32);
-                }
-                // Any other depth is invalid and should panic
-                _ => {}
+                encode_boundaries(sub, depth - 1, wip_boundaries);
             }
-
-            // Return the updated depth level
-            max_depth + 1
+            sub_boundaries.len()
         }
+    };
+
+    match depth {
+        // Number of indices in this ring
+        1 => wip_boundaries.strings.push(length as u32),
+        // Number of rings in this surface
+        2 => wip_boundaries.surfaces.push(length as u32),
+        // Number of surfaces in this shell
+        3 => wip_boundaries.shells.push(length as u32),
+        // Number of shells in this solid
+        4 => wip_boundaries.solids.push(length as u32),
+        // The array of solids itself is implied
+        _ => {}
     }
 }
 
-- 
2.43.0


From a0d9f5f1386d9c1b052576d96108d9e4e62281d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 25/31] fix: fcb ser loses the semantic attributes of geometry
 templates

---
 src/rust/cli/src/main.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 82932db..ed71bd2 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -187,17 +187,16 @@ fn serialize(
 
     let semantic_attr_schema = {
         let mut schema = AttributeSchema::new();
-        for feature in filtered_features.iter() {
-            for (_, co) in feature.city_objects.iter() {
-                if let Some(geometry) = &co.geometry {
-                    for geom in geometry.iter() {
-                        if let Some(semantics) = geom.semantics.as_ref() {
-                            for sem_obj in semantics.surfaces.iter() {
-                                if let Some(other) = &sem_obj.other {
-                                    schema.add_attributes(other);
-                                }
-                            }
-                        }
+        let templates = cj.geometry_templates.iter().flat_map(|t| &t.templates);
+        let geometries = filtered_features
+            .iter()
+            .flat_map(|feature| feature.city_objects.values())
+            .flat_map(|co| co.geometry.iter().flatten());
+        for geom in geometries.chain(templates) {
+            if let Some(semantics) = geom.semantics.as_ref() {
+                for sem_obj in semantics.surfaces.iter() {
+                    if let Some(other) = &sem_obj.other {
+                        schema.add_attributes(other);
                     }
                 }
             }
-- 
2.43.0


From e80a9fb2d54a8d2c2664042d39307038691b7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:08 +0000
Subject: [PATCH 26/31] fix: writing a string or boolean index key ignores
 errors of the destination

---
 src/rust/fcb_core/src/static_btree/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 5864ec3..4b607e0 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -375,7 +375,7 @@ impl Key for bool {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&[*self as u8]).map_err(Error::from);
+        writer.write_all(&[*self as u8])?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
@@ -448,7 +448,7 @@ impl<const N: usize> Key for FixedStringKey<N> {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&self.0).map_err(Error::from);
+        writer.write_all(&self.0)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
-- 
2.43.0


From cb1c74ae100f65ffe55532b3d166e3cff7c79283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 27/31] fix: report a full output device in the cbor and bson
 commands

---
 src/rust/cli/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index ed71bd2..373d26e 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -406,15 +406,16 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
 
 fn encode_cbor(input: &str, output: &str) -> Result<(), Error> {
     let reader = BufReader::new(get_reader(input)?);
-    let writer = BufWriter::new(get_writer(output)?);
+    let mut writer = BufWriter::new(get_writer(output)?);
 
     let value: serde_json::Value = serde_json::from_reader(reader)?;
-    serde_cbor::to_writer(writer, &value).map_err(|e| {
+    serde_cbor::to_writer(&mut writer, &value).map_err(|e| {
         Error::IoError(std::io::Error::new(
             std::io::ErrorKind::Other,
             format!("failed to encode to cbor: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to cbor");
@@ -446,6 +447,7 @@ fn encode_bson(input: &str, output: &str) -> Result<(), Error> {
             format!("failed to encode to bson: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to bson");
-- 
2.43.0


From c3bcee9099e110411314ee92df1efbc62d013155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 28/31] fix: attribute queries of the browser reader repeat
 features and lose their order

---
 src/rust/wasm/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 883f17d..4609ad6 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -346,10 +346,13 @@ mod wasm {
             }
             info!("current index begin: {}", current_index_begin);
             // self.client.set_min_req_size(combine_request_threshold);
-            let result = http_multi_index
+            let mut result = http_multi_index
                 .query(&mut self.client, &query.conditions)
                 .await
                 .map_err(|e| JsValue::from_str(&format!("failed to query index: {:?}", e)))?;
+            // a feature is selected once, however many of its objects match
+            result.sort_by_key(|item| item.range.start());
+            result.dedup_by_key(|item| item.range.start());
 
             info!("result: {:?}", result);
             let count = result.len();
-- 
2.43.0


From 93d3e6b67eaba7ed9c39237d260c05b3b8b7aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 29/31] fix: the browser reader cannot query files with an
 index on a Long column

---
 src/rust/wasm/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 4609ad6..d00846a 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -493,6 +493,16 @@ mod wasm {
                         );
                         multi_index.add_index(col.name().to_string(), index);
                     }
+                    ColumnType::Long => {
+                        let index = HttpIndex::<i64>::new(
+                            attr_info.num_unique_items() as usize,
+                            attr_info.branching_factor(),
+                            index_begin,
+                            feature_begin,
+                            combine_request_threshold,
+                        );
+                        multi_index.add_index(col.name().to_string(), index);
+                    }
                     ColumnType::ULong => {
                         let index = HttpIndex::<u64>::new(
                             attr_info.num_unique_items() as usize,
-- 
2.43.0


From 5fcb74443819713f0639ecd9eef355a6fd74f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 30/31] fix: dates before 1970 lose their fraction in queries
 of the browser reader

---
 src/rust/wasm/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index d00846a..9233edb 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -1098,8 +1098,9 @@ mod wasm {
                     // If a JS Date, convert to milliseconds then to a NaiveDateTime.
                     let date: js_sys::Date = value_js.unchecked_into();
                     let millis = date.get_time();
-                    let secs = (millis / 1000.0) as i64;
-                    let nanos = ((millis % 1000.0) * 1_000_000.0) as u32;
+                    // before 1970, too, the fraction counts from the second before
+                    let secs = millis.div_euclid(1000.0) as i64;
+                    let nanos = (millis.rem_euclid(1000.0) * 1_000_000.0) as u32;
                     let ndt = NaiveDateTime::from_timestamp(secs, nanos);
                     let dt = DateTime::<Utc>::from_utc(ndt, Utc);
                     KeyType::DateTime(dt)
-- 
2.43.0


From 8bb24f548036b7a525b2e190f2ab90bfe9281d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 31/31] fix: short HTTP responses panic in the browser reader

---
 src/rust/wasm/src/lib.rs | 47 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 9233edb..37b6c19 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -47,6 +47,22 @@ mod wasm {
     // Static variable to track if logger has been initialized
     static LOGGER_INITIALIZED: AtomicBool = AtomicBool::new(false);
 
+    /// Fetch exactly `length` bytes, and not less
+    async fn get_exact<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        begin: usize,
+        length: usize,
+    ) -> Result<&[u8], String> {
+        let bytes = client
+            .get_range(begin, length)
+            .await
+            .map_err(|e| e.to_string())?;
+        if bytes.len() != length {
+            return Err(format!("got {} of {length} bytes at {begin}", bytes.len()));
+        }
+        Ok(bytes)
+    }
+
     /// FlatCityBuf dataset HTTP reader
     #[wasm_bindgen]
     pub struct HttpFcbReader {
@@ -114,20 +130,18 @@ mod wasm {
             client.set_min_req_size(min_req_size);
             debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
             let mut read_bytes = 0;
-            let bytes = client
-                .get_range(read_bytes, MAGIC_BYTES_SIZE)
+            let bytes = get_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE)
                 .await
-                .map_err(|e| JsValue::from_str(&e.to_string()))?; // to get magic bytes
+                .map_err(|e| JsValue::from_str(&e))?; // to get magic bytes
             if !check_magic_bytes(bytes) {
                 return Err(JsValue::from_str("MissingMagicBytes"));
             }
 
             read_bytes += MAGIC_BYTES_SIZE;
             let mut bytes = BytesMut::from(
-                client
-                    .get_range(read_bytes, HEADER_SIZE_SIZE)
+                get_exact(&mut client, read_bytes, HEADER_SIZE_SIZE)
                     .await
-                    .map_err(|e| JsValue::from_str(&e.to_string()))?,
+                    .map_err(|e| JsValue::from_str(&e))?,
             );
             read_bytes += HEADER_SIZE_SIZE;
 
@@ -140,10 +154,9 @@ mod wasm {
             }
 
             bytes.put(
-                client
-                    .get_range(read_bytes, header_size)
+                get_exact(&mut client, read_bytes, header_size)
                     .await
-                    .map_err(|e| JsValue::from_str(&e.to_string()))?,
+                    .map_err(|e| JsValue::from_str(&e))?,
             );
             read_bytes += header_size;
 
@@ -647,12 +660,11 @@ mod wasm {
             self.features_left -= 1;
 
             let mut feature_buffer =
-                BytesMut::from(client.get_range(self.pos, 4).await.map_err(|_| Error)?);
+                BytesMut::from(get_exact(client, self.pos, 4).await.map_err(|_| Error)?);
             self.pos += 4;
             let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
             feature_buffer.put(
-                client
-                    .get_range(self.pos, feature_size)
+                get_exact(client, self.pos, feature_size)
                     .await
                     .map_err(|_| Error)?,
             );
@@ -786,12 +798,11 @@ mod wasm {
 
             let mut pos = feature_range.start();
             let mut feature_buffer =
-                BytesMut::from(client.get_range(pos, 4).await.map_err(|_| Error)?);
+                BytesMut::from(get_exact(client, pos, 4).await.map_err(|_| Error)?);
             pos += 4;
             let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
             feature_buffer.put(
-                client
-                    .get_range(pos, feature_size)
+                get_exact(client, pos, feature_size)
                     .await
                     .map_err(|_| Error)?,
             );
@@ -815,15 +826,13 @@ mod wasm {
                 return Ok(None);
             };
             let mut feature_buffer = BytesMut::from(
-                client
-                    .get_range(range.start(), 4)
+                get_exact(client, range.start(), 4)
                     .await
                     .map_err(|_| Error)?,
             );
             let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
             feature_buffer.put(
-                client
-                    .get_range(range.start() + 4, feature_size)
+                get_exact(client, range.start() + 4, feature_size)
                     .await
                     .map_err(|_| Error)?,
             );
-- 
2.43.0

