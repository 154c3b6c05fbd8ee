From df45604b889e663713273c52b977c39c060f9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 01/16] fix: bulk_remove pairs each removed signature with its
 own id

When the list contained an absent or repeated id, the removed signatures were
zipped with the wrong ids and stale entries stayed in the bands.
---
 gaoya/src/minhash/minhash_index.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 8a7d996..702356a 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -700,13 +700,13 @@ where
         where
             Id: Hash + Eq + Clone + Send + Sync,
             T: Send + Sync {
-        let sigs: Vec<Vec<T>> = ids.iter()
-            .filter_map(|id| self.id_signatures.remove(id))
-            .collect();
+        let (removed_ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()
+            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
+            .unzip();
 
         self.bands.par_iter_mut()
             .for_each(|band| {
-                sigs.iter().zip(ids)
+                sigs.iter().zip(removed_ids.iter())
                     .for_each(|(sig, id)| band.remove(id, sig))
             });
         sigs
-- 
2.43.0


From 138ebbe68bcac7804fc4e8e25b1cb9dc73ac7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 02/16] fix: similarity and top-k queries skip ids that are no
 longer stored

After an id was inserted twice with different signatures and then removed, an
entry of the first signature stays in the bands; query skips it, but
query_owned_return_similarity and query_top_k panicked on it.
---
 gaoya/src/minhash/minhash_index.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 702356a..a61cf92 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -628,10 +628,11 @@ where
         }
         let mut result = Vec::new();
         for id in match_ids.into_iter() {
-            let signature = &self.id_signatures[&id];
-            let similarity = compute_minhash_similarity(signature, query_signature);
-            if similarity >= self.threshold {
-                result.push((id, similarity))
+            if let Some(signature) = self.id_signatures.get(&id) {
+                let similarity = compute_minhash_similarity(signature, query_signature);
+                if similarity >= self.threshold {
+                    result.push((id, similarity))
+                }
             }
         }
         result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
@@ -647,10 +648,10 @@ where
         }
         let mut ids_distances: Vec<(Id, f64)> = match_ids
             .into_iter()
-            .map(|id| {
-                let signature = &self.id_signatures[&id];
+            .filter_map(|id| {
+                let signature = self.id_signatures.get(&id)?;
                 let distance = compute_minhash_distance(query_signature, signature);
-                (id, distance)
+                Some((id, distance))
             })
             .collect();
         ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
-- 
2.43.0


From 506860b1fe1911aca1a0a74f5b37bf08f0a5e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 03/16] fix: query_one uses the same threshold comparison as
 query

A point whose similarity equals the threshold was returned by query but not by
query_one (with threshold 1.0 query_one never returned anything).
---
 gaoya/src/minhash/minhash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index a61cf92..b276458 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -539,7 +539,7 @@ where
             .map(|id| (id, self.id_signatures.get(&id)))
             .filter(|(id, sig)| sig.is_some())
             .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
-            .filter(|pair| pair.1 > self.threshold)
+            .filter(|pair| pair.1 >= self.threshold)
             .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
     }
 
-- 
2.43.0


From bca3969d9853cf4b606ab80998ca4d5fe4595157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 04/16] fix: shrink_to no longer panics when every bucket holds
 one id or the index is empty

The ratio of buckets to ids is exactly 1 when all bands are distinct and NaN
(cast to capacity 0) for an empty index.
---
 gaoya/src/minhash/minhash_index.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index b276458..7b7d352 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -487,7 +487,6 @@ where
                 // On average the size of every band will be lower than the size of
                 // id_signatures. We adjust the desired capacity.
                 let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
-                assert!(ratio < 1.0);
                 let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                 band.shrink_to(adjusted_capacity)
             });
-- 
2.43.0


From 42c208c0c62ae80114450056cbbfac3230151276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 05/16] fix: bulk insert rejects every signature of the wrong
 length

Only the first signature (or none, for pairs) was checked, so a longer one was
stored and made later queries panic.
---
 gaoya/src/minhash/minhash_index.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 7b7d352..b673529 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -430,8 +430,8 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        if !signatures.is_empty() {
-            assert_eq!(self.num_hashes(), signatures[0].len());
+        for signature in signatures.iter() {
+            assert_eq!(self.num_hashes(), signature.len());
         }
 
         self.bands.par_iter_mut().for_each(|band| {
@@ -452,6 +452,10 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
+        for pair in id_signature_pairs.iter() {
+            assert_eq!(self.num_hashes(), pair.1.len());
+        }
+
         self.bands.par_iter_mut().for_each(|band| {
             for item in id_signature_pairs.iter() {
                 let i: &(Id, Vec<T>) = item;
-- 
2.43.0


From 2c98b227a424aebdeefab10b3f465383d15a8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 06/16] fix: SimHash queries include ids at exactly the
 configured distance

The documentation promises a Hamming distance less than or equal to the
configured one, which is also what the block combinations guarantee.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index ac56fe0..22df6f3 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -54,7 +54,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     });
                 match_ids.extend(matches);
             }
@@ -75,7 +75,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     }).cloned();
                 match_ids.extend(matches);
             }
-- 
2.43.0


From 79aa341751d906c331370c18052f3719909e4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 07/16] fix: SimHashIndex::size returns the number of stored
 ids

The counter it returned was never updated.
---
 gaoya/src/simhash/sim_hash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 22df6f3..1b47f2e 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -225,7 +225,7 @@ where
     }
 
     pub fn size(&self) -> usize {
-        self.size
+        self.id_signatures.len()
     }
 
     fn avg_bucket_count(&self) -> usize {
-- 
2.43.0


From fe44bb271f5b4c0052b1e67031a0f5fdf6e9697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 08/16] fix: similarity_greater_than_threshold compares the
 similarity itself

The expected number of matches was truncated, so signatures of similarity 1/3
passed a threshold of 0.5.
---
 gaoya/src/minhash/mod.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/gaoya/src/minhash/mod.rs b/gaoya/src/minhash/mod.rs
index d8f69d1..db7702d 100644
--- a/gaoya/src/minhash/mod.rs
+++ b/gaoya/src/minhash/mod.rs
@@ -145,19 +145,7 @@ pub fn similarity_greater_than_threshold<T>(
     where
         T: Eq,
 {
-    assert_eq!(min_hashes_1.len(), min_hashes_2.len());
-    let num_hashes = min_hashes_1.len();
-    let expected_matches = (num_hashes as f64 * threshold) as u32;
-    let mut num_matches: u32 = 0;
-    for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {
-        if pair.0 == pair.1 {
-            num_matches += 1;
-        }
-        if num_matches >= expected_matches {
-            return true;
-        }
-    }
-    false
+    compute_minhash_similarity(min_hashes_1, min_hashes_2) >= threshold
 }
 
 fn minhash_centroid<T>(signatures: &[Vec<T>]) -> Vec<T>
-- 
2.43.0


From ff0e936216a697758331589ba7f13e8e705aa1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 09/16] fix: load_from_file_parallel does not reuse the id of
 the last document

Ids start after doc_id, like in insert; the first loaded line overwrote the
document inserted last.
---
 gaoya/src/minhash/string_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index 4f8e947..b899fc1 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -80,7 +80,7 @@ impl MinHashStringIndex {
                 let lines: Vec<(u64, String)> = reader
                     .lines()
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From 6ed5634944cd5f66be8db35dd15381092af993a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 10/16] fix: serial clusterer does not reuse cluster ids in a
 later call

The id sequence was read but never advanced.
---
 gaoya/src/clustering/clustering_serial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 492ba30..8950307 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -105,6 +105,7 @@ impl<Id> Clusterer<Id>
                 clusters.push(cluster);
             }
         }
+        self.cluster_id_sequence = cluster_id_seq;
         clusters
     }
 
-- 
2.43.0


From 74910ed1cbe675a7e671962dedac24976986efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:39 +0000
Subject: [PATCH 11/16] fix: range shingles over slices include the shorter
 shingles at the end

Iteration stopped at the first size that no longer fits, so shorter runs at the
last positions (or of a short text) were dropped.
---
 gaoya/src/text/multi_shingles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/text/multi_shingles.rs b/gaoya/src/text/multi_shingles.rs
index ff8ab62..9931010 100644
--- a/gaoya/src/text/multi_shingles.rs
+++ b/gaoya/src/text/multi_shingles.rs
@@ -31,7 +31,7 @@ impl<'a, T> Iterator for MultiShingles<'a, [T]> {
         if self.data.len() >= self.size {
             let ret = &self.data[0..self.size];
             self.size += 1;
-            if self.size > self.to_size {
+            if self.size > self.to_size || self.size > self.data.len() {
                 self.size = self.from_size;
                 self.data = &self.data[self.step..];
             }
-- 
2.43.0


From cf77fb1d529791776117b9f4098bdb58c34dfb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 12/16] fix: range shingles over strings include the shorter
 shingles at the end

Same as for slices: the first size that did not fit ended the iteration.
---
 gaoya/src/text/multi_shingles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/text/multi_shingles.rs b/gaoya/src/text/multi_shingles.rs
index 9931010..5ea7662 100644
--- a/gaoya/src/text/multi_shingles.rs
+++ b/gaoya/src/text/multi_shingles.rs
@@ -80,7 +80,7 @@ impl<'a> Iterator for MultiShingles<'a, str> {
 
         // move data slice to next step position
         self.size += 1;
-        if self.size > self.to_size {
+        if self.size > self.to_size || pos_end == 0 {
             self.size = self.from_size;
             if pos_next != 0 {
                 self.data = &self.data[pos_next..];
-- 
2.43.0


From e3b5921a603dc22a999e9ca1747ae994a2dfdd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:26 +0000
Subject: [PATCH 13/16] Expose the private centroid functions to harnesses
 under cfg(gaoya_verif)

---
 gaoya/src/minhash/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gaoya/src/minhash/mod.rs b/gaoya/src/minhash/mod.rs
index db7702d..0b5336f 100644
--- a/gaoya/src/minhash/mod.rs
+++ b/gaoya/src/minhash/mod.rs
@@ -274,6 +274,21 @@ fn calculate_b_and_r(s: f64, n: usize, p: f64) -> (usize, usize) {
     (b, r)
 }
 
+/// Access to private functions for verification harnesses; compiled only with `--cfg gaoya_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(gaoya_verif)]
+pub mod verif_hooks {
+    use std::hash::Hash;
+
+    pub fn centroid<T: Hash + Copy + Eq>(signatures: &[Vec<T>]) -> Vec<T> {
+        super::minhash_centroid(signatures)
+    }
+
+    pub fn centroid_from_refs<T: Hash + Copy + Eq>(signatures: &[&Vec<T>]) -> Vec<T> {
+        super::minhash_centroid_from_refs(signatures)
+    }
+}
+
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 967d5195eda8247ed2a0dd15f7021a6c623aaca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 14/16] fix: SimHashStringIndex asks for native methods that
 exist

Scored queries and bulk queries with a callable analyzer raised AttributeError: the wrapper
called native methods that were never defined.
---
 py-gaoya/gaoya/simhash.py |  8 ++++----
 py-gaoya/src/sim_hash.rs  | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 3c53b67..621f847 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -102,12 +102,12 @@ class SimHashStringIndex:
         """
         if callable(self.analyzer):
             if return_hamming_distance:
-                return self.index.query_tokens_return_similarity(self.analyzer(doc))
+                return self.index.query_tokens_return_distance(self.analyzer(doc))
             else:
                 return self.index.query_tokens(self.analyzer(doc))
         else:
             if return_hamming_distance:
-                return self.index.query_return_similarity(doc)
+                return self.index.query_return_distance(doc)
             else:
                 return self.index.query(doc)
 
@@ -132,11 +132,11 @@ class SimHashStringIndex:
         if callable(self.analyzer):
             analyzed_docs = [self.analyzer(doc) for doc in docs]
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(analyzed_docs)
+                return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)
             else:
                 return self.index.par_bulk_query_tokens(analyzed_docs)
         else:
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(docs)
+                return self.index.par_bulk_query_return_distance(docs)
             else:
                 return self.index.par_bulk_query(docs)
diff --git a/py-gaoya/src/sim_hash.rs b/py-gaoya/src/sim_hash.rs
index 1fc9454..9b5d022 100644
--- a/py-gaoya/src/sim_hash.rs
+++ b/py-gaoya/src/sim_hash.rs
@@ -156,6 +156,16 @@ macro_rules! py_simhash_index {
                 self.inner.par_bulk_query_return_distance(&signatures)
             }
 
+            pub fn par_bulk_query_tokens(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {
+                let signatures = doc_tokens.par_iter()
+                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
+                    .collect();
+                self.inner.par_bulk_query(&signatures)
+                    .into_iter()
+                    .map(|set| set.into_iter().collect())
+                    .collect()
+            }
+
             pub fn par_bulk_query_tokens_return_similarity(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
                 let signatures = doc_tokens.par_iter()
                     .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
-- 
2.43.0


From 1a8632ba980889fc3ca673b6fdcf17d418ab22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:34 +0000
Subject: [PATCH 15/16] fix: parallel clusterer: a cluster that meets a point
 claimed by another thread gives its points back

The conflicting cluster was dereferenced although its thread may have freed it, a cluster
rolled back by a competitor went on claiming points or was returned with points whose mark
still pointed to the loser, COMMITTED and ROLLED_BACK were the same value, and the retry
could underflow the loop index.
---
 gaoya/src/clustering/clusterer_parallel.rs | 76 ++++------------------
 1 file changed, 11 insertions(+), 65 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ef5ede1..e1c07ed 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -8,7 +8,7 @@ use std::marker::PhantomData;
 use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};
 use triomphe::Arc;
 
 /// Implementation of a parallel,  multi-threaded clustering algorithm.
@@ -85,13 +85,9 @@ impl<Id> Eq for ClusterPointInner<Id> where Id: Eq {}
 
 pub type ClusterPoint<Id> = Arc<ClusterPointInner<Id>>;
 
-const COMMITTED: u8 = 1;
-const ROLLED_BACK: u8 = 1;
-
 pub struct Cluster<Id> {
     pub points: Vec<ClusterPoint<Id>>,
     pub cluster_id: u32,
-    state: AtomicU8,
 }
 
 impl<Id> Cluster<Id> {
@@ -99,33 +95,8 @@ impl<Id> Cluster<Id> {
         Cluster {
             points: Vec::with_capacity(cluster_size),
             cluster_id: cluster_id,
-            state: AtomicU8::new(0),
         }
     }
-
-    /// cluster state machine is simple. There are only 3 possible states and 2 transitions:
-    /// NEW -> COMMITTED, NEW -> ROLLED_BACK
-
-
-    fn commit(&self) -> bool {
-        self.state
-            .compare_exchange(0, COMMITTED, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn rollback(&self) -> bool {
-        self.state
-            .compare_exchange(0, ROLLED_BACK, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn is_rolled_back(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == ROLLED_BACK
-    }
-
-    fn is_commited(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == COMMITTED
-    }
 }
 
 /// Parallel Clusterer searches clusters using multiple threads
@@ -229,48 +200,23 @@ where
         let cluster_const_ptr: *const Cluster<Id> = &*cluster;
         let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
 
-        for mut i in 0..points.len() {
-            // Another thread may rolled us back
-            if cluster.is_rolled_back() {
-                self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            }
-            let point = &points[i];
+        // All threads claim points in the same order: when several of them compete for the
+        // same points, the one that comes furthest meets no conflict and keeps its cluster.
+        points.sort_by_key(|point| &**point as *const ClusterPointInner<Id>);
+        for point in points.iter() {
             match point.assign_cluster(cluster_ptr) {
                 Ok(_) => {
                     cluster.points.push(point.clone());
                 }
-                Err(conflict_ptr) => {
-                    // This point has already been assigned a cluster by another thread,
-                    // but if the conflict cluster has not been commited we still can win this point
-                    let conflict_cluster: &mut Cluster<Id> = unsafe { &mut *conflict_ptr };
-                    if conflict_cluster.is_commited() {
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else if conflict_cluster.is_rolled_back() {
-                        i = i - 1; // go back and retry
-                    } else if (cluster_id > conflict_cluster.cluster_id) {
-                        // We loose because conflict_cluster was first
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else {
-                        if conflict_cluster.rollback() {
-                            cluster.points.push(point.clone());
-                        } else {
-                            // We are too late
-                            cluster.rollback();
-                            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                            return None;
-                        }
-                    }
+                Err(_) => {
+                    // This point has already been assigned a cluster by another thread.
+                    // That cluster may be rolled back and freed at any time, so it must not be
+                    // looked at from here: give back the points claimed so far.
+                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
+                    return None;
                 }
             }
         }
-        if !cluster.commit() {
-            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            return None;
-        }
         Some(cluster)
     }
 
-- 
2.43.0


From add26feac7cff9bc31dbed5f7c79ecaa65c03c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:34 +0000
Subject: [PATCH 16/16] fix: parallel clusterer: cluster_par accepts fewer
 points than threads

---
 gaoya/src/clustering/clusterer_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index e1c07ed..b7828b8 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -138,7 +138,7 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &MinHashIndex<T, ClusterPoint<Id>, C>,
     ) -> Vec<Box<Cluster<Id>>> {
-        let chunk_size = points.len() / self.n_threads;
+        let chunk_size = (points.len() / self.n_threads).max(1);
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
-- 
2.43.0

