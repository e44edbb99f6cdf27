From 5458647ec25fea186c91d048998ffaaf98c5990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 01/20] fix: exact quorums and blocking sets of symmetric
 clusters with repeated validators

The filter used for quorum sets with repeated validators kept duplicates, judged
blocking sets by the whole FBAS and not by their cluster, and tested the blocking
set instead of the blocked set. Reduce to minimal node sets instead.
---
 src/analysis/blocking_sets.rs | 11 +++--------
 src/analysis/quorums.rs       |  6 +++---
 src/analysis/sets.rs          | 24 ------------------------
 3 files changed, 6 insertions(+), 35 deletions(-)

diff --git a/src/analysis/blocking_sets.rs b/src/analysis/blocking_sets.rs
index e935948..006ddda 100644
--- a/src/analysis/blocking_sets.rs
+++ b/src/analysis/blocking_sets.rs
@@ -20,7 +20,7 @@ fn minimal_blocking_sets_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas)
 
         if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
             debug!("Cluster contains a symmetric quorum cluster! Extracting blocking sets...");
-            found_blocking_sets_per_cluster.push(symmetric_cluster.to_minimal_blocking_sets(fbas));
+            found_blocking_sets_per_cluster.push(symmetric_cluster.to_minimal_blocking_sets());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -115,10 +115,10 @@ fn minimal_blocking_sets_finder_step(
 
 impl QuorumSet {
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal blocking sets of the induced FBAS.
-    fn to_minimal_blocking_sets(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
+    fn to_minimal_blocking_sets(&self) -> Vec<NodeIdSet> {
         let blocking_sets = self.to_blocking_sets();
         if self.contains_duplicates() {
-            remove_non_minimal_x(blocking_sets, is_minimal_for_blocking_set, fbas)
+            remove_non_minimal_node_sets(blocking_sets)
         } else {
             blocking_sets
         }
@@ -165,11 +165,6 @@ impl QuorumSet {
     }
 }
 
-fn is_minimal_for_blocking_set(blocking_set: &NodeIdSet, fbas: &Fbas) -> bool {
-    let mut blocked_set = fbas.all_nodes();
-    blocked_set.difference_with(&blocking_set);
-    is_minimal_for_blocking_set_with_precomputed_blocked_set(blocking_set, &blocking_set, fbas)
-}
 fn is_minimal_for_blocking_set_with_precomputed_blocked_set(
     blocking_set: &NodeIdSet,
     blocked_set: &NodeIdSet,
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 0c990bd..9921fee 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -33,7 +33,7 @@ fn minimal_quorums_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas) -> Ve
 
         if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
             debug!("Cluster contains a symmetric quorum cluster! Extracting quorums...");
-            found_quorums.append(&mut symmetric_cluster.to_minimal_quorums(fbas));
+            found_quorums.append(&mut symmetric_cluster.to_minimal_quorums());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -96,10 +96,10 @@ fn minimal_quorums_finder_step(
 
 impl QuorumSet {
     /// Makes sense if the quorum set represents a symmetric quorum cluster...
-    fn to_minimal_quorums(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
+    fn to_minimal_quorums(&self) -> Vec<NodeIdSet> {
         let quorums = self.to_quorum_slices();
         if self.contains_duplicates() {
-            remove_non_minimal_x(quorums, is_minimal_for_quorum, fbas)
+            remove_non_minimal_node_sets(quorums)
         } else {
             quorums
         }
diff --git a/src/analysis/sets.rs b/src/analysis/sets.rs
index 60e40f1..8fcadda 100644
--- a/src/analysis/sets.rs
+++ b/src/analysis/sets.rs
@@ -98,30 +98,6 @@ pub fn remove_non_minimal_node_sets(mut node_sets: Vec<NodeIdSet>) -> Vec<NodeId
     remove_non_minimal_node_sets_from_buckets(buckets_by_len)
 }
 
-pub(crate) fn remove_non_minimal_x<F>(
-    node_sets: Vec<NodeIdSet>,
-    is_minimal: F,
-    fbas: &Fbas,
-) -> Vec<NodeIdSet>
-where
-    F: Fn(&NodeIdSet, &Fbas) -> bool,
-{
-    let mut minimal_x = vec![];
-
-    debug!("Filtering out non-minimal node sets...");
-    for (i, node_set) in node_sets.into_iter().enumerate() {
-        if i % 100_000 == 0 {
-            debug!("...at set {}; {} minimal sets", i, minimal_x.len());
-        }
-        if is_minimal(&node_set, fbas) {
-            minimal_x.push(node_set);
-        }
-    }
-    debug!("Filtering done.");
-    debug_assert!(is_set_of_minimal_node_sets(&minimal_x));
-    minimal_x
-}
-
 pub fn is_set_of_minimal_node_sets(node_sets: &[NodeIdSet]) -> bool {
     node_sets.iter().enumerate().all(|(i, x)| {
         node_sets
-- 
2.43.0


From 0a1bf90b21208800eb6c6b16bfeb4363d9fe84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 02/20] fix: quorum intersection checks on an FBAS without
 quorums

find_nonintersecting_quorums panicked if there was no quorum at all; the
alternative check now denies quorum intersection like the regular one.
---
 src/analysis/front_end.rs | 3 ++-
 src/analysis/quorums.rs   | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/analysis/front_end.rs b/src/analysis/front_end.rs
index ee7e45e..a0dd96d 100644
--- a/src/analysis/front_end.rs
+++ b/src/analysis/front_end.rs
@@ -68,7 +68,8 @@ impl Analysis {
                 Some(self.make_shrunken_set_vec_result(quorums.to_vec())),
             )
         } else {
-            (true, None)
+            let fbas = self.fbas_shrunken.borrow();
+            (contains_quorum(&fbas.all_nodes(), &fbas), None)
         }
     }
     /// Minimal quorums - no proper subset of any of these node sets is a quorum.
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 9921fee..6ef1750 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -110,7 +110,10 @@ fn nonintersecting_quorums_finder(
     consensus_clusters: Vec<NodeIdSet>,
     fbas: &Fbas,
 ) -> Vec<NodeIdSet> {
-    if consensus_clusters.len() > 1 {
+    if consensus_clusters.is_empty() {
+        debug!("There are no quorums.");
+        vec![]
+    } else if consensus_clusters.len() > 1 {
         debug!("More than one consensus clusters - reducing to maximal quorums.");
         consensus_clusters
             .into_iter()
-- 
2.43.0


From ebb17f1f876a336127532fe0f582bad019cf38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 03/20] fix: NodeIdSetVecResult::involved_nodes returns IDs of
 the analyzed FBAS

It returned IDs of the internal shrunken ID space.
---
 src/analysis/results.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/analysis/results.rs b/src/analysis/results.rs
index b677109..14b7250 100644
--- a/src/analysis/results.rs
+++ b/src/analysis/results.rs
@@ -83,7 +83,11 @@ impl NodeIdSetVecResult {
             .collect()
     }
     pub fn involved_nodes(&self) -> NodeIdSet {
-        involved_nodes(&self.node_sets)
+        let involved = involved_nodes(&self.node_sets);
+        match &self.unshrink_table {
+            Some(unshrink_table) => unshrink_set(&involved, unshrink_table),
+            None => involved,
+        }
     }
     pub fn len(&self) -> usize {
         self.node_sets.len()
-- 
2.43.0


From 48ca32ecafc54063c8c9bdc18e2ebd8b41fcd401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 04/20] fix: public keys of a shrunken FBAS resolve to its
 nodes

The name lookup still had the generic names the nodes were created with.
---
 src/core_types/shrinking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_types/shrinking.rs b/src/core_types/shrinking.rs
index 3f9d28b..0acf526 100644
--- a/src/core_types/shrinking.rs
+++ b/src/core_types/shrinking.rs
@@ -96,6 +96,12 @@ impl Fbas {
                 fbas_shrunken.nodes[new_id] = Node::shrunken(&self.nodes[old_id], &shrink_map);
             }
         }
+        fbas_shrunken.pk_to_id = fbas_shrunken
+            .nodes
+            .iter()
+            .enumerate()
+            .map(|(id, node)| (node.public_key.clone(), id))
+            .collect();
         (fbas_shrunken, shrink_manager)
     }
 }
-- 
2.43.0


From 1af2c87acc7f4d592c004bbc49ec0a275ad669f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 05/20] fix: ISP and country names that are empty or end in a
 multi-byte character

Splitting off the last byte panicked on them.
---
 src/io/groupings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/groupings.rs b/src/io/groupings.rs
index 59bd877..97020c3 100644
--- a/src/io/groupings.rs
+++ b/src/io/groupings.rs
@@ -167,9 +167,9 @@ impl RawGroupings {
 
 fn remove_special_chars_from_grouping_name(mut name: String) -> String {
     name.retain(|c| c != ',');
-    let mut maybe_fullstop = name.split_off(name.len() - 1);
-    maybe_fullstop.retain(|c| c != '.');
-    name.push_str(&maybe_fullstop);
+    if name.ends_with('.') {
+        name.pop();
+    }
     name
 }
 
-- 
2.43.0


From b5e2d0b61f34e001cc58bfec9bc32dc207eb7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 06/20] fix: merging a quorum set by group keeps nested quorum
 sets

Nested quorum sets beside validators of a single group were dropped with their
threshold, or became optional.
---
 src/analysis/merge_by_group.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/analysis/merge_by_group.rs b/src/analysis/merge_by_group.rs
index 93aeb3f..ad308cc 100644
--- a/src/analysis/merge_by_group.rs
+++ b/src/analysis/merge_by_group.rs
@@ -36,14 +36,17 @@ impl<'fbas> Groupings<'fbas> {
                 .inner_quorum_sets
                 .into_iter()
                 .map(|q| self.merge_quorum_set(q))
-                .partition(|q| q.validators.len() == 1);
+                .partition(|q| q.validators.len() == 1 && q.inner_quorum_sets.is_empty());
 
         validators.extend(
             new_validator_candidates
                 .into_iter()
                 .map(|q| q.validators[0]),
         );
-        if !validators.is_empty() && validators.iter().all(|&v| v == validators[0]) {
+        if inner_quorum_sets.is_empty()
+            && !validators.is_empty()
+            && validators.iter().all(|&v| v == validators[0])
+        {
             validators = vec![validators[0]];
             threshold = 1;
         }
-- 
2.43.0


From 0d21561f10520fc5bdf20d3ef8301a9bcde9815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 07/20] fix: no quorum slices, and no panic, for unsatisfiable
 thresholds

A threshold of up to 2^64-1 made to_quorum_slices allocate that many indices.
---
 src/core_types/quorum_set.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core_types/quorum_set.rs b/src/core_types/quorum_set.rs
index ac834de..32b4df9 100644
--- a/src/core_types/quorum_set.rs
+++ b/src/core_types/quorum_set.rs
@@ -47,9 +47,16 @@ impl QuorumSet {
             found_validator_matches + found_inner_quorum_set_matches == self.threshold
         }
     }
+    /// Whether some node set is a quorum slice for this quorum set
+    pub(crate) fn is_satisfiable(&self) -> bool {
+        self.is_quorum_slice(&self.contained_nodes())
+    }
     /// Each valid quorum slice for this quorum set is a superset (i.e., equal to or a proper superset of)
     /// of at least one of the sets returned by this function.
     pub fn to_quorum_slices(&self) -> Vec<NodeIdSet> {
+        if !self.is_satisfiable() {
+            return vec![];
+        }
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
-- 
2.43.0


From 9cf1362b5520131f6362dcd0a10628d0fc4df8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 08/20] fix: minimal blocking sets of symmetric clusters with
 unsatisfiable nested quorum sets

Nested quorum sets that can never be satisfied yielded no or non-minimal
blocking sets.
---
 src/analysis/blocking_sets.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/analysis/blocking_sets.rs b/src/analysis/blocking_sets.rs
index 006ddda..c8e6487 100644
--- a/src/analysis/blocking_sets.rs
+++ b/src/analysis/blocking_sets.rs
@@ -126,6 +126,9 @@ impl QuorumSet {
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal blocking sets of the induced FBAS,
     /// but perhaps also a few extra...
     fn to_blocking_sets(&self) -> Vec<NodeIdSet> {
+        if !self.is_satisfiable() {
+            return vec![bitset![]]; // already blocked
+        }
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
@@ -135,11 +138,13 @@ impl QuorumSet {
         subslice_groups.extend(
             self.inner_quorum_sets
                 .iter()
+                .filter(|qset| qset.is_satisfiable())
                 .map(|qset| qset.to_blocking_sets()),
         );
+        let blocking_threshold = subslice_groups.len() - self.threshold + 1;
         subslice_groups
             .into_iter()
-            .combinations(self.blocking_threshold())
+            .combinations(blocking_threshold)
             .map(|group_combination| {
                 group_combination
                     .into_iter()
@@ -156,13 +161,6 @@ impl QuorumSet {
             })
             .concat()
     }
-    fn blocking_threshold(&self) -> usize {
-        if self.validators.len() + self.inner_quorum_sets.len() >= self.threshold {
-            self.validators.len() + self.inner_quorum_sets.len() - self.threshold + 1
-        } else {
-            0
-        }
-    }
 }
 
 fn is_minimal_for_blocking_set_with_precomputed_blocked_set(
-- 
2.43.0


From f0a8ecbfb4456d00d8cf6260f54887fbcda2fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 09/20] fix: minimal splitting sets of symmetric clusters with
 nested quorum sets

Splitting sets were wrong if nested quorum sets have a single slice, have disjoint
slices or are unsatisfiable, or if validators repeat (now left to the general
search); doubling a huge threshold overflowed.
---
 src/analysis/splitting_sets.rs | 54 +++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 19460df..7fd67cd 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -25,7 +25,9 @@ fn minimal_splitting_sets_finder(
     for (i, nodes) in consensus_clusters.into_iter().enumerate() {
         debug!("Finding minimal splitting sets in cluster {}...", i);
 
-        if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
+        if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas)
+            .filter(|qset| !qset.contains_duplicates())
+        {
             debug!("Cluster contains a symmetric quorum cluster! Extracting splitting sets...");
             found_splitting_sets.append(&mut symmetric_cluster.to_minimal_splitting_sets());
         } else {
@@ -152,18 +154,20 @@ impl QuorumSet {
             found_validator_matches + found_inner_quorum_set_matches == splitting_threshold
         }
     }
-    /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS.
+    /// If `self` represents a symmetric quorum cluster and contains no duplicates, this function
+    /// returns all minimal splitting sets of the induced FBAS.
     fn to_minimal_splitting_sets(&self) -> Vec<NodeIdSet> {
-        let splitting_sets = self.to_splitting_sets();
-        if self.contains_duplicates() {
-            remove_non_minimal_node_sets(splitting_sets)
+        let splitting_sets = self.to_slice_intersections();
+        // check to see if we aren't really a 1-quorum quorum set
+        if splitting_sets.len() == 1 && self.is_quorum_slice(&splitting_sets[0]) {
+            vec![]
         } else {
             splitting_sets
         }
     }
-    /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS,
-    /// but perhaps also a few extra...
-    fn to_splitting_sets(&self) -> Vec<NodeIdSet> {
+    /// Returns the minimal sets among the intersections of two (not necessarily different) minimal
+    /// quorum slices, if `self` is satisfiable and contains no duplicates.
+    fn to_slice_intersections(&self) -> Vec<NodeIdSet> {
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
@@ -173,11 +177,22 @@ impl QuorumSet {
         subslice_groups.extend(
             self.inner_quorum_sets
                 .iter()
-                .map(|qset| qset.to_splitting_sets()),
+                .filter(|qset| qset.is_satisfiable())
+                .map(|qset| qset.to_slice_intersections()),
         );
-        let potential_splitting_sets: Vec<NodeIdSet> = subslice_groups
+        // this many members are in both of two slices at least...
+        let mut splitting_threshold = (2 * self.threshold).saturating_sub(subslice_groups.len());
+        // ...but members with disjoint subslices contribute no nodes
+        let number_of_groups = subslice_groups.len();
+        subslice_groups.retain(|group| group[..] != [bitset![]]);
+        splitting_threshold =
+            splitting_threshold.saturating_sub(number_of_groups - subslice_groups.len());
+        if splitting_threshold == 0 {
+            return vec![bitset![]];
+        }
+        subslice_groups
             .into_iter()
-            .combinations(self.splitting_threshold())
+            .combinations(splitting_threshold)
             .map(|group_combination| {
                 group_combination
                     .into_iter()
@@ -192,21 +207,12 @@ impl QuorumSet {
                     })
                     .collect()
             })
-            .concat();
-        // check to see if we aren't really a 1-quorum quorum set
-        if potential_splitting_sets.len() == 1 && self.is_quorum_slice(&potential_splitting_sets[0])
-        {
-            vec![]
-        } else {
-            potential_splitting_sets
-        }
+            .concat()
     }
     fn splitting_threshold(&self) -> usize {
-        if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-            2 * self.threshold - (self.validators.len() + self.inner_quorum_sets.len())
-        } else {
-            0
-        }
+        self.threshold
+            .saturating_mul(2)
+            .saturating_sub(self.validators.len() + self.inner_quorum_sets.len())
     }
 }
 
-- 
2.43.0


From 0c9a720dd1425f1eeaab8012f7de2054f4158617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 10/20] fix: strongly connected components of a node set ignore
 nodes outside of it

Components of the satisfiable nodes were joined through unsatisfiable nodes, so the
relevant nodes and the standard form depended on nodes that are irrelevant; trusted
nodes that do not exist caused a panic.
---
 src/analysis/preprocessing.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/analysis/preprocessing.rs b/src/analysis/preprocessing.rs
index 121ef19..8749e0d 100644
--- a/src/analysis/preprocessing.rs
+++ b/src/analysis/preprocessing.rs
@@ -69,14 +69,13 @@ pub fn partition_into_strongly_connected_components(
             .quorum_set
             .contained_nodes()
             .into_iter()
+            .filter(|&x| nodes.contains(x))
             .collect()
     };
-    let nodes: Vec<NodeId> = nodes.iter().collect();
+    let node_ids: Vec<NodeId> = nodes.iter().collect();
 
-    let sccs = strongly_connected_components(&nodes, sucessors);
-    sccs.into_iter()
-        .map(|x| x.into_iter().filter(|node| nodes.contains(node)).collect())
-        .collect()
+    let sccs = strongly_connected_components(&node_ids, sucessors);
+    sccs.into_iter().map(|x| x.into_iter().collect()).collect()
 }
 
 /// Rank nodes using an adaptation of the page rank algorithm (no dampening, fixed number of runs,
-- 
2.43.0


From a7c52ae8a9952ce0d4b727ba220b5eb046e5be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 11/20] fix: random quorum sets of size one get a threshold

A node that starts out with itself as its only validator already has as many
validators as desired, and was left with a threshold of 0.
---
 src/simulation/qsc/random.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index ac24100..ea88ff5 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -27,14 +27,18 @@ impl QuorumSetConfigurator for RandomQsc {
         let existing_quorum_set = &mut fbas.nodes[node_id].quorum_set;
 
         // we add nodes to their own quorum sets, for better comparability with other Qsc
-        if existing_quorum_set.validators.is_empty() {
+        let is_unconfigured = existing_quorum_set.validators.is_empty();
+        if is_unconfigured {
             existing_quorum_set.validators = vec![node_id];
         }
 
         let current_quorum_set_size = existing_quorum_set.validators.len();
 
-        if current_quorum_set_size < self.desired_quorum_set_size {
-            let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
+        if is_unconfigured || current_quorum_set_size < self.desired_quorum_set_size {
+            let target_quorum_set_size = cmp::max(
+                current_quorum_set_size,
+                cmp::min(self.desired_quorum_set_size, n),
+            );
 
             let threshold = self
                 .desired_threshold
-- 
2.43.0


From 28ecbecb38d6c06b0730de4bd19dbc520d204b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 12/20] fix: random quorum sets are stable once all nodes are
 used

A node that cannot get more validators, because the network is smaller than the
desired quorum set size, reported a change at every reevaluation.
---
 src/simulation/qsc/random.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index ea88ff5..814aed5 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -34,12 +34,12 @@ impl QuorumSetConfigurator for RandomQsc {
 
         let current_quorum_set_size = existing_quorum_set.validators.len();
 
-        if is_unconfigured || current_quorum_set_size < self.desired_quorum_set_size {
-            let target_quorum_set_size = cmp::max(
-                current_quorum_set_size,
-                cmp::min(self.desired_quorum_set_size, n),
-            );
+        let target_quorum_set_size = cmp::max(
+            current_quorum_set_size,
+            cmp::min(self.desired_quorum_set_size, n),
+        );
 
+        if is_unconfigured || current_quorum_set_size < target_quorum_set_size {
             let threshold = self
                 .desired_threshold
                 .unwrap_or_else(|| calculate_67p_threshold(target_quorum_set_size));
-- 
2.43.0


From afd4bd02eb551f7439f0ee3b853e8894f0077fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 13/20] fix: no panic when too few nodes have a positive weight

Random quorum sets weighted by fame stop growing once no node is left that can be
chosen, instead of panicking on the failed weighted choice.
---
 src/simulation/qsc/random.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index 814aed5..68ed284 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -34,9 +34,18 @@ impl QuorumSetConfigurator for RandomQsc {
 
         let current_quorum_set_size = existing_quorum_set.validators.len();
 
+        // nodes with a weight of 0 can never be chosen
+        let used_nodes: BitSet<NodeId> = existing_quorum_set.validators.iter().copied().collect();
+        let mut available_nodes: Vec<NodeId> = (0..n)
+            .filter(|&x| !used_nodes.contains(x) && self.weights.get(x) != Some(&0))
+            .collect();
+
         let target_quorum_set_size = cmp::max(
             current_quorum_set_size,
-            cmp::min(self.desired_quorum_set_size, n),
+            cmp::min(
+                cmp::min(self.desired_quorum_set_size, n),
+                current_quorum_set_size + available_nodes.len(),
+            ),
         );
 
         if is_unconfigured || current_quorum_set_size < target_quorum_set_size {
@@ -44,11 +53,6 @@ impl QuorumSetConfigurator for RandomQsc {
                 .desired_threshold
                 .unwrap_or_else(|| calculate_67p_threshold(target_quorum_set_size));
 
-            let used_nodes: BitSet<NodeId> =
-                existing_quorum_set.validators.iter().copied().collect();
-            let mut available_nodes: Vec<NodeId> =
-                (0..n).filter(|&x| !used_nodes.contains(x)).collect();
-
             let mut rng = thread_rng();
             for _ in current_quorum_set_size..target_quorum_set_size {
                 let &chosen_node = available_nodes
-- 
2.43.0


From ecc76adf531865595ff8fc14014796c4c8b8b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 14/20] fix: global ranking policy is stable if no node ranks
 above average

Nodes that were left with the empty quorum set they already had reported a change at
every reevaluation.
---
 src/simulation/qsc/graph_based/global_ranking_based.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simulation/qsc/graph_based/global_ranking_based.rs b/src/simulation/qsc/graph_based/global_ranking_based.rs
index 196e1df..617a89a 100644
--- a/src/simulation/qsc/graph_based/global_ranking_based.rs
+++ b/src/simulation/qsc/graph_based/global_ranking_based.rs
@@ -45,7 +45,12 @@ impl QuorumSetConfigurator for GlobalRankQsc {
 
             existing_quorum_set.validators = validators;
             existing_quorum_set.threshold = threshold;
-            Change
+            if *existing_quorum_set == QuorumSet::new() {
+                // no node has an above-average rank
+                NoChange
+            } else {
+                Change
+            }
         } else {
             NoChange
         }
-- 
2.43.0


From b49e34a717cf338bfea80b83bd84d080e22ff099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 15/20] fix: scale-free graphs can grow from a single node

The only node of a core of size one has degree 0; the weighted choice of the first
attachment failed.
---
 src/simulation/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 1620b63..335322f 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -68,7 +68,7 @@ impl Graph {
             let mut possible_targets: Vec<NodeId> = (0..i).collect();
             for _ in 0..m {
                 let j = possible_targets
-                    .choose_weighted(&mut rng, |&x| outlinks[x].len())
+                    .choose_weighted(&mut rng, |&x| outlinks[x].len().max(1))
                     .unwrap()
                     .to_owned();
                 connect!(i, j);
-- 
2.43.0


From 8e8de1183af56d533cc794948ad403052eed2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 16/20] fix: tiers below an empty tier get their own nodes

The tier after an empty tier started over at node 0.
---
 src/simulation/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 335322f..b870582 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -26,14 +26,15 @@ impl Graph {
     pub fn new_tiered_full_mesh(tier_sizes: &[usize]) -> Self {
         let mut outlinks: Vec<Vec<NodeId>> = vec![vec![]; tier_sizes.iter().sum()];
         let mut higher_tier_node_ids = vec![];
+        let mut i0: usize = 0;
         for tier_size in tier_sizes.iter() {
-            let i0: usize = higher_tier_node_ids.last().map_or(0, |x| x + 1);
             let n = i0.checked_add(*tier_size).unwrap();
             for i in i0..n {
                 outlinks[i].extend_from_slice(&higher_tier_node_ids);
                 outlinks[i].extend((i0..i).chain(i + 1..n));
             }
             higher_tier_node_ids = (i0..n).collect();
+            i0 = n;
         }
         Self::new(outlinks)
     }
-- 
2.43.0


From 21b20f8888da5754efc05cc5d66286c9236918c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 17/20] fix: don't write CSV rows again after a failed write

If writing a row failed half-way, dropping the CSV writer wrote the whole
buffer again; if that succeeded (e.g., because some space was freed in the
meantime), the output contained the beginning of the row twice.
---
 src/bin/bulk_fbas_analyzer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index df78e56..4c7ab3c 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -479,8 +479,13 @@ fn write_csv_via_writer(
     mut writer: Writer<impl io::Write>,
 ) -> Result<(), Box<dyn Error>> {
     for data_point in data_points.into_iter() {
-        writer.serialize(data_point)?;
-        writer.flush()?;
+        let written = writer.serialize(data_point);
+        if let Err(e) = written.and_then(|_| writer.flush().map_err(csv::Error::from)) {
+            // When dropped, the writer would write its whole buffer again, also those parts of it
+            // that have reached the output already.
+            std::mem::forget(writer);
+            return Err(Box::new(e));
+        }
     }
     Ok(())
 }
-- 
2.43.0


From b4ed31da44530574c5915ecc75f9c5444fede6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 18/20] fix: read .bz2 graphs completely or not at all

The decoder took the end of a truncated .bz2 file for the end of the data,
so that half a graph was used without notice, and stopped after the first
stream of files with several of them (as written by, e.g., pbzip2).
---
 src/io/graph.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/io/graph.rs b/src/io/graph.rs
index 7bf6451..a2995ee 100644
--- a/src/io/graph.rs
+++ b/src/io/graph.rs
@@ -1,9 +1,8 @@
 use super::*;
 use crate::simulation::Graph;
 
-use bzip2::read::BzDecoder;
 use bzip2::write;
-use bzip2::Compression;
+use bzip2::{Compression, Decompress, Status};
 use std::cmp::max;
 
 use std::fs;
@@ -97,11 +96,37 @@ fn get_edge_from_as_rel_line(line: &str) -> Option<(NodeId, NodeId, bool)> {
 }
 
 fn read_bz2_file_to_string(path: &Path) -> io::Result<String> {
-    let f = fs::File::open(path)?;
-    let mut decompressor = BzDecoder::new(f);
-    let mut contents = String::new();
-    decompressor.read_to_string(&mut contents)?;
-    Ok(contents)
+    let mut f = fs::File::open(path)?;
+    let mut compressed = vec![];
+    f.read_to_end(&mut compressed)?;
+    let contents = decompress_bz2(&compressed)?;
+    String::from_utf8(contents).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+}
+/// Decompresses all of the (one or more) streams of a `.bz2` file; a stream that ends prematurely
+/// is an error.
+fn decompress_bz2(mut compressed: &[u8]) -> io::Result<Vec<u8>> {
+    let mut contents = vec![];
+    loop {
+        let mut decompressor = Decompress::new(false);
+        loop {
+            contents.reserve(32 * 1024);
+            let progress_before = (decompressor.total_in(), decompressor.total_out());
+            let remaining = &compressed[decompressor.total_in() as usize..];
+            let status = decompressor
+                .decompress_vec(remaining, &mut contents)
+                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+            if status == Status::StreamEnd {
+                break;
+            }
+            if (decompressor.total_in(), decompressor.total_out()) == progress_before {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
+        }
+        compressed = &compressed[decompressor.total_in() as usize..];
+        if compressed.is_empty() {
+            return Ok(contents);
+        }
+    }
 }
 fn read_file_to_string(path: &Path) -> io::Result<String> {
     let mut f = fs::File::open(path)?;
-- 
2.43.0


From 42e2b61d9abedfd8d11685a639ba42cd192a7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:32 +0000
Subject: [PATCH 19/20] fix: global ranking policy leaves nodes outside the
 graph unconfigured

---
 src/simulation/qsc/graph_based/global_ranking_based.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation/qsc/graph_based/global_ranking_based.rs b/src/simulation/qsc/graph_based/global_ranking_based.rs
index 617a89a..3f972d0 100644
--- a/src/simulation/qsc/graph_based/global_ranking_based.rs
+++ b/src/simulation/qsc/graph_based/global_ranking_based.rs
@@ -37,8 +37,11 @@ impl GlobalRankQsc {
 }
 impl QuorumSetConfigurator for GlobalRankQsc {
     fn configure(&self, node_id: NodeId, fbas: &mut Fbas) -> ChangeEffect {
+        // nodes that are not in the graph have no neighbors
+        let has_neighbors =
+            matches!(self.graph.outlinks.get(node_id), Some(neighbors) if !neighbors.is_empty());
         let existing_quorum_set = &mut fbas.nodes[node_id].quorum_set;
-        if *existing_quorum_set == QuorumSet::new() && !self.graph.outlinks[node_id].is_empty() {
+        if *existing_quorum_set == QuorumSet::new() && has_neighbors {
             let validators = self.top_tier_nodes.clone();
 
             let threshold = calculate_threshold(validators.len(), self.relative_threshold);
-- 
2.43.0


From 5412f52b583baef13d9b4f9004d74edf9ecf574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 20/20] fix: don't write CSV rows of the performance experiment
 again after a failed write

A failed write left the row in the writer's buffer, which was written once more when the
writer was dropped: after a write that was torn the file held the beginning of a row
followed by the whole row. Same repair as for bulk_fbas_analyzer.
---
 src/bin/bulk_performance_experiment.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 46e95b7..36e3bd2 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -340,8 +340,13 @@ fn write_csv_via_writer(
     mut writer: Writer<impl io::Write>,
 ) -> Result<(), Box<dyn Error>> {
     for data_point in data_points.into_iter() {
-        writer.serialize(data_point)?;
-        writer.flush()?;
+        let written = writer.serialize(data_point);
+        if let Err(e) = written.and_then(|_| writer.flush().map_err(csv::Error::from)) {
+            // When dropped, the writer would write its whole buffer again, also those parts of it
+            // that have reached the output already.
+            std::mem::forget(writer);
+            return Err(Box::new(e));
+        }
     }
     Ok(())
 }
-- 
2.43.0

