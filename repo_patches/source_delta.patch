From 45942225f698e91dad4cbea12c47c6f66b3a1970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:41 +0000
Subject: [PATCH 01/26] fix: keep PCA messages of faster cluster nodes and wait
 for all column means

Means and R matrices that reach a node before its own decomposition were dropped
(rotate/run_pca reset the buffers, the single-threaded path never resolved them),
so the cluster hung; buffered means were replayed after the R matrices, and main
did not wait for means coming over other connections, so the components were
computed without them.
---
 src/training/rotation/mod.rs     |  4 +++-
 src/training/rotation/pca/mod.rs | 28 +++++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index a604255..1cd8c95 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -48,7 +48,9 @@ impl Rotator for Training {
         self.rotation.reduced = Some(reduced);
         self.rotation.reduced_ref = Some(reduced_ref);
 
-        self.rotation.pca = PCA::new(self.cluster_nodes.get_own_idx(), 3);
+        self.rotation
+            .pca
+            .restart(self.cluster_nodes.get_own_idx(), 3);
         self.run_pca();
     }
 
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 8b43799..b31bd4a 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -34,6 +34,8 @@ pub struct PCA {
     helpers: Vec<Addr<PCAHelper>>,
     buffer: Vec<PCADecompositionMessage>,
     means_buffer: Vec<PCAMeansMessage>,
+    /// all R matrices are combined, only column means are missing
+    waits_for_means: bool,
 }
 
 impl PCA {
@@ -45,8 +47,17 @@ impl PCA {
         }
     }
 
+    /// Prepares a new analysis but keeps messages of faster cluster nodes, which already work on it.
+    pub fn restart(&mut self, id: usize, n_components: usize) {
+        *self = PCA {
+            buffer: std::mem::take(&mut self.buffer),
+            means_buffer: std::mem::take(&mut self.means_buffer),
+            ..Self::new(id, n_components)
+        };
+    }
+
     pub fn clear(&mut self) {
-        *self = Self::new(self.id, self.n_components);
+        self.restart(self.id, self.n_components);
     }
 }
 
@@ -111,6 +122,8 @@ impl PCAnalyzer for Training {
 
         self.send_to_main();
         self.send_to_neighbor_or_finalize();
+        self.resolve_means_buffer();
+        self.resolve_buffer();
     }
 
     fn helper_center_columns_decomposition(&mut self) {
@@ -204,6 +217,11 @@ impl PCAnalyzer for Training {
 
     fn finalize(&mut self) {
         let column_means = self.rotation.pca.column_means.as_ref().unwrap().to_owned();
+        if column_means.nrows() < self.cluster_nodes.len_incl_own() {
+            self.rotation.pca.waits_for_means = true;
+            return;
+        }
+        self.rotation.pca.waits_for_means = false;
         let dim = column_means.shape()[1];
         let n = self.rotation.pca.n.as_ref().unwrap().view();
         let n_reshaped = n.broadcast((dim, n.len())).unwrap();
@@ -271,7 +289,8 @@ impl Handler<PCAMeansMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: PCAMeansMessage, _ctx: &mut Self::Context) -> Self::Result {
-        if self.rotation.pca.column_means.is_some() {
+        let n_means = self.rotation.pca.column_means.as_ref().map(|m| m.nrows());
+        if n_means.map_or(false, |n| n < self.cluster_nodes.len_incl_own()) {
             self.rotation.pca.column_means = Some(concatenate![
                 Axis(0),
                 self.rotation.pca.column_means.as_ref().unwrap().clone(),
@@ -282,6 +301,9 @@ impl Handler<PCAMeansMessage> for Training {
                 self.rotation.pca.n.as_ref().unwrap().clone(),
                 arr1(&[msg.n as f32])
             ]);
+            if self.rotation.pca.waits_for_means {
+                self.finalize();
+            }
         } else {
             self.rotation.pca.means_buffer.push(msg);
         }
@@ -336,8 +358,8 @@ impl Handler<PCAHelperMessage> for Training {
 
             self.send_to_main();
             self.send_to_neighbor_or_finalize();
-            self.resolve_buffer();
             self.resolve_means_buffer();
+            self.resolve_buffer();
         }
     }
 }
-- 
2.43.0


From 8ad6d335f7918ab335c61c785a7e03adcfc5d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:39 +0000
Subject: [PATCH 02/26] fix: keep the first point of a faster cluster node
 until the own segments are built

---
 src/training/segmentation/messages.rs |  2 +-
 src/training/segmentation/mod.rs      | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index a3c037c..da4d70c 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -9,7 +9,7 @@ pub struct SegmentMessage {
     pub(crate) segments: Vec<MaterializedTransition>,
 }
 
-#[derive(RemoteMessage, Serialize, Deserialize)]
+#[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
     pub(crate) transition: MaterializedTransition,
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index a5c3f60..b86cdd2 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -28,6 +28,9 @@ pub(crate) struct Segmentation {
     pub send_transition: Option<MaterializedTransition>,
     pub last_point: Option<Point>,
     pub last_transition: Option<Transition>,
+    /// own segments are built and the first point of the next cluster node is missing
+    waits_for_first_point: bool,
+    first_point_buffer: Option<SendFirstPointMessage>,
     direct_protocol: DirectProtocol<SegmentMessage>,
     /// {cluster node id (answering): {cluster node id (asking): \[NodeInQuestion\]}}
     pub node_questions: NodeQuestions,
@@ -97,6 +100,10 @@ impl Segmenter for Training {
         let wait_for_points = self.try_send_inter_node_points();
         if wait_for_points {
             self.segmentation.transitions_for_nodes = node_transitions;
+            self.segmentation.waits_for_first_point = true;
+            if let Some(msg) = self.segmentation.first_point_buffer.take() {
+                ctx.address().do_send(msg);
+            }
         } else {
             // if no other cluster node exists (i.e. local only)
             self.segmentation
@@ -386,6 +393,11 @@ impl Handler<SendFirstPointMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: SendFirstPointMessage, ctx: &mut Self::Context) -> Self::Result {
+        if !self.segmentation.waits_for_first_point {
+            self.segmentation.first_point_buffer = Some(msg);
+            return;
+        }
+
         let spanning_transition = Transition::new(
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
-- 
2.43.0


From 43cda605170b26877a0d3eecbc0a2f757541d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:25 +0000
Subject: [PATCH 03/26] fix: keep the order of rotated messages that arrive
 before their rotation starts

---
 src/training/scoring/mod.rs      | 16 +++++++++++-----
 src/training/scoring/weights.rs  | 20 +++++++-------------
 src/training/segmentation/mod.rs |  6 +++---
 src/utils/rotation_protocol.rs   | 13 +++++--------
 4 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e70537d..5351ef1 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -70,8 +70,14 @@ impl Scorer for Training {
         self.scoring.edge_weight = self.calculate_edge_weight();
 
         if self.cluster_nodes.len() > 0 {
-            self.start_node_degrees_rotation(ctx);
-            self.start_edge_weight_rotation(ctx);
+            self.start_node_degrees_rotation();
+            self.start_edge_weight_rotation();
+            for msg in self.scoring.node_degrees_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
+            for msg in self.scoring.edge_weight_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             // non-distributed
             self.score(ctx);
@@ -165,9 +171,6 @@ impl Scorer for Training {
             self.scoring
                 .score_rotation_protocol
                 .start(self.cluster_nodes.len());
-            self.scoring
-                .score_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
             self.scoring
                 .subscores
                 .insert(own_idx, (scores.clone(), self.scoring.first_empty));
@@ -180,6 +183,9 @@ impl Scorer for Training {
                     first_empty: self.scoring.first_empty,
                 });
             self.scoring.score_rotation_protocol.sent();
+            for msg in self.scoring.score_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             self.normalize_score(&mut scores);
             self.scoring.score = Some(scores);
diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index b40a767..dbe461b 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -13,8 +13,8 @@ pub(crate) trait ScoringWeights {
     fn count_edges_in_time(&mut self) -> Vec<usize>;
     fn calculate_edge_weight(&mut self) -> HashMap<MaterializedEdge, usize>;
     fn calculate_node_degrees(&mut self) -> HashMap<NodeRef, usize>;
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>);
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>);
+    fn start_node_degrees_rotation(&mut self);
+    fn start_edge_weight_rotation(&mut self);
     fn init_done(&mut self) -> bool;
 }
 
@@ -115,13 +115,10 @@ impl ScoringWeights for Training {
         node_degrees
     }
 
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_node_degrees_rotation(&mut self) {
         self.scoring
             .node_degrees_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .node_degrees_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -136,13 +133,10 @@ impl ScoringWeights for Training {
         self.scoring.node_degrees_rotation_protocol.sent();
     }
 
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_edge_weight_rotation(&mut self) {
         self.scoring
             .edge_weight_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .edge_weight_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -233,9 +227,9 @@ impl Handler<ScoreInitDone> for Training {
             self.send_overlap_to_neighbor(ctx);
         } else {
             self.scoring.overlap_rotation_protocol.start(1);
-            self.scoring
-                .overlap_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
+            for msg in self.scoring.overlap_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         }
     }
 }
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index b86cdd2..b810dae 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -304,9 +304,6 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .start(self.cluster_nodes.len());
-                self.segmentation
-                    .transition_count_protocol
-                    .resolve_buffer(ctx.address().recipient());
                 let transition_count = self.data_store.count_transitions()
                     + node_transitions
                         .iter()
@@ -319,6 +316,9 @@ impl Segmenter for Training {
                 self.segmentation.transition_count_protocol.sent();
                 self.segmentation.global_transition_count += transition_count;
                 self.segmentation.transitions_for_nodes = node_transitions;
+                for msg in self.segmentation.transition_count_protocol.take_buffer() {
+                    self.handle(msg, ctx);
+                }
             }
             None => {
                 self.segmentation.global_transition_count = self.data_store.count_transitions();
diff --git a/src/utils/rotation_protocol.rs b/src/utils/rotation_protocol.rs
index 91d3418..e8ca0bc 100644
--- a/src/utils/rotation_protocol.rs
+++ b/src/utils/rotation_protocol.rs
@@ -1,4 +1,4 @@
-use actix::{Message, Recipient};
+use actix::Message;
 use actix_telepathy::RemoteMessage;
 
 #[derive(Default, Clone)]
@@ -32,12 +32,9 @@ impl<T: Message + RemoteMessage + Clone> RotationProtocol<T> {
         (self.n_received < self.n_total) || (self.n_sent < self.n_total)
     }
 
-    pub fn resolve_buffer(&mut self, rec: Recipient<T>)
-    where
-        T::Result: Send,
-    {
-        for _ in 0..self.buffer.len() {
-            rec.do_send(self.buffer.remove(0));
-        }
+    /// Returns the messages that arrived before the start. They must be handled right away, before
+    /// any later message, because the rotation relies on the order of arrival.
+    pub fn take_buffer(&mut self) -> Vec<T> {
+        std::mem::take(&mut self.buffer)
     }
 }
-- 
2.43.0


From 11602d3da0b030b9fa99564a39744013a141fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:10 +0000
Subject: [PATCH 04/26] fix: order edges gathered from other cluster nodes
 along their transitions

---
 src/data_store/mod.rs             | 28 ++++++++++++++++++++++++++++
 src/training/transposition/mod.rs |  2 +-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 0d8d795..f277ebd 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -193,6 +193,34 @@ impl DataStore {
             .sort_by(|edge_a, edge_b| edge_a.get_to_id().partial_cmp(&edge_b.get_to_id()).unwrap());
     }
 
+    /// Restores the order of edges that were gathered from several cluster nodes: by time and,
+    /// within the same transition, along its path, which may wrap around to the first segment.
+    pub fn sort_edges_along_transitions(&mut self) {
+        self.edges
+            .sort_by_key(|edge| (edge.get_to_id(), edge.get_to_node().get_segment_id()));
+
+        let mut start = 0;
+        while start < self.edges.len() {
+            let to_id = self.edges[start].get_to_id();
+            let length = self.edges[start..]
+                .iter()
+                .take_while(|edge| edge.get_to_id() == to_id)
+                .count();
+            let edges = &mut self.edges[start..start + length];
+            let first = edges
+                .iter()
+                .position(|edge| edge.get_from_node().get_from_id() != to_id)
+                .or_else(|| {
+                    (0..length).find(|i| {
+                        let previous = &edges[(i + length - 1) % length];
+                        edges[*i].get_from_node() != previous.get_to_node()
+                    })
+                });
+            edges.rotate_left(first.unwrap_or(0));
+            start += length;
+        }
+    }
+
     // --- Misc
 
     pub fn wipe_graph(&mut self) -> Vec<MaterializedEdge> {
diff --git a/src/training/transposition/mod.rs b/src/training/transposition/mod.rs
index 9b48be1..85a1027 100644
--- a/src/training/transposition/mod.rs
+++ b/src/training/transposition/mod.rs
@@ -93,7 +93,7 @@ impl Transposer for Training {
     }
 
     fn transpose_finalize(&mut self, ctx: &mut Context<Training>) {
-        self.data_store.sort_edges();
+        self.data_store.sort_edges_along_transitions();
         ctx.address().do_send(TranspositionDone);
     }
 }
-- 
2.43.0


From b76a122f6420fc465cc0f5860b72c40a872c2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:28 +0000
Subject: [PATCH 05/26] fix: connect the first transition of a partition to the
 last one of the partition before

---
 src/training/segmentation/mod.rs | 33 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index b810dae..c41bac7 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -403,6 +403,9 @@ impl Handler<SendFirstPointMessage> for Training {
             msg.point.into_ref(),
         );
         let last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let last_transition_to_cluster_id =
+            self.segment_id_to_assignment(last_transition.get_to_segment());
+        let mut previous_transition = last_transition.clone();
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -411,8 +414,6 @@ impl Handler<SendFirstPointMessage> for Training {
             let from_node_id =
                 self.segment_id_to_assignment(spanning_transition.get_from_segment());
             let to_node_id = self.segment_id_to_assignment(spanning_transition.get_to_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
 
             if from_node_id == self.cluster_nodes.get_own_idx() {
                 // normal transition
@@ -439,21 +440,23 @@ impl Handler<SendFirstPointMessage> for Training {
                         .insert(from_node_id, vec![spanning_transition.materialize()]);
                 }
             }
-        } else {
-            let transition = msg.transition.into_transition();
-            let transition_from_cluster_id =
-                self.segment_id_to_assignment(transition.get_from_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
-
-            self.search_split_between_transitions(
-                Some(last_transition),
-                &transition,
-                transition_from_cluster_id,
-                last_transition_to_cluster_id,
-            );
+            previous_transition = spanning_transition;
         }
 
+        // the next cluster node does not know the transition before its first one
+        let transition = msg.transition.into_transition();
+        let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
+        let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
+        let previous_to_node_id =
+            self.segment_id_to_assignment(previous_transition.get_to_segment());
+        self.find_splits(
+            Some(previous_transition),
+            Some(previous_to_node_id),
+            &transition,
+            from_node_id,
+            to_node_id,
+        );
+
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
         self.segmentation
-- 
2.43.0


From 456ee8e2bbd7b62faf129a7d3b642a5db30d0b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:48 +0000
Subject: [PATCH 06/26] fix: send the first edge after the overlap to the
 previous cluster node

---
 src/data_store/mod.rs           | 4 ++++
 src/training/scoring/overlap.rs | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index f277ebd..8a5edd6 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -184,6 +184,10 @@ impl DataStore {
         self.edges.to_vec()
     }
 
+    pub fn count_edges(&self) -> usize {
+        self.edges.len()
+    }
+
     pub fn slice_edges(&self, range: Range<usize>) -> Iter<'_, EdgeRef> {
         self.edges[range].iter()
     }
diff --git a/src/training/scoring/overlap.rs b/src/training/scoring/overlap.rs
index 09798e7..44c2198 100644
--- a/src/training/scoring/overlap.rs
+++ b/src/training/scoring/overlap.rs
@@ -12,9 +12,10 @@ pub(crate) trait ScoringOverlap {
 impl ScoringOverlap for Training {
     fn send_overlap_to_neighbor(&mut self, ctx: &mut Context<Training>) {
         let to_edge_idx = self.scoring.edges_in_time[self.parameters.query_length - 1];
+        // a score includes the first edge after its query
         let overlap = self
             .data_store
-            .slice_edges(0..to_edge_idx)
+            .slice_edges(0..(to_edge_idx + 1).min(self.data_store.count_edges()))
             .map(|edge| edge.materialize())
             .collect();
 
-- 
2.43.0


From eaa17acbbc5d923ae026afc6cf565e91d3703b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:41 +0000
Subject: [PATCH 07/26] fix: count the own transitions once when deciding on
 self-correction

---
 src/training/segmentation/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index c41bac7..f4e35cb 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -304,11 +304,11 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .start(self.cluster_nodes.len());
-                let transition_count = self.data_store.count_transitions()
-                    + node_transitions
-                        .iter()
-                        .map(|(_segment, transitions)| transitions.len())
-                        .sum::<usize>();
+                // includes the transitions of the own segments
+                let transition_count = node_transitions
+                    .iter()
+                    .map(|(_segment, transitions)| transitions.len())
+                    .sum::<usize>();
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
-- 
2.43.0


From 0ca16dd03e89a23248d512ef18be00b47986d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:25 +0000
Subject: [PATCH 08/26] fix: segment partitions without a valid transition

---
 src/training/segmentation/messages.rs |  3 +-
 src/training/segmentation/mod.rs      | 75 ++++++++++++++++-----------
 2 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index da4d70c..494dd69 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -12,7 +12,8 @@ pub struct SegmentMessage {
 #[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
-    pub(crate) transition: MaterializedTransition,
+    /// first valid transition of this or a later cluster node
+    pub(crate) transition: Option<MaterializedTransition>,
 }
 
 #[derive(Message)]
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index f4e35cb..37c8bcf 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -71,6 +71,7 @@ pub(crate) trait Segmenter {
         to_node_id: usize,
     );
     fn try_send_inter_node_points(&mut self) -> bool;
+    fn send_first_point(&mut self, transition: Option<MaterializedTransition>);
     fn distribute_segments(&mut self, foreign_data: TransitionsForNodes);
     fn self_correction(
         &mut self,
@@ -250,19 +251,15 @@ impl Segmenter for Training {
     }
 
     fn try_send_inter_node_points(&mut self) -> bool {
-        let point = self.segmentation.send_point.take();
         let transition = self.segmentation.send_transition.take();
         match self.cluster_nodes.get_previous_idx() {
-            Some(prev_idx) => {
-                if let (Some(point), Some(transition)) = (point, transition) {
-                    self.cluster_nodes
-                        .get_as(&prev_idx, "Training")
-                        .unwrap()
-                        .do_send(SendFirstPointMessage { point, transition });
-                }
-
+            Some(_) => {
                 let own_id = self.cluster_nodes.get_own_idx();
-                own_id.ne(&self.cluster_nodes.len()) // last cluster node does not receive a SendFirstPointMessage
+                let is_not_last = own_id.ne(&self.cluster_nodes.len()); // last cluster node does not receive a SendFirstPointMessage
+                if transition.is_some() || !is_not_last {
+                    self.send_first_point(transition);
+                }
+                is_not_last
             }
             None => {
                 // local only case
@@ -275,6 +272,15 @@ impl Segmenter for Training {
         }
     }
 
+    fn send_first_point(&mut self, transition: Option<MaterializedTransition>) {
+        if let Some(point) = self.segmentation.send_point.take() {
+            self.cluster_nodes
+                .get_prev_as("Training")
+                .unwrap()
+                .do_send(SendFirstPointMessage { point, transition });
+        }
+    }
+
     fn distribute_segments(&mut self, mut foreign_data: TransitionsForNodes) {
         if self.cluster_nodes.len() == 0 {
             self.own_addr
@@ -402,10 +408,8 @@ impl Handler<SendFirstPointMessage> for Training {
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
-        let last_transition_to_cluster_id =
-            self.segment_id_to_assignment(last_transition.get_to_segment());
-        let mut previous_transition = last_transition.clone();
+        let mut previous_transition = self.segmentation.last_transition.take();
+        let mut first_transition = None;
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -421,8 +425,10 @@ impl Handler<SendFirstPointMessage> for Training {
             }
 
             self.find_splits(
-                Some(last_transition),
-                Some(last_transition_to_cluster_id),
+                previous_transition.clone(),
+                previous_transition
+                    .as_ref()
+                    .map(|prev| self.segment_id_to_assignment(prev.get_to_segment())),
                 &spanning_transition,
                 from_node_id,
                 to_node_id,
@@ -440,22 +446,31 @@ impl Handler<SendFirstPointMessage> for Training {
                         .insert(from_node_id, vec![spanning_transition.materialize()]);
                 }
             }
-            previous_transition = spanning_transition;
+            first_transition = Some(spanning_transition.materialize());
+            previous_transition = Some(spanning_transition);
         }
 
-        // the next cluster node does not know the transition before its first one
-        let transition = msg.transition.into_transition();
-        let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
-        let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
-        let previous_to_node_id =
-            self.segment_id_to_assignment(previous_transition.get_to_segment());
-        self.find_splits(
-            Some(previous_transition),
-            Some(previous_to_node_id),
-            &transition,
-            from_node_id,
-            to_node_id,
-        );
+        if let Some(materialized) = msg.transition {
+            // the next cluster node does not know the transition before its first one
+            if let Some(previous_transition) = previous_transition {
+                let transition = materialized.clone().into_transition();
+                let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
+                let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
+                let previous_to_node_id =
+                    self.segment_id_to_assignment(previous_transition.get_to_segment());
+                self.find_splits(
+                    Some(previous_transition),
+                    Some(previous_to_node_id),
+                    &transition,
+                    from_node_id,
+                    to_node_id,
+                );
+            }
+            first_transition = first_transition.or(Some(materialized));
+        }
+
+        // if not already sent because there is no valid transition in the own partition
+        self.send_first_point(first_transition);
 
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
-- 
2.43.0


From d2de1ae09a1e8ba8461d472507c90e1fbfc36cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:57 +0000
Subject: [PATCH 09/26] fix: order the edges of a first transition that wraps
 after one node

---
 src/training/edge_estimation/edges_orderer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/training/edge_estimation/edges_orderer.rs b/src/training/edge_estimation/edges_orderer.rs
index fabffb7..9a604d6 100644
--- a/src/training/edge_estimation/edges_orderer.rs
+++ b/src/training/edge_estimation/edges_orderer.rs
@@ -49,6 +49,7 @@ impl EdgesOrderer {
                 Some(first_edge) => first_edge.get_from_node(),
                 None => previous_node.clone(),
             });
+            self.first_node = Some(current_node.clone());
             if let Some(previous_transition_node) = &self.previous_transition_node {
                 self.edges_large.push(Edge::new(
                     previous_transition_node.clone(),
@@ -88,9 +89,9 @@ impl EdgesOrderer {
                 let previous_node = self
                     .edges_large
                     .last()
-                    .as_ref()
-                    .expect("Should be filled, we have a middle_node!")
-                    .get_to_node();
+                    .map(|edge| edge.get_to_node())
+                    .or_else(|| self.first_node.clone())
+                    .expect("Should be filled, we have a middle_node!");
                 let connecting_edge = Edge::new(previous_node, middle_node.clone());
                 self.push(connecting_edge);
 
-- 
2.43.0


From 7a6472c1298325ec4d0ef8df72f20ed42ad2b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:12 +0000
Subject: [PATCH 10/26] fix: sum up partial kernel estimates in the order of
 the data

---
 .../multi_kde/actors/gaussian_kde.rs          | 26 ++++++++++---------
 .../multi_kde/actors/helper.rs                |  3 ++-
 .../multi_kde/actors/messages.rs              |  2 ++
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
index 6cc7873..0e60e0d 100644
--- a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
+++ b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
@@ -8,7 +8,7 @@ use actix::{Actor, ActorContext, Addr, AsyncContext, Context, Handler, Recipient
 use ndarray::{ArcArray2, Array, Array1, Array2, ArrayView2, Axis, Dim};
 use ndarray_linalg::Inverse;
 use ndarray_stats::{CorrelationExt, QuantileExt};
-use std::ops::{AddAssign, Mul};
+use std::ops::Mul;
 
 pub(in crate::training::node_estimation::multi_kde::actors) struct GaussianKDEActor {
     n_threads: usize,
@@ -16,7 +16,7 @@ pub(in crate::training::node_estimation::multi_kde::actors) struct GaussianKDEAc
     data: Option<ArcArray2<f32>>,
     helper: Option<Addr<EstimatorHelper>>,
     helper_protocol: HelperProtocol,
-    estimate: Option<Array1<f32>>,
+    estimates: Vec<EstimatorResponse>,
     receiver: Option<Recipient<GaussianKDEResponse>>,
 }
 
@@ -38,7 +38,7 @@ impl GaussianKDEActor {
         self.data = None;
         self.helper = None;
         self.helper_protocol = HelperProtocol::default();
-        self.estimate = None;
+        self.estimates.clear();
     }
 
     fn estimate(&mut self, data: ArcArray2<f32>, ctx: &mut Context<Self>) {
@@ -126,7 +126,7 @@ impl Default for GaussianKDEActor {
             data: None,
             helper: None,
             helper_protocol: HelperProtocol::default(),
-            estimate: None,
+            estimates: vec![],
             receiver: None,
         }
     }
@@ -150,17 +150,19 @@ impl Handler<EstimatorResponse> for GaussianKDEActor {
 
     fn handle(&mut self, msg: EstimatorResponse, _ctx: &mut Self::Context) -> Self::Result {
         self.helper_protocol.received();
-        match self.estimate.as_mut() {
-            Some(estimate) => estimate.add_assign(&msg.estimate),
-            None => {
-                self.estimate = Some(msg.estimate);
-            }
-        }
+        self.estimates.push(msg);
 
         if !self.helper_protocol.is_running() {
             self.helper.as_ref().unwrap().do_send(PoisonPill);
-            let estimate = (*self.estimate.as_ref().unwrap()).clone();
-            self.estimate = None;
+
+            // sum up in the order of the data, because the order of arrival changes the rounding
+            self.estimates.sort_by_key(|response| response.start);
+            let estimate = self
+                .estimates
+                .drain(..)
+                .map(|response| response.estimate)
+                .reduce(|a, b| a + b)
+                .unwrap();
 
             self.receiver
                 .as_ref()
diff --git a/src/training/node_estimation/multi_kde/actors/helper.rs b/src/training/node_estimation/multi_kde/actors/helper.rs
index f8e235f..cc87e8f 100644
--- a/src/training/node_estimation/multi_kde/actors/helper.rs
+++ b/src/training/node_estimation/multi_kde/actors/helper.rs
@@ -94,9 +94,10 @@ impl Handler<EstimatorTask> for EstimatorHelper {
     type Result = ();
 
     fn handle(&mut self, msg: EstimatorTask, _ctx: &mut Self::Context) -> Self::Result {
+        let start = msg.data_range.start;
         let estimate = self.evaluate(msg.data_range);
         self.receiver
-            .do_send(EstimatorResponse { estimate });
+            .do_send(EstimatorResponse { start, estimate });
     }
 }
 
diff --git a/src/training/node_estimation/multi_kde/actors/messages.rs b/src/training/node_estimation/multi_kde/actors/messages.rs
index 05e2e9c..2a79f42 100644
--- a/src/training/node_estimation/multi_kde/actors/messages.rs
+++ b/src/training/node_estimation/multi_kde/actors/messages.rs
@@ -29,5 +29,7 @@ pub(in crate::training::node_estimation) struct EstimatorTask {
 #[derive(Message)]
 #[rtype(Result = "()")]
 pub(in crate::training::node_estimation) struct EstimatorResponse {
+    /// first data point of the range this estimate belongs to
+    pub start: usize,
     pub estimate: Array1<f32>,
 }
-- 
2.43.0


From 74b1b9229528b94e206793d00d5fc0d2f766cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:47 +0000
Subject: [PATCH 11/26] fix: cluster the intersections of a segment in the
 order of their points

---
 src/training/node_estimation/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/training/node_estimation/mod.rs b/src/training/node_estimation/mod.rs
index 8bfb297..21b7fdb 100644
--- a/src/training/node_estimation/mod.rs
+++ b/src/training/node_estimation/mod.rs
@@ -54,7 +54,10 @@ impl NodeEstimator for Training {
 
         match self.data_store.get_intersections_from_segment(segment_id) {
             Some(intersections) => {
-                self.node_estimation.current_intersections = intersections.to_vec();
+                // intersections arrive in any order from helpers and other cluster nodes
+                let mut intersections = intersections.to_vec();
+                intersections.sort_by_key(|x| x.get_from_id());
+                self.node_estimation.current_intersections = intersections.clone();
                 let coordinates: Vec<ArrayView1<f32>> =
                     intersections.iter().map(|x| x.get_coordinates()).collect();
                 let data = stack(Axis(0), coordinates.as_slice()).unwrap();
-- 
2.43.0


From 79f69a66993f31c9bf1861f8d0bb45e132b644e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:00 +0000
Subject: [PATCH 12/26] fix: combine column means in the order of helpers and
 cluster nodes

---
 src/training/rotation/pca/helper.rs   | 32 ++++++++++++++++++++++-----
 src/training/rotation/pca/messages.rs |  2 ++
 src/training/rotation/pca/mod.rs      | 17 ++++++++++++--
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/training/rotation/pca/helper.rs b/src/training/rotation/pca/helper.rs
index 9b93b3e..6909d71 100644
--- a/src/training/rotation/pca/helper.rs
+++ b/src/training/rotation/pca/helper.rs
@@ -10,6 +10,13 @@ use crate::messages::PoisonPill;
 
 use super::messages::PCAHelperMessage;
 
+/// Indices that sort the given ids
+pub(crate) fn argsort(ids: &[usize]) -> Vec<usize> {
+    let mut order: Vec<usize> = (0..ids.len()).collect();
+    order.sort_by_key(|i| ids[*i]);
+    order
+}
+
 #[derive(Default)]
 pub(crate) struct PCAHelper {
     id: usize,
@@ -18,6 +25,8 @@ pub(crate) struct PCAHelper {
     data: Option<ArcArray2<f32>>,
     column_means: Option<Array2<f32>>,
     n: Option<Array1<f32>>,
+    /// helper ids in the order of column_means and n
+    mean_ids: Vec<usize>,
     local_r: Option<Array2<f32>>,
     r_count: usize,
     buffer: Vec<PCAHelperMessage>,
@@ -42,6 +51,7 @@ impl PCAHelper {
                 .unwrap(),
         );
         self.n = Some(arr1(&[data.shape()[0] as f32]));
+        self.mean_ids = vec![self.id];
         let col_centered = data - self.column_means.as_ref().unwrap();
         let (_q, r) = col_centered.qr().unwrap();
         self.local_r = Some(r);
@@ -69,6 +79,7 @@ impl PCAHelper {
     fn send_to_main(&mut self) {
         let main = self.neighbors.get(0).expect("Does not have neighbors yet");
         main.do_send(PCAHelperMessage::Means {
+            id: self.id,
             columns_means: self.column_means.as_ref().unwrap().clone(),
             n: self.data.as_ref().unwrap().shape()[0],
         });
@@ -119,9 +130,12 @@ impl PCAHelper {
     }
 
     fn finalize(&mut self) {
-        let column_means = self.column_means.as_ref().unwrap().to_owned();
+        // the order of arrival would change the rounding
+        let order = argsort(&self.mean_ids);
+        let column_means = self.column_means.as_ref().unwrap().select(Axis(0), &order);
         let dim = column_means.shape()[1];
-        let n = self.n.as_ref().unwrap().view();
+        let n = self.n.as_ref().unwrap().select(Axis(0), &order);
+        let n = n.view();
         let n_reshaped = n.broadcast((dim, n.len())).unwrap();
         let global_means =
             (n_reshaped.t().to_owned() * column_means.to_owned()).sum_axis(Axis(0)) / n.sum();
@@ -182,7 +196,11 @@ impl Handler<PCAHelperMessage> for PCAHelper {
                             .push(PCAHelperMessage::Decomposition { r, count });
                     }
                 }
-                PCAHelperMessage::Means { columns_means, n } => {
+                PCAHelperMessage::Means {
+                    id,
+                    columns_means,
+                    n,
+                } => {
                     if self.column_means.is_some() {
                         self.column_means = Some(concatenate![
                             Axis(0),
@@ -194,9 +212,13 @@ impl Handler<PCAHelperMessage> for PCAHelper {
                             self.n.as_ref().unwrap().clone(),
                             arr1(&[n as f32])
                         ]);
+                        self.mean_ids.push(id);
                     } else {
-                        self.means_buffer
-                            .push(PCAHelperMessage::Means { columns_means, n });
+                        self.means_buffer.push(PCAHelperMessage::Means {
+                            id,
+                            columns_means,
+                            n,
+                        });
                     }
                 }
                 PCAHelperMessage::Components {
diff --git a/src/training/rotation/pca/messages.rs b/src/training/rotation/pca/messages.rs
index 70b1330..83dcfa1 100644
--- a/src/training/rotation/pca/messages.rs
+++ b/src/training/rotation/pca/messages.rs
@@ -25,6 +25,7 @@ pub enum PCAHelperMessage {
         count: usize,
     },
     Means {
+        id: usize,
         columns_means: Array2<f32>,
         n: usize,
     },
@@ -48,6 +49,7 @@ pub struct PCADecompositionMessage {
 
 #[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct PCAMeansMessage {
+    pub id: usize,
     pub columns_means: Array2<f32>,
     pub n: usize,
 }
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index b31bd4a..94fa902 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -16,7 +16,10 @@ pub use crate::training::rotation::pca::messages::{
 };
 use crate::{messages::PoisonPill, training::Training};
 
-use self::{helper::PCAHelper, messages::PCAHelperMessage};
+use self::{
+    helper::{argsort, PCAHelper},
+    messages::PCAHelperMessage,
+};
 
 #[derive(Default, Clone)]
 #[allow(clippy::upper_case_acronyms)]
@@ -30,6 +33,8 @@ pub struct PCA {
     r_count: usize,
     column_means: Option<Array2<f32>>,
     n: Option<Array1<f32>>,
+    /// cluster node ids in the order of column_means and n
+    mean_ids: Vec<usize>,
     pub recipient: Option<Recipient<PCAComponents>>,
     helpers: Vec<Addr<PCAHelper>>,
     buffer: Vec<PCADecompositionMessage>,
@@ -114,6 +119,7 @@ impl PCAnalyzer for Training {
                 .unwrap(),
         );
         self.rotation.pca.n = Some(arr1(&[data.shape()[0] as f32]));
+        self.rotation.pca.mean_ids = vec![self.rotation.pca.id];
         let col_centered = data - self.rotation.pca.column_means.as_ref().unwrap();
         let (_q, r) = col_centered
             .qr()
@@ -162,6 +168,7 @@ impl PCAnalyzer for Training {
             let mut addr = addr.clone();
             addr.change_id("Training".to_string());
             addr.do_send(PCAMeansMessage {
+                id: self.rotation.pca.id,
                 columns_means: self.rotation.pca.column_means.as_ref().unwrap().clone(),
                 n: self.rotation.pca.data.as_ref().unwrap().shape()[0],
             })
@@ -222,8 +229,12 @@ impl PCAnalyzer for Training {
             return;
         }
         self.rotation.pca.waits_for_means = false;
+        // the order of arrival would change the rounding
+        let order = argsort(&self.rotation.pca.mean_ids);
+        let column_means = column_means.select(Axis(0), &order);
         let dim = column_means.shape()[1];
-        let n = self.rotation.pca.n.as_ref().unwrap().view();
+        let n = self.rotation.pca.n.as_ref().unwrap().select(Axis(0), &order);
+        let n = n.view();
         let n_reshaped = n.broadcast((dim, n.len())).unwrap();
         let global_means =
             (n_reshaped.t().to_owned() * column_means.to_owned()).sum_axis(Axis(0)) / n.sum();
@@ -301,6 +312,7 @@ impl Handler<PCAMeansMessage> for Training {
                 self.rotation.pca.n.as_ref().unwrap().clone(),
                 arr1(&[msg.n as f32])
             ]);
+            self.rotation.pca.mean_ids.push(msg.id);
             if self.rotation.pca.waits_for_means {
                 self.finalize();
             }
@@ -347,6 +359,7 @@ impl Handler<PCAHelperMessage> for Training {
             let n_columns = column_means.len();
             self.rotation.pca.column_means = Some(column_means.into_shape([1, n_columns]).unwrap());
             self.rotation.pca.n = Some(concatenate![Axis(0), arr1(&[n])]);
+            self.rotation.pca.mean_ids = vec![self.rotation.pca.id];
             self.rotation.pca.local_r = Some(r);
 
             let n_helpers = self.rotation.pca.helpers.len();
-- 
2.43.0


From c3103d4f07296fd757891f0578a4d454c3e4d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:38 +0000
Subject: [PATCH 13/26] fix: let the main node leave last and sub nodes wait
 for it

---
 src/training/messages.rs |  7 ++++++
 src/training/mod.rs      | 46 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/training/messages.rs b/src/training/messages.rs
index d8d5069..7c59786 100644
--- a/src/training/messages.rs
+++ b/src/training/messages.rs
@@ -1,6 +1,8 @@
 use crate::utils::ClusterNodes;
 use actix::prelude::*;
+use actix_telepathy::prelude::*;
 use ndarray::{Array1, Array2};
+use serde::{Deserialize, Serialize};
 
 #[derive(Message)]
 #[rtype(Result = "()")]
@@ -15,3 +17,8 @@ pub struct StartTrainingMessage {
 pub struct DetectionResponse {
     pub anomaly_score: Array1<f32>,
 }
+
+/// From a sub node: it has its score and expects no more messages.
+/// From the main node: all nodes have their scores, so they are free to leave.
+#[derive(RemoteMessage, Serialize, Deserialize)]
+pub struct TrainingDone;
diff --git a/src/training/mod.rs b/src/training/mod.rs
index a2d4f9d..58e4775 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -15,7 +15,7 @@ use crate::training::intersection_calculation::{
     IntersectionCalculation, IntersectionCalculationDone, IntersectionCalculator,
     IntersectionRotationMessage, SegmentID,
 };
-pub use crate::training::messages::{DetectionResponse, StartTrainingMessage};
+pub use crate::training::messages::{DetectionResponse, StartTrainingMessage, TrainingDone};
 pub use crate::training::node_estimation::Clustering;
 use crate::training::node_estimation::{
     AskForForeignNodes, ForeignNodesAnswer, NodeEstimation, NodeEstimationDone, NodeEstimator,
@@ -67,7 +67,8 @@ mod transposition;
     PCADecompositionMessage,
     PCAComponents,
     RotationMatrixMessage,
-    TransitionCountMessage
+    TransitionCountMessage,
+    TrainingDone
 )]
 pub struct Training {
     own_addr: Option<Addr<Self>>,
@@ -85,6 +86,8 @@ pub struct Training {
     num_rotated: Option<usize>,
     anomaly_contribution: Option<Addr<AnomalyContribution>>,
     sink: Option<Recipient<DetectionResponse>>,
+    done: bool,
+    n_subs_done: usize,
 }
 
 impl Training {
@@ -97,6 +100,23 @@ impl Training {
             .sub(&(from_node_id as isize))
             .mod_floor(&(self.parameters.n_cluster_nodes as isize)) as usize
     }
+
+    fn stop(&self, ctx: &mut Context<Self>) {
+        ctx.stop();
+        System::current().stop();
+    }
+
+    /// A finished node might still be needed by others. So, the main node (or the only one) waits
+    /// for all sub nodes before it lets them leave.
+    fn stop_if_all_done(&mut self, ctx: &mut Context<Self>) {
+        if self.done && self.n_subs_done == self.cluster_nodes.len() {
+            for key in 1..self.cluster_nodes.len_incl_own() {
+                let node = self.cluster_nodes.get_as(&key, "Training").unwrap();
+                node.do_send(TrainingDone);
+            }
+            self.stop(ctx);
+        }
+    }
 }
 
 impl SyncInterface<f32> for Training {
@@ -117,6 +137,8 @@ impl SyncInterface<f32> for Training {
             num_rotated: None,
             anomaly_contribution: None,
             sink: None,
+            done: false,
+            n_subs_done: 0,
         }
     }
 
@@ -273,7 +295,23 @@ impl Handler<ScoringDone> for Training {
             sink.do_send(DetectionResponse { anomaly_score });
         }
 
-        ctx.stop();
-        System::current().stop();
+        self.done = true;
+        match self.cluster_nodes.get_as(&0, "Training") {
+            Some(main_node) => main_node.do_send(TrainingDone),
+            None => self.stop_if_all_done(ctx),
+        }
+    }
+}
+
+impl Handler<TrainingDone> for Training {
+    type Result = ();
+
+    fn handle(&mut self, _msg: TrainingDone, ctx: &mut Self::Context) -> Self::Result {
+        if self.cluster_nodes.get_main_node().is_some() {
+            self.stop(ctx);
+        } else {
+            self.n_subs_done += 1;
+            self.stop_if_all_done(ctx);
+        }
     }
 }
-- 
2.43.0


From c1094c041e291e3ba3b56de69c22af9bd6d47606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:13 +0000
Subject: [PATCH 14/26] fix: let the main node fail when a cluster node leaves
 before the end

---
 src/cluster_listener.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cluster_listener.rs b/src/cluster_listener.rs
index 8e197aa..a96df3d 100644
--- a/src/cluster_listener.rs
+++ b/src/cluster_listener.rs
@@ -122,8 +122,13 @@ impl Handler<ClusterLog> for ClusterMemberListener {
             }
             ClusterLog::MemberLeft(addr) => {
                 debug!("member left {:?}", addr);
-                if let Role::Sub { mainhost: _ } = &self.parameters.role {
-                    ctx.stop();
+                match &self.parameters.role {
+                    // the main node leaves last, it cannot finish without the others
+                    Role::Main { .. } => {
+                        error!("cluster node {:?} left before the end", addr);
+                        System::current().stop_with_code(1);
+                    }
+                    Role::Sub { mainhost: _ } => ctx.stop(),
                 }
             }
         }
-- 
2.43.0


From 542fd440f6c13f50265015113fa80699bb3883e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:27 +0000
Subject: [PATCH 15/26] fix: start at most one PCA helper per chunk of data

---
 src/training/rotation/pca/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 94fa902..c86d3af 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -134,7 +134,17 @@ impl PCAnalyzer for Training {
 
     fn helper_center_columns_decomposition(&mut self) {
         let own_addr = self.own_addr.as_ref().unwrap().clone().recipient();
-        self.rotation.pca.helpers = (0..self.parameters.n_threads)
+        let data = self
+            .rotation
+            .pca
+            .data
+            .as_ref()
+            .expect("PCA started before data is present!")
+            .clone();
+        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
+        // there might be less chunks than threads
+        let n_helpers = num_integer::div_ceil(data.shape()[0], chunk_size);
+        self.rotation.pca.helpers = (0..n_helpers)
             .into_iter()
             .map(|i| PCAHelper::start_helper(i, own_addr.clone()))
             .collect();
@@ -145,13 +155,6 @@ impl PCAnalyzer for Training {
             .iter()
             .map(|addr| addr.clone().recipient())
             .collect();
-        let data = self
-            .rotation
-            .pca
-            .data
-            .as_ref()
-            .expect("PCA started before data is present!");
-        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
         for (chunk, helper) in data
             .axis_chunks_iter(Axis(0), chunk_size)
             .zip(self.rotation.pca.helpers.iter())
-- 
2.43.0


From ac534df5c20cbe7411f47a9d931e7b3b816185bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:47 +0000
Subject: [PATCH 16/26] fix: do not split the scoring into more parts than
 scores

---
 src/training/scoring/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 5351ef1..622a8a8 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -90,7 +90,8 @@ impl Scorer for Training {
         }
 
         let score_length = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
-        self.scoring.helper_protocol.n_total = self.parameters.n_threads;
+        let n_parts = self.parameters.n_threads.min(score_length).max(1);
+        self.scoring.helper_protocol.n_total = n_parts;
 
         let edges = self.data_store.get_edges();
         let edges_in_time = self.scoring.edges_in_time.clone();
@@ -99,7 +100,7 @@ impl Scorer for Training {
         let query_length = self.parameters.query_length;
         let receiver = ctx.address().recipient();
 
-        self.scoring.helpers = Some(SyncArbiter::start(self.parameters.n_threads, move || {
+        self.scoring.helpers = Some(SyncArbiter::start(n_parts, move || {
             ScoringHelper {
                 edges: edges.clone(),
                 edges_in_time: edges_in_time.clone(),
@@ -138,11 +139,12 @@ impl Scorer for Training {
     }
 
     fn parallel_score(&mut self, score_length: usize) {
-        let n_per_thread = score_length / self.parameters.n_threads;
-        let n_rest = score_length % self.parameters.n_threads;
+        let n_parts = self.scoring.helper_protocol.n_total;
+        let n_per_thread = score_length / n_parts;
+        let n_rest = score_length % n_parts;
 
-        for i in 0..self.parameters.n_threads {
-            let rest = if i == self.parameters.n_threads - 1 {
+        for i in 0..n_parts {
+            let rest = if i == n_parts - 1 {
                 n_rest
             } else {
                 0
-- 
2.43.0


From 13b45f456d710b9f4e9856f3bb1a37735f17ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:47 +0000
Subject: [PATCH 17/26] fix: report errors of writing the last part of an
 output file

---
 src/training/node_estimation/multi_kde/actors/gaussian_kde.rs | 2 +-
 src/training/scoring/mod.rs                                   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
index 0e60e0d..18a054c 100644
--- a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
+++ b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
@@ -5,7 +5,7 @@ use crate::training::node_estimation::multi_kde::actors::messages::{
 };
 use crate::utils::HelperProtocol;
 use actix::{Actor, ActorContext, Addr, AsyncContext, Context, Handler, Recipient, SyncArbiter};
-use ndarray::{ArcArray2, Array, Array1, Array2, ArrayView2, Axis, Dim};
+use ndarray::{ArcArray2, Array, Array2, ArrayView2, Axis, Dim};
 use ndarray_linalg::Inverse;
 use ndarray_stats::{CorrelationExt, QuantileExt};
 use std::ops::Mul;
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 622a8a8..e8fc001 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -259,6 +259,7 @@ impl Scorer for Training {
         for s in score.iter() {
             writer.serialize(s)?;
         }
+        writer.flush()?;
         Ok(())
     }
 }
@@ -390,6 +391,7 @@ impl Handler<QueryClusterContributionResponse> for Training {
             last = Some(ser);
             writer.serialize(ser.to_vec()).unwrap();
         }
+        writer.flush().unwrap();
         ctx.address().do_send(ScoringDone);
     }
 }
-- 
2.43.0


From 9ef092c4f0f811b3567005a29d08a429c0e85f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:47 +0000
Subject: [PATCH 18/26] fix: count the lines that are read and stop at read
 errors

---
 src/data_manager/data_reader/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index bc2a69e..b03f39e 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -32,10 +32,15 @@ impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
         let file = File::open(file_path).unwrap();
         let count_reader = BufReader::new(file);
+        // the CSV reader skips empty lines as well
+        let n_lines = count_reader
+            .lines()
+            .filter(|line| !line.as_ref().unwrap().is_empty())
+            .count();
         let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            count_reader.lines().count() - 1
+            n_lines - 1
         } else {
-            count_reader.lines().count()
+            n_lines
         };
 
         let mut nodes = self.cluster_nodes.clone();
-- 
2.43.0


From 92003ca6725d4d39d2bec234c008885394de66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:26 +0000
Subject: [PATCH 19/26] fix: fill up missing scores only and allow them at the
 start of the data

---
 src/training/scoring/helper.rs |  2 +-
 src/training/scoring/mod.rs    | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/training/scoring/helper.rs b/src/training/scoring/helper.rs
index 619dee8..d22e126 100644
--- a/src/training/scoring/helper.rs
+++ b/src/training/scoring/helper.rs
@@ -58,7 +58,7 @@ impl Handler<ScoringHelperInstruction> for ScoringHelper {
                     Some(last) => *last,
                     None => {
                         first_empty = true;
-                        0.0
+                        f32::NAN
                     }
                 }
             } else {
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e8fc001..2fb14d1 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -189,6 +189,9 @@ impl Scorer for Training {
                 self.handle(msg, ctx);
             }
         } else {
+            if self.scoring.first_empty {
+                fill_up_first_missing_points(&mut scores, 0.0);
+            }
             self.normalize_score(&mut scores);
             self.scoring.score = Some(scores);
             self.finalize_scoring(ctx);
@@ -214,11 +217,9 @@ impl Scorer for Training {
                     .remove(&cluster_node_id)
                     .expect("A subscore is missing!");
                 if first_empty {
-                    let last_score = scores
-                        .last()
-                        .expect("First cannot be empty if it's the first overall score point!");
+                    let last_score = scores.last().map_or(0.0, |s| s[s.len() - 1]);
 
-                    fill_up_first_missing_points(&mut sub_score, last_score[last_score.len() - 1]);
+                    fill_up_first_missing_points(&mut sub_score, last_score);
                 }
                 scores.push(sub_score);
             }
@@ -309,7 +310,8 @@ fn fill_up_first_missing_points<T: IndexMut<usize, Output = f32> + LengthAble>(
     <T as Index<usize>>::Output: Float,
 {
     for i in 0..scores.get_length() {
-        if scores[i] == 0.0 {
+        // only missing scores, a score can be zero
+        if scores[i].is_nan() {
             if i == 0 {
                 scores[i] = initial_score;
             } else {
-- 
2.43.0


From 1cf90bcc6938be35c4ad32e3ca7cf9d6e7ddba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:55 +0000
Subject: [PATCH 20/26] fix: count transitions between partitions when deciding
 on self-correction

---
 src/training/segmentation/messages.rs |  3 +++
 src/training/segmentation/mod.rs      | 24 ++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index 494dd69..380efc6 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -24,4 +24,7 @@ pub struct SegmentedMessage;
 pub(crate) struct TransitionCountMessage {
     pub count: usize,
     pub clockwise_count: usize,
+    /// ends of the partition, the first cluster node has no point to connect to and sends no first one
+    pub first_point: Option<Point>,
+    pub last_point: Option<Point>,
 }
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 37c8bcf..c69e2fd 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -38,6 +38,8 @@ pub(crate) struct Segmentation {
     pub transition_count_protocol: RotationProtocol<TransitionCountMessage>,
     pub global_transition_count: usize,
     pub invalid_transition_directions: usize,
+    /// first point of the partition that was counted last
+    counted_first_point: Option<Point>,
 }
 
 pub(crate) trait Segmenter {
@@ -78,6 +80,7 @@ pub(crate) trait Segmenter {
         node_transitions: TransitionsForNodes,
         ctx: &mut Context<Training>,
     );
+    fn count_spanning_transition(&mut self, last_point: Option<Point>);
     fn try_self_correction(&mut self, ctx: &mut Context<Training>);
     fn finish_self_correction(&mut self, ctx: &mut Context<Training>);
     fn clear_segmentation(&mut self);
@@ -318,7 +321,10 @@ impl Segmenter for Training {
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
+                    first_point: self.segmentation.send_point.clone(),
+                    last_point: self.segmentation.last_point.clone(),
                 });
+                self.segmentation.counted_first_point = self.segmentation.send_point.clone();
                 self.segmentation.transition_count_protocol.sent();
                 self.segmentation.global_transition_count += transition_count;
                 self.segmentation.transitions_for_nodes = node_transitions;
@@ -333,6 +339,20 @@ impl Segmenter for Training {
         }
     }
 
+    /// counts the transition from the given end of a partition to the partition behind it
+    fn count_spanning_transition(&mut self, last_point: Option<Point>) {
+        if let (Some(from), Some(to)) = (last_point, self.segmentation.counted_first_point.take()) {
+            let transition = Transition::new(from.into_ref(), to.into_ref());
+            if transition.crosses_segments() {
+                if transition.has_valid_direction(self.parameters.rate as isize) {
+                    self.segmentation.global_transition_count += 1;
+                } else {
+                    self.segmentation.invalid_transition_directions += 1;
+                }
+            }
+        }
+    }
+
     fn try_self_correction(&mut self, ctx: &mut Context<Training>) {
         debug!(
             "{} < {}",
@@ -382,8 +402,12 @@ impl Handler<TransitionCountMessage> for Training {
 
         self.segmentation.global_transition_count += msg.count;
         self.segmentation.invalid_transition_directions += msg.clockwise_count;
+        // the counts arrive in the reversed order of the partitions
+        self.count_spanning_transition(msg.last_point.clone());
+        self.segmentation.counted_first_point = msg.first_point.clone();
 
         if !self.segmentation.transition_count_protocol.is_running() {
+            self.count_spanning_transition(self.segmentation.last_point.clone());
             self.try_self_correction(ctx);
         } else {
             match self.cluster_nodes.get_next_as("Training") {
-- 
2.43.0


From c0b983255aa64d4f562fd7966effc760f56afa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:38 +0000
Subject: [PATCH 21/26] fix: allow queries without contribution before the
 first one with contribution

---
 src/training/scoring/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 2fb14d1..29e8b7c 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -361,7 +361,8 @@ impl Handler<QueryClusterContributionResponse> for Training {
         let mut last_contribution = None;
         for c in contributions.iter_mut() {
             if c.sum() == 0.0 {
-                *c = last_contribution.expect("No contribution");
+                // there may be no contribution before the first one
+                *c = last_contribution.unwrap_or(*c);
             } else {
                 last_contribution = Some(*c);
             }
-- 
2.43.0


From 0e0864366926f09cada24844bab38808a34e8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 22/26] fix: count the edges of a partition that all end at the
 first point

---
 src/training/scoring/weights.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index dbe461b..d7a7330 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -21,9 +21,10 @@ pub(crate) trait ScoringWeights {
 impl ScoringWeights for Training {
     fn count_edges_in_time(&mut self) -> Vec<usize> {
         let start_point = self.transposition.range_start_point.unwrap_or(0);
+        // ends at no existing point, so that the edges of the last point are counted
         let pseudo_edge = Edge::new(
-            IndependentNode::new(0, 0, 0).into_ref(),
-            IndependentNode::new(0, 0, 0).into_ref(),
+            IndependentNode::new(0, 0, usize::MAX).into_ref(),
+            IndependentNode::new(0, 0, usize::MAX).into_ref(),
         )
         .into_ref();
         let mut edges_in_time = vec![];
-- 
2.43.0


From d0528646754d5f3fab21d5b8a707b96323ce1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:50 +0000
Subject: [PATCH 23/26] fix: give the last node all remaining rows

last_position() was true only after the last node had been taken, so the
last partition could not get more than pattern_length - 1 remaining rows:
with more nodes than that, reading the file panicked.
---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 981cc3e..e6cead8 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -200,7 +200,7 @@ pub struct AnyClusterNodesIterator<T: Actor> {
 
 impl<T: Actor> AnyClusterNodesIterator<T> {
     pub fn last_position(&mut self) -> bool {
-        self.position >= self.any_cluster_nodes.len()
+        self.position + 1 >= self.any_cluster_nodes.len()
     }
 
     pub fn get_position(&mut self) -> usize {
-- 
2.43.0


From 2f43bffba8dfea31db531c713394f2b6931a67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:10 +0000
Subject: [PATCH 24/26] fix: count the records of the input with the CSV reader

The partitions were sized by the number of lines, which is not the number
of records if quoted fields span lines or if lines end with a carriage
return only: partitions got a wrong size or rows were left over.
---
 src/data_manager/data_reader/mod.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index b03f39e..95c21a6 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -30,18 +30,14 @@ pub trait DataReader {
 
 impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
+        // a record may span several lines and empty lines are skipped
         let file = File::open(file_path).unwrap();
-        let count_reader = BufReader::new(file);
-        // the CSV reader skips empty lines as well
-        let n_lines = count_reader
-            .lines()
-            .filter(|line| !line.as_ref().unwrap().is_empty())
+        let n_lines = ReaderBuilder::new()
+            .has_headers(self.data_reading.as_ref().unwrap().with_header)
+            .from_reader(file)
+            .into_records()
+            .map(|record| record.unwrap())
             .count();
-        let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            n_lines - 1
-        } else {
-            n_lines
-        };
 
         let mut nodes = self.cluster_nodes.clone();
         nodes.change_ids("DataManager");
-- 
2.43.0


From 3540d2f6fc3a240064a0d1a1301010d8f1c391cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 25/26] fix: end the run when a cluster node joins again while
 the cluster works

---
 src/cluster_listener.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cluster_listener.rs b/src/cluster_listener.rs
index a96df3d..ae0a1f7 100644
--- a/src/cluster_listener.rs
+++ b/src/cluster_listener.rs
@@ -88,6 +88,13 @@ impl Handler<ClusterLog> for ClusterMemberListener {
             ClusterLog::NewMember(node) => {
                 debug!("new member {:?}", node.socket_addr);
 
+                if !self.sorted_nodes.is_empty() && self.connected_nodes.contains(&node) {
+                    // the connection was lost: messages are missing, or it is another process now
+                    error!("cluster node {:?} joined again", node.socket_addr);
+                    System::current().stop_with_code(1);
+                    return;
+                }
+
                 if self.parameters.is_main_addr(node.socket_addr) {
                     debug!("is main node");
                     self.main_node = Some(node.clone());
-- 
2.43.0


From a8305793ee46b8400fc4d0f98f19053a0acc7420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:34 +0000
Subject: [PATCH 26/26] fix: intersect transitions in double precision

---
 src/utils/geometry.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/geometry.rs b/src/utils/geometry.rs
index a386fc6..fd693f3 100644
--- a/src/utils/geometry.rs
+++ b/src/utils/geometry.rs
@@ -37,12 +37,13 @@ pub fn line_plane_intersection(
             plane_vector.view(),
         ],
     )?;
-    let inv = vectors.inv()?;
+    // in double precision, because dimensions of very different scales look singular otherwise
+    let inv = vectors.mapv(f64::from).inv()?;
     let vec_start =
         line_points.slice(s![0, ..]).to_owned() - plane_points.slice(s![0, ..]).to_owned();
-    let vec_to_intersection: Array1<f32> = inv.t().dot(&vec_start);
+    let vec_to_intersection: Array1<f64> = inv.t().dot(&vec_start.mapv(f64::from));
     let intersection =
-        line_points.slice(s![0, ..]).to_owned() + line_vector * vec_to_intersection.slice(s![0]);
+        line_points.slice(s![0, ..]).to_owned() + line_vector * vec_to_intersection[0] as f32;
     Ok(intersection)
 }
 
-- 
2.43.0

