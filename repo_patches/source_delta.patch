From f5e871a0fc1be9d5eaa3909500a1dfcb3fa040a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 1/6] fix: closing a cycle drops only the pending edge it
 closes

When a back edge was found, DepthFirst removed every pending edge that left
the ancestor or led to the current node, instead of just the edge between
the two. Edges, and whole branches, were lost.
---
 src/traversal/depth_first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traversal/depth_first.rs b/src/traversal/depth_first.rs
index 5976d0f..68bd9cc 100644
--- a/src/traversal/depth_first.rs
+++ b/src/traversal/depth_first.rs
@@ -99,7 +99,7 @@ impl<'a, G> Iterator for DepthFirst<'a, G>
 
                         if self.nodes.contains(&neighbor) {
                             self.stack.retain(
-                                |edge| edge.0 != neighbor && edge.1 != node
+                                |edge| edge.0 != neighbor || edge.1 != node
                             );
                         }
 
-- 
2.43.0


From b84cfe4550956ca20aa966d9c1034d5c0df4e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 2/6] fix: greedy marks nodes as used only when they are paired

A free source of an edge whose target was taken was marked as used, so the
matching was not maximal.
---
 src/matching/greedy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matching/greedy.rs b/src/matching/greedy.rs
index 42e147f..170fe2b 100644
--- a/src/matching/greedy.rs
+++ b/src/matching/greedy.rs
@@ -50,8 +50,10 @@ pub fn greedy<G: Graph>(graph: &G) -> Pairing {
         );
 
         for Step { sid, tid, cut: _ } in traversal {
-            if nodes.insert(sid) && nodes.insert(tid) {
+            if sid != tid && !nodes.contains(&sid) && !nodes.contains(&tid) {
                 // edges.push((sid, tid));
+                nodes.insert(sid);
+                nodes.insert(tid);
                 pairing.pair(sid, tid);
             }
         }
-- 
2.43.0


From c6c10cc28bc81e61f6967fe7ce6be969875ee86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 3/6] fix: lift an inner blossom of an augmenting path
 completely

Walking from the first node next to the left end to the first node next to
the right end can give a path of odd length, on which augmenting panics, or
can leave out nodes that lose their mate. Augmenting pairs a blossom with the
neighbor at its even or odd side, after which the rest of the cycle can be
paired along the cycle, as the one-sided cases do already.
---
 src/matching/blossom.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/matching/blossom.rs b/src/matching/blossom.rs
index cf2d770..a4587a2 100644
--- a/src/matching/blossom.rs
+++ b/src/matching/blossom.rs
@@ -98,6 +98,20 @@ impl Blossom {
             self.lift_left_blossom(left, graph)
         } else if left.is_empty() && !right.is_empty() {
             self.lift_blossom_right(right, graph)
+        } else if left.len() % 2 == 1 && right.len() % 2 == 0 {
+            // blossom is paired on the left, its other nodes with each other
+            let mut result = self.lift_left_blossom(left, graph);
+
+            result.extend(right);
+
+            result
+        } else if left.len() % 2 == 0 && right.len() % 2 == 1 {
+            // blossom is paired on the right, its other nodes with each other
+            let mut result = left;
+
+            result.extend(self.lift_blossom_right(right, graph));
+
+            result
         } else {
             self.lift_left_blossom_right(left, right, graph)
         }
-- 
2.43.0


From 0dd86a372af406e5d57881a54bd07559c5f0ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 4/6] fix: contract blossoms in graphs that use the maximum id

max_id + 1 overflowed when usize::MAX is a node.
---
 src/matching/maximum_matching.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 1ba8234..1f6904d 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -125,7 +125,11 @@ fn process_blossom<G:Graph>(
     left: Vec<usize>, right: Vec<usize>, graph: &G, pairing: &Pairing
 ) -> Option<Vec<usize>> {
     let max_id = graph.nodes().max().expect("no max id");
-    let blossom =  Blossom::new(max_id + 1, left, right);
+    let id = match max_id.checked_add(1) {
+        Some(id) => id,
+        None => (0..).find(|&id| !graph.has_node(id)).expect("no unused id")
+    };
+    let blossom =  Blossom::new(id, left, right);
     let contracted_graph = blossom.contract_graph(graph).expect("bad graph");
     let mut contracted_pairing = blossom.contract_pairing(&pairing);
 
-- 
2.43.0


From e511fc89077f9ded01f1a42bd2a65bda7792c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 5/6] fix: list an edge from a node to itself when built from
 an adjacency

The edge was reported by neighbors, degree and has_edge, but not by edges,
size or equality.
---
 src/graph/default_graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/default_graph.rs b/src/graph/default_graph.rs
index 80be412..2774411 100644
--- a/src/graph/default_graph.rs
+++ b/src/graph/default_graph.rs
@@ -155,7 +155,7 @@ impl TryFrom<Vec<Vec<usize>>> for DefaultGraph {
                     return Err(Error::MissingEdge(tid, sid));
                 }
 
-                if sid < tid {
+                if sid <= tid {
                     result.edges.push((sid, tid));
                 }
             }
-- 
2.43.0


From 2b2f0005bf4dfb0c19b8f0d4e32497c72648590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 6/6] fix: add an edge from a node to itself as one neighbor

The node was listed as its own neighbor twice, so traversals stepped over the
edge twice and components panicked with a duplicate edge.
---
 src/graph/default_graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph/default_graph.rs b/src/graph/default_graph.rs
index 2774411..d8de44a 100644
--- a/src/graph/default_graph.rs
+++ b/src/graph/default_graph.rs
@@ -74,7 +74,9 @@ impl DefaultGraph {
         }
         
         self.adjacency[source_index].push(tid);
-        self.adjacency[target_index].push(sid);
+        if source_index != target_index {
+            self.adjacency[target_index].push(sid);
+        }
         self.edges.push((sid, tid));
 
         Ok(())
-- 
2.43.0

