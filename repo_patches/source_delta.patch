From 8cd3ca2100c4a3864dcd71c2d8575114eb7f8824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:20 +0000
Subject: [PATCH 01/14] fix: switch_context mixes up set links when old and new
 indexes overlap

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 44aeeef..59e2e4e 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -456,9 +456,15 @@ where
       id_map.insert(id, new_idx);
     }
 
+    // Clear all links before relabeling any of them: an old index may be equal to a new index
+    for id in id_map.keys() {
+      for (y, s) in &self.back_links[id] {
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, NodeIndex::empty());
+      }
+    }
     for (id, new_id) in &id_map {
       for (y, s) in &self.back_links[id] {
-        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, *new_id);
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, NodeIndex::empty(), *new_id);
       }
     }
 
-- 
2.43.0


From 5a200ff6d577083e26bbc873a3eb7ca6aab5b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:20 +0000
Subject: [PATCH 02/14] fix: untyped fill back of an occupied index with
 another type is accepted

---
 ttgraph_macros/src/cate_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttgraph_macros/src/cate_arena.rs b/ttgraph_macros/src/cate_arena.rs
index 54585d5..20dc969 100644
--- a/ttgraph_macros/src/cate_arena.rs
+++ b/ttgraph_macros/src/cate_arena.rs
@@ -354,6 +354,9 @@ pub(crate) fn make_cate_arena(
         NodeIndex(self._id_distributer.alloc())
       }
       fn fill_back_untyped(&mut self, i: NodeIndex, item: Self::V) {
+        if self.contains(i) {
+          panic!("Fillback an occupied index {:?}", i);
+        }
         let d = ttgraph::Discriminated::discriminant(&item);
         self._dispatcher.insert(i, d);
         if self.get_container_mut(d).insert(i.0, item).is_some() {
-- 
2.43.0


From 0b80132ff0cf47ec8dd50072dfa186f0d1f9ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:20 +0000
Subject: [PATCH 03/14] fix: a node whose type is changed by mutate or update
 stays filed under its old type

---
 src/cate_arena.rs              | 16 +++++++++++++++-
 src/typed_graph.rs             |  2 +-
 src/typed_graph/transaction.rs |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index 6903018..43b774b 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -101,7 +101,21 @@ pub trait CateArena: 'static {
   {
     let d = self.dispatch(i).expect(&format!("Update a non-existing node {:?}", i));
     let x = self.get_container_mut(d).swap_remove(&i.0).expect(&format!("Update a non-existing node {:?}", i));
-    self.get_container_mut(d).insert(i.0, f(x));
+    // The type of the node may be changed by f
+    self.fill_back_untyped(i, f(x));
+  }
+  fn mutate_with<F>(&mut self, i: NodeIndex, f: F)
+  where
+    F: FnOnce(&mut Self::V),
+  {
+    let d = self.dispatch(i).expect(&format!("Mutate a non-existing node {:?}", i));
+    let x = self.get_container_mut(d).get_mut(&i.0).expect(&format!("Mutate a non-existing node {:?}", i));
+    f(x);
+    // The type of the node may be changed by f
+    if Discriminated::discriminant(x) != d {
+      let x = self.remove(i).unwrap();
+      self.fill_back_untyped(i, x);
+    }
   }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 59e2e4e..268bf63 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -573,7 +573,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
-    f(self.nodes.get_mut(x).unwrap());
+    self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index dcaaaca..15919ad 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -276,7 +276,7 @@ where
     F: FnOnce(&mut NodeT) + 'a,
   {
     if self.inc_nodes.contains(node) {
-      func(self.inc_nodes.get_mut(node).unwrap());
+      self.inc_nodes.mutate_with(node, func);
     } else {
       self.mut_nodes.push((node, Box::new(func)));
     }  }
-- 
2.43.0


From 825843078c112b67e586a8b11c992ebd2be3e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:20 +0000
Subject: [PATCH 04/14] fix: all default contexts share one identity

---
 src/typed_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 268bf63..3550388 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -869,7 +869,7 @@ pub type UpdateFunc<'a, T> = Box<dyn FnOnce(T) -> T + 'a>;
 
 /// Context for typed graph
 /// Transactions and graph must have the same context to ensure the correctness of NodeIndex
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Context {
   id: Uuid,
   node_dist: IdDistributer,
@@ -890,6 +890,11 @@ impl Context {
     }
   }
 }
+impl Default for Context {
+  fn default() -> Self {
+    Self::new()
+  }
+}
 
 // /// A trait intended to be used in macros
 // pub trait SourceIterator<T: TypedNode + ?Sized>:
-- 
2.43.0


From 0141ba31519cf8acef5e6fe181c42fdd67978c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:20 +0000
Subject: [PATCH 05/14] fix: get_links_by_group reports empty slots of Vec
 links

---
 ttgraph_macros/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index df0ad7b..4864aa7 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -53,7 +53,7 @@ pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>])
           quote! {if !self.#ident.is_empty() {result.push(self.#ident);}}
         },
         LinkType::Set(ident, _) => quote! {result.extend(self.#ident.clone());},
-        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.clone());},
+        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x|!x.is_empty()).copied());},
         LinkType::Empty => quote! {},
       });
     }
-- 
2.43.0


From d429316dd6e01d683f40333cda6568cb6a890b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:20 +0000
Subject: [PATCH 06/14] fix: a bidirectional link declared through two groups
 counts as multiple choices

---
 src/typed_graph/macro_traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/macro_traits.rs b/src/typed_graph/macro_traits.rs
index 3b526e7..d119b51 100644
--- a/src/typed_graph/macro_traits.rs
+++ b/src/typed_graph/macro_traits.rs
@@ -145,7 +145,10 @@ pub trait NodeEnum: Discriminated<Self::Discriminant> {
   /// Returns: Vec<link>, these types of links are the opposite side of the specified link
   /// Returns nothing if the link type does not match the node type
   fn get_bidiretional_link_mirrors_of(&self, link: Self::LinkMirrorEnum) -> Vec<Self::LinkMirrorEnum> {
-    Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect()
+    // A link may be declared several times, through different groups
+    let links: OrderSet<_> =
+      Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect();
+    links.into_iter().collect()
   }
 
   /// Get the opposite links of the specified link or group
-- 
2.43.0


From d5bb7b49b3b2d11e4705d9ded4a7dafe2a34d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:32 +0000
Subject: [PATCH 07/14] fix: a link added twice and removed once in a Vec is
 not recorded as added

---
 src/typed_graph.rs | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 3550388..50be243 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -654,7 +654,7 @@ where
   }
 
   fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in &lcr.removes {
+    for &(x, y, l) in lcr.removes() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -668,7 +668,7 @@ where
       }
     }
 
-    for &(x, y, l) in &lcr.adds {
+    for &(x, y, l) in lcr.adds() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -714,7 +714,7 @@ where
   }
 
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
-    for (_, y, l) in &lcr.adds {
+    for (_, y, l) in lcr.adds() {
       if let Some(node) = self.nodes.get(*y) {
         if let Result::Err(err) = NodeT::check_link_type(node.discriminant(), *l) {
           panic!("Link type check failed! Link {:?} expect {:?}, found {:?}", err.link, err.expect, err.found);
@@ -727,7 +727,7 @@ where
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
     let mut changed_nodes = OrderSet::new();
-    for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
+    for (x, _, _) in lcr.adds().chain(lcr.removes()) {
       changed_nodes.insert(*x);
     }
     for (name, check_func) in &checks.node_checks {
@@ -739,7 +739,7 @@ where
       }
     }
     for (name, check_func) in &checks.link_add_checks {
-      for (x, y, _) in &lcr.adds {
+      for (x, y, _) in lcr.adds() {
         if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
@@ -747,7 +747,7 @@ where
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.adds {
+      for (x, y, _) in lcr.adds() {
         if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
@@ -768,8 +768,8 @@ where
 }
 
 struct LinkChangeRecorder<NodeT: NodeEnum> {
-  adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
-  removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  /// How often a link is added (positive) or removed (negative), a Vec may hold the same link several times
+  changes: OrderMap<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum), isize>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
   #[cfg(feature = "debug")]
@@ -777,11 +777,7 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     if y.is_empty() {
       return;
     }
-    if self.removes.contains(&(x, y, l)) {
-      self.removes.swap_remove(&(x, y, l));
-    } else {
-      self.adds.insert((x, y, l));
-    }
+    *self.changes.entry((x, y, l)).or_default() += 1;
   }
 
   #[cfg(not(feature = "debug"))]
@@ -792,22 +788,23 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     if y.is_empty() {
       return;
     }
-    if self.adds.contains(&(x, y, l)) {
-      self.adds.swap_remove(&(x, y, l));
-    } else {
-      self.removes.insert((x, y, l));
-    }
+    *self.changes.entry((x, y, l)).or_default() -= 1;
   }
 
   #[cfg(not(feature = "debug"))]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
+
+  fn adds(&self) -> impl Iterator<Item = &(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)> {
+    self.changes.iter().filter(|(_, cnt)| **cnt > 0).map(|(link, _)| link)
+  }
+
+  fn removes(&self) -> impl Iterator<Item = &(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)> {
+    self.changes.iter().filter(|(_, cnt)| **cnt < 0).map(|(link, _)| link)
+  }
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
-    LinkChangeRecorder {
-      adds: OrderSet::default(),
-      removes: OrderSet::default(),
-    }
+    LinkChangeRecorder { changes: OrderMap::default() }
   }
 }
 
-- 
2.43.0


From 8076356e282a570b75cd4f04d61848d588615b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:39 +0000
Subject: [PATCH 08/14] fix: without the debug feature the crate does not
 compile and bidirectional links are not kept up

---
 src/typed_graph.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 50be243..a901285 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -29,6 +29,7 @@ mod transaction;
 pub use transaction::Transaction;
 
 pub mod check;
+#[cfg(feature = "debug")]
 use check::*;
 
 pub mod macros;
@@ -713,6 +714,10 @@ where
     }
   }
 
+  #[cfg(not(feature = "debug"))]
+  fn check_link_type(&self, _lcr: &LinkChangeRecorder<NodeT>) {}
+
+  #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
     for (_, y, l) in lcr.adds() {
       if let Some(node) = self.nodes.get(*y) {
@@ -772,7 +777,6 @@ struct LinkChangeRecorder<NodeT: NodeEnum> {
   changes: OrderMap<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum), isize>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
-  #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -780,10 +784,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     *self.changes.entry((x, y, l)).or_default() += 1;
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
-  #[cfg(feature = "debug")]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -791,9 +791,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     *self.changes.entry((x, y, l)).or_default() -= 1;
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
   fn adds(&self) -> impl Iterator<Item = &(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)> {
     self.changes.iter().filter(|(_, cnt)| **cnt > 0).map(|(link, _)| link)
   }
-- 
2.43.0


From 7f87533de31bf2e4353f35b0938214788e3015a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:39 +0000
Subject: [PATCH 09/14] fix: bidirectional links of a group become asymmetric
 when one of several links is removed

---
 src/typed_graph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index a901285..274f11c 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -663,6 +663,11 @@ where
       let bds = self.nodes.get(x).unwrap().get_bidiretional_link_mirrors_of(l);
       let bds = self.nodes.get(y).unwrap().match_bd_link_group(bds);
       for link in bds {
+        // x may still link to y by another link of the group
+        let opposites = self.nodes.get(y).unwrap().get_bidiretional_link_mirrors_of(link);
+        if opposites.into_iter().any(|l| self.nodes.get(x).unwrap().contains_link(l, y)) {
+          continue;
+        }
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
         }
@@ -673,6 +678,10 @@ where
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
+      // The link may have been removed above together with its opposite side
+      if !self.nodes.get(x).unwrap().contains_link(l, y) {
+        continue;
+      }
 
       let bds = self.nodes.get(x).unwrap().get_bidiretional_link_mirrors_of(l);
       let bds = self.nodes.get(y).unwrap().match_bd_link_group(bds);
-- 
2.43.0


From df3e65d6c72d00865a48952610df1c3a98acacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:39 +0000
Subject: [PATCH 10/14] fix: links added or removed for a bidirectional
 declaration are not checked

---
 src/typed_graph.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 274f11c..e1dc7ef 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -477,7 +477,7 @@ where
 
     let mut lcr = LinkChangeRecorder::default();
     result.merge_nodes(new_nodes, &mut lcr);
-    result.apply_bidirectional_links(&lcr);
+    result.apply_bidirectional_links(&mut lcr);
     result.check_link_type(&lcr);
     result
   }
@@ -538,7 +538,7 @@ where
       self.remove_node(*n, &mut lcr);
     }
 
-    self.apply_bidirectional_links(&lcr);
+    self.apply_bidirectional_links(&mut lcr);
     lcr
   }
 
@@ -654,8 +654,11 @@ where
     }
   }
 
-  fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in lcr.removes() {
+  fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    let removes = Vec::from_iter(lcr.removes().copied());
+    let adds = Vec::from_iter(lcr.adds().copied());
+
+    for (x, y, l) in removes {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -670,11 +673,12 @@ where
         }
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
+          lcr.remove_link(y, x, link);
         }
       }
     }
 
-    for &(x, y, l) in lcr.adds() {
+    for (x, y, l) in adds {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -697,6 +701,7 @@ where
         let link = bds.first().unwrap();
         if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
           self.add_back_link(y, x, NodeT::to_source_enum(*link));
+          lcr.add_link(y, x, *link);
         }
       }
     }
@@ -776,7 +781,7 @@ where
     let mut lcr = LinkChangeRecorder::default();
     let mut graph = Self::new(ctx);
     graph.merge_nodes(arena, &mut lcr);
-    graph.apply_bidirectional_links(&lcr);
+    graph.apply_bidirectional_links(&mut lcr);
     graph
   }
 }
-- 
2.43.0


From 683f696d718ea5cbed3bea097ee9478f64ee26ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:40 +0000
Subject: [PATCH 11/14] fix: commit_checked skips changed nodes and removed
 links, and panics when a changed node is removed

---
 src/typed_graph.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index e1dc7ef..e321b13 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -545,6 +545,7 @@ where
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
       self.add_back_links(x, n);
+      lcr.change_node(x);
       for (y, s) in n.iter_sources() {
         lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
       }
@@ -574,6 +575,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
+    lcr.change_node(x);
     self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
@@ -591,6 +593,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
+    lcr.change_node(x);
     self.nodes.update_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
@@ -745,13 +748,10 @@ where
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
-    let mut changed_nodes = OrderSet::new();
-    for (x, _, _) in lcr.adds().chain(lcr.removes()) {
-      changed_nodes.insert(*x);
-    }
     for (name, check_func) in &checks.node_checks {
-      for x in &changed_nodes {
-        if check_func(*x, self.get(*x).unwrap()).is_err() {
+      for x in &lcr.nodes {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, node).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -759,15 +759,17 @@ where
     }
     for (name, check_func) in &checks.link_add_checks {
       for (x, y, _) in lcr.adds() {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in lcr.adds() {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+      for (x, y, _) in lcr.removes() {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -787,11 +789,18 @@ where
 }
 
 struct LinkChangeRecorder<NodeT: NodeEnum> {
+  /// The nodes that are inserted or changed
+  nodes: OrderSet<NodeIndex>,
   /// How often a link is added (positive) or removed (negative), a Vec may hold the same link several times
   changes: OrderMap<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum), isize>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
+  fn change_node(&mut self, x: NodeIndex) {
+    self.nodes.insert(x);
+  }
+
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
+    self.change_node(x);
     if y.is_empty() {
       return;
     }
@@ -799,6 +808,7 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
   }
 
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
+    self.change_node(x);
     if y.is_empty() {
       return;
     }
@@ -815,7 +825,10 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
-    LinkChangeRecorder { changes: OrderMap::default() }
+    LinkChangeRecorder {
+      nodes: OrderSet::default(),
+      changes: OrderMap::default(),
+    }
   }
 }
 
-- 
2.43.0


From 5115e1a82f2296236fc3874e481572270d158714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 12/14] fix: a link with several group attributes shifts the
 groups of the links after it

---
 ttgraph_macros/src/lib.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d769a0c..6baf3dc 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -218,10 +218,9 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         data.push((ident.clone(), p.clone()));
       }
     }
-    let mut have_group = false;
+    let mut cur_group = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
-        let mut cur_group = Vec::new();
         if let Err(err) = attr.parse_nested_meta(|meta| {
           if let Some(ident) = meta.path.get_ident() {
             cur_group.push(ident.clone());
@@ -234,18 +233,16 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         }
         if !is_link {
           emit_error!(attr, "Can not group a non-link field!");
-        } else {
-          for g in &cur_group {
-            group_map.entry(g.clone()).or_default().push(ident.clone());
-          }
-          groups.push(cur_group);
         }
-        have_group = true;
       }
     }
 
-    if !have_group && is_link {
-      groups.push(Vec::new());
+    // One entry for each link, however many group attributes it has
+    if is_link {
+      for g in &cur_group {
+        group_map.entry(g.clone()).or_default().push(ident.clone());
+      }
+      groups.push(cur_group);
     }
   }
   if links.is_empty() {
-- 
2.43.0


From f9b7864b8f305c9fb70b4fcb9bdabddd68a5016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:09 +0000
Subject: [PATCH 13/14] fix: data fields of tuple, array or reference type are
 not reflected

---
 ttgraph_macros/src/lib.rs        | 5 +++--
 ttgraph_macros/src/typed_node.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index 6baf3dc..8e4efc4 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -214,10 +214,11 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
       } else if vec_paths.contains(p) {
         links.push(LinkType::Vec(ident.clone(), upper_camel(&ident)));
         is_link = true;
-      } else {
-        data.push((ident.clone(), p.clone()));
       }
     }
+    if !is_link {
+      data.push((ident.clone(), f.ty.clone()));
+    }
     let mut cur_group = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 3311457..aa008e4 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use syn::{Generics, Ident, TypePath};
+use syn::{Generics, Ident, Type};
 
 use std::collections::BTreeMap;
 
@@ -154,7 +154,7 @@ pub(crate) fn make_log_mirror(
 }
 
 pub(crate) fn make_typed_node(
-  links: &[LinkType], data: &[(Ident, TypePath)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
+  links: &[LinkType], data: &[(Ident, Type)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
   name: &Ident, generics: &Generics, gen_mod: &Ident, source_enum: &Ident, link_mirror: &Ident, log_mirror: &Ident,
 ) -> TokenStream {
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From 9242e0c72d2e85c4071f793daa8649dd231d2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:50 +0000
Subject: [PATCH 14/14] fix: enforce every link type declared for a link

---
 ttgraph_macros/src/link_check.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index 8befbdb..e1c76b2 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -85,7 +85,8 @@ pub(crate) fn make_check_link_type(
   }
   for (var, ty) in vars {
     if let Some(vs) = anno_map.get(var) {
-      let mut link_arms = Vec::new();
+      // A link may be declared several times, directly and through node groups: all declarations apply
+      let mut link_map: BTreeMap<&Ident, Vec<TokenStream>> = BTreeMap::new();
       for (link, var2) in vs {
         let mut var2_arms = Vec::new();
         let mut expect = Vec::new();
@@ -94,14 +95,23 @@ pub(crate) fn make_check_link_type(
           expect.push(quote! {Self::Discriminant::#v2});
         }
 
-        link_arms.push(quote! {
-          <#ty as TypedNode>::LoGMirror::#link => match target {
-            #(#var2_arms)|* => Ok(()),
-            other => Err(ttgraph::LinkTypeError{
+        link_map.entry(link).or_default().push(quote! {
+          match target {
+            #(#var2_arms)|* => {},
+            other => return Err(ttgraph::LinkTypeError{
               link,
               expect: &[#(#expect),*],
               found: other,
             }),
+          }
+        })
+      }
+      let mut link_arms = Vec::new();
+      for (link, checks) in link_map {
+        link_arms.push(quote! {
+          <#ty as TypedNode>::LoGMirror::#link => {
+            #(#checks)*
+            Ok(())
           },
         })
       }
-- 
2.43.0

