From 62981d3ffe4c89434d86c00bc4d8cf28d801d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:18 +0000
Subject: [PATCH 01/32] fix: report the unknown second port in
 PortGraph::link_ports

---
 src/portgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 65e8e0f..1336039 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -763,7 +763,7 @@ impl<PO: Unsigned> LinkMut for PortGraph<u32, u32, PO> {
         };
 
         let Some(meta_b) = self.port_meta_valid(port_b) else {
-            return Err(LinkError::UnknownPort { port: port_a });
+            return Err(LinkError::UnknownPort { port: port_b });
         };
 
         if meta_a.direction() == meta_b.direction() {
-- 
2.43.0


From 07142932317ff7c564778d504b860abc7e1dcdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:18 +0000
Subject: [PATCH 02/32] fix: keep the free node list intact in
 PortGraph::swap_nodes

---
 src/portgraph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 1336039..a89e456 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -616,6 +616,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
         let meta_a = self.node_meta[a.index()];
         let meta_b = self.node_meta[b.index()];
+        if let (NodeEntry::Free(_), NodeEntry::Free(_)) = (meta_a, meta_b) {
+            // Moving the entries would break the links of the free list.
+            return;
+        }
         self.node_meta.swap(a.index(), b.index());
         // Update the node indices in the ports metadata.
         let mut update_ports = |new_node: NodeIndex, entry: NodeEntry| {
@@ -635,6 +639,9 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         let mut update_free_list = |new_node: NodeIndex, entry: FreeNodeEntry| {
             if let Some(prev) = entry.prev.to_option() {
                 self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into();
+            } else {
+                // The entry is the head of the free list.
+                self.node_free = new_node.into();
             }
             if let Some(next) = entry.next.to_option() {
                 self.node_meta[next.index()].free_entry_mut().unwrap().prev = new_node.into();
-- 
2.43.0


From d8d96c793f4bcaf0274bb90f8805e43f672ff734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:42 +0000
Subject: [PATCH 03/32] fix: free the port slab when PortGraph::set_num_ports
 removes all ports

---
 src/portgraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index a89e456..719f339 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -558,7 +558,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // old slab.
         //
         // TODO: Fine-tune overallocation factor
-        let target_capacity = new_total.next_power_of_two();
+        let target_capacity = match new_total {
+            0 => 0,
+            _ => new_total.next_power_of_two(),
+        };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
         // Move the port data.
-- 
2.43.0


From 1194a8ec664bd567d98efe4188abd4ec4047ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:15 +0000
Subject: [PATCH 04/32] fix: check the port count limits before modifying the
 graph

---
 src/portgraph.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 719f339..70c3fdd 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -459,6 +459,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
             outgoing <= PortOffset::<PO>::max_offset(),
             "Outgoing port count exceeds maximum."
         );
+        assert!(
+            incoming <= NodeMeta::MAX_INCOMING && incoming + outgoing <= NodeMeta::MAX_CAPACITY,
+            "Total port count exceeds maximum."
+        );
 
         let node = self.alloc_node();
         let node_meta = self.alloc_ports(node, incoming, outgoing, 0);
@@ -517,15 +521,19 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         F: FnMut(PortIndex, PortOperation),
     {
         assert!(
-            incoming <= NodeMeta::MAX_INCOMING,
+            incoming <= PortOffset::<PO>::max_offset().min(NodeMeta::MAX_INCOMING),
             "Incoming port count exceeds maximum."
         );
         assert!(
-            outgoing <= NodeMeta::MAX_OUTGOING,
+            outgoing <= PortOffset::<PO>::max_offset().min(NodeMeta::MAX_OUTGOING),
             "Outgoing port count exceeds maximum."
         );
 
         let new_total = incoming + outgoing;
+        assert!(
+            new_total <= NodeMeta::MAX_CAPACITY,
+            "Total port count exceeds maximum."
+        );
 
         let Some(node_meta) = self.node_meta_valid(node) else {
             return;
@@ -560,7 +568,8 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // TODO: Fine-tune overallocation factor
         let target_capacity = match new_total {
             0 => 0,
-            _ => new_total.next_power_of_two(),
+            // The capacity must be representable in the node metadata.
+            _ => new_total.next_power_of_two().min(NodeMeta::MAX_CAPACITY),
         };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
@@ -834,6 +843,8 @@ impl NodeMeta {
     const MAX_INCOMING: usize = u16::MAX as usize - 1;
     /// The maximum number of outgoing ports for a node.
     const MAX_OUTGOING: usize = u16::MAX as usize;
+    /// The maximum number of ports that can be allocated to a node.
+    const MAX_CAPACITY: usize = u16::MAX as usize;
 
     #[inline]
     pub fn new(first_port: PortIndex, incoming: u16, outgoing: u16, capacity: u16) -> Self {
-- 
2.43.0


From 3aa8a4715204715af310002f63d731a3f46f3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 05/32] fix: clear the multiport flag of ports removed by
 MultiPortGraph::set_num_ports

---
 src/multiportgraph.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index f6e8468..c2a4d81 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -227,7 +227,9 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
             match op {
                 PortOperation::Removed { old_link } => {
                     if *self.multiport.get(port) {
-                        dropped_ports.push((port, old_link.expect("Multiport node has no link")));
+                        // Clear the flag now, before another port is moved to this index.
+                        self.multiport.set(port, false);
+                        dropped_ports.push(old_link.expect("Multiport node has no link"));
                     }
                 }
                 PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
@@ -236,8 +238,8 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
         };
         self.graph
             .set_num_ports(node, incoming, outgoing, rekey_wrapper);
-        for (port, old_link) in dropped_ports {
-            self.remove_copy_node(port, old_link);
+        for old_link in dropped_ports {
+            self.remove_copy_node(old_link);
         }
     }
 
@@ -318,7 +320,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
                 .graph
                 .port_link(port)
                 .expect("MultiPortGraph error: a port marked as multiport has no link.");
-            self.remove_copy_node(port, link)
+            self.multiport.set(port, false);
+            self.remove_copy_node(link)
         } else {
             self.graph.unlink_port(port).map(SubportIndex::new_unique)
         }
@@ -372,11 +375,9 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
     /// Remove an internal copy node.
     ///
     /// Returns one of the links, if the node was connected
-    fn remove_copy_node(
-        &mut self,
-        main_node_port: PortIndex,
-        copy_port: PortIndex,
-    ) -> Option<SubportIndex> {
+    ///
+    /// The multiport flag of the main node port must have been unset already.
+    fn remove_copy_node(&mut self, copy_port: PortIndex) -> Option<SubportIndex> {
         let copy_node = self.graph.port_node(copy_port).unwrap();
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
@@ -386,7 +387,6 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
         self.multiport.set(copy_port, false);
-        self.multiport.set(main_node_port, false);
         self.copy_node.set(copy_node, false);
         self.graph.remove_node(copy_node);
         self.copy_node_count -= 1;
-- 
2.43.0


From 386865c8541c90980434c857d473902c9a999885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 06/32] fix: return the linked subport from
 MultiPortGraph::unlink_port

---
 src/multiportgraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index c2a4d81..0a99e1d 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -382,8 +382,8 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
-        let link = self.graph.links(copy_node, dir).next();
-        let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
+        let link = self.graph.links(copy_node, dir.reverse()).next();
+        let link = link.and_then(|(_, tgt)| self.get_subport_from_index(tgt));
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
         self.multiport.set(copy_port, false);
-- 
2.43.0


From f583b0acaac7f999b74f86f7557ac4575ab75d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 07/32] fix: do not allocate subports in failed calls to
 MultiPortGraph::link_ports

---
 src/multiportgraph.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 0a99e1d..53034f0 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -308,6 +308,22 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
         port_a: PortIndex,
         port_b: PortIndex,
     ) -> Result<(SubportIndex, SubportIndex), LinkError<PO>> {
+        // Check the ports before allocating any copy node or subport.
+        let Some(dir) = self.graph.port_direction(port_a) else {
+            return Err(LinkError::UnknownPort { port: port_a });
+        };
+        match self.graph.port_direction(port_b) {
+            None => return Err(LinkError::UnknownPort { port: port_b }),
+            Some(dir_b) if dir_b == dir => {
+                return Err(LinkError::IncompatibleDirections {
+                    port_a,
+                    port_b,
+                    dir,
+                })
+            }
+            Some(_) => {}
+        }
+
         let (multiport_a, index_a) = self.get_free_multiport(port_a)?;
         let (multiport_b, index_b) = self.get_free_multiport(port_b)?;
         self.graph.link_ports(index_a, index_b)?;
-- 
2.43.0


From 23adb54e4b9ea1cfcdf97e099c2454f5147c2b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 08/32] fix: do not return copy node ports from
 MultiPortGraph::unlink_port

---
 src/multiportgraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 53034f0..97a000b 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -339,7 +339,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
             self.multiport.set(port, false);
             self.remove_copy_node(link)
         } else {
-            self.graph.unlink_port(port).map(SubportIndex::new_unique)
+            let link = self.graph.unlink_port(port)?;
+            self.get_subport_from_index(link)
         }
     }
 }
-- 
2.43.0


From 4b1c90a3f393dcde33ca9722f041c6f552ff4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 09/32] fix: do not let a childless node be attached to itself
 in Hierarchy

---
 src/hierarchy.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 333ef9b..ea669dc 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -273,10 +273,11 @@ impl Hierarchy {
 
     /// Ensures that making `node` a child of `parent` would not introduce a cycle.
     fn cycle_check(&self, node: NodeIndex, mut parent: NodeIndex) -> bool {
-        // When `node` does not have any children it can't contain `parent`.
+        // When `node` does not have any children it can't contain `parent`,
+        // unless they are the same node.
         if self.get(node).children[0].is_none() {
             debug_assert!(self.get(node).children[1].is_none());
-            return true;
+            return node != parent;
         }
 
         loop {
-- 
2.43.0


From 79539759588975ee562a06b0583c66dbfcd1b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 10/32] fix: let Hierarchy::rekey keep a node in its place

---
 src/hierarchy.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index ea669dc..308e2e1 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -469,12 +469,12 @@ impl Hierarchy {
     ///
     /// Panics if the index `new` is not a root without any children.
     pub fn rekey(&mut self, old: NodeIndex, new: NodeIndex) {
-        if self.get(new) != &NodeData::default() {
-            panic!("can not rekey into an occupied slot");
-        }
         if old == new {
             return;
         }
+        if self.get(new) != &NodeData::default() {
+            panic!("can not rekey into an occupied slot");
+        }
         let node_data = mem::take(self.get_mut(old));
 
         self.rekey_in_children(node_data, new);
-- 
2.43.0


From 264436eab7a41aca568cf47928c2f977685ca869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 11/32] fix: report FlatRegions without nodes as empty

---
 src/view/flat_region.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index b21f62e..98efa7f 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -129,8 +129,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        // The region root is always present
-        false
+        self.node_count() == 0
     }
 
     #[inline]
-- 
2.43.0


From 736867bd18f1dd63fab3b3373e026f935f2e0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 12/32] fix: count each link once in FilteredGraph::link_count

---
 src/view/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index a5d4384..31aafb2 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -225,7 +225,7 @@ where
 
     fn link_count(&self) -> usize {
         self.nodes_iter()
-            .flat_map(|node| self.all_links(node))
+            .flat_map(|node| self.links(node, Direction::Outgoing))
             .count()
     }
 }
-- 
2.43.0


From f25b5121272b7f84316e9b1982e3508a205e14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 13/32] fix: hide the links of filtered nodes in
 FilteredGraph::subport_link

---
 src/view/filter.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index 31aafb2..9560d12 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -251,13 +251,7 @@ where
     }
 
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
-        if !(self.link_filter)(subport.into(), &self.context) {
-            return None;
-        }
         let to = self.graph.subport_link(subport)?;
-        if !(self.link_filter)(to.into(), &self.context) {
-            return None;
-        }
-        Some(to)
+        self.link_filter(&(subport, to)).then_some(to)
     }
 }
-- 
2.43.0


From 6e9f430c3f2e337f35ec9fa16e7e77a6e8b69657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 14/32] fix: keep the root in the cache of cloned Regions

---
 src/view/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view/region.rs b/src/view/region.rs
index bba40ba..209f54f 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -128,10 +128,10 @@ impl<G: PartialEq> PartialEq for Region<'_, G> {
 impl<G: Clone> Clone for Region<'_, G> {
     fn clone(&self) -> Self {
         // Clone the cache if it is not currently locked.
-        // Otherwise, create a new empty cache.
+        // Otherwise, create a new cache containing only the root.
         let is_descendant = match self.is_descendant.try_read() {
             Ok(cache) => cache.clone(),
-            Err(_) => HashMap::new(),
+            Err(_) => HashMap::from([(self.region_root, false)]),
         };
         Self {
             graph: self.graph.clone(),
-- 
2.43.0


From 02e74b215c7c10b7f51e42b797729ea3e7840493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:55 +0000
Subject: [PATCH 15/32] fix: respect the map's default value in
 UnmanagedDenseMap::rekey

---
 src/unmanaged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 23aeb87..3838784 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -164,7 +164,8 @@ where
         V: Default,
     {
         if old.into() < self.data.len() {
-            let val = mem::take(self.get_mut(old));
+            let default = self.default.clone();
+            let val = mem::replace(self.get_mut(old), default);
             let Some(new) = new else { return };
             if new.into() >= self.data.len() {
                 self.resize_for_get_mut(new.into() + 1);
@@ -173,7 +174,7 @@ where
         } else {
             let Some(new) = new else { return };
             if new.into() < self.data.len() {
-                self.data[new.into()] = Default::default();
+                self.data[new.into()] = self.default.clone();
             }
         }
     }
-- 
2.43.0


From 5ff43bd075f36febeca02fe6330349af2d7d714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 16/32] fix: do not alias values in
 UnmanagedDenseMap::get_disjoint_mut

---
 src/unmanaged.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 3838784..393217a 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -235,11 +235,13 @@ where
         // applicable here since we do not have the extra tagging bit available.
         let data = self.data.as_mut_ptr();
         for (i, key) in keys.iter().enumerate() {
-            if keys[(i + 1)..].iter().any(|other| key == other) {
+            let offset: usize = (*key).into();
+            // Compare the indices rather than the keys, as different keys may
+            // refer to the same index.
+            if keys[(i + 1)..].iter().any(|&other| other.into() == offset) {
                 return None;
             }
 
-            let offset = (*key).into();
             if offset >= self.data.len() {
                 return None;
             }
-- 
2.43.0


From e7985016a84796541e16cac3860d173a1f76f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:26 +0000
Subject: [PATCH 17/32] fix: reserve the requested capacity in
 SecondaryMap::ensure_capacity

---
 src/secondary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secondary.rs b/src/secondary.rs
index 1de9404..4165e53 100644
--- a/src/secondary.rs
+++ b/src/secondary.rs
@@ -115,7 +115,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        BitVec::reserve(self, capacity.saturating_sub(self.capacity()));
+        BitVec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
@@ -268,7 +268,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        HashSet::reserve(self, capacity.saturating_sub(self.capacity()));
+        HashSet::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
-- 
2.43.0


From ef569734ec3513fea0369654b5ca38d2de86a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 18/32] fix: reject indices that are too large for their index
 type

---
 src/index.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/index.rs b/src/index.rs
index ff3d9fc..71226e2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -458,6 +458,7 @@ impl<U: Unsigned> BitField<U> {
     /// Create a new bit field with the given index and bit flag.
     #[inline(always)]
     fn new(index: usize, bit_flag: bool) -> Self {
+        assert!(index <= Self::max_index(), "index too large");
         let u = U::from_usize(index).expect("index too large");
         let ret = Self(u);
         if bit_flag {
-- 
2.43.0


From 8ca8ac79ebaf3d313da1b338a3e7c14d12ba01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:41 +0000
Subject: [PATCH 19/32] fix: check for cycles in the direction of the link in
 DynamicTopoConvexChecker

---
 src/algorithms/dynamic.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 052c3a7..d112a3f 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -397,15 +397,21 @@ impl<G: LinkMut> LinkMut for DynamicTopoConvexChecker<G> {
             .graph
             .port_node(to)
             .ok_or(LinkError::UnknownPort { port: to })?;
+        // The ports may be given in any order, but the edge always goes from the
+        // outgoing port to the incoming one.
+        let (source_node, target_node) = match self.graph.port_direction(from) {
+            Some(Direction::Incoming) => (to_node, from_node),
+            _ => (from_node, to_node),
+        };
         if self
             .topo_sort
-            .would_create_cycle(to_node, from_node, &self.graph)
+            .would_create_cycle(source_node, target_node, &self.graph)
         {
             panic!("Adding this edge would create a cycle");
         }
         let result = self.graph.link_ports(from, to)?;
         self.topo_sort
-            .connect_nodes(from_node, to_node, &self.graph)
+            .connect_nodes(source_node, target_node, &self.graph)
             .map_err(|e| match e {
                 DynamicTopoSortError::InvalidNode { .. } => LinkError::UnknownPort { port: from },
                 DynamicTopoSortError::WouldCreateCycle { .. } => {
-- 
2.43.0


From 1dfaf98d15cd4ea195d2e37020dc74bb03ff10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:44 +0000
Subject: [PATCH 20/32] fix: only permute the affected nodes when updating a
 DynamicTopoSort

---
 src/algorithms/dynamic.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index d112a3f..b6ca497 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -151,13 +151,18 @@ impl DynamicTopoSort {
         }
         let lb = to_pos;
         let ub = from_pos;
-        let delta_f = self.cone(to, ub, graph, Direction::Outgoing);
-        let delta_b = self.cone(from, lb, graph, Direction::Incoming);
-        let mut new_pos = to_pos;
-        for w in delta_b.into_iter().chain(delta_f) {
+        let mut delta_f = self.cone(to, ub, graph, Direction::Outgoing);
+        let mut delta_b = self.cone(from, lb, graph, Direction::Incoming);
+        // Keep the relative order of the nodes in each cone, and reuse the
+        // positions that were occupied by them.
+        delta_f.sort_by_key(|w| self.node_to_pos[w]);
+        delta_b.sort_by_key(|w| self.node_to_pos[w]);
+        let affected: Vec<NodeIndex> = delta_b.into_iter().chain(delta_f).collect();
+        let mut positions: Vec<usize> = affected.iter().map(|w| self.node_to_pos[w]).collect();
+        positions.sort_unstable();
+        for (w, new_pos) in affected.into_iter().zip(positions) {
             self.order[new_pos] = w;
             self.node_to_pos.insert(w, new_pos);
-            new_pos += 1;
         }
     }
 
-- 
2.43.0


From 491548d1344e909444d84bef0ae29101f4f3f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:38 +0000
Subject: [PATCH 21/32] fix: mirror all node changes in
 DynamicTopoConvexChecker's order

---
 src/algorithms/dynamic.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index b6ca497..682fbba 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -102,6 +102,20 @@ impl DynamicTopoSort {
         }
     }
 
+    /// Swaps the indices of two nodes in the topological order.
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        let pos_a = self.node_to_pos.remove(&a);
+        let pos_b = self.node_to_pos.remove(&b);
+        if let Some(pos) = pos_a {
+            self.order[pos] = b;
+            self.node_to_pos.insert(b, pos);
+        }
+        if let Some(pos) = pos_b {
+            self.order[pos] = a;
+            self.node_to_pos.insert(a, pos);
+        }
+    }
+
     /// Removes an edge and updates the topological order if necessary.
     pub fn disconnect_nodes<G: LinkView>(
         &mut self,
@@ -371,16 +385,32 @@ impl<G: PortMut> PortMut for DynamicTopoConvexChecker<G> {
 
     fn remove_node(&mut self, node: NodeIndex) {
         self.graph.remove_node(node);
-        self.topo_sort.remove_node(node).expect("Node not found");
+        // Nodes that are not in the order can be ignored.
+        let _ = self.topo_sort.remove_node(node);
+    }
+
+    fn clear(&mut self) {
+        self.graph.clear();
+        self.topo_sort = DynamicTopoSort::default();
+    }
+
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        self.graph.swap_nodes(a, b);
+        self.topo_sort.swap_nodes(a, b);
+    }
+
+    fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, mut rekey: F) {
+        let topo_sort = &mut self.topo_sort;
+        self.graph.compact_nodes(|old, new| {
+            topo_sort.swap_nodes(old, new);
+            rekey(old, new);
+        });
     }
 
     delegate! {
         to self.graph {
-            fn clear(&mut self);
             fn reserve(&mut self, nodes: usize, ports: usize);
             fn set_num_ports<F: FnMut(PortIndex, crate::portgraph::PortOperation)>(&mut self, node: NodeIndex, inputs: usize, outputs: usize, rekey: F);
-            fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex);
-            fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, rekey: F);
             fn compact_ports<F: FnMut(PortIndex, PortIndex)>(&mut self, rekey: F);
             fn shrink_to_fit(&mut self);
         }
-- 
2.43.0


From 1476cb98a0c1f05286f685f575fba567fe277ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:27 +0000
Subject: [PATCH 22/32] fix: only report paths that return to the subgraph as
 non-convex

---
 src/algorithms/dynamic.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 682fbba..e010cc3 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -246,19 +246,20 @@ impl DynamicTopoSort {
     ) -> bool {
         let mut visited = HashSet::new();
         let mut queue = VecDeque::new();
-        queue.push_back(start);
-        while let Some(node) = queue.pop_front() {
-            if !nodes.contains(&node) && node != start {
-                return true;
-            }
+        queue.push_back((start, false));
+        while let Some((node, has_exited)) = queue.pop_front() {
             if node == end {
+                if has_exited {
+                    return true;
+                }
                 continue;
             }
-            if visited.insert(node) {
+            let has_exited = has_exited || (!nodes.contains(&node) && node != start);
+            if visited.insert((node, has_exited)) {
                 for n in graph.output_neighbours(node) {
                     let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
                     if n_pos >= min_pos && n_pos <= max_pos {
-                        queue.push_back(n);
+                        queue.push_back((n, has_exited));
                     }
                 }
             }
-- 
2.43.0


From 6032acd5057a785edae53c90f178a490eca5e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 23/32] fix: return an upper bound of the node indices in
 petgraph's node_bound

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 000c18c..356be8f 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -76,7 +76,7 @@ macro_rules! impl_petgraph_traits {
 
         impl<$($args)*> petgraph::visit::NodeIndexable for $graph where $($where)* {
             fn node_bound(&self) -> usize {
-                PortView::node_count(self)
+                self.nodes_iter().map(|n| n.index() + 1).max().unwrap_or(0)
             }
 
             fn to_index(&self, ix: Self::NodeId) -> usize {
-- 
2.43.0


From e06ec5acb94aa813cfce109215ff7635582cfe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 24/32] fix: report first visits in petgraph's VisitMap for
 BitVec

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 356be8f..3fb8da1 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -311,7 +311,7 @@ impl petgraph::visit::VisitMap<NodeIndex> for BitVec {
     fn visit(&mut self, a: NodeIndex) -> bool {
         let is_visited = self.is_visited(&a);
         <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
-        is_visited
+        !is_visited
     }
 
     fn is_visited(&self, a: &NodeIndex) -> bool {
-- 
2.43.0


From cc88fa29ec0600736cbbe0b003e5aa62136860a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:19 +0000
Subject: [PATCH 25/32] fix: size petgraph's adjacency matrix by the node
 indices

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 3fb8da1..27e47f6 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -190,7 +190,7 @@ macro_rules! impl_visit_dense {
             type AdjMatrix = (bitvec::vec::BitVec, usize);
 
             fn adjacency_matrix(&self) -> Self::AdjMatrix {
-                let row_size = self.node_capacity();
+                let row_size = petgraph::visit::NodeIndexable::node_bound(self);
                 let mut matrix = bitvec::bitvec![0; row_size * row_size];
                 for node in self.nodes_iter() {
                     for neighbour in self.output_neighbours(node) {
-- 
2.43.0


From 3d5577316f43dc217d491dcb81c82e7d818ad0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:19 +0000
Subject: [PATCH 26/32] fix: visit each link once in petgraph's edge references

---
 src/view/petgraph.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 27e47f6..42d7b79 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -9,7 +9,7 @@ use crate::view::filter::{LinkFilter, NodeFilter};
 use crate::view::flat_region::FlatRegion;
 use crate::view::region::Region;
 use crate::view::subgraph::Subgraph;
-use crate::{LinkView, NodeIndex, PortGraph, PortIndex, PortView, SecondaryMap};
+use crate::{Direction, LinkView, NodeIndex, PortGraph, PortIndex, PortView, SecondaryMap};
 
 use super::FilteredGraph;
 
@@ -380,7 +380,12 @@ where
     pub fn new(graph: &'g G) -> Self {
         Self {
             graph,
-            ports: Box::new(graph.ports_iter()),
+            // Visit each link once, from its source.
+            ports: Box::new(
+                graph
+                    .ports_iter()
+                    .filter(|&port| graph.port_direction(port) == Some(Direction::Outgoing)),
+            ),
             links: None,
             count: graph.link_count(),
         }
@@ -396,6 +401,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         loop {
             if let Some((from, to)) = self.links.as_mut().and_then(|links| links.next()) {
+                self.count -= 1;
                 return Some(EdgeRef {
                     from_node: self.graph.port_node(from).unwrap(),
                     to_node: self.graph.port_node(to).unwrap(),
-- 
2.43.0


From b734e96c84fc45dd9841a80345cc93bc19d08cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:20 +0000
Subject: [PATCH 27/32] fix: report the edges of a node in the link direction
 to petgraph

---
 src/view/petgraph.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 42d7b79..e123f8d 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -449,19 +449,21 @@ impl<'g, G> NodeEdgeRefs<'g, G>
 where
     G: LinkView,
 {
-    /// Create a new iterator over the edges of a portgraph.
+    /// Create a new iterator over the edges starting at a node.
     pub fn new(graph: &'g G, node: NodeIndex) -> Self {
-        Self {
-            graph,
-            links: Box::new(graph.all_links(node)),
-        }
+        Self::new_directed(graph, node, Direction::Outgoing)
     }
 
-    /// Create a new iterator over the edges of a portgraph.
-    pub fn new_directed(graph: &'g G, node: NodeIndex, dir: crate::Direction) -> Self {
+    /// Create a new iterator over the edges starting or ending at a node.
+    pub fn new_directed(graph: &'g G, node: NodeIndex, dir: Direction) -> Self {
+        let links = graph.links(node, dir).map(move |(port, link)| match dir {
+            // Edges always go from the outgoing to the incoming port.
+            Direction::Incoming => (link, port),
+            Direction::Outgoing => (port, link),
+        });
         Self {
             graph,
-            links: Box::new(graph.links(node, dir)),
+            links: Box::new(links),
         }
     }
 }
-- 
2.43.0


From 95c067fd1ef8ddb99beeb6cfc75545b7c6119183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:12 +0000
Subject: [PATCH 28/32] fix: checking the empty subgraph with LineConvexChecker
 does not panic

---
 src/algorithms/convex/line_convex_checker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 04fb1f5..6aa7983 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -207,11 +207,14 @@ impl<G: LinkView> LineConvexChecker<G> {
     /// In other words, check if there is a path in `self.graph()` from an end
     /// of one interval to the start of another.
     pub fn is_convex_by_intervals(&self, intervals: &LineIntervals) -> bool {
-        let max_start_pos = intervals
+        let Some(max_start_pos) = intervals
             .values()
             .map(|LineInterval { min, .. }| min)
             .max()
-            .unwrap();
+        else {
+            // The empty subgraph is convex.
+            return true;
+        };
         let mut future_nodes = VecDeque::from_iter(intervals.iter().filter_map(
             |(line, LineInterval { max, .. })| {
                 let ind = self.find_index(line, max).expect("max not on line");
-- 
2.43.0


From 93149be80385ebd48e81a47f8ba2e6bb55186e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:14 +0000
Subject: [PATCH 29/32] fix: emit remaining mermaid edges in node order

Edges whose common ancestor is a leaf (self-links) stay in the edge map
until the end and were emitted in HashMap order, which changes from run
to run.
---
 src/render/mermaid.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 3c28503..3def293 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -1,6 +1,6 @@
 //! Functions to encode a `PortGraph` in mermaid format.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -113,10 +113,10 @@ where
 
         // Delay emitting edges until we are in a region that is the parent of both the source and target nodes.
         #[allow(clippy::type_complexity)]
-        let mut edges: HashMap<
+        let mut edges: BTreeMap<
             Option<NodeIndex>,
             Vec<(NodeIndex, G::LinkEndpoint, NodeIndex, G::LinkEndpoint)>,
-        > = HashMap::new();
+        > = BTreeMap::new();
 
         // An efficient structure for retrieving the lowest common ancestor of two nodes.
         let lca: Option<LCA> = self.forest.map(|f| lca(self.graph, f));
-- 
2.43.0


From 3d9ace6367bd2759f60df002babcf76a54ee2b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:14 +0000
Subject: [PATCH 30/32] fix: copy subgraphs in node order

copy_in_parent iterated over a HashMap: the subports given to copied
links, the boundary link an error reports and the free lists left by the
undo depended on the hasher's random state.
---
 src/view/subgraph.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/view/subgraph.rs b/src/view/subgraph.rs
index 44c099a..ee945de 100644
--- a/src/view/subgraph.rs
+++ b/src/view/subgraph.rs
@@ -360,7 +360,8 @@ impl<G: LinkMut> Subgraph<G> {
             .iter()
             .map(|node| (*node, g.add_node(g.num_inputs(*node), g.num_outputs(*node))))
             .collect::<HashMap<_, _>>();
-        for (node, new_node) in node_map.iter() {
+        for node in &self.nodes {
+            let new_node = &node_map[node];
             for (node_p, other_p) in self.graph.all_links(*node).collect::<Vec<_>>() {
                 let new_node_p = self
                     .graph
@@ -383,8 +384,8 @@ impl<G: LinkMut> Subgraph<G> {
                         match self.graph.link_ports(new_node_p, other_p.into()) {
                             Err(LinkError::AlreadyLinked { port }) => {
                                 // Must undo insertion
-                                for n in node_map.values() {
-                                    self.graph.remove_node(*n);
+                                for n in &self.nodes {
+                                    self.graph.remove_node(node_map[n]);
                                 }
                                 return Err(CopySubgraphError::CantCopyBoundary {
                                     external: port,
-- 
2.43.0


From 14c94087ae0cf31336cee6835d954518f89ead57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 31/32] fix: ignore unreachable predecessors when computing
 dominators

A predecessor that the traversal from the entry never reaches was looked
up as the node with post order index 0, giving wrong dominators.
---
 src/algorithms/dominators.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index 796609c..8e10f34 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -137,7 +137,8 @@ where
     ) -> Self {
         // We traverse the graph in post order starting at the `entry` node.
         // We associate each node that we encounter with its index within the traversal.
-        let mut node_to_index = UnmanagedDenseMap::with_capacity(graph.node_capacity());
+        let mut node_to_index =
+            UnmanagedDenseMap::with_capacity_and_default(graph.node_capacity(), usize::MAX);
         let mut index_to_node = Vec::with_capacity(graph.node_capacity());
 
         for (index, node) in postorder_filtered(
@@ -183,8 +184,8 @@ where
                             return None;
                         }
                         let pred_index = node_to_index[pred];
-                        if dominators[pred_index] == usize::MAX {
-                            // No dominator yet
+                        if pred_index == usize::MAX || dominators[pred_index] == usize::MAX {
+                            // Not reachable from the entry, or no dominator yet
                             return None;
                         }
                         Some(pred_index)
-- 
2.43.0


From ed9baf487917e02019aa9e3a31867685cda00729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 32/32] fix: check node convexity and boundary links in
 DynamicTopoConvexChecker

is_convex ignored the nodes of a subgraph with boundary ports: it searched
backwards from the outputs, and reported subgraphs like {a, b} of
a -> b, a -> c -> b as convex.
---
 src/algorithms/dynamic.rs | 103 +++++++++-----------------------------
 1 file changed, 24 insertions(+), 79 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index e010cc3..4ad8f9f 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -266,47 +266,6 @@ impl DynamicTopoSort {
         }
         false
     }
-
-    /// Checks if `start` can reach any input within position bounds, going outside `nodes`.
-    fn can_reach_inputs<G: LinkView + PortView>(
-        &self,
-        start: NodeIndex,
-        min_pos: usize,
-        max_pos: usize,
-        nodes: &HashSet<NodeIndex>,
-        inputs: &[PortIndex],
-        graph: &G,
-    ) -> bool {
-        let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back((start, false));
-        while let Some((node, has_exited)) = queue.pop_front() {
-            if visited.contains(&node) {
-                continue;
-            }
-            visited.insert(node);
-            let pos = *self.node_to_pos.get(&node).unwrap_or(&usize::MAX);
-            if pos < min_pos || pos > max_pos {
-                continue;
-            }
-            let is_outside = !nodes.contains(&node) && node != start;
-            let current_exited = has_exited || is_outside;
-            if current_exited {
-                for &input in inputs {
-                    if graph.port_node(input) == Some(node) {
-                        return true; // Reached an input via a path that exited the subgraph
-                    }
-                }
-            }
-            for n in graph.input_neighbours(node) {
-                let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                if n_pos >= min_pos && n_pos <= max_pos {
-                    queue.push_back((n, current_exited));
-                }
-            }
-        }
-        false
-    }
 }
 
 /// A dynamic topological convex checker for portgraphs.
@@ -495,8 +454,15 @@ where
         if nodes.len() < 2 {
             return true;
         }
-        let inputs: Vec<PortIndex> = inputs.into_iter().collect();
-        let outputs: Vec<PortIndex> = outputs.into_iter().collect();
+        // No edge may leave the subgraph through an output and return through an input.
+        let inputs: HashSet<PortIndex> = inputs.into_iter().collect();
+        for output in outputs {
+            if let Some(link) = self.graph.port_link(output) {
+                if inputs.contains(&link.into()) {
+                    return false;
+                }
+            }
+        }
         let mut min_pos = usize::MAX;
         let mut max_pos = 0;
 
@@ -509,44 +475,23 @@ where
             }
         }
 
-        if inputs.is_empty() && outputs.is_empty() {
-            for &start in &nodes {
-                for &end in &nodes {
-                    if start == end {
-                        continue;
-                    }
-                    let start_pos = *self.topo_sort.node_to_pos.get(&start).unwrap();
-                    let end_pos = *self.topo_sort.node_to_pos.get(&end).unwrap();
-                    if start_pos < end_pos
-                        && self.topo_sort.has_path_outside_subgraph(
-                            start,
-                            end,
-                            min_pos,
-                            max_pos,
-                            &nodes,
-                            &self.graph,
-                        )
-                    {
-                        return false;
-                    }
-                }
-            }
-            return true;
-        }
-
-        for &output in &outputs {
-            if let Some(output_node) = self.graph.port_node(output) {
-                if !nodes.contains(&output_node) {
+        for &start in &nodes {
+            for &end in &nodes {
+                if start == end {
                     continue;
                 }
-                if self.topo_sort.can_reach_inputs(
-                    output_node,
-                    min_pos,
-                    max_pos,
-                    &nodes,
-                    &inputs,
-                    &self.graph,
-                ) {
+                let start_pos = *self.topo_sort.node_to_pos.get(&start).unwrap();
+                let end_pos = *self.topo_sort.node_to_pos.get(&end).unwrap();
+                if start_pos < end_pos
+                    && self.topo_sort.has_path_outside_subgraph(
+                        start,
+                        end,
+                        min_pos,
+                        max_pos,
+                        &nodes,
+                        &self.graph,
+                    )
+                {
                     return false;
                 }
             }
-- 
2.43.0

