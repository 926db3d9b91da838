From 5c5213cf8f6d95960ff6ae24be0134f4021f6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:22 +0000
Subject: [PATCH 01/19] verif hook: name ExclusionProof from outside under
 cfg(verif_hooks)

---
 jmt/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jmt/src/lib.rs b/jmt/src/lib.rs
index a864c12..7a8004a 100644
--- a/jmt/src/lib.rs
+++ b/jmt/src/lib.rs
@@ -99,6 +99,8 @@ pub use iterator::JellyfishMerkleIterator;
 pub use sha2::Sha256;
 #[cfg(feature = "ics23")]
 pub use tree::ics23_impl::ics23_spec;
+#[cfg(verif_hooks)]
+pub use tree::ExclusionProof;
 pub use tree::{H256Jmt, JellyfishMerkleTree, Sha256Jmt};
 use types::nibble::ROOT_NIBBLE_HEIGHT;
 pub use types::proof;
-- 
2.43.0


From cd1adf9e0ac10a5c62deb6828cec4fc9b8194557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 02/19] fix: look up the neighbours of an exclusion proof at
 the version they were written at

---
 jmt/src/tree.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 728f87b..48b47ae 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -919,29 +919,31 @@ where
         to: NibblePath,
         parents: Vec<InternalNode>,
     ) -> Result<Option<KeyHash>> {
+        // The nibble of the neighbor, along with the version the neighbor was written at, which is
+        // not necessarily the version that is being searched.
         fn neighbor_nibble(
             node: &InternalNode,
             child_index: Nibble,
             extreme: Extreme,
-        ) -> Option<Nibble> {
+        ) -> Option<(Nibble, Version)> {
             match extreme {
                 // Rightmost left neighbor
                 Extreme::Left => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble < &child_index)
                     .max_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
                 // Leftmost right neighbor
                 Extreme::Right => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble > &child_index)
                     .min_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
             }
         }
 
         let mut parents = parents;
-        let mut neighbor: Option<Nibble> = None;
+        let mut neighbor: Option<(Nibble, Version)> = None;
         let mut path = to;
 
         while neighbor.is_none() {
@@ -956,13 +958,14 @@ where
                 continue;
             }
         }
-        path.push(neighbor.unwrap());
+        let (neighbor_nibble, neighbor_version) = neighbor.unwrap();
+        path.push(neighbor_nibble);
 
         // nibble path will represent the left nibble path. this is currently at
         // the parent of the leaf for `key`
         Ok(Some(self.get_extreme_key_hash(
             version,
-            NodeKey::new(version, path.clone()),
+            NodeKey::new(neighbor_version, path.clone()),
             path.num_nibbles(),
             extreme.opposite(),
         )?))
-- 
2.43.0


From 1b06149976f35f452a6a7a5f3f65a745ad4df851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 03/19] fix: give a version written over a missing root its own
 null root

---
 jmt/src/tree_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index b5bb97b..1e554f7 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -264,7 +264,10 @@ where
             // If the root node does not exist, then we need to set it to the null node and record
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
+            // key-value mapping in the tree. The null node is the root of the version being frozen,
+            // whichever version the missing root was looked up at.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From 5a7682e14849b775c922b6d04f7a41715c75f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 04/19] fix: reject a range proof with more than 256 siblings
 instead of underflowing

---
 jmt/src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 6f90e12..a14b086 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -269,6 +269,12 @@ impl SparseMerkleRangeProof {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From 9196c403acbe8398d6edfdda90dc5eba040df0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 05/19] fix: report an error instead of panicking when a
 restore is opened over a completed one

---
 jmt/src/restore.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 67b024a..044a6ae 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -249,6 +249,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The root node is already in storage, so the restoration has completed.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
-- 
2.43.0


From cd7fda465f13f43f62df85aeedea8589097c7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 06/19] fix: reject a chunk instead of panicking when it cannot
 continue a resumed restore

---
 jmt/src/restore.rs | 52 +++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 044a6ae..c66e74a 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -90,7 +90,7 @@ impl InternalInfo {
         mut self,
         version: Version,
         leaf_count_migration: bool,
-    ) -> (NodeKey, InternalNode) {
+    ) -> Result<(NodeKey, InternalNode)> {
         let mut children = Children::new();
 
         // Calling `into_iter` on an array is equivalent to calling `iter`:
@@ -101,10 +101,10 @@ impl InternalInfo {
             }
         }
 
-        (
+        Ok((
             self.node_key,
-            InternalNode::new_migration(children, leaf_count_migration),
-        )
+            InternalNode::new_impl(children, leaf_count_migration)?,
+        ))
     }
 }
 
@@ -327,9 +327,9 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
+            self.add_one(key, value_hash)?;
             self.frozen_nodes.insert_value(self.version, key, value);
 
-            self.add_one(key, value_hash);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -345,14 +345,19 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            // All partial nodes are visited when the key belongs to a subtree which was frozen before
+            // this restoration was resumed, to which no more keys can be added.
+            ensure!(
+                i < self.partial_nodes.len(),
+                "Account key belongs to a subtree which is already complete.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
@@ -372,14 +377,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -395,6 +400,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -407,7 +414,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -460,7 +467,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -477,12 +484,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
         self.freeze_previous_leaf();
-        self.freeze_internal_nodes(num_remaining_partial_nodes);
+        self.freeze_internal_nodes(num_remaining_partial_nodes)
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -516,12 +525,15 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Freeze extra internal nodes. Only `num_remaining_nodes` partial internal nodes will be kept
-    /// and the ones on the lower level will be frozen.
-    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) {
+    /// and the ones on the lower level will be frozen. Fails if one of these cannot be a node of the
+    /// tree, which means that the keys received are not the ones of the expected tree.
+    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) -> Result<()> {
         while self.partial_nodes.len() > num_remaining_nodes {
-            let last_node = self.partial_nodes.pop().expect("This node must exist.");
-            let (node_key, internal_node) =
-                last_node.into_internal_node(self.version, self.leaf_count_migration);
+            let last_node = self.partial_nodes.last().expect("This node must exist.");
+            let (node_key, internal_node) = last_node
+                .clone()
+                .into_internal_node(self.version, self.leaf_count_migration)?;
+            self.partial_nodes.pop();
             // Keep the hash of this node before moving it into `frozen_nodes`, so we can update
             // its parent later.
             let node_hash = internal_node.hash();
@@ -554,6 +566,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Verifies that all accounts that have been added so far (from the leftmost one to
@@ -698,7 +712,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             }
         }
 
-        self.freeze(0);
+        self.freeze(0)?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From 6ac6d21ed27af0d515380099c48bbd80afc1cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 07/19] fix: normalise a branch whose value is removed, and
 report whether there was one

---
 pmt/src/inner.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 9ddb1c4..ce12c1f 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -528,19 +528,19 @@ where
                 let borrow_branch = branch.borrow_mut();
 
                 if partial.at(0) == 0x10 {
-                    borrow_branch.value = None;
-                    return Ok((Node::Branch(branch.clone()), true));
-                }
+                    let deleted = borrow_branch.value.take().is_some();
+                    Ok((Node::Branch(branch.clone()), deleted))
+                } else {
+                    let index = partial.at(0);
+                    let child = &mut borrow_branch.children[index];
 
-                let index = partial.at(0);
-                let child = &mut borrow_branch.children[index];
+                    let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
+                    if deleted {
+                        *borrow_branch.children[index] = new_child;
+                    }
 
-                let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
-                if deleted {
-                    *borrow_branch.children[index] = new_child;
+                    Ok((Node::Branch(branch.clone()), deleted))
                 }
-
-                Ok((Node::Branch(branch.clone()), deleted))
             }
             Node::Extension(ext) => {
                 let borrow_ext = ext.borrow_mut();
-- 
2.43.0


From 69695432463c34c8d7ab918199808dd9ddaae7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 08/19] fix: keep the nodes an operation passes in storage
 unless it changed the trie

---
 pmt/src/inner.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ce12c1f..b50be2e 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -154,7 +154,9 @@ where
 
         let mut root = self.root.clone();
         let path = &Nibbles::from_raw(key, true);
+        let passed = std::mem::take(&mut self.passing_keys);
         let result = self.insert_at(&mut root, path, 0, value.to_vec());
+        self.keep_passing_keys(passed, result.is_ok());
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -180,7 +182,9 @@ where
     fn remove(&mut self, key: Key) -> Result<bool> {
         let path = &Nibbles::from_raw(key, true);
 
+        let passed = std::mem::take(&mut self.passing_keys);
         let result = self.delete_at(&mut self.root.clone(), path, 0);
+        self.keep_passing_keys(passed, matches!(result, Ok((_, true))));
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -198,7 +202,9 @@ where
         }
 
         let (n, removed) = result?;
-        self.root = n;
+        if removed {
+            self.root = n;
+        }
 
         Ok(removed)
     }
@@ -325,6 +331,15 @@ impl<D> InnerTrie<D>
 where
     D: Database,
 {
+    /// Adds the nodes passed by earlier operations to those passed by the last one, which are
+    /// forgotten if it did not change the trie as they are still part of it.
+    fn keep_passing_keys(&mut self, passed: HashSet<Vec<u8>>, changed: bool) {
+        let last = std::mem::replace(&mut self.passing_keys, passed);
+        if changed {
+            self.passing_keys.extend(last);
+        }
+    }
+
     fn get_at(
         &self,
         source_node: &Node,
-- 
2.43.0


From 0f5d6bd5bd999aa57248f759528505a2e779a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 09/19] fix: an empty nibble path is not a leaf path, instead
 of underflowing

---
 pmt/src/nibbles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index 20dff17..f7d966b 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -56,7 +56,7 @@ impl Nibbles {
     }
 
     pub fn is_leaf(&self) -> bool {
-        self.hex_data[self.hex_data.len() - 1] == 16
+        self.hex_data.last() == Some(&16)
     }
 
     pub fn encode_compact(&self) -> Vec<u8> {
-- 
2.43.0


From 1b7e8111dcae001d88f26ca432807a1c2819ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 10/19] fix: prove keys of a trie opened at a root instead of
 panicking

---
 pmt/src/inner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index b50be2e..bb516a4 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -245,7 +245,8 @@ where
 
         let mut path = result?;
         match self.root {
-            Node::Empty => {}
+            // a root that is known by its hash is on the path already
+            Node::Empty | Node::Hash(_) => {}
             _ => path.push(self.root.clone()),
         }
 
-- 
2.43.0


From 7fe9827b8ed5b35ea53f9e1fda187c55d3ec221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 11/19] fix: keep a small root that is written again in pruning
 storage

---
 pmt/src/inner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index bb516a4..ba71e0e 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -289,6 +289,7 @@ where
             EncodedNode::Inline(encoded) => {
                 let hash = keccak(&encoded);
                 self.cache.insert(hash.as_bytes().to_vec(), encoded);
+                self.gen_keys.insert(hash.as_bytes().to_vec());
                 hash
             }
         };
-- 
2.43.0


From fcc71bffc3bfb45590207a769289c8fb7ffcbdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 12/19] fix: report a root that is missing after its commit
 instead of panicking

---
 pmt/src/inner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ba71e0e..552b181 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -322,7 +322,12 @@ where
         self.passing_keys.clear();
         self.root = self
             .recover_from_db(root_hash)?
-            .expect("The root that was just created is missing");
+            .ok_or(TrieError::MissingTrieNode {
+                node_hash: root_hash,
+                traversed: None,
+                root_hash: Some(root_hash),
+                err_key: None,
+            })?;
 
         Ok(root_hash)
     }
-- 
2.43.0


From fd0b640bcedbdeed487b825ed4a06fa2f1493bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 13/19] fix: reject malformed node keys instead of panicking

---
 pmt/src/inner.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 552b181..6a85682 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -805,10 +805,19 @@ where
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
                 let key = r.at(0)?.data()?;
+                if !matches!(key.first(), Some(flag) if flag >> 4 <= 3) {
+                    return Err(TrieError::InvalidData(
+                        "a node's key is not in compact form".to_string(),
+                    ));
+                }
                 let key = Nibbles::from_compact(key);
 
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
+                } else if key.is_empty() {
+                    Err(TrieError::InvalidData(
+                        "an extension node has no prefix".to_string(),
+                    ))
                 } else {
                     let n = self.decode_node(r.at(1)?.as_raw())?;
 
-- 
2.43.0


From 099e3a1c6013edfe3faf20352f9482740312536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 14/19] fix: reject deeply nested or chained stored nodes
 instead of overflowing the stack

---
 pmt/src/inner.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 6a85682..18bac16 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -819,7 +819,7 @@ where
                         "an extension node has no prefix".to_string(),
                     ))
                 } else {
-                    let n = self.decode_node(r.at(1)?.as_raw())?;
+                    let n = self.decode_child(r.at(1)?)?;
 
                     Ok(Node::from_extension(key, n))
                 }
@@ -828,8 +828,7 @@ where
                 let mut nodes: [Box<Node>; 16] = Default::default();
                 #[allow(clippy::needless_range_loop)]
                 for i in 0..nodes.len() {
-                    let rlp_data = r.at(i)?;
-                    let n = self.decode_node(rlp_data.as_raw())?;
+                    let n = self.decode_child(r.at(i)?)?;
                     *nodes[i] = n;
                 }
 
@@ -856,13 +855,31 @@ where
         }
     }
 
+    /// Decodes a node embedded in another one, which is shorter than a hash. This bounds how deep
+    /// embedded nodes are nested.
+    fn decode_child(&self, r: Rlp) -> Result<Node> {
+        if r.is_list() && r.as_raw().len() >= HASHED_LENGTH {
+            return Err(TrieError::InvalidData(
+                "a node is embedded which is stored by its hash".to_string(),
+            ));
+        }
+        self.decode_node(r.as_raw())
+    }
+
     pub(crate) fn recover_from_db(&self, key: H256) -> Result<Option<Node>> {
         let node = match self
             .db
             .get(key.as_bytes())
             .map_err(|e| TrieError::Database(e.to_string()))?
         {
-            Some(value) => Some(self.decode_node(&value)?),
+            Some(value) => match self.decode_node(&value)? {
+                Node::Hash(_) => {
+                    return Err(TrieError::InvalidData(
+                        "a hash is stored in place of a node".to_string(),
+                    ))
+                }
+                node => Some(node),
+            },
             None => None,
         };
         Ok(node)
-- 
2.43.0


From 28ec42d944756651b76a41bcc3b1a0466794fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 15/19] fix: wait for a writer in MemoryDB's len, is_empty and
 values instead of panicking or listing nothing

---
 pmt/src/db.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pmt/src/db.rs b/pmt/src/db.rs
index 88171ed..e744add 100644
--- a/pmt/src/db.rs
+++ b/pmt/src/db.rs
@@ -110,20 +110,18 @@ impl Database for MemoryDB {
     }
 
     fn len(&self) -> Result<usize, Self::Error> {
-        Ok(self.storage.try_read().unwrap().len())
+        Ok(self.storage.read().len())
     }
 
     fn is_empty(&self) -> Result<bool, Self::Error> {
-        Ok(self.storage.try_read().unwrap().is_empty())
+        Ok(self.storage.read().is_empty())
     }
 
     fn values(&self) -> Result<Vec<(Vec<u8>, OwnedValue)>, Self::Error> {
         let mut values = Vec::new();
 
-        if let Some(handle) = self.storage.try_read() {
-            for (k, v) in handle.iter() {
-                values.push((k.clone(), v.clone()));
-            }
+        for (k, v) in self.storage.read().iter() {
+            values.push((k.clone(), v.clone()));
         }
 
         Ok(values)
-- 
2.43.0


From 1dbc75ac1ebcbe90ce3a06d3d4b0ddf7302bef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:30 +0000
Subject: [PATCH 16/19] fix: store the root of an unchanged version 0 on top of
 a pre-genesis root

---
 jmt/src/tree_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index 1e554f7..3b2d6f8 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -284,7 +284,8 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        // This holds for version 0 as well when it starts from a pre-genesis root.
+        if (self.next_version > 0 || root_node_key.version() == PRE_GENESIS_VERSION)
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-- 
2.43.0


From a564a63b89d9962506281f442bdc477253834528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:33 +0000
Subject: [PATCH 17/19] fix: do not read a list as a key or value

---
 pmt/src/inner.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 18bac16..51cb256 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -804,7 +804,7 @@ where
         match r.prototype()? {
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
-                let key = r.at(0)?.data()?;
+                let key = Self::decode_string(&r.at(0)?)?;
                 if !matches!(key.first(), Some(flag) if flag >> 4 <= 3) {
                     return Err(TrieError::InvalidData(
                         "a node's key is not in compact form".to_string(),
@@ -813,7 +813,8 @@ where
                 let key = Nibbles::from_compact(key);
 
                 if key.is_leaf() {
-                    Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
+                    let value = Self::decode_string(&r.at(1)?)?;
+                    Ok(Node::from_leaf(key, value.to_vec()))
                 } else if key.is_empty() {
                     Err(TrieError::InvalidData(
                         "an extension node has no prefix".to_string(),
@@ -837,7 +838,7 @@ where
                 let value = if value_rlp.is_empty() {
                     None
                 } else {
-                    Some(value_rlp.data()?.to_vec())
+                    Some(Self::decode_string(&value_rlp)?.to_vec())
                 };
 
                 Ok(Node::from_branch(nodes, value))
@@ -855,6 +856,16 @@ where
         }
     }
 
+    /// Decodes a key or a value. A list is neither.
+    fn decode_string<'a>(r: &Rlp<'a>) -> Result<&'a [u8]> {
+        if r.is_list() {
+            return Err(TrieError::InvalidData(
+                "a list is in place of a key or value".to_string(),
+            ));
+        }
+        Ok(r.data()?)
+    }
+
     /// Decodes a node embedded in another one, which is shorter than a hash. This bounds how deep
     /// embedded nodes are nested.
     fn decode_child(&self, r: Rlp) -> Result<Node> {
-- 
2.43.0


From 42bb41ca1fd9d66d8a6d3436dcf73af31ad446e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:33 +0000
Subject: [PATCH 18/19] fix: do not read a node which is cut off or followed by
 other bytes

---
 pmt/src/inner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 51cb256..a93ff31 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -800,6 +800,11 @@ where
 
     fn decode_node(&self, data: &[u8]) -> Result<Node> {
         let r = Rlp::new(data);
+        if r.payload_info()?.total() != data.len() {
+            return Err(TrieError::InvalidData(
+                "a node's length is not the one it states".to_string(),
+            ));
+        }
 
         match r.prototype()? {
             Prototype::Data(0) => Ok(Node::Empty),
-- 
2.43.0


From bd080e719a7f6e2dab8895877da779856a78e744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:22 +0000
Subject: [PATCH 19/19] fix: do not store what an uncommitted trie encodes for
 a proof

---
 pmt/src/inner.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index a93ff31..de867e8 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -250,11 +250,17 @@ where
             _ => path.push(self.root.clone()),
         }
 
-        Ok(path
+        let proof = path
             .into_iter()
             .rev()
             .map(|n| self.encode_raw(&n))
-            .collect())
+            .collect();
+
+        // what an uncommitted trie encodes for a proof is not part of its next commit
+        self.cache.clear();
+        self.gen_keys.clear();
+
+        Ok(proof)
     }
 
     /// return value if key exists, None if key not exist, Error if proof is
-- 
2.43.0

