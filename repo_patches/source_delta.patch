From 7d67a5de86421cf6863a4047546aed992d1ce7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 1/8] fix: compare every byte up to the split index when
 looking for descendants

check_descendants stepped from min_split_index in steps of 8 bits, so when
min_split_index was not byte aligned the byte holding the last bits before the
split index could be skipped.  Keys that do not belong under the branch were
then treated as its descendants, after which splitting the keys at the branch
sent stored keys down the wrong side: get returned None for a stored key and
insert failed with a duplicate key error.
---
 src/utils/tree_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/tree_utils.rs b/src/utils/tree_utils.rs
index 3e4ecac..03b43f2 100644
--- a/src/utils/tree_utils.rs
+++ b/src/utils/tree_utils.rs
@@ -86,7 +86,9 @@ pub fn check_descendants<'keys, const N: usize>(
     for (i, k) in keys.iter().enumerate() {
         let key = k.as_ref();
         let mut descendant = true;
-        for j in (min_split_index..branch_split_index).step_by(8) {
+        // Whole bytes are compared, so start at the first bit of the byte holding `min_split_index`.
+        // Otherwise the byte holding the last bits before `branch_split_index` may be skipped.
+        for j in ((min_split_index & !7)..branch_split_index).step_by(8) {
             let byte = j >> 3_usize;
             if branch_key[byte] == key[byte] {
                 continue;
-- 
2.43.0


From 6b46cdf76155ee4b85d9207809115cc0bdc99f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 2/8] fix: keep the references of a branch that is stored again

Inserting entries that reproduce a stored branch (for example by restoring an
earlier value) overwrote the node with a reference count of one, discarding the
references other roots held, while its children were counted once more.
Removing one of those roots then deleted the branch under the others.
---
 src/merkle_bit.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index dca2bd1..9cf8fa7 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -489,6 +489,9 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut indices = unique_split_bits.into_iter().collect::<Vec<_>>();
         indices.sort_unstable();
 
+        // Commit the children first, their references may have to be read back when merging
+        self.db.batch_write()?;
+
         let mut root = None;
         for i in indices.into_iter().rev() {
             if let Some(level) = tree_ref_queue.remove(&i) {
@@ -574,6 +577,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
             branch_node.set_references(1);
 
+            if let Some(n) = self.db.get_node(branch_node_location)? {
+                // The stored branch already holds a reference to each of its children, so only the
+                // branch itself gains one.
+                self.release_reference(&tree_ref_location)?;
+                self.release_reference(&next_tree_ref_location)?;
+                branch_node.set_references(n.get_references() + 1);
+            }
+
             self.db.insert(branch_node_location, branch_node)?;
 
             {
@@ -591,6 +602,19 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(Some(root))
     }
 
+    /// Gives back the reference taken on a node whose parent turned out to be in the DB already
+    fn release_reference(&mut self, location: &Array<N>) -> BinaryMerkleTreeResult<()> {
+        if let Some(mut node) = self.db.get_node(*location)? {
+            let refs = node.get_references().saturating_sub(1);
+            node.set_references(refs);
+            self.db.insert(*location, node)?;
+            return Ok(());
+        }
+        Err(Exception::new(
+            "Corrupt merkle tree: Failed to find child of branch",
+        ))
+    }
+
     /// Remove all items with less than 1 reference under the given root.
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
-- 
2.43.0


From 82a44f3df549db883c9e805919e942b15459cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 3/8] fix: count each reference to a leaf and its data exactly
 once

Writing a value that is already stored added a reference to the data node
although the leaf that refers to it was stored already, and with a previous
root holding the same value the leaf itself was counted twice.  The nodes were
never deleted again, however many roots were removed.
---
 src/merkle_bit.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 9cf8fa7..9666ec9 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -269,22 +269,15 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 NodeVariant::Branch(n) => n,
                 NodeVariant::Leaf(n) => {
                     let key = n.get_key();
-                    let mut update = false;
 
-                    // Check if we are updating an existing value
-                    if let Some(loc) = key_map.get(key) {
-                        update = loc == &location;
-                        if !update {
-                            continue;
-                        }
+                    // Check if we are updating an existing value.  The new leaf, which may be this
+                    // same leaf, has been counted when it was inserted.
+                    if key_map.contains_key(key) {
+                        continue;
                     }
 
                     self.insert_leaf(&location)?;
 
-                    if update {
-                        continue;
-                    }
-
                     let tree_ref = TreeRef::new(*key, location, 1, 1);
                     proof_nodes.push(tree_ref);
                     continue;
@@ -447,17 +440,18 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let mut leaf_node = M::Node::new(NodeVariant::Leaf(leaf));
             leaf_node.set_references(1);
 
-            if let Some(n) = self.db.get_node(data_node_location)? {
-                let references = n.get_references() + 1;
-                data_node.set_references(references);
-            }
-
             if let Some(n) = self.db.get_node(leaf_node_location)? {
+                // The stored leaf already holds the reference to its data
                 let references = n.get_references() + 1;
                 leaf_node.set_references(references);
+            } else {
+                if let Some(n) = self.db.get_node(data_node_location)? {
+                    let references = n.get_references() + 1;
+                    data_node.set_references(references);
+                }
+                self.db.insert(data_node_location, data_node)?;
             }
 
-            self.db.insert(data_node_location, data_node)?;
             self.db.insert(leaf_node_location, leaf_node)?;
 
             nodes.push(leaf_node_location);
-- 
2.43.0


From 11e2bf7311521b1be49a67a351d6e3fe13e2c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 4/8] fix: let get_one and generate_inclusion_proof reach as
 deep as get

They counted the data node below a leaf as a level of the tree, so they failed
with "Depth limit exceeded" for a leaf at the permitted depth, which get and
insert reach.
---
 src/merkle_bit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 9666ec9..86e4a3d 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -691,7 +691,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut found_leaf = false;
         let mut depth = 0;
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
+            // As in `get`, the data node of a leaf does not count towards the depth
+            if depth > self.depth && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
@@ -836,7 +837,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut depth = 0;
 
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
+            // As in `get`, the data node of a leaf does not count towards the depth
+            if depth > self.depth && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
-- 
2.43.0


From a253d608e89115f7baaecd0bf9b3c10147a59246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 5/8] fix: reject an insert before it has written anything

An insert that failed because of duplicate keys, an unknown previous root or
the depth limit had already stored its leaves and added references to nodes of
the previous tree, which nothing could ever release.  The previous tree is now
traversed first and written to only once the insert is known to be valid.
---
 src/merkle_bit.rs | 96 ++++++++++++++++++++++-------------------------
 1 file changed, 44 insertions(+), 52 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 86e4a3d..38c8f99 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -202,33 +202,51 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
         keys.sort_unstable();
 
+        if keys.windows(2).any(|pair| pair[0] == pair[1]) {
+            return Err(Exception::new(
+                "Attempted to insert item with duplicate keys",
+            ));
+        }
+
+        let mut proof_nodes = self.insert_proof_nodes(previous_root, keys)?;
         let nodes = self.insert_leaves(keys, &value_map)?;
 
         let mut tree_refs = Vec::with_capacity(keys.len());
-        let mut key_map = HashMap::new();
         for (loc, &key) in nodes.into_iter().zip(keys.iter()) {
-            key_map.insert(key, loc);
             let tree_ref = TreeRef::new(key, loc, 1, 1);
             tree_refs.push(tree_ref);
         }
-
-        if let Some(root) = previous_root {
-            let mut proof_nodes = self.generate_treerefs(root, keys, &key_map)?;
-            tree_refs.append(&mut proof_nodes);
-        }
+        tree_refs.append(&mut proof_nodes);
 
         let new_root = self.create_tree(tree_refs)?;
         Ok(new_root)
     }
 
+    /// Finds the nodes that the new tree shares with the previous one and adds a reference to each.
+    /// Nothing is written unless the traversal succeeds, so a rejected insert leaves no trace.
+    fn insert_proof_nodes(
+        &mut self,
+        previous_root: Option<&Array<N>>,
+        keys: &[Array<N>],
+    ) -> BinaryMerkleTreeResult<Vec<TreeRef<N>>> {
+        let proof_nodes = if let Some(root) = previous_root {
+            self.generate_treerefs(root, keys)?
+        } else {
+            return Ok(Vec::new());
+        };
+        for tree_ref in &proof_nodes {
+            self.add_reference(&tree_ref.location)?;
+        }
+        Ok(proof_nodes)
+    }
+
     /// Traverses the tree and searches for nodes to include in the merkle proof.
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
     fn generate_treerefs(
-        &mut self,
+        &self,
         root: &Array<N>,
-        keys: &mut [Array<N>],
-        key_map: &HashMap<Array<N>, Array<N>>,
+        keys: &[Array<N>],
     ) -> BinaryMerkleTreeResult<Vec<TreeRef<N>>> {
         // Nodes that form the merkle proof for the new tree
         let mut proof_nodes = Vec::with_capacity(keys.len());
@@ -244,14 +262,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             TreeCell::new::<M::Branch, M::Leaf, M::Data>(*root, keys, root_node, 0);
         cell_queue.push_front(root_cell);
 
-        self.traverse_tree(key_map, &mut proof_nodes, &mut cell_queue)?;
+        self.traverse_tree(keys, &mut proof_nodes, &mut cell_queue)?;
         Ok(proof_nodes)
     }
 
     /// Traverse the tree and append proof nodes
     fn traverse_tree(
-        &mut self,
-        key_map: &HashMap<Array<N>, Array<N>>,
+        &self,
+        keys: &[Array<N>],
         proof_nodes: &mut Vec<TreeRef<N>>,
         cell_queue: &mut VecDeque<TreeCell<M::Node, N>>,
     ) -> BinaryMerkleTreeResult<()> {
@@ -264,20 +282,17 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let depth = tree_cell.depth;
             let location = tree_cell.location;
 
-            let mut refs = node.get_references();
             let branch = match node.get_variant() {
                 NodeVariant::Branch(n) => n,
                 NodeVariant::Leaf(n) => {
                     let key = n.get_key();
 
                     // Check if we are updating an existing value.  The new leaf, which may be this
-                    // same leaf, has been counted when it was inserted.
-                    if key_map.contains_key(key) {
+                    // same leaf, is counted when it is inserted.
+                    if keys.binary_search(key).is_ok() {
                         continue;
                     }
 
-                    self.insert_leaf(&location)?;
-
                     let tree_ref = TreeRef::new(*key, location, 1, 1);
                     proof_nodes.push(tree_ref);
                     continue;
@@ -305,18 +320,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 )?;
 
                 if descendants.is_empty() {
-                    let mut new_branch = M::Branch::new();
-                    new_branch.set_count(branch_count);
-                    new_branch.set_zero(branch_zero);
-                    new_branch.set_one(branch_one);
-                    new_branch.set_split_index(branch_split_index);
-                    new_branch.set_key(branch_key);
-
-                    let tree_ref = TreeRef::new(branch_key, tree_cell.location, branch_count, 1);
-                    refs += 1;
-                    let mut new_node = M::Node::new(NodeVariant::Branch(new_branch));
-                    new_node.set_references(refs);
-                    self.db.insert(tree_ref.location, new_node)?;
+                    let tree_ref = TreeRef::new(branch_key, location, branch_count, 1);
                     proof_nodes.push(tree_ref);
                     continue;
                 }
@@ -340,16 +344,16 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(())
     }
 
-    /// Inserts a leaf into the DB
-    fn insert_leaf(&mut self, location: &Array<N>) -> BinaryMerkleTreeResult<()> {
-        if let Some(mut l) = self.db.get_node(*location)? {
-            let leaf_refs = l.get_references() + 1;
-            l.set_references(leaf_refs);
-            self.db.insert(*location, l)?;
+    /// Adds a reference to a node in the DB
+    fn add_reference(&mut self, location: &Array<N>) -> BinaryMerkleTreeResult<()> {
+        if let Some(mut node) = self.db.get_node(*location)? {
+            let refs = node.get_references() + 1;
+            node.set_references(refs);
+            self.db.insert(*location, node)?;
             return Ok(());
         }
         Err(Exception::new(
-            "Corrupt merkle tree: Failed to update leaf references",
+            "Corrupt merkle tree: Failed to update node references",
         ))
     }
 
@@ -358,7 +362,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
     fn split_nodes<'node_list>(
-        &mut self,
+        &self,
         depth: usize,
         branch: Array<N>,
         node_list: &'node_list [Array<N>],
@@ -367,18 +371,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             return if node_list.is_empty() {
                 let other_key;
                 let count;
-                let refs = node.get_references() + 1;
-                let mut new_node;
                 match node.get_variant() {
                     NodeVariant::Branch(b) => {
                         count = b.get_count();
                         other_key = *b.get_key();
-                        new_node = M::Node::new(NodeVariant::Branch(b));
                     }
                     NodeVariant::Leaf(l) => {
                         count = 1;
                         other_key = *l.get_key();
-                        new_node = M::Node::new(NodeVariant::Leaf(l));
                     }
                     NodeVariant::Data(_) => {
                         return Err(Exception::new(
@@ -386,8 +386,6 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                         ));
                     }
                 }
-                new_node.set_references(refs);
-                self.db.insert(branch, new_node)?;
                 let tree_ref = TreeRef::new(other_key, branch, count, 1);
                 Ok(SplitNodeType::Ref(tree_ref))
             } else {
@@ -905,19 +903,13 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut value_map = HashMap::new();
         value_map.insert(*key, value);
 
+        let mut proof_nodes = self.insert_proof_nodes(previous_root, &[*key])?;
         let leaf_location = self.insert_leaves(&[*key], &value_map)?[0];
 
         let mut tree_refs = Vec::with_capacity(1);
-        let mut key_map = HashMap::new();
-        key_map.insert(*key, leaf_location);
-
         let tree_ref = TreeRef::new(*key, leaf_location, 1, 1);
         tree_refs.push(tree_ref);
-
-        if let Some(root) = previous_root {
-            let mut proof_nodes = self.generate_treerefs(root, &mut [*key], &key_map)?;
-            tree_refs.append(&mut proof_nodes);
-        }
+        tree_refs.append(&mut proof_nodes);
 
         let new_root = self.create_tree(tree_refs)?;
         Ok(new_root)
-- 
2.43.0


From 25d4b658d22614ef2a87b91761309be988218f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 6/8] fix: decode the arrays every serializer but bincode
 writes

Arrays are serialized as sequences but were deserialized as bytes, which only
bincode accepts.  A node stored with json, cbor, yaml, pickle or ron could not
be read back, so a persistent tree was unusable with them.
---
 src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6655a89..31c9b20 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -78,7 +78,7 @@
 //! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
 
 #[cfg(feature = "serde")]
-use serde::de::{Error, Visitor};
+use serde::de::{Error, SeqAccess, Visitor};
 #[cfg(feature = "serde")]
 use serde::ser::SerializeSeq;
 #[cfg(feature = "serde")]
@@ -249,12 +249,26 @@ impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
 
         Ok(value)
     }
+
+    #[inline]
+    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+        let mut value = Array::default();
+        let mut i = 0;
+        while let Some(e) = seq.next_element()? {
+            if i < N {
+                value[i] = e;
+            }
+            i += 1;
+        }
+
+        Ok(value)
+    }
 }
 
 #[cfg(feature = "serde")]
 impl<'de, const N: usize> Deserialize<'de> for Array<N> {
     #[inline]
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_bytes(ArrayVisitor)
+        deserializer.deserialize_seq(ArrayVisitor)
     }
 }
-- 
2.43.0


From 35d939194d199e59353d2609231486c16887d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 7/8] fix: do not reserve memory for a proof by the depth limit

The limit may be any number, usize::MAX included, and a proof has at most as
many elements as the tree has levels. Reserving by the limit panicked or
aborted on large ones.
---
 src/merkle_bit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 38c8f99..dcc1ea4 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -681,10 +681,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         root: &Array<N>,
         key: Array<N>,
     ) -> BinaryMerkleTreeResult<Vec<(Array<N>, bool)>> {
-        let mut nodes = VecDeque::with_capacity(self.depth);
+        let mut nodes = VecDeque::with_capacity(1);
         nodes.push_front(*root);
 
-        let mut proof = Vec::with_capacity(self.depth);
+        let mut proof = Vec::new();
 
         let mut found_leaf = false;
         let mut depth = 0;
-- 
2.43.0


From 5c90cb600d698c61a319f33a8bc6a170c66c924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 8/8] fix: encode the values of an insert before writing
 anything

A value that cannot be encoded made the insert fail after references had been
added to the nodes of the base and leaves had been stored, which were never
reclaimed.
---
 src/merkle_bit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index dcc1ea4..191b2d2 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -197,7 +197,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
         let mut value_map = HashMap::new();
         for (&key, value) in keys.iter().zip(values.iter()) {
-            value_map.insert(key, value);
+            value_map.insert(key, value.encode()?);
         }
 
         keys.sort_unstable();
@@ -406,14 +406,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     fn insert_leaves(
         &mut self,
         keys: &[Array<N>],
-        values: &HashMap<Array<N>, &M::Value>,
+        values: &HashMap<Array<N>, Vec<u8>>,
     ) -> BinaryMerkleTreeResult<Vec<Array<N>>> {
         let mut nodes = Vec::with_capacity(keys.len());
         for k in keys.iter() {
             let key = k.as_ref();
             // Create data node
             let mut data = M::Data::new();
-            data.set_value(&(values[k].encode()?));
+            data.set_value(&values[k]);
 
             let mut data_hasher = M::Hasher::new(key.len());
             data_hasher.update(b"d");
@@ -901,7 +901,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         value: &M::Value,
     ) -> BinaryMerkleTreeResult<Array<N>> {
         let mut value_map = HashMap::new();
-        value_map.insert(*key, value);
+        value_map.insert(*key, value.encode()?);
 
         let mut proof_nodes = self.insert_proof_nodes(previous_root, &[*key])?;
         let leaf_location = self.insert_leaves(&[*key], &value_map)?[0];
-- 
2.43.0

