From cdbfa7d01486dabfe7620d7a6a0f6f6a156460bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 01/22] fix: decide key identity by the comparator alone

Existence checks compared keys with operator== / !=, so keys that are
equivalent under a custom comparator but not equal were stored twice and
could not be found, and key types without operator== did not compile.
---
 include/fast_containers/btree.ipp     | 12 ++++++------
 include/fast_containers/dense_map.ipp | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 74975f6..425e687 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -366,7 +366,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     auto it = node->internal_children.lower_bound(key);
 
     if (it != node->internal_children.begin() &&
-        (it == node->internal_children.end() || it->first != key)) {
+        (it == node->internal_children.end() || comp_(key, it->first))) {
       --it;
     }
 
@@ -377,7 +377,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto it = node->leaf_children.lower_bound(key);
 
   if (it != node->leaf_children.begin() &&
-      (it == node->leaf_children.end() || it->first != key)) {
+      (it == node->leaf_children.end() || comp_(key, it->first))) {
     --it;
   }
 
@@ -689,7 +689,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Erase elements one by one until we reach 'last'
   while (first != end()) {
     // Check if we've reached the 'last' position by comparing keys
-    if (last_key.has_value() && (*first).first == *last_key) {
+    if (last_key.has_value() && !comp_((*first).first, *last_key)) {
       break;
     }
     first = erase(first);
@@ -927,7 +927,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto pos = leaf->data.lower_bound(key);
 
   // Check if key already exists - delegate to on_exists callback
-  if (pos != leaf->data.end() && pos->first == key) {
+  if (pos != leaf->data.end() && !comp_(key, pos->first)) {
     return std::forward<OnExists>(on_exists)(leaf, pos);
   }
 
@@ -1112,7 +1112,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   if (it != children.end() && it->second == child) {
     // Found it at lower_bound position
     is_leftmost = (it == children.begin());
-    if (it->first != new_min) {
+    if (comp_(new_min, it->first)) {
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
       children.unsafe_update_key(it, new_min);
@@ -1120,7 +1120,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   } else if (it != children.begin()) {
     // Check the previous entry
     --it;
-    if (it->second == child && it->first != new_min) {
+    if (it->second == child) {
       is_leftmost = (it == children.begin());
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 1d96e72..f1d4f5f 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -367,7 +367,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(const Key& key) {
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return iterator(this, idx);
   }
   return end();
@@ -388,7 +388,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return const_iterator(this, idx);
   }
   return end();
@@ -442,7 +442,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -462,7 +462,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::const_iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) const {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -697,7 +697,7 @@ std::pair<
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
   // Check if key exists at this position
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
         idx);  // Let caller decide what to do (return or assign)
   }
-- 
2.43.0


From b028f9793b08957c038f373121965bf7eb3857da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 02/22] fix: build key and value before dense_map shifts its
 elements

try_emplace constructed over a live value (leaking it), arguments that
refer to elements of the same map were read after being moved from, and
a throwing copy left moved-from elements or a half-copied map behind.
---
 include/fast_containers/dense_map.hpp |  6 +--
 include/fast_containers/dense_map.ipp | 65 ++++++++++++++-------------
 2 files changed, 37 insertions(+), 34 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index af04266..a190006 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -195,7 +195,7 @@ class dense_map {
 
   /**
    * Inserts a new element if the key does not exist.
-   * Constructs the value in-place using the provided arguments.
+   * Constructs the value from the provided arguments.
    * If the key already exists, does nothing (does not construct the value).
    *
    * @param key The key to insert
@@ -442,10 +442,10 @@ class dense_map {
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
    */
-  template <typename OnExists, typename OnInsert>
+  template <typename OnExists, typename MakeValue>
   std::pair<iterator, bool> insert_impl(size_type idx, const Key& key,
                                         OnExists&& on_exists,
-                                        OnInsert&& on_insert);
+                                        MakeValue&& make_value);
 
 #ifdef __AVX2__
   /**
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index f1d4f5f..30ae2b8 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -69,14 +69,17 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     const dense_map& other) {
   if (this != &other) {
-    size_ = other.size_;
+    // Stay empty until every element is copied: a copy that throws must not
+    // leave half-replaced contents behind
+    size_ = 0;
     // Copy only the active elements
-    if (size_ > 0) {
-      std::copy(other.keys_.begin(), other.keys_.begin() + size_,
+    if (other.size_ > 0) {
+      std::copy(other.keys_.begin(), other.keys_.begin() + other.size_,
                 keys_.begin());
-      std::copy(other.values_.begin(), other.values_.begin() + size_,
+      std::copy(other.values_.begin(), other.values_.begin() + other.size_,
                 values_.begin());
     }
+    size_ = other.size_;
   }
   return *this;
 }
@@ -145,10 +148,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() -> const Value& { return value; });
 }
 
 /**
@@ -190,10 +190,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() -> const Value& { return value; });
 }
 
 /**
@@ -223,10 +220,11 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::try_emplace(
         // Key exists - CRITICAL: don't construct value, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &args...](size_type idx) {
-        // Construct value IN-PLACE using provided arguments
-        // This is the key difference from insert() - no temporary value!
-        std::construct_at(&values_[idx], std::forward<Args>(args)...);
+      [&args...]() -> Value {
+        // Only called when inserting. Every slot of values_ already holds a
+        // live object, so the new value is moved into its slot rather than
+        // constructed over the object there
+        return Value(std::forward<Args>(args)...);
       });
 }
 
@@ -254,10 +252,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_or_assign(
         values_[idx] = std::forward<M>(value);
         return std::pair{iterator(this, idx), false};  // false = assignment
       },
-      [this, &value](size_type idx) {
-        // Insert new value
-        values_[idx] = std::forward<M>(value);
-      });
+      [&value]() -> M&& { return std::forward<M>(value); });
 }
 
 /**
@@ -335,6 +330,10 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
   const auto pos = lower_bound_key(key);
   size_type idx = pos - keys_.begin();
 
+  // Materialize key and value before shifting (see insert_impl)
+  Key new_key(key);
+  Value new_value{};
+
   // Shift elements to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -342,8 +341,8 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
                      values_.data() + size_ + 1);
 
   // Insert with default-constructed value
-  keys_[idx] = key;
-  values_[idx] = Value{};
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
   ++size_;
 
   return values_[idx];
@@ -683,19 +682,20 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
  * @param key Key to insert
  * @param on_exists Callback for when key exists: (size_type) -> pair<iterator,
  * bool> Can modify the existing value (insert_or_assign) or just return
- * @param on_insert Callback to insert value: (size_type) -> void
- *                  Uses assignment (insert) or construct_at (try_emplace)
+ * @param make_value Callback producing the value to insert: () -> Value or a
+ *                   reference to construct it from
  * @return Pair of iterator to element and bool indicating insertion success
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
           SearchMode SearchModeT>
   requires ComparatorCompatible<Key, Compare>
-template <typename OnExists, typename OnInsert>
+template <typename OnExists, typename MakeValue>
 std::pair<
     typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator,
     bool>
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
-    size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
+    size_type idx, const Key& key, OnExists&& on_exists,
+    MakeValue&& make_value) {
   // Check if key exists at this position
   if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
@@ -707,17 +707,20 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
+  // Materialize key and value before shifting: they may refer to elements of
+  // this map, and if constructing either one throws nothing has changed yet
+  Key new_key(key);
+  Value new_value(std::forward<MakeValue>(make_value)());
+
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
   std::move_backward(values_.data() + idx, values_.data() + size_,
                      values_.data() + size_ + 1);
 
-  // Insert the key
-  keys_[idx] = key;
-
-  // Let caller insert the value (assignment vs construct_at)
-  std::forward<OnInsert>(on_insert)(idx);
+  // Insert the key and the value
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
 
   ++size_;
 
-- 
2.43.0


From 8c3eea72c639736be58b236ebed42e14780ff419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 03/22] fix: copy a key or value that refers into the tree
 before moving elements

Inserting with a key or value that is stored in the same tree read it
after the split or shift had moved it away, storing a moved-from object
or a wrong separator.
---
 include/fast_containers/btree.ipp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 425e687..57ed31e 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -846,6 +846,11 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
+  // The key and the value may refer to elements of the leaf being split, so
+  // copy the key and get the value before any element is moved
+  const Key new_key(key);
+  auto value = std::forward<GetValue>(get_value)();
+
   // Create new leaf for right half
   leaf_node* new_leaf = allocate_leaf_node();
 
@@ -874,14 +879,11 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key& promoted_key = new_leaf->data.begin()->first;
 
   // Determine target leaf
-  leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
-
-  // Get value on-demand after determining target leaf
-  // This preserves try_emplace's optimization
-  auto value = std::forward<GetValue>(get_value)();
+  leaf_node* target_leaf = comp_(new_key, promoted_key) ? leaf : new_leaf;
 
   // Insert the new key-value pair into appropriate leaf
-  auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
+  auto [leaf_it, inserted] =
+      target_leaf->data.insert(new_key, std::move(value));
 
   // Key is guaranteed not to exist (checked by insert_impl before calling)
   assert(inserted && "split_leaf_and_insert: key should not exist in tree");
@@ -947,7 +949,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // If we inserted at the beginning and leaf has a parent, update parent key
   if (leaf_it == leaf->data.begin() && leaf->parent != nullptr) {
-    update_parent_key_recursive(leaf, key);
+    // key may refer to a value that the insertion shifted: read it back
+    update_parent_key_recursive(leaf, leaf_it->first);
   }
 
   return {iterator(leaf, leaf_it), true};
-- 
2.43.0


From 7d0b6c72973087d3c4d64c4c0d8e841dd4629a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 04/22] fix: keep the tree valid when an insertion fails
 half-way

A node allocation or key/value copy that threw while a leaf was being
split left elements unreachable. Ancestors are now split top-down before
the leaf, and each split allocates and copies before it changes anything.
---
 include/fast_containers/btree.hpp |  24 ++-
 include/fast_containers/btree.ipp | 248 ++++++++++++------------------
 2 files changed, 108 insertions(+), 164 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 1618cd6..ac50005 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1035,23 +1035,19 @@ class btree {
                                                   GetValue&& get_value);
 
   /**
-   * Insert a promoted key and child pointer into a parent node.
-   * If parent is full, splits it recursively.
-   * If node has no parent, creates a new root.
+   * Split a full node at its middle and insert the new right half into the
+   * parent. If parent is full, it is split first. If node has no parent,
+   * creates a new root.
    *
-   * Templated to handle both leaf_node and internal_node children.
+   * If an allocation or a key copy throws, the tree is valid and its contents
+   * are unchanged.
+   *
+   * Templated to handle both leaf_node and internal_node.
+   *
+   * @return The new node, which holds the upper half of the elements
    */
   template <typename NodeType>
-  void insert_into_parent(NodeType* left_child, const Key& key,
-                          NodeType* right_child);
-
-  /**
-   * Split a full internal node.
-   * Creates a new internal node and moves half the children to it.
-   * Returns a reference to the promoted key and pointer to the new node.
-   * The key reference points to the first key in the new node's children.
-   */
-  std::pair<const Key&, internal_node*> split_internal(internal_node* node);
+  NodeType* split_node(NodeType* node);
 
   /**
    * Update parent's key for a child node to match its current minimum.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 57ed31e..2468978 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -851,36 +851,19 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key new_key(key);
   auto value = std::forward<GetValue>(get_value)();
 
-  // Create new leaf for right half
-  leaf_node* new_leaf = allocate_leaf_node();
+  // Split the leaf. If anything below throws, the tree has only been reshaped
+  leaf_node* new_leaf = split_node(leaf);
 
-  // Calculate split point (ceil(LeafNodeSize / 2))
-  const size_type split_point = (LeafNodeSize + 1) / 2;
-
-  // Use split_at() to efficiently move second half to new leaf
-  auto split_it = leaf->data.begin();
-  std::advance(split_it, split_point);
-  leaf->data.split_at(split_it, new_leaf->data);
-
-  // Update leaf chain pointers
-  new_leaf->next_leaf = leaf->next_leaf;
-  new_leaf->prev_leaf = leaf;
-  if (leaf->next_leaf) {
-    leaf->next_leaf->prev_leaf = new_leaf;
-  }
-  leaf->next_leaf = new_leaf;
+  // Determine target leaf
+  leaf_node* target_leaf =
+      comp_(new_key, new_leaf->data.begin()->first) ? leaf : new_leaf;
 
-  // Update rightmost_leaf if necessary
-  if (rightmost_leaf_ == leaf) {
-    rightmost_leaf_ = new_leaf;
+  // The new key becomes the minimum only on the leftmost leaf of the tree. Its
+  // separators may be lowered early, they are below every other key anyway
+  if (comp_(new_key, target_leaf->data.begin()->first)) {
+    update_parent_key_recursive(target_leaf, new_key);
   }
 
-  // Get first key of new leaf for promotion
-  const Key& promoted_key = new_leaf->data.begin()->first;
-
-  // Determine target leaf
-  leaf_node* target_leaf = comp_(new_key, promoted_key) ? leaf : new_leaf;
-
   // Insert the new key-value pair into appropriate leaf
   auto [leaf_it, inserted] =
       target_leaf->data.insert(new_key, std::move(value));
@@ -890,22 +873,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   size_++;
 
-  // Insert promoted key into parent
-  insert_into_parent(leaf, promoted_key, new_leaf);
-
-  // If we inserted into the left half, update parent key if necessary
-  if (target_leaf == leaf) {
-    const Key& new_left_min = leaf->data.begin()->first;
-    update_parent_key_recursive(leaf, new_left_min);
-  }
-
-  // Update leftmost_leaf_ if the leaf became the new leftmost
-  if (target_leaf == leaf &&
-      (leftmost_leaf_ == nullptr ||
-       comp_(leaf->data.begin()->first, leftmost_leaf_->data.begin()->first))) {
-    leftmost_leaf_ = leaf;
-  }
-
   return {iterator(target_leaf, leaf_it), true};
 }
 
@@ -940,6 +907,14 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Leaf has space - get value on-demand and insert using hint
   auto value = std::forward<GetValue>(get_value)();
+
+  // If we insert at the beginning and leaf has a parent, update parent key.
+  // Do this first: if it throws, nothing has been inserted, and a separator
+  // that is already too low does not affect any lookup
+  if (pos == leaf->data.begin() && leaf->parent != nullptr) {
+    update_parent_key_recursive(leaf, key);
+  }
+
   auto [leaf_it, inserted] = leaf->data.insert_hint(pos, key, std::move(value));
 
   // Key is guaranteed not to exist (checked above)
@@ -947,137 +922,110 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   size_++;
 
-  // If we inserted at the beginning and leaf has a parent, update parent key
-  if (leaf_it == leaf->data.begin() && leaf->parent != nullptr) {
-    // key may refer to a value that the insertion shifted: read it back
-    update_parent_key_recursive(leaf, leaf_it->first);
-  }
-
   return {iterator(leaf, leaf_it), true};
 }
 
-// insert_into_parent
+// split_node
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
           SearchMode SearchModeT, typename Allocator>
   requires ComparatorCompatible<Key, Compare>
 template <typename NodeType>
-void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-           Allocator>::insert_into_parent(NodeType* left_child, const Key& key,
-                                          NodeType* right_child) {
-  // Helper lambda to get appropriate children array reference
-  auto get_children = [](internal_node* node) -> auto& {
-    if constexpr (std::is_same_v<NodeType, leaf_node>) {
-      return node->leaf_children;
-    } else {
-      return node->internal_children;
-    }
-  };
+NodeType* btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
+                SearchModeT, Allocator>::split_node(NodeType* node) {
+  constexpr bool is_leaf = std::is_same_v<NodeType, leaf_node>;
 
-  // Helper lambda to get the left key for creating new root
-  auto get_left_key = [](NodeType* node) -> const Key& {
-    if constexpr (std::is_same_v<NodeType, leaf_node>) {
-      return node->data.begin()->first;
+  // Helper lambda to get the array of an internal node that refers to nodes of
+  // this type
+  auto get_children = [](internal_node* parent) -> auto& {
+    if constexpr (is_leaf) {
+      return parent->leaf_children;
     } else {
-      if (node->children_are_leaves) {
-        return node->leaf_children.begin()->first;
-      }
-      return node->internal_children.begin()->first;
+      return parent->internal_children;
     }
   };
 
-  // Case 1: left_child is root - create new root
-  if (left_child->parent == nullptr) {
-    constexpr bool children_are_leaves = std::is_same_v<NodeType, leaf_node>;
-    internal_node* new_root = allocate_internal_node(children_are_leaves);
-
-    auto& children = get_children(new_root);
-    auto [it, inserted] = children.insert(get_left_key(left_child), left_child);
-    assert(inserted);
-    auto [it2, inserted2] = children.insert(key, right_child);
-    assert(inserted2);
-
-    left_child->parent = new_root;
-    right_child->parent = new_root;
-
-    root_is_leaf_ = false;
-    internal_root_ = new_root;
-    return;
-  }
-
-  // Case 2: Parent exists - insert into it
-  internal_node* parent = left_child->parent;
-  auto& parent_children = get_children(parent);
-
-  // Check if parent is full
-  if (parent_children.size() >= InternalNodeSize) {
-    // Need to split parent
-    auto [promoted_key, new_parent] = split_internal(parent);
-
-    // Determine which parent to insert into
-    internal_node* target_parent =
-        comp_(key, promoted_key) ? parent : new_parent;
-    right_child->parent = target_parent;
-
-    auto& target_children = get_children(target_parent);
-    auto [it, inserted] = target_children.insert(key, right_child);
-    assert(inserted && "Insert into non-full parent should succeed");
-
-    // Recursively insert promoted key into grandparent
-    insert_into_parent(parent, promoted_key, new_parent);
-  } else {
-    // Parent has space - insert normally
-    right_child->parent = parent;
-    auto [it, inserted] = parent_children.insert(key, right_child);
-    assert(inserted && "Insert into non-full parent should succeed");
+  // Make sure the parent has space for one more child. Splitting ancestors
+  // first means that every step leaves a valid tree behind if a later allocation
+  // or key copy throws
+  if (node->parent != nullptr &&
+      get_children(node->parent).size() >= InternalNodeSize) {
+    split_node(node->parent);  // May move node to a new parent
   }
-}
 
-// split_internal
-template <typename Key, typename Value, std::size_t LeafNodeSize,
-          std::size_t InternalNodeSize, typename Compare,
-          SearchMode SearchModeT, typename Allocator>
-  requires ComparatorCompatible<Key, Compare>
-std::pair<const Key&,
-          typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
-                         SearchModeT, Allocator>::internal_node*>
-btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::split_internal(internal_node* node) {
-  // Create new internal node
-  internal_node* new_node = allocate_internal_node(node->children_are_leaves);
-
-  // Calculate split point
-  const size_type split_point = (InternalNodeSize + 1) / 2;
-
-  // Use templated lambda to handle split logic for both child types
-  auto perform_split = [&]<typename ChildPtrType>(
-                           auto& node_children,
-                           auto& new_node_children) -> const Key& {
-    // Get split iterator
-    auto split_it = node_children.begin();
-    std::advance(split_it, split_point);
+  // Create new node for right half, released again if something below throws
+  auto release = [this](auto* unused) {
+    if constexpr (std::is_same_v<decltype(unused), leaf_node*>) {
+      deallocate_leaf_node(unused);
+    } else {
+      deallocate_internal_node(unused);
+    }
+  };
+  std::unique_ptr<NodeType, decltype(release)> new_node(
+      [&] {
+        if constexpr (is_leaf) {
+          return allocate_leaf_node();
+        } else {
+          return allocate_internal_node(node->children_are_leaves);
+        }
+      }(),
+      release);
+
+  // Splits the elements of node at the middle (ceil(size / 2))
+  auto perform_split = [&](auto& data, auto& new_data) {
+    auto split_it = data.begin();
+    std::advance(split_it, (data.capacity() + 1) / 2);
+
+    if (node->parent == nullptr) {
+      // node is root - create new root
+      std::unique_ptr<internal_node, decltype(release)> new_root(
+          allocate_internal_node(is_leaf), release);
+      auto& children = get_children(new_root.get());
+      children.insert(data.begin()->first, node);
+      children.insert(split_it->first, new_node.get());
+
+      root_is_leaf_ = false;
+      internal_root_ = new_root.get();
+      node->parent = new_root.release();
+    } else {
+      // Parent has space - insert normally
+      get_children(node->parent).insert(split_it->first, new_node.get());
+    }
 
     // Use split_at() to efficiently move second half to new node
-    node_children.split_at(split_it, new_node_children);
+    data.split_at(split_it, new_data);
+    new_node->parent = node->parent;
 
     // Update parent pointers for moved children
-    for (auto it = new_node_children.begin(); it != new_node_children.end();
-         ++it) {
-      it->second->parent = new_node;
+    if constexpr (!is_leaf) {
+      for (auto it = new_data.begin(); it != new_data.end(); ++it) {
+        it->second->parent = new_node.get();
+      }
     }
-
-    // Return reference to first key in new node (the promoted key)
-    return new_node_children.begin()->first;
   };
 
-  if (node->children_are_leaves) {
-    const Key& promoted_key = perform_split.template operator()<leaf_node*>(
-        node->leaf_children, new_node->leaf_children);
-    return {promoted_key, new_node};
+  if constexpr (is_leaf) {
+    perform_split(node->data, new_node->data);
+
+    // Update leaf chain pointers
+    new_node->next_leaf = node->next_leaf;
+    new_node->prev_leaf = node;
+    if (node->next_leaf) {
+      node->next_leaf->prev_leaf = new_node.get();
+    }
+    node->next_leaf = new_node.get();
+
+    // Update rightmost_leaf if necessary
+    if (rightmost_leaf_ == node) {
+      rightmost_leaf_ = new_node.get();
+    }
+  } else if (node->children_are_leaves) {
+    perform_split(node->leaf_children, new_node->leaf_children);
+  } else {
+    perform_split(node->internal_children, new_node->internal_children);
   }
-  const Key& promoted_key = perform_split.template operator()<internal_node*>(
-      node->internal_children, new_node->internal_children);
-  return {promoted_key, new_node};
+
+  return new_node.release();
 }
 
 // update_parent_key_recursive
-- 
2.43.0


From b98f39e0ddae5b6e698347b3135b33778e2f6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 05/22] fix: keep the tree valid when an erase fails half-way

Erasing rebalanced after the element was gone and copied separator keys
after moving elements, so a throwing key copy left keys unreachable or a
node underfull. Rebalance first, update separators before transfers, and
find a child's entry even if its separator is below the child's minimum.
---
 include/fast_containers/btree.hpp |  19 +--
 include/fast_containers/btree.ipp | 194 +++++++++++++-----------------
 2 files changed, 87 insertions(+), 126 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index ac50005..f876150 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1071,8 +1071,7 @@ class btree {
    */
   template <typename NodeType>
   std::pair<NodeType*, std::optional<iterator>> handle_underflow(
-      NodeType* node, const std::optional<size_t>& next_index,
-      bool next_in_next_leaf);
+      NodeType* node, const std::optional<size_t>& next_index);
 
   /**
    * Try to borrow element(s) or child(ren) from the left sibling of a node.
@@ -1082,14 +1081,12 @@ class btree {
    *
    * @param node The node to borrow into
    * @param next_index Optional index to track during borrowing (O(1) path)
-   * @param next_in_next_leaf True if next element is in next leaf
    * @return Pair of {node if successful or nullptr, iterator to next_index if
    * valid}
    */
   template <typename NodeType>
   std::pair<NodeType*, std::optional<iterator>> borrow_from_left_sibling(
-      NodeType* node, const std::optional<size_t>& next_index,
-      bool next_in_next_leaf);
+      NodeType* node, const std::optional<size_t>& next_index);
 
   /**
    * Try to borrow element(s) or child(ren) from the right sibling of a node.
@@ -1099,14 +1096,12 @@ class btree {
    *
    * @param node The node to borrow into
    * @param next_index Optional index to track during borrowing (O(1) path)
-   * @param next_in_next_leaf True if next element is in next leaf
    * @return Pair of {node if successful or nullptr, iterator to next_index if
    * valid}
    */
   template <typename NodeType>
   std::pair<NodeType*, std::optional<iterator>> borrow_from_right_sibling(
-      NodeType* node, const std::optional<size_t>& next_index,
-      bool next_in_next_leaf);
+      NodeType* node, const std::optional<size_t>& next_index);
 
   /**
    * Merge a node with its left sibling.
@@ -1116,14 +1111,12 @@ class btree {
    *
    * @param node The node to merge (will be deleted)
    * @param next_index Optional index to track during merging (O(1) path)
-   * @param next_in_next_leaf True if next element is in next leaf
    * @return Pair of {left sibling with merged data, iterator to next_index if
    * valid}
    */
   template <typename NodeType>
   std::pair<NodeType*, std::optional<iterator>> merge_with_left_sibling(
-      NodeType* node, const std::optional<size_t>& next_index,
-      bool next_in_next_leaf);
+      NodeType* node, const std::optional<size_t>& next_index);
 
   /**
    * Merge a node with its right sibling.
@@ -1133,13 +1126,11 @@ class btree {
    *
    * @param node The node that absorbs right sibling's data
    * @param next_index Optional index to track during merging (O(1) path)
-   * @param next_in_next_leaf True if next element is in next leaf
    * @return Pair of {node with merged data, iterator to next_index if valid}
    */
   template <typename NodeType>
   std::pair<NodeType*, std::optional<iterator>> merge_with_right_sibling(
-      NodeType* node, const std::optional<size_t>& next_index,
-      bool next_in_next_leaf);
+      NodeType* node, const std::optional<size_t>& next_index);
 
   /**
    * Template helper to find the left sibling of a node.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 2468978..48ed673 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -584,12 +584,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   leaf_node* leaf = pos.leaf_node_;
   auto leaf_it = *pos.leaf_it_;  // Dereference optional
 
-  // Check if we're erasing from beginning (will need parent update)
-  const bool erasing_from_beginning = (leaf_it == leaf->data.begin());
-
-  // Check if rebalancing will be needed BEFORE erasing
-  // This allows us to avoid saving next_key when not needed (important for
-  // large keys) Early return if root is leaf (no rebalancing ever needed)
+  // Early return if root is leaf (no rebalancing ever needed)
   if (root_is_leaf_ && leaf == leaf_root_) {
     auto next_in_leaf = leaf->data.erase(leaf_it);
     size_--;
@@ -609,55 +604,31 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const bool needs_rebalancing =
       size_after_erase == 0 || size_after_erase < underflow_threshold;
 
-  // Capture next element BEFORE erasing (for O(1) tracking through rebalancing)
-  std::optional<size_t> next_index;
-  bool next_in_next_leaf = false;
+  // Rebalance BEFORE erasing, tracking the element through it by its index
+  // (O(1)). If copying a separator key throws, nothing has been erased
   if (needs_rebalancing) {
-    // Calculate index of element after the one being erased
     const size_t erase_index = std::distance(leaf->data.begin(), leaf_it);
-    if (erase_index + 1 < leaf->data.size()) {
-      // Next element is in this leaf - track its index (O(1) during
-      // rebalancing) After erase, it will shift left by 1, so index becomes
-      // erase_index
-      next_index = erase_index;
-    } else if (leaf->next_leaf != nullptr) {
-      // Next element is first element of next leaf
-      // Special handling: if we borrow from right or merge with right,
-      // that element will move into this leaf at the old_size position
-      next_in_next_leaf = true;
-    }
-    // else: at end of tree, no next element
+    auto [result_leaf, erase_iter] = handle_underflow(leaf, erase_index);
+    leaf = result_leaf;
+    leaf_it = *erase_iter->leaf_it_;
   }
 
+  // Check if we're erasing from beginning (will need parent update)
+  const bool erasing_from_beginning = (leaf_it == leaf->data.begin());
+
   // Erase from leaf using iterator (no search needed!)
   // Returns iterator to next element in this leaf
   auto next_in_leaf = leaf->data.erase(leaf_it);
   size_--;
 
   // Update parent key if minimum changed (only if erased from beginning)
-  // Do this BEFORE rebalancing to ensure parent keys are correct
   if (erasing_from_beginning && !leaf->data.empty() &&
       leaf->parent != nullptr) {
     const Key& new_min = leaf->data.begin()->first;
     update_parent_key_recursive(leaf, new_min);
   }
 
-  if (needs_rebalancing) {
-    // handle_underflow uses O(1) index tracking when available
-    auto [result_leaf, next_iter] =
-        handle_underflow(leaf, next_index, next_in_next_leaf);
-    if (next_iter.has_value()) {
-      return *next_iter;
-    }
-    // Next element was not in this leaf, check next leaf
-    if (result_leaf->next_leaf != nullptr) {
-      return iterator(result_leaf->next_leaf,
-                      result_leaf->next_leaf->data.begin());
-    }
-    return end();
-  }
-
-  // No underflow - can use next_in_leaf directly (no search needed!)
+  // Can use next_in_leaf directly (no search needed!)
   if (next_in_leaf != leaf->data.end()) {
     // Next element is in same leaf
     return iterator(leaf, next_in_leaf);
@@ -946,8 +917,8 @@ NodeType* btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
   };
 
   // Make sure the parent has space for one more child. Splitting ancestors
-  // first means that every step leaves a valid tree behind if a later allocation
-  // or key copy throws
+  // first means that every step leaves a valid tree behind if a later
+  // allocation or key copy throws
   if (node->parent != nullptr &&
       get_children(node->parent).size() >= InternalNodeSize) {
     split_node(node->parent);  // May move node to a new parent
@@ -1227,7 +1198,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   if (!parent_is_root && parent_children.size() < parent_underflow_threshold) {
     // Recursive underflow - discard iterator (internal node)
-    handle_underflow(parent, std::nullopt, false);
+    handle_underflow(parent, std::nullopt);
   } else if (parent_is_root && parent_children.size() == 1) {
     // Root has only one child left - make that child the new root
     NodeType* new_root = parent_children.begin()->second;
@@ -1258,8 +1229,7 @@ std::pair<
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::borrow_from_left_sibling(NodeType* node,
                                            const std::optional<size_t>&
-                                               next_index,
-                                           bool next_in_next_leaf) {
+                                               next_index) {
   NodeType* left_sibling = find_left_sibling(node);
 
   // Can't borrow if no left sibling
@@ -1286,6 +1256,11 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       return false;
     }
 
+    // Update parent key for this node (minimum changes to first element/child
+    // transferred). Do this first: if it throws, nothing has been moved
+    const Key& new_min = (left_children.end() - actual_borrow)->first;
+    update_parent_key_recursive(node, new_min);
+
     // Transfer suffix from left sibling to beginning of this node
     // This does a bulk copy and shifts arrays only once
     children.transfer_suffix_from(left_children, actual_borrow);
@@ -1298,10 +1273,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       }
     }
 
-    // Update parent key for this node (minimum changed to first element/child)
-    const Key& new_min = children.begin()->first;
-    update_parent_key_recursive(node, new_min);
-
     return true;
   };
 
@@ -1320,11 +1291,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
     // Calculate iterator to next element
     std::optional<iterator> next_iter;
-    if (next_in_next_leaf) {
-      // Special case: next is in next leaf, stays there (elements inserted at
-      // beginning) Return nullopt, let caller use next_leaf pointer
-      return {node, std::nullopt};
-    }
     if (next_index.has_value()) {
       // Next was in this node, index shifts right by borrowed count
       const size_t new_index = *next_index + actual_borrow;
@@ -1367,8 +1333,7 @@ std::pair<
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::borrow_from_right_sibling(NodeType* node,
                                             const std::optional<size_t>&
-                                                next_index,
-                                            bool next_in_next_leaf) {
+                                                next_index) {
   NodeType* right_sibling = find_right_sibling(node);
 
   // Can't borrow if no right sibling
@@ -1392,6 +1357,11 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       return false;
     }
 
+    // Update parent key for right sibling (its minimum changes). Do this first:
+    // if it throws, nothing has been moved
+    const Key& new_right_min = (right_children.begin() + actual_borrow)->first;
+    update_parent_key_recursive(right_sibling, new_right_min);
+
     // Transfer prefix from right sibling to end of this node
     // This does a bulk copy and shifts arrays only once
     const size_type old_size = children.size();
@@ -1406,10 +1376,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       }
     }
 
-    // Update parent key for right sibling (its minimum changed)
-    const Key& new_right_min = right_children.begin()->first;
-    update_parent_key_recursive(right_sibling, new_right_min);
-
     return true;
   };
 
@@ -1419,9 +1385,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       return {nullptr, std::nullopt};
     }
 
-    // Capture old size before borrowing (needed if next_in_next_leaf)
-    const size_type old_size = node->data.size();
-
     bool success =
         borrow_impl.template operator()<std::pair<Key, Value>, false>(
             node->data, right_sibling->data, min_leaf_size(),
@@ -1433,13 +1396,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
     // Calculate iterator to next element
     std::optional<iterator> next_iter;
-    if (next_in_next_leaf) {
-      // Special case: next was in right sibling (next leaf), now at index
-      // old_size
-      auto it = node->data.begin();
-      std::advance(it, old_size);
-      next_iter = iterator(node, it);
-    } else if (next_index.has_value() && *next_index < node->data.size()) {
+    if (next_index.has_value() && *next_index < node->data.size()) {
       // Next was in this node, index unchanged (elements appended to end)
       auto it = node->data.begin();
       std::advance(it, *next_index);
@@ -1478,8 +1435,7 @@ std::pair<
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::merge_with_left_sibling(NodeType* node,
                                           const std::optional<size_t>&
-                                              next_index,
-                                          bool next_in_next_leaf) {
+                                              next_index) {
   NodeType* left_sibling = find_left_sibling(node);
   assert(left_sibling != nullptr &&
          "merge_with_left_sibling requires left sibling");
@@ -1497,10 +1453,14 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
     // Find and remove the entry for this leaf in parent
     auto& parent_children = parent->leaf_children;
-    auto it = parent_children.find(node_min);
-    assert(it != parent_children.end() && it->second == node &&
-           "Node's minimum key should map to node in parent");
-    parent_children.erase(it->first);
+    // (at the lower bound, or one position before if its key is below the
+    // actual minimum)
+    auto it = parent_children.lower_bound(node_min);
+    if (it == parent_children.end() || it->second != node) {
+      --it;
+    }
+    assert(it->second == node && "Node should have an entry in parent");
+    parent_children.erase(it);
 
     // Merge leaf data
     const size_type count = node->data.size();
@@ -1525,11 +1485,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
     // Calculate iterator to next element
     std::optional<iterator> next_iter;
-    if (next_in_next_leaf) {
-      // Special case: next is in next leaf of result, stays there
-      // Return nullopt, let caller use next_leaf pointer
-      return {left_sibling, std::nullopt};
-    }
     if (next_index.has_value()) {
       // Next was in this node, now at left_old_size + index
       const size_t new_index = left_old_size + *next_index;
@@ -1555,10 +1510,14 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
     // Find and remove the entry for this node in parent
     auto& parent_children = parent->internal_children;
-    auto it = parent_children.find(node_min);
-    assert(it != parent_children.end() && it->second == node &&
-           "Node's minimum key should map to node in parent");
-    parent_children.erase(it->first);
+    // (at the lower bound, or one position before if its key is below the
+    // actual minimum)
+    auto it = parent_children.lower_bound(node_min);
+    if (it == parent_children.end() || it->second != node) {
+      --it;
+    }
+    assert(it->second == node && "Node should have an entry in parent");
+    parent_children.erase(it);
 
     // Merge internal node children using templated lambda
     auto merge_children = [&]<typename ChildPtrType>(auto& children,
@@ -1608,8 +1567,7 @@ std::pair<
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::merge_with_right_sibling(NodeType* node,
                                            const std::optional<size_t>&
-                                               next_index,
-                                           bool next_in_next_leaf) {
+                                               next_index) {
   NodeType* right_sibling = find_right_sibling(node);
   assert(right_sibling != nullptr &&
          "merge_with_right_sibling requires right sibling");
@@ -1618,19 +1576,21 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Capture right sibling's minimum key BEFORE transferring data
     const Key& right_sibling_min = right_sibling->data.begin()->first;
 
-    // Capture old size before merging (needed if next_in_next_leaf)
-    const size_type old_size = node->data.size();
-
     // Remove right sibling from parent
     internal_node* parent = node->parent;
     assert(parent != nullptr && "Merging non-root leaf should have parent");
 
     // Find and remove the entry for right sibling in parent
     auto& parent_children = parent->leaf_children;
-    auto it = parent_children.find(right_sibling_min);
-    assert(it != parent_children.end() && it->second == right_sibling &&
-           "Right sibling's minimum key should map to right sibling in parent");
-    parent_children.erase(it->first);
+    // (at the lower bound, or one position before if its key is below the
+    // actual minimum)
+    auto it = parent_children.lower_bound(right_sibling_min);
+    if (it == parent_children.end() || it->second != right_sibling) {
+      --it;
+    }
+    assert(it->second == right_sibling &&
+           "Right sibling should have an entry in parent");
+    parent_children.erase(it);
 
     // Merge leaf data
     const size_type count = right_sibling->data.size();
@@ -1655,13 +1615,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
     // Calculate iterator to next element
     std::optional<iterator> next_iter;
-    if (next_in_next_leaf) {
-      // Special case: next was in right sibling (next leaf), now at index
-      // old_size
-      auto it = node->data.begin();
-      std::advance(it, old_size);
-      next_iter = iterator(node, it);
-    } else if (next_index.has_value() && *next_index < node->data.size()) {
+    if (next_index.has_value() && *next_index < node->data.size()) {
       // Next was in this node, index unchanged (elements appended to end)
       auto it = node->data.begin();
       std::advance(it, *next_index);
@@ -1684,10 +1638,15 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
     // Find and remove the entry for right sibling in parent
     auto& parent_children = parent->internal_children;
-    auto it = parent_children.find(right_sibling_min);
-    assert(it != parent_children.end() && it->second == right_sibling &&
-           "Right sibling's minimum key should map to right sibling in parent");
-    parent_children.erase(it->first);
+    // (at the lower bound, or one position before if its key is below the
+    // actual minimum)
+    auto it = parent_children.lower_bound(right_sibling_min);
+    if (it == parent_children.end() || it->second != right_sibling) {
+      --it;
+    }
+    assert(it->second == right_sibling &&
+           "Right sibling should have an entry in parent");
+    parent_children.erase(it);
 
     // Merge internal node children using templated lambda
     auto merge_children = [&]<typename ChildPtrType>(auto& children,
@@ -1736,8 +1695,7 @@ std::pair<
                                  Compare, SearchModeT, Allocator>::iterator>>
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::handle_underflow(NodeType* node,
-                                   const std::optional<size_t>& next_index,
-                                   bool next_in_next_leaf) {
+                                   const std::optional<size_t>& next_index) {
   // Compute node size and underflow threshold based on node type
   size_type node_size = 0;
   size_type underflow_threshold = 0;
@@ -1747,7 +1705,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     underflow_threshold = min_leaf_size() > leaf_hysteresis()
                               ? min_leaf_size() - leaf_hysteresis()
                               : 0;
-    assert(node_size < underflow_threshold &&
+    // Called before erasing, so the leaf may still be at the threshold
+    assert(node_size <= underflow_threshold &&
            "handle_underflow called on non-underflowed leaf");
   } else {
     // internal_node - get size based on children type
@@ -1762,16 +1721,27 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   assert(node->parent != nullptr && "Root node cannot underflow");
 
+  // An earlier rebalancing of the parent that failed half-way may have left
+  // this node without siblings - redo it first
+  size_type sibling_count = 0;
+  if constexpr (std::is_same_v<NodeType, leaf_node>) {
+    sibling_count = node->parent->leaf_children.size();
+  } else {
+    sibling_count = node->parent->internal_children.size();
+  }
+  if (sibling_count == 1) {
+    handle_underflow(node->parent, std::nullopt);
+  }
+
   // Try to borrow from left sibling first
-  auto [result_node, next_iter] =
-      borrow_from_left_sibling(node, next_index, next_in_next_leaf);
+  auto [result_node, next_iter] = borrow_from_left_sibling(node, next_index);
   if (result_node != nullptr) {
     return {result_node, next_iter};
   }
 
   // Try to borrow from right sibling
   std::tie(result_node, next_iter) =
-      borrow_from_right_sibling(node, next_index, next_in_next_leaf);
+      borrow_from_right_sibling(node, next_index);
   if (result_node != nullptr) {
     return {result_node, next_iter};
   }
@@ -1780,10 +1750,10 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Prefer merging with left sibling if it exists
   NodeType* left_sibling = find_left_sibling(node);
   if (left_sibling != nullptr) {
-    return merge_with_left_sibling(node, next_index, next_in_next_leaf);
+    return merge_with_left_sibling(node, next_index);
   }
   // No left sibling - merge with right
-  return merge_with_right_sibling(node, next_index, next_in_next_leaf);
+  return merge_with_right_sibling(node, next_index);
 }
 
 // NOLINTEND(cppcoreguidelines-pro-type-union-access)
-- 
2.43.0


From 7c144cdb261fb1fad6e02efad229322339c56acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 06/22] fix: let PolicyBasedHugePageAllocator be assigned and
 compare all its pools

The const policy member deleted assignment although the allocator asks
containers to propagate it on move assignment, and operator== looked only
at the pool of the value type, so allocators with different internal pools
compared equal and rebound copies of one allocator did not.
---
 .../policy_based_hugepage_allocator.hpp       | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 055cdcf..ddd626c 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <concepts>
 #include <memory>
 #include <type_traits>
 
@@ -70,6 +71,12 @@ struct TwoPoolPolicy {  // NOLINT(readability-identifier-naming)
       : leaf_pool_(std::move(leaf_pool)),
         internal_pool_(std::move(internal_pool)) {}
 
+  /**
+   * Policies are equal if they use the same two pools.
+   */
+  friend bool operator==(const TwoPoolPolicy& lhs,
+                         const TwoPoolPolicy& rhs) = default;
+
   /**
    * Get the appropriate pool for type T.
    * - If T has next_leaf member → leaf_pool
@@ -246,9 +253,15 @@ class PolicyBasedHugePageAllocator {
   friend bool operator==(
       const PolicyBasedHugePageAllocator& lhs,
       const PolicyBasedHugePageAllocator<U, PoolPolicy>& rhs) noexcept {
-    // Compare pool pointers for leaf pools (simple equality check)
-    return lhs.policy_.template get_pool_for_type<T>() ==
-           rhs.policy_.template get_pool_for_type<U>();
+    if constexpr (std::equality_comparable<PoolPolicy>) {
+      // Compare all pools: rebound copies may allocate from any of them
+      return lhs.policy_ == rhs.policy_;
+    } else {
+      return lhs.policy_.template get_pool_for_type<T>() ==
+                 rhs.policy_.template get_pool_for_type<T>() &&
+             lhs.policy_.template get_pool_for_type<U>() ==
+                 rhs.policy_.template get_pool_for_type<U>();
+    }
   }
 
   template <typename U>
@@ -264,7 +277,7 @@ class PolicyBasedHugePageAllocator {
   [[nodiscard]] const PoolPolicy& get_policy() const { return policy_; }
 
  private:
-  const PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
+  PoolPolicy policy_;
 
   // Allow rebind to access policy_
   template <typename, typename>
-- 
2.43.0


From 1b22faa5e67a6570df77057cff9f5403238545b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 07/22] fix: keep a moved-from MultiSizeHugePageAllocator
 usable

Moving it left a null pool behind, so the next allocation of a moved-from
container dereferenced a null pointer.
---
 include/fast_containers/multi_size_hugepage_allocator.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index c6cfb0e..af512f0 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -72,6 +72,13 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       std::shared_ptr<MultiSizeHugePagePool> pool)
       : pool_(std::move(pool)) {}
 
+  // Copy operations, also used for moves: a moved-from allocator must stay
+  // usable, because moved-from containers keep theirs
+  MultiSizeHugePageAllocator(const MultiSizeHugePageAllocator& other) = default;
+  MultiSizeHugePageAllocator& operator=(
+      const MultiSizeHugePageAllocator& other) = default;
+  ~MultiSizeHugePageAllocator() = default;
+
   /**
    * Copy constructor (different type).
    *
-- 
2.43.0


From f6b3b6d69d26fc800af5cfd4ac862d026239b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 08/22] fix: do not leak or terminate when a tree cannot
 allocate

The noexcept move operations and clear() allocated a new root, so running
out of memory terminated the program or left clear() with freed nodes; the
root is now allocated by the next insertion. A throwing constructor leaked
the node being built, and a failing copy leaked the partial copy.
---
 include/fast_containers/btree.ipp | 71 ++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 48ed673..0df8f44 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -58,8 +58,13 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Always allocate an empty root leaf, then copy all elements
 
   // Copy all elements using insert (use const iterators)
-  for (const_iterator it = other.begin(); it != other.end(); ++it) {
-    insert(it->first, it->second);
+  try {
+    for (const_iterator it = other.begin(); it != other.end(); ++it) {
+      insert(it->first, it->second);
+    }
+  } catch (...) {
+    deallocate_tree();
+    throw;
   }
 }
 
@@ -73,7 +78,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::operator=(const btree& other) {
   if (this != &other) {
-    // Clear existing contents (keeps root allocated)
+    // Clear existing contents
     clear();
 
     // Copy all elements from other (use const iterators)
@@ -104,12 +109,13 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     internal_root_ = other.internal_root_;
   }
 
-  // Leave other in a valid empty state with a new empty root
+  // Leave other in a valid empty state. It gets a new root when an element is
+  // inserted, because an allocation here could fail
   other.root_is_leaf_ = true;
-  other.leaf_root_ = other.allocate_leaf_node();
+  other.leaf_root_ = nullptr;
   other.size_ = 0;
-  other.leftmost_leaf_ = other.leaf_root_;
-  other.rightmost_leaf_ = other.leaf_root_;
+  other.leftmost_leaf_ = nullptr;
+  other.rightmost_leaf_ = nullptr;
 }
 
 // Move assignment operator
@@ -136,12 +142,13 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     leftmost_leaf_ = other.leftmost_leaf_;
     rightmost_leaf_ = other.rightmost_leaf_;
 
-    // Leave other in a valid empty state with a new empty root
+    // Leave other in a valid empty state. It gets a new root when an element is
+    // inserted, because an allocation here could fail
     other.root_is_leaf_ = true;
-    other.leaf_root_ = other.allocate_leaf_node();
+    other.leaf_root_ = nullptr;
     other.size_ = 0;
-    other.leftmost_leaf_ = other.leaf_root_;
-    other.rightmost_leaf_ = other.leaf_root_;
+    other.leftmost_leaf_ = nullptr;
+    other.rightmost_leaf_ = nullptr;
   }
   return *this;
 }
@@ -685,7 +692,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::allocate_leaf_node() {
   using leaf_alloc_traits = std::allocator_traits<decltype(leaf_alloc_)>;
   leaf_node* node = leaf_alloc_.allocate(1);
-  leaf_alloc_traits::construct(leaf_alloc_, node);
+  try {
+    leaf_alloc_traits::construct(leaf_alloc_, node);
+  } catch (...) {
+    leaf_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -701,7 +713,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   using internal_alloc_traits =
       std::allocator_traits<decltype(internal_alloc_)>;
   internal_node* node = internal_alloc_.allocate(1);
-  internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  try {
+    internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  } catch (...) {
+    internal_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -730,7 +747,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   internal_alloc_.deallocate(node, 1);
 }
 
-// clear - removes all elements but keeps root allocated
+// clear - removes all elements
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
           SearchMode SearchModeT, typename Allocator>
@@ -745,14 +762,9 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Just clear the root leaf's data
     leaf_root_->data.clear();
   } else {
-    // Deallocate internal tree and reset to empty leaf root
-    deallocate_internal_subtree(internal_root_);
-
-    // Allocate new empty leaf root
-    leaf_root_ = allocate_leaf_node();
-    root_is_leaf_ = true;
-    leftmost_leaf_ = leaf_root_;
-    rightmost_leaf_ = leaf_root_;
+    // Deallocate all nodes. The next insertion allocates a new root, because
+    // an allocation here could fail
+    deallocate_tree();
   }
 
   size_ = 0;
@@ -766,14 +778,16 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::deallocate_tree() {
   if (root_is_leaf_) {
-    // Tree has only one node (leaf root) - deallocate it
-    deallocate_leaf_node(leaf_root_);
+    // Tree has only one node (leaf root), or none if it was moved from
+    if (leaf_root_ != nullptr) {
+      deallocate_leaf_node(leaf_root_);
+    }
   } else {
     // Tree has internal nodes - use recursive deallocation
     deallocate_internal_subtree(internal_root_);
   }
 
-  // Reset state to nullptr (for destructor)
+  // Reset state to nullptr (no root)
   root_is_leaf_ = true;
   leaf_root_ = nullptr;
   size_ = 0;
@@ -859,6 +873,13 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::insert_impl(const Key& key, OnExists&& on_exists,
                               GetValue&& get_value) {
+  // A tree that has been cleared or moved from may have no root
+  if (leftmost_leaf_ == nullptr) {
+    leaf_root_ = allocate_leaf_node();
+    leftmost_leaf_ = leaf_root_;
+    rightmost_leaf_ = leaf_root_;
+  }
+
   // Find the appropriate leaf for the key
   leaf_node* leaf = find_leaf_for_key(key);
 
-- 
2.43.0


From a72445202c5c595f37bb720e71276fed2c19a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 09/22] fix: keep nodes with their allocator on assignment and
 swap

Copy assignment, move assignment and swap ignored the allocators, so a
tree returned nodes to a pool they did not come from and could outlive the
pool its nodes live in. Follow the propagation traits, and have the
library's allocators propagate on swap as they do on move assignment.
---
 include/fast_containers/btree.hpp             | 12 +++++-
 include/fast_containers/btree.ipp             | 40 ++++++++++++++++++-
 .../fast_containers/hugepage_allocator.hpp    |  1 +
 .../multi_size_hugepage_allocator.hpp         |  1 +
 .../policy_based_hugepage_allocator.hpp       |  1 +
 5 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index f876150..924e874 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -174,6 +174,12 @@ class btree {
    * Leaf node - stores actual key-value pairs in an dense_map.
    * Forms a doubly-linked list with other leaf nodes for iteration.
    */
+  // Move assignment can always take over the nodes of the other tree
+  static constexpr bool noexcept_move_assign =
+      std::allocator_traits<
+          Allocator>::propagate_on_container_move_assignment::value ||
+      std::allocator_traits<Allocator>::is_always_equal::value;
+
   // Forward declaration for leaf_node to use in internal_node
   struct internal_node;
 
@@ -287,9 +293,11 @@ class btree {
   /**
    * Move assignment operator - replaces contents by taking ownership.
    * Leaves other in a valid but empty state.
-   * Complexity: O(n) where n is this tree's size (due to deallocation)
+   * Complexity: O(n) where n is this tree's size (due to deallocation).
+   * O(m log m) where m = other.size() if the allocators are not equal and do
+   * not propagate on move assignment.
    */
-  btree& operator=(btree&& other) noexcept;
+  btree& operator=(btree&& other) noexcept(noexcept_move_assign);
 
   /**
    * Constructs the tree from an initializer list.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 0df8f44..f540b31 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -81,6 +81,15 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Clear existing contents
     clear();
 
+    // Take over other's allocators if they propagate. Nodes must go back to the
+    // allocators they came from first
+    if constexpr (std::allocator_traits<Allocator>::
+                      propagate_on_container_copy_assignment::value) {
+      deallocate_tree();
+      leaf_alloc_ = other.leaf_alloc_;
+      internal_alloc_ = other.internal_alloc_;
+    }
+
     // Copy all elements from other (use const iterators)
     for (const_iterator it = other.begin(); it != other.end(); ++it) {
       insert(it->first, it->second);
@@ -126,11 +135,32 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>&
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::operator=(btree&& other) noexcept {
+      Allocator>::operator=(btree&& other) noexcept(noexcept_move_assign) {
   if (this != &other) {
+    // Nodes of an unequal allocator that does not propagate cannot be taken
+    // over, only their elements can
+    if constexpr (!noexcept_move_assign) {
+      if (!(leaf_alloc_ == other.leaf_alloc_ &&
+            internal_alloc_ == other.internal_alloc_)) {
+        clear();
+        for (iterator it = other.begin(); it != other.end(); ++it) {
+          try_emplace(it->first, std::move(it->second));
+        }
+        other.clear();
+        return *this;
+      }
+    }
+
     // Deallocate existing tree (including root)
     deallocate_tree();
 
+    // Other's nodes come with their allocators
+    if constexpr (std::allocator_traits<Allocator>::
+                      propagate_on_container_move_assignment::value) {
+      leaf_alloc_ = std::move(other.leaf_alloc_);
+      internal_alloc_ = std::move(other.internal_alloc_);
+    }
+
     // Move other's resources to this
     root_is_leaf_ = other.root_is_leaf_;
     if (root_is_leaf_) {
@@ -206,6 +236,14 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     }
   }
 
+  // Nodes come with their allocators
+  if constexpr (std::allocator_traits<
+                    Allocator>::propagate_on_container_swap::value) {
+    using std::swap;
+    swap(leaf_alloc_, other.leaf_alloc_);
+    swap(internal_alloc_, other.internal_alloc_);
+  }
+
   // Swap other members
   std::swap(root_is_leaf_, other.root_is_leaf_);
   std::swap(size_, other.size_);
diff --git a/include/fast_containers/hugepage_allocator.hpp b/include/fast_containers/hugepage_allocator.hpp
index 34b58fa..bb6dd99 100644
--- a/include/fast_containers/hugepage_allocator.hpp
+++ b/include/fast_containers/hugepage_allocator.hpp
@@ -52,6 +52,7 @@ class HugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Since n==1 is required, these are compile-time constants
diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index af512f0..7d9cd8e 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -61,6 +61,7 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;  // Stateful allocator
 
   /**
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index ddd626c..a46a5b3 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -138,6 +138,7 @@ class PolicyBasedHugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Cache line size for alignment (typical x86-64 cache line)
-- 
2.43.0


From 81dffec5d785f38795e4bbfdb2ba107901c982c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 10/22] fix: grow HugePagePool by enough for requests above the
 growth size

A request larger than the growth size was served from a region too small
for it, and the remaining-bytes count wrapped around. A mapping also leaked
when recording its region failed.
---
 include/fast_containers/hugepage_pool.hpp | 33 ++++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ff35ce7..ec73c1d 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -6,8 +6,11 @@
 
 #include <sys/mman.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include <stdexcept>
 #include <vector>
 
@@ -52,6 +55,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   static constexpr size_type hugepage_size = 2UL * 1024 * 1024;  // 2MB
+  static constexpr size_type page_size = 4096;  // Smallest mapping alignment
 
   struct memory_region {
     std::byte* base = nullptr;
@@ -124,6 +128,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
                         bool use_hugepages = true,
                         size_type growth_size = 64UL * 1024 * 1024)
       : initial_size_(initial_size), growth_size_(growth_size) {
+    // Make sure that a mapped region can be recorded
+    regions_.reserve(1);
+
     // Allocate initial region
     memory_region initial_region;
 
@@ -192,8 +199,13 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type padding = aligned - current;
 
     // Grow pool if needed
-    if (bytes_remaining_ < bytes + padding) {
-      grow();
+    if (bytes_remaining_ < padding || bytes_remaining_ - padding < bytes) {
+      // Regions are page-aligned, larger alignments may need padding in them
+      const size_type max_padding = alignment > page_size ? alignment : 0;
+      if (bytes > std::numeric_limits<size_type>::max() - max_padding) {
+        throw std::bad_alloc();
+      }
+      grow(bytes + max_padding);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -302,20 +314,27 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   /**
-   * Grow the pool by allocating a new region of growth_size_.
+   * Grow the pool by allocating a new region of growth_size_, or of min_size if
+   * that is larger.
    * Called when current region is exhausted.
    */
-  void grow() {
+  void grow(size_type min_size) {
     memory_region new_region;
 
+    // A request can be larger than the growth size
+    const size_type size = std::max(growth_size_, min_size);
+
+    // Make sure that a mapped region can be recorded
+    regions_.reserve(regions_.size() + 1);
+
     if (using_hugepages_) {
-      new_region = allocate_hugepages_region(growth_size_);
+      new_region = allocate_hugepages_region(size);
       if (new_region.base == nullptr) {
         // Hugepages no longer available, fall back to regular
-        new_region = allocate_regular_region(growth_size_);
+        new_region = allocate_regular_region(size);
       }
     } else {
-      new_region = allocate_regular_region(growth_size_);
+      new_region = allocate_regular_region(size);
     }
 
     regions_.push_back(new_region);
-- 
2.43.0


From f0ed25ed4e2561cfb85dd2b48382fd314173bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 11/22] fix: reuse freed pool blocks only for requests they can
 hold

HugePagePool kept one free list for all sizes, so trees of different types
sharing a pool (or a request with a larger size or alignment) were handed
blocks too small for them, overlapping live data.
---
 include/fast_containers/hugepage_pool.hpp | 75 ++++++++++++++++++-----
 1 file changed, 61 insertions(+), 14 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ec73c1d..fce6c19 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -46,7 +46,7 @@ inline constexpr bool allocator_stats_enabled = false;
  * Implementation notes:
  * - Not thread-safe (add locking if needed for concurrent use)
  * - Intrusive free list: freed blocks store next pointer in-place
- * - Requires allocated size >= sizeof(void*) for free list
+ * - Free list per block size, block sizes are multiples of sizeof(void*)
  * - Memory is allocated on NUMA node via first-touch policy during pre-faulting
  */
 class HugePagePool {  // NOLINT(readability-identifier-naming)
@@ -62,6 +62,13 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type size = 0;
   };
 
+  // Freed blocks of one size. Blocks are only reused for requests of the same
+  // size, because trees of different types may share a pool
+  struct free_list {
+    size_type block_size = 0;
+    void* head = nullptr;  // Head of intrusive free list
+  };
+
   /**
    * Statistics tracked by the pool.
    * Only populated when allocator_stats_enabled is true.
@@ -108,7 +115,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   const size_type initial_size_;  // NOLINT(readability-identifier-naming)
   const size_type growth_size_;   // NOLINT(readability-identifier-naming)
   bool using_hugepages_ = false;
-  void* free_list_head_ = nullptr;  // Head of intrusive free list
+  std::vector<free_list> free_lists_;  // One per block size, usually just one
   stats stats_;
 
  public:
@@ -179,10 +186,28 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (bytes > std::numeric_limits<size_type>::max() - sizeof(void*)) {
+      throw std::bad_alloc();
+    }
+    const size_type block_size = get_block_size(bytes);
+    alignment = std::max(alignment, alignof(void*));
+
     // Try to allocate from free list first
-    if (free_list_head_ != nullptr) {
-      void* ptr = free_list_head_;
-      free_list_head_ = *reinterpret_cast<void**>(ptr);
+    free_list* list = find_free_list(block_size);
+    if (list == nullptr) {
+      // Create the list now, so that deallocate() never needs memory for it
+      free_lists_.push_back({.block_size = block_size, .head = nullptr});
+      list = &free_lists_.back();
+    }
+    void** link = &list->head;
+    // Skip blocks that were allocated with a smaller alignment
+    while (*link != nullptr &&
+           (reinterpret_cast<uintptr_t>(*link) & (alignment - 1)) != 0) {
+      link = static_cast<void**>(*link);
+    }
+    if (*link != nullptr) {
+      void* ptr = *link;
+      *link = *static_cast<void**>(ptr);
 
       stats_.record_allocation(bytes);
 
@@ -199,13 +224,13 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type padding = aligned - current;
 
     // Grow pool if needed
-    if (bytes_remaining_ < padding || bytes_remaining_ - padding < bytes) {
+    if (bytes_remaining_ < padding || bytes_remaining_ - padding < block_size) {
       // Regions are page-aligned, larger alignments may need padding in them
       const size_type max_padding = alignment > page_size ? alignment : 0;
-      if (bytes > std::numeric_limits<size_type>::max() - max_padding) {
+      if (block_size > std::numeric_limits<size_type>::max() - max_padding) {
         throw std::bad_alloc();
       }
-      grow(bytes + max_padding);
+      grow(block_size + max_padding);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -217,8 +242,8 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     // NOLINTNEXTLINE(performance-no-int-to-ptr)
     next_free_ = reinterpret_cast<std::byte*>(aligned);
     void* result = next_free_;
-    next_free_ += bytes;
-    bytes_remaining_ -= (bytes + padding);
+    next_free_ += block_size;
+    bytes_remaining_ -= (block_size + padding);
 
     stats_.record_allocation(bytes);
 
@@ -229,16 +254,19 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
    * Deallocate raw memory.
    *
    * @param ptr Pointer to memory to deallocate
-   * @param bytes Number of bytes (for statistics tracking)
+   * @param bytes Number of bytes it was allocated with
    */
   void deallocate(void* ptr, size_type bytes) {
     if (ptr == nullptr || bytes == 0) {
       return;
     }
 
-    // Add to intrusive free list
-    *reinterpret_cast<void**>(ptr) = free_list_head_;
-    free_list_head_ = ptr;
+    // Add to intrusive free list for its size
+    free_list* list = find_free_list(get_block_size(bytes));
+    if (list != nullptr) {
+      *static_cast<void**>(ptr) = list->head;
+      list->head = ptr;
+    }
 
     stats_.record_deallocation(bytes);
   }
@@ -313,6 +341,25 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   [[nodiscard]] size_type get_peak_usage() const { return stats_.peak_usage; }
 
  private:
+  /**
+   * Size of the block for a request: room for the free list's next pointer.
+   */
+  static constexpr size_type get_block_size(size_type bytes) {
+    return (bytes + sizeof(void*) - 1) & ~(sizeof(void*) - 1);
+  }
+
+  /**
+   * Find the free list for a block size, nullptr if there is none.
+   */
+  free_list* find_free_list(size_type block_size) {
+    for (auto& list : free_lists_) {
+      if (list.block_size == block_size) {
+        return &list;
+      }
+    }
+    return nullptr;
+  }
+
   /**
    * Grow the pool by allocating a new region of growth_size_, or of min_size if
    * that is larger.
-- 
2.43.0


From a044c03eb988f9ef26e31a6d35db949f50bc75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 12/22] fix: refuse multi-size requests that cannot be
 represented

---
 .../multi_size_hugepage_allocator.hpp         |  6 +++++
 .../multi_size_hugepage_pool.hpp              | 26 +++++++++++++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 7d9cd8e..9527526 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -5,7 +5,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 
 #include "multi_size_hugepage_pool.hpp"
 
@@ -104,6 +106,10 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (n > std::numeric_limits<size_type>::max() / sizeof(T)) {
+      throw std::bad_array_new_length();
+    }
+
     const size_type bytes = n * sizeof(T);
     void* ptr = pool_->allocate(bytes, alignof(T));
 
diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index c8cde2a..e410bff 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -6,8 +6,11 @@
 
 #include <bit>
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <unordered_map>
+#include <utility>
 
 #include "hugepage_pool.hpp"
 
@@ -89,6 +92,7 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
    *
    * @param bytes Requested allocation size
    * @return Size class (rounded up size)
+   * @throws std::bad_alloc if there is no size class that large
    */
   [[nodiscard]] static constexpr size_type get_size_class(size_type bytes) {
     if (bytes == 0) {
@@ -103,6 +107,9 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
       return (bytes + 255) & ~static_cast<size_type>(255);
     }
     // Round up to next power of 2
+    if (bytes > std::bit_floor(std::numeric_limits<size_type>::max())) {
+      throw std::bad_alloc();  // Not representable
+    }
     return std::bit_ceil(bytes);
   }
 
@@ -125,15 +132,17 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-    auto& pool = pools_[size_class];
-    if (!pool) {
-      pool = std::make_unique<HugePagePool>(
+    auto it = pools_.find(size_class);
+    if (it == pools_.end()) {
+      // Create the pool first, so that a failure does not leave an empty entry
+      auto pool = std::make_unique<HugePagePool>(
           initial_size_per_pool_, use_hugepages_, growth_size_per_pool_);
+      it = pools_.emplace(size_class, std::move(pool)).first;
     }
 
     // Allocate from size-specific pool
     // Each pool only handles uniform-sized blocks, so free list works!
-    return pool->allocate(size_class, alignment);
+    return it->second->allocate(size_class, alignment);
   }
 
   /**
@@ -162,7 +171,14 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
    *
    * @return true if hugepages were successfully enabled
    */
-  [[nodiscard]] bool using_hugepages() const { return use_hugepages_; }
+  [[nodiscard]] bool using_hugepages() const {
+    for (const auto& [size_class, pool] : pools_) {
+      if (pool->using_hugepages()) {
+        return true;
+      }
+    }
+    return false;
+  }
 
   /**
    * Get number of active size classes (pools created).
-- 
2.43.0


From ecb3b43a6031c616ca29aa5f45df34f04bd15491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 13/22] fix: make n + iterator of dense_map callable

---
 include/fast_containers/dense_map.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index a190006..7ed2efb 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -588,6 +588,11 @@ class dense_map {
       return dense_map_iterator(array_, index_ + n);
     }
 
+    friend dense_map_iterator operator+(difference_type n,
+                                        const dense_map_iterator& it) {
+      return it + n;
+    }
+
     dense_map_iterator operator-(difference_type n) const {
       return dense_map_iterator(array_, index_ - n);
     }
@@ -642,18 +647,6 @@ class dense_map {
   };
 };
 
-// Non-member operator+ for iterator + difference
-template <typename Key, typename Value, std::size_t Length, typename Compare,
-          SearchMode SearchModeT, bool IsConst>
-typename dense_map<Key, Value, Length, Compare,
-                   SearchModeT>::template dense_map_iterator<IsConst>
-operator+(typename dense_map<Key, Value, Length, Compare, SearchModeT>::
-              template dense_map_iterator<IsConst>::difference_type n,
-          const typename dense_map<Key, Value, Length, Compare, SearchModeT>::
-              template dense_map_iterator<IsConst>& it) {
-  return it + n;
-}
-
 }  // namespace kressler::fast_containers
 
 // Include implementation
-- 
2.43.0


From 6b93f5ceb679228db8b2e9c6c37c9f06e496f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 14/22] fix: let moving a dense_map throw if its elements can

Its move operations were unconditionally noexcept although they construct
and assign elements, so a throwing default constructor or element move
terminated the program.
---
 include/fast_containers/dense_map.hpp | 10 ++++++++--
 include/fast_containers/dense_map.ipp | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 7ed2efb..6c37df2 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -139,7 +139,11 @@ class dense_map {
    *
    * @param other The ordered array to move from (will be left empty)
    */
-  dense_map(dense_map&& other) noexcept;
+  dense_map(dense_map&& other) noexcept(
+      std::is_nothrow_default_constructible_v<Key> &&
+      std::is_nothrow_default_constructible_v<Value> &&
+      std::is_nothrow_move_assignable_v<Key> &&
+      std::is_nothrow_move_assignable_v<Value>);
 
   /**
    * Copy assignment operator - replaces contents with a copy of another array
@@ -158,7 +162,9 @@ class dense_map {
    * @param other The ordered array to move from (will be left empty)
    * @return Reference to this array
    */
-  dense_map& operator=(dense_map&& other) noexcept;
+  dense_map& operator=(dense_map&& other) noexcept(
+      std::is_nothrow_move_assignable_v<Key> &&
+      std::is_nothrow_move_assignable_v<Value>);
 
   /**
    * Destructor - cleans up resources.
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 30ae2b8..e99540e 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -43,7 +43,10 @@ template <typename Key, typename Value, std::size_t Length, typename Compare,
           SearchMode SearchModeT>
   requires ComparatorCompatible<Key, Compare>
 dense_map<Key, Value, Length, Compare, SearchModeT>::dense_map(
-    dense_map&& other) noexcept
+    dense_map&& other) noexcept(std::is_nothrow_default_constructible_v<Key> &&
+                                std::is_nothrow_default_constructible_v<Value> &&
+                                std::is_nothrow_move_assignable_v<Key> &&
+                                std::is_nothrow_move_assignable_v<Value>)
     : size_(other.size_), comp_(std::move(other.comp_)) {
   // Move the active elements
   if (size_ > 0) {
@@ -97,15 +100,19 @@ template <typename Key, typename Value, std::size_t Length, typename Compare,
   requires ComparatorCompatible<Key, Compare>
 dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
-    dense_map&& other) noexcept {
+    dense_map&& other) noexcept(std::is_nothrow_move_assignable_v<Key> &&
+                                std::is_nothrow_move_assignable_v<Value>) {
   if (this != &other) {
-    size_ = other.size_;
+    // Empty while elements are moved, in case that throws
+    size_ = 0;
     // Move the active elements
-    if (size_ > 0) {
-      std::move(other.keys_.data(), other.keys_.data() + size_, keys_.data());
-      std::move(other.values_.data(), other.values_.data() + size_,
+    if (other.size_ > 0) {
+      std::move(other.keys_.data(), other.keys_.data() + other.size_,
+                keys_.data());
+      std::move(other.values_.data(), other.values_.data() + other.size_,
                 values_.data());
     }
+    size_ = other.size_;
     // Leave other in valid empty state
     other.size_ = 0;
   }
-- 
2.43.0


From a7e2da20468a1197b1fb10f3c4fba289ba60dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 15/22] fix: report the percentiles of the median run in the
 A/B script

aggregate_results() stored the middle pass in running order, not the run with the
median P99.9, and printed it as 'from median run'.
---
 scripts/interleaved_btree_benchmark.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/interleaved_btree_benchmark.py b/scripts/interleaved_btree_benchmark.py
index 4248189..d4c4249 100755
--- a/scripts/interleaved_btree_benchmark.py
+++ b/scripts/interleaved_btree_benchmark.py
@@ -181,8 +181,12 @@ def aggregate_results(results: Dict[str, List[Dict[str, Any]]]) -> Dict[str, Dic
             "erase_p50_max": max(erase_p50_values),
             "erase_p50_stdev": stdev(erase_p50_values) if len(erase_p50_values) > 1 else 0,
             "erase_p50_values": erase_p50_values,
-            # Store full performance data from median run
-            "median_run": pass_results[len(pass_results) // 2]["performance"]
+            # Store full performance data from the median run of each operation
+            "median_run": {
+                op: sorted((r["performance"][op] for r in pass_results),
+                           key=lambda perf: perf["p99_9"])[len(pass_results) // 2]
+                for op in ("insert", "find", "erase")
+            }
         }
 
     return aggregated
-- 
2.43.0


From 6035b3df75f3fa4f08dd06aa8cac7143ebbf20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 16/22] fix: btree_stress divides by zero and erases from an
 empty set for small batches

---
 src/binary/btree_stress.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary/btree_stress.cpp b/src/binary/btree_stress.cpp
index 5a4142d..c9c3c0c 100644
--- a/src/binary/btree_stress.cpp
+++ b/src/binary/btree_stress.cpp
@@ -4,6 +4,7 @@
 
 #include <benchmark/benchmark.h>
 
+#include <algorithm>
 #include <chrono>
 #include <fast_containers/btree.hpp>
 #include <iostream>
@@ -102,6 +103,9 @@ int main(int argc, char** argv) {
     };
 
     auto remove = [&]() -> void {
+      if (seen.empty()) {
+        return;
+      }
       auto key = *seen.begin();
       seen.erase(key);
       ordered_map.erase(key);
@@ -140,7 +144,7 @@ int main(int argc, char** argv) {
     find();
     validate();
 
-    size_t validate_every = batch_size / 10;
+    size_t validate_every = std::max<size_t>(1, batch_size / 10);
     // Run erase/insert batches
     for (size_t batch = 0; batch < batches; ++batch) {
       for (size_t i = 0; i < batch_size; ++i) {
-- 
2.43.0


From 685490e0d9461aff370f840bf2b5594f3a231982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 17/22] fix: btree_8_256 hugepage benchmarks measure 32-byte
 values

---
 src/binary/btree_benchmark.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/btree_benchmark.cpp b/src/binary/btree_benchmark.cpp
index ba0925a..f79eea2 100644
--- a/src/binary/btree_benchmark.cpp
+++ b/src/binary/btree_benchmark.cpp
@@ -343,7 +343,7 @@ int main(int argc, char** argv) {
              make_two_pool_allocator<int64_t, std::array<std::byte, 256>>(
                  64ul * 1024ul * 1024ul, 64ul * 1024ul * 1024ul);
          benchmarker(
-             btree<int64_t, std::array<std::byte, 32>, 8, 128,
+             btree<int64_t, std::array<std::byte, 256>, 8, 128,
                    std::less<int64_t>, SearchMode::Linear, decltype(alloc)>{
                  alloc},
              stats);
@@ -362,7 +362,7 @@ int main(int argc, char** argv) {
              make_two_pool_allocator<int64_t, std::array<std::byte, 256>>(
                  64ul * 1024ul * 1024ul, 64ul * 1024ul * 1024ul);
          benchmarker(
-             btree<int64_t, std::array<std::byte, 32>, 8, 128,
+             btree<int64_t, std::array<std::byte, 256>, 8, 128,
                    std::less<int64_t>, SearchMode::SIMD, decltype(alloc)>{
                  alloc},
              stats);
-- 
2.43.0


From 4655d08c77d3f1c75da4704fddf73a30ea71021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 18/22] fix: --json output is mixed with pool statistics when
 ALLOCATOR_STATS is on

---
 src/binary/btree_benchmark.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/binary/btree_benchmark.cpp b/src/binary/btree_benchmark.cpp
index f79eea2..025fd23 100644
--- a/src/binary/btree_benchmark.cpp
+++ b/src/binary/btree_benchmark.cpp
@@ -66,13 +66,22 @@ struct std::hash<std::array<int64_t, N>> {
   }
 };
 
+// Set by --json, which reserves standard output for the JSON document
+static bool json_output = false;
+
+// Stream the pool statistics are printed to
+inline std::ostream& pool_stats_stream() {
+  return json_output ? std::cerr : std::cout;
+}
+
 auto print_pool_stats = [](const HugePagePool& pool,
                            std::string_view name) -> void {
 #ifdef ALLOCATOR_STATS
-  std::cout << name << " pool stats:\n";
-  std::println("a: {}, d: {}, g: {}, b: {}, p: {}", pool.get_allocations(),
-               pool.get_deallocations(), pool.get_growth_events(),
-               pool.get_bytes_allocated(), pool.get_peak_usage());
+  pool_stats_stream() << name << " pool stats:\n";
+  std::println(pool_stats_stream(), "a: {}, d: {}, g: {}, b: {}, p: {}",
+               pool.get_allocations(), pool.get_deallocations(),
+               pool.get_growth_events(), pool.get_bytes_allocated(),
+               pool.get_peak_usage());
 #endif
 };
 
@@ -80,16 +89,18 @@ auto print_multi_size_pool_stats =
     [](const std::shared_ptr<MultiSizeHugePagePool>& pool,
        std::string_view name) -> void {
 #ifdef ALLOCATOR_STATS
-  std::cout << name << " multi-size pool stats:\n";
-  std::println("  Active size classes: {}", pool->active_size_classes());
-  std::println("  Using hugepages: {}", pool->using_hugepages());
+  pool_stats_stream() << name << " multi-size pool stats:\n";
+  std::println(pool_stats_stream(), "  Active size classes: {}",
+               pool->active_size_classes());
+  std::println(pool_stats_stream(), "  Using hugepages: {}",
+               pool->using_hugepages());
 
   // Print stats for each underlying pool
-  std::cout << "  Per-size-class stats:\n";
+  pool_stats_stream() << "  Per-size-class stats:\n";
   for (const auto& [size_class, underlying_pool] : pool->get_pools()) {
     if (underlying_pool) {
-      std::print("    Size class {}B: ", size_class);
-      std::println("a: {}, d: {}, g: {}, b: {}, p: {}",
+      std::print(pool_stats_stream(), "    Size class {}B: ", size_class);
+      std::println(pool_stats_stream(), "a: {}, d: {}, g: {}, b: {}, p: {}",
                    underlying_pool->get_allocations(),
                    underlying_pool->get_deallocations(),
                    underlying_pool->get_growth_events(),
@@ -209,7 +220,6 @@ using LambdaType = std::function<void(TimingStats&)>;
 
 int main(int argc, char** argv) {
   bool show_help = false;
-  bool json_output = false;
   uint64_t seed = 42;
   size_t target_iterations = 1000;
   size_t tree_size = 1000000;
-- 
2.43.0


From 38858ffd3563cf94b9f0e379dd39b9cc7c475862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:30 +0000
Subject: [PATCH 19/22] fix: let the pre-commit hook see renamed files and
 names with special characters

---
 hooks/pre-commit | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hooks/pre-commit b/hooks/pre-commit
index c6c2464..5a6f94f 100755
--- a/hooks/pre-commit
+++ b/hooks/pre-commit
@@ -18,9 +18,9 @@ if ! command -v clang-format &> /dev/null; then
 fi
 
 # Get list of staged C++ files
-STAGED_FILES=$(git diff --cached --name-only --diff-filter=ACM | grep -E '\.(cpp|hpp|ipp)$')
+mapfile -d '' -t STAGED_FILES < <(git diff --cached --name-only -z --diff-filter=ACMR | grep -zE '\.(cpp|hpp|ipp)$')
 
-if [ -z "$STAGED_FILES" ]; then
+if [ ${#STAGED_FILES[@]} -eq 0 ]; then
     # No C++ files staged, nothing to format
     exit 0
 fi
@@ -29,12 +29,12 @@ echo "Running clang-format on staged C++ files..."
 
 # Format each staged file
 FILES_FORMATTED=0
-for file in $STAGED_FILES; do
+for file in "${STAGED_FILES[@]}"; do
     # Only format if file exists (handles deleted files)
     if [ -f "$file" ]; then
         echo "  Formatting: $file"
         clang-format -i "$file"
-        git add "$file"
+        git --literal-pathspecs add -- "$file"
         FILES_FORMATTED=$((FILES_FORMATTED + 1))
     fi
 done
@@ -45,9 +45,9 @@ fi
 
 # Run clang-tidy on staged production headers
 # Only check files in include/fast_containers/ to avoid test files
-STAGED_HEADERS=$(git diff --cached --name-only --diff-filter=ACM | grep -E '^include/fast_containers/.*\.(hpp|ipp)$')
+mapfile -d '' -t STAGED_HEADERS < <(git diff --cached --name-only -z --diff-filter=ACMR | grep -zE '^include/fast_containers/.*\.(hpp|ipp)$')
 
-if [ -n "$STAGED_HEADERS" ]; then
+if [ ${#STAGED_HEADERS[@]} -gt 0 ]; then
     # Check if clang-tidy is available
     if ! command -v clang-tidy-19 &> /dev/null; then
         echo "Warning: clang-tidy-19 not found. Skipping clang-tidy checks."
@@ -77,7 +77,7 @@ if [ -n "$STAGED_HEADERS" ]; then
     echo "Running clang-tidy on staged production headers..."
 
     TIDY_FAILED=0
-    for file in $STAGED_HEADERS; do
+    for file in "${STAGED_HEADERS[@]}"; do
         if [ -f "$file" ]; then
             echo "  Checking: $file"
             if ! clang-tidy-19 -p cmake-build-clang-tidy "$file" 2>&1 | grep -q "warning:"; then
-- 
2.43.0


From 2ffd895f2415a32e857e06a295d523ef73e635b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:30 +0000
Subject: [PATCH 20/22] fix: keep the pre-commit hook from staging changes that
 were left unstaged

---
 hooks/pre-commit | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hooks/pre-commit b/hooks/pre-commit
index 5a6f94f..f7c3c49 100755
--- a/hooks/pre-commit
+++ b/hooks/pre-commit
@@ -27,16 +27,28 @@ fi
 
 echo "Running clang-format on staged C++ files..."
 
+# Format what is staged, which may differ from what is in the working tree
+format_staged() {
+    local mode formatted
+    mode=$(git --literal-pathspecs ls-files --stage -- "$1" | cut -d ' ' -f 1)
+    formatted=$(set -o pipefail
+        git cat-file blob ":$1" | clang-format --assume-filename="$1" \
+            | git hash-object -w --stdin) || return 0
+    git update-index --cacheinfo "$mode,$formatted,$1"
+}
+
 # Format each staged file
 FILES_FORMATTED=0
 for file in "${STAGED_FILES[@]}"; do
-    # Only format if file exists (handles deleted files)
-    if [ -f "$file" ]; then
-        echo "  Formatting: $file"
+    echo "  Formatting: $file"
+    if git --literal-pathspecs diff --quiet -- "$file"; then
         clang-format -i "$file"
         git --literal-pathspecs add -- "$file"
-        FILES_FORMATTED=$((FILES_FORMATTED + 1))
+    else
+        # Don't stage the changes that were left unstaged
+        format_staged "$file"
     fi
+    FILES_FORMATTED=$((FILES_FORMATTED + 1))
 done
 
 if [ $FILES_FORMATTED -gt 0 ]; then
-- 
2.43.0


From 094a437dd62bf3d05bb32ab343e8f3a0f53f44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:17 +0000
Subject: [PATCH 21/22] fix: give the tree's iterators the pointer type their
 operator-> returns

---
 include/fast_containers/btree.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 924e874..d36dc04 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -356,7 +356,8 @@ class btree {
     using iterator_category = std::bidirectional_iterator_tag;
     using difference_type = std::ptrdiff_t;
     using value_type = btree::value_type;
-    using pointer = value_type*;
+    using pointer = typename dense_map<Key, Value, LeafNodeSize, Compare,
+                                       SearchModeT>::iterator::pointer;
     using reference = typename dense_map<Key, Value, LeafNodeSize, Compare,
                                          SearchModeT>::iterator::reference;
 
@@ -476,7 +477,8 @@ class btree {
     using iterator_category = std::bidirectional_iterator_tag;
     using difference_type = std::ptrdiff_t;
     using value_type = btree::value_type;
-    using pointer = value_type*;
+    using pointer = typename dense_map<Key, Value, LeafNodeSize, Compare,
+                                       SearchModeT>::iterator::pointer;
     using reference = typename dense_map<Key, Value, LeafNodeSize, Compare,
                                          SearchModeT>::iterator::reference;
 
-- 
2.43.0


From f7be0b6e45d6881584ef7e49d17f4e848e31c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:17 +0000
Subject: [PATCH 22/22] fix: make the array map's iterators default
 constructible

---
 include/fast_containers/dense_map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 6c37df2..d85cd46 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -542,6 +542,8 @@ class dense_map {
     using array_ptr_type =
         std::conditional_t<IsConst, const dense_map*, dense_map*>;
 
+    dense_map_iterator() : array_(nullptr), index_(0) {}
+
     dense_map_iterator(array_ptr_type arr, size_type idx)
         : array_(arr), index_(idx) {}
 
-- 
2.43.0

