From dd9009c286ace68fc40b2f441c51cb493ed5580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/64] fix: make the non-member swap() of flat_segment_tree
 instantiable

Its exception specification asked std::is_nothrow_swappable for the very type
whose swap overload is being declared, which makes it depend on itself; every
call was rejected by the compiler.
---
 include/mdds/flat_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 88c8910..d4635d8 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -799,7 +799,7 @@ private:
 
 template<typename Key, typename Value>
 void swap(flat_segment_tree<Key, Value>& left, flat_segment_tree<Key, Value>& right) noexcept(
-    std::is_nothrow_swappable_v<flat_segment_tree<Key, Value>>)
+    noexcept(left.swap(right)))
 {
     left.swap(right);
 }
-- 
2.43.0


From 0932e3cff59f3a1668528e4e9ba61bc8893dc0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 02/64] fix: reject flat_segment_tree insertions that end
 exactly at the minimum key

The end key is exclusive, so such a segment does not overlap the tree at all.
Clipping its start key produced an empty segment, which dereferenced the null
node left of the leftmost one.
---
 include/mdds/flat_segment_tree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 9c63927..c3df0f3 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -841,7 +841,7 @@ bool flat_segment_tree<Key, Value>::adjust_segment_range(key_type& start_key, ke
         // Invalid order of segment range.
         return false;
 
-    if (end_key < m_left_leaf->key || m_right_leaf->key <= start_key)
+    if (end_key <= m_left_leaf->key || m_right_leaf->key <= start_key)
         // The new segment does not overlap the current interval.
         return false;
 
-- 
2.43.0


From 617706827221b88bb69ad81a4b40f08859bef3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 03/64] fix: merge equal trailing segments after
 flat_segment_tree::shift_left

When the removed range ended at the last segment boundary, that segment was
given the initial value even if the segment before it already had the initial
value, leaving two adjacent segments with equal values.  Such a tree does not
compare equal to one with the same content.
---
 include/mdds/flat_segment_tree.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index d4635d8..318aea3 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -687,7 +687,16 @@ private:
     {
         if (m_right_leaf->prev->key == start_key)
         {
-            m_right_leaf->prev->value_leaf.value = m_init_val;
+            node_ptr last_node = m_right_leaf->prev;
+            last_node->value_leaf.value = m_init_val;
+            if (last_node->prev && last_node->prev->value_leaf.value == m_init_val)
+            {
+                // The preceding segment also has the initial value. Combine
+                // them by removing the last node.
+                st::detail::link_nodes<node_ptr>(last_node->prev, m_right_leaf);
+                disconnect_all_nodes(last_node.get());
+                m_valid_tree = false;
+            }
             return;
         }
 
-- 
2.43.0


From 0cb93b4b28da156a67a0caedcbc0f51b37ba788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 04/64] fix: fall back to a normal flat_segment_tree search
 when the hint is unusable

search(const_iterator, key_type) is documented to fall back to a search from
the first position when given an invalid position, but it failed for default
constructed hints and hints past the key, and walked the nodes of another tree
for hints that belong to one.  Do what the other overload does.
---
 include/mdds/flat_segment_tree_def.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index c3df0f3..0fad3bc 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -599,7 +599,13 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_iterator flat_segment_tree<Key, Value>::search(
     const_iterator pos, key_type key) const
 {
-    return search_by_key_impl(pos.get_pos(), key);
+    const node* p = pos.get_pos();
+    if (!p || this != pos.get_parent() || key < p->key)
+        // The position is either invalid, or already past the key position.
+        // Fall back to normal search.
+        return search(key);
+
+    return search_by_key_impl(p, key);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From f785c2314dbc0cf339fb320f2da03cd78abec023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 05/64] fix: count duplicate segments when comparing
 segment_tree instances

A tree may store the same segment more than once.  Matching without consuming
the matched segment made e.g. {A, A} equal to {A, B}, but not the other way
round.
---
 include/mdds/segment_tree_def.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index f3f24da..c7bcaee 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -294,23 +294,23 @@ bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
         rhs.insert(&seg);
     }
 
-    std::size_t n_lhs = 0;
-
     for (const segment_type& seg : m_segment_store)
     {
         if (seg == segment_type{})
             continue;
 
-        ++n_lhs;
         const auto* src = &seg;
 
         auto it = std::find_if(rhs.begin(), rhs.end(), [src](const segment_type* p) { return *src == *p; });
 
         if (it == rhs.end())
             return false;
+
+        // Each stored segment can only be matched once.
+        rhs.erase(it);
     }
 
-    return n_lhs == rhs.size();
+    return rhs.empty();
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From 991e6b21bb152316d07577e84642b173c80713d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 06/64] fix: do not leave a moved-from segment_tree pointing at
 the moved nodes

The defaulted move constructor copied the root node pointer and the validity
flag, so that a search on the moved-from tree descended into the nodes of the
tree that had been moved to.
---
 include/mdds/segment_tree.hpp     |  2 +-
 include/mdds/segment_tree_def.inl | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/mdds/segment_tree.hpp b/include/mdds/segment_tree.hpp
index d768d6f..b0f6dd9 100644
--- a/include/mdds/segment_tree.hpp
+++ b/include/mdds/segment_tree.hpp
@@ -334,7 +334,7 @@ public:
 
     segment_tree() noexcept(nothrow_default_constructible_v);
     segment_tree(const segment_tree& r);
-    segment_tree(segment_tree&& r) = default;
+    segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v);
     ~segment_tree();
 
     segment_tree& operator=(const segment_tree& r);
diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index c7bcaee..5b77831 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -256,6 +256,16 @@ segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r)
         build_tree();
 }
 
+template<typename KeyT, typename ValueT>
+segment_tree<KeyT, ValueT>::segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v)
+    : m_nonleaf_node_pool(std::move(r.m_nonleaf_node_pool)), m_segment_store(std::move(r.m_segment_store)),
+      m_tagged_nodes_map(std::move(r.m_tagged_nodes_map)), m_root_node(r.m_root_node),
+      m_left_leaf(std::move(r.m_left_leaf)), m_right_leaf(std::move(r.m_right_leaf)), m_valid_tree(r.m_valid_tree)
+{
+    r.m_root_node = nullptr;
+    r.m_valid_tree = false;
+}
+
 template<typename KeyT, typename ValueT>
 segment_tree<KeyT, ValueT>::~segment_tree()
 {
-- 
2.43.0


From 3a097d169018757aa40cc67c939e07e61929e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 07/64] fix: report no leaf nodes for a segment_tree that has
 none

leaf_size() returned 1 for a tree without any leaf node.
---
 include/mdds/node.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/node.hpp b/include/mdds/node.hpp
index dce8149..96652e9 100644
--- a/include/mdds/node.hpp
+++ b/include/mdds/node.hpp
@@ -376,6 +376,9 @@ template<typename SizeT, typename KeyT, typename ValueT>
 SizeT count_leaf_nodes(const node<KeyT, ValueT>* left_end, const node<KeyT, ValueT>* right_end) noexcept(
     noexcept(++std::declval<SizeT&>()))
 {
+    if (!left_end)
+        return 0;
+
     SizeT leaf_count = 1;
     const auto* p = left_end;
     const auto* p_end = right_end;
-- 
2.43.0


From 915bfe72aa11bd867e3d70f7ac8b1e9f285670d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 08/64] fix: load the last result when stepping back from the
 end of quad tree results

An iterator obtained from end() has no current value, and decrementing it did
not fetch the value of the last result.
---
 include/mdds/point_quad_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 83e8443..d0a47c0 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -285,6 +285,7 @@ public:
                 if (m_end_pos)
                 {
                     m_end_pos = false;
+                    update_current_value();
                     return get_current_value();
                 }
                 --m_cur_pos;
-- 
2.43.0


From 145ad9793c00b4eb4d5cd50886a456b0b7dba541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 09/64] fix: keep the points of a point_quad_tree on
 self-assignment

operator= cleared its own nodes before copying them from the source.
---
 include/mdds/point_quad_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index d0a47c0..68a0e08 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -910,6 +910,10 @@ typename point_quad_tree<Key, Value>::node_access point_quad_tree<Key, Value>::g
 template<typename Key, typename Value>
 point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_quad_tree& r)
 {
+    if (this == &r)
+        // assignment to self.
+        return *this;
+
     m_xrange = key_range_type(0, 0);
     m_yrange = key_range_type(0, 0);
     clear_all_nodes();
-- 
2.43.0


From d08d6db8ecd249b97f4cfda5eb0a3ed32b90636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 10/64] fix: keep every point reachable when point_quad_tree
 removes a node

The replacement node stayed linked into the tree, its remaining child
overwrote the subtree of the removed node, the removed node's parent was
replaced, and nodes sharing a coordinate with the replacement were left in
the wrong quadrant.
---
 include/mdds/point_quad_tree.hpp | 42 ++++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 68a0e08..af68e96 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -840,30 +840,30 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     delete_node->y = repl_node->y;
     delete_node->data = repl_node->data;
 
-    // Reset the parent node.
-    delete_node->parent = repl_node->parent;
+    // Take the replacement node out of the tree.  Its remaining child belongs to
+    // the same quadrant of the new position, which may already be occupied.
+    node_ptr repl_child = repl_node->get_quadrant_node(repl_quad);
+    if (repl_child)
+    {
+        disconnect_node_from_parent(repl_child);
+        repl_child->parent.reset();
+        insert_list.push_back(repl_child);
+    }
+
+    disconnect_node_from_parent(repl_node);
     repl_node->parent.reset();
 
-    switch (repl_quad)
+    // The nodes that led to the replacement node may share a coordinate with it,
+    // in which case they no longer belong to the same quadrant.
+    node_ptr chain_node = delete_node->get_quadrant_node(repl_quad);
+    while (chain_node && delete_node->get_quadrant(chain_node->x, chain_node->y) == repl_quad)
+        chain_node = chain_node->get_quadrant_node(opposite(repl_quad));
+
+    if (chain_node)
     {
-        case quad_northeast:
-            delete_node->northeast = repl_node->northeast;
-            repl_node->northeast.reset();
-            break;
-        case quad_northwest:
-            delete_node->northwest = repl_node->northwest;
-            repl_node->northwest.reset();
-            break;
-        case quad_southeast:
-            delete_node->southeast = repl_node->southeast;
-            repl_node->southeast.reset();
-            break;
-        case quad_southwest:
-            delete_node->southwest = repl_node->southwest;
-            repl_node->southwest.reset();
-            break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
+        disconnect_node_from_parent(chain_node);
+        chain_node->parent.reset();
+        insert_list.push_back(chain_node);
     }
 
     // Lastly, re-insert all those trees that have been cut during the quad
-- 
2.43.0


From b29e5dbe16bef62b69e382642ae4c4f091c84449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 11/64] fix: do not match a prefix of an absent key in
 trie_map::find() and erase()

---
 include/mdds/trie_map_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 7d8c93a..987504e 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -868,7 +868,11 @@ void trie_map<KeyT, ValueT, TraitsT>::find_prefix_node_with_stack(
 
     auto it = node.children.find(*prefix);
     if (it == node.children.end())
+    {
+        // No such node. Leave no partial path behind.
+        node_stack.clear();
         return;
+    }
 
     node_stack.emplace_back(&node, it);
 
-- 
2.43.0


From dfe738adab3d4d487690811140484299595ceba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 12/64] fix: let the trie iterations start from the empty key
 when it is stored

---
 include/mdds/trie_map_def.inl | 44 ++++++-----------------------------
 1 file changed, 7 insertions(+), 37 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 987504e..9791f1d 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -666,19 +666,15 @@ trie_map<KeyT, ValueT, TraitsT>::trie_map(trie_map&& other) : m_root(std::move(o
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT, TraitsT>::begin() const
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
-    // Push the root node.
+    // Push the root node.  It may have a value when an empty key is stored.
     key_type buf;
     const_node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    const_iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -694,19 +690,15 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, TraitsT>::begin()
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
-    // Push the root node.
+    // Push the root node.  It may have a value when an empty key is stored.
     key_type buf;
     node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -1445,35 +1437,13 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::const_iterator packed_trie_map<
 {
     node_stack_type node_stack = get_root_stack();
 
-    const stack_item* si = &node_stack.back();
-    if (si->child_pos == si->child_end)
+    if (empty())
         // empty container.
         return const_iterator(&m_value_store, std::move(node_stack), key_type());
 
-    const auto* node_pos = si->node_pos;
-    const auto* child_pos = si->child_pos;
-    const auto* child_end = si->child_end;
-    const auto* p = child_pos;
-
-    // Follow the root node's left-most child.
+    // The root node may have a value when an empty key is stored.
     key_type buf;
-    key_unit_type c = *p;
-    buf.push_back(c);
-    ++p;
-    size_type offset = *p;
-
-    node_pos -= offset; // jump to the child node.
-    p = node_pos;
-    ++p;
-    size_type index_size = *p;
-    ++p;
-    child_pos = p;
-    child_end = child_pos + index_size;
-
-    // Push this child node onto the stack.
-    node_stack.emplace_back(&m_value_store, node_pos, child_pos, child_end);
-
-    pack_value_type pos = *node_pos;
+    pack_value_type pos = *node_stack.back().node_pos;
     while (pos == null_value)
     {
         // Keep following the left child node until we reach a node with value.
-- 
2.43.0


From 7d91a0af16306b2f8745839fe1108ec388b22c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 13/64] fix: visit the correct predecessor when decrementing
 trie iterators

---
 include/mdds/trie_map_itr.hpp | 76 ++++++-----------------------------
 1 file changed, 13 insertions(+), 63 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index b87bc4f..0999030 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -227,7 +227,7 @@ public:
     {
         trie_node_type* cur_node = m_node_stack.back().node;
 
-        if (m_type == iterator_type::end && cur_node->has_value)
+        if (m_type == iterator_type::end && cur_node->children.empty())
         {
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
@@ -241,11 +241,12 @@ public:
             cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
             m_type = iterator_type::normal;
         }
-        else if (cur_node->children.empty())
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // All child nodes of this node come after it.  Keep going up until
+            // it finds either a parent node with unvisited child nodes on the
+            // left side, then descend on that path all the way to its leaf, or
+            // a parent node with value.
 
             do
             {
@@ -264,30 +265,6 @@ public:
                 }
             } while (!cur_node->has_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(cur_node->has_value);
-            assert(m_node_stack.back().child_pos == cur_node->children.begin());
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                auto& si = m_node_stack.back();
-                cur_node = si.node;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.  Left and down.
-                    cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
-                    assert(cur_node->has_value);
-                }
-            } while (!cur_node->has_value);
-        }
 
         assert(cur_node->has_value);
         m_current_key = m_buffer;
@@ -648,7 +625,7 @@ public:
         pack_value_type v = *si->node_pos;
         size_t index_size = *(si->node_pos + 1); // index size for child nodes.
 
-        if (m_type == iterator_type::end && v != trie_type::null_value)
+        if (m_type == iterator_type::end && !index_size)
         {
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
@@ -663,11 +640,12 @@ public:
             v = *si->node_pos;
             m_type = iterator_type::normal;
         }
-        else if (!index_size)
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // All child nodes of this node come after it.  Keep going up until
+            // it finds either a parent node with unvisited child nodes on the
+            // left side, then descend on that path all the way to its leaf, or
+            // a parent node with value.
 
             do
             {
@@ -678,9 +656,7 @@ public:
                 si = &m_node_stack.back();
                 const auto* p = si->node_pos;
                 v = *p;
-                ++p;
-                index_size = *p;
-                ++p;
+                std::advance(p, 2);
                 const auto* first_child = p;
 
                 if (si->child_pos != first_child)
@@ -694,32 +670,6 @@ public:
                 }
             } while (v == trie_type::null_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(*si->node_pos); // this node should have a value.
-            assert(si->child_pos == (si->node_pos + 2));
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                si = &m_node_stack.back();
-                v = *si->node_pos;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.
-                    descend_to_previous_leaf_node(m_node_stack, m_buffer);
-                    si = &m_node_stack.back();
-                    v = *si->node_pos;
-                    assert(v != trie_type::null_value);
-                }
-            } while (v == trie_type::null_value);
-        }
 
         assert(v != trie_type::null_value);
         m_current_value = v;
-- 
2.43.0


From 9c2c1a4e650a9b158a981f2428467ec7981fee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 14/64] fix: do not let the root of an empty packed_trie_map
 reference a value

---
 include/mdds/trie_map_def.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 9791f1d..af33347 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1295,6 +1295,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map() : m_packed(3, 0u)
 
     // root offset (0), root value (1), and root child count (2).
     m_packed[0] = 1;
+    m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1391,6 +1392,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
     // Even the empty structure needs to have the root offset and the empty root record.
     other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
     other.m_packed[0] = 1;
+    other.m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From f608f2cb52e07c104a74dd7a383e516e368e6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 15/64] fix: accept keys containing zero units when building
 packed_trie_map from entries

---
 include/mdds/trie_map_def.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index af33347..a6ec755 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1038,7 +1038,7 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         ++range_count;
         key_unit_type c = p->key[pos];
 
-        if (!range_char)
+        if (range_count == 1)
             range_char = c;
         else if (range_char != c)
         {
@@ -1057,7 +1057,6 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
 
     if (range_count)
     {
-        assert(range_char);
         node_pool.emplace_back(range_char);
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
-- 
2.43.0


From a14c768d67acefaf02d2fbb4790f477a239e2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 16/64] fix: order child nodes for lookup when building
 packed_trie_map from entries

---
 include/mdds/trie_map_def.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index a6ec755..d09dd8a 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1061,6 +1061,13 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
     }
+
+    // The keys may be sorted by unsigned comparison of their units e.g. when
+    // they are sorted as std::string, but the child nodes are searched by the
+    // comparison of key_unit_type.
+    std::sort(root.children.begin(), root.children.end(), [](const trie_node* left, const trie_node* right) {
+        return left->key < right->key;
+    });
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 58bbc97d0af47ee06b2ee244032992a4104b3db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 17/64] fix: return no results when prefix-searching an empty
 trie_map

---
 include/mdds/trie_map_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index d09dd8a..2d20638 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -982,7 +982,7 @@ typename trie_map<KeyT, ValueT, TraitsT>::search_results trie_map<KeyT, ValueT,
 {
     const key_unit_type* p = prefix.data();
     const key_unit_type* p_end = p + prefix.size();
-    const trie_node* node = find_prefix_node(m_root, p, p_end);
+    const trie_node* node = empty() ? nullptr : find_prefix_node(m_root, p, p_end);
     return search_results(node, key_type(prefix.data(), prefix.size()));
 }
 
-- 
2.43.0


From bcc3b38c3d2f805fbe51d78329c5235ee5f0fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 18/64] fix: keep the value store when copying, moving or
 swapping packed search results

---
 include/mdds/trie_map_itr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index 0999030..eb2477e 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -724,6 +724,7 @@ class packed_search_results
 
     void swap(packed_search_results& other)
     {
+        std::swap(m_value_store, other.m_value_store);
         std::swap(m_node, other.m_node);
         std::swap(m_buffer, other.m_buffer);
     }
@@ -734,10 +735,12 @@ public:
     packed_search_results() : m_node(nullptr)
     {}
 
-    packed_search_results(const packed_search_results& other) : m_node(other.m_node), m_buffer(other.m_buffer)
+    packed_search_results(const packed_search_results& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(other.m_buffer)
     {}
 
-    packed_search_results(packed_search_results&& other) : m_node(other.m_node), m_buffer(std::move(other.m_buffer))
+    packed_search_results(packed_search_results&& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(std::move(other.m_buffer))
     {
         other.m_node = nullptr;
     }
-- 
2.43.0


From cb2ce2d4bb6d0771f1f72318065f0d926b8a96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 19/64] fix: reject a truncated stream in
 packed_trie_map::load_state()

---
 include/mdds/trie_map_def.inl | 53 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 2d20638..6cb6547 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -325,6 +325,17 @@ union bin_value
     uint64_t ui64;
 };
 
+/**
+ * Read specified number of bytes from a stream.
+ *
+ * @throws std::invalid_argument when the stream ends prematurely.
+ */
+inline void read_bytes_or_throw(std::istream& is, char* p, size_t n)
+{
+    if (!is.read(p, n))
+        throw std::invalid_argument("failed to read the state: unexpected end of stream.");
+}
+
 using value_addrs_type = std::map<const void*, size_t>;
 
 template<typename FuncT, typename ValueT>
@@ -413,7 +424,7 @@ struct read_fixed_size_values_from_istream
         bin_value bv;
 
         // read the size of the value.
-        is.read(bv.buffer, 4);
+        read_bytes_or_throw(is, bv.buffer, 4);
         size_t size = bv.ui32;
 
         if (size != FuncT::value_size)
@@ -445,7 +456,7 @@ struct read_variable_size_values_from_istream
 
         for (uint32_t i = 0; i < value_count; ++i)
         {
-            is.read(bv.buffer, 4);
+            read_bytes_or_throw(is, bv.buffer, 4);
             size_t size = bv.ui32;
 
             ValueT v;
@@ -500,15 +511,7 @@ void numeric_value_serializer<T>::read(std::istream& is, size_t n, T& v)
 
     } buf;
 
-    char* p = buf.buffer;
-
-    while (n)
-    {
-        is.read(p, s);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    detail::read_bytes_or_throw(is, buf.buffer, s);
 
     v = buf.v;
 }
@@ -553,15 +556,7 @@ template<>
 inline void variable_value_serializer<std::string>::read(std::istream& is, size_t n, std::string& v)
 {
     v.resize(n);
-    char* p = const_cast<char*>(v.data());
-
-    while (n)
-    {
-        is.read(p, n);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    detail::read_bytes_or_throw(is, v.data(), n);
 }
 
 } // namespace trie
@@ -1685,7 +1680,7 @@ template<typename FuncT>
 void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 {
     trie::detail::bin_value bv;
-    is.read(bv.buffer, 2);
+    trie::detail::read_bytes_or_throw(is, bv.buffer, 2);
 
     uint16_t flags = bv.ui16;
     bool variable_size = (flags & 0x0001) != 0;
@@ -1699,27 +1694,27 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
     }
 
     // read the number of values
-    is.read(bv.buffer, 4);
+    trie::detail::read_bytes_or_throw(is, bv.buffer, 4);
     uint32_t value_count = bv.ui32;
 
     using value_size_type = std::bool_constant<FuncT::variable_size>;
     trie::detail::read_values_from_istream<FuncT, value_type, value_size_type> func;
-    m_value_store = func(is, value_count);
+    value_store_type value_store = func(is, value_count);
 
     // There should be a check byte of 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes_or_throw(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the value section.");
 
     // Size of pack_value_type
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes_or_throw(is, bv.buffer, 1);
     size_type pvt_size = bv.ui8;
 
     if (pvt_size != sizeof(pack_value_type))
         throw std::invalid_argument("size of pack_value_type is different.");
 
     // Size of the packed blob.
-    is.read(bv.buffer, 8);
+    trie::detail::read_bytes_or_throw(is, bv.buffer, 8);
 
     size_t n = bv.ui64;
     packed_type packed;
@@ -1727,16 +1722,18 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 
     for (size_t i = 0; i < n; ++i)
     {
-        is.read(bv.buffer, pvt_size);
+        trie::detail::read_bytes_or_throw(is, bv.buffer, pvt_size);
         const auto* p = reinterpret_cast<const pack_value_type*>(bv.buffer);
         packed.push_back(*p);
     }
 
     // the last byte must be 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes_or_throw(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the packed blob section.");
 
+    // Everything has been read successfully.
+    m_value_store.swap(value_store);
     m_packed.swap(packed);
 
     struct _handler
-- 
2.43.0


From d9a4584bdbe1b191498f98e877ccdfa230d9d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 20/64] fix: reset the parent pointers of the old root's
 children when splitting the root of an rtree

---
 include/mdds/rtree_def.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b642e63..d04cecc 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -2240,8 +2240,9 @@ void rtree<KeyT, ValueT, Traits>::split_node(node_store* ns)
         m_root.count = 2;
         m_root.pack();
 
+        // The original root has moved, whether or not it was flagged as such.
         for (node_store& ns_child : dir_root->children)
-            ns_child.reset_parent_pointers_of_children();
+            ns_child.reset_parent_pointers();
     }
     else
     {
-- 
2.43.0


From b9e8361f31d5f002fce8b334cc83fa3ea86551f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 21/64] fix: split non-leaf rtree directories that overflow
 when an orphan is reinserted

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index d04cecc..142d2ab 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -683,7 +683,7 @@ bool rtree<KeyT, ValueT, Traits>::node_store::is_root() const
 template<typename KeyT, typename ValueT, typename Traits>
 bool rtree<KeyT, ValueT, Traits>::node_store::exceeds_capacity() const
 {
-    if (type != node_type::directory_leaf)
+    if (!is_directory())
         return false;
 
     return count > traits_type::max_node_size;
-- 
2.43.0


From 7f65326eca50796ac1316831925f06623b31ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 22/64] fix: reset parent pointers after dissolving a non-leaf
 rtree directory

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 142d2ab..a5ae5c4 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1634,7 +1634,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
-        dir_ns->reset_parent_pointers_of_children();
+        dir_ns->reset_parent_pointers();
         dir_ns->pack();
     }
 
-- 
2.43.0


From 25a410e8c2ddeaed876daab45ccb21e0f6ef9b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 23/64] fix: shrink the extents of all ancestors when an rtree
 directory is dissolved

---
 include/mdds/rtree_def.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index a5ae5c4..73c9fda 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1638,6 +1638,8 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         dir_ns->pack();
     }
 
+    dir_ns->pack_upward();
+
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-- 
2.43.0


From aa892b991a1d7e150561f5ea3200bcfb4b79b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 24/64] fix: reinsert orphan rtree directories at their own
 height

---
 include/mdds/rtree.hpp     |  8 +++---
 include/mdds/rtree_def.inl | 53 +++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/include/mdds/rtree.hpp b/include/mdds/rtree.hpp
index 6781425..81606f7 100644
--- a/include/mdds/rtree.hpp
+++ b/include/mdds/rtree.hpp
@@ -370,7 +370,7 @@ private:
     struct orphan_node_entry
     {
         node_store ns;
-        size_t depth;
+        size_t height; // number of directory levels below the orphan directory
     };
 
     using orphan_node_entries_type = std::deque<orphan_node_entry>;
@@ -737,7 +737,7 @@ private:
     void insert_impl(const point_type& start, const point_type& end, value_type&& value);
     void insert_impl(const point_type& start, const point_type& end, const value_type& value);
 
-    void erase_impl(const node_store* ns, size_t depth);
+    void erase_impl(const node_store* ns);
 
     /**
      * Build and return a callable function object that you can call in order
@@ -751,7 +751,7 @@ private:
     std::string export_tree_extent_as_svg() const;
 
     void insert(node_store&& ns, std::unordered_set<size_t>* reinserted_depths);
-    void insert_dir(node_store&& ns, size_t max_depth);
+    void insert_dir(node_store&& ns, size_t height);
 
     /**
      * Split an overfilled node.  The node to split is expected to have
@@ -777,7 +777,7 @@ private:
     size_t pick_optimal_distribution(dir_store_type& children) const;
 
     insertion_point find_leaf_directory_node_for_insertion(const extent_type& bb);
-    node_store* find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t max_depth);
+    node_store* find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t height);
 
     template<typename FuncT>
     void descend_with_func(FuncT func) const;
diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 73c9fda..92634d9 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1386,11 +1386,11 @@ void rtree<KeyT, ValueT, Traits>::insert(node_store&& ns, std::unordered_set<siz
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-void rtree<KeyT, ValueT, Traits>::insert_dir(node_store&& ns, size_t max_depth)
+void rtree<KeyT, ValueT, Traits>::insert_dir(node_store&& ns, size_t height)
 {
     assert(ns.is_directory());
     extent_type ns_box = ns.extent;
-    node_store* dir_ns = find_nonleaf_directory_node_for_insertion(ns_box, max_depth);
+    node_store* dir_ns = find_nonleaf_directory_node_for_insertion(ns_box, height);
     assert(dir_ns);
     assert(dir_ns->type == node_type::directory_nonleaf);
     directory_node* dir = static_cast<directory_node*>(dir_ns->node_ptr);
@@ -1554,17 +1554,17 @@ typename rtree<KeyT, ValueT, Traits>::search_results rtree<KeyT, ValueT, Traits>
 template<typename KeyT, typename ValueT, typename Traits>
 void rtree<KeyT, ValueT, Traits>::erase(const_iterator pos)
 {
-    erase_impl(pos.m_pos->ns, pos.m_pos->depth);
+    erase_impl(pos.m_pos->ns);
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
 void rtree<KeyT, ValueT, Traits>::erase(iterator pos)
 {
-    erase_impl(pos.m_pos->ns, pos.m_pos->depth);
+    erase_impl(pos.m_pos->ns);
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
+void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns)
 {
     assert(ns->type == node_type::value);
     assert(ns->parent);
@@ -1573,7 +1573,6 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
 
     // Move up to the parent and find its stored location.
     node_store* dir_ns = ns->parent;
-    --depth;
     assert(dir_ns->type == node_type::directory_leaf);
     bool erased = dir_ns->erase_child(ns);
     assert(erased);
@@ -1605,7 +1604,6 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     // Move up one level, and remove this directory node from its parent directory node.
     node_store* child_ns = dir_ns;
     dir_ns = dir_ns->parent;
-    --depth;
     erased = dir_ns->erase_child(child_ns);
     assert(erased);
 
@@ -1613,8 +1611,9 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     dir_ns->pack();
 
     orphan_node_entries_type orphan_dir_nodes;
+    size_t orphan_height = 0; // the first ones to become orphans are leaf directories.
 
-    while (!dir_ns->is_root() && dir_ns->count < traits_type::min_node_size)
+    for (; !dir_ns->is_root() && dir_ns->count < traits_type::min_node_size; ++orphan_height)
     {
         // This directory node is now underfilled. Move all its children out
         // for re-insertion and dissolve this node.
@@ -1624,14 +1623,13 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         {
             orphan_dir_nodes.emplace_back();
             orphan_dir_nodes.back().ns.swap(dir->children.back());
-            orphan_dir_nodes.back().depth = depth + 1; // depth of the children.
+            orphan_dir_nodes.back().height = orphan_height;
             dir->children.pop_back();
         }
 
         // Find and remove this node from its parent store.
         node_store* dir_ns_child = dir_ns;
         dir_ns = dir_ns->parent;
-        --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
         dir_ns->reset_parent_pointers();
@@ -1643,7 +1641,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-        insert_dir(std::move(entry.ns), entry.depth);
+        insert_dir(std::move(entry.ns), entry.height);
         orphan_dir_nodes.pop_back();
     }
 
@@ -2462,34 +2460,29 @@ typename rtree<KeyT, ValueT, Traits>::insertion_point rtree<
 
 template<typename KeyT, typename ValueT, typename Traits>
 typename rtree<KeyT, ValueT, Traits>::node_store* rtree<
-    KeyT, ValueT, Traits>::find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t max_depth)
+    KeyT, ValueT, Traits>::find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t height)
 {
-    node_store* dst = &m_root;
-
-    for (size_t i = 0; i <= traits_type::max_tree_depth; ++i)
-    {
-        assert(dst->is_directory());
-
-        if (!dst->count)
-            // This node has no children.
-            return dst;
-
-        assert(dst->type == node_type::directory_nonleaf);
+    // The new directory must become a sibling of the directories of the same
+    // height, else the values would end up at different depths.  Note that the
+    // depth of such directories changes when the root node gets split.
 
-        if (i == max_depth)
-            return dst;
+    size_t dst_height = 0;
+    for (const node_store* p = &m_root; p->type == node_type::directory_nonleaf && p->count; ++dst_height)
+        p = &p->get_directory_node()->children.front();
 
-        directory_node* dir = static_cast<directory_node*>(dst->node_ptr);
+    if (dst_height > traits_type::max_tree_depth)
+        throw std::runtime_error("Maximum tree depth has been reached.");
 
-        if (dir->has_leaf_directory())
-            return dst;
+    node_store* dst = &m_root;
 
+    for (; dst_height > height + 1; --dst_height)
+    {
         assert(dst->type == node_type::directory_nonleaf);
-        dst = dir->get_child_with_minimal_area_enlargement(bb);
+        dst = dst->get_directory_node()->get_child_with_minimal_area_enlargement(bb);
         assert(dst);
     }
 
-    throw std::runtime_error("Maximum tree depth has been reached.");
+    return dst;
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-- 
2.43.0


From 6f89bd7f788cbcfdb52ab6c4b9d54947ace99231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 25/64] fix: keep the root of an rtree usable when it loses all
 of its directories

---
 include/mdds/rtree_def.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 92634d9..81f69b6 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1645,16 +1645,20 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns)
         orphan_dir_nodes.pop_back();
     }
 
+    if (!m_root.count)
+        // The root node has lost all of its directories.  Let it hold values.
+        m_root.type = node_type::directory_leaf;
+
     while (!orphan_value_nodes.empty())
     {
         insert(std::move(orphan_value_nodes.back()), nullptr);
         orphan_value_nodes.pop_back();
     }
 
-    if (m_root.count == 1)
+    while (m_root.type == node_type::directory_nonleaf && m_root.count == 1)
     {
-        // If the root node only has one child, make that child the new root.
-        // Be careful not to leak memory here...
+        // If the root node only has one child directory, make that child the
+        // new root.  Be careful not to leak memory here...
 
         dir = static_cast<directory_node*>(m_root.node_ptr);
         assert(dir->children.size() == 1);
-- 
2.43.0


From d78996edef313b026dd1dab4005cdaebcad0eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 26/64] fix: reset the size of a moved-from multi_type_vector

---
 include/mdds/multi_type_vector/aos/main_def.inl | 5 ++++-
 include/mdds/multi_type_vector/soa/main_def.inl | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e3744c5..8589d1c 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -326,8 +326,11 @@ multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
 template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(multi_type_vector&& other) noexcept(nothrow_move_constructible_v)
     : m_hdl_event(std::move(other.m_hdl_event)), m_blocks(std::move(other.m_blocks)),
-      m_cur_size(std::move(other.m_cur_size))
+      m_cur_size(other.m_cur_size)
 {
+    // The moved-from container no longer has any blocks.
+    other.m_cur_size = 0;
+
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
     debug_check_full("move construction");
 #endif
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e10fd73..9a7786c 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -517,10 +517,13 @@ multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
 template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(multi_type_vector&& other) noexcept(nothrow_move_constructible_v)
     : m_hdl_event(std::move(other.m_hdl_event)), m_block_store(std::move(other.m_block_store)),
-      m_cur_size(std::move(other.m_cur_size)), m_cow_store(std::move(other.m_cow_store))
+      m_cur_size(other.m_cur_size), m_cow_store(std::move(other.m_cow_store))
 {
     MDDS_MTV_TRACE_ARGS(constructor, "other=? (move)");
 
+    // The moved-from container no longer has any blocks.
+    other.m_cur_size = 0;
+
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
     debug_check_full("move construction");
 #endif
-- 
2.43.0


From aeaad5f202f928c0e7b9a09440aa8cf95089c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 27/64] fix: delete the right managed elements when resize
 shrinks a block

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 8589d1c..b96b1c8 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4363,7 +4363,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (blk->data)
         {
-            block_funcs::overwrite_values(*blk->data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*blk->data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*blk->data, new_block_size);
         }
         blk->size = new_block_size;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 9a7786c..87d89be 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -5128,7 +5128,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (data)
         {
-            block_funcs::overwrite_values(*data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*data, new_block_size);
         }
         m_block_store.sizes[block_index] = new_block_size;
-- 
2.43.0


From 474ff30acd2018cc6d9b79e9739aef7dcecac6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 28/64] fix: delete managed elements overwritten at the top of
 a block of another type

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index b96b1c8..6c3abcb 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4093,6 +4093,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2->data, 0, size_to_erase);
                 block_funcs::erase(*blk2->data, 0, size_to_erase);
                 blk2->size -= size_to_erase;
                 blk2->position += size_to_erase;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 87d89be..fe23c81 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3255,6 +3255,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2_data, 0, size_to_erase);
                 block_funcs::erase(*blk2_data, 0, size_to_erase);
                 m_block_store.sizes[block_index2] -= size_to_erase;
                 m_block_store.positions[block_index2] += size_to_erase;
-- 
2.43.0


From 30fc54fc7e6d5d683fd67608eb5f92c14aa0d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 29/64] fix: merge the extended block with an equal successor
 in multi-block set

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 6c3abcb..21fe01c 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4110,6 +4110,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(it_erase_begin, it_erase_end);
         m_blocks.erase(it_erase_begin, it_erase_end);
 
+        // The block that now follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index fe23c81..f3001c3 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3272,6 +3272,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(index_erase_begin, index_erase_end);
         m_block_store.erase(index_erase_begin, index_erase_end - index_erase_begin);
 
+        // The block that now follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
-- 
2.43.0


From 333c7def5174d1482faf054d456fcaf1a5cba18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 30/64] fix: free the blocks already copied when copying an aos
 multi_type_vector throws

---
 .../mdds/multi_type_vector/aos/main_def.inl   | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 21fe01c..7c34087 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -308,13 +308,31 @@ template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
     : m_hdl_event(other.m_hdl_event), m_blocks(other.m_blocks), m_cur_size(other.m_cur_size)
 {
-    // Copy all element blocks.
-    for (auto& blk : m_blocks)
+    // Copy all element blocks into a temporary store, committing them only once
+    // every copy succeeds, so that a copy throwing mid-way doesn't leak the
+    // blocks copied so far.
+    std::vector<base_element_block*> owned(m_blocks.size(), nullptr);
+
+    try
     {
-        if (blk.data)
+        for (std::size_t i = 0; i < m_blocks.size(); ++i)
+            if (m_blocks[i].data)
+                owned[i] = block_funcs::copy_block(*m_blocks[i].data);
+    }
+    catch (...)
+    {
+        for (const base_element_block* p : owned)
+            if (p)
+                block_funcs::delete_block(p);
+        throw;
+    }
+
+    for (std::size_t i = 0; i < m_blocks.size(); ++i)
+    {
+        if (owned[i])
         {
-            blk.data = block_funcs::copy_block(*blk.data);
-            m_hdl_event.element_block_acquired(blk.data);
+            m_blocks[i].data = owned[i];
+            m_hdl_event.element_block_acquired(owned[i]);
         }
     }
 
-- 
2.43.0


From d32b423c3fae7c832ce1bb68409c55b78528ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 31/64] fix: report the new block as acquired when insert
 places it before another block

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index f3001c3..c2effed 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2126,8 +2126,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert_c
         // Just insert a new block before the current block.
         m_block_store.insert(block_index, m_block_store.positions[block_index], length, nullptr);
         m_block_store.element_blocks[block_index] = block_funcs::create_new_block(cat, 0);
-        m_hdl_event.element_block_acquired(blk_data);
         blk_data = m_block_store.element_blocks[block_index];
+        m_hdl_event.element_block_acquired(blk_data);
         mdds_mtv_assign_values(*blk_data, *it_begin, it_begin, it_end);
         m_block_store.sizes[block_index] = length;
         m_cur_size += length;
-- 
2.43.0


From 4ea62737e1dba39f9e255d41c0094c90fb4d7836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 32/64] fix: do not read the first block of an empty
 multi_type_vector when a position hint is given

---
 include/mdds/multi_type_vector/aos/main_def.inl | 4 ++++
 include/mdds/multi_type_vector/soa/main_def.inl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 7c34087..52db038 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -940,6 +940,10 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_blocks.empty())
+        // No block contains the position.
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_blocks.size())
         block_index = pos_data.block_index;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index c2effed..801bcf5 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4238,6 +4238,10 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_block_store.positions.empty())
+        // No block contains the position.
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_block_store.positions.size())
         block_index = pos_data.block_index;
-- 
2.43.0


From 8d90528cd0d8dd9acaf06d31f50f8b664cf10767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 33/64] fix: keep the managed elements of the next block when
 swap merges three blocks

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 ++
 include/mdds/multi_type_vector/soa/main_def.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 52db038..0497d9b 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3532,6 +3532,8 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                     block_funcs::append_block(*blk_prev->data, *blk_next->data);
                     blk_prev->size += blk_next->size;
                     ++it_end;
+                    // Resize to 0 to prevent deletion of the managed elements just transferred.
+                    block_funcs::resize_block(*blk_next->data, 0);
                     delete_element_block(*blk_next);
                 }
 
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 801bcf5..5d78740 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4860,6 +4860,8 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                     block_funcs::append_block(*dst_prev_data, *dst_next_data);
                     m_block_store.sizes[dst_index - 1] += m_block_store.sizes[dst_index + 1];
                     ++dst_erase_size;
+                    // Resize to 0 to prevent deletion of the managed elements just transferred.
+                    block_funcs::resize_block(*dst_next_data, 0);
                     delete_element_block(dst_index + 1);
                 }
 
-- 
2.43.0


From 78eda8a465202ab256ab0bbdd8bc4a49f74cb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 34/64] fix: free the values already copied when copying a
 managed element block throws

---
 include/mdds/multi_type_vector/types.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/types.hpp b/include/mdds/multi_type_vector/types.hpp
index 21b4489..12802ad 100644
--- a/include/mdds/multi_type_vector/types.hpp
+++ b/include/mdds/multi_type_vector/types.hpp
@@ -827,11 +827,17 @@ struct managed_element_block
     {}
     managed_element_block(size_t n) : base_type(n)
     {}
-    managed_element_block(const managed_element_block& r) : base_type()
+    // Delegate to the default constructor, so that the destructor deletes the
+    // values already copied when copying a later one throws.
+    managed_element_block(const managed_element_block& r) : managed_element_block()
     {
         detail::reserve(m_array, r.m_array.size());
         for (const auto& v : r.m_array)
-            m_array.push_back(new ValueT(*v));
+        {
+            auto p = std::make_unique<ValueT>(*v);
+            m_array.push_back(p.get());
+            p.release();
+        }
     }
 
     template<typename Iter>
-- 
2.43.0


From 720971c05e0287e44a1b58534e3148928176e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 35/64] fix: keep ownership of the blocks when a copy-on-write
 copy fails to share them

---
 include/mdds/multi_type_vector/soa/main_def.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 5d78740..462b57b 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -561,9 +561,10 @@ void multi_type_vector<Traits>::share() const
             return;
 
         // Transfer ownership of the blocks from the parent store to a shared
-        // COW store.
-        m_cow_store = std::make_shared<shared_element_blocks>();
-        m_cow_store->blocks = m_block_store.element_blocks;
+        // COW store, but only once it holds all of the blocks.
+        auto cow_store = std::make_shared<shared_element_blocks>();
+        cow_store->blocks = m_block_store.element_blocks;
+        m_cow_store = std::move(cow_store);
     }
 }
 
-- 
2.43.0


From 36a5a623d31f1084e16eec8a98329ffc5c834c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 36/64] fix: support integer elements in multi_type_matrix
 transpose, copy and resize

---
 include/mdds/multi_type_matrix_def.inl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 75cedb3..7a23539 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -402,6 +402,13 @@ multi_type_matrix<Traits>& multi_type_matrix<Traits>::transpose()
                     tmp.set(old_col_new_row, old_row_new_col, val);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    integer_type val;
+                    m_store.get(get_pos(old_row_new_col, old_col_new_row), val);
+                    tmp.set(old_col_new_row, old_row_new_col, val);
+                }
+                break;
                 case mtm::element_string:
                 {
                     string_type val;
@@ -474,6 +481,14 @@ void multi_type_matrix<Traits>::copy(const multi_type_matrix& src)
                     blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    auto it = src_node.template begin<integer_block_type>();
+                    auto ite = src_node.template end<integer_block_type>();
+
+                    blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
+                }
+                break;
                 case mtm::element_string:
                 {
                     auto it = src_node.template begin<string_block_type>();
-- 
2.43.0


From ae168bfff108d7012345d4cbb78e348d2523f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 37/64] fix: throw from multi_type_matrix::get() when the
 element is of another type

---
 include/mdds/multi_type_matrix_def.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 7a23539..b2046c1 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -234,8 +234,13 @@ template<typename Traits>
 template<typename _T>
 _T multi_type_matrix<Traits>::get(size_type row, size_type col) const
 {
-    _T val;
-    m_store.get(get_pos(row, col), val);
+    _T val{};
+    size_type pos = get_pos(row, col);
+    mtv::element_t type = m_store.get_type(pos);
+    if (type != mtv::element_type_empty && type != store_type::get_element_type(val))
+        throw general_error("multi_type_matrix: element is not of the specified type.");
+
+    m_store.get(pos, val);
     return val;
 }
 
-- 
2.43.0


From 3317e1697e67e7aec162639eb4efbd7d2488f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 38/64] fix: reject a multi_type_matrix walk whose range ends
 one past the last row or column

---
 include/mdds/multi_type_matrix_def.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index b2046c1..74ee4da 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -664,7 +664,7 @@ FuncT multi_type_matrix<Traits>::walk(FuncT func, const size_pair_type& start, c
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column)
+    if (end.row >= m_size.row || end.column >= m_size.column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
@@ -748,8 +748,8 @@ FuncT multi_type_matrix<Traits>::walk(
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column || end.row > right.size().row ||
-        end.column > right.size().column)
+    if (end.row >= m_size.row || end.column >= m_size.column || end.row >= right.size().row ||
+        end.column >= right.size().column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
-- 
2.43.0


From 76faf5ffd43ac74e2f646d56313bc61158c9b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 39/64] fix: reset the size of a moved-from multi_type_matrix

---
 include/mdds/multi_type_matrix.hpp     |  4 ++--
 include/mdds/multi_type_matrix_def.inl | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_matrix.hpp b/include/mdds/multi_type_matrix.hpp
index 41cc925..102bbec 100644
--- a/include/mdds/multi_type_matrix.hpp
+++ b/include/mdds/multi_type_matrix.hpp
@@ -242,7 +242,7 @@ public:
     /**
      * Move constructor.
      */
-    multi_type_matrix(multi_type_matrix&& other) = default;
+    multi_type_matrix(multi_type_matrix&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>);
 
     /**
      * Destructor.
@@ -252,7 +252,7 @@ public:
     bool operator==(const multi_type_matrix& other) const noexcept(nothrow_eq_comparable_v);
 
     multi_type_matrix& operator=(const multi_type_matrix& other) = default;
-    multi_type_matrix& operator=(multi_type_matrix&& other) = default;
+    multi_type_matrix& operator=(multi_type_matrix&& other) noexcept(std::is_nothrow_move_assignable_v<store_type>);
 
     /**
      * Get a mutable reference of an element (position object) at specified
diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 74ee4da..b522daf 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -89,6 +89,24 @@ multi_type_matrix<Traits>::multi_type_matrix(const multi_type_matrix& other)
     : m_store(other.m_store), m_size(other.m_size)
 {}
 
+template<typename Traits>
+multi_type_matrix<Traits>::multi_type_matrix(multi_type_matrix&& other) noexcept(
+    std::is_nothrow_move_constructible_v<store_type>)
+    : m_store(std::move(other.m_store)), m_size(other.m_size)
+{
+    // The moved-from matrix no longer has any elements.
+    other.m_size = size_pair_type();
+}
+
+template<typename Traits>
+multi_type_matrix<Traits>& multi_type_matrix<Traits>::operator=(multi_type_matrix&& other) noexcept(
+    std::is_nothrow_move_assignable_v<store_type>)
+{
+    multi_type_matrix assigned(std::move(other));
+    swap(assigned);
+    return *this;
+}
+
 template<typename Traits>
 bool multi_type_matrix<Traits>::operator==(const multi_type_matrix& r) const noexcept(nothrow_eq_comparable_v)
 {
-- 
2.43.0


From 3ea67f826ee3d3c144d2df251b68127de731c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 40/64] fix: reject a position past the end in
 delayed_delete_vector::at() after a removal at the front

---
 .../multi_type_vector/delayed_delete_vector.hpp     | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 128397a..c1ecd7f 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -8,6 +8,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <stdexcept>
 #include <type_traits>
 
 namespace mdds { namespace mtv {
@@ -101,12 +102,14 @@ public:
 
     reference at(size_type pos)
     {
-        return m_vec.at(pos + m_front_offset);
+        check_position(pos);
+        return m_vec[pos + m_front_offset];
     }
 
     const_reference at(size_type pos) const
     {
-        return m_vec.at(pos + m_front_offset);
+        check_position(pos);
+        return m_vec[pos + m_front_offset];
     }
 
     void push_back(const T& value)
@@ -208,6 +211,12 @@ public:
     }
 
 private:
+    void check_position(size_type pos) const
+    {
+        if (pos >= size())
+            throw std::out_of_range("delayed_delete_vector::at: position is out of range!");
+    }
+
     void clear_removed()
     {
         m_vec.erase(m_vec.begin(), m_vec.begin() + m_front_offset);
-- 
2.43.0


From 82212fe64cf394460d3ab9845b1044cf8087a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 41/64] fix: swap the number of removed front elements in
 delayed_delete_vector::swap()

---
 include/mdds/multi_type_vector/delayed_delete_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index c1ecd7f..9618db0 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -125,6 +125,7 @@ public:
     void swap(delayed_delete_vector& other) noexcept(std::is_nothrow_swappable_v<store_type>)
     {
         m_vec.swap(other.m_vec);
+        std::swap(m_front_offset, other.m_front_offset);
     }
 
     template<typename... Args>
-- 
2.43.0


From 007ece7fadc96fe69dbb921d4797c64906adbc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 42/64] fix: reset the number of removed front elements of a
 moved-from delayed_delete_vector

---
 .../delayed_delete_vector.hpp                 | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 9618db0..7e1591d 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <stdexcept>
 #include <type_traits>
+#include <utility>
 
 namespace mdds { namespace mtv {
 
@@ -50,6 +51,24 @@ public:
     delayed_delete_vector(InputIt first, InputIt last) : m_vec(first, last)
     {}
 
+    delayed_delete_vector(const delayed_delete_vector&) = default;
+
+    delayed_delete_vector(delayed_delete_vector&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>)
+        : m_vec(std::move(other.m_vec)), m_front_offset(std::exchange(other.m_front_offset, 0))
+    {
+        other.m_vec.clear();
+    }
+
+    delayed_delete_vector& operator=(const delayed_delete_vector&) = default;
+
+    delayed_delete_vector& operator=(delayed_delete_vector&& other) noexcept(
+        std::is_nothrow_move_constructible_v<store_type> && std::is_nothrow_swappable_v<store_type>)
+    {
+        delayed_delete_vector assigned(std::move(other));
+        swap(assigned);
+        return *this;
+    }
+
     iterator begin() noexcept
     {
         return m_vec.begin() + m_front_offset;
-- 
2.43.0


From 7cb4601089aa99a3f35d4444f609e9d90a830064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 43/64] fix: do not read the first vector of a collection that
 is built from an empty range

---
 include/mdds/multi_type_vector/collection_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index be9876d..eca230a 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -114,6 +114,10 @@ collection<MtvT>::collection(const T& begin, const T& end) : m_mtv_size(0), m_id
     for (T it = begin; it != end; ++it)
         init_insert_vector(*it);
 
+    if (m_vectors.empty())
+        // Without any vector, this is the same as the default constructed collection.
+        return;
+
     // Create a single value that identifies the whole collection.
     auto it = m_vectors.begin();
     uintptr_t identity = reinterpret_cast<uintptr_t>(*it);
-- 
2.43.0


From 7b807e21eb08fb7c8fea5ab26bcd25f614e4d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 44/64] fix: reject collection and element ranges whose end
 position overflows

---
 include/mdds/multi_type_vector/collection_def.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index eca230a..6cc9df9 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -198,7 +198,7 @@ void collection<MtvT>::check_collection_range(size_type start, size_type size) c
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_vectors.size())
+    if (size > m_vectors.size() - start)
         throw invalid_arg_error("size is too large.");
 }
 
@@ -215,7 +215,7 @@ void collection<MtvT>::check_element_range(size_type start, size_type size) cons
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_mtv_size)
+    if (size > m_mtv_size - start)
         throw invalid_arg_error("size is too large.");
 }
 
-- 
2.43.0


From 195fdc81842956157bc567b4b2a6f0ab74e4a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 45/64] fix: keep ownership of a cloned value when growing the
 store of the cloned block fails

---
 include/mdds/multi_type_vector/types.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/types.hpp b/include/mdds/multi_type_vector/types.hpp
index 12802ad..8011e49 100644
--- a/include/mdds/multi_type_vector/types.hpp
+++ b/include/mdds/multi_type_vector/types.hpp
@@ -269,7 +269,17 @@ struct clone_block<BlockT, std::void_t<decltype(clone_value<typename BlockT::val
             // carry state across the elements of the block.
             CV cloner;
             for (const auto& v : src.store())
-                dest_store.push_back(cloner(v));
+            {
+                if constexpr (std::is_pointer_v<value_type>)
+                {
+                    // Make room first, so that a cloned value is never left
+                    // without an owner when growing the store fails.
+                    dest_store.push_back(nullptr);
+                    *std::prev(dest_store.end()) = cloner(v);
+                }
+                else
+                    dest_store.push_back(cloner(v));
+            }
 
             return dest_blk.release();
         }
-- 
2.43.0


From 5725dd4b3bf13b06c8551c568baa0b950a7bdac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 46/64] fix: report emplace_back to the trace function like
 every other public method

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 462b57b..4b1031e 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -1134,6 +1134,8 @@ template<typename Traits>
 template<typename T, typename... Args>
 typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::emplace_back(Args&&... args)
 {
+    MDDS_MTV_TRACE_ARGS(mutator, "args=?");
+
     detach_impl();
 
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
-- 
2.43.0


From 4a3d3fdeac9cc795d5f2c57e5c8eaecc825aca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 47/64] fix: do not touch reference counts in the const
 segment_range of flat_segment_tree

---
 include/mdds/flat_segment_tree.hpp     | 6 +++---
 include/mdds/flat_segment_tree_def.inl | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 318aea3..4f71d71 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -126,11 +126,11 @@ public:
 
     class const_segment_range_type
     {
-        node_ptr m_left_leaf;
-        node_ptr m_right_leaf;
+        const node* m_left_leaf;
+        const node* m_right_leaf;
 
     public:
-        const_segment_range_type(node_ptr left_leaf, node_ptr right_leaf);
+        const_segment_range_type(const node* left_leaf, const node* right_leaf);
 
         const_segment_iterator begin() const;
         const_segment_iterator end() const;
diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 0fad3bc..2298bbe 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -18,7 +18,7 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 
 template<typename Key, typename Value>
 flat_segment_tree<Key, Value>::const_segment_range_type::const_segment_range_type(
-    node_ptr left_leaf, node_ptr right_leaf)
+    const node* left_leaf, const node* right_leaf)
     : m_left_leaf(left_leaf), m_right_leaf(right_leaf)
 {}
 
@@ -26,14 +26,14 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree<
     Key, Value>::const_segment_range_type::begin() const
 {
-    return const_segment_iterator(m_left_leaf.get(), m_left_leaf->next.get());
+    return const_segment_iterator(m_left_leaf, m_left_leaf->next.get());
 }
 
 template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree<
     Key, Value>::const_segment_range_type::end() const
 {
-    return const_segment_iterator(m_right_leaf.get(), nullptr);
+    return const_segment_iterator(m_right_leaf, nullptr);
 }
 
 template<typename Key, typename Value>
@@ -51,7 +51,7 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_range_type flat_segment_tree<Key, Value>::segment_range() const
 {
-    return const_segment_range_type(m_left_leaf, m_right_leaf);
+    return const_segment_range_type(m_left_leaf.get(), m_right_leaf.get());
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From d89451259ec1330b1c92d68d9d2256e80b9f2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 48/64] fix: do not overflow the key type in
 flat_segment_tree::shift_right()

---
 include/mdds/flat_segment_tree.hpp     | 26 ++++++++++++++++++++++++--
 include/mdds/flat_segment_tree_def.inl |  2 +-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 4f71d71..31e5992 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -755,15 +755,37 @@ private:
         }
     }
 
+    /**
+     * Check whether or not a key stays below the end key after it gets shifted
+     * to the right, without computing the shifted key which may not be
+     * representable in the key type.
+     */
+    static bool in_bound_after_shift(const key_type& key, const key_type& shift_value, const key_type& end_key)
+    {
+        if constexpr (std::is_integral_v<key_type> && !std::is_same_v<key_type, bool>)
+        {
+            using distance_type = std::make_unsigned_t<key_type>;
+            const distance_type distance = static_cast<distance_type>(
+                static_cast<distance_type>(end_key) - static_cast<distance_type>(key));
+            return static_cast<distance_type>(shift_value) < distance;
+        }
+        else
+        {
+            key_type shifted = key;
+            shifted += shift_value;
+            return shifted < end_key;
+        }
+    }
+
     static void shift_leaf_key_right(node_ptr& cur_node, node_ptr& end_node, key_type shift_value)
     {
         key_type end_node_key = end_node->key;
         while (cur_node.get() != end_node.get())
         {
-            cur_node->key += shift_value;
-            if (cur_node->key < end_node_key)
+            if (in_bound_after_shift(cur_node->key, shift_value, end_node_key))
             {
                 // The node is still in-bound.  Keep shifting.
+                cur_node->key += shift_value;
                 cur_node = cur_node->next;
                 continue;
             }
diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 2298bbe..f927edf 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -474,7 +474,7 @@ void flat_segment_tree<Key, Value>::shift_right(key_type pos, key_type size, boo
 
         if (m_left_leaf->value_leaf.value != m_init_val && !skip_start_node)
         {
-            if (size < m_right_leaf->key - m_left_leaf->key)
+            if (in_bound_after_shift(m_left_leaf->key, size, m_right_leaf->key))
             {
                 // The leftmost leaf node has a non-initial value.  We need to
                 // insert a new node to carry that value after the shift.
-- 
2.43.0


From 3866fd80dbd22de9f753712dd7e10f71f9441a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 49/64] fix: do not overflow the key type in
 point_quad_tree::remove()

---
 include/mdds/point_quad_tree.hpp | 36 ++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index af68e96..02fde4e 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -13,6 +13,8 @@
 #include <string>
 #include <vector>
 #include <memory>
+#include <type_traits>
+#include <utility>
 
 #define DEBUG_POINT_QUAD_TREE 0
 
@@ -565,15 +567,41 @@ private:
         point_quad_tree& m_db;
     };
 
+    template<typename T, bool Integral>
+    struct distance_of
+    {
+        using type = T;
+    };
+
+    /**
+     * The distance between two signed integer keys may not be representable in
+     * the key type.
+     */
+    template<typename T>
+    struct distance_of<T, true>
+    {
+        using type = std::make_unsigned_t<T>;
+    };
+
+    using distance_type = typename distance_of<key_type, std::is_integral_v<key_type>>::type;
+
+    static distance_type get_distance(key_type v1, key_type v2)
+    {
+        if (v1 < v2)
+            std::swap(v1, v2);
+
+        return static_cast<distance_type>(static_cast<distance_type>(v1) - static_cast<distance_type>(v2));
+    }
+
     struct node_distance
     {
         node_quadrant_t quad;
-        key_type dist;
+        distance_type dist;
         node_ptr node;
 
         node_distance() : quad(quad_unspecified), dist(0), node(nullptr)
         {}
-        node_distance(node_quadrant_t _quad, key_type _dist, const node_ptr& _node)
+        node_distance(node_quadrant_t _quad, distance_type _dist, const node_ptr& _node)
             : quad(_quad), dist(_dist), node(_node)
         {}
     };
@@ -1285,8 +1313,8 @@ void point_quad_tree<Key, Value>::find_candidate_in_quad(
 #endif
 
     // Calculate its distance to each of the borders.
-    key_type dx = repl_node->x > x ? repl_node->x - x : x - repl_node->x;
-    key_type dy = repl_node->y > y ? repl_node->y - y : y - repl_node->y;
+    const distance_type dx = get_distance(repl_node->x, x);
+    const distance_type dy = get_distance(repl_node->y, y);
 #if DEBUG_POINT_QUAD_TREE
     cout << "  dx = " << dx << ", dy = " << dy << endl;
 #endif
-- 
2.43.0


From 7b905693283810e1d4385c71e511cfe6b3e030ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 50/64] fix: do not overflow integer key types in the cost
 values of rtree

---
 include/mdds/rtree.hpp     |  10 ++-
 include/mdds/rtree_def.inl | 123 ++++++++++++++++++++++---------------
 2 files changed, 81 insertions(+), 52 deletions(-)

diff --git a/include/mdds/rtree.hpp b/include/mdds/rtree.hpp
index 81606f7..347fd71 100644
--- a/include/mdds/rtree.hpp
+++ b/include/mdds/rtree.hpp
@@ -13,6 +13,7 @@
 #include <unordered_set>
 #include <unordered_map>
 #include <functional>
+#include <type_traits>
 
 namespace mdds {
 
@@ -126,6 +127,13 @@ enum class search_type
 template<typename NodePtrT>
 struct ptr_to_string;
 
+/**
+ * Type to use for the area, margin and distance values, which are not
+ * necessarily representable in the key type when it's an integer type.
+ */
+template<typename KeyT>
+using cost_type_t = std::conditional_t<std::is_integral_v<KeyT>, double, KeyT>;
+
 }} // namespace detail::rtree
 
 template<typename KeyT, typename ValueT, typename Traits = detail::rtree::default_rtree_traits>
@@ -363,7 +371,7 @@ private:
         node_store* get_child_with_minimal_area_enlargement(const extent_type& bb);
 
         extent_type calc_extent() const;
-        key_type calc_overlap_cost(const extent_type& bb) const;
+        detail::rtree::cost_type_t<key_type> calc_overlap_cost(const extent_type& bb) const;
         bool has_leaf_directory() const;
     };
 
diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 81f69b6..38fbb31 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -64,9 +64,10 @@ inline size_t calc_optimal_segment_size_for_pack(size_t init_size, size_t min_si
 
 template<typename Extent>
 auto calc_linear_intersection(size_t dim, const Extent& bb1, const Extent& bb2)
-    -> remove_cvref_t<decltype(bb1.start.d[0])>
+    -> cost_type_t<remove_cvref_t<decltype(bb1.start.d[0])>>
 {
     using key_type = remove_cvref_t<decltype(bb1.start.d[0])>;
+    using cost_type = cost_type_t<key_type>;
 
     key_type start1 = bb1.start.d[dim], end1 = bb1.end.d[dim];
     key_type start2 = bb2.start.d[dim], end2 = bb2.end.d[dim];
@@ -87,7 +88,7 @@ auto calc_linear_intersection(size_t dim, const Extent& bb1, const Extent& bb2)
         // 2 :           |-------|
 
         // These two are not intersected at all. Bail out.
-        return key_type();
+        return cost_type();
     }
 
     if (end1 < end2)
@@ -95,13 +96,13 @@ auto calc_linear_intersection(size_t dim, const Extent& bb1, const Extent& bb2)
         // 1 : |---------|
         // 2 :      |----------|
 
-        return end1 - start2;
+        return static_cast<cost_type>(end1) - static_cast<cost_type>(start2);
     }
 
     // 1 : |--------------|
     // 2 :      |-----|
 
-    return end2 - start2;
+    return static_cast<cost_type>(end2) - static_cast<cost_type>(start2);
 }
 
 template<typename Extent>
@@ -139,21 +140,21 @@ bool intersects(const Extent& bb1, const Extent& bb2)
 }
 
 template<typename Extent>
-auto calc_intersection(const Extent& bb1, const Extent& bb2) -> remove_cvref_t<decltype(bb1.start.d[0])>
+auto calc_intersection(const Extent& bb1, const Extent& bb2) -> cost_type_t<remove_cvref_t<decltype(bb1.start.d[0])>>
 {
     constexpr size_t dim_size = sizeof(bb1.start.d) / sizeof(bb1.start.d[0]);
     static_assert(dim_size > 0, "Dimension cannot be zero.");
-    using key_type = remove_cvref_t<decltype(bb1.start.d[0])>;
+    using cost_type = cost_type_t<remove_cvref_t<decltype(bb1.start.d[0])>>;
 
-    key_type total_volume = calc_linear_intersection<Extent>(0, bb1, bb2);
+    cost_type total_volume = calc_linear_intersection<Extent>(0, bb1, bb2);
     if (!total_volume)
-        return key_type();
+        return cost_type();
 
     for (size_t dim = 1; dim < dim_size; ++dim)
     {
-        key_type segment_len = calc_linear_intersection<Extent>(dim, bb1, bb2);
+        cost_type segment_len = calc_linear_intersection<Extent>(dim, bb1, bb2);
         if (!segment_len)
-            return key_type();
+            return cost_type();
 
         total_volume *= segment_len;
     }
@@ -187,27 +188,28 @@ bool enlarge_extent_to_fit(Extent& parent, const Extent& child)
 }
 
 template<typename Extent>
-auto calc_area(const Extent& bb) -> remove_cvref_t<decltype(bb.start.d[0])>
+auto calc_area(const Extent& bb) -> cost_type_t<remove_cvref_t<decltype(bb.start.d[0])>>
 {
     constexpr size_t dim_size = sizeof(bb.start.d) / sizeof(bb.start.d[0]);
     static_assert(dim_size > 0, "Dimension cannot be zero.");
-    using key_type = remove_cvref_t<decltype(bb.start.d[0])>;
+    using cost_type = cost_type_t<remove_cvref_t<decltype(bb.start.d[0])>>;
 
-    key_type area = bb.end.d[0] - bb.start.d[0];
+    cost_type area = static_cast<cost_type>(bb.end.d[0]) - static_cast<cost_type>(bb.start.d[0]);
     for (size_t dim = 1; dim < dim_size; ++dim)
-        area *= bb.end.d[dim] - bb.start.d[dim];
+        area *= static_cast<cost_type>(bb.end.d[dim]) - static_cast<cost_type>(bb.start.d[dim]);
 
     return area;
 }
 
 template<typename Pt>
-auto calc_square_distance(const Pt& pt1, const Pt& pt2) -> remove_cvref_t<decltype(pt1.d[0])>
+auto calc_square_distance(const Pt& pt1, const Pt& pt2) -> cost_type_t<remove_cvref_t<decltype(pt1.d[0])>>
 {
     constexpr size_t dim_size = sizeof(pt1.d) / sizeof(pt1.d[0]);
     static_assert(dim_size > 0, "Dimension cannot be zero.");
     using key_type = remove_cvref_t<decltype(pt1.d[0])>;
+    using cost_type = cost_type_t<key_type>;
 
-    key_type dist = key_type();
+    cost_type dist = cost_type();
     for (size_t dim = 0; dim < dim_size; ++dim)
     {
         key_type v1 = pt1.d[dim], v2 = pt2.d[dim];
@@ -217,7 +219,7 @@ auto calc_square_distance(const Pt& pt1, const Pt& pt2) -> remove_cvref_t<declty
 
         assert(v1 <= v2);
 
-        key_type diff = v2 - v1;
+        cost_type diff = static_cast<cost_type>(v2) - static_cast<cost_type>(v1);
         dist += diff * diff;
     }
 
@@ -230,15 +232,15 @@ auto calc_square_distance(const Pt& pt1, const Pt& pt2) -> remove_cvref_t<declty
  * because it only adds one of the two edges in each dimension.
  */
 template<typename Extent>
-auto calc_half_margin(const Extent& bb) -> remove_cvref_t<decltype(bb.start.d[0])>
+auto calc_half_margin(const Extent& bb) -> cost_type_t<remove_cvref_t<decltype(bb.start.d[0])>>
 {
     constexpr size_t dim_size = sizeof(bb.start.d) / sizeof(bb.start.d[0]);
     static_assert(dim_size > 0, "Dimension cannot be zero.");
-    using key_type = remove_cvref_t<decltype(bb.start.d[0])>;
+    using cost_type = cost_type_t<remove_cvref_t<decltype(bb.start.d[0])>>;
 
-    key_type margin = bb.end.d[0] - bb.start.d[0];
+    cost_type margin = static_cast<cost_type>(bb.end.d[0]) - static_cast<cost_type>(bb.start.d[0]);
     for (size_t dim = 1; dim < dim_size; ++dim)
-        margin += bb.end.d[dim] - bb.start.d[dim];
+        margin += static_cast<cost_type>(bb.end.d[dim]) - static_cast<cost_type>(bb.start.d[dim]);
 
     return margin;
 }
@@ -254,24 +256,24 @@ auto calc_half_margin(const Extent& bb) -> remove_cvref_t<decltype(bb.start.d[0]
  */
 template<typename Extent>
 auto calc_area_enlargement(const Extent& bb_host, const Extent& bb_guest)
-    -> remove_cvref_t<decltype(bb_host.start.d[0])>
+    -> cost_type_t<remove_cvref_t<decltype(bb_host.start.d[0])>>
 {
     constexpr size_t dim_size = sizeof(bb_host.start.d) / sizeof(bb_host.start.d[0]);
     static_assert(dim_size > 0, "Dimension cannot be zero.");
-    using key_type = remove_cvref_t<decltype(bb_host.start.d[0])>;
+    using cost_type = cost_type_t<remove_cvref_t<decltype(bb_host.start.d[0])>>;
     using extent = Extent;
 
     // Calculate the original area.
-    key_type original_area = calc_area<Extent>(bb_host);
+    cost_type original_area = calc_area<Extent>(bb_host);
 
     // Enlarge the box for the new object if needed.
     extent bb_host_enlarged = bb_host; // make a copy.
     bool enlarged = enlarge_extent_to_fit<Extent>(bb_host_enlarged, bb_guest);
     if (!enlarged)
         // Area enlargement did not take place.
-        return key_type();
+        return cost_type();
 
-    key_type enlarged_area = calc_area<Extent>(bb_host_enlarged);
+    cost_type enlarged_area = calc_area<Extent>(bb_host_enlarged);
 
     return enlarged_area - original_area;
 }
@@ -292,14 +294,22 @@ auto get_center_point(const Extent& extent) -> decltype(extent.start)
     constexpr size_t dim_size = sizeof(extent.start.d) / sizeof(extent.start.d[0]);
     static_assert(dim_size > 0, "Dimension cannot be zero.");
     using point_type = decltype(extent.start);
-    using key_type = decltype(extent.start.d[0]);
+    using key_type = remove_cvref_t<decltype(extent.start.d[0])>;
 
     point_type ret;
 
     static const key_type two = 2;
 
     for (size_t dim = 0; dim < dim_size; ++dim)
-        ret.d[dim] = (extent.end.d[dim] + extent.start.d[dim]) / two;
+    {
+        const key_type start = extent.start.d[dim], end = extent.end.d[dim];
+
+        if constexpr (std::is_integral_v<key_type>)
+            // The sum of the two may not be representable in the key type.
+            ret.d[dim] = start / two + end / two + (start % two + end % two) / two;
+        else
+            ret.d[dim] = (end + start) / two;
+    }
 
     return ret;
 }
@@ -819,18 +829,20 @@ template<typename KeyT, typename ValueT, typename Traits>
 typename rtree<KeyT, ValueT, Traits>::node_store* rtree<
     KeyT, ValueT, Traits>::directory_node::get_child_with_minimal_overlap(const extent_type& bb)
 {
-    key_type min_overlap = key_type();
-    key_type min_area_enlargement = key_type();
-    key_type min_area = key_type();
+    using cost_type = detail::rtree::cost_type_t<key_type>;
+
+    cost_type min_overlap = cost_type();
+    cost_type min_area_enlargement = cost_type();
+    cost_type min_area = cost_type();
 
     node_store* dst = nullptr;
 
     for (node_store& ns : children)
     {
         directory_node* dir = static_cast<directory_node*>(ns.node_ptr);
-        key_type overlap = dir->calc_overlap_cost(bb);
-        key_type area_enlargement = detail::rtree::calc_area_enlargement<extent_type>(ns.extent, bb);
-        key_type area = detail::rtree::calc_area<extent_type>(ns.extent);
+        cost_type overlap = dir->calc_overlap_cost(bb);
+        cost_type area_enlargement = detail::rtree::calc_area_enlargement<extent_type>(ns.extent, bb);
+        cost_type area = detail::rtree::calc_area<extent_type>(ns.extent);
 
         bool pick_this = false;
 
@@ -864,15 +876,17 @@ typename rtree<KeyT, ValueT, Traits>::node_store* rtree<
     KeyT, ValueT, Traits>::directory_node::get_child_with_minimal_area_enlargement(const extent_type& bb)
 {
     // Compare the costs of area enlargements.
-    key_type min_cost = key_type();
-    key_type min_area = key_type();
+    using cost_type = detail::rtree::cost_type_t<key_type>;
+
+    cost_type min_cost = cost_type();
+    cost_type min_area = cost_type();
 
     node_store* dst = nullptr;
 
     for (node_store& ns : children)
     {
-        key_type cost = detail::rtree::calc_area_enlargement(ns.extent, bb);
-        key_type area = detail::rtree::calc_area(ns.extent);
+        cost_type cost = detail::rtree::calc_area_enlargement(ns.extent, bb);
+        cost_type area = detail::rtree::calc_area(ns.extent);
 
         bool pick_this = false;
 
@@ -910,10 +924,10 @@ typename rtree<KeyT, ValueT, Traits>::extent_type rtree<KeyT, ValueT, Traits>::d
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-typename rtree<KeyT, ValueT, Traits>::key_type rtree<KeyT, ValueT, Traits>::directory_node::calc_overlap_cost(
-    const extent_type& bb) const
+detail::rtree::cost_type_t<typename rtree<KeyT, ValueT, Traits>::key_type> rtree<
+    KeyT, ValueT, Traits>::directory_node::calc_overlap_cost(const extent_type& bb) const
 {
-    key_type overlap_cost = key_type();
+    detail::rtree::cost_type_t<key_type> overlap_cost{};
 
     for (const node_store& ns : children)
         overlap_cost += detail::rtree::calc_intersection<extent_type>(ns.extent, bb);
@@ -1158,8 +1172,11 @@ void rtree<KeyT, ValueT, Traits>::bulk_loader::pack_level(dir_store_type& store,
             // Sort by the current dimension key.
             std::sort(seg.begin, seg.end, [dim](const node_store& left, const node_store& right) -> bool {
                 // Compare the middle points.
-                float left_key = (left.extent.end.d[dim] + left.extent.start.d[dim]) / 2.0f;
-                float right_key = (right.extent.end.d[dim] + right.extent.start.d[dim]) / 2.0f;
+                using cost_type = detail::rtree::cost_type_t<key_type>;
+
+                const extent_type &le = left.extent, &re = right.extent;
+                float left_key = (cost_type(le.end.d[dim]) + cost_type(le.start.d[dim])) / 2.0f;
+                float right_key = (cost_type(re.end.d[dim]) + cost_type(re.start.d[dim])) / 2.0f;
 
                 return left_key < right_key;
             });
@@ -2289,7 +2306,7 @@ void rtree<KeyT, ValueT, Traits>::perform_forced_reinsertion(
     directory_node* dir = ns->get_directory_node();
     assert(dir);
 
-    using buckets_type = std::vector<detail::rtree::reinsertion_bucket<key_type>>;
+    using buckets_type = std::vector<detail::rtree::reinsertion_bucket<detail::rtree::cost_type_t<key_type>>>;
     buckets_type buckets;
     buckets.reserve(ns->count);
 
@@ -2350,8 +2367,10 @@ void rtree<KeyT, ValueT, Traits>::perform_forced_reinsertion(
 template<typename KeyT, typename ValueT, typename Traits>
 void rtree<KeyT, ValueT, Traits>::sort_dir_store_by_split_dimension(dir_store_type& children)
 {
+    using cost_type = detail::rtree::cost_type_t<key_type>;
+
     // Store the sum of margins for each dimension axis.
-    detail::rtree::min_value_pos<key_type> min_margin_dim;
+    detail::rtree::min_value_pos<cost_type> min_margin_dim;
 
     for (size_t dim = 0; dim < traits_type::dimensions; ++dim)
     {
@@ -2359,7 +2378,7 @@ void rtree<KeyT, ValueT, Traits>::sort_dir_store_by_split_dimension(dir_store_ty
         // bounding boxes.  This invalidates the pointers of the child nodes.
         sort_dir_store_by_dimension(dim, children);
 
-        key_type sum_of_margins = key_type(); // it's actually the sum of half margins.
+        cost_type sum_of_margins = cost_type(); // it's actually the sum of half margins.
 
         for (size_t dist = 1; dist <= max_dist_size; ++dist)
         {
@@ -2377,9 +2396,9 @@ void rtree<KeyT, ValueT, Traits>::sort_dir_store_by_split_dimension(dir_store_ty
             extent_type bb2 = detail::rtree::calc_extent(it, it_end);
 
             // Compute the half margins of the first and second groups.
-            key_type margin1 = detail::rtree::calc_half_margin<extent_type>(bb1);
-            key_type margin2 = detail::rtree::calc_half_margin<extent_type>(bb2);
-            key_type margins = margin1 + margin2;
+            cost_type margin1 = detail::rtree::calc_half_margin<extent_type>(bb1);
+            cost_type margin2 = detail::rtree::calc_half_margin<extent_type>(bb2);
+            cost_type margins = margin1 + margin2;
 
             sum_of_margins += margins;
         }
@@ -2410,9 +2429,11 @@ void rtree<KeyT, ValueT, Traits>::sort_dir_store_by_dimension(size_t dim, dir_st
 template<typename KeyT, typename ValueT, typename Traits>
 size_t rtree<KeyT, ValueT, Traits>::pick_optimal_distribution(dir_store_type& children) const
 {
+    using cost_type = detail::rtree::cost_type_t<key_type>;
+
     // Along the chosen dimension axis, pick the distribution with the minimum
     // overlap value.
-    detail::rtree::min_value_pos<key_type> min_overlap_dist;
+    detail::rtree::min_value_pos<cost_type> min_overlap_dist;
 
     for (size_t dist = 1; dist <= max_dist_size; ++dist)
     {
@@ -2422,7 +2443,7 @@ size_t rtree<KeyT, ValueT, Traits>::pick_optimal_distribution(dir_store_type& ch
         extent_type bb1 = detail::rtree::calc_extent(dist_data.g1.begin, dist_data.g1.end);
         extent_type bb2 = detail::rtree::calc_extent(dist_data.g2.begin, dist_data.g2.end);
 
-        key_type overlap = detail::rtree::calc_intersection<extent_type>(bb1, bb2);
+        cost_type overlap = detail::rtree::calc_intersection<extent_type>(bb1, bb2);
         min_overlap_dist.assign(overlap, dist);
     }
 
-- 
2.43.0


From 0dd2521c6d2c232496e39d3c004dd5fd9f54199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 51/64] fix: rtree bulk_loader::pack() never ended with a
 maximum node size of two

---
 include/mdds/rtree_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 38fbb31..dc2422a 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1186,6 +1186,10 @@ void rtree<KeyT, ValueT, Traits>::bulk_loader::pack_level(dir_store_type& store,
                 std::ceil(seg.size / n_splits_per_dim), traits_type::min_node_size, traits_type::max_node_size,
                 seg.size);
 
+            // Segments of one element each would not reduce the number of nodes,
+            // in which case the packing would never end.
+            segment_size = std::max<size_t>(segment_size, 2u);
+
             size_t n_cur_segment = 0;
             auto begin = seg.begin;
             for (auto it = begin; it != seg.end; ++it, ++n_cur_segment)
-- 
2.43.0


From 8f996777b9d6dce114b082d31b490b091da7872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 52/64] fix: flat_segment_tree leaked its leaf nodes when
 copying them threw

---
 include/mdds/flat_segment_tree_def.inl | 42 ++++++++++++++++++--------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index f927edf..0cc7bec 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -81,25 +81,41 @@ flat_segment_tree<Key, Value>::flat_segment_tree(const flat_segment_tree& r)
     // Copy all the leaf nodes from the original instance.
     node* src_node = r.m_left_leaf.get();
     node_ptr dest_node = m_left_leaf;
-    while (true)
+
+    try
     {
-        dest_node->next.reset(new node(*src_node->next));
+        while (true)
+        {
+            dest_node->next.reset(new node(*src_node->next));
 
-        // Move on to the next source node.
-        src_node = src_node->next.get();
+            // Move on to the next source node.
+            src_node = src_node->next.get();
 
-        // Move on to the next destination node, and have the next node point
-        // back to the previous node.
-        node_ptr old_node = dest_node;
-        dest_node = dest_node->next;
-        dest_node->prev = std::move(old_node);
+            // Move on to the next destination node, and have the next node point
+            // back to the previous node.
+            node_ptr old_node = dest_node;
+            dest_node = dest_node->next;
+            dest_node->prev = std::move(old_node);
 
-        if (src_node == r.m_right_leaf.get())
+            if (src_node == r.m_right_leaf.get())
+            {
+                // Reached the right most leaf node.  We can stop here.
+                m_right_leaf = dest_node;
+                break;
+            }
+        }
+    }
+    catch (...)
+    {
+        // The nodes copied so far reference each other, and would never get
+        // freed unless they are disconnected.
+        while (m_left_leaf)
         {
-            // Reached the right most leaf node.  We can stop here.
-            m_right_leaf = dest_node;
-            break;
+            node_ptr next_node = m_left_leaf->next;
+            st::detail::disconnect_all_nodes(m_left_leaf.get());
+            m_left_leaf = std::move(next_node);
         }
+        throw;
     }
 }
 
-- 
2.43.0


From 0026aee64e867829e3a02c0759df2e43285ac368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 53/64] fix: flat_segment_tree::build_tree() left a tree marked
 as valid when it threw

---
 include/mdds/flat_segment_tree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 0cc7bec..56df26f 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -765,6 +765,9 @@ void flat_segment_tree<Key, Value>::build_tree()
     if (!m_left_leaf)
         return;
 
+    // The tree stays invalid if any of the following throws.
+    m_valid_tree = false;
+    m_root_node = nullptr;
     m_nonleaf_node_pool.clear();
 
     // Count the number of leaf nodes.
-- 
2.43.0


From 2979c6f3f3ff370f0bf96f1a4931c92d1b6dea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 54/64] fix: flat_segment_tree insertion was left half done
 when it threw

---
 include/mdds/flat_segment_tree_def.inl | 33 ++++++++++++++------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 56df26f..91ca238 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -227,8 +227,20 @@ template<typename Key, typename Value>
     if (!end_pos)
         end_pos = m_right_leaf;
 
+    // Get the value that comes after the new segment, and create a node to
+    // store it when one is needed, before making any changes.
+
+    const value_type old_value = end_pos->prev->value_leaf.value;
+    node_ptr new_end_node;
+
+    if (end_pos->key != end_key && old_value != val)
+    {
+        new_end_node.reset(new node);
+        new_end_node->key = end_key;
+        new_end_node->value_leaf.value = old_value;
+    }
+
     node_ptr new_start_node;
-    value_type old_value;
 
     // Set the start node.
 
@@ -236,28 +248,24 @@ template<typename Key, typename Value>
 
     if (start_pos->key == start_key)
     {
-        // Re-use the existing node, but save the old value for later.
+        // Re-use the existing node.
 
         if (start_pos->prev && start_pos->prev->value_leaf.value == val)
         {
             // Extend the existing segment.
-            old_value = start_pos->value_leaf.value;
             new_start_node = start_pos->prev;
         }
         else
         {
             // Update the value of the existing node.
-            old_value = start_pos->value_leaf.value;
+            changed = (start_pos->value_leaf.value != val);
             start_pos->value_leaf.value = val;
             new_start_node = std::move(start_pos);
-
-            changed = (old_value != val);
         }
     }
     else if (start_pos->prev->value_leaf.value == val)
     {
         // Extend the existing segment.
-        old_value = start_pos->prev->value_leaf.value;
         new_start_node = start_pos->prev;
     }
     else
@@ -269,7 +277,6 @@ template<typename Key, typename Value>
         new_start_node = new_node;
 
         node_ptr left_node = start_pos->prev;
-        old_value = left_node->value_leaf.value;
 
         // Link to the left node.
         st::detail::link_nodes<node_ptr>(left_node, new_node);
@@ -285,7 +292,6 @@ template<typename Key, typename Value>
         // Disconnect the link between the current node and the previous node.
         cur_node->prev->next.reset();
         cur_node->prev.reset();
-        old_value = cur_node->value_leaf.value;
 
         cur_node = cur_node->next;
         changed = true;
@@ -325,16 +331,13 @@ template<typename Key, typename Value>
     }
     else
     {
-        // Insert a new node before the insertion position node.
-        node_ptr new_node(new node);
-        new_node->key = std::move(end_key);
-        new_node->value_leaf.value = std::move(old_value);
+        // Insert the new end node before the insertion position node.
 
         // Link to the left node.
-        st::detail::link_nodes<node_ptr>(new_start_node, new_node);
+        st::detail::link_nodes<node_ptr>(new_start_node, new_end_node);
 
         // Link to the right node.
-        st::detail::link_nodes<node_ptr>(new_node, end_pos);
+        st::detail::link_nodes<node_ptr>(new_end_node, end_pos);
         changed = true;
     }
 
-- 
2.43.0


From 9b18665ae4c05ffae8ba48db421dd1883c724124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 55/64] fix: flat_segment_tree shifts left broken nodes or a
 stale tree when they threw

---
 include/mdds/flat_segment_tree_def.inl | 33 ++++++++++++++++----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 91ca238..825a8ae 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -433,27 +433,37 @@ void flat_segment_tree<Key, Value>::shift_left(key_type start_key, key_type end_
         // The removed segment does not overlap with any nodes.  Simply
         // shift the key values of those nodes that come after the removed
         // segment.
+        m_valid_tree = false;
         shift_leaf_key_left(node_pos, m_right_leaf, segment_size);
         append_new_segment(right_leaf_key - segment_size);
-        m_valid_tree = false;
         return;
     }
 
-    // Move the first node to the starting position, and from there search
-    // for the first node whose key value is greater than the end value.
-    node_pos->key = start_key;
+    // Starting from the first node, search for the first node whose key value
+    // is greater than the end value.
     node_ptr start_pos = node_pos;
+    node_ptr last_pos = start_pos;
     node_pos = node_pos->next;
-    value_type last_seg_value = start_pos->value_leaf.value;
     while (node_pos.get() != m_right_leaf.get() && node_pos->key <= end_key)
     {
-        last_seg_value = node_pos->value_leaf.value;
-        node_ptr next = node_pos->next;
-        disconnect_all_nodes(node_pos.get());
-        node_pos = std::move(next);
+        last_pos = node_pos;
+        node_pos = node_pos->next;
+    }
+
+    value_type last_seg_value = last_pos->value_leaf.value;
+    m_valid_tree = false;
+
+    // Remove the nodes in between, and move the first node to the starting
+    // position.
+    for (node_ptr cur_node = start_pos->next; cur_node != node_pos;)
+    {
+        node_ptr next = cur_node->next;
+        disconnect_all_nodes(cur_node.get());
+        cur_node = std::move(next);
     }
 
-    start_pos->value_leaf.value = last_seg_value;
+    start_pos->key = start_key;
+    start_pos->value_leaf.value = std::move(last_seg_value);
     start_pos->next = node_pos;
     node_pos->prev = start_pos;
     if (start_pos->prev && start_pos->prev->value_leaf.value == start_pos->value_leaf.value)
@@ -467,7 +477,6 @@ void flat_segment_tree<Key, Value>::shift_left(key_type start_key, key_type end_
     }
 
     shift_leaf_key_left(node_pos, m_right_leaf, segment_size);
-    m_valid_tree = false;
 
     // Insert at the end a new segment with the initial base value, for
     // the length of the removed segment.
@@ -489,6 +498,7 @@ void flat_segment_tree<Key, Value>::shift_right(key_type pos, key_type size, boo
         // Position is at the leftmost node.  Shift all the other nodes,
         // and insert a new node at (pos + size) position.
         node_ptr cur_node = m_left_leaf->next;
+        m_valid_tree = false;
         shift_leaf_key_right(cur_node, m_right_leaf, size);
 
         if (m_left_leaf->value_leaf.value != m_init_val && !skip_start_node)
@@ -514,7 +524,6 @@ void flat_segment_tree<Key, Value>::shift_right(key_type pos, key_type size, boo
             }
         }
 
-        m_valid_tree = false;
         return;
     }
 
-- 
2.43.0


From 6ff854d3d4ff172d4481f2e982aac5c68e21a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 56/64] fix: copying a point_quad_tree leaked nodes, and
 assignment lost the content, when it threw

---
 include/mdds/point_quad_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 02fde4e..1eff666 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -643,8 +643,10 @@ point_quad_tree<Key, Value>::point_quad_tree() : m_root(nullptr), m_xrange(0, 0)
 {}
 
 template<typename Key, typename Value>
-point_quad_tree<Key, Value>::point_quad_tree(const point_quad_tree& r) : m_root(nullptr), m_xrange(0, 0), m_yrange(0, 0)
+point_quad_tree<Key, Value>::point_quad_tree(const point_quad_tree& r) : point_quad_tree()
 {
+    // Once the delegated constructor has finished, the destructor will free
+    // the nodes copied so far should the following throw.
     insert_data_from(r);
 }
 
@@ -942,10 +944,8 @@ point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_
         // assignment to self.
         return *this;
 
-    m_xrange = key_range_type(0, 0);
-    m_yrange = key_range_type(0, 0);
-    clear_all_nodes();
-    insert_data_from(r);
+    point_quad_tree copied(r);
+    swap(copied);
     return *this;
 }
 
-- 
2.43.0


From bd7e600dadbcade04f9e80fe5d1b60887781e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 57/64] fix: point_quad_tree::remove() lost points when it
 threw

---
 include/mdds/point_quad_tree.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 1eff666..42744c4 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -833,6 +833,17 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
             throw general_error("quadrant for the replacement node is unspecified.");
     }
 
+    // Allocate everything that is needed before making any changes.
+    value_type repl_data(repl_node->data);
+    insert_list.reserve(insert_list.size() + 2);
+
+    // Take out the trees to reinsert.
+    for (node_ptr& node : insert_list)
+    {
+        disconnect_node_from_parent(node);
+        node->parent.reset();
+    }
+
     // Reinsert all child nodes from the replacement node into the node to be
     // "deleted".
     switch (repl_quad)
@@ -868,7 +879,7 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     // Finally, replace the node to be removed with the replacement node.
     delete_node->x = repl_node->x;
     delete_node->y = repl_node->y;
-    delete_node->data = repl_node->data;
+    delete_node->data = std::move(repl_data);
 
     // Take the replacement node out of the tree.  Its remaining child belongs to
     // the same quadrant of the new position, which may already be occupied.
@@ -1349,8 +1360,6 @@ void point_quad_tree<Key, Value>::adjust_quad(
         cout << "  " << *quad_root->data << " is in the hatched region" << endl;
 #endif
         // Insert the whole tree, including the root, into the insert list.
-        disconnect_node_from_parent(quad_root);
-        quad_root->parent.reset();
         insert_list.push_back(quad_root);
         return;
     }
-- 
2.43.0


From 3b9c18071ef3360261f8bc4b37d825bb2af3d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 58/64] fix: segment_tree leaked nodes or kept dangling ones
 when building, copying or moving it threw

---
 include/mdds/segment_tree_def.inl | 54 ++++++++++++++-----------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 5b77831..898a637 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -249,21 +249,20 @@ segment_tree<KeyT, ValueT>::segment_tree() noexcept(nothrow_default_constructibl
 {}
 
 template<typename KeyT, typename ValueT>
-segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r)
-    : m_segment_store(r.m_segment_store), m_root_node(nullptr), m_valid_tree(r.m_valid_tree)
+segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r) : segment_tree()
 {
-    if (m_valid_tree)
+    // Once the delegated constructor has finished, the destructor will free
+    // the nodes should building the tree throw.
+    m_segment_store = r.m_segment_store;
+
+    if (r.m_valid_tree)
         build_tree();
 }
 
 template<typename KeyT, typename ValueT>
-segment_tree<KeyT, ValueT>::segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v)
-    : m_nonleaf_node_pool(std::move(r.m_nonleaf_node_pool)), m_segment_store(std::move(r.m_segment_store)),
-      m_tagged_nodes_map(std::move(r.m_tagged_nodes_map)), m_root_node(r.m_root_node),
-      m_left_leaf(std::move(r.m_left_leaf)), m_right_leaf(std::move(r.m_right_leaf)), m_valid_tree(r.m_valid_tree)
+segment_tree<KeyT, ValueT>::segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v) : segment_tree()
 {
-    r.m_root_node = nullptr;
-    r.m_valid_tree = false;
+    swap(r);
 }
 
 template<typename KeyT, typename ValueT>
@@ -419,6 +418,8 @@ void segment_tree<KeyT, ValueT>::build_leaf_nodes()
     // NB: m_segment_store must not contain deleted segments!
 
     disconnect_leaf_nodes(m_left_leaf.get(), m_right_leaf.get());
+    m_left_leaf.reset();
+    m_right_leaf.reset();
 
     // Collect all boundary keys.
     std::vector<key_type> keys;
@@ -447,32 +448,25 @@ void segment_tree<KeyT, ValueT>::create_leaf_node_instances(std::vector<key_type
     std::sort(keys.begin(), keys.end());
     keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
 
-    auto it = keys.cbegin();
-
-    // left-most node
-    left.reset(new node);
-    left->key = *it;
+    // Create all nodes before linking them, since linked nodes reference each
+    // other and would not get freed if creating another one throws.
+    std::vector<node_ptr> nodes;
+    nodes.reserve(keys.size());
 
-    // move on to next.
-    left->next.reset(new node);
-    node_ptr prev_node = left;
-    node_ptr cur_node = left->next;
-    cur_node->prev = prev_node;
-
-    for (++it; it != keys.cend(); ++it)
+    for (const key_type& key : keys)
     {
-        cur_node->key = *it;
+        nodes.emplace_back(new node);
+        nodes.back()->key = key;
+    }
 
-        // move on to next
-        cur_node->next.reset(new node);
-        prev_node = cur_node;
-        cur_node = cur_node->next;
-        cur_node->prev = prev_node;
+    for (std::size_t i = 1; i < nodes.size(); ++i)
+    {
+        nodes[i - 1]->next = nodes[i];
+        nodes[i]->prev = nodes[i - 1];
     }
 
-    // Remove the excess node.
-    prev_node->next.reset();
-    right = prev_node;
+    left = nodes.front();
+    right = nodes.back();
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From c2027a914d9124a0e58071a6616b4426a76824de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 59/64] fix: move construction of an rtree left the source
 without a root when it threw

---
 include/mdds/rtree_def.inl | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index dc2422a..79cfc2b 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1268,14 +1268,10 @@ rtree<KeyT, ValueT, Traits>::rtree() : m_root(node_store::create_leaf_directory_
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-rtree<KeyT, ValueT, Traits>::rtree(rtree&& other) : m_root(std::move(other.m_root))
+rtree<KeyT, ValueT, Traits>::rtree(rtree&& other) : rtree()
 {
     // The root node must be a valid directory at all times.
-    other.m_root = node_store::create_leaf_directory_node();
-
-    // Since the moved root has its memory location changed, we need to update
-    // the parent pointers in its child nodes.
-    m_root.reset_parent_pointers();
+    swap(other);
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-- 
2.43.0


From baed8b915bee44ea3d237ab7e7f15c09f9703c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 60/64] fix: trie_map insertion left nodes without a value when
 it threw

---
 include/mdds/trie_map_def.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 6cb6547..6969bb1 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -816,8 +816,12 @@ void trie_map<KeyT, ValueT, TraitsT>::insert_into_tree(
     auto it = node.children.lower_bound(c);
     if (it == node.children.end() || node.children.key_comp()(c, it->first))
     {
-        // Insert a new node.
-        it = node.children.insert(it, typename trie_node::children_type::value_type(c, trie_node()));
+        // Insert a new node.  Build the whole branch before inserting it, so
+        // that no node without a value stays behind if something throws.
+        trie_node branch;
+        insert_into_tree(branch, ++key, key_end, std::move(value));
+        node.children.insert(it, typename trie_node::children_type::value_type(c, std::move(branch)));
+        return;
     }
 
     ++key;
-- 
2.43.0


From b0516b47d2b1977491014be0d4b2969f81e8b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 61/64] fix: move construction of a packed_trie_map left the
 source without its root when it threw

---
 include/mdds/trie_map_def.inl | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 6969bb1..a1156e7 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1391,13 +1391,10 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(const packed_trie_map& o
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
-    : m_value_store(std::move(other.m_value_store)), m_packed(std::move(other.m_packed))
+packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other) : packed_trie_map()
 {
     // Even the empty structure needs to have the root offset and the empty root record.
-    other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
-    other.m_packed[0] = 1;
-    other.m_packed[1] = null_value;
+    swap(other);
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From d722ef4b005e321d8badf6780e123d251e8360ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 62/64] fix: multi_type_vector constructors leaked the element
 block when storing it threw

---
 .../mdds/multi_type_vector/aos/main_def.inl    | 10 ++++++++--
 .../mdds/multi_type_vector/soa/main_def.inl    | 18 ++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 0497d9b..a6a8ce0 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -245,9 +245,12 @@ multi_type_vector<Traits>::multi_type_vector(size_type init_size, const T& value
     if (!init_size)
         return;
 
+    // Prepare the store first, so that storing the block cannot throw.
+    m_blocks.emplace_back(0, init_size);
+
     base_element_block* data = mdds_mtv_create_new_block(init_size, value);
+    m_blocks.back().data = data;
     m_hdl_event.element_block_acquired(data);
-    m_blocks.emplace_back(0, init_size, data);
 }
 
 template<typename Traits>
@@ -262,9 +265,12 @@ multi_type_vector<Traits>::multi_type_vector(size_type init_size, const T& it_be
     if (m_cur_size != data_len)
         throw invalid_arg_error("Specified size does not match the size of the initial data array.");
 
+    // Prepare the store first, so that storing the block cannot throw.
+    m_blocks.emplace_back(0, m_cur_size);
+
     base_element_block* data = mdds_mtv_create_new_block(*it_begin, it_begin, it_end);
+    m_blocks.back().data = data;
     m_hdl_event.element_block_acquired(data);
-    m_blocks.emplace_back(0, m_cur_size, data);
 }
 
 template<typename Traits>
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 4b1031e..7688087 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -422,11 +422,14 @@ multi_type_vector<Traits>::multi_type_vector(size_type init_size, const T& value
     if (!init_size)
         return;
 
-    base_element_block* data = mdds_mtv_create_new_block(init_size, value);
-    m_hdl_event.element_block_acquired(data);
+    // Prepare the store first, so that storing the block cannot throw.
     m_block_store.positions.emplace_back(0);
     m_block_store.sizes.emplace_back(init_size);
-    m_block_store.element_blocks.emplace_back(data);
+    m_block_store.element_blocks.emplace_back(nullptr);
+
+    base_element_block* data = mdds_mtv_create_new_block(init_size, value);
+    m_block_store.element_blocks.back() = data;
+    m_hdl_event.element_block_acquired(data);
 }
 
 template<typename Traits>
@@ -445,11 +448,14 @@ multi_type_vector<Traits>::multi_type_vector(size_type init_size, const T& it_be
     if (m_cur_size != data_len)
         throw mdds::invalid_arg_error("Specified size does not match the size of the initial data array.");
 
-    base_element_block* data = mdds_mtv_create_new_block(*it_begin, it_begin, it_end);
-    m_hdl_event.element_block_acquired(data);
+    // Prepare the store first, so that storing the block cannot throw.
     m_block_store.positions.emplace_back(0);
     m_block_store.sizes.emplace_back(m_cur_size);
-    m_block_store.element_blocks.emplace_back(data);
+    m_block_store.element_blocks.emplace_back(nullptr);
+
+    base_element_block* data = mdds_mtv_create_new_block(*it_begin, it_begin, it_end);
+    m_block_store.element_blocks.back() = data;
+    m_hdl_event.element_block_acquired(data);
 }
 
 template<typename Traits>
-- 
2.43.0


From 1c81ec9907e335f7caa6e0bc37466b6382101007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 63/64] fix: segment_tree::build_tree() lost segment values
 when it threw

---
 include/mdds/segment_tree_def.inl | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 898a637..655d4c1 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -84,16 +84,7 @@ void erase_deleted_segments(SegStoreT& segments)
 {
     using segment_type = typename SegStoreT::value_type;
 
-    SegStoreT compacted;
-    for (auto&& v : segments)
-    {
-        if (v == segment_type{})
-            continue;
-
-        compacted.push_back(std::move(v));
-    }
-
-    segments.swap(compacted);
+    segments.erase(std::remove(segments.begin(), segments.end(), segment_type{}), segments.end());
 }
 
 }} // namespace st::detail
-- 
2.43.0


From dfe1b8e5580c0666baff27776ae07cbd27c2e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 64/64] fix: advance_position() takes steps beyond the range of
 int

The number of steps was an int, and so were the sizes and offsets of the
blocks it was compared with: a position deeper than 2^31 in its block could
not be moved back, and the parallel walks of multi_type_matrix, which move by
whole sections, went out of the blocks when a section was that long.
---
 include/mdds/multi_type_vector/aos/main.hpp     | 4 ++--
 include/mdds/multi_type_vector/aos/main_def.inl | 4 ++--
 include/mdds/multi_type_vector/soa/main.hpp     | 4 ++--
 include/mdds/multi_type_vector/soa/main_def.inl | 4 ++--
 include/mdds/multi_type_vector/util.hpp         | 9 +++++----
 5 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main.hpp b/include/mdds/multi_type_vector/aos/main.hpp
index f2a7468..24486bf 100644
--- a/include/mdds/multi_type_vector/aos/main.hpp
+++ b/include/mdds/multi_type_vector/aos/main.hpp
@@ -205,7 +205,7 @@ public:
      *
      * @return position object that points to the new logical position.
      */
-    static position_type advance_position(const position_type& pos, int steps);
+    static position_type advance_position(const position_type& pos, std::ptrdiff_t steps);
 
     /**
      * Move the position object to the next logical position.  Caller must
@@ -226,7 +226,7 @@ public:
      *
      * @return position object that points to the new logical position.
      */
-    static const_position_type advance_position(const const_position_type& pos, int steps);
+    static const_position_type advance_position(const const_position_type& pos, std::ptrdiff_t steps);
 
     /**
      * Extract the logical position from a position object.
diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index a6a8ce0..7356e92 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -87,7 +87,7 @@ typename multi_type_vector<Traits>::position_type multi_type_vector<Traits>::nex
 
 template<typename Traits>
 typename multi_type_vector<Traits>::position_type multi_type_vector<Traits>::advance_position(
-    const position_type& pos, int steps)
+    const position_type& pos, std::ptrdiff_t steps)
 {
     return mdds::mtv::detail::advance_position<position_type>(pos, steps);
 }
@@ -113,7 +113,7 @@ typename multi_type_vector<Traits>::const_position_type multi_type_vector<Traits
 
 template<typename Traits>
 typename multi_type_vector<Traits>::const_position_type multi_type_vector<Traits>::advance_position(
-    const const_position_type& pos, int steps)
+    const const_position_type& pos, std::ptrdiff_t steps)
 {
     return mdds::mtv::detail::advance_position<const_position_type>(pos, steps);
 }
diff --git a/include/mdds/multi_type_vector/soa/main.hpp b/include/mdds/multi_type_vector/soa/main.hpp
index cdca223..cadef6f 100644
--- a/include/mdds/multi_type_vector/soa/main.hpp
+++ b/include/mdds/multi_type_vector/soa/main.hpp
@@ -295,7 +295,7 @@ public:
      *
      * @return position object that points to the new logical position.
      */
-    static position_type advance_position(const position_type& pos, int steps);
+    static position_type advance_position(const position_type& pos, std::ptrdiff_t steps);
 
     /**
      * Move the position object to the next logical position.  Caller must
@@ -316,7 +316,7 @@ public:
      *
      * @return position object that points to the new logical position.
      */
-    static const_position_type advance_position(const const_position_type& pos, int steps);
+    static const_position_type advance_position(const const_position_type& pos, std::ptrdiff_t steps);
 
     /**
      * Extract the logical position from a position object.
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 7688087..4f0a6ec 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -319,7 +319,7 @@ typename multi_type_vector<Traits>::position_type multi_type_vector<Traits>::nex
 
 template<typename Traits>
 typename multi_type_vector<Traits>::position_type multi_type_vector<Traits>::advance_position(
-    const position_type& pos, int steps)
+    const position_type& pos, std::ptrdiff_t steps)
 {
     return mdds::mtv::detail::advance_position<position_type>(pos, steps);
 }
@@ -345,7 +345,7 @@ typename multi_type_vector<Traits>::const_position_type multi_type_vector<Traits
 
 template<typename Traits>
 typename multi_type_vector<Traits>::const_position_type multi_type_vector<Traits>::advance_position(
-    const const_position_type& pos, int steps)
+    const const_position_type& pos, std::ptrdiff_t steps)
 {
     return mdds::mtv::detail::advance_position<const_position_type>(pos, steps);
 }
diff --git a/include/mdds/multi_type_vector/util.hpp b/include/mdds/multi_type_vector/util.hpp
index 738994c..b97a177 100644
--- a/include/mdds/multi_type_vector/util.hpp
+++ b/include/mdds/multi_type_vector/util.hpp
@@ -8,6 +8,7 @@
 
 #include "./block_funcs.hpp"
 
+#include <cstddef>
 #include <sstream>
 
 namespace mdds { namespace mtv {
@@ -186,7 +187,7 @@ std::pair<_SizeT, bool> calc_input_end_position(const _T& it_begin, const _T& it
 }
 
 template<typename T>
-T advance_position(const T& pos, int steps)
+T advance_position(const T& pos, std::ptrdiff_t steps)
 {
     T ret = pos;
 
@@ -202,7 +203,7 @@ T advance_position(const T& pos, int steps)
             }
             else
             {
-                steps -= static_cast<int>(ret.first->size - ret.second);
+                steps -= static_cast<std::ptrdiff_t>(ret.first->size - ret.second);
                 ++ret.first;
                 ret.second = 0;
             }
@@ -212,14 +213,14 @@ T advance_position(const T& pos, int steps)
     {
         while (steps < 0)
         {
-            if (static_cast<int>(ret.second) >= -steps)
+            if (static_cast<std::ptrdiff_t>(ret.second) >= -steps)
             {
                 ret.second += steps;
                 break;
             }
             else
             {
-                steps += static_cast<int>(ret.second + 1);
+                steps += static_cast<std::ptrdiff_t>(ret.second + 1);
                 --ret.first;
                 ret.second = ret.first->size - 1;
             }
-- 
2.43.0

