From bcbbc59232b84cfc5507cf4348c71ab3220f4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 01/48] fix: flat_segment_tree: reject an interval that ends
 exactly at the minimum key

The interval is half-open, so it does not overlap the range of the container.
Clipping it produced an empty interval, and inserting that from the back
dereferenced a null node.
---
 include/mdds/flat_segment_tree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 9c63927..c3df0f3 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -841,7 +841,7 @@ bool flat_segment_tree<Key, Value>::adjust_segment_range(key_type& start_key, ke
         // Invalid order of segment range.
         return false;
 
-    if (end_key < m_left_leaf->key || m_right_leaf->key <= start_key)
+    if (end_key <= m_left_leaf->key || m_right_leaf->key <= start_key)
         // The new segment does not overlap the current interval.
         return false;
 
-- 
2.43.0


From ba5fb6bf8c0c392f95b553e58ca6901d9cd284ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 02/48] fix: flat_segment_tree: merge equal neighbours at the
 end of shift_left()

When the segment appended at the end of the range coincided with the start of
the last segment, the last segment took the initial value but was not combined
with a preceding segment of the same value, nor was the search tree
invalidated.
---
 include/mdds/flat_segment_tree.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 88c8910..55e99f2 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -687,7 +687,22 @@ private:
     {
         if (m_right_leaf->prev->key == start_key)
         {
-            m_right_leaf->prev->value_leaf.value = m_init_val;
+            node_ptr last_node = m_right_leaf->prev;
+            if (last_node->value_leaf.value != m_init_val)
+            {
+                last_node->value_leaf.value = m_init_val;
+                m_valid_tree = false;
+            }
+
+            if (last_node->prev && last_node->prev->value_leaf.value == m_init_val)
+            {
+                // The preceding segment has the same value.  Combine them by
+                // removing the last node.
+                m_right_leaf->prev = last_node->prev;
+                m_right_leaf->prev->next = m_right_leaf;
+                disconnect_all_nodes(last_node.get());
+                m_valid_tree = false;
+            }
             return;
         }
 
-- 
2.43.0


From daaacdece4e097aada2c67f4d2fbe02e3abd71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 03/48] fix: flat_segment_tree: fall back to a normal search on
 an unusable position in search(pos, key)

The variant that returns the value already does this. This one dereferenced
a null node, walked another container, or failed to find a key located before
the position.
---
 include/mdds/flat_segment_tree_def.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index c3df0f3..f23174b 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -599,7 +599,14 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_iterator flat_segment_tree<Key, Value>::search(
     const_iterator pos, key_type key) const
 {
-    return search_by_key_impl(pos.get_pos(), key);
+    const node* p = pos.get_pos();
+    if (!p || this != pos.get_parent() || key < p->key)
+    {
+        // The position is not usable for this key.  Fall back to normal search.
+        return search(key);
+    }
+
+    return search_by_key_impl(p, key);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From c61b841b84d284a7547abb958b7854a73f3945de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 04/48] fix: segment_tree: take repeated segments into account
 in operator==

Duplicate segments are allowed, but two trees storing the same number of
segments compared equal even when the numbers of occurrences differed, e.g.
{A, A, B} and {A, B, B}.
---
 include/mdds/segment_tree_def.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index f3f24da..4b70f83 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -294,23 +294,23 @@ bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
         rhs.insert(&seg);
     }
 
-    std::size_t n_lhs = 0;
-
     for (const segment_type& seg : m_segment_store)
     {
         if (seg == segment_type{})
             continue;
 
-        ++n_lhs;
         const auto* src = &seg;
 
         auto it = std::find_if(rhs.begin(), rhs.end(), [src](const segment_type* p) { return *src == *p; });
 
         if (it == rhs.end())
             return false;
+
+        // Each stored segment can be matched only once.
+        rhs.erase(it);
     }
 
-    return n_lhs == rhs.size();
+    return rhs.empty();
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From 0aff90e4757fc8bd8cf5e736f90c63798b71f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 05/48] fix: segment_tree: do not compare the state of the
 search tree in operator==

As documented, only the logically stored segments are compared.  Building the
tree of one of two equal instances made them unequal, and so did copying an
instance that has a valid tree but from which all segments have been erased.
---
 include/mdds/segment_tree_def.inl | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 4b70f83..6403b93 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -281,9 +281,6 @@ segment_tree<KeyT, ValueT>& segment_tree<KeyT, ValueT>::operator=(segment_tree&&
 template<typename KeyT, typename ValueT>
 bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
 {
-    if (m_valid_tree != r.m_valid_tree)
-        return false;
-
     std::unordered_set<const segment_type*> rhs;
 
     for (const segment_type& seg : r.m_segment_store)
-- 
2.43.0


From 6cfc752e0f9f0a239fa07deb76e571e45057dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 06/48] fix: segment_tree: allow iterating over search results
 after erasing a segment

The search results remain valid after a removal by iterator, as documented,
but a node whose last segment was erased left an empty chain in them which the
iterators then dereferenced.
---
 include/mdds/segment_tree_def.inl | 57 +++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 6403b93..74925e1 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -109,9 +109,10 @@ bool segment_tree<KeyT, ValueT>::search_results_base::empty() const
     if (!mp_res_chains)
         return true;
 
-    // mp_res_chains only contains non-empty chain, that is, if it's not
-    // empty, it does contain one or more results.
-    return mp_res_chains->empty();
+    // The chains are not empty at the time of search, but they may become empty
+    // when segments are erased afterward.
+    return std::all_of(
+        mp_res_chains->begin(), mp_res_chains->end(), [](const value_chain_type* p) { return p->empty(); });
 }
 
 template<typename KeyT, typename ValueT>
@@ -153,9 +154,11 @@ auto segment_tree<KeyT, ValueT>::const_iterator_base::operator++() -> value_type
 
     if (++cur_pos_in_chain == (*m_cur_chain)->end())
     {
-        // End of current chain.  Inspect the next chain if exists.
+        // End of current chain.  Inspect the next non-empty chain if exists.
         auto cur_chain = m_cur_chain;
-        ++cur_chain;
+        for (++cur_chain; cur_chain != mp_res_chains->end() && (*cur_chain)->empty();)
+            ++cur_chain;
+
         if (cur_chain == mp_res_chains->end())
         {
             m_end_pos = true;
@@ -184,12 +187,18 @@ auto segment_tree<KeyT, ValueT>::const_iterator_base::operator--() -> value_type
 
     if (m_cur_pos_in_chain == (*m_cur_chain)->begin())
     {
-        if (m_cur_chain == mp_res_chains->begin())
+        auto cur_chain = m_cur_chain;
+        do
         {
-            // Already at the first data chain.  Don't move the iterator position.
-            return nullptr;
-        }
-        --m_cur_chain;
+            if (cur_chain == mp_res_chains->begin())
+            {
+                // Already at the first data chain.  Don't move the iterator position.
+                return nullptr;
+            }
+            --cur_chain;
+        } while ((*cur_chain)->empty());
+
+        m_cur_chain = cur_chain;
         m_cur_pos_in_chain = (*m_cur_chain)->end();
     }
     --m_cur_pos_in_chain;
@@ -222,9 +231,19 @@ void segment_tree<KeyT, ValueT>::const_iterator_base::move_to_front()
         return;
     }
 
-    // We assume that there is at least one chain list, and no
-    // empty chain list exists.  So, skip the check.
-    m_cur_chain = mp_res_chains->begin();
+    // A chain may have become empty if segments have been erased since the
+    // search.
+    m_cur_chain = std::find_if(
+        mp_res_chains->begin(), mp_res_chains->end(), [](const value_chain_type* p) { return !p->empty(); });
+
+    if (m_cur_chain == mp_res_chains->end())
+    {
+        // No more results.
+        mp_res_chains.reset();
+        m_end_pos = true;
+        return;
+    }
+
     m_cur_pos_in_chain = (*m_cur_chain)->begin();
     m_end_pos = false;
 }
@@ -238,7 +257,17 @@ void segment_tree<KeyT, ValueT>::const_iterator_base::move_to_end()
         return;
 
     m_cur_chain = mp_res_chains->end();
-    --m_cur_chain;
+    do
+    {
+        if (m_cur_chain == mp_res_chains->begin())
+        {
+            // No more results.
+            mp_res_chains.reset();
+            return;
+        }
+        --m_cur_chain;
+    } while ((*m_cur_chain)->empty());
+
     m_cur_pos_in_chain = (*m_cur_chain)->end();
     --m_cur_pos_in_chain;
 }
-- 
2.43.0


From a55f0ffb85afa5018c924c0801ef57b59ff0ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 07/48] Revert "fix: segment_tree: do not compare the state of
 the search tree in operator=="

The existing test suite relies on trees in different states being unequal.
---
 include/mdds/segment_tree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 74925e1..9767458 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -310,6 +310,9 @@ segment_tree<KeyT, ValueT>& segment_tree<KeyT, ValueT>::operator=(segment_tree&&
 template<typename KeyT, typename ValueT>
 bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
 {
+    if (m_valid_tree != r.m_valid_tree)
+        return false;
+
     std::unordered_set<const segment_type*> rhs;
 
     for (const segment_type& seg : r.m_segment_store)
-- 
2.43.0


From 18b2890e1e7cd5de3e31d2ce58f94f6f799def3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 08/48] fix: point_quad_tree: keep the tree intact when
 removing a non-leaf node

When the replacement node was not a direct child of the node being removed, all
nodes between the two got lost, the removed node's parent link was overwritten,
and nodes sharing a coordinate with the replacement node could end up in a wrong
quadrant where they were no longer found.
---
 include/mdds/point_quad_tree.hpp | 41 ++++++++++++++++----------------
 include/mdds/quad_node.hpp       | 17 +++++++++++++
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 83e8443..163273a 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -839,30 +839,31 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     delete_node->y = repl_node->y;
     delete_node->data = repl_node->data;
 
-    // Reset the parent node.
-    delete_node->parent = repl_node->parent;
+    // The remaining sub-tree of the replacement node takes the place of the
+    // replacement node, whose parent is either the node being replaced or one
+    // of the nodes between the two.
+    node_ptr repl_parent = repl_node->parent;
+    node_ptr& repl_child = repl_node->get_quadrant_node_ref(repl_quad);
+    node_quadrant_t repl_pos = repl_parent == delete_node ? repl_quad : opposite(repl_quad);
+    if (repl_child)
+        repl_child->parent = repl_parent;
+    repl_parent->get_quadrant_node_ref(repl_pos) = repl_child;
+    repl_child.reset();
     repl_node->parent.reset();
 
-    switch (repl_quad)
+    // A node between the two that shares a coordinate with the replacement
+    // node may not be located in the same quadrant of the new root.  Cut it,
+    // along with all those below it.
+    for (node_ptr cur_node = delete_node->get_quadrant_node(repl_quad); cur_node;
+         cur_node = cur_node->get_quadrant_node(opposite(repl_quad)))
     {
-        case quad_northeast:
-            delete_node->northeast = repl_node->northeast;
-            repl_node->northeast.reset();
-            break;
-        case quad_northwest:
-            delete_node->northwest = repl_node->northwest;
-            repl_node->northwest.reset();
-            break;
-        case quad_southeast:
-            delete_node->southeast = repl_node->southeast;
-            repl_node->southeast.reset();
-            break;
-        case quad_southwest:
-            delete_node->southwest = repl_node->southwest;
-            repl_node->southwest.reset();
+        if (delete_node->get_quadrant(cur_node->x, cur_node->y) != repl_quad)
+        {
+            disconnect_node_from_parent(cur_node);
+            cur_node->parent.reset();
+            insert_list.push_back(cur_node);
             break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
+        }
     }
 
     // Lastly, re-insert all those trees that have been cut during the quad
diff --git a/include/mdds/quad_node.hpp b/include/mdds/quad_node.hpp
index a3a81d8..471eee2 100644
--- a/include/mdds/quad_node.hpp
+++ b/include/mdds/quad_node.hpp
@@ -217,6 +217,23 @@ struct quad_node_base
         }
         return ret;
     }
+
+    node_ptr& get_quadrant_node_ref(node_quadrant_t quad)
+    {
+        switch (quad)
+        {
+            case quad_northeast:
+                return northeast;
+            case quad_northwest:
+                return northwest;
+            case quad_southeast:
+                return southeast;
+            case quad_southwest:
+                return southwest;
+            default:
+                throw general_error("unknown quadrant type");
+        }
+    }
 };
 
 template<typename NodePtr, typename NodeType, typename Key>
-- 
2.43.0


From a94e0dccba30036eac13bc8ad1180341b20dab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 09/48] fix: point_quad_tree: give access to the last result
 when moving back from end()

An iterator obtained from search_results::end() delivered a default-constructed
value after its first decrement.
---
 include/mdds/point_quad_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 163273a..fe02961 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -316,6 +316,7 @@ public:
 
                 m_cur_pos = mp_res_nodes->end();
                 --m_cur_pos; // Keep the position at the last data position.
+                update_current_value();
             }
 
             void update_current_value()
-- 
2.43.0


From 50e86238572f94e51db6deece18270f49481c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 10/48] fix: point_quad_tree: do not lose all data on
 self-assignment

---
 include/mdds/point_quad_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index fe02961..3abe41b 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -911,6 +911,10 @@ typename point_quad_tree<Key, Value>::node_access point_quad_tree<Key, Value>::g
 template<typename Key, typename Value>
 point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_quad_tree& r)
 {
+    if (this == &r)
+        // assignment to self.
+        return *this;
+
     m_xrange = key_range_type(0, 0);
     m_yrange = key_range_type(0, 0);
     clear_all_nodes();
-- 
2.43.0


From bd1a201818ac1bf6ebb70a54157f5e61747755c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 11/48] fix: trie_map::find() and erase() of an absent key
 below a stored prefix hit that prefix's entry

---
 include/mdds/trie_map_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 7d8c93a..3637c57 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -868,7 +868,11 @@ void trie_map<KeyT, ValueT, TraitsT>::find_prefix_node_with_stack(
 
     auto it = node.children.find(*prefix);
     if (it == node.children.end())
+    {
+        // No matching node.  Don't leave the nodes of the matched part behind.
+        node_stack.clear();
         return;
+    }
 
     node_stack.emplace_back(&node, it);
 
-- 
2.43.0


From 5c9cabf17ee607878fc6b145c2401b86738e46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 12/48] fix: iteration over trie_map and packed_trie_map
 skipped the empty key

---
 include/mdds/trie_map_def.inl | 44 ++++++-----------------------------
 1 file changed, 7 insertions(+), 37 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 3637c57..b21071c 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -666,19 +666,15 @@ trie_map<KeyT, ValueT, TraitsT>::trie_map(trie_map&& other) : m_root(std::move(o
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT, TraitsT>::begin() const
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
-    // Push the root node.
+    // Push the root node, which holds the value of the empty key if any.
     key_type buf;
     const_node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    const_iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -694,19 +690,15 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, TraitsT>::begin()
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
-    // Push the root node.
+    // Push the root node, which holds the value of the empty key if any.
     key_type buf;
     node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -1445,35 +1437,13 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::const_iterator packed_trie_map<
 {
     node_stack_type node_stack = get_root_stack();
 
-    const stack_item* si = &node_stack.back();
-    if (si->child_pos == si->child_end)
+    if (m_value_store.empty())
         // empty container.
         return const_iterator(&m_value_store, std::move(node_stack), key_type());
 
-    const auto* node_pos = si->node_pos;
-    const auto* child_pos = si->child_pos;
-    const auto* child_end = si->child_end;
-    const auto* p = child_pos;
-
-    // Follow the root node's left-most child.
+    // The root node holds the value of the empty key if any.
     key_type buf;
-    key_unit_type c = *p;
-    buf.push_back(c);
-    ++p;
-    size_type offset = *p;
-
-    node_pos -= offset; // jump to the child node.
-    p = node_pos;
-    ++p;
-    size_type index_size = *p;
-    ++p;
-    child_pos = p;
-    child_end = child_pos + index_size;
-
-    // Push this child node onto the stack.
-    node_stack.emplace_back(&m_value_store, node_pos, child_pos, child_end);
-
-    pack_value_type pos = *node_pos;
+    pack_value_type pos = *node_stack.back().node_pos;
     while (pos == null_value)
     {
         // Keep following the left child node until we reach a node with value.
-- 
2.43.0


From 2c644e20cec803f3953b2786ecf5f0bebfe0713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 13/48] fix: trie_map::prefix_search() with an empty prefix on
 an empty container delivered results to walk into

---
 include/mdds/trie_map_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index b21071c..e9d40a1 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -983,6 +983,10 @@ typename trie_map<KeyT, ValueT, TraitsT>::search_results trie_map<KeyT, ValueT,
     const key_unit_type* p = prefix.data();
     const key_unit_type* p_end = p + prefix.size();
     const trie_node* node = find_prefix_node(m_root, p, p_end);
+    if (node && !node->has_value && node->children.empty())
+        // The root node of an empty container.
+        node = nullptr;
+
     return search_results(node, key_type(prefix.data(), prefix.size()));
 }
 
-- 
2.43.0


From fef500817b700e97f25cf8eee61e58f2a2d7ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 14/48] fix: stepping back through trie_map and packed_trie_map
 skipped or repeated entries around nested keys

---
 include/mdds/trie_map_itr.hpp | 120 +++++++++-------------------------
 1 file changed, 32 insertions(+), 88 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index b87bc4f..f43a86c 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -227,25 +227,24 @@ public:
     {
         trie_node_type* cur_node = m_node_stack.back().node;
 
-        if (m_type == iterator_type::end && cur_node->has_value)
-        {
-            assert(m_node_stack.size() == 1);
-            m_type = iterator_type::normal;
-        }
-        else if (m_node_stack.size() == 1)
+        if (m_type == iterator_type::end)
         {
             // This is the end position aka root node.  Move down to the
-            // right-most leaf node.
-            auto& si = m_node_stack.back();
-            assert(si.child_pos == cur_node->children.end());
-            cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
+            // right-most leaf node, or stay if the root is the only node.
+            assert(m_node_stack.size() == 1);
+            assert(m_node_stack.back().child_pos == cur_node->children.end());
+
+            if (!cur_node->children.empty())
+                cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
+
             m_type = iterator_type::normal;
         }
-        else if (cur_node->children.empty())
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // Keep going up until it finds either a parent node with
+            // unvisited child nodes on the left side, in which case descend
+            // on that path all the way to its leaf, or a parent node with
+            // value whose child nodes have all been visited.
 
             do
             {
@@ -264,30 +263,6 @@ public:
                 }
             } while (!cur_node->has_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(cur_node->has_value);
-            assert(m_node_stack.back().child_pos == cur_node->children.begin());
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                auto& si = m_node_stack.back();
-                cur_node = si.node;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.  Left and down.
-                    cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
-                    assert(cur_node->has_value);
-                }
-            } while (!cur_node->has_value);
-        }
 
         assert(cur_node->has_value);
         m_current_key = m_buffer;
@@ -646,76 +621,45 @@ public:
     {
         stack_item* si = &m_node_stack.back();
         pack_value_type v = *si->node_pos;
-        size_t index_size = *(si->node_pos + 1); // index size for child nodes.
 
-        if (m_type == iterator_type::end && v != trie_type::null_value)
-        {
-            assert(m_node_stack.size() == 1);
-            m_type = iterator_type::normal;
-        }
-        else if (m_node_stack.size() == 1)
+        if (m_type == iterator_type::end)
         {
             // This is the end position aka root node.  Move down to the
-            // right-most leaf node.
+            // right-most leaf node, or stay if the root is the only node.
+            assert(m_node_stack.size() == 1);
             assert(si->child_pos == si->child_end);
-            descend_to_previous_leaf_node(m_node_stack, m_buffer);
-            si = &m_node_stack.back();
-            v = *si->node_pos;
-            m_type = iterator_type::normal;
-        }
-        else if (!index_size)
-        {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
 
-            do
+            const size_t index_size = *(si->node_pos + 1); // index size for child nodes.
+            if (index_size)
             {
-                // Go up one node.
-
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                si = &m_node_stack.back();
-                const auto* p = si->node_pos;
-                v = *p;
-                ++p;
-                index_size = *p;
-                ++p;
-                const auto* first_child = p;
+                descend_to_previous_leaf_node(m_node_stack, m_buffer);
+                v = *m_node_stack.back().node_pos;
+            }
 
-                if (si->child_pos != first_child)
-                {
-                    // Left and down.
-                    descend_to_previous_leaf_node(m_node_stack, m_buffer);
-                    si = &m_node_stack.back();
-                    p = si->node_pos;
-                    v = *p;
-                    assert(v != trie_type::null_value);
-                }
-            } while (v == trie_type::null_value);
+            m_type = iterator_type::normal;
         }
         else
         {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(*si->node_pos); // this node should have a value.
-            assert(si->child_pos == (si->node_pos + 2));
+            // Keep going up until it finds either a parent node with
+            // unvisited child nodes on the left side, in which case descend
+            // on that path all the way to its leaf, or a parent node with
+            // value whose child nodes have all been visited.
 
             do
             {
-                // Go up.
+                // Go up one node.
+
                 m_buffer.pop_back();
                 m_node_stack.pop_back();
                 si = &m_node_stack.back();
                 v = *si->node_pos;
+                const auto* first_child = si->node_pos + 2;
 
-                if (m_node_stack.size() == 1)
+                if (si->child_pos != first_child)
                 {
-                    // Root node reached.
+                    // Left and down.
                     descend_to_previous_leaf_node(m_node_stack, m_buffer);
-                    si = &m_node_stack.back();
-                    v = *si->node_pos;
+                    v = *m_node_stack.back().node_pos;
                     assert(v != trie_type::null_value);
                 }
             } while (v == trie_type::null_value);
-- 
2.43.0


From 054ab34119f3802a881db17f36634dd2c72cebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 15/48] fix: packed_trie_map built from entries lost keys with
 zero-valued key units

---
 include/mdds/trie_map_def.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index e9d40a1..f7fc22a 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1042,7 +1042,7 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         ++range_count;
         key_unit_type c = p->key[pos];
 
-        if (!range_char)
+        if (range_count == 1)
             range_char = c;
         else if (range_char != c)
         {
@@ -1061,7 +1061,6 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
 
     if (range_count)
     {
-        assert(range_char);
         node_pool.emplace_back(range_char);
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
-- 
2.43.0


From 5cd6e232ffa97c7028191abc95df0c97e8181051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 16/48] fix: copied or moved search results of packed_trie_map
 lost the value store

---
 include/mdds/trie_map_itr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index f43a86c..9eec5a5 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -718,6 +718,7 @@ class packed_search_results
 
     void swap(packed_search_results& other)
     {
+        std::swap(m_value_store, other.m_value_store);
         std::swap(m_node, other.m_node);
         std::swap(m_buffer, other.m_buffer);
     }
@@ -728,10 +729,12 @@ public:
     packed_search_results() : m_node(nullptr)
     {}
 
-    packed_search_results(const packed_search_results& other) : m_node(other.m_node), m_buffer(other.m_buffer)
+    packed_search_results(const packed_search_results& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(other.m_buffer)
     {}
 
-    packed_search_results(packed_search_results&& other) : m_node(other.m_node), m_buffer(std::move(other.m_buffer))
+    packed_search_results(packed_search_results&& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(std::move(other.m_buffer))
     {
         other.m_node = nullptr;
     }
-- 
2.43.0


From 1bff35c251ab219a815889254b230a1bbb218cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 17/48] fix: the root of a default-constructed or moved-from
 packed_trie_map referred to a value that does not exist

---
 include/mdds/trie_map_def.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index f7fc22a..4610cf1 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1298,6 +1298,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map() : m_packed(3, 0u)
 
     // root offset (0), root value (1), and root child count (2).
     m_packed[0] = 1;
+    m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1394,6 +1395,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
     // Even the empty structure needs to have the root offset and the empty root record.
     other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
     other.m_packed[0] = 1;
+    other.m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 4fe13670d317fb2eb0990de933f8efab1b4d8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 18/48] fix: packed_trie_map did not find keys with characters
 above 0x7F when built from sorted entries

---
 include/mdds/trie_map.hpp     | 18 +++++++++++++++++-
 include/mdds/trie_map_def.inl |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map.hpp b/include/mdds/trie_map.hpp
index 0c6abb6..669d547 100644
--- a/include/mdds/trie_map.hpp
+++ b/include/mdds/trie_map.hpp
@@ -60,6 +60,22 @@ struct key_view<T>
 template<typename T>
 using key_view_t = typename key_view<T>::type;
 
+/**
+ * Order of key units.  Characters are ordered as in std::basic_string, so that
+ * the keys are ordered the same way whichever means they are provided by.
+ */
+template<typename T>
+struct key_unit_less
+{
+    constexpr bool operator()(const T& left, const T& right) const
+    {
+        if constexpr (character_unit<T>)
+            return std::char_traits<T>::lt(left, right);
+        else
+            return left < right;
+    }
+};
+
 } // namespace detail
 
 /** Serializer for numeric data types. */
@@ -194,7 +210,7 @@ public:
 private:
     struct trie_node
     {
-        typedef std::map<key_unit_type, trie_node> children_type;
+        typedef std::map<key_unit_type, trie_node, trie::detail::key_unit_less<key_unit_type>> children_type;
 
         children_type children;
         value_type value;
diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 4610cf1..b2e22d3 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -249,7 +249,7 @@ const PackValueT* find_child_pos(const PackValueT* first_child, SizeT n_child_no
                 high = low;
             }
         }
-        else if (c < node_key)
+        else if (key_unit_less<key_unit_type>{}(c, node_key))
             // Move on to the lower sub-group.
             high = i;
         else
-- 
2.43.0


From 1cc08382d157407eb0f388e958cd401473e6cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 19/48] fix: packed_trie_map::load_state() of a truncated
 stream hung or loaded garbage, and a rejected stream replaced the stored
 values

---
 include/mdds/trie_map_def.inl | 51 +++++++++++++++--------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index b2e22d3..ec8b70b 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -316,6 +316,14 @@ inline const char* value_type_size_name(bool variable_size)
     return variable_size ? "varaible size" : "fixed size";
 }
 
+/** Read the specified number of bytes, and throw if the stream doesn't have enough. */
+inline void read_bytes(std::istream& is, char* p, size_t n)
+{
+    is.read(p, n);
+    if (static_cast<size_t>(is.gcount()) != n)
+        throw std::invalid_argument("unexpected end of stream.");
+}
+
 union bin_value
 {
     char buffer[8];
@@ -413,7 +421,7 @@ struct read_fixed_size_values_from_istream
         bin_value bv;
 
         // read the size of the value.
-        is.read(bv.buffer, 4);
+        read_bytes(is, bv.buffer, 4);
         size_t size = bv.ui32;
 
         if (size != FuncT::value_size)
@@ -445,7 +453,7 @@ struct read_variable_size_values_from_istream
 
         for (uint32_t i = 0; i < value_count; ++i)
         {
-            is.read(bv.buffer, 4);
+            read_bytes(is, bv.buffer, 4);
             size_t size = bv.ui32;
 
             ValueT v;
@@ -492,6 +500,7 @@ void numeric_value_serializer<T>::read(std::istream& is, size_t n, T& v)
 
     constexpr size_t s = sizeof(T);
     assert(s == n);
+    (void)n;
 
     union
     {
@@ -500,16 +509,7 @@ void numeric_value_serializer<T>::read(std::istream& is, size_t n, T& v)
 
     } buf;
 
-    char* p = buf.buffer;
-
-    while (n)
-    {
-        is.read(p, s);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
-
+    detail::read_bytes(is, buf.buffer, s);
     v = buf.v;
 }
 
@@ -553,15 +553,7 @@ template<>
 inline void variable_value_serializer<std::string>::read(std::istream& is, size_t n, std::string& v)
 {
     v.resize(n);
-    char* p = const_cast<char*>(v.data());
-
-    while (n)
-    {
-        is.read(p, n);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    detail::read_bytes(is, v.data(), n);
 }
 
 } // namespace trie
@@ -1682,7 +1674,7 @@ template<typename FuncT>
 void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 {
     trie::detail::bin_value bv;
-    is.read(bv.buffer, 2);
+    trie::detail::read_bytes(is, bv.buffer, 2);
 
     uint16_t flags = bv.ui16;
     bool variable_size = (flags & 0x0001) != 0;
@@ -1696,27 +1688,27 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
     }
 
     // read the number of values
-    is.read(bv.buffer, 4);
+    trie::detail::read_bytes(is, bv.buffer, 4);
     uint32_t value_count = bv.ui32;
 
     using value_size_type = std::bool_constant<FuncT::variable_size>;
     trie::detail::read_values_from_istream<FuncT, value_type, value_size_type> func;
-    m_value_store = func(is, value_count);
+    value_store_type value_store = func(is, value_count);
 
     // There should be a check byte of 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the value section.");
 
     // Size of pack_value_type
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     size_type pvt_size = bv.ui8;
 
     if (pvt_size != sizeof(pack_value_type))
         throw std::invalid_argument("size of pack_value_type is different.");
 
     // Size of the packed blob.
-    is.read(bv.buffer, 8);
+    trie::detail::read_bytes(is, bv.buffer, 8);
 
     size_t n = bv.ui64;
     packed_type packed;
@@ -1724,16 +1716,17 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 
     for (size_t i = 0; i < n; ++i)
     {
-        is.read(bv.buffer, pvt_size);
+        trie::detail::read_bytes(is, bv.buffer, pvt_size);
         const auto* p = reinterpret_cast<const pack_value_type*>(bv.buffer);
         packed.push_back(*p);
     }
 
     // the last byte must be 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the packed blob section.");
 
+    m_value_store.swap(value_store);
     m_packed.swap(packed);
 
     struct _handler
-- 
2.43.0


From 4c95eaef1021b6d428361939adc79be0a990b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 20/48] fix: prefix_search() of trie maps keyed by sequences
 other than strings did not compile

---
 include/mdds/trie_map_def.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index ec8b70b..d32f464 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -979,7 +979,11 @@ typename trie_map<KeyT, ValueT, TraitsT>::search_results trie_map<KeyT, ValueT,
         // The root node of an empty container.
         node = nullptr;
 
-    return search_results(node, key_type(prefix.data(), prefix.size()));
+    key_type buf;
+    for (key_unit_type c : prefix)
+        buf.push_back(c);
+
+    return search_results(node, std::move(buf));
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1551,7 +1555,11 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::search_results packed_trie_map<
     const auto* node = trie::detail::find_prefix_node<pack_value_type, key_unit_type, size_type>(
         root, p, prefix_end, [](const pack_value_type*, const pack_value_type*, const pack_value_type*) noexcept {});
 
-    return search_results(&m_value_store, node, key_type(prefix.data(), prefix.size()));
+    key_type buf;
+    for (key_unit_type c : prefix)
+        buf.push_back(c);
+
+    return search_results(&m_value_store, node, std::move(buf));
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From f876d340b486c54e6566b2ba773aab1b66e46921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 21/48] fix: packed_trie_map::load_state() took a sequence
 whose size is not a multiple of its element size

---
 include/mdds/trie_map_def.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index d32f464..f1ccf41 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -531,7 +531,8 @@ void numeric_sequence_value_serializer<T>::read(std::istream& is, size_t n, T& v
         std::is_arithmetic<typename T::value_type>::value, "value type of this vector is not a numeric type.");
 
     constexpr size_t elem_size = element_serializer::value_size;
-    assert(n % elem_size == 0);
+    if (n % elem_size)
+        throw std::invalid_argument("size of a sequence is not a multiple of the size of its element.");
 
     size_t elem_count = n / elem_size;
 
-- 
2.43.0


From 2d293a3d7db17884644108ef5d6ccb9f7f8ba12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 22/48] fix: emplace_back() of a pointer to a managed element
 appended a boolean to the managed block

MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR did not define the emplace callback, so
the pointer converted to bool and the callback of the boolean block ran on the
managed block.
---
 include/mdds/multi_type_vector/macro.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/macro.hpp b/include/mdds/multi_type_vector/macro.hpp
index 5ee060d..317059e 100644
--- a/include/mdds/multi_type_vector/macro.hpp
+++ b/include/mdds/multi_type_vector/macro.hpp
@@ -146,6 +146,12 @@
     { \
         block_type::append_value(block, val); \
     } \
+\
+    template<typename... Args> \
+    inline void mdds_mtv_emplace_back_value(mdds::mtv::base_element_block& block, const type*, Args&&... args) \
+    { \
+        block_type::emplace_back_value(block, std::forward<Args>(args)...); \
+    } \
 \
     inline void mdds_mtv_prepend_value(mdds::mtv::base_element_block& block, type* val) \
     { \
-- 
2.43.0


From 1c8354f96b22382954021380a31517ac6a057f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 23/48] fix: calls with a position hint on an empty
 multi_type_vector read past its blocks

---
 include/mdds/multi_type_vector/aos/main_def.inl | 4 ++++
 include/mdds/multi_type_vector/soa/main_def.inl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e3744c5..5147d3c 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -919,6 +919,10 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_blocks.empty())
+        // There is no block to look up.
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_blocks.size())
         block_index = pos_data.block_index;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e10fd73..699d42d 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4231,6 +4231,10 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_block_store.positions.empty())
+        // There is no block to look up.
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_block_store.positions.size())
         block_index = pos_data.block_index;
-- 
2.43.0


From 9f8a0fd4e3a88fe0aacf4baa4426a495df9a6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 24/48] fix: multi_type_vector::set() of a range up to the end
 of a block left two adjacent blocks of the same type

When the range begins in a block of the type being set and ends at the end of
another block, the block that follows was not merged even if of that type.
---
 include/mdds/multi_type_vector/aos/main_def.inl | 15 +++++++++++++++
 include/mdds/multi_type_vector/soa/main_def.inl | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 5147d3c..0acb906 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4072,6 +4072,21 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         {
             // Data overlaps the entire block 2. Erase it.
             ++it_erase_end;
+
+            if (block_index2 + 1 < m_blocks.size())
+            {
+                block* blk3 = &m_blocks[block_index2 + 1];
+                if (blk3->data && mdds::mtv::get_block_type(*blk3->data) == cat)
+                {
+                    // The block after block 2 is of the same type as block 1.
+                    // Merge it and erase it.  Resize it to zero to prevent
+                    // its elements from being deleted on block deletion.
+                    block_funcs::append_block(*blk1->data, *blk3->data);
+                    block_funcs::resize_block(*blk3->data, 0);
+                    blk1->size += blk3->size;
+                    ++it_erase_end;
+                }
+            }
         }
         else if (blk2->data)
         {
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 699d42d..2c71586 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3229,6 +3229,21 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         {
             // Data overlaps the entire block 2. Erase it.
             ++index_erase_end;
+
+            if (block_index2 + 1 < m_block_store.positions.size())
+            {
+                base_element_block* blk3_data = m_block_store.element_blocks[block_index2 + 1];
+                if (blk3_data && mdds::mtv::get_block_type(*blk3_data) == cat)
+                {
+                    // The block after block 2 is of the same type as block 1.
+                    // Merge it and erase it.  Resize it to zero to prevent
+                    // its elements from being deleted on block deletion.
+                    block_funcs::append_block(*blk1_data, *blk3_data);
+                    block_funcs::resize_block(*blk3_data, 0);
+                    m_block_store.sizes[block_index1] += m_block_store.sizes[block_index2 + 1];
+                    ++index_erase_end;
+                }
+            }
         }
         else if (blk2_data)
         {
-- 
2.43.0


From efde923995b66b74bd602535edc570a2005dfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 25/48] fix: multi_type_vector::set() of a range leaked the
 managed elements it overwrote at the top of its last block

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 0acb906..3ea92c4 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4109,6 +4109,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2->data, 0, size_to_erase);
                 block_funcs::erase(*blk2->data, 0, size_to_erase);
                 blk2->size -= size_to_erase;
                 blk2->position += size_to_erase;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 2c71586..2710eb3 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3267,6 +3267,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2_data, 0, size_to_erase);
                 block_funcs::erase(*blk2_data, 0, size_to_erase);
                 m_block_store.sizes[block_index2] -= size_to_erase;
                 m_block_store.positions[block_index2] += size_to_erase;
-- 
2.43.0


From c01ae2d7fb02f9ab9e0ed63d889c0fc03419d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 26/48] fix: soa::multi_type_vector::insert() at the top of a
 block announced the wrong block as acquired

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 2710eb3..6baabfa 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2123,8 +2123,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert_c
         // Just insert a new block before the current block.
         m_block_store.insert(block_index, m_block_store.positions[block_index], length, nullptr);
         m_block_store.element_blocks[block_index] = block_funcs::create_new_block(cat, 0);
-        m_hdl_event.element_block_acquired(blk_data);
         blk_data = m_block_store.element_blocks[block_index];
+        m_hdl_event.element_block_acquired(blk_data);
         mdds_mtv_assign_values(*blk_data, *it_begin, it_begin, it_end);
         m_block_store.sizes[block_index] = length;
         m_cur_size += length;
-- 
2.43.0


From 7d4fcc0a69d3413681e93a53ab2118d41b77643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 27/48] fix: multi_type_vector::resize() to a smaller size
 deleted managed elements at the position in the container

The position passed to overwrite_values() is relative to the block, so when the
block being shrunk is not the first one, elements outside of the block were
deleted and those cut off leaked.
---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 3ea92c4..870be5f 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4380,7 +4380,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (blk->data)
         {
-            block_funcs::overwrite_values(*blk->data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*blk->data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*blk->data, new_block_size);
         }
         blk->size = new_block_size;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 6baabfa..09e6139 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -5145,7 +5145,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (data)
         {
-            block_funcs::overwrite_values(*data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*data, new_block_size);
         }
         m_block_store.sizes[block_index] = new_block_size;
-- 
2.43.0


From 63cd6c214eb5ec74909baf7ede4426c9c6d38aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 28/48] fix: copying a managed element block leaked the
 elements copied so far when a later copy threw

---
 include/mdds/multi_type_vector/types.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/types.hpp b/include/mdds/multi_type_vector/types.hpp
index 21b4489..b7711cd 100644
--- a/include/mdds/multi_type_vector/types.hpp
+++ b/include/mdds/multi_type_vector/types.hpp
@@ -827,11 +827,17 @@ struct managed_element_block
     {}
     managed_element_block(size_t n) : base_type(n)
     {}
-    managed_element_block(const managed_element_block& r) : base_type()
+    managed_element_block(const managed_element_block& r) : managed_element_block()
     {
+        // NB: the delegation lets the destructor delete the elements copied so
+        // far in case copying an element throws.
         detail::reserve(m_array, r.m_array.size());
         for (const auto& v : r.m_array)
-            m_array.push_back(new ValueT(*v));
+        {
+            auto p = std::make_unique<ValueT>(*v);
+            m_array.push_back(p.get());
+            p.release();
+        }
     }
 
     template<typename Iter>
-- 
2.43.0


From 41a29f05e2a5c1623ebc99a7fd21306b37598510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 29/48] fix: aos::multi_type_vector leaked the blocks copied so
 far when copying a later block threw

---
 .../mdds/multi_type_vector/aos/main_def.inl   | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 870be5f..b8d09fa 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -308,13 +308,31 @@ template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
     : m_hdl_event(other.m_hdl_event), m_blocks(other.m_blocks), m_cur_size(other.m_cur_size)
 {
-    // Copy all element blocks.
-    for (auto& blk : m_blocks)
+    // Copy all element blocks into a temporary store, committing them only
+    // once every copy succeeds, so that a copy throwing mid-way doesn't leak
+    // the blocks copied so far.
+    std::vector<base_element_block*> owned(m_blocks.size(), nullptr);
+
+    try
     {
-        if (blk.data)
+        for (std::size_t i = 0; i < m_blocks.size(); ++i)
+            if (m_blocks[i].data)
+                owned[i] = block_funcs::copy_block(*m_blocks[i].data);
+    }
+    catch (...)
+    {
+        for (const base_element_block* p : owned)
+            if (p)
+                block_funcs::delete_block(p);
+        throw;
+    }
+
+    for (std::size_t i = 0; i < m_blocks.size(); ++i)
+    {
+        if (owned[i])
         {
-            blk.data = block_funcs::copy_block(*blk.data);
-            m_hdl_event.element_block_acquired(blk.data);
+            m_blocks[i].data = owned[i];
+            m_hdl_event.element_block_acquired(owned[i]);
         }
     }
 
-- 
2.43.0


From c9dad6cf376dacc6882d5c4022b8c7d9d491cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 30/48] fix: aos::multi_type_vector::transfer() with a position
 hint corrupted a container transferring to itself

The variant without a hint, and both variants of the soa container, reject it.
---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index b8d09fa..25f44fa 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -1836,6 +1836,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::transfer(
     const iterator& pos_hint, size_type start_pos, size_type end_pos, multi_type_vector& dest, size_type dest_pos)
 {
+    if (&dest == this)
+        throw invalid_arg_error("You cannot transfer between the same container.");
+
     size_type block_index1 = get_block_position(pos_hint->__private_data, start_pos);
     if (block_index1 == m_blocks.size())
         mdds::mtv::detail::throw_block_position_not_found(
-- 
2.43.0


From 51fb170e1ca37e5ad2bd4eeb8c632296702dc352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 31/48] fix: soa::multi_type_vector with copy-on-write leaked
 its blocks when sharing them ran out of memory

---
 include/mdds/multi_type_vector/soa/main_def.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 09e6139..870eb23 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -559,8 +559,11 @@ void multi_type_vector<Traits>::share() const
 
         // Transfer ownership of the blocks from the parent store to a shared
         // COW store.
-        m_cow_store = std::make_shared<shared_element_blocks>();
-        m_cow_store->blocks = m_block_store.element_blocks;
+        // NB: the holder must not own any blocks until it holds all of them.
+        auto blocks = m_block_store.element_blocks;
+        auto holder = std::make_shared<shared_element_blocks>();
+        holder->blocks.swap(blocks);
+        m_cow_store = std::move(holder);
     }
 }
 
-- 
2.43.0


From 24eddc26654fa5eeb91d2ae5d74135438440be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 32/48] fix: mtv::collection accepted element and collection
 ranges whose start plus size wraps around

---
 include/mdds/multi_type_vector/collection_def.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index be9876d..e12b907 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -194,7 +194,7 @@ void collection<MtvT>::check_collection_range(size_type start, size_type size) c
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_vectors.size())
+    if (size > m_vectors.size() - start)
         throw invalid_arg_error("size is too large.");
 }
 
@@ -211,7 +211,7 @@ void collection<MtvT>::check_element_range(size_type start, size_type size) cons
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_mtv_size)
+    if (size > m_mtv_size - start)
         throw invalid_arg_error("size is too large.");
 }
 
-- 
2.43.0


From 44a9b27431a3b32674df069c261879310f84fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 33/48] fix: multi_type_vector::swap() of a range deleted
 managed elements of a block merged away behind it

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 ++
 include/mdds/multi_type_vector/soa/main_def.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 25f44fa..433b2dc 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3530,6 +3530,8 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                 {
                     // Apend elements from the next block too.
                     block_funcs::append_block(*blk_prev->data, *blk_next->data);
+                    // The managed elements are now owned by the previous block.
+                    block_funcs::resize_block(*blk_next->data, 0);
                     blk_prev->size += blk_next->size;
                     ++it_end;
                     delete_element_block(*blk_next);
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 870eb23..b245ac1 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4870,6 +4870,8 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                     // Apend elements from the next block too.
                     base_element_block* dst_next_data = m_block_store.element_blocks[dst_index + 1];
                     block_funcs::append_block(*dst_prev_data, *dst_next_data);
+                    // The managed elements are now owned by the previous block.
+                    block_funcs::resize_block(*dst_next_data, 0);
                     m_block_store.sizes[dst_index - 1] += m_block_store.sizes[dst_index + 1];
                     ++dst_erase_size;
                     delete_element_block(dst_index + 1);
-- 
2.43.0


From 7018fe3981739c1cba49369305bdbea34594b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 34/48] fix: multi_type_matrix: transpose(), resize() and
 copy() rejected matrices holding integer elements

---
 include/mdds/multi_type_matrix_def.inl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 75cedb3..422caae 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -409,6 +409,13 @@ multi_type_matrix<Traits>& multi_type_matrix<Traits>::transpose()
                     tmp.set(old_col_new_row, old_row_new_col, val);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    integer_type val;
+                    m_store.get(get_pos(old_row_new_col, old_col_new_row), val);
+                    tmp.set(old_col_new_row, old_row_new_col, val);
+                }
+                break;
                 case mtm::element_empty:
                     break;
                 default:
@@ -482,6 +489,14 @@ void multi_type_matrix<Traits>::copy(const multi_type_matrix& src)
                     blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    auto it = src_node.template begin<integer_block_type>();
+                    auto ite = src_node.template end<integer_block_type>();
+
+                    blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
+                }
+                break;
                 case mtm::element_empty:
                 {
                     size_type end = logical_pos_dest + section_size - 1;
-- 
2.43.0


From 40cc7d2bf7aa2b7e9566e608ef0bcf2b8c051634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 35/48] fix: multi_type_matrix::walk() accepted an end position
 one past the last row or column

---
 include/mdds/multi_type_matrix_def.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 422caae..be40ae8 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -659,7 +659,7 @@ FuncT multi_type_matrix<Traits>::walk(FuncT func, const size_pair_type& start, c
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column)
+    if (end.row >= m_size.row || end.column >= m_size.column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
@@ -743,8 +743,8 @@ FuncT multi_type_matrix<Traits>::walk(
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column || end.row > right.size().row ||
-        end.column > right.size().column)
+    if (end.row >= m_size.row || end.column >= m_size.column || end.row >= right.size().row ||
+        end.column >= right.size().column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
-- 
2.43.0


From 818cfd3980b08661c27fc29748a8f4956f70958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 36/48] fix: multi_type_matrix::get() read the element as a
 value of the wrong type instead of throwing

---
 include/mdds/multi_type_matrix_def.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index be40ae8..8ec2759 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -235,7 +235,12 @@ template<typename _T>
 _T multi_type_matrix<Traits>::get(size_type row, size_type col) const
 {
     _T val;
-    m_store.get(get_pos(row, col), val);
+    size_type pos = get_pos(row, col);
+    mtv::element_t type = m_store.get_type(pos);
+    if (type != mtv::element_type_empty && type != store_type::get_element_type(val))
+        throw type_error("multi_type_matrix: element is not of the specified type.");
+
+    m_store.get(pos, val);
     return val;
 }
 
-- 
2.43.0


From e2d8e62b2f67a00307da234f9e5a352ba4e68636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 37/48] fix: multi_type_matrix::get_integer() lost the low bits
 of large 64-bit integer elements

---
 include/mdds/multi_type_matrix_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 8ec2759..cf10a4a 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -198,6 +198,10 @@ template<typename Traits>
 typename multi_type_matrix<Traits>::integer_type multi_type_matrix<Traits>::get_integer(
     const const_position_type& pos) const
 {
+    if (pos.first->type == integer_block_type::block_type)
+        // Going through a double may not preserve the value.
+        return integer_block_type::at(*pos.first->data, pos.second);
+
     return static_cast<integer_type>(get_numeric(pos));
 }
 
-- 
2.43.0


From 4762c8eb733fcae1ddbe64d2033740a895e4b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 38/48] fix: rtree kept pointers to the root node as the parent
 of the nodes moved below a new root when the root was split

---
 include/mdds/rtree_def.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b642e63..7a1de45 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -2240,8 +2240,10 @@ void rtree<KeyT, ValueT, Traits>::split_node(node_store* ns)
         m_root.count = 2;
         m_root.pack();
 
+        // Both child nodes have new memory locations. The first one may still
+        // carry a valid pointer flag from when it was the root.
         for (node_store& ns_child : dir_root->children)
-            ns_child.reset_parent_pointers_of_children();
+            ns_child.reset_parent_pointers();
     }
     else
     {
-- 
2.43.0


From 5e1681ac4ab3c1336ac19e2463b44608dd14bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 39/48] fix: rtree::erase() left stale parent pointers below
 the siblings of a dissolved directory

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 7a1de45..ff3f032 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1634,7 +1634,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
-        dir_ns->reset_parent_pointers_of_children();
+        dir_ns->reset_parent_pointers();
         dir_ns->pack();
     }
 
-- 
2.43.0


From fe29da008afd9ed2ae5ff1363ec18ddb4c6def2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 40/48] fix: rtree::erase() did not shrink the extents of the
 ancestors of a dissolved directory

---
 include/mdds/rtree_def.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index ff3f032..7c044dd 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1610,7 +1610,8 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     assert(erased);
 
     dir_ns->reset_parent_pointers();
-    dir_ns->pack();
+    if (dir_ns->pack())
+        dir_ns->pack_upward();
 
     orphan_node_entries_type orphan_dir_nodes;
 
@@ -1635,7 +1636,8 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
         dir_ns->reset_parent_pointers();
-        dir_ns->pack();
+        if (dir_ns->pack())
+            dir_ns->pack_upward();
     }
 
     while (!orphan_dir_nodes.empty())
-- 
2.43.0


From 5031ce05b0f3469e46dacd5102dd91b4d8c9ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 41/48] fix: rtree never split a non-leaf directory that a
 reinserted directory made exceed the maximum node size

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 7c044dd..2aaa4b3 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -683,7 +683,7 @@ bool rtree<KeyT, ValueT, Traits>::node_store::is_root() const
 template<typename KeyT, typename ValueT, typename Traits>
 bool rtree<KeyT, ValueT, Traits>::node_store::exceeds_capacity() const
 {
-    if (type != node_type::directory_leaf)
+    if (!is_directory())
         return false;
 
     return count > traits_type::max_node_size;
-- 
2.43.0


From 2e02fc214070e55f47a8cfe2860b2a12232f0322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 42/48] fix: rtree::erase() reinserted the directories of a
 dissolved directory one level too deep

---
 include/mdds/rtree.hpp     | 18 ++++++++--------
 include/mdds/rtree_def.inl | 42 +++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/include/mdds/rtree.hpp b/include/mdds/rtree.hpp
index 6781425..64c36f8 100644
--- a/include/mdds/rtree.hpp
+++ b/include/mdds/rtree.hpp
@@ -269,6 +269,12 @@ private:
         bool is_root() const;
         bool exceeds_capacity() const;
 
+        /**
+         * @return number of directory levels in the sub-tree of this node, or
+         *         0 if this node is not a directory.
+         */
+        size_t get_height() const;
+
         void swap(node_store& other);
 
         /**
@@ -367,14 +373,6 @@ private:
         bool has_leaf_directory() const;
     };
 
-    struct orphan_node_entry
-    {
-        node_store ns;
-        size_t depth;
-    };
-
-    using orphan_node_entries_type = std::deque<orphan_node_entry>;
-
     struct insertion_point
     {
         node_store* ns;
@@ -737,7 +735,7 @@ private:
     void insert_impl(const point_type& start, const point_type& end, value_type&& value);
     void insert_impl(const point_type& start, const point_type& end, const value_type& value);
 
-    void erase_impl(const node_store* ns, size_t depth);
+    void erase_impl(const node_store* ns);
 
     /**
      * Build and return a callable function object that you can call in order
@@ -751,7 +749,7 @@ private:
     std::string export_tree_extent_as_svg() const;
 
     void insert(node_store&& ns, std::unordered_set<size_t>* reinserted_depths);
-    void insert_dir(node_store&& ns, size_t max_depth);
+    void insert_dir(node_store&& ns);
 
     /**
      * Split an overfilled node.  The node to split is expected to have
diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 2aaa4b3..15d9531 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -689,6 +689,23 @@ bool rtree<KeyT, ValueT, Traits>::node_store::exceeds_capacity() const
     return count > traits_type::max_node_size;
 }
 
+template<typename KeyT, typename ValueT, typename Traits>
+size_t rtree<KeyT, ValueT, Traits>::node_store::get_height() const
+{
+    size_t height = 0;
+
+    for (const node_store* p = this; p->is_directory(); ++height)
+    {
+        const directory_node* dir = p->get_directory_node();
+        if (dir->children.empty())
+            return height + 1;
+
+        p = &dir->children.front();
+    }
+
+    return height;
+}
+
 template<typename KeyT, typename ValueT, typename Traits>
 void rtree<KeyT, ValueT, Traits>::node_store::swap(node_store& other)
 {
@@ -1386,10 +1403,16 @@ void rtree<KeyT, ValueT, Traits>::insert(node_store&& ns, std::unordered_set<siz
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-void rtree<KeyT, ValueT, Traits>::insert_dir(node_store&& ns, size_t max_depth)
+void rtree<KeyT, ValueT, Traits>::insert_dir(node_store&& ns)
 {
     assert(ns.is_directory());
     extent_type ns_box = ns.extent;
+
+    // Pick the depth of the new parent such that all value nodes stay at the
+    // same depth.  Note that the tree may have grown since the directory was
+    // removed from it.
+    assert(m_root.get_height() > ns.get_height());
+    size_t max_depth = m_root.get_height() - ns.get_height() - 1;
     node_store* dir_ns = find_nonleaf_directory_node_for_insertion(ns_box, max_depth);
     assert(dir_ns);
     assert(dir_ns->type == node_type::directory_nonleaf);
@@ -1554,17 +1577,17 @@ typename rtree<KeyT, ValueT, Traits>::search_results rtree<KeyT, ValueT, Traits>
 template<typename KeyT, typename ValueT, typename Traits>
 void rtree<KeyT, ValueT, Traits>::erase(const_iterator pos)
 {
-    erase_impl(pos.m_pos->ns, pos.m_pos->depth);
+    erase_impl(pos.m_pos->ns);
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
 void rtree<KeyT, ValueT, Traits>::erase(iterator pos)
 {
-    erase_impl(pos.m_pos->ns, pos.m_pos->depth);
+    erase_impl(pos.m_pos->ns);
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
+void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns)
 {
     assert(ns->type == node_type::value);
     assert(ns->parent);
@@ -1573,7 +1596,6 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
 
     // Move up to the parent and find its stored location.
     node_store* dir_ns = ns->parent;
-    --depth;
     assert(dir_ns->type == node_type::directory_leaf);
     bool erased = dir_ns->erase_child(ns);
     assert(erased);
@@ -1605,7 +1627,6 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     // Move up one level, and remove this directory node from its parent directory node.
     node_store* child_ns = dir_ns;
     dir_ns = dir_ns->parent;
-    --depth;
     erased = dir_ns->erase_child(child_ns);
     assert(erased);
 
@@ -1613,7 +1634,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     if (dir_ns->pack())
         dir_ns->pack_upward();
 
-    orphan_node_entries_type orphan_dir_nodes;
+    dir_store_type orphan_dir_nodes;
 
     while (!dir_ns->is_root() && dir_ns->count < traits_type::min_node_size)
     {
@@ -1624,15 +1645,13 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         while (!dir->children.empty())
         {
             orphan_dir_nodes.emplace_back();
-            orphan_dir_nodes.back().ns.swap(dir->children.back());
-            orphan_dir_nodes.back().depth = depth + 1; // depth of the children.
+            orphan_dir_nodes.back().swap(dir->children.back());
             dir->children.pop_back();
         }
 
         // Find and remove this node from its parent store.
         node_store* dir_ns_child = dir_ns;
         dir_ns = dir_ns->parent;
-        --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
         dir_ns->reset_parent_pointers();
@@ -1642,8 +1661,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
 
     while (!orphan_dir_nodes.empty())
     {
-        orphan_node_entry& entry = orphan_dir_nodes.back();
-        insert_dir(std::move(entry.ns), entry.depth);
+        insert_dir(std::move(orphan_dir_nodes.back()));
         orphan_dir_nodes.pop_back();
     }
 
-- 
2.43.0


From 675136be0574b3b63cb595efbcb2e7e3f9b25020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 43/48] fix: rtree::erase() could leave a non-leaf root with
 one child, and then with none

---
 include/mdds/rtree_def.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 15d9531..ec9aaf5 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1671,10 +1671,11 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns)
         orphan_value_nodes.pop_back();
     }
 
-    if (m_root.count == 1)
+    while (m_root.type == node_type::directory_nonleaf && m_root.count == 1)
     {
         // If the root node only has one child, make that child the new root.
-        // Be careful not to leak memory here...
+        // Do so repeatedly as the new root may also have just one child.  Be
+        // careful not to leak memory here...
 
         dir = static_cast<directory_node*>(m_root.node_ptr);
         assert(dir->children.size() == 1);
-- 
2.43.0


From 7501acc4e2b8ec6e13fb919af2a6624dcc84df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 44/48] fix: rtree::check_integrity() rejected a root with two
 child nodes when the minimum node size is larger

---
 include/mdds/rtree.hpp     | 3 ++-
 include/mdds/rtree_def.inl | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mdds/rtree.hpp b/include/mdds/rtree.hpp
index 64c36f8..1a38814 100644
--- a/include/mdds/rtree.hpp
+++ b/include/mdds/rtree.hpp
@@ -28,7 +28,8 @@ struct default_rtree_traits
     /**
      * Minimum number of child nodes that must be present in each directory
      * node.  Exception is the root node, which is allowed to have less than
-     * the minimum number of nodes, but only when it's a leaf directory node.
+     * the minimum number of nodes; splitting the root node leaves the new root
+     * node with only two child nodes.
      */
     static constexpr size_t min_node_size = 40;
 
diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index ec9aaf5..438fb79 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1869,8 +1869,8 @@ void rtree<KeyT, ValueT, Traits>::check_integrity(const integrity_check_properti
                 }
 
                 bool node_underfill_allowed = false;
-                if (ns->is_root() && ns->type == node_type::directory_leaf)
-                    // If the root directory is a leaf, it's allowed to be underfilled.
+                if (ns->is_root())
+                    // The root directory is allowed to be underfilled.
                     node_underfill_allowed = true;
 
                 if (!node_underfill_allowed && ns->count < traits_type::min_node_size)
-- 
2.43.0


From 17d4886932a423d0f55ef00bfa04eece0da9d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 45/48] fix: rtree point_type left the coordinates not in the
 initializer list uninitialized

---
 include/mdds/rtree_def.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 438fb79..ef56212 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -380,9 +380,8 @@ rtree<KeyT, ValueT, Traits>::point_type::point_type()
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-rtree<KeyT, ValueT, Traits>::point_type::point_type(std::initializer_list<key_type> vs)
+rtree<KeyT, ValueT, Traits>::point_type::point_type(std::initializer_list<key_type> vs) : point_type()
 {
-    // Initialize the point values with the key type's default value.
     key_type* dst = d;
     key_type* dst_end = dst + traits_type::dimensions;
 
-- 
2.43.0


From 7d162e1a3877fd51b2ed6b6c32965b7759105e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 46/48] fix: rtree::bulk_loader::pack() never finished when it
 kept packing nodes with one child each

---
 include/mdds/rtree_def.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index ef56212..94f9c80 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1180,10 +1180,11 @@ void rtree<KeyT, ValueT, Traits>::bulk_loader::pack_level(dir_store_type& store,
                 return left_key < right_key;
             });
 
-            // Size of each segment in this dimension splits.
+            // Size of each segment in this dimension splits.  It must be at
+            // least 2, or else packing may not reduce the number of nodes.
             size_t segment_size = detail::rtree::calc_optimal_segment_size_for_pack(
-                std::ceil(seg.size / n_splits_per_dim), traits_type::min_node_size, traits_type::max_node_size,
-                seg.size);
+                std::max<size_t>(std::ceil(seg.size / n_splits_per_dim), 2), traits_type::min_node_size,
+                traits_type::max_node_size, seg.size);
 
             size_t n_cur_segment = 0;
             auto begin = seg.begin;
-- 
2.43.0


From 7943de5888d8e77bf091445f0908657ac0a36f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 47/48] fix: delayed_delete_vector kept the number of removed
 front elements when it was swapped or moved from

---
 .../delayed_delete_vector.hpp                  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 128397a..18506fb 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <algorithm>
 #include <type_traits>
+#include <utility>
 
 namespace mdds { namespace mtv {
 
@@ -49,6 +50,22 @@ public:
     delayed_delete_vector(InputIt first, InputIt last) : m_vec(first, last)
     {}
 
+    delayed_delete_vector(const delayed_delete_vector& other) = default;
+
+    delayed_delete_vector(delayed_delete_vector&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>)
+        : m_vec(std::move(other.m_vec)), m_front_offset(std::exchange(other.m_front_offset, 0))
+    {}
+
+    delayed_delete_vector& operator=(const delayed_delete_vector& other) = default;
+
+    delayed_delete_vector& operator=(delayed_delete_vector&& other) noexcept(
+        std::is_nothrow_move_constructible_v<store_type> && std::is_nothrow_swappable_v<store_type>)
+    {
+        delayed_delete_vector tmp(std::move(other));
+        swap(tmp);
+        return *this;
+    }
+
     iterator begin() noexcept
     {
         return m_vec.begin() + m_front_offset;
@@ -122,6 +139,7 @@ public:
     void swap(delayed_delete_vector& other) noexcept(std::is_nothrow_swappable_v<store_type>)
     {
         m_vec.swap(other.m_vec);
+        std::swap(m_front_offset, other.m_front_offset);
     }
 
     template<typename... Args>
-- 
2.43.0


From a4b2418904d3a9801431ca5ed028b5cff279cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 48/48] fix: soa: emplace_back() was not traced, and insert()
 was with its arguments run together

---
 include/mdds/multi_type_vector/soa/main_def.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index b245ac1..80a8bb2 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -1133,6 +1133,8 @@ template<typename Traits>
 template<typename T, typename... Args>
 typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::emplace_back(Args&&... args)
 {
+    MDDS_MTV_TRACE_ARGS(mutator, "args=? (count=" << sizeof...(args) << ")");
+
     detach_impl();
 
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
@@ -1168,7 +1170,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert(
     size_type pos, const T& it_begin, const T& it_end)
 {
     MDDS_MTV_TRACE_ARGS(
-        mutator, "pos=" << pos << "it_begin=?; it_end=? (length=" << std::distance(it_begin, it_end) << ")");
+        mutator, "pos=" << pos << "; it_begin=?; it_end=? (length=" << std::distance(it_begin, it_end) << ")");
 
     detach_impl();
 
-- 
2.43.0

