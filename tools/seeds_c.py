S("fst-eq-default", "C04", "flat_segment_tree_def.inl",
  [("    const node* n1 = m_left_leaf.get();\n    const node* n2 = other.m_left_leaf.get();\n\n    if ((!n1 && n2)",
    "    if (!(m_init_val == other.m_init_val))\n        return false;\n\n    const node* n1 = m_left_leaf.get();\n    const node* n2 = other.m_left_leaf.get();\n\n    if ((!n1 && n2)")],
  "two trees of the same bounds and segments that were created with different default values",
  "trees with the same bounds and the same value at every key compare unequal",
  r'''
#include <mdds/flat_segment_tree.hpp>
int main()
{
    mdds::flat_segment_tree<int, int> a(0, 10, 1), b(0, 10, 2);
    b.insert_front(0, 10, 1);
    return !(a == b);
}
''')
S("rtree-split-extent", "C14", "rtree_def.inl",
  [("    ns->pack(); // Re-calculate the bounding box.\n", "    bool size_changed = ns->pack(); // Re-calculate the bounding box.\n"),
   ("        bool parent_size_changed = ns_parent->pack();\n", "        // The parent can only have changed when its child has.\n        bool parent_size_changed = size_changed && ns_parent->pack();\n")],
  "a directory split whose first group keeps exactly the old extent, while the new object lies outside of it",
  "the object that caused the split is outside its ancestors' extents, so that searches miss it",
  r'''
#include <mdds/rtree.hpp>
#include <random>
#include <vector>
struct traits
{
    constexpr static size_t dimensions = 2, min_node_size = 2, max_node_size = 5, max_tree_depth = 100, reinsertion_size = 2;
    constexpr static bool enable_forced_reinsertion = false;
};
int main()
{
    using T = mdds::rtree<int, int, traits>;
    std::mt19937 g(5);
    for (int round = 0; round < 2000; ++round)
    {
        T t;
        std::vector<T::extent_type> all;
        int n = 10 + g() % 40;
        for (int i = 0; i < n; ++i)
        {
            int x = g() % 12, y = g() % 12;
            T::extent_type e{{x, y}, {int(x + g() % 8), int(y + g() % 8)}};
            all.push_back(e);
            t.insert(e, int(i));
        }
        for (int k = 0; k < 20; ++k)
        {
            int x = g() % 20, y = g() % 20;
            int want = 0, got = 0;
            for (auto& e : all)
                want += e.start.d[0] <= x && x <= e.end.d[0] && e.start.d[1] <= y && y <= e.end.d[1];
            auto r = std::as_const(t).search({x, y}, T::search_type::overlap);
            for (auto it = r.begin(); it != r.end(); ++it)
                ++got;
            if (want != got)
                return 1;
        }
    }
    return 0;
}
''')
S("quad-eq-range", "C09", "point_quad_tree.hpp",
  [("    ::std::vector<node_data> v1, v2;\n    get_all_stored_data(v1);\n    r.get_all_stored_data(v2);\n    return equals(v1, v2);\n",
    "    if (m_xrange != r.m_xrange || m_yrange != r.m_yrange)\n        // The points can't be the same.\n        return false;\n\n    ::std::vector<node_data> v1, v2;\n    get_all_stored_data(v1);\n    r.get_all_stored_data(v2);\n    return equals(v1, v2);\n")],
  "two trees with the same points, one of which held a point further out before",
  "trees that hold the same points with the same values compare unequal",
  r'''
#include <mdds/point_quad_tree.hpp>
int main()
{
    mdds::point_quad_tree<int, int> a, b;
    a.insert(1, 2, 1);
    a.insert(3, 4, 2);
    b.insert(1, 2, 1);
    b.insert(3, 4, 2);
    b.insert(30, 40, 3);
    b.remove(30, 40);
    return !(a == b);
}
''')
S("soa-release-range-last", "C21", "multi_type_vector/soa/main_def.inl",
  [("        for (size_type i = block_index1 + 1; i < end_block_to_erase; ++i)\n        {\n            base_element_block* data = m_block_store.element_blocks[i];\n            if (!overwrite && data)\n",
    "        for (size_type i = block_index1 + 1; i < end_block_to_erase; ++i)\n        {\n            base_element_block* data = m_block_store.element_blocks[i];\n            // The last block has been dealt with above.\n            if (!overwrite && data && i < block_index2)\n")],
  "release_range() over several blocks that ends exactly at the end of a block of managed elements",
  "the released elements of the last block are deleted",
  r'''
#include <mdds/multi_type_vector.hpp>
struct obj { int v; obj(int i = 0) : v(i) {} ~obj() { v = -1; } };
using blk = mdds::mtv::managed_element_block<mdds::mtv::element_type_user_start, obj>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(obj, mdds::mtv::element_type_user_start, nullptr, blk)
struct traits : mdds::mtv::default_traits
{
    using block_funcs = mdds::mtv::element_block_funcs<mdds::mtv::int32_element_block, blk>;
};
int main()
{
    mdds::mtv::soa::multi_type_vector<traits> db(4);
    obj* p = new obj(7);
    db.set(1, int32_t(5));
    db.set(2, p);
    db.release_range(1, 2);
    int v = p->v;
    delete p;
    return v != 7;
}
''')
S("mtm-eq-count", "C31", "multi_type_matrix_def.inl",
  [("    return m_size == r.m_size && m_store == r.m_store;\n", "    return m_size.row * m_size.column == r.m_size.row * r.m_size.column && m_store == r.m_store;\n")],
  "two matrices of different geometry with the same elements in storage order",
  "matrices of different geometry compare equal",
  r'''
#include <mdds/multi_type_matrix.hpp>
int main()
{
    mdds::multi_type_matrix<mdds::mtm::std_string_traits> a(2, 3, 1.5), b(3, 2, 1.5);
    return a == b;
}
''')
