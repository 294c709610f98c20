S("fst-hint-prev", "C01", "flat_segment_tree_def.inl",
  [("    assert(p->is_leaf);\n\n    if (start_key < p->key)\n    {\n        // Specified position is already past the start key position.  Not good.\n        return insert_front(start_key, end_key, val);\n",
    "    assert(p->is_leaf);\n\n    if (start_key < (p->prev ? p->prev->key : p->key))\n    {\n        // Specified position is already past the start key position.  Not good.\n        return insert_front(start_key, end_key, val);\n")],
  "insert() with a hint that is the segment right after the one where the new segment starts",
  "a segment is entered twice and its old value stays visible",
  r'''
#include <mdds/flat_segment_tree.hpp>
int main()
{
    mdds::flat_segment_tree<int, int> t(0, 100, 0);
    t.insert_back(10, 20, 1);
    t.insert_back(20, 30, 2);
    auto hint = t.search(20);
    t.insert(hint, 10, 15, 7);
    int n = 0, last = -1;
    for (auto p : t)
    {
        if (p.first <= last)
            return 1;
        last = p.first, ++n;
    }
    int v = 0;
    t.search(10, v);
    return v != 7 || n != 6;
}
''')
S("quad-find-shared", "C36", "point_quad_tree.hpp",
  [("    const node* p = find_node_ptr(x, y);\n    if (!p)\n        throw data_not_found();\n    return p->data;\n",
    "    node_ptr p = find_node(x, y);\n    if (!p)\n        throw data_not_found();\n    return p->data;\n")],
  "two threads that call find() of one tree at the same time",
  "find() changes the reference counts of the nodes, which is a data race",
  r'''
#include <mdds/point_quad_tree.hpp>
#include <atomic>
#include <thread>
int main()
{
    mdds::point_quad_tree<int, int> t;
    for (int i = 0; i < 64; ++i)
        t.insert(i % 8 * 10, i / 8 * 10, i);
    const auto& ct = t;
    std::atomic<int> ready{0}, bad{0};
    auto run = [&] {
        ++ready;
        while (ready < 2)
            std::this_thread::yield();
        for (int k = 0; k < 200; ++k)
            for (int i = 0; i < 64; ++i)
                if (ct.find(i % 8 * 10, i / 8 * 10) != i)
                    ++bad;
    };
    std::thread a(run), b(run);
    a.join(), b.join();
    return bad != 0;
}
''', flags="-fsanitize=thread -pthread")
S("blocks-equal-prefix", "C35", "multi_type_vector/types.hpp",
  [("        if (array1.size() != array2.size())\n            return false;\n", "        if (array1.size() > array2.size())\n            return false;\n")],
  "equal_block() on noncopyable managed blocks of which the first is a proper prefix of the second",
  "blocks of different lengths compare equal",
  r'''
#include <mdds/multi_type_vector.hpp>
struct obj
{
    int v;
    obj(int i = 0) : v(i) {}
    bool operator==(const obj& o) const { return v == o.v; }
};
using blk = mdds::mtv::noncopyable_managed_element_block<mdds::mtv::element_type_user_start, obj>;
using funcs = mdds::mtv::element_block_funcs<mdds::mtv::int32_element_block, blk>;
int main()
{
    obj* aa[] = {new obj(1)};
    obj* bb[] = {new obj(1), new obj(2)};
    obj **a = aa, **b = bb;
    auto* p = blk::create_block_with_values(a, a + 1);
    auto* q = blk::create_block_with_values(b, b + 2);
    bool eq = funcs::equal_block(*p, *q);
    funcs::delete_block(p);
    funcs::delete_block(q);
    return eq;
}
''')
S("coll-next-block", "C27", "multi_type_vector/collection_def.inl",
  [("    // Update the current node.\n    m_cur_node.elem_position = col.vector->position(col.block_pos, m_elem_pos);\n",
    "    // The element is either in the same block as the last one or in the next one.\n    if (m_elem_pos >= col.block_pos->position + col.block_pos->size)\n        ++col.block_pos;\n\n    // Update the current node.\n    m_cur_node.elem_position = {col.block_pos, m_elem_pos - col.block_pos->position};\n")],
  "a collection of two or more vectors whose element range starts behind the second block of a vector that is not the first",
  "the traversal reads elements of another block",
  r'''
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/collection.hpp>
using mtv = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
int main()
{
    std::vector<mtv> vs;
    for (int i = 0; i < 2; ++i)
    {
        vs.emplace_back(6);
        vs.back().set(0, int32_t(1));
        vs.back().set(1, double(2));
        vs.back().set(2, int32_t(3));
        vs.back().set(3, double(4));
        vs.back().set(4, int32_t(5));
        vs.back().set(5, double(6));
    }
    mdds::mtv::collection<mtv> c(vs.begin(), vs.end());
    c.set_element_range(4, 2);
    for (const auto& n : c)
    {
        if (n.type != vs[0].get_type(n.position))
            return 1;
        if (n.type == mdds::mtv::element_type_int32 && n.get<mdds::mtv::int32_element_block>() != 5)
            return 1;
        if (n.type == mdds::mtv::element_type_double && n.get<mdds::mtv::double_element_block>() != 6)
            return 1;
    }
    return 0;
}
''')
S("detach-free-gap", "C33", "multi_type_vector/soa/main_def.inl",
  [("            for (base_element_block* c : owned)\n                if (c)\n                    block_funcs::delete_block(c);\n            throw;\n",
    "            for (base_element_block* c : owned)\n            {\n                if (!c)\n                    // This is where it has failed.\n                    break;\n                block_funcs::delete_block(c);\n            }\n            throw;\n")],
  "detaching fails in a block that comes after an empty block and another cloned block",
  "the blocks that were already cloned are not freed",
  r'''
#include <mdds/multi_type_vector.hpp>
#include <stdexcept>
static int live = 0;
struct obj
{
    int v;
    obj(int i = 0) : v(i) { ++live; }
    obj(const obj& o) : v(o.v)
    {
        if (v == 13)
            throw std::runtime_error("no");
        ++live;
    }
    ~obj() { --live; }
};
using blk = mdds::mtv::managed_element_block<mdds::mtv::element_type_user_start, obj>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(obj, mdds::mtv::element_type_user_start, nullptr, blk)
struct traits : mdds::mtv::default_traits
{
    using block_funcs = mdds::mtv::element_block_funcs<mdds::mtv::int32_element_block, blk>;
    static constexpr bool enable_cow = true;
};
int main()
{
    {
        mdds::mtv::soa::multi_type_vector<traits> a(6);
        a.set(1, new obj(1));
        a.set(2, int32_t(2));
        a.set(3, new obj(13));
        auto b = a;
        int n = live;
        try
        {
            b.set(5, int32_t(1));
            return 1;
        }
        catch (const std::runtime_error&)
        {
        }
        if (live != n)
            return 1;
    }
    return live != 0;
}
''')
S("soa-swap-whole", "C20", "multi_type_vector/soa/main_def.inl",
  [("            // Both are empty blocks. Nothing to swap.\n            return;\n\n        block_funcs::swap_values(*src_data, *dst_data, src_offset, dst_offset, len);\n        return;\n",
    "            // Both are empty blocks. Nothing to swap.\n            return;\n\n        if (!src_offset && !dst_offset && !src_tail_len)\n        {\n            // The whole block gets swapped.\n            std::swap(m_block_store.element_blocks[block_index], other.m_block_store.element_blocks[other_block_index]);\n            return;\n        }\n\n        block_funcs::swap_values(*src_data, *dst_data, src_offset, dst_offset, len);\n        return;\n")],
  "swap() of a whole block with the first part of a longer block of the same type",
  "the two containers get blocks of the wrong length",
  r'''
#include <mdds/multi_type_vector.hpp>
using mtv = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
int main()
{
    mtv a(3, int32_t(1)), b(5, int32_t(2));
    a.swap(0, 2, b, 0);
    for (int i = 0; i < 3; ++i)
        if (a.get<int32_t>(i) != 2)
            return 1;
    for (int i = 0; i < 5; ++i)
        if (b.get<int32_t>(i) != (i < 3 ? 1 : 2))
            return 1;
    return mdds::mtv::int32_element_block::size(*a.cbegin()->data) != 3;
}
''')
S("trace-depth-throw", "C34", "multi_type_vector/util.hpp",
  [("    ~call_trace() noexcept\n    {\n        --call_depth;\n    }\n",
    "    ~call_trace() noexcept\n    {\n        if (!std::uncaught_exceptions())\n            --call_depth;\n    }\n")],
  "a call that throws, and then other calls on the same container",
  "no call is reported after one that has thrown",
  r'''
#define MDDS_MULTI_TYPE_VECTOR_TRACE 1
#include <exception>
#include <mdds/multi_type_vector.hpp>
static int n = 0;
struct traits : mdds::mtv::standard_element_blocks_traits
{
    static void trace(const mdds::mtv::trace_method_properties_t&) { ++n; }
};
int main()
{
    mdds::mtv::soa::multi_type_vector<traits> db(3);
    try
    {
        db.set(10, int32_t(1));
    }
    catch (const std::out_of_range&)
    {
    }
    n = 0;
    db.set(1, int32_t(1));
    return n != 1;
}
''')
S("rtree-pack-stable", "C16", "rtree_def.inl",
  [("            if (begin != seg.end)\n            {\n                size_t n = std::distance(begin, seg.end);\n",
    "            if (n_cur_segment > 1)\n            {\n                size_t n = std::distance(begin, seg.end);\n")],
  "a bulk load in which a split leaves a last segment of one element",
  "the element is missing from the tree",
  r'''
#include <mdds/rtree.hpp>
struct traits
{
    static constexpr size_t dimensions = 2, min_node_size = 1, max_node_size = 2, max_tree_depth = 100, reinsertion_size = 1;
    static constexpr bool enable_forced_reinsertion = true;
};
int main()
{
    using tree = mdds::rtree<int, int, traits>;
    for (int n = 1; n < 12; ++n)
    {
        tree::bulk_loader l;
        for (int i = 0; i < n; ++i)
            l.insert(tree::point_type({i, i}), i);
        tree t = l.pack();
        if (t.size() != size_t(n))
            return 1;
    }
    return 0;
}
''')
