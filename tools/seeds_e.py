# more planted bugs, see seed.py
S("coll-identity", "C37", "multi_type_vector/collection_def.inl",
  [("    if (m_identity != other.m_identity)\n        return false;\n\n", "")],
  "comparing iterators of two collections of the same geometry that stand at the same place",
  "iterators of different collections are equal",
  r'''
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <memory>
#include <vector>
using mtv = mdds::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
int main()
{
    auto make = [] { std::vector<std::shared_ptr<mtv>> v; for (int i = 0; i < 2; ++i) v.push_back(std::make_shared<mtv>(3, double(i))); return v; };
    auto a = make(), b = make();
    mdds::mtv::collection<mtv> x(a.begin(), a.end()), y(b.begin(), b.end());
    return x.begin() == y.begin() || !(x.begin() == x.begin());
}
''')
S("mtv-swap-top-merge", "C18", "multi_type_vector/soa/main_def.inl",
  [("        insert_blocks_at(src_position, block_index, new_blocks);\n        merge_with_next_block(block_index + new_blocks.positions.size() - 1); // last block inserted.\n",
    "        insert_blocks_at(src_position, block_index, new_blocks);\n        if (src_tail_len == 0)\n            merge_with_next_block(block_index + new_blocks.positions.size() - 1); // last block inserted.\n")],
  "swapping the top part of a block with several blocks of the other container, the last of which has the type of that block",
  "two adjacent blocks of the same type",
  r'''
#include <mdds/multi_type_vector.hpp>
#include <string>
using mtv = mdds::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
int main()
{
    mtv a(6, 1.0), b(4, 2.0);
    b.set(0, std::string("x"));
    a.swap(0, 2, b, 0);
    int last = -1;
    for (const auto& k : a)
    {
        if (int(k.type) == last)
            return 1;
        last = int(k.type);
    }
    return a.block_size() != 2;
}
''')
OOM = r'''
#include <cstdlib>
#include <new>
static long g_left = -1;
void* operator new(std::size_t n)
{
    if (g_left == 0)
        throw std::bad_alloc();
    if (g_left > 0)
        --g_left;
    return std::malloc(n ? n : 1);
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
'''
S("oom-segtree-assign", "C38", "segment_tree_def.inl",
  [("    segment_tree tmp(r);\n    swap(tmp);\n    return *this;\n",
    "    if (this == &r)\n        return *this;\n\n    clear();\n    m_segment_store = r.m_segment_store;\n    if (r.m_valid_tree)\n        build_tree();\n    return *this;\n")],
  "assigning a segment tree to another one when there is no memory for the copy",
  "the target has lost its segments",
  OOM + r'''
#include <mdds/segment_tree.hpp>
#include <string>
int main()
{
    mdds::segment_tree<int, std::string> a, b;
    a.insert(0, 5, "x");
    a.build_tree();
    for (int i = 0; i < 40; ++i)
        b.insert(i, i + 1, std::string(30, 'y'));
    for (int k = 0; k < 20; ++k)
    {
        g_left = k;
        bool thrown = false;
        try { a = b; } catch (const std::bad_alloc&) { thrown = true; }
        g_left = -1;
        if (thrown && (a.size() != 1 || a.search(2).size() != 1))
            return 1;
    }
    return 0;
}
''', flags="")
S("oom-fst-assign", "C38", "flat_segment_tree_def.inl",
  [("    flat_segment_tree copy(other);\n    swap(copy);\n    return *this;\n",
    "    flat_segment_tree<key_type, value_type> blank(other.min_key(), other.max_key(), other.default_value());\n    swap(blank);\n    flat_segment_tree copy(other);\n    swap(copy);\n    return *this;\n")],
  "assigning a flat_segment_tree when there is only memory for an empty one",
  "the target has lost its segments",
  OOM + r'''
#include <mdds/flat_segment_tree.hpp>
int main()
{
    mdds::flat_segment_tree<int, int> a(0, 100, 0), b(0, 100, 0);
    a.insert_front(3, 5, 1);
    for (int i = 0; i < 50; i += 2)
        b.insert_back(i, i + 1, 7);
    for (int k = 0; k < 12; ++k)
    {
        g_left = k;
        bool thrown = false;
        try { a = b; } catch (const std::bad_alloc&) { thrown = true; }
        g_left = -1;
        int v = 0;
        if (thrown && (a.leaf_size() != 4 || !a.search(4, v).second || v != 1))
            return 1;
    }
    return 0;
}
''', flags="")
S("mtv-set-range-tail-offset", "C17", "multi_type_vector/soa/main_def.inl",
  [("        // Extend the first block to store the new data set.\n", "        // Extend the first block to store the new data set.\n        size_type end_row_in_block1 = start_row_in_block1 + m_block_store.sizes[block_index1] - 1;\n"),
   ("                size_type begin_pos = end_row - start_row_in_block2 + 1;\n                block_funcs::append_values_from_block(*blk1_data, *blk2_data, begin_pos, data_length);\n",
    "                size_type begin_pos = end_row - start_row_in_block2 + 1;\n                if (begin_pos > data_length)\n                    begin_pos = std::min(end_row - end_row_in_block1, end_row_in_block2 - start_row_in_block2 + 1 - data_length + (block_index2 - block_index1 - 1));\n                begin_pos = std::min(begin_pos, end_row_in_block2 - start_row_in_block2);\n                block_funcs::append_values_from_block(*blk1_data, *blk2_data, begin_pos, std::min(data_length, end_row_in_block2 - start_row_in_block2 + 1 - begin_pos));\n                if (begin_pos + data_length > end_row_in_block2 - start_row_in_block2 + 1)\n                    block_funcs::resize_block(*blk1_data, offset + length + data_length);\n")],
  "setting a range of values over three or more blocks, the first and the last of which have the type of the values",
  "the elements behind the range are not those that stood there",
  r"""
#include <mdds/multi_type_vector.hpp>
#include <string>
#include <vector>
using mtv = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
int main()
{
    mtv v(12, 1.0);
    for (int i = 0; i < 12; ++i)
        v.set(i, double(i));
    v.set(4, std::string("x"));
    std::vector<double> in(8, 0.5);
    v.set(2, in.begin(), in.end());
    return v.get<double>(10) != 10.0 || v.get<double>(11) != 11.0;
}
""")
