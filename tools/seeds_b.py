S("segtree-swap-tags", "C06", "segment_tree_def.inl",
  [("    m_tagged_nodes_map.swap(r.m_tagged_nodes_map);\n", "")],
  "a built tree that is assigned or swapped, and then has a segment erased",
  "a segment erased from a tree after assignment or swap is still found, as an empty segment",
  r'''
#include <mdds/segment_tree.hpp>
int main()
{
    mdds::segment_tree<int, int> a, b;
    a.insert(0, 10, 1);
    a.insert(5, 15, 2);
    a.build_tree();
    b = a;
    b.erase_if([](int, int, int v) { return v == 2; });
    auto r = b.search(7);
    return r.size() != 1 || r.begin()->value != 1;
}
''')
S("quad-region-edge", "C08", "point_quad_tree.hpp",
  [("            search_region_node(p->northwest.get(), x1, y1, x2, y2, result);\n            search_region_node(p->southwest.get(), x1, y1, x2, y2, result);\n            break;\n", "            search_region_node(p->northwest.get(), x1, y1, x2, y2, result);\n            if (y2 > p->y)\n                search_region_node(p->southwest.get(), x1, y1, x2, y2, result);\n            break;\n")],
  "a region whose last row is that of a node east of it, with a point of that row further west",
  "a point on the last row of the region is missed",
  r'''
#include <mdds/point_quad_tree.hpp>
#include <random>
#include <map>
int main()
{
    std::mt19937 g(3);
    for (int round = 0; round < 300; ++round)
    {
        mdds::point_quad_tree<int, int> t;
        std::map<std::pair<int, int>, int> m;
        for (int i = 0; i < 30; ++i)
        {
            int x = g() % 8, y = g() % 8;
            t.insert(x, y, i);
            m[{x, y}] = i;
        }
        for (int i = 0; i < 40; ++i)
        {
            int x1 = g() % 8, x2 = x1 + g() % 5, y1 = g() % 8, y2 = y1 + g() % 5;
            auto r = t.search_region(x1, y1, x2, y2);
            int n = 0, k = 0;
            for (auto it = r.begin(); it != r.end(); ++it)
                ++n;
            for (auto& p : m)
                k += p.first.first >= x1 && p.first.first <= x2 && p.first.second >= y1 && p.first.second <= y2;
            if (n != k)
                return 1;
        }
    }
    return 0;
}
''')
S("soa-position-cache", "C32", "multi_type_vector/soa/main_def.inl",
  {"multi_type_vector/soa/main.hpp": [("    size_type m_cur_size;\n", "    size_type m_cur_size;\n    mutable size_type m_last_block = 0;\n")],
   "multi_type_vector/soa/main_def.inl": [("    auto it0 = m_block_store.positions.begin();\n    std::advance(it0, start_block_index);\n\n    auto it = std::lower_bound(it0, m_block_store.positions.end(), row);\n", "    if (m_last_block >= start_block_index && m_last_block < m_block_store.positions.size())\n    {\n        // Look into the block of the previous access first.\n        size_type last = m_last_block;\n        size_type start_pos = m_block_store.positions[last];\n        if (start_pos <= row && row < start_pos + m_block_store.sizes[last])\n            return last;\n    }\n\n    auto it0 = m_block_store.positions.begin();\n    std::advance(it0, start_block_index);\n\n    auto it = std::lower_bound(it0, m_block_store.positions.end(), row);\n"),
   ("    size_type pos = std::distance(it0, it) + start_block_index;\n    assert(*it <= row);\n    assert(row < *it + m_block_store.sizes[pos]);\n    return pos;\n", "    size_type pos = std::distance(it0, it) + start_block_index;\n    assert(*it <= row);\n    assert(row < *it + m_block_store.sizes[pos]);\n    m_last_block = pos;\n    return pos;\n")]},
  "two threads that read one constant container at the same time",
  "lookups in a constant container write a cached block index: a data race between readers",
  r'''
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#include <thread>
#include <string>
using mtv = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
int main()
{
    mtv m(20, 1.0);
    m.set(5, std::string("x"));
    m.set(11, std::string("y"));
    const mtv& a = m;
    auto read = [&a] {
        int n = 0;
        for (int k = 0; k < 50; ++k)
            for (int i = 0; i < 20; ++i)
                n += a.get_type(i);
    };
    std::thread t(read), u(read);
    t.join();
    u.join();
    return 0;
}
''', flags="-fsanitize=thread -pthread")
S("ssm-embedded-zero", "C13", "sorted_string_map_def.inl",
  [("    if (val == m_entries_end || val->key != input)\n", "    if (val == m_entries_end || val->key.size() != input.size() ||\n        __builtin_strncmp(val->key.data(), input.data(), input.size()))\n")],
  "an input with an embedded zero byte that is not a key, in front of a key of the same length with the same text before the zero",
  "the value of another key is returned",
  """
#include <mdds/sorted_string_map.hpp>
#include <string>
int main()
{
    using map = mdds::sorted_string_map<int>;
    static const map::entry_type e[] = {{std::string_view("a\\0c", 3), 1}, {"b", 2}};
    map m(e, 2, -1);
    std::string in("a\\0b", 3);
    return m.find(in) != -1 || m.find(std::string("a\\0c", 3)) != 1;
}
""")
S("ddv-erase-all-offset", "C28", "multi_type_vector/delayed_delete_vector.hpp",
  [("    iterator erase(iterator first, iterator last)\n    {\n        return m_vec.erase(first, last);\n", "    iterator erase(iterator first, iterator last)\n    {\n        if (first == begin() && last == end())\n        {\n            m_vec.clear();\n            return m_vec.end();\n        }\n        return m_vec.erase(first, last);\n")],
  "erasing the whole range after elements have been erased at the front",
  "the number of removed front elements survives the clearing, so the size underflows",
  """
#include <mdds/multi_type_vector/types.hpp>
#include <mdds/multi_type_vector/delayed_delete_vector.hpp>
int main()
{
    mdds::mtv::delayed_delete_vector<int> v;
    for (int i = 0; i < 5; ++i)
        v.push_back(i);
    v.erase(v.begin());
    v.erase(v.begin(), v.end());
    return v.size() != 0;
}
""")
S("mtm-resize-one-column", "C29", "multi_type_matrix_def.inl",
  [("""    multi_type_matrix temp(rows, cols);
    temp.copy(*this);
    temp.swap(*this);
""", """    if (rows == m_size.row || cols == 1)
    {
        // The cells are stored by columns, so only the tail changes.
        m_store.resize(rows * cols);
        m_size.row = rows;
        m_size.column = cols;
        return;
    }

    multi_type_matrix temp(rows, cols);
    temp.copy(*this);
    temp.swap(*this);
""")],
  "resizing a matrix of several columns to one column that is taller than before",
  "cells of the second column appear below the first one",
  """
#include <mdds/multi_type_matrix.hpp>
using mat = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
int main()
{
    mat m(2, 2, 1.0);
    m.resize(3, 1);
    return m.get_type(2, 0) != mdds::mtm::element_empty;
}
""")
S("mtm-walk2-whole-columns", "C30", "multi_type_matrix_def.inl",
  [("""    size_t rows = end.row - start.row + 1;

    element_block_node_type node1, node2;
    const_position_type pos1 = position(0, 0), pos2 = right.position(0, 0);
""", """    if (start.row == 0 && start.column == 0 && end.row == m_size.row - 1 && end.column == m_size.column - 1)
        // The whole matrix is asked for.
        return walk(func, right);

    size_t rows = end.row - start.row + 1;

    element_block_node_type node1, node2;
    const_position_type pos1 = position(0, 0), pos2 = right.position(0, 0);
""")],
  "a sub-range walk over two matrices of different geometries that covers the left one entirely",
  "the walk is rejected as if the geometries had to be equal",
  """
#include <mdds/multi_type_matrix.hpp>
using mat = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
int main()
{
    mat a(2, 2, 1.0), b(3, 3, 2.0);
    int n = 0;
    try
    {
        a.walk([&n](const mat::element_block_node_type& l, const mat::element_block_node_type&) { n += l.size; }, b, {0, 0}, {1, 1});
    }
    catch (const std::exception&)
    {
        return 1;
    }
    return n != 4;
}
""")
S("rtree-stale-parent", "C15", "rtree_def.inl",
  [("""        for (node_store& this_ns : children)
            this_ns.valid_pointer = false;
    }

    return true;
""", """        // The elements on the shorter side have been moved.
        bool front = pos < children.size() / 2;
        auto first = front ? children.begin() : children.begin() + pos;
        auto last = front ? children.begin() + pos : children.end();
        for (; first != last; ++first)
            first->valid_pointer = false;
    }

    return true;
""")],
  "a directory dissolved by an erasure that is the child just before the middle of an even number of children",
  "parent pointers of the moved siblings go stale",
  """
#include <mdds/rtree.hpp>
#include <random>
struct traits
{
    static constexpr size_t dimensions = 2, min_node_size = 2, max_node_size = 5, max_tree_depth = 20;
    static constexpr bool enable_forced_reinsertion = false;
    static constexpr size_t reinsertion_size = 1;
};
using rt = mdds::rtree<int, int, traits>;
int main()
{
    std::mt19937 g(5);
    for (int round = 0; round < 200; ++round)
    {
        rt t;
        for (int i = 0; i < 40; ++i)
        {
            int x = g() % 50, y = g() % 50;
            t.insert({{x, y}, {x + int(g() % 3), y + int(g() % 3)}}, i);
        }
        for (int i = 0; i < 40; ++i)
        {
            auto r = t.search({{0, 0}, {60, 60}}, rt::search_type::overlap);
            auto it = r.begin();
            int n = 0;
            for (auto k = it; k != r.end(); ++k)
                ++n;
            if (n != 40 - i)
                return 1;
            std::advance(it, g() % n);
            t.erase(it);
            rt::integrity_check_properties p;
            p.throw_on_first_error = false;
            t.check_integrity(p);
        }
    }
    return 0;
}
""")
S("trie-load-early-values", "C12", "trie_map_def.inl",
  [("        throw std::invalid_argument(\"failed to find the check byte at the end of the value section.\");\n", "        throw std::invalid_argument(\"failed to find the check byte at the end of the value section.\");\n\n    m_value_store = value_store;\n")],
  "a state that is cut off or broken in its packed section",
  "the rejected stream replaces the values of the target map",
  """
#include <mdds/trie_map.hpp>
#include <sstream>
int main()
{
    using tm = mdds::trie_map<std::string, int>;
    tm a, b;
    a.insert("a", 1);
    b.insert("a", 2);
    auto p = a.pack(), q = b.pack();
    std::ostringstream os;
    q.save_state(os);
    std::string s = os.str();
    s.resize(s.size() - 1);
    std::istringstream is(s);
    try
    {
        p.load_state(is);
        return 1;
    }
    catch (const std::exception&)
    {
    }
    auto it = p.find("a");
    return it == p.end() || it->second != 1;
}
""")
S("trie-equal-erased-value", "C10", "trie_map_def.inl",
  [("    if (left.has_value && left.value != right.value)\n", "    if (left.value != right.value)\n")],
  "comparing a trie from which a key was erased that is a prefix of another key",
  "the value of an erased key takes part in the comparison",
  """
#include <mdds/trie_map.hpp>
#include <string>
int main()
{
    mdds::trie_map<std::string, int> a, b;
    a.insert("ab", 1);
    b.insert("ab", 1);
    a.insert("a", 2);
    a.erase("a");
    return !(a == b);
}
""")
S("mtv-hint-bounded-walk", "C19", "multi_type_vector/soa/main_def.inl",
  [("""            for (size_type i = block_index; i > 0;)
            {
                --i;
                start_row = m_block_store.positions[i];
                if (row >= start_row)
                {
                    // Row is in this block.
                    return i;
                }
                // Specified row is not in this block.
            }
            assert(start_row == 0);
        }
        // Otherwise reset.
        block_index = 0;
""", """            // Only try a few blocks.
            size_type last = block_index > 8 ? block_index - 8 : 0;
            for (size_type i = block_index; i > last;)
            {
                --i;
                start_row = m_block_store.positions[i];
                if (row >= start_row)
                {
                    // Row is in this block.
                    return i;
                }
                // Specified row is not in this block.
            }
            block_index = last;
        }
        else
            // Otherwise reset.
            block_index = 0;
""")],
  "a hint more than eight blocks past the target position, with the target in the second half",
  "the block lookup starts behind the target",
  """
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
using mtv = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
int main()
{
    mtv a;
    for (int i = 0; i < 40; ++i)
        if (i & 1)
            a.push_back(1.0);
        else
            a.push_back(int32_t(i));
    auto it = a.begin();
    std::advance(it, 39);
    a.set(it, 22, std::string("x"));
    return a.get_type(22) != mdds::mtv::element_type_string || a.size() != 40;
}
""")
S("mtv-exchange-no-event", "C22", "multi_type_vector/soa/main_def.inl",
  [("""    m_hdl_event.element_block_acquired(blk_data);
    block_funcs::assign_values_from_block(*blk_data, src_blk, src_offset, len);
    merge_with_adjacent_blocks(bucket.insert_index);
""", """    block_funcs::assign_values_from_block(*blk_data, src_blk, src_offset, len);
    if (!merge_with_adjacent_blocks(bucket.insert_index))
        m_hdl_event.element_block_acquired(blk_data);
""")],
  "a range swap over several blocks whose new block merges with the previous one, or is joined by the next one",
  "the block that goes away in the merge is reported as released without having been reported as acquired",
  """
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
struct counter
{
    long n = 0;
    void element_block_acquired(const mdds::mtv::base_element_block*) { ++n; }
    void element_block_released(const mdds::mtv::base_element_block*) { --n; }
};
struct tr : mdds::mtv::standard_element_blocks_traits
{
    using event_func = counter;
};
using mtv = mdds::mtv::soa::multi_type_vector<tr>;
int main()
{
    mtv a(6), b(3, 1.0);
    a.set(0, 5.0);
    a.set(1, int32_t(1));
    a.set(2, std::string("x"));
    a.swap(1, 2, b, 0);
    long n = 0;
    for (auto it = a.begin(); it != a.end(); ++it)
        n += it->data != nullptr;
    return a.event_handler().n != n;
}
""")
S("mtv-swap-len-check", "C25", "multi_type_vector/soa/main_def.inl",
  [("    if (end_pos >= m_cur_size || other_end_pos >= other.m_cur_size)\n        throw std::out_of_range(\"multi_type_vector::swap: end position is out of bound!\");\n", "    if (end_pos >= m_cur_size || other_pos >= other.m_cur_size)\n        throw std::out_of_range(\"multi_type_vector::swap: end position is out of bound!\");\n"),
   ("    size_type dest_block_index2 = other.get_block_position(other_end_pos, dest_block_index1);\n    if (dest_block_index2 == other.m_block_store.positions.size())\n", "    size_type dest_block_index2 = other.get_block_position(std::min(other_end_pos, other.m_cur_size - 1), dest_block_index1);\n    if (dest_block_index2 == other.m_block_store.positions.size())\n")],
  "a range swap whose destination starts inside the other container and ends past its end",
  "the swap is carried out past the end",
  """
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
using mtv = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
int main()
{
    mtv a(6, 1.0), b(3, int32_t(1));
    try
    {
        a.swap(1, 3, b, 1);
    }
    catch (const std::out_of_range&)
    {
        return b.size() != 3;
    }
    return 1;
}
""")
S("cow-hinted-set-empty", "C24", "multi_type_vector/soa/main_def.inl",
  [("""        mutator_with_pos_hint, "pos_hint=" << pos_hint << "; start_pos=" << start_pos << "; end_pos=" << end_pos);

    detach_impl();

    size_type block_index1 = get_block_position(pos_hint->__private_data, start_pos);
    if (block_index1 == m_block_store.positions.size())
        mdds::mtv::detail::throw_block_position_not_found(
            "multi_type_vector::set_empty",""", """        mutator_with_pos_hint, "pos_hint=" << pos_hint << "; start_pos=" << start_pos << "; end_pos=" << end_pos);

    size_type block_index1 = get_block_position(pos_hint->__private_data, start_pos);
    if (block_index1 == m_block_store.positions.size())
        mdds::mtv::detail::throw_block_position_not_found(
            "multi_type_vector::set_empty",""")],
  "a position hint obtained before the container was copied, used to empty elements while the copy shares the blocks",
  "the elements are emptied in the blocks of the other sharer as well",
  r"""
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
struct tr : mdds::mtv::standard_element_blocks_traits
{
    static constexpr bool enable_cow = true;
};
using mtv = mdds::mtv::soa::multi_type_vector<tr>;
int main()
{
    mtv a(5, 1.0);
    auto it = a.set(1, 2.0);
    mtv c(a);
    a.set_empty(it, 3, 3);
    return c.get<double>(3) != 1.0 || c.get<double>(4) != 1.0 || !a.is_empty(3);
}
""")
