S("trie-packed-unit-compare", "C11", "trie_map_def.inl",
  [("        const key_unit_type node_key = *child_pos;\n\n        if (c == node_key)\n        {\n            // Match found!\n            return child_pos;", "        const auto node_key = *child_pos;\n\n        if (c == node_key)\n        {\n            // Match found!\n            return child_pos;")],
  "keys with units above 127 in a char based key and a 16-bit packing unit",
  "stored keys with high-bit characters are not found in a packed map with a narrow packing unit",
  r'''
#include <mdds/trie_map.hpp>
#include <string>
struct tr : mdds::trie::default_traits
{
    using pack_value_type = std::uint16_t;
};
int main()
{
    mdds::trie_map<std::string, int, tr> m;
    m.insert(std::string("\xc3\xa9t\xc3\xa9"), 1);
    m.insert(std::string("hiver"), 2);
    auto p = m.pack();
    auto it = p.find(std::string("\xc3\xa9t\xc3\xa9"));
    return it == p.end() || it->second != 1;
}
''')
S("quad-remove-se-dir", "C07", "point_quad_tree.hpp",
  [("            adjust_quad(xrange, yrange, delete_node->southwest, dir_north, insert_list);\n", "            adjust_quad(xrange, yrange, delete_node->southwest, dir_east, insert_list);\n")],
  "removal of an inner point whose replacement comes from its south-east quadrant, while its south-west quadrant holds points between the old and the new row",
  "some of the other points are no longer found after the removal",
  r'''
#include <mdds/point_quad_tree.hpp>
#include <map>
#include <random>
int main()
{
    std::mt19937 g(5);
    for (int round = 0; round < 300; ++round)
    {
        mdds::point_quad_tree<int, int> t;
        std::map<std::pair<int, int>, int> m;
        for (int i = 0; i < 40; ++i)
        {
            int x = g() % 60, y = g() % 60;
            t.insert(x, y, i);
            m[{x, y}] = i;
        }
        while (!m.empty())
        {
            auto it = m.begin();
            std::advance(it, g() % m.size());
            t.remove(it->first.first, it->first.second);
            m.erase(it);
            if (t.size() != m.size())
                return 1;
            for (auto& [k, v] : m)
            {
                try
                {
                    if (t.find(k.first, k.second) != v)
                        return 1;
                }
                catch (const mdds::point_quad_tree<int, int>::data_not_found&)
                {
                    return 1;
                }
            }
        }
    }
}
''')
S("rtree-boundary-dim", "C15", "rtree_def.inl",
  [("        if (start.d[dim] == bb.start.d[dim] || bb.end.d[dim] == end.d[dim])\n            return true;\n", "        if (start.d[dim] == bb.start.d[dim] || bb.end.d[0] == end.d[dim])\n            return true;\n")],
  "erasing an object that touches its directory's extent only at the far side of a dimension other than the first",
  "the extent of the directory and of the whole tree stays larger than the stored objects",
  r'''
#include <mdds/rtree.hpp>
int main()
{
    using rt = mdds::rtree<int, int>;
    rt t;
    t.insert({0, 0}, 0);
    t.insert({10, 10}, 1);
    t.insert({5, 20}, 2); // alone at the far side of the second dimension
    auto r = t.search({5, 20}, rt::search_type::match);
    t.erase(r.begin());
    rt::extent_type e = t.extent();
    return !(e.start.d[0] == 0 && e.start.d[1] == 0 && e.end.d[0] == 10 && e.end.d[1] == 10);
}
''')
