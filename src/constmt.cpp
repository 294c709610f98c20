// Threads that make const calls on one container at the same time (C36), for
// every container but multi_type_vector (C32).  Built with the thread
// sanitizer.
#include "vf.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <mdds/multi_type_matrix.hpp>
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/point_quad_tree.hpp>
#include <mdds/rtree.hpp>
#include <mdds/segment_tree.hpp>
#include <mdds/sorted_string_map.hpp>
#include <mdds/trie_map.hpp>
#include <atomic>
#include <memory>
#include <thread>

using vf::src;

struct query
{
    int kind, a, b, c, d;
};

// what a call returned, as a number that does not depend on addresses
struct digest
{
    uint64_t h = 1469598103934665603ull;
    void add(uint64_t v) { h = vf::mix64(h ^ v); }
    void add(const std::string& s)
    {
        add(s.size());
        for (unsigned char ch : s)
            h = (h ^ ch) * 1099511628211ull;
    }
    void real(double d)
    {
        uint64_t u;
        memcpy(&u, &d, sizeof(u));
        add(u);
    }
};

// ---------------------------------------------------------------- containers

struct box_fst
{
    static constexpr const char* name = "flat_segment_tree";
    static constexpr int kinds = 9;
    using T = mdds::flat_segment_tree<int, std::string>;
    T t{0, 100, "none"};
    bool tree = false;
    void fill(src& c)
    {
        for (int i = 0; i < 30 && c.more(8); ++i)
        {
            int a = int(c.below(100)), b = a + 1 + int(c.below(20));
            t.insert_back(a, b, std::string(1, char('a' + c.below(4))));
        }
        if ((tree = c.coin()))
            t.build_tree();
    }
    size_t size() const { return t.leaf_size(); }
    uint64_t ask(const query& q) const
    {
        digest d;
        std::string v;
        int s = -1, e = -1;
        int key = q.a % 110 - 5;
        switch (q.kind)
        {
            case 0:
                if (t.search(key, v, &s, &e).second)
                    d.add(v), d.add(s), d.add(e);
                break;
            case 1:
                if (auto r = t.search(t.begin(), key, v, &s, &e); r.second)
                    d.add(v), d.add(s), d.add(e), d.add(r.first->first);
                break;
            case 2:
                if (t.search_tree(key, v, &s, &e).second)
                    d.add(v), d.add(s), d.add(e);
                break;
            case 3:
                for (auto it = t.begin(); it != t.end(); ++it)
                    d.add(it->first), d.add(it->second);
                break;
            case 4:
                for (auto it = t.rbegin(); it != t.rend(); ++it)
                    d.add(it->first), d.add(it->second);
                break;
            case 5:
                for (const auto& sg : t.segment_range())
                    d.add(sg.start), d.add(sg.end), d.add(sg.value);
                break;
            case 6:
                d.add(t.min_key()), d.add(t.max_key()), d.add(t.default_value()), d.add(t.valid_tree()), d.add(t.leaf_size());
                break;
            case 7:
            {
                T copy(t);
                d.add(copy == t), d.add(copy.leaf_size());
                break;
            }
            case 8:
            {
                auto it = t.search(key);
                if (it != t.end())
                {
                    auto sg = it.to_segment();
                    d.add(sg->start), d.add(sg->end), d.add(sg->value);
                }
                break;
            }
        }
        return d.h;
    }
};

struct box_seg
{
    static constexpr const char* name = "segment_tree";
    static constexpr int kinds = 7;
    using T = mdds::segment_tree<int, std::string>;
    T t;
    std::unique_ptr<T::search_results> res; // a result that all threads read
    void fill(src& c)
    {
        for (int i = 0; i < 30 && c.more(8); ++i)
        {
            int a = int(c.below(100)), b = a + 1 + int(c.below(40));
            t.insert(a, b, "v" + std::to_string(i));
        }
        if (!c.chance(1, 6))
        {
            t.build_tree();
            res = std::make_unique<T::search_results>(t.search(int(c.below(150))));
        }
    }
    size_t size() const { return t.size(); }
    uint64_t ask(const query& q) const
    {
        digest d;
        switch (q.kind)
        {
            case 0:
            case 1:
                if (t.valid_tree())
                {
                    auto r = t.search(q.a % 150);
                    uint64_t sum = 0; // the order is unspecified
                    for (const auto& x : r)
                    {
                        digest e;
                        e.add(x.start), e.add(x.end), e.add(x.value);
                        sum += e.h;
                    }
                    d.add(sum), d.add(r.size());
                }
                break;
            case 2:
                for (int k : t.boundary_keys())
                    d.add(k);
                break;
            case 3:
                d.add(t.size()), d.add(t.empty()), d.add(t.valid_tree()), d.add(t.leaf_size());
                break;
            case 4:
            {
                T copy(t);
                d.add(copy == t), d.add(copy.size());
                break;
            }
            case 5:
                d.add(t.to_string());
                break;
            case 6:
                if (res)
                {
                    const T::search_results& r = *res;
                    d.add(r.size()), d.add(r.empty());
                    for (const auto& x : r)
                        d.add(x.start), d.add(x.end), d.add(x.value);
                    T::search_results copy(r);
                    d.add(copy.size());
                }
                break;
        }
        return d.h;
    }
};

struct box_quad
{
    static constexpr const char* name = "point_quad_tree";
    static constexpr int kinds = 7;
    using T = mdds::point_quad_tree<int, int>;
    T t;
    void fill(src& c)
    {
        for (int i = 0; i < 40 && c.more(10); ++i)
            t.insert(int(c.below(20)), int(c.below(20)), i);
        if (c.coin())
            t.remove(int(c.below(20)), int(c.below(20)));
    }
    size_t size() const { return t.size(); }
    static void walk(T::node_access n, digest& d, int depth)
    {
        if (!n || depth > 64)
            return;
        d.add(n.x()), d.add(n.y()), d.add(n.data());
        walk(n.northeast(), d, depth + 1);
        walk(n.northwest(), d, depth + 1);
        walk(n.southeast(), d, depth + 1);
        walk(n.southwest(), d, depth + 1);
    }
    uint64_t ask(const query& q) const
    {
        digest d;
        int x = q.a % 20, y = q.b % 20, x2 = x + 1 + q.c % 12, y2 = y + 1 + q.d % 12;
        switch (q.kind)
        {
            case 0:
            {
                auto r = t.search_region(x, y, x2, y2);
                for (auto it = r.begin(); it != r.end(); ++it)
                    d.add(it->first.x), d.add(it->first.y), d.add(it->second);
                break;
            }
            case 1:
            {
                T::data_array_type r;
                t.search_region(x, y, x2, y2, r);
                for (int v : r)
                    d.add(v);
                break;
            }
            case 2:
                try
                {
                    d.add(t.find(x, y));
                }
                catch (const T::data_not_found&)
                {
                    d.add(77);
                }
                break;
            case 3:
                walk(t.get_node_access(), d, 0);
                break;
            case 4:
                d.add(t.size()), d.add(t.empty());
                break;
            case 5:
            {
                T copy(t);
                d.add(copy == t), d.add(copy.size());
                break;
            }
            case 6:
                d.add(t == t);
                break;
        }
        return d.h;
    }
};

struct box_trie
{
    static constexpr const char* name = "trie_map";
    static constexpr int kinds = 8;
    using T = mdds::trie_map<std::string, int>;
    T t;
    std::unique_ptr<T::search_results> res; // a result that all threads read
    void fill(src& c)
    {
        for (int i = 0; i < 40 && c.more(10); ++i)
            t.insert(key(int(c.below(81))), i);
        res = std::make_unique<T::search_results>(t.prefix_search(key(int(c.below(9)))));
    }
    static std::string key(int i) // up to four letters of three
    {
        std::string s;
        for (; i; i /= 3)
            s += char('a' + i % 3);
        return s;
    }
    size_t size() const { return t.size(); }
    template<typename M>
    static void walk(M n, digest& d, int depth)
    {
        if (!n.valid() || depth > 8)
            return;
        d.add(n.has_child());
        if (n.has_value())
            d.add(n.value());
        for (char ch : {'a', 'b', 'c'})
            walk(n.child(ch), d, depth + 1);
    }
    template<typename M>
    static uint64_t common(const M& t, const query& q)
    {
        digest d;
        switch (q.kind)
        {
            case 0:
                if (auto it = t.find(key(q.a % 90)); it != t.end())
                    d.add(it->first), d.add(it->second);
                break;
            case 1:
                for (const auto& kv : t.prefix_search(key(q.a % 30)))
                    d.add(kv.first), d.add(kv.second);
                break;
            case 2:
                for (auto it = t.begin(); it != t.end(); ++it)
                    d.add(it->first), d.add(it->second);
                break;
            case 3:
                walk(t.root_node(), d, 0);
                break;
            case 4:
            {
                M copy(t);
                d.add(copy == t), d.add(copy.size());
                break;
            }
            case 5:
                d.add(t.size()), d.add(t.empty());
                break;
        }
        return d.h;
    }
    uint64_t ask(const query& q) const
    {
        if (q.kind == 6)
        {
            digest d;
            auto copy = t; // pack() is not const
            auto p = copy.pack();
            for (const auto& kv : p)
                d.add(kv.first), d.add(kv.second);
            return d.h;
        }
        if (q.kind == 7)
            return traverse(*res);
        return common(t, q);
    }
    template<typename R>
    static uint64_t traverse(const R& res)
    {
        digest d;
        for (const auto& kv : res)
            d.add(kv.first), d.add(kv.second);
        R copy(res);
        d.add(copy.begin() == copy.end());
        return d.h;
    }
};

struct box_packed
{
    static constexpr const char* name = "packed_trie_map";
    static constexpr int kinds = 8;
    using T = mdds::packed_trie_map<std::string, int>;
    T t;
    std::unique_ptr<T::search_results> res;
    void fill(src& c)
    {
        box_trie b;
        b.fill(c);
        t = b.t.pack();
        res = std::make_unique<T::search_results>(t.prefix_search(box_trie::key(int(c.below(9)))));
    }
    size_t size() const { return t.size(); }
    uint64_t ask(const query& q) const
    {
        if (q.kind == 6)
        {
            digest d;
            std::ostringstream os;
            t.save_state(os);
            d.add(os.str());
            return d.h;
        }
        if (q.kind == 7)
            return box_trie::traverse(*res);
        return box_trie::common(t, q);
    }
};

struct box_ssm
{
    static constexpr const char* name = "sorted_string_map";
    static constexpr int kinds = 3;
    using L = mdds::sorted_string_map<int>;
    using H = mdds::sorted_string_map<int, mdds::ssmap::hash_key_finder>;
    std::vector<std::string> keys;
    std::vector<L::entry_type> entries;
    std::unique_ptr<L> l;
    std::unique_ptr<H> h;
    void fill(src& c)
    {
        std::map<std::string, int> m;
        for (int i = 0; i < 30 && c.more(10); ++i)
            m[box_trie::key(int(c.below(81)))] = i;
        keys.reserve(m.size());
        for (auto& [k, v] : m)
        {
            keys.push_back(k);
            entries.push_back({std::string_view(keys.back()), v});
        }
        l = std::make_unique<L>(std::span<const L::entry_type>(entries), -1);
        h = std::make_unique<H>(std::span<const H::entry_type>(entries), -1);
    }
    size_t size() const { return entries.size(); }
    uint64_t ask(const query& q) const
    {
        digest d;
        std::string k = box_trie::key(q.a % 90);
        switch (q.kind)
        {
            case 0: d.add(l->find(k)), d.add(h->find(k)); break;
            case 1: d.add(std::string(l->find_key(q.a % 32))); d.add(std::string(h->find_key(q.b % 32))); break;
            case 2: d.add(l->size()), d.add(h->size()); break;
        }
        return d.h;
    }
};

struct rt_traits
{
    static constexpr size_t dimensions = 2, min_node_size = 2, max_node_size = 5, max_tree_depth = 100, reinsertion_size = 2;
    static constexpr bool enable_forced_reinsertion = true;
};
struct box_rtree
{
    static constexpr const char* name = "rtree";
    static constexpr int kinds = 9;
    using T = mdds::rtree<int, std::string, rt_traits>;
    T t;
    void fill(src& c)
    {
        for (int i = 0; i < 50 && c.more(14); ++i)
        {
            int x = int(c.below(60)), y = int(c.below(60));
            T::extent_type e({x, y}, {x + int(c.below(15)), y + int(c.below(15))});
            t.insert(e, "v" + std::to_string(i));
        }
        int x = int(c.below(40)), y = int(c.below(40));
        const T& ct = t;
        res = std::make_unique<T::const_search_results>(ct.search(T::extent_type({x, y}, {x + 30, y + 30}), T::search_type::overlap));
    }
    std::unique_ptr<T::const_search_results> res; // a result that all threads read
    size_t size() const { return t.size(); }
    uint64_t ask(const query& q) const
    {
        digest d;
        T::extent_type e({q.a % 60, q.b % 60}, {q.a % 60 + q.c % 20, q.b % 60 + q.d % 20});
        auto st = q.c % 3 ? T::search_type::overlap : T::search_type::match;
        switch (q.kind)
        {
            case 0:
            case 1:
            {
                auto r = q.kind == 0 ? t.search(e, st) : t.search(T::point_type({q.a % 60, q.b % 60}), st);
                for (auto it = r.begin(); it != r.end(); ++it)
                    d.add(*it), d.add(it.extent().to_string()), d.add(it.depth());
                break;
            }
            case 2:
                t.walk([&](const T::node_properties& p) { d.add(int(p.type)), d.add(p.extent.to_string()); });
                break;
            case 3:
                d.add(t.size()), d.add(t.empty()), d.add(t.extent().to_string());
                break;
            case 4:
            {
                T copy(t);
                d.add(copy.size()), d.add(copy.extent().to_string());
                break;
            }
            case 5:
            case 6:
            case 7:
                d.add(t.export_tree(q.kind == 5 ? T::export_tree_type::formatted_node_properties
                                    : q.kind == 6 ? T::export_tree_type::extent_as_obj : T::export_tree_type::extent_as_svg));
                break;
            case 8:
            {
                const T::const_search_results& r = *res;
                for (auto it = r.begin(); it != r.end(); ++it)
                    d.add(*it), d.add(it.depth());
                break;
            }
        }
        return d.h;
    }
};

struct box_matrix
{
    static constexpr const char* name = "multi_type_matrix";
    static constexpr int kinds = 9;
    using T = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
    T t;
    void fill(src& c)
    {
        size_t r = 1 + c.below(8), k = 1 + c.below(8);
        t.resize(r, k);
        for (int i = 0; i < 40 && c.more(12); ++i)
        {
            size_t a = c.below(r), b = c.below(k);
            switch (c.below(4))
            {
                case 0: t.set(a, b, double(i)); break;
                case 1: t.set(a, b, bool(i & 1)); break;
                case 2: t.set(a, b, std::string("s") + std::to_string(i)); break;
                case 3: t.set(a, b, i); break;
            }
        }
    }
    size_t size() const { return t.size().row * t.size().column; }
    static void cell(const T& t, size_t r, size_t k, digest& d)
    {
        d.add(int(t.get_type(r, k)));
        switch (t.get_type(r, k))
        {
            case mdds::mtm::element_string: d.add(t.get_string(r, k)); break;
            case mdds::mtm::element_boolean: d.add(t.get_boolean(r, k)); break;
            case mdds::mtm::element_integer: d.add(t.get_integer(r, k)); break;
            case mdds::mtm::element_numeric: d.real(t.get_numeric(r, k)); break;
            default: break;
        }
    }
    uint64_t ask(const query& q) const
    {
        digest d;
        size_t r = size_t(q.a) % t.size().row, k = size_t(q.b) % t.size().column;
        size_t r2 = r + size_t(q.c) % (t.size().row - r), k2 = k + size_t(q.d) % (t.size().column - k);
        auto count = [&d](const T::element_block_node_type& n) { d.add(int(n.type)), d.add(n.size); };
        switch (q.kind)
        {
            case 0: cell(t, r, k, d); break;
            case 1:
                for (size_t i = 0; i < t.size().row; ++i)
                    for (size_t j = 0; j < t.size().column; ++j)
                        cell(t, i, j, d);
                break;
            case 2: t.walk(count); break;
            case 3: t.walk(count, {r, k}, {r2, k2}); break;
            case 4:
                t.walk([&](const T::element_block_node_type& x, const T::element_block_node_type& y) { count(x), count(y); }, t);
                break;
            case 5: d.add(t.numeric()), d.add(t.empty()), d.add(t.size().row), d.add(t.size().column); break;
            case 6:
            {
                T copy(t);
                d.add(copy == t), d.add(copy.size().row);
                break;
            }
            case 7:
            {
                auto p = t.position(r, k);
                d.add(int(t.get_type(p)));
                auto p2 = t.position(p, r2, k2);
                auto m = t.matrix_position(p2);
                d.add(m.row), d.add(m.column);
                break;
            }
            case 8: d.add(t == t); break;
        }
        return d.h;
    }
};

struct box_coll
{
    static constexpr const char* name = "collection";
    static constexpr int kinds = 2;
    using V = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
    using T = mdds::mtv::collection<V>;
    std::vector<V> vs;
    std::unique_ptr<T> t;
    void fill(src& c)
    {
        size_t n = 1 + c.below(5), len = 1 + c.below(12);
        vs.reserve(n);
        for (size_t i = 0; i < n; ++i)
        {
            vs.emplace_back(len);
            for (int k = 0; k < 8 && c.more(4); ++k)
            {
                size_t p = c.below(len);
                if (c.coin())
                    vs.back().set(p, int32_t(k));
                else
                    vs.back().set(p, std::string("x"));
            }
        }
        t = std::make_unique<T>(vs.begin(), vs.end());
    }
    size_t size() const { return vs.size() * vs[0].size(); }
    uint64_t ask(const query& q) const
    {
        digest d;
        const T& ct = *t;
        if (q.kind == 1)
            d.add(ct.size());
        else
            for (const auto& n : ct)
            {
                d.add(int(n.type)), d.add(n.index), d.add(n.position);
                if (n.type == mdds::mtv::element_type_int32)
                    d.add(n.get<mdds::mtv::int32_element_block>());
                else if (n.type == mdds::mtv::element_type_string)
                    d.add(n.get<mdds::mtv::string_element_block>());
            }
        return d.h;
    }
};

// ------------------------------------------------------------------- the case

template<typename Box>
void readers(src& c)
{
    Box box;
    box.fill(c);
    size_t nt = 2 + c.below(3);
    std::vector<std::vector<query>> qs(nt);
    std::vector<std::vector<uint64_t>> got(nt);
    size_t total = 0;
    int only = c.chance(1, 2) ? int(c.below(Box::kinds)) : -1; // all threads in the same function
    for (size_t t = 0; t < nt; ++t)
    {
        for (int i = 0; i < 12 && (i == 0 || c.more(4)); ++i)
            qs[t].push_back({only >= 0 ? only : int(c.below(Box::kinds)), int(c.below(1000)), int(c.below(1000)), int(c.below(1000)), int(c.below(1000))});
        got[t].resize(qs[t].size());
        total += qs[t].size();
        for (auto& q : qs[t])
            VF_LOG(c, "thread " << t << ": call " << q.kind << " (" << q.a << ", " << q.b << ", " << q.c << ", " << q.d << ")");
    }
    const Box& cb = box;
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ths;
    for (size_t t = 0; t < nt; ++t)
        ths.emplace_back([&, t] {
            ready.fetch_add(1);
            while (ready.load() < nt)
                std::this_thread::yield();
            for (size_t i = 0; i < qs[t].size(); ++i)
                got[t][i] = cb.ask(qs[t][i]);
        });
    for (auto& t : ths)
        t.join();
    // the same calls, now one after the other
    for (size_t t = 0; t < nt; ++t)
        for (size_t i = 0; i < qs[t].size(); ++i)
            VF_CHECK(cb.ask(qs[t][i]) == got[t][i], Box::name << ": thread " << t << ", call " << i << " gave another result than when called alone");
    if (box.size() >= 3 && total >= 4)
        c.nontrivial();
}

template<typename Box>
void run_readers(src& c)
{
    VF_COVER(c, Box::name);
    VF_LOG(c, Box::name);
    readers<Box>(c);
}

#define READ_RULE "2 to 4 threads make generated const calls on one container at the same time; non-trivial: a container of 3 or more elements and at least 4 calls"
VF_PROPERTY("C36", run_readers<box_fst>, READ_RULE, 1);
VF_PROPERTY("C36", run_readers<box_seg>, READ_RULE, 1);
VF_PROPERTY("C36", run_readers<box_quad>, READ_RULE, 1);
VF_PROPERTY("C36", run_readers<box_trie>, READ_RULE, 1);
VF_PROPERTY("C36", run_readers<box_packed>, READ_RULE, 1);
VF_PROPERTY("C36", run_readers<box_ssm>, READ_RULE, 1);
VF_PROPERTY("C36", run_readers<box_rtree>, READ_RULE, 1);
VF_PROPERTY("C36", run_readers<box_matrix>, READ_RULE, 1);
VF_PROPERTY("C36", run_readers<box_coll>, READ_RULE, 1);

VF_MAIN
