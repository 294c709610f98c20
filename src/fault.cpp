// Calls that run out of memory (C38).  For every kind of container: a
// generated state of two containers, one call on them, and one allocation of
// that call that fails.
#include "vf.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <mdds/multi_type_matrix.hpp>
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/multi_type_vector/delayed_delete_vector.hpp>
#include <mdds/point_quad_tree.hpp>
#include <mdds/rtree.hpp>
#include <mdds/segment_tree.hpp>
#include <mdds/trie_map.hpp>
#include <functional>
#include <optional>

#ifndef VF_PART
#define VF_PART 0
#endif

using vf::src;

#define FAULT_RULE "a generated pair of containers, one call, one of its allocations fails; non-trivial: the call was interrupted and the containers hold 3 or more elements"

struct sum // what a call saw, without allocating
{
    uint64_t h = 0;
    uint64_t n = 0;
    void add(uint64_t v) { h = vf::mix64(h ^ vf::mix64(v)), ++n; }
    void add(const std::string& s)
    {
        uint64_t v = s.size();
        for (char c : s)
            v = v * 131 + (unsigned char)(c);
        add(v);
    }
    void add(double v) { add(uint64_t(int64_t(v * 16))); }
    void add(int v) { add(uint64_t(int64_t(v))); }
    void add(bool v) { add(uint64_t(v)); }
    bool operator==(const sum&) const = default;
};

// long enough for the heap, or not
inline std::string text(src& c)
{
    std::string s(1 + c.below(3), char('a' + c.below(3)));
    if (c.coin())
        s += std::string(24, '.');
    return s;
}

template<typename T>
struct world
{
    T& a;
    T& b;
    std::optional<T> r; // a container that the call makes
    sum out; // what it read
};

template<typename T>
using call = std::function<void(world<T>&)>;

// KIT: T; static size_t fill(src&, T&) (number of elements); static std::string
// read(const T&); static call<T> draw(src&, const T& a, const T& b, std::string& name, pledge& basic)
// pledge: what an interrupted call leaves
enum class pledge
{
    strong, // the containers as they were
    valid,  // any valid content
    freed   // containers that can be destroyed, freeing everything
};
template<typename KIT>
void fault_case(src& c)
{
    using T = typename KIT::T;
    std::vector<std::unique_ptr<T>> pool;
    size_t n = 0;
    // the same content twice: one pair to learn what the call does, one to interrupt it
    pool.push_back(KIT::make());
    pool.push_back(KIT::make());
    n += KIT::fill(c, *pool[0]);
    n += KIT::fill(c, *pool[1]);
    pool.push_back(KIT::twin(*pool[0]));
    pool.push_back(KIT::twin(*pool[1]));
    const std::string a0 = KIT::read(*pool[0]), b0 = KIT::read(*pool[1]);
    VF_LOG(c, KIT::name << "\na: " << a0 << "\nb: " << b0);
    VF_CHECK(KIT::read(*pool[2]) == a0 && KIT::read(*pool[3]) == b0, "a copy reads differently");
    std::string what;
    pledge basic = pledge::strong;
    call<T> f = KIT::draw(c, *pool[0], *pool[1], what, basic);
    std::string rs, as, bs;
    sum os;
    long total;
    {
        world<T> w{*pool[2], *pool[3], {}, {}};
        long t = vf::g_alloc.total;
        f(w);
        total = vf::g_alloc.total - t;
        as = KIT::read(w.a), bs = KIT::read(w.b);
        if (w.r)
            rs = KIT::read(*w.r);
        os = w.out;
    }
    VF_LOG(c, what << ": " << total << " allocations");
    // one failure, or each in turn
    long first = 0, last = 0;
    if (total > 0)
    {
        if (total <= 24 && basic == pledge::strong && c.coin())
            last = total - 1;
        else
            first = last = long(c.coin() ? c.below(total) : total - 1 - c.below(std::min<long>(total, 4)));
    }
    bool stopped = false;
    for (long k = first; k <= last && total > 0; ++k)
    {
        world<T> w{*pool[0], *pool[1], {}, {}};
        bool thrown = false;
        try
        {
            vf::alloc_fault g(k);
            f(w);
        }
        catch (const std::bad_alloc&)
        {
            thrown = true;
        }
        if (!thrown)
        {
            // fewer allocations than on the twin, or one that is optional
            VF_CHECK(KIT::read(w.a) == as && KIT::read(w.b) == bs && w.out == os, KIT::name << ": " << what << ": allocation " << k << " of " << total << " failed, and the call returned with another result");
            if (w.r)
                VF_CHECK(KIT::read(*w.r) == rs, KIT::name << ": " << what << ": allocation " << k << " of " << total << " failed, and the call made another container");
            VF_COVER(c, "the call did without");
            last = -1; // no more tries
            stopped = false;
            break;
        }
        stopped = true;
        VF_LOG(c, "allocation " << k << " fails");
        w.r.reset();
        if (basic == pledge::freed)
            return;
        if (basic == pledge::valid)
        {
            // it can be read and replaced
            (void)KIT::read(*pool[0]);
            (void)KIT::read(*pool[1]);
            break;
        }
        std::string a1 = KIT::read(*pool[0]), b1 = KIT::read(*pool[1]);
        VF_CHECK(a1 == a0, KIT::name << ": " << what << " fails at allocation " << k << " of " << total << " and changed the container\nfrom " << a0 << "\nto   " << a1);
        VF_CHECK(b1 == b0, KIT::name << ": " << what << " fails at allocation " << k << " of " << total << " and changed its argument\nfrom " << b0 << "\nto   " << b1);
    }
    if (stopped && basic == pledge::strong)
    {
        // now that there is memory
        world<T> w{*pool[0], *pool[1], {}, {}};
        f(w);
        VF_CHECK(KIT::read(w.a) == as && KIT::read(w.b) == bs && w.out == os && (!w.r || KIT::read(*w.r) == rs), KIT::name << ": " << what << ": repeating the call gives another result");
    }
    if (stopped)
    {
        VF_COVER(c, KIT::name);
        if (n >= 3)
            c.nontrivial();
        // the interrupted container can be used on
        KIT::fill(c, *pool[0]);
        (void)KIT::read(*pool[0]);
        *pool[1] = *pool[2];
        VF_CHECK(KIT::read(*pool[1]) == KIT::read(*pool[2]), KIT::name << ": " << what << " fails; assigning afterwards gives another content");
    }
}

template<typename T>
struct kit_base
{
    static std::unique_ptr<T> twin(const T& t) { return std::make_unique<T>(t); }
    // calls that every container has
    static call<T> common(unsigned k, std::string& name)
    {
        switch (k)
        {
            case 0: name = "copy construction"; return [](world<T>& w) { w.r.emplace(std::as_const(w.a)); };
            case 1: name = "copy assignment"; return [](world<T>& w) { w.a = std::as_const(w.b); };
            case 2: name = "move construction"; return [](world<T>& w) { T t(std::move(w.a)); w.a.swap(t); };
            case 3: name = "swap"; return [](world<T>& w) { w.a.swap(w.b); };
        }
        if constexpr (requires(const T& t) { t == t; })
        {
            name = "comparison";
            return [](world<T>& w) { w.out.add(w.a == w.b); };
        }
        VF_FAIL("no such call");
    }
};

#if VF_PART == 0
// ------------------------------------------------------------ flat_segment_tree
template<typename V>
struct fst_kit : kit_base<mdds::flat_segment_tree<int, V>>
{
    using T = mdds::flat_segment_tree<int, V>;
    static constexpr const char* name = "flat_segment_tree";
    static std::unique_ptr<T> twin(const T& t)
    {
        auto r = std::make_unique<T>(t);
        if (t.is_tree_valid())
            r->build_tree();
        return r;
    }
    static V value(src& c)
    {
        if constexpr (std::is_same_v<V, int>)
            return int(c.below(4));
        else
            return c.below(4) ? text(c) : V();
    }
    static std::unique_ptr<T> make() { return std::make_unique<T>(0, 60, V()); }
    static size_t fill(src& c, T& t)
    {
        while (c.more(5))
        {
            int s = int(c.below(60)), e = s + 1 + int(c.below(20));
            t.insert_back(s, e, value(c));
        }
        if (c.coin())
            t.build_tree();
        return t.leaf_size();
    }
    static std::string read(const T& t)
    {
        std::ostringstream os;
        for (auto p : t)
            os << p.first << '=' << p.second << ' ';
        V v{};
        for (int k = 0; k < 60; k += 7)
        {
            auto r = t.search(k, v);
            VF_CHECK(r.second, "search fails");
            os << v << ',';
            if (t.is_tree_valid())
            {
                V v2{};
                auto q = t.search_tree(k, v2);
                VF_CHECK(q.second && v2 == v, "search_tree of " << k << " gives " << v2 << ", search " << v);
            }
        }
        os << t.leaf_size();
        auto it = t.rbegin();
        for (size_t i = t.leaf_size(); i-- > 0; ++it)
            os << it->first << ' ';
        VF_CHECK(it == t.rend(), "reverse order");
        return os.str();
    }
    static call<T> draw(src& c, const T&, const T&, std::string& n, pledge& basic)
    {
        unsigned k = unsigned(c.weighted({4, 4, 1, 1, 1, 4, 2, 3, 2, 1}));
        int s = int(c.below(60)), e = s + 1 + int(c.below(20));
        V v = value(c);
        switch (k)
        {
            case 5: n = "build_tree"; return [](world<T>& w) { w.a.build_tree(); };
            case 6: n = "search"; return [s](world<T>& w) {
                V v{};
                int a = 0, b = 0;
                auto r = w.a.search(s, v, &a, &b);
                w.out.add(v), w.out.add(a), w.out.add(b);
                auto q = w.a.search(r.first, s, v);
                w.out.add(q.second);
                if (w.a.is_tree_valid())
                    w.out.add(w.a.search_tree(s, v).second);
            };
            case 7:
                n = "insert";
                return [=, fw = c.coin()](world<T>& w) { fw ? w.a.insert_front(s, e, v) : w.a.insert_back(s, e, v); };
            case 8:
                n = "shift";
                basic = pledge::valid;
                return [=, l = c.below(3)](world<T>& w) { l ? w.a.shift_right(s, e - s, l == 2) : w.a.shift_left(s, std::min(e, 60)); };
            case 9: n = "segment iteration"; return [](world<T>& w) {
                for (const auto& g : w.a.segment_range())
                    w.out.add(g.start), w.out.add(g.end), w.out.add(V(g.value));
            };
        }
        return fst_kit::common(k, n);
    }
};
VF_PROPERTY("C38", fault_case<fst_kit<int>>, FAULT_RULE, 2);
VF_PROPERTY("C38", fault_case<fst_kit<std::string>>, FAULT_RULE, 2);

// ----------------------------------------------------------------- segment_tree
template<typename V>
struct seg_kit : kit_base<mdds::segment_tree<int, V>>
{
    using T = mdds::segment_tree<int, V>;
    static constexpr const char* name = "segment_tree";
    static V value(src& c)
    {
        if constexpr (std::is_same_v<V, int>)
            return int(c.below(4)) + 1;
        else
            return text(c);
    }
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static size_t fill(src& c, T& t)
    {
        while (c.more(5))
        {
            int s = int(c.below(40)), e = s + 1 + int(c.below(20));
            t.insert(s, e, value(c));
        }
        if (c.chance(2, 3))
            t.build_tree();
        return t.size();
    }
    static std::string read(const T& t)
    {
        // tells the tree from the list of segments: a built tree finds them
        std::vector<std::string> all;
        T probe(t);
        probe.build_tree();
        std::ostringstream os;
        auto list = [&](const T& u, int k) {
            std::vector<std::string> v;
            for (const auto& s : u.search(k))
            {
                std::ostringstream o;
                o << s.start << '-' << s.end << '=' << s.value;
                v.push_back(o.str());
            }
            std::sort(v.begin(), v.end());
            return v;
        };
        for (int k = 0; k < 60; k += 3)
        {
            auto v = list(probe, k);
            os << k << ':';
            for (auto& s : v)
                os << s << ' ';
            if (t.valid_tree())
                VF_CHECK(list(t, k) == v, "the tree says it is valid but does not find the segments at " << k);
            else
                VF_CHECK(list(t, k).empty(), "an invalid tree finds something");
        }
        os << t.size() << t.empty();
        for (int k : t.boundary_keys())
            os << ' ' << k;
        return os.str();
    }
    static call<T> draw(src& c, const T& a, const T&, std::string& n, pledge&)
    {
        unsigned k = unsigned(c.weighted({4, 4, 1, 1, 2, 6, 3, 3, 2, 2}));
        int s = int(c.below(60)), e = s + 1 + int(c.below(20));
        V v = value(c);
        switch (k)
        {
            case 5: n = "build_tree"; return [](world<T>& w) { w.a.build_tree(); };
            case 6: n = "search"; return [s](world<T>& w) {
                auto r = w.a.search(s);
                for (const auto& g : r)
                    w.out.add(g.start), w.out.add(g.end);
                w.out.add(uint64_t(r.size()));
            };
            case 7: n = "insert"; return [=](world<T>& w) { w.a.insert(s, e, v); };
            case 8: n = "boundary_keys"; return [](world<T>& w) { for (int x : w.a.boundary_keys()) w.out.add(x); };
            case 9: n = "erase_if"; return [=](world<T>& w) { w.out.add(uint64_t(w.a.erase_if([s](int x, int y, const V&) { return x <= s && s < y; }))); };
        }
        (void)a;
        return seg_kit::common(k, n);
    }
};
VF_PROPERTY("C38", fault_case<seg_kit<int>>, FAULT_RULE, 2);
VF_PROPERTY("C38", fault_case<seg_kit<std::string>>, FAULT_RULE, 1);

// -------------------------------------------------------------- point_quad_tree
struct quad_kit : kit_base<mdds::point_quad_tree<int, std::string>>
{
    using T = mdds::point_quad_tree<int, std::string>;
    static constexpr const char* name = "point_quad_tree";
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static size_t fill(src& c, T& t)
    {
        while (c.more(6))
            t.insert(int(c.below(8)), int(c.below(8)), text(c));
        return t.size();
    }
    static std::string read(const T& t)
    {
        std::ostringstream os;
        auto r = t.search_region(-1, -1, 100, 100);
        std::vector<std::string> v;
        for (auto it = r.begin(); it != r.end(); ++it)
        {
            std::ostringstream o;
            o << it->first.x << ',' << it->first.y << '=' << it->second;
            VF_CHECK(t.find(it->first.x, it->first.y) == it->second, "find of a stored point");
            v.push_back(o.str());
        }
        std::sort(v.begin(), v.end());
        VF_CHECK(v.size() == t.size() && t.empty() == v.empty(), "size() is " << t.size() << ", " << v.size() << " points");
        for (auto& s : v)
            os << s << ' ';
        return os.str();
    }
    static call<T> draw(src& c, const T& a, const T&, std::string& n, pledge& basic)
    {
        unsigned k = unsigned(c.weighted({4, 4, 1, 1, 2, 4, 3, 3, 2}));
        int x = int(c.below(8)), y = int(c.below(8)), x2 = x + int(c.below(8)), y2 = y + int(c.below(8));
        std::string v = text(c);
        switch (k)
        {
            case 5: n = "insert"; return [=](world<T>& w) { w.a.insert(x, y, v); };
            case 6: n = "search_region"; return [=](world<T>& w) {
                auto r = w.a.search_region(x, y, x2, y2);
                for (auto it = r.begin(); it != r.end(); ++it)
                    w.out.add(it->first.x), w.out.add(it->first.y), w.out.add(it->second);
            };
            case 7:
                n = "remove";
                return [=](world<T>& w) { w.a.remove(x, y); };
            case 8: n = "search_region to an array"; return [=](world<T>& w) {
                std::vector<std::string> v;
                w.a.search_region(x, y, x2, y2, v);
                for (auto& s : v)
                    w.out.add(s);
            };
        }
        (void)a, (void)basic;
        return common(k, n);
    }
};
VF_PROPERTY("C38", fault_case<quad_kit>, FAULT_RULE, 3);
#endif

#if VF_PART == 1
// -------------------------------------------------------------- trie_map, packed
inline std::string key(src& c)
{
    std::string s;
    while (s.size() < 6 && c.more(3))
        s += char('a' + c.below(3));
    if (c.chance(1, 8))
        s += std::string(20, 'z');
    return s;
}
struct trie_kit : kit_base<mdds::trie_map<std::string, std::string>>
{
    using T = mdds::trie_map<std::string, std::string>;
    static constexpr const char* name = "trie_map";
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static size_t fill(src& c, T& t)
    {
        while (c.more(6))
            t.insert(key(c), text(c));
        if (c.chance(1, 3) && t.begin() != t.end())
            t.erase(std::string(t.begin()->first));
        return t.size();
    }
    template<typename M>
    static std::string dump(const M& t)
    {
        std::ostringstream os;
        size_t n = 0;
        for (const auto& p : t)
        {
            os << p.first << '=' << p.second << ' ', ++n;
            auto it = t.find(p.first);
            VF_CHECK(it != t.end() && it->first == p.first && it->second == p.second, "find of the key " << p.first);
        }
        VF_CHECK(n == t.size() && t.empty() == (n == 0), "size() is " << t.size() << ", " << n << " entries");
        auto it = t.end();
        for (size_t i = 0; i < n; ++i)
            os << (--it)->first << ' ';
        VF_CHECK(it == t.begin(), "backward");
        for (const char* p : {"a", "b", "ca"})
            for (const auto& e : t.prefix_search(std::string(p)))
                os << e.first << ' ';
        return os.str();
    }
    static std::string read(const T& t) { return dump(t); }
    static call<T> draw(src& c, const T&, const T&, std::string& n, pledge& basic)
    {
        unsigned k = unsigned(c.weighted({4, 4, 1, 1, 2, 5, 2, 3, 2, 4, 2}));
        std::string ky = key(c), v = text(c);
        switch (k)
        {
            case 5: n = "insert"; return [=](world<T>& w) { w.a.insert(ky, v); };
            case 6: n = "find"; return [=](world<T>& w) {
                auto it = std::as_const(w.a).find(ky);
                if (it != std::as_const(w.a).end())
                    w.out.add(it->second), w.out.add(it->first);
            };
            case 7: n = "prefix_search"; return [=](world<T>& w) {
                for (const auto& e : w.a.prefix_search(ky))
                    w.out.add(e.first);
            };
            case 8: n = "iteration"; return [=](world<T>& w) {
                for (const auto& e : std::as_const(w.a))
                    w.out.add(e.first), w.out.add(e.second);
            };
            case 9:
                if (c.coin())
                {
                    n = "construction of a packed_trie_map";
                    return [](world<T>& w) {
                        mdds::packed_trie_map<std::string, std::string> p(w.a);
                        w.out.add(uint64_t(p.size()));
                    };
                }
                n = "pack", basic = pledge::valid; // it moves the values
                return [](world<T>& w) {
                    auto p = w.a.pack();
                    w.out.add(uint64_t(p.size()));
                };
            case 10: n = "erase"; return [=](world<T>& w) { w.out.add(w.a.erase(ky)); };
        }
        return common(k, n);
    }
};
VF_PROPERTY("C38", fault_case<trie_kit>, FAULT_RULE, 3);

struct packed_kit : kit_base<mdds::packed_trie_map<std::string, std::string>>
{
    using T = mdds::packed_trie_map<std::string, std::string>;
    static constexpr const char* name = "packed_trie_map";
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static size_t fill(src& c, T& t)
    {
        mdds::trie_map<std::string, std::string> m;
        while (c.more(6))
            m.insert(key(c), text(c));
        t = m.pack();
        return t.size();
    }
    static std::string read(const T& t) { return trie_kit::dump(t); }
    static call<T> draw(src& c, const T& a, const T& b, std::string& n, pledge&)
    {
        unsigned k = unsigned(c.weighted({4, 4, 1, 1, 2, 5, 2, 3, 2, 4}));
        std::string ky = key(c);
        switch (k)
        {
            case 5:
            {
                n = "construction from entries";
                auto keys = std::make_shared<std::vector<std::pair<std::string, std::string>>>();
                for (const auto& p : b)
                    keys->push_back({p.first, p.second});
                return [keys](world<T>& w) {
                    std::vector<T::entry> e;
                    for (const auto& p : *keys)
                        e.emplace_back(p.first.data(), p.first.size(), p.second);
                    w.r.emplace(std::span<const T::entry>(e));
                };
            }
            case 6: n = "find"; return [=](world<T>& w) {
                auto it = w.a.find(ky);
                if (it != w.a.end())
                    w.out.add(it->second), w.out.add(it->first);
            };
            case 7: n = "prefix_search"; return [=](world<T>& w) {
                for (const auto& e : w.a.prefix_search(ky))
                    w.out.add(e.first);
            };
            case 8: n = "iteration"; return [=](world<T>& w) {
                for (const auto& e : w.a)
                    w.out.add(e.first), w.out.add(e.second);
            };
            case 9:
            {
                n = "load_state";
                std::ostringstream os;
                b.save_state(os);
                auto st = std::make_shared<std::string>(os.str());
                return [st](world<T>& w) {
                    struct buf : std::streambuf // reads without allocating
                    {
                        explicit buf(std::string& s) { setg(s.data(), s.data(), s.data() + s.size()); }
                        pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
                        {
                            char* p = d == std::ios_base::beg ? eback() : d == std::ios_base::cur ? gptr() : egptr();
                            p += o;
                            if (p < eback() || p > egptr())
                                return pos_type(off_type(-1));
                            setg(eback(), p, egptr());
                            return pos_type(p - eback());
                        }
                        pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
                    } sb(*st);
                    std::istream is(&sb);
                    w.a.load_state(is);
                };
            }
        }
        (void)a;
        return common(k, n);
    }
};
VF_PROPERTY("C38", fault_case<packed_kit>, FAULT_RULE, 3);

// ------------------------------------------------------------------------ rtree
template<size_t Min, size_t Max, bool Reinsert>
struct rt_traits
{
    static constexpr size_t dimensions = 2;
    static constexpr size_t min_node_size = Min;
    static constexpr size_t max_node_size = Max;
    static constexpr size_t max_tree_depth = 100;
    static constexpr bool enable_forced_reinsertion = Reinsert;
    static constexpr size_t reinsertion_size = 2;
};
template<typename Tr>
struct rtree_kit : kit_base<mdds::rtree<int, std::string, Tr>>
{
    using T = mdds::rtree<int, std::string, Tr>;
    using ext = typename T::extent_type;
    static constexpr const char* name = "rtree";
    static ext extent(src& c)
    {
        int x = int(c.below(20)), y = int(c.below(20));
        return ext{{x, y}, {x + int(c.below(6)), y + int(c.below(6))}};
    }
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static size_t fill(src& c, T& t)
    {
        while (c.more(12))
            t.insert(extent(c), text(c));
        return t.size();
    }
    static std::string read(const T& t)
    {
        std::vector<std::string> v;
        auto r = t.search(ext{{-5, -5}, {100, 100}}, T::search_type::overlap);
        for (auto it = r.begin(); it != r.end(); ++it)
        {
            auto e = it.extent();
            std::ostringstream o;
            o << e.start.d[0] << ',' << e.start.d[1] << '-' << e.end.d[0] << ',' << e.end.d[1] << '=' << *it;
            v.push_back(o.str());
        }
        std::sort(v.begin(), v.end());
        VF_CHECK(v.size() == t.size() && t.empty() == v.empty(), "size() is " << t.size() << ", " << v.size() << " values are found");
        typename T::integrity_check_properties p;
        p.throw_on_first_error = true;
        p.error_on_min_node_size = false;
        struct quiet
        {
            std::streambuf* b = std::cout.rdbuf(nullptr);
            ~quiet() { std::cout.rdbuf(b); std::cout.clear(); }
        } q;
        try
        {
            t.check_integrity(p);
        }
        catch (const mdds::integrity_error& e)
        {
            VF_FAIL("check_integrity: " << e.what());
        }
        std::ostringstream os;
        for (auto& s : v)
            os << s << ' ';
        return os.str();
    }
    static call<T> draw(src& c, const T&, const T&, std::string& n, pledge& basic)
    {
        unsigned k = unsigned(c.weighted({4, 4, 2, 2, 4, 3, 3, 2}));
        ext e = extent(c);
        std::string v = text(c);
        switch (k)
        {
            case 4: n = "search"; return [=](world<T>& w) {
                auto r = std::as_const(w.a).search(e, T::search_type::overlap);
                for (auto it = r.begin(); it != r.end(); ++it)
                    w.out.add(*it);
                auto q = w.a.search(e, T::search_type::match);
                for (auto it = q.begin(); it != q.end(); ++it)
                    w.out.add(*it);
            };
            case 5:
                n = "insert";
                basic = pledge::freed;
                return [=](world<T>& w) { w.a.insert(e, v); };
            case 6:
            {
                n = "bulk load";
                std::vector<std::pair<ext, std::string>> l;
                while (c.more(12))
                    l.push_back({extent(c), text(c)});
                return [l](world<T>& w) {
                    typename T::bulk_loader ld;
                    for (const auto& x : l)
                        ld.insert(x.first, x.second);
                    w.r.emplace(ld.pack());
                };
            }
            case 7:
                n = "erase";
                basic = pledge::freed;
                return [=](world<T>& w) {
                    auto r = w.a.search(e, T::search_type::overlap);
                    if (r.begin() != r.end())
                        w.a.erase(r.begin());
                };
        }
        return rtree_kit::common(k, n);
    }
};
using rt_small = rt_traits<2, 4, true>;
using rt_plain = rt_traits<2, 5, false>;
VF_PROPERTY("C38", fault_case<rtree_kit<rt_small>>, FAULT_RULE, 2);
VF_PROPERTY("C38", fault_case<rtree_kit<rt_plain>>, FAULT_RULE, 2);
#endif

#if VF_PART == 2
// ------------------------------------------------------------ multi_type_matrix
template<typename Tr>
struct mtm_kit : kit_base<mdds::multi_type_matrix<Tr>>
{
    using T = mdds::multi_type_matrix<Tr>;
    static constexpr const char* name = "multi_type_matrix";
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static void put(src& c, T& t, size_t r, size_t k)
    {
        switch (c.below(5))
        {
            case 0: t.set(r, k, double(c.below(4)) / 2); break;
            case 1: t.set(r, k, bool(c.coin())); break;
            case 2: t.set(r, k, text(c)); break;
            case 3: t.set_empty(r, k); break;
            case 4: t.set(r, k, typename T::integer_type(c.below(9))); break;
        }
    }
    static size_t fill(src& c, T& t)
    {
        if (t.empty())
        {
            size_t r = 1 + c.below(4), k = 1 + c.below(4);
            t.resize(r, k);
        }
        auto s = t.size();
        while (c.more(6))
            put(c, t, c.below(s.row), c.below(s.column));
        return s.row * s.column;
    }
    static std::string read(const T& t)
    {
        std::ostringstream os;
        auto s = t.size();
        os << s.row << 'x' << s.column << ':';
        for (size_t k = 0; k < s.column; ++k)
            for (size_t r = 0; r < s.row; ++r)
                switch (t.get_type(r, k))
                {
                    case mdds::mtm::element_empty: os << "- "; break;
                    case mdds::mtm::element_boolean: os << (t.get_boolean(r, k) ? "T " : "F "); break;
                    case mdds::mtm::element_numeric: os << t.get_numeric(r, k) << ' '; break;
                    case mdds::mtm::element_integer: os << 'i' << t.get_integer(r, k) << ' '; break;
                    case mdds::mtm::element_string: os << t.get_string(r, k) << ' '; break;
                }
        return os.str();
    }
    static call<T> draw(src& c, const T& a, const T&, std::string& n, pledge& basic)
    {
        unsigned k = unsigned(c.weighted({4, 4, 2, 1, 2, 0, 3}));
        // a change of the elements may leave anything, multi_type_vector makes no promise
        size_t r2 = 1 + c.below(5), k2 = 1 + c.below(5);
        std::string v = text(c);
        switch (k)
        {
            case 6: n = "construction with a value"; return [=](world<T>& w) { w.r.emplace(r2, k2, v); };
        }
        (void)basic, (void)a;
        return mtm_kit::common(k, n);
    }
};
VF_PROPERTY("C38", fault_case<mtm_kit<mdds::mtm::std_string_traits>>, FAULT_RULE, 2);

// ------------------------------------------------------------ multi_type_vector
struct cow_traits : mdds::mtv::standard_element_blocks_traits
{
    static constexpr bool enable_cow = true;
};
template<typename V>
struct mtv_kit : kit_base<V>
{
    using T = V;
    static constexpr const char* name = "multi_type_vector";
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static size_t fill(src& c, T& t)
    {
        if (t.empty())
            t.resize(1 + c.below(8));
        while (c.more(6))
        {
            size_t p = c.below(t.size());
            switch (c.below(5))
            {
                case 0: t.set(p, double(c.below(3)) / 2); break;
                case 1: t.set(p, text(c)); break;
                case 2: t.set_empty(p, p); break;
                case 3: t.set(p, int8_t(c.below(3))); break;
                case 4: t.push_back(text(c)); break;
            }
        }
        return t.size();
    }
    static std::string read(const T& t)
    {
        std::ostringstream os;
        size_t n = 0, blocks = 0;
        os << t.size() << ':';
        for (const auto& b : t)
        {
            VF_CHECK(b.position == n, "position of a block");
            n += b.size, ++blocks;
        }
        VF_CHECK(n == t.size() && blocks == t.block_size(), "size() is " << t.size() << ", " << n << " elements");
        for (size_t i = 0; i < n; ++i)
            switch (t.get_type(i))
            {
                case mdds::mtv::element_type_empty: os << "- "; break;
                case mdds::mtv::element_type_double: os << t.template get<double>(i) << ' '; break;
                case mdds::mtv::element_type_int8: os << 'i' << int(t.template get<int8_t>(i)) << ' '; break;
                default: os << t.template get<std::string>(i) << ' '; break;
            }
        return os.str();
    }
    static call<T> draw(src& c, const T&, const T&, std::string& n, pledge&)
    {
        constexpr unsigned det = requires(T& t) { t.detach(); } ? 6 : 0;
        unsigned k = unsigned(c.weighted({4, 4, 2, 1, 2, 3, 2, 2, det}));
        size_t len = 1 + c.below(4);
        std::string v = text(c);
        std::vector<std::string> vs(len, v);
        if constexpr (det)
            if (k == 8)
            {
                n = "detach";
                return [](world<T>& w) { w.a.detach(); };
            }
        switch (k)
        {
            case 5: n = "clone"; return [](world<T>& w) { w.r.emplace(w.a.clone()); };
            case 6: n = "construction with a value"; return [=](world<T>& w) { w.r.emplace(len, v); };
            case 7: n = "construction with values"; return [=](world<T>& w) { w.r.emplace(len, vs.begin(), vs.end()); };
        }
        return mtv_kit::common(k, n);
    }
};
VF_PROPERTY("C38", fault_case<mtv_kit<mdds::mtv::aos::multi_type_vector<mdds::mtv::standard_element_blocks_traits>>>, FAULT_RULE, 1);
VF_PROPERTY("C38", fault_case<mtv_kit<mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>>>, FAULT_RULE, 1);
VF_PROPERTY("C38", fault_case<mtv_kit<mdds::mtv::soa::multi_type_vector<cow_traits>>>, FAULT_RULE, 2);

// ------------------------------------------------------------------- collection
// the containers are a set of vectors; copies share them
struct coll_box
{
    using mtv = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
    std::vector<std::shared_ptr<mtv>> vs;
    std::optional<mdds::mtv::collection<mtv>> co;
    coll_box() = default;
    coll_box(const coll_box&) = default;
    coll_box& operator=(const coll_box&) = default;
    void swap(coll_box& o) { vs.swap(o.vs), std::swap(co, o.co); }
};
struct coll_kit : kit_base<coll_box>
{
    using T = coll_box;
    static constexpr const char* name = "collection";
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static size_t fill(src& c, T& t)
    {
        t.co.reset();
        t.vs.clear();
        size_t n = 1 + c.below(4), len = 1 + c.below(5);
        for (size_t i = 0; i < n; ++i)
        {
            t.vs.push_back(std::make_shared<T::mtv>(len));
            for (size_t j = 0; j < len; ++j)
                if (c.coin())
                    t.vs.back()->set(j, double(c.below(4)));
                else
                    t.vs.back()->set(j, text(c));
        }
        t.co.emplace(t.vs.begin(), t.vs.end());
        return n * len;
    }
    static std::string read(const T& t)
    {
        std::ostringstream os;
        for (const auto& e : *t.co)
        {
            os << e.index << '/' << e.position << '/' << e.type << '=';
            if (e.type == mdds::mtv::element_type_double)
                os << e.get<mdds::mtv::double_element_block>();
            else
                os << e.get<mdds::mtv::string_element_block>();
            os << ' ';
        }
        return os.str();
    }
    static call<T> draw(src& c, const T&, const T&, std::string& n, pledge&)
    {
        switch (c.below(3))
        {
            case 0: n = "construction of a collection"; return [](world<T>& w) {
                mdds::mtv::collection<T::mtv> k(w.b.vs.begin(), w.b.vs.end());
                w.out.add(uint64_t(k.size()));
            };
            case 1: n = "iteration"; return [](world<T>& w) {
                for (const auto& e : *w.a.co)
                    w.out.add(uint64_t(e.index)), w.out.add(uint64_t(e.position));
            };
        }
        n = "copy of a collection";
        return [](world<T>& w) {
            mdds::mtv::collection<T::mtv> k(*w.a.co);
            w.out.add(uint64_t(k.size()));
            for (const auto& e : k)
                w.out.add(uint64_t(e.index));
        };
    }
};
VF_PROPERTY("C38", fault_case<coll_kit>, FAULT_RULE, 1);

// -------------------------------------------------------- delayed_delete_vector
struct ddv_kit : kit_base<mdds::mtv::delayed_delete_vector<std::string>>
{
    using T = mdds::mtv::delayed_delete_vector<std::string>;
    static constexpr const char* name = "delayed_delete_vector";
    static std::unique_ptr<T> make() { return std::make_unique<T>(); }
    static size_t fill(src& c, T& t)
    {
        while (c.more(5))
            t.push_back(text(c));
        size_t n = c.below(3);
        while (n-- && t.size())
            t.erase(t.begin());
        return t.size();
    }
    static std::string read(const T& t)
    {
        std::ostringstream os;
        os << t.size() << ':';
        for (const auto& s : t)
            os << s << ' ';
        return os.str();
    }
    static call<T> draw(src& c, const T& a, const T&, std::string& n, pledge& basic)
    {
        unsigned k = unsigned(c.weighted({4, 4, 1, 1, 3, 3, 2, 2, 2, 2}));
        std::string v = text(c);
        size_t p = c.below(a.size() + 1), m = c.below(8);
        switch (k)
        {
            case 4: n = "push_back"; return [=](world<T>& w) { w.a.push_back(v); };
            case 5:
                n = "insert";
                basic = pledge::valid;
                return [=](world<T>& w) { w.a.insert(w.a.begin() + p, v); };
            case 6:
                n = "resize";
                return [=](world<T>& w) { w.a.resize(m); };
            case 7: n = "reserve"; return [=](world<T>& w) { w.a.reserve(m * 4); };
            case 8: n = "shrink_to_fit"; return [=](world<T>& w) { w.a.shrink_to_fit(); };
            case 9: n = "construction of a range"; return [=](world<T>& w) { w.r.emplace(w.a.begin(), w.a.end()); };
        }
        if (k == 1)
            basic = pledge::valid; // like that of a std::vector
        return ddv_kit::common(k, n);
    }
};
VF_PROPERTY("C38", fault_case<ddv_kit>, FAULT_RULE, 1);
#endif

#if VF_PART == 0
VF_MAIN
#endif
