// trie_map, packed_trie_map and sorted_string_map.
#include "vf.hpp"
#include <mdds/sorted_string_map.hpp>
#include <mdds/trie_map.hpp>
#include <array>
#include <deque>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>

using vf::src;

// a key of 16-bit units that is not a string
struct key16 : std::vector<uint16_t>
{
    using std::vector<uint16_t>::vector;
    key16() = default;
    key16(const uint16_t* p, size_t n) : std::vector<uint16_t>(p, p + n) {}
};
struct keyint : std::vector<int>
{
    using std::vector<int>::vector;
    keyint() = default;
    keyint(const int* p, size_t n) : std::vector<int>(p, p + n) {}
};

struct traits8 : mdds::trie::default_traits
{
    using pack_value_type = uint8_t;
};
struct traits16 : mdds::trie::default_traits
{
    using pack_value_type = uint16_t;
};
struct traits32 : mdds::trie::default_traits
{
    using pack_value_type = uint32_t;
};

template<typename V> struct mk { static V of(int i) { return V(i); } };
template<> struct mk<bool> { static bool of(int i) { return i & 1; } };
template<> struct mk<std::string> { static std::string of(int i) { return i % 23 == 22 ? std::string(size_t(300 + i), char('A' + i % 26)) : i % 7 == 0 ? std::string() : std::string(size_t(i % 40), char('a' + i % 26)) + std::to_string(i); } };
template<typename T> struct mk<std::vector<T>>
{
    static std::vector<T> of(int i)
    {
        std::vector<T> r;
        for (int k = 0, n = i % 23 == 22 ? 300 : i % 5; k < n; ++k)
            r.push_back(T(i * 31 + k));
        return r;
    }
};

template<typename K>
struct key_less
{
    bool operator()(const K& a, const K& b) const { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
};

template<typename K>
std::string show(const K& k)
{
    std::ostringstream os;
    os << "<";
    bool f = true;
    for (auto u : k)
    {
        if (!f)
            os << " ";
        f = false;
        if (std::is_same_v<decltype(u), char> && u >= 'a' && u <= 'z')
            os << char(u);
        else
            os << long(u);
    }
    os << ">";
    return os.str();
}

template<typename K>
std::vector<typename K::value_type> unit_pool()
{
    using u = typename K::value_type;
    return {u('a'), u('b'), u('c'), u(0), std::numeric_limits<u>::max(), std::numeric_limits<u>::min(), u(-1), u(0x80), u('d'), u('e'), u('f'), u(1), u('g')};
}

// generator of keys related to the ones already stored
template<typename K, typename V>
struct keygen
{
    using model_t = std::map<K, V, key_less<K>>;
    using unit = typename K::value_type;
    src& c;
    std::vector<unit> units;
    unsigned avglen;

    explicit keygen(src& c_) : c(c_)
    {
        auto pool = unit_pool<K>();
        static const unsigned ns[] = {1, 2, 3, 5, 13};
        unsigned n = ns[c.below(5)];
        unsigned off = c.below(pool.size());
        for (unsigned i = 0; i < n; ++i)
        {
            unit v = pool[(off + i) % pool.size()];
            if (std::find(units.begin(), units.end(), v) == units.end())
                units.push_back(v);
        }
        static const unsigned ls[] = {2, 4, 9};
        avglen = ls[c.below(3)];
    }
    // keys that share a prefix and differ in the next unit, in more ways than
    // a byte can count
    std::vector<K> fan()
    {
        std::vector<K> r;
        if (!c.chance(1, 40))
            return r;
        VF_COVER(c, "fan of up to 300 keys");
        K p;
        for (unsigned i = c.below(3); i > 0; --i)
            p.push_back(units[c.below(units.size())]);
        unsigned n = 100 + c.below(201), start = c.below(70000);
        for (unsigned i = 0; i < n; ++i)
        {
            K k = p;
            k.push_back(unit(start + i));
            r.push_back(k);
        }
        return r;
    }
    K fresh()
    {
        K k;
        if (c.chance(1, 150))
        {
            // longer than a byte can count
            size_t n = 200 + c.below(400);
            unit u = units[c.below(units.size())];
            while (k.size() < n)
                k.push_back(k.size() % 7 == 3 ? units[0] : u);
            VF_COVER(c, "key of 200 to 600 units");
            return k;
        }
        while (c.more(avglen) && k.size() < 40)
            k.push_back(units[c.below(units.size())]);
        return k;
    }
    K related(const model_t& m)
    {
        if (m.empty() || c.chance(1, 4))
            return fresh();
        auto it = m.begin();
        std::advance(it, c.below(m.size()));
        K k = it->first;
        switch (c.below(4))
        {
            case 0: break; // itself
            case 1:
                if (!k.empty())
                    k.resize(c.below(k.size()));
                break;
            case 2:
            {
                K t = fresh();
                for (auto u : t)
                    k.push_back(u);
                break;
            }
            case 3:
                if (!k.empty())
                    k[c.below(k.size())] = units[c.below(units.size())];
                break;
        }
        return k;
    }
};

template<typename K>
bool starts_with(const K& k, const K& p)
{
    return k.size() >= p.size() && std::equal(p.begin(), p.end(), k.begin());
}

// Checks shared by the plain and the packed container: everything that can be
// observed through the const interface.
template<typename Map, typename K, typename V>
struct observer
{
    using model_t = std::map<K, V, key_less<K>>;
    using entries_t = std::vector<std::pair<K, V>>;
    src& c;
    keygen<K, V>& g;

    template<typename It>
    static void check_entry(It& it, const std::pair<K, V>& want, const char* what)
    {
        VF_CHECK((*it).first == want.first, what << ": key is " << show((*it).first) << ", expected " << show(want.first));
        VF_CHECK(it->first == want.first, what << ": -> key");
        VF_CHECK((*it).second == want.second && it->second == want.second, what << ": value of key " << show(want.first));
    }

    // forward, backward and random walks over a range
    template<typename R>
    void check_range(const R& r, const entries_t& want, const char* what)
    {
        size_t i = 0;
        auto it = r.begin();
        for (; it != r.end(); ++it, ++i)
        {
            VF_CHECK(i < want.size(), what << ": more than " << want.size() << " entries");
            check_entry(it, want[i], what);
        }
        VF_CHECK(i == want.size(), what << ": " << i << " entries instead of " << want.size());
        VF_CHECK(it == r.end() && !(it != r.end()), what << ": end position");
        VF_CHECK((r.begin() == r.end()) == want.empty(), what << ": begin()==end()");
        // back from the position reached by incrementing, and from end()
        for (int pass = 0; pass < 2 && !want.empty(); ++pass)
        {
            auto b = pass ? r.end() : it;
            for (size_t j = want.size(); j-- > 0;)
            {
                if (j % 3 == 0)
                {
                    auto old = b--;
                    VF_CHECK(!(old == b), what << ": post-decrement");
                }
                else
                    --b;
                check_entry(b, want[j], "stepping back");
            }
            VF_CHECK(b == r.begin(), what << ": stepping back does not arrive at begin()");
        }
        if (want.size() >= 2)
        {
            auto w = r.begin();
            size_t p = 0;
            while (c.more(6))
            {
                bool fwd = p == 0 || (p < want.size() && c.coin());
                if (fwd)
                    ++w, ++p;
                else
                    --w, --p;
                if (p < want.size())
                    check_entry(w, want[p], "random walk");
                else
                    VF_CHECK(w == r.end(), what << ": random walk to the end");
            }
        }
    }

    void check_find(const Map& m, const model_t& model, const K& k)
    {
        auto it = m.find(typename Map::key_view_type(k.data(), k.size()));
        auto w = model.find(k);
        VF_CHECK((it == m.end()) == (w == model.end()), "find " << show(k) << (w == model.end() ? " finds an absent key" : " misses a stored key"));
        if (w == model.end())
            return;
        check_entry(it, {w->first, w->second}, "find");
        // continue from the found position in both directions
        auto n = it;
        ++n;
        auto wn = std::next(w);
        VF_CHECK((n == m.end()) == (wn == model.end()), "successor of a found position");
        if (wn != model.end())
            check_entry(n, {wn->first, wn->second}, "successor of a found position");
        if (w != model.begin())
        {
            auto p = it;
            --p;
            auto wp = std::prev(w);
            check_entry(p, {wp->first, wp->second}, "predecessor of a found position");
            ++p;
            VF_CHECK(p == it, "-- then ++ does not return to the found position");
        }
    }

    void check_prefix(const Map& m, const model_t& model, const K& k)
    {
        entries_t want;
        for (auto it = model.lower_bound(k); it != model.end() && starts_with(it->first, k); ++it)
            want.push_back(*it);
        auto r = m.prefix_search(typename Map::key_view_type(k.data(), k.size()));
        check_range(r, want, "prefix search");
        auto r2 = r;
        check_range(r2, want, "copied prefix search results");
        auto r3 = std::move(r2);
        check_range(r3, want, "moved prefix search results");
        r2 = r3;
        check_range(r2, want, "assigned prefix search results");
        if (want.size() >= 2)
            VF_COVER(c, "prefix search with several results");
        if (want.size() && want[0].first.size() == k.size() && want.size() >= 2)
            VF_COVER(c, "prefix search: the prefix itself is stored");
    }

    template<typename N>
    void walk(const N& n, const model_t& model, K& prefix, size_t& visited)
    {
        VF_CHECK(n.valid(), "node of prefix " << show(prefix) << " is not valid");
        auto it = model.lower_bound(prefix);
        bool has_value = it != model.end() && it->first == prefix;
        bool has_child = false;
        for (auto j = it; j != model.end() && starts_with(j->first, prefix); ++j)
            has_child = has_child || j->first.size() > prefix.size();
        VF_CHECK(n.has_value() == has_value, "node of prefix " << show(prefix) << ": has_value() is " << n.has_value());
        VF_CHECK(n.has_child() == has_child, "node of prefix " << show(prefix) << ": has_child() is " << n.has_child());
        if (has_value)
        {
            VF_CHECK(n.value() == it->second, "node of prefix " << show(prefix) << ": value");
            ++visited;
        }
        for (auto u : unit_pool<K>())
        {
            prefix.push_back(u);
            auto j = model.lower_bound(prefix);
            bool exists = j != model.end() && starts_with(j->first, prefix);
            auto ch = n.child(u);
            VF_CHECK(ch.valid() == exists, "child " << show(prefix) << (exists ? " is missing" : " exists but no such key is stored"));
            if (!exists)
                VF_CHECK(!ch.has_child() && !ch.has_value() && !ch.child(u).valid(), "invalid node");
            prefix.pop_back();
        }
        // descend along distinct next units
        std::set<typename K::value_type> next;
        for (auto j = it; j != model.end() && starts_with(j->first, prefix); ++j)
            if (j->first.size() > prefix.size())
                next.insert(j->first[prefix.size()]);
        for (auto u : next)
        {
            prefix.push_back(u);
            auto m = n;
            m = n.child(u);
            walk(m, model, prefix, visited);
            prefix.pop_back();
        }
    }

    void check_nodes(const Map& m, const model_t& model)
    {
        K p;
        size_t visited = 0;
        walk(m.root_node(), model, p, visited);
    }

    void check_all(const Map& m, const model_t& model)
    {
        VF_CHECK(m.size() == model.size(), "size() is " << m.size() << ", expected " << model.size());
        VF_CHECK(m.empty() == model.empty(), "empty() is " << m.empty());
        check_range(m, entries_t(model.begin(), model.end()), "iteration");
        for (auto& [k, v] : model)
        {
            auto it = m.find(typename Map::key_view_type(k.data(), k.size()));
            VF_CHECK(it != m.end(), "stored key " << show(k) << " is not found");
            check_entry(it, {k, v}, "find");
        }
    }

    void probe(const Map& m, const model_t& model)
    {
        K k = g.related(model);
        VF_LOG(c, "probe " << show(k));
        check_find(m, model, k);
        check_prefix(m, model, k);
        if (c.chance(1, 4))
            check_nodes(m, model);
    }
};

// ------------------------------------------------------------- C10 trie_map

template<typename K, typename V>
struct plain_driver
{
    using map_t = mdds::trie_map<K, V>;
    using view = typename map_t::key_view_type;
    using model_t = std::map<K, V, key_less<K>>;
    struct slot
    {
        std::unique_ptr<map_t> t;
        model_t m;
    };
    src& c;
    keygen<K, V> g;
    observer<map_t, K, V> o;
    std::vector<slot> s;
    int next = 1;

    explicit plain_driver(src& c_) : c(c_), g(c_), o{c_, g} {}

    static view vw(const K& k) { return view(k.data(), k.size()); }

    void step(unsigned i)
    {
        slot& x = s[i];
        switch (c.weighted({6, 5, 3, 2, 3}))
        {
            case 0:
            {
                K k = g.related(x.m);
                V v = mk<V>::of(next++);
                VF_LOG(c, "#" << i << " insert " << show(k));
                if (k.empty())
                    VF_COVER(c, "empty key stored");
                if (x.m.count(k))
                    VF_COVER(c, "overwrite");
                x.t->insert(vw(k), v);
                x.m[k] = v;
                break;
            }
            case 1:
            {
                K k = g.related(x.m);
                VF_LOG(c, "#" << i << " erase " << show(k));
                bool want = x.m.erase(k) > 0;
                if (want)
                    VF_COVER(c, "erase of a stored key");
                else
                    VF_COVER(c, "erase of an absent key");
                bool got = x.t->erase(vw(k));
                VF_CHECK(got == want, "erase " << show(k) << " returns " << got);
                break;
            }
            case 2:
            {
                // through mutable iterators
                K k = g.related(x.m);
                VF_LOG(c, "#" << i << " modify through find " << show(k));
                auto it = x.t->find(vw(k));
                auto w = x.m.find(k);
                VF_CHECK((it == x.t->end()) == (w == x.m.end()), "mutable find " << show(k));
                typename map_t::const_iterator cit = it;
                VF_CHECK(cit == it && it == cit, "iterator converts to an equal const_iterator");
                if (w != x.m.end())
                {
                    V v = mk<V>::of(next++);
                    VF_CHECK(it->first == k && it->second == w->second, "mutable find entry");
                    it->second = v;
                    w->second = v;
                }
                if (c.coin())
                {
                    // all values through begin()/end()
                    auto w2 = x.m.begin();
                    for (auto j = x.t->begin(); j != x.t->end(); ++j, ++w2)
                    {
                        VF_CHECK(w2 != x.m.end() && j->first == w2->first && j->second == w2->second, "mutable iteration");
                        V v = mk<V>::of(next++);
                        (*j).second = v;
                        w2->second = v;
                    }
                    VF_CHECK(w2 == x.m.end(), "mutable iteration ends early");
                }
                break;
            }
            case 3:
                if (c.chance(1, 4))
                {
                    VF_LOG(c, "#" << i << " clear");
                    x.t->clear();
                    x.m.clear();
                }
                break;
            case 4:
            {
                unsigned j = c.below(s.size());
                switch (c.below(6))
                {
                    case 0:
                        if (s.size() < 3)
                        {
                            VF_LOG(c, "copy of #" << i);
                            slot z;
                            z.t = std::make_unique<map_t>(*x.t);
                            z.m = x.m;
                            s.push_back(std::move(z));
                        }
                        break;
                    case 1:
                    {
                        VF_LOG(c, "#" << i << " = #" << j);
                        auto m = s[j].m;
                        *s[i].t = *s[j].t;
                        s[i].m = m;
                        break;
                    }
                    case 2:
                    {
                        if (i == j)
                            break;
                        VF_LOG(c, "#" << i << " = move(#" << j << "), clear");
                        *s[i].t = std::move(*s[j].t);
                        s[i].m = s[j].m;
                        s[j].t->clear();
                        s[j].m.clear();
                        break;
                    }
                    case 3:
                        VF_LOG(c, "swap #" << i << " #" << j);
                        s[i].t->swap(*s[j].t);
                        if (i != j)
                            s[i].m.swap(s[j].m);
                        break;
                    case 4:
                    {
                        VF_LOG(c, "move-construct from #" << i);
                        auto t = std::make_unique<map_t>(std::move(*x.t));
                        x.t = std::move(t);
                        break;
                    }
                    case 5:
                    {
                        VF_LOG(c, "rebuild #" << i << " in reverse order");
                        auto t = std::make_unique<map_t>();
                        for (auto it = x.m.rbegin(); it != x.m.rend(); ++it)
                            t->insert(vw(it->first), it->second);
                        VF_CHECK(*t == *x.t && *x.t == *t && !(*t != *x.t), "a map rebuilt from the same entries differs");
                        x.t = std::move(t);
                        break;
                    }
                }
                break;
            }
        }
    }

    void run()
    {
        s.reserve(4);
        s.emplace_back();
        s[0].t = std::make_unique<map_t>();
        static const unsigned lens[] = {5, 15, 40};
        unsigned avg = lens[c.below(3)], ops = 0;
        o.check_all(*s[0].t, s[0].m);
        o.probe(*s[0].t, s[0].m);
        unsigned most = 200;
        for (auto& k : g.fan())
        {
            V v = mk<V>::of(next++);
            s[0].t->insert(vw(k), v);
            s[0].m[k] = v;
            most = 12;
        }
        while (c.more(avg) && ops < most)
        {
            ++ops;
            unsigned i = s.size() > 1 ? c.below(s.size()) : 0;
            step(i);
            o.check_all(*s[i].t, s[i].m);
            if (c.coin())
                o.probe(*s[i].t, s[i].m);
            for (auto& p : s)
                for (auto& q : s)
                    VF_CHECK((*p.t == *q.t) == (p.m == q.m) && (*p.t != *q.t) == (p.m != q.m), "equality is " << (*p.t == *q.t));
        }
        for (auto& x : s)
        {
            o.check_all(*x.t, x.m);
            o.check_nodes(*x.t, x.m);
            o.probe(*x.t, x.m);
        }
        if (s[0].m.size() >= 2 && ops >= 3)
            c.nontrivial();
    }
};

template<typename K, typename V>
void run_plain(src& c)
{
    plain_driver<K, V>(c).run();
}

// --------------------------------------------------------- C11, C12 packed

template<typename K, typename V, typename T>
struct packed_driver
{
    using map_t = mdds::trie_map<K, V, T>;
    using packed_t = typename map_t::packed_type;
    using view = typename map_t::key_view_type;
    using model_t = std::map<K, V, key_less<K>>;
    using pvt = typename T::pack_value_type;
    src& c;
    keygen<K, V> g;
    observer<packed_t, K, V> o;
    int next = 1;
    explicit packed_driver(src& c_) : c(c_), g(c_), o{c_, g} {}

    // number of elements of the packed buffer for this content
    static size_t packed_size(const model_t& m)
    {
        std::set<K, key_less<K>> nodes;
        nodes.insert(K());
        for (auto& e : m)
        {
            K k;
            for (auto u : e.first)
            {
                k.push_back(u);
                nodes.insert(k);
            }
        }
        return 1 + 2 * nodes.size() + 2 * (nodes.size() - 1);
    }
    static bool fits(const model_t& m)
    {
        return sizeof(pvt) > 2 || packed_size(m) < std::numeric_limits<pvt>::max();
    }

    model_t content(unsigned avg)
    {
        model_t m;
        for (auto& k : g.fan())
        {
            m[k] = mk<V>::of(next++);
            if (!fits(m))
            {
                m.erase(k);
                break;
            }
        }
        while (c.more(avg) && m.size() < 400)
        {
            K k = g.related(m);
            V v = mk<V>::of(next++);
            bool had = m.count(k);
            m[k] = v;
            if (!had && !fits(m))
            {
                m.erase(k);
                break;
            }
        }
        return m;
    }

    map_t plain(const model_t& m)
    {
        map_t t;
        for (auto& [k, v] : m)
            t.insert(view(k.data(), k.size()), v);
        return t;
    }

    packed_t build(const model_t& m)
    {
        switch (c.below(4))
        {
            case 0:
            {
                VF_LOG(c, "packed from a trie_map");
                map_t t = plain(m);
                return packed_t(t);
            }
            case 1:
            {
                VF_LOG(c, "pack()");
                map_t t = plain(m);
                return t.pack();
            }
            case 2:
            {
                VF_LOG(c, "packed from a modified trie_map");
                map_t t = plain(m);
                model_t extra;
                while (c.more(3) && extra.size() < 20)
                {
                    K k = g.related(m);
                    if (!m.count(k))
                    {
                        t.insert(view(k.data(), k.size()), mk<V>::of(next++));
                        extra[k];
                    }
                }
                for (auto& [k, v] : extra)
                    VF_CHECK(t.erase(view(k.data(), k.size())), "erase");
                return packed_t(t);
            }
            default:
            {
                VF_LOG(c, "packed from entries");
                std::vector<typename packed_t::entry> es;
                std::vector<const typename model_t::value_type*> order;
                for (auto& e : m)
                    order.push_back(&e);
                if constexpr (std::is_same_v<K, std::string>)
                    if (c.coin())
                        std::sort(order.begin(), order.end(), [](auto* a, auto* b) { return a->first < b->first; });
                for (auto* e : order)
                    es.emplace_back(e->first.data(), e->first.size(), e->second);
                return packed_t(std::span<const typename packed_t::entry>(es));
            }
        }
    }

    struct slot
    {
        std::unique_ptr<packed_t> t;
        model_t m;
    };

    void log(const model_t& m)
    {
        if (c.tracing)
            for (auto& e : m)
                VF_LOG(c, "  key " << show(e.first));
    }

    void run_equiv()
    {
        std::vector<slot> s;
        s.reserve(5);
        static const unsigned lens[] = {3, 10, 40};
        unsigned avg = lens[c.below(3)];
        size_t biggest = 0;
        unsigned ops = 0;
        auto add = [&]() {
            slot z;
            z.m = s.empty() || c.coin() ? content(avg) : s[0].m;
            log(z.m);
            z.t = std::make_unique<packed_t>(build(z.m));
            biggest = std::max(biggest, z.m.size());
            s.push_back(std::move(z));
        };
        if (c.chance(1, 6))
        {
            VF_LOG(c, "default-constructed");
            slot z;
            z.t = std::make_unique<packed_t>();
            s.push_back(std::move(z));
        }
        add();
        do
        {
            unsigned i = c.below(s.size()), j = c.below(s.size());
            ++ops;
            switch (c.below(7))
            {
                case 0:
                    if (s.size() < 4)
                        add();
                    break;
                case 1:
                    if (s.size() < 4)
                    {
                        VF_LOG(c, "copy of #" << i);
                        slot z;
                        z.t = std::make_unique<packed_t>(*s[i].t);
                        z.m = s[i].m;
                        s.push_back(std::move(z));
                    }
                    break;
                case 2:
                {
                    VF_LOG(c, "#" << i << " = #" << j);
                    auto m = s[j].m;
                    *s[i].t = *s[j].t;
                    s[i].m = m;
                    break;
                }
                case 3:
                {
                    if (i == j)
                        break;
                    VF_LOG(c, "#" << i << " = move(#" << j << ")");
                    *s[i].t = std::move(*s[j].t);
                    s[i].m = s[j].m;
                    s[j].m.clear();
                    break;
                }
                case 4:
                    VF_LOG(c, "swap #" << i << " #" << j);
                    s[i].t->swap(*s[j].t);
                    if (i != j)
                        s[i].m.swap(s[j].m);
                    break;
                case 5:
                {
                    VF_LOG(c, "move-construct from #" << i);
                    auto t = std::make_unique<packed_t>(std::move(*s[i].t));
                    o.check_all(*s[i].t, model_t());
                    o.check_nodes(*s[i].t, model_t());
                    *s[i].t = packed_t(*s[i].t);
                    o.check_nodes(*s[i].t, model_t());
                    s[i].t = std::move(t);
                    break;
                }
                case 6:
                    if (s.size() > 1)
                    {
                        VF_LOG(c, "destroy #" << i);
                        s.erase(s.begin() + i);
                    }
                    break;
            }
            for (auto& x : s)
            {
                o.check_all(*x.t, x.m);
                o.probe(*x.t, x.m);
                VF_CHECK(x.t->cbegin() == x.t->begin() && x.t->cend() == x.t->end(), "cbegin/cend");
            }
            for (auto& p : s)
                for (auto& q : s)
                    VF_CHECK((*p.t == *q.t) == (p.m == q.m) && (*p.t != *q.t) == (p.m != q.m), "equality is " << (*p.t == *q.t));
        } while (c.more(4) && ops < 40);
        for (auto& x : s)
            o.check_nodes(*x.t, x.m);
        if (biggest >= 2)
            c.nontrivial();
    }

    // ---- serialization
    template<typename V2, typename T2>
    void check_mismatch(const std::string& bytes)
    {
        using other_t = mdds::packed_trie_map<K, V2, T2>;
        mdds::trie_map<K, V2, T2> t;
        K k;
        k.push_back(g.units[0]);
        t.insert(view(k.data(), k.size()), mk<V2>::of(3));
        other_t q = t.pack();
        other_t before(q);
        std::istringstream is(bytes);
        bool threw = false;
        try
        {
            q.load_state(is);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        VF_CHECK(threw, "a state saved for another value or unit size is accepted");
        VF_CHECK(q == before, "rejecting a mismatched state changes the map");
    }

    void run_state()
    {
        static const unsigned lens[] = {2, 8, 30};
        unsigned avg = lens[c.below(3)];
        model_t m = content(avg), m2 = content(avg);
        log(m);
        packed_t p = build(m), p2 = build(m2);
        std::ostringstream os;
        std::string head;
        if (c.coin())
            head = "xyz";
        os << head;
        p.save_state(os);
        size_t end1 = size_t(os.tellp());
        p2.save_state(os);
        std::string bytes = os.str();
        VF_CHECK(end1 <= bytes.size(), "stream position");
        // two states one after another in the same stream
        packed_t q, q2;
        bool fresh = c.coin();
        if (!fresh)
            q = p2, q2 = p;
        {
            std::istringstream is(bytes);
            is.ignore(std::streamsize(head.size()));
            q.load_state(is);
            VF_CHECK(size_t(is.tellg()) == end1, "loading consumes " << is.tellg() << " bytes instead of " << end1);
            q2.load_state(is);
        }
        o.check_all(q, m);
        o.check_all(q2, m2);
        o.probe(q, m);
        o.check_nodes(q, m);
        VF_CHECK(q == p && q2 == p2, "loaded map differs from the saved one");
        {
            std::ostringstream os2;
            q.save_state(os2);
            VF_CHECK(os2.str() == bytes.substr(head.size(), end1 - head.size()), "saving the loaded map yields other bytes");
        }
        // copies of loaded maps
        packed_t r(q);
        o.check_all(r, m);
        // every kind of premature end is rejected and leaves the target as it was
        std::string one = bytes.substr(head.size(), end1 - head.size());
        unsigned tries = 0;
        do
        {
            size_t cut = one.size() <= 64 || c.coin() ? c.below(one.size()) : one.size() - 1 - c.below(64);
            VF_LOG(c, "truncate to " << cut << " of " << one.size() << " bytes");
            std::istringstream is(one.substr(0, cut));
            bool threw = false;
            try
            {
                q2.load_state(is);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            VF_CHECK(threw, "a stream truncated to " << cut << " of " << one.size() << " bytes is accepted");
            o.check_all(q2, m2);
            ++tries;
        } while (c.more(4) && tries < 20);
        // broken check bytes and size tags
        {
            std::string bad = one;
            static const char* what[] = {"end-of-blob marker", "flags"};
            unsigned w = c.below(2);
            if (w == 0)
                bad.back() = char(bad.back() ^ (1 << c.below(8)));
            else
                bad[0] = char(bad[0] ^ 1);
            std::istringstream is(bad);
            bool threw = false;
            try
            {
                q2.load_state(is);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            VF_CHECK(threw, "a state with a broken " << what[w] << " is accepted");
            o.check_all(q2, m2);
        }
        switch (c.below(3))
        {
            case 0:
                if constexpr (std::is_arithmetic_v<V>)
                    check_mismatch<std::string, T>(one);
                else
                    check_mismatch<int, T>(one);
                break;
            case 1:
                if constexpr (std::is_arithmetic_v<V>)
                    check_mismatch<std::conditional_t<sizeof(V) == 8, int16_t, int64_t>, T>(one);
                break;
            case 2: check_mismatch<V, std::conditional_t<sizeof(pvt) == 4, mdds::trie::default_traits, traits32>>(one); break;
        }
        if (m.size() >= 2)
            c.nontrivial();
    }
};

template<typename K, typename V, typename T = mdds::trie::default_traits>
void run_equiv(src& c)
{
    packed_driver<K, V, T>(c).run_equiv();
}
template<typename K, typename V, typename T = mdds::trie::default_traits>
void run_state(src& c)
{
    packed_driver<K, V, T>(c).run_state();
}

// --------------------------------------------------- C13 sorted_string_map

enum class color { none, red, green, blue };
template<> struct mk<color> { static color of(int i) { return color(1 + i % 3); } };

template<typename V, template<typename> class F>
void run_ssmap(src& c)
{
    using map_t = mdds::sorted_string_map<V, F>;
    using entry = typename map_t::entry_type;
    keygen<std::string, V> g(c);
    std::map<std::string, V> m; // std::string order is what sorted_string_map asks for
    std::map<std::string, V, key_less<std::string>> shadow;
    static const unsigned lens[] = {2, 8, 40};
    unsigned avg = lens[c.below(3)];
    bool dupvalues = c.coin();
    int next = 1;
    for (auto& k : g.fan())
        m[k] = shadow[k] = mk<V>::of(dupvalues ? int(c.below(4)) + 1 : next++);
    while (c.more(avg) && m.size() < 500)
    {
        std::string k = g.related(shadow);
        V v = mk<V>::of(dupvalues ? int(c.below(4)) + 1 : next++);
        m[k] = v;
        shadow[k] = v;
    }
    std::vector<entry> es;
    std::deque<std::string> keep;
    for (auto& [k, v] : m)
    {
        keep.push_back(k);
        es.push_back(entry{keep.back(), v});
        VF_LOG(c, "entry " << show(k));
    }
    V null_value = mk<V>::of(0);
    map_t x(std::span<const entry>(es.data(), es.size()), null_value);
    VF_CHECK(x.size() == m.size(), "size() is " << x.size());
    for (auto& e : es)
    {
        const V& r = x.find(e.key);
        VF_CHECK(&r == &e.value, "find " << show(e.key) << " does not yield its entry");
    }
    unsigned n = 0;
    while (c.more(8) && n++ < 60)
    {
        std::string k = g.related(shadow);
        auto it = m.find(k);
        const V& r = x.find(std::string_view(k));
        VF_LOG(c, "find " << show(k));
        if (it == m.end())
        {
            VF_CHECK(r == null_value, "find of the absent key " << show(k) << " yields something else than the null value");
            for (auto& e : es)
                VF_CHECK(&r != &e.value, "find of an absent key refers to an entry");
            VF_COVER(c, "absent key");
        }
        else
            VF_CHECK(r == it->second, "find " << show(k));
    }
    std::vector<V> probes;
    for (auto& e : es)
        probes.push_back(e.value);
    for (int i = 0; i < 5; ++i)
        probes.push_back(mk<V>::of(i * 7919));
    for (auto& v : probes)
    {
        bool any = false, match = false;
        auto k = x.find_key(v);
        for (auto& e : es)
            if (e.value == v)
            {
                any = true;
                match = match || e.key == k;
            }
        if (any)
            VF_CHECK(match, "find_key returns " << show(k) << ", which is not mapped to the value");
        else
            VF_CHECK(k.empty(), "find_key of an absent value returns " << show(k));
    }
    if (m.size() >= 2)
        c.nontrivial();
}

inline void run_sorted(src& c)
{
    switch (c.below(6))
    {
        case 0: run_ssmap<int, mdds::ssmap::linear_key_finder>(c); break;
        case 1: run_ssmap<int, mdds::ssmap::hash_key_finder>(c); break;
        case 2: run_ssmap<std::string, mdds::ssmap::linear_key_finder>(c); break;
        case 3: run_ssmap<std::string, mdds::ssmap::hash_key_finder>(c); break;
        case 4: run_ssmap<color, mdds::ssmap::linear_key_finder>(c); break;
        case 5: run_ssmap<color, mdds::ssmap::hash_key_finder>(c); break;
    }
}

// Maps whose packed form has more than 2^16 units, or more than 2^16 values.
struct large_map
{
    std::map<std::string, int> m;
    static uint64_t next(uint64_t& s) { return s = vf::mix64(s + 1); }

    explicit large_map(src& c)
    {
        unsigned how = c.chance(1, 60) ? 2 + c.below(3) : c.below(2);
        uint64_t s = c.below(1u << 30);
        size_t n, len;
        unsigned letters;
        switch (how)
        {
            case 0: n = 1 + c.below(20), len = 1 + c.below(100), letters = 2 + c.below(4); break;
            case 1: n = 1 + c.below(150), len = 1 + c.below(5), letters = 128; break;
            case 2: n = 20 + c.below(40), len = 900, letters = 3; break;       // long keys
            case 3: n = 6000 + c.below(2000), len = 7, letters = 20; break;    // many nodes
            default: n = 66000 + c.below(1000), len = 4, letters = 40; break;  // many values
        }
        VF_LOG(c, n << " keys of up to " << len << " of " << letters << " letters, seed " << s);
        for (size_t i = 0; i < n || (how == 4 && m.size() <= 65600); ++i)
        {
            std::string k;
            if (!m.empty() && next(s) % 4 == 0) // share a prefix with the first key
                k = m.begin()->first.substr(0, next(s) % (m.begin()->first.size() + 1));
            while (k.size() < len && (k.size() < len / 2 || next(s) % 8))
                k.push_back(char(next(s) % letters));
            m[k] = int(i);
        }
        if (how >= 2)
            VF_COVER(c, how == 4 ? "more than 2^16 values" : how == 3 ? "some 10^4 nodes" : "keys of 900 units");
    }
    template<typename P>
    void compare(const P& p, uint64_t s, const char* what) const
    {
        VF_CHECK(p.size() == m.size(), what << ": size is " << p.size() << ", not " << m.size());
        auto it = m.begin();
        size_t n = 0;
        for (const auto& e : p)
        {
            VF_CHECK(it != m.end() && e.first == it->first && e.second == it->second, what << ": entry " << n << " of the iteration is wrong");
            ++it, ++n;
        }
        VF_CHECK(it == m.end(), what << ": the iteration ends after " << n << " of " << m.size() << " entries");
        for (unsigned i = 0; i < 40 && !m.empty(); ++i)
        {
            auto k = m.lower_bound(std::string(1, char(next(s))));
            for (unsigned step = unsigned(next(s) % 20); k != m.end() && step; --step)
                ++k;
            if (k == m.end())
                k = std::prev(m.end());
            auto f = p.find(k->first);
            VF_CHECK(f != p.end() && f->first == k->first && f->second == k->second, what << ": find()");
            std::string other = k->first;
            if (next(s) % 2 && !other.empty())
                other.back() = char(next(s));
            else
                other.push_back(char(next(s) % 4));
            auto o = m.find(other);
            auto g = p.find(other);
            VF_CHECK((g == p.end()) == (o == m.end()) && (o == m.end() || g->second == o->second), what << ": find() of a neighbouring key");
            std::string pre = k->first.substr(0, next(s) % (k->first.size() + 1));
            auto b = m.lower_bound(pre);
            size_t cnt = 0;
            for (const auto& e : p.prefix_search(pre))
            {
                VF_CHECK(b != m.end() && e.first == b->first && e.second == b->second, what << ": a prefix search finds another entry");
                ++b;
                if (++cnt == 300)
                    break;
            }
            VF_CHECK(cnt == 300 || b == m.end() || b->first.compare(0, pre.size(), pre) != 0, what << ": a prefix search misses entries");
        }
    }
};
template<bool State>
void run_large(src& c)
{
    using M = mdds::trie_map<std::string, int>;
    large_map l(c);
    M t;
    for (auto& [k, v] : l.m)
        t.insert(k, v);
    uint64_t s = c.below(1u << 30);
    const M::packed_type copied(std::as_const(t));
    auto p = t.pack();
    if (l.m.size() >= 2)
        c.nontrivial();
    VF_CHECK(copied == p, "the map packed by copying is not equal to the one packed by moving");
    if (State)
    {
        std::stringstream ss;
        p.save_state(ss);
        M::packed_type q;
        q.load_state(ss);
        VF_CHECK(q == p, "the loaded map is not equal to the saved one");
        l.compare(q, s, "loaded map");
        return;
    }
    l.compare(copied, s, "packed map");
    M::packed_type q(p);
    VF_CHECK(q == p, "a copy is not equal");
    l.compare(q, s, "copy");
    t.clear();
    std::vector<M::packed_type::entry> es;
    for (auto& [k, v] : l.m)
        es.emplace_back(k.data(), k.size(), v);
    M::packed_type r(es.data(), es.size());
    VF_CHECK(r == p, "a map built of sorted entries is not equal to the packed one");
    l.compare(r, s, "map built of sorted entries");
}

#if VF_FOR(10)
#define RULE \
    "histories of insert/overwrite/erase/find/modify/clear/copy/move/swap on keys that are prefixes, extensions and mutations of each other (5 key/value type pairs, units incl. 0 and extremes), compared with an ordered map after every step; non-trivial: at least 2 keys stored at the end and 3 operations"
#if VF_IN(0)
VF_PROPERTY("C10", (run_plain<std::string, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C10", (run_plain<std::string, std::string>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C10", (run_plain<key16, std::string>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C10", (run_plain<keyint, int>), RULE);
#endif
#if VF_IN(4)
VF_PROPERTY("C10", (run_plain<std::u16string, std::vector<int>>), RULE);
#endif
#undef RULE
#endif

#if VF_FOR(11)
#define RULE \
    "packed maps built four ways from generated contents (6 type combinations), then copied, moved, swapped and assigned in a pool; every observation compared with an ordered map; non-trivial: some content has at least 2 keys"
#if VF_IN(0)
VF_PROPERTY("C11", (run_equiv<std::string, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C11", (run_equiv<std::string, std::string, traits16>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C11", (run_equiv<std::string, int, traits8>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C11", (run_equiv<key16, std::string>), RULE);
#endif
#if VF_IN(4)
VF_PROPERTY("C11", (run_equiv<keyint, int, traits32>), RULE);
#endif
#if VF_IN(5)
VF_PROPERTY("C11", (run_equiv<std::u16string, std::vector<int>>), RULE);
VF_PROPERTY("C11", run_large<false>, "large maps: up to 20 long keys or 150 short ones, sometimes keys of 900 units, 8000 keys or more than 2^16 values, compared with an ordered map by iteration, lookups and prefix searches; non-trivial: at least 2 keys");
#endif
#undef RULE
#endif

#if VF_FOR(12)
#define RULE \
    "contents saved and loaded back (two states per stream, 7 type combinations), truncated at random points, with broken markers, and read with mismatched types; non-trivial: at least 2 keys saved"
#if VF_IN(0)
VF_PROPERTY("C12", (run_state<std::string, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C12", (run_state<std::string, std::string>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C12", (run_state<std::string, std::vector<int16_t>, traits16>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C12", (run_state<std::string, double, traits8>), RULE);
#endif
#if VF_IN(4)
VF_PROPERTY("C12", (run_state<key16, bool, traits32>), RULE);
#endif
#if VF_IN(5)
VF_PROPERTY("C12", (run_state<keyint, std::vector<double>>), RULE);
VF_PROPERTY("C12", run_large<true>, "large maps: up to 20 long keys or 150 short ones, sometimes keys of 900 units, 8000 keys or more than 2^16 values, compared with an ordered map by iteration, lookups and prefix searches; non-trivial: at least 2 keys");
#endif
#if VF_IN(6)
VF_PROPERTY("C12", (run_state<std::u16string, std::string, traits32>), RULE);
#endif
#undef RULE
#endif

#if VF_FOR(13)
VF_PROPERTY("C13", run_sorted, "random sorted entry tables with related keys, all lookups and reverse lookups compared with a linear scan; non-trivial: at least 2 entries");
#endif

// ---------------------------------------------------------------- findings

#if VF_FOR(11) && VF_PART == 0
// packed_trie_map with a small pack_value_type: the offsets are stored
// truncated when the packed buffer outgrows the type.
static bool finding_truncated_offsets()
{
    mdds::trie_map<std::string, int, traits8> t;
    for (int i = 1; i < 200; ++i)
        t.insert(std::to_string(i), i);
    std::ostringstream os;
    try
    {
        t.pack().save_state(os);
    }
    catch (const mdds::size_error&)
    {
        return false; // would be a proper report
    }
    std::string b = os.str();
    // flags 2, count 4, value size 4, 199 values, marker, unit size 1, element count 8, elements
    size_t at = 2 + 4 + 4 + 199 * sizeof(int) + 1 + 1;
    uint64_t n = 0;
    memcpy(&n, b.data() + at, 8);
    size_t root = uint8_t(b[at + 8]);
    // the root node is the last one; it has 9 children
    return root + 2 + 18 != n;
}
static int reg_findings = (vf::findings().push_back({"C11", "packed_trie_map<.., pack_value_type=uint8_t> built from 199 short keys stores truncated node offsets instead of throwing size_error", finding_truncated_offsets}), 0);
#endif

VF_MAIN
