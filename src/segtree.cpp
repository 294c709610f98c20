// segment_tree: stabbing queries against a brute-force list of segments.
#include "vf.hpp"
#include <mdds/segment_tree.hpp>
#include <limits>
#include <list>
#include <memory>
#include <string>

using vf::src;

template<typename V> V mkv(int i);
template<> inline int mkv<int>(int i) { return i - 2; }
template<> inline std::string mkv<std::string>(int i) { return i == 0 ? std::string() : std::string(size_t(i * 9), char('a' + i)); }
static int s_objs[16];
template<> inline int* mkv<int*>(int i) { return i == 0 ? nullptr : &s_objs[i]; }

enum focus { F_STAB, F_VALUE };

template<typename K, typename V>
struct driver
{
    using tree_t = mdds::segment_tree<K, V>;
    struct seg
    {
        K s, e;
        int v;
        bool operator<(const seg& o) const { return std::tie(s, e, v) < std::tie(o.s, o.e, o.v); }
        bool operator==(const seg& o) const { return s == o.s && e == o.e && v == o.v; }
    };
    struct slot
    {
        std::unique_ptr<tree_t> t;
        std::vector<seg> m;
        bool valid = false;
        bool live = true;
    };
    src& c;
    focus f;
    std::vector<slot> s;
    int range, nv;
    unsigned searches_hit = 0, erased = 0;

    driver(src& c_, focus f_) : c(c_), f(f_)
    {
        static const int rs[] = {4, 12, 40, 200};
        range = rs[c.below(4)];
        many = c.chance(1, 50);
        if (many)
            range = 300 + int(c.below(400));
        nv = 2 + int(c.below(8));
        if (c.chance(1, 5))
        {
            extreme = 1 + c.below(3);
            VF_COVER(c, "keys at the limits of the type");
            VF_LOG(c, "extreme keys, mode " << extreme);
        }
    }

    unsigned extreme = 0;
    bool many = false;
    // i: -2 .. range + 1
    K key(int i) const
    {
        using lim = std::numeric_limits<K>;
        if constexpr (std::is_floating_point_v<K>)
        {
            if (extreme == 1 && i <= 0)
                return i == 0 ? lim::lowest() : -lim::infinity();
            if (extreme && i >= range)
                return i == range ? lim::max() : lim::infinity();
            if (extreme == 3)
                return i * lim::denorm_min();
            return K(i - range / 3) * K(0.5);
        }
        else
        {
            __int128 lo = lim::min(), hi = lim::max();
            switch (extreme)
            {
                case 1: return K(lo + i + 2);
                case 2: return K(hi - range - 1 + i);
                case 3: return K(lo + (hi - lo) / (range + 3) * (i + 2));
            }
            return K(i - range / 3);
        }
    }
    int probe_key() { return int(c.below(range + 4)) - 2; }

    static std::string show(const std::vector<seg>& m)
    {
        std::ostringstream os;
        for (auto& x : m)
            os << "[" << +x.s << "," << +x.e << ")=v" << x.v << " ";
        return os.str();
    }

    int value_index(const V& v)
    {
        for (int i = 0; i < nv; ++i)
            if (v == mkv<V>(i))
                return i;
        VF_FAIL("a search returned a value that was never inserted");
    }

    std::vector<seg> sorted(std::vector<seg> v)
    {
        std::sort(v.begin(), v.end());
        return v;
    }

    // all results of a search, checking the iterator protocol on the way
    std::vector<seg> collect(const typename tree_t::search_results& r)
    {
        std::vector<seg> out;
        auto it = r.begin(), ite = r.end();
        size_t n = r.size();
        VF_CHECK(r.empty() == (n == 0), "empty() and size() disagree");
        VF_CHECK((it == ite) == (n == 0), "begin()==end() and size() disagree");
        for (; it != ite; ++it)
        {
            VF_CHECK(out.size() < n, "iteration yields more than size() results");
            out.push_back({it->start, it->end, value_index((*it).value)});
        }
        VF_CHECK(out.size() == n, "iteration yields " << out.size() << " of size() = " << n);
        // and backwards from end
        auto b = r.end();
        for (size_t i = out.size(); i-- > 0;)
        {
            --b;
            seg q{b->start, b->end, value_index(b->value)};
            VF_CHECK(q == out[i], "backward iteration differs at " << i);
        }
        VF_CHECK(b == r.begin(), "backward iteration does not arrive at begin");
        // direction changes at a random place
        if (n >= 2)
        {
            size_t k = c.below(n);
            auto z = r.begin();
            for (size_t i = 0; i < k; ++i)
                ++z;
            if (k + 1 < n)
            {
                ++z;
                --z;
            }
            else
            {
                ++z;
                VF_CHECK(z == r.end(), "stepping past the last result is not end");
                --z;
            }
            seg q{z->start, z->end, value_index(z->value)};
            VF_CHECK(q == out[k], "++/-- does not return to result " << k);
        }
        return out;
    }

    std::vector<seg> expect_at(const slot& x, K p)
    {
        std::vector<seg> r;
        for (auto& g : x.m)
            if (g.s <= p && p < g.e)
                r.push_back(g);
        return r;
    }

    void check_point(slot& x, K p)
    {
        auto r = x.t->search(p);
        auto got = sorted(collect(r));
        std::vector<seg> want;
        if (x.valid)
            want = sorted(expect_at(x, p));
        VF_CHECK(got == want, "search(" << +p << ") = " << show(got) << " expected " << show(want) << (x.valid ? "" : "(tree not built)"));
        if (!want.empty())
            ++searches_hit;
        // results may be copied and outlive the original
        auto r2 = r;
        VF_CHECK(r2.size() == r.size(), "copied results differ in size");
    }

    void check_stats(slot& x)
    {
        VF_CHECK(x.t->size() == x.m.size(), "size() = " << x.t->size() << ", stored " << x.m.size());
        VF_CHECK(x.t->empty() == x.m.empty(), "empty()");
        VF_CHECK(x.t->valid_tree() == x.valid, "valid_tree() = " << x.t->valid_tree());
        std::vector<K> keys;
        for (auto& g : x.m)
            keys.push_back(g.s), keys.push_back(g.e);
        std::sort(keys.begin(), keys.end());
        keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
        VF_CHECK(x.t->boundary_keys() == keys, "boundary_keys()");
    }

    void full_check(slot& x)
    {
        check_stats(x);
        for (int i = -2; i < range + 2; i += (range > 40 ? 3 : 1))
            check_point(x, key(i));
        if (std::is_floating_point_v<K>)
            for (int i = -2; i < range + 2; i += 5)
                check_point(x, key(i) + K(0.25));
        // the stored set, read through a predicate that erases nothing
        std::vector<seg> got;
        size_t n = x.t->erase_if([&](const K& a, const K& b, const V& v) {
            got.push_back({a, b, value_index(v)});
            return false;
        });
        VF_CHECK(n == 0, "erase_if with a false predicate reports removals");
        VF_CHECK(sorted(got) == sorted(x.m), "stored segments " << show(sorted(got)) << " expected " << show(sorted(x.m)));
    }

    void op_insert(slot& x)
    {
        int a = int(c.below(range)), l;
        switch (c.below(4))
        {
            case 0: l = 1; break;
            case 1: l = 1 + int(c.below(3)); break;
            default: l = 1 + int(c.below(range)); break;
        }
        int b = std::min(a + l, range + 1);
        int v = int(c.below(nv));
        if (c.chance(1, 20))
        {
            VF_LOG(c, "insert [" << +key(b) << "," << +key(a) << ") rejected");
            bool threw = false;
            try
            {
                x.t->insert(key(c.coin() ? b : a), key(a), mkv<V>(v));
            }
            catch (const std::invalid_argument&)
            {
                threw = true;
            }
            VF_CHECK(threw, "an empty or reversed interval was accepted");
            return;
        }
        if (!x.m.empty() && c.chance(1, 6))
        {
            // an exact duplicate of a stored segment
            auto g = x.m[c.below(x.m.size())];
            VF_LOG(c, "insert duplicate [" << +g.s << "," << +g.e << ")=v" << g.v);
            x.t->insert(g.s, g.e, mkv<V>(g.v));
            x.m.push_back(g);
            x.valid = false;
            VF_COVER(c, "duplicate segment");
            return;
        }
        VF_LOG(c, "insert [" << +key(a) << "," << +key(b) << ")=v" << v);
        x.t->insert(key(a), key(b), mkv<V>(v));
        x.m.push_back({key(a), key(b), v});
        x.valid = false;
    }

    void remove_one(slot& x, const seg& g)
    {
        auto it = std::find(x.m.begin(), x.m.end(), g);
        VF_CHECK(it != x.m.end(), "model lost a segment");
        x.m.erase(it);
    }

    void op_erase_at(slot& x)
    {
        if (!x.valid || x.m.empty())
            return;
        K p;
        if (c.coin())
            p = x.m[c.below(x.m.size())].s;
        else
            p = key(probe_key());
        auto r = x.t->search(p);
        if (r.empty())
            return;
        size_t k = c.below(r.size());
        auto it = r.begin();
        for (size_t i = 0; i < k; ++i)
            ++it;
        seg g{it->start, it->end, value_index(it->value)};
        VF_LOG(c, "erase result " << k << " of search(" << +p << "): [" << +g.s << "," << +g.e << ")=v" << g.v);
        x.t->erase(it);
        remove_one(x, g);
        ++erased;
        VF_COVER(c, "erase through a search result");
    }

    void op_erase_if(slot& x)
    {
        unsigned how = c.below(3);
        int v = int(c.below(nv));
        K lo = key(int(c.below(range)));
        auto pred = [&](const seg& g) {
            switch (how)
            {
                case 0: return g.v == v;
                case 1: return g.s == lo;
                default: return g.e <= lo && g.v != v;
            }
        };
        VF_LOG(c, "erase_if how=" << how << " v" << v << " key " << +lo);
        size_t n = x.t->erase_if([&](const K& a, const K& b, const V& val) { return pred(seg{a, b, value_index(val)}); });
        size_t m = x.m.size();
        x.m.erase(std::remove_if(x.m.begin(), x.m.end(), pred), x.m.end());
        VF_CHECK(n == m - x.m.size(), "erase_if reports " << n << " removals, expected " << m - x.m.size());
        if (n)
            ++erased;
    }

    void build(slot& x)
    {
        VF_LOG(c, "build_tree");
        x.t->build_tree();
        x.valid = !x.m.empty();
        if (x.m.empty())
            VF_CHECK(!x.t->valid_tree() || x.t->search(key(0)).empty(), "empty tree");
        x.valid = x.t->valid_tree();
        VF_CHECK(x.valid || x.m.empty(), "build_tree left the tree invalid");
        VF_CHECK(x.t->leaf_size() == x.t->boundary_keys().size(), "leaf_size() = " << x.t->leaf_size() << " after build");
    }

    void eq_all()
    {
        for (auto& p : s)
            for (auto& q : s)
            {
                if (!p.live || !q.live)
                    continue;
                // the existing tests pin that a built and an unbuilt tree differ
                bool want = p.valid == q.valid && sorted(p.m) == sorted(q.m);
                VF_CHECK((*p.t == *q.t) == want, "equality of {" << show(p.m) << "} and {" << show(q.m) << "} is " << !want << " (built: " << p.valid << "," << q.valid << ")");
                VF_CHECK((*p.t != *q.t) == !want, "inequality");
                if (want && &p != &q && !p.m.empty())
                    VF_COVER(c, "equal non-empty pair");
            }
    }

    void op_value(unsigned i)
    {
        unsigned j = c.below(s.size());
        switch (c.below(8))
        {
            case 0:
            {
                if (s.size() >= 4 || !s[i].live)
                    return;
                VF_LOG(c, "copy-construct from #" << i);
                slot z;
                z.m = s[i].m;
                z.valid = s[i].valid && !s[i].m.empty();
                z.t = std::make_unique<tree_t>(*s[i].t);
                if (s[i].m.empty())
                    z.valid = z.t->valid_tree();
                s.push_back(std::move(z));
                VF_COVER(c, "copy construct");
                break;
            }
            case 1:
            {
                VF_LOG(c, "move-construct from #" << i);
                auto nt = std::make_unique<tree_t>(std::move(*s[i].t));
                // the moved-from tree stays usable after a clear and answers no query from stale nodes
                auto old = std::move(s[i].t);
                s[i].t = std::move(nt);
                if (c.coin())
                {
                    VF_CHECK(old->search(key(probe_key())).empty(), "a moved-from tree answers queries");
                    old->clear();
                    VF_CHECK(old->empty() && old->size() == 0, "cleared moved-from tree is not empty");
                    old->insert(key(0), key(2), mkv<V>(1));
                    old->build_tree();
                    VF_CHECK(old->search(key(1)).size() == 1, "re-used moved-from tree");
                }
                VF_COVER(c, "move construct");
                break;
            }
            case 2:
            {
                VF_LOG(c, "#" << i << " = #" << j);
                auto m = s[j].m;
                bool v = s[j].valid && !m.empty();
                auto& rr = (*s[i].t = *s[j].t);
                VF_CHECK(&rr == s[i].t.get(), "assignment result");
                s[i].m = m;
                s[i].valid = m.empty() ? s[i].t->valid_tree() : v;
                VF_COVER(c, "copy assign");
                break;
            }
            case 3:
            {
                if (i == j)
                    return;
                VF_LOG(c, "#" << i << " = std::move(#" << j << ")");
                *s[i].t = std::move(*s[j].t);
                s[i].m = s[j].m;
                s[i].valid = s[j].valid;
                // give the moved-from object a definite state again
                if (c.coin())
                    s[j].t->clear();
                else
                    *s[j].t = tree_t();
                s[j].m.clear();
                s[j].valid = false;
                VF_COVER(c, "move assign");
                break;
            }
            case 4:
            case 5:
                VF_LOG(c, "swap #" << i << " #" << j);
                s[i].t->swap(*s[j].t);
                std::swap(s[i].m, s[j].m);
                std::swap(s[i].valid, s[j].valid);
                VF_COVER(c, "swap");
                break;
            case 6:
                if (s.size() < 4)
                {
                    // the same segments inserted in another order
                    VF_LOG(c, "rebuild #" << i << " in reverse order");
                    slot z;
                    z.t = std::make_unique<tree_t>();
                    for (size_t k = s[i].m.size(); k-- > 0;)
                    {
                        auto& g = s[i].m[k];
                        z.t->insert(g.s, g.e, mkv<V>(g.v));
                        z.m.push_back(g);
                    }
                    s.push_back(std::move(z));
                }
                break;
            case 7:
                if (s.size() > 1)
                    s.pop_back();
                break;
        }
    }

    void run()
    {
        s.reserve(8);
        s.emplace_back();
        s.back().t = std::make_unique<tree_t>();
        if (f == F_VALUE)
        {
            s.emplace_back();
            s.back().t = std::make_unique<tree_t>();
        }
        static const unsigned lens[] = {5, 15, 40};
        unsigned avg = lens[c.below(3)], ops = 0;
        // a first batch of segments
        while (c.more(avg / 2) && s[0].m.size() < 60)
            op_insert(s[0]);
        if (many)
        {
            VF_COVER(c, "up to 400 more segments");
            for (unsigned n = c.below(400); n > 0; --n)
                op_insert(s[0]);
            avg = 5;
        }
        if (c.coin())
            build(s[0]);
        while (c.more(avg) && ops < 150)
        {
            ++ops;
            unsigned i = s.size() > 1 ? c.below(s.size()) : 0;
            if (s.size() > 1)
                VF_LOG(c, "#" << i << ":");
            slot& x = s[i];
            unsigned op = f == F_STAB ? c.weighted({5, 3, 1, 4, 1, 0}) : c.weighted({4, 2, 1, 2, 1, 6});
            switch (op)
            {
                case 0: op_insert(x); break;
                case 1: op_erase_at(x); break;
                case 2: op_erase_if(x); break;
                case 3: build(x); break;
                case 4:
                    if (c.chance(1, 3))
                    {
                        VF_LOG(c, "clear");
                        x.t->clear();
                        x.m.clear();
                        x.valid = false;
                    }
                    break;
                case 5: op_value(i); break;
            }
            if (f == F_STAB)
            {
                check_stats(x);
                K p = key(probe_key());
                VF_LOG(c, "search " << +p);
                check_point(x, p);
            }
            else
                eq_all();
        }
        for (auto& x : s)
        {
            full_check(x);
            if (!x.valid)
            {
                build(x);
                full_check(x);
            }
        }
        if (f == F_STAB ? (searches_hit >= 3 && ops >= 3) : (ops >= 4 && s.size() >= 2))
            c.nontrivial();
    }
};

template<focus F, typename K, typename V>
void run_case(src& c)
{
    driver<K, V>(c, F).run();
}

#if VF_FOR(5)
#define RULE \
    "histories of insert (incl. duplicates)/erase/erase_if/clear/build_tree over 4 key/value types, every query compared with a linear scan of the stored segments; non-trivial: at least 3 operations and 3 queries with a non-empty answer"
#if VF_IN(0)
VF_PROPERTY("C05", (run_case<F_STAB, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C05", (run_case<F_STAB, long, std::string>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C05", (run_case<F_STAB, double, int*>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C05", (run_case<F_STAB, short, int>), RULE);
#endif
#undef RULE
#endif

#if VF_FOR(6)
#define RULE \
    "pool of up to 4 trees under copy/move/assign/swap and the mutating operations, all pairs compared for equality after every step; non-trivial: at least 4 operations over at least 2 trees"
#if VF_IN(0)
VF_PROPERTY("C06", (run_case<F_VALUE, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C06", (run_case<F_VALUE, long, std::string>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C06", (run_case<F_VALUE, double, int*>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C06", (run_case<F_VALUE, short, int>), RULE);
#endif
#undef RULE
#endif

VF_MAIN
