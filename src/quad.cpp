// point_quad_tree: histories against a std::map of points.
#include "vf.hpp"
#include <mdds/point_quad_tree.hpp>
#include <limits>
#include <map>
#include <memory>
#include <string>

using vf::src;

template<typename V> V mkv(int i);
template<> inline int mkv<int>(int i) { return i; }
template<> inline std::string mkv<std::string>(int i) { return std::string(size_t(i % 40), char('a' + i % 26)) + std::to_string(i); }

enum focus { F_MAP, F_REGION, F_VALUE };

template<typename K, typename V>
struct driver
{
    using tree_t = mdds::point_quad_tree<K, V>;
    using pt = std::pair<K, K>;
    struct slot
    {
        std::unique_ptr<tree_t> t;
        std::map<pt, V> m;
    };
    src& c;
    focus f;
    std::vector<slot> s;
    int range;
    int next = 0;
    unsigned inner_removals = 0, nonempty_regions = 0;

    driver(src& c_, focus f_) : c(c_), f(f_)
    {
        static const int rs[] = {3, 6, 12, 60, 1000};
        range = rs[c.below(5)];
        wide = c.chance(1, 6);
        if (wide)
        {
            VF_COVER(c, "coordinates up to the limits of the type");
            VF_LOG(c, "coordinates spread over the range of the type");
        }
    }
    bool wide = false;
    K key(int i) const
    {
        if (wide)
        {
            // spread over the whole range of the type
            using lim = std::numeric_limits<K>;
            if constexpr (std::is_floating_point_v<K>)
                return i <= 0 ? -lim::infinity() : i >= range ? lim::infinity() : (K(2 * i) / K(range) - 1) * lim::max();
            else
            {
                __int128 lo = lim::min(), hi = lim::max();
                return K(lo + (hi - lo) * std::min(i, range - 1) / (range - 1));
            }
        }
        if (std::is_unsigned_v<K>)
            return K(i);
        return K(i - range / 2) * (std::is_floating_point_v<K> ? K(0.25) : K(1));
    }
    K rk() { return key(int(c.below(range))); }

    std::pair<pt, V> read(const std::pair<typename tree_t::point, V>& v) { return {{v.first.x, v.first.y}, v.second}; }

    void walk(const typename tree_t::node_access& n, std::map<pt, V>& out, const K* xlo, const K* xhi, const K* ylo, const K* yhi, int depth)
    {
        if (!n)
            return;
        VF_CHECK(depth < 3000, "node traversal does not end");
        K x = n.x(), y = n.y();
        VF_CHECK((!xlo || *xlo <= x) && (!xhi || x < *xhi) && (!ylo || *ylo <= y) && (!yhi || y < *yhi),
            "node (" << +x << "," << +y << ") lies outside the quadrant of one of its ancestors");
        VF_CHECK(out.emplace(pt{x, y}, n.data()).second, "the same point (" << +x << "," << +y << ") is stored twice");
        // east: x >= node, north: y < node
        walk(n.northeast(), out, &x, xhi, ylo, &y, depth + 1);
        walk(n.northwest(), out, xlo, &x, ylo, &y, depth + 1);
        walk(n.southeast(), out, &x, xhi, &y, yhi, depth + 1);
        walk(n.southwest(), out, xlo, &x, &y, yhi, depth + 1);
    }

    void check_nodes(slot& x)
    {
        std::map<pt, V> got;
        walk(x.t->get_node_access(), got, nullptr, nullptr, nullptr, nullptr, 0);
        VF_CHECK(got == x.m, "node traversal yields " << got.size() << " points, " << x.m.size() << " are stored (or their data differ)");
    }

    void check_point(slot& x, K a, K b)
    {
        auto it = x.m.find({a, b});
        bool threw = false;
        V v{};
        try
        {
            v = x.t->find(a, b);
        }
        catch (const typename tree_t::data_not_found&)
        {
            threw = true;
        }
        VF_CHECK(threw == (it == x.m.end()), "find(" << +a << "," << +b << ") " << (threw ? "not found although stored" : "found although not stored"));
        if (!threw)
            VF_CHECK(v == it->second, "find(" << +a << "," << +b << ") returns wrong data");
    }

    void check_all_points(slot& x)
    {
        VF_CHECK(x.t->size() == x.m.size(), "size() = " << x.t->size() << ", stored " << x.m.size());
        VF_CHECK(x.t->empty() == x.m.empty(), "empty()");
        VF_CHECK(bool(x.t->get_node_access()) == !x.m.empty(), "root access");
        if (x.m.size() < 40)
            for (auto& [p, v] : x.m)
                check_point(x, p.first, p.second);
    }

    void check_region(slot& x, K x1, K y1, K x2, K y2)
    {
        std::map<pt, V> want;
        for (auto& [p, v] : x.m)
            if (x1 <= p.first && p.first <= x2 && y1 <= p.second && p.second <= y2)
                want[p] = v;
        auto r = x.t->search_region(x1, y1, x2, y2);
        std::map<pt, V> got;
        std::vector<std::pair<pt, V>> order;
        for (auto it = r.begin(); it != r.end(); ++it)
        {
            auto e = read(*it);
            VF_CHECK(e.second == it->second, "* and -> disagree");
            VF_CHECK(got.insert(e).second, "point reported twice");
            order.push_back(e);
            VF_CHECK(order.size() <= x.m.size(), "too many results");
        }
        VF_CHECK(got == want, "region [" << +x1 << "," << +x2 << "]x[" << +y1 << "," << +y2 << "] reports " << got.size() << " points, expected " << want.size());
        // backwards
        {
            auto it = r.end();
            for (size_t i = order.size(); i-- > 0;)
            {
                --it;
                auto e = read(*it);
                VF_CHECK(e == order[i], "stepping back from the end gives (" << +e.first.first << "," << +e.first.second << ") instead of result " << i);
            }
            VF_CHECK(it == r.begin(), "stepping back does not arrive at begin");
        }
        if (order.size() >= 2)
        {
            auto it = r.begin();
            ++it;
            --it;
            VF_CHECK(read(*it) == order[0] && it == r.begin(), "++ then --");
            auto r2 = r;
            auto i2 = r2.begin();
            VF_CHECK(read(*i2) == order[0], "copied results");
        }
        std::vector<V> arr{mkv<V>(12345)};
        x.t->search_region(x1, y1, x2, y2, arr);
        VF_CHECK(arr.size() == want.size() + 1 && arr[0] == mkv<V>(12345), "array search yields " << arr.size() - 1 << " results, expected " << want.size());
        std::vector<V> a2(arr.begin() + 1, arr.end()), w2;
        for (auto& [p, v] : want)
            w2.push_back(v);
        std::sort(a2.begin(), a2.end());
        std::sort(w2.begin(), w2.end());
        VF_CHECK(a2 == w2, "array search yields other data");
        if (!want.empty() && want.size() < x.m.size())
            ++nonempty_regions;
    }

    void random_region(slot& x)
    {
        K x1, x2, y1, y2;
        if (c.coin() && !x.m.empty())
        {
            // bounds that coincide with stored points
            auto pickp = [&]() {
                auto it = x.m.begin();
                std::advance(it, c.below(x.m.size()));
                return it->first;
            };
            auto p = pickp(), q = pickp();
            x1 = p.first, x2 = q.first, y1 = p.second, y2 = q.second;
        }
        else
            x1 = rk(), x2 = rk(), y1 = rk(), y2 = rk();
        if (x2 < x1)
            std::swap(x1, x2);
        if (y2 < y1)
            std::swap(y1, y2);
        VF_LOG(c, "region [" << +x1 << "," << +x2 << "]x[" << +y1 << "," << +y2 << "]");
        check_region(x, x1, y1, x2, y2);
    }

    void op_insert(slot& x)
    {
        K a = rk(), b = rk();
        if (c.chance(1, 6) && !x.m.empty())
        {
            auto it = x.m.begin();
            std::advance(it, c.below(x.m.size()));
            a = it->first.first;
            if (c.coin())
                b = it->first.second;
        }
        V v = mkv<V>(next++);
        VF_LOG(c, "insert (" << +a << "," << +b << ") = v" << next - 1);
        if (x.m.count({a, b}))
            VF_COVER(c, "overwrite");
        x.t->insert(a, b, v);
        x.m[{a, b}] = v;
    }

    bool has_children(const typename tree_t::node_access& n) { return n.northeast() || n.northwest() || n.southeast() || n.southwest(); }

    void op_remove(slot& x)
    {
        K a, b;
        if (c.chance(1, 8) || x.m.empty())
            a = rk(), b = rk();
        else if (c.chance(1, 4))
        {
            auto n = x.t->get_node_access();
            a = n.x(), b = n.y();
        }
        else
        {
            auto it = x.m.begin();
            std::advance(it, c.below(x.m.size()));
            a = it->first.first, b = it->first.second;
        }
        VF_LOG(c, "remove (" << +a << "," << +b << ")");
        {
            // statistics only: is it an inner node?
            auto n = x.t->get_node_access();
            int guard = 0;
            while (n && !(n.x() == a && n.y() == b) && ++guard < 10000)
                n = a < n.x() ? (b < n.y() ? n.northwest() : n.southwest()) : (b < n.y() ? n.northeast() : n.southeast());
            if (n && has_children(n))
            {
                ++inner_removals;
                VF_COVER(c, "removal of an inner node");
            }
        }
        x.t->remove(a, b);
        x.m.erase({a, b});
    }

    void op_value(unsigned i)
    {
        unsigned j = c.below(s.size());
        switch (c.below(7))
        {
            case 0:
            {
                if (s.size() >= 4)
                    return;
                VF_LOG(c, "copy-construct from #" << i);
                slot z;
                z.m = s[i].m;
                z.t = std::make_unique<tree_t>(*s[i].t);
                s.push_back(std::move(z));
                break;
            }
            case 1:
            case 2:
            {
                VF_LOG(c, "#" << i << " = #" << j);
                auto m = s[j].m;
                auto& r = (*s[i].t = *s[j].t);
                VF_CHECK(&r == s[i].t.get(), "assignment result");
                s[i].m = m;
                break;
            }
            case 3:
                VF_LOG(c, "swap #" << i << " #" << j);
                s[i].t->swap(*s[j].t);
                std::swap(s[i].m, s[j].m);
                break;
            case 4:
                if (s.size() < 4)
                {
                    VF_LOG(c, "rebuild #" << i << " in another order");
                    slot z;
                    z.t = std::make_unique<tree_t>();
                    z.m = s[i].m;
                    std::vector<pt> ps;
                    for (auto& [p, v] : z.m)
                        ps.push_back(p);
                    if (c.coin())
                        std::reverse(ps.begin(), ps.end());
                    for (auto& p : ps)
                        z.t->insert(p.first, p.second, z.m[p]);
                    s.push_back(std::move(z));
                }
                break;
            case 5:
                if (s.size() > 1)
                    s.pop_back();
                break;
            case 6:
                VF_LOG(c, "clear #" << i);
                s[i].t->clear();
                s[i].m.clear();
                break;
        }
    }

    void run()
    {
        s.reserve(8);
        for (int k = 0; k < (f == F_VALUE ? 2 : 1); ++k)
        {
            s.emplace_back();
            s.back().t = std::make_unique<tree_t>();
        }
        static const unsigned lens[] = {6, 20, 60};
        unsigned avg = lens[c.below(3)], ops = 0;
        while (c.more(avg) && s[0].m.size() < 120)
            op_insert(s[0]);
        if (c.chance(1, 60))
        {
            VF_COVER(c, "up to 500 more points");
            for (unsigned n = c.below(500); n > 0; --n)
                op_insert(s[0]);
            avg = 6;
        }
        while (c.more(avg) && ops < 250)
        {
            ++ops;
            unsigned i = s.size() > 1 ? c.below(s.size()) : 0;
            if (s.size() > 1)
                VF_LOG(c, "#" << i << ":");
            slot& x = s[i];
            unsigned op = f == F_VALUE ? c.weighted({3, 3, 5, 0}) : c.weighted({4, 5, 0, f == F_REGION ? 6u : 0u});
            switch (op)
            {
                case 0: op_insert(x); break;
                case 1: op_remove(x); break;
                case 2: op_value(i); break;
                case 3: random_region(x); break;
            }
            if (f == F_MAP)
            {
                check_all_points(x);
                check_point(x, rk(), rk());
                check_nodes(x);
            }
            else if (f == F_VALUE)
            {
                bool all = c.chance(1, 8);
                size_t touched = std::min<size_t>(i, s.size() - 1);
                for (size_t pi = 0; pi < s.size(); ++pi)
                {
                    auto& p = s[pi];
                    VF_CHECK(p.t->size() == p.m.size(), "size of a pool tree");
                    for (size_t qi = 0; qi < s.size(); ++qi)
                    {
                        if (!all && pi != touched && qi != touched)
                            continue;
                        auto& q = s[qi];
                        VF_CHECK((*p.t == *q.t) == (p.m == q.m), "equality is " << (*p.t == *q.t));
                        VF_CHECK((*p.t != *q.t) == (p.m != q.m), "inequality is " << (*p.t != *q.t));
                    }
                }
            }
        }
        for (auto& x : s)
        {
            check_nodes(x);
            check_all_points(x);
            if (f == F_REGION)
            {
                check_region(x, key(0), key(0), key(range), key(range));
                random_region(x);
            }
        }
        if (f == F_VALUE ? ops >= 4 : (f == F_MAP ? inner_removals >= 1 : nonempty_regions >= 2))
            c.nontrivial();
    }
};

template<focus F, typename K, typename V>
void run_case(src& c)
{
    driver<K, V>(c, F).run();
}

#if VF_FOR(7)
#define RULE \
    "histories of insert/overwrite/remove on grids of 3..1000 coordinates (ties frequent), find/size/node traversal compared with a map after every step; non-trivial: at least one removal of a point that has descendants"
#if VF_IN(0)
VF_PROPERTY("C07", (run_case<F_MAP, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C07", (run_case<F_MAP, double, std::string>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C07", (run_case<F_MAP, unsigned short, int>), RULE);
#endif
#undef RULE
#endif

#if VF_FOR(8)
#define RULE \
    "region queries with random and point-aligned bounds after insert/remove histories compared with a scan of the map; non-trivial: at least 2 queries that select some but not all points"
#if VF_IN(0)
VF_PROPERTY("C08", (run_case<F_REGION, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C08", (run_case<F_REGION, double, std::string>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C08", (run_case<F_REGION, unsigned short, int>), RULE);
#endif
#undef RULE
#endif

#if VF_FOR(9)
#define RULE \
    "pool of up to 4 trees under copy/assign (incl. self)/swap/clear/insert/remove, all pairs compared for equality; non-trivial: at least 4 operations"
#if VF_IN(0)
VF_PROPERTY("C09", (run_case<F_VALUE, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C09", (run_case<F_VALUE, double, std::string>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C09", (run_case<F_VALUE, unsigned short, int>), RULE);
#endif
#undef RULE
#endif

VF_MAIN
