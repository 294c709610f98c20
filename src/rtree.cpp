// rtree: histories against a plain list of (extent, value) entries, with the
// structure rebuilt from the public walk() and export_tree() output.
#include "vf.hpp"
#include <mdds/rtree.hpp>
#include <limits>
#include <memory>
#include <set>
#include <string>

using vf::src;

template<size_t D, size_t Min, size_t Max, bool Reinsert, size_t RS>
struct traits
{
    static constexpr size_t dimensions = D;
    static constexpr size_t min_node_size = Min;
    static constexpr size_t max_node_size = Max;
    static constexpr size_t max_tree_depth = 100;
    static constexpr bool enable_forced_reinsertion = Reinsert;
    static constexpr size_t reinsertion_size = RS;
};

struct only_move // a value that cannot be copied
{
    std::unique_ptr<int> p;
    explicit only_move(int i) : p(new int(i)) {}
    only_move(only_move&&) = default;
    only_move& operator=(only_move&&) = default;
};

template<typename V> V mkv(int i);
template<> inline int mkv<int>(int i) { return i; }
template<> inline std::string mkv<std::string>(int i) { return std::string(size_t(i % 30), char('a' + i % 26)) + "#" + std::to_string(i); }
template<> inline only_move mkv<only_move>(int i) { return only_move(i); }
inline int idof(int v) { return v; }
inline int idof(const std::string& v) { return std::stoi(v.substr(v.find('#') + 1)); }
inline int idof(const only_move& v) { return v.p ? *v.p : -1; }

enum focus { F_SEARCH, F_STRUCT, F_BULK };

template<typename K, typename V, typename T>
struct driver
{
    static constexpr size_t D = T::dimensions;
    static constexpr bool copyable = std::is_copy_constructible_v<V>;
    using tree_t = mdds::rtree<K, V, T>;
    using point = typename tree_t::point_type;
    using extent = typename tree_t::extent_type;
    using st = typename tree_t::search_type;
    using ntype = typename tree_t::node_type;
    struct entry
    {
        extent e;
        int id;
    };
    struct slot
    {
        std::unique_ptr<tree_t> t = std::make_unique<tree_t>();
        std::vector<entry> m;
        bool bulk = false; // bulk-loaded nodes may be underfilled
    };
    src& c;
    focus f;
    std::vector<slot> s;
    int range;
    int extmax;
    int next = 0;
    size_t maxn;
    unsigned erased = 0, partial_hits = 0, max_height = 0, checks = 0;

    driver(src& c_, focus f_) : c(c_), f(f_)
    {
        static const int rs[] = {4, 10, 30, 120, 1000};
        range = rs[c.below(5)];
        extmax = c.pick({1, 3, 10, 50});
        if (c.chance(1, 6))
        {
            // coordinates that reach the limits of the key type
            int units = std::max((std::is_unsigned_v<K> ? range : range / 2 + 1) + 2 * extmax + 3, 450);
            unit = std::numeric_limits<K>::max() / K(units) / K(std::is_floating_point_v<K> ? 4 : 1);
            VF_COVER(c, "coordinates up to the limits of the type");
            VF_LOG(c, "coordinates are multiples of " << unit);
        }
        maxn = T::max_node_size >= 50 ? 400 : c.weighted({3, 2, 1}) == 0 ? 24 : c.coin() ? 80 : 220;
    }
    K unit = std::is_floating_point_v<K> ? K(0.25) : K(1);
    K key(int i) const { return K(i) * unit; }
    int lo() const { return std::is_unsigned_v<K> ? 0 : -range / 2; }

    point rpoint()
    {
        point p;
        for (size_t d = 0; d < D; ++d)
            p.d[d] = key(lo() + int(c.below(range)));
        return p;
    }
    extent rext()
    {
        extent e;
        e.start = rpoint();
        e.end = e.start;
        for (size_t d = 0; d < D; ++d)
            e.end.d[d] = e.start.d[d] + key(int(c.below(extmax + 1)));
        return e;
    }
    static bool inter(const extent& a, const extent& b)
    {
        for (size_t d = 0; d < D; ++d)
            if (a.end.d[d] < b.start.d[d] || b.end.d[d] < a.start.d[d])
                return false;
        return true;
    }
    static bool same(const extent& a, const extent& b)
    {
        for (size_t d = 0; d < D; ++d)
            if (a.start.d[d] != b.start.d[d] || a.end.d[d] != b.end.d[d])
                return false;
        return true;
    }
    static std::string str(const extent& e)
    {
        std::ostringstream o;
        o << "[";
        for (size_t d = 0; d < D; ++d)
            o << (d ? " x " : "") << +e.start.d[d] << ".." << +e.end.d[d];
        o << "]";
        return o.str();
    }
    using keyt = std::vector<K>;
    static keyt flat(const extent& e)
    {
        keyt k(e.start.d, e.start.d + D);
        k.insert(k.end(), e.end.d, e.end.d + D);
        return k;
    }
    using bag = std::multiset<std::pair<int, keyt>>;

    static void grow(extent& a, const extent& b)
    {
        for (size_t d = 0; d < D; ++d)
        {
            a.start.d[d] = std::min(a.start.d[d], b.start.d[d]);
            a.end.d[d] = std::max(a.end.d[d], b.end.d[d]);
        }
    }

    void check_totals(slot& x)
    {
        VF_CHECK(x.t->size() == x.m.size(), "size() = " << x.t->size() << ", stored " << x.m.size());
        VF_CHECK(x.t->empty() == x.m.empty(), "empty() with " << x.m.size() << " stored");
        if (!x.m.empty())
        {
            extent b = x.m[0].e;
            for (auto& e : x.m)
                grow(b, e.e);
            VF_CHECK(same(b, x.t->extent()), "extent() = " << str(x.t->extent()) << ", the stored objects span " << str(b));
        }
    }

    // ---- structure
    struct nd
    {
        int level;
        ntype type;
        extent e;
        std::vector<int> ch;
        int parent = -1;
    };

    // Comparing with export_tree() is slow, so larger trees get it at every
    // fourth check and at the end; in between what walk() shows must do.
    void check_structure(slot& x, bool full = false)
    {
        // order of walk() and export_tree() is the same depth-first order
        std::vector<nd> n;
        x.t->walk([&](const typename tree_t::node_properties& p) { n.push_back({0, p.type, p.extent, {}, -1}); });
        full = full || n.size() <= 24 || ++checks % 4 == 0;
        std::istringstream is;
        if (full)
            is.str(x.t->export_tree(tree_t::export_tree_type::formatted_node_properties));
        std::string line;
        size_t i = 0;
        std::vector<std::string> ids;
        std::vector<int> stack;
        while (std::getline(is, line))
        {
            VF_CHECK(i < n.size(), "export_tree lists more nodes than walk()");
            size_t ind = line.find_first_not_of(' ');
            VF_CHECK(ind != std::string::npos && ind % 4 == 0, "export_tree line: " << line);
            int lv = int(ind / 4);
            VF_CHECK(lv <= int(stack.size()) && (lv > 0 || i == 0), "export_tree nesting");
            stack.resize(lv);
            n[i].level = lv;
            if (lv)
            {
                n[i].parent = stack.back();
                n[stack.back()].ch.push_back(int(i));
            }
            auto field = [&](const std::string& name) {
                size_t p = line.find(name + ": ");
                VF_CHECK(p != std::string::npos, "no " << name << " in " << line);
                p += name.size() + 2;
                return line.substr(p, line.find(';', p) - p);
            };
            std::string id = field("node"), par = field("parent"), ty = field("type"), ex = field("extent");
            ids.push_back(id);
            VF_CHECK(par == (lv ? ids[stack.back()] : "(*, *)"), "node " << id << " has parent pointer " << par << ", real parent "
                << (lv ? ids[stack.back()] : "none"));
            VF_CHECK(ty == (n[i].type == ntype::value ? "value" : n[i].type == ntype::directory_leaf ? "directory-leaf" : "directory-nonleaf"),
                "exported type " << ty);
            VF_CHECK(ex == n[i].e.to_string(), "exported extent " << ex << ", walked " << n[i].e.to_string());
            stack.push_back(int(i));
            ++i;
        }
        VF_CHECK(!full || (i == n.size() && i > 0), "export_tree lists " << i << " nodes, walk() " << n.size());
        int vlevel = -1;
        size_t values = 0;
        std::multiset<keyt> ext;
        for (size_t k = 0; k < n.size(); ++k)
        {
            nd& a = n[k];
            if (a.type == ntype::value)
            {
                ++values;
                ext.insert(flat(a.e));
                if (!full)
                    continue;
                VF_CHECK(a.parent >= 0 && n[a.parent].type == ntype::directory_leaf, "a value is not held by a leaf directory");
                VF_CHECK(vlevel < 0 || vlevel == a.level, "values at different depths " << vlevel << " and " << a.level);
                vlevel = a.level;
                VF_CHECK(a.ch.empty(), "value with children");
                continue;
            }
            VF_CHECK(a.type == ntype::directory_leaf || a.type == ntype::directory_nonleaf, "node of unknown type");
            if (!full)
                continue;
            VF_CHECK(a.ch.size() <= T::max_node_size, "a directory at level " << a.level << " holds " << a.ch.size() << " children, the maximum is " << T::max_node_size);
            if (k)
            {
                VF_CHECK(n[a.parent].type == ntype::directory_nonleaf, "directory below a leaf directory");
                VF_CHECK(!a.ch.empty(), "empty directory below the root");
                VF_CHECK(x.bulk || a.ch.size() >= T::min_node_size, "a directory at level " << a.level << " holds " << a.ch.size() << " children, the minimum is " << T::min_node_size);
            }
            else
                VF_CHECK(a.type == ntype::directory_leaf || !x.m.empty(), "a tree without values has a non-leaf root");
            if (!a.ch.empty())
            {
                extent b = n[a.ch[0]].e;
                for (int q : a.ch)
                    grow(b, n[q].e);
                VF_CHECK(same(b, a.e), "directory at level " << a.level << " has extent " << str(a.e) << ", its children span " << str(b));
                for (int q : a.ch)
                    VF_CHECK((a.type == ntype::directory_leaf) == (n[q].type == ntype::value), "leaf and non-leaf children mixed");
            }
        }
        VF_CHECK(values == x.m.size(), "walk() shows " << values << " values, stored " << x.m.size());
        std::multiset<keyt> want;
        for (auto& e : x.m)
            want.insert(flat(e.e));
        VF_CHECK(want == ext, "walk() shows other extents than stored");
        if (!full)
        {
            for (size_t k = 0, e; k < n.size(); k = e)
            {
                e = k + 1;
                if (n[k].type != ntype::directory_leaf)
                    continue;
                for (; e < n.size() && n[e].type == ntype::value; ++e)
                    ;
                size_t m = e - k - 1;
                VF_CHECK(m <= T::max_node_size && m >= (x.bulk || k == 0 ? 1 : T::min_node_size), "a leaf directory holds " << m << " values");
                extent b = n[k + 1].e;
                for (size_t i = k + 2; i < e; ++i)
                    grow(b, n[i].e);
                VF_CHECK(same(b, n[k].e), "a leaf directory has extent " << str(n[k].e) << ", its values span " << str(b));
            }
            return;
        }
        typename tree_t::integrity_check_properties p;
        p.throw_on_first_error = true;
        p.error_on_min_node_size = !x.bulk && (T::min_node_size <= 2 || vlevel <= 1);
        struct quiet // the check reports underfilled nodes on std::cout
        {
            std::streambuf* b = std::cout.rdbuf(nullptr);
            ~quiet() { std::cout.rdbuf(b); std::cout.clear(); }
        } q;
        try
        {
            x.t->check_integrity(p);
        }
        catch (const mdds::integrity_error& e)
        {
            VF_FAIL("check_integrity: " << e.what());
        }
        max_height = std::max(max_height, unsigned(std::max(vlevel, 0)));
    }

    // ---- search
    template<typename R, typename F>
    bag collect(slot& x, R&& r, F&& extra)
    {
        bag got;
        size_t n = 0;
        size_t dep = 0;
        auto first = r.begin();
        std::vector<std::pair<int, keyt>> order;
        for (auto it = r.begin(); !(it == r.end()); ++it, ++n)
        {
            VF_CHECK(n < x.m.size(), "more results than stored objects");
            order.push_back({idof(*it), flat(it.extent())});
            VF_CHECK(&*it == it.operator->(), "* and -> disagree");
            VF_CHECK(n == 0 || it.depth() == dep, "results at different depths " << dep << " and " << it.depth());
            dep = it.depth();
            VF_CHECK(dep >= 1, "depth " << dep);
        }
        if (n)
        {
            auto it = r.end();
            for (size_t i = n; i-- > 0;)
            {
                if (i % 2)
                    --it;
                else
                    it--;
                VF_CHECK(idof(*it) == order[i].first && flat(it.extent()) == order[i].second, "backward traversal differs at " << i);
            }
            VF_CHECK(it == r.begin(), "backward traversal does not arrive at begin");
            auto old = it++;
            VF_CHECK(idof(*old) == order[0].first && old == r.begin(), "post-increment");
        }
        for (auto& o : order)
            got.insert(o);
        extra(r, order);
        return got;
    }

    struct query
    {
        bool pt, match;
        extent e;
    };
    query rquery(slot& x)
    {
        query q;
        q.pt = c.chance(1, 3);
        q.match = c.chance(1, 4);
        if (!x.m.empty() && c.chance(2, 5))
        {
            q.e = x.m[c.below(x.m.size())].e;
            if (q.pt && c.coin())
                q.e.start = q.e.end; // a corner
            else if (!q.match && c.coin())
            {
                // touching regions
                size_t d = c.below(D);
                if (c.coin())
                    q.e.start.d[d] = q.e.end.d[d];
                else
                    q.e.end.d[d] = q.e.start.d[d];
                if (c.coin())
                    for (size_t k = 0; k < D; ++k)
                        q.e.end.d[k] += key(int(c.below(extmax + 1)));
            }
        }
        else if (c.chance(1, 3))
        {
            point a = rpoint(), b = rpoint();
            for (size_t d = 0; d < D; ++d)
                q.e.start.d[d] = std::min(a.d[d], b.d[d]), q.e.end.d[d] = std::max(a.d[d], b.d[d]);
        }
        else
            q.e = rext();
        if (q.pt)
            q.e.end = q.e.start;
        return q;
    }
    bag expect(slot& x, const query& q)
    {
        bag want;
        for (auto& e : x.m)
            if (q.match ? same(e.e, q.e) : inter(e.e, q.e))
                want.insert({e.id, flat(e.e)});
        return want;
    }
    template<typename Tr>
    auto run(Tr& t, const query& q)
    {
        return q.pt ? t.search(q.e.start, q.match ? st::match : st::overlap) : t.search(q.e, q.match ? st::match : st::overlap);
    }
    void op_search(slot& x)
    {
        query q = rquery(x);
        bag want = expect(x, q);
        VF_LOG(c, "search " << (q.pt ? "point " : "extent ") << (q.match ? "match " : "overlap ") << str(q.e) << " (" << want.size() << " expected)");
        auto none = [](auto&, auto&) {};
        bag got = collect(x, run(*x.t, q), none);
        VF_CHECK(got == want, "search reports " << got.size() << " objects, expected " << want.size() << (got.size() == want.size() ? " other ones" : ""));
        if (c.coin())
        {
            const tree_t& ct = *x.t;
            auto r = run(ct, q);
            bag g2 = collect(x, r, none);
            VF_CHECK(g2 == want, "const search reports " << g2.size() << " objects, expected " << want.size());
            size_t n = 0;
            for (auto it = r.cbegin(); !(it == r.cend()); ++it)
                ++n;
            VF_CHECK(n == want.size(), "cbegin/cend");
        }
        if (!want.empty() && want.size() < x.m.size())
            ++partial_hits;
        if (q.match && !want.empty())
            VF_COVER(c, "match-hit");
    }

    void ins(slot& x, const extent& e, bool as_point)
    {
        int id = c.chance(1, 12) && next ? int(c.below(next)) : next++;
        VF_LOG(c, "insert " << str(e) << " = " << id);
        if constexpr (copyable)
        {
            if (c.coin())
            {
                const V v = mkv<V>(id);
                if (as_point)
                    x.t->insert(e.start, v);
                else
                    x.t->insert(e, v);
                x.m.push_back({e, id});
                return;
            }
        }
        if (as_point)
            x.t->insert(e.start, mkv<V>(id));
        else
            x.t->insert(e, mkv<V>(id));
        x.m.push_back({e, id});
    }
    void op_insert(slot& x)
    {
        if (x.m.size() >= maxn)
            return;
        extent e;
        bool pt = false;
        if (!x.m.empty() && c.chance(1, 10))
            e = x.m[c.below(x.m.size())].e;
        else if (c.coin())
            e = rext();
        else
        {
            e.start = e.end = rpoint();
            pt = c.coin();
        }
        ins(x, e, pt);
    }

    bool op_erase(slot& x, const query& q, size_t which)
    {
        auto removed = [&](int id, const keyt& k) {
            for (size_t i = 0; i < x.m.size(); ++i)
                if (x.m[i].id == id && flat(x.m[i].e) == k)
                {
                    x.m[i] = x.m.back();
                    x.m.pop_back();
                    return;
                }
            VF_FAIL("the object to erase is not stored");
        };
        if (c.coin())
        {
            auto r = run(*x.t, q);
            size_t n = 0;
            for (auto it = r.begin(); !(it == r.end()); ++it)
                ++n;
            if (!n)
                return false;
            auto it = r.begin();
            for (size_t i = which % n; i > 0; --i)
                ++it;
            int id = idof(*it);
            keyt k = flat(it.extent());
            VF_LOG(c, "erase " << str(it.extent()) << " = " << id);
            x.t->erase(it);
            removed(id, k);
        }
        else
        {
            const tree_t& ct = *x.t;
            auto r = run(ct, q);
            size_t n = 0;
            for (auto it = r.begin(); !(it == r.end()); ++it)
                ++n;
            if (!n)
                return false;
            auto it = r.begin();
            for (size_t i = which % n; i > 0; --i)
                ++it;
            int id = idof(*it);
            keyt k = flat(it.extent());
            VF_LOG(c, "erase(const) " << str(it.extent()) << " = " << id);
            x.t->erase(it);
            removed(id, k);
        }
        ++erased;
        return true;
    }

    void after(slot& x)
    {
        check_totals(x);
        if (f != F_SEARCH)
            check_structure(x);
    }

    void op_value(unsigned)
    {
        size_t a = c.below(s.size()), b = c.below(s.size());
        unsigned k = unsigned(c.below(6));
        if constexpr (!copyable)
            k = 2 + k % 4;
        VF_LOG(c, "value op " << k << " " << a << " " << b);
        if constexpr (copyable)
        {
            if (k == 0)
            {
                auto t = std::make_unique<tree_t>(*s[a].t);
                s[b] = slot{std::move(t), s[a].m, s[a].bulk};
                VF_COVER(c, "copy");
            }
            else if (k == 1)
            {
                *s[b].t = *s[a].t;
                s[b].m = s[a].m;
                s[b].bulk = s[a].bulk;
                VF_COVER(c, "copy-assign");
            }
        }
        if (k == 2)
        {
            if (a == b)
                return;
            auto t = std::make_unique<tree_t>(std::move(*s[a].t));
            s[b].t = std::move(t);
            s[b].m = std::move(s[a].m);
            s[b].bulk = s[a].bulk;
            s[a].m.clear();
            s[a].bulk = false;
            after(s[a]); // the moved-from tree is empty and usable
            VF_COVER(c, "move");
        }
        else if (k == 3)
        {
            if (a == b)
                return;
            *s[b].t = std::move(*s[a].t);
            s[b].m = std::move(s[a].m);
            s[b].bulk = s[a].bulk;
            s[a].m.clear();
            s[a].bulk = false;
            after(s[a]);
            VF_COVER(c, "move-assign");
        }
        else if (k == 4)
        {
            s[a].t->swap(*s[b].t);
            std::swap(s[a].m, s[b].m);
            std::swap(s[a].bulk, s[b].bulk);
            VF_COVER(c, "swap");
        }
        else if (k == 5)
        {
            if (c.chance(2, 3))
                return;
            s[a].t->clear();
            s[a].m.clear();
            s[a].bulk = false;
        }
        after(s[a]);
        after(s[b]);
    }

    void op_modify(slot& x)
    {
        if (x.m.empty())
            return;
        entry& e = x.m[c.below(x.m.size())];
        auto r = x.t->search(e.e, st::match);
        for (auto it = r.begin(); !(it == r.end()); ++it)
            if (idof(*it) == e.id)
            {
                int id = next++;
                VF_LOG(c, "change value " << e.id << " to " << id);
                *it = mkv<V>(id);
                e.id = id;
                return;
            }
        VF_FAIL("match search does not find a stored object");
    }

    void op_bulk(slot& x)
    {
        typename tree_t::bulk_loader ld;
        for (unsigned round = 0, rounds = c.chance(1, 6) ? 2 : 1; round < rounds; ++round)
        {
            size_t n = T::max_node_size >= 50 ? c.below(2000) : c.coin() ? c.below(40) : c.below(520);
            x.m.clear();
            unsigned style = unsigned(c.below(4)); // random, line, clumps, all equal
            extent fix = rext();
            for (size_t i = 0; i < n; ++i)
            {
                extent e;
                if (style == 0)
                    e = rext();
                else if (style == 1)
                {
                    for (size_t d = 0; d < D; ++d)
                        e.start.d[d] = e.end.d[d] = key(int(d == 0 ? i % 440 : i % 3));
                }
                else if (style == 2)
                {
                    e = fix;
                    for (size_t d = 0; d < D; ++d)
                        e.end.d[d] += key(int(c.below(3)));
                    if (c.chance(1, 8))
                        fix = rext();
                }
                else
                    e = fix;
                int id = next++;
                bool pt = e.is_point() && c.coin();
                if constexpr (copyable)
                {
                    if (c.coin())
                    {
                        const V v = mkv<V>(id);
                        if (pt)
                            ld.insert(e.start, v);
                        else
                            ld.insert(e, v);
                        x.m.push_back({e, id});
                        continue;
                    }
                }
                if (pt)
                    ld.insert(e.start, mkv<V>(id));
                else
                    ld.insert(e, mkv<V>(id));
                x.m.push_back({e, id});
            }
            VF_LOG(c, "bulk load of " << n << " objects, style " << style);
            x.t = std::make_unique<tree_t>(ld.pack());
            x.bulk = true;
            after(x);
        }
        query all;
        all.pt = all.match = false;
        if (!x.m.empty())
        {
            all.e = x.t->extent();
            bag got = collect(x, run(*x.t, all), [](auto&, auto&) {});
            VF_CHECK(got == expect(x, all), "searching the whole extent of a packed tree");
        }
        VF_COVER(c, "bulk");
    }

    void check_geometry()
    {
        // the public extent predicates against their definitions
        extent a = rext(), b = rext();
        bool cont = true, pin = true;
        for (size_t d = 0; d < D; ++d)
        {
            cont = cont && a.start.d[d] <= b.start.d[d] && b.end.d[d] <= a.end.d[d];
            pin = pin && a.start.d[d] <= b.start.d[d] && b.start.d[d] <= a.end.d[d];
        }
        VF_CHECK(a.contains(b) == cont, str(a) << ".contains(" << str(b) << ")");
        VF_CHECK(a.contains(b.start) == pin, str(a) << ".contains(point)");
        VF_CHECK(a.intersects(b) == inter(a, b) && b.intersects(a) == inter(a, b), str(a) << ".intersects(" << str(b) << ")");
        VF_CHECK((a == b) == same(a, b), "extent ==");
        VF_CHECK(a.is_point() == !(flat(a) != [&] { extent q = a; q.end = q.start; return flat(q); }()), "is_point");
    }

    void go()
    {
        unsigned n = c.pick({1, 2, 3});
        s.resize(n);
        unsigned ops = 0;
        if (f == F_BULK)
            op_bulk(s[0]);
        // phases: growing, shrinking, mixed
        while (c.more(f == F_BULK ? 3 : 6))
        {
            slot& x = s[c.below(s.size())];
            unsigned k = unsigned(f == F_BULK ? c.weighted({4, 2, 5, 3, 6, 1, 1, 1, 1}) : c.weighted({8, 5, 3, 3, 5, 2, 1, 0, 1}));
            ++ops;
            switch (k)
            {
                case 0:
                    op_insert(x);
                    after(x);
                    break;
                case 1: // burst of insertions
                {
                    unsigned m = unsigned(c.below(maxn > 100 ? 120 : 30)) + 1;
                    unsigned done = 0;
                    for (unsigned i = 0; i < m; ++i)
                    {
                        c.span();
                        op_insert(x);
                        if (f == F_STRUCT && (x.m.size() < 14 || ++done % 6 == 0))
                            check_structure(x);
                    }
                    after(x);
                    break;
                }
                case 2: // erase one object
                    if (!x.m.empty())
                    {
                        query q{false, true, x.m[c.below(x.m.size())].e};
                        VF_CHECK(op_erase(x, q, c.below(4)), "match search does not find a stored object");
                        after(x);
                    }
                    break;
                case 3: // erase many around one place
                {
                    if (x.m.empty())
                        break;
                    query q{false, false, x.t->extent()};
                    if (c.chance(2, 3))
                    {
                        size_t d = c.below(D);
                        K mid = x.m[c.below(x.m.size())].e.start.d[d];
                        (c.coin() ? q.e.end : q.e.start).d[d] = mid;
                    }
                    unsigned m = unsigned(c.below(40)) + 1;
                    bool front = c.coin();
                    for (unsigned i = 0; i < m; ++i)
                    {
                        c.span();
                        if (!op_erase(x, q, front ? 0 : c.below(1000)))
                            break;
                        if (f != F_SEARCH && (x.m.size() < 16 || i % (x.m.size() < 60 ? 3 : 10) == 0))
                            check_structure(x);
                    }
                    after(x);
                    VF_COVER(c, "erase-burst");
                    break;
                }
                case 4: op_search(x); break;
                case 5: op_value(0); break;
                case 6: op_modify(x); break;
                case 7: op_bulk(x); break;
                case 8: check_geometry(); break;
            }
            if (f == F_SEARCH && c.chance(1, 3))
                op_search(x);
        }
        for (slot& x : s)
        {
            if (f != F_SEARCH)
                check_structure(x, true);
            after(x);
            op_search(x);
            if (f == F_SEARCH && x.m.size() <= 40)
                for (auto& e : x.m)
                {
                    query q{false, true, e.e};
                    bag got = collect(x, run(*x.t, q), [](auto&, auto&) {});
                    VF_CHECK(got == expect(x, q), "a stored object is not found by its extent " << str(e.e));
                }
        }
        if (max_height >= 3)
            VF_COVER(c, "height>=3");
        if (max_height >= 4)
            VF_COVER(c, "height>=4");
        if (f == F_SEARCH ? (partial_hits >= 2 && ops >= 3) : f == F_STRUCT ? (max_height >= 2 && erased >= 1) : (max_height >= 2))
            c.nontrivial();
    }
};

template<focus F, typename K, typename V, typename T>
void run_case(src& c)
{
    driver<K, V, T> d(c, F);
    d.go();
}

using T24 = traits<2, 2, 4, true, 2>;
using T25n = traits<2, 2, 5, false, 1>;
using T1 = traits<1, 1, 2, false, 1>;
using T3 = traits<3, 2, 4, true, 3>;
using T38 = traits<2, 3, 8, true, 3>;
using T12 = traits<2, 1, 2, true, 1>;
using T4 = traits<4, 1, 3, false, 1>;
using TD = mdds::detail::rtree::default_rtree_traits;

#define CONFIGS(ID, F, RULE)                                                                                           \
    CFG0(ID, F, RULE) CFG1(ID, F, RULE) CFG2(ID, F, RULE) CFG3(ID, F, RULE) CFG4(ID, F, RULE) CFG5(ID, F, RULE)  \
    CFG6(ID, F, RULE) CFG7(ID, F, RULE)
#if VF_IN(0)
#define CFG0(ID, F, R) VF_PROPERTY(ID, (run_case<F, int, int, T24>), R, 3);
#else
#define CFG0(ID, F, R)
#endif
#if VF_IN(1)
#define CFG1(ID, F, R) VF_PROPERTY(ID, (run_case<F, double, std::string, T25n>), R, 3);
#else
#define CFG1(ID, F, R)
#endif
#if VF_IN(2)
#define CFG2(ID, F, R) VF_PROPERTY(ID, (run_case<F, int, std::string, T1>), R, 2);
#else
#define CFG2(ID, F, R)
#endif
#if VF_IN(3)
#define CFG3(ID, F, R) VF_PROPERTY(ID, (run_case<F, float, int, T3>), R, 2);
#else
#define CFG3(ID, F, R)
#endif
#if VF_IN(4)
#define CFG4(ID, F, R) VF_PROPERTY(ID, (run_case<F, unsigned, only_move, T38>), R, 2);
#else
#define CFG4(ID, F, R)
#endif
#if VF_IN(5)
#define CFG5(ID, F, R) VF_PROPERTY(ID, (run_case<F, int, int, TD>), R, 1);
#else
#define CFG5(ID, F, R)
#endif

#if VF_IN(6)
#define CFG6(ID, F, R) VF_PROPERTY(ID, (run_case<F, long, int, T12>), R, 2);
#else
#define CFG6(ID, F, R)
#endif
#if VF_IN(7)
#define CFG7(ID, F, R) VF_PROPERTY(ID, (run_case<F, short, std::string, T4>), R, 1);
#else
#define CFG7(ID, F, R)
#endif

#if VF_FOR(14)
CONFIGS("C14", F_SEARCH,
    "histories over 1-3 trees (insert, burst insert, erase through search results, value operations, value changes) with point/extent overlap/match searches; non-trivial: at least 3 operations and 2 searches that hit some but not all objects")
#endif
#if VF_FOR(15)
CONFIGS("C15", F_STRUCT,
    "the same histories with the whole structure checked after every step; non-trivial: at least two directory levels and at least one erasure")
#endif
#if VF_FOR(16)
CONFIGS("C16", F_BULK,
    "a bulk load of up to 2000 objects followed by a history on the packed tree; non-trivial: at least two directory levels")
#endif

VF_MAIN
