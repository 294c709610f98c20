// flat_segment_tree: histories against a per-key array model.
#include "vf.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <algorithm>
#include <deque>
#include <limits>
#include <memory>
#include <optional>
#include <string>

using vf::src;

template<typename V> V mkv(int i);
template<> inline int mkv<int>(int i) { static const int t[] = {0, 1, -7, 1000000, 42}; return t[i]; }
template<> inline bool mkv<bool>(int i) { return i & 1; }
template<> inline unsigned char mkv<unsigned char>(int i) { static const unsigned char t[] = {0, 255, 1, 128, 7}; return t[i]; }
template<> inline std::string mkv<std::string>(int i)
{
    static const char* t[] = {"", "a", "a rather long string that does not fit a small buffer", "b", "A"};
    return t[i];
}
template<> inline double mkv<double>(int i) { static const double t[] = {0.0, 0.5, -1.25, 1e300, 3.0}; return t[i]; }

enum focus { F_CONTENT, F_CANON, F_SEARCH, F_VALUE };

template<typename K, typename V>
struct driver
{
    using tree_t = mdds::flat_segment_tree<K, V>;

    struct slot
    {
        std::unique_ptr<tree_t> t;
        std::vector<int> m; // value index per unit key
        int init = 0;
        long base = 0;
        long scale = 1;
        long ulo = -8, uhi = 1000; // the units that the key type can represent
        bool live = true; // false: moved-from
        int n() const { return int(m.size()); }
        K key(long i) const { return K(base + i * scale); }
        long longest() const { return long(std::min<double>(double(std::numeric_limits<K>::max()) / double(scale), 1000)); }
    };

    src& c;
    focus f;
    int nv; // number of distinct values
    std::vector<slot> s;
    bool merged = false, clipped = false, shifted = false;
    unsigned ops = 0, changed_ops = 0;

    driver(src& c_, focus f_) : c(c_), f(f_), nv(std::is_same_v<V, bool> ? 2 : 2 + int(c_.below(4)))
    {
    }

    slot make()
    {
        slot x;
        static const int spans[] = {2, 3, 6, 12, 30, 80};
        int n = 1 + int(c.below(c.chance(1, 60) ? 600 : spans[c.below(6)]));
        x.init = int(c.below(nv));
        x.scale = 1 + long(c.below(3)) * 3;
        long lo = std::is_unsigned_v<K> ? 8 * x.scale : -500;
        x.base = std::is_unsigned_v<K> ? lo + long(c.below(50)) : (c.coin() ? lo + long(c.below(1000)) : 0);
        if constexpr (std::is_integral_v<K>)
        {
            using lim = std::numeric_limits<K>;
            switch (c.below(16))
            {
                case 0: // up to the largest key
                    x.base = long(lim::max()) - n * x.scale;
                    x.uhi = n;
                    VF_COVER(c, "keys up to the largest of the type");
                    break;
                case 1: // from the smallest key
                    x.base = long(lim::min());
                    x.ulo = 0;
                    VF_COVER(c, "keys from the smallest of the type");
                    break;
                case 2: // all of them
                    if (sizeof(K) < sizeof(long))
                    {
                        x.scale = (long(lim::max()) - long(lim::min())) / n;
                        x.base = long(lim::min());
                        x.ulo = 0, x.uhi = n;
                        VF_COVER(c, "the whole range of the key type");
                    }
                    break;
            }
        }
        x.m.assign(n, x.init);
        x.t = std::make_unique<tree_t>(x.key(0), x.key(n), mkv<V>(x.init));
        VF_LOG(c, "tree over [" << +x.key(0) << "," << +x.key(n) << ") scale " << x.scale << " init v" << x.init);
        return x;
    }

    static std::string show(const V& v)
    {
        std::ostringstream os;
        os << v;
        return os.str();
    }

    static std::string show(const slot& x)
    {
        std::ostringstream os;
        for (int v : x.m)
            os << v;
        return os.str();
    }

    // Segments of the model as (start index, value).
    static std::vector<std::pair<int, int>> segs(const slot& x)
    {
        std::vector<std::pair<int, int>> r;
        for (int i = 0; i < x.n(); ++i)
            if (r.empty() || r.back().second != x.m[i])
                r.push_back({i, x.m[i]});
        return r;
    }

    static int seg_start(const slot& x, int i)
    {
        while (i > 0 && x.m[i - 1] == x.m[i])
            --i;
        return i;
    }
    static int seg_end(const slot& x, int i)
    {
        int e = i + 1;
        while (e < x.n() && x.m[e] == x.m[i])
            ++e;
        return e;
    }

    // every key reads back the model's value
    void check_content(const slot& x)
    {
        const tree_t& t = *x.t;
        // walk the leaf sequence (robust against non-canonical splits)
        auto it = t.begin(), ite = t.end();
        VF_CHECK(it != ite, "empty leaf sequence");
        VF_CHECK(it->first == x.key(0), "first key is " << +it->first);
        K pos = it->first;
        V val = it->second;
        int idx = 0;
        ++it;
        int guard = 0;
        for (; it != ite; ++it)
        {
            VF_CHECK(++guard <= x.n() + 1, "more boundaries than keys");
            K nk = it->first;
            VF_CHECK(pos < nk, "keys not increasing: " << +pos << " then " << +nk);
            while (idx < x.n() && x.key(idx) < nk)
            {
                VF_CHECK(val == mkv<V>(x.m[idx]), "key " << +x.key(idx) << " holds '" << show(val) << "' but the model says v" << x.m[idx] << " (" << show(x) << ")");
                ++idx;
            }
            pos = nk;
            val = it->second;
        }
        VF_CHECK(pos == x.key(x.n()), "last key is " << +pos);
        VF_CHECK(idx == x.n(), "not all keys covered");
        VF_CHECK(t.min_key() == x.key(0) && t.max_key() == x.key(x.n()), "bounds changed");
        VF_CHECK(t.default_value() == mkv<V>(x.init), "default value changed");
    }

    void check_canonical(const slot& x)
    {
        const tree_t& t = *x.t;
        auto sg = segs(x);
        // forward
        size_t k = 0;
        for (auto it = t.begin(); it != t.end(); ++it, ++k)
        {
            VF_CHECK(k <= sg.size(), "too many leaf entries for " << show(x));
            K want = k < sg.size() ? x.key(sg[k].first) : x.key(x.n());
            VF_CHECK(it->first == want, "leaf " << k << " has key " << +it->first << ", expected " << +want << " for " << show(x));
            if (k < sg.size())
                VF_CHECK(it->second == mkv<V>(sg[k].second), "leaf " << k << " has value " << show(it->second));
        }
        VF_CHECK(k == sg.size() + 1, "only " << k << " leaf entries for " << show(x));
        VF_CHECK(t.leaf_size() == sg.size() + 1, "leaf_size " << t.leaf_size());
        // backward from end
        {
            auto it = t.end();
            for (size_t j = sg.size() + 1; j-- > 0;)
            {
                --it;
                K want = j < sg.size() ? x.key(sg[j].first) : x.key(x.n());
                VF_CHECK(it->first == want, "stepping back from end gives " << +it->first << " expected " << +want);
            }
            VF_CHECK(it == t.begin(), "stepping back does not arrive at begin");
        }
        // reverse
        k = sg.size() + 1;
        for (auto it = t.rbegin(); it != t.rend(); ++it)
        {
            VF_CHECK(k > 0, "reverse iteration too long");
            --k;
            K want = k < sg.size() ? x.key(sg[k].first) : x.key(x.n());
            VF_CHECK(it->first == want, "reverse leaf has key " << +it->first << " expected " << +want);
            if (k < sg.size())
                VF_CHECK(it->second == mkv<V>(sg[k].second), "reverse leaf has value " << show(it->second));
        }
        VF_CHECK(k == 0, "reverse iteration too short");
        // segments
        auto check_seg = [&](auto it, auto ite) {
            size_t j = 0;
            for (; it != ite; ++it, ++j)
            {
                VF_CHECK(j < sg.size(), "too many segments");
                K a = x.key(sg[j].first), b = j + 1 < sg.size() ? x.key(sg[j + 1].first) : x.key(x.n());
                VF_CHECK(it->start == a && it->end == b, "segment [" << +it->start << "," << +it->end << ") expected [" << +a << "," << +b << ")");
                VF_CHECK(it->value == mkv<V>(sg[j].second), "segment value " << show(it->value));
            }
            VF_CHECK(j == sg.size(), "too few segments: " << j);
        };
        check_seg(t.begin_segment(), t.end_segment());
        {
            auto rg = t.segment_range();
            check_seg(rg.begin(), rg.end());
        }
        {
            auto it = t.end_segment();
            for (size_t j = sg.size(); j-- > 0;)
            {
                --it;
                VF_CHECK(it->start == x.key(sg[j].first), "stepping a segment iterator back gives " << +it->start);
                VF_CHECK(it->value == mkv<V>(sg[j].second), "stepping a segment iterator back gives value " << show(it->value));
            }
            VF_CHECK(it == t.begin_segment(), "segment iteration back does not arrive at the first segment");
        }
        // to_segment
        {
            size_t j = 0;
            for (auto it = t.begin(); it != t.end(); ++it, ++j)
            {
                auto si = it.to_segment();
                if (j < sg.size())
                {
                    K b = j + 1 < sg.size() ? x.key(sg[j + 1].first) : x.key(x.n());
                    VF_CHECK(si->start == it->first && si->end == b && si->value == it->second, "to_segment of leaf " << j);
                }
                else
                    VF_CHECK(si == t.end_segment(), "to_segment of the last leaf is not the end segment");
            }
            VF_CHECK(t.end().to_segment() == t.end_segment(), "to_segment of end");
        }
    }

    void expect_hit(const slot& x, int i, std::pair<typename tree_t::const_iterator, bool> r, const V& v, K a, K b, const char* what)
    {
        const tree_t& t = *x.t;
        int ss = seg_start(x, i), se = seg_end(x, i);
        VF_CHECK(r.second, what << "(" << +x.key(i) << ") not found in " << show(x));
        VF_CHECK(v == mkv<V>(x.m[i]), what << "(" << +x.key(i) << ") = " << show(v) << " in " << show(x));
        VF_CHECK(a == x.key(ss) && b == x.key(se), what << "(" << +x.key(i) << ") segment [" << +a << "," << +b << ") in " << show(x));
        VF_CHECK(r.first != t.end() && r.first->first == a && r.first->second == v, what << "(" << +x.key(i) << ") iterator");
    }

    void search_probe(slot& x, bool deep)
    {
        const tree_t& t = *x.t;
        long i;
        unsigned off = 0;
        {
            i = long(c.below(x.n() + 4)) - 2;
            if (x.scale > 1)
                off = c.below(x.scale);
        }
        i = std::clamp(i, x.ulo, x.uhi);
        if (i == x.uhi)
            off = 0;
        K key = K(x.base + i * x.scale + off);
        bool in = key >= x.key(0) && key < x.key(x.n());
        int ki = in ? int(i) : -1;
        VF_LOG(c, "probe key " << +key);
        const V sentinel = mkv<V>(int(c.below(nv)));
        const K ks = K(77);
        auto expect = [&](auto call, const char* what, bool may) {
            V v = sentinel;
            K a = ks, b = ks;
            auto r = call(v, a, b);
            if (in && may)
                expect_hit_k(x, ki, key, r, v, a, b, what);
            else
            {
                VF_CHECK(!r.second, what << "(" << +key << ") reports success");
                VF_CHECK(r.first == t.end(), what << "(" << +key << ") miss does not return end");
                VF_CHECK(v == sentinel && a == ks && b == ks, what << "(" << +key << ") wrote outputs on a miss");
            }
        };
        expect([&](V& v, K& a, K& b) { return t.search(key, v, &a, &b); }, "search", true);
        {
            auto it = t.search(key);
            if (in)
                VF_CHECK(it != t.end() && it->first == x.key(seg_start(x, ki)) && it->second == mkv<V>(x.m[ki]), "search(key) for " << +key << " in " << show(x));
            else
                VF_CHECK(it == t.end(), "search(key) out of range for " << +key);
        }
        if (deep)
        {
            // hints: any leaf of this tree, end, a default iterator, an iterator of another tree
            unsigned h = c.below(6);
            typename tree_t::const_iterator hint;
            if (h <= 2)
            {
                hint = t.begin();
                unsigned st = c.below(t.leaf_size());
                for (unsigned k = 0; k < st; ++k)
                    ++hint;
                VF_LOG(c, " hint = leaf " << st);
            }
            else if (h == 3)
                hint = t.end();
            else if (h == 4)
                VF_LOG(c, " hint = default iterator");
            else
            {
                auto& o = s[c.below(s.size())];
                if (o.live)
                {
                    hint = o.t->begin();
                    unsigned st = c.below(o.t->leaf_size());
                    for (unsigned k = 0; k < st; ++k)
                        ++hint;
                    VF_LOG(c, " hint = leaf " << st << " of a tree of the pool");
                    VF_COVER(c, "foreign hint");
                }
            }
            expect([&](V& v, K& a, K& b) { return t.search(hint, key, v, &a, &b); }, "search(hint)", true);
            auto it = t.search(hint, key);
            if (in)
                VF_CHECK(it != t.end() && it->first == x.key(seg_start(x, ki)) && it->second == mkv<V>(x.m[ki]), "search(hint,key) for " << +key << " in " << show(x));
            else
                VF_CHECK(it == t.end(), "search(hint,key) out of range for " << +key);
        }
        bool valid = t.valid_tree();
        expect([&](V& v, K& a, K& b) { return t.search_tree(key, v, &a, &b); }, "search_tree", valid);
        {
            auto it = t.search_tree(key);
            if (in && valid)
                VF_CHECK(it != t.end() && it->first == x.key(seg_start(x, ki)) && it->second == mkv<V>(x.m[ki]), "search_tree(key) for " << +key << " in " << show(x));
            else
                VF_CHECK(it == t.end(), "search_tree(key) must miss for " << +key);
        }
        if (in && valid)
        {
            VF_COVER(c, "tree search hit");
        }
        // null output pointers are allowed
        V v = sentinel;
        VF_CHECK(t.search(key, v).second == in, "search without start/end");
        VF_CHECK(t.search_tree(key, v).second == (in && valid), "search_tree without start/end");
    }

    void expect_hit_k(const slot& x, int i, K key, const std::pair<typename tree_t::const_iterator, bool>& r, const V& v, K a, K b, const char* what)
    {
        (void)key;
        expect_hit(x, i, r, v, a, b, what);
    }

    void all_search(slot& x)
    {
        const tree_t& t = *x.t;
        for (int i = 0; i < x.n(); ++i)
        {
            V v{};
            K a{}, b{};
            auto r = t.search(x.key(i), v, &a, &b);
            expect_hit(x, i, r, v, a, b, "search");
            if (t.valid_tree())
            {
                V v2{};
                K a2{}, b2{};
                auto r2 = t.search_tree(x.key(i), v2, &a2, &b2);
                expect_hit(x, i, r2, v2, a2, b2, "search_tree");
            }
        }
    }

    void verify(slot& x)
    {
        switch (f)
        {
            case F_CONTENT: check_content(x); break;
            case F_CANON: check_canonical(x); break;
            case F_SEARCH: break;
            case F_VALUE: check_content(x); break;
        }
    }

    void op_insert(slot& x)
    {
        int n = x.n();
        long a = long(c.below(n + 5)) - 2, b;
        switch (c.below(4))
        {
            case 0: b = long(c.below(n + 5)) - 2; break;
            case 1: b = a + 1 + long(c.below(3)); break;
            case 2: b = n; break;
            default: b = a + 1 + long(c.below(n)); break;
        }
        a = std::clamp(a, x.ulo, x.uhi);
        b = std::clamp(b, x.ulo, x.uhi);
        int v = int(c.below(nv));
        unsigned how = c.below(3);
        typename tree_t::const_iterator hint;
        if (how == 2)
        {
            unsigned h = c.below(8);
            if (h <= 4)
            {
                hint = x.t->begin();
                unsigned st = c.below(x.t->leaf_size());
                for (unsigned k = 0; k < st; ++k)
                    ++hint;
                VF_LOG(c, " hint leaf " << st);
            }
            else if (h == 5)
                hint = x.t->end();
            else if (h == 6)
            {
                auto& o = s[c.below(s.size())];
                if (o.live)
                    hint = o.t->begin();
            }
        }
        VF_LOG(c, "insert how=" << how << " [" << a << "," << b << ") units = v" << v);
        std::vector<int> before = x.m;
        long ca = std::max(a, 0l), cb = std::min<long>(b, n);
        bool valid = a < b && ca < cb;
        // An interval that ends exactly where the tree begins shares no key
        // with it.
        if (valid)
            for (long i = ca; i < cb; ++i)
                x.m[i] = v;
        bool change = x.m != before;
        bool was_valid = x.t->valid_tree();
        std::pair<typename tree_t::const_iterator, bool> r;
        if (how == 0)
            r = x.t->insert_front(x.key(a), x.key(b), mkv<V>(v));
        else if (how == 1)
            r = x.t->insert_back(x.key(a), x.key(b), mkv<V>(v));
        else
            r = x.t->insert(hint, x.key(a), x.key(b), mkv<V>(v));
        if (f == F_CONTENT)
        {
            VF_CHECK(r.second == change, "insert reports changed=" << r.second << ", content " << (change ? "changed" : "did not change") << "; now " << show(x));
            if (valid)
            {
                VF_CHECK(r.first != x.t->end(), "insert returned end");
                K want = x.key(seg_start(x, int(ca)));
                VF_CHECK(r.first->first == want, "insert returned an iterator at key " << +r.first->first << ", the segment starts at " << +want);
                VF_CHECK(r.first->second == mkv<V>(v), "insert returned an iterator with value " << show(r.first->second));
            }
            else
                VF_CHECK(r.first == x.t->end() && !r.second, "rejected insert must return (end, false)");
        }
        if (f == F_SEARCH)
        {
            if (change)
                VF_CHECK(!x.t->valid_tree(), "the tree is still reported valid after a modification");
            else
                VF_CHECK(x.t->valid_tree() == was_valid, "a no-op insertion changed the tree's validity");
        }
        if (valid && (a < 0 || b > n))
            VF_COVER(c, "clipped insert");
        if (change)
        {
            ++changed_ops;
            if (segs(x).size() < 3)
                VF_COVER(c, "insert collapsing segments");
        }
    }

    void op_shift_left(slot& x)
    {
        int n = x.n();
        long a = long(c.below(n + 3)) - 1, b;
        switch (c.below(4))
        {
            case 0: b = long(c.below(n + 3)) - 1; break;
            case 1: b = n; break;
            case 2: { auto sg = segs(x); b = sg[c.below(sg.size())].first; break; }
            default: b = a + 1 + long(c.below(3));
        }
        if (c.coin())
        {
            auto sg = segs(x);
            a = sg[c.below(sg.size())].first;
        }
        a = std::clamp(a, x.ulo, x.uhi);
        b = std::clamp(b, x.ulo, x.uhi);
        if (std::is_integral_v<K> && a < b)
            b = std::min(b, a + x.longest()); // the size has to be a key
        VF_LOG(c, "shift_left [" << a << "," << b << ")");
        if (a < b && a >= 0 && b <= n)
        {
            long sz = b - a;
            std::vector<int> o = x.m;
            for (long i = a; i < n; ++i)
                x.m[i] = i + sz < n ? o[i + sz] : x.init;
            shifted = true;
            ++changed_ops;
            VF_COVER(c, "shift_left effective");
        }
        x.t->shift_left(x.key(a), x.key(b));
    }

    void op_shift_right(slot& x)
    {
        int n = x.n();
        long a;
        if (c.coin())
        {
            auto sg = segs(x);
            a = sg[c.below(sg.size())].first;
        }
        else
            a = long(c.below(n + 3)) - 1;
        a = std::clamp(a, x.ulo, x.uhi);
        long sz = c.below(c.coin() ? 3 : n + 3);
        if (std::is_integral_v<K>)
            sz = std::min(sz, x.longest());
        bool skip = c.coin();
        VF_LOG(c, "shift_right pos " << a << " size " << sz << " skip " << skip);
        if (sz > 0 && a >= 0 && a < n)
        {
            std::vector<int> o = x.m;
            bool at_node = a == 0 || o[a - 1] != o[a];
            int fill = (at_node && !skip) ? (a == 0 ? x.init : o[a - 1]) : o[a];
            for (long i = a; i < n; ++i)
                x.m[i] = i < a + sz ? fill : o[i - sz];
            shifted = true;
            ++changed_ops;
            VF_COVER(c, "shift_right effective");
        }
        x.t->shift_right(x.key(a), K(sz * x.scale), skip);
    }

    void eq_all()
    {
        for (auto& p : s)
            for (auto& q : s)
            {
                if (!p.live || !q.live)
                    continue;
                bool same = p.n() == q.n() && p.key(0) == q.key(0) && p.key(p.n()) == q.key(q.n());
                bool content = same && p.scale == q.scale;
                if (content)
                {
                    auto sp = segs(p), sq = segs(q);
                    if (sp.size() != sq.size())
                        content = false;
                    else
                        for (size_t i = 0; i < sp.size(); ++i)
                            if (sp[i].first != sq[i].first || !(mkv<V>(sp[i].second) == mkv<V>(sq[i].second)))
                                content = false;
                }
                else if (same && p.scale != q.scale)
                    continue;
                else
                {
                    // different bounds
                    content = false;
                    if (p.key(0) == q.key(0) && p.key(p.n()) == q.key(q.n()))
                        continue; // same bounds through different scales
                }
                VF_CHECK((*p.t == *q.t) == content, "equality of " << show(p) << " and " << show(q));
                VF_CHECK((*p.t != *q.t) == !content, "inequality of " << show(p) << " and " << show(q));
                if (content && &p != &q)
                    VF_COVER(c, "equal pair");
            }
    }

    void op_value(unsigned i)
    {
        slot& x = s[i];
        switch (c.below(9))
        {
            case 0:
            {
                VF_LOG(c, "copy-construct #" << i << " -> new #" << s.size());
                if (s.size() >= 4)
                    s.erase(s.begin() + (i == 0 ? 1 : 0)), i = (i == 0 ? 0 : i - 1);
                slot& y = s[i];
                slot z;
                z.m = y.m, z.init = y.init, z.base = y.base, z.scale = y.scale, z.ulo = y.ulo, z.uhi = y.uhi;
                z.t = std::make_unique<tree_t>(*y.t);
                s.push_back(std::move(z));
                VF_COVER(c, "copy construct");
                break;
            }
            case 1:
            {
                VF_LOG(c, "move-construct #" << i << " into itself via a temporary");
                bool v = x.t->valid_tree();
                auto nt = std::make_unique<tree_t>(std::move(*x.t));
                x.t = std::move(nt);
                VF_CHECK(x.t->valid_tree() == v, "move construction changed the tree validity");
                VF_COVER(c, "move construct");
                break;
            }
            case 2:
            {
                unsigned j = c.below(s.size());
                if (!s[j].live)
                    return;
                VF_LOG(c, "copy-assign #" << i << " = #" << j);
                x.m = s[j].m, x.init = s[j].init, x.base = s[j].base, x.scale = s[j].scale, x.ulo = s[j].ulo, x.uhi = s[j].uhi;
                auto& rt = (*x.t = *s[j].t);
                VF_CHECK(&rt == x.t.get(), "assignment result");
                VF_COVER(c, "copy assign");
                break;
            }
            case 3:
            {
                unsigned j = c.below(s.size());
                if (j == i || !s[j].live)
                    return;
                VF_LOG(c, "move-assign #" << i << " = std::move(#" << j << ")");
                x.m = s[j].m, x.init = s[j].init, x.base = s[j].base, x.scale = s[j].scale, x.ulo = s[j].ulo, x.uhi = s[j].uhi;
                bool v = s[j].t->valid_tree();
                *x.t = std::move(*s[j].t);
                VF_CHECK(x.t->valid_tree() == v, "move assignment changed the tree validity");
                s[j].live = false;
                VF_COVER(c, "move assign");
                // the moved-from tree may be destroyed or assigned
                if (c.coin())
                {
                    VF_LOG(c, " then re-assign the moved-from tree");
                    *s[j].t = *x.t;
                    s[j].m = x.m, s[j].init = x.init, s[j].base = x.base, s[j].scale = x.scale, s[j].ulo = x.ulo, s[j].uhi = x.uhi;
                    s[j].live = true;
                }
                else
                    s.erase(s.begin() + j);
                break;
            }
            case 4:
            case 5:
            {
                unsigned j = c.below(s.size());
                VF_LOG(c, "swap #" << i << " #" << j);
                bool vi = x.t->valid_tree(), vj = s[j].t->valid_tree();
                if (c.coin())
                    x.t->swap(*s[j].t);
                else
                {
                    using std::swap;
                    swap(*x.t, *s[j].t);
                }
                std::swap(x.m, s[j].m);
                std::swap(x.init, s[j].init);
                std::swap(x.base, s[j].base);
                std::swap(x.scale, s[j].scale);
                std::swap(x.ulo, s[j].ulo);
                std::swap(x.uhi, s[j].uhi);
                VF_CHECK(s[j].t->valid_tree() == vi && x.t->valid_tree() == vj, "swap lost tree validity");
                VF_COVER(c, "swap");
                break;
            }
            case 6:
            case 7:
                VF_LOG(c, "build_tree #" << i);
                x.t->build_tree();
                break;
            case 8:
                if (s.size() < 4)
                    s.push_back(make());
                break;
        }
    }

    void run()
    {
        s.reserve(8);
        s.push_back(make());
        if (f == F_VALUE || f == F_SEARCH)
            s.push_back(make());
        if (f == F_VALUE && c.coin())
        {
            // a twin with the same bounds, so that equality is exercised
            slot z;
            z.m = s[0].m, z.base = s[0].base, z.scale = s[0].scale, z.init = s[0].init, z.ulo = s[0].ulo, z.uhi = s[0].uhi;
            z.t = std::make_unique<tree_t>(z.key(0), z.key(z.n()), mkv<V>(z.init));
            s.push_back(std::move(z));
        }
        static const unsigned lens[] = {6, 15, 40};
        unsigned avg = lens[c.below(3)];
        while (c.more(avg) && ops < 200)
        {
            ++ops;
            unsigned i = s.size() > 1 ? c.below(s.size()) : 0;
            slot& x = s[i];
            unsigned op;
            if (f == F_VALUE)
                op = c.weighted({5, 1, 1, 1, 0, 8});
            else if (f == F_SEARCH)
                op = c.weighted({6, 1, 1, 1, 4, 1});
            else
                op = c.weighted({8, 3, 3, 1, 1, 0});
            VF_LOG(c, "#" << i << ":");
            switch (op)
            {
                case 0: op_insert(x); break;
                case 1: op_shift_left(x); break;
                case 2: op_shift_right(x); break;
                case 3:
                    VF_LOG(c, "clear");
                    x.t->clear();
                    std::fill(x.m.begin(), x.m.end(), x.init);
                    if (f == F_SEARCH)
                        VF_CHECK(!x.t->valid_tree(), "tree valid after clear");
                    break;
                case 4:
                    VF_LOG(c, "build_tree");
                    x.t->build_tree();
                    VF_CHECK(x.t->valid_tree(), "build_tree did not make the tree valid");
                    break;
                case 5: op_value(i); break;
            }
            if (f == F_VALUE)
            {
                for (auto& y : s)
                    if (y.live)
                        verify(y);
                eq_all();
                auto& y = s[c.below(s.size())];
                if (y.live && y.t->valid_tree())
                    all_search(y);
            }
            else if (f == F_SEARCH)
            {
                auto& y = s[c.below(s.size())];
                search_probe(y, true);
                search_probe(y, true);
                if (c.chance(1, 4))
                    all_search(y);
            }
            else
                verify(s[i]);
        }
        for (auto& y : s)
            if (f == F_SEARCH)
            {
                all_search(y);
                y.t->build_tree();
                all_search(y);
            }
        if (ops >= 3 && changed_ops >= 2)
            c.nontrivial();
    }
};

template<focus F, typename K, typename V>
void run_case(src& c)
{
    driver<K, V>(c, F).run();
}

#if VF_FOR(1)
#define RULE \
    "random histories over trees of 1..80 unit keys (5 key/value type pairs, scaled and offset keys); non-trivial: at least 3 operations of which at least 2 changed the content; after every operation every key is compared with a per-key array, and the returned iterator and flag with the model"
#if VF_IN(0)
VF_PROPERTY("C01", (run_case<F_CONTENT, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C01", (run_case<F_CONTENT, long, bool>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C01", (run_case<F_CONTENT, unsigned, std::string>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C01", (run_case<F_CONTENT, double, unsigned char>), RULE);
#endif
#if VF_IN(4)
VF_PROPERTY("C01", (run_case<F_CONTENT, short, double>), RULE);
#endif
#undef RULE
#endif

#if VF_FOR(2)
#define RULE \
    "random histories over trees of 1..80 unit keys (5 key/value type pairs, scaled and offset keys); non-trivial: at least 3 operations of which at least 2 changed the content; after every operation all iteration styles are compared with the maximal constant runs of the array"
#if VF_IN(0)
VF_PROPERTY("C02", (run_case<F_CANON, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C02", (run_case<F_CANON, long, bool>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C02", (run_case<F_CANON, unsigned, std::string>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C02", (run_case<F_CANON, double, unsigned char>), RULE);
#endif
#if VF_IN(4)
VF_PROPERTY("C02", (run_case<F_CANON, short, double>), RULE);
#endif
#undef RULE
#endif

#if VF_FOR(3)
#define RULE \
    "random histories over trees of 1..80 unit keys (5 key/value type pairs, scaled and offset keys); non-trivial: at least 3 operations of which at least 2 changed the content; linear, hinted and tree searches at random keys (inside, at the ends, outside) with all kinds of hints"
#if VF_IN(0)
VF_PROPERTY("C03", (run_case<F_SEARCH, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C03", (run_case<F_SEARCH, long, bool>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C03", (run_case<F_SEARCH, unsigned, std::string>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C03", (run_case<F_SEARCH, double, unsigned char>), RULE);
#endif
#if VF_IN(4)
VF_PROPERTY("C03", (run_case<F_SEARCH, short, double>), RULE);
#endif
#undef RULE
#endif

#if VF_FOR(4)
#define RULE \
    "random histories over trees of 1..80 unit keys (5 key/value type pairs, scaled and offset keys); non-trivial: at least 3 operations of which at least 2 changed the content; pool of up to 4 trees under copy/move/assign/swap/clear/insert; all pairs compared for equality"
#if VF_IN(0)
VF_PROPERTY("C04", (run_case<F_VALUE, int, int>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C04", (run_case<F_VALUE, long, bool>), RULE);
#endif
#if VF_IN(2)
VF_PROPERTY("C04", (run_case<F_VALUE, unsigned, std::string>), RULE);
#endif
#if VF_IN(3)
VF_PROPERTY("C04", (run_case<F_VALUE, double, unsigned char>), RULE);
#endif
#if VF_IN(4)
VF_PROPERTY("C04", (run_case<F_VALUE, short, double>), RULE);
#endif
#undef RULE
#endif

VF_MAIN
