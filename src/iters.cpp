// Iterators of every container as values and as positions (C37).
#include "vf.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <mdds/multi_type_matrix.hpp>
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/point_quad_tree.hpp>
#include <mdds/rtree.hpp>
#include <mdds/segment_tree.hpp>
#include <mdds/trie_map.hpp>
#include <iterator>
#include <optional>

#ifndef VF_PART
#define VF_PART 0
#endif

using vf::src;

#define ITER_RULE "the iterators of a generated container, all pairs and a generated walk (step, copy, assign, swap); non-trivial: a sequence of 3 or more elements"

template<typename T>
void put(std::ostringstream& os, const T& v)
{
    os << v << '|';
}
template<typename... Ts>
std::string row(const Ts&... vs)
{
    std::ostringstream os;
    (put(os, vs), ...);
    return os.str();
}

// The iterators from `b` up to `e`, after every check that one sequence allows.
// read(it) tells what an iterator refers to; back: it can step backward.
template<typename It, typename Read>
std::vector<It> sequence(src& c, const char* what, It b, It e, Read read, bool back, size_t expect)
{
    std::vector<It> v;
    std::vector<std::string> val;
    {
        It it(b);
        while (!(it == e))
        {
            VF_CHECK(v.size() < expect, what << ": more than " << expect << " elements from begin to end");
            VF_CHECK(it != e, what << ": == and != agree");
            v.push_back(it);
            val.push_back(read(it));
            ++it;
        }
        VF_CHECK(!(it != e), what << ": == and != at the end");
        v.push_back(it);
    }
    const size_t n = v.size() - 1;
    VF_CHECK(n == expect, what << ": " << n << " elements from begin to end, expected " << expect);
    VF_COVER(c, what);
    auto at = [&](It& it, size_t i, const char* how) {
        VF_CHECK(it == v[i] && v[i] == it && !(it != v[i]), what << ": " << how << ": the iterator differs from the one of position " << i << " of " << n);
        if (i < n)
            VF_CHECK(read(it) == val[i], what << ": " << how << ": position " << i << " reads " << read(it) << ", expected " << val[i]);
        if (n)
        {
            size_t o = c.below(n + 1);
            if (o != i)
                VF_CHECK(!(it == v[o]) && it != v[o], what << ": " << how << ": the iterator of position " << i << " equals that of " << o << " of " << n);
        }
    };
    // equal exactly when they stand at the same place
    if (n <= 9)
    {
        for (size_t i = 0; i <= n; ++i)
            for (size_t j = 0; j <= n; ++j)
                VF_CHECK((v[i] == v[j]) == (i == j) && (v[i] != v[j]) == (i != j), what << ": comparing positions " << i << " and " << j << " of " << n);
    }
    else
        for (int k = 0; k < 20; ++k)
        {
            size_t i = c.below(n + 1), j = c.coin() ? std::min(n, i + 1) : c.below(n + 1);
            VF_CHECK((v[i] == v[j]) == (i == j) && (v[i] != v[j]) == (i != j), what << ": comparing positions " << i << " and " << j << " of " << n);
        }
    // the algorithms of the standard library
    if constexpr (requires { typename It::iterator_category; })
    {
        using cat = typename It::iterator_category;
        VF_CHECK(size_t(std::distance(b, e)) == n, what << ": std::distance");
        size_t i = c.below(n + 1), j = i + c.below(n + 1 - i);
        It x = std::next(v[i], long(j - i));
        at(x, j, "std::next");
        if constexpr (std::is_base_of_v<std::bidirectional_iterator_tag, cat>)
        {
            It y = std::prev(v[j], long(j - i));
            at(y, i, "std::prev");
        }
    }
    // a walk
    size_t i = c.coin() ? 0 : n;
    It cur(v[i]);
    for (int s = 0; s < 40 && c.more(14); ++s)
    {
        switch (c.below(9))
        {
            case 0:
            case 1:
                if (i < n)
                {
                    using ret = decltype(++cur);
                    if constexpr (std::is_pointer_v<ret>)
                    {
                        auto p = ++cur; // the value stepped to
                        ++i;
                        VF_CHECK((p != nullptr) == (i < n), what << ": ++ returns " << (p ? "a value" : "null") << " at position " << i << " of " << n);
                        if (p)
                            VF_CHECK(p == &*cur, what << ": ++ returns another value than the one it moves to");
                        at(cur, i, "++");
                    }
                    else
                    {
                        VF_CHECK(&(++cur) == &cur, what << ": ++ does not return the iterator");
                        at(cur, ++i, "++");
                    }
                }
                break;
            case 2:
            case 3:
                if constexpr (requires(It x) { --x; })
                    if (back && i > 0)
                    {
                        using ret = decltype(--cur);
                        if constexpr (std::is_pointer_v<ret>)
                        {
                            auto p = --cur;
                            VF_CHECK(p == &*cur, what << ": -- returns another value than the one it moves to");
                        }
                        else
                            VF_CHECK(&(--cur) == &cur, what << ": -- does not return the iterator");
                        at(cur, --i, "--");
                    }
                break;
            case 4:
                if constexpr (requires(It x) { x++; })
                    if (i < n)
                    {
                        auto old = cur++;
                        VF_CHECK(old == v[i] && !(old == v[i + 1]), what << ": post-increment at position " << i << " returns another place");
                        at(cur, ++i, "post-increment");
                    }
                break;
            case 5:
                if constexpr (requires(It x) { x--; })
                    if (back && i > 0)
                    {
                        auto old = cur--;
                        VF_CHECK(old == v[i] && !(old == v[i - 1]), what << ": post-decrement at position " << i << " returns another place");
                        at(cur, --i, "post-decrement");
                    }
                break;
            case 6: // a copy that goes its own way
            {
                It x(cur);
                at(x, i, "copy");
                if (i < n)
                    ++x, at(x, i + 1, "++ on a copy");
                at(cur, i, "after ++ on a copy");
                break;
            }
            case 7: // assigned from another place
            {
                size_t j = c.below(n + 1);
                It src_(v[j]);
                if (c.coin())
                    cur = src_;
                else
                    cur = std::move(src_);
                i = j;
                at(cur, i, "assignment");
                It* self = &cur;
                cur = *self;
                at(cur, i, "self-assignment");
                break;
            }
            case 8: // exchanged with one that stands elsewhere
            {
                size_t j = c.below(n + 1);
                It x(v[j]);
                std::swap(cur, x);
                at(x, i, "std::swap");
                at(cur, j, "std::swap");
                i = j;
                break;
            }
        }
    }
    // none of this has moved the stored ones
    for (size_t k = 0; k < n; ++k)
        VF_CHECK(read(v[k]) == val[k], what << ": the stored iterator of position " << k << " now reads " << read(v[k]) << ", before " << val[k]);
    if (n >= 3)
        c.nontrivial();
    return v;
}

// ------------------------------------------------------------------- the trees
#if VF_PART == 0

struct read_pair
{
    template<typename It>
    std::string operator()(It it) const
    {
        auto kv = *it;
        VF_CHECK(it->first == kv.first && it->second == kv.second, "-> and * differ");
        return row(kv.first, kv.second);
    }
};

template<typename V>
void fst_case(src& c)
{
    using T = mdds::flat_segment_tree<int, V>;
    auto val = [](int i) {
        if constexpr (std::is_same_v<V, std::string>)
            return std::string(size_t(i), 'v');
        else
            return V(i);
    };
    T t(0, 100, val(0));
    for (int i = 0; i < 40 && c.more(8); ++i)
    {
        int a = int(c.below(100)), b = a + 1 + int(c.below(20)), v = int(c.below(4));
        VF_LOG(c, "insert " << a << " " << b << " " << v);
        if (c.coin())
            t.insert_back(a, b, val(v));
        else
            t.insert_front(a, b, val(v));
    }
    const T copy(t);
    if (c.coin())
        t.build_tree();
    const size_t n = t.leaf_size();
    auto v = sequence(c, "flat_segment_tree iterator", t.begin(), t.end(), read_pair(), true, n);
    auto r = sequence(c, "flat_segment_tree reverse iterator", t.rbegin(), t.rend(), read_pair(), true, n);
    auto sg = t.segment_range();
    auto s = sequence(c, "flat_segment_tree segment iterator", sg.begin(), sg.end(), [](auto it) {
        VF_CHECK(it->start == (*it).start, "-> and * differ");
        return row(it->start, it->end, it->value);
    }, true, n - 1);
    VF_CHECK(t.begin_segment() == s[0], "begin_segment() is not the begin of segment_range()");
    for (size_t i = 0; i < n; ++i)
        VF_CHECK(read_pair()(v[i]) == read_pair()(r[n - 1 - i]), "the reverse order");
    // the same place reached in other ways
    int key = int(c.below(100));
    size_t i = 0;
    while (i + 1 < n && v[i + 1]->first <= key)
        ++i;
    VF_LOG(c, "key " << key << ", segment " << i << " of " << n);
    V out{};
    auto same = [&](const char* how, auto it) {
        VF_CHECK(it == v[i] && !(it != v[i]), how << "(" << key << ") is not the iterator of segment " << i << " of " << n);
        size_t o = c.below(n + 1);
        VF_CHECK((it == v[o]) == (i == o), how << "(" << key << ") compared with the iterator of segment " << o << " of " << n);
    };
    same("search", t.search(key));
    same("search", t.search(key, out).first);
    same("search with hint", t.search(v[c.below(n)], key));
    same("search with hint", t.search(v[c.below(n)], key, out).first);
    if (t.valid_tree())
    {
        same("search_tree", t.search_tree(key));
        same("search_tree", t.search_tree(key, out).first);
    }
    VF_CHECK(v[i].to_segment() == s[i], "to_segment() of segment " << i << " of " << n);
    size_t o = c.below(n);
    VF_CHECK((v[i].to_segment() == s[o]) == (i == o), "to_segment() of segment " << i << " compared with segment " << o);
    VF_CHECK(t.search(100) == t.end() && t.search(-1) == t.end(), "a key out of range is at end()");
    // another container
    VF_CHECK(!(copy.begin() == t.begin()) && copy.begin() != t.begin() && copy.end() != t.end(), "iterators of two containers are equal");
    // the iterator that insert returns
    int a = int(c.below(100)), b = a + 1 + int(c.below(20));
    VF_LOG(c, "insert " << a << " " << b);
    auto it = (c.coin() ? t.insert_back(a, b, val(int(c.below(4)))) : t.insert(t.begin(), a, b, val(int(c.below(4))))).first;
    auto f = t.search(a);
    VF_CHECK(it == f, "insert(" << a << ", " << b << ") does not return the iterator of the segment that holds " << a);
    size_t left = 0;
    for (auto x = it; x != t.end(); ++x)
        ++left;
    for (auto x = it; x != t.begin(); --x)
        ++left;
    VF_CHECK(left == t.leaf_size(), "from the iterator that insert returned there are " << left << " steps to begin and end");
}

void segtree_case(src& c)
{
    using T = mdds::segment_tree<int, std::string>;
    T t;
    std::vector<std::pair<int, int>> m;
    for (int i = 0; i < 40 && c.more(10); ++i)
    {
        int a = int(c.below(60)), b = a + 1 + int(c.below(50));
        VF_LOG(c, "insert " << a << " " << b);
        t.insert(a, b, "v" + std::to_string(i));
        m.emplace_back(a, b);
    }
    t.build_tree();
    auto read = [](auto it) {
        VF_CHECK(it->value == (*it).value, "-> and * differ");
        return row(it->start, it->end, it->value);
    };
    for (int k = 0; k < 2; ++k)
    {
        int key = int(c.below(110));
        VF_LOG(c, "search " << key);
        auto r = t.search(key);
        size_t n = 0;
        for (auto [a, b] : m)
            n += a <= key && key < b;
        auto v = sequence(c, "segment_tree search result", r.begin(), r.end(), read, true, n);
        auto r2(r); // a copy of the result set stands for the same results
        auto it = r2.begin();
        for (size_t i = 0; i < n; ++i, ++it)
            VF_CHECK(read(it) == read(v[i]), "a copy of the result set is in another order");
        VF_CHECK(it == r2.end(), "a copy of the result set is longer");
        // a result set of its own
        auto r3 = t.search(key);
        if (n)
            VF_CHECK(!(r3.begin() == r.begin()) && r3.begin() != r.end(), "iterators of two result sets are equal");
        if (n)
            VF_CHECK(T().search(key).begin() != r.begin(), "an iterator of an empty result set equals that of another one");
    }
}

void quad_case(src& c)
{
    using T = mdds::point_quad_tree<int, std::string>;
    T t;
    std::map<std::pair<int, int>, int> m;
    for (int i = 0; i < 50 && c.more(14); ++i)
    {
        int x = int(c.below(16)), y = int(c.below(16));
        VF_LOG(c, "insert " << x << " " << y);
        t.insert(x, y, "v" + std::to_string(i));
        m[{x, y}] = i;
    }
    auto read = [](auto it) {
        VF_CHECK(it->second == (*it).second, "-> and * differ");
        return row(it->first.x, it->first.y, it->second);
    };
    int x = int(c.below(16)), y = int(c.below(16)), x2 = x + 1 + int(c.below(16)), y2 = y + 1 + int(c.below(16));
    if (c.coin())
        x = y = 0, x2 = y2 = 20;
    VF_LOG(c, "search " << x << " " << y << " " << x2 << " " << y2);
    auto r = t.search_region(x, y, x2, y2);
    size_t n = 0;
    for (auto& [p, i] : m)
        n += x <= p.first && p.first <= x2 && y <= p.second && p.second <= y2;
    auto v = sequence(c, "point_quad_tree search result", r.begin(), r.end(), read, true, n);
    auto r3 = t.search_region(x, y, x2, y2);
    if (n)
        VF_CHECK(!(r3.begin() == r.begin()) && r3.begin() != r.end(), "iterators of two result sets are equal");
    if (n)
        VF_CHECK(T().search_region(x, y, x2, y2).begin() != r.begin(), "an iterator of an empty result set equals that of another one");
}

struct rt_traits
{
    static constexpr size_t dimensions = 2, min_node_size = 2, max_node_size = 5, max_tree_depth = 100, reinsertion_size = 2;
    static constexpr bool enable_forced_reinsertion = true;
};
void rtree_case(src& c)
{
    using T = mdds::rtree<int, std::string, rt_traits>;
    T t;
    struct box
    {
        int x, y, x2, y2;
    };
    std::vector<box> m;
    for (int i = 0; i < 60 && c.more(16); ++i)
    {
        int x = int(c.below(40)), y = int(c.below(40)), x2 = x + int(c.below(15)), y2 = y + int(c.below(15));
        VF_LOG(c, "insert " << x << " " << y << " " << x2 << " " << y2);
        t.insert(T::extent_type({x, y}, {x2, y2}), "v" + std::to_string(i));
        m.push_back({x, y, x2, y2});
    }
    int x = int(c.below(40)), y = int(c.below(40)), x2 = x + int(c.below(40)), y2 = y + int(c.below(40));
    if (c.coin())
        x = y = 0, x2 = y2 = 100;
    T::extent_type e({x, y}, {x2, y2});
    VF_LOG(c, "search " << x << " " << y << " " << x2 << " " << y2);
    size_t n = 0;
    for (auto& b : m)
        n += b.x <= x2 && x <= b.x2 && b.y <= y2 && y <= b.y2;
    auto read = [](auto it) {
        VF_CHECK(it->size() == (*it).size(), "-> and * differ");
        return row(*it, it.extent().to_string(), it.depth());
    };
    const T& ct = t;
    auto cr = ct.search(e, T::search_type::overlap);
    auto v = sequence(c, "rtree const search result", cr.begin(), cr.end(), read, true, n);
    auto w = sequence(c, "rtree const search result, cbegin()", cr.cbegin(), cr.cend(), read, true, n);
    for (size_t i = 0; i <= n; ++i)
        VF_CHECK(v[i] == w[i], "begin() and cbegin() of one result set");
    auto r = t.search(e, T::search_type::overlap);
    auto u = sequence(c, "rtree search result", r.begin(), r.end(), read, true, n);
    for (size_t i = 0; i < n; ++i)
        VF_CHECK(read(u[i]) == read(v[i]), "the const search has another order");
    auto cr2 = ct.search(e, T::search_type::overlap);
    if (n)
        VF_CHECK(!(cr2.begin() == cr.begin()) && cr2.begin() != cr.begin(), "iterators of two result sets are equal");
}

VF_PROPERTY("C37", fst_case<int>, ITER_RULE, 2);
VF_PROPERTY("C37", fst_case<std::string>, ITER_RULE, 1);
VF_PROPERTY("C37", segtree_case, ITER_RULE, 3);
VF_PROPERTY("C37", quad_case, ITER_RULE, 2);
VF_PROPERTY("C37", rtree_case, ITER_RULE, 2);
#endif

// ------------------------------------------------------------------- the tries
#if VF_PART == 1

std::string show(const std::string& k) { return k; }
std::string show(const std::u16string& k)
{
    std::string s;
    for (auto u : k)
        s += std::to_string(int(u)) + ",";
    return s;
}

template<typename K>
K mk(src& c)
{
    K k;
    size_t n = c.chance(1, 8) ? 0 : c.below(6);
    if (c.chance(1, 12))
        n += 20;
    for (size_t i = 0; i < n; ++i)
        k.push_back(typename K::value_type('a' + c.below(3)));
    return k;
}

struct read_kv
{
    template<typename It>
    std::string operator()(It it) const
    {
        auto kv = *it;
        VF_CHECK(it->first == kv.first && it->second == kv.second, "-> and * differ");
        return show(kv.first) + "=" + row(kv.second);
    }
};

template<typename K, typename V>
void trie_case(src& c)
{
    using T = mdds::trie_map<K, V, mdds::trie::default_traits>;
    T t;
    std::map<K, V> m;
    auto val = [](int i) {
        if constexpr (std::is_same_v<V, std::string>)
            return "v" + std::to_string(i);
        else
            return V(i);
    };
    for (int i = 0; i < 60 && c.more(12); ++i)
    {
        K k = mk<K>(c);
        VF_LOG(c, "insert " << show(k));
        t.insert(k, val(i));
        m[k] = val(i);
    }
    if (c.chance(1, 3) && !m.empty())
    {
        auto it = m.begin();
        std::advance(it, c.below(m.size()));
        VF_LOG(c, "erase " << show(it->first));
        t.erase(it->first);
        m.erase(it);
    }
    const T& ct = t;
    const size_t n = m.size();
    auto cv = sequence(c, "trie_map const_iterator", ct.begin(), ct.end(), read_kv(), true, n);
    auto v = sequence(c, "trie_map iterator", t.begin(), t.end(), read_kv(), true, n);
    using CI = typename T::const_iterator;
    for (size_t i = 0; i <= n; ++i)
    {
        CI x(v[i]);
        size_t o = c.below(n + 1);
        VF_CHECK(x == cv[i] && v[i] == cv[i] && cv[i] == v[i] && !(v[i] != cv[i]), "iterator and const_iterator at position " << i << " of " << n);
        VF_CHECK((x == cv[o]) == (i == o) && (v[i] == cv[o]) == (i == o) && (cv[o] == v[i]) == (i == o), "iterator at position " << i << " and const_iterator at " << o << " of " << n);
        if (i < n)
        {
            VF_CHECK(read_kv()(x) == read_kv()(cv[i]), "a const_iterator made from an iterator");
            ++x;
            VF_CHECK(x == cv[i + 1], "++ on a const_iterator made from an iterator");
            --x;
            VF_CHECK(x == cv[i], "-- on a const_iterator made from an iterator");
        }
        else if (n)
        {
            --x;
            VF_CHECK(x == cv[n - 1], "-- on a const_iterator made from end()");
        }
    }
    {
        // another container with the same content
        const T other(t);
        VF_CHECK(other.size() == n, "a copy of another size");
        if (n)
        {
            auto x = m.begin();
            std::advance(x, c.below(n));
            VF_CHECK(!(other.find(x->first) == ct.find(x->first)) && other.find(x->first) != ct.find(x->first) && other.begin() != ct.begin() && other.end() != ct.end(), "iterators of two containers are equal");
        }
    }
    // every key, found
    size_t i = 0;
    for (auto& [k, x] : m)
    {
        auto it = t.find(k);
        auto cit = ct.find(k);
        size_t o = c.below(n + 1);
        VF_CHECK(it == v[i] && cit == cv[i] && it == cit, "find(" << show(k) << ") is not the iterator of position " << i << " of " << n);
        VF_CHECK((it == v[o]) == (i == o) && (cit == cv[o]) == (i == o), "find(" << show(k) << ") compared with position " << o << " of " << n);
        // and the traversal goes on from there
        ++it, ++cit;
        VF_CHECK(it == v[i + 1] && cit == cv[i + 1], "++ on find(" << show(k) << "), position " << i << " of " << n);
        if (i + 1 < n)
            VF_CHECK(read_kv()(it) == read_kv()(v[i + 1]), "++ on find(" << show(k) << ") reads " << read_kv()(it));
        it = t.find(k), cit = ct.find(k);
        if (i)
        {
            --it, --cit;
            VF_CHECK(it == v[i - 1] && cit == cv[i - 1], "-- on find(" << show(k) << "), position " << i << " of " << n);
            VF_CHECK(read_kv()(it) == read_kv()(v[i - 1]), "-- on find(" << show(k) << ") reads " << read_kv()(it));
        }
        ++i;
    }
    K none = mk<K>(c);
    if (!m.count(none))
        VF_CHECK(t.find(none) == t.end() && ct.find(none) == ct.end(), "find of an absent key is not end()");
    // a prefix search
    auto common = [&](const char* what, const auto& tr) {
        K p = mk<K>(c);
        size_t k = 0;
        for (auto& [q, x] : m)
            k += q.size() >= p.size() && std::equal(p.begin(), p.end(), q.begin());
        VF_LOG(c, "prefix " << show(p) << ": " << k);
        auto r = tr.prefix_search(p);
        sequence(c, what, r.begin(), r.end(), read_kv(), true, k);
    };
    common("trie_map prefix search", ct);
    const auto pk = t.pack();
    auto pv = sequence(c, "packed_trie_map iterator", pk.begin(), pk.end(), read_kv(), true, n);
    VF_CHECK(pk.cbegin() == pv[0] && pk.cend() == pv[n], "cbegin() and cend()");
    i = 0;
    for (auto& [k, x] : m)
    {
        auto it = pk.find(k);
        size_t o = c.below(n + 1);
        VF_CHECK(it == pv[i] && (it == pv[o]) == (i == o), "packed: find(" << show(k) << ") is not the iterator of position " << i << " of " << n);
        ++it;
        VF_CHECK(it == pv[i + 1], "packed: ++ on find(" << show(k) << "), position " << i << " of " << n);
        if (i + 1 < n)
            VF_CHECK(read_kv()(it) == read_kv()(pv[i + 1]), "packed: ++ on find(" << show(k) << ") reads " << read_kv()(it));
        it = pk.find(k);
        if (i)
        {
            --it;
            VF_CHECK(it == pv[i - 1], "packed: -- on find(" << show(k) << "), position " << i << " of " << n);
            VF_CHECK(read_kv()(it) == read_kv()(pv[i - 1]), "packed: -- on find(" << show(k) << ") reads " << read_kv()(it));
        }
        ++i;
    }
    if (n)
    {
        const auto other(pk);
        VF_CHECK(!(other.begin() == pk.begin()) && other.begin() != pk.begin() && other.end() != pk.end(), "packed: iterators of two containers are equal");
    }
    if (!m.count(none))
        VF_CHECK(pk.find(none) == pk.end(), "packed: find of an absent key is not end()");
    common("packed_trie_map prefix search", pk);
}

using key16 = std::u16string;
VF_PROPERTY("C37", (trie_case<std::string, int>), ITER_RULE, 2);
VF_PROPERTY("C37", (trie_case<key16, std::string>), ITER_RULE, 1);
#endif

// ---------------------------------------- multi_type_vector and what is built on it
#if VF_PART >= 2

using soa_v = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
struct cow_traits : mdds::mtv::standard_element_blocks_traits
{
    static constexpr bool enable_cow = true;
};
using cow_v = mdds::mtv::soa::multi_type_vector<cow_traits>;
using aos_v = mdds::mtv::aos::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;

template<typename V>
void fill(src& c, V& t, int avg)
{
    for (int i = 0; i < 60 && c.more(unsigned(avg)); ++i)
    {
        size_t p = c.below(t.size()), q = std::min(t.size() - 1, p + c.below(4));
        int kind = int(c.below(4));
        VF_LOG(c, "set " << p << ".." << q << " kind " << kind);
        for (size_t k = p; k <= q; ++k)
            switch (kind)
            {
                case 0: t.set(k, int32_t(k + 100)); break;
                case 1: t.set(k, std::string(1, char('a' + k % 26))); break;
                case 2: t.set(k, double(k) / 2); break;
                case 3: t.set_empty(k, k); break;
            }
    }
}

// what a block iterator refers to
template<typename It>
std::string read_node(It it)
{
    VF_CHECK(it->position == (*it).position, "-> and * differ");
    std::string s = row(int(it->type), it->position, it->size);
    if (it->type == mdds::mtv::element_type_int32)
        s += row(*mdds::mtv::int32_element_block::cbegin(*it->data));
    else if (it->type == mdds::mtv::element_type_string)
        s += row(*mdds::mtv::string_element_block::cbegin(*it->data));
    else if (it->type == mdds::mtv::element_type_double)
        s += row(*mdds::mtv::double_element_block::cbegin(*it->data));
    return s;
}
template<typename V>
void mtv_case(src& c)
{
    V t(1 + c.below(30));
    VF_LOG(c, "size " << t.size());
    fill(c, t, 12);
    const V& ct = t;
    const size_t n = t.block_size();
    using CI = typename V::const_iterator;
    auto read = [](auto it) { return read_node(it); };
    auto cv = sequence(c, "multi_type_vector const_iterator", ct.begin(), ct.end(), read, true, n);
    auto cv2 = sequence(c, "multi_type_vector cbegin()", t.cbegin(), t.cend(), read, true, n);
    for (size_t i = 0; i <= n; ++i)
        VF_CHECK(cv[i] == cv2[i], "begin() const and cbegin()");
    auto cr = sequence(c, "multi_type_vector const_reverse_iterator", ct.rbegin(), ct.rend(), read, true, n);
    for (size_t i = 0; i < n; ++i)
        VF_CHECK(read(cr[i]) == read(cv[n - 1 - i]), "the reverse order");
    {
        const V other(t);
        VF_CHECK(!(other.begin() == ct.begin()) && other.begin() != ct.begin(), "iterators of two containers are equal");
    }
    size_t p = c.below(t.size()), b = 0;
    while (b + 1 < n && cv[b + 1]->position <= p)
        ++b;
    VF_LOG(c, "position " << p << " in block " << b << " of " << n);
    auto same = [&](const char* how, const auto& pos, const auto& vs) {
        size_t o = c.below(n + 1);
        VF_CHECK(pos.first == vs[b] && pos.second == p - cv[b]->position, how << "(" << p << ") is not at block " << b << " of " << n);
        VF_CHECK((pos.first == vs[o]) == (o == b), how << "(" << p << ") compared with block " << o);
    };
    same("const position", ct.position(p), cv);
    same("const position with hint", ct.position(cv[c.below(n)], p), cv);
    VF_CHECK(ct.position(t.size()).first == ct.end(), "position(size())");
    // one position after the other
    {
        auto pos = ct.position(p);
        auto nx = V::next_position(pos);
        auto want = ct.position(p + 1 <= t.size() ? p + 1 : p);
        VF_CHECK(nx.first == want.first && nx.second == want.second && nx == want, "next_position of " << p);
        size_t q = c.below(t.size() + 1);
        auto ad = V::advance_position(pos, int(q) - int(p));
        auto pq = ct.position(q);
        VF_CHECK(ad == pq, "advance_position from " << p << " to " << q);
        VF_CHECK((pos == pq) == (p == q), "positions " << p << " and " << q << " compared");
    }
    if constexpr (!std::is_same_v<V, cow_v>)
    {
        auto v = sequence(c, "multi_type_vector iterator", t.begin(), t.end(), read, true, n);
        auto r = sequence(c, "multi_type_vector reverse_iterator", t.rbegin(), t.rend(), read, true, n);
        for (size_t i = 0; i < n; ++i)
            VF_CHECK(read(r[i]) == read(v[n - 1 - i]), "the reverse order");
        for (size_t i = 0; i <= n; ++i)
        {
            CI x(v[i]);
            size_t o = c.below(n + 1);
            VF_CHECK(x == cv[i] && (x == cv[o]) == (i == o), "a const_iterator made from the iterator of block " << i << " of " << n);
            if (i < n)
            {
                ++x;
                VF_CHECK(x == cv[i + 1], "++ on a const_iterator made from an iterator");
            }
        }
        same("position", t.position(p), v);
        same("position with hint", t.position(v[c.below(n)], p), v);
    }
    // the iterator that a modification returns
    {
        int kind = int(c.below(4));
        size_t q = std::min(t.size() - 1, p + c.below(4));
        typename V::iterator it;
        std::vector<double> ds(q - p + 1, 7.0);
        switch (kind)
        {
            case 0: it = t.set(p, int32_t(1)), q = p; break;
            case 1: it = t.set(p, std::string("s")), q = p; break;
            case 2: it = t.set(p, ds.begin(), ds.end()); break;
            case 3: it = t.set_empty(p, q); break;
        }
        VF_LOG(c, "modification " << kind << " of " << p << ".." << q);
        auto pos = ct.position(p);
        VF_CHECK(CI(it) == pos.first, "a modification of " << p << ".." << q << " does not return the iterator of the block there");
        size_t steps = 0;
        auto e = it;
        for (CI x(it); x != t.cend(); ++x)
            VF_CHECK(++steps <= t.size(), "the returned iterator does not reach the end");
        for (; CI(e) != t.cbegin(); --e)
            VF_CHECK(++steps <= t.size(), "the returned iterator does not reach the begin");
        VF_CHECK(steps == t.block_size(), "the returned iterator is " << steps << " steps from the begin and the end, of " << t.block_size() << " blocks");
    }
}

static void collection_case(src& c)
{
    using T = mdds::mtv::collection<soa_v>;
    size_t k = 1 + c.below(6), len = 1 + c.below(12);
    std::vector<soa_v> vs;
    vs.reserve(k);
    for (size_t i = 0; i < k; ++i)
    {
        vs.emplace_back(len);
        fill(c, vs.back(), 4);
    }
    T t(vs.begin(), vs.end());
    size_t c0 = 0, cn = k, e0 = 0, en = len;
    if (c.coin())
    {
        c0 = c.below(k), cn = 1 + c.below(k - c0);
        t.set_collection_range(c0, cn);
    }
    if (c.coin())
    {
        e0 = c.below(len), en = 1 + c.below(len - e0);
        t.set_element_range(e0, en);
    }
    VF_LOG(c, k << " columns of " << len << ", columns " << c0 << "+" << cn << ", elements " << e0 << "+" << en);
    auto read = [](auto it) {
        VF_CHECK(it->index == (*it).index, "-> and * differ");
        return row(int(it->type), it->index, it->position);
    };
    auto v = sequence(c, "collection iterator", t.begin(), t.end(), read, false, cn * en);
    for (size_t i = 0; i < cn * en; ++i)
        VF_CHECK(v[i]->index == c0 + i % cn && v[i]->position == e0 + i / cn, "element " << i << " is of column " << v[i]->index << ", position " << v[i]->position);
    // a collection of other vectors
    std::vector<soa_v> other(vs);
    T t2(other.begin(), other.end());
    t2.set_collection_range(c0, cn);
    t2.set_element_range(e0, en);
    VF_CHECK(!(t2.begin() == t.begin()) && t2.begin() != t.begin(), "iterators of two collections are equal");
}

template<typename Traits>
void matrix_case(src& c)
{
    using T = mdds::multi_type_matrix<Traits>;
    size_t rn = 1 + c.below(7), cn = 1 + c.below(7);
    T t(rn, cn);
    for (int i = 0; i < 50 && c.more(12); ++i)
    {
        size_t a = c.below(rn), b = c.below(cn);
        switch (c.below(4))
        {
            case 0: t.set(a, b, double(i)); break;
            case 1: t.set(a, b, bool(i & 1)); break;
            case 2: t.set(a, b, typename T::string_type("s")); break;
            case 3: t.set_empty(a, b); break;
        }
    }
    const T& ct = t;
    auto run = [&](auto& m, const char* what) {
        using P = decltype(m.position(0, 0));
        std::vector<P> ps;
        for (size_t j = 0; j < cn; ++j)
            for (size_t i = 0; i < rn; ++i)
                ps.push_back(m.position(i, j));
        const size_t n = ps.size();
        ps.push_back(m.end_position());
        // the positions, one after the other down the columns
        P x = m.position(0, 0);
        for (size_t i = 0; i <= n; ++i)
        {
            size_t o = c.below(n + 1);
            VF_CHECK(x == ps[i] && (x == ps[o]) == (i == o) && (x != ps[o]) == (i != o), what << ": position " << i << " of " << n << ", reached with next_position");
            if (i < n)
            {
                auto mp = ct.matrix_position(x);
                VF_CHECK(mp.row == i % rn && mp.column == i / rn, what << ": matrix_position of position " << i);
                VF_CHECK(ct.get_type(x) == ct.get_type(i % rn, i / rn), what << ": type at position " << i);
                x = T::next_position(x);
            }
        }
        for (int k = 0; k < 10; ++k)
        {
            size_t h = c.below(n), i = c.below(n);
            auto y = m.position(ps[h], i % rn, i / rn);
            VF_CHECK(y == ps[i], what << ": position " << i << " with " << h << " as the hint");
        }
    };
    run(t, "position");
    run(ct, "const position");
    // the position that set returns
    size_t a = c.below(rn), b = c.below(cn);
    auto at = t.position(a, b);
    typename T::position_type ret;
    int kind = int(c.below(4));
    switch (kind)
    {
        case 0: ret = t.set(at, 2.5); break;
        case 1: ret = t.set(at, true); break;
        case 2: ret = t.set(at, typename T::string_type("t")); break;
        case 3: ret = t.set_empty(at); break;
    }
    VF_CHECK(ret == t.position(a, b), "set of kind " << kind << " at (" << a << ", " << b << ") returns another position");
    VF_CHECK(T::next_position(ret) == (a + 1 < rn ? t.position(a + 1, b) : b + 1 < cn ? t.position(0, b + 1) : t.end_position()), "next_position of what set returned");
    if (rn * cn >= 6)
        c.nontrivial();
    VF_COVER(c, "multi_type_matrix positions");
}

#if VF_PART == 2
VF_PROPERTY("C37", mtv_case<soa_v>, ITER_RULE, 2);
VF_PROPERTY("C37", mtv_case<aos_v>, ITER_RULE, 2);
VF_PROPERTY("C37", mtv_case<cow_v>, ITER_RULE, 1);
#else
VF_PROPERTY("C37", collection_case, ITER_RULE, 2);
VF_PROPERTY("C37", matrix_case<mdds::mtm::std_string_traits>, ITER_RULE, 1);
#endif
#endif

#if VF_PART == 0
VF_MAIN
#endif
