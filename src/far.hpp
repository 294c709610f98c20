// Containers whose positions need many bits: a few elements, with long empty
// stretches between them, so that sizes and positions pass 2^8, 2^16, 2^31,
// 2^32 and more.  The model is a list of runs.
#pragma once
#include <mdds/multi_type_vector.hpp>

#include <algorithm>
#include <string>
#include <vector>

#include "vf.hpp"

namespace far {

using vf::src;
using pos_t = uint64_t;

constexpr int kinds = 4;
template<typename T>
T val(int id)
{
    if constexpr (std::is_same_v<T, std::string>)
        return "s" + std::to_string(id);
    else if constexpr (std::is_same_v<T, bool>)
        return id & 1;
    else if constexpr (std::is_same_v<T, int8_t>)
        return int8_t(id % 100);
    else
        return T(id) / 2;
}
template<typename F>
decltype(auto) with(int k, F f)
{
    switch (k)
    {
        case 0: return f.template operator()<double>();
        case 1: return f.template operator()<std::string>();
        case 2: return f.template operator()<int8_t>();
        default: return f.template operator()<bool>();
    }
}
inline int type_of(int k)
{
    static const int t[] = {mdds::mtv::element_type_double, mdds::mtv::element_type_string, mdds::mtv::element_type_int8, mdds::mtv::element_type_boolean};
    return k < 0 ? mdds::mtv::element_type_empty : t[k];
}

struct run
{
    pos_t len;
    int k; // -1: empty
    std::vector<int> v;
};
using runs = std::vector<run>;

struct model
{
    runs r;

    pos_t size() const
    {
        pos_t n = 0;
        for (auto& x : r)
            n += x.len;
        return n;
    }
    size_t cut(pos_t p) // index of the run that starts at p, split when necessary
    {
        pos_t at = 0;
        for (size_t i = 0; i < r.size(); ++i)
        {
            if (at == p)
                return i;
            if (p < at + r[i].len)
            {
                run b{at + r[i].len - p, r[i].k, {}};
                r[i].len = p - at;
                if (b.k >= 0)
                {
                    b.v.assign(r[i].v.begin() + long(r[i].len), r[i].v.end());
                    r[i].v.resize(r[i].len);
                }
                r.insert(r.begin() + long(i) + 1, b);
                return i + 1;
            }
            at += r[i].len;
        }
        return r.size();
    }
    void norm()
    {
        runs n;
        for (auto& x : r)
        {
            if (!x.len)
                continue;
            if (!n.empty() && n.back().k == x.k)
            {
                n.back().len += x.len;
                n.back().v.insert(n.back().v.end(), x.v.begin(), x.v.end());
            }
            else
                n.push_back(x);
        }
        r = std::move(n);
    }
    runs copy(pos_t a, pos_t b) // [a, b)
    {
        size_t i = cut(a), j = cut(b);
        runs x(r.begin() + long(i), r.begin() + long(j));
        norm();
        return x;
    }
    void put(pos_t a, pos_t b, const runs& x) // replace [a, b)
    {
        size_t i = cut(a), j = cut(b);
        r.erase(r.begin() + long(i), r.begin() + long(j));
        r.insert(r.begin() + long(i), x.begin(), x.end());
        norm();
    }
    // kind and value id at p
    std::pair<int, int> at(pos_t p) const
    {
        for (auto& x : r)
        {
            if (p < x.len)
                return {x.k, x.k < 0 ? 0 : x.v[p]};
            p -= x.len;
        }
        return {-2, 0};
    }
    // index of the run of p, and where it starts
    std::pair<size_t, pos_t> block(pos_t p) const
    {
        pos_t at = 0;
        for (size_t i = 0; i < r.size(); ++i)
        {
            if (p < at + r[i].len)
                return {i, at};
            at += r[i].len;
        }
        return {r.size(), at};
    }
    std::string str() const
    {
        std::ostringstream os;
        for (auto& x : r)
        {
            os << x.len << (x.k < 0 ? "-" : x.k == 0 ? "d" : x.k == 1 ? "s" : x.k == 2 ? "i" : "b");
            for (int i : x.v)
                os << ' ' << i;
            os << " | ";
        }
        return os.str();
    }
};

inline pos_t wide(src& c) // a length of any magnitude
{
    unsigned bits = unsigned(c.weighted({4, 2, 3, 3, 3, 4, 2}));
    static const unsigned at[] = {2, 8, 15, 16, 31, 32, 36};
    pos_t p = pos_t(1) << at[bits];
    return p + c.below(6) - 2;
}
// a position or boundary in [0, n]
inline pos_t place(src& c, const model& m, pos_t n)
{
    pos_t p = 0;
    switch (c.weighted({6, 1, 1}))
    {
        case 0: // near the start or the end of a block
        {
            size_t i = m.r.empty() ? 0 : c.below(m.r.size() + 1);
            for (size_t k = 0; k < i; ++k)
                p += m.r[k].len;
            p += c.below(5);
            p = p < 2 ? 0 : p - 2;
            break;
        }
        case 1: p = wide(c); break;
        case 2: p = n ? c.u64() % n : 0; break;
    }
    return std::min(p, n);
}

enum focus
{
    values,
    blocks,
    hints,
    xfer,
    range
};

template<typename M>
struct driver
{
    src& c;
    focus F;
    struct slot
    {
        std::unique_ptr<M> t = std::make_unique<M>();
        model m;
        std::optional<typename M::iterator> last; // the latest returned iterator
    };
    std::vector<slot> pool;
    int next = 1;

    void check(slot& s)
    {
        pos_t at = 0;
        size_t i = 0;
        M& t = *s.t;
        pos_t n = s.m.size();
        VF_CHECK(t.size() == n, "size is " << t.size() << ", not " << n << "\nmodel: " << s.m.str());
        VF_CHECK(t.empty() == (n == 0), "empty()");
        VF_CHECK(t.block_size() == s.m.r.size(), t.block_size() << " blocks, not " << s.m.r.size() << "\nmodel: " << s.m.str());
        for (auto it = std::as_const(t).begin(), e = std::as_const(t).end(); it != e; ++it, ++i)
        {
            VF_CHECK(i < s.m.r.size(), "too many blocks");
            const run& r = s.m.r[i];
            VF_CHECK(it->type == type_of(r.k) && it->position == at && it->size == r.len, "block " << i << ": type " << int(it->type) << " position " << it->position << " size " << it->size
                                                                                                   << ", not " << type_of(r.k) << ' ' << at << ' ' << r.len << "\nmodel: " << s.m.str());
            for (pos_t k = 0; r.k >= 0 && k < r.len; ++k)
                with(r.k, [&]<typename T>() {
                    T v = t.template get<T>(at + k);
                    VF_CHECK(v == val<T>(r.v[k]), "wrong value at " << at + k << "\nmodel: " << s.m.str());
                });
            at += r.len;
        }
        VF_CHECK(i == s.m.r.size(), "too few blocks");
    }
    // what a call returned points at the block of p
    void returned(slot& s, const typename M::iterator& it, pos_t p)
    {
        auto [i, at] = s.m.block(p);
        VF_CHECK(i < s.m.r.size() && it != s.t->end() && it->position == at && it->size == s.m.r[i].len && it->type == type_of(s.m.r[i].k), "the returned iterator is not at the block of " << p << "\nmodel: " << s.m.str());
        s.last = it;
    }
    void read(slot& s)
    {
        M& t = *s.t;
        pos_t n = s.m.size();
        pos_t p = place(c, s.m, n);
        if (p == n)
        {
            auto q = std::as_const(t).position(p);
            VF_CHECK(q.first == std::as_const(t).end() && q.second == 0, "position(size)");
            return;
        }
        auto [i, at] = s.m.block(p);
        auto [k, id] = s.m.at(p);
        VF_CHECK(t.is_empty(p) == (k < 0), "is_empty(" << p << ")");
        VF_CHECK(t.get_type(p) == type_of(k), "get_type(" << p << ")");
        auto q = std::as_const(t).position(p);
        VF_CHECK(q.first->position == at && q.second == p - at && q.first->type == type_of(k), "position(" << p << ") is at block " << q.first->position << " + " << q.second << "\nmodel: " << s.m.str());
        VF_CHECK(M::logical_position(q) == p, "logical_position of " << p << " is " << M::logical_position(q));
        // a step forward and a step back
        {
            pos_t b = place(c, s.m, n);
            pos_t lo = std::min(p, b), hi = std::max(p, b);
            auto f = M::advance_position(t.position(lo), std::ptrdiff_t(hi - lo));
            VF_CHECK(hi == n ? f.first == t.end() && f.second == 0 : M::logical_position(f) == hi, "advance_position from " << lo << " to " << hi);
            auto g = M::advance_position(std::as_const(t).position(hi), -std::ptrdiff_t(hi - lo));
            VF_CHECK(M::logical_position(g) == lo && g.second < g.first->size, "advance_position back from " << hi << " to " << lo);
            if (p + 1 < n)
                VF_CHECK(M::logical_position(M::next_position(t.position(p))) == p + 1, "next_position");
        }
        with(k < 0 ? 0 : k, [&]<typename T>() {
            T v = t.template get<T>(p);
            VF_CHECK(v == (k < 0 ? T() : val<T>(id)), "get(" << p << ")");
        });
        if (s.last && F == hints)
        {
            auto h = t.position(*s.last, p);
            VF_CHECK(h.first->position == at && h.second == p - at, "position(hint, " << p << ")");
        }
    }

    void step()
    {
        size_t si = c.below(pool.size());
        slot& s = pool[si];
        slot& o = pool[c.below(pool.size())];
        M& t = *s.t;
        pos_t n = s.m.size();
        unsigned op = F == xfer ? unsigned(c.weighted({4, 3, 2, 2, 3, 2, 2, 2, 12, 12, 1, 2})) : F == range ? unsigned(c.weighted({4, 3, 2, 2, 3, 2, 2, 2, 1, 1, 1, 8})) : unsigned(c.weighted({8, 6, 3, 4, 6, 4, 4, 3, 2, 2, 2, 1}));
        pos_t a = place(c, s.m, n), b = place(c, s.m, n);
        if (a > b)
            std::swap(a, b);
        int k = int(c.below(kinds));
        bool hint = F == hints && s.last && c.coin();
        auto none = [](pos_t len) { return runs{run{len, -1, {}}}; };
        switch (op)
        {
            case 0: // one element
            {
                if (a == n)
                    return;
                int id = next++;
                VF_LOG(c, "  " << si << ".set(" << a << ", #" << id << " of kind " << k << (hint ? ", hint)" : ")"));
                s.m.put(a, a + 1, {run{1, k, {id}}});
                with(k, [&]<typename T>() { returned(s, hint ? t.set(*s.last, a, val<T>(id)) : t.set(a, val<T>(id)), a); });
                break;
            }
            case 1: // several
            case 2: // insert several
            {
                size_t len = 1 + c.below(6);
                if (op == 1 && (a == n || n - a < len))
                    return;
                runs r{run{len, k, {}}};
                for (size_t i = 0; i < len; ++i)
                    r[0].v.push_back(next++);
                VF_LOG(c, "  " << si << (op == 1 ? ".set(" : ".insert(") << a << ", " << len << " values from #" << r[0].v[0] << " of kind " << k << (hint ? ", hint)" : ")"));
                if (op == 2 && a == n)
                    return;
                s.m.put(a, op == 1 ? a + len : a, r);
                with(k, [&]<typename T>() {
                    std::deque<T> x;
                    for (int id : r[0].v)
                        x.push_back(val<T>(id));
                    if (op == 1)
                        returned(s, hint ? t.set(*s.last, a, x.begin(), x.end()) : t.set(a, x.begin(), x.end()), a);
                    else
                        returned(s, hint ? t.insert(*s.last, a, x.begin(), x.end()) : t.insert(a, x.begin(), x.end()), a);
                });
                break;
            }
            case 3: // append
            {
                if (c.chance(1, 4))
                {
                    VF_LOG(c, "  " << si << ".push_back_empty()");
                    s.m.put(n, n, none(1));
                    returned(s, t.push_back_empty(), n);
                    break;
                }
                int id = next++;
                VF_LOG(c, "  " << si << ".push_back(#" << id << " of kind " << k << ")");
                s.m.put(n, n, {run{1, k, {id}}});
                with(k, [&]<typename T>() { returned(s, t.push_back(val<T>(id)), n); });
                break;
            }
            case 4: // insert an empty stretch
            {
                pos_t len = wide(c);
                if (a == n)
                    return;
                VF_LOG(c, "  " << si << ".insert_empty(" << a << ", " << len << (hint ? ", hint)" : ")"));
                s.m.put(a, a, none(len));
                returned(s, hint ? t.insert_empty(*s.last, a, len) : t.insert_empty(a, len), a);
                break;
            }
            case 5:
            {
                if (a == b)
                    return;
                VF_LOG(c, "  " << si << ".set_empty(" << a << ", " << b - 1 << (hint ? ", hint)" : ")"));
                s.m.put(a, b, none(b - a));
                returned(s, hint ? t.set_empty(*s.last, a, b - 1) : t.set_empty(a, b - 1), a);
                break;
            }
            case 6:
            {
                if (a == b)
                    return;
                VF_LOG(c, "  " << si << ".erase(" << a << ", " << b - 1 << ")");
                s.m.put(a, b, {});
                s.last.reset();
                t.erase(a, b - 1);
                break;
            }
            case 7:
            {
                pos_t len = c.coin() ? b : wide(c);
                VF_LOG(c, "  " << si << ".resize(" << len << ")");
                if (len < n)
                    s.m.put(len, n, {});
                else
                    s.m.put(n, n, none(len - n));
                s.last.reset();
                t.resize(len);
                break;
            }
            case 8:
            case 9: // transfer, swap of ranges
            {
                pos_t on = o.m.size();
                if (a == b || &o == &s)
                    return;
                pos_t d = place(c, o.m, on);
                if (d == on)
                    return;
                b = std::min(b, a + (on - d));
                VF_LOG(c, "  " << si << (op == 8 ? ".transfer(" : ".swap(") << a << ", " << b - 1 << ", " << &o - pool.data() << ", " << d << ")");
                runs x = s.m.copy(a, b), y = o.m.copy(d, d + (b - a));
                o.m.put(d, d + (b - a), x);
                s.m.put(a, b, op == 8 ? none(b - a) : y);
                o.last.reset();
                if (op == 9)
                {
                    s.last.reset();
                    t.swap(a, b - 1, *o.t, d);
                }
                else
                    returned(s, hint ? t.transfer(*s.last, a, b - 1, *o.t, d) : t.transfer(a, b - 1, *o.t, d), a);
                check(o);
                break;
            }
            case 10:
            {
                if (&o == &s)
                    return;
                VF_LOG(c, "  " << &o - pool.data() << " = " << si);
                *o.t = t;
                o.m = s.m;
                o.last.reset();
                VF_CHECK(*o.t == t, "a copy compares unequal");
                check(o);
                break;
            }
            case 11: // no such position
            {
                pos_t p = n + (c.coin() ? c.below(3) : wide(c));
                unsigned how = c.below(5);
                VF_LOG(c, "  " << si << ": call " << how << " for position " << p);
                bool thrown = false;
                try
                {
                    switch (how)
                    {
                        case 0: t.set(p, 1.0); break;
                        case 1: t.template get<double>(p); break;
                        case 2: t.set_empty(std::min(a, p), p); break;
                        case 3: t.erase(std::min(a, p), p); break;
                        case 4: t.get_type(p); break;
                    }
                }
                catch (const std::out_of_range&)
                {
                    thrown = true;
                }
                VF_CHECK(thrown, "call " << how << " for position " << p << " of " << n << " is not rejected");
                VF_COVER(c, "far: position rejected");
                break;
            }
        }
        check(s);
        read(s);
    }
    void go()
    {
        unsigned n = F == xfer ? 2 : 1 + c.coin();
        for (unsigned i = 0; i < n; ++i)
        {
            pool.emplace_back();
            pos_t len = wide(c);
            pool[i].t = std::make_unique<M>(len);
            pool[i].m.r = {run{len, -1, {}}};
        }
        size_t ops = 0;
        while (c.more(14))
            step(), ++ops;
        bool seen = false;
        for (auto& s : pool)
            seen = seen || (s.m.r.size() >= 3 && s.m.size() > 65536);
        if (seen && ops >= 3)
        {
            c.nontrivial();
            VF_COVER(c, "far: positions beyond 2^16");
        }
    }
};

template<focus F, typename M>
void far_case(src& c)
{
    driver<M> d{c, F, {}};
    d.go();
}

} // namespace far
