// Matrices with a few elements and very many rows or columns, so that the
// positions of the elements need 16 to 40 bits.  The model is a map from
// (column, row) to the element.
#pragma once
#include <mdds/multi_type_matrix.hpp>

#include <map>
#include <string>

#include "vf.hpp"

namespace far {

using vf::src;
using pos_t = uint64_t;

struct elem
{
    int k, id; // kind: 0 numeric, 1 boolean, 2 string, 3 integer
    bool operator==(const elem&) const = default;
};

template<typename X>
struct matrix_driver
{
    src& c;
    bool walks;
    struct slot
    {
        std::unique_ptr<X> t;
        pos_t rows = 0, cols = 0;
        std::map<std::pair<pos_t, pos_t>, elem> m; // by column, then row
    };
    std::vector<slot> pool;
    int next = 1;
    unsigned done = 0;

    using node = typename X::element_block_node_type;
    using SP = typename X::size_pair_type;

    static pos_t wide(src& c)
    {
        static const unsigned at[] = {8, 15, 16, 31, 32, 33};
        return (pos_t(1) << at[c.below(6)]) + c.below(6) - 2;
    }
    void make(slot& s, bool tall)
    {
        s.rows = tall ? wide(c) : 1 + c.below(5);
        s.cols = tall ? 1 + c.below(5) : wide(c);
        s.t = std::make_unique<X>(s.rows, s.cols);
        s.m.clear();
        VF_LOG(c, "a matrix of " << s.rows << " x " << s.cols);
    }
    pos_t place(pos_t n)
    {
        pos_t p = 0;
        switch (c.weighted({3, 3, 2, 2}))
        {
            case 0: p = c.below(4); break;
            case 1: p = n - 1 - std::min<pos_t>(n - 1, c.below(4)); break;
            case 2: p = wide(c); break;
            case 3: p = c.u64(); break;
        }
        return p % n;
    }
    std::string at(pos_t r, pos_t k) { return "(" + std::to_string(r) + ", " + std::to_string(k) + ")"; }

    void put(slot& s, pos_t r, pos_t k, elem e)
    {
        X& t = *s.t;
        s.m[{k, r}] = e;
        bool by_position = c.coin();
        auto set = [&](const auto& v) {
            if (by_position)
            {
                auto q = t.set(t.position(r, k), v);
                auto back = t.matrix_position(q);
                VF_CHECK(back.row == r && back.column == k, "set at " << at(r, k) << " returns the position " << at(back.row, back.column));
            }
            else
                t.set(r, k, v);
        };
        switch (e.k)
        {
            case 0: set(double(e.id) / 2); break;
            case 1: set(bool(e.id & 1)); break;
            case 2: set("s" + std::to_string(e.id)); break;
            case 3: set(typename X::integer_type(e.id)); break;
        }
    }
    void is(const slot& s, pos_t r, pos_t k)
    {
        const X& t = *s.t;
        auto i = s.m.find({k, r});
        auto type = t.get_type(r, k);
        if (i == s.m.end())
        {
            VF_CHECK(type == mdds::mtm::element_empty, at(r, k) << " is not empty");
            return;
        }
        int id = i->second.id;
        switch (i->second.k)
        {
            case 0: VF_CHECK(type == mdds::mtm::element_numeric && t.get_numeric(r, k) == double(id) / 2, "wrong number at " << at(r, k)); break;
            case 1: VF_CHECK(type == mdds::mtm::element_boolean && t.get_boolean(r, k) == bool(id & 1), "wrong boolean at " << at(r, k)); break;
            case 2: VF_CHECK(type == mdds::mtm::element_string && t.get_string(r, k) == "s" + std::to_string(id), "wrong string at " << at(r, k)); break;
            case 3: VF_CHECK(type == mdds::mtm::element_integer && t.get_integer(r, k) == id, "wrong integer at " << at(r, k)); break;
        }
    }
    void check(slot& s)
    {
        const X& t = *s.t;
        VF_CHECK(t.size().row == s.rows && t.size().column == s.cols, "the size is " << at(t.size().row, t.size().column));
        for (auto& [p, e] : s.m)
        {
            is(s, p.second, p.first);
            for (int d = -1; d <= 1; d += 2)
            {
                if (p.second + pos_t(d) < s.rows)
                    is(s, p.second + pos_t(d), p.first);
                if (p.first + pos_t(d) < s.cols)
                    is(s, p.second, p.first + pos_t(d));
            }
        }
        pos_t r = place(s.rows), k = place(s.cols);
        is(s, r, k);
        auto q = t.position(r, k);
        auto back = t.matrix_position(q);
        VF_CHECK(back.row == r && back.column == k, "the position of " << at(r, k) << " is that of " << at(back.row, back.column));
        VF_CHECK((t.get_type(q) == mdds::mtm::element_empty) == !s.m.count({k, r}), "type at the position of " << at(r, k));
        if (s.rows * s.cols <= pos_t(1) << 40)
            walk(s, 0, 0, s.rows - 1, s.cols - 1, true);
    }
    void section(slot& s, const node& n, pos_t seen, pos_t r1, pos_t c1, pos_t h, size_t& found)
    {
        if (n.type == mdds::mtm::element_empty)
            return;
        for (pos_t i = 0; i < n.size; ++i)
        {
            pos_t r = r1 + (seen + i) % h, k = c1 + (seen + i) / h;
            auto e = s.m.find({k, r});
            VF_CHECK(e != s.m.end(), "a walk finds an element at " << at(r, k) << ", where none is");
            ++found;
            int id = e->second.id;
            switch (e->second.k)
            {
                case 0: VF_CHECK(n.type == mdds::mtm::element_numeric && *std::next(n.template begin<typename X::numeric_block_type>(), long(i)) == double(id) / 2, "a walk finds another number at " << at(r, k)); break;
                case 1: VF_CHECK(n.type == mdds::mtm::element_boolean && *std::next(n.template begin<typename X::boolean_block_type>(), long(i)) == bool(id & 1), "a walk finds another boolean at " << at(r, k)); break;
                case 2: VF_CHECK(n.type == mdds::mtm::element_string && *std::next(n.template begin<typename X::string_block_type>(), long(i)) == "s" + std::to_string(id), "a walk finds another string at " << at(r, k)); break;
                case 3: VF_CHECK(n.type == mdds::mtm::element_integer && *std::next(n.template begin<typename X::integer_block_type>(), long(i)) == id, "a walk finds another integer at " << at(r, k)); break;
            }
        }
    }
    static size_t inside(const slot& s, pos_t r1, pos_t c1, pos_t r2, pos_t c2)
    {
        size_t n = 0;
        for (auto& [p, e] : s.m)
            n += p.second >= r1 && p.second <= r2 && p.first >= c1 && p.first <= c2;
        return n;
    }
    void walk(slot& s, pos_t r1, pos_t c1, pos_t r2, pos_t c2, bool all)
    {
        pos_t seen = 0, h = r2 - r1 + 1;
        size_t found = 0;
        auto f = [&](const node& n) {
            section(s, n, seen, r1, c1, h, found);
            seen += n.size;
        };
        if (all)
            s.t->walk(f);
        else
            s.t->walk(f, SP(r1, c1), SP(r2, c2));
        VF_CHECK(seen == h * (c2 - c1 + 1), "a walk from " << at(r1, c1) << " to " << at(r2, c2) << " visits " << seen << " cells");
        VF_CHECK(found == inside(s, r1, c1, r2, c2), "a walk from " << at(r1, c1) << " to " << at(r2, c2) << " finds " << found << " elements, not " << inside(s, r1, c1, r2, c2));
    }
    void walk2(slot& s, slot& o, pos_t r1, pos_t c1, pos_t r2, pos_t c2)
    {
        pos_t seen = 0, h = r2 - r1 + 1;
        size_t found = 0, other = 0;
        s.t->walk([&](const node& a, const node& b) {
            VF_CHECK(a.size == b.size, "sections of different sizes");
            section(s, a, seen, r1, c1, h, found);
            section(o, b, seen, r1, c1, h, other);
            seen += a.size;
        }, *o.t, SP(r1, c1), SP(r2, c2));
        VF_CHECK(seen == h * (c2 - c1 + 1), "a parallel walk from " << at(r1, c1) << " to " << at(r2, c2) << " visits " << seen << " cells");
        VF_CHECK(found == inside(s, r1, c1, r2, c2) && other == inside(o, r1, c1, r2, c2), "a parallel walk from " << at(r1, c1) << " to " << at(r2, c2) << " misses elements");
    }
    void step()
    {
        slot& s = pool[c.below(pool.size())];
        slot& o = pool[c.below(pool.size())];
        X& t = *s.t;
        pos_t r = place(s.rows), k = place(s.cols);
        switch (c.weighted({10, 4, 3, 2, 2, 3, 2, walks ? 12u : 2u}))
        {
            case 0:
            {
                elem e{int(c.below(4)), next++};
                VF_LOG(c, "set " << at(r, k) << " to #" << e.id << " of kind " << e.k);
                put(s, r, k, e);
                break;
            }
            case 1: // a sequence, which may run into the next column
            {
                pos_t n = 1 + c.below(5);
                if (s.rows * s.cols - (k * s.rows + r) < n)
                    return;
                VF_LOG(c, "set " << n << " numbers from " << at(r, k) << " on");
                std::vector<double> v;
                for (pos_t i = 0; i < n; ++i)
                {
                    s.m[{(k * s.rows + r + i) / s.rows, (k * s.rows + r + i) % s.rows}] = {0, next};
                    v.push_back(double(next++) / 2);
                }
                t.set(r, k, v.begin(), v.end());
                break;
            }
            case 2: // empty a stretch
            {
                pos_t left = s.rows * s.cols - (k * s.rows + r), n = std::min(left, c.coin() ? 1 + c.below(5) : wide(c));
                VF_LOG(c, "empty " << n << " cells from " << at(r, k) << " on");
                pos_t a = k * s.rows + r;
                std::erase_if(s.m, [&](auto& x) { pos_t p = x.first.first * s.rows + x.first.second; return p >= a && p - a < n; });
                t.set_empty(r, k, n);
                break;
            }
            case 3: // empty a column
                VF_LOG(c, "empty column " << k);
                std::erase_if(s.m, [&](auto& x) { return x.first.first == k; });
                t.set_column_empty(k);
                break;
            case 4: // empty a row
                if (s.cols > 8)
                    return;
                VF_LOG(c, "empty row " << r);
                std::erase_if(s.m, [&](auto& x) { return x.first.second == r; });
                t.set_row_empty(r);
                break;
            case 5: // another size
            {
                if (s.cols > 8)
                    return;
                pos_t R = c.coin() ? r + 1 : wide(c), C = 1 + c.below(6);
                VF_LOG(c, "resize to " << R << " x " << C);
                std::erase_if(s.m, [&](auto& x) { return x.first.second >= R || x.first.first >= C; });
                s.rows = R, s.cols = C;
                t.resize(R, C);
                break;
            }
            case 6:
                if (&s == &o)
                    return;
                if (c.coin() && s.cols <= 8)
                {
                    VF_LOG(c, "copy the common part of " << at(s.rows, s.cols) << " to " << at(o.rows, o.cols));
                    pos_t R = std::min(s.rows, o.rows), C = std::min(s.cols, o.cols);
                    std::erase_if(o.m, [&](auto& x) { return x.first.second < R && x.first.first < C; });
                    for (auto& [p, e] : s.m)
                        if (p.second < R && p.first < C)
                            o.m[p] = e;
                    o.t->copy(t);
                }
                else
                {
                    VF_LOG(c, "assign");
                    *o.t = X(t);
                    o.rows = s.rows, o.cols = s.cols, o.m = s.m;
                    VF_CHECK(*o.t == t, "a copy is not equal");
                }
                check(o);
                break;
            case 7:
            {
                pos_t r2 = place(s.rows), k2 = place(s.cols);
                if (r > r2)
                    std::swap(r, r2);
                if (k > k2)
                    std::swap(k, k2);
                if (k2 - k > 8)
                    k2 = k + c.below(9);
                VF_LOG(c, "walk from " << at(r, k) << " to " << at(r2, k2));
                if (&o != &s && r2 < o.rows && k2 < o.cols)
                    walk2(s, o, r, k, r2, k2);
                else
                    walk(s, r, k, r2, k2, false);
                break;
            }
        }
        ++done;
        check(s);
    }
    void go()
    {
        bool tall = c.chance(2, 3);
        pool.resize(1 + c.coin());
        for (auto& s : pool)
            make(s, tall);
        while (c.more(10))
            step();
        if (done >= 3)
            for (auto& s : pool)
                if (s.rows * s.cols > 65536 && s.m.size() >= 2)
                {
                    c.nontrivial();
                    VF_COVER(c, "far: matrices beyond 2^16 cells");
                    break;
                }
    }
};

template<bool Walks, typename X>
void matrix_case(src& c)
{
    matrix_driver<X> d{c, Walks, {}};
    d.go();
}

} // namespace far
