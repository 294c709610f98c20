// multi_type_matrix: histories against a dense array of typed cells.
#include "far_mtm.hpp"
#include "vf.hpp"
#include <mdds/multi_type_matrix.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <deque>
#include <memory>
#include <optional>
#include <string>
#include <vector>

using vf::src;

// a user-defined string type
struct text
{
    std::string s;
    text() = default;
    explicit text(std::string x) : s(std::move(x)) {}
    bool operator==(const text& o) const { return s == o.s; }
};
constexpr mdds::mtv::element_t text_type = mdds::mtv::element_type_user_start + 3;
using text_block = mdds::mtv::default_element_block<text_type, text>;
inline text no_text;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(text, text_type, no_text, text_block)

struct text_traits
{
    using integer_element_block = mdds::mtv::int64_element_block;
    using string_element_block = text_block;
};

template<typename S> S mks(int id)
{
    if (id % 9 == 0)
        return S(std::string());
    return S(std::string(size_t(id % 30), char('a' + id % 26)) + std::to_string(id));
}

enum kind { EMPTY, BOOL, NUM, STR, INT };
enum focus { M_CONTENT, M_WALK, M_VALUE };

struct cell
{
    int k = EMPTY;
    int id = 0;
};

template<typename Tr>
struct driver
{
    using X = mdds::multi_type_matrix<Tr>;
    using S = typename X::string_type;
    using I = typename X::integer_type;
    using P = typename X::position_type;
    using CP = typename X::const_position_type;
    using SP = typename X::size_pair_type;
    using node = typename X::element_block_node_type;
    static constexpr auto T_E = mdds::mtm::element_empty;

    struct slot
    {
        std::unique_ptr<X> t;
        size_t rows = 0, cols = 0;
        std::vector<cell> m; // column-major
        cell& at(size_t r, size_t cc) { return m[cc * rows + r]; }
        const cell& at(size_t r, size_t cc) const { return m[cc * rows + r]; }
    };

    src& c;
    focus F;
    std::vector<slot> pool;
    int next = 0;
    unsigned changes = 0, mixed = 0, walks = 0, values = 0;

    driver(src& c_, focus f) : c(c_), F(f) {}

    static mdds::mtm::element_t type_of(int k)
    {
        switch (k)
        {
            case BOOL: return mdds::mtm::element_boolean;
            case NUM: return mdds::mtm::element_numeric;
            case STR: return mdds::mtm::element_string;
            case INT: return mdds::mtm::element_integer;
        }
        return T_E;
    }
    static const char* kname(int k)
    {
        static const char* n[] = {"_", "b", "n", "s", "i"};
        return n[k];
    }
    static double num(int id) { return id % 11 == 0 ? 0.0 : (id - 7) * 0.5; }
    static bool boo(int id) { return id % 3 != 0; }
    static I integer(int id) { return id % 13 == 0 ? I(0) : id % 5 == 0 ? std::numeric_limits<int>::max() - I(id) : I(7 - id); }
    static S str(int id) { return mks<S>(id); }

    std::string name(const slot& s) const { return std::string(1, char('A' + (&s - pool.data()))); }
    std::string show(const slot& s) const
    {
        std::ostringstream os;
        os << s.rows << "x" << s.cols << " [";
        for (size_t i = 0; i < s.m.size(); ++i)
        {
            if (i && s.rows && i % s.rows == 0)
                os << " |";
            os << " " << kname(s.m[i].k);
            if (s.m[i].k)
                os << s.m[i].id;
        }
        os << " ]";
        return os.str();
    }

    // ---------------------------------------------------------------- checks

    std::string cell_diff(const X& t, size_t r, size_t cc, const cell& e, bool all) const
    {
        std::ostringstream os;
        os << "(" << r << "," << cc << ") ";
        if (t.get_type(r, cc) != type_of(e.k))
        {
            os << "has type " << t.get_type(r, cc) << ", expected " << type_of(e.k);
            return os.str();
        }
        double want = e.k == NUM ? num(e.id) : e.k == INT ? double(integer(e.id)) : e.k == BOOL ? double(boo(e.id)) : 0.0;
        if (t.get_numeric(r, cc) != want)
        {
            os << "get_numeric() is " << t.get_numeric(r, cc) << ", expected " << want;
            return os.str();
        }
        if (t.get_integer(r, cc) != I(want))
        {
            os << "get_integer() is " << t.get_integer(r, cc) << ", expected " << I(want);
            return os.str();
        }
        if (t.get_boolean(r, cc) != (want != 0.0))
        {
            os << "get_boolean() is wrong";
            return os.str();
        }
        if (e.k != STR && !all)
            return {};
        bool threw = false;
        try
        {
            const S& v = t.get_string(r, cc);
            if (e.k == STR && !(v == str(e.id)))
            {
                os << "get_string() is wrong";
                return os.str();
            }
        }
        catch (const mdds::general_error&)
        {
            threw = true;
        }
        if (threw != (e.k != STR))
        {
            os << (threw ? "get_string() throws for a string" : "get_string() of another type does not throw");
            return os.str();
        }
        return {};
    }
    std::string diff(const slot& s) const
    {
        const X& t = *s.t;
        std::ostringstream os;
        auto z = t.size();
        if (z.row != s.rows || z.column != s.cols)
        {
            os << "size is " << z.row << "x" << z.column << ", expected " << s.rows << "x" << s.cols;
            return os.str();
        }
        if (t.empty() != s.m.empty())
            return "empty() is wrong";
        bool numeric = !s.m.empty();
        for (auto& x : s.m)
            if (x.k == STR || x.k == EMPTY)
                numeric = false;
        if (t.numeric() != numeric)
            return "numeric() is wrong";
        for (size_t cc = 0; cc < s.cols; ++cc)
            for (size_t r = 0; r < s.rows; ++r)
            {
                // exceptions are slow: provoke one per step at most
                bool all = F == M_CONTENT && cc * s.rows + r == changes * 7 % s.m.size();
                std::string e = cell_diff(t, r, cc, s.at(r, cc), all);
                if (!e.empty())
                    return e;
            }
        return {};
    }
    void check_all(const char* what)
    {
        for (slot& s : pool)
        {
            std::string e = diff(s);
            if (!e.empty())
            {
                if (F == M_CONTENT || F == M_VALUE)
                    VF_FAIL(name(s) << " after " << what << ": " << e << "; expected " << show(s));
                VF_COVER(c, "abandoned");
                dead = true;
                return;
            }
            unsigned ks = 0;
            for (auto& x : s.m)
                ks |= 1u << x.k;
            if (s.rows >= 2 && s.cols >= 2 && __builtin_popcount(ks) >= 3)
                mixed = true;
        }
    }
    bool dead = false;

    // ------------------------------------------------------------ generators

    size_t dim() { return c.chance(1, 300) ? 20 + c.below(300) : c.weighted({12, 2, 1}) == 0 ? 1 + c.below(6) : c.coin() ? 1 + c.below(20) : 1; }
    int any_kind() { return int(c.below(5)); }
    int val_kind() { return 1 + int(c.below(4)); }
    slot& some() { return pool[c.below(pool.size())]; }

    template<typename Fn>
    void with_value(int k, int id, Fn f)
    {
        switch (k)
        {
            case BOOL: f(boo(id)); break;
            case NUM: f(num(id)); break;
            case STR: f(str(id)); break;
            case INT: f(integer(id)); break;
        }
    }
    template<typename Fn>
    void with_range(int k, size_t n, std::vector<cell>& cells, Fn f)
    {
        cells.clear();
        for (size_t i = 0; i < n; ++i)
            cells.push_back({k, next++});
        switch (k)
        {
            case BOOL:
            {
                std::deque<bool> v;
                for (auto& x : cells)
                    v.push_back(boo(x.id));
                f(v);
                break;
            }
            case NUM:
            {
                std::vector<double> v;
                for (auto& x : cells)
                    v.push_back(num(x.id));
                f(v);
                break;
            }
            case STR:
            {
                std::vector<S> v;
                for (auto& x : cells)
                    v.push_back(str(x.id));
                f(v);
                break;
            }
            case INT:
            {
                std::deque<I> v;
                for (auto& x : cells)
                    v.push_back(integer(x.id));
                f(v);
                break;
            }
        }
    }
    bool at_cell(slot& s, size_t& r, size_t& cc)
    {
        if (s.m.empty())
            return false;
        r = c.below(s.rows);
        cc = c.below(s.cols);
        return true;
    }

    void make(slot& s)
    {
        unsigned how = c.weighted({1, 4, 4, 5});
        size_t r = dim(), cc = dim();
        int k = val_kind();
        switch (how)
        {
            case 0:
                s.t = std::make_unique<X>();
                s.rows = s.cols = 0;
                s.m.clear();
                VF_LOG(c, name(s) << " = default");
                return;
            case 1:
                s.t = std::make_unique<X>(r, cc);
                s.rows = r, s.cols = cc;
                s.m.assign(r * cc, {});
                break;
            case 2:
            {
                int id = next++;
                with_value(k, id, [&](auto v) { s.t = std::make_unique<X>(r, cc, v); });
                s.rows = r, s.cols = cc;
                s.m.assign(r * cc, {k, id});
                break;
            }
            case 3:
            {
                std::vector<cell> cs;
                with_range(k, r * cc, cs, [&](auto& v) { s.t = std::make_unique<X>(r, cc, v.begin(), v.end()); });
                s.rows = r, s.cols = cc;
                s.m = cs;
                break;
            }
        }
        VF_LOG(c, name(s) << " = matrix " << show(s));
    }

    // ------------------------------------------------------------ operations

    void check_pos(slot& s, const CP& p, size_t r, size_t cc, const char* what)
    {
        const X& t = *s.t;
        auto mp = t.matrix_position(p);
        VF_CHECK(mp.row == r && mp.column == cc, what << " yields (" << mp.row << "," << mp.column << "), expected (" << r << "," << cc << ")");
        VF_CHECK(p.first->position + p.second == cc * s.rows + r && p.second < p.first->size, what << " yields an inconsistent position object");
        const cell& e = s.at(r, cc);
        VF_CHECK(t.get_type(p) == type_of(e.k), what << ": get_type(position) is wrong");
        double want = e.k == NUM ? num(e.id) : e.k == INT ? double(integer(e.id)) : e.k == BOOL ? double(boo(e.id)) : 0.0;
        VF_CHECK(t.get_numeric(p) == want && t.get_integer(p) == I(want) && t.get_boolean(p) == (want != 0.0), what << ": value at the position is wrong");
        bool threw = false;
        try
        {
            VF_CHECK(t.get_string(p) == str(e.id), what << ": get_string(position) is wrong");
        }
        catch (const mdds::general_error&)
        {
            threw = true;
        }
        VF_CHECK(threw == (e.k != STR), what << ": get_string(position) throws wrongly or not");
    }

    void op_set()
    {
        slot& s = some();
        size_t r, cc;
        if (!at_cell(s, r, cc))
            return;
        int k = any_kind(), id = next++;
        bool by_pos = c.coin();
        VF_LOG(c, name(s) << ".set" << (by_pos ? "[pos]" : "") << "(" << r << "," << cc << ", " << kname(k) << id << ")");
        X& t = *s.t;
        std::optional<P> ret;
        if (k == EMPTY)
        {
            if (by_pos)
                ret = t.set_empty(t.position(r, cc));
            else
                t.set_empty(r, cc);
        }
        else
            with_value(k, id, [&](auto v) {
                if (by_pos)
                    ret = t.set(t.position(r, cc), v);
                else
                    t.set(r, cc, v);
            });
        s.at(r, cc) = {k, id};
        ++changes;
        if (ret && F == M_CONTENT)
            check_pos(s, *ret, r, cc, "the position returned by set");
    }
    void op_set_range()
    {
        slot& s = some();
        size_t r, cc;
        if (!at_cell(s, r, cc))
            return;
        size_t pos = cc * s.rows + r, room = s.m.size() - pos;
        size_t n = 1 + c.below(std::min<size_t>(room, 12));
        if (c.chance(1, 8))
            n = room;
        int k = val_kind();
        bool by_pos = c.coin(), bad = c.chance(1, 12);
        if (bad)
            n = room + 1 + c.below(3);
        X& t = *s.t;
        std::vector<cell> cs;
        std::optional<P> ret;
        bool threw = false;
        VF_LOG(c, name(s) << ".set" << (by_pos ? "[pos]" : "") << "(" << r << "," << cc << ", " << n << " x " << kname(k) << next << "..)");
        with_range(k, n, cs, [&](auto& v) {
            try
            {
                if (by_pos)
                    ret = t.set(t.position(r, cc), v.begin(), v.end());
                else
                    t.set(r, cc, v.begin(), v.end());
            }
            catch (const std::out_of_range&)
            {
                threw = true;
            }
        });
        if (F == M_CONTENT)
            VF_CHECK(threw == bad, (bad ? "a range that does not fit is not rejected" : "a range that fits is rejected"));
        if (threw)
            return;
        if (bad)
        {
            dead = true;
            return;
        }
        std::copy(cs.begin(), cs.end(), s.m.begin() + long(pos));
        ++changes;
        if (ret && F == M_CONTENT)
            check_pos(s, *ret, r, cc, "the position returned by set (range)");
    }
    void op_set_column()
    {
        slot& s = some();
        size_t r, cc;
        if (!at_cell(s, r, cc))
            return;
        size_t n = 1 + c.below(s.rows + 3);
        int k = val_kind();
        std::vector<cell> cs;
        VF_LOG(c, name(s) << ".set_column(" << cc << ", " << n << " x " << kname(k) << next << "..)");
        with_range(k, n, cs, [&](auto& v) { s.t->set_column(cc, v.begin(), v.end()); });
        for (size_t i = 0; i < std::min(n, s.rows); ++i)
            s.at(i, cc) = cs[i];
        ++changes;
    }
    void op_set_empty()
    {
        slot& s = some();
        size_t r, cc;
        if (!at_cell(s, r, cc))
            return;
        size_t pos = cc * s.rows + r, room = s.m.size() - pos;
        switch (c.below(4))
        {
            case 0:
            {
                size_t n = 1 + c.below(room);
                VF_LOG(c, name(s) << ".set_empty(" << r << "," << cc << ", " << n << ")");
                s.t->set_empty(r, cc, n);
                for (size_t i = 0; i < n; ++i)
                    s.m[pos + i] = {};
                break;
            }
            case 1:
                VF_LOG(c, name(s) << ".set_column_empty(" << cc << ")");
                s.t->set_column_empty(cc);
                for (size_t i = 0; i < s.rows; ++i)
                    s.at(i, cc) = {};
                break;
            case 2:
                VF_LOG(c, name(s) << ".set_row_empty(" << r << ")");
                s.t->set_row_empty(r);
                for (size_t i = 0; i < s.cols; ++i)
                    s.at(r, i) = {};
                break;
            case 3:
            {
                bool threw = false;
                try
                {
                    s.t->set_empty(r, cc, 0);
                }
                catch (const mdds::general_error&)
                {
                    threw = true;
                }
                if (F == M_CONTENT)
                    VF_CHECK(threw, "set_empty of no element is accepted");
                return;
            }
        }
        ++changes;
    }
    void op_transpose()
    {
        slot& s = some();
        VF_LOG(c, name(s) << ".transpose()");
        X& ret = s.t->transpose();
        if (F == M_CONTENT)
            VF_CHECK(&ret == s.t.get(), "transpose returns another matrix");
        std::vector<cell> m(s.m.size());
        for (size_t cc = 0; cc < s.cols; ++cc)
            for (size_t r = 0; r < s.rows; ++r)
                m[r * s.cols + cc] = s.at(r, cc);
        s.m = std::move(m);
        std::swap(s.rows, s.cols);
        ++changes;
    }
    void resize_model(slot& s, size_t r, size_t cc, cell fill)
    {
        if (!r || !cc)
        {
            s.rows = s.cols = 0;
            s.m.clear();
            return;
        }
        std::vector<cell> m(r * cc, fill);
        for (size_t j = 0; j < std::min(cc, s.cols); ++j)
            for (size_t i = 0; i < std::min(r, s.rows); ++i)
                m[j * r + i] = s.at(i, j);
        s.m = std::move(m);
        s.rows = r;
        s.cols = cc;
    }
    void op_resize()
    {
        slot& s = some();
        size_t r = c.chance(1, 20) ? 0 : dim(), cc = c.chance(1, 20) ? 0 : dim();
        if (c.coin())
        {
            VF_LOG(c, name(s) << ".resize(" << r << "," << cc << ")");
            s.t->resize(r, cc);
            resize_model(s, r, cc, {});
        }
        else
        {
            int k = val_kind(), id = next++;
            VF_LOG(c, name(s) << ".resize(" << r << "," << cc << ", " << kname(k) << id << ")");
            with_value(k, id, [&](auto v) { s.t->resize(r, cc, v); });
            resize_model(s, r, cc, {k, id});
        }
        ++changes;
    }
    void op_copy()
    {
        slot& s = some();
        slot& d = some();
        VF_LOG(c, name(d) << ".copy(" << name(s) << ")");
        d.t->copy(*s.t);
        for (size_t j = 0; j < std::min(d.cols, s.cols); ++j)
            for (size_t i = 0; i < std::min(d.rows, s.rows); ++i)
                d.at(i, j) = s.at(i, j);
        ++changes;
    }
    void op_copy_array()
    {
        slot& s = some();
        size_t r = c.below(8) == 0 ? dim() : s.rows ? 1 + c.below(s.rows) : 1;
        size_t cc = c.below(8) == 0 ? dim() : s.cols ? 1 + c.below(s.cols) : 1;
        size_t n = r * cc;
        if (c.chance(1, 10))
            n += c.coin() ? 1 : size_t(-1);
        if (n > 400)
            return;
        int k = val_kind();
        std::vector<cell> cs;
        bool threw = false;
        VF_LOG(c, name(s) << ".copy(" << r << "," << cc << ", " << n << " x " << kname(k) << next << "..)");
        with_range(k, n, cs, [&](auto& v) {
            try
            {
                s.t->copy(r, cc, v.begin(), v.end());
            }
            catch (const mdds::size_error&)
            {
                threw = true;
            }
        });
        bool none = n == 0 || s.m.empty();
        bool bad = !none && (n != r * cc || r > s.rows || cc > s.cols);
        if (F == M_CONTENT)
            VF_CHECK(threw == bad, (bad ? "copy of a wrong size is accepted" : "copy of a right size is rejected"));
        if (none || bad)
            return;
        for (size_t j = 0; j < cc; ++j)
            for (size_t i = 0; i < r; ++i)
                s.at(i, j) = cs[j * r + i];
        ++changes;
    }
    void op_clear()
    {
        slot& s = some();
        VF_LOG(c, name(s) << ".clear()");
        s.t->clear();
        s.rows = s.cols = 0;
        s.m.clear();
    }
    void op_positions()
    {
        if (F != M_CONTENT)
            return;
        slot& s = some();
        size_t r, cc;
        if (!at_cell(s, r, cc))
            return;
        X& t = *s.t;
        const X& ct = t;
        VF_LOG(c, "positions of " << name(s));
        P h = t.position(r, cc);
        CP ch = ct.position(r, cc);
        check_pos(s, h, r, cc, "position");
        check_pos(s, ch, r, cc, "position const");
        for (unsigned i = 0; i < 3; ++i)
        {
            at_cell(s, r, cc);
            P p = t.position(h, r, cc);
            CP cp = ct.position(ch, r, cc);
            check_pos(s, p, r, cc, "position with a hint");
            check_pos(s, cp, r, cc, "position with a hint const");
            h = X::next_position(p);
            ch = X::next_position(cp);
            size_t n = cc * s.rows + r + 1;
            if (n == s.m.size())
            {
                VF_CHECK(h == t.end_position(), "the position after the last is not the end position");
                VF_CHECK(ch == ct.end_position(), "the position after the last is not the end position (const)");
            }
            else
            {
                check_pos(s, h, n % s.rows, n / s.rows, "next_position");
                check_pos(s, ch, n % s.rows, n / s.rows, "next_position const");
            }
        }
        // values by explicit type
        at_cell(s, r, cc);
        const cell& e = s.at(r, cc);
        int k = c.chance(1, 3) ? val_kind() : e.k == EMPTY ? val_kind() : e.k;
        with_value(k, e.id, [&]<typename V>(V want) {
            bool threw = false;
            V v{};
            try
            {
                v = ct.template get<V>(r, cc);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            if (e.k != EMPTY && e.k != k)
                VF_CHECK(threw, "get of another type does not throw");
            else
            {
                VF_CHECK(!threw, "get of the stored type throws");
                VF_CHECK(v == (e.k == EMPTY ? V{} : want), "get yields a wrong value");
            }
        });
    }

    // ----------------------------------------------------------------- walks

    struct piece
    {
        std::vector<cell> have; // kinds only; values are compared at once
    };
    // compares the cells of a node with the model cells [from, from+size) of a column-major list
    void check_node(const node& n, const std::vector<cell>& want, size_t from, const char* what)
    {
        VF_CHECK(n.size > 0, what << " visits an empty section");
        VF_CHECK(from + n.size <= want.size(), what << " visits more cells than there are");
        for (size_t i = 0; i < n.size; ++i)
        {
            const cell& e = want[from + i];
            VF_CHECK(n.type == type_of(e.k), what << ": cell " << from + i << " is visited with type " << n.type << ", expected " << type_of(e.k));
        }
        size_t at = from;
        auto each = [&](auto b, auto e, auto val) {
            size_t cnt = 0;
            for (; b != e; ++b, ++cnt)
            {
                VF_CHECK(cnt < n.size, what << ": section iterates over more elements than its size");
                VF_CHECK(*b == val(want[at].id), what << ": wrong value at cell " << at);
                ++at;
            }
            VF_CHECK(cnt == n.size, what << ": section iterates over " << cnt << " of " << n.size << " elements");
        };
        switch (n.type)
        {
            case mdds::mtm::element_boolean:
                each(n.template begin<typename X::boolean_block_type>(), n.template end<typename X::boolean_block_type>(), boo);
                break;
            case mdds::mtm::element_numeric:
                each(n.template begin<typename X::numeric_block_type>(), n.template end<typename X::numeric_block_type>(), num);
                break;
            case mdds::mtm::element_string:
                each(n.template begin<typename X::string_block_type>(), n.template end<typename X::string_block_type>(), str);
                break;
            case mdds::mtm::element_integer:
                each(n.template begin<typename X::integer_block_type>(), n.template end<typename X::integer_block_type>(), integer);
                break;
            default:
                VF_CHECK(n.data == nullptr, what << ": an empty section has data");
        }
    }
    struct one
    {
        driver* d;
        const std::vector<cell>* want;
        const char* what;
        size_t at = 0, calls = 0;
        void operator()(const node& n)
        {
            d->check_node(n, *want, at, what);
            at += n.size;
            ++calls;
        }
    };
    struct two
    {
        driver* d;
        const std::vector<cell>*l, *r;
        const char* what;
        size_t at = 0, calls = 0;
        void operator()(const node& a, const node& b)
        {
            VF_CHECK(a.size == b.size, what << " yields sections of different sizes");
            d->check_node(a, *l, at, what);
            d->check_node(b, *r, at, what);
            at += a.size;
            ++calls;
        }
    };
    std::vector<cell> section(const slot& s, size_t r1, size_t c1, size_t r2, size_t c2)
    {
        std::vector<cell> v;
        for (size_t j = c1; j <= c2; ++j)
            for (size_t i = r1; i <= r2; ++i)
                v.push_back(s.at(i, j));
        return v;
    }
    void op_walk()
    {
        slot& s = some();
        slot& o = some();
        const X& t = *s.t;
        ++walks;
        switch (c.below(4))
        {
            case 0:
            {
                VF_LOG(c, "walk of " << name(s));
                one f = t.walk(one{this, &s.m, "walk"});
                VF_CHECK(f.at == s.m.size(), "walk visits " << f.at << " of " << s.m.size() << " cells");
                size_t runs = 0;
                for (size_t i = 0; i < s.m.size(); ++i)
                    runs += i == 0 || s.m[i].k != s.m[i - 1].k;
                VF_CHECK(f.calls == runs, "walk visits " << f.calls << " element blocks, there are " << runs);
                break;
            }
            case 1:
            {
                VF_LOG(c, "walk of " << name(s) << " in parallel with " << name(o));
                bool threw = false;
                two f{this, &s.m, &o.m, "parallel walk"};
                try
                {
                    f = t.walk(f, *o.t);
                }
                catch (const mdds::size_error&)
                {
                    threw = true;
                }
                bool bad = s.rows != o.rows || s.cols != o.cols;
                VF_CHECK(threw == bad, (bad ? "a parallel walk of different geometries is accepted" : "a parallel walk of equal geometries is rejected"));
                if (!bad)
                    VF_CHECK(f.at == s.m.size(), "parallel walk visits " << f.at << " of " << s.m.size() << " cells");
                break;
            }
            case 2:
            case 3:
            {
                bool pair = c.coin();
                size_t R = pair ? std::min(s.rows, o.rows) : s.rows, C = pair ? std::min(s.cols, o.cols) : s.cols;
                size_t r1, r2, c1, c2;
                bool bad = R == 0 || c.chance(1, 6);
                if (bad)
                {
                    r1 = c.below(R + 2), r2 = r1 + c.below(R + 2);
                    c1 = c.below(C + 2), c2 = c1 + c.below(C + 2);
                    if (c.chance(1, 4) && r1)
                        r2 = r1 - 1;
                    if (c.chance(1, 4) && c1)
                        c2 = c1 - 1;
                    if (r1 <= r2 && r2 < R && c1 <= c2 && c2 < C)
                        return;
                }
                else
                {
                    r1 = c.below(R), r2 = r1 + c.below(R - r1);
                    c1 = c.below(C), c2 = c1 + c.below(C - c1);
                }
                VF_LOG(c, "walk of " << name(s) << " (" << r1 << "," << c1 << ")-(" << r2 << "," << c2 << ")" << (pair ? " in parallel with " + name(o) : ""));
                bool threw = false;
                std::vector<cell> a, b;
                size_t n = 0;
                if (!bad)
                {
                    a = section(s, r1, c1, r2, c2);
                    if (pair)
                        b = section(o, r1, c1, r2, c2);
                    n = a.size();
                }
                size_t seen = 0;
                try
                {
                    if (pair)
                        seen = t.walk(two{this, &a, &b, "parallel walk of a range"}, *o.t, SP(r1, c1), SP(r2, c2)).at;
                    else
                        seen = t.walk(one{this, &a, "walk of a range"}, SP(r1, c1), SP(r2, c2)).at;
                }
                catch (const mdds::size_error&)
                {
                    threw = true;
                }
                VF_CHECK(threw == bad, (bad ? "a walk of an invalid range is accepted" : "a walk of a valid range is rejected"));
                VF_CHECK(bad || seen == n, "the walk visits " << seen << " of " << n << " cells");
                break;
            }
        }
    }

    // ---------------------------------------------------------------- values

    void take(slot& d, const slot& s)
    {
        d.rows = s.rows, d.cols = s.cols;
        d.m = s.m;
    }
    static void strip(slot& s)
    {
        s.rows = s.cols = 0;
        s.m.clear();
    }
    bool same(const slot& a, const slot& b) const
    {
        if (a.rows != b.rows || a.cols != b.cols)
            return false;
        for (size_t i = 0; i < a.m.size(); ++i)
        {
            const cell &x = a.m[i], &y = b.m[i];
            if (x.k != y.k)
                return false;
            switch (x.k)
            {
                case BOOL:
                    if (boo(x.id) != boo(y.id))
                        return false;
                    break;
                case NUM:
                    if (num(x.id) != num(y.id))
                        return false;
                    break;
                case STR:
                    if (!(str(x.id) == str(y.id)))
                        return false;
                    break;
                case INT:
                    if (integer(x.id) != integer(y.id))
                        return false;
                    break;
            }
        }
        return true;
    }
    void op_value()
    {
        slot& s = some();
        slot& d = some();
        bool self = &s == &d;
        ++values;
        switch (c.below(7))
        {
            case 0:
                if (self)
                    return;
                VF_LOG(c, name(d) << " = copy-constructed from " << name(s));
                d.t = std::make_unique<X>(*s.t);
                take(d, s);
                break;
            case 1:
                VF_LOG(c, name(d) << " = " << name(s));
                *d.t = *s.t;
                if (!self)
                    take(d, s);
                break;
            case 2:
                if (self)
                    return;
                VF_LOG(c, name(d) << " = move-constructed from " << name(s));
                d.t = std::make_unique<X>(std::move(*s.t));
                take(d, s);
                strip(s);
                break;
            case 3:
                if (self)
                    return;
                VF_LOG(c, name(d) << " = move(" << name(s) << ")");
                *d.t = std::move(*s.t);
                take(d, s);
                strip(s);
                break;
            case 4:
                VF_LOG(c, name(d) << ".swap(" << name(s) << ")");
                d.t->swap(*s.t);
                if (!self)
                {
                    std::swap(d.m, s.m);
                    std::swap(d.rows, s.rows);
                    std::swap(d.cols, s.cols);
                }
                break;
            default:
            {
                // rebuild the same content along another way, then compare
                if (c.coin() && !self)
                {
                    VF_LOG(c, name(d) << " rebuilt like " << name(s));
                    d.t = std::make_unique<X>(s.rows, s.cols);
                    take(d, s);
                    std::vector<size_t> order(s.m.size());
                    for (size_t i = 0; i < order.size(); ++i)
                        order[i] = i;
                    for (size_t i = order.size(); i > 1; --i)
                        std::swap(order[i - 1], order[c.below(i)]);
                    for (size_t i : order)
                        with_value(s.m[i].k, s.m[i].id, [&](auto v) { d.t->set(i % s.rows, i / s.rows, v); });
                    if (!order.empty() && c.coin())
                    {
                        size_t i = c.below(order.size());
                        int k = any_kind(), id = next++;
                        if (k == EMPTY)
                            d.t->set_empty(i % s.rows, i / s.rows);
                        else
                            with_value(k, id, [&](auto v) { d.t->set(i % s.rows, i / s.rows, v); });
                        d.m[i] = {k, id};
                    }
                }
                bool eq = same(s, d);
                VF_LOG(c, "compare " << name(s) << " and " << name(d));
                if (F == M_VALUE)
                {
                    VF_CHECK((*s.t == *d.t) == eq, "comparison yields " << !eq << " for " << show(s) << " and " << show(d));
                    VF_CHECK((*s.t != *d.t) == !eq, "inequality yields " << eq);
                }
            }
        }
    }

    void run()
    {
        pool.resize(F == M_CONTENT ? 1 + c.below(2) : 2 + c.below(2));
        for (auto& s : pool)
        {
            s.t = std::make_unique<X>();
            make(s);
        }
        if (F == M_WALK && c.coin())
        {
            // equal geometry
            slot &a = pool[0], &b = pool[1];
            b.t->resize(a.rows, a.cols);
            resize_model(b, a.rows, a.cols, {});
        }
        check_all("construction");
        bool W = F == M_WALK, V = F == M_VALUE;
        for (unsigned ops = 0; !dead && c.more(c.tier ? 50 : 25) && ops < 300; ++ops)
        {
            static const char* names[] = {"set", "set range", "set column", "set empty", "transpose", "resize", "copy", "copy array", "clear", "construction", "positions", "walk", "value operation"};
            unsigned o = c.weighted({10, 10, 6, 5, 4, 4, 5, 4, W ? 0u : 1u, 2, F == M_CONTENT ? 8u : 0u, W ? 25u : 0u, V ? 20u : 1u});
            switch (o)
            {
                case 0: op_set(); break;
                case 1: op_set_range(); break;
                case 2: op_set_column(); break;
                case 3: op_set_empty(); break;
                case 4: op_transpose(); break;
                case 5: op_resize(); break;
                case 6: op_copy(); break;
                case 7: op_copy_array(); break;
                case 8: op_clear(); break;
                case 9: make(some()); break;
                case 10: op_positions(); break;
                case 11: op_walk(); break;
                case 12: op_value(); break;
            }
            check_all(names[o]);
            if (c.tracing)
                for (auto& s : pool)
                    *c.trace << "    " << name(s) << " " << show(s) << "\n";
        }
        if (mixed && changes >= 3 && (!W || walks >= 2) && (!V || values >= 2))
            c.nontrivial();
    }
};

template<focus F, typename Tr>
void run_case(src& c)
{
    driver<Tr>(c, F).run();
}

#define ST mdds::mtm::std_string_traits
#if VF_FOR(29)
#define RULE "histories of set, range and column set, emptying, transpose, resize, copy and construction on 1-2 matrices; non-trivial: at least 3 changes and a matrix of 2x2 or more with 3 element types"
#if VF_IN(0)
VF_PROPERTY("C29", (run_case<M_CONTENT, ST>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C29", (run_case<M_CONTENT, text_traits>), RULE);
#endif
#undef RULE
#endif
#if VF_FOR(30)
#define RULE "the same histories interleaved with walks over whole matrices, ranges and pairs of matrices, also with invalid ranges; non-trivial: at least 2 walks, 3 changes and a matrix of 2x2 or more with 3 element types"
#if VF_IN(0)
VF_PROPERTY("C30", (run_case<M_WALK, ST>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C30", (run_case<M_WALK, text_traits>), RULE);
#endif
#undef RULE
#endif
#if VF_FOR(31)
#define RULE "the same histories over 2-3 matrices interleaved with copies, moves, swaps and comparisons; non-trivial: at least 2 of these, 3 changes and a matrix of 2x2 or more with 3 element types"
#if VF_IN(0)
VF_PROPERTY("C31", (run_case<M_VALUE, ST>), RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C31", (run_case<M_VALUE, text_traits>), RULE);
#endif
#undef RULE
#endif

// few elements, very many rows or columns
#if VF_IN(2)
#define FAR_RULE "histories over 1-2 matrices of up to 2^33 rows or columns, all positions near the edges or powers of two; non-trivial: at least 3 changes and a matrix of more than 2^16 cells with 2 elements"
#if VF_FOR(29)
VF_PROPERTY("C29", (far::matrix_case<false, mdds::multi_type_matrix<ST>>), FAR_RULE, 1);
#endif
#if VF_FOR(30)
VF_PROPERTY("C30", (far::matrix_case<true, mdds::multi_type_matrix<ST>>), FAR_RULE, 1);
#endif
#endif

VF_MAIN
