// multi_type_vector (structure-of-arrays and array-of-structures variants).
//
// Histories of the public operations over a small pool of containers, run
// against a plain vector of (kind, value id) cells per container.
#include "mtv_kits.hpp"

#include "far.hpp"

using vf::src;

enum focus
{
    F_VALUES, // contents
    F_CANON,  // blocks, iterators, positions
    F_HINT,   // hints and returned iterators
    F_XFER,   // transfer and swap of ranges
    F_OWN,    // ownership of managed elements
    F_EVENT,  // block events
    F_COPY,   // copy, clone, move, swap, equality
    F_COW,    // copy-on-write
    F_RANGE   // rejected calls
};

struct cell
{
    int k = -1;
    int id = 0;
    const void* p = nullptr;
    bool operator==(const cell& o) const { return k == o.k && (k < 0 || id == o.id); }
};

struct run
{
    size_t pos, size;
    int k;
};

struct group
{
    bool unk = false;
};

template<typename Kit, template<typename> class MT, mdds::mtv::lu_factor_t LU, bool COW, bool SOA>
struct driver
{
    using M = MT<tr<Kit, LU, COW>>;
    using iterator = typename M::iterator;
    using const_iterator = typename M::const_iterator;

    struct slot
    {
        std::unique_ptr<M> t;
        std::vector<cell> m;
        std::optional<iterator> last;
        std::shared_ptr<group> g; // shared with these (copy-on-write)
        bool touched = false;
        bool detached = false;
        std::vector<const void*> where; // the first elements of its blocks, before the call
    };

    src& c;
    const focus F;
    std::vector<slot> pool;
    int next_id = 0;
    size_t ops = 0, changes = 0, hinted = 0, xfers = 0, copies = 0, rejected = 0, throws = 0;
    bool used_hint = false, op_xfer = false, op_copy = false, op_invalid = false;
    long m0 = 0, n0 = 0, x0 = 0;
    bool sawblocks = false;

    driver(src& c_, focus f) : c(c_), F(f) {}

    // ------------------------------------------------------------- the model

    static std::vector<run> runs(const std::vector<cell>& m)
    {
        std::vector<run> r;
        for (size_t i = 0; i < m.size(); ++i)
        {
            if (!r.empty() && r.back().k == m[i].k)
                ++r.back().size;
            else
                r.push_back({i, 1, m[i].k});
        }
        return r;
    }

    std::string show(const std::vector<cell>& m) const
    {
        std::ostringstream os;
        os << "[" << m.size() << ":";
        for (auto& r : runs(m))
        {
            os << " ";
            if (r.k < 0)
                os << "_";
            else
                os << "k" << r.k << "#" << m[r.pos].id;
            if (r.size > 1)
                os << "*" << r.size;
        }
        os << "]";
        return os.str();
    }
    std::string dump(const M& t) const
    {
        std::ostringstream os;
        os << "[size " << t.size() << ", " << t.block_size() << " blocks:";
        size_t n = 0;
        for (auto it = t.cbegin(); it != t.cend() && n < 200; ++it, ++n)
            os << " " << it->position << "+" << it->size << ":t" << it->type;
        os << "]";
        return os.str();
    }
    char name(const slot& s) const { return char('A' + (&s - &pool[0])); }

    // --------------------------------------------------------------- checks

    // the contents of t, cell by cell; tolerant of a non-canonical block list
    std::string content_diff(const slot& s) const
    {
        const M& t = *s.t;
        std::ostringstream os;
        if (t.size() != s.m.size())
        {
            os << "size() is " << t.size() << ", expected " << s.m.size();
            return os.str();
        }
        if (t.empty() != s.m.empty())
            return "empty() disagrees with size()";
        size_t pos = 0;
        for (auto it = t.cbegin(), ie = t.cend(); it != ie; ++it)
        {
            if (it->position != pos)
            {
                os << "block at " << it->position << ", expected to start at " << pos;
                return os.str();
            }
            if (it->size > s.m.size() - pos)
            {
                os << "block at " << pos << " of size " << it->size << " reaches past the end (" << s.m.size() << ")";
                return os.str();
            }
            int k = -1;
            if (it->type != mdds::mtv::element_type_empty)
            {
                k = kind_of_type<Kit>(it->type);
                if (k < 0)
                    return "block of unknown type";
            }
            for (size_t i = 0; i < it->size; ++i)
                if (s.m[pos + i].k != k)
                {
                    os << "cell " << pos + i << " has kind " << k << ", expected " << s.m[pos + i].k;
                    return os.str();
                }
            if (k < 0)
            {
                if (it->data)
                    return "an empty block has data";
            }
            else
            {
                if (!it->data)
                    return "a block has no data";
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    if (K::Blk::size(*it->data) != it->size)
                    {
                        os << "block at " << pos << " has size " << it->size << " but holds " << K::Blk::size(*it->data)
                           << " elements";
                        return;
                    }
                    size_t i = pos;
                    for (auto v = K::Blk::cbegin(*it->data), ve = K::Blk::cend(*it->data); v != ve; ++v, ++i)
                        if (!K::eq(*v, s.m[i].id))
                        {
                            os << "cell " << i << " (kind " << k << ") holds a wrong value, expected id " << s.m[i].id;
                            return;
                        }
                });
                if (!os.str().empty())
                    return os.str();
            }
            pos += it->size;
        }
        if (pos != s.m.size())
        {
            os << "blocks cover " << pos << " of " << s.m.size() << " positions";
            return os.str();
        }
        return {};
    }

    static std::vector<const void*> addresses(const slot& s)
    {
        std::vector<const void*> r;
        if (s.t)
            for (auto it = s.t->cbegin(), ie = s.t->cend(); it != ie; ++it)
                if (int k = kind_of_type<Kit>(it->type); k >= 0 && it->data)
                    with_kind<Kit>(unsigned(k), [&]<typename K>() {
                        auto v = K::Blk::cbegin(*it->data);
                        if constexpr (std::is_lvalue_reference_v<decltype(*v)>)
                            if (v != K::Blk::cend(*it->data))
                                r.push_back(&*v);
                    });
        return r;
    }

    std::string canon_diff(const slot& s) const
    {
        const M& t = *s.t;
        std::ostringstream os;
        size_t pos = 0, n = 0;
        element_t prev = mdds::mtv::element_type_empty;
        for (auto it = t.cbegin(), ie = t.cend(); it != ie; ++it, ++n)
        {
            if (it->size == 0)
            {
                os << "block " << n << " has size zero";
                return os.str();
            }
            if (it->position != pos)
            {
                os << "block " << n << " starts at " << it->position << ", expected " << pos;
                return os.str();
            }
            if (n && it->type == prev)
            {
                os << "blocks " << n - 1 << " and " << n << " have the same type " << prev;
                return os.str();
            }
            if ((it->type == mdds::mtv::element_type_empty) != (it->data == nullptr))
            {
                os << "block " << n << ": type " << it->type << (it->data ? " with" : " without") << " data";
                return os.str();
            }
            if (it->data)
            {
                int k = kind_of_type<Kit>(it->type);
                if (k < 0 || mdds::mtv::get_block_type(*it->data) != it->type)
                {
                    os << "block " << n << " has a foreign type";
                    return os.str();
                }
                size_t sz = 0;
                with_kind<Kit>(unsigned(k), [&]<typename K>() { sz = K::Blk::size(*it->data); });
                if (sz != it->size)
                {
                    os << "block " << n << " has size " << it->size << " but stores " << sz;
                    return os.str();
                }
            }
            if (it->__private_data.block_index != n)
            {
                os << "iterator at block " << n << " says " << it->__private_data.block_index;
                return os.str();
            }
            prev = it->type;
            pos += it->size;
        }
        if (n != t.block_size())
        {
            os << "block_size() is " << t.block_size() << ", iteration saw " << n;
            return os.str();
        }
        if (pos != t.size())
        {
            os << "blocks cover " << pos << " positions, size() is " << t.size();
            return os.str();
        }
        return {};
    }

    std::string event_diff(const slot& s) const
    {
        std::map<element_t, long> have;
        const M& t = *s.t;
        for (auto it = t.cbegin(), ie = t.cend(); it != ie; ++it)
            if (it->data)
                ++have[it->type];
        std::ostringstream os;
        for (auto& [ty, n] : t.event_handler().live)
            if (n && !have.count(ty))
                have[ty] = 0;
        for (auto& [ty, n] : have)
        {
            auto i = t.event_handler().live.find(ty);
            long ln = i == t.event_handler().live.end() ? 0 : i->second;
            if (ln != n)
            {
                os << name(s) << " has " << n << " blocks of type " << ty << ", but the events so far add up to " << ln;
                return os.str();
            }
        }
        return {};
    }

    bool claims_content(const slot& s) const
    {
        switch (F)
        {
            case F_VALUES:
            case F_COW:
            case F_OWN:
                return true;
            case F_XFER:
                return op_xfer;
            case F_HINT:
                return used_hint;
            case F_COPY:
                return op_copy || !s.touched;
            case F_RANGE:
                return op_invalid;
            default:
                return false;
        }
    }

    // false: the history cannot be continued (and it is not for this property to say so)
    bool check_all()
    {
        for (slot& s : pool)
        {
            if (!s.t)
                continue;
            if (F == F_CANON)
            {
                std::string e = canon_diff(s);
                if (!e.empty())
                    VF_FAIL(name(s) << ": " << e << "; blocks " << dump(*s.t) << "; expected " << show(s.m));
            }
            if (F == F_CANON)
            {
                // the blocks are the maximal runs of the expected types
                auto r = runs(s.m);
                size_t i = 0;
                for (auto it = s.t->cbegin(), ie = s.t->cend(); it != ie; ++it, ++i)
                    VF_CHECK(i < r.size() && it->position == r[i].pos && it->size == r[i].size && it->type == type_of_kind<Kit>(r[i].k),
                        name(s) << ": block " << i << " is not a maximal run; blocks " << dump(*s.t) << "; expected " << show(s.m));
                VF_CHECK(i == r.size() && s.t->block_size() == r.size(), name(s) << ": " << i << " blocks for " << r.size() << " runs");
            }
            std::string e = content_diff(s);
            if (!e.empty())
            {
                if (claims_content(s))
                    VF_FAIL(name(s) << ": " << e << "; blocks " << dump(*s.t) << "; expected " << show(s.m));
                VF_COVER(c, "abandoned: contents");
                return false;
            }
            if (F == F_RANGE && op_invalid)
            {
                e = canon_diff(s);
                if (!e.empty())
                    VF_FAIL(name(s) << ": after a rejected call: " << e);
            }
            if (F == F_EVENT || (F == F_RANGE && op_invalid))
            {
                e = event_diff(s);
                if (!e.empty())
                    VF_FAIL(e << "; blocks " << dump(*s.t));
            }
            if (s.t->block_size() >= 3)
                sawblocks = true;
        }
        if (F == F_EVENT && ev::bad)
            VF_FAIL("block events: " << ev::bad);
        if (F == F_OWN || F == F_COW)
            check_live();
        return true;
    }

    template<typename K>
    long cells_of(int k) const
    {
        long n = 0;
        std::set<const group*> seen;
        for (const slot& s : pool)
        {
            if (s.g)
            {
                if (!seen.insert(s.g.get()).second)
                    continue;
            }
            for (auto& x : s.m)
                n += x.k == k;
        }
        return n;
    }
    void check_live()
    {
        if constexpr (Kit::any_managed)
        {
            for (auto& s : pool)
                if (s.g && s.g->unk)
                    return;
            [&]<size_t... I>(std::index_sequence<I...>) {
                (check_live_kind<typename Kit::template at<I>>(int(I)), ...);
            }(std::make_index_sequence<Kit::n>{});
        }
    }
    template<typename K>
    void check_live_kind(int k)
    {
        if constexpr (K::managed)
        {
            long base = std::is_same_v<K, K_m> ? m0 : std::is_same_v<K, K_n> ? n0 : x0;
            long have = K::obj::live - base, want = cells_of<K>(k);
            VF_CHECK(have == want, "kind " << k << ": " << have << " managed objects are alive, " << want
                                           << " are held by the containers");
            if (!COW)
                for (slot& s : pool)
                {
                    if (!s.t)
                        continue;
                    for (auto it = s.t->cbegin(), ie = s.t->cend(); it != ie; ++it)
                        if (it->type == K::Blk::block_type)
                        {
                            size_t i = it->position;
                            for (auto v = K::Blk::cbegin(*it->data); v != K::Blk::cend(*it->data); ++v, ++i)
                                VF_CHECK(s.m[i].p == nullptr || *v == s.m[i].p,
                                    name(s) << ": cell " << i << " does not hold the very object that was given to it");
                        }
                }
        }
    }

    void check_iter(slot& s, const iterator& it, size_t pos, const char* what)
    {
        if (F != F_HINT)
            return;
        const M& t = *s.t;
        if (pos == size_t(-1))
        {
            VF_CHECK(const_iterator(it) == t.cend(), what << ": expected the end iterator");
            return;
        }
        if (pos >= t.size())
            return;
        auto exp = t.position(pos).first;
        VF_CHECK(it->position == exp->position && it->size == exp->size && it->type == exp->type && it->data == exp->data,
            what << " returned an iterator to block " << it->position << "+" << it->size << ":t" << it->type
                 << ", but position " << pos << " is in " << exp->position << "+" << exp->size << ":t" << exp->type
                 << " of " << dump(t));
        VF_CHECK(const_iterator(it) == exp, what << " returned an iterator that differs from that of position " << pos);
        VF_CHECK(it->__private_data.block_index == exp->__private_data.block_index,
            what << " returned an iterator with a wrong block index");
        VF_CHECK(*it == *exp, what << " returned an iterator whose node differs from that of position " << pos);
        if (exp->position > 0)
        {
            auto before = exp;
            --before;
            VF_CHECK(!(*it == *before), "the nodes of two blocks compare equal");
        }
    }

    // ----------------------------------------------------------- generators

    slot& some() { return c.pick(pool); }
    std::pair<slot*, slot*> two() // two different ones
    {
        size_t i = c.below(pool.size()), j = c.below(pool.size() - 1);
        return {&pool[i], &pool[j < i ? j : j + 1]};
    }

    size_t pick_pos(const std::vector<cell>& m)
    {
        if (m.empty())
            return 0;
        if (c.chance(1, 4))
            return c.below(m.size());
        auto r = runs(m);
        auto& b = c.pick(r);
        switch (c.below(4))
        {
            case 0:
                return b.pos;
            case 1:
                return b.pos + b.size - 1;
            case 2:
                return b.pos + b.size / 2;
            default:
                return b.pos + c.below(b.size);
        }
    }
    std::pair<size_t, size_t> pick_range(const std::vector<cell>& m)
    {
        unsigned how = c.below(3);
        if (how == 1 && !m.empty()) // a part of one block: the whole, a head, a tail or a middle
        {
            auto r = runs(m);
            auto& b = c.pick(r);
            unsigned part = c.below(4);
            size_t lo = b.pos, hi = b.pos + b.size - 1;
            if (part & 1)
                lo += c.below(b.size);
            if (part & 2)
                hi = lo + c.below(hi - lo + 1);
            return {lo, hi};
        }
        if (how == 2 && !m.empty()) // a short one anywhere
        {
            size_t lo = pick_pos(m);
            return {lo, std::min(m.size() - 1, lo + c.below(4))};
        }
        size_t a = pick_pos(m), b = pick_pos(m);
        if (c.chance(1, 5))
            b = a;
        if (a > b)
            std::swap(a, b);
        return {a, b};
    }
    // where to put s[a,b] in d: often a place where the elements that come in,
    // or those that go out, meet neighbours of their own kind
    size_t pick_to(const slot& s, const slot& d, size_t a, size_t b)
    {
        size_t len = b - a + 1, last = d.m.size() - len;
        if (c.coin())
        {
            int want = int(1 + c.below(15));
            std::vector<size_t> fit;
            for (size_t to = 0; to <= last; ++to)
            {
                int got = 0;
                if (a > 0 && d.m[to].k == s.m[a - 1].k)
                    got |= 1;
                if (b + 1 < s.m.size() && d.m[to + len - 1].k == s.m[b + 1].k)
                    got |= 2;
                if (to > 0 && s.m[a].k == d.m[to - 1].k)
                    got |= 4;
                if (to < last && s.m[b].k == d.m[to + len].k)
                    got |= 8;
                if ((got & want) == want)
                    fit.push_back(to);
            }
            if (!fit.empty())
                return c.pick(fit);
        }
        return std::min(pick_pos(d.m), last);
    }
    int pick_kind(const std::vector<cell>& m, size_t pos)
    {
        // often the kind of a neighbour, so that blocks merge and extend
        if (c.coin() && !m.empty())
        {
            auto r = runs(m);
            size_t i = 0;
            while (i + 1 < r.size() && r[i + 1].pos <= pos)
                ++i;
            int d = c.pick({0, -1, 1});
            if (long(i) + d >= 0 && long(i) + d < long(r.size()) && r[i + d].k >= 0)
                return r[i + d].k;
        }
        return int(c.below(Kit::n));
    }
    template<typename K>
    void make_range(typename K::range& r, std::vector<cell>& cs, int k, size_t n)
    {
        for (size_t i = 0; i < n; ++i)
        {
            int id = next_id++;
            auto v = K::make(id);
            cs.push_back({k, id, COW ? nullptr : K::ptr(v)});
            r.push_back(v);
        }
    }
    template<typename K>
    void dispose_range(typename K::range& r)
    {
        for (const auto& v : r)
            K::dispose(v);
    }

    // a hint for a call on s; nothing means the call without a hint
    std::optional<iterator> hint(slot& s)
    {
        unsigned w = F == F_HINT ? 5 : F == F_VALUES ? 2 : 1;
        if (!c.chance(w, 6))
            return {};
        std::optional<iterator> r;
        if constexpr (COW)
        {
            if (s.last)
                r = s.last;
        }
        else
        {
            switch (c.below(4))
            {
                case 0:
                    r = s.t->begin();
                    break;
                case 1:
                    r = s.t->end();
                    break;
                case 2:
                    r = s.t->position(pick_pos(s.m)).first;
                    break;
                default:
                    if (s.last)
                        r = s.last;
                    else if (s.t->block_size())
                    {
                        auto it = s.t->end();
                        for (size_t n = 1 + c.below(std::min<size_t>(s.t->block_size(), 40)); n; --n)
                            --it;
                        r = it;
                    }
            }
        }
        if (r)
        {
            used_hint = true;
            ++hinted;
            if (c.tracing)
            {
                *c.trace << "  (hint: ";
                if (const_iterator(*r) == s.t->cend())
                    *c.trace << "end";
                else
                    *c.trace << "block at " << (*r)->position;
                *c.trace << ")\n";
            }
        }
        return r;
    }

    // bookkeeping around a mutating call on s
    void begin_change(slot& s)
    {
        s.touched = true;
    }
    void done(slot& s, std::optional<iterator> ret)
    {
        s.last = ret;
        s.g.reset();
        ++changes;
    }
    void no_change(slot& s) // a call that changed nothing: the sharing may or may not have ended
    {
        s.last.reset();
        if (s.g)
            s.g->unk = true;
    }

    // ------------------------------------------------------------ operations

    void op_set()
    {
        slot& s = some();
        if (s.m.empty())
            return;
        size_t pos = pick_pos(s.m);
        int k = pick_kind(s.m, pos);
        auto h = hint(s);
        begin_change(s);
        with_kind<Kit>(unsigned(k), [&]<typename K>() {
            int id = next_id++;
            auto v = K::make(id);
            VF_LOG(c, name(s) << ".set(" << pos << ", k" << k << "#" << id << ")");
            iterator it = h ? s.t->set(*h, pos, v) : s.t->set(pos, v);
            s.m[pos] = {k, id, COW ? nullptr : K::ptr(v)};
            done(s, it);
            check_iter(s, it, pos, "set");
        });
    }
    void op_set_range()
    {
        slot& s = some();
        if (s.m.empty())
            return;
        auto [a, b] = pick_range(s.m);
        size_t n = b - a + 1;
        if (c.chance(1, 16))
            n = 0;
        int k = pick_kind(s.m, a);
        auto h = hint(s);
        begin_change(s);
        with_kind<Kit>(unsigned(k), [&]<typename K>() {
            typename K::range r;
            std::vector<cell> cs;
            VF_LOG(c, name(s) << ".set(" << a << ", " << n << " x k" << k << "#" << next_id << "..)");
            make_range<K>(r, cs, k, n);
            iterator it = h ? s.t->set(*h, a, r.begin(), r.end()) : s.t->set(a, r.begin(), r.end());
            std::copy(cs.begin(), cs.end(), s.m.begin() + a);
            if (n)
                done(s, it);
            else
                no_change(s);
            check_iter(s, it, n ? a : size_t(-1), "set (range)");
        });
    }
    void op_push()
    {
        slot& s = some();
        if (s.m.size() > 1500)
            return;
        begin_change(s);
        if (c.chance(1, 5))
        {
            VF_LOG(c, name(s) << ".push_back_empty()");
            iterator it = s.t->push_back_empty();
            s.m.push_back({});
            done(s, it);
            check_iter(s, it, s.m.size() - 1, "push_back_empty");
            return;
        }
        int k = pick_kind(s.m, s.m.size());
        unsigned how = c.below(3);
        with_kind<Kit>(unsigned(k), [&]<typename K>() {
            int id = next_id++;
            auto v = K::make(id);
            const void* p = K::ptr(v);
            VF_LOG(c, name(s) << (how == 2 ? ".emplace_back(k" : ".push_back(k") << k << "#" << id << ")");
            iterator it = [&] {
                if (how == 0)
                    return s.t->push_back(v);
                if constexpr (!K::managed)
                    if (how == 2)
                        return s.t->template emplace_back<typename K::T>(v);
                return s.t->push_back(typename K::T(v));
            }();
            s.m.push_back({k, id, COW ? nullptr : p});
            done(s, it);
            check_iter(s, it, s.m.size() - 1, "push_back");
        });
    }
    void op_insert()
    {
        slot& s = some();
        if (s.m.empty() || s.m.size() > 1500)
            return;
        size_t pos = pick_pos(s.m);
        size_t n = c.chance(1, 16) ? 0 : 1 + c.below(5);
        int k = pick_kind(s.m, pos);
        auto h = hint(s);
        begin_change(s);
        with_kind<Kit>(unsigned(k), [&]<typename K>() {
            typename K::range r;
            std::vector<cell> cs;
            VF_LOG(c, name(s) << ".insert(" << pos << ", " << n << " x k" << k << "#" << next_id << "..)");
            make_range<K>(r, cs, k, n);
            iterator it = h ? s.t->insert(*h, pos, r.begin(), r.end()) : s.t->insert(pos, r.begin(), r.end());
            s.m.insert(s.m.begin() + pos, cs.begin(), cs.end());
            if (n)
                done(s, it);
            else
                no_change(s);
            check_iter(s, it, n ? pos : size_t(-1), "insert");
        });
    }
    void op_set_empty()
    {
        slot& s = some();
        if (s.m.empty())
            return;
        auto [a, b] = pick_range(s.m);
        auto h = hint(s);
        begin_change(s);
        VF_LOG(c, name(s) << ".set_empty(" << a << ", " << b << ")");
        iterator it = h ? s.t->set_empty(*h, a, b) : s.t->set_empty(a, b);
        std::fill(s.m.begin() + a, s.m.begin() + b + 1, cell{});
        done(s, it);
        check_iter(s, it, a, "set_empty");
    }
    void op_erase()
    {
        slot& s = some();
        if (s.m.empty())
            return;
        auto [a, b] = pick_range(s.m);
        begin_change(s);
        VF_LOG(c, name(s) << ".erase(" << a << ", " << b << ")");
        s.t->erase(a, b);
        s.m.erase(s.m.begin() + a, s.m.begin() + b + 1);
        done(s, {});
    }
    void op_insert_empty()
    {
        slot& s = some();
        if (s.m.empty() || s.m.size() > 1500)
            return;
        size_t pos = pick_pos(s.m);
        size_t n = c.chance(1, 12) ? 0 : 1 + c.below(6);
        auto h = hint(s);
        begin_change(s);
        VF_LOG(c, name(s) << ".insert_empty(" << pos << ", " << n << ")");
        iterator it = h ? s.t->insert_empty(*h, pos, n) : s.t->insert_empty(pos, n);
        s.m.insert(s.m.begin() + pos, n, cell{});
        if (n)
            done(s, it);
        else
            no_change(s);
        check_iter(s, it, n ? pos : size_t(-1), "insert_empty");
    }
    void op_clear()
    {
        slot& s = some();
        begin_change(s);
        VF_LOG(c, name(s) << ".clear()");
        s.t->clear();
        s.m.clear();
        done(s, {});
    }
    void op_resize()
    {
        slot& s = some();
        size_t n = c.coin() ? s.m.size() + c.below(7) : (s.m.empty() ? c.below(20) : pick_pos(s.m));
        if (n > 1600)
            return;
        bool same = n == s.m.size();
        begin_change(s);
        VF_LOG(c, name(s) << ".resize(" << n << ")");
        s.t->resize(n);
        s.m.resize(n);
        if (same)
            no_change(s);
        else
            done(s, {});
    }
    void op_fill() // an alternating pattern: many blocks
    {
        slot& s = some();
        if (s.m.size() > 400)
            return;
        unsigned n = c.chance(1, 4) ? c.below(70) : c.below(12);
        int k1 = int(c.below(Kit::n)), k2 = int(c.below(Kit::n + 1)) - 1;
        unsigned len = 1 + c.below(3);
        begin_change(s);
        VF_LOG(c, name(s) << ": append " << n << " x (" << len << " x k" << k1 << ", k" << k2 << ")");
        for (unsigned i = 0; i < n; ++i)
        {
            for (unsigned j = 0; j < len; ++j)
                push_one(s, k1);
            push_one(s, k2);
        }
        if (n)
            done(s, {});
    }
    void push_one(slot& s, int k)
    {
        if (k < 0)
        {
            s.t->push_back_empty();
            s.m.push_back({});
            return;
        }
        with_kind<Kit>(unsigned(k), [&]<typename K>() {
            int id = next_id++;
            auto v = K::make(id);
            s.t->push_back(v);
            s.m.push_back({k, id, COW ? nullptr : K::ptr(v)});
        });
    }

    // copy-on-write: must a releasing call be refused?
    int must_refuse(const slot& s) const
    {
        if (!COW || !s.g)
            return 0; // no
        if (s.g->unk || s.g.use_count() == 1)
            return 2; // either
        return 1;
    }
    // runs a releasing call; returns whether it went through
    template<typename Fn>
    bool releasing(slot& s, Fn f)
    {
        int e = must_refuse(s);
        try
        {
            f();
        }
        catch (const mdds::mtv::shared_block_error&)
        {
            if (F == F_COW)
                VF_CHECK(e != 0, name(s) << ": release is refused although the container owns its blocks");
            VF_COVER(c, "release refused while sharing");
            return false;
        }
        if (F == F_COW)
            VF_CHECK(e != 1, name(s) << ": release went through while the blocks are shared");
        return true;
    }
    void op_release()
    {
        slot& s = some();
        if (s.m.empty())
            return;
        begin_change(s);
        unsigned how = c.weighted({3, 3, 4, 1});
        if (how == 3)
        {
            VF_LOG(c, name(s) << ".release()");
            std::vector<std::pair<int, const void*>> out;
            collect(s, 0, s.m.size(), out);
            if (releasing(s, [&] { s.t->release(); }))
            {
                dispose_all(out);
                s.m.clear();
                done(s, {});
            }
            else
                no_change(s);
            return;
        }
        if (how == 2)
        {
            auto [a, b] = pick_range(s.m);
            auto h = hint(s);
            VF_LOG(c, name(s) << ".release_range(" << a << ", " << b << ")");
            std::vector<std::pair<int, const void*>> out;
            collect(s, a, b + 1, out);
            std::optional<iterator> it;
            if (releasing(s, [&] { it = h ? s.t->release_range(*h, a, b) : s.t->release_range(a, b); }))
            {
                dispose_all(out);
                std::fill(s.m.begin() + a, s.m.begin() + b + 1, cell{});
                done(s, it);
                check_iter(s, *it, a, "release_range");
            }
            else
                no_change(s);
            return;
        }
        size_t pos = pick_pos(s.m);
        int k = s.m[pos].k;
        bool was_empty = k < 0;
        if (k < 0)
            k = int(c.below(Kit::n));
        with_kind<Kit>(unsigned(k), [&]<typename K>() {
            typename K::T v = K::none();
            std::optional<iterator> it;
            bool ok;
            if (how == 0)
            {
                VF_LOG(c, name(s) << ".release<k" << k << ">(" << pos << ")");
                ok = releasing(s, [&] { v = s.t->template release<typename K::T>(pos); });
            }
            else
            {
                auto h = hint(s);
                VF_LOG(c, name(s) << ".release(" << pos << ", k" << k << "&)");
                ok = releasing(s, [&] { it = h ? s.t->release(*h, pos, v) : s.t->release(pos, v); });
            }
            if (!ok)
            {
                no_change(s);
                return;
            }
            if (was_empty)
            {
                if (F == F_VALUES)
                    VF_CHECK(v == K::none(), "release of an empty position does not yield the empty value");
            }
            else
            {
                if (F == F_VALUES || F == F_OWN)
                    VF_CHECK(K::eq(v, s.m[pos].id), name(s) << ".release(" << pos << ") yields a wrong value");
                if (F == F_OWN && !COW && s.m[pos].p)
                    VF_CHECK(K::ptr(v) == s.m[pos].p, "release yields another object than the one given");
                K::dispose(v);
            }
            s.m[pos] = {};
            done(s, it);
            if (it)
                check_iter(s, *it, pos, "release");
        });
    }
    void collect(slot& s, size_t a, size_t b, std::vector<std::pair<int, const void*>>& out)
    {
        if constexpr (Kit::any_managed)
        {
            const M& t = *s.t;
            for (auto it = t.cbegin(); it != t.cend(); ++it)
            {
                if (!it->data)
                    continue;
                int k = kind_of_type<Kit>(it->type);
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    if constexpr (K::managed)
                    {
                        size_t i = it->position;
                        for (auto v = K::Blk::cbegin(*it->data); v != K::Blk::cend(*it->data); ++v, ++i)
                            if (i >= a && i < b)
                                out.push_back({k, *v});
                    }
                });
            }
        }
    }
    void dispose_all(std::vector<std::pair<int, const void*>>& out)
    {
        for (auto& [k, p] : out)
            with_kind<Kit>(unsigned(k), [&, p = p]<typename K>() {
                if constexpr (K::managed)
                    delete static_cast<typename K::obj*>(const_cast<void*>(p));
            });
    }

    void op_transfer()
    {
        if (pool.size() < 2)
            return;
        auto [sp, dp] = two();
        slot &s = *sp, &d = *dp;
        if (s.m.empty() || d.m.empty())
            return;
        auto [a, b] = pick_range(s.m);
        if (b - a >= d.m.size())
            b = a + d.m.size() - 1;
        size_t len = b - a + 1;
        size_t to = pick_to(s, d, a, b);
        auto h = hint(s);
        op_xfer = true;
        ++xfers;
        begin_change(s);
        begin_change(d);
        VF_LOG(c, name(s) << ".transfer(" << a << ", " << b << ", " << name(d) << ", " << to << ")");
        iterator it = h ? s.t->transfer(*h, a, b, *d.t, to) : s.t->transfer(a, b, *d.t, to);
        for (size_t i = 0; i < len; ++i)
        {
            d.m[to + i] = s.m[a + i];
            s.m[a + i] = {};
        }
        done(s, it);
        done(d, {});
        check_iter(s, it, a, "transfer");
    }
    void op_swap_range()
    {
        if (pool.size() < 2)
            return;
        auto [sp, dp] = two();
        slot &s = *sp, &d = *dp;
        if (s.m.empty() || d.m.empty())
            return;
        auto [a, b] = pick_range(s.m);
        if (b - a >= d.m.size())
            b = a + d.m.size() - 1;
        size_t len = b - a + 1;
        size_t to = pick_to(s, d, a, b);
        op_xfer = true;
        ++xfers;
        begin_change(s);
        begin_change(d);
        VF_LOG(c, name(s) << ".swap(" << a << ", " << b << ", " << name(d) << ", " << to << ")");
        s.t->swap(a, b, *d.t, to);
        for (size_t i = 0; i < len; ++i)
            std::swap(d.m[to + i], s.m[a + i]);
        done(s, {});
        done(d, {});
    }

    bool can_copy(const slot& s, bool clone) const
    {
        bool ok = true;
        for (auto& x : s.m)
            if (x.k >= 0)
                with_kind<Kit>(unsigned(x.k), [&]<typename K>() {
                    if (!(clone ? K::cloneable : K::copyable))
                        ok = false;
                });
        return ok;
    }
    static void strip(std::vector<cell>& m) // a copy holds other objects
    {
        for (auto& x : m)
            x.p = nullptr;
    }
    void share(slot& s, slot& d)
    {
        if (!COW)
            return;
        if (!s.g)
            s.g = std::make_shared<group>();
        d.g = s.g;
    }
    void op_copy_like()
    {
        slot& s = some();
        slot& d = some();
        unsigned how = c.below(4); // copy construction, copy assignment, clone, clone with a handler
        bool clone = how >= 2;
        bool can = can_copy(s, clone);
        long fault = -1;
        unsigned fk = 0;
        if (F == F_COPY || F == F_COW)
        {
            fk = c.weighted({12, 2, 2});
            if (fk)
                fault = c.below(fk == 1 ? 12 : 6);
        }
        op_copy = true;
        ++copies;
        bool self = &s == &d;
        if (self && how != 1)
            return;
        if (COW && clone && !can)
            return; // the documentation leaves open when the refusal comes
        VF_LOG(c, name(d) << (how == 0   ? " = copy-constructed from "
                                  : how == 1 ? " = (assigned) "
                                  : how == 2 ? " = clone of "
                                             : " = clone, own handler, of ")
                          << name(s) << (fk == 1 ? ", allocation fault at " : fk == 2 ? ", element copy fault at " : "")
                          << (fk ? std::to_string(fault) : std::string()));
        begin_change(d);
        bool bad_alloc = false, el_err = false, cthrow = false;
        std::unique_ptr<M> fresh;
        {
            mobj::countdown = nobj::countdown = -1;
            long before = vf::g_alloc.injected;
            if (fk == 2)
                mobj::countdown = nobj::countdown = fault;
            try
            {
                if (fk == 1)
                    vf::g_alloc.countdown = fault;
                if (how == 0)
                    fresh = std::make_unique<M>(*s.t);
                else if (how == 1)
                    *d.t = *s.t;
                else if (how == 2)
                    fresh = std::make_unique<M>(s.t->clone());
                else
                {
                    if constexpr (SOA)
                        fresh = std::make_unique<M>(s.t->clone(ev()));
                    else
                        fresh = std::make_unique<M>(s.t->clone());
                }
            }
            catch (const std::bad_alloc&)
            {
                bad_alloc = true;
            }
            catch (const mdds::mtv::element_block_error&)
            {
                el_err = true;
            }
            catch (const copy_throw&)
            {
                cthrow = true;
            }
            vf::g_alloc.countdown = -1;
            mobj::countdown = nobj::countdown = -1;
            if (bad_alloc && vf::g_alloc.injected == before)
                VF_FAIL("bad_alloc without an injected failure");
        }
        if (bad_alloc || el_err || cthrow)
        {
            ++throws;
            VF_COVER(c, "copy threw");
            if (el_err)
            {
                if (F == F_COPY || F == F_COW)
                    VF_CHECK(!can, "a copy is refused although every block can be copied");
            }
            if (s.g)
                s.g->unk = true;
            else if (COW)
            {
                s.g = std::make_shared<group>();
                s.g->unk = true;
            }
            return; // everything as before
        }
        if (F == F_COPY || F == F_COW)
            VF_CHECK(can || self, "an uncopyable block was copied"); // a vector assigned to itself may stay as it is
        if (how != 1)
        {
            d.t = std::move(fresh);
        }
        if (self)
        {
            strip(d.m);
            d.last.reset();
            if (d.g)
                d.g->unk = true;
            else if (COW)
            {
                d.g = std::make_shared<group>();
                d.g->unk = true;
            }
            return;
        }
        d.m = s.m;
        strip(d.m);
        d.last.reset();
        d.g.reset();
        share(s, d);
        if (F == F_COPY && !by_address(s.m))
        {
            VF_CHECK(*s.t == *d.t, "a copy does not compare equal to its source");
            VF_CHECK(!(*s.t != *d.t), "a copy compares unequal to its source");
        }
    }
    static bool by_address(const std::vector<cell>& m)
    {
        bool r = false;
        for (auto& x : m)
            if (x.k >= 0)
                with_kind<Kit>(unsigned(x.k), [&]<typename K>() { r = r || std::is_same_v<K, K_m>; }); // these compare by address
        return r;
    }
    void op_move()
    {
        slot& s = some();
        slot& d = some();
        if (&s == &d)
            return;
        op_copy = true;
        begin_change(s);
        begin_change(d);
        bool ctor = c.coin();
        VF_LOG(c, name(d) << (ctor ? " = move-constructed from " : " = (move-assigned) ") << name(s));
        if (ctor)
            d.t = std::make_unique<M>(std::move(*s.t));
        else
            *d.t = std::move(*s.t);
        d.m = std::move(s.m);
        d.g = std::move(s.g);
        s.m.clear();
        s.g.reset();
        s.last.reset();
        d.last.reset();
        // The moved-from container must stay usable: a fresh one, or the old one
        // as it is (empty), or after a clear() or an assignment.
        switch (c.below(3))
        {
            case 0:
                s.t = std::make_unique<M>();
                break;
            case 1:
                s.t->clear();
                break;
            default:
                VF_LOG(c, "  (" << name(s) << " goes on as it is)");
        }
    }
    void op_swap_whole()
    {
        slot& s = some();
        slot& d = some();
        op_copy = true;
        begin_change(s);
        begin_change(d);
        VF_LOG(c, name(s) << ".swap(" << name(d) << ")");
        if (c.coin())
            s.t->swap(*d.t);
        else
            std::swap(*s.t, *d.t);
        if (&s != &d)
        {
            std::swap(s.m, d.m);
            std::swap(s.g, d.g);
        }
        s.last.reset();
        d.last.reset();
    }
    void op_construct()
    {
        slot& s = some();
        begin_change(s);
        unsigned how = c.below(5);
        size_t n = c.chance(1, 6) ? 0 : c.below(12);
        if (how == 0)
        {
            VF_LOG(c, name(s) << " = M()");
            s.t = std::make_unique<M>();
            s.m.clear();
        }
        else if (how == 4)
        {
            bool rv = c.coin();
            VF_LOG(c, name(s) << " = M(handler" << (rv ? "&&)" : ")"));
            typename M::event_func hdl;
            s.t = rv ? std::make_unique<M>(std::move(hdl)) : std::make_unique<M>(hdl);
            s.m.clear();
        }
        else if (how == 1)
        {
            VF_LOG(c, name(s) << " = M(" << n << ")");
            s.t = std::make_unique<M>(n);
            s.m.assign(n, cell{});
        }
        else
        {
            int k = int(c.below(Kit::n));
            with_kind<Kit>(unsigned(k), [&]<typename K>() {
                if (how == 2 && !K::managed)
                {
                    int id = next_id++;
                    VF_LOG(c, name(s) << " = M(" << n << ", k" << k << "#" << id << ")");
                    s.t = std::make_unique<M>(n, K::make(id));
                    s.m.assign(n, cell{k, id, nullptr});
                }
                else
                {
                    typename K::range r;
                    std::vector<cell> cs;
                    VF_LOG(c, name(s) << " = M(" << n << " x k" << k << "#" << next_id << "..)");
                    make_range<K>(r, cs, k, n);
                    s.t = std::make_unique<M>(n, r.begin(), r.end());
                    s.m = cs;
                }
            });
        }
        s.last.reset();
        s.g.reset();
    }
    void op_shrink()
    {
        slot& s = some();
        begin_change(s);
        VF_LOG(c, name(s) << ".shrink_to_fit()");
        s.t->shrink_to_fit();
        no_change(s);
    }
    void op_detach()
    {
        if constexpr (SOA)
        {
            slot& s = some();
            s.detached = true;
            bool thr = COW && c.chance(1, 5);
            long n = thr ? c.below(6) : -1;
            VF_LOG(c, name(s) << ".detach()" << (thr ? " with an element copy fault at " + std::to_string(n) : std::string()));
            mobj::countdown = nobj::countdown = n;
            bool cthrow = false;
            try
            {
                s.t->detach();
            }
            catch (const copy_throw&)
            {
                cthrow = true;
            }
            catch (const mdds::mtv::element_block_error&)
            {
                mobj::countdown = nobj::countdown = -1;
                if (F == F_COW)
                    VF_CHECK(!can_copy(s, true), "detach is refused although every block can be cloned");
                cthrow = true;
            }
            mobj::countdown = nobj::countdown = -1;
            if (cthrow)
                ++throws;
            else
            {
                s.g.reset();
                s.last.reset();
                if (!COW)
                    return;
                strip(s.m);
            }
        }
    }
    void op_compare()
    {
        slot& s = some();
        slot& d = some();
        if (by_address(s.m) || by_address(d.m))
            return;
        bool want = s.m.size() == d.m.size();
        for (size_t i = 0; want && i < s.m.size(); ++i)
        {
            if (s.m[i].k != d.m[i].k)
                want = false;
            else if (s.m[i].k >= 0)
                with_kind<Kit>(unsigned(s.m[i].k), [&]<typename K>() {
                    if constexpr (K::managed)
                        want = want && s.m[i].id == d.m[i].id;
                    else if (!(K::make(s.m[i].id) == K::make(d.m[i].id)))
                        want = false;
                });
        }
        VF_LOG(c, name(s) << " == " << name(d) << "?");
        bool have = *s.t == *d.t;
        bool nhave = *s.t != *d.t;
        if (F == F_COPY)
        {
            VF_CHECK(have == want, name(s) << " == " << name(d) << " is " << have << " for " << show(s.m) << " and " << show(d.m));
            VF_CHECK(nhave == !want, name(s) << " != " << name(d) << " is " << nhave);
        }
        if (want && &s != &d)
            VF_COVER(c, "equal containers");
    }

    // ------------------------------------------------------- rejected calls

    template<typename Fn>
    void must_reject(const char* what, Fn f)
    {
        bool range = false;
        try
        {
            f();
        }
        catch (const std::out_of_range&)
        {
            range = true;
        }
        catch (const mdds::mtv::shared_block_error&)
        {
            range = COW; // checked first when sharing
        }
        if (F == F_RANGE)
            VF_CHECK(range, what << " with an invalid position is not rejected");
        ++rejected;
    }
    size_t bad_pos(const slot& s)
    {
        size_t n = s.m.size();
        switch (c.below(6))
        {
            case 0:
                return n;
            case 1:
                return n + 1;
            case 2:
                return n + 1 + c.below(50);
            case 3:
                return size_t(-1);
            case 4:
                return size_t(-1) - c.below(20);
            default:
                return (size_t(1) << 32) + c.below(5);
        }
    }
    std::pair<size_t, size_t> bad_range(const slot& s)
    {
        size_t n = s.m.size();
        if (n >= 2 && c.chance(1, 3))
        {
            size_t a = 1 + c.below(n - 1);
            return {a, c.below(a)};
        }
        if (c.coin())
        {
            size_t a = bad_pos(s);
            return {a, c.coin() ? a : c.coin() ? size_t(-1) : n ? c.below(n) : a};
        }
        return {n ? pick_pos(s.m) : 0, bad_pos(s)};
    }
    void op_bad()
    {
        slot& s = some();
        op_invalid = true;
        size_t p = bad_pos(s);
        int k = int(c.below(Kit::n));
        const M& ct = *s.t;
        bool hook = !COW && c.coin();
        std::optional<iterator> h;
        if constexpr (!COW)
            if (hook)
                h = c.coin() ? s.t->begin() : s.t->end();
        begin_change(s);
        s.last.reset();
        switch (c.below(16))
        {
            case 0:
                VF_LOG(c, name(s) << ".set(" << p << ", k" << k << ") is invalid");
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    auto v = K::make(1);
                    must_reject("set", [&] { h ? s.t->set(*h, p, v) : s.t->set(p, v); });
                    K::dispose(v);
                });
                break;
            case 1:
            {
                size_t n = 1 + c.below(4);
                size_t a = p;
                if (c.coin() && !s.m.empty())
                {
                    a = pick_pos(s.m);
                    n = s.m.size() - a + 1 + c.below(3);
                }
                VF_LOG(c, name(s) << ".set(" << a << ", " << n << " x k" << k << ") is invalid");
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    typename K::range r;
                    std::vector<cell> cs;
                    make_range<K>(r, cs, k, n);
                    must_reject("set (range)", [&] { h ? s.t->set(*h, a, r.begin(), r.end()) : s.t->set(a, r.begin(), r.end()); });
                    dispose_range<K>(r);
                });
                break;
            }
            case 2:
                VF_LOG(c, name(s) << ".insert(" << p << ", k" << k << "..) is invalid");
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    typename K::range r;
                    std::vector<cell> cs;
                    make_range<K>(r, cs, k, 1 + c.below(3));
                    must_reject("insert", [&] { h ? s.t->insert(*h, p, r.begin(), r.end()) : s.t->insert(p, r.begin(), r.end()); });
                    dispose_range<K>(r);
                });
                break;
            case 3:
                VF_LOG(c, name(s) << ".insert_empty(" << p << ", 2) is invalid");
                must_reject("insert_empty", [&] { h ? s.t->insert_empty(*h, p, 2) : s.t->insert_empty(p, 2); });
                break;
            case 4:
            case 5:
            {
                auto [a, b] = bad_range(s);
                VF_LOG(c, name(s) << ".set_empty(" << a << ", " << b << ") is invalid");
                must_reject("set_empty", [&, a = a, b = b] { h ? s.t->set_empty(*h, a, b) : s.t->set_empty(a, b); });
                break;
            }
            case 6:
            case 7:
            {
                auto [a, b] = bad_range(s);
                VF_LOG(c, name(s) << ".erase(" << a << ", " << b << ") is invalid");
                must_reject("erase", [&, a = a, b = b] { s.t->erase(a, b); });
                break;
            }
            case 8:
                VF_LOG(c, name(s) << ".get_type/is_empty/get(" << p << ") are invalid");
                must_reject("get_type", [&] { (void)ct.get_type(p); });
                must_reject("is_empty", [&] { (void)ct.is_empty(p); });
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    must_reject("get", [&] { (void)ct.template get<typename K::T>(p); });
                    must_reject("get", [&] {
                        typename K::T v = K::none();
                        ct.get(p, v);
                    });
                });
                break;
            case 9:
                VF_LOG(c, name(s) << ".release(" << p << ") is invalid");
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    must_reject("release", [&] { (void)s.t->template release<typename K::T>(p); });
                    must_reject("release", [&] {
                        typename K::T v = K::none();
                        h ? s.t->release(*h, p, v) : s.t->release(p, v);
                    });
                });
                break;
            case 10:
            {
                auto [a, b] = bad_range(s);
                VF_LOG(c, name(s) << ".release_range(" << a << ", " << b << ") is invalid");
                must_reject("release_range", [&, a = a, b = b] { h ? s.t->release_range(*h, a, b) : s.t->release_range(a, b); });
                break;
            }
            case 11:
                if (p == s.m.size())
                    ++p;
                VF_LOG(c, name(s) << ".position(" << p << ") is invalid");
                must_reject("position", [&] { (void)ct.position(p); });
                must_reject("position", [&] { (void)ct.position(ct.cbegin(), p); });
                if constexpr (!COW)
                {
                    must_reject("position", [&] { (void)s.t->position(p); });
                    if (h)
                        must_reject("position", [&] { (void)s.t->position(*h, p); });
                }
                break;
            case 12:
            case 13:
            case 14:
            {
                slot& d = some();
                if (&s == &d)
                {
                    if (s.m.empty())
                        break;
                    VF_LOG(c, name(s) << ".transfer(.., " << name(d) << ", 0) is invalid");
                    bool ok = false;
                    try
                    {
                        s.t->transfer(0, 0, *s.t, 0);
                    }
                    catch (const mdds::invalid_arg_error&)
                    {
                        ok = true;
                    }
                    if (F == F_RANGE)
                        VF_CHECK(ok, "transfer within one container is not rejected");
                    ++rejected;
                    break;
                }
                begin_change(d);
                d.last.reset();
                size_t a, b, to;
                if (c.coin())
                {
                    std::tie(a, b) = bad_range(s);
                    to = d.m.empty() ? 0 : pick_pos(d.m);
                }
                else
                {
                    if (s.m.empty())
                        break;
                    std::tie(a, b) = pick_range(s.m);
                    size_t len = b - a + 1;
                    if (c.coin())
                        to = bad_pos(d);
                    else
                        to = d.m.size() >= len ? d.m.size() - len + 1 + c.below(len) : c.below(d.m.size() + 1);
                    if (to < d.m.size() && d.m.size() - to >= len)
                        break;
                }
                if (c.coin())
                {
                    VF_LOG(c, name(s) << ".transfer(" << a << ", " << b << ", " << name(d) << ", " << to << ") is invalid");
                    must_reject("transfer", [&] { h ? s.t->transfer(*h, a, b, *d.t, to) : s.t->transfer(a, b, *d.t, to); });
                }
                else
                {
                    VF_LOG(c, name(s) << ".swap(" << a << ", " << b << ", " << name(d) << ", " << to << ") is invalid");
                    must_reject("swap", [&] { s.t->swap(a, b, *d.t, to); });
                }
                no_change(d);
                break;
            }
            case 15:
            {
                // more initial values than the stated size, or fewer
                size_t n = c.below(4), len = c.below(4);
                if (n == len)
                    break;
                VF_LOG(c, "M(" << n << ", range of " << len << ") is invalid");
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    typename K::range r;
                    std::vector<cell> cs;
                    make_range<K>(r, cs, k, len);
                    bool ok = false;
                    try
                    {
                        M x(n, r.begin(), r.end());
                        if constexpr (K::managed)
                            x.release();
                    }
                    catch (const mdds::invalid_arg_error&)
                    {
                        ok = true;
                    }
                    if (F == F_RANGE && n > 0)
                        VF_CHECK(ok, "construction from a range of another length is not rejected");
                    dispose_range<K>(r);
                });
                break;
            }
        }
        no_change(s);
    }

    // ---------------------------------------------------------------- queries

    void op_get()
    {
        slot& s = some();
        const M& t = *s.t;
        if (s.m.empty())
            return;
        for (unsigned i = 0; i < 3; ++i)
        {
            size_t p = pick_pos(s.m);
            if (F == F_VALUES || F == F_COW)
            {
                VF_CHECK(t.get_type(p) == type_of_kind<Kit>(s.m[p].k), name(s) << ".get_type(" << p << ") is " << t.get_type(p));
                VF_CHECK(t.is_empty(p) == (s.m[p].k < 0), name(s) << ".is_empty(" << p << ") is wrong");
                int k = s.m[p].k < 0 ? int(c.below(Kit::n)) : s.m[p].k;
                with_kind<Kit>(unsigned(k), [&]<typename K>() {
                    auto v = t.template get<typename K::T>(p);
                    typename K::T v2 = K::none();
                    t.get(p, v2);
                    if (s.m[p].k < 0)
                        VF_CHECK(v == K::none() && v2 == K::none(), name(s) << ".get(" << p << ") of an empty cell is not the empty value");
                    else
                        VF_CHECK(K::eq(v, s.m[p].id) && K::eq(v2, s.m[p].id), name(s) << ".get(" << p << ") is a wrong value");
                    auto cp = t.position(p);
                    if (s.m[p].k >= 0)
                        VF_CHECK(K::eq(M::template get<typename K::Blk>(cp), s.m[p].id), "get<Blk>(position) is a wrong value");
                });
            }
        }
    }
    void op_positions()
    {
        if (F != F_CANON && F != F_HINT)
            return;
        slot& s = some();
        M& t = *s.t;
        const M& ct = t;
        auto r = runs(s.m);
        auto block_of = [&](size_t p) {
            size_t i = 0;
            while (i + 1 < r.size() && r[i + 1].pos <= p)
                ++i;
            return i;
        };
        auto ok = [&](auto& po, size_t p, const char* what) {
            if (p == s.m.size())
            {
                VF_CHECK(const_iterator(po.first) == ct.cend() && po.second == 0, what << "(" << p << ") is not the end position");
                return;
            }
            size_t b = block_of(p);
            VF_CHECK(po.first->position == r[b].pos && po.second == p - r[b].pos,
                what << "(" << p << ") is " << po.first->position << "+" << po.second << " in " << show(s.m));
            VF_CHECK(po.first->__private_data.block_index == b, what << "(" << p << "): wrong block index");
        };
        VF_LOG(c, "positions of " << name(s));
        const_iterator ch = ct.cbegin();
        for (unsigned i = 0; i < 4; ++i)
        {
            size_t p = c.chance(1, 8) ? s.m.size() : pick_pos(s.m);
            auto a = ct.position(p);
            ok(a, p, "position");
            auto a2 = ct.position(ch, p);
            ok(a2, p, "position with a hint");
            if (F == F_CANON)
                VF_CHECK(M::logical_position(a) == p || p == s.m.size(), "logical_position of position(" << p << ") is " << M::logical_position(a));
            ch = a.first;
            if constexpr (!COW)
            {
                auto b = t.position(p);
                ok(b, p, "position");
                auto h = hint(s);
                if (h)
                {
                    auto b2 = t.position(*h, p);
                    ok(b2, p, "position with a hint");
                }
                if (F == F_CANON && p < s.m.size())
                {
                    auto nx = M::next_position(b);
                    ok(nx, p + 1, "next_position");
                }
            }
            if (F == F_CANON && p < s.m.size())
            {
                auto nx = M::next_position(a);
                ok(nx, p + 1, "next_position");
                long q = c.coin() ? long(pick_pos(s.m)) : c.chance(1, 6) ? long(s.m.size()) : long(c.below(s.m.size() + 1));
                auto ad = M::advance_position(a, int(q - long(p)));
                ok(ad, size_t(q), "advance_position");
                if constexpr (!COW)
                {
                    auto ad2 = M::advance_position(t.position(p), int(q - long(p)));
                    ok(ad2, size_t(q), "advance_position");
                }
            }
        }
        if (F == F_CANON)
        {
            size_t i = r.size();
            for (auto it = ct.crbegin(); it != ct.crend(); ++it)
            {
                VF_CHECK(i > 0, "reverse iteration is too long");
                --i;
                VF_CHECK(it->position == r[i].pos && it->size == r[i].size, "reverse iteration: block " << it->position << "+" << it->size << ", expected " << r[i].pos << "+" << r[i].size);
                VF_CHECK(it->type == type_of_kind<Kit>(r[i].k), "reverse iteration: wrong type");
            }
            VF_CHECK(i == 0, "reverse iteration stops early");
            if constexpr (!COW)
            {
                i = r.size();
                for (auto it = t.rbegin(); it != t.rend(); ++it)
                {
                    --i;
                    VF_CHECK(it->position == r[i].pos && it->size == r[i].size, "reverse iteration");
                }
                VF_CHECK(i == 0, "reverse iteration stops early");
                i = 0;
                for (auto it = t.begin(); it != t.end(); ++it, ++i)
                    VF_CHECK(it->position == r[i].pos && it->size == r[i].size, "forward iteration");
            }
            // a bidirectional walk
            if (!r.empty())
            {
                auto it = ct.cend();
                size_t at = r.size();
                for (unsigned n = 0; n < 12; ++n)
                {
                    bool back = at == r.size() || (at > 0 && c.coin());
                    if (back)
                        --it, --at;
                    else
                        ++it, ++at;
                    if (at < r.size())
                        VF_CHECK(it->position == r[at].pos && it->size == r[at].size && it->type == type_of_kind<Kit>(r[at].k) &&
                                     it->__private_data.block_index == at,
                            "a walk over the blocks is at block " << it->position << " (index " << it->__private_data.block_index << "), expected " << at);
                    else
                        VF_CHECK(it == ct.cend(), "a walk over the blocks misses the end");
                }
            }
        }
    }

    // -------------------------------------------------------------- main loop

    void go()
    {
        m0 = mobj::live;
        n0 = nobj::live;
        x0 = xobj::live;
        mobj::countdown = nobj::countdown = xobj::countdown = -1;
        ev::bad = nullptr;
        unsigned n = (F == F_XFER || F == F_COPY || F == F_COW) ? 2 + c.below(2) : 1 + (c.chance(3, 4) ? 1 + c.below(2) : 0);
        pool.resize(n);
        for (auto& s : pool)
            s.t = std::make_unique<M>();
        bool go_on = true;
        // give the containers something to start from
        for (auto& s : pool)
        {
            size_t len = c.below(4) == 0 ? 0 : c.below(14);
            s.t->resize(len);
            s.m.resize(len);
        }
        if (c.chance(1, 30))
        {
            // one with many blocks, or with long ones
            slot& s = pool[c.below(pool.size())];
            size_t len = 40 + c.below(c.tier ? 600 : 300);
            s.t->resize(len);
            s.m.resize(len);
            for (unsigned n = 20 + c.below(100); n > 0; --n)
                c.chance(3, 4) ? op_set() : op_set_range();
            go_on = check_all();
            VF_COVER(c, "start from 40 to 340 elements");
        }
        bool X = F == F_XFER, CP = F == F_COPY, W = F == F_COW, O = F == F_OWN, R = F == F_RANGE;
        while (go_on && c.more(c.tier ? 40 : 25) && ops < 400)
        {
            ++ops;
            used_hint = op_xfer = op_copy = op_invalid = false;
            for (auto& s : pool)
            {
                s.touched = s.detached = false;
                if (W)
                    s.where = addresses(s);
            }
            switch (c.weighted({10, 14, 8, 10, 8, 8, 6, 1, 5, 4, O || W ? 8u : 4u, X ? 25u : 8u, X ? 25u : 11u,
                CP ? 12u : W ? 14u : 2u, CP || W ? 5u : 2u, CP || W ? 4u : 1u, 2, 2, W ? 6u : 0u, CP ? 6u : 1u,
                R ? 50u : 0u, F == F_VALUES ? 10u : W ? 4u : 0u, F == F_CANON ? 20u : F == F_HINT ? 6u : 0u}))
            {
                case 0: op_set(); break;
                case 1: op_set_range(); break;
                case 2: op_push(); break;
                case 3: op_insert(); break;
                case 4: op_set_empty(); break;
                case 5: op_erase(); break;
                case 6: op_insert_empty(); break;
                case 7: op_clear(); break;
                case 8: op_resize(); break;
                case 9: op_fill(); break;
                case 10: op_release(); break;
                case 11: op_transfer(); break;
                case 12: op_swap_range(); break;
                case 13: op_copy_like(); break;
                case 14: op_move(); break;
                case 15: op_swap_whole(); break;
                case 16: op_construct(); break;
                case 17: op_shrink(); break;
                case 18: op_detach(); break;
                case 19: op_compare(); break;
                case 20: op_bad(); break;
                case 21: op_get(); break;
                case 22: op_positions(); break;
            }
            if (W)
                for (auto& s : pool) // a call on one container leaves the others where they are
                    if (!s.touched && !s.detached && s.t)
                        VF_CHECK(s.where == addresses(s), name(s) << ": the elements have moved in memory, by a call on another container");
            go_on = check_all();
            if (c.tracing)
                for (auto& s : pool)
                    *c.trace << "    " << name(s) << " " << show(s.m) << (s.g ? s.g->unk ? " (shares?)" : " (shares)" : "") << "\n";
        }
        if (!go_on)
        {
            // destroying a container whose state is off may crash for reasons
            // that other properties speak about
            for (auto& s : pool)
                (void)s.t.release();
            c.no_leak_check = true;
            return;
        }
        bool nt = changes >= 3 && sawblocks;
        switch (F)
        {
            case F_HINT: nt = nt && hinted >= 2; break;
            case F_XFER: nt = nt && xfers >= 1; break;
            case F_COPY: nt = nt && copies >= 1; break;
            case F_COW: nt = nt && copies >= 1; break;
            case F_RANGE: nt = sawblocks && rejected >= 1; break;
            default: break;
        }
        if (nt)
            c.nontrivial();
        for (auto& s : pool)
        {
            s.last.reset();
            s.t.reset();
            s.m.clear();
            s.g.reset();
            if (F == F_OWN || F == F_COW)
            {
                // the remaining containers keep what they hold
                check_live();
                for (auto& o : pool)
                    if (o.t && W)
                    {
                        std::string e = content_diff(o);
                        if (!e.empty())
                            VF_FAIL(name(o) << " after " << name(s) << " is gone: " << e);
                    }
            }
        }
        if (F == F_EVENT && ev::bad)
            VF_FAIL("block events: " << ev::bad);
        ev::bad = nullptr;
        if (F == F_OWN || F == F_COW || F == F_COPY || F == F_RANGE)
            VF_CHECK(mobj::live == m0 && nobj::live == n0 && xobj::live == x0,
                "managed objects alive after every container is gone: " << mobj::live - m0 << ", " << nobj::live - n0 << ", " << xobj::live - x0);
    }
};

template<typename Kit>
std::string kind_names()
{
    std::string s;
    for (int k = 0; k < int(Kit::n); ++k)
        s += " k" + std::to_string(k) + "=type" + std::to_string(type_of_kind<Kit>(k));
    return s;
}

template<focus F, typename Kit, template<typename> class MT, mdds::mtv::lu_factor_t LU, bool COW, bool SOA>
void run_case(src& c)
{
    warm_up<Kit>();
    VF_LOG(c, (SOA ? "soa" : "aos") << (COW ? " copy-on-write" : "") << " kinds:" << kind_names<Kit>());
    driver<Kit, MT, LU, COW, SOA> d(c, F);
    d.go();
}

using LF = mdds::mtv::lu_factor_t;
#define SOA_ mdds::mtv::soa::multi_type_vector
#define AOS_ mdds::mtv::aos::multi_type_vector

#if VF_IN(0)
#define CFG0(ID, F, R) VF_PROPERTY(ID, (run_case<F, kitA, SOA_, LF::lu16, false, true>), R, 3);
#else
#define CFG0(ID, F, R)
#endif
#if VF_IN(1)
#define CFG1(ID, F, R) VF_PROPERTY(ID, (run_case<F, kitA, AOS_, LF::lu8, false, false>), R, 3);
#else
#define CFG1(ID, F, R)
#endif
#if VF_IN(2)
#define CFG2(ID, F, R) VF_PROPERTY(ID, (run_case<F, kitB, SOA_, LF::lu4, false, true>), R, 3);
#else
#define CFG2(ID, F, R)
#endif
#if VF_IN(3)
#define CFG3(ID, F, R) VF_PROPERTY(ID, (run_case<F, kitB, AOS_, LF::none, false, false>), R, 3);
#else
#define CFG3(ID, F, R)
#endif
#if VF_IN(4)
#define CFG4(ID, F, R) VF_PROPERTY(ID, (run_case<F, kitC, SOA_, LF::lu32, false, true>), R, 1);
#else
#define CFG4(ID, F, R)
#endif
#if VF_IN(5)
#define CFG5(ID, F, R) VF_PROPERTY(ID, (run_case<F, kitD, AOS_, LF::lu32, false, false>), R, 1);
#else
#define CFG5(ID, F, R)
#endif
#if VF_IN(6)
#define CFG6(ID, F, R) VF_PROPERTY(ID, (run_case<F, kitD, SOA_, LF::none, false, true>), R, 1);
#else
#define CFG6(ID, F, R)
#endif
// copy-on-write
#if VF_IN(0)
#define CW0(ID, F, R, W) VF_PROPERTY(ID, (run_case<F, kitA, SOA_, LF::lu16, true, true>), R, W);
#else
#define CW0(ID, F, R, W)
#endif
#if VF_IN(1)
#define CW1(ID, F, R, W) VF_PROPERTY(ID, (run_case<F, kitB, SOA_, LF::lu16, true, true>), R, W);
#else
#define CW1(ID, F, R, W)
#endif
#if VF_IN(2)
#define CW2(ID, F, R, W) VF_PROPERTY(ID, (run_case<F, kitE, SOA_, LF::lu8, true, true>), R, W);
#else
#define CW2(ID, F, R, W)
#endif
#if VF_IN(3)
#define CW3(ID, F, R, W) VF_PROPERTY(ID, (run_case<F, kitD, SOA_, LF::lu4, true, true>), R, W);
#else
#define CW3(ID, F, R, W)
#endif
#define EVERY(ID, F, R) CFG0(ID, F, R) CFG1(ID, F, R) CFG2(ID, F, R) CFG3(ID, F, R) CFG4(ID, F, R) CFG5(ID, F, R)

#define HIST "histories over 1-3 containers (set, range set, append, insert, set_empty, erase, insert_empty, resize, release, transfer, swap, copy, move) whose positions favour block boundaries"

#if VF_FOR(17)
EVERY("C17", F_VALUES, HIST "; non-trivial: at least 3 changes and a container of 3 or more blocks")
#endif
#if VF_FOR(18)
EVERY("C18", F_CANON, HIST "; non-trivial: at least 3 changes and a container of 3 or more blocks")
#endif
#if VF_FOR(19)
EVERY("C19", F_HINT, HIST ", most with a position hint; non-trivial: at least 2 hinted calls and 3 changes on a container of 3 or more blocks")
#endif
#if VF_FOR(20)
EVERY("C20", F_XFER, HIST ", mostly transfers and range swaps between containers; non-trivial: at least one of these and a container of 3 or more blocks")
#endif
#if VF_FOR(21)
CFG2("C21", F_OWN, HIST "; non-trivial: at least 3 changes and a container of 3 or more blocks")
CFG3("C21", F_OWN, HIST "; non-trivial: at least 3 changes and a container of 3 or more blocks")
CFG5("C21", F_OWN, HIST "; non-trivial: at least 3 changes and a container of 3 or more blocks")
CFG6("C21", F_OWN, HIST "; non-trivial: at least 3 changes and a container of 3 or more blocks")
#endif
#if VF_FOR(22)
EVERY("C22", F_EVENT, HIST "; non-trivial: at least 3 changes and a container of 3 or more blocks")
CW2("C22", F_EVENT, HIST "; non-trivial: at least 3 changes and a container of 3 or more blocks", 2)
#endif
#if VF_FOR(23)
EVERY("C23", F_COPY, HIST ", many of them copies, clones, moves, swaps and comparisons, some copies failing midway; non-trivial: at least one copy, 3 changes and a container of 3 or more blocks")
#endif
#if VF_FOR(24)
CW0("C24", F_COW, HIST " with copy-on-write enabled; non-trivial: at least one copy, 3 changes and a container of 3 or more blocks", 2)
CW1("C24", F_COW, HIST " with copy-on-write enabled; non-trivial: at least one copy, 3 changes and a container of 3 or more blocks", 2)
CW2("C24", F_COW, HIST " with copy-on-write enabled; non-trivial: at least one copy, 3 changes and a container of 3 or more blocks", 3)
CW3("C24", F_COW, HIST " with copy-on-write enabled; non-trivial: at least one copy, 3 changes and a container of 3 or more blocks", 1)
#endif
#if VF_FOR(25)
EVERY("C25", F_RANGE, HIST ", interleaved with calls outside the valid range; non-trivial: at least one rejected call on containers one of which has 3 or more blocks")
CW2("C25", F_RANGE, HIST ", interleaved with calls outside the valid range; non-trivial: at least one rejected call on containers one of which has 3 or more blocks", 1)
#endif

// a few elements far apart
#if VF_IN(6)
struct far_traits : mdds::mtv::standard_element_blocks_traits
{
    static constexpr LF loop_unrolling = LF::lu8;
};
#define FAR_RULE "histories over 1-2 vectors with empty stretches of up to 2^36 elements, all boundaries near block boundaries or powers of two; non-trivial: at least 3 changes and a vector of 3 or more blocks that is longer than 2^16"
#define FAR(ID, F) \
    VF_PROPERTY(ID, (far::far_case<F, SOA_<far_traits>>), FAR_RULE, 1); \
    VF_PROPERTY(ID, (far::far_case<F, AOS_<mdds::mtv::standard_element_blocks_traits>>), FAR_RULE, 1);
#if VF_FOR(17)
FAR("C17", far::values)
#endif
#if VF_FOR(18)
FAR("C18", far::blocks)
#endif
#if VF_FOR(19)
FAR("C19", far::hints)
#endif
#if VF_FOR(20)
FAR("C20", far::xfer)
#endif
#if VF_FOR(25)
FAR("C25", far::range)
#endif
#endif

VF_MAIN
