// multi_type_vector: equivalence of layouts, unrolling factors, SIMD variants,
// element stores and execution policies (C26), sideways traversal of
// collections (C27), and delayed_delete_vector (C28).
#include "mtv_kits.hpp"
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/multi_type_vector/delayed_delete_vector.hpp>
#if VF_FOR(26) || VF_FOR(33)
#include <execution>
#endif

using vf::src;
using LF = mdds::mtv::lu_factor_t;

// ====================================================== C26: configurations

#if VF_FOR(26)

// user-defined values, one type per kind and element store
namespace st {

template<int Store, int Kind>
struct num
{
    long v = 0;
    num() = default;
    explicit num(long i) : v(i) {}
    bool operator==(const num& o) const { return v == o.v; }
    bool operator!=(const num& o) const { return v != o.v; }
};
template<int Store, int Kind>
struct txt
{
    std::string v;
    txt() = default;
    explicit txt(long i) : v(i % 3 ? "t" + std::to_string(i) : std::string(size_t(i % 50), 'y')) {}
    bool operator==(const txt& o) const { return v == o.v; }
    bool operator!=(const txt& o) const { return v != o.v; }
};
using v0 = num<0, 0>;
using v1 = txt<0, 1>;
using v2 = num<0, 2>;
using q0 = num<1, 0>;
using q1 = txt<1, 1>;
using q2 = num<1, 2>;
using v0_block = mdds::mtv::default_element_block<70, v0, std::vector>;
using v1_block = mdds::mtv::default_element_block<71, v1, std::vector>;
using v2_block = mdds::mtv::default_element_block<72, v2, std::vector>;
using q0_block = mdds::mtv::default_element_block<73, q0, std::deque>;
using q1_block = mdds::mtv::default_element_block<74, q1, std::deque>;
using q2_block = mdds::mtv::default_element_block<75, q2, std::deque>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(v0, 70, v0(), v0_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(v1, 71, v1(), v1_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(v2, 72, v2(), v2_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(q0, 73, q0(), q0_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(q1, 74, q1(), q1_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(q2, 75, q2(), q2_block)

} // namespace st

struct D_num : kind_base<int32_t, mdds::mtv::int32_element_block>
{
};
struct D_bool : kind_base<bool, mdds::mtv::boolean_element_block, std::deque<bool>>
{
    static bool make(int i) { return (i / 3) & 1; }
    static bool eq(bool v, int i) { return v == make(i); }
};
struct V_0 : kind_base<st::v0, st::v0_block>
{
};
struct V_1 : kind_base<st::v1, st::v1_block, std::list<st::v1>>
{
};
struct V_2 : kind_base<st::v2, st::v2_block>
{
};
struct Q_0 : kind_base<st::q0, st::q0_block>
{
};
struct Q_1 : kind_base<st::q1, st::q1_block, std::list<st::q1>>
{
};
struct Q_2 : kind_base<st::q2, st::q2_block, std::deque<st::q2>>
{
};

using kit_dd = kit<D_num, K_str, D_bool>;
using kit_vec = kit<V_0, V_1, V_2>;
using kit_deq = kit<Q_0, Q_1, Q_2>;
constexpr int n_kinds = 3;

template<typename Kit, LF F>
struct tr_plain : mdds::mtv::default_traits
{
    using block_funcs = typename Kit::funcs;
    static constexpr LF loop_unrolling = F;
};
template<typename Kit, LF F, typename P>
struct tr_exec : tr_plain<Kit, F>
{
    using exec_policy = P;
};
template<typename Kit, LF F>
struct tr_cow : tr_plain<Kit, F>
{
    static constexpr bool enable_cow = true;
};

struct pcell
{
    int k = -1, id = 0;
};
using cells = std::vector<pcell>;

struct pop
{
    int code;
    int which;      // the container it acts on
    size_t a, b, n; // positions
    int k, id;
    bool hint;
    cells after[2]; // the expected contents of both containers
};
struct plan
{
    std::vector<pop> ops;
    std::string show(size_t upto) const
    {
        std::ostringstream os;
        for (size_t i = 0; i <= upto && i < ops.size(); ++i)
            os << (i ? "; " : "") << text(ops[i]);
        return os.str();
    }
    static std::string text(const pop& o)
    {
        static const char* names[] = {"append", "set", "set-range", "insert", "erase", "insert_empty", "set_empty", "resize",
            "push_back_empty", "shrink_to_fit", "copy-assign", "move", "transfer", "swap", "copy-construct", "clear", "emplace"};
        std::ostringstream os;
        os << "AB"[o.which] << "." << names[o.code] << "(a=" << o.a << ", b=" << o.b << ", n=" << o.n << ", kind " << o.k << (o.hint ? ", hinted)" : ")");
        return os.str();
    }
};
enum
{
    P_APPEND,
    P_SET,
    P_SETR,
    P_INSERT,
    P_ERASE,
    P_INSERT_EMPTY,
    P_SET_EMPTY,
    P_RESIZE,
    P_PUSH_EMPTY,
    P_SHRINK,
    P_COPY,
    P_MOVE,
    P_TRANSFER,
    P_SWAP,
    P_COPYCTOR,
    P_CLEAR,
    P_EMPLACE
};

inline pcell pattern(int i, int id) // an alternating pattern with empty cells
{
    int k = int(vf::mix64(uint64_t(i) * 977 + uint64_t(id)) % 4) - 1;
    return {k, id + i};
}

inline void model(pop& o, cells& A, cells& B)
{
    cells& m = o.which ? B : A;
    cells& u = o.which ? A : B;
    auto val = [&](size_t i) { return pcell{o.k, o.id + int(i)}; };
    switch (o.code)
    {
        case P_APPEND:
            for (size_t i = 0; i < o.n; ++i)
                m.push_back(pattern(int(i), o.id));
            break;
        case P_SET:
            m[o.a] = val(0);
            break;
        case P_EMPLACE:
            m.push_back(val(0));
            break;
        case P_SETR:
            for (size_t i = 0; i < o.n; ++i)
                m[o.a + i] = val(i);
            break;
        case P_INSERT:
        {
            cells r;
            for (size_t i = 0; i < o.n; ++i)
                r.push_back(val(i));
            m.insert(m.begin() + o.a, r.begin(), r.end());
            break;
        }
        case P_ERASE:
            m.erase(m.begin() + o.a, m.begin() + o.b + 1);
            break;
        case P_INSERT_EMPTY:
            m.insert(m.begin() + o.a, o.n, pcell());
            break;
        case P_SET_EMPTY:
            std::fill(m.begin() + o.a, m.begin() + o.b + 1, pcell());
            break;
        case P_RESIZE:
            m.resize(o.n);
            break;
        case P_PUSH_EMPTY:
            m.push_back(pcell());
            break;
        case P_TRANSFER:
            for (size_t i = o.a; i <= o.b; ++i)
            {
                u[o.n + i - o.a] = m[i];
                m[i] = pcell();
            }
            break;
        case P_SWAP:
            for (size_t i = o.a; i <= o.b; ++i)
                std::swap(u[o.n + i - o.a], m[i]);
            break;
        case P_CLEAR:
            m.clear();
            break;
        default:
            break;
    }
    o.after[0] = A;
    o.after[1] = B;
}

template<typename Kit, typename M>
struct runner
{
    const plan& p;
    const char* name;
    M t[2];
    runner(const plan& p_, const char* n) : p(p_), name(n) {}

    template<typename K>
    typename K::range values(const pop& o)
    {
        typename K::range r;
        for (size_t i = 0; i < o.n; ++i)
            r.push_back(K::make(o.id + int(i)));
        return r;
    }
    template<typename V>
    auto find(V& v, size_t pos)
    {
        return std::as_const(v).position(pos).first;
    }
    auto hint_of(M& m, size_t pos)
    {
        if constexpr (requires { M::const_position_type; m.begin()->position; })
            return m.begin();
        else
            return m.begin();
    }

    void append(M& m, const pcell& x)
    {
        if (x.k < 0)
            m.push_back_empty();
        else
            with_kind<Kit>(unsigned(x.k), [&]<typename K>() { m.push_back(K::make(x.id)); });
    }

    void apply(const pop& o)
    {
        M& m = t[o.which];
        M& u = t[1 - o.which];
        switch (o.code)
        {
            case P_APPEND:
                for (size_t i = 0; i < o.n; ++i)
                    append(m, pattern(int(i), o.id));
                break;
            case P_EMPLACE:
                with_kind<Kit>(unsigned(o.k), [&]<typename K>() { m.template emplace_back<typename K::T>(K::make(o.id)); });
                break;
            case P_SET:
                with_kind<Kit>(unsigned(o.k), [&]<typename K>() {
                    if (o.hint)
                    {
                        auto it = m.position(o.a).first;
                        if constexpr (std::is_same_v<decltype(it), typename M::iterator>)
                            m.set(it, o.a, K::make(o.id));
                        else
                            m.set(o.a, K::make(o.id));
                    }
                    else
                        m.set(o.a, K::make(o.id));
                });
                break;
            case P_SETR:
                with_kind<Kit>(unsigned(o.k), [&]<typename K>() {
                    auto r = values<K>(o);
                    m.set(o.a, r.begin(), r.end());
                });
                break;
            case P_INSERT:
                with_kind<Kit>(unsigned(o.k), [&]<typename K>() {
                    auto r = values<K>(o);
                    m.insert(o.a, r.begin(), r.end());
                });
                break;
            case P_ERASE:
                m.erase(o.a, o.b);
                break;
            case P_INSERT_EMPTY:
                m.insert_empty(o.a, o.n);
                break;
            case P_SET_EMPTY:
                m.set_empty(o.a, o.b);
                break;
            case P_RESIZE:
                m.resize(o.n);
                break;
            case P_PUSH_EMPTY:
                m.push_back_empty();
                break;
            case P_SHRINK:
                m.shrink_to_fit();
                break;
            case P_COPY:
            {
                M x(3);
                x = m;
                compare("equality with a copy", x == m && !(x != m));
                m = x;
                break;
            }
            case P_COPYCTOR:
            {
                M x(m);
                compare("equality with a copy", x == m);
                if (!p_model(o, o.which).empty())
                {
                    x.set_empty(0, x.size() - 1);
                    bool all_empty = true;
                    for (auto& q : p_model(o, o.which))
                        all_empty = all_empty && q.k < 0;
                    compare("inequality after a change", (x == m) == all_empty);
                }
                break;
            }
            case P_MOVE:
            {
                M x(std::move(m));
                m = std::move(x);
                break;
            }
            case P_TRANSFER:
                m.transfer(o.a, o.b, u, o.n);
                break;
            case P_SWAP:
                m.swap(o.a, o.b, u, o.n);
                break;
            case P_CLEAR:
                m.clear();
                break;
        }
    }
    const cells& p_model(const pop& o, int w) const { return o.after[w]; }

    size_t cur = 0;
    void compare(const char* what, bool ok)
    {
        if (!ok)
            VF_FAIL("[" << name << "] " << what << " does not hold after " << p.show(cur));
    }

    template<typename K>
    bool same_values(const base_element_block& b, const cells& m, size_t pos, size_t size, size_t style)
    {
        using Blk = typename K::Blk;
        if (Blk::size(b) != size)
            return false;
        auto& mb = const_cast<base_element_block&>(b);
        switch (style)
        {
            case 0:
            {
                size_t i = pos;
                for (auto v = Blk::cbegin(b); v != Blk::cend(b); ++v, ++i)
                    if (!K::eq(*v, m[i].id))
                        return false;
                return i == pos + size;
            }
            case 1:
            {
                size_t i = pos + size;
                for (auto v = Blk::crbegin(b); v != Blk::crend(b); ++v)
                    if (!K::eq(*v, m[--i].id))
                        return false;
                return i == pos;
            }
            case 2:
            {
                size_t i = pos;
                for (const auto& v : Blk::range(b))
                    if (!K::eq(v, m[i++].id))
                        return false;
                return i == pos + size;
            }
            case 3:
                for (size_t i = 0; i < size; ++i)
                    if (!K::eq(Blk::get_value(b, i), m[pos + i].id))
                        return false;
                return true;
            case 4:
            {
                size_t i = pos;
                for (auto v = Blk::begin(mb); v != Blk::end(mb); ++v, ++i)
                    if (!K::eq(*v, m[i].id))
                        return false;
                auto r = Blk::rbegin(mb);
                if (!K::eq(*r, m[pos + size - 1].id) || Blk::rend(mb) - r != std::ptrdiff_t(size))
                    return false;
                return i == pos + size;
            }
            default:
                if constexpr (!std::is_same_v<typename K::T, bool>)
                {
                    for (size_t i = 0; i < size; ++i)
                        if (!K::eq(Blk::at(b, i), m[pos + i].id))
                            return false;
                    if constexpr (requires { Blk::get(mb).store().data(); })
                    {
                        auto* d = Blk::data(mb);
                        for (size_t i = 0; i < size; ++i)
                            if (!K::eq(d[i], m[pos + i].id))
                                return false;
                    }
                    bool thrown = false;
                    try { Blk::at(b, size); } catch (const std::out_of_range&) { thrown = true; }
                    return thrown;
                }
                return true;
        }
    }

    std::string diff(const M& x, const cells& m, size_t step)
    {
        std::ostringstream os;
        if (x.size() != m.size())
        {
            os << "size() is " << x.size() << ", expected " << m.size();
            return os.str();
        }
        size_t pos = 0, n = 0;
        for (auto it = x.cbegin(); it != x.cend(); ++it, ++n)
        {
            if (pos >= m.size())
                return "too many blocks";
            size_t len = 1;
            while (pos + len < m.size() && m[pos + len].k == m[pos].k)
                ++len;
            if (it->position != pos || it->size != len || it->type != type_of_kind<Kit>(m[pos].k))
            {
                os << "block " << n << " is {type " << it->type << ", position " << it->position << ", size " << it->size << "}, expected {type "
                   << type_of_kind<Kit>(m[pos].k) << ", position " << pos << ", size " << len << "}";
                return os.str();
            }
            if (m[pos].k >= 0)
            {
                bool ok = false;
                with_kind<Kit>(unsigned(m[pos].k), [&]<typename K>() { ok = same_values<K>(*it->data, m, pos, len, (n + step) % 6); });
                if (!ok)
                {
                    os << "block " << n << " at position " << pos << " holds wrong values (read in style " << (n + step) % 6 << ")";
                    return os.str();
                }
            }
            pos += len;
        }
        if (pos != m.size() || x.block_size() != n)
        {
            os << n << " blocks cover " << pos << " of " << m.size() << " positions, block_size() is " << x.block_size();
            return os.str();
        }
        // position lookup (binary search over the block positions)
        for (size_t i = 0; i < 3 && !m.empty(); ++i)
        {
            size_t q = vf::mix64(step * 7 + i) % m.size();
            auto r = x.position(q);
            if (r.first->position + r.second != q || r.first->type != type_of_kind<Kit>(m[q].k) || x.get_type(q) != r.first->type)
            {
                os << "position(" << q << ") leads to block at " << r.first->position << " offset " << r.second;
                return os.str();
            }
        }
        return {};
    }

    void run()
    {
        for (cur = 0; cur < p.ops.size(); ++cur)
        {
            apply(p.ops[cur]);
            for (int w = 0; w < 2; ++w)
            {
                std::string e = diff(t[w], p.ops[cur].after[w], cur);
                if (!e.empty())
                    VF_FAIL("[" << name << "] container " << "AB"[w] << ": " << e << "; after " << p.show(cur));
            }
        }
    }
};

template<typename Kit, typename M>
void one(const plan& p, const char* name)
{
    warm_up<Kit>();
    runner<Kit, M>(p, name).run();
}
#define SOA(KIT, F) one<KIT, mdds::mtv::soa::multi_type_vector<tr_plain<KIT, LF::F>>>(p, "SoA " #KIT " " #F)
#define AOS(KIT, F) one<KIT, mdds::mtv::aos::multi_type_vector<tr_plain<KIT, LF::F>>>(p, "AoS " #KIT " " #F)

void run_part0(const plan& p);
void run_part1(const plan& p);
void run_part2(const plan& p);
void run_part3(const plan& p);
void run_part4(const plan& p);
void run_part5(const plan& p);

#if VF_IN(0)
void run_part0(const plan& p)
{
    SOA(kit_dd, none);
    SOA(kit_dd, lu4);
    SOA(kit_dd, lu8);
}
#endif
#if VF_IN(1)
void run_part1(const plan& p)
{
    SOA(kit_dd, lu16);
    SOA(kit_dd, lu32);
    SOA(kit_dd, sse2_x64);
    SOA(kit_dd, sse2_x64_lu4);
}
#endif
#if VF_IN(2)
void run_part2(const plan& p)
{
    SOA(kit_dd, sse2_x64_lu8);
    SOA(kit_dd, sse2_x64_lu16);
#if defined(__AVX2__)
    SOA(kit_dd, avx2_x64);
#endif
}
#endif
#if VF_IN(3)
void run_part3(const plan& p)
{
#if defined(__AVX2__)
    SOA(kit_dd, avx2_x64_lu4);
    SOA(kit_dd, avx2_x64_lu8);
#endif
    one<kit_dd, mdds::mtv::soa::multi_type_vector<tr_cow<kit_dd, LF::lu16>>>(p, "SoA copy-on-write");
    one<kit_dd, mdds::mtv::soa::multi_type_vector<tr_exec<kit_dd, LF::lu8, std::execution::sequenced_policy>>>(p, "SoA sequenced policy");
}
#endif
#if VF_IN(4)
void run_part4(const plan& p)
{
    AOS(kit_dd, none);
    AOS(kit_dd, lu4);
    AOS(kit_dd, lu8);
    AOS(kit_dd, lu16);
}
#endif
#if VF_IN(5)
void run_part5(const plan& p)
{
    AOS(kit_dd, lu32);
    SOA(kit_vec, lu16);
    SOA(kit_deq, lu16);
    AOS(kit_vec, lu16);
    AOS(kit_deq, lu16);
}
#endif

#if VF_IN(0)
static void run_configs(src& c)
{
    plan p;
    cells A, B;
    int id = 1;
    size_t shifts = 0, most_blocks = 0, changes = 0;
    size_t limit = c.tier ? 900 : 420;
    auto blocks = [](const cells& m) {
        size_t n = 0;
        for (size_t i = 0; i < m.size(); ++i)
            n += i == 0 || m[i].k != m[i - 1].k;
        return n;
    };
    auto pos_in = [&](const cells& m) -> size_t {
        size_t n = m.size();
        switch (c.below(4))
        {
            case 0:
                return c.below(std::min<size_t>(n, 8)); // near the start: everything after it moves
            case 1:
                return n - 1 - c.below(std::min<size_t>(n, 40)); // the remainders of the unrolled loops
            default:
                return c.below(n);
        }
    };
    auto add = [&](pop o) {
        o.id = id;
        id += int(o.n) + 1;
        size_t before = blocks(o.which ? B : A);
        model(o, A, B);
        most_blocks = std::max(most_blocks, blocks(o.which ? B : A));
        ++changes;
        bool shift = o.code == P_INSERT || o.code == P_ERASE || o.code == P_INSERT_EMPTY || o.code == P_SET || o.code == P_SETR || o.code == P_SET_EMPTY;
        if (shift && before >= 8)
            ++shifts;
        VF_LOG(c, plan::text(o));
        p.ops.push_back(std::move(o));
    };
    // the start: a number of blocks of every size modulo the unrolling factors
    {
        c.span();
        add(pop{P_APPEND, 0, 0, 0, c.coin() ? 1 + c.below(40) : 1 + c.below(c.tier ? 300 : 160), 0, 0, false, {}});
        if (c.coin())
            add(pop{P_APPEND, 1, 0, 0, 1 + c.below(60), 0, 0, false, {}});
    }
    for (size_t step = 0; step < 60 && c.more(c.tier ? 16 : 10); ++step)
    {
        c.span();
        int w = c.chance(1, 5);
        cells& m = w ? B : A;
        cells& u = w ? A : B;
        int k = int(c.below(n_kinds));
        unsigned op = c.weighted({2, 5, 4, 7, 7, 5, 4, 2, 1, 1, 1, 1, 2, 2, 1, 1, 1});
        pop o{int(op), w, 0, 0, 0, k, 0, c.coin(), {}};
        switch (op)
        {
            case P_APPEND:
                o.n = 1 + c.below(40);
                if (m.size() + o.n > limit)
                    continue;
                break;
            case P_SET:
                if (m.empty())
                    continue;
                o.a = pos_in(m);
                break;
            case P_SETR:
                if (m.empty())
                    continue;
                o.a = pos_in(m);
                o.n = 1 + c.below(std::min<size_t>(m.size() - o.a, c.coin() ? 3 : 30));
                break;
            case P_INSERT:
            case P_INSERT_EMPTY:
                if (m.empty())
                    continue;
                o.a = pos_in(m);
                o.n = 1 + c.below(6);
                if (m.size() + o.n > limit)
                    continue;
                break;
            case P_ERASE:
            case P_SET_EMPTY:
                if (m.empty())
                    continue;
                o.a = pos_in(m);
                o.b = o.a + c.below(std::min<size_t>(m.size() - o.a, c.coin() ? 3 : 20));
                break;
            case P_RESIZE:
                o.n = m.empty() || c.coin() ? std::min(limit, m.size() + c.below(10)) : c.below(m.size());
                if (c.chance(3, 4) && o.n < m.size())
                    o.n = m.size() - c.below(std::min<size_t>(m.size(), 6));
                break;
            case P_PUSH_EMPTY:
            case P_EMPLACE:
                if (m.size() >= limit)
                    continue;
                break;
            case P_TRANSFER:
            case P_SWAP:
            {
                if (m.empty() || u.empty())
                    continue;
                size_t len = 1 + c.below(std::min(m.size(), u.size()));
                if (c.coin())
                    len = std::min<size_t>(len, 4);
                o.a = c.below(m.size() - len + 1);
                o.b = o.a + len - 1;
                o.n = c.below(u.size() - len + 1);
                break;
            }
            case P_CLEAR:
                if (!w)
                    continue;
                break;
            default:
                break;
        }
        add(std::move(o));
    }
    run_part0(p);
    run_part1(p);
    run_part2(p);
    run_part3(p);
    run_part4(p);
    run_part5(p);
    VF_COVER(c, most_blocks >= 100 ? "100 blocks or more" : most_blocks >= 32 ? "32 to 99 blocks" : "fewer than 32 blocks");
    if (most_blocks >= 20 && shifts >= 2)
        c.nontrivial();
}
VF_PROPERTY("C26", run_configs,
    "one operation history executed on 21 configurations (layouts, unrolling factors, SIMD variants, element stores, copy-on-write, execution policy), every one compared with the expected block list after every step; "
    "non-trivial: a container of 20 or more blocks and at least 2 changes that move the positions of later blocks");
#endif

#endif // C26

// ========================================================== C27: collections

#if VF_FOR(27)

template<typename Kit, template<typename> class MT>
struct coll
{
    struct traits : mdds::mtv::default_traits
    {
        using block_funcs = typename Kit::funcs;
        static constexpr LF loop_unrolling = LF::lu8;
    };
    using M = MT<traits>;
    using C = mdds::mtv::collection<M>;
    using it_t = typename C::const_iterator;
    struct cell
    {
        int k = -1, id = 0;
    };
    using column = std::vector<cell>;

    src& c;
    int id = 1;
    size_t len;
    std::vector<std::shared_ptr<M>> vecs;
    std::vector<column> cols;
    size_t traversals = 0, multi = 0;

    struct set // a collection and what it should be
    {
        std::unique_ptr<C> col;
        std::vector<size_t> idx; // the vectors in it
        size_t e0 = 0, en = 0, c0 = 0, cn = 0;
    };

    coll(src& c_) : c(c_), len(1 + c_.below(c_.chance(1, 40) ? 200 : 12)) {}

    void fill(M& t, column& m, size_t a, size_t n, int k)
    {
        if (k < 0)
        {
            t.set_empty(a, a + n - 1);
            std::fill(m.begin() + a, m.begin() + a + n, cell());
            return;
        }
        with_kind<Kit>(unsigned(k), [&]<typename K>() {
            std::vector<typename K::T> v;
            for (size_t i = 0; i < n; ++i)
            {
                m[a + i] = {k, id};
                v.push_back(K::make(id++));
            }
            if constexpr (std::is_same_v<typename K::T, bool>)
            {
                std::deque<bool> d(v.begin(), v.end());
                t.set(a, d.begin(), d.end());
            }
            else
                t.set(a, v.begin(), v.end());
        });
    }
    void mutate(size_t i)
    {
        size_t a = c.below(len), n = 1 + c.below(len - a);
        if (c.coin())
            n = 1;
        fill(*vecs[i], cols[i], a, n, int(c.below(Kit::n + 1)) - 1);
    }

    bool node_is(const typename it_t::value_type& nd, const set& s, size_t pos, size_t ci, std::string& why)
    {
        std::ostringstream os;
        const cell& x = cols[s.idx[ci]][pos];
        if (nd.index != ci)
            os << "node index " << nd.index << ", expected " << ci;
        else if (nd.position != pos)
            os << "node position " << nd.position << ", expected " << pos;
        else if (nd.type != type_of_kind<Kit>(x.k))
            os << "node type " << nd.type << ", expected " << type_of_kind<Kit>(x.k);
        else if (x.k >= 0)
        {
            bool ok = false;
            with_kind<Kit>(unsigned(x.k), [&]<typename K>() { ok = K::eq(nd.template get<typename K::Blk>(), x.id); });
            if (!ok)
                os << "the node's value is not that of position " << pos << " in vector " << ci;
        }
        why = os.str();
        return why.empty();
    }

    void traverse(const set& s)
    {
        std::string why;
        it_t it = s.col->begin(), e = s.col->end();
        size_t style = c.below(3);
        size_t stop = size_t(-1), count = 0;
        std::optional<it_t> mark;
        size_t mark_count = 0;
        if (style == 2)
            stop = c.below(s.en * s.cn);
        for (size_t pos = s.e0; pos < s.e0 + s.en; ++pos)
            for (size_t ci = s.c0; ci < s.c0 + s.cn; ++ci, ++count)
            {
                VF_CHECK(!(it == e) && it != e, "the traversal ends after " << count << " of " << s.en * s.cn << " elements");
                VF_CHECK(node_is(*it, s, pos, ci, why), "at element " << count << ": " << why << " (element range " << s.e0 << "+" << s.en
                                                                       << ", collection range " << s.c0 << "+" << s.cn << ")");
                VF_CHECK(it->index == (*it).index && it->position == pos, "operator-> and operator* disagree");
                if (count == stop)
                {
                    mark = it;
                    mark_count = count;
                }
                if (style == 1)
                {
                    it_t old = it++;
                    VF_CHECK(old->index == ci && old->position == pos, "postfix ++ does not return the previous position");
                    VF_CHECK(!(old == it), "an iterator equals the one before it");
                }
                else
                {
                    it_t& r = ++it;
                    VF_CHECK(&r == &it, "++ does not return the iterator itself");
                }
            }
        VF_CHECK(it == e && !(it != e), "the traversal does not end after " << count << " elements");
        VF_CHECK(s.col->end() == it && s.col->begin() == s.col->begin(), "iterators of the same position differ");
        if (mark)
        {
            // a copy taken midway continues on its own
            it_t x = *mark;
            VF_CHECK(x == *mark, "a copied iterator differs");
            size_t k = mark_count;
            for (; x != e; ++x, ++k)
                VF_CHECK(node_is(*x, s, s.e0 + k / s.cn, s.c0 + k % s.cn, why), "a copied iterator, element " << k << ": " << why);
            VF_CHECK(k == s.en * s.cn, "a copied iterator visits " << k << " elements");
        }
        ++traversals;
        if (s.cn >= 2 && s.en >= 2)
            ++multi;
    }

    template<typename Fn>
    bool throws(Fn f)
    {
        try
        {
            f();
        }
        catch (const mdds::invalid_arg_error&)
        {
            return true;
        }
        return false;
    }

    set build()
    {
        set s;
        size_t n = 1 + c.below(vecs.size());
        if (c.chance(1, 8))
            n = 65 + c.below(10); // more vectors than an identity has bits
        for (size_t i = 0; i < n; ++i)
            s.idx.push_back(c.coin() ? i % vecs.size() : c.below(vecs.size()));
        switch (c.below(5))
        {
            case 0:
            {
                std::vector<std::shared_ptr<M>> v;
                for (size_t i : s.idx)
                    v.push_back(vecs[i]);
                s.col = std::make_unique<C>(v.begin(), v.end());
                break;
            }
            case 1:
            {
                std::vector<M*> v;
                for (size_t i : s.idx)
                    v.push_back(vecs[i].get());
                s.col = std::make_unique<C>(v.begin(), v.end());
                break;
            }
            case 2:
            {
                std::list<const M*> v;
                for (size_t i : s.idx)
                    v.push_back(vecs[i].get());
                s.col = std::make_unique<C>(v.begin(), v.end());
                break;
            }
            case 3:
            {
                std::vector<std::unique_ptr<M>> v;
                for (size_t i : s.idx)
                    v.emplace_back(vecs[i].get());
                struct let_go
                {
                    std::vector<std::unique_ptr<M>>& v;
                    ~let_go()
                    {
                        for (auto& p : v)
                            p.release();
                    }
                } guard{v};
                s.col = std::make_unique<C>(v.begin(), v.end());
                break;
            }
            default:
            {
                std::vector<std::reference_wrapper<M>> refs;
                std::deque<const M*> v;
                for (size_t i : s.idx)
                    v.push_back(vecs[i].get());
                s.col = std::make_unique<C>(v.cbegin(), v.cend());
                break;
            }
        }
        s.en = len;
        s.cn = n;
        VF_CHECK(s.col->size() == len, "size() is " << s.col->size() << ", the vectors have length " << len);
        VF_LOG(c, "a collection of " << n << " vectors of length " << len);
        return s;
    }

    void bad_build()
    {
        std::vector<std::unique_ptr<M>> v;
        size_t n = 1 + c.below(4);
        bool empty = c.coin();
        size_t odd = c.below(n + (empty ? 0 : 1));
        for (size_t i = 0; i < n + (empty ? 0 : 1); ++i)
            v.push_back(std::make_unique<M>(i == odd ? (empty ? 0 : len + 1 + c.below(3)) : len));
        VF_LOG(c, "a collection with " << (empty ? "an empty vector" : "vectors of different lengths"));
        VF_CHECK(throws([&] { C x(v.begin(), v.end()); }), "a collection with " << (empty ? "an empty vector" : "vectors of different lengths") << " is accepted");
    }
    void none()
    {
        std::vector<std::unique_ptr<M>> v;
        C x = c.coin() ? C() : C(v.begin(), v.end());
        VF_LOG(c, "a collection of no vectors");
        VF_CHECK(x.size() == 0 && x.begin() == x.end(), "a collection of no vectors is not empty");
        VF_CHECK(throws([&] { x.set_collection_range(0, 1); }), "a collection range is accepted by a collection of no vectors");
        VF_CHECK(throws([&] { x.set_element_range(0, 1); }), "an element range is accepted by a collection of no vectors");
        if (c.coin() && !sets.empty())
        {
            set& s = sets[c.below(sets.size())];
            x.swap(*s.col);
            VF_CHECK(s.col->size() == 0 && s.col->begin() == s.col->end(), "the other side of a swap with an empty collection is not empty");
            *s.col = x;
            traverse(s);
        }
    }
    std::vector<set> sets;

    void go()
    {
        warm_up<Kit>();
        size_t nv = 1 + c.below(6);
        for (size_t i = 0; i < nv; ++i)
        {
            vecs.push_back(std::make_shared<M>(len));
            cols.push_back(column(len));
            for (size_t k = 0, n = c.below(5); k < n; ++k)
                mutate(i);
        }
        sets.push_back(build());
        for (size_t step = 0; step < 100 && c.more(9); ++step)
        {
            c.span();
            size_t si = c.below(sets.size());
            set& s = sets[si];
            switch (c.weighted({4, 3, 3, 5, 2, 1, 1, 1, 1, 2}))
            {
                case 0:
                    s.e0 = c.below(len);
                    s.en = 1 + c.below(len - s.e0);
                    VF_LOG(c, "set_element_range(" << s.e0 << ", " << s.en << ")");
                    s.col->set_element_range(s.e0, s.en);
                    break;
                case 1:
                    s.c0 = c.below(s.idx.size());
                    s.cn = 1 + c.below(s.idx.size() - s.c0);
                    VF_LOG(c, "set_collection_range(" << s.c0 << ", " << s.cn << ")");
                    s.col->set_collection_range(s.c0, s.cn);
                    break;
                case 2:
                {
                    size_t i = c.below(vecs.size());
                    VF_LOG(c, "vector " << i << " changes");
                    mutate(i);
                    break;
                }
                case 3:
                    VF_LOG(c, "traverse");
                    traverse(s);
                    break;
                case 4:
                {
                    bool elem = c.coin();
                    size_t n = elem ? len : s.idx.size();
                    size_t a = c.below(n), k;
                    switch (c.below(5))
                    {
                        case 0:
                            k = 0;
                            break;
                        case 1:
                            k = n - a + 1 + c.below(4);
                            break;
                        case 2:
                            a = n + c.below(3);
                            k = 1;
                            break;
                        case 3:
                            k = size_t(-1) - c.below(n + 2);
                            break;
                        default:
                            a = size_t(-1) - c.below(4);
                            k = 1 + c.below(8);
                            break;
                    }
                    VF_LOG(c, (elem ? "set_element_range(" : "set_collection_range(") << a << ", " << k << ") is invalid");
                    VF_CHECK(throws([&] { elem ? s.col->set_element_range(a, k) : s.col->set_collection_range(a, k); }),
                        (elem ? "set_element_range(" : "set_collection_range(") << a << ", " << k << ") is accepted for a length of " << n);
                    traverse(s);
                    break;
                }
                case 5:
                    if (sets.size() < 3)
                        sets.push_back(build());
                    break;
                case 6:
                    bad_build();
                    break;
                case 7:
                    none();
                    break;
                case 8:
                {
                    set& o = sets[c.below(sets.size())];
                    VF_LOG(c, "swap two collections");
                    s.col->swap(*o.col);
                    if (&s != &o)
                    {
                        s.col.swap(o.col);
                        std::swap(s, o);
                        // the objects stay, their contents have changed places
                    }
                    traverse(s);
                    traverse(o);
                    break;
                }
                default:
                {
                    // a copy is a collection of its own
                    set d;
                    d.col = std::make_unique<C>(*s.col);
                    d.idx = s.idx;
                    d.e0 = s.e0, d.en = s.en, d.c0 = s.c0, d.cn = s.cn;
                    VF_CHECK(d.col->begin() == s.col->begin() && d.col->end() == s.col->end(), "the iterators of a copied collection differ");
                    VF_LOG(c, "copy a collection");
                    if (c.coin())
                    {
                        d.e0 = c.below(len);
                        d.en = 1 + c.below(len - d.e0);
                        d.col->set_element_range(d.e0, d.en);
                    }
                    traverse(d);
                    traverse(s);
                    if (c.coin())
                        s = std::move(d);
                    break;
                }
            }
        }
        for (auto& s : sets)
            traverse(s);
        bool structured = false;
        for (auto& v : vecs)
            structured = structured || v->block_size() >= 2;
        if (multi && traversals >= 2 && structured)
            c.nontrivial();
    }
};

template<typename T>
using SOA_ = mdds::mtv::soa::multi_type_vector<T>;
template<typename T>
using AOS_ = mdds::mtv::aos::multi_type_vector<T>;

template<typename Kit, template<typename> class MT>
void run_coll(src& c)
{
    coll<Kit, MT>(c).go();
}
#define COLL_RULE "histories over collections of 1 to 74 vectors: ranges, traversals, changes of the vectors, copies, swaps, invalid ranges; non-trivial: at least 2 traversals, one over 2 or more vectors and 2 or more positions, and a vector of several blocks"
#if VF_IN(0)
VF_PROPERTY("C27", (run_coll<kitA, SOA_>), COLL_RULE);
#endif
#if VF_IN(1)
VF_PROPERTY("C27", (run_coll<kitC, AOS_>), COLL_RULE);
#endif

#endif // C27

// ================================================ C28: delayed_delete_vector

#if VF_FOR(28) && VF_IN(0)

template<typename T>
struct ddv_val
{
    static T make(int i) { return T(i); }
};
template<>
struct ddv_val<std::string>
{
    static std::string make(int i) { return i % 4 ? "v" + std::to_string(i) : std::string(size_t(i % 50), 'z'); }
};
template<>
struct ddv_val<bool>
{
    static bool make(int i) { return (i ^ (i >> 2)) & 1; }
};
template<>
struct ddv_val<std::shared_ptr<int>>
{
    static std::shared_ptr<int> make(int i) { return i % 5 ? std::make_shared<int>(i) : nullptr; }
};

template<typename T>
struct ddv
{
    using V = mdds::mtv::delayed_delete_vector<T>;
    using R = std::vector<T>;
    static constexpr bool is_bool = std::is_same_v<T, bool>;
    src& c;
    std::vector<std::unique_ptr<V>> vs;
    std::vector<R> ms;
    int id = 1;
    size_t front = 0, moves = 0, ops = 0;

    explicit ddv(src& c_) : c(c_) {}
    T next() { return ddv_val<T>::make(id++); }

    void check(const V& v, const R& m, const char* what)
    {
        VF_CHECK(v.size() == m.size(), "after " << what << ": size() is " << v.size() << ", expected " << m.size());
        VF_CHECK(std::equal(v.begin(), v.end(), m.begin(), m.end()), "after " << what << ": the elements differ");
        V& w = const_cast<V&>(v);
        VF_CHECK(std::equal(w.begin(), w.end(), m.begin(), m.end()), "after " << what << ": the mutable elements differ");
        VF_CHECK(std::equal(v.rbegin(), v.rend(), m.rbegin(), m.rend()) && std::equal(w.rbegin(), w.rend(), m.rbegin(), m.rend()),
            "after " << what << ": the elements differ in reverse");
        for (size_t i = 0; i < m.size(); ++i)
        {
            VF_CHECK(v[i] == m[i] && w[i] == m[i], "after " << what << ": element " << i << " differs");
            VF_CHECK(v.at(i) == m[i] && w.at(i) == m[i], "after " << what << ": at(" << i << ") differs");
        }
        if constexpr (!is_bool)
            for (size_t i = 0; i < m.size(); ++i)
                VF_CHECK(v.data()[i] == m[i] && w.data()[i] == m[i], "after " << what << ": data()[" << i << "] differs");
        VF_CHECK(v.capacity() >= v.size(), "after " << what << ": capacity() is less than size()");
        size_t past[] = {m.size(), m.size() + 1, size_t(-1), size_t(-1) - 1, size_t(-3)};
        for (size_t p : past)
        {
            int thrown = 0;
            try { (void)v.at(p); } catch (const std::out_of_range&) { ++thrown; }
            try { (void)w.at(p); } catch (const std::out_of_range&) { ++thrown; }
            VF_CHECK(thrown == 2, "after " << what << ": at(" << p << ") does not throw for a size of " << m.size());
        }
    }

    void make()
    {
        size_t n = c.chance(1, 30) ? 40 + c.below(700) : c.below(8);
        R m;
        std::unique_ptr<V> v;
        switch (c.below(4))
        {
            case 0:
                v = std::make_unique<V>();
                break;
            case 1:
            {
                T x = next();
                m.assign(n, x);
                v = std::make_unique<V>(n, x);
                break;
            }
            case 2:
                m.resize(n);
                v = std::make_unique<V>(n);
                break;
            default:
                for (size_t i = 0; i < n; ++i)
                    m.push_back(next());
                v = std::make_unique<V>(m.begin(), m.end());
                break;
        }
        VF_LOG(c, "construct, size " << m.size());
        vs.push_back(std::move(v));
        ms.push_back(std::move(m));
        check(*vs.back(), ms.back(), "construction");
    }

    void go()
    {
        make();
        for (size_t step = 0; step < 200 && c.more(18); ++step)
        {
            c.span();
            size_t i = c.below(vs.size());
            V& v = *vs[i];
            R& m = ms[i];
            size_t n = m.size();
            const char* what = "";
            ++ops;
            switch (c.weighted({8, 4, 3, 3, 3, 4, 2, 2, 2, 2, 2, 2, 2, 3, 1, 1, 3, 2}))
            {
                case 0:
                {
                    if (!n)
                        break;
                    size_t k = 1 + c.below(std::min<size_t>(n, n > 40 ? 300 : 4));
                    VF_LOG(c, "erase the first element " << k << " times");
                    for (size_t j = 0; j < k; ++j)
                    {
                        auto r = v.erase(v.begin());
                        m.erase(m.begin());
                        VF_CHECK(r == v.begin(), "erasing the first element does not return the new begin");
                    }
                    ++front;
                    what = "erase at the front";
                    break;
                }
                case 1:
                {
                    if (!n)
                        break;
                    size_t p = c.below(n);
                    VF_LOG(c, "erase(" << p << ")");
                    auto r = v.erase(v.begin() + p);
                    m.erase(m.begin() + p);
                    VF_CHECK(size_t(r - v.begin()) == p, "erase(" << p << ") returns position " << r - v.begin());
                    what = "erase";
                    break;
                }
                case 2:
                {
                    size_t a = c.below(n + 1), b = a + c.below(n - a + 1);
                    VF_LOG(c, "erase(" << a << ", " << b << ")");
                    auto r = v.erase(v.begin() + a, v.begin() + b);
                    m.erase(m.begin() + a, m.begin() + b);
                    VF_CHECK(size_t(r - v.begin()) == a, "erase(" << a << ", " << b << ") returns position " << r - v.begin());
                    what = "erase (range)";
                    break;
                }
                case 3:
                {
                    T x = next();
                    m.push_back(x);
                    VF_LOG(c, "push_back");
                    switch (c.below(3))
                    {
                        case 0:
                            v.push_back(x);
                            break;
                        case 1:
                            v.push_back(std::move(x));
                            break;
                        default:
                            v.emplace_back(x);
                            break;
                    }
                    what = "push_back";
                    break;
                }
                case 4:
                {
                    size_t p = c.below(n + 1);
                    T x = next();
                    m.insert(m.begin() + p, x);
                    VF_LOG(c, "insert(" << p << ")");
                    auto r = c.coin() ? v.insert(v.begin() + p, static_cast<const T&>(x)) : v.insert(std::as_const(v).begin() + p, std::move(x));
                    VF_CHECK(size_t(r - v.begin()) == p, "insert(" << p << ") returns position " << r - v.begin());
                    what = "insert";
                    break;
                }
                case 5:
                {
                    size_t p = c.below(n + 1);
                    std::list<T> r;
                    for (size_t k = c.below(6); k > 0; --k)
                        r.push_back(next());
                    m.insert(m.begin() + p, r.begin(), r.end());
                    VF_LOG(c, "insert(" << p << ", " << r.size() << " elements)");
                    v.insert(v.begin() + p, r.begin(), r.end());
                    what = "insert (range)";
                    break;
                }
                case 6:
                {
                    size_t k = c.coin() ? n + c.below(6) : c.below(n + 1);
                    VF_LOG(c, "resize(" << k << ")");
                    v.resize(k);
                    m.resize(k);
                    what = "resize";
                    break;
                }
                case 7:
                {
                    size_t k = c.below(40);
                    VF_LOG(c, "reserve(" << k << ")");
                    v.reserve(k);
                    VF_CHECK(v.capacity() >= k, "reserve(" << k << ") leaves a capacity of " << v.capacity());
                    what = "reserve";
                    break;
                }
                case 8:
                    VF_LOG(c, "shrink_to_fit");
                    v.shrink_to_fit();
                    what = "shrink_to_fit";
                    break;
                case 9:
                {
                    R r;
                    for (size_t k = c.below(8); k > 0; --k)
                        r.push_back(next());
                    VF_LOG(c, "assign(" << r.size() << " elements)");
                    v.assign(r.begin(), r.end());
                    m = r;
                    what = "assign";
                    break;
                }
                case 10:
                {
                    VF_LOG(c, "copy construct");
                    if (vs.size() >= 3)
                        break;
                    vs.push_back(std::make_unique<V>(v));
                    ms.push_back(R(ms[i]));
                    what = "copy construction";
                    break;
                }
                case 11:
                {
                    size_t j = c.below(vs.size());
                    VF_LOG(c, "copy assign " << i << " = " << j);
                    *vs[i] = *vs[j];
                    R x = ms[j];
                    ms[i] = x;
                    what = "copy assignment";
                    break;
                }
                case 12:
                {
                    VF_LOG(c, "move construct, and assign the result back");
                    V x(std::move(v));
                    check(x, m, "move construction");
                    check(v, R(), "being moved from");
                    R more;
                    if (c.coin())
                    {
                        T e = next();
                        v.push_back(e);
                        more.push_back(e);
                        check(v, more, "push_back on a moved-from vector");
                    }
                    v = std::move(x);
                    check(x, R(), "being moved from by assignment");
                    what = "move assignment";
                    ++moves;
                    break;
                }
                case 13:
                {
                    size_t j = c.below(vs.size());
                    VF_LOG(c, "swap " << i << " with " << j);
                    if (i == j)
                    {
                        V x;
                        T e = next();
                        x.push_back(e);
                        x.swap(v);
                        check(x, m, "swap");
                        check(v, R(1, e), "swap");
                        v.swap(x);
                    }
                    else
                    {
                        vs[i]->swap(*vs[j]);
                        ms[i].swap(ms[j]);
                    }
                    what = "swap";
                    ++moves;
                    break;
                }
                case 14:
                    if (vs.size() < 3)
                        make();
                    break;
                case 15:
                {
                    if (vs.size() < 2)
                        break;
                    VF_LOG(c, "destroy " << i);
                    vs.erase(vs.begin() + i);
                    ms.erase(ms.begin() + i);
                    break;
                }
                case 16:
                {
                    if (!n)
                        break;
                    size_t p = c.below(n);
                    T x = next();
                    VF_LOG(c, "write element " << p);
                    m[p] = x;
                    switch (c.below(4))
                    {
                        case 0:
                            v[p] = x;
                            break;
                        case 1:
                            v.at(p) = x;
                            break;
                        case 2:
                            *(v.begin() + p) = x;
                            break;
                        default:
                            *(v.rbegin() + (n - 1 - p)) = x;
                            break;
                    }
                    what = "writing an element";
                    break;
                }
                default:
                {
                    size_t j = c.below(vs.size());
                    VF_CHECK((*vs[i] == *vs[j]) == (ms[i] == ms[j]), "operator== gives " << (*vs[i] == *vs[j]) << " for vectors that are " << (ms[i] == ms[j] ? "equal" : "not equal"));
                    // the same contents by another history
                    V x(m.begin(), m.end());
                    VF_CHECK(x == v && v == x, "a vector does not equal one of the same elements");
                    x.push_back(next());
                    VF_CHECK(!(x == v) && !(v == x), "a vector equals a longer one");
                    break;
                }
            }
            for (size_t k = 0; k < vs.size(); ++k)
                check(*vs[k], ms[k], what);
        }
        if (front && ops >= 4)
            c.nontrivial();
    }
};
template<typename T>
void run_ddv(src& c)
{
    ddv<T>(c).go();
}
#define DDV_RULE "histories of all members over up to 3 vectors against std::vector; non-trivial: at least 4 operations, one of them an erasure at the front"
VF_PROPERTY("C28", run_ddv<int>, DDV_RULE, 2);
VF_PROPERTY("C28", run_ddv<std::string>, DDV_RULE, 2);
VF_PROPERTY("C28", run_ddv<bool>, DDV_RULE, 2);
VF_PROPERTY("C28", run_ddv<std::shared_ptr<int>>, DDV_RULE, 1);

#endif // C28

// ================================================================ C33: clones

#if VF_FOR(33)

struct clone_throw
{
};
struct zbase
{
    int v = 0;
    int seq = -1;  // stamped by the cloner: the how-manieth value it clones
    int inst = -1; // stamped by the cloner: which cloner
    inline static long live = 0;
    inline static long calls = 0;
    inline static long fault = -1;
    inline static int cloners = 0;
    explicit zbase(int i) : v(i) { ++live; }
    zbase(const zbase& o) : v(o.v)
    {
        ++calls;
        if (fault >= 0 && fault-- == 0)
            throw clone_throw();
        ++live;
    }
    ~zbase() { --live; v = -99; }
};
template<int N>
struct zval : zbase
{
    using zbase::zbase;
    bool operator==(const zval& o) const { return v == o.v; }
};
using z_seq = zval<0>; // cloned value by value, by a cloner with state
using z_blk = zval<1>; // cloned as a block
using z_exe = zval<2>; // cloned with an execution policy
using z_no = zval<3>;  // not cloneable
using z_seq_block = mdds::mtv::noncopyable_managed_element_block<80, z_seq, std::vector>;
using z_blk_block = mdds::mtv::noncopyable_managed_element_block<81, z_blk, std::vector>;
using z_exe_block = mdds::mtv::noncopyable_managed_element_block<82, z_exe, std::vector>;
using z_no_block = mdds::mtv::noncopyable_managed_element_block<83, z_no, std::vector>;
using z_sqd_block = mdds::mtv::noncopyable_managed_element_block<84, zval<4>>; // the same as z_seq, in the default store
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(z_seq, 80, nullptr, z_seq_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(z_blk, 81, nullptr, z_blk_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(z_exe, 82, nullptr, z_exe_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(z_no, 83, nullptr, z_no_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(zval<4>, 84, nullptr, z_sqd_block)
using z_deq_block = mdds::mtv::noncopyable_managed_element_block<85, zval<5>, std::deque>; // and in a store that cannot reserve
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(zval<5>, 85, nullptr, z_deq_block)

template<typename T>
struct seq_cloner
{
    int n = 0;
    int inst = zbase::cloners++;
    T* operator()(const T* p)
    {
        int k = n++;
        if (!p)
            return nullptr;
        T* r = new T(*p);
        r->seq = k;
        r->inst = inst;
        return r;
    }
};
namespace mdds { namespace mtv {
template<>
struct clone_value<z_seq*> : seq_cloner<z_seq>
{
};
template<>
struct clone_value<zval<4>*> : seq_cloner<zval<4>>
{
};
template<>
struct clone_value<zval<5>*> : seq_cloner<zval<5>>
{
};
template<>
struct clone_value<z_exe*>
{
    using exec_policy = std::execution::sequenced_policy;
    z_exe* operator()(const z_exe* p) const { return p ? new z_exe(*p) : nullptr; }
};
template<>
struct clone_block<z_blk_block>
{
    z_blk_block* operator()(const z_blk_block& src) const
    {
        auto r = std::make_unique<z_blk_block>();
        int inst = zbase::cloners++, k = 0;
        r->store().reserve(src.store().size());
        for (const z_blk* p : src.store())
        {
            z_blk* q = p ? new z_blk(*p) : nullptr;
            if (q)
            {
                q->seq = k;
                q->inst = inst;
            }
            r->store().push_back(q);
            ++k;
        }
        return r.release();
    }
};
}} // namespace mdds::mtv

template<typename V, typename B, int Mode>
struct kind_z : kind_ptr<V, B, false, Mode != 0>
{
    static constexpr int mode = Mode; // 0 not cloneable, 1 in order by one cloner, 2 in any order
};
struct KZ_seq : kind_z<z_seq, z_seq_block, 1>
{
};
struct KZ_blk : kind_z<z_blk, z_blk_block, 1>
{
};
struct KZ_exe : kind_z<z_exe, z_exe_block, 2>
{
};
struct KZ_sqd : kind_z<zval<4>, z_sqd_block, 1>
{
};
struct KZ_deq : kind_z<zval<5>, z_deq_block, 1>
{
};
struct KZ_no : kind_z<z_no, z_no_block, 0>
{
};
using kit_z = kit<KZ_seq, K_i32, KZ_blk, K_str, KZ_exe, KZ_no, KZ_sqd, KZ_deq>;

template<template<typename> class MT, bool COW>
struct cloning
{
    struct hdl
    {
        int tag = 0;
        void element_block_acquired(const base_element_block*) {}
        void element_block_released(const base_element_block*) {}
    };
    struct traits : mdds::mtv::default_traits
    {
        using block_funcs = typename kit_z::funcs;
        using event_func = hdl;
        static constexpr bool enable_cow = COW;
    };
    using M = MT<traits>;
    struct cell
    {
        int k = -1, id = 0;
        bool null = false;
    };
    using cells = std::vector<cell>;

    src& c;
    int id = 1;
    explicit cloning(src& c_) : c(c_) {}

    void build(M& t, cells& m, bool with_no)
    {
        bool exe = c.coin(); // an execution policy rules failures out
        size_t runs = 1 + c.below(7);
        for (size_t r = 0; r < runs; ++r)
        {
            c.span();
            int k = int(c.weighted({3, 1, 2, 1, exe ? 3u : 0u, with_no ? 1u : 0u, 2, 2, 1}));
            size_t n = k == 7 && c.chance(1, 4) ? 60 + c.below(80) : 1 + c.below(5);
            for (size_t i = 0; i < n; ++i)
            {
                if (k == int(kit_z::n))
                {
                    t.push_back_empty();
                    m.push_back({});
                    continue;
                }
                with_kind<kit_z>(unsigned(k), [&]<typename K>() {
                    bool null = K::managed && c.chance(1, 12);
                    m.push_back({k, id++, null});
                    if constexpr (K::managed)
                        t.push_back(null ? nullptr : K::make(m.back().id));
                    else
                        t.push_back(K::make(m.back().id));
                });
            }
        }
        // break some of the blocks up and move elements between blocks
        for (size_t i = c.below(4); i > 0; --i)
        {
            size_t a = c.below(m.size()), b = a + c.below(m.size() - a);
            if (m.size() - (b - a + 1) < 2)
                continue;
            t.erase(a, b);
            m.erase(m.begin() + a, m.begin() + b + 1);
        }
        if (c.coin())
        {
            size_t a = c.below(m.size());
            t.set_empty(a, a);
            m[a] = cell();
        }
        VF_LOG(c, "a container of " << m.size() << " elements in " << t.block_size() << " blocks");
    }
    static bool has(const cells& m, int mode)
    {
        for (auto& x : m)
            if (x.k >= 0)
            {
                int md = -1;
                with_kind<kit_z>(unsigned(x.k), [&]<typename K>() {
                    if constexpr (K::managed)
                        md = K::mode;
                });
                if (md == mode)
                    return true;
            }
        return false;
    }
    static long managed(const cells& m)
    {
        long n = 0;
        for (auto& x : m)
            if (x.k >= 0 && !x.null)
                with_kind<kit_z>(unsigned(x.k), [&]<typename K>() { n += K::managed; });
        return n;
    }

    // contents, and the stamps of values cloned since: inst numbers from `first` on
    void verify(const M& t, const cells& m, int stamped_from, const char* what)
    {
        VF_CHECK(t.size() == m.size(), what << ": size() is " << t.size() << ", expected " << m.size());
        std::set<int> insts;
        for (auto it = t.cbegin(); it != t.cend(); ++it)
        {
            int k = it->type == mdds::mtv::element_type_empty ? -1 : kind_of_type<kit_z>(it->type);
            for (size_t i = 0; i < it->size; ++i)
                VF_CHECK(m[it->position + i].k == k, what << ": position " << it->position + i << " has the wrong type");
            if (k < 0)
                continue;
            with_kind<kit_z>(unsigned(k), [&]<typename K>() {
                size_t i = 0;
                int inst = -1;
                for (auto v = K::Blk::cbegin(*it->data); v != K::Blk::cend(*it->data); ++v, ++i)
                {
                    const cell& x = m[it->position + i];
                    if constexpr (K::managed)
                    {
                        VF_CHECK((*v == nullptr) == x.null && (x.null || K::eq(*v, x.id)), what << ": position " << it->position + i << " holds the wrong value");
                        if (K::mode == 1 && *v && stamped_from >= 0)
                        {
                            const zbase& z = **v;
                            VF_CHECK(z.seq == int(i), what << ": the value at offset " << i << " of its block was cloned as number " << z.seq);
                            VF_CHECK(z.inst >= stamped_from, what << ": position " << it->position + i << " was not cloned by this call");
                            VF_CHECK(inst == -1 || inst == z.inst, what << ": more than one cloner for one block");
                            inst = z.inst;
                        }
                    }
                    else
                        VF_CHECK(K::eq(*v, x.id), what << ": position " << it->position + i << " holds the wrong value");
                }
                VF_CHECK(i == it->size, what << ": a block of size " << it->size << " holds " << i << " values");
                if (inst >= 0)
                    VF_CHECK(insts.insert(inst).second, what << ": two blocks share one cloner");
            });
        }
    }

    void go()
    {
        warm_up<kit_z>();
        long live0 = zbase::live;
        size_t cloned_blocks = 0, faults = 0;
        {
            M a(hdl{5});
            cells m;
            build(a, m, c.chance(1, 6));
            bool no = has(m, 0);
            for (size_t step = 0; step < 6 && c.more(3); ++step)
            {
                c.span();
                long live = zbase::live;
                int first = zbase::cloners;
                zbase::calls = 0;
                zbase::fault = -1;
                long expected = managed(m);
                // a fault inside an execution policy ends the program by contract
                long alloc = -1;
                if (!has(m, 2) && c.chance(2, 3))
                {
                    if (c.coin())
                        alloc = long(c.below(size_t(expected) + 12));
                    else
                        zbase::fault = long(c.below(size_t(expected) + 2));
                }
                long fault = zbase::fault;
                long mem = vf::g_alloc.live;
                constexpr bool takes_handler = requires(const M& v) { v.clone(hdl{9}); };
                const bool own_handler = c.coin() && takes_handler;
                std::optional<M> b;
                int outcome = 0; // 1 refused, 2 thrown by the cloner, 3 out of memory
                try
                {
                    std::optional<vf::alloc_fault> af;
                    if (alloc >= 0)
                        af.emplace(alloc);
                    if constexpr (takes_handler)
                    {
                        if (own_handler)
                            b.emplace(a.clone(hdl{9}));
                        else
                            b.emplace(a.clone());
                    }
                    else
                        b.emplace(a.clone());
                    if constexpr (COW)
                    {
                        VF_CHECK(zbase::calls == 0 && zbase::live == live, "cloning a sharing container copied elements at once");
                        {
                            long countdown = std::exchange(vf::g_alloc.countdown, -1);
                            verify(*b, m, -1, "the sharing clone");
                            vf::g_alloc.countdown = countdown;
                        }
                        b->detach();
                    }
                }
                catch (const mdds::mtv::element_block_error&)
                {
                    outcome = 1;
                }
                catch (const clone_throw&)
                {
                    outcome = 2;
                }
                catch (const std::bad_alloc&)
                {
                    outcome = 3;
                }
                zbase::fault = -1;
                VF_LOG(c, "clone" << (alloc >= 0 ? " with allocation " + std::to_string(alloc) + " failing" : std::string()) << (own_handler ? " with a handler" : "") << (fault >= 0 ? ", failing at value " + std::to_string(fault) : std::string()) << ": "
                                  << (outcome == 0 ? "done" : outcome == 1 ? "refused" : "failed"));
                if (outcome == 3)
                    VF_CHECK(alloc >= 0, "clone: out of memory");
                else if (no)
                    VF_CHECK(outcome == 1 || (outcome == 2 && fault >= 0 && fault < expected), "cloning a block that cannot be cloned is not refused");
                else
                    VF_CHECK(outcome == (fault >= 0 && fault < expected ? 2 : 0), "clone: outcome " << outcome << " with the failure at value " << fault << " of " << expected);
                if (outcome)
                {
                    ++faults;
                    if (b)
                    {
                        verify(*b, m, -1, "the clone that failed to detach");
                        b.reset();
                    }
                    VF_CHECK(zbase::live == live, zbase::live - live << " clones are left over from a clone that failed");
                    if (!COW)
                        VF_CHECK(vf::g_alloc.live == mem, "a clone that failed leaks " << vf::g_alloc.live - mem << " allocations");
                    verify(a, m, -1, "the source of a clone that failed");
                    VF_CHECK(a.event_handler().tag == 5, "the event handler of the source has changed");
                    continue;
                }
                VF_CHECK(zbase::calls == expected, zbase::calls << " values were cloned, the container holds " << expected);
                VF_CHECK(zbase::live == live + expected, "the number of objects after cloning is off by " << zbase::live - live - expected);
                verify(*b, m, first, "the clone");
                verify(a, m, -1, "the source");
                VF_CHECK(b->event_handler().tag == (own_handler ? 9 : 5), "the clone has the wrong event handler");
                VF_CHECK(a.event_handler().tag == 5, "the event handler of the source has changed");
                cloned_blocks += b->block_size();
                // independence
                cells bm = m;
                if (c.coin() && !bm.empty())
                {
                    size_t p = c.below(bm.size());
                    b->set_empty(p, p);
                    bm[p] = cell();
                    verify(*b, bm, -1, "the changed clone");
                    verify(a, m, -1, "the source after a change of the clone");
                }
                if (c.coin())
                {
                    a = std::move(*b); // go on from the clone
                    a.event_handler().tag = 5;
                    m = bm;
                }
            }
            zbase::fault = -1;
        }
        VF_CHECK(zbase::live == live0, zbase::live - live0 << " objects are left over at the end");
        if (cloned_blocks >= 3)
            c.nontrivial();
        VF_COVER(c, faults ? "a clone was refused or failed" : "every clone succeeded");
    }
};
template<typename T>
using SOAz = mdds::mtv::soa::multi_type_vector<T>;
template<typename T>
using AOSz = mdds::mtv::aos::multi_type_vector<T>;
template<template<typename> class MT, bool COW>
void run_cloning(src& c)
{
    cloning<MT, COW>(c).go();
}
#define CLONE_RULE "repeated clones of containers mixing values cloned one by one, by block, with an execution policy, copied, and not at all, with failing cloners; non-trivial: at least 3 blocks cloned"
#if VF_IN(0)
VF_PROPERTY("C33", (run_cloning<SOAz, false>), CLONE_RULE, 2);
#endif
#if VF_IN(1)
VF_PROPERTY("C33", (run_cloning<AOSz, false>), CLONE_RULE, 2);
#endif
#if VF_IN(2)
VF_PROPERTY("C33", (run_cloning<SOAz, true>), CLONE_RULE, 1);
#endif

#endif // C33

VF_MAIN
