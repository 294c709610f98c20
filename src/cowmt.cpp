// Threads over multi_type_vector: concurrent readers of one container, and
// copy-on-write borrowers used by one thread each (C32).  Built with the
// thread sanitizer.
#include "vf.hpp"
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <atomic>
#include <deque>
#include <memory>
#include <optional>
#include <thread>
#include <tuple>

using vf::src;
using LF = mdds::mtv::lu_factor_t;
using mdds::mtv::element_t;

template<int Tag>
struct aobj
{
    int v;
    inline static std::atomic<long> live{0};
    explicit aobj(int i) : v(i) { ++live; }
    aobj(const aobj& o) : v(o.v) { ++live; }
    aobj& operator=(const aobj&) = delete;
    bool operator==(const aobj& o) const { return v == o.v; }
    ~aobj() { --live; v = -1; }
};
using cobj = aobj<1>; // copyable
using uobj = aobj<2>; // cloneable only
using cobj_block = mdds::mtv::managed_element_block<50, cobj>;
using uobj_block = mdds::mtv::noncopyable_managed_element_block<51, uobj>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(cobj, 50, nullptr, cobj_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(uobj, 51, nullptr, uobj_block)
namespace mdds { namespace mtv {
template<>
struct clone_value<uobj*>
{
    uobj* operator()(const uobj* p) const { return p ? new uobj(*p) : nullptr; }
};
}} // namespace mdds::mtv

struct T_i
{
    using Blk = mdds::mtv::int32_element_block;
    using T = int32_t;
    static T make(int i) { return i; }
    static bool eq(T v, int i) { return v == i; }
};
struct T_s
{
    using Blk = mdds::mtv::string_element_block;
    using T = std::string;
    static T make(int i) { return i % 3 ? "s" + std::to_string(i) : std::string(size_t(20 + i % 20), 'q') + std::to_string(i); }
    static bool eq(const T& v, int i) { return v == make(i); }
};
struct T_c
{
    using Blk = cobj_block;
    using T = cobj*;
    static T make(int i) { return new cobj(i); }
    static bool eq(const cobj* v, int i) { return v && v->v == i; }
};
struct T_u
{
    using Blk = uobj_block;
    using T = uobj*;
    static T make(int i) { return new uobj(i); }
    static bool eq(const uobj* v, int i) { return v && v->v == i; }
};

template<bool Copyable, typename... Ks>
struct tkit
{
    static constexpr size_t n = sizeof...(Ks);
    static constexpr bool copyable = Copyable;
    using funcs = mdds::mtv::element_block_funcs<typename Ks::Blk...>;
    template<size_t I>
    using at = std::tuple_element_t<I, std::tuple<Ks...>>;
    template<typename F>
    static void with(int k, F&& f)
    {
        [&]<size_t... I>(std::index_sequence<I...>) {
            (void)((k == int(I) ? (f.template operator()<at<I>>(), true) : false) || ...);
        }(std::make_index_sequence<n>{});
    }
    static int kind(element_t t)
    {
        int r = -1;
        [&]<size_t... I>(std::index_sequence<I...>) {
            (void)((t == at<I>::Blk::block_type ? (r = int(I), true) : false) || ...);
        }(std::make_index_sequence<n>{});
        return r;
    }
};
using kit_copy = tkit<true, T_i, T_s, T_c>;
using kit_clone = tkit<false, T_i, T_u, T_s>;

struct cell
{
    int k = -1, id = 0;
    bool operator==(const cell& o) const { return k == o.k && (k < 0 || id == o.id); }
};
using cells = std::vector<cell>;

template<typename Kit, bool COW, bool SOA>
struct mt
{
    struct traits : mdds::mtv::default_traits
    {
        using block_funcs = typename Kit::funcs;
        static constexpr LF loop_unrolling = LF::lu8;
        static constexpr bool enable_cow = COW;
    };
    using M = std::conditional_t<SOA, mdds::mtv::soa::multi_type_vector<traits>, mdds::mtv::aos::multi_type_vector<traits>>;

    struct own
    {
        std::unique_ptr<M> t;
        cells m;
    };
    struct op
    {
        int code;
        int w;
        size_t a, b, n;
        int k, id;
    };
    struct job
    {
        own o[2];
        std::vector<op> ops;
        std::string error;
    };

    static void put(M& t, cells& m, const op& p)
    {
        switch (p.code)
        {
            case 0:
                Kit::with(p.k, [&]<typename K>() { t.set(p.a, K::make(p.id)); });
                m[p.a] = {p.k, p.id};
                break;
            case 1:
            case 2:
                Kit::with(p.k, [&]<typename K>() {
                    std::vector<typename K::T> v;
                    for (size_t i = 0; i < p.n; ++i)
                        v.push_back(K::make(p.id + int(i)));
                    if (p.code == 1)
                        t.set(p.a, v.begin(), v.end());
                    else
                        t.insert(p.a, v.begin(), v.end());
                });
                if (p.code == 2)
                    m.insert(m.begin() + p.a, p.n, cell());
                for (size_t i = 0; i < p.n; ++i)
                    m[p.a + i] = {p.k, p.id + int(i)};
                break;
            case 3:
                t.erase(p.a, p.b);
                m.erase(m.begin() + p.a, m.begin() + p.b + 1);
                break;
            case 4:
                t.set_empty(p.a, p.b);
                std::fill(m.begin() + p.a, m.begin() + p.b + 1, cell());
                break;
            case 5:
                t.insert_empty(p.a, p.n);
                m.insert(m.begin() + p.a, p.n, cell());
                break;
            case 6:
                Kit::with(p.k, [&]<typename K>() { t.push_back(K::make(p.id)); });
                m.push_back({p.k, p.id});
                break;
            case 7:
                t.resize(p.n);
                m.resize(p.n);
                break;
            case 8:
                t.clear();
                m.clear();
                break;
            default:
                break;
        }
    }
    static const char* name(int c)
    {
        static const char* n[] = {"set", "set-range", "insert", "erase", "set_empty", "insert_empty", "push_back", "resize", "clear",
            "copy to the other", "swap with the other", "swap a range", "transfer", "detach", "read", "read the common one", "destroy",
            "move", "compare with the common one", "shrink_to_fit", "clone and drop"};
        return n[c];
    }

    static std::string diff(const M& t, const cells& m)
    {
        std::ostringstream os;
        if (t.size() != m.size())
        {
            os << "size() is " << t.size() << ", expected " << m.size();
            return os.str();
        }
        size_t pos = 0;
        for (auto it = t.cbegin(); it != t.cend(); ++it)
        {
            int k = it->type == mdds::mtv::element_type_empty ? -1 : Kit::kind(it->type);
            for (size_t i = 0; i < it->size; ++i, ++pos)
                if (pos >= m.size() || m[pos].k != k)
                {
                    os << "position " << pos << " has the wrong type";
                    return os.str();
                }
            if (k >= 0)
            {
                bool ok = true;
                Kit::with(k, [&]<typename K>() {
                    size_t i = pos - it->size;
                    for (auto v = K::Blk::cbegin(*it->data); v != K::Blk::cend(*it->data); ++v, ++i)
                        ok = ok && K::eq(*v, m[i].id);
                });
                if (!ok)
                {
                    os << "a block before position " << pos << " holds wrong values";
                    return os.str();
                }
            }
        }
        if (pos != m.size())
            return "too few elements";
        return {};
    }
    static std::string peek(const M& t, const cells& m, size_t seed) // single positions
    {
        for (size_t i = 0; i < 4 && !m.empty(); ++i)
        {
            size_t p = vf::mix64(seed * 5 + i) % m.size();
            auto r = t.position(p);
            int k = r.first->type == mdds::mtv::element_type_empty ? -1 : Kit::kind(r.first->type);
            bool ok = k == m[p].k && t.is_empty(p) == (k < 0);
            if (k >= 0 && ok)
                Kit::with(k, [&]<typename K>() { ok = K::eq(t.template get<typename K::T>(p), m[p].id) && K::eq(K::Blk::get_value(*r.first->data, r.second), m[p].id); });
            if (!ok)
                return "position " + std::to_string(p) + " reads wrong";
        }
        return {};
    }

    static void run_job(job& j, const M& common, const cells& cm)
    {
        try
        {
            for (size_t i = 0; i < j.ops.size() && j.error.empty(); ++i)
            {
                const op& p = j.ops[i];
                own& o = j.o[p.w];
                own& u = j.o[1 - p.w];
                switch (p.code)
                {
                    case 9: // copies among the thread's own containers
                        if constexpr (Kit::copyable)
                            *u.t = *o.t;
                        else
                            *u.t = o.t->clone();
                        u.m = o.m;
                        break;
                    case 10:
                        o.t->swap(*u.t);
                        o.m.swap(u.m);
                        break;
                    case 11:
                        o.t->swap(p.a, p.b, *u.t, p.n);
                        for (size_t x = p.a; x <= p.b; ++x)
                            std::swap(o.m[x], u.m[p.n + x - p.a]);
                        break;
                    case 12:
                        o.t->transfer(p.a, p.b, *u.t, p.n);
                        for (size_t x = p.a; x <= p.b; ++x)
                        {
                            u.m[p.n + x - p.a] = o.m[x];
                            o.m[x] = cell();
                        }
                        break;
                    case 13:
                        if constexpr (COW)
                            o.t->detach();
                        break;
                    case 14:
                        j.error = diff(*o.t, o.m);
                        break;
                    case 15:
                        j.error = diff(common, cm);
                        if (j.error.empty())
                            j.error = peek(common, cm, i);
                        break;
                    case 16:
                        o.t = std::make_unique<M>();
                        o.m.clear();
                        break;
                    case 17:
                        *u.t = std::move(*o.t);
                        u.m = o.m;
                        o.m.clear();
                        break;
                    case 18:
                    {
                        // managed elements compare by address
                        auto managed = [](const cells& m) {
                            for (auto& x : m)
                            {
                                bool ptr = false;
                                Kit::with(x.k, [&]<typename K>() { ptr = std::is_pointer_v<typename K::T>; });
                                if (ptr)
                                    return true;
                            }
                            return false;
                        };
                        bool same = o.m == cm;
                        if (managed(o.m) || managed(cm))
                        {
                            (void)(common == *o.t);
                            break;
                        }
                        if ((common == *o.t) != same || (*o.t != common) == same)
                            j.error = "comparison with the common container is wrong";
                        break;
                    }
                    case 19:
                        o.t->shrink_to_fit();
                        break;
                    case 20:
                    {
                        M x = o.t->clone();
                        if (p.id & 1)
                            x.push_back(int32_t(7));
                        break;
                    }
                    default:
                        put(*o.t, o.m, p);
                        break;
                }
                if (!j.error.empty())
                    j.error = std::string("after ") + name(p.code) + ": " + j.error;
            }
        }
        catch (const std::exception& e)
        {
            j.error = std::string("unexpected exception: ") + e.what();
        }
    }

    // draws one operation that is valid for contents m (u: the other container's)
    static bool draw(src& c, op& p, size_t m, size_t u, bool threaded, int& id)
    {
        p.a = p.b = p.n = 0;
        p.k = int(c.below(Kit::n));
        p.id = id++;
        switch (p.code)
        {
            case 0:
                if (!m)
                    return false;
                p.a = c.below(m);
                break;
            case 1:
                if (!m)
                    return false;
                p.a = c.below(m);
                p.n = 1 + c.below(m - p.a);
                id += int(p.n);
                break;
            case 2:
            case 5:
                if (!m || m > 60)
                    return false;
                p.a = c.below(m);
                p.n = 1 + c.below(5);
                id += int(p.n);
                break;
            case 3:
            case 4:
                if (!m)
                    return false;
                p.a = c.below(m);
                p.b = p.a + c.below(m - p.a);
                break;
            case 6:
                if (m > 60)
                    return false;
                break;
            case 7:
                p.n = c.below(m + 4);
                break;
            case 11:
            case 12:
            {
                if (!m || !u)
                    return false;
                size_t len = 1 + c.below(std::min(m, u));
                p.a = c.below(m - len + 1);
                p.b = p.a + len - 1;
                p.n = c.below(u - len + 1);
                break;
            }
            default:
                break;
        }
        return threaded || p.code <= 8;
    }

    static size_t after(const op& p, size_t m)
    {
        switch (p.code)
        {
            case 2:
            case 5:
                return m + p.n;
            case 3:
                return m - (p.b - p.a + 1);
            case 6:
                return m + 1;
            case 7:
                return p.n;
            case 8:
                return 0;
            default:
                return m;
        }
    }

    static M dup(src& c, const M& x)
    {
        if constexpr (Kit::copyable)
            if (c.coin())
                return M(x);
        return x.clone();
    }

    static void run(src& c)
    {
        long live1 = cobj::live, live2 = uobj::live;
        {
            int id = 1;
            M source(1 + c.below(20));
            cells sm(source.size());
            for (size_t i = 0; i < 20 && c.more(5); ++i)
            {
                c.span();
                op p{int(c.weighted({4, 6, 3, 1, 2, 1, 3})), 0, 0, 0, 0, 0, 0};
                if (draw(c, p, sm.size(), 0, false, id))
                    put(source, sm, p);
            }
            size_t nt = 2 + c.below(3);
            std::vector<job> jobs(nt);
            // the borrowers are made on this thread
            bool shared_common = c.coin();
            std::optional<M> common;
            cells cm = sm;
            size_t borrowers = 0;
            for (auto& j : jobs)
                for (auto& o : j.o)
                    if (&o == &j.o[0] || c.coin())
                    {
                        o.t = std::make_unique<M>(dup(c, source));
                        o.m = sm;
                        ++borrowers;
                    }
                    else
                        o.t = std::make_unique<M>();
            if (shared_common)
                common.emplace(dup(c, source)); // shares with the borrowers
            else
            {
                common.emplace(1);
                cm.assign(1, cell());
                for (size_t i = 0; i < 4; ++i)
                {
                    op p{int(c.weighted({4, 6, 3, 0, 2, 1, 3})), 0, 0, 0, 0, 0, 0};
                    if (draw(c, p, cm.size(), 0, false, id))
                        put(*common, cm, p);
                }
            }
            if (c.coin())
            {
                source.clear(); // the origin leaves the group
                sm.clear();
            }
            VF_LOG(c, nt << " threads, " << borrowers << " borrowers of a container of " << cm.size() << " elements; the common container "
                         << (shared_common ? "shares with them" : "is separate"));
            size_t writers = 0;
            for (size_t t = 0; t < nt; ++t)
            {
                job& j = jobs[t];
                size_t sz[2] = {j.o[0].m.size(), j.o[1].m.size()};
                bool writes = false;
                for (size_t i = 0; i < 30 && c.more(6); ++i)
                {
                    c.span();
                    op p{int(c.weighted({5, 4, 3, 3, 3, 2, 3, 2, 1, 3, 1, 3, 3, 3, 4, 5, 1, 1, 2, 1, 2})), int(c.chance(1, 4)), 0, 0, 0, 0, 0};
                    if (!draw(c, p, sz[p.w], sz[1 - p.w], true, id))
                        continue;
                    switch (p.code)
                    {
                        case 9:
                            sz[1 - p.w] = sz[p.w];
                            break;
                        case 10:
                            std::swap(sz[0], sz[1]);
                            break;
                        case 16:
                            sz[p.w] = 0;
                            break;
                        case 17:
                            sz[1 - p.w] = sz[p.w];
                            sz[p.w] = 0;
                            break;
                        default:
                            sz[p.w] = after(p, sz[p.w]);
                            break;
                    }
                    if (p.code <= 8 || p.code == 11 || p.code == 12 || p.code == 13)
                        writes = true;
                    VF_LOG(c, "thread " << t << ", container " << p.w << ": " << name(p.code) << " (a=" << p.a << ", b=" << p.b << ", n=" << p.n << ", kind " << p.k << ")");
                    j.ops.push_back(p);
                }
                writers += writes;
            }
            std::atomic<int> ready{0};
            std::vector<std::thread> ths;
            const M& cc = *common;
            for (auto& j : jobs)
                ths.emplace_back([&j, &ready, &cc, &cm, nt] {
                    ready.fetch_add(1);
                    while (ready.load() < int(nt))
                        std::this_thread::yield();
                    run_job(j, cc, cm);
                });
            for (auto& t : ths)
                t.join();
            for (size_t t = 0; t < nt; ++t)
            {
                VF_CHECK(jobs[t].error.empty(), "thread " << t << ": " << jobs[t].error);
                for (int w = 0; w < 2; ++w)
                {
                    std::string e = diff(*jobs[t].o[w].t, jobs[t].o[w].m);
                    VF_CHECK(e.empty(), "thread " << t << ", container " << w << " at the end: " << e);
                }
            }
            std::string e = diff(cc, cm);
            VF_CHECK(e.empty(), "the common container at the end: " << e);
            e = diff(source, sm);
            VF_CHECK(e.empty(), "the source at the end: " << e);
            VF_COVER(c, shared_common ? "the common container shares" : "the common container is separate");
            if (writers >= 2 && cm.size() >= 2)
                c.nontrivial();
        }
        VF_CHECK(cobj::live == live1 && uobj::live == live2, "managed objects left over: " << cobj::live - live1 << " copyable, " << uobj::live - live2 << " cloneable");
    }
};

#define MT_RULE "2 to 4 threads, each running its own generated history on its own borrowers of one container while all read a common one; non-trivial: at least 2 threads change their containers and the common one has 2 or more elements"
VF_PROPERTY("C32", (mt<kit_copy, true, true>::run), MT_RULE, 4);
VF_PROPERTY("C32", (mt<kit_clone, true, true>::run), MT_RULE, 3);
VF_PROPERTY("C32", (mt<kit_copy, false, true>::run), MT_RULE, 1);
VF_PROPERTY("C32", (mt<kit_copy, false, false>::run), MT_RULE, 1);

VF_MAIN
