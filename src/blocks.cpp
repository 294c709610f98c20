// Element blocks and the functions that act on them by type (C35): random
// histories of calls on a pool of blocks against plain sequences.
#include "vf.hpp"
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/block_funcs.hpp>
#include <mdds/multi_type_vector/types.hpp>
#include <deque>
#include <memory>
#include <vector>

using vf::src;
namespace mtv = mdds::mtv;
using mtv::base_element_block;
using mtv::element_t;

struct bobj
{
    int v;
    inline static long live = 0;
    inline static int fail = -1;
    explicit bobj(int i) : v(i) { ++live; }
    bobj(const bobj& o) : v(o.v)
    {
        if (fail >= 0 && fail-- == 0)
            throw std::runtime_error("copy");
        ++live;
    }
    bobj& operator=(const bobj&) = delete;
    bool operator==(const bobj& o) const { return v == o.v; }
    ~bobj() { --live; v = -1; }
};
struct uobj // cannot be copied
{
    int v;
    inline static long live = 0;
    explicit uobj(int i) : v(i) { ++live; }
    uobj(const uobj&) = delete;
    bool operator==(const uobj& o) const { return v == o.v; }
    ~uobj() { --live; v = -1; }
};
struct pod
{
    int a = 0;
    double b = 0;
    bool operator==(const pod& o) const { return a == o.a && b == o.b; }
};

template<typename B>
struct K_num
{
    using Blk = B;
    using T = typename B::value_type;
    static constexpr int zero = 0; // the id of a value-initialised element
    static constexpr bool managed = false, copyable = true;
    static T make(int i) { return T(i); }
    static bool eq(const T& v, int i) { return v == T(i); }
};
template<typename B>
struct K_bool : K_num<B>
{
    static bool make(int i) { return i & 1; }
    static bool eq(bool v, int i) { return v == bool(i & 1); }
};
template<typename B>
struct K_str : K_num<B>
{
    static std::string make(int i) { return i == 0 ? std::string() : i % 3 ? "s" + std::to_string(i) : std::string(size_t(18 + i % 9), char('a' + i % 26)) + std::to_string(i); }
    static bool eq(const std::string& v, int i) { return v == make(i); }
};
template<typename B>
struct K_pod : K_num<B>
{
    static pod make(int i) { return pod{i, i * 0.5}; }
    static bool eq(const pod& v, int i) { return v == make(i); }
};
template<typename B, typename O, bool Copy>
struct K_obj
{
    using Blk = B;
    using T = O*;
    static constexpr int zero = -1; // a null pointer
    static constexpr bool managed = true, copyable = Copy;
    static O* make(int i) { return i == zero ? nullptr : new O(i); }
    static bool eq(const O* v, int i) { return i == zero ? v == nullptr : v && v->v == i; }
};

template<typename A, typename B>
using VEC = std::vector<A, B>;
template<typename A, typename B>
using DEQ = std::deque<A, B>;
template<typename A, typename B>
using DDV = mtv::delayed_delete_vector<A, B>;

template<template<typename, typename> class S>
struct kinds
{
    using ib = mtv::default_element_block<50, int32_t, S>;
    using bb = mtv::default_element_block<51, bool, S>;
    using sb = mtv::default_element_block<52, std::string, S>;
    using pb = mtv::default_element_block<53, pod, S>;
    using mb = mtv::managed_element_block<54, bobj, S>;
    using nb = mtv::noncopyable_managed_element_block<55, uobj, S>;
    using funcs = mtv::element_block_funcs<ib, bb, sb, pb, mb, nb>;
    using fewer = mtv::element_block_funcs<ib>; // does not know most of the types
};

template<typename Kinds, typename K>
struct block_case
{
    using Blk = typename K::Blk;
    using T = typename K::T;
    using F = typename Kinds::funcs;

    struct slot
    {
        base_element_block* b = nullptr;
        std::vector<int> m;
    };

    src& c;
    std::vector<slot> pool;
    size_t ops = 0, nontriv = 0;

    explicit block_case(src& c_) : c(c_) {}

    static long live() { return bobj::live + uobj::live; }

    // ---- the judge

    void check(const slot& s, const char* name)
    {
        const base_element_block& b = *s.b;
        size_t n = s.m.size();
        VF_CHECK(mtv::get_block_type(b) == Blk::block_type, name << ": the block has another type");
        VF_CHECK(Blk::size(b) == n && F::size(b) == n, name << ": the block has " << Blk::size(b) << " elements, expected " << n);
        size_t i = 0;
        for (auto it = Blk::cbegin(b); it != Blk::cend(b); ++it, ++i)
            VF_CHECK(i < n && K::eq(*it, s.m[i]), name << ": element " << i << " is wrong");
        VF_CHECK(i == n, name << ": " << i << " elements traversed, expected " << n);
        for (auto it = Blk::crbegin(b); it != Blk::crend(b); ++it)
        {
            --i;
            VF_CHECK(i < n && K::eq(*it, s.m[i]), name << ": element " << i << " is wrong backwards");
        }
        VF_CHECK(i == 0, name << ": the backward traversal is short of " << i);
        i = 0;
        for (const auto& v : Blk::range(b))
        {
            VF_CHECK(i < n && K::eq(v, s.m[i]), name << ": element " << i << " of the range is wrong");
            ++i;
        }
        VF_CHECK(i == n, name << ": the range has " << i << " elements");
        if (n)
        {
            size_t p = c.below(n);
            VF_CHECK(K::eq(Blk::get_value(b, p), s.m[p]), name << ": get_value(" << p << ") is wrong");
            T v{};
            Blk::get_value(b, p, v);
            VF_CHECK(K::eq(v, s.m[p]), name << ": get_value(" << p << ", out) is wrong");
            VF_CHECK(K::eq(mtv::detail::get_block_element_at<Blk>(b, p), s.m[p]), name << ": get_block_element_at(" << p << ") is wrong");
        }
        VF_CHECK(Blk::capacity(b) >= n || Blk::capacity(b) == 0, name << ": a capacity of " << Blk::capacity(b) << " for " << n << " elements");
    }

    void check_all()
    {
        size_t objs = 0;
        for (size_t i = 0; i < pool.size(); ++i)
        {
            check(pool[i], i == 0 ? "A" : i == 1 ? "B" : "C");
            if (K::managed)
                objs += size_t(std::count_if(pool[i].m.begin(), pool[i].m.end(), [](int v) { return v != K::zero; }));
        }
        VF_CHECK(size_t(live()) == objs, "there are " << live() << " objects, the blocks hold " << objs);
    }

    int fresh() { return 1 + int(c.below(60)); }
    std::vector<int> ids(size_t max)
    {
        std::vector<int> v;
        for (size_t n = c.below(max + 1); n; --n)
            v.push_back(fresh());
        return v;
    }
    static std::vector<T> make(const std::vector<int>& v)
    {
        std::vector<T> r;
        for (int i : v)
            r.push_back(K::make(i));
        return r;
    }
    static const char* nm(size_t i) { return i == 0 ? "A" : i == 1 ? "B" : "C"; }

    bool run()
    {
        long base = live();
        VF_CHECK(base == 0, "objects left by an earlier case");
        size_t np = 2 + c.below(2);
        pool.resize(np);
        for (slot& s : pool)
        {
            auto v = ids(12);
            auto vals = make(v);
            switch (c.below(K::managed ? 2 : 3))
            {
                case 0: s.b = Blk::create_block_with_values(vals.begin(), vals.end()); s.m = v; break;
                case 1:
                {
                    // value-initialised, then filled
                    s.b = F::create_new_block(Blk::block_type, v.size());
                    Blk::set_values(*s.b, 0, vals.begin(), vals.end());
                    s.m = v;
                    break;
                }
                case 2:
                    if (!v.empty())
                    {
                        if constexpr (!K::managed)
                            s.b = Blk::create_block_with_value(v.size(), K::make(v[0]));
                        s.m.assign(v.size(), v[0]);
                    }
                    else
                        s.b = Blk::create_block(0);
                    break;
            }
        }
        check_all();
        bool ok = true;
        while (c.more(30) && ops < 300)
        {
            ++ops;
            step();
            check_all();
        }
        for (slot& s : pool)
            F::delete_block(s.b);
        F::delete_block(nullptr);
        VF_CHECK(live() == 0, live() << " objects are left when all blocks are deleted");
        return ok;
    }

    void step()
    {
        size_t si = c.below(pool.size()), oi = (si + 1 + c.below(pool.size() - 1)) % pool.size();
        slot& s = pool[si];
        slot& o = pool[oi];
        base_element_block& b = *s.b;
        size_t n = s.m.size();
        // a part of s and of o
        size_t p = c.below(n + 1), len = c.below(n - p + 1);
        size_t on = o.m.size(), op = c.below(on + 1), olen = c.below(on - op + 1);
        if (c.chance(1, 6))
        {
            op = 0;
            olen = on;
        }
        bool direct = c.coin(); // the function of the block, or the one found by type
        unsigned k = c.below(24);
        auto sub = [](const std::vector<int>& m, size_t a, size_t l) { return std::vector<int>(m.begin() + long(a), m.begin() + long(a + l)); };
        auto cut = [](std::vector<int>& m, size_t a, size_t l) { m.erase(m.begin() + long(a), m.begin() + long(a + l)); };
        auto paste = [](std::vector<int>& m, size_t a, const std::vector<int>& v) { m.insert(m.begin() + long(a), v.begin(), v.end()); };
        auto drop = [&](base_element_block& x, size_t a, size_t l) { if (direct) Blk::overwrite_values(x, a, l); else F::overwrite_values(x, a, l); };
        auto erase = [&](base_element_block& x, size_t a, size_t l) {
            if (l == 1 && c.coin())
            {
                if (direct) Blk::erase_value(x, a); else F::erase(x, a);
            }
            else if (direct) Blk::erase_values(x, a, l); else F::erase(x, a, l);
        };
#define LOG(e) VF_LOG(c, nm(si) << " (" << n << "): " << e)
        switch (k)
        {
            case 0:
                if (p < n)
                {
                    int i = fresh();
                    LOG("set_value " << p);
                    drop(b, p, 1);
                    Blk::set_value(b, p, K::make(i));
                    s.m[p] = i;
                }
                break;
            case 1:
            {
                int i = fresh();
                LOG("append_value");
                Blk::append_value(b, K::make(i));
                s.m.push_back(i);
                break;
            }
            case 2:
            {
                int i = fresh();
                LOG("emplace_back_value");
                Blk::emplace_back_value(b, K::make(i));
                s.m.push_back(i);
                break;
            }
            case 3:
            {
                int i = fresh();
                LOG("prepend_value");
                Blk::prepend_value(b, K::make(i));
                s.m.insert(s.m.begin(), i);
                break;
            }
            case 4: case 5:
                LOG("erase " << p << " +" << len);
                drop(b, p, len);
                erase(b, p, len);
                cut(s.m, p, len);
                break;
            case 6:
            {
                size_t ns = c.chance(1, 4) ? n + c.below(20) : c.below(n + 6);
                LOG("resize_block " << ns);
                if (ns < n)
                    drop(b, ns, n - ns);
                if (direct) Blk::resize_block(b, ns); else F::resize_block(b, ns);
                s.m.resize(ns, K::zero);
                break;
            }
            case 7:
            {
                LOG("append_block " << nm(oi));
                if (direct) Blk::append_block(b, *o.b); else F::append_block(b, *o.b);
                paste(s.m, n, o.m);
                if constexpr (K::managed) // the objects have moved over
                {
                    if (direct) Blk::resize_block(*o.b, 0); else F::resize_block(*o.b, 0);
                    o.m.clear();
                }
                ++nontriv;
                break;
            }
            case 8: case 9:
            {
                bool front = k == 8;
                LOG((front ? "prepend" : "append") << "_values_from_block " << nm(oi) << " " << op << " +" << olen);
                if (front)
                {
                    if (direct) Blk::prepend_values_from_block(b, *o.b, op, olen); else F::prepend_values_from_block(b, *o.b, op, olen);
                }
                else if (direct) Blk::append_values_from_block(b, *o.b, op, olen); else F::append_values_from_block(b, *o.b, op, olen);
                paste(s.m, front ? 0 : n, sub(o.m, op, olen));
                if constexpr (K::managed)
                {
                    erase(*o.b, op, olen);
                    cut(o.m, op, olen);
                }
                ++nontriv;
                break;
            }
            case 10:
            {
                LOG("assign_values_from_block " << nm(oi) << " " << op << " +" << olen);
                drop(b, 0, n);
                if (direct) Blk::assign_values_from_block(b, *o.b, op, olen); else F::assign_values_from_block(b, *o.b, op, olen);
                s.m = sub(o.m, op, olen);
                if constexpr (K::managed)
                {
                    erase(*o.b, op, olen);
                    cut(o.m, op, olen);
                }
                ++nontriv;
                break;
            }
            case 11: case 12:
            {
                size_t l = std::min(len, on - op);
                LOG("swap_values " << p << " with " << nm(oi) << " " << op << " +" << l);
                if (direct) Blk::swap_values(b, *o.b, p, op, l); else F::swap_values(b, *o.b, p, op, l);
                std::swap_ranges(s.m.begin() + long(p), s.m.begin() + long(p + l), o.m.begin() + long(op));
                if (l)
                    ++nontriv;
                break;
            }
            case 13:
            {
                auto v = ids(n - p);
                auto vals = make(v);
                LOG("set_values " << p << " x" << v.size());
                drop(b, p, v.size());
                Blk::set_values(b, p, vals.begin(), vals.end());
                std::copy(v.begin(), v.end(), s.m.begin() + long(p));
                break;
            }
            case 14: case 15: case 16:
            {
                auto v = ids(6);
                if (v.empty() && k == 16)
                    break; // libstdc++'s deque moves elements onto themselves then
                auto vals = make(v);
                std::deque<T> dv(vals.begin(), vals.end()); // another kind of iterator
                size_t at = k == 14 ? n : k == 15 ? 0 : p;
                LOG((k == 14 ? "append_values" : k == 15 ? "prepend_values" : "insert_values") << " " << at << " x" << v.size());
                if (k == 14)
                {
                    if (direct) Blk::append_values(b, vals.begin(), vals.end()); else Blk::append_values(b, dv.begin(), dv.end());
                }
                else if (k == 15)
                {
                    if (direct) Blk::prepend_values(b, vals.begin(), vals.end()); else Blk::prepend_values(b, dv.begin(), dv.end());
                }
                else if (direct) Blk::insert_values(b, at, vals.begin(), vals.end()); else Blk::insert_values(b, at, dv.begin(), dv.end());
                paste(s.m, at, v);
                break;
            }
            case 17:
            {
                auto v = ids(8);
                auto vals = make(v);
                LOG("assign_values x" << v.size());
                drop(b, 0, n);
                Blk::assign_values(b, vals.begin(), vals.end());
                s.m = v;
                break;
            }
            case 18:
            {
                size_t r = c.below(40);
                LOG("reserve " << r);
                Blk::reserve(b, r);
                if constexpr (requires { Blk::get(b).store().capacity(); })
                    VF_CHECK(Blk::capacity(b) >= r, "a capacity of " << Blk::capacity(b) << " after reserve(" << r << ")");
                break;
            }
            case 19:
                LOG("shrink_to_fit");
                if (direct) Blk::shrink_to_fit(b); else F::shrink_to_fit(b);
                break;
            case 20: duplicate(s, o, si, n); break;
            case 21: compare(s, o); break;
            case 22: odd_calls(s, o); break;
            case 23:
                if constexpr (!K::managed)
                {
                    // writing through what the accessors refer to
                    if (p < n)
                    {
                        int i = fresh();
                        LOG("write element " << p);
                        switch (c.below(3))
                        {
                            case 0: *std::next(Blk::begin(b), long(p)) = K::make(i); break;
                            case 1: *std::next(Blk::rbegin(b), long(n - 1 - p)) = K::make(i); break;
                            case 2: *std::next(Blk::range(b).begin(), long(p)) = K::make(i); break;
                        }
                        s.m[p] = i;
                    }
                }
                break;
        }
    }

    void duplicate(slot& s, slot& o, size_t si, size_t n)
    {
        bool clone = c.coin();
        const char* what = clone ? "clone_block" : "copy_block";
        LOG(what);
        VF_CHECK(F::is_copyable(*s.b) == K::copyable, "is_copyable is wrong");
        if constexpr (!K::copyable)
        {
            bool refused = false;
            try
            {
                base_element_block* p = clone ? F::clone_block(*s.b) : F::copy_block(*s.b);
                F::delete_block(p);
            }
            catch (const mtv::element_block_error&)
            {
                refused = true;
            }
            VF_CHECK(refused, what << " of a noncopyable block is not refused");
        }
        else
        {
            for (int v : s.m)
                if (K::managed && v == K::zero)
                    return; // copying dereferences the objects
            bool fault = K::managed && n && c.chance(1, 4);
            if (fault)
                bobj::fail = int(c.below(n));
            base_element_block* p = nullptr;
            try
            {
                p = clone ? F::clone_block(*s.b) : F::copy_block(*s.b);
            }
            catch (const std::runtime_error& e)
            {
                VF_CHECK(fault && std::string(e.what()) == "copy", what << " threw " << e.what());
            }
            bobj::fail = -1;
            VF_CHECK(!p == fault, what << " ignored a failing copy");
            if (!p)
                return;
            slot t{p, s.m};
            check(t, "the copy");
            if constexpr (!K::managed)
                VF_CHECK(F::equal_block(*s.b, *p) && Blk::equal_block(*p, *s.b), "a copy is not equal to the original");
            // goes on in place of another block
            F::delete_block(o.b);
            o = t;
            ++nontriv;
        }
    }

    void compare(slot& s, slot& o)
    {
        VF_LOG(c, "equal_block");
        for (int v : s.m)
            if (K::managed && v == K::zero)
                return;
        for (int v : o.m)
            if (K::managed && v == K::zero)
                return;
        VF_CHECK(F::equal_block(*s.b, *s.b), "a block is not equal to itself");
        bool same = s.m.size() == o.m.size() && std::equal(s.m.begin(), s.m.end(), o.m.begin(), [](int x, int y) {
            if constexpr (K::managed)
                return x == y;
            else
                return K::eq(K::make(x), y);
        });
        // managed copyable blocks compare addresses: only "different" is judged
        if (!K::managed || !K::copyable || !same)
        {
            VF_CHECK(F::equal_block(*s.b, *o.b) == same && Blk::equal_block(*o.b, *s.b) == same, "equal_block is " << !same);
            if constexpr (!K::managed)
                VF_CHECK((Blk::get(*s.b) == Blk::get(*o.b)) == same && (Blk::get(*s.b) != Blk::get(*o.b)) == !same, "operator== of blocks is " << !same);
        }
    }

    void odd_calls(slot& s, slot& o)
    {
        VF_LOG(c, "calls that must be refused");
        base_element_block& b = *s.b;
        if constexpr (requires { Blk::at(b, 0); } && !std::is_same_v<T, bool>)
        {
            size_t q = s.m.size() + c.below(3);
            bool thrown = false;
            try
            {
                (void)Blk::at(b, q);
            }
            catch (const std::out_of_range&)
            {
                thrown = true;
            }
            VF_CHECK(thrown, "at(" << q << ") of " << s.m.size() << " elements is not refused");
            for (size_t i = 0; i < s.m.size(); ++i)
                VF_CHECK(K::eq(Blk::at(b, i), s.m[i]) && K::eq(Blk::at(std::as_const(b), i), s.m[i]), "at(" << i << ") is wrong");
        }
        if constexpr (requires { Blk::get(b).store().data(); } && !std::is_same_v<T, bool>)
        {
            auto* d = Blk::data(b);
            for (size_t i = 0; i < s.m.size(); ++i)
                VF_CHECK(K::eq(d[i], s.m[i]), "data()[" << i << "] is wrong");
        }
        if constexpr (K::managed)
        {
            bool thrown = false;
            std::unique_ptr<std::remove_pointer_t<T>> v(K::make(fresh()));
            try
            {
                F::delete_block(Blk::create_block_with_value(2 + c.below(3), v.get()));
            }
            catch (const mdds::general_error&)
            {
                thrown = true;
            }
            VF_CHECK(thrown, "a managed block of several equal objects is created");
            base_element_block* one = Blk::create_block_with_value(1, v.release());
            VF_CHECK(Blk::size(*one) == 1, "a block of one object has " << Blk::size(*one));
            F::delete_block(one);
        }
        // a type that the functions do not know
        using G = typename Kinds::fewer;
        if constexpr (Blk::block_type != Kinds::ib::block_type)
        {
            auto refused = [&](const char* what, auto f) {
                bool thrown = false;
                try
                {
                    f();
                }
                catch (const mdds::general_error&)
                {
                    thrown = true;
                }
                VF_CHECK(thrown, what << " accepts a block of an unknown type");
            };
            refused("create_new_block", [&] { G::create_new_block(Blk::block_type, 1); });
            refused("copy_block", [&] { G::copy_block(b); });
            refused("clone_block", [&] { G::clone_block(b); });
            refused("is_copyable", [&] { G::is_copyable(b); });
            refused("resize_block", [&] { G::resize_block(b, 3); });
            refused("erase", [&] { G::erase(b, 0); });
            refused("erase (range)", [&] { G::erase(b, 0, 1); });
            refused("append_block", [&] { G::append_block(b, *o.b); });
            refused("append_values_from_block", [&] { G::append_values_from_block(b, *o.b, 0, 0); });
            refused("assign_values_from_block", [&] { G::assign_values_from_block(b, *o.b, 0, 0); });
            refused("prepend_values_from_block", [&] { G::prepend_values_from_block(b, *o.b, 0, 0); });
            refused("swap_values", [&] { G::swap_values(b, *o.b, 0, 0, 0); });
            refused("equal_block", [&] { G::equal_block(b, *o.b); });
            refused("overwrite_values", [&] { G::overwrite_values(b, 0, 0); });
            refused("shrink_to_fit", [&] { G::shrink_to_fit(b); });
            refused("size", [&] { G::size(b); });
            base_element_block* other = F::create_new_block(Kinds::ib::block_type, s.m.size());
            VF_CHECK(!F::equal_block(*other, b) && !F::equal_block(b, *other), "blocks of different types are equal");
            F::delete_block(other);
        }
    }
#undef LOG
};

template<template<typename, typename> class S>
void run_store(src& c)
{
    using KS = kinds<S>;
    size_t nt = 0;
    auto go = [&]<typename K>() {
        block_case<KS, K> t(c);
        bobj::live = uobj::live = 0;
        bobj::fail = -1;
        t.run();
        nt = t.nontriv;
    };
    switch (c.below(6))
    {
        case 0: go.template operator()<K_num<typename KS::ib>>(); break;
        case 1: go.template operator()<K_bool<typename KS::bb>>(); break;
        case 2: go.template operator()<K_str<typename KS::sb>>(); break;
        case 3: go.template operator()<K_pod<typename KS::pb>>(); break;
        case 4: go.template operator()<K_obj<typename KS::mb, bobj, true>>(); break;
        case 5: go.template operator()<K_obj<typename KS::nb, uobj, false>>(); break;
    }
    if (nt >= 2)
        c.nontrivial();
}

#define BLOCK_RULE "histories of calls on 2 or 3 blocks of one of six types of values; non-trivial: at least two calls moved values between blocks or copied a block"
#if VF_IN(0)
VF_PROPERTY("C35", run_store<DDV>, BLOCK_RULE, 2);
#endif
#if VF_IN(1)
VF_PROPERTY("C35", run_store<VEC>, BLOCK_RULE, 2);
#endif
#if VF_IN(2)
VF_PROPERTY("C35", run_store<DEQ>, BLOCK_RULE, 1);
#endif

VF_MAIN
