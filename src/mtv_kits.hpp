// Element kinds, kits, event monitor and traits shared by the
// multi_type_vector, collection and matrix harnesses.
#pragma once

#include "vf.hpp"
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <vector>

using mdds::mtv::base_element_block;
using mdds::mtv::element_t;

// ------------------------------------------------------------- element types

struct copy_throw
{
};

template<int Tag>
struct tracked
{
    int v = 0;
    inline static long live = 0;
    inline static long made = 0;
    inline static long countdown = -1; // >= 0: copies left before one throws
    explicit tracked(int i) : v(i) { ++live; ++made; }
    tracked(const tracked& o) : v(o.v)
    {
        if (countdown >= 0 && countdown-- == 0)
            throw copy_throw();
        ++live;
        ++made;
    }
    tracked& operator=(const tracked&) = delete;
    bool operator==(const tracked& o) const { return v == o.v; }
    ~tracked() { --live; v = -12345; }
    std::string payload = std::string(20, 'p'); // gives ASan something to see
};

// managed, copyable; managed, cloneable only; managed, neither
using mobj = tracked<1>;
using nobj = tracked<2>;
using xobj = tracked<3>;

namespace own {

template<int N>
struct wrap
{
    std::string s;
    int v = 0;
    wrap() = default;
    explicit wrap(int i) : s(i % 3 ? std::string() : std::string(size_t(i % 40), 'w')), v(i) {}
    bool operator==(const wrap& o) const { return v == o.v && s == o.s; }
    bool operator!=(const wrap& o) const { return !(*this == o); }
};
using wv = wrap<0>; // std::vector store
using wd = wrap<1>; // std::deque store
using wx = wrap<2>; // the default store

} // namespace own

using mobj_block = mdds::mtv::managed_element_block<50, mobj>;
using nobj_block = mdds::mtv::noncopyable_managed_element_block<51, nobj>;
using xobj_block = mdds::mtv::noncopyable_managed_element_block<52, xobj, std::vector>;
using wv_block = mdds::mtv::default_element_block<60, own::wv, std::vector>;
using wd_block = mdds::mtv::default_element_block<61, own::wd, std::deque>;
using wx_block = mdds::mtv::default_element_block<62, own::wx>;

MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(mobj, 50, nullptr, mobj_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(nobj, 51, nullptr, nobj_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(xobj, 52, nullptr, xobj_block)
namespace own {
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(wv, 60, wv(), wv_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(wd, 61, wd(), wd_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(wx, 62, wx(), wx_block)
}

namespace mdds { namespace mtv {
template<>
struct clone_value<nobj*>
{
    nobj* operator()(const nobj* p) const { return p ? new nobj(*p) : nullptr; }
};
}} // namespace mdds::mtv

// -------------------------------------------------------------------- kinds

template<typename V, typename B, typename R = std::vector<V>>
struct kind_base
{
    using T = V;
    using Blk = B;
    using range = R;
    static constexpr bool managed = false;
    static constexpr bool copyable = true;
    static constexpr bool cloneable = true;
    static T make(int i) { return V(i); }
    static bool eq(const T& v, int i) { return v == V(i); }
    static void dispose(const T&) {}
    static const void* ptr(const T&) { return nullptr; }
    static T none() { return T(); }
};
struct K_bool : kind_base<bool, mdds::mtv::boolean_element_block, std::deque<bool>>
{
    static bool make(int i) { return i & 1; }
    static bool eq(bool v, int i) { return v == bool(i & 1); }
};
struct K_i8 : kind_base<int8_t, mdds::mtv::int8_element_block, std::deque<int8_t>>
{
};
struct K_i32 : kind_base<int32_t, mdds::mtv::int32_element_block>
{
};
struct K_u64 : kind_base<uint64_t, mdds::mtv::uint64_element_block>
{
};
struct K_dbl : kind_base<double, mdds::mtv::double_element_block>
{
    static double make(int i) { return i * 0.5 - 7; }
    static bool eq(double v, int i) { return v == i * 0.5 - 7; }
};
struct K_str : kind_base<std::string, mdds::mtv::string_element_block, std::list<std::string>>
{
    static std::string make(int i) { return i % 5 == 0 ? std::string(size_t(i % 60), 'x') : "s" + std::to_string(i); }
    static bool eq(const std::string& v, int i) { return v == make(i); }
};
struct K_wv : kind_base<own::wv, wv_block>
{
};
struct K_wd : kind_base<own::wd, wd_block, std::list<own::wd>>
{
};
struct K_wx : kind_base<own::wx, wx_block, std::deque<own::wx>>
{
};
template<typename O, typename B, bool Copyable, bool Cloneable, typename R = std::vector<O*>>
struct kind_ptr
{
    using T = O*;
    using Blk = B;
    using range = R;
    using obj = O;
    static constexpr bool managed = true;
    static constexpr bool copyable = Copyable;
    static constexpr bool cloneable = Cloneable;
    static T make(int i) { return new O(i); }
    static bool eq(const T& v, int i) { return v && v->v == i; }
    static void dispose(const T& p) { delete p; }
    static const void* ptr(const T& p) { return p; }
    static T none() { return nullptr; }
};
struct K_m : kind_ptr<mobj, mobj_block, true, true>
{
};
struct K_n : kind_ptr<nobj, nobj_block, false, true, std::deque<nobj*>>
{
};
struct K_x : kind_ptr<xobj, xobj_block, false, false, std::list<xobj*>>
{
};

template<typename... Ks>
struct kit
{
    static constexpr size_t n = sizeof...(Ks);
    template<size_t I>
    using at = std::tuple_element_t<I, std::tuple<Ks...>>;
    using funcs = mdds::mtv::element_block_funcs<typename Ks::Blk...>;
    static constexpr bool any_managed = (Ks::managed || ...);
    static constexpr bool all_copyable = (Ks::copyable && ...);
    static constexpr bool all_cloneable = (Ks::cloneable && ...);
};

using kitA = kit<K_i32, K_str, K_bool, K_dbl, K_i8, K_u64>;
using kitB = kit<K_m, K_i32, K_n, K_str>;
using kitC = kit<K_wv, K_wd, K_wx, K_dbl>;
using kitD = kit<K_m, K_x, K_bool>;
using kitE = kit<K_i32, K_str, K_m>; // everything copyable

template<typename Kit, typename F>
void with_kind(unsigned k, F&& f)
{
    [&]<size_t... I>(std::index_sequence<I...>) {
        (void)((k == I ? (f.template operator()<typename Kit::template at<I>>(), true) : false) || ...);
    }(std::make_index_sequence<Kit::n>{});
}

template<typename Kit>
int kind_of_type(element_t t)
{
    int r = -1;
    [&]<size_t... I>(std::index_sequence<I...>) {
        (void)((t == Kit::template at<I>::Blk::block_type ? (r = int(I), true) : false) || ...);
    }(std::make_index_sequence<Kit::n>{});
    return r;
}
template<typename Kit>
element_t type_of_kind(int k)
{
    element_t r = mdds::mtv::element_type_empty;
    if (k >= 0)
        with_kind<Kit>(unsigned(k), [&]<typename K>() { r = K::Blk::block_type; });
    return r;
}

// ------------------------------------------------------------ event monitor

// Balances acquired against released events per block type.  (The container may
// rebuild a block it keeps without events, on purpose, so block addresses are
// not compared.)
struct ev
{
    std::map<element_t, long> live;
    inline static const char* bad = nullptr; // the first imbalance seen in this case
    static void note(const char* m)
    {
        if (!bad)
            bad = m;
    }
    bool idle() const
    {
        for (auto& [t, n] : live)
            if (n)
                return false;
        return true;
    }
    ev() = default;
    ev(const ev&) {}
    ev(ev&& o) noexcept : live(std::move(o.live)) { o.live.clear(); }
    ev& operator=(const ev&) { return *this; }
    ev& operator=(ev&& o) noexcept
    {
        if (this != &o)
        {
            if (!idle())
                note("an event handler that has blocks outstanding is overwritten");
            live = std::move(o.live);
            o.live.clear();
        }
        return *this;
    }
    ~ev()
    {
        if (!idle())
            note("a container went away with acquired blocks that were never released");
    }
    // the bookkeeping of the monitor itself is not subject to injected faults
    struct calm
    {
        long saved = vf::g_alloc.countdown;
        calm() { vf::g_alloc.countdown = -1; }
        ~calm() { vf::g_alloc.countdown = saved; }
    };
    void element_block_acquired(const base_element_block* b)
    {
        calm no_faults;
        if (!b)
            note("acquired event for a null block");
        else
            ++live[mdds::mtv::get_block_type(*b)];
    }
    void element_block_released(const base_element_block* b)
    {
        calm no_faults;
        if (!b)
            note("released event for a null block");
        else if (--live[mdds::mtv::get_block_type(*b)] < 0)
            note("more blocks of a type are released than were acquired");
    }
};

template<typename Kit, mdds::mtv::lu_factor_t LU, bool COW>
struct tr : mdds::mtv::default_traits
{
    using block_funcs = typename Kit::funcs;
    using event_func = ev;
    static constexpr mdds::mtv::lu_factor_t loop_unrolling = LU;
    static constexpr bool enable_cow = COW;
};

// The block functions keep lookup tables that are built on first use; build
// them outside the leak count.
template<typename Kit>
void warm_up()
{
    static const bool done = [] {
        long live = vf::g_alloc.live, bytes = vf::g_alloc.bytes;
        using B = typename Kit::funcs;
        auto first = Kit::template at<0>::Blk::block_type;
        base_element_block* a = B::create_new_block(first, 0);
        base_element_block* b = B::create_new_block(first, 0);
        try { B::delete_block(B::copy_block(*a)); } catch (...) {}
        try { B::delete_block(B::clone_block(*a)); } catch (...) {}
        auto attempt = [](auto f) { try { f(); } catch (...) {} };
        attempt([&] { B::is_copyable(*a); });
        attempt([&] { B::resize_block(*a, 0); });
        attempt([&] { B::erase(*a, 0, 0); });
        attempt([&] { B::append_block(*a, *b); });
        attempt([&] { B::append_values_from_block(*a, *b, 0, 0); });
        attempt([&] { B::assign_values_from_block(*a, *b, 0, 0); });
        attempt([&] { B::prepend_values_from_block(*a, *b, 0, 0); });
        attempt([&] { B::swap_values(*a, *b, 0, 0, 0); });
        attempt([&] { B::equal_block(*a, *b); });
        attempt([&] { B::overwrite_values(*a, 0, 0); });
        attempt([&] { B::shrink_to_fit(*a); });
        attempt([&] { B::size(*a); });
        {
            // erase of a single element
            mdds::mtv::soa::multi_type_vector<tr<Kit, mdds::mtv::lu_factor_t::none, false>> t(1);
            using K = typename Kit::template at<0>;
            using K1 = typename Kit::template at<1>;
            t.push_back(K::make(1));
            t.push_back(K::make(2));
            t.push_back(K::make(3));
            t.set(1, K1::make(1));
            t.set(3, K1::make(1));
        }
        B::delete_block(a);
        B::delete_block(b);
        vf::g_alloc.live = live;
        vf::g_alloc.bytes = bytes;
        return true;
    }();
    (void)done;
}
