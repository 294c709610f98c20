// The call tracing of the SoA multi_type_vector (C34): random histories on a
// traced container and on an untraced twin.
#include "vf.hpp"
#define MDDS_MULTI_TYPE_VECTOR_TRACE 1
#include <mdds/multi_type_vector.hpp>
#include <memory>
#include <optional>

using vf::src;
namespace mtv = mdds::mtv;
using M = mtv::trace_method_t;

struct report
{
    M type;
    const void* instance;
    std::string name, args;
};
inline std::vector<report> g_reports;
inline bool g_bad_place = false;

struct traced_base
{
    static void trace(const mtv::trace_method_properties_t& p)
    {
        if (!p.filepath || !*p.filepath || p.line_number <= 0)
            g_bad_place = true;
        g_reports.push_back({p.type, p.instance, p.function_name ? p.function_name : "", p.function_args});
    }
};

struct plain : mtv::standard_element_blocks_traits
{
};
struct traced : mtv::standard_element_blocks_traits, traced_base
{
};
struct cow_plain : mtv::standard_element_blocks_traits
{
    static constexpr bool enable_cow = true;
};
struct cow_traced : cow_plain, traced_base
{
};

using arg_list = std::vector<std::pair<const char*, uint64_t>>;

// the number that follows "<key>=", where an argument (or a note in brackets) starts
static std::optional<uint64_t> number_after(const std::string& args, const std::string& key)
{
    std::string k = key + "=";
    for (size_t p = args.find(k); p != std::string::npos; p = args.find(k, p + 1))
    {
        if (p && args[p - 1] != ' ' && args[p - 1] != '(' && args[p - 1] != ';' && args[p - 1] != ',')
            continue;
        if (args.rfind('{', p) != std::string::npos && args.find('}', p) != std::string::npos &&
            args.rfind('{', p) > (args.rfind('}', p) == std::string::npos ? 0 : args.rfind('}', p)))
            continue; // inside of a printed iterator
        size_t q = p + k.size(), e = q;
        while (e < args.size() && isdigit((unsigned char)args[e]))
            ++e;
        if (e == q)
            return std::nullopt;
        return std::stoull(args.substr(q, e - q));
    }
    return std::nullopt;
}

static std::string squash(const std::string& s)
{
    std::string r;
    for (char ch : s)
        if (ch != ' ')
            r += ch;
    return r;
}

template<typename TT, typename UT>
struct tracing_case
{
    using A = mtv::soa::multi_type_vector<TT>; // traced
    using B = mtv::soa::multi_type_vector<UT>; // its untraced twin
    static constexpr bool cow = TT::enable_cow;

    src& c;
    std::unique_ptr<A> a[2];
    std::unique_ptr<B> b[2];
    std::optional<typename A::iterator> ha[2];
    std::optional<typename B::iterator> hb[2];
    size_t calls = 0, throws = 0, kinds_seen = 0, shared = 0;
    std::map<std::string, int> seen;

    explicit tracing_case(src& c_) : c(c_) {}

    template<typename F>
    static std::string outcome(F f)
    {
        try
        {
            f();
        }
        catch (const std::out_of_range&)
        {
            return "out_of_range";
        }
        catch (const mdds::invalid_arg_error&)
        {
            return "invalid_arg_error";
        }
        catch (const mtv::shared_block_error&)
        {
            return "shared_block_error";
        }
        catch (const mdds::general_error&)
        {
            return "general_error";
        }
        catch (const vf::failure&)
        {
            throw;
        }
        catch (const std::exception&)
        {
            return "exception";
        }
        return "";
    }

    void judge(const void* self, const char* name, M type, const arg_list& args, const char* what)
    {
        VF_CHECK(!g_bad_place, what << ": the report has no file path or line number");
        size_t n = 0;
        for (const report& r : g_reports)
        {
            if (r.instance != self)
                continue;
            ++n;
            VF_CHECK(n == 1, what << ": one call is reported more than once (" << g_reports.size() << " reports, the second is '" << r.name << "')");
            VF_CHECK(squash(r.name) == name, what << ": reported as '" << r.name << "', expected '" << name << "'");
            VF_CHECK(r.type == type, what << ": reported with the method type " << int(r.type) << ", expected " << int(type));
            for (auto& [k, v] : args)
            {
                auto got = number_after(r.args, k);
                VF_CHECK(got, what << ": the argument '" << k << "' is missing from '" << r.args << "'");
                VF_CHECK(*got == v, what << ": the argument '" << k << "' is reported as " << *got << ", it was " << v << " ('" << r.args << "')");
            }
        }
        VF_CHECK(n == 1, what << ": the call is not reported (" << g_reports.size() << " reports of other containers)");
        ++calls;
        if (!seen[std::string(name) + char('0' + (int(type) & 15)) + (int(type) & 256 ? "h" : "")]++)
            ++kinds_seen;
    }

    // one call on container i: fa on the traced one, fb on the twin
    template<typename FA, typename FB>
    bool call(int i, const char* name, M type, const arg_list& args, FA fa, FB fb, const char* what)
    {
        VF_LOG(c, "container " << i << ": " << what);
        g_reports.clear();
        std::string oa = outcome(fa);
        judge(a[i].get(), name, type, args, what);
        std::string ob = outcome(fb);
        VF_CHECK(oa == ob, what << ": with tracing '" << oa << "', without '" << ob << "'");
        if (!oa.empty())
            ++throws;
        return oa.empty();
    }

    void compare()
    {
        for (int i = 0; i < 2; ++i)
        {
            const A& x = *a[i];
            const B& y = *b[i];
            VF_CHECK(x.size() == y.size(), "the traced container has " << x.size() << " elements, the untraced one " << y.size());
            VF_CHECK(x.block_size() == y.block_size(), "the traced container has " << x.block_size() << " blocks, the untraced one " << y.block_size());
            auto it = y.begin();
            for (auto n : x)
            {
                VF_CHECK(n.type == it->type && n.size == it->size && n.position == it->position, "block layouts differ");
                if (n.data)
                    VF_CHECK(mtv::element_t(n.type) == mtv::get_block_type(*n.data) && (n.type != mtv::element_type_int32 ||
                        std::equal(mtv::int32_element_block::cbegin(*n.data), mtv::int32_element_block::cend(*n.data), mtv::int32_element_block::cbegin(*it->data))) &&
                        (n.type != mtv::element_type_string ||
                        std::equal(mtv::string_element_block::cbegin(*n.data), mtv::string_element_block::cend(*n.data), mtv::string_element_block::cbegin(*it->data))) &&
                        (n.type != mtv::element_type_double ||
                        std::equal(mtv::double_element_block::cbegin(*n.data), mtv::double_element_block::cend(*n.data), mtv::double_element_block::cbegin(*it->data))),
                        "the contents differ from those of the untraced container");
                ++it;
            }
        }
    }

    void forget(int i)
    {
        ha[i].reset();
        hb[i].reset();
    }

    // a position, mostly valid
    size_t pos(int i)
    {
        size_t n = b[i]->size();
        if (n && !c.chance(1, 12))
            return c.below(n);
        return n + c.below(3);
    }

    template<typename T>
    static constexpr mtv::element_t type_of()
    {
        return std::is_same_v<T, int32_t> ? mtv::element_type_int32 : std::is_same_v<T, double> ? mtv::element_type_double : mtv::element_type_string;
    }
    template<typename T>
    T value()
    {
        int v = int(c.below(50));
        if constexpr (std::is_same_v<T, std::string>)
            return std::to_string(v) + "v";
        else
            return T(v);
    }
    template<typename T>
    std::vector<T> values(size_t max)
    {
        std::vector<T> v;
        for (size_t n = c.below(max + 1); n; --n)
            v.push_back(value<T>());
        return v;
    }

    // a hint for container i, valid for both; false when there is none
    bool hint(int i)
    {
        if (ha[i] && c.chance(2, 3))
            return true;
        if constexpr (!cow)
        {
            ha[i] = a[i]->begin();
            hb[i] = b[i]->begin();
            return b[i]->block_size() != 0;
        }
        return bool(ha[i]);
    }

#define BOTH(expr) [&] { auto& x = *a[i]; auto& h = ha[i]; (void)x; (void)h; expr; }, [&] { auto& x = *b[i]; auto& h = hb[i]; (void)x; (void)h; expr; }
#define BOTHC(expr) [&] { const A& x = *a[i]; expr; }, [&] { const B& x = *b[i]; expr; }

    template<typename T>
    void typed(int i)
    {
        const uint64_t ty = uint64_t(type_of<T>());
        size_t p = pos(i);
        switch (c.below(11))
        {
            case 0:
            {
                T v = value<T>();
                call(i, "set", M::mutator, {{"pos", p}, {"type", ty}}, BOTH(h.reset(); h = x.set(p, v)), "set(pos, value)");
                break;
            }
            case 1:
            {
                T v = value<T>();
                if (hint(i))
                    if (!call(i, "set", M::mutator_with_pos_hint, {{"pos", p}, {"type", ty}}, BOTH(h = x.set(*h, p, v)), "set(hint, pos, value)"))
                        forget(i);
                break;
            }
            case 2:
            {
                auto vs = values<T>(4);
                if (!call(i, "set", M::mutator, {{"pos", p}, {"length", vs.size()}}, BOTH(h.reset(); h = x.set(p, vs.begin(), vs.end())), "set(pos, range)") || vs.empty())
                    forget(i);
                break;
            }
            case 3:
            {
                auto vs = values<T>(4);
                if (hint(i))
                {
                    call(i, "set", M::mutator_with_pos_hint, {{"pos", p}, {"length", vs.size()}}, BOTH(h = x.set(*h, p, vs.begin(), vs.end())), "set(hint, pos, range)");
                    forget(i);
                }
                break;
            }
            case 4:
            {
                T v = value<T>();
                forget(i);
                call(i, "push_back", M::mutator, {{"type", ty}}, BOTH(h = x.push_back(T(v))), "push_back");
                break;
            }
            case 5:
            {
                T v = value<T>();
                forget(i);
                call(i, "emplace_back", M::mutator, {}, BOTH(h = x.template emplace_back<T>(v)), "emplace_back");
                break;
            }
            case 6:
            {
                auto vs = values<T>(4);
                forget(i);
                call(i, "insert", M::mutator, {{"pos", p}, {"length", vs.size()}}, BOTH(x.insert(p, vs.begin(), vs.end())), "insert(pos, range)");
                break;
            }
            case 7:
            {
                auto vs = values<T>(4);
                if (hint(i))
                {
                    call(i, "insert", M::mutator_with_pos_hint, {{"pos", p}, {"length", vs.size()}}, BOTH(x.insert(*h, p, vs.begin(), vs.end())), "insert(hint, pos, range)");
                    forget(i);
                }
                break;
            }
            case 8:
                p = find<T>(i, p);
                call(i, "get", M::accessor, {{"pos", p}}, BOTHC((void)x.template get<T>(p)), "get(pos)");
                break;
            case 9:
            {
                p = find<T>(i, p);
                T v{};
                call(i, "get", M::accessor, {{"pos", p}, {"type", ty}}, BOTHC(x.get(p, v)), "get(pos, value)");
                break;
            }
            case 10:
            {
                p = find<T>(i, p);
                T v{};
                switch (c.below(3))
                {
                    case 0:
                        forget(i);
                        call(i, "release", M::mutator, {{"pos", p}}, BOTH((void)x.template release<T>(p)), "release(pos)");
                        break;
                    case 1:
                        forget(i);
                        call(i, "release", M::mutator, {{"pos", p}, {"type", ty}}, BOTH(x.release(p, v)), "release(pos, value)");
                        break;
                    case 2:
                        if (hint(i))
                        {
                            call(i, "release", M::mutator_with_pos_hint, {{"pos", p}, {"type", ty}}, BOTH(x.release(*h, p, v)), "release(hint, pos, value)");
                            forget(i);
                        }
                        break;
                }
                break;
            }
        }
    }

    // a position from p on that holds a value of type T (or one out of range)
    template<typename T>
    size_t find(int i, size_t p)
    {
        const B& y = *b[i];
        size_t n = y.size();
        if (p >= n)
            return p;
        for (size_t k = 0; k < n; ++k)
            if (y.get_type((p + k) % n) == type_of<T>())
                return (p + k) % n;
        return n;
    }

    void access(int i)
    {
        size_t p = pos(i);
        A& w = *a[i];
        switch (c.below(14))
        {
            case 0: call(i, "size", M::accessor, {}, BOTHC((void)x.size()), "size"); break;
            case 1: call(i, "block_size", M::accessor, {}, BOTHC((void)x.block_size()), "block_size"); break;
            case 2: call(i, "empty", M::accessor, {}, BOTHC((void)x.empty()), "empty"); break;
            case 3: call(i, "get_type", M::accessor, {{"pos", p}}, BOTHC((void)x.get_type(p)), "get_type"); break;
            case 4: call(i, "is_empty", M::accessor, {{"pos", p}}, BOTHC((void)x.is_empty(p)), "is_empty"); break;
            case 5: call(i, "position", M::accessor, {{"pos", p}}, BOTHC((void)x.position(p)), "position(pos) const"); break;
            case 6:
                if (b[i]->block_size())
                {
                    size_t st = c.below(b[i]->block_size());
                    typename A::const_iterator ia = std::next(std::as_const(w).begin(), long(st));
                    typename B::const_iterator ib = std::next(std::as_const(*b[i]).begin(), long(st));
                    VF_LOG(c, "position with a hint");
                    call(i, "position", M::accessor_with_pos_hint, {{"pos", p}}, [&] { (void)std::as_const(*a[i]).position(ia, p); },
                         [&] { (void)std::as_const(*b[i]).position(ib, p); }, "position(hint, pos) const");
                }
                break;
            case 7:
                switch (c.below(4))
                {
                    case 0: call(i, "begin", M::accessor, {}, BOTHC((void)x.begin()), "begin const"); break;
                    case 1: call(i, "end", M::accessor, {}, BOTHC((void)x.end()), "end const"); break;
                    case 2: call(i, "rbegin", M::accessor, {}, BOTHC((void)x.rbegin()), "rbegin const"); break;
                    case 3: call(i, "rend", M::accessor, {}, BOTHC((void)x.rend()), "rend const"); break;
                }
                break;
            case 8:
                switch (c.below(4))
                {
                    case 0: call(i, "cbegin", M::accessor, {}, BOTHC((void)x.cbegin()), "cbegin"); break;
                    case 1: call(i, "cend", M::accessor, {}, BOTHC((void)x.cend()), "cend"); break;
                    case 2: call(i, "crbegin", M::accessor, {}, BOTHC((void)x.crbegin()), "crbegin"); break;
                    case 3: call(i, "crend", M::accessor, {}, BOTHC((void)x.crend()), "crend"); break;
                }
                break;
            case 9:
                if constexpr (!cow)
                    switch (c.below(6))
                    {
                        case 0: call(i, "begin", M::accessor, {}, BOTH((void)x.begin()), "begin"); break;
                        case 1: call(i, "end", M::accessor, {}, BOTH((void)x.end()), "end"); break;
                        case 2: call(i, "rbegin", M::accessor, {}, BOTH((void)x.rbegin()), "rbegin"); break;
                        case 3: call(i, "rend", M::accessor, {}, BOTH((void)x.rend()), "rend"); break;
                        case 4: call(i, "position", M::accessor, {{"pos", p}}, BOTH((void)x.position(p)), "position(pos)"); break;
                        case 5:
                            if (hint(i))
                                call(i, "position", M::accessor_with_pos_hint, {{"pos", p}}, BOTH((void)x.position(*h, p)), "position(hint, pos)");
                            break;
                    }
                break;
            case 10: call(i, "event_handler", M::accessor, {}, BOTH((void)x.event_handler()), "event_handler"); break;
            case 11: call(i, "event_handler", M::accessor, {}, BOTHC((void)x.event_handler()), "event_handler const"); break;
            case 12:
            {
                bool ra = false, rb = false;
                int j = int(c.below(2));
                call(i, "operator==", M::accessor, {}, [&] { ra = std::as_const(*a[i]) == *a[j]; }, [&] { rb = std::as_const(*b[i]) == *b[j]; }, "operator==");
                VF_CHECK(ra == rb, "operator== answers " << ra << " with tracing");
                break;
            }
            case 13:
            {
                std::optional<A> ra;
                std::optional<B> rb;
                bool own = c.coin();
                call(i, "clone", M::accessor, {}, [&] { ra.emplace(own ? std::as_const(*a[i]).clone({}) : std::as_const(*a[i]).clone()); },
                     [&] { rb.emplace(own ? std::as_const(*b[i]).clone({}) : std::as_const(*b[i]).clone()); }, own ? "clone(handler)" : "clone");
                VF_CHECK(*ra == *a[i], "the clone of a traced container differs");
                break;
            }
        }
    }

    void mutate(int i)
    {
        size_t n = b[i]->size();
        size_t p = pos(i), q = p;
        if (n && p < n)
            q = c.chance(1, 10) ? n + c.below(2) : p + c.below(n - p);
        if (c.chance(1, 20))
            std::swap(p, q);
        switch (c.below(15))
        {
            case 0: forget(i); call(i, "push_back_empty", M::mutator, {}, BOTH(h = x.push_back_empty()), "push_back_empty"); break;
            case 1: call(i, "set_empty", M::mutator, {{"start_pos", p}, {"end_pos", q}}, BOTH(h.reset(); h = x.set_empty(p, q)), "set_empty"); break;
            case 2:
                if (hint(i))
                {
                    call(i, "set_empty", M::mutator_with_pos_hint, {{"start_pos", p}, {"end_pos", q}}, BOTH(x.set_empty(*h, p, q)), "set_empty(hint)");
                    forget(i);
                }
                break;
            case 3: forget(i); call(i, "erase", M::mutator, {{"start_pos", p}, {"end_pos", q}}, BOTH(x.erase(p, q)), "erase"); break;
            case 4:
            {
                size_t len = c.below(4);
                forget(i);
                call(i, "insert_empty", M::mutator, {{"pos", p}, {"length", len}}, BOTH(x.insert_empty(p, len)), "insert_empty");
                break;
            }
            case 5:
                if (hint(i))
                {
                    size_t len = c.below(4);
                    call(i, "insert_empty", M::mutator_with_pos_hint, {{"pos", p}, {"length", len}}, BOTH(x.insert_empty(*h, p, len)), "insert_empty(hint)");
                    forget(i);
                }
                break;
            case 6: forget(i); if (c.chance(1, 3)) call(i, "clear", M::mutator, {}, BOTH(x.clear()), "clear"); break;
            case 7:
            {
                size_t ns = c.below(n + 5);
                forget(i);
                call(i, "resize", M::mutator, {{"new_size", ns}}, BOTH(x.resize(ns)), "resize");
                break;
            }
            case 8: forget(i); call(i, "shrink_to_fit", M::mutator, {}, BOTH(x.shrink_to_fit()), "shrink_to_fit"); break;
            case 9: forget(i); call(i, "detach", M::mutator, {}, BOTH(x.detach()), "detach"); break;
            case 10: forget(i); if (c.chance(1, 3)) call(i, "release", M::mutator, {}, BOTH(x.release()), "release()"); break;
            case 11: forget(i); call(i, "release_range", M::mutator, {{"start_pos", p}, {"end_pos", q}}, BOTH(x.release_range(p, q)), "release_range"); break;
            case 12:
                if (hint(i))
                {
                    call(i, "release_range", M::mutator_with_pos_hint, {{"start_pos", p}, {"end_pos", q}}, BOTH(x.release_range(*h, p, q)), "release_range(hint)");
                    forget(i);
                }
                break;
            default: pair_op(i, p, q); break;
        }
    }

    void pair_op(int i, size_t p, size_t q)
    {
        int j = c.chance(1, 10) ? i : 1 - i;
        size_t d = pos(j);
        unsigned k = c.below(7);
        bool hinted = k == 3 && hint(i);
        if (k != 3)
            forget(i);
        if (i != j)
            forget(j);
        switch (k)
        {
            case 0: call(i, "swap", M::mutator, {}, [&] { a[i]->swap(*a[j]); }, [&] { b[i]->swap(*b[j]); }, "swap(other)"); break;
            case 1:
                if (i != j)
                    call(i, "swap", M::mutator, {{"start_pos", p}, {"end_pos", q}, {"other_pos", d}}, [&] { a[i]->swap(p, q, *a[j], d); },
                         [&] { b[i]->swap(p, q, *b[j], d); }, "swap(range)");
                break;
            case 2:
                call(i, "transfer", M::mutator, {{"start_pos", p}, {"end_pos", q}, {"dest_pos", d}}, [&] { a[i]->transfer(p, q, *a[j], d); },
                     [&] { b[i]->transfer(p, q, *b[j], d); }, "transfer");
                break;
            case 3:
                if (hinted)
                {
                    call(i, "transfer", M::mutator_with_pos_hint, {{"start_pos", p}, {"end_pos", q}, {"dest_pos", d}},
                         [&] { a[i]->transfer(*ha[i], p, q, *a[j], d); }, [&] { b[i]->transfer(*hb[i], p, q, *b[j], d); }, "transfer(hint)");
                    forget(i);
                }
                break;
            case 4: call(i, "operator=", M::mutator, {}, [&] { *a[i] = *a[j]; }, [&] { *b[i] = *b[j]; }, "operator= (copy)"); ++shared; break;
            case 5:
                if (i != j)
                {
                    A ta(*a[j]);
                    B tb(*b[j]);
                    call(i, "operator=", M::mutator, {}, [&] { *a[i] = std::move(ta); }, [&] { *b[i] = std::move(tb); }, "operator= (move)");
                }
                break;
            case 6: construct(i); break;
        }
    }

    void construct(int i)
    {
        std::unique_ptr<A> na;
        std::unique_ptr<B> nb;
        size_t n = c.below(12);
        std::vector<int32_t> vs;
        size_t len = c.chance(1, 8) ? n + 1 : n;
        const char* what = "";
        arg_list args;
        std::string oa, ob;
        typename A::event_func hda;
        typename B::event_func hdb;
        g_reports.clear();
        std::string sv = "text";
        switch (c.below(8))
        {
            case 0: what = "constructor()"; na.reset(new A); nb.reset(new B); break;
            case 1: what = "constructor(size)"; args = {{"init_size", n}}; na.reset(new A(n)); nb.reset(new B(n)); break;
            case 2: what = "constructor(size, value)"; args = {{"init_size", n}, {"type", uint64_t(mtv::element_type_string)}}; na.reset(new A(n, sv)); nb.reset(new B(n, sv)); break;
            case 3:
                for (size_t k = 0; k < len; ++k)
                    vs.push_back(int32_t(k));
                what = "constructor(size, range)";
                args = {{"init_size", n}, {"length", vs.size()}};
                oa = outcome([&] { na.reset(new A(n, vs.begin(), vs.end())); });
                ob = outcome([&] { nb.reset(new B(n, vs.begin(), vs.end())); });
                break;
            case 4: what = "constructor(copy)"; na.reset(new A(std::as_const(*a[i]))); nb.reset(new B(std::as_const(*b[i]))); ++shared; break;
            case 5:
                what = "constructor(move)";
                na.reset(new A(std::move(*a[i])));
                nb.reset(new B(std::move(*b[i])));
                break;
            case 6: what = "constructor(handler)"; na.reset(new A(hda)); nb.reset(new B(hdb)); break;
            case 7: what = "constructor(handler, move)"; na.reset(new A(std::move(hda))); nb.reset(new B(std::move(hdb))); break;
        }
        VF_LOG(c, "container " << i << ": " << what);
        VF_CHECK(oa == ob, what << ": with tracing '" << oa << "', without '" << ob << "'");
        if (!oa.empty())
        {
            VF_CHECK(!g_reports.empty(), what << " failed, and was not reported");
            judge(g_reports[0].instance, "multi_type_vector", M::constructor, args, what);
            ++throws;
            return;
        }
        judge(na.get(), "multi_type_vector", M::constructor, args, what);
        // the old container goes
        const void* old = a[i].get();
        g_reports.clear();
        a[i] = std::move(na);
        judge(old, "~multi_type_vector", M::destructor, {}, "destructor");
        b[i] = std::move(nb);
    }

    void go()
    {
        g_bad_place = false;
        for (int i = 0; i < 2; ++i)
        {
            a[i] = std::make_unique<A>();
            b[i] = std::make_unique<B>();
            size_t n = c.below(15);
            if (n)
            {
                a[i]->resize(n);
                b[i]->resize(n);
            }
        }
        while (c.more(40))
        {
            int i = int(c.below(2));
            switch (c.weighted({4, 2, 2, 4, 6}))
            {
                case 0: typed<int32_t>(i); break;
                case 1: typed<double>(i); break;
                case 2: typed<std::string>(i); break;
                case 3: access(i); break;
                case 4: mutate(i); break;
            }
            compare();
        }
        if (kinds_seen >= 8 && throws)
            c.nontrivial();
        VF_COVER(c, throws ? "some calls threw" : "no call threw");
        if (shared)
            VF_COVER(c, "containers copied");
        ha[0].reset(); hb[0].reset(); ha[1].reset(); hb[1].reset();
        for (int i = 0; i < 2; ++i)
        {
            const void* old = a[i].get();
            g_reports.clear();
            a[i].reset();
            judge(old, "~multi_type_vector", M::destructor, {}, "destructor");
            b[i].reset();
        }
        g_reports.clear();
        g_reports.shrink_to_fit();
    }
};

#define TRACE_RULE "histories of public calls on two traced containers with untraced twins; non-trivial: at least 8 different kinds of calls reported and at least one call that threw"
#if VF_IN(0)
static void run_plain(src& c) { tracing_case<traced, plain>(c).go(); }
VF_PROPERTY("C34", run_plain, TRACE_RULE, 1);
#endif
#if VF_IN(1)
static void run_cow(src& c) { tracing_case<cow_traced, cow_plain>(c).go(); }
VF_PROPERTY("C34", run_cow, TRACE_RULE, 1);
#endif

VF_MAIN
