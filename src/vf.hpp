// vf.hpp - a small structured property-based-testing / coverage-guided fuzzing
// engine used by every check in this directory.
//
// A case is a pure function of a *choice sequence* (a list of bounded
// integers).  Random generation draws the choices from a PRNG seeded by
// (VERIF_SEED, worker, iteration); coverage guidance mutates recorded choice
// sequences that reached new edges of the code under test; shrinking deletes
// and lowers choices; a replay file is a choice sequence.  Cases run in forked
// workers, so sanitizer aborts, crashes, hangs and runaway allocation are
// observed as failures of the case that was running.
#pragma once

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {

// ---------------------------------------------------------------- allocation

struct alloc_state
{
    long live = 0;         // live allocations made through operator new
    long bytes = 0;        // live bytes
    long countdown = -1;   // >= 0: allocations left before one throws bad_alloc
    long injected = 0;     // number of injected failures so far
    long total = 0;        // allocations made so far
};
inline alloc_state g_alloc;
inline constexpr long max_live_bytes = 1500l * 1024 * 1024;

[[noreturn]] inline void die(const char* msg)
{
    (void)!write(2, msg, strlen(msg));
    (void)!write(2, "\n", 1);
    _exit(78);
}

inline void* do_alloc(std::size_t n)
{
    if (g_alloc.countdown >= 0)
    {
        if (g_alloc.countdown == 0)
        {
            g_alloc.countdown = -1;
            ++g_alloc.injected;
            throw std::bad_alloc();
        }
        --g_alloc.countdown;
    }
    if (n > std::size_t(max_live_bytes))
        throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++g_alloc.live;
    ++g_alloc.total;
    g_alloc.bytes += long(malloc_usable_size(p));
    if (g_alloc.bytes > max_live_bytes)
        die("VF-RUNAWAY: more than 1.5 GB of live allocations");
    return p;
}

inline void do_free(void* p) noexcept
{
    if (!p)
        return;
    --g_alloc.live;
    g_alloc.bytes -= long(malloc_usable_size(p));
    std::free(p);
}

struct alloc_fault
{
    explicit alloc_fault(long n) { g_alloc.countdown = n; }
    ~alloc_fault() { g_alloc.countdown = -1; }
};

} // namespace vf

// A harness may be compiled in several parts (translation units) to shorten the
// build; part 0 carries what must exist once.
#ifndef VF_PART
#define VF_PART 0
#define VF_ALL_PARTS 1
#else
#define VF_ALL_PARTS 0
#endif
#ifndef VF_SEL
#define VF_SEL 0
#endif
#define VF_FOR(n) (VF_SEL == 0 || VF_SEL == (n)) // is property n selected?
#define VF_IN(p) (VF_ALL_PARTS || VF_PART == (p)) // does this part hold configuration p?
#ifdef VF_THREADED // cases start threads: no allocation accounting; failures may need several tries
#define VF_TRIES 6
#else
#define VF_TRIES 1
#endif
#if VF_PART == 0 && !defined(VF_THREADED)
void* operator new(std::size_t n) { return vf::do_alloc(n); }
void* operator new[](std::size_t n) { return vf::do_alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return vf::do_alloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return vf::do_alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { vf::do_free(p); }
void operator delete[](void* p) noexcept { vf::do_free(p); }
void operator delete(void* p, std::size_t) noexcept { vf::do_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vf::do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vf::do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vf::do_free(p); }

#endif

// ------------------------------------------------------------ edge coverage

// clang's inline 8-bit counters; the arrays are empty when not instrumented.
namespace vf {
inline std::vector<std::pair<uint8_t*, uint8_t*>>& cov_regions()
{
    static std::vector<std::pair<uint8_t*, uint8_t*>> r;
    return r;
}
}
#if VF_PART == 0
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e)
{
    if (b != e)
        vf::cov_regions().push_back({b, e});
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

#endif

namespace vf {

// ------------------------------------------------------------------- shared

struct failure
{
    std::string msg;
};
struct reject
{
};

constexpr unsigned max_choices = 1u << 16;
constexpr unsigned max_spans = 1u << 13;
constexpr unsigned max_labels = 256;
constexpr unsigned max_workers = 32;
constexpr unsigned hash_slots = 1u << 22;

struct worker_shm
{
    uint64_t cases, nontrivial, rejected, mutated;
    uint64_t case_no;
    uint64_t corpus, edges;
    uint32_t in_case;
    uint32_t failed;
    uint32_t n_choices, n_spans;
    uint64_t labels[max_labels];
    uint64_t excluded;
    char msg[8192];
    uint32_t choices[max_choices];
    uint32_t spans[max_spans];
};

struct global_shm
{
    std::atomic<int> stop;
    std::atomic<int> label_lock;
    int n_labels;
    char label_names[max_labels][64];
    std::atomic<uint64_t> distinct;
    // samples: choice sequences of a few non-trivial cases
    std::atomic<int> n_samples;
    uint32_t sample_len[8];
    uint32_t sample[8][max_choices];
    worker_shm w[max_workers];
    std::atomic<uint64_t> table[hash_slots];
};

inline global_shm* g_shm = nullptr;
inline worker_shm* g_me = nullptr;

inline int label_id(const char* name)
{
    while (g_shm->label_lock.exchange(1))
        ;
    int i = 0;
    for (; i < g_shm->n_labels; ++i)
        if (!strcmp(g_shm->label_names[i], name))
            break;
    if (i == g_shm->n_labels && i < int(max_labels) - 1)
    {
        strncpy(g_shm->label_names[i], name, 63);
        ++g_shm->n_labels;
    }
    g_shm->label_lock.store(0);
    return i;
}

inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// -------------------------------------------------------------------- source

class src
{
    uint64_t m_rng = 0;
    const std::vector<uint32_t>* m_replay = nullptr;
    size_t m_pos = 0;
    bool m_tail_random = false;

    uint64_t rnd()
    {
        m_rng += 0x9e3779b97f4a7c15ull;
        uint64_t z = m_rng;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

public:
    bool tracing = false;
    bool is_nontrivial = false;
    bool no_leak_check = false;
    std::ostringstream* trace = nullptr;
    int tier = 0; // 0 quick, 1 thorough

    void seed(uint64_t s)
    {
        m_rng = s;
        m_replay = nullptr;
        reset();
    }
    void replay(const std::vector<uint32_t>& v, bool tail_random, uint64_t s)
    {
        m_rng = s;
        m_replay = &v;
        m_tail_random = tail_random;
        reset();
    }
    void reset()
    {
        m_pos = 0;
        is_nontrivial = false;
        no_leak_check = false;
        g_me->n_choices = 0;
        g_me->n_spans = 0;
    }

    // uniform in [0, n); n >= 1.  0 is the "simplest" value.
    uint32_t below(uint64_t n)
    {
        uint32_t v;
        if (g_me->n_choices >= max_choices)
            return 0;
        if (m_replay && m_pos < m_replay->size())
        {
            v = (*m_replay)[m_pos++];
            if (v >= n)
                v = uint32_t(n - 1);
        }
        else if (m_replay && !m_tail_random)
            v = 0;
        else
            v = n <= 1 ? 0 : uint32_t((rnd() >> 16) % n);
        g_me->choices[g_me->n_choices++] = v;
        return v;
    }
    // inclusive range, simplest value lo
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + int64_t(below(uint64_t(hi - lo) + 1));
    }
    // true with probability num/den; false is simplest
    bool chance(unsigned num, unsigned den)
    {
        return below(den) >= den - num;
    }
    bool coin() { return below(2) == 1; }
    // loop control with expected `avg` iterations; also marks a span start
    bool more(unsigned avg)
    {
        if (g_me->n_spans < max_spans)
            g_me->spans[g_me->n_spans++] = g_me->n_choices;
        return below(avg + 1) != 0;
    }
    void span()
    {
        if (g_me->n_spans < max_spans)
            g_me->spans[g_me->n_spans++] = g_me->n_choices;
    }
    uint64_t u64()
    {
        uint64_t a = below(1ull << 32);
        uint64_t b = below(1ull << 32);
        return (b << 32) | a;
    }
    // index by weights
    unsigned weighted(std::initializer_list<unsigned> ws)
    {
        unsigned t = 0;
        for (unsigned w : ws)
            t += w;
        unsigned v = below(t), i = 0;
        for (unsigned w : ws)
        {
            if (v < w)
                return i;
            v -= w;
            ++i;
        }
        return 0;
    }
    template<typename C>
    auto& pick(C& c)
    {
        return c[below(c.size())];
    }
    int pick(std::initializer_list<int> l) { return *(l.begin() + below(l.size())); }
    void nontrivial() { is_nontrivial = true; }
    size_t n_choices() const { return g_me->n_choices; }
};

#define VF_COVER(c, name)                                                                                              \
    do                                                                                                                 \
    {                                                                                                                  \
        static const int vf_id_ = ::vf::label_id(name);                                                                \
        ++::vf::g_me->labels[vf_id_];                                                                                  \
    } while (0)

#define VF_LOG(c, expr)                                                                                                \
    do                                                                                                                 \
    {                                                                                                                  \
        if ((c).tracing)                                                                                               \
        {                                                                                                              \
            *(c).trace << expr << "\n";                                                                                \
        }                                                                                                              \
    } while (0)

#define VF_FAIL(expr)                                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        std::ostringstream vf_os_;                                                                                     \
        vf_os_ << expr;                                                                                                \
        throw ::vf::failure{vf_os_.str()};                                                                             \
    } while (0)

#define VF_CHECK(cond, expr)                                                                                           \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
            VF_FAIL(expr << "  [violated: " #cond " at " << __FILE__ << ":" << __LINE__ << "]");                       \
    } while (0)

// ------------------------------------------------------------------ registry

using case_fn = void (*)(src&);

struct property
{
    std::string id;
    case_fn fn;
    std::string rule;
    unsigned weight = 1; // share of the cases when several generators decide one property
};

inline std::vector<property>& registry()
{
    static std::vector<property> r;
    return r;
}

// one scripted reproduction of a recorded (unrepaired) finding
struct finding
{
    std::string id;
    std::string what;
    bool (*reproduces)(); // true (or a crash): the finding is still there
};
inline std::vector<finding>& findings()
{
    static std::vector<finding> r;
    return r;
}

struct reg
{
    reg(const char* id, case_fn fn, const char* rule, unsigned w = 1) { registry().push_back({id, fn, rule, w}); }
};
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_PROPERTY(id, fn, ...) static ::vf::reg VF_CAT(vf_reg_, __COUNTER__)(id, fn, __VA_ARGS__)

// -------------------------------------------------------------------- runner

struct options
{
    std::string prop, tier = "quick", evidence, replay_dir = ".", replay_file, tmp = "/tmp", findings_file;
    std::string level = "exploration";
    uint64_t seed = 1;
    double seconds = 20;
    unsigned workers = 8;
    uint64_t max_cases = ~0ull;
    std::vector<std::string> assumptions;
};

inline double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline void arm_cpu_timer(int seconds)
{
    itimerval tv{};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

inline void on_prof(int)
{
    die("VF-HANG: the case used more CPU time than any terminating case needs");
}

inline std::vector<property*> props_of(const std::string& id)
{
    std::vector<property*> v;
    for (auto& p : registry())
        if (p.id == id)
            v.push_back(&p);
    return v;
}

inline void run_one(const std::vector<property*>& ps, src& c)
{
    unsigned idx = 0;
    if (ps.size() > 1)
    {
        unsigned t = 0;
        for (auto* p : ps)
            t += p->weight;
        unsigned v = c.below(t);
        for (; idx < ps.size(); ++idx)
        {
            if (v < ps[idx]->weight)
                break;
            v -= ps[idx]->weight;
        }
    }
    ps[idx]->fn(c);
}

// Runs one case; returns true when the property held.  msg is set otherwise.
inline bool run_checked(const std::vector<property*>& ps, src& c, char* msg, size_t msg_cap, bool* rejected)
{
    *rejected = false;
    auto set = [&](const char* s) {
        strncpy(msg, s, msg_cap - 1);
        msg[msg_cap - 1] = 0;
    };
    // A table built on first use stays allocated without being a leak; a leak
    // happens each time the same choices are run.
    unsigned attempt = 0;
again:
    long live = g_alloc.live;
    g_alloc.countdown = -1;
    try
    {
        run_one(ps, c);
    }
    catch (const failure& f)
    {
        g_alloc.countdown = -1;
        set(f.msg.c_str());
        return false;
    }
    catch (const reject&)
    {
        *rejected = true;
    }
    catch (const std::exception& e)
    {
        g_alloc.countdown = -1;
        std::string s = std::string("unexpected exception escaped: ") + e.what();
        set(s.c_str());
        return false;
    }
    g_alloc.countdown = -1;
    if (!c.tracing && !c.no_leak_check && g_alloc.live != live)
    {
        if (attempt++ < 2)
        {
            static std::vector<uint32_t> same;
            same.assign(g_me->choices, g_me->choices + g_me->n_choices);
            *rejected = false;
            c.replay(same, false, 0);
            goto again;
        }
        std::string s = "memory leak: " + std::to_string(g_alloc.live - live) +
                        " allocation(s) still live after every object of the case was destroyed";
        set(s.c_str());
        return false;
    }
    return true;
}

inline void note_distinct(uint64_t h)
{
    if (!h)
        h = 1;
    for (unsigned k = 0; k < 8; ++k)
    {
        auto& slot = g_shm->table[(h + k) & (hash_slots - 1)];
        uint64_t cur = slot.load(std::memory_order_relaxed);
        if (cur == h)
            return;
        if (cur == 0)
        {
            if (slot.compare_exchange_strong(cur, h))
            {
                g_shm->distinct.fetch_add(1, std::memory_order_relaxed);
                return;
            }
            if (cur == h)
                return;
        }
    }
    // table saturated here: not counted (the count is a lower bound)
}

inline uint64_t hash_choices(const uint32_t* p, size_t n)
{
    uint64_t h = 0x1234567;
    for (size_t i = 0; i < n; ++i)
        h = mix64(h ^ (p[i] + 0x51ull * i));
    return h;
}

inline void quiet_stderr(const std::string& path)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0)
    {
        dup2(fd, 2);
        close(fd);
    }
}

inline int hang_seconds = 25;

struct corpus_entry
{
    std::vector<uint32_t> ch;
    std::vector<uint32_t> spans;
};

__attribute__((no_sanitize("all"))) inline bool scan_coverage(std::vector<uint8_t>& seen, uint64_t& edges)
{
    bool fresh = false;
    size_t off = 0;
    for (auto& r : cov_regions())
    {
        size_t n = r.second - r.first;
        if (seen.size() < off + n)
            seen.resize(off + n, 0);
        uint8_t* p = r.first;
        for (size_t i = 0; i < n;)
        {
            if (i + 8 <= n)
            {
                uint64_t w;
                memcpy(&w, p + i, 8);
                if (!w)
                {
                    i += 8;
                    continue;
                }
            }
            size_t e = std::min(n, i + 8);
            for (; i < e; ++i)
            {
                uint8_t v = p[i];
                if (!v)
                    continue;
                p[i] = 0;
                uint8_t b = v >= 128 ? 128 : v >= 32 ? 64 : v >= 16 ? 32 : v >= 8 ? 16 : v >= 4 ? 8 : v == 3 ? 4 : v == 2 ? 2 : 1;
                uint8_t& s = seen[off + i];
                if (!(s & b))
                {
                    if (!s)
                        ++edges;
                    s |= b;
                    fresh = true;
                }
            }
        }
        off += n;
    }
    return fresh;
}

inline void worker_main(const options& o, unsigned wi, const std::vector<property*>& ps)
{
    g_me = &g_shm->w[wi];
    quiet_stderr(o.tmp + "/w" + std::to_string(wi) + ".err");
    signal(SIGPROF, on_prof);
    src c;
    c.tier = o.tier == "thorough";
    std::vector<uint8_t> seen;
    std::vector<corpus_entry> corpus;
    corpus.reserve(4096);
    std::vector<uint32_t> cand;
    uint64_t r = mix64(o.seed * 1000003 + wi * 7919 + 17);
    auto rnd = [&](uint64_t n) {
        r = mix64(r);
        return n ? (r >> 8) % n : 0;
    };
    scan_coverage(seen, g_me->edges);
    for (uint64_t i = 0; i < o.max_cases && !g_shm->stop.load(std::memory_order_relaxed); ++i)
    {
        g_me->case_no = i;
        uint64_t s = mix64(mix64(o.seed * 0x9e3779b9ull + wi) ^ (i * 0xda942042e4dd58b5ull));
        bool mutated = false;
        if (corpus.size() > 4 && rnd(100) < 50)
        {
            mutated = true;
            ++g_me->mutated;
            const auto& a = corpus[rnd(8) < 5 ? corpus.size() - 1 - rnd(std::min<size_t>(corpus.size(), 64)) : rnd(corpus.size())];
            cand = a.ch;
            unsigned nm = 1 + unsigned(rnd(4));
            bool cut_tail = false;
            for (unsigned k = 0; k < nm && !cand.empty(); ++k)
            {
                switch (rnd(7))
                {
                    case 0:
                    case 1: // change one value
                    {
                        auto& x = cand[rnd(cand.size())];
                        switch (rnd(4))
                        {
                            case 0: x = uint32_t(rnd(8)); break;
                            case 1: x += 1; break;
                            case 2: if (x) --x; break;
                            default: x = uint32_t(rnd(256));
                        }
                        break;
                    }
                    case 2: // drop an operation
                        if (!a.spans.empty())
                        {
                            size_t j = rnd(a.spans.size());
                            size_t b = a.spans[j], e = j + 1 < a.spans.size() ? a.spans[j + 1] : a.ch.size();
                            if (b < cand.size() && e <= cand.size() && b < e)
                                cand.erase(cand.begin() + b, cand.begin() + e);
                        }
                        break;
                    case 3: // insert operations of another case
                    {
                        const auto& q = corpus[rnd(corpus.size())];
                        if (!q.spans.empty() && !a.spans.empty())
                        {
                            size_t j = rnd(q.spans.size());
                            size_t je = std::min(q.spans.size() - 1, j + 1 + rnd(4));
                            size_t b = q.spans[j], e = je > j ? q.spans[je] : q.ch.size();
                            size_t at = std::min<size_t>(a.spans[rnd(a.spans.size())], cand.size());
                            if (b < e && e <= q.ch.size() && cand.size() + (e - b) < max_choices / 2)
                                cand.insert(cand.begin() + at, q.ch.begin() + b, q.ch.begin() + e);
                        }
                        break;
                    }
                    case 4: // truncate; the rest becomes random
                    case 5:
                        if (!a.spans.empty())
                        {
                            size_t at = a.spans[rnd(a.spans.size())];
                            if (at < cand.size())
                                cand.resize(at);
                            cut_tail = true;
                        }
                        break;
                    case 6:
                        cand[rnd(cand.size())] = uint32_t(rnd(1u << 31));
                        break;
                }
                if (cut_tail)
                    break;
            }
            c.replay(cand, true, s);
        }
        else
            c.seed(s);
        (void)mutated;
        g_me->in_case = 1;
        if ((i & 15) == 0)
            arm_cpu_timer(hang_seconds);
        bool rej;
        bool ok = run_checked(ps, c, g_me->msg, sizeof(g_me->msg), &rej);
        if (!ok)
        {
            g_me->failed = 1;
            arm_cpu_timer(0);
            _exit(1);
        }
        g_me->in_case = 0;
        ++g_me->cases;
        if (rej)
            ++g_me->rejected;
        if (scan_coverage(seen, g_me->edges) && g_me->n_choices < max_choices / 4 && !rej)
        {
            corpus_entry e;
            e.ch.assign(g_me->choices, g_me->choices + g_me->n_choices);
            e.spans.assign(g_me->spans, g_me->spans + g_me->n_spans);
            if (corpus.size() < 4000)
                corpus.push_back(std::move(e));
            else
                corpus[rnd(corpus.size())] = std::move(e);
            g_me->corpus = corpus.size();
        }
        if (c.is_nontrivial && !rej)
        {
            ++g_me->nontrivial;
            note_distinct(hash_choices(g_me->choices, g_me->n_choices));
            if (g_shm->n_samples.load(std::memory_order_relaxed) < 6 && g_me->n_choices < 400 && (i % 7) == 3)
            {
                int k = g_shm->n_samples.fetch_add(1);
                if (k < 6)
                {
                    memcpy(g_shm->sample[k], g_me->choices, sizeof(uint32_t) * g_me->n_choices);
                    g_shm->sample_len[k] = g_me->n_choices;
                }
            }
        }
    }
    arm_cpu_timer(0);
    _exit(0);
}

struct outcome
{
    bool failed = false;
    std::string msg, trace;
    std::vector<uint32_t> choices, spans;
};

inline std::string read_file(const std::string& p, size_t cap = 1u << 20)
{
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > cap)
        s.resize(cap);
    return s;
}

inline std::string summarize_crash(const std::string& err, int status)
{
    std::string out;
    std::istringstream is(err);
    std::string line;
    int n = 0;
    while (std::getline(is, line) && n < 14)
    {
        if (line.find("ERROR:") != std::string::npos || line.find("runtime error:") != std::string::npos ||
            line.find("VF-") != std::string::npos || line.find("ssert") != std::string::npos ||
            line.find("what()") != std::string::npos || (n > 0 && line.find("    #") == 0 && n < 12))
        {
            out += line + " | ";
            ++n;
        }
    }
    char b[64];
    if (WIFSIGNALED(status))
        snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(status));
    else
        snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(status));
    return "the process died (" + std::string(b) + ") " + out;
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void vf_set_death_callback(void (*f)()) { __sanitizer_set_death_callback(f); }
#else
inline void vf_set_death_callback(void (*)()) {}
#endif
#else
inline void vf_set_death_callback(void (*)()) {}
#endif

inline outcome run_forked_once(const options& o, const std::vector<property*>& ps, const std::vector<uint32_t>& ch, bool trace);

inline outcome run_forked(const options& o, const std::vector<property*>& ps, const std::vector<uint32_t>& ch, bool trace)
{
    outcome r = run_forked_once(o, ps, ch, trace);
    for (int i = 1; i < VF_TRIES && !r.failed; ++i)
        r = run_forked_once(o, ps, ch, trace);
    return r;
}

inline outcome run_forked_once(const options& o, const std::vector<property*>& ps, const std::vector<uint32_t>& ch, bool trace)
{
    outcome r;
    worker_shm& me = g_shm->w[max_workers - 1];
    me.failed = 0;
    me.msg[0] = 0;
    std::string errp = o.tmp + "/one.err", trp = o.tmp + "/one.trace";
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0)
    {
        g_me = &me;
        quiet_stderr(errp);
        signal(SIGPROF, on_prof);
        arm_cpu_timer(hang_seconds);
        src c;
        c.tier = o.tier == "thorough";
        std::ostringstream os;
        c.replay(ch, false, 0);
        if (trace)
        {
            c.tracing = true;
            c.trace = &os;
            // write through: flush the accumulated text from a terminate path
            static std::ostringstream* s_os = &os;
            static std::string s_path = trp;
            struct dump
            {
                static void go()
                {
                    std::ofstream f(s_path);
                    f << s_os->str();
                }
            };
            auto h = [](int sg) {
                dump::go();
                signal(sg, SIG_DFL);
                raise(sg);
            };
            signal(SIGABRT, h);
            std::set_terminate([]() {
                dump::go();
                signal(SIGABRT, SIG_DFL);
                abort();
            });
            vf_set_death_callback(&dump::go);
            bool rej;
            bool ok = run_checked(ps, c, me.msg, sizeof me.msg, &rej);
            dump::go();
            if (!ok)
            {
                me.failed = 1;
                _exit(1);
            }
            _exit(0);
        }
        bool rej;
        bool ok = run_checked(ps, c, me.msg, sizeof me.msg, &rej);
        if (!ok)
        {
            me.failed = 1;
            _exit(1);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    r.choices.assign(me.choices, me.choices + me.n_choices);
    r.spans.assign(me.spans, me.spans + me.n_spans);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
        r.failed = true;
        if (me.failed)
            r.msg = me.msg;
        else
            r.msg = summarize_crash(read_file(errp), st);
    }
    if (trace)
        r.trace = read_file(trp, 200000);
    return r;
}

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        switch (ch)
        {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\t': o += "\\t"; break;
            default:
                if (ch < 0x20 || ch >= 0x7f)
                {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", ch);
                    o += b;
                }
                else
                    o += char(ch);
        }
    }
    return o;
}

inline outcome shrink(const options& o, const std::vector<property*>& ps, outcome best, double budget)
{
    double t_end = now() + budget;
    auto try_ = [&](const std::vector<uint32_t>& ch) {
        outcome r = run_forked(o, ps, ch, false);
        if (!r.failed)
            return false;
        // canonical form: the choices actually drawn
        if (r.choices.size() > ch.size())
        {
            size_t k = r.choices.size();
            while (k > 0 && r.choices[k - 1] == 0)
                --k;
            r.choices.resize(std::max(k, size_t(0)));
        }
        bool better = r.choices.size() < best.choices.size() ||
                      (r.choices.size() == best.choices.size() &&
                       std::lexicographical_compare(r.choices.begin(), r.choices.end(), best.choices.begin(), best.choices.end()));
        if (better)
            best = std::move(r);
        return better;
    };
    bool progress = true;
    while (progress && now() < t_end)
    {
        progress = false;
        // delete whole operations
        for (size_t len = std::max<size_t>(best.spans.size() / 2, 1); len >= 1 && now() < t_end; len /= 2)
        {
            for (size_t i = 0; i + 1 <= best.spans.size() && now() < t_end;)
            {
                size_t b = best.spans[i];
                size_t e = i + len < best.spans.size() ? best.spans[i + len] : best.choices.size();
                if (b >= best.choices.size() || b >= e)
                {
                    ++i;
                    continue;
                }
                e = std::min(e, best.choices.size());
                std::vector<uint32_t> ch(best.choices);
                ch.erase(ch.begin() + b, ch.begin() + e);
                if (try_(ch))
                    progress = true;
                else
                    i += std::max<size_t>(len / 2, 1);
            }
        }
        // delete short runs of choices
        for (size_t len : {8u, 4u, 2u, 1u})
            for (size_t i = 0; i + len <= best.choices.size() && now() < t_end;)
            {
                std::vector<uint32_t> ch(best.choices);
                ch.erase(ch.begin() + i, ch.begin() + i + len);
                if (try_(ch))
                    progress = true;
                else
                    i += len;
            }
        // lower values
        for (size_t i = 0; i < best.choices.size() && now() < t_end; ++i)
        {
            if (!best.choices[i])
                continue;
            std::vector<uint32_t> ch(best.choices);
            ch[i] = 0;
            if (try_(ch))
            {
                progress = true;
                continue;
            }
            uint32_t lo = 0;
            while (i < best.choices.size() && best.choices[i] > lo + 1 && now() < t_end)
            {
                uint32_t mid = lo + (best.choices[i] - lo) / 2;
                ch = best.choices;
                ch[i] = mid;
                if (try_(ch))
                    progress = true;
                else
                    lo = mid;
            }
        }
    }
    return best;
}

inline std::vector<uint32_t> load_replay(const std::string& p)
{
    std::ifstream f(p);
    std::string line;
    std::vector<uint32_t> v;
    while (std::getline(f, line))
        if (line.rfind("choices:", 0) == 0)
        {
            std::istringstream is(line.substr(8));
            uint32_t x;
            while (is >> x)
                v.push_back(x);
        }
    return v;
}

inline int main_impl(int argc, char** argv)
{
    options o;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") o.prop = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--seconds") o.seconds = atof(val().c_str());
        else if (a == "--workers") o.workers = atoi(val().c_str());
        else if (a == "--cases") o.max_cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence") o.evidence = val();
        else if (a == "--replay-dir") o.replay_dir = val();
        else if (a == "--replay") o.replay_file = val();
        else if (a == "--tmp") o.tmp = val();
        else if (a == "--level") o.level = val();
        else if (a == "--findings") o.findings_file = val();
        else if (a == "--assume") o.assumptions.push_back(val());
        else { std::cerr << "unknown option " << a << "\n"; return 2; }
    }
    auto ps = props_of(o.prop);
    if (ps.empty())
    {
        std::cerr << "no property " << o.prop << " in this program\n";
        return 2;
    }
    if (o.workers > max_workers - 1)
        o.workers = max_workers - 1;
    g_shm = static_cast<global_shm*>(
        mmap(nullptr, sizeof(global_shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (g_shm == MAP_FAILED)
    {
        perror("mmap");
        return 2;
    }
    g_me = &g_shm->w[max_workers - 1];
    double t0 = now();

    if (!o.replay_file.empty())
    {
        auto r = run_forked(o, ps, load_replay(o.replay_file), true);
        auto r2 = run_forked(o, ps, load_replay(o.replay_file), false);
        std::cout << r.trace << "\n" << (r2.failed ? "FAILED: " + r2.msg : std::string("passed")) << "\n";
        if (r2.failed)
            std::cout << "VIOLATION property=" << o.prop << " replay=" << o.replay_file << "\n";
        return r2.failed ? 1 : 0;
    }

    // recorded findings
    for (auto& f : findings())
    {
        if (f.id != o.prop)
            continue;
        pid_t pid = fork();
        if (pid == 0)
        {
            quiet_stderr(o.tmp + "/finding.err");
            signal(SIGPROF, on_prof);
            arm_cpu_timer(hang_seconds);
            bool b = false;
            try
            {
                b = f.reproduces();
            }
            catch (...)
            {
                b = true;
            }
            _exit(b ? 1 : 0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            std::cout << "KNOWN-FINDING: property=" << o.prop << " " << f.what << std::endl;
    }

    std::vector<pid_t> pids(o.workers, 0);
    std::vector<int> done(o.workers, 0);
    std::cout.flush();
    for (unsigned w = 0; w < o.workers; ++w)
    {
        pids[w] = fork();
        if (pids[w] == 0)
            worker_main(o, w, ps);
    }
    unsigned alive = o.workers;
    std::vector<std::pair<int, int>> bads;
    while (alive)
    {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0)
        {
            for (unsigned w = 0; w < o.workers; ++w)
                if (pids[w] == p)
                {
                    done[w] = 1;
                    --alive;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                    {
                        bads.push_back({int(w), st});
                        g_shm->stop = 1;
                    }
                }
            continue;
        }
        if (now() - t0 > o.seconds)
            g_shm->stop = 1;
        usleep(20000);
    }

    int violations = 0;
    std::string replay_path;
    std::string unconfirmed;
    for (auto [w, st] : bads)
    {
        worker_shm& me = g_shm->w[w];
        outcome first;
        first.failed = true;
        first.choices.assign(me.choices, me.choices + me.n_choices);
        first.spans.assign(me.spans, me.spans + me.n_spans);
        first.msg = me.failed ? me.msg : summarize_crash(read_file(o.tmp + "/w" + std::to_string(w) + ".err"), st);
        std::cerr << "worker " << w << " case " << me.case_no << ": " << first.msg << "\n";
        if (me.in_case == 0 || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))
        {
            // ended from outside (out of memory killer): no verdict from it
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
                unconfirmed += "worker killed; ";
        }
        int again = 0;
        for (int k = 0; k < 3; ++k)
        {
            auto r = run_forked(o, ps, first.choices, false);
            if (!r.failed)
                break;
            if (k == 0)
                first = r;
            ++again;
        }
        if (again < 3)
        {
            unconfirmed += first.msg + "; ";
            continue;
        }
        outcome best = shrink(o, ps, first, o.tier == "thorough" ? 60 : 25);
        outcome tr = run_forked(o, ps, best.choices, true);
        ++violations;
        replay_path = o.replay_dir + "/" + o.prop + "-" + std::to_string(o.seed) + "-" + std::to_string(w) + ".replay";
        std::ofstream f(replay_path);
        f << "property: " << o.prop << "\nseed: " << o.seed << "\ntier: " << o.tier << "\nmessage: " << best.msg << "\nchoices:";
        for (auto x : best.choices)
            f << ' ' << x;
        f << "\n\nhistory:\n" << tr.trace << "\n";
        f.close();
        std::cout << "minimal failing case (" << best.choices.size() << " choices):\n" << tr.trace << "=> " << best.msg << "\n";
        break;
    }
    if (!unconfirmed.empty())
        std::cerr << "not reproducible, not reported: " << unconfirmed << "\n";

    // evidence
    uint64_t cases = 0, nontriv = 0, rejected = 0, mutated = 0, edges = 0, corpus = 0;
    std::map<std::string, uint64_t> labels;
    for (unsigned w = 0; w < o.workers; ++w)
    {
        auto& me = g_shm->w[w];
        cases += me.cases;
        nontriv += me.nontrivial;
        rejected += me.rejected;
        mutated += me.mutated;
        edges = std::max(edges, me.edges);
        corpus += me.corpus;
        for (int i = 0; i < g_shm->n_labels; ++i)
            labels[g_shm->label_names[i]] += me.labels[i];
    }
    std::vector<std::string> samples;
    for (int i = 0; i < std::min(6, g_shm->n_samples.load()); ++i)
    {
        std::vector<uint32_t> ch(g_shm->sample[i], g_shm->sample[i] + g_shm->sample_len[i]);
        auto r = run_forked_once(o, ps, ch, true);
        if (r.trace.size() > 3000)
            r.trace = r.trace.substr(0, 3000) + "...";
        if (!r.trace.empty())
            samples.push_back(r.trace);
        if (samples.size() >= 4)
            break;
    }
    if (samples.empty() && cases)
        samples.push_back("(no non-trivial case short enough to print)");
    double wall = now() - t0;
    if (!o.evidence.empty())
    {
        std::ofstream f(o.evidence);
        f << "{\n \"property\": \"" << o.prop << "\",\n \"tier\": \"" << o.tier << "\",\n \"seed\": " << o.seed
          << ",\n \"level\": \"" << o.level << "\",\n \"coverage\": {\n  \"evaluations\": " << cases
          << ",\n  \"distinct_nontrivial\": " << g_shm->distinct.load() << ",\n  \"nontrivial\": " << nontriv
          << ",\n  \"rejected\": " << rejected << ",\n  \"from_coverage_guided_mutation\": " << mutated
          << ",\n  \"edges_reached\": " << edges << ",\n  \"corpus\": " << corpus << ",\n  \"rule\": \"";
        std::string rule;
        for (auto* p : ps)
            if (rule.find(p->rule) == std::string::npos)
                rule += (rule.empty() ? "" : " || ") + p->rule;
        f << jesc(rule) << "\",\n  \"labels\": {";
        bool firstl = true;
        for (auto& [k, v] : labels)
        {
            f << (firstl ? "" : ", ") << "\"" << jesc(k) << "\": " << v;
            firstl = false;
        }
        f << "},\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i)
            f << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\"";
        f << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < o.assumptions.size(); ++i)
            f << (i ? ", " : "") << "\"" << jesc(o.assumptions[i]) << "\"";
        f << "],\n \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
    }
    std::cout << o.prop << " " << o.tier << " seed=" << o.seed << ": " << cases << " cases, " << nontriv << " non-trivial, "
              << g_shm->distinct.load() << " distinct non-trivial, " << rejected << " rejected, " << edges << " edges, "
              << wall << " s\n";
    if (getenv("VF_LABELS"))
        for (auto& [k, v] : labels)
            std::cout << "   " << k << ": " << v << "\n";
    if (violations)
    {
        std::cout << "VIOLATION property=" << o.prop << " replay=" << replay_path << std::endl;
        return 1;
    }
    if (cases == 0)
    {
        std::cerr << "no case completed\n";
        return 2;
    }
    return 0;
}

} // namespace vf

#if VF_PART != 0
#define VF_MAIN
#else
#define VF_MAIN                                                                                                        \
    int main(int argc, char** argv)                                                                                    \
    {                                                                                                                  \
        return ::vf::main_impl(argc, argv);                                                                            \
    }
#endif
