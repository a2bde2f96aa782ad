// C27, C28: every history of real timers over a controlled clock.
#include <utils/timer.h>

#include <algorithm>
#include <chrono>
#include <ctime>
#include <string>
#include <vector>

#include <mc.h>

using std::size_t;
using std::int64_t;
using mc::fmt;
using mc::Step;
using Timer = utils::timer;
// timers of other capacities and clocks, from whatever template the timer is made of
template <class T>
struct Family;
template <template <std::size_t, std::size_t, class> class T, std::size_t A, std::size_t S, class C>
struct Family<T<A, S, C>>
{
    template <std::size_t A2, std::size_t S2, class C2>
    using of = T<A2, S2, C2>;
};
template <std::size_t A, std::size_t S, class C>
using TimerOf = Family<Timer>::of<A, S, C>;

namespace
{
int64_t g_now = 0;  // nanoseconds
}
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept
{
    t->tv_sec = g_now / 1000000000;
    t->tv_nsec = g_now % 1000000000;
    return 0;
}

namespace
{
int64_t ns(std::chrono::steady_clock::duration d)
{
    return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
}
int64_t start_of(const Timer& t) { return ns(t.start_tp().time_since_epoch()); }

// ---- callbacks -------------------------------------------------------------------
struct Call
{
    int id;
    const Timer* timer;
    int64_t start, leaked;
};
std::vector<Call> g_calls;
void called(int id, const Timer& t)
{
    g_calls.push_back({id, &t, start_of(t), ns(t.leaked())});
}
constexpr int kKinds = 16;
const char* kind_name[kKinds] = {
    "lambda l-value",      "const lambda l-value",   "lambda temporary",
    "function",            "function pointer",       "const function pointer",
    "non-noexcept function pointer", "empty functor", "functor with a counter",
    "functor of 1 byte",   "functor of 2 bytes",     "functor of 4 bytes",
    "generic lambda",      "functor of 8 bytes",     "move of a const functor",
    "functor with operators of its own"};

int g_ids[64];
struct Init
{
    Init()
    {
        for (int i = 0; i < 64; ++i) g_ids[i] = i;
    }
} g_init;

template <int Id>
void fn(const Timer& t) noexcept
{
    called(Id, t);
}
template <int Id>
void fn_throwing(const Timer& t)
{
    called(Id, t);
}
template <int Id>
struct Empty
{
    template <class T>
    void operator()(T&& t) const noexcept
    {
        called(Id, t);
    }
};
struct Counter
{
    int* id;
    template <class T>
    void operator()(T&& t) noexcept  // not const
    {
        called(*id, t);
        ++id;  // a second call would be seen as another callback
    }
};
template <class I>
struct Sized
{
    I id;
    template <class T>
    void operator()(const T& t) const
    {
        called(static_cast<int>(id >> (sizeof(I) * 8 - 8)), t);
    }
};
struct Strange
{
    int* id;
    void operator&() const = delete;
    static void* operator new(size_t) = delete;
    static void operator delete(void*) = delete;
    void operator()(const Timer& t) const noexcept { called(*id, t); }
};
template <class I>
Sized<I> sized(int id)
{
    // the id is in the last byte, the others are not zero
    const I low = sizeof(I) > 1 ? static_cast<I>((I(1) << (sizeof(I) * 8 - 9)) | 1) : I(0);
    return {static_cast<I>((static_cast<I>(id) << (sizeof(I) * 8 - 8)) |
                           (low & static_cast<I>((I(1) << (sizeof(I) * 8 - 8)) - 1)))};
}

// id of the callback: slot * 16 + kind
template <int Slot, int Kind>
void make(void* at)
{
    constexpr int id = Slot * 16 + Kind;
    int* p = &g_ids[id];
    auto lambda = [p](const Timer& t) { called(*p, t); };
    if constexpr (Kind == 0)
        new (at) Timer(lambda);
    else if constexpr (Kind == 1)
        new (at) Timer(std::as_const(lambda));
    else if constexpr (Kind == 2)
        new (at) Timer([p](const Timer& t) noexcept { called(*p, t); });
    else if constexpr (Kind == 3)
        new (at) Timer(fn<id>);
    else if constexpr (Kind == 4)
    {
        auto f = &fn<id>;
        new (at) Timer(f);
    }
    else if constexpr (Kind == 5)
    {
        void (*const f)(const Timer&) noexcept = fn<id>;
        new (at) Timer(f);
    }
    else if constexpr (Kind == 6)
        new (at) Timer(&fn_throwing<id>);
    else if constexpr (Kind == 7)
        new (at) Timer(Empty<id>{});
    else if constexpr (Kind == 8)
    {
        Counter c{p};
        new (at) Timer(c);
    }
    else if constexpr (Kind == 9)
        new (at) Timer(sized<unsigned char>(id));
    else if constexpr (Kind == 10)
        new (at) Timer(sized<unsigned short>(id));
    else if constexpr (Kind == 11)
    {
        auto s = sized<unsigned>(id);
        new (at) Timer(s);
    }
    else if constexpr (Kind == 12)
        new (at) Timer([p](const auto& t) { called(*p, t); });
    else if constexpr (Kind == 13)
    {
        const auto s = sized<unsigned long long>(id);
        new (at) Timer(s);
    }
    else if constexpr (Kind == 14)
    {
        const auto s = sized<unsigned long long>(id);
        new (at) Timer(std::move(s));
    }
    else
        new (at) Timer(Strange{p});
}
using Maker = void (*)(void*);
template <int Slot, int... K>
void fill(Maker* m, std::integer_sequence<int, K...>)
{
    (..., (m[K] = make<Slot, K>));
}
struct Makers
{
    Maker m[3][kKinds];
    Makers()
    {
        fill<0>(m[0], std::make_integer_sequence<int, kKinds>{});
        fill<1>(m[1], std::make_integer_sequence<int, kKinds>{});
        fill<2>(m[2], std::make_integer_sequence<int, kKinds>{});
    }
} g_makers;

// ---- the system ------------------------------------------------------------------
enum class K
{
    tick,
    make,
    move_make,
    move_assign,
    move_assign_moved_out,  // a = std::move(temporary moved from b)
    swap,
    reset,
    destroy
};
struct Op
{
    K k;
    int a, b;
    int64_t by;
};
std::vector<Op> ops;
int g_slots;

struct Sys
{
    struct Slot
    {
        alignas(Timer) unsigned char raw[sizeof(Timer)];
        bool present = false;
        int64_t start = 0;  // -1: unspecified
        int id = -1;        // of the callback, -1: none
    };
    Slot s[3];
    int64_t now = 0;

    Timer& t(int i) { return *reinterpret_cast<Timer*>(s[i].raw); }
    Sys()
    {
        g_now = 0;
        g_calls.clear();
        for (auto& x: s) memset(x.raw, 0x5a, sizeof x.raw);
    }
    void discard() {}
    static int nops() { return (int)ops.size(); }
    static std::string op_name(int i)
    {
        const Op& o = ops[i];
        switch (o.k)
        {
            case K::tick: return fmt("clock + %lld ns", (long long)o.by);
            case K::make: return fmt("t%d(%s)", o.a, kind_name[o.b]);
            case K::move_make: return fmt("t%d(move(t%d))", o.a, o.b);
            case K::move_assign: return fmt("t%d = move(t%d)", o.a, o.b);
            case K::move_assign_moved_out: return fmt("t%d = timer(move(t%d))", o.a, o.b);
            case K::swap: return fmt("swap(t%d, t%d)", o.a, o.b);
            case K::reset: return fmt("t%d.reset()", o.a);
            case K::destroy: return fmt("destroy t%d", o.a);
        }
        return "?";
    }
    static int64_t g_limit;
    bool enabled(int i) const
    {
        const Op& o = ops[i];
        switch (o.k)
        {
            case K::tick: return o.by <= g_limit - now;
            case K::make: return !s[o.a].present;
            case K::move_make: return !s[o.a].present && s[o.b].present;
            case K::move_assign:
            case K::move_assign_moved_out:
            case K::swap: return s[o.a].present && s[o.b].present;
            default: return s[o.a].present;
        }
    }
    void take(int a, int b)
    {
        if (a == b) return;
        s[a].start = s[b].start;
        s[a].id = s[b].id;
        s[b].id = -1;
        s[b].start = -1;
    }
    Step apply(int i, bool check)
    {
        const Op& o = ops[i];
        g_calls.clear();
        std::vector<Call> want;
        switch (o.k)
        {
            case K::tick:
                now += o.by;
                g_now = now;
                break;
            case K::make:
                g_makers.m[o.a][o.b](s[o.a].raw);
                s[o.a].present = true;
                s[o.a].start = now;
                s[o.a].id = o.a * 16 + o.b;
                break;
            case K::move_make:
                new (s[o.a].raw) Timer(std::move(t(o.b)));
                s[o.a].present = true;
                take(o.a, o.b);
                break;
            case K::move_assign:
                MC_CHECK("C27", &(t(o.a) = std::move(t(o.b))) == &t(o.a),
                         "assignment does not return the timer");
                take(o.a, o.b);
                break;
            case K::move_assign_moved_out:
            {
                const int id = s[o.b].id;
                const int64_t st = s[o.b].start;
                s[o.b].id = -1;
                s[o.b].start = -1;
                t(o.a) = Timer(std::move(t(o.b)));
                s[o.a].id = id;
                s[o.a].start = st;
                break;
            }
            case K::swap:
                std::swap(t(o.a), t(o.b));
                if (o.a != o.b)
                {
                    std::swap(s[o.a].id, s[o.b].id);
                    std::swap(s[o.a].start, s[o.b].start);
                }
                break;
            case K::reset:
                t(o.a).reset();
                s[o.a].start = now;
                break;
            case K::destroy:
            {
                if (s[o.a].id >= 0)
                    want.push_back({s[o.a].id, &t(o.a), s[o.a].start, 0});
                t(o.a).~Timer();
                memset(s[o.a].raw, 0x5a, sizeof s[o.a].raw);
                s[o.a].present = false;
                s[o.a].id = -1;
                s[o.a].start = 0;
                break;
            }
        }
        if (!check) return Step::next;
        std::string got;
        for (auto& c: g_calls)
            got += fmt(" callback %d of t%d (%s)", c.id, c.id / 16,
                       c.id % 16 < kKinds ? kind_name[c.id % 16] : "?");
        MC_CHECK("C27", g_calls.size() == want.size(), "called:%s; expected %zu calls",
                 got.empty() ? " nothing" : got.c_str(), want.size());
        for (size_t k = 0; k < want.size(); ++k)
        {
            MC_CHECK("C27", g_calls[k].id == want[k].id,
                     "called:%s; expected callback %d of t%d (%s)", got.c_str(), want[k].id,
                     want[k].id / 16, kind_name[want[k].id % 16]);
            MC_CHECK("C27", g_calls[k].timer == want[k].timer,
                     "the callback was given another timer");
            if (want[k].start >= 0)
            {
                MC_CHECK("C27", g_calls[k].start == want[k].start,
                         "the callback sees the start %lld, expected %lld",
                         (long long)g_calls[k].start, (long long)want[k].start);
                MC_CHECK("C28",
                         g_calls[k].start == want[k].start &&
                             g_calls[k].leaked == now - want[k].start,
                         "the callback reads start %lld and elapsed %lld at %lld, expected "
                         "start %lld",
                         (long long)g_calls[k].start, (long long)g_calls[k].leaked,
                         (long long)now, (long long)want[k].start);
            }
        }
        for (int k = 0; k < g_slots; ++k)
            if (s[k].present && s[k].start >= 0)
            {
                MC_CHECK("", start_of(t(k)) == s[k].start, "t%d has the start %lld, expected %lld",
                         k, (long long)start_of(t(k)), (long long)s[k].start);
                const int64_t d = now - s[k].start;
                const Timer& c = t(k);
                const int64_t l = ns(c.leaked()), sec = c.leaked_sec().count(),
                              ms = c.leaked_milli_sec().count(),
                              us = c.leaked_micro_sec().count(),
                              n = c.leaked_nano_sec().count();
                MC_CHECK("C28",
                         l == d && sec == d / 1000000000 && ms == d / 1000000 &&
                             us == d / 1000 && n == d,
                         "t%d started at %lld, at %lld it reads %lld (%lld s, %lld ms, %lld "
                         "us, %lld ns)",
                         k, (long long)s[k].start, (long long)now, (long long)l,
                         (long long)sec, (long long)ms, (long long)us, (long long)n);
                mc::count("readings", 5);
            }
        MC_CHECK("C27", g_calls.size() == want.size(), "reading a timer calls a callback");
        return Step::next;
    }
    void model_key(std::string& k) const
    {
        mc::put(k, now);
        for (int i = 0; i < g_slots; ++i)
        {
            mc::put(k, s[i].present);
            mc::put(k, s[i].start);
            mc::put(k, s[i].id);
        }
    }
    void impl_key(std::string& k)
    {
        for (int i = 0; i < g_slots; ++i)
            if (s[i].present) mc::put(k, start_of(t(i)));
    }
};
int64_t Sys::g_limit = 0;

void set_ops(int slots, const std::vector<int>& kinds, const std::vector<int64_t>& ticks,
             int64_t limit)
{
    g_slots = slots;
    Sys::g_limit = limit;
    ops.clear();
    for (int64_t d: ticks) ops.push_back({K::tick, 0, 0, d});
    for (int a = 0; a < slots; ++a)
    {
        for (int k: kinds) ops.push_back({K::make, a, k, 0});
        for (int b = 0; b < slots; ++b)
        {
            if (a != b) ops.push_back({K::move_make, a, b, 0});
            ops.push_back({K::move_assign, a, b, 0});
            ops.push_back({K::move_assign_moved_out, a, b, 0});
            if (a <= b) ops.push_back({K::swap, a, b, 0});
        }
        ops.push_back({K::reset, a, 0, 0});
        ops.push_back({K::destroy, a, 0, 0});
    }
}
std::vector<int> all_kinds()
{
    std::vector<int> v;
    for (int k = 0; k < kKinds; ++k) v.push_back(k);
    return v;
}

void pairs()
{
    set_ops(2, all_kinds(), {1}, 1);
    mc::explore<Sys>();
}
void triples()
{
    set_ops(3, {2, 3}, {1}, 1);
    mc::explore<Sys>();
}
void triples_more()
{
    set_ops(3, {2, 3, 8}, {1}, 2);
    mc::explore<Sys>();
}

// timers in a growing vector: the callback runs once, at the end
void in_vector()
{
    mc::S().current = [] { return std::string("vector of timers"); };
    for (int n = 1; n <= 32; ++n)
        for (int erase = -1; erase < n; ++erase)
        {
            mc::beat();
            std::vector<int> ids(n);
            for (int i = 0; i < n; ++i) ids[i] = i;
            g_calls.clear();
            std::vector<int> want;
            {
                std::vector<Timer> v;
                for (int i = 0; i < n; ++i)
                {
                    g_now = 10 * i;
                    int* p = &ids[i];
                    v.emplace_back([p](const Timer& t) { called(*p, t); });
                }
                MC_CHECK("C27", g_calls.empty(), "a callback ran while %d timers were added", n);
                // an order of moves: rotation and reversal
                std::reverse(v.begin(), v.end());
                std::reverse(v.begin(), v.end());
                MC_CHECK("C27", g_calls.empty(), "a callback ran while %d timers were swapped",
                         n);
                if (erase >= 0)
                {
                    // the last one moves over the erased one, whose callback is dropped
                    if (erase != n - 1) v[erase] = std::move(v.back());
                    v.pop_back();
                    MC_CHECK("C27", g_calls.size() == (erase == n - 1),
                             "%zu callbacks ran when timer %d of %d was replaced",
                             g_calls.size(), erase, n);
                }
                g_calls.clear();
                for (int i = 0; i < n; ++i)
                    if (i != erase) want.push_back(i);
                for (size_t i = 0; i < v.size(); ++i)
                {
                    const int id = erase >= 0 && (int)i == erase ? n - 1 : (int)i;
                    MC_CHECK("", start_of(v[i]) == 10 * id, "start of timer %zu of %d", i, n);
                }
            }
            std::vector<int> got;
            for (auto& c: g_calls) got.push_back(c.id);
            std::sort(got.begin(), got.end());
            MC_CHECK("C27", got == want, "%zu of %zu callbacks ran when the vector of %d died",
                     got.size(), want.size(), n);
            mc::count("states");
            mc::count("transitions", n);
            mc::count("traces");
        }
}

// ---- C28 --------------------------------------------------------------------------
std::vector<int64_t> interesting()
{
    std::vector<int64_t> v{0, 1, 2, 60000000000, 3600000000000, 86400000000000,
                           31556952000000000, 2 * 315569520000000000};
    for (int64_t unit: {int64_t{1}, int64_t{1000}, int64_t{1000000}, int64_t{1000000000}})
        for (int b = 0; b < 63; ++b)
        {
            const __int128 x = (__int128)unit << b;
            for (int64_t d: {int64_t{-1}, int64_t{0}, int64_t{1}, unit - 1, -unit})
                if (x + d >= 0 && x + d <= INT64_MAX) v.push_back((int64_t)(x + d));
        }
    for (int64_t p = 1; p < INT64_MAX / 10; p *= 10)
        for (int64_t d: {int64_t{-1}, int64_t{0}, int64_t{1}})
            for (int64_t m: {1, 2, 3, 7, 9}) v.push_back(p * m + d);
    v.push_back(INT64_MAX);
    v.push_back(INT64_MAX - 1);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
void readings()
{
    static int64_t start, diff;
    mc::S().current = []
    { return fmt("start at %lld ns, read %lld ns later", (long long)start, (long long)diff); };
    const auto d = interesting();
    std::vector<int64_t> starts{0, 1, 999999999, 1000000000, 123456789012345678, int64_t{1} << 32,
                                int64_t{1} << 53, (int64_t{1} << 62) + 5, INT64_MAX};
    for (int64_t s: starts)
        for (int64_t x: d)
        {
            if (x > INT64_MAX - s) break;
            start = s;
            diff = x;
            mc::beat();
            for (int form = 0; form < 4; ++form)
            {
                g_now = form == 1 ? 0 : s;
                Timer t([](const Timer&) {});
                g_now = s;
                if (form == 1) t.reset();
                Timer u(std::move(t));
                if (form == 2)
                {
                    Timer w([](const Timer&) {});
                    g_now = s + x / 2;
                    w = std::move(u);
                    u = std::move(w);
                }
                g_now = s + x;
                if (form == 3)
                {
                    // readings do not change anything
                    (void)u.leaked();
                    (void)u.leaked_sec();
                }
                MC_CHECK("C28",
                         ns(u.leaked()) == x && u.leaked_sec().count() == x / 1000000000 &&
                             u.leaked_milli_sec().count() == x / 1000000 &&
                             u.leaked_micro_sec().count() == x / 1000 &&
                             u.leaked_nano_sec().count() == x && start_of(u) == s,
                         "%lld ns, %lld s, %lld ms, %lld us, %lld ns",
                         (long long)ns(u.leaked()), (long long)u.leaked_sec().count(),
                         (long long)u.leaked_milli_sec().count(),
                         (long long)u.leaked_micro_sec().count(),
                         (long long)u.leaked_nano_sec().count());
                // the units are those of the standard types
                const std::chrono::seconds a = std::as_const(u).leaked_sec();
                const std::chrono::milliseconds b = std::as_const(u).leaked_milli_sec();
                const std::chrono::microseconds c = std::as_const(u).leaked_micro_sec();
                const std::chrono::nanoseconds e = std::as_const(u).leaked_nano_sec();
                MC_CHECK("C28",
                         a.count() == x / 1000000000 && b.count() == x / 1000000 &&
                             c.count() == x / 1000 && e.count() == x,
                         "a unit is not the one of its name");
                mc::count("states");
                mc::count("transitions", 5);
                mc::count("traces", 5);
            }
        }
    mc::sample("timer started at 2^53 ns, read 2^32 * 1000000 - 1 ns later");
}
void clock_history()
{
    // two timers, all histories up to the given depth
    const bool th = mc::S().thorough;
    set_ops(2, {2}, {0, 1, 999, 999999, 1000000000, int64_t{4294967297} * 1000000,
                     int64_t{2147483648} * 1000000000},
            INT64_MAX);
    ops.erase(ops.begin());
    mc::explore<Sys>(th ? 9 : 7);
}

// ---- timers of other sizes and over other clocks -------------------------------------
template <class Rep, class Period, int Tag>
struct Clk
{
    using rep = Rep;
    using period = Period;
    using duration = std::chrono::duration<rep, period>;
    using time_point = std::chrono::time_point<Clk>;
    static constexpr bool is_steady = true;
    static inline rep t{};
    static time_point now() noexcept { return time_point(duration(t)); }
};

struct WideCall
{
    int id;
    const void* timer;
    size_t length;
    bool intact, aligned;
};
std::vector<WideCall> g_wide;

// a callback of N bytes, each different, the first one is the id
template <size_t N, size_t A>
struct alignas(A) Wide
{
    unsigned char b[N];
    explicit Wide(int id)
    {
        b[0] = static_cast<unsigned char>(id);
        for (size_t i = 1; i < N; ++i) b[i] = static_cast<unsigned char>(id * 101 + i * 7 + 1);
    }
    template <class T>
    void operator()(const T& t) const noexcept
    {
        bool ok = true;
        for (size_t i = 1; i < N; ++i)
            ok = ok && b[i] == static_cast<unsigned char>(b[0] * 101 + i * 7 + 1);
        g_wide.push_back({b[0], &t, N, ok, reinterpret_cast<uintptr_t>(this) % A == 0});
    }
};

const char* wide_what[] = {"swap(a, b)",        "a = move(b)",  "b = move(a)",
                           "a = timer(move(a))", "relocate(a)", "relocate(b)",
                           "a = move(a)",        "swap(a, a)"};
constexpr int kWide = 8;

template <size_t MaxA, size_t MaxS, size_t N, size_t A, size_t M, size_t B>
void wide_pair(int depth)
{
    using C = Clk<int64_t, std::nano, 1>;
    using T = TimerOf<MaxA, MaxS, C>;
    static_assert(T::kMaxCallbackAlignment == MaxA && T::kMaxCallbackSize == MaxS, "");
    static std::vector<int> seq;
    mc::S().current = []
    {
        std::string r = fmt("timer<%zu, %zu>: a(%zu bytes aligned to %zu), b(%zu, %zu)", MaxA, MaxS,
                            N, A, M, B);
        for (int x: seq) r += std::string("; ") + wide_what[x];
        return r + "; destroy a and b";
    };
    int total = 1;
    for (int i = 0; i < depth; ++i) total *= kWide;
    for (int code = 0; code < total; ++code)
    {
        mc::beat();
        seq.clear();
        for (int i = 0, c = code; i < depth; ++i, c /= kWide) seq.push_back(c % kWide);
        g_wide.clear();
        struct alignas(MaxA) alignas(T) Store
        {
            unsigned char raw[sizeof(T)];
        } store[4];
        memset(store, 0x5a, sizeof store);
        T* t[2];
        int own[2] = {1, 2};
        int64_t start[2] = {5, 9};
        C::t = 5;
        t[0] = new (store[0].raw) T(Wide<N, A>(1));
        C::t = 9;
        const Wide<M, B> w(2);
        t[1] = new (store[1].raw) T(w);
        C::t = 20;
        auto take = [&](int a, int b)
        {
            own[a] = own[b];
            start[a] = start[b];
            own[b] = 0;
            start[b] = -1;
        };
        for (int x: seq) switch (x)
            {
                case 0:
                    std::swap(*t[0], *t[1]);
                    std::swap(own[0], own[1]);
                    std::swap(start[0], start[1]);
                    break;
                case 1:
                    *t[0] = std::move(*t[1]);
                    take(0, 1);
                    break;
                case 2:
                    *t[1] = std::move(*t[0]);
                    take(1, 0);
                    break;
                case 3: *t[0] = T(std::move(*t[0])); break;
                case 4:
                case 5:
                {
                    const int k = x - 4;
                    void* to = t[k] == (void*)store[k].raw ? store[k + 2].raw : store[k].raw;
                    T* from = t[k];
                    t[k] = new (to) T(std::move(*from));
                    from->~T();
                    memset((void*)from, 0xa5, sizeof(T));
                    break;
                }
                case 6:
                {
                    T& same = *t[0];
                    *t[0] = std::move(same);
                    break;
                }
                case 7: std::swap(*t[0], *t[0]); break;
            }
        MC_CHECK("C27", g_wide.empty(), "a callback ran before its timer died");
        for (int k = 0; k < 2; ++k)
        {
            if (start[k] >= 0)
                MC_CHECK("C28",
                         t[k]->start_tp().time_since_epoch().count() == start[k] &&
                             t[k]->leaked().count() == 20 - start[k],
                         "%c started at %lld instead of %lld", 'a' + k,
                         (long long)t[k]->start_tp().time_since_epoch().count(),
                         (long long)start[k]);
            g_wide.clear();
            t[k]->~T();
            MC_CHECK("C27", g_wide.size() == (own[k] != 0), "%zu callbacks ran when %c died, %d was owned",
                     g_wide.size(), 'a' + k, own[k]);
            if (own[k])
            {
                MC_CHECK("C27", g_wide[0].id == own[k], "callback %d ran instead of %d",
                         g_wide[0].id, own[k]);
                MC_CHECK("C27", g_wide[0].timer == t[k], "the callback was given another timer");
                MC_CHECK("C27", g_wide[0].length == (own[k] == 1 ? N : M) && g_wide[0].intact,
                         "the %zu bytes of the callback changed on the way", own[k] == 1 ? N : M);
                MC_CHECK("C27", g_wide[0].aligned, "the callback is not aligned");
            }
        }
        mc::count("states");
        mc::count("traces");
        mc::count("transitions", depth + 4);
    }
}
// callbacks of the given numbers of alignment units, each with the largest one
template <size_t MaxA, size_t MaxS, size_t A, size_t... N>
void wide_sizes(int depth, std::index_sequence<N...>)
{
    constexpr size_t kLargest = MaxS / MaxA * MaxA;
    (..., wide_pair<MaxA, MaxS, N * A, A, kLargest ? kLargest : A, kLargest ? MaxA : A>(depth));
}
template <size_t MaxA, size_t MaxS, size_t... N>
void wide_all(int depth)
{
    wide_sizes<MaxA, MaxS, 1>(depth, std::index_sequence<N...>{});
    if constexpr (MaxA > 1) wide_pair<MaxA, MaxS, 2, 2, MaxS / 2 * 2, 2>(depth);
    if constexpr (MaxA > 2) wide_pair<MaxA, MaxS, 4, 4, MaxS / 4 * 4, 4>(depth);
    if constexpr (MaxA > 4) wide_pair<MaxA, MaxS, 8, 8, MaxS / 8 * 8, 8>(depth);
}
void wide()
{
    const int d = mc::S().thorough ? 5 : 3;
    wide_all<8, 8, 1, 3, 7>(d);
    wide_all<1, 5, 1, 4, 5>(d);
    wide_all<8, 24, 1, 7, 9, 15, 17, 23>(d);
    wide_all<4, 33, 1, 31, 32, 33>(d);
    wide_all<16, 64, 1, 15, 16, 17, 31, 33, 63, 64>(d);
    wide_pair<64, 256, 256, 64, 200, 8>(d);
    wide_pair<64, 256, 192, 64, 255, 1>(d);
    mc::sample("timer<16, 64>: a(17 bytes), b(64 bytes); swap; a = move(a); relocate(b)");
}

template <class Rep, class Period, int Tag>
void clock_readings(const char* name, bool negative)
{
    using C = Clk<Rep, Period, Tag>;
    using T = TimerOf<8, 8, C>;
    static int64_t start, diff;
    static const char* n;
    n = name;
    mc::S().current = []
    {
        return fmt("clock of %s: start at %lld, read %lld ticks later", n, (long long)start,
                   (long long)diff);
    };
    std::vector<int64_t> d{0};
    for (int b = 0; b < 63; ++b)
        for (int64_t m: {1, 3, 5, 10, 1000, 1000000, 1000000000})
            for (int k = -1; k <= 1; ++k)
            {
                const __int128 x = ((__int128)m << b) + k;
                if (x > 0 && x <= (__int128)std::numeric_limits<Rep>::max())
                    d.push_back((int64_t)x);
            }
    const size_t k = d.size();
    for (size_t i = 0; negative && i < k; ++i) d.push_back(-d[i]);
    for (int64_t s: {int64_t{0}, int64_t{1}, int64_t{123456789}, int64_t{-7}})
        for (int64_t x: d)
        {
            const __int128 end = (__int128)s + x;
            if (end > (__int128)std::numeric_limits<Rep>::max() ||
                end < (__int128)std::numeric_limits<Rep>::min() ||
                s < (__int128)std::numeric_limits<Rep>::min())
                continue;
            start = s;
            diff = x;
            mc::beat();
            auto in = [x](__int128 unit)  // ticks -> 1/unit s, truncated
            { return (__int128)x * Period::num * unit / Period::den; };
            auto fits = [&](__int128 unit)
            {
                const __int128 up = (__int128)x * Period::num * unit;
                return up <= INT64_MAX && up >= INT64_MIN;
            };
            C::t = static_cast<Rep>(s);
            T t([](const T&) noexcept {});
            C::t = static_cast<Rep>(s + x);
            MC_CHECK("C28", t.leaked().count() == static_cast<Rep>(x), "it reads %lld ticks",
                     (long long)t.leaked().count());
            MC_CHECK("C28", t.start_tp().time_since_epoch().count() == static_cast<Rep>(s),
                     "another start");
            if (fits(1))
                MC_CHECK("C28", t.leaked_sec().count() == in(1), "it reads %lld s",
                         (long long)t.leaked_sec().count());
            if (fits(1000))
                MC_CHECK("C28", t.leaked_milli_sec().count() == in(1000), "it reads %lld ms",
                         (long long)t.leaked_milli_sec().count());
            if (fits(1000000))
                MC_CHECK("C28", t.leaked_micro_sec().count() == in(1000000), "it reads %lld us",
                         (long long)t.leaked_micro_sec().count());
            if (fits(1000000000))
                MC_CHECK("C28", t.leaked_nano_sec().count() == in(1000000000), "it reads %lld ns",
                         (long long)t.leaked_nano_sec().count());
            mc::count("states");
            mc::count("traces");
            mc::count("transitions", 5);
        }
}
void clocks()
{
    clock_readings<int64_t, std::nano, 2>("nanoseconds", true);
    clock_readings<int64_t, std::micro, 2>("microseconds", true);
    clock_readings<int64_t, std::milli, 2>("milliseconds", true);
    clock_readings<int64_t, std::ratio<1>, 2>("seconds", true);
    clock_readings<int64_t, std::ratio<60>, 2>("minutes", true);
    clock_readings<int64_t, std::ratio<1, 10000000>, 2>("100 ns", true);
    clock_readings<int64_t, std::ratio<1, 32768>, 2>("1/32768 s", true);
    clock_readings<int32_t, std::milli, 2>("milliseconds in 32 bits", true);
    clock_readings<long long, std::nano, 2>("nanoseconds (long long)", true);
    mc::sample("clock of 1/32768 s: start at -7, read 2^40 ticks earlier");
}

void reg()
{
    mc::add("two_timers", pairs, 0, "C27");
    mc::add("three_timers", triples, 0, "C27");
    mc::add("three_timers_more", triples_more, 0, "C27");
    mc::add("three_timers_every_kind", [] { set_ops(3, all_kinds(), {1}, 1); mc::explore<Sys>(); },
            1, "C27");
    mc::add("vector", in_vector, 0, "C27");
    mc::add("sizes", wide, 0, "C27");
    mc::add("sizes_clock", wide, 0, "C28");
    mc::add("clocks", clocks, 0, "C28");
    mc::add("readings", readings, 0, "C28");
    mc::add("clock_history", clock_history, 0, "C28");
    mc::add("three_timers_clock", [] { set_ops(3, {2}, {1}, 2); mc::explore<Sys>(); }, 0, "C28");
}
}  // namespace
MC_MAIN(reg)
