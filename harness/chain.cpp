// C14: stacks of resources, from every reachable state of the whole stack.
#include <algorithm>
#include <cstddef>
#include <new>
#include <string>
#include <vector>

#include <mc.h>
#include <upstream.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

using std::size_t;
using std::uintptr_t;
namespace um = utils::memory;
using mc::fmt;
using mc::Step;

namespace
{
constexpr size_t MX = ~size_t{0};

// ---- user-defined resources -----------------------------------------------
struct Calls
{
    int allocs = 0, frees = 0;
    size_t size = 0, align = 0;
    void* freed = nullptr;
};
// forwards everything and records it
struct Tap : um::memory_resource
{
    Calls c;
    um::memory_resource* next;
    explicit Tap(um::memory_resource* n)
        : memory_resource(&Tap::allocate<Tap>, &Tap::deallocate<Tap>), next(n)
    {
    }
    bool is_equal(const memory_resource& o) const noexcept override
    {
        return &o == this;
    }

   private:
    friend class um::memory_resource;
    void* allocate_impl(size_t s, size_t a) noexcept
    {
        ++c.allocs;
        c.size = s;
        c.align = a;
        return next ? next->allocate(s, a) : nullptr;
    }
    void deallocate_impl(void* p) noexcept
    {
        ++c.frees;
        c.freed = p;
        if (next) next->deallocate(p);
    }
};
struct Other
{
    virtual ~Other() = default;
    char pad[40];
    virtual int f() { return 1; }
};
// the resource is not the first base
struct SideTap : Other, um::memory_resource
{
    Calls c;
    um::memory_resource* next;
    explicit SideTap(um::memory_resource* n)
        : memory_resource(&SideTap::allocate<SideTap>,
                          &SideTap::deallocate<SideTap>)
        , next(n)
    {
    }
    bool is_equal(const memory_resource& o) const noexcept override
    {
        return &o == static_cast<const memory_resource*>(this);
    }
    void* allocate_impl(size_t s, size_t a) noexcept
    {
        ++c.allocs;
        c.size = s;
        c.align = a;
        return next ? next->allocate(s, a) : nullptr;
    }
    void deallocate_impl(void* p) noexcept
    {
        ++c.frees;
        c.freed = p;
        if (next) next->deallocate(p);
    }
};

enum class LK
{
    s38,   // simple<3,8>
    s216,  // simple<2,16>
    s44,   // simple<4,4>
    mono,
    tap,
    side_tap,
    system,
    null,
    none
};
struct LevelCfg
{
    LK kind;
    uintptr_t lo = 0;
    size_t len = 0;
};
struct alignas(16) T24
{
    char c[32];
};
struct T5
{
    char c[5];
};

enum class Kind
{
    alloc,
    alloc_default,
    alloc_t24,
    alloc_t5,
    dealloc,
    dealloc_null,
    release
};
struct Op
{
    Kind kind;
    size_t a = 0, b = 0;
    bool up_ok = true;
};
struct Cfg
{
    std::vector<LevelCfg> levels;  // top first
    std::vector<Op> ops;
} cfg;

// the same addresses in every replay
alignas(64) std::byte g_st[8][256];

struct Level
{
    LevelCfg c;
    size_t B = 1, blocks = 0;
    uintptr_t data = 0;
    std::byte* st = nullptr;
    size_t bytes = 0;
    um::memory_resource* r = nullptr;
    um::monotonic_buffer_resource* m = nullptr;
    um::simple_resource<3, 8>* s38 = nullptr;
    um::simple_resource<2, 16>* s216 = nullptr;
    um::simple_resource<4, 4>* s44 = nullptr;
    Tap* tap = nullptr;
    SideTap* side = nullptr;
    uintptr_t end = 0;  // mono
    template <class F>
    void simple(F f)
    {
        if (s38) f(*s38);
        if (s216) f(*s216);
        if (s44) f(*s44);
    }
    bool is_simple() const { return s38 || s216 || s44; }
    Calls* calls() { return tap ? &tap->c : side ? &side->c : nullptr; }
};

struct Sys
{
    struct Live
    {
        uintptr_t p;
        size_t size;
        int level;
        bool gone = false;  // freed by the user, absorbed by a monotonic level
    };
    std::vector<Live> live;
    std::vector<Level> lv;

    template <size_t N, size_t B>
    void simple(Level& l, um::simple_resource<N, B>*& s, um::memory_resource* u)
    {
        using R = um::simple_resource<N, B>;
        static_assert(sizeof(R) <= sizeof g_st[0]);
        s = new (l.st) R(reinterpret_cast<std::byte*>(l.c.lo), l.c.len, u);
        l.r = s;
        l.bytes = sizeof(R);
        l.B = B;
        const size_t skip = (B - l.c.lo % B) % B;
        l.blocks = std::min(N, skip < l.c.len ? (l.c.len - skip) / B : 0);
        l.data = l.c.lo + skip;
    }

    Sys() : lv(cfg.levels.size())
    {
        up = Upstream{up.base};
        for (size_t i = lv.size(); i-- > 0;)
        {
            Level& l = lv[i];
            l.c = cfg.levels[i];
            l.st = g_st[i];
            memset(l.st, 0, sizeof g_st[i]);
            um::memory_resource* u = i + 1 < lv.size() ? lv[i + 1].r : nullptr;
            switch (l.c.kind)
            {
                case LK::s38: simple(l, l.s38, u); break;
                case LK::s216: simple(l, l.s216, u); break;
                case LK::s44: simple(l, l.s44, u); break;
                case LK::mono:
                    l.r = l.m = new (l.st) um::monotonic_buffer_resource(
                        reinterpret_cast<std::byte*>(l.c.lo), l.c.len, u);
                    l.bytes = sizeof(um::monotonic_buffer_resource);
                    l.data = l.end = l.c.lo;
                    break;
                case LK::tap: l.r = l.tap = new (l.st) Tap(u); break;
                case LK::side_tap: l.r = l.side = new (l.st) SideTap(u); break;
                case LK::system: l.r = um::system_memory_resource(); break;
                case LK::null: l.r = um::null_memory_resource(); break;
                case LK::none: break;
            }
        }
    }
    Sys(const Sys&) = delete;
    void discard() {}

    std::vector<std::pair<size_t, size_t>> free_runs(int k) const
    {
        std::vector<std::pair<size_t, size_t>> v;
        const Level& l = lv[(size_t)k];
        size_t at = 0;
        for (auto& x: live)
        {
            if (x.level != k) continue;
            const size_t f = (x.p - l.data) / l.B,
                         e = (x.p - l.data + x.size - 1) / l.B;
            if (f > at) v.push_back({at, f - at});
            at = e + 1;
        }
        if (at < l.blocks) v.push_back({at, l.blocks - at});
        return v;
    }
    // lowest address of level k that holds the request, 0 if there is none
    uintptr_t fit(int k, size_t size, size_t align) const
    {
        const Level& l = lv[(size_t)k];
        const uintptr_t m = align - 1;
        if (l.m)
        {
            if (!l.c.len) return 0;
            const uintptr_t a = (l.end + m) & ~m, hi = l.c.lo + l.c.len;
            return a >= l.end && a <= hi && size <= hi - a ? a : 0;
        }
        for (auto& [b, n]: free_runs(k))
        {
            const uintptr_t s = l.data + b * l.B, e = s + n * l.B;
            const uintptr_t a = (s + m) & ~m;
            if (a >= s && a < e && size <= e - a) return a;
        }
        return 0;
    }
    size_t guaranteed(const Level& l) const
    {
        if (!l.blocks) return 0;
        size_t v = (l.data & (~l.data + 1)) + l.blocks * l.B - 1, g = 1;
        while (v >>= 1) g <<= 1;
        return g;
    }

    static int nops() { return (int)cfg.ops.size(); }
    static std::string op_name(int i)
    {
        const Op& o = cfg.ops[i];
        const char* f = o.up_ok ? "" : "/bottom-fails";
        switch (o.kind)
        {
            case Kind::alloc: return fmt("allocate(%zu,%zu)%s", o.a, o.b, f);
            case Kind::alloc_default: return fmt("allocate(%zu)%s", o.a, f);
            case Kind::alloc_t24: return fmt("allocate<T32a16>()%s", f);
            case Kind::alloc_t5: return fmt("allocate<T5>()%s", f);
            case Kind::dealloc: return fmt("deallocate(#%zu)", o.a);
            case Kind::dealloc_null: return "deallocate(null)";
            case Kind::release: return fmt("level %zu release()", o.a);
        }
        return "?";
    }
    bool enabled(int i) const
    {
        const Op& o = cfg.ops[i];
        if (o.kind == Kind::dealloc)
            return o.a < live.size() && !live[o.a].gone;
        if (o.kind == Kind::release)
            return o.a < lv.size() && (lv[o.a].m || lv[o.a].is_simple());
        return true;
    }

    void books()
    {
        for (size_t k = 0; k < lv.size(); ++k)
        {
            Level& l = lv[k];
            if (!l.is_simple()) continue;
            size_t busy = 0;
            for (auto& x: live) busy += x.level == (int)k;
            const auto fr = free_runs((int)k);
            std::vector<bool> used(l.blocks, true);
            for (auto& [b, n]: fr)
                for (size_t i = 0; i < n; ++i) used[b + i] = false;
            l.simple(
                [&](auto& s)
                {
                    using I = typename std::decay_t<decltype(s)>::BIndex;
                    MC_CHECK("C14", s.busy_count() == busy && s.free_count() == fr.size(),
                             "level %zu reports %zu busy and %zu free regions, "
                             "there are %zu and %zu",
                             k, (size_t)s.busy_count(), (size_t)s.free_count(),
                             busy, fr.size());
                    for (auto& x: live)
                        if (x.level == (int)k)
                            MC_CHECK("C14", s.in_use((I)((x.p - l.data) / l.B)),
                                     "level %zu: a live block is not in use", k);
                    for (auto& [b, n]: fr)
                        MC_CHECK("C14", !s.in_use((I)b) && s.block_size((I)b) == n,
                                 "level %zu: free region at block %zu", k, b);
                });
        }
    }

    Step apply(int i, bool check)
    {
        const Op& o = cfg.ops[i];
        up.allocs = up.frees = 0;
        up.answer_ok = o.up_ok;
        for (auto& l: lv)
            if (auto* c = l.calls()) *c = Calls{};
        um::memory_resource* top = lv[0].r;
        void* res = nullptr;
        size_t size = o.a, align = o.b;
        const auto die = [&](const char* what)
        {
            mc::fail("C14", fmt("%s terminated", what));
            return Step::end;
        };
        switch (o.kind)
        {
            case Kind::alloc:
                if (mc::guarded([&] { res = top->allocate(o.a, o.b); }))
                    return die("allocate");
                break;
            case Kind::alloc_default:
                align = alignof(std::max_align_t);
                if (mc::guarded([&] { res = top->allocate(o.a); }))
                    return die("allocate");
                break;
            case Kind::alloc_t24:
                size = sizeof(T24), align = alignof(T24);
                if (mc::guarded([&] { res = top->allocate<T24>(); }))
                    return die("allocate");
                break;
            case Kind::alloc_t5:
                size = sizeof(T5), align = alignof(T5);
                if (mc::guarded([&] { res = top->allocate<T5>(); }))
                    return die("allocate");
                break;
            case Kind::dealloc: return do_dealloc(o.a, check);
            case Kind::dealloc_null:
                if (mc::guarded([&] { top->deallocate(nullptr); }))
                    return die("deallocate(null)");
                if (check)
                {
                    MC_CHECK("C14", !up.allocs && !(up.frees && up.freed),
                             "deallocate(null) freed a block");
                    books();
                }
                return Step::next;
            case Kind::release:
            {
                Level& l = lv[o.a];
                if (mc::guarded(
                        [&]
                        {
                            if (l.m) l.m->release();
                            l.simple([](auto& s) { s.release(); });
                        }))
                    return die("release");
                live.erase(std::remove_if(live.begin(), live.end(),
                                          [&](const Live& x)
                                          { return x.level == (int)o.a; }),
                           live.end());
                if (l.m) l.end = l.data;
                if (check)
                {
                    MC_CHECK("C14", !up.allocs && !up.frees,
                             "release() reached the bottom");
                    books();
                }
                return Step::next;
            }
        }
        // ---- an allocation: who may have served it?
        const uintptr_t p = reinterpret_cast<uintptr_t>(res);
        int owner = -1;
        for (size_t k = 0; k < lv.size(); ++k)
            if (lv[k].c.lo && p >= lv[k].c.lo && p < lv[k].c.lo + lv[k].c.len)
                owner = (int)k;
        const int bottom = (int)lv.size() - 1;
        if (p && owner < 0 && up.allocs && p == up.result) owner = bottom;
        std::vector<int> may;
        size_t hi = align;
        int must = -1;
        int zero_stop = -1;  // an empty request ends at the first buffer level
        for (int k = 0; k < (int)lv.size() && must < 0; ++k)
        {
            Level& l = lv[(size_t)k];
            if (!size && (l.m || l.is_simple()))
            {
                zero_stop = k;
                break;
            }
            if (l.m || l.is_simple())
            {
                if (fit(k, size, hi) && (l.m || hi <= guaranteed(l)))
                    must = k;
                else if (fit(k, size, align))
                    may.push_back(k);
                if (l.is_simple()) hi = std::max(hi, l.B);
            }
            else if (l.c.kind == LK::system && up.result)
                must = k;
        }
        if (check)
        {
            if (zero_stop >= 0)
                MC_CHECK("C14", !p, "an empty request got %#lx", (long)p);
            else if (p)
            {
                MC_CHECK("C14", owner >= 0, "%#lx belongs to no level", (long)p);
                MC_CHECK("C14", p % align == 0, "%#lx is not aligned to %zu",
                         (long)p, align);
                MC_CHECK("C14",
                         owner == must ||
                             std::find(may.begin(), may.end(), owner) != may.end(),
                         "served by level %d, expected level %d", owner, must);
                for (auto& x: live)
                    MC_CHECK("C14", x.p < p ? x.size <= p - x.p : size <= x.p - p,
                             "[%#lx,+%zu) overlaps live block [%#lx,+%zu)",
                             (long)p, size, (long)x.p, x.size);
                const Level& l = lv[(size_t)owner];
                if (l.m)
                    MC_CHECK("C14", p >= l.end && size <= l.c.lo + l.c.len - p,
                             "[%#lx,+%zu) is not in the rest of the buffer",
                             (long)p, size);
                if (l.is_simple())
                    MC_CHECK("C14",
                             p >= l.data && (p - l.data) % l.B == 0 &&
                                 size <= l.data + l.blocks * l.B - p,
                             "[%#lx,+%zu) is not made of blocks", (long)p, size);
            }
            else
                MC_CHECK("C14", must < 0, "null although level %d can serve", must);
            // the levels above the owner were asked once, those below never
            for (size_t k = 0; k < lv.size(); ++k)
                if (auto* c = lv[k].calls())
                {
                    const bool above = zero_stop >= 0
                                           ? (int)k < zero_stop
                                           : (owner < 0 || (int)k < owner);
                    MC_CHECK("C14", c->allocs == (int)above && !c->frees,
                             "user-defined level %zu was asked %d times", k,
                             c->allocs);
                    if (above)
                        MC_CHECK("C14", c->size == size &&
                                     (k ? c->align >= align : c->align == align),
                                 "user-defined level %zu was asked for %zu/%zu, "
                                 "the request was %zu/%zu",
                                 k, c->size, c->align, size, align);
                }
            MC_CHECK("C14", !up.frees, "allocate freed");
        }
        if (p && owner >= 0)
        {
            if (lv[(size_t)owner].m) lv[(size_t)owner].end = p + size;
            live.push_back({p, size, owner});
            std::sort(live.begin(), live.end(),
                      [](const Live& a, const Live& b) { return a.p < b.p; });
        }
        if (check) books();
        return Step::next;
    }

    Step do_dealloc(size_t k, bool check)
    {
        const Live x = live[k];
        if (mc::guarded([&]
                        { lv[0].r->deallocate(reinterpret_cast<void*>(x.p)); }))
        {
            mc::fail("C14", "freeing a live block through the top terminated");
            return Step::end;
        }
        // a monotonic level above the owner (or the owner) ends the call
        int stop = x.level;
        for (int i = x.level; i >= 0; --i)
            if (lv[(size_t)i].m) stop = i;
        if (stop != x.level)
            live[k].gone = true;
        else
            live.erase(live.begin() + (long)k);
        if (!check) return Step::next;
        for (size_t i = 0; i < lv.size(); ++i)
            if (auto* c = lv[i].calls())
            {
                const bool reached = (int)i <= stop;
                MC_CHECK("C14",
                         c->frees == (int)reached && !c->allocs &&
                             (!reached || c->freed == (void*)x.p),
                         "user-defined level %zu saw the deallocation %d times",
                         i, c->frees);
            }
        const bool at_bottom =
            stop == x.level && lv[(size_t)x.level].c.kind == LK::system;
        MC_CHECK("C14", up.frees == (int)at_bottom && !up.allocs &&
                     (!at_bottom || up.freed == x.p),
                 "the bottom freed %d blocks", up.frees);
        books();
        return Step::next;
    }

    void model_key(std::string& k) const
    {
        for (auto& x: live)
        {
            mc::put(k, x.p);
            mc::put(k, x.level);
            mc::put(k, x.gone);
            const Level& l = lv[(size_t)x.level];
            mc::put(k, l.m ? 0 : (x.size + l.B - 1) / l.B);
        }
        for (auto& l: lv) mc::put(k, l.end);
    }
    void impl_key(std::string& k) const
    {
        for (auto& l: lv) k.append((const char*)l.st, l.bytes);
    }
};

void add(const char* name, std::vector<LevelCfg> levels,
         std::vector<size_t> sizes, std::vector<size_t> aligns, int tier = 0,
         size_t maxlive = 7, int max_depth = 1 << 20, size_t max_states = 60000)
{
    mc::add(
        name,
        [=]
        {
            sysops::memory::ops::current_hooks() = {up_memalign, up_free};
            up_limit = kSlotDist / 2;  // blocks of the bottom do not overlap
            cfg.levels = levels;
            cfg.ops.clear();
            const bool sys = levels.back().kind == LK::system;
            for (size_t s: sizes)
                for (size_t a: aligns)
                    cfg.ops.push_back({Kind::alloc, s, a, true});
            if (sys)
                for (size_t s: {sizes[1], sizes[sizes.size() - 2]})
                    cfg.ops.push_back({Kind::alloc, s, aligns[0], false});
            cfg.ops.push_back({Kind::alloc_default, 8});
            cfg.ops.push_back({Kind::alloc_t24});
            cfg.ops.push_back({Kind::alloc_t5});
            if (sys) cfg.ops.push_back({Kind::alloc_t24, 0, 0, false});
            for (size_t k = 0; k < maxlive; ++k)
                cfg.ops.push_back({Kind::dealloc, k});
            cfg.ops.push_back({Kind::dealloc_null});
            for (size_t k = 0; k + 1 < levels.size(); ++k)
                cfg.ops.push_back({Kind::release, k});
#ifndef __SANITIZE_ADDRESS__
            const size_t lim = max_states * 10;  // this build is that much faster
#else
            const size_t lim = max_states;
#endif
            mc::explore<Sys>(max_depth, lim);
        },
        tier, "C14");
}

void reg()
{
    const uintptr_t A = uintptr_t{1} << 41;  // never dereferenced
    using V = std::vector<LevelCfg>;
    const LevelCfg sys{LK::system}, nul{LK::null}, none{LK::none}, tap{LK::tap},
        side{LK::side_tap};
    const LevelCfg top8{LK::s38, A, 24}, mid16{LK::s216, A + 32, 32},
        low4{LK::s44, A + 24, 16}, m24{LK::mono, A + 64, 24},
        m40{LK::mono, A + 24, 40};
    const std::vector<size_t> sz = {0, 1, 8, 9, 16, 24, 25, 40, 64, MX};
    const std::vector<size_t> few = {0, 8, 17, 24, 40, MX};
    const std::vector<size_t> al = {1, 8, 16, 32};
    add("simple_simple_system", V{top8, mid16, sys}, few, al);
    add("deep_simple_simple_system", V{top8, mid16, sys}, sz, al, 1);
    add("simple4_simple8_tap_null", V{low4, {LK::s38, A, 24}, tap, nul},
        {0, 1, 4, 5, 8, 16, 17, 24, MX}, {1, 4, 8, 16});
    add("big_blocks_on_small", V{mid16, {LK::s44, A + 64, 16}, tap, sys}, few, {1, 16, 32});
    add("simple_mono_system", V{top8, m40, sys}, few, al, 0, 7, 1 << 20, 5000);
    add("mono_simple_system", V{m24, {LK::s38, A + 88, 24}, sys}, {0, 8, 17, 24, MX}, {1, 16},
        0, 7, 1 << 20, 6000);
    add("mono_mono_none", V{m24, {LK::mono, A + 24, 40}, none}, {0, 8, 17, 24, MX},
        {1, 8, 16}, 0, 6, 1 << 20, 6000);
    add("tap_simple_side_mono_system", V{tap, top8, side, {LK::mono, A + 24, 24}, sys},
        {0, 8, 24, 25, MX}, {1, 16}, 0, 7, 1 << 20, 4000);
    add("side_system", V{side, sys}, sz, {1, 2, 4, 8, 16, 64, 4096});
    add("tap_null", V{tap, nul}, sz, {1, 2, 4, 8, 16, 64, 4096});
    add("empty_levels", V{{LK::s38, A, 7}, {LK::mono, A + 8, 0}, {LK::s44, A + 3, 2}, tap, sys},
        sz, al);
    add("exactly_adjacent", V{{LK::s216, A + 32, 32}, {LK::s38, A + 8, 24},
                              {LK::s44, A + 64, 16}, none},
        {0, 4, 8, 16, 24, 32, MX}, {1, 8, 16}, 0, 9);
    // thorough
    add("deep_simple_mono_system", V{top8, m40, sys}, sz, al, 1, 9, 1 << 20, 400000);
    add("deep_four", V{{LK::s44, A + 88, 16}, {LK::s38, A, 24}, mid16, tap, m24, sys}, few,
        {1, 8, 16}, 1, 12, 9, 400000);
    add("deep_mono_simple_system", V{m24, {LK::s38, A + 88, 24}, sys}, sz, al, 1, 8,
        1 << 20, 400000);
}
}  // namespace
MC_MAIN(reg)
