#ifndef VERIF_SIMPLE_CORE_H
#define VERIF_SIMPLE_CORE_H
// Shared by simple.cpp and geometry.cpp: simple_resource behind a thin wrapper,
// a recording upstream, and the explored system with its reference model.
#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <string>
#include <vector>

#include <sys/mman.h>

#include <mc.h>
#include <upstream.h>
#include <utils/memory/simple_resource.h>

using std::size_t;
using std::uintptr_t;
namespace um = utils::memory;
using mc::fmt;
using mc::Step;

namespace
{
enum class Kind
{
    alloc,
    dealloc,
    dealloc_null,
    bad,
    release,
    destroy
};
struct Op
{
    Kind kind;
    size_t a = 0, b = 0;
    bool up_ok = true;
};
enum class Bad
{
    head_of_free,  // first block of the k-th free region
    inside_free,   // second block of the k-th free region
    inside_busy,   // second block of the k-th busy region
    misaligned,    // k-th busy region + 1
    before,        // one block before the buffer
    past,          // first address after the managed blocks
    misaligned_out,
    count
};

struct Cfg
{
    uintptr_t buf = 0;  // address given to the resource
    size_t len = 0;
    bool fake = false;
    bool upstream = false;
    bool raw = true;  // key on the raw bytes of the object
    std::vector<Op> ops;
} cfg;

alignas(65536) std::byte g_arena[1 << 17];

// memory at a fixed address that can be read but not written: a resource that writes
// to it crashes
inline void seal(uintptr_t from, size_t len)
{
    const uintptr_t lo = from & ~uintptr_t{65535},
                    hi = (from + len + 65535) & ~uintptr_t{65535};
    (void)mmap(reinterpret_cast<void*>(lo), hi - lo, PROT_READ,
               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
}
unsigned char g_content = 0xA5;

bool is_prop(const char* p) { return mc::S().prop == p; }

// one instantiation of the class under test behind a thin wrapper
struct Res
{
    void* st = nullptr;
    size_t bytes = 0;
    virtual void construct(std::byte* b, size_t n, um::memory_resource* u) = 0;
    virtual void construct(std::byte* b, size_t n) = 0;
    virtual void destroy() = 0;
    virtual void* allocate(size_t n, size_t a) = 0;
    virtual void deallocate(void* p) = 0;
    virtual void release() = 0;
    virtual const std::byte* data() = 0;
    virtual size_t size() = 0;
    virtual size_t busy_count() = 0;
    virtual size_t free_count() = 0;
    virtual bool in_use(size_t i) = 0;
    virtual size_t block_size(size_t i) = 0;
    virtual size_t block_size_in_bytes(size_t i) = 0;
    virtual size_t next(size_t i) = 0;
    virtual size_t prev(size_t i) = 0;
    virtual size_t info_next(size_t i) = 0;
    virtual size_t info_prev(size_t i) = 0;
    virtual void others() = 0;
};
template <size_t N, size_t B>
struct ResOf final : Res
{
    using R = um::simple_resource<N, B>;
    using I = typename R::BIndex;
    ResOf()
    {
        alignas(64) static std::byte s[sizeof(R)];
        st = s;
        bytes = sizeof(R);
    }
    R* r() { return static_cast<R*>(st); }
    const R* c() { return static_cast<R*>(st); }
    void construct(std::byte* b, size_t n, um::memory_resource* u) override
    {
        new (st) R(b, n, u);
    }
    void construct(std::byte* b, size_t n) override { new (st) R(b, n); }
    void destroy() override { r()->~R(); }
    void* allocate(size_t n, size_t a) override { return r()->allocate(n, a); }
    void deallocate(void* p) override { r()->deallocate(p); }
    void release() override { r()->release(); }
    const std::byte* data() override { return c()->data(); }
    size_t size() override { return c()->size(); }
    size_t busy_count() override { return c()->busy_count(); }
    size_t free_count() override { return c()->free_count(); }
    bool in_use(size_t i) override { return c()->in_use((I)i); }
    size_t block_size(size_t i) override { return c()->block_size((I)i); }
    size_t block_size_in_bytes(size_t i) override
    {
        return c()->block_size_in_bytes((I)i);
    }
    size_t next(size_t i) override { return c()->at((I)i).next_index(); }
    size_t prev(size_t i) override { return c()->at((I)i).prev_index(); }
    size_t info_next(size_t i) override { return c()->infos()[i].next_index(); }
    size_t info_prev(size_t i) override { return c()->infos()[i].prev_index(); }

    // two further resources of the same type, one as little aligned and as short as
    // possible, one large, are used in between: nothing may leak from one to the other
    void others() override
    {
        alignas(64) static std::byte s[2][sizeof(R)];
        static R* o[2];
        static unsigned turn;
        static void* held[2];
        if (!o[0])
        {
            // the addresses are never dereferenced by the class (C07)
            const uintptr_t top = uintptr_t{1} << 46;
            o[0] = new (s[0]) R(reinterpret_cast<std::byte*>(top - 3 * B), 2 * B, nullptr);
            o[1] = new (s[1]) R(reinterpret_cast<std::byte*>(top), N * B, nullptr);
        }
        const unsigned k = turn++ % 8;
        R& x = *o[k & 1];
        switch (k >> 1)
        {
            case 0: held[k & 1] = x.allocate(1, 1); break;
            case 1: (void)x.allocate(B, k & 1 ? B * 2 : B); break;
            case 2: x.deallocate(held[k & 1]); break;
            default: x.release(); break;
        }
    }
};
template <size_t N, size_t B>
Res& res_of()
{
    static ResOf<N, B> r;
    return r;
}
size_t N, B;
Res* r;

struct Sys
{
    struct Live
    {
        uintptr_t p;
        size_t size;
        bool local;
    };
    std::vector<Live> live;
    bool released = false;
    uintptr_t data = 0;
    size_t blocks = 0;

    // a finding of property p; after a release every finding is C05's as well
    void bad(const char* p, const std::string& m)
    {
        if (released && is_prop("C05")) p = "C05";
        mc::fail(p, m);
    }
#define CK(p, cond, ...)                          \
    do                                            \
    {                                             \
        if (!(cond)) this->bad(p, fmt(__VA_ARGS__)); \
    } while (0)

    void check_paint()
    {
        if (cfg.fake || !is_prop("C07")) return;
        const uintptr_t e = cfg.buf + cfg.len + 64;
        for (uintptr_t a = cfg.buf - 64; a < e; ++a)
            if (*(unsigned char*)a != g_content)
                bad("C07", fmt("byte at buffer offset %lld was changed by the "
                               "resource",
                               (long long)(a - cfg.buf)));
    }

    Sys()
    {
        // C07: every object meets other contents, and must behave the same
        if (!cfg.fake && is_prop("C07"))
        {
            static unsigned turn = 0;
            static const unsigned char contents[] = {0xA5, 0x00, 0xFF, 0x01, 0x5A};
            g_content = contents[turn++ % 5];
            memset((void*)(cfg.buf - 64), g_content, cfg.len + 128);
        }
        up = Upstream{up.base};
        memset(r->st, 0, r->bytes);
        const size_t skip = (B - cfg.buf % B) % B;
        const size_t n = skip < cfg.len ? (cfg.len - skip) / B : 0;
        blocks = std::min(n, N);
        data = n ? cfg.buf + skip : 0;
        if (mc::guarded(
                [&]
                {
                    r->construct(reinterpret_cast<std::byte*>(cfg.buf), cfg.len,
                                 cfg.upstream ? um::system_memory_resource()
                                              : nullptr);
                }))
            mc::fail("", "construction terminated");
    }
    void discard() {}

    struct Region
    {
        size_t first, n;
        bool busy;
    };
    std::vector<Region> regions() const
    {
        std::vector<Region> v;
        size_t at = 0;
        for (auto& l: live)
        {
            if (!l.local) continue;
            const size_t f = (l.p - data) / B, e = (l.p - data + l.size - 1) / B;
            if (f > at) v.push_back({at, f - at, false});
            v.push_back({f, e - f + 1, true});
            at = e + 1;
        }
        if (at < blocks) v.push_back({at, blocks - at, false});
        return v;
    }

    static int nops() { return (int)cfg.ops.size(); }
    static std::string op_name(int i)
    {
        const Op& o = cfg.ops[i];
        switch (o.kind)
        {
            case Kind::alloc:
                return fmt("allocate(%zu,%zu)%s", o.a, o.b,
                           !cfg.upstream ? "" : o.up_ok ? "" : "/upstream-fails");
            case Kind::dealloc: return fmt("deallocate(#%zu)", o.a);
            case Kind::dealloc_null: return "deallocate(null)";
            case Kind::bad:
            {
                static const char* n[] = {"head of free region",
                                          "inside free region",
                                          "inside busy region",
                                          "misaligned in region",
                                          "block before the buffer",
                                          "first block after the buffer",
                                          "misaligned outside"};
                return fmt("deallocate(%s %zu)", n[o.b], o.a);
            }
            case Kind::release: return "release()";
            case Kind::destroy: return "~simple_resource()";
        }
        return "?";
    }

    uintptr_t bad_pointer(const Op& o) const
    {
        size_t busy = 0, fr = 0;
        switch ((Bad)o.b)
        {
            case Bad::before:
                return o.a == 0 && blocks ? data - B : 0;
            case Bad::past:
                return o.a == 0 && blocks ? data + blocks * B : 0;
            case Bad::misaligned_out:
                return o.a == 0 && blocks && B > 1 ? data + blocks * B + 1 : 0;
            default: break;
        }
        for (auto& g: regions())
        {
            const size_t idx = g.busy ? busy++ : fr++;
            if (idx != o.a) continue;
            switch ((Bad)o.b)
            {
                case Bad::head_of_free:
                    if (!g.busy) return data + g.first * B;
                    break;
                case Bad::inside_free:
                    if (!g.busy && g.n > 1)
                        return data + (g.first + g.n / 2) * B;
                    break;
                case Bad::inside_busy:
                    if (g.busy && g.n > 1)
                        return data + (g.first + g.n / 2) * B;
                    break;
                case Bad::misaligned:
                    if (g.busy && B > 1) return data + g.first * B + B / 2;
                    break;
                default: break;
            }
        }
        return 0;
    }

    bool enabled(int i) const
    {
        const Op& o = cfg.ops[i];
        switch (o.kind)
        {
            case Kind::dealloc: return o.a < live.size();
            case Kind::bad: return bad_pointer(o) != 0;
            default: return true;
        }
    }

    // bookkeeping must be exactly what the set of live blocks implies
    void check_books(const char* p)
    {
        if (!mc::S().prop.empty() && !is_prop(p) &&
            !(released && is_prop("C05")))
            return;
        const auto g = regions();
        size_t busy = 0, fr = 0;
        for (auto& x: g) ++(x.busy ? busy : fr);
        std::string err;
        const bool died = mc::guarded(
            [&]
            {
                if (r->busy_count() != busy)
                    err = fmt("busy count is %zu, %zu blocks are allocated",
                              r->busy_count(), busy);
                else if (r->free_count() != fr)
                    err = fmt("free count is %zu, there are %zu free regions",
                              r->free_count(), fr);
                else if (r->size() != blocks * B)
                    err = fmt("size is %zu", r->size());
                else
                {
                    for (size_t k = 0; k < g.size(); ++k)
                    {
                        const size_t i = g[k].first;
                        const size_t prev = k ? g[k - 1].first : 0;
                        const size_t next = k + 1 < g.size() ? g[k + 1].first : 0;
                        if (r->in_use(i) != g[k].busy)
                            err = fmt("block %zu: in_use is wrong", g[k].first);
                        else if (r->block_size(i) != g[k].n)
                            err = fmt("block %zu: region has %zu blocks, "
                                      "expected %zu",
                                      g[k].first, r->block_size(i), g[k].n);
                        else if (r->block_size_in_bytes(i) != g[k].n * B)
                            err = fmt("block %zu: size in bytes is %zu",
                                      g[k].first, r->block_size_in_bytes(i));
                        else if (r->next(i) != next)
                            err = fmt("block %zu: next region is %zu, "
                                      "expected %zu",
                                      g[k].first,
                                      r->next(i), next);
                        else if (r->prev(i) != prev)
                            err = fmt("block %zu: previous region is %zu, "
                                      "expected %zu",
                                      g[k].first,
                                      r->prev(i), prev);
                        else if (r->info_next(i) != next ||
                                 r->info_prev(i) != prev)
                            err = "infos() disagrees with at()";
                        if (!err.empty()) return;
                    }
                }
            });
        if (died) err = "walking the regions terminated";
        if (!err.empty()) bad(p, err);
    }

    Step apply(int i, bool check)
    {
        const Op& o = cfg.ops[i];
        if (mc::guarded([&] { r->others(); }))
            bad("", "using another resource of the same type terminated");
        up.allocs = up.frees = 0;
        up.answer_ok = o.up_ok;
        switch (o.kind)
        {
            case Kind::alloc: return do_alloc(o, check);
            case Kind::dealloc: return do_dealloc(o, check);
            case Kind::dealloc_null:
            {
                if (mc::guarded([&] { r->deallocate(nullptr); }))
                    bad("", "deallocate(null) terminated");
                if (check)
                {
                    CK("C04", !up.frees && !up.allocs,
                       "deallocate(null) reached the upstream");
                    after("C04");
                }
                return Step::next;
            }
            case Kind::bad: return do_bad(o, check);
            case Kind::release:
            {
                const bool was = released;
                if (mc::guarded([&] { r->release(); }))
                    bad(was ? "C05" : "", "release() terminated");
                live.erase(std::remove_if(live.begin(), live.end(),
                                          [](const Live& l) { return l.local; }),
                           live.end());
                released = true;
                if (check)
                {
                    CK("C05", !up.frees && !up.allocs,
                       "release() reached the upstream");
                    after("C05");
                }
                return Step::next;
            }
            case Kind::destroy:
            {
                size_t busy = 0;
                for (auto& l: live) busy += l.local;
                const bool died = mc::guarded([&] { r->destroy(); });
                if (check)
                {
                    CK("C05", died == (busy > 0),
                       busy ? "destroyed silently while %zu regions are in use"
                            : "destroying an idle resource terminated (%zu)",
                       busy);
                    check_paint();
                }
                return Step::end;
            }
        }
        return Step::end;
    }

    void after(const char* p)
    {
        check_books("C02");
        if (strcmp(p, "C02")) check_books(p);
        check_paint();
    }

    // Every address the documented policy may choose for this request:
    // must = first fit inside the buffer, when the buffer has to serve it.
    Step do_alloc(const Op& o, bool check)
    {
        const size_t size = o.a, align = o.b;
        void* res = nullptr;
        if (mc::guarded([&] { res = r->allocate(size, align); }))
        {
            bad("", "allocate terminated");
            return Step::end;
        }
        const uintptr_t p = reinterpret_cast<uintptr_t>(res);
        const bool local = res && blocks && p >= data && p < data + blocks * B;
        if (check)
        {
            // reference: lowest free region in which the request fits
            uintptr_t fit = 0;
            if (size)
                for (auto& g: regions())
                {
                    if (g.busy) continue;
                    const uintptr_t s = data + g.first * B, e = s + g.n * B;
                    const uintptr_t m = align - 1;
                    if (s > ~m && (s & m)) continue;  // aligned up past the top
                    const uintptr_t a = (s + m) & ~m;
                    if (a >= s && a < e && size <= e - a)
                    {
                        fit = a;
                        break;
                    }
                }
            // largest power of two alignment every placement guarantees
            size_t guaranteed = 0;
            if (blocks)
            {
                const size_t ba = data & (~data + 1);
                size_t v = ba + blocks * B - 1;
                guaranteed = 1;
                while (v >>= 1) guaranteed <<= 1;
            }
            const bool must = fit && align <= guaranteed;

            if (local)
            {
                CK("C01", p % align == 0, "block %#lx is not aligned to %zu",
                   (long)p, align);
                CK("C01", p % B == 0,
                   "block %#lx does not start on a block boundary", (long)p);
                CK("C01", size <= data + blocks * B - p,
                   "block of %zu bytes ends outside the buffer", size);
                for (auto& l: live)
                    if (l.local)
                        CK("C01",
                           (l.p < p) ? l.size <= p - l.p : size <= l.p - p,
                           "block [%#lx,+%zu) overlaps live block [%#lx,+%zu)",
                           (long)p, size, (long)l.p, l.size);
                CK("C03", size != 0, "an empty request got a block");
                CK("C03", p == fit,
                   "placed at offset %#lx instead of %#lx (first fit)",
                   (long)(p - data), (long)(fit - data));
                CK("C03", up.allocs == 0,
                   "upstream was asked although the buffer served the request");
            }
            else if (res)
            {
                CK("C01", up.allocs && p == up.result,
                   "block %#lx is neither in the buffer nor from upstream",
                   (long)p);
                CK("C01", p % align == 0, "upstream block is not aligned");
                CK("C03", size != 0, "an empty request got a block");
                CK("C03", !must,
                   "forwarded upstream although the buffer has room");
                CK("C03", up.allocs == 1 && p == up.result,
                   "upstream was called %d times", up.allocs);
            }
            else
            {
                CK("C03", !must, "refused although the buffer has room");
                if (!size)
                    CK("C03", !up.allocs,
                       "an empty request reached the upstream");
                else if (cfg.upstream)
                {
                    CK("C03", up.allocs == 1 && up.result == 0,
                       "refused: upstream was called %d times and gave %#lx",
                       up.allocs, (long)up.result);
                }
            }
            if (up.allocs)
                CK("C03", up.size == size && up.align >= align && cfg.upstream,
                   "upstream was asked for %zu bytes aligned to %zu, the "
                   "request was %zu/%zu",
                   up.size, up.align, size, align);
            CK("C03", up.frees == 0, "allocate freed an upstream block");
        }
        if (res)
        {
            const Live l{p, size, local};
            live.insert(std::upper_bound(live.begin(), live.end(), l,
                                         [](const Live& x, const Live& y)
                                         { return x.p < y.p; }),
                        l);
        }
        if (check) after(res ? "C02" : "C03");
        return Step::next;
    }

    Step do_dealloc(const Op& o, bool check)
    {
        const Live l = live[o.a];
        if (mc::guarded([&] { r->deallocate(reinterpret_cast<void*>(l.p)); }))
        {
            bad("", "deallocating a live block terminated");
            return Step::end;
        }
        live.erase(live.begin() + (long)o.a);
        if (check)
        {
            if (l.local)
                CK("C04", !up.frees && !up.allocs,
                   "freeing a block of the buffer reached the upstream");
            else
                CK("C04", up.frees == 1 && up.freed == l.p && !up.allocs,
                   "an upstream block was forwarded %d times", up.frees);
            after("C04");
        }
        return Step::next;
    }

    Step do_bad(const Op& o, bool check)
    {
        const uintptr_t p = bad_pointer(o);
        const bool outside = p < data || p >= data + blocks * B;
        const bool aligned = p % B == 0;
        const bool forwards = outside && aligned && cfg.upstream;
        const bool died =
            mc::guarded([&] { r->deallocate(reinterpret_cast<void*>(p)); });
        if (!check) return died ? Step::end : Step::next;
        if (forwards)
        {
            CK("C04", !died, "a foreign block was not given to the upstream");
            CK("C04", up.frees == 1 && up.freed == p,
               "a foreign block was forwarded %d times", up.frees);
            after("C04");
            return Step::next;
        }
        CK("C04", died,
           "an invalid deallocation (%s) was accepted silently",
           op_name((int)(&o - cfg.ops.data())).c_str());
        CK("C04", !up.frees, "an invalid pointer was given to the upstream");
        return Step::end;
    }

    void model_key(std::string& k) const
    {
        for (auto& l: live)
        {
            mc::put(k, l.p);
            mc::put(k, l.local ? (l.size + B - 1) / B : 0);
        }
        if (is_prop("C05")) mc::put(k, released);
    }
    void impl_key(std::string& k) const
    {
        if (cfg.raw) k.append((const char*)r->st, r->bytes);
    }
};

void build_ops(const std::vector<size_t>& sizes,
               const std::vector<size_t>& aligns, size_t maxlive)
{
    cfg.ops.clear();
    for (size_t s: sizes)
        for (size_t a: aligns)
        {
            cfg.ops.push_back({Kind::alloc, s, a, true});
        }
    if (cfg.upstream)
        for (size_t a: aligns)
            for (size_t s: {sizes[1], sizes.back()})
                cfg.ops.push_back({Kind::alloc, s, a, false});
    for (size_t k = 0; k < maxlive; ++k)
        cfg.ops.push_back({Kind::dealloc, k});
    cfg.ops.push_back({Kind::dealloc_null});
    cfg.ops.push_back({Kind::release});
    cfg.ops.push_back({Kind::destroy});
    for (size_t b = 0; b < (size_t)Bad::count; ++b)
        for (size_t k = 0; k < ((Bad)b < Bad::before ? maxlive + 1 : 1); ++k)
            cfg.ops.push_back({Kind::bad, k, b});
}

constexpr size_t MX = ~size_t{0};
}  // namespace
#endif
