// C08, C09, C10: monotonic_buffer_resource, every reachable state.
#include <algorithm>
#include <new>
#include <string>
#include <vector>

#include <mc.h>
#include <upstream.h>
#include <utils/memory/monotonic_buffer_resource.h>

using std::size_t;
using std::uintptr_t;
namespace um = utils::memory;
using mc::fmt;
using mc::Step;

namespace
{
using R = um::monotonic_buffer_resource;
constexpr size_t MX = ~size_t{0};

enum class Up
{
    none,
    null,
    system
};
enum class Kind
{
    alloc,
    alloc_default,  // without an alignment
    dealloc,
    release
};
struct Op
{
    Kind kind;
    size_t a = 0, b = 0;
    bool up_ok = true;
};
struct Cfg
{
    uintptr_t buf = 0;
    size_t len = 0;
    Up up = Up::none;
    std::vector<Op> ops;
} cfg;

bool is_prop(const char* p) { return mc::S().prop == p; }

// two further resources are used in between: nothing may leak from one to the other
void others()
{
    alignas(R) static std::byte s[2][sizeof(R)];
    static R* o[2];
    static unsigned turn;
    if (!o[0])
    {
        // the addresses are never dereferenced by the class
        const uintptr_t top = uintptr_t{1} << 46;
        o[0] = new (s[0]) R(reinterpret_cast<std::byte*>(top - 9), 7, nullptr);
        o[1] = new (s[1]) R(reinterpret_cast<std::byte*>(top), size_t{1} << 33, nullptr);
    }
    const unsigned k = turn++ % 8;
    R& x = *o[k & 1];
    switch (k >> 1)
    {
        case 0: (void)x.allocate(3, 2); break;
        case 1: (void)x.allocate(5, k & 1 ? 4096 : 1); break;
        case 2: x.deallocate(nullptr); break;
        default: x.release(); break;
    }
}

struct Sys
{
    alignas(R) std::byte st[sizeof(R)] = {};
    uintptr_t end = 0;   // end of the last block of the buffer
    bool released = false;
    uintptr_t lo = 0;
    size_t len = 0;

    R* r() { return reinterpret_cast<R*>(st); }

    void bad(const char* p, const std::string& m)
    {
        if (released && is_prop("C10")) p = "C10";
        mc::fail(p, m);
    }
#define CK(p, cond, ...)                             \
    do                                               \
    {                                                \
        if (!(cond)) this->bad(p, fmt(__VA_ARGS__)); \
    } while (0)

    Sys()
    {
        up = Upstream{up.base};
        len = cfg.buf ? cfg.len : 0;
        lo = cfg.len ? cfg.buf : 0;
        end = lo;
        um::memory_resource* u = cfg.up == Up::none   ? nullptr
                                 : cfg.up == Up::null ? um::null_memory_resource()
                                                      : um::system_memory_resource();
        new (st) R(reinterpret_cast<std::byte*>(cfg.buf), cfg.len, u);
        view();
    }
    void discard() {}
    ~Sys() {}
    Sys(const Sys&) = delete;

    void view()
    {
        const R& c = *r();
        CK(released ? "C10" : "C09",
           reinterpret_cast<uintptr_t>(c.data()) == lo && c.size() == len,
           "data()/size() are %p/%zu, the buffer is %#lx/%zu",
           (const void*)c.data(), c.size(), (long)lo, len);
    }

    static int nops() { return (int)cfg.ops.size(); }
    static std::string op_name(int i)
    {
        const Op& o = cfg.ops[i];
        const char* f = o.up_ok ? "" : "/upstream-fails";
        switch (o.kind)
        {
            case Kind::alloc: return fmt("allocate(%zu,%zu)%s", o.a, o.b, f);
            case Kind::alloc_default: return fmt("allocate(%zu)%s", o.a, f);
            case Kind::release: return "release()";
            case Kind::dealloc:
            {
                static const char* n[] = {"null", "first byte of the buffer",
                                          "next free byte", "foreign"};
                return fmt("deallocate(%s)", n[o.a]);
            }
        }
        return "?";
    }
    bool enabled(int) const { return true; }

    Step apply(int i, bool check)
    {
        const Op& o = cfg.ops[i];
        if (mc::guarded(others)) bad("", "using another resource terminated");
        up = Upstream{up.base};
        up.answer_ok = o.up_ok;
        switch (o.kind)
        {
            case Kind::alloc: return do_alloc(o.a, o.b, false, check);
            case Kind::alloc_default:
                return do_alloc(o.a, alignof(std::max_align_t), true, check);
            case Kind::release:
                r()->release();
                end = lo;
                released = true;
                if (check)
                {
                    CK("C10", !up.allocs && !up.frees,
                       "release() reached the upstream");
                    view();
                }
                return Step::next;
            case Kind::dealloc:
            {
                const uintptr_t p = o.a == 0   ? 0
                                    : o.a == 1 ? lo
                                    : o.a == 2 ? end
                                               : up.base;
                const std::string before((const char*)st, sizeof st);
                r()->deallocate(reinterpret_cast<void*>(p));
                if (check)
                {
                    CK("C09", !up.allocs && !up.frees,
                       "deallocate() reached the upstream");
                    view();
                }
                return Step::next;
            }
        }
        return Step::end;
    }

    Step do_alloc(size_t size, size_t align, bool dflt, bool check)
    {
        void* res = nullptr;
        if (mc::guarded([&]
                        { res = dflt ? r()->allocate(size)
                                     : r()->allocate(size, align); }))
        {
            bad("", "allocate terminated");
            return Step::end;
        }
        const uintptr_t p = reinterpret_cast<uintptr_t>(res);
        // reference
        uintptr_t fit = 0;
        const uintptr_t hi = lo + len, m = align - 1;
        if (size && len && !(end > ~m && (end & m)))
        {
            const uintptr_t a = (end + m) & ~m;
            if (a <= hi && size <= hi - a) fit = a;
        }
        if (check)
        {
            if (!size)
            {
                CK("C09", !res, "an empty request got a block");
                CK("C09", !up.allocs && !up.frees,
                   "an empty request reached the upstream");
            }
            else if (fit)
            {
                CK("C08", p == fit,
                   "block at offset %lld, the lowest possible one is %lld",
                   (long long)(p - lo), (long long)(fit - lo));
                CK("C09", !up.allocs, "a request that fits reached the upstream");
            }
            else
            {
                CK("C08", !len || !p || p < lo || p >= hi,
                   "block at offset %lld although the rest of the buffer does "
                   "not hold it",
                   (long long)(p - lo));
                if (cfg.up == Up::system)
                {
                    CK("C09",
                       up.allocs == 1 && up.size == size && up.align >= align &&
                           (align < sizeof(void*) || up.align == align),
                       "upstream was asked %d times (%zu/%zu instead of %zu/%zu)",
                       up.allocs, up.size, up.align, size, align);
                    CK("C09", p == up.result, "the result is not the upstream's");
                }
                else
                    CK("C09", !res && !up.allocs,
                       "%p although there is no upstream that can serve", res);
            }
            CK("C09", !up.frees, "allocate freed an upstream block");
        }
        if (fit) end = fit + size;
        if (check) view();
        return Step::next;
    }

    void model_key(std::string& k) const
    {
        mc::put(k, end);
        mc::put(k, released && is_prop("C10"));
    }
    void impl_key(std::string& k) const { k.append((const char*)st, sizeof st); }
};

void add(const std::string& name, uintptr_t buf, size_t len, Up u,
         std::vector<size_t> sizes, std::vector<size_t> aligns, int tier = 0,
         uintptr_t upbase = uintptr_t{0x6000} << 32)
{
    mc::add(
        name,
        [=]
        {
            sysops::memory::ops::current_hooks() = {up_memalign, up_free};
            up.base = upbase;
            cfg.buf = buf;
            cfg.len = len;
            cfg.up = u;
            cfg.ops.clear();
            for (size_t s: sizes)
                for (size_t a: aligns)
                {
                    cfg.ops.push_back({Kind::alloc, s, a, true});
                    if (u == Up::system)
                        cfg.ops.push_back({Kind::alloc, s, a, false});
                }
            for (size_t s: sizes) cfg.ops.push_back({Kind::alloc_default, s});
            for (size_t k = 0; k < 4; ++k)
                cfg.ops.push_back({Kind::dealloc, k});
            cfg.ops.push_back({Kind::release});
            mc::explore<Sys>();
        },
        tier, "C08 C09 C10");
}

std::vector<size_t> upto(size_t n, std::vector<size_t> more = {})
{
    std::vector<size_t> v;
    for (size_t i = 0; i <= n; ++i) v.push_back(i);
    v.insert(v.end(), more.begin(), more.end());
    return v;
}

// ---- constructors: which upstream, which buffer ------------------------------
std::string g_case;

enum class Dflt
{
    system,
    null,
    none,
    other,
    count
};
alignas(64) std::byte g_other[256];
alignas(64) std::byte g_mem[512];

template <class F>
void ctor_case(const char* form, Dflt d, int given, uintptr_t buf, size_t len,
               F construct)
{
    // given: -1 the constructor takes none, otherwise a Dflt
    R other(g_other, sizeof g_other, nullptr);
    um::memory_resource* res[] = {um::system_memory_resource(),
                                  um::null_memory_resource(), nullptr, &other};
    g_case = fmt("%s default=%d given=%d buffer=%#lx/%zu", form, (int)d, given,
                 (long)buf, len);
    mc::beat();
    mc::count("transitions");
    mc::count("traces");
    mc::count("states");
    um::memory_resource* old = um::set_default_resource(res[(int)d]);
    up = Upstream{up.base};
    alignas(R) static std::byte st[sizeof(R)];
    um::memory_resource* g = given < 0 ? nullptr : res[given];
    R* r = construct(st, g);
    um::set_default_resource(old);
    const bool empty = !buf || !len;
    const uintptr_t lo = empty ? 0 : buf;
    const size_t n = empty ? 0 : len;
    if (reinterpret_cast<uintptr_t>(r->data()) != lo || r->size() != n)
        mc::fail("C09", fmt("data()/size() are %p/%zu", (const void*)r->data(),
                            r->size()));
    um::memory_resource* expect = given < 0 ? res[(int)d] : g;
    auto ask = [&](size_t s, size_t a, bool ok)
    {
        up.allocs = up.frees = 0;
        up.used[0] = up.used[1] = false;
        up.answer_ok = ok;
        return reinterpret_cast<uintptr_t>(r->allocate(s, a));
    };
    uintptr_t taken = 0;
    auto too_big = [&](bool ok)
    {
        const uintptr_t p = ask(n + 1, 1, ok);
        if (expect == res[0])
        {
            if (up.allocs != 1 || up.size != n + 1 || p != up.result)
                mc::fail("C09", "not forwarded to the system resource");
        }
        else if (expect == &other)
        {
            const uintptr_t o = reinterpret_cast<uintptr_t>(g_other);
            const uintptr_t want =
                taken + n + 1 <= sizeof g_other ? o + taken : 0;
            if (p != want) mc::fail("C09", "not forwarded to the given resource");
            if (want) taken += n + 1;
            if (up.allocs) mc::fail("C09", "forwarded to the system resource");
        }
        else if (p || up.allocs)
            mc::fail("C09", "a block although no upstream can serve");
    };
    too_big(true);
    too_big(false);
    if (n)
    {
        if (ask(n, 1, true) != lo)
            mc::fail("C08", "the whole buffer is not handed out as one block");
        if (up.allocs) mc::fail("C09", "upstream asked without need");
    }
    too_big(true);
    r->release();
    if (n <= 512)
        for (size_t i = 0; i < n; ++i)
            if (ask(1, 1, true) != lo + i)
                mc::fail("C10", "not every byte is handed out after release");
    if (n > 512)
    {
        if (ask(n / 3, 1, true) != lo || ask(1, 1, true) != lo + n / 3 ||
            ask(n - n / 3 - 1, 1, true) != lo + n / 3 + 1)
            mc::fail("C10", "not every byte is handed out after release");
    }
    too_big(true);
    r->deallocate(reinterpret_cast<void*>(lo));
    if (ask(0, 1, true) || up.allocs) mc::fail("C09", "empty request served");
    r->~R();
}

constexpr uintptr_t kFake = uintptr_t{1} << 45;  // never dereferenced
template <size_t L>
void array_forms(Dflt d)
{
    using A = std::byte[L];
    const uintptr_t b = L > 500 ? kFake + 3 : reinterpret_cast<uintptr_t>(g_mem + 3);
    A& arr = *reinterpret_cast<A*>(b);
    ctor_case("(array)", d, -1, b, L,
              [&](void* st, um::memory_resource*) { return new (st) R(arr); });
    for (int g = 0; g < (int)Dflt::count; ++g)
        ctor_case("(array,upstream)", d, g, b, L,
                  [&](void* st, um::memory_resource* u)
                  { return new (st) R(arr, u); });
}

void ctors()
{
    sysops::memory::ops::current_hooks() = {up_memalign, up_free};
    mc::S().current = [] { return g_case; };
    for (int di = 0; di < (int)Dflt::count; ++di)
    {
        const Dflt d = (Dflt)di;
        for (uintptr_t off = 0; off < 9; ++off)
            for (size_t len: {0, 1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 100})
                for (int nul = 0; nul < 2; ++nul)
                {
                    if (nul && off) continue;
                    std::byte* b = nul ? nullptr : g_mem + off;
                    const uintptr_t ba = reinterpret_cast<uintptr_t>(b);
                    ctor_case("(pointer,size)", d, -1, ba, len,
                              [&](void* st, um::memory_resource*)
                              { return new (st) R(b, len); });
                    for (int g = 0; g < (int)Dflt::count; ++g)
                        ctor_case("(pointer,size,upstream)", d, g, ba, len,
                                  [&](void* st, um::memory_resource* u)
                                  { return new (st) R(b, len, u); });
                }
        array_forms<1>(d);
        array_forms<2>(d);
        array_forms<9>(d);
        array_forms<64>(d);
        array_forms<101>(d);
        array_forms<65535>(d);
        array_forms<65536>(d);
        array_forms<65537>(d);
        array_forms<(size_t{1} << 24) + 1>(d);
        for (int w: {8, 15, 16, 31, 32, 33, 40})
            for (size_t len = (size_t{1} << w) - 1; len <= (size_t{1} << w) + 1; ++len)
            {
                std::byte* b = reinterpret_cast<std::byte*>(kFake + 5);
                const uintptr_t ba = kFake + 5;
                ctor_case("(pointer,size)", d, -1, ba, len,
                          [&](void* st, um::memory_resource*) { return new (st) R(b, len); });
                for (int g = 0; g < (int)Dflt::count; ++g)
                    ctor_case("(pointer,size,upstream)", d, g, ba, len,
                              [&](void* st, um::memory_resource* u)
                              { return new (st) R(b, len, u); });
            }
    }
    mc::sample("every constructor x default resource x upstream x 9 offsets x "
               "12 lengths, null buffer included");
}

void reg()
{
    mc::add("constructors", ctors, 0, "C08 C09 C10");
    const std::vector<size_t> huge = {MX, MX - 1, MX - 15, size_t{1} << 63,
                                      (size_t{1} << 63) + 1, size_t{1} << 32};
    const std::vector<size_t> al = {1, 2, 4, 8, 16, 32, 64, size_t{1} << 32,
                                    size_t{1} << 63};
    const uintptr_t mem = uintptr_t{1} << 41;  // never dereferenced
    for (size_t off: {0, 1, 2, 3, 4, 7, 8, 15, 16, 31})
        add(fmt("small_off%zu_len24", off), mem + 4096 + off, 24,
            off % 2 ? Up::system : Up::none, upto(26, huge), al);
    for (size_t len: {0, 1, 2, 3, 8, 15, 16, 17, 40})
        add(fmt("small_off9_len%zu", len), mem + 4096 + 9, len,
            len % 2 ? Up::none : Up::system, upto(len + 2, huge), al);
    add("null_upstream", mem + 5, 12, Up::null, upto(14, huge), al);
    add("null_buffer", 0, 12, Up::system, upto(14, huge), al);
    // around 2^31, 2^32: offsets and sizes do not fit 32 bits
    const size_t G = size_t{1} << 30;
    for (uintptr_t b: {uintptr_t{1} << 31, uintptr_t{1} << 32, mem + 24})
        add(fmt("big_at_%lx", (long)b), b - 8, 6 * G + 8, Up::system,
            {0, G - 1, G, G + 9, 2 * G - 1, 2 * G, 2 * G + 8, 4 * G - 1, 4 * G,
             4 * G + 1, 6 * G, 6 * G + 8, 6 * G + 9, MX, MX - 7},
            {1, 16, G, 2 * G, 4 * G, 8 * G, size_t{1} << 63}, b < mem ? 0 : 1);
    // the upstream's blocks lie directly before / after the buffer
    add("upstream_after", mem, 16, Up::system, upto(18), {1, 4, 16}, 0, mem + 16);
    // thorough: every offset and length
    for (size_t off = 0; off < 16; ++off)
        add(fmt("deep_off%zu_len64", off), mem + 64 + off, 64,
            off % 3 ? Up::system : Up::none, upto(66, huge),
            {1, 2, 4, 8, 16, 32, 64, 128, size_t{1} << 32, size_t{1} << 63}, 1);
    for (size_t len = 1; len < 16; ++len)
        add(fmt("deep_off13_len%zu", len), mem + 64 + 13, len,
            len % 2 ? Up::system : Up::none, upto(18, huge), al, 1);
}
}  // namespace
MC_MAIN(reg)
