// C17: secure zeroing; C18: memory move and copy.
#include <algorithm>
#include <array>
#include <cstdint>
#include <new>
#include <vector>

#include <sys/mman.h>
#include <ucontext.h>

#include <mc.h>
#include <utils/memory/memory.h>

using std::byte;
using std::size_t;
namespace um = utils::memory;
using mc::fmt;

namespace
{
std::string g_case;
const char* volatile g_op = "";
volatile size_t g_a, g_b, g_c;
void cases()
{
    mc::S().current = []
    {
        return g_case.empty()
                   ? fmt("%s(%zu, %zu, %zu)", g_op, (size_t)g_a, (size_t)g_b,
                         (size_t)g_c)
                   : g_case;
    };
}
void at(const char* op, size_t a, size_t b, size_t c)
{
    g_op = op;
    g_a = a;
    g_b = b;
    g_c = c;
    mc::beat();
}
void done(size_t n, size_t nontrivial)
{
    mc::count("evaluations", n);
    mc::count("distinct_nontrivial", nontrivial);
}

byte pat(size_t kind, size_t i)
{
    switch (kind)
    {
        case 0: return byte{0xff};
        case 1: return byte((i * 37 + 11) & 0xff ? (i * 37 + 11) & 0xff : 1);
        case 2: return byte{0x80};
        case 3: return byte((i & 1) ? 1 : 0x7f);
        default: return byte{0};
    }
}

// ---- C17 ----------------------------------------------------------------------
void zero_ranges()
{
    cases();
    const size_t maxlen = mc::S().thorough ? 300 : 96, offs = 20;
    size_t n = 0, nt = 0;
    for (int safe = 0; safe < 2; ++safe)
        for (size_t kind = 0; kind < 5; ++kind)
            for (size_t off = 0; off < offs; ++off)
                for (size_t len = 0; len <= maxlen; ++len)
                {
                    if (safe && !len) continue;
                    at(safe ? "secure_zero_memory_safe(offset,length,pattern)"
                            : "secure_zero_memory(offset,length,pattern)",
                       off, len, kind);
                    alignas(32) byte buf[512];
                    for (size_t i = 0; i < sizeof buf; ++i)
                        buf[i] = pat(kind, i);
                    if (safe)
                    {
                        const int r =
                            um::secure_zero_memory_safe(buf + off, len);
                        MC_CHECK("C17", r == 0, "returned %d", r);
                    }
                    else
                        um::secure_zero_memory(buf + off, len);
                    for (size_t i = 0; i < sizeof buf; ++i)
                    {
                        const bool in = i >= off && i < off + len;
                        const byte want = in ? byte{0} : pat(kind, i);
                        MC_CHECK("C17", buf[i] == want,
                                 "byte %zd of the range is %02x, expected %02x",
                                 (ssize_t)(i - off), (int)buf[i], (int)want);
                    }
                    ++n;
                    nt += len > 0;
                }
    // whole range in an exactly sized heap block (memory errors show)
    for (size_t len = 1; len <= 600; ++len)
    {
        at("secure_zero_memory(exact block)", len, 0, 0);
        std::vector<byte> v(len, byte{0x5a});
        um::secure_zero_memory(v.data(), len);
        for (size_t i = 0; i < len; ++i)
            MC_CHECK("C17", v[i] == byte{0}, "byte %zu is not zero", i);
        ++n;
        ++nt;
    }
    for (size_t len: {size_t{4095}, size_t{4096}, size_t{4097}, size_t{65535},
                      size_t{65536}, size_t{65537}, size_t{1} << 20})
    {
        at("secure_zero_memory(long)", len, 0, 0);
        std::vector<byte> v(len + 2, byte{0x5a});
        um::secure_zero_memory(v.data() + 1, len);
        MC_CHECK("C17", v[0] == byte{0x5a} && v[len + 1] == byte{0x5a},
                 "a byte outside the range changed");
        for (size_t i = 1; i <= len; ++i)
            MC_CHECK("C17", v[i] == byte{0}, "byte %zu is not zero", i - 1);
        ++n;
        ++nt;
    }
    done(n, nt);
    mc::sample("secure_zero_memory(offset 3, length 17) over 5 patterns");
}

void zero_errors()
{
    cases();
    size_t n = 0;
    byte buf[64];
    for (size_t i = 0; i < 64; ++i) buf[i] = pat(1, i);
    int empty = 0;
    for (size_t off = 0; off < 64; ++off)
    {
        at("secure_zero_memory_safe(p,0)", off, 0, 0);
        const int e = um::secure_zero_memory_safe(buf + off, 0);
        MC_CHECK("C17", e != 0, "an empty range returned 0");
        MC_CHECK("C17", off == 0 || e == empty, "error code differs");
        empty = e;
        ++n;
    }
    std::vector<size_t> lens = {1, 2, 3, 8, 64, 4096, ~size_t{0}, ~size_t{0} / 2};
    for (int p = 3; p < 64; ++p) lens.push_back(size_t{1} << p);
    for (size_t l: lens)
    {
        at("secure_zero_memory_safe(nullptr,n)", l, 0, 0);
        const int e = um::secure_zero_memory_safe(nullptr, l);
        MC_CHECK("C17", e != 0, "a null pointer returned 0");
        MC_CHECK("C17", e != empty,
                 "null pointer and empty range have the same code %d", e);
        ++n;
    }
    at("secure_zero_memory_safe(nullptr,0)", 0, 0, 0);
    MC_CHECK("C17", um::secure_zero_memory_safe(nullptr, 0) != 0, "returned 0");
    for (size_t i = 0; i < 64; ++i)
        MC_CHECK("C17", buf[i] == pat(1, i), "memory was touched");
    // the plain form, empty
    um::secure_zero_memory(buf + 5, 0);
    for (size_t i = 0; i < 64; ++i)
        MC_CHECK("C17", buf[i] == pat(1, i), "memory was touched");
    // in constant expressions
    {
        constexpr int c0 = um::secure_zero_memory_safe(nullptr, 0);
        constexpr int c1 = um::secure_zero_memory_safe(nullptr, 7);
        MC_CHECK("C17", c0 == um::secure_zero_memory_safe(nullptr, 0),
                 "null, 0: constant %d", c0);
        MC_CHECK("C17", c1 == um::secure_zero_memory_safe(nullptr, 7),
                 "null, 7: constant %d", c1);
    }
    done(n, n);
}

constexpr size_t CN = 24;
struct CRes
{
    std::array<byte, CN> a{};
    int r = 0;
};
constexpr CRes czero(size_t off, size_t len, bool safe)
{
    CRes c{};
    for (size_t i = 0; i < CN; ++i) c.a[i] = byte(i * 11 + 3);
    if (safe)
        c.r = um::secure_zero_memory_safe(c.a.data() + off, len);
    else
        um::secure_zero_memory(c.a.data() + off, len);
    return c;
}
template <bool Safe, size_t Off>
constexpr auto czero_row()
{
    std::array<CRes, CN - Off + 1> t{};
    for (size_t l = 0; l + Off <= CN; ++l) t[l] = czero(Off, l, Safe);
    return t;
}
size_t g_cn = 0;
template <bool Safe, size_t Off>
void czero_check()
{
    static constexpr auto t = czero_row<Safe, Off>();
    for (size_t l = 0; l + Off <= CN; ++l)
    {
        at("constexpr secure_zero(offset,length)", Off, l, Safe);
        for (size_t i = 0; i < CN; ++i)
        {
            const byte want =
                i >= Off && i < Off + l ? byte{0} : byte(i * 11 + 3);
            MC_CHECK("C17", t[l].a[i] == want, "byte %zu is %02x", i,
                     (int)t[l].a[i]);
        }
        // execution of the same function gives the same object
        const volatile size_t vo = Off, vl = l;
        const CRes rt = czero(vo, vl, Safe);
        MC_CHECK("C17", rt.a == t[l].a && rt.r == t[l].r,
                 "constant evaluation and execution differ");
        ++g_cn;
    }
}
template <size_t... O>
void czero_all(std::index_sequence<O...>)
{
    (czero_check<false, O>(), ...);
    (czero_check<true, O>(), ...);
}
void zero_constexpr()
{
    cases();
    czero_all(std::make_index_sequence<CN + 1>{});
    done(g_cn, g_cn);
}

// Buffers that nothing reads afterwards.  The code runs on a stack of its own,
// which is looked at once it has returned.
#if !defined(__SANITIZE_ADDRESS__)
#define DEAD_STORES 1
constexpr size_t kStack = 1 << 18;
unsigned char* g_stack;
ucontext_t g_main, g_ctx;
volatile std::uintptr_t g_addr;
volatile size_t g_len;
std::vector<byte> g_arena;
volatile bool g_use_arena;
volatile std::uintptr_t g_arena_at;

void fill(void* p, size_t n)
{
    volatile unsigned char* b = static_cast<unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) b[i] = 0xa5;
    g_addr = reinterpret_cast<std::uintptr_t>(p);
    asm volatile("" ::: "memory");
}
template <size_t N>
struct Key
{
    byte k[N];
};
template <size_t N, int Form>
__attribute__((noinline)) void victim()
{
    if constexpr (Form == 0)
    {
        byte buf[N];
        fill(buf, N);
        um::secure_zero_memory(buf, N);
    }
    else if constexpr (Form == 1)
    {
        byte buf[N];
        fill(buf, N);
        if (um::secure_zero_memory_safe(buf, N)) std::abort();
    }
    else if constexpr (Form == 2)
    {
        byte buf[N];
        fill(buf, N);
        um::secure_zero_memory(buf, g_len);  // length not known
    }
    else if constexpr (Form == 3)
    {
        Key<N>* k = new Key<N>;
        fill(k, N);
        um::secure_zero_memory(k->k, N);
        delete k;
    }
    else if constexpr (Form == 4)
    {
        std::array<byte, N> a;
        fill(a.data(), N);
        (void)um::secure_zero_memory_safe(a.data(), a.size());
    }
    else
    {
        void* p = ::operator new(g_len);
        fill(p, g_len);
        um::secure_zero_memory(static_cast<byte*>(p), g_len);
        ::operator delete(p);
    }
}
size_t g_dead = 0;
// keeps the return path off the part of the stack the victim used
template <size_t N, int Form>
__attribute__((noinline)) void deep()
{
    volatile char pad[16384];
    pad[0] = pad[16383] = 0;
    victim<N, Form>();
    pad[1] = 0;
}
template <size_t N, int Form>
void dead_one()
{
    at("dead buffer of N bytes, form", N, Form, 0);
    memset(g_stack, 0, kStack);
    g_addr = 0;
    g_len = N;
    g_use_arena = Form == 3 || Form == 5;
    getcontext(&g_ctx);
    g_ctx.uc_stack.ss_sp = g_stack;
    g_ctx.uc_stack.ss_size = kStack;
    g_ctx.uc_link = &g_main;
    makecontext(&g_ctx, reinterpret_cast<void (*)()>(&deep<N, Form>), 0);
    swapcontext(&g_main, &g_ctx);
    g_use_arena = false;
    const volatile unsigned char* p =
        reinterpret_cast<const volatile unsigned char*>(g_addr);
    MC_CHECK("", p != nullptr, "the buffer was never filled");
    for (size_t i = 0; i < N; ++i)
        MC_CHECK("C17", p[i] == 0,
                 "byte %zu of a buffer zeroed just before its lifetime ended "
                 "still holds %02x",
                 i, (int)p[i]);
    ++g_dead;
}
template <int Form, size_t... N>
void dead_form(std::index_sequence<N...>)
{
    (dead_one<N, Form>(), ...);
}
template <int Form>
void dead_lengths()
{
    using L = std::conditional_t<
        Form == 0,
        std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33,
                            48, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257, 512,
                            1024, 4096, 16384>,
        std::index_sequence<1, 4, 8, 13, 16, 32, 33, 64, 100, 128, 256, 1000, 4096>>;
    dead_form<Form>(L{});
}
void zero_dead()
{
    cases();
    g_stack = static_cast<unsigned char*>(malloc(kStack));
    g_arena.resize(1 << 20);
    dead_lengths<0>();
    dead_lengths<1>();
    dead_lengths<2>();
    dead_lengths<3>();
    dead_lengths<4>();
    dead_lengths<5>();
    done(g_dead, g_dead);
    mc::sample("stack buffer of 33 bytes zeroed right before return, read from "
               "outside afterwards");
}

// 4 GiB and a few bytes, most of it one shared page range
void zero_huge()
{
    cases();
    const size_t win = 1 << 20, total = (size_t{1} << 32) + 4096;
    const int fd = memfd_create("z", 0);
    if (fd < 0 || ftruncate(fd, win)) return mc::cap("no memfd");
    unsigned char* base = static_cast<unsigned char*>(
        mmap(nullptr, total + win, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED) return mc::cap("no address space");
    for (size_t o = 0; o + win <= total; o += win)
        if (mmap(base + o, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
            return mc::cap("no mapping");
    const size_t tail0 = total / win * win;
    mmap(base + tail0, win, PROT_READ | PROT_WRITE,
         MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    memset(base + tail0, 0x77, win);
    at("secure_zero_memory(4 GiB + 4000)", 0, 0, 0);
    um::secure_zero_memory(reinterpret_cast<byte*>(base + 5),
                           (size_t{1} << 32) + 4000);
    for (size_t i = tail0; i < tail0 + win; ++i)
        MC_CHECK("C17", base[i] == (i < (size_t{1} << 32) + 4005 ? 0 : 0x77),
                 "byte %zu of a range above 4 GiB", i - 5);
    // the checked form, with lengths whose low 32 bits are zero
    size_t n = 1;
    for (size_t extra: {size_t{0}, size_t{1}})
    {
        memset(base + tail0, 0x77, win);
        at("secure_zero_memory_safe(4 GiB + extra)", extra, 0, 0);
        int r = 1;
        if (mc::guarded([&] { r = um::secure_zero_memory_safe(
                                  reinterpret_cast<byte*>(base + 9),
                                  (size_t{1} << 32) + extra); }))
            mc::fail("C17", "terminated");
        MC_CHECK("C17", r == 0, "returned %d", r);
        for (size_t i = tail0; i < tail0 + win; ++i)
            MC_CHECK("C17", base[i] == (i < (size_t{1} << 32) + extra + 9 ? 0 : 0x77),
                     "byte %zu of a range of 4 GiB + %zu", i - 9, extra);
        ++n;
    }
    done(n, n);
}
#endif

// ---- C18 ----------------------------------------------------------------------
#ifdef NDEBUG
// a range of `total` bytes: one shared window of pages repeated, then private pages
unsigned char* wide_range(size_t total, unsigned char low, unsigned char high)
{
    const size_t win = 1 << 20;
    const int fd = memfd_create("w", 0);
    if (fd < 0 || ftruncate(fd, win)) return nullptr;
    unsigned char* base = static_cast<unsigned char*>(
        mmap(nullptr, total + win, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED) return nullptr;
    const size_t tail = total / win * win;
    for (size_t o = 0; o < tail; o += win)
        if (mmap(base + o, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
            return nullptr;
    if (mmap(base + tail, win, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
        return nullptr;
    close(fd);
    memset(base, low, win);
    memset(base + tail, high, win);
    return base;
}
void copy_huge()
{
    cases();
    const size_t four = size_t{1} << 32, win = 1 << 20;
    unsigned char* src = wide_range(four + 4096, 0x21, 0x43);
    unsigned char* dst = wide_range(four + 4096, 0x65, 0x87);
    if (!src || !dst) return mc::cap("no address space");
    size_t n = 0;
    for (int form = 0; form < 2; ++form)
        for (size_t len: {four, four + 9})
        {
            at(form ? "memcpy(dst,src,4 GiB + extra)" : "memmove(dst,src,4 GiB + extra)", 0, 0,
               len - four);
            memset(dst, 0x65, win);
            memset(dst + four, 0x87, win);
            if (form)
                um::memcpy(reinterpret_cast<byte*>(dst), reinterpret_cast<const byte*>(src), len);
            else
            {
                byte* r = um::memmove(reinterpret_cast<byte*>(dst),
                                      reinterpret_cast<const byte*>(src), len);
                MC_CHECK("C18", r == reinterpret_cast<byte*>(dst),
                         "does not return its destination");
            }
            for (size_t i = 0; i < win; ++i)
            {
                MC_CHECK("C18", dst[i] == 0x21 && src[i] == 0x21, "byte %zu", i);
                MC_CHECK("C18", dst[four + i] == (four + i < len ? 0x43 : 0x87),
                         "byte 2^32 + %zu", i);
                MC_CHECK("C18", src[four + i] == 0x43, "source changed");
            }
            ++n;
        }
    munmap(src, four + 4096 + win);
    munmap(dst, four + 4096 + win);
    done(n, n);
}
#endif
void move_overlaps()
{
    cases();
    const size_t N = mc::S().thorough ? 96 : 36;
    size_t n = 0, nt = 0;
    std::vector<byte> buf(N), ref(N), tmp(N);
    for (size_t d = 0; d <= N; ++d)
        for (size_t s = 0; s <= N; ++s)
            for (size_t c = 0; c + std::max(d, s) <= N; ++c)
            {
                at("memmove(dst,src,count)", d, s, c);
                for (size_t i = 0; i < N; ++i)
                    ref[i] = buf[i] = byte(i * 7 + 1);
                for (size_t i = 0; i < c; ++i) tmp[i] = ref[s + i];
                for (size_t i = 0; i < c; ++i) ref[d + i] = tmp[i];
                byte* r = um::memmove(buf.data() + d, buf.data() + s, c);
                MC_CHECK("C18", r == buf.data() + d,
                         "does not return its destination");
                MC_CHECK("C18", buf == ref, "wrong contents");
                ++n;
                nt += c && (d < s + c && s < d + c);
            }
    // larger distances and lengths, all alignments of both ends
    for (size_t len: {64, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 9000})
        for (int delta: {-300, -129, -128, -64, -33, -32, -17, -16, -15, -8, -4, -3,
                         -2, -1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63,
                         64, 65, 128, 129, 300})
            for (size_t off = 0; off < 16; off += 3)
            {
                const size_t s = 320 + off, d = s + delta;
                at("memmove(dst,src,count)", d, s, len);
                std::vector<byte> b(len + 700), w;
                for (size_t i = 0; i < b.size(); ++i)
                    b[i] = byte(i * 13 + (i >> 8));
                w = b;
                for (size_t i = 0; i < len; ++i) w[d + i] = b[s + i];
                byte* r = um::memmove(b.data() + d, b.data() + s, len);
                MC_CHECK("C18", r == b.data() + d && b == w, "wrong contents");
                ++n;
                ++nt;
            }
    // different objects, both orders in memory, exactly sized
    for (size_t len = 0; len <= 80; ++len)
        for (int order = 0; order < 2; ++order)
        {
            at("memmove between objects", len, order, 0);
            std::vector<byte> one(len + 1, byte{1}), two(len + 1, byte{2});
            auto &s = order ? one : two, &d = order ? two : one;
            for (size_t i = 0; i <= len; ++i) s[i] = byte(i + 9);
            const byte last = d[len];
            byte* r = um::memmove(d.data(), s.data(), len);
            MC_CHECK("C18", r == d.data(), "does not return its destination");
            for (size_t i = 0; i < len; ++i)
                MC_CHECK("C18", d[i] == byte(i + 9) && s[i] == byte(i + 9),
                         "byte %zu", i);
            MC_CHECK("C18", d[len] == last, "changed a byte outside");
            ++n;
            nt += len > 0;
        }
    done(n, nt);
    mc::sample("memmove(buf+3, buf+1, 5) in a buffer of N distinct bytes");
}

constexpr size_t MN = 11;
using MArr = std::array<byte, MN>;
struct MRes
{
    MArr a{};
    std::ptrdiff_t ret = -1;
};
constexpr MRes cmove(size_t d, size_t s, size_t c)
{
    MRes m{};
    for (size_t i = 0; i < MN; ++i) m.a[i] = byte(i + 1);
    byte* r = um::memmove(m.a.data() + d, m.a.data() + s, c);
    for (size_t i = 0; i <= MN; ++i)
        if (r == m.a.data() + i) m.ret = static_cast<std::ptrdiff_t>(i);
    return m;
}
struct MTwo
{
    MArr d{}, s{};
};
constexpr MTwo cmove2(size_t d, size_t s, size_t c)
{
    MTwo m{};
    for (size_t i = 0; i < MN; ++i)
    {
        m.d[i] = byte(i + 1);
        m.s[i] = byte(i + 101);
    }
    um::memmove(m.d.data() + d, m.s.data() + s, c);
    return m;
}
template <size_t D, class R, R (*F)(size_t, size_t, size_t)>
constexpr auto cmove_row()
{
    std::array<R, (MN + 1) * (MN + 1)> t{};
    for (size_t s = 0; s <= MN; ++s)
        for (size_t c = 0; c + (s > D ? s : D) <= MN; ++c)
            t[s * (MN + 1) + c] = F(D, s, c);
    return t;
}
size_t g_mn = 0;
template <size_t D>
void cmove_check()
{
    static constexpr auto t = cmove_row<D, MRes, &cmove>();
    static constexpr auto u = cmove_row<D, MTwo, &cmove2>();
    for (size_t s = 0; s <= MN; ++s)
        for (size_t c = 0; c + std::max(s, D) <= MN; ++c)
        {
            at("constexpr memmove(dst,src,count)", D, s, c);
            MArr w{};
            for (size_t i = 0; i < MN; ++i)
                w[i] = byte((i >= D && i < D + c ? i - D + s : i) + 1);
            const MRes& m = t[s * (MN + 1) + c];
            MC_CHECK("C18", m.a == w, "wrong contents");
            MC_CHECK("C18", m.ret == (std::ptrdiff_t)D,
                     "returns element %td", m.ret);
            const volatile size_t vd = D, vs = s, vc = c;
            MC_CHECK("C18", cmove(vd, vs, vc).a == m.a,
                     "constant evaluation and execution differ");
            const MTwo& q = u[s * (MN + 1) + c];
            for (size_t i = 0; i < MN; ++i)
            {
                MC_CHECK("C18", q.s[i] == byte(i + 101), "source changed");
                MC_CHECK("C18",
                         q.d[i] == (i >= D && i < D + c ? byte(i - D + s + 101)
                                                        : byte(i + 1)),
                         "between objects: byte %zu", i);
            }
            g_mn += 2;
        }
}
template <size_t... D>
void cmove_all(std::index_sequence<D...>)
{
    (cmove_check<D>(), ...);
}
void move_constexpr()
{
    cases();
    cmove_all(std::make_index_sequence<MN + 1>{});
    done(g_mn, g_mn);
}

enum class E8 : unsigned char
{
};
enum class I8 : signed char
{
};
struct S8
{
    unsigned char c;
};
template <class To, class From>
__attribute__((noinline)) void copy_types(const char* name)
{
    constexpr size_t N = 40;
    size_t n = 0;
    for (size_t d = 0; d < 10; ++d)
        for (size_t s = 0; s < 10; ++s)
            for (size_t c = 0; c <= 30; ++c)
            {
                g_op = name;
                at(name, d, s, c);
                unsigned char dst[N], src[N];
                const bool b01 =
                    std::is_same_v<To, bool> || std::is_same_v<From, bool>;
                for (size_t i = 0; i < N; ++i)
                {
                    dst[i] = static_cast<unsigned char>(b01 ? (i / 2) & 1 : i + 1);
                    src[i] = static_cast<unsigned char>(
                        b01 ? (i * 5 / 3) & 1 : 255 - i * 5);
                }
                unsigned char w[N], w2[N];
                memcpy(w, dst, N);
                memcpy(w2, src, N);
                for (size_t i = 0; i < c; ++i) w[d + i] = src[s + i];
                To* to = reinterpret_cast<To*>(dst + d);
                const From* from = reinterpret_cast<const From*>(src + s);
                um::memcpy(to, from, c);
                MC_CHECK("C18", !std::memcmp(dst, w, N), "wrong destination");
                MC_CHECK("C18", !std::memcmp(src, w2, N), "source changed");
                // both ranges in one object, disjoint, either order
                unsigned char one[N];
                for (int order = 0; order < 2; ++order)
                {
                    const size_t a = order ? d + c : d, b = order ? d : d + c;
                    if (d + 2 * c > N) continue;
                    for (size_t i = 0; i < N; ++i)
                        one[i] = static_cast<unsigned char>(
                            b01 ? (i * 3 / 2) & 1 : i * 6 + 1);
                    memcpy(w, one, N);
                    for (size_t i = 0; i < c; ++i) w[a + i] = one[b + i];
                    um::memcpy(reinterpret_cast<To*>(one + a),
                               reinterpret_cast<const From*>(one + b), c);
                    MC_CHECK("C18", !std::memcmp(one, w, N),
                             "neighbouring ranges: wrong contents");
                    ++n;
                }
                ++n;
            }
    done(n, n);
}
void copy_runtime()
{
    cases();
#define CP(T, F) copy_types<T, F>("memcpy<" #T "," #F ">(dst,src,count)")
#define CPR(T)            \
    CP(T, byte);          \
    CP(T, char);          \
    CP(T, unsigned char); \
    CP(T, signed char);   \
    CP(T, E8);            \
    CP(T, I8);            \
    CP(T, void);
    CPR(byte)
    CPR(char)
    CPR(unsigned char)
    CPR(signed char)
    CPR(E8)
    CPR(I8)
    CPR(void)
    CP(bool, bool);
    CP(bool, byte);
    CP(byte, bool);
    CP(S8, S8);
    CP(void, S8);
    mc::sample("memcpy<byte,signed char>(dst+3, src+1, 17) with all byte values");
    // every byte value through every pair is covered by 255-i*5 plus this
    size_t n = 0;
    for (size_t len: {255, 256, 257, 4095, 4096, 65536, 1 << 20})
    {
        at("memcpy long", len, 0, 0);
        std::vector<unsigned char> a(len + 2, 7), b(len + 2);
        for (size_t i = 0; i < b.size(); ++i) b[i] = (unsigned char)(i * 31 + (i >> 9));
        um::memcpy(a.data() + 1, b.data() + 1, len);
        MC_CHECK("C18", a[0] == 7 && a[len + 1] == 7, "byte outside changed");
        for (size_t i = 1; i <= len; ++i)
            MC_CHECK("C18", a[i] == b[i], "byte %zu", i - 1);
        ++n;
    }
    done(n, n);
}

template <class To, class From>
struct CC
{
    std::array<To, 256> d{};
    std::array<From, 256> s{};
};
template <class To, class From>
constexpr CC<To, From> ccopy(size_t d, size_t s, size_t c)
{
    CC<To, From> r{};
    for (size_t i = 0; i < 256; ++i)
    {
        r.d[i] = static_cast<To>(7);
        r.s[i] = static_cast<From>(static_cast<unsigned char>(i));
    }
    um::memcpy(r.d.data() + d, r.s.data() + s, c);
    return r;
}
template <class To, class From, size_t D, size_t S, size_t C>
__attribute__((noinline)) void ccopy_one(const char* name)
{
    at(name, D, S, C);
    static constexpr CC<To, From> r = ccopy<To, From>(D, S, C);
    const volatile size_t d = D, s = S, c = C;
    const CC<To, From> q = ccopy<To, From>(d, s, c);
    for (size_t i = 0; i < 256; ++i)
    {
        const unsigned char want =
            static_cast<unsigned char>(i >= D && i < D + C ? i - D + S : 7);
        MC_CHECK("C18", static_cast<unsigned char>(r.d[i]) == want,
                 "constant: element %zu is %02x, expected %02x", i,
                 (int)static_cast<unsigned char>(r.d[i]), (int)want);
        MC_CHECK("C18", static_cast<unsigned char>(q.d[i]) == want,
                 "execution: element %zu", i);
        MC_CHECK("C18",
                 static_cast<unsigned char>(r.s[i]) == (unsigned char)i,
                 "source changed");
    }
    done(2, 2);
}
template <class To, class From>
void ccopy_all(const char* name)
{
    ccopy_one<To, From, 0, 0, 256>(name);
    ccopy_one<To, From, 10, 20, 130>(name);
    if constexpr (std::is_same_v<To, From> || std::is_same_v<To, byte>)
    {
        ccopy_one<To, From, 0, 0, 0>(name);
        ccopy_one<To, From, 256, 256, 0>(name);
        ccopy_one<To, From, 3, 0, 253>(name);
        ccopy_one<To, From, 0, 3, 253>(name);
        ccopy_one<To, From, 100, 120, 1>(name);
    }
}
void copy_constexpr()
{
    cases();
#define CCP(T, F) ccopy_all<T, F>("constexpr memcpy<" #T "," #F ">(dst,src,count)")
#define CCR(T)             \
    CCP(T, byte);          \
    CCP(T, char);          \
    CCP(T, unsigned char); \
    CCP(T, signed char);   \
    CCP(T, E8);            \
    CCP(T, I8);
    CCR(byte)
    CCR(char)
    CCR(unsigned char)
    CCR(signed char)
    CCR(E8)
    CCR(I8)
}

void reg()
{
    mc::add("zero_ranges", zero_ranges, 0, "C17");
    mc::add("zero_errors", zero_errors, 0, "C17");
    mc::add("zero_constexpr", zero_constexpr, 0, "C17");
#ifdef DEAD_STORES
    mc::add("zero_dead", zero_dead, 0, "C17");
#ifdef __OPTIMIZE__
    mc::add("zero_huge", zero_huge, 0, "C17");
    mc::add("copy_huge", copy_huge, 0, "C18");
#endif
#endif
    mc::add("move_overlaps", move_overlaps, 0, "C18");
    mc::add("move_constexpr", move_constexpr, 0, "C18");
    mc::add("copy_runtime", copy_runtime, 0, "C18");
    mc::add("copy_constexpr", copy_constexpr, 0, "C18");
}
}  // namespace

#ifdef DEAD_STORES
// storage that stays readable after it has been given back
__attribute__((noinline)) void* operator new(size_t n)
{
    if (g_use_arena)
    {
        g_arena_at = reinterpret_cast<std::uintptr_t>(g_arena.data());
        return g_arena.data();
    }
    if (void* p = malloc(n)) return p;
    throw std::bad_alloc{};
}
__attribute__((noinline)) void operator delete(void* p) noexcept
{
    if (g_arena_at != reinterpret_cast<std::uintptr_t>(p)) free(p);
}
__attribute__((noinline)) void operator delete(void* p, size_t) noexcept
{
    if (g_arena_at != reinterpret_cast<std::uintptr_t>(p)) free(p);
}
#endif
MC_MAIN(reg)
