// C19 alignment arithmetic, C20 clz/ctz, C21 bit widths, C22 division,
// C23 shifts, bit casts, enum conversion.
#include <algorithm>
#include <array>
#include <cstdint>
#include <limits>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

#include <mc.h>
#include <utils/clz.h>
#include <utils/common.h>
#include <utils/ctz.h>
#include <utils/memory/memory.h>

using std::size_t;
using std::uintptr_t;
using mc::fmt;
using u64 = mc::u64;
using i128 = __int128;
using u128 = unsigned __int128;

namespace
{
const char* volatile g_op = "";
volatile u64 g_a, g_b, g_c;
void cases()
{
    mc::S().current = []
    {
        return fmt("%s(%llu = %#llx, %llu = %#llx, %llu)", g_op, (u64)g_a,
                   (u64)g_a, (u64)g_b, (u64)g_b, (u64)g_c);
    };
}
inline void at(const char* op, u64 a, u64 b = 0, u64 c = 0)
{
    g_op = op;
    g_a = a;
    g_b = b;
    g_c = c;
    mc::beat();
}
u64 g_n, g_nt;
void done()
{
    mc::count("evaluations", g_n);
    mc::count("distinct_nontrivial", g_nt);
    g_n = g_nt = 0;
}
template <class T>
T launder(T v)
{
    asm volatile("" : "+r"(v));
    return v;
}

// 64-bit values: all of 16 bit, one, two (three) bits, runs of ones, their
// neighbours, complements, every byte in every position
const std::vector<u64>& values64()
{
    static const std::vector<u64> v = []
    {
        std::set<u64> s;
        auto add = [&](u64 x)
        {
            s.insert(x);
            s.insert(~x);
        };
        for (u64 i = 0; i < 65536; ++i) s.insert(i);
        for (int i = 0; i < 64; ++i)
            for (u64 d = 0; d <= 70; ++d)
            {
                s.insert((1ull << i) - d);
                s.insert((1ull << i) + d);
            }
        for (int i = 0; i < 64; ++i)
            for (int j = 0; j < 64; ++j)
            {
                add((1ull << i) | (1ull << j));
                add((1ull << i) - (1ull << j));
                if (mc::S().thorough)
                    for (int k = 0; k < 64; ++k)
                        add((1ull << i) | (1ull << j) | (1ull << k));
            }
        for (u64 b = 0; b < 256; ++b)
            for (int i = 0; i <= 56; ++i) add(b << i);
        for (u64 p: {0x5555555555555555ull, 0x3333333333333333ull,
                     0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull,
                     0x0000ffff0000ffffull, 0x0123456789abcdefull})
            for (int i = 0; i < 64; ++i)
            {
                add(p << i);
                add(p >> i);
            }
        return std::vector<u64>(s.begin(), s.end());
    }();
    return v;
}
// few hundred values of type T around every boundary of every type
template <class T>
std::vector<T> boundary(int spread)
{
    std::set<T> s;
    for (int i = -140; i <= 140; ++i) s.insert(static_cast<T>(i));
    for (int p = 3; p < 64; ++p)
        for (int d = -spread; d <= spread; ++d)
        {
            s.insert(static_cast<T>((1ull << p) + d));
            s.insert(static_cast<T>(0 - (1ull << p) + d));
            s.insert(static_cast<T>((3ull << p) / 2 + d));
        }
    for (u64 x: {10ull, 100ull, 1000ull, 10000ull, 1000000007ull, 4294967291ull,
                 12345678901234567ull, 9999999999999999961ull,
                 0xaaaaaaaaaaaaaaaaull, 0x123456789abcdefull})
    {
        s.insert(static_cast<T>(x));
        s.insert(static_cast<T>(0 - x));
    }
    s.insert(std::numeric_limits<T>::min());
    s.insert(std::numeric_limits<T>::max());
    return {s.begin(), s.end()};
}

// ---- C19 ----------------------------------------------------------------------
int ref_high(u64 v)  // index of the highest bit
{
    int r = -1;
    while (v)
    {
        v >>= 1;
        ++r;
    }
    return r;
}
int ref_low(u64 v)
{
    int r = 0;
    while (!(v & 1))
    {
        v >>= 1;
        ++r;
    }
    return r;
}
std::vector<u64> near(u64 a)
{
    std::vector<u64> v;
    for (u64 d = 0; d <= 3; ++d)
        for (u64 k: {0ull, 1ull, 2ull, 3ull, 5ull})
        {
            v.push_back(a * k + d);
            v.push_back(a * k - d);
            v.push_back(0 - a * k + d);
            v.push_back(0 - a * k - d);
            v.push_back(a / 2 + d);
        }
    return v;
}
void check_next(u64 m, u64 v)
{
    at("next_multiple_of", m, v);
    const u128 want = ((u128)v + m - 1) / m * m;
    ++g_n;
    g_nt += v % m != 0;
    const bool fits = want <= ~0ull;
    if (fits)
    {
        const u64 got = utils::next_multiple_of(static_cast<uintptr_t>(m),
                                                static_cast<uintptr_t>(v));
        MC_CHECK("C19", got == (u64)want, "got %llu", got);
        at("skip_to_align", v, m);
        const u64 sk = utils::skip_to_align(reinterpret_cast<void*>(v), m);
        MC_CHECK("C19", sk == (u64)want - v, "got %llu", sk);
    }
    at("is_aligned", v, m);
    const bool al = utils::is_aligned(reinterpret_cast<void*>(v), m);
    MC_CHECK("C19", al == (v % m == 0), "got %d", al);
}
void align_values()
{
    cases();
    for (int p = 0; p < 64; ++p)
    {
        const u64 m = 1ull << p;
        for (u64 v: near(m)) check_next(m, v);
        const u64 lim = p < 14 ? 70000 : 300;
        for (u64 v = 0; v < lim; ++v)
        {
            check_next(m, v);
            if (p < 4) check_next(m, ~v);
        }
        for (u64 v: values64()) check_next(m, v);
    }
    done();
    mc::sample("next_multiple_of(2^33, 2^33+1), skip_to_align, is_aligned");
}
template <class U, auto P>
void next_t(const char* name)
{
    auto one = [&](U v)
    {
        at(name, (u64)v, (u64)P);
        const i128 m = (i128)P, x = (i128)v;
        i128 q = x / m * m;
        if (q < x) q += m;
        if (q > (i128)std::numeric_limits<U>::max()) return;
        // the addition is signed for signed types
        if (std::is_signed_v<U> && x + m - 1 > (i128)std::numeric_limits<U>::max() &&
            sizeof(U) >= 4)
            return;
        const U got = utils::next_multiple_of<P>(v);
        MC_CHECK("C19", (i128)got == q, "got %lld", (long long)got);
        static_assert(std::is_same_v<decltype(utils::next_multiple_of<P>(v)), U>);
        ++g_n;
        g_nt += q != x;
    };
    if constexpr (sizeof(U) <= 2)
        for (long v = std::numeric_limits<U>::min();
             v <= std::numeric_limits<U>::max(); ++v)
            one(static_cast<U>(v));
    else
        for (U v: boundary<U>(9)) one(v);
}
template <class U, size_t... I>
void next_all(const char* name, std::index_sequence<I...>)
{
    (next_t<U, (size_t{1} << I)>(name), ...);
}
void align_templates()
{
    cases();
#define NX(U, BITS) \
    next_all<U>("next_multiple_of<P>(" #U ")", std::make_index_sequence<BITS>{});
    NX(unsigned char, 8)
    NX(signed char, 7)
    NX(unsigned short, 16)
    NX(short, 15)
    NX(unsigned, 32)
    NX(int, 31)
    NX(unsigned long, 64)
    NX(long, 63)
    NX(unsigned long long, 64)
    NX(long long, 63)
    NX(char16_t, 16)
    NX(char32_t, 32)
    next_t<unsigned, 8>("next_multiple_of<int 8>(unsigned)");
    next_t<u64, 1u << 31>("next_multiple_of<unsigned 2^31>(u64)");
    next_t<unsigned char, (unsigned char)64>("next_multiple_of<uchar 64>(uchar)");
    done();
}
template <size_t A>
struct alignas(A) Al
{
    char c;
};
template <class T>
void align_of(const char* name)
{
    const u64 a = alignof(T);
    std::vector<u64> v = near(a);
    for (u64 i = 0; i < 3 * a + 40; ++i)
    {
        v.push_back(i);
        v.push_back(0x7fffffffffffull + i);
        v.push_back(0xffffff00ull + i);
    }
    for (u64 x: v)
    {
        at(name, x, a);
        void const* p = reinterpret_cast<void const*>(x);
        MC_CHECK("C19", utils::is_aligned<T>(p) == (x % a == 0),
                 "is_aligned<T> is wrong");
        if (x <= ~0ull - a)
        {
            const u64 sk = utils::skip_to_align<T>(p);
            MC_CHECK("C19", sk == (a - x % a) % a, "skip_to_align<T> = %llu", sk);
        }
        ++g_n;
        g_nt += x % a != 0;
    }
}
void align_types()
{
    cases();
#define AT(T) align_of<T>("alignment of " #T)
    AT(char);
    AT(bool);
    AT(short);
    AT(int);
    AT(float);
    AT(double);
    AT(long double);
    AT(void*);
    AT(std::max_align_t);
    AT(Al<1>);
    AT(Al<2>);
    AT(Al<4>);
    AT(Al<8>);
    AT(Al<16>);
    AT(Al<32>);
    AT(Al<64>);
    AT(Al<128>);
    AT(Al<1024>);
    AT(Al<4096>);
    AT(Al<65536>);
    done();
}
void align_of_address()
{
    cases();
    for (u64 v: values64())
    {
        if (!v) continue;
        at("get_alignment", v);
        const u64 got = utils::memory::get_alignment(reinterpret_cast<void*>(v));
        MC_CHECK("C19", got == (1ull << ref_low(v)), "got %llu", got);
        ++g_n;
        g_nt += got > 1;
    }
    done();
}
template <class T>
void divisor(const char* name)
{
    auto one = [&](T v)
    {
        at(name, v);
        const u64 got = utils::greatest_divisor_that_is_power_of_2(v);
        static_assert(std::is_same_v<
                      decltype(utils::greatest_divisor_that_is_power_of_2(v)), T>);
        const u64 want = v ? 1ull << ref_low(v) : 1ull << (sizeof(T) * 8 - 1);
        MC_CHECK("C19", got == want, "got %llu", got);
        ++g_n;
        g_nt += want > 1;
    };
    if constexpr (sizeof(T) <= 2)
        for (unsigned v = 0; v <= std::numeric_limits<T>::max(); ++v)
            one(static_cast<T>(v));
    else
        for (u64 v: values64())
        {
            one(static_cast<T>(v));
            one(static_cast<T>(v >> 32));
        }
}
template <size_t N>
struct CT
{
    std::array<u64, N> a{}, b{};
};
constexpr CT<64 * 64 * 3> c19_table()
{
    CT<64 * 64 * 3> t{};
    size_t n = 0;
    for (int i = 0; i < 64; ++i)
        for (int j = 0; j < 64; ++j)
            for (u64 d = 0; d < 3; ++d, ++n)
            {
                const u64 m = 1ull << i, v = (1ull << j) + d - 1;
                t.a[n] = v > ~0ull - m + 1 ? 0 : utils::next_multiple_of(m, v);
                t.b[n] = utils::max_alignment_inside_block(
                    m / 2 + (m == 1), v / 2 + 1);
            }
    return t;
}
constexpr CT<64 * 7> c19_table2()
{
    CT<64 * 7> t{};
    size_t n = 0;
    for (int i = 0; i < 64; ++i)
        for (u64 d = 0; d < 7; ++d, ++n)
        {
            t.a[n] = utils::is_power_of_2((1ull << i) + d - 3);
            t.b[n] = utils::greatest_divisor_that_is_power_of_2((1ull << i) +
                                                                d - 3);
        }
    return t;
}
u64 ref_inside(u64 a, u64 s)
{
    const u128 top = (u128)a + s - 1;
    u64 r = a;
    while (r <= (~0ull >> 1) && (u128)r * 2 <= top) r *= 2;
    return r;
}
void align_powers()
{
    cases();
    for (u64 v: values64())
    {
        at("is_power_of_2", v);
        int bits = 0;
        for (int i = 0; i < 64; ++i) bits += v >> i & 1;
        MC_CHECK("C19", utils::is_power_of_2(v) == (bits == 1), "wrong");
        ++g_n;
        g_nt += bits > 0;
    }
    divisor<unsigned char>("greatest_divisor_that_is_power_of_2(uchar)");
    divisor<unsigned short>("greatest_divisor_that_is_power_of_2(ushort)");
    divisor<unsigned>("greatest_divisor_that_is_power_of_2(unsigned)");
    divisor<unsigned long>("greatest_divisor_that_is_power_of_2(ulong)");
    divisor<unsigned long long>("greatest_divisor_that_is_power_of_2(ull)");
    divisor<char16_t>("greatest_divisor_that_is_power_of_2(char16_t)");
    divisor<char32_t>("greatest_divisor_that_is_power_of_2(char32_t)");
    static constexpr auto t = c19_table();
    size_t n = 0;
    for (int i = 0; i < 64; ++i)
        for (int j = 0; j < 64; ++j)
            for (u64 d = 0; d < 3; ++d, ++n)
            {
                const u64 m = 1ull << i, v = (1ull << j) + d - 1;
                at("constexpr next_multiple_of", m, v);
                if (v <= ~0ull - m + 1)
                    MC_CHECK("C19", t.a[n] == (u64)(((u128)v + m - 1) / m * m),
                             "constant: %llu", t.a[n]);
                const u64 a = m / 2 + (m == 1), s = v / 2 + 1;
                at("constexpr max_alignment_inside_block", a, s);
                MC_CHECK("C19", t.b[n] == ref_inside(a, s), "constant: %llu",
                         t.b[n]);
                ++g_n;
            }
    static constexpr auto t2 = c19_table2();
    n = 0;
    for (int i = 0; i < 64; ++i)
        for (u64 d = 0; d < 7; ++d, ++n)
        {
            const u64 v = (1ull << i) + d - 3;
            at("constexpr is_power_of_2 / greatest_divisor", v);
            MC_CHECK("C19", t2.a[n] == (u64)(v && !(v & (v - 1))), "constant");
            MC_CHECK("C19", t2.b[n] == (v ? 1ull << ref_low(v) : 1ull << 63),
                     "constant %llu", t2.b[n]);
            ++g_n;
        }
    done();
}
void align_inside()
{
    cases();
    // the formula of the oracle against the definition
    for (u64 a = 1; a <= 64; a *= 2)
        for (u64 s = 1; s <= 300; ++s)
        {
            u64 best = 0;
            for (u64 p = 1; p <= 1024; p *= 2)
            {
                bool all = true;
                for (u64 k = 0; k < 1024 / a + 1; ++k)
                {
                    const u64 start = k * a;
                    all = all && (start + p - 1) / p * p < start + s;
                }
                if (all) best = p;
            }
            at("oracle of max_alignment_inside_block", a, s);
            MC_CHECK("", best == ref_inside(a, s), "oracle: %llu", best);
        }
    auto one = [](u64 a, u64 s)
    {
        if (s == 0 || (u128)a + s - 1 > ~0ull) return;
        at("max_alignment_inside_block", a, s);
        const u64 got = utils::max_alignment_inside_block(a, s);
        MC_CHECK("C19", got == ref_inside(a, s), "got %llu", got);
        ++g_n;
        g_nt += got > a;
    };
    for (int p = 0; p < 64; ++p)
    {
        for (u64 s = 1; s < 70000; ++s)
            if (p < 18) one(1ull << p, s);
        for (u64 s: values64()) one(1ull << p, s);
    }
    done();
}

// ---- C20 ----------------------------------------------------------------------
template <class T>
inline void zc(const char* name, T v, int hi, int lo)
{
    const int w = sizeof(T) * 8;
    const long long c = utils::clz(v), t = utils::ctz(v);
    if (c != w - 1 - hi || t != lo)
    {
        at(name, v);
        mc::fail("C20", fmt("clz = %lld (expected %d), ctz = %lld (expected %d)", c,
                            w - 1 - hi, t, lo));
    }
    ++g_n;
}
template <class T>
void zeros(const char* name)
{
    at(name, 0);
    if constexpr (sizeof(T) <= 2)
        for (unsigned v = 1; v <= std::numeric_limits<T>::max(); ++v)
            zc<T>(name, static_cast<T>(v), ref_high(v), ref_low(v));
    else
        for (u64 v: values64())
            for (int sh = 0; sh < 64; sh += 16)
            {
                const T x = static_cast<T>(v >> sh);
                if (x) zc<T>(name, x, ref_high(x), ref_low(x));
            }
    mc::beat();
}
void zero_counts()
{
    cases();
    g_nt = 0;
#define ZT(T) zeros<T>("clz/ctz(" #T ")")
    ZT(unsigned char);
    ZT(unsigned short);
    ZT(unsigned);
    ZT(unsigned long);
    ZT(unsigned long long);
    ZT(char16_t);
    ZT(char32_t);
    ZT(uint_fast8_t);
    ZT(uint_fast16_t);
    ZT(uint_fast32_t);
    ZT(uint_least16_t);
    ZT(size_t);
    ZT(uintptr_t);
    ZT(uintmax_t);
    g_nt = g_n;
    done();
    mc::sample("clz/ctz of every 16-bit value through 14 unsigned types");
}
template <class T>
void zero_all32(unsigned part)
{
    cases();
    for (u64 v = (u64)part << 29; v < ((u64)(part + 1) << 29); ++v)
    {
        if (!v) continue;
        const T x = static_cast<T>(v);
        // definition: x has no bit above hi, bit hi is set
        const int c = utils::clz(x), t = utils::ctz(x);
        const bool ok = c >= 0 && c < 32 && t >= 0 && t < 32 &&
                        (v >> (31 - c)) == 1 && (v >> t & 1) &&
                        (v & ((1ull << t) - 1)) == 0;
        if (!ok)
        {
            at("clz/ctz of a 32-bit value", v);
            mc::fail("C20", fmt("clz = %d, ctz = %d", c, t));
        }
        if ((v & 0xffffff) == 0) mc::beat();
    }
    g_n = g_nt = 1ull << 29;
    done();
}
template <class T>
constexpr auto c20_small()
{
    std::array<std::array<signed char, 2>, size_t{1} << (sizeof(T) == 1 ? 8 : 14)> t{};
    for (unsigned v = 1; v < t.size(); ++v)
    {
        const T x = static_cast<T>(sizeof(T) == 1 ? v : v * 5 + (v >> 9));
        if (!x) continue;
        t[v][0] = static_cast<signed char>(utils::clz(x));
        t[v][1] = static_cast<signed char>(utils::ctz(x));
    }
    return t;
}
template <class T>
constexpr auto c20_bits()
{
    constexpr size_t W = sizeof(T) * 8;
    std::array<std::array<signed char, 2>, W * W * 2> t{};
    for (size_t i = 0; i < W; ++i)
        for (size_t j = 0; j <= i; ++j)
            for (size_t k = 0; k < 2; ++k)
            {
                const T x = static_cast<T>(
                    k ? (T{1} << i) | (T{1} << j)
                      : ((T{1} << i) - (T{1} << j)) | (T{1} << j));
                t[(i * W + j) * 2 + k][0] = static_cast<signed char>(utils::clz(x));
                t[(i * W + j) * 2 + k][1] = static_cast<signed char>(utils::ctz(x));
            }
    return t;
}
template <class T>
void zero_const_t(const char* name)
{
    constexpr int W = sizeof(T) * 8;
    static constexpr auto t = c20_bits<T>();
    for (int i = 0; i < W; ++i)
        for (int j = 0; j <= i; ++j)
            for (int k = 0; k < 2; ++k)
            {
                const T x = static_cast<T>(
                    k ? (T{1} << i) | (T{1} << j)
                      : ((T{1} << i) - (T{1} << j)) | (T{1} << j));
                at(name, x);
                const auto& e = t[(i * W + j) * 2 + k];
                MC_CHECK("C20", e[0] == W - 1 - ref_high(x) && e[1] == ref_low(x),
                         "constant: clz %d ctz %d", e[0], e[1]);
                ++g_n;
            }
    if constexpr (sizeof(T) <= 2)
    {
        static constexpr auto s = c20_small<T>();
        for (unsigned v = 1; v < s.size(); ++v)
        {
            const T x = static_cast<T>(sizeof(T) == 1 ? v : v * 5 + (v >> 9));
            if (!x) continue;
            at(name, x);
            MC_CHECK("C20", s[v][0] == W - 1 - ref_high(x) && s[v][1] == ref_low(x),
                     "constant: clz %d ctz %d", s[v][0], s[v][1]);
            ++g_n;
        }
    }
}
void zero_constexpr()
{
    cases();
#define ZC(T) zero_const_t<T>("constexpr clz/ctz(" #T ")")
    ZC(unsigned char);
    ZC(unsigned short);
    ZC(unsigned);
    ZC(unsigned long);
    ZC(unsigned long long);
    ZC(char16_t);
    ZC(char32_t);
    g_nt = g_n;
    done();
}
template <class T, class = void>
struct has_clz : std::false_type
{
};
template <class T>
struct has_clz<T, std::void_t<decltype(utils::clz(std::declval<T>()))>>
    : std::true_type
{
};
template <class T, class = void>
struct has_ctz : std::false_type
{
};
template <class T>
struct has_ctz<T, std::void_t<decltype(utils::ctz(std::declval<T>()))>>
    : std::true_type
{
};
template <class T, class = void>
struct has_clz_of : std::false_type
{
};
template <class T>
struct has_clz_of<T, std::void_t<decltype(utils::clz<T>(T{}))>> : std::true_type
{
};
template <class T, class = void>
struct has_ctz_of : std::false_type
{
};
template <class T>
struct has_ctz_of<T, std::void_t<decltype(utils::ctz<T>(T{}))>> : std::true_type
{
};
enum UE : unsigned
{
};
enum class UEC : unsigned long
{
};
struct SU
{
    operator unsigned() const { return 1; }
};
void zero_rejects()
{
    cases();
    auto one = [](const char* n, bool c, bool t, bool want)
    {
        at(n, c, t, want);
        MC_CHECK("C20", c == want && t == want,
                 "accepted by clz: %d, by ctz: %d, expected %d", c, t, want);
        ++g_n;
        ++g_nt;
    };
#define RJ(T, W) one("accepts " #T, has_clz<T>::value, has_ctz<T>::value, W)
    RJ(bool, false);
    RJ(char, std::is_unsigned_v<char>);
    RJ(signed char, false);
    RJ(short, false);
    RJ(int, false);
    RJ(long, false);
    RJ(long long, false);
    RJ(float, false);
    RJ(double, false);
    RJ(long double, false);
    RJ(wchar_t, std::is_unsigned_v<wchar_t>);
    RJ(std::byte, false);
    RJ(UE, false);
    RJ(UEC, false);
    RJ(SU, false);
    RJ(void*, false);
    RJ(unsigned*, false);
    RJ(std::nullptr_t, false);
    RJ(unsigned char, true);
    RJ(unsigned short, true);
    RJ(unsigned, true);
    RJ(unsigned long, true);
    RJ(unsigned long long, true);
    RJ(char16_t, true);
    RJ(char32_t, true);
    RJ(const unsigned, true);
    RJ(const unsigned&, true);
    RJ(volatile unsigned short&, true);
    RJ(const bool&, false);
    RJ(volatile bool&, false);
#define RX(T, W) one("accepts explicit " #T, has_clz_of<T>::value, has_ctz_of<T>::value, W)
    RX(bool, false);
    RX(const bool, false);
    RX(volatile bool, false);
    RX(int, false);
    RX(std::byte, false);
    RX(unsigned, true);
    RX(const unsigned, true);
#undef RX
    done();
}

// ---- C21 ----------------------------------------------------------------------
template <class T>
void occupied(const char* name)
{
    auto one = [&](u64 v)
    {
        T x = static_cast<T>(v);
        at(name, x);
        const T cx = x;
        const size_t want = ref_high(x) + 1;
        const size_t g1 = utils::nbits_occupied(x), g2 = utils::nbits_occupied(cx),
                     g3 = utils::nbits_occupied(static_cast<T>(v));
        MC_CHECK("C21", g1 == want && g2 == want && g3 == want,
                 "got %zu %zu %zu, expected %zu", g1, g2, g3, want);
        MC_CHECK("C21", x == cx, "the argument changed");
        ++g_n;
        g_nt += x != 0;
    };
    if constexpr (sizeof(T) <= 2)
        for (unsigned v = 0; v <= std::numeric_limits<T>::max(); ++v) one(v);
    else
        for (u64 v: values64())
        {
            one(v);
            one(v >> 32);
        }
}
constexpr auto c21_table()
{
    std::array<std::array<unsigned char, 2>, 64 * 65> t{};
    for (size_t i = 0; i < 64; ++i)
        for (size_t j = 0; j <= 64; ++j)
        {
            const u64 v = (1ull << i) + (j < 64 ? (1ull << j) : 0) - 1;
            t[i * 65 + j][0] = utils::bits_count(v);
            t[i * 65 + j][1] = static_cast<unsigned char>(utils::nbits_occupied(v));
        }
    return t;
}
void widths_of_values()
{
    cases();
    for (u64 v: values64())
    {
        at("bits_count", v);
        const int got = utils::bits_count(v);
        MC_CHECK("C21", got == ref_high(v) + 1, "got %d", got);
        ++g_n;
        g_nt += v != 0;
    }
    occupied<unsigned char>("nbits_occupied(uchar)");
    occupied<unsigned short>("nbits_occupied(ushort)");
    occupied<unsigned>("nbits_occupied(unsigned)");
    occupied<unsigned long>("nbits_occupied(ulong)");
    occupied<unsigned long long>("nbits_occupied(ull)");
    occupied<char16_t>("nbits_occupied(char16_t)");
    occupied<char32_t>("nbits_occupied(char32_t)");
    static constexpr auto t = c21_table();
    for (size_t i = 0; i < 64; ++i)
        for (size_t j = 0; j <= 64; ++j)
        {
            const u64 v = (1ull << i) + (j < 64 ? (1ull << j) : 0) - 1;
            at("constexpr bits_count / nbits_occupied", v);
            MC_CHECK("C21",
                     t[i * 65 + j][0] == ref_high(v) + 1 &&
                         t[i * 65 + j][1] == ref_high(v) + 1,
                     "constant: %d %d", t[i * 65 + j][0], t[i * 65 + j][1]);
            ++g_n;
        }
    MC_CHECK("C21", utils::kNumBitsTable.size() == 256, "table size");
    for (unsigned v = 0; v < 256; ++v)
    {
        at("kNumBitsTable", v);
        unsigned n = 0;
        for (int i = 0; i < 8; ++i) n += v >> i & 1;
        MC_CHECK("C21", utils::kNumBitsTable[v] == n, "got %d",
                 (int)utils::kNumBitsTable[v]);
        ++g_n;
        ++g_nt;
    }
    done();
}
template <size_t I>
using smallest = std::conditional_t<
    I <= 8, uint8_t,
    std::conditional_t<I <= 16, uint16_t,
                       std::conditional_t<I <= 32, uint32_t, uint64_t>>>;
template <class T>
constexpr bool plain_uint = std::is_unsigned_v<T> && !std::is_same_v<T, bool> &&
                            std::is_same_v<T, std::remove_cv_t<T>>;
template <size_t N>
void uint_of_bits()
{
    using A = utils::uint_from_nbits_t<N>;
    using B = typename utils::uint_from_nbits<N>::type;
    using F = utils::fast_uint_from_nbits_t<N>;
    using G = typename utils::fast_uint_from_nbits<N>::type;
    at("uint_from_nbits", N);
    MC_CHECK("C21", (std::is_same_v<A, smallest<N>>), "not the smallest type: %zu bytes",
             sizeof(A));
    MC_CHECK("C21", (std::is_same_v<A, B>), "alias and struct differ");
    at("fast_uint_from_nbits", N);
    MC_CHECK("C21", plain_uint<F> && sizeof(F) * 8 >= N, "too narrow: %zu bytes",
             sizeof(F));
    using W = std::conditional_t<
        N <= 8, uint_fast8_t,
        std::conditional_t<N <= 16, uint_fast16_t,
                           std::conditional_t<N <= 32, uint_fast32_t,
                                              uint_fast64_t>>>;
    MC_CHECK("C21", (std::is_same_v<F, W>), "not the fastest type for %zu bits", N);
    MC_CHECK("C21", (std::is_same_v<F, G>), "alias and struct differ");
    g_n += 2;
    g_nt += 2;
}
template <size_t N>
void uint_of_bytes()
{
    at("uint_from_nbytes", N);
    MC_CHECK("C21", (std::is_same_v<utils::uint_from_nbytes_t<N>, smallest<N * 8>>),
             "%zu bytes", sizeof(utils::uint_from_nbytes_t<N>));
    MC_CHECK("C21", (std::is_same_v<utils::UInt<N>, smallest<N * 8>>),
             "UInt: %zu bytes", sizeof(utils::UInt<N>));
    at("fast_uint_from_nbytes", N);
    MC_CHECK("C21",
             (std::is_same_v<utils::fast_uint_from_nbytes_t<N>,
                             utils::fast_uint_from_nbits_t<N * 8>>),
             "differs from the form in bits");
    MC_CHECK("C21", (std::is_same_v<utils::FastUInt<N>, utils::fast_uint_from_nbits_t<N * 8>>),
             "FastUInt differs from the form in bits");
    MC_CHECK("C21", sizeof(utils::FastUInt<N>) >= N, "too narrow");
    g_n += 2;
    g_nt += 2;
}
template <u64 C, class U>
void enum_of()
{
    enum class E : U
    {
        Count = static_cast<U>(C)
    };
    enum P : U
    {
        Count = static_cast<U>(C)
    };
    struct Plain
    {
        enum T : U
        {
            Count = static_cast<U>(C)
        };
    };
    at("enum_properties", C, sizeof(U));
    constexpr int w = []
    {
        int r = 0;
        for (u64 v = C; v; v >>= 1) ++r;
        return r;
    }();
    MC_CHECK("C21", utils::enum_properties<E>::numBits == w, "numBits = %d",
             (int)utils::enum_properties<E>::numBits);
    MC_CHECK("C21",
             (std::is_same_v<typename utils::enum_properties<E>::SerializeT,
                             smallest<w>>),
             "SerializeT has %zu bytes",
             sizeof(typename utils::enum_properties<E>::SerializeT));
    MC_CHECK("C21",
             (utils::enum_properties<P>::numBits == w &&
              std::is_same_v<typename utils::enum_properties<P>::SerializeT,
                             smallest<w>>),
             "unscoped enumeration: numBits = %d",
             (int)utils::enum_properties<P>::numBits);
    ++g_n;
    ++g_nt;
}
template <size_t I>
void enum_bits()
{
    constexpr u64 p = 1ull << I;
    enum_of<p, u64>();
    enum_of<p | 1, u64>();
    enum_of<p + (p - 1), u64>();
    if constexpr (I < 31) enum_of<p, int>();
    if constexpr (I < 32) enum_of<p, unsigned>();
    if constexpr (I < 63) enum_of<p, long>();
    if constexpr (I < 8) enum_of<p, unsigned char>();
    if constexpr (I < 16) enum_of<p, unsigned short>();
}
template <class T>
void numbits_of(const char* name, size_t want)
{
    at(name, want);
    constexpr size_t n = utils::num_bits<T>();
    MC_CHECK("C21", n == want && utils::num_bits<T>() == want, "got %zu", n);
    ++g_n;
    ++g_nt;
}
// every list of up to 5 of {bool, char, short, int, 3-byte struct}, and up to
// 40 bools with each of them
struct B3
{
    char c[3];
};
template <size_t>
struct alph;
template <>
struct alph<0>
{
    using type = bool;
    static constexpr size_t bits = 1;
};
template <>
struct alph<1>
{
    using type = char;
    static constexpr size_t bits = 8;
};
template <>
struct alph<2>
{
    using type = short;
    static constexpr size_t bits = 16;
};
template <>
struct alph<3>
{
    using type = double;
    static constexpr size_t bits = 64;
};
template <>
struct alph<4>
{
    using type = B3;
    static constexpr size_t bits = 24;
};
constexpr size_t ipow(size_t b, size_t e) { return e ? b * ipow(b, e - 1) : 1; }
template <size_t Len, size_t Code, size_t... I>
void sum_code(std::index_sequence<I...>)
{
    constexpr size_t bits = (0 + ... + alph<Code / ipow(5, I) % 5>::bits);
    constexpr size_t got =
        utils::sum_size<typename alph<Code / ipow(5, I) % 5>::type...>();
    at("sum_size(list length, code in base 5)", Len, Code);
    MC_CHECK("C21", got == (bits + 7) / 8, "got %zu for %zu bits", got, bits);
    ++g_n;
    ++g_nt;
}
template <size_t Len, size_t... Code>
void sum_len(std::index_sequence<Code...>)
{
    (sum_code<Len, Code>(std::make_index_sequence<Len>{}), ...);
}
template <size_t>
using mkbool = bool;
template <class Extra, size_t... I>
void sum_bools(std::index_sequence<I...>)
{
    constexpr size_t n = utils::sum_size<mkbool<I>..., Extra>();
    at("sum_size(bools, then a type of size)", sizeof...(I), sizeof(Extra));
    MC_CHECK("C21",
             n == (sizeof...(I) + (std::is_same_v<Extra, bool> ? 1 : sizeof(Extra) * 8) +
                   7) / 8,
             "got %zu", n);
    ++g_n;
    ++g_nt;
}
template <size_t... N>
void sum_nbools(std::index_sequence<N...>)
{
    (sum_bools<bool>(std::make_index_sequence<N>{}), ...);
    (sum_bools<int>(std::make_index_sequence<N>{}), ...);
    (sum_bools<B3>(std::make_index_sequence<N>{}), ...);
}
template <size_t... I>
void width_types_i(std::index_sequence<I...>)
{
    (uint_of_bits<I + 1>(), ...);
    (enum_bits<I>(), ...);
}
template <size_t... I>
void width_bytes_i(std::index_sequence<I...>)
{
    (uint_of_bytes<I + 1>(), ...);
}
void widths_of_types()
{
    cases();
    width_types_i(std::make_index_sequence<64>{});
    width_bytes_i(std::make_index_sequence<8>{});
    numbits_of<bool>("num_bits<bool>", 1);
    numbits_of<const bool>("num_bits<const bool>", 1);
    numbits_of<volatile bool>("num_bits<volatile bool>", 1);
    numbits_of<const volatile bool>("num_bits<const volatile bool>", 1);
    numbits_of<const int>("num_bits<const int>", 32);
    numbits_of<volatile B3>("num_bits<volatile 3-byte struct>", 24);
    numbits_of<std::array<bool, 3>>("num_bits<array<bool, 3>>", 24);
    MC_CHECK("C21", (utils::sum_size<const bool, const char, volatile bool>() == 2), "cv types: %zu",
             (utils::sum_size<const bool, const char, volatile bool>()));
    MC_CHECK("C21", (utils::sum_size<const bool, bool, volatile bool, const volatile bool, bool,
                                     const bool, bool, const bool>() == 1), "cv bools");
    numbits_of<char>("num_bits<char>", 8);
    numbits_of<unsigned char>("num_bits<unsigned char>", 8);
    numbits_of<std::byte>("num_bits<byte>", 8);
    numbits_of<short>("num_bits<short>", 16);
    numbits_of<int>("num_bits<int>", 32);
    numbits_of<long>("num_bits<long>", 64);
    numbits_of<float>("num_bits<float>", 32);
    numbits_of<double>("num_bits<double>", 64);
    numbits_of<B3>("num_bits<3-byte struct>", 24);
    numbits_of<void*>("num_bits<void*>", 64);
    numbits_of<std::array<char, 1000>>("num_bits<array<char,1000>>", 8000);
    numbits_of<UEC>("num_bits<enum class : unsigned long>", 64);
    sum_len<1>(std::make_index_sequence<ipow(5, 1)>{});
    sum_len<2>(std::make_index_sequence<ipow(5, 2)>{});
    sum_len<3>(std::make_index_sequence<ipow(5, 3)>{});
    sum_nbools(std::make_index_sequence<34>{});
    done();
}

// ---- C22 ----------------------------------------------------------------------
template <class T, class A, class B>
bool representable(A a, B b)
{
    const T x = static_cast<T>(a), y = static_cast<T>(b);
    if (y == 0) return false;
    const i128 q = (i128)x / (i128)y;
    return q >= (i128)std::numeric_limits<T>::min() &&
           q <= (i128)std::numeric_limits<T>::max();
}
template <class A, class B>
inline void div1(const char* name, A a, B b)
{
    if (b == 0) return;
    using T = std::common_type_t<A, B>;
    static_assert(std::is_same_v<decltype(utils::div(a, b)), utils::div_t<T>>);
    static_assert(std::is_same_v<typename utils::div_t<T>::value_type, T>);
    if (!representable<T>(a, b)) return;
    const i128 x = static_cast<T>(a), y = static_cast<T>(b);
    g_op = name;
    g_a = (u64)a;
    g_b = (u64)b;
    const auto r = utils::div(launder(a), launder(b));
    if ((i128)r.quot != x / y || (i128)r.rem != x % y)
        mc::fail("C22", fmt("quot %lld rem %lld (%llu, %llu), expected %lld, %lld",
                            (long long)r.quot, (long long)r.rem, (u64)r.quot,
                            (u64)r.rem, (long long)(x / y), (long long)(x % y)));
    ++g_n;
    g_nt += x % y != 0;
}
template <class T>
std::vector<T> div_values()
{
    if constexpr (sizeof(T) == 1)
    {
        std::vector<T> v;
        for (int i = 0; i < 256; ++i) v.push_back(static_cast<T>(i));
        return v;
    }
    else
    {
        std::vector<T> v;
        for (T x: boundary<T>(1))
            if (mc::S().thorough || !((x > 40 && x < 120) ||
                                      (x < static_cast<T>(-40) && x > static_cast<T>(-120))))
                v.push_back(x);
        return v;
    }
}
template <class A, class B>
__attribute__((noinline)) void div_pair(const char* name)
{
    const auto va = div_values<A>();
    const auto vb = div_values<B>();
    for (A a: va)
    {
        mc::beat();
        for (B b: vb) div1(name, a, b);
    }
}
template <class A>
void div_row(const char* name)
{
    div_pair<A, char>(name);
    div_pair<A, signed char>(name);
    div_pair<A, unsigned char>(name);
    div_pair<A, short>(name);
    div_pair<A, unsigned short>(name);
    div_pair<A, int>(name);
    div_pair<A, unsigned>(name);
    div_pair<A, long>(name);
    div_pair<A, unsigned long>(name);
    div_pair<A, long long>(name);
    div_pair<A, unsigned long long>(name);
    div_pair<A, char16_t>(name);
    div_pair<A, wchar_t>(name);
    done();
}
template <class R, class A, class B>
__attribute__((noinline)) void divas_pair(const char* name)
{
    const auto va = boundary<A>(0);
    const auto vb = boundary<B>(0);
    for (A a: va)
    {
        mc::beat();
        for (B b: vb)
        {
            const R x = static_cast<R>(a), y = static_cast<R>(b);
            if (y == 0 || !representable<R>(a, b)) continue;
            g_op = name;
            g_a = (u64)a;
            g_b = (u64)b;
            const auto r = utils::div_as<R>(launder(a), launder(b));
            static_assert(std::is_same_v<decltype(r), const utils::div_t<R>>);
            MC_CHECK("C22",
                     (i128)r.quot == (i128)x / (i128)y &&
                         (i128)r.rem == (i128)x % (i128)y,
                     "quot %lld rem %lld", (long long)r.quot, (long long)r.rem);
            ++g_n;
            g_nt += (i128)x % (i128)y != 0;
        }
    }
}
template <class R>
void divas_row(const char* name)
{
    divas_pair<R, int, int>(name);
    divas_pair<R, signed char, unsigned long>(name);
    divas_pair<R, unsigned long, int>(name);
    divas_pair<R, long, unsigned>(name);
    divas_pair<R, unsigned short, long long>(name);
}
void div_as_all()
{
    cases();
    divas_row<char>("div_as<char>");
    divas_row<signed char>("div_as<signed char>");
    divas_row<unsigned char>("div_as<unsigned char>");
    divas_row<short>("div_as<short>");
    divas_row<unsigned short>("div_as<unsigned short>");
    divas_row<int>("div_as<int>");
    divas_row<unsigned>("div_as<unsigned>");
    divas_row<long>("div_as<long>");
    divas_row<unsigned long>("div_as<unsigned long>");
    divas_row<long long>("div_as<long long>");
    divas_row<unsigned long long>("div_as<unsigned long long>");
    done();
}
template <class T>
struct QR
{
    T q, r;
};
template <class T, size_t N>
constexpr std::array<T, N> cvals()
{
    std::array<T, N> v{};
    const u64 base[] = {0, 1, 2, 3, 5, 7, 10, 100, 127, 128, 255, 256, 32767, 32768,
                        65535, 65536, 1000003, 0x7fffffff, 0x80000000, 0xffffffff,
                        0x100000000, 0x7fffffffffffffff, 0x8000000000000000,
                        0xfffffffffffffffe};
    for (size_t i = 0; i < N; ++i)
        v[i] = static_cast<T>(i % 2 ? 0 - base[i / 2] : base[i / 2]);
    return v;
}
template <class A, class B>
constexpr auto cdiv()
{
    using T = std::common_type_t<A, B>;
    constexpr auto a = cvals<A, 48>();
    constexpr auto b = cvals<B, 48>();
    std::array<QR<T>, 48 * 48> t{};
    for (size_t i = 0; i < 48; ++i)
        for (size_t j = 0; j < 48; ++j)
        {
            const T y = static_cast<T>(b[j]);
            if (y == 0) continue;
            if (std::is_signed_v<T> && y == static_cast<T>(-1) &&
                static_cast<T>(a[i]) == std::numeric_limits<T>::min())
                continue;
            const auto r = utils::div(a[i], b[j]);
            t[i * 48 + j] = {r.quot, r.rem};
        }
    return t;
}
template <class A, class B>
void cdiv_check(const char* name)
{
    using T = std::common_type_t<A, B>;
    static constexpr auto t = cdiv<A, B>();
    const auto a = cvals<A, 48>();
    const auto b = cvals<B, 48>();
    for (size_t i = 0; i < 48; ++i)
        for (size_t j = 0; j < 48; ++j)
        {
            if (!representable<T>(a[i], b[j])) continue;
            at(name, (u64)a[i], (u64)b[j]);
            const i128 x = static_cast<T>(a[i]), y = static_cast<T>(b[j]);
            const auto& e = t[i * 48 + j];
            MC_CHECK("C22", (i128)e.q == x / y && (i128)e.r == x % y,
                     "constant: quot %lld rem %lld", (long long)e.q,
                     (long long)e.r);
            ++g_n;
            g_nt += x % y != 0;
        }
}
void div_constexpr()
{
    cases();
#define CD(A, B) cdiv_check<A, B>("constexpr div(" #A "," #B ")")
    CD(signed char, signed char);
    CD(unsigned char, signed char);
    CD(unsigned char, unsigned char);
    CD(short, short);
    CD(unsigned short, unsigned short);
    CD(int, int);
    CD(int, unsigned);
    CD(unsigned, int);
    CD(unsigned, unsigned);
    CD(long, int);
    CD(int, long);
    CD(long, unsigned);
    CD(long, long);
    CD(unsigned long, unsigned long);
    CD(unsigned long, long);
    CD(long long, long long);
    CD(unsigned long long, unsigned long long);
    CD(long long, unsigned long);
    CD(short, unsigned long long);
    CD(char, char);
    done();
}

// ---- C23 ----------------------------------------------------------------------
template <class T>
__attribute__((noinline)) void shift1(const char* name, T v, unsigned n)
{
    const u64 mask = sizeof(T) == 8 ? ~0ull : (1ull << (sizeof(T) * 8)) - 1;
    g_op = name;
    g_a = (u64)v;
    g_b = n;
    const T lw = static_cast<T>(((u64)v << n) & mask);
    // arithmetic shift = floor division
    i128 x = v, d = (i128)1 << n;
    i128 q = x / d;
    if (q * d > x) --q;
    const T rw = static_cast<T>(q);
    T lv = launder(v);
    const T cv = launder(v);
    const T l1 = utils::shift_left(lv, launder(n)), l2 = utils::shift_left(cv, n),
            l3 = utils::shift_left(static_cast<T>(launder(v)), n);
    const T r1 = utils::shift_right(lv, launder(n)), r2 = utils::shift_right(cv, n),
            r3 = utils::shift_right(static_cast<T>(launder(v)), n);
    if (l1 != lw || l2 != lw || l3 != lw)
        mc::fail("C23", fmt("shift_left gives %llu, expected %llu", (u64)l1, (u64)lw));
    if (r1 != rw || r2 != rw || r3 != rw)
        mc::fail("C23",
                 fmt("shift_right gives %llu, expected %llu", (u64)r1, (u64)rw));
    if (lv != v) mc::fail("C23", "the operand changed");
    static_assert(std::is_same_v<decltype(utils::shift_left(lv, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_left(cv, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_left(T{}, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_right(lv, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_right(cv, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_right(T{}, n)), T>);
    ++g_n;
    g_nt += n > 0 && v != 0;
}
template <class T>
constexpr auto cshift()
{
    constexpr size_t W = sizeof(T) * 8;
    constexpr auto v = cvals<T, 48>();
    std::array<QR<T>, 48 * W> t{};
    for (size_t i = 0; i < 48; ++i)
        for (size_t n = 0; n < W; ++n)
            t[i * W + n] = {utils::shift_left(v[i], n), utils::shift_right(v[i], n)};
    return t;
}
template <class T>
void shifts(const char* name)
{
    const unsigned w = sizeof(T) * 8;
    for (unsigned n = 0; n < w; ++n)
    {
        mc::beat();
        if constexpr (sizeof(T) <= 2)
            for (unsigned v = 0; v < 1u << w; ++v) shift1<T>(name, static_cast<T>(v), n);
        else
            for (T v: boundary<T>(2)) shift1<T>(name, v, n);
    }
    static constexpr auto t = cshift<T>();
    constexpr auto v = cvals<T, 48>();
    for (size_t i = 0; i < 48; ++i)
        for (size_t n = 0; n < w; ++n)
        {
            at(name, (u64)v[i], n);
            MC_CHECK("C23",
                     t[i * w + n].q == utils::shift_left(launder(v[i]), n) &&
                         t[i * w + n].r == utils::shift_right(launder(v[i]), n),
                     "constant evaluation and execution differ");
            ++g_n;
        }
}
void shift_all()
{
    cases();
#define SH(T) shifts<T>("shift(" #T ", value, amount)")
    SH(char);
    SH(signed char);
    SH(unsigned char);
    SH(short);
    SH(unsigned short);
    SH(int);
    SH(unsigned);
    SH(long);
    SH(unsigned long);
    SH(long long);
    SH(unsigned long long);
    SH(char16_t);
    SH(char32_t);
    SH(wchar_t);
    done();
    mc::sample("every 16-bit value shifted by 0..15 in both directions, signed and "
               "unsigned");
}
template <class To, class From>
void cast_bits(const char* name, const unsigned char* bytes)
{
    std::remove_cv_t<From> f;
    memcpy(std::addressof(f), bytes, sizeof f);
    const To t = utils::bit_cast<To>(f);
    MC_CHECK("C23", !memcmp(std::addressof(t), bytes, sizeof t), "%s: object bytes differ", name);
    const From back = utils::bit_cast<From>(t);
    MC_CHECK("C23", !memcmp(std::addressof(back), bytes, sizeof back), "%s: bytes differ on the way back",
             name);
    MC_CHECK("C23", !memcmp(std::addressof(f), bytes, sizeof f), "%s: the source changed", name);
    ++g_n;
    ++g_nt;
}
template <class To, class From>
__attribute__((noinline)) void cast_pair(const char* name)
{
    static_assert(sizeof(To) == sizeof(From));
    static_assert(std::is_same_v<std::remove_cv_t<decltype(utils::bit_cast<To>(std::declval<From>()))>,
                                 std::remove_cv_t<To>>);
    auto one = [&](u64 a, u64 b)
    {
        g_op = name;
        g_a = a;
        g_b = b;
        unsigned char bytes[16];
        memcpy(bytes, &a, 8);
        memcpy(bytes + 8, &b, 8);
        cast_bits<To, From>(name, bytes);
    };
    if constexpr (sizeof(To) <= 2)
        for (u64 v = 0; v < 65536; ++v) one(v, 0);
    else
    {
        for (u64 v: boundary<u64>(3))
            for (u64 w: {v, ~v, u64{0}, v * 0x9e3779b97f4a7c15ull}) one(v, w);
        // every exponent of float and double with several mantissas (nan, inf,
        // denormal)
        for (u64 e = 0; e < 2048; ++e)
            for (u64 m: {u64{0}, u64{1}, u64{0x4000000000000}, u64{0x8000000000000},
                         u64{0xfffffffffffff}})
            {
                one(e << 52 | m, e << 52);
                one(e << 52 | m | 1ull << 63, ~e);
                if (e < 256)
                    for (u64 k: {u64{0}, u64{1}, u64{0x200000}, u64{0x400000}, u64{0x7fffff}})
                        one((e << 23 | k) | (e & 1) << 31, m);
            }
    }
    mc::beat();
}
struct P2
{
    unsigned char a, b;
};
struct P4
{
    short a;
    unsigned char b[2];
};
struct Own4  // with an operator of its own
{
    unsigned char a[4];
    void operator&() const = delete;
};
struct P8
{
    int a;
    float b;
};
struct P16
{
    double d;
    int* p;
};
union U8
{
    double d;
    u64 u;
};
enum class E4 : int
{
};
template <class To, class From, class = void>
struct can_cast : std::false_type
{
};
template <class To, class From>
struct can_cast<To, From,
                std::void_t<decltype(utils::bit_cast<To>(std::declval<From>()))>>
    : std::true_type
{
};
struct NT4
{
    int i;
    NT4() = default;
    NT4(const NT4& o) : i(o.i) {}
};
template <class... Ts>
struct L
{
};
template <class To, class... Fs>
void cast_row(L<Fs...>)
{
    (cast_pair<To, Fs>(__PRETTY_FUNCTION__), ...);
}
template <class... Ts>
void cast_square(L<Ts...> l)
{
    (cast_row<Ts>(l), ...);
}
template <class U>
void underlying(const char* name)
{
    enum class E : U
    {
    };
    enum P : U
    {
    };
    auto one = [&](U v)
    {
        at(name, (u64)v);
        MC_CHECK("C23", utils::to_underlying(static_cast<E>(v)) == v, "scoped");
        MC_CHECK("C23", utils::to_underlying(static_cast<P>(v)) == v, "unscoped");
        static_assert(std::is_same_v<decltype(utils::to_underlying(E{})), U>);
        static_assert(std::is_same_v<decltype(utils::to_underlying(P{})), U>);
        ++g_n;
        g_nt += v != 0;
    };
    if constexpr (std::is_same_v<U, bool>)
    {
        one(false);
        one(true);
    }
    else if constexpr (sizeof(U) <= 2)
        for (u64 v = 0; v < 65536; ++v) one(static_cast<U>(v));
    else
        for (U v: boundary<U>(9)) one(v);
    static constexpr auto lo = utils::to_underlying(
        static_cast<E>(std::numeric_limits<U>::min()));
    static constexpr auto hi = utils::to_underlying(
        static_cast<E>(std::numeric_limits<U>::max()));
    MC_CHECK("C23",
             lo == std::numeric_limits<U>::min() && hi == std::numeric_limits<U>::max(),
             "%s: constant", name);
}
void casts()
{
    cases();
    cast_square(L<unsigned char, signed char, char, std::byte>{});
    cast_square(L<const unsigned, int, const float, const P4, const Own4>{});
    cast_square(L<unsigned short, short, char16_t, P2, std::array<char, 2>>{});
    cast_square(L<unsigned, int, float, char32_t, E4, P4, Own4>{});
    cast_square(L<u64, long, double, void*, P8, U8, std::array<short, 4>>{});
    cast_square(L<P16, std::array<u64, 2>, std::array<unsigned char, 16>>{});
    auto rej = [](const char* n, bool got, bool want)
    {
        at(n, got, want);
        MC_CHECK("C23", got == want, "bit_cast accepted: %d", got);
        ++g_n;
    };
    rej("bit_cast int <- short", can_cast<int, short>::value, false);
    rej("bit_cast short <- int", can_cast<short, int>::value, false);
    rej("bit_cast int <- non-trivial", can_cast<int, NT4>::value, false);
    rej("bit_cast non-trivial <- int", can_cast<NT4, int>::value, false);
    rej("bit_cast int <- string", can_cast<int, std::string>::value, false);
    rej("bit_cast int <- float", can_cast<int, float>::value, true);
    underlying<bool>("to_underlying(bool)");
    underlying<char>("to_underlying(char)");
    underlying<signed char>("to_underlying(signed char)");
    underlying<unsigned char>("to_underlying(unsigned char)");
    underlying<short>("to_underlying(short)");
    underlying<unsigned short>("to_underlying(unsigned short)");
    underlying<int>("to_underlying(int)");
    underlying<unsigned>("to_underlying(unsigned)");
    underlying<long>("to_underlying(long)");
    underlying<unsigned long>("to_underlying(unsigned long)");
    underlying<long long>("to_underlying(long long)");
    underlying<unsigned long long>("to_underlying(unsigned long long)");
    done();
}

void reg()
{
#if PART == 19
    mc::add("align_values", align_values);
    mc::add("align_templates", align_templates);
    mc::add("align_types", align_types);
    mc::add("align_of_address", align_of_address);
    mc::add("align_powers", align_powers);
    mc::add("align_inside", align_inside);
#elif PART == 20
    mc::add("zero_counts", zero_counts);
    mc::add("zero_constexpr", zero_constexpr);
    mc::add("zero_rejects", zero_rejects);
#if defined(__OPTIMIZE__) && !defined(__SANITIZE_ADDRESS__)
    for (unsigned p = 0; p < 8; ++p)
        mc::add(fmt("all_32bit_%u", p), [p] { zero_all32<unsigned>(p); });
    for (unsigned p = 0; p < 8; ++p)
        mc::add(fmt("all_32bit_char32_%u", p), [p] { zero_all32<char32_t>(p); }, 1);
#endif
#elif PART == 21
    mc::add("widths_of_values", widths_of_values);
    mc::add("widths_of_types", widths_of_types);
#elif PART == 22
#define DR(T)             \
    mc::add("div_" #T,    \
            []            \
            {             \
                cases();  \
                div_row<T>("div(" #T ", .)"); \
            })
    using schar = signed char;
    using uchar = unsigned char;
    using ushort_ = unsigned short;
    using uint = unsigned;
    using ulong_ = unsigned long;
    using llong = long long;
    using ullong = unsigned long long;
    DR(char);
    DR(schar);
    DR(uchar);
    DR(short);
    DR(ushort_);
    DR(int);
    DR(uint);
    DR(long);
    DR(ulong_);
    DR(llong);
    DR(ullong);
    DR(char16_t);
    DR(wchar_t);
    mc::add("div_as", div_as_all);
    mc::add("div_constexpr", div_constexpr);
#elif PART == 23
    mc::add("shift_all", shift_all);
    mc::add("casts", casts);
#endif
}
}  // namespace
MC_MAIN(reg)
