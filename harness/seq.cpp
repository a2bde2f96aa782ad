// C24 arrays, C25 comparison helpers, C38 visiting, C39 generated ranges,
// C40 type predicates.
#include <algorithm>
#include <array>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

#include <sys/mman.h>

#include <mc.h>
#include <utils/common.h>
#include <utils/type_list.h>
#include <utils/value_list.h>

using std::size_t;
using mc::fmt;
using u64 = mc::u64;

// shards of one property compile side by side
#ifndef SHARD
#define SHARD 0
#endif
#define ON(n) (SHARD == 0 || SHARD == n)

namespace
{
std::string g_case;
void cases()
{
    mc::S().current = [] { return g_case; };
}
u64 g_n, g_nt;
void one(bool nontrivial = true)
{
    ++g_n;
    g_nt += nontrivial;
    mc::beat();
}
void done()
{
    mc::count("evaluations", g_n);
    mc::count("distinct_nontrivial", g_nt);
    g_n = g_nt = 0;
}
constexpr size_t ipow(size_t b, size_t e) { return e ? b * ipow(b, e - 1) : 1; }

// =============================== C24 =======================================
#if PART == 24
// element with an identity; copies and moves are counted and checked
struct Tracked
{
    static long& live()
    {
        static long n = 0;
        return n;
    }
    int v = 0;
    Tracked* self;
    explicit Tracked(int x) : v(x), self(this) { ++live(); }
    Tracked() : self(this) { ++live(); }
    Tracked(const Tracked& o) : v(o.v), self(this)
    {
        MC_CHECK("C24", o.self == &o, "copied from a dead object");
        ++live();
    }
    Tracked(Tracked&& o) : v(o.v), self(this)
    {
        MC_CHECK("C24", o.self == &o, "moved from a dead object");
        o.v = -777;
        ++live();
    }
    Tracked& operator=(const Tracked& o)
    {
        v = o.v;
        return *this;
    }
    Tracked& operator=(Tracked&& o)
    {
        v = o.v;
        if (this != &o) o.v = -777;
        return *this;
    }
    ~Tracked()
    {
        MC_CHECK("C24", self == this, "destroyed twice");
        self = nullptr;
        --live();
    }
    bool operator==(const Tracked& o) const { return v == o.v; }
};
template <class T>
T mk(int i);
template <>
int mk<int>(int i)
{
    return i * 3 + 1;
}
template <>
unsigned char mk<unsigned char>(int i)
{
    return static_cast<unsigned char>(255 - i);
}
template <>
double mk<double>(int i)
{
    return i + 0.5;
}
template <>
std::string mk<std::string>(int i)
{
    return std::string(30 + i, static_cast<char>('a' + i % 26));
}
template <>
Tracked mk<Tracked>(int i)
{
    return Tracked(i + 5);
}
template <>
std::unique_ptr<int> mk<std::unique_ptr<int>>(int i)
{
    return std::make_unique<int>(i);
}
template <class T>
bool same(const T& v, int i)
{
    return v == mk<T>(i);
}
bool same(const std::unique_ptr<int>& v, int i) { return v && *v == i; }

template <class T, size_t N, size_t... I>
std::array<T, N> source_i(int base, std::index_sequence<I...>)
{
    return {mk<T>(base + static_cast<int>(I))...};
}
template <class T, size_t N>
std::array<T, N> source(int base)
{
    return source_i<T, N>(base, std::make_index_sequence<N>{});
}
template <int Cat, class A>
decltype(auto) as(A& a)
{
    if constexpr (Cat == 0)
        return static_cast<A&>(a);
    else if constexpr (Cat == 1)
        return static_cast<const A&>(a);
    else
        return static_cast<A&&>(a);
}
template <int Cat>
using cat = std::integral_constant<int, Cat>;

template <class T, size_t... Sz, size_t... C, size_t... I>
void concat(const char* name, std::index_sequence<Sz...>, std::index_sequence<C...>,
            std::index_sequence<I...>)
{
    const size_t sizes[] = {Sz...}, cats[] = {C...};
    constexpr size_t K = sizeof...(Sz), total = (0 + ... + Sz);
    g_case = std::string("concatenate_arrays<") + name + ">(";
    for (size_t i = 0; i < K; ++i)
        g_case += fmt("%s[%zu]%s", i ? ", " : "", sizes[i],
                      cats[i] == 0 ? "&" : cats[i] == 1 ? " const&" : "&&");
    g_case += ")";
    {
        int bases[K], b = 0;
        for (size_t i = 0; i < K; ++i)
        {
            bases[i] = b;
            b += static_cast<int>(sizes[i]);
        }
        auto arrays = std::tuple<std::array<T, Sz>...>(source<T, Sz>(bases[I])...);
        auto r = utils::concatenate_arrays(as<C>(std::get<I>(arrays))...);
        static_assert(std::is_same_v<decltype(r), std::array<T, total>>);
        for (size_t i = 0; i < total; ++i)
            MC_CHECK("C24", same(r[i], static_cast<int>(i)),
                     "element %zu of the result is wrong", i);
        auto unchanged = [&](auto& a, size_t k)
        {
            if (cats[k] == 2) return;
            for (size_t i = 0; i < a.size(); ++i)
                MC_CHECK("C24", same(a[i], bases[k] + static_cast<int>(i)),
                         "argument %zu, passed as an lvalue, was changed", k);
        };
        (unchanged(std::get<I>(arrays), I), ...);
    }
    MC_CHECK("C24", Tracked::live() == 0, "%ld elements leaked", Tracked::live());
    one(total > 0);
}
template <class T, size_t K, size_t S, size_t Code, size_t CatCode, size_t... I>
void concat_code(const char* name, std::index_sequence<I...> is)
{
    concat<T>(name, std::index_sequence<(Code / ipow(S, I) % S)...>{},
              std::index_sequence<(std::is_copy_constructible_v<T>
                                       ? CatCode / ipow(3, I) % 3
                                       : 2)...>{},
              is);
}
// every size combination below S and every value category
template <class T, size_t K, size_t S, size_t... Code>
void concat_full(const char* name, std::index_sequence<Code...>)
{
    constexpr size_t nc = std::is_copy_constructible_v<T> ? ipow(3, K) : 1;
    (concat_code<T, K, S, Code / nc, Code % nc>(name, std::make_index_sequence<K>{}),
     ...);
}
// every size combination, categories rotate
template <class T, size_t K, size_t S, size_t... Code>
void concat_rot(const char* name, std::index_sequence<Code...>)
{
    (concat_code<T, K, S, Code, (Code * 7 + Code / S) % ipow(3, K)>(
         name, std::make_index_sequence<K>{}),
     ...);
}
template <class T, size_t K, size_t S>
void concat_f(const char* name)
{
    concat_full<T, K, S>(
        name, std::make_index_sequence<
                  ipow(S, K) * (std::is_copy_constructible_v<T> ? ipow(3, K) : 1)>{});
}
template <class T, size_t K, size_t S>
void concat_r(const char* name)
{
    concat_rot<T, K, S>(name, std::make_index_sequence<ipow(S, K)>{});
}
#if ON(1)
void concat_owning()
{
    cases();
    concat_f<std::string, 1, 4>("string");
    concat_f<std::string, 2, 3>("string");
    concat_f<std::string, 3, 2>("string");
    concat_f<Tracked, 1, 4>("Tracked");
    concat_f<Tracked, 2, 3>("Tracked");
    concat_r<Tracked, 3, 3>("Tracked");
    concat_r<Tracked, 4, 2>("Tracked");
    concat_r<std::string, 4, 2>("string");
    done();
}
#endif
// the size of what is returned, where nothing is computed
template <class T, size_t... N>
void concat_size(const char* name)
{
    using R = decltype(utils::concatenate_arrays(std::declval<std::array<T, N>>()...));
    using L = decltype(utils::concatenate_arrays(std::declval<const std::array<T, N>&>()...));
    constexpr size_t want = (N + ... + size_t{0});
    g_case = fmt("type of concatenate_arrays<%s> of %zu arrays, %zu elements", name, sizeof...(N),
                 want);
    MC_CHECK("C24", (std::is_same_v<std::decay_t<R>, std::array<T, want>> &&
                     std::is_same_v<std::decay_t<L>, std::array<T, want>>),
             "an array of %zu elements", std::tuple_size_v<std::decay_t<R>>);
    one(want > 0);
}
template <class T>
void concat_sizes(const char* name)
{
    concat_size<T, 255, 1>(name);
    concat_size<T, 32767, 1>(name);
    concat_size<T, 65535>(name);
    concat_size<T, 65535, 1>(name);
    concat_size<T, 65536, 65536>(name);
    concat_size<T, 40000, 30000, 20000>(name);
    concat_size<T, 1, 65536, 1, 65536, 1>(name);
    concat_size<T, 0, 1u << 20, 0>(name);
    concat_size<T, 0x7fffffff, 1>(name);
    concat_size<T, 0xffffffff, 1>(name);
    concat_size<T, 0xffffffff, 0xffffffff>(name);
    concat_size<T, size_t(1) << 33, 5>(name);
    concat_size<T, 3, size_t(1) << 32, 1, 2>(name);
}
#if ON(2)
void concat_plain()
{
    cases();
    concat_f<int, 1, 4>("int");
    concat_f<int, 2, 3>("int");
    concat_r<int, 3, 4>("int");
    concat_r<int, 4, 3>("int");
    concat_r<int, 5, 2>("int");
    concat_r<unsigned char, 2, 6>("unsigned char");
    concat_r<double, 3, 2>("double");
    concat_r<std::unique_ptr<int>, 1, 4>("unique_ptr");
    concat_r<std::unique_ptr<int>, 2, 4>("unique_ptr");
    concat_r<std::unique_ptr<int>, 3, 3>("unique_ptr");
    concat_sizes<unsigned char>("unsigned char");
    concat_sizes<int>("int");
    concat_sizes<std::string>("string");
    concat<int>("int", std::index_sequence<255, 2>{}, std::index_sequence<0, 2>{},
                std::make_index_sequence<2>{});
    concat<int>("int", std::index_sequence<256, 1>{}, std::index_sequence<2, 1>{},
                std::make_index_sequence<2>{});
    concat<int>("int", std::index_sequence<1, 300, 256>{}, std::index_sequence<1, 2, 0>{},
                std::make_index_sequence<3>{});
    concat<int>("int", std::index_sequence<256>{}, std::index_sequence<2>{},
                std::make_index_sequence<1>{});
    concat<int>("int", std::index_sequence<128, 64, 64, 1>{}, std::index_sequence<0, 1, 2, 0>{},
                std::make_index_sequence<4>{});
    concat<int>("int", std::index_sequence<40, 33, 0, 27>{},
                std::index_sequence<0, 1, 2, 2>{}, std::make_index_sequence<4>{});
    done();
    mc::sample("concatenate_arrays<string>([2]&, [0] const&, [1]&&)");
}
#endif
template <size_t A, size_t B, size_t C>
constexpr auto cconcat()
{
    std::array<int, A> a{};
    std::array<int, B> b{};
    std::array<int, C> c{};
    int n = 0;
    for (size_t i = 0; i < A; ++i) a[i] = ++n;
    for (size_t i = 0; i < B; ++i) b[i] = ++n;
    for (size_t i = 0; i < C; ++i) c[i] = ++n;
    const auto bb = b;
    return utils::concatenate_arrays(a, bb, std::move(c));
}
template <size_t Code>
void cconcat_check()
{
    constexpr size_t A = Code % 4, B = Code / 4 % 4, C = Code / 16;
    static constexpr auto r = cconcat<A, B, C>();
    g_case = fmt("constexpr concatenate_arrays(%zu, %zu, %zu)", A, B, C);
    MC_CHECK("C24", r.size() == A + B + C, "size %zu", r.size());
    for (size_t i = 0; i < r.size(); ++i)
        MC_CHECK("C24", r[i] == static_cast<int>(i) + 1, "element %zu = %d", i, r[i]);
    one(r.size() > 0);
}
template <size_t... I>
void cconcat_all(std::index_sequence<I...>)
{
    (cconcat_check<I>(), ...);
}

template <class T, size_t N, size_t... I>
void values_n(const char* name, std::index_sequence<I...>)
{
    g_case = fmt("make_array of %zu %s", N, name);
    {
        // one element of each kind: rvalues, lvalues, const lvalues
        auto src = source<T, N>(0);
        auto r = utils::make_array(mk<T>(static_cast<int>(I))...);
        static_assert(std::is_same_v<decltype(r), std::array<T, N>>);
        for (size_t i = 0; i < N; ++i)
            MC_CHECK("C24", same(r[i], static_cast<int>(i)), "rvalues: element %zu", i);
        if constexpr (std::is_copy_constructible_v<T>)
        {
            auto l = utils::make_array(src[I]...);
            auto c = utils::make_array(std::as_const(src)[I]...);
            static_assert(std::is_same_v<decltype(l), std::array<T, N>>);
            static_assert(std::is_same_v<decltype(c), std::array<T, N>>);
            for (size_t i = 0; i < N; ++i)
                MC_CHECK("C24",
                         same(l[i], static_cast<int>(i)) &&
                             same(c[i], static_cast<int>(i)) &&
                             same(src[i], static_cast<int>(i)),
                         "lvalues: element %zu", i);
            // every second one moved
            auto m = utils::make_array(as<(I % 3)>(src[I])...);
            for (size_t i = 0; i < N; ++i)
                MC_CHECK("C24", same(m[i], static_cast<int>(i)), "mixed: element %zu", i);
        }
        else
        {
            auto m = utils::make_array(std::move(src[I])...);
            for (size_t i = 0; i < N; ++i)
                MC_CHECK("C24", same(m[i], static_cast<int>(i)), "moved: element %zu", i);
        }
    }
    MC_CHECK("C24", Tracked::live() == 0, "%ld elements leaked", Tracked::live());
    one();
}
template <class T, size_t... N>
void values_t(const char* name, std::index_sequence<N...>)
{
    (values_n<T, N + 1>(name, std::make_index_sequence<N + 1>{}), ...);
}
template <class T, size_t N>
void repeat_n(const char* name)
{
    g_case = fmt("make_array<%s, %zu>(value)", name, N);
    {
        const T v = mk<T>(4);
        T w = mk<T>(4);
        auto r = utils::make_array<T, N>(v);
        auto q = utils::make_array<T, N>(mk<T>(7));
        auto s = utils::make_array<T, N>(w);
        static_assert(std::is_same_v<decltype(r), std::array<T, N>>);
        MC_CHECK("C24", same(v, 4) && same(w, 4), "the argument changed");
        for (size_t i = 0; i < N; ++i)
            MC_CHECK("C24", same(r[i], 4) && same(q[i], 7) && same(s[i], 4),
                     "element %zu differs from the value", i);
        auto d = utils::make_array<T, N>();
        for (size_t i = 0; i < N; ++i)
            MC_CHECK("C24", d[i] == T{}, "default element %zu", i);
        auto z = utils::make_zero_array<T, N>();
        static_assert(std::is_same_v<decltype(z), std::array<T, N>>);
        for (size_t i = 0; i < N; ++i)
            MC_CHECK("C24", z[i] == T{}, "make_zero_array: element %zu", i);
    }
    MC_CHECK("C24", Tracked::live() == 0, "%ld elements leaked", Tracked::live());
    one(N > 0);
}
template <class T, size_t... N>
void repeat_t(const char* name, std::index_sequence<N...>)
{
    (repeat_n<T, N>(name), ...);
    if constexpr (std::is_arithmetic_v<T>)
    {
        repeat_n<T, 100>(name);
        repeat_n<T, 257>(name);
    }
}
template <size_t... N>
void zero_unique(std::index_sequence<N...>)
{
    auto f = [](auto n)
    {
        constexpr size_t M = decltype(n)::value;
        g_case = fmt("make_zero_array<unique_ptr, %zu>", M);
        auto z = utils::make_zero_array<std::unique_ptr<int>, M>();
        for (auto& p: z) MC_CHECK("C24", !p, "not null");
        auto e = utils::make_zero_array<void*, M>();
        for (auto& p: e) MC_CHECK("C24", !p, "not null");
        one(M > 0);
    };
    (f(std::integral_constant<size_t, N>{}), ...);
}
#if ON(3)
void arrays_of_values()
{
    cases();
    values_t<int>("int", std::make_index_sequence<24>{});
    values_t<unsigned char>("unsigned char", std::make_index_sequence<6>{});
    values_t<double>("double", std::make_index_sequence<6>{});
    values_t<std::string>("string", std::make_index_sequence<10>{});
    values_t<Tracked>("Tracked", std::make_index_sequence<10>{});
    values_t<std::unique_ptr<int>>("unique_ptr", std::make_index_sequence<6>{});
    repeat_t<int>("int", std::make_index_sequence<20>{});
    repeat_t<unsigned char>("unsigned char", std::make_index_sequence<20>{});
    repeat_t<double>("double", std::make_index_sequence<6>{});
    repeat_t<std::string>("string", std::make_index_sequence<10>{});
    repeat_t<Tracked>("Tracked", std::make_index_sequence<10>{});
    zero_unique(std::make_index_sequence<10>{});
    // common type of mixed arguments
    g_case = "make_array(char, short, int)";
    {
        char a = -3;
        const short b = 300;
        auto r = utils::make_array(a, b, 70000);
        static_assert(std::is_same_v<decltype(r), std::array<int, 3>>);
        MC_CHECK("C24", r[0] == -3 && r[1] == 300 && r[2] == 70000, "wrong");
        const char* s = "literal";
        auto t = utils::make_array(std::string("one"), s, "two");
        static_assert(std::is_same_v<decltype(t), std::array<std::string, 3>>);
        MC_CHECK("C24", t[0] == "one" && t[1] == "literal" && t[2] == "two", "wrong");
        auto u = utils::make_array(true, false);
        static_assert(std::is_same_v<decltype(u), std::array<bool, 2>>);
        MC_CHECK("C24", u[0] && !u[1], "wrong");
        auto e = utils::make_array<int>();
        static_assert(std::is_same_v<decltype(e), std::array<int, 0>>);
        auto es = utils::make_array<std::string>();
        static_assert(std::is_same_v<decltype(es), std::array<std::string, 0>>);
    }
    one();
    static constexpr auto cr = utils::make_array<int, 9>(41);
    static constexpr auto cv = utils::make_array(1, 2, 3, 4, 5, 6, 7);
    static constexpr auto cz = utils::make_zero_array<long, 17>();
    g_case = "constexpr make_array";
    for (int x: cr) MC_CHECK("C24", x == 41, "repeated value: %d", x);
    for (size_t i = 0; i < 7; ++i)
        MC_CHECK("C24", cv[i] == static_cast<int>(i) + 1, "values: element %zu", i);
    for (long x: cz) MC_CHECK("C24", x == 0, "zero array");
    cconcat_all(std::make_index_sequence<64>{});
    done();
}
#endif

template <class VT, class C, size_t N>
void prefix_n(const char* name, std::basic_string_view<C> sv)
{
    g_case = fmt("make_array<%zu, %s>(string view of %zu)", N, name, sv.size());
    if (sv.size() < N) return;
    const auto r = utils::make_array<N, VT>(sv);
    static_assert(std::is_same_v<decltype(r), const std::array<VT, N>>);
    for (size_t i = 0; i < N; ++i)
        MC_CHECK("C24", r[i] == static_cast<VT>(sv[i]), "element %zu", i);
    one(N > 0);
}
template <class VT, class C, size_t... N>
void prefix_t(const char* name, std::basic_string_view<C> sv, std::index_sequence<N...>)
{
    (prefix_n<VT, C, N>(name, sv), ...);
}
template <size_t... P>
void select_p(std::index_sequence<P...>)
{
    static constexpr std::string_view sv{"\x80z\0" "Aq\xff", 6};
    g_case = "sv_to_array<";
    for (size_t p: std::vector<size_t>{P...}) g_case += fmt("%zu,", p);
    g_case += ">";
    // exactly sized copy: reading outside shows
    std::vector<char> heap(sv.begin(), sv.end());
    const std::string_view hv(heap.data(), heap.size());
    auto r = utils::sv_to_array<P...>(hv);
    static_assert(std::is_same_v<decltype(r), std::array<char, sizeof...(P)>>);
    const std::vector<size_t> want{P...};
    for (size_t i = 0; i < sizeof...(P); ++i)
        MC_CHECK("C24", r[i] == sv[want[i]], "element %zu", i);
    static constexpr auto c = utils::sv_to_array<P...>(sv);
    for (size_t i = 0; i < sizeof...(P); ++i)
        MC_CHECK("C24", c[i] == sv[want[i]], "constant: element %zu", i);
    one(sizeof...(P) > 0);
}
template <size_t K, size_t Code, size_t... I>
void select_code(std::index_sequence<I...>)
{
    select_p(std::index_sequence<(Code / ipow(6, I) % 6)...>{});
}
template <size_t K, size_t... Code>
void select_len(std::index_sequence<Code...>)
{
    (select_code<K, Code>(std::make_index_sequence<K>{}), ...);
}
#if ON(4)
void arrays_of_views()
{
    cases();
    std::string s;
    for (int i = 0; i < 40; ++i) s += static_cast<char>(200 + i * 7);
    std::vector<char> heap(s.begin(), s.end());
    std::wstring ws(heap.begin(), heap.end());
    std::u16string us;
    for (int i = 0; i < 40; ++i) us += static_cast<char16_t>(0x7ff0 + i * 3);
    using S = std::make_index_sequence<41>;
    using T = std::make_index_sequence<12>;
    for (size_t len: {40, 11, 0})
    {
        const std::string_view sv(heap.data() + (40 - len), len);
        prefix_t<char>("char", sv, S{});
        prefix_t<unsigned char>("unsigned char", sv, T{});
        prefix_t<std::byte>("byte", sv, T{});
        prefix_t<int>("int", sv, T{});
        prefix_t<short>("short", sv, T{});
        prefix_t<u64>("u64", sv, T{});
        prefix_t<wchar_t>("wchar_t", std::wstring_view(ws).substr(40 - len), T{});
        prefix_t<unsigned char>("uchar from wide", std::wstring_view(ws).substr(40 - len),
                                T{});
        prefix_t<char16_t>("char16_t", std::u16string_view(us).substr(40 - len), T{});
    }
    // positions and counts that do not fit 8 bits
    {
        std::vector<char> big(300);
        for (size_t i = 0; i < big.size(); ++i) big[i] = static_cast<char>(i * 5 + i / 256);
        const std::string_view sv(big.data(), big.size());
        prefix_n<char, char, 255>("char", sv);
        prefix_n<char, char, 256>("char", sv);
        prefix_n<unsigned char, char, 257>("unsigned char", sv);
        prefix_n<int, char, 300>("int", sv);
        prefix_n<char, char, 3>("char", sv);
        auto r = utils::sv_to_array<255, 256, 0, 299, 257>(sv);
        const size_t want[] = {255, 256, 0, 299, 257};
        g_case = "sv_to_array<255, 256, 0, 299, 257>";
        for (size_t i = 0; i < 5; ++i) MC_CHECK("C24", r[i] == sv[want[i]], "element %zu", i);
        one();
    }
    static constexpr std::string_view csv{"constexpr view"};
    static constexpr auto c = utils::make_array<9, unsigned char>(csv);
    g_case = "constexpr make_array<9, unsigned char>(string view)";
    for (size_t i = 0; i < 9; ++i)
        MC_CHECK("C24", c[i] == static_cast<unsigned char>(csv[i]), "element %zu", i);
    one();
    select_len<0>(std::make_index_sequence<1>{});
    select_len<1>(std::make_index_sequence<6>{});
    select_len<2>(std::make_index_sequence<36>{});
    select_len<3>(std::make_index_sequence<216>{});
    done();
}
#endif
#endif

// =============================== C25 =======================================
#if PART == 25
void memory_compare()
{
    cases();
    const size_t maxlen = mc::S().thorough ? 200 : 70;
    // pages with an inaccessible one on both sides
    const size_t pg = 4096;
    unsigned char* base = static_cast<unsigned char*>(
        mmap(nullptr, 3 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base + pg, pg, PROT_READ | PROT_WRITE);
    const char* what = "";
    size_t L = 0, D = 0, X = 0;
    mc::S().current = [&]
    { return fmt("memvcmp(%s, %zu bytes), different byte at %zu, case %zu", what, L, D, X); };
    auto check = [&](unsigned char* p, size_t len)
    {
        L = len;
        for (int val: {0, 1, 0x7f, 0x80, 0xff, 0x5a})
        {
            X = val;
            D = ~size_t{0};
            memset(p, val, len);
            MC_CHECK("C25", utils::memvcmp(p, (unsigned char)val, len) == (len > 0),
                     "all bytes equal %02x", val);
            one(len > 0);
            for (size_t d = 0; d < len; ++d)
                for (int flip: {1, 0x80, 0xff})
                {
                    D = d;
                    p[d] = (unsigned char)(val ^ flip);
                    MC_CHECK("C25", !utils::memvcmp(p, (unsigned char)val, len),
                             "reported equal");
                    MC_CHECK("C25", p[d] == (unsigned char)(val ^ flip), "memory changed");
                    one();
                    p[d] = (unsigned char)val;
                }
            // all bytes equal to each other, not to the value
            D = ~size_t{0};
            for (int other: {val ^ 1, val ^ 0x80, (val + 1) & 255})
                if (len)
                {
                    MC_CHECK("C25", !utils::memvcmp(p, (unsigned char)other, len),
                             "equal to %02x", other);
                    one();
                }
        }
    };
    for (size_t len = 0; len <= maxlen; ++len)
    {
        what = "at the end of a page";
        check(base + 2 * pg - len, len);
        what = "at the start of a page";
        check(base + pg, len);
        for (size_t off = 1; off < 9; ++off)
        {
            what = "at an odd offset";
            // bytes around the range differ from and equal the value
            memset(base + pg, static_cast<int>(off & 1 ? 0x5a : 0), 400);
            if (off < 4 || mc::S().thorough) check(base + pg + 100 + off, len);
        }
        what = "exact heap block";
        std::vector<unsigned char> v(len ? len : 1);
        if (len < 40) check(v.data(), len);
    }
    // every pair of bytes in ranges of two, every value
    what = "two bytes";
    unsigned char two[2];
    for (int a = 0; a < 256; ++a)
        for (int b = 0; b < 256; b += (a % 16 ? 5 : 1))
            for (int v: {a, b, a ^ 1, 255 - a})
            {
                two[0] = (unsigned char)a;
                two[1] = (unsigned char)b;
                L = a;
                D = b;
                X = v;
                MC_CHECK("C25",
                         utils::memvcmp(two, (unsigned char)v, 2) == (a == v && b == v),
                         "wrong");
                one();
            }
    what = "null or empty";
    for (size_t len: {size_t{0}, size_t{1}, size_t{2}, size_t{100}, ~size_t{0}})
        for (int v: {0, 1, 255})
        {
            L = len;
            X = v;
            MC_CHECK("C25", !utils::memvcmp(nullptr, (unsigned char)v, len), "null");
            one(false);
        }
    for (int v: {0, 1, 255})
        MC_CHECK("C25", !utils::memvcmp(base, (unsigned char)v, 0),
                 "empty range (not even readable)");
    what = "long range";
    for (size_t len: {4095, 4096, 65537, 1 << 20})
    {
        std::vector<unsigned char> v(len, 0x33);
        L = len;
        D = ~size_t{0};
        MC_CHECK("C25", utils::memvcmp(v.data(), 0x33, len), "all equal");
        for (size_t d: {size_t{0}, size_t{1}, len / 2, len - 2, len - 1})
        {
            D = d;
            v[d] = 0x32;
            MC_CHECK("C25", !utils::memvcmp(v.data(), 0x33, len), "one differs");
            v[d] = 0x33;
            one();
        }
    }
    munmap(base, 3 * pg);
#ifdef NDEBUG
    // 4 GiB and more: one window of pages repeated, private pages at the end
    {
        what = "4 GiB + first argument";
        const size_t win = 1 << 20, four = size_t{1} << 32;
        const int fd = memfd_create("v", 0);
        unsigned char* b = static_cast<unsigned char*>(
            mmap(nullptr, four + 2 * win, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                 -1, 0));
        bool ok = fd >= 0 && !ftruncate(fd, win) && b != MAP_FAILED;
        for (size_t o = 0; ok && o < four; o += win)
            ok = mmap(b + o, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) !=
                 MAP_FAILED;
        ok = ok && mmap(b + four, win, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != MAP_FAILED;
        if (!ok)
            mc::cap("no address space");
        else
        {
            memset(b, 0x11, win);
            memset(b + four, 0x11, win);
            for (size_t extra: {size_t{0}, size_t{1}, size_t{100}})
            {
                L = extra;
                X = 0x11;
                D = ~size_t{0};
                MC_CHECK("C25", utils::memvcmp(b, 0x11, four + extra), "all equal");
                MC_CHECK("C25", !utils::memvcmp(b, 0x10, four + extra), "none equal");
                one();
            }
            for (size_t d: {size_t{0}, size_t{1}, size_t{99}})
            {
                D = d;
                L = 100;
                b[four + d] = 0x12;
                MC_CHECK("C25", !utils::memvcmp(b, 0x11, four + 100),
                         "the byte at 2^32 + the position differs");
                MC_CHECK("C25", utils::memvcmp(b, 0x11, four + d), "all before it equal");
                b[four + d] = 0x11;
                one();
            }
            munmap(b, four + 2 * win);
        }
        if (fd >= 0) close(fd);
    }
#endif
    done();
    mc::sample("memvcmp of 37 bytes ending at an inaccessible page, byte 36 differs");
}
template <class T, size_t N>
void arrays_small()
{
    // all pairs over a 3-letter alphabet
    const size_t n = ipow(3, N);
    for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < n; ++b)
        {
            std::array<T, N> x{}, y{};
            for (size_t i = 0; i < N; ++i)
            {
                x[i] = static_cast<T>(a / ipow(3, i) % 3);
                y[i] = static_cast<T>(b / ipow(3, i) % 3);
            }
            size_t common = 0;
            while (common < N && x[common] == y[common]) ++common;
            for (size_t k = 0; k <= N; ++k)
            {
                g_case = fmt("is_equal of arrays of %zu, codes %zu %zu, first %zu", N, a,
                             b, k);
                MC_CHECK("C25", utils::is_equal(x, y, k) == (k <= common), "wrong");
                one(k > 0);
            }
            g_case = fmt("is_equal of arrays of %zu, codes %zu %zu", N, a, b);
            MC_CHECK("C25", utils::is_equal(x, y) == (common == N), "wrong");
            one();
        }
}
template <size_t N>
constexpr auto ceq()
{
    std::array<bool, (N + 1) * (N + 1)> t{};
    for (size_t d = 0; d <= N; ++d)
        for (size_t k = 0; k <= N; ++k)
        {
            std::array<int, N> x{}, y{};
            for (size_t i = 0; i < N; ++i) x[i] = y[i] = static_cast<int>(i);
            if (d < N) y[d] += 1;
            t[d * (N + 1) + k] = utils::is_equal(x, y, k);
        }
    return t;
}
struct Odd  // only what the comparison needs
{
    int v;
    bool operator!=(const Odd& o) const { return v != o.v; }
    bool operator==(const Odd& o) const { return v == o.v; }
};
void array_compare()
{
    cases();
    arrays_small<int, 1>();
    arrays_small<int, 2>();
    arrays_small<int, 3>();
    arrays_small<unsigned char, 4>();
    arrays_small<double, 2>();
    // one difference at every position of longer ones
    auto longer = [](auto n, auto tag, const char* name)
    {
        constexpr size_t N = decltype(n)::value;
        using T = decltype(tag);
        for (size_t d = 0; d <= N; ++d)
            for (size_t k = 0; k <= N; ++k)
            {
                std::array<T, N> x{}, y{};
                for (size_t i = 0; i < N; ++i)
                    x[i] = y[i] = T(static_cast<int>(i * 7 % 120));
                if (d < N) y[d] = T(static_cast<int>(d * 7 % 120) + 1);
                g_case = fmt("is_equal<%s, %zu>, different at %zu, first %zu", name, N, d, k);
                MC_CHECK("C25", utils::is_equal(x, y, k) == (d >= k), "wrong");
                MC_CHECK("C25", utils::is_equal(y, x, k) == (d >= k), "wrong (swapped)");
                one(k > 0);
            }
    };
    longer(std::integral_constant<size_t, 5>{}, int{}, "int");
    longer(std::integral_constant<size_t, 16>{}, char{}, "char");
    longer(std::integral_constant<size_t, 33>{}, 0L, "long");
    longer(std::integral_constant<size_t, 70>{}, (unsigned char)0, "unsigned char");
    longer(std::integral_constant<size_t, 9>{}, 0.0f, "float");
    // lengths and positions that do not fit 8, 16 bits
    auto large = [](auto n, auto tag, const char* name)
    {
        constexpr size_t N = decltype(n)::value;
        using T = decltype(tag);
        static std::array<T, N> x, y;
        x = {};
        for (size_t i = 0; i < N; ++i) x[i] = T(static_cast<int>(i * 7 % 120));
        std::vector<size_t> at;
        for (size_t i: {size_t{0}, size_t{1}, size_t{254}, size_t{255}, size_t{256}, size_t{257},
                        N / 2, N - 257, N - 256, N - 255, N - 2, N - 1, N})
            at.push_back(i);
        for (size_t d: at)
        {
            y = x;
            if (d < N) y[d] = T(static_cast<int>(d * 7 % 120) + 1);
            for (size_t k: at)
            {
                g_case = fmt("is_equal<%s, %zu>, different at %zu, first %zu", name, N, d, k);
                MC_CHECK("C25", utils::is_equal(x, y, k) == (d >= k), "wrong");
                one(k > 0);
            }
            g_case = fmt("is_equal<%s, %zu>, different at %zu", name, N, d);
            MC_CHECK("C25", utils::is_equal(x, y) == (d >= N), "wrong");
        }
    };
    large(std::integral_constant<size_t, 258>{}, (unsigned char)0, "unsigned char");
    large(std::integral_constant<size_t, 512>{}, int{}, "int");
    large(std::integral_constant<size_t, 65536>{}, (unsigned char)0, "unsigned char");
    large(std::integral_constant<size_t, 65537>{}, char{}, "char");
    large(std::integral_constant<size_t, 70000>{}, 0L, "long");
    // elements that own memory; every byte value; special values
    {
        std::array<std::string, 4> a{"a", std::string(50, 'x'), "", "z"}, b = a;
        for (size_t d = 0; d < 4; ++d)
        {
            b = a;
            b[d] += "!";
            for (size_t k = 0; k <= 4; ++k)
            {
                g_case = fmt("is_equal<string>, different at %zu, first %zu", d, k);
                MC_CHECK("C25", utils::is_equal(a, b, k) == (d >= k), "wrong");
                one();
            }
        }
        std::array<Odd, 3> o{Odd{1}, Odd{2}, Odd{3}}, q = o;
        g_case = "is_equal of a class with operator!=";
        MC_CHECK("C25", utils::is_equal(o, q), "wrong");
        q[2].v = 4;
        MC_CHECK("C25", !utils::is_equal(o, q) && utils::is_equal(o, q, 2), "wrong");
        one();
        const std::array<int, 0> z{};
        g_case = "is_equal of empty arrays";
        MC_CHECK("C25", utils::is_equal(z, z) && utils::is_equal(z, z, 0), "wrong");
        one(false);
        for (int i = 0; i < 256; ++i)
            for (int j = 0; j < 256; ++j)
            {
                std::array<unsigned char, 1> x{(unsigned char)i}, y{(unsigned char)j};
                g_case = fmt("is_equal of bytes %d %d", i, j);
                MC_CHECK("C25", utils::is_equal(x, y) == (i == j), "wrong");
                one();
            }
        std::array<double, 2> nz{0.0, 1.0}, mz{-0.0, 1.0};
        g_case = "is_equal of 0.0 and -0.0 (equal, different bytes)";
        MC_CHECK("C25", utils::is_equal(nz, mz), "wrong");
        std::array<double, 2> nn{std::numeric_limits<double>::quiet_NaN(), 1.0};
        g_case = "is_equal of NaN (not equal to itself, same bytes)";
        MC_CHECK("C25", !utils::is_equal(nn, nn), "wrong");
        one();
    }
    static constexpr auto t = ceq<12>();
    for (size_t d = 0; d <= 12; ++d)
        for (size_t k = 0; k <= 12; ++k)
        {
            g_case = fmt("constexpr is_equal, different at %zu, first %zu", d, k);
            MC_CHECK("C25", t[d * 13 + k] == (d >= k), "wrong");
            one();
        }
    done();
}
#endif

// =============================== C38 =======================================
#if PART == 38
struct Visit
{
    std::string type;  // spelling of decltype of the forwarded argument
    const void* addr;
    bool operator==(const Visit& o) const { return type == o.type && addr == o.addr; }
};
template <class T>
std::string spell()
{
    std::string s = __PRETTY_FUNCTION__;
    const size_t a = s.find("T = "), b = s.find(';', a);
    return s.substr(a + 4, (b == std::string::npos ? s.rfind(']') : b) - a - 4);
}
struct Rec  // neither copyable nor movable
{
    std::vector<Visit> log;
    int mode = 0;
    Rec() = default;
    Rec(const Rec&) = delete;
    Rec& operator=(const Rec&) = delete;
    template <class X>
    int operator()(X&& x)
    {
        log.push_back({spell<X&&>(), &reinterpret_cast<const volatile char&>(x) == nullptr
                                         ? nullptr
                                         : const_cast<const char*>(
                                               &reinterpret_cast<const volatile char&>(x))});
        return 1;
    }
};
struct CRec  // callable only when const; the state lives elsewhere
{
    std::vector<Visit>* log;
    template <class X>
    void operator()(X&& x) const
    {
        log->push_back({spell<X&&>(), const_cast<const char*>(
                                          &reinterpret_cast<const volatile char&>(x))});
    }
};
template <class X>
const void* addr(X&& x)
{
    return const_cast<const char*>(&reinterpret_cast<const volatile char&>(x));
}
std::string show(const std::vector<Visit>& v)
{
    std::string s;
    for (auto& x: v) s += fmt("(%s at %p) ", x.type.c_str(), x.addr);
    return s;
}
void expect(const std::vector<Visit>& got, const std::vector<Visit>& want, const char* how)
{
    MC_CHECK("C38", got == want, "%s: called with %sexpected %s", how, show(got).c_str(),
             show(want).c_str());
    one(!want.empty());
}
template <class T>
T mkv(int i)
{
    if constexpr (std::is_same_v<T, std::string>)
        return std::string(i % 40, 'x');
    else if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
        return std::make_unique<int>(i);
    else
        return static_cast<T>(i);
}
template <size_t I>
using elem_t = std::conditional_t<
    I % 3 == 0, int,
    std::conditional_t<I % 3 == 1, std::string, std::unique_ptr<int>>>;
template <size_t C, class A>
decltype(auto) as4(A& a)
{
    if constexpr (C == 0)
        return static_cast<A&>(a);
    else if constexpr (C == 1)
        return static_cast<const A&>(a);
    else if constexpr (C == 2)
        return static_cast<A&&>(a);
    else
        return static_cast<const A&&>(a);
}
template <size_t K, size_t Code, size_t Shift, size_t... I>
void args_code(std::index_sequence<I...>)
{
    g_case = fmt("for_each_arg of %zu arguments, categories %zu, types from %zu", K, Code,
                 Shift);
    std::tuple<elem_t<I + Shift>...> store(mkv<elem_t<I + Shift>>(I + 20)...);
    std::vector<Visit> want{
        {spell<decltype(as4<Code / ipow(4, I) % 4>(std::get<I>(store)))>(),
         addr(std::get<I>(store))}...};
    {
        Rec f;
        utils::for_each_arg(f, as4<Code / ipow(4, I) % 4>(std::get<I>(store))...);
        expect(f.log, want, "lvalue function object");
    }
    {
        Rec f;
        utils::for_each_arg(std::move(f),
                            as4<Code / ipow(4, I) % 4>(std::get<I>(store))...);
        expect(f.log, want, "rvalue function object");
    }
    {
        std::vector<Visit> l;
        const CRec f{&l};
        utils::for_each_arg(f, as4<Code / ipow(4, I) % 4>(std::get<I>(store))...);
        expect(l, want, "const function object");
    }
}
template <size_t K, size_t Shift, size_t... Code>
void args_len(std::index_sequence<Code...>)
{
    (args_code<K, Code, Shift>(std::make_index_sequence<K>{}), ...);
}
// what the function returns does not matter, what it throws gets through after
// exactly the calls before it
struct Comma
{
    int* n;
    template <class X>
    Comma operator,(X&&) const
    {
        *n += 1000;
        return *this;
    }
};
struct CommaInt
{
    int* n;
    template <class X>
    int operator,(X&&) const
    {
        *n += 1000;
        return 7;
    }
};
struct Fixed
{
    Fixed() = default;
    Fixed(const Fixed&) = delete;
    explicit operator bool() const { return false; }
    void operator,(int) const = delete;
};
struct Died
{
    int* n;
    ~Died() { *n += 1; }
};
template <size_t N, size_t... I>
void throwing(std::index_sequence<I...>, bool tuple)
{
    for (size_t k = 0; k <= N; ++k)
    {
        g_case = fmt("%s of %zu elements, call %zu throws",
                     tuple ? "for_each_in_tuple" : "for_each_arg", N, k);
        std::vector<size_t> seen;
        bool out = false;
        auto f = [&](size_t x)
        {
            seen.push_back(x);
            if (seen.size() == k + 1) throw 5;
        };
        try
        {
            if (tuple)
                utils::for_each_in_tuple(f, std::make_tuple(I...));
            else
                utils::for_each_arg(f, I...);
        }
        catch (int e)
        {
            out = e == 5;
        }
        const size_t want = k < N ? k + 1 : N;
        MC_CHECK("C38", out == (k < N) && seen.size() == want, "%zu calls, exception %d",
                 seen.size(), out);
        for (size_t i = 0; i < seen.size(); ++i)
            MC_CHECK("C38", seen[i] == i, "call %zu got %zu", i, seen[i]);
        one();
    }
}
void results_and_exceptions()
{
    auto both = [](auto make, const char* what, int each)
    {
        int n = 0, calls = 0;
        g_case = std::string("a function that returns ") + what;
        auto f = [&](auto&&) -> decltype(make(n))
        {
            ++calls;
            return make(n);
        };
        utils::for_each_arg(f, 1, "x", 2.5);
        MC_CHECK("C38", calls == 3 && n == 3 * each, "%d calls, effects %d", calls, n);
        utils::for_each_in_tuple(f, std::make_tuple(1, 'x', 2.5, 4));
        MC_CHECK("C38", calls == 7 && n == 7 * each, "%d calls, effects %d", calls, n);
        utils::for_each_arg(f);
        utils::for_each_in_tuple(f, std::tuple<>{});
        MC_CHECK("C38", calls == 7, "%d calls", calls);
        one();
    };
    both([](int&) {}, "nothing", 0);
    both([](int&) { return 0; }, "int", 0);
    both([](int&) { return false; }, "false", 0);
    both([](int&) { return true; }, "true", 0);
    both([](int& n) -> int& { return n; }, "int&", 0);
    both([](int&) { return std::string("x"); }, "std::string", 0);
    both([](int&) { return std::make_unique<int>(1); }, "std::unique_ptr", 0);
    both([](int&) { return Fixed(); }, "an immovable object without comma", 0);
    both([](int& n) { return Comma{&n}; }, "an object with a comma operator", 0);
    both([](int& n) { return CommaInt{&n}; }, "an object with a comma operator giving int", 0);
    both([](int& n) { return Died{&n}; }, "an object with a destructor", 1);
    throwing<0>(std::make_index_sequence<0>{}, false);
    throwing<1>(std::make_index_sequence<1>{}, false);
    throwing<5>(std::make_index_sequence<5>{}, false);
    throwing<33>(std::make_index_sequence<33>{}, false);
    throwing<0>(std::make_index_sequence<0>{}, true);
    throwing<1>(std::make_index_sequence<1>{}, true);
    throwing<5>(std::make_index_sequence<5>{}, true);
    throwing<33>(std::make_index_sequence<33>{}, true);
    {
        // arguments of unusual types keep them
        Rec f;
        int arr[3] = {1, 2, 3};
        const char lit[] = "abc";
        volatile int vi = 4;
        void (*fp)() = nullptr;
        std::nullptr_t np{};
        g_case = "arrays, volatile objects, function pointers, null pointers, references";
        std::vector<Visit> want{{spell<int(&)[3]>(), addr(arr)},
                                {spell<const char(&)[4]>(), addr(lit)},
                                {spell<volatile int&>(), addr(vi)},
                                {spell<void (*&)()>(), addr(fp)},
                                {spell<std::nullptr_t&&>(), addr(np)},
                                {spell<int(&&)[3]>(), addr(arr)}};
        utils::for_each_arg(f, arr, lit, vi, fp, std::move(np), std::move(arr));
        expect(f.log, want, "unusual arguments");
    }
    {
        // 64 arguments and elements
        std::vector<size_t> seen;
        auto all = [&](auto... x)
        {
            utils::for_each_arg([&](size_t y) { seen.push_back(y); }, x...);
            utils::for_each_in_tuple([&](size_t y) { seen.push_back(y); },
                                     std::make_tuple(x...));
        };
        std::apply(all, std::array<size_t, 64>([] {
                       std::array<size_t, 64> a{};
                       for (size_t i = 0; i < 64; ++i) a[i] = i;
                       return a;
                   }()));
        g_case = "64 elements";
        MC_CHECK("C38", seen.size() == 128, "%zu calls", seen.size());
        for (size_t i = 0; i < 128; ++i) MC_CHECK("C38", seen[i] == i % 64, "call %zu", i);
        one();
    }
}
#if ON(1)
void visit_args()
{
    cases();
    args_len<0, 0>(std::make_index_sequence<1>{});
    args_len<1, 0>(std::make_index_sequence<4>{});
    args_len<1, 1>(std::make_index_sequence<4>{});
    args_len<1, 2>(std::make_index_sequence<4>{});
    args_len<2, 0>(std::make_index_sequence<16>{});
    args_len<2, 1>(std::make_index_sequence<16>{});
    args_len<3, 0>(std::make_index_sequence<64>{});
    args_len<4, 0>(std::make_index_sequence<256>{});
    // longer lists, order
    {
        std::vector<int> seen;
        utils::for_each_arg([&](int x) { seen.push_back(x); }, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,
                            10, 11, 12, 13, 14, 15, 16, 17, 18, 19);
        g_case = "for_each_arg of 20 values";
        MC_CHECK("C38", seen.size() == 20, "%zu calls", seen.size());
        for (int i = 0; i < 20; ++i) MC_CHECK("C38", seen[i] == i, "call %d", i);
        one();
        // the caller's own object is the one that is called
        struct Counter
        {
            int n = 0, sum = 0;
            void operator()(int x)
            {
                ++n;
                sum = sum * 10 + x;
            }
        } c;
        utils::for_each_arg(c, 1, 2, 3);
        g_case = "for_each_arg with a stateful function object";
        MC_CHECK("C38", c.n == 3 && c.sum == 123, "n %d sum %d", c.n, c.sum);
        int hits = 0;
        auto lam = [hits](auto&&) mutable { return ++hits; };
        utils::for_each_arg(lam, 1, "two", 3.0);
        MC_CHECK("C38", lam(0) == 4, "the lambda's own state was not used");
        one();
        // functions and moves out of the arguments
        static std::vector<int> got;
        got.clear();
        void (*fp)(int) = [](int x) { got.push_back(x); };
        utils::for_each_arg(fp, 7, 8);
        MC_CHECK("C38", (got == std::vector<int>{7, 8}), "function pointer");
        std::vector<std::unique_ptr<int>> owned;
        utils::for_each_arg([&](std::unique_ptr<int> p) { owned.push_back(std::move(p)); },
                            std::make_unique<int>(1), std::make_unique<int>(2));
        MC_CHECK("C38", owned.size() == 2 && *owned[0] == 1 && *owned[1] == 2, "moves");
        one();
    }
    results_and_exceptions();
    done();
    mc::sample("for_each_arg(f, int&, const string&, unique_ptr&&, const int&&)");
}
#endif

std::string g_s1 = "one", g_s2 = "two";
int g_i1 = 1, g_i2 = 2;
template <size_t A>
struct telem;
template <>
struct telem<0>
{
    using type = int;
    static int get(int i) { return i; }
};
template <>
struct telem<1>
{
    using type = const std::string;
    static std::string get(int i) { return std::string(i, 'q'); }
};
template <>
struct telem<2>
{
    using type = int&;
    static int& get(int i) { return i % 2 ? g_i1 : g_i2; }
};
template <>
struct telem<3>
{
    using type = const std::string&;
    static const std::string& get(int i) { return i % 2 ? g_s1 : g_s2; }
};
template <>
struct telem<4>
{
    using type = std::string&&;
    static std::string&& get(int i) { return std::move(i % 2 ? g_s1 : g_s2); }
};
template <class F, class T>
void tuple_one(F&& f, T&& t)
{
    utils::for_each_in_tuple(std::forward<F>(f), std::forward<T>(t));
}
template <size_t C, class T, size_t... I>
void tuple_cat(T& t, std::index_sequence<I...>)
{
    std::vector<Visit> want{
        {spell<decltype(std::get<I>(as4<C>(t)))>(), addr(std::get<I>(t))}...};
    {
        Rec f;
        utils::for_each_in_tuple(f, as4<C>(t));
        expect(f.log, want, C == 0   ? "lvalue tuple"
                            : C == 1 ? "const tuple"
                            : C == 2 ? "rvalue tuple"
                                     : "const rvalue tuple");
    }
    {
        std::vector<Visit> l;
        const CRec f{&l};
        utils::for_each_in_tuple(f, as4<C>(t));
        expect(l, want, "const function object");
    }
    {
        Rec f;
        utils::for_each_in_tuple(std::move(f), as4<C>(t));
        expect(f.log, want, "rvalue function object");
    }
}
template <class T, size_t... I>
void tuple_cats(T& t, std::index_sequence<I...> is)
{
    tuple_cat<0>(t, is);
    tuple_cat<1>(t, is);
    tuple_cat<2>(t, is);
    tuple_cat<3>(t, is);
}
template <size_t K, size_t Code, size_t... I>
void tuple_code(std::index_sequence<I...> is)
{
    g_case = fmt("for_each_in_tuple of %zu elements, types %zu (base 5)", K, Code);
    std::tuple<typename telem<Code / ipow(5, I) % 5>::type...> t(
        telem<Code / ipow(5, I) % 5>::get(static_cast<int>(I))...);
    tuple_cats(t, is);
}
template <size_t K, size_t... Code>
void tuple_len(std::index_sequence<Code...>)
{
    (tuple_code<K, Code>(std::make_index_sequence<K>{}), ...);
}
#if ON(2)
void visit_tuples()
{
    cases();
    tuple_len<0>(std::make_index_sequence<1>{});
    tuple_len<1>(std::make_index_sequence<5>{});
    tuple_len<2>(std::make_index_sequence<25>{});
    tuple_len<3>(std::make_index_sequence<125>{});
    {
        g_case = "for_each_in_tuple of a pair";
        std::pair<int, std::string> p(1, "x");
        tuple_cats(p, std::make_index_sequence<2>{});
        g_case = "for_each_in_tuple of an array";
        std::array<std::string, 5> a{"a", "b", "c", "d", "e"};
        tuple_cats(a, std::make_index_sequence<5>{});
        g_case = "for_each_in_tuple of 12 values";
        std::vector<int> seen;
        utils::for_each_in_tuple([&](int x) { seen.push_back(x); },
                                 std::make_tuple(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11));
        MC_CHECK("C38", seen.size() == 12, "%zu calls", seen.size());
        for (int i = 0; i < 12; ++i) MC_CHECK("C38", seen[i] == i, "call %d", i);
        one();
        std::tuple<int, long, char> m(1, 2, 3);
        utils::for_each_in_tuple([](auto& x) { x *= 2; }, m);
        g_case = "for_each_in_tuple changes the elements";
        MC_CHECK("C38", (m == std::tuple<int, long, char>(2, 4, 6)), "not changed");
        Rec c;
        utils::for_each_in_tuple(c, m);
        MC_CHECK("C38", c.log.size() == 3, "the caller's object saw %zu calls", c.log.size());
        std::tuple<std::unique_ptr<int>, std::unique_ptr<int>> u(
            std::make_unique<int>(4), std::make_unique<int>(5));
        std::vector<int> taken;
        utils::for_each_in_tuple([&](std::unique_ptr<int> q) { taken.push_back(*q); },
                                 std::move(u));
        MC_CHECK("C38", (taken == std::vector<int>{4, 5}), "moving elements out");
        one();
    }
    done();
}
#endif
#endif

// =============================== C39 =======================================
#if PART == 39
template <class VL>
struct vl;
template <decltype(auto)... V>
struct vl<utils::value_list<V...>>
{
    static constexpr size_t n = sizeof...(V);
    template <class T>
    static std::vector<T> get()
    {
        return {static_cast<T>(V)...};
    }
    template <class T>
    static constexpr bool types = (true && ... && std::is_same_v<decltype(V), T>);
};
template <auto F, auto L>
void range_one(const char* name)
{
    using T = std::common_type_t<decltype(F), decltype(L)>;
    using R = utils::values_in_range_t<F, L>;
    g_case = fmt("values_in_range<%s %lld, %lld>", name, (long long)F, (long long)L);
    const size_t n = static_cast<size_t>(static_cast<u64>(L) - static_cast<u64>(F)) + 1;
    MC_CHECK("C39", vl<R>::n == n, "%zu values instead of %zu", vl<R>::n, n);
    MC_CHECK("C39", vl<R>::template types<T>, "wrong element type");
    const auto v = vl<R>::template get<T>();
    for (size_t i = 0; i < n; ++i)
        MC_CHECK("C39", v[i] == static_cast<T>(static_cast<u64>(F) + i),
                 "value %zu is %lld", i, (long long)v[i]);
    static_assert(std::is_same_v<typename utils::values_in_range<F, L>::type, R>);
    one();
}
template <auto F, auto L, class = void>
struct range_ok : std::false_type
{
};
template <auto F, auto L>
struct range_ok<F, L, std::void_t<utils::values_in_range_t<F, L>>> : std::true_type
{
};
template <int Lo, size_t Code>
void range_pair()
{
    constexpr int F = Lo + static_cast<int>(Code / 11), L = Lo + static_cast<int>(Code % 11);
    if constexpr (F <= L)
    {
        range_one<F, L>("int");
        range_one<static_cast<signed char>(F), static_cast<signed char>(L)>("signed char");
        range_one<static_cast<long>(F), static_cast<long>(L)>("long");
        range_one<static_cast<short>(F), L>("short,int");
    }
    else
    {
        g_case = fmt("values_in_range<%d, %d> (descending)", F, L);
        MC_CHECK("C39", (!range_ok<F, L>::value), "accepted");
        MC_CHECK("C39", (!range_ok<static_cast<long>(F), static_cast<long>(L)>::value),
                 "accepted");
        one();
    }
}
template <int Lo, size_t... C>
void range_pairs(std::index_sequence<C...>)
{
    (range_pair<Lo, C>(), ...);
}
template <class T, size_t Code>
void range_limit(const char* name)
{
    using N = std::numeric_limits<T>;
    constexpr T back = static_cast<T>(Code / 4), len = static_cast<T>(Code % 4);
    if constexpr (len <= back)
        range_one<static_cast<T>(N::max() - back), static_cast<T>(N::max() - back + len)>(
            name);
    range_one<static_cast<T>(N::min() + back), static_cast<T>(N::min() + back + len)>(name);
    // across the signed limits of the narrower types
    if constexpr (sizeof(T) > 4)
    {
        constexpr T m = static_cast<T>(0xffffffff);
        range_one<static_cast<T>(m - back), static_cast<T>(m - back + len)>(name);
        constexpr T k = static_cast<T>(0x7fffffff);
        range_one<static_cast<T>(k - back), static_cast<T>(k - back + len)>(name);
    }
    if constexpr (sizeof(T) >= 4)
    {
        constexpr T k = static_cast<T>(0x7fff);
        range_one<static_cast<T>(k - back), static_cast<T>(k - back + len)>(name);
    }
    if constexpr (std::is_signed_v<T>)
        range_one<static_cast<T>(-back), static_cast<T>(-back + len)>(name);
}
template <class T, size_t... C>
void range_limits(const char* name, std::index_sequence<C...>)
{
    (range_limit<T, C>(name), ...);
}
#if ON(1)
void ranges()
{
    cases();
    range_pairs<-5>(std::make_index_sequence<121>{});
    using S = std::make_index_sequence<20>;
    range_limits<signed char>("signed char", S{});
    range_limits<unsigned char>("unsigned char", S{});
    range_limits<char>("char", S{});
    range_limits<short>("short", S{});
    range_limits<unsigned short>("unsigned short", S{});
    range_limits<int>("int", S{});
    range_limits<unsigned>("unsigned", S{});
    range_limits<long>("long", S{});
    range_limits<unsigned long>("unsigned long", S{});
    range_limits<long long>("long long", S{});
    range_limits<unsigned long long>("unsigned long long", S{});
    range_one<static_cast<signed char>(-128), static_cast<signed char>(127)>("signed char");
    range_one<static_cast<unsigned char>(0), static_cast<unsigned char>(255)>(
        "unsigned char");
    range_one<-300, 300>("int");
    range_one<0, 300u>("int,unsigned");
    range_one<false, true>("bool");
    range_one<'a', 'z'>("char");
    // more values than fit 8 bits, limits that do not fit 8, 16, 32 bits
    range_one<0, 255>("int");
    range_one<0, 256>("int");
    range_one<-1, 255>("int");
    range_one<static_cast<short>(-200), static_cast<short>(200)>("short");
    range_one<100ul, 612ul>("unsigned long");
    range_one<(1L << 32) - 150, (1L << 32) + 150>("long");
    range_one<65000u, 66000u>("unsigned");
    done();
    mc::sample("values_in_range<signed char -128, 127>");
}
#endif

template <class T, T... I>
std::vector<T> seq(std::integer_sequence<T, I...>)
{
    return {I...};
}
template <class S>
struct seq_t;
template <class T, T... I>
struct seq_t<std::integer_sequence<T, I...>>
{
    using type = T;
};
template <class T, auto N, T... I>
void shift_one(const char* name)
{
    using R = utils::shifted_sequence_t<std::integer_sequence<T, I...>, N>;
    g_case = fmt("shifted_sequence<%s, %zu values, shift %lld>", name, sizeof...(I),
                 (long long)N);
    static_assert(
        std::is_same_v<R, typename utils::shifted_sequence<std::integer_sequence<T, I...>,
                                                           N>::type>);
    MC_CHECK("C39", (std::is_same_v<typename seq_t<R>::type, T>), "element type");
    const std::vector<T> got = seq(R{}), src{I...};
    MC_CHECK("C39", got.size() == src.size(), "%zu elements", got.size());
    for (size_t i = 0; i < src.size(); ++i)
        MC_CHECK("C39", got[i] == static_cast<T>(src[i] + N), "element %zu is %lld", i,
                 (long long)got[i]);
    one(sizeof...(I) > 0);
}
template <class T, T... I>
void shift_long(std::integer_sequence<T, I...>)
{
    shift_one<T, static_cast<T>(1), I...>("a long sequence");
    shift_one<T, static_cast<T>(1000), static_cast<T>(I * 3)...>("a long sequence");
}
template <size_t Code, size_t Sh>
void shift_code()
{
    constexpr long v[] = {0, 1, 5, -7, 100};
    constexpr int N = static_cast<int>(Sh) - 4;
    shift_one<int, N, static_cast<int>(v[Code % 5]), static_cast<int>(v[Code / 5 % 5]),
              static_cast<int>(v[Code / 25 % 5])>("int");
    shift_one<long, N, v[Code % 5], v[Code / 5 % 5]>("long");
    if constexpr (Code < 5) shift_one<short, N, static_cast<short>(v[Code])>("short");
    if constexpr (N >= 0)
        shift_one<size_t, N, Code, Code / 7, ~size_t{0} - 9>("size_t");
}
template <size_t Sh, size_t... C>
void shift_row(std::index_sequence<C...>)
{
    (shift_code<C, Sh>(), ...);
}
template <size_t... Sh>
void shift_rows(std::index_sequence<Sh...>)
{
    (shift_row<Sh>(std::make_index_sequence<125>{}), ...);
}
// the edges of a type: the sums that are values of it
template <class T>
constexpr std::array<T, 3 * 64 + 3> type_edges()
{
    using L = std::numeric_limits<T>;
    std::array<T, 3 * 64 + 3> r{};
    size_t n = 0;
    r[n++] = L::min();
    r[n++] = static_cast<T>(L::min() + 1);
    r[n++] = L::max();
    for (int k = 0; k < 64; ++k)
    {
        const int b = k < L::digits ? k : 0;
        const T p = static_cast<T>(T(1) << b);
        r[n++] = p;
        r[n++] = static_cast<T>(p - 1);
        r[n++] = L::is_signed ? static_cast<T>(-p - 1) : static_cast<T>(p + (b ? 1 : 0));
    }
    return r;
}
template <class T, auto N>
constexpr bool sum_fits(T v)
{
    using C = decltype(v + N);
    const __int128 s = static_cast<__int128>(v) + N;
    return s >= std::numeric_limits<T>::min() && s <= std::numeric_limits<T>::max() &&
           s >= std::numeric_limits<C>::min() && s <= std::numeric_limits<C>::max();
}
template <class T, auto N>
constexpr size_t fits_count()
{
    size_t n = 0;
    for (T v : type_edges<T>()) n += sum_fits<T, N>(v);
    return n;
}
template <class T, auto N>
constexpr auto fits_values()
{
    std::array<T, fits_count<T, N>() + 1> r{};
    size_t n = 0;
    for (T v : type_edges<T>())
        if (sum_fits<T, N>(v)) r[n++] = v;
    return r;
}
template <class T, auto N, size_t... I>
void shift_edge(const char* name, std::index_sequence<I...>)
{
    constexpr auto v = fits_values<T, N>();
    (void)v;
    shift_one<T, N, v[I]...>(name);
}
template <class T, auto N>
void shift_edges_by(const char* name)
{
    shift_edge<T, N>(name, std::make_index_sequence<fits_count<T, N>()>{});
}
template <class T>
void shift_edges(const char* name)
{
    using L = std::numeric_limits<T>;
    shift_edges_by<T, 0>(name);
    shift_edges_by<T, 1>(name);
    shift_edges_by<T, -1>(name);
    shift_edges_by<T, 5>(name);
    shift_edges_by<T, 100>(name);
    shift_edges_by<T, -100>(name);
    shift_edges_by<T, 0x7fffffff>(name);
    shift_edges_by<T, 200u>(name);
    shift_edges_by<T, 300L>(name);
    shift_edges_by<T, size_t{70000}>(name);
    shift_edges_by<T, T(1)>(name);
    shift_edges_by<T, L::max()>(name);
    shift_edges_by<T, L::min()>(name);
    shift_edges_by<T, static_cast<short>(-3)>(name);
}
#if ON(2)
void shifted()
{
    cases();
    shift_edges<signed char>("signed char");
    shift_edges<unsigned char>("unsigned char");
    shift_edges<char>("char");
    shift_edges<char16_t>("char16_t");
    shift_edges<short>("short");
    shift_edges<unsigned short>("unsigned short");
    shift_edges<int>("int");
    shift_edges<unsigned>("unsigned");
    shift_edges<long>("long");
    shift_edges<unsigned long>("unsigned long");
    shift_edges<long long>("long long");
    shift_edges<unsigned long long>("unsigned long long");
    shift_rows(std::make_index_sequence<9>{});
    shift_long(std::make_integer_sequence<int, 257>{});
    shift_long(std::make_integer_sequence<size_t, 300>{});
    shift_long(std::make_integer_sequence<unsigned short, 300>{});
    shift_one<int, 3>("int, empty");
    shift_one<size_t, 0>("size_t, empty");
    shift_one<int, std::numeric_limits<int>::max(), 0, -1>("int");
    shift_one<int, std::numeric_limits<int>::min(), 0, 1>("int");
    shift_one<unsigned char, 200, 1, 55>("unsigned char");
    shift_one<long, 1L << 40, 1, 2, 3>("long");
    done();
}
#endif

template <auto B, auto E, auto S, class T>
void arr_cmp(const char* name)
{
    g_case = fmt("make_array_from_range<%s %lld, %lld, step %lld>", name, (long long)B,
                 (long long)E, (long long)S);
    static constexpr auto a = utils::make_array_from_range<B, E, S>();
    MC_CHECK("C39", (std::is_same_v<decltype(a), const std::array<T, a.size()>>), "type");
    MC_CHECK("C39", (utils::is_valid_range_v<B, E, S>), "reported as not valid");
    using i128 = __int128;
    std::vector<T> want;
    for (i128 v = B; v <= (i128)E; v += (i128)S)
    {
        want.push_back(static_cast<T>(v));
        if (B == E) break;
    }
    MC_CHECK("C39", a.size() == want.size(), "%zu values instead of %zu", a.size(),
             want.size());
    const auto r = utils::make_array_from_range<B, E, S>();
    for (size_t i = 0; i < want.size(); ++i)
        MC_CHECK("C39", a[i] == want[i] && r[i] == want[i], "value %zu is %lld", i,
                 (long long)a[i]);
    one(want.size() > 1);
}
template <size_t Code>
void arr_code()
{
    constexpr int B = static_cast<int>(Code % 7) - 3, E = B + static_cast<int>(Code / 7 % 13),
                  S = static_cast<int>(Code / 91) + 1;
    arr_cmp<B, E, S, int>("int");
    arr_cmp<static_cast<long>(B), static_cast<long>(E), S, long>("long");
    if constexpr (B >= 0)
    {
        arr_cmp<static_cast<unsigned>(B), static_cast<unsigned>(E), static_cast<unsigned>(S),
                unsigned>("unsigned");
        arr_cmp<static_cast<unsigned char>(B), static_cast<unsigned char>(E), S,
                unsigned char>("unsigned char");
        arr_cmp<static_cast<size_t>(B), static_cast<size_t>(E), S, size_t>("size_t");
    }
}
template <size_t... C>
void arr_codes(std::index_sequence<C...>)
{
    (arr_code<C>(), ...);
}
template <class T, size_t Code>
void arr_limit(const char* name)
{
    using N = std::numeric_limits<T>;
    constexpr T S = static_cast<T>(Code % 3 + 1), back = static_cast<T>(Code / 3 % 5),
                len = static_cast<T>(Code / 15);
    if constexpr (len <= back && (len == 0 || S <= back))
        arr_cmp<static_cast<T>(N::max() - back), static_cast<T>(N::max() - back + len), S,
                T>(name);
    arr_cmp<static_cast<T>(N::min() + back), static_cast<T>(N::min() + back + len), S, T>(
        name);
}
template <class T, size_t... C>
void arr_limits(const char* name, std::index_sequence<C...>)
{
    (arr_limit<T, C>(name), ...);
}
#if ON(3)
void range_arrays()
{
    cases();
    arr_codes(std::make_index_sequence<7 * 13 * 5>{});
    using S = std::make_index_sequence<75>;
    arr_limits<unsigned char>("unsigned char", S{});
    arr_limits<signed char>("signed char", S{});
    arr_limits<short>("short", S{});
    arr_limits<unsigned short>("unsigned short", S{});
    arr_limits<int>("int", S{});
    arr_limits<unsigned>("unsigned", S{});
    arr_limits<long>("long", S{});
    arr_limits<unsigned long>("unsigned long", S{});
    arr_cmp<static_cast<unsigned char>(0), static_cast<unsigned char>(255),
            static_cast<unsigned char>(1), unsigned char>("unsigned char");
    arr_cmp<static_cast<signed char>(-128), static_cast<signed char>(127),
            static_cast<signed char>(5), signed char>("signed char");
    arr_cmp<0, 1000, 7, int>("int");
    arr_cmp<0, 254, 1, int>("int");
    arr_cmp<0, 255, 1, int>("int");
    arr_cmp<0, 256, 1, int>("int");
    arr_cmp<-300, 300, 1, int>("int");
    arr_cmp<-5, 65536, 1, int>("int");
    arr_cmp<-2000000000, 2000000000, 500000000, int>("int");
    arr_cmp<-2000000000, 1000000000, 500000000, int>("int");
    arr_cmp<std::numeric_limits<long>::min(), std::numeric_limits<long>::max(), 1L << 61,
            long>("long");
    arr_cmp<std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 1000000007,
            int>("int");
    arr_cmp<std::numeric_limits<int>::min(), std::numeric_limits<int>::max(),
            std::numeric_limits<int>::max(), int>("int");
    arr_cmp<0L, 1L << 62, 1L << 60, long>("long");
    {
        g_case = "make_array_from_range<0, 5, 2, long long>";
        static constexpr auto w = utils::make_array_from_range<0L, 5L, 2, long>();
        MC_CHECK("C39", w.size() == 3 && w[0] == 0 && w[1] == 2 && w[2] == 4, "wrong");
        static constexpr auto d = utils::make_array_from_range<3, 6>();
        MC_CHECK("C39", d.size() == 4 && d[0] == 3 && d[3] == 6, "default step");
        one();
    }
    done();
}
#endif
template <size_t Code>
void valid_code()
{
    constexpr int B = static_cast<int>(Code % 7) - 3, E = static_cast<int>(Code / 7 % 7) - 3,
                  S = static_cast<int>(Code / 49) - 3;
    constexpr bool want = (B < E && S > 0) || B == E;
    g_case = fmt("is_valid_range<%d, %d, %d>", B, E, S);
    MC_CHECK("C39", (utils::is_valid_range_v<B, E, S> == want), "reports %d", !want);
    MC_CHECK("C39", (utils::is_valid_range<B, E, S>::value == want), "reports %d", !want);
    MC_CHECK("C39",
             (utils::is_valid_range_v<static_cast<long>(B), static_cast<long>(E), S> == want),
             "long: reports %d", !want);
    if constexpr (B >= 0 && E >= 0 && S >= 0)
        MC_CHECK("C39",
                 (utils::is_valid_range_v<static_cast<unsigned>(B), static_cast<unsigned>(E),
                                          static_cast<unsigned>(S)> == want),
                 "unsigned: reports %d", !want);
    one();
}
template <size_t... C>
void valid_codes(std::index_sequence<C...>)
{
    (valid_code<C>(), ...);
}
#if ON(2)
void validity()
{
    cases();
    valid_codes(std::make_index_sequence<7 * 7 * 7>{});
    done();
}
#endif
#endif

// =============================== C40 =======================================
#if PART == 40
enum E1
{
};
enum E2 : unsigned
{
};
enum class E3 : unsigned char
{
};
struct Cls
{
    int i;
};
union Un
{
    int i;
    char c;
};
struct DerivedArr : std::array<int, 2>
{
};
struct DerivedTup : std::tuple<int>
{
};
struct DerivedTL : utils::type_list<int>
{
};
struct DerivedRW : std::reference_wrapper<int>
{
};
struct Incmpl;
struct Abstr
{
    virtual void f() = 0;
    void operator&() const = delete;
};
struct NoDtorC
{
    ~NoDtorC() = delete;
    using value_type = int;
};
struct Fin final
{
    operator unsigned() const { return 1; }
    int& get() const;
    using type = int;
};
// looks like a std::array, but is none
struct OwnSize
{
    using value_type = int;
    int e[2];
    constexpr size_t size() const { return 2; }
};
}  // namespace
template <>
struct std::tuple_size<OwnSize> : std::integral_constant<size_t, 2>
{
};
namespace
{
template <class...>
struct Fake
{
};
template <class T>
struct is_array_ref : std::false_type
{
};
template <class T, size_t N>
struct is_array_ref<std::array<T, N>> : std::true_type
{
};
template <class T>
struct is_tuple_ref : std::false_type
{
};
template <class... T>
struct is_tuple_ref<std::tuple<T...>> : std::true_type
{
};
template <class T>
struct is_rw_ref : std::false_type
{
};
template <class T>
struct is_rw_ref<std::reference_wrapper<T>> : std::true_type
{
};
template <class T>
struct is_tl_ref : std::false_type
{
};
template <class... T>
struct is_tl_ref<utils::type_list<T...>> : std::true_type
{
};
template <class T>
struct is_vl_ref : std::false_type
{
};
template <decltype(auto)... V>
struct is_vl_ref<utils::value_list<V...>> : std::true_type
{
};
template <class T>
struct unwrap_ref
{
    using type = T;
};
template <class T>
struct unwrap_ref<std::reference_wrapper<T>>
{
    using type = T&;
};
template <class T>
using bare = std::remove_cv_t<T>;
// the fundamental unsigned integers, spelled out
template <class T>
constexpr bool uint_ref =
    std::is_same_v<bare<T>, unsigned char> || std::is_same_v<bare<T>, unsigned short> ||
    std::is_same_v<bare<T>, unsigned> || std::is_same_v<bare<T>, unsigned long> ||
    std::is_same_v<bare<T>, unsigned long long> || std::is_same_v<bare<T>, char16_t> ||
    std::is_same_v<bare<T>, char32_t> ||
    (std::is_same_v<bare<T>, char> && std::is_unsigned_v<char>) ||
    (std::is_same_v<bare<T>, wchar_t> && std::is_unsigned_v<wchar_t>);

template <class T>
void predicates(const char* name)
{
    g_case = name;
    MC_CHECK("C40", utils::is_uint_v<T> == uint_ref<T>, "is_uint_v = %d",
             utils::is_uint_v<T>);
    MC_CHECK("C40", utils::is_uint<T>::value == uint_ref<T>, "is_uint");
    {
        constexpr bool w = uint_ref<T> || std::is_same_v<bare<T>, std::byte>;
        MC_CHECK("C40", utils::is_uint_or_byte_v<T> == w, "is_uint_or_byte_v = %d", !w);
        MC_CHECK("C40", utils::is_uint_or_byte<T>::value == w, "is_uint_or_byte");
    }
    {
        constexpr bool w = is_array_ref<std::decay_t<T>>::value;
        MC_CHECK("C40", utils::is_std_array_v<T> == w, "is_std_array_v = %d", !w);
        constexpr bool p = is_array_ref<T>::value;
        MC_CHECK("C40", utils::is_std_array<T>::value == p, "is_std_array = %d", !p);
        if constexpr (w)
        {
            MC_CHECK("C40",
                     utils::std_array_size_v<T> == std::tuple_size<std::decay_t<T>>::value,
                     "std_array_size_v = %zu", utils::std_array_size_v<T>);
            MC_CHECK("C40",
                     (std::is_same_v<utils::std_array_data_t<T>,
                                     typename std::decay_t<T>::value_type>),
                     "std_array_data_t");
        }
    }
    MC_CHECK("C40", utils::is_tuple_v<T> == is_tuple_ref<T>::value, "is_tuple_v = %d",
             utils::is_tuple_v<T>);
    MC_CHECK("C40", utils::is_tuple<T>::value == is_tuple_ref<T>::value, "is_tuple");
    MC_CHECK("C40", utils::is_ref_wrapper_v<T> == is_rw_ref<T>::value,
             "is_ref_wrapper_v = %d", utils::is_ref_wrapper_v<T>);
    MC_CHECK("C40", utils::is_ref_wrapper<T>::value == is_rw_ref<T>::value, "is_ref_wrapper");
    MC_CHECK("C40", utils::is_type_list_v<T> == is_tl_ref<T>::value, "is_type_list_v = %d",
             utils::is_type_list_v<T>);
    MC_CHECK("C40", utils::is_type_list<T>::value == is_tl_ref<T>::value, "is_type_list");
    MC_CHECK("C40", utils::is_value_list_v<T> == is_vl_ref<T>::value,
             "is_value_list_v = %d", utils::is_value_list_v<T>);
    MC_CHECK("C40", utils::is_value_list<T>::value == is_vl_ref<T>::value, "is_value_list");
    {
        using W = std::remove_cv_t<std::remove_reference_t<T>>;
        MC_CHECK("C40", (std::is_same_v<utils::remove_cvref_t<T>, W>), "remove_cvref_t");
        MC_CHECK("C40", (std::is_same_v<typename utils::remove_cvref<T>::type, W>),
                 "remove_cvref");
        using U = typename unwrap_ref<T>::type;
        MC_CHECK("C40", (std::is_same_v<utils::unwrap_reference_t<T>, U>),
                 "unwrap_reference_t");
        MC_CHECK("C40", (std::is_same_v<typename utils::unwrap_reference<T>::type, U>),
                 "unwrap_reference");
        MC_CHECK("C40",
                 (std::is_same_v<std::remove_cv_t<decltype(utils::tag<T>)>, utils::tag_t<T>>),
                 "tag");
    }
    one();
}
template <class T>
void quals(const char* name)
{
    predicates<T>((std::string(name)).c_str());
    const std::string n = name;
    auto q = [&](auto t, const char* s)
    {
        const std::string full = n + s;
        predicates<typename decltype(t)::type>(full.c_str());
    };
    if constexpr (!std::is_void_v<T> && !std::is_function_v<T>)
    {
        q(std::common_type<utils::tag_t<T>>{}, " tag");
    }
    (void)q;
}
template <class T>
struct id
{
    using type = T;
};
template <class T>
void all_quals(const char* name)
{
    const std::string n = name;
    auto q = [&](auto t, const char* s)
    { predicates<typename decltype(t)::type>((n + s).c_str()); };
    q(id<T>{}, "");
    q(id<std::add_const_t<T>>{}, " const");
    q(id<std::add_volatile_t<T>>{}, " volatile");
    q(id<std::add_cv_t<T>>{}, " const volatile");
    q(id<std::add_lvalue_reference_t<T>>{}, "&");
    q(id<std::add_lvalue_reference_t<std::add_const_t<T>>>{}, " const&");
    q(id<std::add_lvalue_reference_t<std::add_volatile_t<T>>>{}, " volatile&");
    q(id<std::add_rvalue_reference_t<T>>{}, "&&");
    q(id<std::add_rvalue_reference_t<std::add_const_t<T>>>{}, " const&&");
    q(id<std::add_rvalue_reference_t<std::add_cv_t<T>>>{}, " const volatile&&");
    q(id<std::add_pointer_t<T>>{}, "*");
}
void type_predicates()
{
    cases();
#define AQ(...) all_quals<__VA_ARGS__>(#__VA_ARGS__)
    AQ(bool);
    AQ(char);
    AQ(signed char);
    AQ(unsigned char);
    AQ(short);
    AQ(unsigned short);
    AQ(int);
    AQ(unsigned);
    AQ(long);
    AQ(unsigned long);
    AQ(long long);
    AQ(unsigned long long);
    AQ(char16_t);
    AQ(char32_t);
    AQ(wchar_t);
    AQ(float);
    AQ(double);
    AQ(long double);
    AQ(std::byte);
    AQ(std::nullptr_t);
    AQ(void);
    AQ(E1);
    AQ(E2);
    AQ(E3);
    AQ(Cls);
    AQ(Un);
    AQ(int[3]);
    AQ(int[]);
    AQ(std::array<int, 2>[2]);
    AQ(void(int));
    AQ(int Cls::*);
    AQ(int (Cls::*)(int) const);
    AQ(std::array<int, 0>);
    AQ(std::array<int, 3>);
    AQ(std::array<const char, 3>);
    AQ(std::array<std::array<int, 2>, 4>);
    AQ(std::array<std::string, 1>);
    AQ(DerivedArr);
    AQ(std::tuple<>);
    AQ(std::tuple<int>);
    AQ(std::tuple<int, char&, std::tuple<>>);
    AQ(DerivedTup);
    AQ(std::pair<int, int>);
    AQ(std::reference_wrapper<int>);
    AQ(std::reference_wrapper<const int>);
    AQ(std::reference_wrapper<void(int)>);
    AQ(std::reference_wrapper<std::reference_wrapper<int>>);
    AQ(std::string);
    AQ(std::vector<int>);
    AQ(std::unique_ptr<int>);
    AQ(utils::type_list<>);
    AQ(utils::type_list<int>);
    AQ(utils::type_list<int, int&, void>);
    AQ(utils::type_list<utils::type_list<>>);
    AQ(utils::value_list<>);
    AQ(utils::value_list<1>);
    AQ(utils::value_list<1, 'c', true>);
    AQ(DerivedTL);
    AQ(Fake<>);
    AQ(Fake<int, char>);
    AQ(std::integer_sequence<int, 1, 2>);
    AQ(std::initializer_list<int>);
    AQ(std::function<void()>);
    AQ(std::reference_wrapper<void()>);
    AQ(std::reference_wrapper<int (&)(int) noexcept>);
    AQ(std::reference_wrapper<Incmpl>);
    AQ(std::reference_wrapper<Abstr>);
    AQ(std::reference_wrapper<int[4]>);
    AQ(std::reference_wrapper<std::array<int, 2>>);
    AQ(std::reference_wrapper<const volatile std::byte>);
    AQ(DerivedRW);
    AQ(void() const);
    AQ(void(int, ...) noexcept);
    AQ(Abstr);
    AQ(Incmpl*);
    AQ(NoDtorC);
    AQ(Fin);
    AQ(OwnSize);
    AQ(int[2][3]);
    AQ(std::byte[4]);
    AQ(std::array<int, (size_t(1) << 40)>);
    AQ(std::array<std::byte, 1>);
    AQ(std::array<Abstr*, 2>);
    AQ(std::array<int, 2>*);
    AQ(std::array<std::reference_wrapper<int>, 2>);
    AQ(std::tuple<int, int, int, int, int, int, int, int, int, int, int, int>);
    AQ(std::tuple<std::array<int, 1>>);
    AQ(std::tuple<void*, const int&&>);
    AQ(utils::type_list<int, char, int, char, int, char, int, char, int, char, int, char>);
    AQ(utils::type_list<void, void(), int[], Incmpl>);
    AQ(utils::type_list<utils::value_list<1>>);
    AQ(utils::value_list<nullptr, E3{}, true, 'c', 1, 2u, 3l>);
    AQ(utils::value_list<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>);
    AQ(__int128*);
    AQ(float _Complex);
    done();
    mc::sample("std::array<int, 3> const&: is_std_array_v = 1, is_uint_v = 0, ...");
}
template <size_t>
struct szt;
template <>
struct szt<0>
{
    using type = char;
};
template <>
struct szt<1>
{
    using type = short;
};
template <>
struct szt<2>
{
    using type = float;
};
template <>
struct szt<3>
{
    using type = int;
};
template <>
struct szt<4>
{
    using type = Cls[1];
};
template <size_t K, size_t Code, size_t... I>
void sizes_code(std::index_sequence<I...>)
{
    const size_t s[] = {sizeof(typename szt<Code / ipow(5, I) % 5>::type)..., 0};
    bool all = true;
    for (size_t i = 1; i < K; ++i) all = all && s[i] == s[0];
    g_case = fmt("is_equal_sizes of %zu types, code %zu (base 5)", K, Code);
    MC_CHECK("C40",
             (utils::is_equal_sizes_v<typename szt<Code / ipow(5, I) % 5>::type...> == all),
             "reports %d", !all);
    MC_CHECK("C40",
             (utils::is_equal_sizes<typename szt<Code / ipow(5, I) % 5>::type...>::value ==
              all),
             "reports %d", !all);
    one(K > 1);
}
template <size_t K, size_t... C>
void sizes_len(std::index_sequence<C...>)
{
    (sizes_code<K, C>(std::make_index_sequence<K>{}), ...);
}
template <class A, class B>
void same_data(bool want)
{
    g_case = fmt("is_same_data_std_arrays %s", __PRETTY_FUNCTION__);
    MC_CHECK("C40", (utils::is_same_data_std_arrays<A, B> == want), "reports %d", !want);
    one();
}
void size_predicates()
{
    cases();
    sizes_len<1>(std::make_index_sequence<5>{});
    sizes_len<2>(std::make_index_sequence<25>{});
    sizes_len<3>(std::make_index_sequence<125>{});
    sizes_len<4>(std::make_index_sequence<625>{});
    using A2 = std::array<int, 2>;
    using A3 = std::array<int, 3>;
    using L2 = std::array<long, 2>;
    same_data<A2, A3>(true);
    same_data<A2&, const A3&>(true);
    same_data<A2&&, A2>(true);
    same_data<A2, L2>(false);
    same_data<const L2&, L2&&>(true);
    g_case = "std_array_sizes_sum";
    MC_CHECK("C40", (utils::std_array_sizes_sum<A2, const A3&, L2&&> == 7), "wrong");
    MC_CHECK("C40", (utils::std_array_sizes_sum<> == 0), "wrong");
    one();
    done();
}
#endif

void reg()
{
#if PART == 24
#if ON(1)
    mc::add("concat_owning", concat_owning);
#endif
#if ON(2)
    mc::add("concat_plain", concat_plain);
#endif
#if ON(3)
    mc::add("arrays_of_values", arrays_of_values);
#endif
#if ON(4)
    mc::add("arrays_of_views", arrays_of_views);
#endif
#elif PART == 25
    mc::add("memory_compare", memory_compare);
    mc::add("array_compare", array_compare);
#elif PART == 38
#if ON(1)
    mc::add("visit_args", visit_args);
#endif
#if ON(2)
    mc::add("visit_tuples", visit_tuples);
#endif
#elif PART == 39
#if ON(1)
    mc::add("ranges", ranges);
#endif
#if ON(2)
    mc::add("shifted", shifted);
#endif
#if ON(3)
    mc::add("range_arrays", range_arrays);
#endif
#if ON(2)
    mc::add("validity", validity);
#endif
#elif PART == 40
    mc::add("type_predicates", type_predicates);
    mc::add("size_predicates", size_predicates);
#endif
}
}  // namespace
MC_MAIN(reg)
