// C29 type list queries, C30 type list transformations, C31 value list queries,
// C32 concatenation and cartesian product.  Every list over a small alphabet is
// instantiated; the reference works on the vector of letters.
#include <algorithm>
#include <climits>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <mc.h>
#include <utils/cartesian_product.h>
#include <utils/type_list.h>
#include <utils/value_list.h>

using std::size_t;
using mc::fmt;
using u64 = mc::u64;
using utils::type_list;
using utils::value_list;

#ifndef SHARD
#define SHARD 0
#endif
#define ON(n) (SHARD == 0 || SHARD == n)

namespace
{
using V = std::vector<int>;
std::string g_case;
void cases()
{
    mc::S().current = [] { return g_case; };
}
u64 g_n, g_nt;
void done()
{
    mc::count("evaluations", g_n);
    mc::count("distinct_nontrivial", g_nt);
    g_n = g_nt = 0;
}
std::string show(const V& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += fmt("%s%d", i ? " " : "", v[i]);
    return s + "]";
}
constexpr size_t ipow(size_t b, size_t e) { return e ? b * ipow(b, e - 1) : 1; }

// letters; the code of a type is its index
struct S3
{
    char c[3];
};
template <int>
struct letter;
#define LETTER(N, ...)            \
    template <>                   \
    struct letter<N>              \
    {                             \
        using type = __VA_ARGS__; \
    };
LETTER(0, int)
LETTER(1, const int)
LETTER(2, int&)
LETTER(3, void)
LETTER(4, double)      // never in the lists over 0..3
LETTER(5, char)        // 5..9: sizes 1 1 2 4 4
LETTER(6, signed char)
LETTER(7, short)
LETTER(8, int)
LETTER(9, float)
LETTER(10, type_list<int>)
LETTER(11, type_list<>)
LETTER(12, value_list<1>)
LETTER(13, S3)
LETTER(14, void(int))
template <size_t N>
struct Sized
{
    char c[N];
};
LETTER(15, Sized<255>)
LETTER(16, Sized<256>)
LETTER(17, Sized<257>)
LETTER(18, Sized<65536>)
LETTER(19, Sized<(size_t{1} << 31)>)
LETTER(20, Sized<(size_t{1} << 32) + 1>)
LETTER(21, char&&)     // sizes 1, 16 and 8
LETTER(22, long double)
LETTER(23, void (*)())
LETTER(24, const volatile char)
// types of which no value can be made, compared, copied or even sized
struct Incomplete;
struct Abstract
{
    virtual void f() = 0;
    virtual ~Abstract() = default;
};
struct Strange
{
    Strange() = delete;
    Strange(const Strange&) = delete;
    ~Strange() = delete;
    void operator&() const = delete;
    template <class T>
    bool operator==(const T&) const = delete;
    template <class T>
    void operator,(T&&) const = delete;
};
LETTER(30, Incomplete)
LETTER(31, int[])
LETTER(32, Abstract)
LETTER(33, void() const noexcept)
LETTER(34, Strange)
LETTER(35, const volatile void)
LETTER(36, int Incomplete::*)
LETTER(37, const Abstract)   // never in the lists
template <int N>
using L = typename letter<N>::type;

template <class T, int... Letters>
constexpr int code_of(std::integer_sequence<int, Letters...>)
{
    int r = -1;
    (void)(... || (std::is_same_v<T, L<Letters>> ? (r = Letters, true) : false));
    return r;
}
template <class Letters, class T>
struct codes;
template <class Letters, class... T>
struct codes<Letters, type_list<T...>>
{
    static V get() { return V{code_of<T>(Letters{})...}; }
};
template <int... N>
using seq = std::integer_sequence<int, N...>;

// predicates
template <class T>
struct is_lref : std::is_lvalue_reference<T>
{
};
template <class T>
struct is_int_like : std::is_same<std::remove_cv_t<std::remove_reference_t<T>>, int>
{
};
template <class T>
struct never : std::false_type
{
};
template <class T>
struct always : std::true_type
{
};
template <class T, class U, class W>
struct either : std::bool_constant<std::is_same_v<T, U> || std::is_same_v<T, W>>
{
};

size_t find_first(const V& v, const std::vector<bool>& p)
{
    for (size_t i = 0; i < v.size(); ++i)
        if (p[i]) return i;
    return v.size();
}
template <class F>
std::vector<bool> map(const V& v, F f)
{
    std::vector<bool> r;
    for (int x: v) r.push_back(f(x));
    return r;
}
void eq(const char* prop, const char* what, size_t got, size_t want)
{
    MC_CHECK(prop, got == want, "%s is %zu, expected %zu", what, got, want);
}
void eqv(const char* prop, const char* what, const V& got, const V& want)
{
    MC_CHECK(prop, got == want, "%s is %s, expected %s", what, show(got).c_str(),
             show(want).c_str());
}

// =============================== C29 =======================================
#if PART == 29
using Q = seq<0, 1, 2, 3, 4>;
template <int A, class TL>
void by_type(const V& v)
{
    using T = L<A>;
    auto p = map(v, [](int x) { return x == A; });
    const size_t n = std::count(p.begin(), p.end(), true);
    const std::string w = fmt("for type %d: ", A);
    eq("C29", (w + "first_index_of_type").c_str(), TL::template first_index_of_type<T>,
       find_first(v, p));
    eq("C29", (w + "index_of<is_same>").c_str(), TL::template index_of<std::is_same, T>,
       find_first(v, p));
    eq("C29", (w + "count_of").c_str(), TL::template count_of<T>, n);
    eq("C29", (w + "contains_v").c_str(), TL::template contains_v<T>, n > 0);
    eq("C29", (w + "contains").c_str(), TL::template contains<T>::value, n > 0);
    // two further predicate arguments
    constexpr int B = A < 30 ? (A + 2) % 4 : 30 + (A - 30 + 2) % 4;
    eq("C29", (w + "index_of<either>").c_str(), TL::template index_of<either, T, L<B>>,
       find_first(v, map(v, [](int x) { return x == A || x == B; })));
}
template <class TL, template <class> class P, size_t Count, size_t... I>
V nth(std::index_sequence<I...>)
{
    return V{code_of<typename TL::template at<I, P>>(Q{})...};
}
template <class TL, template <class> class P, size_t Count, class F>
void by_pred(const V& v, const char* name, F f)
{
    auto p = map(v, f);
    V sel;
    for (size_t i = 0; i < v.size(); ++i)
        if (p[i]) sel.push_back(v[i]);
    const std::string w = fmt("for predicate %s: ", name);
    eq("C29", (w + "index_of").c_str(), TL::template index_of<P>, find_first(v, p));
    eq("C29", (w + "count_of_predicate_compliant").c_str(),
       TL::template count_of_predicate_compliant<P>, sel.size());
    eq("C29", (w + "contains_predicate_compliant").c_str(),
       TL::template contains_predicate_compliant<P>, !sel.empty());
    // Count was computed from the letters, not by the library
    if (sel.size() != Count) abort();
    eqv("C29", (w + "sequence of at<n, predicate>").c_str(),
        nth<TL, P, Count>(std::make_index_sequence<Count>{}), sel);
}
template <class TL, size_t... I>
V all_at(std::index_sequence<I...>)
{
    return V{code_of<typename TL::template at<I>>(Q{})...};
}
template <class TL, int A, int B>
void by_list(const V& v)
{
    auto in = [&](int x) { return std::count(v.begin(), v.end(), x) > 0; };
    const std::string w = fmt("for the list of %d and %d: ", A, B);
    eq("C29", (w + "contains_v").c_str(), TL::template contains_v<type_list<L<A>, L<B>>>,
       in(A) && in(B));
    if (A == B)
    {
        eq("C29", (w + "contains of one").c_str(), TL::template contains_v<type_list<L<A>>>,
           in(A));
        eq("C29", (w + "contains of three").c_str(),
           TL::template contains<type_list<L<A>, L<0>, L<2>>>::value,
           in(A) && in(0) && in(2));
    }
}
template <class TL, size_t... C>
void by_lists(const V& v, std::index_sequence<C...>)
{
    (by_list<TL, C / 5, C % 5>(v), ...);
}
template <bool Heavy, int... X>
void queries(seq<X...>)
{
    using TL = type_list<L<X>...>;
    const V v{X...};
    g_case = "type_list of letters " + show(v) + " (0 int, 1 const int, 2 int&, 3 void)";
    mc::beat();
    eq("C29", "size", TL::size, v.size());
    eqv("C29", "sequence of at<i>", all_at<TL>(std::make_index_sequence<sizeof...(X)>{}), v);
    by_type<0, TL>(v);
    by_type<1, TL>(v);
    by_type<2, TL>(v);
    by_type<3, TL>(v);
    by_type<4, TL>(v);
    by_pred<TL, is_lref, (0 + ... + (X == 2))>(v, "is_lref", [](int x) { return x == 2; });
    by_pred<TL, is_int_like, (0 + ... + (X < 3))>(v, "is_int_like",
                                                  [](int x) { return x < 3; });
    by_pred<TL, std::is_void, (0 + ... + (X == 3))>(v, "is_void",
                                                    [](int x) { return x == 3; });
    by_pred<TL, never, 0>(v, "never", [](int) { return false; });
    by_pred<TL, always, sizeof...(X)>(v, "always", [](int) { return true; });
    eq("C29", "contains_v<type_list<>>", TL::template contains_v<type_list<>>, true);
    if constexpr (Heavy) by_lists<TL>(v, std::make_index_sequence<25>{});
    bool same = true, dup = false;
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            same = same && v[i] == v[j];
            dup = dup || v[i] == v[j];
        }
    eq("C29", "is_same", TL::is_same, same);
    eq("C29", "contains_copies", TL::contains_copies, dup);
    ++g_n;
    g_nt += v.size() > 1;
}
template <bool Heavy, size_t K, size_t Code, size_t... I>
void one_code(std::index_sequence<I...>)
{
    queries<Heavy>(seq<static_cast<int>(Code / ipow(4, I) % 4)...>{});
}
template <bool Heavy, size_t K, size_t Step, size_t... C>
void len(std::index_sequence<C...>)
{
    (one_code<Heavy, K, C * Step>(std::make_index_sequence<K>{}), ...);
}
#if ON(1)
void short_lists()
{
    cases();
    len<true, 0, 1>(std::make_index_sequence<1>{});
    len<true, 1, 1>(std::make_index_sequence<4>{});
    len<true, 2, 1>(std::make_index_sequence<16>{});
    len<true, 3, 1>(std::make_index_sequence<64>{});
    done();
}
#endif
#if ON(2)
void lists_of_4()
{
    cases();
    len<false, 4, 1>(std::make_index_sequence<128>{});
    done();
}
#endif
template <size_t K, size_t Off, size_t... C>
void half(std::index_sequence<C...>)
{
    (one_code<false, K, C + Off>(std::make_index_sequence<K>{}), ...);
}
#if ON(3)
void lists_of_4b()
{
    cases();
    half<4, 128>(std::make_index_sequence<128>{});
    done();
}
#endif
template <int N, int Pos, int... I>
void spike(seq<I...>)
{
    queries<false>(seq<(I == Pos ? 2 : I == Pos + 1 ? 3 : (I / 5) % 2)...>{});
}
#if ON(4)
void long_lists()
{
    cases();
    len<true, 5, 31>(std::make_index_sequence<33>{});
    len<false, 6, 97>(std::make_index_sequence<42>{});
    spike<30, 0>(std::make_integer_sequence<int, 30>{});
    spike<30, 1>(std::make_integer_sequence<int, 30>{});
    spike<30, 15>(std::make_integer_sequence<int, 30>{});
    spike<30, 28>(std::make_integer_sequence<int, 30>{});
    spike<30, 29>(std::make_integer_sequence<int, 30>{});
    spike<30, 40>(std::make_integer_sequence<int, 30>{});
    spike<64, 63>(std::make_integer_sequence<int, 64>{});
    done();
    mc::sample("type_list of 30 with int& at 15: index_of, at<0, is_lref>, ...");
}
#endif
#if ON(5)
// more than 256 types: counts and positions do not fit 8 bits
template <class TL, size_t I>
void wide_at(const V& v)
{
    eqv("C29", fmt("at<%zu>", I).c_str(), V{code_of<typename TL::template at<I>>(Q{})}, V{v[I]});
}
template <class TL, template <class> class P, size_t N>
void wide_nth(const V& sel)
{
    eqv("C29", fmt("at<%zu, predicate>", N).c_str(),
        V{code_of<typename TL::template at<N, P>>(Q{})}, V{sel[N]});
}
template <class TL, int A>
void wide_type(const V& v)
{
    auto p = map(v, [](int x) { return x == A; });
    const size_t n = std::count(p.begin(), p.end(), true);
    const std::string w = fmt("for type %d: ", A);
    eq("C29", (w + "first_index_of_type").c_str(), TL::template first_index_of_type<L<A>>,
       find_first(v, p));
    eq("C29", (w + "index_of<is_same>").c_str(), TL::template index_of<std::is_same, L<A>>,
       find_first(v, p));
    eq("C29", (w + "count_of").c_str(), TL::template count_of<L<A>>, n);
    eq("C29", (w + "contains_v").c_str(), TL::template contains_v<L<A>>, n > 0);
}
template <class TL, template <class> class P, class F>
void wide_pred(const V& v, const char* name, F f)
{
    auto p = map(v, f);
    const size_t n = std::count(p.begin(), p.end(), true);
    const std::string w = fmt("for predicate %s: ", name);
    eq("C29", (w + "index_of").c_str(), TL::template index_of<P>, find_first(v, p));
    eq("C29", (w + "count_of_predicate_compliant").c_str(),
       TL::template count_of_predicate_compliant<P>, n);
    eq("C29", (w + "contains_predicate_compliant").c_str(),
       TL::template contains_predicate_compliant<P>, n > 0);
}
template <int... X>
void wide(seq<X...>)
{
    using TL = type_list<L<X>...>;
    const V v{X...};
    constexpr size_t K = sizeof...(X);
    g_case = "type_list of " + std::to_string(K) + " letters " + show(v);
    mc::beat();
    eq("C29", "size", TL::size, K);
    wide_at<TL, 0>(v);
    wide_at<TL, 254>(v);
    wide_at<TL, 255>(v);
    if constexpr (K > 256) wide_at<TL, 256>(v);
    if constexpr (K > 257) wide_at<TL, 257>(v);
    wide_at<TL, K - 1>(v);
    wide_type<TL, 0>(v);
    wide_type<TL, 1>(v);
    wide_type<TL, 2>(v);
    wide_type<TL, 3>(v);
    wide_type<TL, 4>(v);
    wide_pred<TL, is_lref>(v, "is_lref", [](int x) { return x == 2; });
    wide_pred<TL, is_int_like>(v, "is_int_like", [](int x) { return x < 3; });
    wide_pred<TL, std::is_void>(v, "is_void", [](int x) { return x == 3; });
    wide_pred<TL, never>(v, "never", [](int) { return false; });
    wide_pred<TL, always>(v, "always", [](int) { return true; });
    wide_nth<TL, always, 255>(v);
    wide_nth<TL, always, K - 1>(v);
    bool same = true, dup = false;
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            same = same && v[i] == v[j];
            dup = dup || v[i] == v[j];
        }
    eq("C29", "is_same", TL::is_same, same);
    eq("C29", "contains_copies", TL::contains_copies, dup);
    ++g_n;
    ++g_nt;
}
template <size_t P, int A, int B, int... I>
void wide_spike(seq<I...>)
{
    wide(seq<(I == static_cast<int>(P) ? B : A)...>{});
}
template <size_t... I>
constexpr auto distinct_list(std::index_sequence<I...>)
{
    return type_list<std::integral_constant<size_t, I>...>{};
}
void wide_lists()
{
    cases();
    wide_spike<300, 0, 0>(std::make_integer_sequence<int, 256>{});   // 256 copies
    wide_spike<255, 0, 2>(std::make_integer_sequence<int, 256>{});
    wide_spike<0, 2, 3>(std::make_integer_sequence<int, 257>{});     // 256 copies, one other
    wide_spike<256, 1, 3>(std::make_integer_sequence<int, 258>{});
    wide_spike<299, 3, 0>(std::make_integer_sequence<int, 300>{});
    // pairwise different types, and one pair far apart
    using D = decltype(distinct_list(std::make_index_sequence<300>{}));
    g_case = "type_list of integral_constant<size_t, 0..299>";
    eq("C29", "contains_copies", D::contains_copies, false);
    eq("C29", "is_same", D::is_same, false);
    eq("C29", "first_index_of_type", D::first_index_of_type<std::integral_constant<size_t, 256>>,
       256);
    eq("C29", "first_index_of_type", D::first_index_of_type<std::integral_constant<size_t, 299>>,
       299);
    eq("C29", "first_index_of_type", D::first_index_of_type<int>, 300);
    eq("C29", "contains_v", D::contains_v<type_list<std::integral_constant<size_t, 255>,
                                                   std::integral_constant<size_t, 256>>>, true);
    eq("C29", "contains_v", D::contains_v<type_list<std::integral_constant<size_t, 255>, int>>,
       false);
    ++g_n;
    ++g_nt;
    done();
}
#endif
#if ON(6)
using OddQ = seq<30, 31, 32, 33, 34, 35, 36, 37>;
template <class TL, size_t... I>
V odd_at(std::index_sequence<I...>)
{
    return V{code_of<typename TL::template at<I>>(OddQ{})...};
}
template <class TL, template <class> class P, class F>
void odd_pred(const V& v, const char* name, F f)
{
    auto p = map(v, f);
    const std::string w = fmt("for predicate %s: ", name);
    eq("C29", (w + "index_of").c_str(), TL::template index_of<P>, find_first(v, p));
    const size_t n = std::count(p.begin(), p.end(), true);
    eq("C29", (w + "count_of_predicate_compliant").c_str(),
       TL::template count_of_predicate_compliant<P>, n);
    eq("C29", (w + "contains_predicate_compliant").c_str(),
       TL::template contains_predicate_compliant<P>, n > 0);
}
template <class T>
struct is_any_void : std::is_void<T>
{
};
template <class T>
struct is_odd_class : std::bool_constant<std::is_same_v<T, Abstract> || std::is_same_v<T, Strange>>
{
};
template <int... X>
void odd(seq<X...>)
{
    using TL = type_list<L<X>...>;
    const V v{X...};
    g_case = "type_list of letters " + show(v) +
             " (30 incomplete, 31 int[], 32 abstract, 33 void() const noexcept, 34 no operations, "
             "35 const volatile void, 36 int Incomplete::*)";
    mc::beat();
    eq("C29", "size", TL::size, v.size());
    eqv("C29", "sequence of at<i>",
        odd_at<TL>(std::make_index_sequence<sizeof...(X)>{}), v);
    by_type<30, TL>(v), by_type<31, TL>(v), by_type<32, TL>(v), by_type<33, TL>(v);
    by_type<34, TL>(v), by_type<35, TL>(v), by_type<36, TL>(v), by_type<37, TL>(v);
    odd_pred<TL, is_any_void>(v, "is_void", [](int x) { return x == 35; });
    odd_pred<TL, is_odd_class>(v, "is_odd_class", [](int x) { return x == 32 || x == 34; });
    odd_pred<TL, always>(v, "always", [](int) { return true; });
    auto in = [&](int x) { return std::count(v.begin(), v.end(), x) > 0; };
    eq("C29", "contains_v<list of 30 and 31>",
       TL::template contains_v<type_list<Incomplete, int[]>>, in(30) && in(31));
    eq("C29", "contains_v<list of 34, 32>",
       TL::template contains_v<type_list<Strange, Abstract>>, in(34) && in(32));
    eq("C29", "contains_v<list of 35, 33>",
       TL::template contains_v<type_list<L<35>, L<33>>>, in(35) && in(33));
    bool same = true, dup = false;
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            same = same && v[i] == v[j];
            dup = dup || v[i] == v[j];
        }
    eq("C29", "is_same", TL::is_same, same);
    eq("C29", "contains_copies", TL::contains_copies, dup);
    ++g_n;
    g_nt += v.size() > 1;
}
template <size_t K, size_t Code, size_t... I>
void odd_code(std::index_sequence<I...>)
{
    odd(seq<static_cast<int>(30 + Code / ipow(7, I) % 7)...>{});
}
template <size_t K, size_t Step, size_t... C>
void odd_len(std::index_sequence<C...>)
{
    (odd_code<K, C * Step>(std::make_index_sequence<K>{}), ...);
}
void odd_types()
{
    cases();
    odd_len<1, 1>(std::make_index_sequence<7>{});
    odd_len<2, 1>(std::make_index_sequence<49>{});
    odd_len<3, 5>(std::make_index_sequence<68>{});
    odd_len<6, 3001>(std::make_index_sequence<39>{});
    done();
}
#endif
void reg()
{
#if ON(1)
    mc::add("short_lists", short_lists);
#endif
#if ON(2)
    mc::add("lists_of_4", lists_of_4);
#endif
#if ON(3)
    mc::add("lists_of_4b", lists_of_4b);
#endif
#if ON(4)
    mc::add("long_lists", long_lists);
#endif
#if ON(5)
    mc::add("wide_lists", wide_lists);
#endif
#if ON(6)
    mc::add("odd_types", odd_types);
#endif
}
#endif

// =============================== C30 =======================================
#if PART == 30
using Q = seq<5, 6, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 30, 31, 32, 33, 34, 35, 36>;
size_t size_of(int letter_)
{
    static const size_t big[] = {255, 256, 257, 65536, size_t{1} << 31,
                                 (size_t{1} << 32) + 1, 1, 16, 8, 1};
    if (letter_ >= 15) return big[letter_ - 15];
    return letter_ <= 6 ? 1 : letter_ == 7 ? 2 : 4;
}
template <class T>
struct small : std::bool_constant<sizeof(T) <= 2>
{
};
template <class T, class U>
struct same_size : std::bool_constant<sizeof(T) == sizeof(U)>
{
};
template <class TL, size_t K, size_t Code>
void sub(const V& v)
{
    constexpr size_t F = Code / (K + 1), C = Code % (K + 1);
    if constexpr (F < K && F + C <= K)
    {
        const V want(v.begin() + F, v.begin() + F + C);
        eqv("C30", fmt("sublist<%zu, %zu>", F, C).c_str(),
            codes<Q, utils::sublist_t<TL, F, C>>::get(), want);
        eqv("C30", "sublist", codes<Q, typename utils::sublist<TL, F, C>::type>::get(),
            want);
    }
}
template <class TL, size_t I>
void excl(V v)
{
    v.erase(v.begin() + I);
    eqv("C30", fmt("exclude_at<%zu>", I).c_str(), codes<Q, utils::exclude_at_t<TL, I>>::get(),
        v);
    eqv("C30", "exclude_at", codes<Q, typename utils::exclude_at<TL, I>::type>::get(), v);
}
template <class TL, size_t K, size_t... C>
void subs(const V& v, std::index_sequence<C...>)
{
    (sub<TL, K, C>(v), ...);
}
template <class TL, size_t... I>
void excls(const V& v, std::index_sequence<I...>)
{
    (excl<TL, I>(v), ...);
}
template <class F>
V filter(const V& v, F f)
{
    V r;
    for (int x: v)
        if (f(x)) r.push_back(x);
    return r;
}
template <bool Sub, int... X>
void transforms(seq<X...>)
{
    using TL = type_list<L<X>...>;
    constexpr size_t K = sizeof...(X);
    const V v{X...};
    g_case = "type_list of letters " + show(v) +
             " (5 char, 6 signed char, 7 short, 8 int, 9 float, 15.. big types)";
    mc::beat();
    V up = v, down = v;
    std::stable_sort(up.begin(), up.end(),
                     [](int a, int b) { return size_of(a) < size_of(b); });
    std::stable_sort(down.begin(), down.end(),
                     [](int a, int b) { return size_of(a) > size_of(b); });
    eqv("C30", "sort_sizeof_ascending",
        codes<Q, utils::sort_sizeof_ascending_t<TL>>::get(), up);
    eqv("C30", "sort_sizeof_descending",
        codes<Q, utils::sort_sizeof_descending_t<TL>>::get(), down);
    if constexpr (K > 0)
    {
        size_t lo = 0, hi = 0;
        for (size_t i = 1; i < K; ++i)
        {
            if (size_of(v[i]) < size_of(v[lo])) lo = i;
            if (size_of(v[i]) > size_of(v[hi])) hi = i;
        }
        eq("C30", "min_sizeof_index_v", utils::min_sizeof_index_v<TL>, lo);
        eq("C30", "min_sizeof_index", utils::min_sizeof_index<TL>::value, lo);
        eq("C30", "max_sizeof_index_v", utils::max_sizeof_index_v<TL>, hi);
        eq("C30", "max_sizeof_index", utils::max_sizeof_index<TL>::value, hi);
    }
    eqv("C30", "list_of_predicate_compliant<small>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<small>>::get(),
        filter(v, [](int x) { return size_of(x) <= 2; }));
    eqv("C30", "list_of_predicate_compliant<is_same, int>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<std::is_same, int>>::get(),
        filter(v, [](int x) { return x == 8; }));
    eqv("C30", "list_of_predicate_compliant<same_size, char>",
        codes<Q, typename TL::template list_of_predicate_compliant<same_size,
                                                                   char>::type>::get(),
        filter(v, [](int x) { return size_of(x) == 1; }));
    eqv("C30", "list_of_predicate_compliant<never>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<never>>::get(), {});
    eqv("C30", "list_of_predicate_compliant<always>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<always>>::get(), v);
    if constexpr (Sub)
    {
        subs<TL, K>(v, std::make_index_sequence<(K + 1) * (K + 1)>{});
        excls<TL>(v, std::make_index_sequence<K>{});
    }
    ++g_n;
    g_nt += K > 1;
}
template <bool Sub, size_t K, size_t Code, size_t... I>
void one_code(std::index_sequence<I...>)
{
    transforms<Sub>(seq<static_cast<int>(Code / ipow(5, I) % 5) + 5 ...>{});
}
template <bool Sub, size_t K, size_t Off, size_t Step, size_t... C>
void len(std::index_sequence<C...>)
{
    (one_code<Sub, K, Off + C * Step>(std::make_index_sequence<K>{}), ...);
}
#if ON(1)
void short_lists()
{
    cases();
    eqv("C30", "sublist<type_list<>, 0, 0>",
        codes<Q, utils::sublist_t<type_list<>, 0, 0>>::get(), {});
    len<true, 0, 0, 1>(std::make_index_sequence<1>{});
    len<true, 1, 0, 1>(std::make_index_sequence<5>{});
    len<true, 2, 0, 1>(std::make_index_sequence<25>{});
    len<true, 3, 0, 1>(std::make_index_sequence<125>{});
    done();
}
#endif
#if ON(2)
void lists_of_4()
{
    cases();
    len<false, 4, 0, 1>(std::make_index_sequence<210>{});
    done();
}
#endif
#if ON(3)
void lists_of_4b()
{
    cases();
    len<false, 4, 210, 1>(std::make_index_sequence<210>{});
    done();
}
#endif
#if ON(4)
void lists_of_4c()
{
    cases();
    len<false, 4, 420, 1>(std::make_index_sequence<205>{});
    done();
}
#endif
#if ON(5)
template <int... I>
void zigzag(seq<I...>)
{
    transforms<true>(seq<(5 + (I * 3 + I / 4) % 5)...>{});
}
void long_lists()
{
    cases();
    len<true, 4, 3, 41>(std::make_index_sequence<15>{});
    len<true, 5, 7, 223>(std::make_index_sequence<14>{});
    len<true, 6, 11, 1399>(std::make_index_sequence<11>{});
    zigzag(std::make_integer_sequence<int, 9>{});
    zigzag(std::make_integer_sequence<int, 14>{});
    zigzag(std::make_integer_sequence<int, 20>{});
    done();
    mc::sample("sort of 20 types of 3 sizes, all sublists and removals");
}
#endif
#if ON(6)
// sizes from one byte to beyond 2^32
template <int A, int B, int... C>
void sizes_abc(seq<C...>)
{
    (transforms<false>(seq<A, B, C>{}), ...);
}
template <int A, int... B>
void sizes_ab(seq<B...>)
{
    (transforms<true>(seq<A, B>{}), ...);
    (sizes_abc<A, B>(seq<24, 16, 20>{}), ...);
}
template <int... A>
void sizes_a(seq<A...> all)
{
    (transforms<true>(seq<A>{}), ...);
    (sizes_ab<A>(all), ...);
}
void sizes()
{
    cases();
    sizes_a(seq<5, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24>{});
    transforms<true>(seq<20, 19, 18, 17, 16, 15, 22, 23, 9, 7, 5>{});
    transforms<true>(seq<5, 16, 24, 17, 21, 20, 6, 19, 18, 15, 22>{});
    done();
}
#endif
#if ON(7)
// more than 256 types: positions and counts do not fit 8 bits
template <int... X>
void wide(seq<X...>)
{
    using TL = type_list<L<X>...>;
    constexpr size_t K = sizeof...(X);
    const V v{X...};
    g_case = "type_list of " + std::to_string(K) + " letters " + show(v);
    mc::beat();
    auto part = [&](size_t f, size_t n) { return V(v.begin() + f, v.begin() + f + n); };
    eqv("C30", "sublist<250, 7>", codes<Q, utils::sublist_t<TL, 250, 7>>::get(), part(250, 7));
    eqv("C30", "sublist<0, 256>", codes<Q, utils::sublist_t<TL, 0, 256>>::get(), part(0, 256));
    eqv("C30", "sublist<256, 1>", codes<Q, utils::sublist_t<TL, 256, 1>>::get(), part(256, 1));
    eqv("C30", "sublist<256, 0>", codes<Q, utils::sublist_t<TL, 256, 0>>::get(), V{});
    excl<TL, 0>(v);
    excl<TL, 256>(v);
    excl<TL, K - 1>(v);
    size_t lo = 0, hi = 0;
    for (size_t i = 1; i < K; ++i)
    {
        if (size_of(v[i]) < size_of(v[lo])) lo = i;
        if (size_of(v[i]) > size_of(v[hi])) hi = i;
    }
    eq("C30", "min_sizeof_index_v", utils::min_sizeof_index_v<TL>, lo);
    eq("C30", "max_sizeof_index_v", utils::max_sizeof_index_v<TL>, hi);
    eqv("C30", "list_of_predicate_compliant<small>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<small>>::get(),
        filter(v, [](int x) { return size_of(x) <= 2; }));
    eqv("C30", "list_of_predicate_compliant<always>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<always>>::get(), v);
    ++g_n;
    ++g_nt;
}
template <int P, int B, int... I>
void wide_spike(seq<I...>)
{
    wide(seq<(I == P ? B : 7 + I % 3)...>{});
}
template <int P, int B, int... I>
void wide_flat(seq<I...>)
{
    wide(seq<(I == P ? B : 8)...>{});
}
void wide_lists()
{
    cases();
    wide_spike<256, 5>(std::make_integer_sequence<int, 257>{});
    wide_flat<256, 20>(std::make_integer_sequence<int, 258>{});
    done();
}
#endif
#if ON(8)
// types without a size, a value or operations
template <int... X>
void odd(seq<X...>)
{
    using TL = type_list<L<X>...>;
    constexpr size_t K = sizeof...(X);
    const V v{X...};
    g_case = "type_list of letters " + show(v) +
             " (30 incomplete, 31 int[], 32 abstract, 33 void() const noexcept, 34 no operations, "
             "35 const volatile void, 36 int Incomplete::*)";
    mc::beat();
    auto same = [&](auto tag, int letter_)
    {
        using T = typename decltype(tag)::type;
        eqv("C30", "list_of_predicate_compliant<is_same, T>",
            codes<Q, typename TL::template list_of_predicate_compliant_t<std::is_same, T>>::get(),
            filter(v, [&](int x) { return x == letter_; }));
        eqv("C30", "list_of_predicate_compliant<either, T, const volatile void>",
            codes<Q, typename TL::template list_of_predicate_compliant<either, T, L<35>>::type>::get(),
            filter(v, [&](int x) { return x == letter_ || x == 35; }));
    };
    same(letter<30>{}, 30), same(letter<31>{}, 31), same(letter<32>{}, 32);
    same(letter<33>{}, 33), same(letter<34>{}, 34), same(letter<36>{}, 36);
    eqv("C30", "list_of_predicate_compliant<is_void>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<std::is_void>>::get(),
        filter(v, [](int x) { return x == 35; }));
    eqv("C30", "list_of_predicate_compliant<never>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<never>>::get(), {});
    eqv("C30", "list_of_predicate_compliant<always>",
        codes<Q, typename TL::template list_of_predicate_compliant_t<always>>::get(), v);
    subs<TL, K>(v, std::make_index_sequence<(K + 1) * (K + 1)>{});
    excls<TL>(v, std::make_index_sequence<K>{});
    ++g_n;
    g_nt += K > 1;
}
template <size_t K, size_t Code, size_t... I>
void odd_code(std::index_sequence<I...>)
{
    odd(seq<static_cast<int>(30 + Code / ipow(7, I) % 7)...>{});
}
template <size_t K, size_t Step, size_t... C>
void odd_len(std::index_sequence<C...>)
{
    (odd_code<K, C * Step>(std::make_index_sequence<K>{}), ...);
}
void odd_types()
{
    cases();
    odd_len<1, 1>(std::make_index_sequence<7>{});
    odd_len<2, 1>(std::make_index_sequence<49>{});
    odd_len<3, 5>(std::make_index_sequence<68>{});
    odd_len<5, 701>(std::make_index_sequence<24>{});
    done();
}
#endif
void reg()
{
#if ON(8)
    mc::add("odd_types", odd_types);
#endif
#if ON(7)
    mc::add("wide_lists", wide_lists);
#endif
#if ON(1)
    mc::add("short_lists", short_lists);
#endif
#if ON(2)
    mc::add("lists_of_4", lists_of_4);
#endif
#if ON(3)
    mc::add("lists_of_4b", lists_of_4b);
#endif
#if ON(4)
    mc::add("lists_of_4c", lists_of_4c);
#endif
#if ON(5)
    mc::add("long_lists", long_lists);
#endif
#if ON(6)
    mc::add("sizes", sizes);
#endif
}
#endif

// =============================== C31 =======================================
#if PART == 31
enum class Col : short
{
    red = -1,
    blue = 7
};
enum Plain : unsigned
{
    p0,
    p1
};
int g_a, g_b;
// letters of two alphabets; type index for grouping
template <int>
struct val;
#define VAL(N, ...)                        \
    template <>                            \
    struct val<N>                          \
    {                                      \
        static constexpr auto v = __VA_ARGS__; \
    };
VAL(0, 1)
VAL(1, 1u)
VAL(2, 2)
VAL(3, true)
VAL(4, 1L)     // absent from the first alphabet
VAL(5, INT_MIN)
VAL(6, INT_MAX)
VAL(7, -1)
VAL(8, UINT_MAX)
VAL(9, 0u)
VAL(10, static_cast<signed char>(-128))
VAL(11, 'a')
VAL(12, Col::red)
VAL(13, Col::blue)
VAL(14, p1)
VAL(15, &g_a)
VAL(16, &g_b)
VAL(17, nullptr)
VAL(18, LONG_MIN)
VAL(19, ULONG_MAX)
VAL(20, static_cast<short>(-1))
template <int N>
using VT = std::remove_const_t<decltype(val<N>::v)>;

template <class T, class U>
constexpr bool same_val(const T& a, const U& b)
{
    if constexpr (std::is_same_v<T, U>)
        return a == b;
    else
        return false;
}
template <auto X, int... N>
constexpr int vcode(seq<N...>)
{
    int r = -1;
    (void)(... || (same_val(X, val<N>::v) ? (r = N, true) : false));
    return r;
}
template <class Letters, class VL>
struct vcodes;
template <class Letters, decltype(auto)... X>
struct vcodes<Letters, value_list<X...>>
{
    static V get() { return V{vcode<X>(Letters{})...}; }
};
// index of the type of a letter among the letters
template <class T, int... N>
V letters_of_type(seq<N...>)
{
    V r;
    (void)(..., (std::is_same_v<T, VT<N>> ? (r.push_back(N), 0) : 0));
    return r;
}
template <class All, int A, class VL>
void by_value(const V& v)
{
    auto p = map(v, [](int x) { return x == A; });
    const size_t n = std::count(p.begin(), p.end(), true);
    const std::string w = fmt("for value %d: ", A);
    eq("C31", (w + "index_of").c_str(), VL::template index_of<val<A>::v>, find_first(v, p));
    eq("C31", (w + "count_of").c_str(), VL::template count_of<val<A>::v>, n);
    eq("C31", (w + "contains_v").c_str(), VL::template contains_v<val<A>::v>, n > 0);
    eq("C31", (w + "contains").c_str(), VL::template contains<val<A>::v>::value, n > 0);
}
template <class All, class T, class VL, int... X>
void by_type(const V& v, seq<X...>)
{
    const V of = letters_of_type<T>(All{});
    V sel;
    for (int x: v)
        if (std::count(of.begin(), of.end(), x)) sel.push_back(x);
    constexpr bool any = (false || ... || std::is_same_v<T, VT<X>>);
    eq("C31", "contains_type", VL::template contains_type<T>, any);
    // no value has one of these types
    eq("C31", "contains_type<const T>", VL::template contains_type<const T>, false);
    eq("C31", "contains_type<T&>", VL::template contains_type<T&>, false);
    eq("C31", "contains_type<T&&>", VL::template contains_type<T&&>, false);
    eq("C31", "contains_type<T*>", VL::template contains_type<T**>, false);
    eqv("C31", "list_all_of_t", vcodes<All, typename VL::template list_all_of_t<T>>::get(),
        sel);
    eqv("C31", "list_all_of", vcodes<All, typename VL::template list_all_of<T>::type>::get(),
        sel);
    if constexpr (any && !std::is_pointer_v<T> && !std::is_null_pointer_v<T>)
    {
        std::vector<T> vals;
        auto take = [&](auto x)
        {
            if constexpr (std::is_same_v<T, decltype(x)>) vals.push_back(x);
        };
        (take(val<X>::v), ...);
        constexpr T lo = VL::template min<T>, hi = VL::template max<T>;
        MC_CHECK("C31", lo == *std::min_element(vals.begin(), vals.end()), "min is %lld",
                 (long long)lo);
        MC_CHECK("C31", hi == *std::max_element(vals.begin(), vals.end()), "max is %lld",
                 (long long)hi);
    }
}
template <class All, class VL, int... X, size_t... I>
void each(const V& v, seq<X...>, std::index_sequence<I...>)
{
    const V got{vcode<VL::template at<I>>(All{})...};
    eqv("C31", "sequence of at<i>", got, v);
    const bool types[] = {std::is_same_v<typename VL::template at_t<I>, VT<X>>..., true};
    for (size_t i = 0; i < v.size(); ++i)
        MC_CHECK("C31", types[i], "at_t<%zu> is a different type", i);
    const bool types2[] = {
        std::is_same_v<std::remove_const_t<decltype(VL::template at<I>)>, VT<X>>..., true};
    for (size_t i = 0; i < v.size(); ++i)
        MC_CHECK("C31", types2[i], "at<%zu> has a different type", i);
}
template <class... T>
struct Types
{
};
template <class All, class VL, class S, int... A, class... T>
void ask(const V& v, seq<A...>, S s, Types<T...>)
{
    (by_value<All, A, VL>(v), ...);
    (by_type<All, T, VL>(v, s), ...);
}
template <class All, class Ts, int... X>
void queries(seq<X...> s)
{
    using VL = value_list<val<X>::v...>;
    const V v{X...};
    g_case = "value_list of letters " + show(v) +
             " (0: 1, 1: 1u, 2: 2, 3: true, 4: 1L, 5: INT_MIN, 6: INT_MAX, 7: -1, 8: "
             "UINT_MAX, 9: 0u, ...)";
    mc::beat();
    eq("C31", "size", VL::size, v.size());
    each<All, VL>(v, s, std::make_index_sequence<sizeof...(X)>{});
    ask<All, VL>(v, All{}, s, Ts{});
    bool same = true, dup = false;
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            same = same && v[i] == v[j];
            dup = dup || v[i] == v[j];
        }
    eq("C31", "is_same_v", VL::is_same_v, same);
    eq("C31", "is_same", VL::is_same::value, same);
    eq("C31", "contains_copies", VL::contains_copies, dup);
    ++g_n;
    g_nt += v.size() > 1;
}
template <class All, class Ts, size_t B, size_t K, size_t Code, int... A, size_t... I>
void one_code(seq<A...>, std::index_sequence<I...>)
{
    constexpr int al[] = {A...};
    queries<All, Ts>(seq<al[Code / ipow(B, I) % B]...>{});
}
template <class All, class Ts, size_t K, size_t Off, size_t Step, class Al, size_t... C>
void len(Al al, std::index_sequence<C...>)
{
    (one_code<All, Ts, Al::size(), K, Off + C * Step>(al, std::make_index_sequence<K>{}),
     ...);
}
using A1 = seq<0, 1, 2, 3>;
using All1 = seq<0, 1, 2, 3, 4>;
using T1 = Types<int, unsigned, bool, long, double>;
using A2 = seq<5, 6, 7, 8, 9, 11>;
using All2 = seq<5, 6, 7, 8, 9, 10, 11>;
using T2 = Types<int, unsigned, char, signed char>;
using A3 = seq<12, 13, 14, 15, 16, 17, 18, 19, 20, 10>;
using All3 = seq<12, 13, 14, 15, 16, 17, 18, 19, 20, 10>;
using T3 = Types<Col, Plain, int*, std::nullptr_t, long, unsigned long, short, signed char>;
#if ON(1)
void short_lists()
{
    cases();
    len<All1, T1, 0, 0, 1>(A1{}, std::make_index_sequence<1>{});
    len<All1, T1, 1, 0, 1>(A1{}, std::make_index_sequence<4>{});
    len<All1, T1, 2, 0, 1>(A1{}, std::make_index_sequence<16>{});
    len<All1, T1, 3, 0, 1>(A1{}, std::make_index_sequence<64>{});
    done();
}
#endif
#if ON(2)
void lists_of_4()
{
    cases();
    len<All1, T1, 4, 0, 1>(A1{}, std::make_index_sequence<128>{});
    done();
}
#endif
#if ON(3)
void lists_of_4b()
{
    cases();
    len<All1, T1, 4, 128, 1>(A1{}, std::make_index_sequence<128>{});
    done();
}
#endif
#if ON(4)
void extremes()
{
    cases();
    len<All2, T2, 1, 0, 1>(A2{}, std::make_index_sequence<6>{});
    len<All2, T2, 2, 0, 1>(A2{}, std::make_index_sequence<36>{});
    len<All2, T2, 3, 0, 1>(A2{}, std::make_index_sequence<108>{});
    done();
}
#endif
#if ON(6)
// the whole range of every integral type: lists of 1..3 of these values
template <class T>
constexpr T edge(int i)
{
    using Lim = std::numeric_limits<T>;
    switch (i)
    {
        case 0: return Lim::min();
        case 1: return static_cast<T>(Lim::max() / 2 + (Lim::max() > 1));
        case 2: return Lim::max();
        case 3: return static_cast<T>(Lim::min() < 0 ? -1 : 1);
        default: return static_cast<T>(Lim::max() / 2);
    }
}
enum class E64 : unsigned long long { zero };
enum class E8 : signed char { zero };
enum E32u : unsigned { e32u_zero };
template <class T, bool = std::is_enum_v<T>>
struct under { using type = T; };
template <class T>
struct under<T, true> { using type = std::underlying_type_t<T>; };
template <class T, int... I>
void range_list(seq<I...>)
{
    using U = typename under<T>::type;
    using VL = value_list<true, static_cast<T>(edge<U>(I))..., &g_a>;
    using ML = typename VL::template list_all_of_t<T>;
    constexpr U in[] = {edge<U>(I)...};
    g_case = fmt("value_list of size %zu of values of a type of %zu bytes, edges ",
                 sizeof...(I), sizeof(T)) + show(V{I...});
    mc::beat();
    U lo = in[0], hi = in[0];
    for (U x: in)
    {
        lo = x < lo ? x : lo;
        hi = hi < x ? x : hi;
    }
    MC_CHECK("C31", VL::template min<T> == static_cast<T>(lo), "min is %lld",
             (long long)VL::template min<T>);
    MC_CHECK("C31", VL::template max<T> == static_cast<T>(hi), "max is %lld",
             (long long)VL::template max<T>);
    {
        eq("C31", "size of list_all_of", ML::size, sizeof...(I));
        bool same = true;
        for (U x: in) same = same && x == in[0];
        eq("C31", "is_same_v of list_all_of", ML::is_same_v, same);
        const size_t n = std::count(std::begin(in), std::end(in), in[0]);
        constexpr T first = static_cast<T>(in[0]);
        eq("C31", "count_of", VL::template count_of<first>, n);
        eq("C31", "index_of", VL::template index_of<first>, 1);
    }
    ++g_n;
    g_nt += sizeof...(I) > 1;
}
template <class T, size_t... C>
void range_of(std::index_sequence<C...>)
{
    (range_list<T>(seq<int(C)>{}), ...);
    (range_list<T>(seq<int(C), 0>{}), ...);
    (range_list<T>(seq<int(C), 1>{}), ...);
    (range_list<T>(seq<int(C), 2>{}), ...);
    (range_list<T>(seq<int(C), 3>{}), ...);
    (range_list<T>(seq<int(C), 4>{}), ...);
    (range_list<T>(seq<2, int(C), 0>{}), ...);
    (range_list<T>(seq<int(C), 2, 0>{}), ...);
    (range_list<T>(seq<0, 2, int(C)>{}), ...);
    (range_list<T>(seq<1, int(C), 4>{}), ...);
}
void ranges()
{
    cases();
    using S = std::make_index_sequence<5>;
    range_of<signed char>(S{});
    range_of<unsigned char>(S{});
    range_of<char>(S{});
    range_of<short>(S{});
    range_of<unsigned short>(S{});
    range_of<int>(S{});
    range_of<unsigned>(S{});
    range_of<long>(S{});
    range_of<unsigned long>(S{});
    range_of<long long>(S{});
    range_of<unsigned long long>(S{});
    range_of<char16_t>(S{});
    range_of<char32_t>(S{});
    range_of<wchar_t>(S{});
    range_of<E64>(S{});
    range_of<E8>(S{});
    range_of<E32u>(S{});
    done();
}
#endif
#if ON(5)
template <int... I>
void zigzag(seq<I...>)
{
    constexpr int al[] = {0, 1, 2, 3};
    queries<All1, T1>(seq<al[(I * 3 + I / 4) % 4]...>{});
}
void kinds()
{
    cases();
    len<All2, T2, 3, 108, 1>(A2{}, std::make_index_sequence<108>{});
    len<All3, T3, 1, 0, 1>(A3{}, std::make_index_sequence<10>{});
    len<All3, T3, 2, 0, 1>(A3{}, std::make_index_sequence<100>{});
    len<All3, T3, 3, 7, 31>(A3{}, std::make_index_sequence<32>{});
    zigzag(std::make_integer_sequence<int, 12>{});
    zigzag(std::make_integer_sequence<int, 30>{});
    done();
    mc::sample("value_list of {INT_MIN, 0u, -1}: min<int>, max<unsigned>, ...");
}
#endif
#if ON(7)
// more than 256 values
template <class VL>
struct plain;
template <decltype(auto)... X>
struct plain<value_list<X...>>
{
    static V get() { return V{static_cast<int>(X)...}; }
};
template <bool All, int... X>
void wide(seq<X...>)
{
    using VL = value_list<X...>;
    constexpr size_t K = sizeof...(X);
    const V v{X...};
    g_case = "value_list of " + std::to_string(K) + " values of int " + show(v);
    mc::beat();
    eq("C31", "size", VL::size, K);
    auto at = [&](auto i)
    {
        constexpr size_t I = decltype(i)::value;
        if constexpr (I < K)
        {
            eqv("C31", fmt("at<%zu>", I).c_str(), V{VL::template at<I>}, V{v[I]});
            MC_CHECK("C31", (std::is_same_v<typename VL::template at_t<I>, int>), "at_t<%zu>", I);
        }
    };
    at(std::integral_constant<size_t, 0>{});
    at(std::integral_constant<size_t, 254>{});
    at(std::integral_constant<size_t, 255>{});
    at(std::integral_constant<size_t, 256>{});
    at(std::integral_constant<size_t, 257>{});
    at(std::integral_constant<size_t, K - 1>{});
    auto count = [&](auto x)
    {
        constexpr int A = decltype(x)::value;
        const std::string w = fmt("for value %d: ", A);
        const size_t n = std::count(v.begin(), v.end(), A);
        eq("C31", (w + "count_of").c_str(), VL::template count_of<A>, n);
        eq("C31", (w + "contains_v").c_str(), VL::template contains_v<A>, n > 0);
    };
    count(std::integral_constant<int, 7>{});
    count(std::integral_constant<int, 256>{});
    eq("C31", "index_of 256", VL::template index_of<256>,
       std::find(v.begin(), v.end(), 256) - v.begin());
    eq("C31", "index_of -1", VL::template index_of<-1>, K);
    bool same = true;
    for (int x: v) same = same && x == v[0];
    eq("C31", "is_same_v", VL::is_same_v, same);
    eq("C31", "contains_type<int>", VL::template contains_type<int>, true);
    eq("C31", "contains_type<long>", VL::template contains_type<long>, false);
    if constexpr (All)
        eqv("C31", "list_all_of_t", plain<typename VL::template list_all_of_t<int>>::get(), v);
    ++g_n;
    ++g_nt;
}
template <bool All, int P, int A, int B, int... I>
void wide_spike(seq<I...>)
{
    wide<All>(seq<(I == P ? B : A)...>{});
}
void wide_lists()
{
    cases();
    wide<false>(std::make_integer_sequence<int, 258>{});
    wide_spike<true, -1, 7, 0>(std::make_integer_sequence<int, 256>{});
    wide_spike<false, 256, 7, 256>(std::make_integer_sequence<int, 257>{});
    done();
}
#endif
void reg()
{
#if ON(7)
    mc::add("wide_lists", wide_lists);
#endif
#if ON(1)
    mc::add("short_lists", short_lists);
#endif
#if ON(2)
    mc::add("lists_of_4", lists_of_4);
#endif
#if ON(3)
    mc::add("lists_of_4b", lists_of_4b);
#endif
#if ON(4)
    mc::add("extremes", extremes);
#endif
#if ON(5)
    mc::add("kinds", kinds);
#endif
#if ON(6)
    mc::add("ranges", ranges);
#endif
}
#endif

// =============================== C32 =======================================
#if PART == 32
using Q = seq<30, 1, 2, 3, 10, 11, 12, 34, 33>;
constexpr int kAl[] = {30, 1, 2, 3, 10, 11, 12, 34, 33};
// a list is coded as base-B digits with a leading 1 digit for its length
template <int... N>
using TLof = type_list<L<N>...>;

template <int N>
struct num
{
    // letter n as a value: types alternate
    static constexpr auto v = []
    {
        if constexpr (N % 3 == 0)
            return N;
        else if constexpr (N % 3 == 1)
            return static_cast<long>(N);
        else
            return static_cast<char>(N);
    }();
};
template <auto X>
constexpr int ncode()
{
    if constexpr (std::is_same_v<decltype(X), int>)
        return X % 3 == 0 ? X : -1;
    else if constexpr (std::is_same_v<decltype(X), long>)
        return X % 3 == 1 ? static_cast<int>(X) : -1;
    else if constexpr (std::is_same_v<decltype(X), char>)
        return X % 3 == 2 ? X : -1;
    else
        return -1;
}
template <class T>
struct ncodes
{
    static V get() { return V{-1000}; }
};
template <decltype(auto)... X>
struct ncodes<value_list<X...>>
{
    static V get() { return V{ncode<X>()...}; }
};
template <class T>
struct tcodes
{
    static V get() { return V{-1000}; }
};
template <class... T>
struct tcodes<type_list<T...>>
{
    static V get() { return V{code_of<T>(Q{})...}; }
};
template <int... N>
using VLof = value_list<num<N>::v...>;

template <int... N>
V letters(seq<N...>)
{
    return V{N...};
}
template <class S>
struct lists;
template <int... N>
struct lists<seq<N...>>
{
    using T = TLof<kAl[N % 9]...>;
    using N_ = VLof<N...>;
    static V t() { return V{kAl[N % 9]...}; }
    static V n() { return V{N...}; }
};
template <class... S>
void concat()
{
    g_case = "concatenate of";
    V wt, wn;
    auto add = [&](const V& t, const V& n)
    {
        g_case += " " + show(n);
        wt.insert(wt.end(), t.begin(), t.end());
        wn.insert(wn.end(), n.begin(), n.end());
    };
    (add(lists<S>::t(), lists<S>::n()), ...);
    mc::beat();
    eqv("C32", "type lists: result", tcodes<utils::concatenate_t<typename lists<S>::T...>>::get(),
        wt);
    eqv("C32", "value lists: result",
        ncodes<utils::concatenate_t<typename lists<S>::N_...>>::get(), wn);
    eqv("C32", "type lists: struct",
        tcodes<typename utils::concatenate<typename lists<S>::T...>::type>::get(), wt);
    g_n += 2;
    g_nt += 2 * (wn.size() > 1);
}
// the 13 lists of length 0..2 over 3 letters, shifted by 3 per position
template <size_t C, size_t Pos>
constexpr auto small_list()
{
    constexpr int b = static_cast<int>(Pos % 3) * 3;
    if constexpr (C == 0)
        return seq<>{};
    else if constexpr (C < 4)
        return seq<b + static_cast<int>(C) - 1>{};
    else
        return seq<b + static_cast<int>(C - 4) / 3, b + static_cast<int>(C - 4) % 3>{};
}
template <size_t K, size_t Code, size_t... I>
void concat_code(std::index_sequence<I...>)
{
    concat<decltype(small_list<Code / ipow(13, I) % 13, I>())...>();
}
template <size_t K, size_t Step, size_t... C>
void concat_len(std::index_sequence<C...>)
{
    (concat_code<K, C * Step>(std::make_index_sequence<K>{}), ...);
}
#if ON(1)
void concatenation()
{
    cases();
    concat_len<1, 1>(std::make_index_sequence<13>{});
    concat_len<2, 1>(std::make_index_sequence<169>{});
    concat_len<3, 5>(std::make_index_sequence<439>{});
    concat_len<4, 211>(std::make_index_sequence<135>{});
    concat_len<5, 2801>(std::make_index_sequence<132>{});
    concat<seq<0, 1, 2, 3, 4, 5, 6, 7, 8>, seq<>, seq<8, 7, 6, 5, 4, 3, 2, 1, 0>, seq<4>>();
    done();
}
#endif

template <class T>
struct rows
{
    static std::vector<V> t() { return {V{-1001}}; }
    static std::vector<V> n() { return {V{-1001}}; }
};
template <class... T>
struct rows<type_list<T...>>
{
    static std::vector<V> t() { return {tcodes<T>::get()...}; }
    static std::vector<V> n() { return {ncodes<T>::get()...}; }
};
std::string show(const std::vector<V>& r)
{
    std::string s;
    for (auto& x: r) s += ::show(x) + " ";
    return s;
}
std::vector<V> ref_product(const std::vector<V>& l)
{
    std::vector<V> r{{}};
    for (const V& x: l)
    {
        std::vector<V> next;
        for (const V& head: r)
            for (int e: x)
            {
                V h = head;
                h.push_back(e);
                next.push_back(h);
            }
        r = next;
    }
    return r;
}
// the alias takes its first list separately: pack expansion into it is not portable
template <class A, class... B>
struct prod
{
    using alias_t = utils::cartesian_product_t<A, B...>;
    using struct_t = typename utils::cartesian_product<A, B...>::type;
};
template <class S, class... R>
void product()
{
    g_case = "cartesian_product of";
    const std::vector<V> lt{lists<S>::t(), lists<R>::t()...}, ln{lists<S>::n(), lists<R>::n()...};
    for (auto& x: ln) g_case += " " + ::show(x);
    mc::beat();
    const auto wt = ref_product(lt), wn = ref_product(ln);
    const auto gt = rows<typename prod<typename lists<S>::T, typename lists<R>::T...>::alias_t>::t();
    const auto gn = rows<typename prod<typename lists<S>::N_, typename lists<R>::N_...>::alias_t>::n();
    MC_CHECK("C32", gt == wt, "of type lists: %s, expected %s", show(gt).c_str(),
             show(wt).c_str());
    MC_CHECK("C32", gn == wn, "of value lists: %s, expected %s", show(gn).c_str(),
             show(wn).c_str());
    const auto g2 =
        rows<typename prod<typename lists<S>::T, typename lists<R>::T...>::struct_t>::t();
    MC_CHECK("C32", g2 == wt, "struct and alias differ");
    g_n += 2;
    g_nt += 2 * (wt.size() > 1);
}
// lists of length 0..3 with distinct letters per position; kind 4: a repeated
// letter
template <size_t C, size_t Pos>
constexpr auto plist()
{
    constexpr int b = static_cast<int>(Pos * 4);
    if constexpr (C == 0)
        return seq<b>{};
    else if constexpr (C == 1)
        return seq<b, b + 1>{};
    else if constexpr (C == 2)
        return seq<b, b + 1, b + 2>{};
    else if constexpr (C == 3)
        return seq<b + 1, b + 1>{};
    else
        return seq<>{};
}
template <size_t K, size_t Code, size_t... I>
void product_code(std::index_sequence<I...>)
{
    product<decltype(plist<Code / ipow(5, I) % 5, I>())...>();
}
template <size_t K, size_t Off, size_t Step, size_t... C>
void product_len(std::index_sequence<C...>)
{
    (product_code<K, Off + C * Step>(std::make_index_sequence<K>{}), ...);
}
#if ON(2)
void products()
{
    cases();
    product_len<2, 0, 1>(std::make_index_sequence<25>{});
    product_len<3, 0, 1>(std::make_index_sequence<125>{});
    product_len<4, 0, 7>(std::make_index_sequence<89>{});
    product_len<5, 2, 61>(std::make_index_sequence<51>{});
    product<seq<0, 1, 2, 3, 4, 5, 6, 7, 8>, seq<8, 7, 6, 5, 4, 3, 2, 1, 0>>();
    product<seq<4>, seq<5>, seq<6>, seq<0>, seq<1>>();
    product<seq<4, 5>, seq<4, 5>, seq<4, 5>, seq<4, 5>>();
    product<seq<6, 4>, seq<5>, seq<>>();
    product<seq<0, 1>, seq<2, 3>, seq<0, 2>, seq<1, 3>, seq<0, 3>, seq<1, 2>>();
    done();
    mc::sample("cartesian_product of [0 1 2] [4 5] [9 9]");
}
#endif
#if ON(3)
// more than 256 elements or combinations
template <int Start, int... I>
constexpr auto run(seq<I...>)
{
    return seq<(Start + I * 5) % 9 ...>{};
}
template <int Start, int N>
using run_t = decltype(run<Start>(std::make_integer_sequence<int, N>{}));
void wide()
{
    cases();
    concat<run_t<0, 256>>();
    concat<run_t<0, 255>, run_t<4, 1>>();
    concat<run_t<1, 256>, run_t<2, 257>>();
    concat<run_t<1, 100>, seq<>, run_t<2, 100>, run_t<3, 57>>();
    product<run_t<0, 17>, run_t<3, 17>>();
    product<run_t<0, 16>, run_t<3, 16>>();
    product<run_t<0, 257>, run_t<1, 1>>();
    product<run_t<2, 1>, run_t<1, 257>>();
    product<seq<0, 1>, seq<2, 3>, seq<0, 2>, seq<1, 3>, seq<0, 3>, seq<1, 2>, seq<4, 5>, seq<6, 7>,
            seq<7, 8>>();
    product<run_t<0, 8>, run_t<3, 4>, run_t<2, 8>>();
    product<run_t<0, 300>, seq<>>();
    done();
}
#endif
void reg()
{
#if ON(3)
    mc::add("wide", wide);
#endif
#if ON(1)
    mc::add("concatenation", concatenation);
#endif
#if ON(2)
    mc::add("products", products);
#endif
}
#endif
}  // namespace
MC_MAIN(reg)
