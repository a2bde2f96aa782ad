// C33..C36: instantiations of the compile-time traits over enumerated types.
#include <mc.h>

#if PART == 33 || PART == 34
#include <utils/function_traits.h>
#elif PART == 35
#include <utils/detector.h>
#else
#include <utils/padding_checker.h>
#endif

#include <cstddef>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

using std::size_t;
using mc::fmt;
#ifndef SHARD
#define SHARD 0
#endif
#define ON(n) (SHARD == 0 || SHARD == n)

namespace
{
unsigned long long g_n, g_nt;
std::string g_case;
void cases()
{
    g_n = g_nt = 0;
    mc::S().current = [] { return g_case; };
}
void done()
{
    mc::count("evaluations", g_n);
    mc::count("distinct_nontrivial", g_nt);
}

// the 24 qualifier combinations: number = const + 2 volatile + 4 reference (0: none,
// 1: &, 2: &&) + 12 noexcept
constexpr bool q_c(int q) { return q & 1; }
constexpr bool q_v(int q) { return q & 2; }
constexpr int q_r(int q) { return q / 4 % 3; }
constexpr bool q_n(int q) { return q >= 12; }
constexpr int q_of(bool c, bool v, int r, bool n) { return c + 2 * v + 4 * r + 12 * n; }
[[maybe_unused]] std::string q_name(int q)
{
    const char* refs[] = {"", " &", " &&"};
    return std::string(q_c(q) ? " const" : "") + (q_v(q) ? " volatile" : "") + refs[q_r(q)] +
           (q_n(q) ? " noexcept" : "");
}
#define EACH_QUALIFIER(F)              \
    F(0, )                             \
    F(1, const)                        \
    F(2, volatile)                     \
    F(3, const volatile)               \
    F(4, &)                            \
    F(5, const&)                       \
    F(6, volatile&)                    \
    F(7, const volatile&)              \
    F(8, &&)                           \
    F(9, const&&)                      \
    F(10, volatile&&)                  \
    F(11, const volatile&&)            \
    F(12, noexcept)                    \
    F(13, const noexcept)              \
    F(14, volatile noexcept)           \
    F(15, const volatile noexcept)     \
    F(16, &noexcept)                   \
    F(17, const& noexcept)             \
    F(18, volatile& noexcept)          \
    F(19, const volatile& noexcept)    \
    F(20, &&noexcept)                  \
    F(21, const&& noexcept)            \
    F(22, volatile&& noexcept)         \
    F(23, const volatile&& noexcept)
}  // namespace

// =============================== C33 ============================================
#if PART == 33
namespace ft = utils::function_traits;
namespace
{
template <int Q, class R, class... A>
struct fn;
#define MAKE(n, q)                  \
    template <class R, class... A>  \
    struct fn<n, R, A...>           \
    {                               \
        using type = R(A...) q;     \
    };
EACH_QUALIFIER(MAKE)
#undef MAKE
template <int Q, class R, class... A>
using fn_t = typename fn<Q, R, A...>::type;

struct Obj
{
    int x;
};
enum class En : char
{
    a
};
template <class... A>
struct P
{
};
using utils::type_list;

template <class... A>
std::string pname()
{
    return fmt("%zu parameters", sizeof...(A));
}

template <int Q, class R, class... A>
void function_type(int ri, int pi)
{
    using F = fn_t<Q, R, A...>;
    g_case = fmt("function type number %d (return type %d, parameter list %d) with qualifiers"
                 "'%s'",
                 Q, ri, pi, q_name(Q).c_str());
    mc::beat();
    const struct
    {
        const char* what;
        bool got, want;
    } q[] = {
        {"has_const_qualifier", ft::has_const_qualifier_v<F>, q_c(Q)},
        {"has_volatile_qualifier", ft::has_volatile_qualifier_v<F>, q_v(Q)},
        {"has_lvalue_reference_qualifier", ft::has_lvalue_reference_qualifier_v<F>,
         q_r(Q) == 1},
        {"has_rvalue_reference_qualifier", ft::has_rvalue_reference_qualifier_v<F>,
         q_r(Q) == 2},
        {"has_noexcept_qualifier", ft::has_noexcept_qualifier_v<F>, q_n(Q)},
        {"has_const_qualifier::value", ft::has_const_qualifier<F>::value, q_c(Q)},
        {"has_volatile_qualifier::value", ft::has_volatile_qualifier<F>::value, q_v(Q)},
        {"has_lvalue_reference_qualifier::value",
         ft::has_lvalue_reference_qualifier<F>::value, q_r(Q) == 1},
        {"has_rvalue_reference_qualifier::value",
         ft::has_rvalue_reference_qualifier<F>::value, q_r(Q) == 2},
        {"has_noexcept_qualifier::value", ft::has_noexcept_qualifier<F>::value, q_n(Q)},
        {"return_type", std::is_same_v<ft::return_type_t<F>, R>, true},
        {"return_type::type", std::is_same_v<typename ft::return_type<F>::type, R>, true},
        {"params_list", std::is_same_v<ft::params_list_t<F>, type_list<A...>>, true},
        {"params_list::type",
         std::is_same_v<typename ft::params_list<F>::type, type_list<A...>>, true},
        {"remove_const_qualifier",
         std::is_same_v<typename ft::remove_const_qualifier<F>::type,
                        fn_t<q_of(false, q_v(Q), q_r(Q), q_n(Q)), R, A...>>,
         true},
        {"remove_volatile_qualifier",
         std::is_same_v<typename ft::remove_volatile_qualifier<F>::type,
                        fn_t<q_of(q_c(Q), false, q_r(Q), q_n(Q)), R, A...>>,
         true},
        {"remove_reference_qualifier",
         std::is_same_v<typename ft::remove_reference_qualifier<F>::type,
                        fn_t<q_of(q_c(Q), q_v(Q), 0, q_n(Q)), R, A...>>,
         true},
        {"remove_noexcept_qualifier",
         std::is_same_v<typename ft::remove_noexcept_qualifier<F>::type,
                        fn_t<q_of(q_c(Q), q_v(Q), q_r(Q), false), R, A...>>,
         true},
        {"remove_all_qualifiers",
         std::is_same_v<ft::remove_all_qualifiers_t<F>, R(A...)>, true},
        {"remove_all_qualifiers::type",
         std::is_same_v<typename ft::remove_all_qualifiers<F>::type, R(A...)>, true},
        {"is_invocable of the function type", ft::is_invocable_v<F>, true},
        {"signature of the function type", std::is_same_v<ft::signature_t<F>, F>, true},
        {"is_invocable of a pointer to a method", ft::is_invocable_v<F Obj::*>, true},
        {"is_invocable::value of a pointer to a method", ft::is_invocable<F Obj::*>::value,
         true},
        {"member_signature", std::is_same_v<ft::member_signature_t<F Obj::*>, F>, true},
        {"member_signature::type",
         std::is_same_v<typename ft::member_signature<F Obj::*>::type, F>, true},
    };
    for (auto& x: q)
        MC_CHECK("C33", x.got == x.want, "%s is %s", x.what,
                 x.want != x.got && x.want ? "wrong or false" : "true");
    g_n += sizeof q / sizeof *q;
    g_nt += sizeof q / sizeof *q;
    if constexpr (Q % 12 == 0)
    {
        MC_CHECK("C33", ft::is_invocable_v<F*>, "is_invocable of a pointer to it is false");
        MC_CHECK("C33", ft::is_invocable<F*>::value,
                 "is_invocable::value of a pointer to it is false");
        g_n += 2;
        g_nt += 2;
    }
}
// what functions give and take
template <class R, int... Q, class... A>
void with(std::integer_sequence<int, Q...>, P<A...>, int ri, int pi)
{
    (function_type<Q, R, A...>(ri, pi), ...);
}
template <class R>
void with_return(int ri)
{
    using Qs = std::make_integer_sequence<int, 24>;
    int pi = 0;
    with<R>(Qs{}, P<>{}, ri, pi++);
    with<R>(Qs{}, P<int>{}, ri, pi++);
    with<R>(Qs{}, P<const int&>{}, ri, pi++);
    with<R>(Qs{}, P<int&&, char>{}, ri, pi++);
    with<R>(Qs{}, P<char, int&&>{}, ri, pi++);
    with<R>(Qs{}, P<int, char, double>{}, ri, pi++);
    with<R>(Qs{}, P<void (*)(int) noexcept, int Obj::*>{}, ri, pi++);
    with<R>(Qs{}, P<Obj, Obj*, const volatile Obj&, Obj&&>{}, ri, pi++);
    with<R>(Qs{}, P<int, int, int, int, int, int, int, int, int>{}, ri, pi++);
    with<R>(Qs{}, P<R (*)(), P<>>{}, ri, pi++);
    with<R>(Qs{},
            P<int, char&, const double&&, Obj, int*, long, void (&)(), En, float, const Obj&,
              unsigned char, P<int>, int Obj::*, short, bool, char, int&&>{},
            ri, pi++);
}
#if ON(1)
void functions_1()
{
    cases();
    with_return<void>(0);
    with_return<int>(1);
    with_return<const int&>(2);
    with_return<int&&>(3);
    done();
}
#endif
#if ON(2)
void functions_2()
{
    cases();
    with_return<Obj>(4);
    with_return<const Obj>(5);
    with_return<void (*)(int) noexcept>(6);
    with_return<int (&)[3]>(7);
    done();
    mc::sample("int(int&&, char) const volatile && noexcept");
}
#endif

// ---- functors and classification ------------------------------------------------------
#if ON(3)
template <int Q>
struct Functor;
template <int Q>
struct Private;
template <int Q>
struct Final;
#define MAKE(n, q)                                    \
    template <>                                       \
    struct Functor<n>                                 \
    {                                                 \
        long operator()(int&, Obj&&) q;               \
        int data;                                     \
    };                                                \
    template <>                                       \
    struct Private<n>                                 \
    {                                                 \
       private:                                       \
        long operator()(int&, Obj&&) q;               \
    };                                                \
    template <>                                       \
    struct Final<n> final                             \
    {                                                 \
        long operator()(int&, Obj&&) q;               \
    };
EACH_QUALIFIER(MAKE)
#undef MAKE
template <int Q>
struct Derived : Functor<Q>
{
};
template <int Q>
struct Hidden : private Functor<Q>
{
};
template <int Q>
struct Hides : Functor<Q>
{
    void operator()();
};

void yes(const char* what, bool got, bool want)
{
    g_case = what;
    mc::beat();
    MC_CHECK("C33", got == want, "is %s", got ? "true" : "false");
    ++g_n;
    ++g_nt;
}
template <class T>
void functor(const char* what, bool simple)
{
    yes((std::string("is_simple_functor of ") + what).c_str(), ft::is_simple_functor_v<T>,
        simple);
    yes((std::string("is_simple_functor::value of ") + what).c_str(),
        ft::is_simple_functor<T>::value, simple);
    yes((std::string("is_invocable of ") + what).c_str(), ft::is_invocable_v<T>, simple);
    yes((std::string("is_invocable::value of ") + what).c_str(), ft::is_invocable<T>::value,
        simple);
    if constexpr (std::is_class_v<T> || std::is_union_v<T>)
    {
        yes((std::string("is_simple_functor of const ") + what).c_str(),
            ft::is_simple_functor_v<const T>, simple);
        yes((std::string("is_invocable of const ") + what).c_str(),
            ft::is_invocable_v<const T>, simple);
        yes((std::string("is_invocable of a pointer to ") + what).c_str(),
            ft::is_invocable_v<T*>, false);
    }
}
template <class T, class F>
void sig(const char* what)
{
    yes((std::string("functor_signature of ") + what).c_str(),
        std::is_same_v<ft::functor_signature_t<T>, F>, true);
    yes((std::string("signature of ") + what).c_str(), std::is_same_v<ft::signature_t<T>, F>,
        true);
    yes((std::string("functor_signature::type of ") + what).c_str(),
        std::is_same_v<typename ft::functor_signature<T>::type, F>, true);
    yes((std::string("signature::type of ") + what).c_str(),
        std::is_same_v<typename ft::signature<T>::type, F>, true);
    yes((std::string("return type of ") + what).c_str(),
        std::is_same_v<ft::return_type_t<ft::signature_t<T>>,
                       ft::return_type_t<F>>,
        true);
}
template <int Q>
void functors()
{
    const std::string n = "functor with operator()" + q_name(Q);
    functor<Functor<Q>>(n.c_str(), true);
    sig<Functor<Q>, fn_t<Q, long, int&, Obj&&>>(n.c_str());
    sig<const Functor<Q>, fn_t<Q, long, int&, Obj&&>>(("const " + n).c_str());
    functor<Derived<Q>>(("class derived from " + n).c_str(), true);
    sig<Derived<Q>, fn_t<Q, long, int&, Obj&&>>(("class derived from " + n).c_str());
    functor<Final<Q>>(("final " + n).c_str(), true);
    sig<Final<Q>, fn_t<Q, long, int&, Obj&&>>(("final " + n).c_str());
    functor<Private<Q>>(("private " + n).c_str(), false);
    functor<Hidden<Q>>(("class privately derived from " + n).c_str(), false);
    functor<Hides<Q>>(("class hiding " + n).c_str(), true);
    sig<Hides<Q>, void()>(("class hiding " + n).c_str());
}
template <int... Q>
void all_functors(std::integer_sequence<int, Q...>)
{
    (functors<Q>(), ...);
}
struct Overloaded
{
    void operator()();
    void operator()(int);
};
struct Generic
{
    template <class T>
    void operator()(T);
};
struct BothKinds
{
    template <class T>
    void operator()(T);
    void operator()(int);
};
struct TwoBases : Functor<0>, Functor<1>
{
};
struct Deleted
{
    void operator()() = delete;
};
struct Virtual
{
    virtual int operator()(char) const noexcept = 0;
    virtual ~Virtual();
};
struct Defaulted
{
    int operator()(int = 3, char = 4) const;
};
struct Data
{
    void (*call)();
    Functor<0> f;
};
struct Converts
{
    using F = void (*)(int);
    operator F() const;
};
union Uni
{
    int a;
    int operator()(float);
};
template <class T>
struct Tmpl
{
    T operator()(T) const;
};
struct Incomplete;
// many parameters
template <class R, int... Q, size_t... I>
void many(std::integer_sequence<int, Q...>, std::index_sequence<I...>)
{
    (function_type<Q, R, std::integral_constant<size_t, I>...>(99, sizeof...(I)), ...);
}
void kinds()
{
    cases();
    many<int>(std::integer_sequence<int, 0, 5, 12, 23>{}, std::make_index_sequence<32>{});
    many<int>(std::integer_sequence<int, 0, 23>{}, std::make_index_sequence<127>{});
    many<void>(std::integer_sequence<int, 0, 13>{}, std::make_index_sequence<256>{});
    many<void>(std::integer_sequence<int, 0, 22>{}, std::make_index_sequence<257>{});
    all_functors(std::make_integer_sequence<int, 24>{});
    int k = 0;
    auto l1 = [](int, char) {};
    auto l2 = [&k](const Obj&) mutable noexcept -> int& { return k; };
    auto l3 = [k]() { return k; };
    auto l4 = [](auto) {};
    auto l5 = [](int, auto...) {};
    functor<decltype(l1)>("lambda", true);
    sig<decltype(l1), void(int, char) const>("lambda");
    functor<decltype(l2)>("mutable noexcept lambda", true);
    sig<decltype(l2), int&(const Obj&) noexcept>("mutable noexcept lambda");
    functor<decltype(l3)>("capturing lambda", true);
    sig<decltype(l3), int() const>("capturing lambda");
    functor<decltype(l4)>("generic lambda", false);
    functor<decltype(l5)>("variadic generic lambda", false);
    functor<Overloaded>("class with two operator()", false);
    functor<Generic>("class with an operator() template", false);
    functor<BothKinds>("class with operator() and a template of it", false);
    functor<TwoBases>("class with two functor bases", false);
    functor<Virtual>("abstract class with operator()", true);
    sig<Virtual, int(char) const noexcept>("abstract class with operator()");
    functor<Defaulted>("functor with default arguments", true);
    sig<Defaulted, int(int, char) const>("functor with default arguments");
    functor<Uni>("union with operator()", true);
    sig<Uni, int(float)>("union with operator()");
    functor<Tmpl<En>>("instance of a functor template", true);
    sig<Tmpl<En>, En(En) const>("instance of a functor template");
    functor<Data>("class with function pointer and functor members", false);
    functor<Converts>("class convertible to a function pointer", false);
    functor<Obj>("class without operator()", false);
    functor<int>("int", false);
    functor<const double>("const double", false);
    functor<En>("enumeration", false);
    functor<std::nullptr_t>("nullptr_t", false);
    functor<int*>("int*", false);
    functor<void*>("void*", false);
    functor<Obj*>("pointer to class", false);
    functor<int[3]>("array", false);
    functor<int (*)[3]>("pointer to array", false);
    functor<void (*[2])()>("array of function pointers", false);
    functor<int&>("int&", false);
    functor<Obj&>("reference to class", false);
    functor<void>("void", false);
    functor<const volatile void>("cv void", false);
    functor<void (**)()>("pointer to function pointer", false);
    yes("is_invocable of a pointer to a data member", ft::is_invocable_v<int Obj::*>, false);
    yes("is_invocable of a pointer to a functor member",
        ft::is_invocable_v<Functor<0> Data::*>, false);
    yes("is_invocable of a pointer to a function pointer member",
        ft::is_invocable_v<void (*Data::*)()>, false);
    yes("is_invocable of a pointer to a pointer to member",
        ft::is_invocable_v<int (Obj::**)()>, false);
    yes("is_simple_functor of a function", ft::is_simple_functor_v<void()>, false);
    yes("is_simple_functor of a function pointer", ft::is_simple_functor_v<void (*)()>, false);
    yes("member_signature of a data member",
        std::is_same_v<ft::member_signature_t<const int Obj::*>, const int>, true);
    yes("member_signature of a functor member",
        std::is_same_v<ft::member_signature_t<Functor<0> Data::*>, Functor<0>>, true);
    yes("member_signature of a function pointer member",
        std::is_same_v<ft::member_signature_t<void (*Data::*)()>, void (*)()>, true);
    done();
}
#endif
#if ON(4) || ON(5)
// every type a function can give or take, alone and in pairs
struct Fwd;
class Priv2
{
    int i;
};
union Un2
{
    int i;
    float f;
};
struct Fin final
{
};
struct Virt2
{
    virtual ~Virt2();
};
struct Callable
{
    int operator()(char) const noexcept;
};
union UnCall
{
    int i;
    long operator()(short);
};
struct Empty2
{
};
struct ToPtr
{
    using F = int (*)(int);
    operator F() const;
};
enum Old : unsigned short
{
    old_a
};
template <class... T>
struct all_of
{
};
// without const and volatile of their own: what a parameter can be
using Small = all_of<int, Obj, int&, const int&, int&&, const volatile Obj&, Fwd*, Fwd&, Fwd,
                     void*, const volatile void*, int (&)[3], int (*)[], void (&)(int),
                     void (*)(int) noexcept, int Obj::*, int (Obj::*)() const&& noexcept,
                     Callable, UnCall, std::nullptr_t, type_list<int, char>, type_list<>,
                     std::tuple<>, En>;
using Rest = all_of<bool, char, signed char, unsigned char, wchar_t, char16_t, char32_t, short,
                    unsigned short, unsigned, long, unsigned long, long long,
                    unsigned long long, float, double, long double, __int128, Old, Priv2, Un2,
                    Fin, Virt2, Empty2, ToPtr, std::string, std::vector<int>,
                    std::pair<int, int>, const char*, char* const*, int***, const Fwd&, Fwd&&,
                    const Fwd* volatile&, int (&&)[2], const int (&)[], int (*)(), int (*&)(),
                    int (&&)(), Callable&, const Callable&, Callable&&, Callable*, ToPtr&,
                    P<>, P<int&, void>, std::integral_constant<int, 3>, const Obj&, Obj&&,
                    const Obj* const*, const int Obj::*, Fwd Obj::*, int (Fwd::*)(),
                    int (Obj::*&)(), std::true_type, type_list<type_list<>>, void (*)(...)>;
template <class R, int... Q>
void returns(int i, std::integer_sequence<int, Q...>)
{
    (function_type<Q, R>(i, 100), ...);
    (function_type<Q, R, R (*)()>(i, 101), ...);
}
template <class A, int... Q>
void takes(int i, std::integer_sequence<int, Q...>)
{
    (function_type<Q, void, A>(100, i), ...);
    (function_type<Q, int, A, A>(101, i), ...);
}
template <class A, class... B>
void takes_two(int i, all_of<B...>)
{
    int j = 0;
    ((function_type<0, B, A>(200 + j, i), function_type<23, void, A, B>(102, 100 * i + j), ++j),
     ...);
}
#endif
#if ON(4)
using Consts = all_of<const bool, const int, volatile int, const volatile int, const void,
                      volatile void, const volatile void, const Obj, volatile Obj,
                      const volatile Obj, const Fwd, int* const, const int* const,
                      void (*const)(), int Obj::*const, const En, const std::nullptr_t,
                      const Callable, const type_list<>, void>;
template <class... R>
void each_return(int i, all_of<R...>)
{
    (returns<R>(i++, std::make_integer_sequence<int, 24>{}), ...);
}
void functions_4()
{
    cases();
    each_return(1000, Small{});
    each_return(2000, Rest{});
    each_return(3000, Consts{});
    done();
}
#endif
#if ON(5)
template <class... A>
void each_param(int i, all_of<A...>)
{
    (takes<A>(i++, std::make_integer_sequence<int, 24>{}), ...);
}
template <class... A>
void each_two(int i, all_of<A...>)
{
    (takes_two<A>(i++, Small{}), ...);
}
void functions_5()
{
    cases();
    each_param(1000, Small{});
    each_param(2000, Rest{});
    each_two(3000, Small{});
    done();
}
#endif
void reg()
{
#if ON(1)
    mc::add("functions_1", functions_1);
#endif
#if ON(2)
    mc::add("functions_2", functions_2);
#endif
#if ON(3)
    mc::add("kinds", kinds);
#endif
#if ON(4)
    mc::add("functions_4", functions_4);
#endif
#if ON(5)
    mc::add("functions_5", functions_5);
#endif
}
}  // namespace
#endif

// =============================== C34 ============================================
#if PART == 34
namespace zoo
{
struct Arg
{
    int x;
};
// --- what the checkers of free functions see ------------------------------------------
inline void mem() {}
inline int mem(int&) noexcept { return 0; }
inline const char* mem(const char* s, int) { return s; }
template <class T>
T& mem(T* a, T*) noexcept
{
    return *a;
}
inline Arg mem(const Arg&, double, int&&) noexcept(false) { return {}; }
inline void mem(Arg&&) noexcept {}

CREATE_MEMBER_TYPE_CHECKERS(mem)
CREATE_MEMBER_DATA_CHECKERS(mem)
CREATE_STATIC_MEMBER_DATA_CHECKERS(mem)
CREATE_R_METHOD_CHECKERS(mem)
CREATE_METHOD_CHECKERS(mem)
CREATE_STATIC_METHOD_CHECKERS(mem)
CREATE_FREE_FUNCTION_CHECKERS(mem)
// a second name in the same namespace
inline int other(int) { return 0; }
CREATE_MEMBER_TYPE_CHECKERS(other)
CREATE_MEMBER_DATA_CHECKERS(other)
CREATE_STATIC_MEMBER_DATA_CHECKERS(other)
CREATE_R_METHOD_CHECKERS(other)
CREATE_METHOD_CHECKERS(other)
CREATE_STATIC_METHOD_CHECKERS(other)
CREATE_FREE_FUNCTION_CHECKERS(other)
}  // namespace zoo
namespace later
{
struct ByLookup
{
};
inline int mem(ByLookup) { return 1; }  // found through its argument only
// functions of any result
template <class R>
struct Gives
{
};
template <class R>
struct GivesNx
{
};
template <class R>
R mem(Gives<R>);
template <class R>
R mem(GivesNx<R>) noexcept;
}  // namespace later

namespace
{
using namespace zoo;
void yes(const std::string& what, bool got, bool want)
{
    g_case = what;
    mc::beat();
    MC_CHECK("C34", got == want, "is %s", got ? "true" : "false");
    ++g_n;
    g_nt += want;
}
// the 24 generated checkers of exact methods
template <int Q, class R, class T, class... A>
constexpr bool exact_method();
template <int Q>
struct Exact;
#define MAKE(n, suffix)                                                               \
    template <>                                                                       \
    struct Exact<n>                                                                   \
    {                                                                                 \
        template <class R, class T, class... A>                                       \
        static constexpr bool v = has_invocable_r_mem##suffix##_v<R, T, A...>;        \
        template <class R, class T, class... A>                                       \
        static constexpr bool s = has_invocable_r_mem##suffix<R, T, A...>::value;     \
        template <class R, class T, class... A>                                       \
        static constexpr bool o = has_invocable_r_other##suffix##_v<R, T, A...>;      \
    };
MAKE(0, )
MAKE(1, _const)
MAKE(2, _volatile)
MAKE(3, _const_volatile)
MAKE(4, _ref)
MAKE(5, _const_ref)
MAKE(6, _volatile_ref)
MAKE(7, _const_volatile_ref)
MAKE(8, _rref)
MAKE(9, _const_rref)
MAKE(10, _volatile_rref)
MAKE(11, _const_volatile_rref)
MAKE(12, _noexcept)
MAKE(13, _const_noexcept)
MAKE(14, _volatile_noexcept)
MAKE(15, _const_volatile_noexcept)
MAKE(16, _ref_noexcept)
MAKE(17, _const_ref_noexcept)
MAKE(18, _volatile_ref_noexcept)
MAKE(19, _const_volatile_ref_noexcept)
MAKE(20, _rref_noexcept)
MAKE(21, _const_rref_noexcept)
MAKE(22, _volatile_rref_noexcept)
MAKE(23, _const_volatile_rref_noexcept)
#undef MAKE
constexpr int kNone = -1;
// which of the 24 hold for an object that has the method with qualifiers Have
template <class R, class T, class... A, int... Q>
void exact_all(const std::string& what, int have, std::integer_sequence<int, Q...>)
{
    const bool got[] = {Exact<Q>::template v<R, T, A...>...};
    const bool got_s[] = {Exact<Q>::template s<R, T, A...>...};
    for (int q = 0; q < 24; ++q)
    {
        // a noexcept method can be seen as one that is not
        const bool want = have >= 0 && have % 12 == q % 12 && (q_n(have) || !q_n(q));
        yes(what + " as a method with" + q_name(q) + " qualifiers", got[q], want);
        yes(what + " as a method with" + q_name(q) + " qualifiers (struct)", got_s[q], want);
    }
}
template <class T, int... Q>
void other_name(const std::string& what, std::integer_sequence<int, Q...>)
{
    const bool got[] = {Exact<Q>::template o<int, T, int&, const char&>...};
    for (int q = 0; q < 24; ++q)
        yes(what + " under another name as a method with" + q_name(q) + " qualifiers", got[q],
            false);
}
template <class R, class T, class... A>
void exact(const std::string& what, int have)
{
    exact_all<R, T, A...>(what, have, std::make_integer_sequence<int, 24>{});
}

// ---- methods -----------------------------------------------------------------------
template <int Q>
struct Meth;
template <int Q>
struct Priv;
template <int Q>
struct Prot;
template <int Q>
struct Virt;
template <int Q>
struct Dflt;
template <int Q>
struct Gone;
template <int Q>
struct Tmpl;
#define MAKE(n, q)                                                    \
    template <>                                                       \
    struct Meth<n>                                                    \
    {                                                                 \
        int mem(int&, const char&) q;                                 \
    };                                                                \
    template <>                                                       \
    struct Priv<n>                                                    \
    {                                                                 \
       private:                                                       \
        int mem(int&, const char&) q;                                 \
    };                                                                \
    template <>                                                       \
    struct Prot<n>                                                    \
    {                                                                 \
       protected:                                                     \
        int mem(int&, const char&) q;                                 \
    };                                                                \
    template <>                                                       \
    struct Virt<n>                                                    \
    {                                                                 \
        virtual int mem(int&, const char&) q = 0;                     \
        virtual ~Virt() noexcept(false);                              \
    };                                                                \
    template <>                                                       \
    struct Dflt<n> final                                              \
    {                                                                 \
        int mem(int&, const char& = 'x') q;                           \
    };                                                                \
    template <>                                                       \
    struct Gone<n>                                                    \
    {                                                                 \
        int mem(int&, const char&) q = delete;                        \
    };                                                                \
    template <>                                                       \
    struct Tmpl<n>                                                    \
    {                                                                 \
        template <class A, class B>                                   \
        int mem(A&, const B&) q;                                      \
    };
EACH_QUALIFIER(MAKE)
#undef MAKE
template <int Q>
struct Deri : Meth<Q>
{
};
template <int Q>
struct PrivDeri : private Meth<Q>
{
};
template <int Q>
struct Using : private Meth<Q>
{
    using Meth<Q>::mem;
};
template <int Q>
struct Hider : Meth<Q>
{
    void mem();
};
struct DfltBase
{
    int mem(int&, const char&);
};
template <int Q>
struct Ambig : Meth<Q>, DfltBase
{
};

// can a method with qualifiers q be called on an object of that kind
constexpr bool callable(int q, bool c, bool v, bool lvalue)
{
    if (c && !q_c(q)) return false;
    if (v && !q_v(q)) return false;
    if (q_r(q) == 1) return lvalue || (q_c(q) && !q_v(q));
    if (q_r(q) == 2) return !lvalue;
    return true;
}
template <class T, class... A>
struct Call
{
    static constexpr bool ok = has_invocable_mem_v<T, A...>;
    static constexpr bool oks = has_invocable_mem<T, A...>::value;
    static constexpr bool nx = has_invocable_mem_noexcept_v<T, A...>;
    static constexpr bool nxs = has_invocable_mem_noexcept<T, A...>::value;
    static constexpr bool other = has_invocable_other_v<T, A...> ||
                                  has_invocable_other_noexcept_v<T, A...>;
};
template <class T, class... A>
void call(const std::string& what, bool ok, bool nx)
{
    using C = Call<T, A...>;
    yes(what, C::ok, ok);
    yes(what + " (struct)", C::oks, ok);
    yes(what + ", noexcept", C::nx, ok && nx);
    yes(what + ", noexcept (struct)", C::nxs, ok && nx);
    yes(what + " under another name", C::other, false);
}
// q: the qualifiers; kNone: nothing can be called
template <class T, class... A>
void calls_on_forms(const std::string& what, int q, bool args)
{
    auto ok = [&](bool c, bool v, bool l) { return q >= 0 && args && callable(q, c, v, l); };
    const bool nx = q_n(q);
    if constexpr (!std::is_abstract_v<T>)
        call<T, A...>(what + " on T", ok(false, false, false), nx);
    call<T&, A...>(what + " on T&", ok(false, false, true), nx);
    call<T&&, A...>(what + " on T&&", ok(false, false, false), nx);
    call<const T&, A...>(what + " on const T&", ok(true, false, true), nx);
    call<const T&&, A...>(what + " on const T&&", ok(true, false, false), nx);
    call<volatile T&, A...>(what + " on volatile T&", ok(false, true, true), nx);
    call<volatile T&&, A...>(what + " on volatile T&&", ok(false, true, false), nx);
    call<const volatile T&, A...>(what + " on cv T&", ok(true, true, true), nx);
    call<const volatile T&&, A...>(what + " on cv T&&", ok(true, true, false), nx);
    if constexpr (!std::is_abstract_v<T>)
        call<const T, A...>(what + " on const T", ok(true, false, false), nx);
    call<T*, A...>(what + " on T*", false, false);
}
template <class T>
void method_class(const std::string& name, int q, bool default_arg = false)
{
    exact<int, T, int&, const char&>(name + " [int(int&, const char&)]", q);
    other_name<T>(name, std::make_integer_sequence<int, 24>{});
    exact<long, T, int&, const char&>(name + " [long(int&, const char&)]", kNone);
    exact<void, T, int&, const char&>(name + " [void(int&, const char&)]", kNone);
    exact<const int, T, int&, const char&>(name + " [const int(int&, const char&)]", kNone);
    exact<int, T, int&, char>(name + " [int(int&, char)]", kNone);
    exact<int, T, int&>(name + " [int(int&)]", kNone);
    exact<int, T>(name + " [int()]", kNone);
    exact<int, T, const char&, int&>(name + " [int(const char&, int&)]", kNone);
    calls_on_forms<T, int&, char>(name + " (int&, char)", q, true);
    calls_on_forms<T, int&, const char&>(name + " (int&, const char&)", q, true);
    calls_on_forms<T, int&, double>(name + " (int&, double)", q, true);
    calls_on_forms<T, int, char>(name + " (int, char)", q, false);
    calls_on_forms<T, int&>(name + " (int&)", q, default_arg);
    calls_on_forms<T>(name + " ()", q, false);
    calls_on_forms<T, int&, char, int>(name + " (int&, char, int)", q, false);
    calls_on_forms<T, int&, Arg>(name + " (int&, Arg)", q, false);
}
template <int Q>
void methods()
{
    const std::string n = "'" + q_name(Q) + "' ";
    method_class<Meth<Q>>(n + "method", Q);
    method_class<Deri<Q>>(n + "inherited method", Q);
    method_class<Priv<Q>>(n + "private method", kNone);
    method_class<Prot<Q>>(n + "protected method", kNone);
    method_class<PrivDeri<Q>>(n + "privately inherited method", kNone);
    method_class<Virt<Q>>(n + "pure virtual method", Q);
    method_class<Dflt<Q>>(n + "method with default argument", Q, true);
    method_class<Gone<Q>>(n + "deleted method", kNone);
    method_class<Ambig<Q>>(n + "ambiguous method", kNone);
    exact<int, Using<Q>, int&, char>(n + "method by using", kNone);
    calls_on_forms<Using<Q>, int&, char>(n + "method by using", Q, true);
    exact<int, Hider<Q>, int&, const char&>(n + "hidden method", kNone);
    exact<void, Hider<Q>>(n + "hiding method", 0);
    calls_on_forms<Hider<Q>, int&, char>(n + "hidden method", Q, false);
    calls_on_forms<Hider<Q>>(n + "hiding method", 0, true);
    exact<int, Tmpl<Q>, int&, const char&>(n + "method template", Q);
    exact<long, Tmpl<Q>, int&, const char&>(n + "method template, wrong result", kNone);
    exact<int, Tmpl<Q>, int&, char>(n + "method template, wrong parameter", kNone);
    calls_on_forms<Tmpl<Q>, int&, char>(n + "method template", Q, true);
    // methods are neither data nor types nor static
    using M = Meth<Q>;
    yes(n + "method as data", has_data_mem_v<M> || has_data_mem<M>::value, false);
    yes(n + "method as static data", has_static_data_mem_v<M> || has_static_data_mem<M>::value,
        false);
    yes(n + "method as type", has_type_mem_v<M> || has_type_mem<M>::value, false);
    yes(n + "method as static method",
        has_static_invocable_mem_v<M, int&, char> ||
            has_static_invocable_mem_noexcept_v<M, int&, char> ||
            has_static_invocable_r_mem_v<int, M, int&, const char&> ||
            has_static_invocable_r_mem_noexcept_v<int, M, int&, const char&>,
        false);
}
template <int First, int... Q>
void methods_from(std::integer_sequence<int, Q...>)
{
    cases();
    (methods<First + Q>(), ...);
    done();
}
#if SHARD < 7
#define METHODS(k) \
    void methods_##k() { methods_from<4 * (k - 1)>(std::make_integer_sequence<int, 4>{}); }
#if ON(1)
METHODS(1)
#endif
#if ON(2)
METHODS(2)
#endif
#if ON(3)
METHODS(3)
#endif
#if ON(4)
METHODS(4)
#endif
#if ON(5)
METHODS(5)
#endif
#if ON(6)
METHODS(6)
#endif
#endif

#if ON(7)
// ---- types, data, static data, static methods -------------------------------------------
struct Any
{
    template <class T>
    Any(T&&)
    {
    }
};
struct FromInt
{
    FromInt(int);
};
struct ExplicitInt
{
    explicit ExplicitInt(int);
};
struct Z_nothing
{
};
struct Z_type
{
    using mem = int;
};
struct Z_type_ref
{
    using mem = const double&;
};
struct Z_type_void
{
    using mem = void;
};
struct Z_type_fn
{
    using mem = int(char) const;
};
struct Z_type_arr
{
    typedef int mem[3];
};
struct Z_class
{
    struct mem
    {
    };
};
struct Z_class_fwd
{
    struct mem;
};
struct Z_enum
{
    enum mem
    {
        e
    };
};
struct Z_enumclass
{
    enum class mem : char
    {
        e
    };
};
struct Z_union
{
    union mem
    {
        int a;
    };
};
struct Z_type_priv
{
   private:
    using mem = int;
};
struct Z_type_prot
{
   protected:
    using mem = int;
};
struct Z_type_template
{
    template <class T>
    using mem = T;
};
struct Z_type_inh : Z_type
{
};
struct Z_type_privinh : private Z_type
{
};
struct Z_type_hidden : Z_type
{
    int mem;
};
struct Z_type_ambig : Z_type, Z_class
{
};
struct Z_type_other
{
    using mem1 = int;
    using me = int;
    using other = int;
};
struct Z_enumerator
{
    enum
    {
        mem
    };
};
struct Z_data
{
    int mem;
};
struct Z_data_const
{
    const int mem = 1;
};
struct Z_data_mutable
{
    mutable int mem;
};
struct Z_data_volatile
{
    volatile int mem;
};
struct Z_data_arr
{
    int mem[3];
};
struct Z_data_cls
{
    Arg mem;
};
struct Z_data_fp
{
    void (*mem)();
};
struct Z_data_mp
{
    int (Arg::*mem)();
};
struct Z_data_dp
{
    int Arg::*mem;
};
struct Z_data_functor
{
    Meth<0> mem;
};
struct Z_data_priv
{
   private:
    int mem;
};
struct Z_data_prot
{
   protected:
    int mem;
};
struct Z_data_inh : Z_data
{
};
struct Z_data_privinh : private Z_data
{
};
struct Z_data_ambig : Z_data, Z_data_const
{
};
union Z_data_union
{
    int mem;
    char b;
};
struct Z_data_anon
{
    union
    {
        int mem;
        char b;
    };
};
class Z_data_class
{
   public:
    int mem;
};
struct Z_sdata
{
    static int mem;
};
struct Z_sdata_const
{
    static const int mem = 3;
};
struct Z_sdata_constexpr
{
    static constexpr double mem = 3;
};
struct Z_sdata_inline
{
    inline static volatile int mem = 3;
};
struct Z_sdata_arr
{
    static int mem[];
};
struct Z_sdata_fp
{
    static void (*mem)();
};
struct Z_sdata_mp
{
    static int (Arg::*mem)();
};
struct Z_sdata_ref
{
    static int& mem;
};
struct Z_sdata_thread
{
    static thread_local int mem;
};
struct Z_sdata_cls
{
    static Arg mem;
};
struct Z_sdata_self
{
    static Z_sdata_self mem;
};
struct Z_sdata_priv
{
   private:
    static int mem;
};
struct Z_sdata_inh : Z_sdata
{
};
struct Z_sdata_privinh : private Z_sdata
{
};
struct Z_sdata_priv2
{
   protected:
    static int mem;
};
struct Z_sdata_hidden : Z_sdata
{
    void mem();
};
struct Z_over
{
    void mem();
    int mem(int);
};
struct Z_smeth
{
    static int mem(int&, const char&);
};
struct Z_smeth_nx
{
    static int mem(int&, const char&) noexcept;
};
struct Z_smeth_inh : Z_smeth
{
};
struct Z_smeth_priv
{
   private:
    static int mem(int&, const char&);
};
struct Z_smeth_privinh : private Z_smeth_nx
{
};
struct Z_smeth_del
{
    static int mem(int&, const char&) = delete;
};
struct Z_smeth_over
{
    static int mem(int&, const char&) noexcept;
    static int mem(int);
    static void mem();
    void mem(Arg);
};
struct Z_smeth_tmpl
{
    template <class A, class B>
    static int mem(A&, const B&) noexcept;
};
struct Z_smeth_dflt
{
    static int mem(int&, const char& = 'a');
};
struct Throws
{
    Throws(int) noexcept(false);
};
struct Z_smeth_conv
{
    static int mem(Throws) noexcept;
};
struct Z_meth_conv
{
    int mem(Throws) noexcept;
};
enum
{
    t_none,
    t_int,
    t_ref,
    t_void,
    t_other
};
template <class T, bool convertible = true>
void members(const char* name, int type, bool data, bool sdata)
{
    const std::string n = std::string(name) + ": ";
    auto both = [&](const char* what, bool v, bool s, bool want)
    {
        yes(n + what, v, want);
        yes(n + what + " (struct)", s, want);
    };
    both("has_type", has_type_mem_v<T>, has_type_mem<T>::value, type != t_none);
    both("has_exact_type int", has_exact_type_mem_v<T, int>, has_exact_type_mem<T, int>::value,
         type == t_int);
    both("has_exact_type const double&", has_exact_type_mem_v<T, const double&>,
         has_exact_type_mem<T, const double&>::value, type == t_ref);
    both("has_exact_type void", has_exact_type_mem_v<T, void>,
         has_exact_type_mem<T, void>::value, type == t_void);
    both("has_exact_type const int", has_exact_type_mem_v<T, const int>,
         has_exact_type_mem<T, const int>::value, false);
    both("has_exact_type double", has_exact_type_mem_v<T, double>,
         has_exact_type_mem<T, double>::value, false);
    if constexpr (convertible)
    {
        const bool num = type == t_int || type == t_ref;
        both("has_convertible_type int", has_convertible_type_mem_v<T, int>,
             has_convertible_type_mem<T, int>::value, num);
        both("has_convertible_type bool", has_convertible_type_mem_v<T, bool>,
             has_convertible_type_mem<T, bool>::value, num);
        both("has_convertible_type FromInt", has_convertible_type_mem_v<T, FromInt>,
             has_convertible_type_mem<T, FromInt>::value, num);
        both("has_convertible_type ExplicitInt", has_convertible_type_mem_v<T, ExplicitInt>,
             has_convertible_type_mem<T, ExplicitInt>::value, false);
        both("has_convertible_type int*", has_convertible_type_mem_v<T, int*>,
             has_convertible_type_mem<T, int*>::value, false);
        both("has_convertible_type int&", has_convertible_type_mem_v<T, int&>,
             has_convertible_type_mem<T, int&>::value, false);
        both("has_convertible_type void", has_convertible_type_mem_v<T, void>,
             has_convertible_type_mem<T, void>::value, type == t_void);
        both("has_convertible_type from anything", has_convertible_type_mem_v<T, Any>,
             has_convertible_type_mem<T, Any>::value, num);
    }
    both("has_data", has_data_mem_v<T>, has_data_mem<T>::value, data);
    both("has_static_data", has_static_data_mem_v<T>, has_static_data_mem<T>::value, sdata);
    if constexpr (std::is_class_v<T> || std::is_union_v<T>)
    {
        using C = const T;
        both("const: has_type", has_type_mem_v<C>, has_type_mem<C>::value, type != t_none);
        both("const: has_data", has_data_mem_v<C>, has_data_mem<C>::value, data);
        both("const: has_static_data", has_static_data_mem_v<C>,
             has_static_data_mem<C>::value, sdata);
        both("reference: any", has_type_mem_v<T&>,
             has_data_mem_v<T&> || has_static_data_mem_v<T&>, false);
        both("pointer: any", has_type_mem_v<T*>,
             has_data_mem_v<T*> || has_static_data_mem_v<T*>, false);
    }
    if (std::string(name) != "Z_type_other")
        both("another name",
             has_type_other_v<T> || has_exact_type_other_v<T, int> ||
                 has_convertible_type_other_v<T, int>,
             has_data_other_v<T> || has_static_data_other_v<T>, false);
}
template <class T>
void no_method(const char* name)
{
    const std::string n = std::string(name) + ": ";
    exact<void, T>(n + "void()", kNone);
    exact<int, T, int>(n + "int(int)", kNone);
    yes(n + "static",
        has_static_invocable_r_mem_v<void, T> || has_static_invocable_r_mem_noexcept_v<void, T> ||
            has_static_invocable_r_mem_v<int, T, int>,
        false);
}
template <class T>
void statics(const char* name, bool call, bool nx, bool r, bool dflt = false)
{
    const std::string n = std::string(name) + ": ";
    auto both = [&](const char* what, bool v, bool s, bool want)
    {
        yes(n + what, v, want);
        yes(n + what + " (struct)", s, want);
    };
    both("(int&, char)", has_static_invocable_mem_v<T, int&, char>,
         has_static_invocable_mem<T, int&, char>::value, call);
    both("(int&, char) noexcept", has_static_invocable_mem_noexcept_v<T, int&, char>,
         has_static_invocable_mem_noexcept<T, int&, char>::value, call && nx);
    both("(int&, double)", has_static_invocable_mem_v<T, int&, double>,
         has_static_invocable_mem<T, int&, double>::value, call);
    both("(int, char)", has_static_invocable_mem_v<T, int, char>,
         has_static_invocable_mem_noexcept<T, int, char>::value, false);
    both("(int&)", has_static_invocable_mem_v<T, int&>,
         has_static_invocable_mem<T, int&>::value, call && dflt);
    both("(int&, char, char)", has_static_invocable_mem_v<T, int&, char, char>,
         has_static_invocable_mem_noexcept_v<T, int&, char, char>, false);
    both("int(int&, const char&)", has_static_invocable_r_mem_v<int, T, int&, const char&>,
         has_static_invocable_r_mem<int, T, int&, const char&>::value, r);
    both("int(int&, const char&) noexcept",
         has_static_invocable_r_mem_noexcept_v<int, T, int&, const char&>,
         has_static_invocable_r_mem_noexcept<int, T, int&, const char&>::value, r && nx);
    both("long(int&, const char&)", has_static_invocable_r_mem_v<long, T, int&, const char&>,
         has_static_invocable_r_mem_noexcept_v<long, T, int&, const char&>, false);
    both("int(int&, char)", has_static_invocable_r_mem_v<int, T, int&, char>,
         has_static_invocable_r_mem_noexcept_v<int, T, int&, char>, false);
    both("int(int&)", has_static_invocable_r_mem_v<int, T, int&>,
         has_static_invocable_r_mem_noexcept_v<int, T, int&>, false);
    both("another name", has_static_invocable_other_v<T, int&, char>,
         has_static_invocable_r_other_v<int, T, int&, const char&>, false);
    exact<int, T, int&, const char&>(n + "method", kNone);
    yes(n + "data", has_data_mem_v<T> || has_static_data_mem_v<T> || has_type_mem_v<T>, false);
}

// ---- free functions -----------------------------------------------------------------
template <int L>
struct letter;
template <>
struct letter<0>
{
    using type = int&;
};
template <>
struct letter<1>
{
    using type = int;
};
template <>
struct letter<2>
{
    using type = const char*;
};
template <>
struct letter<3>
{
    using type = double;
};
template <>
struct letter<4>
{
    using type = Arg;
};
template <>
struct letter<5>
{
    using type = Arg&;
};
template <>
struct letter<6>
{
    using type = Arg*;
};
enum Ret
{
    r_bad,
    r_void,
    r_int,
    r_text,
    r_arg,
    r_textref,
    r_argref
};
// the overload the call selects, by the letters of its arguments
void expect(const std::vector<int>& a, int& r, bool& nx)
{
    r = r_bad;
    nx = false;
    auto number = [](int l) { return l == 0 || l == 1 || l == 3; };
    auto rnum = [](int l) { return l == 1 || l == 3; };  // binds to int&&
    if (a.empty())
        r = r_void;
    else if (a.size() == 1 && a[0] == 0)
        r = r_int, nx = true;
    else if (a.size() == 1 && a[0] == 4)
        r = r_void, nx = true;
    else if (a.size() == 2 && a[0] == 2 && number(a[1]))
        r = r_text;
    else if (a.size() == 2 && a[0] == 2 && a[1] == 2)
        r = r_textref, nx = true;  // the template with T = const char
    else if (a.size() == 2 && a[0] == 6 && a[1] == 6)
        r = r_argref, nx = true;
    else if (a.size() == 3 && (a[0] == 4 || a[0] == 5) && number(a[1]) && rnum(a[2]))
        r = r_arg;
}
template <class... A>
void free_call(const std::string& n, int r, bool nx)
{
    auto both = [&](const char* what, bool v, bool s, bool want)
    {
        yes(n + what, v, want);
        yes(n + what + " (struct)", s, want);
    };
    both("invocable", is_mem_invocable_v<A...>, is_mem_invocable<A...>::value, r != r_bad);
    both("noexcept invocable", is_mem_noexcept_invocable_v<A...>,
         is_mem_noexcept_invocable<A...>::value, r != r_bad && nx);
    both("invocable, void", is_mem_invocable_r_v<void, A...>,
         is_mem_invocable_r<void, A...>::value, r == r_void);
    both("invocable, int", is_mem_invocable_r_v<int, A...>,
         is_mem_invocable_r<int, A...>::value, r == r_int);
    both("invocable, text", is_mem_invocable_r_v<const char*, A...>,
         is_mem_invocable_r<const char*, A...>::value, r == r_text);
    both("invocable, Arg", is_mem_invocable_r_v<Arg, A...>,
         is_mem_invocable_r<Arg, A...>::value, r == r_arg);
    both("invocable, const char&", is_mem_invocable_r_v<const char&, A...>,
         is_mem_invocable_r<const char&, A...>::value, r == r_textref);
    both("invocable, Arg&", is_mem_invocable_r_v<Arg&, A...>,
         is_mem_invocable_r<Arg&, A...>::value, r == r_argref);
    both("invocable, long", is_mem_invocable_r_v<long, A...>,
         is_mem_noexcept_invocable_r_v<long, A...>, false);
    both("noexcept invocable, void", is_mem_noexcept_invocable_r_v<void, A...>,
         is_mem_noexcept_invocable_r<void, A...>::value, r == r_void && nx);
    both("noexcept invocable, int", is_mem_noexcept_invocable_r_v<int, A...>,
         is_mem_noexcept_invocable_r<int, A...>::value, r == r_int && nx);
    both("noexcept invocable, text", is_mem_noexcept_invocable_r_v<const char*, A...>,
         is_mem_noexcept_invocable_r<const char*, A...>::value, r == r_text && nx);
    both("noexcept invocable, Arg", is_mem_noexcept_invocable_r_v<Arg, A...>,
         is_mem_noexcept_invocable_r<Arg, A...>::value, r == r_arg && nx);
    both("noexcept invocable, Arg&", is_mem_noexcept_invocable_r_v<Arg&, A...>,
         is_mem_noexcept_invocable_r<Arg&, A...>::value, r == r_argref && nx);
}
template <int... L>
void free_letters()
{
    const char* names[] = {"int&", "int", "const char*", "double", "Arg", "Arg&", "Arg*"};
    std::vector<int> v{L...};
    std::string n = "free function (";
    for (int l: v) n += std::string(names[l]) + " ";
    int r;
    bool nx;
    expect(v, r, nx);
    free_call<typename letter<L>::type...>(n + "): ", r, nx);
}
template <int Len, int Code, int... I>
void free_code(std::integer_sequence<int, I...>)
{
    constexpr int pw[] = {1, 7, 49, 343};
    (void)pw;
    free_letters<(Code / pw[I] % 7)...>();
}
template <int Len, int... C>
void free_len(std::integer_sequence<int, C...>)
{
    (free_code<Len, C>(std::make_integer_sequence<int, Len>{}), ...);
}
void kinds()
{
    cases();
#define M(T, ...)              \
    members<T>(#T, __VA_ARGS__); \
    no_method<T>(#T);
    M(Z_nothing, t_none, false, false)
    M(Z_type, t_int, false, false)
    M(Z_type_ref, t_ref, false, false)
    M(Z_type_void, t_void, false, false)
    members<Z_type_fn, false>("Z_type_fn", t_other, false, false);
    no_method<Z_type_fn>("Z_type_fn");
    members<Z_type_arr, false>("Z_type_arr", t_other, false, false);
    no_method<Z_type_arr>("Z_type_arr");
    members<Z_class, false>("Z_class", t_other, false, false);
    no_method<Z_class>("Z_class");
    members<Z_class_fwd, false>("Z_class_fwd", t_other, false, false);
    no_method<Z_class_fwd>("Z_class_fwd");
    members<Z_enum, false>("Z_enum", t_other, false, false);
    no_method<Z_enum>("Z_enum");
    members<Z_enumclass, false>("Z_enumclass", t_other, false, false);
    no_method<Z_enumclass>("Z_enumclass");
    members<Z_union, false>("Z_union", t_other, false, false);
    no_method<Z_union>("Z_union");
    M(Z_type_priv, t_none, false, false)
    M(Z_type_prot, t_none, false, false)
    M(Z_type_template, t_none, false, false)
    M(Z_type_inh, t_int, false, false)
    M(Z_type_privinh, t_none, false, false)
    M(Z_type_hidden, t_none, true, false)
    M(Z_type_ambig, t_none, false, false)
    M(Z_type_other, t_none, false, false)
    M(Z_enumerator, t_none, false, false)
    M(Z_data, t_none, true, false)
    M(Z_data_const, t_none, true, false)
    M(Z_data_mutable, t_none, true, false)
    M(Z_data_volatile, t_none, true, false)
    M(Z_data_arr, t_none, true, false)
    M(Z_data_cls, t_none, true, false)
    M(Z_data_fp, t_none, true, false)
    M(Z_data_mp, t_none, true, false)
    M(Z_data_dp, t_none, true, false)
    M(Z_data_functor, t_none, true, false)
    M(Z_data_priv, t_none, false, false)
    M(Z_data_prot, t_none, false, false)
    M(Z_data_inh, t_none, true, false)
    M(Z_data_privinh, t_none, false, false)
    M(Z_data_ambig, t_none, false, false)
    M(Z_data_union, t_none, true, false)
    M(Z_data_anon, t_none, true, false)
    M(Z_data_class, t_none, true, false)
    M(Z_sdata, t_none, false, true)
    M(Z_sdata_const, t_none, false, true)
    M(Z_sdata_constexpr, t_none, false, true)
    M(Z_sdata_inline, t_none, false, true)
    M(Z_sdata_arr, t_none, false, true)
    M(Z_sdata_fp, t_none, false, true)
    M(Z_sdata_mp, t_none, false, true)
    M(Z_sdata_ref, t_none, false, true)
    M(Z_sdata_thread, t_none, false, true)
    M(Z_sdata_cls, t_none, false, true)
    M(Z_sdata_self, t_none, false, true)
    M(Z_sdata_priv, t_none, false, false)
    M(Z_sdata_inh, t_none, false, true)
    M(Z_sdata_privinh, t_none, false, false)
    M(Z_sdata_priv2, t_none, false, false)
    members<Z_sdata_hidden>("Z_sdata_hidden", t_none, false, false);
    members<Z_over>("Z_over", t_none, false, false);
    members<Z_smeth>("Z_smeth", t_none, false, false);
    members<Z_smeth_over>("Z_smeth_over", t_none, false, false);
    M(int, t_none, false, false)
    M(const int&, t_none, false, false)
    M(void, t_none, false, false)
    M(int[2], t_none, false, false)
    M(void(), t_none, false, false)
    M(int Arg::*, t_none, false, false)
    members<Z_enumclass::mem>("an enumeration", t_none, false, false);
    yes("exact class type", has_exact_type_mem_v<Z_class, Z_class::mem>, true);
    yes("exact class type, another", has_exact_type_mem_v<Z_class, Z_class_fwd::mem>, false);
    yes("exact enumeration type", has_exact_type_mem_v<Z_enum, Z_enum::mem>, true);
    yes("exact array type", has_exact_type_mem_v<Z_type_arr, int[3]>, true);
    yes("exact array type, another", has_exact_type_mem_v<Z_type_arr, int[4]>, false);
    yes("exact function type", has_exact_type_mem_v<Z_type_fn, int(char) const>, true);
    yes("exact function type, another", has_exact_type_mem_v<Z_type_fn, int(char)>, false);
    yes("enumeration convertible to int", has_convertible_type_mem_v<Z_enum, int>, true);
    yes("scoped enumeration convertible to int", has_convertible_type_mem_v<Z_enumclass, int>,
        false);
    statics<Z_nothing>("Z_nothing", false, false, false);
    statics<Z_smeth>("static method", true, false, true);
    statics<const Z_smeth>("static method of const class", true, false, true);
    statics<Z_smeth_nx>("noexcept static method", true, true, true);
    statics<Z_smeth_inh>("inherited static method", true, false, true);
    statics<Z_smeth_priv>("private static method", false, false, false);
    statics<Z_smeth_privinh>("privately inherited static method", false, false, false);
    statics<Z_smeth_del>("deleted static method", false, false, false);
    statics<Z_smeth_tmpl>("static method template", true, true, true);
    statics<Z_smeth_dflt>("static method with default argument", true, false, true, true);
    statics<int>("static method of int", false, false, false);
    statics<Z_smeth&>("static method of a reference", false, false, false);
    yes("overload 1", has_static_invocable_mem_v<Z_smeth_over, int&, char>, true);
    yes("overload 1 noexcept", has_static_invocable_mem_noexcept_v<Z_smeth_over, int&, char>,
        true);
    yes("overload 2", has_static_invocable_mem_v<Z_smeth_over, int>, true);
    yes("overload 2 noexcept", has_static_invocable_mem_noexcept_v<Z_smeth_over, int>, false);
    yes("overload 3", has_static_invocable_mem_v<Z_smeth_over>, true);
    yes("overload 4", has_static_invocable_mem_v<Z_smeth_over, Arg>, false);
    yes("overload 1 exact", has_static_invocable_r_mem_v<int, Z_smeth_over, int&, const char&>,
        true);
    yes("overload 2 exact", has_static_invocable_r_mem_v<int, Z_smeth_over, int>, true);
    yes("overload 2 exact noexcept",
        has_static_invocable_r_mem_noexcept_v<int, Z_smeth_over, int>, false);
    yes("overload 3 exact", has_static_invocable_r_mem_v<void, Z_smeth_over>, true);
    yes("overload 4 exact", has_static_invocable_r_mem_v<void, Z_smeth_over, Arg>, false);
    exact<void, Z_smeth_over, Arg>("overload 4 as a method", 0);
    exact<void, Z_over>("overloaded method 1", 0);
    exact<int, Z_over, int>("overloaded method 2", 0);
    exact<int, Z_over>("overloaded method, mixed", kNone);
    calls_on_forms<Z_over>("overloaded method 1", 0, true);
    calls_on_forms<Z_over, int>("overloaded method 2", 0, true);
    calls_on_forms<Z_over, int, int>("overloaded method, mixed", 0, false);
    // the conversion of the argument may throw
    yes("throwing conversion, static", has_static_invocable_mem_v<Z_smeth_conv, int>, true);
    yes("throwing conversion, static noexcept",
        has_static_invocable_mem_noexcept_v<Z_smeth_conv, int>, false);
    yes("throwing conversion", has_invocable_mem_v<Z_meth_conv&, int>, true);
    yes("throwing conversion, noexcept", has_invocable_mem_noexcept_v<Z_meth_conv&, int>,
        false);
    yes("other, free", is_other_invocable_v<int>, true);
    yes("other, free, result", is_other_invocable_r_v<int, char>, true);
    yes("other, free, noexcept", is_other_noexcept_invocable_v<int>, false);
    yes("other, free, none", is_other_invocable_v<>, false);
    yes("free function found by its argument", is_mem_invocable_v<later::ByLookup>, true);
    yes("free function found by its argument, result",
        is_mem_invocable_r_v<int, later::ByLookup>, true);
    yes("other function by that argument", is_other_invocable_v<later::ByLookup>, false);
    done();
}
void free_functions()
{
    cases();
    free_len<0>(std::make_integer_sequence<int, 1>{});
    free_len<1>(std::make_integer_sequence<int, 7>{});
    free_len<2>(std::make_integer_sequence<int, 49>{});
    free_len<3>(std::make_integer_sequence<int, 343>{});
    done();
    mc::sample("mem(Arg&, double, int): is_mem_invocable_r<Arg>");
}
#endif
#if ON(8)
// ---- every result or type against every requested one ----------------------------------
struct Fwd;
struct Base8
{
};
struct Derived8 : Base8
{
};
struct FromInt8
{
    FromInt8(int);
};
struct Explicit8
{
    explicit Explicit8(int);
    explicit operator int() const;
};
struct ToInt8
{
    operator int&() const;
};
struct Virt8
{
    virtual ~Virt8();
};
enum E8
{
    e8
};
enum class Ec8 : char
{
    a
};
template <class... T>
struct all_of
{
};
using Types8 = all_of<
    void, const void, volatile void, const volatile void, bool, char, const char, int,
    const int, volatile int, const volatile int, unsigned, long, double, const double, int&,
    const int&, volatile int&, int&&, const int&&, long&, const long&, int*, const int*,
    int* const, int* const&, void*, const void*, std::nullptr_t, int (*)(), int (*)() noexcept,
    int (&)(), int (&)[2], const int (&)[2], int Base8::*, int Derived8::*, int (Base8::*)(),
    Base8, const Base8, Derived8, const Derived8, Base8&, const Base8&, Derived8&, Base8&&,
    Derived8&&, Base8*, Derived8*, const Derived8*, FromInt8, Explicit8, ToInt8, const ToInt8&,
    E8, const E8, Ec8, Fwd*, Fwd&, std::string, const char*, const char (&)[3], std::true_type,
    const std::true_type, std::false_type, utils::type_list<>>;
template <class R>
struct Type8
{
    using mem = R;
};
template <class R>
struct Static8
{
    static R mem(int);
};
template <class R>
struct StaticNx8
{
    static R mem(int) noexcept;
};
template <class R>
struct Method8
{
    R mem(int);
};
template <class R>
struct MethodNx8
{
    R mem(int) const& noexcept;
};
template <class R, class X>
void result_pair(int i, int j)
{
    g_case = fmt("type number %d where type number %d is asked for", i, j);
    mc::beat();
    constexpr bool same = std::is_same_v<R, X>;
    constexpr bool same_call = std::is_same_v<decltype(later::mem(later::Gives<R>{})), X>;
    constexpr bool conv = std::is_convertible_v<R, X>;
    const struct
    {
        const char* what;
        bool got, want;
    } q[] = {
        {"exact type", has_exact_type_mem_v<Type8<R>, X>, same},
        {"exact type (struct)", has_exact_type_mem<Type8<R>, X>::value, same},
        {"convertible type", has_convertible_type_mem_v<Type8<R>, X>, conv},
        {"convertible type (struct)", has_convertible_type_mem<Type8<R>, X>::value, conv},
        {"free function", is_mem_invocable_r_v<X, later::Gives<R>>, same_call},
        {"free function (struct)", is_mem_invocable_r<X, later::Gives<R>>::value, same_call},
        {"free function, noexcept", is_mem_noexcept_invocable_r_v<X, later::Gives<R>>, false},
        {"noexcept free function", is_mem_invocable_r_v<X, later::GivesNx<R>>, same_call},
        {"noexcept free function, noexcept",
         is_mem_noexcept_invocable_r_v<X, later::GivesNx<R>>, same_call},
        {"noexcept free function, noexcept (struct)",
         is_mem_noexcept_invocable_r<X, later::GivesNx<R>>::value, same_call},
        {"static method", has_static_invocable_r_mem_v<X, Static8<R>, int>, same},
        {"static method (struct)", has_static_invocable_r_mem<X, Static8<R>, int>::value, same},
        {"static method, noexcept", has_static_invocable_r_mem_noexcept_v<X, Static8<R>, int>,
         false},
        {"noexcept static method", has_static_invocable_r_mem_v<X, StaticNx8<R>, int>, same},
        {"noexcept static method, noexcept",
         has_static_invocable_r_mem_noexcept_v<X, StaticNx8<R>, int>, same},
        {"static method taking another type", has_static_invocable_r_mem_v<X, Static8<R>, long>,
         false},
        {"method", has_invocable_r_mem_v<X, Method8<R>, int>, same},
        {"method asked for as const & noexcept",
         has_invocable_r_mem_const_ref_noexcept_v<X, Method8<R>, int>, false},
        {"const & noexcept method", has_invocable_r_mem_const_ref_noexcept_v<X, MethodNx8<R>, int>,
         same},
        {"const & noexcept method asked for as const &",
         has_invocable_r_mem_const_ref_v<X, MethodNx8<R>, int>, same},
        {"const & noexcept method asked for as plain",
         has_invocable_r_mem_v<X, MethodNx8<R>, int>, false},
    };
    for (auto& x: q)
    {
        MC_CHECK("C34", x.got == x.want, "%s is %s", x.what, x.got ? "true" : "false");
        g_nt += x.want;
    }
    g_n += sizeof q / sizeof *q;
}
template <class R, class... X>
void result_row(int i, all_of<X...>)
{
    int j = 0;
    (result_pair<R, X>(i, j++), ...);
}
template <class... R>
void result_rows(all_of<R...>)
{
    int i = 0;
    (result_row<R>(i++, Types8{}), ...);
}
void results()
{
    cases();
    result_rows(Types8{});
    done();
}
#endif
void reg()
{
#if ON(1)
    mc::add("methods_1", methods_1);
#endif
#if ON(2)
    mc::add("methods_2", methods_2);
#endif
#if ON(3)
    mc::add("methods_3", methods_3);
#endif
#if ON(4)
    mc::add("methods_4", methods_4);
#endif
#if ON(5)
    mc::add("methods_5", methods_5);
#endif
#if ON(6)
    mc::add("methods_6", methods_6);
#endif
#if ON(7)
    mc::add("kinds", kinds);
    mc::add("free_functions", free_functions);
#endif
#if ON(8)
    mc::add("results", results);
#endif
}
}  // namespace
#endif
#if PART == 35
// Every operation is written once as the alias given to the library and once as the
// return type of an overload that the reference asks the compiler to choose.
namespace
{
template <class T>
struct tag
{
};
template <class T>
struct box
{
    using type = T;
};
struct none
{
};

struct E_
{
};
struct Dflt
{
    explicit Dflt(E_) {}
};
struct Full
{
    using type = int;
    using nested = Full*;
    static constexpr int constant = 3;
    int data = 0;
    int f() { return 0; }
    const char* f(int) const { return ""; }
    double operator()(int) const { return 0; }
    void operator()() {}
    Full& operator++() { return *this; }
    int operator++(int) { return 0; }
    int& operator*() { return data; }
    Full operator+(int) const { return {}; }
    bool operator==(const Full&) const { return true; }
    char operator[](int) const { return 0; }
    operator int() const { return 0; }
};
struct Hidden
{
private:
    using type = int;
    using nested = Hidden*;
    int data;
    int f() { return 0; }
    double operator()(int) const { return 0; }
    int& operator*() { return data; }
    Hidden operator+(int) const { return *this; }
    bool operator==(const Hidden&) const { return true; }
    char operator[](int) const { return 0; }
    operator int() const { return 0; }
};
class NoDtor
{
    ~NoDtor() = default;

public:
    using type = void;
};
struct NoCopy
{
    NoCopy() = default;
    NoCopy(const NoCopy&) = delete;
    NoCopy(NoCopy&&) = delete;
    NoCopy& operator=(const NoCopy&) = delete;
    using type = NoCopy&;
    NoCopy& f() { return *this; }
};
struct MoveOnly
{
    MoveOnly() = default;
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
    using type = const char&&;
    static void f() {}
    static int data;
};
struct NoDefault
{
    NoDefault(int) {}
    void f() && {}
    int type() { return 0; }     // not a type
    int data() const { return 0; }  // not a data member
};
struct Abstract
{
    virtual void f() = 0;
    virtual ~Abstract() = default;
    template <class T>
    using type = T;  // a template, not a type
};
struct Derived : Full
{
};
struct Ambiguous_a
{
    using type = int;
    int data;
    int f() { return 0; }
};
struct Ambiguous_b
{
    using type = char;
    int data;
    int f() { return 0; }
};
struct Ambiguous : Ambiguous_a, Ambiguous_b
{
};
struct Incomplete;
struct Expl
{
    explicit operator int() const { return 0; }
    explicit operator bool() const { return true; }
    template <class T>
    auto f() -> T
    {
        return {};
    }
};
struct Amp
{
    int operator&() const { return 0; }
    void operator,(int) const {}
    int operator->() const { return 0; }
};
struct PrivateBase : private Full
{
};
union Un
{
    int data;
    char type_;
    using type = char;
};
enum En
{
    en0
};
enum class Ec : char
{
    a
};
template <class T>
struct Needs
{
    using type = typename std::enable_if<sizeof(T) == 4, T>::type;
};
auto lambda_ = [](int i) { return i; };
using Lambda = decltype(lambda_);
int plain_function(int);

int adl(const Full&);
void adl(const NoCopy&);
void adl(En);

template <class T>
T&& val() noexcept;

template <class T>
using Plain = std::remove_reference_t<T>;
// operations on one type
#define UNARY(F)                                                                  \
    F(Identity, T)                                                                \
    F(Constant, int)                                                              \
    F(Void, void)                                                                 \
    F(Pointer, T*)                                                                \
    F(LRef, T&)                                                                   \
    F(RRef, T&&)                                                                  \
    F(Array, T[2])                                                                \
    F(Returning, T())                                                             \
    F(Taking, void(T))                                                            \
    F(Member, int T::*)                                                           \
    F(MemberType, typename T::type)                                               \
    F(MemberTypeRef, typename T::nested&)                                         \
    F(StaticConstant, std::integral_constant<int, T::constant>)                   \
    F(Data, decltype(val<T>().data))                                              \
    F(DataLv, decltype((val<T&>().data)))                                         \
    F(MemberPointer, decltype(&T::data))                                          \
    F(Call_f, decltype(val<T>().f()))                                             \
    F(Call_f_lv, decltype(val<T&>().f()))                                         \
    F(Call_f_const, decltype(val<const T&>().f(1)))                               \
    F(Call_f_tmpl, decltype(val<T>().template f<char>()))                         \
    F(Call, decltype(val<T>()()))                                                 \
    F(CallInt, decltype(val<T>()(1)))                                             \
    F(PreInc, decltype(++val<T&>()))                                              \
    F(PostInc, decltype(val<T&>()++))                                             \
    F(Deref, decltype(*val<T>()))                                                 \
    F(Address, decltype(&val<T&>()))                                              \
    F(Index, decltype(val<T>()[0]))                                               \
    F(Not, decltype(!val<T>()))                                                   \
    F(Minus, decltype(-val<T>()))                                                 \
    F(Create, decltype(T()))                                                      \
    F(New, decltype(new T))                                                       \
    F(CopyOf, decltype(T(val<const T&>())))                                       \
    F(MoveOf, decltype(T(val<T>())))                                              \
    F(CopyAssign, decltype(val<T&>() = val<const T&>()))                          \
    F(MoveAssign, decltype(val<T&>() = val<T>()))                                 \
    F(Destroy, decltype(val<Plain<T>&>().~Plain<T>()))                                 \
    F(SizeOf, std::integral_constant<size_t, sizeof(T)>)                          \
    F(FourBytes, std::enable_if_t<sizeof(T) == 4, T>)                             \
    F(Underlying, std::enable_if_t<std::is_enum_v<T>, char>)                      \
    F(Lookup, decltype(adl(val<T>())))                                            \
    F(Comma, decltype((val<T>(), 1)))                                             \
    F(ToIntC, decltype(static_cast<int>(val<T>())))                               \
    F(FromInt, decltype(static_cast<T>(1)))                                       \
    F(BaseCast, decltype(static_cast<Full&>(val<T&>())))                          \
    F(TypeId, std::decay_t<T>)

// operations on two types
#define BINARY(F)                                                                 \
    F(Plus, decltype(val<T>() + val<U>()))                                        \
    F(Assign, decltype(val<T&>() = val<U>()))                                     \
    F(Equal, decltype(val<T>() == val<U>()))                                      \
    F(Cast, decltype(static_cast<U>(val<T>())))                                   \
    F(Invoke1, decltype(val<T>()(val<U>())))                                      \
    F(Subscript, decltype(val<T>()[val<U>()]))                                    \
    F(Choose, decltype(true ? val<T>() : val<U>()))                               \
    F(FunctionType, T(U))                                                         \
    F(MemberOf, T U::*)                                                           \
    F(SameSize, std::enable_if_t<sizeof(T) == sizeof(U), box<U>>)                 \
    F(First, T)                                                                   \
    F(Access, decltype(val<T>().*val<U>()))                                       \
    F(ReinterpretCast, decltype(reinterpret_cast<U>(val<T>())))                   \
    F(DynCast, decltype(dynamic_cast<U>(val<T>())))

// operations on three types
#define TERNARY(F)                                                                \
    F(Conditional, decltype(val<T>() ? val<U>() : val<V>()))                      \
    F(Invoke2, decltype(val<T>()(val<U>(), val<V>())))                            \
    F(Function3, T(U, V))                                                         \
    F(AddAssign, decltype(val<T&>() = val<U>() + val<V>()))

#define DEF1(N, ...)                                     \
    template <class T>                                   \
    using N = __VA_ARGS__;                               \
    template <class T>                                   \
    box<__VA_ARGS__> ref_##N(int);                       \
    template <class T>                                   \
    none ref_##N(long);
#define DEF2(N, ...)                                     \
    template <class T, class U>                          \
    using N = __VA_ARGS__;                               \
    template <class T, class U>                          \
    box<__VA_ARGS__> ref_##N(int);                       \
    template <class T, class U>                          \
    none ref_##N(long);
#define DEF3(N, ...)                                     \
    template <class T, class U, class V>                 \
    using N = __VA_ARGS__;                               \
    template <class T, class U, class V>                 \
    box<__VA_ARGS__> ref_##N(int);                       \
    template <class T, class U, class V>                 \
    none ref_##N(long);
UNARY(DEF1)
BINARY(DEF2)
TERNARY(DEF3)

// operations on none and on any number of types
template <class...>
using Nothing = const char;
template <class... T>
using AllTuple = std::tuple<T...>;
template <class F, class... A>
using InvokeAny = decltype(val<F>()(val<A>()...));
template <class T = int, class U = T>
using Defaulted = std::pair<T, U>;

template <class A, class B>
constexpr bool same = std::is_same<A, B>::value;

// the answers that are wrong, as bits
template <class To, template <class...> class Op, class... Ts>
constexpr bool conv_ok(bool want)
{
    return utils::is_detected_convertible_v<To, Op, Ts...> == want &&
           utils::is_detected_convertible<To, Op, Ts...>::value == want;
}
template <class Ex, template <class...> class Op, class... Ts>
constexpr bool exact_ok(bool want)
{
    return utils::is_detected_exact_v<Ex, Op, Ts...> == want &&
           utils::is_detected_exact<Ex, Op, Ts...>::value == want;
}
template <class R, template <class...> class Op, class... Ts>
constexpr bool conv_all()
{
    if constexpr (same<std::remove_cv_t<std::remove_all_extents_t<R>>, Incomplete>)
        return true;
    else
        return conv_ok<int, Op, Ts...>(std::is_convertible_v<R, int>) &&
               conv_ok<void, Op, Ts...>(std::is_void_v<R>) &&
               conv_ok<bool, Op, Ts...>(std::is_convertible_v<R, bool>) &&
               conv_ok<double, Op, Ts...>(std::is_convertible_v<R, double>) &&
               conv_ok<box<R>, Op, Ts...>(false) &&
               conv_ok<const void*, Op, Ts...>(std::is_convertible_v<R, const void*>);
}
template <class R, template <class...> class Op, class... Ts>
struct verify;
template <template <class...> class Op, class... Ts>
struct verify<none, Op, Ts...>
{
    static constexpr unsigned mask =
        (utils::is_detected_v<Op, Ts...> ? 1u : 0) |
        (!same<utils::is_detected<Op, Ts...>, std::false_type> ? 2u : 0) |
        (!same<utils::detected_t<Op, Ts...>, utils::nonesuch> ? 4u : 0) |
        (!same<utils::detected_or_t<Dflt, Op, Ts...>, Dflt> ||
                 !same<utils::detected_or_t<void, Op, Ts...>, void> ||
                 !same<utils::detected_or_t<int&, Op, Ts...>, int&>
             ? 8u
             : 0) |
        (!same<typename utils::detected_or<Dflt, Op, Ts...>::type, Dflt> ||
                 utils::detected_or<Dflt, Op, Ts...>::value_t::value
             ? 16u
             : 0) |
        (!exact_ok<int, Op, Ts...>(false) || !exact_ok<void, Op, Ts...>(false) ||
                 !exact_ok<Dflt, Op, Ts...>(false)
             ? 32u
             : 0) |
        (!conv_ok<int, Op, Ts...>(false) || !conv_ok<void, Op, Ts...>(false) ||
                 !conv_ok<bool, Op, Ts...>(false) || !conv_ok<Full, Op, Ts...>(false) ||
                 !conv_ok<const void*, Op, Ts...>(false)
             ? 64u
             : 0);
    static constexpr bool nontrivial = false;
};
template <class R, template <class...> class Op, class... Ts>
struct verify<box<R>, Op, Ts...>
{
    static constexpr unsigned mask =
        (!utils::is_detected_v<Op, Ts...> ? 1u : 0) |
        (!same<utils::is_detected<Op, Ts...>, std::true_type> ? 2u : 0) |
        (!same<utils::detected_t<Op, Ts...>, R> ? 4u : 0) |
        (!same<utils::detected_or_t<Dflt, Op, Ts...>, R> ||
                 !same<utils::detected_or_t<void, Op, Ts...>, R> ||
                 !same<utils::detected_or_t<int&, Op, Ts...>, R>
             ? 8u
             : 0) |
        (!same<typename utils::detected_or<Dflt, Op, Ts...>::type, R> ||
                 !utils::detected_or<Dflt, Op, Ts...>::value_t::value
             ? 16u
             : 0) |
        (!exact_ok<R, Op, Ts...>(true) || !exact_ok<int, Op, Ts...>(same<R, int>) ||
                 !exact_ok<void, Op, Ts...>(same<R, void>) ||
                 !exact_ok<box<R>, Op, Ts...>(false) ||
                 !exact_ok<const int&, Op, Ts...>(same<R, const int&>)
             ? 32u
             : 0) |
        (conv_all<R, Op, Ts...>() ? 0u : 64u);
    static constexpr bool nontrivial = true;
};
void judge(const char* op, const char* types, unsigned mask, bool nontrivial)
{
    ++g_n;
    g_nt += nontrivial;
    ++mc::S().beat;
    if (!mask) return;
    static const char* what[] = {"is_detected_v", "is_detected", "detected_t",
                                 "detected_or_t", "detected_or", "is_detected_exact",
                                 "is_detected_convertible"};
    std::string w;
    for (int i = 0; i < 7; ++i)
        if (mask >> i & 1) w += std::string(w.empty() ? "" : ", ") + what[i];
    g_case = std::string(op) + " of " + types;
    mc::fail("C35", fmt("%s wrong for %s, which is %s-formed", w.c_str(), g_case.c_str(),
                        nontrivial ? "well" : "ill"));
}

template <class... T>
struct types
{
};
#define ALL_TYPES                                                                     \
    void, int, const int, volatile long, int&, const int&, int&&, double, bool,       \
        const char*, int*, void*, Full*, Abstract*, Incomplete*, std::nullptr_t,       \
        int[3], int[], int(), int() const, void(Full&), int (*)(int), int (&)(char),    \
        int Full::*, int (Full::*)(), E_, Full, const Full, Full&, const Full&, Hidden, NoDtor,    \
        NoCopy, const NoCopy&, MoveOnly, NoDefault, Abstract, Abstract&, Derived, Ambiguous,       \
        Incomplete, Incomplete&, Expl, Amp, PrivateBase, Un, En, Ec, Lambda, Needs<int>, \
        std::string, std::vector<int>, utils::nonesuch
#define SOME_TYPES                                                                  \
    void, int, int&, const char*, Full*, int[3], int(), int (*)(int), int Full::*, Full,          \
        const Full&, Hidden, NoCopy, MoveOnly, NoDefault, Abstract, Derived*, Incomplete, Expl, En, Ec, \
        Lambda, std::string, Derived&
#define FEW_TYPES void, int, bool, const char*, Full, NoCopy, Lambda, Hidden, int (*)(int, char)

template <class T>
std::string tname()
{
    std::string s = __PRETTY_FUNCTION__;
    size_t a = s.find("T = ");
    size_t e = s.find(';', a);
    if (e == std::string::npos) e = s.rfind(']');
    return s.substr(a + 4, e - a - 4);
}

#define RUN1(N, ...)                                                                      \
    {                                                                                     \
        using V = verify<decltype(ref_##N<T>(0)), N, T>;                                  \
        judge(#N, tname<T>().c_str(), V::mask, V::nontrivial);                            \
    }
template <class T>
void unary_of()
{
    UNARY(RUN1)
}
#define RUN2(N, ...)                                                                      \
    {                                                                                     \
        using V = verify<decltype(ref_##N<T, U>(0)), N, T, U>;                            \
        judge(#N, (tname<T>() + ", " + tname<U>()).c_str(), V::mask, V::nontrivial);      \
    }
template <class T, class U>
void binary_of()
{
    BINARY(RUN2)
}
#define RUN3(N, ...)                                                                      \
    {                                                                                     \
        using W = verify<decltype(ref_##N<T, U, V>(0)), N, T, U, V>;                      \
        judge(#N, (tname<T>() + ", " + tname<U>() + ", " + tname<V>()).c_str(), W::mask,  \
              W::nontrivial);                                                             \
    }
template <class T, class U, class V>
void ternary_of()
{
    TERNARY(RUN3)
}
// every n-th type of a list starting with number r
template <size_t N, size_t R, class List, class Out, size_t I = 0>
struct pick;
template <size_t N, size_t R, class... O, size_t I>
struct pick<N, R, types<>, types<O...>, I>
{
    using type = types<O...>;
};
template <size_t N, size_t R, class H, class... T, class... O, size_t I>
struct pick<N, R, types<H, T...>, types<O...>, I>
    : pick<N, R, types<T...>,
           std::conditional_t<I % N == R, types<O..., H>, types<O...>>, I + 1>
{
};

template <class... T>
void each1(types<T...>)
{
    (unary_of<T>(), ...);
}
template <class A, class... T>
void each2(types<T...>)
{
    (binary_of<A, T>(), ...);
}
template <class... A, class L>
void pairs(types<A...>, L l)
{
    (each2<A>(l), ...);
}
template <class A, class B, class... T>
void each3(types<T...>)
{
    (ternary_of<A, B, T>(), ...);
}
template <class A, class L, class... B>
void each3b(types<B...>, L l)
{
    (each3<A, B>(l), ...);
}
template <class... A, class L>
void triples(types<A...>, L l)
{
    (each3b<A>(l, l), ...);
}

#if ON(1) || ON(2)
template <int R>
void unary()
{
    cases();
    each1(typename pick<2, R, types<ALL_TYPES>, types<>>::type{});
    done();
    mc::sample("MemberType of Hidden: ill-formed");
}
#endif
#if ON(3) || ON(4)
template <int R>
void binary()
{
    cases();
    pairs(typename pick<2, R, types<SOME_TYPES>, types<>>::type{}, types<SOME_TYPES>{});
    done();
    mc::sample("Cast of Full, int: well-formed, int");
}
#endif
#if ON(6) || ON(7)
// every default, expected type and conversion target against every type and no type
template <class>
struct never_of;
template <class T>
using Never = typename never_of<T>::type;
template <class T>
constexpr bool complete_ =
    !same<std::remove_cv_t<std::remove_reference_t<std::remove_all_extents_t<T>>>, Incomplete>;
template <class R, class D>
constexpr unsigned well_mask()
{
    using namespace utils;
    unsigned m = 0;
    if (!same<detected_or_t<D, Identity, R>, R>) m |= 8;
    if (!same<typename detected_or<D, Identity, R>::type, R>) m |= 16;
    if (!detected_or<D, Identity, R>::value_t::value) m |= 16;
    if (!exact_ok<D, Identity, R>(same<R, D>)) m |= 32;
    if constexpr (complete_<R> && complete_<D>)
        if (!conv_ok<D, Identity, R>(std::is_convertible_v<R, D>)) m |= 64;
    return m;
}
template <class R, class D>
constexpr unsigned ill_mask()
{
    using namespace utils;
    unsigned m = 0;
    if (is_detected_v<Never, R>) m |= 1;
    if (!same<detected_t<Never, R>, nonesuch>) m |= 4;
    if (!same<detected_or_t<D, Never, R>, D>) m |= 8;
    if (!same<typename detected_or<D, Never, R>::type, D>) m |= 16;
    if (detected_or<D, Never, R>::value_t::value) m |= 16;
    if constexpr (!same<D, nonesuch>)
        if (!exact_ok<D, Never, R>(false)) m |= 32;
    if constexpr (complete_<D>)
        if (!conv_ok<D, Never, R>(std::is_convertible_v<nonesuch, D>)) m |= 64;
    return m;
}
template <class R, class D>
void target_of()
{
    judge("the operation T", (tname<R>() + ", default/target " + tname<D>()).c_str(),
          well_mask<R, D>(), true);
    judge("an operation that no type has",
          (tname<R>() + ", default/target " + tname<D>()).c_str(), ill_mask<R, D>(), false);
}
template <class R, class... D>
void targets_of(types<D...>)
{
    (target_of<R, D>(), ...);
}
template <class... R, class L>
void all_targets(types<R...>, L l)
{
    (targets_of<R>(l), ...);
}
template <int R>
void targets()
{
    cases();
    all_targets(typename pick<2, R, types<ALL_TYPES>, types<>>::type{}, types<ALL_TYPES>{});
    done();
    mc::sample("detected_or_t<const int, Never, Full> is const int");
}
#endif
#if ON(5)
void ternary()
{
    cases();
    triples(types<FEW_TYPES>{}, types<FEW_TYPES>{});
    done();
    mc::sample("Conditional of bool, int, Full");
}

void fact(const char* what, bool ok)
{
    ++g_n;
    ++g_nt;
    ++mc::S().beat;
    g_case = what;
    if (!ok) mc::fail("C35", fmt("wrong: %s", what));
}
#define FACT(...) fact(#__VA_ARGS__, (__VA_ARGS__))
struct Any
{
    template <class T>
    Any(T&&)
    {
    }
};
// answers written down by hand, so that they do not depend on the reference
void known()
{
    using namespace utils;
    cases();
    FACT(is_detected_v<Nothing>);
    FACT(same<detected_t<Nothing>, const char>);
    FACT(is_detected_v<Nothing, void, int, Full>);
    FACT(same<detected_or_t<int, Nothing, void>, const char>);
    FACT(same<detected_t<AllTuple>, std::tuple<>>);
    FACT(same<detected_t<AllTuple, int, Full&>, std::tuple<int, Full&>>);
    FACT(same<detected_t<AllTuple, void>, std::tuple<void>>);
    FACT(is_detected_exact_v<const char, Nothing>);
    FACT(!is_detected_exact_v<char, Nothing>);
    FACT(is_detected_convertible_v<int, Nothing>);
    FACT(!is_detected_convertible_v<void*, Nothing>);
    FACT(is_detected_v<InvokeAny, Lambda, int>);
    FACT(!is_detected_v<InvokeAny, Lambda>);
    FACT(!is_detected_v<InvokeAny, Lambda, int, int>);
    FACT(!is_detected_v<InvokeAny, Lambda, const char*>);
    FACT(same<detected_t<InvokeAny, Full>, void>);
    FACT(same<detected_t<InvokeAny, Full, int>, double>);
    FACT(same<detected_t<InvokeAny, const Full>, nonesuch>);
    FACT(same<detected_t<Defaulted>, std::pair<int, int>>);
    FACT(same<detected_t<Defaulted, char>, std::pair<char, char>>);
    FACT(same<detected_t<Defaulted, char, int>, std::pair<char, int>>);
    FACT(is_detected_v<MemberType, Full>);
    FACT(same<detected_t<MemberType, Full>, int>);
    FACT(same<detected_t<MemberType, Derived>, int>);
    FACT(!is_detected_v<MemberType, Hidden>);
    FACT(!is_detected_v<MemberType, E_>);
    FACT(!is_detected_v<MemberType, int>);
    FACT(!is_detected_v<MemberType, void>);
    FACT(!is_detected_v<MemberType, Ambiguous>);
    FACT(!is_detected_v<MemberType, Abstract>);
    FACT(!is_detected_v<MemberType, NoDefault>);
    FACT(!is_detected_v<MemberType, Full&>);
    FACT(!is_detected_v<MemberType, Full*>);
    FACT(same<detected_t<MemberType, const Full>, int>);
    FACT(same<detected_t<MemberType, NoDtor>, void>);
    FACT(is_detected_exact_v<void, MemberType, NoDtor>);
    FACT(is_detected_convertible_v<void, MemberType, NoDtor>);
    FACT(!is_detected_convertible_v<int, MemberType, NoDtor>);
    FACT(same<detected_t<MemberType, NoCopy>, NoCopy&>);
    FACT(same<detected_t<MemberType, MoveOnly>, const char&&>);
    FACT(is_detected_convertible_v<int, MemberType, MoveOnly>);
    FACT(!is_detected_v<Pointer, int&>);
    FACT(!is_detected_v<Pointer, int() const>);
    FACT(same<detected_t<LRef, int&&>, int&>);
    FACT(!is_detected_v<LRef, void>);
    FACT(!is_detected_v<Array, void>);
    FACT(!is_detected_v<Array, int&>);
    FACT(!is_detected_v<Array, int[]>);
    FACT(same<detected_t<Array, int[3]>, int[2][3]>);
    FACT(!is_detected_v<Returning, int[3]>);
    FACT(!is_detected_v<Returning, int()>);
    FACT(!is_detected_v<Member, int>);
    FACT(!is_detected_v<SizeOf, Incomplete>);
    FACT(!is_detected_v<SizeOf, void>);
    FACT(!is_detected_v<CopyAssign, NoCopy>);
    FACT(!is_detected_v<CopyAssign, MoveOnly>);
    FACT(is_detected_v<MoveAssign, MoveOnly>);
    FACT(!is_detected_v<MoveAssign, const Full>);
    FACT(same<detected_t<CopyAssign, Full>, Full&>);
    FACT(!is_detected_v<Create, NoDefault>);
    FACT(!is_detected_v<Create, Abstract>);
    FACT(!is_detected_v<Destroy, NoDtor>);
    FACT(is_detected_v<Destroy, Full>);
    FACT(!is_detected_v<Destroy, nonesuch>);
    FACT(!is_detected_v<CopyOf, nonesuch>);
    FACT(!is_detected_v<CopyAssign, nonesuch>);
    FACT(!is_detected_v<Create, nonesuch>);
    FACT(!is_detected_v<Call_f, NoDefault&>);
    FACT(is_detected_v<Call_f, NoDefault>);
    FACT(!is_detected_v<Call_f, const Full>);
    FACT(!is_detected_v<Call_f, Hidden>);
    FACT(!is_detected_v<Data, Hidden>);
    FACT(!is_detected_v<Data, PrivateBase>);
    FACT(!is_detected_v<BaseCast, PrivateBase>);
    FACT(same<detected_t<Data, Full>, int>);
    FACT(same<detected_t<DataLv, Full>, int&>);
    FACT(same<detected_t<DataLv, const Full>, const int&>);
    FACT(is_detected_v<FourBytes, int> && !is_detected_v<FourBytes, double>);
    FACT(is_detected_convertible_v<double, FourBytes, int>);
    FACT(!is_detected_convertible_v<double, FourBytes, double>);
    FACT(is_detected_exact_v<double, Plus, int, double>);
    FACT(!is_detected_exact_v<int, Plus, int, double>);
    FACT(!is_detected_v<Plus, Full*, Full*>);
    FACT(is_detected_exact_v<Full, Plus, Full, int>);
    FACT(!is_detected_v<Plus, Hidden, int>);
    FACT(is_detected_convertible_v<Any, FourBytes, int>);
    FACT(!std::is_default_constructible_v<nonesuch>);
    FACT(!std::is_copy_constructible_v<nonesuch>);
    FACT(!std::is_move_constructible_v<nonesuch>);
    FACT(!std::is_copy_assignable_v<nonesuch>);
    FACT(!std::is_move_assignable_v<nonesuch>);
    FACT(!std::is_destructible_v<nonesuch>);
    FACT(!std::is_convertible_v<nonesuch, int>);
    FACT(!std::is_convertible_v<int, nonesuch>);
    FACT(!std::is_assignable_v<nonesuch&, int>);
    FACT(!std::is_constructible_v<nonesuch, int>);
    FACT(!std::is_swappable_v<nonesuch>);
    FACT(std::is_class_v<nonesuch>);
    done();
    mc::sample("is_detected_v<MemberType, Hidden> is false");
}
#endif

void reg()
{
#if ON(1)
    mc::add("unary_1", unary<0>);
#endif
#if ON(2)
    mc::add("unary_2", unary<1>);
#endif
#if ON(3)
    mc::add("binary_1", binary<0>);
#endif
#if ON(4)
    mc::add("binary_2", binary<1>);
#endif
#if ON(5)
    mc::add("ternary", ternary);
    mc::add("known", known);
#endif
#if ON(6)
    mc::add("targets_1", targets<0>);
#endif
#if ON(7)
    mc::add("targets_2", targets<1>);
#endif
}
}  // namespace
#endif
#if PART == 36
// Aggregates of every sequence of member types; the reference marks the bytes of the
// members by their addresses inside a real object.
namespace
{
template <class... T>
struct G;
template <>
struct G<>
{
};
template <class A>
struct G<A>
{
    A a;
};
template <class A, class B>
struct G<A, B>
{
    A a;
    B b;
};
template <class A, class B, class C>
struct G<A, B, C>
{
    A a;
    B b;
    C c;
};
template <class A, class B, class C, class D>
struct G<A, B, C, D>
{
    A a;
    B b;
    C c;
    D d;
};
template <class A, class B, class C, class D, class E>
struct G<A, B, C, D, E>
{
    A a;
    B b;
    C c;
    D d;
    E e;
};
template <size_t Al, class A>
struct alignas(Al) W1
{
    A a;
};
template <size_t Al, class A, class B>
struct W2
{
    A a;
    alignas(Al) B b;
};
#pragma pack(push, 1)
template <class A, class B, class C>
struct P3
{
    A a;
    B b;
    C c;
};
#pragma pack(pop)
template <class A, class B>
struct Q2
{
    const A a;
    B b;
};

using Bytes = std::vector<bool>;
template <class T, class = void>
struct members
{
    static void mark(size_t at, Bytes& b)
    {
        for (size_t i = 0; i < sizeof(T); ++i) b[at + i] = true;
    }
};
template <class O, class M>
void mark_member(const O& o, const M& m, size_t at, Bytes& b)
{
    members<std::remove_cv_t<M>>::mark(
        at + (size_t)(reinterpret_cast<const char*>(&m) - reinterpret_cast<const char*>(&o)), b);
}
template <class T>
struct buffer_of
{
    alignas(T) unsigned char bytes[sizeof(T)];
    const T& get() const { return *reinterpret_cast<const T*>(bytes); }
};
#define M(x) mark_member(o, o.x, at, b);
#define MEMBERS(TMPL, TYPE, ...)                    \
    template <TMPL>                                 \
    struct members<TYPE, void>                      \
    {                                               \
        static void mark(size_t at, Bytes& b)       \
        {                                           \
            static buffer_of<TYPE> buf;             \
            auto& o = buf.get();                    \
            (void)o;                                \
            (void)at;                               \
            (void)b;                                \
            __VA_ARGS__                             \
        }                                           \
    };
#define X(...) __VA_ARGS__
template <>
struct members<G<>, void>
{
    static void mark(size_t, Bytes&) {}
};
MEMBERS(class A, G<A>, M(a))
MEMBERS(X(class A, class B), X(G<A, B>), M(a) M(b))
MEMBERS(X(class A, class B, class C), X(G<A, B, C>), M(a) M(b) M(c))
MEMBERS(X(class A, class B, class C, class D), X(G<A, B, C, D>), M(a) M(b) M(c) M(d))
MEMBERS(X(class A, class B, class C, class D, class E), X(G<A, B, C, D, E>),
        M(a) M(b) M(c) M(d) M(e))
MEMBERS(X(size_t Al, class A), X(W1<Al, A>), M(a))
MEMBERS(X(size_t Al, class A, class B), X(W2<Al, A, B>), M(a) M(b))
MEMBERS(X(class A, class B), X(Q2<A, B>), M(a) M(b))
template <class A, class B, class C>
struct members<P3<A, B, C>, void>
{
    static void mark(size_t at, Bytes& b)  // packed: no address of a member
    {
        members<A>::mark(at, b);
        members<B>::mark(at + sizeof(A), b);
        members<C>::mark(at + sizeof(A) + sizeof(B), b);
    }
};

template <class T>
std::string tname()
{
    std::string s = __PRETTY_FUNCTION__;
    size_t a = s.find("T = ");
    size_t e = s.find(';', a);
    if (e == std::string::npos) e = s.rfind(']');
    return s.substr(a + 4, e - a - 4);
}
template <class T>
void judge()
{
    constexpr bool v = utils::has_padding_v<T>;
    constexpr bool v2 = utils::has_padding<T>::value;
    Bytes b(sizeof(T));
    members<std::remove_cv_t<T>>::mark(0, b);
    // (compilers differ about constant members of a class type)
    bool want = !std::is_trivially_copyable_v<T>;
    size_t at = 0;
    for (size_t i = 0; i < sizeof(T); ++i)
        if (!b[i] && !want)
        {
            want = true;
            at = i;
        }
    ++g_n;
    g_nt += want;
    ++mc::S().beat;
    if (v != want || v2 != want)
    {
        g_case = tname<T>();
        mc::fail("C36", want ? fmt("%s: byte %zu of %zu belongs to no member, but no padding is "
                                   "reported", g_case.c_str(), at, sizeof(T))
                             : fmt("%s: padding is reported, but all %zu bytes belong to members",
                                   g_case.c_str(), sizeof(T)));
    }
}

template <class... T>
struct types
{
};
enum : unsigned char
{
    e8_
};
enum E8 : unsigned char
{
};
enum class E16 : short
{
};
struct Cls;
using In = G<char, int>;          // 5 of 8 bytes, gap inside
using Tail = G<int, char>;        // gap at the end
using Full = G<int, int>;         // none
using Small = G<char, char>;      // none, alignment 1
using Deep = G<Small, short, Full>;  // none
using DeepIn = G<Small, In>;      // gap two levels down
using Wide = G<long long, int>;
using PMF = void (Cls::*)();

// every way of completing the types already chosen with N more of the letters
template <size_t N, template <class...> class Agg, class Chosen, class Letters>
struct words;
template <template <class...> class Agg, class... C, class... L>
struct words<0, Agg, types<C...>, types<L...>>
{
    static void run() { judge<Agg<C...>>(); }
};
template <size_t N, template <class...> class Agg, class... C, class... L>
struct words<N, Agg, types<C...>, types<L...>>
{
    static void run() { (words<N - 1, Agg, types<C..., L>, types<L...>>::run(), ...); }
};
template <class... T>
void singles(types<T...>)
{
    (judge<T>(), ...);
    (judge<const T>(), ...);
}

#define SCALARS                                                                         \
    bool, char, unsigned short, int, float, double, long long, void*, E8, E16, int Cls::*, PMF, \
        char32_t, std::nullptr_t
#define NESTED In, Tail, Full, Small, Deep, DeepIn, Wide

#if ON(1)
void short_ones()
{
    cases();
    singles(types<SCALARS, NESTED, long double, G<>, G<G<>>>{});
    words<0, G, types<>, types<>>::run();
    words<1, G, types<>, types<SCALARS, NESTED, G<>, W1<16, char>, long double, __int128>>::run();
    words<2, G, types<>, types<SCALARS, NESTED, G<>, W1<16, char>>>::run();
    done();
    mc::sample("G<char, int>: bytes 1..3 belong to no member");
}
#endif
#if ON(2)
void three_scalars()
{
    cases();
    words<3, G, types<>, types<char, short, int, double, void*, E8, PMF, float>>::run();
    done();
    mc::sample("G<char, char, short>: none");
}
#endif
#if ON(3)
void three_nested()
{
    cases();
    words<3, G, types<>, types<char, short, int, NESTED>>::run();
    done();
    mc::sample("G<Small, short, Full>: none");
}
#endif
#if ON(4)
void four()
{
    cases();
    words<4, G, types<>, types<char, short, int, double>>::run();
    words<4, G, types<>, types<E8, In, Full, Small, Tail>>::run();
    done();
    mc::sample("G<char, char, short, int>: none");
}
#endif
#if ON(5)
template <class... T>
using Inside = G<G<T...>, char>;
template <class... T>
using Before = G<char, G<T...>>;
template <class... T>
using Deeper = G<G<G<T...>>>;
template <class... T>
using Twice = G<G<T...>, G<T...>>;
template <class... T>
using Packed = P3<T...>;
template <class A, class B>
using Quals = Q2<A, B>;
template <class... T>
using AsQ = Q2<T...>;
void nested()
{
    cases();
    words<2, Inside, types<>, types<char, short, int, double, In, Small, G<>>>::run();
    words<2, Before, types<>, types<char, short, int, double, In, Small, G<>>>::run();
    words<2, Deeper, types<>, types<char, short, int, double, In, Small, G<>>>::run();
    words<2, Twice, types<>, types<char, short, int, double, In, Small, G<>>>::run();
    words<3, Inside, types<>, types<char, short, int>>::run();
    words<3, Before, types<>, types<char, short, int>>::run();
    words<3, Packed, types<>, types<char, short, int, double, In, Small>>::run();
    words<2, AsQ, types<>, types<char, short, int, double, In, Small>>::run();
    singles(types<W1<1, char>, W1<2, char>, W1<16, char>, W1<4, int>, W1<8, int>, W1<16, PMF>,
                  W1<32, PMF>, W2<1, char, char>, W2<2, char, char>, W2<8, char, double>,
                  W2<16, double, PMF>, W2<16, PMF, PMF>, W2<8, int, char>,
                  G<W1<4, char>, int>, G<W1<4, int>, int>, G<W2<2, char, char>>,
                  G<P3<char, int, char>, short>, G<P3<char, int, short>, char>,
                  P3<In, char, int>, P3<Full, char, G<>>>{});
    words<5, G, types<>, types<char, short, int>>::run();
    done();
    mc::sample("P3<char, int, char>: none");
}
#endif
#if ON(6)
// many members, also 8 levels deep
template <size_t N>
struct level
{
    using type = G<typename level<N - 1>::type, typename level<N - 1>::type>;
};
template <>
struct level<0>
{
    using type = short;
};
template <size_t N, class Core>
struct shell
{
    using type = G<typename shell<N - 1, Core>::type>;
};
template <class Core>
struct shell<0, Core>
{
    using type = Core;
};
struct Many20
{
    char a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7;
    short c;
    int d;
};
struct Many20p
{
    char a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6;
    short c;
    int d;
    int e;
};
struct Many60
{
    char a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9;
    char c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, d0, d1, d2, d3, d4, d5, d6, d7, d8, d9;
    char e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, f0, f1, f2, f3, f4, f5, f6, f7;
    short g;
};
struct Many60p
{
    char a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9;
    char c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, d0, d1, d2, d3, d4, d5, d6, d7, d8, d9;
    char e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, f0, f1, f2, f3, f4, f5, f6;
    short g;
};
// not trivially copyable, although without a gap
struct CopyCtor
{
    int a;
    CopyCtor() = default;
    CopyCtor(const CopyCtor& o) : a(o.a) {}
};
struct MoveCtor
{
    int a;
    MoveCtor() = default;
    MoveCtor(MoveCtor&& o) : a(o.a) {}
};
struct CopyAssign
{
    int a;
    CopyAssign& operator=(const CopyAssign& o)
    {
        a = o.a;
        return *this;
    }
};
struct MoveAssign
{
    int a;
    MoveAssign& operator=(MoveAssign&& o)
    {
        a = o.a;
        return *this;
    }
};
struct Dtor
{
    int a;
    ~Dtor() {}
};
struct VirtualDtor
{
    virtual ~VirtualDtor() = default;
};
struct Virtual
{
    virtual void f() {}
};
void never(const char* what, bool v)
{
    ++g_n;
    ++g_nt;
    g_case = what;
    if (!v)
        mc::fail("C36", fmt("%s is not trivially copyable but reported to have no padding", what));
}
void plain(const char* what, bool v, bool want)
{
    ++g_n;
    g_nt += want;
    g_case = what;
    if (v != want) mc::fail("C36", fmt("%s: %spadding is reported", what, v ? "" : "no "));
}
template <class T>
struct box
{
    using type = T;
};
// 8 * 4^K bytes without padding: around the sizes that do not fit 8 and 16 bits (the member count is
// found by trying, which takes long for larger ones)
template <size_t K>
struct grown
{
    using type = G<typename grown<K - 1>::type, typename grown<K - 1>::type,
                   typename grown<K - 1>::type, typename grown<K - 1>::type>;
};
template <>
struct grown<0>
{
    using type = G<int, int>;
};
void grown_one(const char* what, size_t k, bool v, bool v2, bool want)
{
    plain(fmt("%s, 8 * 4^%zu bytes", what, k).c_str(), v, want);
    plain(fmt("%s, 8 * 4^%zu bytes", what, k).c_str(), v2, want);
}
template <size_t K>
void grown_k()
{
    using T = typename grown<K>::type;
    static_assert(sizeof(T) == size_t(8) << 2 * K);
    auto one = [](const char* what, auto tag, bool want)
    {
        using U = typename decltype(tag)::type;
        grown_one(what, K, utils::has_padding_v<U>, utils::has_padding<U>::value, want);
    };
    one("plain", box<T>{}, false);
    one("constant", box<const T>{}, false);
    one("twice", box<G<T, T>>{}, false);
    one("with a full tail", box<G<T, int>>{}, false);
    one("with a gap at the end", box<G<T, char>>{}, true);
    one("with a gap at the start", box<G<char, T>>{}, true);
    one("with a gap between", box<G<T, short, T>>{}, true);
    one("twice, no gap between", box<G<T, short, short, T>>{}, false);
}
template <size_t... K>
void grown_all(std::index_sequence<K...>)
{
    (grown_k<K>(), ...);
}
#define NEVER(...) never(#__VA_ARGS__, utils::has_padding_v<__VA_ARGS__>&& utils::has_padding<__VA_ARGS__>::value)
#define PLAIN(W, ...) plain(#__VA_ARGS__, utils::has_padding_v<__VA_ARGS__>, W)
void special()
{
    cases();
    singles(types<level<1>::type, level<2>::type, level<4>::type, level<6>::type,
                  shell<1, In>::type, shell<2, Tail>::type, shell<8, In>::type, shell<8, Full>::type,
                  shell<8, Tail>::type, shell<16, Small>::type, shell<16, In>::type,
                  G<level<3>::type, char>, G<level<3>::type, In>, G<level<3>::type, int>>{});
#ifdef __clang__
    grown_all(std::make_index_sequence<5>{});
#else
    grown_all(std::make_index_sequence<7>{});
#endif
    PLAIN(false, Many20);
    PLAIN(true, Many20p);
    PLAIN(false, Many60);
    PLAIN(true, Many60p);
    NEVER(CopyCtor);
    NEVER(MoveCtor);
    NEVER(CopyAssign);
    NEVER(MoveAssign);
    NEVER(Dtor);
    NEVER(VirtualDtor);
    NEVER(Virtual);
    NEVER(std::string);
    NEVER(std::vector<int>);
    NEVER(G<int, CopyCtor>);
    NEVER(G<CopyAssign, int>);
    NEVER(G<Dtor>);
    NEVER(G<G<MoveCtor, int>, Full>);
    NEVER(G<MoveAssign, MoveAssign>);
    NEVER(G<std::string>);
    NEVER(std::tuple<int, int>);
    done();
    mc::sample("a class with a destructor");
}
#endif
#if ON(1)
static_assert(sizeof(G<>) == 1 && sizeof(PMF) == 16 && sizeof(In) == 8 && sizeof(Tail) == 8);
#endif

void reg()
{
#if ON(1)
    mc::add("short_ones", short_ones);
#endif
#if ON(2)
    mc::add("three_scalars", three_scalars);
#endif
#if ON(3)
    mc::add("three_nested", three_nested);
#endif
#if ON(4)
    mc::add("four", four);
#endif
#if ON(5)
    mc::add("nested", nested);
#endif
#if ON(6)
    mc::add("special", special);
#endif
}
}  // namespace
#endif
MC_MAIN(reg)
