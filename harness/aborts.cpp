// C37: every form of the conditional abort, each executed in a process of its own.
#define MC_NO_INTERPOSE
#include <mc.h>
#include <utils/common.h>

#include <cfloat>
#include <climits>
#include <poll.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <utility>
#include <vector>

using mc::fmt;

namespace
{
#ifdef NDEBUG
constexpr bool kDebug = false;
#else
constexpr bool kDebug = true;
#endif

// what the forms count, seen by the parent process
struct Seen
{
    int condition, argument, after, exit_handler, dtor;
};
Seen* seen;

struct Outcome
{
    int status = 0;
    std::string err, out;
};
// runs f in a child process
template <class F>
Outcome in_child(F f, int how = 0)
{
    Outcome o;
    int pe[2], po[2];
    *seen = Seen{};
    if (pipe(pe) || pipe(po)) mc::fail("", "pipe failed");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(po[1], 1);
        dup2(pe[1], 2);
        for (int fd: {pe[0], pe[1], po[0], po[1]}) close(fd);
        struct itimerval it = {};
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        for (int s: {SIGABRT, SIGILL, SIGTRAP, SIGSEGV, SIGFPE, SIGBUS, SIGVTALRM})
            signal(s, SIG_DFL);
        if (how == 1) signal(SIGABRT, SIG_IGN);
        if (how == 2) signal(SIGABRT, [](int) {});
        if (how == 3)
        {
            sigset_t m;
            sigemptyset(&m);
            sigaddset(&m, SIGABRT);
            sigprocmask(SIG_BLOCK, &m, nullptr);
        }
        mc::S().done = true;
        atexit([] { seen->exit_handler = 1; });
        struct D
        {
            ~D() { seen->dtor = 1; }
        };
        {
            D d;
            f();
            seen->after = 1;
        }
        _exit(17);
    }
    close(pe[1]);
    close(po[1]);
    for (bool e = true, t = true; e || t;)
    {
        struct pollfd p[2] = {{e ? pe[0] : -1, POLLIN, 0}, {t ? po[0] : -1, POLLIN, 0}};
        poll(p, 2, -1);
        char buf[65536];
        if (e && p[0].revents)
        {
            ssize_t n = read(pe[0], buf, sizeof buf);
            if (n > 0)
                o.err.append(buf, (size_t)n);
            else
                e = false;
        }
        if (t && p[1].revents)
        {
            ssize_t n = read(po[0], buf, sizeof buf);
            if (n > 0)
                o.out.append(buf, (size_t)n);
            else
                t = false;
        }
    }
    close(pe[0]);
    close(po[0]);
    waitpid(pid, &o.status, 0);
    mc::beat();
    return o;
}

unsigned long long g_n, g_fatal, g_quiet;
std::string g_case;
void cases()
{
    g_n = g_fatal = g_quiet = 0;
    mc::S().current = [] { return g_case; };
    seen = static_cast<Seen*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}
void done()
{
    mc::count("evaluations", g_n);
    mc::count("distinct_nontrivial", g_fatal);
    mc::count("executions_that_return", g_quiet);
    mc::sample(g_case);
}
std::string shown(const std::string& s)
{
    return s.size() > 300 ? s.substr(0, 300) + fmt("... (%zu characters)", s.size()) : s;
}

// one execution: fatal or not; parts: the pieces that have to be found, in this order, in
// what is written (exact: it is the only thing written)
void expect(const std::string& name, const Outcome& o, bool fatal,
            const std::vector<std::string>& parts, bool exact, int conditions, int arguments = -1)
{
    ++g_n;
    ++(fatal ? g_fatal : g_quiet);
    g_case = name;
    bool sig = WIFSIGNALED(o.status) &&
               (WTERMSIG(o.status) == SIGABRT || WTERMSIG(o.status) == SIGILL ||
                WTERMSIG(o.status) == SIGTRAP);
    if (fatal)
    {
        if (seen->after) mc::fail("C37", "execution goes on although the condition is true");
        if (!sig)
            mc::fail("C37", fmt("the program is not ended by abort: wait status %#x", o.status));
        if (seen->exit_handler || seen->dtor)
            mc::fail("C37", "the program is ended normally, not aborted");
        if (exact)
        {
            if (o.err != parts[0])
                mc::fail("C37", fmt("written: \"%s\" instead of \"%s\"", shown(o.err).c_str(),
                                    shown(parts[0]).c_str()));
        }
        else
        {
            size_t at = 0;
            for (auto& p: parts)
            {
                size_t k = o.err.find(p, at);
                if (k == std::string::npos)
                    mc::fail("C37", fmt("\"%s\" is missing (in its place) in what is written: "
                                        "\"%s\"", shown(p).c_str(), shown(o.err).c_str()));
                at = k + p.size();
            }
            if (!parts.back().empty() && o.err.find_first_not_of("\n ", at) != std::string::npos)
                mc::fail("C37", fmt("written behind the reason: \"%s\"",
                                    shown(o.err.substr(at)).c_str()));
        }
    }
    else
    {
        if (!seen->after || !WIFEXITED(o.status) || WEXITSTATUS(o.status) != 17)
            mc::fail("C37", fmt("the program ends (wait status %#x) although the condition is "
                                "false or the form disabled", o.status));
        if (!o.err.empty())
            mc::fail("C37", fmt("written although nothing happened: \"%s\"",
                                shown(o.err).c_str()));
    }
    if (!o.out.empty())
        mc::fail("C37", fmt("written to the standard output: \"%s\"", shown(o.out).c_str()));
    if (conditions >= 0 && seen->condition != conditions)
        mc::fail("C37", fmt("the condition is evaluated %d times instead of %d", seen->condition,
                            conditions));
    if (arguments >= 0 && seen->argument != arguments)
        mc::fail("C37", fmt("an argument is evaluated %d times instead of %d", seen->argument,
                            arguments));
}
template <class T>
T c(T v)
{
    ++seen->condition;
    return v;
}
template <class T>
T a(T v)
{
    ++seen->argument;
    return v;
}

// ---- the function -------------------------------------------------------------
template <class... A>
void with(const char* f, A... args)
{
    char* want = nullptr;
    int n = asprintf(&want, f, args...);
    std::string w(want, (size_t)n);
    free(want);
    std::string name = fmt("abort_if(_, \"%s\") writing %zu characters", f, w.size());
    for (int how = 0; how < 4; ++how)
        expect(name + " true", in_child([&] { utils::abort_if(c(true), f, args...); }, how), true,
               {w}, true, 1);
    expect(name + " false", in_child([&] { utils::abort_if(c(false), f, args...); }), false, {},
           true, 1);
}
void function()
{
    cases();
    for (int how = 0; how < 4; ++how)
    {
        expect("abort_if(true)", in_child([] { utils::abort_if(c(true)); }, how), true, {""}, true, 1);
        expect("abort_if(true, nullptr)", in_child([] { utils::abort_if(c(true), nullptr); }, how),
               true, {""}, true, 1);
        expect("abort_if(false)", in_child([] { utils::abort_if(c(false)); }, how), false, {}, true,
               1);
        expect("abort_if(false, nullptr)", in_child([] { utils::abort_if(c(false), nullptr); }, how),
               false, {}, true, 1);
    }
    // conditions that are not bool
    int x = 0;
    expect("pointer", in_child([&] { utils::abort_if(&x, "p"); }), true, {"p"}, true, -1);
    expect("null pointer", in_child([&] { utils::abort_if((int*)nullptr, "p"); }), false, {}, true,
           -1);
    expect("256", in_child([&] { utils::abort_if(256, "p"); }), true, {"p"}, true, -1);
    expect("1 << 40", in_child([&] { utils::abort_if(1ll << 40, "p"); }), true, {"p"}, true, -1);
    expect("0.5", in_child([&] { utils::abort_if(0.5, "p"); }), true, {"p"}, true, -1);
    expect("-0.0", in_child([&] { utils::abort_if(-0.0, "p"); }), false, {}, true, -1);
    with("");
    with("abort message");
    with("two\nlines\n");
    with("100%% %%d");
    with("%d", 5);
    with("%d", INT_MIN);
    with("%d|%d", INT_MAX, -1);
    with("%u %x %o", 0u, UINT_MAX, 8u);
    with("%ld %lld %zu %jd", LONG_MIN, LLONG_MAX, SIZE_MAX, (intmax_t)INTMAX_MIN);
    with("%hhd %hd", (signed char)-128, (short)-32768);
    with("%s", "text");
    with("%s", "");
    with("%s and %s", "%d", "%n");
    with("%.3s|%10s|%-10s|", "abcdef", "right", "left");
    with("%*d|%-*d|%.*f", 8, 3, 6, -4, 2, 3.14159);
    with("%c%c%c", 'a', '%', '\n');
    with("%f %g %e %a", 1.5, 1e300, DBL_MIN, -0.0);
    with("%Lf", 2.25L);
    with("%p", (void*)nullptr);
    with("%p", (void*)0x1234);
    with("%2$s %1$s", "b", "a");
    with("%d %s %f %c %zu %ld %p %x %s %d %f %d", 1, "two", 3.0, '4', (size_t)5, 6l, (void*)7, 8u,
         "nine", 10, 11.0, 12);
    with("%f %f %f %f %f %f %f %f %f %f %d", 0., 1., 2., 3., 4., 5., 6., 7., 8., 9., 10);
    for (size_t n: {1, 10, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025,
                    2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 10000, 65535, 65536, 100000,
                    1000000})
    {
        std::string s(n, 'x');
        s[n - 1] = 'Z';
        with("%s", s.c_str());
        with((s + "%d").c_str(), 5);
    }
    with(u8"\u00e4\u20ac");
    done();
}

// ---- the macros -----------------------------------------------------------------
// every form in every kind of place, for both macros and both conditions
#define LINE(n) fmt("%d", n)
struct Probe
{
    const char* place;
    void (*run)(bool);
    int line;
    std::string func;
    std::string reason;
    bool debug;
    int args;
};
std::vector<Probe>& probes()
{
    static std::vector<Probe> p;
    return p;
}
const char* g_func;  // __PRETTY_FUNCTION__ of the place
// (condition, text, evaluations of arguments) of every form; M is the macro
#define FORMS(F)                                                                         \
    F(0, "", 0, c(v))                                                                    \
    F(1, "", 0, c(v), "")                                                                \
    F(2, "reason", 0, c(v), "reason")                                                    \
    F(3, "reason 5", 0, c(v), "reason %d", 5)                                            \
    F(4, "a b 1.5 c 7", 3, c(v), "%s %s %.1f %c %zu", a("a"), "b", a(1.5), 'c', a((size_t)7)) \
    F(5, "not negated", 0, !c(!v), "not negated")                                        \
    F(6, "or", 0, c(v) || false, "or")                                                   \
    F(7, "compare", 0, c(v) == true, "comp" "are")                                       \
    F(8, "chosen", 0, c(v) ? true : false, "chosen")                                     \
    F(9, "number", 0, c(v) * 256, "number")                                              \
    F(10, "call", 0, (c(v), v), "call")                                                  \
    F(11, "template", 0, c<bool>(v), "template")                                         \
    F(12, "100%\n%d", 0, c(v), "%d%%\n%s", 100, "%d")                                    \
    F(13, "lambda", 0, [&] { return c(v); }(), "lambda")                                 \
    F(14, "bits", 0, c(v) & 1, "bits")                                                   \
    F(15, "pointer", 0, c(v) ? &v : nullptr, "pointer")                                  \
    F(16, "assigned", 0, v = c(v), "assigned")

struct Kind
{
    int form;
    const char* reason;
    int args;
};
#define KIND(n, text, args, ...) {n, text, args},
const Kind kinds[] = {FORMS(KIND)};

struct Where
{
    const char* func;
    int line;
};
Where* where;  // shared: written by the place just before

// where the macro stands; the place notes its own line and function first
#define HERE (where->func = __PRETTY_FUNCTION__, where->line = __LINE__)
#define STATEMENT(M, ...) HERE; M(__VA_ARGS__);

#define CASE_A(n, text, args, ...) \
    case n: STATEMENT(UTILS_ABORT_IF, __VA_ARGS__) break;
#define CASE_D(n, text, args, ...) \
    case n: STATEMENT(UTILS_DEBUG_ABORT_IF, __VA_ARGS__) break;
#define BODY                      \
    if (debug)                    \
        switch (n)                \
        {                         \
            FORMS(CASE_D)         \
        }                         \
    else                          \
        switch (n)                \
        {                         \
            FORMS(CASE_A)         \
        }

void in_function(bool debug, int n, bool v) { BODY }
static void in_static(bool debug, int n, bool v) { BODY }
inline void in_noexcept(bool debug, int n, bool v) noexcept { BODY }
template <class T, int N>
T in_template(bool debug, int n, T v)
{
    BODY return v;
}
struct Klass
{
    Klass() = default;
    Klass(bool debug, int n, bool v) { BODY }
    void method(bool debug, int n, bool v) const volatile { BODY }
    static void static_method(bool debug, int n, bool v) { BODY }
    template <class T>
    bool operator()(bool debug, int n, T v) const&&
    {
        BODY return false;
    }
    operator bool() const
    {
        bool debug = d, v = v_;
        int n = n_;
        BODY return false;
    }
    bool d = false, v_ = false;
    int n_ = 0;
    struct Inner
    {
        virtual void f(bool debug, int n, bool v) { BODY }
    };
};
void in_branches(bool debug, int n, bool v)
{
    // without braces, as the only statement of every kind of control flow
    if (debug)
    {
        if (n == 0)
            UTILS_DEBUG_ABORT_IF(HERE ? c(v) : 0, "only");
        else if (n == 1)
            for (int i = 0; i < 1; ++i) UTILS_DEBUG_ABORT_IF(HERE ? c(v) : 0, "only");
        else
            do
                UTILS_DEBUG_ABORT_IF(HERE ? c(v) : 0, "only");
            while (false);
        return;
    }
    if (n == 0)
        UTILS_ABORT_IF(HERE ? c(v) : 0, "only");
    else if (n == 1)
        for (int i = 0; i < 1; ++i) UTILS_ABORT_IF(HERE ? c(v) : 0, "only");
    else
        do
            UTILS_ABORT_IF(HERE ? c(v) : 0, "only");
        while (false);
}

void check_place(const char* place, const std::function<void(bool, int, bool)>& f,
                 int forms = (int)std::size(kinds), const char* file = __FILE__)
{
    for (int debug = 0; debug < 2; ++debug)
        for (int n = 0; n < forms; ++n)
            for (int v = 0; v < 2; ++v)
            {
                where->func = "?";
                where->line = 0;
                bool only = forms != (int)std::size(kinds);
                bool active = !debug || kDebug;
                std::string name =
                    fmt("%s in %s, form %d, condition %s, %s", debug ? "UTILS_DEBUG_ABORT_IF"
                                                                     : "UTILS_ABORT_IF",
                        place, n, v ? "true" : "false", kDebug ? "assertions on" : "NDEBUG");
                g_case = name;
                Outcome o = in_child([&] { f(debug, n, v); });
                bool fatal = active && v;
                std::string func = where->func;
                expect(name, o, fatal,
                       {file, LINE(where->line), func, only ? "only" : kinds[n].reason}, false,
                       active ? 1 : 0, only ? 0 : active ? kinds[n].args : 0);
            }
}
void init()
{
    cases();
    where = static_cast<Where*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}
void places()
{
    init();
    check_place("function", in_function);
    check_place("static function", in_static);
    check_place("noexcept function", in_noexcept);
    check_place("function template", [](bool d, int n, bool v) { in_template<bool, 3>(d, n, v); });
    check_place("function template of int",
                [](bool d, int n, bool v) { in_template<int, -1>(d, n, v); });
    check_place("constructor", [](bool d, int n, bool v) { Klass k(d, n, v); });
    check_place("method", [](bool d, int n, bool v) { Klass().method(d, n, v); });
    check_place("static method", Klass::static_method);
    check_place("operator template",
                [](bool d, int n, bool v) { static_cast<const Klass&&>(Klass())(d, n, v); });
    check_place("conversion",
                [](bool d, int n, bool v)
                {
                    Klass k;
                    k.d = d;
                    k.v_ = v;
                    k.n_ = n;
                    (void)static_cast<bool>(k);
                });
    check_place("virtual method", [](bool d, int n, bool v) { Klass::Inner().f(d, n, v); });
    check_place("lambda", [](bool debug, int n, bool v) { BODY });
    check_place("generic lambda", [](bool d, int m, bool w)
                { [](auto debug, auto n, auto v) { BODY }(d, m, w); });
    check_place("statement without braces", in_branches, 3);
    done();
}

// the same in files and lines of other names
#line 1 "/some dir/with %s %n %d/file%5c name.h"
void percent_file(bool debug, int n, bool v) { BODY }
#line 2147483 "x.cpp"
void far_line(bool debug, int n, bool v) { BODY }
#line 9 "a\\b\"c\".cpp"
void quoted_file(bool debug, int n, bool v) { BODY }
#line 4800 "aborts.cpp"
void files()
{
    init();
    check_place("a file with percent signs", percent_file, (int)std::size(kinds),
                "/some dir/with %s %n %d/file%5c name.h");
    check_place("line 2147483", far_line, (int)std::size(kinds), "x.cpp");
    check_place("a file with quotes", quoted_file, (int)std::size(kinds), "a\\b\"c\".cpp");
    done();
}

// the disabled form leaves nothing of its arguments behind
#ifdef NDEBUG
void disabled()
{
    init();
    auto o = in_child(
        []
        {
            UTILS_DEBUG_ABORT_IF(c(true), "%d", a(1));
            if (seen->after)
                UTILS_DEBUG_ABORT_IF(true);
            else
                ++seen->argument;
        });
    expect("disabled forms", o, false, {}, true, 0, 1);
    done();
}
#endif

void reg()
{
    mc::add("function", function);
    mc::add("places", places);
    mc::add("files", files);
#ifdef NDEBUG
    mc::add("disabled", disabled);
#endif
}
}  // namespace
MC_MAIN(reg)
