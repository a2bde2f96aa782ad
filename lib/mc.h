// Small explicit-state / exhaustive-enumeration framework used by every
// harness.  A harness registers *sections* (one bounded exploration each);
// run.py runs every section in its own process and merges the results.
#ifndef VERIF_MC_H
#define VERIF_MC_H

// everything the harnesses use: they do not rely on what the library includes
#include <algorithm>
#include <array>
#include <cassert>
#include <cerrno>
#include <climits>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc
{
using u64 = unsigned long long;

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

struct State
{
    std::string prop, section, out;
    bool thorough = false;
    bool have_trace = false;
    std::vector<int> trace;
    std::map<std::string, u64> counters;
    std::map<std::string, u64> maxima;
    std::vector<std::string> samples, notes, caps;
    std::function<std::string()> current;  // describes the running case
    bool failed = false;
    std::string fail_prop, fail_msg, fail_trace;
    volatile u64 beat = 0;
    bool done = false;
};
inline State& S()
{
    static State* s = new State;
    return *s;
}

inline std::string esc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += (char)c;
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += (char)c;
    }
    return r + "\"";
}

inline void write_result()
{
    State& s = S();
    s.done = true;
    FILE* f = fopen(s.out.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"section\":%s,\"failed\":%s", esc(s.section).c_str(),
            s.failed ? "true" : "false");
    if (s.failed)
        fprintf(f, ",\"fail_prop\":%s,\"msg\":%s,\"trace\":%s",
                esc(s.fail_prop).c_str(), esc(s.fail_msg).c_str(),
                esc(s.fail_trace).c_str());
    auto dump = [&](const char* n, const std::map<std::string, u64>& m)
    {
        fprintf(f, ",\"%s\":{", n);
        bool first = true;
        for (auto& [k, v]: m)
        {
            fprintf(f, "%s%s:%llu", first ? "" : ",", esc(k).c_str(), v);
            first = false;
        }
        fprintf(f, "}");
    };
    dump("counters", s.counters);
    dump("maxima", s.maxima);
    auto dumpv = [&](const char* n, const std::vector<std::string>& m)
    {
        fprintf(f, ",\"%s\":[", n);
        bool first = true;
        for (auto& v: m)
        {
            fprintf(f, "%s%s", first ? "" : ",", esc(v).c_str());
            first = false;
        }
        fprintf(f, "]");
    };
    dumpv("samples", s.samples);
    dumpv("notes", s.notes);
    dumpv("caps", s.caps);
    fprintf(f, "}\n");
    fclose(f);
}

[[noreturn]] inline void finish_now(int code)
{
    write_result();
    _exit(code);
}

inline std::string cur()
{
    return S().current ? S().current() : std::string("(no case)");
}

// Reports a violation of property `prop` ("" = whichever one is being checked).
// Only the property under check stops the run; others are counted.
inline void fail(const char* prop, const std::string& msg)
{
    State& s = S();
    if (*prop && s.prop != prop)
    {
        ++s.counters["other_property_alarms"];
        return;
    }
    s.failed = true;
    s.fail_prop = s.prop;
    s.fail_msg = msg;
    s.fail_trace = cur();
    finish_now(3);
}
#define MC_CHECK(prop, cond, ...)                    \
    do                                               \
    {                                                \
        if (!(cond)) ::mc::fail(prop, ::mc::fmt(__VA_ARGS__)); \
    } while (0)

inline void count(const char* k, u64 n = 1) { S().counters[k] += n; }
inline void maxi(const char* k, u64 n)
{
    auto& m = S().maxima[k];
    if (n > m) m = n;
}
inline void sample(const std::string& s, std::size_t max = 12)
{
    if (S().samples.size() < max) S().samples.push_back(s);
}
inline void note(const std::string& s) { S().notes.push_back(s); }
inline void cap(const std::string& s) { S().caps.push_back(s); }
inline void beat() { S().beat = S().beat + 1; }

// ---- interception of abnormal termination --------------------------------
inline sigjmp_buf& jb()
{
    static sigjmp_buf b;
    return b;
}
inline volatile int& in_guard()
{
    static volatile int g = 0;
    return g;
}
inline const char*& abort_why()
{
    static const char* w = "";
    return w;
}
[[noreturn]] inline void on_abort(const char* why)
{
    abort_why() = why;
    if (in_guard())
    {
        in_guard() = 0;
        siglongjmp(jb(), 1);
    }
    State& s = S();
    s.failed = true;
    s.fail_prop = s.prop;
    s.fail_msg = std::string("unexpected termination: ") + why;
    s.fail_trace = cur();
    finish_now(3);
}

// Runs f; true when it ended in abort()/a failed assertion.  The objects f
// worked on must not be used again then.
template <class F>
inline bool guarded(F&& f)
{
    if (sigsetjmp(jb(), 0) == 0)
    {
        in_guard() = 1;
        f();
        in_guard() = 0;
        return false;
    }
    return true;
}

inline void crash_handler(int sig)
{
    if (sig == SIGABRT || sig == SIGILL || sig == SIGTRAP) on_abort("signal");
    State& s = S();
    if (sig == SIGVTALRM)
    {
        static u64 last = ~0ull;
        static int same = 0;
        if (s.done) return;
        if (last == s.beat)
            ++same;
        else
            same = 0;
        last = s.beat;
        if (same < 10) return;
        s.fail_msg = "the operation does not terminate (10 s of CPU time)";
    }
    else
        s.fail_msg = fmt("crash: signal %d (%s)", sig, strsignal(sig));
    s.failed = true;
    s.fail_prop = s.prop;
    s.fail_trace = cur();
    finish_now(3);
}
inline void death_callback()
{
    State& s = S();
    if (s.done) return;
    s.failed = true;
    s.fail_prop = s.prop;
    s.fail_msg = "sanitizer report (undefined behaviour or memory error)";
    s.fail_trace = cur();
    write_result();
}
inline void exit_callback()
{
    State& s = S();
    if (s.done) return;
    s.failed = true;
    s.fail_prop = s.prop;
    s.fail_msg = "the process exited inside an operation";
    s.fail_trace = cur();
    write_result();
}

inline void install(bool keep_stderr = false)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = crash_handler;
    sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    static char* alt = (char*)malloc(1 << 16);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    for (int sg: {SIGSEGV, SIGBUS, SIGFPE}) sigaction(sg, &sa, nullptr);
    sa.sa_flags = SA_NODEFER;
    for (int sg: {SIGABRT, SIGILL, SIGTRAP, SIGVTALRM})
        sigaction(sg, &sa, nullptr);
    struct itimerval it;
    it.it_interval = {1, 0};
    it.it_value = {1, 0};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (!keep_stderr)
    {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0)
        {
            dup2(fd, 2);
            close(fd);
        }
    }
}

// ---- registry ---------------------------------------------------------------
struct Section
{
    std::string name;
    std::function<void()> fn;
    int tier;  // 0: quick and thorough, 1: thorough only
    std::string props;  // space separated list of properties; empty: all
};
inline std::vector<Section>& sections()
{
    static std::vector<Section> v;
    return v;
}
inline void add(const std::string& name, std::function<void()> fn, int tier = 0,
                const std::string& props = "")
{
    sections().push_back({name, std::move(fn), tier, props});
}

// ---- hashing --------------------------------------------------------------
struct H128
{
    u64 a, b;
    bool operator==(const H128& o) const { return a == o.a && b == o.b; }
};
struct H128Hash
{
    std::size_t operator()(const H128& h) const { return h.a; }
};
inline u64 mix(u64 x)
{
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ull;
    x ^= x >> 33;
    return x;
}
inline H128 hash(const std::string& s)
{
    u64 a = 0x9e3779b97f4a7c15ull ^ s.size(), b = 0xc2b2ae3d27d4eb4full;
    std::size_t i = 0;
    for (; i + 8 <= s.size(); i += 8)
    {
        u64 v;
        memcpy(&v, s.data() + i, 8);
        a = mix(a ^ v);
        b = mix(b + v * 0x165667b19e3779f9ull);
    }
    u64 v = 0;
    memcpy(&v, s.data() + i, s.size() - i);
    a = mix(a ^ v);
    b = mix(b + v * 0x165667b19e3779f9ull + 1);
    return {a, b};
}
template <class T>
inline void put(std::string& k, const T& v)
{
    k.append(reinterpret_cast<const char*>(&v), sizeof v);
}

// ---- explicit-state explorer over the real implementation ---------------------
// Sys: Sys() builds the initial state; bool enabled(op); Step apply(op, check)
// executes one operation of the real code and compares with the oracle;
// model_key(k) appends the reference model's state, impl_key(k) the
// implementation's.  A state is re-created by replaying its history on a fresh
// object, so the implementation never has to be copied.
enum class Step
{
    next,  // a (possibly new) state was reached
    end    // the object may not be used any further (terminated, destroyed)
};

template <class Sys>
struct Explorer
{
    struct Node
    {
        int parent;
        int op;
        int depth;
        u64 model;
    };
    std::vector<Node> nodes;
    std::unordered_set<H128, H128Hash> seen;
    std::vector<int> hist;
    int cur_op = -1;

    std::string describe(const std::vector<int>& h, int op)
    {
        std::string s;
        for (int o: h) s += Sys::op_name(o) + "; ";
        if (op >= 0) s += Sys::op_name(op);
        s += "   [ops";
        for (int o: h) s += fmt(" %d", o);
        if (op >= 0) s += fmt(" %d", op);
        s += "]";
        return s;
    }
    void history(int n)
    {
        hist.clear();
        for (; n > 0; n = nodes[n].parent) hist.push_back(nodes[n].op);
        for (std::size_t i = 0, j = hist.size(); i + 1 < j; ++i)
            std::swap(hist[i], hist[--j]);
    }
    static H128 key_of(Sys& s, u64& model)
    {
        std::string k;
        s.model_key(k);
        model = hash(k).a;
        k += '|';
        s.impl_key(k);
        return hash(k);
    }

    void run(int max_depth, std::size_t max_states)
    {
        State& st = S();
        st.current = [this] { return describe(hist, cur_op); };
        if (st.have_trace)
        {
            Sys s;
            for (int op: st.trace)
            {
                cur_op = op;
                beat();
                if (!s.enabled(op) || s.apply(op, true) == Step::end) break;
                hist.push_back(op);
            }
            return;
        }
        u64 transitions = 0, ends = 0, ops_executed = 0;
        int deepest = 0;
        bool complete = true;
        {
            Sys s;
            u64 m;
            seen.insert(key_of(s, m));
            nodes.push_back({0, -1, 0, m});
            s.discard();
        }
        const int nops = Sys::nops();
        for (std::size_t i = 0; i < nodes.size(); ++i)
        {
            history((int)i);
            if (nodes[i].depth > deepest) deepest = nodes[i].depth;
            if (nodes[i].depth >= max_depth)
            {
                complete = false;
                continue;
            }
            for (int op = 0; op < nops; ++op)
            {
                cur_op = -1;
                beat();
                Sys s;
                for (int o: hist)
                {
                    s.apply(o, false);
                    ++ops_executed;
                }
                if (op < 3)
                {
                    std::string k;
                    s.model_key(k);
                    if (hash(k).a != nodes[i].model)
                        fail("", "the same operation sequence gave a different "
                                 "result when it was repeated");
                }
                if (!s.enabled(op))
                {
                    s.discard();
                    continue;
                }
                cur_op = op;
                ++transitions;
                ++ops_executed;
                if (s.apply(op, true) == Step::end)
                {
                    ++ends;
                    continue;
                }
                u64 m;
                H128 k = key_of(s, m);
                s.discard();
                if (seen.size() >= max_states)
                {
                    if (!seen.count(k)) complete = false;
                    continue;
                }
                if (seen.insert(k).second)
                    nodes.push_back({(int)i, op, nodes[i].depth + 1, m});
            }
        }
        cur_op = -1;
        count("states", nodes.size());
        count("transitions", transitions);
        count("terminal_transitions", ends);
        count("operations_on_real_code", ops_executed);
        // every transition above was executed on the real code
        count("traces", transitions);
        maxi("max_depth", deepest);
        if (!complete)
            cap(fmt("section %s: bounded at depth %d / %zu states",
                    st.section.c_str(), max_depth, max_states));
        for (std::size_t n: {nodes.size() / 3, nodes.size() - 1})
        {
            history((int)n);
            sample(st.section + ": " + describe(hist, -1), 4);
        }
    }
};

template <class Sys>
inline void explore(int max_depth = 1 << 20, std::size_t max_states = 4000000)
{
    Explorer<Sys> e;
    e.run(max_depth, max_states);
}

int harness_main(int argc, char** argv, void (*reg)());
}  // namespace mc

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

#ifndef MC_NO_INTERPOSE
extern "C" void abort() noexcept { ::mc::on_abort("abort()"); }
extern "C" void __assert_fail(const char* e, const char*, unsigned,
                              const char*) noexcept
{
    static char buf[512];
    snprintf(buf, sizeof buf, "assertion failed: %s", e);
    ::mc::on_abort(buf);
}
#endif

inline int mc::harness_main(int argc, char** argv, void (*reg)())
{
    State& s = S();
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string
        { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--list")
            list = true;
        else if (a == "--section")
            s.section = val();
        else if (a == "--out")
            s.out = val();
        else if (a == "--prop")
            s.prop = val();
        else if (a == "--tier")
            s.thorough = val() == "thorough";
        else if (a == "--trace")
        {
            s.have_trace = true;
            std::string v = val();
            const char* p = v.c_str();
            while (*p)
            {
                char* e;
                long x = strtol(p, &e, 10);
                if (e == p)
                {
                    ++p;
                    continue;
                }
                s.trace.push_back((int)x);
                p = e;
            }
        }
    }
    reg();
    if (list)
    {
        for (auto& x: sections())
            if (s.thorough || x.tier == 0)
                if (x.props.empty() || (" " + x.props + " ").find(
                                           " " + s.prop + " ") !=
                                           std::string::npos)
                    printf("%s\n", x.name.c_str());
        s.done = true;
        return 0;
    }
    for (auto& x: sections())
        if (x.name == s.section)
        {
            if (__sanitizer_set_death_callback)
                __sanitizer_set_death_callback(death_callback);
            install();
            atexit(exit_callback);
            x.fn();
            write_result();
            return 0;
        }
    fprintf(stderr, "no such section\n");
    return 2;
}
#define MC_MAIN(reg) \
    int main(int argc, char** argv) { return mc::harness_main(argc, argv, reg); }

#endif
