// C13: every interleaving of threads that use the default resource.
//
// conc_body.cpp is compiled with -fsanitize=thread, and this file is the
// runtime those calls reach (the sanitizer's own one is not linked):
//  * a thread runs only when it holds the baton; before every atomic access,
//    static guard, mutex or once operation it hands the decision to the
//    scheduler, so an execution is determined by the list of choices;
//  * all choices are enumerated depth first, one forked process per execution,
//    so every execution starts from the same fresh program state;
//  * happens-before is computed with vector clocks from the memory orders the
//    code uses (the baton adds no edge): two conflicting accesses without an
//    edge, one of them plain, are a data race;
//  * the call/return history must have a linearization of an atomic register.
#include "conc.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <string>
#include <unordered_map>
#include <vector>

#include <mc.h>

using mc::fmt;
using mc::u64;

const void* conc_default();
const void* conc_system();
const void* conc_null();

namespace
{
constexpr int kT = 5;          // threads 0..3, and 4 = the main thread
constexpr int kMain = 4;
constexpr int kMaxPoints = 4000;
constexpr int kMaxOps = 64;

struct Shared  // written by the child, read by the explorer
{
    int npoints;
    struct
    {
        unsigned char choice, enabled;
        bool preempt_possible;
    } p[kMaxPoints];
    int nops;
    struct
    {
        int thread, kind;
        u64 begin, end;
        const void *arg, *result;
        bool done;
    } ops[kMaxOps];
    const void *initial, *final_, *system, *null;
    bool failed, complete, diverged;
    char msg[400];
};
Shared* sh;

struct VC
{
    unsigned c[kT] = {};
    void join(const VC& o)
    {
        for (int i = 0; i < kT; ++i) c[i] = std::max(c[i], o.c[i]);
    }
};
struct Cell
{
    unsigned w[kT] = {}, r[kT] = {}, aw[kT] = {}, ar[kT] = {};
};
enum class Wait
{
    ready,
    guard,
    mutex,
    rdlock,
    once,
    done
};
struct Thread
{
    VC c, rel_fence, acq_pending;
    Wait wait = Wait::ready;
    const void* on = nullptr;
    sem_t sem;
    pthread_t id;
    int spins = 0;
    bool yielded = false;
    bool begin_pending = false;
    int op = -1;
};
struct Lock
{
    int owner = -1, readers = 0;
};
bool g_run = false;  // threads under control
thread_local int me = kMain;
Thread T[kT];
int ncur = 0;       // number of threads of the program
int running = -1;
u64 stamp_ = 0;
int npre = 0;
unsigned char prefix[kMaxPoints];
sem_t main_sem;
std::unordered_map<const void*, VC>* syncs;
std::unordered_map<unsigned long, Cell>* shadow;
std::unordered_map<const void*, Lock>* locks;
std::unordered_map<const void*, int>* guards;  // owner of a running initialisation

[[noreturn]] void child_fail(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    if (!sh->failed)
    {
        vsnprintf(sh->msg, sizeof sh->msg, f, ap);
        sh->failed = true;
    }
    va_end(ap);
    _exit(0);
}

bool blocked(int t)
{
    Thread& x = T[t];
    switch (x.wait)
    {
        case Wait::ready: return false;
        case Wait::done: return true;
        case Wait::guard:
        case Wait::once: return guards->count(x.on) != 0;
        case Wait::mutex:
        {
            Lock& l = (*locks)[x.on];
            return l.owner >= 0 || l.readers > 0;
        }
        case Wait::rdlock: return (*locks)[x.on].owner >= 0;
    }
    return false;
}

// picks who runs next; prev is the thread that gives up the baton (-1: none)
int choose(int prev)
{
    int en[kT], n = 0;
    bool prev_en = false;
    const auto usable = [&](int t) { return !blocked(t); };
    // a thread that spins does not go on while another one can
    bool others = false;
    for (int t = 0; t < ncur; ++t)
        if (usable(t) && !T[t].yielded) others = true;
    if (!others)
        for (int t = 0; t < ncur; ++t) T[t].yielded = false;
    if (prev >= 0 && usable(prev) && !T[prev].yielded)
    {
        en[n++] = prev;
        prev_en = true;
    }
    for (int t = 0; t < ncur; ++t)
        if (t != prev && usable(t) && !T[t].yielded) en[n++] = t;
    if (!n) return -1;
    int c = 0;
    if (n > 1)
    {
        if (sh->npoints >= kMaxPoints) child_fail("the threads do not terminate");
        const int k = sh->npoints;
        if (k < npre)
        {
            c = prefix[k];
            if (c >= n)
            {
                sh->diverged = true;
                child_fail("replaying a schedule diverged");
            }
        }
        sh->p[k] = {(unsigned char)c, (unsigned char)n, prev_en};
        ++sh->npoints;
    }
    return en[c];
}

void point()
{
    if (!g_run || me == kMain) return;
    const int t = me;
    if (++T[t].spins > 200)
    {
        T[t].yielded = true;
        if (T[t].spins > 20000) child_fail("thread %d does not terminate", t);
    }
    const int n = choose(t);
    if (n < 0) child_fail("deadlock: every thread waits");
    if (n != t)
    {
        running = n;
        sem_post(&T[n].sem);
        while (sem_wait(&T[t].sem)) {}
    }
    ++stamp_;
    if (T[t].begin_pending)
    {
        T[t].begin_pending = false;
        sh->ops[T[t].op].begin = stamp_;
    }
}
// waits until the condition described by (w, on) allows to go on
void wait_for(Wait w, const void* on)
{
    if (!g_run || me == kMain) return;
    T[me].wait = w;
    T[me].on = on;
    point();
    T[me].wait = Wait::ready;
}
void thread_end()
{
    const int t = me;
    T[t].wait = Wait::done;
    const int n = choose(-1);
    if (n >= 0)
    {
        running = n;
        sem_post(&T[n].sem);
        return;
    }
    for (int i = 0; i < ncur; ++i)
        if (T[i].wait != Wait::done) child_fail("deadlock: every thread waits");
    sem_post(&main_sem);
}

// ---- happens-before ----------------------------------------------------------
bool hb(unsigned clk, int t) { return clk <= T[me].c.c[t]; }
void race(unsigned long a, int t, const char* what)
{
    Dl_info i;
    std::string n = fmt("%#lx", a);
    if (dladdr((void*)a, &i) && i.dli_sname) n += std::string(" ") + i.dli_sname;
    child_fail("data race: %s of thread %d conflicts with thread %d at %s", what,
               me, t, n.c_str());
}
void access(const volatile void* p, unsigned n, bool write, bool atomic)
{
    if (!g_run || !shadow) return;
    for (unsigned i = 0; i < n; ++i)
    {
        const unsigned long a = (unsigned long)p + i;
        Cell& c = (*shadow)[a];
        for (int t = 0; t < kT; ++t)
        {
            if (t == me) continue;
            if (!hb(c.w[t], t)) race(a, t, write ? "a write" : "a read");
            if (write && !hb(c.r[t], t)) race(a, t, "a write");
            if (!atomic && !hb(c.aw[t], t)) race(a, t, "a plain access");
            if (!atomic && write && !hb(c.ar[t], t)) race(a, t, "a plain write");
        }
        unsigned* k = atomic ? (write ? c.aw : c.ar) : (write ? c.w : c.r);
        k[me] = T[me].c.c[me];
    }
}
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void sync_load(const volatile void* p, int mo)
{
    if (!g_run) return;
    const VC& l = (*syncs)[(const void*)p];
    if (acq(mo))
        T[me].c.join(l);
    else
        T[me].acq_pending.join(l);
}
void sync_store(const volatile void* p, int mo, bool rmw)
{
    if (!g_run) return;
    VC& l = (*syncs)[(const void*)p];
    const VC& mine = rel(mo) ? T[me].c : T[me].rel_fence;
    if (rmw)
        l.join(mine);
    else
        l = mine;
    ++T[me].c.c[me];
}
void lock_acquire(const void* m) { if (g_run) T[me].c.join((*syncs)[m]); }
void lock_release(const void* m)
{
    if (!g_run) return;
    (*syncs)[m].join(T[me].c);
    ++T[me].c.c[me];
}

// A local static's guard that is set stays set: reading it commutes with
// everything and needs no decision.
const void* known_guards[256];
int nknown = 0;
bool is_guard(const volatile void* p)
{
    for (int i = 0; i < nknown; ++i)
        if (known_guards[i] == (const void*)p) return true;
    return false;
}
template <class V>
V a_load(const volatile V* p, int mo)
{
    if (!(sizeof(V) == 1 && *p && is_guard(p))) point();
    access(p, sizeof(V), false, true);
    sync_load(p, mo);
    return *p;
}
template <class V>
void a_store(volatile V* p, V v, int mo)
{
    point();
    access(p, sizeof(V), true, true);
    sync_store(p, mo, false);
    *p = v;
}
template <class V, class F>
V a_rmw(volatile V* p, int mo, F f)
{
    point();
    access(p, sizeof(V), true, true);
    sync_load(p, mo);
    sync_store(p, mo, true);
    V old = *p;
    *p = f(old);
    return old;
}
template <class V>
bool a_cas(volatile V* p, V* expected, V desired, int mo, int fmo)
{
    point();
    V old = *p;
    if (old == *expected)
    {
        access(p, sizeof(V), true, true);
        sync_load(p, mo);
        sync_store(p, mo, true);
        *p = desired;
        return true;
    }
    access(p, sizeof(V), false, true);
    sync_load(p, fmo);
    *expected = old;
    return false;
}
}  // namespace

// ---- the interface of the thread sanitizer ------------------------------------
extern "C"
{
#define PLAIN(n)                                                             \
    void __tsan_read##n(void* p) { access(p, n, false, false); }             \
    void __tsan_write##n(void* p) { access(p, n, true, false); }             \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); }   \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); }   \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, false); }    \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, false); }    \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_read##n##_pc(void* p, void*) { access(p, n, false, false); } \
    void __tsan_write##n##_pc(void* p, void*) { access(p, n, true, false); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, false); }        \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, false); }
    PLAIN(1)
    PLAIN(2)
    PLAIN(4)
    PLAIN(8)
    PLAIN(16)
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
    void __tsan_vptr_update(void** p, void* v)
    {
        if (*p != v) access(p, 8, true, false);
    }
    void __tsan_vptr_read(void** p) { access(p, 8, false, false); }
    void __tsan_read_range(void* p, unsigned long n)
    {
        access(p, (unsigned)n, false, false);
    }
    void __tsan_write_range(void* p, unsigned long n)
    {
        access(p, (unsigned)n, true, false);
    }
    void* __tsan_memcpy(void* d, const void* s, unsigned long n)
    {
        access(s, (unsigned)n, false, false);
        access(d, (unsigned)n, true, false);
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, unsigned long n)
    {
        access(s, (unsigned)n, false, false);
        access(d, (unsigned)n, true, false);
        return memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int v, unsigned long n)
    {
        access(d, (unsigned)n, true, false);
        return memset(d, v, n);
    }
#define ATOMIC(b, V)                                                           \
    V __tsan_atomic##b##_load(const volatile V* p, int mo) { return a_load(p, mo); } \
    void __tsan_atomic##b##_store(volatile V* p, V v, int mo) { a_store(p, v, mo); } \
    V __tsan_atomic##b##_exchange(volatile V* p, V v, int mo)                  \
    {                                                                          \
        return a_rmw(p, mo, [v](V) { return v; });                             \
    }                                                                          \
    V __tsan_atomic##b##_fetch_add(volatile V* p, V v, int mo)                 \
    {                                                                          \
        return a_rmw(p, mo, [v](V o) { return (V)(o + v); });                  \
    }                                                                          \
    V __tsan_atomic##b##_fetch_sub(volatile V* p, V v, int mo)                 \
    {                                                                          \
        return a_rmw(p, mo, [v](V o) { return (V)(o - v); });                  \
    }                                                                          \
    V __tsan_atomic##b##_fetch_and(volatile V* p, V v, int mo)                 \
    {                                                                          \
        return a_rmw(p, mo, [v](V o) { return (V)(o & v); });                  \
    }                                                                          \
    V __tsan_atomic##b##_fetch_or(volatile V* p, V v, int mo)                  \
    {                                                                          \
        return a_rmw(p, mo, [v](V o) { return (V)(o | v); });                  \
    }                                                                          \
    V __tsan_atomic##b##_fetch_xor(volatile V* p, V v, int mo)                 \
    {                                                                          \
        return a_rmw(p, mo, [v](V o) { return (V)(o ^ v); });                  \
    }                                                                          \
    V __tsan_atomic##b##_fetch_nand(volatile V* p, V v, int mo)                \
    {                                                                          \
        return a_rmw(p, mo, [v](V o) { return (V)~(o & v); });                 \
    }                                                                          \
    int __tsan_atomic##b##_compare_exchange_strong(volatile V* p, V* e, V d,   \
                                                   int mo, int fmo)            \
    {                                                                          \
        return a_cas(p, e, d, mo, fmo);                                        \
    }                                                                          \
    int __tsan_atomic##b##_compare_exchange_weak(volatile V* p, V* e, V d,     \
                                                 int mo, int fmo)              \
    {                                                                          \
        return a_cas(p, e, d, mo, fmo);                                        \
    }                                                                          \
    V __tsan_atomic##b##_compare_exchange_val(volatile V* p, V e, V d, int mo, \
                                              int fmo)                         \
    {                                                                          \
        a_cas(p, &e, d, mo, fmo);                                              \
        return e;                                                              \
    }
    ATOMIC(8, unsigned char)
    ATOMIC(16, unsigned short)
    ATOMIC(32, unsigned)
    ATOMIC(64, unsigned long)
    void __tsan_atomic_thread_fence(int mo)
    {
        point();
        if (!g_run) return;
        if (acq(mo)) T[me].c.join(T[me].acq_pending);
        if (rel(mo))
        {
            T[me].rel_fence = T[me].c;
            ++T[me].c.c[me];
        }
    }
    void __tsan_atomic_signal_fence(int) {}

    // ---- guards of local statics, mutexes, once ---------------------------------
    int __cxa_guard_acquire(long long* g)
    {
        auto* b = reinterpret_cast<volatile char*>(g);
        if (!is_guard(g) && nknown < 256) known_guards[nknown++] = g;
        if (!g_run) return !*b;
        wait_for(Wait::guard, g);
        lock_acquire(g);
        if (*b) return 0;
        (*guards)[g] = me;
        return 1;
    }
    void __cxa_guard_release(long long* g)
    {
        auto* b = reinterpret_cast<volatile char*>(g);
        if (!g_run)
        {
            *b = 1;
            return;
        }
        point();
        access(b, 1, true, true);
        lock_release(g);
        *b = 1;
        guards->erase(g);
    }
    void __cxa_guard_abort(long long* g)
    {
        if (g_run) guards->erase(g);
    }
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (!g_run || me == kMain) return 0;
        wait_for(Wait::mutex, m);
        (*locks)[m].owner = me;
        lock_acquire(m);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (!g_run || me == kMain) return 0;
        point();
        Lock& l = (*locks)[m];
        if (l.owner >= 0) return EBUSY;
        l.owner = me;
        lock_acquire(m);
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!g_run || me == kMain) return 0;
        lock_release(m);
        (*locks)[m].owner = -1;
        point();
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
    {
        return pthread_mutex_lock(reinterpret_cast<pthread_mutex_t*>(m));
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
    {
        if (!g_run || me == kMain) return 0;
        wait_for(Wait::rdlock, m);
        ++(*locks)[m].readers;
        lock_acquire(m);
        return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
    {
        if (!g_run || me == kMain) return 0;
        Lock& l = (*locks)[m];
        lock_release(m);
        if (l.owner == me)
            l.owner = -1;
        else
            --l.readers;
        point();
        return 0;
    }
    int sched_yield() noexcept
    {
        if (g_run && me != kMain)
        {
            T[me].yielded = true;
            point();
        }
        return 0;
    }
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!g_run || me == kMain)
        {
            if (!*o)
            {
                *o = 1;
                f();
            }
            return 0;
        }
        wait_for(Wait::once, o);
        lock_acquire(o);
        if (*o) return 0;
        (*guards)[o] = me;
        f();
        *o = 1;
        lock_release(o);
        guards->erase(o);
        point();
        return 0;
    }

    // ---- called by the bodies ------------------------------------------------
    void conc_begin(int kind, const void* arg)
    {
        if (sh->nops >= kMaxOps) child_fail("too many operations");
        auto& o = sh->ops[sh->nops];
        o = {me, kind, stamp_, 0, arg, nullptr, false};
        T[me].op = sh->nops++;
        T[me].begin_pending = true;
        T[me].spins = 0;
    }
    void conc_end(const void* result)
    {
        auto& o = sh->ops[T[me].op];
        if (T[me].begin_pending) o.begin = ++stamp_;
        T[me].begin_pending = false;
        o.end = ++stamp_;
        o.result = result;
        o.done = true;
    }
    void conc_require(int ok, const char* what)
    {
        if (!ok) child_fail("%s", what);
    }
    const void* conc_initial() { return sh->initial; }
}

namespace
{
const Program* g_prog;
const char g_initial = 0;  // stands for the default resource before the threads

void* thread_main(void* arg)
{
    me = (int)(long)arg;
    while (sem_wait(&T[me].sem)) {}
    g_prog->body[me]();
    thread_end();
    return nullptr;
}

void child()
{
    alarm(60);
    syncs = new std::unordered_map<const void*, VC>;
    shadow = new std::unordered_map<unsigned long, Cell>;
    locks = new std::unordered_map<const void*, Lock>;
    guards = new std::unordered_map<const void*, int>;
    g_prog->setup();
    sh->initial = g_prog->fresh ? &g_initial : conc_default();
    ncur = g_prog->nthreads;
    sem_init(&main_sem, 0, 0);
    T[kMain].c.c[kMain] = 1;
    for (int t = 0; t < ncur; ++t)
    {
        sem_init(&T[t].sem, 0, 0);
        T[t].c = T[kMain].c;
        T[t].c.c[t] = 1;
        if (pthread_create(&T[t].id, nullptr, thread_main, (void*)(long)t))
        {
            _exit(9);
        }
    }
    g_run = true;
    const int first = choose(-1);
    running = first;
    sem_post(&T[first].sem);
    while (sem_wait(&main_sem)) {}
    for (int t = 0; t < ncur; ++t) pthread_join(T[t].id, nullptr);
    g_run = false;
    sh->final_ = conc_default();
    sh->system = conc_system();
    sh->null = conc_null();
    if (g_prog->fresh)
    {
        // nothing was touched before the threads: it starts as the system resource
        sh->initial = sh->system;
        for (int i = 0; i < sh->nops; ++i)
            if (sh->ops[i].result == &g_initial) sh->ops[i].result = sh->system;
    }
    g_prog->finish();
    sh->complete = true;
    _exit(0);
}

// one execution: the choices in `pre`, then the first alternative
bool execute(const std::vector<unsigned char>& pre, std::string& err)
{
    memset(sh, 0, offsetof(Shared, p));
    sh->nops = 0;
    sh->failed = sh->complete = sh->diverged = false;
    npre = (int)pre.size();
    memcpy(prefix, pre.data(), pre.size());
    for (int attempt = 0; attempt < 5; ++attempt)
    {
        const pid_t c = fork();
        if (c == 0) child();
        if (c < 0)
        {
            usleep(100000);
            continue;
        }
        int st = 0;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 9) continue;
        if (WIFSIGNALED(st))
            err = fmt("the program was ended by signal %d", WTERMSIG(st));
        else if (sh->failed)
            err = sh->msg;
        else if (!sh->complete)
            err = "the program ended early";
        return err.empty();
    }
    // no process could be made: not an answer about the code
    fprintf(stderr, "cannot fork\n");
    _exit(7);
}

const char* kname[] = {"set", "get", "system", "null", "check"};
std::string value(const void* p)
{
    if (!p) return "nullptr";
    if (p == sh->system) return "system";
    if (p == sh->null) return "null";
    return fmt("%p", p);
}
std::string history()
{
    std::string s;
    for (int i = 0; i < sh->nops; ++i)
    {
        auto& o = sh->ops[i];
        s += fmt("T%d:%s(%s)=%s[%llu,%llu]; ", o.thread, kname[o.kind],
                 o.kind == op_set ? value(o.arg).c_str() : "",
                 o.done ? value(o.result).c_str() : "?", o.begin, o.end);
    }
    return s + "final=" + value(sh->final_);
}
// is there an order of the calls, compatible with their overlap, in which an
// atomic register gives these answers?
bool linearize(unsigned long done, const void* v)
{
    bool all = true;
    u64 first_end = ~0ull;
    for (int i = 0; i < sh->nops; ++i)
        if (!(done >> i & 1))
        {
            all = false;
            first_end = std::min(first_end, sh->ops[i].end);
        }
    if (all) return v == sh->final_;
    for (int i = 0; i < sh->nops; ++i)
    {
        if (done >> i & 1) continue;
        auto& o = sh->ops[i];
        if (o.begin > first_end) continue;
        const void* n = v;
        if (o.kind == op_set)
        {
            if (o.result != v) continue;
            n = o.arg;
        }
        else if (o.kind == op_get)
        {
            if (o.result != v) continue;
        }
        if (linearize(done | 1ul << i, n)) return true;
    }
    return false;
}
bool judge(std::string& err)
{
    for (int i = 0; i < sh->nops; ++i)
    {
        auto& o = sh->ops[i];
        if (!o.done) err = "a call did not return";
        if (o.kind == op_system && o.result != sh->system)
            err = "the threads get different system resources";
        if (o.kind == op_null && o.result != sh->null)
            err = "the threads get different null resources";
    }
    if (err.empty() && !linearize(0, sh->initial))
        err = "no order of the calls explains the answers: " + history();
    return err.empty();
}

std::string schedule_text()
{
    std::string s = std::string(g_prog->name) + " schedule";
    s += "   [ops";
    for (int i = 0; i < sh->npoints; ++i) s += fmt(" %d", sh->p[i].choice);
    return s + "]";
}
void report(const std::string& err)
{
    const std::string sc = schedule_text();
    mc::S().current = [sc] { return sc; };
    mc::fail("C13", err);
}

void explore(const Program& prog, u64 max_runs)
{
    g_prog = &prog;
    if (!sh)
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<unsigned char> pre;
    std::string err;
    if (mc::S().have_trace)
    {
        for (int c: mc::S().trace) pre.push_back((unsigned char)c);
        if (!execute(pre, err) || !judge(err)) report(err);
        return;
    }
    u64 runs = 0, points = 0;
    const int bound = prog.bound < 0 ? -1 : prog.bound + (mc::S().thorough ? 1 : 0);
    std::unordered_map<std::string, u64> outcomes;
    std::string first_history;
    while (true)
    {
        mc::beat();
        err.clear();
        if (!execute(pre, err) || !judge(err)) report(err);
        ++runs;
        points += (u64)sh->npoints;
        mc::maxi("max_schedule_points", (u64)sh->npoints);
        std::string o;
        for (int i = 0; i < sh->nops; ++i)
            o += fmt("%d.%d=%p ", sh->ops[i].thread, sh->ops[i].kind,
                     sh->ops[i].result);
        // threads may start their calls in any order
        std::vector<std::string> parts;
        for (int t = 0; t < prog.nthreads; ++t)
        {
            std::string q;
            for (int i = 0; i < sh->nops; ++i)
                if (sh->ops[i].thread == t) q += fmt("%p ", sh->ops[i].result);
            parts.push_back(q);
        }
        o.clear();
        for (auto& q: parts) o += q + "|";
        ++outcomes[o];
        if (runs == 1)
        {
            first_history = history();
            // the same schedule once more has to give the same history
            std::vector<unsigned char> same;
            for (int i = 0; i < sh->npoints; ++i) same.push_back(sh->p[i].choice);
            if (!execute(same, err) || history() != first_history)
                report("the same schedule gave another history: " + history() +
                       " / " + first_history);
        }
        // next schedule
        int i = sh->npoints - 1;
        if (bound < 0)
            while (i >= 0 && sh->p[i].choice + 1 >= sh->p[i].enabled) --i;
        else
        {
            // the first alternative lets the running thread go on, when it can;
            // every other one preempts it
            int preempted = 0;
            for (int k = 0; k < sh->npoints; ++k)
                preempted += sh->p[k].preempt_possible && sh->p[k].choice > 0;
            for (; i >= 0; --i)
            {
                const bool pp = sh->p[i].preempt_possible;
                preempted -= pp && sh->p[i].choice > 0;
                if (sh->p[i].choice + 1 < sh->p[i].enabled &&
                    preempted + pp <= bound)
                    break;
            }
        }
        if (i < 0) break;
        pre.clear();
        for (int k = 0; k < i; ++k) pre.push_back(sh->p[k].choice);
        pre.push_back((unsigned char)(sh->p[i].choice + 1));
        if (runs >= max_runs)
        {
            mc::cap(fmt("program %s: stopped after %llu schedules", prog.name, runs));
            break;
        }
    }
    mc::count("states", points);
    mc::count("transitions", points);
    mc::count("traces", runs);
    mc::count("schedules", runs);
    mc::count("distinct_outcomes", outcomes.size());
    mc::sample(fmt("%s%s: %llu schedules, %zu distinct outcomes, e.g. %s", prog.name,
                   bound < 0 ? "" : fmt(" (at most %d preemptions)", bound).c_str(), runs, outcomes.size(), first_history.c_str()));
}

void reg()
{
    int n;
    const Program* p = conc_programs(n);
    for (int i = 0; i < n; ++i)
        mc::add(p[i].name, [=] { explore(p[i], mc::S().thorough ? 400000 : 12000); },
                p[i].tier);
}
}  // namespace
MC_MAIN(reg)
