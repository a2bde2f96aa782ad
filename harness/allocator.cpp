// C15 and C16: allocator<T> against a recording resource.
#include <array>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <mc.h>
#include <user_resource.h>
#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>

using std::size_t;
using std::uintptr_t;
namespace um = utils::memory;
using mc::fmt;
using mc::Step;
using mc::u64;

namespace
{
constexpr size_t MX = ~size_t{0};
std::string g_case;
void cases() { mc::S().current = [] { return g_case; }; }

// ---- C15 ----------------------------------------------------------------------
template <size_t Size, size_t Align = 1>
struct alignas(Align) Sized
{
    unsigned char c[Size];
};
struct Poly
{
    virtual ~Poly() = default;
    char c = 0;
};

std::vector<size_t> counts(size_t sz)
{
    std::vector<size_t> v = {0, 1, 2, 3, 4, 5, 7, 8, 100};
    auto around = [&](size_t n)
    {
        for (size_t d = 0; d < 3; ++d)
        {
            if (n >= d) v.push_back(n - d);
            v.push_back(n + d);
        }
    };
    around(MX / sz);
    around(MX / sz / 2);
    around(MX);
    for (int p = 1; p < 64; ++p) around(size_t{1} << p);
    for (size_t d = 1; d <= 17; ++d)
    {
        around(MX / d);
        around((MX / sz) * d);
    }
    return v;
}

template <class T, class F>
void sized_case(const char* how, F ask, size_t n, bool serve)
{
    alignas(64) static char block[1];
    UserResource r;
    r.answer = serve ? block : nullptr;
    g_case = fmt("%s(%zu) for objects of %zu bytes aligned to %zu, resource %s",
                 how, n, sizeof(T), alignof(T), serve ? "serves" : "fails");
    mc::beat();
    mc::count("evaluations");
    const unsigned __int128 bytes = (unsigned __int128)n * sizeof(T);
    const bool fits = bytes <= MX;
    if (!fits || n > 1) mc::count("distinct_nontrivial");
    T* got = ask(r, n);
    if (!fits)
    {
        MC_CHECK("C15", !got, "a block although %zu objects are not representable",
                 n);
        MC_CHECK("C15", !r.allocs, "the resource was asked for %zu bytes", r.size);
    }
    else
    {
        MC_CHECK("C15", r.allocs == 1, "the resource was asked %d times", r.allocs);
        MC_CHECK("C15", r.size == (size_t)bytes && r.align == alignof(T),
                 "asked for %zu bytes aligned to %zu", r.size, r.align);
        MC_CHECK("C15", (void*)got == r.answer, "the answer was %p, the result %p",
                 r.answer, (void*)got);
    }
    MC_CHECK("C15", !r.frees, "something was freed");
}

template <class T>
void sizes_of()
{
    for (size_t n: counts(sizeof(T)))
        for (bool serve: {true, false})
        {
            sized_case<T>(
                "allocator<T>::allocate",
                [](UserResource& r, size_t k)
                {
                    um::allocator<T> a(&r);
                    return a.allocate(k);
                },
                n, serve);
            sized_case<T>(
                "allocator<char>::allocate_object<T>",
                [](UserResource& r, size_t k)
                {
                    um::allocator<char> a(&r);
                    return a.template allocate_object<T>(k);
                },
                n, serve);
            sized_case<T>(
                "converted allocator<T>::allocate",
                [](UserResource& r, size_t k)
                {
                    um::allocator<double> d(&r);
                    um::allocator<T> a(d);
                    return a.allocate(k);
                },
                n, serve);
        }
    for (bool serve: {true, false})
        sized_case<T>(
            "allocate_object<T>()",
            [](UserResource& r, size_t)
            {
                um::allocator<short> a(&r);
                return a.template allocate_object<T>();
            },
            1, serve);
    // deallocation
    for (int how = 0; how < 3; ++how)
    {
        UserResource r;
        um::allocator<T> a(&r);
        T* p = reinterpret_cast<T*>(uintptr_t{0x123456789000});
        g_case = fmt("deallocation form %d, objects of %zu bytes", how, sizeof(T));
        mc::count("evaluations");
        if (how == 0) a.deallocate(p);
        if (how == 1) a.deallocate_bytes(p);
        if (how == 2)
        {
            um::allocator<char> c(a);
            c.deallocate_object(p);
        }
        MC_CHECK("C15", r.frees == 1 && r.freed == p && !r.allocs,
                 "freed %d times, %p", r.frees, r.freed);
    }
}

void sizes()
{
    cases();
    sizes_of<char>();
    sizes_of<Sized<2>>();
    sizes_of<Sized<3>>();
    sizes_of<int>();
    sizes_of<Sized<5>>();
    sizes_of<Sized<7>>();
    sizes_of<double>();
    sizes_of<Sized<12, 4>>();
    sizes_of<Poly>();
    sizes_of<long double>();
    sizes_of<Sized<24, 8>>();
    sizes_of<Sized<64, 64>>();
    sizes_of<Sized<192, 64>>();
    sizes_of<Sized<1000, 2>>();
    sizes_of<Sized<4096, 4096>>();
    sizes_of<Sized<65537>>();
    mc::sample("every count around 0, powers of two, SIZE_MAX/size, SIZE_MAX/d");
}

void bytes()
{
    cases();
    const std::vector<size_t> v = counts(1);
    for (size_t n: v)
        for (int a = -1; a < 64; ++a)
            for (bool serve: {true, false})
            {
                alignas(64) static char block[1];
                UserResource r;
                r.answer = serve ? block : nullptr;
                um::allocator<int> al(&r);
                const size_t want =
                    a < 0 ? alignof(std::max_align_t) : size_t{1} << a;
                g_case = fmt("allocate_bytes(%zu,%zu) resource %s", n, want,
                             serve ? "serves" : "fails");
                mc::count("evaluations");
                mc::count("distinct_nontrivial");
                void* p = a < 0 ? al.allocate_bytes(n) : al.allocate_bytes(n, want);
                MC_CHECK("C15",
                         r.allocs == 1 && r.size == n && r.align == want &&
                             p == r.answer && !r.frees,
                         "asked %d times for %zu/%zu, result %p", r.allocs, r.size,
                         r.align, p);
            }
}

template <class A, class B>
void eq_pair(const A& a, const B& b, bool same, bool from_same)
{
    mc::count("evaluations");
    mc::count("distinct_nontrivial");
    const char* why = from_same ? "(copies of one allocator)" : "";
    MC_CHECK("C15", (a == b) == same && (b == a) == same && (a != b) != same &&
                 (b != a) != same,
             "equality of allocators is not that of their resources %s", why);
}

void equality()
{
    cases();
    UserResource r0(0), r1(1), r2(1), r3(2);
    um::memory_resource* res[] = {&r0, &r1, &r2, &r3,
                                  um::system_memory_resource(),
                                  um::null_memory_resource()};
    for (auto* x: res)
    {
        um::allocator<int> a(x);
        um::allocator<int> copy(a);
        um::allocator<double> conv(a);
        const um::allocator<Poly> back(conv);
        um::allocator<int> round(back);
        um::allocator<int> moved(std::move(copy));
        MC_CHECK("C15", a.resource() == x && conv.resource() == x &&
                     back.resource() == x && round.resource() == x &&
                     moved.resource() == x,
                 "a copy or conversion uses another resource");
        eq_pair(a, conv, true, true);
        eq_pair(a, back, true, true);
        eq_pair(a, round, true, true);
        for (auto* y: res)
        {
            g_case = "equality matrix";
            const bool same = x->is_equal(*y);
            um::allocator<int> b(y);
            um::allocator<double> c(y);
            const um::allocator<Poly> d(y);
            eq_pair(a, b, same, false);
            eq_pair(a, c, same, false);
            eq_pair(conv, d, same, false);
            eq_pair(back, c, same, false);
        }
        // a conversion and its source are interchangeable
        if (auto* u = dynamic_cast<UserResource*>(x))
        {
            u->reset();
            alignas(16) static char blk[64];
            u->answer = blk;
            void* p = a.allocate(3);
            conv.deallocate(static_cast<double*>(p));
            MC_CHECK("C15", p == blk && u->frees == 1 && u->freed == blk,
                     "an allocator and its conversion do not share the resource");
        }
    }
    // the default one
    UserResource d(9);
    um::memory_resource* old = um::set_default_resource(&d);
    um::allocator<int> a;
    um::allocator<double> from_a(a);
    um::set_default_resource(old);
    um::allocator<int> b;
    um::allocator<double> from_a_later(a);
    mc::count("evaluations", 4);
    MC_CHECK("C15", a.resource() == &d && from_a.resource() == &d &&
                 from_a_later.resource() == &d && b.resource() == old,
             "default constructed or converted allocator uses the wrong resource");
    static_assert(std::is_same_v<um::allocator<Poly>::value_type, Poly>);
    static_assert(noexcept(a.allocate(1)));
}

// ---- C16 ----------------------------------------------------------------------
struct Event
{
    int made = 0, destroyed = 0;
};
std::vector<std::string> g_log;
void log(std::string s) { g_log.push_back(std::move(s)); }

// serves from a small arena, records, can fail
struct Arena : um::memory_resource
{
    struct Block
    {
        size_t size, align;
        bool used;
    };
    alignas(64) unsigned char mem[8][256];
    Block b[8] = {};
    bool ok = true;
    Arena() : memory_resource(&Arena::allocate<Arena>, &Arena::deallocate<Arena>)
    {
        memset(mem, 0xCC, sizeof mem);
    }
    bool is_equal(const memory_resource& o) const noexcept override
    {
        return this == &o;
    }
    int find(const void* p) const
    {
        for (int i = 0; i < 8; ++i)
            if (p == mem[i]) return i;
        return -1;
    }

   private:
    friend class um::memory_resource;
    void* allocate_impl(size_t s, size_t a) noexcept
    {
        if (ok)
            for (int i = 0; i < 8; ++i)
                if (!b[i].used)
                {
                    b[i] = {s, a, true};
                    log(fmt("alloc %d %zu/%zu", i, s, a));
                    memset(mem[i], 0xCC, sizeof mem[i]);
                    return mem[i];
                }
        log(fmt("alloc failed %zu/%zu", s, a));
        return nullptr;
    }
    void deallocate_impl(void* p) noexcept
    {
        const int i = find(p);
        log(fmt("free %d", i));
        if (i < 0 || !b[i].used)
            mc::fail("C16", "storage was freed that is not allocated");
        b[i].used = false;
    }
};
Arena* g_arena = nullptr;

// how one constructor argument arrived
template <class A>
std::string cat()
{
    std::string s;
    if (std::is_const_v<std::remove_reference_t<A>>) s += "const ";
    s += std::is_lvalue_reference_v<A> ? "lvalue" : "rvalue";
    return s;
}
struct Arg
{
    int v;
    explicit Arg(int x) noexcept : v(x) {}
    Arg(const Arg& o) noexcept : v(o.v) { log("arg copied"); }
    Arg(Arg&& o) noexcept : v(o.v)
    {
        o.v = -1;
        log("arg moved");
    }
};

struct Common
{
};
// a class with operators of its own
struct Strange
{
    void operator&() const = delete;
    template <class T>
    void operator,(T&&) const = delete;
    static void* operator new(size_t) = delete;
    static void operator delete(void*) = delete;
};
template <size_t Pad, size_t Align, class Base = Common>
struct alignas(Align) Obj : Base
{
    unsigned char pad[Pad];
    int v = -7;
    Obj* self;
    void born(const char* how)
    {
        self = this;
        const int i = g_arena->find(this);
        log(fmt("ctor %d %s", i, how));
        if (i >= 0 && !g_arena->b[i].used)
            mc::fail("C16", "constructed in storage that is not allocated");
    }
    Obj() noexcept { born("()"); }
    template <class A, class = std::enable_if_t<
                           std::is_same_v<std::decay_t<A>, Arg>>>
    explicit Obj(A&& a) noexcept : v(a.v)
    {
        born(cat<A>().c_str());
    }
    template <class A, class B>
    Obj(A&& a, B&& b) noexcept : v(a.v * 100 + b.v)
    {
        born((cat<A>() + "," + cat<B>()).c_str());
    }
    Obj(std::unique_ptr<int> p, int&, const int&) noexcept : v(*p)
    {
        born("unique_ptr");
    }
    explicit Obj(std::initializer_list<int>) noexcept { born("list"); }
    Obj(long a, long b, long c, long d) noexcept
        : v(int(a * 1000 + b * 100 + c * 10 + d))
    {
        born("4");
    }
    Obj(const Obj& o) noexcept : v(o.v) { born("copy"); }
    Obj(Obj&& o) noexcept : v(o.v)
    {
        o.v = -2;
        born("move");
    }
    // an object that makes another one while it is constructed
    explicit Obj(um::allocator<char>* a) noexcept
    {
        Obj* inner = a->new_object<Obj>();
        v = inner ? 5 : 6;
        if (inner) a->delete_object(inner);
        born("nested");
    }
    ~Obj()
    {
        const int i = g_arena->find(this);
        log(fmt("dtor %d v=%d", i, v));
        if (self != this)
            mc::fail("C16", "destroyed something that was not constructed here");
        if (i >= 0 && !g_arena->b[i].used)
            mc::fail("C16", "destroyed after its storage was returned");
        self = nullptr;
    }
};

struct Cell
{
    Arena arena;
    um::allocator<char> a;
    Cell() : a(&arena) {}
};

template <class O>
struct Sys
{
    struct Live
    {
        O* p;
        int v;
        int slot;
    };
    enum
    {
        forms = 12
    };
    std::vector<Live> live;
    Cell cell;
    static int nops() { return forms * 2 + 4 * 2 + 1; }
    static std::string op_name(int i)
    {
        static const char* n[] = {"()",
                                  "(Arg&)",
                                  "(const Arg&)",
                                  "(Arg&&)",
                                  "(const Arg&&)",
                                  "(Arg&,Arg&&)",
                                  "(Arg&&,const Arg&)",
                                  "(unique_ptr&&,int&,const int&)",
                                  "(1,2,3,4)",
                                  "(Obj const&)",
                                  "(Obj&&)",
                                  "nested"};
        if (i < 2 * forms)
            return fmt("new_object%s%s", n[i / 2], i % 2 ? " without memory" : "");
        i -= 2 * forms;
        if (i < 8)
            return fmt("delete_object(#%d)%s", i / 2,
                       i % 2 ? " by a converted allocator" : "");
        return "delete_object(null)";
    }
    bool enabled(int i) const
    {
        if (i < 2 * forms) return live.size() < 4;
        i -= 2 * forms;
        return i >= 8 || (size_t)(i / 2) < live.size();
    }
    Sys() { g_arena = &cell.arena; }
    ~Sys() {}
    void discard() {}

    void expect(std::vector<std::string> want, const char* what)
    {
        if (g_log == want) return;
        std::string g, w;
        for (auto& s: g_log) g += s + "; ";
        for (auto& s: want) w += s + "; ";
        mc::fail("C16", fmt("%s: happened: %s expected: %s", what, g.c_str(),
                            w.c_str()));
    }

    Step apply(int i, bool check)
    {
        g_log.clear();
        if (i < 2 * forms)
        {
            const int f = i / 2;
            const bool ok = i % 2 == 0;
            Arg x(3), y(4);
            const Arg c(5);
            int n = 8;
            const int m = 9;
            auto up = std::make_unique<int>(77);
            alignas(O) unsigned char tmp[sizeof(O)];
            O* src = nullptr;
            if (f == 9 || f == 10)
            {
                src = ::new (tmp) O(x);
                g_log.clear();
            }
            cell.arena.ok = ok;
            O* p = nullptr;
            std::string how;
            int v = 0;
            auto& a = cell.a;
            switch (f)
            {
                case 0: p = a.new_object<O>(), how = "()", v = -7; break;
                case 1: p = a.new_object<O>(x), how = "lvalue", v = 3; break;
                case 2: p = a.new_object<O>(c), how = "const lvalue", v = 5; break;
                case 3:
                    p = a.new_object<O>(std::move(x)), how = "rvalue", v = 3;
                    break;
                case 4:
                    p = a.new_object<O>(std::move(c)), how = "const rvalue", v = 5;
                    break;
                case 5:
                    p = a.new_object<O>(x, std::move(y)), how = "lvalue,rvalue",
                    v = 304;
                    break;
                case 6:
                    p = a.new_object<O>(std::move(x), c),
                    how = "rvalue,const lvalue", v = 305;
                    break;
                case 7:
                    p = a.new_object<O>(std::move(up), n, m), how = "unique_ptr",
                    v = 77;
                    break;
                case 8: p = a.new_object<O>(1, 2, 3, 4), how = "4", v = 1234; break;
                case 9:
                    p = a.new_object<O>(static_cast<const O&>(*src)), how = "copy",
                    v = 3;
                    break;
                case 10: p = a.new_object<O>(std::move(*src)), how = "move", v = 3; break;
                case 11: p = a.new_object<O>(&a), how = "nested", v = 5; break;
            }
            if (check)
            {
                if (!ok)
                {
                    MC_CHECK("C16", !p, "an object without storage: %p", (void*)p);
                    expect({fmt("alloc failed %zu/%zu", sizeof(O), alignof(O))},
                           "new_object");
                    if (f == 7)
                        MC_CHECK("C16", up, "an argument was consumed although no "
                                            "object was constructed");
                }
                else
                {
                    const int s = cell.arena.find(p);
                    MC_CHECK("C16", s >= 0, "the object lies at %p", (void*)p);
                    std::vector<std::string> want = {
                        fmt("alloc %d %zu/%zu", s, sizeof(O), alignof(O))};
                    if (f == 11)
                    {
                        int in = 0;
                        while (cell.arena.b[in].used) ++in;
                        want.push_back(
                            fmt("alloc %d %zu/%zu", in, sizeof(O), alignof(O)));
                        want.push_back(fmt("ctor %d ()", in));
                        want.push_back(fmt("dtor %d v=-7", in));
                        want.push_back(fmt("free %d", in));
                    }
                    want.push_back(fmt("ctor %d %s", s, how.c_str()));
                    expect(want, "new_object");
                    MC_CHECK("C16", p->v == v, "value %d instead of %d", p->v, v);
                    MC_CHECK("C16", x.v == 3 && y.v == 4 && c.v == 5,
                             "an argument was changed");
                }
            }
            cell.arena.ok = true;
            if (src) src->~O();
            if (p) live.push_back({p, v, cell.arena.find(p)});
            return Step::next;
        }
        i -= 2 * forms;
        if (i == 8)
        {
            O* none = nullptr;
            cell.a.delete_object(none);
            if (check) expect({}, "delete_object(null)");
            return Step::next;
        }
        const Live l = live[(size_t)(i / 2)];
        live.erase(live.begin() + i / 2);
        if (i % 2)
        {
            um::allocator<double> d(cell.a);
            d.delete_object(l.p);
        }
        else
            cell.a.delete_object(l.p);
        if (check)
        {
            expect({fmt("dtor %d v=%d", l.slot, l.v), fmt("free %d", l.slot)},
                   "delete_object");
            for (auto& o: live)
                MC_CHECK("C16", o.p->v == o.v && o.p->self == o.p,
                         "another object was touched");
        }
        return Step::next;
    }
    void model_key(std::string& k) const
    {
        for (auto& l: live)
        {
            mc::put(k, l.slot);
            mc::put(k, l.v);
        }
    }
    void impl_key(std::string&) const {}
};

// construct() on storage of the user, other kinds of objects
struct Base
{
    virtual ~Base() { log("base dtor"); }
};
struct Derived final : Base
{
    std::string s;
    Derived(const char* c) noexcept : s(c) { log("derived ctor"); }
    ~Derived() override { log("derived dtor " + s); }
};
struct Trivial
{
    int a, b;
};
struct Dflt
{
    int x = 3;
    std::array<int, 4> arr{};
};
void others()
{
    cases();
    Arena ar;
    g_arena = &ar;
    um::allocator<int> a(&ar);
    g_case = "polymorphic";
    g_log.clear();
    Derived* d = a.new_object<Derived>("some text that needs its own memory");
    Base* b = d;
    MC_CHECK("C16", d && d->s == "some text that needs its own memory", "value");
    a.delete_object(b);
    const std::vector<std::string> want = {
        fmt("alloc 0 %zu/%zu", sizeof(Derived), alignof(Derived)), "derived ctor",
        "derived dtor some text that needs its own memory", "base dtor", "free 0"};
    MC_CHECK("C16", g_log == want, "polymorphic lifecycle");
    g_case = "value initialisation";
    // storage is full of 0xCC: T() has to zero a trivial type
    Trivial* t = a.new_object<Trivial>();
    MC_CHECK("C16", t && t->a == 0 && t->b == 0, "Trivial() is %x", t->a);
    int* n = a.new_object<int>();
    MC_CHECK("C16", n && *n == 0, "int() is %x", *n);
    int* n5 = a.new_object<int>(5);
    Dflt* df = a.new_object<Dflt>();
    MC_CHECK("C16", *n5 == 5 && df->x == 3 && df->arr[3] == 0, "values");
    Trivial src{1, 2};
    Trivial* t2 = a.new_object<Trivial>(src);
    MC_CHECK("C16", t2->a == 1 && t2->b == 2, "copied aggregate");
    a.delete_object(n), a.delete_object(n5), a.delete_object(df);
    a.delete_object(t), a.delete_object(t2);
    for (auto& x: ar.b) MC_CHECK("C16", !x.used, "storage is still in use");
    g_case = "construct on given storage";
    using O = Obj<1, 8>;
    alignas(O) unsigned char st[sizeof(O)];
    g_log.clear();
    Arg x(9);
    a.construct(reinterpret_cast<O*>(st), std::move(x), x);
    MC_CHECK("C16", g_log == std::vector<std::string>{"ctor -1 rvalue,lvalue"} &&
                 reinterpret_cast<O*>(st)->v == 909,
             "construct");
    mc::count("evaluations", 9);
    mc::count("states", 9), mc::count("transitions", 9), mc::count("traces", 9);
}

void reg()
{
    mc::add("sizes", sizes, 0, "C15");
    mc::add("bytes", bytes, 0, "C15");
    mc::add("equality", equality, 0, "C15");
    mc::add("objects_small", [] { mc::explore<Sys<Obj<1, 8>>>(4, 3000); }, 0, "C16");
    mc::add("objects_overaligned", [] { mc::explore<Sys<Obj<70, 64>>>(3, 3000); }, 0,
            "C16");
    mc::add("objects_own_operators", [] { mc::explore<Sys<Obj<12, 16, Strange>>>(3, 3000); }, 0,
            "C16");
    mc::add("others", others, 0, "C16");
    mc::add("objects_deep", [] { mc::explore<Sys<Obj<24, 8>>>(9, 60000); }, 1, "C16");
}
}  // namespace
MC_MAIN(reg)
