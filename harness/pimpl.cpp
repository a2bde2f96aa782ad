// C26: every history of the real fast_pimpl over an instrumented implementation
// object, with an exception thrown at every operation of that object.
#include <utils/fast_pimpl.h>

#include <set>
#include <string>
#include <vector>

#include <mc.h>

using std::size_t;
using std::uintptr_t;
using mc::fmt;
using mc::Step;

namespace
{
// ---- the instrumented object --------------------------------------------------
enum Ev
{
    ev_default,
    ev_args,
    ev_copy,
    ev_move,
    ev_copy_assign,
    ev_move_assign,
    ev_dtor
};
const char* ev_name[] = {"default construction", "construction from arguments",
                         "copy construction",    "move construction",
                         "copy assignment",      "move assignment",
                         "destruction"};
struct Event
{
    Ev ev;
    const void* dst;
    const void* src;
    bool operator==(const Event& o) const
    {
        return ev == o.ev && dst == o.dst && src == o.src;
    }
};
std::vector<Event> g_log;
std::set<const void*> g_live;
int g_fault = 0;  // the n-th operation from now throws
struct Fault
{
};
constexpr int kMoved = 7, kDirty = 0x5a;

enum Class
{
    full,      // every operation may throw
    quiet,     // every operation is noexcept
    copy_only, // no move operations
    move_only,
    classes
};

template <Class C>
struct Ops
{
    static void event(Ev e, const void* d, const void* s)
    {
        if (C != quiet && g_fault && --g_fault == 0) throw Fault{};
        g_log.push_back({e, d, s});
        const bool born = e <= ev_move;
        if (born)
        {
            if (!g_live.insert(d).second)
                mc::fail("C26", fmt("%s over a living object", ev_name[e]));
        }
        else if (!g_live.count(d))
            mc::fail("C26", fmt("%s of an object that does not exist", ev_name[e]));
        if (s && !g_live.count(s))
            mc::fail("C26", fmt("%s from an object that does not exist", ev_name[e]));
        if (e == ev_dtor) g_live.erase(d);
    }
};

// the storage: Base gives layout and alignment
struct Small
{
    signed char v;
};
struct alignas(64) Wide
{
    char before[70];
    int v;
    char after[3];
};
struct Poly
{
    virtual ~Poly() = default;
    virtual int id() const { return 1; }
    double d = 1.5;
    int v;
};
// a class with operators of its own
struct Strange
{
    signed char v;
    void operator&() const = delete;
    template <class T>
    void operator,(T&&) const = delete;
    static void* operator new(size_t) = delete;
    static void operator delete(void*) {}
};
struct Lead
{
    Lead() = default;
    int lead = 3;
    virtual ~Lead() = default;
};

template <class Base, Class C>
struct Obj : Base
{
    using O = Ops<C>;
    static constexpr bool nx = C == quiet;
    static constexpr Class cls = C;
    Obj() noexcept(nx)
    {
        O::event(ev_default, this, nullptr);
        Base::v = 0;
    }
    // distinguishes how the arguments arrive: l-value, const l-value, r-value
    Obj(int& a, const int& b, int&& c) noexcept(nx)
    {
        O::event(ev_args, this, nullptr);
        Base::v = a + b + c;
        a = 50;
        c = 51;
    }
    template <class A, class B, class D>
    Obj(A&&, B&&, D&&) noexcept(nx)
    {
        O::event(ev_args, this, nullptr);
        Base::v = 6;  // wrong categories
    }
    explicit Obj(int* p) noexcept(nx)
    {
        O::event(ev_args, this, nullptr);
        Base::v = *p;
    }
    Obj(const Obj& o) noexcept(nx) : Base()
    {
        O::event(ev_copy, this, std::addressof(o));
        Base::v = o.v;
    }
    Obj(Obj&& o) noexcept(nx) : Base()
    {
        O::event(ev_move, this, std::addressof(o));
        Base::v = o.v;
        o.v = kMoved;
    }
    Obj& operator=(const Obj& o) noexcept(nx)
    {
        O::event(ev_copy_assign, this, std::addressof(o));
        Base::v = o.v;
        return *this;
    }
    Obj& operator=(Obj&& o) noexcept(nx)
    {
        O::event(ev_move_assign, this, std::addressof(o));
        const int x = o.v;
        o.v = kMoved;
        Base::v = x;
        return *this;
    }
    ~Obj() { O::event(ev_dtor, this, nullptr); }
    int get() const { return Base::v; }
    void set(int x) { Base::v = x; }
    // which overload a call through the holder selects
    int which() { return 1; }
    int which() const { return 2; }
};
template <class Base>
struct Obj<Base, copy_only> : Base
{
    using O = Ops<full>;
    static constexpr Class cls = copy_only;
    Obj()
    {
        O::event(ev_default, this, nullptr);
        Base::v = 0;
    }
    Obj(int& a, const int& b, int&& c)
    {
        O::event(ev_args, this, nullptr);
        Base::v = a + b + c;
        a = 50;
        c = 51;
    }
    explicit Obj(int* p)
    {
        O::event(ev_args, this, nullptr);
        Base::v = *p;
    }
    Obj(const Obj& o) : Base()
    {
        O::event(ev_copy, this, std::addressof(o));
        Base::v = o.v;
    }
    Obj& operator=(const Obj& o)
    {
        O::event(ev_copy_assign, this, std::addressof(o));
        Base::v = o.v;
        return *this;
    }
    ~Obj() { O::event(ev_dtor, this, nullptr); }
    int get() const { return Base::v; }
    void set(int x) { Base::v = x; }
    int which() { return 1; }
    int which() const { return 2; }
};
template <class Base>
struct Obj<Base, move_only> : Base
{
    using O = Ops<full>;
    static constexpr Class cls = move_only;
    Obj()
    {
        O::event(ev_default, this, nullptr);
        Base::v = 0;
    }
    Obj(int& a, const int& b, int&& c)
    {
        O::event(ev_args, this, nullptr);
        Base::v = a + b + c;
        a = 50;
        c = 51;
    }
    explicit Obj(int* p)
    {
        O::event(ev_args, this, nullptr);
        Base::v = *p;
    }
    Obj(Obj&& o) : Base()
    {
        O::event(ev_move, this, std::addressof(o));
        Base::v = o.v;
        o.v = kMoved;
    }
    Obj& operator=(Obj&& o)
    {
        O::event(ev_move_assign, this, std::addressof(o));
        const int x = o.v;
        o.v = kMoved;
        Base::v = x;
        return *this;
    }
    ~Obj() { O::event(ev_dtor, this, nullptr); }
    int get() const { return Base::v; }
    void set(int x) { Base::v = x; }
    int which() { return 1; }
    int which() const { return 2; }
};

// ---- the system ----------------------------------------------------------------
enum class K
{
    make_default,
    make_args,        // forwarding_constructor with l-value, const, r-value
    make_ptr,         // forwarding_constructor with a pointer
    make_from_holder, // copy of holder b
    make_from_const_rvalue_holder,
    make_move_holder,
    make_from_plain,
    make_from_const_plain,
    make_from_const_rvalue_plain,
    make_move_plain,
    make_from_temp,      // from a temporary plain object
    make_from_own_get,   // copy of *holder b through get()
    make_move_own_get,
    assign_holder,
    assign_const_holder,
    assign_const_rvalue_holder,
    assign_move_holder,
    assign_plain,
    assign_const_plain,
    assign_const_rvalue_plain,
    assign_move_plain,
    assign_own_get,       // h = h2.get()
    assign_move_own_get,  // h = move(h2.get())
    set_arrow,
    set_get,
    set_plain,
    destroy
};
const char* k_name[] = {
    "default-construct",        "construct from arguments",
    "construct from a pointer", "copy-construct from holder",
    "construct from const r-value holder",
    "move-construct from holder",
    "construct from object",    "construct from const object",
    "construct from const r-value object",
    "move-construct from object",
    "construct from temporary object",
    "construct from get() of holder",
    "construct from move(get()) of holder",
    "= holder",                 "= const holder",
    "= const r-value holder",   "= move(holder)",
    "= object",                 "= const object",
    "= const r-value object",   "= move(object)",
    "= get() of holder",        "= move(get()) of holder",
    "-> set",                   "get().set",
    "set object",               "destroy"};
constexpr int kH = 3, kP = 1;
struct Op
{
    K k;
    int a, b;
    int fault;  // the n-th operation of the object throws
};
std::vector<Op> ops;

template <class T>
struct Sys
{
    using H = utils::fast_pimpl<T, sizeof(T), alignof(T)>;
    static constexpr size_t kPad = alignof(T) < 16 ? 16 : alignof(T);
    static constexpr bool copies = T::cls != move_only;
    struct Cell
    {
        alignas(kPad) unsigned char raw[kPad + sizeof(H) + kPad];
    };
    Cell cell[kH];
    bool present[kH] = {};
    int val[kH] = {};
    alignas(T) unsigned char plain_raw[sizeof(T)];
    T* plain;
    int pval = 0;

    H& h(int i) { return *reinterpret_cast<H*>(cell[i].raw + kPad); }

    Sys()
    {
        g_log.clear();
        g_live.clear();
        g_fault = 0;
        for (auto& c: cell) memset(c.raw, kDirty, sizeof c.raw);
        plain = ::new (plain_raw) T;
        g_log.clear();
    }
    void discard() {}

    static int nops() { return (int)ops.size(); }
    static std::string op_name(int i)
    {
        const Op& o = ops[i];
        std::string s = o.k == K::set_plain ? "" : fmt("h%d ", o.a);
        s += k_name[(int)o.k];
        if (o.b >= 0) s += fmt(" h%d", o.b);
        if (o.fault) s += fmt(" (operation %d of the object throws)", o.fault);
        return s;
    }
    static bool construction(K k) { return k <= K::make_move_own_get; }
    bool enabled(int i) const
    {
        const Op& o = ops[i];
        if (construction(o.k))
        {
            if (present[o.a]) return false;
            // holders are filled in order of their number
            return (o.b < 0 || present[o.b]);
        }
        if (o.k == K::set_plain) return true;
        return present[o.a] && (o.b < 0 || present[o.b]);
    }

    // what the object itself would do
    struct Want
    {
        std::vector<Event> log;
    };

    Step apply(int i, bool check)
    {
        const Op& o = ops[i];
        g_log.clear();
        g_fault = o.fault;
        const bool had = o.k == K::set_plain ? true : present[o.a];
        const std::set<const void*> before = g_live;
        const void* self = o.a >= 0 ? (const void*)&h(o.a) : nullptr;
        void* at = o.a >= 0 ? (void*)(cell[o.a].raw + kPad) : nullptr;
        std::vector<Event> want;
        int nv = o.a >= 0 ? val[o.a] : 0, ov = o.b >= 0 ? val[o.b] : 0, np = pval;
        bool np_present = had;
        constexpr Ev mv = T::cls == copy_only ? ev_copy : ev_move;
        constexpr Ev ma = T::cls == copy_only ? ev_copy_assign : ev_move_assign;
        constexpr bool moves = T::cls != copy_only;
        bool threw = false, ref_ok = true, temp = false;
        int a1 = 1, c1 = 1;
        const int b1 = 0;
        int two = 2;
        const void* os = o.b >= 0 ? (const void*)&h(o.b) : nullptr;
        auto from = [&](bool move, int& src, int& dst)
        {
            dst = src;
            if (move && moves && &src != &dst) src = kMoved;
        };
        (void)from;
        try
        {
            switch (o.k)
            {
                case K::make_default:
                    new (at) H;
                    want = {{ev_default, self, nullptr}};
                    nv = 0;
                    break;
                case K::make_args:
                    new (at) H(utils::forwarding_constructor{}, a1, b1, std::move(c1));
                    want = {{ev_args, self, nullptr}};
                    nv = 2;
                    if (check)
                        MC_CHECK("C26", a1 == 50 && c1 == 51,
                                 "the arguments did not arrive as they were passed");
                    break;
                case K::make_ptr:
                    new (at) H(utils::forwarding_constructor{}, &two);
                    want = {{ev_args, self, nullptr}};
                    nv = 2;
                    break;
                case K::make_from_holder:
                    if constexpr (copies)
                    {
                        new (at) H(h(o.b));
                        want = {{ev_copy, self, os}};
                        nv = ov;
                    }
                    break;
                case K::make_from_const_rvalue_holder:
                    if constexpr (copies)
                    {
                        new (at) H(std::move(std::as_const(h(o.b))));
                        want = {{ev_copy, self, os}};
                        nv = ov;
                    }
                    break;
                case K::make_move_holder:
                    new (at) H(std::move(h(o.b)));
                    want = {{mv, self, os}};
                    nv = ov;
                    if (moves) ov = kMoved;
                    break;
                case K::make_from_plain:
                    if constexpr (copies)
                    {
                        new (at) H(*plain);
                        want = {{ev_copy, self, plain}};
                        nv = np;
                    }
                    break;
                case K::make_from_const_plain:
                    if constexpr (copies)
                    {
                        new (at) H(std::as_const(*plain));
                        want = {{ev_copy, self, plain}};
                        nv = np;
                    }
                    break;
                case K::make_from_const_rvalue_plain:
                    if constexpr (copies)
                    {
                        new (at) H(std::move(std::as_const(*plain)));
                        want = {{ev_copy, self, plain}};
                        nv = np;
                    }
                    break;
                case K::make_move_plain:
                    new (at) H(std::move(*plain));
                    want = {{mv, self, plain}};
                    nv = np;
                    if (moves) np = kMoved;
                    break;
                case K::make_from_temp:
                    temp = true;
                    new (at) H(T(&two));
                    nv = 2;
                    break;
                case K::make_from_own_get:
                    if constexpr (copies)
                    {
                        new (at) H(h(o.b).get());
                        want = {{ev_copy, self, os}};
                        nv = ov;
                    }
                    break;
                case K::make_move_own_get:
                    new (at) H(std::move(h(o.b).get()));
                    want = {{mv, self, os}};
                    nv = ov;
                    if (moves) ov = kMoved;
                    break;
                case K::assign_holder:
                    if constexpr (copies)
                    {
                        ref_ok = &(h(o.a) = h(o.b)) == &h(o.a);
                        want = {{ev_copy_assign, self, os}};
                        nv = ov;
                    }
                    break;
                case K::assign_const_holder:
                    if constexpr (copies)
                    {
                        ref_ok = &(h(o.a) = std::as_const(h(o.b))) == &h(o.a);
                        want = {{ev_copy_assign, self, os}};
                        nv = ov;
                    }
                    break;
                case K::assign_const_rvalue_holder:
                    if constexpr (copies)
                    {
                        ref_ok = &(h(o.a) = std::move(std::as_const(h(o.b)))) == &h(o.a);
                        want = {{ev_copy_assign, self, os}};
                        nv = ov;
                    }
                    break;
                case K::assign_move_holder:
                    ref_ok = &(h(o.a) = std::move(h(o.b))) == &h(o.a);
                    want = {{ma, self, os}};
                    nv = ov;
                    if (moves && o.a != o.b) ov = kMoved;
                    break;
                case K::assign_plain:
                    if constexpr (copies)
                    {
                        ref_ok = &(h(o.a) = *plain) == &h(o.a);
                        want = {{ev_copy_assign, self, plain}};
                        nv = np;
                    }
                    break;
                case K::assign_const_plain:
                    if constexpr (copies)
                    {
                        ref_ok = &(h(o.a) = std::as_const(*plain)) == &h(o.a);
                        want = {{ev_copy_assign, self, plain}};
                        nv = np;
                    }
                    break;
                case K::assign_const_rvalue_plain:
                    if constexpr (copies)
                    {
                        ref_ok = &(h(o.a) = std::move(std::as_const(*plain))) == &h(o.a);
                        want = {{ev_copy_assign, self, plain}};
                        nv = np;
                    }
                    break;
                case K::assign_move_plain:
                    ref_ok = &(h(o.a) = std::move(*plain)) == &h(o.a);
                    want = {{ma, self, plain}};
                    nv = np;
                    if (moves) np = kMoved;
                    break;
                case K::assign_own_get:
                    if constexpr (copies)
                    {
                        ref_ok = &(h(o.a) = h(o.b).get()) == &h(o.a);
                        want = {{ev_copy_assign, self, os}};
                        nv = ov;
                    }
                    break;
                case K::assign_move_own_get:
                    ref_ok = &(h(o.a) = std::move(h(o.b).get())) == &h(o.a);
                    want = {{ma, self, os}};
                    nv = ov;
                    if (moves && o.a != o.b) ov = kMoved;
                    break;
                case K::set_arrow:
                    nv = (val[o.a] + 1) % 3;
                    h(o.a)->set(nv);
                    break;
                case K::set_get:
                    nv = (val[o.a] + 1) % 3;
                    h(o.a).get().set(nv);
                    break;
                case K::set_plain:
                    np = (pval + 1) % 3;
                    plain->set(np);
                    break;
                case K::destroy:
                    want = {{ev_dtor, self, nullptr}};
                    h(o.a).~H();
                    np_present = false;
                    memset(at, kDirty, sizeof(H));
                    break;
            }
        }
        catch (Fault&)
        {
            threw = true;
        }
        g_fault = 0;
        if (check)
            MC_CHECK("C26", threw == (o.fault != 0), "%s", threw ? "threw" : "swallowed the exception");
        if (threw)
        {
            if (check)
            {
                MC_CHECK("C26", g_log.empty() || (o.k == K::make_from_temp),
                         "after the exception the holder %s the object",
                         g_log.empty() ? "" : ev_name[g_log.back().ev]);
                MC_CHECK("C26", g_live == before,
                         "the exception changed which objects exist");
                check_values();
            }
            return Step::next;
        }
        if (construction(o.k)) present[o.a] = true;
        if (o.k == K::destroy) present[o.a] = false;
        (void)np_present;
        if (o.b >= 0) val[o.b] = ov;
        if (o.a >= 0) val[o.a] = o.k == K::destroy ? 0 : nv;
        pval = np;
        if (check)
        {
            MC_CHECK("C26", ref_ok, "an assignment does not return the holder");
            if (temp)
            {
                // construct the temporary, take it over, destroy it
                MC_CHECK("C26",
                         g_log.size() == 3 && g_log[0].ev == ev_args &&
                             g_log[1] == (Event{mv, self, g_log[0].dst}) &&
                             g_log[2] == (Event{ev_dtor, g_log[0].dst, nullptr}),
                         "construction from a temporary: %s", log().c_str());
            }
            // an assignment to itself may also do nothing at all
            else if (!(o.b == o.a && o.b >= 0 && g_log.empty()))
                MC_CHECK("C26", g_log == want, "the object underwent: %s; expected one %s",
                         log().c_str(), want.empty() ? "nothing" : ev_name[want[0].ev]);
            check_values();
        }
        return Step::next;
    }
    std::string log()
    {
        std::string s;
        for (auto& e: g_log)
        {
            s += ev_name[e.ev];
            bool known = false;
            for (int i = 0; i < kH; ++i)
                if (e.dst == (void*)&h(i)) s += fmt(" of h%d", i), known = true;
            if (!known) s += e.dst == plain ? " of the plain object" : " of another address";
            for (int i = 0; i < kH; ++i)
                if (e.src == (void*)&h(i)) s += fmt(" from h%d", i);
            s += "; ";
        }
        return s.empty() ? "nothing" : s;
    }
    void check_values()
    {
        size_t live = 1;
        for (int i = 0; i < kH; ++i)
        {
            live += present[i];
            for (size_t k = 0; k < kPad; ++k)
                MC_CHECK("C26",
                         cell[i].raw[k] == kDirty && cell[i].raw[kPad + sizeof(H) + k] == kDirty,
                         "bytes outside holder h%d were written", i);
            if (!present[i]) continue;
            MC_CHECK("C26", g_live.count(&h(i)), "h%d does not hold a living object", i);
            const H& c = h(i);
            T* const p = reinterpret_cast<T*>(cell[i].raw + kPad);
            MC_CHECK("C26",
                     h(i).operator->() == p && c.operator->() == p && std::addressof(h(i).get()) == p &&
                         std::addressof(c.get()) == p,
                     "access to h%d does not reach its object", i);
            MC_CHECK("C26", (h(i)->which() == 1) && (h(i).get().which() == 1) &&
                         (c->which() == 2) && (c.get().which() == 2),
                     "access to h%d does not keep its constness", i);
            MC_CHECK("C26", c->get() == val[i], "h%d has the value %d, expected %d", i,
                     c->get(), val[i]);
        }
        MC_CHECK("C26", plain->get() == pval, "the plain object has the value %d, expected %d",
                 plain->get(), pval);
        MC_CHECK("C26", g_live.size() == live, "%zu objects exist, expected %zu",
                 g_live.size(), live);
    }
    void model_key(std::string& k) const
    {
        for (int i = 0; i < kH; ++i)
        {
            mc::put(k, present[i]);
            mc::put(k, present[i] ? val[i] : 0);
        }
        mc::put(k, pval);
    }
    void impl_key(std::string& k)
    {
        for (int i = 0; i < kH; ++i)
            if (present[i]) mc::put(k, h(i)->get());
        mc::put(k, g_live.size());
    }
};

template <class T>
void histories()
{
    ops.clear();
    for (int i = 0; i <= (int)K::destroy; ++i)
    {
        const K k = (K)i;
        const bool pair = k == K::make_from_holder || k == K::make_from_const_rvalue_holder ||
                          k == K::make_move_holder || k == K::make_from_own_get ||
                          k == K::make_move_own_get || k == K::assign_holder ||
                          k == K::assign_const_holder || k == K::assign_const_rvalue_holder ||
                          k == K::assign_move_holder || k == K::assign_own_get ||
                          k == K::assign_move_own_get;
        const bool copy = k == K::make_from_holder || k == K::make_from_const_rvalue_holder ||
                          k == K::make_from_own_get || k == K::assign_holder ||
                          k == K::assign_const_holder || k == K::assign_const_rvalue_holder ||
                          k == K::assign_own_get || k == K::make_from_plain ||
                          k == K::make_from_const_plain ||
                          k == K::make_from_const_rvalue_plain || k == K::assign_plain ||
                          k == K::assign_const_plain || k == K::assign_const_rvalue_plain;
        if (copy && T::cls == move_only) continue;
        const bool throwing = T::cls != quiet && k < K::set_arrow;
        for (int a = 0; a < (k == K::set_plain ? 1 : kH); ++a)
            for (int b = pair ? 0 : -1; b < (pair ? kH : 0); ++b)
                for (int f = 0; f <= (throwing ? 1 + (k == K::make_from_temp) : 0); ++f)
                {
                    if (b == a && k < K::assign_holder) continue;
                    ops.push_back({k, k == K::set_plain ? -1 : a, b, f});
                }
    }
    mc::explore<Sys<T>>();
}

// ---- layout ---------------------------------------------------------------------
size_t g_n, g_nt;
std::string g_case;
void cases()
{
    g_n = g_nt = 0;
    mc::S().current = [] { return g_case; };
}
void done()
{
    mc::count("states", g_n);
    mc::count("transitions", g_n);
    mc::count("traces", g_n);
    mc::count("non_trivial", g_nt);
}

template <size_t Align, size_t Mult>
struct alignas(Align) Block
{
    unsigned char bytes[Align * Mult];
};
template <size_t Align, size_t Mult>
void layout1()
{
    using T = Block<Align, Mult>;
    using H = utils::fast_pimpl<T, sizeof(T), alignof(T)>;
    struct Host
    {
        char c;
        H h;
        char d;
    };
    struct Plain
    {
        char c;
        T h;
        char d;
    };
    g_case = fmt("object of %zu bytes aligned to %zu", sizeof(T), alignof(T));
    mc::beat();
    MC_CHECK("C26", sizeof(H) == sizeof(T) && alignof(H) == alignof(T),
             "the holder has %zu bytes and alignment %zu", sizeof(H), alignof(H));
    MC_CHECK("C26", sizeof(Host) == sizeof(Plain) && alignof(Host) == alignof(Plain),
             "a class with the holder as a member has %zu bytes, with the object %zu",
             sizeof(Host), sizeof(Plain));
    MC_CHECK("C26", sizeof(H[3]) == sizeof(T[3]), "an array of holders has another size");
    static Host hosts[3];
    for (auto& x: hosts)
    {
        const auto p = (uintptr_t)&x.h.get();
        MC_CHECK("C26", p % alignof(T) == 0 && p == (uintptr_t)&x.h,
                 "the object of a member holder is at %#lx", (long)p);
        // value initialisation of the object
        for (auto b: x.h->bytes)
            MC_CHECK("C26", b == 0, "the default-constructed object is not value-initialised");
        memset(x.h->bytes, 0x77, sizeof(T));
        MC_CHECK("C26", x.c == 0 && x.d == 0, "the object overlaps its neighbours");
    }
    T t;
    memset(t.bytes, 0x31, sizeof t);
    t.bytes[sizeof(T) - 1] = 0x32;
    H a(t), b(std::move(t)), c(a), d(std::move(c));
    H e;
    e = d;
    H f;
    f = std::move(e);
    for (H* x: {&a, &b, &d, &f})
        MC_CHECK("C26", memcmp(x->get().bytes, t.bytes, sizeof(T)) == 0,
                 "a copied holder has other bytes");
    ++g_n;
    g_nt += Align > 1;
}
template <size_t Align, size_t... M>
void layout_mults(std::index_sequence<M...>)
{
    (layout1<Align, M + 1>(), ...);
}
void layout()
{
    cases();
    layout_mults<1>(std::make_index_sequence<17>{});
    layout_mults<2>(std::make_index_sequence<9>{});
    layout_mults<4>(std::make_index_sequence<9>{});
    layout_mults<8>(std::make_index_sequence<9>{});
    layout_mults<16>(std::make_index_sequence<9>{});
    layout_mults<32>(std::make_index_sequence<5>{});
    layout_mults<64>(std::make_index_sequence<5>{});
    layout_mults<128>(std::make_index_sequence<3>{});
    layout_mults<256>(std::make_index_sequence<2>{});
    layout_mults<4096>(std::make_index_sequence<1>{});
    layout1<1, 4099>();
    done();
}

// ---- noexcept -------------------------------------------------------------------
template <unsigned M>
struct NX
{
    NX() noexcept((M & 1) != 0) {}
    NX(int) noexcept((M & 2) != 0) {}
    NX(int&, int&&) noexcept((M & 4) != 0) {}
    NX(const NX&) noexcept((M & 8) != 0) {}
    NX(NX&&) noexcept((M & 16) != 0) {}
    NX& operator=(const NX&) noexcept((M & 32) != 0) { return *this; }
    NX& operator=(NX&&) noexcept((M & 64) != 0) { return *this; }
};
template <unsigned M>
void nx1()
{
    using T = NX<M>;
    using H = utils::fast_pimpl<T, sizeof(T), alignof(T)>;
    using F = utils::forwarding_constructor;
    g_case = fmt("object whose operations are noexcept as mask %u (default, int, int& and "
                 "int&&, copy, move, copy =, move =)",
                 M);
    mc::beat();
    const struct
    {
        const char* what;
        bool got, want;
    } q[] = {
        {"default construction", noexcept(H()), bool(M & 1)},
        {"forwarding nothing", std::is_nothrow_constructible_v<H, F>, bool(M & 1)},
        {"forwarding int", std::is_nothrow_constructible_v<H, F, int>, bool(M & 2)},
        {"forwarding int& and int&&", std::is_nothrow_constructible_v<H, F, int&, int>,
         bool(M & 4)},
        {"forwarding a copy", std::is_nothrow_constructible_v<H, F, const T&>, bool(M & 8)},
        {"forwarding a move", std::is_nothrow_constructible_v<H, F, T>, bool(M & 16)},
        {"copy construction", std::is_nothrow_copy_constructible_v<H>, bool(M & 8)},
        {"copy from the object", std::is_nothrow_constructible_v<H, const T&>, bool(M & 8)},
        {"move construction", std::is_nothrow_move_constructible_v<H>, bool(M & 16)},
        {"move from the object", std::is_nothrow_constructible_v<H, T>, bool(M & 16)},
        {"copy assignment", std::is_nothrow_copy_assignable_v<H>, bool(M & 32)},
        {"assignment of the object", std::is_nothrow_assignable_v<H&, const T&>,
         bool(M & 32)},
        {"move assignment", std::is_nothrow_move_assignable_v<H>, bool(M & 64)},
        {"assignment of a moved object", std::is_nothrow_assignable_v<H&, T>, bool(M & 64)},
        {"access", noexcept(std::declval<H&>().get()) && noexcept(std::declval<H&>().operator->()) &&
                       noexcept(std::declval<const H&>().get()) &&
                       noexcept(std::declval<const H&>().operator->()),
         true},
        {"destruction", std::is_nothrow_destructible_v<H>, true},
    };
    for (auto& x: q)
        MC_CHECK("C26", x.got == x.want, "%s of the holder is %snoexcept", x.what,
                 x.got ? "" : "not ");
    g_n += sizeof q / sizeof *q;
    g_nt += sizeof q / sizeof *q;
}
template <size_t... M>
void nx_all(std::index_sequence<M...>)
{
    (nx1<M>(), ...);
}

// ---- forms of construction ------------------------------------------------------
struct Hidden;  // complete only further down
struct Owner
{
    Owner();
    explicit Owner(int v);
    Owner(const Owner&);
    Owner(Owner&&) noexcept;
    Owner& operator=(const Owner&);
    Owner& operator=(Owner&&) noexcept;
    ~Owner();
    int get() const;
    void set(int);

   private:
    utils::fast_pimpl<Hidden, 40, 8> p_;
};
int owner_life();

// as an argument selects different constructors for different value categories
struct Cat
{
    int c;
    Cat(int&) : c(1) {}
    Cat(const int&) : c(2) {}
    Cat(int&&) : c(3) {}
    Cat(const int&&) : c(4) {}
};
struct Aggregate0
{
    int a, b;
    char c;
};
struct ExplicitCopy
{
    int v = 4;
    ExplicitCopy() = default;
    explicit ExplicitCopy(const ExplicitCopy& o) : v(o.v + 10) {}
};
struct NoDefault
{
    explicit NoDefault(int a, int b = 5) : s(a * 10 + b) {}
    int s;
};
struct Pinned
{
    explicit Pinned(int a) : v(a) {}
    Pinned(const Pinned&) = delete;
    Pinned& operator=(const Pinned&) = delete;
    int v;
};
struct Greedy
{
    int how = 0;
    Greedy() = default;
    Greedy(const Greedy&) : how(1) {}
    Greedy(Greedy&&) noexcept : how(2) {}
    template <class U>
    explicit Greedy(U&&) : how(3)
    {
    }
    Greedy& operator=(const Greedy&)
    {
        how = 11;
        return *this;
    }
    Greedy& operator=(Greedy&&) noexcept
    {
        how = 12;
        return *this;
    }
};

void forms()
{
    cases();
    using F = utils::forwarding_constructor;
    const F f{};
    auto one = [](const char* what, long got, long want)
    {
        g_case = what;
        mc::beat();
        MC_CHECK("C26", got == want, "got %ld, expected %ld", got, want);
        ++g_n;
        ++g_nt;
    };
    {
        using V = std::vector<int>;
        using H = utils::fast_pimpl<V, sizeof(V), alignof(V)>;
        H h(f, 3, 7);
        one("vector<int> forwarded (3, 7): size", h->size(), 3);
        one("vector<int> forwarded (3, 7): back", h->back(), 7);
        H i(f, std::initializer_list<int>{4, 5});
        one("vector<int> from a list", i->size(), 2);
        V v{1, 2, 3};
        H j(std::move(v));
        one("moved vector: size", j->size(), 3);
        one("moved vector: source", v.size(), 0);
        h = j;
        one("copy-assigned vector", h.get() == j.get(), true);
        h->push_back(9);
        one("copies are independent", j->size(), 3);
        h = V{8};
        one("assigned from a temporary", h->front(), 8);
        j = std::move(h);
        one("move-assigned vector", j->size() == 1 && j->front() == 8, true);
        H k(j);
        k->front() = 1;
        one("copy-constructed vector is independent", j->front(), 8);
        H* self = &k;
        k = *self;
        one("self-assigned vector", k->size() == 1 && k->front() == 1, true);
    }
    {
        using H = utils::fast_pimpl<Cat, sizeof(Cat), alignof(Cat)>;
        int x = 0;
        const int y = 0;
        one("forwarding int&", H(f, x)->c, 1);
        one("forwarding const int&", H(f, y)->c, 2);
        one("forwarding int&&", H(f, std::move(x))->c, 3);
        one("forwarding const int&&", H(f, std::move(y))->c, 4);
    }
    {
        using H = utils::fast_pimpl<int, sizeof(int), alignof(int)>;
        alignas(H) unsigned char raw[sizeof(H)];
        memset(raw, 0x5a, sizeof raw);
        H* h = new (raw) H;
        one("int is value-initialised", h->get(), 0);
        H i(f, 5), j(6), k(i);
        one("int forwarded", i.get(), 5);
        one("int copied", j.get() + k.get(), 11);
        i = 8;
        one("int assigned", i.get(), 8);
        i = j;
        one("int holder assigned", *i.operator->(), 6);
    }
    {
        using H = utils::fast_pimpl<Aggregate0, sizeof(Aggregate0), alignof(Aggregate0)>;
        alignas(H) unsigned char raw[sizeof(H)];
        memset(raw, 0x5a, sizeof raw);
        H* h = new (raw) H;
        one("aggregate is value-initialised", (*h)->a == 0 && (*h)->b == 0 && (*h)->c == 0, true);
        memset(raw, 0x5a, sizeof raw);
        h = new (raw) H(f);
        one("aggregate forwarded nothing is value-initialised",
            (*h)->a == 0 && (*h)->b == 0 && (*h)->c == 0, true);
        H i(Aggregate0{1, 2, 3});
        one("aggregate moved in", i->a * 100 + i->b * 10 + i->c, 123);
    }
    {
        using H = utils::fast_pimpl<ExplicitCopy, sizeof(ExplicitCopy), alignof(ExplicitCopy)>;
        H h;
        H i(h);
        one("class with an explicit copy constructor", i->v, 14);
        ExplicitCopy e;
        H j(e);
        one("from such an object", j->v, 14);
    }
    {
        using H = utils::fast_pimpl<NoDefault, sizeof(NoDefault), alignof(NoDefault)>;
        one("class without default constructor", H(f, 3)->s, 35);
        one("two arguments", H(f, 3, 4)->s, 34);
        // a plain object is taken over as it is, no conversion from its argument
        one("not constructible from the bare argument", std::is_constructible_v<H, int>, false);
        one("forwarding is explicit", std::is_convertible_v<F, H>, false);
    }
    {
        using H = utils::fast_pimpl<Pinned, sizeof(Pinned), alignof(Pinned)>;
        H h(f, 6);
        one("class that cannot be copied or moved", h->v, 6);
    }
    {
        using H = utils::fast_pimpl<Greedy, sizeof(Greedy), alignof(Greedy)>;
        H h;
        H i(std::as_const(h));
        one("copy with a greedy constructor around", i->how, 1);
        H i2(h);
        one("copy of a non-const holder with a greedy constructor around", i2->how, 1);
        H j(std::move(h));
        one("move with a greedy constructor around", j->how, 2);
        const Greedy g;
        H k(g);
        one("copy of an object with a greedy constructor around", k->how, 1);
        H l(f, 5);
        one("greedy constructor", l->how, 3);
        l = i;
        one("copy assignment of a class with a greedy constructor", l->how, 11);
        l = std::move(i);
        one("move assignment of a class with a greedy constructor", l->how, 12);
        l = g;
        one("assignment of an object", l->how, 11);
        l = Greedy{};
        one("assignment of a temporary", l->how, 12);
    }
    {
        one("owner of a hidden class", owner_life(), 0);
    }
    done();
}

struct Hidden
{
    std::string s = "default";
    int v = 1;
    Hidden() = default;
    explicit Hidden(int x) : s("a text long enough to be on the heap"), v(x) {}
};
Owner::Owner() = default;
Owner::Owner(int v) : p_(utils::forwarding_constructor{}, v) {}
Owner::Owner(const Owner&) = default;
Owner::Owner(Owner&&) noexcept = default;
Owner& Owner::operator=(const Owner&) = default;
Owner& Owner::operator=(Owner&&) noexcept = default;
Owner::~Owner() = default;
int Owner::get() const { return p_->v * 1000 + (int)p_->s.size(); }
void Owner::set(int v) { p_->v = v; }
int owner_life()
{
    Owner a, b(4);
    if (a.get() != 1007 || b.get() != 4036) return 1;
    Owner c(b), d(std::move(b));
    if (c.get() != 4036 || d.get() != 4036) return 2;
    c.set(5);
    if (d.get() != 4036 || c.get() != 5036) return 3;
    a = c;
    if (a.get() != 5036) return 4;
    c.set(6);
    if (a.get() != 5036) return 5;
    a = std::move(c);
    if (a.get() != 6036) return 6;
    Owner& r = a;
    a = r;
    if (a.get() != 6036) return 7;
    std::vector<Owner> v;
    for (int i = 0; i < 9; ++i) v.emplace_back(i);
    for (int i = 0; i < 9; ++i)
        if (v[i].get() != 1000 * i + 36) return 8;
    v.erase(v.begin() + 2);
    if (v[2].get() != 3036 || v.size() != 8) return 9;
    return 0;
}

void reg()
{
    mc::add("throwing", histories<Obj<Small, full>>);
    mc::add("noexcept", histories<Obj<Small, quiet>>);
    mc::add("copy_only", histories<Obj<Small, copy_only>>);
    mc::add("move_only", histories<Obj<Small, move_only>>);
    mc::add("aligned", histories<Obj<Wide, full>>);
    mc::add("polymorphic", histories<Obj<Poly, full>>);
    mc::add("own_operators", histories<Obj<Strange, full>>);
    mc::add("own_operators_move_only", histories<Obj<Strange, move_only>>);
    mc::add("layout", layout);
    mc::add("noexcept_matrix", [] { cases(); nx_all(std::make_index_sequence<128>{}); done(); });
    mc::add("forms", forms);
}
}  // namespace
MC_MAIN(reg)
