// C12: identity of resources and the default resource, over all histories of
// calls made from two source files.
#include "identity.h"
#define TU_FN tu_a
#include "identity_tu.inc"

#include <string>
#include <vector>

#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

#include <mc.h>

using std::size_t;
using std::uintptr_t;
using mc::fmt;
using mc::Step;

namespace
{
// who served a request, by address
enum Who
{
    system_,
    null_,
    none_,
    x_,
    y_,
    whos
};
const char* who_name[] = {"system", "null", "(null pointer)", "X", "Y"};
constexpr uintptr_t kOs = 0x700000000000ull, kX = 0x200000000000ull,
                    kY = 0x300000000000ull;

int os_memalign(void** out, size_t, size_t)
{
    *out = reinterpret_cast<void*>(kOs);
    return 0;
}
void os_free(void*) {}

enum class Kind
{
    set,
    make,
    drop
};
struct Op
{
    Kind kind;
    int tu;
    int a = 0;
    int b = 0;
};
std::vector<Op> ops;
constexpr int kObjs = 2;

struct Sys
{
    alignas(M) char xs[sizeof(M)];
    alignas(M) char ys[sizeof(M)];
    M* x;
    M* y;
    alignas(64) char st[kObjs][sizeof(S) > sizeof(M) ? sizeof(S) : sizeof(M)];
    int form[kObjs] = {-1, -1};
    Who upstream[kObjs];
    Who dflt = system_;

    um::memory_resource* res(Who w)
    {
        switch (w)
        {
            case system_: return um::system_memory_resource();
            case null_: return um::null_memory_resource();
            case x_: return x;
            case y_: return y;
            default: return nullptr;
        }
    }
    const Tu& tu(int i) const { return i ? tu_b() : tu_a(); }

    Sys()
    {
        sysops::memory::ops::current_hooks() = {os_memalign, os_free};
        x = new (xs) M(reinterpret_cast<std::byte*>(kX), size_t{1} << 40, nullptr);
        y = new (ys) M(reinterpret_cast<std::byte*>(kY), size_t{1} << 40, nullptr);
        um::set_default_resource(um::system_memory_resource());
    }
    void discard() {}

    static int nops() { return (int)ops.size(); }
    static std::string op_name(int i)
    {
        const Op& o = ops[i];
        const char t = o.tu ? 'b' : 'a';
        switch (o.kind)
        {
            case Kind::set: return fmt("%c:set_default(%s)", t, who_name[o.a]);
            case Kind::make:
                return fmt("%c:make %s%s%s", t, tu_a().forms[o.a].name,
                           o.b < 0 ? "" : " with ", o.b < 0 ? "" : who_name[o.b]);
            case Kind::drop: return fmt("%c:destroy #%d", t, o.a);
        }
        return "?";
    }
    bool enabled(int i) const
    {
        const Op& o = ops[i];
        if (o.kind == Kind::drop) return form[o.a] >= 0;
        if (o.kind == Kind::make)
        {
            if (form[0] >= 0 && form[1] >= 0) return false;
            const Who w = o.b < 0 ? dflt : (Who)o.b;
            // an allocator must have a resource
            const std::string n = tu_a().forms[o.a].name;
            return !(w == none_ && n[0] == 'a');
        }
        return true;
    }

    void observe()
    {
        for (int t = 0; t < 2; ++t)
        {
            MC_CHECK("C12", tu(t).get() == res(dflt),
                     "file %c: the default resource is %p, expected %s (%p)",
                     "ab"[t], (void*)tu(t).get(), who_name[dflt],
                     (void*)res(dflt));
            MC_CHECK("C12", tu(t).system() == um::system_memory_resource(),
                     "the files have different system resources");
            MC_CHECK("C12", tu(t).null() == um::null_memory_resource(),
                     "the files have different null resources");
            MC_CHECK("C12", tu(t).at_start == um::system_memory_resource(),
                     "the default resource did not start as the system resource");
        }
        for (int k = 0; k < kObjs; ++k)
        {
            if (form[k] < 0) continue;
            const Form& f = tu_a().forms[form[k]];
            const uintptr_t p = (uintptr_t)f.probe(st[k]);
            const Who got = p == 0                               ? null_
                            : p == kOs                           ? system_
                            : p >= kX && p < kX + (1ull << 40)   ? x_
                            : p >= kY && p < kY + (1ull << 40)   ? y_
                                                                 : whos;
            Who want = upstream[k];
            if (want == none_) want = null_;
            MC_CHECK("C12", got == want,
                     "%s was made when %s was to be used, its requests are "
                     "served by %s (%#lx)",
                     f.name, who_name[upstream[k]],
                     got == whos ? "something else" : who_name[got], (long)p);
        }
        x->release();
        y->release();
        // identity
        std::vector<const um::memory_resource*> v = {
            um::system_memory_resource(), um::null_memory_resource(), x, y};
        for (int k = 0; k < kObjs; ++k)
            if (form[k] >= 0)
                if (auto* r = tu_a().forms[form[k]].as_resource(st[k]))
                    v.push_back(r);
        for (auto* p: v)
            for (auto* q: v)
                for (int t = 0; t < 2; ++t)
                {
                    MC_CHECK("C12",
                             tu(t).eq(*p, *q) == (p == q) &&
                                 tu(t).ne(*p, *q) == (p != q) &&
                                 tu(t).is_equal(*p, *q) == (p == q),
                             "comparison of resources %p and %p", (void*)p,
                             (void*)q);
                }
        mc::count("identity_comparisons", 2 * v.size() * v.size());
    }

    Step apply(int i, bool check)
    {
        const Op& o = ops[i];
        const Tu& t = tu(o.tu);
        switch (o.kind)
        {
            case Kind::set:
            {
                um::memory_resource* old = t.set(res((Who)o.a));
                if (check)
                    MC_CHECK("C12", old == res(dflt),
                             "set_default_resource returned %p, the previous "
                             "one was %s",
                             (void*)old, who_name[dflt]);
                dflt = (Who)o.a;
                break;
            }
            case Kind::make:
            {
                const int k = form[0] < 0 ? 0 : 1;
                const Who w = o.b < 0 ? dflt : (Who)o.b;
                t.forms[o.a].make(st[k], o.b < 0 ? nullptr : res(w));
                form[k] = o.a;
                upstream[k] = w;
                break;
            }
            case Kind::drop:
                t.forms[form[o.a]].destroy(st[o.a]);
                form[o.a] = -1;
                break;
        }
        if (check) observe();
        return Step::next;
    }
    void model_key(std::string& k) const
    {
        mc::put(k, dflt);
        for (int i = 0; i < kObjs; ++i)
        {
            mc::put(k, form[i]);
            mc::put(k, form[i] < 0 ? whos : upstream[i]);
        }
    }
    void impl_key(std::string&) const {}
};

void histories(std::vector<int> defaults, bool all_forms)
{
    ops.clear();
    for (int t = 0; t < 2; ++t)
    {
        for (int w: defaults) ops.push_back({Kind::set, t, w});
        for (int f = 0; f < tu_a().nforms; ++f)
            if (!tu_a().forms[f].takes_upstream)
                ops.push_back({Kind::make, t, f, -1});
            else if (all_forms)
                for (int w = 0; w < whos; ++w)
                    ops.push_back({Kind::make, t, f, w});
        for (int k = 0; k < kObjs; ++k) ops.push_back({Kind::drop, t, k});
    }
    mc::explore<Sys>();
}

void start()
{
    // the very first reads of the program, before anything was set
    mc::S().current = [] { return std::string("first reads"); };
    for (int t = 0; t < 2; ++t)
    {
        const Tu& u = t ? tu_b() : tu_a();
        MC_CHECK("C12", u.get() == u.system() && u.at_start == u.system(),
                 "the default resource does not start as the system resource");
        MC_CHECK("C12", u.set(nullptr) == tu_a().system(),
                 "the first set does not return the system resource");
        u.set(tu_a().system());
    }
    MC_CHECK("C12", tu_a().system() != tu_a().null(), "system == null");
    mc::count("states");
    mc::count("transitions", 4);
    mc::count("traces", 4);
}

// a second object with the state of the first would hand out the same memory
template <class R>
void one_of_its_kind(const char* name)
{
    const struct
    {
        const char* what;
        bool got;
    } q[] = {
        {"constructed from an lvalue", std::is_constructible_v<R, R&>},
        {"constructed from a constant", std::is_constructible_v<R, const R&>},
        {"constructed from a temporary", std::is_constructible_v<R, R>},
        {"constructed from a constant temporary", std::is_constructible_v<R, const R>},
        {"assigned from an lvalue", std::is_assignable_v<R&, R&>},
        {"assigned from a constant", std::is_assignable_v<R&, const R&>},
        {"assigned from a temporary", std::is_assignable_v<R&, R>},
        {"assigned from a constant temporary", std::is_assignable_v<R&, const R>},
        {"assigned as a temporary", std::is_assignable_v<R, R>},
        {"swapped", std::is_swappable_v<R>},
        {"constructed from nothing", std::is_default_constructible_v<R>},
    };
    for (auto& x: q)
    {
        mc::S().current = [=] { return fmt("%s %s", name, x.what); };
        MC_CHECK("C12", !x.got, "is possible, so two resources share their blocks");
        mc::count("states");
        mc::count("transitions");
        mc::count("traces");
    }
}
void copies()
{
    one_of_its_kind<um::monotonic_buffer_resource>("monotonic buffer");
    one_of_its_kind<um::simple_resource<2, 1>>("resource of 2 blocks");
    one_of_its_kind<um::simple_resource<16, 16>>("resource of 16 blocks");
    one_of_its_kind<um::simple_resource<257, 64>>("resource of 257 blocks");
    one_of_its_kind<um::simple_resource<65536, 4096>>("resource of 65536 blocks");
}

void reg()
{
    mc::add("start", start);
    mc::add("copies", copies);
    mc::add("defaults", [] { histories({system_, null_, none_, x_, y_}, false); });
    mc::add("explicit", [] { histories({system_, x_}, true); }, 0);
    mc::add("everything", [] { histories({system_, null_, none_, x_, y_}, true); },
            1);
}
}  // namespace
MC_MAIN(reg)
