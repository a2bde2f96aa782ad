// C11: system and null resources under an operating system allocator that
// answers in every possible way.
#include <new>
#include <set>
#include <string>
#include <vector>

#include <mc.h>
#include <sysops/memory_ops.h>
#include <utils/memory/memory.h>

using std::size_t;
using std::uintptr_t;
namespace um = utils::memory;
using mc::fmt;
using mc::Step;

namespace
{
constexpr size_t MX = ~size_t{0};
constexpr uintptr_t kGarbage = 0xdeadbeefcafe1230ull;
constexpr uintptr_t kBlock[3] = {0x5000000000000000ull, 0x5100000000000000ull,
                                 0x5200000000000000ull};

enum Answer
{
    ok,
    fail_keep,     // ENOMEM, *out untouched
    fail_garbage,  // ENOMEM, *out overwritten
    fail_inval,    // EINVAL, *out overwritten
    fail_negative,
    fail_one,
    answers
};
const char* answer_name[] = {"ok", "ENOMEM", "ENOMEM+garbage", "EINVAL+garbage",
                             "error -1", "error 1"};

struct Os
{
    Answer answer = ok;
    bool used[3] = {};
    int allocs = 0, frees = 0;
    size_t size = 0, align = 0;
    uintptr_t freed = 0, result = 0;
} os;

int os_memalign(void** out, size_t align, size_t size)
{
    ++os.allocs;
    os.size = size;
    os.align = align;
    os.result = 0;
    const auto garbage = [&] { *out = reinterpret_cast<void*>(kGarbage); };
    switch (os.answer)
    {
        case ok:
            for (int i = 0; i < 3; ++i)
                if (!os.used[i])
                {
                    os.used[i] = true;
                    os.result = kBlock[i];
                    *out = reinterpret_cast<void*>(kBlock[i]);
                    return 0;
                }
            garbage();
            return 12;
        case fail_keep: return 12;
        case fail_garbage: garbage(); return 12;
        case fail_inval: garbage(); return 22;
        case fail_negative: garbage(); return -1;
        case fail_one: garbage(); return 1;
        default: break;
    }
    return 12;
}
void os_free(void* p)
{
    ++os.frees;
    os.freed = reinterpret_cast<uintptr_t>(p);
    for (int i = 0; i < 3; ++i)
        if (kBlock[i] == os.freed) os.used[i] = false;
}

struct alignas(64) Big
{
    char c[192];
};
struct Odd
{
    char c[13];
};

enum class How
{
    resource,   // system_memory_resource()->allocate(size, align)
    base_dflt,  // ->allocate(size)
    typed,      // ->allocate<T>()
    function,   // aligned_malloc
    null_res    // null_memory_resource()->allocate
};
enum class Kind
{
    alloc,
    dealloc,       // live block, through the resource
    dealloc_fn,    // live block, aligned_free
    dealloc_null,  // null through the resource: one free(null), or none
    null_dealloc   // anything given to the null resource
};
struct Op
{
    Kind kind;
    How how = How::resource;
    size_t a = 0, b = 0;
    int answer = ok;
};
std::vector<Op> ops;

struct Sys
{
    std::vector<uintptr_t> live;
    int last = -1;

    Sys() { os = Os{}; }
    void discard() {}
    static int nops() { return (int)ops.size(); }
    static std::string op_name(int i)
    {
        const Op& o = ops[i];
        static const char* h[] = {"system.allocate", "system.allocate(default)",
                                  "system.allocate<T>", "aligned_malloc",
                                  "null.allocate"};
        switch (o.kind)
        {
            case Kind::alloc:
                return fmt("%s(%zu,%zu) os:%s", h[(int)o.how], o.a, o.b,
                           answer_name[o.answer]);
            case Kind::dealloc: return fmt("system.deallocate(#%zu)", o.a);
            case Kind::dealloc_fn: return fmt("aligned_free(#%zu)", o.a);
            case Kind::dealloc_null: return "system.deallocate(null)";
            case Kind::null_dealloc: return fmt("null.deallocate(%zu)", o.a);
        }
        return "?";
    }
    bool enabled(int i) const
    {
        const Op& o = ops[i];
        if (o.kind == Kind::dealloc || o.kind == Kind::dealloc_fn)
            return o.a < live.size();
        return true;
    }
    Step apply(int i, bool check)
    {
        const Op& o = ops[i];
        last = i;
        os.answer = (Answer)o.answer;
        os.allocs = os.frees = 0;
        um::memory_resource* s = um::system_memory_resource();
        um::memory_resource* z = um::null_memory_resource();
        switch (o.kind)
        {
            case Kind::alloc:
            {
                void* res = nullptr;
                size_t size = o.a, align = o.b;
                switch (o.how)
                {
                    case How::resource: res = s->allocate(size, align); break;
                    case How::base_dflt:
                        align = alignof(std::max_align_t);
                        res = s->allocate(size);
                        break;
                    case How::typed:
                        if (size == 0)
                        {
                            size = sizeof(Big), align = alignof(Big);
                            res = s->allocate<Big>();
                        }
                        else
                        {
                            size = sizeof(Odd), align = alignof(Odd);
                            res = s->allocate<Odd>();
                        }
                        break;
                    case How::function:
                        res = um::aligned_malloc(size, align);
                        break;
                    case How::null_res:
                        res = z->allocate(size, align);
                        MC_CHECK("C11", !res && !os.allocs && !os.frees,
                                 "the null resource gave %p / called the system "
                                 "%d times",
                                 res, os.allocs);
                        return Step::next;
                }
                if (check)
                {
                    MC_CHECK("C11", os.allocs == 1 && !os.frees,
                             "the system was asked %d times", os.allocs);
                    MC_CHECK("C11", os.size == size,
                             "%zu bytes requested, %zu asked from the system",
                             size, os.size);
                    MC_CHECK("C11",
                             os.align >= align && os.align % sizeof(void*) == 0 &&
                                 !(os.align & (os.align - 1)) && os.align,
                             "alignment %zu requested, %zu asked", align, os.align);
                    MC_CHECK("C11", reinterpret_cast<uintptr_t>(res) == os.result,
                             "the system's answer was %#lx, the result is %p",
                             (long)os.result, res);
                }
                if (os.result) live.push_back(os.result);
                return Step::next;
            }
            case Kind::dealloc:
            case Kind::dealloc_fn:
            {
                const uintptr_t p = live[o.a];
                if (o.kind == Kind::dealloc)
                    s->deallocate(reinterpret_cast<void*>(p));
                else
                    um::aligned_free(reinterpret_cast<void*>(p));
                if (check)
                    MC_CHECK("C11", os.frees == 1 && os.freed == p && !os.allocs,
                             "block %#lx: freed %d times, last %#lx", (long)p,
                             os.frees, (long)os.freed);
                live.erase(live.begin() + (long)o.a);
                return Step::next;
            }
            case Kind::dealloc_null:
                s->deallocate(nullptr);
                MC_CHECK("C11",
                         !os.allocs && (!os.frees || (os.frees == 1 && !os.freed)),
                         "deallocate(null) freed %#lx", (long)os.freed);
                return Step::next;
            case Kind::null_dealloc:
                z->deallocate(reinterpret_cast<void*>(o.a));
                MC_CHECK("C11", !os.allocs && !os.frees,
                         "the null resource called the system");
                return Step::next;
        }
        return Step::end;
    }
    // the previous call is part of the state: what it left on the stack must
    // not show in the next one
    void model_key(std::string& k) const
    {
        for (auto p: live) mc::put(k, p);
        mc::put(k, last);
    }
    void impl_key(std::string&) const {}
};

void run(std::vector<size_t> sizes, std::vector<size_t> aligns)
{
    sysops::memory::ops::current_hooks() = {os_memalign, os_free};
    ops.clear();
    auto add = [&](How h, size_t s, size_t a)
    {
        for (int w = 0; w < answers; ++w)
            ops.push_back({Kind::alloc, h, s, a, w});
    };
    for (size_t s: sizes)
        for (size_t a: aligns)
        {
            add(How::resource, s, a);
            add(How::function, s, a);
            ops.push_back({Kind::alloc, How::null_res, s, a, ok});
        }
    for (size_t s: sizes) add(How::base_dflt, s, 0);
    add(How::typed, 0, 0);
    add(How::typed, 1, 0);
    for (size_t k = 0; k < 3; ++k)
    {
        ops.push_back({Kind::dealloc, How::resource, k});
        ops.push_back({Kind::dealloc_fn, How::resource, k});
    }
    ops.push_back({Kind::dealloc_null});
    for (size_t p: {size_t{0}, size_t{1}, (size_t)kBlock[0], MX})
        ops.push_back({Kind::null_dealloc, How::null_res, p});
    mc::explore<Sys>(1 << 20, 60000);
}

void real_system()
{
    // the seam passes through to the real allocator here
    sysops::memory::ops::current_hooks() = {nullptr, nullptr};
    mc::S().current = [] { return std::string("real allocator"); };
    auto* s = um::system_memory_resource();
    for (size_t a = 1; a <= (1u << 16); a <<= 1)
        for (size_t n: {0, 1, 7, 8, 63, 64, 65, 4095, 4097})
        {
            mc::beat();
            mc::count("states");
            mc::count("transitions");
            mc::count("traces");
            void* p = s->allocate(n, a);
            void* q = s->allocate(n, a);
            if (n)
            {
                MC_CHECK("C11", p && q && p != q, "no block of %zu/%zu", n, a);
                MC_CHECK("C11",
                         (uintptr_t)p % a == 0 && (uintptr_t)q % a == 0,
                         "block %p is not aligned to %zu", p, a);
                memset(p, 1, n);
                memset(q, 2, n);
            }
            s->deallocate(q);
            s->deallocate(p);
        }
    for (size_t n: {MX, MX - 4096, size_t{1} << 62})
        MC_CHECK("C11", !s->allocate(n, 16), "%zu bytes were served", n);
}

void reg()
{
    std::vector<size_t> all;
    for (int i = 0; i < 64; ++i) all.push_back(size_t{1} << i);
    mc::add("alignments", [=] { run({0, 24}, all); }, 1);
    mc::add("pairs", []
            { run({0, 1, 4097, MX}, {1, 4, 8, 16, 4096, size_t{1} << 63}); });
    mc::add("one_size_all_alignments", [=] { run({40}, all); });
    mc::add("real", real_system);
}
}  // namespace
MC_MAIN(reg)
