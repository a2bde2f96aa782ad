// Thread bodies, compiled with -fsanitize=thread: every access of the code
// under test reaches the runtime in conc.cpp.
#include "conc.h"

#include <cstddef>
#include <cstdint>
#include <new>

#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

namespace um = utils::memory;

namespace
{
// a published object: everything the constructor wrote has to be visible
struct Published : um::memory_resource
{
    std::uintptr_t payload[4];
    explicit Published(std::uintptr_t seed)
        : memory_resource(&Published::allocate<Published>,
                          &Published::deallocate<Published>)
    {
        for (std::uintptr_t i = 0; i < 4; ++i) payload[i] = seed + i;
    }
    bool is_equal(const memory_resource& o) const noexcept override
    {
        return this == &o;
    }
    bool intact() const
    {
        for (std::uintptr_t i = 1; i < 4; ++i)
            if (payload[i] != payload[0] + i) return false;
        return payload[0] != 0;
    }

   private:
    friend class um::memory_resource;
    void* allocate_impl(std::size_t, std::size_t) noexcept
    {
        return reinterpret_cast<void*>(payload[0]);
    }
    void deallocate_impl(void*) noexcept {}
};
constexpr int kMax = 12;
alignas(64) unsigned char g_store[kMax][sizeof(Published)];
Published* make(int i) { return new (g_store[i]) Published(4096u * (i + 1)); }
bool is_published(const void* p)
{
    for (auto& s: g_store)
        if (p == s) return true;
    return false;
}

const void* set(um::memory_resource* r)
{
    conc_begin(op_set, r);
    um::memory_resource* old = um::set_default_resource(r);
    conc_end(old);
    return old;
}
um::memory_resource* get()
{
    conc_begin(op_get, nullptr);
    um::memory_resource* r = um::get_default_resource();
    conc_end(r);
    return r;
}
um::memory_resource* sys()
{
    conc_begin(op_system, nullptr);
    um::memory_resource* r = um::system_memory_resource();
    conc_end(r);
    return r;
}
um::memory_resource* nul()
{
    conc_begin(op_null, nullptr);
    um::memory_resource* r = um::null_memory_resource();
    conc_end(r);
    return r;
}
void use(um::memory_resource* r)
{
    if (!r || !is_published(r)) return;
    conc_require(static_cast<Published*>(r)->intact(),
                 "a published resource is seen half constructed");
    conc_require(r->allocate(1) ==
                     reinterpret_cast<void*>(static_cast<Published*>(r)->payload[0]),
                 "a published resource gives a wrong answer");
    conc_require(*r == *r, "a published resource is not equal to itself");
}
void set_new(int i) { set(make(i)); }
void set_use(int i)
{
    // what a set returns was published by somebody as well
    auto* old = static_cast<um::memory_resource*>(const_cast<void*>(set(make(i))));
    use(old);
}
void get_use() { use(get()); }
void none() {}
void check_null()
{
    um::memory_resource* n = nul();
    conc_require(n && n->allocate(8, 8) == nullptr,
                 "the null resource serves a request");
    n->deallocate(n);
    conc_require(*n == *n && !(*n != *n), "the null resource is not itself");
}
void check_sys()
{
    um::memory_resource* s = sys();
    void* p = s->allocate(16, 16);
    conc_require(p != nullptr, "the system resource does not serve");
    s->deallocate(p);
}
// the default resource is read by constructors as well
void by_monotonic()
{
    conc_begin(op_get, nullptr);
    um::monotonic_buffer_resource m(nullptr, 0);
    void* p = m.allocate(1);
    // the published resource that answered, if any
    const void* who = nullptr;
    for (auto& s: g_store)
        if (reinterpret_cast<std::uintptr_t>(p) ==
            4096u * ((&s - g_store) + 1))
            who = s;
    // only the null resource does not answer
    if (!p) who = um::null_memory_resource();
    conc_end(who ? who : conc_initial());
    if (!who && p) m.deallocate(p);
}
void by_allocator()
{
    conc_begin(op_get, nullptr);
    um::allocator<int> a;
    conc_end(a.resource());
    use(a.resource());
}
void by_simple()
{
    conc_begin(op_get, nullptr);
    um::simple_resource<4, 8> s(nullptr, 0);
    void* p = s.allocate(1, 8);
    const void* who = nullptr;
    for (auto& st: g_store)
        if (reinterpret_cast<std::uintptr_t>(p) ==
            4096u * ((&st - g_store) + 1))
            who = st;
    if (!p) who = um::null_memory_resource();
    conc_end(who ? who : conc_initial());
}

const Program g_programs[] = {
    {"two_sets", 2, none, {[] { set_new(0); set_new(1); }, [] { set_new(2); set_use(3); }},
     none, 0},
    {"three_sets", 3, none,
     {[] { set_use(0); }, [] { set_use(1); }, [] { set_use(2); }}, none, 0},
    {"sets_and_gets", 3, none,
     {[] { set_new(0); get_use(); }, [] { set_use(1); get_use(); },
      [] { get_use(); get_use(); }}, none, 0},
    {"publish", 3, none,
     {[] { set_new(0); }, [] { get_use(); get_use(); },
      [] { set_use(1); get_use(); }}, none, 0},
    {"publish_chain", 4, none,
     {[] { set_new(0); }, [] { get_use(); set_use(1); }, [] { get_use(); },
      [] { set_use(2); }}, none, 0},
    {"first_null", 3, none, {check_null, check_null, check_null}, none, 0},
    {"first_null_and_system", 3, none,
     {[] { check_null(); check_sys(); }, [] { check_sys(); check_null(); },
      [] { get_use(); check_null(); }}, none, 0},
    {"set_null", 3, none,
     {[] { set(nul()); get(); }, [] { set(nul()); }, [] { set(sys()); }},
     none, 0},
    {"constructors", 3, none,
     {[] { set_new(0); }, by_monotonic, [] { set_new(1); by_allocator(); }}, none, 0},
    {"constructors_simple", 3, none,
     {[] { set_new(0); set_new(2); }, by_simple, by_allocator}, none, 0},
    {"swap_values", 2, none,
     {[] { set(nullptr); set_new(0); get_use(); },
      [] { set_new(1); set(nullptr); get_use(); }}, none, 0},
    {"same_value", 3, none,
     {[] { set(sys()); }, [] { set_new(0); set(sys()); }, [] { get(); get(); }},
     none, 0},
    {"fresh_system", 3, none, {check_sys, check_sys, check_sys}, none, 0, true},
    {"fresh_get", 2, none, {get_use, get_use}, none, 0, true},
    {"fresh_get_system", 2, none, {check_sys, get_use}, none, 0, true},
    {"fresh_set", 2, none, {[] { set_use(0); }, get_use}, none, 0, true},
    {"fresh_sets", 2, none, {[] { set_use(0); }, [] { set_use(1); }}, none, 0, true},
    {"fresh_constructors", 2, none, {by_monotonic, by_allocator}, none, 0, true},
    {"fresh_constructor_set", 2, none, {by_simple, [] { set_use(0); }}, none, 0, true},
    {"fresh_get_3", 3, none, {get_use, get_use, [] { sys(); }}, none, 0, true, 2},
    {"fresh_set_3", 3, none, {[] { set_use(0); }, [] { set_use(1); }, get_use}, none, 0, true, 2},
    {"fresh_mixed", 3, none,
     {[] { sys(); get(); }, [] { nul(); set_use(0); }, [] { get_use(); }}, none, 0, true, 2},
    {"fresh_constructors_set", 3, none,
     {[] { set_new(0); }, by_monotonic, by_allocator}, none, 0, true, 2},
    {"fresh_four", 4, none, {check_sys, get_use, [] { set_use(0); }, by_allocator}, none, 1, true, 2},
    {"fresh_everything", 3, none,
     {[] { check_sys(); set_use(0); check_null(); }, [] { get_use(); check_null(); check_sys(); },
      [] { by_monotonic(); set_use(1); }}, none, 1, true, 3},
    {"three_by_three", 3, none,
     {[] { set_use(0); get_use(); set_use(3); }, [] { get_use(); set_use(1); get_use(); },
      [] { set_use(2); set_use(4); get_use(); }}, none, 1},
    {"four_by_two", 4, none,
     {[] { set_use(0); get_use(); }, [] { set_use(1); get_use(); },
      [] { set_use(2); get_use(); }, [] { get_use(); set_use(3); }}, none, 1},
    {"everything", 4, none,
     {[] { check_null(); set_use(0); }, [] { set(nul()); get_use(); },
      [] { by_allocator(); set_use(1); }, [] { by_monotonic(); get_use(); }}, none, 1},
    {"three_by_four", 3, none,
     {[] { set_use(0); set_use(1); get_use(); set_use(2); },
      [] { set_use(3); get_use(); set_use(4); set_use(5); },
      [] { get_use(); set_use(6); set_use(7); get_use(); }}, none, 1},
};
}  // namespace
const Program* conc_programs(int& n)
{
    n = (int)(sizeof g_programs / sizeof g_programs[0]);
    return g_programs;
}
// read by the runtime before and after the threads
const void* conc_default() { return um::get_default_resource(); }
const void* conc_system() { return um::system_memory_resource(); }
const void* conc_null() { return um::null_memory_resource(); }
