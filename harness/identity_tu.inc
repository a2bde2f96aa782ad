// included by identity.cpp and identity_b.cpp with TU_FN defined
#include <new>

#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

namespace
{
um::memory_resource* const g_at_start = um::get_default_resource();
constexpr std::size_t kBuf = 8;
std::byte* const kFake = reinterpret_cast<std::byte*>(0x100000000000ull);
// arrays of the right size that are never touched
using Arr = std::byte[64];
Arr& fake_arr() { return *reinterpret_cast<Arr*>(0x100000000000ull); }

using M = um::monotonic_buffer_resource;
using S = um::simple_resource<4, 16>;

template <class T>
void* probe_res(void* o)
{
    return static_cast<T*>(o)->allocate(4096, 16);
}
template <class T>
void destroy_t(void* o)
{
    static_cast<T*>(o)->~T();
}
template <class T>
um::memory_resource* as_res(void* o)
{
    return static_cast<T*>(o);
}
template <class A>
void* probe_alloc(void* o)
{
    return static_cast<A*>(o)->allocate_bytes(4096, 16);
}
um::memory_resource* not_res(void*) { return nullptr; }
using AI = um::allocator<int>;
using AD = um::allocator<double>;

const Form g_forms[] = {
    {"monotonic(ptr,n)",
     [](void* st, um::memory_resource*) -> void* { return new (st) M(kFake, 64); },
     probe_res<M>, destroy_t<M>, as_res<M>, false},
    {"monotonic(array)",
     [](void* st, um::memory_resource*) -> void*
     { return new (st) M(fake_arr()); },
     probe_res<M>, destroy_t<M>, as_res<M>, false},
    {"simple(ptr,n)",
     [](void* st, um::memory_resource*) -> void* { return new (st) S(kFake, 64); },
     probe_res<S>, destroy_t<S>, as_res<S>, false},
    {"simple(array)",
     [](void* st, um::memory_resource*) -> void*
     { return new (st) S(fake_arr()); },
     probe_res<S>, destroy_t<S>, as_res<S>, false},
    {"allocator<int>()",
     [](void* st, um::memory_resource*) -> void* { return new (st) AI(); },
     probe_alloc<AI>, destroy_t<AI>, not_res, false},
    {"allocator<double>(allocator<int>())",
     [](void* st, um::memory_resource*) -> void*
     {
         AI a;
         return new (st) AD(a);
     },
     probe_alloc<AD>, destroy_t<AD>, not_res, false},
    {"monotonic(ptr,n,up)",
     [](void* st, um::memory_resource* u) -> void*
     { return new (st) M(kFake, 64, u); },
     probe_res<M>, destroy_t<M>, as_res<M>, true},
    {"monotonic(array,up)",
     [](void* st, um::memory_resource* u) -> void*
     { return new (st) M(fake_arr(), u); },
     probe_res<M>, destroy_t<M>, as_res<M>, true},
    {"simple(ptr,n,up)",
     [](void* st, um::memory_resource* u) -> void*
     { return new (st) S(kFake, 64, u); },
     probe_res<S>, destroy_t<S>, as_res<S>, true},
    {"simple(array,up)",
     [](void* st, um::memory_resource* u) -> void*
     { return new (st) S(fake_arr(), u); },
     probe_res<S>, destroy_t<S>, as_res<S>, true},
    {"allocator<int>(res)",
     [](void* st, um::memory_resource* u) -> void* { return new (st) AI(u); },
     probe_alloc<AI>, destroy_t<AI>, not_res, true},
};
const Tu g_tu = {
    [] { return um::get_default_resource(); },
    [](um::memory_resource* r) { return um::set_default_resource(r); },
    [] { return um::system_memory_resource(); },
    [] { return um::null_memory_resource(); },
    [](const um::memory_resource& a, const um::memory_resource& b)
    { return a == b; },
    [](const um::memory_resource& a, const um::memory_resource& b)
    { return a != b; },
    [](const um::memory_resource& a, const um::memory_resource& b)
    { return a.is_equal(b); },
    g_forms, (int)(sizeof g_forms / sizeof g_forms[0]), g_at_start};
}  // namespace
const Tu& TU_FN() { return g_tu; }
