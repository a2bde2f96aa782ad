#ifndef VERIF_UPSTREAM_H
#define VERIF_UPSTREAM_H
// The bottom of every resource stack: the system resource on top of a fake,
// recording operating system allocator whose addresses are never dereferenced.
#include <cstddef>
#include <cstdint>

#include <sysops/memory_ops.h>

namespace
{
constexpr std::size_t kSlots = 2;
constexpr std::uintptr_t kSlotDist = std::uintptr_t{1} << 40;
struct Upstream
{
    std::uintptr_t base = std::uintptr_t{0x6000} << 32;
    bool used[kSlots] = {};
    bool answer_ok = true;
    int allocs = 0, frees = 0;
    std::size_t size = 0, align = 0;
    std::uintptr_t result = 0, freed = 0;
} up;
std::size_t up_limit = ~std::size_t{0};  // larger requests are refused

int up_memalign(void** out, std::size_t align, std::size_t size)
{
    ++up.allocs;
    up.size = size;
    up.align = align;
    up.result = 0;
    if (!up.answer_ok || size > up_limit || align > kSlotDist || align == 0 ||
        (align & (align - 1)))
        return 12;
    for (std::size_t i = 0; i < kSlots; ++i)
        if (!up.used[i])
        {
            up.used[i] = true;
            up.result = up.base + i * kSlotDist;
            *out = reinterpret_cast<void*>(up.result);
            return 0;
        }
    return 12;
}
void up_free(void* p)
{
    ++up.frees;
    up.freed = reinterpret_cast<std::uintptr_t>(p);
    for (std::size_t i = 0; i < kSlots; ++i)
        if (up.base + i * kSlotDist == up.freed) up.used[i] = false;
}
}  // namespace
#endif
