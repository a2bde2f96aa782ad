// Stand-in for the sysops dependency of the library (not available here).
// The operating system allocator is a seam: a harness decides every answer.
#ifndef VERIF_SYSOPS_MEMORY_OPS_H
#define VERIF_SYSOPS_MEMORY_OPS_H

#include <stdlib.h>

namespace sysops
{
namespace memory
{
namespace ops
{
struct hooks
{
    int (*memalign)(void** aOut, decltype(sizeof(0)) aAlignment,
                    decltype(sizeof(0)) aSize);
    void (*free)(void* aPtr);
};
inline hooks& current_hooks() noexcept
{
    static hooks h{nullptr, nullptr};
    return h;
}
inline int posix_memalign(void** aOut, decltype(sizeof(0)) aAlignment,
                          decltype(sizeof(0)) aSize) noexcept
{
    auto& h = current_hooks();
    return h.memalign ? h.memalign(aOut, aAlignment, aSize)
                      : ::posix_memalign(aOut, aAlignment, aSize);
}
inline void free(void* aPtr) noexcept
{
    auto& h = current_hooks();
    if (h.free)
    {
        h.free(aPtr);
    }
    else
    {
        ::free(aPtr);
    }
}
}  // namespace ops
}  // namespace memory
}  // namespace sysops

#endif
