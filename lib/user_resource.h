#ifndef VERIF_USER_RESOURCE_H
#define VERIF_USER_RESOURCE_H
// A user-defined resource, written the way the library's own ones are.
#include <cstddef>
#include <cstdint>

#include <utils/memory/memory.h>

struct UserResource : utils::memory::memory_resource
{
    int allocs = 0, frees = 0;
    std::size_t size = 0, align = 0;
    void* freed = nullptr;
    void* answer = nullptr;  // what the next allocation yields
    int id = 0;              // resources with the same id compare equal

    explicit UserResource(int aId = 0)
        : memory_resource(&UserResource::allocate<UserResource>,
                          &UserResource::deallocate<UserResource>)
        , id(aId)
    {
    }
    void reset() { allocs = frees = 0, size = align = 0, freed = nullptr; }

    bool is_equal(const memory_resource& o) const noexcept override
    {
        auto* u = dynamic_cast<const UserResource*>(&o);
        return &o == this || (u && id && u->id == id);
    }

   private:
    friend class utils::memory::memory_resource;
    void* allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++allocs;
        size = s;
        align = a;
        return answer;
    }
    void deallocate_impl(void* p) noexcept
    {
        ++frees;
        freed = p;
    }
};
#endif
