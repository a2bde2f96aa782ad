#ifndef VERIF_IDENTITY_H
#define VERIF_IDENTITY_H
// The same operations, compiled into two source files.
#include <cstddef>
#include <utils/memory/memory.h>

namespace um = utils::memory;
struct Form
{
    const char* name;
    // constructs at st with the default resource or (given != nullptr) u
    void* (*make)(void* st, um::memory_resource* u);
    // resource that serves what the object cannot serve itself
    void* (*probe)(void* obj);
    void (*destroy)(void* obj);
    um::memory_resource* (*as_resource)(void* obj);  // null for allocators
    bool takes_upstream;
};
struct Tu
{
    um::memory_resource* (*get)();
    um::memory_resource* (*set)(um::memory_resource*);
    um::memory_resource* (*system)();
    um::memory_resource* (*null)();
    bool (*eq)(const um::memory_resource&, const um::memory_resource&);
    bool (*ne)(const um::memory_resource&, const um::memory_resource&);
    bool (*is_equal)(const um::memory_resource&, const um::memory_resource&);
    const Form* forms;
    int nforms;
    um::memory_resource* at_start;  // default resource during static init
};
const Tu& tu_a();
const Tu& tu_b();
#endif
