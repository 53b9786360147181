// Counts the blocks of memory that were allocated within a scope and not freed yet. Defines operator new and delete,
// so it belongs into one translation unit of a program. For one thread: elsewhere nothing is counted.
#pragma once
#include "plain_alloc.h"
#include <new>
#include <unordered_set>

namespace heap
{
    using Blocks = std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, PlainAlloc<void*>>;

    inline thread_local bool on = false;
    inline thread_local Blocks* live = nullptr;

    // Within On allocations are counted, within Off (of the check itself) they are not.
    struct On { bool was = on; On() { on = true; } ~On() { on = was; } };
    struct Off { bool was = on; Off() { on = false; } ~Off() { on = was; } };

    inline size_t count() { return live ? live->size() : 0; }
    inline void reset() { if (live) live->clear(); }
    inline void add(void* p)
    {
        if (!live) live = new (std::malloc(sizeof(Blocks))) Blocks;
        live->insert(p);
    }
}

void* operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (heap::on) heap::add(p);
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && heap::live) heap::live->erase(p); std::free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
