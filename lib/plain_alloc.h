// Memory for the books of a check, which is not seen by a counting operator new.
#pragma once
#include <cstddef>
#include <cstdlib>

template <class T>
struct PlainAlloc
{
    using value_type = T;
    PlainAlloc() = default;
    template <class U> PlainAlloc(const PlainAlloc<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { std::free(p); }
    bool operator==(const PlainAlloc&) const { return true; }
};
