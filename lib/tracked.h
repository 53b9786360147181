// An element type whose objects know whether they are alive.
#pragma once
#include "plain_alloc.h"
#include <cstdint>
#include <new>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <ostream>

struct LifetimeError
{
    std::string msg;
};

// The registry of the live objects of the current case.
struct Lives
{
    std::unordered_set<const void*, std::hash<const void*>, std::equal_to<const void*>, PlainAlloc<const void*>> live;
    uint64_t constructed = 0, destroyed = 0, copies = 0, moves = 0;
    // > 0: the n-th copy or value construction from now throws.
    int64_t throw_in = 0;
    // Errors inside destructors cannot be thrown.
    std::string error;

    void reset() { *this = Lives{}; }

    static Lives& get()
    {
        static Lives l;
        return l;
    }
};

struct InjectedError : std::runtime_error
{
    InjectedError() : std::runtime_error("injected") {}
};

struct Tracked
{
    static constexpr int64_t moved_from = INT64_MIN;

    int64_t value = 0;
    std::string payload; // makes a leak or a double destruction visible to the sanitizer, too

    Tracked() { born(); }
    explicit Tracked(int64_t v) : value(v) { tick(); payload = make(v); born(); }
    Tracked(int64_t a, int64_t b) : Tracked(a * 1000 + b) {}
    Tracked(const Tracked& o)
    {
        o.check("copied");
        tick();
        value = o.value;
        payload = o.payload;
        ++Lives::get().copies;
        born();
    }
    Tracked(Tracked&& o) noexcept
    {
        o.note("moved");
        value = o.value;
        payload = std::move(o.payload);
        o.value = moved_from;
        o.payload.clear();
        ++Lives::get().moves;
        born();
    }
    Tracked& operator=(const Tracked& o)
    {
        check("assigned to");
        o.check("copy-assigned");
        tick();
        value = o.value;
        payload = o.payload;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        note("assigned to");
        o.note("move-assigned");
        if (this != &o)
        {
            value = o.value;
            payload = std::move(o.payload);
            o.value = moved_from;
            o.payload.clear();
        }
        return *this;
    }
    ~Tracked()
    {
        Lives& l = Lives::get();
        if (l.live.erase(this) == 0)
        {
            if (l.error.empty()) l.error = "an object was destroyed twice or never constructed";
        }
        ++l.destroyed;
        value = -777;
    }

    bool alive() const { return Lives::get().live.count(this) != 0; }

    void check(const char* what) const
    {
        if (!alive()) throw LifetimeError{ std::string("a dead object is ") + what };
    }

    void note(const char* what) const
    {
        if (!alive() && Lives::get().error.empty()) Lives::get().error = std::string("a dead object is ") + what;
    }

    static std::string make(int64_t v) { return "a long enough payload that lives on the heap #" + std::to_string(v); }

    bool intact() const { return alive() && (value == moved_from || value == 0 || payload == make(value)); }

    static void tick()
    {
        Lives& l = Lives::get();
        if (l.throw_in > 0 && --l.throw_in == 0) throw InjectedError();
    }

    bool operator==(const Tracked& o) const { check("compared"); o.check("compared"); return value == o.value; }
    bool operator<(const Tracked& o) const { check("compared"); o.check("compared"); return value < o.value; }

private:

    void born()
    {
        Lives& l = Lives::get();
        ++l.constructed;
        if (!l.live.insert(this).second && l.error.empty()) l.error = "an object was constructed over a live one";
    }
};

inline std::ostream& operator<<(std::ostream& out, const Tracked& t) { return out << t.value; }

// An allocator with identity: checks that every block is returned to the arena it came from, once, with its size.
struct Arena
{
    int id = 0;
    std::unordered_map<void*, size_t> blocks;
    std::string error;
    // Allocations fail.
    bool fail = false;
};

template <class T, bool Propagates = false>
struct ArenaAllocator
{
    using value_type = T;
    using propagate_on_container_move_assignment = std::bool_constant<Propagates>;
    template <class U>
    struct rebind { using other = ArenaAllocator<U, Propagates>; };
    Arena* arena;

    ArenaAllocator() : arena(nullptr) {} // of no use
    explicit ArenaAllocator(Arena* a) : arena(a) {}
    template <class U>
    ArenaAllocator(const ArenaAllocator<U, Propagates>& o) : arena(o.arena) {}

    T* allocate(size_t n)
    {
        if (arena->fail) throw std::bad_alloc();
        void* p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T)));
        arena->blocks[p] = n * sizeof(T);
        return static_cast<T*>(p);
    }
    void deallocate(T* p, size_t n)
    {
        auto i = arena->blocks.find(p);
        if (i == arena->blocks.end())
        {
            if (arena->error.empty()) arena->error = "a block was returned to a foreign allocator or twice";
            return;
        }
        if (i->second != n * sizeof(T) && arena->error.empty()) arena->error = "a block was returned with a wrong size";
        arena->blocks.erase(i);
        ::operator delete(p, std::align_val_t(alignof(T)));
    }
    bool operator==(const ArenaAllocator& o) const { return arena == o.arena; }
};
