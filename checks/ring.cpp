// P03: ring against a bounded deque.
#include "pbt.h"
#include "tracked.h"
#include "Awl/Ring.h"

#include <algorithm>
#include <deque>
#include <optional>

namespace
{
    struct TrackedTraits
    {
        using T = Tracked;
        static T make(int64_t v) { return Tracked(v); }
        static int64_t get(const T& t) { t.check("read"); return t.value; }
        static bool intact(const T& t) { return t.intact(); }
        static constexpr bool faults = true;
        static constexpr bool propagates = false;
    };

    struct ByteTraits
    {
        using T = uint8_t;
        static T make(int64_t v) { return static_cast<uint8_t>(v); }
        static int64_t get(const T& t) { return t; }
        static bool intact(const T&) { return true; }
        static constexpr bool faults = false;
        static constexpr bool propagates = false;
    };

    // An element without a move constructor: moving it is copying it, and this may throw.
    struct Copied : Tracked
    {
        explicit Copied(int64_t v) : Tracked(v) {}
        Copied(const Copied& o) : Tracked(o) {}
        Copied& operator=(const Copied& o) { Tracked::operator=(o); return *this; }
    };

    // An element whose moves may throw, and which cannot be copied.
    struct Moved : Tracked
    {
        explicit Moved(int64_t v) : Tracked(v) {}
        Moved(Moved&& o) : Tracked(static_cast<Tracked&&>((tick(), o))) {}
        Moved& operator=(Moved&& o) { tick(); Tracked::operator=(static_cast<Tracked&&>(o)); return *this; }
    };

    struct CopiedTraits : TrackedTraits
    {
        static constexpr bool propagates = true;
        using T = Copied;
        static T make(int64_t v) { return Copied(v); }
        static int64_t get(const T& t) { return TrackedTraits::get(t); }
        static bool intact(const T& t) { return t.intact(); }
    };

    struct MovedTraits : TrackedTraits
    {
        using T = Moved;
        static T make(int64_t v) { return Moved(v); }
        static int64_t get(const T& t) { return TrackedTraits::get(t); }
        static bool intact(const T& t) { return t.intact(); }
    };

    template <class Tr>
    struct Machine
    {
        using T = typename Tr::T;
        static constexpr bool copies = std::is_copy_constructible_v<T>;
        static constexpr bool arena_alloc = Tr::faults;
        using Alloc = std::conditional_t<arena_alloc, ArenaAllocator<T, Tr::propagates>, std::allocator<T>>;
        using Ring = awl::ring<T, Alloc>;
        struct Slot
        {
            std::optional<Ring> ring;
            std::deque<int64_t> model;
            size_t cap = 0;
        };

        pbt::Src& s;
        Arena arenas[2];
        std::vector<Slot> slots{ 3 };
        int64_t next = 1;
        uint64_t overwritten = 0, wrapped = 0;

        explicit Machine(pbt::Src& src) : s(src) {}

        Alloc alloc() { if constexpr (arena_alloc) return Alloc(&arenas[s.below(2)]); else return {}; }

        void memory()
        {
            for (auto& a : arenas) if (!a.error.empty()) s.fail(a.error);
            size_t blocks = 0;
            if constexpr (arena_alloc)
            {
                for (auto& x : slots) blocks += x.ring && x.cap != 0;
                PBT_CHECK(arenas[0].blocks.size() + arenas[1].blocks.size() == blocks, arenas[0].blocks.size() + arenas[1].blocks.size(), " blocks of memory are in use by ", blocks, " rings");
            }
        }

        // After a failed operation: the ring is valid and has at most what it may have; the model follows.
        void resync(Slot& x, const char* what)
        {
            Ring& r = *x.ring;
            PBT_CHECK(r.size() <= r.capacity(), what, ": ", r.size(), " elements in a ring of ", r.capacity());
            x.cap = r.capacity();
            x.model.clear();
            for (auto& v : r) { PBT_CHECK(Tr::intact(v), what, ": a damaged element"); x.model.push_back(Tr::get(v)); }
        }

        // Runs f with a construction or an allocation that fails on the way. Returns if it did.
        template <class F>
        bool failing(F f)
        {
            bool thrown = false;
            if (arena_alloc && s.chance(1, 4)) { for (auto& a : arenas) a.fail = true; }
            else Lives::get().throw_in = static_cast<int64_t>(1 + s.below(6));
            try { f(); }
            catch (const InjectedError&) { thrown = true; }
            catch (const std::bad_alloc&) { thrown = true; }
            Lives::get().throw_in = 0;
            for (auto& a : arenas) a.fail = false;
            if (thrown) s.label("failed operation");
            return thrown;
        }

        int64_t fresh() { next = next % 250 + 1; return next; }

        void same(const Slot& x, size_t i, const T& v, const char* how)
        {
            PBT_CHECK(Tr::intact(v), "damaged element ", i);
            PBT_CHECK(Tr::get(v) == x.model[i], how, ": element ", i, " is ", Tr::get(v), " instead of ", x.model[i]);
        }

        void check(Slot& x)
        {
            Ring& r = *x.ring;
            const Ring& c = r;
            const size_t n = x.model.size();
            PBT_CHECK(c.size() == n, "size() is ", c.size(), " instead of ", n);
            PBT_CHECK(c.capacity() == x.cap, "capacity() is ", c.capacity(), " instead of ", x.cap);
            PBT_CHECK(c.empty() == (n == 0), "empty()");
            PBT_CHECK(c.full() == (n == x.cap), "full()");
            for (size_t i = 0; i < n; ++i)
            {
                same(x, i, r[i], "[]");
                same(x, i, c[i], "const []");
                same(x, i, r.at(i), "at");
                same(x, i, c.at(i), "const at");
            }
            if (s.chance(1, 4))
            {
                const size_t bad = s.pick<size_t>({ n, n, n + 1, n + x.cap, ~size_t(0) });
                int thrown = 0;
                try { r.at(bad); } catch (const std::out_of_range&) { ++thrown; }
                try { c.at(bad); } catch (const std::out_of_range&) { ++thrown; }
                PBT_CHECK(thrown == 2, "at(", bad, ") of ", n, " elements did not throw");
            }
            if (n != 0)
            {
                same(x, 0, r.front(), "front");
                same(x, 0, c.front(), "const front");
                same(x, n - 1, r.back(), "back");
                same(x, n - 1, c.back(), "const back");
            }
            size_t i = 0;
            for (auto& v : r) { PBT_CHECK(i < n, "iteration is too long"); same(x, i++, v, "iteration"); }
            PBT_CHECK(i == n, "iteration is too short");
            i = 0;
            for (auto it = c.cbegin(); it != c.cend(); it++) { PBT_CHECK(i < n, "iteration is too long"); same(x, i++, *it, "const iteration"); }
            PBT_CHECK(i == n, "const iteration is too short");
            for (auto it = r.rbegin(); it != r.rend(); ++it) { PBT_CHECK(i > 0, "reverse iteration is too long"); same(x, --i, *it, "reverse iteration"); }
            PBT_CHECK(i == 0, "reverse iteration is too short");
            i = n;
            for (auto it = c.crbegin(); it != c.crend(); ++it) { PBT_CHECK(i > 0, "reverse iteration is too long"); same(x, --i, *it, "const reverse iteration"); }
            PBT_CHECK(i == 0, "const reverse iteration is too short");
            PBT_CHECK(r.end() - r.begin() == static_cast<std::ptrdiff_t>(n), "end() - begin()");
            if constexpr (Tr::faults)
            {
                if (!Lives::get().error.empty()) s.fail(Lives::get().error);
                size_t all = 0;
                for (auto& y : slots) if (y.ring) all += y.model.size();
                PBT_CHECK(Lives::get().live.size() == all, Lives::get().live.size(), " objects are alive, ", all, " elements are in the rings");
            }
        }

        void push(Slot& x, size_t xi, bool back, int how)
        {
            if (x.cap == 0) return;
            Ring& r = *x.ring;
            int64_t v = fresh();
            const size_t n = x.model.size();
            const bool full = n == x.cap;
            if (copies && how == 2 && n != 0)
            {
                const size_t p = s.below(n);
                v = x.model[p];
                s.note("ring", xi, back ? ".push_back(" : ".push_front(", "its element #", p, ")", full ? " // full" : "");
                if constexpr (copies) { if (back) r.push_back(static_cast<const T&>(r[p])); else r.push_front(static_cast<const T&>(r[p])); }
                s.label("pushed its own element");
            }
            else
            {
                s.note("ring", xi, back ? ".push_back(" : ".push_front(", v, ")", full ? " // full" : "");
                T t = Tr::make(v);
                bool done = false;
                if constexpr (copies)
                {
                    if (how == 0) { done = true; if (back) r.push_back(t); else r.push_front(t); PBT_CHECK(Tr::get(t) == v, "push(const &) changed its argument"); }
                }
                if (!done) { if (back) r.push_back(std::move(t)); else r.push_front(std::move(t)); }
            }
            if (full) { ++overwritten; if (back) x.model.pop_front(); else x.model.pop_back(); }
            if (back) x.model.push_back(v); else x.model.push_front(v);
        }

        void op()
        {
            const size_t xi = s.weighted({ 6, 2, 1 });
            Slot& x = slots[xi];
            const size_t n = x.model.size();
            const size_t yi = s.below(slots.size());
            Slot& y = slots[yi];
            switch (s.weighted({ 24, 16, 10, 10, 4, 1, 3, 3, 3, 3, 2, 3, 2, 3, 2 }))
            {
            case 0: push(x, xi, true, static_cast<int>(s.below(3))); break;
            case 1: push(x, xi, false, static_cast<int>(s.below(3))); break;
            case 2: if (n) { s.note("ring", xi, ".pop_front()"); x.ring->pop_front(); x.model.pop_front(); } break;
            case 3: if (n) { s.note("ring", xi, ".pop_back()"); x.ring->pop_back(); x.model.pop_back(); } break;
            case 4:
            {
                const size_t cap = 1 + s.length(20);
                s.note("ring", xi, ".reserve(", cap, ")");
                x.ring->reserve(cap);
                x.cap = cap;
                while (x.model.size() > cap) x.model.pop_front();
                if (cap < n) s.label("reserve drops elements");
                break;
            }
            case 5: if (x.cap) { s.note("ring", xi, ".clear()"); x.ring->clear(); x.model.clear(); } break;
            case 6:
                if (xi == yi) break;
                if constexpr (copies)
                {
                    s.note("ring", xi, " = copy of ring", yi);
                    x.ring.reset();
                    x.model.clear();
                    x.ring.emplace(*y.ring);
                    x.model = y.model;
                    x.cap = y.cap;
                    PBT_CHECK(*x.ring == *y.ring, "a copy is not equal to its source");
                }
                break;
            case 7:
                if constexpr (copies)
                {
                    s.note("ring", xi, " = ring", yi);
                    *x.ring = *y.ring;
                    x.model = std::deque<int64_t>(y.model);
                    x.cap = y.cap;
                }
                break;
            case 8:
                if (xi == yi) break;
                s.note("ring", xi, " = moved ring", yi);
                x.ring.reset();
                x.model.clear();
                x.ring.emplace(std::move(*y.ring));
                x.model = std::move(y.model);
                x.cap = y.cap;
                y.model.clear();
                y.cap = 0;
                break;
            case 9:
                if (xi == yi) break;
                s.note("ring", xi, " = std::move(ring", yi, ")");
                *x.ring = std::move(*y.ring);
                x.model = std::move(y.model);
                x.cap = y.cap;
                y.model.clear();
                y.cap = 0;
                break;
            case 10:
            {
                s.note("ring", xi, " is constructed anew");
                x.ring.reset();
                x.model.clear();
                if (s.chance(1, 4)) { x.ring.emplace(alloc()); x.cap = 0; }
                else { x.cap = 1 + s.length(12); x.ring.emplace(x.cap, alloc()); }
                break;
            }
            case 11:
                PBT_CHECK((*x.ring == *y.ring) == (x.model == y.model), "operator ==");
                break;
            case 12: // algorithms over the iterators
            {
                if (n < 2) break;
                if (s.flag())
                {
                    s.note("sort(ring", xi, ")");
                    std::sort(x.ring->begin(), x.ring->end(), [](const T& a, const T& b) { return Tr::get(a) < Tr::get(b); });
                    std::sort(x.model.begin(), x.model.end());
                }
                else
                {
                    s.note("reverse(ring", xi, ")");
                    std::reverse(x.ring->begin(), x.ring->end());
                    std::reverse(x.model.begin(), x.model.end());
                }
                break;
            }
            case 13: // iterator arithmetic
            {
                const Ring& c = *x.ring;
                std::ptrdiff_t p = static_cast<std::ptrdiff_t>(s.draw(n));
                auto i = x.ring->begin() + p;
                typename Ring::const_iterator ci = i;
                auto j = x.ring->end() - (static_cast<std::ptrdiff_t>(n) - p);
                PBT_CHECK(i == j && !(i != j) && !(i < j), "iterators to the same position differ");
                for (int k = 0; k < 6; ++k)
                {
                    const std::ptrdiff_t q = static_cast<std::ptrdiff_t>(s.draw(n));
                    const auto d = q - p;
                    switch (s.below(4))
                    {
                    case 0: i += d; ci += d; break;
                    case 1: i -= -d; ci -= -d; break;
                    case 2: i = i + d; ci = ci - (-d); break;
                    case 3: for (auto t = p; t < q; ++t) { ++i; ci++; } for (auto t = p; t > q; --t) { i--; --ci; } break;
                    }
                    p = q;
                    PBT_CHECK(i - x.ring->begin() == p && ci - c.begin() == p, "iterator position");
                    PBT_CHECK((i < x.ring->end()) == (p < static_cast<std::ptrdiff_t>(n)), "operator <");
                    if (p < static_cast<std::ptrdiff_t>(n))
                    {
                        same(x, static_cast<size_t>(p), *i, "iterator");
                        same(x, static_cast<size_t>(p), *ci, "const iterator");
                        PBT_CHECK(i.operator->() == &(*x.ring)[static_cast<size_t>(p)], "operator ->");
                    }
                }
                break;
            }
            case 14:
            {
                if constexpr (Tr::faults)
                {
                    const std::deque<int64_t> before = x.model;
                    const size_t cap = x.cap;
                    const size_t what = s.weighted({ 4, 2, 2, 2 });
                    if (what == 0)
                    {
                        if (x.cap == 0) break;
                        const bool back = s.flag(), copy = copies && s.flag();
                        s.note("ring", xi, back ? ".push_back" : ".push_front", copy ? "(const &)" : "(&&)", " that fails");
                        const int64_t v = fresh();
                        bool thrown = false;
                        {
                            T t = Tr::make(v);
                            Lives::get().throw_in = static_cast<int64_t>(1 + s.below(2));
                            try
                            {
                                if constexpr (copies)
                                {
                                    if (copy) { if (back) x.ring->push_back(t); else x.ring->push_front(t); }
                                }
                                if (!copy) { if (back) x.ring->push_back(std::move(t)); else x.ring->push_front(std::move(t)); }
                            }
                            catch (const InjectedError&) { thrown = true; }
                            Lives::get().throw_in = 0;
                        }
                        if (thrown)
                        {
                            s.label("failed push");
                            resync(x, "a failed push");
                            // The oldest element may have been dropped already.
                            std::deque<int64_t> dropped = before;
                            if (before.size() == cap) { if (back) dropped.pop_front(); else dropped.pop_back(); }
                            PBT_CHECK(x.cap == cap && (x.model == before || x.model == dropped), "a failed push changed the other elements");
                        }
                        else
                        {
                            if (n == cap) { if (back) x.model.pop_front(); else x.model.pop_back(); }
                            if (back) x.model.push_back(v); else x.model.push_front(v);
                        }
                    }
                    else if (what == 1)
                    {
                        const size_t c = 1 + s.length(20);
                        s.note("ring", xi, ".reserve(", c, ") that fails");
                        if (failing([&] { x.ring->reserve(c); })) { resync(x, "a failed reserve"); PBT_CHECK(x.model.size() <= n, "a failed reserve made elements"); }
                        else
                        {
                            x.cap = c;
                            while (x.model.size() > c) x.model.pop_front();
                        }
                    }
                    else if (what == 2)
                    {
                        if constexpr (copies)
                        {
                            s.note("ring", xi, " = ring", yi, ", which fails");
                            if (failing([&] { *x.ring = *y.ring; })) resync(x, "a failed assignment");
                            else { x.cap = y.cap; x.model = std::deque<int64_t>(y.model); }
                        }
                    }
                    else
                    {
                        if constexpr (copies)
                        {
                            s.note("a copy of ring", xi, " that fails");
                            failing([&] { Ring copy(*x.ring); PBT_CHECK(copy.size() == n, "the size of a copy"); });
                        }
                    }
                }
                break;
            }
            }
            // Did the contents wrap around the end of the buffer?
            if (x.model.size() > 1 && x.ring->size() == x.model.size() && &(*x.ring)[0] > &(*x.ring)[x.model.size() - 1]) ++wrapped;
            check(x);
            if (yi != xi) check(y);
            memory();
        }

        void run()
        {
            Lives::get().reset();
            for (auto& x : slots)
            {
                if (s.chance(1, 5)) x.ring.emplace(alloc());
                else { x.cap = 1 + s.length(12); x.ring.emplace(x.cap, alloc()); }
                s.note("ring of capacity ", x.cap);
            }
            for (auto& x : slots) check(x);
            const size_t ops = 1 + s.length(s.chance(1, 5) ? 200 : 50);
            for (size_t i = 0; i < ops; ++i) op();
            for (auto& x : slots) check(x);
            if (overwritten) s.label("overwrote when full");
            if (wrapped) s.label("wrapped around");
            if (overwritten && wrapped) s.nontrivial();
            s.count("operations", ops);
            slots.clear();
            memory();
            if constexpr (Tr::faults)
            {
                if (!Lives::get().error.empty()) s.fail(Lives::get().error);
                PBT_CHECK(Lives::get().live.empty(), Lives::get().live.size(), " elements outlive their ring");
            }
        }
    };

    template <class Tr>
    void run_machine(pbt::Src& s)
    {
        Machine<Tr> m(s);
        try { m.run(); }
        catch (const LifetimeError& e) { s.fail(e.msg); }
    }
}

PBT_PROPERTY(ring_of_tracked, 24000, 400000) { run_machine<TrackedTraits>(s); }
PBT_PROPERTY(ring_of_copied, 8000, 150000) { run_machine<CopiedTraits>(s); }
PBT_PROPERTY(ring_of_moved, 8000, 150000) { run_machine<MovedTraits>(s); }
PBT_PROPERTY(ring_of_bytes, 16000, 300000) { run_machine<ByteTraits>(s); }

// Capacities that do not fit into a byte or into two.
PBT_PROPERTY(large_rings, 120, 2000)
{
    const size_t cap = s.chance(1, 3) ? 65500 + s.below(5000) : 200 + s.below(s.flag() ? 200 : 20000);
    awl::ring<uint32_t> r(cap);
    std::deque<uint32_t> model;
    auto same = [&](const awl::ring<uint32_t>& x, size_t limit, const char* what)
    {
        PBT_CHECK(x.size() == model.size() && x.capacity() == limit && x.full() == (model.size() == limit), what, ": ", x.size(), " of ", x.capacity(), " instead of ", model.size(), " of ", limit);
        PBT_CHECK(std::equal(model.begin(), model.end(), x.begin(), x.end()) && std::equal(model.rbegin(), model.rend(), x.rbegin(), x.rend()), what, ": the elements");
        for (size_t k = 0; k < 50 && !model.empty(); ++k)
        {
            const size_t p = s.below(model.size());
            PBT_CHECK(x[p] == model[p] && x.at(p) == model[p] && *(x.begin() + static_cast<std::ptrdiff_t>(p)) == model[p] && x.end() - (x.begin() + static_cast<std::ptrdiff_t>(p)) == static_cast<std::ptrdiff_t>(model.size() - p), what, ": element ", p);
        }
    };
    uint32_t next = 0;
    for (size_t rounds = 1 + s.below(4); rounds; --rounds)
    {
        size_t n = s.below(cap + cap / 2);
        const size_t kind = s.draw(3);
        s.note(n, " times ", kind == 0 ? "push_back" : kind == 1 ? "push_front" : kind == 2 ? "pop_front" : "pop_back");
        for (; n; --n)
        {
            if (kind == 0) { r.push_back(next); if (model.size() == cap) model.pop_front(); model.push_back(next++); }
            else if (kind == 1) { r.push_front(next); if (model.size() == cap) model.pop_back(); model.push_front(next++); }
            else if (model.empty()) break;
            else if (kind == 2) { r.pop_front(); model.pop_front(); }
            else { r.pop_back(); model.pop_back(); }
        }
        same(r, cap, "a large ring");
        if (!model.empty()) PBT_CHECK(r.front() == model.front() && r.back() == model.back(), "front and back");
    }
    const awl::ring<uint32_t> copy = r;
    same(copy, cap, "a copy");
    const size_t less = 1 + s.below(cap + 100);
    r.reserve(less);
    while (model.size() > less) model.pop_front();
    same(r, less, "with another capacity");
    s.maximum("capacity", cap);
    if (cap > 255) s.nontrivial();
}
