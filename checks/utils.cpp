// P22 (PART 1): the queue of updates. P23 (PART 2): pools of objects. P24 (PART 3): guards, owners and once-only helpers.
#include "pbt.h"
#include "tracked.h"
#include "Awl/UpdateQueue.h"
#include "Awl/ObjectPool.h"
#include "Awl/ScopeGuard.h"
#include "Awl/UniquePtr.h"
#include "Awl/Aggregator.h"
#include "Awl/Separator.h"
#include "Awl/Combinator.h"

#include <algorithm>
#include <atomic>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#if PART == 1
#include "heap_watch.h"
namespace
{
    struct State
    {
        std::vector<std::pair<int, std::string>> log;
    };

    using Queue = awl::UpdateQueue<State&, int, std::string>;

    struct Program
    {
        std::vector<int> pushes;    // ids of the updates pushed by this one
        bool clear = false;
        bool throws = false;
        bool alters = false;
    };

    struct Machine;

    struct Update
    {
        int id;
        Machine* m;
        Tracked token;      // alive as long as the function is
        void operator()(State& st, int n, std::string str) const;
    };

    struct Machine
    {
        pbt::Src& s;
        // The memory that the queue has, beside the functions: the blocks are reused and freed with the queue.
        std::optional<Queue> queue;
        Queue* q = nullptr;
        size_t most = 0, per_function = 0;
        std::deque<int> pending, applying;
        std::map<int, Program> programs;
        int next = 1;
        int arg = 0;
        std::string text;
        bool in_apply = false;
        size_t applied = 0, nested = 0, lost = 0, cleared = 0;

        explicit Machine(pbt::Src& src) : s(src)
        {
            Lives::get().reset();
            heap::reset();
            {
                heap::On on;
                std::function<void(State&, int, std::string)> f(Update{ 0, this, Tracked(0) });
                per_function = heap::count();
            }
            PBT_CHECK(heap::count() == 0, "the check's own count");
            start();
        }

        void start()
        {
            if (queue) { queue.reset(); q = nullptr; }
            PBT_CHECK(heap::count() == 0, heap::count(), " blocks of memory outlive the queue");
            most = 0;
            heap::On on;
            q = &queue.emplace();
        }

        int make_program(unsigned depth)
        {
            const int id = next++;
            Program& p = programs[id];
            if (depth && s.chance(1, 3)) for (size_t k = s.length(4); k; --k) { int c = make_program(depth - 1); programs[id].pushes.push_back(c); }
            p.clear = s.chance(1, 12);
            p.throws = s.chance(1, 10);
            p.alters = s.chance(1, 4);
            return id;
        }

        void push(int id)
        {
            {
                heap::On on;
                q->Push(Update{ id, this, Tracked(id) });
            }
            pending.push_back(id);
            most = std::max(most, pending.size() + applying.size());
        }

        void live(const char* when)
        {
            const size_t n = pending.size() + applying.size();
            PBT_CHECK(Lives::get().error.empty(), Lives::get().error);
            PBT_CHECK(Lives::get().live.size() == n, when, ": ", Lives::get().live.size(), " functions are alive, ", n, " updates are queued");
            // One block, or less, for each of the most updates that were there at once (and some to begin with).
            PBT_CHECK(heap::count() <= n * per_function + most + 8, when, ": ", heap::count(), " blocks of memory, ", n, " updates are queued, there were never more than ", most);
        }

        void apply()
        {
            applying.swap(pending);
            State st;
            arg = s.integer<int>();
            text = std::string(s.length(40), 'x');
            std::vector<int> expected;
            bool should = false;
            for (int id : applying) { expected.push_back(id); if (programs[id].throws) { should = true; break; } }
            lost += applying.size() - expected.size();
            bool thrown = false;
            try { heap::On on; q->ApplyUpdates(st, arg, text); } catch (const InjectedError&) { thrown = true; }
            s.note("apply: ", st.log.size(), " of ", applying.size(), thrown ? ", exception" : "", ", pending ", pending.size());
            PBT_CHECK(thrown == should, thrown ? "an exception" : "the exception of an update is lost");
            PBT_CHECK(st.log.size() == expected.size(), st.log.size(), " updates were applied, ", expected.size(), " expected");
            for (size_t i = 0; i < expected.size(); ++i)
            {
                PBT_CHECK(st.log[i].first == expected[i], "update ", st.log[i].first, " at the place of ", expected[i]);
                PBT_CHECK(st.log[i].second == text, "an update got altered arguments");
            }
            applied += expected.size();
            applying.clear();
            live("after applying");
        }

        void run()
        {
            for (size_t k = 3 + s.length(30); k; --k)
            {
                switch (s.draw(8))
                {
                default:
                    for (size_t n = 1 + s.length(5); n; --n)
                    {
                        int id = make_program(3);
                        s.note("push ", id);
                        push(id);
                    }
                    break;
                case 3: case 4: case 5: apply(); break;
                case 6:
                    s.note("clear");
                    cleared += pending.size();
                    { heap::On on; q->ClearPending(); }
                    pending.clear();
                    break;
                case 7:
                {
                    // The function cannot be copied.
                    const int id = make_program(0);
                    Update u{ id, this, Tracked(id) };
                    std::function<void(State&, int, std::string)> f(std::move(u));
                    s.note("push a function that cannot be copied");
                    Lives::get().throw_in = 1 + static_cast<int64_t>(s.below(2));
                    bool thrown = false;
                    try { heap::On on; q->Push(f); } catch (const InjectedError&) { thrown = true; }
                    Lives::get().throw_in = 0;
                    if (!thrown) pending.push_back(id);
                    most = std::max(most, pending.size() + 1);
                    break;
                }
                case 8:
                    if (s.chance(1, 4))
                    {
                        s.note("a new queue");
                        start();
                        pending.clear();
                    }
                    break;
                }
                live("after a step");
            }
            while (!pending.empty()) apply();
        }
    };

    void Update::operator()(State& st, int n, std::string str) const
    {
        heap::Off off;
        token.check("called");
        Machine& mm = *m;
        if (n != mm.arg) throw pbt::Failure{ "an update got another argument" };
        st.log.push_back({ id, str });
        const Program& p = mm.programs[id];
        if (p.alters) str += "altered";
        // They are applied by the next call.
        if (p.clear) { heap::On on; mm.q->ClearPending(); heap::Off here; mm.pending.clear(); }
        for (int c : p.pushes) { mm.push(c); ++mm.nested; }
        if (!token.alive()) throw pbt::Failure{ "the function was destroyed while it was called" };
        if (p.throws) throw InjectedError();     // (an exception is not made by operator new)
    }
}

#ifndef THREADS_ONLY
PBT_PROPERTY(update_queue, 30000, 600000)
{
    Machine m(s);
    m.run();
    if (m.applied > 5 && m.nested) s.nontrivial();
    s.count("updates applied", m.applied);
    s.count("pushed by updates", m.nested);
    s.count("lost after an exception", m.lost);
    s.count("cleared", m.cleared);
    m.queue.reset();
    PBT_CHECK(heap::count() == 0, heap::count(), " blocks of memory outlive the queue");
    PBT_CHECK(Lives::get().live.empty() && Lives::get().error.empty(), "functions outlive the queue");
}

#endif

// Several threads push, one applies.
PBT_THREADED(update_queue_threads, 1500, 30000)
{
    struct Data
    {
        std::vector<int> payload;   // written before the update is pushed, with no lock
    };
    struct Target
    {
        std::vector<std::vector<int>> log;
    };
    const size_t n = 1 + s.below(4);
    const size_t per = 1 + s.length(150);
    const bool clears = s.chance(1, 4);
    const bool nested = s.flag();
    const unsigned pause = static_cast<unsigned>(s.below(3));
    s.note(n, " threads push ", per, " updates each", clears ? ", clearing" : "", nested ? ", some push others" : "");
    awl::UpdateQueue<Target&> q;
    Target t;
    t.log.resize(n + 1);
    std::atomic<size_t> running{ n };
    std::atomic<int> alive{ 0 };
    std::atomic<bool> bad{ false };
    struct Token
    {
        std::atomic<int>& a;
        explicit Token(std::atomic<int>& x) : a(x) { ++a; }
        ~Token() { --a; }
    };
    size_t nested_count = 0;
    std::vector<std::thread> threads;
    for (size_t k = 0; k < n; ++k)
    {
        threads.emplace_back([&, k]
        {
            for (size_t i = 0; i < per; ++i)
            {
                auto d = std::make_shared<Data>();
                d->payload.assign(3, static_cast<int>(i));
                auto token = std::make_shared<Token>(alive);
                q.Push([&, k, i, d, token](Target& target)
                {
                    for (int x : d->payload) if (x != static_cast<int>(i)) bad = true;
                    d->payload[0] = -1;     // applied twice
                    target.log[k].push_back(static_cast<int>(i));
                    if (nested && i % 7 == 0)
                    {
                        const int id = static_cast<int>(nested_count++);
                        q.Push([&, id, n, token](Target& tt) { tt.log[n].push_back(id); });
                    }
                });
                if (clears && i % 50 == 49) q.ClearPending();
                if (pause == 2 && i % 16 == 0) std::this_thread::yield();
            }
            --running;
        });
    }
    size_t rounds = 0, busy = 0;
    while (running != 0)
    {
        size_t before = 0, after = 0;
        for (auto& l : t.log) before += l.size();
        q.ApplyUpdates(t);
        for (auto& l : t.log) after += l.size();
        if (after != before) ++busy;
        ++rounds;
        if (pause == 1) std::this_thread::yield();
    }
    for (auto& x : threads) x.join();
    q.ApplyUpdates(t);
    q.ApplyUpdates(t);      // pushed by the last ones
    PBT_CHECK(!bad, "an update was applied twice or saw half-written data");
    for (size_t k = 0; k < n; ++k)
    {
        for (size_t i = 1; i < t.log[k].size(); ++i) PBT_CHECK(t.log[k][i - 1] < t.log[k][i], "thread ", k, ": update ", t.log[k][i], " after ", t.log[k][i - 1]);
        if (!clears) PBT_CHECK(t.log[k].size() == per, "thread ", k, ": ", t.log[k].size(), " of ", per, " updates were applied");
    }
    for (size_t i = 1; i < t.log[n].size(); ++i) PBT_CHECK(t.log[n][i - 1] < t.log[n][i], "nested updates are out of order");
    if (!clears) PBT_CHECK(t.log[n].size() == nested_count, t.log[n].size(), " of ", nested_count, " nested updates were applied");
    PBT_CHECK(alive == 0, alive.load(), " functions are still alive");
    if (busy > 1) s.nontrivial();
    s.count("rounds that applied something", busy);
}
#elif PART == 2
namespace
{
    struct Machine;

    struct Counts
    {
        uint64_t made = 0, deleted = 0, finalized = 0;
        std::set<const void*> alive;
        std::string error;
    };
    Counts counts;

    struct Extra : awl::quick_link {};

    template <class Base>
    struct Item : Base
    {
        int id = 0;                         // nonzero while in use
        std::vector<std::shared_ptr<Item>> held;
        awl::object_pool<Item>* pool = nullptr;
        unsigned on_finalize = 0;           // what Finalize() does
        std::shared_ptr<Item>* out = nullptr;
        const bool foreign;

        Item() : foreign(false) { ++counts.made; counts.alive.insert(this); }
        explicit Item(int) : foreign(true) { ++counts.made; counts.alive.insert(this); }
        ~Item() override
        {
            ++counts.deleted;
            if (!counts.alive.erase(this)) counts.error = "an object was deleted twice";
            if (id != 0) counts.error = "an object in use was deleted";
        }

        void Finalize() override
        {
            ++counts.finalized;
            if (id == 0) counts.error = "Finalize() of an object that is not in use";
            if (!counts.alive.count(this)) counts.error = "Finalize() of a deleted object";
            // Nobody else may have it until Finalize() is over.
            if (on_finalize == 1)
            {
                auto p = pool->make();
                if (p.get() == this) counts.error = "make() within Finalize() returned the object that is being finalized";
                else { p->id = 1000000; p->pool = pool; p->on_finalize = 0; if (out) *out = p; }
            }
            else if (on_finalize == 2)
            {
                pool->clear();
                if (!counts.alive.count(this)) { counts.error = "clear() within Finalize() deleted the object"; return; }
            }
            held.clear();
            on_finalize = 0;
            out = nullptr;
            id = 0;
        }
    };

    struct PlainBase : awl::pooled_object {};
    struct LinkedBase : Extra, awl::pooled_object {};
    struct SharedBase : awl::pooled_object, std::enable_shared_from_this<SharedBase> {};

    template <class Base>
    struct Pools
    {
        using T = Item<Base>;
        pbt::Src& s;
        std::vector<std::unique_ptr<awl::object_pool<T>>> pools;

        struct Slot
        {
            std::shared_ptr<T> p;
            size_t pool;
            int id;
        };
        std::vector<Slot> slots;
        std::vector<std::weak_ptr<T>> weak;
        std::vector<std::set<T*>> known;     // the objects of each pool, used or free
        int next = 1;
        size_t reused = 0, nested = 0, released = 0;

        explicit Pools(pbt::Src& src) : s(src)
        {
            counts = Counts();
            for (size_t k = 1 + s.below(2); k; --k) pools.push_back(std::make_unique<awl::object_pool<T>>());
            known.resize(pools.size());
        }

        // The objects in use, reachable from the slots.
        std::map<T*, size_t> used() const
        {
            std::map<T*, size_t> u;
            std::function<void(T*, size_t)> visit = [&](T* p, size_t) { if (u.emplace(p, 0).second) for (auto& h : p->held) visit(h.get(), 0); };
            for (auto& x : slots) visit(x.p.get(), x.pool);
            return u;
        }

        void check(const char* when)
        {
            PBT_CHECK(counts.error.empty(), when, ": ", counts.error);
            for (auto& [p, unused] : used())
            {
                PBT_CHECK(counts.alive.count(p), when, ": an object in use has been deleted");
                PBT_CHECK(p->id != 0, when, ": an object in use has been finalized");
            }
            for (auto& x : slots) PBT_CHECK(x.p->id == x.id, when, ": object ", x.id, " has become ", x.p->id);
        }

        size_t free_of(size_t pi) const
        {
            auto u = used();
            size_t n = 0;
            for (T* p : known[pi]) if (!u.count(p)) ++n;
            return n;
        }

        void make(size_t pi)
        {
            auto u = used();
            const size_t fr = free_of(pi);
            const uint64_t made = counts.made;
            std::shared_ptr<T> p;
            if (s.chance(1, 5))
            {
                T* raw = new T(1);
                p = pools[pi]->add(raw);
                PBT_CHECK(p.get() == raw, "add() returned another object");
                s.note("add to ", pi);
            }
            else
            {
                p = pools[pi]->make();
                PBT_CHECK(counts.made - made == (fr ? 0u : 1u), "make() with ", fr, " free objects created ", counts.made - made);
                PBT_CHECK(!u.count(p.get()), "make() returned an object in use");
                if (fr) { ++reused; PBT_CHECK(known[pi].count(p.get()), "make() returned an object of another pool"); }
                s.note("make from ", pi, fr ? ": reused" : ": new");
            }
            PBT_CHECK(p && p.use_count() == 1 && p->id == 0, "make() returned an object that had not been released");
            known[pi].insert(p.get());
            p->id = next++;
            p->pool = pools[pi].get();
            if constexpr (std::is_same_v<Base, SharedBase>) PBT_CHECK(p->shared_from_this() == p, "shared_from_this()");
            weak.push_back(p);
            slots.push_back({ std::move(p), pi, next - 1 });
        }

        void release(size_t i)
        {
            const uint64_t fin = counts.finalized;
            const auto before = used();
            T* p = slots[i].p.get();
            const size_t pi = slots[i].pool;
            std::shared_ptr<T> out;
            unsigned what = 0;
            if (slots[i].p.use_count() == 1 && s.chance(1, 3))
            {
                what = 1 + static_cast<unsigned>(s.draw(1));
                p->on_finalize = what;
                p->out = &out;
            }
            s.note("release ", slots[i].id, what == 1 ? ", make in Finalize()" : what == 2 ? ", clear in Finalize()" : "");
            slots.erase(slots.begin() + static_cast<std::ptrdiff_t>(i));
            PBT_CHECK(counts.error.empty(), counts.error);
            const auto after = used();
            ++released;
            PBT_CHECK(counts.finalized - fin == before.size() - after.size(), "release: ", counts.finalized - fin, " objects were finalized instead of ", before.size() - after.size());
            for (auto& x : known) for (auto it = x.begin(); it != x.end();) { if (!counts.alive.count(*it)) { PBT_CHECK(what == 2 && &x == &known[pi], "an object was deleted by a release"); it = x.erase(it); } else ++it; }
            if (what == 1)
            {
                ++nested;
                PBT_CHECK(out && out.get() != p, "make() in Finalize()");
                known[pi].insert(out.get());
                slots.push_back({ std::move(out), pi, 1000000 });
            }
        }

        void run()
        {
            for (size_t k = 5 + s.length(50); k; --k)
            {
                const size_t pi = s.below(pools.size());
                switch (s.draw(9))
                {
                default: make(pi); break;
                case 3: case 4: case 5:
                    if (!slots.empty()) release(s.below(slots.size()));
                    break;
                case 6:
                    if (!slots.empty()) { Slot x = slots[s.below(slots.size())]; s.note("copy of ", x.id); slots.push_back(x); }
                    break;
                case 7:
                {
                    if (slots.size() < 2) break;
                    // One object holds another one; no cycles.
                    Slot& a = slots[s.below(slots.size())];
                    Slot& b = slots[s.below(slots.size())];
                    if (a.id < b.id && a.id != 1000000 && b.id != 1000000) { a.p->held.push_back(b.p); s.note(a.id, " holds ", b.id); }
                    break;
                }
                case 8:
                {
                    const auto u = used();
                    pools[pi]->clear();
                    size_t n = 0;
                    for (auto it = known[pi].begin(); it != known[pi].end();)
                    {
                        if (!u.count(*it)) { PBT_CHECK(!counts.alive.count(*it), "a free object was not deleted by clear()"); it = known[pi].erase(it); ++n; }
                        else { PBT_CHECK(counts.alive.count(*it), "clear() deleted an object in use"); ++it; }
                    }
                    s.note("clear ", pi, ": ", n);
                    break;
                }
                case 9:
                    for (auto& w : weak)
                    {
                        auto p = w.lock();
                        if (p) PBT_CHECK(used().count(p.get()), "a weak pointer to a released object can be locked");
                    }
                    break;
                }
                check("after a step");
            }
            // Release everything, the objects held by others included.
            while (!slots.empty()) release(slots.size() - 1);
            check("at the end");
            size_t total = 0;
            for (size_t pi = 0; pi < pools.size(); ++pi) total += known[pi].size();
            PBT_CHECK(counts.alive.size() == total, counts.alive.size(), " objects are alive, ", total, " are in the pools");
            pools.clear();
            PBT_CHECK(counts.error.empty(), counts.error);
            PBT_CHECK(counts.alive.empty() && counts.made == counts.deleted, counts.alive.size(), " objects outlive the pools");
            if (reused > 2 && released > 3) s.nontrivial();
            s.count("reused", reused);
            s.count("releases", released);
            s.count("made in Finalize()", nested);
        }
    };

    // The pool of a type.
    template <class Base>
    void singleton(pbt::Src& s)
    {
        using T = Item<Base>;
        awl::clear_pool<T>();
        counts = Counts();
        std::vector<std::shared_ptr<T>> v;
        size_t most = 0;
        for (size_t k = s.length(30); k; --k)
        {
            if (v.empty() || s.flag()) { v.push_back(awl::make_pooled<T>()); v.back()->id = 1; }
            else { size_t i = s.below(v.size()); v.erase(v.begin() + static_cast<std::ptrdiff_t>(i)); }
            most = std::max(most, v.size());
            PBT_CHECK(counts.made == most, "the pool has created ", counts.made, " objects, at most ", most, " were used at a time");
            PBT_CHECK(counts.error.empty(), counts.error);
        }
        v.clear();
        PBT_CHECK(counts.alive.size() == most, "released objects have been deleted");
        awl::clear_pool<T>();
        PBT_CHECK(counts.alive.empty() && counts.error.empty(), "clear_pool()");
    }
}

PBT_PROPERTY(object_pool, 20000, 200000)
{
    switch (s.draw(3))
    {
    case 0: Pools<PlainBase>(s).run(); break;
    case 1: Pools<LinkedBase>(s).run(); break;
    case 2: Pools<SharedBase>(s).run(); break;
    default:
        singleton<PlainBase>(s);
        singleton<LinkedBase>(s);
        break;
    }
}
#else
namespace
{
    struct Action
    {
        int id;
        std::vector<int>* log;
        void operator()() { log->push_back(id); }
    };

    struct Guards
    {
        pbt::Src& s;
        std::vector<int> log, expected;
        int next = 1;
        size_t moved = 0, released = 0, run_count = 0;
        explicit Guards(pbt::Src& src) : s(src) {}

        void same(const char* when)
        {
            PBT_CHECK(log.size() == expected.size(), when, ": ", log.size(), " actions were run, ", expected.size(), " expected");
            PBT_CHECK(log == expected, when, ": other actions were run");
        }

        template <class G, class Make>
        void history(Make make, bool assignable)
        {
            // A guard, the action it owns (0: none).
            struct Slot { std::optional<G> g; int id = 0; };
            std::list<Slot> slots(2 + s.below(3));
            auto at = [&](size_t i) -> Slot& { auto it = slots.begin(); std::advance(it, i); return *it; };
            for (size_t k = 3 + s.length(25); k; --k)
            {
                Slot& x = at(s.below(slots.size()));
                Slot& y = at(s.below(slots.size()));
                switch (s.draw(5))
                {
                case 0: case 1:
                    if (!x.g)
                    {
                        const int id = next++;
                        const bool engaged = s.chance(3, 4);
                        s.note("guard ", id, engaged ? "" : ", disengaged");
                        make(x.g, id, engaged);
                        x.id = engaged ? id : 0;
                        break;
                    }
                    [[fallthrough]];
                case 2:
                    if (!x.g) break;
                    s.note("end of ", x.id);
                    if (x.id) { expected.push_back(x.id); ++run_count; }
                    x.g.reset();
                    x.id = 0;
                    break;
                case 3:
                    if (!x.g) break;
                    s.note("release of ", x.id);
                    x.g->release();
                    if (x.id) ++released;
                    x.id = 0;
                    break;
                case 4:
                    if (!x.g || y.g) break;
                    s.note("move of ", x.id);
                    y.g.emplace(std::move(*x.g));
                    y.id = x.id;
                    x.id = 0;
                    ++moved;
                    break;
                default:
                    if constexpr (std::is_same_v<G, awl::virtual_guard>)
                    {
                        if (!assignable || !x.g || !y.g) break;
                        s.note("assignment of ", x.id, " to ", &x == &y ? -1 : y.id);
                        *y.g = std::move(*x.g);
                        if (&x != &y)
                        {
                            if (y.id) { expected.push_back(y.id); ++run_count; }
                            y.id = x.id;
                            x.id = 0;
                        }
                        ++moved;
                    }
                    break;
                }
                same("after a step");
            }
            for (auto& x : slots) { if (x.id) expected.push_back(x.id); x.g.reset(); }
            same("at the end");
        }

        // Nested scopes left normally or by an exception.
        void scopes(size_t depth, bool throws)
        {
            if (depth == 0)
            {
                if (throws) throw InjectedError();
                return;
            }
            const int id = next++;
            const bool engaged = s.chance(4, 5), init = s.flag(), release = s.chance(1, 5), bad_init = init && engaged && s.chance(1, 10);
            s.note("scope ", id, engaged ? "" : ", disengaged", init ? ", with an initial action" : "", release ? ", released" : "", bad_init ? ", failing" : "");
            auto body = [&](auto& g)
            {
                same("inside of a scope");
                if (release) g.release();
                auto leave = [&] { if (engaged && !release) expected.push_back(id); };
                try { scopes(depth - 1, throws); } catch (const InjectedError&) { leave(); throw; }
                leave();
            };
            if (init)
            {
                if (engaged) expected.push_back(-id);
                auto first = [&] { log.push_back(-id); if (bad_init) throw InjectedError(); };
                if (bad_init)
                {
                    bool thrown = false;
                    try { auto g = awl::make_scope_guard(first, Action{ id, &log }, engaged); } catch (const InjectedError&) { thrown = true; }
                    PBT_CHECK(thrown, "the exception of the initial action is lost");
                    same("after a failed initial action");
                    return;
                }
                auto g = awl::make_scope_guard(first, Action{ id, &log }, engaged);
                body(g);
            }
            else
            {
                auto g = awl::make_scope_guard([this, id] { log.push_back(id); }, engaged);
                body(g);
            }
        }
    };

    struct Node
    {
        Tracked t;
        awl::unique_ptr<Node> next;
        explicit Node(int64_t v) : t(v) {}
        Node(int64_t v, awl::unique_ptr<Node>&& n) : t(v), next(std::move(n)) {}
    };

    constexpr int constexpr_pointer()
    {
        awl::unique_ptr<int> a(new int(5)), b;
        b = std::move(a);
        awl::unique_ptr<int> c(std::move(b));
        c.reset(new int(*c + 1));
        int* p = c.release();
        awl::unique_ptr<int> d(p);
        return !a && !b && !c && d ? *d : 0;
    }
    static_assert(constexpr_pointer() == 6);
}

PBT_PROPERTY(scope_guards, 30000, 600000)
{
    Guards g(s);
    switch (s.draw(2))
    {
    case 0:
        g.history<awl::virtual_guard>([&](std::optional<awl::virtual_guard>& x, int id, bool engaged)
        {
            if (engaged && s.flag()) x.emplace(awl::make_virtual_guard(Action{ id, &g.log }));
            else if (!engaged && s.flag()) x.emplace(awl::make_fake_guard());
            else x.emplace(std::function<void()>(Action{ id, &g.log }), engaged);
        }, true);
        break;
    case 1:
        g.history<awl::scope_guard<Action>>([&](auto& x, int id, bool engaged)
        {
            if (s.flag()) x.emplace(Action{ id, &g.log }, engaged);
            else x.emplace(awl::make_scope_guard(Action{ id, &g.log }, engaged));
        }, false);
        break;
    default:
    {
        bool throws = s.flag();
        try { g.scopes(1 + s.length(6), throws); } catch (const InjectedError&) {}
        g.same("at the end");
        g.run_count = g.moved = g.log.size();
        break;
    }
    }
    if (g.run_count > 1 && g.moved) s.nontrivial();
    s.count("actions run", g.log.size());
    s.count("guards moved", g.moved);
    s.count("guards released", g.released);
}

PBT_PROPERTY(unique_pointers, 24000, 500000)
{
    Lives::get().reset();
    struct Slot { awl::unique_ptr<Tracked> p; int64_t id = 0; Tracked* raw = nullptr; };
    size_t ops = 0;
    {
        std::vector<Slot> v(3);
        std::vector<Tracked*> loose;
        int64_t next = 1;
        for (size_t k = 2 + s.length(30); k; --k)
        {
            Slot& x = v[s.below(v.size())];
            Slot& y = v[s.below(v.size())];
            switch (s.draw(7))
            {
            case 0: x.p = awl::make_unique<Tracked>(next); x.raw = x.p.get(); x.id = next++; break;
            case 1: { auto* p = new Tracked(next); x.p.reset(p); x.raw = p; x.id = next++; break; }
            case 2:
                x.p = std::move(y.p);
                if (&x != &y) { x.id = y.id; x.raw = y.raw; y.id = 0; y.raw = nullptr; }
                break;
            case 3:
            {
                awl::unique_ptr<Tracked> t(std::move(x.p));
                PBT_CHECK(!x.p && t.get() == x.raw, "move construction");
                if (s.flag()) { x.p = std::move(t); PBT_CHECK(!t, "move back"); }
                else { x.id = 0; x.raw = nullptr; }
                break;
            }
            case 4:
            {
                Tracked* p = x.p.release();
                PBT_CHECK(p == x.raw, "release()");
                x.id = 0; x.raw = nullptr;
                if (p) loose.push_back(p);
                break;
            }
            case 5: x.p.reset(nullptr); x.id = 0; x.raw = nullptr; break;
            case 6: std::swap(x.p, y.p); std::swap(x.id, y.id); std::swap(x.raw, y.raw); break;
            default:
                if (!loose.empty()) { x.p = awl::unique_ptr<Tracked>(loose.back()); x.raw = loose.back(); x.id = x.raw->value; loose.pop_back(); }
                break;
            }
            ++ops;
            size_t n = loose.size();
            for (auto& z : v)
            {
                if (z.id) ++n;
                PBT_CHECK(static_cast<bool>(z.p) == (z.id != 0) && z.p.get() == z.raw && z.p == z.raw && !(z.p != z.raw), "the pointer");
                if (z.id) PBT_CHECK(z.p->value == z.id && (*z.p).value == z.id && z.p->intact(), "the object");
                for (auto& w : v) PBT_CHECK((z.p == w.p) == (z.raw == w.raw) && (z.p != w.p) == (z.raw != w.raw), "comparison");
            }
            PBT_CHECK(Lives::get().error.empty(), Lives::get().error);
            PBT_CHECK(Lives::get().live.size() == n, Lives::get().live.size(), " objects are alive, ", n, " expected");
        }
        for (auto* p : loose) delete p;
    }
    PBT_CHECK(Lives::get().live.empty() && Lives::get().error.empty(), "at the end");

    // A chain of objects that own each other.
    {
        awl::unique_ptr<Node> head;
        const size_t n = s.length(20);
        for (size_t i = 0; i < n; ++i) head = awl::make_unique<Node>(static_cast<int64_t>(i) + 1, std::move(head));
        PBT_CHECK(Lives::get().live.size() == n, "a chain of ", n);
        // The head is replaced with its own tail.
        for (size_t i = s.below(n + 1); i; --i)
        {
            if (s.flag()) { head = std::move(head->next); continue; }
            awl::unique_ptr<Node> tail(std::move(head->next));
            head = std::move(tail);
        }
        size_t left = 0;
        for (Node* p = head.get(); p; p = p->next.get()) ++left;
        PBT_CHECK(Lives::get().live.size() == left, "the rest of a chain");
    }
    PBT_CHECK(Lives::get().live.empty() && Lives::get().error.empty(), "a chain");
    if (ops > 8) s.nontrivial();
}

PBT_PROPERTY(once_all_is_set, 8000, 100000)
{
    Lives::get().reset();
    {
        std::vector<std::string> calls;
        auto f = [&](int a, std::string b, std::unique_ptr<Tracked> c, const std::vector<int>& d)
        {
            calls.push_back(pbt::str(a, ",", b, ",", c ? c->value : -1, ",", d.size(), ":", d.empty() ? 0 : d[0]));
        };
        using Func = std::function<void(int, std::string, std::unique_ptr<Tracked>, const std::vector<int>&)>;
        auto sp = awl::make_shared_aggregator(Func(f));
        awl::aggregator<int, std::string, std::unique_ptr<Tracked>, const std::vector<int>&> local{ Func(f) };
        auto& a = s.flag() ? *sp : local;
        int v0 = 0; std::string v1; int64_t v2 = -1; std::vector<int> v3;
        unsigned set = 0;
        bool cancelled = false;
        size_t sets = 0;
        for (size_t k = 4 + s.length(12); k && set != 15; --k)
        {
            PBT_CHECK(!a.all(), "all() is true before everything is set");
            switch (s.draw(4))
            {
            case 0: v0 = s.integer<int>(); a.set<0>(v0); set |= 1; break;
            case 1: v1 = std::string(s.length(30), 'q'); a.set<1>(v1); set |= 2; break;
            case 2: v2 = static_cast<int64_t>(1 + s.below(100)); a.set<2>(std::make_unique<Tracked>(v2)); set |= 4; break;
            case 3: v3.assign(s.below(4), static_cast<int>(s.below(9))); a.set<3>(v3); set |= 8; break;
            default: if (s.chance(1, 4)) { a.cancel(); cancelled = true; } break;
            }
            ++sets;
            PBT_CHECK(a.all() == (set == 15), "all()");
            PBT_CHECK(calls.size() == (set == 15 && !cancelled ? 1u : 0u), calls.size(), " calls, set ", set, cancelled ? ", cancelled" : "");
        }
        if (!calls.empty())
        {
            const std::string e = pbt::str(v0, ",", v1, ",", v2, ",", v3.size(), ":", v3.empty() ? 0 : v3[0]);
            PBT_CHECK(calls[0] == e, "called with ", calls[0], " instead of ", e);
            s.label("called");
        }
        if (sets > 5) s.nontrivial();
    }
    PBT_CHECK(Lives::get().live.empty() && Lives::get().error.empty(), "lifetimes");

    // Separators: before every item but the first one.
    {
        const size_t n = s.length(12);
        const std::string text = s.pick<std::string>({ ", ", "", "; and ", "\n" });
        const bool ch = s.flag();
        awl::aseparator sep = ch ? awl::aseparator(',') : awl::aseparator(text);
        std::ostringstream out;
        std::string expected;
        for (size_t i = 0; i < n; ++i)
        {
            PBT_CHECK(sep.first() == (i == 0), "first()");
            out << sep << i;
            if (i) expected += ch ? ", " : text;
            expected += std::to_string(i);
        }
        PBT_CHECK(out.str() == expected, out.str(), " instead of ", expected);
    }
    // Recursion without a name.
    {
        auto fib = awl::y_combinator<uint64_t, int>([](auto self, int n) -> uint64_t { return n < 2 ? static_cast<uint64_t>(n) : self(n - 1) + self(n - 2); });
        const int n = static_cast<int>(s.below(15));
        uint64_t x = 0, y = 1;
        for (int i = 0; i < n; ++i) { uint64_t z = x + y; x = y; y = z; }
        PBT_CHECK(fib(int(n)) == x, "fibonacci ", n);
    }
}
#endif
