// P26: stop tokens, P27: condition variables with stop tokens and joining threads, P28: interruptible sleep and the watch dog.
//
// -DPART=1..3 with the doubles of interleave.h: schedules are drawn, replayed and shrunk.
// -DREAL_THREADS: the same histories with the threads of the machine, for ThreadSanitizer.
#include "pbt.h"
#include <bits/stdc++.h>
#include <immintrin.h>

template <class T> using RealAtomic = std::atomic<T>;
using RealMutex = std::mutex;
using RealId = std::thread::id;
inline RealId real_id() { return std::this_thread::get_id(); }

#ifdef REAL_THREADS
namespace sched
{
    [[noreturn]] inline void fail(const std::string& msg)
    {
        std::fprintf(stderr, "history failure: %s\n", msg.c_str());
        std::abort();
    }
}
#define SCHED_CHECK(cond, ...) do { if (!(cond)) { ::sched::fail(::pbt::str("line ", __LINE__, ": ", #cond, "  " __VA_OPT__(,) __VA_ARGS__)); } } while (false)
#else
#include "interleave.h"
#endif

// Allocations made by a stop source must be freed.
namespace watch
{
    inline thread_local bool on = false;
    inline RealMutex guard;
    inline std::set<void*>* live = nullptr;
    inline RealAtomic<size_t> count{ 0 };

    struct Scope
    {
        bool was = on;
        Scope() { on = true; }
        ~Scope() { on = was; }
    };
    // For the allocations of the check itself within a scope.
    struct Off
    {
        bool was = on;
        Off() { on = false; }
        ~Off() { on = was; }
    };
    inline void add(void* p)
    {
        Off off;
        guard.lock();
        if (!live) live = new std::set<void*>;
        live->insert(p);
        count = live->size();
        guard.unlock();
    }
    inline void remove(void* p)
    {
        if (count == 0) return;
        Off off;
        guard.lock();
        auto i = live->find(p);
        std::set<void*>::node_type n;
        if (i != live->end()) n = live->extract(i);
        count = live->size();
        guard.unlock();
    }
}

void* operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (watch::on) watch::add(p);
    return p;
}
void operator delete(void* p) noexcept { if (p) watch::remove(p); std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) watch::remove(p); std::free(p); }

#define AWL_JTHREAD_EXTRAS
#include "JThreadExtras/stop_token.hpp"
#include "JThreadExtras/jthread.hpp"
#include "JThreadExtras/condition_variable_any2.hpp"

// Program text of one thread: numbers drawn before the threads are started, so that threads do not share the source.
struct Program
{
    std::vector<uint32_t> numbers;
    size_t pos = 0;
    explicit Program(pbt::Src& s, size_t n)
    {
        for (size_t i = 0; i < n; ++i) numbers.push_back(static_cast<uint32_t>(s.draw(999)));
    }
    Program() = default;
    bool more() const { return pos < numbers.size(); }
    uint32_t next() { return pos < numbers.size() ? numbers[pos++] : 0; }
    size_t below(size_t n) { return next() % n; }
    bool chance(size_t num, size_t den) { return next() % den < num; }
};

#ifdef REAL_THREADS
inline void pause_a_bit(size_t n) { for (size_t i = 0; i < n * 20; ++i) _mm_pause(); }
#else
inline void pause_a_bit(size_t n) { for (size_t i = 0; i < n % 4; ++i) sched::point(); }
#endif

// Runs the functions in threads of their own and waits for them all.
template <class F>
void in_threads(pbt::Src& s, size_t n, F&& f, bool lazy = false)
{
#ifdef REAL_THREADS
    (void)s;
    (void)lazy;
    RealAtomic<size_t> ready{ 0 };
    std::vector<std::thread> all;
    for (size_t i = 0; i < n; ++i) all.emplace_back([&, i] { ++ready; while (ready < n) std::this_thread::yield(); f(i); });
    for (auto& t : all) t.join();
#else
    sched::Scheduler sc(s);
    if (lazy) sc.lazy_time();
    sc.run([&]
    {
        std::vector<std::thread> all;
        for (size_t i = 0; i < n; ++i) all.emplace_back([&, i] { f(i); });
        for (auto& t : all) t.join();
    });
    s.maximum("steps of a schedule", sc.steps());
    s.maximum("switches of a schedule", sc.switches());
#endif
}

#if PART == 1

namespace
{
    // What is known of a stop state.
    struct State
    {
        RealAtomic<int> sources_upper{ 0 };      // never less than the number of sources
        RealAtomic<int> requests_begun{ 0 }, wins{ 0 };
        RealAtomic<bool> returned{ false };      // a request has returned
        RealAtomic<bool> winner_known{ false };
        RealAtomic<size_t> winner{ 0 };
    };

    struct World;
    inline thread_local size_t number = 0;       // of the thread
    inline thread_local std::vector<int>* requesting = nullptr;

    struct Record
    {
        size_t id = 0;
        World* w = nullptr;
        int state = -1;
        size_t maker = 0;
        bool expected = false;                   // a request had returned before it was made
        bool possible = false;                   // a source existed while it was being made
        RealAtomic<int> calls{ 0 }, functors{ 0 };
        RealAtomic<bool> running{ false }, made{ false }, ending{ false }, ended{ false };
        RealAtomic<size_t> runner{ 0 };
        Program plan;
        bool inside_end = false;                 // destroyed by its own call
    };

    struct Refuse {};

    struct Functor
    {
        Record* r;
        std::unique_ptr<int> canary;
        explicit Functor(Record* x, bool refuse = false) : r(x), canary(new int(42))
        {
            if (refuse) throw Refuse();
            ++r->functors;
        }
        struct Make { Record* r; bool refuse; };
        Functor(Make m) : Functor(m.r, m.refuse) {}
        Functor(const Functor&) = delete;
        ~Functor()
        {
            SCHED_CHECK(*canary == 42);
            *canary = 0;
            --r->functors;
        }
        void operator()();
    };

    using Callback = std::stop_callback<Functor>;

    struct Slot
    {
        std::mutex m;
        Callback* cb = nullptr;
        Record* r = nullptr;
    };

    struct Source
    {
        std::stop_source x;
        int state;
    };
    struct Token
    {
        std::stop_token x;
        int state;
    };
    template <class T>
    struct Parked
    {
        std::mutex m;
        std::optional<T> v;
    };

    struct Local;

    struct World
    {
        std::deque<State> states;
        std::deque<Record> records;
        RealMutex records_m;
        std::array<Slot, 4> slots;
        std::array<Parked<Source>, 2> sources;
        std::array<Parked<Token>, 2> tokens;
        std::vector<std::vector<Program>> plans;     // of the callbacks made by a thread
        RealAtomic<size_t> inline_calls{ 0 }, calls{ 0 }, concurrent{ 0 }, selfs{ 0 };

        State& of(int s) { return states[static_cast<size_t>(s)]; }
    };

    struct Local
    {
        World& w;
        Program prog;
        std::vector<Source> sources;
        std::vector<Token> tokens;
        std::vector<Program> plans;
        size_t depth = 0;
        Local(World& x) : w(x) {}

        Record* new_record(int state, Program plan)
        {
            w.records_m.lock();
            w.records.emplace_back();
            Record* r = &w.records.back();
            r->id = w.records.size();
            w.records_m.unlock();
            r->w = &w;
            r->state = state;
            r->maker = number;
            r->plan = std::move(plan);
            return r;
        }

        void drop(Source& s)
        {
            { Source dead{ std::move(s.x), s.state }; }
            if (s.state >= 0) --w.of(s.state).sources_upper;
            s.state = -1;
        }

        void request(Source& s)
        {
            if (s.state < 0)
            {
                SCHED_CHECK(!s.x.request_stop());
                return;
            }
            State& st = w.of(s.state);
            ++st.requests_begun;
            // Kept while the request is being made.
            std::stop_source copy = s.x;
            const int state = s.state;
            std::vector<Record*> before;
            w.records_m.lock();
            for (auto& r : w.records) if (r.made && r.state == state && !r.ending && r.possible && !r.expected) before.push_back(&r);
            w.records_m.unlock();
            if (!requesting) requesting = new std::vector<int>;
            requesting->push_back(state);
            const bool won = copy.request_stop();
            requesting->pop_back();
            if (requesting->empty()) { delete requesting; requesting = nullptr; }
            SCHED_CHECK(copy.stop_requested());
            st.returned = true;
            if (won)
            {
                SCHED_CHECK(++st.wins == 1, "request_stop() was true twice");
                // All the callbacks that were there are over, or they are being destroyed.
                for (auto* r : before) SCHED_CHECK(r->ending || (r->calls == 1 && !r->running), "callback ", r->id, " was not called");
            }
        }

        void check_token(const Token& t)
        {
            if (t.state < 0)
            {
                SCHED_CHECK(!t.x.stop_requested() && !t.x.stop_possible());
                return;
            }
            State& st = w.of(t.state);
            const bool returned = st.returned;
            const bool dead = st.sources_upper == 0 && st.requests_begun == 0;
            const bool req = t.x.stop_requested();
            if (req) SCHED_CHECK(st.requests_begun > 0, "stopped by nobody");
            if (returned) SCHED_CHECK(req, "a stop was requested, but the token does not know");
            bool mine = false;
            for (auto& s : sources) if (s.state == t.state) mine = true;
            const bool possible = t.x.stop_possible();
            if (returned || mine) SCHED_CHECK(possible);
            if (dead) SCHED_CHECK(!possible, "no sources, but a stop is possible");
        }

        void check_source(const Source& s)
        {
            SCHED_CHECK(s.x.stop_possible() == (s.state >= 0));
            if (s.state < 0) { SCHED_CHECK(!s.x.stop_requested()); return; }
            State& st = w.of(s.state);
            const bool returned = st.returned;
            const bool req = s.x.stop_requested();
            if (req) SCHED_CHECK(st.requests_begun > 0);
            if (returned) SCHED_CHECK(req);
        }

        // Puts a callback into a slot and returns the one that was there.
        void put(size_t slot, Callback*& cb, Record*& r)
        {
            Slot& sl = w.slots[slot];
            std::lock_guard<std::mutex> l(sl.m);
            std::swap(sl.cb, cb);
            std::swap(sl.r, r);
        }

        void make(Token& t, size_t slot, bool move, bool refuse, Program plan)
        {
            Record* r = new_record(t.state, std::move(plan));
            if (t.state >= 0)
            {
                State& st = w.of(t.state);
                r->expected = st.returned;
                for (auto& s : sources) if (s.state == t.state) r->possible = true;
            }
            const bool dead = t.state < 0 || (w.of(t.state).sources_upper == 0 && w.of(t.state).requests_begun == 0);
            Callback* cb = nullptr;
            try
            {
                if (move) cb = new Callback(std::move(t.x), Functor::Make{ r, refuse });
                else cb = new Callback(t.x, Functor::Make{ r, refuse });
            }
            catch (const Refuse&)
            {
                SCHED_CHECK(refuse);
                SCHED_CHECK(r->calls == 0 && r->functors == 0);
                r->ended = true;
                if (!move) check_token(t);
                if (move) { t.x = std::stop_token(); t.state = -1; }
                return;
            }
            SCHED_CHECK(!refuse);
            r->made = true;
            if (r->expected) SCHED_CHECK(r->calls == 1 && r->maker == r->runner, "a stop had been requested, but the callback was not called at once");
            if (r->expected) ++w.inline_calls;
            if (dead) SCHED_CHECK(r->calls == 0, "called without a stop state");
            if (move) { t.x = std::stop_token(); t.state = -1; }
            put(slot, cb, r);
            destroy(cb, r);
        }

        void destroy(Callback* cb, Record* r)
        {
            if (!cb) return;
            const bool self = r->running && r->runner == number;
            if (self) ++w.selfs;
            r->inside_end = self;
            r->ending = true;
            delete cb;
            if (!self) SCHED_CHECK(!r->running, "callback ", r->id, " runs after it was destroyed");
            SCHED_CHECK(r->functors == 0);
            r->ended = true;
        }

        // Destroys a callback in a slot. Within a callback it must be one of the same state: another could wait for this one.
        void take(size_t slot, int only)
        {
            Callback* cb = nullptr;
            Record* r = nullptr;
            {
                Slot& sl = w.slots[slot];
                std::lock_guard<std::mutex> l(sl.m);
                if (only >= 0 && sl.r && sl.r->state != only) return;
                std::swap(sl.cb, cb);
                std::swap(sl.r, r);
            }
            destroy(cb, r);
        }

        void take_record(Record* which)
        {
            for (auto& sl : w.slots)
            {
                Callback* cb = nullptr;
                Record* r = nullptr;
                {
                    std::lock_guard<std::mutex> l(sl.m);
                    if (sl.r != which) continue;
                    std::swap(sl.cb, cb);
                    std::swap(sl.r, r);
                }
                destroy(cb, r);
                return;
            }
        }

        template <class T>
        T* any(std::vector<T>& v, Program& p) { return v.empty() ? nullptr : &v[p.below(v.size())]; }

        void run()
        {
            while (prog.more()) step(prog, -1, nullptr);
        }

        void step(Program& p, int inside, Record* self)
        {
            switch (p.below(24))
            {
            case 0: case 1:
                if (auto* t = any(tokens, p)) tokens.push_back(Token(*t));
                break;
            case 2:
                if (auto* s = any(sources, p)) tokens.push_back(Token{ s->x.get_token(), s->state });
                break;
            case 3:
                if (auto* s = any(sources, p))
                {
                    if (s->state >= 0) ++w.of(s->state).sources_upper;
                    sources.push_back(Source(*s));
                }
                break;
            case 4: case 5:
                if (!tokens.empty()) { size_t i = p.below(tokens.size()); std::swap(tokens[i], tokens.back()); tokens.pop_back(); }
                break;
            case 6: case 7:
                if (!sources.empty()) { size_t i = p.below(sources.size()); drop(sources[i]); sources.erase(sources.begin() + static_cast<std::ptrdiff_t>(i)); }
                break;
            case 8:
            {
                // Copies, moves, swaps of tokens, also to themselves.
                auto* a = any(tokens, p);
                auto* b = any(tokens, p);
                if (!a) break;
                switch (p.below(3))
                {
                case 0: a->x = b->x; a->state = b->state; break;
                case 1:
                {
                    const bool same = a == b;
                    a->x = std::move(b->x);
                    a->state = b->state;
                    if (!same) { SCHED_CHECK(!b->x.stop_possible()); b->state = -1; }
                    break;
                }
                default: a->x.swap(b->x); std::swap(a->state, b->state);
                }
                check_token(*a);
                check_token(*b);
                break;
            }
            case 9:
            {
                auto* a = any(sources, p);
                auto* b = any(sources, p);
                if (!a) break;
                switch (p.below(3))
                {
                case 0:
                {
                    const int old = a->state;
                    if (b->state >= 0) ++w.of(b->state).sources_upper;
                    a->x = b->x;
                    a->state = b->state;
                    if (old >= 0) --w.of(old).sources_upper;
                    break;
                }
                case 1:
                {
                    const bool same = a == b;
                    const int old = a->state;
                    a->x = std::move(b->x);
                    a->state = b->state;
                    if (!same)
                    {
                        SCHED_CHECK(!b->x.stop_possible());
                        b->state = -1;
                        if (old >= 0) --w.of(old).sources_upper;
                    }
                    break;
                }
                default: a->x.swap(b->x); std::swap(a->state, b->state);
                }
                check_source(*a);
                check_source(*b);
                break;
            }
            case 10: case 11:
                if (auto* t = any(tokens, p)) check_token(*t);
                if (auto* s = any(sources, p)) check_source(*s);
                break;
            case 12:
            {
                auto* a = any(tokens, p);
                auto* b = any(tokens, p);
                if (a) { SCHED_CHECK((a->x == b->x) == (a->state == b->state)); SCHED_CHECK((a->x != b->x) == (a->state != b->state)); }
                auto* c = any(sources, p);
                auto* d = any(sources, p);
                if (c) { SCHED_CHECK((c->x == d->x) == (c->state == d->state)); SCHED_CHECK((c->x != d->x) == (c->state != d->state)); }
                break;
            }
            case 13: case 14: case 15: case 16:
                if (auto* t = any(tokens, p))
                {
                    if (inside >= 0 && t->state != inside) break;
                    if (depth > 3) break;
                    Program plan;
                    if (!plans.empty() && p.chance(3, 4)) { plan = std::move(plans.back()); plans.pop_back(); }
                    size_t slot = p.below(w.slots.size());
                    if (inside >= 0)
                    {
                        // What is there must not be destroyed.
                        std::lock_guard<std::mutex> l(w.slots[slot].m);
                        if (w.slots[slot].r && w.slots[slot].r->state != inside) break;
                    }
                    const bool move = p.chance(1, 3);
                    const bool refuse = p.chance(1, 12);
                    // The vectors can change while the callback is being made.
                    Token copy = *t;
                    if (move) { std::swap(*t, tokens.back()); tokens.pop_back(); }
                    if (inside < 0) make(copy, slot, move, refuse, std::move(plan));
                    else make_inside(copy, slot, move, refuse, std::move(plan));
                }
                break;
            case 17: case 18: case 19:
                take(p.below(w.slots.size()), inside);
                break;
            case 20:
                if (self) take_record(self);
                else if (auto* s = any(sources, p)) { Source copy = *s; if (s->state >= 0) ++w.of(s->state).sources_upper; request(copy); drop(copy); }
                break;
            case 21:
                if (auto* s = any(sources, p))
                {
                    if (s->state >= 0) ++w.of(s->state).sources_upper;
                    Source copy = *s;
                    if (depth <= 3 && p.chance(1, 2)) request(copy);
                    drop(copy);
                }
                break;
            case 22:
            {
                auto& k = w.sources[p.below(w.sources.size())];
                std::lock_guard<std::mutex> l(k.m);
                if (k.v) { sources.push_back(std::move(*k.v)); k.v.reset(); }
                else if (!sources.empty()) { k.v.emplace(std::move(sources.back())); sources.pop_back(); }
                break;
            }
            default:
            {
                auto& k = w.tokens[p.below(w.tokens.size())];
                std::lock_guard<std::mutex> l(k.m);
                if (k.v) { tokens.push_back(std::move(*k.v)); k.v.reset(); }
                else if (!tokens.empty()) { k.v.emplace(std::move(tokens.back())); tokens.pop_back(); }
                break;
            }
            }
            pause_a_bit(p.below(8));
        }

        // As make(), but the one replaced is left alone if it is of another state.
        void make_inside(Token& t, size_t slot, bool move, bool refuse, Program plan)
        {
            ++depth;
            Record* r = new_record(t.state, std::move(plan));
            r->expected = true;     // we are inside of a call, so the stop has been requested
            Callback* cb = nullptr;
            try
            {
                if (move) cb = new Callback(std::move(t.x), Functor::Make{ r, refuse });
                else cb = new Callback(t.x, Functor::Make{ r, refuse });
            }
            catch (const Refuse&)
            {
                r->ended = true;
                --depth;
                return;
            }
            r->made = true;
            SCHED_CHECK(r->calls == 1 && r->runner == number, "a stop had been requested, but the callback was not called at once");
            ++w.inline_calls;
            Slot& sl = w.slots[slot];
            {
                std::lock_guard<std::mutex> l(sl.m);
                if (!sl.cb) { sl.cb = cb; sl.r = r; cb = nullptr; }
            }
            if (cb) destroy(cb, r);
            --depth;
        }
    };

    inline thread_local Local* local = nullptr;

    void Functor::operator()()
    {
        SCHED_CHECK(*canary == 42, "called after it was destroyed");
        Record& rec = *r;
        World& wd = *rec.w;
        SCHED_CHECK(!rec.ended, "called after it was destroyed");
        SCHED_CHECK(++rec.calls == 1, "callback ", rec.id, " was called twice");
        ++wd.calls;
        rec.runner = number;
        rec.running = true;
        SCHED_CHECK(rec.state >= 0);
        State& st = wd.of(rec.state);
        SCHED_CHECK(st.requests_begun > 0, "a stop was not requested");
        // In the thread that requests the stop, or in the one that made it.
        bool here = rec.maker == number && !rec.made;
        if (requesting) for (int x : *requesting) if (x == rec.state) here = true;
        SCHED_CHECK(here, "callback ", rec.id, " is called by a strange thread");
        if (rec.ending && !rec.inside_end) ++wd.concurrent;
        Program plan = std::move(rec.plan);
        if (local)
        {
            ++local->depth;
            while (plan.more()) local->step(plan, rec.state, &rec);
            --local->depth;
        }
        // The functor can be gone by now.
        rec.running = false;
    }
}

PBT_THREADED(stop_tokens, 16000, 250000)
{
    World w;
    const size_t states = 1 + s.below(2);
    const size_t threads = s.chance(1, 8) ? 1 : 2 + s.below(3);
    std::deque<Local> locals;
    {
        std::vector<Source> first;
        for (size_t i = 0; i < states; ++i)
        {
            w.states.emplace_back();
            ++w.states.back().sources_upper;
            watch::Scope scope;
            first.push_back(Source{ std::stop_source(), static_cast<int>(i) });
        }
        first.push_back(Source{ std::stop_source(std::nostopstate), -1 });
        for (size_t t = 0; t < threads; ++t)
        {
            locals.emplace_back(w);
            Local& l = locals.back();
            for (auto& f : first)
            {
                if (s.chance(2, 3))
                {
                    l.sources.push_back(f);
                    if (f.state >= 0) ++w.of(f.state).sources_upper;
                }
                if (s.chance(2, 3)) l.tokens.push_back(Token{ f.x.get_token(), f.state });
            }
            if (s.chance(1, 6)) l.tokens.push_back(Token{ std::stop_token(), -1 });
            l.prog = Program(s, threads == 1 ? 20 + s.length(150) : 20 + s.below(60) + s.length(60));
            const size_t plans = s.below(7);
            for (size_t i = 0; i < plans; ++i) l.plans.push_back(Program(s, 1 + s.length(14)));
        }
        for (auto& f : first) locals[0].drop(f);
    }
    in_threads(s, threads, [&](size_t i)
    {
        number = i + 1;
        local = &locals[i];
        locals[i].run();
        local = nullptr;
        number = 0;
    });
    // The rest is destroyed, in any order.
    number = 100;
    for (auto& sl : w.slots)
    {
        if (s.flag()) locals[0].destroy(std::exchange(sl.cb, nullptr), sl.r);
    }
    for (auto& l : locals)
    {
        for (auto& x : l.sources) l.drop(x);
        l.sources.clear();
        for (auto& t : l.tokens) l.check_token(t);
        l.tokens.clear();
    }
    for (auto& k : w.sources) if (k.v) { locals[0].drop(*k.v); k.v.reset(); }
    for (auto& k : w.tokens) k.v.reset();
    for (auto& sl : w.slots) if (sl.cb) locals[0].destroy(sl.cb, sl.r);
    for (auto& r : w.records) PBT_CHECK(r.ended && r.functors == 0 && !r.running);
    for (auto& st : w.states) PBT_CHECK(st.sources_upper == 0 && st.wins <= 1 && (st.returned ? st.wins == 1 : st.wins == 0));
    PBT_CHECK(watch::count == 0, "the stop state is leaked");
    if (w.calls) s.label("callbacks called");
    if (w.inline_calls) s.label("callbacks called by their constructors");
    if (w.concurrent) s.label("callbacks destroyed while being called");
    if (w.selfs) s.label("callbacks destroying themselves");
    if (w.calls + w.inline_calls > 0 && w.records.size() > 2) s.nontrivial();
}

#endif

#if PART == 2

namespace
{
    using Clock = std::chrono::steady_clock;
    using std::chrono::nanoseconds;

    constexpr nanoseconds huge{ 1000000000000000 };

    // A lock that knows its owner.
    class Lock
    {
    public:
        void lock()
        {
            m.lock();
            SCHED_CHECK(!held);
            held = true;
            owner = real_id();
        }
        bool try_lock()
        {
            if (!m.try_lock()) return false;
            held = true;
            owner = real_id();
            return true;
        }
        void unlock()
        {
            SCHED_CHECK(mine(), "the lock is not owned");
            held = false;
            m.unlock();
        }
        bool mine() const { return held && owner == real_id(); }
    private:
        std::mutex m;
        RealAtomic<bool> held{ false };
        RealAtomic<RealId> owner{};
    };

    // Passed to wait(): has lock() and unlock() of a locked unique_lock.
    using Guard = std::unique_lock<Lock>;

    struct Shop
    {
        Lock lock;
        std::condition_variable_any2 cv;
        size_t units = 0;
        RealAtomic<size_t> waits{ 0 }, stops{ 0 }, timeouts{ 0 }, blocked{ 0 }, failed{ 0 };
    };

    struct Ask
    {
        int kind = 0;           // 0: plain, 1: with a token, 2: timed, 3: timed with a token
        bool pred = true;
        bool raw_lock = false;  // passes the lock itself, not a guard
        nanoseconds time{};
        bool relative = false;
        size_t pause = 0;
        size_t fail_at = 0;     // the evaluation of the predicate that throws, 0: none
    };

    struct PredicateFails {};

    // Takes a unit, or gives up. Returns false if it gave up.
    bool take(Shop& shop, const Ask& a, std::stop_token token)
    {
        Guard g(shop.lock);
        ++shop.waits;
        const auto deadline = Clock::now() + a.time;
        size_t evaluated = 0, fail_at = a.fail_at;
        bool last = false;
        auto pred = [&]
        {
            SCHED_CHECK(shop.lock.mine(), "the predicate is called without the lock");
            if (++evaluated == fail_at)
            {
                fail_at = 0;
                throw PredicateFails();
            }
            last = shop.units > 0;
            return last;
        };
        bool got;
        auto wait = [&](auto& l)
        {
            switch (a.kind)
            {
            case 0:
                if (a.pred) { shop.cv.wait(l, pred); got = true; SCHED_CHECK(last); }
                else
                {
                    while (shop.units == 0) { shop.cv.wait(l); SCHED_CHECK(shop.lock.mine()); }
                    got = true;
                }
                break;
            case 1:
            {
                const bool before = token.stop_requested();
                got = shop.cv.wait(l, token, pred);
                SCHED_CHECK(got == last && evaluated > 0);
                if (!got) SCHED_CHECK(token.stop_requested(), "gave up without a stop");
                if (before) SCHED_CHECK(evaluated <= 2);
                break;
            }
            case 2:
                if (a.pred)
                {
                    got = a.relative ? shop.cv.wait_for(l, a.time, pred) : shop.cv.wait_until(l, deadline, pred);
                    SCHED_CHECK(got == last && evaluated > 0);
                    if (!got) SCHED_CHECK(Clock::now() >= deadline, "gave up too early");
                }
                else
                {
                    got = true;
                    while (shop.units == 0)
                    {
                        const auto st = a.relative ? shop.cv.wait_for(l, a.time) : shop.cv.wait_until(l, deadline);
                        SCHED_CHECK(shop.lock.mine());
                        if (st == std::cv_status::timeout)
                        {
                            SCHED_CHECK(Clock::now() >= deadline, "gave up too early");
                            got = shop.units > 0;
                            break;
                        }
                    }
                }
                break;
            default:
                got = a.relative ? shop.cv.wait_for(l, token, a.time, pred) : shop.cv.wait_until(l, token, deadline, pred);
                SCHED_CHECK(got == last && evaluated > 0);
                if (!got) SCHED_CHECK(token.stop_requested() || Clock::now() >= deadline, "gave up too early");
            }
        };
        for (bool again = true; again; )
        {
            again = false;
            try
            {
                if (a.raw_lock) wait(shop.lock);
                else wait(g);
            }
            catch (const PredicateFails&)
            {
                SCHED_CHECK(shop.lock.mine() && g.owns_lock(), "an exception of the predicate has lost the lock");
                ++shop.failed;
                evaluated = 0;
                again = true;
            }
        }
        SCHED_CHECK(shop.lock.mine(), "a wait has returned without the lock");
        SCHED_CHECK(g.owns_lock());
        if (evaluated > 1) ++shop.blocked;
        SCHED_CHECK(got == (shop.units > 0), "the result is not that of the predicate");
        if (got) --shop.units;
        else if (a.kind == 2 || !token.stop_requested()) ++shop.timeouts;
        else ++shop.stops;
        return got;
    }

    void post(Shop& shop, bool all, bool within)
    {
        std::unique_lock<Lock> g(shop.lock);
        ++shop.units;
        if (!within) g.unlock();
        if (all) shop.cv.notify_all();
        else shop.cv.notify_one();
    }

    Ask draw_ask(pbt::Src& s, bool no_timeout)
    {
        Ask a;
        a.kind = static_cast<int>(s.below(4));
        a.pred = s.flag();
        a.raw_lock = s.chance(1, 3);
        a.relative = s.flag();
#ifdef REAL_THREADS
        (void)no_timeout;
        a.time = nanoseconds(s.pick({ 0, 1000, 50000, 300000 }));
#else
        a.time = no_timeout ? huge : nanoseconds(s.pick({ 0, 5, 50, 1000, 100000 }));
#endif
        a.pause = s.draw(3);
        if (s.chance(1, 4)) a.fail_at = 1 + s.below(3);
        return a;
    }
}

#ifdef REAL_THREADS
#define CASES(n) ((n) / 4)
#else
#define CASES(n) (n)
#endif

PBT_THREADED(condition_variables, CASES(12000), CASES(200000))
{
    // Every plain wait needs a unit; what the others get they give back.
    const bool no_timeout = s.flag();
    const size_t takers = 1 + s.below(4), posters = 1 + s.below(2), stoppers = s.below(3);
    std::vector<std::vector<Ask>> asks(takers);
    std::vector<size_t> source_of(takers);
    size_t needed = 0;
    for (size_t i = 0; i < takers; ++i)
    {
        const size_t n = 1 + s.length(5);
        for (size_t k = 0; k < n; ++k)
        {
            asks[i].push_back(draw_ask(s, no_timeout));
            if (asks[i].back().kind == 0) ++needed;
            else if (asks[i].back().kind == 2 && no_timeout) ++needed;
        }
        source_of[i] = s.below(2);
    }
    struct Post { bool all, within; size_t pause; };
    std::vector<std::vector<Post>> posts(posters);
    for (size_t k = 0; k < needed; ++k) posts[s.below(posters)].push_back(Post{ s.chance(1, 5), s.flag(), s.draw(3) });
    std::vector<std::pair<size_t, size_t>> stops;
    for (size_t k = 0; k < stoppers; ++k) stops.emplace_back(s.below(2), s.draw(10));
    const bool locked_stop = s.chance(1, 4);

    std::array<std::stop_source, 2> sources;
    Shop shop;
    bool late = false;
    RealAtomic<size_t> finished{ 0 };
    in_threads(s, takers + posters + stoppers + 1, [&](size_t i)
    {
        if (i < takers)
        {
            for (auto& a : asks[i])
            {
                pause_a_bit(a.pause);
                const bool keeps = a.kind == 0 || (a.kind == 2 && no_timeout);
                const bool got = take(shop, a, sources[source_of[i]].get_token());
#ifndef REAL_THREADS
                if (keeps) SCHED_CHECK(got, "waited till the end of time: a notification is lost");
#endif
                if (got && !keeps) post(shop, false, a.pred);
                if (!got && keeps) {}
            }
            ++finished;
        }
        else if (i < takers + posters)
        {
            for (auto& p : posts[i - takers]) { pause_a_bit(p.pause); post(shop, p.all, p.within); }
        }
        else if (i < takers + posters + stoppers)
        {
            auto& st = stops[i - takers - posters];
            pause_a_bit(st.second);
            sources[st.first].request_stop();
        }
        else
        {
            // All that wait with a token are stopped in the end.
            pause_a_bit(20);
            for (auto& x : sources)
            {
                if (locked_stop) { std::unique_lock<Lock> g(shop.lock); x.request_stop(); }
                else x.request_stop();
            }
        }
#ifndef REAL_THREADS
        if (no_timeout && Clock::now().time_since_epoch() >= huge) late = true;
#endif
    }, no_timeout);
    PBT_CHECK(finished == takers);
#ifndef REAL_THREADS
    // The units are neither lost nor made.
    PBT_CHECK(shop.units == 0, shop.units);
    PBT_CHECK(!late, "waited till the end of time: a stop or a notification is lost");
#else
    PBT_CHECK(no_timeout || shop.units == 0, shop.units);
#endif
    if (shop.blocked) s.label("waits that were blocked");
    if (shop.failed) s.label("predicates that threw");
    if (shop.stops) s.label("waits ended by a stop");
    if (shop.timeouts) s.label("waits ended by a timeout");
    if (takers > 1 && shop.blocked) s.nontrivial();
}

PBT_THREADED(condition_variable_is_destroyed, CASES(4000), CASES(60000))
{
    // It can be destroyed when all that wait have been notified.
    const size_t n = 1 + s.below(4);
    std::vector<int> kinds;
    for (size_t i = 0; i < n; ++i) kinds.push_back(static_cast<int>(s.below(4)));
    std::vector<size_t> pauses;
    for (size_t i = 0; i <= n; ++i) pauses.push_back(s.draw(7));
    const bool locked = s.flag();
    Lock lock;
    auto cv = std::make_unique<std::condition_variable_any2>();
    size_t waiting = 0;
    bool ready = false;
    std::condition_variable_any2* p = cv.get();
    std::stop_source source;
    RealAtomic<size_t> out{ 0 };
    in_threads(s, n + 1, [&](size_t i)
    {
        if (i < n)
        {
            pause_a_bit(pauses[i]);
            Guard g(lock);
            ++waiting;
            auto pred = [&] { SCHED_CHECK(lock.mine()); return ready; };
            switch (kinds[i])
            {
            case 0: p->wait(g, pred); break;
            case 1: p->wait(g, source.get_token(), pred); break;
            case 2: SCHED_CHECK(p->wait_for(g, huge, pred)); break;
            default: SCHED_CHECK(p->wait_for(g, source.get_token(), huge, pred));
            }
            SCHED_CHECK(ready && lock.mine());
            ++out;
        }
        else
        {
            for (;;)
            {
                pause_a_bit(pauses[n] + 1);
                Guard g(lock);
                if (waiting != n)
                {
                    g.unlock();
                    std::this_thread::yield();
                    continue;
                }
                ready = true;
                if (locked)
                {
                    cv->notify_all();
                    cv.reset();
                }
                else
                {
                    g.unlock();
                    cv->notify_all();
                    cv.reset();
                }
                break;
            }
        }
    }, true);
    PBT_CHECK(out == n);
    if (n > 1) s.nontrivial();
}

namespace
{
    // What is known of a thread.
    struct Known
    {
        RealAtomic<bool> started{ false }, finished{ false };
        RealAtomic<size_t> starts{ 0 };
        bool requested = false;
        bool endless = false;       // ends only when it is stopped
        bool detached = false;
        std::stop_token token;
        RealAtomic<RealId> id{};
        int64_t value = 0;
        std::stop_source source{ std::nostopstate };
    };

    // Counts the functors and arguments.
    struct Luggage
    {
        RealAtomic<int>* live;
        std::unique_ptr<int> canary{ new int(1) };
        explicit Luggage(RealAtomic<int>* l) : live(l) { ++*live; }
        Luggage(const Luggage& o) : live(o.live) { SCHED_CHECK(*o.canary == 1); ++*live; }
        Luggage(Luggage&& o) : live(o.live) { ++*live; }
        ~Luggage() { --*live; }
        bool good() const { return canary && *canary == 1; }
    };

    struct Body
    {
        Known* k;
        int what;
        Shop* shop;
        Luggage luggage;
        size_t pause;

        void begin() const
        {
            SCHED_CHECK(luggage.good());
            SCHED_CHECK(++k->starts == 1);
            k->id = real_id();
            k->started = true;
        }
        void end() const
        {
            pause_a_bit(pause);
            k->finished = true;
        }
        // Called with the token.
        void operator()(std::stop_token t) const
        {
            begin();
            SCHED_CHECK(t.stop_possible());
            switch (what)
            {
            case 0:
                break;
            case 1:
                while (!t.stop_requested()) std::this_thread::yield();
                break;
            case 2:
            {
                Guard g(shop->lock);
                const bool r = shop->cv.wait(g, t, [] { return false; });
                SCHED_CHECK(!r && t.stop_requested());
                break;
            }
            case 3:
            {
                // A thread of a thread.
                RealAtomic<bool> over{ false };
                {
                    std::jthread inner([&](std::stop_token x)
                    {
                        Guard g(shop->lock);
                        shop->cv.wait(g, x, [] { return false; });
                        over = true;
                    });
                    while (!t.stop_requested()) std::this_thread::yield();
                }
                SCHED_CHECK(over, "the inner thread is not over");
                break;
            }
            default:
            {
                RealAtomic<bool> called{ false };
                std::stop_callback cb(t, [&] { called = true; });
                while (!called) std::this_thread::yield();
                SCHED_CHECK(t.stop_requested());
            }
            }
            end();
        }
    };

    struct PlainBody
    {
        Body b;
        void operator()() const
        {
            b.begin();
            b.end();
        }
    };

    struct ArgBody
    {
        Body b;
        void operator()(std::stop_token t, std::unique_ptr<int> p, Luggage l, const std::string& text, int& ref) const
        {
            SCHED_CHECK(p && *p == 7 && l.good() && text == "text");
            ref = 5;
            b(t);
        }
    };
    struct PlainArgBody
    {
        Body b;
        void operator()(std::unique_ptr<int> p, Luggage l, const std::string& text, int& ref) const
        {
            SCHED_CHECK(p && *p == 7 && l.good() && text == "text");
            ref = 6;
            b.begin();
            b.end();
        }
    };

    struct Threads
    {
        struct Slot
        {
            std::jthread t;
            Known* k = nullptr;        // the stop state it refers to
            bool joinable = false;
        };
        std::deque<Known> all;
        Shop shop;
        std::array<Slot, 3> slots;
        RealAtomic<int> luggage{ 0 };
        std::deque<int> refs;
        size_t joined = 0, moved = 0, detached = 0;

        std::jthread make(Program& p, Known*& out)
        {
            all.emplace_back();
            Known* k = &all.back();
            out = k;
            const int what = static_cast<int>(p.below(5));
            const size_t pause = p.below(8);
            Luggage l(&luggage);
            Body b{ k, what, &shop, l, pause };
            std::jthread t;
            switch (p.below(5))
            {
            case 0: t = std::jthread(PlainBody{ b }); break;
            case 1:
                refs.push_back(0);
                t = std::jthread(PlainArgBody{ b }, std::make_unique<int>(7), l, "text", std::ref(refs.back()));
                break;
            case 2:
                refs.push_back(0);
                k->endless = what != 0;
                t = std::jthread(ArgBody{ b }, std::make_unique<int>(7), std::move(l), std::string("text"), std::ref(refs.back()));
                break;
            case 3:
                k->endless = what != 0;
                t = std::jthread(b);
                break;
            default:
                k->endless = what != 0;
                t = std::jthread(std::move(b));
            }
            k->token = t.get_stop_token();
            SCHED_CHECK(t.joinable() && k->token.stop_possible() && !k->token.stop_requested());
            SCHED_CHECK(t.get_id() != RealId() && t.get_id() != real_id());
            return t;
        }

        void over(Known* k, bool stopped)
        {
            SCHED_CHECK(k->finished && k->starts == 1, "the thread is not over");
            ++joined;
            if (stopped) { SCHED_CHECK(k->token.stop_requested(), "not stopped"); k->requested = true; }
            else SCHED_CHECK(k->token.stop_requested() == k->requested);
        }

        void check(Slot& x)
        {
            SCHED_CHECK(x.t.joinable() == x.joinable);
            SCHED_CHECK((x.t.get_id() != RealId()) == x.joinable);
            auto tok = x.t.get_stop_token();
            auto src = x.t.get_stop_source();
            if (!x.k) SCHED_CHECK(!tok.stop_possible() && !src.stop_possible() && !src.stop_requested());
            else
            {
                SCHED_CHECK(tok == x.k->token && tok == src.get_token());
                SCHED_CHECK(tok.stop_requested() == x.k->requested);
                if (x.joinable && x.k->started) SCHED_CHECK(x.t.get_id() == x.k->id);
            }
        }

        void run(Program p)
        {
            while (p.more())
            {
                Slot& a = slots[p.below(slots.size())];
                Slot& b = slots[p.below(slots.size())];
                switch (p.below(10))
                {
                case 0: case 1:
                {
                    Known* k = nullptr;
                    std::jthread t = make(p, k);
                    Known* old = a.joinable ? a.k : nullptr;
                    a.t = std::move(t);
                    if (old) over(old, true);
                    SCHED_CHECK(!t.joinable() && !t.get_stop_source().stop_possible());
                    a.k = k;
                    a.joinable = true;
                    ++moved;
                    break;
                }
                case 2:
                {
                    if (&a == &b) break;
                    Known* old = a.joinable ? a.k : nullptr;
                    a.t = std::move(b.t);
                    if (old) over(old, true);
                    a.k = std::exchange(b.k, nullptr);
                    a.joinable = std::exchange(b.joinable, false);
                    ++moved;
                    break;
                }
                case 3:
                    if (p.chance(1, 2)) a.t.swap(b.t);
                    else std::swap(a.t, b.t);
                    std::swap(a.k, b.k);
                    std::swap(a.joinable, b.joinable);
                    break;
                case 4:
                {
                    // A temporary one is destroyed.
                    std::jthread t(std::move(a.t));
                    Known* k = std::exchange(a.k, nullptr);
                    const bool j = std::exchange(a.joinable, false);
                    SCHED_CHECK(t.joinable() == j);
                    if (k) SCHED_CHECK(t.get_stop_token() == k->token);
                    check(a);
                    t.~jthread();
                    new (&t) std::jthread;
                    if (j) over(k, true);
                    ++moved;
                    break;
                }
                case 5:
                {
                    const bool r = a.t.request_stop();
                    SCHED_CHECK(r == (a.k && !a.k->requested));
                    if (a.k) a.k->requested = true;
                    break;
                }
                case 6:
                    if (a.joinable)
                    {
                        if (a.k->endless && !a.k->requested) break;
                        a.t.join();
                        a.joinable = false;
                        over(a.k, false);
                    }
                    else
                    {
                        bool thrown = false;
                        try { a.t.join(); }
                        catch (const std::system_error&) { thrown = true; }
                        SCHED_CHECK(thrown);
                    }
                    break;
                case 7:
                    if (a.joinable)
                    {
                        // Stopped in the end with this source.
                        a.k->source = a.t.get_stop_source();
                        a.k->detached = true;
                        a.t.detach();
                        a.joinable = false;
                        ++detached;
                    }
                    break;
                case 8:
                {
                    // Given up by another thread.
                    if (!a.joinable) break;
                    Known* k = a.k;
                    std::thread other([t = std::move(a.t)]() mutable { std::jthread x = std::move(t); });
                    other.join();
                    over(k, true);
                    a.k = nullptr;
                    a.joinable = false;
                    break;
                }
                default:
                    pause_a_bit(p.below(5));
                }
                check(a);
                check(b);
            }
            for (auto& k : all)
            {
                if (k.detached) { k.source.request_stop(); k.requested = true; while (!k.finished) std::this_thread::yield(); }
            }
            for (auto& x : slots)
            {
                x.t = std::jthread();
                if (x.joinable) over(x.k, true);
            }
            for (auto& k : all) SCHED_CHECK(k.finished && k.starts == 1);
        }
    };
}

PBT_THREADED(joining_threads, CASES(10000), CASES(160000))
{
    Program p(s, 8 + s.below(30) + s.length(60));
    Threads t;
#ifdef REAL_THREADS
    t.run(p);
    while (t.luggage != 0) std::this_thread::yield();   // of the detached ones
#else
    in_threads(s, 1, [&](size_t) { t.run(p); });
#endif
    PBT_CHECK(t.luggage == 0, "copies of the functors and arguments are lost ", t.luggage.load());
    for (int r : t.refs) PBT_CHECK(r == 5 || r == 6);
    if (t.joined) s.label("joined");
    if (t.detached) s.label("detached");
    if (t.all.size() > 2 && t.joined > 1 && t.moved) s.nontrivial();
}

#endif

#if PART == 3

#include "Awl/Sleep.h"
#include "Awl/WatchDog.h"

namespace
{
    using Clock = std::chrono::steady_clock;
    using std::chrono::nanoseconds;

    constexpr nanoseconds huge{ 1000000000000000 };
    constexpr nanoseconds none{ -1 };

    nanoseconds now() { return Clock::now().time_since_epoch(); }
}

PBT_THREADED(interruptible_sleep, 12000, 200000)
{
    // Sleepers and those who wake them up.
    const bool forever = s.flag();
    const size_t sleepers = 1 + s.below(3), sources = 1 + s.below(2), stoppers = 1 + s.below(2);
    struct Nap { size_t source, pause; nanoseconds time; int unit; };
    std::vector<std::vector<Nap>> naps(sleepers);
    for (auto& v : naps)
    {
        const size_t n = 1 + s.below(3);
        for (size_t i = 0; i < n; ++i) v.push_back(Nap{ s.below(sources + 1), s.draw(5), forever ? huge : nanoseconds(s.pick({ 0, -5, 1, 20, 300, 5000, 100000 })), static_cast<int>(s.below(2)) });
        // Nobody wakes the ones that have no source.
        if (forever) for (auto& x : v) x.source %= sources;
    }
    std::vector<std::pair<size_t, size_t>> stops;
    for (size_t i = 0; i < stoppers; ++i) stops.emplace_back(s.below(sources), s.draw(12));
    std::vector<std::stop_source> src(sources);
    RealAtomic<size_t> interrupted{ 0 }, full{ 0 }, over{ 0 };
    in_threads(s, sleepers + stoppers + 1, [&](size_t i)
    {
        if (i < sleepers)
        {
            for (auto& n : naps[i])
            {
                pause_a_bit(n.pause);
                std::stop_token token;
                if (n.source < sources) token = src[n.source].get_token();
                const auto begin = now();
                if (n.unit == 0) awl::sleep_for(n.time, token);
                else awl::sleep_for(std::chrono::duration<double, std::micro>(static_cast<double>(n.time.count()) / 1000.0), token);
                const auto end = now();
                if (end - begin < n.time)
                {
                    // A microsecond in a double can be rounded.
                    if (!(n.unit == 1 && end - begin + nanoseconds(2) >= n.time)) SCHED_CHECK(token.stop_requested(), "woken too early");
                    ++interrupted;
                }
                else ++full;
            }
            ++over;
        }
        else if (i < sleepers + stoppers)
        {
            auto& st = stops[i - sleepers];
            pause_a_bit(st.second);
            src[st.first].request_stop();
        }
        else
        {
            pause_a_bit(16);
            for (auto& x : src) x.request_stop();
        }
    }, forever);
    PBT_CHECK(over == sleepers);
#ifndef REAL_THREADS
    if (forever) PBT_CHECK(full == 0, "slept on though a stop was requested");
#endif
    if (interrupted) s.label("interrupted");
    if (full) s.label("not interrupted");
    if (interrupted && sleepers > 1) s.nontrivial();
}

PBT_THREADED(watch_dogs, 10000, 160000)
{
    // Dogs that watch for a time, the user can cancel, and a dog can be sent away.
    const bool forever = s.chance(1, 3);
    const size_t dogs = 1 + s.below(2), users = s.below(3);
    struct Plan { nanoseconds timeout; size_t pause, polls; bool wait_for_stop, before; int log; };
    std::vector<Plan> plans;
    for (size_t i = 0; i < dogs; ++i)
    {
        plans.push_back(Plan{ forever ? huge : nanoseconds(s.pick({ 0, 1, 30, 300, 5000 })), s.draw(7), s.draw(12), s.flag(), s.chance(1, 8), static_cast<int>(s.below(3)) });
    }
    std::vector<size_t> pauses;
    for (size_t i = 0; i < users + 1; ++i) pauses.push_back(s.draw(12));
    std::stop_source user;
    RealAtomic<bool> cancelled{ false }, requested{ false };
    RealAtomic<size_t> logs{ 0 }, quiet{ 0 }, by_user{ 0 }, over{ 0 };
    const bool cancel = forever || s.flag();
    in_threads(s, dogs + users + 1, [&](size_t i)
    {
        if (i < dogs)
        {
            const Plan& p = plans[i];
            pause_a_bit(p.pause);
            size_t logged = 0;
            RealAtomic<bool> alive{ true };
            std::stop_token token;
            bool seen = false;
            nanoseconds begin = now(), gone;
            {
                // The log has a state of its own.
                auto canary = std::make_shared<std::string>("a dog barks");
                RealAtomic<size_t> lg{ 0 };
                std::stop_token mine;
                RealAtomic<bool> early{ false };
                {
                    awl::watch_dog dog(user.get_token(), p.timeout, [canary, &lg, &alive, &early, &begin, &p]
                    {
                        SCHED_CHECK(alive, "a dog barks when it is gone");
                        SCHED_CHECK(*canary == "a dog barks");
                        if (now() - begin < p.timeout) early = true;
                        SCHED_CHECK(++lg == 1, "a dog barks twice");
                    });
                    canary.reset();
                    token = dog.get_token();
                    mine = dog.get_token();
                    SCHED_CHECK(token.stop_possible() && mine == token);
                    for (size_t k = 0; k < p.polls; ++k)
                    {
                        const bool known = cancelled;
                        const bool st = token.stop_requested();
                        // It is stopped by the user or by the time.
                        if (known) SCHED_CHECK(st, "cancelled, but not stopped");
                        if (st) { SCHED_CHECK(requested || lg == 1, "stopped without a reason"); seen = true; }
                        pause_a_bit(1);
                    }
                    if (p.wait_for_stop && (cancel || !forever))
                    {
                        while (!token.stop_requested()) std::this_thread::yield();
                        SCHED_CHECK(requested || lg == 1, "stopped without a reason");
                        seen = true;
                    }
                }
                alive = false;
                gone = now();
                SCHED_CHECK(token.stop_requested(), "a dog is gone, but nobody is stopped");
                SCHED_CHECK(!early, "a dog barks too early");
                logged = lg;
            }
            if (logged) ++logs; else ++quiet;
            if (seen && !logged) ++by_user;
            ++over;
        }
        else if (i < dogs + users)
        {
            pause_a_bit(pauses[i - dogs]);
            if (cancel)
            {
                requested = true;
                // If it is false, the other request can be under way.
                if (user.request_stop()) cancelled = true;
            }
        }
        else if (cancel)
        {
            pause_a_bit(pauses[users] + 4);
            requested = true;
            if (user.request_stop()) cancelled = true;
        }
    }, forever);
    PBT_CHECK(over == dogs);
#ifndef REAL_THREADS
    if (forever) PBT_CHECK(logs == 0, "a dog that was sent away keeps on watching");
#endif
    if (logs) s.label("barked");
    if (quiet) s.label("quiet");
    if (by_user) s.label("cancelled");
    if (logs + by_user) s.nontrivial();
}

#endif
