// Controlled concurrency. The code under test is compiled with the names of the standard synchronization primitives replaced
// by doubles (see the macros at the end): threads run one at a time, at every operation on a primitive the next one is drawn
// from the source of the case, and time is virtual. So a schedule is a part of the case: it replays exactly and shrinks,
// and a lost wakeup is a deadlock.
//
// Include this file after the standard headers and before the code under test.
#pragma once

#include "pbt.h"

#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#if defined(__x86_64__)
#include <immintrin.h>
#endif

#include <semaphore.h>
#include <unistd.h>

namespace sched
{
    constexpr uint64_t never = ~uint64_t(0);

    struct Thread
    {
        sem_t baton;
        std::thread real;
        std::thread::id id;
        size_t number = 0;
        bool done = false, blocked = false, timed_out = false, detached = false;
        uint64_t deadline = never;
        const void* on = nullptr;
        const char* what = "";

        Thread() { sem_init(&baton, 0, 0); }
        ~Thread() { sem_destroy(&baton); }
    };

    inline thread_local Thread* me = nullptr;

    // A failure in any thread ends the process, as the others cannot be unwound.
    [[noreturn]] inline void fail(const std::string& msg)
    {
        std::string t = "sched failure: " + msg + "\n";
        if (::write(2, t.data(), t.size())) {}
        std::abort();
    }

    class Scheduler
    {
    public:

        explicit Scheduler(pbt::Src& src) : s(src)
        {
            // How often the running thread is preempted.
            const unsigned rates[] = { 4, 2, 10, 40 };
            m_rate = rates[s.draw(3)];
            m_timers = s.flag() ? 60 : 12;
            m_spurious = s.flag() ? 0 : 15;
        }

        pbt::Src& s;

        // Time passes only when nobody can run.
        void lazy_time() { m_timers = 0; }

        uint64_t now() const { return m_now; }
        uint64_t steps() const { return m_steps; }
        uint64_t switches() const { return m_switches; }
        bool flag(unsigned den) { return den && s.chance(1, den); }
        bool spurious() { return flag(m_spurious); }

        // Runs f as the first thread and returns when all threads are over.
        template <class F>
        void run(F&& f)
        {
            current() = this;
            Thread* t = add();
            t->id = std::this_thread::get_id();
            me = t;
            f();
            // Detached threads.
            for (auto& x : m_threads) if (x.get() != t) while (!x->done) block(x.get(), "the end of a detached thread");
            t->done = true;
            me = nullptr;
            current() = nullptr;
            for (auto& x : m_threads) if (x->real.joinable()) x->real.join();
        }

        Thread* add()
        {
            m_threads.push_back(std::make_unique<Thread>());
            m_threads.back()->number = m_threads.size();
            return m_threads.back().get();
        }

        // A point where another thread can run.
        void point()
        {
            count();
            if (m_timers && timers() && (s.chance(1, m_timers) || ++m_untimely > 2000)) { m_untimely = 0; fire(false); }
            size_t others = 0;
            for (auto& t : m_threads) if (t.get() != me && runnable(*t)) ++others;
            if (others == 0) { m_stay = 0; return; }
            if (m_stay < 60 && !s.chance(1, m_rate)) { ++m_stay; return; }
            go(pick(others));
        }

        // The thread waits until someone calls wake() with the same object, or the deadline.
        // Returns false if it was the deadline.
        bool block(const void* on, const char* what, uint64_t deadline = never)
        {
            count();
            me->on = on;
            me->what = what;
            me->blocked = true;
            me->deadline = deadline;
            me->timed_out = false;
            if (me->deadline <= m_now) { me->blocked = false; me->on = nullptr; me->deadline = never; point(); return false; }
            for (;;)
            {
                size_t others = 0;
                for (auto& t : m_threads) if (t.get() != me && runnable(*t)) ++others;
                if (others != 0) { go(pick(others)); break; }
                fire(true);
                if (!me->blocked) break;
            }
            me->on = nullptr;
            me->deadline = never;
            return !me->timed_out;
        }

        void wake(const void* on)
        {
            for (auto& t : m_threads) if (t->blocked && t->on == on) t->blocked = false;
        }

        // Called by a thread that is over.
        void leave()
        {
            me->done = true;
            wake(static_cast<const void*>(me));
            for (;;)
            {
                size_t others = 0;
                for (auto& t : m_threads) if (runnable(*t)) ++others;
                if (others != 0) { Thread* n = pick(others); m_stay = 0; sem_post(&n->baton); return; }
                fire(true);
            }
        }

        void start(Thread* t) { wait(t); }

        static Scheduler*& current()
        {
            static Scheduler* p = nullptr;
            return p;
        }

    private:

        static bool runnable(const Thread& t) { return !t.done && !t.blocked; }

        bool timers() const
        {
            for (auto& t : m_threads) if (!t->done && t->blocked && t->deadline != never) return true;
            return false;
        }

        // Time passes up to the nearest deadline.
        void fire(bool necessary)
        {
            Thread* first = nullptr;
            for (auto& t : m_threads) if (!t->done && t->blocked && t->deadline != never && (!first || t->deadline < first->deadline)) first = t.get();
            if (!first)
            {
                if (!necessary) return;
                std::string all;
                for (auto& t : m_threads) if (!t->done) all += pbt::str(all.empty() ? "" : ", ", "thread ", t->number, " waits for ", t->what);
                fail("deadlock: " + all);
            }
            m_now = std::max(m_now, first->deadline);
            first->blocked = false;
            first->timed_out = true;
        }

        Thread* pick(size_t n)
        {
            size_t k = s.below(n);
            for (auto& t : m_threads) if (t.get() != me && runnable(*t) && k-- == 0) return t.get();
            fail("the scheduler is broken");
        }

        void go(Thread* t)
        {
            m_stay = 0;
            ++m_switches;
            Thread* self = me;
            sem_post(&t->baton);
            wait(self);
        }

        static void wait(Thread* t) { while (sem_wait(&t->baton) != 0) {} }

        void count()
        {
            ++m_now;
            if (++m_steps > 200000) fail("the threads do not come to an end");
        }

        std::vector<std::unique_ptr<Thread>> m_threads;
        uint64_t m_now = 1000000, m_steps = 0, m_switches = 0;
        unsigned m_rate, m_timers, m_spurious;
        size_t m_stay = 0, m_untimely = 0;
    };

    inline Scheduler& here() { return *Scheduler::current(); }
    inline bool active() { return Scheduler::current() != nullptr && me != nullptr; }
    inline void point() { if (active()) here().point(); }
}

namespace std
{
    namespace chrono
    {
        struct sched_clock
        {
            using duration = std::chrono::nanoseconds;
            using rep = duration::rep;
            using period = duration::period;
            using time_point = std::chrono::time_point<std::chrono::steady_clock, duration>;
            static constexpr bool is_steady = true;
            static time_point now() noexcept
            {
                sched::point();
                return time_point(duration(sched::Scheduler::current() ? static_cast<rep>(sched::here().now()) : 0));
            }
        };
    }
}

namespace sched
{
    // Adds with saturation.
    template <class Rep, class Period>
    uint64_t deadline(const std::chrono::duration<Rep, Period>& d)
    {
        const long double ns = std::chrono::duration_cast<std::chrono::duration<long double, std::nano>>(d).count();
        if (ns <= 0) return here().now();
        if (ns > 1e18L) return never - 1;
        // Round up.
        uint64_t n = static_cast<uint64_t>(ns);
        if (static_cast<long double>(n) < ns) ++n;
        return here().now() + n;
    }
    // Time points of the virtual clock have the type of those of the steady clock.
    template <class Clock, class Duration>
    uint64_t deadline(const std::chrono::time_point<Clock, Duration>& tp)
    {
        if constexpr (std::is_same_v<Clock, std::chrono::steady_clock> || std::is_same_v<Clock, std::chrono::sched_clock>)
        {
            const auto n = std::chrono::ceil<std::chrono::nanoseconds>(tp.time_since_epoch()).count();
            return n < 0 ? 0 : static_cast<uint64_t>(n);
        }
        else return deadline(tp - Clock::now());
    }

    template <bool Recursive>
    class Mutex
    {
    public:
        constexpr Mutex() noexcept = default;
        ~Mutex() { if (m_count && active()) fail("a locked mutex was destroyed"); }
        Mutex(const Mutex&) = delete;
        Mutex& operator=(const Mutex&) = delete;
        void lock()
        {
            if (!active()) { ++m_count; return; }
            point();
            if (m_owner == me)
            {
                if (!Recursive) fail("a thread locks a mutex twice");
                ++m_count;
                return;
            }
            while (m_owner) here().block(this, "a mutex");
            m_owner = me;
            m_count = 1;
        }
        bool try_lock()
        {
            if (!active()) { ++m_count; return true; }
            point();
            if (m_owner == me && Recursive) { ++m_count; return true; }
            if (m_owner) return false;
            m_owner = me;
            m_count = 1;
            return true;
        }
        template <class Rep, class Period> bool try_lock_for(const std::chrono::duration<Rep, Period>& d)
        {
            if (try_lock()) return true;
            const uint64_t end = deadline(d);
            while (m_owner) if (!here().block(this, "a mutex", end) && m_owner) return false;
            m_owner = me;
            m_count = 1;
            return true;
        }
        template <class Clock, class Duration> bool try_lock_until(const std::chrono::time_point<Clock, Duration>& tp)
        {
            return try_lock_for(std::chrono::nanoseconds(static_cast<int64_t>(deadline(tp) - here().now())));
        }
        void unlock()
        {
            if (!active()) { --m_count; return; }
            if (m_owner != me) fail("a mutex is unlocked by a thread that has not locked it");
            if (--m_count) return;
            m_owner = nullptr;
            here().wake(this);
            point();
        }
    private:
        Thread* m_owner = nullptr;
        size_t m_count = 0;
    };

    // Readers exclude each other here.
    class SharedMutex : public Mutex<false>
    {
    public:
        void lock_shared() { lock(); }
        bool try_lock_shared() { return try_lock(); }
        void unlock_shared() { unlock(); }
        template <class Rep, class Period> bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& d) { return try_lock_for(d); }
        template <class Clock, class Duration> bool try_lock_shared_until(const std::chrono::time_point<Clock, Duration>& tp) { return try_lock_until(tp); }
    };

    class CondVar
    {
    public:
        CondVar() = default;
        ~CondVar() { if (active() && !m_waiters.empty()) for (auto* w : m_waiters) if (!w->notified) fail("a condition variable was destroyed while a thread waits for it"); }
        CondVar(const CondVar&) = delete;
        CondVar& operator=(const CondVar&) = delete;

        void notify_one() noexcept
        {
            point();
            if (!active()) return;
            size_t n = 0;
            for (auto* w : m_waiters) if (!w->notified) ++n;
            if (n)
            {
                size_t k = n == 1 ? 0 : here().s.below(n);
                for (auto* w : m_waiters) if (!w->notified && k-- == 0) { w->notified = true; here().wake(w); break; }
            }
            point();
        }
        void notify_all() noexcept
        {
            point();
            if (!active()) return;
            for (auto* w : m_waiters) if (!w->notified) { w->notified = true; here().wake(w); }
            point();
        }
        template <class Lock> void wait(Lock& l) { wait_impl(l, never); }
        template <class Lock, class Pred> void wait(Lock& l, Pred pred) { while (!pred()) wait(l); }
        template <class Lock, class Clock, class Duration>
        std::cv_status wait_until(Lock& l, const std::chrono::time_point<Clock, Duration>& tp)
        {
            return wait_impl(l, deadline(tp)) ? std::cv_status::no_timeout : std::cv_status::timeout;
        }
        template <class Lock, class Clock, class Duration, class Pred>
        bool wait_until(Lock& l, const std::chrono::time_point<Clock, Duration>& tp, Pred pred)
        {
            const uint64_t end = deadline(tp);
            while (!pred()) if (!wait_impl(l, end)) return pred();
            return true;
        }
        template <class Lock, class Rep, class Period>
        std::cv_status wait_for(Lock& l, const std::chrono::duration<Rep, Period>& d)
        {
            return wait_impl(l, deadline(d)) ? std::cv_status::no_timeout : std::cv_status::timeout;
        }
        template <class Lock, class Rep, class Period, class Pred>
        bool wait_for(Lock& l, const std::chrono::duration<Rep, Period>& d, Pred pred)
        {
            const uint64_t end = deadline(d);
            while (!pred()) if (!wait_impl(l, end)) return pred();
            return true;
        }
    private:
        struct Waiter { bool notified = false; };

        // False: a timeout.
        template <class Lock>
        bool wait_impl(Lock& l, uint64_t end)
        {
            if (!active()) fail("a wait outside of the scheduler");
            Waiter w;
            m_waiters.push_back(&w);
            l.unlock();
            bool ok = true;
            if (here().spurious()) point();
            else while (!w.notified) if (!here().block(&w, "a condition variable", end)) { ok = w.notified; break; }
            m_waiters.remove(&w);
            l.lock();
            return ok;
        }
        std::list<Waiter*> m_waiters;
    };

    template <class T>
    class Atomic
    {
    public:
        using value_type = T;
        static constexpr bool is_always_lock_free = true;
        constexpr Atomic() noexcept : m_val{} {}
        constexpr Atomic(T v) noexcept : m_val(v) {}
        Atomic(const Atomic&) = delete;
        Atomic& operator=(const Atomic&) = delete;
        T operator=(T v) noexcept { store(v); return v; }
        operator T() const noexcept { return load(); }
        bool is_lock_free() const noexcept { return true; }
        void store(T v, std::memory_order = std::memory_order_seq_cst) noexcept { point(); m_val = v; }
        T load(std::memory_order = std::memory_order_seq_cst) const noexcept { point(); return m_val; }
        T exchange(T v, std::memory_order = std::memory_order_seq_cst) noexcept { point(); return std::exchange(m_val, v); }
        bool compare_exchange_strong(T& e, T v, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept
        {
            point();
            if (m_val == e) { m_val = v; return true; }
            e = m_val;
            return false;
        }
        bool compare_exchange_weak(T& e, T v, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept
        {
            point();
            if (m_val == e && !(active() && here().spurious())) { m_val = v; return true; }
            e = m_val;
            return false;
        }
        template <class U = T> T fetch_add(U v, std::memory_order = std::memory_order_seq_cst) noexcept { point(); T o = m_val; m_val = static_cast<T>(m_val + v); return o; }
        template <class U = T> T fetch_sub(U v, std::memory_order = std::memory_order_seq_cst) noexcept { point(); T o = m_val; m_val = static_cast<T>(m_val - v); return o; }
        template <class U = T> T fetch_and(U v, std::memory_order = std::memory_order_seq_cst) noexcept { point(); T o = m_val; m_val = static_cast<T>(m_val & v); return o; }
        template <class U = T> T fetch_or(U v, std::memory_order = std::memory_order_seq_cst) noexcept { point(); T o = m_val; m_val = static_cast<T>(m_val | v); return o; }
        template <class U = T> T fetch_xor(U v, std::memory_order = std::memory_order_seq_cst) noexcept { point(); T o = m_val; m_val = static_cast<T>(m_val ^ v); return o; }
        T operator++() noexcept { return fetch_add(1) + 1; }
        T operator++(int) noexcept { return fetch_add(1); }
        T operator--() noexcept { return fetch_sub(1) - 1; }
        T operator--(int) noexcept { return fetch_sub(1); }
        template <class U> T operator+=(U v) noexcept { return fetch_add(v) + v; }
        template <class U> T operator-=(U v) noexcept { return fetch_sub(v) - v; }
        template <class U> T operator&=(U v) noexcept { return fetch_and(v) & v; }
        template <class U> T operator|=(U v) noexcept { return fetch_or(v) | v; }
        template <class U> T operator^=(U v) noexcept { return fetch_xor(v) ^ v; }
        void wait(T old, std::memory_order = std::memory_order_seq_cst) const { point(); while (m_val == old) here().block(this, "an atomic"); }
        void notify_one() noexcept { notify_all(); }
        void notify_all() noexcept { point(); if (active()) here().wake(this); }
    private:
        T m_val;
    };

    class AtomicFlag
    {
    public:
        constexpr AtomicFlag() noexcept = default;
        constexpr AtomicFlag(bool v) noexcept : m_val(v) {}
        bool test_and_set(std::memory_order o = std::memory_order_seq_cst) noexcept { return m_val.exchange(true, o); }
        void clear(std::memory_order o = std::memory_order_seq_cst) noexcept { m_val.store(false, o); }
        bool test(std::memory_order o = std::memory_order_seq_cst) const noexcept { return m_val.load(o); }
    private:
        Atomic<bool> m_val{ false };
    };

    // Passes the baton when the arguments of the thread have been destroyed.
    struct Leaver
    {
        bool on = false;
        ~Leaver() { if (on) here().leave(); }
    };
    inline thread_local Leaver leaver;

    class ThreadDouble
    {
    public:
        using id = std::thread::id;
        using native_handle_type = std::thread::native_handle_type;
        ThreadDouble() noexcept = default;
        template <class F, class... Args, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, ThreadDouble>>>
        explicit ThreadDouble(F&& f, Args&&... args)
        {
            if (!active()) fail("a thread outside of the scheduler");
            Thread* t = here().add();
            m_t = t;
            t->real = std::thread([t](std::decay_t<F> fn, std::decay_t<Args>... as)
            {
                me = t;
                here().start(t);
                std::invoke(std::move(fn), std::move(as)...);
                // Destroyed when the thread is over, while it still counts.
                Scheduler& sc = here();
                sc.point();
                leaver.on = true;
            }, std::forward<F>(f), std::forward<Args>(args)...);
            t->id = t->real.get_id();
            point();
        }
        ThreadDouble(ThreadDouble&& o) noexcept : m_t(std::exchange(o.m_t, nullptr)) {}
        ThreadDouble& operator=(ThreadDouble&& o) noexcept
        {
            if (m_t) std::terminate();
            m_t = std::exchange(o.m_t, nullptr);
            return *this;
        }
        ~ThreadDouble() { if (m_t) fail("a joinable thread was destroyed"); }
        void swap(ThreadDouble& o) noexcept { std::swap(m_t, o.m_t); }
        bool joinable() const noexcept { return m_t != nullptr; }
        void join()
        {
            if (!m_t) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
            if (m_t == me) throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
            point();
            while (!m_t->done) here().block(m_t, "the end of a thread");
            m_t = nullptr;
        }
        void detach()
        {
            if (!m_t) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
            point();
            m_t->detached = true;
            m_t = nullptr;
        }
        id get_id() const noexcept { return m_t ? m_t->id : id(); }
        native_handle_type native_handle() { return m_t->real.native_handle(); }
        static unsigned hardware_concurrency() noexcept { return 8; }

    private:
        Thread* m_t = nullptr;
    };
    inline void swap(ThreadDouble& a, ThreadDouble& b) noexcept { a.swap(b); }
}

namespace std
{
    using sched_mutex = sched::Mutex<false>;
    using sched_timed_mutex = sched::Mutex<false>;
    using sched_recursive_mutex = sched::Mutex<true>;
    using sched_shared_mutex = sched::SharedMutex;
    using sched_condition_variable = sched::CondVar;
    template <class T> using sched_atomic = sched::Atomic<T>;
    using sched_atomic_bool = sched::Atomic<bool>;
    using sched_atomic_flag = sched::AtomicFlag;
    using sched_thread = sched::ThreadDouble;

    namespace sched_this_thread
    {
        inline std::thread::id get_id() noexcept { return std::this_thread::get_id(); }
        inline void yield() noexcept { sched::point(); }
        template <class Rep, class Period> void sleep_for(const std::chrono::duration<Rep, Period>& d)
        {
            int unique = 0;
            sched::here().block(&unique, "a sleep", sched::deadline(d));
        }
        template <class Clock, class Duration> void sleep_until(const std::chrono::time_point<Clock, Duration>& tp)
        {
            int unique = 0;
            sched::here().block(&unique, "a sleep", sched::deadline(tp));
        }
    }
}

#define SCHED_CHECK(cond, ...) do { if (!(cond)) { ::sched::fail(::pbt::str("line ", __LINE__, ": ", #cond, "  " __VA_OPT__(,) __VA_ARGS__)); } } while (false)

#define mutex sched_mutex
#define timed_mutex sched_timed_mutex
#define recursive_mutex sched_recursive_mutex
#define recursive_timed_mutex sched_recursive_mutex
#define shared_mutex sched_shared_mutex
#define shared_timed_mutex sched_shared_mutex
#define condition_variable sched_condition_variable
#define condition_variable_any sched_condition_variable
#define atomic sched_atomic
#define atomic_bool sched_atomic_bool
#define atomic_flag sched_atomic_flag
#define this_thread sched_this_thread
#define thread sched_thread
#define steady_clock sched_clock
