// P30: timers. Coroutines waiting for generated times are resumed by a queue whose clock and whose sleep are doubles.
#include "pbt.h"

#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <coroutine>
#include <cstdlib>
#include <ctime>
#include <functional>
#include <iomanip>
#include <memory>
#include <mutex>
#include <queue>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "Awl/Coro/ProcessTask.h"
#include "Awl/String.h"

namespace vt
{
    using Ns = std::chrono::nanoseconds;

    struct Hang {};

    struct Clock
    {
        pbt::Src* s = nullptr;
        int64_t now = 0;
        int64_t last = 0;           // what the code read last
        bool frozen = false;        // the time does not go by itself
        size_t calls = 0, slept = 0;
        std::function<void(int64_t)> before_sleep;
    };

    Clock& clock()
    {
        static Clock c;
        return c;
    }

    void pass()
    {
        Clock& c = clock();
        if (!c.s || c.frozen) return;
        static const int64_t most[] = { 1, 3, 100, 1000000 };
        c.now += 1 + static_cast<int64_t>(c.s->chance(1, 4) ? c.s->draw(static_cast<uint64_t>(most[c.s->draw(3)])) : 0);
    }

    void count()
    {
        if (++clock().calls > 20000) throw Hang{};
    }

    int64_t read()
    {
        count();
        pass();
        return clock().last = clock().now;
    }

    void sleep_to(int64_t t)
    {
        count();
        Clock& c = clock();
        if (c.before_sleep) c.before_sleep(t);
        if (t > c.now) { c.now = t; ++c.slept; }
        if (c.s && c.s->chance(1, 3)) c.now += static_cast<int64_t>(c.s->draw(c.s->flag() ? 5 : 100000)); // it wakes late
    }
}

namespace std::chrono
{
    struct virtual_clock
    {
        using duration = nanoseconds;
        using rep = duration::rep;
        using period = duration::period;
        using time_point = std::chrono::time_point<virtual_clock>;
        static constexpr bool is_steady = true;
        static time_point now() { return time_point(duration(vt::read())); }
    };
}

namespace std::virtual_this_thread
{
    template <class C, class D>
    void sleep_until(const std::chrono::time_point<C, D>& t) { vt::sleep_to(std::chrono::ceil<vt::Ns>(t.time_since_epoch()).count()); }
    template <class R, class P>
    void sleep_for(const std::chrono::duration<R, P>& d) { vt::sleep_to(vt::clock().now + std::chrono::ceil<vt::Ns>(d).count()); }
    inline void yield() { vt::count(); vt::pass(); }
    inline std::thread::id get_id() { return std::this_thread::get_id(); }
}

#define steady_clock virtual_clock
#define this_thread virtual_this_thread
#include "Awl/StopWatch.h"
#include "Awl/Time.h"
#include "Awl/Testing/TimeQueue.h"
#undef this_thread
#undef steady_clock

namespace
{
    using vt::Ns;
    using Task = awl::ProcessTask<void>;
    namespace at = awl::testing;

    enum class What { Wait, Operator, Spawn, Await, Loop, Work };

    struct Step
    {
        What what;
        size_t queue = 0;
        int64_t d = 0;
        struct Node* child = nullptr;
    };

    struct Node
    {
        size_t id;
        std::vector<Step> steps;
        bool started = false, ended = false;
    };

    struct Pending
    {
        size_t id;      // of the wait
        size_t queue;
        int64_t lo, hi; // of the time to resume
    };

    struct Machine;

    // The same waits, but it is known when they begin and end.
    struct Observed
    {
        at::TimeAwaitable a;
        Machine& m;
        size_t queue;
        int64_t d;
        size_t id = 0;
        bool suspended = false;

        bool await_ready();
        auto await_suspend(std::coroutine_handle<> h);
        void await_resume();
    };

    struct Machine
    {
        pbt::Src& s;
        std::vector<std::unique_ptr<Node>> nodes;
        std::vector<std::unique_ptr<at::TimeQueue>> own;
        std::vector<at::TimeQueue*> queues;
        std::vector<Pending> pending;
        std::vector<Task> tasks;
        size_t next = 0, resumed = 0, at_once = 0, overtaken = 0, equal = 0, most = 0;
        std::string problem;

        explicit Machine(pbt::Src& src) : s(src) {}

        void error(const std::string& e) { if (problem.empty()) problem = e; }

        int64_t duration()
        {
            switch (s.draw(7))
            {
            case 0: return static_cast<int64_t>(s.draw(3)) * 10;
            case 1: return 1 + static_cast<int64_t>(s.draw(3));
            case 2: return 100;
            case 3: return -static_cast<int64_t>(s.draw(1000));
            case 4: return 1 + static_cast<int64_t>(s.draw(1000));
            case 5: return 1 + static_cast<int64_t>(s.draw(10000000000));
            case 6: return static_cast<int64_t>(3600ull * 24 * 1000000000 * s.draw(3650));
            default: return 1000000 * static_cast<int64_t>(1 + s.draw(5));
            }
        }

        Node* make(size_t level)
        {
            nodes.push_back(std::make_unique<Node>());
            Node* n = nodes.back().get();
            n->id = nodes.size();
            for (size_t k = s.length(level ? 4 : 6); k; --k)
            {
                Step st{};
                st.queue = s.below(queues.size());
                switch (s.draw(9))
                {
                case 0: case 1: case 2: case 3: st.what = What::Wait; st.d = duration(); break;
                case 4: case 5: st.what = What::Operator; st.queue = 0; st.d = duration(); break;
                case 6: if (level > 3 || nodes.size() > 40) continue; st.what = What::Spawn; st.child = make(level + 1); break;
                case 7: if (level > 3 || nodes.size() > 40) continue; st.what = What::Await; st.child = make(level + 1); break;
                case 8: if (!s.chance(1, 4)) continue; st.what = What::Loop; break;
                default: st.what = What::Work; st.d = static_cast<int64_t>(s.draw(500)); break;
                }
                n->steps.push_back(st);
            }
            return n;
        }

        size_t begin(size_t queue, int64_t d, int64_t before)
        {
            pending.push_back({ next, queue, before + d, vt::clock().now + d });
            most = std::max(most, pending.size());
            return next++;
        }

        void end(size_t id)
        {
            const int64_t now = vt::clock().now;
            auto i = std::find_if(pending.begin(), pending.end(), [&](const Pending& p) { return p.id == id; });
            if (i == pending.end()) return error(pbt::str("wait ", id, " is resumed again"));
            const Pending p = *i;
            pending.erase(i);
            ++resumed;
            s.note("wait ", id, " until ", p.lo, " is resumed at ", now);
            if (now < p.lo) return error(pbt::str("wait ", id, " until ", p.lo, " is resumed at ", now));
            for (const auto& q : pending)
            {
                if (q.queue != p.queue) continue;
                if (q.hi < p.lo) return error(pbt::str("wait ", id, " until ", p.lo, " is resumed before wait ", q.id, " until ", q.hi));
                if (q.hi == p.hi) ++equal;
                if (q.id < p.id) ++overtaken;
            }
        }

        Task run(Node* n);

        void loop(size_t q)
        {
            const auto saved = vt::clock().before_sleep;
            vt::clock().before_sleep = [this, q](int64_t t)
            {
                int64_t first = INT64_MAX;
                for (const auto& p : pending) if (p.queue == q) first = std::min(first, p.hi);
                // A relative sleep is counted from the last reading of the clock.
                const int64_t late = vt::clock().now - vt::clock().last;
                if (first == INT64_MAX) error("the loop sleeps though nothing waits");
                else if (t > first + late && t > vt::clock().now) error(pbt::str("the loop sleeps until ", t, " though a coroutine waits until ", first));
            };
            queues[q]->loop();
            vt::clock().before_sleep = saved;
            for (const auto& p : pending) if (p.queue == q) return error(pbt::str("the loop ended, but wait ", p.id, " is not resumed"));
        }
    };

    bool Observed::await_ready()
    {
        const bool ready = a.await_ready();
        if (ready)
        {
            if (d > 0) m.error(pbt::str("a coroutine does not wait for ", d, " ns"));
            ++m.at_once;
        }
        return ready;
    }

    template <class A, class F>
    auto suspend(A& a, std::coroutine_handle<> h, F&& after)
    {
        if constexpr (std::is_void_v<decltype(a.await_suspend(h))>)
        {
            a.await_suspend(h);
            after();
        }
        else
        {
            auto r = a.await_suspend(h);
            after();
            return r;
        }
    }

    auto Observed::await_suspend(std::coroutine_handle<> h)
    {
        const int64_t before = vt::clock().now;
        suspended = true;
        return suspend(a, h, [&] { id = m.begin(queue, d, before); });
    }

    void Observed::await_resume()
    {
        a.await_resume();
        if (suspended) m.end(id);
    }

    Task Machine::run(Node* n)
    {
        n->started = true;
        for (const Step& st : n->steps)
        {
            if (!problem.empty()) break;
            switch (st.what)
            {
            case What::Wait:
            {
                // Some units are coarser than others.
                at::TimeAwaitable a = st.d % 1000000 == 0 ? at::TimeAwaitable(*queues[st.queue], std::chrono::milliseconds(st.d / 1000000)) : at::TimeAwaitable(*queues[st.queue], Ns(st.d));
                co_await Observed{ a, *this, st.queue, st.d };
                break;
            }
            case What::Operator:
                co_await Observed{ at::operator co_await(Ns(st.d)), *this, 0, st.d };
                break;
            case What::Spawn:
                tasks.push_back(run(st.child));
                break;
            case What::Await:
                co_await run(st.child);
                if (!st.child->ended && problem.empty()) error(pbt::str("coroutine ", n->id, " goes on before the one it awaits"));
                break;
            case What::Loop:
                loop(st.queue);
                break;
            case What::Work:
                vt::clock().now += st.d;
                break;
            }
        }
        n->ended = true;
    }

    struct Virtual
    {
        explicit Virtual(pbt::Src& s)
        {
            vt::clock() = vt::Clock{};
            vt::clock().s = &s;
            vt::clock().now = vt::clock().last = s.flag() ? static_cast<int64_t>(s.draw(1000)) : static_cast<int64_t>(s.draw(int64_t(1) << 61));
        }
        ~Virtual() { vt::clock() = vt::Clock{}; }
    };

    PBT_PROPERTY(timers, 150000, 3000000)
    {
        Virtual v(s);
        at::timeQueue = at::TimeQueue{};
        Machine m(s);
        m.queues.push_back(&at::timeQueue);
        for (size_t k = s.draw(2); k; --k) { m.own.push_back(std::make_unique<at::TimeQueue>()); m.queues.push_back(m.own.back().get()); }
        const size_t started = 1 + s.length(10);
        std::vector<Node*> top;
        for (size_t i = 0; i < started; ++i) top.push_back(m.make(0));
        try
        {
            for (Node* n : top) m.tasks.push_back(m.run(n));
            for (size_t rounds = 0; m.problem.empty(); ++rounds)
            {
                std::vector<size_t> busy;
                for (const auto& p : m.pending) if (std::find(busy.begin(), busy.end(), p.queue) == busy.end()) busy.push_back(p.queue);
                if (busy.empty()) break;
                m.loop(s.pick(busy));
            }
            // Nothing is left in the queues.
            for (size_t q = 0; q < m.queues.size() && m.problem.empty(); ++q) m.loop(q);
        }
        catch (const vt::Hang&)
        {
            m.error("the loop does not end");
        }
        PBT_CHECK(m.problem.empty(), m.problem);
        for (const auto& n : m.nodes) PBT_CHECK(!n->started || n->ended, "coroutine ", n->id, " did not end");
        s.count("waits resumed", m.resumed);
        s.count("waits of no time", m.at_once);
        s.count("resumed before one that began to wait earlier", m.overtaken);
        s.count("due at the same time", m.equal);
        s.maximum("waiting at the same time", m.most);
        if (m.overtaken) s.nontrivial();
        if (m.own.size()) s.label("several queues");
    }

    // --- stop watches ---

    PBT_PROPERTY(stop_watches, 100000, 3000000)
    {
        using namespace std::chrono;
        Virtual v(s);
        vt::Clock& c = vt::clock();
        c.frozen = s.chance(2, 3);
        int64_t lo = c.now, hi;
        awl::StopWatch sw = [&]
        {
            if (s.flag()) return awl::StopWatch();
            lo = c.now - static_cast<int64_t>(s.draw(100000000000));
            c.last = -1;
            return awl::StopWatch(virtual_clock::time_point(Ns(lo)));
        }();
        hi = c.last == -1 ? lo : c.now;
        size_t boundary = 0, ops = 0;
        for (size_t k = 1 + s.length(12); k; --k, ++ops)
        {
            switch (s.draw(4)) // The time goes.
            {
            case 0: break;
            case 1: c.now += static_cast<int64_t>(s.draw(10)); break;
            case 2: c.now += static_cast<int64_t>(s.draw(3000000)); break;
            case 3: c.now += static_cast<int64_t>(1000000000ull * s.draw(4000)); break;
            default: c.now += static_cast<int64_t>(s.draw(1000000000000000)); break;
            }
            const int64_t least = c.now - hi;
            auto within = [&](int64_t got, int64_t unit, const char* what)
            {
                const int64_t greatest = c.now - lo;
                PBT_CHECK(got >= least / unit && got <= greatest / unit, what, " is ", got, " units of ", unit, " ns, but ", least, "..", greatest, " ns have passed");
            };
            auto near = [&](double got, double unit, double eps, const char* what)
            {
                const double greatest = static_cast<double>(c.now - lo) / unit;
                const double l = static_cast<double>(least) / unit;
                PBT_CHECK(got >= l * (1 - eps) && got <= greatest * (1 + eps), what, " is ", got, ", but ", l, "..", greatest, " have passed");
            };
            switch (s.draw(18))
            {
            case 11: within(sw.GetElapsedCount<int64_t, std::nano>(), 1, "GetElapsedCount<nano>"); break;
            case 12: within(sw.GetElapsedCount<int64_t, std::micro>(), 1000, "GetElapsedCount<micro>"); break;
            case 13: near(sw.GetElapsedCount<double, std::micro>(), 1e3, 1e-12, "GetElapsedCount<double, micro>"); break;
            case 14: within(sw.GetElapsedCast<nanoseconds>().count(), 1, "GetElapsedCast<nanoseconds>"); break;
            case 15: within(sw.GetElapsedCast<hours>().count(), 3600000000000, "GetElapsedCast<hours>"); break;
            case 16: near(sw.GetElapsedCast<duration<double, std::milli>>().count(), 1e6, 1e-12, "GetElapsedCast<double milliseconds>"); break;
            case 0: within(sw.GetElapsedTime().count(), 1, "GetElapsedTime"); break;
            case 1: within(sw.GetElapsedCount<int64_t, std::milli>(), 1000000, "GetElapsedCount<milli>"); break;
            case 2: within(sw.GetElapsedCount<int64_t, std::ratio<60>>(), 60000000000, "GetElapsedCount<minutes>"); break;
            case 3: within(sw.GetElapsedCast<seconds>().count(), 1000000000, "GetElapsedCast<seconds>"); break;
            case 4: within(sw.GetElapsedCast<microseconds>().count(), 1000, "GetElapsedCast<microseconds>"); break;
            case 5: near(sw.GetElapsedSeconds<double>(), 1e9, 1e-12, "GetElapsedSeconds<double>"); break;
            case 6: near(sw.GetElapsedSeconds<float>(), 1e9, 1e-5, "GetElapsedSeconds<float>"); break;
            case 7: within(sw.GetElapsedSeconds<int64_t>(), 1000000000, "GetElapsedSeconds<int64_t>"); break;
            case 8: { const virtual_clock::duration d = sw; within(d.count(), 1, "the conversion"); break; }
            case 9:
            {
                const int64_t from = c.now;
                sw.Reset();
                lo = from; hi = c.now;
                break;
            }
            case 10:
            {
                const awl::StopWatch copy = sw; // The copy goes on from the same time.
                within(copy.GetElapsedTime().count(), 1, "GetElapsedTime of a copy");
                break;
            }
            default:
            {
                // An interval near to the time that has passed, in some unit.
                static const int64_t units[] = { 1, 1000, 1000000, 1000000000, 60000000000, 3600000000000 };
                const size_t u = s.draw(5);
                int64_t n = least / units[u] + static_cast<int64_t>(s.draw(2)) - 1;
                if (s.chance(1, 4)) n = static_cast<int64_t>(s.draw(100)) - 50;
                bool got;
                switch (u)
                {
                case 0: got = sw.HasElapsed(nanoseconds(n)); break;
                case 1: got = sw.HasElapsed(microseconds(n)); break;
                case 2: got = sw.HasElapsed(milliseconds(n)); break;
                case 3: got = sw.HasElapsed(seconds(n)); break;
                case 4: got = sw.HasElapsed(minutes(n)); break;
                default: got = sw.HasElapsed(hours(n)); break;
                }
                const int64_t interval = n * units[u];
                const int64_t greatest = c.now - lo;
                if (interval == least) ++boundary;
                PBT_CHECK(!(least >= interval && !got), "HasElapsed(", interval, ") is false when ", least, " ns have passed");
                PBT_CHECK(!(greatest < interval && got), "HasElapsed(", interval, ") is true when ", greatest, " ns have passed");
                break;
            }
            }
        }
        s.count("operations", ops);
        s.count("exactly the interval has passed", boundary);
        if (ops > 2) s.nontrivial();
    }

    // --- durations as text ---

    // Reads hh:mm:ss[.fraction] or a number of nanoseconds.
    bool parse_duration(const std::string& text, __int128& ns)
    {
        if (text.size() > 2 && text.substr(text.size() - 2) == "ns")
        {
            size_t used = 0;
            ns = std::stoll(text, &used);
            return used == text.size() - 2;
        }
        size_t i = 0;
        const bool minus = !text.empty() && text[0] == '-';
        if (minus) ++i;
        auto digits = [&](size_t least, size_t most, __int128& v)
        {
            size_t n = 0;
            v = 0;
            while (i < text.size() && text[i] >= '0' && text[i] <= '9') { v = v * 10 + (text[i] - '0'); ++i; ++n; }
            return n >= least && n <= most;
        };
        __int128 h, m, sec, f = 0;
        if (!digits(2, 20, h) || i >= text.size() || text[i++] != ':') return false;
        if (!digits(2, 2, m) || m > 59 || i >= text.size() || text[i++] != ':') return false;
        if (!digits(2, 2, sec) || sec > 59) return false;
        if (i < text.size())
        {
            if (text[i++] != '.') return false;
            const size_t from = i;
            if (!digits(1, 9, f)) return false;
            for (size_t k = i - from; k < 9; ++k) f *= 10;
        }
        if (i != text.size()) return false;
        ns = ((h * 60 + m) * 60 + sec) * 1000000000 + f;
        if (minus) ns = -ns;
        return true;
    }

    template <class D>
    void durations_as(pbt::Src& s, int64_t unit)
    {
        int64_t n = s.flag() ? s.integer<int64_t>() : static_cast<int64_t>(s.draw(100000000)) - 1000000;
        n %= (int64_t(1) << 61) / unit;
        const D d(n);
        const uint8_t parts = static_cast<uint8_t>(s.draw(9));
        std::string text;
        switch (s.draw(2))
        {
        case 0:
        {
            std::ostringstream out;
            awl::format_duration(out, d, parts);
            text = out.str();
            break;
        }
        case 1:
            text = awl::duration_to_string<char>(d, parts);
            break;
        default:
        {
            std::wostringstream out;
            awl::format_duration(out, d);
            for (wchar_t c : out.str()) text += static_cast<char>(c);
            break;
        }
        }
        __int128 got = 0;
        PBT_CHECK(parse_duration(text, got), "a duration of ", n, " * ", unit, " ns is written as '", text, "'");
        PBT_CHECK(got == static_cast<__int128>(n) * unit, "a duration of ", n, " * ", unit, " ns is written as '", text, "'");
        if (n < 0) s.label("negative");
        if (n % 1000) s.nontrivial();
    }

    PBT_PROPERTY(durations, 60000, 2000000)
    {
        switch (s.draw(5))
        {
        case 0: durations_as<std::chrono::nanoseconds>(s, 1); break;
        case 1: durations_as<std::chrono::microseconds>(s, 1000); break;
        case 2: durations_as<std::chrono::milliseconds>(s, 1000000); break;
        case 3: durations_as<std::chrono::seconds>(s, 1000000000); break;
        case 4: durations_as<std::chrono::minutes>(s, 60000000000); break;
        default: durations_as<std::chrono::hours>(s, 3600000000000); break;
        }
        if (s.chance(1, 4))
        {
            Virtual v(s);
            const awl::StopWatch sw;
            const int64_t from = vt::clock().now;
            vt::clock().now += static_cast<int64_t>(s.draw(100000000000000));
            const int64_t least = vt::clock().now - from;
            std::ostringstream out;
            out << sw;
            __int128 got = 0;
            PBT_CHECK(parse_duration(out.str(), got), "a stop watch is written as '", out.str(), "'");
            PBT_CHECK(got >= least && got <= vt::clock().now - from + 2000000, "a stop watch is written as '", out.str(), "', but ", least, " ns have passed");
        }
    }

    // --- local time ---

    int64_t days_from_civil(int64_t y, int64_t m, int64_t d) // m is 1..12
    {
        y -= m <= 2;
        const int64_t era = (y >= 0 ? y : y - 399) / 400;
        const int64_t yoe = y - era * 400;
        const int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
        const int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return era * 146097 + doe - 719468;
    }

    PBT_PROPERTY(local_time, 60000, 1500000)
    {
        using namespace std::chrono;
        struct Zone { const char* tz; int64_t offset; bool dst; };
        static const Zone zones[] = {
            { "UTC0", 0, false }, { "AAA-3", 3 * 3600, false }, { "BBB-5:30", 5 * 3600 + 1800, false }, { "CCC8", -8 * 3600, false }, { "DDD-14", 14 * 3600, false },
            { "EEE11:59:59", -(11 * 3600 + 59 * 60 + 59), false }, { "EST5EDT,M3.2.0,M11.1.0", 0, true }, { "CET-1CEST,M3.5.0,M10.5.0/3", 0, true } };
        const Zone& z = zones[s.draw(std::size(zones) - 1)];
        setenv("TZ", z.tz, 1);
        const int year = 1902 + static_cast<int>(s.draw(357)), month = static_cast<int>(s.draw(11));
        const bool over = s.chance(1, 5); // Values that do not fit are carried to the greater units.
        const int day = over ? static_cast<int>(s.draw(800)) - 400 : 1 + static_cast<int>(s.draw(27));
        const int hour = over ? static_cast<int>(s.draw(100)) - 50 : static_cast<int>(s.draw(23));
        const int min = over ? static_cast<int>(s.draw(500)) - 250 : static_cast<int>(s.draw(59));
        const int sec = over ? static_cast<int>(s.draw(10000)) - 5000 : static_cast<int>(s.draw(59));
        auto fields = [&] { return pbt::str(z.tz, " ", year, "-", month, "-", day, " ", hour, ":", min, ":", sec); };

        const auto tp = awl::make_time<system_clock>(year, month, day, hour, min, sec);
        const int64_t t = duration_cast<nanoseconds>(tp.time_since_epoch()).count();
        PBT_CHECK(t % 1000000000 == 0, "the time ", fields(), " is ", t, " ns");
        const int64_t expected = ((days_from_civil(year, month + 1, 1) + day - 1) * 24 + hour) * 3600 + int64_t(min) * 60 + sec;
        if (!z.dst) PBT_CHECK(t / 1000000000 == expected - z.offset, "the time ", fields(), " is ", t / 1000000000, ", not ", expected - z.offset);
        else
        {
            const time_t tt = static_cast<time_t>(t / 1000000000);
            std::tm back{};
            localtime_r(&tt, &back);
            const int64_t local = (days_from_civil(back.tm_year + 1900, back.tm_mon + 1, back.tm_mday) * 24 + back.tm_hour) * 3600 + int64_t(back.tm_min) * 60 + back.tm_sec;
            // An hour does not exist when the summer time begins.
            PBT_CHECK(local == expected || local == expected + 3600 || local == expected - 3600, "the time ", fields(), " is ", t);
            if (local != expected)
            {
                const time_t around[] = { tt - 7200, tt + 7200 };
                std::tm a{}, b{};
                localtime_r(&around[0], &a);
                localtime_r(&around[1], &b);
                PBT_CHECK(a.tm_isdst == 0 && b.tm_isdst == 1, "the time ", fields(), " is ", t);
                s.label("does not exist");
            }
            else s.label("in a zone with summer time");
        }
        // Fractions of a second are added.
        const int64_t ns = static_cast<int64_t>(s.draw(2000000000)) - 500000000;
        const auto with_ns = awl::make_time<system_clock>(year, month, day, hour, min, sec, nanoseconds(ns));
        PBT_CHECK(duration_cast<nanoseconds>(with_ns.time_since_epoch()).count() == t + ns, "the time ", fields(), " and ", ns, " ns");
        const int64_t ms = static_cast<int64_t>(s.draw(5000));
        const auto with_ms = awl::make_time<system_clock>(year, month, day, hour, min, sec, milliseconds(ms));
        PBT_CHECK(duration_cast<nanoseconds>(with_ms.time_since_epoch()).count() == t + ms * 1000000, "the time ", fields(), " and ", ms, " ms");
        if (t < 0) s.label("before 1970");
        if (over) s.label("carried");
        s.nontrivial();
    }
}
