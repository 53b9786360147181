// P25: generators and tasks. Generated programs are executed as coroutines, in a generated order of events, and compared with their plain evaluation.
#include "pbt.h"
#include "tracked.h"
#include "Awl/Coro/Generator.h"
#include "Awl/Coro/AsyncGenerator.h"
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Coro/UpdateTask.h"

#include <algorithm>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace
{
    struct TaskError
    {
        int id;
    };

    enum class What { Wait, Ready, Now, Start, Await, Drop, Release, Move, Throw, Gen, AsyncGen, Yield };
    enum class As { Value, Void, Update, Gen, AsyncGen };

    struct Node;

    struct Step
    {
        What what;
        size_t slot = 0, to = 0;
        Node* child = nullptr;
        bool catches = false;
        size_t limit = 0;       // of a generator
        int64_t value = 0;
    };

    struct Node
    {
        int id;
        As as;
        std::vector<Step> steps;
        size_t eager = 0;           // the number of steps before the first point where it can be suspended
        // While it runs:
        bool started = false, ended = false, completed = false;
        size_t progress = 0;
        const Node* awaits = nullptr;
        size_t frames = 0;          // the number of its frames that exist
    };

    // A parameter: it is copied into the frame of the coroutine, and lives as long as the frame does, which is longer than the local variables.
    struct InFrame
    {
        Node* n;
        explicit InFrame(Node& x) : n(&x) { ++n->frames; }
        InFrame(const InFrame& x) : n(x.n) { ++n->frames; }
        InFrame& operator=(const InFrame&) = delete;
        ~InFrame() { --n->frames; }
    };

    struct Machine;

    struct Waiting
    {
        Machine& m;
        std::coroutine_handle<> h;
        explicit Waiting(Machine& x) : m(x) {}
        Waiting(const Waiting&) = delete;
        ~Waiting();
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> x);
        void await_resume() const noexcept {}
    };

    using Value = awl::ProcessTask<Tracked>;
    using Void = awl::ProcessTask<void>;
    using Update = awl::UpdateTask;
    using Slot = std::variant<std::monostate, Value, Void, Update>;
    using Gen = awl::generator<Tracked>;
    using AsyncGen = awl::async_generator<Tracked>;

    constexpr size_t slot_count = 3;

    struct Outcome
    {
        std::optional<int> error;
        uint64_t value = 0;
        std::vector<uint64_t> yields;
    };

    uint64_t mix(uint64_t a, uint64_t b) { return (a * 31 + b) % 1000000007; }

    struct Machine
    {
        pbt::Src& s;
        std::vector<std::unique_ptr<Node>> nodes;
        std::vector<Waiting*> waiting;
        size_t resumed = 0, released = 0, dropped = 0, errors = 0, depth = 0;
        std::string problem;

        explicit Machine(pbt::Src& src) : s(src) { Lives::get().reset(); }

        void error(const std::string& e) { if (problem.empty()) problem = e; }

        // --- programs ---

        Node* make(As as, size_t level)
        {
            if (nodes.size() > 60) level = 9;
            nodes.push_back(std::make_unique<Node>());
            Node* n = nodes.back().get();
            n->id = static_cast<int>(nodes.size());
            n->as = as;
            depth = std::max(depth, level);
            const bool gen = as == As::Gen || as == As::AsyncGen;
            bool full[slot_count] = {};
            Node* what[slot_count] = {};
            for (size_t k = s.length(level > 4 ? 2 : 8); k; --k)
            {
                Step st{};
                st.catches = as == As::Update || s.flag();
                st.slot = s.below(slot_count);
                if (gen && s.flag()) { st.what = What::Yield; st.value = static_cast<int64_t>(1 + s.below(1000)); st.limit = s.draw(1); n->steps.push_back(st); continue; }
                switch (s.draw(11))
                {
                case 0: case 1: st.what = What::Wait; break;
                case 2: st.what = What::Ready; break;
                case 3: if (level > 5) continue; st.what = What::Now; st.child = make(static_cast<As>(s.draw(2)), level + 1); break;
                case 4: case 5:
                    if (level > 5) continue;
                    st.what = What::Start;
                    st.child = make(static_cast<As>(s.draw(2)), level + 1);
                    full[st.slot] = true;
                    what[st.slot] = st.child;
                    break;
                case 6: case 7:
                    if (!full[st.slot]) continue;
                    st.what = What::Await;
                    st.child = what[st.slot];
                    full[st.slot] = false;
                    break;
                case 8:
                    if (!full[st.slot]) continue;
                    st.what = What::Drop;
                    st.child = what[st.slot];
                    if (what[st.slot]->as == As::Update && s.flag()) st.what = What::Release;
                    full[st.slot] = false;
                    break;
                case 9:
                    st.what = What::Move;
                    st.to = s.below(slot_count);
                    if (st.to != st.slot) { if (full[st.to]) st.child = what[st.to]; full[st.to] = full[st.slot]; what[st.to] = what[st.slot]; full[st.slot] = false; }
                    break;
                case 10:
                    if (as == As::Update || !s.chance(1, 3)) continue;
                    st.what = What::Throw;
                    break;
                default:
                    if (level > 5) continue;
                    st.what = s.flag() ? What::Gen : What::AsyncGen;
                    st.child = make(st.what == What::Gen ? As::Gen : As::AsyncGen, level + 1);
                    st.limit = s.flag() ? s.below(6) : 1000;
                    break;
                }
                // There is no co_await in a plain generator.
                if (as == As::Gen && st.what != What::Throw && st.what != What::Gen) continue;
                n->steps.push_back(st);
            }
            while (n->eager < n->steps.size() && (n->steps[n->eager].what == What::Ready || n->steps[n->eager].what == What::Move)) ++n->eager;
            return n;
        }

        // What the program does, if it is let to finish, or to yield `limit` values.
        Outcome eval(const Node& n, size_t limit = 1000) const
        {
            Outcome o;
            o.value = static_cast<uint64_t>(n.id);
            for (auto& st : n.steps)
            {
                if (o.yields.size() > limit) break;
                switch (st.what)
                {
                case What::Yield: o.yields.push_back(static_cast<uint64_t>(st.value)); break;
                case What::Now: case What::Await:
                {
                    Outcome c = eval(*st.child);
                    uint64_t r = st.child->as == As::Value ? c.value : st.child->as == As::Void ? 7 : 11;
                    if (c.error) { if (!st.catches) { o.error = c.error; return o; } r = 13 + static_cast<uint64_t>(*c.error); }
                    o.value = mix(o.value, r);
                    break;
                }
                case What::Gen: case What::AsyncGen:
                {
                    Outcome c = eval(*st.child, st.limit);
                    for (size_t i = 0; i < c.yields.size() && i < st.limit; ++i)
                    {
                        o.value = mix(o.value, c.yields[i]);
                        if (n.as == As::Gen) o.yields.push_back(c.yields[i]);
                    }
                    if (c.error && c.yields.size() <= st.limit) { if (!st.catches) { o.error = c.error; return o; } o.value = mix(o.value, 13 + static_cast<uint64_t>(*c.error)); }
                    break;
                }
                case What::Throw: o.error = n.id; return o;
                default: break;
                }
            }
            return o;
        }

        // --- execution ---

        Slot start(Node& n);

        void check(const char* when)
        {
            PBT_CHECK(problem.empty(), when, ": ", problem);
            PBT_CHECK(Lives::get().error.empty(), when, ": ", Lives::get().error);
            for (auto& n : nodes)
            {
                if (n->awaits) PBT_CHECK(!n->awaits->ended, when, ": ", n->id, " still awaits ", n->awaits->id, ", which is over");
                if (n->started && !n->ended) PBT_CHECK(n->progress >= n->eager, when, ": ", n->id, " was not started eagerly");
            }
        }

        void resume()
        {
            const size_t i = s.below(waiting.size());
            Waiting* w = waiting[i];
            waiting.erase(waiting.begin() + static_cast<std::ptrdiff_t>(i));
            ++resumed;
            w->h.resume();
        }

        void run(Node* root)
        {
            {
                Slot t = start(*root);
                check("start");
                const Outcome o = eval(*root);
                bool cancelled = false;
                auto finished = [&]() -> bool
                {
                    try
                    {
                        if (auto* v = std::get_if<Value>(&t)) return v->is_ready();
                        if (auto* v = std::get_if<Void>(&t)) return v->m_h.done();
                        return std::get<Update>(t).done();
                    }
                    catch (const TaskError&) { return true; }
                };
                while (!cancelled && !root->ended)
                {
                    PBT_CHECK(!waiting.empty(), "the root task is not over and nobody waits for anything");
                    PBT_CHECK(!finished(), "the root task is ready before it is over");
                    if (s.chance(1, 25)) { t = Slot(); cancelled = true; s.note("cancelled"); }
                    else resume();
                    check("after an event");
                }
                if (!cancelled)
                {
                    PBT_CHECK(finished(), "the root task is over and not ready");
                    if (auto* v = std::get_if<Value>(&t))
                    {
                        bool thrown = false;
                        try
                        {
                            Tracked r = v->get();
                            PBT_CHECK(!o.error && static_cast<uint64_t>(r.value) == o.value && r.intact(), "the result is ", r.value, " instead of ", o.value, o.error ? " (an exception)" : "");
                        }
                        catch (const TaskError& e)
                        {
                            thrown = true;
                            PBT_CHECK(o.error && *o.error == e.id, "exception ", e.id, o.error ? " instead of another one" : " is unexpected");
                            ++errors;
                        }
                        PBT_CHECK(thrown == o.error.has_value(), "an exception is lost");
                    }
                    else PBT_CHECK(root->completed == !o.error, "the task ", root->completed ? "was completed" : "was not completed");
                    s.label("completed");
                }
            }
            // Released tasks go on without their owners.
            while (!waiting.empty())
            {
                resume();
                check("after the root task");
            }
            PBT_CHECK(Lives::get().live.empty(), Lives::get().live.size(), " local variables of coroutines are still alive");
            for (auto& n : nodes) PBT_CHECK(!n->frames, "the frame of ", n->id, " still exists");
        }
    };

    Waiting::~Waiting()
    {
        auto i = std::find(m.waiting.begin(), m.waiting.end(), this);
        if (i != m.waiting.end()) m.waiting.erase(i);
    }
    void Waiting::await_suspend(std::coroutine_handle<> x)
    {
        h = x;
        m.waiting.push_back(this);
    }

    // Lives in the frame of the coroutine of a node.
    struct Frame
    {
        Machine& m;
        Node& n;
        Tracked local;
        Frame(Machine& x, Node& y) : m(x), n(y), local(y.id)
        {
            if (n.started) m.error("a coroutine was started twice");
            n.started = true;
        }
        Frame(const Frame&) = delete;
        ~Frame()
        {
            if (!local.intact()) m.error("the local variables of a coroutine are damaged");
            n.ended = true;
            n.awaits = nullptr;
        }
    };

    Gen generate(Machine& m, Node& n, InFrame)
    {
        Frame f(m, n);
        for (auto& st : n.steps)
        {
            ++n.progress;
            switch (st.what)
            {
            case What::Yield:
                if (st.limit)
                {
                    Tracked v(st.value);
                    co_yield v;
                    if (v.value != -st.value) m.error("the consumer got a copy of what was yielded");
                }
                else co_yield Tracked(st.value);
                break;
            case What::Gen:
            {
                std::optional<int> error;
                try
                {
                    size_t k = 0;
                    Gen g = generate(m, *st.child, InFrame(*st.child));
                    if (st.child->started) m.error("a generator is not lazy");
                    for (auto i = g.begin(); i != g.end() && k < st.limit; ++i, ++k) { co_yield Tracked(i->value); if (i->value > 0) i->value = -i->value; }
                }
                catch (const TaskError& e) { error = e.id; }
                if (error && !st.catches) throw TaskError{ *error };
                break;
            }
            case What::Throw: throw TaskError{ n.id };
            default: break;
            }
        }
        n.completed = true;
    }

    // The common part of everything that can await. R: what is yielded or returned.
#define STEPS(yield) \
    Frame f(m, n); \
    Slot slots[slot_count]; \
    uint64_t value = static_cast<uint64_t>(n.id); \
    for (auto& st : n.steps) \
    { \
        ++n.progress; \
        std::optional<int> error; \
        switch (st.what) \
        { \
        case What::Wait: co_await Waiting(m); break; \
        case What::Ready: co_await std::suspend_never(); break; \
        case What::Yield: yield break; \
        case What::Start: slots[st.slot] = m.start(*st.child); break; \
        case What::Drop: \
            if (st.catches) { if (auto* v = std::get_if<Value>(&slots[st.slot])) *v = Value(); else if (auto* w = std::get_if<Void>(&slots[st.slot])) *w = Void(); else if (auto* u = std::get_if<Update>(&slots[st.slot])) *u = Update(); } \
            else slots[st.slot] = Slot(); \
            if (st.child && st.child->frames) m.error("the frame of a destroyed task still exists"); \
            ++m.dropped; \
            break; \
        case What::Release: \
            if (auto* u = std::get_if<Update>(&slots[st.slot])) { const bool over = u->done(); u->release(); if (*u) m.error("a released task is not empty"); if ((st.child->frames != 0) == over) m.error("the frame of a released task that is over exists, or that of one that is not does not"); slots[st.slot] = Slot(); ++m.released; } \
            break; \
        case What::Move: \
            if (auto* v = std::get_if<Value>(&slots[st.slot]); v && std::get_if<Value>(&slots[st.to])) std::get<Value>(slots[st.to]) = std::move(*v); \
            else slots[st.to] = std::move(slots[st.slot]); \
            if (st.to != st.slot) slots[st.slot] = Slot(); \
            if (st.child && st.child->frames) m.error("the frame of a task that was assigned to still exists"); \
            break; \
        case What::Throw: throw TaskError{ n.id }; \
        case What::Now: case What::Await: \
        { \
            uint64_t r = 0; \
            { \
                Slot now; \
                if (st.what == What::Now) now = m.start(*st.child); \
                else now = std::move(slots[st.slot]); \
                try \
                { \
                    n.awaits = st.child->ended ? nullptr : st.child; \
                    if (auto* v = std::get_if<Value>(&now)) { Tracked t = co_await *v; if (!t.intact()) m.error("the result is damaged"); r = static_cast<uint64_t>(t.value); } \
                    else if (auto* w = std::get_if<Void>(&now)) { co_await *w; r = 7; } \
                    else if (auto* u = std::get_if<Update>(&now)) { co_await *u; if (!u->done()) m.error("an awaited task is not done"); r = 11; } \
                    else m.error("an empty slot was awaited"); \
                    if (!st.child->ended) m.error("resumed before the awaited task was over"); \
                } \
                catch (const TaskError& e) { error = e.id; } \
                n.awaits = nullptr; \
            } \
            if (error) { if (!st.catches) throw TaskError{ *error }; r = 13 + static_cast<uint64_t>(*error); } \
            value = mix(value, r); \
            break; \
        } \
        case What::Gen: \
            try \
            { \
                size_t k = 0; \
                Gen g = generate(m, *st.child, InFrame(*st.child)); \
                if (st.child->started) m.error("a generator is not lazy"); \
                for (auto i = g.begin(); i != g.end() && k < st.limit; ++i, ++k) \
                { \
                    value = mix(value, static_cast<uint64_t>((*i).value)); \
                    i->value = -i->value; \
                    if (k == 1) { Gen other(std::move(g)); Gen third; third.swap(other); g = std::move(third); } \
                } \
            } \
            catch (const TaskError& e) { error = e.id; } \
            if (error) { if (!st.catches) throw TaskError{ *error }; value = mix(value, 13 + static_cast<uint64_t>(*error)); } \
            break; \
        case What::AsyncGen: \
        { \
            AsyncGen g = generate_async(m, *st.child, InFrame(*st.child)); \
            if (st.child->started) m.error("a generator is not lazy"); \
            try \
            { \
                size_t k = 0; \
                auto i = co_await g.begin(); \
                while (i != g.end() && k < st.limit) \
                { \
                    value = mix(value, static_cast<uint64_t>((*i).value)); \
                    (*i).value = -(*i).value; \
                    if (k == 1) { AsyncGen other(std::move(g)); swap(g, other); } \
                    ++k; \
                    co_await ++i; \
                } \
            } \
            catch (const TaskError& e) { error = e.id; } \
            if (error) { if (!st.catches) throw TaskError{ *error }; value = mix(value, 13 + static_cast<uint64_t>(*error)); } \
            break; \
        } \
        } \
    } \
    n.completed = true

    AsyncGen generate_async(Machine& m, Node& n, InFrame)
    {
        STEPS({
            if (st.limit) { Tracked v(st.value); co_yield v; if (v.value != -st.value) m.error("the consumer got a copy of what was yielded"); }
            else co_yield Tracked(st.value);
        });
        static_cast<void>(value);
    }
    Value run_value(Machine& m, Node& n, InFrame)
    {
        STEPS({});
        co_return Tracked(static_cast<int64_t>(value));
    }
    Void run_void(Machine& m, Node& n, InFrame)
    {
        STEPS({});
        static_cast<void>(value);
    }
    Update run_update(Machine& m, Node& n, InFrame)
    {
        STEPS({});
        static_cast<void>(value);
    }

    Slot Machine::start(Node& n)
    {
        switch (n.as)
        {
        case As::Value: return Slot(run_value(*this, n, InFrame(n)));
        case As::Void: return Slot(run_void(*this, n, InFrame(n)));
        default: return Slot(run_update(*this, n, InFrame(n)));
        }
    }

    // References to what the generator owns, and to rvalues.
    awl::generator<const std::string&> strings(const std::vector<std::string>& v)
    {
        for (auto& x : v) co_yield x;
    }
    awl::generator<std::unique_ptr<Tracked>&&> pointers(size_t n)
    {
        for (size_t i = 1; i <= n; ++i) co_yield std::make_unique<Tracked>(static_cast<int64_t>(i));
    }
    awl::generator<int> numbers(int from, int to, int fail, Tracked local)
    {
        for (int i = from; i < to; ++i)
        {
            if (i == fail) throw TaskError{ i };
            co_yield i;
        }
        static_cast<void>(local);
    }
}

PBT_PROPERTY(tasks_and_generators, 20000, 400000)
{
    Machine m(s);
    Node* root = m.make(static_cast<As>(s.draw(2)), 0);
    s.note(m.nodes.size(), " coroutines");
    for (auto& n : m.nodes)
    {
        std::string t;
        static const char* const names[] = { "wait", "ready", "now", "start", "await", "drop", "release", "move", "throw", "gen", "async-gen", "yield" };
        for (auto& st : n->steps) { t += ' '; t += names[static_cast<size_t>(st.what)]; if (st.child) t += pbt::str("(", st.child->id, st.catches ? " caught)" : ")"); }
        static const char* const kinds[] = { "value", "void", "update", "generator", "async generator" };
        s.note(n->id, " ", kinds[static_cast<size_t>(n->as)], ":", t);
    }
    m.run(root);
    if (m.resumed > 3 && m.depth > 1) s.nontrivial();
    s.count("events", m.resumed);
    s.count("coroutines", m.nodes.size());
    s.count("tasks released", m.released);
    s.count("tasks destroyed before the end", m.dropped);
    s.maximum("nesting", m.depth);
}

PBT_PROPERTY(generators, 12000, 200000)
{
    Lives::get().reset();
    {
        std::vector<std::string> v(s.length(20));
        for (auto& x : v) x = std::string(s.length(30), 'z');
        size_t i = 0;
        for (auto& x : strings(v)) { PBT_CHECK(i < v.size() && &x == &v[i], "a reference to element ", i); ++i; }
        PBT_CHECK(i == v.size(), i, " elements instead of ", v.size());
        if (i > 3) s.nontrivial();
        s.note("a generator of ", i, " references");

        std::vector<std::unique_ptr<Tracked>> taken;
        const size_t n = s.length(12);
        for (auto&& p : pointers(n)) { if (s.flag()) taken.push_back(std::move(p)); }
        for (auto& p : taken) PBT_CHECK(p && p->intact(), "a moved element");
        PBT_CHECK(Lives::get().live.size() == taken.size(), "elements that were not taken are alive");
        taken.clear();

        // Mapped generators: a chain over one source.
        const int from = static_cast<int>(s.below(20)), to = from + static_cast<int>(s.below(20)), fail = s.chance(1, 3) ? static_cast<int>(s.below(40)) : -1;
        const size_t stop = s.flag() ? 1000 : s.below(10);
        const bool moved = s.flag();
        size_t called = 0;
        auto twice = [&](int x) { ++called; return x * 2; };
        auto text = [](int x) { return std::to_string(x); };
        awl::generator<int> source = numbers(from, to, fail, Tracked(5));
        auto g = awl::fmap(text, awl::fmap(twice, std::move(source)));
        PBT_CHECK(called == 0, "a mapped generator is not lazy");
        int x = from;
        size_t k = 0;
        bool thrown = false;
        try
        {
            for (auto it = g.begin(); it != g.end(); ++it)
            {
                PBT_CHECK(x < to && x != fail, "too many elements");
                PBT_CHECK(*it == std::to_string(x * 2), "element ", k, " is ", *it);
                PBT_CHECK(called == k + 1, "the function was called ", called, " times for ", k + 1, " elements");
                ++x;
                if (moved && k == 2) { decltype(g) h(std::move(g)); PBT_CHECK(g.begin() == g.end(), "a moved-from generator is not empty"); g = std::move(h); }
                if (++k == stop) break;
            }
            PBT_CHECK(x == to || k == stop, "too few elements");
        }
        catch (const TaskError& e) { thrown = true; PBT_CHECK(e.id == fail && x == fail, "exception ", e.id, " after ", x); }
        PBT_CHECK(thrown == (fail >= from && fail < to && (stop == 0 || static_cast<size_t>(fail - from) < stop)), "an exception is lost or unexpected");
        awl::generator<int> none;
        PBT_CHECK(none.begin() == none.end(), "a default generator is not empty");
    }
    PBT_CHECK(Lives::get().live.empty() && Lives::get().error.empty(), "local variables of generators outlive them");
}

// Tasks nobody waits for the result of: the owner releases them, at any time, also while somebody awaits them.
PBT_PROPERTY(released_tasks, 12000, 200000)
{
    Machine m(s);
    struct Worker { Node node{}; std::optional<Update> task; bool released = false, awaited = false; };
    struct Awaiter { Node node{}; std::optional<Update> task; size_t worker = 0; bool released = false, passed = false; };
    std::vector<std::unique_ptr<Worker>> workers;
    std::vector<std::unique_ptr<Awaiter>> awaiters;

    struct Code
    {
        static Update work(Machine& mm, Node& n, size_t waits, InFrame)
        {
            Frame f(mm, n);
            for (; waits; --waits) co_await Waiting(mm);
            n.completed = true;
        }
        static Update await(Machine& mm, Awaiter& a, Worker& w, size_t waits, InFrame)
        {
            Frame f(mm, a.node);
            co_await *w.task;
            if (!w.node.ended) mm.error("resumed before the awaited task was over");
            a.passed = true;
            for (; waits; --waits) co_await Waiting(mm);
            a.node.completed = true;
        }
    };

    size_t late = 0;
    auto check = [&](const std::string& when)
    {
        m.check(when.c_str());
        for (auto& w : workers)
        {
            const bool expected = w->task && *w->task ? true : w->released && !w->node.ended;
            PBT_CHECK((w->node.frames != 0) == expected, when, ": ", w->node.frames, " frames of a task that is ", w->released ? "released" : "owned", w->node.ended ? " and over" : "");
            if (w->task && *w->task) PBT_CHECK(w->task->done() == w->node.ended, when, ": done()");
        }
        for (auto& a : awaiters)
        {
            const bool expected = *a->task ? true : a->released && !a->node.ended;
            PBT_CHECK((a->node.frames != 0) == expected, when, ": ", a->node.frames, " frames of an awaiting task that is ", a->released ? "released" : "owned");
            PBT_CHECK(a->passed == workers[a->worker]->node.ended, when, ": an awaiting task is ", a->passed ? "" : "not ", "resumed");
        }
    };
    for (size_t k = 2 + s.length(25); k; --k)
    {
        std::string what;
        switch (s.draw(6))
        {
        case 0:
        {
            workers.push_back(std::make_unique<Worker>());
            auto& w = *workers.back();
            w.node.as = As::Update;
            const size_t waits = s.draw(3);
            w.task.emplace(Code::work(m, w.node, waits, InFrame(w.node)));
            what = pbt::str("work ", waits);
            break;
        }
        case 1:
        {
            if (workers.empty()) continue;
            const size_t i = s.below(workers.size());
            Worker& w = *workers[i];
            if (!w.task || !*w.task || w.awaited) continue;
            w.awaited = true;
            awaiters.push_back(std::make_unique<Awaiter>());
            auto& a = *awaiters.back();
            a.worker = i;
            a.node.as = As::Update;
            a.task.emplace(Code::await(m, a, w, s.draw(2), InFrame(a.node)));
            what = pbt::str("await ", i);
            break;
        }
        case 2:
        {
            if (workers.empty()) continue;
            const size_t i = s.below(workers.size());
            Worker& w = *workers[i];
            if (!w.task || !*w.task) continue;
            if (w.awaited && !w.node.ended) ++late;
            w.task->release();
            w.released = true;
            if (s.flag()) w.task->release();    // does nothing
            PBT_CHECK(!*w.task, "a released task is not empty");
            if (!w.awaited) w.task.reset();
            what = pbt::str("release ", i);
            break;
        }
        case 3:
        {
            if (awaiters.empty()) continue;
            Awaiter& a = *awaiters[s.below(awaiters.size())];
            if (!*a.task) continue;
            a.task->release();
            a.released = true;
            what = "release an awaiting one";
            break;
        }
        case 4:
        {
            if (workers.empty()) continue;
            const size_t i = s.below(workers.size());
            Worker& w = *workers[i];
            // An awaited task that is destroyed never resumes who awaits it.
            if (!w.task || (w.awaited && !w.node.ended)) continue;
            const bool destroyed = *w.task;
            if (s.flag()) *w.task = Update();
            else if (s.flag()) w.task->free();
            else { Update u(std::move(*w.task)); PBT_CHECK(!*w.task && static_cast<bool>(u) == destroyed, "a moved task"); }
            PBT_CHECK(!*w.task, "a destroyed task is not empty");
            // What was not over is over now.
            what = pbt::str("destroy ", i);
            break;
        }
        default:
            if (m.waiting.empty()) continue;
            m.resume();
            what = "resume";
        }
        s.note(what);
        check(what);
    }
    while (!m.waiting.empty()) { m.resume(); check("the rest"); }
    for (auto& w : workers) w->task.reset();
    awaiters.clear();
    for (auto& w : workers) PBT_CHECK(!w->node.frames, "the frame of a task still exists");
    PBT_CHECK(Lives::get().live.empty() && Lives::get().error.empty(), "local variables of tasks outlive them");
    if (late) s.nontrivial();
    s.count("tasks released while they are awaited", late);
}

namespace
{
    awl::async_generator<Tracked&> references(Machine& m, std::vector<Tracked>& v, const std::vector<size_t>& waits, size_t fail, InFrame)
    {
        for (size_t i = 0; i < v.size(); ++i)
        {
            for (size_t k = waits[i]; k; --k) co_await Waiting(m);
            if (i == fail) throw TaskError{ static_cast<int>(i) };
            co_yield v[i];
        }
        if (fail == v.size()) throw TaskError{ static_cast<int>(fail) };
    }

    struct Consumed
    {
        size_t seen = 0;
        std::optional<int> error;
        bool over = false;
        std::string problem;
    };

    // Takes elements from a generator it owns, from a place of `hops` moves, and then from the empty one.
    // At the end, if told so, another generator is assigned to it.
    Update consume(Machine& m, Node& node, Node& producer, Node* second, awl::async_generator<Tracked&> g, std::vector<Tracked>& v, const std::vector<size_t>& waits, const std::vector<size_t>& hops,
        size_t limit, Consumed& c, InFrame)
    {
        Frame f(m, node);
        auto wrong = [&](const std::string& p) { if (c.problem.empty()) c.problem = p; };
        try
        {
            auto i = co_await g.begin();
            for (;;)
            {
                const bool end = i == g.end();
                if (end != (g.end() == i) || end == (i != g.end()) || end == (g.end() != i)) { wrong("comparisons with end() contradict each other"); break; }
                if (end || c.seen == limit) break;
                if (c.seen >= v.size()) { wrong("too many elements"); break; }
                if (&*i != &v[c.seen]) wrong(pbt::str("element ", c.seen, " is not a reference to what was yielded"));
                for (size_t k = 0; k < hops[c.seen]; ++k)
                {
                    awl::async_generator<Tracked&> other(std::move(g));
                    auto e = co_await g.begin();
                    if (e != g.end() || !(e == g.end())) wrong("a moved-from generator is not empty");
                    awl::async_generator<Tracked&> none;
                    if ((co_await none.begin()) != none.end()) wrong("a default generator is not empty");
                    if (k % 2) g.swap(other);
                    else g = std::move(other);
                }
                ++c.seen;
                co_await ++i;
            }
        }
        catch (const TaskError& e) { c.error = e.id; }
        if (second)
        {
            auto other = references(m, v, waits, 1000, InFrame(*second));
            const bool self = hops.size() % 2;
            if (self) { awl::async_generator<Tracked&>& same = other; other = std::move(same); }
            g = std::move(other);
            if (producer.frames) wrong("a generator that was assigned to was not destroyed");
            if (second->frames != 1) wrong("a generator was destroyed with what it was moved from");
            if (co_await other.begin() != other.end()) wrong("a moved-from generator is not empty");
            size_t k = 0;
            for (auto i = co_await g.begin(); i != g.end(); co_await ++i, ++k) if (k >= v.size() || &*i != &v[k]) wrong("a generator that was moved to gives other elements");
            if (k != v.size()) wrong("a generator that was moved to gives too few elements");
        }
        c.over = true;
        node.completed = true;
    }
}

namespace
{
    awl::async_generator<std::unique_ptr<Tracked>&&> async_pointers(Machine& m, size_t n, bool waits, InFrame)
    {
        for (size_t i = 1; i <= n; ++i)
        {
            if (waits) co_await Waiting(m);
            co_yield std::make_unique<Tracked>(static_cast<int64_t>(i));
        }
    }
    Update take(Machine& m, Node& node, awl::async_generator<std::unique_ptr<Tracked>&&> g, size_t every, std::vector<std::unique_ptr<Tracked>>& taken, InFrame)
    {
        Frame f(m, node);
        size_t k = 0;
        for (auto i = co_await g.begin(); i != g.end(); co_await ++i)
        {
            if (++k % every == 0) taken.push_back(*i);
            // What was not taken is destroyed when the generator goes on.
            else if (auto&& p = *i; !p || p->value != static_cast<int64_t>(k)) m.error("a yielded pointer is damaged");
        }
        node.completed = true;
    }
}

PBT_PROPERTY(async_generators_of_rvalues, 4000, 60000)
{
    Machine m(s);
    Node producer{}, consumer{};
    consumer.as = As::Update;
    const size_t n = s.length(15), every = 1 + s.draw(3), cancel = s.chance(1, 4) ? s.draw(n) : 1000;
    const bool waits = s.flag();
    std::vector<std::unique_ptr<Tracked>> taken;
    {
        Update task = take(m, consumer, async_pointers(m, n, waits, InFrame(producer)), every, taken, InFrame(consumer));
        m.check("start");
        size_t events = 0;
        while (!m.waiting.empty() && events < cancel) { m.resume(); ++events; m.check("after an event"); PBT_CHECK(taken.size() == (events <= n ? events : n) / every, taken.size(), " elements are taken after ", events, " events"); }
        if (m.waiting.empty()) PBT_CHECK(taken.size() == n / every && consumer.completed, taken.size(), " elements are taken of ", n);
    }
    PBT_CHECK(!producer.frames && !consumer.frames, "the frame of a generator still exists");
    for (size_t i = 0; i < taken.size(); ++i) PBT_CHECK(taken[i] && taken[i]->intact() && taken[i]->value == static_cast<int64_t>((i + 1) * every), "the taken element ", i);
    PBT_CHECK(Lives::get().live.size() == taken.size(), "elements that were not taken are alive");
    taken.clear();
    PBT_CHECK(Lives::get().live.empty() && Lives::get().error.empty(), "elements outlive their owners");
    if (n > 3 && waits) s.nontrivial();
}

// Several asynchronous generators of references with their consumers, whose events come in a generated order.
PBT_PROPERTY(async_generators, 8000, 150000)
{
    Machine m(s);
    struct Pair
    {
        Node producer{}, consumer{}, second{};
        std::vector<Tracked> v;
        bool again = false;
        std::vector<size_t> waits, hops;
        size_t fail = 0, limit = 0;
        Consumed c;
        std::optional<Update> task;
        bool destroyed = false;
    };
    std::vector<std::unique_ptr<Pair>> pairs;
    size_t total = 0;
    {
        for (size_t k = 1 + s.draw(3); k; --k)
        {
            pairs.push_back(std::make_unique<Pair>());
            Pair& p = *pairs.back();
            const size_t n = s.length(9);
            for (size_t i = 0; i < n; ++i)
            {
                p.v.emplace_back(static_cast<int64_t>(i));
                p.waits.push_back(s.flag() ? 0 : s.draw(2));
                p.hops.push_back(s.chance(1, 3) ? 1 + s.draw(2) : 0);
            }
            p.fail = s.chance(1, 3) ? s.draw(n) : 1000;
            p.limit = s.chance(1, 4) ? s.draw(n) : 1000;
            p.consumer.as = As::Update;
            p.again = s.chance(1, 3);
            s.note(n, " elements", p.again ? " twice" : "", p.fail <= n ? pbt::str(", an exception at ", p.fail) : "", p.limit <= n ? pbt::str(", the consumer stops at ", p.limit) : "");
        }
        auto check = [&](const char* when)
        {
            m.check(when);
            for (auto& p : pairs)
            {
                PBT_CHECK(p->c.problem.empty(), when, ": ", p->c.problem);
                if (!p->c.over) continue;
                const size_t end = std::min({ p->v.size(), p->fail, p->limit });
                PBT_CHECK(p->c.seen == end, when, ": ", p->c.seen, " elements came instead of ", end);
                const bool failed = p->fail <= p->v.size() && p->limit >= p->fail;
                PBT_CHECK(p->c.error.has_value() == failed, when, failed ? ": an exception is lost" : ": an unexpected exception");
                PBT_CHECK(!p->producer.frames || p->consumer.frames, when, ": a generator outlived its consumer");
            }
        };
        for (auto& p : pairs)
        {
            {
                auto g = references(m, p->v, p->waits, p->fail, InFrame(p->producer));
                PBT_CHECK(p->producer.frames == 1, "the frame of a generator does not exist");
                p->task.emplace(consume(m, p->consumer, p->producer, p->again ? &p->second : nullptr, std::move(g), p->v, p->waits, p->hops, p->limit, p->c, InFrame(p->consumer)));
            }
            PBT_CHECK(p->producer.frames == 1 || p->again, "a generator was destroyed with what it was moved from");
            check("start");
        }
        while (!m.waiting.empty())
        {
            if (s.chance(1, 30))
            {
                Pair& p = *pairs[s.below(pairs.size())];
                *p.task = Update();
                p.destroyed = true;
                PBT_CHECK(!p.producer.frames && !p.consumer.frames && !p.second.frames, "a destroyed consumer left its generator");
                s.note("destroyed");
            }
            else m.resume();
            check("after an event");
        }
        for (auto& p : pairs)
        {
            PBT_CHECK(p->destroyed || p->c.over, "a consumer is not over and nobody waits for anything");
            total += p->c.seen;
            p->task.reset();
            PBT_CHECK(!p->producer.frames && !p->consumer.frames && !p->second.frames, "the frame of a generator still exists");
            for (auto& x : p->v) PBT_CHECK(x.intact(), "an element");
        }
    }
    pairs.clear();
    PBT_CHECK(Lives::get().live.empty() && Lives::get().error.empty(), "local variables of coroutines outlive them");
    if (total > 3 && m.resumed > 2) s.nontrivial();
    s.count("elements", total);
}
