// P06: Observable/Observer against lists of subscribers.
#include "pbt.h"
#include "Awl/Observable.h"

#include <algorithm>
#include <memory>

namespace
{
    struct IEvents
    {
        virtual void OnFire(int param, std::string text) = 0;
        virtual bool OnAsk(const int& param) = 0;
        virtual void OnPing() = 0;
    };

    class Source : public awl::Observable<IEvents>
    {
    public:
        void fire(int p, const std::string& t) { Notify(&IEvents::OnFire, p, t); }
        void fire_temporary(int p, const char* t) { Notify(&IEvents::OnFire, p, std::string(t) + "!"); }
        bool ask(int p) { return NotifyWhileTrue(&IEvents::OnAsk, p); }
        void ping() { Notify(&IEvents::OnPing); }
    };

    struct Machine;

    class Obs : public awl::Observer<IEvents>
    {
    public:
        Machine* machine;
        int id;
        Obs(Machine* m, int i) : machine(m), id(i) {}
        Obs(Obs&&) = default;
        Obs& operator=(Obs&&) = default;
        void OnFire(int param, std::string text) override;
        bool OnAsk(const int& param) override;
        void OnPing() override;
    };

    enum Action { None, Leave, Die, DropEarlier, KillEarlier, NestedFire, JoinOther, Throw };
    struct Refusal {};

    struct Machine
    {
        pbt::Src& s;
        std::vector<std::unique_ptr<Obs>> obs; // null: destroyed
        std::vector<std::unique_ptr<Source>> src;
        std::vector<std::vector<Obs*>> model; // the subscribers of each source in order
        std::vector<std::pair<int, std::string>> log;
        std::map<int, Action> actions; // what an observer does in the next notification
        std::map<int, bool> answers;
        size_t current = 0;
        int next_id = 0, depth = 0;
        int moved = 0, left = 0, nested = 0;
        bool partial = false;
        int thrower = -1, thrown = 0; // the observer that has thrown during the notification, or -1

        explicit Machine(pbt::Src& sr) : s(sr) {}

        Obs* add()
        {
            obs.push_back(std::make_unique<Obs>(this, next_id++));
            return obs.back().get();
        }

        void forget(Obs* o) { for (auto& m : model) m.erase(std::remove(m.begin(), m.end(), o), m.end()); }
        int where(Obs* o) { for (size_t i = 0; i < model.size(); ++i) if (std::find(model[i].begin(), model[i].end(), o) != model[i].end()) return static_cast<int>(i); return -1; }
        void destroy(Obs* o)
        {
            forget(o);
            for (auto& p : obs) if (p.get() == o) { p.reset(); break; }
            obs.erase(std::remove(obs.begin(), obs.end(), nullptr), obs.end());
        }

        void react(Obs* o)
        {
            auto i = actions.find(o->id);
            if (i == actions.end()) return;
            const Action a = i->second;
            actions.erase(i);
            auto& m = model[current];
            const auto pos = std::find(m.begin(), m.end(), o) - m.begin();
            switch (a)
            {
            case None: break;
            case Leave: s.note("  observer ", o->id, " unsubscribes itself"); o->UnsubscribeSelf(); forget(o); ++left; break;
            case Die: s.note("  observer ", o->id, " destroys itself"); destroy(o); ++left; break;
            case DropEarlier: if (pos > 0) { Obs* e = m[s.below(pos)]; s.note("  observer ", o->id, " unsubscribes the earlier observer ", e->id); src[current]->Unsubscribe(e); forget(e); ++left; } break;
            case KillEarlier: if (pos > 0) { Obs* e = m[s.below(pos)]; s.note("  observer ", o->id, " destroys the earlier observer ", e->id); destroy(e); ++left; } break;
            case NestedFire:
                if (depth == 1 && src.size() > 1)
                {
                    const size_t other = (current + 1) % src.size();
                    const size_t saved = current;
                    auto saved_log = std::move(log);
                    log.clear();
                    notify(other, 2);
                    log = std::move(saved_log);
                    current = saved;
                    ++nested;
                }
                break;
            case Throw:
                if (depth == 1) { s.note("  observer ", o->id, " throws"); thrower = o->id; throw Refusal(); }
                break;
            case JoinOther:
                if (src.size() > 1)
                {
                    const size_t other = (current + 1) % src.size();
                    s.note("  observer ", o->id, " moves over to source ", other);
                    o->UnsubscribeSelf(); forget(o);
                    if (depth == 1) { src[other]->Subscribe(o); model[other].push_back(o); }
                    ++left;
                }
                break;
            }
        }

        // Returns false if an observer has thrown.
        template <class F>
        bool calling(F&& f)
        {
            try { f(); }
            catch (const Refusal&)
            {
                PBT_CHECK(thrower >= 0);
                return false;
            }
            PBT_CHECK(thrower < 0, "the exception of an observer was lost");
            return true;
        }

        void notify(size_t si, int how)
        {
            ++depth;
            current = si;
            log.clear();
            const auto before = model[si];
            std::vector<std::pair<int, std::string>> expected;
            const int param = static_cast<int>(s.below(1000));
            switch (how)
            {
            case 0:
            {
                s.note("source ", si, " fires ", param);
                std::string text = "text of the event, long enough to be on the heap " + std::to_string(param);
                for (Obs* o : before) expected.push_back({ o->id, text + "/" + std::to_string(param) });
                const std::string copy = text;
                calling([&] { src[si]->fire(param, text); });
                PBT_CHECK(text == copy, "the argument was changed");
                break;
            }
            case 1:
                s.note("source ", si, " fires a temporary");
                for (Obs* o : before) expected.push_back({ o->id, "a temporary string that is long enough!/" + std::to_string(param) });
                calling([&] { src[si]->fire_temporary(param, "a temporary string that is long enough"); });
                break;
            case 2:
                s.note("source ", si, " pings");
                for (Obs* o : before) expected.push_back({ o->id, "ping" });
                calling([&] { src[si]->ping(); });
                break;
            default:
            {
                answers.clear();
                bool all = true;
                s.note("source ", si, " asks ", param);
                for (Obs* o : before)
                {
                    const bool yes = !s.chance(1, 6);
                    answers[o->id] = yes;
                    if (all) expected.push_back({ o->id, "ask/" + std::to_string(param) });
                    all = all && yes;
                }
                bool r = false;
                if (calling([&] { r = src[si]->ask(param); })) PBT_CHECK(r == all, "NotifyWhileTrue returned ", r);
                if (!all && !expected.empty() && expected.size() < before.size()) partial = true;
                break;
            }
            }
            // An exception of an observer goes to the caller, the observers after it are not called.
            if (thrower >= 0)
            {
                size_t n = 0;
                while (n < expected.size() && expected[n].first != thrower) ++n;
                PBT_CHECK(n < expected.size());
                expected.resize(n + 1);
                thrower = -1;
                ++thrown;
            }
            PBT_CHECK(log.size() == expected.size(), log.size(), " notifications instead of ", expected.size());
            for (size_t i = 0; i < log.size(); ++i)
            {
                PBT_CHECK(log[i].first == expected[i].first, "notification ", i, " was sent to observer ", log[i].first, " instead of ", expected[i].first);
                PBT_CHECK(log[i].second == expected[i].second, "observer ", log[i].first, " got '", log[i].second, "' instead of '", expected[i].second, "'");
            }
            --depth;
        }

        void check()
        {
            for (size_t i = 0; i < src.size(); ++i)
            {
                PBT_CHECK(src[i]->size() == model[i].size(), "source ", i, " has ", src[i]->size(), " observers instead of ", model[i].size());
                PBT_CHECK(src[i]->empty() == model[i].empty(), "empty()");
            }
            for (auto& o : obs) PBT_CHECK(o->IsSubscribed() == (where(o.get()) >= 0), "IsSubscribed() of observer ", o->id);
        }

        void op()
        {
            const size_t si = s.below(src.size());
            switch (s.weighted({ 12, 4, 3, 4, 4, 4, 3, 2, 3, 10, 2 }))
            {
            case 0:
            {
                Obs* o = nullptr;
                for (auto& p : obs) if (where(p.get()) < 0 && s.flag()) { o = p.get(); break; }
                if (!o) o = add();
                s.note("observer ", o->id, " subscribes to source ", si);
                src[si]->Subscribe(o);
                model[si].push_back(o);
                break;
            }
            case 1:
                if (!model[si].empty())
                {
                    Obs* o = s.pick(model[si]);
                    s.note("observer ", o->id, " is unsubscribed from source ", si);
                    switch (s.below(3))
                    {
                    case 0: src[si]->Unsubscribe(o); break;
                    case 1: o->UnsubscribeSelf(); break;
                    case 2: o->UnsubscribeSafe(); break;
                    }
                    forget(o);
                }
                break;
            case 2:
                if (!obs.empty())
                {
                    Obs* o = s.pick(obs).get();
                    s.note("observer ", o->id, ".UnsubscribeSafe()");
                    o->UnsubscribeSafe();
                    forget(o);
                }
                break;
            case 3:
                if (!obs.empty()) { Obs* o = s.pick(obs).get(); s.note("observer ", o->id, " is destroyed"); destroy(o); }
                break;
            case 4: // move construction keeps the place in the list
                if (!obs.empty())
                {
                    Obs* o = s.pick(obs).get();
                    s.note("observer ", o->id, " is moved to a new object ", next_id);
                    auto n = std::make_unique<Obs>(std::move(*o));
                    n->id = next_id++;
                    if (where(o) >= 0) ++moved;
                    for (auto& m : model) std::replace(m.begin(), m.end(), o, n.get());
                    obs.push_back(std::move(n));
                }
                break;
            case 5:
                if (obs.size() > 1)
                {
                    Obs* o = s.pick(obs).get();
                    Obs* t = s.pick(obs).get();
                    if (o == t) break;
                    s.note("observer ", t->id, " = std::move(observer ", o->id, ")");
                    const int id = t->id;
                    *t = std::move(*o);
                    t->id = id;
                    if (where(o) >= 0) ++moved;
                    forget(t);
                    for (auto& m : model) std::replace(m.begin(), m.end(), o, t);
                }
                break;
            case 6:
            {
                s.note("source ", si, " is moved to a new object");
                auto n = std::make_unique<Source>(std::move(*src[si]));
                PBT_CHECK(src[si]->empty(), "a moved-from observable has observers");
                src[si] = std::move(n);
                if (!model[si].empty()) ++moved;
                break;
            }
            case 7:
            {
                const size_t t = s.below(src.size());
                if (t == si) break;
                s.note("source ", t, " = std::move(source ", si, ")");
                *src[t] = std::move(*src[si]);
                model[t] = std::move(model[si]);
                model[si].clear();
                if (!model[t].empty()) ++moved;
                break;
            }
            case 8:
                s.note("source ", si, " is destroyed");
                src[si].reset();
                model[si].clear();
                src[si] = std::make_unique<Source>();
                break;
            case 9:
            {
                actions.clear();
                for (Obs* o : model[si]) if (s.chance(1, 4)) actions[o->id] = static_cast<Action>(s.draw(7));
                notify(si, static_cast<int>(s.below(4)));
                actions.clear();
                break;
            }
            case 10:
            {
                s.note("a new source");
                if (src.size() > 4) break;
                src.push_back(std::make_unique<Source>());
                model.emplace_back();
                break;
            }
            }
            check();
        }

        void run()
        {
            for (int i = 0; i < 2; ++i) { src.push_back(std::make_unique<Source>()); model.emplace_back(); }
            const size_t ops = 1 + s.length(s.chance(1, 4) ? 150 : 50);
            for (size_t i = 0; i < ops; ++i) op();
            for (size_t i = 0; i < src.size(); ++i) notify(i, 0);
            if (moved) s.label("moved a subscribed observer or a source with observers");
            if (left) s.label("left during the notification");
            if (nested) s.label("nested notification");
            if (thrown) s.label("an observer has thrown");
            if (partial) s.label("NotifyWhileTrue stopped half way");
            if (moved && left) s.nontrivial();
            s.count("operations", ops);
            if (s.flag()) { src.clear(); obs.clear(); } else { obs.clear(); for (auto& x : src) PBT_CHECK(x->empty(), "destroyed observers are still subscribed"); }
        }
    };

    void Obs::OnFire(int param, std::string text)
    {
        machine->log.push_back({ id, text + "/" + std::to_string(param) });
        machine->react(this);
    }

    bool Obs::OnAsk(const int& param)
    {
        machine->log.push_back({ id, "ask/" + std::to_string(param) });
        const bool r = machine->answers[id];
        machine->react(this);
        return r;
    }

    void Obs::OnPing()
    {
        machine->log.push_back({ id, "ping" });
        machine->react(this);
    }
}

PBT_PROPERTY(observable_histories, 40000, 600000) { Machine(s).run(); }

// More subscribers than a byte can count, which leave, join and move while they are called.
namespace
{
    struct Crowd
    {
        struct One : awl::Observer<IEvents>
        {
            Crowd* crowd = nullptr;
            size_t id = 0;
            One() = default;
            One(One&& o) = default;
            One& operator=(One&&) = default;
            void OnFire(int, std::string) override { crowd->called(*this); }
            bool OnAsk(const int& last) override { const bool more = id != static_cast<size_t>(last); crowd->called(*this); return more; }
            void OnPing() override { crowd->called(*this); }
        };
        pbt::Src& s;
        std::vector<std::unique_ptr<One>> all;
        Source source;
        std::vector<size_t> calls;
        std::vector<char> leaves, moves;
        void called(One& o)
        {
            const size_t id = o.id;
            calls.push_back(id);
            if (moves[id]) { auto n = std::make_unique<One>(std::move(o)); all[id] = std::move(n); moves[id] = 0; if (leaves[id]) all[id]->UnsubscribeSelf(); }
            else if (leaves[id]) o.UnsubscribeSelf();
        }
    };
}

PBT_PROPERTY(crowds, 60, 1000)
{
    const size_t n = s.chance(1, 4) ? 65530 + s.below(20) : 200 + s.below(400);
    s.note(n, " subscribers");
    Crowd c{ s, {}, {}, {}, {}, {} };
    std::vector<size_t> model;
    for (size_t i = 0; i < n; ++i)
    {
        c.all.push_back(std::make_unique<Crowd::One>());
        c.all.back()->crowd = &c;
        c.all.back()->id = i;
        c.source.Subscribe(c.all.back().get());
        model.push_back(i);
    }
    const size_t every = 1 + s.below(5);
    for (size_t k = 0; k < 3; ++k)
    {
        c.calls.clear();
        c.leaves.assign(n, 0);
        c.moves.assign(n, 0);
        const size_t kind = s.draw(2), start = s.below(every + 1);
        for (size_t i = start; i < n; i += every + 1) { c.leaves[i] = kind != 1; c.moves[i] = kind != 0; }
        std::vector<size_t> expected = model;
        if (s.flag() && !model.empty())
        {
            const size_t at = s.below(model.size());
            expected.resize(at + 1);
            PBT_CHECK(!c.source.ask(static_cast<int>(model[at])), "a refusal is lost");
        }
        else c.source.ping();
        PBT_CHECK(c.calls == expected, c.calls.size(), " calls instead of ", expected.size());
        std::vector<size_t> left;
        for (size_t id : model) if (!(c.leaves[id] && std::binary_search(expected.begin(), expected.end(), id))) left.push_back(id);
        model = left;
    }
    s.maximum("subscribers", n);
    s.nontrivial();
}
