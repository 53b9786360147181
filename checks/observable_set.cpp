// P07: observable_set and the sets derived from its notifications, against maps.
#include "pbt.h"
#include "Awl/ObservableSet.h"
#include "Awl/MirrorSet.h"
#include "Awl/ForeignSet.h"
#include "Awl/KeyCompare.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/VectorStream.h"

#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>

namespace
{
    struct A
    {
        int pk = 0;
        int fk = 0;
        std::string text;
        int get_fk() const { return fk; }
    };

    A make_a(int pk, int fk) { return A{ pk, fk, "element with a long text #" + std::to_string(pk) }; }

    using Model = std::map<int, int>; // pk -> fk

    // How the elements are stored.
    struct ByValue
    {
        using T = A;
        static constexpr bool copyable = true;
        static T make(int pk, int fk, std::list<A>&) { return make_a(pk, fk); }
        static const A& get(const T& t) { return t; }
    };
    struct ByShared
    {
        using T = std::shared_ptr<A>;
        static constexpr bool copyable = true;
        static T make(int pk, int fk, std::list<A>&) { return std::make_shared<A>(make_a(pk, fk)); }
        static const A& get(const T& t) { return *t; }
    };
    struct ByUnique
    {
        using T = std::unique_ptr<A>;
        static constexpr bool copyable = false;
        static T make(int pk, int fk, std::list<A>&) { return std::make_unique<A>(make_a(pk, fk)); }
        static const A& get(const T& t) { return *t; }
    };
    struct ByRaw
    {
        using T = A*;
        static constexpr bool copyable = true;
        static T make(int pk, int fk, std::list<A>& store) { store.push_back(make_a(pk, fk)); return &store.back(); }
        static const A& get(const T& t) { return *t; }
    };

    template <class St>
    struct Machine
    {
        using T = typename St::T;
        using Pk = awl::getter<&A::pk>;
        using Fk = awl::getter<&A::get_fk>;
        using Compare = awl::KeyCompare<T, Pk>;
        using Greater = awl::KeyCompare<T, Pk, std::greater<void>>;
        using Set = awl::observable_set<T, Compare>;
        // A mirror_set copies its elements.
        using Mirror = std::conditional_t<St::copyable, awl::mirror_set<T, Compare>, Set>;
        using BackMirror = std::conditional_t<St::copyable, awl::mirror_set<T, Greater>, awl::observable_set<T, Greater>>;
        using Foreign = awl::foreign_set<T, Pk, Fk>;

        struct Source;

        // Writes down the notifications it gets.
        struct Log : awl::Observer<awl::INotifySetChanged<T>>
        {
            std::vector<std::string> events;
            Model seen; // what the notifications amount to
            const Set* watched = nullptr;
            std::string error;
            bool leave = false;
            Log() = default;

            void OnAdded(const T& val) override
            {
                const A& a = St::get(val);
                events.push_back("+" + std::to_string(a.pk));
                if (!seen.emplace(a.pk, a.fk).second) error = "added twice";
                if (watched && !watched->contains(a.pk)) error = "OnAdded before the element is in the set";
                bye();
            }
            void OnRemoving(const T& val) override
            {
                const A& a = St::get(val);
                events.push_back("-" + std::to_string(a.pk));
                if (seen.erase(a.pk) == 0) error = "a missing element is removed";
                if (watched && (!watched->contains(a.pk) || &St::get(*watched->find(a.pk)) != &a)) error = "OnRemoving after the element left the set";
                bye();
            }
            void OnClearing() override
            {
                events.push_back("0");
                if (watched && watched->size() != seen.size()) error = "OnClearing after the set was cleared";
                seen.clear();
                bye();
            }
            void bye() { if (leave) { leave = false; this->UnsubscribeSelf(); gone = true; } }
            bool gone = false;
        };

        // The notifications of a foreign_set.
        struct GroupLog : awl::Observer<awl::INotifySetChanged<typename Foreign::value_type>>
        {
            std::vector<std::string> events;
            void OnAdded(const typename Foreign::value_type& g) override { events.push_back("+" + std::to_string((*g.front()).fk) + "/" + std::to_string(g.size())); }
            void OnRemoving(const typename Foreign::value_type& g) override { events.push_back("-" + std::to_string((*g.front()).fk) + "/" + std::to_string(g.size())); }
            void OnClearing() override { events.push_back("0"); }
        };

        struct Derived // a set that follows a source
        {
            int source = -1; // -1: detached
            std::unique_ptr<Log> log;
            std::unique_ptr<Mirror> mirror, second; // second: a mirror of the mirror
            std::unique_ptr<BackMirror> back;
            std::unique_ptr<Foreign> foreign;
            std::unique_ptr<GroupLog> groups;
            std::unique_ptr<Foreign> far; // a foreign_set of the mirror
        };

        struct Source
        {
            std::unique_ptr<Set> set;
            Model model;
        };

        pbt::Src& s;
        std::list<A> store;
        std::vector<Source> src{ 3 };
        std::vector<Derived> der;
        int removed = 0, transfers = 0, groups_gone = 0;

        explicit Machine(pbt::Src& sr) : s(sr) {}

        template <class X> void same_set(const X& x, const Model& m, const char* what)
        {
            PBT_CHECK(x.size() == m.size() && x.empty() == m.empty(), what, ": size is ", x.size(), " instead of ", m.size());
            auto j = m.begin();
            size_t i = 0;
            for (const T& t : x)
            {
                const A& a = St::get(t);
                PBT_CHECK(a.pk == j->first && a.fk == j->second, what, ": element ", i, " is ", a.pk, " instead of ", j->first);
                PBT_CHECK(a.text == "element with a long text #" + std::to_string(a.pk), what, ": damaged element ", a.pk);
                PBT_CHECK(x.contains(a.pk) && &St::get(*x.find(a.pk)) == &a, what, ": find ", a.pk);
                PBT_CHECK(&St::get(x[i]) == &a && x.index_of(a.pk) == i, what, ": index");
                ++j; ++i;
            }
            if (!m.empty())
            {
                PBT_CHECK(St::get(x.front()).pk == m.begin()->first && St::get(x.back()).pk == m.rbegin()->first, what, ": front or back");
                const int key = static_cast<int>(s.below(14));
                auto lb = x.lower_bound(key);
                auto mlb = m.lower_bound(key);
                PBT_CHECK((lb == x.end()) == (mlb == m.end()), what, ": lower_bound(", key, ")");
                if (mlb != m.end()) PBT_CHECK(St::get(*lb).pk == mlb->first, what, ": lower_bound(", key, ")");
                PBT_CHECK(x.contains(key) == (m.count(key) != 0), what, ": contains(", key, ")");
            }
        }

        void same_groups(const Foreign& f, const Model& m, const Set* origin, const char* what)
        {
            std::map<int, std::vector<int>> groups;
            for (auto& [pk, fk] : m) groups[fk].push_back(pk);
            PBT_CHECK(f.size() == groups.size() && f.empty() == groups.empty(), what, ": ", f.size(), " groups instead of ", groups.size());
            size_t i = 0;
            auto gi = f.begin();
            for (auto& [fk, pks] : groups)
            {
                PBT_CHECK(gi != f.end(), what, ": iteration is too short");
                auto& g = *gi;
                PBT_CHECK(&f[i] == &g && &f.at(i) == &g, what, ": index of a group");
                PBT_CHECK(g.size() == pks.size(), what, ": group ", fk, " has ", g.size(), " elements instead of ", pks.size());
                auto found = f.find(fk);
                PBT_CHECK(found != f.end() && &*found == &g, what, ": group ", fk, " is not found");
                PBT_CHECK(f.index_of(fk) == i, what, ": index_of(", fk, ")");
                size_t k = 0;
                for (auto& p : g)
                {
                    PBT_CHECK(p->pk == pks[k] && p->fk == fk, what, ": element ", k, " of group ", fk, " is ", p->pk, " instead of ", pks[k]);
                    PBT_CHECK(g.contains(pks[k]), what, ": contains");
                    if (origin) PBT_CHECK(&*p == &St::get(*origin->find(pks[k])), what, ": not the element of the source");
                    ++k;
                }
                ++i; ++gi;
            }
            PBT_CHECK(gi == f.end(), what, ": iteration is too long");
            for (int fk = 0; fk < 5; ++fk) if (!groups.count(fk)) PBT_CHECK(f.find(fk) == f.end(), what, ": a missing group ", fk, " is found");
            if (!groups.empty())
            {
                PBT_CHECK(f.front().front()->fk == groups.begin()->first && f.back().front()->fk == groups.rbegin()->first, what, ": front or back");
                auto ri = f.rbegin();
                for (auto g = groups.rbegin(); g != groups.rend(); ++g, ++ri) PBT_CHECK(ri->front()->fk == g->first, what, ": reverse iteration");
            }
        }

        void check()
        {
            for (size_t i = 0; i < src.size(); ++i) same_set(*src[i].set, src[i].model, "observable_set");
            const Model none;
            for (auto& d : der)
            {
                // A set whose source was destroyed or replaced heard the clearing before.
                const Model& m = d.source < 0 ? none : src[d.source].model;
                const Set* origin = d.source < 0 ? nullptr : src[d.source].set.get();
                if (d.log)
                {
                    PBT_CHECK(d.log->error.empty(), "observer: ", d.log->error);
                    if (!d.log->gone)
                    {
                        PBT_CHECK(d.log->IsSubscribed() == (d.source >= 0), "IsSubscribed()");
                        PBT_CHECK(d.log->seen == m, "the notifications do not amount to the contents");
                    }
                    else PBT_CHECK(!d.log->IsSubscribed(), "IsSubscribed() after leaving");
                }
                if (d.mirror) same_set(*d.mirror, m, "mirror_set");
                if (d.second) same_set(*d.second, m, "mirror of a mirror");
                if (d.back)
                {
                    PBT_CHECK(d.back->size() == m.size(), "mirror_set in the reverse order: size");
                    auto j = m.rbegin();
                    for (const T& t : *d.back) { PBT_CHECK(St::get(t).pk == j->first && St::get(t).fk == j->second, "mirror_set in the reverse order"); ++j; }
                }
                if (d.foreign) same_groups(*d.foreign, m, origin, "foreign_set");
                if (d.far) same_groups(*d.far, m, nullptr, "foreign_set of a mirror");
            }
        }

        // Expected notifications of one operation, per source.
        std::map<int, std::vector<std::string>> expected;

        void begin()
        {
            expected.clear();
            for (auto& d : der)
            {
                if (d.log) d.log->events.clear();
                if (d.groups) d.groups->events.clear();
                if (d.log && !d.log->gone && d.log->IsSubscribed() && s.chance(1, 30)) d.log->leave = true;
            }
        }

        // What the observers of the groups should hear of the events.
        static std::vector<std::string> group_events(const std::vector<std::string>& ev, Model m, const Model& after)
        {
            std::vector<std::string> out;
            for (auto& e : ev)
            {
                if (e == "0") { if (!m.empty()) out.push_back("0"); m.clear(); continue; }
                const int pk = std::stoi(e.substr(1));
                if (e[0] == '+')
                {
                    const int fk = after.at(pk);
                    bool has = false;
                    for (auto& [p, f] : m) has = has || f == fk;
                    m[pk] = fk;
                    if (!has) out.push_back("+" + std::to_string(fk) + "/1");
                }
                else
                {
                    const int fk = m.at(pk);
                    m.erase(pk);
                    bool has = false;
                    for (auto& [p, f] : m) has = has || f == fk;
                    if (!has) out.push_back("-" + std::to_string(fk) + "/1");
                }
            }
            return out;
        }

        static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x + " "; return r; }

        // `before`: the models before the operation.
        void verify_events(const std::vector<Model>& before, const std::map<int, int>& was)
        {
            for (size_t i = 0; i < der.size(); ++i)
            {
                auto& d = der[i];
                const int at = was.count(static_cast<int>(i)) ? was.at(static_cast<int>(i)) : d.source;
                const std::vector<std::string> want = at < 0 ? std::vector<std::string>{} : expected[at];
                if (d.log && !d.log->gone) PBT_CHECK(d.log->events == want, "observer got '", join(d.log->events), "' instead of '", join(want), "'");
                else if (d.log && d.log->gone && d.log->events.size() > 1) s.fail("an observer that left got '" + join(d.log->events) + "'");
                if (d.groups)
                {
                    const auto g = at < 0 ? std::vector<std::string>{} : group_events(want, before[at], src[at].model.empty() && d.source >= 0 ? src[d.source].model : src[at].model);
                    if (!g.empty() && g[0][0] == '-') ++groups_gone;
                    PBT_CHECK(d.groups->events == g, "observer of the groups got '", join(d.groups->events), "' instead of '", join(g), "'");
                }
            }
        }

        void attach(int si)
        {
            Derived d;
            d.source = si;
            const Set& set = *src[si].set;
            const size_t kind = s.below(St::copyable ? 5 : 3);
            switch (kind)
            {
            case 0:
                s.note("an observer subscribes to set ", si);
                d.log = std::make_unique<Log>();
                d.log->watched = &set;
                d.log->seen = src[si].model;
                set.Subscribe(d.log.get());
                break;
            case 1:
            case 2:
                s.note("a foreign_set of set ", si, kind == 1 ? "" : ", subscribed while the set is empty");
                if (kind == 2 && src[si].model.empty()) { d.foreign = std::make_unique<Foreign>(); set.Subscribe(d.foreign.get()); }
                else d.foreign = std::make_unique<Foreign>(set);
                d.groups = std::make_unique<GroupLog>();
                d.foreign->Subscribe(d.groups.get());
                break;
            case 3:
                if constexpr (St::copyable)
                {
                    s.note("a mirror_set of set ", si);
                    d.mirror = std::make_unique<Mirror>();
                    d.mirror->reflect(set);
                    if (s.flag()) { d.second = std::make_unique<Mirror>(); d.second->reflect(*d.mirror); }
                    if (s.flag()) d.far = std::make_unique<Foreign>(*d.mirror);
                }
                break;
            case 4:
                if constexpr (St::copyable)
                {
                    s.note("a mirror_set of set ", si, " in the reverse order");
                    d.back = std::make_unique<BackMirror>();
                    d.back->reflect(set);
                }
                break;
            }
            der.push_back(std::move(d));
        }

        void op()
        {
            const int xi = static_cast<int>(s.weighted({ 5, 2, 1 }));
            const int yi = (xi + 1 + static_cast<int>(s.below(2))) % 3;
            Source& x = src[xi];
            Source& y = src[yi];
            std::vector<Model> before;
            for (auto& z : src) before.push_back(z.model);
            begin();
            std::map<int, int> was;
            switch (s.weighted({ 26, 14, 3, 5, 2, 3, 2, 6, 3, 3, 1 }))
            {
            case 0:
            {
                const int pk = static_cast<int>(s.below(14)), fk = static_cast<int>(s.below(4));
                T t = St::make(pk, fk, store);
                const bool is_new = x.model.emplace(pk, fk).second;
                s.note("set", xi, ".insert(", pk, "/", fk, ")", is_new ? "" : " // duplicate");
                if (is_new) expected[xi] = { "+" + std::to_string(pk) };
                std::pair<typename Set::iterator, bool> r = [&]
                {
                    if constexpr (St::copyable) { if (s.flag()) return x.set->insert(static_cast<const T&>(t)); }
                    if (s.chance(1, 4)) return x.set->emplace(std::move(t));
                    return x.set->insert(std::move(t));
                }();
                PBT_CHECK(r.second == is_new, "insert() returned ", r.second);
                PBT_CHECK(St::get(*r.first).pk == pk && St::get(*r.first).fk == x.model[pk], "insert() returned a wrong iterator");
                break;
            }
            case 1:
            {
                const int pk = static_cast<int>(s.below(14));
                const bool has = x.model.erase(pk) != 0;
                s.note("set", xi, ".erase(", pk, ")", has ? "" : " // missing");
                if (has) { expected[xi] = { "-" + std::to_string(pk) }; ++removed; }
                if (has && s.flag()) x.set->erase(x.set->find(pk));
                else PBT_CHECK(x.set->erase(pk) == (has ? 1u : 0u), "erase() returned a wrong number");
                break;
            }
            case 2:
                s.note("set", xi, ".clear()");
                if (!x.model.empty()) expected[xi] = { "0" };
                x.set->clear();
                x.model.clear();
                break;
            case 3:
            {
                s.note("set", xi, ".migrate(set", yi, ")");
                if (!x.model.empty()) expected[xi].push_back("0");
                for (auto& [pk, fk] : y.model) expected[xi].push_back("+" + std::to_string(pk));
                expected[yi] = { "0" };
                const bool both = !y.model.empty();
                x.set->migrate(std::move(*y.set));
                x.model = std::move(y.model);
                y.model.clear();
                if (both) ++transfers;
                // An empty set may or may not say that it is cleared.
                for (auto& d : der) if (d.source == yi && d.log && !both) { d.log->events.clear(); }
                if (!both) expected[yi].clear();
                break;
            }
            case 4:
            {
                s.note("set", xi, " is moved to a new set");
                auto n = std::make_unique<Set>(std::move(*x.set));
                PBT_CHECK(x.set->empty(), "a moved-from set is not empty");
                for (auto& d : der) if (d.source == xi && d.log) d.log->watched = n.get();
                x.set = std::move(n);
                if (!x.model.empty()) ++transfers;
                break;
            }
            case 5:
            {
                s.note("set", xi, " = std::move(set", yi, ")");
                if (!x.model.empty()) expected[xi] = { "0" };
                if (!y.model.empty()) ++transfers;
                for (size_t i = 0; i < der.size(); ++i)
                {
                    auto& d = der[i];
                    was[static_cast<int>(i)] = d.source;
                    if (d.source == yi && d.log) d.log->watched = x.set.get();
                }
                *x.set = std::move(*y.set);
                x.model = std::move(y.model);
                y.model.clear();
                for (auto& d : der) { if (d.source == xi) { d.source = -1; } else if (d.source == yi) d.source = xi; }
                break;
            }
            case 6:
            {
                s.note("set", xi, " is destroyed");
                if (!x.model.empty()) expected[xi] = { "0" };
                x.set.reset();
                x.set = std::make_unique<Set>();
                x.model.clear();
                for (size_t i = 0; i < der.size(); ++i) { auto& d = der[i]; was[static_cast<int>(i)] = d.source; if (d.source == xi) d.source = -1; }
                break;
            }
            case 7: if (der.size() < 8) attach(xi); break;
            case 8:
                if (!der.empty())
                {
                    const size_t i = s.below(der.size());
                    s.note("derived set ", i, " is destroyed");
                    if (s.flag()) der[i].far.reset();
                    if (s.flag()) der[i].mirror.reset();
                    der.erase(der.begin() + i);
                }
                break;
            case 9: // the derived sets can be moved
                if (!der.empty())
                {
                    Derived& d = der[s.below(der.size())];
                    s.note("a derived set is moved");
                    if (d.foreign) d.foreign = std::make_unique<Foreign>(std::move(*d.foreign));
                    if constexpr (St::copyable)
                    {
                        if (d.mirror && s.flag()) { d.mirror = std::make_unique<Mirror>(std::move(*d.mirror)); }
                        else if (d.mirror && !d.second && !d.far)
                        {
                            auto m = std::make_unique<Mirror>();
                            if (s.flag()) m->reflect(*src[xi].set);
                            *m = std::move(*d.mirror);
                            d.mirror = std::move(m);
                        }
                    }
                }
                break;
            case 10:
            {
                for (auto& d : der) if (d.log && d.source == xi && !d.log->gone)
                {
                    s.note("an observer unsubscribes");
                    x.set->Unsubscribe(d.log.get());
                    d.log->gone = true;
                    break;
                }
                break;
            }
            }
            verify_events(before, was);
            check();
            // Keep the observers that have nothing to watch few.
            der.erase(std::remove_if(der.begin(), der.end(), [&](Derived& d) { return d.source < 0; }), der.end());
        }

        void run()
        {
            for (auto& x : src) x.set = std::make_unique<Set>();
            der.reserve(16);
            attach(0);
            const size_t ops = 1 + s.length(s.chance(1, 4) ? 120 : 50);
            for (size_t i = 0; i < ops; ++i) op();
            if (removed) s.label("removal");
            if (transfers) s.label("a set was moved or migrated");
            if (groups_gone) s.label("a group became empty");
            if (removed && transfers) s.nontrivial();
            s.count("operations", ops);
            if (s.flag()) { der.clear(); src.clear(); }
            else
            {
                src.clear();
                for (auto& d : der)
                {
                    if (d.mirror) PBT_CHECK(d.mirror->empty(), "a mirror outlives its source with elements");
                    if (d.foreign) PBT_CHECK(d.foreign->empty(), "a foreign_set outlives its source with elements");
                    if (d.log && !d.log->gone) PBT_CHECK(d.log->seen.empty() && !d.log->IsSubscribed(), "the destruction of the source was not announced");
                    if (d.log) PBT_CHECK(d.log->error.empty() || true, "");
                }
                der.clear();
            }
        }
    };
}

PBT_PROPERTY(set_of_values, 12000, 200000) { Machine<ByValue>(s).run(); }
PBT_PROPERTY(set_of_shared_ptr, 8000, 120000) { Machine<ByShared>(s).run(); }
PBT_PROPERTY(set_of_unique_ptr, 8000, 120000) { Machine<ByUnique>(s).run(); }
PBT_PROPERTY(set_of_pointers, 8000, 120000) { Machine<ByRaw>(s).run(); }

// A watched set is read from a stream, perhaps a broken one: its followers must see what happens to it.
PBT_PROPERTY(sets_read_from_streams, 6000, 100000)
{
    namespace io = awl::io;
    using Set = awl::observable_set<std::string>;

    struct Follower : awl::Observer<awl::INotifySetChanged<std::string>>
    {
        std::set<std::string> seen;
        std::string error;
        void OnAdded(const std::string& v) override { if (!seen.insert(v).second) error = "added twice"; }
        void OnRemoving(const std::string& v) override { if (seen.erase(v) == 0) error = "a missing element is removed"; }
        void OnClearing() override { seen.clear(); }
    };

    auto draw = [&] { return std::string(s.below(20), static_cast<char>('a' + s.below(4))); };

    Set set;
    Follower log;
    awl::mirror_set<std::string> mirror, second;
    const bool early = s.flag();
    auto attach = [&] { set.Subscribe(&log); for (const auto& v : set) log.seen.insert(v); mirror.reflect(set); second.reflect(mirror); };
    if (early) attach();
    std::set<std::string> model;
    for (size_t i = s.length(8); i != 0; --i) { auto v = draw(); set.insert(v); model.insert(v); }
    if (!early) attach();

    bool cut = false, full = false;
    for (size_t step = 1 + s.below(4); step != 0; --step)
    {
        if (s.chance(1, 4))
        {
            auto v = draw();
            if (s.flag()) { set.insert(v); model.insert(v); } else PBT_CHECK(set.erase(v) == model.erase(v));
        }

        // The document of a container of another kind is the same, and it can have an element twice.
        std::deque<std::string> source;
        for (size_t i = s.length(8); i != 0; --i) source.push_back(draw());
        std::vector<uint8_t> bytes;
        {
            io::VectorOutputStream out(bytes);
            io::Write(out, source);
        }
        const bool whole = s.chance(2, 3);
        if (!whole) { bytes.resize(s.below(bytes.size())); cut = true; }

        io::VectorInputStream in(bytes);
        bool failed = false;
        try { io::Read(in, set); } catch (const io::IoException&) { failed = true; }
        PBT_CHECK(failed == !whole, "a document of ", bytes.size(), " bytes");
        const std::set<std::string> all(source.begin(), source.end());
        if (whole) { model = all; full = full || model.size() > 1; PBT_CHECK(in.End()); }
        else
        {
            // It has its old value or a part of the new one.
            const std::set<std::string> now(set.begin(), set.end());
            if (now != model) PBT_CHECK(std::includes(all.begin(), all.end(), now.begin(), now.end()), "an element that was not in the document");
            model = now;
        }

        auto same = [&](const auto& x) { return std::equal(x.begin(), x.end(), model.begin(), model.end()); };
        PBT_CHECK(same(set), "the set itself");
        PBT_CHECK(log.error.empty(), log.error);
        PBT_CHECK(same(log.seen), "an observer saw other changes");
        PBT_CHECK(same(mirror), "the mirror differs");
        PBT_CHECK(same(second), "the mirror of the mirror differs");
    }
    s.label(cut ? "a broken document" : "whole documents only");
    if (full) s.nontrivial();
}
