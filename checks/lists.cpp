// P05: the intrusive lists against sequences of pointers.
#include "pbt.h"
#include "Awl/QuickList.h"
#include "Awl/SingleList.h"
#include "Awl/SingleNodeIterator.h"

#include <algorithm>
#include <memory>

namespace
{
    AWL_DECLARE_QUICK_LINK(LinkB)
    AWL_DECLARE_MOVABLE_LINK(LinkM)

    struct Pad { virtual ~Pad() = default; long pad = 0x5a5a; };

    // The links are at different offsets of the element.
    struct Node : Pad, awl::quick_link, LinkB, LinkM, awl::single_link
    {
        int id;
        int data;
        explicit Node(int i) : id(i), data(i * 7) {}
        Node(Node&& o) : LinkM(std::move(static_cast<LinkM&>(o))), id(o.id), data(o.data) {}
        void move_link(Node& o) { static_cast<LinkM&>(*this) = std::move(static_cast<LinkM&>(o)); }
    };

    using ListA = awl::quick_list<Node>;
    using ListB = awl::quick_list<Node, LinkB>;
    using ListM = awl::quick_list<Node, LinkM>;
    using ListS = awl::single_list<Node>;
    using Values = awl::single_node_iterator<Node, awl::single_link, int, &Node::data>;
    using ConstValues = awl::single_node_iterator<const Node, const awl::single_link, const int, &Node::data>;

    template <class DLink> struct Kind
    {
        using List = awl::quick_list<Node, DLink>;
        struct Slot { std::unique_ptr<List> list; std::vector<Node*> model; };
        std::vector<Slot> slots;
        std::vector<Node*> stale; // left behind by clear(): may be inserted again, nothing else is promised
    };

    struct Machine
    {
        pbt::Src& s;
        std::vector<std::unique_ptr<Node>> pool;
        Kind<awl::quick_link> a;
        Kind<LinkB> b;
        Kind<LinkM> m;
        struct SSlot { std::unique_ptr<ListS> list; std::vector<Node*> model; };
        std::vector<SSlot> ss;
        std::vector<Node*> sstale;
        int next_id = 0;
        int splices = 0, moves = 0, middle = 0;

        explicit Machine(pbt::Src& src) : s(src) {}

        template <class V> static bool has(const V& v, Node* n) { return std::find(v.begin(), v.end(), n) != v.end(); }

        template <class K> static bool in_list(K& k, Node* n)
        {
            for (auto& x : k.slots) if (has(x.model, n)) return true;
            return false;
        }
        static void drop(std::vector<Node*>& v, Node* n) { v.erase(std::remove(v.begin(), v.end(), n), v.end()); }

        Node* fresh()
        {
            pool.push_back(std::make_unique<Node>(next_id++));
            return pool.back().get();
        }

        template <class K> Node* outside(K& k)
        {
            std::vector<Node*> free;
            for (auto& p : pool) if (!in_list(k, p.get())) free.push_back(p.get());
            if (free.empty() || s.chance(1, 4)) return fresh();
            Node* n = s.pick(free);
            drop(k.stale, n);
            return n;
        }

        template <class D> void check(Kind<D>& k)
        {
            for (auto& x : k.slots)
            {
                auto& l = *x.list;
                const auto& c = l;
                auto& v = x.model;
                PBT_CHECK(c.empty() == v.empty(), "empty()");
                PBT_CHECK(c.size() == v.size(), "size() is ", c.size(), " instead of ", v.size());
                PBT_CHECK(c.contains_one() == (v.size() == 1), "contains_one()");
                PBT_CHECK(c.empty_or_contains_one() == (v.size() <= 1), "empty_or_contains_one()");
                if (!v.empty())
                {
                    PBT_CHECK(l.front() == v.front() && c.front() == v.front(), "front()");
                    PBT_CHECK(l.back() == v.back() && c.back() == v.back(), "back()");
                }
                size_t i = 0;
                for (Node* n : l) { PBT_CHECK(i < v.size() && n == v[i], "element ", i, " of the iteration is wrong"); ++i; }
                PBT_CHECK(i == v.size(), "iteration is too short");
                i = 0;
                for (auto j = c.begin(); j != c.end(); j++) { PBT_CHECK(i < v.size() && *j == v[i] && j->id == v[i]->id, "element ", i, " of the const iteration is wrong"); ++i; }
                PBT_CHECK(i == v.size(), "const iteration is too short");
                for (auto j = l.rbegin(); j != l.rend(); ++j) { PBT_CHECK(i > 0 && *j == v[i - 1], "element ", i, " of the reverse iteration is wrong"); --i; }
                PBT_CHECK(i == 0, "reverse iteration is too short");
                i = v.size();
                for (auto j = c.rbegin(); j != c.rend(); ++j) { PBT_CHECK(i > 0 && *j == v[i - 1], "element ", i, " of the const reverse iteration is wrong"); --i; }
                PBT_CHECK(i == 0, "const reverse iteration is too short");
                i = v.size();
                for (auto j = l.end(); j != l.begin();) { if (s.tape.size() & 1) --j; else j--; PBT_CHECK(i > 0 && *j == v[i - 1], "element ", i, " when going back from the end is wrong"); --i; }
                PBT_CHECK(i == 0, "going back from the end is too short");
                i = 0;
                for (auto j = l.rend(); j != l.rbegin();) { --j; PBT_CHECK(i < v.size() && *j == v[i], "element ", i, " when going back from rend() is wrong"); ++i; }
                for (size_t q = 0; q < v.size(); ++q)
                {
                    D* d = v[q];
                    if (q + 1 < v.size()) PBT_CHECK(d->successor() == static_cast<D*>(v[q + 1]), "successor()");
                    if (q > 0) PBT_CHECK(d->predecessor() == static_cast<D*>(v[q - 1]), "predecessor()");
                }
            }
            for (auto& p : pool)
            {
                const D* d = p.get();
                if (!has(k.stale, p.get())) PBT_CHECK(d->included() == in_list(k, p.get()), "included() of element ", p->id);
                PBT_CHECK(p->data == p->id * 7 && p->pad == 0x5a5a, "element ", p->id, " was damaged");
            }
        }

        void check_single()
        {
            for (auto& x : ss)
            {
                auto& l = *x.list;
                const auto& c = l;
                auto& v = x.model;
                PBT_CHECK(c.empty() == v.empty() && c.size() == v.size(), "single_list: size");
                PBT_CHECK(c.contains_one() == (v.size() == 1) && c.empty_or_contains_one() == (v.size() <= 1), "single_list: contains_one");
                if (!v.empty()) PBT_CHECK(l.front() == v.front() && c.front() == v.front(), "single_list: front()");
                size_t i = 0;
                for (Node* n : l) { PBT_CHECK(i < v.size() && n == v[i], "single_list: element ", i); ++i; }
                PBT_CHECK(i == v.size(), "single_list: iteration is too short");
                i = 0;
                for (auto j = c.begin(); j != c.end(); j++) { PBT_CHECK(i < v.size() && j->id == v[i]->id, "single_list: const element ", i); ++i; }
                PBT_CHECK(i == v.size(), "single_list: const iteration is too short");
                // The values of the elements.
                i = 0;
                const Values end(l.end());
                const ConstValues const_end = end;
                for (Values j(l.begin()); j != end; ++i)
                {
                    PBT_CHECK(i < v.size() && &*j == &v[i]->data && j.operator->() == &v[i]->data, "single_node_iterator: element ", i);
                    const ConstValues k = j;
                    PBT_CHECK(&*k == &*j && k != const_end, "single_node_iterator: const element ", i);
                    const Values old = j;
                    if (i % 2) { const Values r = j++; PBT_CHECK(r == old && j != old, "single_node_iterator: i++"); }
                    else PBT_CHECK(&++j == &j && j != old, "single_node_iterator: ++i");
                }
                PBT_CHECK(i == v.size(), "single_node_iterator: iteration is too short");
            }
            for (auto& p : pool)
            {
                const awl::single_link* d = p.get();
                bool in = false;
                for (auto& x : ss) in = in || has(x.model, p.get());
                if (!has(sstale, p.get())) PBT_CHECK(d->included() == in, "single_link: included() of element ", p->id);
            }
        }

        template <class D> void op(Kind<D>& k, const char* name)
        {
            const size_t xi = s.below(k.slots.size());
            auto& x = k.slots[xi];
            auto& l = *x.list;
            auto& v = x.model;
            const size_t yi = (xi + 1 + s.below(k.slots.size() - 1)) % k.slots.size();
            auto& y = k.slots[yi];
            switch (s.weighted({ 14, 14, 6, 6, 10, 8, 8, 6, 6, 5, 4, 2, 2, 4, 2 }))
            {
            case 0: { Node* n = outside(k); s.note(name, xi, ".push_back(", n->id, ")"); l.push_back(n); v.push_back(n); break; }
            case 1: { Node* n = outside(k); s.note(name, xi, ".push_front(", n->id, ")"); l.push_front(n); v.insert(v.begin(), n); break; }
            case 2: if (!v.empty()) { s.note(name, xi, ".pop_front()"); Node* n = l.pop_front(); PBT_CHECK(n == v.front(), "pop_front() returned a wrong element"); v.erase(v.begin()); } break;
            case 3: if (!v.empty()) { s.note(name, xi, ".pop_back()"); Node* n = l.pop_back(); PBT_CHECK(n == v.back(), "pop_back() returned a wrong element"); v.pop_back(); } break;
            case 4: // insertion at an iterator
                if (!v.empty())
                {
                    Node* n = outside(k);
                    const size_t p = s.below(v.size());
                    if (p > 0 && p + 1 < v.size()) ++middle;
                    switch (s.below(4))
                    {
                    case 0: { s.note(name, xi, ".insert(after #", p, ", ", n->id, ")"); auto i = std::next(l.begin(), p); l.insert(i, n); v.insert(v.begin() + p + 1, n); break; }
                    case 1: { s.note(name, xi, ".insert(reverse, before #", p, ", ", n->id, ")"); auto i = std::next(l.rbegin(), v.size() - 1 - p); l.insert(i, n); v.insert(v.begin() + p, n); break; }
                    case 2: { s.note(name, " #", p, ".insert_after(", n->id, ")"); static_cast<D*>(v[p])->insert_after(n); v.insert(v.begin() + p + 1, n); break; }
                    case 3: { s.note(name, " #", p, ".insert_before(", n->id, ")"); static_cast<D*>(v[p])->insert_before(n); v.insert(v.begin() + p, n); break; }
                    }
                }
                break;
            case 5: // removal of any element
                if (!v.empty())
                {
                    const size_t p = s.below(v.size());
                    if (p > 0 && p + 1 < v.size()) ++middle;
                    Node* n = v[p];
                    switch (s.below(5))
                    {
                    case 0: s.note(name, xi, ".erase(iterator #", p, ")"); l.erase(std::next(l.begin(), p)); break;
                    case 1: s.note(name, xi, ".erase(reverse iterator #", p, ")"); l.erase(std::next(l.rbegin(), v.size() - 1 - p)); break;
                    case 2: s.note(name, xi, ".erase(element #", p, ")"); l.erase(n); break;
                    case 3: s.note(name, " #", p, ".exclude()"); static_cast<D*>(n)->exclude(); break;
                    case 4: s.note(name, " #", p, ".safe_exclude()"); static_cast<D*>(n)->safe_exclude(); static_cast<D*>(n)->safe_exclude(); break;
                    }
                    v.erase(v.begin() + p);
                }
                break;
            case 6: s.note(name, xi, ".push_back(all of ", name, yi, ")"); l.push_back(*y.list); v.insert(v.end(), y.model.begin(), y.model.end()); if (v.size() > y.model.size() && y.model.size() > 1) ++splices; y.model.clear(); break;
            case 7: s.note(name, xi, ".push_front(all of ", name, yi, ")"); l.push_front(*y.list); v.insert(v.begin(), y.model.begin(), y.model.end()); if (v.size() > y.model.size() && y.model.size() > 1) ++splices; y.model.clear(); break;
            case 8: // move construction
            {
                s.note(name, xi, " is moved into a new list");
                auto n = std::make_unique<typename Kind<D>::List>(std::move(l));
                PBT_CHECK(l.empty() && l.size() == 0, "a moved-from list is not empty");
                if (s.flag()) { x.list = std::move(n); } // the old one is destroyed
                else
                {
                    // The old one is still usable.
                    Node* e = outside(k);
                    l.push_back(e);
                    PBT_CHECK(l.front() == e && l.back() == e && l.size() == 1, "a moved-from list is not usable");
                    l.erase(e);
                    x.list = std::move(n);
                }
                ++moves;
                break;
            }
            case 9: // move assignment to an empty list
                if (y.model.empty()) { s.note(name, yi, " = std::move(", name, xi, ")"); *y.list = std::move(l); y.model = std::move(v); v.clear(); ++moves; }
                break;
            case 10: s.note(name, xi, ".clear()"); l.clear(); k.stale.insert(k.stale.end(), v.begin(), v.end()); v.clear(); break;
            case 11:
            {
                if (!v.empty()) break;
                s.note(name, xi, " is built from an initializer list");
                Node* p = outside(k); x.model.push_back(p);
                Node* q = outside(k); x.model.push_back(q);
                Node* r = outside(k); x.model.push_back(r);
                x.list = std::make_unique<typename Kind<D>::List>(std::initializer_list<Node*>{ p, q, r });
                break;
            }
            case 12: // erase while iterating
            {
                s.note(name, xi, ": erase the elements with an even id while iterating");
                for (auto i = l.begin(); i != l.end();) { auto j = i++; if (j->id % 2 == 0) l.erase(j); }
                v.erase(std::remove_if(v.begin(), v.end(), [](Node* n) { return n->id % 2 == 0; }), v.end());
                break;
            }
            case 13: // destroy an element after taking it out of everything
            {
                if (pool.empty()) break;
                const size_t p = s.below(pool.size());
                Node* n = pool[p].get();
                s.note("element ", n->id, " leaves every list and is destroyed");
                auto leave = [&](auto& kk, auto* link)
                {
                    if (has(kk.stale, n)) drop(kk.stale, n); else link->safe_exclude();
                    for (auto& z : kk.slots) drop(z.model, n);
                };
                bool in_single = false;
                for (auto& z : ss) in_single = in_single || has(z.model, n);
                if (in_single) break;
                drop(sstale, n);
                leave(a, static_cast<awl::quick_link*>(n));
                leave(b, static_cast<LinkB*>(n));
                leave(m, static_cast<LinkM*>(n));
                pool.erase(pool.begin() + p);
                break;
            }
            case 14:
            {
                auto i = std::find_if(l.begin(), l.end(), [&](Node* n) { return n->id >= next_id / 2; });
                auto j = std::find_if(v.begin(), v.end(), [&](Node* n) { return n->id >= next_id / 2; });
                PBT_CHECK((i == l.end()) == (j == v.end()), "find_if");
                if (j != v.end()) PBT_CHECK(*i == *j, "find_if");
                typename Kind<D>::List::const_iterator ci = i;
                PBT_CHECK(ci == static_cast<typename Kind<D>::List::const_iterator>(i), "const_iterator made of an iterator");
                break;
            }
            }
        }

        void move_op()
        {
            if (pool.empty()) return;
            Node* n = pool[s.below(pool.size())].get();
            if (has(m.stale, n)) return;
            const bool included = in_list(m, n);
            if (s.flag())
            {
                s.note("element ", n->id, " is moved into a new one");
                pool.push_back(std::make_unique<Node>(std::move(*n)));
                Node* t = pool.back().get();
                t->id = next_id++;
                t->data = t->id * 7;
                for (auto& x : m.slots) std::replace(x.model.begin(), x.model.end(), n, t);
            }
            else
            {
                Node* t = pool[s.below(pool.size())].get();
                if (t == n || has(m.stale, t)) return;
                s.note("the link of element ", n->id, " is move-assigned to ", t->id);
                t->move_link(*n);
                for (auto& x : m.slots) drop(x.model, t);
                for (auto& x : m.slots) std::replace(x.model.begin(), x.model.end(), n, t);
            }
            if (included) ++moves;
        }

        void single_op()
        {
            const size_t xi = s.below(ss.size());
            auto& x = ss[xi];
            switch (s.weighted({ 6, 3, 1 }))
            {
            case 0:
            {
                std::vector<Node*> free;
                for (auto& p : pool) { bool in = false; for (auto& z : ss) in = in || has(z.model, p.get()); if (!in) free.push_back(p.get()); }
                Node* n = free.empty() || s.chance(1, 4) ? fresh() : s.pick(free);
                drop(sstale, n);
                s.note("single", xi, ".push_front(", n->id, ")");
                x.list->push_front(n);
                x.model.insert(x.model.begin(), n);
                break;
            }
            case 1:
                if (x.model.empty()) break;
                s.note("single", xi, ".pop_front()");
                PBT_CHECK(x.list->pop_front() == x.model.front(), "single_list: pop_front() returned a wrong element");
                x.model.erase(x.model.begin());
                break;
            case 2:
                s.note("single", xi, ".clear()");
                x.list->clear();
                sstale.insert(sstale.end(), x.model.begin(), x.model.end());
                x.model.clear();
                break;
            }
        }

        template <class K> void init(K& k, size_t n)
        {
            k.slots.resize(n);
            for (auto& x : k.slots) x.list = std::make_unique<std::decay_t<decltype(*x.list)>>();
        }

        void run()
        {
            init(a, 3); init(b, 2); init(m, 2);
            ss.resize(2);
            for (auto& x : ss) x.list = std::make_unique<ListS>();
            const size_t ops = 1 + s.length(s.chance(1, 4) ? 150 : 50);
            for (size_t i = 0; i < ops; ++i)
            {
                switch (s.weighted({ 8, 5, 5, 2, 3 }))
                {
                case 0: op(a, "A"); break;
                case 1: op(b, "B"); break;
                case 2: op(m, "M"); break;
                case 3: move_op(); break;
                case 4: single_op(); break;
                }
                check(a); check(b); check(m); check_single();
            }
            if (splices) s.label("splice of two non-empty lists");
            if (moves) s.label("move");
            if (middle) s.label("insert or erase in the middle");
            if (middle && (splices || moves)) s.nontrivial();
            s.count("operations", ops);
        }
    };
}

PBT_PROPERTY(intrusive_lists, 24000, 400000) { Machine(s).run(); }

PBT_PROPERTY(long_lists, 40, 1000)
{
    const size_t n = s.chance(1, 2) ? 65500 + s.below(200) : 200 + s.below(300);
    s.note(n, " elements");
    std::vector<std::unique_ptr<Node>> nodes;
    ListA a, other;
    ListS single;
    const size_t head = s.below(n);
    for (size_t i = 0; i < n; ++i)
    {
        nodes.push_back(std::make_unique<Node>(static_cast<int>(i)));
        (i < head ? a : other).push_back(nodes.back().get());
        single.push_front(nodes.back().get());
    }
    PBT_CHECK(a.size() == head && other.size() == n - head, a.size(), " and ", other.size(), " elements instead of ", head, " and ", n - head);
    a.push_back(other);
    PBT_CHECK(a.size() == n && other.empty() && a.contains_one() == (n == 1), a.size(), " elements instead of ", n);
    size_t k = 0;
    for (Node* x : a) PBT_CHECK(k < n && x == nodes[k++].get(), "element ", k, " of a long list");
    PBT_CHECK(k == n, k, " elements are visited instead of ", n);
    for (auto i = a.rbegin(); i != a.rend(); ++i) PBT_CHECK(k != 0 && *i == nodes[--k].get(), "element ", k, " of a long list backwards");
    PBT_CHECK(k == 0, "backwards, ", k, " elements are missing");
    k = n;
    while (!single.empty()) { Node* x = single.pop_front(); PBT_CHECK(k != 0 && x == nodes[--k].get(), "element ", k, " of a long single list"); }
    PBT_CHECK(k == 0, k, " elements are missing in a single list");
    for (size_t i = 0; i < n; i += 2) PBT_CHECK(nodes[i]->awl::quick_link::included(), "element ", i, " is not in the list"); 
    for (size_t i = 0; i < n; i += 2) { nodes[i]->awl::quick_link::exclude(); nodes[i].reset(); }
    PBT_CHECK(a.size() == n / 2, a.size(), " elements are left of ", n);
    s.nontrivial();
}
