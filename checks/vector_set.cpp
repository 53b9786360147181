// P01: vector_set against a sorted sequence. P02 (cost) lives in vector_set_cost.cpp.
#include "pbt.h"
#include "tracked.h"
#include "Awl/VectorSet.h"

#include <algorithm>
#include <memory>
#include <optional>

namespace
{
    struct Elem
    {
        Tracked key;
        int tag;
        Elem(int64_t k, int t) : key(k), tag(t) {}
    };

    struct ElemLess
    {
        using is_transparent = void;
        bool desc = false;
        template <class A, class B>
        bool operator()(const A& a, const B& b) const { return desc ? get(b) < get(a) : get(a) < get(b); }
        static int64_t get(const Elem& e) { e.key.check("compared"); return e.key.value; }
        static int64_t get(int64_t k) { return k; }
    };

    struct TrackedTraits
    {
        using Set = awl::vector_set<Elem, ElemLess, ArenaAllocator<Elem>>;
        static constexpr bool tagged = true;
        static constexpr bool emplace2 = true;
        static constexpr bool faults = true;
        Arena arenas[2];
        Set empty(bool desc, unsigned a) { return Set(ElemLess{ desc }, ArenaAllocator<Elem>(&arenas[a])); }
        Set from_list(bool desc, unsigned a, std::initializer_list<Elem> l) { return Set(l, ElemLess{ desc }, ArenaAllocator<Elem>(&arenas[a])); }
        Set from_range(bool desc, unsigned a, const std::vector<Elem>& v) { return Set(v.begin(), v.end(), ElemLess{ desc }, ArenaAllocator<Elem>(&arenas[a])); }
        static Elem make(int64_t k, int tag) { return Elem(k, tag); }
        static int64_t query(int64_t k) { return k; }
        static int64_t key(const Elem& e) { return e.key.value; }
        static int tag(const Elem& e) { return e.tag; }
        static bool intact(const Elem& e) { return e.key.intact(); }
        static bool before(bool desc, int64_t a, int64_t b) { return desc ? b < a : a < b; }
    };

    struct IntTraits
    {
        using Set = awl::vector_set<int64_t>;
        static constexpr bool tagged = false;
        static constexpr bool emplace2 = false;
        static constexpr bool faults = false;
        Set empty(bool, unsigned) { return Set(); }
        Set from_list(bool, unsigned, std::initializer_list<int64_t> l) { return Set(l); }
        Set from_range(bool, unsigned, const std::vector<int64_t>& v) { return Set(v.begin(), v.end(), std::less<>()); }
        static int64_t make(int64_t k, int) { return k; }
        static int64_t query(int64_t k) { return k; }
        static int64_t key(int64_t e) { return e; }
        static int tag(int64_t) { return 0; }
        static bool intact(int64_t) { return true; }
        static bool before(bool, int64_t a, int64_t b) { return a < b; }
    };

    struct StringTraits
    {
        using Set = awl::vector_set<std::string, std::greater<std::string>>;
        static constexpr bool tagged = false;
        static constexpr bool emplace2 = false;
        static constexpr bool faults = false;
        static std::string name(int64_t k) { char b[64]; std::snprintf(b, sizeof b, "key number %08lld", static_cast<long long>(k + 20000000)); return b; }
        Set empty(bool, unsigned) { return Set(); }
        Set from_list(bool, unsigned, std::initializer_list<std::string> l) { return Set(l); }
        Set from_range(bool, unsigned, const std::vector<std::string>& v) { return Set(v.begin(), v.end(), std::greater<std::string>()); }
        static std::string make(int64_t k, int) { return name(k); }
        static std::string query(int64_t k) { return name(k); }
        static int64_t key(const std::string& e) { return std::atoll(e.c_str() + 11) - 20000000; }
        static int tag(const std::string&) { return 0; }
        static bool intact(const std::string&) { return true; }
        static bool before(bool, int64_t a, int64_t b) { return b < a; }
    };

    struct Entry
    {
        int64_t key;
        int tag;
        const void* address;
    };

    template <class Tr>
    struct Machine
    {
        using Set = typename Tr::Set;
        pbt::Src& s;
        Tr tr;
        struct Slot
        {
            std::optional<Set> set;
            bool desc = false;
            std::vector<Entry> model;
        };
        std::vector<Slot> slots{ 3 };
        int next_tag = 1;
        int64_t key_space = 16;
        uint64_t mutations = 0, erases = 0;
        size_t max_size = 0;

        explicit Machine(pbt::Src& src) : s(src) {}

        size_t position(const Slot& x, int64_t k) const
        {
            return std::lower_bound(x.model.begin(), x.model.end(), k, [&](const Entry& e, int64_t v) { return Tr::before(x.desc, e.key, v); }) - x.model.begin();
        }
        bool has(const Slot& x, size_t p, int64_t k) const { return p < x.model.size() && x.model[p].key == k; }

        int64_t any_key(const Slot& x)
        {
            if (!x.model.empty() && s.chance(1, 2)) return x.model[s.below(x.model.size())].key + s.range<int64_t>(-1, 1) * static_cast<int64_t>(s.chance(1, 3));
            return s.range<int64_t>(0, key_space);
        }

        void check_element(Slot& x, size_t i, const typename Set::value_type& v)
        {
            const Entry& e = x.model[i];
            PBT_CHECK(Tr::key(v) == e.key, "element ", i, ": ", Tr::key(v), " instead of ", e.key);
            PBT_CHECK(!Tr::tagged || Tr::tag(v) == e.tag, "element with key ", e.key, " was replaced: tag ", Tr::tag(v), " instead of ", e.tag);
            PBT_CHECK(Tr::intact(v), "damaged element ", e.key);
            PBT_CHECK(static_cast<const void*>(&v) == e.address, "the element with key ", e.key, " has moved in memory");
        }

        template <class It>
        void check_iterator(Slot& x, It i, size_t pos, It end)
        {
            if (pos >= x.model.size()) { PBT_CHECK(i == end, "an iterator that should be end() is not"); }
            else
            {
                PBT_CHECK(i != end, "end() instead of the element ", x.model[pos].key);
                check_element(x, pos, *i);
            }
        }

        void check_queries(Slot& x, int64_t k)
        {
            Set& a = *x.set;
            const Set& c = a;
            const size_t p = position(x, k);
            const bool present = has(x, p, k);
            const size_t ub = present ? p + 1 : p;
            const auto q = Tr::query(k);
            check_iterator(x, a.find(q), present ? p : x.model.size(), a.end());
            check_iterator(x, c.find(q), present ? p : x.model.size(), c.end());
            PBT_CHECK(c.contains(q) == present, "contains(", k, ")");
            check_iterator(x, a.lower_bound(q), p, a.end());
            check_iterator(x, c.lower_bound(q), p, c.end());
            check_iterator(x, a.upper_bound(q), ub, a.end());
            check_iterator(x, c.upper_bound(q), ub, c.end());
            {
                auto [i, n] = a.find2(q);
                check_iterator(x, i, present ? p : x.model.size(), a.end());
                if (present) { PBT_CHECK(n == p, "find2(", k, ") index ", n, " instead of ", p); }
                auto [ci, cn] = c.find2(q);
                check_iterator(x, ci, present ? p : x.model.size(), c.end());
                if (present) { PBT_CHECK(cn == p, "find2(", k, ") index ", cn, " instead of ", p); }
            }
            if (present)
            {
                PBT_CHECK(c.index_of(q) == p, "index_of(", k, ") is ", c.index_of(q), " instead of ", p);
                PBT_CHECK(c.index_of(a.find(q)) == p, "index_of(iterator to ", k, ")");
                PBT_CHECK(c.index_of(c.find(q)) == p, "index_of(const_iterator to ", k, ")");
            }
            else
            {
                bool thrown = false;
                try { c.index_of(q); } catch (const std::out_of_range&) { thrown = true; }
                PBT_CHECK(thrown, "index_of(absent key) did not throw");
            }
        }

        void check_position(Slot& x, size_t i)
        {
            Set& a = *x.set;
            const Set& c = a;
            check_iterator(x, a.find_by_index(i), i, a.end());
            check_iterator(x, c.find_by_index(i), i, c.end());
            if (i < x.model.size())
            {
                check_element(x, i, a[i]);
                check_element(x, i, c[i]);
                check_element(x, i, a.at(i));
                check_element(x, i, c.at(i));
            }
            else
            {
                int thrown = 0;
                try { a.at(i); } catch (const std::out_of_range&) { ++thrown; }
                try { c.at(i); } catch (const std::out_of_range&) { ++thrown; }
                PBT_CHECK(thrown == 2, "at(", i, ") of ", x.model.size(), " elements did not throw");
            }
        }

        void check_full(Slot& x)
        {
            Set& a = *x.set;
            const Set& c = a;
            const size_t n = x.model.size();
            PBT_CHECK(c.size() == n, "size() is ", c.size(), " instead of ", n);
            PBT_CHECK(c.empty() == (n == 0), "empty()");
            size_t i = 0;
            for (auto& v : a) { PBT_CHECK(i < n, "too many elements in iteration"); check_element(x, i++, v); }
            PBT_CHECK(i == n, "too few elements in iteration: ", i, " of ", n);
            i = 0;
            for (auto& v : c) { PBT_CHECK(i < n, "too many elements in const iteration"); check_element(x, i++, v); }
            PBT_CHECK(i == n, "too few elements in const iteration");
            for (auto r = a.rbegin(); r != a.rend(); ++r) { PBT_CHECK(i > 0, "too many elements in reverse iteration"); check_element(x, --i, *r); }
            PBT_CHECK(i == 0, "too few elements in reverse iteration");
            i = n;
            for (auto r = c.rbegin(); r != c.rend(); r++) { PBT_CHECK(i > 0, "too many elements in const reverse iteration"); check_element(x, --i, *r); }
            PBT_CHECK(i == 0, "too few elements in const reverse iteration");
            if (n != 0)
            {
                check_element(x, 0, a.front());
                check_element(x, 0, c.front());
                check_element(x, n - 1, a.back());
                check_element(x, n - 1, c.back());
                auto e = a.end();
                for (i = n; i > 0;) { --e; check_element(x, --i, *e); }
                PBT_CHECK(e == a.begin(), "walking back from end() does not arrive at begin()");
            }
            for (i = 0; i < n; ++i)
            {
                check_element(x, i, c[i]);
                PBT_CHECK(c.index_of(Tr::query(x.model[i].key)) == i, "index_of(", x.model[i].key, ")");
                PBT_CHECK(c.index_of(a.find_by_index(i)) == i, "index_of(iterator)");
            }
            check_position(x, n);
        }

        void check_some(Slot& x)
        {
            const size_t n = x.model.size();
            PBT_CHECK(x.set->size() == n, "size() is ", x.set->size(), " instead of ", n);
            check_queries(x, any_key(x));
            check_position(x, static_cast<size_t>(s.draw(n + 1)));
            if (n <= 24 || s.chance(1, 16)) check_full(x);
        }

        void refresh_addresses(Slot& x)
        {
            size_t i = 0;
            for (auto& v : *x.set) { if (i < x.model.size()) x.model[i].address = &v; ++i; }
        }

        void check_env()
        {
            Lives& l = Lives::get();
            if (!l.error.empty()) s.fail(l.error);
            if constexpr (Tr::faults)
            {
                for (auto& a : tr.arenas) if (!a.error.empty()) s.fail(a.error);
            }
        }

        void op()
        {
            const size_t xi = s.weighted({ 6, 2, 1 });
            Slot& x = slots[xi];
            Set& a = *x.set;
            const size_t n = x.model.size();
            switch (s.weighted({ 30, 10, 12, 18, 14, 1, 2, 2, 2, 2, 2, 2, 3, 2, 1, 3 }))
            {
            case 0: insert(x, xi, any_key(x), s.below(2)); break;
            case 1: emplace(x, xi, any_key(x)); break;
            case 2: // a run of neighbouring insertions
            {
                const int64_t start = any_key(x), step = s.flag() ? 1 : -1;
                const size_t k = s.length(24);
                for (size_t i = 0; i < k; ++i) insert(x, xi, start + step * static_cast<int64_t>(i), 0);
                break;
            }
            case 3:
            {
                const int64_t k = any_key(x);
                const size_t p = position(x, k);
                const bool present = has(x, p, k);
                s.note("set", xi, ".erase(", k, ")", present ? "" : " // absent");
                const size_t r = a.erase(Tr::query(k));
                PBT_CHECK(r == (present ? 1u : 0u), "erase(key) returned ", r);
                if (present) { x.model.erase(x.model.begin() + p); ++erases; }
                break;
            }
            case 4:
            {
                if (n == 0) break;
                const size_t p = s.below(n);
                s.note("set", xi, ".erase(iterator to #", p, " = ", x.model[p].key, ")");
                if (s.flag()) a.erase(a.find_by_index(p)); else a.erase(a.find(Tr::query(x.model[p].key)));
                x.model.erase(x.model.begin() + p);
                ++erases;
                break;
            }
            case 5:
                s.note("set", xi, ".clear()");
                a.clear();
                x.model.clear();
                break;
            case 6: // copy construction
            {
                const size_t yi = s.below(slots.size());
                Slot& y = slots[yi];
                if (xi == yi) break;
                s.note("set", xi, " = copy-constructed from set", yi);
                x.set.reset();
                x.set.emplace(*y.set);
                x.desc = y.desc;
                x.model = y.model;
                refresh_addresses(x);
                PBT_CHECK(*x.set == *y.set && !(*x.set != *y.set), "a copy is not equal to its source");
                check_full(x);
                check_full(y);
                break;
            }
            case 7: // copy assignment
            {
                const size_t yi = s.below(slots.size());
                Slot& y = slots[yi];
                s.note("set", xi, " = set", yi);
                *x.set = *y.set;
                if (xi != yi)
                {
                    x.desc = y.desc;
                    x.model = y.model;
                }
                refresh_addresses(x);
                check_full(x);
                check_full(y);
                break;
            }
            case 8: // move construction
            {
                const size_t yi = s.below(slots.size());
                Slot& y = slots[yi];
                if (xi == yi) break;
                s.note("set", xi, " = move-constructed from set", yi);
                x.set.reset();
                x.set.emplace(std::move(*y.set));
                x.desc = y.desc;
                x.model = std::move(y.model);
                y.model.clear();
                check_full(x);
                check_full(y);
                break;
            }
            case 9: // move assignment
            {
                const size_t yi = s.below(slots.size());
                Slot& y = slots[yi];
                if (xi == yi) break;
                s.note("set", xi, " = std::move(set", yi, ")");
                *x.set = std::move(*y.set);
                x.desc = y.desc;
                x.model = std::move(y.model);
                y.model.clear();
                check_full(x);
                check_full(y);
                break;
            }
            case 10:
            {
                const size_t yi = s.below(slots.size());
                Slot& y = slots[yi];
                if (xi == yi) break;
                s.note("swap(set", xi, ", set", yi, ")");
                using std::swap;
                swap(*x.set, *y.set);
                std::swap(x.model, y.model);
                std::swap(x.desc, y.desc);
                check_full(x);
                check_full(y);
                break;
            }
            case 11: // comparison
            {
                const size_t yi = s.below(slots.size());
                Slot& y = slots[yi];
                if (x.desc != y.desc) break;
                bool same = x.model.size() == y.model.size();
                for (size_t i = 0; same && i < x.model.size(); ++i) same = x.model[i].key == y.model[i].key;
                PBT_CHECK((*x.set == *y.set) == same, "operator ==");
                PBT_CHECK((*x.set != *y.set) == !same, "operator !=");
                break;
            }
            case 12: // a walk from the middle
            {
                if (n == 0) break;
                size_t p = s.below(n);
                auto i = a.find_by_index(p);
                typename Set::const_iterator ci = i;
                for (int k = 0; k < 12; ++k)
                {
                    if (s.flag()) { if (p < n) { ++p; if (s.flag()) ++i; else i++; ++ci; } }
                    else if (p > 0) { --p; if (s.flag()) --i; else i--; ci--; }
                    check_iterator(x, i, p, a.end());
                    check_iterator(x, ci, p, static_cast<const Set&>(a).end());
                }
                break;
            }
            case 13: // construction from a list or a range
            {
                std::vector<int64_t> ks;
                for (size_t k = s.length(12); k > 0; --k) ks.push_back(any_key(x));
                const bool desc = s.flag();
                const unsigned ar = static_cast<unsigned>(s.below(2));
                const bool list = s.chance(1, 2);
                s.note("set", xi, " = constructed from ", ks.size(), " values", list ? " (list)" : " (range)");
                x.set.reset();
                x.model.clear();
                x.desc = desc;
                std::vector<int> tags;
                if (list)
                {
                    int64_t k[3] = { ks.size() > 0 ? ks[0] : 1, ks.size() > 1 ? ks[1] : 2, ks.size() > 2 ? ks[2] : 1 };
                    const int t = next_tag;
                    next_tag += 3;
                    x.set.emplace(tr.from_list(desc, ar, { Tr::make(k[0], t), Tr::make(k[1], t + 1), Tr::make(k[2], t + 2) }));
                    for (int i = 0; i < 3; ++i) model_insert(x, k[i], t + i);
                }
                else
                {
                    std::vector<typename Set::value_type> v;
                    const int t = next_tag;
                    next_tag += static_cast<int>(ks.size());
                    for (size_t i = 0; i < ks.size(); ++i) v.push_back(Tr::make(ks[i], t + static_cast<int>(i)));
                    x.set.emplace(tr.from_range(desc, ar, v));
                    for (size_t i = 0; i < ks.size(); ++i) model_insert(x, ks[i], t + static_cast<int>(i));
                }
                refresh_addresses(x);
                check_full(x);
                break;
            }
            case 14: // erase most of the elements in some order
            {
                if (n < 4) break;
                const size_t order = s.below(4);
                size_t k = n - s.below(std::min<size_t>(n, 6)) - 1;
                s.note("set", xi, ": erase ", k, " elements, order ", order);
                while (k-- > 0)
                {
                    const size_t m = x.model.size();
                    size_t p = order == 0 ? 0 : order == 1 ? m - 1 : order == 2 ? m / 2 : s.below(m);
                    a.erase(Tr::query(x.model[p].key));
                    x.model.erase(x.model.begin() + p);
                    ++erases;
                    if (s.chance(1, 8)) check_some(x);
                }
                check_full(x);
                break;
            }
            case 15:
            {
                if constexpr (Tr::faults)
                {
                    // The construction of an element fails: nothing changes, nothing leaks.
                    const int64_t k = any_key(x);
                    const size_t before = tr.arenas[0].blocks.size() + tr.arenas[1].blocks.size();
                    if (s.chance(1, 2))
                    {
                        Slot& y = slots[s.below(slots.size())];
                        const size_t what = s.below(4);
                        bool thrown = false;
                        {
                            const Elem e(k, 0), f(k + 1, 0), g(k - 1, 0);
                            const std::vector<Elem> v{ e, f, g };
                            if (s.chance(1, 6)) { tr.arenas[0].fail = true; tr.arenas[1].fail = true; }
                            else Lives::get().throw_in = static_cast<int64_t>(1 + s.below(6));
                            try
                            {
                                if (what == 0) { Set copy(*y.set); PBT_CHECK(copy.size() == y.model.size(), "the size of a copy"); }
                                else if (what == 1) { Set list({ e, f, g, e }, ElemLess{ x.desc }, ArenaAllocator<Elem>(&tr.arenas[s.below(2)])); }
                                else if (what == 2) tr.from_range(x.desc, static_cast<unsigned>(s.below(2)), v);
                                else
                                {
                                    a = *y.set;
                                    if (&x != &y) { x.model = y.model; x.desc = y.desc; } refresh_addresses(x);
                                }
                            }
                            catch (const InjectedError&) { thrown = true; }
                            catch (const std::bad_alloc&) { thrown = true; }
                            Lives::get().throw_in = 0;
                            for (auto& arena : tr.arenas) arena.fail = false;
                        }
                        s.note(what == 0 ? "a copy" : what == 1 ? "a set of a list" : what == 2 ? "a set of a range" : "an assignment", thrown ? " that fails" : "");
                        if (thrown) s.label(what == 3 ? "failed assignment" : "failed construction of a set");
                        const size_t after = tr.arenas[0].blocks.size() + tr.arenas[1].blocks.size();
                        if (thrown) PBT_CHECK(before == after, "a failed construction leaked ", static_cast<int64_t>(after - before), " block(s)");
                        check_full(x);
                        break;
                    }
                    const bool em = s.flag();
                    s.note("set", xi, em ? ".emplace(" : ".insert(", k, ") with a throwing constructor");
                    bool thrown = false;
                    const bool present = has(x, position(x, k), k);
                    try
                    {
                        if (em) { Lives::get().throw_in = 1; a.emplace(k, next_tag); }
                        else { Elem e(k, next_tag); Lives::get().throw_in = 1; a.insert(e); }
                    }
                    catch (const InjectedError&) { thrown = true; }
                    Lives::get().throw_in = 0;
                    PBT_CHECK(thrown || (present && !em), "the exception was lost");
                    const size_t after = tr.arenas[0].blocks.size() + tr.arenas[1].blocks.size();
                    PBT_CHECK(before == after, "a failed insertion leaked ", static_cast<int64_t>(after - before), " block(s)");
                    check_full(x);
                    s.label("failed insertion");
                }
                break;
            }
            }
            ++mutations;
            max_size = std::max(max_size, x.model.size());
            check_env();
            check_some(slots[xi]);
        }

        void model_insert(Slot& x, int64_t k, int tag)
        {
            const size_t p = position(x, k);
            if (!has(x, p, k)) x.model.insert(x.model.begin() + p, Entry{ k, tag, nullptr });
        }

        template <class R>
        void inserted(Slot& x, const R& r, int64_t k, int tag)
        {
            const size_t p = position(x, k);
            const bool present = has(x, p, k);
            PBT_CHECK(r.second == !present, "insert(", k, ") reported ", r.second);
            PBT_CHECK(Tr::key(*r.first) == k, "insert(", k, ") returned an iterator to ", Tr::key(*r.first));
            if (!present) x.model.insert(x.model.begin() + p, Entry{ k, tag, &*r.first });
            check_element(x, p, *r.first);
        }

        void insert(Slot& x, size_t xi, int64_t k, size_t how)
        {
            const int tag = next_tag++;
            s.note("set", xi, ".insert(", k, ")");
            if (how == 0)
            {
                const typename Set::value_type v = Tr::make(k, tag);
                auto r = x.set->insert(v);
                inserted(x, r, k, tag);
                PBT_CHECK(Tr::key(v) == k, "insert(const &) changed its argument");
            }
            else
            {
                typename Set::value_type v = Tr::make(k, tag);
                auto r = x.set->insert(std::move(v));
                inserted(x, r, k, tag);
            }
        }

        void emplace(Slot& x, size_t xi, int64_t k)
        {
            const int tag = next_tag++;
            s.note("set", xi, ".emplace(", k, ")");
            if constexpr (Tr::emplace2)
            {
                auto r = x.set->emplace(k, tag);
                inserted(x, r, k, tag);
            }
            else
            {
                auto r = x.set->emplace(Tr::make(k, tag));
                inserted(x, r, k, tag);
            }
        }

        void run()
        {
            Lives::get().reset();
            key_space = s.pick<int64_t>({ 8, 16, 60, 300, 5000, 1000000 });
            for (size_t i = 0; i < slots.size(); ++i)
            {
                slots[i].desc = s.flag();
                slots[i].set.emplace(tr.empty(slots[i].desc, i % 2));
                check_full(slots[i]);
            }
            const size_t ops = 1 + s.length(s.chance(1, 6) ? 300 : 50);
            for (size_t i = 0; i < ops; ++i) op();
            for (auto& x : slots) check_full(x);
            s.maximum("largest set", max_size);
            s.count("operations", mutations);
            s.count("erased", erases);
            if (max_size > 32) s.label("more than 32 elements");
            if (max_size >= 3 && erases > 0) s.nontrivial();
            slots.clear();
            check_env();
            if constexpr (Tr::faults)
            {
                PBT_CHECK(Lives::get().live.empty(), Lives::get().live.size(), " elements outlive their sets");
                PBT_CHECK(tr.arenas[0].blocks.empty() && tr.arenas[1].blocks.empty(), "memory was not returned to the allocator");
            }
        }
    };

    template <class Tr>
    void run_machine(pbt::Src& s)
    {
        Machine<Tr> m(s);
        try { m.run(); }
        catch (const LifetimeError& e) { s.fail(e.msg); }
    }
}

PBT_PROPERTY(set_of_tracked, 16000, 260000) { run_machine<TrackedTraits>(s); }
PBT_PROPERTY(set_of_int, 12000, 200000) { run_machine<IntTraits>(s); }
PBT_PROPERTY(set_of_string, 8000, 120000) { run_machine<StringTraits>(s); }

// Numbers of elements that do not fit into a byte or into two.
PBT_PROPERTY(large_sets, 24, 600)
{
    const size_t n = s.chance(1, 3) ? 65500 + s.below(5000) : 200 + s.below(s.flag() ? 200 : 40000);
    const size_t shape = s.draw(2), keep = 1 + s.below(5);
    s.note(n, " elements, shape ", shape, ", one of ", keep, " is removed");
    auto value = [&](size_t i) { return static_cast<int>(shape == 0 ? i : shape == 1 ? n - 1 - i : i * 7919 % n); };
    std::vector<char> in(n, 0);
    awl::vector_set<int> v;
    for (size_t i = 0; i < n; ++i)
    {
        const int x = value(i);
        PBT_CHECK(v.insert(x).second == !in[static_cast<size_t>(x)], "insert ", x);
        in[static_cast<size_t>(x)] = 1;
    }
    std::vector<int> model;
    auto same = [&](awl::vector_set<int>& w, const char* what)
    {
        model.clear();
        for (size_t i = 0; i < n; ++i) if (in[i]) model.push_back(static_cast<int>(i));
        PBT_CHECK(w.size() == model.size(), what, ": size ", w.size(), " instead of ", model.size());
        PBT_CHECK(std::equal(model.begin(), model.end(), w.begin(), w.end()), what, ": the elements");
        size_t k = model.size();
        for (auto i = w.rbegin(); i != w.rend(); ++i) PBT_CHECK(k != 0 && *i == model[--k], what, ": the elements in the reverse order");
        PBT_CHECK(k == 0, what, ": ", k, " elements are missing in the reverse order");
        for (size_t k = 0; k < 200 && !model.empty(); ++k)
        {
            const size_t p = k < 3 ? std::min(k, model.size() - 1) : k < 6 ? model.size() - std::min(k - 2, model.size()) : s.below(model.size());
            PBT_CHECK(w.at(p) == model[p] && w[p] == model[p], what, ": element ", p, " of ", model.size(), " is ", w.at(p), " instead of ", model[p]);
            PBT_CHECK(w.index_of(model[p]) == p && w.index_of(w.find(model[p])) == p, what, ": index_of ", model[p], " is ", w.index_of(model[p]), " instead of ", p);
        }
        bool thrown = false;
        try { w.at(model.size()); } catch (const std::out_of_range&) { thrown = true; }
        PBT_CHECK(thrown, what, ": at(size()) does not throw");
    };
    same(v, "inserted");
    const awl::vector_set<int> copy = v;
    for (size_t i = 0; i < n; i += keep + 1)
    {
        const int x = value(i);
        PBT_CHECK(v.erase(x) == static_cast<size_t>(in[static_cast<size_t>(x)]), "erase ", x);
        in[static_cast<size_t>(x)] = 0;
    }
    same(v, "removed");
    PBT_CHECK(!(copy == v) && copy.size() == std::min(n, copy.size()), "a copy follows the set");
    auto moved = std::move(v);
    same(moved, "moved");
    s.maximum("elements", n);
    if (n > 255) s.nontrivial();
}
