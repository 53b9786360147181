// P02: the cost of vector_set operations, counted in comparisons, after any history of insertions and removals.
//
// The comparator records which elements a lookup visits, so the shape of the tree is observable from outside.
// The adversary uses it to keep the deepest element and to remove what hangs beside its path.
#include "pbt.h"
#include "Awl/VectorSet.h"

#include <algorithm>
#include <cmath>
#include <map>
#include <set>

namespace
{
    struct Log
    {
        uint64_t comparisons = 0;
        std::vector<int64_t>* path = nullptr;
    };
    Log log_;

    struct CountingLess
    {
        bool operator()(int64_t a, int64_t b) const
        {
            ++log_.comparisons;
            if (log_.path) { log_.path->push_back(a); log_.path->push_back(b); }
            return a < b;
        }
    };

    using Set = awl::vector_set<int64_t, CountingLess>;

    // A red-black tree of n elements has at most 2*log2(n+1) levels; a level costs at most two comparisons.
    double bound(size_t n) { return 4 * std::log2(static_cast<double>(n) + 1); }

    struct Machine
    {
        pbt::Src& s;
        Set set;
        std::set<int64_t> model;
        double worst = 0, worst_history = 0;
        // A removal was chosen by looking at the tree since the set was last empty.
        bool adversarial = false;
        bool removals = true, hostile = true;
        size_t biggest = 0;
        uint64_t removed = 0;

        explicit Machine(pbt::Src& src) : s(src) {}

        template <class F>
        uint64_t cost(F&& f)
        {
            log_.comparisons = 0;
            f();
            return log_.comparisons;
        }

        // The insertions and removals since the set was last empty.
        uint64_t inserted_since = 0, removed_since = 0;

        void check(const char* what, uint64_t c, size_t n, double extra)
        {
            const double b = bound(n) + extra;
            if (n >= 8) worst = std::max(worst, static_cast<double>(c) / std::log2(n + 1.0));
            if (static_cast<double>(c) <= b) return;
            // KF-P02: removals do not always rebalance the tree.
            if (removed_since != 0)
            {
                // An adversary can exploit it without a limit (other than the size); ordinary histories have not been seen to
                // go beyond the bound for the number of elements inserted, and must not go far beyond it.
                const bool tolerable = adversarial || static_cast<double>(c) <= 2 * (bound(inserted_since) + extra);
                if (!adversarial) worst_history = std::max(worst_history, static_cast<double>(c) / (bound(inserted_since) + extra));
                if (tolerable && s.is_known("KF-P02-remove-imbalance")) { s.label("known finding: cost above the bound after removals"); return; }
            }
            s.fail(pbt::str(what, " in a set of ", n, " elements took ", c, " comparisons; the bound is ", b, " (", inserted_since, " insertions and ", removed_since, " removals since it was empty)"));
        }

        void lookups(int64_t k)
        {
            const size_t n = set.size();
            const bool present = model.count(k) != 0;
            bool found = false;
            check("find", cost([&] { found = set.find(k) != set.end(); }), n, 2);
            PBT_CHECK(found == present, "find(", k, ")");
            check("contains", cost([&] { found = set.contains(k); }), n, 2);
            check("lower_bound", cost([&] { set.lower_bound(k); }), n, 2);
            check("upper_bound", cost([&] { set.upper_bound(k); }), n, 2);
            if (present) check("index_of", cost([&] { set.index_of(k); }), n, 2);
        }

        void insert(int64_t k)
        {
            const size_t n = set.size();
            const uint64_t c = cost([&] { set.insert(k); });
            if (model.empty()) { inserted_since = removed_since = 0; adversarial = false; }
            if (model.insert(k).second) ++inserted_since;
            check("insert", c, n + 1, 8);
            biggest = std::max(biggest, model.size());
        }

        void erase(int64_t k)
        {
            const size_t n = set.size();
            check("erase", cost([&] { set.erase(k); }), n, 4);
            const bool was = model.erase(k) != 0;
            removed += was;
            removed_since += was;
        }

        std::vector<int64_t> path_of(int64_t k)
        {
            std::vector<int64_t> p, r;
            log_.path = &p;
            set.find(k);
            log_.path = nullptr;
            std::set<int64_t> seen;
            for (int64_t v : p) if (model.count(v) && seen.insert(v).second && v != k) r.push_back(v);
            r.push_back(k);
            return r;
        }

        // Checks every element; returns the most expensive one.
        int64_t scan()
        {
            uint64_t top = 0;
            int64_t key = 0;
            for (int64_t k : model)
            {
                uint64_t c = cost([&] { set.find(k); });
                check("find", c, model.size(), 2);
                if (c > top) { top = c; key = k; }
            }
            return key;
        }

        void trim()
        {
            // Remove elements that no path goes through, except the deepest branch, from the bottom up.
            if (model.size() < 4) return;
            const size_t goal = 1 + s.below(model.size());
            const size_t batch_kind = s.below(3);
            adversarial = true;
            s.note("trim to at least ", goal, " elements, order ", batch_kind);
            for (int round = 0; round < 60 && model.size() > goal; ++round)
            {
                const int64_t deep = scan();
                std::vector<int64_t> keep_path = path_of(deep);
                std::set<int64_t> keep(keep_path.begin(), keep_path.end());
                std::map<int64_t, int> inner;
                for (int64_t k : model)
                {
                    auto p = path_of(k);
                    for (size_t i = 0; i + 1 < p.size(); ++i) ++inner[p[i]];
                }
                std::vector<int64_t> leaves;
                for (int64_t k : model) if (!inner.count(k) && !keep.count(k)) leaves.push_back(k);
                if (leaves.empty()) break;
                if (batch_kind == 1) std::reverse(leaves.begin(), leaves.end());
                if (batch_kind == 2) s.shuffle(leaves);
                const size_t n = s.chance(1, 4) ? 1 + s.below(leaves.size()) : leaves.size();
                for (size_t i = 0; i < n && model.size() > goal; ++i) erase(leaves[i]);
            }
            scan();
            s.label("trimmed beside the deepest branch");
        }

        // Keeps the set small, inserts next to its deepest element and removes leaves beside the path to it.
        void grow_branch()
        {
            const size_t cap = 4 + s.below(28), steps = s.length(200);
            if (model.size() > 450) return;
            s.note("grow a branch: cap ", cap, ", ", steps, " steps");
            if (model.empty()) insert(0);
            adversarial = true;
            for (size_t i = 0; i < steps; ++i)
            {
                const int64_t deep = scan();
                if (model.size() < cap && s.chance(2, 3))
                {
                    auto it = model.find(deep);
                    int64_t k;
                    if (s.flag())
                    {
                        auto nx = std::next(it);
                        k = nx == model.end() ? deep + (int64_t(1) << 40) : deep + (*nx - deep) / 2;
                    }
                    else
                    {
                        k = it == model.begin() ? deep - (int64_t(1) << 40) : *std::prev(it) + (deep - *std::prev(it)) / 2;
                    }
                    if (!model.count(k) && std::abs(k) < (int64_t(1) << 60)) { insert(k); continue; }
                }
                std::vector<int64_t> keep_path = path_of(deep);
                std::set<int64_t> keep(keep_path.begin(), keep_path.end()), inner;
                std::vector<int64_t> leaves;
                for (int64_t k : model)
                {
                    auto p = path_of(k);
                    for (size_t j = 0; j + 1 < p.size(); ++j) inner.insert(p[j]);
                }
                for (int64_t k : model) if (!inner.count(k) && !keep.count(k)) leaves.push_back(k);
                if (!leaves.empty()) erase(leaves[s.below(leaves.size())]);
                else if (model.size() > 1) erase(*std::next(model.begin(), s.below(model.size())));
            }
            s.label("grew a branch");
        }

        void run()
        {
            const size_t limit = s.pick<size_t>({ 40, 120, 400, 1200 });
            const int64_t space = static_cast<int64_t>(limit) * s.pick<int64_t>({ 1, 4, 1000 });
            const size_t ops = 1 + s.length(14);
            for (size_t o = 0; o < ops; ++o)
            {
                const int64_t hi = model.empty() ? 0 : *model.rbegin();
                const int64_t lo = model.empty() ? 0 : *model.begin();
                switch (!removals ? s.weighted({ 1, 1, 1 }) : hostile ? s.weighted({ 4, 3, 3, 3, 3, 2, 4, 2, 2, 2 }) : s.weighted({ 4, 3, 3, 3, 3, 3, 0, 3, 3 }))
                {
                case 0: { size_t n = s.length(limit); s.note("insert ", n, " ascending"); for (size_t i = 0; i < n; ++i) insert(hi + 1 + static_cast<int64_t>(i)); break; }
                case 1: { size_t n = s.length(limit); s.note("insert ", n, " descending"); for (size_t i = 0; i < n; ++i) insert(lo - 1 - static_cast<int64_t>(i)); break; }
                case 2: { size_t n = s.length(limit / 2); s.note("insert ", n, " at random"); for (size_t i = 0; i < n; ++i) insert(s.range<int64_t>(0, space)); break; }
                case 3: { size_t n = s.length(model.size()); s.note("erase ", n, " smallest"); for (size_t i = 0; i < n; ++i) erase(*model.begin()); break; }
                case 4: { size_t n = s.length(model.size()); s.note("erase ", n, " largest"); for (size_t i = 0; i < n; ++i) erase(*model.rbegin()); break; }
                case 5:
                {
                    size_t n = std::min<size_t>(s.length(model.size()), 300);
                    s.note("erase ", n, " at random");
                    for (size_t i = 0; i < n; ++i) erase(set[s.below(set.size())]);
                    break;
                }
                case 6: if (model.size() <= 450) trim(); break;
                case 7: // a sliding window
                {
                    size_t n = s.length(limit * 2), w = 1 + s.length(limit / 2);
                    s.note("slide ", n, " with a window of ", w);
                    for (size_t i = 0; i < n; ++i) { insert(hi + 1 + static_cast<int64_t>(i)); while (model.size() > w) erase(*model.begin()); }
                    break;
                }
                case 9: grow_branch(); break;
                case 8: // thin out regularly
                {
                    const size_t step = 2 + s.below(7), keep = s.below(step);
                    s.note("keep one of ", step);
                    std::vector<int64_t> v(model.begin(), model.end());
                    for (size_t i = 0; i < v.size(); ++i) if (i % step != keep) erase(v[i]);
                    break;
                }
                }
                if (model.size() > 4 * limit) break;
                scan();
                for (int i = 0; i < 3; ++i) lookups(s.range<int64_t>(lo - 2, hi + 2));
                if (!model.empty())
                {
                    lookups(*model.begin());
                    lookups(*model.rbegin());
                    const size_t p = s.below(model.size());
                    PBT_CHECK(set.index_of(set[p]) == p, "index ", p);
                }
                PBT_CHECK(std::equal(set.begin(), set.end(), model.begin(), model.end()), "the set differs from the model");
            }
            s.maximum("worst comparisons per log2(n+1), x100", static_cast<uint64_t>(worst * 100));
            s.maximum("largest set", biggest);
            s.maximum("worst cost over the bound for all the insertions, after ordinary removals, x100", static_cast<uint64_t>(worst_history * 100));
            s.count("removed elements", removed);
            if (biggest >= 16 && (removed > 0 || !removals)) s.nontrivial();
        }
    };
}

PBT_PROPERTY(insertions_only, 6000, 150000)
{
    Machine m(s);
    m.removals = false;
    m.run();
}

PBT_PROPERTY(ordinary_removals, 10000, 250000)
{
    Machine m(s);
    m.hostile = false;
    m.run();
}

PBT_PROPERTY(hostile_removals, 5000, 100000)
{
    Machine m(s);
    m.run();
}

// The work of the operations that do not compare anything, in executed basic blocks, in big sets.
PBT_PROPERTY(work_in_big_sets, 400, 6000)
{
    const size_t n = 3000 + s.below(14000);
    const size_t shape = s.below(4);
    s.note(n, " elements, shape ", shape);
    Set set;
    for (size_t i = 0; i < n; ++i)
    {
        int64_t k = 0;
        switch (shape)
        {
        case 0: k = static_cast<int64_t>(i) * 3; break;
        case 1: k = static_cast<int64_t>(n - i) * 3; break;
        case 2: k = static_cast<int64_t>((i * 2654435761u) % (1u << 30)); break;
        default: k = i % 2 ? static_cast<int64_t>(i) : -static_cast<int64_t>(i); break;
        }
        set.insert(k);
    }
    const bool removed = s.flag();
    if (removed)
    {
        const size_t k = s.below(n / 3);
        const size_t where = s.below(3);
        for (size_t i = 0; i < k; ++i) set.erase(where == 0 ? set.front() : where == 1 ? set.back() : set[(i * 7919) % set.size()]);
    }
    const size_t m = set.size();
    const double levels = 2 * std::log2(m + 1.0) * (removed ? 2 : 1);
    const Set& c = set;
    auto measure = [&](const char* what, double per_level, double constant, auto&& f)
    {
        const uint64_t before = pbt::steps();
        f();
        const uint64_t used = pbt::steps() - before;
        s.maximum(what, used);
        PBT_CHECK(static_cast<double>(used) <= per_level * levels + constant, what, " in a set of ", m, " elements executed ", used, " basic blocks");
    };
    for (int r = 0; r < 40; ++r)
    {
        const size_t i = s.below(m);
        auto it = set.begin();
        measure("operator[]", 40, 200, [&] { volatile int64_t v = set[i]; (void)v; });
        measure("at", 40, 300, [&] { volatile int64_t v = c.at(i); (void)v; });
        measure("find_by_index", 40, 200, [&] { it = set.find_by_index(i); });
        measure("index_of(iterator)", 40, 200, [&] { volatile size_t v = set.index_of(it); (void)v; });
        const int64_t k = *it;
        measure("index_of(key)", 60, 300, [&] { volatile size_t v = set.index_of(k); (void)v; });
        measure("find2", 60, 300, [&] { set.find2(k); });
        measure("find", 60, 300, [&] { set.find(k); });
        measure("lower_bound", 60, 300, [&] { set.lower_bound(k + 1); });
        measure("upper_bound", 60, 300, [&] { set.upper_bound(k); });
        measure("size", 0, 100, [&] { volatile size_t v = c.size(); (void)v; });
        measure("empty", 0, 100, [&] { volatile bool v = c.empty(); (void)v; });
        measure("front and back", 0, 200, [&] { volatile int64_t v = set.front() + set.back(); (void)v; });
        measure("step of an iterator", 0, 200, [&] { ++it; --it; });
        if (s.chance(1, 3)) measure("erase(iterator)", 200, 1000, [&] { set.erase(set.find_by_index(i)); });
        else measure("erase(key)", 200, 1000, [&] { set.erase(k); });
        measure("insert", 200, 1000, [&] { set.insert(k); });
    }
    s.nontrivial();
}
