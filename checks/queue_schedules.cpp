// P22: the queue of updates under drawn schedules.
#include "pbt.h"
#include <bits/stdc++.h>
#include "interleave.h"
#include "Awl/UpdateQueue.h"

namespace
{
    struct Update
    {
        size_t thread = 0, applied = 0;
        bool started = false, pushed = false, may_clear = false, released = false, expected = false;
        int nested = -1;        // pushed by this one
    };
    struct Target { size_t round = 0; };
    struct Token
    {
        Update& u;
        ~Token() { u.released = true; }
    };
    struct Failing {};
}

PBT_THREADED(update_queue_schedules, 12000, 200000)
{
    const size_t n = 1 + s.below(3);
    const bool clears = s.chance(1, 4), nested = s.flag();
    std::deque<Update> all;
    std::vector<std::vector<size_t>> own(n);
    std::vector<std::vector<unsigned>> pauses(n);
    for (size_t k = 0; k < n; ++k)
    {
        const size_t c = 1 + s.length(10);
        for (size_t i = 0; i < c; ++i)
        {
            all.emplace_back();
            all.back().thread = k;
            own[k].push_back(all.size() - 1);
            pauses[k].push_back(static_cast<unsigned>(s.draw(7)));
            if (nested && s.chance(1, 4))
            {
                all.emplace_back();
                all.back().thread = n;
                all[all.size() - 2].nested = static_cast<int>(all.size() - 1);
            }
        }
    }
    const size_t clear_every = 1 + s.below(5);
    size_t round = 0, applied = 0, busy = 0;
    size_t running = n;
    std::vector<size_t> order;
    bool in_apply = false;
    size_t clearing = 0;
    auto* q = new awl::UpdateQueue<Target&, size_t>;
    std::function<void(size_t)> push = [&](size_t id)
    {
        all[id].started = true;
        if (clearing) all[id].may_clear = true;
        std::shared_ptr<Token> token(new Token{ all[id] });
        q->Push([&, id, token](Target& t, size_t arg)
        {
            SCHED_CHECK(arg == round && t.round == round, "the arguments are wrong");
            SCHED_CHECK(in_apply);
            Update& u = all[id];
            SCHED_CHECK(++u.applied == 1, "update ", id, " is applied twice");
            SCHED_CHECK(!u.released);
            ++applied;
            order.push_back(id);
            sched::point();
            if (u.nested >= 0) push(static_cast<size_t>(u.nested));
        });
        token.reset();
        if (clearing) all[id].may_clear = true;
        all[id].pushed = true;
    };
    auto apply = [&]
    {
        std::vector<size_t> due;
        for (size_t i = 0; i < all.size(); ++i) if (all[i].pushed && !all[i].applied && !all[i].may_clear) due.push_back(i);
        ++round;
        Target t{ round };
        const size_t before = applied;
        in_apply = true;
        q->ApplyUpdates(t, round);
        in_apply = false;
        if (applied != before) ++busy;
        for (size_t i : due) SCHED_CHECK(all[i].applied == 1 || all[i].may_clear, "update ", i, " was pushed, but it is not applied");
    };
    sched::Scheduler sc(s);
    sc.run([&]
    {
        std::vector<std::thread> threads;
        for (size_t k = 0; k < n; ++k)
        {
            threads.emplace_back([&, k]
            {
                for (size_t i = 0; i < own[k].size(); ++i)
                {
                    for (unsigned p = 0; p < pauses[k][i]; ++p) sched::point();
                    push(own[k][i]);
                    if (clears && i % clear_every == 0)
                    {
                        for (auto& u : all) if (u.started && !u.applied) u.may_clear = true;
                        ++clearing;
                        q->ClearPending();
                        --clearing;
                    }
                }
                --running;
            });
        }
        while (running != 0) { apply(); sched::point(); }
        for (auto& t : threads) t.join();
        apply();
        apply();
    });
    for (size_t i = 0; i < all.size(); ++i)
    {
        if (!clears) PBT_CHECK(all[i].applied == 1, "update ", i, " is lost");
        if (all[i].pushed) PBT_CHECK(all[i].released, "the function of update ", i, " is not released");
    }
    std::vector<size_t> last(n + 1, 0);
    for (size_t id : order)
    {
        auto& u = all[id];
        if (u.thread == n) continue;
        PBT_CHECK(last[u.thread] <= id, "updates of a thread are out of order");
        last[u.thread] = id;
    }
    delete q;
    if (busy > 1 && n > 1) s.nontrivial();
    s.count("updates applied", applied);
}
