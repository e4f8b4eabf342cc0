// C10: latch and wait group.
#include "common.h"

namespace
{

// Count-downs begun (upper bound of what the latch can know) against waits that returned.
struct counter
{
    int need;
    h::cell<int> begun;
    void down(int n = 1)
    {
        mc::mark();
        begun.add(n);
    }
    void through(const char *what)
    {
        mc::mark();
        MC_CHECK(begun.get() >= need, "%s returns after %d of %d", what, begun.get(), need);
    }
};

}

MC_SCENARIO(latch_two_waiters, {})
{
    auto e = h::make_envs(2);
    auto *l = new co_latch(2);
    auto *c = new counter {2};
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            l->wait();
            c->through("wait");
            MC_CHECK(l->try_wait(), "try_wait denies a completed latch");
        });
    for (int i = 0; i < 2; ++i)
        h::go(e[1 - i], 2 + i, [=] {
            c->down();
            l->count_down();
        });
    h::run(4, "a wait on a latch never returns");
}

MC_SCENARIO(latch_arrive_and_wait, {})
{
    auto e = h::make_envs(2);
    auto *l = new co_latch(3);
    auto *c = new counter {3};
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            c->down(1 + i);
            l->arrive_and_wait(1 + i);
            c->through("arrive_and_wait");
        });
    h::run(2, "arrive_and_wait never returns");
}

MC_SCENARIO(latch_thread, {})
{
    auto e = h::make_envs(2);
    auto *l = new co_latch(2);
    auto *c = new counter {2};
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            c->down();
            l->count_down();
        });
    mc::begin();
    l->wait();
    c->through("wait");
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "count_down blocks");
    MC_CHECK(l->try_wait(), "try_wait denies a completed latch");
}

MC_SCENARIO(latch_try, {})
{
    auto e = h::make_envs(2);
    auto *l = new co_latch(2);
    auto *c = new counter {2};
    h::go(e[0], 0, [=] {
        for (int i = 0; i < 3; ++i)
            if (l->try_wait())
                c->through("try_wait");
    });
    h::go(e[1], 1, [=] {
        for (int i = 0; i < 2; ++i)
        {
            c->down();
            l->count_down();
        }
        MC_CHECK(l->try_wait(), "try_wait denies a completed latch");
    });
    h::run(2, "try_wait blocks");
}

MC_SCENARIO(latch_histories, {.max_points = 400'000})
{
    constexpr int N = 4;
    h::actors A(3, 1);
    int left = mc::choose(4);
    auto *l = new co_latch(left);
    bool waiting[N] {};
    static h::cell<int> res;
    for (int d = 0; d < 6; ++d)
    {
        int i = 0;
        while (i < N && waiting[i])
            ++i;
        if (i == N)
            break;
        int op = mc::choose(5); // wait, try_wait, count_down(1), count_down(2), arrive_and_wait
        res.set(0);
        int n = op == 3 ? 2 : op == 1 || op == 0 ? 0 : 1;
        A.step(i, [=] {
            try
            {
                switch (op)
                {
                case 0:
                    l->wait();
                    break;
                case 1:
                    res.set(l->try_wait() ? 3 : 4);
                    return;
                case 4:
                    l->arrive_and_wait();
                    break;
                default:
                    l->count_down(n);
                }
                res.set(1);
            }
            catch (std::logic_error &)
            {
                res.set(2);
            }
        });
        if (n > left)
        {
            MC_CHECK(res.get() == 2, "counting %d down by %d is not rejected", left, n);
            continue;
        }
        MC_CHECK(res.get() != 2, "counting %d down by %d is rejected", left, n);
        left -= n;
        if (op == 1)
            MC_CHECK(res.get() == (left ? 4 : 3), "try_wait answers %s with %d missing", res.get() == 3 ? "true" : "false", left);
        else if (op == 2 || op == 3)
            MC_CHECK(res.get() == 1, "count_down blocks");
        else
            waiting[i] = true;
        for (int k = 0; k < N; ++k)
            if (waiting[k])
            {
                MC_CHECK(A.busy(k) == (left > 0), "a wait %s with %d missing", A.busy(k) ? "goes on" : "returns", left);
                waiting[k] = A.busy(k);
            }
        mc::outcome(left * 16 + op);
    }
}

MC_SCENARIO(group_two_waiters, {})
{
    auto e = h::make_envs(2);
    auto *g = new co_wait_group(2);
    auto *c = new counter {2};
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            g->wait();
            c->through("wait");
            g->wait();
        });
    for (int i = 0; i < 2; ++i)
        h::go(e[1 - i], 2 + i, [=] {
            c->down();
            g->done();
        });
    h::run(4, "a wait on a wait group never returns");
}

MC_SCENARIO(group_thread, {})
{
    auto e = h::make_envs(2);
    auto *g = new co_wait_group(2);
    auto *c = new counter {2};
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            c->down();
            g->done();
        });
    mc::begin();
    g->wait();
    c->through("wait");
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "done blocks");
}

// The end of a wait group's life waits for its members.
MC_SCENARIO(group_scope, {})
{
    auto e = h::make_envs(2);
    auto *c = new counter {2};
    static co_wait_group *shared;
    h::go(e[0], 0, [=] {
        auto *g = new co_wait_group(2);
        shared = g;
        for (int i = 0; i < 2; ++i)
            h::go(e[1], 1 + i, [=] {
                c->down();
                g->done();
            });
        g->~co_wait_group();
        c->through("the destructor");
    });
    h::run(3, "the end of a wait group never comes");
}

MC_SCENARIO(group_histories, {.max_points = 400'000})
{
    constexpr int N = 4;
    h::actors A(3, 1);
    int left = mc::choose(4);
    auto *g = new co_wait_group(left);
    bool waiting[N] {};
    for (int d = 0; d < 7; ++d)
    {
        int i = 0;
        while (i < N && waiting[i])
            ++i;
        if (i == N)
            break;
        int op = mc::choose(left ? 2 : 1);
        A.step(i, [=] {
            if (op)
                g->done();
            else
                g->wait();
        });
        if (op)
        {
            --left;
            MC_CHECK(!A.busy(i), "done blocks");
        }
        else
            waiting[i] = true;
        for (int k = 0; k < N; ++k)
            if (waiting[k])
            {
                MC_CHECK(A.busy(k) == (left > 0), "a wait %s with %d missing", A.busy(k) ? "goes on" : "returns", left);
                waiting[k] = A.busy(k);
            }
        mc::outcome(left * 16 + op);
    }
}

// Very large counts, very many waiters.
MC_SCENARIO(latch_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    bool group = mc::choose(2), bulk = mc::choose(2);
    auto *l = new co_latch(n);
    auto *g = new co_wait_group(n);
    x->add(n, [=](int) {
        if (group)
            g->wait();
        else
            l->wait();
    });
    auto down = [=](int k) {
        if (group)
            for (int i = 0; i < k; ++i)
                g->done();
        else if (bulk)
            l->count_down(k);
        else
            for (int i = 0; i < k; ++i)
                l->count_down();
    };
    x->settle(0, "a wait returns before anything is counted");
    down(n - 1);
    x->settle(0, "a wait returns before everything is counted");
    MC_CHECK(!l->try_wait(), "a latch that is not finished says so");
    down(1);
    x->all("one of many waits never returns");
    while (group)
    {
        l->count_down(n);
        break;
    }
    MC_CHECK(l->try_wait(), "a finished latch says it is not");
    for (int i = 0; !group && i < n; ++i)
        g->done();
}
