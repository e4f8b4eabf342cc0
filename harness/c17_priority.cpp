// C17: the best ready coroutine runs next, equal ones take turns, every ready one runs.
#include "common.h"

namespace
{

constexpr int N = 4;
constexpr int LEVELS[] = {5, 40, 99};

// What the rules say about the coroutines of one environment.
struct board
{
    struct entry
    {
        int prio {0};
        bool ready {false};
        bool due[N] {}; // has to run before entry k runs again
    };
    h::cell<entry> e[N];
    h::cell<int> ops;
    co *c[N] {};
    co_binary_semaphore *gate[N] {};

    H_RAW entry &at(int i) { return e[i].v; }

    H_RAW void make_ready(int i, bool ready)
    {
        at(i).ready = ready;
        for (int k = 0; k < N; ++k)
            at(i).due[k] = at(k).due[i] = false;
    }
    H_RAW void set_prio(int i, int p)
    {
        if (at(i).prio == p)
            return;
        at(i).prio = p;
        for (int k = 0; k < N; ++k)
            at(i).due[k] = at(k).due[i] = false;
    }
    // Coroutine i runs now, as the result of a choice.
    H_RAW void runs(int i)
    {
        if (!at(i).ready)
            make_ready(i, true);
        for (int k = 0; k < N; ++k)
        {
            if (k == i || !at(k).ready)
                continue;
            MC_CHECK(at(k).prio >= at(i).prio, "a coroutine of priority %d runs while one of priority %d is ready", at(i).prio, at(k).prio);
            if (at(k).prio == at(i).prio)
                MC_CHECK(!at(k).due[i], "a coroutine runs again before another ready one of its priority");
            at(i).due[k] = false;
        }
        for (int k = 0; k < N; ++k)
            if (k != i && at(k).ready && at(k).prio == at(i).prio)
                at(k).due[i] = true;
    }
};

void turns(board *b, int i, int max_ops)
{
    b->runs(i);
    while (b->ops.get() < max_ops)
    {
        b->ops.add(1);
        int op = mc::choose(3 + 2 * 3);
        int others = 0;
        for (int k = 0; k < N; ++k)
            others += k != i && b->at(k).ready;
        if (op == 0 || (op == 1 && others == 0))
            this_co::yield();
        else if (op == 1) // sleeps until another one calls
        {
            b->make_ready(i, false);
            b->gate[i]->acquire();
        }
        else if (op == 2) // calls all
        {
            for (int k = 0; k < N; ++k)
                if (!b->at(k).ready && b->c[k] && b->at(k).prio >= 0)
                {
                    b->gate[k]->release();
                    b->make_ready(k, true);
                }
            this_co::yield();
        }
        else // a new priority for itself or for the next one
        {
            int who = op < 6 ? i : (i + 1) % 3;
            int p = LEVELS[(op - 3) % 3];
            if (b->at(who).prio < 0)
                continue;
            b->c[who]->ctx_set_priority(p);
            MC_CHECK((int)b->c[who]->ctx_priority() == p, "the priority is %d after setting it to %d", (int)b->c[who]->ctx_priority(), p);
            b->set_prio(who, p);
            this_co::yield();
        }
        b->runs(i);
    }
    b->make_ready(i, false);
    b->set_prio(i, -1);
    for (int k = 0; k < N; ++k)
        if (!b->at(k).ready && b->at(k).prio >= 0)
        {
            b->gate[k]->release();
            b->make_ready(k, true);
        }
}

void histories(const int *prio, int n, int max_ops)
{
    auto e = h::make_envs(1);
    auto *b = new board;
    for (int i = 0; i < N; ++i)
    {
        b->gate[i] = new co_binary_semaphore(0);
        b->at(i).prio = -1;
    }
    for (int i = 0; i < n; ++i)
    {
        b->set_prio(i, prio[i]);
        b->make_ready(i, true);
    }
    co starter({with_bind_env(e[0]), with_priority(0)}, [=] {
        for (int i = 0; i < n; ++i)
            b->c[i] = new co({with_bind_env(e[0]), with_priority(prio[i])}, [=] {
                turns(b, i, max_ops);
                h::finish(i);
            });
    });
    mc::quiesce();
    h::expect_all(n, "a ready coroutine never runs");
    mc::outcome(b->ops.get());
}

}

// Three coroutines, all sequences of yields, sleeps, calls and priority changes.
MC_SCENARIO(prio_histories, {})
{
    int p[3];
    for (int &x : p)
        x = LEVELS[mc::choose(2)];
    histories(p, 3, 4);
}

MC_SCENARIO(prio_histories_equal, {})
{
    int p[3] = {40, 40, 40};
    histories(p, 3, 5);
}

// Values outside the range count as the nearest one in it.
MC_SCENARIO(prio_range, {})
{
    auto e = h::make_envs(1);
    static const int given[] = {-1, 0, 1, 98, 99, 100, 1000};
    int g = given[mc::choose(7)], k = given[mc::choose(7)];
    int want = g < 0 ? 0 : g > 99 ? 99 : g, later = k < 0 ? 0 : k > 99 ? 99 : k;
    co c({with_bind_env(e[0]), with_priority(g)}, [=] {
        MC_CHECK((int)CoCurrentCtx()->priority() == want, "priority %d becomes %d", g, (int)CoCurrentCtx()->priority());
        CoCurrentCtx()->set_priority(k);
        this_co::yield();
        MC_CHECK((int)CoCurrentCtx()->priority() == later, "priority %d becomes %d", k, (int)CoCurrentCtx()->priority());
        h::finish(0);
    });
    mc::quiesce();
    h::expect_all(1, "a coroutine with an odd priority never runs");
}

// Another environment creates better and worse ones while this one works.
MC_SCENARIO(prio_create, {})
{
    auto e = h::make_envs(2);
    h::go(e[0], 0, [] {
        this_co::yield();
        this_co::yield();
    });
    h::go(e[1], 1, [=] {
        new co({with_bind_env(e[0]), with_priority(10)}, [] { h::finish(2); });
        new co({with_bind_env(e[0]), with_priority(99)}, [] { this_co::yield(); h::finish(3); });
    });
    h::run(4, "a ready coroutine never runs");
}

// Another environment changes priorities while they run.
MC_SCENARIO(prio_change, {})
{
    auto e = h::make_envs(2);
    co *a[2];
    for (int i = 0; i < 2; ++i)
        a[i] = new co({with_bind_env(e[0]), with_priority(50)}, [=] {
            this_co::yield();
            this_co::yield();
            h::finish(i);
        });
    auto *a0 = a[0], *a1 = a[1];
    h::go(e[1], 2, [=] {
        a0->ctx_set_priority(10);
        a1->ctx_set_priority(90);
        a0->ctx_set_priority(95);
    });
    h::run(3, "a ready coroutine never runs");
    MC_CHECK(a0->ctx_priority() == 95 && a1->ctx_priority() == 90, "a priority change is lost");
}

// Two environments change the priority of the same coroutine.
MC_SCENARIO(prio_change_two, {})
{
    auto e = h::make_envs(3);
    auto *a = h::go(e[0], 0, [] {
        this_co::yield();
        CoCurrentCtx()->set_priority(30);
        this_co::yield();
    });
    h::go(e[1], 1, [=] { a->ctx_set_priority(10); });
    h::go(e[2], 2, [=] { a->ctx_set_priority(20); });
    h::run(3, "a ready coroutine never runs");
}

// A waiting coroutine gets a better priority; it runs when it is called.
MC_SCENARIO(prio_change_waiting, {})
{
    auto e = h::make_envs(2);
    auto *gate = new co_binary_semaphore(0);
    auto *a = new co({with_bind_env(e[0]), with_priority(99)}, [=] {
        gate->acquire();
        h::finish(0);
    });
    new co({with_bind_env(e[0]), with_priority(99)}, [=] {
        this_co::yield();
        this_co::yield();
        h::finish(1);
    });
    h::go(e[1], 2, [=] {
        a->ctx_set_priority(1);
        gate->release();
    });
    h::run(3, "a ready coroutine never runs");
}

// The worst ones run when the better ones wait or have ended, even if all become ready at different times.
MC_SCENARIO(prio_wait_and_worse, {})
{
    auto e = h::make_envs(2);
    auto *gate = new co_binary_semaphore(0);
    new co({with_bind_env(e[0]), with_priority(1)}, [=] {
        gate->acquire();
        h::finish(0);
        this_co::yield();
    });
    new co({with_bind_env(e[0]), with_priority(99)}, [=] {
        this_co::yield();
        h::finish(1);
    });
    h::go(e[1], 2, [=] { gate->release(); });
    h::run(3, "a ready coroutine never runs");
}

// A coroutine gets another priority while it waits for one of still another priority, and keeps it.
MC_SCENARIO(prio_change_joining, {})
{
    auto e = h::make_envs(2);
    bool same = mc::choose(2), timed = mc::choose(2);
    int p = mc::choose(2) ? 5 : 30;
    auto *gate = new co_binary_semaphore(0);
    auto *b = new co({with_bind_env(e[!same]), with_priority(30)}, [=] {
        if (!timed)
            gate->acquire();
        else
            this_co::sleep_for(1000s);
    });
    auto *a = new co({with_bind_env(e[0]), with_priority(10)}, [=] {
        if (timed)
            b->wait_for(1s);
        else
            b->wait<void>();
        h::finish(0);
    });
    h::go(e[1], 1, [=] {
        a->ctx_set_priority(p);
        gate->release();
    });
    h::run(2, "a ready coroutine never runs");
    MC_CHECK(a->ctx_priority() == (size_t)p, "a coroutine has priority %d instead of %d after a wait", (int)a->ctx_priority(), p);
}

// Very many of the same priority take turns.
MC_SCENARIO(prio_many, {.max_points = 60'000'000})
{
    auto e = h::make_envs(1);
    int n = h::many();
    bool mixed = mc::choose(2);
    auto *order = new std::vector<int>;
    auto *gate = new co_binary_semaphore(0);
    // holds the environment until all are there
    co *first = new co({with_bind_env(e[0]), with_priority(0)}, [=] {
        for (int i = 0; i < n; ++i)
            (new co({with_bind_env(e[0]), with_priority(mixed && i % 2 ? 60 : 50)}, [=] {
                for (int k = 0; k < 3; ++k)
                {
                    order->push_back(i);
                    this_co::yield();
                }
                order->push_back(i);
            }))->detach();
        gate->acquire();
    });
    mc::settle(600'000);
    gate->release();
    first->join();
    MC_CHECK((int)order->size() == 4 * n, "%zu turns instead of %d", order->size(), 4 * n);
    int better = mixed ? (n + 1) / 2 : n;
    for (int group = 0; group < (mixed ? 2 : 1); ++group)
    {
        int size = group ? n - better : better, base = group ? 4 * better : 0;
        for (int k = 0; k < 4; ++k)
        {
            std::vector<int> seen(n);
            for (int i = 0; i < size; ++i)
            {
                int who = (*order)[base + k * size + i];
                MC_CHECK(!mixed || who % 2 == group, "a coroutine of worse priority runs before a better one");
                MC_CHECK(++seen[who] == 1, "a coroutine runs again before another ready one of its priority");
            }
        }
    }
}
