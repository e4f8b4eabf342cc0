// C09: barrier.
#include "common.h"

namespace
{

// Arrivals per phase, counted before the arrival is made.
struct gate
{
    co_barrier b;
    h::cell<int> arrived[4];
    int need[4];
    gate(int n)
        : b(n)
    {
        for (auto &x : need)
            x = n;
    }
    void come(int phase)
    {
        mc::mark();
        arrived[phase].add(1);
    }
    void left(int phase)
    {
        mc::mark();
        MC_CHECK(arrived[phase].get() >= need[phase], "a participant leaves phase %d after %d of %d arrivals", phase, arrived[phase].get(), need[phase]);
    }
    void pass(int phase)
    {
        come(phase);
        b.arrive_and_wait();
        left(phase);
    }
};

}

// Two participants, three phases: the fast one re-arrives while the slow one is still leaving.
MC_SCENARIO(barrier_reuse, {})
{
    auto e = h::make_envs(2);
    auto *g = new gate(2);
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            for (int p = 0; p < 3; ++p)
                g->pass(p);
        });
    h::run(2, "a participant never leaves the barrier");
}

// Three participants, two of them in one environment.
MC_SCENARIO(barrier_three, {})
{
    auto e = h::make_envs(2);
    auto *g = new gate(3);
    for (int i = 0; i < 3; ++i)
        h::go(e[i & 1], i, [=] {
            for (int p = 0; p < 2; ++p)
                g->pass(p);
        });
    h::run(3, "a participant never leaves the barrier");
}

MC_SCENARIO(barrier_same_env, {})
{
    auto e = h::make_envs(1);
    auto *g = new gate(2);
    for (int i = 0; i < 2; ++i)
        h::go(e[0], i, [=] {
            for (int p = 0; p < 3; ++p)
                g->pass(p);
        });
    h::run(2, "a participant never leaves the barrier");
}

// A plain thread takes part.
MC_SCENARIO(barrier_thread, {})
{
    auto e = h::make_envs(1);
    auto *g = new gate(2);
    h::go(e[0], 0, [=] {
        for (int p = 0; p < 2; ++p)
            g->pass(p);
    });
    mc::begin();
    for (int p = 0; p < 2; ++p)
        g->pass(p);
    h::finish(1);
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a participant never leaves the barrier");
}

// One arrives and does other things before it waits.
MC_SCENARIO(barrier_split, {})
{
    auto e = h::make_envs(2);
    auto *g = new gate(2);
    h::go(e[0], 0, [=] {
        for (int p = 0; p < 2; ++p)
        {
            g->come(p);
            auto t = g->b.arrive();
            this_co::yield();
            g->b.wait(std::move(t));
            g->left(p);
        }
    });
    h::go(e[1], 1, [=] {
        for (int p = 0; p < 2; ++p)
            g->pass(p);
    });
    h::run(2, "a participant never leaves the barrier");
}

// The last arrival of a phase may be one that does not wait.
MC_SCENARIO(barrier_arrive_only, {})
{
    auto e = h::make_envs(2);
    auto *g = new gate(2);
    h::go(e[0], 0, [=] { g->pass(0); });
    h::go(e[1], 1, [=] {
        g->come(0);
        g->b.arrive();
    });
    h::run(2, "a participant never leaves although all have arrived");
}

// One participant drops out in the first phase; the others go on without it.
MC_SCENARIO(barrier_drop, {})
{
    auto e = h::make_envs(2);
    auto *g = new gate(3);
    g->need[1] = g->need[2] = 2;
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            for (int p = 0; p < 2; ++p)
                g->pass(p);
        });
    h::go(e[0], 2, [=] {
        g->come(0);
        g->b.arrive_and_drop();
    });
    h::run(3, "a participant never leaves although all have arrived");
}

// All histories of arrive / wait / arrive_and_wait / drop by three participants.
MC_SCENARIO(barrier_histories, {.max_points = 400'000})
{
    constexpr int N = 4;
    h::actors A(3, 1);
    int max = 1 + mc::choose(3), left = max, phase = 0;
    auto *b = new co_barrier(max);
    std::vector<std::pair<int, co_arrival_token>> tokens;
    int wait_phase[N];
    bool waiting[N] {};
    static h::cell<int> res;
    static co_arrival_token got;
    constexpr int depth = 6;
    for (int d = 0; d < depth; ++d)
    {
        int i = 0;
        while (i < N && waiting[i])
            ++i;
        if (i == N)
            break;
        // 0 arrive_and_wait, 1 arrive, 2 arrive(2), 3 drop, 4 wait with the oldest token
        int op = mc::choose(tokens.empty() ? 4 : 5);
        res.set(0);
        int n = op == 2 ? 2 : 1;
        if (op < 4)
        {
            A.step(i, [=] {
                try
                {
                    if (op == 0)
                        b->arrive_and_wait();
                    else if (op == 3)
                        b->arrive_and_drop();
                    else
                        got = b->arrive(n);
                    res.set(1);
                }
                catch (std::logic_error &)
                {
                    res.set(2);
                }
            });
            if (n > left)
                MC_CHECK(res.get() == 2, "%d arrivals with %d missing are accepted", n, left);
            else
            {
                MC_CHECK(res.get() != 2, "an arrival is rejected with %d missing", left);
                if (op == 0)
                {
                    waiting[i] = true;
                    wait_phase[i] = phase;
                }
                else
                    MC_CHECK(res.get() == 1, "an arrival blocks");
                if (op == 1 || op == 2)
                    tokens.push_back({phase, got});
                if (op == 3)
                    --max;
                left -= n;
                if (left == 0)
                {
                    left = max;
                    ++phase;
                }
            }
        }
        else
        {
            auto [p, t] = tokens.front();
            tokens.erase(tokens.begin());
            static co_arrival_token use;
            use = t;
            A.step(i, [=] {
                b->wait(std::move(use));
                res.set(1);
            });
            waiting[i] = true;
            wait_phase[i] = p;
        }
        for (int k = 0; k < N; ++k)
            if (waiting[k])
            {
                if (wait_phase[k] < phase)
                    MC_CHECK(!A.busy(k), "a participant stays although its phase is complete");
                else
                    MC_CHECK(A.busy(k), "a participant leaves with %d arrivals missing", left);
                waiting[k] = A.busy(k);
            }
        mc::outcome(phase * 64 + left * 8 + max);
    }
}

// A token of another barrier is rejected.
MC_SCENARIO(barrier_foreign, {})
{
    auto e = h::make_envs(1);
    h::go(e[0], 0, [] {
        co_barrier a(2), b(2);
        auto t = a.arrive();
        MC_CHECK(h::throws<std::logic_error>([&] { b.wait(std::move(t)); }), "a foreign token is accepted");
    });
    h::run(1);
}

// Very many participants, very many phases.
MC_SCENARIO(barrier_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    bool phases = mc::choose(2);
    int n = h::many();
    int people = phases ? 2 : n, turns = phases ? n : 2;
    auto *b = new co_barrier(people);
    auto *arrived = new h::cell<int>;
    x->add(people, [=](int) {
        for (int t = 1; t <= turns; ++t)
        {
            arrived->add(1);
            b->arrive_and_wait();
            MC_CHECK(arrived->get() >= t * people, "phase %d is left after %d arrivals of %d", t, arrived->get(), t * people);
        }
    });
    x->all("one of many never leaves the barrier");
}

// A token is kept while the barrier goes through very many phases.
MC_SCENARIO(barrier_old_token, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1);
    constexpr int counts[] = {1, 2, 3, 16, 128, 256, 512};
    int n = counts[mc::choose(7)];
    auto *b = new co_barrier(2);
    x->add([=](int) {
        auto token = b->arrive();
        auto other = b->arrive();
        for (int i = 1; i < n; ++i)
            b->arrive(2);
        b->wait(std::move(token));
        b->wait(std::move(other));
    });
    x->all("a wait for a phase completed long ago never returns");
}
