// C13: unbuffered channel.
#include "chan_common.h"

namespace
{

void crowd(int P, int n, int C, int envs)
{
    auto e = h::make_envs(envs);
    auto *t = new traffic(0);
    auto *running = new h::cell<int>;
    running->set(P);
    for (int i = 0; i < P; ++i)
        h::go(e[i % envs], i, [=] {
            for (int k = 0; k < n; ++k)
                MC_CHECK(t->push(i * 8 + k), "a push fails");
            mc::mark();
            if (running->add(-1) == 0)
                t->close();
        });
    for (int i = 0; i < C; ++i)
        h::go(e[(P + i) % envs], P + i, [=] { t->consume(); });
    h::run(P + C, "a producer or consumer never gets on although both are present");
    t->balance();
}

}

MC_SCENARIO(sync_1p1c, {})
{
    crowd(1, 2, 1, 2);
}
MC_SCENARIO(sync_same_env, {})
{
    crowd(2, 2, 2, 1);
}
MC_SCENARIO(sync_2p1c, {})
{
    crowd(2, 1, 1, 2);
}
MC_SCENARIO(sync_2p1c_more, {})
{
    crowd(2, 2, 1, 2);
}
MC_SCENARIO(sync_1p2c, {})
{
    crowd(1, 2, 2, 2);
}
MC_SCENARIO(sync_2p2c, {})
{
    crowd(2, 1, 2, 2);
}

// close at any moment; a producer's item is taken exactly if its push succeeds.
MC_SCENARIO(sync_close, {})
{
    auto e = h::make_envs(2);
    auto *t = new traffic(0);
    h::go(e[0], 0, [=] { t->produce(0, 2); });
    h::go(e[1], 1, [=] { t->consume(); });
    h::go(e[1], 2, [=] { t->close(); });
    h::run(3, "close leaves somebody blocked");
    t->balance();
}
MC_SCENARIO(sync_close_producers, {})
{
    auto e = h::make_envs(2);
    auto *t = new traffic(0);
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] { MC_CHECK(!t->push(i), "a push without any receiver succeeds"); });
    h::go(e[0], 2, [=] { t->close(); });
    h::run(3, "close leaves a producer blocked");
    t->balance();
    MC_CHECK(!t->ch.pop(), "an item whose push failed is delivered");
}
MC_SCENARIO(sync_close_consumers, {})
{
    auto e = h::make_envs(2);
    auto *t = new traffic(0);
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] { t->consume(); });
    h::go(e[1], 2, [=] {
        t->push(0);
        t->close();
    });
    h::run(3, "close leaves a consumer blocked");
    t->balance();
}

MC_SCENARIO(sync_thread, {})
{
    auto e = h::make_envs(1);
    auto *t = new traffic(0);
    int side = mc::choose(2);
    auto produce = [=] {
        t->produce(0, 2);
        t->close();
    };
    h::go(e[0], 0, [=] { side ? t->consume() : produce(); });
    mc::begin();
    side ? produce() : t->consume();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(1, "a producer or consumer never gets on");
    t->balance();
}

// All histories of push / pop / close.
MC_SCENARIO(sync_histories, {.max_points = 400'000})
{
    constexpr int N = 5;
    h::actors A(4, 1);
    auto *ch = new co_chan<int>(0);
    int st[N] {}; // 1 push, 2 pop
    static h::cell<int> res[N], val[N];
    bool closed = false;
    int next = 0;
    for (int d = 0; d < 9; ++d)
    {
        int i = 0;
        while (i < N && st[i])
            ++i;
        if (i == N)
            break;
        int k = mc::choose(closed ? 2 : 3);
        int pushes = 0, pops = 0;
        for (int x : st)
            x == 1 ? ++pushes : x == 2 ? ++pops : 0;
        res[i].set(-9);
        if (k == 0)
        {
            st[i] = 1;
            val[i].set(next++);
            A.step(i, [=] { res[i].set(ch->push(val[i].get()) ? 1 : 0); });
        }
        else if (k == 1)
        {
            st[i] = 2;
            A.step(i, [=] { res[i].set(ch->pop().value_or(-1)); });
        }
        else
        {
            closed = true;
            A.step(i, [=] { ch->close(); });
            MC_CHECK(!A.busy(i), "close blocks");
        }
        int pu = -1, po = -1, npu = 0, npo = 0;
        for (int j = 0; j < N; ++j)
            if (st[j] && !A.busy(j))
            {
                if (st[j] == 1)
                {
                    if (res[j].get() == 1)
                        pu = val[j].get(), ++npu;
                    else
                        MC_CHECK(closed, "a push into an open channel fails");
                }
                else if (res[j].get() >= 0)
                    po = res[j].get(), ++npo;
                else
                    MC_CHECK(closed, "a pop reports the end of an open channel");
                st[j] = 0;
            }
        MC_CHECK(npu <= 1 && npo <= 1 && npu == npo && pu == po, "%d pushes (item %d) succeed and %d pops (item %d) return", npu, pu, npo, po);
        bool meet = !closed && ((k == 0 && pops) || (k == 1 && pushes));
        MC_CHECK(npu == meet, meet ? "a push and a pop do not meet" : "a push succeeds after close or without receiver");
        for (int x : st)
            MC_CHECK(!x || !closed, "somebody stays blocked on a closed channel");
        mc::outcome(pushes * 16 + pops * 2 + closed);
    }
}

// Several wait, and as many operations come at once before any of them goes on.
MC_SCENARIO(sync_herd, {})
{
    auto e = h::make_envs(1 + mc::choose(2));
    int waiting = 1 + mc::choose(3), burst = 1 + mc::choose(3);
    bool push = mc::choose(2); // what the waiting ones do
    auto *ch = new co_chan<int>(0);
    auto *through = new h::cell<int>;
    for (int i = 0; i < waiting; ++i)
        h::go(e[0], i, [=] {
            if (push)
                MC_CHECK(ch->push(100 + i), "a push into an open channel fails");
            else
                MC_CHECK(ch->pop(), "a pop reports the end of an open channel");
            mc::mark();
            through->add(1);
        });
    mc::settle(100);
    MC_CHECK(through->get() == 0, "an operation that has to wait goes on");
    h::go(e.back(), waiting, [=] {
        for (int i = 0; i < burst; ++i)
            push ? (void)ch->pop() : (void)ch->push(i);
    });
    mc::begin();
    mc::settle(1000);
    mc::end();
    int want = waiting < burst ? waiting : burst;
    MC_CHECK(through->get() == want, "%d of %d that wait go on after %d operations", through->get(), waiting, burst);
}

// Very many items, producers and consumers.
MC_SCENARIO(sync_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int shape = mc::choose(4); // one each; many producers; many consumers; both
    int n = shape ? std::min(h::many(), 80) : h::many();
    auto *ch = new co_chan<int>(0);
    auto *got = new std::vector<int>(n);
    auto *taken = new h::cell<int>;
    x->add(shape < 2 ? 1 : n, [=](int) {
        for (int i = 0; i < (shape < 2 ? n : 1); ++i)
        {
            auto v = ch->pop();
            MC_CHECK(v.has_value(), "a channel that is open reports the end");
            MC_CHECK(*v >= 0 && *v < n && ++(*got)[*v] == 1, "an item is received twice");
            taken->add(1);
        }
    });
    auto *next = new h::cell<int>;
    x->add(shape % 2 ? n : 1, [=](int) {
        for (int i = 0; i < (shape % 2 ? 1 : n); ++i)
            MC_CHECK(ch->push(next->add(1) - 1), "a channel that is open does not take an item");
    });
    x->all("one of many is never served");
    MC_CHECK(taken->get() == n, "%d items of %d are received", taken->get(), n);
    bool push = mc::choose(2);
    int before = x->n;
    x->add(n, [=](int i) {
        if (push)
            MC_CHECK(!ch->push(i), "a push without receiver succeeds");
        else
            MC_CHECK(!ch->pop().has_value(), "an item appears");
    });
    x->settle(before, "somebody does not wait for the other side");
    ch->close();
    x->all("one of many waits on a closed channel");
}

// Items that own memory; the operators; what a channel tells about itself.
MC_SCENARIO(sync_values, {})
{
    auto e = h::make_envs(2);
    bool operators = mc::choose(2), same = mc::choose(2);
    auto text = [](int i) { return std::string(60, (char)('a' + i)); };
    auto *ch = new co_chan<std::string>(0);
    MC_CHECK(ch->max_size() == 0 && ch->empty() && !ch->closed(), "a new channel tells something wrong about itself");
    h::go(e[0], 0, [=] {
        for (int i = 0; i < 5; ++i)
        {
            if (!operators)
                MC_CHECK(ch->push(text(i)), "an open channel does not take an item");
            else if (i % 2)
                MC_CHECK(*ch < text(i), "an open channel does not take an item");
            else
                *ch << text(i);
        }
        ch->close();
    });
    h::go(e[same ? 0 : 1], 1, [=] {
        int i = 0;
        for (; operators && i < 3; ++i)
        {
            std::string s;
            if (i % 2)
                MC_CHECK(*ch > s, "a channel with a producer reports the end");
            else
                *ch >> s;
            MC_CHECK(s == text(i), "an item is changed");
        }
        for (auto &s : *ch)
            MC_CHECK(i < 5 && s == text(i++), "an item is changed");
        MC_CHECK(i == 5, "%d items of 5 are received", i);
    });
    h::run(2);
    MC_CHECK(ch->closed() && ch->empty() && !ch->pop() && !ch->push("x"), "a closed channel is used");
}
