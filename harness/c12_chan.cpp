// C12: buffered and unlimited channels.
#include "chan_common.h"

namespace
{

// P producers with n items each, C consumers until the end; the last producer closes.
void crowd(int cap, int P, int n, int C, int envs)
{
    auto e = h::make_envs(envs);
    auto *t = new traffic(cap);
    auto *running = new h::cell<int>;
    running->set(P);
    for (int i = 0; i < P; ++i)
        h::go(e[i % envs], i, [=] {
            t->produce(i * 8, n);
            mc::mark();
            if (running->add(-1) == 0)
                t->close();
        });
    for (int i = 0; i < C; ++i)
        h::go(e[(P + i) % envs], P + i, [=] { t->consume(); });
    h::run(P + C, "a producer or consumer never gets on");
    t->balance();
}

}

MC_SCENARIO(chan_1p1c, {})
{
    crowd(1, 1, 3, 1, 2);
}
MC_SCENARIO(chan_1p1c_same_env, {})
{
    crowd(1, 1, 3, 1, 1);
}
MC_SCENARIO(chan_2p1c, {})
{
    crowd(1, 2, 2, 1, 2);
}
MC_SCENARIO(chan_1p2c, {})
{
    crowd(1, 1, 3, 2, 2);
}
MC_SCENARIO(chan_2p2c, {})
{
    crowd(1 + mc::choose(2), 2, 2, 2, 2);
}
MC_SCENARIO(chan_unlimited, {})
{
    crowd(-1, 2, 2, 1, 2);
}

// close comes from a third party at any moment.
MC_SCENARIO(chan_close, {})
{
    auto e = h::make_envs(2);
    auto *t = new traffic(mc::choose(2) ? 1 : -1);
    h::go(e[0], 0, [=] { t->produce(0, 3); });
    h::go(e[1], 1, [=] { t->consume(); });
    h::go(e[1], 2, [=] { t->close(); });
    h::run(3, "close leaves somebody blocked");
    t->balance();
}

// close with blocked producers only, then with blocked consumers only.
MC_SCENARIO(chan_close_producers, {})
{
    auto e = h::make_envs(2);
    auto *t = new traffic(1);
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] { t->produce(i * 8, 2); });
    h::go(e[0], 2, [=] {
        t->close();
        t->consume();
    });
    h::run(3, "close leaves a producer blocked");
    t->balance();
}
MC_SCENARIO(chan_close_consumers, {})
{
    auto e = h::make_envs(2);
    auto *t = new traffic(mc::choose(2) ? 1 : -1);
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] { t->consume(); });
    h::go(e[1], 2, [=] {
        t->push(0);
        t->close();
    });
    h::run(3, "close leaves a consumer blocked");
    t->balance();
}

// A plain thread on either side.
MC_SCENARIO(chan_thread, {})
{
    auto e = h::make_envs(1);
    auto *t = new traffic(1);
    int side = mc::choose(2);
    auto produce = [=] {
        t->produce(0, 2);
        t->close();
    };
    h::go(e[0], 0, [=] { side ? t->consume() : produce(); });
    mc::begin();
    side ? produce() : t->consume();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(1, "a producer or consumer never gets on");
    t->balance();
}

// Iteration and the operators.
MC_SCENARIO(chan_iterate, {})
{
    auto e = h::make_envs(2);
    auto *ch = new co_chan<int>(mc::choose(3) - 1);
    h::go(e[0], 0, [=] {
        *ch << 0 << 1;
        bool ok = *ch < 2;
        MC_CHECK(ok, "< fails on an open channel");
        ch->close();
        MC_CHECK(!(*ch < 3), "< succeeds on a closed channel");
    });
    h::go(e[1], 1, [=] {
        int want = 0, v = -1;
        *ch >> v;
        MC_CHECK(v == want++, ">> delivers %d", v);
        for (auto &&x : *ch)
            MC_CHECK(x == want++, "iteration delivers %d instead of %d", x, want - 1);
        MC_CHECK(want == 3, "iteration ends after %d items", want);
        MC_CHECK(!(*ch > v), "> succeeds at the end");
    });
    h::run(2, "iteration never ends");
}

// Copies of a channel are the same channel.
MC_SCENARIO(chan_copy, {})
{
    auto e = h::make_envs(2);
    co_chan<int> ch(1);
    h::go(e[0], 0, [ch]() mutable {
        for (int i = 0; i < 2; ++i)
            ch.push(i);
        ch.close();
    });
    h::go(e[1], 1, [c = ch]() mutable {
        for (int i = 0; i < 2; ++i)
        {
            auto r = c.pop();
            MC_CHECK(r && *r == i, "a copy of the channel delivers something else");
        }
        MC_CHECK(!c.pop(), "a copy of the channel does not end");
    });
    h::run(2);
}

// All histories of push / pop / close.
MC_SCENARIO(chan_histories, {.max_points = 400'000})
{
    constexpr int N = 4;
    h::actors A(3, 1);
    int cap = mc::choose(3);
    cap = cap == 2 ? -1 : cap + 1;
    auto *ch = new co_chan<int>(cap);
    struct op
    {
        int kind {0}; // 1 push, 2 pop
        int v {0};
    } st[N];
    static h::cell<int> res[N];
    std::vector<int> q; // accepted, not yet delivered, in order
    bool closed = false;
    int next = 0;
    for (int d = 0; d < 9; ++d)
    {
        int i = 0;
        while (i < N && st[i].kind)
            ++i;
        if (i == N)
            break;
        int k = mc::choose(closed ? 2 : 3);
        res[i].set(-9);
        if (k == 0)
        {
            st[i] = {1, next};
            A.step(i, [=, v = next] { res[i].set(ch->push(v) ? 1 : 0); });
            ++next;
        }
        else if (k == 1)
        {
            st[i] = {2, 0};
            A.step(i, [=] { res[i].set(ch->pop().value_or(-1)); });
        }
        else
        {
            closed = true;
            A.step(i, [=] { ch->close(); });
            MC_CHECK(!A.busy(i), "close blocks");
        }
        // Pushes that came through, in the order of their values (several only after a close, which refuses them).
        for (int j = 0; j < N; ++j)
            if (st[j].kind == 1 && !A.busy(j))
            {
                if (res[j].get() == 1)
                {
                    MC_CHECK(!closed, "a push into a closed channel succeeds");
                    q.push_back(st[j].v);
                }
                else
                    MC_CHECK(closed, "a push into an open channel fails");
                st[j].kind = 0;
            }
        for (int j = 0; j < N; ++j)
            if (st[j].kind == 2 && !A.busy(j))
            {
                if (res[j].get() == -1)
                    MC_CHECK(closed && q.empty(), "a pop reports the end with %zu items left", q.size());
                else
                {
                    MC_CHECK(!q.empty() && q.front() == res[j].get(), "a pop delivers %d instead of %d", res[j].get(), q.empty() ? -1 : q.front());
                    q.erase(q.begin());
                }
                st[j].kind = 0;
            }
        MC_CHECK(cap < 0 || (int)q.size() <= cap, "%zu items in a channel of %d", q.size(), cap);
        for (int j = 0; j < N; ++j)
        {
            MC_CHECK(st[j].kind != 2 || (!closed && q.empty()), "a pop stays blocked with %zu items, %s", q.size(), closed ? "closed" : "open");
            MC_CHECK(st[j].kind != 1 || (!closed && (int)q.size() == cap), "a push stays blocked with %zu items of %d, %s", q.size(), cap, closed ? "closed" : "open");
        }
        MC_CHECK(ch->closed() == closed && ch->empty() == q.empty() && (cap < 0 || ch->max_size() == cap), "a channel of %d with %zu items, %s, says that it has %d places, is %s and %s", cap, q.size(), closed ? "closed" : "open", ch->max_size(), ch->empty() ? "empty" : "not empty", ch->closed() ? "closed" : "open");
        mc::outcome(q.size() * 2 + closed);
    }
}

// Several wait, and as many operations come at once before any of them goes on.
MC_SCENARIO(chan_herd, {})
{
    auto e = h::make_envs(1 + mc::choose(2));
    int waiting = 1 + mc::choose(3), burst = 1 + mc::choose(3), kind = mc::choose(5);
    constexpr int caps[] = {1, 2, -1, 1, 2};
    int cap = caps[kind];
    bool full = kind >= 3;
    auto *ch = new co_chan<int>(cap);
    auto *through = new h::cell<int>;
    if (full)
        h::go(e[0], 8, [=] {
            for (int i = 0; i < cap; ++i)
                ch->push(i);
        });
    mc::settle(100);
    for (int i = 0; i < waiting; ++i)
        h::go(e[0], i, [=] {
            if (full)
                MC_CHECK(ch->push(100 + i), "a push into an open channel fails");
            else
                MC_CHECK(ch->pop(), "a pop reports the end of an open channel");
            mc::mark();
            through->add(1);
        });
    mc::settle(100);
    MC_CHECK(through->get() == 0, "an operation that has to wait goes on");
    h::go(e.back(), waiting, [=] {
        for (int i = 0; i < burst; ++i)
            full ? (void)ch->pop() : (void)ch->push(i);
    });
    mc::begin();
    mc::settle(1000);
    mc::end();
    int want = waiting < burst ? waiting : burst;
    MC_CHECK(through->get() == want, "%d of %d that wait go on after %d operations", through->get(), waiting, burst);
}

// Very many items, very many producers and consumers.
MC_SCENARIO(chan_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int size = mc::choose(4);
    int shape = mc::choose(3); // one each; many producers; many consumers
    int n = shape ? std::min(h::many(), 150) : h::many();
    auto *ch = new co_chan<int>(size == 0 ? -1 : size == 1 ? 1 : size == 2 ? 64 : n);
    int total = shape == 0 ? 1000 : n;
    auto *got = new std::vector<int>(total);
    auto *last = new h::cell<int>;
    last->set(-1);
    x->add(shape == 2 ? n : 1, [=](int) {
        int upto = shape == 2 ? 1 : total;
        for (int i = 0; i < upto; ++i)
        {
            auto v = ch->pop();
            MC_CHECK(v.has_value(), "a channel that is open reports the end");
            MC_CHECK(*v >= 0 && *v < total && ++(*got)[*v] == 1, "an item is received twice");
            if (shape != 1)
            {
                MC_CHECK(shape == 2 || *v == last->get() + 1, "items of one producer are received in another order");
                last->set(*v);
            }
        }
    });
    auto *next = new h::cell<int>;
    x->add(shape == 1 ? n : 1, [=](int) {
        int upto = shape == 1 ? 1 : total;
        for (int i = 0; i < upto; ++i)
            MC_CHECK(ch->push(next->add(1) - 1), "a channel that is open does not take an item");
    });
    x->all("one of many is never served");
    for (int i = 0; i < total; ++i)
        MC_CHECK((*got)[i] == 1, "an item is lost");
    // fills it up again and closes it with producers or consumers that wait
    bool full = mc::choose(2);
    int before = x->n;
    x->add(n, [=](int i) {
        if (full)
            ch->push(i);
        else
            ch->pop();
    });
    mc::settle(600'000);
    int left = full ? (size == 0 ? 0 : size == 1 ? n - 1 : size == 2 ? std::max(0, n - 64) : 0) : n;
    MC_CHECK(before + n - x->ended.get() == left, "%d of %d wait instead of %d", before + n - x->ended.get(), n, left);
    ch->close();
    x->all("one of many waits on a closed channel");
    for (int i = 0; full && i < n - left; ++i)
        MC_CHECK(ch->pop().has_value(), "an item is lost by closing");
    MC_CHECK(!ch->pop().has_value() && !ch->push(1), "a closed channel is used");
}

// Items that own memory; the operators; what a channel tells about itself.
MC_SCENARIO(chan_values, {})
{
    h::make_envs(1);
    constexpr int sizes[] = {-7, -1, 1, 2, 5};
    int size = sizes[mc::choose(5)];
    bool operators = mc::choose(2);
    auto text = [](int i) { return std::string(60, (char)('a' + i)); };
    co_chan<std::string> ch(size);
    MC_CHECK(size < 0 ? ch.max_size() < 0 : ch.max_size() == size, "a channel of size %d says %d", size, ch.max_size());
    MC_CHECK(ch.empty() && !ch.closed(), "a new channel is not empty or closed");
    int n = size < 0 ? 9 : size;
    for (int round = 0; round < 3; ++round)
    {
        for (int i = 0; i < n; ++i)
        {
            if (!operators)
                MC_CHECK(ch.push(text(i)), "an open channel does not take an item");
            else if (i % 2)
                MC_CHECK(ch < text(i), "an open channel does not take an item");
            else
                ch << text(i);
            MC_CHECK(!ch.empty(), "a channel with items is empty");
        }
        if (round == 2)
            ch.close();
        for (int i = 0; i < n; ++i)
        {
            std::string s;
            if (!operators)
                s = ch.pop().value();
            else if (i % 2)
                MC_CHECK(ch > s, "a channel with items reports the end");
            else
                ch >> s;
            MC_CHECK(s == text(i), "an item is changed");
        }
        MC_CHECK(ch.empty() && ch.closed() == (round == 2), "a channel tells something wrong about itself");
    }
    std::string s = "untouched";
    MC_CHECK(!ch.pop() && !(ch < text(0)) && !(ch > s) && s == "untouched", "a closed channel is used");
    for (auto &x : ch)
        MC_CHECK(false, "an item appears: %s", x.c_str());
}
