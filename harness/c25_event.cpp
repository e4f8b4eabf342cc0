// C25: a publication calls every handler that is subscribed exactly once with the arguments published.
#include "common.h"

#include <string>

namespace
{

struct board
{
    co_event<int, std::string> ev;
    co_event_handle handle[8] {};
    bool on[8] {};      // subscribed
    int calls[8] {};    // in the current publication of this level
    bool left[8] {};    // unsubscribed during the current publication
    bool joined[8] {};  // subscribed during it
    int depth {0};
    int value {0};
    int extra {4};
};

enum
{
    QUIET,
    LEAVE,      // unsubscribes itself
    LEAVE_NEXT, // unsubscribes the next one
    LEAVE_ALL,
    ADD,    // subscribes another one
    REJOIN, // unsubscribes and subscribes itself
    AGAIN,  // publishes again
    KINDS
};

void publish(board *b, int value);
void join_in(board *b, int i, int kind);

void leave(board *b, int i)
{
    if (!b->on[i])
        return;
    b->ev.unsub(b->handle[i]);
    b->on[i] = false;
    b->left[i] = true;
}

void handler(board *b, int i, int kind, int value, const std::string &text)
{
    MC_CHECK(value == b->value && text == std::to_string(value) + " and a text that is too long to be kept in place", "a handler gets other arguments than those published");
    MC_CHECK(b->on[i] || b->left[i], "a handler is called that was not subscribed");
    ++b->calls[i];
    switch (kind)
    {
    case LEAVE:
        leave(b, i);
        break;
    case LEAVE_NEXT:
        leave(b, (i + 1) % 4);
        break;
    case LEAVE_ALL:
        for (int k = 0; k < 8; ++k)
            leave(b, k);
        break;
    case ADD:
        if (b->extra < 8)
        {
            int k = b->extra++;
            join_in(b, k, QUIET);
            b->joined[k] = true;
        }
        break;
    case REJOIN:
        leave(b, i);
        if (b->extra < 8)
        {
            int k = b->extra++;
            join_in(b, k, QUIET);
            b->joined[k] = true;
        }
        break;
    case AGAIN:
        if (b->depth == 1)
        {
            int calls[8];
            bool left[8], joined[8];
            memcpy(calls, b->calls, sizeof calls);
            memcpy(left, b->left, sizeof left);
            memcpy(joined, b->joined, sizeof joined);
            publish(b, value + 1);
            memcpy(b->calls, calls, sizeof calls);
            for (int k = 0; k < 8; ++k)
            {
                b->left[k] |= left[k];
                b->joined[k] |= joined[k];
            }
            b->value = value;
        }
        break;
    }
}

void join_in(board *b, int i, int kind)
{
    b->on[i] = true;
    b->handle[i] = b->ev.sub([=](int value, std::string text) { handler(b, i, kind, value, text); });
}

void publish(board *b, int value)
{
    bool before[8];
    memcpy(before, b->on, sizeof before);
    memset(b->calls, 0, sizeof b->calls);
    memset(b->left, 0, sizeof b->left);
    memset(b->joined, 0, sizeof b->joined);
    b->value = value;
    ++b->depth;
    b->ev.pub(value, std::to_string(value) + " and a text that is too long to be kept in place");
    --b->depth;
    for (int i = 0; i < 8; ++i)
    {
        MC_CHECK(b->calls[i] <= 1, "a handler is called %d times by one publication", b->calls[i]);
        if (before[i] && !b->left[i])
            MC_CHECK(b->calls[i] == 1, "a subscribed handler is not called by a publication");
        if (!before[i] && !b->joined[i])
            MC_CHECK(b->calls[i] == 0, "a handler is called that was not subscribed");
    }
}

}

// All behaviours of three handlers, two publications.
MC_SCENARIO(event_handlers, {})
{
    auto *b = new board;
    int n = 1 + mc::choose(3);
    for (int i = 0; i < n; ++i)
        join_in(b, i, mc::choose(KINDS));
    publish(b, 10);
    publish(b, 20);
    mc::outcome(b->extra * 16 + b->on[0] + b->on[1] * 2 + b->on[2] * 4);
}

// All sequences of subscriptions, unsubscriptions and publications.
MC_SCENARIO(event_histories, {})
{
    auto *b = new board;
    int kinds[4] = {QUIET, LEAVE, QUIET, LEAVE_NEXT};
    for (int step = 0; step < 6; ++step)
    {
        int op = mc::choose(5);
        if (op == 4)
            publish(b, step);
        else if (b->on[op])
            leave(b, op);
        else
            join_in(b, op, kinds[op]);
    }
    publish(b, 100);
    mc::outcome(b->on[0] + b->on[1] * 2 + b->on[2] * 4 + b->on[3] * 8);
}

// Without arguments, unknown handles, handlers that throw.
MC_SCENARIO(event_odd, {})
{
    co_event<> e;
    int n = 0;
    e.pub();
    e.unsub(12);
    auto h1 = e.sub([&] { ++n; });
    auto h2 = e.sub([&] { n += 10; });
    MC_CHECK(h1 != h2, "two subscriptions have the same handle");
    e.unsub(h1 + h2 + 7);
    e.pub();
    MC_CHECK(n == 11, "a handler is not called");
    e.unsub(h1);
    e.unsub(h1);
    e.pub();
    MC_CHECK(n == 21, "the wrong handler is unsubscribed");
    auto h3 = e.sub([&] { throw 5; });
    try
    {
        e.pub();
    }
    catch (int)
    {
    }
    e.unsub(h3);
    n = 0;
    e.pub();
    MC_CHECK(n == 10, "an event is not usable after a handler has thrown");
    std::thread([&] { e.pub(); }).join();
    MC_CHECK(n == 20, "an event is locked after a handler has thrown");
}

namespace
{

struct shared_board
{
    co_event<int> ev;
    h::cell<int> calls[4];
};

}

// One publishes, one comes and goes; the one that stays is called by every publication.
static void come_and_go(bool threads)
{
    auto e = h::make_envs(threads ? 0 : 2);
    auto *b = new shared_board;
    auto *off = new h::cell<bool>;
    auto *bad = new h::cell<int>;
    b->ev.sub([=](int) { b->calls[0].add(1); });
    auto who = [=](int k, std::function<void()> f) {
        if (threads)
            new std::thread([=] { f(); h::finish(k); });
        else
            h::go(e[k], k, f);
    };
    mc::begin();
    who(0, [=] {
        for (int i = 0; i < 2; ++i)
        {
            mc::mark();
            bool was_off = off->get();
            int c = b->calls[1].get();
            b->ev.pub(i);
            if (was_off && b->calls[1].get() != c)
                bad->set(1);
        }
    });
    who(1, [=] {
        auto hd = b->ev.sub([=](int) { b->calls[1].add(1); });
        auto h2 = b->ev.sub([=](int) { b->calls[2].add(1); });
        b->ev.unsub(hd);
        mc::mark();
        off->set(true);
        b->ev.unsub(h2);
    });
    mc::settle(10'000);
    mc::end();
    h::expect_all(2, "a participant never finishes");
    MC_CHECK(b->calls[0].get() == 2, "a handler is called %d times by 2 publications", b->calls[0].get());
    MC_CHECK(b->calls[1].get() <= 2 && b->calls[2].get() <= 2, "a handler is called more often than there are publications");
    MC_CHECK(!bad->get(), "a handler is called after it has been unsubscribed");
    mc::outcome(b->calls[1].get() * 4 + b->calls[2].get());
}
MC_SCENARIO(event_come_and_go, {}) { come_and_go(false); }
MC_SCENARIO(event_come_and_go_thread, {}) { come_and_go(true); }

// Two publications at once.
MC_SCENARIO(event_two_publishers, {})
{
    auto e = h::make_envs(2);
    auto *b = new shared_board;
    b->ev.sub([=](int k) { b->calls[k].add(1); });
    b->ev.sub([=](int k) { b->calls[k + 2].add(1); });
    mc::begin();
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] { b->ev.pub(i); });
    mc::settle(10'000);
    mc::end();
    h::expect_all(2, "a participant never finishes");
    for (int i = 0; i < 4; ++i)
        MC_CHECK(b->calls[i].get() == 1, "a handler is called %d times by one publication", b->calls[i].get());
}

// Handlers of two events use the other event.
MC_SCENARIO(event_crosswise, {})
{
    auto e = h::make_envs(2);
    auto *a = new shared_board;
    auto *b = new shared_board;
    auto hook = [](shared_board *from, shared_board *to) {
        from->ev.sub([=](int) {
            from->calls[0].add(1);
            auto hd = to->ev.sub([](int) {});
            to->ev.unsub(hd);
        });
    };
    hook(a, b);
    hook(b, a);
    mc::begin();
    h::go(e[0], 0, [=] { a->ev.pub(1); });
    h::go(e[1], 1, [=] { b->ev.pub(1); });
    mc::settle(10'000);
    mc::end();
    h::expect_all(2, "handlers that use each other's event wait for ever");
    MC_CHECK(a->calls[0].get() == 1 && b->calls[0].get() == 1, "a handler is not called once");
}

// A handler that suspends: other coroutines, also of the same environment, use the event meanwhile.
MC_SCENARIO(event_suspending, {})
{
    auto e = h::make_envs(2);
    auto *b = new shared_board;
    auto *gate = new co_binary_semaphore(0);
    int where = mc::choose(2);
    b->ev.sub([=](int k) {
        b->calls[k].add(1);
        if (k == 0)
            gate->acquire();
    });
    mc::begin();
    h::go(e[0], 0, [=] { b->ev.pub(0); });
    h::go(e[where], 1, [=] {
        auto hd = b->ev.sub([=](int k) { b->calls[k + 2].add(1); });
        b->ev.pub(1);
        b->ev.unsub(hd);
        gate->release();
    });
    mc::settle(10'000);
    mc::end();
    h::expect_all(2, "an event can not be used while a handler is suspended");
    MC_CHECK(b->calls[0].get() == 1 && b->calls[1].get() == 1 && b->calls[3].get() == 1, "a handler is not called once");
}

// The events the library itself offers: the end of a coroutine, a change of its priority.
MC_SCENARIO(event_finished, {})
{
    auto e = h::make_envs(2);
    auto *n = new h::cell<int>;
    auto *m = new h::cell<int>;
    auto *gate = new co_binary_semaphore(0);
    auto *c = new co({with_bind_env(e[0])}, [=] { gate->acquire(); });
    mc::quiesce();
    co_event_handle hd {};
    c->ctx_finished().sub([=] { n->add(1); });
    auto &finished = c->ctx_finished(); // the handle may be gone when the handlers run
    finished.sub([&finished, &hd, m] {
        m->add(1);
        finished.unsub(hd);
    });
    hd = c->ctx_finished().sub([] {});
    int prio = 0;
    c->ctx_priority_changed().sub([&](int, int now) { prio = now; });
    c->ctx_set_priority(40);
    MC_CHECK(prio == 40, "the change of a priority is not published");
    mc::begin();
    h::go(e[1], 0, [=] { gate->release(); });
    h::go(e[1], 1, [=] { c->join(); });
    mc::settle(10'000);
    mc::end();
    h::expect_all(2, "a participant never finishes");
    MC_CHECK(n->get() == 1 && m->get() == 1, "the end of a coroutine is published %d times", n->get());
}

// Handlers of the end of a coroutine that suspend: all of them run to their end, once.
MC_SCENARIO(event_finished_suspending, {})
{
    auto e = h::make_envs(2);
    auto *n = new h::cell<int>;
    bool shared = mc::choose(2), detach = mc::choose(2);
    int how = mc::choose(3);
    auto *gate = new co_binary_semaphore(0);
    auto *m = new co_mutex;
    auto *c = new co({with_bind_env(e[0]), with_shared_stack(shared)}, [=] {
        gate->acquire();
        return std::string(40, 'r');
    });
    mc::quiesce();
    for (int i = 0; i < 2; ++i)
        c->ctx_finished().sub([=] {
            char mine[64];
            memset(mine, 'a' + i, sizeof mine);
            if (how == 0)
                this_co::yield();
            if (how == 1)
                this_co::sleep_for(200ms);
            if (how == 2)
            {
                std::scoped_lock lk(*m);
                this_co::yield();
            }
            for (char x : mine)
                MC_CHECK(x == 'a' + i, "the stack of a suspended handler is overwritten");
            n->add(1);
        });
    mc::begin();
    if (detach)
        c->detach();
    h::go(e[1], 0, [=] { gate->release(); });
    h::go(e[1], 1, [=] {
        if (!detach)
        {
            MC_CHECK(c->wait<std::string>() == std::string(40, 'r'), "a wait returns another result");
            MC_CHECK(c->ctx_state() == co_state::finished, "a coroutine that has been waited for is not finished");
            c->join();
        }
    });
    for (int k = 2; k < 4; ++k)
        h::go(e[0], k, [=] {
            std::scoped_lock lk(*m);
            this_co::yield();
        });
    mc::settle(10'000);
    mc::end();
    h::expect_all(4, "a participant never finishes");
    MC_CHECK(n->get() == 2, "%d of 2 handlers of the end of a coroutine run to their end", n->get());
}

// Very many handlers and publications.
MC_SCENARIO(event_many, {.max_points = 60'000'000})
{
    h::make_envs(1);
    int n = h::many();
    int pattern = mc::choose(4); // who leaves: nobody, every third, the first half, the last half
    auto *ev = new co_event<int>;
    auto *calls = new std::vector<int>(2 * n);
    std::vector<co_event_handle> handles;
    for (int i = 0; i < n; ++i)
        handles.push_back(ev->sub([=](int v) { MC_CHECK(v == 7, "a handler gets another argument"); ++(*calls)[i]; }));
    auto gone = [=](int i) { return pattern == 1 ? i % 3 == 0 : pattern == 2 ? i < n / 2 : pattern == 3 ? i >= n / 2 : false; };
    ev->pub(7);
    for (int i = 0; i < n; ++i)
        if (gone(i))
            ev->unsub(handles[i]);
    for (int k = 0; k < n; ++k)
        ev->pub(7);
    for (int i = n; i < 2 * n; ++i)
        ev->sub([=](int) { ++(*calls)[i]; });
    ev->pub(7);
    for (int i = 0; i < n; ++i)
        MC_CHECK((*calls)[i] == (gone(i) ? 1 : n + 2), "a handler is called %d times instead of %d", (*calls)[i], gone(i) ? 1 : n + 2);
    for (int i = n; i < 2 * n; ++i)
        MC_CHECK((*calls)[i] == 1, "a handler is called %d times instead of once", (*calls)[i]);
}
