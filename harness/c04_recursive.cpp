// C04: recursive mutex and recursive timed mutex.
#include "common.h"

namespace
{

void nest(co_recursive_mutex *m, h::section *s, int depth, uint64_t hold_ms, bool yield)
{
    for (int i = 0; i < depth; ++i)
        m->lock();
    s->enter_unique("recursive mutex");
    if (hold_ms)
        h::pass_ms(hold_ms);
    if (yield)
        this_co::yield();
    s->leave_unique();
    for (int i = 0; i < depth; ++i)
    {
        if (i + 1 < depth)
        {
            m->unlock();
            s->enter_unique("recursive mutex after an inner unlock");
            s->leave_unique();
        }
        else
            m->unlock();
    }
}

}

MC_SCENARIO(recursive_spin, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_recursive_timed_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { nest(m, s, 2, 0, false); nest(m, s, 1, 0, false); });
    h::go(e[1], 1, [=] { nest(m, s, 2, 0, false); });
    h::run(2, "a coroutine waits forever for a released recursive mutex");
}

MC_SCENARIO(recursive_queue, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_recursive_timed_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { nest(m, s, 2, 30, true); });
    h::go(e[0], 1, [=] { nest(m, s, 1, 30, false); });
    h::go(e[1], 2, [=] { nest(m, s, 2, 30, true); });
    h::run(3, "a coroutine waits forever for a released recursive mutex");
}

// A waiter that was queued locks again and unlocks as often.
MC_SCENARIO(recursive_handover, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_recursive_timed_mutex;
    auto *s = new h::section;
    auto body = [=] {
        m->lock();
        h::pass_ms(30);
        this_co::yield();
        m->lock();
        s->enter_unique("recursive mutex");
        s->leave_unique();
        m->unlock();
        s->enter_unique("recursive mutex");
        s->leave_unique();
        m->unlock();
    };
    h::go(e[0], 0, body);
    h::go(e[1], 1, body);
    h::run(2, "a coroutine waits forever for a released recursive mutex");
}

MC_SCENARIO(recursive_thread, {})
{
    auto e = h::make_envs(1);
    auto *m = new co_recursive_timed_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { nest(m, s, 2, 30, true); });
    new std::thread([=] {
        nest(m, s, 2, 30, false);
        h::finish(1);
    });
    h::run(2, "a waiter waits forever for a released recursive mutex");
}

MC_SCENARIO(recursive_timed, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_recursive_timed_mutex;
    auto *s = new h::section;
    auto *mode = new int(mc::choose(2));
    h::go(e[0], 0, [=] {
        m->lock();
        MC_CHECK(m->try_lock(), "the owner's try_lock is refused");
        m->unlock();
        s->enter_unique("recursive timed mutex");
        h::pass_ms(*mode ? 40 : 4);
        this_co::yield();
        s->leave_unique();
        m->unlock();
    });
    h::go(e[1], 1, [=] {
        auto t0 = mc::now_ns();
        if (m->try_lock_for(20ms))
        {
            s->enter_unique("recursive timed mutex");
            s->leave_unique();
            m->unlock();
            mc::outcome(1);
        }
        else
            MC_CHECK(mc::now_ns() - t0 >= 20'000'000, "timed lock gave up early");
        nest(m, s, 1, 0, false);
    });
    h::run(2, "a timed lock hangs or corrupts the mutex");
}

// All histories of lock / unlock / try_lock / timed lock by two coroutines and a thread.
MC_SCENARIO(recursive_histories, {.max_points = 400'000})
{
    h::actors A(2, 1);
    auto *m = new co_recursive_timed_mutex;
    int owner = -1, count = 0;
    std::array<bool, 3> waiting {};
    static std::array<h::cell<int>, 3> res;
    auto admit = [&](const char *what) {
        for (int i = 0; i < 3; ++i)
            if (waiting[i] && !A.busy(i))
            {
                waiting[i] = false;
                MC_CHECK(owner < 0, "%s: a waiter got the mutex while somebody owns it", what);
                owner = i;
                count = 1;
            }
        MC_CHECK(owner >= 0 || !(waiting[0] || waiting[1] || waiting[2]), "%s: the mutex is free and a waiter stays blocked", what);
    };
    constexpr int depth = 5;
    for (int d = 0; d < depth; ++d)
    {
        int n = 0;
        struct
        {
            int who, op;
        } cand[16];
        for (int i = 0; i < 3; ++i)
        {
            if (waiting[i])
                continue;
            cand[n++] = {i, 0};
            if (i != 2 || owner == 2)
                cand[n++] = {i, 1};
            if (i == 1)
                cand[n++] = {i, 2};
            if (i == 0)
                cand[n++] = {i, 3};
        }
        if (!n)
            break;
        auto c = cand[mc::choose(n)];
        int i = c.who;
        res[i].set(0);
        switch (c.op)
        {
        case 0:
            A.step(i, [=] { m->lock(); });
            if (owner == i)
            {
                MC_CHECK(!A.busy(i), "the owner blocks when it locks again");
                ++count;
            }
            else
            {
                waiting[i] = true;
                admit("lock");
            }
            break;
        case 1:
            A.step(i, [=] { res[i].set(h::throws<std::logic_error>([=] { m->unlock(); }) ? 3 : 1); });
            MC_CHECK(!A.busy(i), "unlock blocks");
            MC_CHECK(res[i].get() == (owner == i ? 1 : 3), owner == i ? "unlock by the owner is rejected" : "unlock by somebody else is accepted");
            if (owner == i && --count == 0)
                owner = -1;
            admit("unlock");
            break;
        case 2:
        case 3:
            A.step(i, [=] { res[i].set((c.op == 2 ? m->try_lock() : m->try_lock_for(10ms)) ? 1 : 2); });
            MC_CHECK(!A.busy(i), "try_lock blocks");
            MC_CHECK((res[i].get() == 1) == (owner < 0 || owner == i), "try_lock answers %s although the mutex is %s", res[i].get() == 1 ? "true" : "false", owner < 0 ? "free" : owner == i ? "its own" : "held by another");
            if (res[i].get() == 1)
            {
                owner = i;
                ++count;
            }
            admit("try_lock");
            break;
        }
        mc::outcome(owner * 32 + count * 8 + waiting[0] + 2 * waiting[1] + 4 * waiting[2]);
    }
    for (int k = 0; k < 24 && owner >= 0; ++k)
    {
        int i = owner;
        A.step(i, [=] { m->unlock(); });
        if (--count == 0)
            owner = -1;
        admit("drain");
    }
    MC_CHECK(owner < 0, "the mutex never becomes free");
}

MC_SCENARIO(recursive_timed_long, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_recursive_timed_mutex;
    int k = mc::choose(h::long_times);
    h::go(e[0], 1, [=] {
        m->lock();
        this_co::sleep_for(50ms);
        m->unlock();
    });
    h::go(e[0], 0, [=] {
        bool ok = h::with_long_time(k, [=](auto d) { return m->try_lock_for(d); });
        MC_CHECK(ok, "a timed lock with a very long limit gives up at once");
        m->unlock();
    });
    h::run(2, "a timed lock with a very long limit never gets the mutex");
}

// A limit that is over: the call looks once.
MC_SCENARIO(recursive_timed_past, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_recursive_timed_mutex;
    int k = mc::choose(h::past_times);
    bool held = mc::choose(2);
    if (held)
        m->lock();
    h::go(e[0], 0, [=] {
        bool ok = m->try_lock_until(h::past_time(k));
        MC_CHECK(ok != held, "a timed lock whose limit is over %s", ok ? "gets a mutex that is held" : "does not get a free mutex");
        if (ok)
        {
            m->unlock();
        }
    });
    h::run(1, "a timed lock whose limit is over never returns");
    if (held)
        m->unlock();
    MC_CHECK(m->try_lock(), "the mutex is not free in the end");
    m->unlock();
}

// Limits between the times of a millisecond clock.
MC_SCENARIO(recursive_timed_fine, {.tick_ns = 50'000})
{
    auto e = h::make_envs(1);
    auto *m = new co_recursive_timed_mutex;
    m->lock();
    h::go(e[0], 0, [=] {
        h::not_before("a timed lock", [=](auto d) { MC_CHECK(!m->try_lock_for(d), "a held mutex is taken"); }, [=](auto t) { MC_CHECK(!m->try_lock_until(t), "a held mutex is taken"); });
    });
    h::run(1, "a timed lock never returns");
    m->unlock();
}

// Very deep nesting, very many that wait.
MC_SCENARIO(recursive_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    auto *m = new co_recursive_mutex;
    auto *s = new h::section;
    auto *gate = new co_counting_semaphore<1000>(0);
    x->add([=](int) {
        for (int i = 0; i < n; ++i)
            m->lock();
        s->enter_unique("recursive mutex");
        gate->acquire();
        for (int i = 0; i < n - 1; ++i)
            m->unlock();
        gate->acquire();
        s->leave_unique();
        m->unlock();
        MC_CHECK(h::throws<std::logic_error>([=] { m->unlock(); }), "an unlock too many is accepted");
    });
    mc::settle(1000);
    x->add(n, [=](int) {
        std::scoped_lock lk(*m);
        s->enter_unique("recursive mutex");
        s->leave_unique();
    });
    x->settle(0, "a recursive mutex that is held is taken");
    gate->release();
    x->settle(0, "a recursive mutex is taken before the last unlock");
    gate->release();
    x->all("one of many never gets the recursive mutex");
    MC_CHECK(m->try_lock(), "the recursive mutex is not free in the end");
}
