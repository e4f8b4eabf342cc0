// C03: mutex, timed mutex, spinlock.
#include "common.h"

namespace
{

template <typename M>
void contend(M *m, h::section *s, int rounds, uint64_t hold_ms)
{
    for (int i = 0; i < rounds; ++i)
    {
        m->lock();
        s->enter_unique("mutex");
        if (hold_ms)
            h::pass_ms(hold_ms);
        s->leave_unique();
        m->unlock();
    }
}

}

// Two environments, short critical sections: mostly the spinning path.
MC_SCENARIO(mutex_spin, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { contend(m, s, 2, 0); });
    h::go(e[1], 1, [=] { contend(m, s, 2, 0); });
    h::run(2, "a coroutine waits forever for a released mutex");
}

// Long critical sections: waiters go to sleep in the queue.
MC_SCENARIO(mutex_queue, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { contend(m, s, 2, 30); });
    h::go(e[1], 1, [=] { contend(m, s, 2, 30); });
    h::run(2, "a coroutine waits forever for a released mutex");
}

// Holder suspends inside the critical section; waiters in the same and in another environment.
MC_SCENARIO(mutex_yield, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_mutex;
    auto *s = new h::section;
    auto body = [=] {
        m->lock();
        s->enter_unique("mutex");
        this_co::yield();
        h::pass_ms(15);
        this_co::yield();
        s->leave_unique();
        m->unlock();
    };
    h::go(e[0], 0, body);
    h::go(e[0], 1, body);
    h::go(e[1], 2, body);
    h::run(3, "a coroutine waits forever for a released mutex");
}

// A plain thread and a coroutine.
MC_SCENARIO(mutex_thread, {})
{
    auto e = h::make_envs(1);
    auto *m = new co_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { contend(m, s, 1, 30); });
    new std::thread([=] {
        contend(m, s, 1, 30);
        h::finish(1);
    });
    h::run(2, "a waiter waits forever for a released mutex");
}

// try_lock and timed lock against a holder.
MC_SCENARIO(mutex_try, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_timed_mutex;
    auto *s = new h::section;
    auto *got = new h::cell<int>;
    auto body = [=] {
        if (m->try_lock())
        {
            s->enter_unique("try_lock");
            got->add(1);
            s->leave_unique();
            m->unlock();
        }
    };
    h::go(e[0], 0, body);
    h::go(e[1], 1, body);
    h::run(2);
    MC_CHECK(got->get() >= 1, "two try_lock calls on a free mutex and none succeeds");
    mc::outcome(got->get());
}

MC_SCENARIO(mutex_timed, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_timed_mutex;
    auto *s = new h::section;
    auto *mode = new int(mc::choose(2));
    h::go(e[0], 0, [=] {
        m->lock();
        s->enter_unique("timed mutex");
        h::pass_ms(*mode ? 40 : 4);
        this_co::yield();
        s->leave_unique();
        m->unlock();
    });
    h::go(e[1], 1, [=] {
        auto t0 = mc::now_ns();
        if (m->try_lock_for(20ms))
        {
            s->enter_unique("timed mutex");
            s->leave_unique();
            m->unlock();
            mc::outcome(1);
        }
        else
            MC_CHECK(mc::now_ns() - t0 >= 20'000'000, "timed lock gave up after %llu us of 20000", (unsigned long long)(mc::now_ns() - t0) / 1000);
        m->lock();
        s->enter_unique("timed mutex");
        s->leave_unique();
        m->unlock();
    });
    h::run(2, "a timed lock hangs or corrupts the mutex");
}

MC_SCENARIO(spinlock_3, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_spinlock;
    auto *s = new h::section;
    auto body = [=] {
        m->lock();
        s->enter_unique("spinlock");
        s->leave_unique();
        m->unlock();
        if (m->try_lock())
        {
            s->enter_unique("spinlock");
            s->leave_unique();
            m->unlock();
        }
    };
    h::go(e[0], 0, body);
    h::go(e[1], 1, body);
    h::go(e[1], 2, body);
    h::run(3, "a coroutine spins forever on a released spinlock");
}

// All histories of lock / try_lock / timed lock / unlock by three owners (two coroutines, one thread).
MC_SCENARIO(mutex_histories, {.max_points = 400'000})
{
    h::actors A(2, 1);
    auto *m = new co_timed_mutex;
    int owner = -1;
    std::array<bool, 3> waiting {};
    static std::array<h::cell<int>, 3> res; // result of the last command: 0 none, 1 got it, 2 refused, 3 rejected
    constexpr int depth = 5;
    auto settle_waiters = [&](const char *what) {
        // Whoever was waiting and is not busy any more owns the mutex now.
        int admitted = 0;
        for (int i = 0; i < 3; ++i)
            if (waiting[i] && !A.busy(i))
            {
                waiting[i] = false;
                ++admitted;
                MC_CHECK(owner < 0, "%s: a waiter got the mutex while somebody owns it", what);
                owner = i;
            }
        bool any = waiting[0] || waiting[1] || waiting[2];
        MC_CHECK(owner >= 0 || !any, "%s: the mutex is free and a waiter stays blocked", what);
    };
    for (int d = 0; d < depth; ++d)
    {
        int n = 0;
        struct
        {
            int who, op;
        } cand[16];
        for (int i = 0; i < 3; ++i)
        {
            if (waiting[i])
                continue;
            if (owner != i)
                cand[n++] = {i, 0}; // lock
            cand[n++] = {i, 1};     // unlock
            if (i != 1)
                cand[n++] = {i, 2}; // try_lock
            if (i == 0)
                cand[n++] = {i, 3}; // try_lock_for
        }
        if (!n)
            break;
        auto c = cand[mc::choose(n)];
        int i = c.who;
        res[i].set(0);
        switch (c.op)
        {
        case 0:
            A.step(i, [=] { m->lock(); res[i].set(1); });
            waiting[i] = true;
            settle_waiters("lock");
            MC_CHECK(waiting[i] == (owner != i), "lock of a free mutex blocks");
            break;
        case 1:
            A.step(i, [=] { res[i].set(h::throws<std::logic_error>([=] { m->unlock(); }) ? 3 : 1); });
            MC_CHECK(!A.busy(i), "unlock blocks");
            if (owner == i)
            {
                MC_CHECK(res[i].get() == 1, "unlock by the owner is rejected");
                owner = -1;
            }
            else
                MC_CHECK(res[i].get() == 3, "unlock by somebody who does not own the mutex is accepted");
            settle_waiters("unlock");
            break;
        case 2:
        case 3: {
            auto t0 = mc::now_ns();
            A.step(i, [=] { res[i].set((c.op == 2 ? m->try_lock() : m->try_lock_for(10ms)) ? 1 : 2); });
            MC_CHECK(!A.busy(i), "try_lock blocks");
            MC_CHECK((res[i].get() == 1) == (owner < 0), "try_lock on a %s mutex answers %s", owner < 0 ? "free" : "held", res[i].get() == 1 ? "true" : "false");
            if (res[i].get() == 1)
                owner = i;
            else if (c.op == 3)
                MC_CHECK(mc::now_ns() - t0 >= 10'000'000, "timed lock gave up early");
            settle_waiters("try_lock");
            break;
        }
        }
        mc::outcome(owner * 8 + waiting[0] + 2 * waiting[1] + 4 * waiting[2]);
    }
    // Drain: everybody who waits must get it in turn.
    for (int k = 0; k < 4 && owner >= 0; ++k)
    {
        int i = owner;
        A.step(i, [=] { m->unlock(); });
        owner = -1;
        settle_waiters("drain");
    }
    MC_CHECK(owner < 0, "the mutex never becomes free");
}

MC_SCENARIO(mutex_timed_long, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_timed_mutex;
    auto *s = new h::section;
    int k = mc::choose(h::long_times);
    h::go(e[0], 1, [=] {
        m->lock();
        this_co::sleep_for(50ms);
        m->unlock();
    });
    h::go(e[0], 0, [=] {
        bool ok = h::with_long_time(k, [=](auto d) { return m->try_lock_for(d); });
        MC_CHECK(ok, "a timed lock with a very long limit gives up at once");
        s->enter_unique("timed mutex");
        s->leave_unique();
        m->unlock();
    });
    h::run(2, "a timed lock with a very long limit never gets the mutex");
}

// A limit that is over: the call looks once.
MC_SCENARIO(mutex_timed_past, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_timed_mutex;
    int k = mc::choose(h::past_times);
    bool held = mc::choose(2);
    if (held)
        m->lock();
    h::go(e[0], 0, [=] {
        bool ok = m->try_lock_until(h::past_time(k));
        MC_CHECK(ok != held, "a timed lock whose limit is over %s", ok ? "gets a mutex that is held" : "does not get a free mutex");
        if (ok)
        {
            m->unlock();
        }
    });
    h::run(1, "a timed lock whose limit is over never returns");
    if (held)
        m->unlock();
    MC_CHECK(m->try_lock(), "the mutex is not free in the end");
    m->unlock();
}

// Limits between the times of a millisecond clock.
MC_SCENARIO(mutex_timed_fine, {.tick_ns = 50'000})
{
    auto e = h::make_envs(1);
    auto *m = new co_timed_mutex;
    m->lock();
    h::go(e[0], 0, [=] {
        h::not_before("a timed lock", [=](auto d) { MC_CHECK(!m->try_lock_for(d), "a held mutex is taken"); }, [=](auto t) { MC_CHECK(!m->try_lock_until(t), "a held mutex is taken"); });
    });
    h::run(1, "a timed lock never returns");
    m->unlock();
}

// Very many that want the same mutex.
MC_SCENARIO(mutex_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    bool yields = mc::choose(2);
    auto *m = new co_mutex;
    auto *s = new h::section;
    m->lock();
    x->add(n, [=](int) {
        std::scoped_lock lk(*m);
        s->enter_unique("mutex");
        if (yields)
            this_co::yield();
        s->leave_unique();
    });
    x->settle(0, "a mutex that is held is taken");
    m->unlock();
    x->all("one of many never gets the mutex");
    MC_CHECK(m->try_lock(), "the mutex is not free in the end");
}
