// C05: shared mutex and shared timed mutex.
#include "common.h"

namespace
{

void write_once(co_shared_mutex *m, h::section *s, uint64_t ms, bool yield)
{
    m->lock();
    s->enter_unique("shared mutex");
    if (ms)
        h::pass_ms(ms);
    if (yield)
        this_co::yield();
    s->leave_unique();
    m->unlock();
}

void read_once(co_shared_mutex *m, h::section *s, uint64_t ms, bool yield)
{
    m->lock_shared();
    s->enter_shared("shared mutex");
    if (ms)
        h::pass_ms(ms);
    if (yield)
        this_co::yield();
    s->leave_shared();
    m->unlock_shared();
}

struct model
{
    h::actors A;
    co_shared_timed_mutex *m = new co_shared_timed_mutex;
    int n;
    // 0 idle, 1 holds unique, 2 holds shared, 3 waits unique, 4 waits shared
    std::array<int, 5> st {};
    static inline std::array<h::cell<int>, 5> res;
    model(int coroutines, int threads)
        : A(coroutines, threads)
        , n(coroutines + threads)
    {
    }
    int count(int v) const
    {
        int c = 0;
        for (int i = 0; i < n; ++i)
            c += st[i] == v;
        return c;
    }
    void check(const char *what)
    {
        for (int i = 0; i < n; ++i)
            if (st[i] >= 3 && !A.busy(i))
                st[i] -= 2;
        MC_CHECK(count(1) <= 1 && !(count(1) && count(2)), "%s: %d exclusive and %d shared holders", what, count(1), count(2));
        if (!count(1) && !count(2))
            MC_CHECK(!count(3) && !count(4), "%s: nobody holds the mutex and %d exclusive, %d shared waiters stay blocked", what, count(3), count(4));
        if (!count(1) && !count(3))
            MC_CHECK(!count(4), "%s: readers are blocked without any writer", what);
        uint64_t o = 0;
        for (int i = 0; i < n; ++i)
            o = o * 5 + st[i];
        mc::outcome(o);
    }
    void release(int i)
    {
        bool shared = st[i] == 2;
        A.step(i, [this, i, shared] {
            res[i].set(h::throws<std::logic_error>([&] { shared ? m->unlock_shared() : m->unlock(); }) ? 3 : 1);
        });
        MC_CHECK(!A.busy(i) && res[i].get() == 1, "releasing a held mutex %s", A.busy(i) ? "blocks" : "is rejected");
        st[i] = 0;
        check("release");
    }
    void acquire(int i, bool shared)
    {
        A.step(i, [this, shared] { shared ? m->lock_shared() : m->lock(); });
        st[i] = shared ? 4 : 3;
        check(shared ? "lock_shared" : "lock");
    }
    void drain()
    {
        for (int k = 0; k < 16; ++k)
        {
            int i = 0;
            while (i < n && st[i] != 1 && st[i] != 2)
                ++i;
            if (i == n)
                break;
            release(i);
        }
        MC_CHECK(!count(3) && !count(4), "a waiter is never admitted");
    }
};

}

MC_SCENARIO(shared_spin, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_shared_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { write_once(m, s, 0, false); read_once(m, s, 0, false); });
    h::go(e[1], 1, [=] { read_once(m, s, 0, false); write_once(m, s, 0, false); });
    h::run(2, "a waiter of a released shared mutex waits forever");
}

MC_SCENARIO(shared_queue, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_shared_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { write_once(m, s, 30, true); });
    h::go(e[0], 1, [=] { read_once(m, s, 30, true); });
    h::go(e[1], 2, [=] { read_once(m, s, 30, false); });
    h::run(3, "a waiter of a released shared mutex waits forever");
}

MC_SCENARIO(shared_queue_w, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_shared_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { read_once(m, s, 30, true); });
    h::go(e[0], 1, [=] { write_once(m, s, 30, true); });
    h::go(e[1], 2, [=] { write_once(m, s, 30, false); });
    h::run(3, "a waiter of a released shared mutex waits forever");
}

MC_SCENARIO(shared_thread, {})
{
    auto e = h::make_envs(1);
    auto *m = new co_shared_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] { read_once(m, s, 30, true); write_once(m, s, 0, false); });
    new std::thread([=] {
        write_once(m, s, 30, false);
        read_once(m, s, 0, false);
        h::finish(1);
    });
    h::run(2, "a waiter of a released shared mutex waits forever");
}

MC_SCENARIO(shared_try, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_shared_timed_mutex;
    auto *s = new h::section;
    h::go(e[0], 0, [=] {
        if (m->try_lock())
        {
            s->enter_unique("try_lock");
            s->leave_unique();
            m->unlock();
        }
        read_once(m, s, 0, false);
    });
    h::go(e[1], 1, [=] {
        if (m->try_lock_shared())
        {
            s->enter_shared("try_lock_shared");
            s->leave_shared();
            m->unlock_shared();
        }
        write_once(m, s, 0, false);
    });
    h::run(2, "a try_lock corrupts the shared mutex");
}

MC_SCENARIO(shared_timed, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_shared_timed_mutex;
    auto *s = new h::section;
    auto *mode = new int(mc::choose(4));
    h::go(e[0], 0, [=] {
        if (*mode & 2)
            write_once(m, s, *mode & 1 ? 40 : 4, true);
        else
            read_once(m, s, *mode & 1 ? 40 : 4, true);
    });
    h::go(e[1], 1, [=] {
        auto t0 = mc::now_ns();
        if (*mode & 2)
        {
            if (m->try_lock_shared_for(20ms))
            {
                s->enter_shared("timed shared lock");
                s->leave_shared();
                m->unlock_shared();
            }
            else
                MC_CHECK(mc::now_ns() - t0 >= 20'000'000, "timed shared lock gave up early");
        }
        else
        {
            if (m->try_lock_for(20ms))
            {
                s->enter_unique("timed lock");
                s->leave_unique();
                m->unlock();
            }
            else
                MC_CHECK(mc::now_ns() - t0 >= 20'000'000, "timed lock gave up early");
        }
        write_once(m, s, 0, false);
    });
    h::run(2, "a timed lock hangs or corrupts the mutex");
}

// All arrival and release orders of readers and writers (identical idle participants are interchangeable).
MC_SCENARIO(shared_histories, {.max_points = 400'000})
{
    model M(4, 1);
    constexpr int depth = 8;
    for (int d = 0; d < depth; ++d)
    {
        int cand[8], n = 0, idle = -1;
        for (int i = 0; i < M.n; ++i)
        {
            if (M.st[i] == 0 && idle < 0)
                idle = i;
            if (M.st[i] == 1 || M.st[i] == 2)
                cand[n++] = i;
        }
        int opts = n + (idle >= 0 ? 2 : 0);
        if (!opts)
            break;
        int c = mc::choose(opts);
        if (c < n)
            M.release(cand[c]);
        else
            M.acquire(idle, c - n == 1);
    }
    M.drain();
}

// The same with try / timed variants and releases of holds one does not have.
MC_SCENARIO(shared_histories_try, {.max_points = 400'000})
{
    model M(2, 1);
    constexpr int depth = 5;
    for (int d = 0; d < depth; ++d)
    {
        struct
        {
            int who, op;
        } cand[32];
        int n = 0;
        bool idle_seen = false;
        for (int i = 0; i < M.n; ++i)
        {
            if (M.st[i] >= 3)
                continue;
            if (M.st[i] == 0)
            {
                if (idle_seen)
                    continue;
                idle_seen = true;
                for (int op : {0, 1, 2, 3, 4, 5, 6, 7})
                    cand[n++] = {i, op};
            }
            else
            {
                cand[n++] = {i, 8};
                cand[n++] = {i, M.st[i] == 1 ? 7 : 6};
            }
        }
        if (!n)
            break;
        auto c = cand[mc::choose(n)];
        int i = c.who;
        auto *m = M.m;
        bool w = M.count(1), r = M.count(2);
        auto &res = model::res[i];
        res.set(0);
        if (c.op == 8)
            M.release(i);
        else if (c.op < 2)
            M.acquire(i, c.op == 1);
        else if (c.op == 6 || c.op == 7)
        {
            M.A.step(i, [=, &res] { res.set(h::throws<std::logic_error>([=] { c.op == 6 ? m->unlock() : m->unlock_shared(); }) ? 3 : 1); });
            MC_CHECK(!M.A.busy(i) && res.get() == 3, "releasing a hold one does not have is accepted");
            M.check("rejected release");
        }
        else
        {
            bool shared = c.op & 1;
            auto t0 = mc::now_ns();
            M.A.step(i, [=, &res] {
                bool ok = c.op == 2 ? m->try_lock() : c.op == 3 ? m->try_lock_shared()
                    : c.op == 4                                 ? m->try_lock_for(8ms)
                                                                : m->try_lock_shared_for(8ms);
                res.set(ok ? 1 : 2);
            });
            MC_CHECK(!M.A.busy(i), "a try lock blocks");
            bool want = shared ? !w : !w && !r;
            MC_CHECK((res.get() == 1) == want, "%s lock answers %s (exclusive holder: %d, shared holder: %d)", shared ? "try shared" : "try", res.get() == 1 ? "true" : "false", w, r);
            if (res.get() == 1)
                M.st[i] = shared ? 2 : 1;
            else if (c.op >= 4)
                MC_CHECK(mc::now_ns() - t0 >= 8'000'000, "timed lock gave up early");
            M.check("try");
        }
    }
    M.drain();
}

MC_SCENARIO(shared_timed_long, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_shared_timed_mutex;
    int k = mc::choose(h::long_times);
    int shared = mc::choose(2);
    h::go(e[0], 1, [=] {
        m->lock();
        this_co::sleep_for(50ms);
        m->unlock();
    });
    h::go(e[0], 0, [=] {
        bool ok = h::with_long_time(k, [=](auto d) { return shared ? m->try_lock_shared_for(d) : m->try_lock_for(d); });
        MC_CHECK(ok, "a timed lock with a very long limit gives up at once");
        if (shared)
            m->unlock_shared();
        else
            m->unlock();
    });
    h::run(2, "a timed lock with a very long limit never gets the mutex");
}

// A limit that is over: the call looks once.
MC_SCENARIO(shared_timed_past, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_shared_timed_mutex;
    int k = mc::choose(h::past_times);
    bool held = mc::choose(2);
    bool shared = mc::choose(2);
    if (held)
        m->lock();
    h::go(e[0], 0, [=] {
        bool ok = shared ? m->try_lock_shared_until(h::past_time(k)) : m->try_lock_until(h::past_time(k));
        MC_CHECK(ok != held, "a timed lock whose limit is over %s", ok ? "gets a mutex that is held" : "does not get a free mutex");
        if (ok)
        {
            if (shared)
                m->unlock_shared();
            else
                m->unlock();
        }
    });
    h::run(1, "a timed lock whose limit is over never returns");
    if (held)
        m->unlock();
    MC_CHECK(m->try_lock(), "the mutex is not free in the end");
    m->unlock();
}

// Limits between the times of a millisecond clock.
MC_SCENARIO(shared_timed_fine, {.tick_ns = 50'000})
{
    auto e = h::make_envs(1);
    auto *m = new co_shared_timed_mutex;
    bool shared = mc::choose(2);
    m->lock();
    h::go(e[0], 0, [=] {
        if (shared)
            h::not_before("a timed shared lock", [=](auto d) { MC_CHECK(!m->try_lock_shared_for(d), "a held mutex is taken"); }, [=](auto t) { MC_CHECK(!m->try_lock_shared_until(t), "a held mutex is taken"); });
        else
            h::not_before("a timed lock", [=](auto d) { MC_CHECK(!m->try_lock_for(d), "a held mutex is taken"); }, [=](auto t) { MC_CHECK(!m->try_lock_until(t), "a held mutex is taken"); });
    });
    h::run(1, "a timed lock never returns");
    m->unlock();
}

// Very many readers together, very many writers and readers that wait.
MC_SCENARIO(shared_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = std::min(h::many(), 130);
    bool writers_first = mc::choose(2);
    auto *m = new co_shared_mutex;
    auto *s = new h::section;
    auto *gate = new co_counting_semaphore<1000>(0);
    auto *in = new h::cell<int>;
    x->add(n, [=](int) {
        m->lock_shared();
        s->enter_shared("shared mutex");
        in->add(1);
        gate->acquire();
        s->leave_shared();
        m->unlock_shared();
    });
    mc::settle(600'000);
    MC_CHECK(in->get() == n, "%d of %d readers hold the mutex together", in->get(), n);
    x->add(n, [=](int i) {
        if (i % 2 == (int)writers_first)
        {
            m->lock();
            s->enter_unique("shared mutex");
            this_co::yield();
            s->leave_unique();
            m->unlock();
        }
        else
        {
            m->lock_shared();
            s->enter_shared("shared mutex");
            this_co::yield();
            s->leave_shared();
            m->unlock_shared();
        }
    });
    mc::settle(600'000);
    gate->release(n);
    x->all("one of many never gets the shared mutex");
    MC_CHECK(m->try_lock(), "the shared mutex is not free in the end");
}
