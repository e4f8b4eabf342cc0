// C08: counting and binary semaphore.
#include "common.h"

namespace
{

template <typename S>
struct counted
{
    S s;
    int init;
    h::cell<int> acquired, released;
    counted(int n)
        : s(n)
        , init(n)
    {
    }
    void got()
    {
        mc::mark();
        acquired.add(1);
        MC_CHECK(acquired.get() <= init + released.get(), "%d acquisitions with %d initial permits and %d releases", acquired.get(), init, released.get());
    }
    void acquire()
    {
        s.acquire();
        got();
    }
    void release(int n = 1)
    {
        mc::mark();
        released.add(n);
        s.release(n);
    }
};

using sem = counted<co_counting_semaphore<4>>;
using bin = counted<co_binary_semaphore>;

}

MC_SCENARIO(sem_release_n, {})
{
    auto e = h::make_envs(3);
    auto *s = new sem(0);
    h::go(e[0], 0, [=] { s->acquire(); });
    h::go(e[1], 1, [=] { s->acquire(); });
    h::go(e[2], 2, [=] { s->release(2); });
    h::run(3, "an acquire sleeps although permits remain");
}

MC_SCENARIO(sem_mutex_use, {})
{
    auto e = h::make_envs(2);
    auto *s = new bin(1);
    auto *sec = new h::section;
    auto body = [=] {
        for (int i = 0; i < 2; ++i)
        {
            s->acquire();
            sec->enter_unique("binary semaphore");
            h::pass_ms(15);
            sec->leave_unique();
            s->release();
        }
    };
    h::go(e[0], 0, body);
    h::go(e[1], 1, body);
    h::run(2, "an acquire sleeps although permits remain");
}

MC_SCENARIO(sem_same_env, {})
{
    auto e = h::make_envs(2);
    auto *s = new sem(1);
    h::go(e[0], 0, [=] { s->acquire(); });
    h::go(e[0], 1, [=] { s->acquire(); });
    h::go(e[1], 2, [=] { s->release(); s->acquire(); });
    h::go(e[0], 3, [=] { s->release(); });
    h::run(4, "an acquire sleeps although permits remain");
}

MC_SCENARIO(sem_thread, {})
{
    auto e = h::make_envs(1);
    auto *s = new bin(0);
    auto *t = new bin(0);
    h::go(e[0], 0, [=] { s->acquire(); t->release(); });
    new std::thread([=] {
        s->release();
        t->acquire();
        h::finish(1);
    });
    h::run(2, "an acquire sleeps although permits remain");
}

// A full semaphore blocks a release until somebody acquires.
MC_SCENARIO(sem_full, {})
{
    auto e = h::make_envs(2);
    auto *s = new bin(1);
    h::go(e[0], 0, [=] { s->release(); s->release(); });
    h::go(e[1], 1, [=] { s->acquire(); s->acquire(); s->acquire(); });
    h::run(2, "a release or an acquire sleeps for no reason");
}

// Several releases wait on a full semaphore: never more of them are through than acquisitions have begun.
MC_SCENARIO(sem_full_crowd, {})
{
    auto e = h::make_envs(1 + mc::choose(3));
    int n = (int)e.size(), releases = 2 + mc::choose(2), acquires = 1 + mc::choose(2);
    auto *s = new co_binary_semaphore(1);
    auto *begun = new h::cell<int>;
    auto *through = new h::cell<int>;
    for (int k = 0; k < releases; ++k)
        h::go(e[k % n], k, [=] {
            s->release();
            mc::mark();
            MC_CHECK(through->add(1) <= begun->get(), "%d releases of a full semaphore are through after %d acquisitions", through->get(), begun->get());
        });
    if (mc::choose(2))
        mc::settle(100); // they wait
    h::go(e[n - 1], releases, [=] {
        for (int i = 0; i < acquires; ++i)
        {
            mc::mark();
            begun->add(1);
            s->acquire();
        }
    });
    mc::begin();
    mc::settle(h::settle_ms);
    mc::end();
    MC_CHECK(through->get() == std::min(releases, acquires), "%d releases are through after %d acquisitions", through->get(), acquires);
}

MC_SCENARIO(sem_try, {})
{
    auto e = h::make_envs(2);
    auto *s = new sem(1);
    auto body = [=] {
        if (s->s.try_acquire())
        {
            s->got();
            s->release();
        }
        s->acquire();
        s->release();
    };
    h::go(e[0], 0, body);
    h::go(e[1], 1, body);
    h::run(2, "an acquire sleeps although permits remain");
    MC_CHECK(s->s.try_acquire(), "a permit is lost");
    MC_CHECK(!s->s.try_acquire(), "a permit appears from nowhere");
}

MC_SCENARIO(sem_timed, {})
{
    auto e = h::make_envs(2);
    auto *s = new sem(0);
    int when = mc::choose(3);
    auto *got = new h::cell<int>;
    h::go(e[0], 0, [=] {
        auto t0 = mc::now_ns();
        if (s->s.try_acquire_for(10ms))
        {
            s->got();
            got->set(1);
        }
        else
            MC_CHECK(mc::now_ns() - t0 >= 10'000'000, "timed acquire gave up early");
        mc::outcome(got->get());
    });
    h::go(e[1], 1, [=] {
        h::pass_ms(when * 9);
        s->release();
    });
    h::run(2, "a timed acquire never returns");
    MC_CHECK(s->s.try_acquire() == !got->get(), got->get() ? "a permit appears from nowhere" : "a failed timed acquire consumed a permit");
}

// All histories of acquire / try_acquire / timed acquire / release(n).
MC_SCENARIO(sem_histories, {.max_points = 400'000})
{
    h::actors A(3, 1);
    int permits = mc::choose(3);
    constexpr int cap = 2;
    auto *s = new co_counting_semaphore<cap>(permits);
    // 0 idle, 1 acquiring, 2+n releasing n more
    std::array<int, 4> st {};
    static h::cell<int> res;
    constexpr int depth = 6;
    for (int d = 0; d < depth; ++d)
    {
        int i = 0;
        while (i < 4 && st[i])
            ++i;
        if (i == 4)
            break;
        int op = mc::choose(5);
        int acq0 = 0, rel0 = 0;
        for (int k = 0; k < 4; ++k)
            st[k] == 1 ? ++acq0 : st[k] ? ++rel0 : 0;
        res.set(0);
        if (op == 0)
        {
            A.step(i, [=] { s->acquire(); });
            st[i] = 1;
        }
        else if (op == 1 || op == 2)
        {
            A.step(i, [=] { s->release(op); });
            st[i] = 2;
            permits += op;
        }
        else
        {
            // A blocked release hands its permit in as soon as there is room.
            bool want = permits > 0 && !acq0;
            A.step(i, [=] { res.set((op == 3 ? s->try_acquire() : s->try_acquire_for(6ms)) ? 1 : 2); });
            MC_CHECK(!A.busy(i), "try_acquire blocks");
            MC_CHECK((res.get() == 1) == want, "try_acquire answers %s with %d permits", res.get() == 1 ? "true" : "false", permits);
            if (want)
                --permits;
        }
        // Everybody who came through.
        for (int k = 0; k < 4; ++k)
            if (st[k] && !A.busy(k))
            {
                if (st[k] == 1)
                    --permits;
                st[k] = 0;
            }
        MC_CHECK(permits >= 0, "more acquisitions than permits");
        int acq = 0, rel = 0;
        for (int k = 0; k < 4; ++k)
            st[k] == 1 ? ++acq : st[k] ? ++rel : 0;
        MC_CHECK(!acq || permits == 0, "%d acquires sleep with %d permits", acq, permits);
        MC_CHECK(!rel || permits > cap, "a release sleeps with %d permits of %d", permits, cap);
        MC_CHECK(permits <= cap || rel, "%d permits in a semaphore of %d", permits, cap);
        mc::outcome(permits * 64 + acq * 8 + rel);
    }
}

// Several wait, and as many operations come at once before any of them goes on.
MC_SCENARIO(sem_herd, {})
{
    constexpr int cap = 2;
    auto e = h::make_envs(1 + mc::choose(2));
    int waiting = 1 + mc::choose(3), burst = 1 + mc::choose(cap), kind = mc::choose(5);
    bool full = kind >= 2; // the waiting ones release into a full semaphore
    auto *s = new co_counting_semaphore<cap>(full ? cap : 0);
    auto *through = new h::cell<int>;
    for (int i = 0; i < waiting; ++i)
        h::go(e[0], i, [=] {
            full ? s->release() : s->acquire();
            mc::mark();
            through->add(1);
        });
    mc::settle(100);
    MC_CHECK(through->get() == 0, "an operation that has to wait goes on");
    h::go(e.back(), waiting, [=] {
        for (int i = 0; i < burst; ++i)
            switch (kind)
            {
            case 0:
                s->release();
                break;
            case 1:
                s->release(i ? 0 : burst);
                break;
            case 2:
                s->acquire();
                break;
            case 3:
                MC_CHECK(s->try_acquire(), "try_acquire fails with permits left");
                break;
            case 4:
                MC_CHECK(s->try_acquire_for(1s), "a timed acquire fails with permits left");
                break;
            }
    });
    mc::begin();
    mc::settle(1000);
    mc::end();
    int want = waiting < burst ? waiting : burst;
    MC_CHECK(through->get() == want, "%d of %d that wait go on after %d operations", through->get(), waiting, burst);
}

// In one environment: two threads would meet at the same steps again and again.
MC_SCENARIO(sem_timed_long, {})
{
    auto e = h::make_envs(2);
    auto *s = new sem(0);
    int k = mc::choose(h::long_times);
    h::go(e[0], 0, [=] {
        bool ok = h::with_long_time(k, [=](auto d) { return s->s.try_acquire_for(d); });
        MC_CHECK(ok, "a timed acquire with a very long limit gives up at once");
        s->got();
    });
    h::go(e[0], 1, [=] {
        this_co::sleep_for(50ms);
        s->release();
    });
    h::run(2, "a timed acquire with a very long limit never returns");
}

// A limit that is over: the call looks once.
MC_SCENARIO(sem_timed_past, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(h::past_times);
    int n = mc::choose(2);
    auto *s = new sem(n);
    h::go(e[0], 0, [=] {
        bool ok = s->s.try_acquire_until(h::past_time(k));
        MC_CHECK(ok == (n != 0), "a timed acquire whose limit is over %s", ok ? "gets a permit that is not there" : "does not take the permit");
    });
    h::run(1, "a timed acquire whose limit is over never returns");
    MC_CHECK(!s->s.try_acquire(), "there is a permit too many in the end");
}

// Limits between the times of a millisecond clock.
MC_SCENARIO(sem_timed_fine, {.tick_ns = 50'000})
{
    auto e = h::make_envs(1);
    auto *s = new sem(0);
    h::go(e[0], 0, [=] {
        h::not_before("a timed acquire", [=](auto d) { MC_CHECK(!s->s.try_acquire_for(d), "a permit that is not there is taken"); }, [=](auto t) { MC_CHECK(!s->s.try_acquire_until(t), "a permit that is not there is taken"); });
    });
    h::run(1, "a timed acquire never returns");
}

// Very many that wait for permits.
MC_SCENARIO(sem_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    bool bulk = mc::choose(2);
    auto *s = new counted<co_counting_semaphore<1000>>(0);
    x->add(n, [=](int) { s->acquire(); });
    x->settle(0, "a semaphore without permits is acquired");
    if (bulk)
        s->release(n);
    else
        for (int i = 0; i < n; ++i)
            s->release();
    x->all("one of many never acquires");
    MC_CHECK(!s->s.try_acquire(), "there is a permit too many in the end");
    s->release(n);
    for (int i = 0; i < n; ++i)
        MC_CHECK(s->s.try_acquire(), "%d permits of %d are lost", n - i, n);
    MC_CHECK(!s->s.try_acquire(), "there is a permit too many in the end");
}
