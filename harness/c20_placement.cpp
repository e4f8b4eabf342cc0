// C20: bound coroutines stay in their environment, exclusive ones stay closed, and unbound coroutines always run.
#include "common.h"

namespace
{

void pool(int base, int max)
{
    h::no_monitor();
    co::set_base_schedule_thread_count(base);
    co::set_max_schedule_thread_count(max);
}

// One period of the monitor.
void tick()
{
    co_manager::instance()->timing_routine_timeout().pub();
}

// The OS thread of an environment.
int thread_of(co_env *e)
{
    auto *r = new h::cell<int>;
    co c({with_bind_env(e)}, [r] { r->set(mc::tid()); });
    c.join();
    return r->get();
}

struct bound_one
{
    int thread;
    void here(const char *when) const
    {
        MC_CHECK(mc::tid() == thread, "a bound coroutine runs in thread %d instead of %d %s", mc::tid(), thread, when);
    }
};

template <typename F>
co *unbound(int k, F f)
{
    return new co([f, k]() mutable {
        f();
        h::finish(k);
    });
}

}

// Bound coroutines that yield, sleep and wait for each other, among environments with nothing to do.
MC_SCENARIO(place_bound, {})
{
    pool(1, 1);
    std::vector<co_env *> e;
    for (int i = 0; i < 2; ++i)
        e.push_back(co::create_env(true));
    co::create_env(false);
    auto *a = new bound_one {thread_of(e[0])};
    auto *b = new bound_one {thread_of(e[1])};
    auto *m = new co_mutex;
    tick();
    mc::begin();
    auto *x = h::go(e[0], 0, [=] {
        a->here("at its beginning");
        this_co::yield();
        a->here("after a yield");
        m->lock();
        a->here("after taking a mutex");
        this_co::yield();
        a->here("after a yield");
        m->unlock();
        this_co::sleep_for(30ms);
        a->here("after a sleep");
    });
    h::go(e[1], 1, [=] {
        b->here("at its beginning");
        m->lock();
        b->here("after taking a mutex");
        this_co::yield();
        m->unlock();
        x->wait<void>();
        b->here("after a wait");
    });
    tick();
    tick();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a bound coroutine never finishes");
}

// A bound coroutine waits behind one that blocks the thread of its environment; others are idle.
MC_SCENARIO(place_bound_blocked, {})
{
    pool(1, 1);
    auto *e = co::create_env(true);
    co::create_env(true);
    auto *a = new bound_one {thread_of(e)};
    tick();
    mc::begin();
    h::go(e, 0, [=] {
        mc::block_ms(100);
        a->here("after a blocking call");
    });
    h::go(e, 1, [=] {
        a->here("at its beginning");
        this_co::yield();
        a->here("after a yield");
    });
    mc::quiesce();
    for (int i = 0; i < 4; ++i)
        tick();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a bound coroutine never finishes");
}

// An exclusive environment has nothing to do while others create work bound to no environment.
MC_SCENARIO(place_exclusive, {})
{
    int base = 1 + mc::choose(2);
    pool(base, 2);
    auto *x = co::create_env(true);
    x->set_exclusive();
    if (mc::choose(2))
        co::create_env(true);
    auto *a = new bound_one {thread_of(x)};
    tick();
    mc::begin();
    auto outside = [=] {
        MC_CHECK(mc::tid() != a->thread, "a coroutine bound to no environment runs in an exclusive one");
    };
    unbound(0, [=] {
        outside();
        this_co::yield();
        outside();
    });
    unbound(1, [=] {
        outside();
        this_co::sleep_for(20ms);
        outside();
    });
    h::go(x, 2, [=] {
        a->here("at its beginning");
        unbound(3, outside);
        this_co::sleep_for(20ms);
        a->here("after a sleep");
    });
    tick();
    tick();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(4, "a coroutine never runs");
}

// Exclusive environments that have never had anything to do.
MC_SCENARIO(place_exclusive_fresh, {})
{
    pool(1 + mc::choose(2), 2);
    std::vector<co_env *> x(1 + mc::choose(2));
    bool before = mc::choose(2);
    for (auto &p : x)
    {
        p = co::create_env(mc::choose(2));
        if (!before)
            mc::quiesce();
        p->set_exclusive();
    }
    mc::quiesce();
    mc::begin();
    for (int k = 0; k < 3; ++k)
        unbound(k, [=] {
            for (auto *p : x)
                MC_CHECK(co::current_env() != p, "a coroutine bound to no environment runs in an exclusive one");
        });
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(3, "a coroutine never runs");
}

// The environment becomes exclusive while it has work that is not bound to it.
MC_SCENARIO(place_exclusive_late, {})
{
    pool(1, 1);
    auto *x = co::create_env(true);
    auto *a = new bound_one {thread_of(x)};
    unbound(0, [=] {
        this_co::sleep_for(20ms);
        this_co::yield();
    });
    mc::quiesce();
    mc::begin();
    x->set_exclusive();
    for (int i = 1; i < 3; ++i)
        unbound(i, [=] {
            MC_CHECK(mc::tid() != a->thread, "a coroutine bound to no environment gets into an exclusive one");
        });
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(3, "a coroutine never runs");
}

// Surplus idle environments are removed while unbound coroutines are created.
MC_SCENARIO(place_reap, {})
{
    pool(1, 1);
    for (int i = 0; i < 3; ++i)
        co::create_env(false);
    mc::quiesce();
    tick();
    mc::begin();
    std::thread t([] { tick(); });
    co *c[2];
    for (int i = 0; i < 2; ++i)
        c[i] = unbound(i, [] { this_co::yield(); });
    t.join();
    for (int i = 0; i < 2; ++i)
        c[i]->join();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a coroutine never runs");
}

// The same while the coroutines end and sleep.
MC_SCENARIO(place_reap_active, {})
{
    pool(1, 1);
    for (int i = 0; i < 2; ++i)
        co::create_env(false);
    mc::quiesce();
    tick();
    mc::begin();
    co *c[3];
    for (int i = 0; i < 3; ++i)
        c[i] = unbound(i, [i] {
            if (i != 1)
                this_co::sleep_for(20ms);
        });
    std::thread t([] {
        for (int i = 0; i < 3; ++i)
        {
            tick();
            mc::block_ms(15);
        }
    });
    t.join();
    for (int i = 0; i < 3; ++i)
        c[i]->join();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(3, "a coroutine never runs");
}

// What is left after the removal serves the configured number of coroutines at once.
MC_SCENARIO(place_base, {})
{
    int n = 1 + mc::choose(2);
    pool(n, n);
    bool converted = mc::choose(2);
    if (converted)
        co::current_env();
    for (int i = 0; i < n + 2; ++i)
        co::create_env(false);
    mc::quiesce();
    tick();
    mc::begin();
    for (int i = 0; i < 6; ++i)
        tick();
    auto *newest = new h::cell<int>;
    std::thread([=] { newest->set(mc::tid()); }).join();
    mc::settle(1000);
    for (int i = 0; i < n; ++i)
        unbound(i, [=] {
            MC_CHECK(mc::tid() < newest->get(), "fewer environments than configured are left");
            mc::block_ms(1000);
        });
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(n, "a coroutine never runs");
}

// Unbound coroutines run although every environment there is belongs to a thread that does not schedule or is busy.
MC_SCENARIO(place_grow, {})
{
    int base = 1 + mc::choose(2);
    pool(base, 2);
    int what = mc::choose(3);
    if (what == 1)
        co::current_env();
    if (what == 2)
    {
        auto *e = co::create_env(true);
        h::go(e, 3, [] { mc::block_ms(200); });
    }
    else
        h::finish(3);
    mc::begin();
    for (int i = 0; i < 3; ++i)
        unbound(i, [=] {
            this_co::yield();
            this_co::sleep_for(20ms);
        });
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(4, "a coroutine never runs");
}

// A thread of the program joins the pool.
MC_SCENARIO(place_lent_thread, {})
{
    pool(1, 1);
    auto *a = new bound_one {-1};
    auto *env = new h::cell<co_env *>;
    new std::thread([=] {
        a->thread = mc::tid();
        env->set(co::current_env());
        co::schedule_in_this_thread();
    });
    mc::quiesce();
    mc::begin();
    auto *c = unbound(0, [] { this_co::sleep_for(20ms); });
    h::go(env->get(), 1, [=] {
        a->here("at its beginning");
        c->join();
        a->here("after a join");
    });
    tick();
    tick();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a coroutine never runs");
}

// Environments of the program that have had nothing to do so far are still there when it binds a coroutine to them.
MC_SCENARIO(place_keep, {})
{
    pool(1, 1);
    bool exclusive = mc::choose(2);
    std::vector<co_env *> e;
    for (int i = 0; i < 3; ++i)
        e.push_back(co::create_env(true));
    if (exclusive)
        e[0]->set_exclusive();
    co::create_env(false);
    mc::quiesce();
    tick();
    mc::begin();
    for (int i = 0; i < 3; ++i)
        tick();
    for (int i = 0; i < 3; ++i)
    {
        auto *c = h::go(e[i], i, [=] {
            mc::mark();
            MC_CHECK(co::current_env() == e[i], "a bound coroutine runs in another environment");
        });
        tick();
        c->join();
    }
    mc::end();
    h::expect_all(3, "a coroutine never runs");
}

// The same for environments that the program creates while surplus ones are removed.
MC_SCENARIO(place_keep_fresh, {})
{
    pool(1, 1);
    bool exclusive = mc::choose(2);
    co::create_env(false);
    mc::quiesce();
    tick();
    mc::begin();
    std::thread t([] {
        for (int i = 0; i < 2; ++i)
            tick();
    });
    std::vector<co_env *> e;
    for (int i = 0; i < 2; ++i)
    {
        e.push_back(co::create_env(true));
        if (exclusive)
            e[i]->set_exclusive();
    }
    t.join();
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            mc::mark();
            MC_CHECK(co::current_env() == e[i], "a bound coroutine runs in another environment");
        });
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a coroutine never runs");
}

// Very many coroutines bound to no environment, waiting or not.
MC_SCENARIO(place_many, {.max_points = 60'000'000})
{
    h::no_monitor();
    int base = 1 + mc::choose(3);
    co::set_base_schedule_thread_count(base);
    co::set_max_schedule_thread_count(base + mc::choose(2));
    int n = h::many();
    int kind = mc::choose(3); // short, yielding, waiting
    auto *ended = new h::cell<int>;
    auto *gate = new co_counting_semaphore<1000>(0);
    for (int i = 0; i < n; ++i)
        (new co([=] {
            auto *e = co::current_env();
            auto t = std::this_thread::get_id();
            if (kind == 1)
                this_co::yield();
            else if (kind == 2)
                gate->acquire();
            MC_CHECK(e == co::current_env() && t == std::this_thread::get_id(), "a coroutine changes its environment");
            mc::mark();
            ended->add(1);
        }))->detach();
    mc::settle(600'000);
    MC_CHECK(ended->get() == (kind == 2 ? 0 : n), "%d of %d coroutines ran", ended->get(), n);
    gate->release(n);
    mc::settle(600'000);
    MC_CHECK(ended->get() == n, "%d of %d coroutines ended", ended->get(), n);
}
