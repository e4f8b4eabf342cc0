// C02: timed wait for a coroutine.
#include "common.h"

namespace
{

// One timed wait with everything it promises.
bool timed(co &c, std::chrono::nanoseconds d, h::cell<int> *ended, int expect)
{
    mc::mark();
    auto t0 = mc::now_ns();
    auto prio = CoCurrentCtx()->priority();
    auto r = c.wait_for(d);
    MC_CHECK(CoCurrentCtx()->priority() == prio, "a timed wait changes the priority of the waiter");
    mc::mark();
    if (r)
    {
        MC_CHECK(ended->get(), "a timed wait reports completion of a coroutine that has not ended");
        int v = *r;
        MC_CHECK(v == expect, "a timed wait delivers %d instead of %d", v, expect);
    }
    else
        MC_CHECK((int64_t)(mc::now_ns() - t0) >= d.count(), "a timed wait gives up after %llu of %lld us", (unsigned long long)(mc::now_ns() - t0) / 1000, (long long)d.count() / 1000);
    mc::outcome(r.has_value());
    return r.has_value();
}

co *target(co_env *e, h::cell<int> *ended, uint64_t ms, int v)
{
    return new co({with_bind_env(e)}, [=] {
        if (ms)
            this_co::sleep_for(std::chrono::milliseconds(ms));
        mc::mark();
        ended->set(1);
        return v;
    });
}

}

// The waiter is a coroutine in another environment; completion before, around, after the deadline.
MC_SCENARIO(twait_other_env, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(4);
    constexpr uint64_t work[] = {0, 10, 11, 1000};
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, work[k], 42);
    h::go(e[1], 0, [=] {
        timed(*c, 10ms, ended, 42);
        // A later wait still gets the result.
        int v = c->wait<int>();
        MC_CHECK(v == 42 && ended->get(), "wrong result after a timeout");
    });
    h::run(1, "a timed wait never returns");
}

MC_SCENARIO(twait_same_env, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(3);
    constexpr uint64_t work[] = {0, 10, 100};
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, work[k], 7);
    h::go(e[0], 0, [=] {
        timed(*c, 10ms, ended, 7);
        int v = c->wait<int>();
        MC_CHECK(v == 7, "wrong result after a timed wait");
    });
    h::run(1, "a timed wait never returns");
}

// The waiter is a plain thread (main).
MC_SCENARIO(twait_thread, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(3);
    constexpr uint64_t work[] = {0, 10, 100};
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, work[k], 7);
    mc::begin();
    timed(*c, 10ms, ended, 7);
    mc::settle(h::settle_ms);
    mc::end();
    MC_CHECK(ended->get(), "the coroutine never ended");
    MC_CHECK(timed(*c, 10ms, ended, 7), "a timed wait on an ended coroutine reports a timeout");
}

// Waiter and awaited coroutine are released soon after.
MC_SCENARIO(twait_gone, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(2);
    constexpr uint64_t work[] = {0, 10};
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, work[k], 7);
    auto *w = new co({with_bind_env(e[1])}, [=] {
        timed(*c, 10ms, ended, 7);
        delete c; // waits for the end, if necessary
        h::finish(0);
    });
    mc::begin();
    w->join();
    delete w;
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(1, "a timed wait never returns");
    // Both environments go on and reap.
    for (auto *x : e)
        co({with_bind_env(x)}, [] { this_co::yield(); }).join();
    mc::settle(1000);
}

// Two timed waiters with different deadlines.
MC_SCENARIO(twait_two, {})
{
    auto e = h::make_envs(2);
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, 10, 9);
    h::go(e[1], 0, [=] { timed(*c, 10ms, ended, 9); });
    h::go(e[0], 1, [=] { timed(*c, 30s, ended, 9); });
    h::run(2, "a timed wait never returns");
}

// Durations below and between the timer resolution.
MC_SCENARIO(twait_fraction, {.tick_ns = 50'000})
{
    auto e = h::make_envs(2);
    int k = mc::choose(4);
    constexpr std::chrono::nanoseconds d[] = {0ns, 300us, 1900us, 2ms};
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, 1000, 9);
    h::go(e[1], 0, [=] { timed(*c, d[k], ended, 9); });
    h::run(1, "a timed wait never returns");
}

// The waiter's priority is its own again after each wait, whatever that of the awaited one.
MC_SCENARIO(twait_priority, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(3), p = mc::choose(3);
    bool far = mc::choose(2);
    constexpr uint64_t work[] = {0, 10, 1000};
    auto *ended = new h::cell<int>;
    auto *c = new co({with_bind_env(e[0]), with_priority(10 * p)}, [=] {
        if (work[k])
            this_co::sleep_for(std::chrono::milliseconds(work[k]));
        mc::mark();
        ended->set(1);
        return 5;
    });
    auto *w = new co({with_bind_env(e[far]), with_priority(10)}, [=] {
        timed(*c, 10ms, ended, 5);
        timed(*c, 3000ms, ended, 5);
        h::finish(0);
    });
    h::run(1, "a timed wait never returns");
    MC_CHECK(w->ctx_priority() == 10, "a timed wait changes the priority of the waiter");
}

// The awaited body throws.
MC_SCENARIO(twait_throw, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(2);
    auto *c = new co({with_bind_env(e[0])}, [=] {
        if (k)
            this_co::sleep_for(10ms);
        throw std::runtime_error("x");
    });
    h::go(e[1], 0, [=] {
        int seen = 0;
        for (int i = 0; i < 2; ++i)
            try
            {
                c->wait_for(i ? std::chrono::milliseconds(1000) : std::chrono::milliseconds(10));
            }
            catch (std::runtime_error &)
            {
                ++seen;
            }
        MC_CHECK(seen == 1, "the exception was delivered %d times", seen);
    });
    h::run(1, "a timed wait never returns");
}

// Deadlines between the ticks of a millisecond clock.
MC_SCENARIO(twait_until_fraction, {.tick_ns = 50'000})
{
    auto e = h::make_envs(2);
    int k = mc::choose(4);
    constexpr std::chrono::nanoseconds d[] = {300us, 990us, 1900us, 2ms};
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, 1000, 9);
    h::go(e[1], 0, [=] {
        auto until = std::chrono::steady_clock::now() + d[k];
        auto r = c->wait_until(until);
        mc::mark();
        if (!r)
            MC_CHECK((int64_t)mc::now_ns() >= until.time_since_epoch().count(), "a wait until a time gives up before it");
    });
    h::run(1, "a timed wait until a time never returns");
}

MC_SCENARIO(twait_until, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(2);
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, 1000, 9);
    h::go(e[1], 0, [=] {
        auto until = std::chrono::steady_clock::now() + (k ? 10ms : -10ms);
        auto r = c->wait_until(until);
        mc::mark();
        if (r)
            MC_CHECK(ended->get(), "a wait until a time reports completion of a coroutine that has not ended");
        else
            MC_CHECK((int64_t)mc::now_ns() >= until.time_since_epoch().count(), "a wait until a time gives up before it");
    });
    h::run(1, "a timed wait until a time never returns");
}

// Waits that are as good as unlimited.
MC_SCENARIO(twait_long, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(h::long_times + 1);
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, 50, 9);
    h::go(e[1], 0, [=] {
        auto r = k == h::long_times ? c->wait_until(std::chrono::steady_clock::time_point::max()) : h::with_long_time(k, [=](auto d) { return c->wait_for(d); });
        mc::mark();
        MC_CHECK(r && ended->get(), "a very long wait gives up at once");
    });
    h::run(1, "a very long wait never returns");
}

// Waits without any time: they look.
MC_SCENARIO(twait_zero, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(2 + h::past_times);
    bool before = mc::choose(2);
    auto *ended = new h::cell<int>;
    auto *c = target(e[0], ended, before ? 0 : 1000, 9);
    if (before)
        mc::settle(h::settle_ms);
    h::go(e[1], 0, [=] {
        auto r = k == 0 ? c->wait_for(0ms) : k == 1 ? c->wait_for(-1s) : c->wait_until(h::past_time(k - 2));
        mc::mark();
        MC_CHECK(!before || r, "a wait without time does not report a coroutine that has ended before");
        MC_CHECK(!r || ended->get(), "a wait without time reports a coroutine that has not ended");
        if (r)
            MC_CHECK(int(*r) == 9, "a wait without time returns another result");
    });
    h::run(1, "a wait without time never returns");
}

// The same on a coroutine that goes on as long as anybody waits for it.
MC_SCENARIO(twait_zero_endless, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(2 + h::past_times);
    auto *m = new co_mutex;
    m->lock();
    auto *c = new co({with_bind_env(e[0])}, [=] {
        m->lock();
        m->unlock();
    });
    h::go(e[1], 0, [=] {
        auto r = k == 0 ? c->wait_for(0ms) : k == 1 ? c->wait_for(-1s) : c->wait_until(h::past_time(k - 2));
        MC_CHECK(!r, "a wait without time reports a coroutine that has not ended");
    });
    h::run(1, "a wait without time never returns");
    m->unlock();
    c->join();
}

// Very many waiters for one coroutine, every other one too short.
MC_SCENARIO(twait_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    auto *gate = new co_binary_semaphore(0);
    auto *c = new co({with_bind_env(x->e[0])}, [=] {
        gate->acquire();
        return 17;
    });
    x->add(n, [=](int i) {
        auto r = i % 2 ? c->wait_for(1h) : c->wait_for(50ms);
        MC_CHECK(r.has_value() == (i % 2 == 1), "one of many timed waits %s", r ? "reports an end too early" : "gives up too early");
        if (r)
            MC_CHECK(int(*r) == 17, "one of many timed waits gets another result");
    });
    mc::settle(600'000);
    MC_CHECK(x->ended.get() == n / 2, "%d of %d timed waits ended", x->ended.get(), n / 2);
    gate->release();
    x->all("one of many timed waits never returns");
}
