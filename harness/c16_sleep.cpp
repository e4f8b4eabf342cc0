// C16: sleeping.
#include "common.h"

namespace
{

void nap(std::chrono::nanoseconds d)
{
    mc::mark();
    auto t0 = mc::now_ns();
    this_co::sleep_for(d);
    mc::mark();
    MC_CHECK((int64_t)(mc::now_ns() - t0) >= d.count(), "woke after %llu ns of %lld", (unsigned long long)(mc::now_ns() - t0), (long long)d.count());
}

}

MC_SCENARIO(sleep_one, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(5);
    constexpr std::chrono::nanoseconds d[] = {0ns, 1ns, 700us, 10ms, 1999us};
    h::go(e[0], 0, [=] { nap(d[k]); nap(d[k]); });
    h::run(1, "a sleeper never wakes");
}

MC_SCENARIO(sleep_past, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(h::past_times);
    h::go(e[0], 0, [=] {
        this_co::sleep_until(h::past_time(k));
        this_co::sleep_for(-5ms);
    });
    h::run(1, "a sleep until a past time never ends");
}

// Several sleepers with equal wake-up time.
MC_SCENARIO(sleep_equal, {})
{
    auto e = h::make_envs(2);
    auto when = std::chrono::steady_clock::now() + 40ms;
    uint64_t ns = when.time_since_epoch().count();
    for (int i = 0; i < 3; ++i)
        h::go(e[i % 2], i, [=] {
            this_co::sleep_until(when);
            mc::mark();
            MC_CHECK(mc::now_ns() >= ns, "a sleeper wakes early");
        });
    h::run(3, "a sleeper with the same wake-up time as another never wakes");
}

MC_SCENARIO(sleep_two, {})
{
    auto e = h::make_envs(2);
    h::go(e[0], 0, [=] { nap(4ms); });
    h::go(e[1], 1, [=] { nap(6ms); });
    h::run(2, "a sleeper never wakes");
}

// The neighbour in the same environment keeps running.
MC_SCENARIO(sleep_neighbour, {})
{
    auto e = h::make_envs(1);
    auto *wake = new h::cell<uint64_t>;
    auto *n = new h::cell<int>;
    h::go(e[0], 0, [=] {
        nap(1000ms);
        wake->set(mc::now_ns());
        MC_CHECK(n->get() == 3, "a neighbour of a sleeper did not run");
    });
    h::go(e[0], 1, [=] {
        for (int i = 0; i < 3; ++i)
        {
            mc::mark();
            n->add(1);
            this_co::yield();
        }
    });
    h::run(2, "a sleeper never wakes");
}

// A plain thread sleeps through the library as well.
MC_SCENARIO(sleep_thread, {})
{
    auto e = h::make_envs(2);
    h::go(e[0], 0, [=] { nap(4ms); });
    new std::thread([] {
        nap(4ms);
        h::finish(1);
    });
    h::run(2, "a sleeper never wakes");
}

// The woken coroutine ends at once.
MC_SCENARIO(sleep_and_die, {})
{
    auto e = h::make_envs(2);
    auto *c = h::go(e[0], 0, [=] { nap(4ms); });
    c->detach();
    h::go(e[0], 1, [] {
        for (int i = 0; i < 4; ++i)
            this_co::yield();
        nap(2ms);
    });
    h::run(2, "a sleeper never wakes");
}

// Sleeping while timers and cancelled timers are around.
MC_SCENARIO(sleep_and_timers, {})
{
    auto e = h::make_envs(2);
    auto when = std::chrono::steady_clock::now() + 30ms;
    auto *t = new std::shared_ptr<co_timer>(co_timer::create([] {}, when));
    h::go(e[0], 0, [=] { this_co::sleep_until(when); });
    h::go(e[1], 1, [=] {
        (*t)->start();
        (*t)->stop();
    });
    h::run(2, "a sleeper never wakes after an unrelated timer was stopped");
}

// A very long sleep: still asleep after everything else is over.
MC_SCENARIO(sleep_long, {})
{
    auto e = h::make_envs(2);
    int k = mc::choose(h::long_times + 1);
    auto *awake = new h::cell<int>;
    co c({with_bind_env(e[0])}, [=] {
        if (k == h::long_times)
            this_co::sleep_until(std::chrono::steady_clock::time_point::max());
        else
            h::with_long_time(k, [](auto d) { this_co::sleep_for(d); });
        mc::mark();
        awake->set(1);
    });
    c.detach();
    h::go(e[0], 0, [=] { nap(5ms); nap(100ms); });
    h::go(e[1], 1, [=] { nap(50ms); });
    h::run(2, "a sleeper never wakes beside one that sleeps very long");
    MC_CHECK(!awake->get(), "a very long sleep ends at once");
}

// Times between those of a millisecond clock.
MC_SCENARIO(sleep_fine, {.tick_ns = 50'000})
{
    auto e = h::make_envs(1);
    bool thread = mc::choose(2);
    auto naps = [] {
        h::not_before("a sleep", [](auto d) { this_co::sleep_for(d); }, [](auto t) { this_co::sleep_until(t); });
    };
    if (!thread)
        h::go(e[0], 0, naps);
    else
    {
        std::thread([=] {
            naps();
            h::finish(0);
        }).detach();
    }
    h::run(1, "a short sleep never ends");
}

// Very many sleepers.
MC_SCENARIO(sleep_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = std::min(h::many(), 150);
    int order = mc::choose(3); // equal, ascending, descending times
    x->add(n, [=](int i) {
        for (int k = 0; k < 2; ++k)
            nap(order == 0 ? 5s : order == 1 ? 5s + i * 10ms : 5s + (n - i) * 10ms);
    });
    x->all("one of many sleepers never wakes");
}
