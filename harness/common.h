// Shared helpers of the harnesses.
#pragma once
#include "../engine/mc.h"

#include <cocpp/cocpp.h>

#include <array>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using namespace cocpp;
using namespace std::chrono_literals;

namespace h
{

#define H_RAW __attribute__((no_sanitize("thread"), noinline))

// Oracle variable: not a shared object for the scheduler.  Written only right after a mark, so that the
// order of its updates is part of the explored behaviour.
template <typename T>
struct cell
{
    T v {};
    H_RAW T get() const { return v; }
    H_RAW void set(T x) { v = x; }
    H_RAW T add(T x) { return v += x; }
    H_RAW T bits(T x) { return v |= x; }
};

constexpr uint64_t settle_ms = 60'000;

// The periodic monitor's next tick lies beyond the end of the scenario.
inline void no_monitor()
{
    co::set_timer_tick_duration(std::chrono::hours(24 * 30));
}

// The functions of timers, which are bound to no environment, run in an idle one if there is one.
inline std::vector<co_env *> make_envs(int n)
{
    no_monitor();
    co::set_base_schedule_thread_count(1);
    std::vector<co_env *> r;
    for (int i = 0; i < n; ++i)
        r.push_back(co::create_env(true));
    mc::quiesce();
    return r;
}

// Which numbered participants reached their end.
inline cell<uint32_t> finished_mask;

inline void finish(int k)
{
    mc::mark();
    finished_mask.bits(1u << k);
}

template <typename F>
co *go(co_env *env, int k, F f)
{
    return new co({with_bind_env(env)}, [f, k]() mutable {
        f();
        finish(k);
    });
}

inline void expect_all(int n, const char *what)
{
    uint32_t m = finished_mask.get();
    MC_CHECK(m == (1u << n) - 1, "%s (finished: %x of %d)", what, m, n);
}

// Starts the exploration, lets everything run, and checks that all n participants ended.
inline void run(int n, const char *what = "a participant never finishes")
{
    mc::begin();
    mc::settle(settle_ms);
    mc::end();
    expect_all(n, what);
}

// Critical section oracle.
struct section
{
    cell<int> writers, readers;
    void enter_unique(const char *what)
    {
        mc::mark();
        MC_CHECK(writers.get() == 0 && readers.get() == 0, "%s: %d exclusive and %d shared holders when an exclusive one enters", what, writers.get(), readers.get());
        writers.add(1);
    }
    void leave_unique()
    {
        mc::mark();
        writers.add(-1);
    }
    void enter_shared(const char *what)
    {
        mc::mark();
        MC_CHECK(writers.get() == 0, "%s: a shared holder enters beside an exclusive one", what);
        readers.add(1);
    }
    void leave_shared()
    {
        mc::mark();
        readers.add(-1);
    }
};

// Virtual time passes without anybody reading the clock.
inline void pass_ms(uint64_t ms)
{
    mc::advance_ns(ms * 1'000'000ULL);
}

template <typename E, typename F>
bool throws(F f)
{
    try
    {
        f();
    }
    catch (E &)
    {
        return true;
    }
    return false;
}

// ---------------------------------------------------------------- actors
// Coroutines (one per environment) or plain threads executing commands one at a time; the main thread waits
// for quiescence after each command.  With data choices for the commands this enumerates all histories.
struct actor
{
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> cmd;
    cell<bool> busy;
    co *c {nullptr};
    std::thread t;

    void loop()
    {
        for (;;)
        {
            std::function<void()> f;
            {
                std::unique_lock lk(m);
                while (!cmd)
                    cv.wait(lk);
                f.swap(cmd);
            }
            f();
            busy.set(false);
        }
    }
};

struct actors
{
    std::vector<actor *> a;
    actors(int coroutines, int threads = 0)
    {
        auto envs = make_envs(coroutines);
        for (int i = 0; i < coroutines; ++i)
        {
            auto *x = new actor;
            a.push_back(x);
            x->c = new co({with_bind_env(envs[i])}, [x] { x->loop(); });
        }
        for (int i = 0; i < threads; ++i)
        {
            auto *x = new actor;
            a.push_back(x);
            x->t = std::thread([x] { x->loop(); });
        }
        mc::quiesce();
    }
    bool busy(int i) const { return a[i]->busy.get(); }
    // Issues a command and waits until nothing moves any more.
    void step(int i, std::function<void()> f)
    {
        post(i, std::move(f));
        mc::quiesce();
    }
    void post(int i, std::function<void()> f)
    {
        auto *x = a[i];
        x->busy.set(true);
        {
            std::scoped_lock lk(x->m);
            x->cmd = std::move(f);
        }
        x->cv.notify_one();
    }
};


// Calls f with one of several times that are longer than any clock can count.
inline constexpr int long_times = 4;
template <typename F>
auto with_long_time(int k, F f)
{
    switch (k)
    {
    case 0:
        return f(std::chrono::nanoseconds::max());
    case 1:
        return f(std::chrono::hours::max());
    case 2:
        return f(std::chrono::minutes(200'000'000));
    default:
        return f(std::chrono::seconds::max());
    }
}

// Times that are over.
inline constexpr int past_times = 3;
inline std::chrono::steady_clock::time_point past_time(int k)
{
    if (k == 0)
        return std::chrono::steady_clock::time_point::min();
    return k == 1 ? std::chrono::steady_clock::time_point {} : std::chrono::steady_clock::now() - 1s;
}

// Times between those of a millisecond clock, in several units.
inline constexpr int fine_times = 5;
template <typename F>
auto with_fine_time(int k, F f)
{
    switch (k)
    {
    case 0:
        return f(300us);
    case 1:
        return f(990us);
    case 2:
        return f(1900us);
    case 3:
        return f(std::chrono::duration<double>(0.0019));
    default:
        return f(std::chrono::duration<long, std::ratio<1, 3000>>(7));
    }
}

// Something with a limit of time, given as a duration or as a point of time, is not over before it.
template <typename For, typename Until>
void not_before(const char *what, For f, Until u)
{
    int k = mc::choose(fine_times);
    bool until = mc::choose(2);
    with_fine_time(k, [&](auto d) {
        mc::mark();
        uint64_t t0 = mc::now_ns();
        auto limit = std::chrono::steady_clock::now() + std::chrono::ceil<std::chrono::nanoseconds>(d);
        uint64_t end = until ? limit.time_since_epoch().count() : t0 + std::chrono::floor<std::chrono::nanoseconds>(d).count();
        if (until)
            u(limit);
        else
            f(d);
        mc::mark();
        MC_CHECK(mc::now_ns() >= end, "%s is over %llu ns too early", what, (unsigned long long)(end - mc::now_ns()));
    });
}

// Very many participants: more than small counters and buffers hold.
inline int many()
{
    constexpr int n[] = {20, 70, 300};
    return n[mc::choose(3)];
}

struct crowd
{
    std::vector<co_env *> e;
    int n {0};
    cell<int> ended;

    crowd(int envs)
        : e(make_envs(envs))
    {
    }
    // f(i) in the next environment
    template <typename F>
    co *add(F f)
    {
        int i = n++;
        return new co({with_bind_env(e[i % e.size()])}, [this, f, i]() mutable {
            f(i);
            ended.add(1);
        });
    }
    template <typename F>
    void add(int count, F f)
    {
        for (int i = 0; i < count; ++i)
            add(f);
    }
    void settle(int expected, const char *what)
    {
        mc::settle(3'600'000);
        MC_CHECK(ended.get() == expected, "%s (%d of %d)", what, ended.get(), expected);
    }
    void all(const char *what) { settle(n, what); }
};

}
