// C15: timers.
#include "common.h"

namespace
{

// Counts the calls of a timer function and checks each against the time it may happen.
struct probe
{
    h::cell<int> calls;
    h::cell<uint64_t> not_before; // earliest permitted time of the next call
    h::cell<int> forbidden;       // the timer was stopped before it was due
    uint64_t period {0};
    void call()
    {
        mc::mark();
        calls.add(1);
        MC_CHECK(mc::now_ns() >= not_before.get(), "a timer fires %llu us early", (unsigned long long)(not_before.get() - mc::now_ns()) / 1000);
        MC_CHECK(!forbidden.get(), "a timer fires although it was stopped before it was due");
        not_before.set(mc::now_ns() + period);
    }
};

struct one
{
    probe p;
    std::shared_ptr<co_timer> t;
    uint64_t ms;
    one(co_expire_type type, uint64_t ms)
        : ms(ms)
    {
        t = co_timer::create([this] { p.call(); }, type, ms);
        if (type == co_expire_type::loop)
            p.period = 0; // only bounded from below against the start
    }
    void start()
    {
        mc::mark();
        p.not_before.set(mc::now_ns() + ms * 1'000'000);
        t->start();
    }
};

}

// Two timers with the same absolute time, and a third one later.
MC_SCENARIO(timer_equal, {})
{
    h::make_envs(1);
    auto when = std::chrono::steady_clock::now() + 20ms;
    auto ns = mc::now_ns() + 15'000'000;
    probe *p[3];
    std::shared_ptr<co_timer> t[3];
    for (int i = 0; i < 3; ++i)
    {
        p[i] = new probe;
        p[i]->not_before.set(ns);
        t[i] = co_timer::create([q = p[i]] { q->call(); }, i == 2 ? when + 5ms : when);
    }
    mc::begin();
    for (auto &x : t)
        x->start();
    mc::settle(1000);
    mc::end();
    for (int i = 0; i < 3; ++i)
    {
        MC_CHECK(p[i]->calls.get() == 1, "one-shot timer %d of three (two with equal expiry) fired %d times", i, p[i]->calls.get());
        MC_CHECK(!t[i]->is_running(), "an expired one-shot timer claims to be running");
    }
}

// Stop one of two timers with equal expiry, before either is due.
MC_SCENARIO(timer_equal_stop, {})
{
    h::make_envs(1);
    auto when = std::chrono::steady_clock::now() + 50ms;
    int victim = mc::choose(2);
    probe *p[2];
    std::shared_ptr<co_timer> t[2];
    for (int i = 0; i < 2; ++i)
    {
        p[i] = new probe;
        t[i] = co_timer::create([q = p[i]] { q->call(); }, when);
        t[i]->start();
    }
    mc::begin();
    t[victim]->stop();
    mc::mark();
    if (mc::now_ns() < (uint64_t)when.time_since_epoch().count())
        p[victim]->forbidden.set(1);
    mc::settle(1000);
    mc::end();
    MC_CHECK(p[1 - victim]->calls.get() == 1, "stopping a timer suppresses another one with the same expiry");
}

// Start and stop from two coroutines while the timer thread works.
MC_SCENARIO(timer_stop_race, {})
{
    auto e = h::make_envs(2);
    auto *a = new one(co_expire_type::once, 6);
    auto *b = new one(co_expire_type::once, 6);
    h::go(e[0], 0, [=] {
        a->start();
        h::pass_ms(5);
        a->t->stop();
        mc::mark();
        if (mc::now_ns() < a->p.not_before.get())
            a->p.forbidden.set(1);
    });
    h::go(e[1], 1, [=] { b->start(); });
    h::run(2, "stopping or starting a timer blocks");
    MC_CHECK(a->p.calls.get() <= 1, "a one-shot timer fired %d times", a->p.calls.get());
    MC_CHECK(b->p.calls.get() == 1, "a started one-shot timer fired %d times", b->p.calls.get());
    mc::outcome(a->p.calls.get());
    // The service still works.
    auto *c = new one(co_expire_type::once, 5);
    c->start();
    mc::settle(1000);
    MC_CHECK(c->p.calls.get() == 1, "the timer service is dead");
}

// Start, stop immediately: the timer thread is woken for a queue that is empty again.
MC_SCENARIO(timer_start_stop, {})
{
    h::make_envs(1);
    auto *a = new one(co_expire_type::once, 1000);
    mc::begin();
    a->start();
    a->t->stop();
    mc::mark();
    a->p.forbidden.set(mc::now_ns() < a->p.not_before.get());
    mc::settle(10'000);
    mc::end();
    auto *c = new one(co_expire_type::once, 5);
    c->start();
    mc::settle(1000);
    MC_CHECK(c->p.calls.get() == 1, "the timer service is dead");
}

// A looping timer stopped from its own function after three calls.
MC_SCENARIO(timer_loop_self_stop, {})
{
    h::make_envs(1);
    auto *n = new h::cell<int>;
    auto *t = new std::shared_ptr<co_timer>;
    *t = co_timer::create([=] {
        mc::mark();
        if (n->add(1) == 3)
            (*t)->stop();
    }, co_expire_type::loop, 10);
    mc::begin();
    (*t)->start();
    mc::settle(1000);
    mc::end();
    int calls = n->get(); // those due before the third one ran come as well
    MC_CHECK(calls >= 3, "a looping timer fired %d times in 100 periods", calls);
    mc::settle(1000);
    MC_CHECK(n->get() == calls, "a looping timer stopped by its own function goes on firing");
    MC_CHECK(!(*t)->is_running(), "stopped timer claims to be running");
}

// A looping timer beside a one-shot timer: both served; stopped from outside.
MC_SCENARIO(timer_loop_and_once, {})
{
    h::make_envs(1);
    auto *l = new one(co_expire_type::loop, 10);
    auto *o = new one(co_expire_type::once, 35);
    mc::begin();
    l->start();
    o->start();
    mc::settle(300);
    mc::end();
    l->t->stop();
    mc::settle(300);
    int n = l->p.calls.get();
    MC_CHECK(n >= 5, "a looping timer of 10 ms fired %d times in 300 ms", n);
    MC_CHECK(o->p.calls.get() == 1, "a one-shot timer beside a looping one fired %d times", o->p.calls.get());
    mc::settle(2000);
    MC_CHECK(l->p.calls.get() == n, "a stopped looping timer goes on firing");
}

// A long running callback does not hold up other timers, nor operations on its own timer.
MC_SCENARIO(timer_long_callback, {})
{
    auto e = h::make_envs(2);
    int mode = mc::choose(2);
    auto *t = new std::shared_ptr<co_timer>;
    auto *m = new co_mutex;
    auto *n = new h::cell<int>;
    *t = co_timer::create([=] {
        mc::mark();
        n->add(1);
        m->lock(); // held by somebody for a long time
        m->unlock();
    }, mode ? co_expire_type::loop : co_expire_type::once, 100);
    auto *o = new one(co_expire_type::once, 30);
    h::go(e[0], 0, [=] {
        m->lock();
        (*t)->start();
        o->start();
        this_co::sleep_for(500ms);
        h::pass_ms(1000);
        this_co::sleep_for(500ms);
        MC_CHECK(o->p.calls.get() == 1, "a timer waits for the function of another timer");
        (*t)->stop();
        m->unlock();
    });
    mc::begin();
    mc::settle(5000);
    mc::end();
    h::expect_all(1, "timer operations block");
    MC_CHECK(n->get() >= 1, "the timer never fired");
}

// Reset moves the expiry.
MC_SCENARIO(timer_reset, {})
{
    auto e = h::make_envs(2);
    auto *a = new one(co_expire_type::once, 20);
    auto *late = new h::cell<int>;
    a->start();
    h::go(e[0], 0, [=] {
        h::pass_ms(10);
        mc::mark();
        if (!a->p.calls.get())
            a->p.not_before.set(a->p.not_before.get()); // may still fire for the first time
        a->t->reset();
        late->set(1);
    });
    h::go(e[1], 1, [=] { this_co::yield(); });
    h::run(2, "reset blocks");
    int n = a->p.calls.get();
    MC_CHECK(n == 1 || n == 2, "a reset one-shot timer fired %d times", n);
    MC_CHECK(!a->t->is_running(), "an expired timer claims to be running");
}

// All histories of start / stop / reset / passing time over three timers.
MC_SCENARIO(timer_histories, {.max_points = 400'000})
{
    h::make_envs(1);
    struct mod
    {
        bool running {false};
        uint64_t due {0};
        int fired {0};
        h::cell<int> real;
        bool loop {false};
        uint64_t ms;
        std::shared_ptr<co_timer> t;
    };
    static mod T[3];
    for (int i = 0; i < 3; ++i)
    {
        T[i].loop = i == 2;
        T[i].ms = i == 2 ? 30 : 20;
        T[i].t = co_timer::create([i] { T[i].real.add(1); }, T[i].loop ? co_expire_type::loop : co_expire_type::once, T[i].ms);
    }
    constexpr int depth = 4;
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(11);
        if (op < 9)
        {
            mod &x = T[op / 3];
            switch (op % 3)
            {
            case 0:
                x.t->start();
                x.running = true;
                break;
            case 1:
                x.t->stop();
                x.running = false;
                break;
            case 2:
                x.t->reset();
                x.running = true;
                break;
            }
            mc::quiesce();
            for (auto &y : T)
            {
                // The clock moves a little with every read: nothing is due within a few operations.
                MC_CHECK(y.real.get() == y.fired || y.running || !y.loop, "a timer fires while another is operated");
                if (!y.loop && y.real.get() > y.fired)
                {
                    y.fired = y.real.get();
                    MC_CHECK(y.running, "a timer fires although it is not running");
                    y.running = false;
                }
                if (y.loop)
                    y.fired = y.real.get();
            }
        }
        else
        {
            // Much later: everything that runs fires.
            uint64_t ms = op == 9 ? 200 : 1000;
            mc::settle(ms);
            for (auto &y : T)
            {
                int n = y.real.get() - y.fired;
                if (y.loop)
                    MC_CHECK(y.running ? n >= 3 : n == 0, "a %s looping timer fired %d times in %llu ms", y.running ? "running" : "stopped", n, (unsigned long long)ms);
                else
                {
                    MC_CHECK(n == (y.running ? 1 : 0), "a %s one-shot timer fired %d times", y.running ? "running" : "stopped", n);
                    y.running = false;
                }
                y.fired = y.real.get();
            }
        }
        for (auto &y : T)
            MC_CHECK(y.t->is_running() == y.running, "is_running answers %d", y.t->is_running());
        mc::outcome(T[0].running + 2 * T[1].running + 4 * T[2].running + 8 * op);
    }
}

// A timer that is never due fires at no time, and others are not held up by it.
MC_SCENARIO(timer_long, {})
{
    h::make_envs(1);
    constexpr unsigned long long ms[] = {~0ULL, 1ULL << 63, 1ULL << 55, 10'000'000'000'000ULL};
    int k = mc::choose(4);
    int loop = mc::choose(2);
    auto *calls = new h::cell<int>;
    auto t = co_timer::create([=] { mc::mark(); calls->add(1); }, loop ? co_expire_type::loop : co_expire_type::once, ms[k]);
    auto *o = new one(co_expire_type::once, 20);
    mc::begin();
    t->start();
    o->start();
    mc::settle(1000);
    bool running = t->is_running();
    t->stop();
    mc::settle(100);
    mc::end();
    MC_CHECK(running, "a timer that is not due has stopped");
    MC_CHECK(calls->get() == 0, "a timer with a very long time fires at once");
    MC_CHECK(o->p.calls.get() == 1, "a timer beside one with a very long time fired %d times", o->p.calls.get());
}

// A timer that is due before all those already pending, after one of them has been stopped or has been due.
MC_SCENARIO(timer_ahead, {})
{
    h::make_envs(1);
    int before = mc::choose(4);
    auto *a = new one(co_expire_type::once, 3'600'000);
    auto *b = new one(co_expire_type::loop, 7'200'000);
    auto *c = new one(co_expire_type::once, 100);
    a->start();
    b->start();
    mc::quiesce();
    if (before == 1)
        a->t->stop();
    if (before == 2)
        b->t->reset();
    if (before == 3)
        a->t->reset();
    mc::quiesce();
    mc::begin();
    c->start();
    mc::settle(10'000);
    mc::end();
    MC_CHECK(c->p.calls.get() == 1, "a timer of 100 ms beside pending ones fired %d times in 10 s", c->p.calls.get());
}

// A timer whose time is over when it is started.
MC_SCENARIO(timer_past, {})
{
    h::make_envs(1);
    int k = mc::choose(h::past_times);
    auto *calls = new h::cell<int>;
    auto t = co_timer::create([=] { mc::mark(); calls->add(1); }, h::past_time(k));
    auto *o = new one(co_expire_type::once, 20);
    mc::begin();
    o->start();
    t->start();
    mc::settle(1000);
    mc::end();
    MC_CHECK(calls->get() == 1, "a timer whose time is over fired %d times", calls->get());
    MC_CHECK(!t->is_running(), "a timer that has fired is running");
    MC_CHECK(o->p.calls.get() == 1, "a timer beside one whose time is over fired %d times", o->p.calls.get());
}

// Times between those of a millisecond clock.
MC_SCENARIO(timer_fine, {.tick_ns = 50'000})
{
    auto e = h::make_envs(1);
    (void)e;
    auto *calls = new h::cell<int>;
    constexpr std::chrono::nanoseconds d[] = {300us, 990us, 1900us, 2999us};
    auto when = std::chrono::steady_clock::now() + d[mc::choose(4)];
    auto t = co_timer::create([=] {
        mc::mark();
        MC_CHECK((int64_t)mc::now_ns() >= when.time_since_epoch().count(), "a timer fires before its time");
        calls->add(1);
    },
                              when);
    mc::begin();
    t->start();
    mc::settle(1000);
    mc::end();
    MC_CHECK(calls->get() == 1, "a timer fired %d times", calls->get());
}

// Very many timers, in different orders, some of them stopped; a loop of very many calls.
MC_SCENARIO(timer_many, {.max_points = 60'000'000})
{
    h::make_envs(1);
    int n = h::many();
    int order = mc::choose(3); // ascending, descending, all at the same time
    int stops = mc::choose(3); // none, every third, all
    auto *calls = new std::vector<int>(n);
    auto *last = new h::cell<int>;
    auto when = std::chrono::steady_clock::now() + 30min;
    std::vector<std::shared_ptr<co_timer>> t;
    for (int i = 0; i < n; ++i)
        t.push_back(co_timer::create([=] { ++(*calls)[i]; last->add(1); }, when + (order == 0 ? i * 1s : order == 1 ? (n - i) * 1s : 0s)));
    for (auto &x : t)
        x->start();
    for (int i = 0; i < n; ++i)
        if (stops == 2 || (stops == 1 && i % 3 == 0))
            t[i]->stop();
    mc::settle(600'000);
    MC_CHECK(last->get() == 0, "a timer fires early");
    mc::settle(3 * 3'600'000);
    for (int i = 0; i < n; ++i)
    {
        bool off = stops == 2 || (stops == 1 && i % 3 == 0);
        MC_CHECK((*calls)[i] == !off, "one of many timers fired %d times, it was%s stopped", (*calls)[i], off ? "" : " not");
    }
    auto *count = new h::cell<int>;
    auto loop = co_timer::create([=] { count->add(1); }, co_expire_type::loop, 10'000);
    loop->start();
    mc::settle((uint64_t)n * 10'000 + 5'000);
    loop->stop();
    int seen = count->get();
    MC_CHECK(seen >= n - 2 && seen <= n, "a looping timer is called %d times in %d periods", seen, n);
    mc::settle(100'000);
    MC_CHECK(count->get() == seen, "a timer that was stopped fires");
}
