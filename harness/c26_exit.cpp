// C26: the process ends without crash, hang or use of released memory whatever the coroutines are doing.  Every body
// here returns while something is going on; the process then leaves through exit() with its static destructors.
#include "common.h"

namespace
{

co *work(co_env *e, int n, bool shared = false)
{
    return new co({with_bind_env(e), with_shared_stack(shared)}, [n] {
        for (int i = 0; i < n; ++i)
            this_co::yield();
    });
}

}

// Nothing was ever done, or only the main thread got an environment.
MC_SCENARIO(exit_fresh, {.run_exit = true})
{
    h::no_monitor();
    if (mc::choose(2))
        co::current_env();
    mc::begin();
}

MC_SCENARIO(exit_idle, {.run_exit = true})
{
    auto e = h::make_envs(2);
    if (mc::choose(2))
        co::create_env(false);
    mc::begin();
}

// Coroutines that have ended, joined, detached or with a handle that was never released.
MC_SCENARIO(exit_finished, {.run_exit = true})
{
    auto e = h::make_envs(1);
    bool shared = mc::choose(2);
    int how = mc::choose(3);
    auto *c = work(e[0], 1, shared);
    mc::settle(100);
    mc::begin();
    if (how == 0)
        c->join();
    if (how == 1)
        c->detach();
}

// The end comes while detached coroutines are ready or running.
MC_SCENARIO(exit_running, {.run_exit = true})
{
    auto e = h::make_envs(2);
    bool shared = mc::choose(2);
    mc::begin();
    work(e[0], 2, shared)->detach();
    work(e[1], 1, shared)->detach();
    work(e[1], 1, shared)->detach();
}

// Right after a join.
MC_SCENARIO(exit_joined, {.run_exit = true})
{
    auto e = h::make_envs(1);
    bool shared = mc::choose(2);
    mc::begin();
    auto *c = work(e[0], 1, shared);
    c->join();
}

// Coroutines that wait for something for ever.
MC_SCENARIO(exit_waiting, {.run_exit = true})
{
    auto e = h::make_envs(2);
    bool shared = mc::choose(2);
    int what = mc::choose(6);
    auto *m = new co_mutex;
    auto *cv = new co_condition_variable;
    auto *s = new co_binary_semaphore(0);
    auto *ch = new co_chan<int>(1);
    auto *other = what == 5 ? new co({with_bind_env(e[1])}, [=] { s->acquire(); }) : nullptr;
    auto f = [=] {
        switch (what)
        {
        case 0:
            m->lock();
            m->lock();
            break;
        case 1:
        {
            std::unique_lock l(*m);
            cv->wait(l);
            break;
        }
        case 2:
            s->acquire();
            break;
        case 3:
            ch->pop();
            break;
        case 4:
            this_co::sleep_for(1h);
            break;
        case 5:
            other->join();
            break;
        }
    };
    co c({with_bind_env(e[0]), with_shared_stack(shared)}, f);
    c.detach();
    co d({with_bind_env(e[1]), with_shared_stack(shared)}, [] { this_co::sleep_for(1h); });
    d.detach();
    mc::settle(100);
    mc::begin();
}

// Waiting coroutines are woken up at the same time.
MC_SCENARIO(exit_woken, {.run_exit = true})
{
    auto e = h::make_envs(2);
    int what = mc::choose(3);
    auto *s = new co_binary_semaphore(0);
    auto *ch = new co_chan<int>(1);
    co c({with_bind_env(e[0])}, [=] {
        if (what == 0)
            s->acquire();
        if (what == 1)
            ch->pop();
        if (what == 2)
            this_co::sleep_for(50ms);
        this_co::yield();
    });
    c.detach();
    mc::quiesce();
    mc::begin();
    co d({with_bind_env(e[1])}, [=] {
        if (what == 0)
            s->release();
        if (what == 1)
            ch->push(1);
    });
    d.detach();
    if (what == 2)
        mc::block_ms(49);
}

// A sleep or timer expires at about the same time.
MC_SCENARIO(exit_timer, {.run_exit = true})
{
    auto e = h::make_envs(1 + mc::choose(2));
    bool loop = mc::choose(2);
    auto t = co_timer::create([] { this_co::yield(); }, loop ? co_expire_type::loop : co_expire_type::once, 50);
    t->start();
    auto u = co_timer::create([] {}, co_expire_type::once, 1'000'000);
    u->start();
    mc::begin();
    mc::block_ms(mc::choose(2) ? 60 : 45);
}

// A detached coroutine creates others, bound and not bound.
MC_SCENARIO(exit_creating, {.run_exit = true})
{
    auto e = h::make_envs(1);
    bool bound = mc::choose(2);
    mc::begin();
    co c({with_bind_env(e[0])}, [=] {
        if (bound)
            work(e[0], 1)->detach();
        else
            co([] { this_co::yield(); }).detach();
    });
    c.detach();
}

// The monitor is in the middle of its work.
MC_SCENARIO(exit_monitor, {.run_exit = true})
{
    auto e = h::make_envs(1);
    co::create_env(false);
    mc::quiesce();
    co_manager::instance()->timing_routine_timeout().pub();
    mc::begin();
    work(e[0], 2)->detach();
    new std::thread([] { co_manager::instance()->timing_routine_timeout().pub(); });
}

MC_SCENARIO(exit_ticking, {.run_exit = true})
{
    co::set_base_schedule_thread_count(1);
    auto *e = co::create_env(true);
    mc::begin();
    work(e, 3)->detach();
    mc::block_ms(mc::choose(2) ? 20 : 9);
}

// The handle is a static object, destroyed with all the others.
MC_SCENARIO(exit_static_handle, {.run_exit = true})
{
    auto e = h::make_envs(1);
    mc::begin();
    static co c({with_bind_env(e[0])}, [] { this_co::yield(); });
}

// Environments of threads of the program, which have ended or are still there.
MC_SCENARIO(exit_threads, {.run_exit = true})
{
    auto e = h::make_envs(1);
    int what = mc::choose(3);
    auto *s = new co_binary_semaphore(0);
    auto *t = new std::thread([=] {
        if (what == 0)
            work(e[0], 1)->join();
        if (what == 1)
            s->acquire();
        if (what == 2)
            co::schedule_in_this_thread();
    });
    if (what == 0)
        t->join();
    mc::quiesce();
    mc::begin();
    co([] { this_co::yield(); }).detach();
}

// The end does not wait for what is due later.
MC_SCENARIO(exit_prompt, {.run_exit = true})
{
    static uint64_t begun;
    on_exit([](int, void *) { MC_CHECK(mc::now_ns() - begun < 60'000'000'000, "the end of the process takes %llu s", (unsigned long long)(mc::now_ns() - begun) / 1'000'000'000); }, nullptr);
    co::set_timer_tick_duration(2s); // the end of the process waits for the monitor
    co::set_base_schedule_thread_count(1);
    std::vector<co_env *> e {co::create_env(true), co::create_env(true)};
    int what = mc::choose(7);
    auto *m = new co_mutex;
    auto *cv = new co_condition_variable;
    auto *s = new co_binary_semaphore(0);
    auto *t = new std::shared_ptr<co_timer>;
    auto *c = new co({with_bind_env(e[1])}, [=] { s->acquire(); });
    if (what == 0)
        *t = co_timer::create([] {}, co_expire_type::once, 3'600'000);
    if (what == 1)
        *t = co_timer::create([] {}, co_expire_type::loop, 3'600'000);
    if (what == 2)
        *t = co_timer::create([] {}, std::chrono::steady_clock::now() + 1h);
    if (*t)
        (*t)->start();
    co d({with_bind_env(e[0])}, [=] {
        switch (what)
        {
        case 3:
            this_co::sleep_for(1h);
            break;
        case 4:
            c->wait_for(1h);
            break;
        case 5: {
            std::unique_lock l(*m);
            cv->wait_for(l, 1h);
            break;
        }
        case 6:
            s->acquire();
            break;
        }
    });
    d.detach();
    mc::block_ms(500);
    begun = mc::now_ns();
    mc::begin();
}

// Very many coroutines are there at the end.
MC_SCENARIO(exit_many, {.max_points = 60'000'000, .run_exit = true})
{
    auto e = h::make_envs(2);
    int n = h::many();
    int what = mc::choose(4);
    bool shared = mc::choose(2);
    auto *s = new co_counting_semaphore<1000>(0);
    for (int i = 0; i < n; ++i)
        (new co({with_bind_env(e[i & 1]), with_shared_stack(shared)}, [=] {
            switch (what)
            {
            case 0:
                s->acquire();
                break;
            case 1:
                this_co::sleep_for(1h);
                break;
            case 2:
                this_co::yield();
                break;
            default:
                for (int k = 0; k < 3; ++k)
                    this_co::sleep_for(std::chrono::milliseconds(20 + i));
            }
        }))->detach();
    if (what == 0)
    {
        mc::settle(100);
        s->release(n / 2);
    }
    if (what == 3)
        mc::settle(50);
}
