// C27: coroutines bound to no environment do not wait behind one that blocks the thread of theirs.
#include "common.h"

namespace
{

void tick()
{
    co_manager::instance()->timing_routine_timeout().pub();
}

// One environment serves everything; the second one exists to be moved to.
co_env *pool()
{
    h::no_monitor();
    co::set_base_schedule_thread_count(1);
    co::set_max_schedule_thread_count(2);
    auto *e = co::create_env(true);
    mc::quiesce();
    return e;
}

// Steps of a coroutine, each of which has to happen once, in order, with the state of the one before.
struct steps
{
    h::cell<int> n, inside;
    void step(int k, int mine)
    {
        mc::mark();
        MC_CHECK(inside.add(1) == 1, "two environments run a coroutine at the same time");
        MC_CHECK(n.get() == k, "step %d of a coroutine follows step %d", k, n.get() - 1);
        MC_CHECK(mine == k * 7, "a coroutine has lost its state");
        n.add(1);
        mc::mark();
        inside.add(-1);
    }
    void run()
    {
        volatile int mine = 0;
        for (int k = 0; k < 4; ++k)
        {
            step(k, mine);
            mine = mine + 7;
            this_co::yield();
        }
    }
};

co *unbound(int k, std::function<void()> f)
{
    return new co([=] {
        f();
        h::finish(k);
    });
}

}

// A ready coroutine has to run elsewhere while the thread of its environment is in a blocking call.
namespace
{

void ready_behind_blocked(bool started)
{
    pool();
    auto *blocked = new h::cell<int>;
    auto *s = new steps;
    unbound(0, [=] {
        if (started)
            this_co::yield();
        blocked->set(1);
        mc::block_ms(10'000);
        blocked->set(2);
    });
    unbound(1, [=] { s->run(); });
    mc::begin();
    mc::quiesce();
    MC_CHECK(blocked->get() == 1, "the blocking coroutine does not run");
    for (int i = 0; i < 6; ++i)
    {
        mc::settle(20);
        tick();
    }
    mc::settle(1000);
    MC_CHECK(blocked->get() == 1, "the blocking call is over");
    int done = s->n.get();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a coroutine never finishes");
    MC_CHECK(done == 4, "a ready coroutine%s is not run by another environment while the thread of its own is blocked", started ? " that has already run" : "");
}

}

MC_SCENARIO(redist_new, {})
{
    ready_behind_blocked(false);
}

MC_SCENARIO(redist_started, {})
{
    ready_behind_blocked(true);
}

// The blocking call ends at about the time of the monitor's work: every coroutine runs exactly once, with its state.
MC_SCENARIO(redist_wakes, {})
{
    pool();
    auto *a = new steps;
    auto *b = new steps;
    unbound(0, [=] {
        a->step(0, 0);
        mc::block_ms(100);
        a->step(1, 7);
        this_co::yield();
        a->step(2, 14);
    });
    unbound(1, [=] { b->run(); });
    mc::quiesce();
    tick();
    mc::begin();
    mc::block_ms(99);
    for (int i = 0; i < 4; ++i)
        tick();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a coroutine never finishes");
}

// The same with an idle environment that could take work over.
MC_SCENARIO(redist_idle, {})
{
    auto *e = pool();
    auto *a = new steps;
    auto *b = new steps;
    auto *c = new steps;
    for (int i = 0; i < 2; ++i)
        unbound(i, [=] { (i ? b : a)->run(); });
    new co({with_bind_env(e)}, [=] {
        c->run();
        h::finish(2);
    });
    mc::begin();
    co::create_env(true);
    for (int i = 0; i < 4; ++i)
        tick();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(3, "a coroutine never finishes");
}

// And with coroutines that wait for something when the monitor looks.
MC_SCENARIO(redist_waiting, {})
{
    pool();
    auto *m = new co_mutex;
    auto *b = new steps;
    unbound(0, [=] {
        m->lock();
        mc::block_ms(100);
        m->unlock();
    });
    unbound(1, [=] {
        m->lock();
        b->run();
        m->unlock();
    });
    unbound(2, [=] {
        this_co::sleep_for(90ms);
        m->lock();
        m->unlock();
    });
    mc::quiesce();
    tick();
    mc::begin();
    mc::block_ms(95);
    for (int i = 0; i < 4; ++i)
        tick();
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(3, "a coroutine never finishes");
}
