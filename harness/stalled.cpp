// A thread is held up for long at any one of its steps, as an overloaded machine does, while the others go on and
// limits of time pass.
#include "common.h"

namespace
{

// The OS thread of the caller is held up once from here on.
void held_up(int k)
{
    mc::stall_after(k, 300);
}

int step(int most)
{
    return 1 + 50 * mc::choose((most + 49) / 50) + mc::choose(50);
}

// The first participant is held up at its k-th step; everybody finishes.
template <typename F>
void two(int most, F f)
{
    auto e = h::make_envs(2);
    int k = step(most);
    bool second = mc::choose(2);
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            if (i == second)
                held_up(k);
            f(i);
            mc::stall_after(0, 0);
        });
    mc::begin();
    mc::settle(60'000);
    mc::end();
    h::expect_all(2, "a participant never finishes");
}

}

static void locks(int kind)
{
    auto *s = new h::section;
    auto *m = new co_timed_mutex;
    auto *r = new co_recursive_timed_mutex;
    auto *w = new co_shared_timed_mutex;
    auto use = [=] {
        s->enter_unique("a lock");
        this_co::yield();
        s->leave_unique();
    };
    two(100, [=](int i) {
        switch (kind)
        {
        case 0:
            m->lock(), use(), m->unlock();
            if (m->try_lock_for(100ms))
                use(), m->unlock();
            break;
        case 1:
            r->lock(), r->lock(), use(), r->unlock(), r->unlock();
            if (r->try_lock_for(100ms))
                use(), r->unlock();
            break;
        default:
            w->lock(), use(), w->unlock();
            if (w->try_lock_shared_for(100ms))
            {
                s->enter_shared("a shared lock");
                this_co::yield();
                s->leave_shared(), w->unlock_shared();
            }
        }
    });
    MC_CHECK(m->try_lock() && r->try_lock() && w->try_lock(), "a lock is not free in the end");
}

MC_SCENARIO(stalled_mutex, {})
{
    locks(0);
}

MC_SCENARIO(stalled_spinlock, {})
{
    auto *s = new h::section;
    auto *m = new co_spinlock;
    two(50, [=](int) {
        for (int k = 0; k < 2; ++k)
        {
            m->lock();
            s->enter_unique("a spinlock");
            this_co::yield();
            s->leave_unique();
            m->unlock();
        }
    });
    MC_CHECK(m->try_lock(), "a spinlock is not free in the end");
}

MC_SCENARIO(stalled_recursive, {})
{
    locks(1);
}

MC_SCENARIO(stalled_shared, {})
{
    locks(2);
}

static void turns(bool timed)
{
    auto *m = new co_mutex;
    auto *cv = new co_condition_variable;
    auto *turn = new int(0);
    two(350, [=](int i) {
        for (int k = 0; k < 2; ++k)
        {
            std::unique_lock lk(*m);
            auto mine = [=] { return *turn % 2 == i; };
            if (timed)
                while (!cv->wait_for(lk, 100ms, mine))
                    MC_CHECK(!mine(), "a timed wait gives up although its condition holds");
            else
                cv->wait(lk, mine);
            MC_CHECK(mine(), "a wait returns although its condition does not hold");
            ++*turn;
            cv->notify_one();
        }
    });
}

MC_SCENARIO(stalled_cv, {})
{
    turns(false);
}

MC_SCENARIO(stalled_cv_timed, {})
{
    turns(true);
}

// One notification, a wait without a condition.
MC_SCENARIO(stalled_cv_verdict, {})
{
    auto *m = new co_mutex;
    auto *cv = new co_condition_variable;
    auto *waiting = new bool(false);
    auto *notified = new h::cell<int>;
    two(250, [=](int i) {
        std::unique_lock lk(*m);
        if (i == 0)
        {
            *waiting = true;
            bool ok = cv->wait_for(lk, 100ms);
            mc::mark();
            MC_CHECK(!ok || notified->get(), "a wait that nobody has notified succeeds");
            *waiting = false;
            // the same again: what is left of the first wait does not end this one
            auto t0 = mc::now_ns();
            ok = cv->wait_for(lk, 400ms);
            mc::mark();
            MC_CHECK(!ok || notified->get(), "a wait that nobody has notified succeeds");
            MC_CHECK(ok || mc::now_ns() - t0 >= 400'000'000, "a wait gives up too early");
        }
        else if (*waiting)
        {
            mc::mark();
            notified->set(1);
            cv->notify_one();
        }
    });
}

MC_SCENARIO(stalled_semaphore, {})
{
    auto *n = new co_counting_semaphore<4>(1);
    auto *out = new h::cell<int>; // permits in use
    two(150, [=](int i) {
        for (int k = 0; k < 2; ++k)
        {
            if (k == 0)
                n->acquire();
            else if (!n->try_acquire_for(100ms))
                continue;
            mc::mark();
            out->add(1);
            MC_CHECK(out->get() == 1, "%d permits are in use of one", out->get());
            this_co::yield();
            mc::mark();
            out->add(-1);
            n->release();
        }
    });
    MC_CHECK(n->try_acquire() && !n->try_acquire(), "permits are lost or made up");
}

MC_SCENARIO(stalled_wait_for, {})
{
    auto e = h::make_envs(2);
    int k = step(250), where = mc::choose(2), work = mc::choose(3);
    auto *ended = new h::cell<int>;
    auto *c = new co({with_bind_env(e[0])}, [=] {
        if (where == 0)
            held_up(k);
        if (work)
            this_co::sleep_for(work == 1 ? 50ms : 500ms);
        mc::mark();
        ended->set(1);
        return 7;
    });
    h::go(e[1], 0, [=] {
        if (where == 1)
            held_up(k);
        for (int i = 0; i < 2; ++i)
        {
            auto t0 = mc::now_ns();
            auto r = c->wait_for(100ms);
            mc::mark();
            if (r)
                MC_CHECK(ended->get() && int(*r) == 7, "a timed wait succeeds before the end or with another result");
            else
                MC_CHECK(mc::now_ns() - t0 >= 100'000'000, "a timed wait gives up too early");
        }
        MC_CHECK(c->wait<int>() == 7, "a wait gets another result");
        MC_CHECK(c->ctx_state() == co_state::finished, "a coroutine that has been waited for is not finished");
        delete c;
    });
    mc::begin();
    mc::settle(60'000);
    mc::end();
    h::expect_all(1, "a wait never returns");
}

MC_SCENARIO(stalled_join, {})
{
    auto e = h::make_envs(2);
    int k = step(150), where = mc::choose(2), shared = mc::choose(2);
    auto *c = new co({with_bind_env(e[0]), with_shared_stack(shared)}, [=] {
        if (where == 0)
            held_up(k);
        this_co::yield();
        return std::string(30, 'x');
    });
    h::go(e[1], 0, [=] {
        if (where == 1)
            held_up(k);
        MC_CHECK(c->wait<std::string>() == std::string(30, 'x'), "a wait gets another result");
        delete c;
    });
    mc::begin();
    mc::settle(60'000);
    mc::end();
    h::expect_all(1, "a wait never returns");
}

static void items(int capacity)
{
    auto *ch = new co_chan<int>(capacity);
    two(400, [=](int i) {
        if (i == 0)
        {
            for (int k = 0; k < 3; ++k)
                MC_CHECK(ch->push(k), "an open channel does not take an item");
            ch->close();
        }
        else
        {
            for (int k = 0; k < 3; ++k)
            {
                auto v = ch->pop();
                MC_CHECK(v && *v == k, "an item is lost or out of order");
            }
            MC_CHECK(!ch->pop(), "an item appears");
        }
    });
}

MC_SCENARIO(stalled_channel, {})
{
    items(mc::choose(2) ? 1 : -1);
}

MC_SCENARIO(stalled_sync, {})
{
    items(0);
}

MC_SCENARIO(stalled_sleep, {})
{
    two(250, [=](int i) {
        for (int k = 0; k < 2; ++k)
        {
            mc::mark();
            auto t0 = mc::now_ns();
            this_co::sleep_for(50ms);
            mc::mark();
            MC_CHECK(mc::now_ns() - t0 >= 50'000'000, "a sleep ends too early");
        }
    });
}

// Once and for all: a timer that has been stopped before its time does not fire, and one that was not fires.
MC_SCENARIO(stalled_timer, {})
{
    auto e = h::make_envs(2);
    int k = step(50), what = mc::choose(3);
    auto *fired = new h::cell<int>, *stopped = new h::cell<int>;
    auto *t = new std::shared_ptr<co_timer>;
    *t = co_timer::create([=] {
        mc::mark();
        MC_CHECK(!stopped->get(), "a timer fires after it was stopped before its time");
        fired->add(1);
    },
                          co_expire_type::once, 100);
    h::go(e[0], 0, [=] {
        held_up(k);
        (*t)->start();
        auto started = mc::now_ns();
        if (what == 1)
        {
            (*t)->stop();
            mc::mark();
            if (mc::now_ns() - started < 90'000'000 && !fired->get())
                stopped->set(1);
        }
        if (what == 2)
            (*t)->reset();
        mc::stall_after(0, 0);
    });
    h::go(e[1], 1, [] { this_co::sleep_for(20ms); });
    mc::begin();
    mc::settle(60'000);
    mc::end();
    h::expect_all(2, "a participant never finishes");
    if (what == 0)
        MC_CHECK(fired->get() == 1, "a timer fires %d times", fired->get());
    if (what == 2)
        MC_CHECK(fired->get() >= 1 && fired->get() <= 2, "a timer that was set again fires %d times", fired->get());
}
