// C06: condition variable without time limit.
#include "common.h"

namespace
{

struct box
{
    co_mutex m;
    co_condition_variable cv;
    h::section s;
    int waiting {0};            // protected by m
    bool flag {false};          // protected by m
    h::cell<int> notes;         // notifications issued so far, a notify_all counts for everybody
    h::cell<int> woken;

    void note(int n)
    {
        mc::mark();
        notes.add(n);
    }
    void wake(const char *what)
    {
        mc::mark();
        woken.add(1);
        MC_CHECK(woken.get() <= notes.get(), "%s returned without a notification", what);
        MC_CHECK(!m.try_lock(), "%s returned without owning the lock", what);
    }
    void plain_wait()
    {
        std::unique_lock lk(m);
        ++waiting;
        cv.wait(lk);
        wake("wait");
        s.enter_unique("after wait");
        s.leave_unique();
    }
};

}

// The classic loop; the flag is set under the lock, the notification comes with or without it.
MC_SCENARIO(cv_flag, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    int mode = mc::choose(3);
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        while (!b->flag)
            b->cv.wait(lk);
        b->s.enter_unique("after wait");
        b->s.leave_unique();
    });
    h::go(e[1], 1, [=] {
        std::unique_lock lk(b->m);
        b->flag = true;
        b->s.enter_unique("notifier");
        b->s.leave_unique();
        if (mode == 0)
            b->cv.notify_one();
        lk.unlock();
        if (mode == 1)
            b->cv.notify_one();
        if (mode == 2)
            b->cv.notify_all();
    });
    h::run(2, "a notification is lost");
}

// The waiter waits with a condition.
MC_SCENARIO(cv_pred, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    int mode = mc::choose(2);
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        b->cv.wait(lk, [=] { return b->flag; });
        MC_CHECK(b->flag, "wait with a condition returned although it does not hold");
        b->s.enter_unique("after wait");
        b->s.leave_unique();
    });
    h::go(e[1], 1, [=] {
        if (mode)
        {
            std::unique_lock lk(b->m);
            b->cv.notify_all(); // not yet
        }
        {
            std::unique_lock lk(b->m);
            b->flag = true;
            b->s.enter_unique("notifier");
            b->s.leave_unique();
        }
        b->cv.notify_one();
    });
    h::run(2, "a wait with a condition hangs");
}

MC_SCENARIO(cv_pred_true, {})
{
    auto e = h::make_envs(1);
    auto *b = new box;
    b->flag = true;
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        b->cv.wait(lk, [=] { return b->flag; });
        MC_CHECK(!b->m.try_lock(), "returned without the lock");
    });
    h::run(1, "a wait whose condition already holds blocks");
}

// Two waiters and a notifier that looks, under the lock, how many wait: exactly the notified ones wake.
static void count_woken(co_env *w0, co_env *w1, co_env *n)
{
    auto *b = new box;
    int mode = mc::choose(3);
    auto *seen = new h::cell<int>;
    h::go(w0, 0, [=] { b->plain_wait(); });
    h::go(w1, 1, [=] { b->plain_wait(); });
    h::go(n, 2, [=] {
        std::unique_lock lk(b->m);
        seen->set(b->waiting);
        int k = mode == 0 ? b->waiting : mode == 1 ? std::min(1, b->waiting) : b->waiting;
        b->note(k);
        if (mode == 0)
            b->cv.notify_all();
        else
            b->cv.notify_one();
        if (mode == 2)
            b->cv.notify_one();
    });
    mc::begin();
    mc::settle(h::settle_ms);
    mc::end();
    MC_CHECK(b->woken.get() == b->notes.get(), "%d waiters woken, %d of %d waiting ones were notified", b->woken.get(), b->notes.get(), seen->get());
    MC_CHECK(__builtin_popcount(h::finished_mask.get()) == b->woken.get() + 1, "a woken waiter never gets the lock back");
    b->note(2 - b->woken.get());
    b->cv.notify_all();
    mc::settle(h::settle_ms);
    h::expect_all(3, "a waiter is not woken by the last notify_all");
    mc::outcome(seen->get());
}

MC_SCENARIO(cv_two_waiters, {})
{
    auto e = h::make_envs(3);
    count_woken(e[0], e[1], e[2]);
}

MC_SCENARIO(cv_same_env, {})
{
    auto e = h::make_envs(2);
    count_woken(e[0], e[0], e[mc::choose(2)]);
}

// Plain threads as waiter or notifier.
MC_SCENARIO(cv_thread, {})
{
    auto e = h::make_envs(1);
    auto *b = new box;
    int mode = mc::choose(2);
    auto waiter = [=] {
        std::unique_lock lk(b->m);
        while (!b->flag)
            b->cv.wait(lk);
        b->s.enter_unique("after wait");
        b->s.leave_unique();
    };
    auto notifier = [=] {
        {
            std::unique_lock lk(b->m);
            b->flag = true;
        }
        b->cv.notify_one();
    };
    if (mode)
        h::go(e[0], 0, waiter);
    else
        h::go(e[0], 0, notifier);
    new std::thread([=] {
        if (mode)
            notifier();
        else
            waiter();
        h::finish(1);
    });
    h::run(2, "a notification is lost between a thread and a coroutine");
}

// The wait is a hand-over: wait, be woken, notify the next.
MC_SCENARIO(cv_ping_pong, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    auto *turn = new int(0);
    auto body = [=](int me) {
        for (int i = 0; i < 2; ++i)
        {
            std::unique_lock lk(b->m);
            while (*turn != me)
                b->cv.wait(lk);
            b->s.enter_unique("turn");
            b->s.leave_unique();
            *turn = 1 - me;
            b->cv.notify_all();
        }
    };
    h::go(e[0], 0, [=] { body(0); });
    h::go(e[1], 1, [=] { body(1); });
    h::run(2, "a notification is lost");
}

// All histories of wait / notify_one / notify_all by three coroutines and a thread.
MC_SCENARIO(cv_histories, {.max_points = 400'000})
{
    h::actors A(3, 1);
    auto *b = new box;
    std::array<bool, 4> waiting {};
    constexpr int depth = 7;
    for (int d = 0; d < depth; ++d)
    {
        int idle = -1, nw = 0;
        for (int i = 0; i < 4; ++i)
        {
            nw += waiting[i];
            if (!waiting[i] && idle < 0)
                idle = i;
        }
        MC_CHECK(idle >= 0 || nw == 4, "model");
        if (idle < 0)
            break;
        int op = mc::choose(5);
        int before = nw, want = nw;
        switch (op)
        {
        case 0:
            A.step(idle, [=] { std::unique_lock lk(b->m); b->cv.wait(lk); });
            waiting[idle] = true;
            ++want;
            break;
        case 1:
            A.step(idle, [=] { b->cv.notify_one(); });
            want = nw ? nw - 1 : 0;
            break;
        case 2:
            A.step(idle, [=] { b->cv.notify_all(); });
            want = 0;
            break;
        case 3:
            A.step(idle, [=] { std::unique_lock lk(b->m); b->cv.notify_one(); });
            want = nw ? nw - 1 : 0;
            break;
        case 4:
            A.step(idle, [=] {
                std::unique_lock lk(b->m);
                b->cv.notify_one();
                b->cv.notify_one();
            });
            want = nw > 2 ? nw - 2 : 0;
            break;
        }
        int after = 0;
        for (int i = 0; i < 4; ++i)
        {
            if (waiting[i] && !A.busy(i))
                waiting[i] = false;
            after += waiting[i];
            MC_CHECK(waiting[i] || !A.busy(i), "notify blocks");
        }
        MC_CHECK(after == want, "operation %d with %d waiters leaves %d waiting instead of %d", op, before, after, want);
        mc::outcome(after * 8 + op);
    }
}

// A notification ordered for the end of a coroutine: all that wait by then are woken, not before, and a condition
// set before the end is never missed.
MC_SCENARIO(cv_at_exit, {})
{
    auto e = h::make_envs(3);
    auto *b = new box;
    auto *leaving = new h::cell<int>;
    bool fails = mc::choose(2), racing = mc::choose(2);
    for (int i = 0; i < 2; ++i)
        h::go(e[i], i, [=] {
            std::unique_lock lk(b->m);
            if (racing)
            {
                b->cv.wait(lk, [=] { return b->flag; });
            }
            else
            {
                b->cv.wait(lk);
                MC_CHECK(leaving->get(), "a waiter is notified before the end of the coroutine");
            }
            b->s.enter_unique("after wait");
            b->s.leave_unique();
        });
    if (!racing)
        mc::quiesce(); // both wait
    co c({with_bind_env(e[2])}, [=] {
        notify_all_at_co_exit(b->cv);
        this_co::yield();
        {
            std::unique_lock lk(b->m);
            b->flag = true;
        }
        mc::mark();
        leaving->set(1);
        if (fails)
            throw 7;
    });
    c.detach();
    h::run(2, "a notification ordered for the end of a coroutine is lost");
}

// Very many waiters, woken one by one or together.
MC_SCENARIO(cv_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    int ones = mc::choose(3); // all together; half of them one by one; one by one
    auto *b = new box;
    x->add(n, [=](int) { b->plain_wait(); });
    mc::settle(600'000);
    MC_CHECK(b->waiting == n && x->ended.get() == 0, "a wait returned without a notification");
    int single = n * ones / 2;
    for (int i = 0; i < single; ++i)
    {
        std::scoped_lock lk(b->m);
        b->note(1);
        b->cv.notify_one();
    }
    mc::settle(600'000);
    MC_CHECK(x->ended.get() == single, "%d of %d waiters are woken by %d notifications", x->ended.get(), n, single);
    {
        std::scoped_lock lk(b->m);
        b->note(n);
        b->cv.notify_all();
    }
    x->all("one of many waiters is never woken");
}
