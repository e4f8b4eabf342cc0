// C07: condition variable with time limit.
#include "common.h"

namespace
{

struct box
{
    co_mutex m;
    co_condition_variable cv;
    h::section s;
    int waiting {0};
    bool flag {false};
    h::cell<int> notes;
    void note()
    {
        mc::mark();
        notes.add(1);
    }
    // Returns the verdict after checking what every timed wait promises.
    bool timed_wait(uint64_t ms)
    {
        std::unique_lock lk(m);
        ++waiting;
        mc::mark();
        auto t0 = mc::now_ns();
        int n0 = notes.get();
        bool ok = cv.wait_for(lk, std::chrono::milliseconds(ms));
        mc::mark();
        if (ok)
            MC_CHECK(notes.get() > n0, "a timed wait reports a notification that never happened");
        else
            MC_CHECK(mc::now_ns() - t0 >= ms * 1'000'000, "a timed wait reports a timeout after %llu us of %llu", (unsigned long long)(mc::now_ns() - t0) / 1000, (unsigned long long)ms * 1000);
        MC_CHECK(!m.try_lock(), "a timed wait returns without owning the lock");
        s.enter_unique("after timed wait");
        s.leave_unique();
        --waiting;
        mc::outcome(ok);
        return ok;
    }
};

}

// One timed waiter, one notification before, around or after the deadline.
MC_SCENARIO(timed_notify, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    int when = mc::choose(3);
    h::go(e[0], 0, [=] { b->timed_wait(10); });
    h::go(e[1], 1, [=] {
        h::pass_ms(when * 9);
        std::unique_lock lk(b->m);
        b->s.enter_unique("notifier");
        b->s.leave_unique();
        b->note();
        b->cv.notify_one();
    });
    h::run(2, "a timed wait never returns");
}

MC_SCENARIO(timed_expire, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    h::go(e[0], 0, [=] { MC_CHECK(!b->timed_wait(10), "verdict"); });
    h::go(e[0], 1, [=] { this_co::yield(); });
    h::run(2, "a timed wait never returns");
}

// Every wait has its own verdict: a timeout is not remembered.
MC_SCENARIO(timed_repeat, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    h::go(e[0], 0, [=] {
        b->timed_wait(5);
        b->timed_wait(30'000);
        b->timed_wait(5);
    });
    h::go(e[1], 1, [=] {
        this_co::sleep_for(100ms);
        std::unique_lock lk(b->m);
        b->note();
        b->cv.notify_all();
    });
    h::run(2, "a timed wait never returns");
}

// Two timed waiters on one variable: one expires, the other is notified much later.
MC_SCENARIO(timed_two, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    h::go(e[0], 0, [=] { b->timed_wait(5); });
    h::go(e[1], 1, [=] { b->timed_wait(30'000); });
    h::go(e[0], 2, [=] {
        this_co::sleep_for(100ms);
        std::unique_lock lk(b->m);
        b->note();
        b->cv.notify_one();
    });
    h::run(3, "a timed wait never returns");
}

// A notification aimed at a timed and an untimed waiter reaches one of them even if the timed one expires.
MC_SCENARIO(timed_not_stolen, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    int when = mc::choose(3);
    auto *timed = new h::cell<int>;
    auto *issued = new h::cell<int>;
    auto *woken = new h::cell<int>;
    h::go(e[0], 0, [=] { timed->set(b->timed_wait(10) ? 1 : 2); });
    h::go(e[1], 1, [=] {
        std::unique_lock lk(b->m);
        ++b->waiting;
        b->cv.wait(lk);
        woken->set(1);
    });
    h::go(e[0], 2, [=] {
        h::pass_ms(when * 4);
        std::unique_lock lk(b->m);
        b->note();
        if (b->waiting == 2)
            issued->set(1);
        b->cv.notify_one();
    });
    mc::begin();
    mc::settle(h::settle_ms);
    mc::end();
    MC_CHECK(timed->get(), "a timed wait never returns");
    if (issued->get())
        MC_CHECK(timed->get() == 1 || woken->get(), "a notification is swallowed by a wait that reports a timeout");
    mc::outcome(timed->get() * 4 + woken->get() * 2 + issued->get());
}

// With a condition.
MC_SCENARIO(timed_pred, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    int when = mc::choose(3); // before, around, never
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        auto t0 = mc::now_ns();
        bool ok = b->cv.wait_for(lk, 10ms, [=] { return b->flag; });
        mc::mark();
        if (ok)
            MC_CHECK(b->flag, "a timed wait with a condition reports success although it does not hold");
        else
            MC_CHECK(mc::now_ns() - t0 >= 10'000'000, "a timed wait with a condition reports a timeout too early");
        MC_CHECK(!b->m.try_lock(), "returned without the lock");
        b->s.enter_unique("after wait");
        b->s.leave_unique();
        mc::outcome(ok);
    });
    h::go(e[1], 1, [=] {
        {
            std::unique_lock lk(b->m);
            b->cv.notify_all(); // the condition does not hold yet
        }
        h::pass_ms(when * 5);
        std::unique_lock lk(b->m);
        if (when < 2)
            b->flag = true;
        b->s.enter_unique("notifier");
        b->s.leave_unique();
        b->cv.notify_all();
    });
    h::run(2, "a timed wait with a condition never returns");
}

MC_SCENARIO(timed_pred_true, {})
{
    auto e = h::make_envs(1);
    auto *b = new box;
    b->flag = true;
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        auto t0 = mc::now_ns();
        MC_CHECK(b->cv.wait_for(lk, 10s, [=] { return b->flag; }), "a condition that holds is reported as a timeout");
        MC_CHECK(mc::now_ns() - t0 < 9'000'000'000ULL, "a timed wait whose condition already holds blocks");
        MC_CHECK(!b->m.try_lock(), "returned without the lock");
    });
    h::run(1, "a timed wait never returns");
}

// The variable and the waiter are gone soon after the wait returned.
MC_SCENARIO(timed_gone, {})
{
    auto e = h::make_envs(2);
    int when = mc::choose(2);
    auto *b = new box;
    auto *c = new co({with_bind_env(e[0])}, [=] {
        b->timed_wait(10);
        h::finish(0);
    });
    h::go(e[1], 1, [=] {
        h::pass_ms(when * 9);
        std::unique_lock lk(b->m);
        b->note();
        b->cv.notify_one();
    });
    mc::begin();
    c->wait<void>();
    delete c;
    mc::settle(1000);
    delete b;
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(2, "a timed wait never returns");
}

// A deadline already over.
MC_SCENARIO(timed_past, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    int k = mc::choose(h::past_times);
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        bool ok = b->cv.wait_until(lk, h::past_time(k));
        MC_CHECK(!ok, "a wait until a past time reports a notification");
        ok = b->cv.wait_until(lk, h::past_time(k), [] { return false; });
        MC_CHECK(!ok, "a wait until a past time reports a notification");
    });
    h::run(1, "a wait until a past time hangs");
}

// Notifications go on while the condition never holds; the wait ends all the same.
MC_SCENARIO(timed_pred_pestered, {.max_points = 100'000})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    int until = mc::choose(2), limit = mc::choose(3);
    constexpr uint64_t ms[] = {40, 1000, 3500};
    auto *round = new h::cell<int>;
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        auto d = std::chrono::milliseconds(ms[limit]);
        bool ok = until ? b->cv.wait_until(lk, std::chrono::steady_clock::now() + d, [] { return false; }) : b->cv.wait_for(lk, d, [] { return false; });
        MC_CHECK(!ok, "a timed wait with a condition reports success although it does not hold");
        MC_CHECK(round->get() < 20, "a timed wait is prolonged by notifications");
    });
    h::go(e[1], 1, [=] {
        while (round->add(1) < 30)
        {
            this_co::sleep_for(500ms);
            b->cv.notify_all();
        }
    });
    mc::settle(h::settle_ms);
    h::expect_all(2, "a timed wait with a condition never returns");
}

MC_SCENARIO(timed_long, {})
{
    auto e = h::make_envs(2);
    auto *m = new co_mutex;
    auto *cv = new co_condition_variable;
    auto *told = new h::cell<int>;
    int k = mc::choose(h::long_times);
    int pred = mc::choose(2);
    h::go(e[0], 0, [=] {
        std::unique_lock lk(*m);
        bool ok = h::with_long_time(k, [&](auto d) { return pred ? cv->wait_for(lk, d, [=] { return told->get(); }) : cv->wait_for(lk, d); });
        MC_CHECK(ok && told->get(), "a timed wait with a very long limit gives up at once");
    });
    h::go(e[1], 1, [=] {
        this_co::sleep_for(50ms);
        std::unique_lock lk(*m);
        mc::mark();
        told->set(1);
        cv->notify_one();
    });
    h::run(2, "a timed wait with a very long limit never returns");
}

// Very many waiters, some time out, some are notified.
MC_SCENARIO(timed_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    auto *b = new box;
    auto *early = new h::cell<int>;
    x->add(n, [=](int i) {
        std::unique_lock lk(b->m);
        bool ok = b->cv.wait_for(lk, i % 2 ? std::chrono::nanoseconds(2h) : std::chrono::nanoseconds(10s));
        MC_CHECK(ok == (i % 2 == 1), "one of many timed waits reports a wrong verdict");
        early->add(i % 2 == 0);
    });
    mc::settle(600'000);
    MC_CHECK(x->ended.get() == n / 2 && early->get() == n / 2, "%d of %d timed waits ended", x->ended.get(), n / 2);
    {
        std::scoped_lock lk(b->m);
        b->cv.notify_all();
    }
    x->all("one of many timed waits never returns");
}

// Limits between the times of a millisecond clock.
MC_SCENARIO(timed_fine, {.tick_ns = 50'000})
{
    auto e = h::make_envs(1);
    auto *b = new box;
    bool pred = mc::choose(2);
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        h::not_before("a timed wait", [&](auto d) {
            bool ok = pred ? b->cv.wait_for(lk, d, [] { return false; }) : b->cv.wait_for(lk, d);
            MC_CHECK(!ok, "a wait that nobody notifies succeeds"); }, [&](auto t) {
            bool ok = pred ? b->cv.wait_until(lk, t, [] { return false; }) : b->cv.wait_until(lk, t);
            MC_CHECK(!ok, "a wait that nobody notifies succeeds"); });
    });
    h::run(1, "a timed wait never returns");
}

// A notification that comes before the deadline while a waiter waits is not answered with a timeout.
MC_SCENARIO(timed_not_lost, {})
{
    auto e = h::make_envs(2);
    auto *b = new box;
    bool until = mc::choose(2), all = mc::choose(2), same = mc::choose(2);
    auto *waiting = new bool(false); // protected by the lock
    auto *deadline = new h::cell<uint64_t>;
    auto *due = new h::cell<bool>;
    h::go(e[0], 0, [=] {
        std::unique_lock lk(b->m);
        *waiting = true;
        mc::mark();
        deadline->set(mc::now_ns() + 9'900'000'000ULL); // the wait goes on at least until then
        auto when = std::chrono::steady_clock::now() + 10s;
        bool ok = until ? b->cv.wait_until(lk, when) : b->cv.wait_for(lk, 10s);
        mc::mark();
        MC_CHECK(ok || !due->get(), "a timed wait reports a timeout although it was notified before");
        mc::outcome(ok);
    });
    h::go(e[same ? 0 : 1], 1, [=] {
        std::scoped_lock lk(b->m);
        if (!*waiting)
            return;
        if (all)
            b->cv.notify_all();
        else
            b->cv.notify_one();
        mc::mark();
        due->set(mc::now_ns() < deadline->get());
    });
    h::run(2, "a timed wait never returns");
}
