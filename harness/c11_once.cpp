// C11: call_once.
#include "common.h"

namespace
{

struct once
{
    co_once_flag flag;
    h::cell<int> inside, completed, failed;
    int data {0}; // written by the function, read by every caller afterwards

    // kind: 0 plain, 1 suspends, 2 sleeps, 3 the first attempt throws
    void body(int kind)
    {
        mc::mark();
        MC_CHECK(inside.get() == 0, "the function runs twice at a time");
        MC_CHECK(completed.get() == 0, "the function runs again after it completed");
        inside.add(1);
        if (kind == 1)
            this_co::yield();
        if (kind == 2)
            this_co::sleep_for(10ms);
        if (kind == 3 && failed.get() == 0)
        {
            mc::mark();
            inside.add(-1);
            failed.add(1);
            throw std::runtime_error("once");
        }
        data = 42;
        mc::mark();
        inside.add(-1);
        completed.add(1);
    }
    void call(int kind)
    {
        int threw = 0;
        try
        {
            co_call_once(flag, [this](int k) { body(k); }, kind);
        }
        catch (std::runtime_error &)
        {
            threw = 1;
        }
        mc::mark();
        if (threw)
            return;
        MC_CHECK(completed.get() == 1, "a caller returns before the function completed");
        MC_CHECK(data == 42, "a caller does not see what the function did");
    }
};

void callers(int n, int envs, int kind)
{
    auto e = h::make_envs(envs);
    auto *o = new once;
    for (int i = 0; i < n; ++i)
        h::go(e[i % envs], i, [=] { o->call(kind); });
    h::run(n, "a caller never returns");
    if (n > 1 || kind != 3)
        MC_CHECK(o->completed.get() == 1, "the function completed %d times", o->completed.get());
}

}

MC_SCENARIO(once_plain, {})
{
    callers(2, 2, 0);
}
MC_SCENARIO(once_three, {})
{
    callers(3, 2, 0);
}
MC_SCENARIO(once_yield, {})
{
    callers(2, 2, 1);
}
MC_SCENARIO(once_yield_same_env, {})
{
    callers(3, 1, 1);
}
MC_SCENARIO(once_sleep, {})
{
    callers(2, 2, 2);
}
MC_SCENARIO(once_throw, {})
{
    callers(2, 2, 3);
}
MC_SCENARIO(once_throw_three, {})
{
    callers(3, 2, 3);
}
MC_SCENARIO(once_thread, {})
{
    auto e = h::make_envs(1);
    auto *o = new once;
    h::go(e[0], 0, [=] { o->call(0); });
    mc::begin();
    o->call(0);
    mc::settle(h::settle_ms);
    mc::end();
    h::expect_all(1, "a caller never returns");
    MC_CHECK(o->completed.get() == 1, "the function completed %d times", o->completed.get());
}

// Very many callers, the first of whose functions throw.
MC_SCENARIO(once_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    int bad = mc::choose(3) * (n / 2);
    auto *flag = new co_once_flag;
    auto *begun = new h::cell<int>;
    auto *complete = new h::cell<int>;
    auto *thrown = new h::cell<int>;
    x->add(n, [=](int) {
        try
        {
            co_call_once(*flag, [=] {
                int k = begun->add(1);
                this_co::yield();
                if (k <= bad)
                    throw std::runtime_error("no");
                complete->add(1);
            });
            MC_CHECK(complete->get() == 1, "a caller returns before the function has completed");
        }
        catch (std::runtime_error &)
        {
            thrown->add(1);
        }
    });
    x->all("one of many callers never returns");
    MC_CHECK(thrown->get() == bad && complete->get() == (bad < n), "the function has thrown %d times and completed %d times", thrown->get(), complete->get());
}
