// C01: the body of a coroutine runs once, its waiters get its result after its end, and nobody hangs.
#include "common.h"

namespace
{

struct target
{
    h::cell<int> runs, ended;
    co *c {nullptr};

    int body(int a, int b)
    {
        mc::mark();
        MC_CHECK(runs.add(1) == 1, "a body runs twice");
        MC_CHECK(a == 40 && b == 2, "a body gets other arguments (%d, %d)", a, b);
        this_co::yield();
        mc::mark();
        ended.set(1);
        return a + b;
    }
    void start(co_env *e, std::function<void(co_ctx_config &)> opt = [](co_ctx_config &) {})
    {
        c = new co({with_bind_env(e), opt}, [this](int a, int b) { return body(a, b); }, 40, 2);
    }
    void wait()
    {
        int r = c->wait<int>();
        mc::mark();
        MC_CHECK(ended.get(), "a wait returns before the body has ended");
        MC_CHECK(r == 42, "a wait returns %d instead of 42", r);
        MC_CHECK(runs.get() == 1, "the body ran %d times", runs.get());
    }
};

struct failure
{
    int code;
};

}

MC_SCENARIO(join_other_env, {})
{
    auto e = h::make_envs(2);
    auto *t = new target;
    t->start(e[0]);
    h::go(e[1], 0, [=] { t->wait(); });
    h::run(1, "a wait never returns");
}

MC_SCENARIO(join_same_env, {})
{
    auto e = h::make_envs(1);
    auto *t = new target;
    bool before = mc::choose(2);
    if (before)
        t->start(e[0]);
    h::go(e[0], 0, [=] {
        if (!before)
            t->start(e[0]);
        t->wait();
    });
    h::run(1, "a wait never returns");
}

// The waiter has a better or worse priority than the awaited coroutine; a bystander is always ready.
MC_SCENARIO(join_priority, {})
{
    auto e = h::make_envs(1);
    auto *t = new target;
    int pt = mc::choose(3) * 40, pw = mc::choose(3) * 40;
    auto *go_on = new h::cell<int>;
    t->start(e[0], with_priority(pt));
    new co({with_bind_env(e[0]), with_priority(pw)}, [=] {
        t->wait();
        MC_CHECK((int)CoCurrentCtx()->priority() == pw, "the priority of the waiter is %d instead of %d after the wait", (int)CoCurrentCtx()->priority(), pw);
        go_on->set(1);
        h::finish(0);
    });
    h::go(e[0], 1, [=] {
        for (int i = 0; i < 6 && !go_on->get(); ++i)
            this_co::yield();
    });
    h::run(2, "a wait never returns");
}

// A plain thread waits.
MC_SCENARIO(join_thread, {})
{
    auto e = h::make_envs(1);
    auto *t = new target;
    t->start(e[0]);
    mc::begin();
    t->wait();
    mc::end();
}

MC_SCENARIO(join_two_threads, {})
{
    auto e = h::make_envs(1);
    auto *t = new target;
    co::current_env();
    mc::begin();
    t->start(e[0]);
    std::thread other([=] { t->wait(); });
    t->wait();
    other.join();
    mc::end();
}

MC_SCENARIO(join_two_waiters, {})
{
    auto e = h::make_envs(3);
    auto *t = new target;
    t->start(e[0]);
    h::go(e[1], 0, [=] { t->wait(); });
    h::go(e[2], 1, [=] { t->wait(); });
    h::run(2, "a wait never returns");
}

MC_SCENARIO(join_two_waiters_same_env, {})
{
    auto e = h::make_envs(2);
    auto *t = new target;
    t->start(e[0]);
    h::go(e[0], 0, [=] { t->wait(); });
    h::go(e[1], 1, [=] {
        t->wait();
        t->wait(); // long after the end
    });
    h::run(2, "a wait never returns");
}

// a waits for b waits for c.
MC_SCENARIO(join_chain, {})
{
    auto e = h::make_envs(3);
    auto *t = new target;
    auto *order = new h::cell<int>;
    t->start(e[0]);
    auto *b = new co({with_bind_env(e[1])}, [=] {
        t->wait();
        order->set(1);
        return std::string("done");
    });
    h::go(e[2], 0, [=] {
        auto s = b->wait<std::string>();
        MC_CHECK(order->get() == 1 && s == "done", "a wait returns before the body has ended");
    });
    h::run(1, "a wait never returns");
}

// Joining destroys the handle's claim; the coroutine is removed by its environment.
MC_SCENARIO(join_and_drop, {})
{
    auto e = h::make_envs(2);
    auto *done = new h::cell<int>;
    h::go(e[1], 0, [=] {
        for (int i = 0; i < 2; ++i)
        {
            co c({with_bind_env(e[0])}, [=] {
                mc::mark();
                done->add(1);
            });
            c.join();
            mc::mark();
            MC_CHECK(done->get() == i + 1, "join returns before the body has ended");
            c.join();
        }
    });
    h::run(1, "a join never returns");
}

// The destructor of the handle joins; the arguments are kept until then.
MC_SCENARIO(join_destructor, {})
{
    auto e = h::make_envs(2);
    auto *done = new h::cell<int>;
    h::go(e[1], 0, [=] {
        {
            std::string s(100, 'x');
            co c({with_bind_env(e[0])}, [done](std::string a, const std::string &b) {
                this_co::yield();
                MC_CHECK(a == std::string(100, 'x') && b == "literal", "a body gets other arguments");
                mc::mark();
                done->add(1); }, s, std::string("literal"));
            s.assign(100, 'y');
        }
        mc::mark();
        MC_CHECK(done->get() == 1, "a handle goes away before the body has ended");
        co a({with_bind_env(e[0])}, [=] { mc::mark(); done->add(1); });
        co b({with_bind_env(e[0])}, [=] { mc::mark(); done->add(1); });
        a = std::move(b); // joins the first one
        mc::mark();
        MC_CHECK(done->get() >= 2, "assigning to a handle does not wait for its coroutine");
        a.join();
        mc::mark();
        MC_CHECK(done->get() == 3, "join returns before the body has ended");
    });
    h::run(1, "a join never returns");
}

MC_SCENARIO(join_exception, {})
{
    auto e = h::make_envs(2);
    auto *t = new co({with_bind_env(e[0])}, []() -> int {
        this_co::yield();
        throw failure {7};
    });
    h::go(e[1], 0, [=] {
        int caught = 0;
        try
        {
            t->wait<int>();
        }
        catch (failure &f)
        {
            caught = f.code;
        }
        MC_CHECK(caught == 7, "the exception of a body does not reach its waiter (%d)", caught);
    });
    h::run(1, "a wait never returns");
}

// Two waiters of a body that throws: at least the first one gets the exception.
MC_SCENARIO(join_exception_two, {})
{
    auto e = h::make_envs(3);
    auto *caught = new h::cell<int>;
    auto *t = new co({with_bind_env(e[0])}, [] {
        this_co::yield();
        throw failure {7};
    });
    for (int i = 0; i < 2; ++i)
        h::go(e[i + 1], i, [=] {
            try
            {
                t->wait<void>();
            }
            catch (failure &f)
            {
                mc::mark();
                MC_CHECK(f.code == 7, "another exception reaches a waiter");
                caught->add(1);
            }
        });
    h::run(2, "a wait never returns");
    MC_CHECK(caught->get() >= 1, "the exception of a body reaches none of its waiters");
    mc::outcome(caught->get());
}

MC_SCENARIO(join_self, {})
{
    auto e = h::make_envs(1);
    auto **self = new co *;
    *self = h::go(e[0], 0, [=] {
        bool timed = mc::choose(2);
        bool thrown = h::throws<std::runtime_error>([&] {
            if (timed)
                (*self)->wait_for(100ms);
            else
                (*self)->wait<void>();
        });
        MC_CHECK(thrown, "waiting for itself is not rejected");
        this_co::yield();
    });
    h::run(1, "a coroutine that tried to wait for itself never ends");
}

// Three coroutines, up to two waiters each: every placement, and every order of up to four ends and waits.
MC_SCENARIO(join_histories, {})
{
    constexpr int N = 3;
    auto e = h::make_envs(2);
    struct state
    {
        h::cell<int> open[N], ended[N], waiting[N][2], got[N][2];
        co_binary_semaphore gate[N] {co_binary_semaphore(0), co_binary_semaphore(0), co_binary_semaphore(0)};
        co *c[N];
    };
    auto *s = new state;
    for (int i = 0; i < N; ++i)
        s->c[i] = new co({with_bind_env(e[mc::choose(2)])}, [=] {
            s->gate[i].acquire();
            s->ended[i].set(1);
            return i * 7;
        });
    std::vector<int> ops; // each at most once
    for (int op = 0; op < 3 * N; ++op)
        ops.push_back(op);
    for (int step = 0; step < 4; ++step)
    {
        int pick = mc::choose((int)ops.size());
        int op = ops[pick];
        ops.erase(ops.begin() + pick);
        int i = op % N, w = op / N - 1;
        if (op < N)
        {
            s->open[i].set(1);
            s->gate[i].release();
        }
        else
        {
            s->waiting[i][w].set(1);
            h::go(e[w], i * 2 + w, [=] {
                int r = s->c[i]->wait<int>();
                MC_CHECK(s->ended[i].get(), "a wait returns before the body has ended");
                MC_CHECK(r == i * 7, "a wait returns the result of another coroutine");
                s->got[i][w].set(1);
            });
        }
        mc::quiesce();
        for (int k = 0; k < N; ++k)
        {
            MC_CHECK(s->ended[k].get() == s->open[k].get(), "coroutine %d does not end", k);
            for (int v = 0; v < 2; ++v)
                MC_CHECK(s->got[k][v].get() == (s->waiting[k][v].get() && s->ended[k].get()), "a wait for an ended coroutine does not return");
        }
    }
}

// One coroutine after another, in the memory of the one before, waited for in different ways.
MC_SCENARIO(join_generations, {.reuse = true})
{
    auto e = h::make_envs(2);
    auto *ran = new h::cell<int>;
    auto *through = new h::cell<int>;
    h::go(e[0], 0, [=] {
        for (int i = 0; i < 3; ++i)
        {
            int how = mc::choose(4);
            bool fails = mc::choose(2), other = mc::choose(2), shared = mc::choose(2);
            co c({with_bind_env(e[other]), with_shared_stack(shared)}, [=] {
                this_co::yield();
                if (how == 1)
                    this_co::sleep_for(300ms);
                ran->add(1);
                if (fails)
                    throw i;
                return i * 11;
            });
            bool thrown = false;
            int value = -1;
            try
            {
                switch (how)
                {
                case 0:
                    value = c.wait<int>();
                    break;
                case 1: // once in vain
                    MC_CHECK(!c.wait_for(100ms), "a wait reports completion of a coroutine that has not ended");
                    value = c.wait<int>();
                    break;
                case 2:
                    value = c.wait_for(10s).value();
                    break;
                default:
                    c.join();
                    value = i * 11;
                }
            }
            catch (int x)
            {
                MC_CHECK(x == i, "the exception of another coroutine is thrown");
                thrown = true;
            }
            MC_CHECK(ran->get() == i + 1, "a wait returns before the body has ended");
            MC_CHECK(thrown == fails, "%s", fails ? "the exception of the body is not thrown" : "an exception the body did not throw");
            MC_CHECK(fails || value == i * 11, "a wait returns %d instead of %d", value, i * 11);
            through->add(1);
        }
    });
    mc::settle(h::settle_ms);
    MC_CHECK(through->get() == 3, "a participant never finishes");
}

namespace
{

// Counts the living ones.
struct counted
{
    static inline h::cell<int> alive;
    int value;
    explicit counted(int v)
        : value(v)
    {
        alive.add(1);
    }
    counted(const counted &o)
        : value(o.value)
    {
        alive.add(1);
    }
    counted &operator=(const counted &o) = default;
    ~counted()
    {
        value = -1;
        alive.add(-1);
    }
};

template <typename T, typename W>
void give_and_take(std::vector<co_env *> e, T value, int how)
{
    auto *c = new co({with_bind_env(e[0])}, [](const T &arg) {
        this_co::yield();
        return arg;
    }, value);
    auto *left = new h::cell<int>;
    left->set(2);
    for (int k = 0; k < 2; ++k)
        h::go(e[k], k, [=] {
            // What one of them does with its copy is nothing to the other
            auto take = [&]() -> T {
                switch (how)
                {
                case 0:
                    return c->wait<co_return_value>();
                case 1:
                    return *c->wait_for(24h);
                default:
                    c->wait<void>();
                    return c->wait<T>();
                }
            };
            T r = take();
            MC_CHECK(r == value, "a wait returns something else than the result");
            r = T {};
            this_co::yield();
            MC_CHECK(take() == value, "a second wait returns something else than the result");
            MC_CHECK(h::throws<std::bad_cast>([&] { W w = c->wait<co_return_value>(); (void)w; }), "a result is taken for one of another type");
            MC_CHECK(take() == value, "a wait after one for another type returns something else than the result");
            if (left->add(-1) == 0)
                delete c;
        });
    h::run(2, "a wait for a result never returns");
}

}

// Results and arguments of several types, taken more than once and as what they are not.
MC_SCENARIO(join_values, {})
{
    auto e = h::make_envs(2);
    int how = mc::choose(3);
    switch (mc::choose(5))
    {
    case 0:
        return give_and_take<std::string, const char *>(e, std::string(100, 'x'), how);
    case 1:
        return give_and_take<std::vector<int>, std::vector<long>>(e, {1, 2, 3}, how);
    case 2:
        return give_and_take<bool, int>(e, true, how);
    case 3:
        return give_and_take<double, float>(e, 0.1, how);
    default:
        return give_and_take<std::shared_ptr<int>, std::shared_ptr<const int>>(e, std::make_shared<int>(3), how);
    }
}

// Copies of arguments and results go with the coroutine and those that took them.
MC_SCENARIO(join_value_released, {})
{
    auto e = h::make_envs(2);
    bool waits = mc::choose(2), shared = mc::choose(2);
    h::go(e[0], 0, [=] {
        counted arg(5);
        {
            co c({with_bind_env(e[1]), with_shared_stack(shared)}, [](counted a) {
                this_co::yield();
                a.value += 2;
                return a;
            }, arg);
            if (waits)
                MC_CHECK(c.wait<counted>().value == 7, "a coroutine returns another value");
            else
                c.detach();
        }
        MC_CHECK(arg.value == 5, "a coroutine changes the argument of its creator, not its own copy");
    });
    h::run(1, "the creator of a coroutine never ends");
    h::go(e[1], 1, [] {}); // the environment removes ended coroutines when it switches
    mc::quiesce();
    MC_CHECK(counted::alive.get() == 0, "%d copies of arguments and results are never destroyed", counted::alive.get());
}

// Very many waiters for one coroutine, then one waiter for very many.
MC_SCENARIO(join_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = h::many();
    auto *gate = new co_binary_semaphore(0);
    auto *open = new h::cell<bool>;
    auto *c = new co({with_bind_env(x->e[0])}, [=] {
        gate->acquire();
        open->set(true);
        return 17;
    });
    x->add(n, [=](int) {
        int r = c->wait<int>();
        MC_CHECK(r == 17 && open->get(), "one of many waiters gets another result or returns early");
    });
    x->settle(0, "a wait returns before the end");
    gate->release();
    x->all("one of many waits never returns");
    auto *all = new std::vector<co *>;
    for (int i = 0; i < n; ++i)
        all->push_back(new co({with_bind_env(x->e[i % x->e.size()])}, [=] { this_co::yield(); return i; }));
    x->add([=](int) {
        for (int i = 0; i < n; ++i)
            MC_CHECK((*all)[i]->wait<int>() == i, "a waiter for many gets another result");
    });
    x->all("a wait for one of many never returns");
}
