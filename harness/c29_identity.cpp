// C29: code always sees the coroutine it runs in as the current one, with its id, name and environment.
#include "common.h"

namespace
{

// Who is running, according to the library.
struct self
{
    co_id id;
    std::string name;
    co_env *env;
    co_ctx *ctx;
    std::thread::id thread;
};

self look()
{
    return {this_co::id(), this_co::name(), co::current_env(), CoCurrentCtx(), std::this_thread::get_id()};
}

void same(const self &a, const char *when)
{
    auto b = look();
    MC_CHECK(a.id == b.id, "the id of the running coroutine is another one after %s", when);
    MC_CHECK(a.name == b.name, "the name of the running coroutine is '%s' instead of '%s' after %s", b.name.c_str(), a.name.c_str(), when);
    MC_CHECK(a.env == b.env && a.thread == b.thread, "the environment of the running coroutine is another one after %s", when);
    MC_CHECK(a.ctx == b.ctx && a.ctx->id() == a.id && a.ctx->name() == a.name, "the running coroutine is another one after %s", when);
}

std::string name_of(int k)
{
    return std::string(20, (char)('a' + k)) + std::to_string(k);
}

// A coroutine that looks at itself again and again.
struct seen
{
    h::cell<co_id> id;
    h::cell<bool> live;
};

void observe(co_env *e, int k, seen *all, int n)
{
    auto me = look();
    MC_CHECK(me.name == name_of(k), "a coroutine has the name '%s' instead of '%s'", me.name.c_str(), name_of(k).c_str());
    MC_CHECK(me.env == e, "a coroutine is in another environment than it is told");
    mc::mark();
    all[k].id.set(me.id);
    all[k].live.set(true);
    for (int i = 0; i < n; ++i)
        MC_CHECK(i == k || !all[i].live.get() || all[i].id.get() != me.id, "two coroutines have the same id at the same time");
    this_co::yield();
    same(me, "a yield");
    co_mutex m;
    {
        std::scoped_lock lk(m);
        same(me, "taking a lock");
    }
    this_co::sleep_for(100ms);
    same(me, "a sleep");
    mc::mark();
    all[k].live.set(false);
}

}

MC_SCENARIO(identity_two_envs, {})
{
    auto e = h::make_envs(2);
    auto *s = new seen[2];
    std::vector<co *> c;
    for (int i = 0; i < 2; ++i)
        c.push_back(new co({with_bind_env(e[i]), with_name(name_of(i))}, [=] {
            observe(e[i], i, s, 2);
            h::finish(i);
        }));
    for (int i = 0; i < 2; ++i)
        MC_CHECK(c[i]->name() == name_of(i), "a handle tells another name");
    h::run(2);
    for (int i = 0; i < 2; ++i)
        MC_CHECK(c[i]->id() == s[i].id.get(), "the id of a handle is not the one its coroutine has seen");
}

// Own and shared stacks, coroutines made by coroutines, in one environment.
MC_SCENARIO(identity_same_env, {})
{
    auto e = h::make_envs(1);
    auto *s = new seen[3];
    bool first = mc::choose(2), second = mc::choose(2), inner = mc::choose(2);
    auto *c0 = new co({with_bind_env(e[0]), with_name(name_of(0)), with_shared_stack(first)}, [=] {
        auto me = look();
        co c2({with_bind_env(e[0]), with_name(name_of(2)), with_shared_stack(inner)}, [=] {
            observe(e[0], 2, s, 3);
            h::finish(2);
        });
        same(me, "making a coroutine");
        observe(e[0], 0, s, 3);
        auto id = c2.id();
        c2.wait<void>();
        same(me, "waiting for a coroutine");
        MC_CHECK(id == s[2].id.get(), "the id of a handle is not the one its coroutine has seen");
        co moved = std::move(c2);
        MC_CHECK(moved.id() == id && moved.name() == name_of(2), "a handle that was moved stands for another coroutine");
        moved.join();
        same(me, "joining a coroutine");
        h::finish(0);
    });
    auto *c1 = new co({with_bind_env(e[0]), with_name(name_of(1)), with_shared_stack(second)}, [=] {
        observe(e[0], 1, s, 3);
        h::finish(1);
    });
    auto id0 = c0->id(), id1 = c1->id();
    h::run(3);
    MC_CHECK(id0 == s[0].id.get() && id1 == s[1].id.get(), "the id of a handle is not the one its coroutine has seen");
}

// Plain threads have identities and environments of their own.
MC_SCENARIO(identity_thread, {})
{
    auto e = h::make_envs(1);
    auto *s = new seen[1];
    auto me = look();
    mc::begin();
    auto *c = new co({with_bind_env(e[0]), with_name(name_of(0))}, [=] {
        observe(e[0], 0, s, 1);
        h::finish(0);
    });
    std::thread t([=] {
        auto mine = look();
        MC_CHECK(mine.id != me.id && mine.env != me.env && mine.env != e[0], "two threads have the same identity");
        c->wait<void>();
        same(mine, "waiting for a coroutine in a plain thread");
        MC_CHECK(mine.id != s[0].id.get(), "a plain thread has the id of a coroutine");
        h::finish(1);
    });
    same(me, "making a coroutine in a plain thread");
    this_co::sleep_for(50ms);
    same(me, "a sleep in a plain thread");
    t.join();
    c->join();
    same(me, "joining a coroutine in a plain thread");
    mc::end();
    h::expect_all(2, "a participant never finishes");
}

// The function of a timer is a coroutine of its own.
MC_SCENARIO(identity_timer, {})
{
    auto e = h::make_envs(1);
    auto *sleeper = new h::cell<co_id>;
    auto t = co_timer::create([=] {
        auto me = look();
        MC_CHECK(me.id != sleeper->get(), "the function of a timer has the id of a coroutine");
        this_co::yield();
        same(me, "a yield in the function of a timer");
        this_co::sleep_for(10ms);
        same(me, "a sleep in the function of a timer");
        h::finish(1);
    },
                              co_expire_type::once, 50);
    new co({with_bind_env(e[0]), with_name(name_of(0))}, [=] {
        auto me = look();
        mc::mark();
        sleeper->set(me.id);
        t->start();
        same(me, "starting a timer");
        this_co::sleep_for(200ms);
        same(me, "a sleep");
        h::finish(0);
    });
    h::run(2);
}

// One coroutine after the other in the memory of those before.
MC_SCENARIO(identity_generations, {.reuse = 2})
{
    auto e = h::make_envs(1);
    auto *s = new seen[4];
    bool shared = mc::choose(2);
    for (int i = 0; i < 4; ++i)
    {
        int kind = mc::choose(3); // with a name, without, one that does not look
        bool named = kind != 1, detach = mc::choose(2);
        auto *fallback = new std::string;
        auto body = [=] {
            if (kind == 0)
                observe(e[0], i, s, 4);
            else if (kind == 1)
            {
                auto me = look();
                for (int k = 0; k < 4; ++k)
                    MC_CHECK(me.name != name_of(k), "a coroutine has the name of an earlier one");
                *fallback = me.name;
                this_co::yield();
                same(me, "a yield");
            }
            h::finish(i);
        };
        auto *c = named ? new co({with_bind_env(e[0]), with_shared_stack(shared), with_name(name_of(i))}, body) : new co({with_bind_env(e[0]), with_shared_stack(shared)}, body);
        if (detach)
        {
            c->detach();
            mc::settle(1000);
        }
        else
        {
            c->wait<void>();
            MC_CHECK(c->name() == (named ? name_of(i) : *fallback), "a handle tells another name");
            c->join();
        }
        MC_CHECK(c->name().empty() && c->id() == co_id {}, "a handle without a coroutine has a name or an id");
        delete c;
        h::expect_all(i + 1, "a participant never finishes");
    }
}

// A preemption at any memory access of a coroutine that looks at itself.
MC_SCENARIO(identity_preempted, {})
{
    auto e = h::make_envs(1);
    int k = 1 + 50 * mc::choose(12) + mc::choose(50);
    new co({with_bind_env(e[0]), with_name(name_of(0))}, [=] {
        auto me = look();
        mc::signal_after(k);
        same(me, "a preemption");
        mc::signal_after(0);
        same(me, "a preemption");
        h::finish(0);
    });
    new co({with_bind_env(e[0]), with_name(name_of(1))}, [=] {
        auto me = look();
        MC_CHECK(me.name == name_of(1), "a coroutine has the name '%s'", me.name.c_str());
        for (int i = 0; i < 3; ++i)
        {
            this_co::yield();
            same(me, "a yield");
        }
        h::finish(1);
    });
    mc::settle(60'000);
    h::expect_all(2, "a participant never finishes");
    mc::outcome(mc::signals_sent());
}
