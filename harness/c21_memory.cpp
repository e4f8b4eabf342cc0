// C21: memory is released exactly once, not used afterwards, and not kept for ever.  The engine reports every access
// to released memory, every second release, and every access outside of a block or mapping.
#include "common.h"

namespace
{

// Counts the instances of what a coroutine owns: its callable, its result, its local data.
struct owned
{
    inline static h::cell<int> alive;
    int v {7};
    owned() { alive.add(1); }
    owned(const owned &o)
        : v(o.v)
    {
        alive.add(1);
    }
    ~owned()
    {
        MC_CHECK(v == 7, "something owned by a coroutine is destroyed twice");
        v = 0;
        alive.add(-1);
    }
};

// The environment runs another coroutine: at that time the previous ones are released.
void nudge(co_env *e)
{
    for (int i = 0; i < 2; ++i)
    {
        co c({with_bind_env(e)}, [] {});
        c.join();
    }
}

struct failure
{
};

owned run_body(int what)
{
    owned r;
    switch (what)
    {
    case 1:
        this_co::yield();
        break;
    case 2:
        this_co::sleep_for(20ms);
        break;
    case 3:
        throw failure {};
    }
    CoLocal(data, owned).v = 7;
    return r;
}

struct task
{
    owned mine;
    owned operator()(int what) const { return run_body(what); }
};

// What the owner of a handle does with it.
constexpr int n_ways = 9;
void let_go(co c, int how, co_env *e)
{
    switch (how)
    {
    case 0:
        c.join();
        break;
    case 1:
        c.detach();
        break;
    case 2: // the destructor
        break;
    case 3:
    {
        co d(std::move(c));
        co f(std::move(d));
        f.join();
        break;
    }
    case 4:
        c.wait_for(0ms);
        c.detach();
        break;
    case 5:
        MC_CHECK(c.wait<owned>().v == 7, "a wait gives another result");
        c.detach();
        break;
    case 6:
        c.ctx_set_priority(3);
        c.detach();
        break;
    case 7:
        c.join();
        c.join();
        c.detach();
        break;
    case 8:
    {
        co d({with_bind_env(e)}, [] { this_co::yield(); });
        c = std::move(d);
        break;
    }
    }
}

void let_go_quietly(co c, int how, co_env *e)
{
    try
    {
        let_go(std::move(c), how, e);
    }
    catch (failure &)
    {
    }
}

void released(co_env *e)
{
    mc::end();
    nudge(e);
    MC_CHECK(owned::alive.get() == 0, "%d objects owned by coroutines that have ended and been released are left", owned::alive.get());
}

}

// A handle is released by a plain thread while the coroutine ends and its environment runs others.
MC_SCENARIO(mem_release_thread, {})
{
    auto e = h::make_envs(1);
    bool shared = mc::choose(2);
    int what = mc::choose(3), how = mc::choose(n_ways);
    co::current_env();
    mc::begin();
    {
        co c({with_bind_env(e[0]), with_shared_stack(shared)}, task {}, what);
        co bystander({with_bind_env(e[0]), with_shared_stack(shared)}, [] { this_co::yield(); });
        let_go(std::move(c), how, e[0]);
    }
    mc::settle(1000);
    released(e[0]);
}

// The same by a coroutine of the same environment.
MC_SCENARIO(mem_release_inside, {})
{
    auto e = h::make_envs(1);
    bool shared = mc::choose(2);
    int what = mc::choose(3), how = mc::choose(n_ways);
    h::go(e[0], 0, [=] {
        co c({with_bind_env(e[0]), with_shared_stack(shared)}, task {}, what);
        if (what == 1)
            this_co::yield();
        let_go(std::move(c), how, e[0]);
    });
    h::run(1, "the release of a handle never returns");
    released(e[0]);
}

// And by a coroutine of another one.
MC_SCENARIO(mem_release_other, {})
{
    auto e = h::make_envs(2);
    bool shared = mc::choose(2);
    int what = mc::choose(3), how = mc::choose(n_ways);
    h::go(e[1], 0, [=] {
        co c({with_bind_env(e[0]), with_shared_stack(shared)}, task {}, what);
        let_go(std::move(c), how, e[1]);
        co after({with_bind_env(e[0]), with_shared_stack(shared)}, [] { this_co::yield(); });
    });
    h::run(1, "the release of a handle never returns");
    mc::end();
    nudge(e[1]);
    released(e[0]);
}

// A coroutine ends by an exception and its handle is released.
MC_SCENARIO(mem_release_failed, {})
{
    auto e = h::make_envs(2);
    int how = mc::choose(5);
    int ways[] = {0, 1, 3, 5, 6};
    how = ways[how];
    h::go(e[1], 0, [=] {
        let_go_quietly(co({with_bind_env(e[0])}, task {}, 3), how, e[1]);
    });
    h::run(1, "the release of a handle never returns");
    mc::end();
    nudge(e[1]);
    released(e[0]);
}

// A handle stays usable long after the coroutine has ended and its environment has run others.
MC_SCENARIO(mem_keep, {})
{
    auto e = h::make_envs(1);
    bool shared = mc::choose(2);
    mc::begin();
    {
        co c({with_bind_env(e[0]), with_shared_stack(shared), with_name("kept")}, task {}, 1);
        co o({with_bind_env(e[0]), with_shared_stack(shared)}, task {}, 0);
        o.detach();
        nudge(e[0]);
        MC_CHECK(c.name() == "kept", "the name of an ended coroutine is another one");
        MC_CHECK(c.ctx_state() == co_state::finished, "a coroutine that has ended is in another state");
        MC_CHECK(c.wait<owned>().v == 7 && c.wait<owned>().v == 7, "a wait gives another result");
        MC_CHECK(c.wait_for(10ms).has_value(), "a timed wait for an ended coroutine expires");
        c.ctx_set_priority(20);
        nudge(e[0]);
        MC_CHECK(c.ctx_priority() == 20, "the priority of an ended coroutine is another one");
    }
    released(e[0]);
}

// Detached coroutines of two environments end while others are created there.
MC_SCENARIO(mem_detached_many, {})
{
    auto e = h::make_envs(2);
    bool shared = mc::choose(2);
    mc::begin();
    for (int i = 0; i < 4; ++i)
    {
        co c({with_bind_env(e[i & 1]), with_shared_stack(shared && i < 3)}, task {}, i % 3);
        c.detach();
    }
    mc::settle(1000);
    mc::end();
    nudge(e[1]);
    released(e[0]);
}

// A detached coroutine waits for one whose handle it owns.
MC_SCENARIO(mem_detached_tree, {})
{
    auto e = h::make_envs(2);
    mc::begin();
    co top({with_bind_env(e[0])}, [=] {
        co a({with_bind_env(e[1])}, task {}, 1);
        co b({with_bind_env(e[0])}, task {}, 2);
        a.join();
    });
    top.detach();
    mc::settle(1000);
    mc::end();
    nudge(e[1]);
    released(e[0]);
}

// ---------------------------------------------------------------- growth
namespace
{

void cycle(int kind, const std::vector<co_env *> &e)
{
    switch (kind)
    {
    case 0:
    case 1:
    {
        co c({with_bind_env(e[0]), with_shared_stack(kind == 1)}, task {}, 1);
        co d({with_bind_env(e[0]), with_shared_stack(kind == 1)}, task {}, 2);
        c.join();
        break;
    }
    case 2:
    case 3:
    {
        co c({with_bind_env(e[0]), with_shared_stack(kind == 3)}, task {}, 1);
        c.detach();
        co d({with_bind_env(e[0]), with_shared_stack(kind == 3)}, task {}, 2);
        d.detach();
        mc::settle(1000);
        break;
    }
    case 4:
        h::throws<failure>([&] {
            co c({with_bind_env(e[0])}, task {}, 3);
            c.join();
        });
        break;
    case 5:
    {
        co c({with_bind_env(e[0])}, task {}, 3);
        c.detach();
        break;
    }
    case 6:
    {
        co c({with_bind_env(e[0])}, [&] {
            co d({with_bind_env(e[1])}, [] { this_co::sleep_for(300ms); });
            for (int i = 0; i < 3; ++i)
                MC_CHECK(!d.wait_for(20ms), "a timed wait succeeds before the end");
        });
        c.join();
        break;
    }
    case 7:
    {
        auto t = co_timer::create([] {}, co_expire_type::once, 30);
        t->start();
        auto u = co_timer::create([] {}, co_expire_type::loop, 30);
        u->start();
        mc::settle(100);
        u->stop();
        break;
    }
    case 8:
    {
        co_mutex m;
        auto f = [&] {
            for (int i = 0; i < 2; ++i)
            {
                std::lock_guard l(m);
                this_co::sleep_for(20ms);
            }
        };
        co c({with_bind_env(e[0])}, f), d({with_bind_env(e[1])}, f), g({with_bind_env(e[0])}, f);
        c.join(), d.join(), g.join();
        break;
    }
    case 9:
    case 10:
    {
        co_chan<int> ch(kind == 9 ? 0 : 2);
        co c({with_bind_env(e[0])}, [&] {
            for (int i = 0; i < 3; ++i)
                ch.push(i);
            ch.close();
        });
        co d({with_bind_env(e[1])}, [&] {
            while (ch.pop())
                ;
        });
        c.join(), d.join();
        break;
    }
    case 11:
    {
        co_mutex m;
        co_condition_variable cv;
        bool go = false;
        co c({with_bind_env(e[0])}, [&] {
            std::unique_lock l(m);
            cv.wait_for(l, 20ms);
            while (!go)
                cv.wait(l);
        });
        co d({with_bind_env(e[1])}, [&] {
            this_co::sleep_for(200ms);
            std::unique_lock l(m);
            go = true;
            cv.notify_all();
        });
        c.join(), d.join();
        break;
    }
    case 12:
    {
        co c({with_bind_env(e[0])}, [] { this_co::yield(); });
        auto h = c.ctx_finished().sub([] {});
        c.ctx_finished().unsub(h);
        c.ctx_finished().sub([] {});
        c.ctx_set_priority(4);
        c.join();
        break;
    }
    case 13:
    {
        co_recursive_mutex m;
        co_shared_mutex s;
        co_counting_semaphore<2> n(1);
        co_latch l(2);
        co_wait_group w(2);
        co_once_flag once;
        auto f = [&] {
            m.lock(), m.lock(), m.unlock(), m.unlock();
            s.lock_shared(), this_co::yield(), s.unlock_shared();
            s.lock(), this_co::yield(), s.unlock();
            n.acquire(), this_co::yield(), n.release();
            co_call_once(once, [] { this_co::yield(); });
            l.count_down();
            l.wait();
            w.done();
            w.wait();
        };
        co c({with_bind_env(e[0])}, f), d({with_bind_env(e[1])}, f);
        c.join(), d.join();
        break;
    }
    case 14: // environments come and go
        for (int i = 0; i < 2; ++i)
        {
            co::create_env(false);
            mc::settle(100);
            for (int k = 0; k < 4; ++k)
                co_manager::instance()->timing_routine_timeout().pub();
            mc::settle(100);
        }
        break;
    case 15: // plain threads
        std::thread([] {}).join();
        break;
    }
}

constexpr int n_kinds = 16;

}

// Every kind of activity again and again: memory stays the same.
MC_SCENARIO(mem_growth, {.max_points = 2'000'000})
{
    co::set_max_schedule_thread_count(1);
    auto e = h::make_envs(2);
    int kind = mc::choose(n_kinds);
    mc::begin();
    size_t blocks = 0, bytes = 0, maps = 0, map_bytes = 0;
    for (int i = 0; i < 7; ++i)
    {
        cycle(kind, e);
        mc::settle(1000);
        nudge(e[0]);
        nudge(e[1]);
        mc::settle(1000);
        if (i == 3)
        {
            blocks = mc::live_heap_blocks();
            bytes = mc::live_heap_bytes();
            maps = mc::live_maps();
            map_bytes = mc::live_map_bytes();
        }
    }
    mc::end();
    MC_CHECK(mc::live_maps() <= maps && mc::live_map_bytes() <= map_bytes,
             "activity %d grows mapped memory: %zu mappings of %zu bytes, then %zu of %zu", kind, maps, map_bytes, mc::live_maps(), mc::live_map_bytes());
    MC_CHECK(mc::live_heap_blocks() <= blocks && mc::live_heap_bytes() <= bytes,
             "activity %d grows the heap: %zu blocks of %zu bytes, then %zu of %zu", kind, blocks, bytes, mc::live_heap_blocks(), mc::live_heap_bytes());
    MC_CHECK(owned::alive.get() == 0, "%d objects owned by coroutines that have ended are left", owned::alive.get());
}

// Objects and coroutines that live on are used again and again: nothing is left of each use.
MC_SCENARIO(mem_growth_kept, {.max_points = 2'000'000})
{
    auto e = h::make_envs(2);
    int kind = mc::choose(12);
    auto *stop = new h::cell<bool>;
    auto *m = new co_timed_mutex;
    auto *w = new co_shared_timed_mutex;
    auto *n = new co_counting_semaphore<4>(0);
    auto *cv = new co_condition_variable;
    auto *b = new co_barrier(2);
    auto *g = new co_wait_group(0);
    auto *ev = new co_event<int>;
    auto t = co_timer::create([] {}, co_expire_type::once, 30);
    auto loop = co_timer::create([] {}, co_expire_type::loop, 30);
    co_chan<int> ch(2), direct(0);
    co partner({with_bind_env(e[1])}, [=]() mutable {
        if (kind == 1)
            m->lock();
        if (kind == 2)
            w->lock();
        while (!stop->get())
            switch (kind)
            {
            case 5:
                ch.pop();
                break;
            case 6:
                direct.pop();
                break;
            case 7:
                for (int i = 0; i <= 40; ++i)
                    b->arrive_and_wait();
                return;
            default:
                this_co::sleep_for(20ms);
            }
    });
    auto use = [=, &partner]() mutable {
        switch (kind)
        {
        case 0:
            MC_CHECK(!partner.wait_for(20ms), "a timed wait succeeds before the end");
            break;
        case 1:
            if (m->try_lock_for(20ms)) // the partner does not have it yet
                m->unlock();
            break;
        case 2:
            if (w->try_lock_for(20ms))
                w->unlock();
            if (w->try_lock_shared_for(20ms))
                w->unlock_shared();
            break;
        case 3:
            MC_CHECK(!n->try_acquire_for(20ms), "a permit is taken that is not there");
            n->release();
            n->acquire();
            break;
        case 4: {
            co_mutex own;
            std::unique_lock l(own);
            cv->wait_for(l, 20ms);
            cv->notify_all();
            break;
        }
        case 5:
            ch.push(1);
            break;
        case 6:
            direct.push(1);
            break;
        case 7:
            b->arrive_and_wait();
            break;
        case 8:
            g->wait();
            break;
        case 9:
            ev->unsub(ev->sub([](int) {}));
            ev->pub(1);
            break;
        case 10:
            t->start(), t->reset(), t->stop(), t->start();
            loop->start();
            this_co::sleep_for(100ms);
            loop->stop();
            break;
        case 11:
            partner.ctx_set_priority(5);
            partner.ctx_set_priority(50);
            CoLocal(data, owned).v = 7;
            break;
        }
    };
    auto *blocks = new h::cell<long>, *bytes = new h::cell<long>, *more = new h::cell<long>, *more_bytes = new h::cell<long>;
    h::go(e[0], 0, [=]() mutable {
        for (int i = 0; i <= 40; ++i)
        {
            use();
            if (i == 8 || i == 40)
            {
                (i == 8 ? blocks : more)->set(mc::live_heap_blocks());
                (i == 8 ? bytes : more_bytes)->set(mc::live_heap_bytes());
            }
        }
        mc::mark();
        stop->set(true);
        ch.close(), direct.close();
    });
    mc::settle(60'000);
    h::expect_all(1, "the coroutine never finishes");
    // a container may hold one block more at one time than at another
    MC_CHECK(more->get() < blocks->get() + 24, "use %d grows the heap: %ld blocks of %ld bytes, then %ld of %ld", kind, blocks->get(), bytes->get(), more->get(),
             more_bytes->get());
    MC_CHECK(more_bytes->get() < bytes->get() + 4096, "use %d grows the heap: %ld blocks of %ld bytes, then %ld of %ld", kind, blocks->get(), bytes->get(), more->get(),
             more_bytes->get());
    mc::outcome(kind);
}

// There is no memory for a stack: the creation fails, leaves nothing, and the next one succeeds.
MC_SCENARIO(mem_no_memory, {})
{
    auto e = h::make_envs(2);
    bool shared = mc::choose(2), inside = mc::choose(2), bound = shared || mc::choose(2);
    auto attempt = [=] {
        size_t blocks = 0, bytes = 0, maps = 0;
        for (int i = 0; i < 4; ++i)
        {
            if (i == 1)
            {
                blocks = mc::live_heap_blocks();
                bytes = mc::live_heap_bytes();
                maps = mc::live_maps();
            }
            bool failed = false;
            mc::fail_maps(1);
            try
            {
                task t;
                co c({with_shared_stack(shared), with_bind_env(bound ? e[0] : nullptr)}, t, 0);
                c.join();
            }
            catch (std::runtime_error &)
            {
                failed = true;
            }
            MC_CHECK(failed, "the creation of a coroutine succeeds without memory for its stack");
        }
        MC_CHECK(owned::alive.get() == 0, "%d objects owned by coroutines whose creation failed are left", owned::alive.get());
        MC_CHECK(mc::live_heap_blocks() <= blocks && mc::live_heap_bytes() <= bytes && mc::live_maps() <= maps,
                 "a failed creation leaves memory: %zu blocks of %zu bytes, then %zu of %zu", blocks, bytes, mc::live_heap_blocks(), mc::live_heap_bytes());
        co c({with_shared_stack(shared), with_bind_env(bound ? e[0] : nullptr)}, task {}, 1);
        MC_CHECK(c.wait<owned>().v == 7, "a wait gives another result");
    };
    if (inside)
        h::go(e[1], 0, attempt)->join();
    else
        attempt();
    released(e[0]);
}

// Very many at the same time, all released.
MC_SCENARIO(mem_many, {.max_points = 60'000'000})
{
    auto e = h::make_envs(2);
    int n = h::many();
    int shared = mc::choose(3), way = mc::choose(3); // detached, joined, dropped
    nudge(e[0]);
    nudge(e[1]);
    auto maps = mc::live_maps();
    std::vector<co *> all;
    for (int i = 0; i < n; ++i)
    {
        all.push_back(new co({with_bind_env(e[i & 1]), with_shared_stack(shared == 0 || (shared == 1 && i % 3 == 0))}, [o = owned()] {
            this_co::yield();
            return o;
        }));
        if (way == 0)
            all.back()->detach();
    }
    mc::settle(600'000);
    for (auto *c : all)
    {
        if (way == 1)
            c->join();
        delete c;
    }
    nudge(e[0]);
    nudge(e[1]);
    mc::settle(600'000);
    MC_CHECK(owned::alive.get() == 0, "%d things owned by coroutines are not released", owned::alive.get());
    MC_CHECK(mc::live_maps() <= maps + 4, "%lld mappings are left after the end of %d coroutines", (long long)(mc::live_maps() - maps), n);
}

// Plain threads that come, use an object and go, one after another; for comparison ones that do not use the library.
MC_SCENARIO(mem_threads, {})
{
    bool use = mc::choose(2);
    auto *m = new co_mutex;
    size_t blocks = 0, bytes = 0;
    for (int i = 0; i < 12; ++i)
    {
        if (i == 8)
            blocks = mc::live_heap_blocks(), bytes = mc::live_heap_bytes();
        std::thread t([=] {
            if (use)
                m->lock(), m->unlock();
        });
        t.join();
    }
    MC_CHECK(use || (mc::live_heap_blocks() <= blocks && mc::live_heap_bytes() <= bytes), "threads that do not use the library grow the heap");
    MC_CHECK(mc::live_heap_blocks() <= blocks && mc::live_heap_bytes() <= bytes, "plain threads that have used a lock and ended leave memory");
}
