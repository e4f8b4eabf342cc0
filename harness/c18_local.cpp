// C18: coroutine-local variables are private, persistent, and destroyed with their coroutine.
#include "common.h"

namespace
{

struct census
{
    h::cell<int> made, gone;
};
census *counts;

// A value that knows how many of it exist.
struct tracked
{
    int v {0};
    uint64_t alive {0x600d600d600d600dULL};
    tracked()
    {
        counts->made.add(1);
    }
    tracked(const tracked &) = delete;
    ~tracked()
    {
        MC_CHECK(alive == 0x600d600d600d600dULL, "a coroutine-local variable is destroyed twice");
        alive = 0;
        counts->gone.add(1);
    }
};

int &number() { return CoLocal(number, int); }
std::string &text() { return CoLocal(text, std::string); }
tracked &object() { return CoLocal(object, tracked); }
int &other() { return CoLocal(other, int); }

// Uses all the variables, with suspensions in between.
void use(int k, int rounds = 2)
{
    MC_CHECK(number() == 0 && other() == 0 && text().empty() && object().v == 0, "a coroutine-local variable does not start from its initial value");
    auto *first = &object();
    for (int i = 1; i <= rounds; ++i)
    {
        number() = k * 100 + i;
        text() = std::string(30, (char)('a' + k)) + std::to_string(i);
        this_co::yield();
        other() = -(k * 100 + i);
        object().v = k + i;
        this_co::yield();
        MC_CHECK(number() == k * 100 + i && other() == -(k * 100 + i), "a coroutine-local number changed (%d %d)", number(), other());
        MC_CHECK(text() == std::string(30, (char)('a' + k)) + std::to_string(i), "a coroutine-local string changed");
        MC_CHECK(object().v == k + i && &object() == first, "a coroutine-local object changed");
    }
}

void all_gone(int n)
{
    MC_CHECK(counts->made.get() == n && counts->gone.get() == n, "%d instances were made and %d destroyed, for %d coroutines", counts->made.get(), counts->gone.get(), n);
}

// Two turns of the environment: finished coroutines are removed.
void sweep(co_env *e)
{
    co c({with_bind_env(e)}, [] {
        this_co::yield();
        this_co::yield();
    });
    c.join();
    mc::quiesce();
}

}

MC_SCENARIO(local_two_envs, {})
{
    counts = new census;
    auto e = h::make_envs(2);
    std::vector<co *> c;
    for (int i = 0; i < 2; ++i)
        c.push_back(h::go(e[i], i, [=] { use(i); }));
    h::run(2);
    for (auto *x : c)
        delete x;
    for (auto *x : e)
        sweep(x);
    all_gone(2);
}

MC_SCENARIO(local_same_env, {})
{
    counts = new census;
    auto e = h::make_envs(1);
    int n = 2 + mc::choose(2);
    bool shared = mc::choose(2), detach = mc::choose(2);
    std::vector<co *> c;
    for (int i = 0; i < n; ++i)
    {
        c.push_back(new co({with_bind_env(e[0]), with_shared_stack(shared)}, [=] {
            use(i, 1 + i);
            h::finish(i);
        }));
        if (detach)
            c.back()->detach();
    }
    mc::quiesce();
    h::expect_all(n, "a participant never finishes");
    for (auto *x : c)
        delete x;
    sweep(e[0]);
    all_gone(n);
}

// The handle keeps the coroutine, and its variables, until it goes away.
MC_SCENARIO(local_kept, {})
{
    counts = new census;
    auto e = h::make_envs(1);
    auto *c = h::go(e[0], 0, [] { use(3, 1); });
    h::run(1);
    sweep(e[0]);
    MC_CHECK(counts->gone.get() == 0, "coroutine-local variables are destroyed while a handle keeps the coroutine");
    delete c;
    sweep(e[0]);
    all_gone(1);
}

// A plain thread has its own set, apart from that of a coroutine running meanwhile.
MC_SCENARIO(local_thread, {})
{
    counts = new census;
    auto e = h::make_envs(1);
    number() = 77;
    text() = "outside";
    mc::begin();
    auto *c = h::go(e[0], 0, [] { use(1); });
    std::thread t([] {
        MC_CHECK(number() == 0 && text().empty(), "a coroutine-local variable does not start from its initial value");
        number() = 78;
        text() = "thread";
        this_co::yield();
        MC_CHECK(number() == 78 && text() == "thread", "a variable of a plain thread changed");
    });
    t.join();
    c->join();
    mc::end();
    MC_CHECK(number() == 77 && text() == "outside", "a variable of a plain thread changed");
    h::expect_all(1, "a participant never finishes");
}

// Different types, many names: a linear history against a plain map.
MC_SCENARIO(local_names, {})
{
    counts = new census;
    auto e = h::make_envs(2);
    auto *turn = new h::cell<int>;
    auto *model = new int[2][3] {};
    int depth = 5;
    std::vector<int> script;
    for (int i = 0; i < depth; ++i)
        script.push_back(mc::choose(6));
    bool same = mc::choose(2);
    auto value = [](int name) -> int & {
        switch (name)
        {
        case 0:
            return CoLocal(a, int);
        case 1:
            return CoLocal(b, int);
        default:
            return CoLocal(ab, int);
        }
    };
    for (int k = 0; k < 2; ++k)
        h::go(e[same ? 0 : k], k, [=] {
            while (turn->get() < depth)
            {
                int op = script[turn->get()];
                if (op % 2 == k)
                {
                    value(op / 2) += turn->get() + 1;
                    model[k][op / 2] += turn->get() + 1;
                    turn->add(1);
                }
                for (int n = 0; n < 3; ++n)
                    MC_CHECK(value(n) == model[k][n], "variable %d of coroutine %d is %d instead of %d", n, k, value(n), model[k][n]);
                this_co::yield();
            }
        });
    mc::quiesce();
    h::expect_all(2, "a participant never finishes");
}

namespace
{

void generations(bool inside)
{
    counts = new census;
    auto e = h::make_envs(1);
    auto body = [=] {
        for (int i = 0; i < 4; ++i)
        {
            bool shared = mc::choose(2), detach = mc::choose(2);
            co c({with_bind_env(e[0]), with_shared_stack(shared)}, [=] {
                use(i, 1);
                h::finish(i);
            });
            if (detach)
                c.detach();
            else
                c.join();
            if (inside)
                this_co::sleep_for(100ms);
            else
                mc::quiesce();
            h::expect_all(i + 1, "a participant never finishes");
            if (mc::choose(2))
                co({with_bind_env(e[0])}, [] { this_co::yield(); this_co::yield(); }).join();
        }
    };
    if (inside)
    {
        co c({with_bind_env(e[0])}, [=] {
            body();
            h::finish(4);
        });
        c.join();
        h::expect_all(5, "a participant never finishes");
    }
    else
        body();
    sweep(e[0]);
    all_gone(4);
}

}

// One coroutine after the other, in the memory of those before.
MC_SCENARIO(local_generations, {.reuse = 1})
{
    generations(false);
}
MC_SCENARIO(local_generations_arena, {.reuse = 2})
{
    generations(false);
}
MC_SCENARIO(local_generations_inside, {.reuse = 1})
{
    generations(true);
}

namespace
{

template <int... K>
std::array<int *, sizeof...(K)> many_values(std::integer_sequence<int, K...>)
{
    auto get = []<int N>(std::integral_constant<int, N>) { return &co::current_env()->current_ctx()->local_storage<int>((N % 2 ? "" : "a name that begins like the others and goes on for a while before it ends with ") + std::to_string(N)); };
    return {get(std::integral_constant<int, K> {})...};
}

}

// Very many names in very many coroutines.
MC_SCENARIO(local_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1 + mc::choose(2));
    int n = std::min(h::many(), 100);
    x->add(n, [=](int i) {
        auto get = [] { return many_values(std::make_integer_sequence<int, 100>()); };
        auto v = get();
        for (int k = 0; k < 100; ++k)
        {
            MC_CHECK(*v[k] == 0, "a coroutine-local variable does not start with its initial value");
            *v[k] = i * 1000 + k;
        }
        this_co::yield();
        auto w = get();
        for (int k = 0; k < 100; ++k)
            MC_CHECK(*w[k] == i * 1000 + k, "a coroutine-local variable loses its value");
    });
    x->all("one of many never finishes");
}
