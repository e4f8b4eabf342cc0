// C14: pipelines compute what the sequential program would, and end.
#include "common.h"

namespace
{

using items = std::vector<int>;

// Every stage of every pipeline has ended: no coroutine is left in the environments.
void all_ended(const std::vector<co_env *> &envs)
{
    mc::settle(1000);
    for (auto *e : envs)
    {
        auto *left = new h::cell<int>;
        left->set(-1);
        co c({with_bind_env(e)}, [=] {
            this_co::yield(); // finished coroutines are removed
            left->set((int)e->ctx_count() - 1);
        });
        mc::settle(1000);
        MC_CHECK(left->get() >= 0, "an environment is stuck after the end of a pipeline");
        MC_CHECK(left->get() == 0, "%d stages are left after the end of a pipeline", left->get());
        c.join();
    }
}

enum stage
{
    MAP,
    ODD,
    NONE,
    TAKE0,
    TAKE2,
    SKIP1,
    SKIP9,
    GROUP2,
    REDUCE,
    FORK1,
    STAGES
};

constexpr auto inc = [](int x) { return x + 1; };

struct walker
{
    int v;
    int operator*() const { return v; }
    walker &operator++()
    {
        ++v;
        return *this;
    }
    bool operator!=(const walker &o) const { return v != o.v; }
};

items model(stage s, const items &in)
{
    items out;
    int sum = 100;
    for (size_t i = 0; i < in.size(); ++i)
    {
        int x = in[i];
        switch (s)
        {
        case MAP:
        case FORK1:
            out.push_back(x + 1);
            break;
        case ODD:
            if (x & 1)
                out.push_back(x);
            break;
        case TAKE2:
            if (i < 2)
                out.push_back(x);
            break;
        case SKIP1:
            if (i >= 1)
                out.push_back(x);
            break;
        case GROUP2:
            if (i & 1)
                out.push_back(in[i - 1] * 10 + x);
            break;
        case REDUCE:
            sum = sum * 3 + x;
            break;
        default:
            break;
        }
    }
    if (s == REDUCE)
        out.push_back(sum);
    return out;
}

void finish(co_pipeline<int> &p, const items &want)
{
    auto got = p | pipeline::to<items>();
    MC_CHECK(got.size() == want.size(), "a pipeline yields %zu items instead of %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i)
        MC_CHECK(got[i] == want[i], "item %zu of a pipeline is %d instead of %d", i, got[i], want[i]);
    mc::outcome(want.size());
    for (int x : want)
        mc::outcome(x);
}

// Any sequence of up to D stages, then the sink.
template <int D>
void build(co_pipeline<int> &p, const items &in)
{
    if constexpr (D > 0)
    {
        int s = mc::choose(STAGES + 1);
        if (s < STAGES)
        {
            auto next = [&](auto op) {
                auto q = p | op;
                build<D - 1>(q, model((stage)s, in));
            };
            switch (s)
            {
            case MAP:
                return next(inc);
            case ODD:
                return next(pipeline::filter([](int x) { return (x & 1) != 0; }));
            case NONE:
                return next(pipeline::filter([](int) { return false; }));
            case TAKE0:
                return next(pipeline::take(0));
            case TAKE2:
                return next(pipeline::take(2));
            case SKIP1:
                return next(pipeline::skip(1));
            case SKIP9:
                return next(pipeline::skip(9));
            case GROUP2:
                return next(pipeline::group(2, [](const items &v) { return v[0] * 10 + v[1]; }));
            case REDUCE:
                return next(pipeline::reduce([](int a, int b) { return a * 3 + b; }, 100));
            case FORK1:
                return next(pipeline::fork(1, inc));
            }
        }
    }
    finish(p, in);
}

struct counting
{
    int n {0}, end;
    std::optional<int> operator()()
    {
        if (n == end)
            return std::nullopt;
        return n++;
    }
};

items upto(int n)
{
    items v;
    for (int i = 0; i < n; ++i)
        v.push_back(i);
    return v;
}

}

// All pipelines of up to two stages over inputs of 0..4 items, for every kind of source and channel size.
MC_SCENARIO(pipe_programs, {.max_points = 400'000})
{
    auto e = h::make_envs(1);
    int size = mc::choose(4) - 1;
    int kind = mc::choose(4);
    int n = mc::choose(5);
    auto v = upto(n);
    switch (kind)
    {
    case 0: {
        co_pipeline<int> p(v, size);
        build<2>(p, v);
        break;
    }
    case 1: {
        co_pipeline<int> p(counting {0, n}, size);
        build<2>(p, v);
        break;
    }
    case 2: {
        co_pipeline<int> p(walker {0}, walker {n}, size);
        build<2>(p, v);
        break;
    }
    default: {
        co_pipeline<int> p(0, n, 1, size);
        build<2>(p, v);
        break;
    }
    }
    all_ended(e);
}

// All pipelines of three stages over one input.
MC_SCENARIO(pipe_deep, {.max_points = 400'000})
{
    auto e = h::make_envs(1);
    auto v = upto(4);
    int size = mc::choose(2) ? 1 : -1;
    {
        co_pipeline<int> p(v, size);
        build<3>(p, v);
    }
    all_ended(e);
}

// An input without end, bounded channel, a stage, and a consumer that stops: everything ends.
MC_SCENARIO(pipe_stop, {.max_points = 400'000})
{
    auto e = h::make_envs(1);
    int size = mc::choose(3);
    int s = mc::choose(6);
    int how = mc::choose(2);
    {
        co_pipeline<int> src([n = 0]() mutable -> std::optional<int> { return n++; }, size);
        auto stop = [&](auto &&q, int first, int step) {
            if (how)
            {
                auto r = q | pipeline::take(2) | pipeline::to<items>();
                MC_CHECK(r.size() == 2 && r[0] == first && r[1] == first + step, "a pipeline that stops early yields something else");
            }
            else
            {
                auto ch = q | pipeline::chan();
                auto x = ch.pop();
                MC_CHECK(x && *x == first, "a pipeline that stops early yields something else");
                ch.close();
            }
        };
        switch (s)
        {
        case 0:
            stop(src | inc, 1, 1);
            break;
        case 1:
            stop(src | pipeline::filter([](int x) { return (x & 1) != 0; }), 1, 2);
            break;
        case 2:
            stop(src | pipeline::skip(3), 3, 1);
            break;
        case 3:
            stop(src | pipeline::group(2, [](const items &v) { return v[0] + v[1]; }), 1, 4);
            break;
        case 4:
            stop(src | pipeline::fork(1, inc), 1, 1);
            break;
        default:
            stop(src | inc | inc, 2, 1);
            break;
        }
    }
    all_ended(e);
}

// Parallel stages: the same items in any order.
MC_SCENARIO(pipe_fork, {})
{
    auto e = h::make_envs(2);
    int size = mc::choose(2) ? 1 : -1;
    mc::begin();
    {
        co_pipeline<int> p(upto(3), size);
        auto r = p | pipeline::fork(2, inc) | pipeline::to<items>();
        MC_CHECK(r.size() == 3, "a forked pipeline yields %zu of 3 items", r.size());
        int sum = 0;
        for (int x : r)
            sum |= 1 << x;
        MC_CHECK(sum == 14, "a forked pipeline yields other items");
    }
    mc::end();
    all_ended(e);
}

// Stages running in two environments, all interleavings.
MC_SCENARIO(pipe_schedules, {})
{
    auto e = h::make_envs(2);
    int size = mc::choose(2) ? 1 : -1;
    auto v = upto(4);
    mc::begin();
    {
        co_pipeline<int> p(v, size);
        auto q = p | pipeline::skip(1) | inc | pipeline::take(2);
        finish(q, {2, 3});
    }
    mc::end();
    all_ended(e);
}

// Temporary input.
MC_SCENARIO(pipe_temporary, {})
{
    auto e = h::make_envs(1);
    int kind = mc::choose(3);
    mc::begin();
    auto go = [](auto &&q) {
        volatile char junk[512];
        for (auto &x : junk)
            x = 0x5a;
        finish(q, {1, 2, 3});
    };
    switch (kind)
    {
    case 0:
        go(co_pipeline<int>(items {0, 1, 2}) | inc);
        break;
    case 1:
        go(items {0, 1, 2} | pipeline::stream() | inc);
        break;
    default: {
        auto make = [](int k) { return co_pipeline<int> {k, k + 1, k + 2}; };
        go(make(0) | inc);
    }
    }
    mc::end();
    all_ended(e);
}

// Very many items through all kinds of stages.
MC_SCENARIO(pipe_many, {.max_points = 60'000'000})
{
    auto e = h::make_envs(1 + mc::choose(2));
    int n = h::many();
    constexpr int sizes[] = {-1, 0, 1, 64};
    int size = sizes[mc::choose(4)];
    auto v = upto(n);
    {
        co_pipeline<int> p(v, size);
        auto r = p | inc | pipeline::filter([](int x) { return x % 3 != 0; }) | pipeline::skip(5) | inc | pipeline::take((size_t)n / 2) | pipeline::to<items>();
        items expected;
        int skipped = 0;
        for (int x : v)
            if ((x + 1) % 3 != 0 && ++skipped > 5 && (int)expected.size() < n / 2)
                expected.push_back(x + 2);
        MC_CHECK(items(r.begin(), r.end()) == expected, "a pipeline of many items yields something else");
    }
    all_ended(e);
}
