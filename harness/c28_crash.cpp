// C28: a fatal signal ends the process with a report.
#include "common.h"

#include <climits>
#include <cocpp/exception/co_exception.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

namespace
{

char *report;
size_t report_size;
FILE *out;
int fatal = SIGTERM;

// What the library has left in the buffer of the file is written at a regular end only.
void ends(int status, bool regular)
{
    MC_CHECK(status != 0, "the process ends after a fatal signal as if all were well");
    mc::quiet q;
    if (regular)
        fflush(out);
    char line[32];
    snprintf(line, sizeof line, "signal %d\n", fatal);
    MC_CHECK(report && strstr(report, line) && strstr(report, "co info end"), "the process ends without a complete report");
    char path[PATH_MAX + 8] = "exe:";
    ssize_t n = readlink("/proc/self/exe", path + 4, PATH_MAX);
    MC_CHECK(n < 0 || strstr(report, (path[4 + n] = '\n', path)), "the report does not name the program");
}

void at_exit(int status, void *)
{
    ends(status, true);
}

[[noreturn]] void signal_comes()
{
    mc::raise_signal(fatal);
    mc::fail("the handling of a fatal signal returns");
}

// The monitor sleeps until late, but not for ever: the end of the process waits for it.
std::vector<co_env *> prepare(int n)
{
    co::set_timer_tick_duration(20s);
    co::set_base_schedule_thread_count(1);
    std::vector<co_env *> e;
    for (int i = 0; i < n; ++i)
        e.push_back(co::create_env(true));
    mc::quiesce();
    out = open_memstream(&report, &report_size);
    set_exec_file(out);
    on_exit(at_exit, nullptr);
    mc::on_quick_exit = [](int status) { ends(status, false); };
    return e;
}

// The process has to end meanwhile.
[[noreturn]] void watch()
{
    mc::begin();
    mc::settle(600'000);
    mc::fail("the process does not end after a fatal signal");
}

}

// In a coroutine, while another environment does something.
MC_SCENARIO(crash_coroutine, {})
{
    auto e = prepare(2);
    int what = mc::choose(5);
    auto *m = new co_mutex;
    auto *timer = new std::shared_ptr<co_timer>(co_timer::create([] {}, co_expire_type::loop, 100));
    h::go(e[0], 0, [=] {
        this_co::yield();
        signal_comes();
    });
    h::go(e[1], 1, [=] {
        switch (what)
        {
        case 0:
            this_co::sleep_for(100ms);
            break;
        case 1:
            (*timer)->start();
            (*timer)->stop();
            break;
        case 2: {
            co c([] { this_co::yield(); });
            c.detach();
            break;
        }
        case 3: {
            std::scoped_lock lk(*m);
            this_co::yield();
            break;
        }
        default: {
            co c({with_bind_env(e[1])}, [] { this_co::yield(); });
            c.wait_for(100ms);
            break;
        }
        }
    });
    watch();
}

// In a plain thread, with or without an environment, or in the function of a timer.
MC_SCENARIO(crash_elsewhere, {})
{
    auto e = prepare(1);
    int where = mc::choose(4);
    auto *timer = new std::shared_ptr<co_timer>;
    h::go(e[0], 0, [] {
        for (int i = 0; i < 3; ++i)
            this_co::yield();
        this_co::sleep_for(100ms);
    });
    mc::begin();
    switch (where)
    {
    case 0:
        signal_comes();
    case 1:
        std::thread([] { signal_comes(); }).detach();
        break;
    case 2:
        std::thread([] {
            this_co::yield();
            signal_comes();
        }).detach();
        break;
    default:
        *timer = co_timer::create([] { signal_comes(); }, co_expire_type::once, 100);
        (*timer)->start();
    }
    watch();
}

// While others wait in all kinds of places.
MC_SCENARIO(crash_waiting, {})
{
    auto e = prepare(2);
    int what = mc::choose(4);
    bool shared = mc::choose(2);
    auto *s = new co_binary_semaphore(0);
    auto *ch = new co_chan<int>(0);
    for (int k = 0; k < 2; ++k)
    {
        auto *c = new co({with_bind_env(e[k]), with_shared_stack(shared)}, [=] {
            switch (what)
            {
            case 0:
                s->acquire();
                break;
            case 1:
                ch->push(1);
                break;
            case 2:
                this_co::sleep_for(100ms);
                break;
            default:
                CoLocal(number, int) = 1;
                this_co::yield();
            }
        });
        c->detach();
    }
    if (mc::choose(2))
        mc::quiesce();
    h::go(e[0], 0, [] { signal_comes(); });
    watch();
}

// Each of the signals that end a process.
MC_SCENARIO(crash_signals, {})
{
    constexpr int all[] = {SIGHUP, SIGINT, SIGTERM, SIGQUIT, SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGSYS, SIGXCPU, SIGXFSZ};
    fatal = all[mc::choose(std::size(all))];
    auto e = prepare(2);
    bool plain = mc::choose(2);
    h::go(e[0], 0, [=] {
        this_co::yield();
        if (!plain)
            signal_comes();
    });
    mc::begin();
    if (plain)
        signal_comes();
    watch();
}

// Two threads at the same time: the report of the first one is complete.
MC_SCENARIO(crash_two, {})
{
    auto e = prepare(2);
    bool plain = mc::choose(2);
    h::go(e[0], 0, [] { signal_comes(); });
    if (!plain)
        h::go(e[1], 1, [] { signal_comes(); });
    mc::begin();
    if (plain)
        signal_comes();
    watch();
}

// The thread is made to switch to another coroutine while it writes the report.
MC_SCENARIO(crash_preempted, {})
{
    auto e = prepare(1);
    int what = mc::choose(3), k = 1 + 50 * mc::choose(16) + mc::choose(50);
    h::go(e[0], 0, [=] {
        mc::signal_after(k);
        signal_comes();
    });
    h::go(e[0], 1, [=] {
        if (what == 2)
            signal_comes();
        for (int i = 0; i < 3; ++i)
            this_co::yield();
        if (what == 1)
            this_co::sleep_for(100ms);
    });
    watch();
}

// In code of the user that the library calls: destructors, handlers, copies, conditions.
struct fatal_end
{
    bool armed = false;
    fatal_end() = default;
    fatal_end(const fatal_end &) = default;
    fatal_end(fatal_end &&o) noexcept
        : armed(std::exchange(o.armed, false))
    {
    }
    fatal_end &operator=(fatal_end &&o) noexcept
    {
        armed = std::exchange(o.armed, false);
        return *this;
    }
    ~fatal_end()
    {
        if (armed)
            signal_comes();
    }
};

MC_SCENARIO(crash_called, {})
{
    auto e = prepare(2);
    int what = mc::choose(7);
    bool shared = mc::choose(2), detach = mc::choose(2);
    auto *m = new co_mutex;
    auto *cv = new co_condition_variable;
    auto *once = new co_once_flag;
    auto state = std::make_shared<fatal_end>();
    state->armed = what == 0;
    auto *c = new co({with_bind_env(e[0]), with_shared_stack(shared)}, [what, m, cv, once, state = std::move(state)] {
        this_co::yield();
        if (what == 1)
        {
            CoLocal(last, fatal_end).armed = true;
        }
        if (what == 2)
        {
            std::unique_lock lk(*m);
            cv->wait(lk, [] { signal_comes(); return true; });
        }
        if (what == 3)
            co_call_once(*once, [] { signal_comes(); });
        fatal_end r;
        r.armed = what == 4;
        auto p = std::make_shared<fatal_end>(std::move(r));
        return p;
    });
    state.reset();
    if (what == 5)
        c->ctx_finished().sub([] { signal_comes(); });
    h::go(e[1], 0, [=] {
        this_co::yield();
        if (what == 6)
        {
            co d({with_bind_env(e[1])}, [] {});
            d.ctx_finished().sub([] { signal_comes(); });
            d.join();
            signal_comes();
        }
        this_co::sleep_for(100ms);
    });
    mc::begin();
    if (detach)
        c->detach();
    else
        c->wait<std::shared_ptr<fatal_end>>();
    delete c;
    for (int i = 1; i < 4; ++i)
    {
        mc::settle(1000);
        try
        {
            h::go(e[0], i, [] {}); // the environment wakes up and clears away what is over
        }
        catch (const std::exception &) // the process is about to end
        {
        }
    }
    watch();
}
