// Harness-side interface of the controlled scheduler (engine/rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>

namespace mc
{

struct options
{
    int cpus {1};                     // what std::thread::hardware_concurrency() answers
    uint64_t tick_ns {2'000'000};     // virtual time consumed by one clock read
    uint32_t quantum {600};           // scheduling points before an involuntary (free) time slice end
    uint32_t max_points {200'000};    // more points than this in one execution is a livelock
    bool run_exit {false};            // leave through exit(), so that static destructors are explored
    bool allow_unlock_race {false};
    int reuse {0};                    // freed heap memory is handed out again, last freed first, to 1: the thread that freed it, 2: the one it came from; uses of freed memory show only until then
};

using body_fn = void (*)();

struct scenario
{
    const char *name;
    body_fn body;
    options opt;
    scenario *next;
    scenario(const char *n, options o, body_fn b);
};

// Exploration region: scheduling alternatives are enumerated between begin() and end().
void begin();
void end();

// Oracle.
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...)        \
    do                             \
    {                              \
        if (!(cond))               \
            mc::fail(__VA_ARGS__); \
    } while (0)

// Folds a value into the outcome signature of this execution (reported as distinct outcomes).
void outcome(uint64_t v);

// Enumerated data nondeterminism: every value in [0,n) is explored, at no deviation cost.
int choose(int n);

// Marks an observable step: a scheduling point ordered with all the other marks.
// Returns the position of the mark in the execution.
int mark();
// The same without a scheduling point.
int stamp();

// Blocks the calling OS thread in virtual time until `ms` passed *and* nothing else can run.
void settle(uint64_t ms);
// Blocks the calling OS thread until no other thread can run without time passing.
void quiesce();
// Blocks the calling OS thread in virtual time (a blocking system call).
void block_ms(uint64_t ms);
// Virtual clock, not advanced by reading it.
uint64_t now_ns();
// Advance the virtual clock.
void advance_ns(uint64_t ns);

// Model id of the running OS thread.
int tid();
// Suppress scheduling points inside a scope (oracle bookkeeping).
struct quiet
{
    quiet();
    ~quiet();
};

// Accounting of memory obtained by mmap and heap in this execution.
size_t live_maps();
size_t live_map_bytes();
size_t live_heap_bytes();
size_t live_heap_blocks();
// The next mappings, as many as this, fail for lack of memory.
void fail_maps(int n);
// Number of forced-scheduling signals sent so far.
int signals_sent();
// The calling OS thread gets a forced-scheduling signal at its n-th memory access or operation from now; 0 = no more.
void signal_after(int accesses);
// The calling OS thread is held up in virtual time at its n-th scheduling point from now; 0 = no more.
void stall_after(int points, uint64_t ms);
// The calling OS thread gets this signal now (SIGTERM or SIGPIPE, whose handlers are the library's).
void raise_signal(int sig);
// Number of mutexes the calling OS thread holds.
int held();

// Judges an end of the process that skips its end actions (_exit); without it every such end is a violation.
extern void (*on_quick_exit)(int status);

// Replacement of system calls: when set, calls with fd >= 1000 go to it.
struct sys_hooks
{
    long (*call)(const char *name, int fd, void *a, size_t n, long b, void *c) {nullptr};
    long extra {0}; // a further argument of the call: the length of an address or option
};
extern sys_hooks sys;

}

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b)  MC_CAT2(a, b)
#define MC_SCENARIO(nm, ...)                                            \
    static void MC_CAT(mc_body_, nm)();                                 \
    static mc::scenario MC_CAT(mc_scn_, nm)(#nm, mc::options __VA_ARGS__, MC_CAT(mc_body_, nm)); \
    static void MC_CAT(mc_body_, nm)()
