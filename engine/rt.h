// Shared between the runtime (rt.cpp) and the explorer (explore.cpp).
#pragma once
#include "mc.h"
#include <cstdint>

namespace mc
{
scenario *scenarios();
}

namespace rt
{

constexpr int MAXT = 24;       // OS threads in one execution
constexpr int MAXDEV = 96;     // deviations and data choices in one schedule
constexpr uint32_t MAXCP = 60000;
constexpr uint32_t PCSET_N = 1 << 13;

enum status
{
    ST_NONE,
    ST_OK,
    ST_PRUNED,
    // violations
    ST_FAIL,
    ST_DEADLOCK,
    ST_LIVELOCK,
    ST_CRASH,
    ST_UAF,
    ST_TIMEOUT,
    // the engine itself is wrong
    ST_DIVERGED,
    ST_INTERNAL,
};

enum
{
    CP_SCHED,
    CP_DATA,
};

// A choice point met by an execution.
struct cp
{
    uint32_t hash;  // happens-before state hash
    uint32_t alts;  // other threads that could have been chosen
    uint32_t timed; // those of them that need time to pass first
    uint64_t pc;    // code location of the default thread's pending operation
    uint8_t def;
    uint8_t type;
    uint8_t n; // data choice: number of values
};

struct deviation
{
    uint32_t pos;
    uint32_t hash;
    uint8_t val;
    uint8_t cost;
};

struct run_cfg
{
    uint32_t ndev {0};
    deviation dev[MAXDEV];
    uint32_t first_free {0};
    uint32_t budget {0}; // deviations still allowed below this schedule
    bool race {false};
    bool prune {false};
    bool trace {false};
};

struct run_buf
{
    int status;
    int early;
    uint32_t ncp, npoints, pruned_at, nth;
    uint64_t naccess, outcome, now;
    char msg[512];
    char dump[3000];
    cp cps[MAXCP];
};

struct shared
{
    uint64_t confl[PCSET_N]; // code locations operating on objects shared between threads
    uint64_t confl_frozen[PCSET_N];
    uint64_t racy[PCSET_N]; // code locations of unsynchronised accesses
    uint64_t racy_frozen[PCSET_N];
    uint8_t racy_bloom[65536];
    uint32_t nconfl, nracy;
};

extern shared *sh;

bool visit(uint64_t hash, uint32_t budget); // false: already explored with at least this budget
void conflict_pc_add(uint64_t pc);
void racy_pc_add(uint64_t pc);
void last_pc_note(uint64_t obj, uint64_t pc);
bool pcset_has(const uint64_t *set, uint64_t pc);
[[noreturn]] void die(int status, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish(int status);
[[noreturn]] void run_child(const mc::scenario *s, const run_cfg &c, run_buf *b);

}
