// Controlled scheduler and execution runtime.
//
// The code under test (cocpp plus the harness) is compiled with -fsanitize=thread but linked against
// this file instead of libtsan: every memory access and every atomic operation calls into us.  The
// pthread, clock, sleep, futex, signal, mmap and malloc entry points are replaced by the definitions
// below, so all OS threads of the program run one at a time, under a baton that this file hands over,
// in virtual time.  One execution = one forked child = one schedule, given as a list of deviations
// from a deterministic default scheduler.  explore.cpp enumerates the schedules.
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <exception>
#include <initializer_list>
#include <new>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x)   __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define RETPC() ((uint64_t)__builtin_return_address(0))

static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

namespace rt
{

// ------------------------------------------------------------------ memory regions
constexpr uint64_t HEAP_BASE = 0x200000000000ULL;
constexpr uint64_t ARENA_SZ = 1ULL << 30;
constexpr uint64_t SHADOW_BASE = 0x300000000000ULL;
constexpr uint64_t MAP_BASE = 0x400000000000ULL;
constexpr uint64_t MAP_SZ = 1ULL << 34;
constexpr uint64_t STACK_BASE = 0x500000000000ULL;
constexpr uint64_t STACK_SZ = 2ULL << 20;
constexpr int NARENA = MAXT + 1; // the last one serves the time before the model is active
constexpr uint64_t HEAP_END = HEAP_BASE + ARENA_SZ * NARENA;

static bool heap_ready;
static uint64_t heap_top[NARENA];
static uint64_t map_top[MAXT];

size_t n_maps, n_map_bytes, n_heap_bytes, n_heap_blocks;

// ------------------------------------------------------------------ threads
enum pend : uint8_t
{
    P_NONE,
    P_RUN,
    P_LOCK,
    P_COND,
    P_JOIN,
    P_SLEEP,
    P_FUTEX,
    P_ONCE,
    P_SETTLE,
    P_QUIESCE,
    P_RDLOCK,
    P_WRLOCK,
    P_SEM,
    P_DONE,
};
static const char *pend_name[] = {"none", "run", "lock", "cond", "join", "sleep", "futex", "once", "settle", "quiesce", "rdlock", "wrlock", "sem", "done"};

struct thread
{
    int go; // futex word: 1 = has the baton
    bool used, finished, yielding, nojump;
    pend pk;
    uint64_t pobj;
    uint64_t pmutex;
    uint64_t ppc;
    uint64_t deadline; // 0 = none
    bool woken;
    uint64_t wseq;
    uint64_t h; // happens-before history hash
    uint32_t run_len;
    uint32_t clock_reads; // since the thread was given the processor
    uint64_t spin_addr, spin_val;
    uint32_t spin_n;
    int sigpend;
    int sigcount; // accesses until a signal is delivered
    int stallcount; // scheduling points until the thread is held up
    uint64_t stall_ns, stall_end; // somebody who spins meanwhile does not let time pass
    int held;     // mutexes
    void *(*fn)(void *);
    void *arg;
    void *ret;
    pthread_t real;
    uint32_t vc[MAXT];
};

static thread th[MAXT];
static int nth;
static int cur = -1;
static bool active;
static bool in_region;
static int quiet_depth;
static uint64_t now_v;
static uint64_t wseq;
static uint32_t npoints, ncp;
static uint64_t naccess;
static uint32_t mark_no;
static uint64_t out_sig;
static int nsig;
static uint32_t dev_i;
static const mc::scenario *scn;
static run_cfg cfg;
static run_buf *rb;
shared *sh;

static uint64_t const CLOCK_OBJ = 0x10, MARK_OBJ = 0x20, CREATE_OBJ = 0x30;

// ------------------------------------------------------------------ hashing
static inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2));
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebULL;
    x ^= x >> 31;
    return x;
}

struct objrec
{
    uint64_t addr;
    uint64_t hw; // hash of the last write
    uint64_t hr; // commutative hash of the reads since
    uint32_t tmask, wmask;
    uint32_t nvc; // index of its vector clock, race mode
};
constexpr uint32_t OBJ_N = 1 << 15;
static objrec objs[OBJ_N];
static uint32_t nobj;

static uint32_t (*vcs)[MAXT];
static uint32_t nvcs;

static objrec *obj_of(uint64_t a)
{
    uint32_t i = (uint32_t)(mix(a, 7) & (OBJ_N - 1));
    for (;;)
    {
        objrec *o = &objs[i];
        if (o->addr == a)
            return o;
        if (o->addr == 0)
        {
            if (++nobj > OBJ_N * 3 / 4)
                die(ST_INTERNAL, "object table full");
            o->addr = a;
            return o;
        }
        i = (i + 1) & (OBJ_N - 1);
    }
}

static void vc_acquire(objrec *o)
{
    if (!o->nvc)
        return;
    uint32_t *v = vcs[o->nvc];
    for (int i = 0; i < nth; ++i)
        if (v[i] > th[cur].vc[i])
            th[cur].vc[i] = v[i];
}
static void vc_release(objrec *o)
{
    if (!o->nvc)
    {
        o->nvc = ++nvcs;
    }
    uint32_t *v = vcs[o->nvc];
    for (int i = 0; i < nth; ++i)
        if (th[cur].vc[i] > v[i])
            v[i] = th[cur].vc[i];
    ++th[cur].vc[cur];
}

// Execution of an operation on a shared object: extends the happens-before hash.
static void event(uint64_t obj, int kind, bool write, uint64_t pc)
{
    thread &t = th[cur];
    objrec *o = obj_of(obj);
    if (write)
    {
        t.h = mix(mix(t.h, obj * 4 + 1), mix(o->hw, o->hr) + kind);
        o->hw = t.h;
        o->hr = 0;
    }
    else
    {
        t.h = mix(mix(t.h, obj * 4), o->hw + kind);
        o->hr += t.h;
    }
    if (in_region)
    {
        o->tmask |= 1u << cur;
        if (write)
            o->wmask |= 1u << cur;
        if ((o->tmask & (o->tmask - 1)) && o->wmask)
            conflict_pc_add(pc);
        else
            last_pc_note(obj, pc);
    }
    // Marks and clock reads order the observations, they do not synchronise the program.
    if (cfg.race && obj != MARK_OBJ && obj != CLOCK_OBJ)
    {
        vc_acquire(o);
        if (write)
            vc_release(o);
    }
}

// An object that becomes shared only after some of its accesses: remember which sites touched it.
struct pcnote
{
    uint64_t obj, pc;
};
constexpr uint32_t NOTE_N = 1 << 14;
static pcnote notes[NOTE_N];

void last_pc_note(uint64_t obj, uint64_t pc)
{
    uint32_t i = (uint32_t)(mix(obj, pc) & (NOTE_N - 1));
    for (int k = 0; k < 64; ++k)
    {
        pcnote &n = notes[(i + k) & (NOTE_N - 1)];
        if (n.obj == obj && n.pc == pc)
            return;
        if (n.obj == 0)
        {
            n.obj = obj;
            n.pc = pc;
            return;
        }
    }
}

static void flush_notes()
{
    for (auto &n : notes)
        if (n.obj)
        {
            objrec *o = obj_of(n.obj);
            if ((o->tmask & (o->tmask - 1)) && o->wmask)
                conflict_pc_add(n.pc);
        }
}

static bool pcset_insert(uint64_t *set, uint64_t pc)
{
    uint32_t i = (uint32_t)(mix(pc, 3) & (PCSET_N - 1));
    for (;;)
    {
        uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
        if (v == pc)
            return false;
        if (v == 0)
        {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&set[i], &z, pc, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                return true;
            continue;
        }
        i = (i + 1) & (PCSET_N - 1);
    }
}

void conflict_pc_add(uint64_t pc)
{
    if (pcset_insert(sh->confl, pc))
        __atomic_fetch_add(&sh->nconfl, 1, __ATOMIC_RELAXED);
}

void racy_pc_add(uint64_t pc)
{
    if (pcset_insert(sh->racy, pc))
        __atomic_fetch_add(&sh->nracy, 1, __ATOMIC_RELAXED);
}

bool pcset_has(const uint64_t *set, uint64_t pc)
{
    uint32_t i = (uint32_t)(mix(pc, 3) & (PCSET_N - 1));
    for (;;)
    {
        uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
        if (v == pc)
            return true;
        if (v == 0)
            return false;
        i = (i + 1) & (PCSET_N - 1);
    }
}

// ------------------------------------------------------------------ end of an execution
static int vsn(char *p, size_t n, const char *fmt, va_list ap)
{
    return vsnprintf(p, n, fmt, ap);
}

static void dump_threads(char *p, size_t n)
{
    size_t k = 0;
    for (int i = 0; i < nth && k + 200 < n; ++i)
    {
        thread &t = th[i];
        k += snprintf(p + k, n - k, "%sT%d:%s%s obj=%llx pc=%llx", i ? "; " : "", i, i == cur ? "*" : "", t.finished ? "done" : pend_name[t.pk],
                      (unsigned long long)t.pobj, (unsigned long long)t.ppc);
        if (t.pk == P_LOCK && t.pobj)
        {
            int owner = ((pthread_mutex_t *)t.pobj)->__data.__owner;
            k += snprintf(p + k, n - k, " owner=T%d", owner - 1);
        }
    }
}

[[noreturn]] void finish(int status)
{
    flush_notes();
    rb->status = status;
    rb->ncp = ncp;
    rb->npoints = npoints;
    rb->naccess = naccess;
    rb->nth = nth;
    rb->outcome = out_sig;
    rb->now = now_v;
    rsys(SYS_exit_group, 0);
    __builtin_unreachable();
}

[[noreturn]] void die(int status, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsn(rb->msg, sizeof rb->msg, fmt, ap);
    va_end(ap);
    dump_threads(rb->dump, sizeof rb->dump);
    if (dev_i < cfg.ndev && status != ST_DIVERGED && status != ST_INTERNAL)
        rb->early = 1;
    finish(status);
}

// ------------------------------------------------------------------ the scheduler
static void futex_wait_go(thread &t)
{
    while (__atomic_load_n(&t.go, __ATOMIC_ACQUIRE) == 0)
        rsys(SYS_futex, (long)&t.go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
    __atomic_store_n(&t.go, 0, __ATOMIC_RELAXED);
}

static void futex_give(thread &t)
{
    __atomic_store_n(&t.go, 1, __ATOMIC_RELEASE);
    rsys(SYS_futex, (long)&t.go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}

static inline bool mutex_free_for(uint64_t m, int tid)
{
    auto *x = (pthread_mutex_t *)m;
    int o = x->__data.__owner;
    return o == 0 || (o == tid + 1 && (x->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
}

struct rwst
{
    int writer;
    int readers;
};
static inline rwst *rw_of(uint64_t a)
{
    return (rwst *)a; // lives inside the pthread_rwlock_t
}

static bool op_enabled(int i, bool with_time)
{
    thread &t = th[i];
    switch (t.pk)
    {
    case P_RUN:
        return true;
    case P_LOCK:
        return mutex_free_for(t.pobj, i) || (t.deadline && (with_time || now_v >= t.deadline));
    case P_COND:
        return (t.woken || (t.deadline && (with_time || now_v >= t.deadline))) && mutex_free_for(t.pmutex, i);
    case P_JOIN:
        return th[t.pobj].finished;
    case P_SLEEP:
        return t.deadline && (with_time || now_v >= t.deadline || (t.stall_end && npoints > t.stall_end));
    case P_FUTEX:
        return t.woken || (t.deadline && (with_time || now_v >= t.deadline));
    case P_ONCE:
        return *(int *)t.pobj != 1;
    case P_RDLOCK:
        return rw_of(t.pobj)->writer == 0;
    case P_WRLOCK:
        return rw_of(t.pobj)->writer == 0 && rw_of(t.pobj)->readers == 0;
    default:
        return false;
    }
}

static uint64_t state_hash()
{
    uint64_t s = 0;
    for (int i = 0; i < nth; ++i)
    {
        thread &t = th[i];
        s += mix(t.h, i * 8 + (t.yielding ? 1 : 0) + (t.finished ? 2 : 0) + t.clock_reads % 3 * 512);
    }
    return mix(s, mix(now_v, cur));
}

static void deliver_signal();

// Chooses the next thread to run; called with the pending operation of `cur` filled in.
static void pick(uint64_t pc)
{
    thread &self = th[cur];
    if (UNLIKELY(++npoints > scn->opt.max_points))
        die(ST_LIVELOCK, "no end of the execution after %u scheduling points", npoints);
    ++self.run_len;
    uint32_t en = 0, timed = 0;
    for (;;)
    {
        en = 0;
        timed = 0;
        uint64_t bar = ~0ULL; // earliest deadline that must not be jumped over
        for (int i = 0; i < nth; ++i)
        {
            thread &t = th[i];
            if (t.finished)
                continue;
            if (op_enabled(i, false))
                en |= 1u << i;
            else if (t.nojump && t.deadline && t.deadline < bar)
                bar = t.deadline;
        }
        for (int i = 0; i < nth; ++i)
        {
            thread &t = th[i];
            if (t.finished || (en >> i & 1) || t.nojump || !t.deadline || t.deadline >= bar)
                continue;
            if (op_enabled(i, true))
                timed |= 1u << i;
        }
        if (!en)
        {
            for (int i = 0; i < nth; ++i)
                if (!th[i].finished && th[i].pk == P_QUIESCE)
                {
                    en = 1u << i;
                    break;
                }
        }
        if (en)
            break;
        // Nothing can run now: time passes.
        uint64_t best = ~0ULL;
        int who = -1;
        for (int i = 0; i < nth; ++i)
            if (!th[i].finished && th[i].deadline && (th[i].pk == P_SETTLE || op_enabled(i, true)) && th[i].deadline < best)
            {
                best = th[i].deadline;
                who = i;
            }
        if (who < 0)
            die(ST_DEADLOCK, "deadlock: no thread can ever run again");
        if (best > now_v)
        {
            now_v = best;
            objrec *c = obj_of(CLOCK_OBJ);
            c->hw = mix(c->hw, now_v);
        }
        if (th[who].pk == P_SETTLE)
        {
            en = 1u << who;
            timed = 0;
            break;
        }
    }
    bool yielded = self.yielding || self.run_len > scn->opt.quantum;
    int def = -1;
    if (!yielded && (en >> cur & 1) && !self.finished)
        def = cur;
    else
    {
        for (int pass = 0; pass < 2 && def < 0; ++pass)
            for (int k = 1; k <= nth; ++k)
            {
                int i = (cur + k) % nth;
                if (!(en >> i & 1))
                    continue;
                if (pass == 0 && (i == cur || th[i].yielding))
                    continue;
                def = i;
                break;
            }
    }
    int choice = def;
    uint32_t alts = (en | timed) & ~(1u << def);
    if (alts && in_region && !quiet_depth)
    {
        uint64_t hsh = mix(state_hash(), yielded);
        uint64_t dpc = th[def].ppc;
        if (dev_i < cfg.ndev && cfg.dev[dev_i].pos == ncp)
        {
            choice = cfg.dev[dev_i].val;
            if (!(((alts | 1u << def) >> choice) & 1) || (uint32_t)hsh != cfg.dev[dev_i].hash)
                die(ST_DIVERGED, "diverged at choice %u (alts %x, wanted T%d, hash %08x/%08x)", ncp, alts, choice, (uint32_t)hsh, cfg.dev[dev_i].hash);
            ++dev_i;
        }
        else if (dev_i >= cfg.ndev && cfg.prune && ncp >= cfg.first_free)
        {
            if (!visit(hsh, cfg.budget))
            {
                rb->pruned_at = ncp;
                finish(ST_PRUNED);
            }
        }
        if (ncp < MAXCP)
        {
            cp &c = rb->cps[ncp];
            c.hash = (uint32_t)hsh;
            c.alts = alts;
            c.pc = dpc;
            c.def = (uint8_t)def;
            c.type = CP_SCHED;
            c.n = 0;
            c.timed = timed & ~(1u << def);
        }
        else
            die(ST_LIVELOCK, "too many choice points in one execution");
        ++ncp;
    }
    if (!(en >> choice & 1))
    {
        now_v = th[choice].deadline; // a time jump was chosen
        objrec *c = obj_of(CLOCK_OBJ);
        c->hw = mix(c->hw, now_v);
    }
    th[choice].yielding = false;
    if (UNLIKELY(cfg.trace))
    {
        char b[200];
        int k = snprintf(b, sizeof b, "@ %u %d%s %s %llx %llx t=%llu\n", ncp, choice, choice != def ? "!" : choice != cur ? "+" : "", pend_name[th[choice].pk],
                         (unsigned long long)th[choice].pobj, (unsigned long long)th[choice].ppc, (unsigned long long)(now_v / 1000000 - 1000000));
        rsys(SYS_write, 2, (long)b, k);
    }
    if (choice != cur)
    {
        bool fin = self.finished;
        self.run_len = 0;
        th[choice].run_len = 0;
        th[choice].clock_reads = 0;
        thread &next = th[choice];
        cur = choice;
        futex_give(next);
        if (fin)
        {
            for (;;)
                rsys(SYS_pause);
        }
        futex_wait_go(self);
    }
    else if (yielded)
        self.run_len = 0;
}

static void stall();
static inline void maybe_signal()
{
    if (UNLIKELY(th[cur].sigcount) && --th[cur].sigcount == 0)
    {
        th[cur].sigpend = 10;
        ++nsig;
    }
    if (UNLIKELY(th[cur].sigpend))
        deliver_signal();
}

static void point(pend k, uint64_t obj, uint64_t pc)
{
    if (k == P_RUN) // the callers with something prepared did it before
    {
        maybe_signal();
        if (UNLIKELY(th[cur].stallcount) && !quiet_depth && --th[cur].stallcount == 0)
            stall();
    }
    thread &t = th[cur];
    t.pk = k;
    t.pobj = obj;
    t.ppc = pc;
    if (k == P_RUN && quiet_depth)
        return;
    t.h = mix(t.h, obj * 16 + k);
    pick(pc);
}

static void stall()
{
    th[cur].deadline = now_v + th[cur].stall_ns;
    th[cur].stall_end = npoints + 12'000;
    point(P_SLEEP, CLOCK_OBJ, 0);
    th[cur].deadline = th[cur].stall_end = 0;
}

static void deliver_signal()
{
    int s = th[cur].sigpend;
    th[cur].sigpend = 0;
    rsys(SYS_tgkill, rsys(SYS_getpid), rsys(SYS_gettid), s);
}

static void do_yield_point(uint64_t obj, uint64_t pc)
{
    th[cur].yielding = true;
    point(P_RUN, obj, pc);
}

// ------------------------------------------------------------------ threads: create, join
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static void install_altstack()
{
    static char alt[MAXT + 1][16384];
    stack_t ss {};
    ss.ss_sp = alt[cur < 0 ? MAXT : cur];
    ss.ss_size = sizeof alt[0];
    sigaltstack(&ss, nullptr);
}

static void *trampoline(void *p)
{
    thread &t = *(thread *)p;
    futex_wait_go(t);
    install_altstack();
    t.ret = t.fn(t.arg);
    th[cur].finished = true;
    th[cur].pk = P_DONE;
    event((uint64_t)&th[cur], 9, true, 9);
    pick(9);
    return nullptr;
}

static int spawn(void *(*fn)(void *), void *arg)
{
    if (nth >= MAXT)
        die(ST_INTERNAL, "too many threads");
    int id = nth;
    thread &t = th[id];
    memset(&t, 0, sizeof t);
    t.used = true;
    t.fn = fn;
    t.arg = arg;
    t.pk = P_RUN;
    t.pobj = (uint64_t)&t;
    t.ppc = 5;
    t.h = mix(cur >= 0 ? th[cur].h : 1, id + 100);
    if (cur >= 0)
    {
        memcpy(t.vc, th[cur].vc, sizeof t.vc);
        ++th[cur].vc[cur];
    }
    t.vc[id] = 1;
    ++nth;
    void *stk = (void *)(STACK_BASE + id * STACK_SZ * 2);
    if (mmap(stk, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != stk)
        die(ST_INTERNAL, "cannot map a thread stack");
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stk, STACK_SZ);
    auto blocks = n_heap_blocks, bytes = n_heap_bytes;
    int r = real_create(&t.real, &at, trampoline, &t);
    n_heap_blocks = blocks, n_heap_bytes = bytes; // what the C runtime keeps for a thread doesn't count
    pthread_attr_destroy(&at);
    if (r)
        die(ST_INTERNAL, "pthread_create failed: %d", r);
    return id;
}

static void crash_handler(int sig, siginfo_t *si, void *uc)
{
    auto *u = (ucontext_t *)uc;
    if (!active)
    {
        rsys(SYS_write, 2, (long)"engine crash\n", 13);
        rsys(SYS_exit_group, 3);
    }
    die(ST_CRASH, "%s at pc=%llx addr=%llx", sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segmentation fault" : "fatal signal",
        (unsigned long long)u->uc_mcontext.gregs[REG_RIP], sig == SIGABRT ? 0ULL : (unsigned long long)si->si_addr);
}

static void on_terminate()
{
    const char *what = "?";
    try
    {
        auto e = std::current_exception();
        if (e)
            std::rethrow_exception(e);
        what = "terminate called";
    }
    catch (std::exception &e)
    {
        what = e.what();
    }
    catch (...)
    {
        what = "unknown exception";
    }
    die(ST_CRASH, "std::terminate: %s", what);
}

static void *main_thread(void *)
{
    scn->body();
    in_region = false;
    if (scn->opt.run_exit)
    {
        in_region = true;
        exit(0);
    }
    if (dev_i < cfg.ndev)
        die(ST_DIVERGED, "execution ended before deviation %u", dev_i);
    finish(ST_OK);
}

static void at_last()
{
    if (active)
    {
        if (dev_i < cfg.ndev)
            die(ST_DIVERGED, "execution ended before deviation %u", dev_i);
        finish(ST_OK);
    }
}

struct init_first
{
    init_first()
    {
        atexit(at_last);
    }
} init_first__;

[[noreturn]] void run_child(const mc::scenario *s, const run_cfg &c, run_buf *b)
{
    scn = s;
    cfg = c;
    rb = b;
    rb->status = ST_NONE;
    rb->msg[0] = 0;
    rb->dump[0] = 0;
    rb->early = 0;
    rb->pruned_at = 0;
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    {
        struct sigaction sa {};
        sa.sa_sigaction = crash_handler;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sigfillset(&sa.sa_mask);
        static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *) = (decltype(real_sigaction))dlsym(RTLD_NEXT, "sigaction");
        real_sigaction(sig, &sa, nullptr);
    }
    std::set_terminate(on_terminate);
    now_v = 1'000'000'000'000ULL;
    if (cfg.race)
        vcs = (decltype(vcs))rsys(SYS_mmap, 0, sizeof(uint32_t) * MAXT * (OBJ_N + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cfg.first_free = c.ndev ? c.dev[c.ndev - 1].pos + 1 : 0;
    int id = spawn(main_thread, nullptr);
    active = true;
    cur = id;
    futex_give(th[id]);
    for (;;)
        rsys(SYS_pause);
}

// ------------------------------------------------------------------ heap
static void heap_setup()
{
    heap_ready = true;
    auto r = rsys(SYS_mmap, HEAP_BASE, ARENA_SZ * NARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    auto s = rsys(SYS_mmap, SHADOW_BASE, ARENA_SZ * NARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (long)HEAP_BASE || s != (long)SHADOW_BASE)
    {
        rsys(SYS_write, 2, (long)"cannot map heap\n", 16);
        rsys(SYS_exit_group, 3);
    }
    for (int i = 0; i < NARENA; ++i)
        heap_top[i] = HEAP_BASE + ARENA_SZ * i + 64;
    for (int i = 0; i < MAXT; ++i)
        map_top[i] = MAP_BASE + MAP_SZ * i + 4096;
}

static inline uint8_t *shadow(uint64_t a)
{
    return (uint8_t *)(SHADOW_BASE + ((a - HEAP_BASE) >> 4));
}

// Freed blocks by size, for scenarios that reuse memory.  Per thread, so that what a thread gets does not depend on
// the order of unrelated operations of others.
static const int FREE_N = 256;
static uint64_t free_list[MAXT + 1][FREE_N];

static void *heap_alloc(size_t n, size_t align)
{
    if (UNLIKELY(!heap_ready))
        heap_setup();
    int ar = active && cur >= 0 ? cur : MAXT;
    if (align < 16)
        align = 16;
    uint64_t p = heap_top[ar] + 16;
    p = (p + align - 1) & ~(align - 1);
    size_t sz = (n + 15) & ~15ULL;
    if (sz == 0)
        sz = 16;
    if (active && scn->opt.reuse && align == 16 && (sz >> 4) < FREE_N)
    {
        uint64_t &list = free_list[ar][sz >> 4];
        if (list)
        {
            p = list;
            list = *(uint64_t *)p;
            ((uint64_t *)p)[-2] = n;
            memset(shadow(p), 1, sz >> 4);
            n_heap_bytes += n;
            ++n_heap_blocks;
            return (void *)p;
        }
    }
    uint64_t e = p + sz;
    if (e > HEAP_BASE + ARENA_SZ * (ar + 1) - 4096)
    {
        if (active)
            die(ST_LIVELOCK, "more than 1 GB allocated by one thread in one execution");
        return nullptr;
    }
    heap_top[ar] = e;
    ((uint64_t *)p)[-2] = n;
    ((uint64_t *)p)[-1] = 0xa110ca7edULL;
    memset(shadow(p), 1, sz >> 4);
    if (active)
    {
        n_heap_bytes += n;
        ++n_heap_blocks;
    }
    return (void *)p;
}

static void heap_free(void *q, uint64_t pc)
{
    uint64_t p = (uint64_t)q;
    if (!p)
        return;
    if (p < HEAP_BASE || p >= HEAP_END)
        return;
    uint8_t *s = shadow(p);
    if (((uint64_t *)p)[-1] != 0xa110ca7edULL || *s != 1)
    {
        if (active)
            die(ST_UAF, *s == 2 ? "double free, pc=%llx" : "bad free, pc=%llx", (unsigned long long)pc);
        return;
    }
    size_t n = ((uint64_t *)p)[-2];
    size_t sz = (n + 15) & ~15ULL;
    if (sz == 0)
        sz = 16;
    memset(s, 2, sz >> 4);
    if (active)
    {
        // A thread waiting for a mutex or condition variable inside the block can only go on by touching it.
        for (int i = 0; i < nth; ++i)
        {
            thread &t = th[i];
            if (i == cur || t.finished || (t.pk != P_LOCK && t.pk != P_COND && t.pk != P_RDLOCK && t.pk != P_WRLOCK))
                continue;
            if (t.pobj - p < n || (t.pk == P_COND && t.pmutex - p < n))
                die(ST_UAF, "heap memory freed while a thread is using a lock in it, pc=%llx", (unsigned long long)t.ppc);
        }
        // Poison: a later read through the dangling pointer by uninstrumented code sees garbage.
        memset(q, 0xdd, n);
        n_heap_bytes -= n;
        --n_heap_blocks;
        if (scn->opt.reuse && cur >= 0 && (sz >> 4) < FREE_N)
        {
            // As in the C library, to the thread that freed it or to that of the arena
            uint64_t &list = free_list[scn->opt.reuse == 1 ? cur : (p - HEAP_BASE) / ARENA_SZ][sz >> 4];
            *(uint64_t *)p = list;
            list = p;
        }
    }
}

static inline void check_addr(uint64_t a, uint64_t pc, bool w)
{
    if (a - HEAP_BASE < ARENA_SZ * NARENA)
    {
        uint8_t s = *shadow(a);
        if (UNLIKELY(s != 1))
            die(ST_UAF, "%s of %s heap memory, pc=%llx", w ? "write" : "read", s == 2 ? "freed" : "unallocated", (unsigned long long)pc);
    }
    else if (UNLIKELY(a < 65536))
        die(ST_CRASH, "%s through a null pointer, pc=%llx", w ? "write" : "read", (unsigned long long)pc);
}

// ------------------------------------------------------------------ plain accesses
struct rcell
{
    uint64_t tag;
    uint32_t wclk;
    uint32_t rclk[4];
    uint32_t wpc;
    uint32_t rpc[4];
    uint8_t wtid;
    uint8_t rtid[4];
};
constexpr uint32_t RC_N = 1 << 16;
static rcell rcells[RC_N];

static void race_access(uint64_t a, uint64_t pc, bool w)
{
    uint64_t g = a >> 3;
    rcell &c = rcells[mix(g, 11) & (RC_N - 1)];
    thread &t = th[cur];
    if (c.tag != g)
    {
        memset(&c, 0, sizeof c);
        c.tag = g;
    }
    bool racy = false;
    if (c.wclk && c.wtid != cur && t.vc[c.wtid] < c.wclk)
    {
        racy = true;
        racy_pc_add(c.wpc);
    }
    if (w)
    {
        for (int k = 0; k < 4; ++k)
            if (c.rclk[k] && c.rtid[k] != cur && t.vc[c.rtid[k]] < c.rclk[k])
            {
                racy = true;
                racy_pc_add(c.rpc[k]);
            }
        c.wclk = t.vc[cur];
        c.wtid = (uint8_t)cur;
        c.wpc = (uint32_t)pc;
    }
    else
    {
        int k = cur & 3;
        c.rclk[k] = t.vc[cur];
        c.rtid[k] = (uint8_t)cur;
        c.rpc[k] = (uint32_t)pc;
    }
    if (racy)
        racy_pc_add(pc);
}

static inline void access(uint64_t a, uint64_t pc, bool w)
{
    if (!active)
        return;
    maybe_signal();
    check_addr(a, pc, w);
    if (UNLIKELY(++naccess > 200'000'000ULL))
        die(ST_LIVELOCK, "endless computation");
    if (UNLIKELY(cfg.race))
        race_access(a, pc, w);
    else if (UNLIKELY(sh->racy_bloom[(pc * 0x9e3779b1u >> 8) & 0xffff]) && in_region && pcset_has(sh->racy_frozen, (uint32_t)pc))
    {
        point(P_RUN, a & ~7ULL, pc);
        check_addr(a, pc, w);
        event(a & ~7ULL, 2, w, pc);
    }
}

// ------------------------------------------------------------------ atomics
static void atomic_rmw_point(uint64_t a, uint64_t pc)
{
    check_addr(a, pc, true);
    point(P_RUN, a, pc);
    check_addr(a, pc, true);
    th[cur].spin_addr = 0;
}

static bool atomic_light_load(uint64_t a, uint64_t v, int mo, int size)
{
    // Guard variables of function-local statics, already initialised.
    if (size == 1 && mo == __ATOMIC_ACQUIRE && v == 1 && a < HEAP_BASE && a < 0x100000000ULL)
    {
        thread &t = th[cur];
        if (t.spin_addr == a && ++t.spin_n > 1000)
            return false;
        if (t.spin_addr != a)
        {
            t.spin_addr = a;
            t.spin_n = 0;
        }
        return true;
    }
    return false;
}

static void after_load(uint64_t a, uint64_t v)
{
    thread &t = th[cur];
    if (t.spin_addr == a && t.spin_val == v)
    {
        if (++t.spin_n > 8)
        {
            t.yielding = true;
            t.spin_n = 0;
        }
    }
    else
    {
        t.spin_addr = a;
        t.spin_val = v;
        t.spin_n = 0;
    }
}

}

using namespace rt;

// ================================================================== harness API
// What the program asked for with sigaction.
static struct sigaction asked[32];
static bool is_asked[32];

namespace mc
{

sys_hooks sys;
static scenario *first_scn;

scenario::scenario(const char *n, options o, body_fn b)
    : name(n)
    , body(b)
    , opt(o)
    , next(first_scn)
{
    first_scn = this;
}

scenario *scenarios()
{
    return first_scn;
}

void begin()
{
    in_region = true;
}
void end()
{
    in_region = false;
}
void fail(const char *fmt, ...)
{
    char b[480];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    die(ST_FAIL, "%s", b);
}
void outcome(uint64_t v)
{
    out_sig = mix(out_sig, v);
}
int choose(int n)
{
    if (n <= 1)
        return 0;
    int v = 0;
    uint64_t hsh = mix(state_hash(), 77);
    if (dev_i < cfg.ndev && cfg.dev[dev_i].pos == ncp)
    {
        v = cfg.dev[dev_i].val;
        if (v >= n || (uint32_t)hsh != cfg.dev[dev_i].hash)
            die(ST_DIVERGED, "diverged at data choice %u", ncp);
        ++dev_i;
    }
    if (ncp >= MAXCP)
        die(ST_LIVELOCK, "too many choice points in one execution");
    cp &c = rb->cps[ncp++];
    c.hash = (uint32_t)hsh;
    c.alts = 0;
    c.timed = 0;
    c.def = 0;
    c.type = CP_DATA;
    c.n = (uint8_t)n;
    th[cur].h = mix(th[cur].h, 1000 + v);
    if (!cfg.race)
        visit(mix(hsh, 1000 + v), cfg.budget); // counted as a state, never pruned
    return v;
}
int mark()
{
    point(P_RUN, MARK_OBJ, RETPC());
    event(MARK_OBJ, 3, true, RETPC());
    return (int)++mark_no;
}
int stamp()
{
    event(MARK_OBJ, 3, true, RETPC());
    return (int)++mark_no;
}
void settle(uint64_t ms)
{
    thread &t = th[cur];
    t.deadline = now_v + ms * 1'000'000ULL;
    t.nojump = true;
    point(P_SETTLE, 0, RETPC());
    th[cur].deadline = 0;
    th[cur].nojump = false;
}
void quiesce()
{
    point(P_QUIESCE, 0, RETPC());
}
void block_ms(uint64_t ms)
{
    th[cur].deadline = now_v + ms * 1'000'000ULL;
    point(P_SLEEP, CLOCK_OBJ, RETPC());
    th[cur].deadline = 0;
}
uint64_t now_ns()
{
    return now_v;
}
void advance_ns(uint64_t ns)
{
    now_v += ns;
    event(CLOCK_OBJ, 4, true, RETPC());
}
int tid()
{
    return cur;
}
quiet::quiet()
{
    ++quiet_depth;
}
quiet::~quiet()
{
    --quiet_depth;
}
size_t live_maps()
{
    return n_maps;
}
size_t live_map_bytes()
{
    return n_map_bytes;
}
size_t live_heap_bytes()
{
    return n_heap_bytes;
}
size_t live_heap_blocks()
{
    return n_heap_blocks;
}
int signals_sent()
{
    return nsig;
}
void signal_after(int accesses)
{
    th[cur].sigcount = accesses;
}
void stall_after(int points, uint64_t ms)
{
    th[cur].stallcount = points;
    th[cur].stall_ns = ms * 1'000'000ULL;
}
int held()
{
    return th[cur].held;
}
void raise_signal(int sig)
{
    if (!is_asked[sig] || asked[sig].sa_handler == SIG_DFL || asked[sig].sa_handler == SIG_IGN)
        fail("signal %d has no handler", sig);
    static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *) = (decltype(real_sigaction))dlsym(RTLD_NEXT, "sigaction");
    real_sigaction(sig, &asked[sig], nullptr);
    rsys(SYS_tgkill, rsys(SYS_getpid), rsys(SYS_gettid), sig);
}

}

// ================================================================== heap entry points
EXPORT void *malloc(size_t n)
{
    return heap_alloc(n, 16);
}
EXPORT void free(void *p)
{
    heap_free(p, RETPC());
}
EXPORT void *calloc(size_t a, size_t b)
{
    size_t n = a * b;
    void *p = heap_alloc(n, 16);
    if (active && scn->opt.reuse) // otherwise memory is fresh
        memset(p, 0, n);
    return p;
}
EXPORT void *realloc(void *p, size_t n)
{
    if (!p)
        return heap_alloc(n, 16);
    void *q = heap_alloc(n, 16);
    size_t old = ((uint64_t *)p)[-2];
    memcpy(q, p, old < n ? old : n);
    heap_free(p, RETPC());
    return q;
}
EXPORT void *memalign(size_t al, size_t n)
{
    return heap_alloc(n, al);
}
EXPORT void *aligned_alloc(size_t al, size_t n)
{
    return heap_alloc(n, al);
}
EXPORT int posix_memalign(void **p, size_t al, size_t n)
{
    *p = heap_alloc(n, al);
    return *p ? 0 : ENOMEM;
}
EXPORT void *valloc(size_t n)
{
    return heap_alloc(n, 4096);
}
EXPORT void *pvalloc(size_t n)
{
    return heap_alloc((n + 4095) & ~4095ULL, 4096);
}
EXPORT size_t malloc_usable_size(void *p)
{
    return p ? ((uint64_t *)p)[-2] : 0;
}

// ================================================================== mmap
static int maps_to_fail;
namespace mc
{
void fail_maps(int n)
{
    maps_to_fail = n;
}
}
EXPORT void *mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off) noexcept
{
    if (UNLIKELY(maps_to_fail > 0))
    {
        --maps_to_fail;
        errno = ENOMEM;
        return MAP_FAILED;
    }
    if (active && cur >= 0 && !addr && (flags & MAP_ANONYMOUS) && !(flags & MAP_FIXED))
    {
        uint64_t p = map_top[cur];
        size_t sz = (n + 4095) & ~4095ULL;
        map_top[cur] = p + sz + 4096;
        if (map_top[cur] > MAP_BASE + MAP_SZ * (cur + 1))
            die(ST_LIVELOCK, "too much memory mapped by one thread in one execution");
        long r = rsys(SYS_mmap, (long)p, (long)sz, prot, flags | MAP_FIXED | MAP_NORESERVE, fd, off);
        if (r < 0 && r > -4096)
        {
            errno = (int)-r;
            return MAP_FAILED;
        }
        ++n_maps;
        n_map_bytes += n;
        return (void *)r;
    }
    long r = rsys(SYS_mmap, (long)addr, (long)n, prot, flags, fd, off);
    if (r < 0 && r > -4096)
    {
        errno = (int)-r;
        return MAP_FAILED;
    }
    return (void *)r;
}
EXPORT int munmap(void *addr, size_t n) noexcept
{
    if (active && (uint64_t)addr >= MAP_BASE && (uint64_t)addr < MAP_BASE + MAP_SZ * MAXT)
    {
        size_t sz = (n + 4095) & ~4095ULL;
        if ((uint64_t)addr & 4095)
        {
            errno = EINVAL;
            return -1;
        }
        // Stays reserved: an access to the released stack faults.
        rsys(SYS_mmap, (long)addr, (long)sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        --n_maps;
        n_map_bytes -= n;
        return 0;
    }
    long r = rsys(SYS_munmap, (long)addr, (long)n);
    if (r < 0)
    {
        errno = (int)-r;
        return -1;
    }
    return 0;
}

// ================================================================== pthread: threads
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) noexcept
{
    int id = spawn(fn, arg);
    *t = (pthread_t)(uintptr_t)(0x7000 + id);
    event(CREATE_OBJ, 5, true, RETPC());
    point(P_RUN, (uint64_t)&th[id], RETPC());
    return 0;
}
EXPORT int pthread_join(pthread_t t, void **ret)
{
    int id = (int)((uintptr_t)t - 0x7000);
    if (id < 0 || id >= nth)
        return ESRCH;
    point(P_JOIN, (uint64_t)id, RETPC());
    event((uint64_t)&th[id], 6, true, RETPC());
    if (cfg.race)
        for (int i = 0; i < nth; ++i)
            if (th[id].vc[i] > th[cur].vc[i])
                th[cur].vc[i] = th[id].vc[i];
    if (ret)
        *ret = th[id].ret;
    return 0;
}
EXPORT int pthread_detach(pthread_t) noexcept
{
    return 0;
}

// ================================================================== pthread: mutexes
static inline void take_mutex(pthread_mutex_t *m)
{
    if (m->__data.__owner == cur + 1)
        ++m->__data.__count;
    else
    {
        m->__data.__owner = cur + 1;
        m->__data.__count = 1;
        ++th[cur].held;
    }
}
EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept
{
    int kind = 0;
    if (a)
        pthread_mutexattr_gettype(a, &kind);
    memset(m, 0, sizeof *m);
    m->__data.__kind = kind;
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *) noexcept
{
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    if (!active)
    {
        take_mutex(m);
        return 0;
    }
    uint64_t pc = RETPC();
    maybe_signal();
    check_addr((uint64_t)m, pc, true);
    th[cur].deadline = 0;
    point(P_LOCK, (uint64_t)m, pc);
    check_addr((uint64_t)m, pc, true);
    take_mutex(m);
    event((uint64_t)m, 1, true, pc);
    return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (!active)
    {
        take_mutex(m);
        return 0;
    }
    uint64_t pc = RETPC();
    check_addr((uint64_t)m, pc, true);
    point(P_RUN, (uint64_t)m, pc);
    check_addr((uint64_t)m, pc, true);
    bool ok = mutex_free_for((uint64_t)m, cur);
    if (ok)
        take_mutex(m);
    else
        th[cur].yielding = true;
    event((uint64_t)m, ok ? 1 : 8, true, pc);
    return ok ? 0 : EBUSY;
}
static uint64_t abs_to_virtual(const struct timespec *ts)
{
    return (uint64_t)ts->tv_sec * 1'000'000'000ULL + (uint64_t)ts->tv_nsec;
}
// A time before the epoch has passed, one in the far future never comes
static uint64_t to_deadline(const struct timespec *ts, uint64_t base = 0)
{
    if (ts->tv_sec < 0)
        return 1;
    if (ts->tv_sec > 3'000'000'000LL)
        return 0;
    return (base + abs_to_virtual(ts)) | 1;
}
static int timed_lock(pthread_mutex_t *m, const struct timespec *ts, uint64_t pc)
{
    maybe_signal();
    check_addr((uint64_t)m, pc, true);
    th[cur].deadline = to_deadline(ts);
    point(P_LOCK, (uint64_t)m, pc);
    th[cur].deadline = 0;
    bool ok = mutex_free_for((uint64_t)m, cur);
    if (ok)
        take_mutex(m);
    event((uint64_t)m, ok ? 1 : 8, true, pc);
    return ok ? 0 : ETIMEDOUT;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) noexcept
{
    return timed_lock(m, ts, RETPC());
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) noexcept
{
    return timed_lock(m, ts, RETPC());
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    if (!active)
    {
        m->__data.__owner = 0;
        return 0;
    }
    uint64_t pc = RETPC();
    maybe_signal();
    check_addr((uint64_t)m, pc, true);
    if (m->__data.__owner != cur + 1)
    {
        die(ST_FAIL, "undefined behaviour: a thread unlocks a mutex it does not hold, pc=%llx", (unsigned long long)pc);
    }
    if (--m->__data.__count == 0)
    {
        m->__data.__owner = 0;
        --th[cur].held;
        if (cfg.race)
            vc_release(obj_of((uint64_t)m));
    }
    return 0;
}

// ================================================================== pthread: condition variables
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept
{
    memset(c, 0, sizeof *c);
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *) noexcept
{
    return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline, uint64_t pc)
{
    maybe_signal();
    check_addr((uint64_t)c, pc, true);
    // entering the wait is a step of its own, before the mutex is released
    event((uint64_t)c, 11, true, pc);
    thread &t = th[cur];
    int me = cur;
    unsigned cnt = m->__data.__count;
    m->__data.__owner = 0;
    m->__data.__count = 0;
    --th[cur].held;
    if (cfg.race)
        vc_release(obj_of((uint64_t)m));
    t.woken = false;
    t.wseq = ++wseq;
    t.pmutex = (uint64_t)m;
    t.deadline = deadline;
    point(P_COND, (uint64_t)c, pc);
    if (cur != me)
        die(ST_INTERNAL, "baton error");
    bool timed_out = !t.woken;
    t.deadline = 0;
    t.woken = false;
    check_addr((uint64_t)m, pc, true);
    m->__data.__owner = cur + 1;
    m->__data.__count = cnt;
    ++th[cur].held;
    event((uint64_t)m, timed_out ? 13 : 1, true, pc);
    return timed_out ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    return cond_wait(c, m, 0, RETPC());
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    return cond_wait(c, m, to_deadline(ts), RETPC());
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts)
{
    return cond_wait(c, m, to_deadline(ts), RETPC());
}
static int cond_signal(pthread_cond_t *c, bool all, uint64_t pc)
{
    if (!active)
        return 0;
    check_addr((uint64_t)c, pc, true);
    point(P_RUN, (uint64_t)c, pc);
    check_addr((uint64_t)c, pc, true);
    for (;;)
    {
        int best = -1;
        for (int i = 0; i < nth; ++i)
            if (!th[i].finished && th[i].pk == P_COND && th[i].pobj == (uint64_t)c && !th[i].woken && (best < 0 || th[i].wseq < th[best].wseq))
                best = i;
        if (best < 0)
            break;
        th[best].woken = true;
        if (!all)
            break;
    }
    event((uint64_t)c, 12, true, pc);
    return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) noexcept
{
    return cond_signal(c, false, RETPC());
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) noexcept
{
    return cond_signal(c, true, RETPC());
}

// ================================================================== pthread: once, rwlock
EXPORT int pthread_once(pthread_once_t *o, void (*fn)())
{
    uint64_t pc = RETPC();
    int *s = (int *)o;
    if (!active)
    {
        if (*s != 2)
        {
            *s = 2;
            fn();
        }
        return 0;
    }
    check_addr((uint64_t)o, pc, true);
    for (;;)
    {
        point(P_ONCE, (uint64_t)o, pc);
        event((uint64_t)o, 14, true, pc);
        if (*s == 2)
            return 0;
        if (*s == 1)
            continue;
        *s = 1;
        try
        {
            fn();
        }
        catch (...)
        {
            *s = 0;
            throw;
        }
        *s = 2;
        event((uint64_t)o, 15, true, pc);
        return 0;
    }
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) noexcept
{
    memset(l, 0, sizeof *l);
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) noexcept
{
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept
{
    if (!active)
        return 0;
    point(P_RDLOCK, (uint64_t)l, RETPC());
    ++rw_of((uint64_t)l)->readers;
    event((uint64_t)l, 16, true, RETPC());
    return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept
{
    point(P_RUN, (uint64_t)l, RETPC());
    event((uint64_t)l, 16, true, RETPC());
    if (rw_of((uint64_t)l)->writer)
    {
        th[cur].yielding = true;
        return EBUSY;
    }
    ++rw_of((uint64_t)l)->readers;
    return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept
{
    if (!active)
        return 0;
    point(P_WRLOCK, (uint64_t)l, RETPC());
    rw_of((uint64_t)l)->writer = cur + 1;
    event((uint64_t)l, 17, true, RETPC());
    return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept
{
    point(P_RUN, (uint64_t)l, RETPC());
    event((uint64_t)l, 17, true, RETPC());
    if (rw_of((uint64_t)l)->writer || rw_of((uint64_t)l)->readers)
    {
        th[cur].yielding = true;
        return EBUSY;
    }
    rw_of((uint64_t)l)->writer = cur + 1;
    return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept
{
    if (!active)
        return 0;
    auto *r = rw_of((uint64_t)l);
    if (r->writer)
        r->writer = 0;
    else if (r->readers)
        --r->readers;
    if (cfg.race)
        vc_release(obj_of((uint64_t)l));
    return 0;
}

// ================================================================== time
static void clock_read(uint64_t pc)
{
    // Whoever reads the clock again and again is waiting for others.
    if (++th[cur].clock_reads % 3 == 0)
        do_yield_point(CLOCK_OBJ, pc);
    else
        point(P_RUN, CLOCK_OBJ, pc);
    now_v += scn->opt.tick_ns;
    event(CLOCK_OBJ, 4, true, pc);
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    if (!active)
        return (int)rsys(SYS_clock_gettime, id, (long)ts);
    clock_read(RETPC());
    ts->tv_sec = (time_t)(now_v / 1'000'000'000ULL);
    ts->tv_nsec = (long)(now_v % 1'000'000'000ULL);
    return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t *t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
static int sleep_until_v(uint64_t dl, uint64_t pc)
{
    th[cur].deadline = dl;
    point(P_SLEEP, CLOCK_OBJ, pc);
    th[cur].deadline = 0;
    event(CLOCK_OBJ, 18, false, pc);
    return 0;
}
EXPORT int nanosleep(const struct timespec *r, struct timespec *)
{
    if (!active)
        return (int)rsys(SYS_nanosleep, (long)r, 0);
    return sleep_until_v(to_deadline(r, now_v), RETPC());
}
EXPORT int clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *)
{
    return sleep_until_v(to_deadline(r, flags & TIMER_ABSTIME ? 0 : now_v), RETPC());
}
EXPORT int usleep(useconds_t us)
{
    if (!active)
    {
        struct timespec ts {us / 1000000, (long)(us % 1000000) * 1000};
        return (int)rsys(SYS_nanosleep, (long)&ts, 0);
    }
    return sleep_until_v((now_v + us * 1000ULL) | 1, RETPC());
}
EXPORT unsigned sleep(unsigned s)
{
    sleep_until_v((now_v + s * 1'000'000'000ULL) | 1, RETPC());
    return 0;
}
EXPORT int sched_yield() noexcept
{
    if (!active)
        return (int)rsys(SYS_sched_yield);
    do_yield_point(0x40, RETPC());
    event(0x40, 19, false, RETPC());
    return 0;
}
EXPORT int get_nprocs() noexcept
{
    return active ? scn->opt.cpus : 1;
}

// ================================================================== futex, signals, ids
EXPORT long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    uint64_t pc = RETPC();
    if (!active)
    {
        long r = rsys(n, a, b, c, d, e, f);
        if (r < 0 && r > -4096)
        {
            errno = (int)-r;
            return -1;
        }
        return r;
    }
    if (n == SYS_futex)
    {
        int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            if (*(volatile int *)a != (int)c)
            {
                event((uint64_t)a, 20, false, pc);
                th[cur].yielding = true;
                errno = EAGAIN;
                return -1;
            }
            event((uint64_t)a, 21, true, pc);
            th[cur].woken = false;
            th[cur].wseq = ++wseq;
            uint64_t dl = 0;
            if (d)
            {
                dl = to_deadline((const struct timespec *)d, op == FUTEX_WAIT ? now_v : 0);
            }
            th[cur].deadline = dl;
            point(P_FUTEX, (uint64_t)a, pc);
            bool w = th[cur].woken;
            th[cur].woken = false;
            th[cur].deadline = 0;
            if (!w)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            point(P_RUN, (uint64_t)a, pc);
            int k = 0;
            for (int i = 0; i < nth && k < (int)c; ++i)
                if (!th[i].finished && th[i].pk == P_FUTEX && th[i].pobj == (uint64_t)a && !th[i].woken)
                {
                    th[i].woken = true;
                    ++k;
                }
            event((uint64_t)a, 22, true, pc);
            return k;
        }
        die(ST_INTERNAL, "futex op %d not modelled", op);
    }
    if (n == SYS_tgkill || n == SYS_tkill)
    {
        int id = (int)(n == SYS_tgkill ? b : a) - 0x5000;
        int sig = (int)(n == SYS_tgkill ? c : b);
        point(P_RUN, 0x50, pc);
        event(0x50, 23, true, pc);
        ++nsig;
        if (id >= 0 && id < nth && !th[id].finished)
            th[id].sigpend = sig;
        return 0;
    }
    if (n == SYS_gettid)
        return 0x5000 + cur;
    if (n == SYS_sched_yield)
        return sched_yield();
    long r = rsys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096)
    {
        errno = (int)-r;
        return -1;
    }
    return r;
}
EXPORT pid_t gettid() noexcept
{
    return active ? 0x5000 + cur : (pid_t)rsys(SYS_gettid);
}
EXPORT int tgkill(pid_t p, pid_t t, int s) noexcept
{
    return (int)syscall(SYS_tgkill, (long)p, (long)t, (long)s);
}
EXPORT int pthread_kill(pthread_t t, int s) noexcept
{
    return (int)syscall(SYS_tgkill, 0L, (long)t - 0x7000 + 0x5000, (long)s);
}
EXPORT int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept
{
    static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
    if (!real_sigaction)
        real_sigaction = (decltype(real_sigaction))dlsym(RTLD_NEXT, "sigaction");
    if (active && s > 0 && s < 32 && a)
    {
        asked[s] = *a;
        is_asked[s] = true;
    }
    if (active && s != 10 && s != SIGTERM && s != SIGPIPE)
        return 0; // crash reporting stays ours; see raise_signal
    return real_sigaction(s, a, o);
}

// ================================================================== replaced i/o system calls
#define SYS_ROUTE(name, fd, a, n, b, c)                                     \
    if (active && mc::sys.call && (fd) >= 1000)                             \
    {                                                                       \
        long r = mc::sys.call(#name, fd, (void *)(a), (size_t)(n), (long)(b), (void *)(c)); \
        if (r < 0)                                                          \
        {                                                                   \
            errno = (int)-r;                                                \
            return -1;                                                      \
        }                                                                   \
        return r;                                                           \
    }
#define SYS_RET(x)                   \
    long r_ = (x);                   \
    if (r_ < 0)                      \
    {                                \
        errno = (int)-r_;            \
        return -1;                   \
    }                                \
    return r_;

EXPORT ssize_t read(int fd, void *p, size_t n)
{
    SYS_ROUTE(read, fd, p, n, 0, 0)
    SYS_RET(rsys(SYS_read, fd, (long)p, (long)n))
}
EXPORT ssize_t write(int fd, const void *p, size_t n)
{
    SYS_ROUTE(write, fd, p, n, 0, 0)
    SYS_RET(rsys(SYS_write, fd, (long)p, (long)n))
}
EXPORT ssize_t send(int fd, const void *p, size_t n, int fl)
{
    SYS_ROUTE(send, fd, p, n, fl, 0)
    SYS_RET(rsys(SYS_sendto, fd, (long)p, (long)n, fl, 0, 0))
}
EXPORT ssize_t recv(int fd, void *p, size_t n, int fl)
{
    SYS_ROUTE(recv, fd, p, n, fl, 0)
    SYS_RET(rsys(SYS_recvfrom, fd, (long)p, (long)n, fl, 0, 0))
}
EXPORT ssize_t sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *sa, socklen_t l)
{
    mc::sys.extra = (long)l;
    SYS_ROUTE(sendto, fd, p, n, fl, sa)
    SYS_RET(rsys(SYS_sendto, fd, (long)p, (long)n, fl, (long)sa, l))
}
EXPORT ssize_t recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *sa, socklen_t *l)
{
    mc::sys.extra = (long)l;
    SYS_ROUTE(recvfrom, fd, p, n, fl, sa)
    SYS_RET(rsys(SYS_recvfrom, fd, (long)p, (long)n, fl, (long)sa, (long)l))
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int fl)
{
    SYS_ROUTE(sendmsg, fd, m, 0, fl, 0)
    SYS_RET(rsys(SYS_sendmsg, fd, (long)m, fl))
}
EXPORT ssize_t recvmsg(int fd, struct msghdr *m, int fl)
{
    SYS_ROUTE(recvmsg, fd, m, 0, fl, 0)
    SYS_RET(rsys(SYS_recvmsg, fd, (long)m, fl))
}
EXPORT int accept(int fd, struct sockaddr *sa, socklen_t *l)
{
    SYS_ROUTE(accept, fd, sa, 0, 0, l)
    SYS_RET((int)rsys(SYS_accept, fd, (long)sa, (long)l))
}
EXPORT int accept4(int fd, struct sockaddr *sa, socklen_t *l, int fl)
{
    SYS_ROUTE(accept, fd, sa, 0, fl, l)
    SYS_RET((int)rsys(SYS_accept4, fd, (long)sa, (long)l, fl))
}
EXPORT int connect(int fd, const struct sockaddr *sa, socklen_t l)
{
    SYS_ROUTE(connect, fd, sa, l, 0, 0)
    SYS_RET((int)rsys(SYS_connect, fd, (long)sa, l))
}
EXPORT int close(int fd)
{
    SYS_ROUTE(close, fd, 0, 0, 0, 0)
    SYS_RET((int)rsys(SYS_close, fd))
}
EXPORT int socket(int dom, int ty, int pr) noexcept
{
    if (active && mc::sys.call)
    {
        long r = mc::sys.call("socket", -1, nullptr, 0, ((long)dom << 32) | (long)ty, (void *)(long)pr);
        if (r < 0)
        {
            errno = (int)-r;
            return -1;
        }
        return (int)r;
    }
    SYS_RET((int)rsys(SYS_socket, dom, ty, pr))
}
EXPORT int listen(int fd, int b) noexcept
{
    SYS_ROUTE(listen, fd, 0, 0, b, 0)
    SYS_RET((int)rsys(SYS_listen, fd, b))
}
EXPORT int bind(int fd, const struct sockaddr *sa, socklen_t l) noexcept
{
    SYS_ROUTE(bind, fd, sa, l, 0, 0)
    SYS_RET((int)rsys(SYS_bind, fd, (long)sa, l))
}
EXPORT int shutdown(int fd, int how) noexcept
{
    SYS_ROUTE(shutdown, fd, 0, 0, how, 0)
    SYS_RET((int)rsys(SYS_shutdown, fd, how))
}
EXPORT int getsockopt(int fd, int lv, int nm, void *v, socklen_t *l) noexcept
{
    SYS_ROUTE(getsockopt, fd, v, lv, nm, l)
    SYS_RET((int)rsys(SYS_getsockopt, fd, lv, nm, (long)v, (long)l))
}
EXPORT int setsockopt(int fd, int lv, int nm, const void *v, socklen_t l) noexcept
{
    SYS_ROUTE(setsockopt, fd, v, lv, nm, (long)l)
    SYS_RET((int)rsys(SYS_setsockopt, fd, lv, nm, (long)v, l))
}
EXPORT int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (active && mc::sys.call)
    {
        long k = mc::sys.call("select", 1000, w, (size_t)n, 0, tv);
        if (k < 0)
        {
            errno = (int)-k;
            return -1;
        }
        return (int)k;
    }
    SYS_RET((int)rsys(SYS_select, n, (long)r, (long)w, (long)e, (long)tv))
}
EXPORT int poll(struct pollfd *p, nfds_t n, int to)
{
    if (active && mc::sys.call && n && p[0].fd >= 1000)
    {
        long k = mc::sys.call("poll", p[0].fd, p, n, to, nullptr);
        if (k < 0)
        {
            errno = (int)-k;
            return -1;
        }
        return (int)k;
    }
    SYS_RET((int)rsys(SYS_poll, (long)p, (long)n, to))
}
EXPORT int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    SYS_ROUTE(fcntl, fd, 0, 0, cmd, a)
    SYS_RET((int)rsys(SYS_fcntl, fd, cmd, a))
}
EXPORT int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    SYS_ROUTE(fcntl, fd, 0, 0, cmd, a)
    SYS_RET((int)rsys(SYS_fcntl, fd, cmd, a))
}
EXPORT int ioctl(int fd, unsigned long cmd, ...) noexcept
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    SYS_ROUTE(ioctl, fd, 0, 0, cmd, a)
    SYS_RET((int)rsys(SYS_ioctl, fd, (long)cmd, a))
}
EXPORT off_t lseek(int fd, off_t o, int w) noexcept
{
    SYS_ROUTE(lseek, fd, 0, (size_t)w, o, 0)
    SYS_RET(rsys(SYS_lseek, fd, o, w))
}
EXPORT int ftruncate(int fd, off_t o) noexcept
{
    SYS_ROUTE(ftruncate, fd, 0, 0, o, 0)
    SYS_RET((int)rsys(SYS_ftruncate, fd, o))
}
EXPORT int fsync(int fd)
{
    SYS_ROUTE(fsync, fd, 0, 0, 0, 0)
    SYS_RET((int)rsys(SYS_fsync, fd))
}
EXPORT int fdatasync(int fd)
{
    SYS_ROUTE(fdatasync, fd, 0, 0, 0, 0)
    SYS_RET((int)rsys(SYS_fdatasync, fd))
}
EXPORT int fchmod(int fd, mode_t m) noexcept
{
    SYS_ROUTE(fchmod, fd, 0, 0, m, 0)
    SYS_RET((int)rsys(SYS_fchmod, fd, m))
}
EXPORT int fchown(int fd, uid_t u, gid_t g) noexcept
{
    SYS_ROUTE(fchown, fd, 0, g, u, 0)
    SYS_RET((int)rsys(SYS_fchown, fd, u, g))
}
EXPORT int fstat(int fd, struct stat *s) noexcept
{
    SYS_ROUTE(fstat, fd, s, 0, 0, 0)
    SYS_RET((int)rsys(SYS_fstat, fd, (long)s))
}

// ================================================================== end of the process
namespace mc
{
void (*on_quick_exit)(int) {nullptr};
}
EXPORT void _exit(int status)
{
    if (active)
    {
        if (!mc::on_quick_exit)
            die(ST_CRASH, "the process is ended by _exit(%d)", status);
        mc::on_quick_exit(status);
        if (dev_i < cfg.ndev)
            die(ST_DIVERGED, "execution ended before deviation %u", dev_i);
        finish(ST_OK);
    }
    rsys(SYS_exit_group, status);
    __builtin_unreachable();
}
EXPORT void _Exit(int status) noexcept
{
    _exit(status);
}
EXPORT void quick_exit(int status) noexcept
{
    _exit(status);
}

// ================================================================== instrumentation callbacks
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}

#define RW(n)                                                                            \
    EXPORT void __tsan_read##n(void *p) { access((uint64_t)p, RETPC(), false); }         \
    EXPORT void __tsan_write##n(void *p) { access((uint64_t)p, RETPC(), true); }         \
    EXPORT void __tsan_unaligned_read##n(void *p) { access((uint64_t)p, RETPC(), false); } \
    EXPORT void __tsan_unaligned_write##n(void *p) { access((uint64_t)p, RETPC(), true); } \
    EXPORT void __tsan_volatile_read##n(void *p) { access((uint64_t)p, RETPC(), false); } \
    EXPORT void __tsan_volatile_write##n(void *p) { access((uint64_t)p, RETPC(), true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_read_range(void *p, unsigned long n)
{
    if (n)
    {
        access((uint64_t)p, RETPC(), false);
        access((uint64_t)p + n - 1, RETPC(), false);
    }
}
EXPORT void __tsan_write_range(void *p, unsigned long n)
{
    if (n)
    {
        access((uint64_t)p, RETPC(), true);
        access((uint64_t)p + n - 1, RETPC(), true);
    }
}
EXPORT void __tsan_vptr_update(void **p, void *)
{
    access((uint64_t)p, RETPC(), true);
}
EXPORT void __tsan_vptr_read(void **p)
{
    access((uint64_t)p, RETPC(), false);
}

#define ATOMICS(bits, T)                                                                                   \
    EXPORT T __tsan_atomic##bits##_load(const volatile T *p, int mo)                                       \
    {                                                                                                      \
        if (!active)                                                                                       \
            return *p;                                                                                     \
        uint64_t pc = RETPC();                                                                             \
        check_addr((uint64_t)p, pc, false);                                                                \
        if (atomic_light_load((uint64_t)p, (uint64_t)*p, mo, bits / 8))                                    \
            return *p;                                                                                     \
        point(P_RUN, (uint64_t)p, pc);                                                                     \
        check_addr((uint64_t)p, pc, false);                                                                \
        event((uint64_t)p, 30, false, pc);                                                                 \
        after_load((uint64_t)p, (uint64_t)*p);                                                             \
        return *p;                                                                                         \
    }                                                                                                      \
    EXPORT void __tsan_atomic##bits##_store(volatile T *p, T v, int)                                       \
    {                                                                                                      \
        if (active)                                                                                        \
        {                                                                                                  \
            atomic_rmw_point((uint64_t)p, RETPC());                                                        \
            event((uint64_t)p, 31, true, RETPC());                                                         \
        }                                                                                                  \
        *p = v;                                                                                            \
    }                                                                                                      \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T *p, T v, int)                                       \
    {                                                                                                      \
        if (active)                                                                                        \
        {                                                                                                  \
            atomic_rmw_point((uint64_t)p, RETPC());                                                        \
            event((uint64_t)p, 32, true, RETPC());                                                         \
        }                                                                                                  \
        T o = *p;                                                                                          \
        if (active && o == v)                                                                              \
            th[cur].yielding = true;                                                                       \
        *p = v;                                                                                            \
        return o;                                                                                          \
    }                                                                                                      \
    ATOMIC_OP(bits, T, fetch_add, o + v)                                                                   \
    ATOMIC_OP(bits, T, fetch_sub, o - v)                                                                   \
    ATOMIC_OP(bits, T, fetch_and, o &v)                                                                    \
    ATOMIC_OP(bits, T, fetch_or, o | v)                                                                    \
    ATOMIC_OP(bits, T, fetch_xor, o ^ v)                                                                   \
    ATOMIC_OP(bits, T, fetch_nand, ~(o & v))                                                               \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int)           \
    {                                                                                                      \
        if (active)                                                                                        \
        {                                                                                                  \
            atomic_rmw_point((uint64_t)p, RETPC());                                                        \
            event((uint64_t)p, 34, true, RETPC());                                                         \
        }                                                                                                  \
        if (*p == *e)                                                                                      \
        {                                                                                                  \
            *p = v;                                                                                        \
            return 1;                                                                                      \
        }                                                                                                  \
        *e = *p;                                                                                           \
        if (active)                                                                                        \
            th[cur].yielding = true;                                                                       \
        return 0;                                                                                          \
    }                                                                                                      \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b)         \
    {                                                                                                      \
        if (active)                                                                                        \
        {                                                                                                  \
            atomic_rmw_point((uint64_t)p, RETPC());                                                        \
            event((uint64_t)p, 34, true, RETPC());                                                         \
        }                                                                                                  \
        if (*p == *e)                                                                                      \
        {                                                                                                  \
            *p = v;                                                                                        \
            return 1;                                                                                      \
        }                                                                                                  \
        *e = *p;                                                                                           \
        if (active)                                                                                        \
            th[cur].yielding = true;                                                                       \
        return 0;                                                                                          \
    }                                                                                                      \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int)                 \
    {                                                                                                      \
        if (active)                                                                                        \
        {                                                                                                  \
            atomic_rmw_point((uint64_t)p, RETPC());                                                        \
            event((uint64_t)p, 34, true, RETPC());                                                         \
        }                                                                                                  \
        T o = *p;                                                                                          \
        if (o == e)                                                                                        \
            *p = v;                                                                                        \
        else if (active)                                                                                   \
            th[cur].yielding = true;                                                                       \
        return o;                                                                                          \
    }

#define ATOMIC_OP(bits, T, nm, expr)                                                                       \
    EXPORT T __tsan_atomic##bits##_##nm(volatile T *p, T v, int mo)                                        \
    {                                                                                                      \
        if (active)                                                                                        \
        {                                                                                                  \
            if (bits == 32 && mo == __ATOMIC_ACQ_REL)                                                      \
            { /* shared_ptr reference counts: commutative, only the last release is an event */            \
                maybe_signal();                                                                            \
                check_addr((uint64_t)p, RETPC(), true);                                                    \
                th[cur].h = mix(th[cur].h, *p == 1 ? 5 : 6);                                               \
                if (cfg.race)                                                                              \
                {                                                                                          \
                    objrec *ob = obj_of((uint64_t)p);                                                      \
                    vc_acquire(ob);                                                                        \
                    vc_release(ob);                                                                        \
                }                                                                                          \
            }                                                                                              \
            else                                                                                           \
            {                                                                                              \
                atomic_rmw_point((uint64_t)p, RETPC());                                                    \
                event((uint64_t)p, 33, true, RETPC());                                                     \
            }                                                                                              \
        }                                                                                                  \
        T o = *p;                                                                                          \
        *p = (T)(expr);                                                                                    \
        return o;                                                                                          \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}
