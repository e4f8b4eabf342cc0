// Exhaustive enumeration of schedules.
//
// A schedule is a list of deviations from the deterministic default scheduler of rt.cpp.  Level d holds
// the schedules with exactly d deviations; the levels are enumerated in order, so a finished level d
// means: every schedule with at most d deviations was executed, or shown equal (same happens-before
// prefix, same scheduler state) to one that was.  Data choices cost nothing and are always enumerated.
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace rt;

namespace
{

constexpr int MAXLEVEL = 8;
constexpr uint64_t POOL_N = 1ULL << 25;
constexpr uint64_t VIS_N = 1ULL << 26;
constexpr uint64_t OUT_N = 1ULL << 16;
constexpr int MAXW = 64;
constexpr int MAXVIOL = 8;

struct job
{
    uint32_t parent; // 0 = root
    uint32_t pos;
    uint32_t hash;
    uint8_t val, cost, level, pad;
};

struct violation
{
    int status;
    char msg[512];
    char dump[3000];
    uint32_t ndev;
    deviation dev[MAXDEV];
};

struct ctl
{
    uint32_t njobs;
    uint32_t head[MAXLEVEL], tail[MAXLEVEL];
    int32_t active[MAXLEVEL];
    uint64_t runs[MAXLEVEL];
    uint64_t execs, pruned, points, accesses, states, outcomes, maxcp, maxpoints, confirm;
    uint32_t stop;      // 1 = violation, 2 = time, 3 = engine error, 4 = pool full
    uint32_t stop_level;
    uint32_t maxth;
    uint32_t nviol;
    uint32_t lock;
    violation viol[MAXVIOL];
    uint32_t sample_n, sample_points; // one complete schedule with the most deviations
    deviation sample[MAXDEV];
    char err[600];
    uint64_t outs[OUT_N];
};

ctl *C;
job *pool;
uint32_t *queue[MAXLEVEL];
uint64_t *vis;
run_buf *bufs[MAXW];
int bound, workers = 8, guard_s = 10;
uint64_t max_runs;
double t_end;
bool race_mode, keep_going, trace;
const mc::scenario *S;

double now_s()
{
    timespec ts;
    ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

template <typename T>
T *shm(size_t bytes)
{
    void *p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
    {
        fprintf(stderr, "cannot map %zu bytes\n", bytes);
        exit(2);
    }
    return (T *)p;
}

void add(uint64_t &x, uint64_t v)
{
    __atomic_fetch_add(&x, v, __ATOMIC_RELAXED);
}

void stop_with(uint32_t why, int level)
{
    uint32_t z = 0;
    if (__atomic_compare_exchange_n(&C->stop, &z, why, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
        C->stop_level = (uint32_t)level;
}

void push(uint32_t parent, uint32_t pos, uint32_t hash, int val, int cost, int level)
{
    uint32_t id = __atomic_add_fetch(&C->njobs, 1, __ATOMIC_RELAXED);
    if (id >= POOL_N)
    {
        stop_with(4, level);
        return;
    }
    pool[id] = job {parent, pos, hash, (uint8_t)val, (uint8_t)cost, (uint8_t)level, 0};
    uint32_t t = __atomic_fetch_add(&C->tail[level], 1, __ATOMIC_SEQ_CST);
    __atomic_store_n(&queue[level][t], id, __ATOMIC_RELEASE);
}

uint32_t claim(int level)
{
    for (;;)
    {
        uint32_t h = __atomic_load_n(&C->head[level], __ATOMIC_SEQ_CST);
        uint32_t t = __atomic_load_n(&C->tail[level], __ATOMIC_SEQ_CST);
        if (h >= t)
            return 0;
        if (__atomic_compare_exchange_n(&C->head[level], &h, h + 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
        {
            uint32_t id;
            while (!(id = __atomic_load_n(&queue[level][h], __ATOMIC_ACQUIRE)))
                ;
            return id;
        }
    }
}

bool build_cfg(uint32_t id, run_cfg &c)
{
    uint32_t n = 0;
    for (uint32_t k = id; k > 1; k = pool[k].parent)
        ++n;
    if (n > MAXDEV)
        return false;
    c.ndev = n;
    for (uint32_t k = id; k > 1; k = pool[k].parent)
    {
        --n;
        c.dev[n] = deviation {pool[k].pos, pool[k].hash, pool[k].val, pool[k].cost};
    }
    return true;
}

// One execution in a forked child.
int run_one(const run_cfg &c, run_buf *b, int guard)
{
    b->status = ST_NONE;
    pid_t p = fork();
    if (p < 0)
    {
        perror("fork");
        exit(2);
    }
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm((unsigned)guard);
        run_child(S, c, b);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    if (b->status == ST_NONE)
    {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
        {
            b->status = ST_TIMEOUT;
            snprintf(b->msg, sizeof b->msg, "no progress: an OS thread computes or blocks forever without reaching a synchronisation point");
        }
        else
        {
            b->status = ST_INTERNAL;
            snprintf(b->msg, sizeof b->msg, "child ended without a verdict (wait status %x)", st);
        }
    }
    return b->status;
}

void note_outcome(uint64_t o)
{
    if (!o)
        o = 1;
    uint64_t i = o % OUT_N;
    for (int k = 0; k < 256; ++k, i = (i + 1) % OUT_N)
    {
        uint64_t v = __atomic_load_n(&C->outs[i], __ATOMIC_RELAXED);
        if (v == o)
            return;
        if (v == 0)
        {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&C->outs[i], &z, o, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
            {
                add(C->outcomes, 1);
                return;
            }
            if (z == o)
                return;
        }
    }
}

void engine_error(const char *msg, const char *dump, int level)
{
    stop_with(3, level);
    snprintf(C->err, sizeof C->err, "%s [%.300s]", msg, dump);
}

void report(const run_cfg &c0, run_buf *b, int level)
{
    // Confirm by replaying the same schedule, without pruning.
    char msg[512];
    int status = b->status;
    memcpy(msg, b->msg, sizeof msg);
    run_cfg c = c0;
    c.prune = false;
    if (b->early)
    {
        // The violation happens before the last deviations are reached: the shorter schedule shows it.
        while (c.ndev && c.dev[c.ndev - 1].pos >= b->ncp)
            --c.ndev;
    }
    for (int k = 0; k < 2; ++k)
    {
        run_one(c, b, guard_s * 3);
        add(C->confirm, 1);
        if (b->status != status || (status != ST_TIMEOUT && strcmp(b->msg, msg)))
        {
            if (status == ST_TIMEOUT && (b->status == ST_OK || b->status > ST_PRUNED))
            {
                if (b->status == ST_OK)
                    return; // only slow
                status = b->status;
                memcpy(msg, b->msg, sizeof msg);
                continue;
            }
            char e[600];
            snprintf(e, sizeof e, "violation not reproduced: %d '%.200s' then %d '%.200s'", status, msg, b->status, b->msg);
            engine_error(e, b->dump, level);
            return;
        }
    }
    while (__atomic_exchange_n(&C->lock, 1, __ATOMIC_ACQUIRE))
        ;
    bool dup = false;
    for (uint32_t i = 0; i < C->nviol; ++i)
        dup |= C->viol[i].status == status && !strcmp(C->viol[i].msg, msg);
    if (!dup && C->nviol < MAXVIOL)
    {
        violation &v = C->viol[C->nviol];
        v.status = status;
        memcpy(v.msg, msg, sizeof v.msg);
        memcpy(v.dump, b->dump, sizeof v.dump);
        v.ndev = c.ndev;
        memcpy(v.dev, c.dev, sizeof v.dev);
        ++C->nviol;
    }
    __atomic_store_n(&C->lock, 0, __ATOMIC_RELEASE);
    if (!keep_going)
        stop_with(1, level);
}

void expand(uint32_t id, const run_cfg &c, const run_buf *b, int level)
{
    uint32_t from = c.ndev ? c.dev[c.ndev - 1].pos + 1 : 0;
    uint32_t to = b->ncp;
    for (uint32_t i = from; i < to; ++i)
    {
        const cp &p = b->cps[i];
        if (p.type == CP_DATA)
        {
            for (int v = 1; v < p.n; ++v)
                push(id, i, p.hash, v, 0, level);
            continue;
        }
        if (level >= bound)
            continue;
        if (!race_mode && !pcset_has(sh->confl, p.pc))
            continue;
        for (int t = 0; t < MAXT; ++t)
            if (p.alts >> t & 1)
                push(id, i, p.hash, t, 1, level + 1);
    }
}

void worker(int w)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    static run_cfg c;
    for (int level = 0; level <= bound; ++level)
    {
        for (;;)
        {
            if (__atomic_load_n(&C->stop, __ATOMIC_RELAXED))
                _exit(0);
            __atomic_fetch_add(&C->active[level], 1, __ATOMIC_SEQ_CST);
            uint32_t id = claim(level);
            if (!id)
            {
                if (__atomic_sub_fetch(&C->active[level], 1, __ATOMIC_SEQ_CST) == 0
                    && __atomic_load_n(&C->head[level], __ATOMIC_SEQ_CST) >= __atomic_load_n(&C->tail[level], __ATOMIC_SEQ_CST))
                    break;
                timespec ts {0, 100000};
                nanosleep(&ts, nullptr);
                continue;
            }
            if (now_s() > t_end || (max_runs && C->execs >= max_runs))
            {
                stop_with(2, level);
                __atomic_fetch_sub(&C->active[level], 1, __ATOMIC_SEQ_CST);
                _exit(0);
            }
            if (!build_cfg(id, c))
            {
                engine_error("schedule too long", "", level);
                _exit(0);
            }
            c.race = race_mode;
            c.prune = !race_mode;
            c.budget = (uint32_t)(bound - level);
            run_buf *b = bufs[w];
            run_one(c, b, guard_s);
            add(C->execs, 1);
            add(C->runs[level], 1);
            add(C->points, b->npoints);
            add(C->accesses, b->naccess);
            if (b->npoints > C->maxpoints)
                C->maxpoints = b->npoints;
            if (b->ncp > C->maxcp)
                C->maxcp = b->ncp;
            if (b->nth > C->maxth)
                C->maxth = b->nth;
            if (b->status == ST_OK || b->status == ST_PRUNED)
            {
                if (b->status == ST_PRUNED)
                    add(C->pruned, 1);
                else
                {
                    note_outcome(b->outcome);
                    if (c.ndev > C->sample_n && !__atomic_exchange_n(&C->lock, 1, __ATOMIC_ACQUIRE))
                    {
                        C->sample_n = c.ndev;
                        C->sample_points = b->npoints;
                        memcpy(C->sample, c.dev, sizeof C->sample);
                        __atomic_store_n(&C->lock, 0, __ATOMIC_RELEASE);
                    }
                }
                expand(id, c, b, level);
            }
            else if (b->status == ST_DIVERGED || b->status == ST_INTERNAL)
                engine_error(b->msg, b->dump, level);
            else
            {
                report(c, b, level);
                if (keep_going)
                    expand(id, c, b, level);
            }
            __atomic_fetch_sub(&C->active[level], 1, __ATOMIC_SEQ_CST);
        }
    }
    _exit(0);
}

void explore(int b, bool race, double secs, uint64_t runs)
{
    madvise(vis, VIS_N * 8, MADV_REMOVE);
    for (int i = 0; i < MAXLEVEL; ++i)
        madvise(queue[i], POOL_N * 4, MADV_REMOVE);
    memset(C, 0, sizeof *C);
    bound = b;
    race_mode = race;
    max_runs = runs;
    t_end = now_s() + secs;
    C->njobs = 0;
    push(0, 0, 0, 0, 0, 0);
    int n = workers;
    pid_t pids[MAXW];
    for (int i = 0; i < n; ++i)
    {
        pids[i] = fork();
        if (pids[i] == 0)
            worker(i);
    }
    for (int i = 0; i < n; ++i)
    {
        int st;
        while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR)
            ;
        if (st)
            engine_error("worker died", "", 0);
    }
}

void json_str(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; ++s)
    {
        if (*s == '"' || *s == '\\')
            fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32)
            fprintf(f, "\\u%04x", *s);
        else
            fputc(*s, f);
    }
    fputc('"', f);
}

void freeze()
{
    memcpy(sh->confl_frozen, sh->confl, sizeof sh->confl);
    memcpy(sh->racy_frozen, sh->racy, sizeof sh->racy);
    memset(sh->racy_bloom, 0, sizeof sh->racy_bloom);
    for (uint64_t pc : sh->racy_frozen)
        if (pc)
            sh->racy_bloom[(pc * 0x9e3779b1u >> 8) & 0xffff] = 1;
}

const char *kind_name(int s)
{
    switch (s)
    {
    case ST_FAIL: return "oracle";
    case ST_DEADLOCK: return "deadlock";
    case ST_LIVELOCK: return "livelock";
    case ST_CRASH: return "crash";
    case ST_UAF: return "memory";
    case ST_TIMEOUT: return "hang";
    case ST_OK: return "ok";
    case ST_PRUNED: return "pruned";
    case ST_DIVERGED: return "diverged";
    case ST_INTERNAL: return "internal";
    default: return "none";
    }
}

const mc::scenario *find(const char *n)
{
    for (auto *s = mc::scenarios(); s; s = s->next)
        if (!strcmp(s->name, n))
            return s;
    fprintf(stderr, "no scenario %s\n", n);
    exit(2);
}

int replay(const char *file)
{
    FILE *f = fopen(file, "r");
    if (!f)
    {
        perror(file);
        return 2;
    }
    static run_cfg c;
    char line[4096], nm[256];
    while (fgets(line, sizeof line, f))
    {
        unsigned pos, val, hash;
        unsigned long long pc;
        if (sscanf(line, "scenario %255s", nm) == 1)
            S = find(nm);
        else if (sscanf(line, "dev %u %u %x", &pos, &val, &hash) == 3)
            c.dev[c.ndev++] = deviation {pos, hash, (uint8_t)val, 1};
        else if (sscanf(line, "racy %llx", &pc) == 1)
            racy_pc_add(pc);
    }
    fclose(f);
    freeze();
    c.trace = trace;
    run_one(c, bufs[0], 60);
    run_buf *b = bufs[0];
    printf("replay %s: %s: %s\n%s\n(%u scheduling points, %u choice points, %u threads)\n", S->name, kind_name(b->status), b->msg, b->dump, b->npoints, b->ncp, b->nth);
    return b->status == ST_OK ? 0 : b->status == ST_DIVERGED || b->status == ST_INTERNAL ? 2 : 1;
}

}

bool rt::visit(uint64_t hash, uint32_t budget)
{
    uint64_t key = hash & ~15ULL;
    if (!key)
        key = 16;
    uint64_t i = (hash >> 20) % VIS_N;
    for (int k = 0; k < 4096; ++k, i = (i + 1) % VIS_N)
    {
        uint64_t v = __atomic_load_n(&vis[i], __ATOMIC_RELAXED);
        for (;;)
        {
            if (v == 0)
            {
                if (__atomic_compare_exchange_n(&vis[i], &v, key | (budget + 1), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                {
                    __atomic_fetch_add(&C->states, 1, __ATOMIC_RELAXED);
                    return true;
                }
                continue;
            }
            if ((v & ~15ULL) == key)
            {
                if ((v & 15) >= budget + 1)
                    return false;
                if (__atomic_compare_exchange_n(&vis[i], &v, key | (budget + 1), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                    return true;
                continue;
            }
            break;
        }
    }
    return true; // table crowded: no pruning, still sound
}

int main(int argc, char **argv)
{
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE))
    {
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0)
            execv("/proc/self/exe", argv);
    }
    const char *scn = nullptr, *out = nullptr, *rep = nullptr, *schedule = nullptr;
    int b = 1;
    double secs = 30, race_secs = 3;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        auto is = [&](const char *o) { return !strcmp(argv[i], o) && i + 1 < argc; };
        if (is("--scenario"))
            scn = argv[++i];
        else if (is("--bound"))
            b = atoi(argv[++i]);
        else if (is("--time"))
            secs = atof(argv[++i]);
        else if (is("--race-time"))
            race_secs = atof(argv[++i]);
        else if (is("--workers"))
            workers = atoi(argv[++i]);
        else if (is("--out"))
            out = argv[++i];
        else if (is("--replay"))
            rep = argv[++i];
        else if (is("--schedule"))
            schedule = argv[++i];
        else if (!strcmp(argv[i], "--keep-going"))
            keep_going = true;
        else if (!strcmp(argv[i], "--trace"))
            trace = true;
        else if (!strcmp(argv[i], "--list"))
            list = true;
        else
        {
            fprintf(stderr, "bad option %s\n", argv[i]);
            return 2;
        }
    }
    if (list)
    {
        for (auto *s = mc::scenarios(); s; s = s->next)
            printf("%s\n", s->name);
        return 0;
    }
    rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    sh = shm<shared>(sizeof(shared));
    C = shm<ctl>(sizeof(ctl));
    pool = shm<job>(POOL_N * sizeof(job));
    vis = shm<uint64_t>(VIS_N * 8);
    for (auto &q : queue)
        q = shm<uint32_t>(POOL_N * 4);
    if (workers > MAXW)
        workers = MAXW;
    if (b >= MAXLEVEL)
        b = MAXLEVEL - 1;
    for (int i = 0; i < workers || i < 1; ++i)
        bufs[i] = shm<run_buf>(sizeof(run_buf));
    if (rep)
        return replay(rep);
    if (!scn)
    {
        fprintf(stderr, "usage: --scenario NAME --bound D --time S\n");
        return 2;
    }
    S = find(scn);
    double t0 = now_s();
    // Phase 1: find the code locations that touch shared objects, and the unsynchronised accesses.
    explore(b > 0 ? 1 : 0, true, race_secs, 4000);
    uint64_t phase1 = C->execs;
    int restarts = -1;
    double left;
    uint32_t nconfl0 = 0;
    uint64_t total_execs = C->execs;
    if (C->stop == 0 || C->stop == 2)
    {
        do
        {
            freeze();
            nconfl0 = sh->nconfl;
            ++restarts;
            left = secs - (now_s() - t0);
            explore(b, false, left > 0.5 ? left : 0.5, 0);
            total_execs += C->execs;
        } while (C->stop == 0 && sh->nconfl != nconfl0 && now_s() - t0 < secs);
    }
    double wall = now_s() - t0;
    bool complete = C->stop == 0 && sh->nconfl == nconfl0;
    int done_level = -1;
    for (int l = 0; l <= b; ++l)
        if (C->head[l] >= C->tail[l] && (C->stop == 0 || (int)C->stop_level > l))
            done_level = l;
        else
            break;
    FILE *f = out ? fopen(out, "w") : stdout;
    fprintf(f, "{\"scenario\":");
    json_str(f, S->name);
    fprintf(f, ",\"bound\":%d,\"complete\":%s,\"level_done\":%d,\"execs\":%llu,\"phase1\":%llu,\"total_execs\":%llu,\"restarts\":%d,\"pruned\":%llu,\"states\":%llu,\"transitions\":%llu,\"accesses\":%llu,"
               "\"outcomes\":%llu,\"max_points\":%llu,\"max_choices\":%llu,\"threads\":%u,\"conflict_sites\":%u,\"racy_sites\":%u,\"confirm\":%llu,\"wall\":%.2f,\"stop\":%u,\"levels\":[",
            b, complete ? "true" : "false", done_level, (unsigned long long)C->execs, (unsigned long long)phase1, (unsigned long long)total_execs, restarts, (unsigned long long)C->pruned, (unsigned long long)C->states,
            (unsigned long long)C->points, (unsigned long long)C->accesses, (unsigned long long)C->outcomes, (unsigned long long)C->maxpoints, (unsigned long long)C->maxcp,
            C->maxth, sh->nconfl, sh->nracy, (unsigned long long)C->confirm, wall, C->stop);
    for (int l = 0; l <= b; ++l)
        fprintf(f, "%s{\"runs\":%llu,\"queued\":%u}", l ? "," : "", (unsigned long long)C->runs[l], C->tail[l]);
    fprintf(f, "],\"sample\":{\"points\":%u,\"deviations\":[", C->sample_points);
    for (uint32_t k = 0; k < C->sample_n; ++k)
        fprintf(f, "%s[%u,%u]", k ? "," : "", C->sample[k].pos, C->sample[k].val);
    fprintf(f, "]},\"violations\":[");
    for (uint32_t i = 0; i < C->nviol; ++i)
    {
        violation &v = C->viol[i];
        fprintf(f, "%s{\"kind\":\"%s\",\"msg\":", i ? "," : "", kind_name(v.status));
        json_str(f, v.msg);
        fprintf(f, ",\"dump\":");
        json_str(f, v.dump);
        fprintf(f, ",\"schedule\":[");
        for (uint32_t k = 0; k < v.ndev; ++k)
            fprintf(f, "%s[%u,%u,\"%x\"]", k ? "," : "", v.dev[k].pos, v.dev[k].val, v.dev[k].hash);
        fprintf(f, "]}");
    }
    fprintf(f, "],\"error\":");
    json_str(f, C->stop == 3 ? C->err : "");
    fprintf(f, "}\n");
    if (out)
        fclose(f);
    if (schedule && C->nviol)
    {
        FILE *g = fopen(schedule, "w");
        if (g)
        {
            violation &v = C->viol[0];
            fprintf(g, "scenario %s\n# %s: %s\n", S->name, kind_name(v.status), v.msg);
            for (uint32_t k = 0; k < v.ndev; ++k)
                fprintf(g, "dev %u %u %x\n", v.dev[k].pos, v.dev[k].val, v.dev[k].hash);
            if (!race_mode)
                for (uint64_t pc : sh->racy_frozen)
                    if (pc)
                        fprintf(g, "racy %llx\n", (unsigned long long)pc);
            fclose(g);
        }
    }
    if (C->stop == 3)
        return 2;
    return C->nviol ? 1 : 0;
}
