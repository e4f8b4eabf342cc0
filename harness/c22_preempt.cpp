// C22: a computing coroutine is preempted, keeps everything it had, and never in the middle of the library.
#include "common.h"

#include <cstddef>
#include <sys/syscall.h>
#include <unistd.h>
#include <xmmintrin.h>

namespace
{

struct machine
{
    uint64_t g[8];             // 0
    uint64_t pid, tid;         // 64
    uint64_t og[8];            // 80
    uint64_t odx, osi, odi, f; // 144
    uint64_t x[16][2];         // 176
    uint64_t ox[16][2];        // 432
    double st, ost;            // 688
    uint64_t red[16];          // 704
    uint64_t ored[16];         // 832
};
static_assert(offsetof(machine, og) == 80 && offsetof(machine, odx) == 144 && offsetof(machine, x) == 176 && offsetof(machine, ox) == 432);
static_assert(offsetof(machine, st) == 688 && offsetof(machine, red) == 704 && offsetof(machine, ored) == 832);

// Fills registers, flags and red zone, lets a forced-scheduling signal arrive, and stores what is there afterwards.
extern "C" void interrupted(machine *m);
asm(R"(
    .text
    .globl interrupted
interrupted:
    pushq %rbx
    pushq %rbp
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rdi, %r15
    xorl %ecx, %ecx
1:  movq 704(%r15,%rcx,8), %rax
    movq %rax, -128(%rsp,%rcx,8)
    incl %ecx
    cmpl $16, %ecx
    jne 1b
    movq 0(%r15), %rbx
    movq 8(%r15), %rbp
    movq 16(%r15), %r8
    movq 24(%r15), %r9
    movq 32(%r15), %r10
    movq 40(%r15), %r12
    movq 48(%r15), %r13
    movq 56(%r15), %r14
    movups 176(%r15), %xmm0
    movups 192(%r15), %xmm1
    movups 208(%r15), %xmm2
    movups 224(%r15), %xmm3
    movups 240(%r15), %xmm4
    movups 256(%r15), %xmm5
    movups 272(%r15), %xmm6
    movups 288(%r15), %xmm7
    movups 304(%r15), %xmm8
    movups 320(%r15), %xmm9
    movups 336(%r15), %xmm10
    movups 352(%r15), %xmm11
    movups 368(%r15), %xmm12
    movups 384(%r15), %xmm13
    movups 400(%r15), %xmm14
    movups 416(%r15), %xmm15
    fldl 688(%r15)
    movq 64(%r15), %rdi
    movq 72(%r15), %rsi
    movl $10, %edx
    xorl %eax, %eax
    cmpl $1, %eax
    movl $234, %eax
    syscall
    lahf
    movzbl %ah, %eax
    movq %rax, 168(%r15)
    movq %rdi, 160(%r15)
    movq %rsi, 152(%r15)
    movq %rdx, 144(%r15)
    movq %rbx, 80(%r15)
    movq %rbp, 88(%r15)
    movq %r8, 96(%r15)
    movq %r9, 104(%r15)
    movq %r10, 112(%r15)
    movq %r12, 120(%r15)
    movq %r13, 128(%r15)
    movq %r14, 136(%r15)
    movups %xmm0, 432(%r15)
    movups %xmm1, 448(%r15)
    movups %xmm2, 464(%r15)
    movups %xmm3, 480(%r15)
    movups %xmm4, 496(%r15)
    movups %xmm5, 512(%r15)
    movups %xmm6, 528(%r15)
    movups %xmm7, 544(%r15)
    movups %xmm8, 560(%r15)
    movups %xmm9, 576(%r15)
    movups %xmm10, 592(%r15)
    movups %xmm11, 608(%r15)
    movups %xmm12, 624(%r15)
    movups %xmm13, 640(%r15)
    movups %xmm14, 656(%r15)
    movups %xmm15, 672(%r15)
    fstpl 696(%r15)
    xorl %ecx, %ecx
1:  movq -128(%rsp,%rcx,8), %rax
    movq %rax, 832(%r15,%rcx,8)
    incl %ecx
    cmpl $16, %ecx
    jne 1b
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbp
    popq %rbx
    ret
)");

long raw_syscall(long n)
{
    long r;
    asm volatile("syscall" : "=a"(r) : "a"(n) : "rcx", "r11", "memory");
    return r;
}

void interrupt_here(int seed)
{
    machine m;
    memset(&m, 0, sizeof m);
    for (int i = 0; i < 8; ++i)
        m.g[i] = 0x1111111111111111ULL * (uint64_t)(i + 1) + (uint64_t)seed;
    for (int i = 0; i < 16; ++i)
    {
        m.x[i][0] = 0x4142434445464748ULL + (uint64_t)(i * 3 + seed);
        m.x[i][1] = 0x5152535455565758ULL - (uint64_t)(i * 5 + seed);
        m.red[i] = 0xabcdef0000000000ULL + (uint64_t)(i * 9 + seed);
    }
    m.st = 1.25 * (seed + 1);
    m.pid = (uint64_t)raw_syscall(SYS_getpid);
    m.tid = (uint64_t)raw_syscall(SYS_gettid);
    unsigned csr = (_mm_getcsr() & ~0x6000u) | (unsigned)(seed % 4) << 13;
    _mm_setcsr(csr);
    errno = 1000 + seed;
    interrupted(&m);
    MC_CHECK(errno == 1000 + seed, "errno changes when a coroutine is preempted");
    MC_CHECK((_mm_getcsr() & ~0x3fu) == (csr & ~0x3fu), "the SSE control state changes when a coroutine is preempted");
    _mm_setcsr(0x1f80);
    for (int i = 0; i < 8; ++i)
        MC_CHECK(m.og[i] == m.g[i], "register %d changes when a coroutine is preempted", i);
    MC_CHECK(m.odi == m.pid && m.osi == m.tid && m.odx == 10, "an argument register changes when a coroutine is preempted");
    MC_CHECK(m.f == 0x97, "the flags change when a coroutine is preempted (%llx)", (unsigned long long)m.f);
    for (int i = 0; i < 16; ++i)
    {
        MC_CHECK(m.ox[i][0] == m.x[i][0] && m.ox[i][1] == m.x[i][1], "register xmm%d changes when a coroutine is preempted", i);
        MC_CHECK(m.ored[i] == m.red[i], "the red zone changes when a coroutine is preempted (%d)", i);
    }
    MC_CHECK(m.ost == m.st, "an x87 register changes when a coroutine is preempted");
}

// Runs beside: uses the registers itself, and must find the environment outside of everything.
void beside(h::cell<int> *ran, int rounds)
{
    for (int i = 0; i < rounds; ++i)
    {
        MC_CHECK(mc::held() == 0, "a coroutine was preempted while it held %d locks of the library", mc::held());
        volatile double a[16];
        for (int k = 0; k < 16; ++k)
            a[k] = k * 0.1 + i;
        double s = 0;
        for (int k = 0; k < 16; ++k)
            s += a[k] * a[(k + 1) & 15];
        volatile double keep = s;
        (void)keep;
        ran->add(1);
        this_co::yield();
    }
}

}

// Everything of the machine survives, whether the others are new, suspended or preempted themselves.
MC_SCENARIO(preempt_machine, {})
{
    auto e = h::make_envs(1);
    auto *ran = new h::cell<int>;
    int kind = mc::choose(4), shared = mc::choose(4), seed = mc::choose(4);
    co a({with_bind_env(e[0]), with_shared_stack(shared & 1), with_stack_size(128 * 1024)}, [=] {
        if (kind & 1)
            this_co::yield(); // the other one has started
        int before = ran->get();
        interrupt_here(seed);
        MC_CHECK(ran->get() > before, "a coroutine is not preempted");
        interrupt_here(seed + 1);
        this_co::yield();
        interrupt_here(seed + 2);
        h::finish(0);
    });
    co b({with_bind_env(e[0]), with_shared_stack(shared & 2), with_stack_size(128 * 1024)}, [=] {
        if (kind & 2)
            for (int i = 0; i < 4; ++i)
            {
                ran->add(1);
                interrupt_here(seed + 10 + i);
            }
        beside(ran, 6);
        h::finish(1);
    });
    mc::quiesce();
    h::expect_all(2, "a preempted coroutine never continues");
    a.detach();
    b.detach();
}

namespace
{

// A coroutine that only computes until the flag is set; time passes meanwhile.
void compute_until(h::cell<int> *flag)
{
    volatile uint64_t x[8] {};
    while (!flag->get())
    {
        for (int i = 0; i < 8; ++i)
            x[i] = x[(i + 3) & 7] * 7 + (uint64_t)i;
        mc::block_ms(1); // the other threads have a processor of their own
        mc::mark();
    }
}

co_env *ticking_env()
{
    co::set_base_schedule_thread_count(1);
    auto *e = co::create_env(true);
    mc::quiesce();
    return e;
}

}

// The real path: monitor thread, tick, signal.
MC_SCENARIO(preempt_monitor, {})
{
    auto *e = ticking_env();
    auto *flag = new h::cell<int>;
    bool shared = mc::choose(2);
    mc::begin();
    h::go(e, 0, [=] { compute_until(flag); });
    new co({with_bind_env(e), with_shared_stack(shared)}, [=] {
        flag->set(1);
        h::finish(1);
    });
    mc::settle(1000);
    mc::end();
    h::expect_all(2, "a computing coroutine is never preempted");
}

// Others have finished, wait or sleep in the same environment.
MC_SCENARIO(preempt_company, {})
{
    auto *e = ticking_env();
    auto *flag = new h::cell<int>;
    int company = mc::choose(6);
    auto *mu = new co_mutex;
    auto *cvm = new co_mutex;
    auto *cv = new co_condition_variable;
    auto *sem = new co_binary_semaphore(0);
    auto *owner = new co([=] {
        mu->lock();
        this_co::sleep_for(500ms);
        mu->unlock();
    });
    mc::quiesce();
    switch (company)
    {
    case 0:
        (new co({with_bind_env(e)}, [] {}))->join();
        (new co({with_bind_env(e)}, [] {}))->detach();
        break;
    case 1:
        new co({with_bind_env(e)}, [=] { mu->lock(); mu->unlock(); });
        break;
    case 2:
        new co({with_bind_env(e)}, [=] { std::unique_lock lk(*cvm); cv->wait(lk); });
        break;
    case 3:
        new co({with_bind_env(e)}, [=] { sem->acquire(); });
        break;
    case 4:
        new co({with_bind_env(e)}, [=] { this_co::sleep_for(600ms); });
        break;
    default:
        new co({with_bind_env(e)}, [=] { owner->wait<void>(); });
        break;
    }
    mc::quiesce();
    mc::begin();
    h::go(e, 0, [=] { compute_until(flag); });
    h::go(e, 1, [=] { flag->set(1); });
    mc::settle(300);
    mc::end();
    h::expect_all(2, "a computing coroutine is never preempted");
}

// Several computing coroutines, each waiting for the next one.
MC_SCENARIO(preempt_relay, {})
{
    auto *e = ticking_env();
    int n = 2 + mc::choose(2);
    auto *flags = new h::cell<int>[4];
    for (int i = 0; i < n; ++i)
        h::go(e, i, [=] {
            compute_until(&flags[i]);
            if (i)
                flags[i - 1].set(1);
        });
    h::go(e, n, [=] { flags[n - 1].set(1); });
    mc::block_ms(2000);
    h::expect_all(n + 1, "a computing coroutine is never preempted");
}

// An environment that is scheduling on its own is left alone.
MC_SCENARIO(preempt_none, {})
{
    auto *e = ticking_env();
    auto *flag = new h::cell<int>;
    h::go(e, 0, [=] {
        for (int i = 0; i < 60; ++i)
        {
            mc::block_ms(1);
            this_co::yield();
        }
        flag->set(1);
    });
    h::go(e, 1, [=] {
        while (!flag->get())
            this_co::yield();
    });
    mc::block_ms(300);
    h::expect_all(2, "a participant never finishes");
    MC_CHECK(mc::signals_sent() == 0, "an environment that schedules is interrupted");
}

namespace
{

// One forced-scheduling signal at any memory access of f; all k up to `most` are tried.
template <typename F>
void anywhere(int most, F f)
{
    auto e = h::make_envs(2);
    auto *ran = new h::cell<int>;
    int block = mc::choose((most + 49) / 50);
    int k = 1 + block * 50 + mc::choose(50);
    h::go(e[0], 0, [=] {
        mc::signal_after(k);
        f(e);
        mc::signal_after(0);
    });
    h::go(e[0], 1, [=] { beside(ran, 3); });
    mc::settle(60'000);
    h::expect_all(2, "a participant never finishes after a preemption");
    mc::outcome(mc::signals_sent());
}

}

MC_SCENARIO(preempt_in_yield, {})
{
    anywhere(3500, [](auto &) {
        this_co::yield();
        this_co::yield();
    });
}
MC_SCENARIO(preempt_in_create, {})
{
    anywhere(6500, [](auto &e) {
        co c({with_bind_env(e[0])}, [] { MC_CHECK(mc::held() == 0, "a coroutine was preempted while it held %d locks of the library", mc::held()); });
        c.join();
    });
}
MC_SCENARIO(preempt_in_create_free, {})
{
    anywhere(1200, [](auto &) {
        co c([] {});
        c.detach();
    });
}
MC_SCENARIO(preempt_in_mutex, {})
{
    anywhere(1200, [](auto &) {
        co_mutex m;
        m.lock();
        m.unlock();
        co_recursive_mutex r;
        r.lock();
        r.unlock();
        co_shared_mutex s;
        s.lock_shared();
        s.unlock_shared();
        s.lock();
        s.unlock();
    });
}
MC_SCENARIO(preempt_in_sleep, {})
{
    anywhere(6500, [](auto &) { this_co::sleep_for(1ms); });
}
MC_SCENARIO(preempt_in_timer, {})
{
    anywhere(1200, [](auto &) {
        auto t = co_timer::create([] {}, co_expire_type::once, 1000);
        t->start();
        t->reset();
        t->stop();
    });
}
MC_SCENARIO(preempt_in_sync, {})
{
    anywhere(1200, [](auto &) {
        co_binary_semaphore s(1);
        s.acquire();
        s.release();
        co_chan<int> c(1);
        c.push(1);
        c.pop();
        co_latch l(1);
        l.count_down();
        l.wait();
    });
}
MC_SCENARIO(preempt_in_cv, {})
{
    anywhere(4500, [](auto &) {
        co_mutex m;
        co_condition_variable cv;
        std::unique_lock lk(m);
        cv.notify_one();
        cv.notify_all();
        cv.wait_for(lk, 1ms);
    });
}
MC_SCENARIO(preempt_in_local, {})
{
    anywhere(1200, [](auto &) {
        CoLocal(a, int) = 1;
        CoLocal(b, int) = 2;
        CoCurrentCtx()->set_priority(50);
        CoCurrentCtx()->set_priority(99);
    });
}

// The first shared-stack coroutines of an environment, from two of its coroutines.
MC_SCENARIO(preempt_in_create_shared, {})
{
    auto e = h::make_envs(1);
    auto *ran = new h::cell<int>;
    int block = mc::choose(24);
    int k = 1 + block * 50 + mc::choose(50);
    auto make = [=] {
        co c({with_bind_env(e[0]), with_shared_stack(true)}, [=] { ran->add(1); });
        c.detach();
    };
    h::go(e[0], 0, [=] {
        mc::signal_after(k);
        make();
        mc::signal_after(0);
    });
    h::go(e[0], 1, [=] { make(); });
    mc::settle(60'000);
    h::expect_all(2, "a participant never finishes after a preemption");
    MC_CHECK(ran->get() == 2, "a coroutine does not run (%d of 2)", ran->get());
    mc::outcome(mc::signals_sent());
}

namespace
{

// Two coroutines of one environment and one of another use the same objects; a signal at any memory access of the
// first one.
template <typename F>
void together(int most, int n, F f)
{
    auto e = h::make_envs(2);
    int k = 1 + 50 * mc::choose((most + 49) / 50) + mc::choose(50);
    h::go(e[0], 0, [=] {
        mc::signal_after(k);
        f(0);
        mc::signal_after(0);
    });
    for (int i = 1; i < n; ++i)
        h::go(e[i == 2], i, [=] { f(i); });
    mc::settle(60'000);
    h::expect_all(n, "a participant never finishes after a preemption");
    mc::outcome(mc::signals_sent());
}

}

MC_SCENARIO(preempt_locks, {})
{
    int kind = mc::choose(4);
    mc::outcome(kind);
    auto *s = new h::section;
    auto *m = new co_mutex;
    auto *r = new co_recursive_mutex;
    auto *w = new co_shared_mutex;
    auto *t = new co_timed_mutex;
    together(2000, 3, [=](int i) {
        auto use = [=] {
            s->enter_unique("a mutex");
            this_co::yield();
            s->leave_unique();
        };
        for (int k = 0; k < 2; ++k)
            switch (kind)
            {
            case 0: {
                std::scoped_lock lk(*m);
                use();
                break;
            }
            case 1: {
                std::scoped_lock lk(*r);
                std::scoped_lock again(*r);
                use();
                break;
            }
            case 2:
                if (i + k == 1)
                {
                    w->lock_shared();
                    s->enter_shared("a shared mutex");
                    this_co::yield();
                    s->leave_shared();
                    w->unlock_shared();
                }
                else
                {
                    std::scoped_lock lk(*w);
                    use();
                }
                break;
            default:
                if (t->try_lock_for(30s))
                {
                    use();
                    t->unlock();
                }
                else
                    MC_CHECK(false, "a timed lock gives up although the mutex becomes free");
            }
    });
}

MC_SCENARIO(preempt_sync, {})
{
    int kind = mc::choose(5);
    mc::outcome(kind);
    auto *s = new h::section;
    auto *one = new co_binary_semaphore(1);
    auto *b = new co_barrier(3);
    auto *arrived = new h::cell<int>;
    auto *l = new co_latch(3);
    auto *once = new co_once_flag;
    auto *ran = new h::cell<int>;
    auto *ev = new co_event<int>;
    together((const int[]){2700, 5200, 3600, 1100, 600}[kind], 3, [=](int i) {
        for (int k = 0; k < 2; ++k)
            switch (kind)
            {
            case 0:
                one->acquire();
                s->enter_unique("a semaphore with one permit");
                this_co::yield();
                s->leave_unique();
                one->release();
                break;
            case 1:
                arrived->add(1);
                b->arrive_and_wait();
                MC_CHECK(arrived->get() >= 3 * (k + 1), "a phase is left after %d arrivals", arrived->get());
                break;
            case 2:
                if (k == 0)
                {
                    arrived->add(1);
                    l->count_down();
                }
                l->wait();
                MC_CHECK(arrived->get() == 3, "a wait on a latch returns after %d of 3", arrived->get());
                break;
            case 3:
                co_call_once(*once, [=] {
                    this_co::yield();
                    ran->add(1);
                });
                MC_CHECK(ran->get() == 1, "the function ran %d times", ran->get());
                break;
            default: {
                auto *mine = new h::cell<int>;
                auto handle = ev->sub([=](int v) { mine->add(v == i); });
                ev->pub(i);
                MC_CHECK(mine->get() == 1, "a handler is called %d times", mine->get());
                ev->unsub(handle);
                ev->pub(i);
                MC_CHECK(mine->get() == 1, "a handler is called after it has unsubscribed");
            }
            }
    });
}

MC_SCENARIO(preempt_exchange, {})
{
    int kind = mc::choose(6);
    mc::outcome(kind);
    auto *m = new co_mutex;
    auto *cv = new co_condition_variable;
    auto *turn = new int(0);
    auto *ch = new co_chan<int>(kind == 2 || kind == 3 ? 0 : 1);
    together((const int[]){3800, 4500, 5800, 7400, 4000, 5800}[kind], 2, [=](int i) {
        if (kind < 2)
        {
            for (int k = 0; k < 3; ++k)
            {
                std::unique_lock lk(*m);
                auto mine = [=] { return *turn % 2 == i; };
                if (kind == 0)
                    cv->wait(lk, mine);
                else
                    MC_CHECK(cv->wait_for(lk, 1h, mine), "a wait gives up although it is notified");
                MC_CHECK(mine(), "a wait returns although its condition does not hold");
                ++*turn;
                cv->notify_all();
            }
            return;
        }
        if (i == kind % 2)
        {
            for (int k = 0; k < 3; ++k)
                MC_CHECK(ch->push(k), "an open channel does not take an item");
            ch->close();
        }
        else
        {
            for (int k = 0; k < 3; ++k)
            {
                auto v = ch->pop();
                MC_CHECK(v && *v == k, "an item is lost or out of order");
            }
            MC_CHECK(!ch->pop(), "an item appears");
        }
    });
}

MC_SCENARIO(preempt_wait, {})
{
    int kind = mc::choose(4);
    mc::outcome(kind);
    auto *done = new h::cell<int>;
    together(4600, 2, [=](int i) {
        auto *mine = co::current_env();
        co c({with_bind_env(mine), with_shared_stack(kind == 3)}, [=] {
            this_co::yield();
            done->add(1);
            return i + 5;
        });
        if (kind == 0 || kind == 3)
            MC_CHECK(c.wait<int>() == i + 5, "a wait gets another result");
        else if (kind == 1)
        {
            auto r = c.wait_for(1h);
            MC_CHECK(r && int(*r) == i + 5, "a timed wait gets another result or gives up");
        }
        else
        {
            auto r = c.wait_for(1ns);
            MC_CHECK(!r || int(*r) == i + 5, "a timed wait gets another result");
        }
    });
    mc::settle(1000);
    MC_CHECK(done->get() == 2, "a coroutine does not run (%d of 2)", done->get());
}
