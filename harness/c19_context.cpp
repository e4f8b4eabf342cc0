// C19: a suspended coroutine finds its registers, stack and exceptions as it left them.
#include "common.h"

#include <cfenv>
#include <exception>
#include <xmmintrin.h>

namespace
{

// Loads the callee-saved registers from v[0..5], calls f, returns a bit for every register that changed.
extern "C" uint64_t call_with_registers(const uint64_t *v, void (*f)());
asm(R"(
    .text
    .globl call_with_registers
call_with_registers:
    pushq %rbx
    pushq %rbp
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    pushq %rdi
    movq 0(%rdi), %rbx
    movq 8(%rdi), %rbp
    movq 16(%rdi), %r12
    movq 24(%rdi), %r13
    movq 32(%rdi), %r14
    movq 40(%rdi), %r15
    call *%rsi
    popq %rdi
    xorl %eax, %eax
    cmpq 0(%rdi), %rbx
    je 1f
    orl $1, %eax
1:  cmpq 8(%rdi), %rbp
    je 1f
    orl $2, %eax
1:  cmpq 16(%rdi), %r12
    je 1f
    orl $4, %eax
1:  cmpq 24(%rdi), %r13
    je 1f
    orl $8, %eax
1:  cmpq 32(%rdi), %r14
    je 1f
    orl $16, %eax
1:  cmpq 40(%rdi), %r15
    je 1f
    orl $32, %eax
1:  popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbp
    popq %rbx
    ret
)");

unsigned x87_control()
{
    unsigned short cw;
    asm volatile("fnstcw %0" : "=m"(cw));
    return cw;
}
void set_x87_control(unsigned short cw)
{
    asm volatile("fldcw %0" ::"m"(cw));
}

void plain_yield()
{
    this_co::yield();
}

struct mine
{
    int owner, serial;
};

struct actor
{
    int id;
    int serial {0};
    unsigned csr, cw;
    int live {0}; // exceptions being handled
    h::cell<int> *budget;

    void suspend()
    {
        ++serial;
        uint64_t v[6];
        for (int i = 0; i < 6; ++i)
            v[i] = 0x0101010101010101ULL * (uint64_t)(id * 32 + i + serial * 7);
        uint64_t bad = call_with_registers(v, plain_yield);
        MC_CHECK(bad == 0, "callee-saved registers change across a suspension (%llx)", (unsigned long long)bad);
        check_control();
    }
    void check_control()
    {
        MC_CHECK((_mm_getcsr() & 0xffc0) == csr, "the SSE control state changes across a suspension (%x instead of %x)", _mm_getcsr() & 0xffc0, csr);
        MC_CHECK(x87_control() == cw, "the x87 control state changes across a suspension (%x instead of %x)", x87_control(), cw);
    }
    void set_control(unsigned rounding)
    {
        csr = (csr & ~0x6000u) | rounding << 13;
        cw = (cw & ~0xc00u) | rounding << 10;
        _mm_setcsr(csr);
        set_x87_control((unsigned short)cw);
    }
};

enum op
{
    SUSPEND,
    DEEPER,
    BACK,
    CATCH,
    UNWIND,
    ROUNDING,
    OPS
};

void level(actor &a, int depth);

struct unwinding
{
    actor &a;
    int depth;
    int before {std::uncaught_exceptions()};
    ~unwinding()
    {
        MC_CHECK(std::uncaught_exceptions() == before + 1, "%d exceptions in flight instead of %d", std::uncaught_exceptions(), before + 1);
        level(a, depth + 1);
        MC_CHECK(std::uncaught_exceptions() == before + 1, "%d exceptions in flight instead of %d after a suspension", std::uncaught_exceptions(), before + 1);
    }
};

template <int SIZE>
__attribute__((noinline)) void frame(actor &a, int depth)
{
    volatile unsigned char local[SIZE];
    unsigned char seed = (unsigned char)(a.id * 61 + a.serial * 17 + depth);
    for (int i = 0; i < SIZE; i += 61)
        local[i] = (unsigned char)(seed + i);
    level(a, depth);
    for (int i = 0; i < SIZE; i += 61)
        MC_CHECK(local[i] == (unsigned char)(seed + i), "the stack of a coroutine changes while it is suspended");
}

__attribute__((noinline)) void level(actor &a, int depth)
{
    MC_CHECK(((uintptr_t)__builtin_frame_address(0) & 15) == 0, "the stack of a coroutine is not aligned");
    alignas(16) volatile long guard[4] = {a.id, depth, ~(long)a.id, a.serial};
    long serial = a.serial;
    int flying = std::uncaught_exceptions();
    for (bool on = true; on && a.budget->get() > 0;)
    {
        a.budget->add(-1);
        switch (mc::choose(OPS))
        {
        case SUSPEND:
            a.suspend();
            break;
        case DEEPER:
            if (depth & 1)
                frame<9000>(a, depth + 1);
            else
                frame<100>(a, depth + 1);
            break;
        case BACK:
            on = depth == 0;
            if (on)
                a.suspend();
            break;
        case CATCH: {
            int s = ++a.serial;
            try
            {
                throw mine {a.id, s};
            }
            catch (mine &m)
            {
                auto current = std::current_exception();
                ++a.live;
                a.suspend();
                level(a, depth + 1);
                --a.live;
                MC_CHECK(m.owner == a.id && m.serial == s, "an exception being handled changes while its handler is suspended");
                MC_CHECK(std::current_exception() == current, "another exception is being handled after a suspension");
                bool same = false;
                try
                {
                    throw;
                }
                catch (mine &again)
                {
                    same = &again == &m;
                }
                catch (...)
                {
                }
                MC_CHECK(same, "rethrowing in a handler throws another exception after a suspension");
            }
            break;
        }
        case UNWIND: {
            int s = ++a.serial;
            try
            {
                unwinding u {a, depth};
                throw mine {a.id, s};
            }
            catch (mine &m)
            {
                MC_CHECK(m.owner == a.id && m.serial == s, "a propagating exception changes while the coroutine is suspended");
            }
            break;
        }
        case ROUNDING:
            a.set_control((unsigned)(1 + a.id));
            a.suspend();
            break;
        }
        MC_CHECK(std::uncaught_exceptions() == flying, "%d exceptions in flight instead of %d", std::uncaught_exceptions(), flying);
        MC_CHECK((std::current_exception() != nullptr) == (a.live > 0), "an exception of another coroutine is being handled here");
    }
    MC_CHECK(guard[0] == a.id && guard[1] == depth && guard[2] == ~(long)a.id && guard[3] == serial, "the stack of a coroutine changes while it is suspended");
    a.suspend();
}

void body(int id, h::cell<int> *budget)
{
    MC_CHECK((_mm_getcsr() & 0xffc0) == 0x1f80 && x87_control() == 0x37f, "a coroutine starts with another floating point control state (%x %x)", _mm_getcsr() & 0xffc0, x87_control());
    actor a {id, 0, 0x1f80, 0x37f, 0, budget};
    level(a, 0);
    h::finish(id);
}

void programs(int n, int ops, const bool *shared)
{
    auto e = h::make_envs(1);
    auto *budget = new h::cell<int>;
    budget->set(ops);
    for (int i = 0; i < n; ++i)
    {
        bool s = shared[i];
        co c({with_bind_env(e[0]), with_shared_stack(s), with_stack_size(64 * 1024)}, [=] { body(i, budget); });
        c.detach();
    }
    mc::quiesce();
    h::expect_all(n, "a coroutine never continues");
}

}

MC_SCENARIO(context_private, {})
{
    bool shared[3] = {};
    programs(2 + mc::choose(2), 5, shared);
}

MC_SCENARIO(context_shared, {})
{
    bool shared[3] = {true, true, true};
    programs(2 + mc::choose(2), 5, shared);
}

MC_SCENARIO(context_mixed, {})
{
    bool shared[3];
    int mask = 1 + mc::choose(6);
    for (int i = 0; i < 3; ++i)
        shared[i] = mask >> i & 1;
    programs(3, 4, shared);
}

// Stack sizes, also odd ones, and arguments that need alignment.
MC_SCENARIO(context_sizes, {})
{
    auto e = h::make_envs(1);
    static const size_t sizes[] = {16 * 1024, 20000, 16 * 1024 + 8, 16 * 1024 + 1, 65536 - 4, 32 * 1024 + 24, 1 << 20, 10 << 20};
    size_t size = sizes[mc::choose(8)];
    size_t second = sizes[mc::choose(8)];
    bool shared = mc::choose(2);
    if (shared)
        co::set_env_shared_stack_size(size);
    co_env *env = shared ? co::create_env(true) : e[0];
    mc::quiesce();
    for (int i = 0; i < 2; ++i)
    {
        co c({with_bind_env(env), with_shared_stack(shared), with_stack_size(i ? second : size)}, [=] {
            auto *budget = new h::cell<int>;
            actor a {i, 0, 0x1f80, 0x37f, 0, budget};
            frame<4000>(a, 0);
            volatile double x = 1.5 + i;
            char buf[64];
            a.suspend();
            snprintf(buf, sizeof buf, "%f", x); // movaps in varargs functions
            MC_CHECK(!strcmp(buf, i ? "2.500000" : "1.500000"), "a value on the stack is %s", buf);
            frame<8000>(a, 1);
            h::finish(i);
        });
        c.detach();
    }
    mc::quiesce();
    h::expect_all(2, "a coroutine never continues");
}

// The environment's own thread and plain threads keep their state as well.
MC_SCENARIO(context_thread, {})
{
    auto e = h::make_envs(1);
    auto *a = new actor {1, 0, 0x1f80, 0x37f, 0, nullptr};
    a->set_control(2);
    auto *c = new co({with_bind_env(e[0])}, [] {
        MC_CHECK((_mm_getcsr() & 0xffc0) == 0x1f80 && x87_control() == 0x37f, "a coroutine starts with another floating point control state");
        try
        {
            throw 1;
        }
        catch (int)
        {
            this_co::yield();
        }
    });
    try
    {
        throw mine {9, 9};
    }
    catch (mine &m)
    {
        c->wait<void>();
        a->suspend();
        MC_CHECK(m.owner == 9 && std::current_exception(), "an exception being handled changes while its handler is suspended");
    }
    a->check_control();
}

// A body ends with an exception while another coroutine handles one.
MC_SCENARIO(context_body_throws, {})
{
    auto e = h::make_envs(1);
    bool shared = mc::choose(2);
    auto *waiting = new co({with_bind_env(e[0]), with_shared_stack(shared)}, [=] {
        try
        {
            throw mine {1, 1};
        }
        catch (mine &m)
        {
            co c({with_bind_env(e[0]), with_shared_stack(shared)}, [] {
                this_co::yield();
                throw mine {2, 2};
            });
            bool got = false;
            try
            {
                c.join();
            }
            catch (mine &n)
            {
                this_co::yield();
                got = n.owner == 2;
            }
            MC_CHECK(got, "the exception of a body does not reach its waiter");
            this_co::yield();
            MC_CHECK(m.owner == 1, "an exception being handled changes");
            try
            {
                throw;
            }
            catch (mine &n)
            {
                MC_CHECK(n.owner == 1, "rethrowing in a handler throws another exception after a suspension");
            }
        }
        MC_CHECK(!std::current_exception(), "an exception is being handled after its handler");
        h::finish(0);
    });
    waiting->detach();
    mc::quiesce();
    h::expect_all(1, "a coroutine never continues");
}

// So many suspensions that the unused part of the stacks is given back.
MC_SCENARIO(context_long, {.max_points = 2'000'000})
{
    auto e = h::make_envs(1);
    bool shared = mc::choose(2);
    for (int i = 0; i < 2; ++i)
    {
        co c({with_bind_env(e[0]), with_shared_stack(shared), with_stack_size(64 * 1024)}, [=] {
            auto *budget = new h::cell<int>;
            actor a {i, 0, 0x1f80, 0x37f, 0, budget};
            volatile unsigned char local[9000];
            for (int round = 0; round < 3; ++round)
            {
                for (int k = 0; k < 9000; ++k)
                    local[k] = (unsigned char)(k * 7 + i + round);
                frame<9000>(a, 0);
                for (int k = 0; k < 380; ++k)
                    this_co::yield();
                frame<100>(a, 1);
                for (int k = 0; k < 9000; ++k)
                    MC_CHECK(local[k] == (unsigned char)(k * 7 + i + round), "the stack of a coroutine changes while it is suspended");
            }
            h::finish(i);
        });
        c.detach();
    }
    mc::quiesce();
    h::expect_all(2, "a coroutine never continues");
}

// Very many coroutines, most of them on the shared stack, each with data of its own.
MC_SCENARIO(context_many, {.max_points = 60'000'000})
{
    auto *x = new h::crowd(1);
    int n = h::many();
    int kind = mc::choose(3); // shared, private, mixed
    for (int i = 0; i < n; ++i)
    {
        ++x->n;
        new co({with_bind_env(x->e[0]), with_shared_stack(kind == 0 || (kind == 2 && i % 3))}, [=] {
            volatile int data[200];
            int size = 10 + i * 37 % 190;
            for (int k = 0; k < 3; ++k)
            {
                for (int j = 0; j < size; ++j)
                    data[j] = i * 1000 + j + k;
                this_co::yield();
                for (int j = 0; j < size; ++j)
                    MC_CHECK(data[j] == i * 1000 + j + k, "the stack of one of many coroutines is changed");
            }
            x->ended.add(1);
        });
    }
    x->all("one of many never finishes");
}

// Coroutines bound to no environment wait behind one that blocks the thread, while the monitor shares out the work.
MC_SCENARIO(context_moved, {})
{
    h::no_monitor();
    co::set_base_schedule_thread_count(1);
    co::set_max_schedule_thread_count(4);
    co::create_env(true);
    int mask = mc::choose(8), way = mc::choose(3);
    mc::begin();
    for (int i = 0; i < 3; ++i)
    {
        co c({with_shared_stack(mask >> i & 1)}, [=] {
            volatile int data[300];
            volatile int *at = data;
            for (int r = 0; r < 4; ++r)
            {
                for (int j = 0; j < 300; j += 7)
                    data[j] = i * 1000 + j + r;
                actor a {i, r, _mm_getcsr() & 0xffc0, x87_control(), 0, nullptr};
                try
                {
                    if (way == 2)
                        throw mine {i, r};
                    a.suspend();
                }
                catch (mine &m)
                {
                    a.suspend();
                    MC_CHECK(m.owner == i && m.serial == r, "an exception being handled changes while its handler is suspended");
                }
                if (r == i)
                    mc::block_ms(60);
                else if (way == 1)
                    this_co::sleep_for(20ms);
                a.suspend();
                MC_CHECK(data == at, "the stack of a coroutine is at another place after a suspension");
                for (int j = 0; j < 300; j += 7)
                    MC_CHECK(data[j] == i * 1000 + j + r, "the stack of a coroutine changes while it is suspended");
            }
            h::finish(i);
        });
        c.detach();
    }
    co::create_env(true);
    std::thread t([] {
        for (int i = 0; i < 12; ++i)
        {
            co_manager::instance()->timing_routine_timeout().pub();
            mc::block_ms(15);
        }
    });
    t.join();
    mc::settle(1000);
    mc::end();
    h::expect_all(3, "a coroutine never continues");
}
