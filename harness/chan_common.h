// What producers and consumers of a channel did.
#pragma once
#include "common.h"

namespace
{

constexpr int MAXV = 16;

struct traffic
{
    co_chan<int> ch;
    int cap; // -1 unlimited, 0 rendezvous
    h::cell<int> pops_begun, pushes_ok, closing, closed;
    h::cell<int> accepted[MAXV]; // 1 push succeeded, 2 push failed
    h::cell<int> taken[MAXV];
    traffic(int cap)
        : ch(cap)
        , cap(cap)
    {
    }
    bool push(int v)
    {
        mc::mark();
        int was_closed = closed.get();
        bool ok = ch.push(v);
        mc::mark();
        accepted[v].set(ok ? 1 : 2);
        if (ok)
        {
            MC_CHECK(!was_closed, "a push after close succeeds");
            pushes_ok.add(1);
            if (cap >= 0)
                MC_CHECK(pushes_ok.get() - pops_begun.get() <= cap, "%d pushes have succeeded with %d pops and capacity %d", pushes_ok.get(), pops_begun.get(), cap);
        }
        else
            MC_CHECK(closing.get(), "a push into an open channel fails");
        return ok;
    }
    // Returns the item or -1 at the end.
    int pop()
    {
        mc::mark();
        pops_begun.add(1);
        auto r = ch.pop();
        mc::mark();
        if (!r)
        {
            MC_CHECK(closing.get(), "a pop reports the end of an open channel");
            return -1;
        }
        MC_CHECK(*r >= 0 && *r < MAXV, "a pop delivers an item that was never pushed");
        MC_CHECK(taken[*r].get() == 0, "item %d is delivered twice", *r);
        taken[*r].set(1);
        return *r;
    }
    void close()
    {
        mc::mark();
        closing.set(1);
        ch.close();
        mc::mark();
        closed.set(1);
    }
    void produce(int from, int n)
    {
        for (int i = 0; i < n; ++i)
            push(from + i);
    }
    // Receives until the end; items of each producer (a block of 8) in order.
    void consume()
    {
        int last[2] = {-1, -1};
        for (;;)
        {
            int v = pop();
            if (v < 0)
                break;
            MC_CHECK(v > last[v / 8], "item %d of a producer arrives after item %d", v, last[v / 8]);
            last[v / 8] = v;
        }
    }
    // At the end: what was accepted has been received, what was refused has not.
    void balance(bool drained = true)
    {
        for (int v = 0; v < MAXV; ++v)
        {
            int a = accepted[v].get(), t = taken[v].get();
            MC_CHECK(!t || a == 1, a ? "item %d was delivered although its push failed" : "item %d was delivered but its push never returned", v);
            if (drained)
                MC_CHECK(t || a != 1, "item %d was accepted but never delivered", v);
            mc::outcome(a * 2 + t);
        }
    }
};

}
