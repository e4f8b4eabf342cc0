From a7eb4f5b1bb5f87ab046fa614ef6d51349bdf6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:17 +0000
Subject: [PATCH 01/48] fix: wake the waiting readers of a shared mutex, not
 the tail of the queue

remove_if leaves unspecified elements behind the returned iterator, so with a
writer queued between two readers the first reader was lost and the writer was
made a shared owner.
---
 source/cocpp/sync/co_shared_mutex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/sync/co_shared_mutex.cpp b/source/cocpp/sync/co_shared_mutex.cpp
index d10d05c..ac2894a 100644
--- a/source/cocpp/sync/co_shared_mutex.cpp
+++ b/source/cocpp/sync/co_shared_mutex.cpp
@@ -206,8 +206,8 @@ void co_shared_mutex::wake_up_waiters__()
         return;
     }
 
-    auto iter = remove_if(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
-        return c.type == lock_type::shared;
+    auto iter = stable_partition(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
+        return c.type != lock_type::shared;
     });
     lock_type__ = lock_type::shared;
     transform(iter, wait_deque__.end(), inserter(owners__, owners__.begin()), [this](auto &context) {
-- 
2.43.0


From 0c9a9fcf6a760b98dbf445162638a15f34788c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:17 +0000
Subject: [PATCH 02/48] fix: make co_recursive_timed_mutex instantiable

co_timed_addition derives from the lock it extends, which co_recursive_mutex
forbade by being final.
---
 include/cocpp/sync/co_recursive_mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/sync/co_recursive_mutex.h b/include/cocpp/sync/co_recursive_mutex.h
index 46e4c44..c4eaea3 100644
--- a/include/cocpp/sync/co_recursive_mutex.h
+++ b/include/cocpp/sync/co_recursive_mutex.h
@@ -10,7 +10,7 @@ CO_NAMESPACE_BEGIN
 
 class co_ctx;
 
-class co_recursive_mutex final : private co_noncopyable
+class co_recursive_mutex : private co_noncopyable
 {
 private:
     co_spinlock spinlock__;
-- 
2.43.0


From e2b983554495b3041e45a15498dfa3770d49e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:50 +0000
Subject: [PATCH 03/48] fix: keep timers that expire at the same time apart

The timer queue is a set ordered by expiry time only, so inserting a timer
with the expiry of a queued one did nothing and stopping it removed the other.
---
 source/cocpp/core/co_timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index e58a31d..89670ac 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -135,7 +135,7 @@ bool operator==(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs
 
 bool operator<(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
 {
-    return lhs->expire_time() < rhs->expire_time();
+    return make_pair(lhs->expire_time(), lhs->get_handle()) < make_pair(rhs->expire_time(), rhs->get_handle());
 }
 
 function<void()> co_timer::set_expire_callback(const function<void()> &func)
-- 
2.43.0


From 0d493987d66d19d815ce0dade4ff71e08e5ac8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:50 +0000
Subject: [PATCH 04/48] fix: do not take the front of an empty timer queue

The timer thread is also woken when the last timer is removed and may be woken
for nothing; it has to look at the queue again.
---
 source/cocpp/core/co_manager.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a128fe2..84dcffe 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -355,10 +355,7 @@ void co_manager::timer_routine__()
         if (timer_queue__.empty())
         {
             cv_timer_queue__.wait(lck);
-        }
-        if (clean_up__)
-        {
-            break;
+            continue;
         }
         auto front = *timer_queue__.begin();
         if (front->is_expired())
-- 
2.43.0


From 2437ca0fbbf4c9ee1639cb5d25066451b3c714d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:50 +0000
Subject: [PATCH 05/48] fix: remove the deadlocks between timers and the timer
 thread

start() and stop() lock the timer and then the queue, the timer thread locked
the queue and then timers, and environments.  A callback ran under the lock of
its timer, blocking the timer thread and operations on the timer for as long as
the callback was suspended.
---
 include/cocpp/core/co_timer.h    |  6 +++++-
 source/cocpp/core/co_manager.cpp | 20 +++++++++----------
 source/cocpp/core/co_timer.cpp   | 33 ++++++++++++++++++++++++++------
 3 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/include/cocpp/core/co_timer.h b/include/cocpp/core/co_timer.h
index 7dd569c..c7425b3 100644
--- a/include/cocpp/core/co_timer.h
+++ b/include/cocpp/core/co_timer.h
@@ -4,6 +4,7 @@ _Pragma("once");
 #include "cocpp/core/co_type.h"
 #include "cocpp/utils/co_noncopyable.h"
 
+#include <atomic>
 #include <chrono>
 #include <functional>
 #include <memory>
@@ -39,13 +40,14 @@ private:
     const co_expire_type expire_type__;
     const co_timer_type timer_type__;
     const unsigned long long interval__;
-    std::chrono::steady_clock::time_point expire_time__;
+    std::atomic<std::chrono::steady_clock::time_point> expire_time__;
     co_timer_status status__;
     mutable std::recursive_mutex mutex__;
 
     void insert_to_timer_queue__();
     void remove_from_timer_queue__();
     void update_timeout_time__();
+    bool take_expiry__();
 
 public:
     co_timer(const std::function<void()> &func, co_expire_type type, unsigned long long interval_ms);
@@ -69,6 +71,8 @@ public:
     create(const std::function<void()> &func, std::chrono::steady_clock::time_point expire_time);
 
     std::string timer_info();
+
+    friend class co_manager;
 };
 
 bool operator==(const std::shared_ptr<co_timer> &lhs, const std::shared_ptr<co_timer> &rhs);
diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 84dcffe..7df942d 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -360,19 +360,17 @@ void co_manager::timer_routine__()
         auto front = *timer_queue__.begin();
         if (front->is_expired())
         {
-            create_and_schedule_ctx(
-                {}, [front](co_any &) {
-                    front->run();
-                },
-                false);
-            if (front->expire_type() == co_expire_type::once)
+            // The lock of a timer is taken before that of the queue, and the callback is scheduled without either
+            lck.unlock();
+            if (front->take_expiry__())
             {
-                front->stop();
-            }
-            else
-            {
-                front->reset();
+                create_and_schedule_ctx(
+                    {}, [front](co_any &) {
+                        front->run();
+                    },
+                    false);
             }
+            lck.lock();
         }
         else
         {
diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index 89670ac..8877a94 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -104,7 +104,6 @@ void co_timer::remove_from_timer_queue__()
 
 chrono::steady_clock::time_point co_timer::expire_time() const
 {
-    scoped_lock lock(mutex__);
     return expire_time__;
 }
 
@@ -115,17 +114,39 @@ co_timer_type co_timer::timer_type() const
 
 bool co_timer::is_expired() const
 {
-    scoped_lock lock(mutex__);
-    return chrono::steady_clock::now() >= expire_time__;
+    return chrono::steady_clock::now() >= expire_time();
 }
 
 void co_timer::run() const
+{
+    function<void()> callback;
+    {
+        scoped_lock lock(mutex__);
+        callback = callback__;
+    }
+    // Not under the lock: the callback may take long or operate on this timer
+    if (callback)
+    {
+        callback();
+    }
+}
+
+bool co_timer::take_expiry__()
 {
     scoped_lock lock(mutex__);
-    if (callback__)
+    if (status__ == co_timer_status::stopped || !is_expired())
+    {
+        return false;
+    }
+    if (expire_type__ == co_expire_type::once)
+    {
+        stop();
+    }
+    else
     {
-        callback__();
+        reset();
     }
+    return true;
 }
 
 bool operator==(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
@@ -166,7 +187,7 @@ string co_timer::timer_info()
     ss << "interval: " << interval__ << endl;
 
     // expire time
-    ss << "expire time: " << expire_time__.time_since_epoch().count() << endl;
+    ss << "expire time: " << expire_time().time_since_epoch().count() << endl;
 
     // status
     ss << "status: " << (status__ == co_timer_status::running ? "running" : "stopped") << endl;
-- 
2.43.0


From 74553e13accdbf4272a0bbf8a675e49991dfe5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:50 +0000
Subject: [PATCH 06/48] fix: do not lose the wake-up of the timer thread at
 shutdown

clean_up__ was set and notified without the lock the timer thread waits with.
---
 source/cocpp/core/co_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 7df942d..001e6d6 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -191,6 +191,7 @@ void co_manager::set_clean_up__()
         env->stop_schedule(); // 注意：没有调度线程的env不能调用stop_schedule
     }
     env_set__.cv_expired_env.notify_one();
+    scoped_lock timer_lock(mu_timer_queue__); // the timer thread is either waiting or will see clean_up__
     cv_timer_queue__.notify_one();
 }
 
-- 
2.43.0


From 5853a40e457ddc4d9f79be23b55803b27c0620e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:49 +0000
Subject: [PATCH 07/48] fix: do not use a coroutine after handing it to its env

move_ctx_to_here read the priority of the coroutine after putting it in
the ready list. A detached coroutine can run, finish and be destroyed by
the env's thread before that.
---
 source/cocpp/core/co_env.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index c6e6f2c..40b9c9e 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -84,13 +84,15 @@ void co_env::move_ctx_to_here(co_ctx *ctx)
 
     ctx->set_env(this);
 
+    // Once it is in the list, ctx may run, finish and be destroyed
+    auto priority = ctx->priority();
     {
         scoped_lock lock(mu_normal_ctx__);
-        all_normal_ctx__[ctx->priority()].push_back(ctx);
+        all_normal_ctx__[priority].push_back(ctx);
         ++ctx_count__;
     }
 
-    update_min_priority__(ctx->priority());
+    update_min_priority__(priority);
     set_state(co_env_state::busy);
 
     wake_up();
-- 
2.43.0


From dd0a4e2eeb6d9542e63a01a7a7b8dadadcf5db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:49 +0000
Subject: [PATCH 08/48] fix: do not use a coroutine after ending its wait

leave_wait_resource_state used the coroutine after making it runnable.
It can run, finish and be destroyed by its env's thread before that.
---
 include/cocpp/core/co_ctx.h  |  2 +-
 source/cocpp/core/co_ctx.cpp | 16 +++++++++-------
 source/cocpp/core/co_env.cpp |  2 +-
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/cocpp/core/co_ctx.h b/include/cocpp/core/co_ctx.h
index 830e493..b43d7ce 100644
--- a/include/cocpp/core/co_ctx.h
+++ b/include/cocpp/core/co_ctx.h
@@ -41,7 +41,7 @@ private:
 
     struct
     {
-        std::recursive_mutex mu;
+        mutable std::recursive_mutex mu;
         std::set<void *> resource;
     } wait_data__ {};
 
diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index ef1ed8e..11695af 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -140,6 +140,7 @@ void co_ctx::check_and_rethrow_exception()
 
 bool co_ctx::can_schedule() const
 {
+    scoped_lock lock(wait_data__.mu); // leave_wait_resource_state is done with this ctx
     return state() != co_state::finished && !test_flag(CO_CTX_FLAG_WAITING);
 }
 
@@ -191,19 +192,20 @@ void co_ctx::enter_wait_resource_state(void *rc)
 
 void co_ctx::leave_wait_resource_state(void *rc)
 {
+    co_env *env = nullptr;
     {
         scoped_lock lock(wait_data__.mu);
         wait_data__.resource.erase(rc);
-        if (wait_data__.resource.empty())
+        if (!wait_data__.resource.empty())
         {
-            unset_flag(CO_CTX_FLAG_WAITING);
+            return;
         }
+        unset_flag(CO_CTX_FLAG_WAITING);
+        env = env__;
     }
-    if (!test_flag(CO_CTX_FLAG_WAITING))
-    {
-        env__->ctx_leave_wait_state(this);
-        env__->wake_up();
-    }
+    // From here on this ctx may run, finish and be destroyed
+    env->ctx_leave_wait_state(this);
+    env->wake_up();
 }
 
 void co_ctx::lock_finished_state()
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 40b9c9e..d8a095a 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -563,7 +563,7 @@ void co_env::ctx_leave_wait_state(co_ctx *ctx)
     {
         return;
     }
-    update_min_priority__(ctx->priority());
+    update_min_priority__(0); // ctx may already have run and be destroyed, so its priority can't be read here
 }
 
 void co_env::ctx_enter_wait_state(co_ctx *ctx)
-- 
2.43.0


From 4df240b0be1caa59d98c12b2bb175edfa3b821f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 09/48] fix: end a timed wait for a coroutine once, and not
 before its deadline

The expiry callback could run after the waiter had gone on and then end
some other wait of it, or use it after it was destroyed. The timeout was
cut down to whole milliseconds, so a timed wait could give up early.
---
 source/cocpp/core/co_env.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index d8a095a..83b7880 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -12,12 +12,14 @@
 #include "cocpp/utils/co_defer.h"
 
 #include <algorithm>
+#include <atomic>
 #include <bits/ranges_algo.h>
 #include <cassert>
 #include <chrono>
 #include <cstring>
 #include <future>
 #include <iterator>
+#include <memory>
 #include <mutex>
 #include <ranges>
 #include <sstream>
@@ -117,24 +119,25 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
     auto curr_ctx = current_ctx();
     if (ctx->state() != co_state::finished)
     {
-        auto timer = co_timer::create(
-            nullptr,
-            co_expire_type::once, chrono::duration_cast<chrono::milliseconds>(timeout).count());
-        auto timer_id = timer.get();
-        curr_ctx->enter_wait_resource_state(timer_id);
-        auto handle = ctx->finished().sub([curr_ctx, timer, timer_id] {
-            timer->stop(); // Handle delete callbacks first and wake up later to prevent timing problems
-            curr_ctx->leave_wait_resource_state(timer_id);
-        });
-        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id] {
-            ctx->finished().unsub(handle); // Unsubscribe before wake up to prevent timing problems
-            curr_ctx->leave_wait_resource_state(timer_id);
-        });
+        // The first of the two ends the wait; the other one may come after this coroutine has gone on, and does nothing
+        auto over = make_shared<atomic<bool>>(false);
+        auto end_wait = [curr_ctx, over] {
+            if (!over->exchange(true))
+            {
+                curr_ctx->leave_wait_resource_state(over.get());
+            }
+        };
+        auto timer = co_timer::create(end_wait, chrono::steady_clock::now() + timeout);
+        curr_ctx->enter_wait_resource_state(over.get());
+        auto handle = ctx->finished().sub(end_wait);
         timer->start();
 
         unlock_schedule();
         ctx->unlock_finished_state();
         schedule_switch();
+
+        timer->stop();
+        ctx->finished().unsub(handle);
     }
     else
     {
-- 
2.43.0


From 5b7ca59e5f6aeddce3dbaa48046a0d59e1bf0162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:47 +0000
Subject: [PATCH 10/48] fix: do not wait on a condition variable when the
 predicate already holds

The waits with a predicate waited for a notification before looking at
the predicate for the first time, so they missed what had happened before.
---
 include/cocpp/sync/co_condition_variable.h | 48 ++++------------------
 1 file changed, 8 insertions(+), 40 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index a73e38c..a336ead 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -69,22 +69,10 @@ void co_condition_variable_impl::wait(Lock &lock)
 template <typename Lock, typename Predicate>
 void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 {
-    CoPreemptGuard();
-    auto ctx = CoCurrentCtx();
-
-    do
+    while (!pred())
     {
-        {
-            std::scoped_lock lk(cv_lock__);
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
-        }
-
-        CoYield();
-
-        lock.lock();
-    } while (!pred());
+        wait(lock);
+    }
 }
 
 template <typename Lock, typename Clock, typename Duration>
@@ -126,34 +114,14 @@ template <typename Lock, typename Clock, typename Duration, typename Predicate>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time,
                                             Predicate pred)
 {
-    CoScheduleGuard();
-    auto ctx = CoCurrentCtx();
-    auto timer = co_timer::create([this, ctx] {
-        std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
-    },
-                                  abs_time);
-    timer->start();
-    do
+    while (!pred())
     {
+        if (!wait_until(lock, abs_time))
         {
-            std::scoped_lock lk(cv_lock__);
-
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
+            return pred();
         }
-        CoUnlockSchedule();
-        CoYield();
-        CoLockSchedule();
-        lock.lock();
-    } while (!timeout__ && !pred());
-
-    timer->stop();
-
-    return !timeout__ && pred();
+    }
+    return true;
 }
 
 template <typename Lock, typename Clock, typename Duration, typename Predicate>
-- 
2.43.0


From 09c3cce9966b95f6d32446a9b2a7e01a84bbef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:47 +0000
Subject: [PATCH 11/48] fix: tell timeout from notification for each timed
 condition variable wait

The timeout was remembered in the condition variable, so one expired wait
made all later timed waits fail. The expiry callback could also run before
the wait had begun, and was then lost, or after it was over, and then ended
some other wait of the coroutine.
---
 include/cocpp/sync/co_condition_variable.h | 41 ++++++++++++++++------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index a336ead..795ab25 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -11,6 +11,7 @@ _Pragma("once");
 
 #include <chrono>
 #include <list>
+#include <memory>
 #include <mutex>
 
 CO_NAMESPACE_BEGIN
@@ -28,7 +29,6 @@ class co_condition_variable_impl final : private co_noncopyable
 private:
     mutable co_spinlock cv_lock__;
     std::list<co_ctx *> waiters__;
-    bool timeout__ {false};
 
 public:
     template <typename Lock>
@@ -78,17 +78,33 @@ void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 template <typename Lock, typename Clock, typename Duration>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time)
 {
-    CoScheduleGuard();
+    CoPreemptGuard();
     auto ctx = CoCurrentCtx();
 
-    auto timer = co_timer::create([this, ctx] {
+    // The timer callback may come after this wait is over, and must not touch the coroutine or the cv then
+    struct wait_state
+    {
+        co_spinlock lock;
+        bool over {false};
+        bool timeout {false};
+    };
+    auto st = std::make_shared<wait_state>();
+
+    auto timer = co_timer::create([this, ctx, st] {
+        CoPreemptGuard();
+        std::scoped_lock st_lk(st->lock);
+        if (st->over)
+        {
+            return;
+        }
         std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
+        if (waiters__.remove(ctx) != 0) // otherwise it has been notified
+        {
+            st->timeout = true;
+            ctx->leave_wait_resource_state(this);
+        }
     },
                                   abs_time);
-    timer->start();
     {
         std::scoped_lock lk(cv_lock__);
 
@@ -96,12 +112,15 @@ bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_
         lock.unlock();
         ctx->enter_wait_resource_state(this);
     }
-    CoUnlockSchedule();
+    timer->start();
     CoYield();
-    CoLockSchedule();
-    lock.lock();
     timer->stop();
-    return !timeout__;
+    {
+        std::scoped_lock st_lk(st->lock);
+        st->over = true;
+    }
+    lock.lock();
+    return !st->timeout;
 }
 
 template <typename Lock, typename Clock, typename Duration>
-- 
2.43.0


From bd510ba3ee1482ed0c27b8132c4dfdd7af90312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:58 +0000
Subject: [PATCH 12/48] fix: count arrivals at a barrier when they happen

A phase was completed by the last one to wait, so an arrival without a
wait, or a drop, left the others waiting for ever, and a drop did not
lower the number expected later.
---
 include/cocpp/sync/co_barrier.h  |  5 ++--
 source/cocpp/sync/co_barrier.cpp | 48 ++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/include/cocpp/sync/co_barrier.h b/include/cocpp/sync/co_barrier.h
index ac20e09..0380263 100644
--- a/include/cocpp/sync/co_barrier.h
+++ b/include/cocpp/sync/co_barrier.h
@@ -21,11 +21,12 @@ class co_barrier final : private co_noncopyable
 private:
     std::atomic<std::ptrdiff_t> expected__;
     std::atomic<std::ptrdiff_t> generation__;
-    std::atomic<std::ptrdiff_t> count__;
-    const std::ptrdiff_t max__;
+    std::atomic<std::ptrdiff_t> max__;
     co_mutex mutex__;
     co_condition_variable cond__;
 
+    co_arrival_token arrive__(std::ptrdiff_t n);
+
 public:
     explicit co_barrier(std::ptrdiff_t expected);
     co_arrival_token arrive(std::ptrdiff_t n = 1);
diff --git a/source/cocpp/sync/co_barrier.cpp b/source/cocpp/sync/co_barrier.cpp
index f3815cc..e2f7cef 100644
--- a/source/cocpp/sync/co_barrier.cpp
+++ b/source/cocpp/sync/co_barrier.cpp
@@ -6,11 +6,27 @@ CO_NAMESPACE_BEGIN
 
 co_barrier::co_barrier(ptrdiff_t expected)
     : expected__(expected)
-    , count__(expected)
     , max__(expected)
 {
 }
 
+// mutex__ must be held
+co_arrival_token co_barrier::arrive__(ptrdiff_t n)
+{
+    co_arrival_token token {
+        .generation__ = generation__,
+        .barrier__ = this,
+        .n__ = n};
+    expected__ -= n;
+    if (expected__ == 0)
+    {
+        generation__++;
+        expected__ = max__.load();
+        cond__.notify_all();
+    }
+    return token;
+}
+
 co_arrival_token co_barrier::arrive(ptrdiff_t n)
 {
     scoped_lock lock(mutex__);
@@ -18,33 +34,17 @@ co_arrival_token co_barrier::arrive(ptrdiff_t n)
     {
         throw logic_error("co_barrier::arrive: count < 0");
     }
-    expected__ -= n;
-    return co_arrival_token {
-        .generation__ = generation__,
-        .barrier__ = this,
-        .n__ = n};
+    return arrive__(n);
 }
 
 void co_barrier::wait(co_arrival_token &&arrival)
 {
     unique_lock lock(mutex__);
-    if (arrival.generation__ != generation__ || arrival.barrier__ != this)
+    if (arrival.barrier__ != this)
     {
         throw logic_error("co_barrier::wait: invalid token");
     }
-    if (count__ - arrival.n__ < 0)
-    {
-        throw logic_error("co_barrier::wait: count < 0");
-    }
-    count__ -= arrival.n__;
-    if (count__ == 0)
-    {
-        generation__++;
-        count__ = max__;
-        expected__ = max__;
-        cond__.notify_all();
-    }
-    else
+    while (arrival.generation__ == generation__)
     {
         cond__.wait(lock);
     }
@@ -57,7 +57,13 @@ void co_barrier::arrive_and_wait()
 
 void co_barrier::arrive_and_drop()
 {
-    arrive();
+    scoped_lock lock(mutex__);
+    if (expected__ - 1 < 0)
+    {
+        throw logic_error("co_barrier::arrive_and_drop: count < 0");
+    }
+    --max__; // one less from the next phase on
+    arrive__(1);
 }
 
 CO_NAMESPACE_END
\ No newline at end of file
-- 
2.43.0


From 9ae68d7e49aa5114cae85705bb7d0110a5519c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:58 +0000
Subject: [PATCH 13/48] fix: let callers of co_call_once wait for the
 completion of the function

A concurrent caller returned while the function was still running, and
after an exception the function was never run again.
---
 include/cocpp/sync/co_call_once.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/cocpp/sync/co_call_once.h b/include/cocpp/sync/co_call_once.h
index 92101d1..68e0d56 100644
--- a/include/cocpp/sync/co_call_once.h
+++ b/include/cocpp/sync/co_call_once.h
@@ -1,27 +1,33 @@
 _Pragma("once");
 #include "cocpp/core/co_define.h"
-#include "cocpp/core/co_env.h"
-#include "cocpp/core/co_manager.h"
+#include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 #include <atomic>
 #include <functional>
+#include <mutex>
 
 CO_NAMESPACE_BEGIN
 
 class co_once_flag : private co_noncopyable
 {
 public:
-    std::atomic<bool> flag__ {false};
+    std::atomic<bool> flag__ {false}; // the function has completed
+    co_mutex mutex__;
 };
 
 template <class Callable, class... Args>
 void co_call_once(co_once_flag &flag, Callable &&f, Args &&...args)
 {
-    CoPreemptGuard();
-    bool key = false;
-    if (flag.flag__.compare_exchange_strong(key, true))
+    if (flag.flag__)
+    {
+        return;
+    }
+    // Callers that come while the function runs wait for its completion; if it throws, the next one runs it
+    std::scoped_lock lock(flag.mutex__);
+    if (!flag.flag__)
     {
         std::invoke(std::forward<Callable>(f), std::forward<Args>(args)...);
+        flag.flag__ = true;
     }
 }
 
-- 
2.43.0


From 1b29f045020002567e09d8e1f1b1d13f96f12a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:39:18 +0000
Subject: [PATCH 14/48] fix: make the unbuffered channel work with several
 producers and with close

A second producer waited until the channel was closed, a push reported
success although nobody had taken the item when the channel was closed,
and a pop could wake a producer whose item had not been taken.
---
 include/cocpp/event/co_chan.h | 49 +++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/include/cocpp/event/co_chan.h b/include/cocpp/event/co_chan.h
index ba6d781..77554ad 100644
--- a/include/cocpp/event/co_chan.h
+++ b/include/cocpp/event/co_chan.h
@@ -23,6 +23,16 @@ private:
         mutable std::shared_ptr<co_mutex> mu__ {std::make_shared<co_mutex>()};
         std::shared_ptr<co_condition_variable> cv_full__ = {std::make_shared<co_condition_variable>()};
         std::shared_ptr<co_condition_variable> cv_empty__ = {std::make_shared<co_condition_variable>()};
+        size_t pop_count__ {0};
+
+        // Called with the lock held
+        virtual void item_taken()
+        {
+            cv_full__->notify_one();
+        }
+        virtual void drop_untaken()
+        {
+        }
 
     public:
         std::optional<ValueType> pop();
@@ -58,6 +68,20 @@ private:
 
     class sync_chan final : public chan_base
     {
+    private:
+        size_t push_count__ {0};
+
+        // The producer of the item and those that wait for their turn
+        void item_taken() override
+        {
+            chan_base::cv_full__->notify_all();
+        }
+        // The push of an item that nobody has taken fails
+        void drop_untaken() override
+        {
+            chan_base::data__->clear();
+        }
+
     public:
         bool push(ValueType value) override;
         int max_size() const override;
@@ -206,27 +230,24 @@ bool co_chan<ValueType>::sync_chan::push(ValueType value)
     {
         return false;
     }
-    auto max_size = 1;
 
-    if (chan_base::data__->size() == static_cast<size_t>(max_size))
+    chan_base::cv_full__->wait(lock, [this] {
+        return *chan_base::closed__ || chan_base::data__->empty();
+    });
+    if (*chan_base::closed__)
     {
-        chan_base::cv_full__->wait(lock, [this] {
-            return *chan_base::closed__;
-        });
-        if (*chan_base::closed__)
-        {
-            return false;
-        }
+        return false;
     }
 
     chan_base::data__->push_back(value);
+    auto ticket = ++push_count__;
     chan_base::cv_empty__->notify_one();
 
-    chan_base::cv_full__->wait(lock, [this] {
-        return *chan_base::closed__ || chan_base::data__->empty();
+    chan_base::cv_full__->wait(lock, [this, ticket] {
+        return *chan_base::closed__ || chan_base::pop_count__ >= ticket;
     });
 
-    return true;
+    return chan_base::pop_count__ >= ticket;
 }
 
 template <std::copyable ValueType>
@@ -258,7 +279,8 @@ std::optional<ValueType> co_chan<ValueType>::chan_base::pop()
 
     ret = data__->front();
     data__->pop_front();
-    cv_full__->notify_one();
+    ++pop_count__;
+    item_taken();
     return ret;
 }
 
@@ -273,6 +295,7 @@ void co_chan<ValueType>::chan_base::close()
 {
     std::scoped_lock lock(*mu__);
     *closed__ = true;
+    drop_untaken();
     cv_full__->notify_all();
     cv_empty__->notify_all();
 }
-- 
2.43.0


From 1993391e840bf74ed7c5f0c3d93749c323d28e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:00 +0000
Subject: [PATCH 15/48] fix: do not shrink the stack of a removed coroutine

A coroutine that has just been started still refers to the one that ran
before it. When it yields, that one may be removed, and if nothing else
can run its stack was shrunk afterwards.
---
 source/cocpp/core/co_env.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 83b7880..9fbb4f1 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -317,6 +317,7 @@ void co_env::schedule_switch()
 {
     lock_schedule();
     CoDefer(unlock_schedule());
+    current_ctx()->clear_pre_ctx(); // from the switch that started this ctx, may be removed now
     remove_detached_ctx__();
     if (shared_stack_switch_info__.need_switch)
     {
-- 
2.43.0


From e0e207311e4623c422903e7be4baa82c02214af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:53 +0000
Subject: [PATCH 16/48] fix: keep the items of a pipeline made from an
 initializer list

The source of the pipeline read them after the list was gone.
---
 include/cocpp/pipeline/co_pipeline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index b9e6772..b1c1b7b 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -234,7 +234,7 @@ template <typename ItemType>
 co_pipeline<ItemType>::co_pipeline(const std::initializer_list<ItemType> &col, int max_chan_size)
     : channel__(max_chan_size)
 {
-    co__ = std::make_shared<co>([ch = channel__, col]() mutable {
+    co__ = std::make_shared<co>([ch = channel__, col = std::vector<ItemType>(col)]() mutable {
         for (const auto &t : col)
         {
             if (!ch.push(t))
-- 
2.43.0


From 90b50e882ccd16e160a17dc801ca2280fc1caae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:46 +0000
Subject: [PATCH 17/48] fix: stop the stages before a pipeline stage that stops

The source and the stages in front of map, filter, skip and fork stayed
blocked on their full channel after the reader closed the result.
---
 include/cocpp/pipeline/co_pipeline.h | 37 ++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index b1c1b7b..fe78438 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -36,9 +36,16 @@ template <typename ItemType>
 class co_pipeline final : private co_noncopyable
 {
 private:
+    template <typename OtherType>
+    friend class co_pipeline;
+
     std::shared_ptr<co> co__;
     co_chan<ItemType> channel__;
 
+    template <typename FuncType, typename OldType>
+    requires pipeline::ReturnIsNotVoid<FuncType, OldType>
+    co_pipeline(co_chan<OldType> ch, const FuncType &func);
+
     template <typename FilterType>
     requires pipeline::FilterFunc<FilterType, ItemType>
     co_pipeline(co_chan<ItemType> ch, const pipeline::filter<FilterType> &filter);
@@ -251,14 +258,31 @@ template <typename ItemType>
 template <typename FuncType>
 requires pipeline::ReturnIsNotVoid<FuncType, ItemType> auto co_pipeline<ItemType>::operator|(FuncType func)
 {
-    return co_pipeline<std::invoke_result_t<FuncType, ItemType> >([ch = channel__, func]() mutable -> std::optional<std::invoke_result_t<FuncType, ItemType> > {
-        auto item = ch.pop();
-        if (!item)
+    return co_pipeline<std::invoke_result_t<FuncType, ItemType> >(channel__, func);
+}
+
+template <typename ItemType>
+template <typename FuncType, typename OldType>
+requires pipeline::ReturnIsNotVoid<FuncType, OldType>
+co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const FuncType &func)
+{
+    co__ = std::make_shared<co>([this_ch = channel__, ch, func]() mutable {
+        for (;;)
         {
-            return std::nullopt;
+            auto item = ch.pop();
+            if (!item)
+            {
+                break;
+            }
+            if (!this_ch.push(func(*item)))
+            {
+                break;
+            }
         }
-        return func(*item);
+        this_ch.close();
+        ch.close();
     });
+    co__->detach();
 }
 
 template <typename ItemType>
@@ -280,6 +304,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const pipeline::fork<Fun
                     }
                     if (!this_ch.push(fork.func__(*item)))
                     {
+                        ch.close();
                         break;
                     }
                 }
@@ -361,6 +386,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::filter<
         }
 
         this_ch.close();
+        ch.close();
     });
     co__->detach();
 }
@@ -454,6 +480,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::skip &s
             }
         }
         this_ch.close();
+        ch.close();
     });
     co__->detach();
 }
-- 
2.43.0


From 46d392497c5077e89f30876a5545ecf20d2bacb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:58 +0000
Subject: [PATCH 18/48] fix: let only one waiter take the exception of a
 coroutine

Two waiters returning at the same time could both see it, and the second
one rethrew an empty exception pointer.
---
 source/cocpp/core/co_ctx.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 11695af..42dba25 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -130,10 +130,13 @@ void co_ctx::unset_flag(size_t flag)
 
 void co_ctx::check_and_rethrow_exception()
 {
-    if (exception__)
+    exception_ptr e;
+    {
+        scoped_lock lock(finish_lock__);
+        e.swap(exception__); // 仅第一次抛出异常
+    }
+    if (e)
     {
-        auto e = exception__;
-        exception__ = nullptr; // 仅第一次抛出异常
         rethrow_exception(e);
     }
 }
-- 
2.43.0


From ee67ba78f0e70a6095c33c19f9e4d35e1c82e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:44 +0000
Subject: [PATCH 19/48] fix: keep a finished shared stack coroutine until it is
 switched away from

The idle context removed it before saving its stack, and the copy of the
stack of a finished coroutine was never released.
---
 source/cocpp/core/co_env.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 9fbb4f1..f410253 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -318,13 +318,13 @@ void co_env::schedule_switch()
     lock_schedule();
     CoDefer(unlock_schedule());
     current_ctx()->clear_pre_ctx(); // from the switch that started this ctx, may be removed now
-    remove_detached_ctx__();
     if (shared_stack_switch_info__.need_switch)
     {
-        switch_shared_stack_ctx__();
+        switch_shared_stack_ctx__(); // the ctx it switches from must not be removed before
     }
     else
     {
+        remove_detached_ctx__();
         switch_normal_ctx__();
     }
     if (current_ctx()->pre_ctx() != nullptr)
@@ -375,7 +375,7 @@ void co_env::switch_shared_stack_ctx__()
     CoPreemptGuard();
     shared_stack_switch_info__.need_switch = false;
 
-    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK))
+    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK) && shared_stack_switch_info__.from->state() != co_state::finished)
     {
         save_shared_stack__(shared_stack_switch_info__.from);
     }
-- 
2.43.0


From c8466a75305ec269f2ae2075a16356f07039c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:53 +0000
Subject: [PATCH 20/48] fix: align the stack of a coroutine whatever its size

A stack size that is no multiple of 16 made the first aligned access to
the stack crash.
---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index 1552d78..f4ed6be 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -98,8 +98,9 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
 void init_ctx(co_stack *stack, co_ctx *ctx)
 {
     auto context = get_sigcontext_64(ctx);
-    CO_SETREG(context, sp, stack->stack_top() - 8);
-    CO_SETREG(context, bp, stack->stack_top() - 8);
+    auto top = reinterpret_cast<unsigned long long>(stack->stack_top()) & ~15ULL; // the size may be any number
+    CO_SETREG(context, sp, top - 8);
+    CO_SETREG(context, bp, top - 8);
     CO_SETREG(context, ip, &co_ctx::real_entry);
     CO_SETREG(context, di, ctx);
     // Store the address of '_start' at the bottom of the stack to prevent segment fault in case of exception backtracking of the call chain
-- 
2.43.0


From 2eaa0262a77efaaabcdd0985670f0fc9ff2f1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:53 +0000
Subject: [PATCH 21/48] fix: switch the floating point control state with the
 coroutine

The rounding mode one coroutine set was seen by the others.
---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index f4ed6be..83ef131 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -64,12 +64,18 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
     __asm volatile("pushf");
     __asm volatile("popq 136(%rdi)");
 
+    // mxcsr and x87 control word, in reserved1 of the context
+    __asm volatile("stmxcsr 192(%rdi)");
+    __asm volatile("fnstcw 196(%rdi)");
+
     __asm volatile("movq %rdi, 256(%rsi)"); // 32*8=256 ，放在reg后面一个字段
 
     __asm volatile("movq %rsp, 120(%rdi)"); // rsp必须在rip后保存，先恢复
     /////////////////////////////////////////////////
     __asm volatile("movq 120(%rsi), %rsp");
 
+    __asm volatile("ldmxcsr 192(%rsi)");
+    __asm volatile("fldcw 196(%rsi)");
     __asm volatile("pushq 136(%rsi)");
     __asm volatile("popf");
     __asm volatile("pushq 128(%rsi)");
@@ -103,6 +109,10 @@ void init_ctx(co_stack *stack, co_ctx *ctx)
     CO_SETREG(context, bp, top - 8);
     CO_SETREG(context, ip, &co_ctx::real_entry);
     CO_SETREG(context, di, ctx);
+    // A new coroutine starts with the default floating point control state
+    auto control = reinterpret_cast<unsigned int *>(ctx->regs() + 24);
+    control[0] = 0x1f80; // mxcsr
+    control[1] = 0x37f;  // x87 control word
     // Store the address of '_start' at the bottom of the stack to prevent segment fault in case of exception backtracking of the call chain
     *reinterpret_cast<void **>(context->sp) = reinterpret_cast<void *>(&::_start);
 }
-- 
2.43.0


From 946f20eac485e40642cffea43defa3f1356e91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:28 +0000
Subject: [PATCH 22/48] fix: keep the exceptions of a coroutine across a switch

The exceptions being handled or propagated were those of the thread, so a
handler that yielded rethrew or released the exception of another
coroutine.
---
 include/cocpp/core/co_env.h  |  1 +
 source/cocpp/core/co_env.cpp | 28 ++++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/cocpp/core/co_env.h b/include/cocpp/core/co_env.h
index e06ed40..7dad498 100644
--- a/include/cocpp/core/co_env.h
+++ b/include/cocpp/core/co_env.h
@@ -99,6 +99,7 @@ private:
     void restore_shared_stack__(co_ctx *ctx);
     void switch_shared_stack_ctx__();
     void switch_normal_ctx__();
+    void switch_ctx__(co_ctx *from, co_ctx *to);
     bool need_sleep__();
     co_ctx *choose_ctx_from_normal_list__();
     std::list<co_ctx *> all_ctx__();
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index f410253..443425c 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <chrono>
 #include <cstring>
+#include <cxxabi.h>
 #include <future>
 #include <iterator>
 #include <memory>
@@ -31,6 +32,18 @@ CO_NAMESPACE_BEGIN
 
 thread_local co_env *current_env__ = nullptr;
 
+// __cxa_eh_globals of the Itanium C++ ABI
+struct exception_state
+{
+    void *caught;
+    unsigned int uncaught;
+};
+
+static exception_state *exception_globals()
+{
+    return reinterpret_cast<exception_state *>(abi::__cxa_get_globals());
+}
+
 co_env::co_env(size_t shared_stack_size, co_ctx *idle_ctx, bool create_new_thread)
     : shared_stack_size__(shared_stack_size)
     , idle_ctx__(idle_ctx)
@@ -308,9 +321,18 @@ void co_env::switch_normal_ctx__()
         return;
     }
 
+    switch_ctx__(curr, next);
+}
+
+void co_env::switch_ctx__(co_ctx *from, co_ctx *to)
+{
+    // The exceptions being handled or propagated belong to the coroutine, a new one starts without
+    auto exceptions = *exception_globals();
+    *exception_globals() = {};
     unlock_schedule();
-    switch_to(curr->regs(), next->regs());
+    switch_to(from->regs(), to->regs());
     lock_schedule();
+    *exception_globals() = exceptions;
 }
 
 void co_env::schedule_switch()
@@ -386,9 +408,7 @@ void co_env::switch_shared_stack_ctx__()
 
     // 切换到to
 
-    unlock_schedule();
-    switch_to(idle_ctx__->regs(), shared_stack_switch_info__.to->regs());
-    lock_schedule();
+    switch_ctx__(idle_ctx__, shared_stack_switch_info__.to);
 }
 
 void co_env::start_schedule_routine__()
-- 
2.43.0


From f50ab28c5398d1f8446f9b1cc57e7dd53fc773d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:05 +0000
Subject: [PATCH 23/48] fix: count preempt guards per coroutine

A coroutine that finished or waited while it held a guard switched forced
scheduling off for all the others of its env. A forced switch could also
hit an env between choosing the next coroutine and switching to it.
---
 include/cocpp/core/co_env.h  |  6 ++++--
 source/cocpp/core/co_ctx.cpp |  1 +
 source/cocpp/core/co_env.cpp | 22 ++++++++++++++++++----
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/cocpp/core/co_env.h b/include/cocpp/core/co_env.h
index 7dad498..81c7fa1 100644
--- a/include/cocpp/core/co_env.h
+++ b/include/cocpp/core/co_env.h
@@ -23,7 +23,8 @@ class co_stack;
 class co_recursive_mutex_with_count final : public std::recursive_mutex
 {
 private:
-    std::atomic<long long int> count__;
+    std::atomic<long long int> count__ {0};
+    long long int guards__ {0}; // part of count__: preempt guards of the running ctx, used by the thread of the env only
 
 public:
     using std::recursive_mutex::recursive_mutex;
@@ -33,6 +34,7 @@ public:
     long long int count() const;
     void increate_count();
     void decreate_count();
+    long long int exchange_guards(long long int guards);
 };
 
 class co_preempt_guard final : private co_noncopyable
@@ -99,7 +101,6 @@ private:
     void restore_shared_stack__(co_ctx *ctx);
     void switch_shared_stack_ctx__();
     void switch_normal_ctx__();
-    void switch_ctx__(co_ctx *from, co_ctx *to);
     bool need_sleep__();
     co_ctx *choose_ctx_from_normal_list__();
     std::list<co_ctx *> all_ctx__();
@@ -122,6 +123,7 @@ public:
     co_return_value wait_ctx(co_ctx *ctx);
     size_t workload() const;
     void schedule_switch();
+    void switch_ctx(co_ctx *from, co_ctx *to);
     void remove_ctx(co_ctx *ctx);
     co_ctx *current_ctx() const;
     void stop_schedule();
diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 42dba25..8abfde6 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -64,6 +64,7 @@ function<void(co_any &)> co_ctx::entry() const
 
 void co_ctx::real_entry(co_ctx *ctx)
 {
+    ctx->env()->schedule_lock().exchange_guards(0);
     try
     {
         ctx->entry()(ctx->ret_ref());
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 443425c..f6f6067 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -321,18 +321,21 @@ void co_env::switch_normal_ctx__()
         return;
     }
 
-    switch_ctx__(curr, next);
+    switch_ctx(curr, next);
 }
 
-void co_env::switch_ctx__(co_ctx *from, co_ctx *to)
+void co_env::switch_ctx(co_ctx *from, co_ctx *to)
 {
-    // The exceptions being handled or propagated belong to the coroutine, a new one starts without
+    // The exceptions being handled or propagated and the preempt guards belong to the coroutine, a new one starts
+    // without. There is no forced switch until `to` has taken over.
+    auto guards = schedule_lock__.exchange_guards(1);
     auto exceptions = *exception_globals();
     *exception_globals() = {};
     unlock_schedule();
     switch_to(from->regs(), to->regs());
     lock_schedule();
     *exception_globals() = exceptions;
+    schedule_lock__.exchange_guards(guards);
 }
 
 void co_env::schedule_switch()
@@ -408,7 +411,7 @@ void co_env::switch_shared_stack_ctx__()
 
     // 切换到to
 
-    switch_ctx__(idle_ctx__, shared_stack_switch_info__.to);
+    switch_ctx(idle_ctx__, shared_stack_switch_info__.to);
 }
 
 void co_env::start_schedule_routine__()
@@ -417,6 +420,7 @@ void co_env::start_schedule_routine__()
     unset_flag(CO_ENV_FLAG_NO_SCHE_THREAD);
     set_state(co_env_state::idle);
     {
+        CoPreemptGuard(); // the idle ctx is never switched away from outside
         scoped_lock lock(schedule_lock__);
         while (state() != co_env_state::destroying)
         {
@@ -828,14 +832,24 @@ void co_recursive_mutex_with_count::increate_count()
 {
     ++count__;
     assert(count__ > 0);
+    ++guards__;
 }
 
 void co_recursive_mutex_with_count::decreate_count()
 {
+    --guards__;
     --count__;
     assert(count__ >= 0);
 }
 
+long long int co_recursive_mutex_with_count::exchange_guards(long long int guards)
+{
+    auto old = guards__;
+    guards__ = guards;
+    count__ += guards - old;
+    return old;
+}
+
 co_schedule_guard::co_schedule_guard(co_recursive_mutex_with_count &lk)
     : lk__(lk)
 {
-- 
2.43.0


From 55e92a388947b94a4696e40b4023dc380ce160cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:08 +0000
Subject: [PATCH 24/48] fix: keep the whole machine state of a preempted
 coroutine

A coroutine that is switched from the signal handler was resumed by a
normal switch, which restores neither its SSE and x87 registers nor its
red zone. Switch inside the handler instead, so that the return from the
signal restores everything.
---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 46 +++++++++----------------
 source/cocpp/exception/co_exception.cpp |  2 +-
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index 83ef131..fca9f06 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -8,6 +8,7 @@
 #include "cocpp/exception/co_exception.h"
 #include "cocpp/utils/co_defer.h"
 
+#include <cerrno>
 #include <cstddef>
 #include <cstdio>
 #include <cstdlib>
@@ -136,43 +137,30 @@ void send_switch_from_outside_signal(co_env *env)
     }
 }
 
-static void save_context_to_ctx(sigcontext_64 *context, co_ctx *ctx)
-{
-    *reinterpret_cast<sigcontext_64 *>(ctx->regs()) = *context;
-    // printf("rip: 0x%llx\n", context->ip);
-    // printf("rsp: 0x%llx\n", context->sp);
-    // printf("rbp: 0x%llx\n", context->bp);
-    // print_backtrace();
-}
-
-static void restore_context_from_ctx(sigcontext_64 *context, co_ctx *ctx)
-{
-    *context = *reinterpret_cast<sigcontext_64 *>(ctx->regs());
-}
-
 void switch_from_outside(sigcontext_64 *context)
 {
     auto env = CoCurrentEnv();
 
+    if (!env->can_force_schedule())
+    {
+        return;
+    }
+    if (!env->try_lock_schedule())
+    {
+        return;
+    }
+    CoDefer(env->unlock_schedule());
+
     co_ctx *curr = nullptr;
     co_ctx *next = nullptr;
+    if (!env->prepare_to_switch(curr, next))
     {
-        if (!env->can_force_schedule())
-        {
-            return;
-        }
-        if (!env->try_lock_schedule())
-        {
-            return;
-        }
-        CoDefer(env->unlock_schedule());
-        if (!env->prepare_to_switch(curr, next))
-        {
-            return;
-        }
+        return;
     }
-    save_context_to_ctx(context, curr);
-    restore_context_from_ctx(context, next);
+    // The return from the signal handler restores all the state of the interrupted coroutine, so it stays suspended here
+    auto saved_errno = errno;
+    env->switch_ctx(curr, next);
+    errno = saved_errno;
 }
 
 bool set_mem_dontneed(void *ptr, size_t size)
diff --git a/source/cocpp/exception/co_exception.cpp b/source/cocpp/exception/co_exception.cpp
index 4536fe4..b39e93e 100644
--- a/source/cocpp/exception/co_exception.cpp
+++ b/source/cocpp/exception/co_exception.cpp
@@ -88,7 +88,7 @@ void set_up_signal_handler(const vector<int> &signals)
         sa.sa_handler = signal_handler;
 
         sigemptyset(&sa.sa_mask);
-        sa.sa_flags = 0;
+        sa.sa_flags = s == CO_SWITCH_SIGNAL ? SA_NODEFER : 0; // its handler may switch to another coroutine
         sigaction(s, &sa, nullptr);
     }
 }
-- 
2.43.0


From 73bdcbf69b5a114e20ebbc5d5e74bfd29cb879ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:53 +0000
Subject: [PATCH 25/48] fix: do not preempt a coroutine inside the library

A coroutine that was switched from outside while it held a mutex of the
library broke the mutual exclusion between the coroutines of its thread,
and blocked the other threads, including the one that preempts, until it
ran again. The same holds for the creation of the shared stack.
---
 include/cocpp/core/co_ctx.h              |  7 +++--
 include/cocpp/core/co_env.h              |  9 +++---
 include/cocpp/core/co_manager.h          |  7 +++--
 include/cocpp/core/co_timer.h            |  3 +-
 include/cocpp/event/co_event.h           |  3 +-
 include/cocpp/utils/co_flag_manager.h    |  3 +-
 include/cocpp/utils/co_internal_mutex.h  | 20 +++++++++++++
 include/cocpp/utils/co_state_manager.h   |  3 +-
 source/cocpp/core/co_env.cpp             |  7 +++--
 source/cocpp/core/co_vos_gcc_x86_64.cpp  |  3 +-
 source/cocpp/utils/co_internal_mutex.cpp | 37 ++++++++++++++++++++++++
 11 files changed, 84 insertions(+), 18 deletions(-)
 create mode 100644 include/cocpp/utils/co_internal_mutex.h
 create mode 100644 source/cocpp/utils/co_internal_mutex.cpp

diff --git a/include/cocpp/core/co_ctx.h b/include/cocpp/core/co_ctx.h
index b43d7ce..e4ece1c 100644
--- a/include/cocpp/core/co_ctx.h
+++ b/include/cocpp/core/co_ctx.h
@@ -6,6 +6,7 @@ _Pragma("once");
 #include "cocpp/core/co_type.h"
 #include "cocpp/utils/co_any.h"
 #include "cocpp/utils/co_flag_manager.h"
+#include "cocpp/utils/co_internal_mutex.h"
 #include "cocpp/utils/co_state_manager.h"
 
 #include <exception>
@@ -37,11 +38,11 @@ private:
 
     // In some scenarios, ensure that the status does not change to `finished`
     co_state_manager<co_state, co_state::suspended, co_state::finished> state_manager__;
-    std::recursive_mutex finish_lock__;
+    co_internal_mutex finish_lock__;
 
     struct
     {
-        mutable std::recursive_mutex mu;
+        mutable co_internal_mutex mu;
         std::set<void *> resource;
     } wait_data__ {};
 
@@ -52,7 +53,7 @@ private:
 
     // Other threads may change the priority
     int priority__ {CO_IDLE_CTX_PRIORITY};
-    mutable std::recursive_mutex priority_lock__;
+    mutable co_internal_mutex priority_lock__;
 
     co_env *env__ {nullptr};
 
diff --git a/include/cocpp/core/co_env.h b/include/cocpp/core/co_env.h
index 81c7fa1..f9e6ecd 100644
--- a/include/cocpp/core/co_env.h
+++ b/include/cocpp/core/co_env.h
@@ -5,6 +5,7 @@ _Pragma("once");
 #include "cocpp/core/co_return_value.h"
 #include "cocpp/core/co_type.h"
 #include "cocpp/utils/co_flag_manager.h"
+#include "cocpp/utils/co_internal_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 #include "cocpp/utils/co_state_manager.h"
 
@@ -20,14 +21,14 @@ CO_NAMESPACE_BEGIN
 class co_ctx;
 class co_stack;
 
-class co_recursive_mutex_with_count final : public std::recursive_mutex
+class co_recursive_mutex_with_count final : public co_internal_mutex
 {
 private:
     std::atomic<long long int> count__ {0};
     long long int guards__ {0}; // part of count__: preempt guards of the running ctx, used by the thread of the env only
 
 public:
-    using std::recursive_mutex::recursive_mutex;
+    using co_internal_mutex::co_internal_mutex;
     void lock();
     void unlock();
     bool try_lock();
@@ -77,14 +78,14 @@ private:
 
     // Another thread will add a new CTX to this list.
     std::vector<std::list<co_ctx *> > all_normal_ctx__ {CO_MAX_PRIORITY};
-    mutable std::recursive_mutex mu_normal_ctx__;
+    mutable co_internal_mutex mu_normal_ctx__;
     size_t ctx_count__ {0};
 
     // Another thread will get current CTX from this ENV.
     std::atomic<co_ctx *> curr_ctx__ {nullptr};
 
     size_t min_priority__ = 0;
-    mutable std::recursive_mutex mu_min_priority__;
+    mutable co_internal_mutex mu_min_priority__;
     mutable co_recursive_mutex_with_count schedule_lock__;
 
     std::condition_variable_any cv_sleep__;
diff --git a/include/cocpp/core/co_manager.h b/include/cocpp/core/co_manager.h
index 63118bb..720f1d4 100644
--- a/include/cocpp/core/co_manager.h
+++ b/include/cocpp/core/co_manager.h
@@ -3,6 +3,7 @@ _Pragma("once");
 #include "cocpp/event/co_event.h"
 #include "cocpp/core/co_define.h"
 #include "cocpp/utils/co_any.h"
+#include "cocpp/utils/co_internal_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 #include "cocpp/utils/co_singleton.h"
 
@@ -28,7 +29,7 @@ private:
     struct
     {
         std::set<co_env *> normal_set;
-        std::recursive_mutex normal_lock;
+        co_internal_mutex normal_lock;
         std::set<co_env *> expired_set;
         std::condition_variable_any cv_expired_env;
         unsigned int base_env_count;
@@ -40,11 +41,11 @@ private:
     // Other threads can access this data.
     bool clean_up__ {false};
 
-    mutable std::recursive_mutex mu_timer_duration__;
+    mutable co_internal_mutex mu_timer_duration__;
     std::chrono::steady_clock::duration timer_duration__ {10ms};
 
     std::set<std::shared_ptr<co_timer> > timer_queue__;
-    std::recursive_mutex mu_timer_queue__;
+    co_internal_mutex mu_timer_queue__;
     std::condition_variable_any cv_timer_queue__;
 
     std::list<std::future<void> > background_task__;
diff --git a/include/cocpp/core/co_timer.h b/include/cocpp/core/co_timer.h
index c7425b3..a67b856 100644
--- a/include/cocpp/core/co_timer.h
+++ b/include/cocpp/core/co_timer.h
@@ -2,6 +2,7 @@ _Pragma("once");
 
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_type.h"
+#include "cocpp/utils/co_internal_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 
 #include <atomic>
@@ -42,7 +43,7 @@ private:
     const unsigned long long interval__;
     std::atomic<std::chrono::steady_clock::time_point> expire_time__;
     co_timer_status status__;
-    mutable std::recursive_mutex mutex__;
+    mutable co_internal_mutex mutex__;
 
     void insert_to_timer_queue__();
     void remove_from_timer_queue__();
diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 2e7167e..5e19ac3 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -2,6 +2,7 @@ _Pragma("once");
 
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_type.h"
+#include "cocpp/utils/co_internal_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 
 #include <concepts>
@@ -18,7 +19,7 @@ class co_event final : private co_noncopyable
 {
 private:
     std::map<int, std::function<void(Args... args)> > cb_list__;
-    mutable std::recursive_mutex mu_cb_list__;
+    mutable co_internal_mutex mu_cb_list__;
     co_event_handle current_handler__ {0};
 
 public:
diff --git a/include/cocpp/utils/co_flag_manager.h b/include/cocpp/utils/co_flag_manager.h
index 495a25f..88d3d72 100644
--- a/include/cocpp/utils/co_flag_manager.h
+++ b/include/cocpp/utils/co_flag_manager.h
@@ -1,6 +1,7 @@
 _Pragma("once");
 
 #include "cocpp/core/co_define.h"
+#include "cocpp/utils/co_internal_mutex.h"
 
 #include <bitset>
 #include <mutex>
@@ -12,7 +13,7 @@ class co_flag_manager final
 {
 private:
     std::bitset<MAX_FLAG_COUNT> flags__;
-    mutable std::recursive_mutex mu__;
+    mutable co_internal_mutex mu__;
 
 public:
     void set_flag(size_t flag)
diff --git a/include/cocpp/utils/co_internal_mutex.h b/include/cocpp/utils/co_internal_mutex.h
new file mode 100644
index 0000000..265fed7
--- /dev/null
+++ b/include/cocpp/utils/co_internal_mutex.h
@@ -0,0 +1,20 @@
+_Pragma("once");
+
+#include "cocpp/core/co_define.h"
+
+#include <mutex>
+
+CO_NAMESPACE_BEGIN
+
+// Mutex of the library itself: the thread that holds it is not made to switch to another ctx from outside
+class co_internal_mutex : public std::recursive_mutex
+{
+public:
+    void lock();
+    bool try_lock();
+    void unlock();
+
+    static bool held_by_this_thread();
+};
+
+CO_NAMESPACE_END
diff --git a/include/cocpp/utils/co_state_manager.h b/include/cocpp/utils/co_state_manager.h
index a67bce1..1d955b6 100644
--- a/include/cocpp/utils/co_state_manager.h
+++ b/include/cocpp/utils/co_state_manager.h
@@ -1,6 +1,7 @@
 _Pragma("once");
 
 #include "cocpp/core/co_define.h"
+#include "cocpp/utils/co_internal_mutex.h"
 
 #include <mutex>
 
@@ -10,7 +11,7 @@ template <typename T, T InitState, T FinalState>
 class co_state_manager final
 {
 private:
-    mutable std::recursive_mutex mu_state__;
+    mutable co_internal_mutex mu_state__;
     T state__ {InitState};
 
 public:
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index f6f6067..fd07fbe 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -82,6 +82,7 @@ void co_env::add_ctx(co_ctx *ctx)
 
     if (is_shared_stack)
     {
+        CoPreemptGuard(); // another ctx of this thread must not come here meanwhile
         call_once(shared_stack_once_flag__, [this] {
             create_shared_stack__();
         });
@@ -801,12 +802,12 @@ void co_recursive_mutex_with_count::lock()
 {
     ++count__;
     assert(count__ > 0);
-    recursive_mutex::lock();
+    co_internal_mutex::lock();
 }
 
 void co_recursive_mutex_with_count::unlock()
 {
-    recursive_mutex::unlock();
+    co_internal_mutex::unlock();
     --count__;
     assert(count__ >= 0);
 }
@@ -814,7 +815,7 @@ void co_recursive_mutex_with_count::unlock()
 bool co_recursive_mutex_with_count::try_lock()
 {
     ++count__;
-    if (recursive_mutex::try_lock())
+    if (co_internal_mutex::try_lock())
     {
         assert(count__ > 0);
         return true;
diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index fca9f06..944c0f4 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -7,6 +7,7 @@
 #include "cocpp/core/co_vos.h"
 #include "cocpp/exception/co_exception.h"
 #include "cocpp/utils/co_defer.h"
+#include "cocpp/utils/co_internal_mutex.h"
 
 #include <cerrno>
 #include <cstddef>
@@ -141,7 +142,7 @@ void switch_from_outside(sigcontext_64 *context)
 {
     auto env = CoCurrentEnv();
 
-    if (!env->can_force_schedule())
+    if (co_internal_mutex::held_by_this_thread() || !env->can_force_schedule())
     {
         return;
     }
diff --git a/source/cocpp/utils/co_internal_mutex.cpp b/source/cocpp/utils/co_internal_mutex.cpp
new file mode 100644
index 0000000..f1026ad
--- /dev/null
+++ b/source/cocpp/utils/co_internal_mutex.cpp
@@ -0,0 +1,37 @@
+#include "cocpp/utils/co_internal_mutex.h"
+
+using namespace std;
+
+CO_NAMESPACE_BEGIN
+
+static thread_local volatile int held__ = 0; // also read by the handler of the switch signal
+
+void co_internal_mutex::lock()
+{
+    held__ = held__ + 1;
+    recursive_mutex::lock();
+}
+
+bool co_internal_mutex::try_lock()
+{
+    held__ = held__ + 1;
+    if (recursive_mutex::try_lock())
+    {
+        return true;
+    }
+    held__ = held__ - 1;
+    return false;
+}
+
+void co_internal_mutex::unlock()
+{
+    recursive_mutex::unlock();
+    held__ = held__ - 1;
+}
+
+bool co_internal_mutex::held_by_this_thread()
+{
+    return held__ != 0;
+}
+
+CO_NAMESPACE_END
-- 
2.43.0


From 5af14f7ae7a556a0a46a51be0d0cb4b86c6930c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:53 +0000
Subject: [PATCH 26/48] fix: do not preempt an environment that is going to
 sleep

The idle coroutine is the current one at that time, but its place is not
the one where the thread is.
---
 source/cocpp/core/co_env.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index fd07fbe..5b6a4bc 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -272,6 +272,7 @@ bool co_env::prepare_to_switch(co_ctx *&from, co_ctx *&to)
     }
     else
     {
+        CoPreemptGuard(); // the idle ctx is already the current one
         // The scheduling lock needs to be unlocked before going to sleep, otherwise other threads may be blocked
         unlock_schedule();
         // Wake up when the current cooperative journey is not blocked (The current coroutine is the idle coroutine)
-- 
2.43.0


From 1246915b995efdc01b0979c18e64b566fe56ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:37 +0000
Subject: [PATCH 27/48] fix: let the callbacks of an event use the event

Publishing kept the lock and iterated over the list while the callbacks
ran. A callback that unsubscribed crashed, callbacks of two events that
used each other's event waited for each other for ever, and one that
suspended blocked the whole environment of anybody else who used it.
---
 include/cocpp/event/co_event.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 5e19ac3..6364b3d 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -46,8 +46,13 @@ void co_event<Args...>::unsub(co_event_handle h)
 template <std::copyable... Args>
 void co_event<Args...>::pub(Args... args) const
 {
-    std::scoped_lock lck(mu_cb_list__);
-    for (auto &&[_, cb] : cb_list__)
+    decltype(cb_list__) cb_list;
+    {
+        std::scoped_lock lck(mu_cb_list__);
+        cb_list = cb_list__;
+    }
+    // Not under the lock and not from the list itself: the callbacks may suspend or change the list
+    for (auto &&[_, cb] : cb_list)
     {
         cb(args...);
     }
-- 
2.43.0


From 3ba9656fdbed7455d54a305e987e21bc841cc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:19:38 +0000
Subject: [PATCH 28/48] fix: repeat interrupted reads and writes

An interrupted call was returned as an error, while all other operations
repeat it.
---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index a1b38f6..89f1f67 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -53,7 +53,7 @@ int co_io::read(void *buf, size_t count)
         int ret = ::read(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
@@ -75,7 +75,7 @@ int co_io::write(const void *buf, size_t count)
         int ret = ::write(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
-- 
2.43.0


From 91856f643ba8fa766af72ac4ba63e6a7d308d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:19:38 +0000
Subject: [PATCH 29/48] fix: pass the argument of fcntl and ioctl on

The address of the argument list was passed instead.
---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index 89f1f67..dd3f22b 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -109,7 +109,7 @@ int co_io::fcntl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::fcntl(fd__, cmd, args);
+    int ret = ::fcntl(fd__, cmd, va_arg(args, void *));
     va_end(args);
 
     return ret;
@@ -119,7 +119,7 @@ int co_io::ioctl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::ioctl(fd__, cmd, args);
+    int ret = ::ioctl(fd__, cmd, va_arg(args, void *));
     va_end(args);
     return ret;
 }
-- 
2.43.0


From 580474135d95ce6164dd334614f517cfabae0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:19:38 +0000
Subject: [PATCH 30/48] fix: return the whole offset from lseek

Offsets of 2 GiB and more were cut off.
---
 include/cocpp/io/co_io.h  | 2 +-
 source/cocpp/io/co_io.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/io/co_io.h b/include/cocpp/io/co_io.h
index 26c1359..1653fdf 100644
--- a/include/cocpp/io/co_io.h
+++ b/include/cocpp/io/co_io.h
@@ -20,7 +20,7 @@ public:
     virtual int close();
     virtual int read(void *buf, size_t count);
     virtual int write(const void *buf, size_t count);
-    virtual int lseek(off_t offset, int whence);
+    virtual off_t lseek(off_t offset, int whence);
     virtual int fchmod(mode_t mode);
     virtual int fchown(uid_t owner, gid_t group);
     virtual int fcntl(int cmd, ...);
diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index dd3f22b..cfb80b6 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -90,7 +90,7 @@ int co_io::write(const void *buf, size_t count)
     }
 }
 
-int co_io::lseek(off_t offset, int whence)
+off_t co_io::lseek(off_t offset, int whence)
 {
     return ::lseek(fd__, offset, whence);
 }
-- 
2.43.0


From 1127edec0a097fc7a6577bd1abe7483867f17e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:19:38 +0000
Subject: [PATCH 31/48] fix: wait in sendto when the socket is not ready

The socket is non-blocking, so that sendto returned an error where it has
to wait, unlike send and sendmsg.
---
 source/cocpp/io/co_net.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 6657e4f..b45c760 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -123,7 +123,22 @@ int co_net::send(const void *buf, size_t len, int flags)
 
 int co_net::sendto(const void *buf, size_t len, int flags, const struct sockaddr *dest_addr, socklen_t addrlen)
 {
-    return ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+    for (;;)
+    {
+        int ret = ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+
+        if (ret == -1)
+        {
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                CoYield();
+                continue;
+            }
+            CO_O_ERROR("sendto error: %s", strerror(errno));
+            return -1;
+        }
+        return ret;
+    }
 }
 
 int co_net::recv(void *buf, size_t len, int flags)
-- 
2.43.0


From 252fe595e1f580de7aad847c75b02a0a36461f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:19:38 +0000
Subject: [PATCH 32/48] fix: return the result of connect

A connection that was established at once was reported as an error, one
that failed later as established. Descriptors from 1024 on were written
beyond the end of the fd_set.
---
 source/cocpp/io/co_net.cpp | 58 ++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index b45c760..003b574 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -1,4 +1,5 @@
 #include <optional>
+#include <poll.h>
 #include <sys/socket.h>
 #include <string.h>
 #include "cocpp/io/co_net.h"
@@ -58,47 +59,54 @@ int co_net::bind(const struct sockaddr *addr, socklen_t addrlen)
 int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 {
     int ret = ::connect(fd__, addr, addrlen);
+    while (ret == -1 && errno == EAGAIN)
+    {
+        CoYield();
+        ret = ::connect(fd__, addr, addrlen);
+    }
 
-    if (ret > 0)
+    if (ret == 0)
     {
-        return ret;
+        return 0;
     }
 
-    if (errno != EINPROGRESS)
+    if (errno != EINPROGRESS && errno != EINTR)
     {
         CO_O_ERROR("connect error: %s", strerror(errno));
         return -1;
     }
 
-    fd_set write_fds;
-    struct timeval timeout;
-    timeout.tv_sec = 0;
-    timeout.tv_usec = 10 * 1000;
-    while (1)
+    for (;;)
     {
-        FD_ZERO(&write_fds);
-        FD_SET(fd__, &write_fds);
-
-        int result = select(fd__ + 1, NULL, &write_fds, NULL, &timeout);
+        struct pollfd poll_fd = {fd__, POLLOUT, 0};
+        int result = ::poll(&poll_fd, 1, 0);
 
-        if (result < 0)
+        if (result > 0)
         {
-            CO_O_ERROR("select error: %s", strerror(errno));
-            return -1;
-        }
-        else if (result == 0)
-        {
-            CoYield();
-            continue;
+            break;
         }
-        else
+        if (result < 0 && errno != EINTR)
         {
-            if (FD_ISSET(fd__, &write_fds))
-            {
-                return 0;
-            }
+            CO_O_ERROR("poll error: %s", strerror(errno));
+            return -1;
         }
+        CoYield();
+    }
+
+    int error = 0;
+    socklen_t error_len = sizeof(error);
+    if (::getsockopt(fd__, SOL_SOCKET, SO_ERROR, &error, &error_len) == -1)
+    {
+        CO_O_ERROR("getsockopt error: %s", strerror(errno));
+        return -1;
+    }
+    if (error != 0)
+    {
+        CO_O_ERROR("connect error: %s", strerror(error));
+        errno = error;
+        return -1;
     }
+    return 0;
 }
 
 int co_net::send(const void *buf, size_t len, int flags)
-- 
2.43.0


From 07b7ad1c98767ef3c6313fccc35224a25c74768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:28 +0000
Subject: [PATCH 33/48] fix: co_client::read_n ends when the peer has closed
 the connection

---
 source/cocpp/io/co_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cocpp/io/co_client.cpp b/source/cocpp/io/co_client.cpp
index be0a631..fdfbee8 100644
--- a/source/cocpp/io/co_client.cpp
+++ b/source/cocpp/io/co_client.cpp
@@ -32,6 +32,10 @@ co_error co_client::read_n(co_buffer &buf)
         {
             return co_error(co_error_code::co_client_read_error, "read error", strerror(errno));
         }
+        if (ret == 0)
+        {
+            return co_error(co_error_code::co_client_read_error, "read error", "connection closed");
+        }
         remain -= ret;
     }
     return co_error();
-- 
2.43.0


From 8539bd86a6fe389e83db03fbb160df13cb28f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:34 +0000
Subject: [PATCH 34/48] fix: keep unbound coroutines out of an idle exclusive
 env

The search for an environment returned the first idle one before it looked
at the exclusive flag, so an exclusive environment with nothing to do got
coroutines that were not bound to it.
---
 source/cocpp/core/co_manager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 001e6d6..0a8ef93 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -33,10 +33,6 @@ co_env *co_manager::get_best_env__()
     size_t can_schedule_env_count = 0;
     for (auto &&env : env_set__.normal_set)
     {
-        if (env->state() == co_env_state::idle)
-        {
-            return env;
-        }
         if (!env->can_schedule_ctx())
         {
             continue;
@@ -46,6 +42,10 @@ co_env *co_manager::get_best_env__()
         {
             continue;
         }
+        if (env->state() == co_env_state::idle)
+        {
+            return env;
+        }
         // 统计可用于调度的env数量
         ++can_schedule_env_count;
         if (env->workload() < min_workload)
-- 
2.43.0


From 7bec728861aa1858f1b0d262e70398e05fdca850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:34 +0000
Subject: [PATCH 35/48] fix: don't stop the env chosen for a new coroutine

An idle environment could be chosen for a new coroutine and then be stopped
as surplus by the monitor before the coroutine was added to it. Creating the
coroutine then threw, or the coroutine was destroyed without having run.
---
 source/cocpp/core/co_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 0a8ef93..86c8981 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -429,6 +429,7 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
     }
     else
     {
+        scoped_lock lock(env_set__.normal_lock); // the chosen env must not be stopped before it has the ctx
         get_best_env__()->add_ctx(ctx);
     }
     return ctx;
-- 
2.43.0


From 79fff63eca613c3556d30623ac3029b912bd5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:33 +0000
Subject: [PATCH 36/48] fix: don't destroy envs that are in use when the
 process ends

At the end of the process the cleaner thread destroyed the environments of
all threads that had been converted, its own and those of the timer, monitor
and main threads among them. All of them went on using their environment.
The environments now stay until the process is gone.
---
 source/cocpp/core/co_manager.cpp | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 86c8981..df4c75d 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -184,8 +184,6 @@ void co_manager::set_clean_up__()
     {
         if (env->test_flag(CO_ENV_FLAG_NO_SCHE_THREAD))
         {
-            // 对于没有调度线程的env，无法将自己加入销毁队列，需要由manager__加入
-            remove_env__(env);
             continue;
         }
         env->stop_schedule(); // 注意：没有调度线程的env不能调用stop_schedule
@@ -198,26 +196,12 @@ void co_manager::set_clean_up__()
 void co_manager::clean_env_routine__()
 {
     unique_lock lck(env_set__.normal_lock);
-    while (!clean_up__ || !env_set__.normal_set.empty())
+    while (!clean_up__)
     {
+        env_set__.cv_expired_env.wait(lck);
         if (clean_up__)
         {
-            auto backup = env_set__.normal_set;
-            for (auto &&env : backup)
-            {
-                if (env->test_flag(CO_ENV_FLAG_NO_SCHE_THREAD))
-                {
-                    // 对于没有调度线程的env，无法将自己加入销毁队列，需要由manager__加入
-                    remove_env__(env);
-                    continue;
-                }
-                env->stop_schedule(); // 注意：没有调度线程的env不能调用stop_schedule
-            }
-            env_set__.normal_set.clear();
-        }
-        else
-        {
-            env_set__.cv_expired_env.wait(lck);
+            break; // the process ends, and threads that are still running use their envs
         }
         for (auto &&p : env_set__.expired_set)
         {
-- 
2.43.0


From b0e323b28d623c45856de8af913fce29be7dae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:33 +0000
Subject: [PATCH 37/48] fix: don't destroy unfinished coroutines when the
 process ends

An environment that was stopped at the end of the process destroyed the
coroutines it still had. A coroutine of another environment, or the timer
thread, could wake one of them up afterwards.
---
 include/cocpp/core/co_env.h  | 1 -
 source/cocpp/core/co_env.cpp | 9 +--------
 2 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/cocpp/core/co_env.h b/include/cocpp/core/co_env.h
index f9e6ecd..c745a4b 100644
--- a/include/cocpp/core/co_env.h
+++ b/include/cocpp/core/co_env.h
@@ -96,7 +96,6 @@ private:
     co_env(size_t shared_stack_size, co_ctx *idle_ctx, bool create_new_thread);
     void start_schedule_routine__();
     void remove_detached_ctx__();
-    void remove_all_ctx__();
     co_ctx *next_ctx__();
     void save_shared_stack__(co_ctx *ctx);
     void restore_shared_stack__(co_ctx *ctx);
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 5b6a4bc..a0c60fe 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -444,7 +444,7 @@ void co_env::start_schedule_routine__()
         }
     }
 
-    remove_all_ctx__();
+    // The process ends if there are ctxs left, and the coroutines of other envs may still wake them up
     task_finished().pub();
     current_env__ = nullptr;
 }
@@ -458,13 +458,6 @@ void co_env::schedule_in_this_thread()
     start_schedule_routine__();
 }
 
-void co_env::remove_all_ctx__()
-{
-    ranges::for_each(all_ctx__(), [this](auto &ctx) {
-        remove_ctx(ctx);
-    });
-}
-
 void co_env::reset_scheduled_flag()
 {
     unset_flag(CO_ENV_FLAG_SCHEDULED);
-- 
2.43.0


From 0ca4fb302a595c8fa9467b0a09356a32ea04badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:33 +0000
Subject: [PATCH 38/48] fix: don't destroy the manager while envs are running

At the end of the process the manager told the environments to stop but did
not wait until they had, as a coroutine may run for ever. An environment that
stopped a little later used the members of the destroyed manager.
The manager now stays until the process is gone.
---
 include/cocpp/core/co_manager.h  | 6 +++---
 source/cocpp/core/co_manager.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/cocpp/core/co_manager.h b/include/cocpp/core/co_manager.h
index 720f1d4..8767b88 100644
--- a/include/cocpp/core/co_manager.h
+++ b/include/cocpp/core/co_manager.h
@@ -21,7 +21,7 @@ class co_timer;
 struct co_ctx_config;
 
 using namespace std::chrono_literals;
-class co_manager final : public co_singleton_static<co_manager>
+class co_manager final : public co_singleton<co_manager>
 {
     RegCoEvent(timing_routine_timeout);
 
@@ -61,6 +61,7 @@ private:
     void destroy_redundant_env__();
     void wait_background_task__();
     void set_clean_up__();
+    void stop__();
     co_env *get_best_env__();
     void remove_env__(co_env *env);
     void subscribe_env_event__(co_env *env);
@@ -89,10 +90,9 @@ public:
     void set_timer_tick_duration(
         const std::chrono::steady_clock::duration &duration);
     const std::chrono::steady_clock::duration &timing_duration() const;
-    ~co_manager();
     std::string manager_info();
 
-    friend class co_singleton_static<co_manager>;
+    friend class co_singleton<co_manager>;
     friend class co_timer;
 };
 
diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index df4c75d..cf6f8a1 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -11,6 +11,7 @@
 #include "cocpp/utils/co_defer.h"
 #include <cassert>
 #include <cstddef>
+#include <cstdlib>
 #include <future>
 #include <mutex>
 #include <signal.h>
@@ -147,6 +148,8 @@ co_manager::co_manager()
 {
     subscribe_manager_event__();
     create_background_task__();
+    // The manager is never destroyed: at the end of the process envs may still be running
+    atexit([] { instance()->stop__(); });
     set_up_signal_handler({CO_SWITCH_SIGNAL, SIGHUP, SIGINT, SIGTERM, SIGQUIT, SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGSYS, SIGXCPU, SIGXFSZ, SIGPIPE});
 }
 
@@ -384,10 +387,10 @@ const chrono::steady_clock::duration &co_manager::timing_duration() const
     return timer_duration__;
 }
 
-co_manager::~co_manager()
+void co_manager::stop__()
 {
     set_clean_up__();
-    wait_background_task__(); // 此处所有的流程都已经结束了，可以清理一些单例的资源了
+    wait_background_task__(); // 此处所有的流程都已经结束了
 }
 
 void co_manager::wait_background_task__()
-- 
2.43.0


From 6f4dd8d7d4bd5a635767367b48c4742d0d39b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:40 +0000
Subject: [PATCH 39/48] fix: let the handlers of the finished event suspend

A finished coroutine was never scheduled again. A handler of its finished
event that suspended, for instance in a contended spinlock, was lost, and so
were the handlers after it and the waits that depend on them.
---
 include/cocpp/core/co_define.h | 1 +
 source/cocpp/core/co_ctx.cpp   | 6 ++++--
 source/cocpp/core/co_env.cpp   | 7 +++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cocpp/core/co_define.h b/include/cocpp/core/co_define.h
index f2462bc..7d5d959 100644
--- a/include/cocpp/core/co_define.h
+++ b/include/cocpp/core/co_define.h
@@ -21,6 +21,7 @@ constexpr int CO_CTX_FLAG_LOCKED = 1;
 constexpr int CO_CTX_FLAG_BIND = 2;
 constexpr int CO_CTX_FLAG_IDLE = 3;
 constexpr int CO_CTX_FLAG_SHARED_STACK = 4;
+constexpr int CO_CTX_FLAG_LEAVING = 5; // finished, and the handlers of the finished event are running
 constexpr int CO_CTX_FLAG_MAX = 8;
 
 constexpr int CO_ENV_FLAG_NO_SCHE_THREAD = 0;
diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 8abfde6..adc6761 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -76,9 +76,11 @@ void co_ctx::real_entry(co_ctx *ctx)
     CoPreemptGuard();
     // CO_DEBUG("ctx %s %p finished", ctx->config().name.c_str(), ctx);
     ctx->lock_finished_state();
+    ctx->set_flag(CO_CTX_FLAG_LEAVING);
     ctx->set_state(co_state::finished);
     ctx->unlock_finished_state();
     ctx->finished().pub();
+    ctx->unset_flag(CO_CTX_FLAG_LEAVING);
     assert(ctx->env() != nullptr);
     ctx->env()->schedule_switch(); // 此处的ctx对应的env不可能为空，如果为空，这个ctx就不可能被调度
 }
@@ -145,12 +147,12 @@ void co_ctx::check_and_rethrow_exception()
 bool co_ctx::can_schedule() const
 {
     scoped_lock lock(wait_data__.mu); // leave_wait_resource_state is done with this ctx
-    return state() != co_state::finished && !test_flag(CO_CTX_FLAG_WAITING);
+    return (state() != co_state::finished || test_flag(CO_CTX_FLAG_LEAVING)) && !test_flag(CO_CTX_FLAG_WAITING);
 }
 
 bool co_ctx::can_destroy() const
 {
-    return !test_flag(CO_CTX_FLAG_LOCKED);
+    return !test_flag(CO_CTX_FLAG_LOCKED) && !test_flag(CO_CTX_FLAG_LEAVING);
 }
 
 void co_ctx::lock_destroy()
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index a0c60fe..c7d9b8c 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -253,7 +253,10 @@ void co_env::update_ctx_state__(co_ctx *curr, co_ctx *next)
     {
         curr->set_state(co_state::suspended);
     }
-    next->set_state(co_state::running);
+    if (next->state() != co_state::finished)
+    {
+        next->set_state(co_state::running);
+    }
 }
 
 // 此函数调用前必须保证调度已经被锁定
@@ -402,7 +405,7 @@ void co_env::switch_shared_stack_ctx__()
     CoPreemptGuard();
     shared_stack_switch_info__.need_switch = false;
 
-    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK) && shared_stack_switch_info__.from->state() != co_state::finished)
+    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK) && (shared_stack_switch_info__.from->state() != co_state::finished || shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_LEAVING)))
     {
         save_shared_stack__(shared_stack_switch_info__.from);
     }
-- 
2.43.0


From be1476dae6f842bb05ff23995f6807d6405508dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:40 +0000
Subject: [PATCH 40/48] fix: don't hold the timer queue's lock while describing
 the envs

The report written for a fatal signal locked the timer queue before the envs
and the timers. A coroutine that started a timer took these locks in the
opposite order, and the process hung instead of ending.
---
 source/cocpp/core/co_manager.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index cf6f8a1..9b0220c 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -490,8 +490,6 @@ void co_manager::remove_timer_from_queue__(shared_ptr<co_timer> timer)
 
 string co_manager::manager_info()
 {
-    scoped_lock lock(mu_timer_queue__, mu_timer_duration__, mu_timer_queue__);
-
     stringstream ss;
 
     // env set
@@ -524,17 +522,19 @@ string co_manager::manager_info()
     ss << "clean up: " << clean_up__ << endl;
 
     // timer duration
-    ss << "timer duration: " << timer_duration__.count() << endl;
+    ss << "timer duration: " << timing_duration().count() << endl;
 
     // timer queue
     ss << "timer queue: " << endl;
+    decltype(timer_queue__) timer_queue;
     {
-        scoped_lock lock(mu_timer_queue__);
-        ss << "count: " << timer_queue__.size() << endl;
-        for (auto &&timer : timer_queue__)
-        {
-            ss << timer->timer_info() << endl;
-        }
+        scoped_lock lock(mu_timer_queue__); // taken last, after the locks of envs and timers
+        timer_queue = timer_queue__;
+    }
+    ss << "count: " << timer_queue.size() << endl;
+    for (auto &&timer : timer_queue)
+    {
+        ss << timer->timer_info() << endl;
     }
 
     // default shared stack size
-- 
2.43.0


From 4e17988182f67d4463ca7a53529a019d0f5da92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:34:11 +0000
Subject: [PATCH 41/48] fix: keep a priority that is set while the coroutine
 waits for another

---
 include/cocpp/core/co_ctx.h  |  5 +++++
 source/cocpp/core/co_ctx.cpp | 28 +++++++++++++++++++++++++++-
 source/cocpp/core/co_env.cpp | 11 ++++-------
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/cocpp/core/co_ctx.h b/include/cocpp/core/co_ctx.h
index e4ece1c..51dec3c 100644
--- a/include/cocpp/core/co_ctx.h
+++ b/include/cocpp/core/co_ctx.h
@@ -53,6 +53,7 @@ private:
 
     // Other threads may change the priority
     int priority__ {CO_IDLE_CTX_PRIORITY};
+    int own_priority__ {CO_IDLE_CTX_PRIORITY}; // to go back to after a priority has been borrowed
     mutable co_internal_mutex priority_lock__;
 
     co_env *env__ {nullptr};
@@ -65,10 +66,14 @@ private:
 
     co_ctx(co_stack *stack, const co_ctx_config &config, std::function<void(co_any &)> entry);
 
+    void change_priority__(int priority);
+
 public:
     static void real_entry(co_ctx *ctx);
 
     void set_priority(int priority);
+    void borrow_priority(int priority);
+    void return_priority();
     size_t priority() const;
 
     bool can_schedule() const;
diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index adc6761..3e5af9c 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -98,7 +98,6 @@ void co_ctx::set_priority(int priority)
         return;
     }
     unique_lock lock(priority_lock__);
-    int old_priority = priority__;
     if (priority >= CO_MAX_PRIORITY)
     {
         priority = CO_MAX_PRIORITY - 1;
@@ -107,6 +106,33 @@ void co_ctx::set_priority(int priority)
     {
         priority = 0;
     }
+    own_priority__ = priority;
+    change_priority__(priority);
+}
+
+void co_ctx::borrow_priority(int priority)
+{
+    if (test_flag(CO_CTX_FLAG_IDLE))
+    {
+        return;
+    }
+    scoped_lock lock(priority_lock__);
+    change_priority__(priority);
+}
+
+void co_ctx::return_priority()
+{
+    if (test_flag(CO_CTX_FLAG_IDLE))
+    {
+        return;
+    }
+    scoped_lock lock(priority_lock__);
+    change_priority__(own_priority__);
+}
+
+void co_ctx::change_priority__(int priority)
+{
+    int old_priority = priority__;
     priority__ = priority;
     {
         if (env__ == nullptr) // 首次调用的时候env为空
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index c7d9b8c..ee3bf55 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -122,9 +122,8 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
     }
 
     // Priority inversion prevents high priorities from being kept waiting and low priorities from being executed
-    auto old_priority = current_ctx()->priority();
-    current_ctx()->set_priority(ctx->priority());
-    CoDefer(current_ctx()->set_priority(old_priority));
+    current_ctx()->borrow_priority(ctx->priority());
+    CoDefer(current_ctx()->return_priority());
 
     optional<co_return_value> ret;
 
@@ -177,10 +176,8 @@ co_return_value co_env::wait_ctx(co_ctx *ctx)
         throw std::runtime_error("can't wait self");
     }
 
-    auto old_priority = current_ctx()->priority();
-    current_ctx()->set_priority(ctx->priority());
-
-    CoDefer(current_ctx()->set_priority(old_priority));
+    current_ctx()->borrow_priority(ctx->priority());
+    CoDefer(current_ctx()->return_priority());
 
     ctx->lock_finished_state();
     lock_schedule();
-- 
2.43.0


From aebf84728e903ea1b2eb078ae35ae7693a67e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:55 +0000
Subject: [PATCH 42/48] fix: release a coroutine that could not be started

---
 source/cocpp/core/co_manager.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 9b0220c..93b8c87 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -410,14 +410,22 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
         ctx->lock_destroy();
     }
     auto bind_env = ctx->config().bind_env;
-    if (bind_env != nullptr)
+    try
     {
-        bind_env->add_ctx(ctx);
+        if (bind_env != nullptr)
+        {
+            bind_env->add_ctx(ctx);
+        }
+        else
+        {
+            scoped_lock lock(env_set__.normal_lock); // the chosen env must not be stopped before it has the ctx
+            get_best_env__()->add_ctx(ctx);
+        }
     }
-    else
+    catch (...)
     {
-        scoped_lock lock(env_set__.normal_lock); // the chosen env must not be stopped before it has the ctx
-        get_best_env__()->add_ctx(ctx);
+        co_ctx_factory::destroy_ctx(ctx); // no env has it
+        throw;
     }
     return ctx;
 }
-- 
2.43.0


From a6b0d90fb9f4151fe32fcb58b0e3bdab0f97b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:13:53 +0000
Subject: [PATCH 43/48] fix: very long timeouts ended at once

Adding them to the current time overflowed. A deadline that does not fit
is now the latest one possible.
---
 include/cocpp/co/co_co.h                   |  5 ++--
 include/cocpp/sync/co_condition_variable.h |  5 ++--
 include/cocpp/sync/co_counting_semaphore.h |  3 ++-
 include/cocpp/sync/co_shared_timed_mutex.h |  3 ++-
 include/cocpp/sync/co_timed_addition.h     |  3 ++-
 include/cocpp/utils/co_utils.h             | 27 ++++++++++++++++++++++
 source/cocpp/core/co_env.cpp               |  3 ++-
 source/cocpp/core/co_timer.cpp             |  3 ++-
 8 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/include/cocpp/co/co_co.h b/include/cocpp/co/co_co.h
index ed3d3a4..c2912fb 100644
--- a/include/cocpp/co/co_co.h
+++ b/include/cocpp/co/co_co.h
@@ -10,6 +10,7 @@ _Pragma("once");
 #include "cocpp/core/co_timer.h"
 #include "cocpp/utils/co_defer.h"
 #include "cocpp/utils/co_noncopyable.h"
+#include "cocpp/utils/co_utils.h"
 
 #include <chrono>
 #include <functional>
@@ -156,7 +157,7 @@ Ret co::wait() const
 template <typename Rep, typename Period>
 std::optional<co_return_value> co::wait_for(const std::chrono::duration<Rep, Period> &wait_duration) const
 {
-    return CoCurrentEnv()->wait_ctx(ctx__, std::chrono::duration_cast<std::chrono::nanoseconds>(wait_duration));
+    return CoCurrentEnv()->wait_ctx(ctx__, co_nanoseconds(wait_duration));
 }
 
 template <typename Clock, typename Duration>
@@ -169,7 +170,7 @@ std::optional<co_return_value> co::wait_until(const std::chrono::time_point<Cloc
 template <class Rep, class Period>
 void this_co::sleep_for(const std::chrono::duration<Rep, Period> &sleep_duration)
 {
-    return sleep_until(std::chrono::steady_clock::now() + sleep_duration);
+    return sleep_until(co_deadline(sleep_duration));
 }
 
 template <class Clock, class Duration>
diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index 795ab25..b01e3ed 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -8,6 +8,7 @@ _Pragma("once");
 #include "cocpp/core/co_type.h"
 #include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
+#include "cocpp/utils/co_utils.h"
 
 #include <chrono>
 #include <list>
@@ -126,7 +127,7 @@ bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_
 template <typename Lock, typename Clock, typename Duration>
 bool co_condition_variable_impl::wait_for(Lock &lock, const std::chrono::duration<Clock, Duration> &duration)
 {
-    return wait_until(lock, std::chrono::steady_clock::now() + duration);
+    return wait_until(lock, co_deadline(duration));
 }
 
 template <typename Lock, typename Clock, typename Duration, typename Predicate>
@@ -147,7 +148,7 @@ template <typename Lock, typename Clock, typename Duration, typename Predicate>
 bool co_condition_variable_impl::wait_for(Lock &lock, const std::chrono::duration<Clock, Duration> &duration,
                                           Predicate pred)
 {
-    return wait_until(lock, std::chrono::steady_clock::now() + duration, pred);
+    return wait_until(lock, co_deadline(duration), pred);
 }
 
 CO_NAMESPACE_END
\ No newline at end of file
diff --git a/include/cocpp/sync/co_counting_semaphore.h b/include/cocpp/sync/co_counting_semaphore.h
index 3d9c99d..2655211 100644
--- a/include/cocpp/sync/co_counting_semaphore.h
+++ b/include/cocpp/sync/co_counting_semaphore.h
@@ -6,6 +6,7 @@ _Pragma("once");
 #include "cocpp/sync/co_condition_variable.h"
 #include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
+#include "cocpp/utils/co_utils.h"
 #include <cassert>
 #include <chrono>
 
@@ -86,7 +87,7 @@ template <std::ptrdiff_t LeastMaxValue>
 template <class Rep, class Period>
 bool co_counting_semaphore<LeastMaxValue>::try_acquire_for(const std::chrono::duration<Rep, Period> &rel_time)
 {
-    return try_acquire_until(std::chrono::steady_clock::now() + rel_time);
+    return try_acquire_until(co_deadline(rel_time));
 }
 
 template <std::ptrdiff_t LeastMaxValue>
diff --git a/include/cocpp/sync/co_shared_timed_mutex.h b/include/cocpp/sync/co_shared_timed_mutex.h
index 53f5496..94c1b0b 100644
--- a/include/cocpp/sync/co_shared_timed_mutex.h
+++ b/include/cocpp/sync/co_shared_timed_mutex.h
@@ -7,6 +7,7 @@ _Pragma("once");
 #include "cocpp/core/co_manager.h"
 #include "cocpp/sync/co_shared_mutex.h"
 #include "cocpp/sync/co_timed_addition.h"
+#include "cocpp/utils/co_utils.h"
 
 CO_NAMESPACE_BEGIN
 
@@ -22,7 +23,7 @@ public:
 template <class Rep, class Period>
 bool co_shared_timed_mutex::try_lock_shared_for(const std::chrono::duration<Rep, Period> &timeout_duration)
 {
-    return try_lock_shared_until(std::chrono::steady_clock::now() + timeout_duration);
+    return try_lock_shared_until(co_deadline(timeout_duration));
 }
 
 template <class Clock, class Duration>
diff --git a/include/cocpp/sync/co_timed_addition.h b/include/cocpp/sync/co_timed_addition.h
index 259a255..29b3b69 100644
--- a/include/cocpp/sync/co_timed_addition.h
+++ b/include/cocpp/sync/co_timed_addition.h
@@ -5,6 +5,7 @@ _Pragma("once");
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_env.h"
 #include "cocpp/core/co_manager.h"
+#include "cocpp/utils/co_utils.h"
 
 CO_NAMESPACE_BEGIN
 
@@ -22,7 +23,7 @@ template <class Lock>
 template <class Rep, class Period>
 bool co_timed_addition<Lock>::try_lock_for(const std::chrono::duration<Rep, Period> &timeout_duration)
 {
-    return try_lock_until(std::chrono::steady_clock::now() + timeout_duration);
+    return try_lock_until(co_deadline(timeout_duration));
 }
 
 template <class Lock>
diff --git a/include/cocpp/utils/co_utils.h b/include/cocpp/utils/co_utils.h
index 1cc98a4..52c9dd6 100644
--- a/include/cocpp/utils/co_utils.h
+++ b/include/cocpp/utils/co_utils.h
@@ -1,7 +1,34 @@
+_Pragma("once");
+
 #include "cocpp/core/co_define.h"
 #include <chrono>
 #include <functional>
 
 CO_NAMESPACE_BEGIN
 bool co_timed_call(std::chrono::steady_clock::duration timeout, std::function<bool()> func);
+
+// Times that do not fit are as long as possible
+template <typename Rep, typename Period>
+std::chrono::nanoseconds co_nanoseconds(const std::chrono::duration<Rep, Period> &time)
+{
+    if (time <= time.zero())
+    {
+        return std::chrono::nanoseconds::zero();
+    }
+    if (std::chrono::duration<double>(time).count() > 9.2e9)
+    {
+        return std::chrono::nanoseconds::max();
+    }
+    return std::chrono::ceil<std::chrono::nanoseconds>(time);
+}
+
+template <typename Rep, typename Period>
+std::chrono::steady_clock::time_point co_deadline(const std::chrono::duration<Rep, Period> &timeout)
+{
+    using clock = std::chrono::steady_clock;
+    auto now = clock::now();
+    auto time = co_nanoseconds(timeout);
+    return time < clock::time_point::max() - now ? now + time : clock::time_point::max();
+}
+
 CO_NAMESPACE_END
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index ee3bf55..2036e83 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -10,6 +10,7 @@
 #include "cocpp/core/co_type.h"
 #include "cocpp/core/co_vos.h"
 #include "cocpp/utils/co_defer.h"
+#include "cocpp/utils/co_utils.h"
 
 #include <algorithm>
 #include <atomic>
@@ -140,7 +141,7 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
                 curr_ctx->leave_wait_resource_state(over.get());
             }
         };
-        auto timer = co_timer::create(end_wait, chrono::steady_clock::now() + timeout);
+        auto timer = co_timer::create(end_wait, co_deadline(timeout));
         curr_ctx->enter_wait_resource_state(over.get());
         auto handle = ctx->finished().sub(end_wait);
         timer->start();
diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index 8877a94..3c9094a 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -1,5 +1,6 @@
 #include "cocpp/core/co_timer.h"
 #include "cocpp/core/co_manager.h"
+#include "cocpp/utils/co_utils.h"
 
 #include <sstream>
 
@@ -88,7 +89,7 @@ void co_timer::update_timeout_time__()
 {
     if (timer_type__ == co_timer_type::relative)
     {
-        expire_time__ = chrono::steady_clock::now() + chrono::milliseconds(interval__);
+        expire_time__ = co_deadline(chrono::duration<unsigned long long, milli>(interval__));
     }
 }
 
-- 
2.43.0


From 3bab0be0ae00cc5b54c6c9b34318927bb482ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:28:12 +0000
Subject: [PATCH 44/48] fix: a wait until a time before the beginning of the
 clock ends at once

The difference to the current time overflowed, and the wait went on for ever.
---
 include/cocpp/co/co_co.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cocpp/co/co_co.h b/include/cocpp/co/co_co.h
index c2912fb..2177200 100644
--- a/include/cocpp/co/co_co.h
+++ b/include/cocpp/co/co_co.h
@@ -163,6 +163,10 @@ std::optional<co_return_value> co::wait_for(const std::chrono::duration<Rep, Per
 template <typename Clock, typename Duration>
 std::optional<co_return_value> co::wait_until(const std::chrono::time_point<Clock, Duration> &time_point) const
 {
+    if (time_point <= std::chrono::steady_clock::now())
+    {
+        return wait_for(std::chrono::nanoseconds::zero()); // the difference may be more than a duration can hold
+    }
     auto duration = time_point - std::chrono::steady_clock::now();
     return wait_for(duration);
 }
-- 
2.43.0


From e3680b74a32a34ffbf93e1bf7dde2da4afceead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:19:38 +0000
Subject: [PATCH 45/48] fix: a fatal signal in another thread cut off the
 report

---
 source/cocpp/exception/co_exception.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/exception/co_exception.cpp b/source/cocpp/exception/co_exception.cpp
index b39e93e..976f409 100644
--- a/source/cocpp/exception/co_exception.cpp
+++ b/source/cocpp/exception/co_exception.cpp
@@ -2,12 +2,15 @@
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_manager.h"
 #include "cocpp/core/co_vos.h"
+#include <atomic>
+#include <chrono>
 #include <cstdio>
 #include <cstdlib>
 #include <execinfo.h>
 #include <iomanip>
 #include <signal.h>
 #include <sstream>
+#include <thread>
 #include <unistd.h>
 
 using namespace std;
@@ -60,13 +63,17 @@ string backtrace()
 void handle_exception(sigcontext_64 *context, int sig)
 {
     fprintf(exec_file, "signal %d\n", sig);
-    static bool in_exception = false;
-    if (in_exception)
+    static atomic<co_tid> in_exception {0}; // the thread that writes the report
+    co_tid reporter = 0;
+    if (!in_exception.compare_exchange_strong(reporter, gettid()))
     {
+        while (reporter != gettid())
+        {
+            this_thread::sleep_for(chrono::seconds(1)); // until that thread ends the process
+        }
         fprintf(exec_file, "exception occurs in exception handler\n");
         _exit(128 - sig);
     }
-    in_exception = true;
     print_debug_info("time info", time_info);
     print_debug_info("regs info", [context]() {
         return regs_info(context);
-- 
2.43.0


From 046116199d2d7a3b00097065338cdca8faaf9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:22:26 +0000
Subject: [PATCH 46/48] fix: a coroutine that wrote the report of a fatal
 signal could be preempted

The handler of a fatal signal ran with the switch signal open.  A forced
switch could leave the report half written, and the process then went on
with another coroutine.
---
 source/cocpp/exception/co_exception.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cocpp/exception/co_exception.cpp b/source/cocpp/exception/co_exception.cpp
index 976f409..8f76640 100644
--- a/source/cocpp/exception/co_exception.cpp
+++ b/source/cocpp/exception/co_exception.cpp
@@ -95,6 +95,10 @@ void set_up_signal_handler(const vector<int> &signals)
         sa.sa_handler = signal_handler;
 
         sigemptyset(&sa.sa_mask);
+        if (s != CO_SWITCH_SIGNAL)
+        {
+            sigaddset(&sa.sa_mask, CO_SWITCH_SIGNAL); // the report is not left for another coroutine
+        }
         sa.sa_flags = s == CO_SWITCH_SIGNAL ? SA_NODEFER : 0; // its handler may switch to another coroutine
         sigaction(s, &sa, nullptr);
     }
-- 
2.43.0


From d09412870861122bfc970190887cdd7d473d0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:19 +0000
Subject: [PATCH 47/48] fix: the report of a fatal signal ended in an abort

realpath() needs a buffer of PATH_MAX bytes.  A fortified build, the
default of several distributions, aborts the process when the buffer is
smaller, so that most of the report was never written.
---
 source/cocpp/exception/co_exception.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/exception/co_exception.cpp b/source/cocpp/exception/co_exception.cpp
index 8f76640..61dcbfa 100644
--- a/source/cocpp/exception/co_exception.cpp
+++ b/source/cocpp/exception/co_exception.cpp
@@ -4,6 +4,7 @@
 #include "cocpp/core/co_vos.h"
 #include <atomic>
 #include <chrono>
+#include <climits>
 #include <cstdio>
 #include <cstdlib>
 #include <execinfo.h>
@@ -25,7 +26,7 @@ static void signal_handler(int signo) __attribute__((optimize("O0"))); // 信号
 
 static string exe_path()
 {
-    char buf[1024];
+    char buf[PATH_MAX];
     char *ret = realpath("/proc/self/exe", buf);
     if (ret != nullptr)
     {
-- 
2.43.0


From 2aa520fbe167d461f6afd41448ba5d96f86c0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:19 +0000
Subject: [PATCH 48/48] fix: the report of a fatal signal did not name the
 program

The check of realpath() was the wrong way round: the path was dropped
when it had been found and an unset buffer was used when it had not.
---
 source/cocpp/exception/co_exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cocpp/exception/co_exception.cpp b/source/cocpp/exception/co_exception.cpp
index 61dcbfa..8acf67a 100644
--- a/source/cocpp/exception/co_exception.cpp
+++ b/source/cocpp/exception/co_exception.cpp
@@ -28,7 +28,7 @@ static string exe_path()
 {
     char buf[PATH_MAX];
     char *ret = realpath("/proc/self/exe", buf);
-    if (ret != nullptr)
+    if (ret == nullptr)
     {
         return "";
     }
-- 
2.43.0

