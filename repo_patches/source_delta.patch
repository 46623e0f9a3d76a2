From 9b26cd5fa5bed8cf143c01486514eb89f1b2e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:29 +0000
Subject: [PATCH 01/17] fix: forget a joined thread that never unregistered
 itself

---
 threadpp/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 96292f3..cd124ab 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -688,6 +688,8 @@ void thread::join()
 {
     notify_for_exit(get_id());
     std::thread::join();
+    // the thread may have finished without unregistering itself
+    unregister_thread_impl(get_id());
 }
 
 void thread::register_this(const std::string& name)
-- 
2.43.0


From c9bc7c1d6530cc5104faee1bda740187c1a9eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:29 +0000
Subject: [PATCH 02/17] fix: restore the processing depth when a task throws

---
 threadpp/thread.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index cd124ab..1a070e8 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -416,13 +416,21 @@ auto process_one(std::unique_lock<std::mutex>& lock) -> bool
         local_context.processing_stack_depth++;
         lock.unlock();
 
-        if(task)
+        try
         {
-            task();
-
-            // invoke the tasks's destructor to allow
-            // invoking from it on an unlocked mutex
-            task = {};
+            if(task)
+            {
+                task();
+
+                // invoke the tasks's destructor to allow
+                // invoking from it on an unlocked mutex
+                task = {};
+            }
+        }
+        catch(...)
+        {
+            local_context.processing_stack_depth--;
+            throw;
         }
 
         lock.lock();
-- 
2.43.0


From 2da11c6302fad40278be82c2a2fae28611007fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:49 +0000
Subject: [PATCH 03/17] fix: keep the outer wait registered when a nested wait
 on the same object ends

---
 threadpp/detail/semaphore.cpp | 21 ++++++++++++++++-----
 threadpp/detail/semaphore.h   |  2 +-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 53a1259..8c6a545 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -77,7 +77,8 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
 
     while(!token.is_interrupted())
     {
@@ -99,7 +100,11 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
         }
     }
 
-    remove_waiter(id);
+    // note: an outer wait of this thread may own the entry
+    if(added)
+    {
+        remove_waiter(id);
+    }
 }
 
 auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
@@ -116,7 +121,8 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
 
     while(!token.is_interrupted())
     {
@@ -148,12 +154,16 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     }
 
     // remove waiter in case of timeout
-    remove_waiter(id);
+    // note: an outer wait of this thread may own the entry
+    if(added)
+    {
+        remove_waiter(id);
+    }
 
     return status;
 }
 
-auto semaphore::add_waiter(thread::id id) const -> interrupt_token
+auto semaphore::add_waiter(thread::id id, bool& added) const -> interrupt_token
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
@@ -172,6 +182,7 @@ auto semaphore::add_waiter(thread::id id) const -> interrupt_token
     info.id = id;
     info.token = interrupt_token{false};
     waiters_.emplace_back(std::move(info));
+    added = true;
     return waiters_.back().token;
 }
 
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index c5e2bac..f9fd74f 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -98,7 +98,7 @@ protected:
                        const callback& before_wait,
                        const callback& after_wait) const -> std::cv_status;
 
-    auto add_waiter(thread::id id) const -> interrupt_token;
+    auto add_waiter(thread::id id, bool& added) const -> interrupt_token;
 
     void remove_waiter(thread::id id) const;
 
-- 
2.43.0


From 3b9088d1cdb377a241a33ed2e450bca9a5b069d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:49 +0000
Subject: [PATCH 04/17] fix: do not miss an unlock that happens before the
 locker is registered as a waiter

---
 threadpp/mutex.hpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/threadpp/mutex.hpp b/threadpp/mutex.hpp
index d796b7a..9a42f04 100644
--- a/threadpp/mutex.hpp
+++ b/threadpp/mutex.hpp
@@ -24,6 +24,9 @@ public:
     void lock()
     {
         auto id = this_thread::get_id();
+        // held from the failed attempt until we are registered as a waiter
+        // so that an unlock in between cannot go unnoticed
+        std::unique_lock<std::mutex> guard(guard_);
         while(flag_.test_and_set())
         {
             // are we already owning it?
@@ -31,7 +34,25 @@ public:
             {
                 throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
             }
-            sync_.wait();
+
+            if(this_thread::notified_for_exit())
+            {
+                // the wait below would not block
+                guard.unlock();
+                std::this_thread::yield();
+                guard.lock();
+                continue;
+            }
+
+            sync_.wait(
+                [&guard]()
+                {
+                    guard.unlock();
+                },
+                [&guard]()
+                {
+                    guard.lock();
+                });
         }
 
         owner_ = id;
@@ -67,8 +88,11 @@ public:
             throw std::system_error(std::make_error_code(std::errc::no_lock_available));
         }
 
-        owner_ = invalid_id();
-        flag_.clear();
+        {
+            std::lock_guard<std::mutex> guard(guard_);
+            owner_ = invalid_id();
+            flag_.clear();
+        }
         sync_.notify_all();
     }
 
@@ -76,6 +100,7 @@ private:
     /// Underlying semaphore that handles notifying.
     detail::semaphore sync_;
 
+    std::mutex guard_;
     std::atomic<thread::id> owner_{invalid_id()};
     std::atomic_flag flag_ = ATOMIC_FLAG_INIT;
 };
-- 
2.43.0


From ffe03d810168c59d7885553f83f75233573b47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:59 +0000
Subject: [PATCH 05/17] fix: abandon the overwritten state when a promise is
 move assigned

---
 threadpp/future.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 15581a3..66aca96 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -182,7 +182,13 @@ class basic_promise
 public:
     basic_promise() = default;
     basic_promise(basic_promise&& rhs) noexcept = default;
-    auto operator=(basic_promise&& rhs) noexcept -> basic_promise& = default;
+    auto operator=(basic_promise&& rhs) noexcept -> basic_promise&
+    {
+        // the destructor abandons the overwritten state
+        basic_promise old(std::move(rhs));
+        std::swap(state_, old.state_);
+        return *this;
+    }
 
     basic_promise(const basic_promise&) = delete;
     auto operator=(const basic_promise&) -> basic_promise& = delete;
-- 
2.43.0


From da1eb83dd740967f03415fa5ad458c38eb18bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:59 +0000
Subject: [PATCH 06/17] fix: void get reports a broken promise when there is no
 result yet

---
 threadpp/detail/future_state.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 7332f04..3280938 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -187,7 +187,14 @@ struct future_state<void> : public basic_state<void>
 
     void get_value_assuming_ready()
     {
+        std::unique_lock<std::mutex> lock(guard);
+
         rethrow_any_exception();
+
+        if(!ready())
+        {
+            throw std::future_error(std::future_errc::broken_promise);
+        }
     }
 };
 template<typename T>
-- 
2.43.0


From 77aa10ce4465f748cd4493b0b501c3e8e8224148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:20 +0000
Subject: [PATCH 07/17] fix: complete the when_any result without holding its
 lock

---
 threadpp/when_all_any.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/threadpp/when_all_any.hpp b/threadpp/when_all_any.hpp
index 9812d79..72c6c46 100644
--- a/threadpp/when_all_any.hpp
+++ b/threadpp/when_all_any.hpp
@@ -67,7 +67,7 @@ void when_any_inner_helper(Context context)
         .then(id,
               [context](ith_future_type f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   if(!context->ready)
                   {
                       context->ready = true;
@@ -76,8 +76,11 @@ void when_any_inner_helper(Context context)
                       if(context->processed == context->total && !context->result_moved)
                       {
                           context->recover_input_futures();
-                          context->p.set_value(std::move(context->result));
                           context->result_moved = true;
+                          // continuations of the result may complete another input
+                          auto result = std::move(context->result);
+                          lock.unlock();
+                          context->p.set_value(std::move(result));
                       }
                   }
               });
@@ -335,7 +338,7 @@ auto when_any(InputIt first, InputIt last)
             id,
             [shared_context, index](auto f)
             {
-                std::lock_guard<std::mutex> lock(shared_context->mutex);
+                std::unique_lock<std::mutex> lock(shared_context->mutex);
                 if(!shared_context->ready)
                 {
                     shared_context->result.index = index;
@@ -344,8 +347,11 @@ auto when_any(InputIt first, InputIt last)
                     if(shared_context->processed == shared_context->total && !shared_context->promise_set)
                     {
                         shared_context->recover_input_futures();
-                        shared_context->p.set_value(std::move(shared_context->result));
                         shared_context->promise_set = true;
+                        // continuations of the result may complete another input
+                        auto result = std::move(shared_context->result);
+                        lock.unlock();
+                        shared_context->p.set_value(std::move(result));
                     }
                 }
             });
-- 
2.43.0


From 756b5be7c8ea5f6fca61e75da4ca74bd21ff7f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:33 +0000
Subject: [PATCH 08/17] fix: scheduling from inside a pool job no longer locks
 up the pool

---
 threadpp/thread_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index ad5dc8d..b5eebf0 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -202,7 +202,8 @@ private:
                 auto& workers = workers_[priority];
                 for(auto& w : workers)
                 {
-                    dispatch(w.get_id(),
+                    // queued even on a worker's own thread, the lock is held here
+                    invoke(w.get_id(),
                            [this, priority]()
                            {
                                check_jobs(priority);
-- 
2.43.0


From d34aa2dc45951d6744f73fe92f4e5faa6cf332fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:33 +0000
Subject: [PATCH 09/17] fix: destroy removed pool jobs without holding the pool
 lock

---
 threadpp/thread_pool.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index b5eebf0..fa3ea2d 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -117,6 +117,9 @@ public:
 
     void clear(job_id id, bool check_callable)
     {
+        // destroyed after the lock is released since that
+        // may run continuations that use the pool
+        job_info removed;
         std::lock_guard<std::mutex> lock(guard_);
         auto it = jobs_.find(id);
         if(it != jobs_.end())
@@ -125,11 +128,13 @@ public:
             {
                 if(it->second.callable)
                 {
+                    removed = std::move(it->second);
                     jobs_.erase(id);
                 }
             }
             else
             {
+                removed = std::move(it->second);
                 jobs_.erase(id);
             }
         }
@@ -137,8 +142,11 @@ public:
 
     void clear_all()
     {
+        // destroyed after the lock is released since that
+        // may run continuations that use the pool
+        std::unordered_map<job_id, job_info> removed;
         std::lock_guard<std::mutex> lock(guard_);
-        jobs_.clear();
+        removed.swap(jobs_);
         job_priority_queues_.clear();
     }
 
-- 
2.43.0


From b04b70914c31725dca55bb55a032622654c8477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:24 +0000
Subject: [PATCH 10/17] fix: leave a wait cleanly when a task run by it throws

The waiting thread stayed registered as a waiter, so a later notification
could be spent on it. A condition variable wait also returned to its caller
without the lock.
---
 threadpp/detail/semaphore.cpp | 36 +++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 8c6a545..e45a027 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -92,7 +92,23 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
             before_wait();
         }
 
-        this_thread::wait();
+        try
+        {
+            this_thread::wait();
+        }
+        catch(...)
+        {
+            // a task run by the wait has thrown
+            if(after_wait)
+            {
+                after_wait();
+            }
+            if(added)
+            {
+                remove_waiter(id);
+            }
+            throw;
+        }
 
         if(after_wait)
         {
@@ -143,7 +159,23 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
             before_wait();
         }
 
-        status = this_thread::wait_for(time_left);
+        try
+        {
+            status = this_thread::wait_for(time_left);
+        }
+        catch(...)
+        {
+            // a task run by the wait has thrown
+            if(after_wait)
+            {
+                after_wait();
+            }
+            if(added)
+            {
+                remove_waiter(id);
+            }
+            throw;
+        }
 
         if(after_wait)
         {
-- 
2.43.0


From 5f566166d1e84df1bca81305d742a5b82f39609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:08 +0000
Subject: [PATCH 11/17] fix: end a thread's registration on the thread itself

The registration of a finished thread was removed after joining it. In
between, a new thread can get the same native id, adopt the old
registration and lose it again, leaving it with a freed context.
---
 threadpp/thread.cpp | 42 ++++++++++++++++++++++++++++++++++++------
 threadpp/thread.h   | 41 ++++++++++++++++++++++++++++++++++++-----
 2 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 1a070e8..b874d37 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -101,10 +101,10 @@ void log_error(const std::string& name)
     }
 }
 
-auto register_thread_impl(std::thread::id native_thread_id, const std::string& name) -> std::shared_ptr<thread_context>
+auto register_thread_locked(std::thread::id native_thread_id, const std::string& name)
+    -> std::shared_ptr<thread_context>
 {
     auto& global_context = get_global_context();
-    std::unique_lock<std::mutex> lock(global_context.mutex);
     auto id = [&]()
     {
         auto tidit = global_context.id_map.find(native_thread_id);
@@ -139,6 +139,13 @@ auto register_thread_impl(std::thread::id native_thread_id, const std::string& n
     return local_context;
 }
 
+auto register_thread_impl(std::thread::id native_thread_id, const std::string& name) -> std::shared_ptr<thread_context>
+{
+    auto& global_context = get_global_context();
+    std::unique_lock<std::mutex> lock(global_context.mutex);
+    return register_thread_locked(native_thread_id, name);
+}
+
 void unregister_thread_impl(thread::id id)
 {
     // unlock of global mutex must happen before
@@ -696,16 +703,39 @@ void thread::join()
 {
     notify_for_exit(get_id());
     std::thread::join();
-    // the thread may have finished without unregistering itself
-    unregister_thread_impl(get_id());
 }
 
-void thread::register_this(const std::string& name)
+void thread::register_this(const std::string& name, const launch_info& info)
 {
-    auto context = register_thread_impl(std::thread::get_id(), name);
+    auto& global_context = get_global_context();
+    std::unique_lock<std::mutex> lock(global_context.mutex);
+    if(info.finished)
+    {
+        // too late, there is no one to register any more
+        id_ = info.finished_id != invalid_id() ? info.finished_id : ++global_context.id_generator;
+        return;
+    }
+    auto context = register_thread_locked(std::thread::get_id(), name);
     id_ = context->id;
 }
 
+void thread::unregister_finished(launch_info& info)
+{
+    auto& global_context = get_global_context();
+    {
+        std::lock_guard<std::mutex> lock(global_context.mutex);
+        info.finished = true;
+        auto it = global_context.id_map.find(std::this_thread::get_id());
+        if(it != global_context.id_map.end())
+        {
+            info.finished_id = it->second;
+        }
+    }
+
+    unregister_thread_impl(info.finished_id);
+    set_local_context(nullptr);
+}
+
 thread::thread() noexcept = default;
 
 void thread::swap(thread& th) noexcept
diff --git a/threadpp/thread.h b/threadpp/thread.h
index 2eceac5..43a6573 100644
--- a/threadpp/thread.h
+++ b/threadpp/thread.h
@@ -1,11 +1,13 @@
 #pragma once
 #include "detail/utility/apply.hpp"
 #include "detail/utility/capture.hpp"
+#include "detail/utility/invoke.hpp"
 
 #include <chrono>
 #include <condition_variable>
 #include <cstdint>
 #include <functional>
+#include <memory>
 #include <string>
 #include <thread>
 #include <vector>
@@ -27,16 +29,15 @@ public:
     auto operator=(thread&& th) noexcept -> thread&;
 
     template<typename F, typename... Args>
-    explicit thread(F&& f, Args&&... args) : std::thread(std::forward<F>(f), std::forward<Args>(args)...)
+    explicit thread(F&& f, Args&&... args)
+        : thread(std::make_shared<launch_info>(), {}, std::forward<F>(f), std::forward<Args>(args)...)
     {
-        register_this({});
     }
 
     template<typename F, typename... Args>
     explicit thread(const std::string& name, F&& f, Args&&... args)
-        : std::thread(std::forward<F>(f), std::forward<Args>(args)...)
+        : thread(std::make_shared<launch_info>(), name, std::forward<F>(f), std::forward<Args>(args)...)
     {
-        register_this(name);
     }
 
     thread(const thread&) = delete;
@@ -58,7 +59,37 @@ public:
     void join();
 
 private:
-    void register_this(const std::string& name);
+    /// shared between the creator and the created thread
+    struct launch_info
+    {
+        bool finished = false;
+        id finished_id = 0;
+    };
+
+    /// what the created thread executes. The registration of
+    /// the thread ends with its function, by then the native
+    /// id cannot belong to another thread yet.
+    struct entry_point
+    {
+        template<typename F, typename... Args>
+        void operator()(F&& f, Args&&... args)
+        {
+            utility::invoke(std::forward<F>(f), std::forward<Args>(args)...);
+            unregister_finished(*info);
+        }
+
+        std::shared_ptr<launch_info> info;
+    };
+
+    template<typename F, typename... Args>
+    thread(std::shared_ptr<launch_info>&& info, const std::string& name, F&& f, Args&&... args)
+        : std::thread(entry_point{info}, std::forward<F>(f), std::forward<Args>(args)...)
+    {
+        register_this(name, *info);
+    }
+
+    void register_this(const std::string& name, const launch_info& info);
+    static void unregister_finished(launch_info& info);
 
     /// associated thread id
     id id_ = 0;
-- 
2.43.0


From 612f6d418a9d02924d365e01fab8f02a65b234da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:55 +0000
Subject: [PATCH 12/17] fix: keep running pool jobs waitable after stop_all

stop_all removed also the jobs that workers had already taken, so
waiting for them afterwards returned before they had finished.
---
 threadpp/thread_pool.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index fa3ea2d..08a5c2a 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -144,9 +144,21 @@ public:
     {
         // destroyed after the lock is released since that
         // may run continuations that use the pool
-        std::unordered_map<job_id, job_info> removed;
+        std::vector<job_info> removed;
         std::lock_guard<std::mutex> lock(guard_);
-        removed.swap(jobs_);
+        for(auto it = jobs_.begin(); it != jobs_.end();)
+        {
+            // the ones already taken by a worker stay waitable
+            if(it->second.callable)
+            {
+                removed.emplace_back(std::move(it->second));
+                it = jobs_.erase(it);
+            }
+            else
+            {
+                ++it;
+            }
+        }
         job_priority_queues_.clear();
     }
 
-- 
2.43.0


From 9720fa0c3140ec9a2c6468328d31308a2d59f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:30 +0000
Subject: [PATCH 13/17] fix: guard the configuration against concurrent
 shutdown

The hooks and log functions given to init were read without a lock.
A shutdown that times out clears them while the remaining threads still
use them. They are now copied under a lock of their own.
---
 threadpp/thread.cpp | 48 +++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index b874d37..cfbe7e0 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -37,6 +37,9 @@ struct program_context
     std::unordered_map<thread::id, std::shared_ptr<thread_context>> contexts;
     thread::id main_thread_id{invalid_id()};
     std::atomic<size_t> init_count{0};
+    // the config is written with both this and the mutex above held,
+    // so either one is enough to read it
+    std::mutex config_mutex;
     init_data config;
 };
 
@@ -65,39 +68,54 @@ auto get_local_context() -> thread_context&
     return *local_data;
 }
 
+template<typename T>
+auto get_config(T init_data::*member) -> T
+{
+    auto& global_context = get_global_context();
+    std::lock_guard<std::mutex> lock(global_context.config_mutex);
+    return global_context.config.*member;
+}
+
+void set_config(init_data data)
+{
+    auto& global_context = get_global_context();
+    std::lock_guard<std::mutex> lock(global_context.config_mutex);
+    std::swap(global_context.config, data);
+}
+
 void name_thread(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.set_thread_name && !name.empty())
+    const auto callback = get_config(&init_data::set_thread_name);
+    if(callback && !name.empty())
     {
-        global_context.config.set_thread_name(name);
+        callback(name);
     }
 }
 
 void on_thread_start(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.on_thread_start && !name.empty())
+    const auto callback = get_config(&init_data::on_thread_start);
+    if(callback && !name.empty())
     {
-        global_context.config.on_thread_start(name);
+        callback(name);
     }
 }
 
 void log_info(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.log_info)
+    const auto callback = get_config(&init_data::log_info);
+    if(callback)
     {
-        global_context.config.log_info(name);
+        callback(name);
     }
 }
 
 void log_error(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.log_error)
+    const auto callback = get_config(&init_data::log_error);
+    if(callback)
     {
-        global_context.config.log_error(name);
+        callback(name);
     }
 }
 
@@ -187,7 +205,7 @@ void init(const init_data& data)
     this_thread::register_this_thread("Main Thread");
     std::unique_lock<std::mutex> lock(global_context.mutex);
     global_context.main_thread_id = this_thread::get_id();
-    global_context.config = data;
+    set_config(data);
     log_info_func("Successful.");
 }
 
@@ -225,13 +243,13 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
     if(result)
     {
         log_info_func("Successful.");
-        global_context.config = {};
+        set_config({});
         return 0;
     }
     else
     {
         log_info_func("Timed out. Not all registered threads exited.");
-        global_context.config = {};
+        set_config({});
         return static_cast<int>(global_context.contexts.size());
     }
 }
-- 
2.43.0


From d0e1f062caca2338e49203f0aa9fd00585cc9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:30 +0000
Subject: [PATCH 14/17] fix: refuse to dispatch to an invalid id from an
 unregistered thread

---
 threadpp/thread.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.h b/threadpp/thread.h
index 43a6573..160f831 100644
--- a/threadpp/thread.h
+++ b/threadpp/thread.h
@@ -334,7 +334,8 @@ auto invoke(thread::id id, F&& f, Args&&... args) -> bool
 template<typename F, typename... Args>
 auto dispatch(thread::id id, F&& f, Args&&... args) -> bool
 {
-    if(this_thread::get_id() == id)
+    // unregistered threads have no id that anyone could mean
+    if(id != invalid_id() && this_thread::get_id() == id)
     {
         // directly call it
         std::forward<F>(f)(std::forward<Args>(args)...);
-- 
2.43.0


From 443a3075664fd209bf29dcfe23a9717eb1394f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:30 +0000
Subject: [PATCH 15/17] fix: make the main thread id safe to read during init

---
 threadpp/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index cfbe7e0..7313e33 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -35,7 +35,7 @@ struct program_context
     std::mutex mutex;
     std::unordered_map<std::thread::id, thread::id> id_map;
     std::unordered_map<thread::id, std::shared_ptr<thread_context>> contexts;
-    thread::id main_thread_id{invalid_id()};
+    std::atomic<thread::id> main_thread_id{invalid_id()};
     std::atomic<size_t> init_count{0};
     // the config is written with both this and the mutex above held,
     // so either one is enough to read it
-- 
2.43.0


From 70231c4957f18f42efd9ed5bfb4b66cbaf2d9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:30 +0000
Subject: [PATCH 16/17] fix: unlink a leaving thread before its pending tasks
 are destroyed

---
 threadpp/thread.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 7313e33..9729f4a 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -623,8 +623,10 @@ void register_this_thread(const std::string& name)
 
 void unregister_this_thread()
 {
-    unregister_thread_impl(get_id());
+    // what is dropped with the context may use the library
+    const auto id = get_id();
     set_local_context(nullptr);
+    unregister_thread_impl(id);
 }
 
 auto notified_for_exit() -> bool
@@ -750,8 +752,8 @@ void thread::unregister_finished(launch_info& info)
         }
     }
 
-    unregister_thread_impl(info.finished_id);
     set_local_context(nullptr);
+    unregister_thread_impl(info.finished_id);
 }
 
 thread::thread() noexcept = default;
-- 
2.43.0


From d12b623fd6415c830bae56780a8015072cbffea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:30 +0000
Subject: [PATCH 17/17] fix: call the log hooks of init and shutdown without
 holding the global lock

---
 threadpp/thread.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 9729f4a..54570d3 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -203,9 +203,12 @@ void init(const init_data& data)
     }
 
     this_thread::register_this_thread("Main Thread");
-    std::unique_lock<std::mutex> lock(global_context.mutex);
-    global_context.main_thread_id = this_thread::get_id();
-    set_config(data);
+    {
+        std::unique_lock<std::mutex> lock(global_context.mutex);
+        global_context.main_thread_id = this_thread::get_id();
+        set_config(data);
+    }
+    // the callback may use the library
     log_info_func("Successful.");
 }
 
@@ -240,15 +243,19 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
 
     auto result = global_context.cleanup_event.wait_for(lock, timeout, predicate);
 
+    // the callbacks may use the library
+    lock.unlock();
     if(result)
     {
         log_info_func("Successful.");
+        lock.lock();
         set_config({});
         return 0;
     }
     else
     {
         log_info_func("Timed out. Not all registered threads exited.");
+        lock.lock();
         set_config({});
         return static_cast<int>(global_context.contexts.size());
     }
-- 
2.43.0

