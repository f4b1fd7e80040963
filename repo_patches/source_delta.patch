From 24961b159811ced271e4be9d2484c466e83252cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 01/29] fix: blocking_queue::try_pop no longer loses an item
 whose copy throws

The item was removed from the queue before the last copy that may throw was made.
---
 sdk/include/teiacare/sdk/blocking_queue.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/blocking_queue.hpp b/sdk/include/teiacare/sdk/blocking_queue.hpp
index 02f5a89..74d7cbf 100644
--- a/sdk/include/teiacare/sdk/blocking_queue.hpp
+++ b/sdk/include/teiacare/sdk/blocking_queue.hpp
@@ -158,15 +158,17 @@ public:
      */
     std::optional<T> try_pop()
     {
+        std::optional<T> item;
+
         std::unique_lock lock(_mutex);
         if (is_empty())
-            return std::nullopt;
+            return item;
 
-        T item = _queue.front();
+        item.emplace(_queue.front());
         _queue.pop();
         pop_impl(std::move(lock));
 
-        return std::move(std::optional(item));
+        return item;
     }
 
     /*!
-- 
2.43.0


From ba417378703e592a3c16a9303156b303cf2ce8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 02/29] fix: thread_pool::start runs a worker when the number
 of hardware threads is unknown

hardware_concurrency() may return 0: the clamp then had an empty range (undefined behaviour)
and the pool was started without any thread.
---
 sdk/src/thread_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 75eb3bd..8f0860e 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -36,7 +36,8 @@ bool thread_pool::start(const unsigned int num_threads)
 
     _is_running = true;
 
-    const auto thread_count = std::clamp(num_threads, 1u, std::thread::hardware_concurrency());
+    // hardware_concurrency() returns 0 if the value is not computable: in that case a single thread is used.
+    const auto thread_count = std::clamp(num_threads, 1u, std::max(1u, std::thread::hardware_concurrency()));
     _threads.reserve(thread_count);
     is_ready = std::make_shared<std::latch>(thread_count + 1);
 
-- 
2.43.0


From 76bcb95d3aee74eed9c1a35d2e1d0582ab8ebdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 03/29] fix: thread_pool::start leaves the pool stopped when a
 thread cannot be created

The running flag stayed set, stop() then waited forever for workers blocked on the start
latch, and the pool could be neither started nor destroyed.
---
 sdk/src/thread_pool.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 8f0860e..541e663 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -34,16 +34,33 @@ bool thread_pool::start(const unsigned int num_threads)
     if (_is_running)
         return false;
 
-    _is_running = true;
-
     // hardware_concurrency() returns 0 if the value is not computable: in that case a single thread is used.
     const auto thread_count = std::clamp(num_threads, 1u, std::max(1u, std::thread::hardware_concurrency()));
     _threads.reserve(thread_count);
     is_ready = std::make_shared<std::latch>(thread_count + 1);
 
-    for (unsigned int i = 0; i < thread_count; ++i)
+    _is_running = true;
+
+    try
     {
-        _threads.emplace_back([this] { worker(); });
+        for (unsigned int i = 0; i < thread_count; ++i)
+        {
+            _threads.emplace_back([this] { worker(); });
+        }
+    }
+    catch (...)
+    {
+        // A thread could not be created: release and join those already started, so that the pool is left stopped.
+        _is_running = false;
+        is_ready->count_down(thread_count + 1 - static_cast<unsigned int>(_threads.size()));
+
+        for (auto&& t : _threads)
+        {
+            t.join();
+        }
+
+        _threads.clear();
+        throw;
     }
 
     is_ready->arrive_and_wait();
-- 
2.43.0


From cbd1aef9ebbcef664bf11099d3c7603e5d11e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 04/29] fix: event_dispatcher handler ids are per dispatcher

The counter was shared by all the dispatchers without synchronization and reset by the
destructor of any of them: a dispatcher could then give the same id to two of its handlers.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 2 +-
 sdk/src/event_dispatcher.cpp                  | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 808be76..22c5cf0 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -180,7 +180,7 @@ private:
     std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
-    static unsigned long handler_id;
+    unsigned long handler_id = 0;
 
     template <typename... Args>
     constexpr auto get_event_handler_id(std::string&& event_name) const
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index d66f54d..9b9fc28 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -16,8 +16,6 @@
 
 namespace tc::sdk
 {
-unsigned long event_dispatcher::handler_id = 0;
-
 event_dispatcher::event_dispatcher() noexcept
 {
 }
@@ -25,7 +23,6 @@ event_dispatcher::event_dispatcher() noexcept
 event_dispatcher::~event_dispatcher() noexcept
 {
     stop();
-    handler_id = 0;
 }
 
 auto event_dispatcher::remove_handler(unsigned long remove_handler_id) -> bool
-- 
2.43.0


From e0bfe5d3c3de36ebe0d5742095bac127e60de261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 05/29] fix: event_dispatcher tells events apart by exact name
 and argument types

Events were identified by the name followed by the decimal sum of the type hashes: events with
the same argument types in another order, or with a name ending with digits, could be confused
(the handler was then called with arguments of the wrong types), and remove_event also removed
the events whose name has the given name as a prefix.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 22 +++++++++----------
 sdk/src/event_dispatcher.cpp                  |  2 +-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 22c5cf0..94c34fd 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -20,10 +20,13 @@
 #include <teiacare/sdk/thread_pool.hpp>
 
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
-#include <unordered_map>
+#include <tuple>
+#include <typeindex>
+#include <utility>
 #include <vector>
 
 namespace tc::sdk
@@ -177,23 +180,18 @@ public:
     auto stop() -> bool;
 
 private:
-    std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
+    // Event name and types of its arguments.
+    using event_handler_id_t = std::pair<std::string, std::type_index>;
+
+    std::map<event_handler_id_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
     unsigned long handler_id = 0;
 
     template <typename... Args>
-    constexpr auto get_event_handler_id(std::string&& event_name) const
+    auto get_event_handler_id(std::string&& event_name) const -> event_handler_id_t
     {
-        if constexpr (sizeof...(Args) == 0)
-        {
-            return std::move(event_name);
-        }
-        else
-        {
-            auto args_hash = std::to_string((typeid(std::decay_t<Args>).hash_code() + ...));
-            return std::move(event_name + args_hash);
-        }
+        return {std::move(event_name), typeid(std::tuple<std::decay_t<Args>...>)};
     }
 };
 
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index 9b9fc28..9918874 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -47,7 +47,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [&event_name](auto&& handler_iterator) { return handler_iterator.first.first == event_name; }))
         return true;
 
     return false;
-- 
2.43.0


From ed6fafddb34b2bc5adc07824bcc8705c9e7b1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 06/29] fix: task_scheduler::start leaves the scheduler stopped
 when its thread cannot be created

The pool was left running: a later start() returned false, tasks were
accepted and never scheduled.
---
 sdk/src/task_scheduler.cpp | 58 ++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1331465..4db4c17 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -35,34 +35,42 @@ bool task_scheduler::start(const unsigned int num_threads)
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
-    _scheduler_thread = std::thread([this, &thread_started_notifier] {
-        thread_started_notifier.set_value();
-
-        while (_tp.is_running())
-        {
-            std::unique_lock lock(_update_tasks_mtx);
+    try
+    {
+        _scheduler_thread = std::thread([this, &thread_started_notifier] {
+            thread_started_notifier.set_value();
 
-            if (_tasks.empty())
+            while (_tp.is_running())
             {
-                _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                std::unique_lock lock(_update_tasks_mtx);
+
+                if (_tasks.empty())
+                {
+                    _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                }
+                else
+                {
+                    // If the last enqueued task is the first to be scheduled _next_task_timepoint must be updated to its timepoint.
+                    // Check if the condition variable _update_tasks_cv is triggered because of a timeout (i.e. _next_task_timepoint has just been reached),
+                    // or because of a new notification (i.e. a new task has been enqueued and the condition variable is notified):
+                    // in case of a timeout proceed with update_tasks(), otherwise continue.
+                    _next_task_timepoint = _tasks.begin()->first;
+                    if (_update_tasks_cv.wait_until(lock, _next_task_timepoint.load()) == std::cv_status::no_timeout)
+                        continue;
+                }
+
+                if (!_tp.is_running())
+                    return;
+
+                update_tasks();
             }
-            else
-            {
-                // If the last enqueued task is the first to be scheduled _next_task_timepoint must be updated to its timepoint.
-                // Check if the condition variable _update_tasks_cv is triggered because of a timeout (i.e. _next_task_timepoint has just been reached),
-                // or because of a new notification (i.e. a new task has been enqueued and the condition variable is notified):
-                // in case of a timeout proceed with update_tasks(), otherwise continue.
-                _next_task_timepoint = _tasks.begin()->first;
-                if (_update_tasks_cv.wait_until(lock, _next_task_timepoint.load()) == std::cv_status::no_timeout)
-                    continue;
-            }
-
-            if (!_tp.is_running())
-                return;
-
-            update_tasks();
-        }
-    });
+        });
+    }
+    catch (...)
+    {
+        _tp.stop();
+        throw;
+    }
 
     thread_started_watcher.wait();
 
-- 
2.43.0


From 1c6ad12d4937b5fbead7af908d333e955808e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 07/29] fix: task_scheduler::stop cannot hang and leaves no
 task behind

stop() changed the state read by the scheduler thread without holding its
mutex, so the notification could be lost and stop() wait forever in join().
A task could be accepted after its queue had been cleared, and the scheduler
thread could hand a due task to the pool after the pool had been stopped:
neither was executed or discarded, and they ran after a restart.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp |  1 +
 sdk/src/task_scheduler.cpp                  | 31 ++++++++++++---------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index f067f12..e3aa881 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -429,6 +429,7 @@ private:
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
     std::mutex _update_tasks_mtx;
+    bool _is_running = false;
     std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
 
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 4db4c17..a765252 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -37,16 +37,16 @@ bool task_scheduler::start(const unsigned int num_threads)
 
     try
     {
+        std::scoped_lock start_lock(_update_tasks_mtx);
         _scheduler_thread = std::thread([this, &thread_started_notifier] {
             thread_started_notifier.set_value();
 
-            while (_tp.is_running())
+            std::unique_lock lock(_update_tasks_mtx);
+            while (_is_running)
             {
-                std::unique_lock lock(_update_tasks_mtx);
-
                 if (_tasks.empty())
                 {
-                    _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                    _update_tasks_cv.wait(lock, [this] { return !_is_running || !_tasks.empty(); });
                 }
                 else
                 {
@@ -59,12 +59,13 @@ bool task_scheduler::start(const unsigned int num_threads)
                         continue;
                 }
 
-                if (!_tp.is_running())
+                if (!_is_running)
                     return;
 
                 update_tasks();
             }
         });
+        _is_running = true;
     }
     catch (...)
     {
@@ -79,19 +80,23 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
-    if (!_tp.stop())
-        return false;
-
-    _update_tasks_cv.notify_all();
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
+        if (!_is_running)
+            return false;
+
+        _is_running = false;
         _tasks.clear();
     }
 
+    _update_tasks_cv.notify_all();
+
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
+    // The scheduler thread is gone: no task can be enqueued in the pool after it has been stopped.
+    _tp.stop();
+
     return true;
 }
 
@@ -177,12 +182,12 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
-    if (!_tp.is_running())
-        return false;
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
+        if (!_is_running)
+            return false;
+
         if (already_exists(st.hash()))
             return false;
 
-- 
2.43.0


From 4846c0859bc49c70fa225f0b2180b627a24cf0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 08/29] fix: task_scheduler::update_interval does not start a
 task before its delay

The next start was computed from a previous start even when there had been
none yet: a task added with a delay longer than its interval was started
early, by up to one interval, when its interval was updated.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 11 +++++++++++
 sdk/src/task_scheduler.cpp                  | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index e3aa881..31f612b 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -87,6 +87,7 @@ private:
             , _is_enabled{std::move(other._is_enabled)}
             , _interval{std::move(other._interval)}
             , _hash{std::move(other._hash)}
+            , _is_started{other._is_started}
         {
         }
 
@@ -123,11 +124,21 @@ private:
             return _hash;
         }
 
+        void set_started()
+        {
+            _is_started = true;
+        }
+        bool is_started() const
+        {
+            return _is_started;
+        }
+
     private:
         std::shared_ptr<tc::sdk::task> _task;
         bool _is_enabled;
         std::optional<tc::sdk::clock::duration> _interval;
         std::optional<size_t> _hash;
+        bool _is_started = false;
 
         schedulable_task(schedulable_task* st)
             : _task{st->_task}
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index a765252..2c60348 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -161,12 +161,17 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
     std::unique_lock lock(_update_tasks_mtx);
     if (auto task_iterator = get_task_iterator(task_id); task_iterator != _tasks.end() && task_iterator->second.interval().has_value())
     {
-        const auto task_interval = task_iterator->second.interval().value();
-        auto task_next_start_time = task_iterator->first - task_interval;
+        auto task_next_start_time = task_iterator->first;
 
-        const auto now = tc::sdk::clock::now();
-        while (now > task_next_start_time)
-            task_next_start_time += interval;
+        // A task that is still waiting for its first start keeps it, otherwise restart from the previous start time.
+        if (task_iterator->second.is_started())
+        {
+            task_next_start_time -= task_iterator->second.interval().value();
+
+            const auto now = tc::sdk::clock::now();
+            while (now > task_next_start_time)
+                task_next_start_time += interval;
+        }
 
         task_iterator->second.set_interval(interval);
         _tasks.emplace(std::move(task_next_start_time), std::move(task_iterator->second));
@@ -226,6 +231,7 @@ void task_scheduler::update_tasks()
             while (now > task_next_start_time)
                 task_next_start_time += task_interval;
 
+            it->second.set_started();
             recursive_tasks.emplace(std::move(task_next_start_time), std::move(it->second));
         }
     }
-- 
2.43.0


From fd49be1a5d8a89d45990a9952ef129715922a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 09/29] fix: high_precision_timer never counts a callback as
 missed that was not

The counter was incremented once too often and corrected afterwards, so that
another thread could see a missed callback that did not exist. When the clock
had not advanced since the due time, the correction underflowed the counter
and the same due time was served twice.
---
 sdk/src/high_precision_timer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 0a5e517..136fe60 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -98,15 +98,15 @@ void high_precision_timer::worker()
 
 void high_precision_timer::update_next_start_time()
 {
-    auto task_next_start_time = _next_task_timepoint;
+    auto task_next_start_time = _next_task_timepoint + _interval;
     const auto now = clock::now();
+    uint64_t missed_callback_count = 0;
     while (now > task_next_start_time)
     {
         task_next_start_time += _interval;
-        ++_missed_callback_count;
+        ++missed_callback_count;
     }
-    // Adjust _missed_callback_count removing the last execution from the counter.
-    --_missed_callback_count;
+    _missed_callback_count += missed_callback_count;
     _next_task_timepoint = task_next_start_time;
 }
 
-- 
2.43.0


From fb3154b7859fe210284c0a98a08873580cf6debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 10/29] fix: high_precision_timer::set_callback can be called
 while the timer is running

The callback was destroyed under the worker thread that was invoking it.
---
 sdk/include/teiacare/sdk/high_precision_timer.hpp |  9 +++++++--
 sdk/src/high_precision_timer.cpp                  | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/high_precision_timer.hpp b/sdk/include/teiacare/sdk/high_precision_timer.hpp
index e7c5fb4..79cadb9 100644
--- a/sdk/include/teiacare/sdk/high_precision_timer.hpp
+++ b/sdk/include/teiacare/sdk/high_precision_timer.hpp
@@ -84,7 +84,10 @@ public:
             return std::apply(t, params);
         };
 
-        _task = std::make_unique<tc::sdk::task>(std::move(task_func));
+        // The replaced task is released outside the lock, once it is not being invoked.
+        auto task = std::make_shared<tc::sdk::task>(std::move(task_func));
+        std::scoped_lock lock(_task_mutex);
+        _task.swap(task);
     }
 
     /*!
@@ -106,11 +109,13 @@ public:
 protected:
     void worker();
     void update_next_start_time();
+    std::shared_ptr<tc::sdk::task> get_task();
 
 private:
     bool _is_running;
     clock::duration _interval;
-    std::unique_ptr<tc::sdk::task> _task;
+    std::shared_ptr<tc::sdk::task> _task;
+    std::mutex _task_mutex;
     clock::time_point _next_task_timepoint;
     std::thread _worker_thread;
     std::condition_variable _worker_cv;
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 136fe60..ba870da 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -32,7 +32,7 @@ high_precision_timer::~high_precision_timer()
 
 bool high_precision_timer::start(clock::duration&& interval)
 {
-    if (!_task)
+    if (!get_task())
         return false;
 
     stop();
@@ -90,12 +90,18 @@ void high_precision_timer::worker()
         if (_worker_cv.wait_until(lock, _next_task_timepoint, [this] { return !_is_running; }))
             break;
 
-        _task->invoke();
+        get_task()->invoke();
         ++_invoked_callback_count;
         update_next_start_time();
     }
 }
 
+std::shared_ptr<tc::sdk::task> high_precision_timer::get_task()
+{
+    std::scoped_lock lock(_task_mutex);
+    return _task;
+}
+
 void high_precision_timer::update_next_start_time()
 {
     auto task_next_start_time = _next_task_timepoint + _interval;
-- 
2.43.0


From bdb4f5b63a9756cfaffe35b56d668799eb1b2733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 11/29] fix: service_locator::get returns the interface of a
 service that is not its first base class

---
 sdk/include/teiacare/sdk/service_locator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index e0ea68a..564b4eb 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -62,7 +62,8 @@ public:
         static_assert(std::is_base_of_v<ServiceInterfaceT, ServiceT>,
                       "\nServiceT must inherit from ServiceInterfaceT");
 
-        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::make_shared<ServiceT>(std::forward<Args>(args)...));
+        std::shared_ptr<ServiceInterfaceT> service = std::make_shared<ServiceT>(std::forward<Args>(args)...);
+        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::move(service));
         return is_inserted;
     }
 
-- 
2.43.0


From 93273d0a85e167c1511e62728be4ff49171be675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 12/29] fix: uuid_generator::create never yields the same uuid
 to two threads or through a copy

---
 sdk/include/teiacare/sdk/uuid_generator.hpp | 20 +++++++++++++++++++-
 sdk/src/uuid_generator.cpp                  |  7 +++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/uuid_generator.hpp b/sdk/include/teiacare/sdk/uuid_generator.hpp
index 9354af1..2aca54e 100644
--- a/sdk/include/teiacare/sdk/uuid_generator.hpp
+++ b/sdk/include/teiacare/sdk/uuid_generator.hpp
@@ -16,6 +16,7 @@
 
 #include <teiacare/sdk/uuid.hpp>
 
+#include <mutex>
 #include <random>
 
 namespace tc::sdk
@@ -36,7 +37,23 @@ public:
     static uuid_generator& instance();
 
     /*!
-     * \brief Create a random uuid V4.
+     * \brief Copy constructor. The copy creates uuids of its own: it does not repeat those of the other generator.
+     */
+    uuid_generator(const uuid_generator&) noexcept
+        : uuid_generator()
+    {
+    }
+
+    /*!
+     * \brief Copy assignment operator. Each generator goes on to create uuids of its own.
+     */
+    uuid_generator& operator=(const uuid_generator&) noexcept
+    {
+        return *this;
+    }
+
+    /*!
+     * \brief Create a random uuid V4. Thread safe.
      */
     [[nodiscard]] tc::sdk::uuid create();
 
@@ -60,6 +77,7 @@ private:
     [[nodiscard]] inline bool is_hex(const char c) const noexcept;
     [[nodiscard]] inline uint8_t hex_to_uint8(const char c) const noexcept;
 
+    std::mutex _mutex;
     std::mt19937 _generator;
     std::uniform_int_distribution<uint32_t> _distribution;
 };
diff --git a/sdk/src/uuid_generator.cpp b/sdk/src/uuid_generator.cpp
index 186114e..23cf632 100644
--- a/sdk/src/uuid_generator.cpp
+++ b/sdk/src/uuid_generator.cpp
@@ -30,8 +30,11 @@ uuid_generator& uuid_generator::instance()
 {
     alignas(uint32_t) std::array<uint8_t, 16> bytes;
 
-    for (int i = 0; i < 16; i += 4)
-        *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(_generator);
+    {
+        std::scoped_lock lock(_mutex);
+        for (int i = 0; i < 16; i += 4)
+            *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(_generator);
+    }
 
     // variant must be 10xxxxxx
     bytes[8] &= 0xBF;
-- 
2.43.0


From 31af27191023300dcfb4474ae3524886561defca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 13/29] fix: timedelta::to_string does not return a truncated
 text when memory runs out

---
 sdk/src/datetime/timedelta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/src/datetime/timedelta.cpp b/sdk/src/datetime/timedelta.cpp
index 913a611..9c48210 100644
--- a/sdk/src/datetime/timedelta.cpp
+++ b/sdk/src/datetime/timedelta.cpp
@@ -29,6 +29,7 @@ std::string timedelta::to_string() const noexcept(false)
     constexpr const char zero = '0';
     const auto hms = std::chrono::hh_mm_ss(std::chrono::duration_cast<DurationT>(_duration));
     std::stringstream os{};
+    os.exceptions(std::ios::badbit);
 
     if (hms.is_negative())
         os << '-';
-- 
2.43.0


From aa663d434eab65890aff2a0cd5d405a44c5fb2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 14/29] fix: argument_parser reports a malformed environment
 variable instead of terminating

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 75b0c8d..c597469 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -84,7 +84,7 @@ public:
      * This function checks if the specified environment variable exists and,
      * if so, parses its value using the parse method.
      */
-    void parse_from_env() noexcept
+    void parse_from_env()
     {
         if (_env.empty())
             return;
-- 
2.43.0


From 6b0d1eb259d7aac493b7c6aed8b6f3bcf0894ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 15/29] fix: an argument parser used again reports arguments
 missing from the new command line

The mark that an argument was parsed was never taken back: once a parser had
seen its positional and required arguments, also in a command line that was
refused, a later command line without them was accepted.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 8 ++++++++
 sdk/src/argparse/argument_parser.cpp                | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index c597469..66815a3 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -102,6 +102,14 @@ public:
         }
     }
 
+    /*!
+     * \brief Forget that the argument has been parsed, before another command line is parsed.
+     */
+    constexpr void reset_parsed() noexcept
+    {
+        _parsed = false;
+    }
+
     /*!
      * \brief Checks if the argument has been parsed.
      * \return True if the argument has been parsed, false otherwise.
diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 1217e3b..aff79b4 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -48,8 +48,15 @@ parse_result argument_parser::parse(int argc, char* argv[]) const
 
 parse_result argument_parser::parse(std::vector<std::string>&& args) const
 {
+    // A previous call counts neither for the required options nor for the positional arguments.
+    for (const auto& pos : _positionals)
+    {
+        pos->reset_parsed();
+    }
+
     for (const auto& opt : _optionals)
     {
+        opt->reset_parsed();
         opt->parse_from_env();
     }
 
-- 
2.43.0


From 9c44cf7881ed1c9eec9ffe9e2f779e84ad16f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 16/29] fix: a list argument is not cut short when memory runs
 out

std::getline() catches the exception of a failed allocation and only sets
badbit, which ended the loop as if the list were complete: parse() reported
success with the remaining items missing.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 66815a3..497b7d5 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -236,6 +236,7 @@ protected:
         using VectorT = typename T::value_type;
         std::vector<VectorT> values;
         std::istringstream iss(str);
+        iss.exceptions(std::ios::badbit); // Otherwise std::getline() hides a failed allocation and the list is cut short.
         std::string list_item;
 
         while (std::getline(iss, list_item, ','))
-- 
2.43.0


From b63ba77922e6390956e046cb22e6fd00874a7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:48 +0000
Subject: [PATCH 17/29] fix: the cadence of rate_limiter drifted by accumulated
 rounding errors

sync() added 1/rate to a time point in seconds since the epoch of the clock, in
double precision: each addition was rounded to the resolution of a double at the
current value of the clock. On a system that is up for long all roundings go the
same way and the k-th call returned early or late by an amount proportional to k.
---
 sdk/include/teiacare/sdk/rate_limiter.hpp | 5 +++--
 sdk/src/rate_limiter.cpp                  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/rate_limiter.hpp b/sdk/include/teiacare/sdk/rate_limiter.hpp
index 4d1e690..f231564 100644
--- a/sdk/include/teiacare/sdk/rate_limiter.hpp
+++ b/sdk/include/teiacare/sdk/rate_limiter.hpp
@@ -19,7 +19,7 @@
 #include <teiacare/sdk/non_moveable.hpp>
 
 #include <chrono>
-#include <type_traits>
+#include <cstddef>
 
 namespace tc::sdk
 {
@@ -55,6 +55,7 @@ public:
 private:
     using duration_rep = double;
     const std::chrono::duration<duration_rep> time_between_frames; // 1/rate
-    std::chrono::time_point<tc::sdk::clock, std::remove_const_t<decltype(time_between_frames)>> tp;
+    const tc::sdk::clock::time_point start;
+    size_t frames = 0;
 };
 }
diff --git a/sdk/src/rate_limiter.cpp b/sdk/src/rate_limiter.cpp
index 2970e62..3087097 100644
--- a/sdk/src/rate_limiter.cpp
+++ b/sdk/src/rate_limiter.cpp
@@ -20,13 +20,14 @@ namespace tc::sdk
 {
 rate_limiter::rate_limiter(size_t rate)
     : time_between_frames{std::chrono::seconds(1) / static_cast<duration_rep>(rate)}
-    , tp{tc::sdk::clock::now()}
+    , start{tc::sdk::clock::now()}
 {
 }
 
 void rate_limiter::sync()
 {
-    tp += time_between_frames;
+    // Each time is computed from the start: repeated additions accumulate rounding errors, which grow with the value of the clock.
+    const auto tp = start + std::chrono::duration_cast<tc::sdk::clock::duration>(++frames * time_between_frames);
     std::this_thread::sleep_until(tp);
 }
 
-- 
2.43.0


From 266e5b434dbdb2b07d9c580e21f44c8e2e235d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 18/29] fix: a task made from a named constant callable keeps
 its own copy of it

---
 sdk/include/teiacare/sdk/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/task.hpp b/sdk/include/teiacare/sdk/task.hpp
index ec67bc8..54afb36 100644
--- a/sdk/include/teiacare/sdk/task.hpp
+++ b/sdk/include/teiacare/sdk/task.hpp
@@ -41,7 +41,7 @@ public:
      */
     template <typename CallableType>
     explicit task(CallableType&& callable)
-        : _callable(std::make_unique<task_impl<CallableType>>(std::move(callable)))
+        : _callable(std::make_unique<task_impl<std::decay_t<CallableType>>>(std::forward<CallableType>(callable)))
     {
     }
 
-- 
2.43.0


From e41f9c9eb6e84fcc21489910c010c40fd7526c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 19/29] fix: a const char* argument value stays valid after
 parsing

---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 497b7d5..4bf1679 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <list>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -180,7 +181,7 @@ protected:
     typename std::enable_if_t<std::is_same_v<T, const char*>, T>
     convert(const std::string& str) const
     {
-        return str.c_str();
+        return _texts.emplace_back(str).c_str(); // str may not outlive this call.
     }
 
     // Specialization for int
@@ -292,6 +293,7 @@ private:
     const std::string _name_short;
     const std::string _description;
     const std::string _env;
+    mutable std::list<std::string> _texts;
 };
 
 }
-- 
2.43.0


From 288fbdf28b2500fc10c99f90283f3194250544e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 20/29] fix: threads_count() can be called while the pool is
 started or stopped

---
 sdk/include/teiacare/sdk/thread_pool.hpp | 1 +
 sdk/src/thread_pool.cpp                  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/thread_pool.hpp b/sdk/include/teiacare/sdk/thread_pool.hpp
index dda217e..60fee96 100644
--- a/sdk/include/teiacare/sdk/thread_pool.hpp
+++ b/sdk/include/teiacare/sdk/thread_pool.hpp
@@ -117,6 +117,7 @@ private:
     std::atomic_bool _is_running;
     std::mutex _is_running_mutex;
     std::vector<std::thread> _threads;
+    std::atomic_size_t _threads_count = 0;
     std::queue<tc::sdk::task> _task_queue;
     std::condition_variable _task_cv;
     std::mutex _task_mutex;
diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 541e663..cecaf1b 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -63,6 +63,7 @@ bool thread_pool::start(const unsigned int num_threads)
         throw;
     }
 
+    _threads_count = _threads.size();
     is_ready->arrive_and_wait();
     return true;
 }
@@ -89,13 +90,14 @@ bool thread_pool::stop()
     }
 
     _threads.clear();
+    _threads_count = 0;
 
     return true;
 }
 
 size_t thread_pool::threads_count() const
 {
-    return _threads.size();
+    return _threads_count;
 }
 
 bool thread_pool::is_running() const
-- 
2.43.0


From a69e6cd40cae0b95c9e641ea8f6872ea1c99073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 21/29] fix: stop() of a thread pool does not need memory

---
 sdk/src/thread_pool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index cecaf1b..381968a 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -78,7 +78,9 @@ bool thread_pool::stop()
 
     {
         std::scoped_lock lock(_task_mutex);
-        _task_queue = {};
+        // An empty std::queue may need memory: stop() must not fail.
+        while (!_task_queue.empty())
+            _task_queue.pop();
     }
 
     _task_cv.notify_all();
-- 
2.43.0


From 06bcd8c68075be9e9903c2bfc511d99cd6b34c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 22/29] fix: a handler that could not be added leaves no empty
 event behind

---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 94c34fd..e3ee6d8 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -116,7 +116,12 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler)));
+        std::shared_ptr<base_handler_t> handler = std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler));
+        if (const auto it = _handlers.find(event_handler_id); it != _handlers.end())
+            it->second.emplace_back(std::move(handler));
+        else
+            _handlers.emplace(event_handler_id, std::vector{std::move(handler)});
+
         return handler_id;
     }
 
-- 
2.43.0


From 5c7366421560ed3996218373f47b5fca63364f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 23/29] fix: a task scheduler that could not be started leaves
 no pool running

---
 sdk/src/task_scheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 2c60348..66f57e7 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -29,12 +29,12 @@ task_scheduler::~task_scheduler()
 
 bool task_scheduler::start(const unsigned int num_threads)
 {
-    if (!_tp.start(num_threads))
-        return false;
-
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
+    if (!_tp.start(num_threads))
+        return false;
+
     try
     {
         std::scoped_lock start_lock(_update_tasks_mtx);
-- 
2.43.0


From 4fba3832af91975e4f57073e946c4c431da7abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 24/29] fix: update_interval() changes nothing when memory runs
 out

---
 sdk/src/task_scheduler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 66f57e7..3313e01 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -174,8 +174,9 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
         }
 
         task_iterator->second.set_interval(interval);
-        _tasks.emplace(std::move(task_next_start_time), std::move(task_iterator->second));
-        _tasks.erase(task_iterator);
+        auto task_node = _tasks.extract(task_iterator);
+        task_node.key() = task_next_start_time;
+        _tasks.insert(std::move(task_node));
         lock.unlock();
 
         _update_tasks_cv.notify_one();
-- 
2.43.0


From 7a46f382d412c0798f98dba37c1733683cdd209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 25/29] fix: streaming a uuid lets the stream's exception
 through

---
 sdk/include/teiacare/sdk/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/uuid.hpp b/sdk/include/teiacare/sdk/uuid.hpp
index 7e8da45..01ac4d2 100644
--- a/sdk/include/teiacare/sdk/uuid.hpp
+++ b/sdk/include/teiacare/sdk/uuid.hpp
@@ -134,7 +134,7 @@ public:
      * \param u the uuid object to stream.
      * \return reference to the output stream operator, with the uuid string representation written into it.
      */
-    friend std::ostream& operator<<(std::ostream& stream, const uuid& u) noexcept
+    friend std::ostream& operator<<(std::ostream& stream, const uuid& u)
     {
         return stream << u.to_string();
     }
-- 
2.43.0


From e97b20a03e7c61593ddf7ade6aefbcdb39909656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 26/29] fix: print_help() leaves the format of std::cout as it
 was

---
 sdk/src/argparse/argument_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index aff79b4..44bbd41 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -195,6 +195,7 @@ void argument_parser::print_arguments() const
     constexpr const char* pad = "    ";
     constexpr int item_width = 30;
 
+    const auto flags = std::cout.flags();
     std::cout << std::left;
     std::cout << "\nOptions: \n";
 
@@ -247,6 +248,7 @@ void argument_parser::print_arguments() const
     }
 
     std::cout << std::endl;
+    std::cout.flags(flags);
 }
 
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
-- 
2.43.0


From 7583813d4075370decce3fc919ec21216539a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:16 +0000
Subject: [PATCH 27/29] fix: update_interval() at the instant of a start does
 not start the task again

---
 sdk/src/task_scheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 3313e01..90b2813 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -163,10 +163,10 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
     {
         auto task_next_start_time = task_iterator->first;
 
-        // A task that is still waiting for its first start keeps it, otherwise restart from the previous start time.
+        // A task that is still waiting for its first start keeps it, otherwise the new interval applies from the previous start time.
         if (task_iterator->second.is_started())
         {
-            task_next_start_time -= task_iterator->second.interval().value();
+            task_next_start_time += interval - task_iterator->second.interval().value();
 
             const auto now = tc::sdk::clock::now();
             while (now > task_next_start_time)
-- 
2.43.0


From 2674414ff84e5dbf6448539dbb24f8299ae610ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:47 +0000
Subject: [PATCH 28/29] fix: an emit() made during stop() leaves no delivery
 for the next start of an event_dispatcher

emit() looked its handlers up under the lock, but put the deliveries into the
queue after releasing it: a stop() that came in between emptied the queue first,
and the handlers of the stopped round were invoked after the next start.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index e3ee6d8..343d2a9 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -142,8 +142,9 @@ public:
         if (!_handlers.contains(event_handler_id))
             return false;
 
+        // The lock is held until the event is enqueued for each handler: a concurrent stop() comes either before or after the
+        // whole emit, so that none of its deliveries can be left for the next start.
         std::vector<std::shared_ptr<base_handler_t>> event_handlers = _handlers.at(event_handler_id);
-        handlers_lock.unlock();
 
         for (auto&& h : event_handlers)
         {
-- 
2.43.0


From cc3c99e21c204841c56a645e1351caa7aaad5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:17 +0000
Subject: [PATCH 29/29] fix: task_scheduler tells tasks apart by their ids
 instead of the hashes of the ids

Two ids with the same hash were taken for one: the second task was refused, and
queries, updates and removals by one id reached the task of the other.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 27 ++++++++++-----------
 sdk/src/task_scheduler.cpp                  | 18 +++++++-------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index 31f612b..9c28afa 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -54,10 +54,10 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash)
+        explicit schedulable_task(FunctionType&& f, std::string id)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
-            , _hash{hash}
+            , _id{std::move(id)}
         {
         }
 
@@ -70,11 +70,11 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash, tc::sdk::clock::duration interval)
+        explicit schedulable_task(FunctionType&& f, std::string id, tc::sdk::clock::duration interval)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
             , _interval{interval}
-            , _hash{hash}
+            , _id{std::move(id)}
         {
         }
 
@@ -86,7 +86,7 @@ private:
             : _task{std::move(other._task)}
             , _is_enabled{std::move(other._is_enabled)}
             , _interval{std::move(other._interval)}
-            , _hash{std::move(other._hash)}
+            , _id{std::move(other._id)}
             , _is_started{other._is_started}
         {
         }
@@ -119,9 +119,9 @@ private:
             return _interval;
         }
 
-        std::optional<size_t> hash() const
+        const std::optional<std::string>& id() const
         {
-            return _hash;
+            return _id;
         }
 
         void set_started()
@@ -137,14 +137,14 @@ private:
         std::shared_ptr<tc::sdk::task> _task;
         bool _is_enabled;
         std::optional<tc::sdk::clock::duration> _interval;
-        std::optional<size_t> _hash;
+        std::optional<std::string> _id;
         bool _is_started = false;
 
         schedulable_task(schedulable_task* st)
             : _task{st->_task}
             , _is_enabled{st->_is_enabled}
             , _interval{st->_interval}
-            , _hash{st->_hash}
+            , _id{st->_id}
         {
         }
     };
@@ -323,7 +323,7 @@ public:
         auto task_wrapper = std::packaged_task<ReturnType()>(task);
         std::future<ReturnType> future = task_wrapper.get_future();
 
-        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), _hasher(task_id))))
+        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), task_id)))
             return std::nullopt;
 
         return future;
@@ -416,7 +416,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), task_id, interval));
     }
 
     /*!
@@ -431,7 +431,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), task_id, interval));
     }
 
 private:
@@ -441,13 +441,12 @@ private:
     std::condition_variable _update_tasks_cv;
     std::mutex _update_tasks_mtx;
     bool _is_running = false;
-    std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
 
     bool add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st);
     void update_tasks();
     auto get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator;
-    bool already_exists(const std::optional<size_t>& opt_hash);
+    bool already_exists(const std::optional<std::string>& opt_id);
 };
 
 }
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 90b2813..99eda58 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -194,7 +194,7 @@ bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulabl
         if (!_is_running)
             return false;
 
-        if (already_exists(st.hash()))
+        if (already_exists(st.id()))
             return false;
 
         _tasks.emplace(std::move(timepoint), std::move(st));
@@ -246,24 +246,24 @@ void task_scheduler::update_tasks()
 
 auto task_scheduler::get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator
 {
-    return std::find_if(_tasks.begin(), _tasks.end(), [hash = _hasher(task_id)](auto&& it) {
-        if (it.second.hash().has_value())
+    return std::find_if(_tasks.begin(), _tasks.end(), [&task_id](auto&& it) {
+        if (it.second.id().has_value())
         {
-            return hash == it.second.hash().value();
+            return task_id == it.second.id().value();
         }
         return false;
     });
 }
 
-bool task_scheduler::already_exists(const std::optional<size_t>& opt_hash)
+bool task_scheduler::already_exists(const std::optional<std::string>& opt_id)
 {
-    if (!opt_hash.has_value())
+    if (!opt_id.has_value())
         return false;
 
-    return std::any_of(_tasks.begin(), _tasks.end(), [hash = opt_hash.value()](auto&& it) {
-        if (it.second.hash().has_value())
+    return std::any_of(_tasks.begin(), _tasks.end(), [&id = opt_id.value()](auto&& it) {
+        if (it.second.id().has_value())
         {
-            return hash == it.second.hash().value();
+            return id == it.second.id().value();
         }
         return false;
     });
-- 
2.43.0

