From febc157a5e171170909ffd725b8e56bd2c24b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:51 +0000
Subject: [PATCH 1/5] fix: do not keep finished task alive in a thread pool
 worker

Worker used to hold the task it has just executed until the next one arrives
and then destroyed it inside of queue.pop() with the queue mutex locked, so a
task which destructor posts to the same pool deadlocked and resources owned by
the last task were held by an idle worker.
---
 portable_concurrency/bits/portable_concurrency.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7d12602..13b086e 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -88,9 +88,15 @@ void process_queue(
   detail::closable_queue<unique_function<void()>> &queue,
   const std::atomic<bool> &stopped
 ) noexcept {
-  unique_function<void()> task;
-  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task))
+  while (!stopped.load(std::memory_order_relaxed)) {
+    // Must not outlive the iteration: finished task would otherwise be kept
+    // until the next one arrives and destroyed inside of the queue.pop() with
+    // the queue mutex locked.
+    unique_function<void()> task;
+    if (!queue.pop(task))
+      return;
     task();
+  }
 }
 
 } // namespace
-- 
2.43.0


From e70039d298137b7ed2c9560b4a987a53da74e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:13 +0000
Subject: [PATCH 2/5] fix: do not touch latch after count_down has released
 waiters

count_down() used to call cv_.notify_all() after unlocking the mutex. A thread
blocked in wait() could observe zero and destroy the latch in between.
---
 .../bits/portable_concurrency.cpp               | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 13b086e..0e8a4f7 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -123,15 +123,14 @@ void latch::count_down_and_wait() {
 }
 
 void latch::count_down(ptrdiff_t n) {
-  {
-    std::lock_guard<std::mutex> lock{mutex_};
-    assert(counter_ >= n);
-    assert(n >= 0);
-    counter_ -= n;
-    if (counter_ > 0)
-      return;
-  }
-  cv_.notify_all();
+  // Notification is sent with the mutex locked: as soon as it is released a
+  // waiting thread may return and destroy the latch.
+  std::lock_guard<std::mutex> lock{mutex_};
+  assert(counter_ >= n);
+  assert(n >= 0);
+  counter_ -= n;
+  if (counter_ == 0)
+    cv_.notify_all();
 }
 
 bool latch::is_ready() const noexcept {
-- 
2.43.0


From faafb143b31e38d889ac961df9a85554bf4b7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:49 +0000
Subject: [PATCH 3/5] fix: return references from big functors stored in
 unique_function

Functors which do not fit into the small buffer were called via lambda
returning by value: unique_function<const T&()> returned dangling reference.
---
 portable_concurrency/bits/unique_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/unique_function.hpp b/portable_concurrency/bits/unique_function.hpp
index 9933172..df98fdd 100644
--- a/portable_concurrency/bits/unique_function.hpp
+++ b/portable_concurrency/bits/unique_function.hpp
@@ -33,7 +33,9 @@ unique_function<R(A...)>::unique_function(F &&f, std::false_type) {
   if (detail::is_null(f))
     return;
   func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
-              A... a) { return detail::invoke(*func, std::forward<A>(a)...); };
+              A... a) -> decltype(auto) {
+    return detail::invoke(*func, std::forward<A>(a)...);
+  };
 }
 
 template <typename R, typename... A>
-- 
2.43.0


From 66a6b19aae6e21a2e3766429d2501593a0247385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:52 +0000
Subject: [PATCH 4/5] fix: break the promise of a scheduled continuation which
 is assigned over

Move assignment of the function object posted to an executor silently forgot
the continuation it held: its future never became ready. The destructor and
packaged_task assignment report broken_promise in the same situation.
---
 portable_concurrency/bits/then.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index bca2740..7ce867d 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -184,6 +184,8 @@ template <typename CntState> struct cnt_action {
   cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}
   cnt_action(cnt_action &&rhs) noexcept : wdata(std::move(rhs.wdata)) {}
   cnt_action &operator=(cnt_action &&rhs) noexcept {
+    if (auto data = wdata.lock())
+      data->abandon();
     wdata = std::move(rhs.wdata);
     return *this;
   }
-- 
2.43.0


From d6595fd3dc2aa8489a8080b9fbb0b20bfbc9b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:20 +0000
Subject: [PATCH 5/5] fix: copy the result a packaged_task's function returns
 by reference

set_state_value moved from the object an lvalue reference refers to, so
packaged_task<T()> with a function returning T& emptied the caller's
object.
---
 portable_concurrency/bits/utils.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 6df231f..c2ae16c 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -17,7 +17,14 @@ void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
     executed = true;
-    shared_state<R>::unwrap(state, std::move(res));
+    // Object returned by lvalue reference is owned by somebody else and must be
+    // copied instead of being moved away.
+    using result_t = decltype(res);
+    using future_t = std::decay_t<result_t>;
+    shared_state<R>::unwrap(
+        state,
+        static_cast<std::conditional_t<is_future<future_t>::value, future_t,
+                                       result_t> &&>(res));
   } catch (...) {
     if (executed)
       throw;
-- 
2.43.0

