// Thread-modular contract of a pool worker (static_thread_pool::attach and its task loop): any number of other workers, any
// number of tasks.  closable_queue::pop is replaced by its contract (proved in queue_modular.cpp): it blocks, then hands out
// a task nobody else gets, or reports 'closed' for good.
//
// Monitor (mutex_, cv_) protects attached_threads_.  Others: R workers in their task loops, W parked at the exit, S woken there, A workers
// that still owe their exit notification.  Invariant: attached_threads_ == workers in their loops;
//   parked > 0 => somebody is still in its loop, or has been woken (and will pass it on), or owes a notification.
#include "kit.h"
using Fun = pc::unique_function<void()>;
using Q = pc::detail::closable_queue<Fun>;

static_assert(std::is_same<decltype(pc::static_thread_pool::mutex_), std::mutex>::value && std::is_same<decltype(pc::static_thread_pool::cv_), std::condition_variable>::value,
              "the monitor contract speaks about std::mutex and std::condition_variable");

namespace vc {
inline pc::static_thread_pool *pool = nullptr;
inline unsigned R = 0, W = 0, S = 0, A = 0;
inline bool counted = false, locked = false, owed = false;
inline bool in_loop_seen = false, left = false;
inline bool stopped = false, closed = false, ran_after_stop = false;
inline bool have_task = false; // a task was handed out and not yet destroyed
inline bool must_run = false;  // ... and not yet run
inline bool zero_seen = false;
inline bool pass_on = true; // choice of protocol: a woken worker passes the notification on / the last one notifies all
constexpr unsigned LIM = 1u << 20;

struct T {
  bool armed = true, ran = false;
  T() {}
  T(T &&o) noexcept : armed(o.armed), ran(o.ran) { o.armed = false; }
  ~T() {
    if (!armed) return;
    VC_ASSERT(ran, "C14: a task that was taken from the queue is run");
    VC_ASSERT(!locked, "C14: a finished task is not destroyed with the pool locked");
    have_task = false;
  }
  void operator()() {
    VC_ASSERT(armed && !ran, "C14: a task is run exactly once");
    VC_ASSERT(counted && !locked, "C14: tasks run while the worker is attached, without the pool's mutex");
    VC_ASSERT(!ran_after_stop, "C14: after stop() a worker runs at most the task it is about to run");
    if (stopped) ran_after_stop = true;
    ran = true;
    must_run = false;
  }
};

inline bool pop_contract(Q *q, Fun &dest) {
  VC_ASSERT(q == &pool->queue_, "C14: the worker serves its pool's queue");
  VC_ASSERT(!locked, "C14: the worker does not wait for tasks with the pool's mutex held");
  VC_ASSERT(!have_task, "C14: a finished task is not kept while waiting for the next one");
  VC_ASSERT(!dest, "C14: no task is overwritten");
  VC_ASSERT(!closed, "C14: a worker that was told 'closed' leaves");
  if (vc_choice(2)) {
    if (vc_choice(2)) { stopped = true; pool->stopped_.store(true, std::memory_order_relaxed); } // stop() while blocked
    closed = true;
    return false;
  }
  if (!stopped && vc_choice(2)) { stopped = true; pool->stopped_.store(true, std::memory_order_relaxed); }
  have_task = must_run = true;
  dest = Fun{T{}};
  return true;
}

inline void env(void *p, int) {
  if (p != static_cast<void *>(&pool->stopped_)) return;
  if (!stopped && vc_choice(2)) { stopped = true; pool->stopped_.store(true, std::memory_order_relaxed); }
}

inline void havoc(unsigned woken = 0) {
  R = vc_nondet_u32();
  W = vc_nondet_u32();
  A = vc_nondet_u32();
  S = vc_nondet_u32();
  vc_assume((R < LIM) & (W < LIM) & (A < LIM) & (S < LIM));
  pool->attached_threads_ = R + unsigned(counted);
  VC_ASSERT(pool->attached_threads_ == R + unsigned(counted), "C14: any number of workers can be counted");
  vc_assume((W == 0) | (R + unsigned(counted) > 0) | (A + unsigned(owed) > 0) | (pass_on & (S + woken > 0)));
}
inline void check(unsigned me) {
  VC_ASSERT((pool->attached_threads_ == R) | (pool->attached_threads_ == R + 1), "C14: every worker is accounted for");
  counted = pool->attached_threads_ != R;
  if (pool->attached_threads_ == 0) zero_seen = true;
  if (me) VC_ASSERT((R > 0) | counted | (A > 0) | (pass_on & (S > 0)), "C14: a leaving worker sleeps only while another one is at work");
}
inline bool mine(void *m) { return m == static_cast<void *>(&pool->mutex_); }
inline void m_lock(void *m) {
  VC_ASSERT(mine(m) && !locked, "C14: the mutex is not locked twice");
  havoc();
  locked = true;
}
inline void m_unlock(void *m) {
  VC_ASSERT(mine(m) && locked, "C14: unlock of a held mutex");
  check(0);
  // leaving: the sleeping workers must hear of it, now or right after the release
  owed = false;
  if ((W > 0) & (pool->attached_threads_ == 0) & (A == 0) & !(pass_on & (S > 0))) owed = true;
  locked = false;
}
inline void m_wait(void *, void *m) {
  VC_ASSERT(mine(m) && locked, "C14: wait with the mutex held");
  check(1);
  locked = false;
  havoc(1);
  locked = true;
}
inline void m_notify_one(void *) {
  if (!locked) havoc();
  if (W > 0) { --W; ++S; }
  owed = false;
}
inline void m_notify_all(void *) { owed = false; S += W; W = 0; }
inline vc_monitor mon = {&m_lock, &m_unlock, &m_wait, nullptr, &m_notify_one, &m_notify_all, nullptr};
} // namespace vc

static void worker_any(bool protocol) {
  vc_model();
  pass_on = protocol;
  {
    pc::static_thread_pool p{0};
    pool = &p;
    auto pm = &Q::pop;
    vc_subst(*reinterpret_cast<void **>(&pm), reinterpret_cast<void *>(&pop_contract));
    vc_mon = &mon;
    vc_env_hook(&env);
    p.attach();
    vc_env_hook(nullptr);
    vc_mon = nullptr;
    VC_ASSERT(!locked && !owed, "C14: workers sleeping at the exit are notified");
    VC_ASSERT(!counted && zero_seen, "C14: attach returns only when no worker is at work any more");
    VC_ASSERT(!have_task, "C14: every task taken was run and destroyed");
    VC_ASSERT(closed || stopped, "C14: a worker leaves only when the queue is closed and drained, or after stop()");
    if (closed) vc_cover("drained");
    if (!closed) vc_cover("stopped");
    p.attached_threads_ = 0;
    p.stopped_.store(false, std::memory_order_relaxed);
  }
}

VC_UNIT(pool_worker_any, C14) { worker_any(true); }
VC_UNIT(pool_worker_any_alt2, C14) { worker_any(false); }
