// Thread-modular contracts of timed_waiter: any number of threads waiting on copies of it, at any time, with any timeouts.
// Monitor (mutex, cv) of the shared waiter protects notified.  Others: W parked, A notify_all still owed by the completer.
// Invariant: parked > 0 and notified => a notify_all is owed;  notified is never reset.
#include "kit.h"

namespace vc {
using Waiter = pc::timed_waiter::waiter;
inline Waiter *w = nullptr;
inline unsigned W = 0;
inline bool A = false, locked = false, seen = false, owed = false, completer = false;
inline bool at_release = false;
inline int64_t now_ = 0;
inline int timeouts = 0;
constexpr unsigned LIM = 1u << 20;
constexpr int64_t TMAX = int64_t(1) << 50;

inline void tick() {
  int64_t t = int64_t(vc_nondet_u64());
  vc_assume((t >= now_) & (t < TMAX));
  now_ = t;
}
inline void havoc() {
  if (!completer) { // somebody else completes
    bool n = vc_choice(2) != 0;
    vc_assume(n | !seen);
    w->notified = n;
    seen = n;
    A = n && vc_choice(2);
  }
  W = vc_nondet_u32();
  vc_assume(W < LIM);
  vc_assume((W == 0) | !w->notified | A | owed);
  tick();
}
inline void check(unsigned me) {
  VC_ASSERT(w->notified || !seen, "C06: completion is never forgotten");
  if (w->notified && !seen) VC_ASSERT(completer, "C06: only the completion reports ready");
  seen = w->notified;
  if (me) VC_ASSERT(!w->notified || A, "C06: no thread goes to sleep after the completion");
}
inline bool mine(void *m) { return m == static_cast<void *>(&w->mutex); }
inline void m_lock(void *m) {
  VC_ASSERT(mine(m) && !locked, "C06: the mutex is not locked twice");
  havoc();
  locked = true;
}
inline void m_unlock(void *m) {
  VC_ASSERT(mine(m) && locked, "C06: unlock of a held mutex");
  check(0);
  at_release = w->notified;
  if (completer && w->notified && W > 0) owed = true;
  locked = false;
}
inline int m_timedwait(void *, void *m, int64_t deadline) {
  VC_ASSERT(mine(m) && locked, "C06: wait with the mutex held");
  check(1);
  locked = false;
  havoc();
  locked = true;
  if (vc_choice(2)) return 0; // woken, or spuriously awake
  if (now_ < deadline) now_ = deadline;
  ++timeouts;
  if (timeouts > 1) timeouts = 1;
  return 1;
}
inline void m_wait(void *c, void *m) { m_timedwait(c, m, 0); }
inline void m_notify_one(void *) { if (!locked) havoc(); if (W > 0) --W; if (W == 0) owed = false; }
inline void m_notify_all(void *) { W = 0; owed = false; }
inline int64_t m_now() { tick(); return now_; }
inline vc_monitor mon = {&m_lock, &m_unlock, &m_wait, &m_timedwait, &m_notify_one, &m_notify_all, &m_now};
} // namespace vc

VC_UNIT(timed_wait_any, C06) {
  vc_model();
  {
    pc::timed_waiter tw;
    tw.waiter_ = std::make_shared<Waiter>();
    w = tw.waiter_.get();
    now_ = int64_t(vc_nondet_u64());
    vc_assume((now_ >= 0) & (now_ < TMAX));
    int64_t start = now_;
    int64_t dur = int64_t(vc_nondet_u64());
    vc_assume((dur >= -TMAX) & (dur < TMAX));
    vc_mon = &mon;
    pc::future_status r;
    if (vc_choice(2)) r = tw.wait_for(std::chrono::nanoseconds(dur));
    else r = tw.wait_until(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(start + dur)));
    vc_mon = nullptr;
    VC_ASSERT(!locked, "C06: the mutex is released");
    VC_ASSERT((r == pc::future_status::ready) == at_release, "C06: 'ready' exactly when the future had completed when the wait gave up");
    if (r == pc::future_status::timeout) {
      VC_ASSERT(now_ >= start + dur, "C06: 'timeout' not before the deadline");
      vc_cover("timeout");
    } else {
      VC_ASSERT(r == pc::future_status::ready, "C06: a timed wait answers ready or timeout");
      vc_cover("ready");
    }
  }
}

VC_UNIT(timed_complete_any, C06) {
  vc_model();
  {
    pc::promise<Val> p;
    auto f = p.get_future();
    pc::timed_waiter tw{f};
    w = tw.waiter_.get();
    completer = true;
    vc_mon = &mon;
    p.set_value(Val{1});
    vc_mon = nullptr;
    VC_ASSERT(!locked && at_release, "C06: the completion is recorded for the waiters");
    VC_ASSERT(!owed, "C06: the completion wakes every thread blocked in a timed wait");
  }
}
