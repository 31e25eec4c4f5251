// Thread-modular contracts of latch: any number of threads counting down, waiting and one destroying it, any counter value.
//
// Monitor (mutex_, cv_) protects counter_ and waiters_.  Ghost counts of the other threads: Wc parked in wait /
// count_down_and_wait, Sc woken but not yet out, D / Ds the destructor parked / woken.  Invariant at every release:
//   counter_ >= 0;  waiters_ == parked + woken waiters;  parked waiters > 0 => counter_ > 0;  destructor parked => waiters_ > 0
// After its last release of the mutex an operation must not touch the latch: every other thread may be done and the latch gone.
#include "kit.h"

static_assert(std::is_same<decltype(pc::latch::mutex_), std::mutex>::value && std::is_same<decltype(pc::latch::cv_), std::condition_variable>::value,
              "the monitor contract speaks about std::mutex and std::condition_variable");
namespace vc {
inline pc::latch *L = nullptr;
inline unsigned Wc = 0, Sc = 0;
inline bool D = false, Ds = false;
inline bool locked = false, in_dtor = false, is_last_use = true, inside = false;
inline bool gone = false;       // another thread may have destroyed the latch
inline int64_t reserved = 0;    // what this operation still has to count down (caller's precondition)
inline int64_t floor_ = -1;     // rely: the counter never grows
inline int64_t locked_value = 0, released_value = 0;
inline int releases = 0, locks = 0;
constexpr unsigned LIM = 1u << 20;

inline void havoc() {
  int64_t c = int64_t(vc_nondet_u64());
  vc_assume((c >= reserved) & (c < (int64_t(1) << 40)) & ((floor_ < 0) | (c <= floor_)));
  Wc = vc_nondet_u32();
  Sc = vc_nondet_u32();
  vc_assume((Wc < LIM) & (Sc < LIM));
  vc_assume((Wc == 0) | (c > 0));
  if (in_dtor) {
    vc_assume(c == 0);
    D = Ds = false;
  } else if (reserved == 0 && !inside && is_last_use) {
    D = Ds = false; // a latch this thread is about to use is not being destroyed ...
  } else {
    D = vc_choice(2) != 0; // ... but once its count is in, the last waiter may be destroying it
    vc_assume(!D | ((c == 0) & (Wc == 0) & (Sc + inside > 0)));
    Ds = false;
  }
  L->counter_ = c;
  L->waiters_ = Wc + Sc + unsigned(inside);
  floor_ = c;
}
inline void m_lock(void *m) {
  VC_ASSERT(!gone, "C15: the latch is not touched after the last release of its mutex");
  VC_ASSERT(!locked && m == static_cast<void *>(&L->mutex_), "C15: the mutex is not locked twice");
  havoc();
  locked = true;
  ++locks;
  locked_value = L->counter_;
}
inline void check(unsigned me) {
  VC_ASSERT(L->counter_ >= 0, "C15: the counter never becomes negative");
  VC_ASSERT(L->counter_ <= floor_, "C15: the counter never grows");
  if (in_dtor) return;
  VC_ASSERT((L->waiters_ == Wc + Sc) | (L->waiters_ == Wc + Sc + 1), "C15: every thread inside wait is accounted for");
  inside = L->waiters_ != Wc + Sc; // this thread is counted
  VC_ASSERT((me == 0) | inside, "C15: every thread inside wait is accounted for");
  VC_ASSERT((Wc + me == 0) | (L->counter_ > 0), "C15: no thread sleeps once the counter is zero");
  VC_ASSERT(!D | (L->waiters_ > 0), "C15: a sleeping destructor is woken when the last thread leaves");
  floor_ = L->counter_;
}
inline void m_unlock(void *m) {
  VC_ASSERT(!gone, "C15: the latch is not touched after the last release of its mutex");
  VC_ASSERT(locked && m == static_cast<void *>(&L->mutex_), "C15: unlock of a held mutex");
  released_value = L->counter_;
  check(0);
  if (in_dtor) VC_ASSERT((Wc == 0) & (Sc == 0), "C15: the destructor returns only when no thread is inside the latch");
  locked = false;
  ++releases;
  if (is_last_use && reserved == 0 && !in_dtor && !inside) {
    gone = true;
    vc_forget(L);
  }
}
inline void m_wait(void *cv, void *m) {
  VC_ASSERT(locked && m == static_cast<void *>(&L->mutex_) && cv == static_cast<void *>(&L->cv_), "C15: wait with the mutex held");
  if (in_dtor) {
    VC_ASSERT(L->waiters_ > 0, "C15: the destructor sleeps only while a thread is inside");
  } else {
    check(1);
  }
  locked = false;
  havoc();
  locked = true;
}
inline void m_notify_one(void *) {
  VC_ASSERT(!gone, "C15: the latch is not touched after the last release of its mutex");
  if (!locked) return;
  bool toD = D && (Wc == 0 || vc_choice(2));
  if (toD) { D = false; Ds = true; }
  else if (Wc > 0) { --Wc; ++Sc; }
}
inline void m_notify_all(void *) {
  VC_ASSERT(!gone, "C15: the latch is not touched after the last release of its mutex");
  if (!locked) return;
  Sc += Wc;
  Wc = 0;
  if (D) { D = false; Ds = true; }
}
inline vc_monitor mon = {&m_lock, &m_unlock, &m_wait, nullptr, &m_notify_one, &m_notify_all, nullptr};
alignas(pc::latch) inline unsigned char mem[sizeof(pc::latch)];
inline pc::latch *make() {
  L = static_cast<pc::latch *>(std::malloc(sizeof(pc::latch)));
  new (L) pc::latch{0};
  vc_mon = &mon;
  return L;
}
} // namespace vc

VC_UNIT(latch_count_down_any, C15) {
  vc_model();
  pc::latch *l = make();
  int64_t n = int64_t(vc_nondet_u64());
  vc_assume((n >= 0) & (n < (int64_t(1) << 40)));
  reserved = n;
  struct own { static void unlock(void *m) { VC_ASSERT(L->counter_ == locked_value - reserved, "C15: count_down(n) takes exactly n off the counter"); reserved = 0; m_unlock(m); } };
  mon.unlock = &own::unlock;
  l->count_down(n);
  VC_ASSERT(!locked && locks == 1 && releases == 1, "C15: count_down takes effect at once");
}

VC_UNIT(latch_wait_any, C15) {
  vc_model();
  pc::latch *l = make();
  l->wait();
  VC_ASSERT(!locked, "C15: the mutex is released");
  VC_ASSERT(!inside, "C15: a thread that leaves is no longer accounted for");
  VC_ASSERT(released_value == 0, "C15: wait returns only when the counter is zero");
  vc_cover("returns");
}

VC_UNIT(latch_count_down_and_wait_any, C15) {
  vc_model();
  pc::latch *l = make();
  reserved = 1;
  struct own {
    static void dec() {
      if (reserved == 0) return;
      VC_ASSERT(L->counter_ == locked_value - 1, "C15: count_down_and_wait takes exactly one off the counter");
      reserved = 0;
    }
    static void unlock(void *m) { dec(); m_unlock(m); }
    static void wait(void *c, void *m) { dec(); m_wait(c, m); }
  };
  mon.unlock = &own::unlock;
  mon.wait = &own::wait;
  l->count_down_and_wait();
  VC_ASSERT(!locked, "C15: the mutex is released");
  VC_ASSERT(!inside, "C15: a thread that leaves is no longer accounted for");
  VC_ASSERT(released_value == 0, "C15: count_down_and_wait returns only when the counter is zero");
}

VC_UNIT(latch_is_ready_any, C15) {
  vc_model();
  pc::latch *l = make();
  is_last_use = false;
  bool r = l->is_ready();
  VC_ASSERT(!locked && locks == 1, "C15: the mutex is released");
  VC_ASSERT(r == (released_value == 0), "C15: is_ready tells whether the counter is zero");
  vc_forget(l);
}

VC_UNIT(latch_destroy_any, C15) {
  vc_model();
  pc::latch *l = make();
  in_dtor = true;
  l->~latch();
  VC_ASSERT(!locked && releases >= 1, "C15: the mutex is released");
  vc_forget(l);
}
