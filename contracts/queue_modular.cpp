// Thread-modular contracts of closable_queue: any number of producers, consumers and queued tasks.
//
// The monitor (mutex_, cv_) protects queue_ and closed_.  Ghost counts of the *other* threads:
//   W  consumers parked on cv_, S  consumers woken that have not yet run, P  notifications still owed by producers,
//   A  notify_all still owed by closers.
// Monitor invariant, assumed when the mutex is acquired and proved whenever it is released:
//   parked > 0  =>  (A > 0)  or  (not closed  and  queued tasks <= woken + owed notifications)
// so a task is never left in the queue (and a close is never left unseen) while consumers sleep and nobody is about to wake
// one.  std::queue is replaced by its contract: a FIFO sequence [head, tail) of task numbers of any length.
#include "kit.h"

struct Task { // tasks are identified by their position in the sequence of accepted tasks
  unsigned no;
  bool full;
  Task() : no(0), full(false) {}
  explicit Task(unsigned n) : no(n), full(true) {}
  Task(Task &&o) noexcept : no(o.no), full(o.full) { o.full = false; o.no = 0; }
  Task &operator=(Task &&o) noexcept { no = o.no; full = o.full; o.full = false; o.no = 0; return *this; }
};

namespace vc {
inline unsigned qhead = 0, qtail = 0; // contract of std::queue: accepted tasks qhead..qtail-1 are queued
inline int pushed = 0, popped = 0;    // own operations on the queue
inline unsigned taken_no = 0;
inline unsigned push_no = 0;          // number carried by the task being pushed
inline bool locked = false;           // the operation under proof holds the mutex
inline void touch() { VC_ASSERT(locked, "C13: the queue is only touched with its mutex held"); }
} // namespace vc

namespace std {
template <> class queue<Task, deque<Task>> { // contract of std::queue<Task>
  Task slot;
  bool loaded = false;
public:
  bool empty() const { touch(); return qhead == qtail; }
  size_t size() const { touch(); return qtail - qhead; }
  Task &front() {
    touch();
    VC_ASSERT(qhead != qtail, "C13: front() of a non-empty queue");
    if (!loaded) { slot.no = qhead; slot.full = true; loaded = true; }
    return slot;
  }
  void pop() {
    touch();
    VC_ASSERT(qhead != qtail, "C13: pop() of a non-empty queue");
    VC_ASSERT(loaded && !slot.full, "C13: no task is discarded: it is handed out before it is removed");
    loaded = false;
    taken_no = qhead++;
    ++popped;
  }
  void push(Task &&t) { emplace(std::move(t)); }
  void emplace(Task &&t) {
    touch();
    VC_ASSERT(t.full && t.no == push_no, "C13: the task given to push is the one queued");
    t.full = false;
    ++qtail;
    ++pushed;
  }
};
} // namespace std

using Q = pc::detail::closable_queue<Task>;
static_assert(std::is_same<decltype(Q::queue_), std::queue<Task>>::value, "the contract of std::queue is used");
static_assert(std::is_same<decltype(Q::mutex_), std::mutex>::value && std::is_same<decltype(Q::cv_), std::condition_variable>::value,
              "the monitor contract speaks about std::mutex and std::condition_variable");

namespace vc {
inline Q *Qp = nullptr;
inline unsigned W = 0, S = 0, P = 0, A = 0; // other threads
inline int owed = 0, owed_all = 0;          // notifications the operation under proof still owes
inline bool closed_seen = false;            // rely: closed is never reset
inline unsigned LIM = 1u << 20;

inline void havoc(unsigned me_woken) { // other threads run: any state satisfying the invariant
  unsigned h = vc_nondet_u32(), t = vc_nondet_u32();
  vc_assume((h <= t) & (t < LIM));
  qhead = h;
  qtail = t;
  bool c = vc_choice(2) != 0;
  vc_assume(c | !closed_seen);
  closed_seen = c;
  Qp->closed_ = c;
  W = vc_nondet_u32();
  S = vc_nondet_u32();
  P = vc_nondet_u32();
  A = vc_nondet_u32();
  vc_assume((W < LIM) & (S < LIM) & (P < LIM) & (A < LIM));
  vc_assume((A == 0) | c);
  vc_assume((W == 0) | (A + owed_all > 0) | (!c & (t - h <= S + me_woken + P + unsigned(owed))));
}
inline void check(unsigned me_parked) {
  VC_ASSERT(!closed_seen || Qp->closed_, "C13: a closed queue is never reopened");
  closed_seen = Qp->closed_;
  unsigned parked = W + me_parked;
  VC_ASSERT((parked == 0) | (A + owed_all > 0) | !Qp->closed_, "C13: no consumer sleeps on a closed queue");
  VC_ASSERT((parked == 0) | (A + owed_all > 0) | (qtail - qhead <= S + P + unsigned(owed)), "C13: no task is left queued while every consumer sleeps");
}
inline void m_lock(void *) {
  VC_ASSERT(!locked, "C13: the mutex is not locked twice");
  havoc(0);
  locked = true;
}
inline void m_unlock(void *) {
  VC_ASSERT(locked, "C13: unlock of a held mutex");
  check(0);
  locked = false;
}
inline void m_wait(void *, void *) {
  VC_ASSERT(locked, "C13: wait with the mutex held");
  check(1);
  locked = false;
  havoc(1); // woken (or spuriously awake): this thread is one of the woken ones
  locked = true;
}
inline void m_notify_one(void *) {
  if (!locked) havoc(0); // others may run between the unlock and the notification
  if (W > 0) { --W; ++S; }
  if (owed > 0) --owed;
  if (!locked) check(0);
}
inline void m_notify_all(void *) {
  if (!locked) havoc(0);
  S += W;
  W = 0;
  owed = 0;
  owed_all = 0;
  if (!locked) check(0);
}
inline vc_monitor mon = {&m_lock, &m_unlock, &m_wait, nullptr, &m_notify_one, &m_notify_all, nullptr};
} // namespace vc

// An operation that owes a notification when it returns has broken the invariant for good: P and A count only notifications
// that will be sent.
VC_UNIT(queue_push_any, C13) {
  vc_model();
  {
    Q q;
    Qp = &q;
    vc_mon = &mon;
    push_no = vc_nondet_u32();
    Task t{push_no};
    // a push may notify after the unlock: it then owes one notification if it queued a task
    struct own { static void unlock(void *m) { owed = (pushed > 0) & (A == 0) & (W > 0) & (qtail - qhead > S + P); m_unlock(m); } };
    mon.unlock = &own::unlock;
    q.push(std::move(t));
    VC_ASSERT(!locked, "C13: the mutex is released");
    VC_ASSERT(owed == 0, "C13: a queued task is announced to a sleeping consumer");
    VC_ASSERT(pushed <= 1 && popped == 0, "C13: push queues its task once");
    VC_ASSERT(pushed == 1 || closed_seen, "C13: a task is refused only by a closed queue");
    if (pushed) vc_cover("queued"); else vc_cover("refused");
    vc_mon = nullptr;
  }
}

VC_UNIT(queue_pop_any, C13) {
  vc_model();
  {
    Q q;
    Qp = &q;
    vc_mon = &mon;
    Task t;
    bool r = q.pop(t);
    VC_ASSERT(!locked, "C13: the mutex is released");
    VC_ASSERT(pushed == 0 && popped == (r ? 1 : 0), "C13: pop removes exactly the task it hands out");
    if (r) {
      VC_ASSERT(t.full && t.no == taken_no, "C13: pop hands out the oldest task");
      vc_cover("task");
    } else {
      VC_ASSERT(!t.full, "C13: no task with 'closed'");
      VC_ASSERT(closed_seen && qhead == qtail, "C13: 'closed' is reported only by a closed and drained queue");
      vc_cover("closed");
    }
    vc_mon = nullptr;
  }
}

VC_UNIT(queue_close_any, C13) {
  vc_model();
  {
    Q q;
    Qp = &q;
    vc_mon = &mon;
    struct own { static void unlock(void *m) { owed_all = Qp->closed_ & (A == 0) & (W > 0); m_unlock(m); } };
    mon.unlock = &own::unlock;
    q.close();
    VC_ASSERT(!locked, "C13: the mutex is released");
    VC_ASSERT(owed_all == 0, "C13: closing wakes every sleeping consumer");
    VC_ASSERT(closed_seen && pushed == 0 && popped == 0, "C13: close closes and keeps the queued tasks");
    vc_mon = nullptr;
  }
}
