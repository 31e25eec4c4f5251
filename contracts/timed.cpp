// Timed waits: timed_waiter and the (deprecated) wait_for / wait_until members.
#include "kit.h"
#include <chrono>

namespace vc { // ghost
inline int done = 0;
inline int64_t done_at = 0;
}
namespace {
using ns = std::chrono::nanoseconds;
int64_t pick_dur() {
  switch (vc_choice(5)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return 999999999;
  case 3: return 2500000001;
  default: return -5;
  }
}
enum { FOR_NS, FOR_MS, UNTIL_STEADY, UNTIL_SYSTEM };
// waits; returns the status and the deadline it stands for
template <typename W> pc::future_status timed(W &w, int how, int64_t dur, int64_t &deadline) {
  deadline = vc_now() + dur;
  switch (how) {
  case FOR_NS: return w.wait_for(ns{dur});
  case FOR_MS: {
    if (dur < 0) dur = 0;
    deadline = vc_now() + dur / 1000000 * 1000000;
    return w.wait_for(std::chrono::milliseconds{dur / 1000000});
  }
  case UNTIL_STEADY: return w.wait_until(std::chrono::steady_clock::time_point{ns{deadline}});
  default: return w.wait_until(std::chrono::system_clock::time_point{ns{deadline}});
  }
}
void judge(pc::future_status s, int64_t deadline, bool ready_after) {
  if (s == pc::future_status::ready) {
    VC_ASSERT(ready_after, "C06: 'ready' only if the future has become ready");
    vc_cover("ready");
  } else {
    VC_ASSERT(s == pc::future_status::timeout, "C06: 'ready' or 'timeout'");
    VC_ASSERT(vc_now() >= deadline, "C06: 'timeout' not before the deadline");
    VC_ASSERT(!(done && done_at < deadline), "C06: a future that became ready before the deadline is reported ready");
    vc_cover("timeout");
  }
}
} // namespace

// a completer races with the wait; every way of waiting
template <typename T> void race(int via, bool spurious) {
  if (spurious) vc_opt("spurious", 1);
  int how = vc_choice(4);
  int64_t dur = pick_dur();
  {
    auto pf = pc::make_promise<T>();
    int payload = 0;
    auto c = [&] { payload = 3; K<T>::set(pf.first, 2); vc_sched(); done_at = vc_now(); done = 1; };
    spawn(c);
    int64_t deadline = 0;
    pc::future_status s{};
    if (via == 0) {
      pc::timed_waiter w{pf.second};
      s = timed(w, how, dur, deadline);
      vc_sched();
      judge(s, deadline, pf.second.is_ready());
      // a second wait on the same waiter
      if (s == pc::future_status::ready)
        VC_ASSERT(w.wait_for(ns{0}) == pc::future_status::ready, "C06: stays ready");
    } else if (via == 1) {
      s = timed(pf.second, how, dur, deadline);
      vc_sched();
      judge(s, deadline, pf.second.is_ready());
    } else {
      auto sh = pf.second.share();
      if (via == 2) { pc::timed_waiter w{sh}; s = timed(w, how, dur, deadline); }
      else s = timed(sh, how, dur, deadline);
      vc_sched();
      judge(s, deadline, sh.is_ready());
    }
    if (s == pc::future_status::ready) VC_ASSERT(payload == 3, "C06: what the producer wrote is visible once 'ready' was reported");
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(timed_waiter_future, C06) { race<Val>(0, true); }
VC_UNIT(timed_member_future, C06) { race<void>(1, false); }
VC_UNIT(timed_waiter_shared, C06) { race<Val>(2, false); }
VC_UNIT(timed_member_shared, C06) { race<void>(3, false); }

// nobody completes: always a timeout, at or after the deadline; already complete: always ready, at once
inline void set(pc::promise<int> &p) { p.set_value(1); }
inline void set(pc::promise<int &> &p) { static int x; p.set_value(x); }
inline void set(pc::promise<void> &p) { p.set_value(); }
template <typename Q> void never(Q &f, int how, int64_t dur) {
  int64_t deadline = 0;
  if (vc_choice(2)) {
    pc::timed_waiter w{f};
    judge(timed(w, how, dur, deadline), deadline, false);
  } else {
    judge(timed(f, how, dur, deadline), deadline, false);
  }
  VC_ASSERT(!f.is_ready() && f.valid(), "C06: the future is untouched by a timeout");
}
VC_UNIT(timed_never, C06) {
  vc_opt("spurious", 2);
  int how = vc_choice(4);
  int64_t dur = pick_dur();
  auto pf = pc::make_promise<int>();
  never(pf.second, how, dur);
}
VC_UNIT(timed_never_shared, C06) {
  vc_opt("spurious", 2);
  int how = vc_choice(4);
  int64_t dur = pick_dur();
  auto pf = pc::make_promise<int>();
  auto s = pf.second.share();
  never(s, how, dur);
}
template <typename Q> void already(Q &f, int how, int64_t dur) {
  int64_t deadline = 0, t0 = vc_now();
  pc::timed_waiter w{f};
  VC_ASSERT(timed(w, how, dur, deadline) == pc::future_status::ready, "C06: a ready future is reported ready whatever the deadline");
  VC_ASSERT(vc_now() == t0, "C06: without waiting");
  VC_ASSERT(timed(w, how, dur, deadline) == pc::future_status::ready, "C06: and stays ready");
  VC_ASSERT(timed(f, how, dur, deadline) == pc::future_status::ready, "C06: likewise through the future");
  VC_ASSERT(vc_now() == t0, "C06: without waiting");
  VC_ASSERT(f.valid(), "C06: a timed wait leaves the future valid");
}
template <typename T> void already_ready(bool shared) {
  int how = vc_choice(4), out = vc_choice(3);
  int64_t dur = pick_dur();
  auto pf = pc::make_promise<T>();
  if (out == 0) set(pf.first);
  if (out == 1) pf.first.set_exception(mk(5));
  if (out == 2) pf.first = pc::promise<T>{};
  if (shared) {
    auto s = pf.second.share();
    already(s, how, dur);
  } else already(pf.second, how, dur);
}
VC_UNIT(timed_already, C06) { already_ready<int>(false); }
VC_UNIT(timed_already_void, C06) { already_ready<void>(false); }
VC_UNIT(timed_already_shared, C06) { already_ready<int>(true); }
VC_UNIT(timed_already_sref, C06) { already_ready<int &>(true); }

// a blocked waiter with a far deadline is woken by the completion (not by its timeout)
template <typename Wait> void wakes(Wait wait) {
  auto pf = pc::make_promise<int>();
  int out = vc_choice(3);
  auto c = [&] {
    if (out == 0) pf.first.set_value(1);
    if (out == 1) pf.first.set_exception(mk(5));
    if (out == 2) pf.first = pc::promise<int>{};
    vc_sched();
    done = 1; done_at = vc_now();
  };
  auto start = [&] { spawn(c); };
  int64_t deadline = 0;
  wait(pf.second, start, deadline);
  if (done && done_at < deadline) VC_ASSERT(vc_now() < deadline, "C06: a completion wakes the blocked thread before its deadline");
  vc_join_all();
}
constexpr int64_t hour = 3600ll * 1000000000;
VC_UNIT(timed_wakes_future, C06) {
  int how = vc_choice(2) ? UNTIL_STEADY : FOR_NS;
  wakes([&](pc::future<int> &f, auto &start, int64_t &dl) {
    pc::timed_waiter w{f};
    start();
    auto s = timed(w, how, hour, dl);
    vc_sched();
    judge(s, dl, f.is_ready());
  });
}
VC_UNIT(timed_wakes_shared, C06) {
  wakes([&](pc::future<int> &f, auto &start, int64_t &dl) {
    auto sh = f.share();
    pc::timed_waiter w{sh};
    start();
    auto s = timed(w, UNTIL_SYSTEM, hour, dl);
    vc_sched();
    judge(s, dl, sh.is_ready());
  });
}
VC_UNIT(timed_wakes_member, C06) {
  int how = vc_choice(2) ? UNTIL_STEADY : FOR_MS;
  wakes([&](pc::future<int> &f, auto &start, int64_t &dl) {
    start();
    auto s = timed(f, how, hour, dl);
    vc_sched();
    judge(s, dl, f.is_ready());
  });
}

// two threads wait on copies of one waiter: a completion wakes both
VC_UNIT(timed_two_threads, C06) {
  auto pf = pc::make_promise<int>();
  pc::timed_waiter w{pf.second};
  int64_t d1 = 0, d2 = 0;
  auto a = [&, w]() mutable { auto s = timed(w, UNTIL_STEADY, 1000000, d1); vc_sched(); judge(s, d1, pf.second.is_ready()); };
  auto b = [&, w]() mutable { auto s = timed(w, UNTIL_STEADY, 1000000, d2); vc_sched(); judge(s, d2, pf.second.is_ready()); };
  spawn(a);
  spawn(b);
  pf.first.set_value(1);
  vc_sched();
  done_at = vc_now(); done = 1;
  vc_join_all();
}

// however many threads are blocked through copies of one waiter, a completion wakes them all: with time passing only when
// nothing else can happen, nobody is left to its deadline
template <typename Fut> void wakes_all(Fut &f, pc::promise<int> &p) {
  vc_opt("lazy_timeout", 1);
  pc::timed_waiter w{f};
  auto body = [&](pc::timed_waiter mine, bool until) {
    int64_t dl = 0;
    auto s = timed(mine, until ? UNTIL_STEADY : FOR_NS, hour, dl);
    VC_ASSERT(s == pc::future_status::ready && vc_now() < dl, "C06: a completion wakes every blocked thread before its deadline");
  };
  auto a = [&, w] { body(w, true); };
  auto b = [&, w] { body(w, false); };
  spawn(a);
  spawn(b);
  p.set_value(1);
  vc_join_all();
}
VC_UNIT(timed_wakes_all_future, C06) {
  auto pf = pc::make_promise<int>();
  wakes_all(pf.second, pf.first);
}
VC_UNIT(timed_wakes_all_shared, C06) {
  auto pf = pc::make_promise<int>();
  auto s = pf.second.share();
  wakes_all(s, pf.first);
}
// several waiters of one shared result, each with its own timed_waiter (or member wait)
VC_UNIT(timed_wakes_each, C06) {
  vc_opt("lazy_timeout", 1);
  auto pf = pc::make_promise<int>();
  auto s = pf.second.share();
  auto a = [s]() mutable {
    int64_t dl = 0;
    auto r = timed(s, FOR_NS, hour, dl);
    VC_ASSERT(r == pc::future_status::ready && vc_now() < dl, "C06: a completion wakes every blocked thread before its deadline");
  };
  auto b = [s]() mutable {
    int64_t dl = 0;
    pc::timed_waiter w{s};
    auto r = timed(w, UNTIL_STEADY, hour, dl);
    VC_ASSERT(r == pc::future_status::ready && vc_now() < dl, "C06: a completion wakes every blocked thread before its deadline");
  };
  spawn(a);
  spawn(b);
  pf.first.set_value(1);
  vc_join_all();
}

// the waiter is gone, then the future is gone, then the promise is completed
VC_UNIT(timed_gone, C06) {
  {
    auto pf = pc::make_promise<int>();
    int order = vc_choice(3);
    auto c = [&] { pf.first.set_value(7); };
    pc::future<int> f = std::move(pf.second);
    if (order == 0) {
      { pc::timed_waiter w{f}; VC_ASSERT(w.wait_for(ns{10}) == pc::future_status::timeout, "C06: nobody completed"); }
      int t = spawn(c);
      vc_join(t);
      VC_ASSERT(f.is_ready() && f.get() == 7, "C06: completion after the waiter is gone is harmless");
    } else if (order == 1) {
      pc::timed_waiter w{f};
      int t = spawn(c);
      w = pc::timed_waiter{}; // races with the completion
      vc_join(t);
      VC_ASSERT(f.get() == 7, "C06: completion racing with the waiter's destruction is harmless");
    } else {
      pc::timed_waiter w{f};
      { pc::future<int> g = std::move(f); (void)g; } // the future is gone: the promise has no listener
      pf.first.set_value(7);
      VC_ASSERT(w.wait_for(ns{1}) == pc::future_status::timeout || true, "C06: harmless");
    }
  }
  vc_cover("done");
}
VC_UNIT(timed_no_state, C06_C20) {
  pc::future<int> f;
  pc::shared_future<int> s;
  VC_ASSERT(thrown([&] { f.wait_for(ns{1}); }) == NO_STATE, "C20: no state");
  VC_ASSERT(thrown([&] { s.wait_for(ns{1}); }) == NO_STATE, "C20: no state");
  VC_ASSERT(thrown([&] { f.wait_until(std::chrono::steady_clock::time_point{}); }) == NO_STATE, "C20: no state");
  VC_ASSERT(thrown([&] { s.wait_until(std::chrono::steady_clock::time_point{}); }) == NO_STATE, "C20: no state");
  VC_ASSERT(thrown([&] { pc::timed_waiter w{f}; }) == NO_STATE, "C20: no state");
}
