// Cancellation, detach, is_awaiten and cancel actions.
#include "kit.h"

// pending producer + chain of continuations; drop the last future at every moment
VC_UNIT(drop_chain, C09_C07) {
  {
    auto pf = pc::make_promise<Val>();
    int n1 = 0, n2 = 0;
    Exec ex;
    bool e1 = vc_choice(2), e2 = vc_choice(2);
    pc::future<int> g;
    {
      auto f1 = [&n1, c = Val{20}](Val v) { ++n1; return v.id; };
      auto f2 = [&n2, c = Val{21}](int v) { ++n2; return v; };
      auto m = e1 ? pf.second.next(ex, std::move(f1)) : pf.second.next(std::move(f1));
      g = e2 ? m.next(ex, std::move(f2)) : m.next(std::move(f2));
    }
    VC_ASSERT(live == 2, "C09: the functions are kept while the result is wanted");
    VC_ASSERT(pf.first.is_awaiten(), "C09: the promise is awaited through the chain");
    int when = vc_choice(3); // drop before completion / after the first post / never
    if (when == 0) {
      { auto dead = std::move(g); }
      VC_ASSERT(n1 == 0 && n2 == 0, "C09: a cancelled function is not invoked");
      VC_ASSERT(live == 0, "C09: cancelled functions are destroyed with what they captured");
      VC_ASSERT(!pf.first.is_awaiten(), "C09: the producer feeding a cancelled chain is no longer awaited");
      pf.first.set_value(Val{1});
      ex.run_all();
      VC_ASSERT(n1 == 0 && n2 == 0, "C09: and is never invoked later");
    } else if (when == 1) {
      pf.first.set_value(Val{1});
      { auto dead = std::move(g); }
      int m1 = n1, m2 = n2;
      VC_ASSERT(m1 == (e1 ? 0 : 1) && m2 == (e1 || e2 ? 0 : 1), "C10: executed so far");
      ex.run_all();
      VC_ASSERT(n1 == m1 && n2 == m2, "C09: functions that have not started when the result is dropped never run");
      VC_ASSERT(live == 0, "C09: destroyed");
    } else {
      pf.first.set_value(Val{1});
      ex.run_all();
      VC_ASSERT(n1 == 1 && n2 == 1 && g.get() == 1, "C07: kept result is delivered");
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// same for then, shared parents and interruptible then
VC_UNIT(drop_then, C09_C07) {
  {
    auto pf = pc::make_promise<Val>();
    int n = 0;
    Exec ex;
    int kind = vc_choice(4);
    bool exec = vc_choice(2);
    pc::future<int> g;
    pc::shared_future<Val> s;
    switch (kind) {
    case 0: { auto f = [&n, c = Val{20}](pc::future<Val> v) { ++n; return v.get().id; }; g = exec ? pf.second.then(ex, std::move(f)) : pf.second.then(std::move(f)); break; }
    case 1: { auto f = [&n, c = Val{20}](pc::promise<int> p, pc::future<Val> v) { ++n; p.set_value(v.get().id); }; g = exec ? pf.second.then(ex, std::move(f)) : pf.second.then(std::move(f)); break; }
    case 2: { s = pf.second.share(); auto f = [&n, c = Val{20}](pc::shared_future<Val> v) { ++n; return v.get().id; }; g = exec ? s.then(ex, std::move(f)) : s.then(std::move(f)); break; }
    default: { s = pf.second.share(); auto f = [&n, c = Val{20}](const Val &v) { ++n; return v.id; }; g = exec ? s.next(ex, std::move(f)) : s.next(std::move(f)); break; }
    }
    VC_ASSERT(live == 1 && pf.first.is_awaiten(), "C09: kept while wanted");
    bool after = exec && vc_choice(2); // drop after the task was posted
    if (after) pf.first.set_value(Val{1});
    { auto dead = std::move(g); }
    VC_ASSERT(n == 0, "C09: not invoked");
    VC_ASSERT(live == (after && s.valid() ? 1 : 0), "C09: the function and the parent it kept are destroyed, a shared parent's value stays");
    if (!after) {
      VC_ASSERT(pf.first.is_awaiten() == s.valid(), "C09: the producer is awaited only by the remaining shared future");
      { auto dead = std::move(s); }
      VC_ASSERT(!pf.first.is_awaiten(), "C09: nobody awaits");
      pf.first.set_value(Val{1});
    }
    ex.run_all();
    VC_ASSERT(n == 0, "C09: never invoked");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// async / packaged_task
VC_UNIT(drop_async, C09_C19_C10) {
  {
    Exec ex;
    int n = 0;
    bool drop = vc_choice(2);
    {
      auto f = pc::async(ex, [&n, c = Val{20}](Val a) { ++n; return a.id; }, Val{5});
      VC_ASSERT(live == 2 && ex.q->posted == 1 && n == 0, "C10: posted once, function and argument stored once");
      if (drop) {
        { auto dead = std::move(f); }
        VC_ASSERT(live == 0, "C09: a cancelled task is destroyed together with its arguments");
        ex.run_all();
        VC_ASSERT(n == 0, "C09: a cancelled task never runs");
      } else {
        ex.run_all();
        VC_ASSERT(n == 1 && f.get() == 5, "C10: runs with the argument given");
      }
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(drop_task_future, C09_C19) {
  {
    int n = 0;
    pc::packaged_task<int(Val)> t{[&n, c = Val{20}](Val a) { ++n; return a.id; }};
    auto f = t.get_future();
    if (vc_choice(2)) { auto s = f.share(); auto s2 = s; } else { auto dead = std::move(f); }
    VC_ASSERT(live == 0, "C09: the function is destroyed when the last future goes away");
    VC_ASSERT(thrown([&] { t(Val{1}); }) == NOTHROW && n == 0, "C09: invoking a cancelled task does nothing");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// an executor that drops its tasks: broken promise for whoever still waits
VC_UNIT(executor_drops, C04_C09_C10) {
  {
    Exec ex;
    int n = 0;
    pc::future<int> g;
    auto pf = pc::make_promise<Val>();
    int kind = vc_choice(5);
    switch (kind) {
    case 0: g = pc::async(ex, [&n, c = Val{2}] { ++n; return 1; }); break;
    case 1: pf.first.set_value(Val{1}); g = pf.second.then(ex, [&n, c = Val{2}](pc::future<Val>) { ++n; return 1; }); break;
    case 2: pf.first.set_value(Val{1}); g = pf.second.next(ex, [&n, c = Val{2}](Val) { ++n; return 1; }); break;
    case 3: pf.first.set_value(Val{1}); g = pf.second.share().next(ex, [&n, c = Val{2}](const Val &) { ++n; return 1; }); break;
    default: pf.first.set_value(Val{1}); g = pf.second.then(ex, [&n, c = Val{2}](pc::promise<int> p, pc::future<Val>) { ++n; p.set_value(1); }); break;
    }
    int notified = 0;
    g.notify([&] { ++notified; });
    VC_ASSERT(ex.q->posted == 1 && !g.is_ready() && notified == 0, "C10: posted once");
    ex.drop_all();
    VC_ASSERT(g.is_ready() && notified == 1, "C04: dropping the task makes the future ready at once");
    VC_ASSERT(n == 0, "C04: the dropped function did not run");
    VC_ASSERT(get_code(g) == BROKEN, "C04: broken_promise");
    VC_ASSERT(live == 0, "C09: everything the task captured is gone");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// an executor whose post refuses (throws or ignores) is not the library's fault, but dropping immediately must break the promise
struct DropExec {};
template <typename F> void post(DropExec, F &&f) { auto dead = std::forward<F>(f); (void)dead; }
namespace portable_concurrency { template <> struct is_executor<DropExec> : std::true_type {}; }
VC_UNIT(executor_drops_at_once, C04_C10) {
  {
    int n = 0;
    auto g = pc::async(DropExec{}, [&] { ++n; return 1; });
    VC_ASSERT(g.valid() && g.is_ready() && get_code(g) == BROKEN && n == 0, "C04: dropped at once: broken_promise");
    auto pf = pc::make_promise<Val>();
    auto h = pf.second.next(DropExec{}, [&](Val) { ++n; return 1; });
    VC_ASSERT(!h.is_ready(), "C10: not posted yet");
    pf.first.set_value(Val{1});
    VC_ASSERT(h.is_ready() && get_code(h) == BROKEN && n == 0, "C04: dropped at once: broken_promise");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// an executor that keeps posted tasks in place, moving them by construction and by assignment (both are allowed):
// a task that is moved on still runs, one that is assigned over is dropped
struct SlotExec {
  struct Base { virtual ~Base() = default; virtual void run() = 0; };
  std::shared_ptr<std::unique_ptr<Base>> slot = std::make_shared<std::unique_ptr<Base>>();
  std::shared_ptr<int> posted = std::make_shared<int>(0);
};
template <typename F> struct Slot final : SlotExec::Base {
  F f, spare;
  static F blank(F &&src) { F out = std::move(src); return out; }
  Slot(F &&src) : f(blank(std::move(src))), spare(std::move(f)) { f = std::move(spare); } // moved there and back
  void run() override { f(); }
};
template <typename F> void post(SlotExec e, F f) {
  ++*e.posted;
  if (!*e.slot) *e.slot = std::make_unique<Slot<F>>(std::move(f));
  else static_cast<Slot<F> &>(**e.slot).f = std::move(f); // the unit posts only one type
}
namespace portable_concurrency { template <> struct is_executor<SlotExec> : std::true_type {}; }
VC_UNIT(executor_moves_tasks, C04_C10_C09) {
  {
    SlotExec ex;
    int n = 0, kind = vc_choice(3), last = 0;
    pc::future<int> g[2];
    for (int i = 0; i < 2; ++i) {
      auto pf = pc::make_promise<Val>();
      auto fn = [&n, &last, i, c = Val{2}](auto &&) { ++n; last = i; return 10 + i; };
      switch (kind) {
      case 0: g[i] = pf.second.then(ex, fn); break;
      case 1: g[i] = pf.second.next(ex, fn); break;
      default: g[i] = pc::async(ex, fn, 0); break;
      }
      pf.first.set_value(Val{1});
      VC_ASSERT(*ex.posted == i + 1, "C10: posted once");
      VC_ASSERT(!g[i].is_ready() && n == 0, "C04: moving a posted task disturbs nothing");
    }
    VC_ASSERT(g[0].is_ready() && get_code(g[0]) == BROKEN, "C04: a posted task that is assigned over is dropped: broken_promise");
    if (vc_choice(2)) {
      (*ex.slot)->run();
      VC_ASSERT(n == 1 && last == 1 && g[1].is_ready() && get_code(g[1]) == 11, "C10: the task that was moved in runs");
    } else {
      ex.slot->reset();
      VC_ASSERT(n == 0 && g[1].is_ready() && get_code(g[1]) == BROKEN, "C04: dropped: broken_promise");
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// detach keeps the chain up to it alive and running
template <typename T> void detach_chain() {
  {
    auto pf = pc::make_promise<T>();
    int n1 = 0, n2 = 0, n3 = 0;
    Exec ex;
    bool exec = vc_choice(2), ready = vc_choice(2), shared = vc_choice(2), tail = vc_choice(2);
    int id = std::is_void<T>::value ? 0 : 3;
    if (ready) K<T>::set(pf.first, id);
    {
      auto f1 = [&](pc::future<T> f) { ++n1; return Val{get_code<T>(f) + 1}; };
      auto f2 = [&](Val v) { ++n2; VC_ASSERT(v.is(id + 1), "C07: value"); };
      auto m = exec ? pf.second.then(ex, f1) : pf.second.then(f1);
      auto k = exec ? m.next(ex, f2) : m.next(f2);
      if (shared) { auto s = k.share(); auto d = s.detach(); VC_ASSERT(d.valid(), "C20: detach gives the future back"); if (tail) { auto t = d.next([&] { ++n3; }); } }
      else { auto d = k.detach(); VC_ASSERT(d.valid() && !k.valid(), "C20: detach gives the future back"); if (tail) { auto t = d.next([&] { ++n3; }); } }
    }
    if (!ready) {
      VC_ASSERT(pf.first.is_awaiten(), "C09: a detached chain still awaits the result");
      K<T>::set(pf.first, id);
    }
    ex.run_all();
    VC_ASSERT(n1 == 1 && n2 == 1, "C09: detach keeps the whole chain up to it running");
    VC_ASSERT(n3 == 0 || (ready && !exec), "C09: what is attached after detach is still cancelled with its future");
    VC_ASSERT(!pf.first.is_awaiten(), "C09: the chain is released when it is done");
    VC_ASSERT(live == 0, "C17: the detached chain is destroyed when it is done");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(detach_val, C09_C20) { detach_chain<Val>(); }
VC_UNIT(detach_ref, C09_C20) { detach_chain<Cell &>(); }
VC_UNIT(detach_void, C09_C20) { detach_chain<void>(); }

// a detached chain that is never completed dies with the promise
VC_UNIT(detach_abandoned, C09_C04) {
  {
    int n = 0, err = 0;
    {
      auto pf = pc::make_promise<Val>();
      auto d = pf.second.then([&, c = Val{30}](pc::future<Val> f) { ++n; err = get_code(f); }).detach();
      { auto dead = std::move(d); }
      VC_ASSERT(n == 0 && live == 1 && pf.first.is_awaiten(), "C09: alive although nobody holds the future");
    }
    VC_ASSERT(n == 1 && err == BROKEN, "C04: the detached continuation sees broken_promise");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// detach of a future whose task is still in the executor
VC_UNIT(detach_async, C09_C10) {
  {
    Exec ex;
    int n = 0;
    { auto d = pc::async(ex, [&n, c = Val{1}] { ++n; return c.id; }).detach(); }
    VC_ASSERT(n == 0 && live == 1, "C09: a detached task is kept");
    if (vc_choice(2)) { ex.run_all(); VC_ASSERT(n == 1, "C09: and runs"); }
    else { ex.drop_all(); VC_ASSERT(n == 0, "C09: unless the executor drops it"); }
    VC_ASSERT(live == 0, "C17: then it is gone");
  }
}

// is_awaiten follows exactly the existence of observers
VC_UNIT(awaiten, C09) {
  {
    auto pf = pc::make_promise<Val>();
    VC_ASSERT(pf.first.is_awaiten(), "C09: a future exists");
    pc::shared_future<Val> s, s2;
    pc::future<int> g, h;
    switch (vc_choice(6)) {
    case 0: { auto dead = std::move(pf.second); break; }
    case 1: { s = pf.second.share(); s2 = s; { auto d = std::move(s); } VC_ASSERT(pf.first.is_awaiten(), "C09: a copy exists"); { auto d = std::move(s2); } break; }
    case 2: { g = pf.second.next([](Val v) { return v.id; }); h = g.next([](int v) { return v; }); VC_ASSERT(pf.first.is_awaiten(), "C09: through continuations"); { auto d = std::move(h); } break; }
    case 3: { pf.second.notify([] {}); { auto dead = std::move(pf.second); } break; } // a notification does not await
    case 4: { auto w = pc::when_all(std::move(pf.second)); VC_ASSERT(pf.first.is_awaiten(), "C09: through when_all");
              pf.first.set_value(Val{1}); { auto d = std::move(w); } break; }
    default: { s = pf.second.share(); g = s.then([](pc::shared_future<Val> v) { return v.get().id; }); { auto d = std::move(s); } VC_ASSERT(pf.first.is_awaiten(), "C09: through the continuation"); { auto d = std::move(g); } break; }
    }
    VC_ASSERT(!pf.first.is_awaiten(), "C09: nobody can observe the result any more");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// ... also once the result is set: whoever holds a future can still read it
template <typename T> void awaiten_set() {
  {
    auto pf = pc::make_promise<T>();
    pc::shared_future<T> s;
    int how = vc_choice(3);
    satisfy<T>(pf.first, how, K<T>::fresh_id(2), 1001);
    VC_ASSERT(pf.first.is_awaiten(), "C09: a future for the stored result exists");
    if (vc_choice(2)) { s = pf.second.share(); VC_ASSERT(pf.first.is_awaiten(), "C09: a shared future for the stored result exists"); }
    { auto gone = std::move(pf.second); auto gone2 = std::move(s); }
    VC_ASSERT(!pf.first.is_awaiten(), "C09: nobody can observe the result any more");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(awaiten_set_val, C09) { awaiten_set<Val>(); }
VC_UNIT(awaiten_set_ref, C09) { awaiten_set<Cell &>(); }
VC_UNIT(awaiten_set_void, C09) { awaiten_set<void>(); }

// cancel actions
template <typename T> void canceler() {
  {
    int runs = 0;
    {
      bool member = vc_choice(2);
      auto act = [&runs, c = Val{9}] { ++runs; VC_ASSERT(c.is(9), "C09: the action is intact"); };
      typename K<T>::P p;
      typename K<T>::F f;
      if (member) { p = typename K<T>::P{pc::canceler_arg, act}; f = p.get_future(); }
      else { auto pf = pc::make_promise<T>(pc::canceler_arg, act); p = std::move(pf.first); f = std::move(pf.second); }
      VC_ASSERT(runs == 0, "C09: no cancel action while the result is wanted");
      switch (vc_choice(6)) {
      case 0: { auto dead = std::move(f); }
        VC_ASSERT(runs == 1, "C09: the cancel action runs once when the result is dropped unset");
        VC_ASSERT(!p.is_awaiten(), "C09: not awaited");
        K<T>::set(p, 0);
        break;
      case 1: K<T>::set(p, 0); { auto dead = std::move(f); } VC_ASSERT(runs == 0, "C09: never when the result was set"); break;
      case 2: p.set_exception(mk(1)); { auto dead = std::move(f); } VC_ASSERT(runs == 0, "C09: never when an exception was set"); break;
      case 3: { auto dead = std::move(p); } VC_ASSERT(runs == 0 && get_code<T>(f) == BROKEN && runs == 0, "C09: never when the promise was abandoned first"); break;
      case 4: { auto s = f.share(); auto s2 = s; { auto d = std::move(s); } VC_ASSERT(runs == 0, "C09: not while a shared future is left"); } VC_ASSERT(runs == 1, "C09: with the last one"); break;
      default: { auto g = f.then([](typename K<T>::F) { return 1; }); VC_ASSERT(runs == 0, "C09: not while a continuation is left"); } VC_ASSERT(runs == 1, "C09: with the last one"); break;
      }
      int r = runs;
      { auto d1 = std::move(p); auto d2 = std::move(f); }
      VC_ASSERT(runs == r, "C09: at most once");
    }
  }
  VC_ASSERT(live == 0, "C17: the action is destroyed");
}
VC_UNIT(canceler_val, C09) { canceler<Val>(); }
VC_UNIT(canceler_ref, C09) { canceler<Cell &>(); }
VC_UNIT(canceler_void, C09) { canceler<void>(); }
// a promise with a canceler whose future was never retrieved
VC_UNIT(canceler_unretrieved, C09) {
  int runs = 0;
  { pc::promise<Val> p{pc::canceler_arg, [&] { ++runs; }}; VC_ASSERT(p.is_awaiten(), "C09: a future can still be obtained"); if (vc_choice(2)) { p.set_value(Val{1}); vc_cover("set"); auto f = p.get_future(); } else runs = runs - 1; }
  VC_ASSERT(runs == 0, "C09: exactly once iff dropped unset");
  VC_ASSERT(live == 0, "C17: nothing left");
}

// races: the last future goes away while the producer completes
VC_UNIT(drop_vs_set, C09_C17_C01) {
  vc_opt("sched_refcount", 1);
  {
    int runs = 0;
    auto pf = pc::make_promise<Val>(pc::canceler_arg, [&] { ++runs; });
    bool set_ok = false;
    auto d = [f = std::move(pf.second)]() mutable { auto dead = std::move(f); };
    auto c = [p = std::move(pf.first)]() mutable { p.set_value(Val{3}); };
    spawn(d); spawn(c);
    vc_join_all();
    VC_ASSERT(runs <= 1, "C09: the cancel action runs at most once");
    VC_ASSERT(live == 0, "C17: the value is destroyed exactly once");
  }
}
VC_UNIT(drop_cnt_vs_set, C09_C17_C07) {
  vc_opt("sched_refcount", 1);
  vc_opt("preemptions", 3);
  {
    int n = 0;
    auto pf = pc::make_promise<Val>();
    auto g = pf.second.next([&n](Val v) { ++n; return v.id; });
    auto d = [f = std::move(g)]() mutable { auto dead = std::move(f); };
    auto c = [p = std::move(pf.first)]() mutable { p.set_value(Val{3}); };
    spawn(d); spawn(c);
    vc_join_all();
    VC_ASSERT(n <= 1, "C07: at most once");
    VC_ASSERT(live == 0, "C17: destroyed exactly once");
  }
}
VC_UNIT(drop_task_vs_run, C09_C19_C17) {
  vc_opt("sched_refcount", 1);
  vc_opt("preemptions", 3);
  {
    int n = 0;
    pc::packaged_task<int()> t{[&n, v = Val{3}] { ++n; return v.id; }};
    auto f = t.get_future();
    auto d = [f = std::move(f)]() mutable { auto dead = std::move(f); };
    auto c = [t = std::move(t)]() mutable { t(); };
    spawn(d); spawn(c);
    vc_join_all();
    VC_ASSERT(n <= 1, "C19: at most once");
    VC_ASSERT(live == 0, "C17: destroyed exactly once");
  }
}

// the last future goes away while an exception propagates (or is being handled): cancelled all the same
VC_UNIT(drop_unwinding, C09_C17) {
  {
    int runs = 0, calls = 0, place = vc_choice(3), kind = vc_choice(4);
    bool made = vc_choice(2);
    typename K<Val>::P p;
    typename K<Val>::F f;
    if (made) { auto pf = pc::make_promise<Val>(pc::canceler_arg, [&runs, c = Val{9}] { ++runs; }); p = std::move(pf.first); f = std::move(pf.second); }
    else { p = typename K<Val>::P{pc::canceler_arg, [&runs, c = Val{9}] { ++runs; }}; f = p.get_future(); }
    pc::shared_future<Val> s;
    pc::future<int> g;
    pc::future<void> h;
    if (kind == 1) s = f.share();
    if (kind == 2) g = f.then([&calls, c = Val{3}](pc::future<Val>) { ++calls; return 1; });
    if (kind == 3) h = f.next([&calls, c = Val{3}](Val) { ++calls; });
    auto go = [&] { auto a = std::move(f); auto b = std::move(s); auto c = std::move(g); auto d = std::move(h); };
    struct AtExit { decltype(go) &g; bool on; ~AtExit() { if (on) g(); } };
    try {
      AtExit d{go, place == 0};
      throw boom{77};
    } catch (boom &b) {
      if (place == 1) go();
      VC_ASSERT(b.id == 77, "the propagating exception is not disturbed");
    }
    if (place == 2) go();
    VC_ASSERT(runs == 1, "C09: the cancel action runs once when the result is dropped unset");
    VC_ASSERT(!p.is_awaiten() && calls == 0, "C09: the producer is no longer awaited");
    VC_ASSERT(live == 0, "C09: cancelled functions are destroyed with what they captured");
    p.set_value(Val{1});
    VC_ASSERT(runs == 1 && calls == 0, "C09: at most once");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
