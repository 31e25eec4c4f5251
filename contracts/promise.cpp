// promise / future / shared_future handles: one result, broken promises, get and wait, handle state machine.
#include "kit.h"

// ---------------------------------------------------------------------------------------------- C01
// Every pair of attempts to satisfy, on both ways to obtain the pair; the result is the first one, for every id.
template <typename T> void set_twice() {
  {
    using P = typename K<T>::P;
    int a = K<T>::fresh_id(1), b = K<T>::fresh_id(2), ea = 1001, eb = 1002;
    P p;
    typename K<T>::F f;
    bool late = false;
    switch (vc_choice(3)) {
    case 0: { auto pf = pc::make_promise<T>(); p = std::move(pf.first); f = std::move(pf.second); break; }
    case 1: f = p.get_future(); break;
    default: late = true; break; // future retrieved after the promise was satisfied
    }
    int h1 = vc_choice(3), h2 = vc_choice(3);
    int want = h1 == 2 ? ea : a;
    VC_ASSERT(thrown([&] { satisfy<T>(p, h1, a, ea); }) == NOTHROW, "C01: the first attempt to satisfy succeeds");
    if (!late) VC_ASSERT(f.is_ready(), "C01: a satisfied future is ready");
    VC_ASSERT(thrown([&] { satisfy<T>(p, h2, b, eb); }) == SATISFIED, "C01: a later attempt throws promise_already_satisfied");
    if (vc_choice(2)) VC_ASSERT(thrown([&] { satisfy<T>(p, h2, b, eb); }) == SATISFIED, "C01: every later attempt throws");
    if (late) {
      f = p.get_future();
      VC_ASSERT(f.is_ready(), "C01: a future retrieved from a satisfied promise is ready");
      VC_ASSERT(thrown([&] { satisfy<T>(p, h1, b, eb); }) == SATISFIED, "C01: satisfied promise stays satisfied after get_future");
    }
    if (vc_choice(2)) { P q = std::move(p); }
    if (vc_choice(2)) {
      VC_ASSERT(get_code<T>(f) == want, "C01: the reader gets the first value or exception");
      VC_ASSERT(!f.valid(), "C20: future is invalid after get");
    } else {
      auto s = f.share();
      auto s2 = s;
      VC_ASSERT(get_code<T>(s) == want, "C01: shared readers get the first result");
      VC_ASSERT(get_code<T>(s2) == want, "C01: all shared readers get the same result");
      VC_ASSERT(get_code<T>(s) == want, "C01: reading does not change the result");
    }
  }
  VC_ASSERT(live == 0, "C17: no value outlives the handles");
}
VC_UNIT(set_twice_val, C01_C20_C17) { set_twice<Val>(); }
VC_UNIT(set_twice_ref, C01_C20) { set_twice<Cell &>(); }
VC_UNIT(set_twice_void, C01_C20) { set_twice<void>(); }

// Storing a value whose constructor throws
VC_UNIT(set_throwing, C01_C17_C04) {
  {
    auto pf = pc::make_promise<TVal>();
    int a = any_id();
    bool copied = vc_choice(2);
    TVal src{a};
    throw_budget = 1;
    int r = thrown([&] { copied ? pf.first.set_value(static_cast<const TVal &>(src)) : pf.first.set_value(std::move(src)); });
    VC_ASSERT(r == NOTHROW || r == a, "C01: the constructor's exception reaches the caller");
    if (r == NOTHROW) {
      VC_ASSERT(pf.second.is_ready(), "C01: satisfied");
      VC_ASSERT(throw_budget == 1, "C01: no exception was swallowed");
      throw_budget = 0;
    } else {
      VC_ASSERT(!pf.second.is_ready(), "C01: the promise stays unsatisfied when storing the value throws");
      VC_ASSERT(pf.first.is_awaiten(), "C01: the promise stays usable");
      VC_ASSERT(src.is(a), "C01: the source is not damaged by a failed attempt");
      switch (vc_choice(3)) {
      case 0:
        VC_ASSERT(thrown([&] { pf.first.set_value(TVal{a}); }) == NOTHROW, "C01: a failed promise can be satisfied later");
        VC_ASSERT(thrown([&] { pf.first.set_value(TVal{a}); }) == SATISFIED, "C01: but only once");
        break;
      case 1:
        VC_ASSERT(thrown([&] { pf.first.set_exception(mk(1007)); }) == NOTHROW, "C01: a failed promise can be given an exception");
        VC_ASSERT(code([&] { return pf.second.get().id; }) == 1007, "C01: the exception is the result");
        VC_ASSERT(!pf.second.valid(), "C20: future is invalid after get");
        break;
      default: {
        { auto dead = std::move(pf.first); }
        VC_ASSERT(pf.second.is_ready(), "C04: abandoning it breaks the promise");
        VC_ASSERT(code([&] { return pf.second.get().id; }) == BROKEN, "C04: broken_promise");
      }
      }
    }
    if (pf.second.valid()) VC_ASSERT(code([&] { return pf.second.get().id; }) == a, "C01: the reader gets the stored value");
  }
  VC_ASSERT(live == 0, "C17: every object is destroyed exactly once");
}

// satisfying with nobody left to read: no effect, no failure
template <typename T> void set_unread() {
  {
    auto pf = pc::make_promise<T>();
    { auto f = std::move(pf.second); if (vc_choice(2)) { auto s = f.share(); auto s2 = s; } }
    int n = 1 + vc_choice(2);
    while (n--) VC_ASSERT(thrown([&] { satisfy<T>(pf.first, vc_choice(3), 1, 1001); }) == NOTHROW, "C01: satisfying an unobserved promise is harmless");
    VC_ASSERT(!pf.first.is_awaiten(), "C09: nobody awaits a promise whose futures are gone");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(set_unread_val, C01_C09) { set_unread<Val>(); }
VC_UNIT(set_unread_ref, C01_C09) { set_unread<Cell &>(); }
VC_UNIT(set_unread_void, C01_C09) { set_unread<void>(); }

// shared readers see one object, at one address, from any thread, and it is never written again
VC_UNIT(shared_same_object, C01_C03_C05) {
  {
    auto pf = pc::make_promise<Val>();
    auto s = pf.second.share();
    const Val *a[2] = {nullptr, nullptr};
    auto r0 = [&a, s] { const Val &v = s.get(); VC_ASSERT(v.is(9), "C01: reader gets the value"); a[0] = &v; };
    auto r1 = [&a, s] { const Val &v = s.get(); VC_ASSERT(v.is(9), "C01: reader gets the value"); a[1] = &v; };
    auto w = [&pf] { pf.first.set_value(Val{9}); };
    spawn(r0); spawn(r1); spawn(w);
    vc_join_all();
    VC_ASSERT(a[0] && a[0] == a[1] && a[0] == &s.get(), "C01: all readers of a shared result see the same object");
    VC_ASSERT(live == 1, "C01: the result exists once");
  }
  VC_ASSERT(live == 0, "C17: destroyed");
}

// ---------------------------------------------------------------------------------------------- C04
// Every way for a promise to go away, in every state
template <typename T> void abandon() {
  {
    int a = K<T>::fresh_id(1);
    typename K<T>::P p, other;
    typename K<T>::F f;
    if (vc_choice(2)) { auto pf = pc::make_promise<T>(); p = std::move(pf.first); f = std::move(pf.second); }
    else f = p.get_future();
    int notified = 0;
    f.notify([&] { ++notified; });
    bool sat = vc_choice(2);
    if (sat) K<T>::set(p, a);
    // harmless things first
    bool moved = vc_choice(2);
    if (moved) { typename K<T>::P q = std::move(p); p = std::move(q); }
    VC_ASSERT(f.is_ready() == sat, "C04: moving a promise does not break it");
    int keep = 0;
    switch (vc_choice(4)) {
    case 0: { typename K<T>::P dead = std::move(p); break; }
    case 1: p = std::move(other); break;
    case 2: { auto pf2 = pc::make_promise<T>(); p = std::move(pf2.first); VC_ASSERT(f.is_ready(), "C04: assigning over a promise breaks it at once"); break; }
    default: keep = 1; break;
    }
    if (keep) {
      VC_ASSERT(f.is_ready() == sat && notified == (sat ? 1 : 0), "C04: a live promise is not broken");
      VC_ASSERT(thrown([&] { K<T>::set(p, a); }) == (sat ? SATISFIED : NOTHROW), "C04: a live promise stays usable");
      VC_ASSERT(get_code<T>(f) == a, "C04: result undisturbed");
    } else {
      VC_ASSERT(f.is_ready(), "C04: an abandoned promise makes the future ready at once");
      VC_ASSERT(notified == 1, "C02: callbacks of an abandoned promise run once");
      VC_ASSERT(get_code<T>(f) == (sat ? a : BROKEN), "C04: broken_promise iff it was not satisfied");
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(abandon_val, C04_C20_C02) { abandon<Val>(); }
VC_UNIT(abandon_ref, C04_C20) { abandon<Cell &>(); }
VC_UNIT(abandon_void, C04_C20) { abandon<void>(); }

// the promise is destroyed by another thread while the future is waited for
template <typename T> void abandon_race() {
  vc_opt("spurious", 1);
  {
    auto pf = pc::make_promise<T>();
    bool sat = vc_choice(2);
    int got = -7777;
    auto w = [&] { got = get_code<T>(pf.second); };
    auto k = [&] { typename K<T>::P p = std::move(pf.first); if (sat) K<T>::set(p, 1 % (std::is_void<T>::value ? 1 : 2)); };
    spawn(w); spawn(k);
    vc_join_all();
    VC_ASSERT(got == (sat ? (std::is_void<T>::value ? 0 : 1) : BROKEN), "C04: waiter gets the result, or broken_promise if abandoned");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(abandon_race_val, C04_C05) { abandon_race<Val>(); }
VC_UNIT(abandon_race_void, C04_C05) { abandon_race<void>(); }

// promise destroyed while the last future is destroyed by another thread
VC_UNIT(abandon_vs_drop, C04_C09_C17) {
  vc_opt("sched_refcount", 1);
  {
    auto pf = pc::make_promise<Val>();
    bool sat = vc_choice(2);
    auto d = [f = std::move(pf.second)]() mutable { { auto g = std::move(f); } };
    auto k = [p = std::move(pf.first), sat]() mutable { if (sat) p.set_value(Val{4}); { auto q = std::move(p); } };
    spawn(d); spawn(k);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: the value is destroyed exactly once");
}

// ---------------------------------------------------------------------------------------------- C05
template <typename T> void wait_get() {
  vc_opt("spurious", 2);
  {
    auto pf = pc::make_promise<T>();
    int id = std::is_void<T>::value ? 0 : 3;
    bool err = vc_choice(2);
    bool shared = vc_choice(2);
    int want = err ? 1003 : id;
    int got = -7777;
    bool completed = false;
    auto c = [&] { if (err) pf.first.set_exception(mk(1003)); else K<T>::set(pf.first, id); };
    if (!shared) {
      auto w = [&] {
        pf.second.wait();
        VC_ASSERT(pf.second.is_ready() && pf.second.valid(), "C05: wait returns only when the future is ready");
        got = get_code<T>(pf.second);
        VC_ASSERT(!pf.second.valid(), "C05: get leaves the future invalid");
      };
      spawn(c); spawn(w);
      vc_join_all();
    } else {
      auto s = pf.second.share();
      auto w = [&] {
        s.wait();
        VC_ASSERT(s.is_ready(), "C05: wait returns only when the future is ready");
        got = get_code<T>(s);
        VC_ASSERT(s.valid() && get_code<T>(s) == got, "C05: shared get yields the same result every time");
      };
      spawn(c); spawn(w);
      vc_join_all();
    }
    VC_ASSERT(got == want, "C05: get yields the stored value or exception");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(wait_get_val, C05_C03) { wait_get<Val>(); }
VC_UNIT(wait_get_ref, C05) { wait_get<Cell &>(); }
VC_UNIT(wait_get_void, C05) { wait_get<void>(); }

// two waiters on one shared result
VC_UNIT(wait_two, C05_C02) {
  vc_opt("spurious", 1);
  {
    auto pf = pc::make_promise<Val>();
    auto s = pf.second.share();
    auto w1 = [s] { s.wait(); VC_ASSERT(s.get().is(6), "C05: value"); };
    auto w2 = [s] { VC_ASSERT(s.get().is(6), "C05: value"); };
    auto c = [&] { pf.first.set_value(Val{6}); };
    spawn(w1); spawn(w2); spawn(c);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// get moves the value out (no copy is left behind), ready or not
VC_UNIT(get_moves, C05_C01) {
  {
    int a = any_id();
    auto pf = pc::make_promise<Val>();
    pf.first.set_value(Val{a});
    VC_ASSERT(live == 1, "C05: one stored value");
    {
      Val v = pf.second.get();
      VC_ASSERT(v.is(a), "C05: get yields exactly the stored value");
      VC_ASSERT(live == 1, "C05: the value was moved out and the state released");
    }
    VC_ASSERT(live == 0, "C05: gone with its owner");
  }
}
VC_UNIT(get_move_only, C05_C07) {
  auto pf = pc::make_promise<std::unique_ptr<int>>();
  int *raw = new int(5);
  pf.first.set_value(std::unique_ptr<int>(raw));
  if (vc_choice(2)) {
    auto g = pf.second.next([](std::unique_ptr<int> p) { return p; });
    VC_ASSERT(g.get().get() == raw, "C07: next moves the value of a unique parent");
  } else
    VC_ASSERT(pf.second.get().get() == raw, "C05: get moves the stored value out");
}
// values whose move constructor throws while get returns them: the state machine still holds
VC_UNIT(get_throwing_move, C05_C17) {
  {
    auto pf = pc::make_promise<TVal>();
    pf.first.set_value(TVal{4});
    throw_budget = 1;
    int r = code([&] { TVal v = pf.second.get(); return v.id; });
    VC_ASSERT(r == 4, "C05: value or the move's own exception");
    VC_ASSERT(!pf.second.valid(), "C05: get leaves the future invalid");
  }
  VC_ASSERT(live == 0, "C17: destroyed exactly once");
}

// ---------------------------------------------------------------------------------------------- C20
template <typename T, typename F> void no_state_ops(F &f) {
  VC_ASSERT(!f.valid(), "C20: handle without state is invalid");
  VC_ASSERT(thrown([&] { f.wait(); }) == NO_STATE, "C20: wait throws no_state");
  VC_ASSERT(thrown([&] { (void)f.get(); }) == NO_STATE, "C20: get throws no_state");
  VC_ASSERT(thrown([&] { (void)f.is_ready(); }) == NO_STATE, "C20: is_ready throws no_state");
  VC_ASSERT(thrown([&] { f.notify([] { vc_fail("C20: callback of a future without state"); }); }) == NO_STATE, "C20: notify throws no_state");
  VC_ASSERT(thrown([&] { f.notify(Exec{}, [] { vc_fail("C20: callback of a future without state"); }); }) == NO_STATE, "C20: notify(exec) throws no_state");
  VC_ASSERT(thrown([&] { (void)f.detach(); }) == NO_STATE, "C20: detach throws no_state");
  VC_ASSERT(thrown([&] { (void)f.then([](F) { vc_fail("C20: continuation of a future without state"); return 0; }); }) == NO_STATE, "C20: then throws no_state");
  VC_ASSERT(thrown([&] { (void)f.then(Exec{}, [](F) { vc_fail("C20: continuation of a future without state"); return 0; }); }) == NO_STATE, "C20: then(exec) throws no_state");
  VC_ASSERT(thrown([&] { (void)f.then([](pc::promise<int>, F) { vc_fail("C20: continuation of a future without state"); }); }) == NO_STATE, "C20: interruptible then throws no_state");
  VC_ASSERT(thrown([&] { (void)f.wait_for(std::chrono::seconds(1)); }) == NO_STATE, "C20: wait_for throws no_state");
  VC_ASSERT(thrown([&] { (void)f.wait_until(std::chrono::steady_clock::time_point{}); }) == NO_STATE, "C20: wait_until throws no_state");
}
template <typename F> void no_state_next(F &f, int) {
  VC_ASSERT(thrown([&] { (void)f.next([](auto &&) { vc_fail("C20: continuation of a future without state"); return 0; }); }) == NO_STATE, "C20: next throws no_state");
  VC_ASSERT(thrown([&] { (void)f.next(Exec{}, [](auto &&) { vc_fail("C20: continuation of a future without state"); return 0; }); }) == NO_STATE, "C20: next(exec) throws no_state");
}
inline void no_state_next(pc::future<void> &f, char) {
  VC_ASSERT(thrown([&] { (void)f.next([] { vc_fail("C20: continuation of a future without state"); return 0; }); }) == NO_STATE, "C20: next throws no_state");
}
inline void no_state_next(pc::shared_future<void> &f, char) {
  VC_ASSERT(thrown([&] { (void)f.next([] { vc_fail("C20: continuation of a future without state"); return 0; }); }) == NO_STATE, "C20: next throws no_state");
}
template <typename T> void invalid_future() {
  typename K<T>::F f;
  typename K<T>::P p;
  int notified = 0;
  switch (vc_choice(9)) {
  case 0: break;
  case 1: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); p = std::move(pf.first); auto g = std::move(f); break; }
  case 2: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); K<T>::set(pf.first, 0); (void)get_code<T>(f); break; }
  case 3: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); p = std::move(pf.first); auto s = f.share(); VC_ASSERT(s.valid(), "C20: share gives a valid shared_future"); break; }
  case 4: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); p = std::move(pf.first); auto g = f.detach(); VC_ASSERT(g.valid(), "C20: detach returns a valid future"); break; }
  case 5: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); p = std::move(pf.first); auto g = f.then([](typename K<T>::F) {}); VC_ASSERT(g.valid(), "C20: then returns a valid future"); break; }
  case 6: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); p = std::move(pf.first); auto g = f.then(Exec{}, [](pc::promise<int>, typename K<T>::F) {}); VC_ASSERT(g.valid(), "C20: then returns a valid future"); break; }
  case 7: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); p = std::move(pf.first); typename K<T>::F g; g = std::move(f); VC_ASSERT(g.valid() && !g.is_ready(), "C20: move assignment transfers the state"); break; }
  default: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); p = std::move(pf.first); typename K<T>::S s{std::move(f)}; VC_ASSERT(s.valid() && !s.is_ready(), "C20: conversion transfers the state"); break; }
  }
  no_state_ops<T>(f);
  no_state_next(f, 'x');
  (void)notified;
  if (vc_choice(2)) K<T>::set(p, 0);
}
VC_UNIT(invalid_future_val, C20_C05) { invalid_future<Val>(); }
VC_UNIT(invalid_future_ref, C20_C05) { invalid_future<Cell &>(); }
VC_UNIT(invalid_future_void, C20_C05) { invalid_future<void>(); }

template <typename T> void invalid_shared() {
  typename K<T>::S f;
  typename K<T>::P p;
  switch (vc_choice(4)) {
  case 0: break;
  case 1: { auto pf = pc::make_promise<T>(); f = pf.second.share(); p = std::move(pf.first); auto g = std::move(f); break; }
  case 2: { auto pf = pc::make_promise<T>(); f = pf.second.share(); p = std::move(pf.first); auto g = f.detach(); VC_ASSERT(g.valid(), "C20: detach returns a valid future"); break; }
  default: { typename K<T>::F e; f = e.share(); break; }
  }
  no_state_ops<T>(f);
  no_state_next(f, 'x');
  if (vc_choice(2)) K<T>::set(p, 0);
}
VC_UNIT(invalid_shared_val, C20_C05) { invalid_shared<Val>(); }
VC_UNIT(invalid_shared_ref, C20_C05) { invalid_shared<Cell &>(); }
VC_UNIT(invalid_shared_void, C20_C05) { invalid_shared<void>(); }

// next invalidates a unique parent but not a shared one; shared operations leave the handle valid and the result intact
VC_UNIT(next_validity, C20_C07) {
  {
    auto pf = pc::make_promise<Val>();
    if (vc_choice(2)) {
      auto g = pf.second.next([](Val v) { return v; });
      VC_ASSERT(!pf.second.valid() && g.valid() && !g.is_ready(), "C20: next consumes the future");
      pf.first.set_value(Val{2});
      VC_ASSERT(g.get().is(2), "C07: value");
    } else {
      auto s = pf.second.share();
      VC_ASSERT(!pf.second.valid() && s.valid(), "C20: share moves the state");
      auto g = s.next([](const Val &v) { return v.id + 1; });
      auto h = s.then([](pc::shared_future<Val> q) { return q.get().id + 2; });
      auto c = s;
      s.notify([] {});
      VC_ASSERT(s.valid() && c.valid() && !s.is_ready() && !c.is_ready(), "C20: shared futures stay valid");
      pf.first.set_value(Val{2});
      VC_ASSERT(s.is_ready() && c.is_ready() && s.get().is(2) && &c.get() == &s.get(), "C20: copies refer to the same result");
      VC_ASSERT(g.get() == 3 && h.get() == 4, "C07: each continuation gets the value");
      VC_ASSERT(s.get().is(2), "C07: a shared parent is not consumed");
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

template <typename T> void promise_states() {
  typename K<T>::P p;
  int how = vc_choice(4);
  switch (how) {
  case 0: { // moved-from by construction
    typename K<T>::P q = std::move(p);
    break;
  }
  case 1: { typename K<T>::P q; q = std::move(p); break; }
  case 2: { auto pf = pc::make_promise<T>(); p = std::move(pf.first); typename K<T>::P q = std::move(p); break; }
  default: { auto f = p.get_future(); typename K<T>::P q = std::move(p); break; }
  }
  VC_ASSERT(thrown([&] { K<T>::set(p, 0); }) == NO_STATE, "C20: set_value on a moved-from promise throws no_state");
  VC_ASSERT(thrown([&] { K<T>::set_copy(p, 0); }) == NO_STATE, "C20: set_value on a moved-from promise throws no_state");
  VC_ASSERT(thrown([&] { p.set_exception(mk(1)); }) == NO_STATE, "C20: set_exception on a moved-from promise throws no_state");
  VC_ASSERT(thrown([&] { (void)p.get_future(); }) == NO_STATE, "C20: get_future on a moved-from promise throws no_state");
  VC_ASSERT(thrown([&] { (void)p.is_awaiten(); }) == NO_STATE, "C20: is_awaiten on a moved-from promise throws no_state");
  // and it can be given a new state
  auto pf = pc::make_promise<T>();
  p = std::move(pf.first);
  VC_ASSERT(thrown([&] { (void)p.get_future(); }) == RETRIEVED, "C20: make_promise's future counts as retrieved");
  VC_ASSERT(p.is_awaiten() && pf.second.valid() && !pf.second.is_ready(), "C20: make_promise returns a pending pair");
  K<T>::set(p, 0);
  VC_ASSERT(pf.second.is_ready() && get_code<T>(pf.second) == 0, "C20: linked pair");
  VC_ASSERT(!p.is_awaiten(), "C09: nobody awaits once the future was consumed");
}
VC_UNIT(promise_states_val, C20_C09) { promise_states<Val>(); }
VC_UNIT(promise_states_ref, C20_C09) { promise_states<Cell &>(); }
VC_UNIT(promise_states_void, C20_C09) { promise_states<void>(); }

template <typename T> void retrieve_once() {
  typename K<T>::P p;
  VC_ASSERT(p.is_awaiten(), "C09: a future can still be retrieved");
  bool early = vc_choice(2);
  if (early) K<T>::set(p, 0);
  auto f = p.get_future();
  VC_ASSERT(f.valid() && f.is_ready() == early, "C20: get_future gives the pending or ready future");
  VC_ASSERT(thrown([&] { (void)p.get_future(); }) == RETRIEVED, "C20: the future is handed out once");
  if (vc_choice(2)) { auto dead = std::move(f); }
  VC_ASSERT(thrown([&] { (void)p.get_future(); }) == RETRIEVED, "C20: also after the future is gone");
  typename K<T>::P q = std::move(p);
  VC_ASSERT(thrown([&] { (void)q.get_future(); }) == RETRIEVED, "C20: also after moving the promise");
}
VC_UNIT(retrieve_once_val, C20) { retrieve_once<Val>(); }
VC_UNIT(retrieve_once_ref, C20) { retrieve_once<Cell &>(); }
VC_UNIT(retrieve_once_void, C20) { retrieve_once<void>(); }

VC_UNIT(factories, C20_C01) {
  {
    int a = any_id();
    auto f = pc::make_ready_future(Val{a});
    VC_ASSERT(f.valid() && f.is_ready() && get_code(f) == a, "C20: make_ready_future(value)");
    Val v{a};
    auto fc = pc::make_ready_future(v);
    VC_ASSERT(v.is(a) && fc.is_ready() && get_code(fc) == a, "C20: make_ready_future(lvalue) copies");
    auto fr = pc::make_ready_future(std::ref(cells[3]));
    VC_ASSERT(fr.is_ready() && &fr.get() == &cells[3], "C20: make_ready_future(reference_wrapper)");
    auto fv = pc::make_ready_future();
    VC_ASSERT(fv.valid() && fv.is_ready() && get_code(fv) == 0, "C20: make_ready_future()");
    auto e1 = pc::make_exceptional_future<Val>(mk(1009));
    VC_ASSERT(e1.valid() && e1.is_ready() && get_code(e1) == 1009, "C20: make_exceptional_future(exception_ptr)");
    auto e2 = pc::make_exceptional_future<void>(boom{1010});
    VC_ASSERT(e2.valid() && e2.is_ready() && get_code(e2) == 1010, "C20: make_exceptional_future(exception)");
    auto e3 = pc::make_exceptional_future<Cell &>(boom{1011});
    VC_ASSERT(e3.valid() && e3.is_ready() && get_code(e3) == 1011, "C20: make_exceptional_future(exception)");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

template <typename T> struct K2 {
  template <typename F> static int of(F &&f) { auto &&r = f(); return K<T>::of(const_cast<std::remove_const_t<std::remove_reference_t<decltype(r)>> &>(r)); }
};
template <> struct K2<void> {
  template <typename F> static int of(F &&f) { f(); return 0; }
};
// function objects for algorithms: same as the member functions
template <typename T> void adapters() {
  {
    auto pf = pc::make_promise<T>();
    auto &f = pf.second;
    const auto &cf = f;
    int how = vc_choice(3);
    VC_ASSERT(!pc::future_ready(cf), "C20: future_ready says pending");
    int want = satisfy<T>(pf.first, how, K<T>::fresh_id(3), 1003);
    VC_ASSERT(pc::future_ready(cf) && f.valid(), "C20: future_ready says ready and changes nothing");
    if (vc_choice(2)) {
      pc::shared_future<T> s = f.share();
      VC_ASSERT(pc::future_ready(s), "C20: future_ready of a shared_future");
      for (int i = 0; i < 2; ++i) {
        int r = code([&] { return K2<T>::of([&]() -> decltype(auto) { return pc::future_get(s); }); });
        VC_ASSERT(r == want && s.valid(), "C05: future_get delivers the result and leaves a shared_future usable");
      }
    } else {
      int r = code([&] { return K2<T>::of([&]() -> decltype(auto) { return pc::future_get(f); }); });
      VC_ASSERT(r == want && !f.valid(), "C05: future_get delivers the result and consumes the future");
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(adapters_val, C20_C05) { adapters<Val>(); }
VC_UNIT(adapters_ref, C20_C05) { adapters<Cell &>(); }
VC_UNIT(adapters_void, C20_C05) { adapters<void>(); }
