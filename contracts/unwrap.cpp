// Implicit unwrapping: functions that return futures, in every place they can be given.
#include "kit.h"

enum { IN_READY, IN_READY_ERR, IN_PENDING, IN_PENDING_ERR, IN_INVALID, IN_ABANDONED, IN_THROWS, IN_COUNT };

// makes the inner future; `later` completes it when it is pending
template <typename R> struct Inner {
  int kind;
  pc::promise<R> p;
  int id = std::is_void<R>::value ? 0 : 4;
  pc::future<R> make() {
    auto pf = pc::make_promise<R>();
    switch (kind) {
    case IN_READY: K<R>::set(pf.first, id); break;
    case IN_READY_ERR: pf.first.set_exception(mk(1004)); break;
    case IN_INVALID: return {};
    case IN_THROWS: throw boom{2004};
    default: p = std::move(pf.first);
    }
    return std::move(pf.second);
  }
  bool pending() const { return kind == IN_PENDING || kind == IN_PENDING_ERR || kind == IN_ABANDONED; }
  void finish() {
    if (kind == IN_PENDING) K<R>::set(p, id);
    else if (kind == IN_PENDING_ERR) p.set_exception(mk(1004));
    else if (kind == IN_ABANDONED) { auto dead = std::move(p); }
  }
  int want() const {
    switch (kind) {
    case IN_READY: case IN_PENDING: return id;
    case IN_READY_ERR: case IN_PENDING_ERR: return 1004;
    case IN_THROWS: return 2004;
    default: return BROKEN;
    }
  }
};

// checks the outer future, given that the function has just run
template <typename R, typename F> void check_outer(Inner<R> &in, F &g, bool drop) {
  if (in.pending()) {
    VC_ASSERT(!g.is_ready(), "C08: the outer future is not ready before the inner one");
    int notified = 0;
    g.notify([&] { ++notified; });
    if (drop) {
      VC_ASSERT(in.p.is_awaiten(), "C09: the inner promise is awaited through the outer future");
      { auto dead = std::move(g); }
      VC_ASSERT(notified == 0, "C08: nothing runs when the outer future is dropped");
      VC_ASSERT(!in.p.is_awaiten(), "C09: dropping the outer future releases the inner one");
      in.finish();
      VC_ASSERT(notified == 0, "C08: dropping the outer future while the inner one is pending is safe");
      return;
    }
    in.finish();
    VC_ASSERT(notified == 1, "C02: callbacks of the outer future run once");
  }
  VC_ASSERT(g.is_ready(), "C08: the outer future is ready as soon as the inner one is");
  VC_ASSERT(get_code<R>(g) == in.want(), "C08: the outer future has the inner result");
}

enum { BY_THEN, BY_NEXT, BY_ASYNC, BY_TASK, BY_STHEN, BY_SNEXT, BY_COUNT };

template <typename R, bool SharedInner> void unwrap() {
  {
    Inner<R> in;
    in.kind = vc_choice(IN_COUNT);
    int by = vc_choice(BY_COUNT);
    bool drop = vc_choice(2), exec = by == BY_ASYNC || vc_choice(2);
    Exec ex;
    int calls = 0;
    using Fut = std::conditional_t<SharedInner, pc::shared_future<R>, pc::future<R>>;
    auto body = [&]() -> Fut { ++calls; return in.make(); };
    using Out = pc::detail::add_future_t<Fut>;
    Out g;
    auto run = [&] { if (exec) ex.run_all(); };
    switch (by) {
    case BY_THEN: {
      auto pf = pc::make_promise<Val>();
      auto fn = [&](pc::future<Val> f) { return body(); };
      g = exec ? pf.second.then(ex, fn) : pf.second.then(fn);
      VC_ASSERT(!g.is_ready(), "C08: not ready before the function ran");
      pf.first.set_value(Val{1});
      break;
    }
    case BY_NEXT: {
      auto pf = pc::make_promise<Val>();
      auto fn = [&](Val) { return body(); };
      g = exec ? pf.second.next(ex, fn) : pf.second.next(fn);
      pf.first.set_value(Val{1});
      break;
    }
    case BY_STHEN: {
      auto pf = pc::make_promise<Val>();
      auto s = pf.second.share();
      auto fn = [&](pc::shared_future<Val> f) { return body(); };
      g = exec ? s.then(ex, fn) : s.then(fn);
      pf.first.set_value(Val{1});
      break;
    }
    case BY_SNEXT: {
      auto pf = pc::make_promise<Val>();
      auto s = pf.second.share();
      auto fn = [&](const Val &) { return body(); };
      g = exec ? s.next(ex, fn) : s.next(fn);
      pf.first.set_value(Val{1});
      break;
    }
    case BY_ASYNC: g = pc::async(ex, body); break;
    default: {
      pc::packaged_task<Fut()> t{body};
      g = t.get_future();
      t();
      VC_ASSERT(thrown([&] { t(); }) == SATISFIED, "C19: a task runs once");
      break; // the task is destroyed here: a still pending inner future must survive that
    }
    }
    run();
    VC_ASSERT(calls == 1, "C08: the function runs once");
    check_outer<R>(in, g, drop);
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(unwrap_val, C08_C04_C09_C07) { unwrap<Val, false>(); }
VC_UNIT(unwrap_ref, C08_C04_C09_C07) { unwrap<Cell &, false>(); }
VC_UNIT(unwrap_void, C08_C04_C09_C07) { unwrap<void, false>(); }
VC_UNIT(unwrap_sval, C08_C04_C09_C07) { unwrap<Val, true>(); }
VC_UNIT(unwrap_sref, C08_C04_C09_C07) { unwrap<Cell &, true>(); }
VC_UNIT(unwrap_svoid, C08_C04_C09_C07) { unwrap<void, true>(); }

// observers attached to the outer future before its function runs read the inner result
template <typename R, bool SharedInner> void unwrap_observed() {
  {
    Inner<R> in;
    in.kind = vc_choice(IN_COUNT);
    int by = vc_choice(3), how = vc_choice(3), reads = 0, code = -1;
    using Fut = std::conditional_t<SharedInner, pc::shared_future<R>, pc::future<R>>;
    using Out = pc::detail::add_future_t<Fut>;
    auto body = [&]() -> Fut { return in.make(); };
    auto pf = pc::make_promise<Val>();
    Exec ex;
    Out g;
    pc::packaged_task<Fut()> t;
    if (by == 0) g = pf.second.next([&](Val) { return body(); });
    else if (by == 1) g = pc::async(ex, body);
    else { t = pc::packaged_task<Fut()>{body}; g = t.get_future(); }
    pc::future<void> h;
    pc::shared_future<R> sh;
    if (how == 0) h = g.then([&](Out f) { VC_ASSERT(f.is_ready(), "C08: observers run when the outer future is ready"); ++reads; code = get_code<R>(f); });
    else if (how == 1) { sh = std::move(g); sh.notify([&] { VC_ASSERT(sh.is_ready(), "C08: observers run when the outer future is ready"); ++reads; code = get_code<R>(sh); }); }
    else g.notify([&] { VC_ASSERT(g.is_ready(), "C08: observers run when the outer future is ready"); ++reads; code = get_code<R>(g); });
    if (by == 0) pf.first.set_value(Val{1});
    else if (by == 1) ex.run_all();
    else t();
    if (in.pending()) {
      VC_ASSERT(reads == 0, "C08: no observer runs before the inner future is ready");
      in.finish();
    }
    VC_ASSERT(reads == 1 && code == in.want(), "C08: every observer of the outer future sees the inner result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(unwrap_observed_val, C08_C02_C03) { unwrap_observed<Val, false>(); }
VC_UNIT(unwrap_observed_ref, C08_C02_C03) { unwrap_observed<Cell &, false>(); }
VC_UNIT(unwrap_observed_void, C08_C02_C03) { unwrap_observed<void, false>(); }
VC_UNIT(unwrap_observed_sval, C08_C02_C03) { unwrap_observed<Val, true>(); }
VC_UNIT(unwrap_observed_svoid, C08_C02_C03) { unwrap_observed<void, true>(); }

// void parents
VC_UNIT(unwrap_void_parent, C08_C07) {
  {
    Inner<Val> in;
    in.kind = vc_choice(IN_COUNT);
    bool perr = vc_choice(2), sh = vc_choice(2);
    auto pf = pc::make_promise<void>();
    int calls = 0;
    pc::future<Val> g;
    auto fn = [&] { ++calls; return in.make(); };
    if (sh) { auto s = pf.second.share(); g = s.next(fn); } else g = pf.second.next(fn);
    if (perr) pf.first.set_exception(mk(1009)); else pf.first.set_value();
    if (perr) {
      VC_ASSERT(calls == 0 && g.is_ready() && get_code(g) == 1009, "C07: the parent's exception is passed on, the function is not invoked");
    } else {
      VC_ASSERT(calls == 1, "C08: the function runs once");
      check_outer<Val>(in, g, false);
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// an exception of the parent skips unwrapping continuations
template <typename T> void unwrap_parent_error() {
  {
    bool sh = vc_choice(2);
    auto pf = pc::make_promise<T>();
    int calls = 0;
    pc::future<Val> g;
    if (sh) { auto s = pf.second.share(); g = s.next([&](auto &&) { ++calls; return pc::make_ready_future(Val{1}); }); }
    else g = pf.second.next([&](auto &&) { ++calls; return pc::make_ready_future(Val{1}); });
    pf.first.set_exception(mk(1009));
    VC_ASSERT(calls == 0 && g.is_ready() && get_code(g) == 1009, "C07: the parent's exception is passed on, the function is not invoked");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(unwrap_perr_val, C08_C07) { unwrap_parent_error<Val>(); }
VC_UNIT(unwrap_perr_ref, C08_C07) { unwrap_parent_error<Cell &>(); }

// two levels of unwrapping
VC_UNIT(unwrap_nested, C08_C07) {
  {
    auto outer = pc::make_promise<Val>();
    auto mid = pc::make_promise<Val>();
    auto inner = pc::make_promise<Val>();
    auto g = outer.second.next([&](Val v) {
      return mid.second.next([&](Val w) { return std::move(inner.second); });
    });
    int order = vc_choice(3);
    auto so = [&] { outer.first.set_value(Val{1}); };
    auto sm = [&] { mid.first.set_value(Val{2}); };
    auto si = [&] { inner.first.set_value(Val{3}); };
    if (order == 0) { so(); sm(); VC_ASSERT(!g.is_ready(), "C08: not ready before the innermost"); si(); }
    else if (order == 1) { si(); so(); VC_ASSERT(!g.is_ready(), "C08: not ready before the middle one"); sm(); }
    else { si(); sm(); VC_ASSERT(!g.is_ready(), "C08: not ready before the function ran"); so(); }
    VC_ASSERT(g.is_ready() && get_code(g) == 3, "C08: innermost result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// the inner future completes in another thread while the function returns / the outer is waited for
VC_UNIT(unwrap_race, C08_C02_C03) {
  {
    auto inner = pc::make_promise<Val>();
    auto outer = pc::make_promise<Val>();
    int payload = 0;
    auto g = outer.second.next([&](Val) { return std::move(inner.second); });
    auto c1 = [&] { outer.first.set_value(Val{1}); };
    auto c2 = [&] { payload = 6; inner.first.set_value(Val{2}); };
    auto o = [&] { VC_ASSERT(get_code(g) == 2 && payload == 6, "C08: inner result, completely visible"); };
    spawn(c1); spawn(c2); spawn(o);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(unwrap_ready_observer, C08_C03) {
  {
    auto inner = pc::make_promise<Val>();
    auto outer = pc::make_promise<Val>();
    auto g = outer.second.next([&](Val) { return std::move(inner.second); }).share();
    outer.first.set_value(Val{1});
    auto c2 = [&] { inner.first.set_value(Val{2}); };
    auto o = [&] { if (g.is_ready()) VC_ASSERT(get_code(g) == 2, "C08: ready only with the inner result"); };
    spawn(c2); spawn(o);
    vc_join_all();
    VC_ASSERT(g.is_ready() && get_code(g) == 2, "C08: inner result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// the outer future is dropped in one thread while the inner completes in another
VC_UNIT(unwrap_drop_race, C08_C09_C17) {
  vc_opt("sched_refcount", 1);
  {
    auto inner = pc::make_promise<Val>();
    pc::future<Val> g;
    {
      pc::packaged_task<pc::future<Val>()> t{[&] { return std::move(inner.second); }};
      g = t.get_future();
      t();
    }
    auto c = [&] { inner.first.set_value(Val{2}); };
    auto d = [&] { auto dead = std::move(g); };
    spawn(c); spawn(d);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
