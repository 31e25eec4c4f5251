// then / next / notify: what the continuation gets, what the returned future gets, through which executor it runs.
#include "kit.h"

// where the attach happens and how it is run
enum { INPLACE, EXEC };

// result kinds of the continuation
template <typename R> struct Ret { // produces R from id, or throws
  static R go(int id, bool th) { if (th) throw boom{id + 2000}; return K<R>::make(id); }
};
template <> struct Ret<void> {
  static void go(int id, bool th) { if (th) throw boom{id + 2000}; }
};
template <typename R> int want_of(int id, bool th) { return th ? id + 2000 : std::is_void<R>::value ? 0 : id; }

struct Ctl {          // what the environment decides for one run
  bool parent_err;    // parent completes with an exception
  bool before;        // parent completes before attaching
  bool fthrows;       // continuation throws
  bool exec;          // attached with an executor
};
inline Ctl ctl() { Ctl c; c.parent_err = vc_choice(2); c.before = vc_choice(2); c.fthrows = vc_choice(2); c.exec = vc_choice(2); return c; }

// ---- then on future
template <typename T, typename R> void then_unique() {
  {
    Ctl c = ctl();
    int id = std::is_void<T>::value ? 0 : 3;
    auto pf = pc::make_promise<T>();
    Exec ex;
    int calls = 0;
    auto complete = [&] { if (c.parent_err) pf.first.set_exception(mk(1005)); else K<T>::set(pf.first, id); };
    if (c.before) complete();
    auto fn = [&, cap = Val{40}](pc::future<T> f) -> R {
      ++calls;
      VC_ASSERT(cap.is(40), "C10: the function is delivered intact");
      VC_ASSERT(f.valid() && f.is_ready(), "C07: then receives a ready parent");
      VC_ASSERT(!c.exec || ex.q->inside, "C10: runs only from the task posted to the executor");
      VC_ASSERT(get_code<T>(f) == (c.parent_err ? 1005 : id), "C07: then receives the parent's result");
      return Ret<R>::go(5, c.fthrows);
    };
    pc::future<R> g = c.exec ? pf.second.then(ex, std::move(fn)) : pf.second.then(std::move(fn));
    VC_ASSERT(!pf.second.valid() && g.valid(), "C20: then consumes the future");
    if (!c.before) {
      VC_ASSERT(calls == 0 && ex.q->posted == 0 && !g.is_ready(), "C10: nothing is posted or run before the parent is ready");
      complete();
    }
    if (c.exec) {
      VC_ASSERT(ex.q->posted == 1 && calls == 0 && !g.is_ready(), "C10: exactly one task is posted, not run in place");
      ex.run_all();
    }
    VC_ASSERT(calls == 1, "C07: the continuation runs exactly once");
    VC_ASSERT(ex.q->posted == (c.exec ? 1 : 0), "C10: one post per continuation");
    VC_ASSERT(g.is_ready(), "C07: the returned future is ready once the continuation ran");
    VC_ASSERT(get_code<R>(g) == want_of<R>(5, c.fthrows), "C07: it holds the value returned or the exception thrown");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// ---- then on shared_future
template <typename T, typename R> void then_shared() {
  {
    Ctl c = ctl();
    int id = std::is_void<T>::value ? 0 : 3;
    auto pf = pc::make_promise<T>();
    const pc::shared_future<T> s = pf.second.share();
    Exec ex;
    int calls = 0;
    auto complete = [&] { if (c.parent_err) pf.first.set_exception(mk(1005)); else K<T>::set(pf.first, id); };
    if (c.before) complete();
    auto fn = [&, cap = Val{40}](pc::shared_future<T> f) -> R {
      ++calls;
      VC_ASSERT(cap.is(40), "C10: the function is delivered intact");
      VC_ASSERT(f.valid() && f.is_ready(), "C07: then receives a ready parent");
      VC_ASSERT(!c.exec || ex.q->inside, "C10: runs only from the task posted to the executor");
      VC_ASSERT(get_code<T>(f) == (c.parent_err ? 1005 : id), "C07: then receives the parent's result");
      return Ret<R>::go(5, c.fthrows);
    };
    pc::future<R> g = c.exec ? s.then(ex, std::move(fn)) : s.then(std::move(fn));
    VC_ASSERT(s.valid() && g.valid(), "C20: a shared future stays valid");
    if (!c.before) {
      VC_ASSERT(calls == 0 && ex.q->posted == 0 && !g.is_ready(), "C10: nothing is posted or run before the parent is ready");
      complete();
    }
    if (c.exec) {
      VC_ASSERT(ex.q->posted == 1 && calls == 0 && !g.is_ready(), "C10: exactly one task is posted, not run in place");
      ex.run_all();
    }
    VC_ASSERT(calls == 1 && ex.q->posted == (c.exec ? 1 : 0), "C10: one post, one call");
    VC_ASSERT(g.is_ready(), "C07: the returned future is ready once the continuation ran");
    VC_ASSERT(get_code<R>(g) == want_of<R>(5, c.fthrows), "C07: it holds the value returned or the exception thrown");
    VC_ASSERT(get_code<T>(s) == (c.parent_err ? 1005 : id), "C07: a shared parent is not consumed or altered");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// ---- next: argument adaptors
template <typename T, typename R, typename B> struct NextFn {
  B body;
  R operator()(T v) const { return body(K<T>::of(v)); }
};
template <typename R, typename B> struct NextFn<Val, R, B> {
  B body;
  R operator()(Val v) const { return body(v.tag == ALIVE ? v.id : BAD_OBJ); }
};
template <typename R, typename B> struct NextFn<void, R, B> {
  B body;
  R operator()() const { return body(0); }
};
template <typename T, typename R, typename B> struct SharedNextFn {
  B body;
  R operator()(T v) const { return body(K<T>::of(v)); }
};
template <typename R, typename B> struct SharedNextFn<Val, R, B> {
  B body;
  R operator()(const Val &v) const { return body(v.tag == ALIVE ? v.id : BAD_OBJ); }
};
template <typename R, typename B> struct SharedNextFn<void, R, B> {
  B body;
  R operator()() const { return body(0); }
};

template <typename T, typename R> void next_unique() {
  {
    Ctl c = ctl();
    int id = std::is_void<T>::value ? 0 : 3;
    auto pf = pc::make_promise<T>();
    Exec ex;
    int calls = 0;
    auto complete = [&] { if (c.parent_err) pf.first.set_exception(mk(1005)); else K<T>::set(pf.first, id); };
    if (c.before) complete();
    auto body = [&](int got) -> R {
      ++calls;
      VC_ASSERT(!c.exec || ex.q->inside, "C10: runs only from the task posted to the executor");
      VC_ASSERT(got == id, "C07: next receives exactly the parent's value");
      return Ret<R>::go(5, c.fthrows);
    };
    NextFn<T, R, decltype(body)> fn{body};
    pc::future<R> g = c.exec ? pf.second.next(ex, fn) : pf.second.next(fn);
    VC_ASSERT(!pf.second.valid() && g.valid(), "C20: next consumes the future");
    if (!c.before) {
      VC_ASSERT(calls == 0 && ex.q->posted == 0 && !g.is_ready(), "C10: nothing is posted or run before the parent is ready");
      complete();
    }
    if (c.exec) {
      VC_ASSERT(calls == 0 && ex.q->posted <= 1, "C10: at most one task is posted, not run in place");
      ex.run_all();
    }
    VC_ASSERT(calls == (c.parent_err ? 0 : 1), "C07: next is invoked exactly once, and not when the parent holds an exception");
    VC_ASSERT(g.is_ready(), "C07: the returned future is ready");
    VC_ASSERT(get_code<R>(g) == (c.parent_err ? 1005 : want_of<R>(5, c.fthrows)), "C07: result, own exception, or the parent's exception unchanged");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
template <typename T, typename R> void next_shared() {
  {
    Ctl c = ctl();
    int id = std::is_void<T>::value ? 0 : 3;
    auto pf = pc::make_promise<T>();
    const pc::shared_future<T> s = pf.second.share();
    Exec ex;
    int calls = 0;
    auto complete = [&] { if (c.parent_err) pf.first.set_exception(mk(1005)); else K<T>::set(pf.first, id); };
    if (c.before) complete();
    auto body = [&](int got) -> R {
      ++calls;
      VC_ASSERT(!c.exec || ex.q->inside, "C10: runs only from the task posted to the executor");
      VC_ASSERT(got == id, "C07: next receives exactly the parent's value");
      return Ret<R>::go(5, c.fthrows);
    };
    SharedNextFn<T, R, decltype(body)> fn{body};
    pc::future<R> g = c.exec ? s.next(ex, fn) : s.next(fn);
    VC_ASSERT(s.valid() && g.valid(), "C20: a shared future stays valid");
    if (!c.before) {
      VC_ASSERT(calls == 0 && ex.q->posted == 0 && !g.is_ready(), "C10: nothing is posted or run before the parent is ready");
      complete();
    }
    if (c.exec) {
      VC_ASSERT(calls == 0 && ex.q->posted <= 1, "C10: at most one task is posted, not run in place");
      ex.run_all();
    }
    VC_ASSERT(calls == (c.parent_err ? 0 : 1), "C07: next is invoked exactly once, and not when the parent holds an exception");
    VC_ASSERT(get_code<R>(g) == (c.parent_err ? 1005 : want_of<R>(5, c.fthrows)), "C07: result, own exception, or the parent's exception unchanged");
    VC_ASSERT(get_code<T>(s) == (c.parent_err ? 1005 : id), "C07: a shared parent is not consumed or altered");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(then_unique_vv, C07_C10_C20) { then_unique<Val, Val>(); }
VC_UNIT(then_unique_vr, C07_C10) { then_unique<Val, Cell &>(); }
VC_UNIT(then_unique_v0, C07_C10) { then_unique<Val, void>(); }
VC_UNIT(then_unique_rv, C07_C10) { then_unique<Cell &, Val>(); }
VC_UNIT(then_unique_0v, C07_C10) { then_unique<void, Val>(); }
VC_UNIT(then_unique_00, C07_C10) { then_unique<void, void>(); }
VC_UNIT(then_shared_vv, C07_C10_C20) { then_shared<Val, Val>(); }
VC_UNIT(then_shared_vr, C07_C10) { then_shared<Val, Cell &>(); }
VC_UNIT(then_shared_r0, C07_C10) { then_shared<Cell &, void>(); }
VC_UNIT(then_shared_0v, C07_C10) { then_shared<void, Val>(); }
VC_UNIT(next_unique_vv, C07_C10_C20) { next_unique<Val, Val>(); }
VC_UNIT(next_unique_vr, C07_C10) { next_unique<Val, Cell &>(); }
VC_UNIT(next_unique_v0, C07_C10) { next_unique<Val, void>(); }
VC_UNIT(next_unique_rv, C07_C10) { next_unique<Cell &, Val>(); }
VC_UNIT(next_unique_r0, C07_C10) { next_unique<Cell &, void>(); }
VC_UNIT(next_unique_0v, C07_C10) { next_unique<void, Val>(); }
VC_UNIT(next_unique_0r, C07_C10) { next_unique<void, Cell &>(); }
VC_UNIT(next_unique_00, C07_C10) { next_unique<void, void>(); }
VC_UNIT(next_shared_vv, C07_C10_C20) { next_shared<Val, Val>(); }
VC_UNIT(next_shared_vr, C07_C10) { next_shared<Val, Cell &>(); }
VC_UNIT(next_shared_v0, C07_C10) { next_shared<Val, void>(); }
VC_UNIT(next_shared_rv, C07_C10) { next_shared<Cell &, Val>(); }
VC_UNIT(next_shared_0v, C07_C10) { next_shared<void, Val>(); }
VC_UNIT(next_shared_00, C07_C10) { next_shared<void, void>(); }

// ---- interruptible then: the continuation gets the promise
template <typename T, typename R, bool Shared> void then_promise() {
  {
    bool perr = vc_choice(2), before = vc_choice(2), exec = vc_choice(2);
    int act = vc_choice(4); // 0 set value, 1 set exception, 2 drop the promise, 3 keep it for later
    int id = std::is_void<T>::value ? 0 : 3, rid = std::is_void<R>::value ? 0 : 5;
    auto pf = pc::make_promise<T>();
    Exec ex;
    int calls = 0;
    pc::promise<R> kept;
    auto complete = [&] { if (perr) pf.first.set_exception(mk(1005)); else K<T>::set(pf.first, id); };
    if (before) complete();
    using F = std::conditional_t<Shared, pc::shared_future<T>, pc::future<T>>;
    F parent{std::move(pf.second)};
    F copy;
    if constexpr (Shared) copy = parent;
    auto fn = [&](pc::promise<R> p, F f) {
      ++calls;
      VC_ASSERT(!exec || ex.q->inside, "C10: runs only from the task posted to the executor");
      VC_ASSERT(f.valid() && f.is_ready() && get_code<T>(f) == (perr ? 1005 : id), "C07: then receives the ready parent");
      VC_ASSERT(p.is_awaiten(), "C09: the result is awaited while a future for it exists");
      if (act == 0) K<R>::set(p, rid);
      else if (act == 1) p.set_exception(mk(1006));
      else if (act == 3) kept = std::move(p);
    };
    pc::future<R> g = exec ? parent.then(ex, fn) : parent.then(fn);
    VC_ASSERT(g.valid(), "C20: then returns a valid future");
    if (!before) { VC_ASSERT(calls == 0 && ex.q->posted == 0 && !g.is_ready(), "C10: not before the parent is ready"); complete(); }
    if (exec) { VC_ASSERT(calls == 0 && ex.q->posted == 1, "C10: one task posted"); ex.run_all(); }
    VC_ASSERT(calls == 1, "C07: exactly once");
    if (act == 3) {
      VC_ASSERT(!g.is_ready() && kept.is_awaiten(), "C07: pending until the promise is used");
      K<R>::set(kept, rid);
    }
    VC_ASSERT(g.is_ready(), "C07: ready once the promise was used or dropped");
    VC_ASSERT(get_code<R>(g) == (act == 1 ? 1006 : act == 2 ? BROKEN : rid), "C07: the promise given to the continuation sets the result");
    if (Shared) VC_ASSERT(get_code<T>(copy) == (perr ? 1005 : id), "C07: a shared parent is not consumed");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(then_promise_vv, C07_C10_C04) { then_promise<Val, Val, false>(); }
VC_UNIT(then_promise_r0, C07_C10_C04) { then_promise<Cell &, void, false>(); }
VC_UNIT(then_promise_0v, C07_C10_C04) { then_promise<void, Val, false>(); }
VC_UNIT(then_promise_svv, C07_C10_C04) { then_promise<Val, Val, true>(); }
VC_UNIT(then_promise_s0r, C07_C10_C04) { then_promise<void, Cell &, true>(); }

// an exception escaping an interruptible continuation terminates the program
VC_UNIT(then_promise_throws, C07) {
  vc_opt("expect_terminate", 1);
  vc_opt("leaks_ok", 1);
  auto pf = pc::make_promise<Val>();
  auto g = pf.second.then([](pc::promise<int>, pc::future<Val>) { throw boom{1}; });
  pf.first.set_value(Val{1});
  vc_fail("C07: an exception leaving an interruptible continuation must terminate");
}

// ---- notify with an executor
template <typename F> void notify_exec(bool shared) {
  {
    auto pf = pc::make_promise<Val>();
    F f{std::move(pf.second)};
    Exec ex;
    bool before = vc_choice(2);
    int calls = 0;
    if (before) pf.first.set_value(Val{1});
    auto body = [&] { ++calls; VC_ASSERT(ex.q->inside, "C10: runs only inside the posted task"); VC_ASSERT(f.is_ready(), "C02: only when ready"); };
    f.notify(ex, [&body, cap = Val{7}] { VC_ASSERT(cap.is(7), "C10: delivered intact"); body(); });
    if (!before) { VC_ASSERT(ex.q->posted == 0 && calls == 0, "C10: not posted before the future is ready"); pf.first.set_value(Val{1}); }
    VC_ASSERT(ex.q->posted == 1 && calls == 0, "C10: posted exactly once, not run in place");
    if (vc_choice(2)) { ex.run_all(); VC_ASSERT(calls == 1, "C10: the task runs the function once"); }
    else { ex.drop_all(); VC_ASSERT(calls == 0, "C10: a dropped task never runs the function"); }
    VC_ASSERT(live == 1, "C17: the callback is gone, the result is kept");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(notify_exec_unique, C10_C02) { notify_exec<pc::future<Val>>(false); }
VC_UNIT(notify_exec_shared, C10_C02) { notify_exec<pc::shared_future<Val>>(true); }

// ---- chains: each link gets the previous result, exceptions skip next links and reach then links
VC_UNIT(chain, C07_C10) {
  {
    auto pf = pc::make_promise<Val>();
    bool err = vc_choice(2);
    int thrower = vc_choice(3); // which link throws, if it runs
    int n1 = 0, n2 = 0, n3 = 0;
    auto g = pf.second
                 .next([&](Val v) { ++n1; if (thrower == 1) throw boom{2001}; return v.id + 1; })
                 .next([&](int v) { ++n2; if (thrower == 2) throw boom{2002}; return v + 1; })
                 .then([&](pc::future<int> f) { ++n3; return code([&] { return f.get(); }); });
    if (err) pf.first.set_exception(mk(1001)); else pf.first.set_value(Val{10});
    VC_ASSERT(n1 == !err && n2 == (!err && thrower != 1) && n3 == 1, "C07: exceptions skip next but not then");
    VC_ASSERT(g.get() == (err ? 1001 : thrower == 1 ? 2001 : thrower == 2 ? 2002 : 12), "C07: results and exceptions propagate");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// ---- continuation attached from one thread while another completes; run on an executor thread
VC_UNIT(then_race, C07_C02_C03) {
  {
    auto pf = pc::make_promise<Val>();
    int calls = 0;
    pc::future<int> g;
    auto a = [&] { g = pf.second.then([&](pc::future<Val> f) { ++calls; return f.get().id; }); };
    auto c = [&] { pf.first.set_value(Val{8}); };
    spawn(a); spawn(c);
    vc_join_all();
    VC_ASSERT(calls == 1 && g.is_ready() && g.get() == 8, "C07: exactly once whatever the schedule");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
template <bool Wait> void next_shared_race() {
  {
    auto pf = pc::make_promise<Val>();
    auto s = pf.second.share();
    pc::future<int> ga, gb;
    auto a = [s, &ga] { ga = s.next([](const Val &v) { return v.id; }); if (Wait) VC_ASSERT(ga.get() == 8, "C07: value"); };
    auto b = [s, &gb] { gb = s.then([](pc::shared_future<Val> v) { return v.get().id; }); if (Wait) VC_ASSERT(gb.get() == 8, "C07: value"); };
    auto c = [&] { pf.first.set_value(Val{8}); };
    spawn(a); spawn(b); spawn(c);
    vc_join_all();
    if (!Wait) {
      VC_ASSERT(ga.is_ready() && gb.is_ready(), "C02: continuations attached while the parent becomes ready are executed");
      VC_ASSERT(ga.get() == 8 && gb.get() == 8, "C07: value");
    }
    VC_ASSERT(s.get().is(8), "C07: a shared parent is not consumed");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(next_shared_race, C07_C02_C03) { next_shared_race<false>(); }
VC_UNIT_T(next_shared_race_wait, C07_C02_C03) { next_shared_race<true>(); }

// next on a shared_future, for functions that take the value by value, const reference or deduced reference and return a value
// or a future: several continuations of one parent all see the same, untouched object
template <typename R, bool Fut> struct SnRet { using type = R; static R go(int id) { return K<R>::make(id); } };
template <typename R> struct SnRet<R, true> { using type = pc::future<R>; static type go(int id) { auto pf = pc::make_promise<R>(); K<R>::set(pf.first, id); return std::move(pf.second); } };
template <> struct SnRet<void, false> { using type = void; static void go(int) {} };
template <typename R, bool Fut> void next_shared_forms() {
  {
    using Q = SnRet<R, Fut>;
    int id = any_id(), rid = std::is_void<R>::value ? 0 : 5;
    auto pf = pc::make_promise<Val>();
    pc::shared_future<Val> s = pf.second.share();
    const Val *obj = nullptr;
    Exec ex;
    bool exec = vc_choice(2), before = vc_choice(2);
    int calls = 0;
    if (before) pf.first.set_value(Val{id});
    auto byval = [&](Val v) -> typename Q::type { ++calls; VC_ASSERT(v.is(id), "C07: next receives exactly the parent's value"); v.id = -7; return Q::go(rid); };
    auto byref = [&](const Val &v) -> typename Q::type { ++calls; VC_ASSERT(v.is(id) && (!obj || obj == &v), "C07: next receives the parent's object"); obj = &v; return Q::go(rid); };
    auto bydeduced = [&](auto &&v) -> typename Q::type {
      ++calls;
      VC_ASSERT(v.is(id), "C07: next receives exactly the parent's value");
      Val mine{std::forward<decltype(v)>(v)}; // a function may move from what it is given as an rvalue
      mine.id = -8;
      return Q::go(rid);
    };
    auto attach = [&](auto &fn) { return exec ? s.next(ex, fn) : s.next(fn); };
    pc::future<R> a, b, c, d;
    switch (vc_choice(3)) {
    case 0: a = attach(byval); b = attach(bydeduced); c = attach(byref); d = attach(byval); break;
    case 1: a = attach(bydeduced); b = attach(byref); c = attach(byval); d = attach(bydeduced); break;
    default: a = attach(byref); b = attach(byval); c = attach(bydeduced); d = attach(byref); break;
    }
    pc::shared_future<Val> t = s;
    if (!before) { VC_ASSERT(calls == 0, "C07: not before the parent is ready"); pf.first.set_value(Val{id}); }
    if (exec) { VC_ASSERT(calls == 0 && ex.q->posted == 4, "C10: one task per continuation"); ex.run_all(); }
    VC_ASSERT(calls == 4, "C07: every continuation runs once");
    VC_ASSERT(get_code<R>(a) == rid && get_code<R>(b) == rid && get_code<R>(c) == rid && get_code<R>(d) == rid, "C07: results delivered");
    VC_ASSERT(s.valid() && t.valid() && s.get().is(id) && t.get().is(id), "C07: a shared parent is not consumed or altered");
    VC_ASSERT(&s.get() == &t.get() && (!obj || &s.get() == obj), "C05: one stored object");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(next_shared_forms_v, C07_C10) { next_shared_forms<Val, false>(); }
VC_UNIT(next_shared_forms_0, C07) { next_shared_forms<void, false>(); }
VC_UNIT(next_shared_forms_r, C07) { next_shared_forms<Cell &, false>(); }
VC_UNIT(next_shared_forms_fv, C07_C08) { next_shared_forms<Val, true>(); }
VC_UNIT(next_shared_forms_f0, C07_C08) { next_shared_forms<void, true>(); }
VC_UNIT(next_shared_forms_fr, C07_C08) { next_shared_forms<Cell &, true>(); }

// then on a shared_future: several continuations of one parent, by value / returning futures; the parent stays usable
template <typename R, bool Fut> void then_shared_forms() {
  {
    using Q = SnRet<R, Fut>;
    int id = any_id(), rid = std::is_void<R>::value ? 0 : 5;
    auto pf = pc::make_promise<Val>();
    pc::shared_future<Val> s = pf.second.share();
    bool before = vc_choice(2), lv = vc_choice(2);
    int calls = 0;
    if (before) pf.first.set_value(Val{id});
    auto fn = [&](pc::shared_future<Val> f) -> typename Q::type { ++calls; VC_ASSERT(f.valid() && f.is_ready() && f.get().is(id), "C07: then receives the parent"); Val cp = f.get(); cp.id = -3; f = {}; return Q::go(rid); };
    auto fr = [&](auto &&f) -> typename Q::type { ++calls; pc::shared_future<Val> m{std::forward<decltype(f)>(f)}; VC_ASSERT(m.valid() && m.get().is(id), "C07: then receives the parent"); return Q::go(rid); };
    auto fun = [&](pc::shared_future<Val> f) -> typename Q::type { return fr(std::move(f)); };
    pc::future<R> a = lv ? s.then(fn) : s.then(fun);
    pc::future<R> b = s.then(fn);
    if (!before) { VC_ASSERT(calls == 0, "C07: not before the parent is ready"); pf.first.set_value(Val{id}); }
    VC_ASSERT(calls == 2, "C07: every continuation runs once");
    VC_ASSERT(get_code<R>(a) == rid && get_code<R>(b) == rid, "C07: results delivered");
    VC_ASSERT(s.valid() && s.get().is(id), "C07: a shared parent is not consumed or altered");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(then_shared_forms_v, C07) { then_shared_forms<Val, false>(); }
VC_UNIT(then_shared_forms_0, C07) { then_shared_forms<void, false>(); }
VC_UNIT(then_shared_forms_fv, C07_C08) { then_shared_forms<Val, true>(); }
VC_UNIT(then_shared_forms_fr, C07_C08) { then_shared_forms<Cell &, true>(); }

// move-only and throwing-move continuation results
VC_UNIT(next_throwing_result, C07_C17) {
  {
    auto pf = pc::make_promise<Val>();
    pf.first.set_value(Val{1});
    throw_budget = 0;
    auto g = pf.second.next([](Val v) { return TVal{v.id + 1}; });
    VC_ASSERT(g.is_ready() && code([&] { return g.get().id; }) == 2, "C07: result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// continuation functor kinds: function pointers, member functions, mutable functors, big functors
static int plain_next(Val v) { return v.id + 100; }
struct Obj { int k; int mem(Val v) { return v.id + k; } };
VC_UNIT(next_functors, C07_C10) {
  {
    auto pf = pc::make_promise<Val>();
    pc::future<int> g;
    switch (vc_choice(3)) {
    case 0: g = pf.second.next(&plain_next); break;
    case 1: g = pf.second.next([k = 100](Val v) mutable { k += v.id; return k; }); break;
    default: { struct big { long x[20]; Val keep; int operator()(Val v) { return v.id + int(x[19]) + keep.id; } }; big b{{}, Val{50}}; b.x[19] = 50; g = pf.second.next(std::move(b)); }
    }
    pf.first.set_value(Val{1});
    VC_ASSERT(g.get() == 101, "C07: the given function is called");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
