// packaged_task and async.
#include "kit.h"

template <typename R> struct Fn {
  int *calls;
  bool th;
  Val cap{40};
  R operator()(int a, Val b) {
    ++*calls;
    VC_ASSERT(cap.is(40), "C19: the function is intact");
    VC_ASSERT(a == 11 && b.is(12), "C19: the arguments are passed unchanged");
    if (th) throw boom{2005};
    return K<R>::make(5);
  }
};
template <typename R> int want_task(bool th) { return th ? 2005 : std::is_void<R>::value ? 0 : 5; }

template <typename R> void task_once() {
  {
    int calls = 0;
    bool th = vc_choice(2);
    pc::packaged_task<R(int, Val)> t{Fn<R>{&calls, th}};
    VC_ASSERT(t.valid() && live == 1, "C19: holds the function once");
    int retrieve = vc_choice(2); // before or after invocation
    pc::future<R> f;
    if (retrieve == 0) f = t.get_future();
    int mv = vc_choice(4);
    pc::packaged_task<R(int, Val)> u;
    VC_ASSERT(!u.valid(), "C20: a default task is empty");
    auto *cur = &t;
    if (mv == 1) { u = std::move(t); cur = &u; }
    else if (mv == 2) { u.swap(t); cur = &u; }
    else if (mv == 3) { pc::packaged_task<R(int, Val)> w{std::move(t)}; t = std::move(w); }
    VC_ASSERT(calls == 0 && live == 1, "C19: moving and swapping do not call or copy the function");
    VC_ASSERT(cur->valid() && (cur == &t || !t.valid()), "C19: the task moved");
    if (retrieve == 0) VC_ASSERT(!f.is_ready(), "C19: pending until invoked");
    VC_ASSERT(thrown([&] { (*cur)(11, Val{12}); }) == NOTHROW, "C19: exceptions of the function go to the future");
    VC_ASSERT(calls == 1, "C19: called once");
    if (retrieve == 1) f = cur->get_future();
    VC_ASSERT(f.valid() && f.is_ready(), "C19: ready after the call");
    VC_ASSERT(live == (!th && std::is_same<R, Val>::value ? 1 : 0), "C19: the function is destroyed after the call");
    VC_ASSERT(thrown([&] { (*cur)(11, Val{12}); }) == SATISFIED, "C19: a second call throws promise_already_satisfied");
    VC_ASSERT(calls == 1, "C19: and does not call the function");
    VC_ASSERT(thrown([&] { (void)cur->get_future(); }) == RETRIEVED, "C20: the future is handed out once");
    if (vc_choice(2)) { auto dead = std::move(*cur); VC_ASSERT(!cur->valid(), "C20: moved-from task is empty"); }
    VC_ASSERT(get_code<R>(f) == want_task<R>(th), "C19: the value or exception of the function, undisturbed by the task going away");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(task_once_val, C19_C20_C04) { task_once<Val>(); }
VC_UNIT(task_once_ref, C19_C20_C04) { task_once<Cell &>(); }
VC_UNIT(task_once_void, C19_C20_C04) { task_once<void>(); }

// abandoned tasks
template <typename R> void task_abandon() {
  {
    int calls = 0;
    pc::packaged_task<R(int, Val)> t{Fn<R>{&calls, false}}, other;
    auto f = t.get_future();
    int notified = 0;
    f.notify([&] { ++notified; });
    int how = vc_choice(5);
    switch (how) {
    case 0: { auto dead = std::move(t); break; }
    case 1: t = std::move(other); break;
    case 2: { int c2 = 0; t = pc::packaged_task<R(int, Val)>{Fn<R>{&c2, false}}; break; }
    case 3: { other.swap(t); VC_ASSERT(!f.is_ready(), "C04: swapping does not break the promise"); { auto dead = std::move(other); } break; }
    default: { { auto moved = std::move(other); } { pc::packaged_task<R(int, Val)> keep = std::move(t); t = std::move(keep); } VC_ASSERT(!f.is_ready() && notified == 0, "C04: destroying moved-from tasks does not break the promise"); t(11, Val{12}); }
    }
    VC_ASSERT(calls == (how == 4), "C19: abandoning does not call the function");
    VC_ASSERT(f.is_ready() && notified == 1, "C04: an abandoned task makes the future ready at once");
    VC_ASSERT(get_code<R>(f) == (how == 4 ? want_task<R>(false) : BROKEN), "C04: broken_promise");
    VC_ASSERT(live == (how == 2 ? 1 : 0), "C19: the abandoned function is destroyed");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(task_abandon_val, C04_C19) { task_abandon<Val>(); }
VC_UNIT(task_abandon_ref, C04_C19) { task_abandon<Cell &>(); }
VC_UNIT(task_abandon_void, C04_C19) { task_abandon<void>(); }

VC_UNIT(task_empty, C19_C20) {
  pc::packaged_task<int(int)> t;
  int kind = vc_choice(3);
  if (kind == 1) { t = pc::packaged_task<int(int)>{[](int v) { return v; }}; auto m = std::move(t); }
  if (kind == 2) { t = pc::packaged_task<int(int)>{[](int v) { return v; }}; pc::packaged_task<int(int)> m; m = std::move(t); }
  VC_ASSERT(!t.valid(), "C20: empty");
  VC_ASSERT(thrown([&] { t(1); }) == NO_STATE, "C19: invoking an empty task throws no_state");
  VC_ASSERT(thrown([&] { (void)t.get_future(); }) == NO_STATE, "C20: get_future on an empty task throws no_state");
}

// argument categories: references stay references, move-only arguments are moved
VC_UNIT(task_args, C19) {
  {
    int x = 1;
    pc::packaged_task<int &(int &, std::unique_ptr<int>, const Val &)> t{[](int &r, std::unique_ptr<int> p, const Val &v) -> int & { r += *p + v.id; return r; }};
    auto f = t.get_future();
    Val v{100};
    t(x, std::make_unique<int>(10), v);
    VC_ASSERT(&f.get() == &x && x == 111 && v.is(100), "C19: arguments are forwarded unchanged");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// function kinds
static int plain(int v) { return v + 1; }
struct Acc { int k; int add(int v) { return k + v; } };
VC_UNIT(task_functions, C19_C10) {
  switch (vc_choice(3)) {
  case 0: { pc::packaged_task<int(int)> t{&plain}; auto f = t.get_future(); t(1); VC_ASSERT(f.get() == 2, "C19: function pointer"); break; }
  case 1: { Acc a{5}; pc::packaged_task<int(Acc &, int)> t{&Acc::add}; auto f = t.get_future(); t(a, 2); VC_ASSERT(f.get() == 7, "C19: member function"); break; }
  default: { pc::packaged_task<long(int)> t{[](int v) { return v; }}; auto f = t.get_future(); t(3); VC_ASSERT(f.get() == 3, "C19: converted result"); break; }
  }
}
// function is an lvalue: it is copied, the original stays
VC_UNIT(task_copy, C19) {
  {
    int calls = 0;
    Fn<Val> fn{&calls, false};
    pc::packaged_task<Val(int, Val)> t{fn};
    VC_ASSERT(live == 2 && fn.cap.is(40), "C19: an lvalue function is copied");
    auto f = t.get_future();
    t(11, Val{12});
    VC_ASSERT(calls == 1 && f.get().is(5) && fn.cap.is(40), "C19: copy called");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// storing the result fails: whatever the caller learns, the function is not called a second time and does not stay alive
VC_UNIT(task_result_throws, C19_C17) {
  {
    int calls = 0;
    bool broke = false;
    {
      pc::packaged_task<TVal()> t{[&calls, cap = Val{3}]() -> TVal { ++calls; throw_budget = 0; TVal v{7}; throw_budget = 1; return v; }};
      auto f = t.get_future();
      bool threw = false;
      try { t(); } catch (const boom &) { threw = true; }
      throw_budget = 0;
      VC_ASSERT(calls == 1 && live == (f.is_ready() && !threw), "C19: the function ran once and is destroyed");
      VC_ASSERT(threw || f.is_ready(), "C19: the failure is not lost");
      VC_ASSERT(thrown([&] { t(); }) == SATISFIED && calls == 1, "C19: the function is not called again");
      if (!f.is_ready()) { { auto dead = std::move(t); } broke = true; VC_ASSERT(f.is_ready() && thrown([&] { f.get(); }) == BROKEN, "C04: a task without result breaks its promise"); }
    }
    (void)broke;
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// tasks whose function returns a future: at most one call, whatever the state of the inner future
template <typename R, bool SharedInner> void task_future() {
  {
    int calls = 0, kind = vc_choice(4); // 0 inner ready, 1 inner pending, 2 invalid inner, 3 throws
    auto inner = pc::make_promise<R>();
    int id = std::is_void<R>::value ? 0 : 5;
    if (kind == 0) K<R>::set(inner.first, id);
    using In = std::conditional_t<SharedInner, pc::shared_future<R>, pc::future<R>>;
    In in{std::move(inner.second)};
    pc::packaged_task<In(int)> t{[&, cap = Val{40}](int a) -> In {
      ++calls;
      VC_ASSERT(a == 11 && cap.is(40), "C19: the function is intact and gets its arguments");
      if (kind == 3) throw boom{2005};
      if (kind == 2) return {};
      if constexpr (SharedInner) return in; else return std::move(in);
    }};
    VC_ASSERT(live == 1 + (kind == 0 && std::is_same<R, Val>::value), "C19: holds the function once");
    auto f = t.get_future();
    VC_ASSERT(thrown([&] { t(11); }) == NOTHROW && calls == 1, "C19: called once");
    VC_ASSERT(live == (kind == 0 && std::is_same<R, Val>::value), "C19: the function is destroyed after the call");
    VC_ASSERT(thrown([&] { t(11); }) == SATISFIED, "C19: a second call throws promise_already_satisfied");
    VC_ASSERT(calls == 1, "C19: and does not call the function");
    if (vc_choice(2)) { pc::packaged_task<In(int)> u{std::move(t)}; VC_ASSERT(thrown([&] { u(11); }) == SATISFIED && calls == 1, "C19: also after moving the task"); t = std::move(u); }
    if (kind == 1) {
      VC_ASSERT(!f.is_ready(), "C19: the pending inner future is not disturbed");
      K<R>::set(inner.first, id);
    }
    VC_ASSERT(f.is_ready() && get_code<R>(f) == (kind == 3 ? 2005 : kind == 2 ? BROKEN : id), "C19: the result of the first call");
    VC_ASSERT(calls == 1, "C19: called once");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(task_future_val, C19_C08) { task_future<Val, false>(); }
VC_UNIT(task_future_ref, C19_C08) { task_future<Cell &, false>(); }
VC_UNIT(task_future_void, C19_C08) { task_future<void, false>(); }
VC_UNIT(task_future_sval, C19_C08) { task_future<Val, true>(); }
VC_UNIT(task_future_svoid, C19_C08) { task_future<void, true>(); }

// async through an executor: value, reference, void results; arguments decay-copied and moved in
template <typename R> void async_once() {
  {
    Exec ex;
    int calls = 0;
    bool th = vc_choice(2), lv = vc_choice(2);
    Val b{12};
    pc::future<R> f;
    auto fn = Fn<R>{&calls, th};
    if (lv) f = pc::async(ex, fn, 11, b);
    else f = pc::async(ex, std::move(fn), 11, std::move(b));
    VC_ASSERT(!lv || (b.is(12) && fn.cap.is(40)), "C10: lvalue arguments are copied, not consumed");
    b.id = 99; fn.cap.id = 98;
    VC_ASSERT(calls == 0 && ex.q->posted == 1 && f.valid() && !f.is_ready(), "C10: posted once, not run in place");
    ex.run_one();
    VC_ASSERT(calls == 1 && f.is_ready() && ex.q->posted == 1, "C10: runs once");
    VC_ASSERT(get_code<R>(f) == want_task<R>(th), "C10: delivers the function's value or exception");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(async_val, C10_C19_C07) { async_once<Val>(); }
VC_UNIT(async_void, C10_C19_C07) { async_once<void>(); }
VC_UNIT(async_inplace, C10) {
  int me = vc_tid(), by = -1;
  auto f = pc::async(pc::inplace_executor, [&](int a, int b) { by = vc_tid(); return a - b; }, 7, 3);
  VC_ASSERT(f.is_ready() && f.get() == 4 && by == me, "C10: the in-place executor runs at once in this thread");
}
// task invoked in another thread while the future is waited for
VC_UNIT(task_thread, C19_C05_C03) {
  {
    int payload = 0;
    pc::packaged_task<Val()> t{[&] { payload = 3; return Val{6}; }};
    auto f = t.get_future();
    auto w = [&] { VC_ASSERT(get_code(f) == 6 && payload == 3, "C19: result visible to the waiter"); };
    auto r = [&] { t(); };
    spawn(w); spawn(r);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// no memory for the task state
VC_UNIT(task_no_memory, C17_C19) {
  {
    int calls = 0;
    Exec ex;
    vc_opt("alloc_fail", 1);
    int r = thrown([&] { auto f = pc::async(ex, Fn<Val>{&calls, false}, 11, Val{12}); });
    vc_opt("alloc_fail", 0);
    VC_ASSERT(r == NOTHROW || r == -1000, "C17: bad_alloc reaches the caller");
    ex.drop_all();
    VC_ASSERT(calls == 0 && live == 0, "C17: nothing is leaked or called");
  }
}

// a function may return a reference to an object somebody else owns: the future gets a copy
VC_UNIT(task_lvalue_result, C19) {
  {
    int id = any_id();
    Val v{id};
    int how = vc_choice(3);
    pc::future<Val> f;
    if (how == 0) {
      pc::packaged_task<Val()> t{[&v]() -> Val & { return v; }};
      f = t.get_future();
      t();
    } else if (how == 1) {
      pc::packaged_task<Val()> t{[&v]() -> const Val & { return v; }};
      f = t.get_future();
      t();
    } else {
      pc::packaged_task<Val()> t{[&v]() -> Val && { return std::move(v); }};
      f = t.get_future();
      t();
    }
    VC_ASSERT(v.is(id) || how == 2, "C19: an object returned by lvalue reference is copied, not consumed");
    VC_ASSERT(get_code<Val>(f) == id, "C19: the future holds what the function returned");
  }
  {
    pc::promise<Val> p;
    auto sf = p.get_future().share();
    pc::packaged_task<pc::shared_future<Val>()> t{[&sf]() -> pc::shared_future<Val> & { return sf; }};
    auto f = t.get_future();
    t();
    VC_ASSERT(sf.valid() && f.valid() && !f.is_ready(), "C19: a shared_future returned by reference stays valid");
    p.set_value(Val{4});
    VC_ASSERT(get_code(f) == 4 && get_code(sf) == 4, "C19: and is unwrapped");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// results are converted to the type of the task
VC_UNIT(task_converted_result, C19) {
  {
    int id = any_id();
    struct Conv { int id; operator Val() const { return Val{id}; } };
    pc::packaged_task<Val()> t{[id] { return Conv{id}; }};
    auto f = t.get_future();
    t();
    VC_ASSERT(get_code<Val>(f) == id, "C19: the converted result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// arguments reach the function with their declared type
VC_UNIT(task_arguments, C19) {
  {
    Val a{1}, c{3};
    const Val b{2};
    Val *pa = &a, *pc_ = &c;
    const Val *pb = &b;
    int calls = 0;
    pc::packaged_task<int(Val &, const Val &, Val &&, Val)> t{[&](Val &x, const Val &y, Val &&z, Val w) {
      ++calls;
      VC_ASSERT(&x == pa && &y == pb && &z == pc_, "C19: references refer to the caller's objects");
      VC_ASSERT(w.is(4), "C19: the by-value argument");
      Val taken = std::move(z);
      x = Val{7};
      return taken.id;
    }};
    auto f = t.get_future();
    t(a, b, std::move(c), Val{4});
    VC_ASSERT(calls == 1 && a.is(7) && b.is(2) && !c.is(3), "C19: called once with these");
    VC_ASSERT(f.get() == 3, "C19: result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// async: stored copies are handed over as rvalues, reference_wrappers stay references to the caller's object
VC_UNIT(async_arguments, C10_C19) {
  {
    struct Sees {
      int *how;
      void operator()(Val &v, std::reference_wrapper<Val> r) { *how = v.is(1) ? 1 : 0; r.get().check(); }
      void operator()(Val &&v, std::reference_wrapper<Val> r) { Val t{std::move(v)}; *how = t.is(1) ? 2 : 0; r.get() = Val{9}; }
      void operator()(Val &&v, Val &&r) { *how = 3; Val t{std::move(r)}; v.check(); }
    };
    Exec ex;
    int how = 0;
    Val a{1}, b{2};
    auto f = pc::async(ex, Sees{&how}, a, std::ref(b));
    VC_ASSERT(a.is(1) && b.is(2), "C10: arguments are not consumed");
    a.id = 55; // the task has its own copy
    ex.run_one();
    VC_ASSERT(how == 2, "C10: the function gets the stored copy as an rvalue and the reference_wrapper as it is");
    VC_ASSERT(b.is(9), "C10: a reference_wrapper refers to the caller's object");
    VC_ASSERT(f.is_ready(), "C10: ready");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
