// Callbacks may use the library themselves: whatever a callback does with the future it was attached to (drop the last
// handle, attach more, read, share, combine), every callback still runs exactly once and nothing is touched after its end.
#include "source.h"

enum { R_NONE, R_DROP, R_ATTACH, R_GET, R_THEN, R_SHARE, R_WAIT, R_ALL, R_COUNT };

template <typename T> void reenter(int kind) {
  {
    Source<T> s{kind};
    int act = vc_choice(R_COUNT), where = vc_choice(3), n[3] = {0, 0, 0}, more = 0, got = -7;
    pc::future<T> &f = s.f;
    pc::shared_future<T> sh;
    pc::future<int> h;
    bool used = false;
    auto cb = [&](int k) {
      ++n[k];
      VC_ASSERT(n[k] == 1, "C02: each callback runs once");
      if (!used) VC_ASSERT(f.is_ready(), "C02: only when ready");
      if (k != where) return;
      used = true;
      switch (act) {
      case R_DROP: { auto dead = std::move(f); break; }
      case R_ATTACH: f.notify([&] { ++more; f.notify([&] { ++more; }); }); VC_ASSERT(more == 2, "C02: attached to a ready future: run at once"); break;
      case R_GET: got = get_code<T>(f); break;
      case R_THEN: h = f.then([&](pc::future<T> g) { ++more; return get_code<T>(g); }); VC_ASSERT(more == 1 && h.is_ready(), "C07: attached to a ready future: run at once"); got = get_code(h); break;
      case R_SHARE: sh = f.share(); sh.notify([&] { ++more; }); VC_ASSERT(more == 1, "C02: attached to a ready future: run at once"); got = get_code<T>(sh); break;
      case R_WAIT: f.wait(); VC_ASSERT(f.is_ready(), "C05: wait returns once ready"); break;
      case R_ALL: { auto w = pc::when_all(std::move(f)); VC_ASSERT(w.is_ready(), "C11: ready with its input"); got = get_code<T>(std::get<0>(w.get())); break; }
      default: break;
      }
    };
    f.notify([&] { cb(0); });
    f.notify([&] { cb(1); });
    f.notify([&] { cb(2); });
    s.complete();
    VC_ASSERT(n[0] == 1 && n[1] == 1 && n[2] == 1, "C02: no callback is lost");
    if (f.valid()) got = get_code<T>(f);
    if (act != R_DROP) VC_ASSERT(got == s.want(), "C05: the result of the producer");
    VC_ASSERT(s.cancelled == 0, "C09: not cancelled");
    { auto d = std::move(s.p); auto d2 = std::move(s.f); auto d3 = std::move(sh); auto d4 = std::move(h); auto d5 = std::move(s.task); }
    VC_ASSERT(s.blocks == 0, "C18: all memory returned to its allocator");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(reenter_promise_val, C02_C05_C17) { reenter<Val>(S_PROMISE); }
VC_UNIT(reenter_promise_ref, C02_C05_C17) { reenter<Cell &>(S_PROMISE); }
VC_UNIT(reenter_promise_void, C02_C05_C17) { reenter<void>(S_PROMISE); }
VC_UNIT(reenter_alloc, C18_C02_C17) { reenter<Val>(S_ALLOC); }
VC_UNIT(reenter_cancel, C09_C02_C17) { reenter<Val>(S_CANCEL); }
VC_UNIT(reenter_member, C20_C02_C17) { reenter<Val>(S_MEMBER); }
VC_UNIT(reenter_task_val, C19_C02_C17) { reenter<Val>(S_TASK); }
VC_UNIT(reenter_task_void, C19_C02_C17) { reenter<void>(S_TASK); }
VC_UNIT(reenter_async, C10_C02_C17) { reenter<Val>(S_ASYNC); }
VC_UNIT(reenter_then, C07_C02_C17) { reenter<Val>(S_THEN); }
VC_UNIT(reenter_next, C07_C02_C17) { reenter<Val>(S_NEXT); }
VC_UNIT(reenter_snext, C07_C02_C17) { reenter<Val>(S_SNEXT); }
VC_UNIT(reenter_unwrap_val, C08_C02_C17) { reenter<Val>(S_UNWRAP); }
VC_UNIT(reenter_unwrap_void, C08_C02_C17) { reenter<void>(S_UNWRAP); }
VC_UNIT(reenter_interruptible, C07_C02_C04_C17) { reenter<Val>(S_INTERRUPTIBLE); }
VC_UNIT(reenter_task_unwrap, C08_C02_C17) { reenter<Val>(S_TASK_UNWRAP); }

// a combined future dropped, or read, from within a callback attached to it
template <typename W> void reenter_combined(W when) {
  {
    pc::promise<Val> p[2];
    std::vector<pc::shared_future<Val>> v, mine;
    for (int i = 0; i < 2; ++i) { auto pf = pc::make_promise<Val>(); p[i] = std::move(pf.first); v.emplace_back(std::move(pf.second)); }
    mine = v;
    auto w = when(std::move(v));
    int n0 = 0, n1 = 0, act = vc_choice(3), k = vc_choice(2);
    w.notify([&] { ++n0; });
    w.notify([&] {
      ++n1;
      if (act == 0) { auto dead = std::move(w); }
      else if (act == 1) { auto r = w.get(); (void)r; }
    });
    p[k].set_value(Val{1});
    p[1 - k].set_value(Val{2});
    VC_ASSERT(n0 == 1 && n1 == 1, "C02: every callback runs once");
    VC_ASSERT(get_code<Val>(mine[std::size_t(k)]) == 1 && get_code<Val>(mine[std::size_t(1 - k)]) == 2, "C11: the inputs keep their results");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(reenter_all, C11_C02_C17) { reenter_combined([](auto v) { return pc::when_all(std::move(v)); }); }
VC_UNIT(reenter_any, C12_C02_C17) { reenter_combined([](auto v) { return pc::when_any(std::move(v)); }); }

// is_awaiten as seen from the continuation which has been given the promise: exact even while that continuation runs
template <typename T, typename R, bool Shared> void awaiten_inside() {
  {
    auto pf = pc::make_promise<T>();
    using F = std::conditional_t<Shared, pc::shared_future<T>, pc::future<T>>;
    F parent{std::move(pf.second)};
    Exec ex;
    bool exec = vc_choice(2), chain = vc_choice(2), drop = vc_choice(2), det = vc_choice(2);
    int calls = 0;
    pc::future<R> g;
    pc::future<int> h;
    auto fn = [&](pc::promise<R> p, F f) {
      ++calls;
      VC_ASSERT(f.is_ready(), "C07: the parent is ready");
      VC_ASSERT(p.is_awaiten(), "C09: a future for the result exists");
      if (drop) { auto d = std::move(g); auto d2 = std::move(h); }
      VC_ASSERT(p.is_awaiten() == (!drop || det), "C09: awaited exactly while the result can be observed");
      K<R>::set(p, K<R>::fresh_id(2));
    };
    g = exec ? parent.then(ex, fn) : parent.then(fn);
    if (det) g = g.detach();
    if (chain) h = g.then([](pc::future<R>) { return 1; });
    K<T>::set(pf.first, K<T>::fresh_id(1));
    ex.run_all();
    VC_ASSERT(calls == 1, "C07: the continuation runs once");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(awaiten_inside_vv, C09_C07) { awaiten_inside<Val, Val, false>(); }
VC_UNIT(awaiten_inside_0r, C09_C07) { awaiten_inside<void, Cell &, false>(); }
VC_UNIT(awaiten_inside_s0, C09_C07) { awaiten_inside<Val, void, true>(); }

// a function that drops the future of its own result, or whose captures do when they are destroyed, finishes undisturbed
template <typename T> void drop_own(int kind) {
  {
    Exec ex;
    int calls = 0, id = K<T>::fresh_id(3), gone = 0;
    bool th = vc_choice(2), at_end = vc_choice(2);
    pc::future<T> f;
    struct OnDestroy {
      pc::future<T> *f; int *gone;
      OnDestroy(pc::future<T> *f, int *g) : f(f), gone(g) {}
      OnDestroy(OnDestroy &&o) noexcept : f(std::exchange(o.f, nullptr)), gone(o.gone) {}
      ~OnDestroy() { if (f) { ++*gone; auto dead = std::move(*f); } }
    };
    auto fn = [&, cap = Val{9}, od = OnDestroy{at_end ? &f : nullptr, &gone}](auto &&...) -> T {
      ++calls;
      if (!at_end) { auto dead = std::move(f); }
      VC_ASSERT(cap.is(9), "C19: the function stays intact while it runs");
      if (th) throw boom{1007};
      return K<T>::make(id);
    };
    auto pf = pc::make_promise<Val>();
    pc::packaged_task<T()> task;
    switch (kind) {
    case 0: task = pc::packaged_task<T()>{std::move(fn)}; f = task.get_future(); task(); break;
    case 1: f = pf.second.then(ex, std::move(fn)); pf.first.set_value(Val{1}); ex.run_all(); break;
    case 2: f = pf.second.then(std::move(fn)); pf.first.set_value(Val{1}); break;
    case 3: f = pf.second.next(std::move(fn)); pf.first.set_value(Val{1}); break;
    default: f = pf.second.share().next(ex, std::move(fn)); pf.first.set_value(Val{1}); ex.run_all(); break;
    }
    VC_ASSERT(calls == 1, "C10: a started function runs once");
    VC_ASSERT(gone == at_end && (!at_end || !f.valid()), "C17: the function is destroyed once");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(drop_own_val, C09_C19_C17) { drop_own<Val>(vc_choice(5)); }
VC_UNIT(drop_own_void, C09_C19_C17) { drop_own<void>(vc_choice(5)); }

// Completing or abandoning a future from a destructor that runs while an exception propagates, or inside a catch handler, makes no difference.
template <typename T> void unwinding() {
  {
    Source<T> src(vc_choice(S_TASK_UNWRAP + 1));
    int place = vc_choice(2), got = -1, calls = 0;
    src.f.notify([&] { ++calls; });
    auto go = [&] { src.complete(); };
    struct AtExit { decltype(go) &g; bool on; ~AtExit() { if (on) g(); } };
    try {
      AtExit d{go, place == 0};
      throw boom{77};
    } catch (boom &b) {
      VC_ASSERT(b.id == 77, "the propagating exception is not disturbed");
      if (place == 1) go();
    }
    VC_ASSERT(calls == 1, "C02: notified once");
    VC_ASSERT(src.f.is_ready(), "C04: ready after the producer is gone");
    got = get_code<T>(src.f);
    VC_ASSERT(got == src.want(), "C01/C04: the result, or broken_promise, also while another exception propagates");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(unwinding_val, C04_C01_C02_C07_C19) { unwinding<Val>(); }
VC_UNIT(unwinding_ref, C04_C01) { unwinding<Cell &>(); }
VC_UNIT(unwinding_void, C04_C01) { unwinding<void>(); }

// An executor that runs or drops the task within post(): the executor object passed to post stays alive until post returns, even when
// the task drops the future of its result.
struct InEx {
  int *posts; int mode; Val mark;
};
template <typename F> void post(InEx &e, F f) {
  ++*e.posts;
  VC_ASSERT(e.mark.is(5), "C10: the given executor is used");
  if (e.mode == 0) f();
  { F gone = std::move(f); }
  VC_ASSERT(e.mark.is(5), "C10: the executor outlives post()");
}
namespace portable_concurrency { template <> struct is_executor<InEx> : std::true_type {}; }
template <typename T> void inline_executor(int kind) {
  {
    int posts = 0, calls = 0, noted = 0, id = K<T>::fresh_id(3);
    int mode = vc_choice(2);
    bool drop = vc_choice(2), late = kind != 4 && vc_choice(2);
    pc::future<T> f;
    bool ready_first = kind == 4 || late;
    auto fn = [&](auto &&...) -> T {
      ++calls;
      if (drop) { auto dead = std::move(f); }
      return K<T>::make(id);
    };
    auto pf = pc::make_promise<Val>();
    InEx ex{&posts, mode, Val{5}};
    if (late) pf.first.set_value(Val{1});
    pc::shared_future<Val> sf;
    switch (kind) {
    case 0: f = pf.second.then(ex, fn); break;
    case 1: f = pf.second.next(ex, fn); break;
    case 2: sf = pf.second.share(); f = sf.then(ex, fn); break;
    case 3: sf = pf.second.share(); f = sf.next(ex, fn); break;
    default: f = pc::async(ex, fn); break;
    }
    if (!ready_first) {
      VC_ASSERT(posts == 0, "C10: nothing is posted before the parent is ready");
      f.notify([&] { ++noted; if (drop && mode == 1) { auto dead = std::move(f); } });
      pf.first.set_value(Val{1});
      if (!(drop && mode == 0)) VC_ASSERT(noted == 1, "C02: notified once");
    }
    VC_ASSERT(posts == 1, "C10: exactly one task is posted");
    VC_ASSERT(calls == (mode == 0), "C10: the function runs only within the posted task");
    if (f.valid()) {
      VC_ASSERT(f.is_ready(), "C04/C07: ready after the task was run or dropped");
      VC_ASSERT(get_code<T>(f) == (mode == 0 ? id : BROKEN), "C04/C07: the function's result, or broken_promise");
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(inline_executor_val, C10_C09_C04_C07_C17) { inline_executor<Val>(vc_choice(5)); }
VC_UNIT(inline_executor_void, C10_C09_C04_C07_C17) { inline_executor<void>(vc_choice(5)); }
