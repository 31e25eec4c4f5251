// Every way to make a future, crossed with every way to observe it: all of them deliver the same result, once, and not early.
#include "source.h"

template <typename T> int code_of() { return 0; }
template <typename T, typename V> int code_of(V &&v) { return K<T>::of(const_cast<std::remove_const_t<std::remove_reference_t<V>> &>(v)); }

enum { O_GET, O_WAIT, O_TIMED, O_NOTIFY, O_THEN, O_NEXT, O_NEXT_FUT, O_SGET, O_SNOTIFY, O_STHEN, O_SNEXT, O_SNEXT_FUT, O_DETACH, O_ALL, O_ANY, O_PTHEN, O_COUNT };

template <typename T> void observe(int kind) {
  {
    Source<T> s{kind};
    int how = vc_choice(O_COUNT), ran = 0, got = -7;
    bool early = vc_choice(2), value = s.outcome == VALUE;
    pc::future<T> &f = s.f;
    pc::shared_future<T> sh;
    pc::future<int> h;
    VC_ASSERT(f.valid() && !f.is_ready(), "C20: pending until its producer is done");
    if (!early) s.complete();
    auto mid = [&] { if (early) { VC_ASSERT(ran == 0 && !(h.valid() && h.is_ready()), "C02: nothing runs before the result is there"); s.complete(); } };
    switch (how) {
    case O_GET: mid(); got = get_code<T>(f); break;
    case O_WAIT: mid(); f.wait(); VC_ASSERT(f.is_ready(), "C05: ready after wait"); got = get_code<T>(f); break;
    case O_TIMED: {
      pc::timed_waiter w{f};
      if (early) VC_ASSERT(w.wait_for(std::chrono::seconds(0)) == pc::future_status::timeout, "C06: timeout before completion");
      mid();
      VC_ASSERT(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready, "C06: ready after completion");
      got = get_code<T>(f);
      break;
    }
    case O_NOTIFY: f.notify([&] { ++ran; VC_ASSERT(f.is_ready(), "C02: ready when notified"); }); mid(); VC_ASSERT(ran == 1, "C02: notified once"); got = get_code<T>(f); break;
    case O_THEN:
      h = f.then([&](pc::future<T> g) { ++ran; VC_ASSERT(g.is_ready(), "C07: the continuation gets a ready future"); got = get_code<T>(g); return 5; });
      mid();
      VC_ASSERT(ran == 1 && h.is_ready() && get_code(h) == 5, "C07: the continuation ran once and delivered");
      break;
    case O_PTHEN:
      h = f.then([&](pc::promise<int> q, pc::future<T> g) { ++ran; VC_ASSERT(g.is_ready(), "C07: the continuation gets a ready future"); got = get_code<T>(g); q.set_value(5); });
      mid();
      VC_ASSERT(ran == 1 && h.is_ready() && get_code(h) == 5, "C07: the continuation ran once and delivered");
      break;
    case O_NEXT: case O_NEXT_FUT: case O_SNEXT: case O_SNEXT_FUT: {
      auto fn = [&](auto &&...v) { ++ran; got = code_of<T>(v...); return 6; };
      auto fu = [&](auto &&...v) { ++ran; got = code_of<T>(v...); return pc::make_ready_future(6); };
      if (how == O_NEXT) h = f.next(fn);
      else if (how == O_NEXT_FUT) h = f.next(fu);
      else { sh = f.share(); if (how == O_SNEXT) h = sh.next(fn); else h = sh.next(fu); }
      mid();
      VC_ASSERT(h.is_ready() && ran == value, "C07: next runs exactly for values");
      int c = get_code(h);
      if (value) VC_ASSERT(c == 6, "C07: the result is delivered"); else got = c;
      if (sh.valid()) VC_ASSERT(get_code<T>(sh) == s.want(), "C07: the shared parent keeps its result");
      break;
    }
    case O_SGET: sh = f.share(); mid(); got = get_code<T>(sh); VC_ASSERT(got == get_code<T>(sh) && sh.valid(), "C05: a shared result can be read again"); break;
    case O_SNOTIFY: sh = f.share(); sh.notify([&] { ++ran; VC_ASSERT(sh.is_ready(), "C02: ready when notified"); }); mid(); VC_ASSERT(ran == 1, "C02: notified once"); got = get_code<T>(sh); break;
    case O_STHEN:
      sh = f.share();
      h = sh.then([&](pc::shared_future<T> g) { ++ran; VC_ASSERT(g.is_ready(), "C07: the continuation gets a ready future"); got = get_code<T>(g); return 5; });
      mid();
      VC_ASSERT(ran == 1 && h.is_ready() && get_code(h) == 5 && get_code<T>(sh) == s.want(), "C07: the continuation ran once and delivered");
      break;
    case O_DETACH: f = f.detach(); mid(); got = get_code<T>(f); break;
    case O_ALL: {
      auto w = pc::when_all(std::move(f));
      if (early) VC_ASSERT(!w.is_ready(), "C11: not before its input");
      mid();
      VC_ASSERT(w.is_ready(), "C11: ready with its input");
      auto t = w.get();
      VC_ASSERT(std::get<0>(t).is_ready(), "C11: the input is ready");
      got = get_code<T>(std::get<0>(t));
      break;
    }
    default: {
      auto w = pc::when_any(std::move(f));
      if (early) VC_ASSERT(!w.is_ready(), "C12: not before its input");
      mid();
      VC_ASSERT(w.is_ready(), "C12: ready with its input");
      auto t = w.get();
      VC_ASSERT(t.index == 0 && std::get<0>(t.futures).is_ready(), "C12: the index of the ready input");
      got = get_code<T>(std::get<0>(t.futures));
    }
    }
    VC_ASSERT(got == s.want(), "C05: every observer gets the result of the producer");
    VC_ASSERT(s.cancelled == 0, "C09: not cancelled");
    { auto d = std::move(s.p); auto d2 = std::move(s.f); auto d3 = std::move(sh); auto d4 = std::move(h); }
    VC_ASSERT(s.blocks == 0, "C18: all memory returned to its allocator");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(matrix_promise_val, C01_C02_C04_C05_C07_C11_C12) { observe<Val>(S_PROMISE); }
VC_UNIT(matrix_promise_ref, C01_C02_C04_C05_C07_C11_C12) { observe<Cell &>(S_PROMISE); }
VC_UNIT(matrix_promise_void, C01_C02_C04_C05_C07_C11_C12) { observe<void>(S_PROMISE); }
VC_UNIT(matrix_alloc_val, C18_C02_C05_C07) { observe<Val>(S_ALLOC); }
VC_UNIT(matrix_alloc_ref, C18_C02_C05_C07) { observe<Cell &>(S_ALLOC); }
VC_UNIT(matrix_alloc_void, C18_C02_C05_C07) { observe<void>(S_ALLOC); }
VC_UNIT(matrix_cancel_val, C09_C02_C05_C07) { observe<Val>(S_CANCEL); }
VC_UNIT(matrix_cancel_ref, C09_C02_C05_C07) { observe<Cell &>(S_CANCEL); }
VC_UNIT(matrix_cancel_void, C09_C02_C05_C07) { observe<void>(S_CANCEL); }
VC_UNIT(matrix_member_val, C01_C04_C20) { observe<Val>(S_MEMBER); }
VC_UNIT(matrix_member_ref, C01_C04_C20) { observe<Cell &>(S_MEMBER); }
VC_UNIT(matrix_member_void, C01_C04_C20) { observe<void>(S_MEMBER); }
VC_UNIT(matrix_task_val, C19_C04_C05_C07) { observe<Val>(S_TASK); }
VC_UNIT(matrix_task_ref, C19_C04_C05_C07) { observe<Cell &>(S_TASK); }
VC_UNIT(matrix_task_void, C19_C04_C05_C07) { observe<void>(S_TASK); }
VC_UNIT(matrix_async_val, C10_C04_C05_C07) { observe<Val>(S_ASYNC); }
VC_UNIT(matrix_async_ref, C10_C04_C05_C07) { observe<Cell &>(S_ASYNC); }
VC_UNIT(matrix_async_void, C10_C04_C05_C07) { observe<void>(S_ASYNC); }
VC_UNIT(matrix_then_val, C07_C10_C04) { observe<Val>(S_THEN); }
VC_UNIT(matrix_then_ref, C07_C10_C04) { observe<Cell &>(S_THEN); }
VC_UNIT(matrix_then_void, C07_C10_C04) { observe<void>(S_THEN); }
VC_UNIT(matrix_next_val, C07_C10_C04) { observe<Val>(S_NEXT); }
VC_UNIT(matrix_next_ref, C07_C10_C04) { observe<Cell &>(S_NEXT); }
VC_UNIT(matrix_next_void, C07_C10_C04) { observe<void>(S_NEXT); }
VC_UNIT(matrix_snext_val, C07_C10_C04) { observe<Val>(S_SNEXT); }
VC_UNIT(matrix_snext_ref, C07_C10_C04) { observe<Cell &>(S_SNEXT); }
VC_UNIT(matrix_snext_void, C07_C10_C04) { observe<void>(S_SNEXT); }
VC_UNIT(matrix_unwrap_val, C08_C07_C05) { observe<Val>(S_UNWRAP); }
VC_UNIT(matrix_unwrap_ref, C08_C07_C05) { observe<Cell &>(S_UNWRAP); }
VC_UNIT(matrix_unwrap_void, C08_C07_C05) { observe<void>(S_UNWRAP); }
VC_UNIT(matrix_interruptible_val, C07_C04_C05) { observe<Val>(S_INTERRUPTIBLE); }
VC_UNIT(matrix_interruptible_ref, C07_C04_C05) { observe<Cell &>(S_INTERRUPTIBLE); }
VC_UNIT(matrix_interruptible_void, C07_C04_C05) { observe<void>(S_INTERRUPTIBLE); }
VC_UNIT(matrix_task_unwrap_val, C08_C19_C07) { observe<Val>(S_TASK_UNWRAP); }
VC_UNIT(matrix_task_unwrap_ref, C08_C19_C07) { observe<Cell &>(S_TASK_UNWRAP); }
VC_UNIT(matrix_task_unwrap_void, C08_C19_C07) { observe<void>(S_TASK_UNWRAP); }
