// Attaching callbacks, readiness and publication, under all schedules.
#include "kit.h"

// a completer races with two attachers; one callback was attached before
template <typename T> void attach_race(bool exc) {
  {
    auto pf = pc::make_promise<T>();
    auto s = pf.second.share();
    int id = std::is_void<T>::value ? 0 : 2;
    int payload = 0;                        // written by the completer before completing
    int ran[3] = {0, 0, 0}, by[3] = {-1, -1, -1};
    int arg1 = 0, arg2 = 0;                 // written by the attachers before attaching
    auto cb = [&](int k) {
      ++ran[k];
      by[k] = vc_tid();
      VC_ASSERT(payload == 77, "C03: what the producer wrote before completing is visible to callbacks");
      VC_ASSERT(k == 0 || (k == 1 ? arg1 : arg2) == 10 + k, "C03: what the attacher wrote before attaching is visible to the callback");
    };
    s.notify([&, s] { VC_ASSERT(s.is_ready(), "C02: a callback runs only when the future is ready"); cb(0); });
    VC_ASSERT(ran[0] == 0, "C02: no callback before completion");
    auto c = [&] { payload = 77; if (exc) pf.first.set_exception(mk(1001)); else K<T>::set(pf.first, id); };
    auto a1 = [&, s]() mutable {
      arg1 = 11;
      s.notify([&, s] { VC_ASSERT(s.is_ready(), "C02: a callback runs only when the future is ready"); cb(1); });
    };
    auto a2 = [&, s]() mutable {
      arg2 = 12;
      s.notify([&, s] { VC_ASSERT(s.is_ready(), "C02: a callback runs only when the future is ready"); cb(2); });
    };
    int tc = spawn(c), t1 = spawn(a1), t2 = spawn(a2);
    vc_join_all();
    for (int k = 0; k < 3; ++k) VC_ASSERT(ran[k] == 1, "C02: every attached callback runs exactly once");
    VC_ASSERT(by[0] == tc, "C02: a callback attached before completion is run by the completing thread");
    VC_ASSERT(by[1] == tc || by[1] == t1, "C02: run by the completer or by its attacher");
    VC_ASSERT(by[2] == tc || by[2] == t2, "C02: run by the completer or by its attacher");
    VC_ASSERT(get_code<T>(s) == (exc ? 1001 : id), "C01: result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(attach_race_val, C02_C03_C17) { attach_race<Val>(false); }
VC_UNIT(attach_race_void, C02_C03) { attach_race<void>(false); }
VC_UNIT(attach_race_exc, C02_C03) { attach_race<Cell &>(true); }

// one attacher, one completer, and the attacher reads the result in its callback (wherever it runs)
template <typename T> void attach_read() {
  {
    auto pf = pc::make_promise<T>();
    int id = std::is_void<T>::value ? 0 : 2;
    int got = -7777, ran = 0;
    int payload = 0;
    auto c = [&] { payload = 5; K<T>::set(pf.first, id); };
    auto a = [&] {
      pf.second.notify([&] { ++ran; VC_ASSERT(payload == 5, "C03: producer's writes are visible"); got = get_code<T>(pf.second); });
    };
    spawn(c); spawn(a);
    vc_join_all();
    VC_ASSERT(ran == 1, "C02: exactly once");
    VC_ASSERT(got == id, "C03: the complete result is visible to the callback");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(attach_read_val, C02_C03) { attach_read<Val>(); }
VC_UNIT(attach_read_ref, C02_C03) { attach_read<Cell &>(); }
VC_UNIT(attach_read_void, C02_C03) { attach_read<void>(); }

// observers that learn readiness in every possible way and then read, with no other synchronisation
template <typename T> void observe() {
  {
    auto pf = pc::make_promise<T>();
    auto s = pf.second.share();
    int id = std::is_void<T>::value ? 0 : 2;
    int payload = 0;
    bool exc = vc_choice(2);
    int want = exc ? 1001 : id;
    auto c = [&] { payload = 5; if (exc) pf.first.set_exception(mk(1001)); else K<T>::set(pf.first, id); };
    int how = vc_choice(4);
    auto o = [&, s]() mutable {
      switch (how) {
      case 0:
        if (!s.is_ready()) return;
        break;
      case 1: s.wait(); break;
      case 2: {
        bool mine = false, back = false;
        int me = vc_tid();
        // the callback runs at once in this thread only if the future is ready
        s.notify([&mine, &back, me] { if (vc_tid() == me && !back) mine = true; });
        back = true;
        if (!mine) { s.wait(); }
        break;
      }
      default: {
        auto st = s.wait_for(std::chrono::seconds(1));
        if (st != pc::future_status::ready) return;
      }
      }
      VC_ASSERT(payload == 5, "C03: observing readiness makes the producer's writes visible");
      VC_ASSERT(get_code<T>(s) == want, "C03: observing readiness makes the result visible");
    };
    spawn(c); spawn(o);
    vc_join_all();
    VC_ASSERT(get_code<T>(s) == want, "C01: result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(observe_val, C03) { vc_opt("leaks_ok", 0); observe<Val>(); }
VC_UNIT(observe_ref, C03) { observe<Cell &>(); }
VC_UNIT(observe_void, C03) { observe<void>(); }

// publication through the library's own combinators and continuations
VC_UNIT(observe_next, C03_C07) {
  {
    auto pf = pc::make_promise<Val>();
    int payload = 0, seen = 0;
    auto c = [&] { payload = 5; pf.first.set_value(Val{2}); };
    auto o = [&] {
      auto g = pf.second.next([&](Val v) { VC_ASSERT(payload == 5, "C03: visible to the continuation"); seen = 1; return v.id + 1; });
      VC_ASSERT(g.get() == 3, "C07: result of the continuation");
      VC_ASSERT(seen == 1 && payload == 5, "C03: what the continuation wrote is visible to the reader of its result");
    };
    spawn(c); spawn(o);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(observe_then_chain, C03_C07_C02) {
  {
    auto pf = pc::make_promise<Val>();
    int payload = 0;
    auto g = pf.second.then([&](pc::future<Val> f) { VC_ASSERT(payload == 5, "C03: visible"); return f.get().id + 1; }).share();
    auto c = [&] { payload = 5; pf.first.set_value(Val{2}); };
    auto o1 = [&] { VC_ASSERT(g.get() == 3 && payload == 5, "C03: visible through the chain"); };
    auto o2 = [&] { if (g.is_ready()) VC_ASSERT(g.get() == 3 && payload == 5, "C03: visible through the chain"); };
    spawn(c); spawn(o1); spawn(o2);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// The stored result is complete before readiness and never written afterwards, whatever happens next
VC_UNIT(result_frozen, C03_C01) {
  {
    auto pf = pc::make_promise<Val>();
    auto s = pf.second.share();
    pf.first.set_value(Val{3});
    const Val &v = s.get();
    vc_freeze(&v, sizeof v, "the result of a ready shared future");
    (void)thrown([&] { pf.first.set_value(Val{4}); });
    (void)thrown([&] { pf.first.set_exception(mk(1)); });
    auto g = s.next([](const Val &x) { return x.id; });
    auto h = s.then([](pc::shared_future<Val> x) { return x.get().id; });
    auto a = pc::when_all(s, s);
    auto y = pc::when_any(s, s);
    { auto p = std::move(pf.first); }
    VC_ASSERT(g.get() == 3 && h.get() == 3 && s.get().is(3), "C03: result stays");
    vc_unfreeze(&v);
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// callbacks attached from inside callbacks; destruction of the last handle inside a callback
VC_UNIT(attach_nested, C02_C17) {
  {
    auto pf = pc::make_promise<Val>();
    auto s = pf.second.share();
    int outer = 0, inner = 0;
    s.notify([&] { ++outer; s.notify([&] { ++inner; }); VC_ASSERT(inner == 1, "C02: attaching to a ready future runs the callback at once"); });
    s.notify([&] { ++outer; });
    pf.first.set_value(Val{1});
    VC_ASSERT(outer == 2 && inner == 1, "C02: exactly once each");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(drop_inside, C02_C17_C09) {
  {
    auto pf = pc::make_promise<Val>();
    auto f = std::make_unique<pc::future<Val>>(std::move(pf.second));
    int ran = 0;
    auto *raw = f.get();
    raw->notify([&, f = std::move(f)]() mutable { ++ran; f.reset(); });
    raw->notify([&] { ++ran; });
    pf.first.set_value(Val{1});
    VC_ASSERT(ran == 2, "C02: all callbacks run although the last future goes away in one of them");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// callbacks never run are destroyed exactly once with what they captured
VC_UNIT(never_completed, C17_C09_C02) {
  {
    auto pf = pc::make_promise<Val>();
    int ran = 0;
    int n = vc_choice(4);
    for (int i = 0; i < n; ++i) pf.second.notify([&ran, v = Val{i}] { ++ran; });
    VC_ASSERT(live == n, "C17: captured once");
    if (vc_choice(2)) { auto f = std::move(pf.second); VC_ASSERT(live == n, "C17: still there"); }
    else { auto p = std::move(pf.first); { auto q = std::move(p); } VC_ASSERT(ran == n, "C04: abandoned promise runs them"); }
    VC_ASSERT(live == 0, "C17: callbacks are destroyed with the state");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// order independence: many callbacks, one run (list walk), each exactly once and each freed exactly once
VC_UNIT(many_callbacks, C02_C17) {
  {
    auto pf = pc::make_promise<void>();
    int n = vc_choice(6);
    int ran[6] = {};
    for (int i = 0; i < n; ++i) pf.second.notify([&ran, i, v = Val{i}] { VC_ASSERT(v.is(i), "C17: capture intact"); ++ran[i]; });
    pf.first.set_value();
    for (int i = 0; i < n; ++i) VC_ASSERT(ran[i] == 1, "C02: exactly once");
    VC_ASSERT(live == 0, "C17: every list node freed after being run");
  }
}

// memory runs out while attaching: the exception reaches the caller, nothing else is disturbed
VC_UNIT(attach_no_memory, C02_C17_C18) {
  {
    auto pf = pc::make_promise<Val>();
    int ran = 0, ran2 = 0;
    pf.second.notify([&] { ++ran; });
    vc_opt("alloc_fail", 1);
    int r = thrown([&] { pf.second.notify([&ran2, v = Val{1}] { ++ran2; }); });
    vc_opt("alloc_fail", 0);
    VC_ASSERT(r == NOTHROW || r == -1000, "C02: bad_alloc reaches the caller");
    VC_ASSERT(live == (r == NOTHROW ? 1 : 0), "C17: the refused callback is destroyed");
    pf.first.set_value(Val{3});
    VC_ASSERT(ran == 1 && ran2 == (r == NOTHROW ? 1 : 0), "C02: exactly the attached callbacks run");
    VC_ASSERT(pf.second.get().is(3), "C01: result");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// attaching to a ready future allocates or not, but runs at once
VC_UNIT(attach_ready, C02) {
  auto pf = pc::make_promise<Val>();
  pf.first.set_value(Val{3});
  int ran = 0;
  pf.second.notify([&] { ++ran; });
  VC_ASSERT(ran == 1, "C02: attached to a ready future: runs at once");
  pf.second.notify([&] { ++ran; });
  VC_ASSERT(ran == 2, "C02: attached to a ready future: runs at once");
  VC_ASSERT(pf.second.get().is(3), "C02: reading still works");
}
