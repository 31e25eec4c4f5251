// @std: gnu++20
// Coroutines: co_await on futures and shared futures, coroutines that return futures.
#include "kit.h"

static int started = 0, resumed = 0, frames = 0, seen = -7;
struct InFrame { // a local of the coroutine: counts live frames
  InFrame() { ++frames; }
  InFrame(const InFrame &) { ++frames; }
  ~InFrame() { --frames; }
};

// R: result of the coroutine; it returns the awaited value, or lets the awaited exception pass
template <typename T, typename F> static pc::future<T> pass_on(F f) {
  InFrame here;
  ++started;
  if constexpr (std::is_void<T>::value) {
    co_await f;
    ++resumed;
  } else {
    auto &&r = co_await f;
    ++resumed;
    co_return static_cast<T>(static_cast<std::add_rvalue_reference_t<T>>(const_cast<std::remove_const_t<std::remove_reference_t<decltype(r)>> &>(r)));
  }
}
// observes instead: code of what co_await yields
template <typename T, typename F> static pc::future<void> observe(F f) {
  InFrame here;
  ++started;
  try {
    if constexpr (std::is_void<T>::value) { co_await f; ++resumed; seen = 0; }
    else { auto &&r = co_await f; ++resumed; seen = K<T>::of(const_cast<std::remove_const_t<std::remove_reference_t<decltype(r)>> &>(r)); }
  } catch (const boom &b) { ++resumed; seen = b.id; }
  catch (const std::future_error &e) { ++resumed; seen = -1 - e.code().value(); }
  if (std::is_same<F, pc::shared_future<T>>::value) VC_ASSERT(f.valid() && get_code<T>(pc::shared_future<T>(std::move(f))) == seen, "C21: awaiting does not consume a shared_future");
  else VC_ASSERT(!f.valid(), "C21: awaiting a future takes its result");
}

template <typename T, typename F> void await_one() {
  {
    int id = K<T>::fresh_id(3), how = vc_choice(4), want = BROKEN; // value moved / copied, exception, abandoned
    bool before = vc_choice(2), keep = vc_choice(2);
    auto pf = pc::make_promise<T>();
    F f{std::move(pf.second)};
    auto complete = [&] { if (how == 3) { auto dead = std::move(pf.first); } else want = satisfy<T>(pf.first, how, id, 1005); };
    if (before) complete();
    pc::future<void> g = observe<T, F>(std::move(f));
    VC_ASSERT(started == 1, "C21: a coroutine starts at once");
    if (!before) {
      VC_ASSERT(resumed == 0 && !g.is_ready() && frames == 1, "C21: suspended while the awaited future is not ready");
      if (!keep) g = {};
      VC_ASSERT(frames == 1 && resumed == 0 && pf.first.is_awaiten(), "C21: a suspended coroutine lives on when its own future is dropped");
      complete();
    }
    VC_ASSERT(resumed == 1 && seen == want, "C21: resumed exactly once, with the awaited result");
    VC_ASSERT(frames == 0, "C21: the frame is destroyed when the coroutine has finished");
    if (before || keep) VC_ASSERT(g.is_ready() && get_code(g) == 0, "C21: the coroutine's future is ready when it has returned");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(coro_await_val, C21_C02_C03) { await_one<Val, pc::future<Val>>(); }
VC_UNIT(coro_await_ref, C21_C02_C03) { await_one<Cell &, pc::future<Cell &>>(); }
VC_UNIT(coro_await_void, C21_C02_C03) { await_one<void, pc::future<void>>(); }
VC_UNIT(coro_await_sval, C21_C02_C03) { await_one<Val, pc::shared_future<Val>>(); }
VC_UNIT(coro_await_sref, C21_C02_C03) { await_one<Cell &, pc::shared_future<Cell &>>(); }
VC_UNIT(coro_await_svoid, C21_C02_C03) { await_one<void, pc::shared_future<void>>(); }

// what the coroutine returns or throws is the result of its future
template <typename T> static pc::future<T> produce(int how, int id) {
  InFrame here;
  ++started;
  if (how == 2) throw boom{1006};
  if constexpr (std::is_void<T>::value) co_return;
  else if constexpr (std::is_reference<T>::value) co_return K<T>::make(id);
  else if (how == 0) co_return Val{id};
  else { const Val v{id}; co_return v; }
}
template <typename T> void return_one() {
  {
    int how = vc_choice(3), id = K<T>::fresh_id(2);
    auto f = produce<T>(how, id);
    VC_ASSERT(started == 1 && frames == 0 && f.valid() && f.is_ready(), "C21: a coroutine that does not suspend has finished when the call returns");
    VC_ASSERT(get_code<T>(f) == (how == 2 ? 1006 : id), "C21: the returned value or the exception is the result of the future");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(coro_return_val, C21_C01) { return_one<Val>(); }
VC_UNIT(coro_return_ref, C21_C01) { return_one<Cell &>(); }
VC_UNIT(coro_return_void, C21_C01) { return_one<void>(); }

// a coroutine awaiting a coroutine awaiting a future; callbacks on the outer one
template <typename T, typename F> void chain() {
  {
    int id = K<T>::fresh_id(3), how = vc_choice(3), order = vc_choice(2);
    auto pf = pc::make_promise<T>();
    int want = 0, notified = 0;
    if (order == 0) want = satisfy<T>(pf.first, how, id, 1005);
    pc::future<T> g = pass_on<T>(pass_on<T>(F{std::move(pf.second)}));
    g.notify([&] { VC_ASSERT(g.is_ready(), "C21: ready when notified"); ++notified; });
    VC_ASSERT(started == 2 && notified == (order == 0) && frames == (order == 0 ? 0 : 2), "C21: both coroutines start at once and wait for the innermost future");
    if (order == 1) want = satisfy<T>(pf.first, how, id, 1005);
    VC_ASSERT(notified == 1 && frames == 0, "C21: both coroutines finish when the innermost future is ready");
    VC_ASSERT(resumed == (how == 2 ? 0 : 2) && get_code<T>(g) == want, "C21: value or exception passes through");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(coro_chain_val, C21) { chain<Val, pc::future<Val>>(); }
VC_UNIT(coro_chain_ref, C21) { chain<Cell &, pc::future<Cell &>>(); }
VC_UNIT(coro_chain_void, C21) { chain<void, pc::future<void>>(); }

// completion in another thread, at any moment of the suspension; the frame may be destroyed by the other thread
template <typename T, typename F> void await_race() {
  {
    auto pf = pc::make_promise<T>();
    int payload = 0, id = K<T>::fresh_id(2), how = vc_choice(2) ? 2 : 0;
    F f{std::move(pf.second)};
    auto producer = [&, p = std::move(pf.first)]() mutable { payload = 9; satisfy<T>(p, how, id, 1005); };
    int t = spawn(producer);
    pc::future<void> g = observe<T, F>(std::move(f));
    g.wait();
    VC_ASSERT(payload == 9 && resumed == 1 && seen == (how == 2 ? 1005 : id), "C21: resumed once with the result, completely visible");
    vc_join(t);
    VC_ASSERT(frames == 0, "C21: the frame is destroyed exactly once");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(coro_race_val, C21_C02_C03) { await_race<Val, pc::future<Val>>(); }
VC_UNIT(coro_race_void, C21_C02_C03) { await_race<void, pc::future<void>>(); }
VC_UNIT(coro_race_shared, C21_C02_C03) { await_race<Val, pc::shared_future<Val>>(); }

// the coroutine's own future is dropped in one thread while another resumes it
VC_UNIT(coro_drop_race, C21_C09) {
  {
    auto pf = pc::make_promise<Val>();
    auto producer = [&, p = std::move(pf.first)]() mutable { p.set_value(Val{4}); };
    int t = spawn(producer);
    { pc::future<Val> g = pass_on<Val>(std::move(pf.second)); }
    vc_join(t);
    VC_ASSERT(resumed == 1 && frames == 0, "C21: a coroutine finishes even if nobody waits for it");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// several coroutines and callbacks on one shared future: each resumed once
VC_UNIT(coro_many, C21_C02) {
  {
    auto pf = pc::make_promise<Val>();
    pc::shared_future<Val> s = pf.second.share();
    int notified = 0;
    auto a = pass_on<Val>(s);
    s.notify([&] { ++notified; });
    auto b = pass_on<Val>(s);
    VC_ASSERT(resumed == 0 && frames == 2, "C21: suspended");
    { pc::shared_future<Val> gone = std::move(s); }
    pf.first.set_value(Val{8});
    VC_ASSERT(resumed == 2 && notified == 1 && frames == 0, "C21: every waiting coroutine is resumed once");
    seen = a.is_ready() + b.is_ready();
    VC_ASSERT(seen == 2, "C21: both are ready");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
