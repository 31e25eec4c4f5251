// when_all and when_any.
#include "kit.h"

// inputs: n pending-or-ready futures, completed in a chosen order
template <typename T> struct In {
  pc::promise<T> p[4];
  pc::future<T> f[4];
  bool done[4] = {};
  bool err[4] = {};
  int n;
  explicit In(int n) : n(n) { for (int i = 0; i < n; ++i) { auto pf = pc::make_promise<T>(); p[i] = std::move(pf.first); f[i] = std::move(pf.second); } }
  int id(int i) const { return std::is_void<T>::value ? 0 : i + 1; }
  int want(int i) const { return err[i] ? 1000 + i : id(i); }
  void complete(int i) { done[i] = true; if (err[i]) p[i].set_exception(mk(1000 + i)); else K<T>::set(p[i], id(i)); }
  int left() const { int k = 0; for (int i = 0; i < n; ++i) k += !done[i]; return k; }
  // picks one of those not completed
  int pick() const { int k = vc_choice(left()); for (int i = 0; i < n; ++i) if (!done[i] && k-- == 0) return i; return -1; }
};

template <typename F> std::vector<F> &futures_of(std::vector<F> &v) { return v; }
template <typename F> std::vector<F> &futures_of(pc::when_any_result<std::vector<F>> &r) { return r.futures; }
template <typename F> std::vector<pc::future<F>> copies(std::vector<pc::future<F>> &) { return {}; }
template <typename F> std::vector<pc::shared_future<F>> copies(std::vector<pc::shared_future<F>> &v) { return v; }

// ---------------------------------------------------------------------------------------------- when_all, vectors
template <typename T, typename Fut, int Form> void when_all_vec(int n) {
  {
    In<T> in(n);
    int ready = n ? vc_choice(1 << n) : 0;
    in.err[0] = n && vc_choice(2);
    for (int i = 0; i < n; ++i) if (ready >> i & 1) in.complete(i);
    std::vector<Fut> v;
    for (int i = 0; i < n; ++i) v.emplace_back(std::move(in.f[i]));
    pc::future<std::vector<Fut>> w;
    if (Form == 0) w = pc::when_all(v.begin(), v.end());
    else w = pc::when_all(std::move(v));
    int notified = 0;
    w.notify([&] { ++notified; });
    while (in.left()) {
      VC_ASSERT(!w.is_ready() && notified == 0, "C11: not ready before every input is");
      in.complete(in.pick());
    }
    VC_ASSERT(w.is_ready() && notified == 1, "C11: ready once all inputs are");
    auto r = w.get();
    VC_ASSERT(int(r.size()) == n, "C11: every input is in the result");
    for (int i = 0; i < n; ++i) {
      VC_ASSERT(r[i].valid() && r[i].is_ready(), "C11: each input is ready");
      VC_ASSERT(get_code<T>(r[i]) == in.want(i), "C11: input order is kept, each with its own result");
    }
    if (Form == 0 && std::is_same<Fut, pc::shared_future<T>>::value)
      for (int i = 0; i < n; ++i) VC_ASSERT(v[i].valid() && get_code<T>(v[i]) == in.want(i), "C11: shared inputs are copied");
    if (Form == 0 && std::is_same<Fut, pc::future<T>>::value)
      for (int i = 0; i < n; ++i) VC_ASSERT(!v[i].valid(), "C11: unique inputs are moved");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(all_vec0, C11) { if (vc_choice(2)) { when_all_vec<Val, pc::future<Val>, 0>(0); when_all_vec<Val, pc::shared_future<Val>, 0>(0); } else { when_all_vec<Val, pc::future<Val>, 1>(0); when_all_vec<Val, pc::shared_future<Val>, 1>(0); } }
VC_UNIT(all_vec_it, C11) { when_all_vec<Val, pc::future<Val>, 0>(1 + vc_choice(3)); }
VC_UNIT(all_vec_mv, C11) { when_all_vec<Val, pc::future<Val>, 1>(1 + vc_choice(3)); }
VC_UNIT(all_vec_sit, C11) { when_all_vec<Val, pc::shared_future<Val>, 0>(1 + vc_choice(3)); }
VC_UNIT(all_vec_smv, C11) { when_all_vec<Val, pc::shared_future<Val>, 1>(1 + vc_choice(2)); }
VC_UNIT(all_vec_void, C11) { when_all_vec<void, pc::future<void>, 0>(1 + vc_choice(2)); }
VC_UNIT(all_vec_ref, C11) { when_all_vec<Cell &, pc::future<Cell &>, 1>(1 + vc_choice(2)); }

// ---------------------------------------------------------------------------------------------- when_all, tuples
VC_UNIT(all_tuple, C11) {
  {
    In<Val> in(2);
    In<void> in0(1);
    in.err[1] = vc_choice(2);
    int ready = vc_choice(8);
    if (ready & 1) in.complete(0);
    if (ready & 2) in.complete(1);
    if (ready & 4) in0.complete(0);
    auto s = in.f[1].share();
    auto w = pc::when_all(std::move(in.f[0]), s, std::move(in0.f[0]));
    VC_ASSERT(!in.f[0].valid() && s.valid() && !in0.f[0].valid(), "C11: unique inputs moved, shared ones copied");
    while (in.left() + in0.left()) {
      VC_ASSERT(!w.is_ready(), "C11: not ready before every input is");
      if (in0.left() && (!in.left() || vc_choice(2))) in0.complete(0); else in.complete(in.pick());
    }
    VC_ASSERT(w.is_ready(), "C11: ready once all inputs are");
    auto r = w.get();
    VC_ASSERT(get_code<Val>(std::get<0>(r)) == in.want(0) && get_code<Val>(std::get<1>(r)) == in.want(1) && get_code<void>(std::get<2>(r)) == 0, "C11: in input order with their results");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(all_none, C11) {
  auto w = pc::when_all();
  VC_ASSERT(w.valid() && w.is_ready(), "C11: no inputs: ready");
  w.get();
  std::vector<pc::shared_future<Val>> none;
  auto x = pc::when_all(none.begin(), none.end());
  VC_ASSERT(x.is_ready() && x.get().empty(), "C11: empty range: ready");
  auto y = pc::when_all(std::move(none));
  VC_ASSERT(y.is_ready() && y.get().empty(), "C11: empty vector: ready");
}
// concurrent completion; the observer of the combined future sees every input's result
VC_UNIT(all_race, C11_C03_C02) {
  {
    In<Val> in(2);
    auto w = pc::when_all(std::move(in.f[0]), std::move(in.f[1]));
    int pay[2] = {0, 0};
    auto c0 = [&] { pay[0] = 1; in.p[0].set_value(Val{1}); };
    auto c1 = [&] { pay[1] = 2; in.p[1].set_value(Val{2}); };
    auto o = [&] {
      auto r = w.get();
      VC_ASSERT(std::get<0>(r).is_ready() && std::get<1>(r).is_ready(), "C11: all inputs observable as ready");
      VC_ASSERT(pay[0] == 1 && pay[1] == 2, "C11: everything written before completing the inputs is visible");
      VC_ASSERT(get_code(std::get<0>(r)) == 1 && get_code(std::get<1>(r)) == 2, "C11: results");
    };
    spawn(c0); spawn(c1); spawn(o);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(all_race_poll, C11_C03) {
  {
    In<Val> in(2);
    std::vector<pc::future<Val>> v;
    v.push_back(std::move(in.f[0])); v.push_back(std::move(in.f[1]));
    auto w = pc::when_all(std::move(v)).share();
    int pay[2] = {0, 0}, notified = 0;
    w.notify([&] { ++notified; });
    auto c0 = [&] { pay[0] = 1; in.p[0].set_value(Val{1}); };
    auto c1 = [&] { pay[1] = 2; in.p[1].set_value(Val{2}); };
    auto o = [&] {
      if (!w.is_ready()) return;
      VC_ASSERT(pay[0] == 1 && pay[1] == 2, "C11: ready only when all inputs are, with everything visible");
      VC_ASSERT(w.get()[0].is_ready() && w.get()[1].is_ready(), "C11: inputs ready");
    };
    spawn(c0); spawn(c1); spawn(o);
    vc_join_all();
    VC_ASSERT(w.is_ready() && notified == 1, "C11: ready once all inputs are");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
// inputs complete while when_all is being called
VC_UNIT(all_race_make, C11_C02) {
  {
    In<Val> in(2);
    pc::future<std::tuple<pc::future<Val>, pc::future<Val>>> w;
    auto c0 = [&] { in.p[0].set_value(Val{1}); };
    auto c1 = [&] { in.p[1].set_value(Val{2}); };
    auto m = [&] { w = pc::when_all(std::move(in.f[0]), std::move(in.f[1])); };
    spawn(m); spawn(c0); spawn(c1);
    vc_join_all();
    VC_ASSERT(w.is_ready(), "C11: ready once all inputs are");
    auto r = w.get();
    VC_ASSERT(get_code(std::get<0>(r)) == 1 && get_code(std::get<1>(r)) == 2, "C11: results");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(all_race3, C11) {
  {
    In<void> in(3);
    auto w = pc::when_all(std::move(in.f[0]), std::move(in.f[1]), std::move(in.f[2]));
    int n = 0;
    w.notify([&] { ++n; });
    auto c0 = [&] { in.p[0].set_value(); };
    auto c1 = [&] { in.p[1].set_value(); };
    auto c2 = [&] { in.p[2].set_value(); };
    spawn(c0); spawn(c1); spawn(c2);
    vc_join_all();
    VC_ASSERT(w.is_ready() && n == 1, "C11: ready exactly once");
  }
}
// the combined future (or what is attached to it) is dropped; inputs complete later, shared inputs stay observable
template <typename Fut, typename W> void combined_dropped(W when) {
  {
    In<Val> in(2);
    bool first = vc_choice(2);
    std::vector<Fut> v, left;
    for (int i = 0; i < 2; ++i) v.emplace_back(std::move(in.f[i]));
    if (std::is_same<Fut, pc::shared_future<Val>>::value) left = copies(v);
    int ran = 0;
    bool cnt = vc_choice(2), waited = false;
    {
      auto w = when(std::move(v));
      if (first) in.complete(in.pick());
      if (cnt) { waited = w.is_ready(); auto g = w.next([&ran](auto r) { ++ran; return int(futures_of(r).size()); }); }
    }
    while (in.left()) in.complete(in.pick());
    VC_ASSERT(ran == waited, "C09: a dropped continuation is not run");
    for (std::size_t i = 0; i < left.size(); ++i) VC_ASSERT(left[i].is_ready() && get_code<Val>(left[i]) == in.want(int(i)), "C11: shared inputs keep their results");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(all_dropped, C11_C17_C09) { combined_dropped<pc::future<Val>>([](auto v) { return pc::when_all(std::move(v)); }); }
VC_UNIT(all_dropped_shared, C11_C17_C09) { combined_dropped<pc::shared_future<Val>>([](auto v) { return pc::when_all(std::move(v)); }); }
VC_UNIT(any_dropped, C12_C17_C09) { combined_dropped<pc::future<Val>>([](auto v) { return pc::when_any(std::move(v)); }); }
VC_UNIT(any_dropped_shared, C12_C17_C09) { combined_dropped<pc::shared_future<Val>>([](auto v) { return pc::when_any(std::move(v)); }); }
VC_UNIT(all_dropped_tuple, C11_C17) {
  {
    In<Val> in(2);
    auto s = in.f[0].share();
    { auto w = pc::when_all(s, std::move(in.f[1])); }
    while (in.left()) in.complete(in.pick());
    VC_ASSERT(get_code<Val>(s) == in.want(0), "C11: shared inputs keep their results");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// ---------------------------------------------------------------------------------------------- when_any
template <typename T, typename Fut, int Form> void when_any_vec(int n) {
  {
    In<T> in(n);
    int ready = n ? vc_choice(1 << n) : 0;
    in.err[0] = n && vc_choice(2);
    for (int i = 0; i < n; ++i) if (ready >> i & 1) in.complete(i);
    std::vector<Fut> v;
    for (int i = 0; i < n; ++i) v.emplace_back(std::move(in.f[i]));
    pc::future<pc::when_any_result<std::vector<Fut>>> w;
    if (Form == 0) w = pc::when_any(v.begin(), v.end());
    else w = pc::when_any(std::move(v));
    if (n == 0) {
      VC_ASSERT(w.is_ready(), "C12: no inputs: ready");
      auto r = w.get();
      VC_ASSERT(r.index == static_cast<std::size_t>(-1) && r.futures.empty(), "C12: no inputs: index is -1");
      return;
    }
    int notified = 0;
    w.notify([&] { ++notified; });
    if (!ready) {
      VC_ASSERT(!w.is_ready() && notified == 0, "C12: not ready before the first input");
      in.complete(in.pick());
    }
    VC_ASSERT(w.is_ready() && notified == 1, "C12: ready as soon as the first input is");
    bool done_before[4];
    for (int i = 0; i < n; ++i) done_before[i] = in.done[i];
    bool more = vc_choice(2);
    if (more) while (in.left()) in.complete(in.pick());
    VC_ASSERT(notified == 1, "C12: ready once");
    auto r = w.get();
    VC_ASSERT(r.index < std::size_t(n) && done_before[r.index], "C12: index of an input that was ready first, unchanged by later completions");
    VC_ASSERT(int(r.futures.size()) == n, "C12: all inputs are there");
    if (!more) while (in.left()) in.complete(in.pick());
    for (int i = 0; i < n; ++i) VC_ASSERT(get_code<T>(r.futures[i]) == in.want(i), "C12: inputs keep their order");
    if (Form == 0 && std::is_same<Fut, pc::shared_future<T>>::value)
      for (int i = 0; i < n; ++i) VC_ASSERT(v[i].valid() && get_code<T>(v[i]) == in.want(i), "C12: shared inputs are copied");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(any_vec0, C12) { if (vc_choice(2)) { when_any_vec<Val, pc::future<Val>, 0>(0); when_any_vec<Val, pc::shared_future<Val>, 0>(0); } else { when_any_vec<Val, pc::future<Val>, 1>(0); when_any_vec<Val, pc::shared_future<Val>, 1>(0); } }
VC_UNIT(any_vec_it, C12) { when_any_vec<Val, pc::future<Val>, 0>(1 + vc_choice(3)); }
VC_UNIT(any_vec_mv, C12) { when_any_vec<Val, pc::future<Val>, 1>(1 + vc_choice(3)); }
VC_UNIT(any_vec_sit, C12) { when_any_vec<Val, pc::shared_future<Val>, 0>(1 + vc_choice(3)); }
VC_UNIT(any_vec_smv, C12) { when_any_vec<Val, pc::shared_future<Val>, 1>(1 + vc_choice(2)); }
VC_UNIT(any_vec_void, C12) { when_any_vec<void, pc::future<void>, 0>(1 + vc_choice(2)); }
VC_UNIT(any_vec_ref, C12) { when_any_vec<Cell &, pc::future<Cell &>, 1>(1 + vc_choice(2)); }
VC_UNIT(any_tuple, C12) {
  {
    In<Val> in(2);
    In<void> in0(1);
    int ready = vc_choice(8);
    if (ready & 1) in.complete(0);
    if (ready & 2) in.complete(1);
    if (ready & 4) in0.complete(0);
    auto s = in.f[1].share();
    auto w = pc::when_any(std::move(in.f[0]), s, std::move(in0.f[0]));
    if (!ready) {
      VC_ASSERT(!w.is_ready(), "C12: not ready before the first input");
      if (vc_choice(2)) in0.complete(0); else in.complete(in.pick());
    }
    VC_ASSERT(w.is_ready(), "C12: ready as soon as the first input is");
    bool d[3] = {in.done[0], in.done[1], in0.done[0]};
    if (vc_choice(2)) { while (in.left()) in.complete(in.pick()); if (in0.left()) in0.complete(0); }
    auto r = w.get();
    VC_ASSERT(r.index < 3 && d[r.index], "C12: index of a ready input");
    bool rr[3] = {std::get<0>(r.futures).is_ready(), std::get<1>(r.futures).is_ready(), std::get<2>(r.futures).is_ready()};
    VC_ASSERT(rr[0] == in.done[0] && rr[1] == in.done[1] && rr[2] == in0.done[0], "C12: inputs keep their order");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(any_none, C12) {
  auto w = pc::when_any();
  VC_ASSERT(w.valid() && w.is_ready(), "C12: no inputs: ready");
  VC_ASSERT(w.get().index == static_cast<std::size_t>(-1), "C12: index is -1");
}
VC_UNIT(any_race, C12_C03_C02) {
  {
    In<Val> in(2);
    auto w = pc::when_any(std::move(in.f[0]), std::move(in.f[1]));
    int pay[2] = {0, 0};
    auto c0 = [&] { pay[0] = 1; in.p[0].set_value(Val{1}); };
    auto c1 = [&] { pay[1] = 2; in.p[1].set_value(Val{2}); };
    auto o = [&] {
      auto r = w.get();
      VC_ASSERT(r.index < 2, "C12: index of an input");
      auto &f = r.index == 0 ? std::get<0>(r.futures) : std::get<1>(r.futures);
      VC_ASSERT(f.is_ready() && pay[r.index] == int(r.index) + 1, "C12: the indicated input is ready and visible");
      VC_ASSERT(get_code(f) == int(r.index) + 1, "C12: its result");
    };
    spawn(c0); spawn(c1); spawn(o);
    vc_join_all();
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(any_race_poll, C12_C03) {
  {
    In<Val> in(2);
    auto w = pc::when_any(std::move(in.f[0]), std::move(in.f[1])).share();
    int notified = 0;
    std::size_t first = 99;
    w.notify([&] { ++notified; });
    auto c0 = [&] { in.p[0].set_value(Val{1}); };
    auto c1 = [&] { in.p[1].set_value(Val{2}); };
    auto o = [&] {
      if (!w.is_ready()) return;
      first = w.get().index;
      VC_ASSERT(first < 2, "C12: a ready result has an index");
      VC_ASSERT((first == 0 ? std::get<0>(w.get().futures) : std::get<1>(w.get().futures)).is_ready(), "C12: of a ready input");
    };
    spawn(c0); spawn(c1); spawn(o);
    vc_join_all();
    VC_ASSERT(w.is_ready() && notified == 1, "C12: ready exactly once");
    VC_ASSERT(first == 99 || w.get().index == first, "C12: the index does not change");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(any_race_make, C12_C02) {
  {
    In<Val> in(2);
    pc::future<pc::when_any_result<std::tuple<pc::future<Val>, pc::future<Val>>>> w;
    auto c0 = [&] { in.p[0].set_value(Val{1}); };
    auto c1 = [&] { in.p[1].set_value(Val{2}); };
    auto m = [&] { w = pc::when_any(std::move(in.f[0]), std::move(in.f[1])); };
    spawn(m); spawn(c0); spawn(c1);
    vc_join_all();
    VC_ASSERT(w.is_ready(), "C12: ready");
    auto r = w.get();
    VC_ASSERT(r.index < 2, "C12: index of an input");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(any_dropped_tuple, C12_C17) {
  {
    In<Val> in(2);
    auto s = in.f[0].share();
    { auto w = pc::when_any(s, std::move(in.f[1])); if (vc_choice(2)) in.complete(0); }
    while (in.left()) in.complete(in.pick());
    VC_ASSERT(get_code<Val>(s) == in.want(0), "C12: shared inputs keep their results");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// ---------------------------------------------------------------------------------------------- other forms of input
namespace {
// single-pass iterator: all copies share one position; reading past it or twice is impossible
template <typename Fut> struct OnePass {
  using iterator_category = std::input_iterator_tag;
  using value_type = Fut;
  using difference_type = std::ptrdiff_t;
  using pointer = Fut *;
  using reference = Fut &;
  struct Src { Fut *cur; Fut *end; };
  Src *src;
  Fut &operator*() const { VC_ASSERT(src && src->cur != src->end, "C11: the range is not read past its end"); return *src->cur; }
  Fut *operator->() const { return &**this; }
  OnePass &operator++() { VC_ASSERT(src && src->cur != src->end, "C11: the range is not read past its end"); ++src->cur; return *this; }
  void operator++(int) { ++*this; }
  bool at_end() const { return !src || src->cur == src->end; }
  bool operator==(const OnePass &o) const { return at_end() == o.at_end(); }
  bool operator!=(const OnePass &o) const { return !(*this == o); }
};
template <typename T> struct StAlloc {
  using value_type = T;
  int id;
  int *blocks;
  StAlloc(int i, int *b) : id(i), blocks(b) {}
  template <typename U> StAlloc(const StAlloc<U> &o) : id(o.id), blocks(o.blocks) {}
  T *allocate(size_t n) { ++*blocks; return static_cast<T *>(::operator new(n * sizeof(T))); }
  void deallocate(T *p, size_t) { --*blocks; ::operator delete(p); }
  template <typename U> bool operator==(const StAlloc<U> &o) const { return id == o.id; }
  template <typename U> bool operator!=(const StAlloc<U> &o) const { return id != o.id; }
};
struct All {
  template <typename... A> static auto make(A &&... a) { return pc::when_all(std::forward<A>(a)...); }
  template <typename R> static auto take(R &w) { return w.get(); }
};
struct Any {
  template <typename... A> static auto make(A &&... a) { return pc::when_any(std::forward<A>(a)...); }
  template <typename R> static auto take(R &w) {
    auto r = w.get();
    VC_ASSERT(r.index < 3 && r.futures.size() == 3, "C12: an index of an input");
    VC_ASSERT(r.futures[r.index].is_ready(), "C12: the input at the index is ready");
    return std::move(r.futures);
  }
};
template <typename W, typename R> void finish(W &w, In<Val> &in, R *) {
  bool any = std::is_same<R, Any>::value;
  VC_ASSERT(w.valid(), "C11: valid");
  while (in.left()) {
    VC_ASSERT(w.is_ready() == (any && in.left() < 3), "C11: readiness follows the inputs");
    in.complete(in.pick());
  }
  VC_ASSERT(w.is_ready(), "C11: ready once all inputs are");
  auto r = R::take(w);
  VC_ASSERT(r.size() == 3, "C11: every input is in the result");
  for (int i = 0; i < 3; ++i) VC_ASSERT(r[i].valid() && get_code<Val>(r[i]) == in.want(i), "C11: input order is kept, each with its own result");
}
template <typename R> void input_forms(int form) {
  {
    In<Val> in(3);
    int ready = vc_choice(4); // 0, 1: that input is ready before
    if (ready < 3) in.complete(ready);
    R *r = nullptr;
    if (form == 0) { // single pass, shared
      pc::shared_future<Val> v[3];
      for (int i = 0; i < 3; ++i) v[i] = std::move(in.f[i]);
      OnePass<pc::shared_future<Val>>::Src src{v, v + 3};
      auto w = R::make(OnePass<pc::shared_future<Val>>{&src}, OnePass<pc::shared_future<Val>>{nullptr});
      finish(w, in, r);
      for (int i = 0; i < 3; ++i) VC_ASSERT(v[i].valid() && get_code<Val>(v[i]) == in.want(i), "C11: shared inputs are copied");
    } else if (form == 1) { // single pass, unique
      OnePass<pc::future<Val>>::Src src{in.f, in.f + 3};
      auto w = R::make(OnePass<pc::future<Val>>{&src}, OnePass<pc::future<Val>>{nullptr});
      for (int i = 0; i < 3; ++i) VC_ASSERT(!in.f[i].valid(), "C11: unique inputs are moved");
      finish(w, in, r);
    } else if (form == 2) { // list
      std::list<pc::future<Val>> l;
      for (int i = 0; i < 3; ++i) l.emplace_back(std::move(in.f[i]));
      auto w = R::make(l.begin(), l.end());
      finish(w, in, r);
    } else { // vector with an allocator of its own
      int blocks = 0;
      {
        std::vector<pc::future<Val>, StAlloc<pc::future<Val>>> v{StAlloc<pc::future<Val>>{5, &blocks}};
        for (int i = 0; i < 3; ++i) v.emplace_back(std::move(in.f[i]));
        auto w = R::make(std::move(v));
        finish(w, in, r);
      }
      VC_ASSERT(blocks == 0, "C17: allocator blocks are returned");
    }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
} // namespace
VC_UNIT(all_input_forms, C11) { input_forms<All>(vc_choice(4)); }
VC_UNIT(any_input_forms, C12) { input_forms<Any>(vc_choice(4)); }
