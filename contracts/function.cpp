// unique_function: every storage form, every signature shape, moves, emptiness, destruction.
#include "kit.h"
using pc::unique_function;

namespace {
int calls = 0;
// Pad: 0 fits the internal buffer, 64 does not; Throwing move: does not fit either
template <int Pad> struct Fun {
  Val v;
  char pad[Pad + 1] = {};
  bool fail = false;
  explicit Fun(int id) : v(id) {}
  Fun(Fun &&) noexcept = default;
  int operator()(int a) { ++calls; if (fail) throw boom{a}; return v.tag == ALIVE ? (v.id ^ a) : BAD_OBJ; }
};
struct ThrowMove {
  Val v;
  explicit ThrowMove(int id) : v(id) {}
  ThrowMove(ThrowMove &&o) noexcept(false) : v(std::move(o.v)) {}
  int operator()(int a) { ++calls; return v.tag == ALIVE ? (v.id ^ a) : BAD_OBJ; }
};
int plain(int a) { ++calls; return a ^ 77; }
struct Obj {
  int id;
  int meth(int a) { ++calls; return id ^ a; }
  int cmeth(int a) const { ++calls; return ~(id ^ a); }
};
} // namespace

template <typename F> void calls_it(int pad) {
  int id = any_id(), arg = int(vc_nondet_u32());
  {
    unique_function<int(int)> f{F{id}};
    VC_ASSERT(bool(f) && !(f == nullptr), "C16: not empty");
    VC_ASSERT(live == 1, "C16: owns exactly one callable");
    calls = 0;
    VC_ASSERT(f(arg) == (id ^ arg), "C16: result of the stored callable");
    VC_ASSERT(calls == 1, "C16: called once per call");
    int moves = vc_choice(4);
    unique_function<int(int)> g;
    VC_ASSERT(!g && g == nullptr, "C16: empty");
    if (moves == 1) g = std::move(f);
    if (moves == 2) { unique_function<int(int)> h{std::move(f)}; g = std::move(h); }
    if (moves == 3) { g = unique_function<int(int)>{F{id ^ 1}}; g = std::move(f); }
    unique_function<int(int)> &cur = moves ? g : f;
    calls = 0;
    VC_ASSERT(cur(arg) == (id ^ arg), "C16: same callable after moving the wrapper");
    VC_ASSERT(cur(~arg) == (id ^ ~arg), "C16: callable again");
    VC_ASSERT(calls == 2, "C16: called once per call");
    const unique_function<int(int)> &cc = cur;
    VC_ASSERT(cc(arg) == (id ^ arg), "C16: callable through const");
  }
  VC_ASSERT(live == 0, "C16: the callable is destroyed exactly once");
}
VC_UNIT(fun_small, C16) { calls_it<Fun<0>>(0); }
VC_UNIT(fun_fits, C16) { static_assert(sizeof(Fun<30>) == 40, ""); calls_it<Fun<30>>(0); }
VC_UNIT(fun_big, C16) { calls_it<Fun<64>>(0); }
// every size around that of the internal buffer
template <int N> struct Sized {
  Val v;
  int *w[N];
  explicit Sized(int id) : v(id) { for (auto &x : w) x = &calls; }
  Sized(Sized &&o) noexcept : v(std::move(o.v)) { for (int i = 0; i < N; ++i) w[i] = o.w[i]; }
  int operator()(int a) {
    ++calls;
    for (auto x : w) VC_ASSERT(x == &calls, "C16: the callable is stored completely");
    return v.tag == ALIVE ? (v.id ^ a) : BAD_OBJ;
  }
};
VC_UNIT(fun_sizes, C16) {
  switch (vc_choice(9)) {
  case 0: calls_it<Sized<1>>(0); break;
  case 1: calls_it<Sized<2>>(0); break;
  case 2: calls_it<Sized<3>>(0); break;
  case 3: calls_it<Sized<4>>(0); break;
  case 4: calls_it<Sized<5>>(0); break;
  case 5: calls_it<Sized<6>>(0); break;
  case 6: calls_it<Sized<7>>(0); break;
  case 7: calls_it<Sized<8>>(0); break;
  default: calls_it<Sized<9>>(0);
  }
}
VC_UNIT(fun_throwing_move, C16) { calls_it<ThrowMove>(0); }

VC_UNIT(fun_pointers, C16) {
  int arg = int(vc_nondet_u32()), id = int(vc_nondet_u32());
  Obj o{id};
  {
    unique_function<int(int)> a{&plain}, b{plain};
    VC_ASSERT(a(arg) == (arg ^ 77) && b(arg) == (arg ^ 77), "C16: function pointers and references");
    unique_function<int(Obj &, int)> m{&Obj::meth};
    VC_ASSERT(m(o, arg) == (id ^ arg), "C16: member function on an object");
    unique_function<int(const Obj *, int)> p{&Obj::cmeth};
    VC_ASSERT(p(&o, arg) == ~(id ^ arg), "C16: member function through a pointer");
    unique_function<int(std::reference_wrapper<Obj>, int)> w{&Obj::meth};
    VC_ASSERT(w(std::ref(o), arg) == (id ^ arg), "C16: member function through a reference_wrapper");
    unique_function<int &(Obj &)> d{&Obj::id};
    VC_ASSERT(&d(o) == &o.id, "C16: data member, by reference");
    unique_function<int(std::unique_ptr<Obj>)> u{&Obj::id};
    VC_ASSERT(u(std::unique_ptr<Obj>(new Obj{arg})) == arg, "C16: data member through a smart pointer");
    Fun<0> f{5};
    unique_function<int(int)> r{std::ref(f)};
    calls = 0;
    VC_ASSERT(r(arg) == (5 ^ arg) && calls == 1 && f.v.is(5), "C16: reference_wrapper refers to the original callable");
    unique_function<int(int)> r2 = std::move(r);
    VC_ASSERT(r2(arg) == (5 ^ arg), "C16: still after a move");
  }
  VC_ASSERT(live == 0, "C16: destroyed once");
}

// empty wrappers
template <typename S> void empty_one(unique_function<S> f) {
  VC_ASSERT(!f, "C16: empty compares empty");
  VC_ASSERT(f == nullptr, "C16: empty compares empty");
}
VC_UNIT(fun_empty, C16) {
  using FP = int (*)(int);
  FP null = nullptr;
  auto check = [](unique_function<int(int)> f) {
    VC_ASSERT(!f && f == nullptr, "C16: empty compares empty");
    VC_ASSERT(thrown([&] { f(1); }) == -1001, "C16: calling an empty wrapper throws bad_function_call");
    unique_function<int(int)> g{std::move(f)};
    VC_ASSERT(!g, "C16: moving an empty wrapper gives an empty one");
    VC_ASSERT(thrown([&] { g(1); }) == -1001, "C16: calling an empty wrapper throws bad_function_call");
    unique_function<int(int)> h{Fun<0>{4}};
    h = std::move(g);
    VC_ASSERT(!h && live == 0, "C16: assigning an empty wrapper destroys the callable and leaves nothing");
    VC_ASSERT(thrown([&] { h(1); }) == -1001, "C16: calling an empty wrapper throws bad_function_call");
  };
  switch (vc_choice(5)) {
  case 0: check(unique_function<int(int)>{}); break;
  case 1: check(nullptr); break;
  case 2: check(null); break;
  case 3: { std::function<int(int)> e; check(e); break; }
  case 4: {
    int (Obj::*pm)(int) = nullptr;
    unique_function<int(Obj &, int)> m{pm};
    Obj o{1};
    VC_ASSERT(!m, "C16: a null member pointer gives an empty wrapper");
    VC_ASSERT(thrown([&] { m(o, 1); }) == -1001, "C16: calling an empty wrapper throws bad_function_call");
    break;
  }
  }
  unique_function<void()> v;
  VC_ASSERT(!v && thrown([&] { v(); }) == -1001, "C16: calling an empty wrapper throws bad_function_call");
}

// null wrappers of every size: the wrapper decides emptiness by comparing with nullptr, wherever it would have been stored
template <int Pad, bool ThrowMove> struct Nullable {
  Val v;
  bool null;
  char pad[Pad + 1] = {};
  Nullable(int id, bool n) : v(id), null(n) {}
  Nullable(Nullable &&o) noexcept(!ThrowMove) : v(std::move(o.v)), null(o.null) {}
  int operator()(int a) { ++calls; VC_ASSERT(!null, "C16: a null callable is never called"); return v.id ^ a; }
  friend bool operator==(const Nullable &n, std::nullptr_t) { return n.null; }
  friend bool operator==(std::nullptr_t, const Nullable &n) { return n.null; }
};
template <int Pad, bool ThrowMove> void nullable() {
  int id = any_id(), arg = int(vc_nondet_u32());
  bool null = vc_choice(2);
  {
    Nullable<Pad, ThrowMove> src{id, null};
    unique_function<int(int)> f{std::move(src)};
    VC_ASSERT(bool(f) == !null && (f == nullptr) == null, "C16: a wrapper of a null callable compares empty");
    calls = 0;
    if (null) {
      VC_ASSERT(thrown([&] { f(arg); }) == -1001 && calls == 0, "C16: calling an empty wrapper throws bad_function_call");
      VC_ASSERT(live == 1, "C16: an empty wrapper owns nothing");
    } else {
      VC_ASSERT(f(arg) == (id ^ arg) && calls == 1, "C16: a non-null callable is called");
      VC_ASSERT(live == 2, "C16: owned once");
    }
    unique_function<int(int)> g{std::move(f)};
    VC_ASSERT(bool(g) == !null, "C16: emptiness moves along");
  }
  VC_ASSERT(live == 0, "C16: destroyed once");
}
VC_UNIT(fun_null_small, C16) { nullable<0, false>(); }
VC_UNIT(fun_null_big, C16) { nullable<100, false>(); }
VC_UNIT(fun_null_tm, C16) { nullable<0, true>(); }
VC_UNIT(fun_null_bigtm, C16) { nullable<100, true>(); }

// exceptions come out unchanged and leave the callable usable
template <typename F> void throws_it() {
  int arg = any_id();
  {
    F fn{9};
    fn.fail = true;
    unique_function<int(int)> f{std::move(fn)};
    VC_ASSERT(thrown([&] { f(arg); }) == arg, "C16: the exception is returned unchanged");
    VC_ASSERT(bool(f) && live == 2, "C16: the wrapper still owns its callable");
    VC_ASSERT(thrown([&] { f(arg ^ 1); }) == (arg ^ 1), "C16: and can be called again");
  }
  VC_ASSERT(live == 0, "C16: destroyed once");
}
VC_UNIT(fun_throw_small, C16) { throws_it<Fun<0>>(); }
VC_UNIT(fun_throw_big, C16) { throws_it<Fun<64>>(); }

// results by reference
template <int Pad> struct RefFun {
  Val *v;
  char pad[Pad + 1] = {};
  const Val &operator()() const { return *v; }
};
template <int Pad> struct RefFun2 {
  Val *v;
  char pad[Pad + 1] = {};
  Val &operator()() const { return *v; }
  Val &&operator()(int) const { return std::move(*v); }
};
template <int Pad> void ref_result() {
  int id = any_id();
  {
    Val v{id};
    unique_function<const Val &()> f{RefFun<Pad>{&v}};
    const Val &r = f();
    VC_ASSERT(&r == &v, "C16: a returned reference refers to what the callable returned");
    VC_ASSERT(r.is(id) && live == 1, "C16: no copy is made");
    unique_function<const Val &()> g{RefFun2<Pad>{&v}};
    VC_ASSERT(&g() == &v && live == 1, "C16: a returned reference refers to what the callable returned");
    unique_function<void()> n{RefFun2<Pad>{&v}};
    n();
    VC_ASSERT(v.is(id) && live == 1, "C16: a discarded result touches nothing");
  }
  VC_ASSERT(live == 0, "C16: destroyed once");
}
VC_UNIT(fun_ref_small, C16) { ref_result<0>(); }
VC_UNIT(fun_ref_big, C16) { ref_result<64>(); }

// arguments are forwarded unchanged: values moved, references kept
template <int Pad> struct ArgFun {
  char pad[Pad + 1] = {};
  Cell *seen = nullptr;
  int operator()(Val v, Cell &c, const Val &k, Val &&x) {
    ++calls;
    VC_ASSERT(&c == &cells[3], "C16: a reference argument refers to the same object");
    Val taken{std::move(x)};
    return v.tag == ALIVE && k.tag == ALIVE && taken.tag == ALIVE ? v.id ^ k.id ^ taken.id : BAD_OBJ;
  }
};
template <int Pad> void args() {
  int a = any_id(), b = any_id(), c = any_id();
  {
    unique_function<int(Val, Cell &, const Val &, Val &&)> f{ArgFun<Pad>{}};
    Val va{a}, vb{b}, vc_{c};
    int before = live;
    VC_ASSERT(f(va, cells[3], vb, std::move(vc_)) == (a ^ b ^ c), "C16: arguments are forwarded unchanged");
    VC_ASSERT(va.is(a) && vb.is(b), "C16: arguments passed by value or const reference are left alone");
    VC_ASSERT(vc_.tag == MOVED, "C16: an rvalue argument is moved from");
    VC_ASSERT(live == before, "C16: temporaries are gone");
    unique_function<std::unique_ptr<int>(std::unique_ptr<int>)> m{[pad = std::vector<int>(Pad ? 3 : 1)](std::unique_ptr<int> p) { *p += 1; return p; }};
    auto p = m(std::unique_ptr<int>{new int{41}});
    VC_ASSERT(p && *p == 42, "C16: move-only arguments and results");
  }
  VC_ASSERT(live == 0, "C16: destroyed once");
}
VC_UNIT(fun_args_small, C16) { args<0>(); }
VC_UNIT(fun_args_big, C16) { args<64>(); }

// destruction: when the wrapper is destroyed or assigned over, exactly once, in time
VC_UNIT(fun_destroy, C16) {
  {
    unique_function<int(int)> f{Fun<0>{1}};
    VC_ASSERT(live == 1, "C16: owned");
    if (vc_choice(2)) {
      f = unique_function<int(int)>{Fun<64>{2}};
      VC_ASSERT(live == 1 && f(0) == 2, "C16: assigned over: the old callable is destroyed, the new one called");
    } else {
      f = unique_function<int(int)>{};
      VC_ASSERT(live == 0 && !f, "C16: assigned over by an empty wrapper");
    }
    f = unique_function<int(int)>{Fun<0>{3}};
    VC_ASSERT(live == 1 && f(0) == 3, "C16: assigned over: the new one is called");
    std::vector<unique_function<int(int)>> v;
    for (int i = 0; i < 5; ++i) {
      if (i & 1) v.emplace_back(Fun<64>{i}); else v.emplace_back(Fun<0>{i});
    }
    for (int i = 0; i < 5; ++i) VC_ASSERT(v[i](0) == i, "C16: relocated wrappers keep their callables");
    std::swap(v[0], v[3]);
    VC_ASSERT(v[0](0) == 3 && v[3](0) == 0, "C16: swapped");
    v.clear();
    VC_ASSERT(live == 1, "C16: destroyed with the wrapper");
  }
  VC_ASSERT(live == 0, "C16: destroyed once");
}

// construction that throws leaves nothing behind
struct ThrowCopy {
  Val v{1};
  ThrowCopy() {}
  ThrowCopy(const ThrowCopy &o) : v(o.v) { maybe_throw(5); }
  int operator()(int) { return 0; }
};
VC_UNIT(fun_ctor_throws, C16_C17) {
  {
    ThrowCopy t;
    throw_budget = 1;
    vc_opt("alloc_fail", 1);
    int r = thrown([&] { unique_function<int(int)> f{t}; VC_ASSERT(live == 2, "C16: one copy"); });
    vc_opt("alloc_fail", 0);
    VC_ASSERT(r == NOTHROW || r == 5 || r == -1000, "C16: the exception propagates");
    VC_ASSERT(live == 1, "C16: nothing is left behind");
  }
}

// callables with any alignment requirement live at suitably aligned addresses
namespace {
template <size_t A> struct alignas(A) Al {
  Val v;
  explicit Al(int id) : v(id) { where(); }
  Al(Al &&o) noexcept : v(std::move(o.v)) { where(); }
  ~Al() { where(); }
  void where() const { VC_ASSERT(size_t(vc_alignment(this)) >= A, "C16: the callable is stored at an address it can live at"); }
  int operator()(int a) { where(); return v.tag == ALIVE ? (v.id ^ a) : BAD_OBJ; }
};
} // namespace
template <typename F> void calls_al() {
  int id = any_id(), arg = int(vc_nondet_u32());
  {
    unique_function<int(int)> f{F{id}};
    VC_ASSERT(f(arg) == (id ^ arg), "C16: result of the stored callable");
    unique_function<int(int)> g{std::move(f)};
    VC_ASSERT(g(arg) == (id ^ arg), "C16: same callable after moving the wrapper");
  }
  VC_ASSERT(live == 0, "C16: the callable is destroyed exactly once");
}
VC_UNIT(fun_aligned, C16) {
  calls_al<Al<8>>();
  calls_al<Al<16>>();
  calls_al<Al<32>>();
  calls_al<Al<128>>();
}

// moving a wrapper never throws, whatever the callable: one whose move constructor may throw is not moved
VC_UNIT(fun_nothrow_move, C16) {
  int id = any_id();
  {
    struct TFun {
      TVal v;
      explicit TFun(int i) : v(i) {}
      TFun(TFun &&o) noexcept(false) : v(std::move(o.v)) {}
      int operator()() { return v.tag == ALIVE ? v.id : BAD_OBJ; }
    };
    unique_function<int()> f{TFun{id}}, g;
    throw_budget = 3;
    int err = thrown([&] {
      unique_function<int()> h{std::move(f)};
      g = std::move(h);
      std::swap(f, g);
    });
    throw_budget = 0;
    VC_ASSERT(err == NOTHROW, "C16: moving a wrapper does not throw");
    VC_ASSERT(bool(f) && f() == id, "C16: same callable after moving the wrapper");
  }
  VC_ASSERT(live == 0, "C16: the callable is destroyed exactly once");
}

// INVOKE: the object a member pointer is applied to is the one passed, not a copy, however it is passed
namespace {
struct Base2 { int pad = 0; };
struct Cnt : Base2 {
  int n = 0;
  int bump(int k) { n += k; return n; }
  int peek() const { return n; }
};
struct Der : Cnt { int extra = 0; };
} // namespace
VC_UNIT(fun_invoke, C16) {
  int k = int(vc_nondet_u32());
  unsigned want = 0;
  Der o;
  unique_function<int(Cnt &, int)> a{&Cnt::bump};
  a(o, k); want += unsigned(k);
  VC_ASSERT(unsigned(o.n) == want, "C16: applied to the object itself");
  unique_function<int(std::reference_wrapper<Cnt>, int)> b{&Cnt::bump};
  b(std::ref<Cnt>(o), k); want += unsigned(k);
  VC_ASSERT(unsigned(o.n) == want, "C16: applied to the object the reference_wrapper refers to");
  unique_function<int(Der *, int)> c{&Cnt::bump};
  c(&o, k); want += unsigned(k);
  VC_ASSERT(unsigned(o.n) == want, "C16: applied to the object pointed to");
  unique_function<int(std::shared_ptr<Der>, int)> d{&Cnt::bump};
  auto sp = std::make_shared<Der>();
  VC_ASSERT(d(sp, 5) == 5 && sp->n == 5, "C16: applied to the object a smart pointer points to");
  unique_function<int(Der &, int)> e{&Cnt::bump};
  e(o, k); want += unsigned(k);
  VC_ASSERT(unsigned(o.n) == want, "C16: member of a base class");
  unique_function<int &(Der &)> f{&Cnt::n};
  VC_ASSERT(&f(o) == &o.n, "C16: data member of the object itself");
  unique_function<int &(std::reference_wrapper<Der>)> g{&Cnt::n};
  VC_ASSERT(&g(std::ref(o)) == &o.n, "C16: data member through a reference_wrapper");
  unique_function<int &(Der *)> h{&Cnt::n};
  VC_ASSERT(&h(&o) == &o.n, "C16: data member through a pointer");
  unique_function<int(const Cnt &)> i{&Cnt::peek};
  VC_ASSERT(i(o) == o.n, "C16: const member function");
  unique_function<int(Der)> j{&Cnt::peek};
  VC_ASSERT(j(o) == o.n, "C16: object passed by value");
}

// the stored callable is an lvalue in every call: a call does not consume it
namespace {
template <int Pad> struct Quals {
  Val v;
  char pad[Pad + 1] = {};
  explicit Quals(int id) : v(id) {}
  Quals(Quals &&) noexcept = default;
  int operator()() & { return v.tag == ALIVE ? v.id : BAD_OBJ; }
  int operator()() && { Val t = std::move(v); return t.id; }
};
template <int Pad> void not_consumed() {
  int id = any_id();
  {
    unique_function<int()> f{Quals<Pad>{id}};
    VC_ASSERT(f() == id, "C16: first call");
    VC_ASSERT(f() == id, "C16: a call does not consume the callable");
    unique_function<int()> g = std::move(f);
    VC_ASSERT(std::move(g)() == id && g() == id, "C16: nor does a call of an rvalue wrapper");
  }
  VC_ASSERT(live == 0, "C16: destroyed once");
}
} // namespace
VC_UNIT(fun_lvalue_call, C16) { not_consumed<0>(); not_consumed<64>(); }
