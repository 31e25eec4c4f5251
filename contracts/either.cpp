// The tagged storage and the callback list (internal classes; skipped if their interface changes).
#include "kit.h"
using namespace pc::detail;

namespace vc {
inline int alive[4]; // ghost: objects of each kind alive
}
namespace {
template <int Kind, bool Throws = false> struct Obj {
  int id;
  unsigned tag = ALIVE;
  explicit Obj(int i) : id(i) { if (Throws) maybe_throw(i); ++alive[Kind]; }
  Obj(int a, int b, Cell &c) : id(a ^ b) { VC_ASSERT(&c == &cells[2], "C17: constructor arguments are forwarded"); if (Throws) maybe_throw(a); ++alive[Kind]; }
  Obj(Obj &&o) noexcept : id(o.id), tag(o.tag) { VC_ASSERT(o.tag == ALIVE || o.tag == MOVED, "C17: alive when moved from"); o.tag = MOVED; ++alive[Kind]; }
  Obj(const Obj &) = delete;
  ~Obj() { VC_ASSERT(tag == ALIVE || tag == MOVED, "C17: destroyed once"); tag = DEAD; --alive[Kind]; }
};
using A = Obj<1>;
using B = Obj<2, true>;
struct C3 { char big[64]; Obj<3> o; explicit C3(int i) : o(i) {} };
using E3 = either<monostate, A, B, C3>;

int total() { return alive[1] + alive[2] + alive[3]; }
// what the storage holds, by visiting: kind*2^32 + id
struct See {
  int *kind;
  int *id;
  void operator()(monostate) const { *kind = 0; *id = 0; }
  void operator()(const A &a) const { *kind = 1; *id = a.tag == ALIVE ? a.id : BAD_OBJ; }
  void operator()(const B &a) const { *kind = 2; *id = a.tag == ALIVE ? a.id : BAD_OBJ; }
  void operator()(const C3 &a) const { *kind = 3; *id = a.o.tag == ALIVE ? a.o.id : BAD_OBJ; }
};
void expect(E3 &e, int kind, int id) {
  int k = -1, i = -1;
  e.visit(See{&k, &i});
  VC_ASSERT(k == kind && (kind == 0 || i == id), "C17: visiting reaches the held object and only it");
  const E3 &c = e;
  k = i = -1;
  c.visit(See{&k, &i});
  VC_ASSERT(k == kind && (kind == 0 || i == id), "C17: visiting through const reaches the held object and only it");
  VC_ASSERT(e.state() == std::size_t(kind) && e.empty() == (kind == 0), "C17: the tag says what is held");
  if (kind == 1) VC_ASSERT(e.get(in_place_index_t<1>{}).id == id && c.get(in_place_index_t<1>{}).id == id, "C17: get reaches the held object");
  if (kind == 2) VC_ASSERT(e.get(in_place_index_t<2>{}).id == id, "C17: get reaches the held object");
  if (kind == 3) VC_ASSERT(e.get(in_place_index_t<3>{}).o.id == id, "C17: get reaches the held object");
}
void fill(E3 &e, int kind, int id) {
  switch (kind) {
  case 0: e.clean(); break;
  case 1: e.emplace(in_place_index_t<1>{}, id); break;
  case 2: e.emplace(in_place_index_t<2>{}, id); break;
  case 3: e.emplace(in_place_index_t<3>{}, id); break;
  }
}
} // namespace

// every content, then every operation
VC_UNIT(either_ops, C17) {
  int k1 = vc_choice(4), i1 = any_id();
  {
    E3 e;
    expect(e, 0, 0);
    fill(e, k1, i1);
    expect(e, k1, i1);
    VC_ASSERT(total() == (k1 ? 1 : 0), "C17: exactly the stored object exists");
    switch (vc_choice(5)) {
    case 0: { // store over
      int k2 = vc_choice(4), i2 = any_id();
      throw_budget = 1;
      int r = thrown([&] { fill(e, k2, i2); });
      throw_budget = 0;
      if (r == NOTHROW) { expect(e, k2, i2); VC_ASSERT(total() == (k2 ? 1 : 0), "C17: storing destroys the previous object"); }
      else { VC_ASSERT(r == i2, "C17: the exception propagates"); expect(e, 0, 0); VC_ASSERT(total() == 0, "C17: a throwing constructor leaves the storage empty"); vc_cover("threw"); }
      break;
    }
    case 1: { // move construct
      E3 d{std::move(e)};
      expect(d, k1, i1);
      expect(e, 0, 0);
      VC_ASSERT(total() == (k1 ? 1 : 0), "C17: moving transfers the object and leaves the source empty");
      break;
    }
    case 2: { // move assign over any content
      int k2 = vc_choice(4), i2 = any_id();
      E3 d;
      fill(d, k2, i2);
      d = std::move(e);
      expect(d, k1, i1);
      expect(e, 0, 0);
      VC_ASSERT(total() == (k1 ? 1 : 0), "C17: moving transfers the object, destroys the previous one, leaves the source empty");
      break;
    }
    case 3: { e.clean(); expect(e, 0, 0); VC_ASSERT(total() == 0, "C17: cleaning destroys the held object"); e.clean(); expect(e, 0, 0); break; }
    case 4: {
      {
        scope_either_cleaner<E3> c{e};
        expect(e, k1, i1);
      }
      expect(e, 0, 0);
      VC_ASSERT(total() == 0, "C17: cleaned at scope exit");
      break;
    }
    }
  }
  VC_ASSERT(total() == 0, "C17: destruction destroys exactly what is held");
}

VC_UNIT(either_ctor, C17) {
  throw_budget = 1;
  int a = any_id();
  int r = thrown([&] {
    E3 e{in_place_index_t<2>{}, a, 5, cells[2]};
    expect(e, 2, a ^ 5);
    E3 f{in_place_index_t<1>{}, a, 5, cells[2]};
    expect(f, 1, a ^ 5);
  });
  VC_ASSERT(r == NOTHROW || r == a, "C17: the exception propagates");
  VC_ASSERT(total() == 0, "C17: nothing is left");
}

// every alternative lives at a suitably aligned address, in an either and in a shared state
VC_UNIT(either_aligned, C17) {
  struct alignas(64) Al {
    int id;
    explicit Al(int i) : id(i) { where(); }
    Al(Al &&o) noexcept : id(o.id) { where(); }
    ~Al() { where(); }
    void where() const { VC_ASSERT(vc_alignment(this) >= 64, "C17: stored at an address it can live at"); }
  };
  int id = any_id();
  {
    either<monostate, char, Al> e;
    e.emplace(in_place_index_t<2>{}, id);
    either<monostate, char, Al> f{std::move(e)};
    VC_ASSERT(f.get(in_place_index_t<2>{}).id == id, "C17: holds the value");
    auto pf = pc::make_promise<Al>();
    pf.first.set_value(Al{id});
    VC_ASSERT(pf.second.get().id == id, "C01: the value");
  }
}

// visit returns what the visitor returns, reference included, and lets it modify the object
VC_UNIT(either_visit_result, C17) {
  {
    either<monostate, Val, std::exception_ptr> e;
    int id = any_id();
    e.emplace(in_place_index_t<1>{}, id);
    struct V {
      Val *none;
      Val &operator()(Val &v) const { return v; }
      Val &operator()(std::exception_ptr &) const { return *none; }
      Val &operator()(monostate) const { return *none; }
    };
    Val n{0};
    Val &r = e.visit(V{&n});
    VC_ASSERT(&r == &e.get(in_place_index_t<1>{}), "C17: the visitor's reference result is passed through");
    r.id = 4;
    VC_ASSERT(e.get(in_place_index_t<1>{}).is(4), "C17: the held object itself is visited");
    e.clean();
    VC_ASSERT(&e.visit(V{&n}) == &n, "C17: an empty storage visits nothing else");
    e.emplace(in_place_index_t<2>{}, mk(3));
    VC_ASSERT(&e.visit(V{&n}) == &n, "C17: the held alternative is visited");
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}

// ---- the callback list
namespace {
struct Cb {
  Val v;
  int *ran;
  explicit Cb(int id, int *r) : v(id), ran(r) {}
  Cb(Cb &&) noexcept = default;
  Cb &operator=(Cb &&) noexcept = default;
};
using Stack = once_consumable_stack<Cb>;
}

VC_UNIT(list_sequential, C17_C02) {
  int n = vc_choice(4), consume = vc_choice(3);
  {
    Stack s;
    int seen[4] = {0, 0, 0, 0};
    VC_ASSERT(!s.is_consumed(), "C02: open at first");
    for (int i = 0; i < n; ++i) {
      Cb c{i, nullptr};
      VC_ASSERT(s.push(c), "C02: an open list accepts");
      VC_ASSERT(!s.is_consumed(), "C02: pushing does not close");
    }
    VC_ASSERT(live == n, "C17: the list holds exactly what was pushed");
    if (consume) {
      auto l = s.consume();
      VC_ASSERT(s.is_consumed(), "C02: closed by consuming");
      int m = 0;
      for (auto &c : l) { ++m; VC_ASSERT(c.v.tag == ALIVE && c.v.id >= 0 && c.v.id < n, "C17: a stored callback, intact"); ++seen[c.v.id]; }
      VC_ASSERT(m == n, "C02: every callback is on the list");
      for (int i = 0; i < n; ++i) VC_ASSERT(seen[i] == 1, "C02: once");
      Cb c{9, nullptr};
      VC_ASSERT(!s.push(c), "C02: a closed list refuses");
      VC_ASSERT(c.v.is(9), "C17: a refused push gives the callback back intact");
      VC_ASSERT(live == n + 1, "C17: nothing is kept of a refused push");
      if (consume == 2) {
        auto l2 = s.consume();
        VC_ASSERT(!l2 && s.is_consumed(), "C17: consuming again yields nothing");
      }
    }
  }
  VC_ASSERT(live == 0, "C17: every node is freed exactly once, consumed or not");
}

VC_UNIT(list_race, C17_C02_C03) {
  {
    Stack s;
    int got[3] = {0, 0, 0}, refused[3] = {0, 0, 0}, payload = 0, w[3] = {0, 0, 0};
    auto pusher = [&](int k) {
      Cb c{k, nullptr};
      w[k] = 1;
      if (!s.push(c)) {
        refused[k] = 1;
        VC_ASSERT(c.v.is(k), "C17: a refused push gives the callback back intact");
        VC_ASSERT(payload == 8, "C03: who is refused sees what was written before the list was closed");
      }
    };
    auto p0 = [&] { pusher(0); };
    auto p1 = [&] { pusher(1); };
    auto con = [&] {
      payload = 8;
      auto l = s.consume();
      for (auto &c : l) { VC_ASSERT(c.v.tag == ALIVE && c.v.id < 2, "C17: intact"); ++got[c.v.id]; VC_ASSERT(w[c.v.id] == 1, "C03: what the pusher wrote is visible"); }
    };
    auto look = [&] { if (s.is_consumed()) VC_ASSERT(payload == 8, "C03: who sees the list closed sees what was written before"); };
    spawn(p0);
    spawn(p1);
    spawn(con);
    spawn(look);
    vc_join_all();
    for (int k = 0; k < 2; ++k) VC_ASSERT(got[k] + refused[k] == 1, "C02: accepted and listed once, or refused");
  }
  VC_ASSERT(live == 0, "C17: every node freed once");
}
