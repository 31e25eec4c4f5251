// Custom allocators: where memory comes from and goes to.
#include "kit.h"

namespace vc { // ghost bookkeeping of every arena
inline int a_live[4];   // blocks out
inline int a_total[4];  // blocks ever handed out
struct Blk { void *p; size_t n; int arena; };
inline Blk blk[24];
inline int nblk = 0;
inline bool fail_next = false;
inline int objs = 0;    // allocator objects alive
}
namespace {
// Stateful allocator; Pad makes it bigger than the nodes it allocates
template <int Pad> struct Padding { char pad[Pad]; };
template <> struct Padding<0> {};
template <typename T, int Pad = 0> struct Arena : Padding<Pad> {
  using value_type = T;
  template <typename U> struct rebind { using other = Arena<U, Pad>; };
  int id;
  unsigned tag = ALIVE; // an allocator object must be alive whenever it is copied or used
  Arena() noexcept : Arena(3) {} // not the allocator of any promise
  explicit Arena(int id) noexcept : id(id) { ++objs; }
  Arena(const Arena &o) noexcept : Padding<Pad>(), id(o.id) { o.check(); ++objs; }
  template <typename U> Arena(const Arena<U, Pad> &o) noexcept : id(o.id) { o.check(); ++objs; }
  Arena &operator=(const Arena &o) noexcept { check(); o.check(); id = o.id; return *this; }
  ~Arena() { check(); tag = DEAD; id = -1; --objs; }
  void check() const noexcept { VC_ASSERT(tag == ALIVE, "C18: an allocator is used only while it is alive"); }
  T *allocate(size_t n) {
    check();
    VC_ASSERT(id != 3, "C18: memory comes from the given allocator");
    VC_ASSERT(n > 0, "C18: something is asked for");
    if (fail_next && vc_choice(2)) { fail_next = false; throw std::bad_alloc{}; }
    void *p = ::operator new(n * sizeof(T));
    vc_sched();
    blk[nblk].p = p; blk[nblk].n = n * sizeof(T); blk[nblk].arena = id;
    ++nblk; ++a_live[id]; ++a_total[id];
    return static_cast<T *>(p);
  }
  void deallocate(T *p, size_t n) noexcept {
    check();
    vc_sched();
    int at = -1;
    for (int i = 0; i < nblk; ++i) if (blk[i].p == p) at = i;
    VC_ASSERT(at >= 0, "C18: a returned block came from an arena and was not returned before");
    VC_ASSERT(blk[at].arena == id, "C18: a block goes back to an equal allocator");
    VC_ASSERT(blk[at].n == n * sizeof(T), "C18: a block goes back with its size");
    --a_live[id];
    blk[at] = blk[--nblk];
    ::operator delete(p);
  }
  template <typename U> bool operator==(const Arena<U, Pad> &o) const noexcept { return id == o.id; }
  template <typename U> bool operator!=(const Arena<U, Pad> &o) const noexcept { return id != o.id; }
};
int out() { return a_live[0] + a_live[1] + a_live[2]; }

template <typename T, typename A = Arena<char>> std::pair<pc::promise<T>, pc::future<T>> make(int how, int id) {
  if (how == 0) return pc::make_promise<T>(A{id});
  pc::promise<T> p{std::allocator_arg, A{id}};
  auto f = p.get_future();
  return {std::move(p), std::move(f)};
}
} // namespace

// shared state from the arena, given back exactly once, last owner wins
template <typename T> void state(int how) {
  int order = vc_choice(4);
  {
    int heap0 = vc_heap_blocks();
    auto pf = make<T>(how, 1);
    VC_ASSERT(a_live[1] == 1 && out() == 1, "C18: the shared state comes from the given allocator");
    VC_ASSERT(vc_heap_blocks() == heap0 + 1, "C18: and nothing from elsewhere");
    if (order == 0) { { auto p = std::move(pf.first); } VC_ASSERT(get_code<T>(pf.second) == BROKEN, "C04: broken"); }
    if (order == 1) { { auto f = std::move(pf.second); } }
    if (order == 2) { K<T>::set(pf.first, 2); VC_ASSERT(get_code<T>(pf.second) == (std::is_void<T>::value ? 0 : 2), "C01: value"); }
    if (order == 3) { auto s = pf.second.share(); K<T>::set(pf.first, 2); auto s2 = s; VC_ASSERT(get_code<T>(s2) == (std::is_void<T>::value ? 0 : 2), "C01: value"); }
  }
  VC_ASSERT(out() == 0 && objs == 0, "C18: the block is returned");
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(alloc_state_val, C18) { state<Val>(vc_choice(2)); }
VC_UNIT(alloc_state_void, C18) { state<void>(vc_choice(2)); }
VC_UNIT(alloc_state_ref, C18) { state<Cell &>(vc_choice(2)); }

// callbacks attached through the state's attach operation (wait, detach, get) use the arena
VC_UNIT(alloc_wait_node, C18_C05) {
  {
    auto pf = pc::make_promise<Val>(Arena<char>{2});
    int heap0 = vc_heap_blocks();
    auto c = [&] {
      vc_look();
      if (vc_thread_blocked(0)) {
        VC_ASSERT(a_live[2] == 2 && out() == 2, "C18: the blocked waiter's callback node comes from the given allocator");
        VC_ASSERT(vc_heap_blocks() == heap0 + 1, "C18: and nothing from elsewhere");
        vc_cover("blocked");
      }
      pf.first.set_value(Val{4});
    };
    spawn(c);
    VC_ASSERT(get_code<Val>(pf.second) == 4, "C05: value");
    vc_join_all();
    VC_ASSERT(a_total[0] == 0 && a_total[1] == 0, "C18: no other allocator");
  }
  VC_ASSERT(out() == 0 && live == 0 && objs == 0, "C18: every block is returned");
}
VC_UNIT(alloc_detach_node, C18_C09) {
  {
    auto pf = pc::make_promise<Val>(Arena<char>{2});
    int heap0 = vc_heap_blocks();
    int shared = vc_choice(2), finish = vc_choice(3);
    if (shared) { auto s = pf.second.share(); s.detach(); } else pf.second.detach();
    VC_ASSERT(a_live[2] == 2 && out() == 2, "C18: the detach callback's node comes from the given allocator");
    VC_ASSERT(vc_heap_blocks() == heap0 + 1, "C18: and nothing from elsewhere");
    VC_ASSERT(pf.first.is_awaiten(), "C09: a detached computation is kept going");
    if (finish == 0) pf.first.set_value(Val{1});
    if (finish == 1) pf.first.set_exception(mk(3));
    if (finish == 2) { auto p = std::move(pf.first); }
    VC_ASSERT(out() <= 1, "C18: the node is returned when the computation has finished");
  }
  VC_ASSERT(out() == 0 && live == 0 && objs == 0, "C18: every block is returned");
}

// an allocator object bigger than what it allocates, and one without any state of its own
namespace {
template <typename T> struct Stateless { // always arena 0
  using value_type = T;
  Stateless() noexcept = default;
  explicit Stateless(int) noexcept {}
  template <typename U> Stateless(const Stateless<U> &) noexcept {}
  T *allocate(size_t n) { return Arena<T>{0}.allocate(n); }
  void deallocate(T *p, size_t n) noexcept { Arena<T>{0}.deallocate(p, n); }
  template <typename U> bool operator==(const Stateless<U> &) const noexcept { return true; }
  template <typename U> bool operator!=(const Stateless<U> &) const noexcept { return false; }
};
template <typename T, typename A> void sized(int id) {
  {
    auto pf = make<T, A>(vc_choice(2), id);
    int heap0 = vc_heap_blocks();
    auto s = pf.second.share();
    int n = vc_choice(3), finish = vc_choice(4);
    for (int i = 0; i < n; ++i) { auto c = s; c.detach(); }
    VC_ASSERT(a_live[id] == 1 + n && out() == 1 + n && vc_heap_blocks() == heap0 + n, "C18: the nodes come from the given allocator");
    if (finish == 0) K<T>::set(pf.first, 2);
    if (finish == 1) pf.first.set_exception(mk(3));
    if (finish == 2) { auto p = std::move(pf.first); }
    VC_ASSERT(finish == 3 || (s.is_ready() && out() == 1), "C18: the nodes are returned");
    if (finish == 3) { { auto g = std::move(s); } if (n) pf.first.set_exception(mk(3)); VC_ASSERT(out() <= 1, "C18: the nodes are returned"); }
  }
  VC_ASSERT(out() == 0 && live == 0 && objs == 0, "C18: every block is returned");
}
} // namespace
VC_UNIT(alloc_big_val, C18) { sized<Val, Arena<char, 200>>(1); }
VC_UNIT(alloc_big_void, C18) { sized<void, Arena<char, 200>>(1); }
VC_UNIT(alloc_stateless, C18) { sized<Val, Stateless<char>>(0); }

// two states with two arenas, callbacks run or dropped: no mixing
VC_UNIT(alloc_two_arenas, C18) {
  {
    auto a = pc::make_promise<int>(Arena<char>{0});
    auto b = pc::make_promise<int>(Arena<int>{1});
    auto c = pc::make_promise<int>(Arena<char>{2});
    c.second.detach();
    a.second.detach();
    b.second.detach();
    VC_ASSERT(a_live[0] == 2 && a_live[1] == 2 && a_live[2] == 2, "C18: each from its own");
    if (vc_choice(2)) b.first.set_value(1);
    a.first.set_value(1);
    if (vc_choice(2)) { auto p = std::move(c.first); VC_ASSERT(true, ""); }
  }
  VC_ASSERT(out() == 0, "C18: each block went back to its own allocator");
}

// races: waiter and completer; blocks are returned once whoever is last
VC_UNIT(alloc_race, C18) {
  vc_opt("sched_refcount", 1);
  {
    auto pf = pc::make_promise<int>(Arena<char>{1});
    auto c = [p = std::move(pf.first)]() mutable { p.set_value(4); auto q = std::move(p); };
    auto w = [f = std::move(pf.second)]() mutable { f.detach(); };
    spawn(c);
    spawn(w);
    vc_join_all();
  }
  VC_ASSERT(out() == 0, "C18: every block is returned exactly once");
}

// allocation failures
VC_UNIT(alloc_fails, C18) {
  {
    fail_next = true;
    int how = vc_choice(2);
    int r = thrown([&] {
      auto pf = make<Val>(how, 1);
      pf.second.detach();
      pf.first.set_value(Val{1});
    });
    fail_next = false;
    VC_ASSERT(r == NOTHROW || r == -1000, "C18: an allocation failure propagates");
    if (r == -1000) vc_cover("failed");
  }
  VC_ASSERT(out() == 0 && live == 0, "C18: nothing leaks");
}
