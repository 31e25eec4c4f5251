// Callback list nodes with an allocator (internal function; skipped if its interface changes)
#include "kit.h"
namespace vc {
inline int n_out = 0, n_total = 0, wrong = 0;
inline void *last = nullptr;
inline size_t last_n = 0;
}
namespace {
template <typename T> struct Al {
  using value_type = T;
  int id;
  explicit Al(int i) : id(i) {}
  Al(const Al &o) noexcept : id(o.id) {}
  template <typename U> Al(const Al<U> &o) noexcept : id(o.id) {}
  ~Al() { id = -1; }
  T *allocate(size_t n) { ++n_out; ++n_total; last_n = n * sizeof(T); return static_cast<T *>(last = ::operator new(n * sizeof(T))); }
  void deallocate(T *p, size_t n) noexcept { --n_out; if (p != last || n * sizeof(T) != last_n || id != 7) ++wrong; ::operator delete(p); }
  template <typename U> bool operator==(const Al<U> &o) const noexcept { return id == o.id; }
  template <typename U> bool operator!=(const Al<U> &o) const noexcept { return id != o.id; }
};
struct Cb {
  TVal v;
  explicit Cb(int i) : v(i) {}
  Cb(Cb &&) = default;
  Cb &operator=(Cb &&o) { v.id = o.v.id; v.tag = o.v.tag; return *this; }
};
} // namespace
VC_UNIT(alloc_node_throws, C18_C17) {
  {
    Cb c{5};
    throw_budget = 1;
    int r = thrown([&] {
      auto l = pc::detail::allocate_list_node<Cb>(std::move(c), Al<char>{7});
      VC_ASSERT(l && l->val.v.is(5) && !l->next && n_out == 1, "C18: one node holding the callback");
    });
    throw_budget = 0;
    VC_ASSERT(r == NOTHROW || r == 5, "C18: a throwing construction propagates");
    VC_ASSERT(n_out == 0 && n_total == 1 && !wrong, "C18: the block is returned to an equal allocator with its size, thrown or not");
    if (r == 5) { VC_ASSERT(c.v.is(5), "C17: still there"); vc_cover("threw"); }
  }
  VC_ASSERT(live == 0, "C17: nothing left");
}
VC_UNIT(alloc_push_refused, C18_C17) {
  {
    pc::detail::once_consumable_stack<Cb> s;
    auto l = s.consume();
    Cb c{5};
    VC_ASSERT(!s.push(c, Al<char>{7}), "C18: refused");
    VC_ASSERT(c.v.is(5), "C17: given back intact");
    VC_ASSERT(n_out == 0 && !wrong, "C18: the node is returned");
    pc::detail::once_consumable_stack<Cb> s2;
    VC_ASSERT(s2.push(c, Al<char>{7}), "C18: accepted");
    VC_ASSERT(n_out == 1, "C18: the node comes from the allocator");
  }
  VC_ASSERT(n_out == 0 && !wrong && live == 0, "C18: returned");
}
