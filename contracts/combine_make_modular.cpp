// Contracts of when_all / when_any over a sequence of any length (when_*_state<vector>::make).  std::vector is replaced by its
// contract: a sequence of N elements (N symbolic); KP is an arbitrary position, fk the future at KP, fo the future at any other
// position.  continuations_stack::push is replaced by its contract (proved in callbacks_modular.cpp): the callback runs exactly
// once, now or later.  What is shown for the arbitrary KP holds for every input; other inputs complete at any time (rely).
#include "kit.h"
struct Tag {};
using Fut = pc::future<Tag>;

namespace vc {
inline uint64_t N = 0, KP = 0;
inline Fut *fk = nullptr, *fo = nullptr;
inline void looked_at(void *);
} // namespace vc

namespace std {
template <> class vector<Fut, allocator<Fut>> { // contract of std::vector<Fut>: N elements or moved-from
public:
  bool full = false;
  using value_type = Fut;
  using size_type = size_t;
  struct iterator {
    using iterator_category = forward_iterator_tag;
    using value_type = Fut;
    using difference_type = ptrdiff_t;
    using pointer = Fut *;
    using reference = Fut &;
    vector *v;
    uint64_t pos;
    Fut &operator*() const { return (*v)[pos]; }
    Fut *operator->() const { return &(*v)[pos]; }
    iterator &operator++() { ++pos; return *this; }
    iterator operator++(int) { iterator r = *this; ++pos; return r; }
    bool operator!=(const iterator &o) const { return pos != o.pos; }
    bool operator==(const iterator &o) const { return pos == o.pos; }
  };
  vector() {}
  vector(vector &&o) noexcept : full(o.full) { o.full = false; }
  vector &operator=(vector &&o) noexcept { full = o.full; o.full = false; return *this; }
  template <typename It> vector(It, It) : full(true) {}
  size_t size() const { return full ? N : 0; }
  bool empty() const { return size() == 0; }
  iterator begin() { looked_at(this); return {this, 0}; }
  iterator end() { return {this, size()}; }
  Fut &operator[](size_t i) {
    looked_at(this);
    VC_ASSERT(full & (i < N), "access within the sequence");
    return i == KP ? *fk : *fo;
  }
};
} // namespace std

using Seq = std::vector<Fut>;
using All = pc::detail::when_all_state<Seq>;
using Any = pc::detail::when_any_state<Seq>;
using Cs = pc::detail::continuations_stack;

namespace vc {
inline bool is_all = true;
inline All *all = nullptr;
inline Any *any_ = nullptr;
inline uint64_t all_off = 0, any_off = 0;
inline void looked_at(void *v) {
  if (is_all) all = reinterpret_cast<All *>(static_cast<char *>(v) - all_off);
  else any_ = reinterpret_cast<Any *>(static_cast<char *>(v) - any_off);
}
inline bool in_k = false;             // the callback of input KP is running
inline uint8_t attached_k = 0;        // callbacks attached to input KP
inline uint8_t k_counted = 0;         // counted / decided by the callback of KP
inline uint8_t own = 0, own_total = 0; // when_all: counts taken by make itself
inline bool seen = false;
inline uint8_t by_me = 0;             // this thread completed the combination
inline bool by_other = false;
inline Cs *sk = nullptr, *so = nullptr;
inline pc::detail::continuation *pending = nullptr;
inline int other_on_k = 0;

inline void run_k(pc::detail::continuation &c) {
  in_k = true;
  c();
  in_k = false;
}
inline void push_contract(Cs *s, pc::detail::continuation &&c) {
  VC_ASSERT((s == sk) | (s == so), "callbacks are attached to inputs of the sequence");
  if (s == so) { pc::detail::continuation gone{std::move(c)}; return; } // some other input: its completion is interference
  VC_ASSERT(attached_k == 0, "an input is watched by one callback");
  ++attached_k;
  if (vc_choice(2)) { // ready already: the callback runs at once
    pc::detail::continuation now{std::move(c)};
    run_k(now);
  } else {
    *pending = std::move(c);
  }
}

// ------------------------------------------------------------------ when_all
inline void start_all() {
  if (seen) return;
  seen = true;
  uint64_t r = all->operations_remains_.load(std::memory_order_relaxed);
  VC_ASSERT((r == N) | (r == N + 1), "C11: the count starts with one for every input (and one for the call itself)");
  own_total = r == N ? 0 : 1;
}
inline void env_all(void *p, int) {
  if (!all || p != static_cast<void *>(&all->operations_remains_)) return;
  start_all();
  uint64_t cur = all->operations_remains_.load(std::memory_order_relaxed), n = vc_nondet_u64();
  vc_assume((n <= cur) & (n >= uint64_t(1 - k_counted) + uint64_t(own_total - own)));
  if (!by_me && !by_other && cur > 0 && n == 0) by_other = true;
  all->operations_remains_.store(n, std::memory_order_relaxed);
}
inline void guar_all(void *p, uint64_t old, uint64_t now) {
  if (!all || p != static_cast<void *>(&all->operations_remains_)) return;
  if (now == old) return; // an atomic access that changes nothing
  VC_ASSERT((old >= 1) & (now == old - 1), "C11: counting lowers the count by one");
  if (in_k) {
    VC_ASSERT(k_counted == 0, "C11: a completed input is counted once");
    ++k_counted;
  } else {
    VC_ASSERT(own < own_total, "C11: only completed inputs (and the call itself, once) are counted");
    ++own;
  }
  if (now == 0) ++by_me;
}
// ------------------------------------------------------------------ when_any
inline void env_any(void *p, int) {
  if (!any_ || p != static_cast<void *>(&any_->ready_flag_) || by_me || by_other) return;
  if (vc_choice(2)) {
    by_other = true;
    any_->ready_flag_.test_and_set();
    any_->result_.index = vc_nondet_u64();
  }
}
inline void guar_any(void *p, uint8_t old, uint8_t now) {
  if (!any_ || p != static_cast<void *>(&any_->ready_flag_)) return;
  VC_ASSERT(now != 0, "C12: the decision is final");
  if (in_k) ++k_counted;
  if (old == 0) {
    VC_ASSERT(in_k, "C12: only a completed input decides");
    ++by_me;
  }
}
} // namespace vc

template <typename St> static void setup(uint64_t n) {
  vc_opt("widen", 1);
  N = n;
  KP = vc_nondet_u64();
  vc_assume((N < (1u << 20)) & ((N == 0) | (KP < N)));
  {
    All a{Seq{}};
    all_off = reinterpret_cast<char *>(&a.futures_) - reinterpret_cast<char *>(&a);
    Any b{Seq{}};
    any_off = reinterpret_cast<char *>(&b.result_.futures) - reinterpret_cast<char *>(&b);
  }
  auto pm = static_cast<void (Cs::*)(pc::detail::continuation &&)>(&Cs::push);
  vc_subst(*reinterpret_cast<void **>(&pm), reinterpret_cast<void *>(&push_contract));
}

VC_UNIT(when_all_make_any_number, C11) {
  vc_model();
  {
    auto a = pc::make_promise<Tag>(), b = pc::make_promise<Tag>();
    fk = &a.second;
    fo = &b.second;
    sk = &pc::detail::state_of(*fk)->continuations();
    so = &pc::detail::state_of(*fo)->continuations();
    pc::detail::continuation later;
    pending = &later;
    setup<All>(vc_nondet_u64());
    vc_assume(N > 0);
    Seq s{0, 0};
    vc_env_hook(&env_all);
    vc_guar_hook(reinterpret_cast<void (*)(void *, void *, void *)>(&guar_all));
    {
      auto st = All::make(std::move(s));
      if (static_cast<void *>(st.get()) != static_cast<void *>(static_cast<pc::detail::future_state<Seq> *>(all))) vc_giveup("another representation");
      VC_ASSERT(all->futures_.full, "C11: the inputs are kept");
      VC_ASSERT(attached_k == 1, "C11: every input is watched");
      VC_ASSERT(own == own_total, "C11: the call's own count is taken");
      if (!k_counted) {
        VC_ASSERT(!by_me && !by_other && !st->continuations().executed(), "C11: not ready before every input is");
        vc_cover("pending");
        run_k(later);
      }
      VC_ASSERT(k_counted == 1, "C11: every completed input is counted");
      VC_ASSERT(by_me <= 1 && st->continuations().executed() == (by_me == 1), "C11: ready exactly when the last input is counted");
      if (by_me) vc_cover("last"); else vc_cover("not last");
      if (by_me) VC_ASSERT(&st->value_ref() == &all->futures_ && st->exception() == nullptr, "C11: the result is the sequence of the inputs");
    }
    vc_env_hook(nullptr);
    vc_guar_hook(nullptr);
    all = nullptr;
  }
}

VC_UNIT(when_any_make_any_number, C12) {
  vc_model();
  {
    is_all = false;
    auto a = pc::make_promise<Tag>(), b = pc::make_promise<Tag>();
    fk = &a.second;
    fo = &b.second;
    sk = &pc::detail::state_of(*fk)->continuations();
    so = &pc::detail::state_of(*fo)->continuations();
    pc::detail::continuation later;
    pending = &later;
    setup<Any>(vc_nondet_u64());
    vc_assume(N > 0);
    Seq s{0, 0};
    vc_env_hook(&env_any);
    vc_guar_hook(reinterpret_cast<void (*)(void *, void *, void *)>(&guar_any));
    {
      auto st = Any::make(std::move(s));
      if (static_cast<void *>(st.get()) != static_cast<void *>(static_cast<pc::detail::future_state<pc::when_any_result<Seq>> *>(any_))) vc_giveup("another representation");
      VC_ASSERT(any_->result_.futures.full, "C12: the inputs are kept");
      VC_ASSERT(attached_k == 1, "C12: every input is watched");
      if (!k_counted) {
        VC_ASSERT(!by_me && !st->continuations().executed(), "C12: not ready before an input is");
        vc_cover("pending");
        run_k(later);
      }
      VC_ASSERT(by_me + by_other == 1, "C12: the first completed input decides");
      VC_ASSERT(st->continuations().executed() == (by_me == 1), "C12: ready exactly when the first input is");
      if (by_me) {
        VC_ASSERT(any_->result_.index == KP, "C12: the index is the position of the input that completed first");
        VC_ASSERT(&st->value_ref() == &any_->result_ && st->exception() == nullptr, "C12: the result is the sequence of the inputs with the index");
        vc_cover("first");
      } else {
        vc_cover("not first");
      }
    }
    vc_env_hook(nullptr);
    vc_guar_hook(nullptr);
    any_ = nullptr;
  }
}
