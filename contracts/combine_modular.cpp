// Thread-modular contracts of the completion counters of when_all and when_any: any number of inputs completing concurrently.
#include "kit.h"
using Seq = std::vector<pc::future<Val>>;
using All = pc::detail::when_all_state<Seq>;
using Any = pc::detail::when_any_state<Seq>;

namespace vc {
inline All *all = nullptr;
inline Any *any_ = nullptr;
inline int mine = 0;            // own writes of the counter / flag
inline bool last = false;       // the own write completed the combination
inline int runs = 0;
inline bool notified_early = false;

// when_all: other inputs complete too; the count can only drop, and not below the completion under proof
inline void env_all(void *p, int) {
  if (!all || p != static_cast<void *>(&all->operations_remains_) || mine) return;
  uint64_t cur = all->operations_remains_.load(std::memory_order_relaxed), n = vc_nondet_u64();
  vc_assume((n >= 1) & (n <= cur));
  all->operations_remains_.store(n, std::memory_order_relaxed);
}
inline void guar_all(void *p, uint64_t old, uint64_t now) {
  if (!all || p != static_cast<void *>(&all->operations_remains_)) return;
  if (now == old) return; // an atomic access that changes nothing
  VC_ASSERT(mine == 0, "C11: a completed input is counted once");
  VC_ASSERT(old >= 1 && now == old - 1, "C11: a completed input lowers the count by one");
  ++mine;
  last = now == 0;
}
// when_any: other inputs complete too; one of them may win the flag
inline void env_any(void *p, int) {
  if (!any_ || p != static_cast<void *>(&any_->ready_flag_) || mine) return;
  if (vc_choice(2)) any_->ready_flag_.test_and_set();
}
inline void guar_any(void *p, uint8_t old, uint8_t now) {
  if (!any_ || p != static_cast<void *>(&any_->ready_flag_)) return;
  VC_ASSERT(now != 0, "C12: the decision is final");
  if (old == 0) { ++mine; last = true; }
}
} // namespace vc

VC_UNIT(when_all_notify_any, C11) {
  vc_model();
  {
    auto st = std::make_shared<All>(Seq{});
    all = st.get();
    uint64_t n = vc_nondet_u64(); // inputs (and the caller of when_all itself) still to be counted
    vc_assume(n >= 1);
    st->operations_remains_.store(n, std::memory_order_relaxed);
    st->continuations().push([] {
      VC_ASSERT(last, "C11: the combined future becomes ready only when the last input is counted");
      ++runs;
    });
    vc_env_hook(&env_all);
    vc_guar_hook(reinterpret_cast<void (*)(void *, void *, void *)>(&guar_all));
    st->notify();
    vc_env_hook(nullptr);
    vc_guar_hook(nullptr);
    VC_ASSERT(mine == 1, "C11: every completed input is counted");
    VC_ASSERT(runs == (last ? 1 : 0), "C11: the completion of the last input makes the combined future ready, no other does");
    VC_ASSERT(st->continuations().executed() == last, "C11: ready exactly when all inputs are");
    if (last) vc_cover("last"); else vc_cover("not last");
    all = nullptr;
  }
}

VC_UNIT(when_any_notify_any, C12) {
  vc_model();
  {
    auto st = std::make_shared<Any>(Seq{});
    any_ = st.get();
    size_t pos = vc_nondet_u64(), other = vc_nondet_u64();
    if (vc_choice(2)) { // another input has won already
      st->ready_flag_.test_and_set();
      st->result_.index = other;
    } else {
      other = st->result_.index;
    }
    st->continuations().push([] { ++runs; });
    vc_env_hook(&env_any);
    vc_guar_hook(reinterpret_cast<void (*)(void *, void *, void *)>(&guar_any));
    st->notify(pos);
    vc_env_hook(nullptr);
    vc_guar_hook(nullptr);
    VC_ASSERT(runs == (last ? 1 : 0), "C12: exactly the first completion makes the combined future ready");
    VC_ASSERT(st->result_.index == (last ? pos : other), "C12: the index is the position of the first completion and is not changed by others");
    if (last) vc_cover("first"); else vc_cover("not first");
    any_ = nullptr;
  }
}
