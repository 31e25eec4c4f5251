// Thread-modular contracts of continuations_stack: callbacks of one shared state, any number of threads, any list length.
#include "kit.h"
using Cont = pc::detail::continuation;
using Node = pc::detail::forward_list_node<Cont>;
using CS = pc::detail::continuations_stack;
using Stack = pc::detail::once_consumable_stack<Cont>;

namespace vc {
inline CS *S = nullptr;
inline Stack *stk() { return &S->stack_; }
inline Node *marker() { return stk()->consumed_marker(); }
inline int published = 0, consumed_by_me = 0, runs = 0, drops = 0;
inline bool may_push = false, may_consume = false, env_consumes = true;
inline bool started = false; // the value is ready: the list was consumed (by anyone)

inline void env(void *p, int) {
  if (!S || p != static_cast<void *>(&stk()->head_)) return;
  Node *cur = stk()->head_.load(std::memory_order_relaxed);
  if (cur == marker()) return;
  int k = vc_choice(env_consumes ? 3 : 2);
  if (k == 1) stk()->head_.store(static_cast<Node *>(vc_opaque("node published by another thread")), std::memory_order_relaxed);
  else if (k == 2) stk()->head_.store(marker(), std::memory_order_relaxed);
}

inline void guarantee(void *p, void *o, void *n) {
  if (!S || p != static_cast<void *>(&stk()->head_)) return;
  Node *old = static_cast<Node *>(o), *now = static_cast<Node *>(n);
  VC_ASSERT(old != marker() || now == marker(), "C02: the consumed state is final");
  if (now == old) return;
  if (now == marker()) {
    VC_ASSERT(may_consume && consumed_by_me == 0, "C02: only execute closes the list, once");
    ++consumed_by_me;
    return;
  }
  VC_ASSERT(may_push && published == 0 && runs == 0, "C02: only push publishes the callback, once, before it is run");
  VC_ASSERT(now != nullptr && now->next == old, "C02: a new callback is put on top of the current list");
  VC_ASSERT(bool(now->val), "C02: the published callback is not empty");
  ++published;
  vc_forget(now);
}

struct Once { // the callback passed to push
  int id;
  Once(int i) : id(i) {}
  Once(Once &&o) noexcept : id(o.id) { o.id = -1; }
  void operator()() {
    VC_ASSERT(id == 7 && runs == 0, "C02: a callback runs at most once");
    VC_ASSERT(stk()->head_.load(std::memory_order_relaxed) == marker(), "C02: a callback runs only when the result is ready");
    ++runs;
  }
};
} // namespace vc

// push: the callback is published exactly once, or run in place exactly once because the result is already there
VC_UNIT(cs_push_any, C02_C05) {
  vc_model();
  {
    CS s;
    S = &s;
    int k = vc_choice(3);
    stk()->head_.store(k == 0 ? nullptr : k == 1 ? static_cast<Node *>(vc_opaque("node published by another thread")) : marker(), std::memory_order_relaxed);
    may_push = true;
    vc_env_hook(&env);
    vc_guar_hook(&guarantee);
    if (vc_choice(2)) s.push(Cont{Once{7}});
    else s.push(Cont{Once{7}}, std::allocator<char>{});
    vc_env_hook(nullptr);
    vc_guar_hook(nullptr);
    VC_ASSERT(published + runs == 1, "C02: the callback is either kept for later or run now, exactly once");
    if (runs) vc_cover("run in place"); else vc_cover("published");
    stk()->head_.store(nullptr, std::memory_order_relaxed);
    S = nullptr;
  }
}

namespace vc {
// list of arbitrary length; nodes[0] is its first node, the nodes between nodes[0] and nodes[1] are folded (all run)
inline Node *nodes[6] = {};
inline int nn = 0;
inline bool releasing = false;
void *gen_done(void *, void *);
struct Cb {
  bool armed, ran;
  explicit Cb(bool r) : armed(true), ran(r) {}
  Cb(Cb &&o) noexcept : armed(o.armed), ran(o.ran) { o.armed = false; }
  ~Cb() {
    if (!armed) return;
    VC_ASSERT(ran, "C02: every attached callback is run before it is dropped");
  }
  void operator()() {
    VC_ASSERT(armed && !ran, "C02: a callback runs exactly once");
    VC_ASSERT(!S || stk()->head_.load(std::memory_order_relaxed) == marker(), "C02: callbacks run only after the list was closed");
    ran = true;
    int live_nodes = 0;
    for (int i = 0; i < nn; ++i) if (vc_alive(nodes[i])) nodes[live_nodes++] = nodes[i]; // released ones need no summary
    for (int i = live_nodes; i < nn; ++i) nodes[i] = nullptr;
    nn = live_nodes;
    int me = -1;
    for (int i = 0; i < nn; ++i) if (vc_same_object(nodes[i], this)) me = i;
    if (me < 2) return;
    // fold the run nodes between the first one and this one
    int d = me - 1;
    for (int i = 1; i < me; ++i) { vc_fold(nodes[i]); }
    for (int i = me; i < nn; ++i) nodes[i - d] = nodes[i];
    for (int i = nn - d; i < nn; ++i) nodes[i] = nullptr;
    nn -= d;
    vc_lazy(&nodes[0]->next, &gen_done, nullptr);
  }
};
inline void *gen_list(void *, void *) {
  if (vc_choice(2)) return nullptr;
  if (nn >= 6) vc_giveup("callbacks are looked at before they are run");
  auto n = pc::detail::allocate_list_node(Cont{Cb{false}}, std::allocator<Cont>{});
  vc_lazy(&n->next, &gen_list, nullptr);
  return nodes[nn++] = n.release();
}
inline void *gen_done(void *, void *) { // the folded segment, seen again: any number of callbacks that were run, then nodes[1]
  if (vc_choice(2)) return nodes[1];
  auto n = pc::detail::allocate_list_node(Cont{Cb{true}}, std::allocator<Cont>{});
  vc_lazy(&n->next, &gen_done, nullptr);
  return n.release();
}
} // namespace vc

// execute: with any number of callbacks attached, each is run exactly once, after the list is closed, and released once
VC_UNIT(cs_execute_any_length, C02_C03_C18) {
  vc_model();
  {
    {
      CS s;
      S = &s;
      Node *head = nullptr;
      vc_lazy(&head, &gen_list, nullptr);
      stk()->head_.store(head, std::memory_order_relaxed);
      may_consume = true;
      vc_guar_hook(&guarantee);
      s.execute();
      vc_guar_hook(nullptr);
      VC_ASSERT(consumed_by_me == 1 && s.executed(), "C02: execute closes the list");
      if (nn >= 2) vc_cover("list of arbitrary length");
    }
    S = nullptr;
    VC_ASSERT(vc_heap_blocks() == 0, "C18: each node is released");
  }
}
