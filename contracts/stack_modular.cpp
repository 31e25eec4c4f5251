// Thread-modular contracts of the lock-free callback list, for any number of concurrent threads and any list length.
//
// Shared object: head_.  States: Open(list) and Consumed (head_ == marker).
// Rely (what other threads do between any two atomic accesses of the operation under proof):
//   Open(l) -> Open(n :: l)  (another push),  Open(l) -> Consumed  (consume);  Consumed is absorbing.
// Guarantee (checked at every atomic write of the operation under proof): the same two transitions, where a push publishes
//   the caller's own node, fully initialised, on top of the very list it replaces.
// Nodes published by others are opaque (any access fails), and the own node becomes inaccessible once it is published.
#include "kit.h"
using Stack = pc::detail::once_consumable_stack<Val>;
using Node = pc::detail::forward_list_node<Val>;

namespace vc {
inline Stack *S = nullptr;      // object under proof
inline Node *others = nullptr;  // some list published by other threads (opaque)
inline int published = 0;       // own writes of head_: nodes pushed
inline int consumed_by_me = 0;  // own writes of head_: consume
inline int want = 0;            // id of the value being pushed
inline Node *taken = nullptr;   // list head taken by the own consume
inline bool may_push = false, may_consume = false, env_consumes = true;

inline Node *marker() { return S->consumed_marker(); }

inline void env(void *p, int) {
  if (!S || p != static_cast<void *>(&S->head_)) return;
  Node *cur = S->head_.load(std::memory_order_relaxed);
  if (cur == marker()) return;
  int k = vc_choice(env_consumes ? 3 : 2);
  if (k == 1) {
    others = static_cast<Node *>(vc_opaque("node published by another thread"));
    S->head_.store(others, std::memory_order_relaxed);
  } else if (k == 2) {
    S->head_.store(marker(), std::memory_order_relaxed);
  }
}

inline void guarantee(void *p, void *o, void *n) {
  if (!S || p != static_cast<void *>(&S->head_)) return;
  Node *old = static_cast<Node *>(o), *now = static_cast<Node *>(n);
  VC_ASSERT(old != marker() || now == marker(), "C02: the consumed state is final");
  if (now == marker()) {
    if (old == marker()) return;
    VC_ASSERT(may_consume && consumed_by_me == 0, "C02: only consume closes the list, once");
    ++consumed_by_me;
    taken = old;
    return;
  }
  if (now == old) return;
  VC_ASSERT(may_push && published == 0, "C02: only push publishes a callback, once");
  VC_ASSERT(now != nullptr, "C02: published callbacks are never dropped");
  VC_ASSERT(now->next == old, "C02: a new callback is put on top of the current list");
  VC_ASSERT(now->val.is(want), "C02: the published callback is the one passed to push");
  ++published;
  --live;         // the value is now owned by the list
  vc_forget(now); // from here on it belongs to the consumer: no access, no release
}

inline Node *some_state() { // an arbitrary reachable state of the list
  switch (vc_choice(3)) {
  case 0: return nullptr;
  case 1: return others = static_cast<Node *>(vc_opaque("node published by another thread"));
  default: return marker();
  }
}
} // namespace vc

VC_UNIT(ocs_push_any, C02) {
  vc_model();
  {
    Stack s;
    S = &s;
    s.head_.store(some_state(), std::memory_order_relaxed);
    bool was_consumed = s.head_.load(std::memory_order_relaxed) == marker();
    want = any_id();
    int before = live;
    {
      Val v{want};
      may_push = true;
      vc_env_hook(&env);
      vc_guar_hook(&guarantee);
      bool r = s.push(v);
      vc_env_hook(nullptr);
      vc_guar_hook(nullptr);
      VC_ASSERT(r == (published == 1), "C02: push reports whether the callback was published");
      VC_ASSERT(!(was_consumed && r), "C02: push on a consumed list is refused");
      if (r) {
        vc_cover("published");
      } else {
        VC_ASSERT(s.head_.load(std::memory_order_relaxed) == marker(), "C02: push is refused only when the list is consumed");
        VC_ASSERT(v.is(want), "C02: a refused callback is handed back intact");
        vc_cover("refused");
      }
    }
    VC_ASSERT(live == before, "C02: no copy of the callback is left behind");
    s.head_.store(nullptr, std::memory_order_relaxed);
    S = nullptr;
  }
}

VC_UNIT(ocs_is_consumed_any, C02_C04) {
  vc_model();
  {
    Stack s;
    S = &s;
    s.head_.store(some_state(), std::memory_order_relaxed);
    bool before = s.head_.load(std::memory_order_relaxed) == marker();
    vc_env_hook(&env);
    vc_guar_hook(&guarantee);
    bool r = s.is_consumed();
    vc_env_hook(nullptr);
    vc_guar_hook(nullptr);
    bool after = s.head_.load(std::memory_order_relaxed) == marker();
    VC_ASSERT(!before || r, "C04: once ready, always ready");
    VC_ASSERT(!r || after, "C04: ready is reported only when the list was consumed");
    s.head_.store(nullptr, std::memory_order_relaxed);
    S = nullptr;
  }
}

VC_UNIT(ocs_consume_any, C02) {
  vc_model();
  {
    Stack s;
    S = &s;
    s.head_.store(vc_choice(2) ? nullptr : (others = static_cast<Node *>(vc_opaque("node published by another thread"))), std::memory_order_relaxed);
    env_consumes = false; // consume is called once: no other thread consumes
    may_consume = true;
    vc_env_hook(&env);
    vc_guar_hook(&guarantee);
    auto l = s.consume();
    vc_env_hook(nullptr);
    vc_guar_hook(nullptr);
    VC_ASSERT(consumed_by_me == 1, "C02: consume closes the list");
    VC_ASSERT(l.get() == taken, "C02: consume takes every callback published before");
    VC_ASSERT(s.head_.load(std::memory_order_relaxed) == marker(), "C02: later pushes are refused");
    l.release();
    s.head_.store(nullptr, std::memory_order_relaxed);
    S = nullptr;
  }
}

// ---- lists of arbitrary length: the list is generated node by node when the code first looks at it
namespace vc {
inline Node *cur_node = nullptr;
inline void *gen_list(void *cell, void *) {
  if (vc_choice(2)) return nullptr;
  auto n = pc::detail::allocate_list_node(Val{any_id()}, std::allocator<Val>{});
  vc_lazy(&n->next, &gen_list, nullptr);
  return cur_node = n.release();
}
} // namespace vc

// releasing a list of any length destroys each callback once and frees each node once
VC_UNIT(ocs_release_any_length, C02_C03_C18) {
  vc_model();
  {
    Node *head = nullptr;
    vc_lazy(&head, &gen_list, nullptr);
    pc::detail::forward_list<Val> l{head};
    l.reset();
    VC_ASSERT(live == 0, "C03: each callback of a dropped list is destroyed");
    VC_ASSERT(vc_heap_blocks() == 0, "C18: each node of a dropped list is released");
  }
}

VC_UNIT(ocs_dtor_any_length, C02_C03_C18) {
  vc_model();
  {
    {
      Stack s;
      Node *head = nullptr;
      vc_lazy(&head, &gen_list, nullptr);
      s.head_.store(vc_choice(2) ? s.consumed_marker() : head, std::memory_order_relaxed);
    }
    VC_ASSERT(live == 0, "C03: the callbacks of a list that is never consumed are destroyed with it");
    VC_ASSERT(vc_heap_blocks() == 0, "C18: and their nodes released");
  }
}
