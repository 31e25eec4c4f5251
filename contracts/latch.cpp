// latch: for every initial count and every sequence of decrements (symbolic), and every interleaving of a few threads.
#include "kit.h"

// sequential: the counter decreases by exactly the amounts counted down
VC_UNIT(latch_counts, C15) {
  int64_t n = int64_t(vc_nondet_u64()), a = int64_t(vc_nondet_u64()), b = int64_t(vc_nondet_u64());
  vc_assume(n >= 0);
  vc_assume(a >= 0 && a <= n);
  vc_assume(b >= 0 && b <= n - a);
  pc::latch l{n};
  VC_ASSERT(l.is_ready() == (n == 0), "C15: ready exactly when the count is zero");
  l.count_down(a);
  VC_ASSERT(l.is_ready() == (n - a == 0), "C15: the counter decreases by exactly the amount counted down");
  l.count_down(b);
  VC_ASSERT(l.is_ready() == (n - a - b == 0), "C15: the counter decreases by exactly the amount counted down");
  int64_t c = n - a - b;
  l.count_down(c);
  VC_ASSERT(l.is_ready(), "C15: zero is reached");
  l.wait();
  l.count_down(0);
  VC_ASSERT(l.is_ready(), "C15: zero stays zero");
  l.wait();
  vc_cover("done");
}

VC_UNIT(latch_default_step, C15) {
  int64_t n = int64_t(vc_nondet_u64());
  vc_assume(n >= 2);
  pc::latch l{n};
  l.count_down(n - 2);
  VC_ASSERT(!l.is_ready(), "C15: not zero yet");
  l.count_down();
  VC_ASSERT(!l.is_ready(), "C15: count_down() counts one");
  l.count_down_and_wait();
  VC_ASSERT(l.is_ready(), "C15: count_down_and_wait() counts one");
}

namespace vc { inline int64_t left = 0; } // ghost: the count that must remain

// waiters blocked before / during / after the decrements
template <int Waiters> void wait_release(bool spurious) {
  if (spurious) vc_opt("spurious", 1);
  int64_t n = int64_t(vc_nondet_u64()), a = int64_t(vc_nondet_u64());
  vc_assume(n >= 1);
  vc_assume(a >= 0 && a <= n);
  {
    pc::latch l{n};
    int d0 = 0, d1 = 0;
    auto w = [&] {
      l.wait();
      VC_ASSERT(l.is_ready(), "C15: wait() returns only at zero");
      VC_ASSERT(d0 == 1 && d1 == 1, "C15: wait() returns only after every decrement that made up the count; what they wrote is visible");
    };
    auto c0 = [&] { d0 = 1; l.count_down(a); };
    auto c1 = [&] { d1 = 1; l.count_down(n - a); };
    vc_assume(a > 0 && a < n);
    for (int i = 0; i < Waiters; ++i) spawn(w);
    spawn(c0);
    spawn(c1);
    vc_join_all();
    VC_ASSERT(l.is_ready(), "C15: zero");
  }
  vc_cover("all released");
}
VC_UNIT(latch_wait_1, C15) { wait_release<1>(true); }
VC_UNIT(latch_wait_2, C15) { wait_release<2>(false); }

// count_down_and_wait in several threads: nobody leaves early, everybody leaves
VC_UNIT(latch_rendezvous, C15) {
  {
    pc::latch l{3};
    int arrived[3] = {0, 0, 0};
    int k0 = 0, k1 = 1, k2 = 2;
    auto t = [&](int &k) {
      arrived[k] = 1;
      l.count_down_and_wait();
      VC_ASSERT(arrived[0] && arrived[1] && arrived[2], "C15: count_down_and_wait() returns only when everybody has counted down");
    };
    auto t0 = [&] { t(k0); };
    auto t1 = [&] { t(k1); };
    auto t2 = [&] { t(k2); };
    spawn(t0);
    spawn(t1);
    spawn(t2);
    vc_join_all();
    VC_ASSERT(l.is_ready(), "C15: zero");
  }
  vc_cover("all released");
}

// the owner waits, then destroys the latch while the counting thread may still be returning from its call
template <typename Count> void destroy_after_wait(bool spurious, Count count) {
  if (spurious) vc_opt("spurious", 1);
  {
    auto *l = new pc::latch{1};
    auto c = [&, l] { count(*l); };
    int t = spawn(c);
    l->wait();
    delete l; // C15: allowed: zero was observed
    vc_cover("destroyed");
    vc_join(t);
  }
}
VC_UNIT(latch_destroy_down, C15) { destroy_after_wait(true, [](pc::latch &l) { l.count_down(); }); }
VC_UNIT(latch_destroy_downwait, C15) { destroy_after_wait(true, [](pc::latch &l) { l.count_down_and_wait(); }); }

// two waiters, the first to return destroys: the destructor waits for the other
VC_UNIT(latch_destroy_two, C15) {
  {
    auto *l = new pc::latch{2};
    auto c = [&, l] { l->count_down_and_wait(); };
    auto d = [&, l] { l->wait(); };
    int in = 0;
    spawn(c);
    l->count_down();
    l->wait();
    (void)in;
    delete l;
    vc_join_all();
    (void)d;
  }
  vc_cover("destroyed");
}

// the owner itself counts down last by count_down_and_wait and destroys
VC_UNIT(latch_destroy_rendezvous, C15) {
  {
    auto *l = new pc::latch{2};
    auto c = [&, l] { l->count_down_and_wait(); };
    int t = spawn(c);
    l->count_down_and_wait();
    delete l;
    vc_join(t);
  }
  vc_cover("destroyed");
}

// is_ready from another thread: once true, everything is visible and wait does not block
VC_UNIT(latch_poll, C15) {
  {
    pc::latch l{2};
    int d = 0, e = 0;
    auto c = [&] { d = 1; l.count_down(); };
    auto c2 = [&] { e = 1; l.count_down(); };
    auto p = [&] {
      if (l.is_ready()) {
        VC_ASSERT(d == 1 && e == 1, "C15: is_ready() is true only at zero, with the writes before the decrements visible");
        l.wait();
        vc_cover("seen ready");
      }
    };
    spawn(c);
    spawn(c2);
    spawn(p);
    vc_join_all();
  }
}

// the destructor waits only for threads that still leave: a latch nobody waits on can be destroyed at any count
VC_UNIT(latch_unused, C15) {
  ptrdiff_t n = ptrdiff_t(vc_nondet_u64()), k = ptrdiff_t(vc_nondet_u64());
  vc_assume((n >= 0) & (k >= 0) & (k <= n));
  {
    pc::latch l{n};
    if (vc_choice(2)) {
      l.count_down(k);
      VC_ASSERT(l.is_ready() == (k == n), "C15: is_ready() is true exactly when the count is zero");
    }
  }
  vc_cover("destroyed");
}
