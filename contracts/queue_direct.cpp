// closable_queue itself (internal class; skipped if its interface changes)
#include "kit.h"
using Q = pc::detail::closable_queue<pc::unique_function<void()>>;

VC_UNIT(queue_pop_result, C13) {
  {
    Q q;
    int got = -1;
    int n = vc_choice(3);
    for (int k = 0; k < n; ++k) q.push([&got, k] { got = k; });
    q.close();
    q.push([&got] { got = 99; });
    pc::unique_function<void()> t;
    for (int k = 0; k < n; ++k) {
      t = pc::unique_function<void()>{};
      VC_ASSERT(q.pop(t), "C13: 'closed' is reported only when drained");
      VC_ASSERT(bool(t), "C13: a task is handed out");
      t();
      VC_ASSERT(got == k, "C13: in submission order");
    }
    t = pc::unique_function<void()>{};
    got = -1;
    VC_ASSERT(!q.pop(t), "C13: a closed and drained queue reports 'closed'");
    VC_ASSERT(!q.pop(t), "C13: and keeps doing so");
    VC_ASSERT(!t && got == -1, "C13: no task is handed out with 'closed'");
  }
}

VC_UNIT(queue_pop_wakes, C13) {
  vc_opt("spurious", 1);
  {
    Q q;
    int a = -1, b = -1;
    bool closed1 = false, closed2 = false;
    auto c1 = [&] { pc::unique_function<void()> t; if (q.pop(t)) t(); else closed1 = true; };
    auto c2 = [&] { pc::unique_function<void()> t; if (q.pop(t)) t(); else closed2 = true; };
    auto p = [&] { q.push([&] { a = vc_tid(); }); q.push([&] { b = vc_tid(); }); };
    spawn(c1);
    spawn(c2);
    spawn(p);
    vc_join_all(); // not closed: both consumers must be woken by the two tasks
    VC_ASSERT(!closed1 && !closed2, "C13: 'closed' is reported only when closed");
    VC_ASSERT(a >= 0 && b >= 0 && a != b, "C13: each task goes to one consumer");
  }
}
