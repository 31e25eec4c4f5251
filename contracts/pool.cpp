// static_thread_pool with its own worker threads.
#include "kit.h"

namespace vc {
inline int ran[8];      // ghost: how often task k was run
inline int done[8];     // ghost: task k has been destroyed
inline int started = 0; // ghost: tasks started
}
namespace {
// a task with a destructor that looks around
struct Task {
  int k;
  bool owner = true;
  explicit Task(int k) : k(k) {}
  Task(Task &&o) noexcept : k(o.k), owner(o.owner) { o.owner = false; }
  ~Task() {
    if (!owner) return;
    VC_ASSERT(!vc_holds_any_mutex(), "C14: a task is not destroyed while the queue is locked");
    ++done[k];
  }
  void operator()() {
    VC_ASSERT(owner && !done[k], "C14: the task run is the one posted");
    VC_ASSERT(!vc_holds_any_mutex(), "C14: a task is run without the queue being locked");
    vc_sched();
    ++started;
    ++ran[k];
  }
};
} // namespace

// wait() runs everything posted before it
template <int Threads, int Tasks> void drain() {
  {
    pc::static_thread_pool pool{Threads};
    int payload = 9;
    for (int k = 0; k < Tasks; ++k) post(pool.executor(), Task{k});
    post(pool.executor(), [&payload, t = Task{Tasks}]() mutable { VC_ASSERT(payload == 9, "C14: writes before post are visible to the task"); payload = 10; t(); });
    pool.wait();
    for (int k = 0; k <= Tasks; ++k) VC_ASSERT(ran[k] == 1, "C14: every task posted before wait() has run exactly once when wait() returns");
    for (int k = 0; k <= Tasks; ++k) VC_ASSERT(done[k] == 1, "C14: finished tasks are destroyed");
    VC_ASSERT(payload == 10, "C14: what tasks wrote is visible after wait()");
    for (int t = 0; t < Threads; ++t) VC_ASSERT(vc_thread_done(t + 1), "C14: no worker is left when wait() returns");
    post(pool.executor(), Task{5});
    VC_ASSERT(ran[5] == 0 && done[5] == 1, "C14: a task posted after wait() is dropped");
    pool.wait();
  }
}
VC_UNIT(pool_drain_1, C14_C13) { drain<1, 1>(); }
VC_UNIT(pool_drain_2, C14_C13) { vc_opt("preemptions", 2); drain<2, 1>(); }
VC_UNIT(pool_drain_2full, C14_C13) { drain<2, 0>(); }

// destruction without wait: workers are gone, each task ran at most once, all destroyed
VC_UNIT(pool_destroy, C14) {
  {
    pc::static_thread_pool pool{1};
    post(pool.executor(), Task{0});
    post(pool.executor(), Task{1});
  }
  VC_ASSERT(vc_thread_done(1), "C14: no worker is left after destruction");
  for (int k = 0; k < 2; ++k) {
    VC_ASSERT(ran[k] <= 1, "C14: at most once");
    VC_ASSERT(done[k] == 1, "C14: every task is destroyed exactly once");
  }
  VC_ASSERT(ran[0] || !ran[1], "C13: in order");
  if (ran[1]) vc_cover("both ran");
  if (!ran[0]) vc_cover("none ran");
}

// idle pools: stop / wait / destroy never hang
VC_UNIT(pool_idle, C14) {
  {
    int n = vc_choice(3), how = vc_choice(5);
    pc::static_thread_pool pool{std::size_t(n)};
    if (how == 1) pool.stop();
    if (how == 2) pool.wait();
    if (how == 3) { pool.stop(); pool.wait(); }
    if (how == 4) { pool.wait(); pool.stop(); }
    if (how >= 2) for (int t = 0; t < n; ++t) VC_ASSERT(vc_thread_done(t + 1), "C14: no worker is left when wait() returns");
  }
  vc_cover("done");
}

// after stop() a worker finishes at most the task it is about to run
VC_UNIT(pool_stop, C14) {
  {
    pc::static_thread_pool pool{1};
    for (int k = 0; k < 3; ++k) post(pool.executor(), Task{k});
    int before = started;
    pool.stop();
    vc_look();
    VC_ASSERT(started >= before, "C14: harness");
    int at_stop = started;
    post(pool.executor(), Task{3});
    VC_ASSERT(done[3] == 1 && !ran[3], "C14: nothing is accepted after stop()");
    pool.wait();
    VC_ASSERT(vc_thread_done(1), "C14: no worker is left when wait() returns");
    VC_ASSERT(started - at_stop <= 1, "C14: after stop() a worker starts at most one more task");
    for (int k = 0; k < 3; ++k) VC_ASSERT(ran[k] == 0 || done[k] == 1, "C14: a finished task is destroyed");
  }
  for (int k = 0; k < 3; ++k) {
    VC_ASSERT(done[k] == 1, "C14: remaining tasks are destroyed");
    VC_ASSERT(ran[k] <= 1, "C14: at most once");
  }
}

// stop() with tasks queued and no worker yet: nothing runs
VC_UNIT(pool_stopped_attach, C14) {
  {
    pc::static_thread_pool pool{0};
    for (int k = 0; k < 2; ++k) post(pool.executor(), Task{k});
    pool.stop();
    pool.attach();
    VC_ASSERT(started == 0, "C14: a worker that arrives after stop() runs nothing");
  }
  VC_ASSERT(done[0] == 1 && done[1] == 1, "C14: remaining tasks are destroyed unexecuted");
}

// a task that stops the pool from inside
VC_UNIT(pool_stop_inside, C14) {
  {
    pc::static_thread_pool pool{0};
    post(pool.executor(), [&, t = Task{0}]() mutable { t(); pool.stop(); });
    post(pool.executor(), Task{1});
    pool.attach();
    VC_ASSERT(ran[0] == 1 && ran[1] == 0, "C14: stop() from a task keeps the rest from running");
    VC_ASSERT(done[0] == 1, "C14: the finished task is destroyed");
  }
  VC_ASSERT(done[1] == 1, "C14: the rest is destroyed");
}

// a finished task is destroyed before its worker looks for the next one
VC_UNIT(pool_task_lifetime, C14) {
  {
    pc::static_thread_pool pool{0};
    bool polled = false;
    auto worker = [&] { pool.attach(); };
    post(pool.executor(), Task{0});
    int w = spawn(worker);
    // the queue is open and empty after the first task: the worker blocks until the close
    auto closer = [&] {
      vc_look();
      if (vc_thread_blocked(w) && ran[0]) {
        polled = true;
        VC_ASSERT(done[0] == 1, "C14: a worker does not keep a finished task alive while it waits for work");
        vc_cover("idle worker seen");
      }
      pool.wait();
    };
    int c = spawn(closer);
    vc_join(c);
    vc_join(w);
    VC_ASSERT(ran[0] == 1 && done[0] == 1, "C14: the task ran once and is gone");
    (void)polled;
  }
}

// what a worker holds when it runs the next task: not the previous one
VC_UNIT(pool_task_lifetime_next, C14) {
  {
    pc::static_thread_pool pool{0};
    post(pool.executor(), Task{0});
    post(pool.executor(), [t = Task{1}]() mutable {
      VC_ASSERT(done[0] == 1, "C14: a finished task is destroyed before the next one is run");
      t();
    });
    pool.wait();
    pool.attach();
    VC_ASSERT(ran[0] == 1 && ran[1] == 1 && done[0] == 1 && done[1] == 1, "C14: both ran once and are gone");
  }
}

// destroying a task posts another one (its destructor completes a promise whose continuation posts): no self-deadlock
VC_UNIT(pool_task_dtor_posts, C14_C10) {
  {
    pc::static_thread_pool pool{0};
    auto pf = pc::make_promise<int>();
    int got = -1;
    auto f2 = pf.second.then(pool.executor(), [&](pc::future<int> f) { got = code([&] { return f.get(); }); });
    post(pool.executor(), [p = std::move(pf.first)] {});
    post(pool.executor(), [&] { pool.stop(); });
    auto w = [&] { pool.attach(); };
    int t = spawn(w);
    vc_join(t);
    VC_ASSERT(got == -1 || got == BROKEN, "C14: broken promise delivered");
  }
  vc_cover("no deadlock");
}

// an external thread attaches while the pool has its own worker
VC_UNIT(pool_attach_extra, C14) {
  vc_opt("preemptions", 2);
  {
    pc::static_thread_pool pool{1};
    bool left = false;
    auto ext = [&] { pool.attach(); left = true; };
    int e = spawn(ext);
    post(pool.executor(), Task{0});
    pool.wait();
    vc_join(e);
    VC_ASSERT(ran[0] == 1 && left, "C14: the task ran once and the attached thread left");
  }
}

// stop() alone releases a thread that lends itself to the pool, also one that is asleep
VC_UNIT(pool_stop_releases, C14) {
  {
    pc::static_thread_pool pool{0};
    bool left = false;
    auto ext = [&] { pool.attach(); left = true; };
    int e = spawn(ext);
    bool work = vc_choice(2);
    if (work) post(pool.executor(), Task{0});
    pool.stop();
    post(pool.executor(), Task{1});
    vc_join(e);
    VC_ASSERT(left && ran[1] == 0 && done[1] == 1, "C14: stop() lets the attached thread leave; a later task is dropped");
    VC_ASSERT(!work || ran[0] <= 1, "C14: a task is run at most once");
  }
}

// pool used as executor of a continuation, destroyed while it may be pending
VC_UNIT(pool_async, C14_C10_C04) {
  {
    pc::future<int> f;
    {
      pc::static_thread_pool pool{1};
      f = pc::async(pool.executor(), [] { return 42; });
      if (vc_choice(2)) pool.wait();
    }
    VC_ASSERT(f.is_ready(), "C04: run or destroyed by the pool, the future is ready");
    int r = get_code<int>(f);
    VC_ASSERT(r == 42 || r == BROKEN, "C14: the task ran, or broken_promise");
    if (r == 42) vc_cover("ran"); else vc_cover("broken");
  }
}

// a task that throws terminates the program (documented); it never silently disappears
VC_UNIT(pool_task_throws, C14) {
  vc_opt("expect_terminate", 1);
  pc::static_thread_pool pool{0};
  post(pool.executor(), [] { throw boom{1}; });
  pool.wait();
  pool.attach();
  vc_fail("C14: an exception leaving a task terminates");
}
