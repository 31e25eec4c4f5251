// The pool's task queue, through the public interface: a pool without own threads, attach() as consumer, executor() as
// producer, wait() as close.
#include "kit.h"

namespace vc { // ghost state (verifier only: not part of the race analysis)
inline int log_n = 0, log_at[8];
}
namespace {
struct vc_ghost_Log {
  int &n = vc::log_n;
  int (&at)[8] = vc::log_at;
  void add(int k) { if (n < 8) at[n] = k; ++n; }
};
// a task that logs k; counts its copies alive in vc::live through a Val
struct Task {
  vc_ghost_Log *log;
  int k;
  Val v;
  Task(vc_ghost_Log *l, int k) : log(l), k(k), v(k) {}
  Task(Task &&o) noexcept : log(o.log), k(o.k), v(std::move(o.v)) {}
  void operator()() {
    VC_ASSERT(v.is(k), "C13: the task handed out is the one submitted, intact");
    VC_ASSERT(!vc_holds_any_mutex(), "C14: a task is run without the queue being locked");
    log->add(k);
  }
};
} // namespace

VC_UNIT(queue_fifo, C13_C14) {
  {
    vc_ghost_Log log;
    {
      pc::static_thread_pool pool{0};
      int n = vc_choice(4);
      for (int k = 0; k < n; ++k) post(pool.executor(), Task{&log, k});
      VC_ASSERT(log.n == 0, "C13: submitting does not run a task");
      pool.wait(); // no own threads: closes the queue
      post(pool.executor(), Task{&log, 7});
      VC_ASSERT(live == n, "C13: a task submitted after closing is dropped at once");
      pool.attach();
      VC_ASSERT(log.n == n, "C13: a closed queue is drained and nothing else is handed out");
      for (int k = 0; k < n; ++k) VC_ASSERT(log.at[k] == k, "C13: tasks are handed out in submission order");
      pool.attach();
      VC_ASSERT(log.n == n, "C13: each task is handed out once");
      vc_cover("fifo");
    }
    VC_ASSERT(live == 0, "C13: no task is left");
  }
}

// many tasks: several blocks of the underlying container
VC_UNIT(queue_fifo_many, C13) {
  {
    constexpr int N = 40;
    int next = 0;
    pc::static_thread_pool pool{0};
    for (int k = 0; k < N; ++k)
      post(pool.executor(), [&next, k, v = Val{k}] {
        VC_ASSERT(v.is(k), "C13: the task handed out is the one submitted, intact");
        VC_ASSERT(next == k, "C13: tasks are handed out in submission order");
        ++next;
      });
    pool.wait();
    pool.attach();
    VC_ASSERT(next == N, "C13: every accepted task is handed out");
  }
  VC_ASSERT(live == 0, "C13: no task is left");
}

// one consumer, one producer that submits two tasks then closes: every interleaving
VC_UNIT(queue_block_wake, C13_C14) {
  vc_opt("spurious", 1);
  {
    vc_ghost_Log log;
    pc::static_thread_pool pool{0};
    int payload = 0;
    auto consumer = [&] { pool.attach(); };
    auto producer = [&] {
      post(pool.executor(), Task{&log, 0});
      payload = 5;
      post(pool.executor(), [&] {
        VC_ASSERT(payload == 5, "C13: what the submitter wrote is visible to the task");
        log.add(1);
      });
      pool.wait();
    };
    spawn(consumer);
    spawn(producer);
    vc_join_all();
    VC_ASSERT(log.n == 2, "C13: every accepted task is handed to the consumer");
    VC_ASSERT(log.at[0] == 0 && log.at[1] == 1, "C13: in submission order");
  }
  VC_ASSERT(live == 0, "C13: no task is left");
}

// two consumers, tasks + close from the main thread
VC_UNIT(queue_two_consumers, C13_C14) {
  {
    vc_ghost_Log log;
    pc::static_thread_pool pool{0};
    auto consumer = [&] { pool.attach(); };
    spawn(consumer);
    spawn(consumer);
    post(pool.executor(), Task{&log, 0});
    post(pool.executor(), Task{&log, 1});
    pool.wait();
    vc_join_all();
    VC_ASSERT(log.n == 2, "C13: each accepted task is handed to exactly one consumer");
    VC_ASSERT(log.at[0] + log.at[1] == 1, "C13: each accepted task is handed to exactly one consumer");
  }
  VC_ASSERT(live == 0, "C13: no task is left");
}

// two consumers blocked, nothing but a close arrives
VC_UNIT(queue_close_wakes_all, C13_C14) {
  vc_opt("spurious", 1);
  {
    pc::static_thread_pool pool{0};
    auto consumer = [&] { pool.attach(); };
    int a = spawn(consumer), b = spawn(consumer);
    pool.wait();
    vc_join(a);
    vc_join(b);
    vc_cover("both consumers returned");
  }
}

// two producers race; the consumer sees each producer's tasks in order, all of them
VC_UNIT(queue_two_producers, C13) {
  {
    vc_ghost_Log log;
    {
      pc::static_thread_pool pool{0};
      auto p1 = [&] { post(pool.executor(), Task{&log, 0}); post(pool.executor(), Task{&log, 1}); };
      auto p2 = [&] { post(pool.executor(), Task{&log, 2}); };
      spawn(p1);
      spawn(p2);
      vc_join_all();
      pool.wait();
      pool.attach();
      VC_ASSERT(log.n == 3, "C13: every accepted task is handed out exactly once");
      int pos[3] = {-1, -1, -1};
      for (int i = 0; i < 3; ++i) { VC_ASSERT(log.at[i] >= 0 && log.at[i] < 3, "C13: only submitted tasks"); pos[log.at[i]] = i; }
      VC_ASSERT(pos[0] >= 0 && pos[1] >= 0 && pos[2] >= 0 && pos[0] < pos[1], "C13: each submitter's tasks are handed out in its order");
    }
  }
  VC_ASSERT(live == 0, "C13: no task is left");
}

// a submission races with the close and a waiting consumer: run or dropped, never both, never lost inside
VC_UNIT(queue_post_close_race, C13_C14) {
  {
    int ran = 0;
    {
      pc::static_thread_pool pool{0};
      auto consumer = [&] { pool.attach(); };
      auto producer = [&] { post(pool.executor(), [&ran, v = Val{3}] { VC_ASSERT(v.is(3), "C13: intact"); ++ran; }); };
      spawn(consumer);
      spawn(producer);
      pool.wait();
      vc_join_all();
      VC_ASSERT(ran == 0 || ran == 1, "C13: at most once");
      VC_ASSERT(live == 0, "C13: run or dropped, not kept");
      if (ran) vc_cover("ran"); else vc_cover("dropped");
    }
  }
  VC_ASSERT(live == 0, "C13: no task is left");
}

// tasks never handed out are destroyed with the pool
VC_UNIT(queue_destroyed_full, C13_C14) {
  {
    vc_ghost_Log log;
    {
      pc::static_thread_pool pool{0};
      for (int k = 0; k < 3; ++k) post(pool.executor(), Task{&log, k});
    }
    VC_ASSERT(live == 0 && log.n == 0, "C14: tasks never run are destroyed, unexecuted");
  }
}
