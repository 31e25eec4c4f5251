// Helpers shared by the contract files: uniform access to promise/future/shared_future for values, references and void.
#pragma once
#include "vc.h"
#include "vc_library.h" // every .cpp of the library (written by vc/frontend.py)
#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/timed_waiter>

namespace pc = portable_concurrency;
using namespace vc;

struct Cell { int id; };
inline Cell cells[8] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};

constexpr int BAD_OBJ = -5000;

// any id a value can have (the proof is for all of them)
inline int any_id() {
  int i = int(vc_nondet_u32());
  vc_assume(i >= 0);
  return i;
}

template <typename T> struct K;

template <> struct K<Val> {
  using P = pc::promise<Val>;
  using F = pc::future<Val>;
  using S = pc::shared_future<Val>;
  static int fresh_id(int) { return any_id(); }
  static void set(P &p, int id) { p.set_value(Val{id}); }
  static void set_copy(P &p, int id) {
    Val v{id};
    struct chk { Val &v; int id; ~chk() { VC_ASSERT(v.is(id), "a value passed by const reference is not altered"); } } c{v, id};
    p.set_value(static_cast<const Val &>(v));
  }
  static int of(const Val &v) { return v.tag == ALIVE ? v.id : BAD_OBJ; }
  static Val make(int id) { return Val{id}; }
};

template <> struct K<Cell &> {
  using P = pc::promise<Cell &>;
  using F = pc::future<Cell &>;
  using S = pc::shared_future<Cell &>;
  static int fresh_id(int k) { return k; }
  static void set(P &p, int id) { p.set_value(cells[id]); }
  static void set_copy(P &p, int id) { p.set_value(cells[id]); }
  static int of(Cell &c) { return &c == &cells[c.id] ? c.id : BAD_OBJ; }
  static Cell &make(int id) { return cells[id]; }
};

template <> struct K<void> {
  using P = pc::promise<void>;
  using F = pc::future<void>;
  using S = pc::shared_future<void>;
  static int fresh_id(int) { return 0; }
  static void set(P &p, int) { p.set_value(); }
  static void set_copy(P &p, int) { p.set_value(); }
  static void make(int) {}
};

template <> struct K<int> {
  static int of(int v) { return v; }
};

template <typename F> int code(F &&f) {
  try { return f(); }
  catch (const boom &b) { return b.id; }
  catch (const std::future_error &e) { return -1 - e.code().value(); }
  catch (...) { return -1000; }
}

template <typename T> int get_code(pc::future<T> &f) { return code([&] { return K<T>::of(f.get()); }); }
template <> inline int get_code<void>(pc::future<void> &f) { return code([&] { f.get(); return 0; }); }
template <> inline int get_code<Val>(pc::future<Val> &f) { return code([&] { Val v = f.get(); return K<Val>::of(v); }); }
template <typename T> int get_code(const pc::shared_future<T> &f) { return code([&] { return K<T>::of(f.get()); }); }
template <> inline int get_code<void>(const pc::shared_future<void> &f) { return code([&] { f.get(); return 0; }); }
template <> inline int get_code<Cell &>(const pc::shared_future<Cell &> &f) { return code([&] { return K<Cell &>::of(const_cast<Cell &>(static_cast<const Cell &>(f.get()))); }); }
template <typename T> int get_code(pc::future<T> &&f) { return get_code<T>(f); }

// satisfies the promise: how = 0 value (moved), 1 value (copied), 2 exception.  Returns the code a reader must get.
template <typename T> int satisfy(pc::promise<T> &p, int how, int id, int err) {
  switch (how) {
  case 0: K<T>::set(p, id); return id;
  case 1: K<T>::set_copy(p, id); return id;
  default: p.set_exception(mk(err)); return err;
  }
}

template <typename F> bool is_ready(F &f) { return f.is_ready(); }

// An executor that keeps what is posted to it; tasks are run, dropped, or left to the caller's choice.
struct Exec {
  struct Q {
    std::vector<pc::unique_function<void()>> tasks;
    int posted = 0;
    int ran = 0;
    bool inside = false; // a posted task is being run
  };
  std::shared_ptr<Q> q = std::make_shared<Q>();
  int size() const { return int(q->tasks.size()); }
  void run_one() {
    VC_ASSERT(!q->tasks.empty(), "harness: a task to run");
    pc::unique_function<void()> t = std::move(q->tasks.front());
    q->tasks.erase(q->tasks.begin());
    bool was = q->inside;
    q->inside = true;
    ++q->ran;
    t();
    q->inside = was;
  }
  void run_all() { while (!q->tasks.empty()) run_one(); }
  void drop_all() { q->tasks.clear(); }
};
template <typename F> void post(Exec e, F &&f) {
  ++e.q->posted;
  e.q->tasks.emplace_back(std::forward<F>(f));
}
namespace portable_concurrency { template <> struct is_executor<Exec> : std::true_type {}; }
