// Every way to make a pending future, completed on demand with a value, an exception or by abandoning its producer.
#pragma once
#include "kit.h"

template <typename U> struct Arena { // a stateful allocator
  using value_type = U;
  int *live_blocks;
  Arena() : live_blocks(nullptr) {} // not the allocator of any promise: using it is an error
  explicit Arena(int *l) : live_blocks(l) {}
  template <typename V> Arena(const Arena<V> &o) : live_blocks(o.live_blocks) {}
  U *allocate(std::size_t n) { ++*live_blocks; return static_cast<U *>(::operator new(n * sizeof(U))); }
  void deallocate(U *p, std::size_t) { --*live_blocks; ::operator delete(p); }
  template <typename V> bool operator==(const Arena<V> &o) const { return live_blocks == o.live_blocks; }
  template <typename V> bool operator!=(const Arena<V> &o) const { return live_blocks != o.live_blocks; }
};

enum { VALUE, ERROR, BROKE };
enum { S_PROMISE, S_ALLOC, S_CANCEL, S_MEMBER, S_TASK, S_ASYNC, S_THEN, S_NEXT, S_SNEXT, S_UNWRAP, S_INTERRUPTIBLE, S_TASK_UNWRAP };

template <typename T> struct Source {
  int kind, outcome, id, blocks = 0, cancelled = 0;
  pc::promise<T> p;
  pc::promise<Val> up; // of the parent
  pc::packaged_task<T()> task;
  Exec ex;
  pc::future<T> f;

  T body() { if (outcome == ERROR) throw boom{1005}; return K<T>::make(id); }
  Source(int kind) : kind(kind), outcome(vc_choice(3)), id(K<T>::fresh_id(3)) {
    switch (kind) {
    case S_PROMISE: { auto pf = pc::make_promise<T>(); p = std::move(pf.first); f = std::move(pf.second); break; }
    case S_ALLOC: { auto pf = pc::make_promise<T>(Arena<char>{&blocks}); p = std::move(pf.first); f = std::move(pf.second); break; }
    case S_CANCEL: { auto pf = pc::make_promise<T>(pc::canceler_arg, [this] { ++cancelled; }); p = std::move(pf.first); f = std::move(pf.second); break; }
    case S_MEMBER: f = p.get_future(); break;
    case S_TASK: task = pc::packaged_task<T()>{[this]() -> T { return body(); }}; f = task.get_future(); break;
    case S_ASYNC:
      // (async with a function that returns a reference does not compile: use a task there)
      if constexpr (std::is_reference<T>::value) { pc::packaged_task<T()> t{[this]() -> T { return body(); }}; f = t.get_future(); post(ex, std::move(t)); }
      else f = pc::async(ex, [this]() -> T { return body(); });
      break;
    case S_TASK_UNWRAP: {
      auto in = pc::make_promise<T>();
      p = std::move(in.first);
      pc::packaged_task<pc::future<T>()> t{[fut = std::move(in.second)]() mutable { return std::move(fut); }};
      f = t.get_future();
      t();
      break;
    }
    default: {
      auto pf = pc::make_promise<Val>();
      up = std::move(pf.first);
      auto in = pc::make_promise<T>();
      if (kind == S_UNWRAP || kind == S_INTERRUPTIBLE) p = std::move(in.first);
      if (kind == S_THEN) f = pf.second.then(ex, [this](pc::future<Val>) -> T { return body(); });
      else if (kind == S_NEXT) f = pf.second.next(ex, [this](Val) -> T { return body(); });
      else if (kind == S_SNEXT) f = pf.second.share().next(ex, [this](const Val &) -> T { return body(); });
      else if (kind == S_UNWRAP) f = pf.second.next([fut = std::move(in.second)](Val) mutable { return std::move(fut); });
      else f = pf.second.then([this](pc::promise<T> q, pc::future<Val>) { p = std::move(q); });
    }
    }
  }
  void complete() {
    switch (kind) {
    case S_TASK: if (outcome == BROKE) task = {}; else task(); break;
    case S_ASYNC: if (outcome == BROKE) ex.drop_all(); else ex.run_all(); break;
    case S_THEN: case S_NEXT: case S_SNEXT:
      if (outcome == BROKE && kind == S_NEXT) { { auto dead = std::move(up); } ex.run_all(); break; } // broken from above: the posted task passes it on
      up.set_value(Val{1});
      if (outcome == BROKE) ex.drop_all(); else ex.run_all();
      break;
    case S_UNWRAP: case S_INTERRUPTIBLE: up.set_value(Val{1}); // then like a promise
    default:
      if (outcome == VALUE) K<T>::set(p, id);
      else if (outcome == ERROR) p.set_exception(mk(1005));
      else { auto dead = std::move(p); }
    }
  }
  int want() const { return outcome == VALUE ? id : outcome == ERROR ? 1005 : BROKEN; }
};
