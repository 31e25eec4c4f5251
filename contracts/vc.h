// Contract language: intrinsics interpreted by the verifier (vc/builtins_vc.py) and, for replay, by rt/native_rt.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <new>
#include <list>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <vector>

extern "C" {
void vc_assume(int) noexcept;
void vc_assert(int, const char *) noexcept;
void vc_fail(const char *) noexcept;
void vc_cover(const char *) noexcept;
int vc_choice(int n) noexcept;
uint64_t vc_nondet_u64() noexcept;
uint32_t vc_nondet_u32() noexcept;
void vc_opt(const char *, int) noexcept;
int vc_symbolic() noexcept;
void *vc_opaque(const char *) noexcept;
void vc_freeze(const void *, size_t, const char *) noexcept;
void vc_unfreeze(const void *) noexcept;
int vc_alive(const void *) noexcept;
void vc_forget(void *) noexcept;
void vc_env_hook(void (*)(void *, int)) noexcept;
// thread-modular contracts
void vc_model() noexcept;                                             // interference is havoc under the rely; loops are closed, not unrolled
void vc_guar_hook(void (*)(void *, void *, void *)) noexcept;         // called after each atomic write (address, old, new)
void vc_lazy(void *cell, void *(*gen)(void *, void *), void *) noexcept; // content of the cell is generated when first read
void vc_fold(void *) noexcept;
void vc_giveup(const char *) noexcept;
int vc_same_object(const void *, const void *) noexcept;
int vc_alignment(const void *) noexcept;                               // alignment the address is known to have
void vc_subst(void *real, void *stub) noexcept;                       // calls of real are replaced by its contract
int vc_heap_blocks() noexcept;
void vc_stop() noexcept;

int vc_spawn(void (*)(void *), void *) noexcept;
void vc_join(int) noexcept;
void vc_join_all() noexcept;
int vc_tid() noexcept;
void vc_sched() noexcept;
void vc_look() noexcept; // scheduling point ordered with every visible operation: put before reading ghost state of other threads
int vc_thread_done(int) noexcept;
int vc_thread_blocked(int) noexcept;
int vc_mutex_lock(void *) noexcept;
int vc_mutex_trylock(void *) noexcept;
int vc_mutex_unlock(void *) noexcept;
int vc_mutex_held(void *) noexcept;
int vc_holds_any_mutex() noexcept;
int vc_cv_wait(void *, void *) noexcept;
int vc_cv_timedwait(void *, void *, int64_t) noexcept;
void vc_cv_notify_one(void *) noexcept;
void vc_cv_notify_all(void *) noexcept;
void vc_cv_destroy(void *) noexcept;
int64_t vc_now() noexcept;
void vc_set_now(int64_t) noexcept;
}

// A proof unit: VC_UNIT(name, C01_C04) { ... }   (name: no "__"; props: ids joined by one underscore)
#define VC_UNIT(name, props) extern "C" __attribute__((used)) void vcu__##name##__##props()

#define VC_UNIT_T(name, props) VC_UNIT(name, props) // thorough tier only
#define VC_ASSERT(c, text) vc_assert(static_cast<int>(static_cast<bool>(c)), text)

// ---- shims: the library's calls of pthread / libstdc++ synchronisation primitives are redirected here (by symbol name)
struct vc_monitor { // thread-modular mode (see monitors below)
  void (*lock)(void *m);
  void (*unlock)(void *m);
  void (*wait)(void *cv, void *m);
  int (*timedwait)(void *cv, void *m, int64_t deadline);
  void (*notify_one)(void *cv);
  void (*notify_all)(void *cv);
  int64_t (*now)();
};
inline vc_monitor *vc_mon = nullptr;

extern "C" {
__attribute__((used)) inline int vcs_mutex_lock(void *m) noexcept {
  if (vc_mon) { vc_mon->lock(m); return 0; }
  auto *d = static_cast<pthread_mutex_t *>(m);
  bool rec = d->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP;
  if (rec && vc_mutex_held(m)) { ++d->__data.__count; return 0; }
  return vc_mutex_lock(m);
}
__attribute__((used)) inline int vcs_mutex_unlock(void *m) noexcept {
  if (vc_mon) { vc_mon->unlock(m); return 0; }
  auto *d = static_cast<pthread_mutex_t *>(m);
  if (d->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP && d->__data.__count) { --d->__data.__count; return 0; }
  return vc_mutex_unlock(m);
}
inline char vcs_sp_mutex[64]; // std::atomic_load/store of shared_ptr
__attribute__((used)) inline void vcs_sp_lock(void *, const void *) noexcept { vc_mutex_lock(&vcs_sp_mutex); }
__attribute__((used)) inline void vcs_sp_lock2(void *, const void *, const void *) noexcept { vc_mutex_lock(&vcs_sp_mutex); }
__attribute__((used)) inline void vcs_sp_unlock(void *) noexcept { vc_mutex_unlock(&vcs_sp_mutex); }
// reader locks are taken as exclusive ones
__attribute__((used)) inline int vcs_rwlock_lock(void *m) noexcept { return vc_mutex_lock(m); }
__attribute__((used)) inline int vcs_rwlock_unlock(void *m) noexcept { return vc_mutex_unlock(m); }
__attribute__((used)) inline int vcs_rwlock_init(void *, const void *) noexcept { return 0; }
__attribute__((used)) inline int vcs_rwlock_destroy(void *) noexcept { return 0; }
__attribute__((used)) inline int vcs_mutex_trylock(void *m) noexcept {
  if (vc_mon) { if (vc_choice(2)) return 16; vc_mon->lock(m); return 0; }
  return vc_mutex_trylock(m);
}
__attribute__((used)) inline unsigned long vcs_pthread_self() noexcept { return vc_tid() + 1; }
__attribute__((used)) inline int vcs_pthread_equal(unsigned long a, unsigned long b) noexcept { return a == b; }
__attribute__((used)) inline int vcs_nanosleep(const timespec *ts, timespec *) noexcept {
  vc_sched();
  vc_set_now(vc_now() + int64_t(ts->tv_sec) * 1000000000 + ts->tv_nsec);
  return 0;
}
__attribute__((used)) inline int vcs_yield() noexcept { vc_sched(); return 0; }
__attribute__((used)) inline void vcs_list_hook(std::__detail::_List_node_base *n, std::__detail::_List_node_base *pos) noexcept {
  n->_M_next = pos;
  n->_M_prev = pos->_M_prev;
  pos->_M_prev->_M_next = n;
  pos->_M_prev = n;
}
__attribute__((used)) inline void vcs_list_unhook(std::__detail::_List_node_base *n) noexcept {
  std::__detail::_List_node_base *nx = n->_M_next, *pv = n->_M_prev;
  pv->_M_next = nx;
  nx->_M_prev = pv;
}
__attribute__((used)) inline void vcs_list_transfer(std::__detail::_List_node_base *n, std::__detail::_List_node_base *first, std::__detail::_List_node_base *last) noexcept {
  if (n == last) return;
  last->_M_prev->_M_next = n;
  first->_M_prev->_M_next = last;
  n->_M_prev->_M_next = first;
  std::__detail::_List_node_base *t = n->_M_prev;
  n->_M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = t;
}
__attribute__((used)) inline void vcs_list_reverse(std::__detail::_List_node_base *n) noexcept {
  std::__detail::_List_node_base *t = n;
  do {
    std::__detail::_List_node_base *x = t->_M_next;
    t->_M_next = t->_M_prev;
    t->_M_prev = x;
    t = x;
  } while (t != n);
}
__attribute__((used)) inline void vcs_list_swap(std::__detail::_List_node_base &x, std::__detail::_List_node_base &y) noexcept {
  auto fix = [](std::__detail::_List_node_base &z, std::__detail::_List_node_base &old) {
    if (z._M_next == &old) z._M_next = z._M_prev = &z;
    else z._M_next->_M_prev = z._M_prev->_M_next = &z;
  };
  std::swap(x._M_next, y._M_next);
  std::swap(x._M_prev, y._M_prev);
  fix(x, y);
  fix(y, x);
}
__attribute__((used)) inline void vcs_throw_bad_function_call() { throw std::bad_function_call(); }
__attribute__((used)) inline void vcs_throw_bad_alloc() { throw std::bad_alloc(); }
__attribute__((used)) inline void vcs_throw_future_error(int c) { throw std::future_error(static_cast<std::future_errc>(c)); }
__attribute__((used)) inline void vcs_throw_length_error(const char *w) { throw std::length_error(w); }
__attribute__((used)) inline void vcs_throw_out_of_range(const char *w) { throw std::out_of_range(w); }
__attribute__((used)) inline void vcs_throw_out_of_range_fmt(const char *w, ...) { throw std::out_of_range(w); }
__attribute__((used)) inline void vcs_throw_logic_error(const char *w) { throw std::logic_error(w); }
__attribute__((used)) inline void vcs_throw_system_error(int) { throw std::runtime_error("system_error"); }
__attribute__((used)) inline void vcs_cv_ctor(void *) noexcept {}
__attribute__((used)) inline void vcs_cv_dtor(void *cv) noexcept { if (!vc_mon) vc_cv_destroy(cv); }
__attribute__((used)) inline void vcs_cv_wait(void *cv, std::unique_lock<std::mutex> *lk) noexcept {
  void *m = lk->mutex();
  if (vc_mon) { vc_mon->wait(cv, m); return; }
  vc_cv_wait(cv, m);
}
__attribute__((used)) inline void vcs_cv_notify_one(void *cv) noexcept {
  if (vc_mon) vc_mon->notify_one(cv); else vc_cv_notify_one(cv);
}
__attribute__((used)) inline void vcs_cv_notify_all(void *cv) noexcept {
  if (vc_mon) vc_mon->notify_all(cv); else vc_cv_notify_all(cv);
}
__attribute__((used)) inline int vcs_cond_clockwait(void *cv, void *m, int, const timespec *ts) noexcept {
  int64_t dl = int64_t(ts->tv_sec) * 1000000000 + ts->tv_nsec;
  if (vc_mon) return vc_mon->timedwait(cv, m, dl) ? 110 : 0;
  return vc_cv_timedwait(cv, m, dl) ? 110 : 0;
}
__attribute__((used)) inline int vcs_cond_timedwait(void *cv, void *m, const timespec *ts) noexcept {
  int64_t dl = int64_t(ts->tv_sec) * 1000000000 + ts->tv_nsec;
  if (vc_mon) return vc_mon->timedwait(cv, m, dl) ? 110 : 0;
  return vc_cv_timedwait(cv, m, dl) ? 110 : 0;
}
__attribute__((used)) inline int64_t vcs_clock_now() noexcept { return vc_mon && vc_mon->now ? vc_mon->now() : vc_now(); }
inline void vcs_thread_routine(void *p) {
  std::unique_ptr<std::thread::_State> st{static_cast<std::thread::_State *>(p)};
  st->_M_run();
}
__attribute__((used)) inline void vcs_thread_start(std::thread *self, std::unique_ptr<std::thread::_State> *st, void (*)()) {
  int tid = vc_spawn(&vcs_thread_routine, st->release());
  *reinterpret_cast<unsigned long *>(self) = tid + 1;
}
__attribute__((used)) inline void vcs_thread_join(std::thread *self) {
  unsigned long &id = *reinterpret_cast<unsigned long *>(self);
  VC_ASSERT(id != 0, "join of a joinable thread");
  vc_join(int(id) - 1);
  id = 0;
}
}

extern "C" {
__attribute__((used)) inline void vcs_thread_detach(std::thread *self) { *reinterpret_cast<unsigned long *>(self) = 0; }
__attribute__((used)) inline unsigned vcs_hw() noexcept { return 2; }
}
// ---- values used to instantiate the library's templates.  The library is parametric in T: ids identify values.
namespace vc {
inline int live = 0;        // Val objects alive
inline int throw_budget = 0; // how many constructors may still throw
struct boom { int id; };    // exception thrown by constructors / user functions

inline void maybe_throw(int id) {
  if (throw_budget > 0 && vc_choice(2)) { --throw_budget; throw boom{id}; }
}

enum : unsigned { ALIVE = 0xA11FE, MOVED = 0x307ED, DEAD = 0xDEAD };

struct Val {
  int id;
  unsigned tag;
  explicit Val(int i) noexcept : id(i), tag(ALIVE) { ++live; }
  Val(const Val &o) noexcept : id(o.id), tag(o.tag) { o.check(); ++live; }
  Val(Val &&o) noexcept : id(o.id), tag(o.tag) { o.check(); o.tag = MOVED; o.id = -1; ++live; }
  Val &operator=(const Val &o) noexcept { check(); o.check(); id = o.id; tag = o.tag; return *this; }
  Val &operator=(Val &&o) noexcept { check(); o.check(); if (this != &o) { id = o.id; tag = o.tag; o.tag = MOVED; o.id = -1; } return *this; }
  ~Val() { check(); tag = DEAD; --live; }
  void check() const noexcept { VC_ASSERT(tag == ALIVE || tag == MOVED, "object is alive when used or destroyed"); }
  bool is(int i) const noexcept { return tag == ALIVE && id == i; }
};

// copy / move may throw
struct TVal {
  int id;
  unsigned tag;
  explicit TVal(int i) : id(i), tag(ALIVE) { ++live; }
  TVal(const TVal &o) : id(o.id), tag(o.tag) { o.check(); maybe_throw(o.id); ++live; }
  TVal(TVal &&o) : id(o.id), tag(o.tag) { o.check(); maybe_throw(o.id); o.tag = MOVED; o.id = -1; ++live; }
  TVal &operator=(const TVal &) = delete;
  ~TVal() { check(); tag = DEAD; --live; }
  void check() const noexcept { VC_ASSERT(tag == ALIVE || tag == MOVED, "object is alive when used or destroyed"); }
  bool is(int i) const noexcept { return tag == ALIVE && id == i; }
};

inline std::exception_ptr mk(int id) { return std::make_exception_ptr(boom{id}); }
// id of the boom inside an exception_ptr, -errc-1 for future_error, -1000 for anything else
inline int err_id(std::exception_ptr e) {
  if (!e) return -2000;
  try { std::rethrow_exception(e); }
  catch (const boom &b) { return b.id; }
  catch (const std::future_error &f) { return -1 - f.code().value(); }
  catch (...) { return -1000; }
}
constexpr int fe(std::future_errc c) { return -1 - static_cast<int>(c); }
constexpr int BROKEN = -1 - static_cast<int>(std::future_errc::broken_promise);
constexpr int NO_STATE = -1 - static_cast<int>(std::future_errc::no_state);
constexpr int SATISFIED = -1 - static_cast<int>(std::future_errc::promise_already_satisfied);
constexpr int RETRIEVED = -1 - static_cast<int>(std::future_errc::future_already_retrieved);
constexpr int NOTHROW = -3000;
// runs f, returns what it threw (same coding) or NOTHROW
template <typename F> int thrown(F &&f) {
  try { f(); }
  catch (const boom &b) { return b.id; }
  catch (const std::future_error &e) { return -1 - e.code().value(); }
  catch (const std::bad_function_call &) { return -1001; }
  catch (...) { return -1000; }
  return NOTHROW;
}
template <typename F> struct thread_fn {
  static void run(void *p) { (*static_cast<F *>(p))(); }
};
template <typename F> int spawn(F &f) { return vc_spawn(&thread_fn<F>::run, &f); }
} // namespace vc
