// Native side of the contract language: runs one proof unit, compiled from the same LLVM IR the verifier judged (the real
// code of /repo), on real threads, following the choices and the schedule of a counterexample.  Not instrumented itself.
// Only one thread runs at a time; control changes hands only at the points where the verifier schedules.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <pthread.h>
#include <string>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <vector>

extern "C" {
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
void __tsan_read1(void *) __attribute__((weak));
int __asan_address_is_poisoned(void const volatile *) __attribute__((weak));
void vcn_unit();
}

namespace {
struct Ev { char kind; long a, b; };
Ev *trace; size_t ntrace, pos;
const char *expect = "";
bool in_unit = false;

// NB: no allocation through operator new in here while the unit runs (blocks are counted): fixed arrays only
constexpr int MAXT = 24, MAXM = 64;
enum Status { RUN, PARKED, DONE };
struct Th {
  int status = RUN;
  bool at = false;        // stopped before a visible operation
  int kind = 0;           // 0 plain, 1 lock, 2 join
  void *mtx = nullptr; int jt = -1;
  int key = 0;            // why parked: 1 cv, 2 timed cv, 3 join
  void *cv = nullptr; int64_t dl = 0;
  bool timed_out = false;
  int go = 0;             // futex: may run
  void (*fn)(void *) = nullptr; void *arg = nullptr;
  pthread_t pt{};
} th[MAXT];
int nth = 1;
__thread int me = 0;
struct Mx { void *m; int own; } mx[MAXM]; int nmx = 0;
struct Opt { char k[24]; int v; } opts[32]; int nopts = 0;
int64_t now_ = 1000;
int lastgrant = -1;
long blocks = 0;

void out(const char *k, const char *t) {
  char b[1200];
  int n = snprintf(b, sizeof b, "VCN %s | %s\n", k, t);
  if (write(2, b, n)) {}
}
#ifdef VCN_COV
extern "C" int __llvm_profile_write_file(void);
[[noreturn]] void finish(int rc) { __llvm_profile_write_file(); _exit(rc); }
#else
[[noreturn]] void finish(int rc) { _exit(rc); }
#endif
[[noreturn]] void diverge(const char *why) { out("DIVERGED", why); finish(50); }
int opt(const char *k) { for (int i = 0; i < nopts; ++i) if (!strcmp(opts[i].k, k)) return opts[i].v; return 0; }
void setopt(const char *k, int v) {
  for (int i = 0; i < nopts; ++i) if (!strcmp(opts[i].k, k)) { opts[i].v = v; return; }
  strncpy(opts[nopts].k, k, 23); opts[nopts++].v = v;
}
uint64_t rnd_ = 0; // != 0: validation mode, choices and schedules are random
uint64_t rnd() { rnd_ ^= rnd_ << 13; rnd_ ^= rnd_ >> 7; rnd_ ^= rnd_ << 17; return rnd_; }
long next(char kind, long dflt) {
  if (rnd_) return kind == 'n' ? long(rnd() >> (rnd() % 60)) : dflt;
  if (pos >= ntrace) return dflt;
  if (trace[pos].kind != kind) diverge("the trace and the run differ");
  return trace[pos++].a;
}
int choose(int n) { return n <= 1 ? 0 : rnd_ ? int(rnd() % n) : int(next('c', 0)); }
int owner(void *m) { for (int i = 0; i < nmx; ++i) if (mx[i].m == m) return mx[i].own; return -1; }
void setown(void *m, int o) {
  for (int i = 0; i < nmx; ++i) if (mx[i].m == m) { if (o < 0) mx[i] = mx[--nmx]; else mx[i].own = o; return; }
  if (o >= 0) { mx[nmx].m = m; mx[nmx++].own = o; }
}
void hand(int t) {
  __atomic_store_n(&th[t].go, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, &th[t].go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void await_turn(int t) {
  while (!__atomic_load_n(&th[t].go, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &th[t].go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(&th[t].go, 0, __ATOMIC_SEQ_CST);
}
bool enabled(Th &t, int i) {
  if (t.kind == 1) { int o = owner(t.mtx); return o < 0 || o == i; }
  if (t.kind == 2) return th[t.jt].status == DONE;
  return true;
}
// who runs next; mirrors Engine.schedule
int pick() {
  int en[MAXT], n = 0;
  for (int i = 0; i < nth; ++i) if (th[i].status == RUN) {
    if (!th[i].at) return i;
    if (enabled(th[i], i)) en[n++] = i;
  }
  if (!n) {
    for (int i = 0; i < nth; ++i) if (th[i].status == PARKED && th[i].key == 2) { th[i].status = RUN; th[i].timed_out = true; return i; }
    bool any = false;
    for (int i = 0; i < nth; ++i) any |= th[i].status != DONE;
    if (any) { out("DEADLOCK", "no thread can run"); finish(45); }
    return -1;
  }
  int g = en[0];
  if (n > 1) {
    int d = en[0];
    for (int i = 0; i < n; ++i) if (en[i] == lastgrant) d = lastgrant;
    g = rnd_ ? en[rnd() % n] : int(next('s', d));
    bool ok = false;
    for (int i = 0; i < n; ++i) ok |= en[i] == g;
    if (!ok) diverge("the scheduled thread cannot run");
    lastgrant = g;
  }
  th[g].at = false;
  return g;
}
void switch_from(int t) { // t is parked, done or at a visible operation
  int g = pick();
  if (g == t) return;
  if (g >= 0) hand(g);
  if (th[t].status != DONE) await_turn(t);
}
void visible(int kind = 0, void *m = nullptr, int jt = -1) {
  if (nth == 1 || !in_unit) return;
  Th &t = th[me];
  t.at = true; t.kind = kind; t.mtx = m; t.jt = jt;
  switch_from(me);
}
void touch(void *p) {
  volatile char c = *static_cast<volatile char *>(p); (void)c;
  if (__asan_address_is_poisoned && __asan_address_is_poisoned(p)) { out("MEMORY", "a synchronisation object is used outside its lifetime"); finish(43); }
  if (__tsan_read1) __tsan_read1(p);
}
void *runner(void *p) {
  me = int(reinterpret_cast<intptr_t>(p));
  await_turn(me);
  th[me].fn(th[me].arg);
  if (__tsan_release) __tsan_release(&th[me]);
  th[me].status = DONE;
  for (int i = 0; i < nth; ++i) if (th[i].status == PARKED && th[i].key == 3 && th[i].jt == me) th[i].status = RUN;
  switch_from(me);
  return nullptr;
}
void release(void *m) { if (__tsan_release) __tsan_release(m); setown(m, -1); }
void acquire(void *m) { setown(m, me); if (__tsan_acquire) __tsan_acquire(m); }
void advance(int64_t d) { if (d > now_) now_ = d; }
// waiters of a cv in the order they came is the verifier's order: keep a list
void *wq_cv[MAXT * 4]; int wq_t[MAXT * 4]; int nwq = 0;
void wq_add(void *cv) { wq_cv[nwq] = cv; wq_t[nwq++] = me; }
void wq_del(int i) { for (; i + 1 < nwq; ++i) { wq_cv[i] = wq_cv[i + 1]; wq_t[i] = wq_t[i + 1]; } --nwq; }
void wq_clean() { for (int i = 0; i < nwq;) { Th &t = th[wq_t[i]]; if (t.status != PARKED || t.cv != wq_cv[i] || t.key == 3) wq_del(i); else ++i; } }
int cv_wait(void *cv, void *m, bool timed, int64_t dl) {
  touch(cv); touch(m);
  if (owner(m) != me) { out("FAIL mutex", "condition variable wait without holding the mutex"); finish(42); }
  visible();
  int n = 1; bool tmo = timed && !opt("lazy_timeout"), spur = opt("spurious") > 0;
  n += tmo; n += spur;
  int k = choose(n);
  bool is_tmo = tmo && k == 1, is_spur = spur && k == n - 1 && k > 0;
  if (is_spur) setopt("spurious", opt("spurious") - 1);
  release(m);
  bool to = is_tmo;
  if (is_tmo) advance(dl);
  if (k == 0) {
    Th &t = th[me];
    wq_clean(); wq_add(cv);
    t.status = PARKED; t.key = timed ? 2 : 1; t.cv = cv; t.dl = dl; t.timed_out = false;
    switch_from(me);
    to = t.timed_out;
    if (to) advance(dl);
    t.key = 0;
  }
  visible(1, m);
  touch(m);
  acquire(m);
  return to;
}
} // namespace

extern "C" {
void vc_assume(int c) noexcept { if (!c && rnd_) finish(0); if (!c) diverge("an assumption is false"); }
void vc_assert(int c, const char *t) noexcept {
  if (c) return;
  if (rnd_ || !strcmp(t, expect)) { out("FAIL", t); finish(42); }
  out("other assertion fails", t);
}
void vc_fail(const char *t) noexcept { vc_assert(0, t); }
void vc_cover(const char *) noexcept {}
int vc_choice(int n) noexcept { return choose(n); }
uint64_t vc_nondet_u64() noexcept { return uint64_t(next('n', 0)); }
uint32_t vc_nondet_u32() noexcept { return uint32_t(next('n', 0)); }
void vc_opt(const char *k, int v) noexcept { setopt(k, v); }
int vc_symbolic() noexcept { return 0; }
void *vc_opaque(const char *) noexcept { diverge("not replayable"); }
void vc_freeze(const void *, size_t, const char *) noexcept {}
void vc_unfreeze(const void *) noexcept {}
int vc_alive(const void *) noexcept { diverge("not replayable"); }
void vc_forget(void *) noexcept { diverge("not replayable"); }
void vc_env_hook(void (*)(void *, int)) noexcept { diverge("not replayable"); }
void vc_hook_begin() noexcept {}
void vc_hook_end() noexcept {}
int vc_is_null(void *p) noexcept { return !p; }
int vc_heap_blocks() noexcept { return int(blocks); }
int vc_alignment(const void *p) noexcept { auto a = reinterpret_cast<uintptr_t>(p) | (1u << 20); return int(a & -a); }
void vc_stop() noexcept { finish(0); }
int vc_spawn(void (*f)(void *), void *a) noexcept {
  int t = nth;
  if (t >= MAXT) diverge("too many threads");
  th[t] = Th{};
  th[t].fn = f; th[t].arg = a;
  nth = t + 1;
  bool was = in_unit; in_unit = false;
  pthread_create(&th[t].pt, nullptr, runner, reinterpret_cast<void *>(intptr_t(t)));
  in_unit = was;
  return t;
}
void vc_join(int t) noexcept {
  visible(2, nullptr, t);
  while (th[t].status != DONE) { th[me].status = PARKED; th[me].key = 3; th[me].jt = t; switch_from(me); }
  if (__tsan_acquire) __tsan_acquire(&th[t]);
}
void vc_join_all() noexcept {
  for (;;) {
    int w = -1;
    for (int i = 0; i < nth && w < 0; ++i) if (i != me && th[i].status != DONE) w = i;
    if (w < 0) break;
    th[me].status = PARKED; th[me].key = 3; th[me].jt = w;
    switch_from(me);
  }
  if (__tsan_acquire) for (int i = 0; i < nth; ++i) if (i != me) __tsan_acquire(&th[i]);
}
int vc_tid() noexcept { return me; }
void vc_sched() noexcept { visible(); }
void vc_look() noexcept { visible(); }
int vc_thread_done(int t) noexcept { return th[t].status == DONE; }
int vc_thread_blocked(int t) noexcept { return th[t].status == PARKED; }
int vc_mutex_lock(void *m) noexcept {
  visible(1, m);
  touch(m);
  if (owner(m) == me) { out("DEADLOCK", "a thread locks a mutex it already holds"); finish(45); }
  acquire(m);
  return 0;
}
int vc_mutex_trylock(void *m) noexcept {
  visible();
  touch(m);
  if (owner(m) >= 0) return 16;
  acquire(m);
  return 0;
}
int vc_mutex_unlock(void *m) noexcept {
  touch(m);
  if (owner(m) != me) { out("FAIL mutex", "unlock of a mutex the thread does not hold"); finish(42); }
  release(m);
  return 0;
}
int vc_mutex_held(void *m) noexcept { return owner(m) == me; }
int vc_holds_any_mutex() noexcept { for (int i = 0; i < nmx; ++i) if (mx[i].own == me) return 1; return 0; }
int vc_cv_wait(void *cv, void *m) noexcept { return cv_wait(cv, m, false, 0); }
int vc_cv_timedwait(void *cv, void *m, int64_t dl) noexcept { return cv_wait(cv, m, true, dl); }
void vc_cv_notify_one(void *cv) noexcept {
  visible();
  touch(cv);
  wq_clean();
  int idx[MAXT], n = 0;
  for (int i = 0; i < nwq; ++i) if (wq_cv[i] == cv) idx[n++] = i;
  if (!n) return;
  int k = choose(n);
  th[wq_t[idx[k]]].status = RUN;
  wq_del(idx[k]);
}
void vc_cv_notify_all(void *cv) noexcept {
  visible();
  touch(cv);
  wq_clean();
  for (int i = 0; i < nwq;) if (wq_cv[i] == cv) { th[wq_t[i]].status = RUN; wq_del(i); } else ++i;
}
void vc_cv_destroy(void *cv) noexcept {
  touch(cv);
  wq_clean();
  for (int i = 0; i < nwq; ++i) if (wq_cv[i] == cv) { out("FAIL condition-variable", "destroyed while a thread waits on it"); finish(42); }
}
int64_t vc_now() noexcept { return now_; }
void vc_set_now(int64_t t) noexcept { now_ = t; }
void *vc_alloc(size_t n) noexcept;
void vcn_atomic(int refcount, int) {
  if (nth == 1 || !in_unit) return;
  if (refcount && !opt("sched_refcount")) return;
  visible();
}
// a compare-exchange-weak about to succeed may fail spuriously
int vcn_weak(int eq) {
  if (!eq || opt("weak_cas") <= 0) return 0;
  int k = choose(2);
  if (k) setopt("weak_cas", opt("weak_cas") - 1);
  return k;
}

void __assert_fail(const char *e, const char *, unsigned, const char *) noexcept { out("ASSERT", e); finish(48); }
}
namespace std { void __glibcxx_assert_fail(const char *, int, const char *, const char *c) noexcept { out("ASSERT", c ? c : ""); finish(48); } }

static bool fail_alloc() {
  if (!in_unit || opt("alloc_fail") <= 0) return false;
  if (choose(2) == 1) { setopt("alloc_fail", opt("alloc_fail") - 1); return true; }
  return false;
}
// the unit's calls of operator new / delete are renamed to these (blocks are counted, allocation can be made to fail)
extern "C" {
void *vcn_Znwm(size_t n) { if (fail_alloc()) throw std::bad_alloc(); ++blocks; return malloc(n ? n : 1); }
void *vcn_Znam(size_t n) { return vcn_Znwm(n); }
void *vcn_ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &) { if (fail_alloc()) return nullptr; ++blocks; return malloc(n ? n : 1); }
void *vcn_ZnwmSt11align_val_t(size_t n, size_t a) { if (fail_alloc()) throw std::bad_alloc(); ++blocks; return aligned_alloc(a, (n + a - 1) / a * a); }
void vcn_ZdlPv(void *p) { if (p) --blocks; free(p); }
void vcn_ZdaPv(void *p) { vcn_ZdlPv(p); }
void vcn_ZdlPvm(void *p, size_t) { vcn_ZdlPv(p); }
void vcn_ZdaPvm(void *p, size_t) { vcn_ZdlPv(p); }
void vcn_ZdlPvSt11align_val_t(void *p, size_t) { vcn_ZdlPv(p); }
void vcn_ZdlPvmSt11align_val_t(void *p, size_t, size_t) { vcn_ZdlPv(p); }
}
extern "C" void *vc_alloc(size_t n) noexcept { if (fail_alloc()) return nullptr; ++blocks; return malloc(n ? n : 1); }
extern "C" void vc_free(void *p) noexcept { vcn_ZdlPv(p); }

int main(int argc, char **argv) {
  // argv: trace file, expected obligation
  FILE *f = fopen(argv[1], "r");
  char kind; long a, b;
  std::vector<Ev> v;
  while (fscanf(f, " %c %ld %ld", &kind, &a, &b) == 3) v.push_back({kind, a, b});
  fclose(f);
  trace = v.data(); ntrace = v.size();
  expect = argv[2];
  if (const char *r = getenv("VCN_RANDOM")) rnd_ = strtoull(r, nullptr, 10) * 0x9E3779B97F4A7C15ull + 1;
  std::set_terminate([] { if (opt("expect_terminate")) { out("OK", "expected terminate"); finish(0); } out("TERMINATE", "std::terminate"); finish(47); });
  setopt("weak_cas", 1);
  alarm(60);
  in_unit = true;
  vcn_unit();
  in_unit = false;
  if (blocks != 0 && !opt("leaks_ok")) { char t[64]; snprintf(t, sizeof t, "%ld heap blocks are not freed", blocks); out("LEAK", t); finish(46); }
  out("OK", "the unit finished without a failure");
  finish(0);
}
