// Contract of detail::wait(state) for any state: whatever the moment of completion and however many spurious wake-ups.
// The state is its interface contract: push runs the callback at once if the result is there, otherwise the completing
// thread runs it later.  The completer may act whenever the waiting thread takes or has released the mutex.
#include "kit.h"

namespace vc {
struct AnyState final : pc::detail::future_state_base {
  pc::detail::continuations_stack cs;
  pc::detail::continuation cb;
  bool armed = false, done = false;
  int ran = 0, pushed = 0;
  pc::detail::continuations_stack &continuations() override { return cs; }
  void push(pc::detail::continuation &&c) override {
    ++pushed;
    VC_ASSERT(pushed == 1, "C05: one callback per wait");
    if (!done && vc_choice(2)) complete();
    if (done) { c(); ++ran; return; }
    cb = std::move(c);
    armed = true;
  }
  std::exception_ptr exception() override { return nullptr; }
  void complete() {
    done = true;
    cs.execute();
    if (armed) { armed = false; ++ran; cb(); }
  }
};
inline AnyState *S = nullptr;
inline void *held = nullptr; // mutex the waiting thread holds
inline void *parked = nullptr; // condition variable it sleeps on
inline bool other = false, other_held = false, woken = false;

inline void interfere() {
  if (other || S->done || !vc_choice(2)) return;
  other = true;
  S->complete();
  other = false;
  VC_ASSERT(!other_held, "C05: the completer releases the mutex");
}
inline void m_lock(void *m) {
  if (other) { VC_ASSERT(!other_held, "C05: the mutex is not locked twice"); other_held = true; return; }
  VC_ASSERT(!held, "C05: the mutex is not locked twice");
  interfere();
  held = m;
}
inline void m_unlock(void *m) {
  if (other) { VC_ASSERT(other_held, "C05: unlock of a held mutex"); other_held = false; return; }
  VC_ASSERT(held == m, "C05: unlock of a held mutex");
  held = nullptr;
}
inline void m_wait(void *cv, void *m) {
  VC_ASSERT(held == m && !other, "C05: sleeps with the mutex held, in the waiting thread only");
  VC_ASSERT(!S->done, "C05: nobody goes to sleep once the result is there");
  held = nullptr;
  parked = cv;
  woken = false;
  if (vc_choice(2)) { // the completion arrives now
    other = true;
    S->complete();
    other = false;
    VC_ASSERT(!other_held, "C05: the completer releases the mutex");
    VC_ASSERT(woken, "C05: the completion wakes the sleeping thread");
  } // otherwise a spurious wake-up
  parked = nullptr;
  held = m;
}
inline void m_notify(void *cv) { if (cv == parked) woken = true; }
inline vc_monitor mon = {&m_lock, &m_unlock, &m_wait, nullptr, &m_notify, &m_notify, nullptr};
} // namespace vc

VC_UNIT(wait_any, C05) {
  vc_model();
  {
    AnyState s;
    S = &s;
    if (vc_choice(2)) s.complete();
    vc_mon = &mon;
    pc::detail::wait(s);
    vc_mon = nullptr;
    VC_ASSERT(!held && !other_held, "C05: the mutex is released");
    VC_ASSERT(s.done, "C05: wait returns only when the result is there");
    vc_cover("returned");
  }
}
