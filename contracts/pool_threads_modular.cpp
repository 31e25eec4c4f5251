// Contracts of static_thread_pool's constructor, wait() and destructor for any number of threads.  std::vector<std::thread> is
// replaced by its contract: a sequence of `size` threads (symbolic); KP is an arbitrary position, tk the thread at KP, to the thread at any other
// position.  Starting a thread is replaced by its contract (the body runs once), static_thread_pool::attach by its contract
// (pool_modular.cpp: returns only after the queue was closed), closable_queue::close by its contract (queue_modular.cpp).
#include "vc.h"
#include <thread>
#include <vector>

namespace vc {
inline uint64_t KP = 0, size_ = 0; // of the sequence under contract
inline uint64_t left = 0;          // constructor: threads still to be started
inline std::thread *tk = nullptr, *to = nullptr;
inline uint8_t joined_k = 0, made_k = 0;
inline bool up = true, fresh = false, is_closed = false;
inline void set_id(std::thread *t, unsigned long id) { *reinterpret_cast<unsigned long *>(t) = id; }
inline unsigned long id_of(const std::thread &t) { return *reinterpret_cast<const unsigned long *>(&t); }
} // namespace vc

namespace std {
template <> class vector<thread, allocator<thread>> { // contract of std::vector<std::thread>
public:
  using value_type = thread;
  using size_type = size_t;
  using reference = thread &;
  struct iterator {
    using iterator_category = forward_iterator_tag;
    using value_type = thread;
    using difference_type = ptrdiff_t;
    using pointer = thread *;
    using reference = thread &;
    vector *v;
    uint64_t pos;
    thread &operator*() const { return (*v)[pos]; }
    thread *operator->() const { return &(*v)[pos]; }
    iterator &operator++() { ++pos; return *this; }
    iterator operator++(int) { iterator r = *this; ++pos; return r; }
    bool operator!=(const iterator &o) const { return pos != o.pos; }
    bool operator==(const iterator &o) const { return pos == o.pos; }
  };
  vector() {}
  vector(const vector &) = delete;
  ~vector() { clear(); }
  void reserve(size_t) {}
  size_t size() const { return vc::size_; }
  bool empty() const { return vc::size_ == 0; }
  iterator begin() { return {this, 0}; }
  iterator end() { return {this, vc::size_}; }
  thread &operator[](size_t i) {
    VC_ASSERT(i < vc::size_, "access within the sequence");
    if (i == vc::KP) return *vc::tk;
    vc::set_id(vc::to, 77); // some other thread
    return *vc::to;
  }
  thread &front() { return (*this)[0]; }
  thread &back() { return (*this)[vc::size_ - 1]; }
  void push_back(thread &&t) {
    VC_ASSERT(vc::id_of(t) != 0 && vc::fresh, "C14: each worker thread was started and serves the pool");
    vc::fresh = false;
    if (vc::up) { if (vc::size_ == vc::KP) ++vc::made_k; ++vc::size_; }
    else { VC_ASSERT(vc::left > 0, "C14: not more threads than asked for"); --vc::left; }
    vc::set_id(&t, 0); // moved from
  }
  template <typename... A> thread &emplace_back(A &&...a) { push_back(thread(std::forward<A>(a)...)); return *vc::to; }
  void clear() {
    VC_ASSERT((vc::KP >= vc::size_) | (vc::id_of(*vc::tk) == 0), "C14: no worker is left behind: every thread has been joined");
    vc::size_ = 0;
  }
  void pop_back() {
    VC_ASSERT(vc::size_ > 0, "pop_back of a non-empty sequence");
    VC_ASSERT((vc::KP != vc::size_ - 1) | (vc::id_of(*vc::tk) == 0), "C14: no worker is left behind: every thread has been joined");
    --vc::size_;
  }
  void swap(vector &) { vc_giveup("swap"); }
};
} // namespace std

#include "kit.h"
static_assert(std::is_same<decltype(pc::static_thread_pool::threads_), std::vector<std::thread>>::value, "the contract of std::vector is used");
using Pool = pc::static_thread_pool;
using Q = pc::detail::closable_queue<pc::unique_function<void()>>;

namespace vc {
inline Pool *pool = nullptr, *served = nullptr;
inline uint8_t attached = 0;
inline void attach_contract(Pool *p) {
  served = p;
  VC_ASSERT(attached == 0, "C14: a worker attaches itself once");
  ++attached;
}
inline void start_contract(std::thread *self, std::unique_ptr<std::thread::_State> *st, void (*)()) {
  attached = 0;
  {
    std::unique_ptr<std::thread::_State> s = std::move(*st);
    s->_M_run();
  }
  VC_ASSERT(attached == 1, "C14: each worker thread serves the pool");
  if (pool) VC_ASSERT(served == pool, "C14: each worker thread serves its own pool");
  pool = served;
  attached = 0;
  fresh = true;
  set_id(self, 77);
}
inline void join_contract(std::thread *self) {
  VC_ASSERT(id_of(*self) != 0, "C14: only a joinable thread is joined");
  VC_ASSERT(is_closed, "C14: workers are joined only after the queue was closed (they leave only then)");
  if (self == tk) ++joined_k;
  set_id(self, 0);
}
inline void close_contract(Q *) { is_closed = true; }
inline void setup() {
  vc_model();
  vc_opt("widen", 1);
  KP = vc_nondet_u64();
  auto a = &Pool::attach;
  vc_subst(*reinterpret_cast<void **>(&a), reinterpret_cast<void *>(&attach_contract));
  vc_subst(reinterpret_cast<void *>(&vcs_thread_start), reinterpret_cast<void *>(&start_contract));
  vc_subst(reinterpret_cast<void *>(&vcs_thread_join), reinterpret_cast<void *>(&join_contract));
  auto c = &Q::close;
  vc_subst(*reinterpret_cast<void **>(&c), reinterpret_cast<void *>(&close_contract));
}
} // namespace vc

static void ctor_any(bool counting_up) {
  setup();
  up = counting_up;
  std::aligned_storage_t<sizeof(std::thread)> k{}, o{};
  tk = reinterpret_cast<std::thread *>(&k);
  to = reinterpret_cast<std::thread *>(&o);
  uint64_t n = vc_nondet_u64();
  vc_assume(n < (1u << 20));
  left = n;
  {
    Pool p{n};
    if (n > 0) VC_ASSERT(pool == &p, "C14: the workers serve this pool");
    if (up) VC_ASSERT(size_ == n, "C14: as many workers as asked for");
    else VC_ASSERT(left == 0, "C14: as many workers as asked for");
    VC_ASSERT(!is_closed && !p.stopped_.load(), "C14: a new pool accepts tasks");
    if (n == 0) vc_cover("none"); else vc_cover("some");
    size_ = 0;
  }
}
VC_UNIT(pool_ctor_any_number, C14) { ctor_any(false); }
VC_UNIT(pool_ctor_any_number_alt2, C14) { ctor_any(true); }

// wait(), again wait(), then destruction; or destruction alone
static void finish_any(bool wait_first) {
  setup();
  std::aligned_storage_t<sizeof(std::thread)> k{}, o{};
  tk = reinterpret_cast<std::thread *>(&k);
  to = reinterpret_cast<std::thread *>(&o);
  {
    std::aligned_storage_t<sizeof(Pool), alignof(Pool)> room;
    Pool *p = new (&room) Pool{0};
    uint64_t n = vc_nondet_u64();
    vc_assume((n < (1u << 20)) & ((n == 0) | (KP < n)));
    size_ = n;
    set_id(tk, n ? 77 : 0);
    if (wait_first) {
      p->wait();
      VC_ASSERT(is_closed, "C14: wait() closes the queue");
      VC_ASSERT(joined_k == (n ? 1 : 0), "C14: wait() joins every worker");
      if (n) vc_cover("joined");
      p->wait();
      VC_ASSERT(joined_k == (n ? 1 : 0), "C14: each worker is joined once");
    }
    p->~Pool();
    VC_ASSERT(is_closed, "C14: destruction closes the queue");
    VC_ASSERT(joined_k == (n ? 1 : 0), "C14: destruction leaves no worker behind");
    if (n) vc_cover("joined");
  }
}
VC_UNIT(pool_wait_any_number, C14) { finish_any(true); }
VC_UNIT(pool_destroy_any_number, C14) { finish_any(false); }
