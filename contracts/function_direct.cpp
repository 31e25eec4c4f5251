// small_unique_function and its conversions (internal class; skipped if its interface changes)
#include "kit.h"
using pc::unique_function;
namespace {
int calls = 0;
template <int Pad> struct Fun {
  Val v;
  char pad[Pad + 1] = {};
  explicit Fun(int id) : v(id) {}
  Fun(Fun &&) noexcept = default;
  int operator()(int a) { ++calls; return v.tag == ALIVE ? (v.id ^ a) : BAD_OBJ; }
};
} // namespace

VC_UNIT(small_fun_empty, C16) {
  pc::detail::small_unique_function<int(int)> e;
  VC_ASSERT(!e && thrown([&] { e(1); }) == -1001, "C16: calling an empty wrapper throws bad_function_call");
  unique_function<int(int)> f{std::move(e)};
  VC_ASSERT(!f && f == nullptr, "C16: empty compares empty");
  VC_ASSERT(thrown([&] { f(1); }) == -1001, "C16: calling an empty wrapper throws bad_function_call");
}

// conversions between the two wrappers of the library
VC_UNIT(fun_convert, C16) {
  int id = any_id(), arg = int(vc_nondet_u32());
  {
    int big = vc_choice(2);
    unique_function<int(int)> f = big ? unique_function<int(int)>{Fun<64>{id}} : unique_function<int(int)>{Fun<0>{id}};
    pc::detail::small_unique_function<int(int)> s{static_cast<pc::detail::small_unique_function<int(int)> &&>(std::move(f))};
    VC_ASSERT(bool(s) && s(arg) == (id ^ arg), "C16: converted wrapper calls the same callable");
    unique_function<int(int)> g{std::move(s)};
    VC_ASSERT(bool(g) && g(arg) == (id ^ arg), "C16: and back");
    unique_function<int(int)> h;
    pc::detail::small_unique_function<int(int)> s2{static_cast<pc::detail::small_unique_function<int(int)> &&>(std::move(g))};
    h = std::move(s2);
    VC_ASSERT(h(arg) == (id ^ arg), "C16: and back by assignment");
    // wrapper of a different signature inside
    unique_function<long(int)> l{std::move(h)};
    VC_ASSERT(l(arg) == long(id ^ arg), "C16: a wrapper inside a wrapper");
  }
  VC_ASSERT(live == 0, "C16: destroyed once");
}

