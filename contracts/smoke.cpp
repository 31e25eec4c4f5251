#include "vc.h"
#include "vc_library.h" // every .cpp of the library (written by vc/frontend.py)
#include <portable_concurrency/future>
namespace pc = portable_concurrency;
using namespace vc;
VC_UNIT(setget, C01) {
  {
    auto p = pc::make_promise<Val>();
    p.first.set_value(Val{7});
    VC_ASSERT(thrown([&]{ p.first.set_value(Val{8}); }) == SATISFIED, "second set throws");
    VC_ASSERT(p.second.is_ready(), "ready");
    Val v = p.second.get();
    VC_ASSERT(v.is(7), "C01: value is what was set");
  }
  VC_ASSERT(live == 0, "no value left");
}
VC_UNIT(race, C02) {
  {
    auto p = pc::make_promise<Val>();
    int ran = 0, seen = 0;
    auto t1 = [&] { p.first.set_value(Val{5}); };
    auto t2 = [&] { p.second.notify([&] { ++ran; }); };
    auto t3 = [&] { p.second.wait(); seen = 1; };
    spawn(t1); spawn(t2); spawn(t3);
    vc_join_all();
    VC_ASSERT(ran == 1, "callback ran once");
    VC_ASSERT(p.second.get().is(5), "value");
  }
  VC_ASSERT(live == 0, "no value left");
}
