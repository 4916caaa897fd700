// C17: assignment between optionals of different types.
#include "common.h"
#include "dap/optional.h"
#include "dap/types.h"
#include <stdint.h>
#include <string>

namespace {
// The destination may hold a value before; all pairs of states, histories of
// three assignments.
template <typename D, typename S>
void assign(const S& a, const S& b, const D& wa, const D& wb, const D& was) {
  dap::optional<D> d;
  bool set = false;
  D want{};
  for (int k = 0; k < 3; k++) {
    int op = mc::choose(8, "op");
    const S& v = op & 1 ? b : a;
    const D& w = op & 1 ? wb : wa;
    switch (op) {
      case 0: case 1: { const dap::optional<S> s(v); d = s; set = true; want = w; break; }
      case 2: case 3: { dap::optional<S> s(v); d = s; set = true; want = w; if (!s.has_value() || !(*s == v)) mc::fail("assigning from an optional changed it"); break; }
      case 4: case 5: { dap::optional<S> s(v); d = std::move(s); set = true; want = w; break; }
      case 6: { dap::optional<S> s; if (mc::choose(2, "move")) d = std::move(s); else d = s; set = false; break; }
      case 7: d = was; set = true; want = was; break;
    }
    if (d.has_value() != set || bool(d) != set) mc::fail("the optional %s a value after being assigned one that %s", d.has_value() ? "has" : "lacks", set ? "has one" : "is unset");
    if (set && !(*d == want)) mc::fail("the optional holds another value than it was assigned");
    if (set && !(d.value(was) == want)) mc::fail("value(default) is another value");
    if (!set && !(d.value(was) == was)) mc::fail("value(default) of an unset optional is not the default");
  }
}
}  // namespace

MC_SCENARIO(c17_optional_assignments, pb(0), pb(0)) {
  switch (mc::choose(5, "types")) {
    case 0: assign<dap::integer, int>(5, -7, 5, -7, 1ll << 40); break;
    case 1: assign<int64_t, dap::integer>(int64_t(1) << 50, -1, int64_t(1) << 50, -1, 3); break;
    case 2: assign<dap::string, const char*>("a text that is not a short one", "", "a text that is not a short one", "", "before"); break;
    case 3: assign<double, dap::integer>(5, -7, 5.0, -7.0, 0.5); break;
    case 4: assign<dap::boolean, bool>(true, false, true, false, true); break;
  }
  mc::outcome("ok");
}
